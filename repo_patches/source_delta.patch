From 61fa3e100a0ac16c207fa4506e8d06ed5cbf0cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:14 +0000
Subject: [PATCH 01/14] fix: tokenizer leaks _PROTECTED_n_ keys when protected
 spans are nested

---
 scrappybara/preprocessing/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/preprocessing/tokenizer.py b/scrappybara/preprocessing/tokenizer.py
index bd6fb52..9b27220 100644
--- a/scrappybara/preprocessing/tokenizer.py
+++ b/scrappybara/preprocessing/tokenizer.py
@@ -194,7 +194,8 @@ class Tokenizer(object):
         for replace in self.__re_reattach:
             text = re.sub(replace[0], replace[1], text)
         # Re-establish protected patterns
-        for key, value in protected.items():
+        # (most recent first: a protected pattern may contain the key of an earlier one)
+        for key, value in reversed(list(protected.items())):
             text = text.replace(key, value)
         return text.split()
 
-- 
2.43.0


From 2e5a836a0d79084f2e3f5ccce63b680142d1c74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:14 +0000
Subject: [PATCH 02/14] fix: sentencizer leaks its paragraph mark into tokens
 after a dot followed by a quote

---
 scrappybara/preprocessing/sentencizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/preprocessing/sentencizer.py b/scrappybara/preprocessing/sentencizer.py
index f27a723..aa067b1 100644
--- a/scrappybara/preprocessing/sentencizer.py
+++ b/scrappybara/preprocessing/sentencizer.py
@@ -17,7 +17,7 @@ class Sentencizer(object):
     __re_bracket_block_end = '⦆'
     __re_sent_enders = re.compile(r'([.?!:]+|¶)')
     __re_sanitization = [
-        (re.compile(r'\."'), '."¶'),  # The end dot of a sentence can be in quote
+        (re.compile(r'\."'), '."¶ '),  # The end dot of a sentence can be in quote
     ]
 
     def __init__(self, tokenizer=Tokenizer()):
@@ -65,7 +65,7 @@ class Sentencizer(object):
     def __find_blocks(self, text, ctr, pattern, block_starter, block_ender):
         shift = 0
         for quote, sidx, eidx in [(m.group(), m.start(), m.end()) for m in re.finditer(pattern, text)]:
-            ctr.append(quote[1:-1])
+            ctr.append(quote[1:-1].replace('¶', ' '))
             number = str(len(ctr) - 1)
             text = text[:sidx - shift] + ' ' + block_starter + number + block_ender + ' ' + text[eidx - shift:]
             shift += len(quote) - 4 - len(number)
-- 
2.43.0


From 1e434c20e6a67771075d6010bb2e76030a987dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:14 +0000
Subject: [PATCH 03/14] fix: run_multithreads silently drops items when a
 worker thread fails

---
 scrappybara/utils/multithreading.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/multithreading.py b/scrappybara/utils/multithreading.py
index 648d954..555c71d 100644
--- a/scrappybara/utils/multithreading.py
+++ b/scrappybara/utils/multithreading.py
@@ -11,9 +11,13 @@ class _Thread(threading.Thread):
         self.__input_items = input_items
         self.__process = process
         self.output_items = []
+        self.error = None
 
     def run(self):
-        self.output_items = [self.__process(item) for item in self.__input_items]
+        try:
+            self.output_items = [self.__process(item) for item in self.__input_items]
+        except BaseException as error:
+            self.error = error
 
 
 def run_multithreads(items, process, nb_threads):
@@ -26,4 +30,7 @@ def run_multithreads(items, process, nb_threads):
     for idx, _ in enumerate(items_lists):
         nb_threads[idx].join()
         output_items.extend(nb_threads[idx].output_items)
+    for thread in nb_threads:
+        if thread.error is not None:
+            raise thread.error
     return output_items
-- 
2.43.0


From 407fe9cbd63880b3e7fae50277bb53e3a2aba2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:14 +0000
Subject: [PATCH 04/14] fix: TokenContext drops left context shorter than the
 explored order

---
 scrappybara/langmodel/token_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/langmodel/token_context.py b/scrappybara/langmodel/token_context.py
index 4b1b1ac..c4ac122 100644
--- a/scrappybara/langmodel/token_context.py
+++ b/scrappybara/langmodel/token_context.py
@@ -22,7 +22,7 @@ class TokenContext(object):
         """Given an order n, returns all combinations of ngram: before/token/after"""
         assert order > 1
         exploring_range = order - 1
-        tokens_before = self.__tokens_before[len(self.__tokens_before) - exploring_range:]
+        tokens_before = self.__tokens_before[max(0, len(self.__tokens_before) - exploring_range):]
         tokens_after = self.__tokens_after[:exploring_range]
         tokens = tokens_before + [self.token] + tokens_after
         return [' '.join(items) for items in self.__slide_window(tokens, order)]
-- 
2.43.0


From bc90316de9513cd4165fd6804dd1fdd98bb36763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:14 +0000
Subject: [PATCH 05/14] fix: MLESmoother fails when the corpus has no ngram of
 some order

---
 scrappybara/langmodel/mle_smoother.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scrappybara/langmodel/mle_smoother.py b/scrappybara/langmodel/mle_smoother.py
index faa2e36..0fa9c54 100644
--- a/scrappybara/langmodel/mle_smoother.py
+++ b/scrappybara/langmodel/mle_smoother.py
@@ -34,8 +34,8 @@ class MLESmoother(Smoother):
     def __call__(self):
         for order in range(1, self._last_order + 1):
             data_slices = []
-            ngrams = self._ngrams[order]
-            for process_range in self._process_ranges(len(self._ngrams.get(order, []))):
+            ngrams = self._ngrams.get(order, [])
+            for process_range in self._process_ranges(len(ngrams)):
                 np_counts = np.array([ngrams[i].count for i in process_range])
                 data_slices.append(_DataSlice(np_counts, self.__total_counts[order]))
             np_probas = calc_ngrams_multithread(data_slices, _calc_ngrams, self._nb_processes)
-- 
2.43.0


From 0b4f8058fd02a266fb911971a88edf2c2c5f7305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:14 +0000
Subject: [PATCH 06/14] fix: Tagger returns tags of the padding in addition to
 the tokens' tags

---
 scrappybara/syntax/tagger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 1ba77ea..6fbed11 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -21,4 +21,4 @@ class Tagger(object):
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-        return [[Tag(code) for code in tag_codes[idx][1:sl + 1]] for idx, sl in enumerate(seq_lengths)]
+        return [[Tag(code) for code in tag_codes[idx][1:sl - 1]] for idx, sl in enumerate(seq_lengths)]
-- 
2.43.0


From 16cc4fc8602b23ed52d2a41ec37e9833728d9ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:14 +0000
Subject: [PATCH 07/14] fix: parser attaches a token to 2 parents when LEFT
 follows RIGHT

---
 scrappybara/syntax/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scrappybara/syntax/parser.py b/scrappybara/syntax/parser.py
index d8e72b2..ee64f47 100644
--- a/scrappybara/syntax/parser.py
+++ b/scrappybara/syntax/parser.py
@@ -32,6 +32,7 @@ class _Parse(object):
         if self.__buffer:
             self.__shift()
         self.arcs = []  # Tuples (dep, parent_idx, child_idx)
+        self.__attached = set()  # Idxs of tokens that already have a parent
 
     def __pdep(self, child_idx):
         pdep = self.__deps[child_idx]
@@ -71,10 +72,12 @@ class _Parse(object):
 
     def register_transition(self, trans):
         if trans == Trans.LEFT:
-            self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
+            if self.__stack[-1] not in self.__attached:  # A token cannot have 2 parents
+                self.arcs.append((self.__pdep(self.__stack[-1]), self.__buffer[0], self.__stack[-1]))
             self.__reduce()
         elif trans == Trans.RIGHT:
             self.arcs.append((self.__pdep(self.__buffer[0]), self.__stack[-1], self.__buffer[0]))
+            self.__attached.add(self.__buffer[0])
             self.__shift()
         elif trans == Trans.REDUCE:
             self.__reduce()
-- 
2.43.0


From 7fd410f0de7a1c40b2fa910274e0601992717c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:35 +0000
Subject: [PATCH 08/14] fix: past participle of verbs ending in vowel + e
 (argue gave argueed)

---
 scrappybara/normalization/inflector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/normalization/inflector.py b/scrappybara/normalization/inflector.py
index 82bcadc..8753f96 100644
--- a/scrappybara/normalization/inflector.py
+++ b/scrappybara/normalization/inflector.py
@@ -19,7 +19,7 @@ class Inflector(object):
             if len(lemma) > 1:
                 if lemma[-2] in CONSONANTS and lemma[-1] == 'y':
                     return lemma[:-1] + 'ied'
-                if lemma[-2] in CONSONANTS and lemma.endswith('e'):
+                if lemma.endswith('e'):
                     return lemma + 'd'
                 if lemma[-2] in VOWELS and lemma[-1] in CONSONANTS:
                     best = self.__lm.best_token(lemma + 'ed', lemma + lemma[-1] + 'ed')
-- 
2.43.0


From f75f161980e25115215734198c52ad369ae03a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:27 +0000
Subject: [PATCH 09/14] fix: nested or concurrent iterations over the same Tree
 consumed each other's arcs

---
 scrappybara/utils/tree.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/scrappybara/utils/tree.py b/scrappybara/utils/tree.py
index 33a3e9a..d095697 100644
--- a/scrappybara/utils/tree.py
+++ b/scrappybara/utils/tree.py
@@ -12,14 +12,9 @@ class Tree:
         self.__parents = {}  # Node => (label, node)
 
     def __iter__(self):
-        self.__iter = iter(self.__parents.items())
-        return self
-
-    def __next__(self):
         """Arc iterator"""
-        child, rparent = next(self.__iter)
-        label, parent = rparent
-        return label, parent, child
+        for child, (label, parent) in self.__parents.items():
+            yield label, parent, child
 
     def __len__(self):
         return 1 + len(self.__parents.keys())
-- 
2.43.0


From 8e087d0c23bf3be5da1aa0da9732feae075d4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:27 +0000
Subject: [PATCH 10/14] fix: Tree.has_node was False for a root without
 children

---
 scrappybara/utils/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/utils/tree.py b/scrappybara/utils/tree.py
index d095697..67bac35 100644
--- a/scrappybara/utils/tree.py
+++ b/scrappybara/utils/tree.py
@@ -29,7 +29,7 @@ class Tree:
         return [self.root] + list(self.__parents.keys())
 
     def has_node(self, node):
-        return any([node in self.__children, node in self.__parents])
+        return any([node == self.root, node in self.__children, node in self.__parents])
 
     def ancestors_via(self, node, label):
         """Starting from a node, tries to climb the tree as far as possible via a label.
-- 
2.43.0


From 69a6750c656b97d806d94ccc36b4135a7ff4eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:42 +0000
Subject: [PATCH 11/14] fix: Tagger fails on an empty list of sentences

---
 scrappybara/syntax/tagger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scrappybara/syntax/tagger.py b/scrappybara/syntax/tagger.py
index 6fbed11..7b86ccf 100644
--- a/scrappybara/syntax/tagger.py
+++ b/scrappybara/syntax/tagger.py
@@ -18,6 +18,8 @@ class Tagger(object):
         self.__ptags_model = PTagsModel(len(self.__charset)).load()
 
     def tag(self, token_lists):
+        if not token_lists:
+            return []
         data_per_sentence = [vectorize_sentence(tokens, self.__charset, self.__wordset) for tokens in token_lists]
         seq_lengths, char_codes, word_vectors = zip(*data_per_sentence)
         tag_codes = self.__ptags_model.predict(char_codes, word_vectors)
-- 
2.43.0


From 19e1cfa463cd90e5b56987536b9592406876101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:45 +0000
Subject: [PATCH 12/14] fix: a negated passive copula was ignored in the active
 form of the tuple

'The cake was not eaten by Bob' gave PTN(bob, eat, cake) as well as NCL(cake, NOT be, eaten)
---
 scrappybara/semantics/semantic_tuple_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scrappybara/semantics/semantic_tuple_extractor.py b/scrappybara/semantics/semantic_tuple_extractor.py
index 625f559..07d7143 100644
--- a/scrappybara/semantics/semantic_tuple_extractor.py
+++ b/scrappybara/semantics/semantic_tuple_extractor.py
@@ -187,7 +187,7 @@ class SemanticTupleExtractor(object):
             # Active forms
             if prop.tag == Tag.ADJ and prop.active_verb:
                 for agent in [a for a in prop.agents if a.tag in NOUN_TAGS]:
-                    is_aff = xnor(agent.is_aff, prop.is_aff, noun.is_aff)
+                    is_aff = xnor(agent.is_aff, prop.is_aff, noun.is_aff, copula.is_aff)
                     verb_arg = Argument(prop.active_verb, ArgCode.TRANS.value, is_aff)
                     agent_arg = Argument(agent.canon, _noun_arg_code(agent))
                     stuples.append(SemanticTuple(agent_arg, verb_arg, noun_arg))
-- 
2.43.0


From 3cdf19f5ebe2efe18c52b03d6749a0c0a0ee07ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:55 +0000
Subject: [PATCH 13/14] fix: resolve a relative pronoun that is the subject of
 a reflexive or of a shared-subject clause

'the dog that hurt itself' gave (dog, hurt, that), 'the man who ate but did not drink' gave (who, NOT drink).
---
 scrappybara/syntax/arg_finder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scrappybara/syntax/arg_finder.py b/scrappybara/syntax/arg_finder.py
index b9c86a1..b8b484f 100644
--- a/scrappybara/syntax/arg_finder.py
+++ b/scrappybara/syntax/arg_finder.py
@@ -158,7 +158,8 @@ class ArgFinder(object):
                     subj = tree.child_via(parent, Dep.SUBJ)
                     if subj:
                         # Subject to marked complement: e.g. "I ate but didn't drink"
-                        _register_subjs(node, subj, tree)
+                        ref = self.__resolve_relative_pron(parent, subj, tree)
+                        _register_subjs(node, ref or subj, tree)
                 elif all([node in naked_cpls, parent.tag in NOUN_TAGS, not tree.has_child_via(node, Dep.OBJ)]):
                     subj = tree.child_via(node, Dep.SUBJ)
                     if subj and subj.canon not in self.__relative_pronouns:
@@ -186,7 +187,7 @@ class ArgFinder(object):
         if pron.canon in self.__reflexive_pronouns:
             subj = tree.child_via(verb, Dep.SUBJ)
             if subj:
-                return subj
+                return self.__resolve_relative_pron(verb, subj, tree) or subj
         return None
 
     def __resolve_subj_reflexive_pron(self, verb, pron, tree):
@@ -200,5 +201,5 @@ class ArgFinder(object):
                 if dep == Dep.OBJ and parent.tag == Tag.VERB:
                     subj = tree.child_via(parent, Dep.SUBJ)
                     if subj:
-                        return subj
+                        return self.__resolve_relative_pron(parent, subj, tree) or subj
         return None
-- 
2.43.0


From ed63f9ef9d5d0b3fffbe5025e10ec7a567f4d768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:04 +0000
Subject: [PATCH 14/14] fix: has_only_lowercase_letters accepted capital
 letters

---
 scrappybara/utils/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scrappybara/utils/text.py b/scrappybara/utils/text.py
index 31568d0..6f798dc 100644
--- a/scrappybara/utils/text.py
+++ b/scrappybara/utils/text.py
@@ -8,6 +8,7 @@ DIGITS = set('0123456789')
 UPPERCASE_LETTERS = set('ABCDEFGHIJKLMNOPQRSTUVWXYZ')
 
 _RE_ONLY_LETTERS = re.compile(r'[a-zA-Z]+')
+_RE_ONLY_LOWERCASE_LETTERS = re.compile(r'[a-z]+')
 
 
 # ###############################################################################
@@ -28,7 +29,7 @@ def has_only_letters(token: str) -> bool:
 
 
 def has_only_lowercase_letters(token: str) -> bool:
-    return bool(re.fullmatch(_RE_ONLY_LETTERS, token))
+    return bool(re.fullmatch(_RE_ONLY_LOWERCASE_LETTERS, token))
 
 
 def token_start(token, ending, start_min_length):
-- 
2.43.0


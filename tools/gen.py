#!/usr/bin/env python3
"""Single source of properties.jsonl & MANIFEST.json: run `python3 tools/gen.py` after editing."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

P = []


def prop(id, title, statement, over, qtext, why, files, mech, level_note=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or []},
              '_note': level_note})


PRE = 'scrappybara/preprocessing/'
LM = 'scrappybara/langmodel/'
NO = 'scrappybara/normalization/'
SY = 'scrappybara/syntax/'
SE = 'scrappybara/semantics/'
PI = 'scrappybara/pipeline/'
UT = 'scrappybara/utils/'

prop('C01', 'Tokenizing never loses, invents or reorders text',
     'For every text, the tokens concatenated in order spell exactly the text without its white space, up to the '
     'documented normalization of typographic quotes and dashes and of feet and inches marks after a number. No token '
     'is empty or contains white space (the empty text gives one empty token), and the tokenizer always returns.',
     ['inputs'], 'every string, including punctuation soup, nested quotes, clitics, URLs, numbers and mixed scripts',
     'Tests compare some 200 hand-written strings; conservation must survive every interaction of some 40 ordered '
     'rewriting rules, which only an oracle computed for arbitrary text can judge.',
     [PRE + 'tokenizer.py', PRE + 'sanitization.py'],
     [('ordered rewriting rules that insert separators', PRE + 'tokenizer.py:Tokenizer.__call__'),
      ('protection and restoration of spans that must not be split', PRE + 'tokenizer.py')])

prop('C02', 'Token boundaries follow the splitting rules in every context',
     'For every text the token list is exactly the one given by the ordered splitting rules: punctuation, dots, '
     'abbreviations, acronyms, contractions, possessives, numbers, measures, comparisons, URLs, smileys, slashes, '
     'ampersands, colons, commas, bullets and other symbols are split off or kept whole the same way wherever they '
     'occur in the text and whatever surrounds them.',
     ['inputs'], 'every string; every rule in every context of neighbouring characters',
     'Tests sample one or two contexts per rule, while a rule is an ordered pattern over arbitrary neighbours.',
     [PRE + 'tokenizer.py'],
     [('ordered rules', PRE + 'tokenizer.py:Tokenizer.__call__')])

prop('C03', 'Sentence splitting keeps every token, once and in order',
     'For every text, the tokens of the sentences in order spell the whole text without its white space: nothing is '
     'lost, repeated, reordered or invented, and no marker used internally ever appears. A sentence boundary never '
     'falls inside a double-quoted or parenthesized passage that is opened and closed in the same line.',
     ['inputs'], 'every text: nested and unbalanced quotes and parentheses, blank lines, any mix of sentence enders',
     'The only stable test is one article; nesting, imbalance and line structure are unbounded.',
     [PRE + 'sentencizer.py', PRE + 'tokenizer.py'],
     [('folding of quoted/bracketed spans before splitting', PRE + 'sentencizer.py:Sentencizer.__call__')])

prop('C04', 'Sentence boundaries are placed exactly by the sentence rules',
     'For every text, a sentence ends exactly at line breaks and tabs, at tokens made only of . ? ! or :, and after a '
     'double quote that directly follows a dot, except inside quoted or parenthesized passages; it ends nowhere else '
     '(in particular not at abbreviations, numbers, smileys or URLs), and each sentence holds exactly the tokens of '
     'its part of the text.',
     ['inputs'], 'every text, any sequence of enders, quotes, parentheses, line breaks and words',
     'One article is tested; the rules are ordered rewritings over arbitrary token sequences.',
     [PRE + 'sentencizer.py'],
     [('ordered boundary rules', PRE + 'sentencizer.py')])

prop('C05', 'Tokenizing and sentence splitting are pure and compose by line',
     'A tokenizer or sentencizer gives the same answer for a text whatever it processed before, whichever other threads '
     'are using the same instance at that moment, and for every instance; the sentences of several lines are those of '
     'each line one after the other. A custom tokenizer passed to the sentencizer is the one that produces the tokens.',
     ['inputs', 'histories', 'schedules'],
     'every sequence of calls on a shared instance, every interleaving of concurrent calls, every pair of lines',
     'Tests call a fresh instance sequentially; leftover state or shared scratch state shows up only in histories and '
     'interleavings.',
     [PRE + 'sentencizer.py', PRE + 'tokenizer.py', PI + 'pipeline.py'],
     [('no state kept between calls', PRE + 'tokenizer.py'), ('one instance shared by worker threads', PI + 'pipeline.py')])

prop('C06', 'N-gram extraction and counts are exact',
     'For every list of token lists and every order, the extracted n-grams are, in order and in lower case, exactly '
     'the windows of that many consecutive tokens inside each sentence (none across sentences) whose tokens all are '
     'words of letters not starting with a capital (the word I excepted), and the number kept with each n-gram is '
     'how often it was extracted.',
     ['inputs', 'configurations'], 'every corpus (repetitions, empty and short sentences), every order',
     'Tests use one small corpus and look at a few entries.',
     [LM + 'ngrams_extraction.py', LM + 'ngram.py', LM + 'ngram_store.py', LM + 'smoother.py'],
     [('window extraction', LM + 'ngrams_extraction.py'), ('counting', LM + 'ngram.py')])

prop('C07', 'Maximum-likelihood probabilities are exact for any worker count',
     'The unsmoothed model gives each n-gram its relative frequency: its count over the total count of the n-grams '
     'of the same order, so the probabilities of each order sum to one; a corpus without n-grams of some order is '
     'accepted. The result is the same for every number of workers.',
     ['inputs', 'configurations', 'schedules'], 'every corpus, every maximum order, every number of worker processes',
     'There is no test of the unsmoothed model beyond construction errors.',
     [LM + 'mle_smoother.py', LM + 'smoother.py', UT + 'multithreading.py'],
     [('ratio of counts', LM + 'mle_smoother.py')])

prop('C08', 'Modified Kneser-Ney probabilities are exact for any worker count',
     'The smoothed model gives every n-gram the interpolated modified Kneser-Ney probability computed from the '
     'counts, continuation counts and discounts of the corpus, whatever the number of workers. A corpus too sparse to '
     'estimate the discounts is refused with an error rather than smoothed with wrong values.',
     ['inputs', 'configurations', 'schedules'], 'every corpus, every order from two up, every number of workers',
     'One 3-sentence corpus is tested to a few decimals.',
     [LM + 'mkn_smoother.py', LM + 'smoother.py'],
     [('discounts, continuation counts, interpolation', LM + 'mkn_smoother.py')])

prop('C09', 'A built language model loads back as exactly what was built',
     'After building a model, the files contain exactly the n-grams of the corpus with a positive probability, most '
     'probable first, with their counts and probabilities, '
     'loading them answers queries accordingly, and a later build replaces the file of every order it covers (no '
     'entry of an older corpus survives there). A build that is refused, or whose texts cannot be read to the end, leaves the existing model files as they were.',
     ['histories', 'inputs', 'configurations'],
     'every sequence of builds (accepted or refused) and loads, every corpus and order',
     'The only test checks that an order below two is refused.',
     [LM + 'language_model_builder.py', LM + 'language_model.py', UT + 'files.py'],
     [('write of one file per order', LM + 'language_model_builder.py'), ('load', LM + 'language_model.py')])

prop('C10', 'Language-model queries agree with the loaded counts and probabilities',
     'Membership (with any minimum count), probability and best-candidate queries always agree with the loaded '
     'entries: an n-gram is known exactly if it is listed with at least the requested count, and the best of several '
     'candidates is a known one with the highest probability, or none if none is known.',
     ['inputs', 'histories', 'configurations'], 'every set of entries, every query, any load filter',
     'The stable tests do not load any model (the data is not shipped).',
     [LM + 'language_model.py', LM + 'ngram_store.py'],
     [('stores and lookups', LM + 'language_model.py')])

prop('C11', 'Context-based choices use the longest matching context',
     'The best of several tokens is the one whose most probable window of the highest order around it, on either side, '
     'is the most probable, ties being broken by ever shorter windows down to the token alone (none if no token is '
     'known); the next words are the continuations of the longest end of the text that the model knows, most '
     'probable first. The windows offered for an order are exactly those of that many tokens that contain the '
     'token, including at the edges.',
     ['inputs', 'configurations'], 'every token list, position, order and model content',
     'Four examples of contexts are tested, none with a model.',
     [LM + 'token_context.py', LM + 'language_model.py'],
     [('window enumeration', LM + 'token_context.py'), ('back-off', LM + 'language_model.py')])

prop('C12', 'Spelling standardization picks the form the language model prefers',
     'A word known often enough is returned unchanged; otherwise each spelling variation (-or/-our, -ize/-ise, '
     '-yze/-yse, -se/-ce, -og/-ogue, -el/-ell, e/ae, e/oe) maps every inflected form of a word to the variant whose '
     'base form is the most probable, keeping its ending. A word outside these patterns, or whose variants are '
     'unknown, is returned unchanged.',
     ['inputs', 'configurations'], 'every lower-case word and every language model content',
     'The stable test suite has no language model, so none of the standardization tests run.',
     [NO + 'standardizer.py'], [('ordered variation rules', NO + 'standardizer.py:Standardizer.__call__')])

prop('C13', 'Lemmatization undoes inflection as the tables and the model say',
     'For every word and part of speech the lemma and the detected inflection are those given first by the fixed '
     'forms, then by the irregular tables (also behind a common prefix), then by the inflection endings whose '
     'candidate base form the language model prefers; when no candidate is known the word itself is returned without '
     'inflection. Letter case never matters and words of other parts of speech are returned as they are.',
     ['inputs', 'configurations'], 'every word, tag, table and language model content',
     'The lemmatizer tests need data that is not shipped and do not run; the rules branch on word shape and on the model.',
     [NO + 'lemmatizer.py', UT + 'text.py'], [('ordered rules', NO + 'lemmatizer.py:Lemmatizer.__call__')])

prop('C14', 'Past participles are formed by table, spelling rule and language model',
     'The past participle of a verb is its irregular form when it has one; otherwise it ends in -ed with exactly the '
     'required spelling change: a final e takes only d, consonant+y becomes -ied, and vowel+consonant doubles the '
     'consonant exactly when the doubled form is the more probable one.',
     ['inputs', 'configurations'], 'every verb, every irregular table, every language model content',
     'The inflector tests need data that is not shipped and do not run.',
     [NO + 'inflector.py'], [('ordered rules', NO + 'inflector.py')])

prop('C15', 'Parsing always ends in a well-formed dependency tree',
     'Whatever tags, dependencies and transitions the models predict, parsing a sentence finishes within two '
     'transitions per word and yields arcs that form a projective forest: at most one parent per word, no cycle, no '
     'arc to or from an excluded word, each arc labelled with the child\'s predicted dependency. Each transition '
     'changes the parse exactly as the arc-eager system prescribes, a predicted root below another word is labelled as '
     'a split, and the tree is rooted at the first word that has a child and no parent (no tree without arcs).',
     ['inputs', 'histories'], 'every sentence length and every sequence of predicted labels and transitions',
     'No stable test runs the parser (no weights are shipped); the predictions are arbitrary, so every transition '
     'sequence must be covered.',
     [SY + 'parser.py', SY + 'transitions.py'],
     [('stack/buffer transition system', SY + 'parser.py:_Parse'), ('tree construction', SY + 'parser.py:_build_tree')])

prop('C16', 'Training transitions of a labelled sentence rebuild its tree',
     'For every labelled sentence with a root whose tree is projective (every word of the tree that lies between a '
     'word and its parent descends from that parent), the transitions derived from it, replayed by the parser '
     'with the labels of the sentence, rebuild exactly the labelled tree, and each transition is recorded with the two '
     'words it compares. The labelled sentence exposes exactly the tokens, tags, dependencies and arcs '
     'it was given, and every warning registered for a word.',
     ['inputs'], 'every projective labelled tree, with or without excluded words',
     'A handful of hand-made trees check transition lists; none replays them through the parser.',
     [SY + 'labelled_data.py', SY + 'parser.py'],
     [('static oracle', SY + 'labelled_data.py:LabelledSentence.transitions'), ('replay', SY + 'parser.py:_Parse')])

prop('C17', 'Parser and tagger results line up with their sentences',
     'For every list of sentences the parser and the tagger return, in the same order, exactly one tag per token of '
     'each sentence and one tree per sentence, each being what the models predict for that sentence alone: the batch '
     'size, the number of workers and the neighbouring sentences never change a sentence\'s result. '
     'No model call receives more sentences than the batch size.',
     ['inputs', 'configurations', 'schedules'],
     'every list of sentences (mixed lengths, repeated, one token), every batch size and number of workers',
     'No stable test runs the parser or the tagger.',
     [SY + 'parser.py', SY + 'tagger.py', UT + 'mutables.py'],
     [('batching and regrouping', SY + 'parser.py:Parser.__call__'), ('slicing of padding', SY + 'tagger.py')])

prop('C18', 'Model inputs encode exactly the sentence, aligned and padded',
     'For every sentence of at most fifty tokens, the numeric input has the fixed shape, one row per token in order '
     'between a start and an end row, and zeros elsewhere; each row holds the codes of the last twenty characters '
     'between word marks (one code shared by all unknown characters) and the vector of the word regardless of case '
     '(zeros if unknown). A longer sentence is refused, and position masks select exactly the two requested words. '
     'Character and word tables that are saved and loaded back give the same answers.',
     ['inputs'], 'every sentence up to and beyond the limits, every word length, known and unknown characters and words',
     'Nothing tests vectorization.',
     [SY + 'training_samples.py', SY + 'charset.py', SY + 'wordset.py'],
     [('padding', SY + 'training_samples.py'), ('lookup with unknown fallback', SY + 'charset.py')])

prop('C19', 'Training data keeps inputs and labels of a sample together',
     'The training data extracted from labelled sentences contains every sample exactly once (one per sentence, or '
     'one per transition), in whatever shuffled order, and at every index all the returned lists describe the same '
     'sample: its characters, words, tags, dependencies, compared positions and expected answer; training feeds each list '
     'to the matching input of the network and reports the best accuracy in percent, on the held-out samples if any.',
     ['inputs', 'schedules'], 'every list of labelled sentences and every shuffle',
     'Nothing tests extraction; the shuffle makes order arbitrary.',
     [SY + 'labelled_data.py', SY + 'training_samples.py'],
     [('shuffle before transposition', SY + 'labelled_data.py')])

prop('C20', 'The dependency tree answers every query from the registered arcs',
     'After any sequence of registrations that gives each node at most one parent, every query of the tree (parent, children by label, first child, '
     'descendants, ancestors, siblings, membership, node list, size, iteration over arcs) is exactly what the '
     'registered arcs imply (children grouped by label, each label in registration order), and asking never changes the answer to a later question. '
     'Registering a node below itself is refused and changes nothing.',
     ['histories', 'inputs'], 'every sequence of registrations and queries that builds a tree or forest',
     'There is no test of the tree.',
     [UT + 'tree.py', UT + 'mutables.py'], [('children/parent maps', UT + 'tree.py')])

prop('C21', 'Nodification keeps every meaningful word once and preserves its links',
     'Turning a parsed sentence into nodes merges each proper-name chain into one node with its words in order, '
     'attaches the particles that follow a word to it (a preceding "to" marks an infinitive), drops functional words '
     'and words outside the tree, and keeps every other word exactly once with its text, tag and dependency link (the link is kept when the '
     'parent is itself a node). It never fails, whatever the tree.',
     ['inputs'], 'every dependency tree over every sentence; the content is decided for names that do not fork and '
     'whose first word alone has other dependents, and for particles without dependents',
     'Only whole-pipeline samples exist and they need data that is not shipped.',
     [SY + 'nodifier.py', SY + 'node.py', SY + 'dependencies.py'],
     [('flattening, particles, functional filter', SY + 'nodifier.py')])

prop('C22', 'Corrections, noun chunks and canonical forms follow from the tree',
     'A childless complement or property is retagged between noun and adjective exactly when the word lists say so; a '
     'chunk joins the base forms of a noun and all unmarked nouns that modify it from the left, in sentence order; the '
     'canonical form is the subject form of a personal pronoun, the chunk of a noun, or the base form with its '
     'particles for verbs and adjectives, with the active verb kept for past-participle adjectives.',
     ['inputs', 'configurations'], 'every tree, tags, word lists and lemmas, chunking on or off',
     'Only whole-pipeline samples exist and they need data that is not shipped.',
     [SY + 'fixer.py', SY + 'chunker.py', NO + 'canonicalizer.py'],
     [('fixer', SY + 'fixer.py'), ('chunker', SY + 'chunker.py'), ('canonicalizer', NO + 'canonicalizer.py')])

prop('C23', 'Arguments are attached to their verbs and nouns as the tree implies',
     'For every dependency tree each verb receives exactly the subjects, objects, indirect objects, existences and '
     'properties that its dependents designate, distributed over coordinations, with relative and reflexive pronouns '
     'replaced by their referents and subjects or objects recovered across complements; nouns receive exactly their '
     'adjectives, copula and indirect properties, and passive adjectives their agents introduced by "by".',
     ['inputs'], 'every dependency tree with any labels, tags and pronouns',
     'Only whole-pipeline samples exist and they need data that is not shipped.',
     [SY + 'arg_finder.py', SY + 'node.py'],
     [('direct dependencies', SY + 'arg_finder.py:ArgFinder.__call__'),
      ('pronoun resolution', SY + 'arg_finder.py')])

prop('C24', 'Extracted tuples are exactly those the attached arguments imply',
     'For every analysed sentence the set of extracted tuples is exactly the one the attached arguments imply: '
     'clauses with a verbal object give quadruples or quintuples and nothing shorter for that object, other verbs give '
     'doubles or triples, nouns give their adjective, copula, participle and agent triples, and objects give their '
     'passive triple. Every tuple has a documented shape.',
     ['inputs', 'configurations'], 'every sentence analysis, any number of subjects, objects and properties',
     'Only whole-pipeline samples exist and they need data that is not shipped.',
     [SE + 'semantic_tuple_extractor.py', SE + 'argument_code.py'],
     [('three extraction rounds', SE + 'semantic_tuple_extractor.py:SemanticTupleExtractor.__call__')])

prop('C25', 'A tuple is negative exactly when an odd number of its parts is',
     'A tuple states its verb or copula as negated exactly when an odd number of the sentence elements that form it '
     '(subject, verb, object, property, adjective or agent) are negated, and at most one argument carries the '
     'negation: the verb or copula. Negating one more element always flips it. (Several subjects of a passive triple '
     'count as one element, negated when all of them are.)',
     ['inputs'], 'every tuple form and every combination of negated elements',
     'Negation samples need data that is not shipped and cover single negations.',
     [SE + 'semantic_tuple_extractor.py', UT + 'maths.py', SY + 'arg_finder.py'],
     [('parity over the elements', UT + 'maths.py:xnor')])

prop('C26', 'Tuples, arguments, sentences and documents expose exactly their content',
     'A tuple\'s length, iteration, indexing, code, text and code search agree with the arguments it was made of; an '
     'argument\'s part of speech follows its code, its text shows NOT exactly when it is negative and decorators are '
     'asked for, and an unknown code is refused; a document\'s tuples are those of its sentences in order. Reading '
     'never changes anything.',
     ['inputs', 'histories'], 'every tuple of valid arguments, every sequence of reads, documents of any shape',
     'There is no test of these classes.',
     [SE + 'argument.py', SE + 'semantic_tuple.py', PI + 'document.py', PI + 'sentence.py'],
     [('accessors', SE + 'semantic_tuple.py')])

prop('C27', 'The pipeline returns one document per text, in order',
     'For every list of texts the pipeline returns exactly one document per text in the same order, each containing '
     'one sentence per sentence of its text in order with the tuples of that very sentence; an empty list gives an '
     'empty list and texts without content still get their document.',
     ['inputs', 'configurations', 'schedules'],
     'every list of texts, with any number of sentences each, including none, any custom sentencizer',
     'The pipeline test needs model weights that are not shipped.',
     [PI + 'pipeline.py', PI + 'logic_pipeline.py'],
     [('sentence ranges per text', PI + 'pipeline.py:Pipeline.__call__')])

prop('C28', 'Over-long sentences are split at separators or dropped, nothing else',
     'A sentence of at most fifty tokens is processed as it is; a longer one is cut at the separators : " ; ( ) [ ] '
     '{ } - (which disappear), every piece of at most fifty tokens is processed as its own sentence in order, and '
     'longer pieces are dropped. Other sentences and other texts are never affected.',
     ['inputs'], 'every sentence length around the limit and every placement of separators',
     'No stable test runs the pipeline.',
     [PI + 'pipeline.py', 'scrappybara/config.py'],
     [('re-splitting', PI + 'pipeline.py:Pipeline.__split_tokens')])

prop('C29', 'Pipeline results do not depend on parallelism, batching or neighbours',
     'The document of a text is the same whatever the number of cores, the batch size, the interleaving of workers, '
     'the other texts of the call, and the calls made earlier, later or at the same time; chunking only affects the call it is requested for.',
     ['schedules', 'configurations', 'histories'],
     'every number of cores, batch size, interleaving, list of neighbouring texts and call history',
     'No stable test runs the pipeline, and a test would sample one schedule.',
     [PI + 'pipeline.py', PI + 'logic_pipeline.py', SY + 'parser.py', UT + 'multithreading.py'],
     [('ordered fan-out/fan-in', UT + 'multithreading.py'), ('batches', UT + 'mutables.py')])

prop('C30', 'Parallel map is an ordered, exactly-once map that reports failures',
     'For every list of items, every function and every number of workers, the parallel map calls the function exactly '
     'once per item, never with more calls running at once than workers requested, and returns the results in the '
     'order of the items under every interleaving; a failing item makes the call fail rather than vanish. The division '
     'of a list into parts or batches is a partition into contiguous, ordered, balanced pieces.',
     ['schedules', 'inputs', 'fault_sequences', 'configurations'],
     'every interleaving of workers, every list length, number of workers, and set of failing items',
     'No test of it; single runs see one schedule.',
     [UT + 'multithreading.py', UT + 'mutables.py'],
     [('one thread per slice, joined in order', UT + 'multithreading.py:run_multithreads'),
      ('slicing', UT + 'mutables.py:divide_list')])

prop('C31', 'Laps add up to the total time',
     'Reading a lap shows the time since the previous reading of the same timer (or its creation), reading the total '
     'shows the time since its creation, whatever was read before, and every reading starts a new lap. Times are shown as hours:minutes:seconds '
     'with two digits for minutes and seconds, started seconds not counting.',
     ['histories'], 'every history of readings and waits, every duration',
     'Tests cannot control time and there is none.',
     [UT + 'timer.py'], [('laps', UT + 'timer.py:Timer')])

prop('C32', 'Word lists, tables and saved objects are read back as they are on disk',
     'A word list is the set of the lines of its file and a table maps the first column of each line to the second (the last line '
     'of a key counts, a line without exactly two columns is refused), both in UTF-8 and without the blanks around a line; a saved object is loaded back equal, a '
     'later save replaces it, and a missing file is refused. Every file is looked up under the data folder by its sub-folders and name.',
     ['histories', 'inputs'], 'every history of writes and reads of every file of the data folder',
     'The tests only read the shipped tables.',
     [UT + 'files.py', 'scrappybara/config.py'], [('readers and writers', UT + 'files.py')])

prop('C33', 'Word tests, text marks and grouping helpers are exact',
     'The word tests (only letters, only lower-case letters, starts with a capital, ends with a consonant, vowel and doubled consonant at the end, '
     'start before an ending, prefix and base) hold for exactly the words they name; functions, associations and attributes '
     'marked on a text leave out what is absent and are read back as they were put; grouping helpers keep every item under its key in order, and a reversed table maps each value to its last key; '
     'the chained equality of truth values is the parity of the false ones.',
     ['inputs'], 'every non-empty word, every marked text without the mark itself in its parts, every sequence of additions',
     'None of them is tested.',
     [UT + 'text.py', UT + 'mutables.py', UT + 'maths.py'], [('word tests and marks', UT + 'text.py')])

NOTE = ('TLC evaluates an explicit TLA+ specification of the component and accepts or rejects every behaviour recorded '
        'from the real code; bounded by the generated inputs/histories (counts in the evidence file). Trusts TLC, the '
        'driver that records the real behaviour, and %s.')


def main():
    from checks import REGISTRY
    from checks.info import NOTES, TECHNIQUE
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
    checks, na = [], []
    for p in P:
        i = p['id']
        if i in REGISTRY:
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i,
                           'thorough_cmd': 'python3 check.py %s thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': TECHNIQUE.get(i, 'TLA+ specification; TLC trace validation of the real code'),
                           'level': 'model_checking',
                           'level_note': NOTES.get(i, NOTE % 'the sandbox python')})
        else:
            na.append({'property': i, 'reason': 'check under construction'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 tools/setup_check.py',
                   'checks': checks, 'not_applicable': na,
                   'notes': 'TLA+ / TLC. See DESIGN.md. No hooks in /repo are needed.'}, f, indent=1)
        f.write('\n')
    design()


def design():
    """The table of DESIGN.md"""
    from checks.info import D
    path = os.path.join(HERE, 'DESIGN.md')
    text = open(path, encoding='utf-8').read()
    a, b = '<!-- properties -->\n', '<!-- end -->\n'
    rows = []
    for p in P:
        if p['id'] in D:
            d = D[p['id']]
            rows.append('### %s %s\n\n*Technique.* %s.\n*Specified.* %s\n*Bound to the code by.* %s\n*Quick tier.* %s\n*Beyond the tests.* %s\n' % (
                p['id'], p['title'], d[0], d[1], d[2], d[3], p['why_tests_cant']))
    i, j = text.index(a) + len(a), text.index(b)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text[:i] + '\n' + '\n'.join(rows) + '\n' + text[j:])


if __name__ == '__main__':
    main()

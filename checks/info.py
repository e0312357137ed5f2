"""Per-property technique and assurance notes for MANIFEST.json and DESIGN.md (see tools/gen.py)"""
TRACE = 'TLA+ specification; TLC validates every trace recorded from the real code'
BOTH = 'TLA+ specification model-checked by TLC; its behaviours replayed into the real code; TLC validates the recorded traces'
# id => (technique, what is specified, how it is bound to the code, bounds of the quick tier)
D = {
    'C01': (TRACE, 'Tokenizer.tla + Regex.tla (backtracking regular-expression semantics written in TLA+) + Text.tla. The tokenizer is a rewriting system: a buffer goes through nine stages of ordered rules. '
            'Conserved and WellFormed are stated without the rules (alignment of the visible characters of input and output up to the documented normalizations); SpecConserved is an invariant of the rewriting system.',
            'drivers/tokenizer.py tokenizes generated texts; TokenizerTrace runs the stages on each and judges the observed tokens. Judged: raised, wellformed, conserved.',
            '48k texts: all words up to 4 over 18 small alphabets aimed at one rule each, sequences of up to 5 longer atoms, every fragment of a catalogue in 3 contexts, repeated, and with each character replaced by one of another kind, a grid of 30 symbols between 10 x 6 kinds of neighbours in 4 spacings, abbreviations x case, 4k mutations, 4k random strings, 4k compositions, 140 long texts (up to 2600 characters: many protected spans, one huge word, many lines). Characters: the sets of Text.tla.'),
    'C02': (TRACE, 'as C01: the expected tokens are the result of the rewriting system.', 'as C01; judged: all clauses, including exact boundaries.', 'as C01.'),
    'C03': (TRACE, 'Sentencizer.tla: fold quoted and bracketed passages, cut, tokenize (the tokenizer spec), unfold. Conservation and "no boundary inside a passage" (PassagesWhole: quotations and brackets of a line, nested ones included) are stated on text and result alone.',
            'drivers/sentencizer.py; SentencizerTrace judges raised, conserved, quotes, brackets.', '4.4k texts: exhaustive short words over quote/bracket/ender alphabets, catalogue, mutations, nested compositions up to 260 characters, 120 texts of up to 2600 characters (many passages, many lines).'),
    'C04': (TRACE, 'as C03: expected sentences are those of the specification.', 'as C03; judged: all clauses.', 'as C03.'),
    'C05': (TRACE, 'PurityTrace.tla: a memo table; the first answer (from a fresh process) is every answer; lines compose.', 'drivers/purity.py: histories on shared and fresh instances, threads at a 1 us switch interval, threads stopped at chosen source lines, custom tokenizers.',
            '644 histories/calls; interleavings are sampled, not exhaustive.'),
    'C06': (TRACE, 'Ngrams.tla: windows, validity of tokens, counts.', 'drivers/ngrams.py through the extraction function and the smoothers; NgramsTrace judges extraction and counts.', '750 corpora of up to a dozen sentences and a few large ones (sentences of up to 1300 tokens, up to 1100 sentences, counts above 255), orders 1-6.'),
    'C07': (TRACE, 'Ngrams.tla + BigNat.tla: exact rational probabilities (no floating point in the specification).', 'drivers/ngrams.py runs the MLE smoother with 1-33 workers; the observed float must be the nearest one to the exact fraction up to 1e-13.', '250 corpora, some with sentences repeated up to 70000 times, orders 1-6.'),
    'C08': (TRACE, 'Ngrams.tla: modified Kneser-Ney in exact rational arithmetic, refusal of sparse corpora.', 'as C07 with the MKN smoother.', '160 corpora (dense enough or refused), some with sentences repeated up to 1100 times, orders 2-5, 1-33 workers.'),
    'C09': (TRACE, 'Builder.tla: model files as persistent state; Build replaces or refuses; Load reads.', 'drivers/builder.py: histories of builds and loads on a scratch data folder; files read back; BuilderTrace replays the history, sentencizing and smoothing in the specification.', '34 histories of 1-3 builds (by new builders or one used again, some broken off), with empty texts, many texts (450), many words, and later corpora without n-grams of the higher orders.'),
    'C10': (TRACE, 'LangModel.tla: the loaded table and its queries.', 'drivers/langmodel.py writes scratch model files, loads them with the real class, asks.', '400 models x ~20 queries, some of ~1700 entries.'),
    'C11': (TRACE, 'LangModel.tla: windows around a token, best token by descending order, next words by the longest known context.', 'as C10.', '400 models x ~20 queries.'),
    'C12': (TRACE, 'Standardizer.tla: spelling variations as (start, middle, ending) rules over strings.', 'drivers/normalization.py: synthetic worlds (language model + tables), words grown around every rule.', '2.6k words in dozens of worlds.'),
    'C13': (TRACE, 'Lemmatizer.tla: fixed forms, irregular tables, prefixes, endings, choice by the model.', 'as C12, all parts of speech and letter cases.', '2.6k words.'),
    'C14': (TRACE, 'Lemmatizer.tla/Words.tla: past participle.', 'as C12 through the Inflector.', '2.4k verbs.'),
    'C15': (BOTH, 'ArcEager.tla: parse states and the four transitions. ArcEagerMC: all sentences up to 4 words (5 thorough), all exclusions, all prediction sequences; invariants: well-formed forest, bound, progress, root, each pair compared once; liveness: ends.',
            'Every behaviour of the model is replayed into the real parser through a scripted stand-in for TensorFlow (vlib/faketf.py); ParserTrace checks each compared pair, the arcs and the root. Random predictions on sentences up to 50 words.', 'all behaviours up to 4 words + 350 random batches.'),
    'C16': (BOTH, 'ArcEager.tla oracle. OracleMC: every projective tree up to 5 words (6 thorough) with exclusions; invariant Rebuilds.', 'Every tree of the model + random projective trees up to 50 words through LabelledSentence and the real parser; sentences that are no trees (several roots: the first counts; words without parent) through their queries; LabelledTrace.', '633 trees.'),
    'C17': (TRACE, 'BatchTrace.tla: networks whose answers are formulas of the sentence; the expected tags and arcs are computed per sentence alone (ArcEager).', 'drivers/parser.py mode batches: lists of sentences, batch sizes, workers; the stand-in records the size of every model call.', '130 lists of up to 270 sentences of up to 50 tokens, batch sizes 1-300.'),
    'C18': (TRACE, 'Vectors.tla: layout of the numeric input; character and word tables.', 'drivers/vectors.py: random vocabularies, words, lengths around the limits, large character codes, arbitrary float vectors, masks, save/load.', '~300 cases.'),
    'C19': (TRACE, 'TrainingTrace.tla: the bag of samples.', 'drivers/training.py: the extraction functions; the learn methods with the stand-in network that records what it is fed; what learn returns.', '60 corpora of up to 150 sentences.'),
    'C20': (TRACE, 'Tree.tla: a tree is its sequence of arcs; all queries are derived.', 'drivers/tree.py: histories of registrations interleaved with queries; nodes that are equal but not identical; nested iteration.', '150 histories, trees of up to 60 nodes (chains and broad ones).'),
    'C21': (BOTH, 'Logic.tla stage Nodify. LogicMC: all sentences up to 3 words of a small lexicon (random ones up to 7 in thorough), invariants Once, Kept0.', 'drivers/logic.py: all two-word sentences of the model, sentences grown by TLC simulation, 7k generated ones (natural, clause-like, loose, wild, and 8 families of constructions x negations x decorations), through the whole logic pipeline and stage by stage, and nodification with the arcs in any order; LogicTrace. '
            'Stage observations are only trusted when the composed stages reproduce the whole.', '~9.6k sentences, up to 15 words, some of 25-50.'),
    'C22': (BOTH, 'Logic.tla stage Canonize; invariant NoChunk.', 'as C21 (canonical forms, corrected tags, active verbs), with and without chunking.', 'as C21.'),
    'C23': (BOTH, 'Logic.tla stage Attach; invariant ArgLaw.', 'as C21 (arguments of every node).', 'as C21.'),
    'C24': (BOTH, 'Logic.tla stage Tuples; invariant Good (shapes).', 'as C21 (bag of tuples, shapes).', 'as C21.'),
    'C25': (BOTH, 'Logic.tla signs: parity of negated elements; invariant NegLaw: one more negation changes signs only.', 'as C21 (signs).', 'as C21.'),
    'C26': (TRACE, 'Containers.tla.', 'drivers/containers.py: arguments, tuples, sentences, documents; indexing incl. negative, iteration, code search, unknown codes.', '1.3k objects.'),
    'C27': (BOTH, 'Pipeline.tla; PipelineMC: workers, batches, ranges, regrouping: every schedule of up to 3 texts x 6 shapes x 3 workers x 2 batch sizes gives each text its document, and ends.', 'drivers/pipeline.py: the real Pipeline with scripted networks; PipelineTrace compares each document with the tuples of its sentences alone.', '200 calls of up to 270 texts, texts of up to 75 sentences.'),
    'C28': (BOTH, 'Pipeline.tla Pieces/Analysed.', 'as C27 with sentences around and above the limit and separators anywhere.', '280 calls.'),
    'C29': (BOTH, 'PipelineMC (all schedules) and PurityTrace (the document of a text is a constant).', 'drivers/pipeline.py mode par: histories over configurations with forced completion orders, threads stopped at chosen lines, 1 us switch interval, concurrent calls of one pipeline, and results re-read after later calls.', '14 histories of 18 calls, some of up to 270 texts.'),
    'C30': (BOTH, 'ParMap.tla (what callers rely on), ParMapThreads.tla (the design), refinement checked for n,k <= 4 (5 thorough), every set of failing items, every interleaving; liveness.', 'behaviours of the design (completion orders, failures of 12 exception kinds) forced on the real run_multithreads by gates; ParMapTrace checks each recorded event.', '250 behaviours + random runs, lists of up to 1100 items, divisions of up to 26 items into up to 28 parts and of larger lists (up to 5003).'),
    'C31': (BOTH, 'Timer.tla: a stopwatch in quarters of a second. TimerMC: every history of up to 5 steps; invariants LapsAddUp, InOrder, Bounded.', 'drivers/timer.py replays every one of those histories and longer random ones on the real Timer with all clocks of the process replaced by one that moves when told to; TimerTrace checks each reading.', '7.8k behaviours + 400 random histories.'),
    'C32': (TRACE, 'Files.tla: the data folder as a function from path to lines or value; readers derive from it.', 'drivers/files.py: histories of writes (by the writer or as raw bytes, both line endings) and reads in a scratch data folder; FilesTrace replays them.', '400 histories of 2-14 operations.'),
    'C33': (TRACE, 'Helpers.tla: word tests, marks and groups over code points; invariant Marks: attributes are read back.', 'drivers/helpers.py: every word up to 3 letters of a small alphabet, catalogue, random words, marked texts, groups.', '2.2k cases of 7-10 calls.'),
}
TECHNIQUE = {k: v[0] for k, v in D.items()}
NOTES = {k: 'Specified: %s Bound: %s Quick tier: %s Trusts TLC and the recording driver; beyond the stated bounds nothing is claimed.' % v[1:] for k, v in D.items()}

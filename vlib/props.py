"""Which harness, bounds and witnesses decide which property."""
FD = ["fast-d.cpp"]
LIBF = ("libc.cpp", "files.cpp")
LIBS = ("libc.cpp", "files.cpp", "symtab.cpp")
ALIGN = ["fstalign.cpp", "AdaptedComposition.cpp", "StandardComposition.cpp", "OneBestFstLoader.cpp", "Walker.cpp", "PathHeap.cpp", "fast-d.cpp", "utilities.cpp", "wer.cpp", "Ctm.cpp", "Nlp.cpp", "FstLoader.cpp", "logging.cpp", "AlignmentTraversor.cpp", "SynonymEngine.cpp"]
HARNESS = {
    "c01": dict(file="c01.cpp", src=FD),
    "c02": dict(file="c02.cpp", src=FD),
    "c03": dict(file="c03.cpp", src=FD),
    "c08": dict(file="c08.cpp", src=["PathHeap.cpp", "logging.cpp"]),
    "c09": dict(file="c09.cpp", src=["AlignmentTraversor.cpp", "utilities.cpp", "logging.cpp"]),
    "c22": dict(file="c22.cpp", src=["utilities.cpp", "logging.cpp"]),
    "c10": dict(file="c10.cpp", src=["AlignmentTraversor.cpp", "utilities.cpp", "logging.cpp"], lib=LIBF),
    "c11": dict(file="c11.cpp", src=["AlignmentTraversor.cpp", "utilities.cpp", "logging.cpp", "Nlp.cpp", "FstLoader.cpp"], lib=LIBF),
    "c12": dict(file="c12.cpp", src=["AlignmentTraversor.cpp", "utilities.cpp", "logging.cpp"], lib=LIBF),
    "c13": dict(file="c13.cpp", src=["AlignmentTraversor.cpp", "utilities.cpp", "logging.cpp"], lib=LIBF),
    "c14": dict(file="c14.cpp", src=["AlignmentTraversor.cpp", "utilities.cpp", "logging.cpp"], lib=LIBF),
    "c15": dict(file="c15.cpp", src=["utilities.cpp", "logging.cpp", "FstLoader.cpp"], lib=LIBF),
    "c16": dict(file="c16.cpp", src=["utilities.cpp", "logging.cpp", "FstLoader.cpp"], lib=LIBF),
    "c17": dict(file="c17.cpp", src=["utilities.cpp", "logging.cpp", "FstLoader.cpp", "OneBestFstLoader.cpp", "Ctm.cpp", "Nlp.cpp"], lib=LIBS),
    "c18": dict(file="c18.cpp", src=["utilities.cpp", "logging.cpp", "FstLoader.cpp", "Nlp.cpp"], lib=LIBS),
    "c05": dict(file="c05.cpp", src=ALIGN, lib=LIBS),
    "c06": dict(file="c06.cpp", src=ALIGN, lib=LIBS),
    "c07": dict(file="c07.cpp", src=["Walker.cpp", "PathHeap.cpp", "AlignmentTraversor.cpp", "utilities.cpp", "logging.cpp"], lib=LIBS),
    "c21": dict(file="c21.cpp", src=ALIGN, lib=LIBS),
    "c04": dict(file="c04.cpp", src=["AdaptedComposition.cpp", "utilities.cpp", "logging.cpp"], lib=LIBS),
    "c19": dict(file="c19.cpp", src=["utilities.cpp", "logging.cpp"], lib=LIBS),
    "c20": dict(file="c20.cpp", src=["utilities.cpp", "logging.cpp"], lib=LIBS),
    "c24": dict(file="c24.cpp", src=[s for s in ALIGN if s != "fstalign.cpp"], lib=LIBS),
    "c26": dict(file="c26.cpp", src=ALIGN + ["FstFileLoader.cpp"], lib=LIBS),
    "c25": dict(file="c25.cpp", src=["main.cpp", "FstFileLoader.cpp", "OneBestFstLoader.cpp", "FstLoader.cpp", "Nlp.cpp", "Ctm.cpp", "SynonymEngine.cpp", "utilities.cpp", "logging.cpp"], lib=LIBS),
    "c23": dict(file="c23.cpp", src=["AlignmentTraversor.cpp", "utilities.cpp", "logging.cpp"], lib=LIBF),
}
PROPS = {
    "C01": dict(jobs=[
        dict(name="any-value", h="c01", what="every pair of sequences of lengths <= n, m over every int value", quick=dict(n=4, m=4, k=0), thorough=dict(n=5, m=5, k=0), covers=["done"]),
        dict(name="three-values", h="c01", what="every pair of sequences of lengths <= n, m over three values", quick=dict(n=5, m=5, k=3), thorough=dict(n=6, m=6, k=3), covers=["done"]),
        dict(name="shifted", h="c01", what="a sequence of `shift` different tokens with s symbolic ones, and a copy with one stretch of <= block tokens removed and one stretch of <= block new tokens put in, anywhere", quick=dict(shift=10, block=5, s=1), thorough=dict(shift=12, block=6, s=2), covers=["done"]),
        dict(name="long-binary", h="c01", what="longer sequences over two values", quick=dict(n=7, m=7, k=2), thorough=dict(n=9, m=9, k=2), covers=["done"]),
        dict(name="large-counts", h="c01", what="one arbitrary token after pa and pb mutually different fixed tokens: distances beyond 8 bits", quick=dict(n=1, m=1, k=2, pa=270, pb=150), thorough=dict(n=2, m=2, k=2, pa=300, pb=280), covers=["done"]),
    ]),
    "C02": dict(jobs=[
        dict(name="any-value", h="c02", what="every pair of sequences of lengths <= n, m over every int value", quick=dict(n=4, m=4, k=0), thorough=dict(n=5, m=5, k=0), covers=["partial-match", "full-match"]),
        dict(name="three-values", h="c02", what="every pair of sequences of lengths <= n, m over three values", quick=dict(n=5, m=5, k=3), thorough=dict(n=6, m=6, k=3), covers=["partial-match", "full-match"]),
        dict(name="shifted", h="c02", what="a sequence of `shift` different tokens with s symbolic ones, and a copy with one stretch of <= block tokens removed and one stretch of <= block new tokens put in, anywhere", quick=dict(shift=10, block=5, s=1), thorough=dict(shift=12, block=6, s=2), covers=["partial-match", "full-match"]),
        dict(name="long-binary", h="c02", what="longer sequences over two values", quick=dict(n=7, m=7, k=2), thorough=dict(n=9, m=9, k=2), covers=["partial-match", "full-match"]),
        dict(name="large-counts", h="c02", what="up to n and m arbitrary tokens after pa and pb mutually different fixed tokens: distances beyond 8 bits", quick=dict(n=3, m=4, k=2, pa=254, pb=254), thorough=dict(n=4, m=5, k=2, pa=254, pb=253), covers=["partial-match"]),
        dict(name="stale-maps", h="c02", what="maps hold arbitrary leftovers of an earlier call", params=dict(stale=1), quick=dict(n=3, m=3, k=2), thorough=dict(n=4, m=4, k=2), covers=["partial-match"]),
    ]),
    "C03": dict(jobs=[
        dict(name="runs", h="c03", what="every map of length <= n, every cutoff <= c", quick=dict(n=10, c=11), thorough=dict(n=12, c=13), covers=["yes", "no"]),
    ]),
    "C04": dict(jobs=[
        dict(name="words", h="c04", what="references of <= n words, with an alternative word, a way past two words, an empty step, a loop or a class span anywhere, with or without an empty end; hypotheses of <= m words; any word anchored; two orders of expansion", params=dict(shape=0), quick=dict(n=2, m=2), thorough=dict(n=3, m=2), covers=["alternative", "empty-step", "loop", "class"]),
        dict(name="more-words", h="c04", what="the same, longer, without anchors", params=dict(shape=0, anchors=0), quick=dict(n=3, m=3), thorough=dict(n=4, m=4), covers=["alternative", "empty-step", "loop", "class"]),
        dict(name="synonyms", h="c04", what="references with a synonym detour of 0-2 words, with one or two ends, or a way past two words, without anchors", params=dict(shape=1, anchors=0), quick=dict(n=2, m=3), thorough=dict(n=3, m=3), covers=["synonym", "synonym-not-spelled"]),
        dict(name="anchored-synonyms", h="c04", what="the same with anchors", params=dict(shape=1), quick=dict(n=1, m=2), thorough=dict(n=2, m=2), covers=["synonym", "synonym-not-spelled"]),
    ], assumptions=["two arcs of one reference state do not carry the same word", "synonym detours are bracketed by their label", "hypotheses are a single path", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)"]),
    "C05": dict(jobs=[
        dict(name="text", h="c05", what="texts of <= n and <= m words, adapted composition, one or many alignments asked for", params=dict(ref=0), quick=dict(n=5, m=5), thorough=dict(n=6, m=6), covers=["insertion", "deletion", "substitution", "match", "no-errors"]),
        dict(name="text-standard", h="c05", what="the same, standard composition", params=dict(ref=0, std=1), quick=dict(n=4, m=4), thorough=dict(n=5, m=5), covers=["insertion", "deletion", "substitution", "match", "no-errors"]),
        dict(name="synonyms", h="c05", what="texts with <= `synonyms` synonyms (phrases of 1-2 words, alternatives of 1-2 words)", params=dict(ref=1), quick=dict(n=2, m=2, synonyms=2), thorough=dict(n=3, m=3, synonyms=2), covers=["insertion", "deletion", "substitution", "match", "no-errors", "synonym-used"]),
        dict(name="synonyms-standard", h="c05", what="the same, standard composition", params=dict(ref=1, std=1), quick=dict(n=2, m=3), thorough=dict(n=3, m=3), covers=["insertion", "deletion", "substitution", "match", "no-errors", "synonym-used"]),
        dict(name="class", h="c05", what="transcripts of <= n words and one class span of 1-2 rows with <= cands verbalisations of <= candlen words", params=dict(ref=2), quick=dict(n=1, m=2), thorough=dict(n=2, m=2), covers=["insertion", "deletion", "substitution", "match", "no-errors", "class-used"]),
        dict(name="class-standard", h="c05", what="the same, standard composition", params=dict(ref=2, std=1), quick=dict(n=1, m=2, rows=1), thorough=dict(n=1, m=3), covers=["insertion", "deletion", "substitution", "match", "no-errors", "class-used"]),
        dict(name="class-synonym", h="c05", what="a class span with a synonym", params=dict(ref=3, vocab=1, rows=1), quick=dict(n=1, m=2, cands=1, candlen=1), thorough=dict(n=1, m=3, cands=2), covers=["no-errors", "class-used", "synonym-used"]),
    ], assumptions=["words are letters of a small alphabet", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)", "strtk (not installed here) is replaced by a small implementation of strtk::split"]),
    "C06": dict(jobs=[
        dict(name="text", h="c06", what="texts of <= n and <= m words, adapted composition", params=dict(ref=0), quick=dict(n=4, m=4), thorough=dict(n=5, m=6), covers=["equal", "different", "closing-step"]),
        dict(name="text-bare", h="c06", what="the same, the hypothesis without the empty step the loader closes it with", params=dict(ref=0, bare=1), quick=dict(n=4, m=5), thorough=dict(n=6, m=5), covers=["equal", "different"]),
        dict(name="long-binary", h="c06", what="longer references of one word against hypotheses of two, without that step", params=dict(ref=0, bare=1, vocab=1), quick=dict(n=7, m=7), thorough=dict(n=9, m=9), covers=["equal", "different"]),
        dict(name="text-standard", h="c06", what="standard composition", params=dict(ref=0, std=1), quick=dict(n=4, m=4), thorough=dict(n=5, m=5), covers=["equal", "different"]),
        dict(name="synonyms", h="c06", what="texts with <= `synonyms` synonyms (phrases and alternatives of 1-2 words); a synonym counts where the hypothesis spells it", params=dict(ref=1), quick=dict(n=2, m=3), thorough=dict(n=3, m=3), covers=["equal", "different"]),
        dict(name="two-synonyms", h="c06", what="two synonyms, without the closing step", params=dict(ref=1, bare=1, synonyms=2), quick=dict(n=2, m=2), thorough=dict(n=2, m=3), covers=["equal", "different"]),
        dict(name="synonyms-standard", h="c06", what="standard composition: every synonym counts", params=dict(ref=1, std=1), quick=dict(n=2, m=2), thorough=dict(n=3, m=3), covers=["equal", "different"]),
        dict(name="class", h="c06", what="transcripts of <= n words and one class span of 1-2 rows with <= cands verbalisations", params=dict(ref=2), quick=dict(n=1, m=2), thorough=dict(n=2, m=2), covers=["equal", "different"]),
        dict(name="class-bare", h="c06", what="the same without the closing step", params=dict(ref=2, bare=1), quick=dict(n=2, m=2, cands=1), thorough=dict(n=2, m=3, cands=1), covers=["equal", "different"]),
        dict(name="class-standard", h="c06", what="standard composition", params=dict(ref=2, std=1), quick=dict(n=1, m=2, rows=1), thorough=dict(n=1, m=3), covers=["equal", "different"]),
        dict(name="class-synonym", h="c06", what="a class span with a synonym", params=dict(ref=3, vocab=1, rows=1), quick=dict(n=1, m=2, cands=1, candlen=1), thorough=dict(n=1, m=3, cands=2), covers=["equal", "different"]),
        dict(name="asking-more", h="c06", what="1..asked alignments asked for, and one more", params=dict(ref=0, asked=2), quick=dict(n=4, m=4), thorough=dict(n=5, m=5), covers=["better"]),
        dict(name="asking-more-class", h="c06", what="the same with a class span", params=dict(ref=2, asked=2, rows=1, cands=1), quick=dict(n=1, m=2), thorough=dict(n=2, m=2), covers=["better"]),
        dict(name="asking-more-standard", h="c06", what="the same, standard composition", params=dict(ref=0, asked=2, std=1), quick=dict(n=3, m=3), thorough=dict(n=4, m=4)),
    ], assumptions=["inputs too small for pruning", "words are letters of a small alphabet", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)", "strtk (not installed here) is replaced by a small implementation of strtk::split"]),
    "C07": dict(jobs=[
        dict(name="any-arc", h="c07", what="graphs of <= n steps, one of them an arc of any two labels (words, empty, special symbols) and any cost 0..1.5, with a second way, a way around, a loop or a dead end, any final states", params=dict(any=1), quick=dict(n=1), thorough=dict(n=2, kinds=2, places=1), covers=["dead-end", "loop", "way-around", "several", "no-path"]),
        dict(name="graphs", h="c07", what="graphs of <= n steps, each a match, insertion or deletion (thorough: or substitution), with such an addition anywhere", quick=dict(n=2, kinds=3), thorough=dict(n=2, kinds=4), covers=["dead-end", "loop", "way-around", "several", "no-path"]),
        dict(name="longer", h="c07", what="longer graphs with <= places additions", quick=dict(n=4, kinds=2, places=1), thorough=dict(n=5, kinds=2, places=2), covers=["dead-end", "loop", "way-around", "several", "no-path"]),
        dict(name="labels", h="c07", what="<= n steps or labelled stretches of <= m steps with alternatives, possibly another label within, label arcs matched or deleted", params=dict(mode=1), quick=dict(n=2, m=1, kinds=4), thorough=dict(n=3, m=1, kinds=2), covers=["label", "nested"]),
        dict(name="long-label", h="c07", what="one labelled stretch of <= m steps", params=dict(mode=1), quick=dict(n=1, m=3), thorough=dict(n=1, m=4), covers=["label", "nested"]),
    ], assumptions=["graphs are acyclic apart from loops at one state, costs are not negative", "words of a graph are different fixed words; a label occurs in one place", "graphs too small for pruning", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)"]),
    "C08": dict(jobs=[
        dict(name="histories", h="c08", what="every history of n insertions/removals, words 0..3, errors 0..3, two costs, two states", params=dict(mode=0), quick=dict(n=4), thorough=dict(n=5), covers=["equal-candidates", "remove", "drained"]),
        dict(name="one-key", h="c08", what="every history of n insertions/removals, wide ranges", params=dict(mode=0, w1=1000, e1=1000, nc=1, s1=1000), quick=dict(n=4), thorough=dict(n=5), covers=["remove", "drained"]),
        dict(name="prune", h="c08", what="n candidates with words 0..3, errors 0..60, every target size", params=dict(mode=1, e1=60, nc=1, s1=0), quick=dict(n=4), thorough=dict(n=5), covers=["pruned", "kept"]),
        dict(name="prune-ties", h="c08", what="n candidates with the same number of words, errors 0..60, two costs, two states", params=dict(mode=1, w1=0, e1=60, nc=2, s1=1), quick=dict(n=4), thorough=dict(n=5), covers=["pruned", "kept"]),
        dict(name="best", h="c08", what="n candidates, words 1..3, errors 0..3", params=dict(mode=2, w0=1, nc=1, s1=0), quick=dict(n=3), thorough=dict(n=4), covers=["best"]),
    ], assumptions=["candidates that agree in words, errors, cost and state are interchangeable", "costs are multiples of 0.5", "a heap is not pruned while empty or to zero candidates", "best-WER query on candidates with at least one word"]),
    "C09": dict(jobs=[
        dict(name="walk", h="c09", what="n root tokens, each a word (strings of length <= len over '_','a') or a labelled segment of <= m tokens; any stop and restart", quick=dict(n=3, m=2, len=3), thorough=dict(n=4, m=2, len=4), covers=["segment", "noop", "restart-after-end"]),
    ], assumptions=["labels of one alignment are different and each has its segment, as Walker builds them"]),
    "C10": dict(jobs=[
        dict(name="ctm", h="c10", what="alignments of n root tokens, each a word (match/substitution, insertion, deletion; one symbolic letter per side) or one of two labelled segments of <= m tokens; CTM hypothesis rows", params=dict(src=0), quick=dict(n=3, m=1), thorough=dict(n=3, m=2), covers=["del", "sub", "ins", "noop", "segment"]),
        dict(name="nlp", h="c10", what="the same with NLP rows: both times, one of them, none", params=dict(src=1), quick=dict(n=3, m=1), thorough=dict(n=3, m=2), covers=["del", "sub", "ins", "noop", "segment"]),
        dict(name="words", h="c10", what="the same with plain words", params=dict(src=2), quick=dict(n=3, m=1), thorough=dict(n=3, m=2), covers=["del", "sub", "ins", "noop", "segment"]),
        dict(name="no-source", h="c10", what="the same without hypothesis rows", params=dict(src=3), quick=dict(n=2, m=2), thorough=dict(n=3, m=2), covers=["del", "sub", "ins"]),
        dict(name="long-segment", h="c10", what="up to two root tokens, segments of <= m tokens", params=dict(src=0), quick=dict(n=1, m=4), thorough=dict(n=2, m=3), covers=["segment"]),
    ], assumptions=["the hypothesis rows are those the alignment was made of: one row per hypothesis word, the word lower-cased unless case is kept", "labels of one alignment are different and each has its segment", "times are fixed numbers, different per row"]),
    "C11": dict(jobs=[
        dict(name="spans", h="c11", what="n reference items, each a word, a class span or a synonym detour of 1..r rows and 1..r words, insertions in front of, between, inside and after them", quick=dict(n=2, r=2), thorough=dict(n=2, r=3), covers=["class", "synonym", "one-row-many-words", "different-counts", "many-rows-one-word", "direct"]),
        dict(name="long-span", h="c11", what="one item of 1..r rows and 1..r words, insertions everywhere", quick=dict(n=1, r=5), thorough=dict(n=1, r=7), covers=["class", "synonym", "different-counts"]),
        dict(name="words", h="c11", what="n items without insertions", params=dict(ins=0), quick=dict(n=3, r=2), thorough=dict(n=4, r=2), covers=["direct"]),
    ], assumptions=["the stitches come from an alignment of this transcript: spans in transcript order, different labels"]),
    "C12": dict(jobs=[
        dict(name="rows", h="c12", what="n stitches: transcript row, insertion, no-op, noise code; one of them varying in every field, insertions kept or not", quick=dict(n=2), thorough=dict(n=3), covers=["own-spelling", "aligned-word", "deleted", "noise", "insertion", "insertion-in-span", "noop"]),
    ], assumptions=["times are taken from a list of six numbers", "the normalisation file has no entry for the rows"]),
    "C13": dict(jobs=[
        dict(name="sentences", h="c13", what="n positions (match, insertion, deletion, substitution, class row without a word; two-letter words), each ending a sentence with any end mark or not, insertions with and without a row", params=dict(what=0), quick=dict(n=4), thorough=dict(n=5), covers=["end", "tail", "no-word"]),
        dict(name="speakers", h="c13", what="n positions of two speakers, insertions with and without a row", params=dict(what=1), quick=dict(n=5), thorough=dict(n=6), covers=["two-speakers", "no-speaker", "insertion-with-row", "no-word"]),
        dict(name="switches", h="c13", what="n positions of two speakers, every window size <= context", params=dict(what=2), quick=dict(n=5, context=4), thorough=dict(n=7, context=5), covers=["two-switches", "word", "insertion", "no-word"]),
        dict(name="tags", h="c13", what="n positions, each with any subset of three tags", params=dict(what=3), quick=dict(n=3), thorough=dict(n=4), covers=["tag", "no-word"]),
        dict(name="case", h="c13", what="n positions, words of len letters over a A b B, four casings", params=dict(what=4), quick=dict(n=3, len=2), thorough=dict(n=3, len=3), covers=["matched", "substituted", "no-word"]),
        dict(name="classes", h="c13", what="n labelled segments of three classes with counts 0..2 and words or none; any totals", params=dict(what=5), quick=dict(n=2), thorough=dict(n=3), covers=["shared-class"]),
    ], assumptions=["every position that is not an insertion carries a row; an insertion carries the row of its class span or none", "a position does not carry the same tag twice"]),
    "C14": dict(jobs=[
        dict(name="plain", h="c14", what="n positions (match, insertion, deletion, substitution), two words", params=dict(m=0), quick=dict(n=5), thorough=dict(n=6), covers=["empty", "correct-bigram", "deleted-bigram", "inserted-bigram", "substituted-bigram"]),
        dict(name="any-words", h="c14", what="n positions over any one-letter words (every pattern and order of equal and different words)", params=dict(words=0), quick=dict(n=3, m=0), thorough=dict(n=3, m=1), covers=["empty", "correct-bigram", "substituted-bigram"]),
        dict(name="segments", h="c14", what="n root positions, one of them possibly a labelled segment of <= m tokens, two words", params=dict(), quick=dict(n=3, m=2), thorough=dict(n=3, m=3), covers=["empty", "segment", "empty-segment", "correct-bigram", "deleted-bigram"]),
        dict(name="three-words", h="c14", what="n positions over three words, thresholds 0 and 2", params=dict(words=3, threshold=1), quick=dict(n=3, m=1), thorough=dict(n=4, m=1), covers=["segment", "correct-bigram", "substituted-bigram"]),
    ], assumptions=["labels of one alignment are different and each has its segment", "words hold no marker (<ins>, <del>, empty symbol, ___)"]),
    "C15": dict(jobs=[
        dict(name="fields", h="c15", what="one row: every field symbolic, up to two labels and up to `tags` ids, blanks around fields, empty fields", params=dict(headers=0), quick=dict(n=1, len=3), thorough=dict(n=2, len=3), covers=["two-labels", "two-tags"]),
        dict(name="headers", h="c15", what="<= n rows under headers rotated, reversed, with a column missing or an unknown one added, either line end", params=dict(focus=0), quick=dict(n=2), thorough=dict(n=3), covers=["missing-column", "extra-column", "short-header"]),
        dict(name="rows", h="c15", what="<= n rows", params=dict(headers=0, focus=0), quick=dict(n=8), thorough=dict(n=16), covers=["two-labels", "two-tags"]),
    ], assumptions=["a header line, `|` between fields, lists written as ['a', 'b'] or ['a','b']", "labels are id:NAME with at least one digit", "csv.h reads the file without its reader thread (CSV_IO_NO_THREAD)"]),
    "C16": dict(jobs=[
        dict(name="lines", h="c16", what="<= n lines, five or six columns, one line with longer symbolic fields, eight spellings of numbers, blank lines, either line end, case kept or not", quick=dict(n=3), thorough=dict(n=4, len=4), covers=["five-columns", "six-columns", "blank-line"]),
    ], assumptions=["one blank between fields and none at the end of a line", "words are ASCII"]),
    "C17": dict(jobs=[
        dict(name="text", h="c17", what="texts of <= n words over a A b <, one of up to len letters, any separators; with and without map, words known before or not, case kept or not", params=dict(kind=0), quick=dict(n=2), thorough=dict(n=3), covers=["empty", "anchored"]),
        dict(name="file", h="c17", what="the same from a file", params=dict(kind=1), quick=dict(n=2), thorough=dict(n=3), covers=["empty", "anchored"]),
        dict(name="ctm", h="c17", what="the same from CTM rows", params=dict(kind=2), quick=dict(n=3), thorough=dict(n=4), covers=["empty", "anchored"]),
        dict(name="nlp", h="c17", what="the same from NLP rows without label handling", params=dict(kind=3), quick=dict(n=2), thorough=dict(n=3), covers=["empty", "anchored"]),
        dict(name="longer-text", h="c17", what="texts of <= n words a or b", params=dict(kind=0, alpha=1, len=1), quick=dict(n=3), thorough=dict(n=4), covers=["anchored"]),
        dict(name="longer-ctm", h="c17", what="<= n CTM words a or b", params=dict(kind=2, alpha=1, len=1), quick=dict(n=4), thorough=dict(n=5), covers=["anchored"]),
    ], assumptions=["words are ASCII", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)"]),
    "C18": dict(jobs=[
        dict(name="spans", h="c18", what="n items, each a word (symbolic) or a labelled span; one of them with 1..r rows, 0..cand verbalisations of 0..2 words and a punctuation mark; punctuation words, case kept or not, any map", params=dict(labels=1), quick=dict(n=3, r=3, cand=3), thorough=dict(n=4, r=3, cand=3), covers=["span", "long-span", "candidate", "punctuation", "anchored"]),
        dict(name="no-labels", h="c18", what="the same without label handling (as for a hypothesis)", params=dict(labels=0), quick=dict(n=2, r=2), thorough=dict(n=3, r=2), covers=["punctuation", "anchored"]),
    ], assumptions=["span ids are different", "inside a span only the last row carries punctuation", "words are ASCII; written words of a span and verbalisations are fixed words"]),
    "C19": dict(jobs=[
        dict(name="lines", h="c19", what="<= n lines, one of them a comment, blank, malformed, without a phrase, or a definition with a phrase of 1-2 and alternatives of 1-3 symbolic words; any blanks; from a file or not", params=dict(what=0), quick=dict(n=2), thorough=dict(n=3), covers=["comment", "blank", "malformed", "no-left-side", "again"]),
        dict(name="detours", h="c19", what="graphs of <= n words with a second or skipped-over word, <= keys phrases of one or two words (one possibly unknown), one or two alternatives", params=dict(what=1), quick=dict(n=4, keys=2), thorough=dict(n=4, keys=3), covers=["several", "branch", "no-occurrence"]),
        dict(name="three-phrases", h="c19", what="the same with three phrases over three words", params=dict(what=1, vocab=3), quick=dict(n=2, keys=2), thorough=dict(n=3, keys=3), covers=["several", "branch", "no-occurrence"]),
    ], assumptions=["strtk (not installed here) is replaced by a small implementation of strtk::split", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)", "words are ASCII"]),
    "C20": dict(jobs=[
        dict(name="vocabularies", h="c20", what="vocabularies of <= n words, each plain, cut off or compound of two parts; one of them compound of three or with a part of up to len letters; both options; a user synonym for the word or its parts or none", quick=dict(n=2, len=4), thorough=dict(n=3, len=2), covers=["cut-off", "compound", "user-defined"]),
    ], assumptions=["hyphens stand at the end of a word or between its parts, not both", "strtk (not installed here) is replaced by a small implementation of strtk::split", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)"]),
    "C21": dict(jobs=[
        dict(name="text", h="c21", what="nine fixed words with <= n and <= m symbolic ones before, among or after them (9..9+n words: below, at and above the threshold), longest error streak 0..3", params=dict(ref=0), quick=dict(n=3, m=3), thorough=dict(n=4, m=4), covers=["short", "anchored", "streak", "no-errors", "insertion", "deletion", "substitution"]),
        dict(name="text-bare", h="c21", what="the same, the hypothesis without the empty step the loader closes it with", params=dict(ref=0, bare=1), quick=dict(n=3, m=4), thorough=dict(n=4, m=4), covers=["short", "anchored", "streak", "no-errors", "insertion", "deletion", "substitution"]),
        dict(name="longer", h="c21", what="twelve fixed words, default error streak", params=dict(ref=0, bare=1, fixed=12, streak=0, places=3), quick=dict(n=3, m=3), thorough=dict(n=4, m=5), covers=["anchored", "no-errors", "insertion", "deletion", "substitution"]),
        dict(name="all-different", h="c21", what="few fixed words", params=dict(ref=0, bare=1, fixed=7, streak=3, vocab=1, places=1), quick=dict(n=5, m=5), thorough=dict(n=6, m=6), covers=["short", "anchored", "streak", "no-errors", "insertion", "deletion", "substitution"]),
        dict(name="text-standard", h="c21", what="standard composition", params=dict(ref=0, std=1), quick=dict(n=2, m=3), thorough=dict(n=3, m=3), covers=["short", "anchored", "streak", "no-errors"]),
        dict(name="synonyms", h="c21", what="with a synonym", params=dict(ref=1, streak=0), quick=dict(n=2, m=2), thorough=dict(n=2, m=3), covers=["short", "anchored", "no-errors", "synonym-used"]),
        dict(name="class", h="c21", what="a class span of 1-2 rows with <= cands verbalisations", params=dict(ref=2, streak=0, places=1), quick=dict(n=1, m=2, cands=1), thorough=dict(n=1, m=2), covers=["short", "anchored", "no-errors", "class-used"]),
    ], assumptions=["what the edit distance matches is what C02 shows it to match", "100 alternatives asked for", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)", "strtk (not installed here) is replaced by a small implementation of strtk::split"]),
    "C22": dict(jobs=[
        dict(name="labels", h="c22", what="strings of length <= len over _ S Y N 1", params=dict(what=0), quick=dict(len=10), thorough=dict(len=12), covers=["synonym", "label", "word"]),
        dict(name="noise", h="c22", what="strings of length <= len over < > a b", params=dict(what=1), quick=dict(len=8), thorough=dict(len=10), covers=["noise", "word"]),
        dict(name="ngram", h="c22", what="x plus strings of length <= len over < i n s o > _, and a marker before or after", params=dict(what=2), quick=dict(len=6), thorough=dict(len=8), covers=["good", "bad"]),
        dict(name="class-label", h="c22", what="ids of 1-3 digits, names of length <= len over A Z _ - 9", params=dict(what=3), quick=dict(len=5), thorough=dict(len=7), covers=["label", "word"]),
        dict(name="case", h="c22", what="every pair of byte strings of length <= len", params=dict(what=4), quick=dict(len=5), thorough=dict(len=7), covers=["equal", "suffix", "neither"]),
        dict(name="trim", h="c22", what="every byte string of length <= len", params=dict(what=5), quick=dict(len=6), thorough=dict(len=9), covers=["trimmed", "untouched"]),
        dict(name="join", h="c22", what="up to three elements of length <= 2, separators of length <= 2", params=dict(what=6), quick={}, covers=["joined", "empty"]),
        dict(name="lower", h="c22", what="every ASCII string of length <= len", params=dict(what=7), quick=dict(len=8), thorough=dict(len=12), covers=["lower"]),
    ], assumptions=["lower-casing: ASCII text (ICU is modelled for ASCII)", "C locale"]),
    "C23": dict(jobs=[
        dict(name="rows", h="c23", what="n positions (match, insertion, deletion, substitution, no-op), one of them varying in word length, marker words, label and tags", quick=dict(n=3), thorough=dict(n=4), covers=["match", "insertion", "deletion", "substitution", "noop", "group"]),
        dict(name="groups", h="c23", what="n positions, every sequence of kinds", params=dict(focus=0), quick=dict(n=6), thorough=dict(n=7), covers=["match", "insertion", "deletion", "substitution", "noop", "group"]),
    ], assumptions=["words are ASCII"]),
    "C24": dict(jobs=[
        dict(name="options", h="c24", what="transcripts of <= n rows against texts, CTM rows or transcripts of <= m words, every combination of the options of `wer`", params=dict(ref=1, options=1), quick=dict(n=1, m=2), thorough=dict(n=2, m=2), covers=["match", "insertion", "deletion", "substitution", "side-by-side", "transcript", "switches", "casing"]),
        dict(name="rows", h="c24", what="the same, longer, under eight settings that hold every pair of two options' values", params=dict(ref=1, options=0), quick=dict(n=3, m=2), thorough=dict(n=3, m=3), covers=["match", "insertion", "deletion", "substitution", "side-by-side", "transcript", "switches", "casing"]),
        dict(name="text", h="c24", what="plain reference texts", params=dict(ref=0, options=0), quick=dict(n=3, m=3), thorough=dict(n=4, m=3), covers=["text", "side-by-side"]),
        dict(name="align", h="c24", what="the aligned transcript of `align`", params=dict(align=1, hyp=1), quick=dict(n=3, m=3), thorough=dict(n=4, m=4), covers=["transcript", "match", "insertion", "deletion", "substitution"]),
        dict(name="labelled", h="c24", what="transcripts of <= n words and one class span of 1-2 rows with <= cands verbalisations of 0-2 words", params=dict(labelled=1, kind=2), quick=dict(n=1, m=2), thorough=dict(n=2, m=2), covers=["class-used", "empty-reading", "insertion", "deletion", "substitution", "match"]),
        dict(name="labelled-synonym", h="c24", what="a class span with a synonym", params=dict(labelled=1, kind=3, vocab=1, rows=1), quick=dict(n=1, m=2, cands=1, candlen=1), thorough=dict(n=1, m=2, cands=2, candlen=1), covers=["class-used", "synonym-used"]),
    ], assumptions=["words are letters of a small alphabet", "OpenFst's SymbolTable is modelled from its header (sampled paths are replayed against the real library)", "strtk (not installed here) is replaced by a small implementation of strtk::split"]),
    "C26": dict(jobs=[
        dict(name="text", h="c26", what="reference texts of <= n words, lattices of <= m steps with an alternative word, an empty step, a detour of two words, a second or an empty end anywhere; three symbol tables", params=dict(), quick=dict(n=3, m=2), thorough=dict(n=3, m=3), covers=["alternative", "empty-step", "detour", "two-ends", "no-errors", "errors"]),
        dict(name="two-additions", h="c26", what="the same with two such additions", params=dict(tables=1, additions=2), quick=dict(n=1, m=2), thorough=dict(n=2, m=2), covers=["alternative", "empty-step", "detour", "two-ends", "no-errors", "errors"]),
        dict(name="synonyms", h="c26", what="texts with a synonym", params=dict(ref=1, tables=1), quick=dict(n=1, m=2), thorough=dict(n=2, m=2), covers=["alternative", "detour", "no-errors", "synonym-used"]),
        dict(name="class", h="c26", what="transcripts with a class span", params=dict(ref=2, tables=1, cands=1), quick=dict(n=1, m=1), thorough=dict(n=1, m=2), covers=["alternative", "detour", "no-errors", "class-used"]),
        dict(name="adapted", h="c26", what="adapted composition: a reading of the reference against a path of the lattice, not necessarily the best", params=dict(adapted=1), quick=dict(n=2, m=2), thorough=dict(n=2, m=3), covers=["alternative", "detour", "no-errors", "errors"]),
    ], assumptions=["lattices are acyclic, start in state 0, their arcs carry no weights and the same word on both sides", "words are letters of a small alphabet", "OpenFst's SymbolTable is modelled from its header, its text form included (sampled paths are replayed against the real library)", "strtk (not installed here) is replaced by a small implementation of strtk::split"]),
    "C25": dict(jobs=[
        dict(name="names", h="c25", what="`wer` with every pair of input names (ten endings, every case of their letters), case kept or not, punctuation taken as words or not", params=dict(what=0, both=1), quick={}, covers=["transcript", "text", "timed", "graph"]),
        dict(name="wer-options", h="c25", what="`wer` with any one or two of its options, or all but these; numbers of two digits", params=dict(what=1, pairs=1), quick={}, covers=["one", "all-but-one", "log"]),
        dict(name="align-options", h="c25", what="`align` likewise", params=dict(what=2, pairs=1), quick={}, covers=["one", "all-but-one"]),
        dict(name="no-work", h="c25", what="--version, --help, no command, an unknown one, an unknown option, a number that is none", params=dict(what=3), quick={}, covers=["no-work"]),
    ], assumptions=["`align` is given a transcript and a CTM file", "HandleWer and HandleAlign are replaced by recorders (what they do is C24)", "graphs (.fst) are not read"]),
}
NOT_APPLICABLE = {}

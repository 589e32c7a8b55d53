# scratch generator for properties.jsonl (kept so that the file stays easy to edit)
import json,sys
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    d["anchors"]["observe_at"]=observe or []
    d["anchors"]["hook_needed"]=None
    P.append(d)

p("C01","Edit distance is the exact Levenshtein distance",
  "For every pair of integer token sequences, each edit-distance entry point (distance only, distance without maps, distance with maps) returns exactly the Levenshtein distance: the smallest number of single-token insertions, deletions and substitutions turning one sequence into the other. The result does not depend on the order of the arguments, on which entry point is used, on the token values beyond their equality, or on what the map arguments held before the call.",
  ["inputs"],"every pair of token sequences, of any lengths (including empty) and any int values",
  "fast-d-tests compare a handful of fixed and random pairs from one seed; the equality patterns and length combinations (empty sides, one much longer) are not enumerated.",
  ["src/fast-d.cpp","src/fast-d.h"],
  [("two-row dynamic programme","src/fast-d.cpp GetEditDistanceOnly"),("full matrix with swap so the shorter input is the row","src/fast-d.cpp GetEditDistance")],
  ["GetEditDistance / GetEditDistanceOnly return values"])
p("C02","Edit-distance maps describe a minimal monotone alignment",
  "For every pair of token sequences the two maps produced with the edit distance have exactly the lengths of their sequences and hold only +1 (token is matched) or -1; the k-th matched token of one sequence equals the k-th matched token of the other, and treating the stretches between consecutive matches as max(length, length) edits accounts for exactly the returned distance. The maps passed in are overwritten, whatever they held.",
  ["inputs"],"every pair of token sequences and every initial content of the two maps",
  "Tests look at maps of a few literal sequences; agreement between backtrace, swap and distance needs every equality pattern.",
  ["src/fast-d.cpp","src/fast-d.h","src/fstalign.cpp"],
  [("backtrace over the DP matrix","src/fast-d.cpp GetEditDistance(map variants)")],["map vectors after GetEditDistance"])
p("C03","Long error streaks are detected exactly",
  "The error-streak predicate over an alignment map answers true exactly when the map contains a run of more than the cutoff number of consecutive non-matching positions, wherever the run lies, including at the very start or the very end of the map.",
  ["inputs"],"every map content and every non-negative cutoff",
  "The existing tests probe one or two literal maps; position of the streak relative to either end is what matters.",
  ["src/fast-d.cpp","src/fstalign.cpp"],[("run counter","src/fast-d.cpp MapContainsErrorStreaks"),("first pass acceptance","src/fstalign.cpp Fstalign")],["return value of MapContainsErrorStreaks"])
p("C04","Composed graph offers exactly the legal alignment steps",
  "From every state reachable in the lazily composed reference/hypothesis graph (adapted composition), the outgoing arcs are exactly the legal alignment steps, with their fixed costs: a free match on equal tokens; a deletion (cost 1) of a reference token, always offered when that token matches nothing here, whatever other reference arcs match; an insertion (cost 1) of a hypothesis token wherever a reference word follows or the reference has ended; a substitution (cost 1.5), always offered for unequal tokens; free moves over empty reference arcs and entity labels; a free move into a synonym detour only when the hypothesis spells that detour completely from here, and out of it. A hypothesis token anchored by the first pass (positive weight) can only be matched, an anchored reference token is never substituted. A composed state is final exactly when both inputs are exhausted, every step advances exactly the input positions it consumes, asking for arcs again gives the same answer, and a state that was never handed out has none.",
  ["inputs","histories"],"every pair of small input graphs (tokens, epsilons, branches, entity and synonym labels, anchored arcs) and every order of state expansion",
  "compose-tests check arc lists of a few literal graphs; label lookahead, weights and end-of-graph cases interact combinatorially.",
  ["src/AdaptedComposition.cpp","src/AdaptedComposition.h"],[("arc generation","src/AdaptedComposition.cpp TryGetArcsAtState"),("label reachability","src/AdaptedComposition.cpp IsEntityReacheable")],
  ["TryGetArcsAtState / Final / Start of the composition interface"])
p("C05","Alignment replays both inputs and its counts tally",
  "Whatever the reference graph and hypothesis, the alignment returned spells, over its reference sides, one complete path of the reference graph and, over its hypothesis sides, exactly the hypothesis; every row is a match, insertion, deletion or substitution and the reported number of correct words, insertions, deletions, substitutions and words in reference equal what those rows add up to. Rows are in reading order, every labelled segment stands for one bracketed alternative of the reference, and a hypothesis that spells some path of the reference is aligned with zero errors when enough alternatives are asked for.",
  ["inputs"],"every reference and hypothesis (tokens, alternatives, synonyms, entity classes), both composition methods",
  "fstalign_Test compares error totals of a dozen fixed files; it cannot show the alignment is faithful for other token patterns.",
  ["src/Walker.cpp","src/AdaptedComposition.cpp","src/StandardComposition.cpp","src/utilities.h","src/fstalign.cpp"],
  [("path search","src/Walker.cpp walkComposed"),("alignment rebuild","src/Walker.cpp GetDetailsFromTopCandidates")],["wer_alignment returned by Walker::walkComposed"])
p("C06","Alignment is optimal for small inputs",
  "For inputs small enough that no pruning takes place, and when enough alternatives are asked for, the alignment returned is at least as good, in word error rate, as a cheapest legal alignment of the hypothesis with any path of the reference (insertion or deletion 1, substitution 1.5; with the adapted composition a synonym counts only where the hypothesis spells it and a word that matches is not left out). For plain texts its number of errors is the Levenshtein distance of the two texts. Asking for more alignments never yields a worse result.",
  ["inputs"],"every reference/hypothesis pair within the no-pruning size, every number of requested alignments",
  "Optimality quantifies over all competing alignments; tests compare one total per fixture.",
  ["src/Walker.cpp","src/PathHeap.cpp","src/AdaptedComposition.cpp","src/fstalign.cpp"],
  [("layered best-first search with logbook","src/Walker.cpp walkComposed"),("candidate order","src/fstalign.cpp Fstalign / src/PathHeap.cpp")],["wer_alignment::NumErrors"])
p("C07","Walker reconstructs any path faithfully",
  "For every composed graph handed to the walker through the composition interface, each returned alignment corresponds to a path from the start state to a final state: its rows are the path's non-epsilon arcs in order, the counts classify those arcs as correct, insertion, deletion or substitution, no more alignments come back than were asked for, a graph with no path to a final state yields none, and when enough are asked for one of them is a cheapest path. Tokens between a label's opening and closing arc are reported as one labelled segment carrying that label, its own counts and its own tokens, and those counts are included in the totals exactly once.",
  ["inputs"],"every small composed graph, arc labels, costs and label brackets, including nested labels and unreachable finals",
  "Only end-to-end fixtures exercise the walker; arbitrary graphs (ties, dead ends, label nesting) are never built by tests.",
  ["src/Walker.cpp","src/Walker.h","src/PathHeap.cpp"],[("traverse","src/Walker.cpp walkComposed"),("details","src/Walker.cpp GetDetailsFromTopCandidates")],["vector<wer_alignment> from walkComposed"])
p("C08","Path heap orders candidates and prunes only hopeless ones",
  "The path queue returns candidates ordered by number of words, then errors, then cost; candidates that agree in words, errors, cost and state count as one, and apart from that inserting and removing never loses, duplicates or alters a candidate, and its size is always the number it holds. Pruning keeps at least the requested number of best candidates and removes only candidates whose error count exceeds that of the last kept one by more than the margin; the best-WER candidate it reports (of candidates with at least one word) has the smallest errors-per-word ratio.",
  ["histories","inputs"],"every sequence of insert / remove / prune operations and every candidate contents",
  "No unit test touches the heap on its own.",
  ["src/PathHeap.cpp","src/PathHeap.h"],[("ordered set","src/PathHeap.h"),("prune","src/PathHeap.cpp Prune")],["PathHeap public methods"])
p("C09","Alignment traversal visits every aligned token once, in order",
  "Walking an alignment token by token yields every reference/hypothesis pair of the alignment exactly once and in order, with each labelled segment replaced by its own tokens (each tagged with that label) at the place where the label stands, a segment without tokens giving one no-op position, and then reports exhaustion for ever. Restarting the walk reproduces the same sequence.",
  ["inputs","histories"],"every alignment with any mix of plain tokens and labelled segments and every number of calls",
  "Tests only reach the traversor through whole-file fixtures.",
  ["src/AlignmentTraversor.cpp","src/AlignmentTraversor.h"],[("NextTriple","src/AlignmentTraversor.cpp")],["triples returned by NextTriple"])
p("C10","Stitching keeps every hypothesis word with its timing, in order",
  "Turning an alignment plus the hypothesis' source rows (timed CTM, NLP or plain tokens) into per-word records gives one record per aligned position, in alignment order; every hypothesis source row is consumed exactly once, in order, and supplies its own text, timing and confidence to the record of the position it was aligned to, while deleted reference words and no-op positions get no hypothesis content. Each record carries the reference token, hypothesis token, class label and an edit comment (ins, del, sub with the hypothesis word, or none) that agrees with the alignment.",
  ["inputs"],"every alignment and hypothesis source (any mix of correct words, insertions, deletions, substitutions and class labels)",
  "Fixture tests check a few rows of a few files.",
  ["src/fstalign.cpp","src/fstalign.h"],[("make_stitches","src/fstalign.cpp")],["vector<Stitching> from make_stitches"])
p("C11","Every reference row is attached exactly once to the stitches",
  "After attaching reference transcript rows to the stitched alignment of that transcript, rows are attached in transcript order and none is used for a word it does not belong to: every plain word (matched, substituted or deleted) carries exactly its own row, inserted words outside and in front of labelled spans carry none, and the words after a span carry on with the row after that span. Inside a class or synonym span with as many words as rows each word carries its own row; a single row is shared by all words of its span, with its case on the first and its punctuation on the last word; when several rows meet a different number of words the first word carries the first row, the last word the last row and the words between the span's speaker, labels and tags; several rows on one word keep the last row's punctuation. The existing comment of a stitch is kept and only extended.",
  ["inputs"],"every reference transcript and every alignment of it, including punctuation rows, entity classes and synonyms of different lengths",
  "Fixture tests cover a few synonym/class shapes only.",
  ["src/fstalign.cpp"],[("align_stitches_to_nlp","src/fstalign.cpp")],["Stitching::nlpRow after align_stitches_to_nlp"])
p("C12","Aligned transcript output preserves the reference rows",
  "The aligned transcript written out holds every reference row once, in order, with its original token, speaker, punctuation, case and tag fields unchanged, its timestamps taken from the hypothesis word aligned with it (empty when the word was deleted) and its comment from the alignment; inserted words add rows only when asked for. Output columns always match the header.",
  ["inputs","configurations"],"every stitched alignment, every combination of output options",
  "A handful of fixture outputs is compared.",
  ["src/fstalign.cpp"],[("write_stitches_to_nlp","src/fstalign.cpp")],["text written by write_stitches_to_nlp"])
p("C13","WER breakdowns partition the alignment's errors",
  "For every stitched alignment, the per-sentence, per-speaker, per-class, per-tag, per-case and speaker-switch breakdowns count each aligned position in exactly the group it belongs to: error and word counts of a group are the sums over its positions, the groups of a partitioning breakdown add up to the alignment's own totals, and each reported rate is errors over words of the same group. Inserted words belong to the sentence, speaker and window they stand in and never count as reference words; a position without a speaker belongs to the speaker before it. Nothing is counted for a group that has no positions.",
  ["inputs"],"every stitched alignment: any order of edits, speakers, sentence ends, labels, tags and casing",
  "Fixture tests read only a few total numbers from logs.",
  ["src/wer.cpp","src/wer.h"],[("RecordSentenceWer, RecordSpeakerWer, RecordWer, RecordTagWer, RecordCaseWer, RecordSpeakerSwitchWer","src/wer.cpp")],["JSON log under wer/*"])
p("C14","N-gram precision and recall follow from the alignment",
  "For every alignment, each unigram's and bigram's counts of correct, inserted, deleted and substituted occurrences equal what the aligned tokens show, and its precision and recall are those counts' ratios as percentages (zero where undefined). Bigrams containing a label, insertion, deletion or empty marker are not listed, labelled segments count with their own tokens, and an empty alignment is handled.",
  ["inputs"],"every alignment's token sequence, including repeated words, labelled segments and empty alignments",
  "Only one fixture checks bigram totals.",
  ["src/Walker.cpp","src/utilities.cpp","src/wer.cpp"],[("unigram and bigram statistics","src/Walker.cpp / src/wer.cpp"),("get_bigrams","src/utilities.cpp")],["wer_alignment unigram_stats/bigram_stats; JSON log"])
p("C15","NLP rows keep their fields, labels and tags",
  "Reading an NLP file yields one record per data row, in order, with token, speaker, punctuation, case, timestamps, confidence, labels and tag ids equal to the file's fields (in whichever column order the header declares), and the label chosen for a row is the first one in its label list, spelled in full, with its numeric id intact (none when the list is empty). Rows whose wer tags list several ids keep all of them.",
  ["inputs"],"every NLP file content: header orders, optional columns, tag lists with zero, one or several entries",
  "Tests load a few sample files and do not look at multi-entry tag lists.",
  ["src/Nlp.cpp","src/Nlp.h"],[("NlpReader::read_from_disk / GetBestLabel / GetLabelId / GetWerTags","src/Nlp.cpp")],["vector<RawNlpRecord>, GetBestLabel result"])
p("C16","CTM rows keep their fields",
  "Reading a CTM file yields one record per line, in order, with recording, channel, start, duration, word and confidence equal to the line's fields, whether or not the file has the optional confidence column, and the end of a word is its start plus its duration. The hypothesis built from it holds the words in the same order.",
  ["inputs"],"every CTM content with five or six columns",
  "One or two sample files.",
  ["src/Ctm.cpp","src/Ctm.h"],[("CtmReader::read_from_disk","src/Ctm.cpp"),("CtmFstLoader","src/Ctm.cpp")],["vector<RawCtmRecord>"])
p("C17","Loaders turn a text into the graph and tokens that spell it",
  "For every plain-text or CTM input, the loaded graph is a single path whose labels spell exactly the input's words in order (lower-cased unless case is to be kept), the integer token sequence spells the same words, and every word is registered under one symbol that maps back to it. When a first-pass map is given, a word's arc is anchored exactly when the map marks that word as matched, and the graph accepts nothing else.",
  ["inputs","configurations"],"every token list, every symbol-table content, every map, case kept or not",
  "Tests build a few literal sentences.",
  ["src/OneBestFstLoader.cpp","src/Ctm.cpp","src/FstLoader.cpp"],[("convertToFst, convertToIntVector, addToSymbolTable","src/OneBestFstLoader.cpp, src/Ctm.cpp")],["fst::StdVectorFst, vector<int>"])
p("C18","NLP loader's graph offers exactly the transcript and its alternatives",
  "For every NLP transcript the loaded graph's paths are exactly: the transcript's words in order, with each labelled span replaced, between its opening and closing label, by either the written words or one of the candidate verbalisations listed for it in the normalisation file, and (when asked for) each punctuation mark as a word of its own. Word order, case handling and the token sequence agree with that graph, and rows belonging to one labelled span are merged into one span only when they carry the same label id.",
  ["inputs","configurations"],"every transcript row sequence, label pattern, candidate list and option combination",
  "Fixtures hold a few labelled spans.",
  ["src/Nlp.cpp","src/Nlp.h"],[("NlpFstLoader constructor, convertToFst, convertToIntVector","src/Nlp.cpp")],["fst::StdVectorFst, mNlpRows, vector<int>"])
p("C19","Synonyms add alternatives and never change the text itself",
  "Every synonym line `phrase | alternative ; alternative` maps its phrase to all of its alternatives, in order and word by word, and nothing else; comments, blank lines and malformed lines (including ones without a phrase) are ignored, and the first definition of a phrase wins. Applying synonyms to a reference graph keeps its states, its ends and every original arc and adds, for each occurrence of a phrase, exactly one detour per alternative between the phrase's first and last position, opened and closed by a synonym label of its own that tells how many words stand for how many. Text without any listed phrase is left unchanged.",
  ["inputs"],"every synonym list, every reference, overlapping and repeated phrases",
  "Existing tests check one fixture's totals.",
  ["src/SynonymEngine.cpp","src/SynonymEngine.h"],[("ParseStrings, ApplyToFst","src/SynonymEngine.cpp")],["synonyms(), resulting graph"])
p("C20","Generated synonyms follow the options",
  "Automatically generated synonyms cover exactly the words the options ask for: a word whose only hyphen is its last character may be spelled without it when cutoffs are enabled, and a compound with hyphens between its parts may be spelled as separate words, and the other way round, when that is enabled; words without a hyphen never start a synonym of their own, and a disabled option generates none. An expression the user gave synonyms for keeps exactly those. Known words keep their ids, and the parts of the other spelling become known words.",
  ["inputs","configurations"],"every vocabulary and option combination",
  "A single fixture run.",
  ["src/SynonymEngine.cpp"],[("GenerateSynFromSymbolTable","src/SynonymEngine.cpp")],["synonyms() after generation"])
p("C21","The first pass never changes what is aligned",
  "Running the complete alignment with the fast first pass enabled always gives an alignment, and one that is still faithful to both inputs; for plain texts its number of errors is the same as without the first pass, and a hypothesis that spells the reference (or one of its alternatives) comes out with zero errors. Whether words are anchored depends only on the lengths (both sides more than ten words) and on the absence of unmatched stretches of the hypothesis longer than the configured streak; only words a minimal alignment matches are anchored, and of those at most the ones between two errors are left unanchored.",
  ["inputs","configurations"],"every pair of texts longer than the first-pass threshold and around it",
  "Fixtures cover a few files; anchoring depends on the match pattern.",
  ["src/fstalign.cpp","src/fast-d.cpp","src/AdaptedComposition.cpp"],[("Levenshtein first pass and map relaxation","src/fstalign.cpp Fstalign")],["wer_alignment vector from Fstalign"])
p("C22","Token classification and text helpers agree with their grammar",
  "A token is treated as an entity label, synonym label or noise code exactly when it has that marker form; label ids and class names extracted from a label are the ones spelled in it, for every id and name. Text helpers (trimming, joining, case-insensitive comparison and suffix tests, lower-casing) return what their names say for every input, including empty strings.",
  ["inputs"],"every token string",
  "Helpers have few or no direct tests.",
  ["src/utilities.cpp","src/utilities.h"],[("isEntityLabel, isSynonymLabel, IsNoisecodeToken, getLabelIdFromToken, GetLabelNameFromClassLabel, GetClassLabel, trim, string_join, iequals, EndsWithCaseInsensitive, UnicodeLowercase","src/utilities.cpp")],["return values"])
p("C23","Side-by-side report lists every aligned position",
  "The side-by-side report holds one line per aligned position, in order, showing the reference and hypothesis words of that position, an error marker exactly when they differ, and the label and wer-tag information of that position; no-op positions are left out. It ends with one entry per group of consecutive differing positions, giving the report line of its first position and the words of both sides in order.",
  ["inputs"],"every stitched alignment",
  "No test reads the report's body.",
  ["src/wer.cpp"],[("WriteSbs","src/wer.cpp")],["file written by WriteSbs"])
p("C24","The parts of one report agree",
  "Everything one run reports describes the same alignment: the totals, the breakdowns by speaker, sentence, tag, class, speaker switch and casing, the precision and recall, the unigram statistics, the side-by-side report and the aligned transcript all follow from the aligned positions - the breakdowns that partition the positions (speakers, sentences, words) add up to the totals, every line of the side-by-side report and of the transcript belongs to one position, and each transcript row keeps its own row's fields with the times of the hypothesis word aligned to it. A breakdown or file is produced exactly when the inputs and options ask for it: breakdowns by speaker, sentence and tag for a transcript reference, case statistics and speaker switches when switched on, the words whose count reaches the threshold, inserted words in the transcript only when they are to be kept, and the files only when named. Keeping case, or not, holds for all parts alike.",
  ["inputs","configurations"],"every pair of inputs of every kind, under every combination of the reporting options",
  "Fixture runs compare single totals; no test compares the parts of one report with each other.",
  ["src/fstalign.cpp","src/wer.cpp","src/AlignmentTraversor.cpp"],[("HandleWer, HandleAlign, make_stitches, align_stitches_to_nlp, write_stitches_to_nlp","src/fstalign.cpp"),("Record*, WriteSbs, JsonLogUnigramBigramStats","src/wer.cpp")],["JSON log, side-by-side file and aligned transcript of one run"])
p("C25","The command line means what its help says",
  "Every option reaches the setting it names and no other, a setting that is not given has its documented default, and the subcommand asked for runs exactly once with the inputs named; the kind of an input follows from the ending of its name whatever its case (.nlp transcript, .ctm timed words, .fst graph, anything else text), labels, normalisation and sidecar files are taken up for the reference, and punctuation and case settings apply to both inputs. The JSON log is written exactly when asked for. Asking for help or the version, or an unknown command or option, does no work.",
  ["inputs","configurations"],"every combination of options and names",
  "No test runs the command line.",
  ["src/main.cpp"],[("option declarations and loader selection","src/main.cpp main")],["arguments of HandleWer/HandleAlign, loaders, files written, exit status"])
p("C26","A lattice is aligned along its most accurate path",
  "A hypothesis given as a graph file with its symbol table (acyclic, unweighted, its arcs in any order) is aligned with any reference: the hypothesis sides of the alignment spell one path of the graph from its start to one of its final states, the reference sides spell one reading of the reference, and the counts are those of the rows. With the standard composition, as documented for such inputs, the path is a most accurate one: no cheapest alignment of any reading with any path has a better word error rate. The numbers the symbol table gives to words, their order, and whether it lists the special symbols, make no difference.",
  ["inputs","configurations"],"every small lattice, symbol table and reference",
  "One fixture lattice with one symbol table.",
  ["src/FstFileLoader.cpp","src/StandardComposition.cpp","src/fstalign.cpp","src/Walker.cpp","src/utilities.h"],[("convertToFst","src/FstFileLoader.cpp"),("symbol table read and special symbols registered","src/fstalign.cpp Fstalign"),("edit transducers and composition","src/StandardComposition.cpp")],["wer_alignment returned by Fstalign"])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s)
print(len(P))

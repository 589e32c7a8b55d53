// C25: the command line means what its help says, and the kind of an input follows from its name.
// not linked: fstalign.cpp
#include "FstFileLoader.h"
#include "OneBestFstLoader.h"
#include "fstalign.h"
#include "json_logging.h"
#include "stitchgen.h"
#include "hfile.h"
#include <cstring>
extern "C++" int fstalign_main_(int, char **) __asm__("fstalign_main");
void harness_init(void) {}
// is `word` of a reference offered `other` as well?
static bool offers(SynonymEngine &e, const char *word, const std::vector<std::string> &other) {
  fst::SymbolTable t("t"); FstAlignOption o; o.RegisterSymbols(t);
  for (auto w : {"a", "b", "c", "the-", "the", "x-y", "x", "y"}) t.AddSymbol(w);
  fst::StdVectorFst f; f.AddState(); f.AddState(); f.SetStart(0); f.SetFinal(1, 0); int id = t.Find(word); f.AddArc(0, fst::StdArc(id, id, 0, 1));
  SynonymEngine copy = e;
  copy.GenerateSynFromSymbolTable(t);
  copy.ApplyToFst(f, t);
  std::vector<std::string> found;
  for (int s = 0; s < f.NumStates(); s++) for (fst::ArcIterator<fst::StdVectorFst> i(f, s); !i.Done(); i.Next()) { std::string w = t.Find(i.Value().ilabel); if (w != word && !isEntityLabel(w)) found.push_back(w); }
  sym_assert(found.empty() || found == other, "the other spelling");
  return !found.empty();
}
// what the work was asked to be
struct Asked { int wer = 0, align = 0; FstLoader *ref, *hyp; AlignerOptions o; std::string sbs, nlp; bool inserts = false, use_case = false; bool cutoffs, compounds, listed; } g;
static void look(FstLoader &ref, FstLoader &hyp);
static void known(SynonymEngine &e) { g.cutoffs = offers(e, "the-", {"the"}); g.compounds = offers(e, "x-y", {"x", "y"}); g.listed = offers(e, "a", {"b", "c"}); }
void HandleWer(FstLoader &ref, FstLoader &hyp, SynonymEngine &engine, const string &output_sbs, const string &output_nlp, AlignerOptions o, bool add_inserts_nlp, bool use_case) {
  g.wer++; g.o = o; g.sbs = output_sbs; g.nlp = output_nlp; g.inserts = add_inserts_nlp; g.use_case = use_case; known(engine);
  jsonLogger::JsonLogger::getLogger().root["wer"]["seen"] = 7;
  look(ref, hyp);
}
void HandleAlign(NlpFstLoader &ref, CtmFstLoader &hyp, SynonymEngine &engine, ofstream &out, AlignerOptions o) {
  g.align++; g.o = o; known(engine);
  out << "aligned" << endl;
  look(ref, hyp);
}
static std::string word[2]; static int kind[2]; static bool norm_given, sidecar_given, punct, keepcase;
static std::string spoken(const std::string &w) { return keepcase ? w : lower_ascii(w); }
static void look(FstLoader &ref, FstLoader &hyp) {
  FstLoader *l[] = {&ref, &hyp};
  for (int i = 0; i < 2; i++) {
    NlpFstLoader *n = dynamic_cast<NlpFstLoader *>(l[i]); CtmFstLoader *c = dynamic_cast<CtmFstLoader *>(l[i]); OneBestFstLoader *t = dynamic_cast<OneBestFstLoader *>(l[i]); FstFileLoader *f = dynamic_cast<FstFileLoader *>(l[i]);
    sym_assert((n != nullptr) == (kind[i] == 0) && (c != nullptr) == (kind[i] == 1) && (f != nullptr) == (kind[i] == 2) && (t != nullptr) == (kind[i] == 3), "the kind of an input follows from its name");
    if (kind[i] == 2) { sym_cover("graph"); continue; }
    fst::SymbolTable s("s"); FstAlignOption opt; opt.RegisterSymbols(s);
    l[i]->addToSymbolTable(s);
    std::vector<int> v = l[i]->convertToIntVector(s);
    if (kind[i] == 0) {
      sym_assert(v.size() == (punct ? 3 : 2), "words and punctuation of the transcript");
      sym_assert(same(s.Find(v[0]), spoken(word[i])), "word of the transcript");
      if (punct) sym_assert(s.Find(v[1]) == ".", "punctuation of the transcript");
      std::string last = s.Find(v[punct ? 2 : 1]);
      if (i == 0) sym_assert(last == "___5_DATE___", "labels of a reference are taken up"); else sym_assert(same(last, spoken("Ten")), "labels of a hypothesis are not");
      if (i == 0) {
        sym_assert(n->mJsonNorm["5"]["candidates"].size() == (norm_given ? 2 : 1), "readings of the normalisation file");
        sym_assert((s.Find("x") >= 0) == norm_given, "readings of the normalisation file");
        sym_assert(n->mNlpRows[0].wer_tags.size() == 1 && n->mNlpRows[0].wer_tags[0].entity_type == (sidecar_given ? "TIME" : ""), "entities of the sidecar file");
      }
      sym_cover("transcript");
    } else { sym_assert(v.size() == 1 && same(s.Find(v[0]), spoken(word[i])), "word of the text"); sym_cover(kind[i] == 1 ? "timed" : "text"); }
  }
}
static std::string content(int k, const std::string &w, int who) {
  if (k == 0) return "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags\n" + w + "|1|||.||LC|[]|['3']\nTen|1|||||UC|['5:DATE']|[]\n";
  if (k == 1) return "rec 1 0.5 0.25 " + w + " 0.75\n";
  if (k == 2) return "";
  return w + "\n";
}
static std::vector<std::string> args;
static inline void arg(const std::string &a) { args.push_back(a); }
static __attribute__((noinline)) void dirty() { volatile unsigned char b[200000]; for (size_t i = 0; i < sizeof b; i++) b[i] = 1; }
static int run() {
  std::vector<char *> v; v.push_back((char *)"fstalign");
  for (auto &a : args) v.push_back((char *)a.c_str());
  v.push_back(nullptr);
  dirty();
  return fstalign_main_(args.size() + 1, v.data());
}
static std::string number(const char *name) { std::string s = sym_string(name, "123", 2); return s; }
static int value(const std::string &s) { return (s[0] - '0') * 10 + (s[1] - '0'); }
void harness_main(void) {
  jsonLogger::JsonLogger::getLogger().root = Json::Value();
  g = Asked(); args.clear(); norm_given = sidecar_given = punct = keepcase = false;
  int what = sym_param("what", 0);
  bool align = what == 2;
  if (what == 3) {  // no work to do
    switch (sym_choose("command", 0, 5)) {
      case 0: arg("--version"); sym_assert(run() == 0, "the version"); break;
      case 1: sym_assert(run() == 1, "no command"); break;
      case 2: arg("--help"); sym_assert(run() == 0, "help"); break;
      case 3: arg("wer"); arg("--no-such-option"); sym_assert(run() != 0, "unknown option"); break;
      case 4: arg("wer"); arg("--numbests"); arg("many"); sym_assert(run() != 0, "not a number"); break;
      case 5: arg("weer"); sym_assert(run() != 0, "unknown command"); break;
    }
    sym_assert(g.wer == 0 && g.align == 0, "no work asked for"); sym_cover("no-work"); sym_observe(g.wer);
    return;
  }
  arg(align ? "align" : "wer");
  // the inputs
  std::string name[2];
  for (int i = 0; i < 2; i++) {
    static const char *const EXT[] = {".nlp", ".ctm", ".fst", ".txt", "", ".nlp.txt", "nlp", ".nl", ".ctmx", "_fst"};
    int e = what == 0 ? sym_choose("name", 0, 9) : align ? i : what == 1 ? (i ? 3 - (int)sym_choose("timed", 0, 1) * 2 : 0) : 3;
    if (what == 0 && i == 1 && e > 3 && sym_param("both", 0) == 0) e = 3;
    std::string ext = EXT[e];
    kind[i] = e < 3 ? e : 3;
    if (what == 0 && e < 3) for (size_t k = 1; k < 4; k++) ext[k] = (char)(ext[k] - (int)sym_range("upper", 0, 1) * 32);
    name[i] = std::string(i ? "hyp" : "ref") + ext;
    word[i] = sym_string("word", "aB", 1);
    put_file(name[i].c_str(), content(kind[i], word[i], i));
    arg(i ? "--hyp" : "--ref"); arg(hfile(name[i].c_str()));
  }
  if (what == 0) {
    if ((keepcase = sym_choose("use-case", 0, 1))) arg("--use-case");
    if ((punct = sym_choose("use-punctuation", 0, 1))) arg("--use-punctuation");
    sym_assert(run() == 0, "done"); sym_assert(g.wer == 1 && g.align == 0, "the work asked for, once");
    sym_observe(kind[0]); sym_observe(kind[1]);
    return;
  }
  // the options: one is given and the others are not, or the other way round
  put_file("norm.json", "{\"5\": {\"candidates\": [{\"verbalization\": [\"x\"], \"probability\": 0.5}], \"class\": \"DATE\"}}");
  put_file("side.json", "{\"3\": {\"entity_type\": \"TIME\"}}");
  put_file("syn.txt", "a | b c\n");
  enum { NORM, SYN, CUTOFFS, HYPHEN, APPROX, NLP, SBS, BESTS, STREAK, THRESHOLD, SYMBOLS, COMPOSITION, COMMON, SIDECAR = COMMON, CONTEXT, JSON, CASESTATS, PUNCT, CASE, INSERTS, ALL };
  int all = align ? COMMON : ALL, one = sym_choose("option", 0, all), two = sym_choose("second", one, sym_param("pairs", 0) ? all : one); bool rest = sym_choose("others", 0, 1);
  bool has[ALL] = {}; for (int i = 0; i < all; i++) has[i] = (i == one || i == two) != rest;
  if (align) has[NLP] = true;
  std::string bests = "100", streak = "100", threshold = "0", context = "5"; int vb = 100, vs = 100, vt = 0, vc = 5;
  auto num = [&](int id, const char *flag, int &v) { if (!has[id]) return; std::string s; if (id == one || id == two) s = number("number"); else s = id == BESTS ? "12" : id == STREAK ? "23" : id == THRESHOLD ? "31" : "44"; arg(flag); arg(s); v = value(s); };
  if (has[NORM]) { arg("--ref-json"); arg(hfile("norm.json")); norm_given = true; }
  if (has[SYN]) { arg(sym_choose("short", 0, 1) ? "-s" : "--syn"); arg(hfile("syn.txt")); }
  if (has[CUTOFFS]) arg("--disable-cutoffs"); if (has[HYPHEN]) arg("--disable-hyphen-ignore"); if (has[APPROX]) arg("--disable-approx-alignment");
  if (has[NLP]) { arg("--output-nlp"); arg(hfile("out.nlp")); } if (has[SBS]) { arg("--output-sbs"); arg(hfile("out.sbs")); }
  num(BESTS, "--numbests", vb); num(STREAK, "--levenstein-max-error-streak", vs); num(THRESHOLD, "--pr_threshold", vt);
  if (has[SYMBOLS]) { arg("--symbols"); arg(hfile("sym.txt")); } if (has[COMPOSITION]) { arg("--composition-approach"); arg("standard"); }
  if (has[SIDECAR]) { arg("--wer-sidecar"); arg(hfile("side.json")); sidecar_given = true; }
  num(CONTEXT, "--speaker-switch-context", vc);
  if (has[JSON]) { arg("--json-log"); arg(hfile("log.json")); } if (has[CASESTATS]) arg("--record-case-stats"); if (has[PUNCT]) { arg("--use-punctuation"); punct = true; } if (has[CASE]) { arg("--use-case"); keepcase = true; } if (has[INSERTS]) arg("--add-inserts-nlp");
  sym_assert(run() == 0, "done");
  sym_assert(g.wer == !align && g.align == (int)align, "the work asked for, once");
  sym_assert(g.o.numBests == vb, "number of alternatives"); sym_assert(g.o.levenstein_maximum_error_streak == vs, "error streak"); sym_assert(g.o.pr_threshold == vt, "threshold of the statistics");
  sym_assert(g.o.speaker_switch_context_size == vc, "speaker switch context"); sym_assert(g.o.levenstein_first_pass == !has[APPROX], "first pass");
  sym_assert(g.o.composition_approach == (has[COMPOSITION] ? "standard" : "adapted"), "composition"); sym_assert(g.o.symbols_filename == (has[SYMBOLS] ? hfile("sym.txt") : ""), "symbols");
  sym_assert(g.o.record_case_stats == has[CASESTATS], "case statistics");
  sym_assert(g.cutoffs == !has[CUTOFFS] && g.compounds == !has[HYPHEN], "synonym options");
  sym_assert(g.listed == has[SYN], "synonyms of the file");
  if (!align) {
    sym_assert(g.sbs == (has[SBS] ? hfile("out.sbs") : "") && g.nlp == (has[NLP] ? hfile("out.nlp") : ""), "names of the outputs");
    sym_assert(g.inserts == has[INSERTS] && g.use_case == has[CASE], "inserts and case");
  } else sym_assert(get_file("out.nlp") == "aligned\n", "the transcript is written");
  std::string log = get_file("log.json");
  if (has[JSON]) { sym_assert(log.find("\"seen\" : 7") != std::string::npos && log.back() == '\n', "the log is written"); sym_cover("log"); } else sym_assert(log == "<no such file>", "no log unless asked for");
  sym_cover(rest ? "all-but-one" : "one");
  sym_observe(g.o.numBests); sym_observe(g.o.pr_threshold);
}

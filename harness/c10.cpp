// C10: one stitch per aligned position; hypothesis rows are consumed once, in order, by the positions they were aligned to.
#include "fstalign.cpp"
#include "stitchgen.h"
struct Want { std::string ref, hyp, label, comment; int row; };  // row: hypothesis row, or -1
void harness_init(void) {}
void harness_main(void) {
  int N = sym_param("n", 3), M = sym_param("m", 2), SRC = sym_param("src", 0);
  bool use_case = sym_choose("case", 0, 1);
  wer_alignment top;
  std::vector<std::string> words;  // hypothesis source words
  std::vector<Want> want;
  auto pair = [&](const std::string &label, wer_alignment &to) {
    int kind = sym_choose("edit", 0, 2);  // both sides, insertion, deletion
    Want w; w.label = label; w.row = -1;
    w.ref = kind == 1 ? "<ins>" : sym_string("r", "aA", 1);
    if (kind == 2) { w.hyp = "<del>"; w.comment = "del"; sym_cover("del"); }
    else {
      std::string src = sym_string("h", "aAb", 1);
      w.hyp = use_case ? src : lower_ascii(src);
      w.row = words.size();
      words.push_back(src);
      if (kind == 1) { w.comment = "ins"; sym_cover("ins"); }
    }
    want.push_back(w);
    to.tokens.push_back({w.ref, w.hyp});
  };
  int n = sym_choose("n", 0, N), nl = 0;
  std::vector<wer_alignment> segs;
  for (int i = 0; i < n; i++) {
    int k = nl < 2 ? sym_choose("kind", 0, 2) : 0;
    if (k == 0) { pair("global", top); continue; }
    wer_alignment s;
    s.classLabel = std::string("___") + std::to_string(nl) + (k == 1 ? "_X___" : "_FALLBACK___");
    nl++;
    int m = sym_choose("m", 0, M);
    if (m == 0) { Want w; w.label = s.classLabel; w.ref = w.hyp = "!!noop-token!!"; w.row = -1; want.push_back(w); sym_cover("noop"); }
    for (int t = 0; t < m; t++) pair(s.classLabel, s);
    top.tokens.push_back({s.classLabel, s.classLabel});
    segs.push_back(s);
    sym_cover("segment");
  }
  top.label_alignments = segs;
  std::vector<RawCtmRecord> ctm;
  std::vector<RawNlpRecord> nlp;
  std::vector<std::string> best;
  std::vector<int> tk;  // nlp timing kinds
  int salt = SRC == 1 && !words.empty() ? sym_choose("timing", 0, 3) : 0;
  static const char *const TS[] = {"0.5", "1.25", "2.5", "10.75", "100.125", "7", "8.5", "9.25"};
  for (size_t i = 0; i < words.size(); i++) {
    if (SRC == 0) { RawCtmRecord r; r.recording = "f"; r.channel = "1"; r.start_time_secs = 0.5f + 2 * i; r.duration_secs = 0.25f * (i + 1); r.confidence = 0.125f * (i + 1); r.word = words[i]; ctm.push_back(r); }
    if (SRC == 1) {
      RawNlpRecord r; r.token = words[i];
      int k = (i + salt) & 3;
      if (k & 1) r.ts = TS[i];
      if (k & 2) r.endTs = TS[i + 1];
      tk.push_back(k); nlp.push_back(r);
    }
    if (SRC == 2) best.push_back(words[i]);
  }
  auto st = make_stitches(top, ctm, nlp, best, use_case);
  sym_assert(st.size() == want.size(), "one record per aligned position");
  for (size_t i = 0; i < want.size(); i++) {
    Stitching &s = st[i]; Want &w = want[i];
    sym_assert(same(s.reftk, w.ref), "reference token");
    sym_assert(same(s.hyptk, w.hyp), "hypothesis token");
    sym_assert(same(s.classLabel, w.label), "class label");
    if (w.comment.empty() && w.row >= 0) {
      std::string sub = "sub(" + w.hyp + ")";
      bool eq = same(w.ref, w.hyp);
      sym_assert(eq ? s.comment.empty() : same(s.comment, sub), "comment says what the alignment says");
      if (!eq) sym_cover("sub");
    } else sym_assert(same(s.comment, w.comment), "comment says what the alignment says");
    if (w.row < 0 || SRC == 3) {
      sym_assert(s.hyp_orig.empty() && s.start_ts == 0 && s.end_ts == 0 && s.duration == 0 && s.confidence == 0, "no hypothesis content");
      continue;
    }
    sym_assert(same(s.hyp_orig, words[w.row]), "original word of its own row");
    float st_ = 0, en = 0, du = 0, co = 0;
    if (SRC == 0) { st_ = ctm[w.row].start_time_secs; du = ctm[w.row].duration_secs; en = st_ + du; co = ctm[w.row].confidence; }
    if (SRC == 1 && tk[w.row]) {
      float a = atof(TS[w.row]), b = atof(TS[w.row + 1]);
      st_ = tk[w.row] & 1 ? a : b; en = tk[w.row] & 2 ? b : a; du = en - st_;
    }
    sym_assert(s.start_ts == st_ && s.end_ts == en && s.duration == du && s.confidence == co, "timing and confidence of its own row");
    sym_observe((long)(s.start_ts * 1000)); observe(s.comment); observe(s.hyp_orig);
  }
}

// C11: reference rows are attached to the stitches of their own words, in order, each once.
#include "fstalign.cpp"
#include "stitchgen.h"
static RawNlpRecord mkrow(int i, const std::string &label) {
  RawNlpRecord r;
  r.token = sym_string("tok", "ab", 1) + std::to_string(i); r.speakerId = sym_string("spk", "12", 1); r.punctuation = sym_string("punct", ".,", 1); r.prepunctuation = "(" + std::to_string(i);
  r.casing = sym_string("cas", "UC", 1) + "C"; r.ts = std::to_string(i) + ".5"; r.endTs = std::to_string(i) + ".75"; r.confidence = "0." + std::to_string(i);
  r.best_label = label; r.labels = label.empty() ? "[]" : "['" + label + "']"; r.best_label_id = label.empty() ? "" : label.substr(0, label.find(":"));
  for (int k = 0; k < (i & 1); k++) { WerTagEntry t; t.tag_id = std::to_string(i); t.entity_type = "T" + std::to_string(i); r.wer_tags.push_back(t); }
  return r;
}
static int salt;
struct Want { bool has; RawNlpRecord row; std::string comment; };
static Stitching mkstitch(const std::string &label, bool ins, int i) {
  Stitching s{};
  s.classLabel = label;
  s.reftk = ins ? "<ins>" : "w" + std::to_string(i); s.hyptk = "h" + std::to_string(i);
  if (ins) s.comment = "ins";
  else { int k = (i + salt) % 3; s.comment = k == 0 ? "" : k == 1 ? "del" : "sub(ins)"; }
  return s;
}
void harness_init(void) {}
void harness_main(void) {
  int N = sym_param("n", 2), R = sym_param("r", 3), INS = sym_param("ins", 1);
  std::vector<RawNlpRecord> rows;
  std::vector<Stitching> st;
  std::vector<Want> want;
  int n = sym_choose("items", 0, N);
  salt = sym_choose("comments", 0, 2);
  auto insertion = [&](const std::string &label) { st.push_back(mkstitch(label, true, st.size())); Want w; w.has = false; w.comment = "ins"; want.push_back(w); };
  for (int i = 0; i < n; i++) {
    if (INS && sym_choose("insbefore", 0, 1)) insertion("global");
    int kind = sym_choose("kind", 0, 2);  // word, class, synonym
    if (kind == 0) {
      rows.push_back(mkrow(rows.size(), ""));
      st.push_back(mkstitch("global", false, st.size()));
      Want w; w.has = true; w.row = rows.back(); w.comment = st.back().comment; want.push_back(w);
      continue;
    }
    int r = sym_choose("rows", 1, R), s = sym_choose("words", kind == 1 ? 0 : 1, R);
    std::string id = std::to_string(i + 1), lab = kind == 1 ? id + ":MONEY_X" : "";
    std::string cl = kind == 1 ? "___" + id + "_MONEY_X___" : "___" + std::to_string(100000 + i) + "_SYN_" + std::to_string(r) + "-" + std::to_string(s) + "___";
    sym_cover(kind == 1 ? "class" : "synonym");
    if (INS && sym_choose("insfirst", 0, 1)) insertion(cl);
    int r0 = rows.size(), s0 = st.size();
    for (int k = 0; k < r; k++) rows.push_back(mkrow(rows.size(), lab));
    int total = 0;
    for (int k = 0; k < s; k++) {
      st.push_back(mkstitch(cl, false, st.size())); total++;
      if (INS && k == 0 && sym_choose("insinside", 0, 1)) { st.push_back(mkstitch(cl, true, st.size())); total++; }
    }
    if (s == 0) { Stitching p{}; p.classLabel = cl; p.reftk = p.hyptk = NOOP; st.push_back(p); total = 1; sym_cover("empty-reading"); }
    for (int k = 0; k < total; k++) {
      Want w; w.has = true; w.comment = st[s0 + k].comment;
      if (r == 1 && total == 1) w.row = rows[r0];
      else if (r == total) { w.row = rows[r0 + k]; w.comment += ",direct"; sym_cover("direct"); }
      else if (r == 1) {  // one row for many words: case on the first, punctuation on the last
        w.row = rows[r0]; w.comment += ",push_last"; sym_cover("one-row-many-words");
        if (k < total - 1) { w.row.punctuation = ""; w.row.prepunctuation = ""; w.row.confidence = ""; }
        if (k > 0) w.row.casing = "LC";
      } else {
        w.comment += ",split_worst"; sym_cover("different-counts");
        if (total == 1) { w.row = rows[r0]; w.row.punctuation = rows[r0 + r - 1].punctuation; sym_cover("many-rows-one-word"); }
        else if (k == 0) w.row = rows[r0];
        else if (k == total - 1) w.row = rows[r0 + r - 1];
        else { w.row = RawNlpRecord(); w.row.speakerId = rows[r0].speakerId; w.row.casing = "LC"; w.row.labels = rows[r0].labels; w.row.wer_tags = rows[r0].wer_tags; }
      }
      want.push_back(w);
    }
  }
  if (INS && sym_choose("insend", 0, 1)) insertion("global");
  std::vector<RawNlpRecord> none;
  NlpFstLoader loader(none, Json::Value(), Json::Value());
  loader.mNlpRows = rows;
  std::vector<Stitching> before = st;
  align_stitches_to_nlp(loader, st);
  sym_assert(st.size() == want.size(), "number of stitches");
  for (size_t i = 0; i < want.size(); i++) {
    sym_assert(same(st[i].reftk, before[i].reftk) && same(st[i].hyptk, before[i].hyptk) && same(st[i].classLabel, before[i].classLabel), "the stitch itself is kept");
    if (want[i].has) sym_assert(same_row(st[i].nlpRow, want[i].row), "the row of its own word");
    else sym_assert(same_row(st[i].nlpRow, RawNlpRecord()), "an inserted word gets no row");
    sym_assert(same(st[i].comment, want[i].comment), "comment");
    observe_row(st[i].nlpRow); observe(st[i].comment);
  }
  for (size_t i = 0; i < rows.size(); i++) sym_assert(same(loader.mNlpRows[i].token, rows[i].token), "the transcript is not changed");
}

// C13: every breakdown counts each aligned position in the group it belongs to, and the groups add up.
#include "wer.cpp"
#include "hutil.h"
#include <map>
void harness_init(void) {}
enum { OK, INSN, DELN, SUBN, EMPTY };  // EMPTY: the row of a class whose empty reading was chosen, no word
struct Cnt { int ins = 0, del = 0, sub = 0, words = 0; void add(int k) { ins += k == INSN; del += k == DELN; sub += k == SUBN; words += k != INSN && k != EMPTY; } };
static Json::Value &root() { return jsonLogger::JsonLogger::getLogger().root["wer"]; }
static void same_counts(Json::Value &j, const Cnt &c) {
  sym_assert(j["insertions"].asInt() == c.ins, "insertions of the group");
  sym_assert(j["deletions"].asInt() == c.del, "deletions of the group");
  sym_assert(j["substitutions"].asInt() == c.sub, "substitutions of the group");
  sym_assert(j["numWordsInReference"].asInt() == c.words, "reference words of the group");
  sym_assert(j["numErrors"].asInt() == c.ins + c.del + c.sub, "errors of the group");
  if (c.words > 0) sym_assert(j["wer"].asFloat() == (float)(c.ins + c.del + c.sub) / (float)c.words, "rate of the group");
  else sym_assert(!(j["wer"].asFloat() >= 0 && j["wer"].asFloat() < 1e30), "no rate without words");
}
static int kind_of(Stitching &s, int i) {
  int k = sym_choose("kind", OK, i == 2 ? EMPTY : SUBN);
  std::string w = sym_string("w", "ab", 1);
  s.reftk = k == INSN ? INS : w; s.hyptk = k == DELN ? DEL : k == SUBN ? w + "x" : w;
  // comments get extended when rows are attached
  static const char *const ext[] = {"", ",push_last"};
  s.comment = k == INSN ? "ins" : k == DELN ? "del" : k == SUBN ? "sub(" + s.hyptk + ")" : "";
  if (i & 1) s.comment += k == OK ? "direct" : ",direct";
  s.nlpRow.token = k == INSN ? "" : w;
  if (k == EMPTY) { s.reftk = s.hyptk = NOOP; s.comment = ""; sym_cover("no-word"); }
  return k;
}
static void sentences(int n) {
  std::vector<Stitching> st(n); std::vector<Cnt> want; Cnt cur, total; int pend = 0;
  for (int i = 0; i < n; i++) {
    int k = kind_of(st[i], i);
    cur.add(k); total.add(k); pend += k != EMPTY;
    if (k != INSN || (sym_choose("row", 0, 1) && i)) {  // an inserted word inside a class span carries the span's row
      int p = sym_choose("p", 0, 1);
      if (p) { st[i].nlpRow.punctuation = sym_string("eos", ".?!", 1); want.push_back(cur); cur = Cnt(); pend = 0; sym_cover("end"); }
      else st[i].nlpRow.punctuation = i & 1 ? "," : "";
    }
  }
  if (pend) { want.push_back(cur); sym_cover("tail"); }
  RecordSentenceWer(st);
  Json::Value &j = root()["sentenceWer"];
  sym_assert(j.size() == want.size(), "one entry per sentence");
  for (size_t i = 0; i < want.size(); i++) same_counts(j[(int)i], want[i]);
  Cnt sum; for (auto &c : want) { sum.ins += c.ins; sum.del += c.del; sum.sub += c.sub; sum.words += c.words; }
  sym_assert(sum.ins == total.ins && sum.del == total.del && sum.sub == total.sub && sum.words == total.words, "oracle");
  sym_observe(j.size());
}
static void speakers(int n) {
  std::vector<Stitching> st(n); std::map<std::string, Cnt> want; std::string who; Cnt lead; bool any = false;
  for (int i = 0; i < n; i++) {
    int k = kind_of(st[i], i);
    int sp = k == INSN ? (i && sym_choose("row", 0, 1)) * 9 : sym_choose("spk", 1, 2);
    std::string s = sp == 9 ? who : sp == 1 ? "1" : sp == 2 ? "22" : "";  // an inserted word inside a span carries the span's row
    st[i].nlpRow.speakerId = s;
    if (!s.empty()) { if (who.empty()) { want[s] = lead; } who = s; any = true; }
    if (who.empty()) lead.add(k); else want[who].add(k);
    if (sp == 9 && !who.empty()) sym_cover("insertion-with-row");
  }
  RecordSpeakerWer(st);
  Json::Value &j = root()["speakerWER"];
  if (!any) { if (lead.ins) { sym_assert(j.size() == 1, "one group"); same_counts(j[""], lead); sym_cover("no-speaker"); } return; }
  sym_assert(j.size() == want.size(), "one entry per speaker");
  for (auto &a : want) { sym_assert(j.isMember(a.first), "speaker reported"); same_counts(j[a.first], a.second); }
  if (want.size() > 1) sym_cover("two-speakers");
  sym_observe(j.size());
}
static void switches(int n) {
  std::vector<Stitching> st(n); std::vector<int> at, kinds, sw; std::string who; int row = 0;
  int c = sym_choose("context", 0, sym_param("context", 3));
  for (int i = 0; i < n; i++) {
    int k = sym_choose("kind", 0, i == 1 ? 3 : 2);  // word, insertion, error, row without word
    bool err = k == 2;
    if (k == 3) { k = EMPTY; st[i].reftk = st[i].hyptk = NOOP; sym_cover("no-word"); }
    if (err) k = i & 1 ? DELN : SUBN;
    st[i].comment = k == INSN ? (i & 1 ? "ins" : "ins,push_last") : k == DELN ? "del,direct" : k == SUBN ? "sub(b)" : i & 1 ? "" : ",direct";
    std::string s;
    int sp = k == INSN ? i == 2 ? sym_choose("row", 0, 2) : 0 : sym_choose("spk", 1, 2);  // an inserted word may carry the row of its span
    if (sp) { s = sp == 1 ? "1" : "2"; st[i].nlpRow.speakerId = s; }
    if (!s.empty() && s != who) { if (!who.empty()) sw.push_back(row); who = s; }
    kinds.push_back(k); at.push_back(row);
    if (k != INSN) row++;
  }
  Cnt want;
  for (int i = 0; i < n; i++) {
    bool in = false;
    for (int s : sw) in = in || (at[i] > s - c && at[i] < s + c) || (kinds[i] != INSN && c > 0 && at[i] == s - c);
    if (in) { want.add(kinds[i]); sym_cover(kinds[i] == INSN ? "insertion" : "word"); }
  }
  std::vector<int> got = GetSpeakerSwitchIndices(st);
  sym_assert(got == sw, "speaker switches");
  RecordSpeakerSwitchWer(st, c);
  same_counts(root()["speakerSwitchWER"], want);
  sym_assert(root()["speakerSwitchWER"]["meta"]["windowSize"].asInt() == c, "window size");
  if (sw.size() > 1) sym_cover("two-switches");
}
static void tags(int n) {
  std::vector<Stitching> st(n); std::map<std::string, Cnt> want;
  static const char *const T[] = {"1", "12", "2"};
  for (int i = 0; i < n; i++) {
    int k = kind_of(st[i], i), m = sym_choose("tags", 0, 7);
    if (k == INSN && i == 0) m = 0;
    for (int b = 0; b < 3; b++)
      if (m >> b & 1) { WerTagEntry e; e.tag_id = T[i & 1 ? 2 - b : b]; e.entity_type = "X"; st[i].nlpRow.wer_tags.push_back(e); want[e.tag_id].add(k); sym_cover("tag"); }
  }
  RecordTagWer(st);
  Json::Value &j = root()["wer_tag"];
  sym_assert(j.size() == want.size(), "one entry per tag");
  for (auto &a : want) { sym_assert(j.isMember(a.first), "tag reported"); same_counts(j[a.first], a.second); }
}
static bool up(char c) { return c >= 'A' && c <= 'Z'; }
static int ups(const std::string &s) { int r = 0; for (char c : s) r += (int)((unsigned char)(c - 'A') < 26); return r; }
static std::string low(std::string s) { for (char &c : s) c = (char)(c | 32); return s; }
static void casing(int n, int len) {
  std::vector<Stitching> st(n); int tp[2] = {}, fp[2] = {}, fn[2] = {}, salt = sym_choose("salt", 0, 3);
  static const char *const C[] = {"LC", "UC", "CA", "MC"};
  for (int i = 0; i < n; i++) {
    Stitching &s = st[i];
    int k = sym_choose("kind", OK, i == 1 ? EMPTY : SUBN);
    if (k == EMPTY) { s.nlpRow.token = "UmM"; s.nlpRow.casing = C[salt]; s.reftk = s.hyptk = NOOP; sym_cover("no-word"); continue; }
    std::string ref = sym_string("r", "aAbB", len), hyp = k == OK ? ref : sym_string("h", "aAbB", i ? 1 : len);
    if (k == OK) for (char &c : hyp) c = (char)(c ^ (sym_range("flip", 0, 1) << 5));
    if (k == SUBN) hyp += "x";
    int cs = i ? (salt + i) & 3 : sym_choose("case", 0, 3);
    if (k != INSN) { s.nlpRow.token = ref; s.nlpRow.casing = C[cs]; }
    if (k != DELN) s.hyp_orig = hyp;
    s.reftk = k == INSN ? INS : low(ref); s.hyptk = k == DELN ? DEL : low(hyp);
    if (k == INSN || k == DELN) continue;
    int r = ups(ref), h = ups(hyp), g = k == SUBN;
    if (cs == 0) fp[g] += h > 0;
    else { tp[g] += r == h; fn[g] += r > h; fp[g] += r < h; }
    sym_cover(g ? "substituted" : "matched");
  }
  RecordCaseWer(st);
  for (int all = 0; all < 2; all++) {
    Json::Value &j = root()["caseWER"][all ? "all" : "matching"];
    int t = tp[0] + all * tp[1], f = fp[0] + all * fp[1], m = fn[0] + all * fn[1];
    int gt = j["true_positive"].asInt(), gf = j["false_positive"].asInt(), gm = j["false_negative"].asInt();
    sym_assert(t == gt, "true positives"); sym_assert(f == gf, "false positives"); sym_assert(m == gm, "false negatives");
    float p = j["precision"].asFloat(), r = j["recall"].asFloat();
    if (gt + gf > 0) sym_assert(p == (float)gt / (float)(gt + gf), "precision");
    if (gt + gm > 0) sym_assert(r == (float)gt / (float)(gt + gm), "recall");
    sym_observe(gt); sym_observe(gf); sym_observe(gm);
  }
}
static void classes(int n) {
  wer_alignment a; std::map<std::string, Cnt> want;
  static const char *const L[] = {"DATE", "CARDINAL", "DATE_TIME"};
  int focus = sym_choose("focus", 0, 5);
  a.insertions = sym_choose("i", 0, 2); a.deletions = sym_choose("d", 0, 1); a.substitutions = sym_choose("s", 0, 1); a.numWordsInReference = sym_choose("w", 0, 1) * 7;
  a.numWordsInHypothesis = 1; a.precision = 0.5f; a.recall = 0.25f;
  for (int i = 0; i < n; i++) {
    int l = sym_choose("label", 0, 2);
    wer_alignment b; b.classLabel = "___" + std::to_string(i * 7) + "_" + L[l] + "___";
    int f = (focus + i) % 6;
    b.insertions = f & 1 ? sym_choose("bi", 0, 2) : i; b.deletions = f & 2 ? sym_choose("bd", 0, 2) : 1; b.substitutions = f & 4 ? sym_choose("bs", 0, 2) : 0;
    b.numWordsInReference = sym_choose("bw", 0, 1) * (3 + i);
    Cnt &c = want[L[l]]; c.ins += b.insertions; c.del += b.deletions; c.sub += b.substitutions; c.words += b.numWordsInReference;
    a.label_alignments.push_back(b);
  }
  RecordWer(a);
  Json::Value &j = root()["classWER"], &t = root()["bestWER"];
  sym_assert(j.size() == want.size(), "one entry per class");
  for (auto &x : want) { sym_assert(j.isMember(x.first), "class reported"); same_counts(j[x.first], x.second); }
  if (want.size() < (size_t)n) sym_cover("shared-class");
  sym_assert(t["insertions"].asInt() == a.insertions && t["deletions"].asInt() == a.deletions && t["substitutions"].asInt() == a.substitutions, "totals");
  sym_assert(t["numErrors"].asInt() == a.insertions + a.deletions + a.substitutions && t["numWordsInReference"].asInt() == a.numWordsInReference, "totals");
  if (a.numWordsInReference) sym_assert(t["wer"].asFloat() == (float)(a.insertions + a.deletions + a.substitutions) / (float)a.numWordsInReference, "rate");
  else sym_assert(std::isinf(t["wer"].asFloat()), "rate without words");
  sym_assert(t["precision"].asFloat() == 0.5f && t["recall"].asFloat() == 0.25f, "precision and recall");
}
void harness_main(void) {
  int what = sym_param("what", 0), N = sym_param("n", 3), n = sym_choose("n", 0, N);
  switch (what) {
    case 0: sentences(n); break;
    case 1: speakers(n); break;
    case 2: switches(n); break;
    case 3: tags(n); break;
    case 4: casing(n, sym_param("len", 2)); break;
    case 5: classes(n); break;
  }
}

// C15: reading an NLP file yields the rows of the file, field by field.
#include "Nlp.cpp"
#include "stitchgen.h"
#include "hfile.h"
#include <map>
void harness_init(void) {}
static const char *const COLS[] = {"token", "speaker", "ts", "endTs", "punctuation", "prepunctuation", "case", "tags", "wer_tags", "ali_comment", "oldTs", "oldEndTs", "confidence"};
static std::string listing(const std::vector<std::string> &v, bool space) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? (space ? ", '" : ",'") : "'") + v[i] + "'";
  return s + "]";
}
void harness_main(void) {
  int N = sym_param("n", 2), L = sym_param("len", 2), T = sym_param("tags", 3), headers = sym_param("headers", 1);
  // header: any rotation, either direction, any of the columns after the first five left out one at a time, an unknown column
  std::vector<std::string> cols(COLS, COLS + 13);
  int drop = headers ? sym_choose("drop", 0, 9) : 0;  // 1..8: one optional column missing; 9: the short header of older files
  if (drop == 9) { cols.resize(9); cols.erase(cols.begin() + 5); sym_cover("short-header"); }
  else if (drop) { cols.erase(cols.begin() + 4 + drop); sym_cover("missing-column"); }
  if (headers) {
    int rot = (int)(sym_choose("rotate", 0, 3) * 3 % cols.size());
    std::rotate(cols.begin(), cols.begin() + rot, cols.end());
    if (sym_choose("reverse", 0, 1)) std::reverse(cols.begin(), cols.end());
    if (sym_choose("extra", 0, 1)) { cols.insert(cols.begin() + rot / 2, "other"); sym_cover("extra-column"); }
  }
  bool space = sym_choose("spaced", 0, 1);
  std::string eol = headers && sym_choose("crlf", 0, 1) ? "\r\n" : "\n";
  std::string file;
  for (size_t i = 0; i < cols.size(); i++) file += (i ? "|" : "") + cols[i];
  file += eol;
  int n = sym_choose("n", 0, N), focus = n && sym_param("focus", 1) ? sym_choose("focus", 0, n - 1) : 0;
  std::vector<RawNlpRecord> want;
  for (int r = 0; r < n; r++) {
    bool f = r == focus && !headers && sym_param("focus", 1);
    RawNlpRecord w;
    std::map<std::string, std::string> v;
    w.token = sym_string("tok", "aB<.", f ? sym_choose("len", 1, L) : 1); w.speakerId = sym_string("spk", "12", f ? sym_choose("slen", 0, 2) : 1); w.ts = "1." + std::to_string(r); w.endTs = "2." + std::to_string(r);
    if (f && w.token.size() > 2) w.token[1] = ' ';  // a blank inside a field stays
    w.punctuation = sym_string("p", ".,'", f ? sym_choose("plen", 0, 1) : 1); w.casing = sym_string("c", "UL", 1) + "C";
    std::vector<std::string> labels, tags;
    int nl = f ? sym_choose("labels", 0, 2) : r % 3, nt = f ? sym_choose("tags", 0, T) : 2 - r % 3;
    for (int k = 0; k < nl; k++) { std::string id = sym_string("id", "09", f ? sym_choose("idlen", 1, 2) : 1 + k); labels.push_back(id + ":" + sym_string("name", "AZ_", f && k == 0 ? sym_choose("namelen", 1, 3) : 1)); }
    for (int k = 0; k < nt; k++) tags.push_back(sym_string("tag", "19", f && k == 0 ? sym_choose("taglen", 1, 2) : 1 + (k & 1)));
    w.labels = listing(labels, space);
    if (nl > 1) sym_cover("two-labels");
    if (nt > 1) sym_cover("two-tags");
    bool has_pre = false, has_wt = false, has_conf = false, has_tags = false, has_case = false;
    for (auto &c : cols) { has_pre |= c == "prepunctuation"; has_wt |= c == "wer_tags"; has_conf |= c == "confidence"; has_tags |= c == "tags"; has_case |= c == "case"; }
    v["token"] = w.token; v["speaker"] = w.speakerId; v["ts"] = w.ts; v["endTs"] = w.endTs; v["punctuation"] = w.punctuation; v["prepunctuation"] = sym_string("pre", "('", 1);
    v["case"] = w.casing; v["tags"] = w.labels; v["wer_tags"] = listing(tags, space); v["ali_comment"] = "sub(x)"; v["oldTs"] = "7.5"; v["oldEndTs"] = "8.5"; v["confidence"] = "0." + sym_string("conf", "19", 1); v["other"] = "zz";
    if (has_pre) w.prepunctuation = v["prepunctuation"];
    if (has_conf) w.confidence = v["confidence"];
    if (!has_tags) w.labels = "";
    if (!has_case) w.casing = "";
    if (has_tags && nl) { w.best_label = labels[0]; w.best_label_id = labels[0].substr(0, f ? 0 : 1); size_t k = 0; while (k < labels[0].size() && labels[0][k] != ':') k++; w.best_label_id = labels[0].substr(0, k); }
    if (has_wt) for (auto &t : tags) { WerTagEntry e; e.tag_id = t; w.wer_tags.push_back(e); }
    int pad = f ? sym_choose("pad", 0, 1) : 0;  // blanks around a field do not belong to it
    for (size_t i = 0; i < cols.size(); i++) file += (i ? "|" : "") + (pad ? " " + v[cols[i]] + "\t" : v[cols[i]]);
    if (r < n - 1 || sym_choose("last-newline", 0, 1)) file += eol;
    want.push_back(w);
  }
  put_file("in.nlp", file);
  NlpReader reader;
  std::vector<RawNlpRecord> got = reader.read_from_disk(hfile("in.nlp"));
  sym_assert(got.size() == want.size(), "one record per row");
  for (size_t i = 0; i < want.size(); i++) {
    sym_assert(same(got[i].token, want[i].token), "token"); sym_assert(same(got[i].speakerId, want[i].speakerId), "speaker"); sym_assert(same(got[i].ts, want[i].ts) && same(got[i].endTs, want[i].endTs), "times");
    sym_assert(same(got[i].punctuation, want[i].punctuation), "punctuation"); sym_assert(same(got[i].prepunctuation, want[i].prepunctuation), "prepunctuation"); sym_assert(same(got[i].casing, want[i].casing), "case");
    sym_assert(same(got[i].labels, want[i].labels), "label list"); sym_assert(same(got[i].best_label, want[i].best_label), "label"); sym_assert(same(got[i].best_label_id, want[i].best_label_id), "label id");
    sym_assert(same(got[i].confidence, want[i].confidence), "confidence"); sym_assert(got[i].wer_tags.size() == want[i].wer_tags.size(), "number of tags");
    for (size_t k = 0; k < want[i].wer_tags.size(); k++) sym_assert(same(got[i].wer_tags[k].tag_id, want[i].wer_tags[k].tag_id) && got[i].wer_tags[k].entity_type.empty(), "tag");
    observe_row(got[i]);
  }
}

// C12: the aligned transcript holds every reference row once, in order, with its own fields.
#include "fstalign.cpp"
#include "stitchgen.h"
#include "hfile.h"
static const char *const TIMES[][2] = {{"0", "0.0000"}, {"1.5", "1.5000"}, {"12.34567", "12.3457"}, {"3599.99996", "3600.0000"}, {"0.00004", "0.0000"}, {"100000.25", "100000.2500"}};
static std::string lowered_equal(const std::string &a) { std::string r = lower_ascii(a); return r; }
void harness_init(void) {}
void harness_main(void) {
  int N = sym_param("n", 2);
  bool inserts = sym_choose("add_inserts", 0, 1);
  int n = sym_choose("n", 0, N), focus = n ? sym_choose("focus", 0, n - 1) : 0;  // the row that varies in everything
  std::vector<Stitching> st;
  std::string want = "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|oldTs|oldEndTs|ali_comment|confidence\n";
  for (int i = 0; i < n; i++) {
    Stitching s{};
    int kind = sym_choose("kind", 0, 3);  // row, insertion, noop, noise
    int ti = (i == focus ? sym_choose("time", 0, 1) : 0) * 3 + i % 3;
    s.start_ts = atof(TIMES[ti][0]); s.end_ts = atof(TIMES[(ti + 1) % 6][0]);
    s.hyptk = sym_string("h", "ab", 1);
    s.confidence = i & 1 ? 1.0 : 0.5;
    std::string id = std::to_string(i);
    if (kind == 1) {
      s.reftk = "<ins>"; s.comment = "ins"; sym_cover("insertion");
      bool span = i == focus ? sym_choose("in-span", 0, 1) : false;  // an inserted word inside a class span carries the span's row
      if (span) { s.comment = i & 1 ? "ins,split_worst" : "ins,direct"; s.classLabel = "___0_X___"; s.nlpRow.token = n > 1 ? "<laugh>" : "row"; s.nlpRow.speakerId = "7"; s.nlpRow.casing = "LC"; s.nlpRow.labels = "['0:X']"; s.nlpRow.best_label_id = "0"; sym_cover("insertion-in-span"); }
      st.push_back(s);
      if (inserts) want += std::string("|") + (span ? "7" : "") + "|" + TIMES[ti][1] + "|" + TIMES[(ti + 1) % 6][1] + (span ? "|||LC|['0:X']|[]|||ins(" : "|||||[]|||ins(") + s.hyptk + ")|\n";
      continue;
    }
    if (kind == 2) { s.reftk = s.hyptk = "!!noop-token!!"; s.nlpRow.token = "x"; s.classLabel = "___1_FALLBACK___"; st.push_back(s); sym_cover("noop"); continue; }
    bool del = sym_choose("deleted", 0, 1);
    if (del) { s.hyptk = "<del>"; s.comment = i == focus ? (sym_choose("span-comment", 0, 1) ? "del,direct" : "del") : i & 1 ? "del,push_last" : "del"; sym_cover("deleted"); }
    else if ((i == focus ? sym_choose("sub", 0, 1) : i & 1)) s.comment = "sub(" + s.hyptk + "),push_last";
    int len = i == focus ? sym_choose("len", 1, 2) : 1;
    if (kind == 3) { s.reftk = "<noise>"; s.nlpRow.token = "<noise:" + sym_string("t", "aA", len) + ">"; sym_cover("noise"); }
    else { s.reftk = sym_string("r", "aB", len); s.nlpRow.token = sym_string("t", "aAb", i == focus ? sym_choose("tlen", 1, 2) : 1); }
    s.nlpRow.speakerId = sym_string("spk", "12", 1); s.nlpRow.punctuation = sym_string("p", ".,", i == focus ? sym_choose("plen", 0, 1) : 1); s.nlpRow.prepunctuation = "(";
    s.nlpRow.casing = sym_string("c", "UL", 1) + "C"; s.nlpRow.labels = i & 1 ? "[]" : "['" + id + ":X']"; s.nlpRow.best_label_id = i & 1 ? "" : id;
    s.nlpRow.ts = id + ".1"; s.nlpRow.endTs = id + ".2"; s.nlpRow.confidence = "0." + id;
    std::string tags = "[";
    int nt = i == focus ? sym_choose("tags", 0, 2) : i & 1;
    for (int k = 0; k < nt; k++) { WerTagEntry t; t.tag_id = std::to_string(10 * i + k); s.nlpRow.wer_tags.push_back(t); tags += (k ? ", '" : "'") + t.tag_id + "'"; }
    tags += "]";
    st.push_back(s);
    // the transcript's own spelling when it is the same word, or a noise code; the word aligned otherwise
    bool own = kind == 3 || same(lower_ascii(s.reftk), lower_ascii(s.nlpRow.token));
    if (own) { sym_cover("own-spelling"); want += s.nlpRow.token; } else { sym_cover("aligned-word"); want += s.reftk; }
    want += "|" + s.nlpRow.speakerId + "|";
    want += del ? std::string("||") : std::string(TIMES[ti][1]) + "|" + TIMES[(ti + 1) % 6][1] + "|";
    want += s.nlpRow.punctuation + "|" + s.nlpRow.prepunctuation + "|" + s.nlpRow.casing + "|" + s.nlpRow.labels + "|" + tags + "|" + s.nlpRow.ts + "|" + s.nlpRow.endTs + "|" + s.comment + "|" + s.nlpRow.confidence + "\n";
  }
  Json::Value norm(Json::objectValue);
  {
    std::ofstream out(hfile("out.nlp"));
    write_stitches_to_nlp(st, out, norm, inserts);
  }
  std::string got = get_file("out.nlp");
  sym_assert(got.size() == want.size(), "length of the transcript written");
  sym_assert(same(got, want), "every field of every row");
  observe(got);
}

// C16: reading a CTM file yields its lines, field by field, and the loader its words in order.
#include "Ctm.cpp"
#include "stitchgen.h"
#include "hfile.h"
void harness_init(void) {}
static const struct { const char *s; float v; } NUM[] = {{"0", 0}, {"1.5", 1.5f}, {"12.34", 12.34f}, {"0.001", 0.001f}, {"3599.75", 3599.75f}, {".5", 0.5f}, {"007", 7}, {"16777217", 16777217.0f}};
void harness_main(void) {
  int N = sym_param("n", 3), L = sym_param("len", 3), n = sym_choose("n", 0, N), focus = n ? sym_choose("focus", 0, n - 1) : 0;
  bool conf = sym_choose("confidence", 0, 1), crlf = sym_choose("crlf", 0, 1);
  int salt = sym_choose("salt", 0, 1) * 3;
  std::string file;
  std::vector<RawCtmRecord> want;
  for (int i = 0; i < n; i++) {
    bool f = i == focus;
    if (i && i == focus && sym_choose("blank", 0, 1)) { file += crlf ? "\r\n" : "\n"; sym_cover("blank-line"); }
    RawCtmRecord w;
    w.recording = sym_string("rec", "aZ.", f ? sym_choose("reclen", 1, 2) : 1); w.channel = sym_string("chan", "1A", w.recording.size());
    w.word = sym_string("word", "aB'-<", f ? sym_choose("wordlen", 1, L) : 1);
    int a = (f ? sym_choose("start", 0, 3) * 2 : i) + salt, b = (f ? sym_choose("duration", 0, 1) * 3 : i + 1) + salt, c = i + 2 + salt;
    w.start_time_secs = NUM[a & 7].v; w.duration_secs = NUM[b & 7].v; w.confidence = conf ? NUM[c & 7].v : 1;
    file += w.recording + " " + w.channel + " " + NUM[a & 7].s + " " + NUM[b & 7].s + " " + w.word;
    if (conf) file += std::string(" ") + NUM[c & 7].s;
    if (i < n - 1 || sym_choose("last-newline", 0, 1)) file += crlf ? "\r\n" : "\n";
    want.push_back(w);
  }
  put_file("in.ctm", file);
  CtmReader reader;
  std::vector<RawCtmRecord> got = reader.read_from_disk(hfile("in.ctm"));
  sym_assert(got.size() == want.size(), "one record per line");
  bool use_case = sym_choose("keepcase", 0, 1);
  CtmFstLoader loader(got, use_case);
  sym_assert(loader.mCtmRows.size() == (size_t)n, "one token per line");
  for (int i = 0; i < n; i++) {
    sym_assert(same(got[i].recording, want[i].recording), "recording"); sym_assert(same(got[i].channel, want[i].channel), "channel"); sym_assert(same(got[i].word, want[i].word), "word");
    sym_assert(got[i].start_time_secs == want[i].start_time_secs, "start"); sym_assert(got[i].duration_secs == want[i].duration_secs, "duration"); sym_assert(got[i].confidence == want[i].confidence, "confidence");
    sym_assert(same(loader.getToken(i), use_case ? want[i].word : lower_ascii(want[i].word)), "token");
    sym_assert(same(loader.mCtmRows[i].word, want[i].word) && loader.mCtmRows[i].start_time_secs == want[i].start_time_secs && loader.mCtmRows[i].duration_secs == want[i].duration_secs && loader.mCtmRows[i].confidence == want[i].confidence, "rows kept for timing");
    observe(got[i].word); observe(loader.getToken(i));
  }
  if (n) sym_cover(conf ? "six-columns" : "five-columns");
}

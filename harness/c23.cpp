// C23: the side-by-side report lists every aligned position, marks the differing ones and groups them.
#include "wer.cpp"
#include "hutil.h"
#include "hfile.h"
void harness_init(void) {}
static std::string lpad(const std::string &s) { return s.size() < 20 ? std::string(20 - s.size(), ' ') + s : s; }
static std::string rpad(const std::string &s) { return s.size() < 20 ? s + std::string(20 - s.size(), ' ') : s; }
void harness_main(void) {
  int N = sym_param("n", 3), n = sym_choose("n", 0, N), focus = n ? sym_choose("focus", 0, n - 1) : 0, focused = sym_param("focus", 1);
  std::vector<Stitching> st;
  std::string want = lpad("ref_token") + "\t" + rpad("hyp_token") + "\tIsErr\tClass\tWer_Tag_Entities\n", groups, gr, gh;
  int line = 2, start = 0;
  auto close = [&]() {
    if (start) { groups += lpad(std::to_string(start)) + "\t" + (gr.empty() ? "*** " : gr) + "<->" + (gh.empty() ? " ***" : gh) + "\n"; sym_cover("group"); }
    start = 0; gr = gh = "";
  };
  for (int i = 0; i < n; i++) {
    Stitching s{};
    bool f = focused && i == focus;
    int kind = sym_choose("kind", 0, 4);  // match, insertion, deletion, substitution, no-op
    int lab = f ? sym_choose("label", 0, 2) : 0;
    s.classLabel = lab == 0 ? "global" : lab == 1 ? "" : "___" + std::to_string(i) + "_DATE___";
    if (kind == 4) { s.reftk = s.hyptk = NOOP; s.classLabel = "___1_FALLBACK___"; st.push_back(s); sym_cover("noop"); continue; }
    int len = f ? sym_choose("len", 0, 3) : 0;
    static const int LEN[] = {1, 19, 20, 21};
    std::string w(LEN[len], 'a' + i), v = f && sym_choose("prefix", 0, 1) ? w + "a" : "z";
    if (kind != 1 && f && sym_choose("marker", 0, 1)) w = kind == 0 ? "<laugh>" : "<unk>";
    s.reftk = kind == 1 ? "<ins>" : w; s.hyptk = kind == 0 || kind == 1 ? w : kind == 2 ? "<del>" : v;
    int nt = kind == 1 ? 0 : f ? sym_choose("tags", 0, 2) : i & 1;
    std::string tags;
    for (int k = 0; k < nt; k++) { WerTagEntry t; t.tag_id = std::to_string(10 * i + k); t.entity_type = k ? "TIME" : "DATE"; s.nlpRow.wer_tags.push_back(t); tags += "###" + t.tag_id + "_" + t.entity_type + "###|"; }
    st.push_back(s);
    if (kind == 0) { close(); sym_cover("match"); }
    else {
      if (!start) start = line;
      if (kind != 1) gr += w + " ";
      if (kind == 1) gh += " " + w;
      if (kind == 3) gh += " " + v;
      sym_cover(kind == 1 ? "insertion" : kind == 2 ? "deletion" : "substitution");
    }
    want += lpad(s.reftk) + "\t" + rpad(s.hyptk) + "\t" + (kind ? "ERR" : "") + "\t" + (lab == 2 ? s.classLabel : std::string()) + "\t" + tags + "\n";
    line++;
  }
  close();
  want += std::string(60, '-') + "\n" + lpad("Line") + "\t" + rpad("Group") + "\n" + groups;
  wer_alignment a;
  WriteSbs(a, st, hfile("sbs.txt"));
  std::string got = get_file("sbs.txt");
  sym_assert(got.size() == want.size(), "length of the report");
  sym_assert(same(got, want), "every line of the report");
  observe(got);
}

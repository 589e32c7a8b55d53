// C24: the parts of one report (totals, breakdowns, side-by-side report, aligned transcript) describe one alignment.
#include "fstalign.cpp"
#include "OneBestFstLoader.h"
#include "stitchgen.h"
#include "aligngen.h"
#include "hfile.h"
#include <map>
void harness_init(void) {}
static Json::Value &root() { return jsonLogger::JsonLogger::getLogger().root["wer"]; }
static std::string lpad(const std::string &s) { return s.size() < 20 ? std::string(20 - s.size(), ' ') + s : s; }
static std::string rpad(const std::string &s) { return s.size() < 20 ? s + std::string(20 - s.size(), ' ') : s; }
struct Cnt { int ins = 0, del = 0, sub = 0, words = 0; void add(int k) { ins += k == 1; del += k == 2; sub += k == 3; words += k != 1; } };
static void same_counts(Json::Value &j, const Cnt &c, const char *) {
  sym_assert(j["insertions"].asInt() == c.ins && j["deletions"].asInt() == c.del && j["substitutions"].asInt() == c.sub, "errors of a breakdown");
  sym_assert(j["numErrors"].asInt() == c.ins + c.del + c.sub && j["numWordsInReference"].asInt() == c.words, "errors and words of a breakdown");
  if (c.words > 0) sym_assert(j["wer"].asFloat() == (float)(c.ins + c.del + c.sub) / (float)c.words, "rate of a breakdown");
}
static int ups(const std::string &s) { int r = 0; for (char c : s) r += (int)((unsigned char)(c - 'A') < 26); return r; }
static const char *const STARTS[] = {"0.5000", "1.2500", "2.0000"}, *const ENDS[] = {"0.7500", "1.7500", "2.1250"};
static const float START[] = {0.5f, 1.25f, 2.0f}, LEN[] = {0.25f, 0.5f, 0.125f};
struct Line { std::string ref, hyp, label; int row; };
// transcripts with class spans and synonyms: how rows and words are paired is for the alignment to say, the parts only have to agree
static void labelled() {
  Scene s; make_scene(s, sym_param("kind", 2), sym_param("n", 1), sym_param("m", 2), 2);
  std::vector<RawCtmRecord> ctm;
  for (size_t j = 0; j < s.hypwords.size(); j++) { RawCtmRecord c{}; c.word = s.hypwords[j]; c.start_time_secs = START[j]; c.duration_secs = LEN[j]; c.confidence = 0.5f; ctm.push_back(c); }
  CtmFstLoader hyp(ctm);
  AlignerOptions o; o.levenstein_first_pass = false; o.speaker_switch_context_size = 5; o.record_case_stats = true;
  wer_alignment a = Fstalign(*s.ref, hyp, s.engine, o);
  Cnt all; std::map<std::string, Cnt> classes; std::vector<Line> lines; size_t empty = 0;
  std::vector<std::string> plain; size_t p = 0;  // the rows outside of class spans, by their old times
  for (auto &r : static_cast<NlpFstLoader &>(*s.ref).mNlpRows) if (r.best_label.empty()) plain.push_back(r.ts);
  for (auto &t : a.tokens) {
    if (!isEntityLabel(t.first)) { int row = -1; if (t.first != "<ins>") row = p++; lines.push_back({t.first, t.second, "", row}); all.add(t.first == "<ins>" ? 1 : t.second == "<del>" ? 2 : same(t.first, t.second) ? 0 : 3); continue; }
    for (auto &l : a.label_alignments) if (l.classLabel == t.first) {
      Cnt &c = classes[isSynonymLabel(t.first) ? "SYN" : "DATE"];
      for (auto &x : l.tokens) { int k = x.first == "<ins>" ? 1 : x.second == "<del>" ? 2 : same(x.first, x.second) ? 0 : 3; all.add(k); c.add(k); lines.push_back({x.first, x.second, t.first, -1}); }
      if (isSynonymLabel(t.first)) p += atoi(t.first.substr(t.first.find("_SYN_") + 5).c_str());
      if (l.tokens.empty()) empty++; else if (!c.words) sym_cover("only-insertions");
    }
    sym_cover(isSynonymLabel(t.first) ? "synonym-used" : "class-used");
  }
  try { HandleWer(*s.ref, hyp, s.engine, hfile("sbs.txt"), hfile("out.nlp"), o, true, false); } catch (const std::exception &e) { sym_assert(false, "a report"); }
  Json::Value &w = root();
  same_counts(w["bestWER"], all, "");
  int named = 0;
  for (auto &n : w["classWER"].getMemberNames()) {
    Json::Value &c = w["classWER"][n];
    const char *key = n == "DATE" ? "DATE" : "SYN"; named += n == "DATE";
    if (n == "DATE") same_counts(c, classes["DATE"], "");
    else { Cnt &x = classes[key]; x.ins -= c["insertions"].asInt(); x.del -= c["deletions"].asInt(); x.sub -= c["substitutions"].asInt(); x.words -= c["numWordsInReference"].asInt(); }
  }
  sym_assert(named == (int)classes.count("DATE"), "classes of the alignment");
  if (classes.count("SYN")) { Cnt &x = classes["SYN"]; sym_assert(!x.ins && !x.del && !x.sub && !x.words, "synonyms of the alignment"); }
  Cnt sum;
  for (auto &x : w["sentenceWer"]) { sum.ins += x["insertions"].asInt(); sum.del += x["deletions"].asInt(); sum.sub += x["substitutions"].asInt(); sum.words += x["numWordsInReference"].asInt(); }
  sym_assert(sum.ins == all.ins && sum.del == all.del && sum.sub == all.sub && sum.words == all.words, "sentences add up to the totals");
  sym_assert(w["speakerWER"].size() == 1 && w["speakerWER"].isMember("1"), "the speaker");
  same_counts(w["speakerWER"]["1"], all, "");
  int ok = 0, ins = 0, del = 0, sub = 0;
  for (auto &u : w["unigrams"]) { ok += u["correct"].asInt(); ins += u["insertions"].asInt(); del += u["deletions"].asInt(); sub += u["substitutions_fp"].asInt(); }
  sym_assert(ins == all.ins && del == all.del && sub == all.sub && ok == all.words - all.del - all.sub, "words add up to the totals");
  std::string sbs = lpad("ref_token") + "\t" + rpad("hyp_token") + "\tIsErr\tClass\tWer_Tag_Entities\n"; size_t next = 0;
  for (auto &l : lines) sbs += lpad(l.ref) + "\t" + rpad(l.hyp) + "\t" + (same(l.ref, l.hyp) ? "" : "ERR") + "\t" + l.label + "\t\n";
  sbs += std::string(60, '-') + "\n";
  std::string got = get_file("sbs.txt");
  sym_assert(got.size() > sbs.size() && same(got.substr(0, sbs.size()), sbs), "side-by-side report of the alignment");
  // one line of the transcript for every position, with the times of its word
  got = get_file("out.nlp"); size_t at = got.find('\n'), j = 0;
  for (auto &l : lines) {
    sym_assert(at + 1 < got.size(), "a line for every position");
    size_t end = got.find('\n', at + 1), f1 = got.find('|', at + 1), f2 = got.find('|', f1 + 1), f4 = got.find('|', got.find('|', f2 + 1) + 1);
    std::string times = got.substr(f2 + 1, f4 - f2 - 1), word = got.substr(at + 1, f1 - at - 1);
    if (l.hyp == "<del>") sym_assert(times == "|", "no times for a deleted word");
    else { sym_assert(times == std::string(STARTS[j]) + "|" + ENDS[j], "times of the word"); j++; }
    if (l.ref == "<ins>") sym_assert(word == "", "no word of the reference"); else sym_assert(same(word, l.ref), "the word aligned");
    if (l.row >= 0) {
      size_t f = f4; for (int q = 0; q < 5; q++) f = got.find('|', f + 1);
      sym_assert(l.row < (int)plain.size() && got.substr(f + 1, got.find('|', f + 1) - f - 1) == plain[l.row], "the row of its own word");
    }
    at = end;
  }
  sym_assert(at + 1 == got.size() && j == s.hypwords.size(), "no other line");
  if (empty) sym_cover("empty-reading");
  if (all.ins) sym_cover("insertion"); if (all.del) sym_cover("deletion"); if (all.sub) sym_cover("substitution"); if (ok) sym_cover("match");
  sym_observe(all.ins); sym_observe(all.del); sym_observe(all.sub);
}
void harness_main(void) {
  jsonLogger::JsonLogger::getLogger().root = Json::Value();
  if (sym_param("labelled", 0)) { labelled(); return; }
  int N = sym_param("n", 2), M = sym_param("m", 2), rk = sym_param("ref", 1), align = sym_param("align", 0);
  int hk = sym_param("hyp", -1); if (hk < 0) hk = sym_choose("hyp-kind", 0, 2);  // text, CTM, transcript
  // every combination of the options, or eight that hold every pair of two options' values
  bool all_options = sym_param("options", 1);
  int pick = all_options ? 0 : sym_choose("options", 0, 7), x0 = pick & 1, x1 = pick >> 1 & 1, x2 = pick >> 2 & 1;
  auto option = [&](const char *name, int v) { return all_options ? (int)sym_choose(name, 0, 1) : v; };
  AlignerOptions o; o.levenstein_first_pass = false; o.speaker_switch_context_size = 5; o.record_case_stats = false;
  bool use_case = false, inserts = false, to_sbs = false, to_nlp = true;
  if (!align) {
    use_case = option("use_case", x0); to_sbs = option("sbs", x1); to_nlp = option("nlp", x2);
    o.record_case_stats = option("case-stats", x0 ^ x1); o.speaker_switch_context_size = option("context", x0 ^ x2) * sym_param("context", 1); o.pr_threshold = option("threshold", x1 ^ x2) * 2;
    if (rk) inserts = option("add_inserts", x0 ^ x1 ^ x2);
  }
  int n = sym_choose("n", 0, N), m = sym_choose("m", 0, M);
  std::vector<RawNlpRecord> rows, hrows; std::vector<RawCtmRecord> ctm; std::vector<std::string> rw, hw;
  int who = 1;
  for (int i = 0; i < n; i++) {
    RawNlpRecord r; r.token = sym_string("ref", i ? "ab" : "abA", 1); rw.push_back(r.token);
    if (rk) {
      if (i && sym_choose("switch", 0, 1)) who = 3 - who;
      r.speakerId = who == 1 ? "1" : "2"; r.punctuation = i + 1 < n || sym_choose("stop", 0, 1) ? (i & 1 ? "," : ".") : ""; r.prepunctuation = i ? "" : "("; r.casing = i ? "LC" : "UC"; r.labels = "[]";
      r.ts = std::to_string(i) + ".1"; r.endTs = std::to_string(i) + ".2"; r.confidence = "0." + std::to_string(i);
      if (!i) { WerTagEntry t; t.tag_id = "7"; t.entity_type = "DATE"; r.wer_tags.push_back(t); }
    }
    rows.push_back(r);
  }
  for (int j = 0; j < m; j++) {
    std::string w = sym_string("hyp", j ? "ac" : "abA", 1); hw.push_back(w);
    RawCtmRecord c{}; c.word = w; c.start_time_secs = START[j]; c.duration_secs = LEN[j]; c.confidence = 0.5f; ctm.push_back(c);
    RawNlpRecord r; r.token = w; r.speakerId = "9"; r.labels = "[]"; r.punctuation = "!"; r.ts = STARTS[j]; r.endTs = ENDS[j]; hrows.push_back(r);
  }
  std::unique_ptr<FstLoader> ref, hyp;
  Json::Value side; side["7"]["entity_type"] = "DATE";
  if (rk) ref = std::make_unique<NlpFstLoader>(rows, Json::Value(Json::objectValue), side, true, false, use_case);
  else { auto l = std::make_unique<OneBestFstLoader>(use_case); l->BuildFromString(text_of(rw)); ref = std::move(l); }
  if (hk == 0) { auto l = std::make_unique<OneBestFstLoader>(use_case); l->BuildFromString(text_of(hw)); hyp = std::move(l); }
  else if (hk == 1) hyp = std::make_unique<CtmFstLoader>(ctm, use_case);
  else hyp = std::make_unique<NlpFstLoader>(hrows, Json::Value(Json::objectValue), Json::Value(Json::objectValue), false, false, use_case);
  SynonymEngine engine{SynonymOptions()};
  wer_alignment a = Fstalign(*ref, *hyp, engine, o);
  // what the report of this alignment has to be
  Cnt all, lead; std::vector<int> kinds, at; std::map<std::string, Cnt> speakers; std::vector<Cnt> sentences; Cnt sentence, tag; bool pend = false, tagged = false; std::string speaker; std::vector<int> sw;
  std::string sbs = lpad("ref_token") + "\t" + rpad("hyp_token") + "\tIsErr\tClass\tWer_Tag_Entities\n", groups, gr, gh;
  std::string nlp = "token|speaker|ts|endTs|punctuation|prepunctuation|case|tags|wer_tags|oldTs|oldEndTs|ali_comment|confidence\n";
  std::map<std::string, int> seen; int tp[2] = {}, fp[2] = {}, fn[2] = {};
  int i = 0, j = 0, line = 2, start = 0;
  auto close = [&]() { if (start) groups += lpad(std::to_string(start)) + "\t" + (gr.empty() ? "*** " : gr) + "<->" + (gh.empty() ? " ***" : gh) + "\n"; start = 0; gr = gh = ""; };
  for (auto &t : a.tokens) {
    int k = t.first == "<ins>" ? 1 : t.second == "<del>" ? 2 : same(t.first, t.second) ? 0 : 3;
    sym_assert((k == 1 || i < n) && (k == 2 || j < m), "rows of the texts");
    std::string r = k == 1 ? "" : use_case ? rw[i] : lower_ascii(rw[i]), h = k == 2 ? "" : use_case ? hw[j] : lower_ascii(hw[j]);
    if (k != 1) sym_assert(same(t.first, r), "words of the reference");
    if (k != 2) sym_assert(same(t.second, h), "words of the hypothesis");
    all.add(k); kinds.push_back(k); at.push_back(i);
    if (k != 1) { seen[r]++; } if (k == 1 || k == 3) seen[h]++;
    if (rk && k != 1 && rows[i].speakerId != speaker) { if (speaker.empty()) speakers[rows[i].speakerId] = lead; else sw.push_back(i); speaker = rows[i].speakerId; }
    if (speaker.empty()) lead.add(k); else speakers[speaker].add(k);
    sentence.add(k); pend = true;
    if (k != 1 && rk && rows[i].punctuation == ".") { sentences.push_back(sentence); sentence = Cnt(); pend = false; }
    if (k != 1 && rk && i == 0) { tag.add(k); tagged = true; }
    if (k == 0 || k == 3) {
      int x = ups(rw[i]), y = ups(hw[j]), g = k == 3;
      if (i) fp[g] += y > 0; else { tp[g] += x == y; fn[g] += x > y; fp[g] += x < y; }
    }
    if (k == 0) close(); else { if (!start) start = line; if (k != 1) gr += r + " "; if (k != 2) gh += " " + h; }
    sbs += lpad(t.first) + "\t" + rpad(t.second) + "\t" + (k ? "ERR" : "") + "\t\t" + (rk && k != 1 && i == 0 ? "###7_DATE###|" : "") + "\n"; line++;
    std::string times = k == 2 ? "||" : hk == 0 ? "0.0000|0.0000|" : std::string(STARTS[j]) + "|" + ENDS[j] + "|";
    if (k == 1) { if (inserts) nlp += "||" + times + "||||[]|||ins(" + h + ")|\n"; }
    else if (rk) {
      std::string id = std::to_string(i);
      nlp += (same(r, lower_ascii(rw[i])) || same(r, rw[i]) ? rw[i] : r) + "|" + rows[i].speakerId + "|" + times + rows[i].punctuation + "|" + rows[i].prepunctuation + "|" + rows[i].casing + "|[]|" + (i == 0 ? "['7']" : "[]") + "|" + id + ".1|" + id + ".2|" + (k == 2 ? "del" : k == 3 ? "sub(" + h + ")" : "") + "|0." + id + "\n";
    }
    i += k != 1; j += k != 2;
    sym_cover(k == 0 ? "match" : k == 1 ? "insertion" : k == 2 ? "deletion" : "substitution");
  }
  close(); sbs += std::string(60, '-') + "\n" + lpad("Line") + "\t" + rpad("Group") + "\n" + groups;
  if (pend) sentences.push_back(sentence);
  sym_assert(i == n && j == m, "all rows of the texts");
  // the run
  try {
    if (align) { std::ofstream out(hfile("out.nlp")); HandleAlign(static_cast<NlpFstLoader &>(*ref), static_cast<CtmFstLoader &>(*hyp), engine, out, o); }
    else HandleWer(*ref, *hyp, engine, to_sbs ? hfile("sbs.txt") : std::string(), to_nlp ? hfile("out.nlp") : std::string(), o, inserts, use_case);
  } catch (const std::exception &e) { sym_assert(false, "a report"); }
  Json::Value &w = root(), &b = w["bestWER"];
  same_counts(b, all, "");
  std::string got = get_file("sbs.txt");
  if (to_sbs) { sym_assert(got.size() == sbs.size() && same(got, sbs), "side-by-side report of the alignment"); sym_cover("side-by-side"); }
  else sym_assert(got == "<no such file>", "no side-by-side report unless asked for");
  got = get_file("out.nlp");
  if (to_nlp && rk) { sym_assert(got.size() == nlp.size() && same(got, nlp), "transcript of the alignment"); sym_cover("transcript"); }
  else sym_assert(got == "<no such file>", "no transcript unless asked for");
  if (align) return;
  int c = all.words - all.del - all.sub;
  if (all.words) sym_assert(b["recall"].asFloat() == (float)c / (float)all.words, "recall");
  if (c + all.ins + all.sub) sym_assert(b["precision"].asFloat() == (float)c / (float)(c + all.ins + all.sub), "precision");
  size_t listed = 0; for (auto &x : seen) listed += x.second >= o.pr_threshold;
  sym_assert(w["unigrams"].size() == listed, "words of the statistics");
  for (auto &x : seen) sym_assert(w["unigrams"].isMember(x.first) == (x.second >= o.pr_threshold), "words of the statistics");
  sym_assert(w.isMember("caseWER") == (rk && o.record_case_stats), "case statistics when asked for");
  sym_assert(w.isMember("speakerSwitchWER") == (rk && o.speaker_switch_context_size > 0), "speaker switches when asked for");
  sym_assert(w.isMember("speakerWER") == (bool)rk, "speakers of a transcript");
  if (!rk) { sym_assert(!w.isMember("sentenceWer") && !w.isMember("wer_tag"), "no breakdown without a transcript"); sym_cover("text"); return; }
  if (n) {
    sym_assert(w["speakerWER"].size() == speakers.size(), "one entry per speaker");
    for (auto &x : speakers) { sym_assert(w["speakerWER"].isMember(x.first), "speaker reported"); same_counts(w["speakerWER"][x.first], x.second, ""); }
  }
  sym_assert(w["sentenceWer"].size() == sentences.size(), "one entry per sentence");
  for (size_t k = 0; k < sentences.size(); k++) same_counts(w["sentenceWer"][(int)k], sentences[k], "");
  sym_assert(w["wer_tag"].size() == (size_t)tagged, "one entry per tag");
  if (tagged) same_counts(w["wer_tag"]["7"], tag, "");
  if (o.speaker_switch_context_size > 0) {
    Cnt want; int s = o.speaker_switch_context_size;
    for (size_t k = 0; k < kinds.size(); k++) { bool in = false; for (int q : sw) in = in || (at[k] > q - s && at[k] < q + s) || (kinds[k] != 1 && at[k] == q - s); if (in) want.add(kinds[k]); }
    same_counts(w["speakerSwitchWER"], want, ""); sym_cover("switches");
    sym_assert(w["speakerSwitchWER"]["meta"]["windowSize"].asInt() == s, "window size");
  }
  if (o.record_case_stats) {
    for (int g = 0; g < 2; g++) {
      Json::Value &x = w["caseWER"][g ? "all" : "matching"];
      sym_assert(x["true_positive"].asInt() == tp[0] + g * tp[1] && x["false_positive"].asInt() == fp[0] + g * fp[1] && x["false_negative"].asInt() == fn[0] + g * fn[1], "casing of the words of the files");
    }
    sym_cover("casing");
  }
  sym_observe(all.ins); sym_observe(all.del); sym_observe(all.sub);
}

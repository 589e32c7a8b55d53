// C05: an alignment is one reading of the reference against the hypothesis, row by row, and its counts are those of its rows.
#include "aligngen.h"
void harness_init(void) {}
void harness_main(void) {
  Scene s;
  make_scene(s, sym_param("ref", 0), sym_param("n", 3), sym_param("m", 3), sym_param("vocab", 2));
  AlignerOptions o;
  o.composition_approach = sym_param("std", 0) ? "standard" : "adapted";
  o.numBests = sym_choose("many", 0, 1) ? 100 : 1;
  wer_alignment r = Fstalign(*s.ref, *s.hyp, s.engine, o);
  Tally t = faithful(r, s.hypwords);
  if (o.numBests > 1 && spelled_by(s.hypwords, 0, 0, 0)) { sym_assert(r.NumErrors() == 0, "a text that spells the reference has no errors"); sym_cover("no-errors"); }
  sym_observe(r.NumErrors()); sym_observe(t.ref);
}

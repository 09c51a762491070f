#include "encmodel.hh"
const char* const property_id = "C09";
// What is emitted, when, and under which identifiers.
void run_case(pbt::Ctx& c)
{
  h::enc_session s(c, h::CADENCE);
  s.run();
  c.nontrivial(s.nb_repairs > 0 and s.next_id >= 3);
}

#include "session.hh"
const char* const property_id = "C04";
// No withholding. Out-of-order: at once. In-order: as soon as everything older was delivered or
// is outdated (knowledge of the decoder revealed by an out-of-order twin).
void run_case(pbt::Ctx& c)
{
  h::session s(c, h::PROMPT);
  s.run(4);
  c.nontrivial(s.data.data.size() >= 3 and (s.nb_reordered > 0 or s.nb_lost > 0));
}

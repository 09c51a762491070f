#include "session.hh"
const char* const property_id = "C03";
// In-order mode: the sequence delivered is a subsequence of the sequence sent.
void run_case(pbt::Ctx& c)
{
  h::session s(c, h::ORDER);
  s.run(1);
  c.nontrivial(s.data.data.size() >= 3 and (s.nb_reordered > 0 or s.nb_lost > 0));
}

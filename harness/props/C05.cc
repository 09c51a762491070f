#include "session.hh"
const char* const property_id = "C05";
// Recovery: data are delivered by the time what was received determines them.
void run_case(pbt::Ctx& c)
{
  h::session s(c, h::RECOVER);
  s.run(1);
  c.nontrivial(s.model.decoded > 0);
}

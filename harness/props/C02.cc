#include "session.hh"
const char* const property_id = "C02";
// At most once: no datum is handed to the data handler more times than it was sent.
void run_case(pbt::Ctx& c)
{
  h::session s(c, h::ONCE);
  s.run(1);
  c.nontrivial(s.nb_dup > 0 or (s.model.decoded > 0 and s.nb_reordered > 0));
}

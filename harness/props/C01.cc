#include "session.hh"
const char* const property_id = "C01";
// Integrity: every byte string handed to the data handler is one of those given to the sender.
void run_case(pbt::Ctx& c)
{
  h::session s(c, h::INTEGRITY);
  s.run(1);
  c.nontrivial(s.model.decoded > 0 and (s.nb_lost or s.nb_reordered or s.nb_dup));
}

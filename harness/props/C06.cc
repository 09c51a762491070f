#include "session.hh"
const char* const property_id = "C06";
// Acks are truthful; a requested ack is complete; the number of packets is exact.
void run_case(pbt::Ctx& c)
{
  h::session s(c, h::ACKS);
  s.run(4);
  c.nontrivial(s.nb_acks_seen > 0 and s.truth.size() >= 3 and s.nb_lost > 0);
}

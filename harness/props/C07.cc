#include "encmodel.hh"
const char* const property_id = "C07";
// The window holds exactly what is neither acknowledged nor evicted, and respects its limit.
void run_case(pbt::Ctx& c)
{
  h::enc_session s(c, h::WINDOW);
  s.run();
  c.nontrivial(s.nb_acked > 0 and s.next_id >= 3);
}

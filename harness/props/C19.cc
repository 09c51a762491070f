#include "encmodel.hh"
const char* const property_id = "C19";
// The adaptive code rate follows the measured loss.
void run_case(pbt::Ctx& c)
{
  h::enc_session s(c, h::ADAPT);
  s.run();
  c.nontrivial(s.nb_lossy_acks > 0);
}

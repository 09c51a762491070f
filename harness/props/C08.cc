#include "encmodel.hh"
const char* const property_id = "C08";
// A repair is the combination of exactly the data in the window.
void run_case(pbt::Ctx& c)
{
  h::enc_session s(c, h::REPAIRS);
  s.run();
  c.nontrivial(s.nb_multi > 0);
}

#include "session.hh"
#include "netcode/c/decoder.h"
#include "netcode/c/packet.h"
const char* const property_id = "C27";
// Data given to handlers are aligned on 16 bytes, whichever way they came, in C++ and in C.
namespace {
struct ctx { h::data_sink s; };
void prepare(void*, const char*, size_t) {}
void send_(void*) {}
void read_(void* x, const char* d, size_t n) { static_cast<ctx*>(x)->s(d, n); }
}
void run_case(pbt::Ctx& c)
{
  h::session s(c, h::ALIGN);
  s.run(1);
  // The same packets (some of them lost) for a C decoder, with the padding its users may have.
  ctx x;
  auto* d = ntc_new_decoder(static_cast<std::uint8_t>(s.w), c.coin() ? ntc_in_order_yes : ntc_in_order_no, ntc_packet_handler{nullptr, prepare, send_}, ntc_data_handler{&x, read_});
  const auto loss = c.draw(3);
  auto* p = ntc_new_packet(1);
  for (auto& b : s.history)
  {
    if (b.size() > 65535 or c.draw(9) < loss) continue;
    ntc_error e;
    if (c.coin()) { ntc_delete_packet(p); p = ntc_new_packet_from(b.data(), static_cast<uint16_t>(b.size())); }
    else { ntc_packet_resize(p, static_cast<uint16_t>(b.size()), &e); memcpy(ntc_packet_buffer(p), b.data(), b.size()); }
    ntc_decoder_add_packet(d, p, &e);
    if (not x.s.aligned) break;
    ntc_packet_resize(p, 1, &e);
  }
  ntc_delete_packet(p);
  ntc_delete_decoder(d);
  PBT_CHECK(x.s.aligned, "data given to the C handler are not aligned on 16 bytes");
  c.nontrivial(s.nb_recovered_ev > 0);
}

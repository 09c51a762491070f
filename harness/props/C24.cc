#include "mutate.hh"
#include "netcode/dispatch.hh"
const char* const property_id = "C24";
// Dispatching a packet is giving it to the coder it is for; packets which are for none, or for the
// other one, are refused, with the packet in the error, and no effect.
namespace {
struct side
{
  h::packet_sink out, acks; h::data_sink data;
  h::encoder enc; h::decoder dec;
  side(unsigned w, bool ordered)
    : enc(static_cast<std::uint8_t>(w), h::packet_ref{&out}), dec(static_cast<std::uint8_t>(w), h::order(ordered), h::packet_ref{&acks}, h::data_ref{&data}) {}
  std::vector<std::size_t> stats() const
  {
    return {enc.window(), enc.rate(), enc.nb_sent_repairs(), enc.nb_sent_sources(), enc.nb_received_acks(), dec.nb_missing_sources(), dec.nb_decoded()
           , dec.nb_useless_repairs(), dec.nb_received_repairs(), dec.nb_received_sources(), dec.nb_sent_acks(), dec.nb_failed_full_decodings()
           , out.packets.size(), acks.packets.size(), data.data.size()};
  }
};
enum result {fine, type_error, overflow};
}
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto word = ref::gf::get(w).word();
  const bool ordered = c.coin();
  // A peer, and twice the same node: one dispatches, the other one calls its coders.
  side peer(w, ordered), a(w, ordered), b(w, ordered);
  for (auto* s : {&peer, &a, &b}) s->dec.set_ack_nb_packets(static_cast<std::uint16_t>(3));
  std::size_t to_enc = 0, to_dec = 0, refused = 0, nb = 0;
  std::size_t peer_out = 0, peer_acks = 0;
  const auto both = [&](const h::bytes& p)
  {
    if (p.empty() or h::too_many_ids(p)) return;
    const auto before = a.stats();
    std::size_t n = 0, m = 0;
    auto r = fine, q = fine;
    const auto refusal = [&](const ntc::packet_type_error& e)
    {
      PBT_CHECK(h::bytes(e.error_packet.begin(), e.error_packet.end()) == p, "the refused packet isn't in the error");
    };
    try { n = ntc::dispatch(a.enc, a.dec, h::to_packet(p)); }
    catch (const ntc::packet_type_error& e) { r = type_error; refusal(e); }
    catch (const ntc::overflow_error&) { r = overflow; }
    const auto ty = static_cast<unsigned char>(p[0]);
    c.log("packet of type %u, %zu bytes", ty, p.size());
    if (ty > 2)
    {
      ++refused;
      PBT_CHECK(r == type_error, "a packet of type %u was not refused", ty);
      PBT_CHECK(a.stats() == before, "a packet of type %u had an effect", ty);
    }
    else PBT_CHECK(r != type_error, "a packet of type %u was refused", ty);
    try { m = ty == 0 ? b.enc(h::to_packet(p)) : b.dec(h::to_packet(p)); }
    catch (const ntc::packet_type_error& e) { q = type_error; refusal(e); }
    catch (const ntc::overflow_error&) { q = overflow; }
    if (ty == 0) ++to_enc; else if (ty <= 2) ++to_dec;
    PBT_CHECK(r == q and n == m, "dispatching gives %d (%zu bytes), calling the coder gives %d (%zu bytes)", int(r), n, int(q), m);
    PBT_CHECK(a.stats() == b.stats(), "dispatching and calling the coder don't have the same effect (packet of type %u)", ty);
    PBT_CHECK(a.data.data == b.data.data and a.acks.packets == b.acks.packets, "dispatching and calling the coder don't give the same data");
    // The other coder refuses it.
    const auto sb = b.stats();
    bool thrown = false;
    try { if (ty == 0) b.dec(h::to_packet(p)); else b.enc(h::to_packet(p)); }
    catch (const ntc::packet_type_error& e) { thrown = true; refusal(e); }
    PBT_CHECK(thrown, "a packet of type %u was accepted by the %s", ty, ty == 0 ? "decoder" : "encoder");
    PBT_CHECK(b.stats() == sb, "a refused packet of type %u had an effect on the %s", ty, ty == 0 ? "decoder" : "encoder");
  };
  const auto steps = c.log_range(3, 80);
  for (std::size_t i = 0; i < steps; ++i)
  {
    switch (c.weighted({12, 10, 10, 8, 4, 5, 4, 3, 3}))
    {
      case 0: { const auto d = c.bytes(word * c.range(1, 10)); peer.enc(h::to_data(d)); ++nb; break; }
      case 1: { const auto d = c.bytes(word * c.range(1, 10)); a.enc(h::to_data(d)); b.enc(h::to_data(d)); peer.dec(h::to_packet(a.out.packets.back())); break; }
      case 2: if (peer_out < peer.out.packets.size()) { if (c.chance(3, 4)) both(peer.out.packets[peer_out]); ++peer_out; } break;
      case 3: if (peer_acks < peer.acks.packets.size()) { if (c.chance(3, 4)) both(peer.acks.packets[peer_acks]); ++peer_acks; } break;
      case 4: peer.dec.generate_ack(); break;
      case 5: { auto p = c.bytes(c.range(1, 40)); p[0] = static_cast<char>(c.range(3, 255)); both(p); break; }
      case 6: both(h::garbage_packet(c, static_cast<std::uint32_t>(nb))); break;
      case 7: if (not peer.out.packets.empty()) both(h::mutate(c, c.pick(peer.out.packets), &c.pick(peer.out.packets))); break;
      case 8: if (not a.acks.packets.empty()) { const auto p = a.acks.packets.back(); try { peer.enc(h::to_packet(p)); } catch (const ntc::overflow_error&) {} } break;
    }
  }
  if (to_enc) c.label("ack"); if (to_dec) c.label("source or repair"); if (refused) c.label("refused");
  c.nontrivial(to_enc and to_dec);
  c.evaluations(to_enc + to_dec + refused);
  c.describe("w=" + std::to_string(w) + ": " + std::to_string(to_dec) + " packets for the decoder, " + std::to_string(to_enc) + " for the encoder, " + std::to_string(refused) + " refused");
}

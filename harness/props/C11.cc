#include "mutate.hh"
#include "netcode/dispatch.hh"
const char* const property_id = "C11";
// A rejected packet changes nothing: a pair of coders which also receives packets they reject is
// compared, step by step, with a pair which never receives them.
namespace {
struct world
{
  h::packet_sink out, acks;
  h::data_sink   data;
  h::encoder     enc;
  h::decoder     dec;
  world(unsigned w, bool o) : enc(static_cast<std::uint8_t>(w), h::packet_ref{&out}), dec(static_cast<std::uint8_t>(w), h::order(o), h::packet_ref{&acks}, h::data_ref{&data}) {}
};
}
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto word = ref::gf::get(w).word();
  const auto in_order = c.coin();
  world a(w, in_order), b(w, in_order);   // b also receives garbage
  const auto rate = c.pick<std::size_t>({3, 1, 2, 5});
  const auto lim = c.coin() ? c.range(1, 12) : 1000000;
  const auto adaptive = c.chance(1, 3);
  for (auto* x : {&a, &b})
  {
    x->enc.set_rate(rate);
    x->enc.set_window_size(lim);
    x->enc.set_adaptive(adaptive);
    // Automatic acks depend on the number of packets received, rejected or not: left out.
    x->dec.set_ack_period(std::chrono::milliseconds{0});
    x->dec.set_ack_nb_packets(128);
  }
  std::vector<h::bytes> honest;
  std::size_t rejected = 0, rej_dec = 0, rej_enc = 0, nb = 0, after = 0, wrong_kind = 0, cut = 0, cut_since_ack = 0;

  const auto compare = [&]
  {
    PBT_CHECK(a.out.packets.size() == b.out.packets.size(), "after rejected packets, the encoder emitted %zu packets instead of %zu", b.out.packets.size(), a.out.packets.size());
    for (std::size_t k = honest.size(); k < a.out.packets.size(); ++k)
    {
      PBT_CHECK(a.out.packets[k] == b.out.packets[k], "after rejected packets, the encoder emitted another packet: %s instead of %s"
               , pbt::hex(b.out.packets[k], 40).c_str(), pbt::hex(a.out.packets[k], 40).c_str());
      honest.push_back(a.out.packets[k]);
    }
    PBT_CHECK(a.enc.window() == b.enc.window(), "after rejected packets, window() is %zu instead of %zu", b.enc.window(), a.enc.window());
    PBT_CHECK(a.enc.rate() == b.enc.rate(), "after rejected packets, rate() is %zu instead of %zu", b.enc.rate(), a.enc.rate());
    PBT_CHECK(a.data.data == b.data.data, "after rejected packets, deliveries differ: %zu instead of %zu", b.data.data.size(), a.data.data.size());
    PBT_CHECK(a.dec.nb_missing_sources() == b.dec.nb_missing_sources(), "after rejected packets, nb_missing_sources() is %zu instead of %zu", b.dec.nb_missing_sources(), a.dec.nb_missing_sources());
    PBT_CHECK(a.dec.nb_decoded() == b.dec.nb_decoded(), "after rejected packets, nb_decoded() is %zu instead of %zu", b.dec.nb_decoded(), a.dec.nb_decoded());
  };
  const auto reject = [&](const h::bytes& pkt, bool to_dec, bool type_error)
  {
    c.log("%s rejects %s", to_dec ? "decoder" : "encoder", pbt::hex(pkt, 48).c_str());
    ++rejected;
    const auto acks_before = b.acks.packets.size();
    try
    {
      if (to_dec) b.dec(h::to_packet(pkt)); else b.enc(h::to_packet(pkt));
      pbt::fail("the %s accepted a packet it must reject (%s): %s", to_dec ? "decoder" : "encoder", type_error ? "wrong type" : "too short", pbt::hex(pkt, 48).c_str());
    }
    catch (const ntc::packet_type_error& e)
    {
      PBT_CHECK(type_error, "a packet too short was reported as having a wrong type: %s", pbt::hex(pkt, 48).c_str());
      PBT_CHECK(h::bytes(e.error_packet.begin(), e.error_packet.end()) == pkt, "the error doesn't carry the rejected packet: %s instead of %s"
               , pbt::hex(e.error_packet.data(), e.error_packet.size(), 48).c_str(), pbt::hex(pkt, 48).c_str());
      ++wrong_kind;
    }
    catch (const ntc::overflow_error&)
    {
      PBT_CHECK(not type_error, "a packet of a wrong type was reported as too short: %s", pbt::hex(pkt, 48).c_str());
    }
    PBT_CHECK(b.acks.packets.size() == acks_before and b.acks.current.empty(), "a rejected packet made the decoder emit something");
    to_dec ? ++rej_dec : ++rej_enc;
    // A truncated data or repair packet may be counted as received; nothing else.
    if (to_dec and not type_error) { ++cut; ++cut_since_ack; }
    compare();
    PBT_CHECK(b.dec.nb_received_sources() + b.dec.nb_received_repairs() <= a.dec.nb_received_sources() + a.dec.nb_received_repairs() + cut
             , "packets which are neither data nor repairs were counted as such");
  };
  const auto request_acks = [&]
  {
    a.dec.generate_ack(); b.dec.generate_ack();
    const auto x = ref::parse(a.acks.packets.back()), y = ref::parse(b.acks.packets.back());
    PBT_CHECK(x.ids == y.ids, "after rejected packets, a requested ack names other identifiers");
    PBT_CHECK(y.nb_packets >= x.nb_packets and y.nb_packets <= x.nb_packets + cut_since_ack, "after rejected packets, an ack counts %u packets instead of %u (%zu truncated)"
             , unsigned(y.nb_packets), unsigned(x.nb_packets), cut_since_ack);
    cut_since_ack = 0;
  };
  const auto truncated = [&](const h::bytes& p) { auto t = p; t.resize(c.coin() ? c.range(1, p.size() - 1) : p.size() - c.range(1, std::min<std::size_t>(6, p.size() - 1))); return t; };
  const auto steps = c.log_range(4, 100);
  std::vector<h::bytes> acks;
  for (std::size_t i = 0; i < steps; ++i)
  {
    switch (c.weighted({16, 16, 14, 5, 5, 6, 8, 2, 3, 3}))
    {
      case 0:
      {
        const auto d = c.bytes(word * c.range(1, 8));
        a.enc(h::to_data(d)); b.enc(h::to_data(d)); ++nb;
        c.log("commit");
        compare();
        break;
      }
      case 1: // honest packet to both (not much more than 100 of them: below the ack threshold)
        if (not honest.empty())
        {
          const auto& p = honest[c.draw(2) ? honest.size() - 1 - c.draw(std::min<std::size_t>(honest.size() - 1, 4)) : c.draw(honest.size() - 1)];
          c.log("both receive %s", pbt::hex(p, 20).c_str());
          const auto n1 = a.dec(h::to_packet(p)), n2 = b.dec(h::to_packet(p));
          PBT_CHECK(n1 == n2, "after rejected packets, %zu bytes were read instead of %zu", n2, n1);
          if (rejected) ++after;
          compare();
        }
        break;
      case 2: if (not honest.empty()) reject(truncated(honest[c.coin() ? honest.size() - 1 : c.draw(honest.size() - 1)]), true, false); break;
      case 3: { h::bytes p = c.bytes(c.range(1, 30)); p[0] = static_cast<char>(c.coin() ? 0 : c.range(3, 255)); reject(p, true, true); break; }
      case 4: { h::bytes p = c.bytes(c.range(1, 30)); p[0] = static_cast<char>(c.range(1, 255)); reject(p, false, true); break; }
      case 5: if (not honest.empty()) reject(honest[c.draw(honest.size() - 1)], false, true); break;
      case 6: // truncated acks, honest or not
      {
        ref::ids_t ids;
        std::uint32_t cur = static_cast<std::uint32_t>(c.draw(nb));
        const auto n = c.range(0, 12);
        for (std::size_t k = 0; k < n; ++k) { ids.push_back(cur); cur += static_cast<std::uint32_t>(c.range(1, 3)); }
        reject(truncated(ref::mk_ack(static_cast<std::uint16_t>(c.draw(60)), ids)), false, false);
        break;
      }
      case 7: a.enc.generate_repair(); b.enc.generate_repair(); c.log("repair"); compare(); break;
      case 8: // acks
        request_acks();
        acks.push_back(a.acks.packets.back());
        break;
      case 9: if (not acks.empty()) { const auto& k = acks[c.draw(acks.size() - 1)]; a.enc(h::to_packet(k)); b.enc(h::to_packet(k)); c.log("ack"); compare(); } break;
    }
    if (a.acks.packets.size() > 0 and i % 16 == 15)
    {
      // stay far from the automatic ack threshold
      request_acks();
    }
  }
  request_acks();
  if (rej_dec) c.label("decoder-rejects");
  if (rej_enc) c.label("encoder-rejects");
  if (a.dec.nb_decoded()) c.label("decoded");
  c.nontrivial(rejected > 0 and after > 0);
  c.evaluations(rejected + after);
  c.describe("w=" + std::to_string(w) + (in_order ? " in-order, " : " out-of-order, ") + std::to_string(nb) + " data, " + std::to_string(rej_dec) + "+" + std::to_string(rej_enc)
             + " rejected, " + std::to_string(after) + " honest packets after a rejection, " + std::to_string(a.data.data.size()) + " deliveries");
}

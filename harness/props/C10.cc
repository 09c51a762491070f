#include "mutate.hh"
#include "netcode/dispatch.hh"
const char* const property_id = "C10";
// Whatever the bytes received, coders stay memory-safe, terminate, and report errors only with the
// documented exceptions. Sanitizers and the forked runner are the oracle, with the catch below.
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto word = ref::gf::get(w).word();
  h::packet_sink out, acks;
  h::data_sink data;
  h::encoder enc(static_cast<std::uint8_t>(w), h::packet_ref{&out});
  h::decoder dec(static_cast<std::uint8_t>(w), h::order(c.coin()), h::packet_ref{&acks}, h::data_ref{&data});
  enc.set_rate(c.pick<std::size_t>({5, 1, 2, 3}));
  if (c.coin()) enc.set_window_size(c.range(1, 12));
  if (c.coin()) enc.set_adaptive(true);
  if (c.chance(1, 4)) enc.set_code_type(ntc::systematic::no);
  dec.set_ack_nb_packets(static_cast<std::uint16_t>(c.pick<unsigned>({50, 1, 5})));
  std::vector<h::bytes> honest;
  std::uint32_t nb = 0;
  std::size_t accepted = 0, rejected_type = 0, rejected_len = 0, hostile = 0;
  const auto feed = [&](const h::bytes& b, unsigned where)
  {
    if (b.empty() or h::too_many_ids(b)) return;
    try
    {
      std::size_t n = 0;
      switch (where)
      {
        case 0: n = dec(h::to_packet(b)); break;
        case 1: n = enc(h::to_packet(b)); break;
        case 2: n = ntc::dispatch(enc, dec, h::to_packet(b)); break;
        case 3: { const auto p = h::to_packet(b); n = dec(p); PBT_CHECK(h::bytes(p.begin(), p.end()) == b, "the caller's packet was modified"); break; }
      }
      ++accepted;
      PBT_CHECK(n <= b.size(), "%zu bytes read of a packet of %zu bytes", n, b.size());
    }
    catch (const ntc::packet_type_error& e)
    {
      ++rejected_type;
    }
    catch (const ntc::overflow_error&) { ++rejected_len; }
    // anything else is reported by the runner
  };
  const auto steps = c.log_range(3, 80);
  for (std::size_t i = 0; i < steps; ++i)
  {
    for (; honest.size() < out.packets.size();) honest.push_back(out.packets[honest.size()]);
    switch (c.weighted({12, 14, 14, 16, 2, 2, 3, 3}))
    {
      case 0: { enc(h::to_data(c.bytes(word * c.range(1, 10)))); ++nb; break; }
      case 1: if (not honest.empty()) feed(honest[c.coin() ? honest.size() - 1 : c.draw(honest.size() - 1)], 0); break;
      case 2:
        if (not honest.empty())
        {
          const auto& b = honest[c.coin() ? honest.size() - 1 : c.draw(honest.size() - 1)];
          const auto& o = honest[c.draw(honest.size() - 1)];
          const auto m = h::mutate(c, b, &o);
          c.log("mutated %s", pbt::hex(m, 64).c_str());
          ++hostile;
          feed(m, static_cast<unsigned>(c.draw(3)));
        }
        break;
      case 3: { const auto m = h::garbage_packet(c, nb); c.log("garbage %s", pbt::hex(m, 64).c_str()); ++hostile; feed(m, static_cast<unsigned>(c.draw(3))); break; }
      case 4: enc.generate_repair(); break;
      case 5: dec.generate_ack(); break;
      case 6: if (not acks.packets.empty()) { auto a = acks.packets[c.draw(acks.packets.size() - 1)]; if (c.coin()) { a = h::mutate(c, a, nullptr); ++hostile; } feed(a, 1 + static_cast<unsigned>(c.draw(1))); } break;
      case 7: // a repair of hostile content, consistent lengths: the decoding paths
      {
        const auto n = c.range(1, 4);
        ref::ids_t ids;
        auto cur = static_cast<std::uint32_t>(c.draw(nb + 2));
        for (unsigned k = 0; k < n; ++k) { ids.push_back(cur); cur += static_cast<std::uint32_t>(c.range(1, 3)); }
        const auto sz = c.coin() ? word * c.range(0, 8) : c.range(0, 40);
        ++hostile;
        feed(ref::mk_repair(static_cast<std::uint32_t>(c.draw(40)), c.bytes(sz), ids, static_cast<std::uint32_t>(c.coin() ? c.draw(0xffffffffu) : c.draw(64))), 0);
        break;
      }
    }
  }
  if (accepted) c.label("accepted");
  if (rejected_type) c.label("rejected:type");
  if (rejected_len) c.label("rejected:length");
  if (dec.nb_decoded()) c.label("decoded");
  c.label("w:" + std::to_string(w));
  c.nontrivial(hostile > 0);
  c.evaluations(accepted + rejected_len + rejected_type);
  c.describe("w=" + std::to_string(w) + ", " + std::to_string(hostile) + " hostile packets, " + std::to_string(accepted) + " accepted, "
             + std::to_string(rejected_type) + "+" + std::to_string(rejected_len) + " rejected, " + std::to_string(dec.nb_decoded()) + " decoded");
}

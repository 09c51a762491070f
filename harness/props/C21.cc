#include "session.hh"
const char* const property_id = "C21";
// Statistics are those of the history.
namespace {
// A long history, in which each datum is in a repair of its own.
void long_history(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto in_order = c.coin();
  const auto mode = c.draw(2);              // 0: the source, then its repair; 1: the repair only; 2: the repair, then the source
  const std::size_t ack_every = c.pick<std::size_t>({1, 1, 100});
  const auto n = 65530 + c.draw(40);
  h::packet_sink out, acks; h::data_sink data;
  h::encoder enc(static_cast<std::uint8_t>(w), h::packet_ref{&out});
  h::decoder dec(static_cast<std::uint8_t>(w), h::order(in_order), h::packet_ref{&acks}, h::data_ref{&data});
  enc.set_rate(1);
  enc.set_window_size(1);
  dec.set_ack_period(std::chrono::milliseconds{0});
  dec.set_ack_nb_packets(128);
  c.log("%zu data, mode %u, an ack every %zu data", static_cast<std::size_t>(n), static_cast<unsigned>(mode), ack_every);
  std::size_t sent_sources = 0, sent_repairs = 0, sources = 0, repairs = 0, nb_acks = 0, fed_acks = 0, decoded = 0, useless = 0, delivered = 0;
  for (std::size_t k = 0; k < n; ++k)
  {
    out.packets.clear(); data.data.clear();
    h::bytes b(4, static_cast<char>(k));
    enc(h::to_data(b));
    ++sent_sources; ++sent_repairs;
    PBT_CHECK(out.packets.size() == 2, "%zu packets sent for datum %zu", out.packets.size(), k);
    if (mode == 0) { dec(h::to_packet(out.packets[0])); ++sources; dec(h::to_packet(out.packets[1])); ++repairs; ++useless; }
    else           { dec(h::to_packet(out.packets[1])); ++repairs; ++decoded; if (mode == 2) { dec(h::to_packet(out.packets[0])); ++sources; } }
    ++delivered;
    if (k % ack_every == 0) dec.generate_ack();
    nb_acks += acks.packets.size();
    for (const auto& a : acks.packets) { enc(h::to_packet(a)); ++fed_acks; }
    acks.packets.clear();
    if (k + 20 < n and k % 4096 != 0) continue;
    const auto same = [&](const char* what, std::size_t x, std::size_t y) { PBT_CHECK(x == y, "%s is %zu instead of %zu", what, x, y); };
    same("nb_sent_sources()", enc.nb_sent_sources(), sent_sources);
    same("nb_sent_repairs()", enc.nb_sent_repairs(), sent_repairs);
    same("nb_received_acks()", enc.nb_received_acks(), fed_acks);
    same("nb_received_sources()", dec.nb_received_sources(), sources);
    same("nb_received_repairs()", dec.nb_received_repairs(), repairs);
    same("nb_sent_acks()", dec.nb_sent_acks(), nb_acks);
    same("nb_decoded()", dec.nb_decoded(), decoded);
    same("nb_useless_repairs()", dec.nb_useless_repairs(), useless);
    same("nb_missing_sources()", dec.nb_missing_sources(), 0);
    same("nb_failed_full_decodings()", dec.nb_failed_full_decodings(), 0);
  }
  c.label("long history");
  c.evaluations(n);
  c.nontrivial(true);
  c.describe("w=" + std::to_string(w) + ", " + std::to_string(n) + " data, one repair for each (mode " + std::to_string(mode) + "), " + std::to_string(nb_acks) + " acks");
}
}
void run_case(pbt::Ctx& c)
{
  if (c.chance(1, 3000)) { long_history(c); return; }
  h::session s(c, h::STATS);
  s.run(1);
  c.nontrivial(s.nb_fed_repairs > 0 and s.nb_fed_sources + s.nb_fed_repairs >= 5);
}

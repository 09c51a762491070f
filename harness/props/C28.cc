#include "session.hh"
#include "alloc.hh"
const char* const property_id = "C28";
// What coders hold depends on what is outstanding, not on how much was transmitted: over identical
// rounds memory doesn't grow; and everything is released with the coders.
extern int gf_live;
namespace {
struct counting_sink
{
  // no allocation of its own between rounds
  std::vector<h::bytes> packets; h::bytes current;
  void operator()(const char* d, std::size_t n) { current.insert(current.end(), d, d + n); }
  void operator()() { packets.push_back(std::move(current)); current = h::bytes{}; }
};
struct pk { counting_sink* s; void operator()(const char* d, std::size_t n) { (*s)(d, n); } void operator()() { (*s)(); } };
struct dt { std::size_t* n; void operator()(const char*, std::size_t) { ++*n; } };
struct usage { std::int64_t blocks, bytes; };
usage now() { return {alloc::st().live_blocks, alloc::st().live_bytes}; }
}
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 16, 32, 4});
  const auto word = ref::gf::get(w).word();
  const bool ordered = c.coin(), systematic = c.chance(3, 4), adaptive = c.chance(1, 4);
  const bool with_acks = c.chance(2, 3);
  const bool lossy_acks = with_acks and c.chance(1, 3);
  const auto rate = c.pick<std::size_t>({5, 1, 2, 3, 10});
  const auto limit = with_acks ? (c.chance(1, 4) ? c.range(4, 20) : ~std::size_t{0}) : c.range(1, w == 4 ? 6 : 16);
  const auto nb_packets = c.pick<unsigned>({5, 1, 2, 50, 128});
  // One round, repeated.
  std::vector<h::bytes> data;
  std::vector<bool> lost, ack_lost, dup;
  const auto n = c.range(1, w == 4 ? 6 : 14);
  const auto sz = c.log_range(1, 300);
  for (std::size_t k = 0; k < n; ++k) data.push_back(c.bytes(((c.coin() ? sz : c.log_range(1, 300)) + word - 1) / word * word));
  const auto loss = c.pick<unsigned>({30, 10, 60, 0});
  for (unsigned k = 0; k < 24; ++k) { lost.push_back(c.draw(99) < loss); dup.push_back(c.chance(1, 12)); ack_lost.push_back(lossy_acks and c.coin()); }
  const auto dup_hostile = c.chance(1, 3);
  const std::size_t rounds = c.pick<std::size_t>({120, 240});
  std::vector<h::bytes> hostile;
  if (dup_hostile)
  {
    const auto k = c.range(1, 3);
    for (unsigned i = 0; i < k; ++i)
    {
      // packets which are refused
      auto b = ref::mk_source(0, c.bytes(c.range(1, 9)));
      if (c.coin()) b.resize(c.range(1, 6)); else b[0] = static_cast<char>(c.range(3, 255));
      hostile.push_back(std::move(b));
    }
  }

  std::vector<usage> at; at.reserve(rounds + 1);
  std::size_t nb = 0, incomplete = 0, nb_decoded = 0, nb_acks = 0;
  const auto before = now();
  const auto fields = gf_live;
  std::int64_t held = 0;
  {
    counting_sink out, acks;
    h::bytes b;
    auto* enc = new ntc::encoder<pk>(static_cast<std::uint8_t>(w), pk{&out});
    auto* dec = new ntc::decoder<pk, dt>(static_cast<std::uint8_t>(w), h::order(ordered), pk{&acks}, dt{&nb});
    enc->set_rate(rate); enc->set_window_size(limit); enc->set_adaptive(adaptive);
    enc->set_code_type(systematic ? ntc::systematic::yes : ntc::systematic::no);
    dec->set_ack_nb_packets(static_cast<std::uint16_t>(nb_packets));
    dec->set_ack_period(std::chrono::milliseconds{0});
    std::size_t taken = 0, acks_taken = 0, ticks = 0, ack_ticks = 0;
    bool calm = false;
    const auto move = [&]
    {
      for (; taken < out.packets.size(); ++taken)
      {
        const auto t = ticks++ % lost.size();
        if (not calm and lost[t]) continue;
        (*dec)(h::to_packet(out.packets[taken]));
        if (not calm and dup[t]) (*dec)(h::to_packet(out.packets[taken]));
      }
      for (; acks_taken < acks.packets.size(); ++acks_taken)
      {
        if (not with_acks or (not calm and ack_lost[ack_ticks++ % ack_lost.size()])) continue;
        (*enc)(h::to_packet(acks.packets[acks_taken]));
      }
    };
    for (std::size_t r = 0; r < rounds; ++r)
    {
      ticks = ack_ticks = 0;
      calm = false;
      for (auto& d : data) { (*enc)(h::to_data(d)); move(); }
      for (auto& x : hostile)
      {
        try { (*dec)(h::to_packet(x)); } catch (const std::exception&) {}
        try { (*enc)(h::to_packet(x)); } catch (const std::exception&) {}
      }
      // Nothing is lost for a while: at least one repair gets there, and all what it needs.
      calm = true;
      if (enc->window() == 0) { (*enc)(h::to_data(data[0])); }
      enc->generate_repair();
      move();
      for (unsigned k = 0; k < 40 and (dec->nb_missing_sources() > 0) and enc->window() > 0; ++k) { enc->generate_repair(); move(); }
      if (dec->nb_missing_sources() > 0) ++incomplete;
      if (with_acks) { dec->generate_ack(); move(); }
      out = counting_sink{}; acks = counting_sink{};
      taken = acks_taken = 0;
      at.push_back(now());
    }
    nb_decoded = dec->nb_decoded(); nb_acks = dec->nb_sent_acks();
    held = now().blocks - before.blocks;
    delete enc; delete dec;
  }
  const auto after = now();
  PBT_CHECK(after.blocks == before.blocks, "the coders were destroyed, but %lld of their %lld memory blocks were not released", static_cast<long long>(after.blocks - before.blocks), static_cast<long long>(held));
  PBT_CHECK(gf_live == fields, "the coders were destroyed, but %d Galois field(s) were not released", gf_live - fields);
  // Highest use of each third
  usage early{0, 0}, late{INT64_MAX, INT64_MAX};
  for (std::size_t r = rounds / 4; r < rounds / 2; ++r) { early.blocks = std::max(early.blocks, at[r].blocks); early.bytes = std::max(early.bytes, at[r].bytes); }
  for (std::size_t r = 3 * rounds / 4; r < rounds; ++r) { late.blocks = std::min(late.blocks, at[r].blocks); late.bytes = std::min(late.bytes, at[r].bytes); }
  // At least rounds / 4 rounds apart: a block kept per round shows.
  PBT_CHECK(late.blocks <= early.blocks + static_cast<std::int64_t>(rounds / 12), "w=%u: memory grows along identical rounds: %lld blocks at most between rounds %zu and %zu, %lld at least after round %zu"
           , w, static_cast<long long>(early.blocks - before.blocks), rounds / 4, rounds / 2, static_cast<long long>(late.blocks - before.blocks), 3 * rounds / 4);
  PBT_CHECK(late.bytes <= early.bytes + 16 * static_cast<std::int64_t>(rounds), "w=%u: memory grows along identical rounds: %lld bytes at most between rounds %zu and %zu, %lld at least after round %zu"
           , w, static_cast<long long>(early.bytes - before.bytes), rounds / 4, rounds / 2, static_cast<long long>(late.bytes - before.bytes), 3 * rounds / 4);
  c.label(with_acks ? (lossy_acks ? "some acks lost" : "acks") : "no acks"); c.label("w:" + std::to_string(w)); c.label(systematic ? "systematic" : "non-systematic");
  if (incomplete) c.label("incomplete rounds");
  if (nb_decoded) c.label("decoding");
  c.evaluations(rounds);
  c.nontrivial(nb_decoded > 0);
  c.describe("w=" + std::to_string(w) + ": " + std::to_string(rounds) + " rounds of " + std::to_string(n) + " data, " + std::to_string(nb_decoded) + " decoded, " + std::to_string(nb_acks)
             + " acks, " + std::to_string(at.back().blocks - before.blocks) + " blocks held at the end");
}

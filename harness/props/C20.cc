#include "coders.hh"
#include "model.hh"
const char* const property_id = "C20";
// Automatic acks: each time a datum is delivered (and when asked), an ack is emitted if and only if
// enough packets were received since the previous ack, or the period has elapsed.
namespace {
struct event { bool is_ack; };
struct log_t { std::vector<event> ev; h::bytes cur; std::vector<h::bytes> acks; };
struct ph { log_t* l; void operator()(const char* d, std::size_t n) { l->cur.insert(l->cur.end(), d, d + n); }
            void operator()() { l->ev.push_back({true}); l->acks.push_back(l->cur); l->cur.clear(); } };
struct dh { log_t* l; void operator()(const char*, std::size_t) { l->ev.push_back({false}); } };
}
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto in_order = c.coin();
  auto& now = virtual_now_ns();
  now = 1000000000;
  log_t l;
  ntc::decoder<ph, dh> dec(static_cast<std::uint8_t>(w), h::order(in_order), ph{&l}, dh{&l});
  const auto& f = ref::gf::get(w);
  std::int64_t period = 100000000;      // default: 100 ms
  unsigned nb = 50;                     // default
  if (c.chance(1, 2)) {} // both defaults are exercised below
  // Last automatic ack; requested acks may or may not restart the period.
  std::int64_t last = now, last_alt = now;
  unsigned since = 0;
  std::size_t nb_auto = 0, nb_period = 0, nb_count = 0, nb_silent = 0, nb_forced = 0;
  const auto configure = [&]
  {
    if (c.coin())
    {
      const auto ms = c.pick<std::int64_t>({0, 1, 2, 5, 10, 50, 100, 1000, 100000, 2147484, 65536, 2147483648, 4294967297});
      dec.set_ack_period(std::chrono::milliseconds{ms});
      PBT_CHECK(dec.ack_period() == std::chrono::milliseconds{ms}, "ack_period() isn't what was set");
      period = ms * 1000000;
      c.log("period %lld ms", static_cast<long long>(ms));
    }
    else
    {
      const auto n = c.pick<unsigned>({1, 2, 3, 4, 5, 7, 10, 50, 127, 128, 129, 300, 65535});
      dec.set_ack_nb_packets(static_cast<std::uint16_t>(n));
      nb = std::min(n, 128u);
      PBT_CHECK(dec.ack_nb_packets() == nb, "ack_nb_packets() is %u after having set %u", dec.ack_nb_packets(), n);
      c.log("nb packets %u", n);
    }
  };
  // Judge what happened: a sequence of deliveries and acks.
  std::size_t pos = 0;
  const auto judge = [&](bool asked)
  {
    const auto due = [&](std::int64_t date) { return since >= nb or (period != 0 and now - date >= period); };
    if (asked) l.ev.insert(l.ev.begin() + static_cast<long>(pos), event{false});   // as a delivery
    for (; pos < l.ev.size(); ++pos)
    {
      PBT_CHECK(not l.ev[pos].is_ack, "an ack was emitted although none was due: %u packet(s) since the previous one (threshold %u), %lld ms since the last automatic one (period %lld ms)"
               , since, nb, static_cast<long long>((now - last) / 1000000), static_cast<long long>(period / 1000000));
      const bool acked = pos + 1 < l.ev.size() and l.ev[pos + 1].is_ack;
      const bool d1 = due(last), d2 = due(last_alt);
      PBT_CHECK(not acked or d1 or d2, "an ack was emitted although none was due: %u packet(s) since the previous one (threshold %u), %lld ms since the last automatic one (period %lld ms)"
               , since, nb, static_cast<long long>((now - last) / 1000000), static_cast<long long>(period / 1000000));
      PBT_CHECK(acked or not d1 or not d2, "no ack was emitted although one was due: %u packet(s) since the previous one (threshold %u), %lld ms since the last automatic one (period %lld ms)"
               , since, nb, static_cast<long long>((now - last) / 1000000), static_cast<long long>(period / 1000000));
      if (acked)
      {
        if (since >= nb) ++nb_count; else ++nb_period;
        ++nb_auto; since = 0; last = last_alt = now; ++pos;
      }
      else ++nb_silent;
    }
  };
  const auto nconf = c.draw(3);
  for (unsigned i = 0; i < nconf; ++i) configure();
  ref::store win;
  std::uint32_t id = 0, rid = 0;
  std::set<std::uint32_t> seen;
  const auto steps = c.log_range(4, 400);
  const auto flood_at = c.chance(1, 1000) ? c.draw(steps) : steps + 1;
  for (std::size_t i = 0; i < steps; ++i)
  {
    if (i == flood_at and id > 0 and seen.count(id - 1))
    {
      // duplicates, a lot of times: nothing is delivered, thus nothing is sent
      const auto n = c.pick<unsigned>({65536, 65537, 65600, 131080}) - (c.coin() ? since : 0);
      const auto dup = ref::mk_source(id - 1, win[id - 1]);
      for (unsigned k = 0; k < n; ++k) dec(h::to_packet(dup));
      since += n;
      c.log("%u duplicates", n);
      c.label("flood of duplicates");
      judge(false);
    }
    switch (c.weighted({60, 10, 8, 12, 4, 3, 2}))
    {
      case 0: // a source, most often the next one, sometimes after a hole
      {
        const auto lost = c.chance(1, 6);
        const auto b = h::bytes(4 * c.range(1, 4), static_cast<char>(c.draw(255)));
        win[id] = b;
        if (win.size() > 6) win.erase(win.begin());
        if (not lost) { seen.insert(id); ++since; c.log("source %u", id); dec(h::to_packet(ref::mk_source(id, b))); judge(false); }
        ++id;
        break;
      }
      case 1:
        if (not win.empty()) { ++since; c.log("repair %u", rid); dec(h::to_packet(ref::encode_repair(f, rid, win))); ++rid; judge(false); }
        break;
      case 2: if (id > 0) { seen.insert(id - 1); ++since; c.log("old source"); dec(h::to_packet(ref::mk_source(id - 1, win[id - 1]))); judge(false); } break;
      case 3: now += static_cast<std::int64_t>(c.log_range(0, 400)) * 500000; c.log("now %lld ms", static_cast<long long>(now / 1000000)); break;
      case 4: // exactly the period
        now = std::max(now, last + period - (c.coin() ? 1 : 0)); c.log("now: period"); break;
      case 5: c.log("maybe_ack"); dec.maybe_ack(); judge(true); break;
      case 6:
        if (c.coin()) { configure(); break; }
        c.log("generate_ack");
        dec.generate_ack();
        PBT_CHECK(l.ev.size() == pos + 1 and l.ev[pos].is_ack, "a requested ack was not emitted");
        ++pos;
        since = 0; last_alt = now; ++nb_forced;
        break;
    }
  }
  if (nb_period) c.label("ack:period");
  if (nb_count) c.label("ack:count");
  if (nb_forced) c.label("ack:requested");
  if (nb == 128) c.label("threshold:128");
  c.nontrivial(nb_auto > 0 and nb_silent > 0);
  c.evaluations(nb_auto + nb_silent);
  c.describe("w=" + std::to_string(w) + ", " + std::to_string(id) + " sources, threshold " + std::to_string(nb) + ", period " + std::to_string(period / 1000000)
             + " ms: " + std::to_string(nb_count) + " acks by count, " + std::to_string(nb_period) + " by period, " + std::to_string(nb_silent) + " deliveries without ack");
}

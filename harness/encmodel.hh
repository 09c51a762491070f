// Histories of the real encoder against a model of it: commits, forced repairs, acks (honest, stale,
// duplicated, naming anything) and reconfigurations. The caller chooses which oracles judge.
#pragma once

#include <cmath>

#include "coders.hh"
#include "model.hh"

namespace h {

enum enc_oracle : unsigned { WINDOW = 1, REPAIRS = 2, CADENCE = 4, ADAPT = 8 };

struct enc_session
{
  pbt::Ctx& c;
  unsigned  flags;
  unsigned  w;
  const ref::gf& f;
  packet_sink sink;
  encoder   enc;
  // model
  ref::store      win;
  std::size_t     limit = ~std::size_t{0};
  bool            shrunk = false;        // the limit was lowered below the window's size
  std::uint32_t   next_id = 0;
  std::size_t     rate = 5;
  bool            systematic = true, adaptive = false;
  bool            rate_known = true;
  std::uint64_t   sent = 0;              // packets since the last ack
  std::size_t     seen = 0;
  std::uint32_t   next_rid = 0;
  std::size_t     nb_acked = 0, nb_evicted = 0, nb_repairs = 0, nb_multi = 0, nb_acks = 0, nb_lossy_acks = 0, nb_sizes = 0;
  std::vector<bytes> all;
  bool            burst = false;

  enc_session(pbt::Ctx& c_, unsigned fl)
    : c(c_), flags(fl), w(c.pick<unsigned>({8, 8, 4, 16, 32})), f(ref::gf::get(w)), enc(static_cast<std::uint8_t>(w), packet_ref{&sink})
  {
    c.label("w:" + std::to_string(w));
  }

  // Compare the window to the model's.
  void check_window(const char* when)
  {
    if (not (flags & WINDOW)) return;
    const auto n = enc.window();
    if (shrunk and n < win.size() and n <= limit)
    {
      // The window may shrink as soon as the limit is lowered, or at the next commit.
      while (win.size() > limit) win.erase(win.begin());
      shrunk = false;
    }
    PBT_CHECK(n == win.size(), "%s: window() is %zu, but %zu data are neither acknowledged nor evicted", when, n, win.size());
  }

  static std::string show(const ref::ids_t& v)
  {
    std::string s;
    for (std::size_t i = 0; i < v.size() and i < 16; ++i) s += (i ? "," : "") + std::to_string(v[i]);
    return s + (v.size() > 16 ? ",...(" + std::to_string(v.size()) + ")" : "");
  }

  ref::parsed next_packet()
  {
    auto p = ref::parse(sink.packets[seen]);
    PBT_CHECK(p.type == 1 or p.type == 2, "emitted packet is not a well-formed source or repair: %s", pbt::hex(sink.packets[seen], 48).c_str());
    PBT_CHECK(p.used == sink.packets[seen].size(), "emitted packet of %zu bytes has %zu significant bytes", sink.packets[seen].size(), p.used);
    ++seen;
    ++sent;
    return p;
  }

  void on_repair(const ref::parsed& p)
  {
    ++nb_repairs;
    c.log("  repair %u of {%s}, %zu bytes", p.id, show(p.ids).c_str(), p.sym.size());
    if (win.size() >= 2) ++nb_multi;
    if (flags & CADENCE)
    {
      PBT_CHECK(p.id == next_rid, "repair has identifier %u, expected %u", p.id, next_rid);
    }
    next_rid = p.id + 1;
    if (flags & (WINDOW | REPAIRS))
    {
      if (shrunk and p.ids.size() < win.size()) { while (win.size() > limit) win.erase(win.begin()); shrunk = false; }
      ref::ids_t expect;
      for (auto& kv : win) expect.push_back(kv.first);
      PBT_CHECK(p.ids == expect, "repair %u covers {%s}, but the data neither acknowledged nor evicted are {%s}", p.id
               , show(p.ids).c_str(), show(expect).c_str());
    }
    if (flags & REPAIRS)
    {
      const auto e = ref::parse(ref::encode_repair(f, p.id, win));
      PBT_CHECK(p.sym.size() == e.sym.size(), "repair %u has a symbol of %zu bytes, the longest datum it covers has %zu", p.id, p.sym.size(), e.sym.size());
      PBT_CHECK(p.sym == e.sym, "repair %u: symbol is not the combination of the data it covers: %s, expected %s", p.id
               , pbt::hex(p.sym).c_str(), pbt::hex(e.sym).c_str());
      const auto mask = w == 32 ? 0xffffffffu : 0xffffu;
      PBT_CHECK((p.encoded_size & mask) == (e.encoded_size & mask), "repair %u: encoded size is not the combination of the sizes: %u, expected %u", p.id, p.encoded_size, e.encoded_size);
    }
  }

  void commit(std::size_t sz, bool by_ref)
  {
    auto b = c.bytes(sz);
    const auto id = next_id++;
    c.log("commit %u (%zu bytes)", id, sz);
    const auto before = sink.packets.size();
    const auto ends = sink.nb_end;
    while (win.size() >= limit) { win.erase(win.begin()); ++nb_evicted; }
    shrunk = false;
    win[id] = b;
    if (by_ref)
    {
      const auto d = to_data(b);
      enc(d);
      PBT_CHECK(bytes(d.begin(), d.end()) == b, "the caller's datum was modified");
    }
    else enc(to_data(b));
    const auto n = sink.packets.size() - before;
    const bool at_rate = (static_cast<std::size_t>(id) + 1) % rate == 0;
    if (flags & CADENCE)
    {
      const std::size_t expect = 1 + (at_rate ? 1 : 0);
      PBT_CHECK(n == expect, "committing datum %u (rate %zu, %s) emitted %zu packet(s), expected %zu", id, rate
               , systematic ? "systematic" : "non-systematic", n, expect);
      PBT_CHECK(sink.nb_end - ends == n and not sink.partial_end and sink.current.empty(), "packets are not delimited one by one");
    }
    for (std::size_t k = 0; seen < sink.packets.size(); ++k)
    {
      const auto p = next_packet();
      if (flags & CADENCE)
      {
        const bool source_expected = systematic and k == 0;
        PBT_CHECK((p.type == 2) == source_expected, "committing datum %u: packet number %zu is a %s", id, k, p.type == 2 ? "source" : "repair");
        if (p.type == 2)
        {
          PBT_CHECK(p.id == id, "source has identifier %u, expected %u", p.id, id);
          PBT_CHECK(p.sym == b, "source %u carries other bytes than the datum: %s, expected %s", id, pbt::hex(p.sym).c_str(), pbt::hex(b).c_str());
        }
      }
      if (p.type == 1) on_repair(p);
    }
    check_window("after a commit");
  }

  void force()
  {
    c.log("force repair");
    const auto before = sink.packets.size();
    enc.generate_repair();
    const auto n = sink.packets.size() - before;
    if (flags & CADENCE)
      PBT_CHECK(n == (win.empty() ? 0u : 1u), "a forced repair with %zu data in the window emitted %zu packet(s)", win.size(), n);
    while (seen < sink.packets.size())
    {
      const auto p = next_packet();
      PBT_CHECK(p.type == 1, "a forced repair emitted something else than a repair");
      on_repair(p);
    }
    check_window("after a forced repair");
  }

  void ack(const ref::ids_t& ids, std::uint16_t nb)
  {
    c.log("ack {%s} nb_packets=%u (sent %" PRIu64 ")", show(ids).c_str(), nb, sent);
    const auto before = sink.packets.size();
    const auto b = ref::mk_ack(nb, ids);
    std::size_t used;
    if (c.coin()) used = enc(to_packet(b));
    else { const auto p = to_packet(b); used = enc(p); }
    PBT_CHECK(used == b.size(), "the encoder read %zu bytes of an ack of %zu bytes", used, b.size());
    PBT_CHECK(sink.packets.size() == before and sink.current.empty(), "receiving an ack emitted something");
    for (auto id : ids) nb_acked += win.erase(id);
    ++nb_acks;
    if (adaptive)
    {
      const auto got = enc.rate();
      if (flags & ADAPT)
      {
        // Expected: 50 below 1% of loss, else ceil(1 / (2 * loss)).
        const auto s = static_cast<std::int64_t>(sent);
        const auto lost = s - static_cast<std::int64_t>(nb);
        if (lost > 0) ++nb_lossy_acks;
        if (s == 0 or lost <= 0 or lost * 100 < s)
        {
          PBT_CHECK(got == 50, "rate is %zu after an ack of %u packets out of %" PRIu64 ", expected 50", got, nb, sent);
        }
        else
        {
          // r = ceil(s / (2 lost)), or its neighbour if this quotient is an integer and if rounding the loss rate leads to it.
          const auto r = static_cast<std::size_t>((s + 2 * lost - 1) / (2 * lost));
          const auto rounded = static_cast<std::size_t>(std::ceil(1 / (static_cast<double>(lost) / static_cast<double>(s)) / 2));
          PBT_CHECK(got == r or got == rounded, "rate is %zu after an ack of %u packets out of %" PRIu64 ", expected %zu", got, nb, sent, r);
        }
        PBT_CHECK(got >= 1 and got <= 51, "rate is %zu", got);
      }
      rate = got;
    }
    else if (flags & ADAPT)
    {
      PBT_CHECK(enc.rate() == rate, "rate changed from %zu to %zu although the encoder isn't adaptive", rate, enc.rate());
    }
    sent = 0;
    check_window("after an ack");
  }

  void random_ack(bool honest)
  {
    ref::ids_t ids;
    const auto mode = honest ? 0 : c.draw(4);
    switch (mode)
    {
      case 0: // a subset of what is in the window
      {
        const auto pct = c.pick<unsigned>({0, 30, 60, 90, 100});
        for (auto& kv : win) if (c.draw(99) < pct) ids.push_back(kv.first);
        break;
      }
      case 1: // a prefix of everything sent, with holes
        for (std::uint32_t id = 0; id < next_id; ++id) if (c.draw(9) < 7) ids.push_back(id);
        break;
      case 2: // anything: stale, future
      {
        std::set<std::uint32_t> s;
        const auto n = c.range(0, 8);
        for (std::size_t k = 0; k < n; ++k)
          s.insert(c.chance(1, 5) ? static_cast<std::uint32_t>(c.draw(0xffffffffu)) : static_cast<std::uint32_t>(c.draw(next_id + 3)));
        ids.assign(s.begin(), s.end());
        break;
      }
      case 3: // contiguous run
      {
        const auto a = static_cast<std::uint32_t>(c.draw(next_id + 1));
        const auto n = c.range(1, 300);
        for (std::uint32_t k = 0; k < n; ++k) ids.push_back(a + k);
        break;
      }
      case 4: break; // empty
    }
    const auto s = static_cast<std::uint16_t>(std::min<std::uint64_t>(sent, 65535));
    std::uint16_t nb = s;
    switch (c.draw(5))
    {
      case 0: break;
      case 1: case 2: nb = static_cast<std::uint16_t>(c.draw(s)); break;
      case 3: nb = static_cast<std::uint16_t>(s - std::min<unsigned>(s, static_cast<unsigned>(c.draw(3)))); break;
      case 4: nb = static_cast<std::uint16_t>(c.pick<unsigned>({0, 1, 65535, 128, 50})); break;
      case 5: nb = static_cast<std::uint16_t>(s - s / 100 - (c.coin() ? 1 : 0)); break;
    }
    ack(ids, nb);
  }

  std::size_t size()
  {
    const auto word = f.word();
    std::size_t s = burst or c.weighted({2, 1}) == 0 ? c.range(1, 24) : c.log_range(1, 1000);
    if (not burst and c.chance(1, 300)) s = c.pick<std::size_t>({65535, 65534, 65532, 40000, 16384});
    s = (s + word - 1) / word * word;
    return std::min(s, 65535 / word * word);
  }

  void reconfigure()
  {
    switch (c.draw(3))
    {
      case 0:
        rate = c.pick<std::size_t>({5, 1, 2, 3, 4, 6, 7, 10, 16, 50, 1000000});
        enc.set_rate(rate);
        PBT_CHECK(enc.rate() == rate, "rate() isn't what was set");
        c.log("rate %zu", rate);
        break;
      case 1:
        limit = c.pick<std::size_t>({1, 2, 3, 4, 5, 7, 10, 20, 60, 1000000});
        if (win.size() > limit) { shrunk = true; c.label("window-lowered"); }
        enc.set_window_size(limit);
        PBT_CHECK(enc.window_size() == limit, "window_size() isn't what was set");
        c.log("limit %zu", limit);
        break;
      case 2: systematic = c.coin(); enc.set_code_type(systematic ? ntc::systematic::yes : ntc::systematic::no); c.log("systematic %d", systematic);
        PBT_CHECK((enc.code_type() == ntc::systematic::yes) == systematic, "code_type() isn't what was set"); break;
      case 3: adaptive = c.coin(); enc.set_adaptive(adaptive); c.log("adaptive %d", adaptive);
        PBT_CHECK(enc.adaptive() == adaptive, "adaptive() isn't what was set"); break;
    }
  }

  // Send a lot of data, or of repairs, cheaply.
  void fast_forward()
  {
    const bool repairs = c.coin();
    const auto n = c.pick<std::uint32_t>({65530, 65536, 65600, 131080});
    const auto word = f.word();
    c.label(repairs ? "fast-forward repairs" : "fast-forward data");
    c.log("fast-forward: %u %s", n, repairs ? "repairs" : "data");
    const auto old_limit = limit; const auto old_rate = rate; const auto old_sys = systematic, old_adaptive = adaptive;
    limit = 1; enc.set_window_size(1);
    rate = 1000003; enc.set_rate(rate);
    systematic = true; enc.set_code_type(ntc::systematic::yes);
    adaptive = false; enc.set_adaptive(false);
    commit(word, false);
    for (std::uint32_t k = 0; k < n; ++k)
    {
      if (repairs) { enc.generate_repair(); ++next_rid; }
      else { win.clear(); bytes b(word, static_cast<char>(k)); enc(to_data(b)); win[next_id++] = b; }
      if (sink.packets.size() > 100) sink.packets.clear();
    }
    sink.packets.clear();
    seen = 0;
    sent += n;
    check_window("after many packets");
    limit = old_limit; enc.set_window_size(limit);
    rate = old_rate; enc.set_rate(rate);
    systematic = old_sys; enc.set_code_type(old_sys ? ntc::systematic::yes : ntc::systematic::no);
    adaptive = old_adaptive; enc.set_adaptive(adaptive);
    if (c.coin()) ack({}, static_cast<std::uint16_t>(c.pick<unsigned>({0, 1, 60000, 65535, 200})));
  }

  // A window of more than 65536 data.
  void big_window()
  {
    const auto n = static_cast<std::uint32_t>(c.range(65530, 66200));
    limit = c.pick<std::size_t>({~std::size_t{0}, 65536, 65535, 65537, 66000});
    c.label("big window");
    c.log("%u data, limit %zu", n, limit);
    enc.set_window_size(limit);
    rate = 1000003; enc.set_rate(rate);
    const auto word = f.word();
    for (std::uint32_t k = 0; k < n; ++k)
    {
      while (win.size() >= limit) { win.erase(win.begin()); ++nb_evicted; }
      bytes b(word, static_cast<char>(k));
      enc(to_data(b));
      win[next_id++] = b;
      ++sent;
      sink.packets.clear();
      seen = 0;
      if (k % 64 == 0 or k > 65500) check_window("after a commit");
    }
    force();
    ref::ids_t ids;
    const auto mode = c.draw(3);
    for (auto& kv : win) if (mode == 0 or (mode == 1 and kv.first % 2) or (mode == 2 and kv.first > 65536) or (mode == 3 and kv.first < 65535)) ids.push_back(kv.first);
    ack(ids, 65535);
    force();
    for (unsigned k = 0; k < 3; ++k) commit(word, false);
    force();
    limit = c.pick<std::size_t>({100, 1, 65000});
    if (win.size() > limit) shrunk = true;
    enc.set_window_size(limit);
    commit(word, false);
    force();
  }

  void run()
  {
    if ((flags & WINDOW) and c.chance(1, 3000)) { big_window(); c.describe("w=" + std::to_string(w) + ", " + std::to_string(next_id) + " data in a big window"); c.evaluations(next_id); return; }
    for (unsigned k = 0; k < 4; ++k) if (c.chance(1, 3)) reconfigure();
    if ((flags & ADAPT) and c.chance(3, 4)) { adaptive = true; enc.set_adaptive(true); }
    burst = c.chance(1, 10);
    if (c.chance(1, 400)) fast_forward();
    const auto steps = c.log_range(3, 120);
    if (burst) c.label("bursts");
    for (std::size_t i = 0; i < steps; ++i)
    {
      switch (c.weighted({50, 10, 14, 3}))
      {
        case 0:
        {
          auto n = burst and c.chance(1, 8) ? c.range(20, 300) : 1;
          while (n--) commit(size(), c.coin());
          break;
        }
        case 1: force(); break;
        case 2: random_ack(c.coin()); break;
        case 3: reconfigure(); break;
      }
    }
    force();
    if (adaptive) c.label("adaptive");
    if (nb_evicted) c.label("evictions");
    if (nb_acked) c.label("acked");
    if (not systematic) c.label("non-systematic");
    if (win.size() > 255) c.label("window>255");
    char buf[200];
    snprintf(buf, sizeof buf, "w=%u, %u data, %zu repairs (%zu of several data), %zu acks (%zu lossy), %zu acked, %zu evicted, final window %zu"
            , w, next_id, nb_repairs, nb_multi, nb_acks, nb_lossy_acks, nb_acked, nb_evicted, win.size());
    c.describe(buf);
    c.evaluations(next_id + nb_repairs + nb_acks);
  }
};

} // namespace h

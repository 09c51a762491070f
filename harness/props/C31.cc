#include "session.hh"
#include <cmath>
#include <functional>
const char* const property_id = "C31";
// Acks may be given to an encoder from within its packet handler, when a packet ends.
namespace {
struct handler
{
  h::bytes* current; const std::function<void()>* end;
  void operator()(const char* d, std::size_t n) { current->insert(current->end(), d, d + n); }
  void operator()() { (*end)(); }
};
struct ack_handler
{
  h::bytes* current; const std::function<void()>* end;
  void operator()(const char* d, std::size_t n) { current->insert(current->end(), d, d + n); }
  void operator()() { (*end)(); }
};

// The encoder against a model of it; acks come from anywhere.
void modelled(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto& f = ref::gf::get(w);
  h::bytes current;
  std::function<void()> on_end;
  ntc::encoder<handler> enc(static_cast<std::uint8_t>(w), handler{&current, &on_end});
  ref::store win;
  std::uint32_t next_id = 0, rid = 0;
  std::size_t limit = ~std::size_t{0}, sent = 0, nb_acks = 0, inner = 0, emptied = 0, sources = 0, repairs = 0;
  bool systematic = c.chance(3, 4), adaptive = c.chance(1, 3);
  std::size_t rate = c.pick<std::size_t>({2, 1, 3, 5});
  enc.set_rate(rate); enc.set_code_type(systematic ? ntc::systematic::yes : ntc::systematic::no); enc.set_adaptive(adaptive);
  if (c.chance(1, 4)) { limit = c.range(1, 6); enc.set_window_size(limit); }
  const auto chance = c.pick<unsigned>({2, 1, 4});
  // what the packet being emitted may be
  bool source_allowed = false; h::bytes datum; bool any = false;
  const auto ack = [&]
  {
    ref::ids_t ids;
    const auto pct = c.pick<unsigned>({100, 0, 30, 70});
    for (auto& kv : win) if (c.draw(99) < pct) ids.push_back(kv.first);
    if (c.chance(1, 5)) for (std::uint32_t id = next_id; id < next_id + 2; ++id) ids.push_back(id);
    const auto nb = static_cast<std::uint16_t>(c.draw(sent));
    c.log("  ack of %zu data, %u packets of %zu", ids.size(), nb, sent);
    const auto b = ref::mk_ack(nb, ids);
    std::size_t used;
    if (c.coin()) used = enc(h::to_packet(b)); else { const auto p = h::to_packet(b); used = enc(p); }
    PBT_CHECK(used == b.size(), "the encoder read %zu bytes of an ack of %zu bytes", used, b.size());
    for (auto id : ids) win.erase(id);
    ++nb_acks;
    if (adaptive)
    {
      const auto got = enc.rate();
      const auto lost = sent - nb;
      if (lost == 0 or lost * 100 < sent) PBT_CHECK(got == 50, "rate is %zu after an ack of %u packets of %zu", got, nb, sent);
      else PBT_CHECK(got == (sent + 2 * lost - 1) / (2 * lost) or got == static_cast<std::size_t>(std::ceil(1 / (static_cast<double>(lost) / static_cast<double>(sent)) / 2)), "rate is %zu after an ack of %u packets of %zu", got, nb, sent);
      rate = got;
    }
    else PBT_CHECK(enc.rate() == rate, "the rate changed");
    sent = 0;
    PBT_CHECK(enc.window() == win.size(), "after an ack: window() is %zu, expected %zu", enc.window(), win.size());
    PBT_CHECK(enc.nb_received_acks() == nb_acks, "%zu acks received, expected %zu", enc.nb_received_acks(), nb_acks);
  };
  on_end = [&]
  {
    const auto p = ref::parse(current);
    PBT_CHECK(p.used == current.size(), "emitted %zu bytes, of which %zu are significant", current.size(), p.used);
    current.clear();
    PBT_CHECK(any, "a packet too many");
    PBT_CHECK(p.type == 1 or p.type == 2, "emitted packet is malformed");
    ++sent;
    if (p.type == 2)
    {
      PBT_CHECK(source_allowed and p.id == next_id - 1 and p.sym == datum, "unexpected source %u", p.id);
      source_allowed = false;
      ++sources;
    }
    else
    {
      PBT_CHECK(not source_allowed, "a repair instead of the datum");
      PBT_CHECK(p.id == rid, "repair %u, expected %u", p.id, rid);
      ++rid; ++repairs;
      ref::ids_t ids; for (auto& kv : win) ids.push_back(kv.first);
      PBT_CHECK(p.ids == ids, "repair %u covers %zu data, %zu are in the window", p.id, p.ids.size(), ids.size());
      const auto e = ref::parse(ref::encode_repair(f, p.id, win));
      const auto mask = w == 32 ? 0xffffffffu : 0xffffu;
      PBT_CHECK(p.sym == e.sym and (p.encoded_size & mask) == (e.encoded_size & mask), "repair %u isn't the combination of the data it covers", p.id);
    }
    c.log("  %s %u", p.type == 2 ? "source" : "repair", p.id);
    PBT_CHECK(enc.window() == win.size(), "in the handler: window() is %zu, expected %zu", enc.window(), win.size());
    auto n = c.chance(1, chance) ? c.range(1, 2) : 0;
    while (n--) { ack(); ++inner; if (win.empty()) ++emptied; }
  };
  const auto steps = c.log_range(2, 60);
  for (std::size_t k = 0; k < steps; ++k)
  {
    switch (c.weighted({12, 2, 2, 1}))
    {
      case 0:
      {
        const auto word = f.word();
        datum = c.bytes((c.log_range(1, 40) + word - 1) / word * word);
        c.log("commit %u (%zu bytes)", next_id, datum.size());
        while (win.size() >= limit) win.erase(win.begin());
        const auto id = next_id++;
        win[id] = datum;
        source_allowed = systematic; any = true;
        const auto before = sources + repairs; const auto old_rate = rate;
        if (c.coin()) enc(h::to_data(datum)); else { const auto d = h::to_data(datum); enc(d); PBT_CHECK(h::bytes(d.begin(), d.end()) == datum, "the caller's datum was modified"); }
        any = false;
        const auto n = sources + repairs - before;
        PBT_CHECK(not source_allowed, "the datum was not emitted");
        // The one of the rate, unless the window has been emptied before it.
        if (n == 1)
        {
          const bool due = (id + 1) % rate == 0 and (id + 1) % old_rate == 0;
          PBT_CHECK(not due or win.empty(), "no repair, although the window isn't empty");
        }
        else
        {
          PBT_CHECK(n == 2, "%zu packets emitted", n);
          PBT_CHECK((id + 1) % rate == 0 or (id + 1) % old_rate == 0 or adaptive, "a repair, although the number of data isn't a multiple of the rate");
        }
        break;
      }
      case 1:
      {
        const auto before = repairs; const bool expected = not win.empty();
        c.log("forced repair");
        any = expected;
        enc.generate_repair();
        any = false;
        PBT_CHECK(repairs - before == (expected ? 1u : 0u), "a forced repair emitted %zu packets", repairs - before);
        break;
      }
      case 2: ack(); break;
      default: rate = c.range(1, 6); enc.set_rate(rate); systematic = c.coin(); enc.set_code_type(systematic ? ntc::systematic::yes : ntc::systematic::no);
    }
    PBT_CHECK(enc.window() == win.size(), "window() is %zu, expected %zu", enc.window(), win.size());
    PBT_CHECK(current.empty(), "bytes without an end of packet");
    PBT_CHECK(enc.nb_sent_repairs() == repairs and enc.nb_sent_sources() == sources, "%zu sources and %zu repairs sent, expected %zu and %zu", enc.nb_sent_sources(), enc.nb_sent_repairs(), sources, repairs);
  }
  c.label("model"); c.label("w:" + std::to_string(w));
  if (emptied) c.label("emptied");
  c.nontrivial(inner > 0 and repairs > 0);
  c.evaluations(sources + repairs);
  c.describe("w=" + std::to_string(w) + ", " + std::to_string(next_id) + " data, " + std::to_string(repairs) + " repairs, " + std::to_string(inner) + " acks from the handler, which emptied the window " + std::to_string(emptied) + " times");
}

// An encoder and a decoder wired directly to each other.
void wired(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 16, 32});
  const auto& f = ref::gf::get(w);
  const bool ordered = c.coin();
  h::bytes packet, ack;
  std::function<void()> on_packet, on_ack;
  ntc::encoder<handler> enc(static_cast<std::uint8_t>(w), handler{&packet, &on_packet});
  h::data_sink data;
  ntc::decoder<ack_handler, h::data_ref> dec(static_cast<std::uint8_t>(w), h::order(ordered), ack_handler{&ack, &on_ack}, h::data_ref{&data});
  enc.set_rate(c.pick<std::size_t>({2, 1, 3, 5, 1000})); enc.set_adaptive(c.chance(1, 3));
  enc.set_code_type(c.chance(3, 4) ? ntc::systematic::yes : ntc::systematic::no);
  dec.set_ack_nb_packets(static_cast<std::uint16_t>(c.pick<unsigned>({1, 2, 5, 20})));
  dec.set_ack_period(std::chrono::milliseconds{0});
  auto loss = c.pick<unsigned>({30, 0, 60}), aloss = c.pick<unsigned>({20, 0, 60});
  std::size_t nb_lost = 0, nb_acks = 0;
  std::set<std::uint32_t> win;
  on_packet = [&]
  {
    h::bytes b; b.swap(packet);
    if (c.draw(99) < loss) { ++nb_lost; c.log("lost"); return; }
    dec(h::to_packet(b));
  };
  on_ack = [&]
  {
    h::bytes b; b.swap(ack);
    if (c.draw(99) < aloss) return;
    const auto p = ref::parse(b);
    PBT_CHECK(p.type == 0 and p.used == b.size(), "malformed ack");
    for (auto id : p.ids) win.erase(id);
    c.log("ack of %zu data", p.ids.size());
    ++nb_acks;
    enc(h::to_packet(b));
    PBT_CHECK(enc.window() == win.size(), "window() is %zu, but %zu data aren't acknowledged", enc.window(), win.size());
  };
  std::vector<h::bytes> truth;
  const auto judge = [&]
  {
    std::set<std::size_t> given; std::size_t last = 0; bool first = true;
    for (auto& d : data.data)
    {
      const auto it = std::find(truth.begin(), truth.end(), d);
      PBT_CHECK(it != truth.end(), "delivered %zu bytes which were not sent", d.size());
      const auto i = static_cast<std::size_t>(it - truth.begin());
      PBT_CHECK(given.insert(i).second, "datum %zu delivered twice", i);
      PBT_CHECK(not ordered or first or i > last, "datum %zu delivered after datum %zu", i, last);
      last = i; first = false;
    }
  };
  h::sizes sz(c, f.word(), 8, false);
  const auto n = c.log_range(1, 60);
  for (std::size_t k = 0; k < n and enc.window() < 40; ++k)
  {
    auto d = h::payload(c, sz(c), truth.size());
    if (d.size() < 8) d.resize(8);
    for (unsigned i = 0; i < 4; ++i) d[i] = static_cast<char>(truth.size() >> (8 * i));   // all different
    truth.push_back(d);
    win.insert(static_cast<std::uint32_t>(k));
    c.log("send #%zu (%zu bytes)", k, d.size());
    enc(h::to_data(d));
    if (c.chance(1, 6)) enc.generate_repair();
    if (c.chance(1, 6)) dec.generate_ack();
    PBT_CHECK(enc.window() == win.size(), "window() is %zu, but %zu data aren't acknowledged", enc.window(), win.size());
  }
  judge();
  loss = aloss = 0;
  for (std::size_t k = 0; k < 3 * truth.size() + 20 and enc.window() > 0; ++k) { enc.generate_repair(); dec.generate_ack(); }
  PBT_CHECK(enc.window() == 0 and dec.nb_missing_sources() == 0, "%zu data in the window, %zu missing, although nothing is lost any more", enc.window(), dec.nb_missing_sources());
  judge();
  PBT_CHECK(data.data.size() == truth.size(), "%zu data delivered of %zu", data.data.size(), truth.size());
  c.label("wired"); c.label(ordered ? "in order" : "out of order");
  c.nontrivial(nb_acks > 1 and nb_lost > 0);
  c.evaluations(truth.size());
  c.describe("wired: w=" + std::to_string(w) + ", " + std::to_string(truth.size()) + " data, " + std::to_string(nb_lost) + " packets lost, " + std::to_string(nb_acks) + " acks");
}
}
void run_case(pbt::Ctx& c)
{
  if (c.chance(1, 3)) wired(c); else modelled(c);
}

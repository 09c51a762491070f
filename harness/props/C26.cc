#include "session.hh"
const char* const property_id = "C26";
// What a handler throws reaches the caller, and the coders stay sane afterwards.
namespace {
struct boom { int n; };
struct chooser
{
  int countdown = -1, thrown = 0;
  int kind = 0;
  void maybe()
  {
    if (countdown < 0) return;
    if (countdown-- > 0) return;
    ++thrown;
    switch (kind)
    {
      case 0: throw boom{4242 + thrown};
      case 1: throw std::runtime_error("handler " + std::to_string(thrown));
      case 2: throw ntc::overflow_error();
      default: throw 17;
    }
  }
};
struct ph
{
  h::packet_sink* s; chooser* ch;
  void operator()(const char* d, std::size_t n) { ch->maybe(); (*s)(d, n); }
  void operator()() { ch->maybe(); (*s)(); }
};
struct dh
{
  std::vector<h::bytes>* ok; std::vector<h::bytes>* bad; chooser* ch;
  void operator()(const char* d, std::size_t n)
  {
    try { ch->maybe(); } catch (...) { bad->emplace_back(d, d + n); throw; }
    ok->emplace_back(d, d + n);
  }
};
}
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto word = ref::gf::get(w).word();
  const bool ordered = c.coin();
  chooser ch;
  h::packet_sink out, acks;
  std::vector<h::bytes> good, bad, truth;
  ntc::encoder<ph> enc(static_cast<std::uint8_t>(w), ph{&out, &ch});
  ntc::decoder<ph, dh> dec(static_cast<std::uint8_t>(w), h::order(ordered), ph{&acks, &ch}, dh{&good, &bad, &ch});
  enc.set_rate(c.pick<std::size_t>({2, 1, 3, 5, 50}));
  if (c.coin()) enc.set_window_size(c.range(1, 12));
  if (c.chance(1, 5)) enc.set_code_type(ntc::systematic::no);
  dec.set_ack_nb_packets(static_cast<std::uint16_t>(c.pick<unsigned>({1, 2, 3, 50})));
  dec.set_ack_period(std::chrono::milliseconds{0});
  std::set<h::bytes> given;
  std::size_t checked = 0, seen = 0, nb_throws = 0, bad_checked = 0;
  std::map<std::uint32_t, h::bytes> by_id;
  std::map<h::bytes, std::uint32_t> ids;
  std::uint32_t last_repair = 0; bool have_repair = false;
  std::set<std::uint32_t> partial_repairs;
  std::map<std::uint32_t, std::size_t> partial_sources;
  std::size_t last_rank = 0; bool have_rank = false;
  std::deque<h::bytes> net;
  std::vector<h::bytes> history;
  bool to_judge_sent = false;
  (void)to_judge_sent;

  // run fn, possibly with a handler which throws at its n-th call
  const auto call = [&](const char* op, auto&& fn)
  {
    const bool arm = c.chance(1, 4);
    ch.countdown = arm ? static_cast<int>(c.draw(c.coin() ? 2 : 12)) : -1;
    ch.kind = arm ? static_cast<int>(c.draw(3)) : 0;
    const auto before = ch.thrown;
    bool caught = false;
    try { fn(); }
    catch (const boom& b) { caught = true; PBT_CHECK(ch.kind == 0 and b.n == 4242 + ch.thrown, "%s: not the exception that was thrown", op); }
    catch (const std::runtime_error& e) { caught = true; PBT_CHECK(ch.kind == 1 and e.what() == "handler " + std::to_string(ch.thrown), "%s: not the exception that was thrown (%s)", op, e.what()); }
    catch (const ntc::overflow_error&) { caught = true; PBT_CHECK(ch.kind == 2, "%s: not the exception that was thrown", op); }
    catch (int i) { caught = true; PBT_CHECK(ch.kind == 3 and i == 17, "%s: not the exception that was thrown", op); }
    const bool threw = ch.thrown != before;
    ch.countdown = -1;
    PBT_CHECK(caught == threw, threw ? "%s: the exception of the handler was swallowed" : "%s: an exception, although no handler threw", op);
    PBT_CHECK(ch.thrown - before <= 1, "%s: handlers were called again after having thrown", op);
    if (threw and out.current.size() >= 5)
    {
      // The handler got a part of a packet, or all of it but its end: its identifier is used.
      std::uint32_t id = 0;
      for (unsigned k = 1; k < 5; ++k) id = (id << 8) | static_cast<unsigned char>(out.current[k]);
      if (out.current[0] == 1) partial_repairs.insert(id);
      else if (out.current[0] == 2) partial_sources.emplace(id, truth.size() - 1);
    }
    if (threw) { ++nb_throws; out.current.clear(); acks.current.clear(); c.log("%s: handler threw", op); }
    else c.log("%s", op);
    // what was delivered
    for (; checked < good.size(); ++checked)
    {
      const auto& d = good[checked];
      const auto rank = h::tag_of(d);
      PBT_CHECK(rank < truth.size() and truth[rank] == d, "%s: delivered %zu bytes which were never sent", op, d.size());
      PBT_CHECK(given.insert(d).second, "%s: datum of rank %zu delivered again, although its handler had returned", op, rank);
      if (ordered)
      {
        PBT_CHECK(not have_rank or rank > last_rank, "%s: datum of rank %zu delivered after that of rank %zu", op, rank, last_rank);
        last_rank = rank; have_rank = true;
      }
    }
    for (; bad_checked < bad.size(); ++bad_checked)
    {
      const auto rank = h::tag_of(bad[bad_checked]);
      PBT_CHECK(rank < truth.size() and truth[rank] == bad[bad_checked], "%s: delivered (to a throwing handler) bytes which were never sent", op);
      PBT_CHECK(not given.count(bad[bad_checked]), "%s: datum of rank %zu delivered again, although its handler had returned", op, rank);
      if (ordered) PBT_CHECK(not have_rank or rank > last_rank, "%s: datum of rank %zu delivered after that of rank %zu", op, rank, last_rank);
    }
    // what was sent
    for (; seen < out.packets.size(); ++seen)
    {
      const auto p = ref::parse(out.packets[seen]);
      PBT_CHECK((p.type == 1 or p.type == 2) and p.used == out.packets[seen].size(), "%s: malformed packet sent", op);
      if (p.type == 2)
      {
        PBT_CHECK(not by_id.count(p.id) or by_id[p.id] == p.sym, "%s: identifier %u used for two data", op, p.id);
        by_id[p.id] = p.sym;
        const auto rank = h::tag_of(p.sym);
        PBT_CHECK(rank < truth.size() and truth[rank] == p.sym, "%s: source which is none of the data", op);
        PBT_CHECK(not ids.count(p.sym) or ids[p.sym] == p.id, "%s: datum sent with two identifiers", op);
        ids[p.sym] = p.id;
        const auto it = partial_sources.find(p.id);
        PBT_CHECK(it == partial_sources.end() or it->second == rank, "%s: identifier %u used again, after a handler threw while it was being sent", op, p.id);
      }
      else
      {
        PBT_CHECK(not have_repair or p.id > last_repair, "%s: identifier of repair %u used again", op, p.id);
        PBT_CHECK(not partial_repairs.count(p.id), "%s: identifier of repair %u used again, after a handler threw while it was being sent", op, p.id);
        have_repair = true; last_repair = p.id;
        // when all its data were seen on the wire, the repair is right
        ref::store win; bool all = true;
        for (auto id : p.ids) { const auto it = by_id.find(id); if (it == by_id.end()) { all = false; break; } win[id] = it->second; }
        if (all) PBT_CHECK(ref::encode_repair(ref::gf::get(w), p.id, win) == out.packets[seen], "%s: repair %u is wrong", op, p.id);
      }
      net.push_back(out.packets[seen]);
      history.push_back(out.packets[seen]);
    }
    for (auto& a : acks.packets) PBT_CHECK(ref::parse(a).type == 0, "%s: malformed ack", op);
  };
  std::size_t acks_fed = 0;
  const auto steps = c.log_range(4, 120);
  for (std::size_t i = 0; i < steps; ++i)
  {
    switch (c.weighted({25, 5, 35, 10, 8, 5, 4, 6}))
    {
      case 0:
      {
        const auto sz = std::max<std::size_t>(4, (c.range(4, 40) + word - 1) / word * word);
        truth.push_back(h::payload(c, sz, truth.size()));
        call("data", [&]{ enc(h::to_data(truth.back())); });
        break;
      }
      case 1: call("repair", [&]{ enc.generate_repair(); }); break;
      case 2: if (not net.empty()) { const auto p = net.front(); net.pop_front(); call(p[0] == 2 ? "source received" : "repair received", [&]{ dec(h::to_packet(p)); }); } break;
      case 3: if (not net.empty()) net.pop_front(); break;
      case 4: if (not net.empty()) { const auto k = c.draw(net.size() - 1); const auto p = net[k]; net.erase(net.begin() + static_cast<long>(k)); call("packet received", [&]{ dec(h::to_packet(p)); }); } break;
      case 5: if (not history.empty()) { const auto p = c.pick(history); call("duplicate received", [&]{ dec(h::to_packet(p)); }); } break;
      case 6: call("ack requested", [&]{ dec.generate_ack(); }); break;
      case 7: if (acks_fed < acks.packets.size()) { const auto p = acks.packets[acks_fed++]; call("ack received", [&]{ enc(h::to_packet(p)); }); } break;
    }
  }
  // No exception anymore: new data go through.
  const bool sys = enc.code_type() == ntc::systematic::yes;
  if (sys and nb_throws)
  {
    truth.push_back(h::payload(c, 8, truth.size()));
    const auto n = out.packets.size();
    enc(h::to_data(truth.back()));
    PBT_CHECK(out.packets.size() > n, "data not sent after a handler threw");
    const auto before = good.size();
    const auto p = ref::parse(out.packets[n]);
    dec(h::to_packet(out.packets[n]));
    if (not ordered) PBT_CHECK(good.size() > before and std::find(good.begin() + static_cast<long>(before), good.end(), truth.back()) != good.end(), "datum received after a handler threw was not delivered");
    (void)p;
    c.label("works afterwards");
  }
  if (not bad.empty()) c.label("data handler threw");
  c.label(ordered ? "in order" : "out of order");
  c.nontrivial(nb_throws > 0 and not good.empty());
  c.evaluations(good.size() + nb_throws);
  c.describe("w=" + std::to_string(w) + ": " + std::to_string(truth.size()) + " data, " + std::to_string(nb_throws) + " exceptions, " + std::to_string(good.size()) + " delivered");
}

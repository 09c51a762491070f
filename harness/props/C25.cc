#include "session.hh"
const char* const property_id = "C25";
// Once packets get through, everything which was sent ends up delivered, and the window empties.
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 16, 32, 4});
  const auto& f = ref::gf::get(w);
  const bool ordered = c.coin();
  h::packet_sink out, acks; h::data_sink data;
  h::encoder enc(static_cast<std::uint8_t>(w), h::packet_ref{&out});
  h::decoder dec(static_cast<std::uint8_t>(w), h::order(ordered), h::packet_ref{&acks}, h::data_ref{&data});
  enc.set_rate(c.pick<std::size_t>({5, 1, 2, 3, 10, 1000}));
  const bool systematic = c.chance(3, 4);
  enc.set_code_type(systematic ? ntc::systematic::yes : ntc::systematic::no);
  enc.set_adaptive(c.chance(1, 3));
  dec.set_ack_nb_packets(static_cast<std::uint16_t>(c.pick<unsigned>({5, 1, 2, 50, 128})));
  dec.set_ack_period(std::chrono::milliseconds{c.pick<unsigned>({0, 1, 100})});
  h::sizes sz(c, f.word(), 4, true);
  std::vector<h::bytes> truth;
  std::set<std::size_t> given;
  std::size_t taken = 0, acks_taken = 0, checked = 0, nb_lost = 0, nb_lost_acks = 0, nb_reordered = 0, nb_repairs = 0;
  std::deque<h::bytes> net;
  // equations received since the losses stopped
  std::vector<ref::parsed> equations;
  std::set<std::uint32_t> received;
  const auto judge = [&]
  {
    for (; checked < data.data.size(); ++checked) given.insert(h::tag_of(data.data[checked]));
  };
  const auto feed = [&](const h::bytes& b)
  {
    const auto p = ref::parse(b);
    PBT_CHECK(p.type == 1 or p.type == 2, "malformed packet sent");
    if (p.type == 2) received.insert(p.id); else equations.push_back(p);
    c.log("receive %s", h::session::show(p).c_str());
    dec(h::to_packet(b));
    judge();
  };
  const auto collect = [&] { for (; taken < out.packets.size(); ++taken) net.push_back(out.packets[taken]); };
  const auto phases = c.range(1, 3);
  const bool large = w >= 16 and c.chance(1, 500);    // with w = 8, inversions fail again and again
  const std::size_t max_window = large ? 1000 : w == 4 ? 6 : w == 8 ? 60 : 80;
  if (large) { sz.profile = 3; sz.fixed = c.pick<std::size_t>({8, 16, 20}); c.label("large"); enc.set_code_type(ntc::systematic::yes); }
  for (unsigned ph = 0; ph < phases; ++ph)
  {
    // Losses, in both directions.
    const auto loss = large ? c.pick<unsigned>({30, 20, 50}) : c.pick<unsigned>({30, 0, 10, 60, 90, 100}), aloss = large ? 100 : c.pick<unsigned>({50, 0, 100});
    const auto n = large ? c.log_range(100, 500) : c.chance(1, 4) ? c.log_range(1, 60) : c.range(1, 12);
    for (std::size_t k = 0; k < n and enc.window() < max_window; ++k)
    {
      truth.push_back(h::payload(c, sz(c), truth.size()));
      c.log("send #%zu", truth.size() - 1);
      enc(h::to_data(truth.back()));
      if (c.chance(1, 8)) enc.generate_repair();
      if (c.chance(1, 4)) virtual_now_ns() += 3000000;
      collect();
      while (not net.empty())
      {
        if (c.chance(1, 8)) break;    // delayed
        std::size_t i = 0;
        if (net.size() > 1 and c.chance(1, 6)) { i = c.draw(net.size() - 1); ++nb_reordered; }
        const auto b = net[i]; net.erase(net.begin() + static_cast<long>(i));
        if (c.draw(99) < loss) { ++nb_lost; c.log("lose %s", h::session::show(ref::parse(b)).c_str()); }
        else feed(b);
      }
      for (; acks_taken < acks.packets.size(); ++acks_taken)
      {
        if (c.draw(99) < aloss) ++nb_lost_acks; else enc(h::to_packet(h::bytes(acks.packets[acks_taken])));
      }
    }
    if (c.coin()) nb_lost += net.size(); else while (not net.empty()) { feed(net.front()); net.pop_front(); }
    net.clear();
    acks_taken = acks.packets.size();
    // Everything gets through from now on: repairs one way, acks the other way.
    equations.clear();
    const auto limit = 3 * enc.window() + 60;
    std::size_t k = 0;
    for (; k < limit and given.size() < truth.size(); ++k)
    {
      enc.generate_repair();
      ++nb_repairs;
      collect();
      while (not net.empty()) { feed(net.front()); net.pop_front(); }
      if (c.chance(1, 3)) dec.generate_ack();
      for (; acks_taken < acks.packets.size(); ++acks_taken) enc(h::to_packet(h::bytes(acks.packets[acks_taken])));
    }
    if (given.size() < truth.size())
    {
      // Was it possible? Everything never received in its own packet is unknown.
      std::map<std::uint32_t, std::size_t> col;
      for (auto& p : equations) for (auto id : p.ids) if (not received.count(id)) col.emplace(id, 0);
      std::size_t q = 0;
      for (auto& kv : col) kv.second = q++;
      std::vector<std::vector<std::uint32_t>> m;
      for (auto& p : equations)
      {
        std::vector<std::uint32_t> row(q, 0);
        for (auto id : p.ids) { const auto it = col.find(id); if (it != col.end()) row[it->second] = f.coeff(p.id, id); }
        m.push_back(row);
      }
      std::size_t absent = 0;
      for (std::size_t r = 0; r < truth.size(); ++r) if (not given.count(r) and not received.count(static_cast<std::uint32_t>(r)) and not col.count(static_cast<std::uint32_t>(r))) ++absent;
      const bool solvable = q == 0 or ref::rank(f, m) == q;
      PBT_CHECK(not solvable and absent == 0, "w=%u: %zu repairs received, enough for all of the %zu unknown data, yet %zu data of %zu were delivered (window %zu, %zu never sent again)"
               , w, equations.size(), q, given.size(), truth.size(), enc.window(), absent);
      c.label("not enough independent repairs");
      break;
    }
    // All acknowledged: nothing remains.
    dec.generate_ack();
    for (; acks_taken < acks.packets.size(); ++acks_taken) enc(h::to_packet(h::bytes(acks.packets[acks_taken])));
    PBT_CHECK(enc.window() == 0, "everything was delivered and acknowledged, but the window still holds %zu data", enc.window());
    PBT_CHECK(dec.nb_missing_sources() == 0, "everything was delivered, but %zu data are missing", dec.nb_missing_sources());
    PBT_CHECK(data.data.size() == truth.size(), "%zu data sent, %zu deliveries", truth.size(), data.data.size());
    if (ordered) PBT_CHECK(data.data == truth, "data delivered in order are not those sent");
    c.label("complete");
  }
  if (nb_lost) c.label("loss"); if (nb_lost_acks) c.label("lost acks"); if (nb_reordered) c.label("reordering");
  c.label(systematic or large ? "systematic" : "non-systematic");
  c.label("w:" + std::to_string(w));
  c.nontrivial(nb_lost > 0 and dec.nb_decoded() > 0);
  c.evaluations(data.data.size());
  c.describe("w=" + std::to_string(w) + (ordered ? ", in order: " : ", out of order: ") + std::to_string(truth.size()) + " data, " + std::to_string(nb_lost) + " packets and " + std::to_string(nb_lost_acks)
             + " acks lost, then " + std::to_string(nb_repairs) + " repairs: " + std::to_string(given.size()) + " delivered");
}

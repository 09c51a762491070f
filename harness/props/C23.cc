#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
std::string& dump_path() { static std::string p; return p; }
#define NTC_DUMP_PACKETS
#define NTC_DUMP_PACKETS_FILE dump_path()
#include "session.hh"
#include "mutate.hh"
#include "netcode/detail/serialize_packet.hh"
const char* const property_id = "C23";
int replay_main(int, const char**);
// Dumps of packets: what was received is read back, exactly; a truncated dump keeps its complete
// packets; replaying a dump gives what the original decoder gave.
namespace {
h::bytes content(const ntc::packet& p) { return h::bytes(p.begin(), p.end()); }
std::vector<h::bytes> read_all(std::istream& is, std::size_t limit)
{
  std::vector<h::bytes> res;
  while (res.size() <= limit)
  {
    const auto p = ntc::detail::serialize_packet::read(is);
    if (not is) break;
    res.push_back(content(p));
  }
  return res;
}
std::string scratch()
{
  // within the directory of the run, which is removed afterwards
  static const std::string dir = [] { char t[] = "./dumpXXXXXX"; const char* d = mkdtemp(t); return std::string(d ? d : "."); }();
  return dir + "/dump";
}
}
void run_case(pbt::Ctx& c)
{
  // 1. Packets one by one, of any content and size.
  if (c.chance(1, 3))
  {
    std::vector<h::bytes> packets;
    const auto n = c.range(1, 8);
    const bool large = c.chance(1, 5);
    for (unsigned k = 0; k < n; ++k)
      packets.push_back(c.bytes(large and c.chance(1, 3) ? c.pick<std::size_t>({65526, 65525, 65520, 40000, 32768, 32759, 32758, 4096}) : c.log_range(1, 1600)));
    std::stringstream ss;
    std::vector<std::size_t> ends;
    for (auto& b : packets)
    {
      auto p = h::to_packet(b);
      if (c.chance(1, 4)) { p.reserve(b.size() + c.range(1, 300)); }
      if (c.chance(1, 4)) { auto v = h::bytes(b); v.resize(b.size() + c.range(1, 50)); p.assign(v.begin(), v.end()); p.assign(b.begin(), b.end()); }
      ntc::detail::serialize_packet::write(ss, p);
      PBT_CHECK(content(p) == b, "writing a packet changed it");
      ends.push_back(ss.str().size());
    }
    const auto whole = ss.str();
    {
      std::istringstream is(whole);
      const auto back = read_all(is, n + 1);
      PBT_CHECK(back == packets, "%zu packets written, %zu read back%s", packets.size(), back.size(), back.size() == packets.size() ? ", which are different" : "");
    }
    // cut anywhere
    for (unsigned t = 0; t < 4; ++t)
    {
      const auto cut = c.chance(1, 3) ? ends[c.draw(n - 1)] - c.draw(3) : c.draw(whole.size());
      std::istringstream is(whole.substr(0, cut));
      const auto back = read_all(is, n + 1);
      std::size_t complete = 0;
      while (complete < n and ends[complete] <= cut) ++complete;
      PBT_CHECK(back.size() == complete and std::equal(back.begin(), back.end(), packets.begin()), "dump cut at byte %zu of %zu, with %zu complete packets: %zu packets read back", cut, whole.size(), complete, back.size());
    }
    c.label("direct");
    c.nontrivial(n > 1);
    c.evaluations(n * 5);
    c.describe("direct: " + std::to_string(n) + " packets, " + std::to_string(whole.size()) + " bytes");
    return;
  }
  // 2. A decoder which dumps what it receives.
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const bool ordered = c.coin();
  const bool hostile = c.chance(1, 3);
  h::packet_sink out, acks, acks2; h::data_sink data, data2;
  h::encoder enc(static_cast<std::uint8_t>(w), h::packet_ref{&out});
  enc.set_rate(c.range(1, 4));
  h::sizes sz(c, ref::gf::get(w).word(), 4, false);
  dump_path() = scratch();
  std::vector<h::bytes> received;
  std::size_t nb_decoded = 0;
  std::string how;
  bool refused = false;
  {
    h::decoder dec(static_cast<std::uint8_t>(w), h::order(ordered), h::packet_ref{&acks}, h::data_ref{&data});
    dec.set_ack_period(std::chrono::milliseconds{0});
    const auto n = c.range(1, 30);
    std::size_t taken = 0;
    const auto feed = [&](const h::bytes& b)
    {
      received.push_back(b);
      try
      {
        if (c.coin()) { const auto p = h::to_packet(b); dec(p); }
        else dec(h::to_packet(b));
      }
      catch (const ntc::packet_type_error&) { refused = true; }
      catch (const ntc::overflow_error&) { refused = true; }
    };
    for (unsigned k = 0; k < n; ++k)
    {
      enc(h::to_data(h::payload(c, sz(c), k)));
      for (; taken < out.packets.size(); ++taken)
      {
        if (c.chance(1, 4)) continue;
        feed(out.packets[taken]);
        if (c.chance(1, 10)) feed(out.packets[c.draw(taken)]);
        if (hostile and c.chance(1, 6))
        {
          const auto b = c.coin() ? h::garbage_packet(c, n) : h::mutate(c, out.packets[taken], nullptr);
          if (not b.empty() and not h::too_many_ids(b)) feed(b);
        }
      }
    }
    nb_decoded = dec.nb_decoded();
  }
  std::ifstream is(scratch());
  const auto back = read_all(is, received.size() + 1);
  PBT_CHECK(back == received, "%zu packets received, %zu found in the dump%s", received.size(), back.size(), back.size() == received.size() ? ", which are different" : "");
  is.close();
  // Replayed: same deliveries, same acks.
  {
    dump_path() = "/dev/null";
    std::ifstream again(scratch());
    h::decoder dec(static_cast<std::uint8_t>(w), h::order(ordered), h::packet_ref{&acks2}, h::data_ref{&data2});
    dec.set_ack_period(std::chrono::milliseconds{0});
    for (std::size_t k = 0; k <= received.size() + 1; ++k)
    {
      auto p = ntc::detail::serialize_packet::read(again);
      if (not again) break;
      try { dec(std::move(p)); } catch (const ntc::packet_type_error&) {} catch (const ntc::overflow_error&) {}
    }
  }
  PBT_CHECK(data.data == data2.data, "replaying the dump delivers %zu data instead of %zu (or different ones)", data2.data.size(), data.data.size());
  PBT_CHECK(acks.packets == acks2.packets, "replaying the dump sends different acks");
  // The tool (w = 8, in order) goes through it.
  if (c.chance(1, 2))
  {
    std::ostringstream err;
    auto* old = std::cerr.rdbuf(err.rdbuf());
    const auto path = scratch();
    const char* argv[] = {"replay", path.c_str(), nullptr};
    const int rc = replay_main(2, argv);
    std::cerr.rdbuf(old);
    PBT_CHECK(rc == 0, "the replay tool returned %d", rc);
    if (not refused and w == 8) PBT_CHECK(err.str().empty(), "the replay tool complains about a dump of valid packets: %s", err.str().c_str());
    if (refused) PBT_CHECK(not err.str().empty(), "the replay tool says nothing about a dump which holds an invalid packet");
    c.label("tool");
  }
  ::unlink(scratch().c_str());
  c.label("decoder"); c.label("w:" + std::to_string(w));
  if (hostile) c.label("hostile packets"); if (refused) c.label("refused packets"); if (nb_decoded) c.label("decoding");
  c.nontrivial(nb_decoded > 0);
  c.evaluations(received.size());
  c.describe("decoder w=" + std::to_string(w) + ": " + std::to_string(received.size()) + " packets dumped, " + std::to_string(nb_decoded) + " decoded");
}

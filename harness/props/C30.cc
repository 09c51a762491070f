#include "net.hh"
#include "mutate.hh"
const char* const property_id = "C30";
int forwarder_main(int, const char**);
// The source forwarder sends the bytes of each datum which passes by, and nothing else.
void run_case(pbt::Ctx& c)
{
  net::socket_ a, b;
  net::tool t([&](std::uint16_t port)
  {
    const auto p = std::to_string(port), q = std::to_string(b.port);
    const char* argv[] = {"forwarder", p.c_str(), "127.0.0.1", q.c_str(), nullptr};
    forwarder_main(4, argv);
  });
  a.to(t.port);
  std::size_t sources = 0, others = 0, malformed = 0;
  net::bytes got;
  const auto exchange = [&](std::size_t n)
  {
    std::vector<net::bytes> expected;
    for (std::size_t k = 0; k < n; ++k)
    {
      const auto id = static_cast<std::uint32_t>(c.log_range(0, 0xffffffff));
      const auto sym = c.bytes(c.chance(1, 8) ? c.pick<std::size_t>({4089, 4088, 2048}) : c.log_range(1, 1500));
      auto pkt = ref::mk_source(id, sym);
      switch (c.weighted({8, 2, 2, 2, 3}))
      {
        case 0:
          if (pkt.size() < 4096 and c.chance(1, 6)) { const auto more = c.bytes(c.range(1, std::min<std::size_t>(4096 - pkt.size(), 9))); pkt.insert(pkt.end(), more.begin(), more.end()); }
          c.log("source of %zu bytes", sym.size()); a.send(pkt); expected.push_back(sym); ++sources; break;
        case 1: c.log("ack"); a.send(ref::mk_ack(3, {1, 2, 5})); ++others; break;
        case 2: { ref::ids_t ids{1, 2, 3}; c.log("repair"); auto r = ref::mk_repair(id, net::bytes(sym.begin(), sym.begin() + static_cast<std::ptrdiff_t>(std::min<std::size_t>(sym.size(), 2000))), ids, 12); a.send(r); ++others; break; }
        case 3: { auto x = c.bytes(c.log_range(1, 60)); if (x[0] == 2) x[0] = 3; c.log("garbage"); a.send(x); ++others; break; }
        default:
        {
          // a truncated source
          pkt.resize(c.range(1, pkt.size() - 1));
          c.log("source of %zu bytes, truncated to %zu", sym.size(), pkt.size()); a.send(pkt); ++malformed; break;
        }
      }
    }
    for (std::size_t k = 0; k < expected.size(); ++k)
    {
      PBT_CHECK(b.receive(got, 3000, [&] { return t.alive(); }), "%zu source(s) were not forwarded%s", expected.size() - k, t.alive() ? "" : " (the tool stopped)");
      PBT_CHECK(got == expected[k], "forwarded %zu bytes (%s) which aren't the %zu bytes expected", got.size(), pbt::hex(got, 12).c_str(), expected[k].size());
    }
  };
  const auto rounds = c.range(1, 6);
  for (std::size_t r = 0; r < rounds; ++r) exchange(c.range(1, 12));
  // A last source: nothing else comes before.
  const auto sym = c.bytes(10);
  a.send(ref::mk_source(7, sym));
  PBT_CHECK(b.receive(got, 3000, [&] { return t.alive(); }), "the last source was not forwarded%s", t.alive() ? "" : " (the tool stopped)");
  PBT_CHECK(got == sym, "forwarded %zu bytes (%s) which aren't those of a source", got.size(), pbt::hex(got, 12).c_str());
  PBT_CHECK(not b.receive(got, 0), "forwarded %zu bytes too many", got.size());
  if (malformed) c.label("truncated sources"); if (others) c.label("other packets");
  c.nontrivial(sources > 0 and others + malformed > 0);
  c.evaluations(sources + others + malformed);
  c.describe(std::to_string(sources) + " sources, " + std::to_string(others) + " other packets, " + std::to_string(malformed) + " truncated sources");
}

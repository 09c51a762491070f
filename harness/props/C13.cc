#include "coders.hh"
#include "model.hh"
#include "netcode/detail/packetizer.hh"
const char* const property_id = "C13";
// Packets survive the wire: what is written is read back identical, by the library and by an
// independent codec; exactly the packet is consumed; strict prefixes are rejected, trailing bytes
// are ignored.
using namespace ntc::detail;
namespace {
ref::ids_t gen_ids(pbt::Ctx& c)
{
  ref::ids_t v;
  std::uint64_t cur = c.chance(1, 5) ? c.draw(0xffffffffu) : c.pick<std::uint64_t>({0, 1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0xffffff00u, 0xfffffffeu});
  const auto shape = c.draw(5);
  const auto n = c.weighted({1, 8, 3}) == 0 ? 0 : c.log_range(1, shape == 0 ? 1200 : 300);
  const auto stride = c.pick<std::uint64_t>({1, 2, 3, 255, 256, 65535, 65536});
  const auto run = c.pick<std::uint64_t>({1, 2, 254, 255, 256, 257, 510, 511, 512});
  std::uint64_t in_run = 0;
  for (std::size_t i = 0; i < n and cur <= 0xffffffffu; ++i)
  {
    v.push_back(static_cast<std::uint32_t>(cur));
    switch (shape)
    {
      case 0: cur += 1; break;                                       // contiguous
      case 1: cur += c.range(1, 3); break;                           // small holes
      case 2: cur += stride; break;                                  // regular
      case 3: ++in_run; cur += in_run % (run + 1) == 0 ? 2 : 1; break; // runs around the maximal length
      case 4: cur += c.pick<std::uint64_t>({1, 1, 1, 2, 254, 255, 256, 65534, 65535, 65536, 65537, 131071, 131072, 1000000, 0x1000000}); break;
      case 5: cur += c.log_range(1, 0x3ffffff); break;
    }
  }
  return v;
}
source_id_list to_list(const ref::ids_t& v) { return source_id_list(v.begin(), v.end()); }
bool same(const source_id_list& l, const ref::ids_t& v) { return l.size() == v.size() and std::equal(l.begin(), l.end(), v.begin()); }
}
void run_case(pbt::Ctx& c)
{
  h::packet_sink sink;
  h::packet_ref ref_handler{&sink};
  packetizer<h::packet_ref> pz(ref_handler);
  const auto nb = c.range(1, 3);   // several packets through the same packetizer
  for (unsigned k = 0; k < nb; ++k)
  {
    const auto type = c.draw(2);
    h::bytes sym;
    ref::ids_t ids;
    std::uint32_t id = 0, es = 0;
    std::uint16_t np = 0;
    if (type != 0)
    {
      id = static_cast<std::uint32_t>(c.coin() ? c.draw(0xffffffffu) : c.pick<std::uint64_t>({0, 1, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu}));
      auto sz = c.weighted({8, 8, 1}) == 0 ? c.range(1, 40) : c.log_range(1, 2000);
      if (c.chance(1, 20)) sz = c.pick<std::size_t>({255, 256, 257, 32767, 32768, 65534, 65535});
      sym = c.bytes(sz);
    }
    if (type != 2) ids = gen_ids(c);
    if (type == 1 and ids.empty()) ids.push_back(static_cast<std::uint32_t>(c.draw(0xffffffffu)));
    const auto before = sink.packets.size();
    h::bytes expected;
    switch (type)
    {
      case 0:
      {
        np = static_cast<std::uint16_t>(c.draw(65535));
        ntc::detail::ack a(to_list(ids), np);
        pz.write_ack(a);
        expected = ref::mk_ack(np, ids);
        break;
      }
      case 1:
      {
        es = static_cast<std::uint32_t>(c.draw(0xffffffffu));
        encoder_repair r(id, es, to_list(ids), zero_byte_buffer(sym.begin(), sym.end()));
        pz.write_repair(r);
        expected = ref::mk_repair(id, sym, ids, es);
        break;
      }
      case 2:
      {
        encoder_source s(id, byte_buffer(sym.begin(), sym.end()));
        pz.write_source(s);
        expected = ref::mk_source(id, sym);
        break;
      }
    }
    PBT_CHECK(sink.packets.size() == before + 1 and sink.current.empty(), "writing a packet marked %zu end(s) of packet", sink.packets.size() - before);
    const auto bytes = sink.packets.back();
    c.log("type %d id %u symbol %zu bytes, %zu ids, packet %zu bytes: %s", int(type), id, sym.size(), ids.size(), bytes.size(), pbt::hex(bytes, 64).c_str());

    // The independent codec agrees.
    const auto p = ref::parse(bytes);
    PBT_CHECK(p.type == int(type), "packet of type %d written as %d", int(type), p.type);
    PBT_CHECK(p.used == bytes.size(), "packet of %zu bytes has %zu significant ones", bytes.size(), p.used);
    PBT_CHECK(p.id == id and p.sym == sym and p.encoded_size == es and p.nb_packets == np, "fields are not those written");
    PBT_CHECK(p.ids == ids, "identifiers are not those written (%zu read, %zu written)", p.ids.size(), ids.size());

    // The library reads it back, whoever encoded it; trailing bytes don't matter.
    const auto read = [&](const h::bytes& b, std::size_t len)
    {
      switch (type)
      {
        case 0:
        {
          const auto r = pz.read_ack(h::to_packet(b));
          PBT_CHECK(r.second == len, "ack: %zu bytes consumed instead of %zu", r.second, len);
          PBT_CHECK(r.first.nb_packets() == np, "ack: nb_packets is %u instead of %u", r.first.nb_packets(), np);
          PBT_CHECK(same(r.first.source_ids(), ids), "ack: identifiers differ");
          break;
        }
        case 1:
        {
          const auto r = pz.read_repair(h::to_packet(b));
          PBT_CHECK(r.second == len, "repair: %zu bytes consumed instead of %zu", r.second, len);
          PBT_CHECK(r.first.id() == id and r.first.encoded_size() == es, "repair: fields differ");
          PBT_CHECK(same(r.first.source_ids(), ids), "repair: identifiers differ");
          PBT_CHECK(r.first.symbol_size() == sym.size() and std::equal(sym.begin(), sym.end(), r.first.symbol()), "repair: symbol differs");
          PBT_CHECK(reinterpret_cast<std::uintptr_t>(r.first.symbol()) % 16 == 0, "repair: symbol not aligned");
          break;
        }
        case 2:
        {
          const auto r = pz.read_source(h::to_packet(b));
          PBT_CHECK(r.second == len, "source: %zu bytes consumed instead of %zu", r.second, len);
          PBT_CHECK(r.first.id() == id, "source: identifier differs");
          PBT_CHECK(r.first.symbol_size() == sym.size() and std::equal(sym.begin(), sym.end(), r.first.symbol()), "source: symbol differs");
          PBT_CHECK(reinterpret_cast<std::uintptr_t>(r.first.symbol()) % 16 == 0, "source: symbol not aligned");
          break;
        }
      }
    };
    read(bytes, bytes.size());
    read(expected, expected.size());
    auto longer = bytes;
    const auto extra = c.bytes(c.range(1, 12));
    longer.insert(longer.end(), extra.begin(), extra.end());
    read(longer, bytes.size());

    // Strict prefixes: all of them when there are few, else those around the fields.
    const auto reject = [&](std::size_t n)
    {
      const h::bytes t(bytes.begin(), bytes.begin() + static_cast<long>(n));
      bool thrown = false;
      try
      {
        if (type == 0) pz.read_ack(h::to_packet(t)); else if (type == 1) pz.read_repair(h::to_packet(t)); else pz.read_source(h::to_packet(t));
      }
      catch (const ntc::overflow_error&) { thrown = true; }
      PBT_CHECK(thrown, "the first %zu bytes of a packet of %zu bytes were accepted", n, bytes.size());
    };
    if (bytes.size() <= 80) for (std::size_t n = 1; n < bytes.size(); ++n) reject(n);
    else
    {
      for (std::size_t n = 1; n <= 12; ++n) { reject(n); reject(bytes.size() - n); }
      for (unsigned n = 0; n < 8; ++n) reject(c.range(1, bytes.size() - 1));
      const auto s = 7 + sym.size();
      for (std::size_t n = s > 3 ? s - 2 : 1; n < s + 9 and n < bytes.size(); ++n) reject(n);
    }
    read(bytes, bytes.size());   // rejections left the reader intact
    c.label(type == 0 ? "ack" : type == 1 ? "repair" : "source");
    if (ids.size() > 256) c.label("ids>256");
    for (std::size_t i = 1; i < ids.size(); ++i) if (ids[i] - ids[i - 1] > 65535) { c.label("gap>65535"); break; }
    if (sym.size() > 60000) c.label("symbol>60000");
    c.nontrivial(ids.size() >= 2 or sym.size() >= 2);
    if (k == 0) c.describe(std::string(type == 0 ? "ack" : type == 1 ? "repair" : "source") + " id " + std::to_string(id) + ", symbol of " + std::to_string(sym.size())
               + " bytes, " + std::to_string(ids.size()) + " ids, " + std::to_string(bytes.size()) + " bytes: " + pbt::hex(bytes, 32));
    c.evaluations(std::min<std::size_t>(bytes.size(), 80) + 4);
  }
  // The public coders consume exactly one packet, too.
  {
    h::packet_sink a; h::data_sink d;
    h::decoder dec(8, ntc::in_order::no, h::packet_ref{&a}, h::data_ref{&d});
    const auto sym = c.bytes(c.range(1, 30));
    auto s = ref::mk_source(3, sym);
    const auto len = s.size();
    const auto n = c.range(0, 9);
    for (unsigned i = 0; i < n; ++i) s.push_back(static_cast<char>(i));
    PBT_CHECK(dec(h::to_packet(s)) == len, "the decoder didn't return the length of the source");
    PBT_CHECK(d.data.size() == 1 and d.data[0] == sym, "the decoder didn't deliver the datum");
    ref::store win{{3, sym}, {4, c.bytes(c.range(1, 30))}};
    auto r = ref::encode_repair(ref::gf::get(8), 5, win);
    const auto rlen = r.size();
    for (unsigned i = 0; i < n; ++i) r.push_back(static_cast<char>(i));
    PBT_CHECK(dec(h::to_packet(r)) == rlen, "the decoder didn't return the length of the repair");
    PBT_CHECK(d.data.size() == 2 and d.data[1] == win[4], "the decoder didn't deliver the repaired datum");
  }
}

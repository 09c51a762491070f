// A scripted session: an encoder and a decoder driven by a list of operations which is fixed in
// advance, and the trace of everything observable.
#pragma once
#include "mutate.hh"
#include "netcode/dispatch.hh"

namespace h {

struct op_t { unsigned kind; std::uint64_t a = 0, b = 0; bytes payload; };

struct script_t
{
  unsigned w = 8;
  bool ordered = false;
  std::vector<op_t> ops;
};

inline script_t gen_script(pbt::Ctx& c, std::size_t max_ops, bool hostile = true)
{
  script_t s;
  s.w = c.pick<unsigned>({8, 4, 16, 32});
  s.ordered = c.coin();
  const auto word = ref::gf::get(s.w).word();
  const auto n = c.coin() ? c.range(max_ops / 4, max_ops) : c.log_range(2, max_ops);
  for (std::size_t i = 0; i < n; ++i)
  {
    op_t o;
    o.kind = static_cast<unsigned>(c.weighted({24, 26, 8, 5, 4, 2, 2, 2, 2, 2, 2, hostile ? 5u : 0u, hostile ? 4u : 0u}));
    switch (o.kind)
    {
      case 0: o.payload = c.bytes(word * (c.chance(1, 30) ? c.log_range(1, 3000) : c.range(1, 12))); break;   // data
      case 1: o.b = c.weighted({6, 2, 1}); o.a = o.b == 2 ? c.draw(40) : 0; break;                                 // next packet to the decoder, or lost, or an old one
      case 2: o.a = c.weighted({3, 1}) == 0 ? 0 : 1 + c.draw(10); break;                                         // ack to the encoder
      case 3: break;                                                                                              // repair
      case 4: break;                                                                                              // ack
      case 5: o.a = c.pick<std::uint64_t>({5, 1, 2, 3, 50}); break;                                               // rate
      case 6: o.a = c.pick<std::uint64_t>({1, 2, 3, 5, 10, ~0ull}); break;                                        // window
      case 7: o.a = c.draw(1); break;                                                                             // adaptive
      case 8: o.a = c.draw(1); break;                                                                             // code type
      case 9: o.a = c.pick<std::uint64_t>({0, 1, 10, 100, 1000}); break;                                          // period
      case 10: o.a = c.pick<std::uint64_t>({1, 2, 3, 50, 128, 200}); break;                                       // nb packets
      case 11: o.payload = garbage_packet(c, 20); o.a = c.draw(2); if (o.payload.empty() or too_many_ids(o.payload)) o.kind = 3; break;
      case 12: o.a = c.draw(40); o.b = c.draw(0xffff); break;                                                     // packet with a byte changed
    }
    s.ops.push_back(std::move(o));
  }
  return s;
}

struct trace_t
{
  std::vector<bytes> sent, acks, data;
  std::vector<std::uint64_t> results;
  bool operator==(const trace_t& o) const { return sent == o.sent and acks == o.acks and data == o.data and results == o.results; }
};

// overloads: 0: moved objects; 1: const objects, which must be left intact
class world
{
public:
  world(const script_t& s)
    : m_s(s), m_enc(static_cast<std::uint8_t>(s.w), packet_ref{&m_out}), m_dec(static_cast<std::uint8_t>(s.w), order(s.ordered), packet_ref{&m_acks}, data_ref{&m_data})
  {}
  bool done() const { return m_pos == m_s.ops.size(); }
  void step(bool copies)
  {
    const auto& o = m_s.ops[m_pos++];
    switch (o.kind)
    {
      case 0:
        if (copies) { const auto d = to_data(o.payload); m_enc(d); PBT_CHECK(bytes(d.begin(), d.end()) == o.payload, "the caller's data was modified"); }
        else m_enc(to_data(o.payload));
        break;
      case 1:
        if (o.b == 2) feed(pick(m_out.packets, o.a), 0, copies);
        else if (m_next < m_out.packets.size()) { ++m_next; if (o.b == 0) feed(m_out.packets[m_next - 1], 0, copies); }
        break;
      case 2: feed(pick(m_acks.packets, o.a), 1, copies); break;
      case 3: m_enc.generate_repair(); break;
      case 4: m_dec.generate_ack(); break;
      case 5: m_enc.set_rate(o.a); break;
      case 6: m_enc.set_window_size(o.a); break;
      case 7: m_enc.set_adaptive(o.a); break;
      case 8: m_enc.set_code_type(o.a ? ntc::systematic::no : ntc::systematic::yes); break;
      case 9: m_dec.set_ack_period(std::chrono::milliseconds{o.a}); break;
      case 10: m_dec.set_ack_nb_packets(static_cast<std::uint16_t>(o.a)); break;
      case 11: feed(o.payload, static_cast<unsigned>(o.a), copies); break;
      case 12:
      {
        auto b = pick(m_out.packets, o.a);
        if (b.empty()) break;
        b[o.b % b.size()] = static_cast<char>(b[o.b % b.size()] ^ (1 + (o.b >> 8)));
        if (not too_many_ids(b)) feed(b, 0, copies);
        break;
      }
    }
    note(m_enc.window()); note(m_enc.rate()); note(m_enc.nb_sent_repairs()); note(m_enc.nb_sent_sources()); note(m_enc.nb_received_acks());
    note(m_dec.nb_missing_sources()); note(m_dec.nb_decoded()); note(m_dec.nb_useless_repairs()); note(m_dec.nb_received_repairs());
    note(m_dec.nb_received_sources()); note(m_dec.nb_sent_acks()); note(m_dec.nb_failed_full_decodings());
  }
  trace_t trace() const { return {m_out.packets, m_acks.packets, m_data.data, m_results}; }
  std::size_t nb_decoded() const { return m_dec.nb_decoded(); }
  // f is called from within handlers
  void hook(const std::function<void()>& f) { m_out.hook = m_acks.hook = m_data.hook = f; }
private:
  static bytes pick(const std::vector<bytes>& v, std::uint64_t back) { return v.empty() ? bytes{} : v[v.size() - 1 - back % v.size()]; }
  void note(std::uint64_t v) { m_results.push_back(v); }
  void feed(const bytes& b, unsigned where, bool copies)
  {
    if (b.empty()) return;
    try
    {
      std::size_t n = 0;
      if (copies and where != 2)
      {
        const auto p = to_packet(b);
        struct intact { const ntc::packet& p; const bytes& b; bool ok() { return bytes(p.begin(), p.end()) == b; } } k{p, b};
        try { n = where == 1 ? m_enc(p) : m_dec(p); }
        catch (...) { PBT_CHECK(k.ok(), "the caller's packet was modified"); throw; }
        PBT_CHECK(k.ok(), "the caller's packet was modified");
      }
      else n = where == 1 ? m_enc(to_packet(b)) : where == 2 ? ntc::dispatch(m_enc, m_dec, to_packet(b)) : m_dec(to_packet(b));
      note(n);
    }
    catch (const ntc::packet_type_error&) { note(~0ull); }
    catch (const ntc::overflow_error&) { note(~0ull - 1); }
  }
  const script_t& m_s;
  packet_sink m_out, m_acks;
  data_sink m_data;
  ntc::encoder<packet_ref> m_enc;
  ntc::decoder<packet_ref, data_ref> m_dec;
  std::vector<std::uint64_t> m_results;
  std::size_t m_pos = 0, m_next = 0;
};

inline void same_traces(const trace_t& a, const trace_t& b, const char* how)
{
  PBT_CHECK(a.sent == b.sent, "%s: the packets sent differ", how);
  PBT_CHECK(a.data == b.data, "%s: the data delivered differ", how);
  PBT_CHECK(a.acks == b.acks, "%s: the acks differ", how);
  PBT_CHECK(a.results == b.results, "%s: results or statistics differ", how);
}

} // namespace h

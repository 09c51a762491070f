#include "mutate.hh"
#include <functional>
#include <memory>
const char* const property_id = "C32";
// Coders own their handlers, whatever they are: what is emitted goes to the handler held at that
// moment, which accessors give. The same operations, given to coders with plain handlers, tell what
// must be emitted.
namespace {
struct value_packets
{
  std::vector<h::bytes> packets; h::bytes current;
  void operator()(const char* d, std::size_t n) { current.insert(current.end(), d, d + n); }
  void operator()() { packets.push_back(current); current.clear(); }
};
struct value_data
{
  std::vector<h::bytes> data;
  void operator()(const char* d, std::size_t n) { data.emplace_back(d, d + n); }
};
// Neither copyable nor assignable from a copy.
template <typename T> struct unique : T
{
  std::unique_ptr<int> token{new int{42}};
  unique() = default; unique(unique&&) = default; unique& operator=(unique&&) = default;
};
// Calls itself as const, and counts copies
template <typename T> struct counted : T
{
  static std::size_t& live() { static std::size_t n = 0; return n; }
  counted() { ++live(); } counted(const counted& o) : T(o) { ++live(); } counted(counted&& o) : T(std::move(o)) { ++live(); }
  counted& operator=(const counted&) = default; counted& operator=(counted&&) = default;
  ~counted() { --live(); }
};

// std::function can't be called both ways: a wrapper of two of them
struct erased_packets
{
  std::function<void(const char*, std::size_t)> f; std::function<void()> g;
  std::shared_ptr<value_packets> t;
  std::vector<h::bytes>& packets; h::bytes& current;
  erased_packets() : erased_packets(std::make_shared<value_packets>()) {}
  explicit erased_packets(std::shared_ptr<value_packets> p) : f([p](const char* d, std::size_t n) { (*p)(d, n); }), g([p] { (*p)(); }), t(p), packets(p->packets), current(p->current) {}
  erased_packets(const erased_packets&) : erased_packets() {}    // copies are independent
  erased_packets& operator=(const erased_packets&) { t->packets.clear(); t->current.clear(); return *this; }
  void operator()(const char* d, std::size_t n) const { f(d, n); }
  void operator()() const { g(); }
};

template <typename H> std::vector<h::bytes> take_packets(H& x) { PBT_CHECK(x.current.empty(), "bytes were given to a handler without an end of packet"); auto r = std::move(x.packets); x.packets.clear(); return r; }
template <typename H> std::vector<h::bytes> take_data(H& x) { auto r = std::move(x.data); x.data.clear(); return r; }

struct script
{
  unsigned w; bool ordered;
  std::size_t rate; std::uint16_t nb; bool systematic;
};

template <typename P, typename D>
void make(std::true_type, std::unique_ptr<ntc::encoder<P>>& e, std::unique_ptr<ntc::decoder<P, D>>& d, const script& s, P& ph, P& ah, D& dh)
{
  e.reset(new ntc::encoder<P>(static_cast<std::uint8_t>(s.w), ph));
  const P& cah = ah; const D& cdh = dh;
  d.reset(new ntc::decoder<P, D>(static_cast<std::uint8_t>(s.w), h::order(s.ordered), cah, cdh));
}
template <typename P, typename D>
void make(std::false_type, std::unique_ptr<ntc::encoder<P>>& e, std::unique_ptr<ntc::decoder<P, D>>& d, const script& s, P& ph, P& ah, D& dh)
{
  e.reset(new ntc::encoder<P>(static_cast<std::uint8_t>(s.w), std::move(ph)));
  d.reset(new ntc::decoder<P, D>(static_cast<std::uint8_t>(s.w), h::order(s.ordered), std::move(ah), std::move(dh)));
}

// P: handler of packets of the encoder and of the decoder; D: handler of data
template <typename P, typename D, bool copyable>
void session(pbt::Ctx& c, const script& s, const char* what)
{
  h::packet_sink eo, ao; h::data_sink dout;
  h::encoder e0(static_cast<std::uint8_t>(s.w), h::packet_ref{&eo});
  h::decoder d0(static_cast<std::uint8_t>(s.w), h::order(s.ordered), h::packet_ref{&ao}, h::data_ref{&dout});
  P ph, ah; D dh;
  // what an lvalue handler already holds is copied with it, and it is left alone
  const bool lvalue = copyable and c.coin();
  const bool plain = not std::is_same<P, erased_packets>::value;    // copies hold the same
  const std::vector<h::bytes> mark{h::bytes{'m', 'a', 'r', 'k'}};
  if (plain) ph.packets = ah.packets = mark;
  dh.data = mark;
  std::unique_ptr<ntc::encoder<P>> enc; std::unique_ptr<ntc::decoder<P, D>> dec;
  if (lvalue) make(std::integral_constant<bool, copyable>{}, enc, dec, s, ph, ah, dh);
  else make(std::false_type{}, enc, dec, s, ph, ah, dh);
  const auto setup = [&](auto& e, auto& d)
  {
    e.set_rate(s.rate); e.set_code_type(s.systematic ? ntc::systematic::yes : ntc::systematic::no);
    d.set_ack_nb_packets(s.nb); d.set_ack_period(std::chrono::milliseconds{0});
  };
  setup(e0, d0); setup(*enc, *dec);
  const auto& cenc = *enc; const auto& cdec = *dec;
  const void* const where[] = {&enc->packet_handler(), &dec->packet_handler(), &dec->data_handler()};
  std::size_t e_seen = 0, a_seen = 0, d_seen = 0, nb = 0, replaced = 0, given = 0, emitted = 0;
  const auto word = ref::gf::get(s.w).word();
  const auto expect = [&](std::vector<h::bytes> got, const std::vector<h::bytes>& all, std::size_t& seen, const char* who)
  {
    PBT_CHECK(got.size() == all.size() - seen, "%s: %s was given %zu items instead of %zu", what, who, got.size(), all.size() - seen);
    for (std::size_t i = 0; i < got.size(); ++i) PBT_CHECK(got[i] == all[seen + i], "%s: %s was given something else", what, who);
    emitted += got.size();
    seen = all.size();
  };
  const auto check = [&]
  {
    PBT_CHECK(&cenc.packet_handler() == where[0] and &enc->packet_handler() == where[0] and &cdec.packet_handler() == where[1] and &dec->packet_handler() == where[1]
              and &cdec.data_handler() == where[2] and &dec->data_handler() == where[2], "%s: accessors don't give the handler of the coder", what);
    expect(take_packets(enc->packet_handler()), eo.packets, e_seen, "the encoder's handler");
    expect(take_packets(dec->packet_handler()), ao.packets, a_seen, "the decoder's packet handler");
    expect(take_data(dec->data_handler()), dout.data, d_seen, "the decoder's data handler");
    const auto& untouched = plain ? mark : std::vector<h::bytes>{};
    if (lvalue) PBT_CHECK(ph.packets == untouched and ph.current.empty() and ah.packets == untouched and ah.current.empty() and dh.data == mark, "%s: the caller's handler was used instead of the copy of it", what);
  };
  // what handlers held is still there, once
  if (plain) PBT_CHECK(take_packets(enc->packet_handler()) == mark and take_packets(dec->packet_handler()) == mark, "%s: packet handlers of coders are not those given", what);
  PBT_CHECK(take_data(dec->data_handler()) == mark, "%s: the data handler of the decoder is not the one given", what);
  check();
  const auto steps = c.log_range(4, 60);
  std::size_t next = 0;
  for (std::size_t k = 0; k < steps; ++k)
  {
    switch (c.weighted({10, 10, 3, 2, 3, 4}))
    {
      case 0: { const auto b = c.bytes(word * c.range(1, 10)); c.log("commit"); e0(h::to_data(b)); (*enc)(h::to_data(b)); ++nb; break; }
      case 1:
        if (next < eo.packets.size())
        {
          const auto b = eo.packets[next++];
          if (c.chance(1, 4)) { c.log("lose"); break; }
          c.log("receive"); d0(h::to_packet(b)); (*dec)(h::to_packet(b)); ++given;
        }
        break;
      case 2: e0.generate_repair(); enc->generate_repair(); c.log("repair"); break;
      case 3: d0.generate_ack(); dec->generate_ack(); c.log("ack"); break;
      case 4: if (not ao.packets.empty()) { const auto b = ao.packets[c.draw(ao.packets.size() - 1)]; e0(h::to_packet(b)); (*enc)(h::to_packet(b)); c.log("receive ack"); } break;
      case 5: // replace a handler through its accessor
        ++replaced;
        switch (c.draw(2)) { case 0: enc->packet_handler() = P{}; break; case 1: dec->packet_handler() = P{}; break; default: dec->data_handler() = D{}; }
        c.log("replace a handler");
        break;
    }
    check();
  }
  c.label(what); if (lvalue) c.label("lvalue"); if (d0.nb_decoded()) c.label("decoded");
  c.nontrivial(given > 0 and emitted > 2 and replaced > 0);
  c.evaluations(emitted);
  c.describe(std::string(what) + (lvalue ? " (copied)" : " (moved)") + ", w=" + std::to_string(s.w) + ": " + std::to_string(nb) + " data, " + std::to_string(emitted) + " items emitted, " + std::to_string(replaced) + " handlers replaced");
}

}
void run_case(pbt::Ctx& c)
{
  script s;
  s.w = c.pick<unsigned>({8, 4, 16, 32}); s.ordered = c.coin();
  s.rate = c.pick<std::size_t>({2, 1, 3, 5}); s.nb = static_cast<std::uint16_t>(c.pick<unsigned>({2, 1, 5, 50})); s.systematic = c.chance(3, 4);
  switch (c.draw(3))
  {
    case 0: session<value_packets, value_data, true>(c, s, "stateful handlers"); break;
#ifdef NO_MOVE_ONLY
    case 1: pbt::fail("coders with handlers which can't be copied don't compile"); break;
#else
    case 1: session<unique<value_packets>, unique<value_data>, false>(c, s, "move-only handlers"); break;
#endif
    case 2: session<erased_packets, value_data, true>(c, s, "type-erased handlers"); break;
    default:
    {
      const auto before = counted<value_packets>::live() + counted<value_data>::live();
      session<counted<value_packets>, counted<value_data>, true>(c, s, "counted handlers");
      const auto after = counted<value_packets>::live() + counted<value_data>::live();
      PBT_CHECK(before == after, "%zu handlers were not destroyed with their coders", after - before);
    }
  }
}

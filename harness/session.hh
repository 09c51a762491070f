// A complete transmission: a sender (the real encoder, or a reference sender which can start at any
// identifier), a network which loses, reorders and duplicates packets in both directions, and the
// real decoder. The caller chooses which oracles judge the history.
#pragma once

#include <deque>
#include <memory>

#include "coders.hh"
#include "model.hh"

namespace h {

enum oracle : unsigned
{ INTEGRITY = 1, ONCE = 2, ORDER = 4, PROMPT = 8, RECOVER = 16, ACKS = 32, STATS = 64, ALIGN = 128 };

struct sender
{
  virtual ~sender() {}
  virtual void commit(const bytes&) = 0;
  virtual void force_repair() = 0;
  virtual void ack(const bytes&) = 0;
  virtual std::size_t window() = 0;
  virtual void set_rate(std::size_t) = 0;
  virtual void set_window(std::size_t) = 0;
  virtual void set_systematic(bool) = 0;
  virtual void set_adaptive(bool) = 0;
  virtual std::uint32_t id_of(std::size_t idx) = 0;   // identifier of the idx-th datum
  virtual std::size_t rank_of(std::uint32_t id) = 0;  // its inverse (~0 if none)
  virtual bool jump(std::uint32_t) { return false; }  // skip identifiers
  packet_sink sink;
};

struct real_sender final : sender
{
  encoder enc;
  explicit real_sender(unsigned w) : enc(static_cast<std::uint8_t>(w), packet_ref{&sink}) {}
  void commit(const bytes& b) override { enc(to_data(b)); }
  void force_repair() override { enc.generate_repair(); }
  void ack(const bytes& b) override { enc(to_packet(b)); }
  std::size_t window() override { return enc.window(); }
  void set_rate(std::size_t r) override { enc.set_rate(r); }
  void set_window(std::size_t r) override { enc.set_window_size(r); }
  void set_systematic(bool b) override { enc.set_code_type(b ? ntc::systematic::yes : ntc::systematic::no); }
  void set_adaptive(bool b) override { enc.set_adaptive(b); }
  std::uint32_t id_of(std::size_t i) override { return static_cast<std::uint32_t>(i); }
  std::size_t rank_of(std::uint32_t id) override { return id; }
};

struct reference_sender final : sender
{
  const ref::gf& f;
  std::uint32_t  base, next, next_repair;
  ref::store     win;
  std::size_t    limit = ~std::size_t{0}, rate = 5;
  bool           systematic = true;
  std::uint32_t  skip = 1;     // repairs identifiers advance by this much (the others "were lost")

  reference_sender(unsigned w, std::uint32_t b, std::uint32_t rb) : f(ref::gf::get(w)), base(b), next(b), next_repair(rb) {}
  void emit(const bytes& b) { sink(b.data(), b.size()); sink(); }
  void force_repair() override { emit(ref::encode_repair(f, next_repair, win)); next_repair += skip; }
  void commit(const bytes& b) override
  {
    while (win.size() >= limit) win.erase(win.begin());
    win[next] = b;
    ranks[next] = ids.size();
    ids.push_back(next);
    if (systematic) emit(ref::mk_source(next, b)); else force_repair();
    if ((next - base + 1) % rate == 0) force_repair();
    ++next;
  }
  void ack(const bytes& b) override { for (auto id : ref::parse(b).ids) win.erase(id); }
  std::size_t window() override { return win.size(); }
  void set_rate(std::size_t r) override { rate = r; }
  void set_window(std::size_t r) override { limit = r; }
  void set_systematic(bool b) override { systematic = b; }
  void set_adaptive(bool) override {}
  std::uint32_t id_of(std::size_t i) override { return i < ids.size() ? ids[i] : next + static_cast<std::uint32_t>(i - ids.size()); }
  std::size_t rank_of(std::uint32_t id) override { const auto it = ranks.find(id); return it == ranks.end() ? ~std::size_t{0} : it->second; }
  bool jump(std::uint32_t n) override { if (0xfffffff0u - next <= n) return false; next += n; return true; }
  std::vector<std::uint32_t> ids;
  std::map<std::uint32_t, std::size_t> ranks;
};

// ------------------------------------------------------------------------------------------------

// A generator of data sizes; the profile is fixed for a case.
struct sizes
{
  unsigned profile; std::size_t word; std::size_t min; std::size_t fixed;
  sizes(pbt::Ctx& c, std::size_t word_, std::size_t min_, bool allow_large)
    : profile(static_cast<unsigned>(c.weighted({6, 5, 5, 3, static_cast<unsigned>(allow_large ? 1 : 0)})))
    , word(word_), min(min_), fixed(0)
  {
    if (profile == 3) fixed = c.log_range(1, 600);
  }
  std::size_t operator()(pbt::Ctx& c)
  {
    std::size_t s = 1;
    switch (profile)
    {
      case 0: s = c.range(1, 20); break;
      case 1: s = c.log_range(1, 300); break;
      case 2: s = c.pick<std::size_t>({1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1400, 1500}); break;
      case 3: s = fixed; break;
      case 4: s = c.chance(1, 6) ? c.pick<std::size_t>({65535, 65534, 65532, 65528, 32768, 32767, 16384, 4096, 8191}) : c.log_range(1, 70); break;
    }
    s = std::max(s, min);
    s = (s + word - 1) / word * word;
    const std::size_t top = 65535 / word * word;
    return std::min(s, top);
  }
};

// The bytes of a datum; unique (tagged with its rank) when it is at least 4 bytes long.
inline bytes payload(pbt::Ctx& c, std::size_t sz, std::size_t idx)
{
  auto b = c.bytes(sz);
  if (sz >= 4)
  {
    for (unsigned k = 0; k < 4; ++k) b[k] = static_cast<char>((idx + 1) >> (8 * k));
  }
  return b;
}

inline std::size_t tag_of(const bytes& b)   // rank of a tagged datum, or ~0
{
  if (b.size() < 4) return ~std::size_t{0};
  std::size_t v = 0;
  for (unsigned k = 0; k < 4; ++k) v |= static_cast<std::size_t>(static_cast<unsigned char>(b[k])) << (8 * k);
  return v - 1;
}

// ------------------------------------------------------------------------------------------------

class session
{
public:
  pbt::Ctx& c;
  unsigned  flags;
  unsigned  w;
  bool      in_order;
  bool      synthetic;
  std::unique_ptr<sender> snd;
  packet_sink  acks;
  data_sink    data;
  std::unique_ptr<decoder> dec;
  // twin out-of-order decoder: reveals what a decoder knows
  packet_sink  twin_acks;
  data_sink    twin_data;
  std::unique_ptr<decoder> twin;
  ref::decoder_model model;

  std::vector<bytes>            truth;        // by rank
  std::map<bytes, std::size_t>  sent_count, given_count;
  std::size_t                   order_pos = 0;
  std::deque<bytes>             fwd, back;
  std::vector<bytes>            history;      // all packets ever sent
  std::size_t                   taken = 0;    // packets taken from the sender's sink
  std::size_t                   acks_taken = 0;
  bool                          ever_uncertain = false;
  std::map<bytes, std::size_t>  model_count;  // what the model has given so far
  std::set<std::size_t>         twin_known;   // ranks
  std::vector<std::size_t>      prompt_expected;   // in-order: ranks, in order
  std::set<std::size_t>         prompt_waiting;
  std::uint32_t                 prompt_next = 0;
  bytes last_source;
  std::size_t nb_fed_sources = 0, nb_fed_repairs = 0, since_ack = 0, nb_acks_seen = 0, nb_acks_fed = 0;
  std::size_t nb_lost = 0, nb_dup = 0, nb_reordered = 0, nb_recovered_ev = 0;
  std::size_t nb_src_sent = 0, nb_rep_sent = 0;
  std::size_t window_limit = ~std::size_t{0};

  session(pbt::Ctx& c_, unsigned flags_)
    : c(c_), flags(flags_)
    , w(c.pick<unsigned>({8, 8, 4, 16, 32}))
    , in_order(c.coin())
    , synthetic(c.chance(2, 5))
    , model(w, in_order)
  {
    if ((flags & ORDER)) in_order = true;
    model.in_order = in_order;
    if (synthetic)
    {
      const auto base = static_cast<std::uint32_t>(c.pick<std::uint64_t>({0, 0, 0, 1, 7, 13, 14, 15, 200, 253, 254, 255, 65500, 65535, 0x7fffffff, 0xfffff000u}));
      const auto rbase = static_cast<std::uint32_t>(c.pick<std::uint64_t>({0, 0, 0, 1, 13, 14, 15, 253, 254, 255, 65534, 65535, 0x7fffffff, 0xfffff000u}));
      auto* s = new reference_sender(w, base, rbase);
      s->skip = static_cast<std::uint32_t>(c.pick<std::uint64_t>({1, 1, 1, 2, 3, 5, 15, 255}));
      snd.reset(s);
      c.label("sender:reference");
      if (base > 0) c.label("sender:high-ids");
    }
    else
    {
      snd.reset(new real_sender(w));
      c.label("sender:encoder");
    }
    c.label("w:" + std::to_string(w));
    c.label(in_order ? "in-order" : "out-of-order");
    snd->set_rate(c.pick<std::size_t>({5, 1, 2, 3, 4, 7, 10, 50, 1000000}));
    if (c.chance(1, 2))
    {
      window_limit = c.pick<std::size_t>({1, 2, 3, 4, 5, 8, 12, 20, 33, 40});
      snd->set_window(window_limit);
      c.label("window-limited");
    }
    if (c.chance(1, 5)) { snd->set_systematic(false); c.label("non-systematic"); }
    if (c.chance(1, 8)) snd->set_adaptive(true);
    dec.reset(new decoder(static_cast<std::uint8_t>(w), order(in_order), packet_ref{&acks}, data_ref{&data}));
    const auto per = c.pick<unsigned>({0, 0, 100, 1, 10});
    const auto nb = c.pick<unsigned>({50, 1, 2, 3, 5, 10, 128, 300});
    dec->set_ack_period(std::chrono::milliseconds{per});
    dec->set_ack_nb_packets(static_cast<std::uint16_t>(nb));
    if (flags & (PROMPT | ACKS))
    {
      twin.reset(new decoder(static_cast<std::uint8_t>(w), ntc::in_order::no, packet_ref{&twin_acks}, data_ref{&twin_data}));
    }
  }

  std::uint32_t id_of(std::size_t rank) { return snd->id_of(rank); }

  void collect()
  {
    for (; taken < snd->sink.packets.size(); ++taken)
    {
      const auto& p = snd->sink.packets[taken];
      fwd.push_back(p);
      history.push_back(p);
    }
  }

  void commit(sizes& sz)
  {
    const auto b = payload(c, sz(c), truth.size());
    truth.push_back(b);
    ++sent_count[b];
    c.log("send #%zu (id %u, %zu bytes: %s)", truth.size() - 1, id_of(truth.size() - 1), b.size(), pbt::hex(b, 12).c_str());
    snd->commit(b);
    collect();
  }

  void repair()
  {
    if (snd->window() == 0) return;
    c.log("force repair");
    snd->force_repair();
    collect();
  }

  static std::string show(const ref::parsed& p)
  {
    std::string s = p.type == 2 ? "source " : p.type == 1 ? "repair " : "ack ";
    if (p.type != 0) s += std::to_string(p.id);
    if (p.type != 2)
    {
      s += " {";
      for (std::size_t i = 0; i < p.ids.size(); ++i)
      {
        if (i > 12) { s += ",..." + std::to_string(p.ids.back()); break; }
        s += (i ? "," : "") + std::to_string(p.ids[i]);
      }
      s += "}";
    }
    return s;
  }

  void on_data(const bytes& d)
  {
    if (flags & INTEGRITY)
      PBT_CHECK(sent_count.count(d), "delivered %zu bytes (%s) which are not those of any datum sent", d.size(), pbt::hex(d).c_str());
    const auto n = ++given_count[d];
    if (flags & ONCE)
    {
      const auto it = sent_count.find(d);
      PBT_CHECK(it == sent_count.end() or n <= it->second, "datum of %zu bytes (%s) delivered %zu times, sent %zu time(s)"
               , d.size(), pbt::hex(d).c_str(), n, it->second);
    }
    if ((flags & ORDER) and sent_count.count(d))
    {
      auto k = order_pos;
      while (k < truth.size() and truth[k] != d) ++k;
      PBT_CHECK(k < truth.size(), "datum of %zu bytes (%s) delivered after a later (or the same) datum", d.size(), pbt::hex(d).c_str());
      order_pos = k + 1;
    }
  }

  // Give a lot of times the last source to the decoder again.
  void flood()
  {
    if (last_source.empty()) return;
    const auto n = c.pick<std::size_t>({65536, 65535, 65537, 65800, 131072}) - (c.coin() ? 0 : std::min<std::size_t>(since_ack, 65535));
    c.log("receive the last source %zu times again", n);
    c.label("flood of duplicates");
    const auto first = data.data.size();
    const auto first_ack = acks.packets.size();
    for (std::size_t k = 0; k < n; ++k) (*dec)(to_packet(last_source));
    nb_fed_sources += n;
    since_ack += n;
    nb_dup += n;
    for (auto k = first; k < data.data.size(); ++k) on_data(data.data[k]);
    on_acks(first_ack, false);
    stats();
  }

  // Give a packet to the decoder.
  void feed(const bytes& pkt)
  {
    const auto p = ref::parse(pkt);
    PBT_CHECK(p.type == 1 or p.type == 2, "the sender emitted a malformed packet: %s", pbt::hex(pkt, 64).c_str());
    c.log("receive %s", show(p).c_str());
    if (p.type == 2) { ++nb_fed_sources; last_source = pkt; } else ++nb_fed_repairs;
    ++since_ack;

    // Model first: it tells what is expected from this packet.
    const bool outdated = model.has_front and (p.type == 2 ? p.id < model.front : p.ids.empty() or p.ids[0] < model.front);
    const auto ever_before = model.ever.count(p.id);
    const auto multi_before = model.multi;
    model.packet(p);
    if (model.uncertain) ever_uncertain = true;
    if (model.multi != multi_before) c.label(model.max_solved > 32 ? "solved:>32" : model.max_solved >= 4 ? "solved:4-32" : "solved:2-3");
    if (p.type == 1) nb_recovered_ev += model.out.size();
    for (auto id : model.out) ++model_count[truth_of(id)];

    const auto first = data.data.size();
    const auto first_ack = acks.packets.size();
    std::size_t twin_first = twin_data.data.size();
    (*dec)(to_packet(pkt));
    for (auto k = first; k < data.data.size(); ++k)
    {
      c.log("  -> delivered %zu bytes: %s", data.data[k].size(), pbt::hex(data.data[k], 12).c_str());
      on_data(data.data[k]);
    }
    if (flags & ALIGN)
      PBT_CHECK(data.aligned, "data given to the handler are not aligned on 16 bytes");

    if (twin)
    {
      (*twin)(to_packet(pkt));
      for (auto k = twin_first; k < twin_data.data.size(); ++k) twin_known.insert(tag_of(twin_data.data[k]));
    }

    if (flags & RECOVER)
    {
      if (not ever_uncertain)
      {
        for (auto id : model.out)
        {
          const auto& d = truth_of(id);
          const auto have = given_count.count(d) ? given_count[d] : 0;
          PBT_CHECK(have >= model_count[d], "after %s, datum %u (%zu bytes) is determined by what was received%s but was not delivered"
                   , show(p).c_str(), id, d.size(), in_order ? " and is next in order" : "");
        }
      }
    }

    if (flags & PROMPT)
    {
      if (not in_order)
      {
        if (p.type == 2 and not outdated and not ever_before)
        {
          const auto& d = truth_of(p.id);
          PBT_CHECK(std::find(data.data.begin() + static_cast<long>(first), data.data.end(), d) != data.data.end() or given_count[d] > 0
                   , "datum %u arrived in its own packet but was not delivered at once", p.id);
        }
      }
      else
      {
        // What must have been given: everything known before the front, in order; then the
        // contiguous sequence that follows.
        for (auto k = twin_first; k < twin_data.data.size(); ++k)
        {
          const auto rank = tag_of(twin_data.data[k]);
          if (rank < truth.size()) prompt_waiting.insert(rank);
        }
        const auto expect = [&]{ prompt_expected.push_back(*prompt_waiting.begin()); prompt_waiting.erase(prompt_waiting.begin()); };
        if (model.has_front)
        {
          while (not prompt_waiting.empty() and id_of(*prompt_waiting.begin()) < model.front) expect();
          prompt_next = std::max(prompt_next, model.front);
        }
        while (not prompt_waiting.empty() and id_of(*prompt_waiting.begin()) == prompt_next) { expect(); ++prompt_next; }
        PBT_CHECK(data.data.size() >= prompt_expected.size(), "in-order: datum of rank %zu is known and nothing older is pending, but it was not delivered (%zu delivered, %zu expected)"
                 , prompt_expected[std::min(data.data.size(), prompt_expected.size() - 1)], data.data.size(), prompt_expected.size());
        PBT_CHECK(data.data.size() <= prompt_expected.size(), "in-order: %zu data delivered, but only %zu may be: an older datum is still pending"
                 , data.data.size(), prompt_expected.size());
        for (auto k = first; k < data.data.size(); ++k)
          PBT_CHECK(tag_of(data.data[k]) == prompt_expected[k], "in-order: delivery number %zu is datum of rank %zu, expected rank %zu"
                   , k, tag_of(data.data[k]), prompt_expected[k]);
      }
    }
    on_acks(first_ack, false);
    stats();
  }

  const bytes& truth_of(std::uint32_t id)
  {
    const auto r = snd->rank_of(id);
    if (r >= truth.size()) pbt::fail("a packet names identifier %u which was never sent", id);
    return truth[r];
  }

  void on_acks(std::size_t first_ack, bool forced)
  {
    for (auto k = first_ack; k < acks.packets.size(); ++k)
    {
      const auto a = ref::parse(acks.packets[k]);
      c.log("  -> %s nb_packets=%u", show(a).c_str(), a.nb_packets);
      if (flags & ACKS)
      {
        PBT_CHECK(a.type == 0, "the decoder emitted a packet which is not a well-formed ack: %s", pbt::hex(acks.packets[k], 64).c_str());
        PBT_CHECK(a.used == acks.packets[k].size(), "ack of %zu bytes has %zu significant bytes", acks.packets[k].size(), a.used);
        for (std::size_t i = 0; i < a.ids.size(); ++i)
        {
          PBT_CHECK(i == 0 or a.ids[i] > a.ids[i - 1], "ack identifiers not sorted");
          const auto r = snd->rank_of(a.ids[i]);
          PBT_CHECK(r < truth.size() and twin_known.count(r), "ack names identifier %u, which the decoder neither received nor recovered", a.ids[i]);
        }
        PBT_CHECK(a.nb_packets == std::min<std::size_t>(since_ack, 65535), "ack reports %u packets, %zu were received since the previous ack", a.nb_packets, since_ack);
        if (forced)
        {
          const std::set<std::uint32_t> named(a.ids.begin(), a.ids.end());
          for (auto r : twin_known)
          {
            const auto id = id_of(r);
            if (model.has_front and id < model.front) continue;
            PBT_CHECK(named.count(id), "requested ack omits identifier %u, which the decoder has and which is not outdated", id);
          }
        }
        if (a.ids.size() > 1 and a.ids.back() - a.ids.front() + 1 != a.ids.size()) c.label("ack:with-gaps");
        if (a.ids.size() > 256) c.label("ack:>256-ids");
      }
      since_ack = 0;
      ++nb_acks_seen;
      back.push_back(acks.packets[k]);
    }
  }

  void force_ack()
  {
    const auto first_ack = acks.packets.size();
    c.log("request ack");
    dec->generate_ack();
    if (flags & ACKS)
      PBT_CHECK(acks.packets.size() == first_ack + 1, "a requested ack produced %zu packets", acks.packets.size() - first_ack);
    on_acks(first_ack, true);
    stats();
  }

  void deliver_ack(const bytes& a)
  {
    c.log("sender receives %s", show(ref::parse(a)).c_str());
    ++nb_acks_fed;
    snd->ack(a);
    stats();
  }

  void stats()
  {
    if (not (flags & STATS)) return;
    PBT_CHECK(dec->nb_received_sources() == nb_fed_sources, "nb_received_sources() = %zu, received %zu", dec->nb_received_sources(), nb_fed_sources);
    PBT_CHECK(dec->nb_received_repairs() == nb_fed_repairs, "nb_received_repairs() = %zu, received %zu", dec->nb_received_repairs(), nb_fed_repairs);
    PBT_CHECK(dec->nb_sent_acks() == nb_acks_seen, "nb_sent_acks() = %zu, emitted %zu", dec->nb_sent_acks(), nb_acks_seen);
    if (not ever_uncertain)
    {
      PBT_CHECK(dec->nb_decoded() == model.decoded, "nb_decoded() = %zu, recovered %zu", dec->nb_decoded(), model.decoded);
      PBT_CHECK(dec->nb_missing_sources() == model.missing.size(), "nb_missing_sources() = %zu, missing %zu", dec->nb_missing_sources(), model.missing.size());
      PBT_CHECK(dec->nb_useless_repairs() == model.useless, "nb_useless_repairs() = %zu, expected %zu", dec->nb_useless_repairs(), model.useless);
    }
    if (not synthetic)
    {
      auto& e = static_cast<real_sender&>(*snd).enc;
      std::size_t s = 0, r = 0;
      for (; stat_seen < snd->sink.packets.size(); ++stat_seen)
      {
        const auto ty = snd->sink.packets[stat_seen][0];
        if (ty == 2) ++stat_sources; else if (ty == 1) ++stat_repairs;
      }
      s = stat_sources; r = stat_repairs;
      PBT_CHECK(e.nb_sent_sources() == s, "nb_sent_sources() = %zu, sent %zu", e.nb_sent_sources(), s);
      PBT_CHECK(e.nb_sent_repairs() == r, "nb_sent_repairs() = %zu, sent %zu", e.nb_sent_repairs(), r);
      PBT_CHECK(e.nb_received_acks() == nb_acks_fed, "nb_received_acks() = %zu, received %zu", e.nb_received_acks(), nb_acks_fed);
    }
  }
  std::size_t stat_seen = 0, stat_sources = 0, stat_repairs = 0;

  // ---- network operations
  bytes take(std::deque<bytes>& q, std::size_t i) { auto b = q[i]; q.erase(q.begin() + static_cast<long>(i)); return b; }

  void reconfigure()
  {
    switch (c.draw(4))
    {
      case 4:
        // The identifiers of data whose packets (and repairs) are all lost for a long time.
        if (snd->jump(static_cast<std::uint32_t>(c.pick<std::uint64_t>({1, 2, 254, 255, 256, 65534, 65535, 65536, 65537, 131071, 1000000}))))
        {
          c.log("jump");
          c.label("jump");
        }
        break;
      case 0: snd->set_rate(c.pick<std::size_t>({1, 2, 3, 5, 10, 1000000})); c.label("reconf:rate"); break;
      case 1: window_limit = c.pick<std::size_t>({1, 2, 3, 5, 10, 30}); snd->set_window(window_limit); c.label("reconf:window"); break;
      case 2: snd->set_systematic(c.coin()); c.label("reconf:code-type"); break;
      case 3: dec->set_ack_nb_packets(static_cast<std::uint16_t>(c.pick<unsigned>({1, 5, 50}))); break;
    }
  }

  // random walk over all operations
  void walk(sizes& sz, std::size_t steps)
  {
    const auto profile = c.draw(3);
    const auto flood_at = (flags & (ACKS | STATS)) and c.chance(1, 400) ? c.draw(steps) : steps + 1;
    for (std::size_t i = 0; i < steps; ++i)
    {
      if (i == flood_at) flood();
      std::size_t op;
      switch (profile)
      {
        case 0:  op = c.weighted({30, 6, 40, 4, 12, 3, 2, 4, 4, 1, 2, 3, 1}); break; // mostly ordered, lossy
        case 1:  op = c.weighted({25, 8, 10, 30, 8, 5, 6, 3, 3, 2, 2, 3, 1}); break; // heavy reordering
        case 2:  op = c.weighted({25, 10, 30, 8, 20, 2, 2, 2, 1, 1, 3, 1, 1}); break; // heavy loss, few acks
        default: op = c.weighted({20, 5, 20, 10, 8, 15, 15, 8, 8, 4, 3, 3, 3}); break; // duplicates
      }
      switch (op)
      {
        case 0: commit(sz); break;
        case 1: repair(); break;
        case 2: if (not fwd.empty()) feed(take(fwd, 0)); break;
        case 3: if (not fwd.empty()) { const auto k = c.draw(fwd.size() - 1); if (k) ++nb_reordered; feed(take(fwd, k)); } break;
        case 4: if (not fwd.empty()) { ++nb_lost; c.log("lose %s", show(ref::parse(fwd.front())).c_str()); fwd.pop_front(); } break;
        case 5: if (not fwd.empty()) { ++nb_dup; feed(bytes(fwd[0])); } break;
        case 6: if (not history.empty()) { ++nb_dup; feed(bytes(history[c.draw(history.size() - 1)])); } break;
        case 7: force_ack(); break;
        case 8: if (not back.empty()) deliver_ack(take(back, 0)); break;
        case 9: if (not back.empty()) deliver_ack(bytes(back[c.draw(back.size() - 1)])); break;
        case 10: if (not back.empty()) back.pop_front(); break;
        case 11: virtual_now_ns() += static_cast<std::int64_t>(c.log_range(0, 300)) * 1000000; break;
        case 12: reconfigure(); break;
      }
    }
  }

  // rounds: send a burst, lose a subset, send repairs, deliver permuted
  void rounds(sizes& sz, std::size_t nb)
  {
    for (std::size_t i = 0; i < nb; ++i)
    {
      const auto big = c.chance(1, 24);
      const auto k = big ? c.range(30, 70) : c.range(1, 10);
      const auto loss = c.pick<unsigned>({10, 30, 50, 80, 100});   // percent, sources
      const auto rloss = c.pick<unsigned>({0, 0, 10, 30});
      for (std::size_t j = 0; j < k; ++j) commit(sz);
      const auto r = c.coin() ? k : c.range(0, k + 2);
      for (std::size_t j = 0; j < r; ++j) repair();
      // loss
      std::deque<bytes> keep;
      for (auto& p : fwd)
      {
        const bool src = p[0] == 2;
        if (c.draw(99) < (src ? loss : rloss)) { ++nb_lost; c.log("lose %s", show(ref::parse(p)).c_str()); }
        else keep.push_back(p);
      }
      fwd.swap(keep);
      const auto mode = c.draw(3);   // 0: in order, 1: window swaps, 2: shuffled, 3: repairs first
      if (mode == 3)
      {
        std::stable_partition(fwd.begin(), fwd.end(), [](const bytes& b){ return b[0] == 1; });
        ++nb_reordered;
      }
      while (not fwd.empty())
      {
        std::size_t pick = 0;
        if (mode == 1) pick = c.draw(std::min<std::size_t>(3, fwd.size() - 1));
        else if (mode == 2) pick = c.draw(fwd.size() - 1);
        if (pick) ++nb_reordered;
        if (mode != 0 and c.chance(1, 30)) { ++nb_dup; feed(bytes(fwd[pick])); }
        feed(take(fwd, pick));
      }
      if (c.chance(1, 3)) force_ack();
      while (not back.empty())
      {
        if (c.coin()) deliver_ack(take(back, 0)); else back.pop_front();
      }
      if (c.chance(1, 10)) reconfigure();
    }
  }

  // many data at once, few losses, few acks
  void many()
  {
    c.label("profile:many");
    snd->set_systematic(true);   // (otherwise, a single loss would make hundreds of data missing)
    const auto word = ref::gf::get(w).word();
    sizes sz(c, word, 4, false);
    sz.profile = 3; sz.fixed = c.pick<std::size_t>({8, 4, 12, 16, 20});
    window_limit = c.pick<std::size_t>({~std::size_t{0}, 300, 500, 257, 1000});
    snd->set_window(window_limit);
    snd->set_rate(c.pick<std::size_t>({1000000, 50, 20, 100}));
    const auto n = c.range(200, 700);
    const auto loss = c.pick<unsigned>({20, 0, 5, 60});   // per 1000
    const bool last = c.coin();
    for (std::size_t k = 0; k < n; ++k)
    {
      commit(sz);
      if (c.chance(1, 100)) { repair(); if (c.coin()) repair(); }
      while (not fwd.empty())
      {
        if (c.draw(999) < loss) { ++nb_lost; c.log("lose %s", show(ref::parse(fwd.front())).c_str()); fwd.pop_front(); continue; }
        if (c.chance(1, 50)) break;   // late
        std::size_t i = 0;
        if (fwd.size() > 1 and c.chance(1, 3)) { i = fwd.size() - 1; ++nb_reordered; }
        feed(take(fwd, i));
      }
      if (c.chance(1, 150)) force_ack();
      if (last) back.clear();
      else while (not back.empty()) { if (c.chance(1, 3)) deliver_ack(take(back, 0)); else back.pop_front(); }
    }
    force_ack();
    const auto r = c.range(0, 6);
    for (std::size_t j = 0; j < r; ++j) repair();
    while (not fwd.empty()) feed(take(fwd, 0));
    force_ack();
    while (not back.empty()) deliver_ack(take(back, 0));
  }

  // hundreds of data lost at once, rebuilt by as many repairs
  void huge()
  {
    c.label("profile:huge");
    snd->set_systematic(true);
    const auto word = ref::gf::get(w).word();
    sizes sz(c, word, 4, false);
    sz.profile = 3; sz.fixed = c.pick<std::size_t>({8, 4, 12});
    window_limit = ~std::size_t{0};
    snd->set_window(window_limit);
    snd->set_rate(1000000);
    const auto k = c.chance(1, 3) ? c.range(120, 256) : c.range(257, 290);
    for (std::size_t j = 0; j < k; ++j)
    {
      commit(sz);
      if (c.chance(1, 50)) feed(take(fwd, fwd.size() - 1));
    }
    nb_lost += fwd.size();
    fwd.clear();
    for (std::size_t j = 0; j < k + 2; ++j) repair();
    while (not fwd.empty()) feed(take(fwd, 0));
    for (std::size_t j = 0; j < 3; ++j) commit(sz);
    while (not fwd.empty()) feed(take(fwd, 0));
    force_ack();
    while (not back.empty()) deliver_ack(take(back, 0));
  }

  void finish()
  {
    if (nb_lost) c.label("loss");
    if (nb_dup) c.label("duplicates");
    if (nb_reordered) c.label("reordering");
    if (nb_recovered_ev) c.label("delivery-by-repair");
    if (model.multi) c.label("full-decoding");
    if (model.singular) c.label("singular");
    if (model.abandoned) c.label("abandoned");
    if (ever_uncertain) c.label("uncertain");
    if (nb_acks_fed) c.label("acks-received");
    char buf[300];
    snprintf(buf, sizeof buf, "w=%u %s %s, %zu data, %zu+%zu packets received, %zu lost, %zu dup, %zu reordered, %zu recovered (%zu full decodings), %zu acks"
            , w, in_order ? "in-order" : "out-of-order", synthetic ? "reference-sender" : "encoder", truth.size(), nb_fed_sources, nb_fed_repairs
            , nb_lost, nb_dup, nb_reordered, model.decoded, model.multi, nb_acks_seen);
    c.describe(buf);
    c.evaluations(nb_fed_sources + nb_fed_repairs);
  }

  void run(std::size_t min_size)
  {
    if (w >= 16 and c.chance(1, 3000)) { huge(); finish(); return; }
    if (c.chance(1, 600)) { many(); finish(); return; }
    sizes sz(c, ref::gf::get(w).word(), min_size, true);
    if (c.coin()) { c.label("profile:rounds"); rounds(sz, c.range(1, 5)); }
    else { c.label("profile:walk"); walk(sz, c.log_range(4, 160)); }
    finish();
  }
};

} // namespace h

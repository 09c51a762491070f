#include <list>
#include <memory>
#include "coders.hh"
const char* const property_id = "C18";
// ntc::packet and ntc::data behave like sequences of bytes.
namespace {
constexpr int unknown = 256;              // a byte whose value is unspecified
using model = std::vector<int>;

template <typename P>
void same(const P& cp, const model& m, const char* op)
{
  auto& p = const_cast<P&>(cp);
  PBT_CHECK(p.size() == m.size(), "%s: size is %zu instead of %zu", op, p.size(), m.size());
  PBT_CHECK(p.empty() == m.empty(), "%s: empty() is wrong", op);
  PBT_CHECK(p.capacity() >= p.size() and p.capacity() < (std::size_t{1} << 40), "%s: capacity %zu, size %zu", op, p.capacity(), p.size());
  PBT_CHECK(static_cast<std::size_t>(p.end() - p.begin()) == m.size() and static_cast<std::size_t>(p.cend() - p.cbegin()) == m.size()
           and static_cast<std::size_t>(cp.end() - cp.begin()) == m.size(), "%s: [begin, end) isn't of size %zu", op, m.size());
  PBT_CHECK(p.data() == cp.data(), "%s: data() depends on constness", op);
  auto it = p.begin(); auto cit = cp.begin(); auto ccit = cp.cbegin();
  for (std::size_t i = 0; i < m.size(); ++i, ++it, ++cit, ++ccit)
  {
    PBT_CHECK(&*it == p.data() + i and &*cit == p.data() + i and &*ccit == p.data() + i and &p[i] == p.data() + i and &cp[i] == p.data() + i
             , "%s: element %zu isn't the same through data(), [] and iterators", op, i);
    if (m[i] != unknown) PBT_CHECK(static_cast<unsigned char>(p[i]) == m[i], "%s: byte %zu of %zu is %d instead of %d", op, i, m.size(), static_cast<unsigned char>(p[i]), m[i]);
  }
  // the whole capacity is writable storage: fill what is unknown, read it back
}
template <typename P> const char* align_base(const P& p) { return p.data(); }
template <> const char* align_base(const ntc::packet& p) { return p.data() + 7; }   // symbols start there

template <typename P>
struct slot { std::unique_ptr<P> p; model m; bool valid = true; };

model mk(const h::bytes& b) { model m; for (auto x : b) m.push_back(static_cast<unsigned char>(x)); return m; }

template <typename P>
void go(pbt::Ctx& c, const char* what)
{
  std::vector<slot<P>> s;
  const auto size = [&]() -> std::size_t { return c.chance(1, 25) ? c.log_range(1, 70000) : c.chance(1, 6) ? c.pick<std::size_t>({0, 1, 15, 16, 17, 23, 24, 25, 64}) : c.range(0, 40); };
  const auto fresh = [&]
  {
    slot<P> n;
    switch (c.draw(5))
    {
      case 0: n.p.reset(new P()); break;
      case 1: { const auto k = size(); n.p.reset(new P(k)); n.m.assign(k, unknown); break; }
      case 2: { const auto k = size(); const auto v = static_cast<char>(c.draw(255)); n.p.reset(new P(k, v)); n.m.assign(k, static_cast<unsigned char>(v)); break; }
      case 3: { const auto b = c.bytes(size()); n.p.reset(new P(b.data(), b.data() + b.size())); n.m = mk(b); break; }
      case 4: { const auto b = c.bytes(c.range(0, 60)); std::list<char> l(b.begin(), b.end()); n.p.reset(new P(l.begin(), l.end())); n.m = mk(b); break; }
      case 5: n.p.reset(new P{'a', 'b', '\0', 'c', char(-1)}); n.m = {'a', 'b', 0, 'c', 255}; break;
    }
    c.log("%s #%zu of %zu bytes", what, s.size(), n.m.size());
    s.push_back(std::move(n));
    same(*s.back().p, s.back().m, "construction");
  };
  fresh();
  const auto steps = c.log_range(1, 60);
  std::size_t nb_mut = 0;
  for (std::size_t i = 0; i < steps; ++i)
  {
    auto& a = s[c.draw(s.size() - 1)];
    auto& p = *a.p;
    const char* op = "";
    const auto old_cap = a.valid ? p.capacity() : 0;
    const auto old_size = a.m.size();
    const auto old_data = a.valid ? p.data() : nullptr;
    bool may_move = false;
    const auto what_op = c.weighted({6, 6, 6, 4, 4, 4, 4, 6, 3, 3, 4, 4, 4, 4, 2, 3});
    // a moved-from object can only be given a new value
    if (not a.valid and not (what_op == 1 or what_op == 2 or what_op == 10 or what_op == 11 or what_op == 14 or what_op == 15)) continue;
    switch (what_op)
    {
      case 0: { op = "push_back"; const auto n = c.range(1, 20); for (unsigned k = 0; k < n; ++k) { const auto v = static_cast<char>(c.draw(255)); p.push_back(v); a.m.push_back(static_cast<unsigned char>(v)); } break; }
      case 1: { op = "resize"; const auto n = size(); p.resize(n);
                if (not a.valid) { a.m.assign(n, unknown); a.valid = true; may_move = true; } else a.m.resize(n, unknown); break; }
      case 2: { op = "assign(n, v)"; const auto n = size(); const auto v = static_cast<char>(c.draw(255)); p.assign(n, v); a.m.assign(n, static_cast<unsigned char>(v)); may_move = not a.valid; a.valid = true; break; }
      case 3: { op = "resize(n, v)"; const auto n = size(); const auto v = static_cast<char>(c.draw(255)); p.resize(n, v); a.m.resize(n, static_cast<unsigned char>(v)); break; }
      case 4: { op = "reserve"; const auto n = size(); p.reserve(n); PBT_CHECK(p.capacity() >= n, "capacity is %zu after reserve(%zu)", p.capacity(), n);
                may_move = n > old_cap; break; }
      case 5: { op = "clear"; p.clear(); a.m.clear(); PBT_CHECK(p.capacity() == old_cap, "clear() changed the capacity"); break; }
      case 6: { op = "shrink_to_fit"; p.shrink_to_fit(); may_move = true; break; }
      case 7: { op = "write"; if (a.m.empty()) break; const auto n = c.range(1, 10);
                for (unsigned k = 0; k < n; ++k)
                {
                  const auto pos = c.draw(a.m.size() - 1); const auto v = static_cast<char>(c.draw(255));
                  switch (c.draw(2)) { case 0: p[pos] = v; break; case 1: p.data()[pos] = v; break; case 2: *(p.begin() + static_cast<long>(pos)) = v; break; }
                  a.m[pos] = static_cast<unsigned char>(v);
                }
                break; }
      case 8: { op = "fill"; const auto b = c.bytes(a.m.size()); std::copy(b.begin(), b.end(), p.data()); a.m = mk(b); break; }
      case 9: { op = "construction of another"; if (s.size() < 4) { fresh(); continue; } break; }
      case 10: { op = "copy assignment"; auto& b = s[c.draw(s.size() - 1)]; if (not b.valid) break; p = *b.p; a.m = b.m; a.valid = true; may_move = true; same(*b.p, b.m, "copied from"); break; }
      case 11: { op = "move assignment"; auto& b = s[c.draw(s.size() - 1)]; if (not b.valid or &a == &b) break; p = std::move(*b.p); a.m = b.m; a.valid = true; may_move = true; b.valid = false; b.m.clear(); break; }
      case 12: { op = "copy construction"; if (s.size() >= 4) break; slot<P> n; n.p.reset(new P(p)); n.m = a.m; s.push_back(std::move(n)); same(*s.back().p, s.back().m, op); continue; }
      case 13: { op = "move construction"; if (s.size() >= 4) break; slot<P> n; n.p.reset(new P(std::move(p))); n.m = a.m; a.valid = false; a.m.clear(); s.push_back(std::move(n)); same(*s.back().p, s.back().m, op); continue; }
      case 14: { op = "assign(range)"; const auto b = c.bytes(size()); std::list<char> l(b.begin(), b.end()); if (c.coin()) p.assign(b.begin(), b.end()); else p.assign(l.begin(), l.end()); a.m = mk(b); may_move = not a.valid; a.valid = true; break; }
      case 15: { op = "assign(list)"; p.assign({'x', '\0', char(-2)}); a.m = {'x', 0, 254}; may_move = not a.valid; a.valid = true; break; }
    }
    ++nb_mut;
    if (not a.valid) continue;
    c.log("#%zu: %s, %zu bytes", static_cast<std::size_t>(&a - s.data()), op, a.m.size());
    if (not may_move and old_data and a.m.size() <= old_cap) PBT_CHECK(p.data() == old_data, "%s: storage moved although the capacity was sufficient", op);
    (void)old_size;
    for (auto& x : s) if (x.valid) { same(*x.p, x.m, op); PBT_CHECK(reinterpret_cast<std::uintptr_t>(align_base(*x.p)) % 16 == 0, "%s: storage isn't aligned", op); }
    // Storages are distinct: unknown bytes get a value, nothing else changes.
    for (std::size_t k = 0; k < a.m.size(); ++k) if (a.m[k] == unknown) { p[k] = static_cast<char>(k * 7 + i); a.m[k] = static_cast<unsigned char>(k * 7 + i); }
  }
  for (auto& x : s) if (x.valid) same(*x.p, x.m, "end");
  c.nontrivial(nb_mut >= 3);
  c.evaluations(nb_mut);
  c.label(what);
  if (s.size() > 1) c.label("several");
  c.describe(std::string(what) + ": " + std::to_string(s.size()) + " objects, " + std::to_string(nb_mut) + " operations");
}
}
void run_case(pbt::Ctx& c)
{
  if (c.chance(3, 4)) go<ntc::packet>(c, "packet"); else go<ntc::data>(c, "data");
}

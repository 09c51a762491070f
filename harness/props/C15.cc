#include "coders.hh"
#include "gfref.hh"
#include "netcode/detail/invert_matrix.hh"
const char* const property_id = "C15";
// Inverting a matrix gives its inverse, or, when there is none, a column which is a combination of
// the others.
using namespace ntc::detail;
using mat_t = std::vector<std::vector<std::uint32_t>>;   // [column][row]
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto& f = ref::gf::get(w);
  const std::uint32_t max = w == 32 ? 0xffffffffu : (1u << w) - 1;
  const bool big = w != 32 and c.chance(1, 500);
  const std::size_t n = big ? c.range(41, c.chance(1, 4) ? 270 : 140) : c.chance(1, 12) ? c.range(1, w == 32 ? 20 : 40) : c.range(1, 9);
  if (big) c.label("more than 40 columns");
  galois_field gf(static_cast<std::uint8_t>(w));
  mat_t m(n, std::vector<std::uint32_t>(n));
  const auto shape = c.weighted({4, 3, 3, 3, 3, 3, 3});
  static const char* const names[] = {"random", "small values", "sparse", "coefficients", "permutation", "dependent columns", "triangular"};
  const auto value = [&](bool small)
  {
    if (not small and w >= 16 and c.chance(1, 8)) return static_cast<std::uint32_t>((1u << c.draw(w - 1)) + c.draw(2) - 1) & max;   // around powers of 2
    return static_cast<std::uint32_t>(c.draw(small ? std::min<std::uint32_t>(max, 3) : max));
  };
  const auto nonzero = [&]{ return std::max<std::uint32_t>(1, value(c.coin())); };
  switch (shape)
  {
    case 0: for (auto& col : m) for (auto& x : col) x = value(false); break;
    case 1: for (auto& col : m) for (auto& x : col) x = value(true); break;
    case 2: for (auto& col : m) for (auto& x : col) x = c.chance(1, 3) ? value(c.coin()) : 0; break;
    case 3:  // as the decoder builds it: rows are missing sources, columns are repairs, some of which lack sources
    {
      const auto s0 = static_cast<std::uint32_t>(c.draw(1000)), r0 = static_cast<std::uint32_t>(c.draw(1000));
      const auto stride = static_cast<std::uint32_t>(c.pick<unsigned>({1, 1, 2, 255, 256}));
      const auto holes = c.coin();
      for (std::size_t k = 0; k < n; ++k) for (std::size_t i = 0; i < n; ++i)
        m[k][i] = holes and c.chance(1, 4) ? 0 : f.coeff(r0 + static_cast<std::uint32_t>(k) * stride, s0 + static_cast<std::uint32_t>(i));
      break;
    }
    case 4:
    {
      std::vector<std::size_t> p(n);
      for (std::size_t i = 0; i < n; ++i) p[i] = i;
      for (std::size_t i = n; i > 1; --i) std::swap(p[i - 1], p[c.draw(i - 1)]);
      for (std::size_t i = 0; i < n; ++i) m[i][p[i]] = nonzero();
      break;
    }
    case 5:
    {
      for (auto& col : m) for (auto& x : col) x = value(c.chance(1, 4));
      const auto nb = c.range(1, 3);
      for (unsigned k = 0; k < nb; ++k)
      {
        const auto dst = c.draw(n - 1);
        std::vector<std::uint32_t> v(n, 0);
        const auto terms = c.draw(3);
        for (unsigned t = 0; t < terms; ++t)
        {
          const auto src = c.draw(n - 1), q = static_cast<std::size_t>(value(c.coin()));
          for (std::size_t i = 0; i < n; ++i) if (src != dst) v[i] ^= f.mul(m[src][i], static_cast<std::uint32_t>(q));
        }
        m[dst] = v;
      }
      break;
    }
    case 6:
      for (std::size_t k = 0; k < n; ++k) for (std::size_t i = 0; i < n; ++i)
        m[k][i] = i == k ? (c.chance(1, 12) ? 0 : nonzero()) : i < k ? value(c.coin()) : 0;
      if (c.coin()) std::reverse(m.begin(), m.end());
      break;
  }
  square_matrix a(n), inv(n);
  for (std::size_t k = 0; k < n; ++k) for (std::size_t i = 0; i < n; ++i) { a(i, k) = m[k][i]; inv(i, k) = 0xdeadbeefu; }
  if (c.tracing()) for (std::size_t i = 0; i < n; ++i)
  {
    std::string s;
    for (std::size_t k = 0; k < n; ++k) s += " " + std::to_string(m[k][i]);
    c.log("%s", s.c_str());
  }
  const auto res = invert(gf, a, inv);
  const auto r = ref::rank(f, m);
  if (r == n)
  {
    PBT_CHECK(not res, "w=%u: an invertible %zux%zu matrix (%s) was said to be singular because of column %zu", w, n, n, names[shape], *res);
    for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < n; ++j)
    {
      std::uint32_t x = 0, y = 0;
      for (std::size_t k = 0; k < n; ++k) { x ^= f.mul(m[k][i], inv(k, j)); y ^= f.mul(inv(i, k), m[j][k]); }
      PBT_CHECK(x == (i == j) and y == (i == j), "w=%u: the inverse of a %zux%zu matrix (%s) is wrong at (%zu, %zu)", w, n, n, names[shape], i, j);
    }
  }
  else
  {
    PBT_CHECK(bool(res), "w=%u: a %zux%zu matrix (%s) of rank %zu was inverted", w, n, n, names[shape], r);
    PBT_CHECK(*res < n, "w=%u: column %zu of a %zux%zu matrix", w, *res, n, n);
    auto others = m;
    others.erase(others.begin() + static_cast<long>(*res));
    PBT_CHECK(ref::rank(f, others) == r, "w=%u: column %zu of a %zux%zu matrix (%s) of rank %zu isn't a combination of the others", w, *res, n, n, names[shape], r);
  }
  PBT_CHECK(inv.dimension() == n, "dimension changed");
  c.label(names[shape]);
  c.label(r == n ? "invertible" : "singular");
  c.nontrivial(n >= 2);
  c.describe("w=" + std::to_string(w) + ", " + std::to_string(n) + "x" + std::to_string(n) + " " + names[shape] + " matrix of rank " + std::to_string(r));
}

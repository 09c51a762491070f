#include "coders.hh"
#include "gfref.hh"
#include "netcode/detail/galois_field.hh"
const char* const property_id = "C14";
// The coding arithmetic is that of GF(2^w), for coefficients, regions of bytes and sizes.
using namespace ntc::detail;
namespace {
std::uint32_t gen(pbt::Ctx& c, unsigned w)
{
  const std::uint32_t max = w == 32 ? 0xffffffffu : (1u << w) - 1;
  switch (c.draw(3))
  {
    case 0: return static_cast<std::uint32_t>(c.draw(max));
    case 1: return static_cast<std::uint32_t>(c.draw(std::min<std::uint32_t>(max, 17)));
    case 2: return max - static_cast<std::uint32_t>(c.draw(std::min<std::uint32_t>(max, 17)));
    default: return std::min(max, static_cast<std::uint32_t>((1ull << c.draw(w - 1)) + c.draw(2) - 1));
  }
}
}
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto& f = ref::gf::get(w);
  const std::uint64_t order = 1ull << w;
  galois_field gf(static_cast<std::uint8_t>(w));
  PBT_CHECK(gf.size() == w, "size() is %u for w=%u", gf.size(), w);
  const auto kind = c.weighted({40, 40, 20, 1});
  std::ostringstream d;
  d << "w=" << w << ": ";
  if (kind == 0)
  {
    // coefficients
    for (unsigned i = 0; i < 16; ++i)
    {
      const auto x = gen(c, w), y = gen(c, w), z = gen(c, w);
      c.log("x=%u y=%u z=%u", x, y, z);
      const auto xy = gf.multiply(x, y);
      PBT_CHECK(xy == f.mul(x, y), "w=%u: %u * %u is %u instead of %u", w, x, y, xy, f.mul(x, y));
      PBT_CHECK(xy == gf.multiply(y, x), "w=%u: %u * %u isn't commutative", w, x, y);
      PBT_CHECK(gf.multiply(xy, z) == gf.multiply(x, gf.multiply(y, z)), "w=%u: product of %u, %u, %u isn't associative", w, x, y, z);
      PBT_CHECK(gf.multiply(x, y ^ z) == (xy ^ gf.multiply(x, z)), "w=%u: product of %u, %u, %u isn't distributive", w, x, y, z);
      PBT_CHECK(gf.multiply(x, 1) == x and gf.multiply(x, 0) == 0 and gf.multiply(0, x) == 0, "w=%u: %u times 0 or 1", w, x);
      if (x != 0)
      {
        const auto i = gf.invert(x);
        PBT_CHECK(gf.multiply(x, i) == 1 and i == f.inv(x), "w=%u: inverse of %u is %u", w, x, i);
      }
      const auto r = static_cast<std::uint32_t>(c.coin() ? c.draw(300) : c.draw(0xffffffffu));
      const auto s = static_cast<std::uint32_t>(c.chance(1, 4) ? 0u - r - 2u : c.coin() ? c.draw(300) : c.draw(0xffffffffu));
      const auto k = gf.coefficient(r, s);
      PBT_CHECK(k != 0 and k < order, "w=%u: coefficient of repair %u, source %u is %u", w, r, s, k);
      PBT_CHECK(k == f.coeff(r, s), "w=%u: coefficient of repair %u, source %u is %u; peers compute %u", w, r, s, k, f.coeff(r, s));
      if (i == 0) d << x << "*" << y << "=" << xy << ", coefficient(" << r << "," << s << ")=" << k;
    }
    c.label("scalars");
    c.nontrivial();
    c.evaluations(16);
  }
  else if (kind == 1)
  {
    // regions
    const auto word = f.word();
    std::size_t len = word * (c.chance(1, 200) ? c.log_range(65535 / word, 200000 / word) : c.chance(1, 10) ? c.log_range(1, 65535 / word) : c.range(1, 80));
    const auto src = c.bytes(len);
    const auto old = c.bytes(len);
    const auto k = c.chance(1, 12) ? static_cast<std::uint32_t>(c.draw(1)) : gen(c, w);
    const std::size_t pad = 64;
    byte_buffer s(src.begin(), src.end());
    byte_buffer m(len + pad, 'x');
    gf.multiply(s.data(), m.data(), len, k);
    h::bytes e(len, 0);
    f.madd(src.data(), e.data(), len, k);
    PBT_CHECK(std::equal(e.begin(), e.end(), m.begin()), "w=%u: region of %zu bytes times %u is wrong", w, len, k);
    for (auto i = len; i < len + pad; ++i) PBT_CHECK(m[i] == 'x', "w=%u: product of a region of %zu bytes wrote byte %zu", w, len, i);
    byte_buffer a(old.begin(), old.end());
    a.resize(len + pad, 'y');
    gf.multiply_add(s.data(), a.data(), len, k);
    for (std::size_t i = 0; i < len; ++i)
      PBT_CHECK(a[i] == static_cast<char>(old[i] ^ e[i]), "w=%u: addition of a region of %zu bytes times %u is wrong at byte %zu", w, len, k, i);
    for (auto i = len; i < len + pad; ++i) PBT_CHECK(a[i] == 'y', "w=%u: addition of a region of %zu bytes wrote byte %zu", w, len, i);
    PBT_CHECK(std::equal(src.begin(), src.end(), s.begin()), "w=%u: the source region was modified", w);
    // adding it again cancels it; multiplying by the inverse gives it back
    gf.multiply_add(s.data(), a.data(), len, k);
    PBT_CHECK(std::equal(old.begin(), old.end(), a.begin()), "w=%u: adding twice a region isn't the identity", w);
    if (k != 0)
    {
      byte_buffer b(len, 'z');
      gf.multiply(m.data(), b.data(), len, gf.invert(k));
      PBT_CHECK(std::equal(src.begin(), src.end(), b.begin()), "w=%u: region of %zu bytes times %u, divided by %u", w, len, k, k);
    }
    d << "region of " << len << " bytes times " << k;
    c.label("regions");
    if (len % 16) c.label("region:odd");
    if (len > 1000) c.label("region:large");
    if (len > 65535) c.label("region:more than 65535 bytes");
    c.nontrivial(k > 1);
  }
  else if (kind == 2)
  {
    // sizes, as they are encoded in repairs
    for (unsigned i = 0; i < 16; ++i)
    {
      const auto x = static_cast<std::uint32_t>(w == 32 and c.chance(1, 4) ? c.draw(0xffffffffu) : c.coin() ? c.draw(65535) : c.pick<std::uint64_t>({1, 2, 15, 16, 255, 256, 257, 4095, 4096, 65534, 65535}));
      const auto y = static_cast<std::uint32_t>(c.draw(65535));
      auto k = gen(c, w);
      if (k == 0) k = 1;
      const auto e = gf.multiply_size(x, k);
      PBT_CHECK(e == f.mul_size(x, k), "w=%u: size %u times %u is %u instead of %u", w, x, k, e, f.mul_size(x, k));
      PBT_CHECK(gf.multiply_size(e, gf.invert(k)) == x, "w=%u: size %u times %u can't be inverted", w, x, k);
      PBT_CHECK((e ^ gf.multiply_size(y, k)) == gf.multiply_size(x ^ y, k), "w=%u: sizes %u and %u times %u isn't linear", w, x, y, k);
      PBT_CHECK(gf.multiply_size(x, 1) == x and gf.multiply_size(0, k) == 0, "w=%u: size %u, times 1 or 0", w, x);
      if (i == 0) d << "size " << x << " times " << k << " = " << e;
    }
    c.label("sizes");
    c.nontrivial();
    c.evaluations(16);
  }
  else
  {
    // whole tables for the small fields, a random row for the others
    if (w <= 8)
    {
      for (std::uint32_t x = 0; x < order; ++x)
      {
        for (std::uint32_t y = 0; y < order; ++y) PBT_CHECK(gf.multiply(x, y) == f.mul(x, y), "w=%u: %u * %u", w, x, y);
        if (x) PBT_CHECK(gf.invert(x) == f.inv(x), "w=%u: inverse of %u", w, x);
      }
      c.evaluations(order * order);
    }
    else
    {
      const auto x = gen(c, w);
      for (std::uint32_t y = 0; y < 65536; ++y)
      {
        PBT_CHECK(gf.multiply(x, y) == f.mul(x, y), "w=%u: %u * %u", w, x, y);
        if (w == 16 and y) PBT_CHECK(gf.multiply(y, gf.invert(y)) == 1, "w=%u: inverse of %u", w, y);
      }
      // all possible sizes
      const auto k = std::max(1u, gen(c, w));
      const auto ik = gf.invert(k);
      for (std::uint32_t y = 1; y < 65536; ++y) PBT_CHECK(gf.multiply_size(gf.multiply_size(y, k), ik) == y, "w=%u: size %u times %u", w, y, k);
      c.evaluations(131072);
    }
    d << "table";
    c.label("tables");
    c.nontrivial();
  }
  c.describe(d.str());
}

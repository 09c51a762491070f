// Independent reference arithmetic in GF(2^w), w in {4, 8, 16, 32}: shift-and-xor multiplication
// modulo the field polynomial, inverse by exponentiation. Shares no code with netcode/gf-complete.
#pragma once

#include <cstdint>
#include <cstring>
#include <vector>

namespace ref {

struct gf
{
  unsigned      w;
  std::uint64_t poly;
  std::vector<std::uint8_t> tab8;   // 256x256 products (w <= 8)
  std::vector<std::uint32_t> lg, ex; // w == 16

  explicit gf(unsigned w_) : w(w_), poly(w_ == 4 ? 0x13 : w_ == 8 ? 0x11d : w_ == 16 ? 0x1100b : 0x100400007ull)
  {
    if (w <= 8)
    {
      const auto n = 1u << w;
      tab8.resize(n * n);
      for (auto a = 0u; a < n; ++a) for (auto b = 0u; b < n; ++b)
        tab8[a * n + b] = static_cast<std::uint8_t>(slow(a, b));
    }
    else if (w == 16)
    {
      lg.resize(65536); ex.resize(131072);
      std::uint32_t x = 1;
      for (auto i = 0u; i < 65535; ++i) { ex[i] = ex[i + 65535] = x; lg[x] = i; x = slow(x, 2); }
    }
  }

  static const gf& get(unsigned w)
  {
    static const gf g4(4), g8(8), g16(16), g32(32);
    return w == 4 ? g4 : w == 8 ? g8 : w == 16 ? g16 : g32;
  }

  std::uint32_t slow(std::uint32_t a, std::uint32_t b) const
  {
    std::uint64_t r = 0, x = a;
    for (; b; b >>= 1)
    {
      if (b & 1) r ^= x;
      x <<= 1;
      if ((x >> w) & 1) x ^= poly;
    }
    return static_cast<std::uint32_t>(r);
  }

  std::uint32_t mul(std::uint32_t a, std::uint32_t b) const
  {
    if (a == 0 or b == 0) return 0;
    if (w <= 8) return tab8[(a << w) + b];
    if (w == 16) return ex[lg[a] + lg[b]];
    return slow(a, b);
  }

  std::uint32_t inv(std::uint32_t a) const
  {
    // a^(2^w - 2)
    std::uint32_t r = 1, s = a;
    for (unsigned i = 1; i < w; ++i) { s = mul(s, s); r = mul(r, s); }
    return r;
  }

  // The coefficient of source s in repair r.
  std::uint32_t coeff(std::uint32_t r, std::uint32_t s) const
  {
    const std::uint32_t v = ((r + 1u) + (s + 1u)) * (r + 1u);
    if (w == 32) return v == 0 ? 1 : v;
    return v % ((1u << w) - 1u) + 1u;
  }

  // dst ^= c * src, symbols seen as vectors of w-bit words (nibbles for w = 4; little-endian words)
  void madd(const char* src, char* dst, std::size_t len, std::uint32_t c) const
  {
    if (w == 4)
    {
      for (std::size_t i = 0; i < len; ++i)
      {
        const auto b = static_cast<unsigned char>(src[i]);
        dst[i] = static_cast<char>(dst[i] ^ (mul(b & 15, c) | (mul(b >> 4, c) << 4)));
      }
    }
    else if (w == 8)
    {
      for (std::size_t i = 0; i < len; ++i)
        dst[i] = static_cast<char>(static_cast<unsigned char>(dst[i]) ^ mul(static_cast<unsigned char>(src[i]), c));
    }
    else if (w == 16)
    {
      for (std::size_t i = 0; i + 1 < len; i += 2)
      {
        std::uint16_t x, y;
        memcpy(&x, src + i, 2); memcpy(&y, dst + i, 2);
        y = static_cast<std::uint16_t>(y ^ mul(x, c));
        memcpy(dst + i, &y, 2);
      }
    }
    else
    {
      // c * x is linear in x: 4 tables of 256 entries
      std::uint32_t t[4][256];
      const bool use_tables = len > 256;
      if (use_tables)
        for (unsigned k = 0; k < 4; ++k) for (std::uint32_t v = 0; v < 256; ++v) t[k][v] = mul(v << (8 * k), c);
      for (std::size_t i = 0; i + 3 < len; i += 4)
      {
        std::uint32_t x, y;
        memcpy(&x, src + i, 4); memcpy(&y, dst + i, 4);
        y ^= use_tables ? t[0][x & 255] ^ t[1][(x >> 8) & 255] ^ t[2][(x >> 16) & 255] ^ t[3][x >> 24] : mul(x, c);
        memcpy(dst + i, &y, 4);
      }
    }
  }

  // c * size, where the size is seen as a vector of words when w < 16 (as for symbols), and as one
  // word otherwise.
  std::uint32_t mul_size(std::uint32_t sz, std::uint32_t c) const
  {
    if (w == 4)
    {
      std::uint32_t r = 0;
      for (unsigned k = 0; k < 16; k += 4) r |= mul((sz >> k) & 15, c) << k;
      return r;
    }
    if (w == 8) return mul(sz & 255, c) | (mul((sz >> 8) & 255, c) << 8);
    return mul(sz, c);
  }

  std::size_t word() const { return w <= 8 ? 1 : w / 8; }
};

// Rank of a matrix over the field.
inline std::size_t rank(const gf& f, std::vector<std::vector<std::uint32_t>> m)
{
  if (m.empty()) return 0;
  const auto cols = m[0].size();
  std::size_t r = 0;
  for (std::size_t c = 0; c < cols and r < m.size(); ++c)
  {
    auto p = r;
    while (p < m.size() and m[p][c] == 0) ++p;
    if (p == m.size()) continue;
    std::swap(m[p], m[r]);
    const auto i = f.inv(m[r][c]);
    for (auto& x : m[r]) x = f.mul(x, i);
    for (std::size_t k = 0; k < m.size(); ++k)
    {
      if (k == r or m[k][c] == 0) continue;
      const auto t = m[k][c];
      for (std::size_t j = 0; j < cols; ++j) m[k][j] ^= f.mul(t, m[r][j]);
    }
    ++r;
  }
  return r;
}

} // namespace ref

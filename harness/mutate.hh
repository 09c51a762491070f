// Hostile packets: structured garbage, and mutations of honest packets.
#pragma once
#include "coders.hh"
#include "model.hh"

namespace h {

inline ref::ids_t some_ids(pbt::Ctx& c, std::uint32_t around)
{
  // Raw list, not necessarily sorted nor without duplicates.
  ref::ids_t ids;
  const auto n = c.weighted({6, 1, 1}) == 0 ? c.range(0, 6) : c.log_range(0, 300);
  auto cur = static_cast<std::uint32_t>(c.chance(1, 6) ? c.draw(0xffffffffu) : c.draw(around + 4));
  for (std::size_t k = 0; k < n; ++k)
  {
    ids.push_back(cur);
    cur += static_cast<std::uint32_t>(c.weighted({10, 3, 1, 1}) == 0 ? 1 : c.pick<std::uint64_t>({0, 2, 3, 255, 65535, 65536, 0x7fffffff, 0xffffffff}));
  }
  return ids;
}

// A raw identifier list: arbitrary run lengths and gaps.
inline void put_raw_ids(pbt::Ctx& c, bytes& b, std::uint32_t around)
{
  const auto n = c.weighted({8, 1}) == 0 ? c.range(0, 5) : c.range(0, 40);
  auto announced = n;
  if (c.chance(1, 8)) announced = c.draw(65535);
  ref::put(b, announced, 2);
  if (announced == 0) return;
  ref::put(b, c.chance(1, 6) ? c.draw(0xffffffffu) : c.draw(around + 4), 4);
  for (std::size_t k = 1; k < n; ++k)
  {
    ref::put(b, c.weighted({6, 1, 1}) == 0 ? c.range(0, 4) : c.draw(255), 1);
    ref::put(b, c.weighted({6, 1}) == 0 ? c.range(0, 3) : c.draw(65535), 2);
  }
}

inline std::uint64_t hostile_size(pbt::Ctx& c, std::size_t real)
{
  switch (c.weighted({10, 2, 2, 1}))
  {
    case 0:  return real;
    case 1:  return real + c.range(0, 3);
    case 2:  return c.draw(std::min<std::size_t>(real + 40, 65535));
    default: return c.draw(65535);
  }
}

// A structurally plausible packet with arbitrary fields.
inline bytes garbage_packet(pbt::Ctx& c, std::uint32_t around)
{
  bytes b;
  const auto type = c.weighted({4, 8, 4, 1});
  ref::put(b, type == 3 ? c.draw(255) : type, 1);
  if (type == 0)
  {
    ref::put(b, c.draw(65535), 2);
    if (c.coin()) put_raw_ids(c, b, around); else ref::put_ids(b, some_ids(c, around));
  }
  else if (type == 3) { const auto v = c.bytes(c.range(0, 40)); b.insert(b.end(), v.begin(), v.end()); }
  else
  {
    ref::put(b, c.chance(1, 6) ? c.draw(0xffffffffu) : c.draw(around + 4), 4);
    const auto sz = c.weighted({6, 2, 1}) == 0 ? c.range(0, 20) : c.log_range(0, 400);
    ref::put(b, hostile_size(c, sz), 2);
    const auto v = c.bytes(sz);
    b.insert(b.end(), v.begin(), v.end());
    if (type == 1)
    {
      if (c.coin()) put_raw_ids(c, b, around); else ref::put_ids(b, some_ids(c, around));
      ref::put(b, c.coin() ? c.draw(0xffffffffu) : c.draw(300), 4);
    }
  }
  if (c.chance(1, 6)) b.resize(c.range(1, b.size()));
  return b;
}

// A mutation of an honest packet.
inline bytes mutate(pbt::Ctx& c, bytes b, const bytes* other)
{
  const auto n = c.range(1, 3);
  for (unsigned k = 0; k < n; ++k)
  {
    switch (c.draw(8))
    {
      case 0: b[c.draw(b.size() - 1)] = static_cast<char>(c.draw(255)); break;
      case 1: b[c.draw(b.size() - 1)] ^= static_cast<char>(1 << c.draw(7)); break;
      case 2: b.resize(c.range(1, b.size())); break;
      case 3: { const auto v = c.bytes(c.range(1, 12)); b.insert(b.end(), v.begin(), v.end()); break; }
      case 4: { const auto p = c.draw(b.size()); b.insert(b.begin() + static_cast<long>(p), static_cast<char>(c.draw(255))); break; }
      case 5: if (b.size() > 1) b.erase(b.begin() + static_cast<long>(c.draw(b.size() - 1))); break;
      case 6: if (other and not other->empty()) { const auto p = c.draw(b.size() - 1); const auto q = c.draw(other->size() - 1); b.resize(p); b.insert(b.end(), other->begin() + static_cast<long>(q), other->end()); if (b.empty()) b.push_back(1); } break;
      case 7: // the size field
        if (b.size() >= 7) { const auto v = c.pick<unsigned>({0, 1, 2, 3, 7, 15, 16, 17, 255, 256, 65535, static_cast<unsigned>(b.size() - 7), static_cast<unsigned>(b.size() - 6)}); b[5] = static_cast<char>(v >> 8); b[6] = static_cast<char>(v); } break;
      case 8: // an identifier
        if (b.size() >= 5) { const auto v = c.pick<std::uint64_t>({0, 1, 2, 5, 255, 0x7fffffff, 0xffffffff}); for (unsigned i = 0; i < 4; ++i) b[1 + i] = static_cast<char>(v >> (8 * (3 - i))); } break;
    }
  }
  // Identifier lists may announce up to 65534 * 255 identifiers: the check bounds what it sends.
  return b;
}

// Upper bound of the number of identifiers in the packet (as parsed), to keep cases cheap.
inline bool too_many_ids(const bytes& b)
{
  const auto p = ref::parse(b);
  return p.ids.size() > 6000;
}

} // namespace h

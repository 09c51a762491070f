// Independent codec of the packet format (big-endian):
//   ack    : 0 | nb_packets u16 | ids
//   repair : 1 | id u32 | symbol size u16 | symbol | ids | encoded size u32
//   source : 2 | id u32 | symbol size u16 | symbol
//   ids    : number of elements u16 (0: empty list; otherwise number of pairs + 1) | first id u32
//            | pairs (run length u8, gap u16); a pair of run length 0 holds the 16 high bits of the next gap
#pragma once

#include <cstdint>
#include <string>
#include <vector>

namespace ref {

using bytes = std::vector<char>;
using ids_t = std::vector<std::uint32_t>;

inline void put(bytes& b, std::uint64_t v, unsigned n) { for (unsigned i = n; i-- > 0;) b.push_back(static_cast<char>(v >> (8 * i))); }

inline void put_ids(bytes& b, const ids_t& ids)
{
  if (ids.empty()) { put(b, 0, 2); return; }
  std::vector<std::pair<unsigned, std::uint32_t>> pairs;
  for (std::size_t i = 1; i < ids.size();)
  {
    auto gap = ids[i] - ids[i - 1];
    if (gap > 65535)
    {
      pairs.emplace_back(0, gap >> 16);
      pairs.emplace_back(1, gap & 0xffff);
      ++i;
      continue;
    }
    unsigned run = 1;
    while (run < 255 and i + run < ids.size() and ids[i + run] - ids[i + run - 1] == gap) ++run;
    pairs.emplace_back(run, gap);
    i += run;
  }
  put(b, pairs.size() + 1, 2);
  put(b, ids[0], 4);
  for (auto& p : pairs) { put(b, p.first, 1); put(b, p.second, 2); }
}

inline bytes mk_source(std::uint32_t id, const bytes& sym)
{
  bytes b;
  put(b, 2, 1); put(b, id, 4); put(b, sym.size(), 2);
  b.insert(b.end(), sym.begin(), sym.end());
  return b;
}

inline bytes mk_repair(std::uint32_t id, const bytes& sym, const ids_t& ids, std::uint32_t encoded_size)
{
  bytes b;
  put(b, 1, 1); put(b, id, 4); put(b, sym.size(), 2);
  b.insert(b.end(), sym.begin(), sym.end());
  put_ids(b, ids);
  put(b, encoded_size, 4);
  return b;
}

inline bytes mk_ack(std::uint16_t nb, const ids_t& ids)
{
  bytes b;
  put(b, 0, 1); put(b, nb, 2); put_ids(b, ids);
  return b;
}

struct parsed
{
  int           type = -1;       // 0 ack, 1 repair, 2 source, -1 malformed
  std::uint32_t id = 0;
  bytes         sym;
  ids_t         ids;
  std::uint32_t encoded_size = 0;
  std::uint16_t nb_packets = 0;
  std::size_t   used = 0;        // bytes used
  std::string   error;
};

inline parsed parse(const bytes& b)
{
  parsed p;
  std::size_t pos = 0;
  bool bad = false;
  const auto get = [&](unsigned n)
  {
    std::uint64_t v = 0;
    if (bad or b.size() - pos < n) { bad = true; return v; }
    for (unsigned i = 0; i < n; ++i) v = (v << 8) | static_cast<unsigned char>(b[pos++]);
    return v;
  };
  const auto get_ids = [&]
  {
    const auto n = get(2);
    if (n == 0) return;
    auto cur = static_cast<std::uint32_t>(get(4));
    p.ids.push_back(cur);
    std::uint32_t pending = 0;
    for (std::uint64_t i = 1; i < n and not bad; ++i)
    {
      const auto run = get(1);
      const auto gap = static_cast<std::uint32_t>(get(2));
      if (bad) break;
      if (run == 0) { pending = gap << 16; continue; }
      for (std::uint64_t k = 0; k < run; ++k) { cur += gap + pending; pending = 0; p.ids.push_back(cur); }
    }
  };
  const auto type = get(1);
  if (not bad)
  {
    if (type == 0) { p.nb_packets = static_cast<std::uint16_t>(get(2)); get_ids(); }
    else if (type == 1 or type == 2)
    {
      p.id = static_cast<std::uint32_t>(get(4));
      const auto sz = get(2);
      if (not bad and b.size() - pos < sz) bad = true;
      if (not bad)
      {
        p.sym.assign(b.begin() + static_cast<long>(pos), b.begin() + static_cast<long>(pos + sz));
        pos += sz;
        if (type == 1) { get_ids(); p.encoded_size = static_cast<std::uint32_t>(get(4)); }
      }
    }
    else bad = true;
  }
  if (not bad) p.type = static_cast<int>(type);
  p.used = pos;
  return p;
}

} // namespace ref

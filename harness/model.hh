// Reference models: what an encoder and a decoder have to do, written from the protocol alone.
#pragma once

#include <cstdint>
#include <map>
#include <set>
#include <vector>

#include "gfref.hh"
#include "wire.hh"

namespace ref {

using store = std::map<std::uint32_t, bytes>;   // identifier -> bytes

// The repair `rid` of the given sources.
inline bytes encode_repair(const gf& f, std::uint32_t rid, const store& window)
{
  std::size_t sz = 0;
  ids_t ids;
  for (auto& kv : window) { sz = std::max(sz, kv.second.size()); ids.push_back(kv.first); }
  bytes sym(sz, 0);
  std::uint32_t es = 0;
  for (auto& kv : window)
  {
    const auto c = f.coeff(rid, kv.first);
    f.madd(kv.second.data(), sym.data(), kv.second.size(), c);
    es ^= f.mul_size(static_cast<std::uint32_t>(kv.second.size()), c);
  }
  return mk_repair(rid, sym, ids, es);
}

// ------------------------------------------------------------------------------------------------

// Which data a decoder must have, given the packets it received.
// Bytes are not modelled here: the truth is known to the harness.
struct decoder_model
{
  const gf&                f;
  bool                     in_order;
  bool                     has_front = false;
  std::uint32_t            front = 0;           // everything older is outdated
  std::set<std::uint32_t>  held;                // known, not outdated
  std::set<std::uint32_t>  ever;                // known at some point
  std::set<std::uint32_t>  missing;             // covered by a repair, unknown, not outdated
  std::map<std::uint32_t, std::set<std::uint32_t>> reps;  // live repairs -> unknowns
  std::uint32_t            next = 0;            // in-order: first not yet given
  std::set<std::uint32_t>  waiting;             // in-order: known, not yet given
  std::size_t              decoded = 0, useless = 0;
  bool                     singular = false;    // a dependent repair was (or could be) dropped
  bool                     uncertain = false;   // recovery could depend on which one was dropped
  std::size_t              multi = 0;           // number of recoveries by solving >= 2 unknowns
  std::size_t              max_solved = 0;
  std::size_t              abandoned = 0;
  std::vector<std::uint32_t> out;               // given to the user during the current packet

  decoder_model(unsigned w, bool order) : f(gf::get(w)), in_order(order) {}

  void give(std::uint32_t id) { out.push_back(id); }

  void flush()
  {
    while (waiting.count(next)) { give(next); waiting.erase(next); ++next; }
  }

  void learn(std::uint32_t id)
  {
    held.insert(id);
    ever.insert(id);
    missing.erase(id);
    for (auto it = reps.begin(); it != reps.end();)
    {
      it->second.erase(id);
      if (it->second.empty()) it = reps.erase(it); else ++it;
    }
    if (not in_order) give(id);
    else { waiting.insert(id); flush(); }
  }

  void propagate()
  {
    bool again = true;
    while (again)
    {
      again = false;
      for (auto& r : reps)
      {
        if (r.second.size() == 1)
        {
          const auto id = *r.second.begin();
          learn(id);
          ++decoded;
          again = true;
          break;
        }
      }
      if (again) continue;
      if (not missing.empty() and reps.size() >= missing.size())
      {
        std::vector<std::vector<std::uint32_t>> m;
        for (auto& r : reps)
        {
          std::vector<std::uint32_t> row;
          for (auto id : missing) row.push_back(r.second.count(id) ? f.coeff(r.first, id) : 0);
          m.push_back(row);
        }
        if (rank(f, m) == missing.size())
        {
          ++multi;
          max_solved = std::max(max_solved, missing.size());
          decoded += missing.size();
          const auto all = missing;
          for (auto id : all) learn(id);
          again = true;
        }
        else singular = true;
      }
    }
    if (missing.empty() and reps.empty()) { singular = false; uncertain = false; }
  }

  void source(std::uint32_t id)
  {
    if (has_front and id < front) return;
    if (held.count(id)) return;
    learn(id);
    propagate();
  }

  void move_front(std::uint32_t id)
  {
    has_front = true;
    front = id;
    for (auto it = reps.begin(); it != reps.end();)
    {
      if (*it->second.begin() < id) { it = reps.erase(it); if (singular) uncertain = true; }
      else ++it;
    }
    if (in_order)
    {
      while (not waiting.empty() and *waiting.begin() < id) { give(*waiting.begin()); waiting.erase(waiting.begin()); }
      if (next < id) next = id;
      flush();
    }
    abandoned += static_cast<std::size_t>(std::distance(missing.begin(), missing.lower_bound(id)));
    held.erase(held.begin(), held.lower_bound(id));
    missing.erase(missing.begin(), missing.lower_bound(id));
  }

  void repair(std::uint32_t rid, const ids_t& ids)
  {
    if (ids.empty()) return;
    if (has_front and ids[0] < front) return;
    if (reps.count(rid)) return;
    if (not has_front or ids[0] > front) move_front(ids[0]);
    std::set<std::uint32_t> unknown;
    for (auto id : ids) if (not held.count(id)) unknown.insert(id);
    if (unknown.empty()) { ++useless; return; }
    missing.insert(unknown.begin(), unknown.end());
    reps[rid] = unknown;
    propagate();
  }

  void packet(const parsed& p)
  {
    out.clear();
    if (p.type == 2) source(p.id);
    else if (p.type == 1) repair(p.id, p.ids);
  }
};

} // namespace ref

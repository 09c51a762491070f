#include "script.hh"
#include <memory>
const char* const property_id = "C22";
// Coders are deterministic, independent of each other, and of how objects are given to them.
void run_case(pbt::Ctx& c)
{
  const auto n = c.range(2, 4);
  std::vector<h::script_t> scripts;
  for (unsigned k = 0; k < n; ++k)
  {
    // sometimes the same script, so that instances are in the same state at different moments
    if (k > 0 and c.chance(1, 4)) scripts.push_back(scripts[0]); else scripts.push_back(h::gen_script(c, 70));
    if (k > 0 and c.coin()) scripts[k].w = scripts[0].w == 16 or scripts[0].w == 32 ? scripts[k].w : (scripts[k].w <= 8 ? scripts[0].w : scripts[k].w);
  }
  // alone, one after the other
  std::vector<h::trace_t> alone;
  std::size_t decoded = 0, ops = 0;
  for (auto& s : scripts)
  {
    h::world x(s);
    while (not x.done()) { x.step(false); ++ops; }
    decoded += x.nb_decoded();
    alone.push_back(x.trace());
  }
  // interleaved, instances being created and destroyed on the way, or driven from within handlers of others
  std::vector<std::unique_ptr<h::world>> ws(n);
  std::vector<bool> finished(n, false), busy(n, false);
  std::size_t left = n, switches = 0, nested = 0, depth = 0;
  const auto nesting = c.coin() ? c.pick<unsigned>({4, 1, 2, 10}) : 0;
  std::function<void(bool)> turn = [&](bool inside)
  {
    auto k = c.draw(n - 1);
    for (std::size_t i = 0; i < n and (finished[k] or busy[k]); ++i) k = (k + 1) % n;
    if (finished[k] or busy[k]) return;
    if (inside) ++nested;
    if (not ws[k])
    {
      ws[k].reset(new h::world(scripts[k]));
      if (nesting) ws[k]->hook([&] { if (depth < 3 and c.chance(1, nesting)) { ++depth; turn(true); --depth; } });
    }
    busy[k] = true;
    auto burst = c.range(1, 8);
    while (burst-- and not ws[k]->done()) ws[k]->step(c.coin());
    busy[k] = false;
    ++switches;
    if (ws[k]->done())
    {
      h::same_traces(alone[k], ws[k]->trace(), "alone, and with other instances");
      ws[k].reset(); finished[k] = true; --left;
    }
  };
  while (left) turn(false);
  if (nested) c.label("driven from handlers of others");
  c.nontrivial(switches > n and decoded > 0);
  if (decoded) c.label("decoded");
  c.label("instances:" + std::to_string(2 * n));
  c.evaluations(ops);
  c.describe(std::to_string(n) + " pairs of coders, " + std::to_string(ops) + " operations, " + std::to_string(switches) + " switches, " + std::to_string(decoded) + " data decoded");
}

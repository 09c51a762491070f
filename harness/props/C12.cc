#include "script.hh"
#include <thread>
#include <atomic>
const char* const property_id = "C12";
// Distinct coders can be used from distinct threads without any synchronisation: same results as
// alone, no data race (ThreadSanitizer).
void run_case(pbt::Ctx& c)
{
  const auto n = c.range(2, 4);
  std::vector<h::script_t> scripts;
  for (unsigned k = 0; k < n; ++k)
  {
    if (k > 0 and c.chance(1, 2)) scripts.push_back(scripts[0]); else scripts.push_back(h::gen_script(c, 60));
  }
  for (unsigned w : {4u, 8u, 16u, 32u}) ref::gf::get(w);
  std::vector<h::trace_t> alone, together(n);
  std::size_t decoded = 0, ops = 0;
  for (auto& s : scripts)
  {
    h::world x(s);
    while (not x.done()) { x.step(false); ++ops; }
    decoded += x.nb_decoded();
    alone.push_back(x.trace());
  }
  std::vector<std::string> errors(n);
  std::atomic<unsigned> ready{0};
  {
    std::vector<std::thread> ts;
    for (unsigned k = 0; k < n; ++k) ts.emplace_back([&, k]
    {
      ++ready;
      while (ready < n) {}
      try
      {
        h::world x(scripts[k]);
        bool copies = k % 2;
        while (not x.done()) { x.step(copies); copies = not copies; }
        together[k] = x.trace();
      }
      catch (const pbt::Failure& f) { errors[k] = f.msg; }
    });
    for (auto& t : ts) t.join();
  }
  for (unsigned k = 0; k < n; ++k)
  {
    PBT_CHECK(errors[k].empty(), "%s", errors[k].c_str());
    h::same_traces(alone[k], together[k], "alone, and with other threads");
  }
  c.nontrivial(decoded > 0);
  if (decoded) c.label("decoded");
  c.label("threads:" + std::to_string(n));
  c.evaluations(ops);
  c.describe(std::to_string(n) + " threads, " + std::to_string(ops) + " operations, " + std::to_string(decoded) + " data decoded");
}

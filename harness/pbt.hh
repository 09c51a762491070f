// A small property-based testing engine (choice-sequence style, like Hypothesis).
//
// A test case is a pure function of a sequence of integer draws.  Generation draws them from a
// seeded PRNG and records them; shrinking edits the recorded sequence and re-runs the case;
// replaying reads the sequence from a file; the libFuzzer entry point reads it from bytes.
//
// Every batch of cases runs in a forked child which logs its draws in shared memory, so that a
// crash, a sanitizer report, a call to terminate or an endless loop is just another failure of
// the case, with its choice sequence known, and can be shrunk and replayed like any other.
#pragma once

#include <algorithm>
#include <cinttypes>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <exception>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

struct Failure { std::string msg; };

// ------------------------------------------------------------------------------------------------

struct Rng   // splitmix64-seeded xoshiro256**
{
  std::uint64_t s[4];
  explicit Rng(std::uint64_t seed)
  {
    for (auto& x : s)
    {
      seed += 0x9e3779b97f4a7c15ull;
      auto z = seed;
      z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
      z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
      x = z ^ (z >> 31);
    }
  }
  static std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  std::uint64_t operator()()
  {
    const auto r = rotl(s[1] * 5, 7) * 9;
    const auto t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
    return r;
  }
};

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h = (h ^ (h >> 31)) * 0xff51afd7ed558ccdull;
  return h ^ (h >> 29);
}

// ------------------------------------------------------------------------------------------------

constexpr std::size_t max_choices = 1u << 17;

struct Shm
{
  volatile std::uint64_t case_idx;
  volatile std::uint64_t nb_choices;
  volatile int           state;      // 0: running, 1: property failure, 2: batch complete
  char                   msg[8192];
  std::uint64_t          choices[max_choices];
};

// ------------------------------------------------------------------------------------------------

class Ctx
{
public:
  // generation
  Ctx(std::uint64_t seed, Shm* shm) : m_rng(seed), m_mode(gen), m_shm(shm) {}
  // replay
  Ctx(const std::vector<std::uint64_t>& c, Shm* shm) : m_rng(0), m_mode(replay_), m_in(&c), m_shm(shm) {}
  // bytes (libFuzzer)
  Ctx(const std::uint8_t* d, std::size_t n, Shm* shm = nullptr)
    : m_rng(0), m_mode(bytes_), m_bytes(d), m_nbytes(n), m_shm(shm) {}

  // A number in [0, max]; 0 is the simplest.
  std::uint64_t draw(std::uint64_t max)
  {
    std::uint64_t v = 0;
    switch (m_mode)
    {
      case gen:
        v = max == ~0ull ? m_rng() : m_rng() % (max + 1);
        break;
      case replay_:
        v = m_pos < m_in->size() ? std::min((*m_in)[m_pos], max) : 0;
        break;
      case bytes_:
      {
        auto m = max;
        do
        {
          std::uint64_t b = 0;
          if (m_nbytes) { b = *m_bytes++; --m_nbytes; }
          v = (v << 8) | b;
          m >>= 8;
        } while (m);
        if (max != ~0ull) v %= (max + 1);
        break;
      }
    }
    ++m_pos;
    m_hash = mix(m_hash, v);
    if (m_shm)
    {
      const auto n = m_shm->nb_choices;
      if (n < max_choices) { m_shm->choices[n] = v; m_shm->nb_choices = n + 1; }
    }
    if (m_record) m_recorded.push_back(v);
    return v;
  }

  std::uint64_t range(std::uint64_t lo, std::uint64_t hi) { return lo + draw(hi - lo); }

  // true with probability num/den; shrinks to false.
  bool chance(std::uint64_t num, std::uint64_t den) { return draw(den - 1) >= den - num; }
  bool coin() { return draw(1) == 1; }

  template <typename T>
  T pick(std::initializer_list<T> l) { return *(l.begin() + draw(l.size() - 1)); }
  template <typename T>
  const T& pick(const std::vector<T>& l) { return l[draw(l.size() - 1)]; }

  // index chosen with the given weights; shrinks to index 0.
  std::size_t weighted(std::initializer_list<unsigned> w)
  {
    std::uint64_t sum = 0;
    for (auto x : w) sum += x;
    auto v = draw(sum - 1);
    std::size_t i = 0;
    for (auto x : w) { if (v < x) return i; v -= x; ++i; }
    return 0;
  }

  // roughly log-uniform number in [lo, hi]
  std::uint64_t log_range(std::uint64_t lo, std::uint64_t hi)
  {
    if (hi <= lo) return lo;
    unsigned bits = 0;
    while ((hi - lo) >> bits) ++bits;
    const auto b = draw(bits);
    if (b == 0) return lo;
    const auto top = std::min<std::uint64_t>(hi - lo, b >= 64 ? ~0ull : ((1ull << b) - 1));
    const auto bottom = 1ull << (b - 1);
    return lo + (bottom >= top ? top : bottom + draw(top - bottom));
  }

  // n pseudo-random bytes, function of one draw (0: a fixed simple pattern)
  std::vector<char> bytes(std::size_t n)
  {
    const auto seed = draw(0xffff);
    return expand(seed, n);
  }

  static std::vector<char> expand(std::uint64_t seed, std::size_t n)
  {
    std::vector<char> v(n);
    if (seed == 0)
    {
      for (std::size_t i = 0; i < n; ++i) v[i] = static_cast<char>(i + 1);
    }
    else if (seed == 1)
    {
      // all zeroes
    }
    else if (seed == 2)
    {
      for (auto& x : v) x = static_cast<char>(0xff);
    }
    else
    {
      Rng r(seed);
      for (auto& x : v) x = static_cast<char>(r());
    }
    return v;
  }

  void label(const std::string& l) { m_labels.insert(l); }
  void nontrivial(bool b = true) { if (b) m_nontrivial = true; }
  void evaluations(std::uint64_t n) { m_evals += n; }   // extra oracle evaluations in this case
  void describe(const std::string& s) { m_desc = s; }
  void append(const std::string& s) { if (m_desc.size() < 400) { m_desc += s; } }

  bool tracing() const { return m_tracing; }
  void log(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
  {
    if (not m_tracing) return;
    char buf[1024];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    fprintf(stdout, "  %s\n", buf);
    fflush(stdout);
  }

  bool                  m_tracing = false;
  bool                  m_record = false;
  std::vector<std::uint64_t> m_recorded;
  std::set<std::string> m_labels;
  bool                  m_nontrivial = false;
  std::uint64_t         m_hash = 1469598103934665603ull;
  std::uint64_t         m_evals = 0;
  std::string           m_desc;

private:
  Rng                   m_rng;
  enum {gen, replay_, bytes_} m_mode;
  const std::vector<std::uint64_t>* m_in = nullptr;
  const std::uint8_t*   m_bytes = nullptr;
  std::size_t           m_nbytes = 0;
  std::size_t           m_pos = 0;
  Shm*                  m_shm = nullptr;
};

inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
inline void fail(const char* fmt, ...)
{
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof buf, fmt, ap);
  va_end(ap);
  throw Failure{buf};
}

#define PBT_CHECK(cond, ...) do { if (not (cond)) ::pbt::fail(__VA_ARGS__); } while (0)

inline std::string hex(const char* d, std::size_t n, std::size_t max = 24)
{
  static const char* digits = "0123456789abcdef";
  std::string s;
  for (std::size_t i = 0; i < n and i < max; ++i)
  {
    s += digits[(static_cast<unsigned char>(d[i]) >> 4) & 15];
    s += digits[static_cast<unsigned char>(d[i]) & 15];
  }
  if (n > max) s += "...(" + std::to_string(n) + " bytes)";
  return s;
}
inline std::string hex(const std::vector<char>& v, std::size_t max = 24) { return hex(v.data(), v.size(), max); }

} // namespace pbt

// Every property file defines these.
void run_case(pbt::Ctx&);
extern const char* const property_id;

namespace pbt {

enum outcome {ok = 0, failed = 1, crashed = 2, hung = 3};

constexpr unsigned case_cpu_limit_s = 60;

inline void arm_cpu_limit()
{
  // CPU time, not wall-clock time: a slow machine is not a failure.
  itimerval it{};
  it.it_value.tv_sec = case_cpu_limit_s;
  setitimer(ITIMER_PROF, &it, nullptr);
}

inline void on_cpu_limit(int) { _exit(88); }

inline outcome classify(int status, Shm* shm, std::string& msg)
{
  if (WIFEXITED(status))
  {
    switch (WEXITSTATUS(status))
    {
      case 0:  return ok;
      case 10: msg = shm->msg; return failed;
      case 88: msg = "case did not terminate within " + std::to_string(case_cpu_limit_s) + " s of CPU time"; return hung;
      default: msg = "process died: exit status " + std::to_string(WEXITSTATUS(status))
                   + (WEXITSTATUS(status) == 99 ? " (sanitizer report)" : ""); return crashed;
    }
  }
  if (WIFSIGNALED(status))
  {
    msg = std::string("process died: signal ") + std::to_string(WTERMSIG(status)) + " ("
        + strsignal(WTERMSIG(status)) + ")";
    return crashed;
  }
  msg = "process died";
  return crashed;
}

// Run the case in this process. Returns normally if the property held.
inline void run_guarded(Ctx& c)
{
  try
  {
    run_case(c);
  }
  catch (const Failure&)
  {
    throw;
  }
  catch (const std::exception& e)
  {
    throw Failure{std::string("unexpected exception: ") + e.what()};
  }
}

inline void set_msg(Shm* shm, const std::string& m)
{
  const auto n = std::min(m.size(), sizeof(shm->msg) - 1);
  memcpy(shm->msg, m.data(), n);
  shm->msg[n] = 0;
}

inline void silence()
{
  const int fd = open("/dev/null", O_WRONLY);
  if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); close(fd); }
}

inline Shm* mk_shm()
{
  void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  return static_cast<Shm*>(p);
}

inline outcome eval_choices(const std::vector<std::uint64_t>& ch, Shm* shm, std::string& msg
                           , std::vector<std::uint64_t>* used = nullptr)
{
  shm->nb_choices = 0;
  shm->msg[0] = 0;
  const auto pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0)
  {
    silence();
    signal(SIGPROF, on_cpu_limit);
    arm_cpu_limit();
    Ctx c(ch, shm);
    try { run_guarded(c); }
    catch (const Failure& f) { set_msg(shm, f.msg); _exit(10); }
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0) {}
  const auto res = classify(status, shm, msg);
  if (used)
  {
    used->assign(shm->choices, shm->choices + shm->nb_choices);
    while (not used->empty() and used->back() == 0) used->pop_back();
  }
  return res;
}

inline double now_s()
{
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + static_cast<double>(ts.tv_nsec) * 1e-9;
}

inline void shrink(std::vector<std::uint64_t>& best, outcome kind, std::string& msg, Shm* shm, double budget)
{
  if (kind == hung) return;
  const auto deadline = now_s() + budget;
  const auto try_ = [&](const std::vector<std::uint64_t>& cand)
  {
    if (now_s() > deadline) return false;
    std::string m;
    std::vector<std::uint64_t> used;
    if (eval_choices(cand, shm, m, &used) == kind)
    {
      if (used.size() < best.size() or (used.size() == best.size() and used <= best))
      {
        const bool better = used != best;
        best = used;
        msg = m;
        return better;
      }
    }
    return false;
  };

  bool progress = true;
  while (progress and now_s() < deadline)
  {
    progress = false;
    // delete blocks
    for (std::size_t len = std::max<std::size_t>(best.size() / 2, 1); len >= 1; len = len == 1 ? 0 : len / 2)
    {
      for (std::size_t i = best.size(); i > 0 and now_s() < deadline; )
      {
        const auto start = i >= len ? i - len : 0;
        if (start < best.size())
        {
          auto cand = best;
          cand.erase(cand.begin() + static_cast<long>(start)
                    , cand.begin() + static_cast<long>(std::min(start + len, cand.size())));
          if (try_(cand)) { progress = true; if (i > best.size()) i = best.size(); continue; }
        }
        i = start;
      }
      if (len == 1) break;
    }
    // zero, then minimise, each choice
    for (std::size_t i = 0; i < best.size() and now_s() < deadline; ++i)
    {
      if (best[i] == 0) continue;
      auto cand = best;
      cand[i] = 0;
      if (try_(cand)) { progress = true; continue; }
      std::uint64_t lo = 0, hi = best[i];
      while (lo + 1 < hi and now_s() < deadline and i < best.size())
      {
        const auto mid = lo + (hi - lo) / 2;
        cand = best;
        if (i >= cand.size()) break;
        cand[i] = mid;
        if (try_(cand)) { progress = true; hi = i < best.size() ? best[i] : 0; }
        else lo = mid;
      }
    }
  }
}

inline std::string json_escape(const std::string& s)
{
  std::string r;
  for (unsigned char ch : s)
  {
    if (ch == '"' or ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
    else if (ch == '\n') r += "\\n";
    else if (ch < 32 or ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += static_cast<char>(ch);
  }
  return r;
}

inline std::uint64_t case_seed(std::uint64_t seed, std::uint64_t idx)
{
  std::uint64_t h = mix(0x6e6574636f6465ull, seed);
  for (const char* p = property_id; *p; ++p) h = mix(h, static_cast<unsigned char>(*p));
  return mix(h, idx);
}

struct Stats
{
  double slowest = 0;   // s of CPU time
  std::uint64_t evaluations = 0, oracle_evals = 0, nontrivial = 0;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::uint64_t> hashes;
  std::vector<std::string> samples;
};

inline void write_stats(const std::string& path, const Stats& s)
{
  std::ofstream os(path, std::ios::binary);
  os << "{\"evaluations\":" << s.evaluations << ",\"oracle_evals\":" << s.oracle_evals
     << ",\"nontrivial\":" << s.nontrivial << ",\"slowest\":" << s.slowest << ",\"labels\":{";
  bool first = true;
  for (auto& kv : s.labels)
  {
    os << (first ? "" : ",") << '"' << json_escape(kv.first) << "\":" << kv.second;
    first = false;
  }
  os << "},\"samples\":[";
  first = true;
  for (auto& x : s.samples) { os << (first ? "" : ",") << '"' << json_escape(x) << '"'; first = false; }
  os << "]}\n";
  std::ofstream hs(path + ".hashes", std::ios::binary);
  hs.write(reinterpret_cast<const char*>(s.hashes.data()), static_cast<std::streamsize>(s.hashes.size() * 8));
}

inline void report_failure( std::vector<std::uint64_t> best, outcome kind, std::string msg, Shm* shm, const std::string& path
                          , const std::string& origin)
{
  const auto orig_size = best.size();
  std::string m2;
  std::vector<std::uint64_t> used;
  const auto again = eval_choices(best, shm, m2, &used);
  const bool reproduced = again != ok;
  if (reproduced)
  {
    kind = again;
    msg = m2;
    best = used;
    shrink(best, kind, msg, shm, 25);
  }
  std::ofstream os(path);
  os << "# property " << property_id << "\n# " << origin << "\n# kind "
     << (kind == failed ? "property" : kind == crashed ? "crash" : "hang") << "\n# reproduced " << reproduced
     << "\n# shrunk from " << orig_size << " to " << best.size() << " choices\n# ";
  for (char ch : msg) { os << ch; if (ch == '\n') os << "# "; }
  os << "\nchoices";
  for (auto v : best) os << ' ' << v;
  os << "\n";
}

// run SEED WORKER NB_WORKERS COUNT TIME_CAP_S OUT_PREFIX
inline int cmd_run(char** argv)
{
  const auto seed = strtoull(argv[0], nullptr, 10);
  const auto worker = strtoull(argv[1], nullptr, 10);
  const auto nb_workers = strtoull(argv[2], nullptr, 10);
  const auto count = strtoull(argv[3], nullptr, 10);
  const auto cap = strtod(argv[4], nullptr);
  const std::string out = argv[5];

  auto* shm = mk_shm();
  const auto t0 = now_s();
  shm->state = 0;
  const auto pid = fork();
  if (pid < 0) { perror("fork"); return 3; }
  if (pid == 0)
  {
    silence();
    signal(SIGPROF, on_cpu_limit);
    Stats st;
    std::unordered_set<std::uint64_t> seen;
    std::uint64_t done = 0;
    for (auto idx = worker; idx < count; idx += nb_workers, ++done)
    {
      if ((done & 7) == 0 and now_s() - t0 > cap) break;
      shm->case_idx = idx;
      shm->nb_choices = 0;
      if ((done & 31) == 0) arm_cpu_limit();
      const auto cpu0 = clock();
      Ctx c(case_seed(seed, idx), shm);
      try { run_guarded(c); }
      catch (const Failure& f)
      {
        set_msg(shm, f.msg);
        write_stats(out + ".stats", st);
        _exit(10);
      }
      ++st.evaluations;
      st.slowest = std::max(st.slowest, static_cast<double>(clock() - cpu0) / CLOCKS_PER_SEC);
      st.oracle_evals += c.m_evals + 1;
      for (auto& l : c.m_labels) ++st.labels[l];
      if (c.m_nontrivial)
      {
        ++st.nontrivial;
        if (seen.insert(c.m_hash).second) st.hashes.push_back(c.m_hash);
        if (st.samples.size() < 4 and not c.m_desc.empty() and (st.nontrivial & (st.nontrivial - 1)) == 0 and st.nontrivial >= 2)
          st.samples.push_back("case " + std::to_string(idx) + ": " + c.m_desc);
      }
    }
    write_stats(out + ".stats", st);
    shm->state = 2;
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0) {}
  std::string msg;
  auto kind = classify(status, shm, msg);
  if (kind == ok) return 0;

  // A failure: shrink it.
  const auto idx = shm->case_idx;
  std::vector<std::uint64_t> best(shm->choices, shm->choices + shm->nb_choices);
  report_failure(best, kind, msg, shm, out + ".fail", "seed " + std::to_string(seed) + " worker " + std::to_string(worker)
                + "/" + std::to_string(nb_workers) + " case " + std::to_string(idx));
  return 1;
}

inline std::vector<std::uint64_t> read_choices(const char* path)
{
  std::ifstream is(path);
  std::vector<std::uint64_t> ch;
  std::string line;
  while (std::getline(is, line))
  {
    if (line.compare(0, 7, "choices") == 0)
    {
      std::istringstream ss(line.substr(7));
      std::uint64_t v;
      while (ss >> v) ch.push_back(v);
    }
  }
  return ch;
}

// replay FILE: exit 0 if the property holds on it, 1 (or dies) otherwise
inline int cmd_replay(const char* path)
{
  const auto ch = read_choices(path);
  signal(SIGPROF, on_cpu_limit);
  arm_cpu_limit();
  Ctx c(ch, nullptr);
  c.m_tracing = true;
  try { run_guarded(c); }
  catch (const Failure& f)
  {
    printf("FAILED: %s\n", f.msg.c_str());
    return 1;
  }
  printf("OK: %s\n", c.m_desc.c_str());
  return 0;
}

// frombytes IN OUT: turn an input saved by libFuzzer into a (shrunk) choice sequence
inline int cmd_frombytes(const char* in, const char* out)
{
  std::ifstream is(in, std::ios::binary);
  const std::string b((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  auto* shm = mk_shm();
  const auto pid = fork();
  if (pid == 0)
  {
    silence();
    signal(SIGPROF, on_cpu_limit);
    arm_cpu_limit();
    Ctx c(reinterpret_cast<const std::uint8_t*>(b.data()), b.size(), shm);
    try { run_guarded(c); }
    catch (const Failure& f) { set_msg(shm, f.msg); _exit(10); }
    _exit(0);
  }
  int status = 0;
  while (waitpid(pid, &status, 0) < 0) {}
  std::string msg;
  const auto kind = classify(status, shm, msg);
  if (kind == ok) return 0;
  std::vector<std::uint64_t> best(shm->choices, shm->choices + shm->nb_choices);
  report_failure(best, kind, msg, shm, out, "found by coverage-guided fuzzing");
  return 1;
}

inline int main_(int argc, char** argv)
{
  if (argc == 4 and strcmp(argv[1], "frombytes") == 0) return cmd_frombytes(argv[2], argv[3]);
  if (argc == 8 and strcmp(argv[1], "run") == 0) return cmd_run(argv + 2);
  if (argc == 3 and strcmp(argv[1], "replay") == 0) return cmd_replay(argv[2]);
  if (argc == 4 and strcmp(argv[1], "case") == 0)
  {
    Ctx c(case_seed(strtoull(argv[2], nullptr, 10), strtoull(argv[3], nullptr, 10)), nullptr);
    c.m_tracing = true;
    try { run_guarded(c); } catch (const Failure& f) { printf("FAILED: %s\n", f.msg.c_str()); return 1; }
    printf("OK %s\n", c.m_desc.c_str());
    for (auto& l : c.m_labels) printf("  label %s\n", l.c_str());
    return 0;
  }
  fprintf(stderr, "usage: run SEED WORKER NB COUNT CAP OUT | replay FILE | case SEED IDX\n");
  return 3;
}

} // namespace pbt

#ifdef PBT_LIBFUZZER
// Coverage-guided search over the same cases: bytes are read as draws. The driver turns a failing
// input into an ordinary choice sequence with the frombytes command of the normal build.
// Counters go to PBT_FUZZ_STATS.
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
  static pbt::Stats st;
  static std::unordered_set<std::uint64_t> seen;
  static const bool registered = (atexit([]{ if (const char* p = getenv("PBT_FUZZ_STATS")) pbt::write_stats(p, st); }), true);
  (void)registered;
  pbt::Ctx c(data, size);
  try { pbt::run_guarded(c); }
  catch (const pbt::Failure& f)
  {
    fprintf(stderr, "PBT FAILURE: %s\n", f.msg.c_str());
    __builtin_trap();
  }
  ++st.evaluations;
  st.oracle_evals += c.m_evals + 1;
  if (c.m_nontrivial)
  {
    ++st.nontrivial;
    if (seen.insert(c.m_hash).second) st.hashes.push_back(c.m_hash);
  }
  return 0;
}
#else
int main(int argc, char** argv)
{
  return pbt::main_(argc, argv);
}
#endif

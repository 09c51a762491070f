#include "net.hh"
#include <cmath>
#include <istream>
#include "tools/loss/burst.hh"
#include "tools/loss/stream.hh"
#include "tools/loss/uniform.hh"
const char* const property_id = "C29";
int proxy_main(int, char**);
// The lossy proxy forwards, unaltered, exactly the packets its loss model lets through, both ways.
namespace {
std::string gen_file(pbt::Ctx& c, std::size_t n, std::vector<bool>& lost, bool first_ok)
{
  std::string s;
  lost.clear();
  const auto bias = c.draw(2);
  for (std::size_t k = 0; k < n; ++k)
  {
    const bool keep = (k == 0 and first_ok) or (bias == 0 ? c.coin() : bias == 1 ? c.chance(1, 5) : not c.chance(1, 5));
    const auto line = keep ? c.pick<const char*>({"0", "0", "00", "0 kept", "01"}) : c.pick<const char*>({"1", "1", "10", "x", "", " 0"});
    lost.push_back(not keep);
    s += line;
    if (k + 1 < n or line[0] == 0 or c.coin()) s += "\n";
  }
  return s;
}

void in_process(pbt::Ctx& c)
{
  // The rate is between low and high, give or take 6 standard deviations.
  const auto within = [](std::size_t k, std::size_t n, double low, double high)
  {
    const auto rate = static_cast<double>(k) / static_cast<double>(n), margin = 0.002 + 6 * std::sqrt(0.25 / static_cast<double>(n));
    return n == 0 or (rate >= low - margin and rate <= high + margin);
  };
  const bool a_lot = c.chance(1, 8);
  switch (c.draw(2))
  {
    case 0:
    {
      std::vector<bool> lost;
      const auto n = c.log_range(0, 200);
      std::istringstream s(gen_file(c, n, lost, false));
      loss::stream l(s);
      for (std::size_t k = 0; k < n + 5; ++k)
      {
        const bool expected = k < lost.size() and lost[k];
        PBT_CHECK(l() == expected, "packet %zu is %s", k, expected ? "kept" : "lost");
      }
      c.label("file"); c.nontrivial(n > 3); c.evaluations(n);
      c.describe("loss file of " + std::to_string(n) + " lines");
      break;
    }
    case 1:
    {
      const auto keep = static_cast<unsigned>(c.range(1, 99));
      loss::uniform l(keep);
      std::size_t lost = 0, pairs = 0, n = a_lot ? 400000 : 2000; bool before = false;
      for (std::size_t k = 0; k < n; ++k) { const bool x = l(); lost += x; pairs += x and before; before = x; }
      const auto p = 1 - keep / 100.;
      PBT_CHECK(within(lost, n, p, p), "%zu packets lost of %zu instead of %u%%", lost, n, 100 - keep);
      PBT_CHECK(lost < 100 or within(pairs, lost, p, p), "losses aren't independent: %zu losses follow one of %zu", pairs, lost);
      c.label("uniform"); c.nontrivial(true); c.evaluations(n);
      c.describe("uniform, " + std::to_string(100 - keep) + "% of loss: " + std::to_string(lost) + " lost of " + std::to_string(n));
      break;
    }
    default:
    {
      const auto good = static_cast<unsigned>(c.range(1, 100)), bad = static_cast<unsigned>(c.range(1, 100));
      loss::burst l(good, bad);
      std::size_t n = a_lot ? 400000 : 3000, nb[2] = {0, 0}, lost[2] = {0, 0}; bool before = false;
      for (std::size_t k = 0; k < n; ++k) { const bool x = l(); ++nb[before]; lost[before] += x; before = x; }
      PBT_CHECK(nb[0] < 100 or within(lost[0], nb[0], 1 - good / 100., 1.01 - good / 100.), "burst %u %u: %zu losses after %zu packets kept", good, bad, lost[0], nb[0]);
      PBT_CHECK(nb[1] < 100 or within(lost[1], nb[1], bad / 100. - 0.01, bad / 100.), "burst %u %u: %zu losses after %zu packets lost", good, bad, lost[1], nb[1]);
      c.label("burst"); c.nontrivial(true); c.evaluations(n);
      c.describe("burst " + std::to_string(good) + " " + std::to_string(bad) + ": " + std::to_string(lost[0] + lost[1]) + " lost of " + std::to_string(n));
    }
  }
}

// What is in flight has to fit in the buffer of a socket.
std::size_t gen_size(pbt::Ctx& c, bool small) { return small ? c.log_range(1, 300) : c.chance(1, 6) ? c.pick<std::size_t>({4096, 4095, 2048, 1}) : c.log_range(1, 1500); }

void through_proxy(pbt::Ctx& c)
{
  const auto mode = c.chance(1, 6) ? c.range(1, 2) : 0;
  net::socket_ a, b;
  std::vector<bool> lost_a, lost_b;
  const auto fa = std::to_string(getpid()) + "a.loss", fb = std::to_string(getpid()) + "b.loss";
  struct remove_files { const std::string &a, &b; ~remove_files() { ::unlink(a.c_str()); ::unlink(b.c_str()); } } remove{fa, fb};
  if (mode == 0)
  {
    std::ofstream(fa) << gen_file(c, c.log_range(1, 40), lost_a, true);
    std::ofstream(fb) << gen_file(c, c.log_range(0, 40), lost_b, false);
  }
  net::tool t([&](std::uint16_t port)
  {
    const auto p = std::to_string(port), q = std::to_string(b.port);
    std::vector<std::string> args{"proxy", p, "127.0.0.1", q};
    if (mode == 0) { args.push_back("file"); args.push_back(fa); args.push_back(fb); }
    else if (mode == 1) { args.push_back("uniform"); args.push_back("1"); args.push_back("99"); }
    else { args.push_back("burst"); args.push_back("100"); args.push_back("1"); args.push_back("1"); args.push_back("100"); }
    std::vector<char*> v; for (auto& s : args) v.push_back(&s[0]);
    v.push_back(nullptr);
    proxy_main(static_cast<int>(args.size()), v.data());
  });
  a.to(t.port);
  std::size_t na = 0, nb = 0, dropped = 0, passed = 0;
  net::bytes got;
  if (mode == 0)
  {
    const auto send = [&](net::socket_& from, const std::vector<bool>& lost, std::size_t& rank, std::size_t n, const char* way, std::vector<net::bytes>& expected)
    {
      for (std::size_t k = 0; k < n; ++k)
      {
        if (c.chance(1, 10)) from.send({});   // ignored
        const auto x = c.bytes(gen_size(c, n > 10));
        const bool l = rank < lost.size() and lost[rank];
        ++rank;
        c.log("%s: %zu bytes%s", way, x.size(), l ? ", lost" : "");
        if (l) ++dropped; else { ++passed; expected.push_back(x); }
        from.send(x);
      }
    };
    const auto receive = [&](net::socket_& to, const char* way, const std::vector<net::bytes>& expected)
    {
      for (std::size_t k = 0; k < expected.size(); ++k)
      {
        PBT_CHECK(to.receive(got, 3000, [&] { return t.alive(); }), "%s: %zu packet(s) not lost were not forwarded%s", way, expected.size() - k, t.alive() ? "" : " (the proxy stopped)");
        PBT_CHECK(got == expected[k], "%s: received %zu bytes which aren't the %zu bytes expected", way, got.size(), expected[k].size());
      }
    };
    const auto exchange = [&](net::socket_& from, net::socket_& to, const std::vector<bool>& lost, std::size_t& rank, std::size_t n, const char* way)
    {
      std::vector<net::bytes> expected;
      send(from, lost, rank, n, way, expected);
      receive(to, way, expected);
    };
    exchange(a, b, lost_a, na, 1, "a->b");
    const auto rounds = c.range(1, 8);
    for (std::size_t r = 0; r < rounds; ++r)
    {
      if (c.chance(1, 3))
      {
        // Packets of both ways are there when the proxy looks at its sockets.
        std::vector<net::bytes> to_b, to_a;
        t.freeze();
        send(a, lost_a, na, c.range(1, 4), "a->b", to_b);
        send(b, lost_b, nb, c.range(1, 4), "b->a", to_a);
        t.resume();
        receive(b, "a->b", to_b);
        receive(a, "b->a", to_a);
        c.label("both ways at once");
      }
      else if (c.coin()) exchange(a, b, lost_a, na, c.range(1, 10), "a->b");
      else exchange(b, a, lost_b, nb, c.range(1, 10), "b->a");
    }
    // Last ones, which get through: nothing else comes before.
    exchange(a, b, lost_a, na, std::max(lost_a.size(), na) - na + 1, "a->b");
    exchange(b, a, lost_b, nb, std::max(lost_b.size(), nb) - nb + 1, "b->a");
    PBT_CHECK(not a.receive(got, 0) and not b.receive(got, 0), "a packet of %zu bytes too many", got.size());
    c.label("proxy:file");
  }
  else
  {
    // few losses one way, a lot of them the other way
    const std::size_t n = 40;
    for (std::size_t k = 0; k < n; ++k) a.send(c.bytes(20));
    for (; passed < n / 2; ++passed) PBT_CHECK(b.receive(got, 3000, [&] { return t.alive(); }), "%zu packets forwarded of %zu, although few should be lost", passed, n);
    for (std::size_t k = 0; k < n; ++k) b.send(c.bytes(20));
    std::size_t k = 0;
    while (a.receive(got, 50)) ++k;
    dropped = n - k;
    PBT_CHECK(k <= n / 2, "%zu packets forwarded of %zu, although most should be lost", k, n);
    c.label(mode == 1 ? "proxy:uniform" : "proxy:burst");
  }
  PBT_CHECK(t.alive(), "the proxy stopped");
  c.nontrivial(dropped > 0 and passed > 1);
  c.evaluations(dropped + passed);
  c.describe("proxy (" + std::string(mode == 0 ? "file" : mode == 1 ? "uniform" : "burst") + "): " + std::to_string(dropped) + " dropped, " + std::to_string(passed) + " forwarded");
}
}
void run_case(pbt::Ctx& c)
{
  if (c.chance(1, 2)) through_proxy(c); else in_process(c);
}

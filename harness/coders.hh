// The real coders, wired to plain vectors; and the virtual clock they read.
#pragma once

#include <chrono>
#include <cstring>
#include <functional>
#include <vector>

#include "netcode/decoder.hh"
#include "netcode/encoder.hh"

#include "pbt.hh"
#include "wire.hh"

// Virtual steady clock (replaces libstdc++'s): time moves only when a case moves it.
inline std::int64_t& virtual_now_ns() { static std::int64_t t = 1000000000; return t; }
#ifndef PBT_REAL_CLOCK
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
  return time_point(duration(::virtual_now_ns()));
}
}}}
#endif

namespace h {

using ref::bytes;

struct packet_sink
{
  std::vector<bytes> packets;
  bytes              current;
  std::size_t        nb_end = 0;
  bool               partial_end = false;   // an end of packet without any byte
  std::function<void()> hook;               // called once a packet is recorded

  void operator()(const char* d, std::size_t n) { current.insert(current.end(), d, d + n); }
  void operator()()
  {
    ++nb_end;
    if (current.empty()) partial_end = true;
    packets.push_back(std::move(current));
    current.clear();
    if (hook) hook();
  }
};

struct data_sink
{
  std::vector<bytes> data;
  bool               aligned = true;
  std::function<void()> hook;               // called once a datum is recorded
  void operator()(const char* d, std::size_t n)
  {
    if (reinterpret_cast<std::uintptr_t>(d) % 16 != 0) aligned = false;
    if (not hook) { data.emplace_back(d, d + n); return; }
    data.emplace_back(d, d + n);
    hook();
    // what the handler was given remains valid until it returns
    PBT_CHECK(data.back().size() == n and std::equal(d, d + n, data.back().begin()), "a datum changed while its handler was running");
  }
};

// handlers by reference, so that the harness owns the storage
struct packet_ref
{
  packet_sink* s;
  void operator()(const char* d, std::size_t n) { (*s)(d, n); }
  void operator()() { (*s)(); }
};
struct data_ref
{
  data_sink* s;
  void operator()(const char* d, std::size_t n) { (*s)(d, n); }
};

using encoder = ntc::encoder<packet_ref>;
using decoder = ntc::decoder<packet_ref, data_ref>;

inline ntc::packet to_packet(const bytes& b) { return ntc::packet(b.begin(), b.end()); }
inline ntc::data   to_data(const bytes& b) { return ntc::data(b.begin(), b.end()); }

inline ntc::in_order order(bool b) { return b ? ntc::in_order::yes : ntc::in_order::no; }

} // namespace h

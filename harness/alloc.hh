// Interposes the allocation functions used by the library: counts what is alive, and makes a chosen
// allocation fail. To be included by exactly one file of a program; needs the linker options
// -Wl,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=malloc,--wrap=free
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstdlib>
#include <malloc.h>
#include <new>

extern "C" void* __real_malloc(std::size_t);
extern "C" void __real_free(void*);

namespace alloc {

struct state_t
{
  bool         armed = false;      // count and maybe fail the allocations
  std::int64_t countdown = -1;     // fail when it reaches 0
  std::size_t  nb = 0;             // allocations since arm()
  std::size_t  failed = 0;         // failed ones
  std::size_t  failed_throwing = 0;
  bool         sticky = false;     // all the following ones fail too
  void (*thrower)() = nullptr;     // what to throw instead of bad_alloc
  std::int64_t live_blocks = 0;
  std::int64_t live_bytes = 0;
};
inline state_t& st() { static state_t s; return s; }

inline bool must_fail()
{
  auto& s = st();
  if (not s.armed) return false;
  ++s.nb;
  if (s.countdown < 0) return false;
  if (s.countdown == 0) { ++s.failed; if (not s.sticky) s.countdown = -1; return true; }
  --s.countdown;
  return false;
}
inline void* track(void* p)
{
  if (p) { ++st().live_blocks; st().live_bytes += static_cast<std::int64_t>(malloc_usable_size(p)); }
  return p;
}
inline void untrack(void* p)
{
  if (p) { --st().live_blocks; st().live_bytes -= static_cast<std::int64_t>(malloc_usable_size(p)); }
}
inline void arm(std::int64_t at, bool sticky = false, void (*thrower)() = nullptr)
{
  auto& s = st();
  s.armed = true; s.countdown = at; s.nb = s.failed = s.failed_throwing = 0; s.sticky = sticky; s.thrower = thrower;
}
inline void disarm() { st().armed = false; st().countdown = -1; st().thrower = nullptr; }

// Harness code running within library calls (handlers) doesn't count.
struct pause
{
  bool was;
  pause() : was(st().armed) { st().armed = false; }
  ~pause() { st().armed = was; }
};

} // namespace alloc

void* operator new(std::size_t n)
{
  if (alloc::must_fail())
  {
    ++alloc::st().failed_throwing;
    if (alloc::st().thrower) { alloc::pause p; alloc::st().thrower(); }
    throw std::bad_alloc();
  }
  void* p = alloc::track(__real_malloc(n ? n : 1));
  if (not p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
  if (alloc::must_fail()) return nullptr;
  return alloc::track(__real_malloc(n ? n : 1));
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { alloc::untrack(p); __real_free(p); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

extern "C" void* __wrap_malloc(std::size_t n) { return alloc::track(__real_malloc(n)); }
extern "C" void __wrap_free(void* p) { alloc::untrack(p); __real_free(p); }
extern "C" int __real_posix_memalign(void**, std::size_t, std::size_t);
extern "C" int __wrap_posix_memalign(void** p, std::size_t a, std::size_t n)
{
  // callers turn the failure into std::bad_alloc
  if (alloc::must_fail()) { ++alloc::st().failed_throwing; return ENOMEM; }
  const auto res = __real_posix_memalign(p, a, n);
  if (res == 0) alloc::track(*p);
  return res;
}
extern "C" void* __real_aligned_alloc(std::size_t, std::size_t);
extern "C" void* __wrap_aligned_alloc(std::size_t a, std::size_t n)
{
  if (alloc::must_fail()) { ++alloc::st().failed_throwing; return nullptr; }
  return alloc::track(__real_aligned_alloc(a, n));
}

// gf-complete is a prebuilt library, invisible to AddressSanitizer. This interposes gf_init_easy()
// and wraps the region multiplication so that both regions are checked against ASan's shadow
// memory before the library touches them.
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <dlfcn.h>

extern "C" {
#include <gf_complete.h>
}

#if defined(__SANITIZE_ADDRESS__)
#define GUARD 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define GUARD 1
#endif
#endif


#ifdef GUARD
extern "C" void* __asan_region_is_poisoned(void*, std::size_t);
#endif

// Initialising a field costs more than 1 ms (tables): unless GF_NO_CACHE is defined, the tables are
// built once per process and field size, and shared by all instances.

namespace {

using region_fn = void (*)(gf_t*, void*, void*, gf_val_32_t, int, int);
region_fn originals[4] = {nullptr, nullptr, nullptr, nullptr};
gf_t      cached[4];
bool      have[4] = {false, false, false, false};

template <int I>
void guarded(gf_t* gf, void* src, void* dst, gf_val_32_t val, int bytes, int add)
{
#ifdef GUARD
  if (bytes > 0)
  {
    // Touch the first bad byte from instrumented code: ASan then reports it.
    if (void* p = __asan_region_is_poisoned(src, static_cast<std::size_t>(bytes)))
    {
      volatile char c = *static_cast<volatile char*>(p);
      (void)c;
      abort();
    }
    if (void* p = __asan_region_is_poisoned(dst, static_cast<std::size_t>(bytes)))
    {
      *static_cast<volatile char*>(p) = 0;
      abort();
    }
  }
#endif
  originals[I](gf, src, dst, val, bytes, add);
}

const region_fn wrappers[4] = {guarded<0>, guarded<1>, guarded<2>, guarded<3>};

} // namespace

// Set to make the next initialisation fail.
int gf_fail_next = 0;

// Fields initialised and not freed.
int gf_live = 0;

extern "C" int gf_init_easy(gf_t* gf, int w)
{
  if (gf_fail_next) { gf_fail_next = 0; return 0; }
  using init_fn = int (*)(gf_t*, int);
  static init_fn real = reinterpret_cast<init_fn>(dlsym(RTLD_NEXT, "gf_init_easy"));
  const int i = w == 4 ? 0 : w == 8 ? 1 : w == 16 ? 2 : w == 32 ? 3 : -1;
  if (i < 0) return real(gf, w);
#ifndef GF_NO_CACHE
  if (not have[i])
  {
    if (not real(&cached[i], w)) return 0;
    have[i] = true;
    originals[i] = cached[i].multiply_region.w32;
    cached[i].multiply_region.w32 = wrappers[i];
  }
  *gf = cached[i];
  ++gf_live;
  return 1;
#else
  const int res = real(gf, w);
  if (res)
  {
    ++gf_live;
    originals[i] = gf->multiply_region.w32;
    gf->multiply_region.w32 = wrappers[i];
  }
  return res;
#endif
}

extern "C" int gf_free(gf_t* gf, int recursive)
{
  using free_fn = int (*)(gf_t*, int);
  static free_fn real = reinterpret_cast<free_fn>(dlsym(RTLD_NEXT, "gf_free"));
  for (int i = 0; i < 4; ++i) if (have[i] and gf->scratch == cached[i].scratch) { --gf_live; return 0; }
  --gf_live;
  return real(gf, recursive);
}

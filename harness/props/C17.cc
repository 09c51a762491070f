#include "alloc.hh"
#include "mutate.hh"
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/packet.h"
const char* const property_id = "C17";
// The C interface reports failures: whatever goes wrong inside, and wherever, nothing propagates nor
// terminates, the error tells what happened, constructors return null, nothing leaks.
extern int gf_fail_next, gf_live;
namespace {
struct pctx { h::packet_sink s; };
struct dctx { h::data_sink s; };
void prepare(void* x, const char* d, size_t n) { alloc::pause p; static_cast<pctx*>(x)->s(d, n); }
void send_(void* x) { alloc::pause p; static_cast<pctx*>(x)->s(); }
void read_(void* x, const char* d, size_t n) { alloc::pause p; static_cast<dctx*>(x)->s(d, n); }
const char* nm(ntc_error_type t) { static const char* const n[] = {"no error", "unknown error", "no memory", "packet type error", "overflow error"}; return unsigned(t) < 5 ? n[t] : "?"; }

std::string text;
struct custom : std::exception { const char* what() const noexcept override { return text.c_str(); } };
void throw_runtime() { throw std::runtime_error(text); }
void throw_custom() { throw custom(); }
void throw_int() { throw 42; }
void throw_overflow() { throw ntc::overflow_error(); }
struct fault { std::int64_t at; bool sticky; void (*thrower)(); };

struct tally { std::size_t calls = 0, failed = 0, null = 0, nomem = 0, unknown = 0; };
}
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto word = ref::gf::get(w).word();
  tally t;
  ntc_error err;
  const auto gen_fault = [&]() -> fault
  {
    fault f{static_cast<std::int64_t>(c.draw(c.coin() ? 3 : 14)), c.chance(1, 4), nullptr};
    switch (c.weighted({6, 2, 1, 1}))
    {
      case 0: break;
      case 1: f.thrower = c.coin() ? throw_runtime : throw_custom; break;
      case 2: f.thrower = throw_int; break;
      case 3: f.thrower = throw_overflow; break;
    }
    // the message of the exception, of any length
    const auto len = c.pick<std::size_t>({0, 1, 5, 31, 32, 100, 254, 255, 256, 257, 300, 1000, 5000}) + c.draw(3);
    text.assign(len, 'm');
    if (len) text.back() = 'z';
    return f;
  };
  // What a call under fault f must report.
  const auto judge = [&](const char* op, const fault& f)
  {
    const auto& s = alloc::st();
    ++t.calls;
    if (err.message)
    {
      const auto len = strlen(err.message);     // readable, terminated
      PBT_CHECK(len <= text.size() and text.compare(0, len, err.message) == 0 and (len == text.size() or len >= 20), "%s: the message of %zu characters isn't that of the error (%zu)", op, len, text.size());
      PBT_CHECK(err.type == ntc_unknown_error, "%s: a message for '%s'", op, nm(err.type));
    }
    if (s.failed_throwing == 0)
    {
      if (s.failed == 0) PBT_CHECK(err.type != ntc_no_memory and err.type != ntc_unknown_error, "%s reports '%s' although nothing failed", op, nm(err.type));
      return;
    }
    ++t.failed;
    if (f.thrower == nullptr) { PBT_CHECK(err.type == ntc_no_memory, "%s reports '%s' although an allocation failed", op, nm(err.type)); ++t.nomem; }
    else
    {
      // operator new threw something else, unless the allocation that failed is one of those which can only fail.
      PBT_CHECK(err.type != ntc_no_error, "%s reports no error although it failed", op);
      if (err.type != ntc_no_memory)
      {
        const auto expected = f.thrower == throw_overflow ? ntc_overflow_error : ntc_unknown_error;
        PBT_CHECK(err.type == expected, "%s reports '%s' instead of '%s'", op, nm(err.type), nm(expected));
        if (f.thrower != throw_runtime and f.thrower != throw_custom) PBT_CHECK(err.message == nullptr, "%s: a message out of nowhere", op);
        ++t.unknown;
      }
    }
  };
  const auto garbage = [&]{ memset(&err, static_cast<int>(c.pick<unsigned>({0xA5, 0, 0xff})), sizeof err); };

  const auto blocks0 = alloc::st().live_blocks;
  (void)blocks0;
  std::int64_t leaked = 0;
  {
    pctx eo, da; dctx dd;
    // Constructors
    const auto construct = [&](auto&& fn, const char* what)
    {
      for (unsigned k = 0; k < 3; ++k)
      {
        const auto f = gen_fault();
        bool gf = c.chance(1, 5) and (what[0] == 'e' or what[0] == 'D');
        if (gf) gf_fail_next = 1;
        const auto before = alloc::st().live_blocks;   // after the generation, which allocates
        const auto fields = gf_live;
        alloc::arm(f.at, f.sticky, f.thrower);
        auto* p = fn();
        alloc::disarm();
        const bool gf_failed = gf and gf_fail_next == 0;
        gf_fail_next = 0;
        ++t.calls;
        if (alloc::st().failed or gf_failed)
        {
          ++t.failed;
          if (p == nullptr) { ++t.null; PBT_CHECK(alloc::st().live_blocks == before, "the failed construction of %s leaked %lld block(s)", what, static_cast<long long>(alloc::st().live_blocks - before)); PBT_CHECK(gf_live == fields, "the failed construction of %s leaked %d Galois field(s)", what, gf_live - fields); continue; }
          // the failure was harmless: fine, as long as the object is one
        }
        PBT_CHECK(p, "construction of %s returned null although nothing failed", what);
        return p;
      }
      auto* p = fn();
      PBT_CHECK(p, "construction of %s returned null", what);
      return p;
    };
    const bool ordered = c.coin();
    auto* e = construct([&]{ return ntc_new_encoder(static_cast<std::uint8_t>(w), ntc_packet_handler{&eo, prepare, send_}); }, "encoder");
    auto* d = construct([&]{ return ntc_new_decoder(static_cast<std::uint8_t>(w), ordered ? ntc_in_order_yes : ntc_in_order_no, ntc_packet_handler{&da, prepare, send_}, ntc_data_handler{&dd, read_}); }, "Decoder");
    const auto src = c.bytes(word * c.range(1, 30));
    auto* rd = construct([&]{ return ntc_new_data_from(src.data(), static_cast<uint16_t>(src.size())); }, "data");
    auto* rp = construct([&]{ return ntc_new_packet_from(src.data(), static_cast<uint16_t>(src.size())); }, "packet");
    PBT_CHECK(ntc_data_get_size(rd) == src.size() and memcmp(ntc_data_buffer(rd), src.data(), src.size()) == 0, "data built with its bytes");
    PBT_CHECK(ntc_packet_get_size(rp) == src.size() and memcmp(ntc_packet_buffer(rp), src.data(), src.size()) == 0, "packet built with its bytes");
    auto* rd2 = construct([&]{ return ntc_new_data(static_cast<uint16_t>(c.range(1, 100))); }, "uninitialized data");
    auto* rp2 = construct([&]{ return ntc_new_packet(static_cast<uint16_t>(c.range(1, 100))); }, "uninitialized packet");
    struct cleanup { ntc_data_t* d; ntc_packet_t* p; ~cleanup() { ntc_delete_data(d); ntc_delete_packet(p); } } cl{rd, rp}, cl2{rd2, rp2};
    std::size_t nb_data = 0;
    bool enc_failed = false, dec_failed = false;
    std::map<std::uint32_t, h::bytes> sent;   // data that reached the wire as sources
    std::vector<h::bytes> given;
    const auto steps = c.log_range(2, 40);
    for (std::size_t i = 0; i < steps and not dec_failed; ++i)
    {
      const bool inject = c.chance(1, 4);
      const auto f = inject ? gen_fault() : fault{-1, false, nullptr};
      const auto call = [&](const char* op, auto&& fn)
      {
        garbage();
        alloc::arm(f.at, f.sticky, f.thrower);
        fn();
        alloc::disarm();
        c.log("%s%s: %s, %zu allocations, %zu failed", op, inject ? " (fault)" : "", nm(err.type), alloc::st().nb, alloc::st().failed);
        judge(op, f);
        return err.type;
      };
      switch (c.weighted({10, 10, 4, 4, 3, 3, 3, 3}))
      {
        case 0:
        {
          const auto b = c.bytes(word * c.range(1, 20));
          auto* x = ntc_new_data_from(b.data(), static_cast<uint16_t>(b.size()));
          given.push_back(b);
          const auto r = call("add_data", [&]{ ntc_encoder_add_data(e, x, &err); });
          if (r != ntc_no_error) enc_failed = true;
          ntc_delete_data(x);
          ++nb_data;
          break;
        }
        case 1: case 2:
        {
          h::bytes b;
          if (c.chance(3, 4)) { if (eo.s.packets.empty()) break; b = eo.s.packets[c.coin() ? eo.s.packets.size() - 1 : c.draw(eo.s.packets.size() - 1)]; }
          else b = h::garbage_packet(c, static_cast<std::uint32_t>(nb_data));
          if (b.empty() or b.size() > 65535 or h::too_many_ids(b)) break;
          auto* x = ntc_new_packet_from(b.data(), static_cast<uint16_t>(b.size()));
          const auto r = call("decoder_add_packet", [&]{ ntc_decoder_add_packet(d, x, &err); });
          // What a decoder holds after having run out of memory is unspecified: only delete it.
          if (r == ntc_no_memory or r == ntc_unknown_error or alloc::st().failed) dec_failed = true;
          ntc_delete_packet(x);
          break;
        }
        case 3:
        {
          h::bytes b = da.s.packets.empty() or c.chance(1, 5) ? ref::mk_ack(static_cast<std::uint16_t>(c.draw(10)), {0, 1, 2}) : da.s.packets.back();
          auto* x = ntc_new_packet_from(b.data(), static_cast<uint16_t>(b.size()));
          if (call("encoder_add_packet", [&]{ ntc_encoder_add_packet(e, x, &err); }) != ntc_no_error) enc_failed = true;
          ntc_delete_packet(x);
          break;
        }
        case 4: if (call("generate_repair", [&]{ ntc_encoder_generate_repair(e, &err); }) != ntc_no_error) enc_failed = true; break;
        case 5: if (call("generate_ack", [&]{ ntc_decoder_generate_ack(d, &err); }) != ntc_no_error) dec_failed = true; break;
        case 6:
        {
          const auto n = static_cast<uint16_t>(c.pick<unsigned>({1, 10, 40, 1000, 65535}));
          const auto old = ntc_data_get_size(rd2);
          const auto r = call("data_resize", [&]{ ntc_data_resize(rd2, n, &err); });
          PBT_CHECK(ntc_data_get_size(rd2) == (r == ntc_no_error ? n : old), "a data resized from %u to %u has %u bytes (%s)", old, n, ntc_data_get_size(rd2), nm(r));
          memset(ntc_data_buffer(rd2), 'x', ntc_data_get_size(rd2));
          break;
        }
        case 7:
        {
          const auto n = static_cast<uint16_t>(c.pick<unsigned>({1, 10, 40, 1000, 65535}));
          const auto old = ntc_packet_get_size(rp2);
          const auto r = call("packet_resize", [&]{ ntc_packet_resize(rp2, n, &err); });
          PBT_CHECK(ntc_packet_get_size(rp2) == (r == ntc_no_error ? n : old), "a packet resized from %u to %u has %u bytes (%s)", old, n, ntc_packet_get_size(rp2), nm(r));
          memset(ntc_packet_buffer(rp2), 'x', ntc_packet_get_size(rp2));
          break;
        }
      }
    }
    ntc_delete_decoder(d);
    // The encoder survives: what it still sends is genuine.
    if (enc_failed)
    {
      c.label("encoder used after a failure");
      const auto first = eo.s.packets.size();
      eo.s.current.clear();
      ntc_encoder_set_code_type(e, ntc_systematic_yes);
      std::uint32_t last = 0; bool have = false;
      for (std::size_t k = 0; k < eo.s.packets.size(); ++k)
      {
        const auto p = ref::parse(eo.s.packets[k]);
        if (p.type == 2) { last = p.id; have = true; }
      }
      const auto x = c.bytes(word * 3), y = c.bytes(word * 5);
      for (auto* b : {&x, &y})
      {
        auto* q = ntc_new_data_from(b->data(), static_cast<uint16_t>(b->size()));
        garbage(); ntc_encoder_add_data(e, q, &err); PBT_CHECK(err.type == ntc_no_error, "an encoder which ran out of memory now reports '%s'", nm(err.type));
        ntc_delete_data(q);
      }
      garbage(); ntc_encoder_generate_repair(e, &err);
      PBT_CHECK(err.type == ntc_no_error, "an encoder which ran out of memory now reports '%s'", nm(err.type));
      std::vector<h::bytes> seen;
      for (auto k = first; k < eo.s.packets.size(); ++k)
      {
        const auto p = ref::parse(eo.s.packets[k]);
        PBT_CHECK(p.type == 1 or p.type == 2, "an encoder which ran out of memory sent a malformed packet");
        if (p.type == 2) { PBT_CHECK(not have or p.id > last, "identifier %u used again", p.id); have = true; last = p.id; seen.push_back(p.sym); }
        else PBT_CHECK(p.ids.size() == ntc_encoder_window(e) or k + 1 < eo.s.packets.size(), "the repair encodes %zu data, the window holds %zu", p.ids.size(), ntc_encoder_window(e));
      }
      PBT_CHECK(seen.size() == 2 and seen[0] == x and seen[1] == y, "an encoder which ran out of memory doesn't send its data anymore");
    }
    ntc_delete_encoder(e);
    leaked = 0;
  }
  // Nothing leaks: run the destructors again on a pair which failed, with nothing else allocated in between.
  {
    pctx eo, da; dctx dd;
    eo.s.packets.reserve(64); da.s.packets.reserve(64); dd.s.data.reserve(64);
    const auto b = c.bytes(word * c.range(1, 8));
    const auto f = gen_fault();
    const auto n = c.range(1, 6);
    const auto before = alloc::st().live_blocks;
    const auto fields = gf_live;
    auto* e = ntc_new_encoder(static_cast<std::uint8_t>(w), ntc_packet_handler{&eo, prepare, send_});
    auto* d = ntc_new_decoder(static_cast<std::uint8_t>(w), ntc_in_order_yes, ntc_packet_handler{&da, prepare, send_}, ntc_data_handler{&dd, read_});
    const auto at = c.draw(2 * n);
    std::size_t fed = 0, calls = 0;
    bool stop = false;
    const auto guarded = [&](auto&& fn)
    {
      if (stop) return;
      garbage();
      if (calls++ == at) alloc::arm(f.at, f.sticky, f.thrower); else alloc::arm(-1);
      fn();
      stop = alloc::st().failed != 0;
      alloc::disarm();
    };
    for (unsigned k = 0; k < n and not stop; ++k)
    {
      auto* x = ntc_new_data_from(b.data(), static_cast<uint16_t>(b.size()));
      guarded([&]{ ntc_encoder_add_data(e, x, &err); });
      ntc_delete_data(x);
      if (k == n / 2) guarded([&]{ ntc_encoder_generate_repair(e, &err); });
      for (; fed < eo.s.packets.size() and not stop; ++fed)
      {
        if (fed == 1) continue;   // lost
        auto* p = ntc_new_packet_from(eo.s.packets[fed].data(), static_cast<uint16_t>(eo.s.packets[fed].size()));
        guarded([&]{ ntc_decoder_add_packet(d, p, &err); });
        ntc_delete_packet(p);
      }
    }
    ntc_delete_encoder(e);
    ntc_delete_decoder(d);
    eo.s = {}; da.s = {}; dd.s = {};
    eo.s.packets.shrink_to_fit(); da.s.packets.shrink_to_fit(); dd.s.data.shrink_to_fit();
    pctx eo2, da2; dctx dd2;
    eo2.s.packets.reserve(64); da2.s.packets.reserve(64); dd2.s.data.reserve(64);
    leaked = alloc::st().live_blocks - before;
    PBT_CHECK(gf_live == fields, "%d Galois field(s) leaked", gf_live - fields);
    PBT_CHECK(leaked == 0, "%lld block(s) leaked after %s", static_cast<long long>(leaked), stop ? "a failure" : "no failure");
  }
  if (t.nomem) c.label("no memory");
  if (t.unknown) c.label("other errors");
  if (t.null) c.label("null constructors");
  c.nontrivial(t.failed > 0);
  c.evaluations(t.calls);
  c.describe("w=" + std::to_string(w) + ": " + std::to_string(t.calls) + " calls, " + std::to_string(t.failed) + " with a failure inside: " + std::to_string(t.null) + " null constructors, "
             + std::to_string(t.nomem) + " 'no memory', " + std::to_string(t.unknown) + " other errors");
}

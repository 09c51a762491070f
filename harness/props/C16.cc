#include "mutate.hh"
#include "netcode/c/data.h"
#include "netcode/c/decoder.h"
#include "netcode/c/encoder.h"
#include "netcode/c/packet.h"
const char* const property_id = "C16";
// The C interface does what the C++ one does: same operations, same packets, data, results, errors.
namespace {
struct pctx { h::packet_sink s; };
struct dctx { h::data_sink s; };
void prepare(void* x, const char* d, size_t n) { static_cast<pctx*>(x)->s(d, n); }
void send_(void* x) { static_cast<pctx*>(x)->s(); }
void read_(void* x, const char* d, size_t n) { static_cast<dctx*>(x)->s(d, n); }
template <typename Fn>
ntc_error_type cxx_error(Fn&& fn)
{
  try { fn(); return ntc_no_error; }
  catch (const ntc::packet_type_error&) { return ntc_packet_type_error; }
  catch (const ntc::overflow_error&) { return ntc_overflow_error; }
  catch (const std::bad_alloc&) { return ntc_no_memory; }
}
const char* nm(ntc_error_type t) { static const char* const n[] = {"no error", "unknown error", "no memory", "packet type error", "overflow error"}; return unsigned(t) < 5 ? n[t] : "?"; }
}
void run_case(pbt::Ctx& c)
{
  const auto w = c.pick<unsigned>({8, 4, 16, 32});
  const auto word = ref::gf::get(w).word();
  const bool ordered = c.coin();
  // C++
  h::packet_sink xo, xa; h::data_sink xd;
  h::encoder xe(static_cast<std::uint8_t>(w), h::packet_ref{&xo});
  h::decoder xdec(static_cast<std::uint8_t>(w), h::order(ordered), h::packet_ref{&xa}, h::data_ref{&xd});
  // C
  pctx co, ca; dctx cd;
  auto* ce = ntc_new_encoder(static_cast<std::uint8_t>(w), ntc_packet_handler{&co, prepare, send_});
  auto* cdec = ntc_new_decoder(static_cast<std::uint8_t>(w), ordered ? ntc_in_order_yes : ntc_in_order_no, ntc_packet_handler{&ca, prepare, send_}, ntc_data_handler{&cd, read_});
  struct cleanup { ntc_encoder_t* e; ntc_decoder_t* d; ~cleanup() { ntc_delete_encoder(e); ntc_delete_decoder(d); } } cl{ce, cdec};
  PBT_CHECK(ce and cdec, "constructors failed");
  // Containers which are reused all along.
  auto* rd = ntc_new_data(1); auto* rp = ntc_new_packet(1);
  struct cleanup2 { ntc_data_t* d; ntc_packet_t* p; ~cleanup2() { ntc_delete_data(d); ntc_delete_packet(p); } } cl2{rd, rp};
  ntc_error err;
  std::size_t nb_err = 0, nb_ops = 0, nb_reused = 0;
  const auto same = [&](const char* op)
  {
    ++nb_ops;
    PBT_CHECK(co.s.packets == xo.packets, "%s: the encoders didn't send the same packets (%zu, %zu)", op, co.s.packets.size(), xo.packets.size());
    PBT_CHECK(ca.s.packets == xa.packets, "%s: the decoders didn't send the same acks (%zu, %zu)", op, ca.s.packets.size(), xa.packets.size());
    PBT_CHECK(cd.s.data == xd.data, "%s: the decoders didn't deliver the same data (%zu, %zu)", op, cd.s.data.size(), xd.data.size());
    PBT_CHECK(ntc_encoder_window(ce) == xe.window(), "%s: windows are %zu and %zu", op, ntc_encoder_window(ce), xe.window());
    PBT_CHECK(cd.s.aligned, "%s: data not aligned", op);
  };
  const auto clear_err = [&]{ memset(&err, 0xA5, sizeof err); };
  const auto mk_packet = [&](const h::bytes& b) -> ntc_packet_t*
  {
    switch (c.draw(2))
    {
      case 0: return ntc_new_packet_from(b.data(), static_cast<uint16_t>(b.size()));
      case 1: { auto* p = ntc_new_packet(static_cast<uint16_t>(b.size())); memcpy(ntc_packet_buffer(p), b.data(), b.size()); return p; }
      default:
        clear_err();
        ntc_packet_resize(rp, static_cast<uint16_t>(b.size()), &err);
        PBT_CHECK(err.type == ntc_no_error, "resizing a packet reports %s", nm(err.type));
        PBT_CHECK(ntc_packet_get_size(rp) == b.size(), "packet of %u bytes resized to %zu", ntc_packet_get_size(rp), b.size());
        memcpy(ntc_packet_buffer(rp), b.data(), b.size());
        ++nb_reused;
        return rp;
    }
  };
  const auto feed = [&](const h::bytes& b, bool to_enc)
  {
    if (b.empty() or b.size() > 65535 or h::too_many_ids(b)) return;
    auto* p = mk_packet(b);
    PBT_CHECK(ntc_packet_get_size(p) == b.size() and memcmp(ntc_packet_buffer(p), b.data(), b.size()) == 0, "a packet of %zu bytes doesn't hold its bytes", b.size());
    std::size_t n = 0;
    const auto e = cxx_error([&]{ n = to_enc ? xe(h::to_packet(b)) : xdec(h::to_packet(b)); });
    clear_err();
    const auto m = to_enc ? ntc_encoder_add_packet(ce, p, &err) : ntc_decoder_add_packet(cdec, p, &err);
    if (p != rp) ntc_delete_packet(p);
    PBT_CHECK(err.type == e, "C reports '%s', C++ reports '%s'", nm(err.type), nm(e));
    PBT_CHECK(e != ntc_no_error or n == m, "C reads %zu bytes, C++ reads %zu bytes", m, n);
    PBT_CHECK(err.message == nullptr or strlen(err.message) < 100000, "message");
    nb_err += e != ntc_no_error;
    same(to_enc ? "packet to the encoder" : "packet to the decoder");
  };
  auto& now = virtual_now_ns();
  std::uint32_t nb = 0;
  const auto steps = c.log_range(4, 90);
  for (std::size_t i = 0; i < steps; ++i)
  {
    switch (c.weighted({20, 24, 8, 5, 3, 3, 6, 5, 3, 3, 3, 3, 4, 3, 3}))
    {
      case 0:
      {
        const auto b = c.bytes(word * (c.chance(1, 40) ? c.log_range(1, 65532 / word) : c.range(1, 12)));
        ntc_data_t* d = nullptr;
        switch (c.draw(2))
        {
          case 0: d = ntc_new_data_from(b.data(), static_cast<uint16_t>(b.size())); break;
          case 1: d = ntc_new_data(static_cast<uint16_t>(b.size())); memcpy(ntc_data_buffer(d), b.data(), b.size()); break;
          default:
            clear_err();
            ntc_data_resize(rd, static_cast<uint16_t>(b.size()), &err);
            PBT_CHECK(err.type == ntc_no_error, "resizing a data reports %s", nm(err.type));
            PBT_CHECK(ntc_data_get_size(rd) == b.size(), "data of %u bytes resized to %zu", ntc_data_get_size(rd), b.size());
            memcpy(ntc_data_buffer(rd), b.data(), b.size());
            d = rd; ++nb_reused;
        }
        PBT_CHECK(ntc_data_get_size(d) == b.size() and memcmp(ntc_data_buffer(d), b.data(), b.size()) == 0, "a data of %zu bytes doesn't hold its bytes", b.size());
        xe(h::to_data(b));
        clear_err();
        ntc_encoder_add_data(ce, d, &err);
        if (d != rd) ntc_delete_data(d);
        PBT_CHECK(err.type == ntc_no_error, "adding a data reports %s", nm(err.type));
        ++nb;
        c.log("data of %zu bytes", b.size());
        same("data");
        break;
      }
      case 1: if (not xo.packets.empty()) feed(xo.packets[c.coin() ? xo.packets.size() - 1 : c.draw(xo.packets.size() - 1)], false); break;
      case 2: if (not xa.packets.empty()) feed(xa.packets[c.coin() ? xa.packets.size() - 1 : c.draw(xa.packets.size() - 1)], true); break;
      case 3: { c.log("repair"); xe.generate_repair(); clear_err(); ntc_encoder_generate_repair(ce, &err); PBT_CHECK(err.type == ntc_no_error, "repair reports %s", nm(err.type)); same("repair"); break; }
      case 4: { c.log("ack"); xdec.generate_ack(); clear_err(); ntc_decoder_generate_ack(cdec, &err); PBT_CHECK(err.type == ntc_no_error, "ack reports %s", nm(err.type)); same("ack"); break; }
      case 5: now += static_cast<std::int64_t>(c.chance(1, 4) ? c.log_range(1, 5000000) : c.log_range(1, 300)) * 1000000; break;
      case 6: { const auto b = h::garbage_packet(c, nb); feed(b, c.chance(1, 3)); break; }
      case 7:
      {
        const auto& from = c.chance(1, 3) ? xa.packets : xo.packets;
        if (from.empty()) break;
        feed(h::mutate(c, from[c.draw(from.size() - 1)], &from[c.draw(from.size() - 1)]), c.coin());
        break;
      }
      case 8: { const auto n = c.pick<std::size_t>({5, 1, 2, 3, 50, 1000, 258, 65537, 0x100000002}); c.log("rate %zu", n); xe.set_rate(n); ntc_encoder_set_rate(ce, n); break; }
      case 9: { const auto n = c.pick<std::size_t>({1, 2, 3, 5, 10, ~std::size_t{0}, 257, 65538, 0x100000001}); c.log("window %zu", n); xe.set_window_size(n); ntc_encoder_set_window_size(ce, n); break; }
      case 10: { const auto b = c.coin(); c.log("adaptive %d", b); xe.set_adaptive(b); ntc_encoder_set_adaptive(ce, b); break; }
      case 11: { const auto b = c.coin(); c.log("systematic %d", b); xe.set_code_type(b ? ntc::systematic::yes : ntc::systematic::no); ntc_encoder_set_code_type(ce, b ? ntc_systematic_yes : ntc_systematic_no); break; }
      case 12: { const auto n = c.pick<std::size_t>({0, 1, 10, 100, 1000, 257, 65536, 65636, 1000000, 0x100000000, 0x100000064}); c.log("period %zu", n); xdec.set_ack_period(std::chrono::milliseconds{n}); ntc_decoder_set_ack_period(cdec, n); break; }
      case 13: { const auto n = static_cast<std::uint16_t>(c.pick<unsigned>({1, 2, 3, 50, 128, 200, 65535})); c.log("nb packets %u", n); xdec.set_ack_nb_packets(n); ntc_decoder_set_ack_nb_packets(cdec, n); break; }
      case 14:
      {
        // containers: resizing keeps the common prefix
        const auto b = c.bytes(c.range(1, 80));
        const auto n = static_cast<uint16_t>(c.chance(1, 8) ? c.pick<unsigned>({255, 256, 65535, 32768}) : c.range(1, 120));
        const auto k = std::min<std::size_t>(b.size(), n);
        auto* p = ntc_new_packet_from(b.data(), static_cast<uint16_t>(b.size()));
        clear_err(); ntc_packet_resize(p, n, &err);
        PBT_CHECK(err.type == ntc_no_error and ntc_packet_get_size(p) == n and memcmp(ntc_packet_buffer(p), b.data(), k) == 0, "resizing a packet from %zu to %u bytes", b.size(), n);
        memset(ntc_packet_buffer(p), 'x', n);
        ntc_delete_packet(p);
        auto* d = ntc_new_data_from(b.data(), static_cast<uint16_t>(b.size()));
        clear_err(); ntc_data_resize(d, n, &err);
        PBT_CHECK(err.type == ntc_no_error and ntc_data_get_size(d) == n and memcmp(ntc_data_buffer(d), b.data(), k) == 0, "resizing a data from %zu to %u bytes", b.size(), n);
        memset(ntc_data_buffer(d), 'x', n);
        ntc_delete_data(d);
        break;
      }
    }
  }
  if (nb_err) c.label("errors");
  if (nb_reused) c.label("containers reused");
  if (not xa.packets.empty()) c.label("acks");
  if (xdec.nb_decoded()) c.label("decoded");
  c.label(ordered ? "in order" : "out of order");
  c.nontrivial(not xd.data.empty() and nb_ops >= 5);
  c.evaluations(nb_ops);
  c.describe("w=" + std::to_string(w) + (ordered ? ", in order: " : ", out of order: ") + std::to_string(xo.packets.size()) + " packets, " + std::to_string(xd.data.size())
             + " data delivered, " + std::to_string(xa.packets.size()) + " acks, " + std::to_string(nb_err) + " errors");
}

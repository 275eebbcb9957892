// buffered_stream: any short history of appends, flushes, fills and steps of the context over a stream with short transfers and
// errors. Everything appended leaves once and in order, everything read arrives once and in order.
#include "mock_stream.hpp"
#include "ec.hpp"
#include "asioext/experimental/buffered_stream.hpp"
#include <optional>
#include <stdexcept>
using namespace asioext;
// VP_LIM: with buffers limited in size and an allocator of their own, and with received bytes consumed in between.
static int want = 5;
template <class T> struct Alloc {
  typedef T value_type; int id;
  explicit Alloc(int i = 6) : id(i) {}
  template <class U> Alloc(const Alloc<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { vp_check(id == want, "buffered: the given allocator is used"); return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { vp_check(id == want, "buffered: the given allocator is used"); ::operator delete(p); }
  template <class U> bool operator==(const Alloc<U>& o) const { return id == o.id; } template <class U> bool operator!=(const Alloc<U>& o) const { return id != o.id; }
};
static std::size_t wlim = ~(std::size_t)0, rlim = ~(std::size_t)0, eaten;
static MockStream* s; static unsigned char app[64]; static std::size_t napp, flushed, filled; // appended; reported as written, as read
static bool flushing, filling; static unsigned invoked, rejected; static bool failed_once;
template <class B> static void invariant(const B& b) {
  vp_check(s->out_n <= napp, "buffered: nothing is sent that was not appended");
  bool same = true; for (std::size_t i = 0; i < s->out_n && i < napp; ++i) same = same & (s->out[i] == app[i]);
  vp_check(same, "buffered: the appended bytes are sent once, in order");
  if (!flushing) vp_check(flushed == s->out_n, "buffered: flushing reports how much was sent");
  vp_check(b.flush_pending() == flushing, "buffered: a flush is pending until its handler has been invoked");
  if (!filling) {
    vp_check(b.read_buffer().size() == filled - eaten && filled == s->in_pos, "buffered: filling reports how much was read");
    same = eaten + b.read_buffer().size() <= s->in_n; for (std::size_t i = 0; same && i < b.read_buffer().size(); ++i) same = same & (b.read_buffer().data()[i] == s->in[eaten + i]);
    vp_check(b.read_buffer().size() <= rlim && b.write_buffer().size() <= wlim, "buffered: the buffers do not outgrow their limits");
    vp_check(same, "buffered: the received bytes arrive once, in order");
  }
}
static bool transport(const error_code& ec) { return ec == asio::error::connection_reset && s->ops > s->fail_at; }
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  {
    std::optional<asio::io_context> io; io.emplace(1);
    MockStream m(*io); s = &m; m.splits = VP_SPLITS; m.in_n = vp_choose(4); vp_nd_bytes(m.in, m.in_n);
    if (vp_choose(2)) m.fail_at = (unsigned)vp_choose(VP_OPS);
    #ifdef VP_LIM
    typedef buffered_stream<MockStream&, Alloc<uint8_t>> stream_t; std::optional<stream_t> b;
    switch (vp_choose(4)) {
    case 0: wlim = 1 + vp_choose(3); rlim = 1 + vp_choose(3); b.emplace(m, Alloc<uint8_t>(5), wlim, rlim); break;
    case 1: wlim = 1 + vp_choose(3); b.emplace(m, Alloc<uint8_t>(5), wlim); break;
    case 2: b.emplace(m, Alloc<uint8_t>(5)); break;
    default: want = 6; wlim = 2; rlim = 1 + vp_choose(2); b.emplace(m, wlim, rlim); break;
    }
#else
    typedef buffered_stream<MockStream&> stream_t; std::optional<stream_t> b;
    b.emplace(m);
#endif
    const stream_t& cb = *b; vp_check(&cb.write_buffer() == &b->write_buffer() && &cb.read_buffer() == &b->read_buffer() && &b->next_layer() == &m && &b->lowest_layer() == &m && &cb.lowest_layer() == &m && b->get_executor() == io->get_executor(), "buffered: accessors name the layers and buffers");
    if (wlim + 1) vp_check(b->write_buffer().max_size() == wlim, "buffered: the given limits are used"); if (rlim + 1) vp_check(b->read_buffer().max_size() == rlim, "buffered: the given limits are used");
    vp_check(b->write_buffer().empty() && b->read_buffer().empty() && !b->can_flush(), "buffered: a new stream is empty");
    for (int i = 0; i < VP_OPS; ++i) {
      const std::size_t before = m.out_n, inbefore = m.in_pos; const unsigned w = m.writes, r = m.reads; bool failing = m.fail_at < m.ops;
      #ifdef VP_LIM
      switch (vp_choose(8)) {
#else
      switch (vp_choose(7)) {
#endif
      case 0: { const std::size_t k = 1 + vp_choose(2); vp_nd_bytes(app + napp, k); const std::size_t had = b->write_buffer().size();
        try { b->write_buffer().append(app + napp, k); vp_check(had + k <= wlim, "buffered: the buffers do not outgrow their limits"); napp += k; vp_cover("append"); } catch (const std::length_error&) { vp_check(had + k > wlim && b->write_buffer().size() == had, "buffered: only what exceeds the limit is refused"); vp_cover("append refused"); }
        break; }
#ifdef VP_LIM
      case 7: { const std::size_t have = b->read_buffer().size(); if (filling || !have) vp_assume(false); const std::size_t k = 1 + vp_choose(have); b->read_buffer().erase(0, k); eaten += k; vp_cover("consume"); break; }
#endif
      case 1: { error_code ec = vp_stale(); std::size_t n; const bool was = flushing, can = b->can_flush();
        if (vp_choose(2)) n = b->flush(ec); else { n = 0; vp_try(ec, [&] { n = b->flush(); }); if (ec && ec != asio::error::already_started) n = m.out_n - before; }
        if (was) { vp_check(ec == asio::error::already_started && n == 0 && m.writes == w, "buffered: a flush is refused while another one is pending"); vp_cover("flush refused"); break; }
        flushed += n;
        if (ec) { vp_check(transport(ec), "buffered: a transport error is passed on"); vp_cover("flush failed"); failed_once = true; }
        else { vp_check(!can || n > 0, "buffered: a flush sends what is buffered"); if (!failed_once) vp_check(m.out_n == napp, "buffered: a successful flush sends everything"); vp_cover("flushed"); }
        break; }
      case 2: { const bool was = flushing; const bool all = !failed_once; const std::size_t upto = napp; flushing = true; vp_check(was || b->can_flush() || napp == m.out_n || failed_once, "buffered: can_flush() reports data to send");
        b->async_flush([was, all, upto](error_code ec, std::size_t n) { ++invoked;
          if (was) { vp_check(ec == asio::error::already_started && n == 0, "buffered: a flush is refused while another one is pending"); ++rejected; vp_cover("async flush refused"); return; }
          flushing = false; flushed += n;
          if (ec) { vp_check(transport(ec), "buffered: a transport error is passed on"); vp_cover("async flush failed"); failed_once = true; }
          else { if (all && !failed_once) vp_check(s->out_n == upto, "buffered: a successful flush sends everything that was appended before"); vp_cover("async flushed"); } });
        break; }
      case 3: if (filling) vp_assume(false); else { error_code ec = vp_stale(); std::size_t n; const bool full = b->read_buffer().size() == rlim; if (vp_choose(2)) n = b->fill(ec); else { n = 0; vp_try(ec, [&] { n = b->fill(); }); if (ec) n = m.in_pos - inbefore; }
        filled += n; if (ec) { vp_check(n == 0 && (transport(ec) || (ec == asio::error::eof && m.in_pos == m.in_n)), "buffered: an error while filling is passed on"); vp_cover("fill failed"); } else if (full) { vp_check(n == 0 && m.in_pos == inbefore, "buffered: filling a full buffer reads nothing"); vp_cover("full"); } else { vp_check(n > 0, "buffered: filling reads at least a byte"); vp_cover("filled"); } break; }
      case 4: if (filling) vp_assume(false); else { filling = true; const bool full = b->read_buffer().size() == rlim; b->async_fill([full](error_code ec, std::size_t n) { ++invoked; filling = false; filled += n;
          if (ec) { vp_check(n == 0 && (transport(ec) || (ec == asio::error::eof && s->in_pos == s->in_n)), "buffered: an error while filling is passed on"); vp_cover("async fill failed"); } else if (full) { vp_check(n == 0, "buffered: filling a full buffer reads nothing"); vp_cover("async full"); } else { vp_check(n > 0, "buffered: filling reads at least a byte"); vp_cover("async filled"); } }); break; }
      case 5: io->poll_one(); io->restart(); break;
      default: if (flushing || filling) vp_assume(false); // closing drops what is buffered
        { error_code ec = vp_stale(); if (vp_choose(2)) b->close(ec); else vp_try(ec, [&] { b->close(); }); vp_check(!ec && m.closed, "buffered: closing closes the next layer"); vp_check(b->read_buffer().empty() && b->write_buffer().empty(), "buffered: closing drops what is buffered");
          const std::size_t at = m.out_n; b->flush(ec); vp_check(m.out_n == at, "buffered: closing drops what is buffered"); vp_cover("close"); return; }
      }
      invariant(*b);
    }
    if (vp_choose(2)) {
      io->poll(); io->restart(); invariant(*b);
      vp_check(!flushing && !filling, "buffered: every operation completes");
      m.fail_at = ~0u; error_code ec;
      for (int i = 0; i < 2; ++i) { flushed += b->flush(ec); vp_check(!ec, "buffered: flushing can be repeated after an error"); }
      invariant(*b); vp_check(m.out_n == napp && b->write_buffer().empty(), "buffered: nothing appended is lost"); vp_cover("drained");
    } else { vp_cover("abandoned"); const unsigned at = invoked; b.reset(); io.reset(); vp_check(invoked == at, "buffered: abandoned operations do not invoke their handlers"); }
    vp_observe(napp); vp_observe(m.out_n); vp_observe(m.in_pos); vp_observe(invoked);
  }
  vp_check(vp_heap_live() == heap, "buffered: nothing is leaked");
}

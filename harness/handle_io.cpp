// Reads and writes through file_handle/unique_file_handle: arbitrary buffer sequences, offsets and system-call results.
// VP_OP 0 read_some, 1 write_some, 2 read_some_at, 3 write_some_at. VP_NOPVEC: without preadv/pwritev.
#include "asioext/detail/config.hpp"
#ifdef VP_NOPVEC
# undef ASIOEXT_HAS_PVEC_IO_FUNCTIONS
#endif
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/unique_file_handle.hpp"
#ifdef VP_FILE
# include "file_obj.hpp"
#endif
#include <array>
#include <vector>
using namespace asioext;
#ifdef VP_FILE
# define VP_HOW 2
#else
# define VP_HOW 4
#endif
static const bool wr = VP_OP & 1, at = VP_OP >= 2;
#if VP_OP & 1
typedef asio::const_buffer B;
# define VP_CALL(o, b, ...) (at ? (o).write_some_at(off, b VP_C __VA_ARGS__) : (o).write_some(b VP_C __VA_ARGS__))
#else
typedef asio::mutable_buffer B;
#endif
static uint64_t off;
template <class H, class S> static std::size_t call(H& h, const S& b, error_code& ec) {
#if VP_OP == 0
  return h.read_some(b, ec);
#elif VP_OP == 1
  return h.write_some(b, ec);
#elif VP_OP == 2
  return h.read_some_at(off, b, ec);
#else
  return h.write_some_at(off, b, ec);
#endif
}
template <class H, class S> static std::size_t call(H& h, const S& b) {
#if VP_OP == 0
  return h.read_some(b);
#elif VP_OP == 1
  return h.write_some(b);
#elif VP_OP == 2
  return h.read_some_at(off, b);
#else
  return h.write_some_at(off, b);
#endif
}
static unsigned char mem[80];
template <class S> static void go(const S& b) {
  const int fd = 5; fs.add_fd(fd);
  error_code ec = vp_stale(); std::size_t r = 7777; 
  const unsigned how = (unsigned)vp_choose(VP_HOW);
#ifdef VP_FILE
  vp_file_t& h = vp_file(fd); if (how & 1) r = call(h, b, ec); else { r = 0; vp_try(ec, [&] { r = call(h, b); }); }
#else
  if (how < 2) { asioext::file_handle h(fd); if (how == 0) r = call(h, b, ec); else { r = 0; vp_try(ec, [&] { r = call(h, b); }); } }
  else { unique_file_handle h{asioext::file_handle(fd)}; if (how == 2) r = call(h, b, ec); else { r = 0; vp_try(ec, [&] { r = call(h, b); }); } h.release(); }
#endif
  // the expectation
  B u[80]; int n = 0; uint64_t total = 0;
  for (auto i = asio::buffer_sequence_begin(b); i != asio::buffer_sequence_end(b); ++i) { u[n++] = *i; total += u[n - 1].size(); }
  vp_check(!fs.bad_use && fs.open_count == 1, "io: the handle's descriptor is used and stays open");
  if (fs.retries) { vp_cover("interrupted"); vp_check(fs.io_same, "io: an interrupted call is repeated unchanged"); }
  vp_check(!fs.n_io || fs.last_errno != EINTR, "io: an interrupted call is repeated, not reported");
  if (fs.n_io && fs.last_errno) { vp_cover("failed"); vp_check(vp_sys(ec, fs.last_errno) & (r == 0), "io: a failing system call is reported with its error and no bytes"); return; }
  if (total == 0) { vp_cover("nothing requested"); vp_check(!ec && r == 0, "io: empty buffers transfer nothing and are no error"); return; }
  vp_check(fs.n_io >= 1 && fs.io_write == wr && fs.io_fd == fd, "io: data is transferred by the system");
  vp_check((fs.io_at == at) & (!at | (fs.io_off == off)), "io: data is transferred at the requested offset");
  // the transferred segments are a prefix of the user's buffers, in order
  bool ok = fs.io_total != 0; int j = 0; bool cut = false;
  for (int i = 0; i < fs.nseg; ++i) {
    if (fs.seg[i].n == 0) continue;
    while (j < n && u[j].size() == 0) ++j;
    if (j == n || cut) { ok = false; break; }
    ok = ok & (fs.seg[i].p == u[j].data()) & (fs.seg[i].n <= u[j].size()); cut = fs.seg[i].n != u[j].size(); ++j;
  }
  vp_check(ok, "io: the system gets a non-empty prefix of the caller's buffers, in order");
  vp_check(r == (uint64_t)fs.io_ret, "io: the number of bytes transferred is returned");
  if (fs.io_ret == 0) { vp_cover("end of file"); vp_check(ec == asio::error::eof, "io: reading at the end of the file is reported as eof"); }
  else { vp_cover("transferred"); vp_check(!ec, "io: a transfer is success"); }
  vp_observe(r); vp_observe(ec.value()); vp_observe(fs.nseg);
}
static std::size_t sz() { return vp_range(0, (uint64_t)1 << 40); }
extern "C" void vp_main() {
  fs.blind = true; fs.eintr = 2; fs.once = true; fs.faults = 1; off = vp_u64();
  switch (vp_choose(5)) {
  case 0: go(B(mem, sz())); break;
  case 1: { std::array<B, 2> a = {{B(mem, sz()), B(mem + 9, sz())}}; go(a); break; }
  case 2: { std::vector<B> v; const unsigned n = (unsigned)vp_choose(4); for (unsigned i = 0; i < n; ++i) v.push_back(B(mem + i, sz())); go(v); break; }
  case 3: { std::vector<B> v; for (unsigned i = 0; i < 66; ++i) v.push_back(B(mem + i, 1)); go(v); vp_cover("many buffers"); break; }
  default: { std::array<unsigned char, 8> a; go(asio::buffer(a, (std::size_t)vp_range(0, 20))); }
  }
}

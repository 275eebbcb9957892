// Asynchronous file operations: every started operation completes exactly once, truthfully and on the right executor,
// over any history of starting, cancelling, closing, moving, destroying and running.
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/open.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <asio/bind_executor.hpp>
#include <asio/detail/scheduler.hpp>
#include <asio/io_context.hpp>
#include <asio/strand.hpp>
#include <memory>
#include <new>
#include <optional>
#include <utility>
using namespace asioext;
typedef basic_file<thread_pool_file_service> file_t;
#ifdef VP_STRAND
typedef asio::strand<asio::io_context::executor_type> strand_t;
static strand_t* strand;
#endif
enum { NOPS = VP_OPS };
enum State { none, waiting, doomed, ran, handled };
struct Op { State st; int owner; int fd; unsigned kind; uint64_t off; int ex; bool on_strand; int pool; int64_t ret; int err; uint64_t len; };
static Op op[NOPS]; static int nops; static unsigned kinds;
static char buf[NOPS][8];
static asio::io_context* ctx[2]; static int running = -1; // whose handlers may run now: 0, 1: a context, 2: a pool, -1: none
static thread_pool_file_service* svc[2];
static file_t* f[2]; static int home[2]; static bool strandy[2]; static int fd[2]; static unsigned closed[Fs::MAXFD];
static void doom(int i) { for (int k = 0; k < nops; ++k) if (op[k].owner == i) { op[k].owner = -1; if (op[k].st == waiting) op[k].st = doomed; } }
static void adopt(int to, int i) { for (int k = 0; k < nops; ++k) if (op[k].owner == i) op[k].owner = to; }
static int newfd() { const int n = fs.next++; fs.add_fd(n); return n; }
// called for every transfer the system is asked for
static int current = -1;
static void transfer() {
  const char* p = (const char*)fs.seg[0].p; int k = -1;
  for (int i = 0; i < nops; ++i) if (p == buf[i]) k = i;
  vp_check(k >= 0 && fs.nseg == 1, "async file: transfers use the buffers of an operation");
  Op& o = op[k];
  vp_check(running == 2, "async file: transfers are done by the thread pool");
  vp_check(o.st == waiting, "async file: every operation transfers at most once and never after being cancelled");
  vp_check((fs.io_fd == o.fd) & (fs.io_total == o.len) & (fs.io_write == ((o.kind & 1) != 0)) & (fs.io_at == ((o.kind & 2) != 0)) & (!(o.kind & 2) | (fs.io_off == o.off)), "async file: the transfer asked for is the one performed");
  o.st = ran; current = k;
#ifdef VP_HOOK
  error_code ec;
  switch (vp_pick(3)) { case 0: break; case 1: f[0]->cancel(ec); doom(0); vp_cover("cancel while running"); break;
  default: { const unsigned e = fs.faults; fs.faults = 0; f[1]->cancel(ec); doom(1); fs.faults = e; } }
#endif
}
static void start(int i); static void lose(int i); static void make(int i, int how);
struct Handler {
  int k; std::unique_ptr<int> alive;
  void operator()(error_code ec, std::size_t n) {
    Op& o = op[k];
    vp_check(running == o.ex, "async file: handlers run on their executor only");
#ifdef VP_STRAND
    if (o.on_strand) vp_check(strand->running_in_this_thread(), "async file: handlers run on their executor only");
#endif
    vp_check(o.st == ran || o.st == doomed, "async file: a handler is invoked once, after its operation");
    if (o.st == doomed) { vp_check(ec == ::asio::error::operation_aborted && n == 0, "async file: a cancelled operation reports operation_aborted"); vp_cover("aborted"); }
    else if (o.err) { vp_check(vp_sys(ec, o.err) && n == 0, "async file: a failed operation reports the system's error"); vp_cover("failed"); }
    else if (!(o.kind & 1) && o.ret == 0) { vp_check(ec == ::asio::error::eof && n == 0, "async file: end of file is reported"); vp_cover("eof"); }
    else { vp_check(!ec && n == (uint64_t)o.ret, "async file: the number of bytes transferred is reported"); vp_cover("done"); }
    o.st = handled; o.owner = -1;
    vp_observe(n); vp_observe(ec.value());
#ifdef VP_NEST
    switch (vp_pick(4)) {
    case 0: break;
    case 1: if (nops < NOPS && fd[0] != -1) { start(0); vp_cover("nested start"); } break;
    case 2: { error_code e; f[0]->close(e); lose(0); vp_cover("nested close"); break; }
    default: f[0]->~file_t(); lose(0); make(0, 0); vp_cover("nested destroy"); }
#endif
  }
};
static void start(int i) {
  const int k = nops++; Op& o = op[k];
  o.kind = (kinds + (unsigned)k) & 3; o.off = vp_u64(); vp_assume(o.off <= 0x7fffffffffffffff); o.len = vp_pick(8) + 1; o.fd = fd[i]; o.st = waiting; o.owner = i;
  const bool bound = vp_pick(2); o.ex = bound ? 1 - home[i] : home[i]; o.pool = home[i]; o.on_strand = !bound && strandy[i];
  Handler h{k, std::make_unique<int>(k)};
  auto go = [&](auto&& h) {
    switch (o.kind) {
    case 0: f[i]->async_read_some(asio::buffer(buf[k], o.len), std::move(h)); break;
    case 1: f[i]->async_write_some(asio::const_buffer(buf[k], o.len), std::move(h)); break;
    case 2: f[i]->async_read_some_at(o.off, asio::buffer(buf[k], o.len), std::move(h)); break;
    default: f[i]->async_write_some_at(o.off, asio::const_buffer(buf[k], o.len), std::move(h)); }
  };
  if (bound) { go(asio::bind_executor(ctx[o.ex]->get_executor(), std::move(h))); vp_cover("own executor"); } else go(std::move(h));
}
static bool pending(int c) { for (int k = 0; k < nops; ++k) if (op[k].ex == c && op[k].st != handled) return true; return false; }
static bool pool_step(int c) {
  vp_err::error_code ec; const unsigned n = fs.n_io; running = 2; fs.last_errno = 0;
  const bool r = asio::use_service<asio::detail::scheduler>(svc[c]->get_thread_pool()).poll_one(ec) != 0;
  if (fs.n_io != n) { op[current].err = fs.last_errno; op[current].ret = fs.io_ret; } running = -1; return r;
}
static bool ctx_step(int c) {
  running = c; const bool r = ctx[c]->poll_one() != 0; running = -1;
  vp_check(!(ctx[c]->stopped() && pending(c)), "async file: an unfinished operation keeps its executor's context running");
  vp_check(ctx[c]->stopped() || pending(c), "async file: nothing keeps a context running once its operations finished");
  ctx[c]->restart(); return r;
}
static void agree() {
  for (int i = 0; i < 2; ++i) vp_check(f[i]->is_open() == (fd[i] != -1) && f[i]->native_handle() == fd[i], "async file: a file is open exactly while it has a descriptor");
  bool ok = true; for (int i = 0; i < Fs::MAXFD; ++i) ok = ok & (fs.closes[i] == closed[i]);
  vp_check(ok && !fs.bad_close, "async file: every descriptor is closed exactly once");
  vp_check(!fs.bad_use, "async file: only open descriptors are used");
}
static void lose(int i) { if (fd[i] != -1) { ++closed[fd[i]]; fd[i] = -1; } doom(i); }
static void make(int i, int how) {
  home[i] = VP_TWO ? i : 0; strandy[i] = false;
#ifdef VP_STRAND
  strandy[i] = i == 0;
  if (strandy[i]) { file_t::executor_type ex(*strand);
    switch (how) { case 0: new (f[i]) file_t(ex); fd[i] = -1; break; case 1: fd[i] = newfd(); new (f[i]) file_t(ex, fd[i]); break;
    case 2: fd[i] = newfd(); new (f[i]) file_t(ex, asioext::file_handle(fd[i])); break; default: { error_code ec; new (f[i]) file_t(ex, "x", open_args(open_flags::access_read_write | open_flags::open_always), ec); fd[i] = fs.last_fd; } }
    return; }
#endif
  auto& c = *ctx[home[i]];
  switch (how) { case 0: new (f[i]) file_t(c); fd[i] = -1; break; case 1: fd[i] = newfd(); new (f[i]) file_t(c, fd[i]); break;
  case 2: fd[i] = newfd(); new (f[i]) file_t(c, asioext::file_handle(fd[i])); break; default: { error_code ec; new (f[i]) file_t(c, "x", open_args(open_flags::access_read_write | open_flags::open_always), ec); fd[i] = fs.last_fd; } }
}
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  alignas(file_t) unsigned char mem[2][sizeof(file_t)];
  {
    asio::io_context c1(1), c0(1); ctx[0] = &c0; ctx[1] = &c1; // c0 is destroyed first
#ifdef VP_STRAND
    strand_t st(c0.get_executor()); strand = &st;
#endif
    for (int i = 0; i < 2; ++i) svc[i] = &asio::make_service<thread_pool_file_service>(*ctx[i], (std::size_t)0);
    f[0] = (file_t*)mem[0]; f[1] = (file_t*)mem[1];
    make(0, 1); make(1, (int)vp_conc(vp_pick(2)));
    kinds = vp_pick(4); fs.blind = true; fs_hook = transfer; agree();
    fs.faults = VP_FAULTS;
    for (int k = 0; k < VP_OPS; ++k) {
      const int what = vp_pick(10);
      if (what <= 1) { if (fd[what] != -1) { start(what); vp_cover("start"); } }
      else if (what == 2) { const int i = vp_pick(VP_TWO + 1); pool_step(i); }
      else if (what == 3) ctx_step((int)vp_pick(2));
      else if (what == 4) { error_code ec = vp_stale(); f[0]->cancel(ec); vp_check(!ec == (fd[0] != -1), "async file: cancel() succeeds on an open file"); doom(0); vp_cover("cancel"); }
      else if (what == 5) { error_code ec = vp_stale(); fs.close_errno = 0; f[0]->close(ec); vp_check(fs.close_errno ? vp_sys(ec, fs.close_errno) : !ec, "async file: close() reports its result"); lose(0); vp_cover("close"); }
      else if (what == 6) { f[1]->~file_t(); lose(1); new (f[1]) file_t(std::move(*f[0])); fd[1] = fd[0]; fd[0] = -1; home[1] = home[0]; strandy[1] = strandy[0]; adopt(1, 0); vp_cover("move construct"); }
      else if (what == 7) { lose(1); *f[1] = std::move(*f[0]); fd[1] = fd[0]; fd[0] = -1; home[1] = home[0]; strandy[1] = strandy[0]; adopt(1, 0); vp_cover("move assign"); }
      else if (what == 8) { f[0]->~file_t(); lose(0); fs.faults = 0; make(0, 1 + (int)vp_conc(vp_pick(3))); vp_cover("destroy"); }
      else { if (fd[0] == -1) { error_code ec = vp_stale(); fs.last_errno = 0; f[0]->open("x", open_args(open_flags::access_read_write | open_flags::open_always), ec); if (ec) vp_check(vp_sys(ec, fs.last_errno), "async file: a failing open is reported"); else fd[0] = fs.last_fd; vp_cover("open"); } }
      agree();
    }
    bool back = false; for (int k = 0; k < nops; ++k) back = back || (op[k].pool == 1 && op[k].ex == 0 && op[k].st != handled);
    const bool drain = back || vp_pick(2); // operations may not outlive the context of their handler
    if (drain) {
      bool more = true;
      while (more) { more = false; for (int c = 0; c < 2; ++c) { if (pool_step(c)) more = true; if (ctx_step(c)) more = true; } }
      for (int k = 0; k < nops; ++k) vp_check(op[k].st == handled, "async file: every operation completes");
      agree(); vp_cover("drained");
    } else vp_cover("abandoned");
    for (int i = 0; i < 2; ++i) { f[i]->~file_t(); lose(i); }
    bool ok = true; for (int i = 0; i < Fs::MAXFD; ++i) ok = ok & (fs.closes[i] == closed[i]);
    vp_check(ok && !fs.bad_close && fs.open_count == 0, "async file: every descriptor is closed exactly once");
  }
  vp_check(vp_heap_live() == heap, "async file: nothing is leaked");
}

// Operations awaited in coroutines (asio::use_awaitable): the same results, exceptions instead of error codes, nothing leaked
// when a coroutine is abandoned while it waits.
#include "mock_fs.hpp"
#include "mock_stream.hpp"
#include "ec.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/socks/client.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include "asioext/experimental/buffered_stream.hpp"
#include <asio/co_spawn.hpp>
#include <asio/detail/scheduler.hpp>
#include <asio/detached.hpp>
#include <asio/use_awaitable.hpp>
#include <memory>
#include <optional>
using namespace asioext; using asioext::error_code; typedef basic_file<thread_pool_file_service> file_t;
static int g_done, g_thrown; static error_code g_ec; static std::size_t g_n[2]; static int64_t g_ret[2]; static int g_dtor;
static int g_ctor; struct Local { Local() { ++g_ctor; } ~Local() { ++g_dtor; } };
static asio::awaitable<void> work(file_t& f, bool wr, uint64_t off, char* buf) {
  Local l; (void)l;
  try {
    for (int i = 0; i < 2; ++i) {
      if (wr) g_n[i] = co_await f.async_write_some_at(off + i, asio::buffer(buf, 4), asio::use_awaitable);
      else g_n[i] = co_await f.async_read_some(asio::buffer(buf, 4), asio::use_awaitable);
      g_ret[i] = fs.io_ret; ++g_done;
    }
  } catch (const vp_err::system_error& e) { ++g_thrown; g_ec = e.code(); }
}
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live(); const bool wr = vp_choose(2); const uint64_t off = vp_u64(); char buf[4] = {}; bool drained = false, closed = false;
  { std::optional<asio::io_context> io; io.emplace(1); auto& svc = asio::make_service<thread_pool_file_service>(*io, (std::size_t)0);
    fs.blind = true; fs.faults = 1; const int fd = fs.next++; fs.add_fd(fd);
    std::optional<file_t> f; f.emplace(*io, fd);
    asio::co_spawn(*io, work(*f, wr, off, buf), asio::detached);
    vp_check(fs.n_io == 0 && g_done == 0, "coroutine: it is not run by co_spawn()");
    for (unsigned i = 0; i < VP_OPS; ++i) switch (vp_choose(3)) {
      case 0: { error_code ec; asio::use_service<asio::detail::scheduler>(svc.get_thread_pool()).poll_one(ec); break; }
      case 1: if (!io->stopped()) io->poll_one(); break;
      default: { if (closed) vp_assume(false); error_code ec; const unsigned x = fs.faults; fs.faults = 0; f->cancel(ec); fs.faults = x; closed = true; vp_cover("cancelled"); break; } }
    if (vp_choose(2)) { while (!io->stopped()) { error_code ec; asio::use_service<asio::detail::scheduler>(svc.get_thread_pool()).poll_one(ec); io->poll_one(); } vp_cover("drained"); drained = true;
      vp_check(g_done + g_thrown == (g_thrown ? g_done + 1 : 2) && g_done <= 2 && g_thrown <= 1, "coroutine: it runs to its end");
      vp_check(fs.n_io == (unsigned)g_done + (g_thrown ? 1 : 0) || (closed && g_thrown && g_ec == asio::error::operation_aborted && fs.n_io == (unsigned)g_done), "coroutine: every operation is performed once");
      if (g_thrown) { vp_cover("thrown"); vp_check((closed && g_ec == asio::error::operation_aborted) || vp_sys(g_ec, fs.op_errno) || (!wr && g_ec == asio::error::eof), "coroutine: the operation's error is thrown"); }
      for (int i = 0; i < g_done; ++i) vp_check(g_n[i] == (uint64_t)g_ret[i], "coroutine: the operation's result is returned");
      if (wr && g_done == 2) vp_check(fs.io_off == off + 1, "coroutine: the operations run one after the other"); }
    else vp_cover("abandoned");
    f.reset(); io.reset(); }
  vp_check(g_dtor == g_ctor && g_ctor <= 1, "coroutine: its locals are destroyed once"); vp_check(vp_heap_live() == heap, "coroutine: nothing is leaked");
}

// The thread pool running for real: one pool thread against the program's thread, every interleaving (bounded preemptions).
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <asio/io_context.hpp>
#include <memory>
#include <optional>
#include <pthread.h>
#include <utility>
using namespace asioext;
typedef basic_file<thread_pool_file_service> file_t;
enum { NOPS = 2 };
static pthread_t main_thread; static int invoked[NOPS], transfers[NOPS]; static int64_t ret[NOPS]; static char buf[NOPS][4]; static int cancels, started_after[NOPS]; static bool initiating;
static void transfer() { vp_yield(); const char* p = (const char*)fs.seg[0].p; for (int k = 0; k < NOPS; ++k) if (p == buf[k]) { ++transfers[k]; vp_check(fs.io_fd == 3 && fs.io_off == 10u + k && fs.io_at, "file threads: the transfer asked for is the one performed"); ret[k] = k + 1; } vp_check(!pthread_equal(pthread_self(), main_thread), "file threads: transfers are done by the thread pool"); }
struct Handler {
  int k; std::unique_ptr<int> alive;
  void operator()(error_code ec, std::size_t n) {
    vp_check(pthread_equal(pthread_self(), main_thread) && !initiating, "file threads: handlers run where their context runs");
    vp_check(!invoked[k]++, "file threads: a handler is invoked once");
    if (ec == ::asio::error::operation_aborted) { vp_check(n == 0 && !transfers[k] && cancels > started_after[k], "file threads: only operations that transferred nothing are reported as cancelled"); vp_cover("aborted"); }
    else { vp_check(transfers[k] == 1 && (ec ? n == 0 : n > 0 && n <= 4), "file threads: the result is that of the transfer"); vp_cover("done"); }
  }
};
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live(); main_thread = pthread_self();
  {
    asio::io_context c(1);
    asio::make_service<thread_pool_file_service>(c, (std::size_t)VP_POOL);
    vp_norace(&fs); fs.add_fd(3); fs.blind = true; fs_hook = transfer;
    std::optional<file_t> f, g; f.emplace(c, 3);
    for (int k = 0; k < NOPS; ++k) {
      started_after[k] = cancels;
      initiating = true; (f ? *f : *g).async_write_some_at(10 + k, asio::const_buffer(buf[k], 4), Handler{k, std::make_unique<int>(k)}); initiating = false;
      switch (vp_pick(4)) {
      case 0: break;
      case 1: (f ? *f : *g).cancel(); ++cancels; vp_cover("cancel"); break;
      case 2: if (f) { g.emplace(std::move(*f)); f.reset(); vp_cover("move"); } break;
      default: c.poll(); vp_cover("poll"); if (c.stopped()) c.restart(); }
    }
    if (vp_pick(2)) { c.run(); vp_check(invoked[0] && invoked[1], "file threads: every operation completes"); vp_cover("drained"); f.reset(); g.reset(); vp_check(fs.closes[3] == 1, "file threads: the descriptor is closed once"); }
    else { f.reset(); g.reset(); vp_cover("abandoned"); }
  }
  vp_check(fs.closes[3] == 1 && !fs.bad_close, "file threads: the descriptor is closed once");
  vp_check(vp_heap_live() == heap, "file threads: nothing is leaked");
}

// Distinct file objects used from two threads at the same time (on one service, or moving between two): no two accesses to
// the same memory without synchronisation. Decided by happens-before analysis of every explored schedule.
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <asio/io_context.hpp>
#include <optional>
#include <pthread.h>
#include <utility>
using namespace asioext;
typedef basic_file<thread_pool_file_service> file_t;
static asio::io_context *c0, *c1; static char buf[2][4]; static int started[2], invoked[2];
struct Handler { int k; void operator()(error_code, std::size_t) { ++invoked[k]; } };
struct Worker { int k; unsigned op[VP_OPS]; std::optional<file_t> a, b; };
static Worker w[2];
static void* work(void* p) {
  Worker& m = *(Worker*)p; error_code ec;
  m.a.emplace(*c0, 3 + m.k); m.b.emplace(*c1);
  for (unsigned op : m.op) switch (op) {
    case 0: if (m.a) { m.a->async_write_some_at(10 + m.k, asio::const_buffer(buf[m.k], 4), Handler{m.k}); ++started[m.k]; } break;
    case 1: if (m.a) m.a->cancel(ec); break;
    case 2: if (m.a && m.b) { *m.b = std::move(*m.a); vp_cover("move assign"); } break;
    case 3: if (m.a) { m.b.reset(); m.b.emplace(std::move(*m.a)); vp_cover("move construct"); } break;
    case 4: if (m.b) m.b->close(ec); break;
    default: m.a.reset(); vp_cover("destroy");
  }
#if VP_LEAVE == 0
  m.a.reset(); m.b.reset();
#endif
  return nullptr;
}
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live(); vp_norace(&fs); // the mock system
  {
    asio::io_context x(1); std::optional<asio::io_context> y;
    asio::make_service<thread_pool_file_service>(x, (std::size_t)VP_POOL); c0 = c1 = &x;
#if VP_TWO
    y.emplace(1); asio::make_service<thread_pool_file_service>(*y, (std::size_t)0); c1 = &*y;
#endif
    fs.blind = true; fs.add_fd(3); fs.add_fd(4);
    for (int k = 0; k < 2; ++k) { w[k].k = k; for (unsigned& o : w[k].op) o = (unsigned)vp_choose(6); }
    pthread_t t[2]; for (int k = 0; k < 2; ++k) pthread_create(&t[k], nullptr, work, &w[k]);
    for (int k = 0; k < 2; ++k) pthread_join(t[k], nullptr);
    if (VP_POOL && vp_choose(2)) { x.run(); if (y) y->run(); vp_check(!VP_POOL || (invoked[0] == started[0] && invoked[1] == started[1]), "threads: every operation completes"); vp_cover("drained"); }
    else vp_cover("abandoned");
    for (int k = 0; k < 2; ++k) { w[k].a.reset(); w[k].b.reset(); }
  }
  vp_check(fs.closes[3] == 1 && fs.closes[4] == 1 && !fs.bad_close, "threads: every descriptor is closed once");
  vp_check(vp_heap_live() == heap, "threads: nothing is leaked");
}

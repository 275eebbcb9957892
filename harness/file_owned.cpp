// Handlers that own the file they operate on: whether the operation completes or its context is destroyed first,
// the descriptor is closed exactly once and nothing is leaked.
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <asio/detail/scheduler.hpp>
#include <asio/io_context.hpp>
#include <asio/post.hpp>
#include <memory>
#include <optional>
using namespace asioext;
typedef basic_file<thread_pool_file_service> file_t;
static int invoked[3]; static char buf[8]; static bool destroyed;
struct Handler {
  int k; std::shared_ptr<file_t> self; bool again;
  void operator()(error_code, std::size_t n) {
    vp_check(!invoked[k] && !destroyed, "owned file: a handler is invoked at most once and not while its context is destroyed"); ++invoked[k];
    vp_observe(n);
    if (again) { auto& f = *self; f.async_read_some_at(5, asio::buffer(buf), Handler{2, std::move(self), false}); vp_cover("chained"); }
  }
};
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  {
    std::optional<asio::io_context> c; c.emplace(1);
    auto& svc = asio::make_service<thread_pool_file_service>(*c, (std::size_t)0);
    fs.blind = true;
    for (int i = 0; i < 2; ++i) {
      const int fd = fs.next++; fs.add_fd(fd);
      auto f = std::make_shared<file_t>(*c, fd); auto& r = *f;
      const bool again = i == 0 && vp_pick(2);
      if (vp_pick(2)) r.async_read_some(asio::buffer(buf), Handler{i, std::move(f), again}); else r.async_write_some_at(7, asio::buffer(buf), Handler{i, std::move(f), again});
    }
    fs.faults = 1;
    for (int k = 0; k < VP_OPS; ++k) {
      if (vp_pick(2)) { vp_err::error_code ec; asio::use_service<asio::detail::scheduler>(svc.get_thread_pool()).poll_one(ec); } else if (!c->stopped()) c->poll_one();
    }
    if (vp_pick(2)) { while (!c->stopped()) { vp_err::error_code ec; asio::use_service<asio::detail::scheduler>(svc.get_thread_pool()).poll_one(ec); c->poll_one(); } vp_check(invoked[0] && invoked[1] && fs.open_count == 0, "owned file: every operation completes and releases its file"); vp_cover("completed"); }
    else vp_cover("abandoned");
    destroyed = true; c.reset();
    vp_check(fs.open_count == 0 && fs.closes[3] == 1 && fs.closes[4] == 1 && !fs.bad_close && !fs.bad_use, "owned file: every descriptor is closed exactly once");
  }
  vp_check(vp_heap_live() == heap, "owned file: nothing is leaked");
}

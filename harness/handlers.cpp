// Handlers given as lvalues are copied and stay usable; those given as rvalues are moved. Either way the operation invokes
// its own, intact one. VP_OP: 0 files, 1 SOCKS, 2 composed operations and bound handlers, 3 connect, 4 buffered streams
#include "vp.h"
#include <asio/io_context.hpp>
#include <memory>
#include <new>
#include <utility>
#ifdef VP_ALLOC // the handlers' allocator, which fails at some point, and what it has given out
static int budget = -1, blocks = 0;
template <class T> struct Alloc {
  typedef T value_type; Alloc() = default; template <class U> Alloc(const Alloc<U>&) {}
  T* allocate(std::size_t n) { if (budget == 0) throw std::bad_alloc(); if (budget > 0) --budget; ++blocks; return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) { --blocks; ::operator delete(p); }
  template <class U> bool operator==(const Alloc<U>&) const { return true; } template <class U> bool operator!=(const Alloc<U>&) const { return false; }
};
#endif
struct Tok {
#ifdef VP_ALLOC
  typedef Alloc<int> allocator_type; allocator_type get_allocator() const noexcept { return allocator_type(); }
#endif
  std::shared_ptr<int> state; bool moved = false;
  explicit Tok(int v) : state(std::make_shared<int>(v)) {}
  Tok(const Tok& o) : state(o.state), moved(o.moved) {}
  Tok(Tok&& o) noexcept : state(std::move(o.state)), moved(o.moved) { o.moved = true; }
  static int calls, want;
  template <class... A> void operator()(A&&...) const { ++calls;
#ifdef VP_ALLOC
    vp_check(blocks == 0, "handlers: the handler's memory is returned before the handler is invoked");
#endif
    vp_check(!moved && state && *state == want, "handlers: the operation invokes an intact handler"); }
};
int Tok::calls, Tok::want;
static bool eager = false; // whether the handler has been invoked by the initiating function
#ifdef VP_ALLOC
// starts an operation whose handler's allocator fails at some point
template <class Start, class Run> static void go(asio::io_context& io, Start start, Run run) {
  const int v = vp_i32(); Tok::want = v; const int k = (int)vp_choose(VP_ALLOC + 1); budget = k == VP_ALLOC ? -1 : k;
  bool thrown = false; Tok t(v);
  try { start(Tok(t)); } catch (const std::bad_alloc&) { thrown = true; }
  if (thrown) {
    vp_cover("not started"); vp_check(budget == 0 && Tok::calls == 0 && blocks == 0, "handlers: an operation that cannot be started does not invoke its handler and returns its memory");
    budget = -1; io.poll(); vp_check(io.stopped(), "handlers: an operation that cannot be started leaves no work behind"); io.restart();
    vp_check(Tok::calls == 0, "handlers: an operation that cannot be started does not invoke its handler and returns its memory");
    start(t); run(); vp_check(Tok::calls == 1, "handlers: it can be started again"); vp_check(t.state.use_count() == 1, "handlers: all copies are gone afterwards");
    return;
  }
  try { run(); } catch (const std::bad_alloc&) { vp_cover("broken off"); vp_check(budget == 0 && Tok::calls == 0, "handlers: an operation that breaks off does not invoke its handler"); return; }
  vp_cover("done"); vp_check(Tok::calls == 1, "handlers: the handler is invoked once per operation"); vp_check(t.state.use_count() == 1 && blocks == 0, "handlers: all copies are gone afterwards");
}
# define VP_GO(...) go(io, __VA_ARGS__)
#else
# define VP_GO(...) go(__VA_ARGS__)
// starts an operation twice with the same handler, given in any of the ways possible
template <class Start, class Run> static void go(Start start, Run run) {
  const int v = vp_i32(); Tok::want = v;
  const unsigned how = (unsigned)vp_choose(3); const int times = how == 2 ? 1 : 2;
  {
    Tok t(v); const Tok& ct = t;
    for (int i = 0; i < times; ++i) {
      switch (how) {
      case 0: start(t); vp_cover("lvalue"); break;
      case 1: start(ct); vp_cover("const lvalue"); break;
      default: start(std::move(t)); vp_cover("rvalue"); break;
      }
      if (how < 2) vp_check(!t.moved && t.state && *t.state == v, "handlers: a handler given as an lvalue is not touched");
      else vp_check(t.moved, "handlers: a handler given as an rvalue is moved");
      vp_check(eager || Tok::calls == i, "handlers: the initiating function does not invoke the handler");
      run(); vp_check(Tok::calls == i + 1, "handlers: the handler is invoked once per operation");
    }
    if (how < 2) vp_check(t.state.use_count() == 1, "handlers: all copies are gone afterwards");
  }
}
#endif
#if VP_OP == 0
#include "mock_fs.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <asio/detail/scheduler.hpp>
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  { asio::io_context io(1); auto& svc = asio::make_service<asioext::thread_pool_file_service>(io, (std::size_t)0);
    fs.blind = true; const int fd = fs.next++; fs.add_fd(fd); asioext::basic_file<asioext::thread_pool_file_service> f(io, fd);
    char buf[4] = {}; const unsigned op = (unsigned)vp_choose(4);
    VP_GO([&](auto&& h) { typedef decltype(h) H; switch (op) {
      case 0: f.async_read_some(asio::buffer(buf), std::forward<H>(h)); break;
      case 1: f.async_write_some(asio::buffer(buf), std::forward<H>(h)); break;
      case 2: f.async_read_some_at(3, asio::buffer(buf), std::forward<H>(h)); break;
      default: f.async_write_some_at(3, asio::buffer(buf), std::forward<H>(h)); } },
      [&] { vp_err::error_code ec; asio::use_service<asio::detail::scheduler>(svc.get_thread_pool()).poll_one(ec); io.poll(); io.restart(); }); }
#ifdef VP_ALLOC
  vp_check(blocks == 0, "handlers: nothing is leaked");
#endif
  vp_check(vp_heap_live() == heap, "handlers: nothing is leaked");
}
#elif VP_OP == 1
#include "mock_stream.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/socks/client.hpp"
using namespace asioext;
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  { asio::io_context io(1); MockStream s(io); linear_buffer lb; const unsigned op = (unsigned)vp_choose(6);
    static const unsigned char greet[] = {5, 0}, login[] = {1, 0}, ex5[] = {5, 0, 0, 1, 9, 9, 9, 9, 9, 9}, ex4[] = {0, 0x5a, 9, 9, 9, 9, 9, 9};
    auto reply = [&](const unsigned char* p, std::size_t n) { std::memcpy(s.in + s.in_n, p, n); s.in_n += n; };
    const std::string host("h"), user("u"); const asio::ip::tcp::endpoint ep(asio::ip::address_v4(1), 2); socks::auth_method m = socks::auth_method::none;
    VP_GO([&](auto&& h) { typedef decltype(h) H; switch (op) {
      case 0: reply(greet, 2); socks::async_greet(s, &m, 1, dynamic_buffer(lb), std::forward<H>(h)); break;
      case 1: reply(login, 2); socks::async_login(s, user, user, dynamic_buffer(lb), std::forward<H>(h)); break;
      case 2: reply(ex5, 10); socks::async_execute(s, socks::command::connect, host, 80, dynamic_buffer(lb), std::forward<H>(h)); break;
      case 3: reply(ex5, 10); socks::async_execute(s, socks::command::connect, ep, dynamic_buffer(lb), std::forward<H>(h)); break;
      case 4: reply(ex4, 8); socks::async_execute(s, socks::command::connect, host, 80, user, dynamic_buffer(lb), std::forward<H>(h)); break;
      default: reply(ex4, 8); socks::async_execute(s, socks::command::connect, ep, user, dynamic_buffer(lb), std::forward<H>(h)); } },
      [&] { io.run(); io.restart(); }); }
#ifdef VP_ALLOC
  vp_check(blocks == 0, "handlers: nothing is leaked");
#endif
  vp_check(vp_heap_live() == heap, "handlers: nothing is leaked");
}
#elif VP_OP == 2
#include "asioext/bind_handler.hpp"
#include "asioext/compose.hpp"
#include <asio/post.hpp>
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  { asio::io_context io(1); const unsigned op = (unsigned)vp_choose(5); const int a = vp_i32();
    // the implementation is an lvalue or not, too; it only works while it is intact
    auto impl = [keep = Tok(a), a, direct = op < 3](auto& self) { vp_check(!keep.moved && *keep.state == a, "handlers: the implementation is intact"); if (direct) self.complete(a); else self.complete_to_bound_handler(a)(); };
    VP_GO([&](auto&& h) { typedef decltype(h) H; switch (op) {
      case 0: { auto b = asioext::bind_handler(std::forward<H>(h), a, Tok(1)); asio::post(io, std::move(b)); break; }
      case 1: { int x = a; auto b = asioext::bind_handler(std::forward<H>(h), x); b(); vp_check(x == a, "handlers: arguments given as lvalues are copied"); eager = true; break; }
      case 2: case 3: { asio::post(io, asioext::make_composed_operation(impl, std::forward<H>(h), io)); break; }
      default: { auto c = impl; asio::post(io, asioext::make_composed_operation(std::move(c), std::forward<H>(h))); } } },
      [&] { io.run(); io.restart(); }); }
#ifdef VP_ALLOC
  vp_check(blocks == 0, "handlers: nothing is leaked");
#endif
  vp_check(vp_heap_live() == heap, "handlers: nothing is leaked");
}
#elif VP_OP == 4
#include "mock_stream.hpp"
#include "asioext/experimental/buffered_stream.hpp"
using namespace asioext;
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  { asio::io_context io(1); MockStream s(io); buffered_stream<MockStream&> b(s); const unsigned op = (unsigned)vp_choose(3); const uint8_t d[2] = {1, 2};
    VP_GO([&](auto&& h) { typedef decltype(h) H; switch (op) {
      case 0: b.write_buffer().append(d, 2); b.async_flush(std::forward<H>(h)); break;
      case 1: b.async_flush([](auto, auto) {}); b.async_flush(std::forward<H>(h)); break; // refused
      default: s.in_n = s.in_pos + 1; b.async_fill(std::forward<H>(h)); } },
      [&] { io.run(); io.restart(); });
#ifdef VP_ALLOC
    if (Tok::calls) { vp_check(!b.flush_pending(), "handlers: a flush that could not be started is not pending"); if (op == 0) vp_check(s.out_n >= 2, "handlers: a flush that could not be started can be repeated"); }
#endif
  }
#ifdef VP_ALLOC
  vp_check(blocks == 0, "handlers: nothing is leaked");
#endif
  vp_check(vp_heap_live() == heap, "handlers: nothing is leaked");
}
#else
#include "mock_net.hpp"
#include "asioext/connect.hpp"
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  { asio::io_context io(1); asio::ip::tcp::socket s(io); asio::ip::tcp::resolver r(io); net.gai = vp_choose(2) ? EAI_NONAME : 0;
    VP_GO([&](auto&& h) { typedef decltype(h) H; asioext::async_connect(s, r, "h", "s", (asio::ip::resolver_base::flags)0, std::forward<H>(h)); },
       [&] { const int c = Tok::calls; for (int i = 0; i < 8 && Tok::calls == c; ++i) { io.restart(); io.run_one(); } }); }
#ifdef VP_ALLOC
  vp_check(blocks == 0, "handlers: nothing is leaked");
#endif
  vp_check(vp_heap_live() == heap, "handlers: nothing is leaked");
}
#endif

// Composed operations, bound handlers and work tuples: arguments, executors, allocators and outstanding work.
#include "vp.h"
#include "asioext/bind_handler.hpp"
#include "asioext/compose.hpp"
#include "asioext/work.hpp"
#include <asio/associated_allocator.hpp>
#include <asio/associated_executor.hpp>
#include <asio/io_context.hpp>
#include <asio/post.hpp>
#include <memory>
#include <new>
#include <optional>
#include <utility>
static asio::io_context* ctx[3]; // 0: the operation's, 1: the handler's, 2: somewhere else
static int running = -1, invoked, destroyed, steps_done, made; static bool work[2];
static int value; static uint64_t value2; static int expect_path;
struct Block { void* p; std::size_t n; }; static Block blocks[16]; static int nblocks, nalloc;
template <class T> struct Alloc {
  typedef T value_type; int id = 0;
  explicit Alloc(int i) : id(i) {} template <class U> Alloc(const Alloc<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { vp_check(id == 42, "compose: the handler's allocator is used"); void* p = ::operator new(n * sizeof(T)); vp_check(nblocks < 16, "compose: allocations are released"); blocks[nblocks++] = {p, n * sizeof(T)}; ++nalloc; return (T*)p; }
  void deallocate(T* p, std::size_t n) { bool ok = false; for (int i = 0; i < nblocks; ++i) if (blocks[i].p == p) { ok = blocks[i].n == n * sizeof(T) && id == 42; blocks[i] = blocks[--nblocks]; break; } vp_check(ok, "compose: storage returns to the allocator it came from"); ::operator delete(p); }
  template <class U> bool operator==(const Alloc<U>& o) const { return id == o.id; } template <class U> bool operator!=(const Alloc<U>& o) const { return id != o.id; }
};
template <> struct Alloc<void> { typedef void value_type; int id; explicit Alloc(int i) : id(i) {} template <class U> Alloc(const Alloc<U>& o) : id(o.id) {} template <class U> struct rebind { typedef Alloc<U> other; };
  template <class U> bool operator==(const Alloc<U>& o) const { return id == o.id; } template <class U> bool operator!=(const Alloc<U>& o) const { return id != o.id; } };
struct Thrown {};
struct Dtor { void operator()(int*) const { ++destroyed; } };
static bool user_cont, throws;
struct Base {
  std::unique_ptr<int, Dtor> alive{&made};
  void operator()(int a, uint64_t b, const std::unique_ptr<int>& c) {
    vp_check(!invoked++ && alive, "compose: the handler is invoked once, intact");
    vp_check((a == value) & (b == value2) & (c != nullptr) && *c == (value ^ 1), "compose: the handler gets exactly the given arguments");
    vp_check(running == expect_path, "compose: the handler runs where it belongs");
    for (int i = 0; i < 2; ++i) if (work[i]) vp_check(!ctx[i]->stopped(), "compose: executors are kept busy until the handler has run");
    if (throws) throw Thrown();
  }
  friend bool asio_handler_is_continuation(Base*) { return user_cont; }
};
struct Plain : Base {};
struct Assoc : Base {
  typedef asio::io_context::executor_type executor_type; executor_type get_executor() const noexcept { return ctx[1]->get_executor(); }
  typedef Alloc<void> allocator_type; allocator_type get_allocator() const noexcept { return allocator_type(42); }
};
template <class H> static bool cont(H& h) { return VP_CONT_HELPERS::is_continuation(h); }
template <class H> static constexpr bool assoc = !std::is_same<H, Plain>::value;
static bool direct;
template <class H> struct Impl {
  int left; std::unique_ptr<int> state;
  template <class Self> void operator()(Self& self, int token = 0) {
    vp_check(token == steps_done && state && *state == 5, "compose: intermediate steps get exactly their arguments"); ++steps_done;
    vp_check(self.get_handler().alive != nullptr, "compose: the handler stays with its operation");
    if (steps_done > 1) vp_check(cont(self), "compose: later steps are continuations"); else vp_check(cont(self) == user_cont, "compose: the first step continues only if the handler does");
    if constexpr (assoc<H>) { vp_check(asio::get_associated_executor(self) == ctx[1]->get_executor() && asio::get_associated_allocator(self).id == 42, "compose: the handler's executor and allocator are the operation's");
      if (steps_done > 1) vp_check(running == 1, "compose: intermediate steps run where the handler belongs"); }
    else vp_check(asio::get_associated_executor(self, ctx[2]->get_executor()) == ctx[2]->get_executor(), "compose: a handler without executor uses the given one");
    if (left--) { const int k = steps_done; asio::post(ctx[2]->get_executor(), asioext::bind_handler(std::move(self), k)); vp_cover("step"); return; }
    expect_path = running;
    if (direct) { self.complete(value, value2, std::make_unique<int>(value ^ 1)); vp_cover("direct"); }
    else {
      auto b = self.complete_to_bound_handler(value, value2, std::make_unique<int>(value ^ 1));
      vp_check(cont(b) == user_cont, "compose: a bound handler continues if its handler does");
      expect_path = assoc<H> ? 1 : 2;
      asio::post(ctx[2]->get_executor(), std::move(b)); vp_cover("bound");
    }
  }
};
static void poll() { for (int r = 0; r < 8; ++r) for (int c = 2; c >= 0; --c) {
  running = c; try { ctx[c]->poll(); } catch (const Thrown&) {} running = -1;
  if (c < 2 && work[c] && !destroyed) vp_check(!ctx[c]->stopped(), "compose: executors are kept busy until the handler has run");
  if (ctx[c]->stopped()) ctx[c]->restart(); } }
template <class H> static void go() {
  const unsigned nex = vp_pick(3); const int steps = (int)vp_conc(vp_pick(VP_STEPS + 1)); direct = vp_pick(2);
  user_cont = vp_pick(2); throws = vp_pick(2); const bool drain = vp_pick(2);
  work[0] = nex > 0; work[1] = nex > 1;
  Impl<H> impl{steps, std::make_unique<int>(5)};
  running = 9; 
  auto start = [&](auto op) { if (vp_pick(2)) { auto o2 = std::move(op); try { o2(); } catch (const Thrown&) {} } else { try { op(); } catch (const Thrown&) {} } };
  const bool synchronous = steps == 0 && direct;
  switch (nex) {
  case 0: start(asioext::make_composed_operation(std::move(impl), H())); break;
  case 1: start(asioext::make_composed_operation(std::move(impl), H(), ctx[0]->get_executor())); break;
  default: start(asioext::make_composed_operation(std::move(impl), H(), *ctx[0], ctx[1]->get_executor())); break;
  }
  running = -1;
  vp_check((invoked != 0) == synchronous && (destroyed != 0) == synchronous, "compose: the handler is not invoked before its operation is finished");
  if (drain) {
    poll(); vp_check(invoked == 1 && steps_done == steps + 1 && destroyed == 1, "compose: the operation finishes and its handler is destroyed once"); vp_cover("finished");
    for (int c = 0; c < 3; ++c) { ctx[c]->poll(); vp_check(ctx[c]->stopped(), "compose: nothing is kept busy afterwards"); }
    if (assoc<H> && (steps || !direct)) vp_check(nalloc > 0, "compose: the handler's allocator is used");
  } else vp_cover("abandoned");
  vp_observe(steps_done); vp_observe(nalloc);
}
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  value = vp_i32(); value2 = vp_u64();
  {
    asio::io_context c0(1), c1(1); { asio::io_context c2(1); ctx[0] = &c0; ctx[1] = &c1; ctx[2] = &c2;
    if (vp_pick(2)) go<Assoc>(); else go<Plain>(); 
    }
    running = -1;
    // operations waiting in the handler's context release their work on the others first
    work[0] = work[1] = false;
  }
  vp_check(destroyed == 1 && invoked <= 1, "compose: the handler is destroyed exactly once");
  vp_check(vp_heap_live() == heap && nblocks == 0, "compose: nothing is leaked");
}

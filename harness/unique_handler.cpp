// unique_handler: every stored handler is invoked at most once with the given arguments, destroyed exactly once, and its
// storage comes from and returns to its associated allocator.
#include "vp.h"
#include "asioext/unique_handler.hpp"
#include "asioext/exception.hpp"
#include <memory>
#include <new>
#include <utility>
using namespace asioext;
typedef unique_handler<void(int, std::unique_ptr<int>)> uh_t;
enum { MAXH = VP_OPS * 2 + 2 };
static int made, gone[MAXH], invoked[MAXH]; static bool must_fail; static uh_t* u[2]; static int holds[2];
struct Block { void* p; int id; std::size_t n; }; static Block blocks[MAXH]; static int nblocks;
template <class T> struct Alloc {
  typedef T value_type; int id;
  explicit Alloc(int i) : id(i) {} template <class U> Alloc(const Alloc<U>& o) : id(o.id) {}
  T* allocate(std::size_t n) { if (must_fail) { must_fail = false; vp_cover("bad_alloc"); throw std::bad_alloc(); } void* p = ::operator new(n * sizeof(T)); blocks[nblocks++] = {p, id, n * sizeof(T)}; return (T*)p; }
  void deallocate(T* p, std::size_t n) { bool ok = false; for (int i = 0; i < nblocks; ++i) if (blocks[i].p == p) { ok = blocks[i].id == id && blocks[i].n == n * sizeof(T); blocks[i] = blocks[--nblocks]; break; } vp_check(ok, "unique_handler: storage returns to the allocator it came from"); ::operator delete(p); }
  template <class U> bool operator==(const Alloc<U>& o) const { return id == o.id; } template <class U> bool operator!=(const Alloc<U>& o) const { return id != o.id; }
};
template <> struct Alloc<void> { typedef void value_type; int id; explicit Alloc(int i) : id(i) {} template <class U> Alloc(const Alloc<U>& o) : id(o.id) {} template <class U> struct rebind { typedef Alloc<U> other; };
  template <class U> bool operator==(const Alloc<U>& o) const { return id == o.id; } template <class U> bool operator!=(const Alloc<U>& o) const { return id != o.id; } };
struct Gone { int id, at; void operator()(int*) const; };
static int expect_a, expect_b; static bool completing, throwing;
struct Thrown {};
static int hook_at, hook_what;
template <bool C> struct Hd {
  std::unique_ptr<int, Gone> alive; int id;
  explicit Hd(int i) : alive(&made, Gone{i, 0}), id(i) {}
  Hd(Hd&&) = default; Hd& operator=(Hd&&) = default;
  void operator()(int a, std::unique_ptr<int> b);
};
template <> struct Hd<true> : Hd<false> { using Hd<false>::Hd; typedef Alloc<void> allocator_type; allocator_type get_allocator() const noexcept { return allocator_type(id); } };
static void forget(int i) { if (holds[i] >= 0) holds[i] = -1; }
template <class F> static void set(F f) { if (vp_pick(2)) f(Hd<true>(made++)); else f(Hd<false>(made++)); }
template <bool C> void Hd<C>::operator()(int a, std::unique_ptr<int> b) {
  vp_check(completing && id == holds[0], "unique_handler: completing invokes the stored handler"); vp_check(!invoked[id]++ && !gone[id], "unique_handler: a handler is invoked at most once");
  vp_check((a == expect_a) & (b != nullptr) && *b == expect_b, "unique_handler: the handler gets the given arguments"); vp_check(!*u[0], "unique_handler: the object is empty while its handler runs");
  vp_check(alive != nullptr, "unique_handler: the stored handler is intact");
  holds[0] = -1; completing = false;
  bool mine = false; for (int i = 0; i < nblocks; ++i) mine = mine || blocks[i].id == id; vp_check(!mine, "unique_handler: storage is released before the handler is invoked");
  switch (vp_pick(3)) { case 0: break; case 1: { const int k = made++; *u[0] = Hd<true>(k); holds[0] = k; vp_cover("new handler from handler"); break; } default: vp_cover("handler throws"); throw Thrown(); }
}
void Gone::operator()(int*) const { ++gone[id]; if (u[0] && holds[0] == id && !completing) vp_check(!*u[0], "unique_handler: the object is empty before its handler is destroyed"); }
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  alignas(uh_t) unsigned char mem[2][sizeof(uh_t)];
  for (int i = 0; i < 2; ++i) { u[i] = new (mem[i]) uh_t(); holds[i] = -1; vp_check(!*u[i], "unique_handler: default constructed is empty"); }
  for (int k = 0; k < VP_OPS; ++k) {
    const int dead = holds[0];
    bool kills = true;
    switch (vp_pick(8)) {
    case 0: case 1: { // assignment
      const bool fail = vp_pick(2), lv = vp_pick(2); bool threw = false; int id = -1;
      try { set([&](auto&& h) { id = h.id; must_fail = fail && sizeof h.id && std::is_base_of<Hd<false>, std::decay_t<decltype(h)>>::value && !std::is_same<Hd<false>, std::decay_t<decltype(h)>>::value; if (lv) { auto x = std::move(h); *u[0] = x; } else *u[0] = std::move(h); }); } catch (const std::bad_alloc&) { threw = true; }
      vp_check(!must_fail && threw == (gone[id] != 0), "unique_handler: a handler that cannot be stored is destroyed"); holds[0] = threw ? -1 : id; vp_check(!invoked[id], "unique_handler: storing a handler does not invoke it"); if (!threw) vp_cover(lv ? "assign lvalue" : "assign"); break; }
    case 2: { // construction
      holds[0] = -1; u[0]->~uh_t(); const bool fail = vp_pick(2), lv = vp_pick(2); bool threw = false; int id = -1;
      try { set([&](auto&& h) { id = h.id; must_fail = fail && !std::is_same<Hd<false>, std::decay_t<decltype(h)>>::value; if (lv) { auto x = std::move(h); new (u[0]) uh_t(x); } else new (u[0]) uh_t(std::move(h)); }); } catch (const std::bad_alloc&) { threw = true; new (u[0]) uh_t(); }
      vp_check(threw == (gone[id] != 0), "unique_handler: a handler that cannot be stored is destroyed"); holds[0] = threw ? -1 : id; vp_cover("construct"); break; }
    case 3: *u[0] = std::move(*u[1]); holds[0] = holds[1]; holds[1] = -1; vp_cover("move assign"); break;
    case 4: holds[0] = -1; u[0]->~uh_t(); new (u[0]) uh_t(std::move(*u[1])); holds[0] = holds[1]; holds[1] = -1; vp_cover("move construct"); break;
    case 5: u[0]->reset(); holds[0] = -1; vp_cover("reset"); break;
    case 6: { expect_a = vp_i32(); expect_b = vp_i32(); const int id = holds[0]; bool empty = false; completing = true;
      try { u[0]->complete(expect_a, std::make_unique<int>(expect_b)); } catch (const asioext::bad_function_call&) { empty = true; } catch (const Thrown&) {}
      completing = false;
      vp_check(empty == (id < 0), "unique_handler: completing an empty object throws bad_function_call"); if (id >= 0) { vp_check(invoked[id] == 1, "unique_handler: completing invokes the stored handler"); vp_cover("complete"); } else vp_cover("complete empty"); break; }
    default: std::swap(u[0], u[1]); std::swap(holds[0], holds[1]); kills = false; break;
    }
    if (kills && dead >= 0) vp_check(gone[dead] == 1, "unique_handler: a handler that was given up is destroyed, once");
    for (int i = 0; i < 2; ++i) { vp_check(static_cast<bool>(*u[i]) == (holds[i] >= 0), "unique_handler: an object is empty exactly if it stores no handler"); if (holds[i] >= 0) vp_check(!gone[holds[i]] && !invoked[holds[i]], "unique_handler: a stored handler is kept and not invoked"); }
  }
  for (int i = 0; i < 2; ++i) { holds[i] = -1; u[i]->~uh_t(); }
  for (int i = 0; i < made; ++i) vp_check(gone[i] == 1 && invoked[i] <= 1, "unique_handler: every handler is destroyed exactly once");
  vp_check(vp_heap_live() == heap && nblocks == 0, "unique_handler: nothing is leaked");
}

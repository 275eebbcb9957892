// I/O object holders over any service: each implementation is constructed by, moved between and destroyed by the
// services it belongs to, exactly once, and a holder's executor and service follow what it was made or assigned from.
#include "vp.h"
#include "asioext/io_object_holder.hpp"
#include <asio/any_io_executor.hpp>
#include <asio/io_context.hpp>
#include <optional>
using namespace asioext;
static int live, made;
struct impl_t { void* owner = nullptr; int id = 0; };
template <int K> struct Service : asio::execution_context::service {
  static asio::execution_context::id id;
  typedef impl_t implementation_type;
  int mine = 0;
  explicit Service(asio::execution_context& c) : asio::execution_context::service(c) {}
  void shutdown() override { vp_check(mine == 0, "holder: every implementation is destroyed by the service it belongs to"); }
  void construct(impl_t& i) { vp_check(!i.owner, "holder: an implementation is constructed once"); i.owner = this; i.id = 0; ++mine; ++live; }
  void move_construct(impl_t& i, impl_t& o) { vp_check(!i.owner && o.owner == this && &i != &o, "holder: moving takes an implementation of the same service"); i.owner = this; i.id = o.id; o.id = 0; ++mine; ++live; }
  template <int K2> void converting_move_construct(impl_t& i, Service<K2>& s, impl_t& o) { vp_check(!i.owner && o.owner == &s, "holder: converting takes an implementation of the other service"); i.owner = this; i.id = o.id; o.id = 0; ++mine; ++live; }
  void move_assign(impl_t& i, Service& s, impl_t& o) { vp_check(i.owner == this && o.owner == &s && &i != &o, "holder: assigning names the services of both implementations"); i.id = o.id; o.id = 0; i.owner = &s; --mine; ++s.mine; }
  void destroy(impl_t& i) { vp_check(i.owner == this, "holder: an implementation is destroyed once, by the service it belongs to"); i.owner = nullptr; --mine; --live; }
};
template <int K> asio::execution_context::id Service<K>::id;
typedef asio::io_context::executor_type ex_t; typedef asio::any_io_executor any_t;
template <class S, class E> struct Slot { std::optional<io_object_holder<S, E>> h; int id = 0, ctx = 0; };
static asio::io_context* ctx[2];
template <class S, class E> static void look(Slot<S, E>& s) {
  if (!s.h) return;
  const auto& ch = *s.h;
  vp_check(s.h->get_implementation().id == s.id && ch.get_implementation().id == s.id, "holder: it holds exactly what was moved into it");
  vp_check(&s.h->get_service() == &asio::use_service<S>(*ctx[s.ctx]) && &ch.get_service() == &s.h->get_service(), "holder: its service is the one of its context");
  vp_check(s.h->get_executor() == E(ctx[s.ctx]->get_executor()), "holder: its executor is the one it was made or assigned from");
}
template <class S, class E> static void make(Slot<S, E>& s, bool from_context) {
  s.ctx = vp_pick(2); s.h.reset();
  if (from_context) s.h.emplace(*ctx[s.ctx]); else s.h.emplace(E(ctx[s.ctx]->get_executor()));
  s.id = ++made; s.h->get_implementation().id = s.id;
}
template <class A, class B> static void build_from(A& d, B& s) { if (!s.h) return; d.h.reset(); d.h.emplace(std::move(*s.h)); d.id = s.id; d.ctx = s.ctx; s.id = 0; vp_cover("moved"); }
extern "C" void vp_main() {
  asio::io_context c0, c1; ctx[0] = &c0; ctx[1] = &c1;
  {
    Slot<Service<0>, ex_t> a, b; Slot<Service<0>, any_t> y; Slot<Service<1>, ex_t> z;
    make(a, vp_pick(2));
    for (int k = 0; k < VP_OPS; ++k) {
      switch (vp_pick(9)) {
      case 0: make(b, vp_pick(2)); break;
      case 1: make(y, vp_pick(2)); break;
      case 2: make(z, vp_pick(2)); break;
      case 3: build_from(b, a); break;
      case 4: build_from(y, a); vp_cover("other executor"); break;
      case 5: build_from(y, z); vp_cover("other service"); break;
      case 6: if (a.h && b.h) { *a.h = std::move(*b.h); a.id = b.id; a.ctx = b.ctx; b.id = 0; vp_cover("assigned"); } break;
      case 7: if (a.h) { auto& r = *a.h; r = std::move(*a.h); } break;
      case 8: if (y.h) { y.h.reset(); y.id = 0; } break;
      }
      look(a); look(b); look(y); look(z);
    }
    vp_observe(a.ctx); vp_observe(y.id);
  }
  vp_check(live == 0, "holder: every implementation is destroyed");
}

// A token source in one thread, tokens it issued in another: no unsynchronised access, cancellation is final, nothing is leaked.
#include "vp.h"
#include "asioext/cancellation_token.hpp"
#include <optional>
#include <pthread.h>
#include <utility>
using namespace asioext;
static unsigned aop[VP_OPS], bop[VP_OPS]; static std::optional<cancellation_token_source> src; static std::optional<cancellation_token> tok[2]; static bool live, final_ok = true;
static void* owner(void*) {
  std::optional<cancellation_token> mine; live = true;
  for (unsigned op : aop) switch (op) {
    case 0: src->cancel(); live = false; break;
    case 1: src->destroy(); live = false; break;
    case 2: { cancellation_token_source other(std::move(*src)); *src = std::move(other); vp_cover("moved"); break; } // back again: as before
    case 3: src.reset(); src.emplace(); live = false; vp_cover("source gone"); break;
    default: mine.emplace(*src); vp_cover("issued"); break;
  }
  return nullptr;
}
static void* user(void*) {
  bool seen = false;
  for (unsigned op : bop) switch (op) {
    case 0: { const bool c = tok[0]->cancelled(); final_ok = final_ok & (!seen | c); seen = seen | c; vp_cover(c ? "seen cancelled" : "seen live"); break; }
    case 1: tok[1].emplace(*tok[0]); break;
    case 2: if (tok[1]) *tok[0] = *tok[1]; break;
    default: tok[1].reset(); break;
  }
  return nullptr;
}
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  {
    src.emplace(); tok[0].emplace(*src); tok[1].emplace(*src);
    for (unsigned& o : aop) o = (unsigned)vp_choose(5);
    for (unsigned& o : bop) o = (unsigned)vp_choose(4);
    pthread_t a, b; pthread_create(&a, nullptr, owner, nullptr); pthread_create(&b, nullptr, user, nullptr);
    pthread_join(a, nullptr); pthread_join(b, nullptr);
    vp_check(final_ok, "token threads: cancellation is final");
    vp_check(tok[0]->cancelled() == !live, "token threads: afterwards the token is cancelled exactly if its source cancelled it");
    src.reset(); vp_check(tok[0]->cancelled(), "token threads: cancelled with its source");
    tok[0].reset(); tok[1].reset();
  }
  vp_check(vp_heap_live() == heap, "token threads: nothing is leaked");
}

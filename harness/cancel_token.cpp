// Cancellation tokens: a token reports cancellation exactly if its source cancelled it, over any history.
#include "vp.h"
#include "asioext/cancellation_token.hpp"
#include <new>
#include <optional>
#include <utility>
using namespace asioext;
static cancellation_token_source* s[2]; static bool destroyed[2]; // the sources
static std::optional<cancellation_token> t[VP_OPS + 1]; static int from[VP_OPS + 1]; static int nt; // from: index of the source still able to cancel it, -1 once cancelled
static void drop(int i) { for (int k = 0; k < nt; ++k) if (from[k] == i) from[k] = -1; }
static void moved(int to, int i) { for (int k = 0; k < nt; ++k) if (from[k] == i) from[k] = to; destroyed[to] = destroyed[i]; destroyed[i] = true; }
static void agree() {
  for (int k = 0; k < nt; ++k) {
    vp_check(t[k]->cancelled() == (from[k] == -1), "token: cancelled exactly if its source cancelled it");
    cancellation_token c(*t[k]); vp_check(c.cancelled() == t[k]->cancelled(), "token: a copy agrees with the original");
  }
}
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  alignas(cancellation_token_source) unsigned char mem[2][sizeof(cancellation_token_source)];
  for (int i = 0; i < 2; ++i) s[i] = new (mem[i]) cancellation_token_source();
  for (int k = 0; k < VP_OPS; ++k) {
    const int i = (int)vp_conc(vp_pick(2)), j = 1 - i;
    switch (vp_pick(9)) {
    case 0: t[nt].emplace(*s[i]); from[nt] = destroyed[i] ? -1 : i; ++nt; vp_cover(destroyed[i] ? "issued cancelled" : "issued"); break;
    case 1: s[i]->cancel(); drop(i); destroyed[i] = false; vp_cover("cancel"); break;
    case 2: s[i]->destroy(); drop(i); destroyed[i] = true; vp_cover("destroy"); break;
    case 3: s[i]->reset(); destroyed[i] = false; vp_cover("reset"); break;
    case 4: s[i]->~cancellation_token_source(); drop(i); s[i] = new (mem[i]) cancellation_token_source(std::move(*s[j])); moved(i, j); vp_cover("move construct"); break;
    case 5: *s[i] = std::move(*s[j]); drop(i); moved(i, j); vp_cover("move assign"); break;
    case 6: s[i]->~cancellation_token_source(); drop(i); s[i] = new (mem[i]) cancellation_token_source(); destroyed[i] = false; vp_cover("source gone"); break;
    case 7: if (nt) { nt--; t[nt].reset(); vp_cover("token gone"); } break;
    default: if (nt > 1) { *t[0] = *t[nt - 1]; from[0] = from[nt - 1]; vp_cover("token assigned"); } break;
    }
    agree();
  }
  for (int i = 0; i < 2; ++i) { s[i]->~cancellation_token_source(); drop(i); agree(); }
  for (int k = 0; k < nt; ++k) t[k].reset();
  vp_check(vp_heap_live() == heap, "token: nothing is leaked");
  vp_observe(nt);
}

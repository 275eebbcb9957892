// Native side of the harness API: replays a recorded sequence of input values against the real build.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <new>
#include <unistd.h>
#include <vector>
#include <signal.h>
#include <exception>
#include <dlfcn.h>
#include <pthread.h>
static std::vector<uint64_t>* in; static size_t pos; static long live;
static FILE* obs;
static uint64_t next() { if (pos >= in->size()) { fprintf(stderr, "REPLAY-DIVERGED: more inputs requested than recorded\n"); _exit(77); } return (*in)[pos++]; }
static uint64_t mask(uint64_t v, unsigned b) { return b >= 64 ? v : v & ((1ull << b) - 1); }
extern "C" {
uint64_t vp_nd(unsigned b) { return mask(next(), b); }
void vp_nd_bytes(void* p, uint64_t n) { for (uint64_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(); }
void vp_assume(bool c) { if (!c) { fprintf(stderr, "REPLAY-DIVERGED: assumption false\n"); _exit(77); } }
void vp_check(bool c, const char* id) { if (!c) { fprintf(stderr, "CHECK-FAILED: %s\n", id); fflush(nullptr); _exit(42); } }
void vp_fail(const char* id) { vp_check(false, id); }
void vp_cover(const char*) {} void vp_cover_if(bool, const char*) {}
void vp_observe(uint64_t v) { if (obs) fprintf(obs, "%llu\n", (unsigned long long)v); }
uint64_t vp_conc(uint64_t v) { return v; }
uint64_t vp_heap_live(void) { return (uint64_t)live; }
int vp_symbolic(void) { return 0; }
bool vp_readable(const void*, uint64_t) { return true; }
void vp_done(void) { fprintf(stderr, "REPLAY-OK\n"); if (obs) fflush(obs); _exit(0); }
}
// A mutex destroyed by pthread_mutex_destroy() must not be locked again (glibc marks it).
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
  static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
  if (m->__data.__kind == -1) { static const char t[] = "CHECK-FAILED: use of a destroyed mutex\n"; (void)!write(2, t, sizeof t - 1); _exit(42); }
  return real(m);
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void* operator new[](size_t n) { return ::operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { void* p = malloc(n ? n : 1); if (p) live++; return p; }
void operator delete(void* p) noexcept { if (p) { live--; free(p); } }
void operator delete[](void* p) noexcept { ::operator delete(p); }
void operator delete(void* p, size_t) noexcept { ::operator delete(p); }
void operator delete[](void* p, size_t) noexcept { ::operator delete(p); }
void* operator new(size_t n, std::align_val_t a) { void* p = aligned_alloc((size_t)a, (n + (size_t)a - 1) / (size_t)a * (size_t)a); if (!p) throw std::bad_alloc(); live++; return p; }
void operator delete(void* p, std::align_val_t) noexcept { ::operator delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { ::operator delete(p); }

// Threads, replayed under the recorded schedule. Every thread operation of the code under test (--wrap, see check.py) is
// modelled exactly as the executor models it; one thread runs at a time and each decision is read from the inputs. The baton
// is passed by raw futex calls, so in a ThreadSanitizer build only the program's own synchronisation orders its accesses.
#include <linux/futex.h>
#include <sys/syscall.h>
#include <climits>
extern "C" { void __tsan_acquire(void*) __attribute__((weak)); void __tsan_release(void*) __attribute__((weak)); void AnnotateBenignRaceSized(const char*, int, const volatile void*, size_t, const char*) __attribute__((weak)); }
extern "C" void vp_norace_(const void* p, uint64_t n) { if (AnnotateBenignRaceSized) AnnotateBenignRaceSized("", 0, p, n, "mock"); }
namespace {
enum St { Run, Mutex, Cond, Join, Done };
struct Th { St st; const void *wa, *wm; bool timed; int jt; pthread_t real; int go; void* (*fn)(void*); void* arg; };
Th th[16]; int nth = 1; thread_local int me;
struct Mt { const void* m; int owner; } mt[512];
int& owner(const void* m) { for (Mt& x : mt) { if (x.m == m) return x.owner; if (!x.m) { x.m = m; return x.owner; } } fprintf(stderr, "REPLAY-DIVERGED: too many mutexes\n"); _exit(77); }
void hand(int c, bool leave = false) {
  if (c == me) return;
  __atomic_store_n(&th[c].go, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &th[c].go, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0);
  if (leave) return;
  while (!__atomic_load_n(&th[me].go, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &th[me].go, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  __atomic_store_n(&th[me].go, 0, __ATOMIC_SEQ_CST);
}
int decided(bool blocked) {
  const int c = (int)next();
  if (c < 0 || c >= nth || (th[c].st != Run && !(blocked && th[c].st == Cond && th[c].timed))) { fprintf(stderr, "REPLAY-DIVERGED: thread %d cannot run\n", c); _exit(77); }
  return c;
}
void yieldPoint() { if (nth > 1) hand(decided(false)); }
void block(bool leave = false) { // the current thread cannot go on
  bool any = false; for (int i = 0; i < nth; ++i) any = any || th[i].st == Run || (th[i].st == Cond && th[i].timed);
  if (!any) { fprintf(stderr, "CHECK-FAILED: deadlock: all threads are blocked\n"); _exit(42); }
  const int c = nth > 1 ? decided(true) : 0;
  if (th[c].st == Cond) { th[c].st = Run; th[c].timed = false; }
  hand(c, leave);
}
void wakeMutex(const void* m) { for (int i = 0; i < nth; ++i) if (th[i].st == Mutex && th[i].wa == m) th[i].st = Run; }
void lockit(pthread_mutex_t* m, bool again) {
  if (m->__data.__kind == -1) { fprintf(stderr, "CHECK-FAILED: use of a destroyed mutex\n"); _exit(42); }
  while (owner(m)) { if (!again && owner(m) == me + 1) { fprintf(stderr, "CHECK-FAILED: deadlock: mutex locked twice\n"); _exit(42); } th[me].st = Mutex; th[me].wa = m; block(); }
  owner(m) = me + 1; if (__tsan_acquire) __tsan_acquire(m);
}
void unlockit(pthread_mutex_t* m) { owner(m) = 0; if (__tsan_release) __tsan_release(m); wakeMutex(m); }
void* tramp(void* p) {
  me = (int)((Th*)p - th); while (!__atomic_load_n(&th[me].go, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &th[me].go, FUTEX_WAIT, 0, nullptr, nullptr, 0);
  __atomic_store_n(&th[me].go, 0, __ATOMIC_SEQ_CST);
  void* r = th[me].fn(th[me].arg);
  th[me].st = Done; for (int i = 0; i < nth; ++i) if (th[i].st == Join && th[i].jt == me) th[i].st = Run;
  block(true); return r;
}
int condwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  unlockit(m); th[me].st = Cond; th[me].wa = c; th[me].timed = timed; block(); lockit(m, true); return 0;
}
int wakeCond(pthread_cond_t* c, bool all) {
  int w = 0; for (int i = 0; i < nth; ++i) w += th[i].st == Cond && th[i].wa == c;
  if (!all && w > 1) { const int t = (int)next(); if (t < 0 || t >= nth || th[t].st != Cond || th[t].wa != c) { fprintf(stderr, "REPLAY-DIVERGED: thread %d is not waiting\n", t); _exit(77); } th[t].st = Run; th[t].timed = false; return 0; }
  for (int i = 0; i < nth; ++i) if (th[i].st == Cond && th[i].wa == c) { th[i].st = Run; th[i].timed = false; if (!all) break; } return 0; }
}
extern "C" {
void vp_yield(void) { yieldPoint(); }
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) __attribute__((weak)); int __real_pthread_join(pthread_t, void**) __attribute__((weak));
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { lockit(m, false); yieldPoint(); return 0; }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { if (owner(m)) return 16; owner(m) = me + 1; if (__tsan_acquire) __tsan_acquire(m); return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { unlockit(m); yieldPoint(); return 0; }
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condwait(c, m, false); }
int __wrap_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec*) { return condwait(c, m, true); }
int __wrap_pthread_cond_signal(pthread_cond_t* c) { return wakeCond(c, false); }
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) { return wakeCond(c, true); }
int __wrap_pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
  Th& x = th[nth]; x = Th{Run, nullptr, nullptr, false, -1, {}, 0, fn, arg};
  if (int e = __real_pthread_create(&x.real, nullptr, tramp, &x)) return e;
  *t = x.real; ++nth; yieldPoint(); return 0;
}
int __wrap_pthread_join(pthread_t t, void** r) {
  int k = 1; while (k < nth && !pthread_equal(th[k].real, t)) ++k;
  while (th[k].st != Done) { th[me].st = Join; th[me].jt = k; block(); }
  return __real_pthread_join(t, r);
}
#ifdef VP_TSAN
#define VP_A(n, T) \
  T __real___tsan_atomic##n##_load(const volatile T*, int) __attribute__((weak)); T __wrap___tsan_atomic##n##_load(const volatile T* p, int o) { T r = __real___tsan_atomic##n##_load(p, o); yieldPoint(); return r; } \
  void __real___tsan_atomic##n##_store(volatile T*, T, int) __attribute__((weak)); void __wrap___tsan_atomic##n##_store(volatile T* p, T v, int o) { __real___tsan_atomic##n##_store(p, v, o); yieldPoint(); } \
  int __real___tsan_atomic##n##_compare_exchange_strong(volatile T*, T*, T, int, int) __attribute__((weak)); int __wrap___tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* c, T v, int o, int f) { int r = __real___tsan_atomic##n##_compare_exchange_strong(p, c, v, o, f); yieldPoint(); return r; } \
  int __real___tsan_atomic##n##_compare_exchange_weak(volatile T*, T*, T, int, int) __attribute__((weak)); int __wrap___tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* c, T v, int o, int f) { int r = __real___tsan_atomic##n##_compare_exchange_weak(p, c, v, o, f); yieldPoint(); return r; } \
  VP_M(n, T, exchange) VP_M(n, T, fetch_add) VP_M(n, T, fetch_sub) VP_M(n, T, fetch_or) VP_M(n, T, fetch_and) VP_M(n, T, fetch_xor)
#define VP_M(n, T, op) T __real___tsan_atomic##n##_##op(volatile T*, T, int) __attribute__((weak)); T __wrap___tsan_atomic##n##_##op(volatile T* p, T v, int o) { T r = __real___tsan_atomic##n##_##op(p, v, o); yieldPoint(); return r; }
VP_A(8, uint8_t) VP_A(16, uint16_t) VP_A(32, uint32_t) VP_A(64, uint64_t)
#endif
}
static void onterm() { static const char m[] = "TERMINATE: std::terminate called\n"; (void)!write(2, m, sizeof m - 1); _exit(43); }
int main(int argc, char** argv) {
  in = new std::vector<uint64_t>(); FILE* f = fopen(argv[1], "r"); if (!f) return 2;
  unsigned long long v; while (fscanf(f, "%llu", &v) == 1) in->push_back(v); fclose(f);
  if (argc > 2) obs = fopen(argv[2], "w");
  std::set_terminate(onterm); alarm(20);
  live = 0; vp_main();
  if (pos != in->size()) { fprintf(stderr, "REPLAY-DIVERGED: %zu of %zu inputs used\n", pos, in->size()); _exit(77); }
  fprintf(stderr, "REPLAY-OK\n"); if (obs) fclose(obs); _exit(0);
}

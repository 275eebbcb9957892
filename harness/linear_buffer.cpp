// basic_linear_buffer against a byte-array model: from an arbitrary small buffer, VP_OPS arbitrary operations.
// VP_ALLOC: 0 std::allocator, 1 stateful non-propagating, 2 stateful propagating (both checked; may refuse to allocate)
#include "vp.h"
#include "asioext/linear_buffer.hpp"
#include <cstring>
#include <new>
#include <stdexcept>
#include <utility>
using namespace asioext;
#define VP_MAX 48

static long g_live; static bool g_fail, g_may_fail; // checked allocator
struct Blk { void* p; std::size_t n; int id; };
static Blk g_blk[16];
template <bool Prop> struct CheckedAlloc {
  typedef uint8_t value_type; typedef std::integral_constant<bool, Prop> propagate_on_container_move_assignment; typedef std::false_type is_always_equal;
  int id;
  explicit CheckedAlloc(int i = 0) : id(i) {}
  std::size_t max_size() const { return Prop ? VP_CAP + 5 : ~(std::size_t)0; }
  uint8_t* allocate(std::size_t n) {
    if (g_may_fail && vp_choose(2)) { g_fail = true; throw std::bad_alloc(); }
    uint8_t* p = (uint8_t*)::operator new(n); ++g_live;
    for (auto& b : g_blk) if (!b.p) { b = Blk{p, n, id}; return p; }
    vp_fail("harness: too many blocks"); return p; }
  void deallocate(uint8_t* p, std::size_t n) {
    vp_check(p != nullptr, "linear_buffer: only memory that was allocated is deallocated");
    for (auto& b : g_blk) if (b.p == p) { vp_check(b.n == n, "linear_buffer: a block is deallocated with the size it was allocated with"); vp_check(b.id == id, "linear_buffer: a block is deallocated by an equal allocator"); b.p = nullptr; --g_live; ::operator delete(p); return; }
    vp_fail("linear_buffer: only memory that was allocated is deallocated"); }
  friend bool operator==(const CheckedAlloc& a, const CheckedAlloc& b) { return a.id == b.id; }
  friend bool operator!=(const CheckedAlloc& a, const CheckedAlloc& b) { return a.id != b.id; }
};
#if VP_ALLOC == 0
typedef linear_buffer Buf; typedef std::allocator<uint8_t> A;
static A mk(int) { return A(); }
static const bool same_alloc_moves = true;
#else
typedef CheckedAlloc<VP_ALLOC == 2> A; typedef basic_linear_buffer<A> Buf;
static A mk(int i) { return A(i); }
#endif

struct Model { unsigned char b[VP_MAX]; std::size_t n = 0, max = 0; };
static void load(Buf& b, Model& m) { // arbitrary content
  m.n = b.size(); m.max = b.max_size();
  if (m.n) vp_nd_bytes(b.data(), m.n);
  std::memcpy(m.b, b.data(), m.n);
}
static void agree(Buf& b, const Model& m, const char* who) {
  vp_check(b.size() == m.n, "linear_buffer: size");
  vp_check(b.empty() == (m.n == 0), "linear_buffer: empty() is size() == 0");
  vp_check((b.size() <= b.capacity()) & (b.capacity() <= b.max_size()) & (b.max_size() == m.max), "linear_buffer: size <= capacity <= max_size, max_size unchanged");
  vp_check(m.n == 0 || vp_readable(b.data(), b.capacity()), "linear_buffer: capacity() bytes are allocated");
  bool same = true; for (std::size_t i = 0; i < m.n; ++i) same = same & (b.data()[i] == m.b[i]);
  vp_check(same, "linear_buffer: content");
  const Buf& c = b;
  vp_check((std::size_t)(b.end() - b.begin()) == m.n && c.begin() == b.data() && c.data() == b.data() && c.end() == b.end() && b.as_buffers().size() == m.n && b.as_buffers().data() == b.data() && asio::buffer(c).size() == m.n, "linear_buffer: views agree with data() and size()");
  if (m.n) vp_check(c[m.n - 1] == m.b[m.n - 1] && &b[m.n - 1] == b.data() + (m.n - 1), "linear_buffer: operator[]");
  (void)who;
}

static void run() {
  const std::size_t cap = vp_conc(vp_range(0, VP_CAP)), size = vp_conc(vp_range(0, cap));
  const bool limited = vp_choose(2);
  const std::size_t max = limited ? vp_range(cap, VP_CAP + 3) : ~(std::size_t)0;
  const bool plain = vp_choose(2); // with a default-constructed allocator
  if (plain) vp_cover("default allocator");
  Buf b = plain ? (limited ? Buf(cap, max) : cap ? Buf(cap) : Buf()) : limited ? Buf(mk(1), cap, max) : cap ? Buf(mk(1), cap) : Buf(mk(1));
  vp_check(b.size() == cap && b.capacity() == cap, "linear_buffer: constructed with the requested size");
  const std::size_t most = std::allocator_traits<A>::max_size(mk(1));
  vp_check(b.max_size() == (max < most ? max : most), "linear_buffer: max_size() is the requested limit or else the allocator's");
  b.resize(size);
  vp_check(b.capacity() == cap, "linear_buffer: shrinking keeps the capacity");
  Model m; load(b, m);
  g_may_fail = VP_ALLOC != 0;
  unsigned char d[4]; 
  for (int i = 0; i < VP_OPS; ++i) {
    const unsigned op = (unsigned)vp_choose(12);
    const std::size_t old_cap = b.capacity(); const uint8_t* old_data = b.data();
    g_fail = false; bool len_err = false, bad = false; Model before = m; bool want_len = false; std::size_t fits = 0;
    const std::size_t k = op < 2 ? vp_range(0, 3) : 0;
    const std::size_t pos = vp_range(0, m.n);
    if (op < 2) { std::size_t kk = vp_conc(k); vp_nd_bytes(d, kk); }
    try {
      switch (op) {
      case 0: want_len = m.max - m.n < k; fits = m.n + k; b.append(d, k); for (std::size_t j = 0; j < k; ++j) m.b[m.n + j] = d[j]; m.n += k; vp_cover("append"); break;
      case 1: { want_len = m.max - m.n < k; fits = m.n + k; const std::size_t p = vp_conc(pos); if (vp_choose(2)) b.insert(b.begin() + p, d, k); else b.insert(p, d, k);
        std::memmove(m.b + p + k, before.b + p, m.n - p); std::memcpy(m.b + p, d, k); m.n += k; vp_cover("insert"); break; }
      case 2: { if (!m.n) break; const std::size_t p = vp_conc(pos); if (p == m.n) break; if (vp_choose(2)) b.erase(b.begin() + p); else b.erase(p); std::memmove(m.b + p, before.b + p + 1, m.n - p - 1); --m.n; fits = m.n; vp_cover("erase one"); break; }
      case 3: { const std::size_t p = vp_conc(pos), q = vp_conc(vp_range(0, m.n)); if (q < p) break; if (vp_choose(2)) b.erase(b.begin() + p, b.begin() + q); else b.erase(p, q); std::memmove(m.b + p, before.b + q, m.n - q); m.n -= q - p; fits = m.n; vp_cover("erase range"); break; }
      case 4: { const std::size_t c = vp_u64(); if (c <= m.max) vp_assume(c <= VP_CAP + 4); want_len = c > m.max; fits = c; b.reserve(c); vp_check(b.capacity() >= c, "linear_buffer: reserve provides the capacity"); vp_cover("reserve"); break; }
      case 5: { const std::size_t c = vp_u64(); if (c <= m.max) vp_assume(c <= VP_CAP + 4); want_len = c > m.max; fits = c; b.resize(c);
        const std::size_t cc = vp_conc(c); vp_check(b.size() == cc, "linear_buffer: size"); for (std::size_t j = m.n; j < cc; ++j) b[j] = m.b[j] = 0x55; m.n = cc; vp_cover("resize"); break; }
      case 6: b.clear(); m.n = 0; vp_cover("clear"); break;
      case 7: { Buf c(b); agree(c, m, "copy"); vp_check(!m.n || c.data() != b.data(), "linear_buffer: a copy has memory of its own"); if (m.n) { c[0] ^= 1; } vp_cover("copy"); break; }
      case 8: { g_may_fail = false; const std::size_t oc = vp_conc(vp_range(0, 2)); Buf c(mk(2), oc); Model mc; load(c, mc); g_may_fail = VP_ALLOC != 0;
        if (vp_choose(2)) { c = b; mc = m; mc.max = c.max_size(); agree(c, mc, "copy-assigned"); agree(b, m, "source"); }
        else { want_len = oc > m.max; fits = oc; b = c; mc.max = m.max; m = mc; Model e = m; e.max = c.max_size(); agree(c, e, "source"); }
        vp_cover("copy assign"); break; }
      case 9: { Buf c(std::move(b)); agree(c, m, "moved"); vp_check(b.size() == 0 && b.capacity() == 0 && b.data() == nullptr, "linear_buffer: a moved-from buffer is empty and owns no memory"); vp_check(c.data() == old_data, "linear_buffer: moving keeps the memory");
        b = std::move(c); vp_check(c.size() == 0 && c.capacity() == 0 && c.data() == nullptr, "linear_buffer: a moved-from buffer is empty and owns no memory"); vp_cover("move"); break; }
      case 10: { g_may_fail = false; const int id = 1 + (int)vp_choose(2); const std::size_t oc = vp_conc(vp_range(0, 2)); Buf c(mk(id), oc); Model mc; load(c, mc);
        b = std::move(c); m = mc; vp_check(c.size() == 0 && c.capacity() == 0 && c.data() == nullptr, "linear_buffer: a moved-from buffer is empty and owns no memory"); 
        agree(b, m, "move-assigned"); c.append("x", 1); vp_check(c.size() == 1 && c[0] == 'x', "linear_buffer: a moved-from buffer is usable"); g_may_fail = VP_ALLOC != 0; vp_cover("move assign"); break; }
      default: if (vp_choose(2)) b = *&b; else { Buf& r = b; b = std::move(r); } vp_cover("self assign"); break;
      }
    } catch (const std::length_error&) { len_err = true; } catch (const std::bad_alloc&) { bad = true; }
    if (len_err || bad) m = before;
    vp_check(len_err == (want_len && !bad), "linear_buffer: length_error exactly when the result would exceed max_size");
    vp_check(bad == g_fail, "linear_buffer: bad_alloc exactly when the allocator fails");
    if (len_err) vp_cover("length_error");
    if (bad) vp_cover("bad_alloc");
    if (op < 6 && !len_err && !bad && fits <= old_cap && old_cap) vp_check(b.data() == old_data && b.capacity() == old_cap, "linear_buffer: no reallocation while the capacity suffices");
    if (op != 8 || !bad) agree(b, m, "after");
  }
  vp_observe(b.size()); vp_observe(b.capacity()); if (b.size()) vp_observe(b[0]);
}
extern "C" void vp_main() {
  const uint64_t live = vp_heap_live();
  g_may_fail = false;
  run();
  vp_check(vp_heap_live() == live && g_live == 0, "linear_buffer: all memory is returned");
}

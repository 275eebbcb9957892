// dynamic_linear_buffer against a byte-sequence model. VP_V 1: prepare/commit/consume/data; 2: grow/shrink/consume/data(pos,n)
#include "vp.h"
#include "asioext/linear_buffer.hpp"
#include <cstring>
#include <stdexcept>
#include <utility>
using namespace asioext;
struct Model { unsigned char b[64]; std::size_t n = 0; };
template <class D> static void agree(D& d, linear_buffer& b, const Model& m, bool last = false) {
  vp_check(d.size() == m.n, "dynamic buffer: size() is the number of input bytes");
  vp_check(d.size() <= d.max_size() && d.capacity() <= d.max_size() && d.size() <= d.capacity() && d.capacity() <= b.capacity(), "dynamic buffer: size <= capacity <= max_size");
  bool same = true; for (std::size_t i = 0; i < m.n; ++i) same = same & (b.data()[i] == m.b[i]);
  vp_check(same, "dynamic buffer: the input sequence has exactly the committed bytes");
  const D& c = d;
#if VP_V == 1
  vp_check(d.data().size() == m.n && (m.n == 0 || d.data().data() == b.data()), "dynamic buffer: data() is the input sequence");
  vp_check(c.data().size() == m.n && (m.n == 0 || c.data().data() == b.data()), "dynamic buffer: data() is the input sequence");
#endif
  if (!last) return;
  const std::size_t total = b.size();
  std::size_t pos = vp_u64(), n = vp_u64(); // wholly arbitrary
  const std::size_t ep = pos < total ? pos : total, en = n < total - ep ? n : total - ep;
  asio::mutable_buffer mb = d.data(pos, n); asio::const_buffer cb = c.data(pos, n);
  vp_check((mb.size() == en) & (cb.size() == en), "dynamic buffer: data(pos, n) never exceeds the memory");
  vp_check(en == 0 || ((mb.data() == b.data() + ep) & (cb.data() == b.data() + ep)), "dynamic buffer: data(pos, n) starts at pos");
}
extern "C" void vp_main() {
  const std::size_t cap = vp_conc(vp_range(0, 3)), size = vp_conc(vp_range(0, cap));
  const unsigned lim = (unsigned)vp_choose(3);
  const std::size_t bmax = lim == 1 ? vp_range(cap, 6) : ~(std::size_t)0, dmax = lim == 2 ? vp_range(size, 6) : ~(std::size_t)0;
  linear_buffer b(cap, bmax); b.resize(size);
  if (size) vp_nd_bytes(b.data(), size);
  Model m; m.n = size; std::memcpy(m.b, b.data(), size);
  dynamic_linear_buffer<std::allocator<uint8_t>> d0(b, dmax), d(std::move(d0));
  std::size_t max = d.max_size();
  vp_check(max == (dmax < b.max_size() ? dmax : b.max_size()), "dynamic buffer: max_size() is the smaller of both limits");
  const int ops = (int)vp_choose(VP_OPS + 1);
  agree(d, b, m, ops == 0);
  std::size_t out = 0; unsigned char* op_ = nullptr; unsigned char ob[64]; bool known = false; // what a commit would commit (a first one needs a prepare)
  for (int i = 0; i < ops; ++i) {
    const unsigned op = (unsigned)vp_choose(4);
    Model before = m; bool thrown = false, want = false;
    try {
#if VP_V == 1
      if (op <= 1) { // prepare
        std::size_t n = vp_u64(); if (n <= max - m.n) vp_assume(n <= VP_K);
        want = n > max - m.n; error_code ec = asio::error::eof; asio::mutable_buffer mb;
        if (op == 0) mb = d.prepare(n); else { mb = d.prepare(n, ec); vp_check((bool)ec == want && (!want || ec == asio::error::no_memory), "dynamic buffer: prepare(n, ec) reports no_memory exactly when the limit would be exceeded"); if (want) { vp_check(mb.size() == 0, "dynamic buffer: a failed prepare returns an empty buffer"); want = false; agree(d, b, m, i == ops - 1); continue; } }
        n = vp_conc(n); vp_check(mb.size() == n, "dynamic buffer: prepare(n) returns n bytes");
        vp_check(n == 0 || (mb.data() == b.data() + m.n && vp_readable(mb.data(), n)), "dynamic buffer: the output sequence follows the input sequence");
        out = n; op_ = (unsigned char*)mb.data(); for (std::size_t j = 0; j < n; ++j) op_[j] = ob[j] = vp_u8();
        known = true; vp_cover("prepare");
      } else if (op == 2) { std::size_t n = vp_u64(); // nothing that was not prepared, or once only
        if (!known) break; vp_cover_if(n > out, "commit more than prepared"); if (!op_) vp_cover("commit again");
        d.commit(n); const std::size_t k = vp_conc(n < out ? n : out); for (std::size_t j = 0; j < k; ++j) m.b[m.n++] = ob[j]; out = 0; op_ = nullptr; vp_cover("commit"); }
#else
      if (op == 0) { std::size_t n = vp_u64(); if (n <= max - m.n) vp_assume(n <= VP_K); want = n > max - m.n; d.grow(n); n = vp_conc(n); vp_check(b.size() == m.n + n, "dynamic buffer: grow(n) adds n bytes"); for (std::size_t j = 0; j < n; ++j) { m.b[m.n + j] = vp_u8(); *((unsigned char*)d.data(m.n + j, 1).data()) = m.b[m.n + j]; } m.n += n; vp_cover("grow"); }
      else if (op <= 2) { std::size_t n = vp_u64(); d.shrink(n); m.n = n < m.n ? m.n - n : 0; m.n = vp_conc(m.n); vp_check(b.size() == m.n, "dynamic buffer: shrink(n) removes n bytes from the end"); vp_cover("shrink"); }
#endif
      else { std::size_t n = vp_u64(); d.consume(n); const std::size_t k = vp_conc(n < m.n ? n : m.n); std::memmove(m.b, before.b + k, m.n - k); m.n -= k; vp_cover("consume");
#if VP_V == 1
        if (op_) known = false; out = 0; op_ = nullptr;
#endif
      }
    } catch (const std::length_error&) { thrown = true; m = before; vp_cover("length_error"); }
    vp_check(thrown == want, "dynamic buffer: length_error exactly when the limit would be exceeded");
    agree(d, b, m, i == ops - 1);
  }
  vp_observe(d.size()); vp_observe(b.size());
}

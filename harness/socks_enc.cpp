// SOCKS requests on the wire: byte-exact against RFC 1928/1929 and the SOCKS4a memo, for arbitrary arguments.
// VP_OP: 0 v4 endpoint, 1 v4a host, 2 v5 greet, 3 v5 login, 4 v5 endpoint, 5 v5 host
#include "mock_stream.hpp"
#include "asioext/socks/client.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/linear_buffer.hpp"
#include <string>
using namespace asioext;
#ifndef VP_LEN
#define VP_LEN 3
#endif
// a string whose length is any of 0..VP_LEN (arbitrary bytes) or around the 255 limit (constant bytes)
static std::string str(bool big) {
  std::size_t k = vp_choose(VP_LEN + 1 + (big ? 4 : 0));
  if (k > VP_LEN) { return std::string(k == VP_LEN + 1 ? 254 : k == VP_LEN + 2 ? 255 : k == VP_LEN + 3 ? 256 : 300, 'q'); }
  std::string s(k, ' ');
  vp_nd_bytes(&s[0], k);
  return s;
}
// SOCKS4 sends strings zero-terminated: one with a zero inside cannot be represented
static bool zero(const std::string& s) { bool z = false; for (char c : s) z = z | (c == 0); return z; }
struct Exp { unsigned char b[1200]; std::size_t n = 0; void u8(unsigned v) { b[n++] = (unsigned char)v; } void u16(unsigned v) { u8(v >> 8); u8(v); } void put(const void* p, std::size_t k) { std::memcpy(b + n, p, k); n += k; } };
static asio::ip::tcp::endpoint ep(bool v6, unsigned char* raw, uint16_t port) {
  if (v6) { asio::ip::address_v6::bytes_type a; vp_nd_bytes(a.data(), 16); std::memcpy(raw, a.data(), 16); return asio::ip::tcp::endpoint(asio::ip::address_v6(a), port); }
  asio::ip::address_v4::bytes_type a; vp_nd_bytes(a.data(), 4); std::memcpy(raw, a.data(), 4); return asio::ip::tcp::endpoint(asio::ip::address_v4(a), port);
}
extern "C" void vp_main() {
  asio::io_context io(1);
  MockStream s(io); s.splits = 1;
  linear_buffer lb;
  Exp e; bool reject = false; int calls = 0; error_code got;
  auto h = [&](error_code ec) { ++calls; got = ec; };
  const unsigned char cmd = (unsigned char)vp_nd(8);
  const uint16_t port = vp_u16();
#if VP_OP == 0
  unsigned char raw[16]; bool v6 = vp_choose(2); auto r = ep(v6, raw, port); std::string user = str(true);
  socks::async_execute(s, (socks::command)cmd, r, user, dynamic_buffer(lb), h);
  reject = v6 | zero(user);
  e.u8(4); e.u8(cmd); e.u16(port); e.put(raw, 4); e.put(user.data(), user.size()); e.u8(0);
#elif VP_OP == 1
  std::string host = str(true), user = str(false); vp_assume(!host.empty());
  socks::async_execute(s, (socks::command)cmd, host, port, user, dynamic_buffer(lb), h);
  reject = zero(host) | zero(user);
  e.u8(4); e.u8(cmd); e.u16(port); e.u8(0); e.u8(0); e.u8(0); e.u8(1); e.put(user.data(), user.size()); e.u8(0); e.put(host.data(), host.size()); e.u8(0);
#elif VP_OP == 2
  std::size_t n = vp_choose(VP_LEN + 4); if (n > VP_LEN) n = n == VP_LEN + 1 ? 255 : n == VP_LEN + 2 ? 256 : 257;
  socks::auth_method m[257]; for (std::size_t i = 0; i < n; ++i) m[i] = i < VP_LEN ? (socks::auth_method)vp_nd(8) : socks::auth_method::none;
  socks::async_greet(s, m, n, dynamic_buffer(lb), [&](error_code ec, socks::auth_method) { ++calls; got = ec; });
  reject = n > 255;
  e.u8(5); e.u8((unsigned)n); e.put(m, n);
#elif VP_OP == 3
  std::string user = str(true), pass = str(user.size() <= 1);
  socks::async_login(s, user, pass, dynamic_buffer(lb), h);
  reject = user.size() > 255 || pass.size() > 255;
  e.u8(1); e.u8((unsigned)user.size()); e.put(user.data(), user.size()); e.u8((unsigned)pass.size()); e.put(pass.data(), pass.size());
#elif VP_OP == 4
  unsigned char raw[16]; bool v6 = vp_choose(2); auto r = ep(v6, raw, port);
  socks::async_execute(s, (socks::command)cmd, r, dynamic_buffer(lb), h);
  e.u8(5); e.u8(cmd); e.u8(0); e.u8(v6 ? 4 : 1); e.put(raw, v6 ? 16 : 4); e.u16(port);
#else
  std::string host = str(true); vp_assume(!host.empty());
  socks::async_execute(s, (socks::command)cmd, host, port, dynamic_buffer(lb), h);
  reject = host.size() > 255;
  e.u8(5); e.u8(cmd); e.u8(0); e.u8(3); e.u8((unsigned)host.size()); e.put(host.data(), host.size()); e.u16(port);
#endif
  vp_check(calls == 0, "socks: the handler is not called from inside the initiating function");
  io.run();
  vp_check(calls == 1, "socks: the handler is called exactly once");
  if (reject) {
    vp_cover("rejected");
    vp_check(got == asio::error::invalid_argument, "socks: a request that cannot be encoded is refused with invalid_argument");
    vp_check(s.out_n == 0, "socks: nothing is sent for a request that cannot be encoded");
  } else {
    vp_cover("sent");
    vp_check(s.out_n == e.n, "socks: the request has exactly the length the protocol prescribes");
    bool same = true; for (std::size_t i = 0; i < e.n; ++i) same = same & (s.out[i] == e.b[i]);
    vp_check(same, "socks: the request is byte for byte what the protocol prescribes");
    vp_check(got == asio::error::eof, "socks: a server that hangs up is reported as eof");
    vp_observe(s.out_n); for (std::size_t i = 0; i < e.n && i < 24; ++i) vp_observe(s.out[i]);
  }
}

// A whole SOCKS handshake over one connection with one buffer: greet, login (if the server asks for it), connect, and once
// more after a refusal. Whatever the server answers, every request goes out exactly as if it were the only one.
#include "mock_stream.hpp"
#include "asioext/socks/client.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/linear_buffer.hpp"
#include <string>
using namespace asioext;
struct Exp { unsigned char b[200]; std::size_t n = 0; void put(std::initializer_list<unsigned> l) { for (unsigned v : l) b[n++] = (unsigned char)v; } };
static Exp e;
static bool same(const MockStream& s) { if (s.out_n != e.n) return false; bool r = true; for (std::size_t i = 0; i < e.n; ++i) r = r & (s.out[i] == e.b[i]); return r; }
extern "C" void vp_main() {
  asio::io_context io(1);
  MockStream s(io); s.splits = VP_SPLITS;
  linear_buffer lb;
  int calls = 0; error_code got; socks::auth_method method = socks::auth_method::no_acceptable;
  auto h = [&](error_code ec) { ++calls; got = ec; };
  auto feed = [&](std::size_t n) { unsigned char* p = s.in + s.in_n; vp_nd_bytes(p, n); s.in_n += n; return p; };
  auto run = [&] { io.run(); io.restart(); vp_check(calls == 1, "socks: the handler is called exactly once"); calls = 0;
    vp_check(same(s), "socks: every request of a session is byte for byte what the protocol prescribes"); };
#if VP_VER == 5
  socks::auth_method m[2] = {socks::auth_method::none, socks::auth_method::username_password};
  unsigned char* g = feed(2);
  socks::async_greet(s, m, 2, dynamic_buffer(lb), [&](error_code ec, socks::auth_method a) { ++calls; got = ec; method = a; });
  e.put({5, 2, 0, 2});
  run();
  if (got) { vp_cover("greeting refused"); vp_check((g[0] != 5) | (g[1] == 0xff), "socks5: a good greeting is not refused"); return; }
  vp_check(s.in_pos == s.in_n, "socks: exactly the reply is read");
  if (method == socks::auth_method::username_password) {
    unsigned char* l = feed(2);
    std::string user("me"), pass("pw");
    socks::async_login(s, user, pass, dynamic_buffer(lb), h);
    e.put({1, 2, 'm', 'e', 2, 'p', 'w'});
    run();
    if (got) { vp_cover("login refused"); vp_check((l[0] != 1) | (l[1] != 0), "socks5: a good login is not refused"); return; }
    vp_check(s.in_pos == s.in_n, "socks: exactly the reply is read");
  } else vp_cover("no login needed");
  for (int turn = 0; ; ++turn) {
    unsigned char* r = feed(5);
    const unsigned kind = (unsigned)vp_choose(3);
    vp_assume(r[3] == (kind == 0 ? 1 : kind == 1 ? 3 : 4));
    if (kind == 1) vp_assume(r[4] == 2);
    const std::size_t at = s.in_n, rest = kind == 0 ? 5 : kind == 1 ? 4 : 17;
    feed(rest);
    std::string host("h.x");
    socks::async_execute(s, socks::command::connect, host, 443, dynamic_buffer(lb), h);
    e.put({5, 1, 0, 3, 3, 'h', '.', 'x', 1, 0xbb});
    run();
    if (!got) { vp_cover("connected"); vp_check(s.in_pos == s.in_n, "socks: exactly the reply is read");
      if (turn) vp_cover("second try"); return; }
    vp_cover("connect refused"); vp_check((r[0] != 5) | (r[1] != 0), "socks5: a success reply is not refused");
    if (turn) return;
    s.in_pos = s.in_n;  // a refused request ends the connection; the next one is made over a new one, with the same buffer
  }
#else
  for (int turn = 0; ; ++turn) {
    unsigned char* r = feed(8);
    std::string host("h.x"), user("u");
    socks::async_execute(s, socks::command::connect, host, 443, user, dynamic_buffer(lb), h);
    e.put({4, 1, 1, 0xbb, 0, 0, 0, 1, 'u', 0, 'h', '.', 'x', 0});
    run();
    vp_check(s.in_pos == s.in_n, "socks: exactly the reply is read");
    if (!got) { vp_cover("connected"); if (turn) vp_cover("second try"); return; }
    vp_cover("connect refused"); vp_check((r[0] != 0) | (r[1] != 0x5a), "socks4: a granted request succeeds");
    if (turn) return;
  }
#endif
}

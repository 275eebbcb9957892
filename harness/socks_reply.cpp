// SOCKS replies: for every byte sequence a server can send (also cut short, split up, or with a failing transport),
// the client reports success only for a success reply, and consumes exactly the reply.
// VP_OP: 0 v4, 1 v5 greet, 2 v5 login, 3 v5 connect
#include "mock_stream.hpp"
#include "asioext/socks/client.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/linear_buffer.hpp"
#include <string>
using namespace asioext;
#ifndef VP_MAXDOM
#define VP_MAXDOM 2
#endif
extern "C" void vp_main() {
  asio::io_context io(1);
  MockStream s(io); s.splits = VP_SPLITS;
  int calls = 0; error_code got; socks::auth_method method = socks::auth_method::none;
  auto h = [&](error_code ec) { ++calls; got = ec; };
#if VP_OP == 0
  const size_t full = 8, head = 8; s.in_n = vp_choose(full + 3);
#elif VP_OP == 1 || VP_OP == 2
  const size_t full = 2, head = 2; s.in_n = vp_choose(full + 3);
#else
  const size_t head = 5; s.in_n = vp_choose(26); if (s.in_n == 25) s.in_n = 5 + 255 + 2 + 1;
#endif
  const size_t lim = s.in_n < 26 ? s.in_n : 26;
  std::memset(s.in, 0x7e, sizeof s.in);
  vp_nd_bytes(s.in, lim);
  if (vp_choose(2)) s.fail_at = (unsigned)vp_choose(4); // a transport error at the 1st..4th operation
  linear_buffer lb;
  {
    std::string user("u"), host("h");
#if VP_OP == 0
    socks::async_execute(s, socks::command::connect, host, 80, user, dynamic_buffer(lb), h);
#elif VP_OP == 1
    socks::auth_method m[2] = {socks::auth_method::none, socks::auth_method::username_password};
    socks::async_greet(s, m, 2, dynamic_buffer(lb), [&](error_code ec, socks::auth_method am) { ++calls; got = ec; method = am; });
#elif VP_OP == 2
    socks::async_login(s, user, host, dynamic_buffer(lb), h);
#else
    vp_assume((s.in[3] != 3) | (s.in[4] <= VP_MAXDOM) | (s.in[4] == 255));
    socks::async_execute(s, socks::command::connect, host, 80, dynamic_buffer(lb), h);
#endif
  }
  io.run();
  vp_check(calls == 1, "socks: the handler is called exactly once");
  vp_observe(got.value()); vp_observe(s.in_pos);
  const unsigned char* r = s.in;
  if (s.fail_value > 0) {
    vp_cover("transport error");
    vp_check(got == error_code(s.fail_value, asio::error::get_system_category()), "socks: a transport error is reported unchanged");
    return;
  }
  if (s.in_n < head) { vp_cover("cut short"); vp_check(got == asio::error::eof, "socks: a reply cut short is reported as eof"); return; }
#if VP_OP == 0
  vp_check(s.in_pos == full, "socks: exactly the reply is read");
  if (r[0] != 0) { vp_cover("bad version"); vp_check(got == socks::error::invalid_version, "socks4: a reply version other than 0 is invalid_version"); }
  else if (r[1] == 0x5a) { vp_cover("granted"); vp_check(!got, "socks4: a granted request succeeds"); }
  else { vp_cover("refused");
    vp_check((bool)got, "socks4: only status 0x5a is success");
    if (r[1] == 0x5b) vp_check(got == socks::error::generic, "socks4: 0x5b is generic");
    if (r[1] == 0x5c) vp_check(got == socks::error::identd_not_reachable, "socks4: 0x5c is identd_not_reachable");
    if (r[1] == 0x5d) vp_check(got == socks::error::login_failed, "socks4: 0x5d is login_failed"); }
#elif VP_OP == 1
  vp_check(s.in_pos == full, "socks: exactly the reply is read");
  if (r[0] != 5) { vp_cover("bad version"); vp_check(got == socks::error::invalid_version, "socks5: a reply version other than 5 is invalid_version"); }
  else if (r[1] == 0xff) { vp_cover("refused"); vp_check(got == socks::error::no_acceptable_auth_method, "socks5: method 0xff is no_acceptable_auth_method"); }
  else { vp_cover("granted"); vp_check(!got, "socks5: a chosen method is success"); vp_check((unsigned char)method == r[1], "socks5: the chosen method is reported"); }
  if (got) vp_check(method == socks::auth_method::no_acceptable, "socks5: on error the method is no_acceptable");
#elif VP_OP == 2
  vp_check(s.in_pos == full, "socks: exactly the reply is read");
  if (r[0] != 1) { vp_cover("bad version"); vp_check(got == socks::error::invalid_auth_version, "socks5: a login reply version other than 1 is invalid_auth_version"); }
  else if (r[1] != 0) { vp_cover("refused"); vp_check(got == socks::error::login_failed, "socks5: a login status other than 0 is login_failed"); }
  else { vp_cover("granted"); vp_check(!got, "socks5: login status 0 is success"); }
#else
  const unsigned at = r[3];
  if (r[0] != 5) { vp_cover("bad version"); vp_check(got == socks::error::invalid_version, "socks5: a reply version other than 5 is invalid_version"); }
  else if (r[1] != 0) { vp_cover("refused");
    vp_check((bool)got, "socks5: only status 0 is success");
    const unsigned st = r[1];
    if (st == 2) vp_check(got == asio::error::no_permission, "socks5: status 2 is no_permission");
    if (st == 3) vp_check(got == asio::error::network_unreachable, "socks5: status 3 is network_unreachable");
    if (st == 4) vp_check(got == asio::error::host_unreachable, "socks5: status 4 is host_unreachable");
    if (st == 5) vp_check(got == asio::error::connection_refused, "socks5: status 5 is connection_refused");
    if (st == 6) vp_check(got == asio::error::timed_out, "socks5: status 6 is timed_out");
    if (st == 7) vp_check(got == socks::error::command_not_supported, "socks5: status 7 is command_not_supported");
    if (st == 8) vp_check(got == asio::error::address_family_not_supported, "socks5: status 8 is address_family_not_supported"); }
  else if ((at != 1) & (at != 3) & (at != 4)) { vp_cover("bad address type"); vp_check((bool)got, "socks5: a reply with an unknown address type is not success"); }
  else {
    const size_t need = at == 1 ? 4 + 4 + 2 : at == 4 ? 4 + 16 + 2 : 5 + (size_t)r[4] + 2;
    if (s.in_n < need) { vp_cover("address cut short"); vp_check(got == asio::error::eof, "socks: a reply cut short is reported as eof"); }
    else { vp_cover("granted"); vp_check(!got, "socks5: a complete success reply succeeds"); vp_check(s.in_pos == need, "socks: exactly the reply is read"); }
  }
#endif
  if (got != asio::error::eof) vp_check(lb.size() == 0, "socks: nothing is left in the buffer after a reply, so that it can be used for the next request");
  vp_check(s.in_pos <= s.in_n, "socks: nothing is read past the reply");
}

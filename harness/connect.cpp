// connect()/async_connect(): every answer of the resolver and every outcome of the attempts. VP_OP 0: synchronous, 1: asynchronous; VP_UDP: datagram sockets
#include "mock_net.hpp"
#include "ec.hpp"
#include "asioext/connect.hpp"
#include <asio/bind_executor.hpp>
#include <asio/io_context.hpp>
#include <memory>
#include <optional>
#include <string_view>
#include <system_error>
using asioext::error_code;
#ifdef VP_UDP
#include <asio/ip/udp.hpp>
typedef asio::ip::udp tcp;
#else
typedef asio::ip::tcp tcp;
#endif
static bool known_gai(const error_code& ec) {
  switch (net.gai) {
  case EAI_NONAME: return ec == asio::error::host_not_found;
  case EAI_SERVICE: return ec == asio::error::service_not_found;
  case EAI_AGAIN: return ec == asio::error::host_not_found_try_again;
  default: return ec == asio::error::no_memory;
  }
}
static bool same_endpoint(const tcp::endpoint& e, unsigned k) {
  bool same = (e.port() == ntohs(net.port[k])) & (e.address().is_v6() == net.v6[k]);
  if (!same) return false;
  if (net.v6[k]) { const auto b = e.address().to_v6().to_bytes(); for (int i = 0; i < 16; ++i) same = same & (b[i] == net.addr[k][i]); }
  else { const auto b = e.address().to_v4().to_bytes(); for (int i = 0; i < 4; ++i) same = same & (b[i] == net.addr[k][i]); }
  return same;
}
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  // the query
  char host[6], service[6]; const unsigned hn = (unsigned)vp_choose(VP_HLEN + 1), sn = (unsigned)vp_choose(VP_HLEN + 1);
  vp_nd_bytes(host, 6); vp_nd_bytes(service, 6); // not terminated
  char h0[6], s0[6]; for (unsigned i = 0; i < 6; ++i) { vp_assume((host[i] != 0) & (service[i] != 0)); h0[i] = host[i]; s0[i] = service[i]; }
  const int flags = (int)(vp_u32() & 0x7fffffff);
  // the answer
  const int gais[5] = {0, EAI_NONAME, EAI_SERVICE, EAI_AGAIN, EAI_MEMORY}; net.gai = gais[vp_choose(5)];
  const unsigned n = net.gai ? 0 : (unsigned)vp_choose(VP_ENT + 1); net.n_ent = n;
  unsigned win = n; // the first attempt that succeeds
  for (unsigned i = 0; i < n; ++i) {
    net.v6[i] = vp_choose(2); vp_nd_bytes(net.addr[i], 16); net.port[i] = vp_u16(); net.scope[i] = net.v6[i] ? vp_u32() : 0;
    if (win == n) { if (vp_choose(2)) { win = i; net.result[i] = 0; } else { const int e = (int)vp_u8(); vp_assume((e != 0) & (e != EINPROGRESS) & (e != EAGAIN) & (e != EINTR) & (e != EALREADY)); net.result[i] = e; } } else net.result[i] = 0;
#if VP_OP == 1
    net.later[i] = i <= win && vp_choose(2);
#endif
  }
  const unsigned attempts = win < n ? win + 1 : n;
  {
    asio::io_context io2(1), io(1); tcp::socket s(io); tcp::resolver r(io);
    int old = -1; if (vp_choose(2)) { s.open(tcp::v4()); old = s.native_handle(); net.n_sock = 0; vp_cover("was open"); }
    if (attempts && vp_choose(2)) { net.sock_errno = (int)vp_u8(); vp_assume(net.sock_errno != 0); net.sock_fail = attempts - 1; } // the decisive attempt gets no socket
    const bool nosock = net.sock_fail != ~0u; const bool up = win < n && !nosock;
#if VP_OP == 0
    error_code ec = vp_stale(); const unsigned how = (unsigned)vp_choose(3);
    const bool more = win < n && win + 1 < n && nosock; // further attempts follow
    if (more) vp_assume(false);
    const std::string_view hv(host, hn), sv(service, sn);
    if (how == 0) asioext::connect(s, r, hv, sv, (asio::ip::resolver_base::flags)flags, ec);
    else if (how == 1) vp_try(ec, [&] { asioext::connect(s, r, hv, sv, (asio::ip::resolver_base::flags)flags); });
    else { vp_assume(flags == 0); vp_try(ec, [&] { asioext::connect(s, r, hv, sv); }); }
    const bool done = true; const bool have_ep = false; tcp::endpoint ep;
#else
    if (win < n && win + 1 < n && nosock) vp_assume(false);
    error_code ec; tcp::endpoint ep; const bool have_ep = true; int calls = 0; bool initiating = true; 
    bool in2 = false; const bool bound = vp_choose(2);
    auto alive = std::make_shared<int>(1); std::weak_ptr<int> dead = alive;
    auto handler = [&, alive](error_code e, tcp::endpoint p) { ++calls; vp_check(!initiating, "connect: the handler is not invoked by the initiating function"); vp_check(in2 == bound, "connect: the handler runs on its associated executor"); ec = e; ep = p; };
    alive.reset();
    {
      const std::string_view hv(host, hn), sv(service, sn);
      if (bound) asioext::async_connect(s, r, hv, sv, (asio::ip::resolver_base::flags)flags, asio::bind_executor(io2.get_executor(), std::move(handler)));
      else asioext::async_connect(s, r, hv, sv, (asio::ip::resolver_base::flags)flags, std::move(handler));
    }
    initiating = false; std::memset(host, '?', 6); std::memset(service, '?', 6); // the names are gone now
    bool done = true;
    if (vp_choose(4) == 0) { done = false; vp_cover("abandoned"); if (vp_choose(2)) io.poll(); }
    else { for (int i = 0; i < 8 && !calls; ++i) { in2 = false; if (io.stopped()) io.restart(); io.run_one(); if (bound) { in2 = true; if (io2.stopped()) io2.restart(); io2.poll(); } } vp_check(calls == 1, "connect: the handler is invoked once"); in2 = false; if (io.stopped()) io.restart(); io.poll(); if (bound) { in2 = true; if (io2.stopped()) io2.restart(); io2.poll(); } vp_check(calls == 1, "connect: the handler is invoked once"); }
#endif
    if (done) {
      vp_check(net.n_gai == 1, "connect: the name is resolved once");
      bool same = (net.host_null == (hn == 0)) & (net.service_null == (sn == 0)); for (unsigned i = 0; i < 6; ++i) same = same & (net.host[i] == (i < hn ? h0[i] : 0)) & (net.service[i] == (i < sn ? s0[i] : 0));
      vp_check(same, "connect: exactly the given host and service are resolved");
      vp_check((net.flags == flags) & (net.socktype == VP_SOCKTYPE), "connect: the resolver gets the given flags");
      vp_check(net.n_free == (n ? 1 : 0), "connect: the resolver's answer is released");
      vp_check(net.order && net.target && net.n_conn == (nosock ? attempts - 1 : attempts), "connect: the endpoints are tried in order up to the first success");
      vp_check(net.fresh && net.one_at_a_time, "connect: every attempt uses a new socket, the previous one being closed");
      if (net.gai) { vp_cover("not resolved"); vp_check(known_gai(ec), "connect: a resolver failure is reported"); vp_check(net.n_sock == 0, "connect: nothing is connected if the name can not be resolved"); }
      else if (n == 0) { vp_cover("no endpoints"); vp_check(ec == asio::error::not_found, "connect: an empty list of endpoints is reported as not_found"); }
      else {
        if (old != -1) vp_check(net.closes[old] == 1, "connect: a socket that was open is closed");
        if (up) { vp_cover("connected"); vp_check(!ec, "connect: the first success is success"); vp_check(s.is_open() && net.connected[s.native_handle()], "connect: the socket is the connected one"); if (have_ep) vp_check(same_endpoint(ep, win), "connect: the connected endpoint is reported"); }
        else if (nosock) { vp_cover("no socket"); vp_check(VP_OP ? (bool)ec : vp_sys(ec, net.sock_errno), "connect: the last attempt's error is reported"); } // asio::async_connect reports operation_aborted
        else { vp_cover("refused"); vp_check(vp_sys(ec, net.result[n - 1]), "connect: the last attempt's error is reported"); }
      }
      if (have_ep && !up) vp_check(ep == tcp::endpoint(), "connect: a failure comes with a default endpoint");
      vp_check(net.n_open == (s.is_open() ? 1 : 0), "connect: no other socket stays open");
      vp_observe(ec.value()); vp_observe(net.n_conn); vp_observe(net.n_sock);
    }
  }
  vp_check(net.n_open == 0 && !net.bad, "connect: every socket is closed exactly once");
  vp_check(vp_heap_live() == heap, "connect: nothing is leaked");
}

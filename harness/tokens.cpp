// Completion tokens other than plain handlers: one whose handler is made from the token (kind 0), and one that keeps the
// initiation and its arguments so that the operation is started later, by then without the caller's arguments, or never.
// VP_OP: 0 files, 1 connect, 2 SOCKS, 3 buffered streams
#include "vp.h"
#include <asio/async_result.hpp>
#include <asio/io_context.hpp>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
static int g_calls; static bool g_initiating = false;
// the handler both tokens make: records the result
template <class... A> struct Rec {
  std::tuple<A...>* out; std::unique_ptr<int> own;
  void operator()(A... a) { vp_check(!g_initiating, "tokens: the handler is not invoked by the initiating function"); vp_check(own && *own == 7, "tokens: the operation invokes the handler the token made"); ++g_calls; *out = std::tuple<A...>(std::move(a)...); }
};
template <class... A> struct Made { std::tuple<A...>* out; std::unique_ptr<int> own; };
struct Direct { void* out; }; // a handler is made from the token; the initiating function returns 42
template <class... A> struct Pending { // what starting later returns
  struct Base { virtual ~Base() {} virtual void go(Rec<A...>&&) = 0; };
  std::unique_ptr<Base> op;
  void start(std::tuple<A...>* out) { op->go(Rec<A...>{out, std::make_unique<int>(7)}); }
};
struct Later {};
namespace VP_ASIO {
template <class... A> struct async_result<Direct, void(A...)> {
  struct completion_handler_type : Rec<A...> { template <class T> explicit completion_handler_type(T&& t) : Rec<A...>{static_cast<std::tuple<A...>*>(t.out), std::make_unique<int>(7)} {} };
  typedef int return_type;
  explicit async_result(completion_handler_type&) {}
  int get() { return 42; }
};
template <class... A> struct async_result<Later, void(A...)> {
  typedef Pending<A...> return_type;
  template <class Init, class Token, class... Args> static return_type initiate(Init&& init, Token&&, Args&&... args) {
    struct Impl : Pending<A...>::Base {
      std::decay_t<Init> i; std::tuple<std::decay_t<Args>...> a;
      Impl(Init&& in, Args&&... as) : i(std::forward<Init>(in)), a(std::forward<Args>(as)...) {}
      void go(Rec<A...>&& h) override { std::apply([&](auto&&... x) { std::move(i)(std::move(h), std::move(x)...); }, std::move(a)); }
    };
    return return_type{std::unique_ptr<typename Pending<A...>::Base>(new Impl(std::forward<Init>(init), std::forward<Args>(args)...))};
  }
};
}
// calls start(token) and, with a token that starts later, between(); returns whether the operation has been started
template <class... A, class Start, class Between> static bool begin(std::tuple<A...>& out, Start start, Between between) {
  if (vp_choose(3) == 0) { Direct d{&out}; const Direct& cd = d; g_initiating = true; const int r = vp_choose(2) ? start(d) : start(cd); g_initiating = false; vp_check(r == 42, "tokens: the initiating function returns what the token prescribes"); vp_cover("direct"); return true; }
  { const Later l{}; g_initiating = true; Pending<A...> p = vp_choose(2) ? start(Later()) : start(l); g_initiating = false;
    between(); vp_check(g_calls == 0, "tokens: nothing happens before the operation is started");
    if (vp_choose(2)) { vp_cover("dropped"); return false; }
    g_initiating = true; p.start(&out); g_initiating = false; vp_cover("later"); }
  return true;
}
#if VP_OP == 0
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/basic_file.hpp"
#include "asioext/open_args.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <asio/detail/scheduler.hpp>
#include <optional>
using asioext::error_code; typedef asioext::basic_file<asioext::thread_pool_file_service> file_t;
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live(); unsigned act = 0; int other = -1;
  { asio::io_context io(1); auto& svc = asio::make_service<asioext::thread_pool_file_service>(io, (std::size_t)0);
    fs.blind = true; const int fd = fs.next++; fs.add_fd(fd); std::optional<file_t> f, g; f.emplace(io, fd);
    char buf[4] = {}; const unsigned op = (unsigned)vp_choose(4); const uint64_t off = vp_u64(); const std::size_t n1 = vp_range(1, 2), n2 = vp_range(0, 2);
    std::tuple<error_code, std::size_t> res; bool started;
    {
      std::optional<uint64_t> o(off);
      auto run = [&](auto&& t) { typedef decltype(t) T; std::optional<std::vector<asio::mutable_buffer>> b; b.emplace(); b->push_back(asio::buffer(buf, n1)); b->push_back(asio::buffer(buf + 2, n2));
        struct Gone { std::optional<std::vector<asio::mutable_buffer>>& b; ~Gone() { b.reset(); } } gone{b};
        switch (op) {
        case 0: return f->async_read_some(*b, std::forward<T>(t));
        case 1: return f->async_write_some(*b, std::forward<T>(t));
        case 2: return f->async_read_some_at(*o, *b, std::forward<T>(t));
        default: return f->async_write_some_at(*o, *b, std::forward<T>(t)); } };
      started = begin(res, run, [&] { o.reset(); vp_check(fs.n_io == 0, "tokens: nothing is transferred before the operation is started"); error_code ec; act = (unsigned)vp_choose(6);
        switch (act) {
        case 0: break;
        case 1: f->cancel(ec); vp_cover("cancelled before"); break;
        case 2: f->close(ec); other = fs.next++; fs.add_fd(other); vp_cover("closed before"); break;
        case 3: f.reset(); vp_cover("destroyed before"); break;
        case 4: g.emplace(std::move(*f)); f.reset(); vp_cover("moved before"); break;
        default: f->close(ec); f->open("x", asioext::open_args(asioext::open_flags::access_read_write | asioext::open_flags::open_existing), ec); other = fs.last_fd; vp_cover("reopened before"); break; } });
    }
    for (int i = 0; i < 2; ++i) { vp_check(fs.n_io == (i && started && fs.n_io ? 1u : 0u), "tokens: the pool does the transfer"); error_code ec; asio::use_service<asio::detail::scheduler>(svc.get_thread_pool()).poll(ec); io.poll(); io.restart(); }
    vp_check(g_calls == (started ? 1 : 0), "tokens: an operation's handler is invoked once, that of one never started is not");
    const error_code ec = std::get<0>(res); const std::size_t n = std::get<1>(res);
    const bool gone = act == 2 || act == 3 || act == 5;
    if (!started || gone) vp_check(fs.n_io == 0, "tokens: a dropped operation and one whose file is gone transfer nothing");
    if (started && gone) vp_check(ec == asio::error::operation_aborted && n == 0, "tokens: an operation whose file is gone when it is started is aborted");
    else if (started && fs.n_io) {
      vp_check((fs.n_io == 1) & (fs.io_fd == fd) & (fs.io_write == (op & 1)) & (fs.io_at == (op >= 2)) & ((op < 2) | (fs.io_off == off)) & (fs.io_total == n1 + n2) & (fs.nseg >= 1) & (fs.seg[0].p == buf) & (fs.seg[0].n == n1), "tokens: the transfer asked for is the one performed");
      vp_check(n == (uint64_t)fs.io_ret && (fs.io_ret ? !ec : ec == asio::error::eof), "tokens: the handler gets the transfer's result");
    } else if (started) vp_check(act == 1 && ec == asio::error::operation_aborted && n == 0, "tokens: an operation is performed unless it was cancelled");
    vp_check(!fs.bad_use && !fs.bad_close, "tokens: only open descriptors are used");
    vp_observe(n); vp_observe(ec.value()); }
  vp_check(fs.closes[3] == 1 && (other == -1 || fs.closes[other] == (act == 5 ? 1u : 0u)), "tokens: every descriptor is closed once");
  vp_check(vp_heap_live() == heap, "tokens: nothing is leaked");
}
#elif VP_OP == 1
#include "mock_net.hpp"
#include "ec.hpp"
#include "asioext/connect.hpp"
typedef asio::ip::tcp tcp; using asioext::error_code;
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  { asio::io_context io(1); tcp::socket s(io); tcp::resolver r(io);
    net.n_ent = 1; net.v6[0] = false; vp_nd_bytes(net.addr[0], 16); net.port[0] = vp_u16(); net.result[0] = vp_choose(2) ? ECONNREFUSED : 0; net.gai = vp_choose(2) ? EAI_NONAME : 0; if (net.gai) net.n_ent = 0;
    const bool pre = vp_choose(2); if (pre) s.open(tcp::v4()); const int fd0 = pre ? s.native_handle() : -1; const unsigned n0 = net.n_sock; // an open socket is closed when the operation is started
    const bool big = vp_choose(2); char h0[8] = {}, s0[8] = {}; const unsigned hn = 1 + (unsigned)vp_choose(2), sn = 1 + (unsigned)vp_choose(2); vp_nd_bytes(h0, hn); vp_nd_bytes(s0, sn); for (unsigned i = 0; i < hn; ++i) vp_assume(h0[i] != 0); for (unsigned i = 0; i < sn; ++i) vp_assume(s0[i] != 0);
    const int flags = (int)(vp_u32() & 0x7fffffff);
    std::tuple<error_code, tcp::endpoint> res;
    const bool started = begin(res, [&](auto&& t) { typedef decltype(t) T; std::string host(h0, hn), service(s0, sn); if (big) { host.reserve(40); service.reserve(40); }
      struct Gone { std::string &a, &b; ~Gone() { a.replace(0, a.size(), a.size(), '?'); b.replace(0, b.size(), b.size(), '?'); } } gone{host, service};
      return asioext::async_connect(s, r, host, service, (asio::ip::resolver_base::flags)flags, std::forward<T>(t)); },
      [&] { vp_check(net.n_gai == 0 && net.n_sock == n0 && s.is_open() == pre && (!pre || s.native_handle() == fd0), "tokens: nothing is resolved or connected before the operation is started"); });
    if (started) {
      for (int i = 0; i < 8 && !g_calls; ++i) { io.restart(); io.run_one(); }
      bool same = net.n_gai == 1; for (unsigned i = 0; i < 8; ++i) same = same & (net.host[i] == h0[i]) & (net.service[i] == s0[i]);
      vp_check(same & (net.flags == flags), "tokens: exactly the given host and service are resolved");
      vp_check(g_calls == 1, "tokens: the handler is invoked once");
      const error_code ec = std::get<0>(res); const bool up = !net.gai && !net.result[0];
      vp_check(up ? !ec && s.is_open() && net.connected[s.native_handle()] : net.gai ? ec == asio::error::host_not_found : vp_sys(ec, net.result[0]), "tokens: the handler gets the outcome");
      vp_check(up ? std::get<1>(res).port() == ntohs(net.port[0]) : std::get<1>(res) == tcp::endpoint(), "tokens: the handler gets the connected endpoint");
      vp_observe(ec.value());
    } else { io.restart(); io.poll(); vp_check(net.n_gai == 0 && net.n_sock == n0 && g_calls == 0 && s.is_open() == pre && (!pre || s.native_handle() == fd0), "tokens: an operation that is never started does nothing"); } }
  vp_check(vp_heap_live() == heap && net.n_open == 0, "tokens: nothing is leaked");
}
#elif VP_OP == 2
#include "mock_stream.hpp"
#include "ec.hpp"
#include "asioext/linear_buffer.hpp"
#include "asioext/socks/client.hpp"
using namespace asioext; using asioext::error_code;
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  { asio::io_context io(1); MockStream s(io); linear_buffer lb; const unsigned op = (unsigned)vp_choose(6);
    unsigned char x = vp_u8(), y = vp_u8(), z = vp_u8(); vp_assume((x != 0) & (y != 0)); const uint16_t port = vp_u16(); const uint32_t ip = vp_u32();
    const unsigned char ph = (unsigned char)(port >> 8), pl = (unsigned char)port, i0 = (unsigned char)(ip >> 24), i1 = (unsigned char)(ip >> 16), i2 = (unsigned char)(ip >> 8), i3 = (unsigned char)ip;
    const bool good = vp_choose(2); const unsigned char st = good ? 0 : 1;
    unsigned char want[16]; std::size_t wn = 0; auto w = [&](std::initializer_list<unsigned char> l) { for (unsigned char c : l) want[wn++] = c; };
    auto reply = [&](std::initializer_list<unsigned char> l) { for (unsigned char c : l) s.in[s.in_n++] = c; };
    switch (op) {
    case 0: w({5, 2, x, y}); reply({5, good ? x : (unsigned char)0xff}); if (good) vp_assume(x != 0xff); break;
    case 1: w({1, 1, x, 1, y}); reply({1, st}); break;
    case 2: w({5, 1, 0, 3, 1, x, ph, pl}); reply({5, st, 0, 1, 9, 9, 9, 9, 9, 9}); break;
    case 3: w({5, 1, 0, 1, i0, i1, i2, i3, ph, pl}); reply({5, st, 0, 1, 9, 9, 9, 9, 9, 9}); break;
    case 4: w({4, 1, ph, pl, 0, 0, 0, 1, y, 0, x, 0}); reply({0, (unsigned char)(0x5a + st), 9, 9, 9, 9, 9, 9}); break;
    default: w({4, 1, ph, pl, i0, i1, i2, i3, y, 0}); reply({0, (unsigned char)(0x5a + st), 9, 9, 9, 9, 9, 9}); }
    (void)z;
    auto args = [&](auto f) { // calls f with arguments that are overwritten afterwards
      std::string a(1, (char)x), b(1, (char)y); if (vp_choose(2)) { a.reserve(40); b.reserve(40); }
      socks::auth_method m[2] = {(socks::auth_method)x, (socks::auth_method)y}; asio::ip::tcp::endpoint ep(asio::ip::address_v4(ip), port);
      struct Gone { std::string &a, &b; socks::auth_method* m; asio::ip::tcp::endpoint& e; ~Gone() { a[0] = b[0] = '?'; m[0] = m[1] = (socks::auth_method)77; e = asio::ip::tcp::endpoint(); } } gone{a, b, m, ep};
      return f(a, b, m, ep); };
    auto between = [&] { vp_check(s.out_n == 0 && s.in_pos == 0, "tokens: nothing is sent before the operation is started"); };
    bool started; error_code ec;
    if (op == 0) { std::tuple<error_code, socks::auth_method> res; started = begin(res, [&](auto&& t) { typedef decltype(t) T; return args([&](auto&, auto&, auto* m, auto&) { return socks::async_greet(s, m, 2, dynamic_buffer(lb), std::forward<T>(t)); }); }, between);
      io.run(); ec = std::get<0>(res); if (started) vp_check(std::get<1>(res) == (good ? (socks::auth_method)x : socks::auth_method::no_acceptable), "tokens: the handler gets the outcome"); }
    else { std::tuple<error_code> res; started = begin(res, [&](auto&& t) { typedef decltype(t) T; return args([&](auto& a, auto& b, auto*, auto& ep) { switch (op) {
      case 1: return socks::async_login(s, a, b, dynamic_buffer(lb), std::forward<T>(t));
      case 2: return socks::async_execute(s, socks::command::connect, a, port, dynamic_buffer(lb), std::forward<T>(t));
      case 3: return socks::async_execute(s, socks::command::connect, ep, dynamic_buffer(lb), std::forward<T>(t));
      case 4: return socks::async_execute(s, socks::command::connect, a, port, b, dynamic_buffer(lb), std::forward<T>(t));
      default: return socks::async_execute(s, socks::command::connect, ep, b, dynamic_buffer(lb), std::forward<T>(t)); } }); }, between);
      io.run(); ec = std::get<0>(res); }
    vp_check(g_calls == (started ? 1 : 0), "tokens: an operation's handler is invoked once, that of one never started is not");
    if (started) { bool same = s.out_n == wn; for (std::size_t i = 0; i < wn; ++i) same = same & (s.out[i] == want[i]); vp_check(same, "tokens: exactly the requested bytes are sent");
      vp_check(s.in_pos == s.in_n || (!good && op >= 2), "tokens: the reply is consumed"); vp_check(good ? !ec : (bool)ec, "tokens: the handler gets the outcome"); vp_observe(ec.value()); }
    else vp_check(s.out_n == 0 && s.in_pos == 0, "tokens: an operation that is never started does nothing"); }
  vp_check(vp_heap_live() == heap, "tokens: nothing is leaked");
}
#else
#include "mock_stream.hpp"
#include "ec.hpp"
#include "asioext/experimental/buffered_stream.hpp"
using namespace asioext; using asioext::error_code;
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  { asio::io_context io(1); MockStream s(io); buffered_stream<MockStream&> b(s); const bool flush = vp_choose(2), fails = vp_choose(2); if (fails) s.fail_at = 0;
    unsigned char d[4]; vp_nd_bytes(d, 4); const std::size_t k = 1 + vp_choose(2); b.write_buffer().append(d, k); vp_nd_bytes(s.in, 3); s.in_n = vp_choose(3);
    std::tuple<error_code, std::size_t> res; std::size_t sent = k;
    const bool started = begin(res, [&](auto&& t) { typedef decltype(t) T; return flush ? b.async_flush(std::forward<T>(t)) : b.async_fill(std::forward<T>(t)); }, [&] {
      vp_check(!b.flush_pending() && s.ops == 0, "tokens: nothing is sent or received before the operation is started");
      if (vp_choose(2)) { b.write_buffer().append(d + k, 1); ++sent; } });
    const bool pend = b.flush_pending(); vp_check(pend == (started && flush), "tokens: a flush is pending from when it is started");
    io.run(); vp_check(!b.flush_pending() && g_calls == (started ? 1 : 0), "tokens: an operation's handler is invoked once, that of one never started is not");
    const error_code ec = std::get<0>(res); const std::size_t n = std::get<1>(res);
    if (!started) vp_check(s.ops == 0, "tokens: an operation that is never started does nothing");
    else if (fails) vp_check(ec == asio::error::connection_reset && n == 0, "tokens: the handler gets the outcome");
    else if (flush) vp_check(!ec && n == sent && s.out_n == sent, "tokens: the handler gets the outcome");
    else vp_check(s.in_n ? !ec && n == b.read_buffer().size() && n == s.in_n : ec == asio::error::eof && n == 0, "tokens: the handler gets the outcome");
    if (!started || (flush && fails)) { error_code e2; s.fail_at = ~0u; for (int i = 0; i < 2; ++i) b.flush(e2); vp_check(!e2 && s.out_n == sent, "tokens: nothing buffered is lost"); }
    bool same = true; for (std::size_t i = 0; i < s.out_n; ++i) same = same & (s.out[i] == d[i]); vp_check(same, "tokens: exactly the appended bytes are sent");
    vp_observe(n); vp_observe(ec.value()); }
  vp_check(vp_heap_live() == heap, "tokens: nothing is leaked");
}
#endif

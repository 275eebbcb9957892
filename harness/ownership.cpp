// Every descriptor owned by a unique_file_handle is closed exactly once, whatever the history and whichever close fails.
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/unique_file_handle.hpp"
#include "asioext/duplicate.hpp"
#include "asioext/open.hpp"
#include "asioext/standard_streams.hpp"
#include <new>
#include <utility>
using namespace asioext;
static int newfd() { const int fd = fs.next++; fs.add_fd(fd); return fd; }
static int owner[2]; static unsigned closed[Fs::MAXFD]; static int loose = 0;
static unique_file_handle* u[2];
static void drop(int i) { if (owner[i] != -1) { ++closed[owner[i]]; owner[i] = -1; } }
static void agree() {
  for (int i = 0; i < 2; ++i) {
    vp_check(u[i]->is_open() == (owner[i] != -1), "ownership: is_open() tells whether a descriptor is owned");
    vp_check(u[i]->get().native_handle() == owner[i] && u[i]->get().is_open() == u[i]->is_open(), "ownership: get() is the owned descriptor");
  }
  bool ok = true; for (int i = 0; i < Fs::MAXFD; ++i) ok = ok & (fs.closes[i] == closed[i]);
  vp_check(ok && !fs.bad_close, "ownership: exactly the descriptors given up are closed, once each");
  vp_check(!fs.bad_use, "ownership: only open descriptors are used");
}
// runs a call that closes; the error must be that of close()
template <class F> static void closing(bool throwing, F f) {
  error_code ec = throwing ? error_code() : vp_stale(); fs.last_errno = 0; const unsigned n = fs.n_close;
  if (throwing) vp_try(ec, [&] { f(nullptr); }); else f(&ec);
  if (fs.n_close != n && fs.last_errno) { vp_cover("close failed"); vp_check(vp_sys(ec, fs.last_errno), "ownership: a failing close is reported with its error"); } else vp_check(!ec, "ownership: a successful operation resets the error");
}
extern "C" void vp_main() {
  alignas(unique_file_handle) unsigned char mem[2][sizeof(unique_file_handle)];
  for (int i = 0; i < 2; ++i) {
    owner[i] = -1;
    switch (vp_choose(3)) { case 0: u[i] = new (mem[i]) unique_file_handle(); break; case 1: owner[i] = newfd(); u[i] = new (mem[i]) unique_file_handle(owner[i]); break; default: owner[i] = newfd(); u[i] = new (mem[i]) unique_file_handle(asioext::file_handle(owner[i])); }
  }
  fs.faults = VP_FAULTS; agree();
  for (int k = 0; k < VP_OPS; ++k) {
    const int a = 0, b = 1; // by symmetry, plus the swap operation
    switch (vp_choose(9)) {
    case 0: { const bool t = vp_choose(2); closing(t, [&](error_code* ec) { if (ec) u[a]->close(*ec); else u[a]->close(); }); drop(a); vp_cover("close"); break; }
    case 1: { const bool t = vp_choose(2); const int n = vp_choose(4) ? newfd() : -1; closing(t, [&](error_code* ec) { if (ec) u[a]->reset(asioext::file_handle(n), *ec); else u[a]->reset(asioext::file_handle(n)); }); drop(a); owner[a] = n; vp_cover("reset"); break; }
    case 2: { bool threw = false; fs.last_errno = 0; const unsigned n = fs.n_close;
      try { *u[a] = std::move(*u[b]); } catch (const vp_err::system_error& e) { threw = true; vp_check(vp_sys(e.code(), fs.last_errno), "ownership: a failing close is reported with its error"); }
      vp_check(!threw || (fs.n_close != n && fs.last_errno), "ownership: move assignment fails only if close does");
      drop(a);
      if (!threw || u[a]->is_open()) { owner[a] = owner[b]; owner[b] = -1; } // if it threw, either side may own it
      vp_cover("move assign"); break; }
    case 3: { u[a]->~unique_file_handle(); drop(a); u[a] = new (u[a]) unique_file_handle(std::move(*u[b])); owner[a] = owner[b]; owner[b] = -1; vp_cover("move construct"); break; }
    case 4: { asioext::file_handle h = u[a]->release(); vp_check(h.native_handle() == owner[a], "ownership: release() hands out the descriptor"); const int o = owner[a]; owner[a] = -1; agree();
      if (o != -1) { if (vp_choose(2)) { h.clear(); vp_check(!h.is_open(), "ownership: clear() forgets the descriptor"); agree(); ++loose; } else { const bool t = vp_choose(2); closing(t, [&](error_code* ec) { if (ec) h.close(*ec); else h.close(); }); ++closed[o]; vp_check(!h.is_open(), "ownership: a closed handle is not open");
        fs.last_errno = 0; closing(t, [&](error_code* ec) { if (ec) h.close(*ec); else h.close(); }); } } vp_cover("release"); break; }
    case 5: { const bool t = vp_choose(2); error_code ec = vp_stale(); fs.last_errno = 0; const int before = fs.open_count; const int src = owner[b];
      if (src == -1) break;
      { if (t) vp_try(ec, [&] { unique_file_handle x = duplicate(u[b]->get()); u[a]->~unique_file_handle(); u[a] = new (u[a]) unique_file_handle(std::move(x)); }); else { unique_file_handle x = duplicate(u[b]->get(), ec); vp_check(x.is_open() == !ec, "ownership: a failed duplication yields an empty handle"); if (!ec) { u[a]->~unique_file_handle(); u[a] = new (u[a]) unique_file_handle(std::move(x)); } } }
      if (ec) { vp_check(vp_sys(ec, fs.last_errno) && fs.open_count == before, "ownership: a failed duplication is reported and opens nothing"); vp_cover("duplicate failed"); }
      else { drop(a); owner[a] = fs.last_fd; vp_check(fs.last_fd != src, "ownership: a duplicate is a descriptor of its own"); vp_cover("duplicate"); } break; }
    case 6: { std::swap(u[0], u[1]); std::swap(owner[0], owner[1]); // symmetry
      for (int i = 0; i < 1; ++i) { error_code ec = vp_stale(); asioext::file_handle h; switch (vp_choose(3)) { case 0: h = get_stdin(ec); vp_check(h.native_handle() == 0, "ownership: standard streams"); break; case 1: h = get_stdout(ec); vp_check(h.native_handle() == 1, "ownership: standard streams"); break; default: h = get_stderr(ec); vp_check(h.native_handle() == 2, "ownership: standard streams"); } vp_check(!ec, "ownership: getting a standard stream resets the error"); if (k | i) break; }
      vp_check(get_stdin().native_handle() == 0 && get_stdout().native_handle() == 1 && get_stderr().native_handle() == 2, "ownership: standard streams"); vp_cover("swap"); break; }
    case 7: { error_code ec = vp_stale(); fs.last_errno = 0; unique_file_handle h = asioext::open("x", open_args(open_flags::access_read | open_flags::open_existing), ec); if (ec) { vp_check(!h.is_open(), "ownership: a failed open yields an empty handle"); break; } closed[h.get().native_handle()]++; vp_cover("temporary"); break; }
    default: { asioext::file_handle h = u[a]->get(); { asioext::file_handle c(h), d; d = c; } vp_check(h.native_handle() == owner[a], "ownership: copies of a file_handle own nothing"); vp_check(&u[a]->lowest_layer() == u[a] && &h.lowest_layer() == &h, "ownership: lowest layer"); break; }
    }
    agree();
  }
  for (int i = 0; i < 2; ++i) { u[i]->~unique_file_handle(); drop(i); }
  bool ok = true; for (int i = 0; i < Fs::MAXFD; ++i) ok = ok & (fs.closes[i] == closed[i]);
  vp_check(ok && !fs.bad_close && fs.open_count == loose, "ownership: destruction closes exactly what is owned");
  vp_observe(fs.n_close);
}

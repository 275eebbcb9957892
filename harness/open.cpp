// open(): arbitrary flags, permissions, attributes and path against the exact arguments the system must receive.
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/open.hpp"
#include "asioext/open_args.hpp"
#ifdef VP_BFS
# include <boost/filesystem/path.hpp>
# define PATH boost::filesystem::path(path)
#else
# define PATH path
#endif
using namespace asioext;
extern "C" void vp_main() {
  const unsigned f = (unsigned)vp_range(0, 0x3ff); const uint32_t perms = vp_u32();
  const unsigned disp[5] = {(unsigned)open_flags::create_new, (unsigned)open_flags::create_always, (unsigned)open_flags::open_existing, (unsigned)open_flags::open_always, (unsigned)open_flags::truncate_existing};
  unsigned n = 0; for (unsigned d : disp) n += (f & d) != 0;
  char path[5]; vp_nd_bytes(path, 4); path[4] = 0; for (int i = 0; i < 4; ++i) vp_assume(path[i] != 0);
  const unsigned mk = (unsigned)vp_choose(3);
  open_args a;
  vp_check(!a.is_valid(), "open: default options are invalid");
  if (mk == 0) a = open_args((open_flags)f, (file_perms)perms, (file_attrs)vp_u32());
  else if (mk == 1) a = open_args((open_flags)f);
  const bool bad = (n > 1) | (mk == 2);
  vp_check(asioext::is_valid((open_flags)f) == (n <= 1), "open: more than one disposition is invalid");
  vp_check(a.is_valid() == !bad, "open: options are valid unless dispositions contradict each other");
  bool custom = false; int nf = 0; unsigned cm = 0;
  if (!bad && vp_choose(2)) { nf = vp_i32(); vp_assume(nf != -1); cm = vp_u32(); a.native_flags(nf); a.mode(cm); custom = true; vp_check((a.native_flags() == nf) & (a.mode() == cm), "open: native options are stored"); vp_cover("native options"); }
  fs.eintr = 2; fs.once = true; fs.faults = 1;
  const bool throwing = vp_choose(2);
  {
    error_code ec = vp_stale(); unique_file_handle h;
    if (throwing) vp_try(ec, [&] { h = asioext::open(PATH, a); }); else h = asioext::open(PATH, a, ec);
    vp_check(h.is_open() == !ec, "open: a handle is returned exactly on success");
    vp_check(fs.n_close == 0 && !fs.bad_close, "open: nothing is closed by opening");
    if (bad) { vp_cover("contradictory"); vp_check((bool)ec, "open: contradictory options are an error"); vp_check(fs.n_open == 0, "open: the system is not asked to open with contradictory options"); return; }
    vp_check(fs.n_open >= 1 && fs.open_count == (fs.last_errno ? 0 : 1), "open: one descriptor is opened on success, none on failure");
    if (fs.retries) vp_cover("interrupted");
    vp_check(fs.io_same, "open: an interrupted call is repeated unchanged");
    bool same = fs.path[4] == 0; for (int i = 0; i < 4; ++i) same = same & (fs.path[i] == path[i]);
    vp_check(same, "open: the system gets the path unchanged");
    const int o = fs.oflags;
    vp_check((o & O_CLOEXEC) != 0, "open: handles are not inherited by child processes");
    if (custom) { vp_check((o | O_CLOEXEC) == (nf | O_CLOEXEC), "open: native flags are passed on"); vp_check((fs.omode == cm) | ((nf & (O_CREAT | O_TMPFILE)) == 0), "open: a native mode is passed on"); }
    else {
      const unsigned acc = f & 3;
      const int want = (int)vp_sel(f & disp[0], O_CREAT | O_EXCL, vp_sel(f & disp[1], O_CREAT | O_TRUNC, vp_sel(f & disp[3], O_CREAT, vp_sel(f & disp[4], O_TRUNC, 0))));
      vp_check((o & ~(O_CLOEXEC | O_ACCMODE | O_LARGEFILE)) == want, "open: the creation disposition is exactly the requested one");
      vp_check((acc == 0) | ((o & O_ACCMODE) == (int)vp_sel(acc == 3, O_RDWR, vp_sel(acc == 2, O_WRONLY, O_RDONLY))), "open: the access mode is exactly the requested one");
      vp_check(((o & O_CREAT) == 0) | (fs.omode == (mk == 1 ? 0666u : (perms & 0777u))), "open: new files get exactly the requested permissions");
    }
    vp_check(fs.last_errno != EINTR, "open: an interrupted call is repeated, not reported");
    if (fs.last_errno) { vp_cover("failed"); vp_check(vp_sys(ec, fs.last_errno), "open: a failing system call is reported with its error"); return; }
    vp_cover("opened");
    vp_check(!ec && h.get().native_handle() == fs.last_fd, "open: the handle is the descriptor the system returned");
    vp_observe(o); vp_observe(fs.last_fd);
  }
  vp_check(fs.open_count == 0 && fs.n_close == 1 && !fs.bad_close, "open: the descriptor is owned by the returned handle");
}

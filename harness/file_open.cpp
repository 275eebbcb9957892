// Opening and adopting descriptors through file objects: every constructor and open(), with failures.
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/open.hpp"
#include "file_obj.hpp"
#include <optional>
#ifdef VP_BFS
# include <boost/filesystem/path.hpp>
# define PATH boost::filesystem::path(path)
#else
# define PATH path
#endif
using namespace asioext;
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  {
    asio::io_context c(1); asio::make_service<asioext::thread_pool_file_service>(c, (std::size_t)0);
    const vp_file_t::executor_type ex(c.get_executor());
    fs.once = true; fs.faults = 1; fs.eintr = 1;
    char path[3]; vp_nd_bytes(path, 2); path[2] = 0;
    const bool w = vp_choose(2), trunc = vp_choose(2); const unsigned perms = vp_u32() & 0777;
    const open_args args((w ? open_flags::access_read_write : open_flags::access_read) | (trunc ? open_flags::create_always : open_flags::open_existing), (file_perms)perms);
    error_code ec = vp_stale(); std::optional<vp_file_t> f; bool ctor = true; const unsigned how = (unsigned)vp_choose(11); bool adopt = false; int n = -1;
    switch (how) {
    case 0: f.emplace(c, PATH, args, ec); break;
    case 1: vp_try(ec, [&] { f.emplace(c, PATH, args); }); break;
    case 2: f.emplace(ex, PATH, args, ec); break;
    case 3: vp_try(ec, [&] { f.emplace(ex, PATH, args); }); break;
    case 4: f.emplace(c); ctor = false; f->open(PATH, args, ec); break;
    case 5: f.emplace(ex); ctor = false; vp_try(ec, [&] { f->open(PATH, args); }); break;
    default: adopt = true; n = 5; fs.add_fd(5);
      vp_try(ec, [&] { switch (how) { case 6: f.emplace(c, n); break; case 7: f.emplace(ex, n); break; case 8: f.emplace(c, asioext::file_handle(n)); break; default: f.emplace(ex, asioext::file_handle(n)); } });
    }
    if (adopt) { vp_check(!ec && f && f->native_handle() == n && fs.n_open == 0, "file open: an adopted descriptor is used as it is"); vp_cover("adopted"); }
    else {
      vp_check(fs.n_open >= 1 && fs.path[0] == path[0] && (path[0] == 0 || fs.path[1] == path[1]), "file open: the path is passed on");
      vp_check((fs.oflags & O_ACCMODE) == (w ? O_RDWR : O_RDONLY) && !(fs.oflags & O_TRUNC) == !trunc && (!trunc || (fs.omode & 0777) == perms), "file open: flags and permissions are passed on");
      vp_check(fs.last_errno != EINTR, "file open: an interrupted call is repeated, not reported");
      if (fs.last_errno) { vp_cover("failed"); vp_check(vp_sys(ec, fs.last_errno) && fs.open_count == 0, "file open: a failure is reported with its error"); vp_check(f ? !f->is_open() && f->native_handle() == -1 : ctor, "file open: a file that could not be opened is not open"); }
      else { vp_cover("opened"); n = fs.last_fd; vp_check(!ec && f && fs.open_count == 1, "file open: a success opens one descriptor"); }
    }
    if (n != -1) {
      vp_check(f->is_open() && f->native_handle() == n && f->get_executor() == ex, "file open: an opened file has its descriptor and executor");
      const int clo = (int)vp_choose(3); error_code e = vp_stale(); fs.last_errno = 0;
      if (clo == 0) f->close(e); else if (clo == 1) vp_try(e, [&] { f->close(); }); else { f.reset(); e = error_code(); fs.last_errno = 0; }
      vp_check(fs.last_errno ? vp_sys(e, fs.last_errno) : !e, "file open: closing reports its result");
      vp_check(clo == 2 || !f->is_open(), "file open: a closed file is not open");
    }
    f.reset(); vp_check(fs.open_count == 0 && !fs.bad_close && !fs.bad_use && fs.n_close == (n != -1), "file open: every descriptor is closed exactly once");
  }
  vp_check(vp_heap_live() == heap, "file open: nothing is leaked");
}

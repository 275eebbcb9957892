// Position, size, truncation, permissions and attributes: exact system-call arguments and results.
// VP_OP 0: position/seek/size/truncate, 1: permissions, 2: attributes
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/unique_file_handle.hpp"
using namespace asioext;
#ifdef VP_FILE
# include "file_obj.hpp"
# define BOTH(ec, e_ec, e_throw) do { vp_file_t& h = vp_file(fd); if (vp_choose(2)) { e_ec; } else vp_try(ec, [&] { e_throw; }); } while (0)
#else
# define BOTH(ec, e_ec, e_throw) do { switch (vp_choose(4)) { \
  case 0: { asioext::file_handle h(fd); e_ec; break; } case 1: { asioext::file_handle h(fd); vp_try(ec, [&] { e_throw; }); break; } \
  case 2: { unique_file_handle h{asioext::file_handle(fd)}; e_ec; h.release(); break; } default: { unique_file_handle h{asioext::file_handle(fd)}; vp_try(ec, [&] { e_throw; }); h.release(); } } } while (0)
#endif
extern "C" void vp_main() {
  const int fd = 5; fs.add_fd(fd); fs.blind = true;
  error_code ec = vp_stale();
  fs.once = true; fs.faults = 1; bool failed = false;
#if VP_OP == 0
  uint64_t r = 0;
  switch (vp_choose(4)) {
  case 0: BOTH(ec, r = h.position(ec), r = h.position());
    vp_check((fs.n_seek >= 1) & (fs.seek_off == 0) & (fs.seek_whence == SEEK_CUR), "handle: asking for the position moves nothing");
    if (!fs.last_errno) { vp_cover("position"); vp_check(r == (uint64_t)fs.seek_ret, "handle: the position is the system's"); } break;
  case 1: { const int w = (int)vp_choose(3); const int64_t o = vp_i64(); const seek_origin so = w == 0 ? seek_origin::from_begin : w == 1 ? seek_origin::from_current : seek_origin::from_end;
    BOTH(ec, r = h.seek(so, o, ec), r = h.seek(so, o));
    vp_check((fs.n_seek == 1) & (fs.seek_off == o) & (fs.seek_whence == (w == 0 ? SEEK_SET : w == 1 ? SEEK_CUR : SEEK_END)), "handle: seeking passes origin and offset on unchanged, once");
    if (!fs.last_errno) { vp_cover("seek"); vp_check(r == (uint64_t)fs.seek_ret, "handle: seeking returns the new position"); } break; }
  case 2: fs.st.st_size = vp_i64(); vp_assume(fs.st.st_size >= 0); BOTH(ec, r = h.size(ec), r = h.size());
    if (!fs.last_errno) { vp_cover("size"); vp_check(r == (uint64_t)fs.st.st_size, "handle: the size is the system's"); } vp_check(fs.n_trunc == 0, "handle: asking for the size changes nothing"); break;
  default: { const uint64_t n = vp_u64(); BOTH(ec, h.truncate(n, ec), h.truncate(n));
    if (!fs.last_errno) { vp_check((fs.n_trunc >= 1) & (fs.trunc_to == n), "handle: truncating sets exactly the requested size"); vp_cover("truncate"); } break; }
  }
  failed = fs.last_errno != 0;
  vp_observe(r);
#elif VP_OP == 1
  fs.st.st_mode = vp_u32(); const unsigned cur = fs.st.st_mode & 07777;
  file_perms p = file_perms::none; const unsigned pb = vp_u32(); const file_perms in = (file_perms)pb;
  switch (vp_choose(5)) {
  case 0: BOTH(ec, p = h.permissions(ec), p = h.permissions());
    if (!fs.last_errno) { vp_cover("get"); vp_check(((unsigned)p & 0777) == (cur & 0777), "handle: the permissions are the file's"); vp_check(((unsigned)p & ~cur) == 0, "handle: no permission is reported that the file does not have"); }
    vp_check(fs.n_chmod == 0, "handle: asking for the permissions changes nothing"); vp_observe((unsigned)p); break;
  case 1: BOTH(ec, h.permissions(in, ec), h.permissions(in));
    if (!fs.last_errno) { vp_cover("replace"); vp_check((fs.n_chmod == 1) & ((fs.mode & 0777) == (pb & 0777)), "handle: replacing sets exactly the given permissions"); } break;
  case 2: BOTH(ec, h.permissions(in, file_perm_options::replace, ec), h.permissions(in, file_perm_options::replace));
    if (!fs.last_errno) vp_check((fs.n_chmod == 1) & ((fs.mode & 0777) == (pb & 0777)), "handle: replacing sets exactly the given permissions"); break;
  case 3: BOTH(ec, h.permissions(in, file_perm_options::add, ec), h.permissions(in, file_perm_options::add));
    if (!fs.last_errno) { vp_cover("add"); vp_check((fs.n_chmod == 1) & ((fs.mode & 0777) == ((cur | pb) & 0777)), "handle: adding keeps all permissions and adds the given ones");
      vp_check((cur & 07000 & ~fs.mode) == 0, "handle: adding and removing keep the special bits not named"); } break;
  default: BOTH(ec, h.permissions(in, file_perm_options::remove, ec), h.permissions(in, file_perm_options::remove));
    if (!fs.last_errno) { vp_cover("remove"); vp_check((fs.n_chmod == 1) & ((fs.mode & 0777) == (cur & ~pb & 0777)), "handle: removing keeps all permissions but the given ones");
      vp_check(((cur & 07000 & ~pb & ~fs.mode) == 0) & ((fs.mode & 07000 & ~cur) == 0), "handle: adding and removing keep the special bits not named"); } break;
  }
  failed = fs.last_errno != 0;
  if (failed) vp_check(fs.n_chmod == 0, "handle: a failed change changes nothing");
#else
  file_attrs a = file_attrs::none; const file_attrs in = (file_attrs)vp_u32(); const file_attr_options o = (file_attr_options)(1u << vp_choose(3));
  switch (vp_choose(3)) {
  case 0: BOTH(ec, a = h.attributes(ec), a = h.attributes()); vp_check(a == file_attrs::none, "handle: a file without attribute support has no attributes"); vp_cover("get"); break;
  case 1: BOTH(ec, h.attributes(in, ec), h.attributes(in)); vp_cover("set"); break;
  default: BOTH(ec, h.attributes(in, o, ec), h.attributes(in, o)); vp_cover("set with option"); break;
  }
  failed = fs.last_errno != 0;
#endif
  vp_check(!fs.bad_use && fs.open_count == 1, "handle: the handle's descriptor is used and stays open");
  if (failed) { vp_cover("failed"); vp_check(vp_sys(ec, fs.last_errno), "handle: a failing system call is reported with its error"); }
  else vp_check(!ec, "handle: a successful operation resets the error");
}

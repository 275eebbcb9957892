// read_file/write_file: whole contents survive short transfers, interruptions and failures. VP_OP 0: read container, 1: read buffers, 2: write
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/read_file.hpp"
#include "asioext/write_file.hpp"
#include "asioext/linear_buffer.hpp"
#include <array>
#include <string>
#include <vector>
using namespace asioext;
#ifdef VP_BFS // by Boost.Filesystem path
# include <boost/filesystem/path.hpp>
static const char path_s[] = "some/file"; static const boost::filesystem::path path("some/file");
#else
static const char path_s[] = "some/file"; static const char* const path = path_s;
#endif
static void outcome(const error_code& ec, bool complete, bool by_path) {
  vp_check(!fs.bad_use && !fs.bad_close && fs.open_count == (by_path ? 0 : 1), "whole file: the file is closed exactly if it was opened here");
  if (by_path) { vp_check(std::memcmp(fs.path, path_s, sizeof path_s) == 0, "whole file: the named file is used"); vp_check(fs.n_open >= 1, "whole file: the named file is opened"); }
  if (fs.op_errno) { vp_cover("failed"); vp_check(vp_sys(ec, fs.op_errno), "whole file: a failing system call is reported with its error"); }
  else if (!complete) { vp_cover("too short"); vp_check(ec == asio::error::eof, "whole file: a file that is too short is reported as eof"); }
  else { vp_check(!ec | ((fs.close_errno != 0) & vp_sys(ec, fs.close_errno)), "whole file: success is reported"); if (!ec) vp_cover("complete"); }
}
#if VP_OP == 0
// A container that cannot always be resized.
static bool full; struct Full {};
struct Container : std::vector<char> { void resize(std::size_t n) { if (n && vp_choose(2)) { full = true; throw Full(); } std::vector<char>::resize(n); } };
template <class C> static void rd(C& c) {
  const bool by_path = vp_choose(2), thr = vp_choose(2); error_code ec = vp_stale(); const int fd = 9;
  if (!by_path) fs.add_fd(fd);
  bool thrown = false; const uint64_t limit = c.max_size();
  try {
    if (by_path) { if (thr) vp_try(ec, [&] { read_file(path, c); }); else read_file(path, c, ec); }
    else { if (thr) vp_try(ec, [&] { read_file(asioext::file_handle(fd), c); }); else read_file(asioext::file_handle(fd), c, ec); }
  } catch (const Full&) { thrown = true; }
  vp_check(thrown == full, "whole file: an exception of the container reaches the caller");
  if (thrown) { vp_cover("container throws"); vp_check(!fs.bad_use && !fs.bad_close && fs.n_io == 0 && fs.open_count == (by_path ? 0 : 1), "whole file: the file is closed exactly if it was opened here"); return; }
  const uint64_t n = (uint64_t)fs.st.st_size;
  if (!fs.op_errno && n > limit) { vp_cover("too large"); vp_check(ec == asio::error::message_size && fs.n_io == 0 && fs.open_count == (by_path ? 0 : 1), "whole file: a file that the container cannot hold is refused"); return; }
  outcome(ec, n <= fs.size, by_path);
  if (by_path && fs.n_open) vp_check((fs.oflags & (O_CREAT | O_TRUNC | O_ACCMODE)) == O_RDONLY, "whole file: reading neither creates nor changes the file");
  if (!ec) {
    vp_check(c.size() == n, "whole file: the container has exactly the file's size");
    bool same = true; for (uint64_t i = 0; i < n; ++i) same = same & ((unsigned char)c.data()[i] == fs.data[i]);
    vp_check(same, "whole file: the container has exactly the file's content");
    for (uint64_t i = 0; i < n; ++i) vp_observe((unsigned char)c.data()[i]);
  }
}
#elif VP_OP == 1
template <class S> static void rb(const S& b, const unsigned char* m, uint64_t total) {
  const bool by_path = vp_choose(2), thr = vp_choose(2); error_code ec = vp_stale(); const int fd = 9;
  if (!by_path) fs.add_fd(fd);
  if (by_path) { if (thr) vp_try(ec, [&] { read_file(path, b); }); else read_file(path, b, ec); }
  else { if (thr) vp_try(ec, [&] { read_file(asioext::file_handle(fd), b); }); else read_file(asioext::file_handle(fd), b, ec); }
  outcome(ec, total <= fs.size, by_path);
  if (by_path && fs.n_open) vp_check((fs.oflags & (O_CREAT | O_TRUNC | O_ACCMODE)) == O_RDONLY, "whole file: reading neither creates nor changes the file");
  bool same = true; for (uint64_t i = 0; i < total; ++i) same = same & (m[i] == fs.data[i]);
  vp_check((bool)ec | same, "whole file: the buffers have exactly the file's content");
  vp_check(m[total] == 0xee, "whole file: nothing is written behind the buffers");
}
#else
template <class S> static void wf(const S& b, const unsigned char* m, uint64_t total) {
  const bool thr = vp_choose(2); error_code ec = vp_stale();
  if (thr) vp_try(ec, [&] { write_file(path, b); }); else write_file(path, b, ec);
  outcome(ec, true, true);
  if (!ec) {
    vp_check(fs.size == total, "whole file: the file has only the written content");
    bool same = true; for (uint64_t i = 0; i < total; ++i) same = same & (m[i] == fs.data[i]);
    vp_check(same, "whole file: the file has exactly the written content");
    vp_check((fs.omode & 0777) == 0666, "whole file: new files get the default permissions");
  }
}
#endif
extern "C" void vp_main() {
  const uint64_t heap = vp_heap_live();
  {
  fs.size = vp_choose(VP_MAXF + 1); vp_nd_bytes(fs.data, fs.size);
  fs.eintr = 1; fs.once = true; fs.faults = 1; fs.shorts = VP_SHORTS;
#if VP_OP == 0
  fs.st.st_size = (off_t)vp_choose(VP_MAXF + 1); // the size when asked; the file may have grown or shrunk since
  switch (vp_choose(5)) {
  case 3: { Container c; rd(c); break; }
  case 4: { linear_buffer c(0, 1 + vp_choose(2)); rd(c); break; }
  case 0: { std::string c(vp_choose(2) ? "previous content" : ""); rd(c); break; }
  case 1: { std::vector<unsigned char> c(vp_choose(2) ? 2 : 0, 7); rd(c); break; }
  default: { linear_buffer c(vp_choose(2) ? 2 : 0); rd(c); }
  }
#else
  unsigned char m[2 * VP_MAXF + 1]; const std::size_t a = vp_choose(VP_MAXF), b = vp_choose(VP_MAXF); std::memset(m, 0xee, sizeof m);
#if VP_OP == 1
  switch (vp_choose(3)) {
  case 0: rb(asio::buffer(m, a), m, a); break;
  case 1: { std::array<asio::mutable_buffer, 2> s = {{asio::buffer(m, a), asio::buffer(m + a, b)}}; rb(s, m, a + b); break; }
  default: { std::vector<asio::mutable_buffer> s; s.push_back(asio::buffer(m, 0)); s.push_back(asio::buffer(m, a)); s.push_back(asio::buffer(m, 0)); s.push_back(asio::buffer(m + a, b)); rb(s, m, a + b); }
  }
#else
  vp_nd_bytes(m, a + b);
  switch (vp_choose(3)) {
  case 0: wf(asio::buffer(m, a), m, a); break;
  case 1: { std::array<asio::const_buffer, 2> s = {{asio::buffer(m, a), asio::buffer(m + a, b)}}; wf(s, m, a + b); break; }
  default: { std::vector<asio::const_buffer> s; s.push_back(asio::buffer(m, 0)); s.push_back(asio::buffer(m, a)); s.push_back(asio::buffer(m, 0)); s.push_back(asio::buffer(m + a, b)); wf(s, m, a + b); }
  }
#endif
#endif
  }
  vp_check(vp_heap_live() == heap, "whole file: nothing is leaked");
}

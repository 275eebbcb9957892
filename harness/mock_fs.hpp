// The operating system under a file handle: a small descriptor table whose calls fail or are interrupted
// nondeterministically and whose results are arbitrary within their contract. Calls are recorded.
#pragma once
#include "vp.h"
#include <cerrno>
#include <cstring>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <unistd.h>

struct FsSeg { const void* p; uint64_t n; };
struct Fs {
  enum { MAXFD = 16 };
  // knobs
  unsigned eintr = 0;        // how many more calls may be interrupted
  unsigned faults = 0;       // how many more calls may fail
  bool once = false;         // one operation is under way: once a call has failed for good, nothing but close() may follow
  bool blind = false;        // reads/writes transfer an arbitrary count but touch no memory
  unsigned shorts = 0;       // how many more transfers may be short
  // descriptors
  bool open[MAXFD] = {}; unsigned closes[MAXFD] = {}; int next = 3; int open_count = 0;
  uint64_t pos[MAXFD] = {};
  bool bad_close = false;    // a descriptor that is not open was closed
  bool bad_use = false;      // a descriptor that is not open was used
  // the file
  unsigned char data[64]; uint64_t size = 0;
  struct ::stat st;
  // record of calls
  unsigned retries = 0, calls = 0, n_open = 0, n_close = 0, n_io = 0, n_chmod = 0, n_utimes = 0, n_trunc = 0, n_seek = 0, n_stat = 0;
  int last_errno = 0;
  int op_errno = 0, close_errno = 0; // sticky: the last failure (not an interruption) outside and inside close()
  char path[16] = {}; int oflags = 0; unsigned omode = 0; int last_fd = -1;
  FsSeg seg[80]; int nseg = 0; uint64_t io_total = 0, io_off = 0; bool io_at = false, io_write = false; int io_fd = -1; int64_t io_ret = 0; bool io_same = true;
  uint64_t trunc_to = 0; int64_t seek_off = 0; int seek_whence = 0; int64_t seek_ret = 0; unsigned mode = 0;
  struct timespec ts[2]; struct timeval tv[2];

  void add_fd(int fd) { open[fd] = true; ++open_count; }
  bool is_open(int fd) const { return fd >= 0 && fd < MAXFD && open[fd]; }
  int fail(int e) { errno = last_errno = e; return -1; }
  // 0: go on, else -1 with errno set
  int gate(int fd, bool intr) {
    if (once && op_errno) vp_fail("a system call that fails is reported, not followed by another");
    ++calls; last_errno = 0;
    if (fd >= 0 || fd == -1) { if (!is_open(fd)) { bad_use = true; return fail(EBADF); } }
    if (intr && eintr && vp_choose(2)) { --eintr; return fail(EINTR); }
    if (faults && vp_choose(2)) { --faults; int e = (int)vp_u8(); vp_assume((e != 0) & (e != EINTR)); op_errno = e; return fail(e); }
    return 0;
  }
};
static Fs fs;
static void (*fs_hook)() = nullptr; // runs while a transfer is in progress

extern "C" {
int vpsys_open(const char* path, int flags, unsigned mode) {
  char p[16] = {}; for (int i = 0; i < 15 && path[i]; ++i) p[i] = path[i];
  if (fs.n_open++ && fs.last_errno == EINTR) { bool same = (fs.oflags == flags) & (fs.omode == mode); for (int i = 0; i < 16; ++i) same = same & (p[i] == fs.path[i]); fs.io_same = fs.io_same & same; ++fs.retries; }
  std::memcpy(fs.path, p, 16); fs.oflags = flags; fs.omode = mode;
  if (fs.gate(-2, true)) return -1;
  if (fs.next >= Fs::MAXFD) return fs.fail(EMFILE);
  const int fd = fs.next++; fs.add_fd(fd); fs.pos[fd] = 0; fs.last_fd = fd;
  if (flags & O_TRUNC) fs.size = 0;
  return fd;
}
int vpsys_open64(const char* path, int flags, unsigned mode) { return vpsys_open(path, flags, mode); }
int vpsys_close(int fd) {
  ++fs.n_close; ++fs.calls;
  if (!fs.is_open(fd)) { fs.bad_close = true; return fs.fail(EBADF); }
  fs.open[fd] = false; --fs.open_count; ++fs.closes[fd];
  // the descriptor is gone even if an error is reported
  if (fs.faults && vp_choose(2)) { --fs.faults; int e = (int)vp_u8(); vp_assume(e != 0); fs.close_errno = e; return fs.fail(e); }
  return 0;
}
int vpsys_dup(int fd) { if (fs.gate(fd, false)) return -1; if (fs.next >= Fs::MAXFD) return fs.fail(EMFILE); const int n = fs.next++; fs.add_fd(n); fs.pos[n] = fs.pos[fd]; fs.last_fd = n; return n; }
int vpsys_fcntl(int fd, int cmd, int) { if (cmd == F_DUPFD || cmd == F_DUPFD_CLOEXEC) return vpsys_dup(fd); return fs.gate(fd, false); }
int vpsys_fstat(int fd, struct stat* st) { ++fs.n_stat; if (fs.gate(fd, false)) return -1; *st = fs.st; return 0; }
int vpsys_fstat64(int fd, struct stat* st) { return vpsys_fstat(fd, st); }
int vpsys_ftruncate(int fd, off_t n) { ++fs.n_trunc; fs.trunc_to = (uint64_t)n; return fs.gate(fd, false); }
int vpsys_ftruncate64(int fd, off_t n) { return vpsys_ftruncate(fd, n); }
int vpsys_fchmod(int fd, mode_t m) { if (fs.gate(fd, false)) return -1; ++fs.n_chmod; fs.mode = m; return 0; }
int vpsys_futimens(int fd, const struct timespec* ts) { if (fs.gate(fd, false)) return -1; ++fs.n_utimes; fs.ts[0] = ts[0]; fs.ts[1] = ts[1]; return 0; }
int vpsys_futimes(int fd, const struct timeval* tv) { if (fs.gate(fd, false)) return -1; ++fs.n_utimes; fs.tv[0] = tv[0]; fs.tv[1] = tv[1]; return 0; }
off_t vpsys_lseek(int fd, off_t off, int whence) {
  ++fs.n_seek; fs.seek_off = off; fs.seek_whence = whence;
  if (fs.gate(fd, false)) return -1;
  if (fs.blind) { fs.seek_ret = vp_i64(); vp_assume(fs.seek_ret >= 0); return fs.seek_ret; }
  const int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)fs.pos[fd] : (int64_t)fs.size;
  if (off < -base) return fs.fail(EINVAL);
  fs.pos[fd] = (uint64_t)(base + off); return fs.seek_ret = base + off;
}
off_t vpsys_lseek64(int fd, off_t off, int whence) { return vpsys_lseek(fd, off, whence); }

static ssize_t fs_io(int fd, const struct iovec* v, int n, bool wr, bool at, uint64_t off) {
  // remember the transfer; an interrupted call must be repeated unchanged
  const bool again = fs.n_io && fs.last_errno == EINTR;
  FsSeg t[80]; int k = 0; uint64_t total = 0;
  for (int i = 0; i < n && i < 80; ++i) { t[k].p = v[i].iov_base; t[k].n = v[i].iov_len; ++k; total += v[i].iov_len; }
  if (again) { bool same = (k == fs.nseg) & (fs.io_fd == fd) & (fs.io_write == wr) & (fs.io_at == at) & (fs.io_off == off); for (int i = 0; same && i < k; ++i) same = (t[i].p == fs.seg[i].p) & (t[i].n == fs.seg[i].n); fs.io_same = fs.io_same && same; ++fs.retries; }
  for (int i = 0; i < k; ++i) fs.seg[i] = t[i];
  fs.nseg = k; fs.io_total = total; fs.io_fd = fd; fs.io_write = wr; fs.io_at = at; fs.io_off = off; ++fs.n_io; fs.last_errno = 0;
  if (fs_hook) fs_hook();
  if (fs.gate(fd, true)) return -1;
  if (fs.blind) { uint64_t r = vp_u64(); vp_assume((r <= total) & (r <= 0x7ffff000u)); if (wr) vp_assume((r != 0) | (total == 0)); return (ssize_t)(fs.io_ret = (int64_t)r); }
  uint64_t p = at ? off : fs.pos[fd], done = 0, limit = total;
  if (!wr) { const uint64_t avail = p < fs.size ? fs.size - p : 0; if (limit > avail) limit = avail; }
  else if (p + limit > sizeof fs.data) return fs.fail(ENOSPC);
  if (limit > 1 && fs.shorts && vp_choose(2)) { --fs.shorts; limit = 1; }
  for (int i = 0; i < k && done < limit; ++i) {
    uint64_t m = t[i].n < limit - done ? t[i].n : limit - done;
    if (!m) continue;
    if (wr) { for (; fs.size < p + done; ++fs.size) fs.data[fs.size] = 0; std::memcpy(fs.data + p + done, t[i].p, m); } else std::memcpy((void*)t[i].p, fs.data + p + done, m);
    done += m; if (wr && p + done > fs.size) fs.size = p + done;
  }
  if (!at) fs.pos[fd] = p + done;
  return (ssize_t)(fs.io_ret = (int64_t)done);
}
ssize_t vpsys_readv(int fd, const struct iovec* v, int n) { return fs_io(fd, v, n, false, false, 0); }
ssize_t vpsys_writev(int fd, const struct iovec* v, int n) { return fs_io(fd, v, n, true, false, 0); }
ssize_t vpsys_preadv(int fd, const struct iovec* v, int n, off_t o) { return fs_io(fd, v, n, false, true, (uint64_t)o); }
ssize_t vpsys_pwritev(int fd, const struct iovec* v, int n, off_t o) { return fs_io(fd, v, n, true, true, (uint64_t)o); }
ssize_t vpsys_preadv64(int fd, const struct iovec* v, int n, off_t o) { return fs_io(fd, v, n, false, true, (uint64_t)o); }
ssize_t vpsys_pwritev64(int fd, const struct iovec* v, int n, off_t o) { return fs_io(fd, v, n, true, true, (uint64_t)o); }
ssize_t vpsys_pread(int fd, void* b, size_t n, off_t o) { struct iovec v = {b, n}; return fs_io(fd, &v, 1, false, true, (uint64_t)o); }
ssize_t vpsys_pwrite(int fd, const void* b, size_t n, off_t o) { struct iovec v = {(void*)b, n}; return fs_io(fd, &v, 1, true, true, (uint64_t)o); }
ssize_t vpsys_pread64(int fd, void* b, size_t n, off_t o) { return vpsys_pread(fd, b, n, o); }
ssize_t vpsys_pwrite64(int fd, const void* b, size_t n, off_t o) { return vpsys_pwrite(fd, b, n, o); }
ssize_t vpsys_read(int fd, void* b, size_t n) { struct iovec v = {b, n}; return fs_io(fd, &v, 1, false, false, 0); }
ssize_t vpsys_write(int fd, const void* b, size_t n) { struct iovec v = {(void*)b, n}; return fs_io(fd, &v, 1, true, false, 0); }
}

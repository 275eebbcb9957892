// File times through the public handle API: stat -> file_times and file_times -> futimens, and the clock conversions.
// VP_OP 0: reading, 1: writing, 3: clock conversions. VP_US: microsecond fallback (futimes).
#include "mock_fs.hpp"
#include "ec.hpp"
#include "asioext/file_handle.hpp"
#include "asioext/unique_file_handle.hpp"
using namespace asioext;
static const int64_t G = 1000000000, MAXS = 9223372036, MINS = -9223372037, MAXR = 854775807, MINR = 145224192;
static file_time_type ft(int64_t v) { return file_time_type(file_time_type::duration(v)); }
static int64_t cnt(file_time_type t) { return t.time_since_epoch().count(); }
static bool fits(int64_t s, int64_t n) { return ((s < MAXS) | ((s == MAXS) & (n <= MAXR))) & ((s > MINS) | ((s == MINS) & (n >= MINR))); }

#ifdef VP_FILE
# include "file_obj.hpp"
# define BOTH(ec, e_ec, e_throw) do { vp_file_t& h = vp_file(fd); if (vp_choose(2)) { e_ec; } else vp_try(ec, [&] { e_throw; }); } while (0)
#else
# define BOTH(ec, e_ec, e_throw) do { switch (vp_choose(4)) { \
  case 0: { asioext::file_handle h(fd); e_ec; break; } case 1: { asioext::file_handle h(fd); vp_try(ec, [&] { e_throw; }); break; } \
  case 2: { unique_file_handle h{asioext::file_handle(fd)}; e_ec; h.release(); break; } default: { unique_file_handle h{asioext::file_handle(fd)}; vp_try(ec, [&] { e_throw; }); h.release(); } } } while (0)
#endif
static file_times get(int fd, error_code& ec) { file_times t; BOTH(ec, t = h.times(ec), t = h.times()); return t; }
static void put(int fd, const file_times& t, error_code& ec) { BOTH(ec, h.times(t, ec), h.times(t)); }
// arbitrary normalised pair (and its exact value, if representable)
static void pair(struct timespec& t) { t.tv_sec = vp_i64(); t.tv_nsec = (long)vp_range(0, G - 1); }

#if VP_OP == 3
static struct timespec g_now; static int g_clock = -1, g_calls;
extern "C" int vpsys_clock_gettime(clockid_t c, struct timespec* t) { g_clock = c; ++g_calls; *t = g_now; return 0; }
#endif
extern "C" void vp_main() {
  const int fd = 5; fs.add_fd(fd);
  error_code ec = vp_stale();
#if VP_OP == 0
  pair(fs.st.st_atim); pair(fs.st.st_mtim); fs.st.st_ctim.tv_sec = vp_i64(); fs.st.st_ctim.tv_nsec = 0;
  fs.once = true; fs.faults = 1;
  const file_times t = get(fd, ec);
  if (fs.last_errno) { vp_check(vp_sys(ec, fs.last_errno), "times: a failing system call is reported with its error"); vp_cover("failed"); return; }
  const bool ok = fits(fs.st.st_atim.tv_sec, fs.st.st_atim.tv_nsec) & fits(fs.st.st_mtim.tv_sec, fs.st.st_mtim.tv_nsec);
  vp_check(!ec == ok, "times: reading succeeds exactly when every time can be represented");
  vp_cover_if(!ok, "not representable");
  if (ec) { vp_check(ec == make_error_code(errc::value_too_large), "times: value_too_large for times out of range"); return; }
  vp_check((cnt(t.atime) == (int64_t)((uint64_t)fs.st.st_atim.tv_sec * G + (uint64_t)fs.st.st_atim.tv_nsec)), "times: the access time is exact");
  vp_check((cnt(t.mtime) == (int64_t)((uint64_t)fs.st.st_mtim.tv_sec * G + (uint64_t)fs.st.st_mtim.tv_nsec)), "times: the modification time is exact");
  vp_check(cnt(t.ctime) == 0, "times: a time that is not available is zero");
  vp_cover_if(fs.st.st_atim.tv_sec < 0, "before the epoch");
  vp_cover("read");
  vp_observe(cnt(t.atime)); vp_observe(cnt(t.mtime));
#elif VP_OP == 1
  const int64_t a = vp_i64(), m = vp_i64();
# ifdef VP_US
  pair(fs.st.st_atim); pair(fs.st.st_mtim);
  for (int64_t v : {a, m}) if (v < 0) vp_cover("negative"); else if (v > 0) vp_cover("positive"); // one path per sign: simpler queries
# endif
  fs.once = true; fs.faults = 1;
  file_times t; t.ctime = ft(vp_i64()); t.atime = ft(a); t.mtime = ft(m);
  put(fd, t, ec);
  if (fs.last_errno) { vp_check(vp_sys(ec, fs.last_errno), "times: a failing system call is reported with its error"); vp_cover("failed"); return; }
  vp_check(!ec & (fs.n_utimes == 1), "times: every representable time can be set");
# ifndef VP_US
  const int64_t v[2] = {a, m};
  for (int i = 0; i < 2; ++i) {
    const struct timespec& x = fs.ts[i];
    const bool norm = (x.tv_nsec >= 0) & (x.tv_nsec < G) & (x.tv_sec >= MINS) & (x.tv_sec <= MAXS);
    vp_check((v[i] == 0) ? x.tv_nsec == UTIME_OMIT : norm, "times: a zero time leaves the file's time alone, others are normalised");
    vp_check((v[i] == 0) | ((int64_t)((uint64_t)x.tv_sec * G + (uint64_t)x.tv_nsec) == v[i]), "times: the time set is exactly the time given");
    vp_observe(x.tv_nsec);
  }
  vp_cover_if(a < 0, "before the epoch"); vp_cover_if((a == 0) & (m != 0), "omitted");
# else
  const int64_t v[2] = {a, m};
  for (int i = 0; i < 2; ++i) {
    const struct timeval& x = fs.tv[i]; const struct timespec& o = i ? fs.st.st_mtim : fs.st.st_atim;
    const int64_t d = (int64_t)((uint64_t)x.tv_sec * G + (uint64_t)x.tv_usec * 1000 - (uint64_t)v[i]);
    vp_check((v[i] != 0) | ((x.tv_sec == o.tv_sec) & (x.tv_usec * 1000 <= o.tv_nsec) & (x.tv_usec * 1000 + 1000 > o.tv_nsec)), "times: a zero time leaves the file's time alone, others are normalised");
    vp_check((v[i] == 0) | ((x.tv_usec >= 0) & (x.tv_usec < 1000000) & (x.tv_sec >= MINS) & (x.tv_sec <= MAXS)), "times: a zero time leaves the file's time alone, others are normalised");
    vp_check((v[i] == 0) | ((d > -1000) & (d < 1000)), "times: the time set is the time given, to the microsecond");
    vp_observe(x.tv_usec);
  }
  vp_cover_if(a < 0, "before the epoch"); vp_cover_if((a == 0) & (m != 0), "omitted");
# endif
#elif VP_OP == 3
  const int64_t s = vp_i64(); vp_assume((s >= -MAXS) & (s <= MAXS));
  const file_time_type p = file_clock::from_time_t(s);
  vp_check(cnt(p) == (int64_t)((uint64_t)s * G), "times: from_time_t is exact");
  vp_check(file_clock::to_time_t(p) == s, "times: to_time_t reverses from_time_t");
  const int64_t v = vp_i64(), t = file_clock::to_time_t(ft(v)); const __int128 d = (__int128)t * G - v;
  vp_check((d > -G) & (d < G), "times: to_time_t rounds to a neighbouring second");
  g_now.tv_sec = vp_i64(); g_now.tv_nsec = (int64_t)vp_range(0, G - 1); vp_assume(fits(g_now.tv_sec, g_now.tv_nsec));
  const int64_t now = cnt(file_clock::now()); vp_check(g_clock == CLOCK_REALTIME && g_calls == 1, "times: now() reads the system clock once");
  vp_check(now == (int64_t)((uint64_t)g_now.tv_sec * G + (uint64_t)g_now.tv_nsec), "times: now() is the system's time, to the nanosecond");
  vp_cover("clock");
#endif
}

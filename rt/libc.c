// Leaf libc functions for the symbolic side (compiled freestanding).
#include <stddef.h>
typedef int clockid_t; struct timespec { long tv_sec, tv_nsec; };
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) ++a, ++b; return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) ++a, ++b, --n; return n ? (unsigned char)*a - (unsigned char)*b : 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
// Searches: no branch on symbolic bytes (one result expression in place of one path per position).
int vp_const(unsigned long); _Bool vp_readable(const void*, size_t);
void* memchr(const void* p, int c, size_t n) {
  const unsigned char* q = (const unsigned char*)p; size_t r = n;
  if (!vp_readable(p, n)) { for (;; ++q, --n) if (!n || *q == (unsigned char)c) return n ? (void*)q : 0; }
  for (size_t i = n; i-- > 0;) { unsigned long eq = q[i] == (unsigned char)c, m = -eq; r = (r & ~m) | (i & m); }
  return r == n ? 0 : (void*)(q + r);
}
size_t strlen(const char*);
char* strchr(const char* s, int c) { size_t n = strlen(s); return (char)c ? (char*)memchr(s, c, n) : (char*)s + n; }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strerror_r(int, char* buf, size_t n) { if (n) buf[0] = 0; return buf; }
char* strerror(int) { static char b[4]; return b; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
char __libc_single_threaded = 0;
int clock_gettime(clockid_t, struct timespec* t) { static long c; t->tv_sec = 1000000 + ++c; t->tv_nsec = 0; return 0; }
int __cxa_thread_atexit_impl(void (*)(void*), void*, void*) { return 0; }
int pthread_once(int* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }

// The only use: line numbers in the text of Boost's source locations; the number is left out.
int __vp_unmodelled_snprintf(void);
int snprintf(char* b, unsigned long n, const char* f, ...) {
  if (f[0] != ':' || f[1] != '%' || f[2] != 'l' || f[3] != 'u' || f[4] || n < 3) return __vp_unmodelled_snprintf();
  b[0] = ':'; b[1] = '?'; b[2] = 0; return 2;
}

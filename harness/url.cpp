// URL parsing: reference splitter / validity predicates vs. the implementation, for every byte string.
// VP_PREFIX: fixed literal prefix, VP_N: number of arbitrary bytes that follow (length is arbitrary in [0,VP_N]).
#include "vp.h"
#include "asioext/url_view.hpp"
#include "asioext/error.hpp"
#include <asio/system_error.hpp>
#include <cstdlib>
#include <cstring>
using namespace asioext;

#ifndef VP_PREFIX
#define VP_PREFIX ""
#endif
#ifndef VP_SUFFIX
#define VP_SUFFIX ""
#endif

static bool alpha(unsigned char c) { return ((unsigned)(c | 32) - 'a') < 26u; }
static bool digit(unsigned char c) { return ((unsigned)c - '0') < 10u; }
static bool alnum(unsigned char c) { return alpha(c) | digit(c); }
static bool sane(unsigned char c) { return ((c > 32) & (c < 127)) | (c == 9) | (c == 12); }

static bool same(std::string_view v, const char* b, size_t at, size_t len) {
  return (v.size() == len) & ((len == 0) | (v.data() == b + at));
}

extern "C" void vp_main() {
  static const char prefix[] = VP_PREFIX; static const char suffix[] = VP_SUFFIX;
  const size_t pl = sizeof prefix - 1, sl = sizeof suffix - 1;
  const size_t sym = vp_choose(VP_N + 1), n = pl + sym + sl;
  char* b = (char*)::operator new(n);
  std::memcpy(b, prefix, pl);
  vp_nd_bytes(b + pl, sym);
#ifdef VP_DIGITS
  for (size_t i = 0; i < sym; ++i) vp_assume(digit(b[pl + i]));
#endif
  std::memcpy(b + pl + sym, suffix, sl);

  error_code ec = make_error_code(url_error::port_overflow); // stale value must not survive
  url_view u(std::string_view(b, n), ec);

  vp_check(u.is_valid() == (!ec && n != 0), "url: view is valid exactly when parsing a non-empty string succeeded");
  vp_check(static_cast<bool>(u) == u.is_valid(), "url: operator bool agrees with is_valid");
  vp_observe(ec.value()); vp_observe(u.port_value()); vp_observe(u.host().size()); vp_observe(u.path().size());

  // independent splitter (pure scan, no validation)
  size_t p = 0, scheme_len = 0;
  bool has_auth = false, has_at = false, has_colon = false, bracket = false, closed = false;
  size_t ui = 0, uil = 0, ho = 0, hol = 0, po = 0, pol = 0, pa = 0, pal = 0, qu = 0, qul = 0, fr = 0, frl = 0;
  if (n && !(b[0] == '/' || b[0] == '*')) {
    while (p < n && b[p] != ':') ++p;
    scheme_len = p;
    if (p < n) ++p;
    if (p + 1 < n && b[p] == '/' && b[p + 1] == '/') {
      has_auth = true; p += 2;
      size_t e = p; while (e < n && b[e] != '/' && b[e] != '?') ++e;
      size_t at = p; while (at < e && b[at] != '@') ++at;
      if (at < e) { has_at = true; ui = p; uil = at - p; p = at + 1; }
      ho = p;
      if (p < e && b[p] == '[') { bracket = true; while (p < e && b[p] != ']') ++p; if (p < e) { closed = true; ++p; } }
      else while (p < e && b[p] != ':') ++p;
      hol = p - ho;
      if (p < e) { has_colon = b[p] == ':'; po = p + 1; pol = e - po; }
      p = e;
    }
  }
  pa = p; while (p < n && b[p] != '?' && b[p] != '#') ++p; pal = p - pa;
  if (p < n && b[p] == '?') { qu = ++p; while (p < n && b[p] != '#') ++p; qul = p - qu; }
  if (p < n) { while (p < n && b[p] == '#') ++p; fr = p; frl = n - p; }
  unsigned pv = 0; bool digits = true;
  for (size_t i = 0; i < pol; ++i) { digits = digits & digit(b[po + i]); pv = pv * 10 + (unsigned)(b[po + i] - '0'); }

  if (!ec) {
    vp_cover("accepted");
    vp_check(same(u.scheme(), b, 0, scheme_len), "url: scheme is exactly the text before the first ':'");
    vp_check(same(u.userinfo(), b, ui, uil), "url: userinfo is exactly the text before '@'");
    vp_check(same(u.host(), b, ho, hol), "url: host is exactly the host part of the authority");
    vp_check(same(u.path(), b, pa, pal), "url: path is exactly the text up to '?' or '#'");
    vp_check(same(u.query(), b, qu, qul), "url: query is exactly the text between '?' and '#'");
    vp_check(same(u.fragment(), b, fr, frl), "url: fragment is exactly the text after '#'");
    bool ok = true;
    for (size_t i = 0; i < n; ++i) ok = ok & sane(b[i]);
    for (size_t i = 0; i < pa; ++i) ok = ok & (b[i] > 32);
    vp_check(ok, "url: no accepted URL contains blanks, control or non-ASCII bytes");
    ok = scheme_len == 0 || alpha(b[0]);
    for (size_t i = 1; i < scheme_len; ++i) ok = ok & (alnum(b[i]) | (b[i] == '+') | (b[i] == '-') | (b[i] == '.'));
    vp_check(ok, "url: accepted scheme matches ALPHA *( ALPHA / DIGIT / + / - / . )");
    if (has_auth) {
      if (!bracket) { ok = true; for (size_t i = 0; i < hol; ++i) { unsigned char c = b[ho + i]; ok = ok & (alnum(c) | (c == '.') | (c == '-') | (c == '_')); }
        vp_check(ok, "url: accepted host has only host characters"); }
      else {
        vp_check(closed, "url: an accepted bracketed host is closed by ']'");
        if (closed) { // the text between the brackets: address characters, then perhaps an encoded zone
          ok = true; bool zone = false;
          for (size_t i = 1; i + 1 < hol; ++i) { const unsigned char c = b[ho + i];
            if (!zone && c == '%') { zone = true; vp_cover("zone"); ok = ok & (i + 3 < hol) && b[ho + i + 1] == '2' && b[ho + i + 2] == '5'; if (!ok) break; i += 2; }
            else if (zone) ok = ok & (alnum(c) | (c == '%') | (c == '.') | (c == '-') | (c == '_') | (c == '~'));
            else ok = ok & (digit(c) | (((unsigned)(c | 32) - 'a') < 6u) | (c == ':') | (c == '.')); }
          vp_check(ok, "url: an accepted bracketed host has only address and zone characters");
          vp_cover("bracketed");
        }
      }
      ok = true; for (size_t i = 0; i < uil; ++i) ok = ok & (b[ui + i] != '[') & (b[ui + i] != ']') & (b[ui + i] != '@');
      vp_check(ok, "url: accepted userinfo has only userinfo characters");
      if (has_at) vp_check(hol != 0 || has_colon, "url: userinfo is followed by a host or a port");
      vp_check(pol == 0 || (has_colon && digits && pol <= 5 && pv <= 65535), "url: accepted port is at most 65535 and all digits");
    }
    if (pol) {
      vp_check(same(u.port(), b, po, pol), "url: port is exactly the text after the host's ':'");
      vp_check(u.port_value() == pv, "url: port_value is the decimal value of port");
      vp_cover("port");
    } else {
      std::string_view s(b, scheme_len);
      const bool h = s == "http", hs = s == "https", f = s == "ftp";
      vp_check(u.port_value() == (h ? 80 : hs ? 443 : f ? 21 : 0), "url: default port value follows the scheme");
      vp_check(u.port() == (h ? std::string_view("80") : hs ? std::string_view("443") : f ? std::string_view("21") : std::string_view()), "url: default port text follows the scheme");
    }
  } else {
    vp_cover("rejected");
    vp_check(&ec.category() == &url_error_category(), "url: parse errors are in the URL error category");
    // strict URLs must be accepted: scheme "://" reg-name [":" port] [path-abs of unreserved] ["?" unreserved] ["#" unreserved]
    bool strict = scheme_len > 0 && has_auth && (!bracket || (closed && hol > 2 && (ho + hol == n || b[ho + hol] == ':' || b[ho + hol] == '/' || b[ho + hol] == '?'))) && hol > 0 && alpha(b[0]) && b[scheme_len < n ? scheme_len : 0] == ':';
    if (strict) {
      bool ok = true;
      for (size_t i = 1; i < scheme_len; ++i) ok = ok & (alnum(b[i]) | (b[i] == '+') | (b[i] == '-') | (b[i] == '.'));
      for (size_t i = bracket; i + bracket < hol; ++i) { const unsigned char c = b[ho + i]; if (bracket && c == '%' && i + 4 < hol && b[ho + i + 1] == '2' && b[ho + i + 2] == '5') { for (i += 3; i + 1 < hol; ++i) { const unsigned char z = b[ho + i]; ok = ok & (alnum(z) | (z == '.') | (z == '-') | (z == '_') | (z == '~')); } break; } // a zone
        ok = ok & (bracket ? digit(c) | (((unsigned)(c | 32) - 'a') < 6u) | (c == ':') : alnum(c) | (c == '.') | (c == '-')); }
      for (size_t i = 0; i < uil; ++i) ok = ok & (alnum(b[ui + i]) | (b[ui + i] == '.') | (b[ui + i] == '-') | (b[ui + i] == '_') | (b[ui + i] == ':'));
      auto un = [](unsigned char c) { return alnum(c) | (c == '-') | (c == '.') | (c == '_') | (c == '~') | (c == '/') | (c == '%'); };
      for (size_t i = 0; i < pal; ++i) ok = ok & un(b[pa + i]);
      for (size_t i = 0; i < qul; ++i) ok = ok & (un(b[qu + i]) | (b[qu + i] == '=') | (b[qu + i] == '&') | (b[qu + i] == '?'));
      for (size_t i = 0; i < frl; ++i) ok = ok & (un(b[fr + i]) | (b[fr + i] == '?'));
      if (!has_colon) vp_check(!ok, "url: a well-formed URL without port is accepted");
      else {
        const bool small = digits & (pol <= 5) & (pv <= 65535), big = digits & (pol > 0) & !((pol <= 5) & (pv <= 65535));
        vp_check(!(ok & small), "url: a well-formed URL with a port up to 65535 is accepted");
        vp_check(!(ok & big) | (ec == url_error::port_overflow), "url: a numeric port beyond 65535 is reported as port_overflow");
        vp_cover_if(ok & big, "port overflow");
      }
    }
    // path-only URLs
    if (n && b[0] == '/') { bool ok = true; for (size_t i = 0; i < n; ++i) ok = ok & (alnum(b[i]) | (b[i] == '/') | (b[i] == '.') | (b[i] == '-')); vp_check(!ok, "url: an absolute path alone is accepted"); }
  }
#ifdef VP_THROWING
  bool threw = false; error_code tec;
  try { url_view t(std::string_view(b, n)); vp_check(same(t.host(), b, u.host().data() - b, u.host().size()) || ec, "url: throwing constructor yields the same components"); } catch (const vp_err::system_error& e) { threw = true; tec = e.code(); }
  vp_check(threw == (bool)ec, "url: throwing constructor throws exactly when the other reports an error");
  vp_check(!threw || tec == ec, "url: the exception carries the same error");
#endif
  ::operator delete(b);
}

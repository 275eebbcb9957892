// Error values: for every integer, code, category, comparison, message and exception agree.
#include "vp.h"
#include "asioext/error.hpp"
#include "asioext/socks/error.hpp"
#include "asioext/detail/throw_error.hpp"
#include <asio/error.hpp>
#include <asio/system_error.hpp>
#include <cstring>
#include <string>
using namespace asioext;
#ifdef ASIOEXT_HEADER_ONLY
error_code vp_tu2_error(bool socks, int v); const void* vp_tu2_category(bool socks); // in another translation unit
#endif
static const char* const url_names[] = {"none", "invalid_character", "missing_host", "port_overflow"};
static const char* const socks_names[] = {"none", "invalid_version", "no_acceptable_auth_method", "invalid_auth_version", "login_failed", "command_not_supported", "identd_not_reachable", "generic"};
template <class E, std::size_t K, const error_category& (*Cat)() noexcept> static void one(const char* const (&names)[K], const char* cat, const E (&all)[K]) {
  const int v = (int)vp_u32();
  const error_category& c = Cat();
  vp_check(&c == &Cat(), "errors: the category is one object");
  vp_check(!std::strcmp(c.name(), cat), "errors: the category has its name");
  const error_code ec(v, c);
  vp_check((bool)ec == (v != 0), "errors: exactly the value 0 is no error");
  vp_check(ec.value() == v && &ec.category() == &c, "errors: an error_code keeps value and category");
  vp_check(ec.default_error_condition().value() == v && ec.default_error_condition().category() == c, "errors: the default condition is the error itself");
  // the name of every value
  const std::string m = c.message(v);
  const char* want = "unknown"; for (unsigned i = 0; i < K; ++i) if (v == (int)i) { want = names[i]; vp_cover("named"); }
  if ((v < 0) | (v >= (int)K)) vp_cover("unknown");
  vp_check(m.size() == std::strlen(want) && !std::memcmp(m.data(), want, m.size()), "errors: the message names the error");
  vp_check(ec.message() == m, "errors: error_code::message() is the category's");
  // enumerators
  for (unsigned i = 0; i < K; ++i) {
    const error_code e = all[i];
    vp_check((int)all[i] == (int)i, "errors: the enumerators keep their values");
    vp_check(&e.category() == &c && e.value() == (int)i, "errors: an enumerator converts to its error_code");
    vp_check((ec == e) == (v == (int)i), "errors: only the same value compares equal");
    vp_check((ec == all[i]) == (v == (int)i), "errors: only the same value compares equal to the enumerator");
  }
  // no other category's errors are mistaken for these
  const error_category* other[] = {&url_error_category(), &socks::get_error_category(), &vp_err::generic_category(), &vp_err::system_category(), &asio::error::get_misc_category(), &asio::error::get_netdb_category(), &asio::error::get_addrinfo_category()};
  for (auto* o : other) if (o != &c) { vp_check(error_code(v, *o) != ec, "errors: errors of other categories differ"); vp_check(std::strcmp(o->name(), cat), "errors: category names differ"); }
  unsigned same = 0; for (auto* o : other) same += o == &c; vp_check(same == 1, "errors: the categories are distinct");
  // exceptions
  const bool located = vp_choose(2); bool thrown = false;
  try { if (located) detail::throw_error(ec, "place"); else detail::throw_error(ec); }
  catch (const vp_err::system_error& e) { thrown = true; vp_check(e.code() == ec, "errors: the exception carries the error"); if (located) vp_check(!std::strncmp(e.what(), "place", 5), "errors: the exception names the place"); vp_cover("thrown"); }
#ifdef ASIOEXT_HEADER_ONLY
  vp_check(vp_tu2_category(VP_OP) == &c, "errors: every translation unit sees the same category");
  vp_check(vp_tu2_error(VP_OP, v) == ec, "errors: every translation unit makes the same errors");
#endif
  vp_check(thrown == (v != 0), "errors: an exception is thrown exactly for an error");
}
extern "C" void vp_main() {
#if VP_OP == 0
  static const url_error all[] = {url_error::none, url_error::invalid_character, url_error::missing_host, url_error::port_overflow};
  one<url_error, 4, url_error_category>(url_names, "asioext", all);
#else
  typedef socks::error se; static const se all[] = {se::none, se::invalid_version, se::no_acceptable_auth_method, se::invalid_auth_version, se::login_failed, se::command_not_supported, se::identd_not_reachable, se::generic};
  one<se, 8, socks::get_error_category>(socks_names, "asioext.socks", all);
#endif
}

// Flag types, options, permission and attribute constants as values.
#include "vp.h"
#include "asioext/file_attrs.hpp"
#include "asioext/file_perms.hpp"
#include "asioext/open_args.hpp"
#include "asioext/open_flags.hpp"
#include "asioext/socks/constants.hpp"
#include <sys/stat.h>
using namespace asioext;
template <typename E, typename U> static void algebra(U a, U b) { // all values of the underlying type
  static_assert(sizeof(E) == sizeof(U), "");
  const E x = static_cast<E>(a), y = static_cast<E>(b); auto u = [](E e) { return static_cast<U>(e); };
  vp_check(u(x & y) == (U)(a & b), "flags: & intersects"); vp_check(u(x | y) == (U)(a | b), "flags: | unites");
  vp_check(u(x ^ y) == (U)(a ^ b), "flags: ^ is the symmetric difference"); vp_check(u(~x) == (U)~a, "flags: ~ complements");
  E z = x; E* r = &(z &= y); vp_check(r == &z && u(z) == (U)(a & b), "flags: &= intersects in place");
  z = x; r = &(z |= y); vp_check(r == &z && u(z) == (U)(a | b), "flags: |= unites in place");
  z = x; r = &(z ^= y); vp_check(r == &z && u(z) == (U)(a ^ b), "flags: ^= toggles in place");
  z = x; z |= y; z &= ~y; vp_check(u(z) == (U)(a & ~b), "flags: set and cleared again"); vp_check(u(y) == b && u(x) == a, "flags: the operands are left alone");
}
template <typename E, std::size_t K> static void single(const E (&t)[K]) { // single bits, all different
  const std::size_t i = vp_range(0, K - 1), j = vp_range(0, K - 1); const uint64_t v = (uint64_t)(std::underlying_type_t<E>)t[i], w = (uint64_t)(std::underlying_type_t<E>)t[j];
  vp_check(v != 0 && (v & (v - 1)) == 0, "flags: every enumerator is a bit of its own"); vp_check(i == j || (v & w) == 0, "flags: enumerators do not overlap");
}
extern "C" void vp_main() {
  switch (vp_choose(8)) {
  case 0: algebra<open_flags>((int)vp_i32(), (int)vp_i32()); vp_cover("open_flags"); break;
  case 1: algebra<file_perms>((int)vp_i32(), (int)vp_i32()); vp_cover("file_perms"); break;
  case 2: algebra<file_perm_options>((int)vp_i32(), (int)vp_i32()); algebra<file_attr_options>((int)vp_i32(), (int)vp_i32()); vp_cover("options"); break;
  case 3: algebra<file_attrs>(vp_u32(), vp_u32()); vp_cover("file_attrs"); break;
  case 4: { // permission constants are the system's
    const file_perms t[] = {file_perms::owner_read, file_perms::owner_write, file_perms::owner_exec, file_perms::group_read, file_perms::group_write, file_perms::group_exec, file_perms::others_read, file_perms::others_write, file_perms::others_exec, file_perms::set_uid, file_perms::set_gid, file_perms::sticky_bit};
    const unsigned m[] = {S_IRUSR, S_IWUSR, S_IXUSR, S_IRGRP, S_IWGRP, S_IXGRP, S_IROTH, S_IWOTH, S_IXOTH, S_ISUID, S_ISGID, S_ISVTX};
    const unsigned i = (unsigned)vp_range(0, 11); vp_check((unsigned)t[i] == m[i], "flags: permissions have the system's values"); single(t);
    const file_perms c[] = {file_perms::none, file_perms::owner_all, file_perms::group_all, file_perms::others_all, file_perms::all, file_perms::mask, file_perms::create_default}; const unsigned v[] = {0, S_IRWXU, S_IRWXG, S_IRWXO, 0777, 07777, 0666};
    const unsigned k = (unsigned)vp_range(0, 6); vp_check((unsigned)c[k] == v[k], "flags: combined permissions"); vp_check(((unsigned)file_perms::unknown & ~07777u) != 0, "flags: the unknown permissions are no valid ones"); vp_cover("permission values"); break; }
  case 5: { const open_flags t[] = {open_flags::access_read, open_flags::access_write, open_flags::create_new, open_flags::create_always, open_flags::open_existing, open_flags::open_always, open_flags::truncate_existing, open_flags::exclusive_read, open_flags::exclusive_write}; single(t);
    vp_check(open_flags::access_read_write == (open_flags::access_read | open_flags::access_write) && (int)open_flags::none == 0, "flags: combined access"); vp_cover("open values"); break; }
  case 6: { const file_attrs t[] = {file_attrs::hidden, file_attrs::system, file_attrs::archive, file_attrs::no_dump, file_attrs::not_indexed, file_attrs::user_immutable, file_attrs::system_immutable, file_attrs::user_no_unlink, file_attrs::system_no_unlink}; single(t);
    const file_perm_options p[] = {file_perm_options::replace, file_perm_options::add, file_perm_options::remove}; single(p); const file_attr_options a[] = {file_attr_options::replace, file_attr_options::add, file_attr_options::remove}; single(a); vp_cover("attribute values"); break; }
  default: { // open_args keeps what it is given
    open_args e; vp_check(!e.is_valid(), "flags: default open_args are invalid");
    const open_flags of = (open_flags)vp_i32(); const open_args g(of, (file_perms)vp_i32()); vp_check(g.is_valid() == asioext::is_valid(of), "flags: open_args are valid exactly if the flags are");
    const int f = (int)vp_i32(), f2 = (int)vp_i32(); const uint32_t m = vp_u32(), at = vp_u32(); open_args x; x.native_flags(f); x.mode(m); x.attrs(at); open_args y(x); y.native_flags(f2);
    vp_check(x.native_flags() == f && x.mode() == m && x.attrs() == at, "flags: open_args return what was set"); vp_check(x.is_valid() == (f != -1), "flags: open_args with flags are valid");
    vp_check(y.native_flags() == f2 && y.mode() == m && y.attrs() == at, "flags: open_args are copied"); x = y; vp_check(x.native_flags() == f2, "flags: open_args are assigned");
    const uint8_t pc[] = {1, 2, 3}; const socks::command c[] = {socks::command::connect, socks::command::bind, socks::command::bind_udp}; const unsigned i = (unsigned)vp_range(0, 2); vp_check((uint8_t)c[i] == pc[i], "flags: SOCKS commands have the protocol's values");
    const uint8_t pa[] = {0, 1, 2, 255}; const socks::auth_method am[] = {socks::auth_method::none, socks::auth_method::gssapi, socks::auth_method::username_password, socks::auth_method::no_acceptable}; const unsigned j = (unsigned)vp_range(0, 3); vp_check((uint8_t)am[j] == pa[j], "flags: SOCKS methods have the protocol's values");
    vp_check((int)socks::version::v4a == 4 && (int)socks::version::v5 == 5, "flags: SOCKS versions"); vp_cover("open_args"); break; }
  }
}

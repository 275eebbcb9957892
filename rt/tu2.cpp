// With the library header-only there is nothing to compile; this second translation unit of the program uses it, too.
#include "asioext/error.hpp"
#include "asioext/socks/error.hpp"
asioext::error_code vp_tu2_error(bool socks, int v) { return socks ? asioext::error_code(static_cast<asioext::socks::error>(v)) : asioext::error_code(static_cast<asioext::url_error>(v)); }
const void* vp_tu2_category(bool socks) { return socks ? &asioext::socks::get_error_category() : &asioext::url_error_category(); }

// Stands in for Boost's header: the number in the text of an error code (":42") is left out, it would take a variadic printf.
#ifndef BOOST_SYSTEM_DETAIL_APPEND_INT_HPP_INCLUDED
#define BOOST_SYSTEM_DETAIL_APPEND_INT_HPP_INCLUDED
#include <string>
namespace boost { namespace system { namespace detail { inline void append_int(std::string& s, int) { s += ":?"; } } } }
#endif

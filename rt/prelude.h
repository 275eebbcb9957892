// Included before every harness: headers a test translation unit has anyway, so that a header of the library which uses one of
// them without including it still compiles here.
#ifdef __cplusplus
#include <algorithm>
#include <array>
#include <cassert>
#include <cerrno>
#include <climits>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <string>
#include <system_error>
#ifdef ASIOEXT_USE_BOOST_ASIO
namespace boost { namespace asio {} namespace system {} }
namespace asio = boost::asio;
namespace vp_err = boost::system;
#define VP_ASIO boost::asio
#define VP_CONT_HELPERS boost_asio_handler_cont_helpers
#else
namespace vp_err = std;
#define VP_ASIO asio
#define VP_CONT_HELPERS asio_handler_cont_helpers
#endif
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#endif

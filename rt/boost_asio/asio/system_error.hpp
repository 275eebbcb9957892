#pragma once
#include <boost/system/system_error.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

#pragma once
#include <boost/asio/async_result.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

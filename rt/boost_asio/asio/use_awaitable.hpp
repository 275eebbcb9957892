#pragma once
#include <boost/asio/use_awaitable.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

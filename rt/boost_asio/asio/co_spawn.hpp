#pragma once
#include <boost/asio/co_spawn.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

#pragma once
#include <boost/asio/detail/scheduler.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

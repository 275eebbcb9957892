#pragma once
#include <boost/asio/bind_allocator.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

#pragma once
#include <boost/asio/buffer.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

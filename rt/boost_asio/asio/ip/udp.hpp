#pragma once
#include <boost/asio/ip/udp.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

#pragma once
#include <boost/asio/detached.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

#pragma once
#include <boost/asio/error.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

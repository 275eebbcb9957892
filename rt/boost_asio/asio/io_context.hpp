#pragma once
#include <boost/asio/io_context.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

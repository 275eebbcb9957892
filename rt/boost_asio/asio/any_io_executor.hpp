#pragma once
#include <boost/asio/any_io_executor.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

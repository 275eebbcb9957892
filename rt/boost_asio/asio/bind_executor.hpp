#pragma once
#include <boost/asio/bind_executor.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

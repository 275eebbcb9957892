#pragma once
#include <boost/asio/strand.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

#pragma once
#include <boost/asio/associated_executor.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

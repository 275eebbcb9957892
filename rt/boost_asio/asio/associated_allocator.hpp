#pragma once
#include <boost/asio/associated_allocator.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

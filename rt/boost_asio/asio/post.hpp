#pragma once
#include <boost/asio/post.hpp>
namespace boost { namespace asio {} }
namespace asio = boost::asio;

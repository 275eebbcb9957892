// A basic_file on a descriptor (never destroyed, so that the descriptor stays open).
#pragma once
#include "asioext/basic_file.hpp"
#include "asioext/thread_pool_file_service.hpp"
#include <asio/io_context.hpp>
typedef asioext::basic_file<asioext::thread_pool_file_service> vp_file_t;
static vp_file_t& vp_file(int fd) { auto& c = *new asio::io_context(1); asio::make_service<asioext::thread_pool_file_service>(c, (std::size_t)0); return *new vp_file_t(c, fd); }

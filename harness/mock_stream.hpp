// In-memory AsyncReadStream/AsyncWriteStream (also SyncRead/SyncWrite): records what is written, serves a given reply.
// How many bytes each operation transfers, and whether it fails, is chosen nondeterministically.
#pragma once
#include "vp.h"
#include <asio/io_context.hpp>
#include <asio/post.hpp>
#ifdef VP_ALLOC
# include <asio/bind_allocator.hpp>
#endif
#include <asio/buffer.hpp>
#include <cstring>
#include <utility>

struct MockStream {
  typedef asio::io_context::executor_type executor_type;
  typedef MockStream lowest_layer_type;
  asio::io_context& io;
  unsigned char out[1200]; std::size_t out_n = 0;
  unsigned char in[1200]; std::size_t in_n = 0, in_pos = 0;
  unsigned splits = 0;       // how many more operations may transfer just one byte
  bool may_fail = false;     // whether operations may report an error
  int fail_value = 0;        // the error reported, if any
  bool closed = false; void close() { closed = true; } void close(vp_err::error_code& ec) { closed = true; ec = vp_err::error_code(); }
  unsigned ops = 0, reads = 0, writes = 0, fail_at = ~0u;
  explicit MockStream(asio::io_context& c) : io(c) {}
  executor_type get_executor() noexcept { return io.get_executor(); }
  lowest_layer_type& lowest_layer() { return *this; } const lowest_layer_type& lowest_layer() const { return *this; }
  std::size_t amount(std::size_t n) { if (n > 1 && splits && vp_choose(2)) { --splits; return 1; } return n; }
  bool fails() { if (ops++ == fail_at) { fail_value = asio::error::connection_reset; return true; } return false; }

  template <class B> std::size_t do_write(const B& b, vp_err::error_code& ec) {
    ++writes;
    if (fails()) { ec = vp_err::error_code(fail_value, asio::error::get_system_category()); return 0; }
    ec = vp_err::error_code();
    std::size_t left = amount(asio::buffer_size(b)), done = 0;
    for (auto i = asio::buffer_sequence_begin(b); i != asio::buffer_sequence_end(b) && left; ++i) {
      asio::const_buffer c(*i); std::size_t k = c.size() < left ? c.size() : left;
      if (out_n + k > sizeof out) { vp_fail("mock: output larger than expected"); }
      std::memcpy(out + out_n, c.data(), k); out_n += k; left -= k; done += k;
    }
    return done;
  }
  template <class B> std::size_t do_read(const B& b, vp_err::error_code& ec) {
    ++reads;
    if (fails()) { ec = vp_err::error_code(fail_value, asio::error::get_system_category()); return 0; }
    std::size_t want = asio::buffer_size(b), have = in_n - in_pos;
    if (!want) { ec = vp_err::error_code(); return 0; }
    if (!have) { fail_value = -1; ec = asio::error::eof; return 0; }
    ec = vp_err::error_code();
    std::size_t left = amount(want < have ? want : have), done = 0;
    for (auto i = asio::buffer_sequence_begin(b); i != asio::buffer_sequence_end(b) && left; ++i) {
      asio::mutable_buffer c(*i); std::size_t k = c.size() < left ? c.size() : left;
      std::memcpy(c.data(), in + in_pos, k); in_pos += k; left -= k; done += k;
    }
    return done;
  }
  template <class B> std::size_t write_some(const B& b, vp_err::error_code& ec) { return do_write(b, ec); }
  template <class B> std::size_t read_some(const B& b, vp_err::error_code& ec) { return do_read(b, ec); }
  template <class B> std::size_t write_some(const B& b) { vp_err::error_code ec; auto n = do_write(b, ec); if (ec) throw vp_err::system_error(ec); return n; }
  template <class B> std::size_t read_some(const B& b) { vp_err::error_code ec; auto n = do_read(b, ec); if (ec) throw vp_err::system_error(ec); return n; }
  template <class H> void later(H h, vp_err::error_code ec, std::size_t n) {
#ifdef VP_ALLOC // a stream's operations use the allocator of their handler
    auto a = asio::get_associated_allocator(h);
    asio::post(io, asio::bind_allocator(a, [h = std::move(h), ec, n]() mutable { h(ec, n); }));
#else
    asio::post(io, [h = std::move(h), ec, n]() mutable { h(ec, n); });
#endif
  }
  template <class B, class H> void async_write_some(const B& b, H&& h) {
    vp_err::error_code ec; std::size_t n = do_write(b, ec);
    later(std::move(h), ec, n);
  }
  template <class B, class H> void async_read_some(const B& b, H&& h) {
    vp_err::error_code ec; std::size_t n = do_read(b, ec);
    later(std::move(h), ec, n);
  }
};

From 3fdb752fae1ceef4de0197723a0e9f8d4f892c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 01/40] fix: reject bracketed URL hosts without a closing
 bracket

---
 include/asioext/detail/impl/url_parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index d67c6c5..b38b0f2 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -206,6 +206,7 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
 
   if (*first == '[') {
     auto start = first++; // include '['
+    bool is_terminated = false;
     for (bool is_zone_spec = false; first != last; ++first) {
       const char ch = *first;
 
@@ -228,6 +229,7 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
       }
 
       if (ch == ']') {
+        is_terminated = true;
         ++first;
         break;
       }
@@ -237,6 +239,11 @@ void parse_authority(const char* first, const char* last, bool has_userinfo,
       return;
     }
 
+    if (!is_terminated) {
+      ec = make_error_code(url_error::invalid_character);
+      return;
+    }
+
     out.host = std::string_view(start, first - start);
   } else {
     auto start = first;
-- 
2.43.0


From d464248d066d14f3973e48d6c723eaf2d906b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 02/40] fix: keep the root path of scheme:/ URLs

---
 include/asioext/detail/impl/url_parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/detail/impl/url_parser.cpp b/include/asioext/detail/impl/url_parser.cpp
index b38b0f2..9b01d3d 100644
--- a/include/asioext/detail/impl/url_parser.cpp
+++ b/include/asioext/detail/impl/url_parser.cpp
@@ -464,6 +464,8 @@ void parse_url(const char* first, const char* last, parsed_url& out,
 
   if (current_part)
     *current_part = std::string_view(first, it - first);
+  else if (s == url_state::scheme_suffix_slash)
+    out.path = std::string_view(last - 1, 1); // "scheme:/": just the root
 
   ec = error_code();
   if (!out.host.empty()) {
-- 
2.43.0


From 13e3701df8293ad5967923c9f25d7e90d8306369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 03/40] fix: shift the tail when linear_buffer::insert() needs
 no reallocation

---
 include/asioext/impl/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 5153cf3..6492b11 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -88,8 +88,8 @@ void basic_linear_buffer<Allocator>::insert(std::size_t before_this,
                   size_ - before_this);
     });
   } else {
-    std::memmove(rep_.data_ + before_this,
-                 rep_.data_ + before_this + n,
+    std::memmove(rep_.data_ + before_this + n,
+                 rep_.data_ + before_this,
                  size_ - before_this);
     std::memcpy(rep_.data_ + before_this, data, n);
   }
-- 
2.43.0


From e6413b73ad84c1c96c3dc08b138c572a5afc3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 04/40] fix: linear_buffer move assignment leaked, recursed
 endlessly or kept the source

---
 include/asioext/impl/linear_buffer.hpp | 33 ++++++++++++++++++++++----
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 6492b11..204729e 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -154,15 +154,34 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
 {
   if (static_cast<allocator_type&>(rep_) !=
       static_cast<allocator_type&>(other.rep_)) {
+    uint8_t* new_buffer =
+        allocator_traits_type::allocate(rep_, other.capacity_);
+    std::memcpy(new_buffer, other.rep_.data_, other.size_);
+
     if (rep_.data_)
       allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
 
+    rep_.data_ = new_buffer;
     capacity_ = other.capacity_;
     size_ = other.size_;
-    rep_.data_ = allocator_traits_type::allocate(rep_, capacity_);
-    std::memcpy(rep_.data_, other.rep_.data_, size_);
-  } else {
-    move_assign(other, std::false_type());
+    max_size_ = other.max_size_;
+
+    if (other.rep_.data_)
+      allocator_traits_type::deallocate(other.rep_, other.rep_.data_,
+                                        other.capacity_);
+
+    other.rep_.data_ = nullptr;
+    other.capacity_ = other.size_ = 0;
+  } else if (this != &other) {
+    if (rep_.data_)
+      allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
+    rep_.data_ = other.rep_.data_;
+    capacity_ = other.capacity_;
+    size_ = other.size_;
+    max_size_ = other.max_size_;
+    other.rep_.data_ = nullptr;
+    other.capacity_ = other.size_ = 0;
   }
 }
 
@@ -171,6 +190,12 @@ void basic_linear_buffer<Allocator>::move_assign(basic_linear_buffer& other,
                                                  std::true_type)
   ASIOEXT_NOEXCEPT_IF(std::is_nothrow_move_assignable<allocator_type>::value)
 {
+  if (this == &other)
+    return;
+
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+
   static_cast<allocator_type&>(rep_) =
       std::move(static_cast<allocator_type&>(other.rep_));
   rep_.data_ = other.rep_.data_;
-- 
2.43.0


From 164e73b07d67289487c3998dbb0074a84b246e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 05/40] fix: do not deallocate a null pointer when a
 linear_buffer first allocates

---
 include/asioext/impl/linear_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/linear_buffer.hpp b/include/asioext/impl/linear_buffer.hpp
index 204729e..c810838 100644
--- a/include/asioext/impl/linear_buffer.hpp
+++ b/include/asioext/impl/linear_buffer.hpp
@@ -212,7 +212,8 @@ void basic_linear_buffer<Allocator>::reallocate(std::size_t cap, Function&& fn)
 {
   uint8_t* new_buffer = allocator_traits_type::allocate(rep_, cap);
   fn(new_buffer);
-  allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
+  if (rep_.data_)
+    allocator_traits_type::deallocate(rep_, rep_.data_, capacity_);
   rep_.data_ = new_buffer;
   capacity_ = cap;
 }
-- 
2.43.0


From 8abecc9b61494b9412408eaebd407326c4af96d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 06/40] fix: dynamic_linear_buffer::data(pos, n) overflowed for
 large n

---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 89139b2..2bbd14c 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -558,7 +558,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return mutable_buffers_type(data_.data() + pos, n);
   }
@@ -579,7 +579,7 @@ public:
     const std::size_t siz = data_.size();
     if (pos > siz)
       pos = siz;
-    if (pos + n > siz)
+    if (n > siz - pos)
       n = siz - pos;
     return const_buffers_type(data_.data() + pos, n);
   }
-- 
2.43.0


From 530a4eb97d76000d909c785d68d81abbc6a4db2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 07/40] fix: dynamic_linear_buffer::data() before the first
 prepare()

---
 include/asioext/linear_buffer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/linear_buffer.hpp b/include/asioext/linear_buffer.hpp
index 2bbd14c..6f32c67 100644
--- a/include/asioext/linear_buffer.hpp
+++ b/include/asioext/linear_buffer.hpp
@@ -522,7 +522,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   mutable_buffers_type data() ASIOEXT_NOEXCEPT
   {
-    return mutable_buffers_type(data_.data(), size_);
+    return mutable_buffers_type(data_.data(), size());
   }
 
   /// Get a list of buffers that represents the input sequence.
@@ -535,7 +535,7 @@ public:
   /// member function that modifies the input sequence or output sequence.
   const_buffers_type data() const ASIOEXT_NOEXCEPT
   {
-    return const_buffers_type(data_.data(), size_);
+    return const_buffers_type(data_.data(), size());
   }
 #endif
 
-- 
2.43.0


From f190aee351d6a97737ecf6890b4e8478a56985a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 08/40] fix: SOCKS4 requests were encoded as SOCKS5 ones

---
 include/asioext/socks/detail/client.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 2677119..e7729ac 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -52,7 +52,7 @@ public:
 
     if (0 != size) {
       asio::mutable_buffer buf = buffer_.prepare(size);
-      encode_exec_packet(cmd, remote, remote_host, port,
+      encode_exec_packet(cmd, remote, remote_host, port, user_id,
                          static_cast<uint8_t*>(buf.data()));
       buffer_.commit(size);
     }
-- 
2.43.0


From 9a91516861af6b8b433190f19bf224d891bd59a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 09/40] fix: send the target port in SOCKS4 requests

---
 include/asioext/socks/impl/client.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/socks/impl/client.hpp b/include/asioext/socks/impl/client.hpp
index ccc6d1b..db8966d 100644
--- a/include/asioext/socks/impl/client.hpp
+++ b/include/asioext/socks/impl/client.hpp
@@ -25,7 +25,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, remote, std::string(), 0, user_id, buffer),
+          socket, cmd, remote, std::string(), remote.port(), user_id, buffer),
       handler, socket
   );
 }
@@ -40,7 +40,7 @@ async_execute(Socket& socket, command cmd,
 {
   return async_compose<ExecuteHandler, void (error_code)>(
       detail::v4_exec_op<Socket, DynamicBuffer>(
-          socket, cmd, asio::ip::tcp::endpoint(), remote, 0, user_id, buffer),
+          socket, cmd, asio::ip::tcp::endpoint(), remote, port, user_id, buffer),
       handler, socket
   );
 }
-- 
2.43.0


From bf591de4641693715a8b835fd7d47d6feccaf24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 10/40] fix: SOCKS replies with other failure codes were taken
 for success

---
 include/asioext/socks/detail/client.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index e7729ac..028318e 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -110,6 +110,7 @@ void v4_exec_op<Socket, DynamicBuffer>::operator()(
       case 0x5b: ec = error::generic; break;
       case 0x5c: ec = error::identd_not_reachable; break;
       case 0x5d: ec = error::login_failed; break;
+      default: ec = error::generic; break;
     }
 
     self.complete(ec);
@@ -358,6 +359,7 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
           case 6: ec = asio::error::timed_out; break;
           case 7: ec = error::command_not_supported; break;
           case 8: ec = asio::error::address_family_not_supported; break;
+          default: ec = error::generic; break;
         }
         self.complete(ec);
         return;
-- 
2.43.0


From d793e94146cb57c5279a60548727f00d0a9e9be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 11/40] fix: reject SOCKS5 replies with an unknown address type

---
 include/asioext/socks/detail/client.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/client.hpp b/include/asioext/socks/detail/client.hpp
index 028318e..1488936 100644
--- a/include/asioext/socks/detail/client.hpp
+++ b/include/asioext/socks/detail/client.hpp
@@ -382,6 +382,11 @@ void v5_exec_op<Socket, DynamicBuffer>::operator()(
         size = 16 - 1;
         break;
       }
+      // Unknown, the reply's length can't be determined
+      default: {
+        self.complete(error::generic);
+        return;
+      }
     }
 
     ASIOEXT_CORO_YIELD asio::async_read(socket_, buffer_.prepare(size + 2),
-- 
2.43.0


From 68e4b7bda29b22e0d95eb664389c548da6d6f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:48 +0000
Subject: [PATCH 12/40] fix: file times before the epoch were reported as out
 of range

---
 include/asioext/detail/impl/chrono.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/impl/chrono.hpp b/include/asioext/detail/impl/chrono.hpp
index ccd4d19..1ec1a35 100644
--- a/include/asioext/detail/impl/chrono.hpp
+++ b/include/asioext/detail/impl/chrono.hpp
@@ -161,7 +161,7 @@ bool compose_time(const FirstDuration& first, const SecondDuration& second,
       first.count() == values_type::min_first() - 1) {
     if (second.count() < values_type::min_second())
       return false;
-  } else if (first.count() < values_type::min_second()) {
+  } else if (first.count() < values_type::min_first()) {
     return false;
   }
 
-- 
2.43.0


From 2f1951a0033b267d7216c1b273af1bdf97297392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 13/40] fix: POSIX open() passed invalid open_args on to the
 system

---
 include/asioext/detail/impl/posix_file_ops.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 3a036df..27e5a3f 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -240,6 +240,11 @@ int parse_open_flags(open_flags flags) ASIOEXT_NOEXCEPT
 handle_type open(const char* path, const open_args& args,
                  error_code& ec) ASIOEXT_NOEXCEPT
 {
+  if (!args.is_valid()) {
+    ec = asio::error::invalid_argument;
+    return -1;
+  }
+
   mode_t mode = static_cast<mode_t>(args.mode());
   while (true) {
     handle_type fd = ::open(path, O_CLOEXEC | args.native_flags(), mode);
-- 
2.43.0


From 0cdf8ba46381f5a2da2959e39f7ffcf6288ccfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 14/40] fix: get_stdin() and friends did not reset the
 error_code

---
 include/asioext/detail/impl/posix_file_ops.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/asioext/detail/impl/posix_file_ops.cpp b/include/asioext/detail/impl/posix_file_ops.cpp
index 27e5a3f..933d4ee 100644
--- a/include/asioext/detail/impl/posix_file_ops.cpp
+++ b/include/asioext/detail/impl/posix_file_ops.cpp
@@ -304,16 +304,19 @@ handle_type duplicate(handle_type fd, error_code& ec) ASIOEXT_NOEXCEPT
 
 handle_type get_stdin(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDIN_FILENO;
 }
 
 handle_type get_stdout(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDOUT_FILENO;
 }
 
 handle_type get_stderr(error_code& ec) ASIOEXT_NOEXCEPT
 {
+  ec = error_code();
   return STDERR_FILENO;
 }
 
-- 
2.43.0


From 08c36f137449c5ab8ec8e88edf1f83764f2da636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 15/40] fix: unique_file_handle::reset() leaked the new handle
 if closing the old one failed

---
 include/asioext/impl/unique_file_handle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/unique_file_handle.cpp b/include/asioext/impl/unique_file_handle.cpp
index 2a53dae..519a789 100644
--- a/include/asioext/impl/unique_file_handle.cpp
+++ b/include/asioext/impl/unique_file_handle.cpp
@@ -67,9 +67,9 @@ void unique_file_handle::reset(file_handle handle)
 void unique_file_handle::reset(file_handle handle,
                                error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // The old handle is gone even if closing it failed, and we own the new one.
   close(ec);
-  if (!ec)
-    handle_ = handle;
+  handle_ = handle;
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From ba6654413f9870d2e193825ff5159a7de70eddb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 16/40] fix: cancellation_token_source::reset() cancelled the
 tokens of a live source

---
 include/asioext/impl/cancellation_token.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/cancellation_token.cpp b/include/asioext/impl/cancellation_token.cpp
index 250ea19..0e81fef 100644
--- a/include/asioext/impl/cancellation_token.cpp
+++ b/include/asioext/impl/cancellation_token.cpp
@@ -55,7 +55,8 @@ void cancellation_token_source::destroy() ASIOEXT_NOEXCEPT
 
 void cancellation_token_source::reset()
 {
-  if (!ptr_)
+  // ptr_ never points to anything - it's only empty if we've been destroyed.
+  if (ptr_.use_count() == 0)
     ptr_.reset(static_cast<void*>(0), detail::null_deleter());
 }
 
-- 
2.43.0


From 9023564a7657e1af296d38a46a7ae067c19d96db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 17/40] fix: constructing a basic_file from a native handle did
 not compile

---
 include/asioext/basic_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index f139c04..742377d 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -149,7 +149,7 @@ public:
     : holder_(ex)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
@@ -168,7 +168,7 @@ public:
     : holder_(context)
   {
     error_code ec;
-    holder_.get_service().assign(holder_.get_implementation(), handle.native_handle(), ec);
+    holder_.get_service().assign(holder_.get_implementation(), handle, ec);
     detail::throw_error(ec, "basic_file construct");
   }
 
-- 
2.43.0


From 25bfffd52e455e820b11635eb56454035d4f4b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 18/40] fix: files could not be constructed from executors and
 did not dispatch handlers through them

---
 include/asioext/basic_file.hpp                | 12 +++--
 include/asioext/detail/service_base.hpp       | 13 ++---
 .../asioext/impl/thread_pool_file_service.cpp |  6 +--
 .../asioext/impl/thread_pool_file_service.hpp | 47 ++++++++++---------
 include/asioext/thread_pool_file_service.hpp  | 41 +++++++++-------
 5 files changed, 68 insertions(+), 51 deletions(-)

diff --git a/include/asioext/basic_file.hpp b/include/asioext/basic_file.hpp
index 742377d..6130aeb 100644
--- a/include/asioext/basic_file.hpp
+++ b/include/asioext/basic_file.hpp
@@ -1103,7 +1103,8 @@ public:
                   ReadHandler&& handler)
   {
     return holder_.get_service().async_read_some(holder_.get_implementation(),
-        buffers, std::forward<ReadHandler>(handler));
+        buffers, std::forward<ReadHandler>(handler),
+        holder_.get_executor());
   }
 
   /// @}
@@ -1158,7 +1159,8 @@ public:
                    WriteHandler&& handler)
   {
     return holder_.get_service().async_write_some(holder_.get_implementation(),
-        buffers, std::forward<WriteHandler>(handler));
+        buffers, std::forward<WriteHandler>(handler),
+        holder_.get_executor());
   }
 
   /// @}
@@ -1213,7 +1215,8 @@ public:
                      ReadHandler&& handler)
   {
     return holder_.get_service().async_read_some_at(holder_.get_implementation(),
-        offset, buffers, std::forward<ReadHandler>(handler));
+        offset, buffers, std::forward<ReadHandler>(handler),
+        holder_.get_executor());
   }
 
   /// @}
@@ -1266,7 +1269,8 @@ public:
                       WriteHandler&& handler)
   {
     return holder_.get_service().async_write_some_at(holder_.get_implementation(),
-        offset, buffers, std::forward<WriteHandler>(handler));
+        offset, buffers, std::forward<WriteHandler>(handler),
+        holder_.get_executor());
   }
 
   /// @}
diff --git a/include/asioext/detail/service_base.hpp b/include/asioext/detail/service_base.hpp
index 0f331da..6016fab 100644
--- a/include/asioext/detail/service_base.hpp
+++ b/include/asioext/detail/service_base.hpp
@@ -13,9 +13,9 @@
 #endif
 
 #if defined(ASIOEXT_USE_BOOST_ASIO)
-# include <boost/asio/io_context.hpp>
+# include <boost/asio/execution_context.hpp>
 #else
-# include <asio/io_context.hpp>
+# include <asio/execution_context.hpp>
 #endif
 
 ASIOEXT_NS_BEGIN
@@ -27,19 +27,20 @@ struct service_id : asio::execution_context::id
 {};
 
 template <typename Service>
-class io_context_service_base : public asio::io_context::service
+class execution_context_service_base
+  : public asio::execution_context::service
 {
 public:
   static service_id<Service> id;
 
   // Constructor.
-  io_context_service_base(asio::io_context& owner)
-    : asio::io_context::service(owner)
+  execution_context_service_base(asio::execution_context& owner)
+    : asio::execution_context::service(owner)
   {}
 };
 
 template <typename Service>
-service_id<Service> io_context_service_base<Service>::id;
+service_id<Service> execution_context_service_base<Service>::id;
 
 }
 
diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 0906740..f089d51 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -11,14 +11,14 @@
 ASIOEXT_NS_BEGIN
 
 thread_pool_file_service::thread_pool_file_service(
-    asio::io_context& owner, std::size_t num_threads)
-  : io_context_service_base(owner)
+    asio::execution_context& owner, std::size_t num_threads)
+  : execution_context_service_base(owner)
   , pool_(num_threads)
   , impl_list_(0)
 {
 }
 
-void thread_pool_file_service::shutdown_service()
+void thread_pool_file_service::shutdown()
 {
   // Close all implementations, causing all operations to complete.
   detail::mutex::scoped_lock lock(mutex_);
diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index bdfa471..b4eab2a 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -24,16 +24,16 @@ ASIOEXT_NS_BEGIN
 
 namespace detail {
 
-template <typename OperationImpl>
+template <typename OperationImpl, typename Executor>
 class thread_pool_fs_op
 {
 public:
   thread_pool_fs_op(const cancellation_token_source& source,
                     OperationImpl& impl,
-                    thread_pool_file_service* svc)
+                    const Executor& ex)
     : cancel_token_(source)
     , impl_(std::move(impl))
-    , svc_(svc)
+    , ex_(ex)
   {
     // ctor
   }
@@ -48,27 +48,28 @@ public:
     } else {
       bytes_transferred = impl_(ec);
     }
-    auto ex = get_associated_executor(self, svc_->get_io_context().get_executor());
+    auto ex = asio::get_associated_executor(self, ex_);
     asio::post(ex, self.complete_to_bound_handler(ec, bytes_transferred));
   }
 
 private:
   cancellation_token cancel_token_;
   OperationImpl impl_;
-  thread_pool_file_service* svc_;
+  Executor ex_;
 };
 
 struct thread_pool_fs_init
 {
-  template <typename Handler, typename Implementation>
+  template <typename Handler, typename Implementation, typename Executor>
   void operator()(Handler&& handler,
                   Implementation&& impl,
                   const cancellation_token_source& source,
-                  thread_pool_file_service* svc)
+                  thread_pool_file_service* svc,
+                  const Executor& io_ex)
   {
-    auto ex = get_associated_executor(handler, svc->get_io_context().get_executor());
+    auto ex = asio::get_associated_executor(handler, io_ex);
     auto op = make_composed_operation(
-        thread_pool_fs_op<Implementation>(source, impl, svc),
+        thread_pool_fs_op<Implementation, Executor>(source, impl, io_ex),
         std::move(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
@@ -159,53 +160,57 @@ size_t thread_pool_file_service::write_some_at(
   return impl.handle_.write_some_at(offset, buffers, ec);
 }
 
-template <typename MutableBufferSequence, typename CompletionToken>
+template <typename MutableBufferSequence, typename CompletionToken,
+          typename Executor>
 ASIOEXT_INITFN_RESULT_TYPE(CompletionToken, void(error_code, std::size_t))
 thread_pool_file_service::async_read_some(implementation_type& impl,
                                           const MutableBufferSequence& buffers,
-                                          CompletionToken&& token)
+                                          CompletionToken&& token, const Executor& ex)
 {
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read<MutableBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      impl.cancel_token_, this, ex);
 }
 
-template <typename ConstBufferSequence, typename CompletionToken>
+template <typename ConstBufferSequence, typename CompletionToken,
+          typename Executor>
 ASIOEXT_INITFN_RESULT_TYPE(CompletionToken, void(error_code, std::size_t))
 thread_pool_file_service::async_write_some(implementation_type& impl,
                                            const ConstBufferSequence& buffers,
-                                           CompletionToken&& token)
+                                           CompletionToken&& token, const Executor& ex)
 {
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write<ConstBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this);
+      impl.cancel_token_, this, ex);
 }
 
-template <typename MutableBufferSequence, typename CompletionToken>
+template <typename MutableBufferSequence, typename CompletionToken,
+          typename Executor>
 ASIOEXT_INITFN_RESULT_TYPE(CompletionToken, void(error_code, std::size_t))
 thread_pool_file_service::async_read_some_at(
     implementation_type& impl, uint64_t offset,
     const MutableBufferSequence& buffers,
-    CompletionToken&& token)
+    CompletionToken&& token, const Executor& ex)
 {
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read_at<MutableBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      impl.cancel_token_, this, ex);
 }
 
-template <typename ConstBufferSequence, typename CompletionToken>
+template <typename ConstBufferSequence, typename CompletionToken,
+          typename Executor>
 ASIOEXT_INITFN_RESULT_TYPE(CompletionToken, void(error_code, std::size_t))
 thread_pool_file_service::async_write_some_at(
     implementation_type& impl, uint64_t offset,
-    const ConstBufferSequence& buffers, CompletionToken&& token)
+    const ConstBufferSequence& buffers, CompletionToken&& token, const Executor& ex)
 {
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write_at<ConstBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this);
+      impl.cancel_token_, this, ex);
 }
 
 ASIOEXT_NS_END
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 817d32f..07ef969 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -29,9 +29,11 @@
 
 #if defined(ASIOEXT_USE_BOOST_ASIO)
 # include <boost/asio/thread_pool.hpp>
+# include <boost/asio/execution_context.hpp>
 # include <boost/asio/io_context.hpp>
 #else
 # include <asio/thread_pool.hpp>
+# include <asio/execution_context.hpp>
 # include <asio/io_context.hpp>
 #endif
 
@@ -47,15 +49,15 @@ ASIOEXT_NS_BEGIN
 /// This FileService class uses a thread-pool to emulate asynchronous file I/O.
 class thread_pool_file_service
 #if !defined(ASIOEXT_IS_DOCUMENTATION)
-  : public asioext::detail::io_context_service_base<thread_pool_file_service>
+  : public asioext::detail::execution_context_service_base<thread_pool_file_service>
 #else
-  : public asio::io_context::service
+  : public asio::execution_context::service
 #endif
 {
 public:
 #if defined(ASIOEXT_IS_DOCUMENTATION)
   /// The unique service identifier.
-  static asio::io_context::id id;
+  static asio::execution_context::id id;
 #endif
 
 #if defined(ASIOEXT_IS_DOCUMENTATION)
@@ -92,17 +94,17 @@ public:
   };
 #endif
 
-  /// Construct a new file service for the specified io_context.
+  /// Construct a new file service for the specified execution context.
   ///
-  /// @param owner The io_context that owns this service object.
+  /// @param owner The execution context that owns this service object.
   ///
   /// @param num_threads The number of threads that shall be spawned to
   /// execute file I/O operations. Defaults to 1.
-  ASIOEXT_DECL explicit thread_pool_file_service(asio::io_context& owner,
-                                                 std::size_t num_threads = 1);
+  ASIOEXT_DECL explicit thread_pool_file_service(
+      asio::execution_context& owner, std::size_t num_threads = 1);
 
   /// Destroy all user-defined handler objects owned by the service.
-  ASIOEXT_DECL void shutdown_service();
+  ASIOEXT_DECL void shutdown();
 
   /// Construct a new file implementation.
   ASIOEXT_DECL void construct(implementation_type& impl);
@@ -250,37 +252,42 @@ public:
                        error_code& ec) ASIOEXT_NOEXCEPT;
 
   /// Start an asynchronous read. The buffer for the data being received must be
-  /// valid for the lifetime of the asynchronous operation.
-  template <typename MutableBufferSequence, typename Handler>
+  /// valid for the lifetime of the asynchronous operation. Handlers without an
+  /// associated executor are dispatched using @c ex.
+  template <typename MutableBufferSequence, typename Handler,
+            typename Executor>
   ASIOEXT_INITFN_RESULT_TYPE(Handler, void(error_code, std::size_t))
   async_read_some(implementation_type& impl,
                   const MutableBufferSequence& buffers,
-                  Handler&& handler);
+                  Handler&& handler, const Executor& ex);
 
   /// Start an asynchronous write. The data being written must be valid for the
   /// lifetime of the asynchronous operation.
-  template <typename ConstBufferSequence, typename Handler>
+  template <typename ConstBufferSequence, typename Handler,
+            typename Executor>
   ASIOEXT_INITFN_RESULT_TYPE(Handler, void(error_code, std::size_t))
   async_write_some(implementation_type& impl,
                    const ConstBufferSequence& buffers,
-                   Handler&& handler);
+                   Handler&& handler, const Executor& ex);
 
   /// Start an asynchronous read at a specified offset. The buffer for the data
   /// being received must be valid for the lifetime of the asynchronous
   /// operation.
-  template <typename MutableBufferSequence, typename Handler>
+  template <typename MutableBufferSequence, typename Handler,
+            typename Executor>
   ASIOEXT_INITFN_RESULT_TYPE(Handler, void(error_code, std::size_t))
   async_read_some_at(implementation_type& impl, uint64_t offset,
                      const MutableBufferSequence& buffers,
-                     Handler&& handler);
+                     Handler&& handler, const Executor& ex);
 
   /// Start an asynchronous write at a specified offset. The data being written
   /// must be valid for the lifetime of the asynchronous operation.
-  template <typename ConstBufferSequence, typename Handler>
+  template <typename ConstBufferSequence, typename Handler,
+            typename Executor>
   ASIOEXT_INITFN_RESULT_TYPE(Handler, void(error_code, std::size_t))
   async_write_some_at(implementation_type& impl, uint64_t offset,
                       const ConstBufferSequence& buffers,
-                      Handler&& handler);
+                      Handler&& handler, const Executor& ex);
 
   /// @private
   // This is needed for tests.
-- 
2.43.0


From 0e7dee35c4538d2f73e8e01a613aa1071824d5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 19/40] fix: move-assigning a basic_file did not compile

---
 include/asioext/io_object_holder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/io_object_holder.hpp b/include/asioext/io_object_holder.hpp
index 9a2d25f..d7e622b 100644
--- a/include/asioext/io_object_holder.hpp
+++ b/include/asioext/io_object_holder.hpp
@@ -107,6 +107,7 @@ public:
   // Move-assign an I/O object.
   io_object_holder& operator=(io_object_holder&& other)
       noexcept(noexcept(std::declval<IoObjectService>().move_assign(std::declval<implementation_type&>(),
+                                                                    std::declval<IoObjectService&>(),
                                                                     std::declval<implementation_type&>())))
   {
     if (this != &other)
-- 
2.43.0


From 4d812dd73c38095b5c840aa5f898f94329dc56f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 20/40] fix: operations of moved-to or reopened files were
 always or never cancelled

---
 include/asioext/impl/thread_pool_file_service.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index f089d51..7159d4f 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -82,6 +82,9 @@ void thread_pool_file_service::move_assign(
   impl.handle_ = other_impl.handle_;
   other_impl.handle_.clear();
 
+  impl.cancel_token_ =
+      ASIOEXT_MOVE_CAST(cancellation_token_source)(other_impl.cancel_token_);
+
   if (this != &other_service) {
     // Insert implementation into linked list of all implementations.
     detail::mutex::scoped_lock lock(other_service.mutex_);
@@ -119,6 +122,7 @@ void thread_pool_file_service::open(implementation_type& impl,
     ec = asio::error::already_open;
     return;
   }
+  impl.cancel_token_.reset();
   impl.handle_ = asioext::open(filename, args, ec).release();
 }
 
@@ -132,6 +136,7 @@ void thread_pool_file_service::open(implementation_type& impl,
     ec = asio::error::already_open;
     return;
   }
+  impl.cancel_token_.reset();
   impl.handle_ = asioext::open(filename, args, ec).release();
 }
 #endif
@@ -146,6 +151,7 @@ void thread_pool_file_service::open(implementation_type& impl,
     ec = asio::error::already_open;
     return;
   }
+  impl.cancel_token_.reset();
   impl.handle_ = asioext::open(filename, args, ec).release();
 }
 #endif
@@ -159,6 +165,7 @@ void thread_pool_file_service::assign(implementation_type& impl,
     return;
   }
 
+  impl.cancel_token_.reset();
   impl.handle_ = handle;
   ec = error_code();
 }
-- 
2.43.0


From 9a224734d1b051aa4c0ac35b34073e1d48a689f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 21/40] fix: a failing close while destroying a basic_file
 terminated the program

---
 include/asioext/impl/thread_pool_file_service.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 7159d4f..68a858a 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -273,7 +273,8 @@ void thread_pool_file_service::close_for_destruction(implementation_type& impl)
   if (impl.handle_.is_open()) {
     // TODO(tim): log handler operation
     impl.cancel_token_.destroy();
-    impl.handle_.close();
+    error_code ignored_ec;
+    impl.handle_.close(ignored_ec);
   }
 }
 
-- 
2.43.0


From 35818d1789f4f43190b463a875e14223b5e72952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 22/40] fix: basic_file::cancel() did not reset the error_code

---
 include/asioext/impl/thread_pool_file_service.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 68a858a..236e199 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -265,6 +265,7 @@ void thread_pool_file_service::cancel(implementation_type& impl,
   }
 
   impl.cancel_token_.cancel();
+  ec = error_code();
   // TODO(tim): log handler operation
 }
 
-- 
2.43.0


From 84aad0ea40ae60ca2f7c5ff538ccaa380a49f56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 23/40] fix: operations outstanding while closing a basic_file
 used the closed handle

---
 include/asioext/impl/thread_pool_file_service.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 236e199..6253304 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -173,6 +173,10 @@ void thread_pool_file_service::assign(implementation_type& impl,
 void thread_pool_file_service::close(implementation_type& impl,
                                      error_code& ec) ASIOEXT_NOEXCEPT
 {
+  // Operations that have not been started yet must not use a handle that's
+  // closed (or worse, has been reused) by the time they run.
+  if (impl.handle_.is_open())
+    impl.cancel_token_.cancel();
   impl.handle_.close(ec);
 }
 
-- 
2.43.0


From 2bfd63d53d8b061f5cc3db1bc04237feb0afde4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:48 +0000
Subject: [PATCH 24/40] fix: bound handlers released their work before they
 were invoked

---
 include/asioext/detail/bound_handler.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/detail/bound_handler.hpp b/include/asioext/detail/bound_handler.hpp
index 3215d3e..e357a14 100644
--- a/include/asioext/detail/bound_handler.hpp
+++ b/include/asioext/detail/bound_handler.hpp
@@ -121,8 +121,8 @@ public:
     ASIOEXT_NOEXCEPT_IF(noexcept(asioext::detail::invoke(
           handler_, args_, args_indices_type{})))
   {
-    this->reset(); // defined in Work
     asioext::detail::invoke(handler_, args_, args_indices_type{});
+    this->reset(); // defined in Work
   }
 };
 
-- 
2.43.0


From 381e21b3c965f9bf26ba8d7fb38a54948ee271d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 25/40] fix: files owned by queued handlers used a destroyed
 mutex

The thread pool of thread_pool_file_service was destroyed after the
mutex that destroying a file locks.
---
 include/asioext/impl/thread_pool_file_service.cpp | 2 +-
 include/asioext/thread_pool_file_service.hpp      | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 6253304..2396eb9 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -13,8 +13,8 @@ ASIOEXT_NS_BEGIN
 thread_pool_file_service::thread_pool_file_service(
     asio::execution_context& owner, std::size_t num_threads)
   : execution_context_service_base(owner)
-  , pool_(num_threads)
   , impl_list_(0)
+  , pool_(num_threads)
 {
 }
 
diff --git a/include/asioext/thread_pool_file_service.hpp b/include/asioext/thread_pool_file_service.hpp
index 07ef969..647b897 100644
--- a/include/asioext/thread_pool_file_service.hpp
+++ b/include/asioext/thread_pool_file_service.hpp
@@ -301,14 +301,15 @@ private:
   // destroyed.
   ASIOEXT_DECL void close_for_destruction(implementation_type& impl);
 
-  // The thread pool.
-  asio::thread_pool pool_;
-
   // Mutex to protect access to the linked list of implementations.
   detail::mutex mutex_;
 
   // The head of a linked list of all implementations.
   implementation_type* impl_list_;
+
+  // The thread pool. Declared last, since destroying it destroys the operations
+  // that are still queued, along with any files owned by their handlers.
+  asio::thread_pool pool_;
 };
 
 ASIOEXT_NS_END
-- 
2.43.0


From d251a80cf8f83a87495843fdc423ddd35fc095d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 26/40] fix: assigning a handler to a unique_handler did not
 compile

---
 include/asioext/unique_handler.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index 07445ca..d884385 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -143,8 +143,8 @@ public:
       storage_->abort(storage_);
 
     storage_ = new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
-                                               Handler>(handler))
-        storage_impl<std::decay_t<Handler>>(std::move(handler));
+                                               std::decay_t<Handler>>(handler))
+        storage_impl<std::decay_t<Handler>>(handler);
     return *this;
   }
 
-- 
2.43.0


From 5cfd4e9b15e1e2a5e62a8f5308483fd33fb2e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:43 +0000
Subject: [PATCH 27/40] fix: unique_handler kept a destroyed handler if
 assigning a new one failed

---
 include/asioext/unique_handler.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/asioext/unique_handler.hpp b/include/asioext/unique_handler.hpp
index d884385..fc2387a 100644
--- a/include/asioext/unique_handler.hpp
+++ b/include/asioext/unique_handler.hpp
@@ -119,9 +119,7 @@ public:
   /// constructed using the @c unique_handler() constructor.
   unique_handler& operator=(unique_handler&& other) ASIOEXT_NOEXCEPT
   {
-    if (storage_)
-      storage_->abort(storage_);
-
+    reset();
     storage_ = other.storage_;
     other.storage_ = nullptr;
     return *this;
@@ -139,9 +137,7 @@ public:
   template <typename Handler>
   unique_handler& operator=(Handler&& handler)
   {
-    if (storage_)
-      storage_->abort(storage_);
-
+    reset();
     storage_ = new (detail::allocate_operation<storage_impl<std::decay_t<Handler>>,
                                                std::decay_t<Handler>>(handler))
         storage_impl<std::decay_t<Handler>>(handler);
-- 
2.43.0


From ea47cbb37934c3827f48845ba78aa0dca0931bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 28/40] fix: connect reported host_not_found instead of
 not_found for an empty list of endpoints

---
 include/asioext/impl/connect.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/impl/connect.cpp b/include/asioext/impl/connect.cpp
index 387eb97..f69f599 100644
--- a/include/asioext/impl/connect.cpp
+++ b/include/asioext/impl/connect.cpp
@@ -33,7 +33,7 @@ void connect(asio::ip::tcp::socket::lowest_layer_type& socket,
     return;
 
   // Try each endpoint until we successfully establish a connection.
-  ec = asio::error::host_not_found;
+  ec = asio::error::not_found;
   for (const auto& entry : results) {
     socket.close(ec);
     socket.connect(entry, ec);
-- 
2.43.0


From 69fd9da73a7bbbb395f2a9709846cd70e0d025b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 29/40] fix: thread_pool_file_service did not wait for running
 operations on shutdown

---
 include/asioext/impl/thread_pool_file_service.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.cpp b/include/asioext/impl/thread_pool_file_service.cpp
index 2396eb9..0fec33a 100644
--- a/include/asioext/impl/thread_pool_file_service.cpp
+++ b/include/asioext/impl/thread_pool_file_service.cpp
@@ -21,11 +21,16 @@ thread_pool_file_service::thread_pool_file_service(
 void thread_pool_file_service::shutdown()
 {
   // Close all implementations, causing all operations to complete.
-  detail::mutex::scoped_lock lock(mutex_);
-  for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
-    close_for_destruction(*cur);
+  {
+    detail::mutex::scoped_lock lock(mutex_);
+    for (implementation_type* cur = impl_list_; cur; cur = cur->next_)
+      close_for_destruction(*cur);
+  }
 
+  // Operations that are still running must not post their handlers to
+  // executors whose context is shut down after us.
   pool_.stop();
+  pool_.join();
 }
 
 void thread_pool_file_service::construct(implementation_type& impl)
-- 
2.43.0


From 0c2aba9b9281d1c8e25ed3dc2235ca4f71363b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:54 +0000
Subject: [PATCH 30/40] fix: asynchronous operations moved from handlers that
 were passed as lvalues

---
 include/asioext/compose.hpp                       | 12 ++++++------
 include/asioext/impl/thread_pool_file_service.hpp |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/asioext/compose.hpp b/include/asioext/compose.hpp
index 70dc95b..ad052ff 100644
--- a/include/asioext/compose.hpp
+++ b/include/asioext/compose.hpp
@@ -80,9 +80,9 @@ struct initiate_composed_op
       typename std::decay<Handler>::type,
       typename std::decay<Impl>::type,
       typename std::decay<Work>::type
-    >(std::move(handler),
-      std::move(impl),
-      std::move(work))();
+    >(std::forward<Handler>(handler),
+      std::forward<Impl>(impl),
+      std::forward<Work>(work))();
   }
 };
 
@@ -97,9 +97,9 @@ composed_operation<
     typename std::decay<Handler>::type,
     typename std::decay<Impl>::type,
     typename std::decay<Work>::type
-  >(std::move(handler),
-    std::move(impl),
-    std::move(work));
+  >(std::forward<Handler>(handler),
+    std::forward<Impl>(impl),
+    std::forward<Work>(work));
 }
 
 template <typename IoObject, typename = typename std::enable_if<
diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index b4eab2a..16febdf 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -70,7 +70,7 @@ struct thread_pool_fs_init
     auto ex = asio::get_associated_executor(handler, io_ex);
     auto op = make_composed_operation(
         thread_pool_fs_op<Implementation, Executor>(source, impl, io_ex),
-        std::move(handler), ex);
+        std::forward<Handler>(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
   }
-- 
2.43.0


From 0bb10532ce9cd3f75c226c2a21e7c4abce3f39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:26 +0000
Subject: [PATCH 31/40] fix: buffered_stream did not compile without Boost

---
 include/asioext/experimental/buffered_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 5fc9ea8..d637651 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -325,7 +325,7 @@ buffered_stream<Stream, Allocator>::async_fill(ReadHandler&& handler)
 
 template <typename Stream, typename Allocator>
 typename buffered_stream<Stream, Allocator>::buffer_type*
-buffered_stream<Stream, Allocator>::lock_write_buffers(boost::system::error_code& ec)
+buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
 {
   if (flush_pending_) {
     ec = asio::error::already_started;
-- 
2.43.0


From 6d84d42441db87acfc9a20c951d0abc8f3f8fe04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:42 +0000
Subject: [PATCH 32/40] fix: buffered_stream::flush() did not reset the
 error_code

---
 include/asioext/experimental/buffered_stream.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index d637651..0c1d9cc 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -343,6 +343,7 @@ buffered_stream<Stream, Allocator>::lock_write_buffers(error_code& ec)
   }
 
   flush_pending_ = true;
+  ec = error_code();
   return &write_buffer_locked_;
 }
 
-- 
2.43.0


From 0eb063c73d49802e54a28e678a84aaca8978dd09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:56 +0000
Subject: [PATCH 33/40] fix: asynchronous file operations did not compile with
 use_awaitable

The initiation was given a reference to the file's cancellation_token_source,
which completion tokens that start the operation later can't copy.
---
 .../asioext/impl/thread_pool_file_service.hpp    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/asioext/impl/thread_pool_file_service.hpp b/include/asioext/impl/thread_pool_file_service.hpp
index 16febdf..99bc889 100644
--- a/include/asioext/impl/thread_pool_file_service.hpp
+++ b/include/asioext/impl/thread_pool_file_service.hpp
@@ -28,10 +28,10 @@ template <typename OperationImpl, typename Executor>
 class thread_pool_fs_op
 {
 public:
-  thread_pool_fs_op(const cancellation_token_source& source,
+  thread_pool_fs_op(const cancellation_token& token,
                     OperationImpl& impl,
                     const Executor& ex)
-    : cancel_token_(source)
+    : cancel_token_(token)
     , impl_(std::move(impl))
     , ex_(ex)
   {
@@ -63,13 +63,13 @@ struct thread_pool_fs_init
   template <typename Handler, typename Implementation, typename Executor>
   void operator()(Handler&& handler,
                   Implementation&& impl,
-                  const cancellation_token_source& source,
+                  const cancellation_token& cancel_token,
                   thread_pool_file_service* svc,
                   const Executor& io_ex)
   {
     auto ex = asio::get_associated_executor(handler, io_ex);
     auto op = make_composed_operation(
-        thread_pool_fs_op<Implementation, Executor>(source, impl, io_ex),
+        thread_pool_fs_op<Implementation, Executor>(cancel_token, impl, io_ex),
         std::forward<Handler>(handler), ex);
 
     asio::post(asio::bind_executor(svc->get_thread_pool(), std::move(op)));
@@ -170,7 +170,7 @@ thread_pool_file_service::async_read_some(implementation_type& impl,
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read<MutableBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this, ex);
+      cancellation_token(impl.cancel_token_), this, ex);
 }
 
 template <typename ConstBufferSequence, typename CompletionToken,
@@ -183,7 +183,7 @@ thread_pool_file_service::async_write_some(implementation_type& impl,
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write<ConstBufferSequence>{impl.handle_, buffers},
-      impl.cancel_token_, this, ex);
+      cancellation_token(impl.cancel_token_), this, ex);
 }
 
 template <typename MutableBufferSequence, typename CompletionToken,
@@ -197,7 +197,7 @@ thread_pool_file_service::async_read_some_at(
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_read_at<MutableBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this, ex);
+      cancellation_token(impl.cancel_token_), this, ex);
 }
 
 template <typename ConstBufferSequence, typename CompletionToken,
@@ -210,7 +210,7 @@ thread_pool_file_service::async_write_some_at(
   return async_initiate<CompletionToken, void(error_code, std::size_t)>(
       detail::thread_pool_fs_init(), token,
       detail::thread_pool_fs_write_at<ConstBufferSequence>{impl.handle_, offset, buffers},
-      impl.cancel_token_, this, ex);
+      cancellation_token(impl.cancel_token_), this, ex);
 }
 
 ASIOEXT_NS_END
-- 
2.43.0


From 351f1f1faf215fd4015073eb8e79a5ad42f75f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:22 +0000
Subject: [PATCH 34/40] fix: async_connect() kept references to the caller's
 strings

Completion tokens such as use_awaitable may start the operation when they're
already gone.
---
 include/asioext/connect.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/asioext/connect.hpp b/include/asioext/connect.hpp
index 2068a80..210b52b 100644
--- a/include/asioext/connect.hpp
+++ b/include/asioext/connect.hpp
@@ -73,9 +73,10 @@ public:
 private:
   asio::basic_socket<Protocol, Executor>& socket_;
   asio::ip::basic_resolver<Protocol>& resolver_;
-  // These are only valid during the initial no-args operator() call!
-  std::string_view host_;
-  std::string_view service_;
+  // Completion tokens may start the operation after the caller's strings are
+  // gone, so we need our own copies.
+  std::string host_;
+  std::string service_;
   asio::ip::resolver_base::flags resolve_flags_;
 };
 
-- 
2.43.0


From 39e423150f62fb8b2f21009b04a4ca4fa5108244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:38 +0000
Subject: [PATCH 35/40] fix: buffered_stream::async_flush() moved from handlers
 given as lvalues

---
 include/asioext/experimental/buffered_stream.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 0c1d9cc..0ac9e2e 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -290,7 +290,8 @@ buffered_stream<Stream, Allocator>::async_flush(WriteHandler&& handler)
     const auto buffer = lock_write_buffers(ec);
     if (ec) {
       auto ex = asio::get_associated_executor(handler, get_executor());
-      asio::post(ex, asioext::bind_handler(std::move(handler), ec, 0));
+      asio::post(ex, asioext::bind_handler(
+          std::forward<decltype(handler)>(handler), ec, 0));
       return;
     }
 
@@ -299,8 +300,9 @@ buffered_stream<Stream, Allocator>::async_flush(WriteHandler&& handler)
       self.complete(ec, size);
     };
     asio::async_write(stream_, asio::dynamic_buffer(*buffer),
-                      asioext::make_composed_operation(std::move(op),
-                                                       std::move(handler)));
+                      asioext::make_composed_operation(
+                          std::move(op),
+                          std::forward<decltype(handler)>(handler)));
   };
   return asioext::async_initiate<WriteHandler, void (error_code, std::size_t)>(
     init, handler);
-- 
2.43.0


From 70a4524bc1f9972e1430e8c0773cf75a571c522f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:59 +0000
Subject: [PATCH 36/40] fix: url_view was not defined in header-only builds

---
 include/asioext/url_view.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/asioext/url_view.hpp b/include/asioext/url_view.hpp
index 613c9dd..852f747 100644
--- a/include/asioext/url_view.hpp
+++ b/include/asioext/url_view.hpp
@@ -52,4 +52,8 @@ private:
 
 ASIOEXT_NS_END
 
+#if defined(ASIOEXT_HEADER_ONLY)
+# include "asioext/impl/url_view.cpp"
+#endif
+
 #endif
-- 
2.43.0


From 59a7d5596a53f4fb52def59b19d61f8ddf6a2547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:15 +0000
Subject: [PATCH 37/40] fix: read_file() terminated the program when its
 container could not be resized

The overload taking a file_handle and an error_code was noexcept although it
resizes the container, which may throw. All the other overloads call it.
---
 include/asioext/impl/read_file.hpp | 2 +-
 include/asioext/read_file.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/asioext/impl/read_file.hpp b/include/asioext/impl/read_file.hpp
index 0b572fa..bbff31f 100644
--- a/include/asioext/impl/read_file.hpp
+++ b/include/asioext/impl/read_file.hpp
@@ -100,7 +100,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
     read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT
+              error_code& ec)
 {
   const uint64_t size = file.size(ec);
   if (ec) return;
diff --git a/include/asioext/read_file.hpp b/include/asioext/read_file.hpp
index 1e00625..f443d7e 100644
--- a/include/asioext/read_file.hpp
+++ b/include/asioext/read_file.hpp
@@ -152,7 +152,7 @@ ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
 template <class RawByteContainer>
 ASIOEXT_DETAIL_RF_RAW_RET(RawByteContainer)
     read_file(file_handle file, RawByteContainer& c,
-              error_code& ec) ASIOEXT_NOEXCEPT;
+              error_code& ec);
 
 /// @}
 
-- 
2.43.0


From 739dd3938c001780524ebb8a6cbc5f527c59b5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:05:54 +0000
Subject: [PATCH 38/40] fix: a buffered_stream flush that could not be started
 stayed pending for ever

If starting the write throws an exception (e.g. because the handler's allocator
fails), no handler is ever invoked and every later flush was refused.
---
 include/asioext/experimental/buffered_stream.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/asioext/experimental/buffered_stream.hpp b/include/asioext/experimental/buffered_stream.hpp
index 0ac9e2e..d90450e 100644
--- a/include/asioext/experimental/buffered_stream.hpp
+++ b/include/asioext/experimental/buffered_stream.hpp
@@ -260,6 +260,18 @@ private:
   buffer_type* lock_write_buffers(error_code& ec);
   void unlock_write_buffers(std::size_t bytes_written);
 
+  // Unlocks the write buffers if starting a flush throws an exception.
+  struct unlock_guard
+  {
+    ~unlock_guard()
+    {
+      if (stream_ != nullptr)
+        stream_->unlock_write_buffers(0);
+    }
+
+    buffered_stream* stream_;
+  };
+
   Stream stream_;
 
   bool flush_pending_ = false;
@@ -299,10 +311,13 @@ buffered_stream<Stream, Allocator>::async_flush(WriteHandler&& handler)
       unlock_write_buffers(size);
       self.complete(ec, size);
     };
+    // If the operation can't be started, no flush is pending.
+    unlock_guard guard = { this };
     asio::async_write(stream_, asio::dynamic_buffer(*buffer),
                       asioext::make_composed_operation(
                           std::move(op),
                           std::forward<decltype(handler)>(handler)));
+    guard.stream_ = nullptr;
   };
   return asioext::async_initiate<WriteHandler, void (error_code, std::size_t)>(
     init, handler);
-- 
2.43.0


From 56715280935f2f5b0503352e6b79d3ac0efc862c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:27 +0000
Subject: [PATCH 39/40] fix: SOCKS4 names with a zero byte made malformed
 requests

---
 include/asioext/socks/detail/impl/protocol.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/asioext/socks/detail/impl/protocol.cpp b/include/asioext/socks/detail/impl/protocol.cpp
index 008834e..0fba6b2 100644
--- a/include/asioext/socks/detail/impl/protocol.cpp
+++ b/include/asioext/socks/detail/impl/protocol.cpp
@@ -19,6 +19,11 @@ std::size_t get_exec_packet_size(const asio::ip::tcp::endpoint& remote,
   if (remote_host.empty() && remote.protocol() != asio::ip::tcp::v4())
     return 0;
 
+  // Both strings are sent zero-terminated, so they can't contain zeros.
+  if (user_id.find('\0') != std::string::npos ||
+      remote_host.find('\0') != std::string::npos)
+    return 0;
+
   std::size_t size = 1 + 1 + 2 + 4;
   size += user_id.size() + 1;
 
-- 
2.43.0


From 98edd0e72a511a91a02ad68f0d1f3cc945fefcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:46:27 +0000
Subject: [PATCH 40/40] fix: async_connect() did not compile for protocols
 other than TCP

---
 include/asioext/connect.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/asioext/connect.hpp b/include/asioext/connect.hpp
index 210b52b..2e2fe11 100644
--- a/include/asioext/connect.hpp
+++ b/include/asioext/connect.hpp
@@ -55,7 +55,8 @@ public:
   }
 
   template <typename Self>
-  void operator()(Self& self, error_code ec, asio::ip::tcp::resolver::results_type results)
+  void operator()(Self& self, error_code ec,
+                  typename Protocol::resolver::results_type results)
   {
     if (!ec) {
       asio::async_connect(socket_, std::move(results), std::move(self));
@@ -65,7 +66,7 @@ public:
   }
 
   template <typename Self>
-  void operator()(Self& self, error_code ec, asio::ip::tcp::resolver::endpoint_type ep)
+  void operator()(Self& self, error_code ec, typename Protocol::endpoint ep)
   {
     self.complete(ec, std::move(ep));
   }
-- 
2.43.0


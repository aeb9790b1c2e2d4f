From 8c55fb176087b505affd9e4b7c4cb44071266c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 01/50] fix: channel: pass the wakeup on and keep the element
 if an element operation throws

---
 include/dice/template-library/channel.hpp | 26 ++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index d5b685e..a2322d2 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -97,7 +97,13 @@ namespace dice::template_library {
                     return false;
                 }
 
-                queue_.emplace_back(std::forward<Args>(args)...);
+                try {
+                    queue_.emplace_back(std::forward<Args>(args)...);
+                } catch (...) {
+                    // the free slot was not used, but we may have consumed the wakeup for it: pass it on
+                    queue_not_full_.notify_one();
+                    throw;
+                }
             }
 
             queue_not_empty_.notify_one();
@@ -177,15 +183,23 @@ namespace dice::template_library {
          * @return std::nullopt if the channel was closed, an element otherwise
          */
         [[nodiscard]] std::optional<value_type> pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret; // returned via NRVO; not moved after the element left the queue
+
             std::unique_lock lock{queue_mutex_};
             queue_not_empty_.wait(lock, [this]() noexcept { return !queue_.empty() || closed_.test(std::memory_order_relaxed); });
 
             if (queue_.empty()) [[unlikely]] {
                 // implies closed_ == true
-                return std::nullopt;
+                return ret;
             }
 
-            auto ret = std::move(queue_.front());
+            try {
+                ret.emplace(std::move(queue_.front()));
+            } catch (...) {
+                // the element is still present, but we may have consumed the wakeup for it: pass it on
+                queue_not_empty_.notify_one();
+                throw;
+            }
             queue_.pop_front();
 
 			lock.unlock();
@@ -198,12 +212,14 @@ namespace dice::template_library {
          * Unlike pop(), if there is no element available, returns std::nullopt immediatly.
          */
         [[nodiscard]] std::optional<value_type> try_pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret; // returned via NRVO; not moved after the element left the queue
+
             std::unique_lock lock{queue_mutex_};
             if (queue_.empty()) {
-                return std::nullopt;
+                return ret;
             }
 
-            auto ret = std::move(queue_.front());
+            ret.emplace(std::move(queue_.front()));
             queue_.pop_front();
 
             lock.unlock();
-- 
2.43.0


From 20ca1e28d182d4dc82297b08c2d16255923807a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:58 +0000
Subject: [PATCH 02/50] fix: exchange_channel: pass the wakeup on and keep the
 value if its move throws

---
 .../template-library/exchange_channel.hpp     | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index a6d75ed..9a0b277 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -122,6 +122,8 @@ namespace dice::template_library {
          * @return std::nullopt if the channel was closed, an element otherwise
          */
         [[nodiscard]] std::optional<value_type> pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret; // returned via NRVO; not moved after the value left the channel
+
             std::unique_lock lock{value_mutex_};
             has_value_.wait(lock, [this]() noexcept {
                 return value_.has_value() || closed_.test(std::memory_order_relaxed);
@@ -129,10 +131,18 @@ namespace dice::template_library {
 
             if (!value_.has_value()) [[unlikely]] {
                 // implies closed_ == true
-                return std::nullopt;
+                return ret;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            try {
+                ret.emplace(std::move(*value_));
+            } catch (...) {
+                // the value is still present, but we may have consumed the wakeup for it: pass it on
+                has_value_.notify_one();
+                throw;
+            }
+            value_.reset();
+            return ret;
         }
 
         /**
@@ -140,12 +150,16 @@ namespace dice::template_library {
          * Unlike pop(), if there is no element available, returns std::nullopt immediatly.
          */
         [[nodiscard]] std::optional<value_type> try_pop() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            std::optional<value_type> ret; // returned via NRVO; not moved after the value left the channel
+
             std::unique_lock lock{value_mutex_};
             if (!value_.has_value()) {
-                return std::nullopt;
+                return ret;
             }
 
-            return *std::exchange(value_, std::nullopt);
+            ret.emplace(std::move(*value_));
+            value_.reset();
+            return ret;
         }
 
         struct iterator {
-- 
2.43.0


From 717b1368dd8d778dc2a343f51324e7a5738fdbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 03/50] fix: mutex, shared_mutex: make lock() and friends
 usable with a custom Mutex parameter

The guards were always instantiated for the default mutex type, so that any use of
a mutex with a non-default Mutex parameter failed to compile.
---
 include/dice/template-library/mutex.hpp        |  8 ++++----
 include/dice/template-library/shared_mutex.hpp | 16 ++++++++--------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 39746f0..6b3cc7b 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -108,8 +108,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] mutex_guard<value_type> lock() {
-            return mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] mutex_guard<value_type, mutex_type> lock() {
+            return mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -119,13 +119,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return mutex_guard<value_type>{std::move(lock), value_};
+            return mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
     };
 
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 52b43cd..414dab0 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -110,8 +110,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type> lock() {
-            return shared_mutex_guard<value_type>{std::unique_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type, mutex_type> lock() {
+            return shared_mutex_guard<value_type, mutex_type>{std::unique_lock<mutex_type>{mutex_}, value_};
         }
 
 		/**
@@ -121,13 +121,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type>> try_lock() {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type, mutex_type>> try_lock() {
             std::unique_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type>{std::move(lock), value_};
+            return shared_mutex_guard<value_type, mutex_type>{std::move(lock), value_};
         }
 
         /**
@@ -137,8 +137,8 @@ namespace dice::template_library {
          * @return mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] shared_mutex_guard<value_type const> lock_shared() const {
-            return shared_mutex_guard<value_type const>{std::shared_lock<mutex_type>{mutex_}, value_};
+        [[nodiscard]] shared_mutex_guard<value_type const, mutex_type> lock_shared() const {
+            return shared_mutex_guard<value_type const, mutex_type>{std::shared_lock<mutex_type>{mutex_}, value_};
         }
 
         /**
@@ -148,13 +148,13 @@ namespace dice::template_library {
          * @return nullopt in case the mutex could not be locked, otherwise a mutex guard for the inner value
          * @throws std::system_error in case the underlying mutex implementation throws it
          */
-        [[nodiscard]] std::optional<shared_mutex_guard<value_type const>> try_lock_shared() const {
+        [[nodiscard]] std::optional<shared_mutex_guard<value_type const, mutex_type>> try_lock_shared() const {
             std::shared_lock<mutex_type> lock{mutex_, std::try_to_lock};
             if (!lock.owns_lock()) {
                 return std::nullopt;
             }
 
-            return shared_mutex_guard<value_type const>{std::move(lock), value_};
+            return shared_mutex_guard<value_type const, mutex_type>{std::move(lock), value_};
         }
     };
 
-- 
2.43.0


From 7da2e96b4190239e496565867fd49c3935bcea1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:30 +0000
Subject: [PATCH 04/50] fix: mutex_guard, shared_mutex_guard: make swap
 instantiable

It took its arguments by reference to const, so that it could never swap their members.
---
 include/dice/template-library/mutex.hpp        | 2 +-
 include/dice/template-library/shared_mutex.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/mutex.hpp b/include/dice/template-library/mutex.hpp
index 6b3cc7b..22c7498 100644
--- a/include/dice/template-library/mutex.hpp
+++ b/include/dice/template-library/mutex.hpp
@@ -54,7 +54,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(mutex_guard const &lhs, mutex_guard const &rhs) noexcept {
+        friend void swap(mutex_guard &lhs, mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
diff --git a/include/dice/template-library/shared_mutex.hpp b/include/dice/template-library/shared_mutex.hpp
index 414dab0..1be577f 100644
--- a/include/dice/template-library/shared_mutex.hpp
+++ b/include/dice/template-library/shared_mutex.hpp
@@ -56,7 +56,7 @@ namespace dice::template_library {
             return *value_ptr_;
         }
 
-        friend void swap(shared_mutex_guard const &lhs, shared_mutex_guard const &rhs) noexcept {
+        friend void swap(shared_mutex_guard &lhs, shared_mutex_guard &rhs) noexcept {
             using std::swap;
             swap(lhs.value_ptr_, rhs.value_ptr_);
             swap(lhs.lock_, rhs.lock_);
-- 
2.43.0


From 646bb7f086efd29c3a533b3303d5c88952cb6e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 05/50] fix: limit_allocator: leave moved-from allocators
 usable

Moving took the control block out of the source, so that the next allocation through it
(e.g. by a moved-from container) dereferenced a null pointer.
---
 include/dice/template-library/limit_allocator.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index e836280..7459364 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -109,9 +109,16 @@ namespace dice::template_library {
         }
 
 		constexpr limit_allocator(limit_allocator const &other) noexcept(std::is_nothrow_move_constructible_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator(limit_allocator &&other) noexcept(std::is_nothrow_copy_constructible_v<upstream_allocator_type>)
+			: control_block_{other.control_block_}, // not moved: a moved-from allocator must be unchanged
+			  inner_{std::move(other.inner_)} {
+		}
 		constexpr limit_allocator &operator=(limit_allocator const &other) noexcept(std::is_nothrow_copy_assignable_v<upstream_allocator_type>) = default;
-		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) = default;
+		constexpr limit_allocator &operator=(limit_allocator &&other) noexcept(std::is_nothrow_move_assignable_v<upstream_allocator_type>) {
+			control_block_ = other.control_block_; // not moved: a moved-from allocator must be unchanged
+			inner_ = std::move(other.inner_);
+			return *this;
+		}
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-- 
2.43.0


From dd1954110caa3922d1f65789859df4fa86e438c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 06/50] fix: limit_allocator: make unsynchronized allocators
 rebindable

The converting constructor only accepted allocators of the default syncness.
---
 include/dice/template-library/limit_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 7459364..514fbf2 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -122,7 +122,7 @@ namespace dice::template_library {
 		constexpr ~limit_allocator() = default;
 
 		template<typename U>
-		constexpr limit_allocator(limit_allocator<U, Allocator> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator>::upstream_allocator_type const &>)
+		constexpr limit_allocator(limit_allocator<U, Allocator, syncness> const &other) noexcept(std::is_nothrow_constructible_v<upstream_allocator_type, typename limit_allocator<U, Allocator, syncness>::upstream_allocator_type const &>)
 			: control_block_{other.control_block_},
 			  inner_{other.inner_} {
 		}
-- 
2.43.0


From e68b1e12b7758654bb3f9925eca91c41482eb0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 07/50] fix: limit_allocator: copy containers with upstream
 allocators that are not default constructible

---
 include/dice/template-library/limit_allocator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/dice/template-library/limit_allocator.hpp b/include/dice/template-library/limit_allocator.hpp
index 514fbf2..f9036cc 100644
--- a/include/dice/template-library/limit_allocator.hpp
+++ b/include/dice/template-library/limit_allocator.hpp
@@ -96,7 +96,6 @@ namespace dice::template_library {
 		[[no_unique_address]] upstream_allocator_type inner_;
 
 		constexpr limit_allocator(std::shared_ptr<control_block_type> const &control_block, upstream_allocator_type const &alloc)
-                requires (std::is_default_constructible_v<upstream_allocator_type>)
             : control_block_{control_block},
               inner_{alloc} {
         }
-- 
2.43.0


From 11ef14f542ba242999e84f1ddb53724602b4bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 08/50] fix: pool_allocator: leave moved-from allocators usable

Moving took the pool out of the source, so that the next allocation or deallocation
through it (e.g. by a moved-from container) dereferenced a null pointer.
---
 include/dice/template-library/pool_allocator.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 65afc3f..226639f 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -160,10 +160,9 @@ namespace dice::template_library {
 			: pool_{std::move(underlying_pool)} {
 		}
 
+		// note: no move operations; a moved-from allocator must be unchanged
 		pool_allocator(pool_allocator const &other) noexcept = default;
-		pool_allocator(pool_allocator &&other) noexcept = default;
 		pool_allocator &operator=(pool_allocator const &other) noexcept = default;
-		pool_allocator &operator=(pool_allocator &&other) noexcept = default;
 		~pool_allocator() noexcept = default;
 
 		template<typename U>
-- 
2.43.0


From 3aba4886758b84b1556225eec8f14936ac04fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 09/50] fix: pool_allocator: reject requests whose size in
 bytes is not representable

sizeof(T) * n wrapped around and a much too small block was handed out.
---
 include/dice/template-library/pool_allocator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 226639f..83cfbed 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -6,8 +6,10 @@
 #include <algorithm>
 #include <array>
 #include <cstddef>
+#include <limits>
 #include <type_traits>
 #include <memory>
+#include <new>
 
 namespace dice::template_library {
 
@@ -175,6 +177,10 @@ namespace dice::template_library {
 		}
 
 		pointer allocate(size_t n) {
+			if (n > std::numeric_limits<size_t>::max() / sizeof(T)) [[unlikely]] {
+				throw std::bad_array_new_length{};
+			}
+
 			return static_cast<pointer>(pool_->allocate(sizeof(T) * n));
 		}
 
-- 
2.43.0


From d980f94ec030464d8289afe53d9d4aff339f4a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:07 +0000
Subject: [PATCH 10/50] fix: pool: align every element for the objects that fit
 into its bucket

With bucket sizes that are no multiple of the strictest fundamental alignment, every other
element was misaligned for types like long double.
---
 include/dice/template-library/pool_allocator.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/pool_allocator.hpp b/include/dice/template-library/pool_allocator.hpp
index 83cfbed..3e712b1 100644
--- a/include/dice/template-library/pool_allocator.hpp
+++ b/include/dice/template-library/pool_allocator.hpp
@@ -81,8 +81,18 @@ namespace dice::template_library {
 			}
 		}
 
+		/**
+		 * Element size to use for the arena of a bucket.
+		 * Every element must be aligned for all objects that fit into the bucket; buckets that can
+		 * hold objects with the strictest fundamental alignment need elements with a multiple of that size.
+		 */
+		static constexpr size_t element_size(size_t bucket_size) noexcept {
+			constexpr size_t align = alignof(std::max_align_t);
+			return bucket_size < align ? bucket_size : (bucket_size + align - 1) / align * align;
+		}
+
 	public:
-		pool() : pools_{pool_type{bucket_sizes}...} {
+		pool() : pools_{pool_type{element_size(bucket_sizes)}...} {
 		}
 
 		// underlying implementation does not support copying/moving
-- 
2.43.0


From 3bc720cfd0a437e33cf3daec37d53719a62b944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 11/50] fix: static_string: copy all bytes of wide characters

---
 include/dice/template-library/static_string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c05fa48..c1d0c11 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -49,7 +49,7 @@ namespace dice::template_library {
 
             if (size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_);
+                std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
             } else {
                 data_ = nullptr;
             }
@@ -69,7 +69,7 @@ namespace dice::template_library {
             }
 
             data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
-            std::memcpy(std::to_address(data_), sv.data(), size_);
+            std::memcpy(std::to_address(data_), sv.data(), size_ * sizeof(value_type));
         }
 
         basic_static_string(basic_static_string const &other) : basic_static_string{static_cast<view_type>(other), other.alloc_} {
-- 
2.43.0


From 6c53db27b3f22c40d25b904d5620500dadf4d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:27 +0000
Subject: [PATCH 12/50] fix: static_string: stay valid if the allocation in an
 assignment fails

---
 include/dice/template-library/static_string.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index c1d0c11..8f608c2 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -43,15 +43,14 @@ namespace dice::template_library {
         void copy_assign_from_other(basic_static_string const &other) {
             if (size_ != 0) {
                 std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
+                data_ = nullptr;
+                size_ = 0;
             }
 
-            size_ = other.size_;
-
-            if (size_ != 0) {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, size_);
+            if (other.size_ != 0) {
+                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, other.size_);
+                size_ = other.size_;
                 std::memcpy(std::to_address(data_), std::to_address(other.data_), size_ * sizeof(value_type));
-            } else {
-                data_ = nullptr;
             }
         }
 
-- 
2.43.0


From c4f23ac2236b412150ec0053a2dd7c61d80c4cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:04 +0000
Subject: [PATCH 13/50] fix: static_string: free the old data with the old
 allocator in copy assignment

---
 include/dice/template-library/static_string.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/static_string.hpp b/include/dice/template-library/static_string.hpp
index 8f608c2..4081e59 100644
--- a/include/dice/template-library/static_string.hpp
+++ b/include/dice/template-library/static_string.hpp
@@ -40,12 +40,16 @@ namespace dice::template_library {
             swap(a.size_, b.size_);
         }
 
-        void copy_assign_from_other(basic_static_string const &other) {
+        void release() noexcept {
             if (size_ != 0) {
                 std::allocator_traits<allocator_type>::deallocate(alloc_, data_, size_);
                 data_ = nullptr;
                 size_ = 0;
             }
+        }
+
+        void copy_assign_from_other(basic_static_string const &other) {
+            release();
 
             if (other.size_ != 0) {
                 data_ = std::allocator_traits<allocator_type>::allocate(alloc_, other.size_);
@@ -80,6 +84,7 @@ namespace dice::template_library {
             }
 
             if constexpr (std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) {
+                release(); // the old allocator has to free the old data
                 alloc_ = other.alloc_;
             }
 
-- 
2.43.0


From 981ce12ba3754096e0a2a7f429b210028ce5a447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:32 +0000
Subject: [PATCH 14/50] fix: flex_array: accept every input iterator and
 sentinel

---
 include/dice/template-library/flex_array.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/dice/template-library/flex_array.hpp b/include/dice/template-library/flex_array.hpp
index e7ebfcd..20f815d 100644
--- a/include/dice/template-library/flex_array.hpp
+++ b/include/dice/template-library/flex_array.hpp
@@ -5,6 +5,7 @@
 #include <array>
 #include <cassert>
 #include <concepts>
+#include <iterator>
 #include <span>
 #include <stdexcept>
 #include <vector>
@@ -319,7 +320,7 @@ namespace dice::template_library {
 		template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
 		constexpr flex_array(Iter first, Sent last) {
 			if constexpr (has_max_extent && std::random_access_iterator<Iter>) {
-				auto const range_size = std::distance(first, last);
+				auto const range_size = std::ranges::distance(first, last);
 				if (static_cast<size_t>(range_size) > max_size()) [[unlikely]] {
 					throw std::length_error{"flex_array::flex_array: maximum size exceeded"};
 				}
@@ -334,10 +335,12 @@ namespace dice::template_library {
 						}
 					}
 
-					inner_.data_[ix++] = *first++;
+					inner_.data_[ix++] = *first;
 				} else {
-					inner_.data_.push_back(*first++);
+					inner_.data_.push_back(*first);
 				}
+
+				++first;
 			}
 
 			if constexpr (extent == dynamic_extent && max_extent != dynamic_extent) {
-- 
2.43.0


From 6698f8820ba4104ba21161717bff67a06d57b340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 15/50] fix: variant2: destroy and construct alternatives that
 are only trivially assignable

---
 include/dice/template-library/variant2.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9f672f8..9e4cb95 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -83,6 +83,17 @@ namespace dice::template_library {
         template<typename From, typename To>
         using copy_cvref_t = typename copy_reference<From, typename copy_const<std::remove_reference_t<From>, To>::type>::type;
 
+        // assigning a variant may also need to destroy the previous and construct the new alternative
+        template<typename X>
+        inline constexpr bool trivially_copy_assignable = std::is_trivially_copy_assignable_v<X>
+                                                          && std::is_trivially_copy_constructible_v<X>
+                                                          && std::is_trivially_destructible_v<X>;
+
+        template<typename X>
+        inline constexpr bool trivially_move_assignable = std::is_trivially_move_assignable_v<X>
+                                                          && std::is_trivially_move_constructible_v<X>
+                                                          && std::is_trivially_destructible_v<X>;
+
         template<typename ...Ts>
         struct select_variant {
             using type = std::variant<Ts...>;
@@ -327,14 +338,14 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 const &other) noexcept
-            requires (std::is_trivially_copy_assignable_v<T> && std::is_trivially_copy_assignable_v<U>)
+            requires (detail_variant2::trivially_copy_assignable<T> && detail_variant2::trivially_copy_assignable<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 const &other) noexcept(std::is_nothrow_copy_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                                   && std::is_nothrow_copy_constructible_v<T> && std::is_nothrow_copy_assignable_v<U>
                                                   && std::is_nothrow_destructible_v<U> && std::is_nothrow_copy_constructible_v<U>)
-            requires (!std::is_trivially_copy_assignable_v<T> || !std::is_trivially_copy_assignable_v<U>)
+            requires (!detail_variant2::trivially_copy_assignable<T> || !detail_variant2::trivially_copy_assignable<U>)
         {
             if (this == &other) [[unlikely]] {
                 return *this;
@@ -418,14 +429,14 @@ namespace dice::template_library {
         }
 
         constexpr variant2 &operator=(variant2 &&other) noexcept
-            requires (std::is_trivially_move_assignable_v<T> && std::is_trivially_move_assignable_v<U>)
+            requires (detail_variant2::trivially_move_assignable<T> && detail_variant2::trivially_move_assignable<U>)
             = default;
 
         constexpr variant2 &
         operator=(variant2 &&other) noexcept(std::is_nothrow_move_assignable_v<T> && std::is_nothrow_destructible_v<T>
                                              && std::is_nothrow_move_constructible_v<T> && std::is_nothrow_move_assignable_v<U>
                                              && std::is_nothrow_destructible_v<U> && std::is_nothrow_move_constructible_v<U>)
-            requires (!std::is_trivially_move_assignable_v<T> || !std::is_trivially_move_assignable_v<U>)
+            requires (!detail_variant2::trivially_move_assignable<T> || !detail_variant2::trivially_move_assignable<U>)
         {
             assert(this != &other);
 
-- 
2.43.0


From 9133f49ff06f167bb4de5ea81f9b037d510d0c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 16/50] fix: variant2: make swapping a variant with itself a
 noop

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 9e4cb95..0049830 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -727,6 +727,10 @@ namespace dice::template_library {
         }
 
         friend constexpr void swap(variant2 &lhs, variant2 &rhs) noexcept(std::is_nothrow_move_assignable_v<variant2>) {
+            if (&lhs == &rhs) [[unlikely]] {
+                return;
+            }
+
             variant2 tmp = std::move(lhs);
             lhs = std::move(rhs);
             rhs = std::move(tmp);
-- 
2.43.0


From b56401f2873ae5bfc7afc42dc10b953a52d21be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 17/50] fix: variant2: make valueless variants hashable

---
 include/dice/template-library/variant2.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 0049830..af5fd76 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -41,6 +41,10 @@ namespace std {
     template<typename T, typename U>
     struct hash<::dice::template_library::variant2<T, U>> {
         [[nodiscard]] size_t operator()(::dice::template_library::variant2<T, U> const &var) const noexcept {
+            if (var.valueless_by_exception()) [[unlikely]] {
+                return hash<size_t>{}(variant_npos);
+            }
+
             return visit([]<typename X>(X const &x) noexcept {
                 // this is as far as I can tell what std::variant does
                 if constexpr (std::is_same_v<X, T>) {
-- 
2.43.0


From 56b67161ec4b222073ec6aff7dd346e98b46771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:35 +0000
Subject: [PATCH 18/50] fix: variant2: do not construct alternatives through
 their initializer_list constructors

---
 include/dice/template-library/variant2.hpp | 68 +++++++++++-----------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index af5fd76..08f9696 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -226,11 +226,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{other.a_};
+                    new (&a_) T(other.a_);
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{other.b_};
+                    new (&b_) U(other.b_);
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -253,11 +253,11 @@ namespace dice::template_library {
             : discriminant_{other.discriminant_} {
             switch (discriminant_) {
                 case discriminant_type::First: {
-                    new (&a_) T{std::move(other.a_)};
+                    new (&a_) T(std::move(other.a_));
                     break;
                 }
                 case discriminant_type::Second: {
-                    new (&b_) U{std::move(other.b_)};
+                    new (&b_) U(std::move(other.b_));
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
@@ -273,46 +273,46 @@ namespace dice::template_library {
 
         constexpr variant2(T const &value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{value};
+            new (&a_) T(value);
         }
 
         constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::move(value)};
+            new (&a_) T(std::move(value));
         }
 
         constexpr variant2(U const &value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{value};
+            new (&b_) U(value);
         }
 
         constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::move(value)};
+            new (&b_) U(std::move(value));
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<T>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            new (&a_) T(std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_type_t<U>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            new (&b_) U(std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<0>, Args &&...args) noexcept(std::is_nothrow_constructible_v<T, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::First} {
-            new (&a_) T{std::forward<Args>(args)...};
+            new (&a_) T(std::forward<Args>(args)...);
         }
 
         template<typename ...Args>
         constexpr explicit variant2(std::in_place_index_t<1>, Args &&...args) noexcept(std::is_nothrow_constructible_v<U, decltype(std::forward<Args>(args))...>)
             : discriminant_{discriminant_type::Second} {
-            new (&b_) U{std::forward<Args>(args)...};
+            new (&b_) U(std::forward<Args>(args)...);
         }
 
         constexpr ~variant2() noexcept requires (std::is_trivially_destructible_v<T> && std::is_trivially_destructible_v<U>)
@@ -364,7 +364,7 @@ namespace dice::template_library {
                         }
                         case discriminant_type::Second: {
                             a_.~T();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U{other.b_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, { new (&b_) U(other.b_); });
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -382,7 +382,7 @@ namespace dice::template_library {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
                             b_.~U();
-                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T{other.a_}; });
+                            DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, { new (&a_) T(other.a_); });
                             break;
                         }
                         case discriminant_type::Second: {
@@ -403,11 +403,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{other.a_};
+                            new (&a_) T(other.a_);
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{other.b_};
+                            new (&b_) U(other.b_);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -454,7 +454,7 @@ namespace dice::template_library {
                         case discriminant_type::Second: {
                             a_.~T();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                                new (&b_) U{std::move(other.b_)};
+                                new (&b_) U(std::move(other.b_));
                             });
                             break;
                         }
@@ -474,7 +474,7 @@ namespace dice::template_library {
                         case discriminant_type::First: {
                             b_.~U();
                             DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                                new (&a_) T{std::move(other.a_)};
+                                new (&a_) T(std::move(other.a_));
                             });
                             break;
                         }
@@ -496,11 +496,11 @@ namespace dice::template_library {
                 case discriminant_type::ValuelessByException: {
                     switch (other.discriminant_) {
                         case discriminant_type::First: {
-                            new (&a_) T{std::move(other.a_)};
+                            new (&a_) T(std::move(other.a_));
                             break;
                         }
                         case discriminant_type::Second: {
-                            new (&b_) U{std::move(other.b_)};
+                            new (&b_) U(std::move(other.b_));
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
@@ -537,13 +537,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<T>, {
-                        new (&a_) T{value};
+                        new (&a_) T(value);
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{value};
+                    new (&a_) T(value);
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -568,13 +568,13 @@ namespace dice::template_library {
                 case discriminant_type::Second: {
                     b_.~U();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<T>, {
-                        new (&a_) T{std::move(value)};
+                        new (&a_) T(std::move(value));
                     });
                     discriminant_ = discriminant_type::First;
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&a_) T{std::move(value)};
+                    new (&a_) T(std::move(value));
                     discriminant_ = discriminant_type::First;
                     break;
                 }
@@ -594,7 +594,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_copy_constructible_v<U>, {
-                        new (&b_) U{value};
+                        new (&b_) U(value);
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -604,7 +604,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{value};
+                    new (&b_) U(value);
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -623,7 +623,7 @@ namespace dice::template_library {
                 case discriminant_type::First: {
                     a_.~T();
                     DICE_TEMPLATELIBRARY_DETAIL_VARIANT2_TRY(std::is_nothrow_move_constructible_v<U>, {
-                        new (&b_) U{std::move(value)};
+                        new (&b_) U(std::move(value));
                     });
                     discriminant_ = discriminant_type::Second;
                     break;
@@ -633,7 +633,7 @@ namespace dice::template_library {
                     break;
                 }
                 case discriminant_type::ValuelessByException: {
-                    new (&b_) U{std::move(value)};
+                    new (&b_) U(std::move(value));
                     discriminant_ = discriminant_type::Second;
                     break;
                 }
@@ -668,17 +668,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            new (&a_) T(std::forward<Args>(args)...);
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&a_) T{std::forward<Args>(args)...};
+                            new (&a_) T(std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::First;
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&a_) T{std::forward<Args>(args)...};
+                            new (&a_) T(std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::First;
                             break;
                         }
@@ -693,17 +693,17 @@ namespace dice::template_library {
                     switch (discriminant_) {
                         case discriminant_type::First: {
                             a_.~T();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            new (&b_) U(std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
                         case discriminant_type::Second: {
                             b_.~U();
-                            new (&b_) U{std::forward<Args>(args)...};
+                            new (&b_) U(std::forward<Args>(args)...);
                             break;
                         }
                         case discriminant_type::ValuelessByException: {
-                            new (&b_) U{std::forward<Args>(args)...};
+                            new (&b_) U(std::forward<Args>(args)...);
                             discriminant_ = discriminant_type::Second;
                             break;
                         }
-- 
2.43.0


From 08e68d1f2bfa7b3d8b1c117c7b24e34615d11162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:20 +0000
Subject: [PATCH 19/50] fix: inplace_polymorphic: drop trivially destructible
 values

---
 include/dice/template-library/inplace_polymorphic.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/dice/template-library/inplace_polymorphic.hpp b/include/dice/template-library/inplace_polymorphic.hpp
index d354c6c..57b261b 100644
--- a/include/dice/template-library/inplace_polymorphic.hpp
+++ b/include/dice/template-library/inplace_polymorphic.hpp
@@ -76,13 +76,13 @@ namespace dice::template_library {
 		bool valueless_ = true;
 
 		void drop() noexcept {
-			if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
-				// noop
-			} else {
-				if (!valueless_) {
+			if (!valueless_) {
+				if constexpr ((std::is_trivially_destructible_v<Ts> && ...)) {
+					// noop
+				} else {
 					(**this).~Base();
-					valueless_ = true;
 				}
+				valueless_ = true;
 			}
 		}
 
-- 
2.43.0


From 77ef81b071fd2ffefcf19adbd5d87b7449977496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:08 +0000
Subject: [PATCH 20/50] fix: next_to_view: make crbegin available whenever
 rbegin is

---
 include/dice/template-library/next_to_range.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index 38ed862..f1eb233 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -471,7 +471,7 @@ namespace dice::template_library {
 			return next_back_to_reverse_iter<Iter>{iter_};
 		}
 
-		[[nodiscard]] constexpr auto crbegin() const requires (nth_back_iterator<Iter>) {
+		[[nodiscard]] constexpr auto crbegin() const requires (next_back_iterator<Iter>) {
 			return rbegin();
 		}
 
-- 
2.43.0


From 36160a4074ab831b11fddc0bca1512d1f8749eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:35 +0000
Subject: [PATCH 21/50] fix: next_to_iter: do not skip an element when copying
 a non-const iterator

---
 include/dice/template-library/next_to_range.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/next_to_range.hpp b/include/dice/template-library/next_to_range.hpp
index f1eb233..cb4a47b 100644
--- a/include/dice/template-library/next_to_range.hpp
+++ b/include/dice/template-library/next_to_range.hpp
@@ -131,7 +131,8 @@ namespace dice::template_library {
 		public:
             template<typename... Args>
             explicit constexpr next_to_iter_impl(Args &&...args)
-                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>)
+                    requires (std::is_constructible_v<Iter, decltype(std::forward<Args>(args))...>
+                              && !(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, next_to_iter_impl> && ...))) // leave copying to the copy constructor
                 : Iter{std::forward<Args>(args)...},
                   cur_{next()} {
             }
-- 
2.43.0


From 7e2b856a52f7d984b4ca1319d199337a7a9b73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:20 +0000
Subject: [PATCH 22/50] fix: range: do not overflow past the last value and
 consume exactly the values of the range from the back

---
 include/dice/template-library/ranges.hpp | 68 ++++++++++++------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 1c94625..43ea5ca 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -4,6 +4,7 @@
 #include <dice/template-library/next_to_range.hpp>
 
 #include <algorithm>
+#include <cstdint>
 #include <functional>
 #include <ranges>
 #include <set>
@@ -353,6 +354,25 @@ namespace dice::template_library {
 			T stop_;
 			S step_;
 
+			// all arithmetic on integers is done modulo 2^n, because intermediate results are not necessarily representable as T or S
+
+			// absolute value of the distance between current and stop
+			[[nodiscard]] constexpr std::uintmax_t distance() const noexcept {
+				auto const diff = static_cast<std::uintmax_t>(stop_) - static_cast<std::uintmax_t>(current_);
+				return step_ > S{} ? diff : std::uintmax_t{0} - diff;
+			}
+
+			// absolute value of the step
+			[[nodiscard]] constexpr std::uintmax_t step_size() const noexcept {
+				auto const step = static_cast<std::uintmax_t>(step_);
+				return step_ > S{} ? step : std::uintmax_t{0} - step;
+			}
+
+			// the value that is off steps after current
+			[[nodiscard]] constexpr T at(size_t off) const noexcept {
+				return static_cast<T>(static_cast<std::uintmax_t>(current_) + off * static_cast<std::uintmax_t>(step_));
+			}
+
 		public:
             range_iterator() noexcept
                     requires (std::is_default_constructible_v<T> && std::is_constructible_v<S, int>)
@@ -379,29 +399,23 @@ namespace dice::template_library {
 					}
 				}
 
-				return std::exchange(current_, current_ + step_);
+				if constexpr (std::integral<T> && std::integral<S>) {
+					// the value after the last one is not necessarily representable
+					return std::exchange(current_, distance() <= step_size() ? stop_ : at(1));
+				} else {
+					return std::exchange(current_, current_ + step_);
+				}
 			}
 
             [[nodiscard]] constexpr size_t remaining() const noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (current_ <= stop_) {
-					// forward
-					if (step_ < S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((stop_ - current_ + step_ - 1) / step_);
-				} else {
-					// backward
-					if (step_ > S{}) {
-						// wrong direction
-						return 0;
-					}
-
-					return static_cast<size_t>((current_ - stop_ + -step_ - 1) / -step_);
+				if (step_ > S{} ? current_ >= stop_ : current_ <= stop_) {
+					// exhausted or wrong direction
+					return 0;
 				}
+
+				return static_cast<size_t>((distance() - 1) / step_size() + 1);
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth(size_t off) noexcept
@@ -413,26 +427,14 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				current_ += static_cast<T>(off) * step_;
+				current_ = at(off);
 				return next();
 			}
 
             [[nodiscard]] constexpr std::optional<T> next_back() noexcept
                     requires (std::integral<T> && std::integral<S>)
             {
-				if (step_ > S{}) {
-					if (current_ >= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				} else {
-					if (current_ <= stop_) {
-						return std::nullopt;
-					}
-					stop_ -= step_;
-					return stop_;
-				}
+				return nth_back(0);
 			}
 
             [[nodiscard]] constexpr std::optional<T> nth_back(size_t off) noexcept
@@ -444,8 +446,8 @@ namespace dice::template_library {
 					return std::nullopt;
 				}
 
-				stop_ -= static_cast<T>(off) * step_;
-				return next_back();
+				stop_ = at(rem - 1 - off);
+				return stop_;
 			}
 		};
 	}// namespace ranges_algo_detail
-- 
2.43.0


From 1e93db20f418a1a6c6670aefeaf2c2167a5d68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 23/50] fix: is_sorted_unique: do not access elements of
 single-pass ranges after advancing

---
 include/dice/template-library/ranges.hpp | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 43ea5ca..17214cb 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -545,15 +545,27 @@ namespace dice::template_library {
                 return true;
             }
 
-            auto it = first;
-            while (++it != last) {
-                // We require that 'prev' is strictly less than 'curr'.
-                // cmp(a, b) ~ a < b
-                // <-> !cmp(a, b) ~ a >= b
-                if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
-                    return false;
+            if constexpr (std::forward_iterator<I>) {
+                auto it = first;
+                while (++it != last) {
+                    // We require that 'prev' is strictly less than 'curr'.
+                    // cmp(a, b) ~ a < b
+                    // <-> !cmp(a, b) ~ a >= b
+                    if (!std::invoke(cmp, std::invoke(proj, *first), std::invoke(proj, *it))) {
+                        return false;
+                    }
+                    first = it;
+                }
+            } else {
+                // the previous element is not accessible anymore once the iterator is incremented
+                std::iter_value_t<I> prev(*first);
+                while (++first != last) {
+                    std::iter_value_t<I> curr(*first);
+                    if (!std::invoke(cmp, std::invoke(proj, prev), std::invoke(proj, curr))) {
+                        return false;
+                    }
+                    prev = std::move(curr);
                 }
-                first = it;
             }
             return true;
         }
-- 
2.43.0


From 69669d748e3027fa4bbe9d5be0d2930b5bae2f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 24/50] fix: all_equal: accept iterators that are only movable

---
 include/dice/template-library/ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 17214cb..87dbc93 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -184,7 +184,7 @@ namespace dice::template_library {
             ++first;
 
             // Check if all subsequent elements in the range match the first one.
-            return std::ranges::subrange(first, last)
+            return std::ranges::subrange(std::move(first), std::move(last))
                    | dice::template_library::all_of([&](auto const &current_element) {
                          return std::invoke(pred, current_element, first_element);
                      });
-- 
2.43.0


From 8219b6b3fc371175fe968f162479148e650a0f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 25/50] fix: unique: do not move elements of rvalue ranges away
 before yielding them

---
 include/dice/template-library/ranges.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/ranges.hpp b/include/dice/template-library/ranges.hpp
index 87dbc93..f032d5f 100644
--- a/include/dice/template-library/ranges.hpp
+++ b/include/dice/template-library/ranges.hpp
@@ -263,7 +263,8 @@ namespace dice::template_library {
 
 			void find_next_unique() {
 				while (current_ != end_) {
-					if (seen_.insert(*current_).second) {
+					// never insert an rvalue, the element is yielded after this
+					if (set_value_type const &elem = *current_; seen_.insert(elem).second) {
 						break;
 					}
 					++current_;
-- 
2.43.0


From 479e3e21b40a7e2527376aedd6a73b32bb9fca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:19 +0000
Subject: [PATCH 26/50] fix: ipow: accept character types

---
 include/dice/template-library/ipow.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/ipow.hpp b/include/dice/template-library/ipow.hpp
index bd910d4..f93d097 100644
--- a/include/dice/template-library/ipow.hpp
+++ b/include/dice/template-library/ipow.hpp
@@ -3,6 +3,7 @@
 
 #include <concepts>
 #include <stdexcept>
+#include <type_traits>
 #include <utility>
 
 namespace dice::template_library {
@@ -37,8 +38,10 @@ namespace dice::template_library {
         auto safe_mul = [base, exp](ReturnType a, ReturnType b) -> ReturnType {
             ReturnType out{};
             if (__builtin_mul_overflow(a, b, &out)) {
-                if (std::cmp_less(base, 0) && (exp % 2 != 0)) {
-                    throw std::underflow_error("Integer underflow detected.");
+                if constexpr (std::is_signed_v<ReturnType>) {
+                    if (base < 0 && (exp % 2 != 0)) {
+                        throw std::underflow_error("Integer underflow detected.");
+                    }
                 }
                 throw std::overflow_error("Integer overflow detected.");
             }
-- 
2.43.0


From ab3ec021b469af986e74843d8c5c80dc9da95027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:35 +0000
Subject: [PATCH 27/50] fix: pointer_tag_pair: convert pointers to derived
 types to the stored pointer type

---
 include/dice/template-library/pointer_tag_pair.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/pointer_tag_pair.hpp b/include/dice/template-library/pointer_tag_pair.hpp
index 5bc1ab5..ab15c85 100644
--- a/include/dice/template-library/pointer_tag_pair.hpp
+++ b/include/dice/template-library/pointer_tag_pair.hpp
@@ -46,6 +46,11 @@ namespace dice::template_library {
 
         uintptr_t value_ = 0;
 
+        // takes T * such that pointers to derived types are converted, which possibly changes the address
+        static uintptr_t to_address(T *const pointer) noexcept {
+            return reinterpret_cast<uintptr_t>(pointer);
+        }
+
         explicit constexpr pointer_tag_pair(uintptr_t const value) noexcept
             : value_{value} {
         }
@@ -67,18 +72,18 @@ namespace dice::template_library {
         template<detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>>())
         pointer_tag_pair(P const pointer, Tag const tag) noexcept
-            : pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)} {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            : pointer_tag_pair{to_address(pointer) | static_cast<uintptr_t>(tag)} {
+            assert((to_address(pointer) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
         }
 
         template<unsigned PromisedAlignment, detail_pointer_tag_pair::taggable_pointer<T> P>
         requires (BitsRequested <= detail_pointer_tag_pair::taggable_bits_available<std::remove_pointer_t<P>, PromisedAlignment>())
         [[nodiscard]] static pointer_tag_pair from_overaligned(P const pointer, Tag const tag) noexcept {
-            assert((reinterpret_cast<uintptr_t>(pointer) & tag_mask) == 0);
+            assert((to_address(pointer) & tag_mask) == 0);
             assert(static_cast<uintptr_t>(tag) <= tag_mask);
 
-            return pointer_tag_pair{reinterpret_cast<uintptr_t>(pointer) | static_cast<uintptr_t>(tag)};
+            return pointer_tag_pair{to_address(pointer) | static_cast<uintptr_t>(tag)};
         }
 
         [[nodiscard]] static pointer_tag_pair from_tagged(tagged_pointer_type const pointer) noexcept {
-- 
2.43.0


From 66a4495f370c21e006a1ee239cff4c07305a7a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 28/50] fix: switch_cases: pass constants of the given type to
 all cases

---
 include/dice/template-library/switch_cases.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index dbea69e..1cb3a5d 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -14,7 +14,7 @@ namespace dice::template_library {
 		constexpr decltype(auto) execute_case(decltype(i) value, F &&cases_function) {
 			if constexpr (i < ((max == min) ? max : max - 1)) {
 				if (value != i) {
-					return execute_case<i + 1, max, min>(value, std::forward<F>(cases_function));
+					return execute_case<static_cast<decltype(i)>(i + 1), max, min>(value, std::forward<F>(cases_function));
 				}
 			}
 
-- 
2.43.0


From 2c48f98e577df77896010cc67c107291fd09867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 29/50] fix: switch_cases: do not instantiate the cases
 function for a value outside of the range

---
 include/dice/template-library/switch_cases.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/switch_cases.hpp b/include/dice/template-library/switch_cases.hpp
index 1cb3a5d..d230574 100644
--- a/include/dice/template-library/switch_cases.hpp
+++ b/include/dice/template-library/switch_cases.hpp
@@ -84,7 +84,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(first) condition, F &&cases_function) {
-		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, first>);
+		return switch_cases<first, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(first, last)>);
 	}
 
 	/**
@@ -121,7 +121,7 @@ namespace dice::template_library {
 	 */
 	template<std::integral auto last, typename F>
 	constexpr decltype(auto) switch_cases(decltype(last) condition, F &&cases_function) {
-		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, last>);
+		return switch_cases<decltype(last){}, last>(condition, std::forward<F>(cases_function), detail_switch_cases::unreachable<F, std::min(decltype(last){}, last)>);
 	}
 
 	/**
-- 
2.43.0


From 602bf5c251d2b6d3e6718511eb98863d92f7728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 30/50] fix: for_range: support every range of every integral
 type and pass constants of that type

---
 include/dice/template-library/for.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 4abfdd8..0276f33 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -1,6 +1,8 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FOR_HPP
 #define DICE_TEMPLATE_LIBRARY_FOR_HPP
 
+#include <concepts>
+#include <cstddef>
 #include <functional>
 #include <type_traits>
 #include <utility>
@@ -40,17 +42,18 @@ namespace dice::template_library {
 	template<std::integral auto first, decltype(first) last, typename F>
 	constexpr void for_range(F &&f) {
 		if constexpr (first < last) {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first + xs)...>(std::forward<F>(f));
+			// modulo arithmetic on size_t, because neither the number of elements nor the offsets necessarily fit decltype(first)
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<decltype(first)>(static_cast<size_t>(first) + xs)...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), last - first>{});
+			impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
-			auto const impl = [&f]<auto... xs>(std::integer_sequence<decltype(first), xs...>) {
-				for_values<(first - xs)...>(std::forward<F>(f));
+			auto const impl = [&f]<size_t... xs>(std::index_sequence<xs...>) {
+				for_values<static_cast<decltype(first)>(static_cast<size_t>(first) - xs)...>(std::forward<F>(f));
 			};
 
-			impl(std::make_integer_sequence<decltype(first), first - last>{});
+			impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}
 }// namespace dice::template_library
-- 
2.43.0


From b6572610247b01ceba491c1669da3478bc1cf8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 31/50] fix: make_integer_sequence: support ranges with more
 elements than the largest value of the type

---
 include/dice/template-library/integral_sequence.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/dice/template-library/integral_sequence.hpp b/include/dice/template-library/integral_sequence.hpp
index 6b8fda7..da3a5af 100644
--- a/include/dice/template-library/integral_sequence.hpp
+++ b/include/dice/template-library/integral_sequence.hpp
@@ -28,16 +28,17 @@ namespace dice::template_library {
 			return std::integer_sequence<Int>{};
 		} else if constexpr (first < last) {
 			// Ascending [first, last)
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first + xs)...>{};
+			// modulo arithmetic on size_t, because neither the number of elements nor the offsets necessarily fit Int
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(static_cast<size_t>(first) + xs)...>{};
 			};
-			return impl(std::make_integer_sequence<Int, last - first>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(last) - static_cast<size_t>(first)>{});
 		} else {
 			// Descending (last, first]
-			auto const impl = []<Int... xs>(std::integer_sequence<Int, xs...>) {
-				return std::integer_sequence<Int, (first - xs)...>{};
+			auto const impl = []<size_t... xs>(std::index_sequence<xs...>) {
+				return std::integer_sequence<Int, static_cast<Int>(static_cast<size_t>(first) - xs)...>{};
 			};
-			return impl(std::make_integer_sequence<Int, first - last>{});
+			return impl(std::make_index_sequence<static_cast<size_t>(first) - static_cast<size_t>(last)>{});
 		}
 	}());
 
-- 
2.43.0


From 59fd77967f69a8eb5d52b382fc8cfef6b267fd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 32/50] fix: standard_layout_tuple: make non-const tuples of
 one element copyable

---
 include/dice/template-library/standard_layout_tuple.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index e0a965e..aa3ffba 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -74,7 +74,8 @@ namespace dice::template_library {
 		constexpr standard_layout_tuple() = default;
 
 		template<typename ...Args>
-		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts))
+		explicit constexpr standard_layout_tuple(Args &&...args) requires (sizeof...(Args) == 1 + sizeof...(Ts)
+				&& !(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, standard_layout_tuple> && ...))) // leave copying to the copy constructor
 			: standard_layout_tuple{individual_construct, std::forward<Args>(args)...}
 		{
 		}
-- 
2.43.0


From 446a1b237b57042899c5e599aaf4610d376a68d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 33/50] fix: integral_template_variant: let exceptions of the
 copy constructor pass

---
 include/dice/template-library/integral_template_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/integral_template_variant.hpp b/include/dice/template-library/integral_template_variant.hpp
index fdbe8ee..ae7fe98 100644
--- a/include/dice/template-library/integral_template_variant.hpp
+++ b/include/dice/template-library/integral_template_variant.hpp
@@ -62,7 +62,7 @@ namespace dice::template_library {
 
 	public:
 		constexpr integral_template_variant() noexcept(std::is_nothrow_default_constructible_v<underlying_type>) = default;
-		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_copy_constructible_v<underlying_type>) = default;
+		constexpr integral_template_variant(integral_template_variant const &other) noexcept(std::is_nothrow_copy_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant(integral_template_variant &&other) noexcept(std::is_nothrow_move_constructible_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant const &other) noexcept(std::is_nothrow_copy_assignable_v<underlying_type>) = default;
 		constexpr integral_template_variant &operator=(integral_template_variant &&other) noexcept(std::is_nothrow_move_assignable_v<underlying_type>) = default;
-- 
2.43.0


From e0882c3c92329030c6313b9b07a42c2ed377dc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:01 +0000
Subject: [PATCH 34/50] fix: standard_layout_tuple: reject subtuples that would
 access the wrong elements

---
 .../standard_layout_tuple.hpp                 | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/standard_layout_tuple.hpp b/include/dice/template-library/standard_layout_tuple.hpp
index aa3ffba..459e252 100644
--- a/include/dice/template-library/standard_layout_tuple.hpp
+++ b/include/dice/template-library/standard_layout_tuple.hpp
@@ -70,6 +70,27 @@ namespace dice::template_library {
 		T first;
 		[[no_unique_address]] standard_layout_tuple<Ts...> rest;
 
+		template<typename ...Us>
+		friend struct standard_layout_tuple;
+
+		/**
+		 * Checks that the first count elements are located where they would be located in a tuple of only these elements
+		 */
+		template<size_t count>
+		static consteval bool has_layout_of_prefix() {
+			if constexpr (count <= 1) {
+				return true;
+			} else {
+				struct prefix {
+					T first;
+					[[no_unique_address]] type_list::apply_t<type_list::take_t<type_list::type_list<Ts...>, count - 1>, dice::template_library::standard_layout_tuple> rest;
+				};
+
+				return offsetof(prefix, rest) == offsetof(standard_layout_tuple, rest)
+					   && standard_layout_tuple<Ts...>::template has_layout_of_prefix<count - 1>();
+			}
+		}
+
 	public:
 		constexpr standard_layout_tuple() = default;
 
@@ -134,7 +155,10 @@ namespace dice::template_library {
 				using subtypes = type_list::take_t<types, count>;
 				using new_tuple = type_list::apply_t<subtypes, standard_layout_tuple>;
 
-				// SAFETY: ensured by being a standard layout type
+				static_assert(has_layout_of_prefix<count>(),
+							  "Elements of the subtuple are not located where they would be if the subtuple was a tuple on its own, because of the alignment of a later element.");
+
+				// SAFETY: ensured by being a standard layout type with the same offsets
 				return reinterpret_cast<copy_cvref_t<decltype(std::forward<Self>(self)), new_tuple>>(self);
 			} else {
 				return dice::template_library::forward_like<Self>(self.rest).template subtuple<offset - 1, count>();
-- 
2.43.0


From 110535d4885271f740ee5e8d407d752b8c41d87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 35/50] fix: tuple folds return the accumulator by value

With an lvalue initial value the accumulator type was deduced as a
reference, so the folds returned a dangling reference to a local (const
lvalue) or did not compile (non-const lvalue).
---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 2c01327..5284a8e 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr Acc tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From e173cef7da16fd7bf32082c2e1e34b5ea79e2823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 36/50] fix: let exceptions of the folding function leave tuple
 folds

The folds were unconditionally noexcept, so a throwing function (or an
accumulator whose assignment throws) terminated the program.
---
 include/dice/template-library/tuple_algorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 5284a8e..080f0b2 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -30,13 +30,13 @@ namespace dice::template_library {
 		}
 
 		template<typename Tuple, typename Acc, typename FoldF, size_t... Ixs>
-		constexpr Acc tuple_type_fold_impl(std::index_sequence<Ixs...>, Acc init, FoldF f) noexcept {
+		constexpr Acc tuple_type_fold_impl(std::index_sequence<Ixs...>, Acc init, FoldF f) {
 			((init = f.template operator()<std::tuple_element_t<Ixs, Tuple>>(std::move(init))), ...);
 			return init;
 		}
 
 		template<typename Tuple, typename Acc, typename FoldF, size_t... Ixs>
-		constexpr Acc tuple_fold_impl(std::index_sequence<Ixs...>, Tuple const &tuple, Acc init, FoldF f) noexcept {
+		constexpr Acc tuple_fold_impl(std::index_sequence<Ixs...>, Tuple const &tuple, Acc init, FoldF f) {
 			((init = f(std::move(init), get_impl<Ixs>(tuple))), ...);
 			return init;
 		}
@@ -63,7 +63,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_fold(Tuple const &tuple, Acc &&init, FoldF &&f) {
 		return tuple_algo_detail::tuple_fold_impl(std::make_index_sequence<std::tuple_size_v<std::remove_cvref_t<Tuple>>>{}, tuple, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
@@ -77,7 +77,7 @@ namespace dice::template_library {
 	 * @return the final value of the accumulator
 	 */
 	template<typename Tuple, typename Acc, typename FoldF>
-	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) noexcept {
+	constexpr std::remove_cvref_t<Acc> tuple_type_fold(Acc &&init, FoldF &&f) {
 		return tuple_algo_detail::tuple_type_fold_impl<Tuple>(std::make_index_sequence<std::tuple_size_v<Tuple>>{}, std::forward<Acc>(init), std::forward<FoldF>(f));
 	}
 
-- 
2.43.0


From 155ccfa0566337a1c6d2c5890350169c6378f910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 37/50] fix: make tuple_fold and tuple_for_each usable in
 constant expressions

Both are declared constexpr, but the element access they are built on was
not, so they could never be evaluated at compile time.
---
 include/dice/template-library/tuple_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/tuple_algorithm.hpp b/include/dice/template-library/tuple_algorithm.hpp
index 080f0b2..2240412 100644
--- a/include/dice/template-library/tuple_algorithm.hpp
+++ b/include/dice/template-library/tuple_algorithm.hpp
@@ -20,12 +20,12 @@ namespace dice::template_library {
 		};
 
 		template<size_t ix, typename Tuple> requires (adl_get<Tuple, ix> && !member_get<Tuple, ix>)
-		[[nodiscard]] decltype(auto) get_impl(Tuple &&tuple) noexcept {
+		[[nodiscard]] constexpr decltype(auto) get_impl(Tuple &&tuple) noexcept {
 			return get<ix>(std::forward<Tuple>(tuple));
 		}
 
 		template<size_t ix, typename Tuple> requires (member_get<Tuple, ix>)
-		[[nodiscard]] decltype(auto) get_impl(Tuple &&tuple) noexcept {
+		[[nodiscard]] constexpr decltype(auto) get_impl(Tuple &&tuple) noexcept {
 			return std::forward<Tuple>(tuple).template get<ix>();
 		}
 
-- 
2.43.0


From df5e346eefc70ad72eea9826af10aab5436b033e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:03 +0000
Subject: [PATCH 38/50] fix: lazy_switch does not instantiate the providers of
 cases it skips

The constraint on the provider instantiated it to look for ::type even
when its condition was false, so a provider that is ill-formed for the
given arguments broke the selection of a later case or the default.
---
 include/dice/template-library/lazy_conditional.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/lazy_conditional.hpp b/include/dice/template-library/lazy_conditional.hpp
index 6da706a..ae1b3f3 100644
--- a/include/dice/template-library/lazy_conditional.hpp
+++ b/include/dice/template-library/lazy_conditional.hpp
@@ -139,7 +139,8 @@ namespace dice::template_library {
 	};
 
 	// Recursive case: check first case, recurse if false
-	template<typename DefaultProvider, bool Cond, type_provider Provider, lazy_case... Rest>
+	template<typename DefaultProvider, bool Cond, typename Provider, lazy_case... Rest>
+		requires (!Cond || type_provider<Provider>)
 	struct lazy_switch_default<DefaultProvider, case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
@@ -164,7 +165,8 @@ namespace dice::template_library {
 	struct lazy_switch;
 
 	// Recursive case: check first case, recurse if false
-	template<bool Cond, type_provider Provider, lazy_case... Rest>
+	template<bool Cond, typename Provider, lazy_case... Rest>
+		requires (!Cond || type_provider<Provider>)
 	struct lazy_switch<case_<Cond, Provider>, Rest...> {
 		using type = lazy_conditional_t<
 				Cond,
-- 
2.43.0


From 98168358625356d34ff0dbdca5fe78ddb7a3208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:21 +0000
Subject: [PATCH 39/50] fix: is_strict_invocable_r tests the call with the
 given value categories

It passed the function and all arguments as lvalues, so it disagreed with
std::is_invocable_r, which it mirrors: callables taking rvalues or
move-only values were rejected and ones taking lvalues accepted.
---
 include/dice/template-library/type_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index f8ed65a..5a1582e 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -154,8 +154,8 @@ namespace dice::template_library {
 
 	template<typename R, typename F, typename ...Args>
 	struct is_strict_invocable_r {
-	    static constexpr bool value = requires (F func, Args ...args) {
-	    	{ std::invoke(func, args...) } -> std::same_as<R>;
+	    static constexpr bool value = requires {
+	    	{ std::invoke(std::declval<F>(), std::declval<Args>()...) } -> std::same_as<R>;
 	    };
 	};
 
-- 
2.43.0


From 7918dd03b5516553ca72b4584e0b105c426393ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:23 +0000
Subject: [PATCH 40/50] fix: DICE_MOVE_IF_VALUE compiles for const rvalue
 references

The documented result is the unchanged reference, but the macro tried to
bind it to an lvalue.
---
 include/dice/template-library/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/type_traits.hpp b/include/dice/template-library/type_traits.hpp
index 5a1582e..e0fc027 100644
--- a/include/dice/template-library/type_traits.hpp
+++ b/include/dice/template-library/type_traits.hpp
@@ -211,7 +211,7 @@ namespace dice::template_library {
     [&]<bool _dice_detail_no_move = std::is_lvalue_reference_v<decltype(expr)> || std::is_const_v<std::remove_reference_t<decltype(expr)>>>() \
             -> std::conditional_t<_dice_detail_no_move, decltype(expr), std::add_rvalue_reference_t<std::remove_cvref_t<decltype(expr)>>> {   \
         if constexpr (_dice_detail_no_move) {                                                                                                 \
-            return expr;                                                                                                                      \
+            return static_cast<decltype(expr)>(expr);                                                                                         \
         } else {                                                                                                                              \
             return std::move(expr);                                                                                                           \
         }                                                                                                                                     \
-- 
2.43.0


From f651595800bb2945e28cddca5a0ecb3cd1a9918f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:13 +0000
Subject: [PATCH 41/50] fix: fmt_join accepts std::string and std::string_view
 separators

std::ranges::copy returns a pair of iterators, so every separator that is a
range failed to compile; string literals only worked because libstdc++'s
internal output iterator happens to be assignable from them (testing
std::formattable or streaming such a joiner was an error).
---
 include/dice/template-library/fmt_join.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6d79999..6695f65 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -1,9 +1,12 @@
 #ifndef DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 #define DICE_TEMPLATE_LIBRARY_FMT_JOIN_HPP
 
+#include <algorithm>
 #include <format>
 #include <iterator>
 #include <ranges>
+#include <string_view>
+#include <type_traits>
 #include <vector>
 
 namespace dice::template_library {
@@ -67,8 +70,11 @@ namespace std {
 
 			while (it != end) {
 				// format separator
-				if constexpr (std::ranges::range<Sep const &>) {
-					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()));
+				if constexpr (std::is_convertible_v<Sep const &, std::basic_string_view<CharT>>) {
+					std::basic_string_view<CharT> const separator = join_obj.separator;
+					format_ctx.advance_to(std::ranges::copy(separator, format_ctx.out()).out);
+				} else if constexpr (std::ranges::range<Sep const &>) {
+					format_ctx.advance_to(std::ranges::copy(join_obj.separator, format_ctx.out()).out);
 				} else {
 					// otherwise single character
 					*format_ctx.out()++ = join_obj.separator;
-- 
2.43.0


From 371132d5ae4204e0f6e45cd2dd57227f4e547447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:15 +0000
Subject: [PATCH 42/50] fix: fmt_join formats ranges that are only iterable
 when non-const

fmt_join accepts every input range, but formatting one such as
std::views::filter or std::views::istream did not compile because the
joiner was always formatted as const.
---
 include/dice/template-library/fmt_join.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/fmt_join.hpp b/include/dice/template-library/fmt_join.hpp
index 6695f65..e50dd9a 100644
--- a/include/dice/template-library/fmt_join.hpp
+++ b/include/dice/template-library/fmt_join.hpp
@@ -55,7 +55,21 @@ namespace std {
 			return element_formatter_.parse(parse_ctx);
 		}
 
-		auto format(dice::template_library::fmt_join_algo_detail::joiner<R, Sep> const &join_obj, auto &format_ctx) const {
+		auto format(dice::template_library::fmt_join_algo_detail::joiner<R, Sep> const &join_obj, auto &format_ctx) const
+			requires (std::ranges::input_range<R const>)
+		{
+			return format_impl(join_obj, format_ctx);
+		}
+
+		// for ranges that can only be iterated when they are not const, e.g. std::views::filter
+		auto format(dice::template_library::fmt_join_algo_detail::joiner<R, Sep> &join_obj, auto &format_ctx) const
+			requires (!std::ranges::input_range<R const>)
+		{
+			return format_impl(join_obj, format_ctx);
+		}
+
+	private:
+		auto format_impl(auto &join_obj, auto &format_ctx) const {
 			auto it = std::ranges::begin(join_obj.range);
 			auto const end = std::ranges::end(join_obj.range);
 
-- 
2.43.0


From 196be99b15c0098ca544ee1821c0005cba5a1cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:23 +0000
Subject: [PATCH 43/50] fix: formatter-based operator<< compiles for wide
 streams

The format string was always narrow, so streaming to a wide stream failed
to compile although the operator is enabled for it.
---
 include/dice/template-library/format_to_ostream.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 01e6e98..8153bab 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,7 +47,11 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    if constexpr (std::is_same_v<Char, wchar_t>) {
+        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, L"{}", value);
+    } else {
+        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    }
     return stream;
 }
 
-- 
2.43.0


From b115f4d0c8f4ea4eab6b93b9ff47d902d24b62cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:45 +0000
Subject: [PATCH 44/50] fix: formatter-based operator<< honours and updates the
 stream state

It wrote to the buffer of streams that had already failed, did not flush
tied streams, and left the stream good when the buffer rejected the text.
---
 .../dice/template-library/format_to_ostream.hpp  | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/dice/template-library/format_to_ostream.hpp b/include/dice/template-library/format_to_ostream.hpp
index 8153bab..c1d61d3 100644
--- a/include/dice/template-library/format_to_ostream.hpp
+++ b/include/dice/template-library/format_to_ostream.hpp
@@ -47,10 +47,18 @@ namespace dice::template_library {
  */
 template<typename T, typename Char = char, typename CharTraits = std::char_traits<char>, typename = std::enable_if_t<std::formattable<T, Char> && !dice::template_library::is_ostreamable_v<T, Char, CharTraits>>>
 std::basic_ostream<Char, CharTraits> &operator<<(std::basic_ostream<Char, CharTraits> &stream, T const &value) {
-    if constexpr (std::is_same_v<Char, wchar_t>) {
-        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, L"{}", value);
-    } else {
-        std::format_to(std::ostreambuf_iterator<Char, CharTraits>{stream}, "{}", value);
+    typename std::basic_ostream<Char, CharTraits>::sentry const sentry{stream};
+    if (sentry) {
+        std::ostreambuf_iterator<Char, CharTraits> out{stream};
+        if constexpr (std::is_same_v<Char, wchar_t>) {
+            out = std::format_to(out, L"{}", value);
+        } else {
+            out = std::format_to(out, "{}", value);
+        }
+
+        if (out.failed()) {
+            stream.setstate(std::ios_base::badbit);
+        }
     }
     return stream;
 }
-- 
2.43.0


From 0cfe2fea8a10eb1093e2b18f0d77d4258609bb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:39 +0000
Subject: [PATCH 45/50] fix: noexcept of bind_front matches the call it makes

The function object is a template parameter and is therefore called as a
const lvalue, but noexcept was computed for a non-const rvalue, so a
throwing const call operator could terminate the program.
---
 include/dice/template-library/functional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/functional.hpp b/include/dice/template-library/functional.hpp
index 1d99339..07f0f40 100644
--- a/include/dice/template-library/functional.hpp
+++ b/include/dice/template-library/functional.hpp
@@ -36,7 +36,7 @@ namespace dice::template_library {
 		using func_t = decltype(func);
 
 		return [...bound_args(std::forward<BindArgs>(bind_args))]<typename Self, typename ...RestArgs>([[maybe_unused]] this Self &&self, RestArgs &&...rest_args)
-				noexcept(std::is_nothrow_invocable_v<func_t, detail_bind_front::type_forward_like_t<Self, std::decay_t<BindArgs>>..., decltype(std::forward<RestArgs>(rest_args))...>) -> decltype(auto) {
+				noexcept(std::is_nothrow_invocable_v<func_t const &, detail_bind_front::type_forward_like_t<Self, std::decay_t<BindArgs>>..., decltype(std::forward<RestArgs>(rest_args))...>) -> decltype(auto) {
 			return std::invoke(func, dice::template_library::forward_like<Self>(bound_args)..., std::forward<RestArgs>(rest_args)...);
 		};
 	}
-- 
2.43.0


From 02940ceb589cead720a6695957e202111ed3fdf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 46/50] fix: sandbox flushes the wide standard streams

---
 include/dice/template-library/sandbox.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/dice/template-library/sandbox.hpp b/include/dice/template-library/sandbox.hpp
index 4cd4866..f056410 100644
--- a/include/dice/template-library/sandbox.hpp
+++ b/include/dice/template-library/sandbox.hpp
@@ -65,6 +65,8 @@ namespace dice::template_library {
             // was ever called they have their own buffers
             std::cout.flush();
             std::cerr.flush();
+            std::wcout.flush();
+            std::wcerr.flush();
 
             fflush(nullptr);
 
-- 
2.43.0


From 4c36f304a01f321ab6012d6bbc89cc23c0bde52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:31 +0000
Subject: [PATCH 47/50] fix: variant2 value constructors declare noexcept by
 the move they make

---
 include/dice/template-library/variant2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dice/template-library/variant2.hpp b/include/dice/template-library/variant2.hpp
index 08f9696..d1c4393 100644
--- a/include/dice/template-library/variant2.hpp
+++ b/include/dice/template-library/variant2.hpp
@@ -276,7 +276,7 @@ namespace dice::template_library {
             new (&a_) T(value);
         }
 
-        constexpr variant2(T &&value) noexcept(std::is_nothrow_copy_constructible_v<T>)
+        constexpr variant2(T &&value) noexcept(std::is_nothrow_move_constructible_v<T>)
             : discriminant_{discriminant_type::First} {
             new (&a_) T(std::move(value));
         }
@@ -286,7 +286,7 @@ namespace dice::template_library {
             new (&b_) U(value);
         }
 
-        constexpr variant2(U &&value) noexcept(std::is_nothrow_copy_constructible_v<U>)
+        constexpr variant2(U &&value) noexcept(std::is_nothrow_move_constructible_v<U>)
             : discriminant_{discriminant_type::Second} {
             new (&b_) U(std::move(value));
         }
-- 
2.43.0


From 2517fc9699ad5c01ed9d12956807f05aac6535f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:31 +0000
Subject: [PATCH 48/50] fix: channel iterator lets exceptions of the element
 type pass

---
 include/dice/template-library/channel.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/channel.hpp b/include/dice/template-library/channel.hpp
index a2322d2..2c5d283 100644
--- a/include/dice/template-library/channel.hpp
+++ b/include/dice/template-library/channel.hpp
@@ -241,12 +241,12 @@ namespace dice::template_library {
             channel_type *chan_;
             mutable std::optional<value_type> buf_; ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
         public:
-            explicit iterator(channel_type *chan) noexcept : chan_{chan} {
+            explicit iterator(channel_type *chan) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) : chan_{chan} {
                 advance();
             }
 
@@ -255,7 +255,7 @@ namespace dice::template_library {
                   buf_{other.buf_} {
             }
 
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
+            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_constructible_v<value_type> && std::is_nothrow_copy_assignable_v<value_type>) {
                 if (this == &other) {
                     return *this;
                 }
@@ -270,7 +270,7 @@ namespace dice::template_library {
                   buf_{std::move(other.buf_)} {
             }
 
-            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<value_type>) {
+            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_swappable_v<value_type>) {
                 assert(this != &other);
                 std::swap(chan_, other.chan_);
                 std::swap(buf_, other.buf_);
@@ -293,12 +293,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
             }
 
@@ -313,7 +313,7 @@ namespace dice::template_library {
          * @return an iterator over all present and future elements of this channel
          * @note iterator == end() is true once the channel is closed
          */
-        [[nodiscard]] iterator begin() noexcept {
+        [[nodiscard]] iterator begin() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
             return iterator{this};
         }
 
-- 
2.43.0


From ffdab15fc44ea78714919b332fee59ebc94c7020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:31 +0000
Subject: [PATCH 49/50] fix: exchange_channel iterator lets exceptions of the
 element type pass

---
 include/dice/template-library/exchange_channel.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/dice/template-library/exchange_channel.hpp b/include/dice/template-library/exchange_channel.hpp
index 9a0b277..ef29ae5 100644
--- a/include/dice/template-library/exchange_channel.hpp
+++ b/include/dice/template-library/exchange_channel.hpp
@@ -176,12 +176,12 @@ namespace dice::template_library {
             exchange_channel *chan_;
             mutable std::optional<value_type> buf_;  ///< this has to be mutable for this iterator to fullfill std::input_iterator
 
-            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void advance() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 buf_ = chan_->pop();
             }
 
         public:
-            explicit iterator(channel_type *chan) noexcept(std::is_nothrow_move_constructible_v<value_type>)
+            explicit iterator(channel_type *chan) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>)
                 : chan_{chan} {
                 advance();
             }
@@ -191,7 +191,7 @@ namespace dice::template_library {
                   buf_{other.buf_} {
             }
 
-            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_assignable_v<value_type>) {
+            iterator &operator=(iterator const &other) noexcept(std::is_nothrow_copy_constructible_v<value_type> && std::is_nothrow_copy_assignable_v<value_type>) {
                 if (this == &other) {
                     return *this;
                 }
@@ -206,7 +206,7 @@ namespace dice::template_library {
                   buf_{std::move(other.buf_)} {
             }
 
-            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_swappable_v<value_type>) {
+            iterator &operator=(iterator &&other) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_swappable_v<value_type>) {
                 assert(this != &other);
                 std::swap(chan_, other.chan_);
                 std::swap(buf_, other.buf_);
@@ -231,12 +231,12 @@ namespace dice::template_library {
                 return &*buf_;
             }
 
-            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            iterator &operator++() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
                 return *this;
             }
 
-            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+            void operator++(int) noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
                 advance();
             }
 
@@ -251,7 +251,7 @@ namespace dice::template_library {
          * @return an iterator over all present and future elements of this channel
          * @note iterator == end() is true once the channel is closed
          */
-        [[nodiscard]] iterator begin() noexcept(std::is_nothrow_move_constructible_v<value_type>) {
+        [[nodiscard]] iterator begin() noexcept(std::is_nothrow_move_constructible_v<value_type> && std::is_nothrow_move_assignable_v<value_type>) {
             return iterator{this};
         }
 
-- 
2.43.0


From 7a85b008f18233806720af4c1f867a309ba9ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:42 +0000
Subject: [PATCH 50/50] fix: for_values declares noexcept by the call it makes

---
 include/dice/template-library/for.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dice/template-library/for.hpp b/include/dice/template-library/for.hpp
index 0276f33..4850f09 100644
--- a/include/dice/template-library/for.hpp
+++ b/include/dice/template-library/for.hpp
@@ -26,7 +26,7 @@ namespace dice::template_library {
 	 * @param f The lambda
 	 */
 	template<auto ...xs, typename F>
-	constexpr void for_values(F &&f) noexcept((std::is_nothrow_invocable_v<F, std::integral_constant<decltype(xs), xs>> && ...)) {
+	constexpr void for_values(F &&f) noexcept((std::is_nothrow_invocable_v<F &, std::integral_constant<decltype(xs), xs>> && ...)) {
 		(std::invoke(f, std::integral_constant<decltype(xs), xs>{}), ...);
 	}
 
-- 
2.43.0


From 7723eb3d951698c81e21ad992bf6a19a6ee7df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:18 +0000
Subject: [PATCH 01/10] fix: wake consumers of a record stream that is
 move-assigned to

A consumer blocked in next() was never notified when records (or the end)
arrived through move assignment into its stream.
---
 src/jogasaki/udf/generic_record_impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/udf/generic_record_impl.cpp b/src/jogasaki/udf/generic_record_impl.cpp
index dee1d8b..ce6c682 100644
--- a/src/jogasaki/udf/generic_record_impl.cpp
+++ b/src/jogasaki/udf/generic_record_impl.cpp
@@ -361,6 +361,7 @@ generic_record_stream_impl& generic_record_stream_impl::operator=(
         other.closed_ = true;
         other.eos_ = true;
     }
+    cv_.notify_all();
     other.cv_.notify_all();
     return *this;
 }
-- 
2.43.0


From 86c821358e27c8affc7f063041cb5f96e0ede035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 02/10] fix: keep the bytes of a UTF-8 character inside the
 string when detecting its encoding

---
 src/jogasaki/utils/utf8_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/utils/utf8_utils.cpp b/src/jogasaki/utils/utf8_utils.cpp
index 0e77961..feea7f4 100644
--- a/src/jogasaki/utils/utf8_utils.cpp
+++ b/src/jogasaki/utils/utf8_utils.cpp
@@ -25,18 +25,18 @@ encoding_type detect_next_encoding(std::string_view view, const size_t offset) {
     const auto first      = static_cast<unsigned char>(view[offset]);
     if (first <= 0x7FU) { return encoding_type::ASCII_1BYTE; }
     if (first >= 0xC2U && first <= 0xDFU) {
-        return (size >= 2 && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
+        return (offset_2nd < size && is_continuation_byte(view[offset_2nd])) ? encoding_type::UTF8_2BYTE
                                                                      : encoding_type::INVALID;
     }
     if (first >= 0xE0U && first <= 0xEFU) {
-        return (size >= 3 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_3rd < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]))
                    ? encoding_type::UTF8_3BYTE
                    : encoding_type::INVALID;
     }
     if (first >= 0xF0U && first <= 0xF4U) {
         const auto offset_4th = offset + 3;
-        return (size >= 4 && is_continuation_byte(view[offset_2nd]) &&
+        return (offset_4th < size && is_continuation_byte(view[offset_2nd]) &&
                    is_continuation_byte(view[offset_3rd]) && is_continuation_byte(view[offset_4th]))
                    ? encoding_type::UTF8_4BYTE
                    : encoding_type::INVALID;
-- 
2.43.0


From 98dfd2d3c916c5ce40c18c9b44a472f8fa99c39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 03/10] fix: include additional text set later in the
 supplemental text of an error

---
 src/jogasaki/error/error_info.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/error/error_info.cpp b/src/jogasaki/error/error_info.cpp
index 2f33478..5b9ef26 100644
--- a/src/jogasaki/error/error_info.cpp
+++ b/src/jogasaki/error/error_info.cpp
@@ -98,6 +98,7 @@ std::string_view error_info::additional_text() const noexcept {
 
 void error_info::additional_text(std::string_view arg) noexcept {
     additional_text_ = arg;
+    supplemental_text_ = create_supplemental_text();
 }
 
 }
-- 
2.43.0


From 967a3eca01372b4449a1f88bc2637ecd34c3618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:44 +0000
Subject: [PATCH 04/10] fix: round numbers above the largest power of two down
 to it

---
 src/jogasaki/utils/round.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/utils/round.h b/src/jogasaki/utils/round.h
index 4be5f24..4297305 100644
--- a/src/jogasaki/utils/round.h
+++ b/src/jogasaki/utils/round.h
@@ -38,7 +38,7 @@ namespace jogasaki::utils {
         v |= v >> i;
     }
 
-    return static_cast<std::size_t>(v + 1) >> 1U;
+    return (v >> 1U) + 1; // shift first, as v + 1 can be out of range
 }
 
 [[nodiscard]] constexpr std::size_t round_up_to_power_of_two(std::size_t v) noexcept {
-- 
2.43.0


From 35fbffbcbafa4476e46aa889097c5c4b142f74a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:46 +0000
Subject: [PATCH 05/10] fix: do not subtract more occurrences than there are

---
 src/jogasaki/utils/subtract_vectors.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/utils/subtract_vectors.h b/src/jogasaki/utils/subtract_vectors.h
index 8e68eac..7cc2e45 100644
--- a/src/jogasaki/utils/subtract_vectors.h
+++ b/src/jogasaki/utils/subtract_vectors.h
@@ -28,8 +28,8 @@ std::vector<T> subtract_vectors(std::vector<T> const& x, std::vector<T> const& y
         ++m[e];
     }
     for(auto&& e : y) {
-        if(m.count(e) > 0) {
-            --m[e];
+        if(auto it = m.find(e); it != m.end() && it->second > 0) {
+            --it->second;
         }
     }
     std::vector<T> ret{};
-- 
2.43.0


From 6a74c7aafd35f745e657b4af6975d12f4f036a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:30 +0000
Subject: [PATCH 06/10] fix: leave a moved-from aligned buffer empty

---
 src/jogasaki/data/aligned_buffer.cpp | 18 ++++++++++++++++++
 src/jogasaki/data/aligned_buffer.h   |  4 ++--
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/data/aligned_buffer.cpp b/src/jogasaki/data/aligned_buffer.cpp
index b7e54c0..5c16aef 100644
--- a/src/jogasaki/data/aligned_buffer.cpp
+++ b/src/jogasaki/data/aligned_buffer.cpp
@@ -18,6 +18,7 @@
 #include <cstring>
 #include <memory>
 #include <ostream>
+#include <utility>
 
 #include <jogasaki/utils/aligned_unique_ptr.h>
 #include <jogasaki/utils/binary_printer.h>
@@ -34,6 +35,23 @@ aligned_buffer::aligned_buffer(
     std::memset(data_.get(), 0, capacity_);
 }
 
+aligned_buffer::aligned_buffer(aligned_buffer&& other) noexcept :
+    capacity_(std::exchange(other.capacity_, 0)),
+    alignment_(other.alignment_),
+    data_(std::move(other.data_)),
+    size_(std::exchange(other.size_, 0))
+{}
+
+aligned_buffer& aligned_buffer::operator=(aligned_buffer&& other) noexcept {
+    if(this != std::addressof(other)) {
+        capacity_ = std::exchange(other.capacity_, 0);
+        alignment_ = other.alignment_;
+        data_ = std::move(other.data_);
+        size_ = std::exchange(other.size_, 0);
+    }
+    return *this;
+}
+
 std::size_t aligned_buffer::size() const noexcept {
     return size_;
 }
diff --git a/src/jogasaki/data/aligned_buffer.h b/src/jogasaki/data/aligned_buffer.h
index 97f3700..13c4b51 100644
--- a/src/jogasaki/data/aligned_buffer.h
+++ b/src/jogasaki/data/aligned_buffer.h
@@ -71,12 +71,12 @@ public:
     /**
      * @brief move constructor
      */
-    aligned_buffer(aligned_buffer&& other) noexcept = default;
+    aligned_buffer(aligned_buffer&& other) noexcept;
 
     /**
      * @brief move assign
      */
-    aligned_buffer& operator=(aligned_buffer&& other) noexcept = default;
+    aligned_buffer& operator=(aligned_buffer&& other) noexcept;
 
     /**
      * @brief copy assign
-- 
2.43.0


From 9f3ed66b53b52ff6795995688f8d50cc28e07e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:05 +0000
Subject: [PATCH 07/10] fix: refuse allocations whose end is beyond the address
 space

---
 src/jogasaki/memory/details/page_allocation_info.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/memory/details/page_allocation_info.cpp b/src/jogasaki/memory/details/page_allocation_info.cpp
index f51a0eb..68f94b3 100644
--- a/src/jogasaki/memory/details/page_allocation_info.cpp
+++ b/src/jogasaki/memory/details/page_allocation_info.cpp
@@ -38,7 +38,7 @@ void *page_allocation_info::try_allocate_back(std::size_t bytes, std::size_t ali
     auto next_lower_offset = next - head; // inclusive
     auto next_upper_offset = next_lower_offset + bytes; // exclusive
 
-    if (next_upper_offset > page_size) {
+    if (next_lower_offset > page_size || bytes > page_size - next_lower_offset) {
         return nullptr;
     }
     // keep track the first alignment padding
-- 
2.43.0


From 541b0d2cb2e8669ba73736f7bf2cc7da6164bec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:44 +0000
Subject: [PATCH 08/10] fix: leave the transaction when a task ends with an
 exception

---
 src/jogasaki/scheduler/flat_task.cpp | 50 +++++++++++++++++-----------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 0559398..1a860c0 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -189,6 +189,19 @@ bool flat_task::write() {
     return ret;
 }
 
+static void leave_transaction(request_context& req_context) {
+    auto& tctx = *req_context.transaction();
+    termination_state ts{};
+    tctx.termination_mgr().decrement_task_use_count(ts);
+    if (ts.going_to_abort() && ts.task_empty()) {
+        (void) tctx.abort_transaction();
+        // request_info in the request context might not be the cause of the abort
+        // rather it is the request processing SQL that is interrupted by the abort
+        // TODO fix if that is a problem.
+        log_end_of_tx(tctx, true, req_context.req_info());
+    }
+}
+
 bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
     if (in_transaction_ && req_context_ && req_context_->transaction()) {
         auto& tctx = *req_context_->transaction();
@@ -217,15 +230,23 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " kind:" << kind_ << " sticky:" << sticky_ << " worker:" << ctx.index()
                             << " stolen:" << ctx.task_is_stolen() << " last_steal_from:" << ctx.last_steal_from();
     bool to_finish_job = false;
-    switch(kind_) {
-        using kind = flat_task_kind;
-        case kind::dag_events: dag_schedule(); break;
-        case kind::bootstrap: bootstrap(ctx); break;
-        case kind::resolve: resolve(ctx); break;
-        case kind::teardown: to_finish_job = ready_to_finish(*job(), false); break;
-        case kind::wrapped: to_finish_job = execute_wrapped(); break;
-        case kind::write: to_finish_job = write(); break;
-        case kind::load: to_finish_job = load(); break;
+    try {
+        switch(kind_) {
+            using kind = flat_task_kind;
+            case kind::dag_events: dag_schedule(); break;
+            case kind::bootstrap: bootstrap(ctx); break;
+            case kind::resolve: resolve(ctx); break;
+            case kind::teardown: to_finish_job = ready_to_finish(*job(), false); break;
+            case kind::wrapped: to_finish_job = execute_wrapped(); break;
+            case kind::write: to_finish_job = write(); break;
+            case kind::load: to_finish_job = load(); break;
+        }
+    } catch (...) {
+        // otherwise the transaction looks in use forever and can be neither committed nor aborted
+        if (in_transaction_ && req_context_ && req_context_->transaction()) {
+            leave_transaction(*req_context_);
+        }
+        throw;
     }
     std::chrono::time_point<clock> end{};
     std::size_t took_ns{};
@@ -248,16 +269,7 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " sticky:" << sticky_ << " worker:" << ctx.index() << " stolen:" << ctx.task_is_stolen();
 
     if (in_transaction_ && req_context_ && req_context_->transaction()) {
-        auto& tctx = *req_context_->transaction();
-        termination_state ts{};
-        tctx.termination_mgr().decrement_task_use_count(ts);
-        if (ts.going_to_abort() && ts.task_empty()) {
-            (void) req_context_->transaction()->abort_transaction();
-            // request_info in the request context might not be the cause of the abort
-            // rather it is the request processing SQL that is interrupted by the abort
-            // TODO fix if that is a problem.
-            log_end_of_tx(*req_context_->transaction(), true, req_context_->req_info());
-        }
+        leave_transaction(*req_context_);
     }
     return to_finish_job;
 }
-- 
2.43.0


From dd79b2f78e310bf7d2c44ec6ad940add93dc7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:51:44 +0000
Subject: [PATCH 09/10] fix: set the result of a commit before telling the
 waiting thread that it is there

---
 src/jogasaki/kvs/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/kvs/transaction.cpp b/src/jogasaki/kvs/transaction.cpp
index 39f4257..b343638 100644
--- a/src/jogasaki/kvs/transaction.cpp
+++ b/src/jogasaki/kvs/transaction.cpp
@@ -78,8 +78,8 @@ status transaction::commit(bool async) {
     ){
         (void) ec;
         (void) marker;
-        callback_called = true;
         rc = resolve(st);
+        callback_called = true; // set last - the waiting thread goes on as soon as this is seen
     });
     if(! b) {
         while(! callback_called) {}
-- 
2.43.0


From 93b9456a4febe09e4503f34cff089557e69b53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:58:30 +0000
Subject: [PATCH 10/10] fix: compare a sequence with its bounds without
 computing the distance to them

---
 src/jogasaki/executor/sequence/sequence.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index 3a7625e..0d245aa 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -16,6 +16,7 @@
 #include "sequence.h"
 
 #include <atomic>
+#include <limits>
 #include <utility>
 
 #include <jogasaki/common_types.h>
@@ -37,6 +38,20 @@ sequence::sequence(
     body_({version, value})
 {}
 
+// the checks below avoid the distance to the bound, which might not be representable in sequence_value
+
+static bool exceeds_upper_bound(sequence_value cur, class info const& i) {
+    constexpr auto lowest = std::numeric_limits<sequence_value>::min();
+    return i.increment() > 0 &&
+        (i.maximum_value() < lowest + i.increment() || cur > i.maximum_value() - i.increment());
+}
+
+static bool exceeds_lower_bound(sequence_value cur, class info const& i) {
+    constexpr auto highest = std::numeric_limits<sequence_value>::max();
+    return i.increment() < 0 &&
+        (i.minimum_value() > highest + i.increment() || cur < i.minimum_value() - i.increment());
+}
+
 sequence_versioned_value sequence::get() const noexcept {
     return body_.load();
 }
@@ -53,13 +68,13 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
             continue;
         }
         sequence_value val{};
-        if (info_->increment() > 0 && info_->maximum_value() - cur.value_ < info_->increment()) {
+        if (exceeds_upper_bound(cur.value_, *info_)) {
             if(info_->cycle()) {
                 val = info_->minimum_value();
             } else {
                 return sequence_error::out_of_upper_bound;
             }
-        } else if (info_->increment() < 0 && cur.value_ - info_->minimum_value() < -info_->increment()) {
+        } else if (exceeds_lower_bound(cur.value_, *info_)) {
             if(info_->cycle()) {
                 val = info_->maximum_value();
             } else {
-- 
2.43.0


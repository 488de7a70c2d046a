From e159ace5541eba79d48903d2922cbd6c8671f18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 01/53] fix: paged memory resources keep no empty page after
 refusing an oversized request

The page acquired for a request that can never be satisfied stayed at the end of the page list. The next such
request left it in the middle, and the deallocation of a legitimately allocated block then aborted.
---
 src/jogasaki/memory/fifo_paged_memory_resource.cpp      | 3 +++
 src/jogasaki/memory/lifo_paged_memory_resource.cpp      | 3 +++
 src/jogasaki/memory/monotonic_paged_memory_resource.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/src/jogasaki/memory/fifo_paged_memory_resource.cpp b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
index 87539c7..e20cf14 100644
--- a/src/jogasaki/memory/fifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/fifo_paged_memory_resource.cpp
@@ -99,6 +99,9 @@ void *fifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
         return ptr;
     }
 
+    // the request never fits in a page: give back the one acquired for it
+    page_pool_->release_page(current.head());
+    pages_.pop_back();
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index d845adf..02c1d31 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -105,6 +105,9 @@ void *lifo_paged_memory_resource::do_allocate(std::size_t bytes, std::size_t ali
         return ptr;
     }
 
+    // the request never fits in a page: give back the one acquired for it
+    release_deallocated_page(current.head());
+    pages_.pop_back();
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
diff --git a/src/jogasaki/memory/monotonic_paged_memory_resource.cpp b/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
index fc63de2..084985c 100644
--- a/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/monotonic_paged_memory_resource.cpp
@@ -66,6 +66,9 @@ void *monotonic_paged_memory_resource::do_allocate(std::size_t bytes, std::size_
         return ptr;
     }
 
+    // the request never fits in a page: give back the one acquired for it
+    page_pool_->release_page(current.head());
+    pages_.pop_back();
     LOG_LP(ERROR) << "invalid memory request bytes:" << bytes << " alignment:" << alignment;
     throw_exception(std::bad_alloc());
 }
-- 
2.43.0


From a142f9f9dc9928df805430b66c2739ed9911eff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 02/53] fix: lifo checkpoint taken on an unused page no longer
 drops earlier allocations

deallocate_after() releases the page of the checkpoint when it becomes empty; rewinding to the same checkpoint
again did not find that page and released everything allocated before the checkpoint.
---
 src/jogasaki/memory/lifo_paged_memory_resource.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/memory/lifo_paged_memory_resource.cpp b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
index 02c1d31..8b4b7d6 100644
--- a/src/jogasaki/memory/lifo_paged_memory_resource.cpp
+++ b/src/jogasaki/memory/lifo_paged_memory_resource.cpp
@@ -50,8 +50,12 @@ lifo_paged_memory_resource::checkpoint lifo_paged_memory_resource::get_checkpoin
     if (pages_.empty()) {
         return initial_checkpoint;
     }
-    auto& current = pages_.back();
-    return { current.head().address(), current.upper_bound_offset() };
+    auto current = pages_.crbegin();
+    if (current->empty() && ++current == pages_.crend()) {
+        // the page without allocation is released on deallocate_after(), so it cannot be a part of the checkpoint
+        return initial_checkpoint;
+    }
+    return { current->head().address(), current->upper_bound_offset() };
 }
 
 void lifo_paged_memory_resource::deallocate_after(lifo_paged_memory_resource::checkpoint const& point) {
-- 
2.43.0


From 0474dae1cc7947f559bf0a93dbf583e6e2f3f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 03/53] fix: set the commit result before releasing the thread
 that waits for it

The synchronous kvs::transaction::commit() spins until callback_called is set, then
returns rc. The callback set the flag first, so the waiter could return a stale (ok)
status while the callback was still writing to its dead stack frame.
---
 src/jogasaki/kvs/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/kvs/transaction.cpp b/src/jogasaki/kvs/transaction.cpp
index 39f4257..cc96f22 100644
--- a/src/jogasaki/kvs/transaction.cpp
+++ b/src/jogasaki/kvs/transaction.cpp
@@ -78,8 +78,8 @@ status transaction::commit(bool async) {
     ){
         (void) ec;
         (void) marker;
-        callback_called = true;
         rc = resolve(st);
+        callback_called = true;
     });
     if(! b) {
         while(! callback_called) {}
-- 
2.43.0


From 10d804853e2945b646257e31528359c7a744597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:36 +0000
Subject: [PATCH 04/53] fix: INSERT tasks take part in the termination protocol
 of their transaction

Write tasks ran without incrementing the task use count, so a commit or rollback that arrived during an INSERT operated on the same transaction handle at the same time, and the commit could be acknowledged while the INSERT still ran.
---
 src/jogasaki/scheduler/flat_task.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index 0559398..c0a3b2c 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -487,7 +487,8 @@ flat_task::flat_task(
     kind_(flat_task_kind::write),
     req_context_(rctx),
     write_(write),
-    sticky_(true)
+    sticky_(true),
+    in_transaction_(true)
 {}
 
 bool flat_task::sticky() const noexcept {
-- 
2.43.0


From 2ae38caedf70941355b4a22bc41270d5ba488c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 05/53] fix: release the storage lock of a transaction before
 its commit is answered

The lock was released after the commit response was sent, so a statement sent after receiving the response could fail because it was blocked by the finished transaction.
---
 src/jogasaki/executor/executor.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index a413c00..cdecf0a 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -1043,12 +1043,13 @@ scheduler::job_context::job_id_type commit_async(
                 ::sharksfin::durability_marker_type marker
             ){
                 rctx->transaction()->profile()->set_precommit_cb_invoked();
-                process_commit_callback(st, ec, marker, jobid, rctx, txid, database, option);
-
-                // release storage lock and storage reference scope as soon as commit callback completes
+                // release storage lock and storage reference scope before responding, otherwise the requests that the
+                // client sends after receiving the commit response can be blocked by the lock of the finished transaction
                 // TODO when commit fails for tx with DDL, we need to repair storage metadata and then unlock
                 rctx->transaction()->reset_storage_ref_scope();
                 rctx->transaction()->storage_lock(nullptr);
+
+                process_commit_callback(st, ec, marker, jobid, rctx, txid, database, option);
             });
         return model::task_result::complete;
     }, model::task_transaction_kind::none);
-- 
2.43.0


From 81b2bf7b545cb71ff35f1d1e7957023a945890ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:31 +0000
Subject: [PATCH 06/53] fix: an internal error in a task no longer finishes the
 job under its sibling tasks

The job was finished and its contexts were destroyed while other tasks of the job were running on them, and the task use count of the transaction was not decremented, so the transaction could never be aborted afterwards. Finish by teardown, which waits for the other tasks.
---
 src/jogasaki/scheduler/flat_task.cpp | 34 ++++++++++++++++------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/jogasaki/scheduler/flat_task.cpp b/src/jogasaki/scheduler/flat_task.cpp
index c0a3b2c..c26b74f 100644
--- a/src/jogasaki/scheduler/flat_task.cpp
+++ b/src/jogasaki/scheduler/flat_task.cpp
@@ -45,6 +45,7 @@
 #include <jogasaki/scheduler/task_scheduler.h>
 #include <jogasaki/scheduler/thread_local_info.h>
 #include <jogasaki/utils/cancel_request.h>
+#include <jogasaki/utils/finally.h>
 #include <jogasaki/utils/hex.h>
 #include <jogasaki/utils/latch.h>
 #include <jogasaki/utils/trace_log.h>
@@ -207,6 +208,22 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
         }
     }
 
+    // leave the transaction even if the task body throws
+    utils::finally leave_transaction{[this]() {
+        if (in_transaction_ && req_context_ && req_context_->transaction()) {
+            auto& tctx = *req_context_->transaction();
+            termination_state ts{};
+            tctx.termination_mgr().decrement_task_use_count(ts);
+            if (ts.going_to_abort() && ts.task_empty()) {
+                (void) req_context_->transaction()->abort_transaction();
+                // request_info in the request context might not be the cause of the abort
+                // rather it is the request processing SQL that is interrupted by the abort
+                // TODO fix if that is a problem.
+                log_end_of_tx(*req_context_->transaction(), true, req_context_->req_info());
+            }
+        }
+    }};
+
     // The variables begin and end are needed only for timing event log.
     // Avoid calling clock::now() if log level is low. In case its cost is unexpectedly high.
     std::chrono::time_point<clock> begin{};
@@ -247,18 +264,6 @@ bool flat_task::execute(tateyama::task_scheduler::context& ctx) {
                             << " job_id:" << utils::hex(req_context_->job()->id()) << " kind:" << kind_
                             << " sticky:" << sticky_ << " worker:" << ctx.index() << " stolen:" << ctx.task_is_stolen();
 
-    if (in_transaction_ && req_context_ && req_context_->transaction()) {
-        auto& tctx = *req_context_->transaction();
-        termination_state ts{};
-        tctx.termination_mgr().decrement_task_use_count(ts);
-        if (ts.going_to_abort() && ts.task_empty()) {
-            (void) req_context_->transaction()->abort_transaction();
-            // request_info in the request context might not be the cause of the abort
-            // rather it is the request processing SQL that is interrupted by the abort
-            // TODO fix if that is a problem.
-            log_end_of_tx(*req_context_->transaction(), true, req_context_->req_info());
-        }
-    }
     return to_finish_job;
 }
 
@@ -340,10 +345,11 @@ bool flat_task::execute_with_catch(tateyama::task_scheduler::context& ctx) {
         // log server messages as much as possible and send msg back to client
         LOG_LP(ERROR) << message;
 
+        set_error_context(*req_context_, error_code::unknown_internal_error, "unexpected internal error occurred "+message, status::err_unknown);
         // try to complete the current job in order to reply back to client.
         // Otherwise, the request appears to remain running and shutdown of session or database is hindered.
-        job_completes = true;
-        set_error_context(*req_context_, error_code::unknown_internal_error, "unexpected internal error occurred "+message, status::err_unknown);
+        // The job is finished by teardown after other tasks complete since they may be still running on the job.
+        job_completes = kind_ == flat_task_kind::teardown || check_or_submit_teardown(*req_context_, true);
     }
     return job_completes;
 
-- 
2.43.0


From 3d97a0abd2887549b525e96d1161cda587107649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:07 +0000
Subject: [PATCH 07/53] fix: operator contexts are destroyed before the
 transaction they use

A work context of a yielded task (e.g. a scan holding an iterator) may hold the
last reference to its transaction; its members were destroyed in an order that
released the transaction before the iterators opened on it.
---
 src/jogasaki/executor/process/impl/work_context.cpp | 2 +-
 src/jogasaki/executor/process/impl/work_context.h   | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/work_context.cpp b/src/jogasaki/executor/process/impl/work_context.cpp
index dec16c6..2129f7e 100644
--- a/src/jogasaki/executor/process/impl/work_context.cpp
+++ b/src/jogasaki/executor/process/impl/work_context.cpp
@@ -38,13 +38,13 @@ work_context::work_context(
     bool in_transaction_and_non_sticky
 ) :
     request_context_(request_context),
-    contexts_(operator_count),
     resource_(std::move(resource)),
     varlen_resource_(std::move(varlen_resource)),
     database_(std::move(database)),
     transaction_(std::move(transaction)),
     empty_input_from_shuffle_(empty_input_from_shuffle),
     in_transaction_and_non_sticky_(in_transaction_and_non_sticky),
+    contexts_(operator_count),
     blob_session_container_(transaction_ ? std::optional<std::uint64_t>{transaction_->surrogate_id()} : std::nullopt)
 {
     variables_.reserve(block_count);
diff --git a/src/jogasaki/executor/process/impl/work_context.h b/src/jogasaki/executor/process/impl/work_context.h
index 5b6d3ef..fbb003b 100644
--- a/src/jogasaki/executor/process/impl/work_context.h
+++ b/src/jogasaki/executor/process/impl/work_context.h
@@ -162,8 +162,6 @@ public:
 
 private:
     request_context* request_context_{};
-    ops::context_container contexts_{};
-    variable_table_list variables_{};
     std::unique_ptr<memory_resource> resource_{};
     std::unique_ptr<memory_resource> varlen_resource_{};
     std::shared_ptr<kvs::database> database_{};
@@ -171,6 +169,9 @@ private:
     bool empty_input_from_shuffle_{};
     bool in_transaction_and_non_sticky_{};
     std::unique_ptr<kvs::transaction> strand_{};
+    // operator contexts use objects above (e.g. iterators on the transaction), so they must be destroyed first
+    ops::context_container contexts_{};
+    variable_table_list variables_{};
     relay::blob_session_container blob_session_container_{};
 };
 
-- 
2.43.0


From 3477b323316ece015cdb4f1da46c6c4bc304d199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:18 +0000
Subject: [PATCH 08/53] fix: adding a storage reference no longer races with
 the end of the transaction

add_storage_ref is documented as thread-safe, but the scope was released
without synchronisation by the thread that commits or aborts the transaction.
---
 src/jogasaki/transaction_context.cpp | 7 +++++--
 src/jogasaki/transaction_context.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/transaction_context.cpp b/src/jogasaki/transaction_context.cpp
index 1d131a5..b3c75a7 100644
--- a/src/jogasaki/transaction_context.cpp
+++ b/src/jogasaki/transaction_context.cpp
@@ -16,6 +16,7 @@
 #include "transaction_context.h"
 
 #include <glog/logging.h>
+#include <mutex>
 #include <ostream>
 #include <utility>
 
@@ -80,7 +81,7 @@ transaction_context::operator bool() const noexcept {
 
 status transaction_context::commit(bool async) {
     auto ret = transaction_->commit(async);
-    storage_ref_scope_.reset(); // release storage refs so maintenance thread can clean up
+    reset_storage_ref_scope(); // release storage refs so maintenance thread can clean up
     storage_lock_.reset();      // release write lock so DML can proceed after DDL commit
     return ret;
 }
@@ -92,7 +93,7 @@ bool transaction_context::commit(transaction_context::commit_callback_type cb) {
 
 status transaction_context::abort_transaction() {
     auto ret = transaction_->abort_transaction();
-    storage_ref_scope_.reset(); // release storage refs so maintenance thread can clean up
+    reset_storage_ref_scope(); // release storage refs so maintenance thread can clean up
     storage_lock_.reset(); // release storage lock as soon as possible
     state_.set(transaction_state_kind::aborted);
     return ret;
@@ -189,10 +190,12 @@ void transaction_context::storage_lock(std::unique_ptr<storage::unique_lock> arg
 }
 
 void transaction_context::reset_storage_ref_scope() noexcept {
+    std::scoped_lock lk{storage_ref_mutex_};
     storage_ref_scope_.reset();
 }
 
 void transaction_context::add_storage_ref(storage::storage_entry entry) {
+    std::scoped_lock lk{storage_ref_mutex_}; // the scope can be released by the other thread terminating the transaction
     if (storage_ref_scope_) {
         storage_ref_scope_->add_storage(entry);
     }
diff --git a/src/jogasaki/transaction_context.h b/src/jogasaki/transaction_context.h
index 9723610..57ecdcb 100644
--- a/src/jogasaki/transaction_context.h
+++ b/src/jogasaki/transaction_context.h
@@ -480,6 +480,7 @@ private:
     details::termination_manager term_mgr_{};
     transaction_state state_{};
     std::unique_ptr<storage::unique_lock> storage_lock_{};
+    std::mutex storage_ref_mutex_{};
     std::unique_ptr<storage::reference_scope> storage_ref_scope_{};
 
     cache_align static inline std::atomic_size_t surrogate_id_source_{};  //NOLINT
-- 
2.43.0


From 97f366a0412401095aac51daae60fe611cbed7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:51 +0000
Subject: [PATCH 09/53] fix: parallel RTX scan does not read the storage of a
 terminating transaction

The pivots of a parallel scan are computed by a task that does not take part in
the termination protocol of the transaction, so the storage was read while the
commit of the same transaction was in progress.
---
 .../process/impl/ops/operator_builder.cpp     | 38 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/process/impl/ops/operator_builder.cpp b/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
index f3fcf79..7728190 100644
--- a/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
+++ b/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
@@ -38,6 +38,7 @@
 #include <yugawara/function/declaration.h>
 #include <yugawara/storage/table.h>
 
+#include <jogasaki/commit_common.h>
 #include <jogasaki/data/iterable_record_store.h>
 #include <jogasaki/dist/key_range.h>
 #include <jogasaki/dist/simple_key_distribution.h>
@@ -59,7 +60,9 @@
 #include <jogasaki/executor/process/step.h>
 #include <jogasaki/memory/lifo_paged_memory_resource.h>
 #include <jogasaki/plan/plan_exception.h>
+#include <jogasaki/transaction_context.h>
 #include <jogasaki/utils/assert.h>
+#include <jogasaki/utils/finally.h>
 #include <jogasaki/utils/from_endpoint.h>
 #include <jogasaki/utils/get_storage_by_index_name.h>
 #include <jogasaki/utils/scan_parallel_enabled.h>
@@ -486,6 +489,31 @@ std::unique_ptr<operator_base> operator_builder::operator()(const relation::step
     );
 }
 
+namespace details {
+
+/**
+ * @brief enter the transaction as tasks do, so that it is not terminated by the other thread until leaving
+ * @return object whose destruction leaves the transaction
+ * @return nullptr if the transaction is already being terminated
+ */
+std::unique_ptr<utils::finally> enter_transaction(request_context& context) {
+    termination_state ts{};
+    if (! context.transaction()->termination_mgr().try_increment_task_use_count(ts)) {
+        return nullptr;
+    }
+    return std::make_unique<utils::finally>([&context]() {
+        auto& tctx = *context.transaction();
+        termination_state ts{};
+        tctx.termination_mgr().decrement_task_use_count(ts);
+        if (ts.going_to_abort() && ts.task_empty()) {
+            (void) tctx.abort_transaction();
+            log_end_of_tx(tctx, true, context.req_info());
+        }
+    });
+}
+
+}  // namespace details
+
 std::vector<std::shared_ptr<impl::scan_range>> operator_builder::create_scan_ranges(relation::scan const& node) {
     std::vector<std::shared_ptr<impl::scan_range>> scan_ranges{};
     auto& secondary_or_primary_index =
@@ -533,7 +561,15 @@ std::vector<std::shared_ptr<impl::scan_range>> operator_builder::create_scan_ran
     auto [rtx_parallel_scan_enabled, scan_parallel_count] = utils::scan_parallel_enabled(*request_context_->transaction());
     const auto option = request_context_->transaction()->option();
     const bool is_rtx = option && option->readonly();
-    if (rtx_parallel_scan_enabled && scan_parallel_count > 1 && is_rtx && !is_empty) {
+    bool split = rtx_parallel_scan_enabled && scan_parallel_count > 1 && is_rtx && !is_empty;
+    std::unique_ptr<utils::finally> leave_transaction{};
+    if (split && global::config_pool()->key_distribution() == key_distribution_kind::uniform) {
+        // Computing pivots reads the storage, so it must not run while the transaction is being terminated.
+        // If the termination already started, leave the range as it is since scan tasks will be rejected anyway.
+        leave_transaction = details::enter_transaction(*request_context_);
+        split = leave_transaction != nullptr;
+    }
+    if (split) {
         std::unique_ptr<kvs::storage> stg{};
         std::unique_ptr<dist::key_distribution> distribution{};
         if(global::config_pool()->key_distribution() == key_distribution_kind::uniform) {
-- 
2.43.0


From eabe6b6322d6c5992f8787f46fe8e954369b8736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:15 +0000
Subject: [PATCH 10/53] fix: a task that throws gives its result set writer
 seat back

Otherwise the other tasks of the same request wait for the seat forever and the
request is never answered.
---
 .../executor/process/impl/process_executor.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/process_executor.cpp b/src/jogasaki/executor/process/impl/process_executor.cpp
index 32c70e1..8376ded 100644
--- a/src/jogasaki/executor/process/impl/process_executor.cpp
+++ b/src/jogasaki/executor/process/impl/process_executor.cpp
@@ -30,6 +30,7 @@
 #include <jogasaki/logging.h>
 #include <jogasaki/logging_helper.h>
 #include <jogasaki/request_context.h>
+#include <jogasaki/utils/finally.h>
 
 namespace jogasaki::executor::process::impl {
 
@@ -79,13 +80,16 @@ process_executor::status process_executor::run() {
     }
 
     // execute task
-    auto rc = processor_->run(context.get());
-
-    // release seat if acquired
-    if (needs_seat) {
-        rctx->writer_pool()->release(std::move(impl_ctx->writer_seat()));
-        VLOG_LP(log_trace) << "writer_pool::release() success";
-    }
+    auto rc = [&]() {
+        // release seat if acquired, even if the processor throws - otherwise other tasks waiting for the seat never end
+        utils::finally release_seat{[&]() {
+            if (needs_seat) {
+                rctx->writer_pool()->release(std::move(impl_ctx->writer_seat()));
+                VLOG_LP(log_trace) << "writer_pool::release() success";
+            }
+        }};
+        return processor_->run(context.get());
+    }();
 
     switch(rc) {
         case status::completed:
-- 
2.43.0


From 48b7808a6d9f53c707d3a5fc49e283bc65efe1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:17 +0000
Subject: [PATCH 11/53] fix: pivots of a parallel RTX scan are read with a
 strand of the transaction

Tasks of other statements of the transaction may be running at the same time.
---
 src/jogasaki/executor/process/impl/ops/operator_builder.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/process/impl/ops/operator_builder.cpp b/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
index 7728190..c72c5b3 100644
--- a/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
+++ b/src/jogasaki/executor/process/impl/ops/operator_builder.cpp
@@ -58,6 +58,7 @@
 #include <jogasaki/executor/process/processor_info.h>
 #include <jogasaki/executor/process/relation_io_map.h>
 #include <jogasaki/executor/process/step.h>
+#include <jogasaki/kvs/transaction.h>
 #include <jogasaki/memory/lifo_paged_memory_resource.h>
 #include <jogasaki/plan/plan_exception.h>
 #include <jogasaki/transaction_context.h>
@@ -571,12 +572,14 @@ std::vector<std::shared_ptr<impl::scan_range>> operator_builder::create_scan_ran
     }
     if (split) {
         std::unique_ptr<kvs::storage> stg{};
+        std::unique_ptr<kvs::transaction> strand{}; // other tasks can be using the transaction at the same time
         std::unique_ptr<dist::key_distribution> distribution{};
         if(global::config_pool()->key_distribution() == key_distribution_kind::uniform) {
             stg = utils::get_storage_by_index_name(secondary_or_primary_index.simple_name());
+            strand = request_context_->transaction()->object()->acquire_strand();
             distribution = std::make_unique<dist::uniform_key_distribution>(
                 *stg,
-                *request_context_->transaction()->object(),
+                strand ? *strand : *request_context_->transaction()->object(),
                 request_context_
             );
         } else {
-- 
2.43.0


From 2aae4e35cab93e5d967a9c69981e6e79ff4cf9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:36 +0000
Subject: [PATCH 12/53] fix: commit request with an unknown transaction handle
 replies an error instead of dereferencing null

---
 src/jogasaki/api/impl/service.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index dbbc698..c424ae6 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -605,6 +605,16 @@ void service::command_commit(
     opt.auto_dispose_on_success(cm.has_option() ? cm.option().auto_dispose() : cm.auto_dispose()).commit_response(cr);
 
     auto tctx = get_transaction_context(tx);
+    if(! tctx) {
+        // invalid handle
+        auto err_info = create_error_info(
+            error_code::transaction_not_found_exception,
+            "Transaction handle is invalid.",
+            status::err_invalid_argument
+        );
+        details::error<sql::response::ResultOnly>(*res, err_info.get(), req_info);
+        return;
+    }
     executor::commit_async(
         get_impl(*db_),
         std::move(tctx),
-- 
2.43.0


From 56ab7bec1793c8961edfccc1640210ea1fc467a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:24 +0000
Subject: [PATCH 13/53] fix: reply an error for a decimal parameter out of
 range instead of dropping the request

---
 src/jogasaki/api/impl/service.cpp | 41 +++++++++++++++++++++++++------
 src/jogasaki/api/impl/service.h   |  9 ++++++-
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/jogasaki/api/impl/service.cpp b/src/jogasaki/api/impl/service.cpp
index c424ae6..96dfd42 100644
--- a/src/jogasaki/api/impl/service.cpp
+++ b/src/jogasaki/api/impl/service.cpp
@@ -531,7 +531,11 @@ void service::command_execute_prepared_statement(
         return;
     }
     auto params = jogasaki::api::create_parameter_set();
-    set_params(pq.parameters(), params, req_info);
+    if(auto err_info = set_params(pq.parameters(), params, req_info); err_info) {
+        abort_transaction(tx, req_info, err_info);
+        details::error<sql::response::ExecuteResult>(*res, err_info.get(), req_info);
+        return;
+    }
 
     std::unique_ptr<jogasaki::api::executable_statement> e{};
     std::shared_ptr<error::error_info> err_info{};
@@ -561,7 +565,10 @@ void service::command_execute_prepared_query(
         return;
     }
     auto params = jogasaki::api::create_parameter_set();
-    set_params(pq.parameters(), params, req_info);
+    if(auto err_info = set_params(pq.parameters(), params, req_info); err_info) {
+        details::error<sql::response::ResultOnly>(*res, err_info.get(), req_info);
+        return;
+    }
     execute_query(res, details::query_info{handle, std::shared_ptr{std::move(params)}}, tx, req_info);
 }
 
@@ -716,7 +723,10 @@ void service::command_explain(
         return;
     }
     auto params = jogasaki::api::create_parameter_set();
-    set_params(ex.parameters(), params, req_info);
+    if(auto err_info = set_params(ex.parameters(), params, req_info); err_info) {
+        details::error<sql::response::Explain>(*res, err_info.get(), req_info);
+        return;
+    }
 
     // log explain event here to include db_->resolve duration as well as db_->explain
     auto req = std::make_shared<scheduler::request_detail>(scheduler::request_detail_kind::explain);
@@ -993,7 +1003,10 @@ void service::command_execute_dump(
     }
 
     auto params = jogasaki::api::create_parameter_set();
-    set_params(ed.parameters(), params, req_info);
+    if(auto err_info = set_params(ed.parameters(), params, req_info); err_info) {
+        details::error<sql::response::ResultOnly>(*res, err_info.get(), req_info);
+        return;
+    }
 
     executor::io::dump_config opts{};
     opts.max_records_per_file_ = (ed.has_option() && ed.option().max_record_count_per_file() > 0) ?
@@ -1051,7 +1064,10 @@ void service::command_execute_load(
     }
 
     auto params = jogasaki::api::create_parameter_set();
-    set_params(ed.parameters(), params, req_info);
+    if(auto err_info = set_params(ed.parameters(), params, req_info); err_info) {
+        details::error<sql::response::ExecuteResult>(*res, err_info.get(), req_info);
+        return;
+    }
     auto list = ed.file();
     std::vector<std::string> files{};
     for(auto&& f : list) {
@@ -1336,7 +1352,7 @@ static takatori::decimal::triple to_triple(::jogasaki::proto::sql::common::Decim
     return utils::read_decimal(buf, -exp);
 }
 
-void service::set_params(
+std::shared_ptr<error::error_info> service::set_params(
     ::google::protobuf::RepeatedPtrField<sql::request::Parameter> const& ps,
     std::unique_ptr<jogasaki::api::parameter_set>& params,
     request_info const& req_info
@@ -1365,9 +1381,19 @@ void service::set_params(
             case sql::request::Parameter::ValueCase::kOctetValue:
                 params->set_octet(p.name(), p.octet_value());
                 break;
-            case sql::request::Parameter::ValueCase::kDecimalValue:
+            case sql::request::Parameter::ValueCase::kDecimalValue: {
+                auto& v = p.decimal_value().unscaled_value();
+                if(v.size() > utils::max_decimal_length || ! utils::validate_decimal_coefficient(v)) {
+                    return create_error_info(
+                        error_code::sql_execution_exception,
+                        string_builder{} << "invalid request format - decimal value is out of range parameter:\""
+                            << p.name() << "\"" << string_builder::to_string,
+                        status::err_invalid_argument
+                    );
+                }
                 params->set_decimal(p.name(), to_triple(p.decimal_value()));
                 break;
+            }
             case sql::request::Parameter::ValueCase::kDateValue:
                 params->set_date(p.name(), field_type_traits<kind::date>::parameter_type{p.date_value()});
                 break;
@@ -1440,6 +1466,7 @@ void service::set_params(
                 break;
         }
     }
+    return {};
 }
 
 void service::execute_query(
diff --git a/src/jogasaki/api/impl/service.h b/src/jogasaki/api/impl/service.h
index e74da44..86c293c 100644
--- a/src/jogasaki/api/impl/service.h
+++ b/src/jogasaki/api/impl/service.h
@@ -720,11 +720,18 @@ private:
         std::vector<std::string> const& files,
         request_info const& req_info
     );
-    void set_params(
+
+    /**
+     * @brief fill the parameter set with the values in the request
+     * @return nullptr if all the values are valid
+     * @return error information if some value is invalid
+     */
+    [[nodiscard]] std::shared_ptr<error::error_info> set_params(
         ::google::protobuf::RepeatedPtrField<sql::request::Parameter> const& ps,
         std::unique_ptr<jogasaki::api::parameter_set>& params,
         request_info const& req_info
     );
+
     [[nodiscard]] std::size_t new_resultset_id() const noexcept;
 
     /**
-- 
2.43.0


From 06775efcfa42f55375e1f96dc3dd6825ec63ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 14/53] fix: end the transaction whose begin request failed
 after it was created

---
 src/jogasaki/api/impl/database.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/api/impl/database.cpp b/src/jogasaki/api/impl/database.cpp
index 3a823f1..0e83406 100644
--- a/src/jogasaki/api/impl/database.cpp
+++ b/src/jogasaki/api/impl/database.cpp
@@ -1511,7 +1511,7 @@ scheduler::job_context::job_id_type database::do_create_transaction_async(  //NO
             );
             return model::task_result::complete;
         }, model::task_transaction_kind::none);  // create transaction is neither sticky nor in-transaction
-    rctx->job()->callback([on_completion=std::move(on_completion), rctx, tx_pptr, jobid, req_info](){
+    rctx->job()->callback([this, on_completion=std::move(on_completion), rctx, tx_pptr, jobid, req_info](){
         VLOG(log_debug_timing_event) << "/:jogasaki:timing:transaction:started "
             << (*tx_pptr ? (*tx_pptr)->transaction_id() : "<tx id not available>")
             << " job_id:"
@@ -1531,6 +1531,13 @@ scheduler::job_context::job_id_type database::do_create_transaction_async(  //NO
                 (*tx_pptr)->surrogate_id(),
                 (*tx_pptr)->option()->session_id()
             };
+            if(rctx->status_code() != status::ok) {
+                // e.g. canceled on waiting the transaction to be ready - the handle never reaches the client, so end the
+                // transaction here
+                (void) (*tx_pptr)->abort_transaction();
+                (void) destroy_transaction(handle);
+                handle = {};
+            }
         }
         on_completion(
             handle,
-- 
2.43.0


From 1f6cebac175be6de21cc16a80ad63fc10b3220ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 15/53] fix: remove the session's transaction/statement store
 from the database before clearing it

---
 src/jogasaki/api/impl/statement_store.cpp   | 3 ++-
 src/jogasaki/api/impl/transaction_store.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/api/impl/statement_store.cpp b/src/jogasaki/api/impl/statement_store.cpp
index 9ad4f8e..79502f4 100644
--- a/src/jogasaki/api/impl/statement_store.cpp
+++ b/src/jogasaki/api/impl/statement_store.cpp
@@ -49,8 +49,9 @@ void statement_store::dispose() {
                                << t.second->body()->sql_text() << "\"";
         }
     }
-    statements_.clear();
+    // first make this store invisible from others - the entries are cleared only after no one else looks up them
     global::database_impl()->remove_statement_store(session_id_);
+    statements_.clear();
 }
 
 std::size_t statement_store::size() const noexcept {
diff --git a/src/jogasaki/api/impl/transaction_store.cpp b/src/jogasaki/api/impl/transaction_store.cpp
index cfce490..de4a731 100644
--- a/src/jogasaki/api/impl/transaction_store.cpp
+++ b/src/jogasaki/api/impl/transaction_store.cpp
@@ -51,8 +51,9 @@ void transaction_store::dispose() {
                                << " surrogate_id:" << t.second->surrogate_id();
         }
     }
-    transactions_.clear();
+    // first make this store invisible from others - the entries are cleared only after no one else looks up them
     global::database_impl()->remove_transaction_store(session_id_);
+    transactions_.clear();
 }
 
 std::size_t transaction_store::size() const noexcept {
-- 
2.43.0


From ce831fd72f0e032a34eab81bd71e54e96e459cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:29 +0000
Subject: [PATCH 16/53] fix: split the groups of sorted_vector_reader by
 grouping key, not by sort key

---
 .../executor/exchange/group/sorted_vector_reader.cpp  | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
index 02da745..cd6eece 100644
--- a/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
+++ b/src/jogasaki/executor/exchange/group/sorted_vector_reader.cpp
@@ -42,7 +42,7 @@ sorted_vector_reader::sorted_vector_reader(
     info_(std::move(info)),
     record_size_(info_->record_meta()->record_size()),
     buf_(std::make_unique<char[]>(record_size_)), //NOLINT
-    key_comparator_(info_->sort_compare_info())
+    key_comparator_(info_->compare_info())
 {
     std::size_t count = 0;
     for(auto& p : partitions_) {
@@ -87,7 +87,7 @@ accessor::record_ref sorted_vector_reader::get_group() const {
 }
 
 void sorted_vector_reader::discard_remaining_members_in_group() {
-    auto k = info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_));
+    auto k = info_->extract_key(accessor::record_ref(buf_.get(), record_size_));
     while(current_ != aggregated_pointer_table_.end()) {
         if (key_comparator_(k, info_->extract_key(accessor::record_ref(*current_, record_size_))) != 0) {
             break;
@@ -115,8 +115,8 @@ bool sorted_vector_reader::next_member() {
             return false;
         }
         if (key_comparator_(
-                info_->extract_sort_key(accessor::record_ref(buf_.get(), record_size_)),
-                info_->extract_sort_key(accessor::record_ref(*current_, record_size_))) == 0) {
+                info_->extract_key(accessor::record_ref(buf_.get(), record_size_)),
+                info_->extract_key(accessor::record_ref(*current_, record_size_))) == 0) {
             read_and_pop();
             ++record_count_per_group_;
             return true;
@@ -164,11 +164,12 @@ void sorted_vector_reader::init_aggregated_table() {  //NOLINT(readability-funct
         }
         w.set_point(1);
         auto sz = info_->record_meta()->record_size();
+        comparator sort_comparator{info_->sort_compare_info()};
         std::sort(
             aggregated_pointer_table_.begin(),
             aggregated_pointer_table_.end(),
             [&](auto const&x, auto const& y) {
-                return key_comparator_(
+                return sort_comparator(
                     info_->extract_sort_key(accessor::record_ref(x, sz)),
                     info_->extract_sort_key(accessor::record_ref(y, sz))) < 0;
             }
-- 
2.43.0


From 82e5b253f6b3973d3ebd561581e0f212713fb555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:39 +0000
Subject: [PATCH 17/53] hook: adjustable hash/pointer table sizes under
 JOGASAKI_SIM

---
 src/jogasaki/executor/exchange/aggregate/input_partition.h | 5 +++++
 src/jogasaki/executor/exchange/group/input_partition.h     | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/jogasaki/executor/exchange/aggregate/input_partition.h b/src/jogasaki/executor/exchange/aggregate/input_partition.h
index f37d62c..f10edc1 100644
--- a/src/jogasaki/executor/exchange/aggregate/input_partition.h
+++ b/src/jogasaki/executor/exchange/aggregate/input_partition.h
@@ -84,7 +84,12 @@ public:
 
     // hopscotch default power_of_two_growth_policy forces the # of buckets to be power of two,
     // so round down here to avoid going over allocator limit
+#ifdef JOGASAKI_SIM
+    // adjustable, so that a simulation fills tables with a few records
+    static inline std::size_t default_initial_hash_table_size =
+#else
     constexpr static std::size_t default_initial_hash_table_size =
+#endif
         utils::round_down_to_power_of_two(memory::page_size / sizeof(bucket_type));
 
     static_assert(sizeof(bucket_type) == 24);
diff --git a/src/jogasaki/executor/exchange/group/input_partition.h b/src/jogasaki/executor/exchange/group/input_partition.h
index d59f6e7..4fa5645 100644
--- a/src/jogasaki/executor/exchange/group/input_partition.h
+++ b/src/jogasaki/executor/exchange/group/input_partition.h
@@ -46,7 +46,12 @@ public:
     using pointer_tables_type = std::vector<pointer_table_type>;
     using iterator = pointer_tables_type::iterator;
     using table_iterator = pointer_table_type::iterator;
+#ifdef JOGASAKI_SIM
+    // adjustable, so that a simulation fills tables with a few records
+    static inline std::size_t ptr_table_size = memory::page_size/sizeof(void*);
+#else
     constexpr static std::size_t ptr_table_size = memory::page_size/sizeof(void*);
+#endif
 
     /**
      * @brief create empty object
-- 
2.43.0


From 4cc7fd02a4011b8a709b6b7d4243895d054594b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:04 +0000
Subject: [PATCH 18/53] fix: secondary index on a primary key column in the
 other direction

---
 src/jogasaki/index/secondary_target.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/index/secondary_target.cpp b/src/jogasaki/index/secondary_target.cpp
index 8259fba..38a6e47 100644
--- a/src/jogasaki/index/secondary_target.cpp
+++ b/src/jogasaki/index/secondary_target.cpp
@@ -157,7 +157,7 @@ secondary_target::field_mapping_type secondary_target::create_fields(
     for(auto&& k : idx.keys()) {
         bool found = false;
         for(std::size_t i=0, n=primary->keys().size(); i<n; ++i) {
-            if(primary->keys().at(i) == k) {
+            if(primary->keys().at(i).column() == k.column()) {
                 auto spec = k.direction() == takatori::relation::sort_direction::ascendant ?
                     kvs::spec_key_ascending : kvs::spec_key_descending;
                 ret.emplace_back(
-- 
2.43.0


From 9883ebb8eec2f8ac7901580d8ad669f97a1fe4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:34 +0000
Subject: [PATCH 19/53] fix: left outer index join emits one null-extended
 record only when no match satisfies the condition

---
 .../executor/process/impl/ops/index_join.h    | 19 ++++++++++++-------
 .../process/impl/ops/index_join_context.h     |  1 +
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/jogasaki/executor/process/impl/ops/index_join.h b/src/jogasaki/executor/process/impl/ops/index_join.h
index d49355c..23fd460 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join.h
@@ -411,8 +411,9 @@ public:
         }
         // inner or left_outer join
         if(ctx.matched_ || join_kind_ == join_kind::left_outer) {
+            ctx.emitted_ = false;
             do {
-                if (condition_) {
+                if (condition_ && ctx.matched_) {
                     // newly create c instead of re-using ectx since errors in ectx might have bad impact //TODO resolve this
                     expr::evaluator_context c{
                         resource,
@@ -427,14 +428,11 @@ public:
                         return operation_status_kind::aborted;
                     }
                     if(! r.template to<bool>()) {
-                        if(join_kind_ != join_kind::left_outer) {
-                            // inner join: skip record
-                            continue;
-                        }
-                        // left outer join: nullify output variables and send record downstream
-                        nullify_output_variables(ctx.variables().ref());
+                        // skip record
+                        continue;
                     }
                 }
+                ctx.emitted_ = true;
 resume_calling_child:
                 if (auto call_st = call_downstream(ctx, context); ! call_st) {
                     return call_st;
@@ -442,6 +440,13 @@ resume_calling_child:
                 // clean output variables for next record just in case
                 nullify_output_variables(ctx.variables().ref());
             } while (ctx.matched_ && ctx.matcher_->next(*ctx.req_context()));
+            if(join_kind_ == join_kind::left_outer && ! ctx.emitted_ && ctx.matcher_->result() == status::not_found) {
+                // no matching record satisfied the condition: send the record only once with null output variables
+                ctx.matched_ = false;
+                ctx.emitted_ = true;
+                nullify_output_variables(ctx.variables().ref());
+                goto resume_calling_child;  //NOLINT
+            }
         }
         // normally `res` is not_found here indicating there are no more records to process
         if(auto res = ctx.matcher_->result(); res != status::ok && res != status::not_found) {
diff --git a/src/jogasaki/executor/process/impl/ops/index_join_context.h b/src/jogasaki/executor/process/impl/ops/index_join_context.h
index c8e7305..9ca1828 100644
--- a/src/jogasaki/executor/process/impl/ops/index_join_context.h
+++ b/src/jogasaki/executor/process/impl/ops/index_join_context.h
@@ -102,6 +102,7 @@ private:
 
     // frame variables for yield
     bool matched_{};
+    bool emitted_{};
 };
 
 }  // namespace jogasaki::executor::process::impl::ops
-- 
2.43.0


From bc3805db53fc4c60c4dd0134e14dc476af4a491d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:51 +0000
Subject: [PATCH 20/53] fix: no parallel scan range begins inside an excluded
 key prefix

---
 src/jogasaki/dist/uniform_key_distribution.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jogasaki/dist/uniform_key_distribution.cpp b/src/jogasaki/dist/uniform_key_distribution.cpp
index 2cb2f56..17f5986 100644
--- a/src/jogasaki/dist/uniform_key_distribution.cpp
+++ b/src/jogasaki/dist/uniform_key_distribution.cpp
@@ -16,6 +16,7 @@
 
 #include "uniform_key_distribution.h"
 
+#include <algorithm>
 #include <glog/logging.h>
 
 #include <takatori/util/exception.h>
@@ -195,6 +196,15 @@ std::vector<uniform_key_distribution::pivot_type> uniform_key_distribution::comp
     }
 
     std::vector<pivot_type> pivots = generate_strings2(max_count, low, high);
+    if(range.begin_endpoint() == kvs::end_point_kind::prefixed_exclusive) {
+        // entries starting with the begin key are out of the range, so no sub-range can begin with them
+        pivots.erase(
+            std::remove_if(pivots.begin(), pivots.end(), [&](pivot_type const& p) {
+                return p.compare(0, range.begin_key().size(), range.begin_key()) == 0;
+            }),
+            pivots.end()
+        );
+    }
 
     if(VLOG_IS_ON(log_debug)) {
         std::stringstream ss{};
-- 
2.43.0


From c0a9d26a4c4b2e6a8365e3b4a631688124905ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:39 +0000
Subject: [PATCH 21/53] fix: a lock on a dropped or truncated storage is
 refused

---
 src/jogasaki/storage/storage_manager.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index 759c26f..5286e43 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -183,6 +183,10 @@ std::pair<bool, storage_list> storage_manager::lock_internal(bool shared, storag
     for(auto&& e : storages.entity()) {
         if(lock != nullptr && lock->storage().contains(e)) {
             // lock already held by the given unique lock
+            if(auto s = find_entry(e); ! s || s->delete_reserved()) {
+                // dropped or truncated by the owner of the unique lock
+                return {false, {}};
+            }
             continue;
         }
         auto s = find_entry(e);
@@ -191,7 +195,12 @@ std::pair<bool, storage_list> storage_manager::lock_internal(bool shared, storag
             return {false, {}};
         }
         holders.reserve(max_held);
-        holders.emplace_back(std::move(s), shared);
+        holders.emplace_back(s, shared);
+        if(s->delete_reserved()) {
+            // the storage was dropped or truncated before the lock was acquired. It's not the current storage of the
+            // table any more, and the maintenance thread can delete it at any time.
+            return {false, {}};
+        }
         locked_storages.reserve(max_held);
         locked_storages.emplace_back(e);
     }
-- 
2.43.0


From 13887b495a67d8c3b989fd3857fe78bcef1342e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:41 +0000
Subject: [PATCH 22/53] fix: a statement analyzed before its table was dropped
 or recreated is refused

---
 src/jogasaki/plan/compiler.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/plan/compiler.cpp b/src/jogasaki/plan/compiler.cpp
index f2fa5fd..5336c42 100644
--- a/src/jogasaki/plan/compiler.cpp
+++ b/src/jogasaki/plan/compiler.cpp
@@ -189,7 +189,17 @@ static void add_table_to_storage_list(
 ) {
     auto& secondary_or_primary_index = yugawara::binding::extract<yugawara::storage::index>(relation);
     auto& table = secondary_or_primary_index.table();
-    if(auto v = global::storage_manager()->find_by_name(table.simple_name()); v.has_value()) {
+    auto v = global::storage_manager()->find_by_name(table.simple_name());
+    if(table.owner()->find_index(secondary_or_primary_index.simple_name()).get() != std::addressof(secondary_or_primary_index)) {
+        // the index was dropped or recreated after the statement is analyzed, so the storage found by the name is
+        // not for the definition that the plan is based on
+        throw_exception(plan_exception(create_error_info(
+            error_code::sql_execution_exception,
+            "DML operation was blocked by DDL operation",
+            status::err_illegal_operation
+        )));
+    }
+    if(v.has_value()) {
         // ideally preserve() should be called for the storages/actions list, but currently this function is called from
         // many places and storage count is not calculated
         auto& stgs = container->mutable_storage_operation().storages();
-- 
2.43.0


From c1887d312fa8c9de4c12f513eac2a8b55b6a200f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:41 +0000
Subject: [PATCH 23/53] fix: concurrent CREATE TABLE and TRUNCATE never expose
 an unlocked or missing storage

---
 src/jogasaki/executor/common/create_table.cpp |  3 --
 src/jogasaki/executor/common/ddl_common.cpp   | 21 ++++++++---
 src/jogasaki/executor/common/ddl_common.h     |  7 ++--
 .../executor/common/truncate_table.cpp        | 10 ++----
 src/jogasaki/storage/storage_manager.cpp      | 35 +++++++++++++++----
 src/jogasaki/storage/storage_manager.h        | 10 ++++--
 6 files changed, 60 insertions(+), 26 deletions(-)

diff --git a/src/jogasaki/executor/common/create_table.cpp b/src/jogasaki/executor/common/create_table.cpp
index ba5bcf5..bc70262 100644
--- a/src/jogasaki/executor/common/create_table.cpp
+++ b/src/jogasaki/executor/common/create_table.cpp
@@ -150,9 +150,6 @@ bool create_table::operator()(request_context& context) const {
         set_error_info(context, err);
         return false;
     }
-    if(! lock_storage_entry(context, tid, c->simple_name())) {
-        return false;
-    }
 
     // tx to remember that it has used the storage
     // this is not mandatory for create (since created one is not accessible externally),
diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index da65a95..1f96605 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -163,18 +163,27 @@ bool create_primary_storage(
     auth::authorized_users_action_set const* authorized_actions,
     auth::action_set const* public_actions,
     storage::storage_entry& tid,
-    std::string* serialized
+    std::string* serialized,
+    std::optional<storage::storage_entry> replaced
 ) {
     auto& smgr = *global::storage_manager();
+    auto& tx = *context.transaction();
     auto entry_id = storage::index_id_src++;
     auto storage_key = utils::to_big_endian(smgr.generate_surrogate_id());
     auto opt = global::config_pool()->enable_storage_key() ? std::optional<std::string_view>{storage_key} : std::nullopt;
 
-    if(! smgr.add_entry(entry_id, primary_idx.simple_name(), opt, true)) {
+    // the entry must be locked before others can find it by its name
+    if(! tx.storage_lock()) {
+        tx.storage_lock(smgr.create_unique_lock());
+    }
+    if(! smgr.add_entry(
+           entry_id, primary_idx.simple_name(), opt, true, std::nullopt, std::nullopt, tx.storage_lock().get(), replaced
+       )) {
+        // the name is already used, e.g. by a concurrent transaction that is creating the same table
         set_error_context(
             context,
             error_code::target_already_exists_exception,
-            string_builder{} << "Table id:" << entry_id << " already exists" << string_builder::to_string,
+            string_builder{} << "Table \"" << primary_idx.simple_name() << "\" already exists." << string_builder::to_string,
             status::err_already_exists
         );
         return false;
@@ -208,6 +217,7 @@ bool create_primary_storage(
                opt
            }
        )) {
+        smgr.remove_entry(entry_id);
         set_error_info(context, err);
         return false;
     }
@@ -220,6 +230,7 @@ bool create_primary_storage(
     options.payload(std::move(storage));
     if(auto stg = context.database()->create_storage(
            (opt.has_value() ? opt.value() : primary_idx.simple_name()), options); ! stg) {
+        smgr.remove_entry(entry_id);
         set_error_context(
             context,
             error_code::target_already_exists_exception,
@@ -249,7 +260,7 @@ bool create_secondary_storage(
         set_error_context(
             context,
             error_code::target_already_exists_exception,
-            string_builder{} << "Index id:" << entry_id << " already exists" << string_builder::to_string,
+            string_builder{} << "Index \"" << sec_idx.simple_name() << "\" already exists." << string_builder::to_string,
             status::err_already_exists
         );
         return false;
@@ -261,6 +272,7 @@ bool create_secondary_storage(
            storage,
            utils::metadata_serializer_option{false, nullptr, nullptr, opt}
        )) {
+        smgr.remove_entry(entry_id);
         set_error_info(context, err);
         return false;
     }
@@ -273,6 +285,7 @@ bool create_secondary_storage(
     options.payload(std::move(storage));
     if(auto stg = context.database()->create_storage(
            (opt.has_value() ? opt.value() : sec_idx.simple_name()), options); ! stg) {
+        smgr.remove_entry(entry_id);
         VLOG_LP(log_warning) << "storage " << sec_idx.simple_name() << " already exists ";
         set_error_context(
             context,
diff --git a/src/jogasaki/executor/common/ddl_common.h b/src/jogasaki/executor/common/ddl_common.h
index 4ad6761..edbd479 100644
--- a/src/jogasaki/executor/common/ddl_common.h
+++ b/src/jogasaki/executor/common/ddl_common.h
@@ -66,7 +66,7 @@ bool reserve_delete_index_metadata(
 );
 
 /**
- * @brief Acquire a write lock on a newly created storage entry within the current DDL transaction.
+ * @brief Acquire a write lock on a storage entry within the current DDL transaction.
  * @param context request context containing the transaction
  * @param tid storage entry to lock
  * @param table_name table name used in error messages
@@ -81,12 +81,14 @@ bool lock_storage_entry(
 /**
  * @brief Create a new primary index storage entry in the storage manager and the corresponding KVS storage.
  * Provider metadata is NOT updated — the caller is responsible for updating it if needed.
+ * The current transaction acquires the write lock on the new storage entry.
  * @param context request context
  * @param primary_idx primary index whose metadata is serialized into the new storage
  * @param authorized_actions if non-null, assigned to the new entry's authorized_actions
  * @param public_actions if non-null, assigned to the new entry's public_actions
  * @param [out] tid receives the new storage entry id on success
  * @param [out] serialized if non-null, receives a copy of the serialized storage option
+ * @param replaced the delete-reserved storage entry whose name is taken over by the new one, if any
  * @return true on success; false with context error set on failure
  */
 bool create_primary_storage(
@@ -95,7 +97,8 @@ bool create_primary_storage(
     auth::authorized_users_action_set const* authorized_actions,
     auth::action_set const* public_actions,
     storage::storage_entry& tid,
-    std::string* serialized = nullptr
+    std::string* serialized = nullptr,
+    std::optional<storage::storage_entry> replaced = std::nullopt
 );
 
 /**
diff --git a/src/jogasaki/executor/common/truncate_table.cpp b/src/jogasaki/executor/common/truncate_table.cpp
index 73e0ab0..2630aa4 100644
--- a/src/jogasaki/executor/common/truncate_table.cpp
+++ b/src/jogasaki/executor/common/truncate_table.cpp
@@ -222,7 +222,8 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
         smgr.reserve_delete_entry(e.value());
     }
     // reserve old primary storage entry for lazy deletion
-    smgr.reserve_delete_entry(old_storage_id);
+    // the name is taken over by the new entry, so that there is no moment when the table has no storage entry
+    smgr.reserve_delete_entry(old_storage_id, true);
 
     // create new primary storage entry and shirakami storage,
     // inheriting authorized/public actions from the old entry
@@ -236,7 +237,7 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
     std::string serialized{};
     if(! create_primary_storage(
            context, *primary_idx, std::addressof(inherited_auth), std::addressof(inherited_pub), new_primary_id,
-           std::addressof(serialized)
+           std::addressof(serialized), old_storage_id
        )) {
         return false;
     }
@@ -248,11 +249,6 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
         return false;
     }
 
-    // hold the write lock on the new primary storage entry until the DDL transaction completes
-    if(! lock_storage_entry(context, new_primary_id, c.simple_name())) {
-        return false;
-    }
-
     // create new secondary index storages
     for(auto&& entry : secondaries) {
         storage::storage_entry secondary_id{};
diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index 5286e43..d536539 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -40,7 +40,8 @@ std::size_t storage_manager::size() const noexcept {
 
 bool storage_manager::add_entry(
     storage_entry entry, std::optional<std::string_view> name, std::optional<std::string_view> storage_key,
-    bool is_primary, std::optional<storage_entry> primary_entry, std::optional<std::string_view> original_name
+    bool is_primary, std::optional<storage_entry> primary_entry, std::optional<std::string_view> original_name,
+    unique_lock* lock, std::optional<storage_entry> replaced
 ) {
     bool ret = false;
     std::shared_ptr<impl::storage_control> control{};
@@ -55,15 +56,33 @@ bool storage_manager::add_entry(
             if (! name) {
                 control->delete_reserved(true);
             }
+            if (lock) {
+                control->lock();
+            }
             ret = true;
         }
     }
+    if (ret && name) {
+        // add name after storages_ is updated successfully
+        decltype(storage_names_)::accessor acc;
+        if (! storage_names_.insert(acc, std::string{*name}) && (! replaced || acc->second != *replaced)) {
+            ret = false;
+        } else {
+            acc->second = entry;
+        }
+    }
+    if (control && ! ret) {
+        // the name is already used by another entry
+        storages_.erase(entry);
+    }
     if (ret) {
-        candidate_entries_.push(entry);
-        if (name) {
-            // add name after storages_ is updated successfully
-            storage_names_.emplace(std::string{*name}, entry);
+        if (lock) {
+            std::vector<storage_entry> entries{lock->storage().begin(), lock->storage().end()};
+            entries.emplace_back(entry);
+            std::sort(entries.begin(), entries.end());
+            lock->set_storage_list(storage_list{std::move(entries)});
         }
+        candidate_entries_.push(entry);
         // add storage key mapping
         storage_keys_.emplace(std::string{control->derived_storage_key()}, entry);
     }
@@ -95,14 +114,16 @@ bool storage_manager::remove_entry(storage_entry entry) {
     return false;
 }
 
-bool storage_manager::reserve_delete_entry(storage_entry entry) {
+bool storage_manager::reserve_delete_entry(storage_entry entry, bool keep_name) {
     decltype(storages_)::accessor acc;
     if (! storages_.find(acc, entry)) {
         return false;
     }
     auto& ctrl = *acc->second;
     // name() is still valid here - erase from name map before clearing
-    storage_names_.erase(std::string{*ctrl.name()});
+    if (! keep_name) {
+        storage_names_.erase(std::string{*ctrl.name()});
+    }
     // for pre-1.8 indices (no storage_key), promote name to storage_key before clearing name
     // so that derived_storage_key() remains usable by the maintenance thread
     if (! ctrl.storage_key()) {
diff --git a/src/jogasaki/storage/storage_manager.h b/src/jogasaki/storage/storage_manager.h
index 26bd5e8..421da89 100644
--- a/src/jogasaki/storage/storage_manager.h
+++ b/src/jogasaki/storage/storage_manager.h
@@ -333,10 +333,13 @@ public:
      * @param primary_entry the storage entry of the primary index owning this secondary index. std::nullopt for primary indices.
      * @param original_name the original name of the storage before deletion. Used only when name is std::nullopt.
      * If both name and original_name are std::nullopt, original_name in storage_control will be empty.
+     * @param lock if specified, the unique lock on the new entry is acquired and added to this object before the entry
+     * can be found by its name
+     * @param replaced if specified, the delete-reserved entry whose name is taken over by the new one
      * @return true if the entry was added successfully
-     * @return false is the entry already exists
+     * @return false is the entry or another entry of the same name already exists
      */
-    bool add_entry(storage_entry entry, std::optional<std::string_view> name, std::optional<std::string_view> storage_key = std::nullopt, bool is_primary = true, std::optional<storage_entry> primary_entry = std::nullopt, std::optional<std::string_view> original_name = std::nullopt);
+    bool add_entry(storage_entry entry, std::optional<std::string_view> name, std::optional<std::string_view> storage_key = std::nullopt, bool is_primary = true, std::optional<storage_entry> primary_entry = std::nullopt, std::optional<std::string_view> original_name = std::nullopt, unique_lock* lock = nullptr, std::optional<storage_entry> replaced = std::nullopt);
 
     /**
      * @brief remove storage entry
@@ -351,10 +354,11 @@ public:
      * @param entry the storage entry to reserve for deletion
      * @details removes the entry from the name and key lookup maps, sets delete_reserved flag,
      * but keeps the entry in storages_ for the maintenance thread to complete the deletion.
+     * @param keep_name if true, the name continues to refer to the entry until it's taken over by calling add_entry()
      * @return true if the entry was found and reserved
      * @return false if the entry was not found
      */
-    bool reserve_delete_entry(storage_entry entry);
+    bool reserve_delete_entry(storage_entry entry, bool keep_name = false);
 
     /**
      * @brief return all storage entries that have their delete_reserved flag set
-- 
2.43.0


From e06841ec5728c3d1c6d43be274d0a3ceed424666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:38 +0000
Subject: [PATCH 24/53] fix: concurrently created sequences never share a
 definition id

---
 src/jogasaki/executor/common/ddl_common.cpp |  1 +
 src/jogasaki/executor/sequence/manager.cpp  | 32 +++++++++++++++++++--
 src/jogasaki/executor/sequence/manager.h    | 11 +++++++
 3 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index 1f96605..1f6c782 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -61,6 +61,7 @@ bool create_generated_sequence(
     try {
         if (new_def_id) {
             ms.find_next_empty_def_id(def_id);
+            def_id = context.sequence_manager()->reserve_definition_id(def_id);
             p.definition_id(def_id); // TODO p is part of prepared statement, avoid updating it directly
         }
         context.sequence_manager()->register_sequence(
diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index bd44a19..6bc3292 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -101,13 +101,15 @@ sequence* manager::register_sequence(
 ) {
     sequence_id seq_id{};
     sequences_type::accessor acc;
-    bool inserted = sequences_.insert(acc, def_id);
-    if (inserted) {
+    sequences_.insert(acc, def_id);
+    if (acc->second.id() == details::sequence_element::undefined_id) {
+        // newly inserted, or def_id is reserved by reserve_definition_id()
         if (! assign_new_seq_id_if_not_found) {
             sequences_.erase(acc);
             return {};
         }
         if(auto rc = db_->create_sequence(seq_id); rc != status::ok) {
+            sequences_.erase(acc);
             (void) tx->abort_transaction();
             throw_exception(exception{rc});
         }
@@ -142,11 +144,21 @@ sequence* manager::register_sequence(
     acc->second.sequence(std::make_unique<sequence>(*p, *this, v.version_, v.value_));
 
     if (save_id_map_entry) {
-        save_id_map(tx);
+        // save only the entry registered here - other entries are possibly being changed by other transactions
+        save_id_map(tx, def_id, seq_id);
     }
     return acc->second.sequence();
 }
 
+sequence_definition_id manager::reserve_definition_id(sequence_definition_id lower_bound) {
+    auto ret = lower_bound;
+    sequences_type::accessor acc;
+    while(! sequences_.insert(acc, ret)) {
+        ++ret;
+    }
+    return ret;
+}
+
 void manager::register_sequences(
     kvs::transaction* tx,
     maybe_shared_ptr<yugawara::storage::configurable_provider> const& provider,
@@ -248,6 +260,20 @@ void manager::save_id_map(kvs::transaction* tx) {
     }
 }
 
+void manager::save_id_map(kvs::transaction* tx, sequence_definition_id def_id, sequence_id id) {
+    std::unique_ptr<kvs::transaction> created_tx{};
+    if (! tx) {
+        // for testing purpose
+        created_tx = db_->create_transaction();
+        tx = created_tx.get();
+    }
+    metadata_store s{*tx};
+    s.put(def_id, id);
+    if (created_tx) {
+        (void) created_tx->commit();
+    }
+}
+
 manager::sequences_type const& manager::sequences() const noexcept {
     return sequences_;
 }
diff --git a/src/jogasaki/executor/sequence/manager.h b/src/jogasaki/executor/sequence/manager.h
index 951821b..fb3b71d 100644
--- a/src/jogasaki/executor/sequence/manager.h
+++ b/src/jogasaki/executor/sequence/manager.h
@@ -152,6 +152,16 @@ public:
         bool assign_new_seq_id_if_not_found = true
     );
 
+    /**
+     * @brief reserve unused sequence definition id
+     * @details the reserved id is not returned again by this function until it's registered and removed, so
+     * transactions creating sequences concurrently never share the definition id.
+     * This function is thread-safe and multiple threads can call simultaneously.
+     * @param lower_bound the minimum value of the definition id
+     * @return the definition id reserved
+     */
+    [[nodiscard]] sequence_definition_id reserve_definition_id(sequence_definition_id lower_bound);
+
     /**
      * @brief bulk registering sequences
      * @details this function retrieves sequence definitions from provider and register one by one.
@@ -224,6 +234,7 @@ private:
     void mark_sequence_used_by(kvs::transaction& tx, sequence& seq);
 
     void save_id_map(kvs::transaction* tx);
+    void save_id_map(kvs::transaction* tx, sequence_definition_id def_id, sequence_id id);
     void remove_id_map(sequence_definition_id def_id, kvs::transaction* tx);
 };
 
-- 
2.43.0


From a652d198abf125274e748fe7cf332bb98f38f1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:53 +0000
Subject: [PATCH 25/53] fix: bounds of a sequence are checked without overflow

---
 src/jogasaki/executor/sequence/sequence.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index 3a7625e..d7db271 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -16,6 +16,7 @@
 #include "sequence.h"
 
 #include <atomic>
+#include <cstdint>
 #include <utility>
 
 #include <jogasaki/common_types.h>
@@ -41,6 +42,18 @@ sequence_versioned_value sequence::get() const noexcept {
     return body_.load();
 }
 
+// the distances are calculated as unsigned values because they possibly don't fit in the signed type
+static bool exceeds_maximum(sequence_value cur, sequence_value increment, sequence_value maximum) {
+    return cur > maximum ||
+        static_cast<std::uint64_t>(maximum) - static_cast<std::uint64_t>(cur) < static_cast<std::uint64_t>(increment);
+}
+
+static bool exceeds_minimum(sequence_value cur, sequence_value increment, sequence_value minimum) {
+    return cur < minimum ||
+        static_cast<std::uint64_t>(cur) - static_cast<std::uint64_t>(minimum) <
+            std::uint64_t{} - static_cast<std::uint64_t>(increment);
+}
+
 either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
     parent_->mark_sequence_used_by(tx, *this);
     aligned_sequence_versioned_value cur{};
@@ -53,13 +66,13 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
             continue;
         }
         sequence_value val{};
-        if (info_->increment() > 0 && info_->maximum_value() - cur.value_ < info_->increment()) {
+        if (info_->increment() > 0 && exceeds_maximum(cur.value_, info_->increment(), info_->maximum_value())) {
             if(info_->cycle()) {
                 val = info_->minimum_value();
             } else {
                 return sequence_error::out_of_upper_bound;
             }
-        } else if (info_->increment() < 0 && cur.value_ - info_->minimum_value() < -info_->increment()) {
+        } else if (info_->increment() < 0 && exceeds_minimum(cur.value_, info_->increment(), info_->minimum_value())) {
             if(info_->cycle()) {
                 val = info_->maximum_value();
             } else {
-- 
2.43.0


From 80319d90049de4f76c09ca2060432e38eb8a8295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:53 +0000
Subject: [PATCH 26/53] fix: a sequence value drawn by parallel tasks of a
 transaction is always stored with it

---
 src/jogasaki/executor/sequence/sequence.cpp      | 4 +++-
 src/jogasaki/executor/wrt/fill_record_fields.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/sequence/sequence.cpp b/src/jogasaki/executor/sequence/sequence.cpp
index d7db271..04873d7 100644
--- a/src/jogasaki/executor/sequence/sequence.cpp
+++ b/src/jogasaki/executor/sequence/sequence.cpp
@@ -55,7 +55,6 @@ static bool exceeds_minimum(sequence_value cur, sequence_value increment, sequen
 }
 
 either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
-    parent_->mark_sequence_used_by(tx, *this);
     aligned_sequence_versioned_value cur{};
     aligned_sequence_versioned_value next{};
     do {
@@ -83,6 +82,9 @@ either<sequence_error, sequence_value> sequence::next(kvs::transaction& tx) {
         }
         next = {cur.version_ + 1, val};
     } while(! body_.compare_exchange_strong(cur, next));
+    // mark after updating the value, otherwise notify_updates() called by other task on the same transaction possibly
+    // takes the mark before the update, and the update is never notified
+    parent_->mark_sequence_used_by(tx, *this);
     return next.value_;
 }
 
diff --git a/src/jogasaki/executor/wrt/fill_record_fields.cpp b/src/jogasaki/executor/wrt/fill_record_fields.cpp
index c5cc149..d121f1f 100644
--- a/src/jogasaki/executor/wrt/fill_record_fields.cpp
+++ b/src/jogasaki/executor/wrt/fill_record_fields.cpp
@@ -80,7 +80,7 @@ status next_sequence_value(request_context& ctx, sequence_definition_id def_id,
         return rc;
     }
     auto ret = seq->next(*ctx.transaction()->object());
-    // even if there is an error with next(), it mark the sequence as used by the tx, so call notify_updates first
+    // call notify_updates first even if there is an error with next()
     // in order to flush the in-flight updates, otherwise the sequence marked as used will leak and cause crash
     // when the other tx uses the same address and the leaked sequence pointer is re-used
     try {
-- 
2.43.0


From 219429959dc680adb28574afcf49de5985a44024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 27/53] fix: one missing sequence does not make the others
 unavailable after restart

---
 src/jogasaki/executor/sequence/manager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index 6bc3292..3bc3ce0 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <optional>
 #include <ostream>
+#include <string>
 #include <type_traits>
 #include <unordered_set>
 #include <utility>
@@ -164,8 +165,9 @@ void manager::register_sequences(
     maybe_shared_ptr<yugawara::storage::configurable_provider> const& provider,
     bool assign_new_seq_id_if_not_found
 ) {
+    std::optional<std::string> missing{};
     provider->each_sequence(
-        [this, &tx, assign_new_seq_id_if_not_found](
+        [this, &tx, &missing, assign_new_seq_id_if_not_found](
             std::string_view,
             std::shared_ptr<yugawara::storage::sequence const> const& entry
         ) {
@@ -182,10 +184,14 @@ void manager::register_sequences(
                 false,
                 assign_new_seq_id_if_not_found
             ); p == nullptr) {
-                throw_exception(exception{status::err_not_found, entry->simple_name()});
+                // continue with the others so that they are available
+                missing = entry->simple_name();
             }
         }
     );
+    if (missing) {
+        throw_exception(exception{status::err_not_found, *missing});
+    }
     save_id_map(tx);
 }
 
-- 
2.43.0


From 70ba2a7e8b3f4632d921e66d0325fc28b32c6da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:12 +0000
Subject: [PATCH 28/53] fix: definition id of a missing sequence is not given
 to a new one

---
 src/jogasaki/executor/sequence/manager.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index 3bc3ce0..cc5e911 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -186,6 +186,8 @@ void manager::register_sequences(
             ); p == nullptr) {
                 // continue with the others so that they are available
                 missing = entry->simple_name();
+                // keep the id from being assigned to new sequence while the definition exists
+                (void) reserve_definition_id(def_id);
             }
         }
     );
@@ -231,11 +233,12 @@ bool manager::remove_sequence(
     if (! sequences_.find(acc, def_id)) {
         return false;
     }
-    auto seq_id = acc->second.id();
-    if (auto rc = db_->delete_sequence(seq_id); rc != status::ok && rc != status::err_not_found) {
-        // status::err_not_found never comes here because the sequence is already in sequences_
-        (void) tx->abort_transaction();
-        throw_exception(exception{rc});
+    if (auto seq_id = acc->second.id(); seq_id != details::sequence_element::undefined_id) {
+        if (auto rc = db_->delete_sequence(seq_id); rc != status::ok && rc != status::err_not_found) {
+            // status::err_not_found never comes here because the sequence is already in sequences_
+            (void) tx->abort_transaction();
+            throw_exception(exception{rc});
+        }
     }
     sequences_.erase(acc);
     remove_id_map(def_id, tx);
-- 
2.43.0


From ab2dcd81dc792b76c8e7837fc322c08bfe86e7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:04 +0000
Subject: [PATCH 29/53] fix: CREATE INDEX, DROP INDEX, DROP TABLE and TRUNCATE
 act on the definitions found under the table lock

---
 src/jogasaki/executor/common/create_index.cpp | 24 ++++++++++++++-----
 src/jogasaki/executor/common/drop_index.cpp   | 13 ++++++++++
 src/jogasaki/executor/common/drop_table.cpp   | 11 +++++++++
 .../executor/common/truncate_table.cpp        | 11 +++++++++
 src/jogasaki/executor/executor.cpp            |  4 +++-
 src/jogasaki/plan/compiler.cpp                |  3 +++
 src/jogasaki/plan/executable_statement.cpp    |  7 ++++++
 src/jogasaki/plan/executable_statement.h      | 12 ++++++++++
 src/jogasaki/storage/storage_manager.cpp      | 10 ++++++++
 src/jogasaki/storage/storage_manager.h        | 24 +++++++++++++++++++
 10 files changed, 112 insertions(+), 7 deletions(-)

diff --git a/src/jogasaki/executor/common/create_index.cpp b/src/jogasaki/executor/common/create_index.cpp
index a9b0b18..8b62140 100644
--- a/src/jogasaki/executor/common/create_index.cpp
+++ b/src/jogasaki/executor/common/create_index.cpp
@@ -124,18 +124,30 @@ bool create_index::operator()(request_context& context) const {
         );
         return false;
     }
-    if(! validate_empty_table(context, i->table().simple_name())) {
+    storage::storage_entry storage_id{};
+    if(! acquire_table_lock(context, i->table().simple_name(), storage_id)) {
         return false;
     }
-    if(! utils::validate_index_key_type(context, *i)) {
+    if(! validate_alter_table_auth(context, storage_id)) {
         return false;
     }
-
-    storage::storage_entry storage_id{};
-    if(! acquire_table_lock(context, i->table().simple_name(), storage_id)) {
+    if(provider.find_table(i->table().simple_name()).get() != std::addressof(i->table())) {
+        set_error_context(
+            context,
+            error_code::sql_execution_exception,
+            string_builder{} << "Table \"" << i->table().simple_name() << "\" has been changed by other DDL operation."
+                             << string_builder::to_string,
+            status::err_illegal_operation
+        );
         return false;
     }
-    if(! validate_alter_table_auth(context, storage_id)) {
+    // statements generated before are not aware of the new index, so they must not run after the lock is released
+    global::storage_manager()->find_entry(storage_id)->increment_index_version();
+    // validate after acquiring the lock so that no record is inserted by others
+    if(! validate_empty_table(context, i->table().simple_name())) {
+        return false;
+    }
+    if(! utils::validate_index_key_type(context, *i)) {
         return false;
     }
 
diff --git a/src/jogasaki/executor/common/drop_index.cpp b/src/jogasaki/executor/common/drop_index.cpp
index bcb017e..3bfe100 100644
--- a/src/jogasaki/executor/common/drop_index.cpp
+++ b/src/jogasaki/executor/common/drop_index.cpp
@@ -74,7 +74,20 @@ bool drop_index::operator()(request_context& context) const {
         return false;
     }
 
+    if(provider.find_index(name) != i) {
+        // dropped or recreated by others before acquiring the lock
+        set_error_context(
+            context,
+            error_code::target_not_found_exception,
+            string_builder{} << "Target index \"" << name << "\" is not found." << string_builder::to_string,
+            status::err_not_found
+        );
+        return false;
+    }
+
     auto& smgr = *global::storage_manager();
+    // statements generated before must not run after the lock is released
+    smgr.find_entry(storage_id)->increment_index_version();
     if(! reserve_delete_index_metadata(context, name, *i)) {
         return false;
     }
diff --git a/src/jogasaki/executor/common/drop_table.cpp b/src/jogasaki/executor/common/drop_table.cpp
index 799bb07..7853741 100644
--- a/src/jogasaki/executor/common/drop_table.cpp
+++ b/src/jogasaki/executor/common/drop_table.cpp
@@ -123,6 +123,17 @@ bool drop_table::operator()(request_context& context) const {  //NOLINT(readabil
     if(! acquire_table_lock(context, c.simple_name(), storage_id)) {
         return false;
     }
+    // find again because the table was possibly recreated before acquiring the lock
+    t = provider.find_table(c.simple_name());
+    if(t == nullptr) {
+        set_error_context(
+            context,
+            error_code::target_not_found_exception,
+            string_builder{} << "Table \"" << c.simple_name() << "\" not found." << string_builder::to_string,
+            status::err_not_found
+        );
+        return false;
+    }
     if(! validate_alter_table_auth(context, storage_id)) {
         return false;
     }
diff --git a/src/jogasaki/executor/common/truncate_table.cpp b/src/jogasaki/executor/common/truncate_table.cpp
index 2630aa4..b09b614 100644
--- a/src/jogasaki/executor/common/truncate_table.cpp
+++ b/src/jogasaki/executor/common/truncate_table.cpp
@@ -172,6 +172,17 @@ bool truncate_table::operator()(request_context& context) const {  //NOLINT(read
     if(! acquire_table_lock(context, c.simple_name(), old_storage_id)) {
         return false;
     }
+    // find again because the table was possibly recreated before acquiring the lock
+    t = provider.find_table(c.simple_name());
+    if(t == nullptr) {
+        set_error_context(
+            context,
+            error_code::target_not_found_exception,
+            string_builder{} << "Table \"" << c.simple_name() << "\" not found." << string_builder::to_string,
+            status::err_not_found
+        );
+        return false;
+    }
     if(! validate_alter_table_auth(context, old_storage_id)) {
         return false;
     }
diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index cdecf0a..4fed08f 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -608,7 +608,9 @@ static bool acquire_shared_lock(
 ) {
     auto& smgr = *global::storage_manager();
     auto stgs = e.mirrors()->storage_operation().storage();
-    if(auto lock = smgr.create_shared_lock(stgs, rctx.transaction()->storage_lock().get())) {
+    if(auto lock = smgr.create_shared_lock(stgs, rctx.transaction()->storage_lock().get());
+       lock && smgr.index_version(stgs) == e.index_version()) {
+        // no index has been created or dropped since the statement was generated
         rctx.storage_lock(std::move(lock));
         return true;
     }
diff --git a/src/jogasaki/plan/compiler.cpp b/src/jogasaki/plan/compiler.cpp
index 5336c42..8d9f455 100644
--- a/src/jogasaki/plan/compiler.cpp
+++ b/src/jogasaki/plan/compiler.cpp
@@ -1293,6 +1293,8 @@ static status create_executable_statement(compiler_context& ctx, parameter_set c
     if(auto res = validate_host_variables(ctx, parameters, p->mirrors()->host_variable_info()); res != status::ok) {
         return res;
     }
+    // get the version before the indices to write are collected
+    auto version = global::storage_manager()->index_version(p->mirrors()->storage_operation().storage());
     ctx.sql_text(p->sql_text_shared()); // compiler context doesn't always have sql text, so copy from prepared statement
     switch(p->statement()->kind()) {
         case statement_kind::write:
@@ -1334,6 +1336,7 @@ static status create_executable_statement(compiler_context& ctx, parameter_set c
         default:
             throw_exception(std::logic_error{""});
     }
+    ctx.executable_statement()->index_version(version);
     return status::ok;
 }
 
diff --git a/src/jogasaki/plan/executable_statement.cpp b/src/jogasaki/plan/executable_statement.cpp
index f1ab46b..eb90a6b 100644
--- a/src/jogasaki/plan/executable_statement.cpp
+++ b/src/jogasaki/plan/executable_statement.cpp
@@ -103,5 +103,12 @@ std::shared_ptr<std::string> const &executable_statement::sql_text_shared() cons
     return sql_text_;
 }
 
+void executable_statement::index_version(std::uint64_t arg) noexcept {
+    index_version_ = arg;
+}
+
+std::uint64_t executable_statement::index_version() const noexcept {
+    return index_version_;
+}
 
 } // namespace jogasaki::plan
diff --git a/src/jogasaki/plan/executable_statement.h b/src/jogasaki/plan/executable_statement.h
index 7c3bb6c..0ae8fdd 100644
--- a/src/jogasaki/plan/executable_statement.h
+++ b/src/jogasaki/plan/executable_statement.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <memory>
 #include <string>
@@ -87,6 +88,16 @@ public:
 
     [[nodiscard]] std::shared_ptr<std::string> const& sql_text_shared() const noexcept;
 
+    /**
+     * @brief setter for the version of the index definitions that this statement is based on
+     */
+    void index_version(std::uint64_t arg) noexcept;
+
+    /**
+     * @brief accessor to the version of the index definitions that this statement is based on
+     */
+    [[nodiscard]] std::uint64_t index_version() const noexcept;
+
 private:
     maybe_shared_ptr<::takatori::statement::statement> statement_{};
     yugawara::compiled_info compiled_info_{};
@@ -95,6 +106,7 @@ private:
     std::shared_ptr<variable_table> host_variables_{};
     std::shared_ptr<mirror_container> mirrors_{};
     std::shared_ptr<std::string> sql_text_{};
+    std::uint64_t index_version_{};
 };
 
 } // namespace jogasaki::plan
diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index d536539..66a2c32 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -266,6 +266,16 @@ std::shared_ptr<impl::storage_control> storage_manager::find_entry(storage_entry
     return {};
 }
 
+std::uint64_t storage_manager::index_version(storage_list_view storages) {
+    std::uint64_t ret{};
+    for(auto&& e : storages.entity()) {
+        if(auto s = find_entry(e)) {
+            ret += s->index_version();
+        }
+    }
+    return ret;
+}
+
 std::optional<storage_entry> storage_manager::find_by_name(std::string_view name) {
     decltype(storage_names_)::const_accessor acc{};
     if (storage_names_.find(acc, std::string{name})) {
diff --git a/src/jogasaki/storage/storage_manager.h b/src/jogasaki/storage/storage_manager.h
index 421da89..2b54618 100644
--- a/src/jogasaki/storage/storage_manager.h
+++ b/src/jogasaki/storage/storage_manager.h
@@ -16,6 +16,7 @@
 #pragma once
 
 #include <atomic>
+#include <cstdint>
 #include <memory>
 #include <optional>
 #include <string>
@@ -285,6 +286,21 @@ public:
         delete_reserved_.store(value);
     }
 
+    /**
+     * @brief return the version of the index definitions on this storage
+     * @details the version is incremented each time index is created or dropped
+     */
+    [[nodiscard]] std::uint64_t index_version() const noexcept {
+        return index_version_.load();
+    }
+
+    /**
+     * @brief increment the version of the index definitions on this storage
+     */
+    void increment_index_version() noexcept {
+        index_version_.fetch_add(1);
+    }
+
 private:
     std::atomic<lock_state> state_{};
     std::optional<std::string> name_{};
@@ -296,6 +312,7 @@ private:
     auth::action_set public_actions_{};
     std::atomic_size_t ref_transaction_count_{};
     std::atomic_bool delete_reserved_{false};
+    std::atomic_uint64_t index_version_{};
 };
 
 } // namespace impl
@@ -360,6 +377,13 @@ public:
      */
     bool reserve_delete_entry(storage_entry entry, bool keep_name = false);
 
+    /**
+     * @brief return the version of the index definitions on the storages
+     * @param storages the primary storage entries
+     * @return the version, which differs if index is created or dropped on any of the storages
+     */
+    [[nodiscard]] std::uint64_t index_version(storage_list_view storages);
+
     /**
      * @brief return all storage entries that have their delete_reserved flag set
      * @details drains candidate_entries_, checks each against storages_, returns those with
-- 
2.43.0


From 38225e45508f4a99a45099daa9e700b230383d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:46 +0000
Subject: [PATCH 30/53] fix: a sequence is removed only after the system table
 accepts it

---
 src/jogasaki/executor/sequence/manager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/sequence/manager.cpp b/src/jogasaki/executor/sequence/manager.cpp
index cc5e911..e5be31a 100644
--- a/src/jogasaki/executor/sequence/manager.cpp
+++ b/src/jogasaki/executor/sequence/manager.cpp
@@ -233,6 +233,8 @@ bool manager::remove_sequence(
     if (! sequences_.find(acc, def_id)) {
         return false;
     }
+    // update the system table first because it possibly fails by cc error, in which case the sequence must be left usable
+    remove_id_map(def_id, tx);
     if (auto seq_id = acc->second.id(); seq_id != details::sequence_element::undefined_id) {
         if (auto rc = db_->delete_sequence(seq_id); rc != status::ok && rc != status::err_not_found) {
             // status::err_not_found never comes here because the sequence is already in sequences_
@@ -241,7 +243,6 @@ bool manager::remove_sequence(
         }
     }
     sequences_.erase(acc);
-    remove_id_map(def_id, tx);
     return true;
 }
 
-- 
2.43.0


From f5c9373a62be0fb8cef91c01125d3e3c34b2ef72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:02 +0000
Subject: [PATCH 31/53] fix: a concurrency conflict while removing a sequence
 is reported as such

---
 src/jogasaki/executor/common/ddl_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/executor/common/ddl_common.cpp b/src/jogasaki/executor/common/ddl_common.cpp
index 1f6c782..624131d 100644
--- a/src/jogasaki/executor/common/ddl_common.cpp
+++ b/src/jogasaki/executor/common/ddl_common.cpp
@@ -101,6 +101,7 @@ bool remove_generated_sequence(
     } catch(executor::sequence::exception const& e) {
         // unrecoverable error - transaction aborted and we cannot continue
         VLOG_LP(log_error) << "removing sequence '" << sequence_name << "' failed";
+        handle_kvs_errors(context, e.get_status());
         set_error_context(
             context,
             error_code::sql_execution_exception,
-- 
2.43.0


From 218928cf7cfbef47dd4b0e1189cdbb8042963d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:19 +0000
Subject: [PATCH 32/53] fix: a statement referring to a dropped index or table
 is refused also when it was analyzed before the DDL operation

---
 src/jogasaki/executor/common/create_index.cpp |  4 +--
 src/jogasaki/executor/common/drop_index.cpp   |  4 +--
 src/jogasaki/plan/compiler.cpp                | 31 ++++++++++++++-----
 src/jogasaki/plan/mirror_container.cpp        |  8 +++++
 src/jogasaki/plan/mirror_container.h          | 14 +++++++++
 5 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/jogasaki/executor/common/create_index.cpp b/src/jogasaki/executor/common/create_index.cpp
index 8b62140..b714ca2 100644
--- a/src/jogasaki/executor/common/create_index.cpp
+++ b/src/jogasaki/executor/common/create_index.cpp
@@ -141,8 +141,6 @@ bool create_index::operator()(request_context& context) const {
         );
         return false;
     }
-    // statements generated before are not aware of the new index, so they must not run after the lock is released
-    global::storage_manager()->find_entry(storage_id)->increment_index_version();
     // validate after acquiring the lock so that no record is inserted by others
     if(! validate_empty_table(context, i->table().simple_name())) {
         return false;
@@ -170,6 +168,8 @@ bool create_index::operator()(request_context& context) const {
         }
         return false;
     }
+    // statements generated before are not aware of the new index, so they must not run after the lock is released
+    global::storage_manager()->find_entry(storage_id)->increment_index_version();
     // tx to remember that it has used the storage
     // this is not mandatory for create (since created one is not accessible externally),
     // but to be consistent with drop ddls
diff --git a/src/jogasaki/executor/common/drop_index.cpp b/src/jogasaki/executor/common/drop_index.cpp
index 3bfe100..31b5792 100644
--- a/src/jogasaki/executor/common/drop_index.cpp
+++ b/src/jogasaki/executor/common/drop_index.cpp
@@ -86,12 +86,12 @@ bool drop_index::operator()(request_context& context) const {
     }
 
     auto& smgr = *global::storage_manager();
-    // statements generated before must not run after the lock is released
-    smgr.find_entry(storage_id)->increment_index_version();
     if(! reserve_delete_index_metadata(context, name, *i)) {
         return false;
     }
     provider.remove_index(name);
+    // statements generated before must not run after the lock is released
+    smgr.find_entry(storage_id)->increment_index_version();
 
     auto e = smgr.find_by_name(name);
     if(! e) {
diff --git a/src/jogasaki/plan/compiler.cpp b/src/jogasaki/plan/compiler.cpp
index 8d9f455..7476fd2 100644
--- a/src/jogasaki/plan/compiler.cpp
+++ b/src/jogasaki/plan/compiler.cpp
@@ -182,6 +182,16 @@ static void set_compile_error_impl(
     ctx.error_info(info);
 }
 
+static void throw_index_changed() {
+    // the index was dropped or recreated after the statement is analyzed, so the storage found by the name is
+    // not for the definition that the plan is based on
+    throw_exception(plan_exception(create_error_info(
+        error_code::sql_execution_exception,
+        "DML operation was blocked by DDL operation",
+        status::err_illegal_operation
+    )));
+}
+
 static void add_table_to_storage_list(
     takatori::descriptor::relation const& relation,
     std::shared_ptr<mirror_container> const& container,
@@ -190,15 +200,11 @@ static void add_table_to_storage_list(
     auto& secondary_or_primary_index = yugawara::binding::extract<yugawara::storage::index>(relation);
     auto& table = secondary_or_primary_index.table();
     auto v = global::storage_manager()->find_by_name(table.simple_name());
-    if(table.owner()->find_index(secondary_or_primary_index.simple_name()).get() != std::addressof(secondary_or_primary_index)) {
-        // the index was dropped or recreated after the statement is analyzed, so the storage found by the name is
-        // not for the definition that the plan is based on
-        throw_exception(plan_exception(create_error_info(
-            error_code::sql_execution_exception,
-            "DML operation was blocked by DDL operation",
-            status::err_illegal_operation
-        )));
+    auto index = table.owner()->find_index(secondary_or_primary_index.simple_name());
+    if(index.get() != std::addressof(secondary_or_primary_index)) {
+        throw_index_changed();
     }
+    container->add_index(std::move(index));
     if(v.has_value()) {
         // ideally preserve() should be called for the storages/actions list, but currently this function is called from
         // many places and storage count is not calculated
@@ -253,6 +259,10 @@ void preprocess(
                 auto& secondary_or_primary_index = yugawara::binding::extract<yugawara::storage::index>(f.source());
                 auto& table = secondary_or_primary_index.table();
                 auto primary = table.owner()->find_primary_index(table);
+                if(! primary) {
+                    // the table has been dropped after the statement is analyzed
+                    throw_index_changed();
+                }
                 if(*primary == secondary_or_primary_index) {
                     // find uses primary index
                     container->work_level().set_minimum(statement_work_level_kind::key_operation);
@@ -1295,6 +1305,11 @@ static status create_executable_statement(compiler_context& ctx, parameter_set c
     }
     // get the version before the indices to write are collected
     auto version = global::storage_manager()->index_version(p->mirrors()->storage_operation().storage());
+    for(auto&& index : p->mirrors()->indices()) {
+        if(ctx.storage_provider()->find_index(index->simple_name()) != index) {
+            throw_index_changed();
+        }
+    }
     ctx.sql_text(p->sql_text_shared()); // compiler context doesn't always have sql text, so copy from prepared statement
     switch(p->statement()->kind()) {
         case statement_kind::write:
diff --git a/src/jogasaki/plan/mirror_container.cpp b/src/jogasaki/plan/mirror_container.cpp
index 4b974fa..a9d685d 100644
--- a/src/jogasaki/plan/mirror_container.cpp
+++ b/src/jogasaki/plan/mirror_container.cpp
@@ -60,4 +60,12 @@ storage::storage_operation const& mirror_container::storage_operation() const no
     return storage_operation_;
 }
 
+void mirror_container::add_index(std::shared_ptr<yugawara::storage::index const> index) {
+    indices_.emplace_back(std::move(index));
+}
+
+std::vector<std::shared_ptr<yugawara::storage::index const>> const& mirror_container::indices() const noexcept {
+    return indices_;
+}
+
 } // namespace jogasaki::plan
diff --git a/src/jogasaki/plan/mirror_container.h b/src/jogasaki/plan/mirror_container.h
index 06a679e..2bd3d08 100644
--- a/src/jogasaki/plan/mirror_container.h
+++ b/src/jogasaki/plan/mirror_container.h
@@ -18,8 +18,10 @@
 #include <memory>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 #include <takatori/plan/process.h>
+#include <yugawara/storage/index.h>
 
 #include <jogasaki/executor/process/impl/variable_table_info.h>
 #include <jogasaki/meta/external_record_meta.h>
@@ -110,12 +112,24 @@ public:
      */
     [[nodiscard]] storage::storage_operation const& storage_operation() const noexcept;
 
+    /**
+     * @brief add an index that the statement refers to
+     * @note use this only when constructing the prepared statement
+     */
+    void add_index(std::shared_ptr<yugawara::storage::index const> index);
+
+    /**
+     * @brief accessor to the indices that the statement refers to
+     */
+    [[nodiscard]] std::vector<std::shared_ptr<yugawara::storage::index const>> const& indices() const noexcept;
+
 private:
     std::unordered_map<step_index, variable_definition> variable_definitions_{};
     std::shared_ptr<executor::process::impl::variable_table_info> host_variable_info_{};
     std::shared_ptr<meta::external_record_meta> external_writer_meta_{};
     statement_work_level work_level_{};
     storage::storage_operation storage_operation_{};
+    std::vector<std::shared_ptr<yugawara::storage::index const>> indices_{};
 };
 
 } // namespace jogasaki::plan
-- 
2.43.0


From 8c29ed5cdb1b7f284cb2f4d8a0006052ee647427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:36 +0000
Subject: [PATCH 33/53] fix: looking up a storage by name never deadlocks with
 dropping it

---
 src/jogasaki/storage/storage_manager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/storage/storage_manager.cpp b/src/jogasaki/storage/storage_manager.cpp
index 66a2c32..ba73427 100644
--- a/src/jogasaki/storage/storage_manager.cpp
+++ b/src/jogasaki/storage/storage_manager.cpp
@@ -320,6 +320,8 @@ std::optional<std::string> storage_manager::get_storage_key(std::string_view nam
         return std::nullopt;
     }
     auto entry = acc->second;
+    // don't hold this while accessing storages_, because entries are removed by holding the accessors in the opposite order
+    acc.release();
 
     decltype(storages_)::const_accessor storages_acc{};
     if (! storages_.find(storages_acc, entry)) {
@@ -334,6 +336,8 @@ std::optional<std::string> storage_manager::get_index_name(std::string_view stor
         return std::nullopt;
     }
     auto entry = acc->second;
+    // don't hold this while accessing storages_, because entries are removed by holding the accessors in the opposite order
+    acc.release();
 
     decltype(storages_)::const_accessor storages_acc{};
     if (! storages_.find(storages_acc, entry)) {
-- 
2.43.0


From 8790b42449de02c409eb8c5fa784466d1f34e917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:56 +0000
Subject: [PATCH 34/53] fix: a key-value commit reports the outcome its
 callback received

---
 src/jogasaki/api/kvsservice/transaction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/api/kvsservice/transaction.cpp b/src/jogasaki/api/kvsservice/transaction.cpp
index c297acc..beb7a59 100644
--- a/src/jogasaki/api/kvsservice/transaction.cpp
+++ b/src/jogasaki/api/kvsservice/transaction.cpp
@@ -112,8 +112,8 @@ status transaction::commit() {
     ){
         (void) ec;
         (void) marker;
-        callback_called = true;
         code = st;
+        callback_called = true; // publishes code: the waiter returns as soon as this is set
     });
     if(! b) {
         // NOTE using busy wait for OCC is acceptable
-- 
2.43.0


From 502cf8064341fc318403cb211906829b195ee1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:56 +0000
Subject: [PATCH 35/53] fix: a key-value transaction is disposed only after its
 running requests, later ones are refused

---
 src/jogasaki/api/kvsservice/transaction.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/transaction.cpp b/src/jogasaki/api/kvsservice/transaction.cpp
index beb7a59..2d9ff7c 100644
--- a/src/jogasaki/api/kvsservice/transaction.cpp
+++ b/src/jogasaki/api/kvsservice/transaction.cpp
@@ -19,6 +19,7 @@
 #include <atomic>
 #include <cstddef>
 #include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <google/protobuf/stubs/port.h>
 
@@ -295,6 +296,9 @@ tateyama::proto::kvs::response::Error const &transaction::get_error_info() const
 }
 
 status transaction::dispose() {
+    // requests of this transaction may be running or waiting for the mutex
+    std::unique_lock<std::mutex> lock{mtx_tx_};
+    commit_abort_called_ = true;
     auto code = sharksfin::transaction_dispose(ctrl_handle_);
     return convert(code);
 }
-- 
2.43.0


From e33309e64107e88c5b6e1cd5cc4eca3b0ac79e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:18 +0000
Subject: [PATCH 36/53] fix: a key-value request on a record being inserted by
 another transaction is answered

---
 src/jogasaki/api/kvsservice/convert.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/convert.h b/src/jogasaki/api/kvsservice/convert.h
index f64e444..12d9f9b 100644
--- a/src/jogasaki/api/kvsservice/convert.h
+++ b/src/jogasaki/api/kvsservice/convert.h
@@ -67,6 +67,9 @@ inline status convert(sharksfin::StatusCode code) {
             return status::err_inactive_transaction;
         case sharksfin::StatusCode::ERR_BLOCKED_BY_CONCURRENT_OPERATION:
             return status::err_blocked_by_concurrent_operation;
+        case sharksfin::StatusCode::CONCURRENT_OPERATION:
+            // the record is being inserted by other transaction
+            return status::err_blocked_by_concurrent_operation;
         case sharksfin::StatusCode::ERR_RESOURCE_LIMIT_REACHED:
             return status::err_resource_limit_reached;
         case sharksfin::StatusCode::ERR_INVALID_KEY_LENGTH:
-- 
2.43.0


From a1def153dc3af86ff1cfa05b5e6e46bdbd5d53a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:18 +0000
Subject: [PATCH 37/53] fix: a handle of a disposed key-value transaction never
 designates another transaction

---
 src/jogasaki/api/kvsservice/transaction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/api/kvsservice/transaction.cpp b/src/jogasaki/api/kvsservice/transaction.cpp
index 2d9ff7c..4159c1c 100644
--- a/src/jogasaki/api/kvsservice/transaction.cpp
+++ b/src/jogasaki/api/kvsservice/transaction.cpp
@@ -67,7 +67,9 @@ transaction::transaction(jogasaki::api::database *db,
             code != sharksfin::StatusCode::OK) {
         throw_exception(std::logic_error{"transaction_borrow_owner failed"});
     }
-    system_id_ = (std::uint64_t)(this); // NOLINT
+    // never reused: a handle kept after dispose must not designate another transaction
+    static std::atomic<std::uint64_t> next_system_id{1};
+    system_id_ = next_system_id++;
     error_.set_code(static_cast<google::protobuf::int32>(status::ok));
     error_.clear_detail();
 }
-- 
2.43.0


From 7a3e4cd3e3b50bb88d1ada4f3a8711df2b2cc748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:18 +0000
Subject: [PATCH 38/53] fix: a key-value request with an unknown enum value is
 answered with an error

---
 src/jogasaki/api/kvsservice/impl/service.cpp | 22 ++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/impl/service.cpp b/src/jogasaki/api/kvsservice/impl/service.cpp
index c041ae3..2565f1f 100644
--- a/src/jogasaki/api/kvsservice/impl/service.cpp
+++ b/src/jogasaki/api/kvsservice/impl/service.cpp
@@ -165,6 +165,12 @@ static void error_begin(status status, std::shared_ptr<tateyama::api::server::re
     }
 }
 
+// NOTE: proto3 enums are open - values unknown to this version arrive as they are
+static bool is_known(tateyama::proto::kvs::transaction::Option const &opt) {
+    return tateyama::proto::kvs::transaction::Type_IsValid(opt.type()) &&
+        tateyama::proto::kvs::transaction::Priority_IsValid(opt.priority());
+}
+
 static status_message check_supported(transaction_option &opt) {
     // TODO support various options
     if (opt.type() != transaction_type::occ) {
@@ -202,6 +208,10 @@ static status_message check_supported(transaction_option &opt) {
 void service::command_begin(tateyama::proto::kvs::request::Request const &proto_req,
                                  std::shared_ptr<tateyama::api::server::response> &res) {
     auto &begin = proto_req.begin();
+    if (! is_known(begin.transaction_option())) {
+        error_begin(status::err_invalid_argument, res);
+        return;
+    }
     auto option = convert(begin.transaction_option());
     if (auto sm = check_supported(option); sm.status_code() != status::ok) {
         error_begin(sm.status_code(), res, sm.message());
@@ -259,6 +269,10 @@ static status_message check_supported(tateyama::proto::kvs::request::CommitStatu
 void service::command_commit(tateyama::proto::kvs::request::Request const&proto_req,
                                   std::shared_ptr<tateyama::api::server::response> &res) {
     auto &commit = proto_req.commit();
+    if (! tateyama::proto::kvs::request::CommitStatus_IsValid(commit.notification_type())) {
+        error_commit(status::err_invalid_argument, res);
+        return;
+    }
     if (auto sm = check_supported(commit.notification_type()); sm.status_code() != status::ok) {
         error_commit(sm.status_code(), res, sm.message());
         return;
@@ -374,6 +388,10 @@ void service::command_put(tateyama::proto::kvs::request::Request const &proto_re
         error_put(status::err_unsupported, res);
         return;
     }
+    if (! tateyama::proto::kvs::request::Put_Type_IsValid(put.type())) {
+        error_put(status::err_invalid_argument, res);
+        return;
+    }
     auto &proto_handle = put.transaction_handle();
     auto tx = store_->find_transaction(proto_handle.system_id());
     if (tx == nullptr) {
@@ -508,6 +526,10 @@ void service::command_remove(tateyama::proto::kvs::request::Request const &proto
         error_remove(status::err_unsupported, res);
         return;
     }
+    if (! tateyama::proto::kvs::request::Remove_Type_IsValid(remove.type())) {
+        error_remove(status::err_invalid_argument, res);
+        return;
+    }
     auto &proto_handle = remove.transaction_handle();
     auto tx = store_->find_transaction(proto_handle.system_id());
     if (tx == nullptr) {
-- 
2.43.0


From 131ad2fe067551836cee23f3ac3b2928dca110cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:18 +0000
Subject: [PATCH 39/53] fix: key-value transactions left open are disposed
 before the database closes

---
 src/jogasaki/api/kvsservice/resource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/resource.cpp b/src/jogasaki/api/kvsservice/resource.cpp
index 0db9d75..22890ad 100644
--- a/src/jogasaki/api/kvsservice/resource.cpp
+++ b/src/jogasaki/api/kvsservice/resource.cpp
@@ -57,6 +57,8 @@ bool resource::start(framework::environment& env) {
 }
 
 bool resource::shutdown(framework::environment&) {
+    // transactions left by clients must be disposed before sql resource closes the database
+    store_.reset();
     return true;
 }
 
-- 
2.43.0


From b4a851a48a35b894daeae03167c812a9afe84637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 40/53] fix: a negative decimal read by a key-value get keeps
 its sign

---
 src/jogasaki/api/kvsservice/serializer.cpp | 30 ++++------------------
 1 file changed, 5 insertions(+), 25 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index 81d5dc0..6008379 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -252,32 +252,12 @@ static status decode_character(jogasaki::kvs::coding_spec const &spec, yugawara:
 
 static inline void set_decimal(data::any &dest, tateyama::proto::kvs::data::Value *value) {
     auto triple = dest.to<takatori::decimal::triple>();
-    const auto lo = triple.coefficient_low();
-    const auto hi = triple.coefficient_high();
-    std::string buf{};
-    const auto buflen = sizeof(lo) + sizeof(hi);
-    buf.resize(buflen);
-    auto v = lo;
-    for (int i = 0; i < 8; i++) {
-        buf[15 - i] = static_cast<char>(v & 0xffU);
-        v >>= 8U;
-    }
-    v = hi;
-    for (int i = 0; i < 8; i++) {
-        buf[7 - i] = static_cast<char>(v & 0xffU);
-        v >>= 8U;
-    }
-    // skip zero-padding
-    std::size_t start = 0;
-    while (start < buflen - 1) {
-        if (buf[start] != 0) {
-            break;
-        }
-        start++;
-    }
+    // unscaled value is the two's complement of the signed coefficient in big endian
+    auto [hi, lo, sz] = jogasaki::utils::make_signed_coefficient_full(triple);
+    jogasaki::utils::decimal_buffer buf{};
+    jogasaki::utils::create_decimal(static_cast<std::int8_t>(triple.sign()), lo, hi, sz, buf);
     auto *decimal = value->mutable_decimal_value();
-    // NOTE: buf.size() returns 0, not 16
-    decimal->set_unscaled_value(std::addressof(buf[start]), buflen - start);
+    decimal->set_unscaled_value(buf.data(), sz);
     decimal->set_exponent(triple.exponent());
 }
 
-- 
2.43.0


From 4a8baabc3d2c6f4d6db8216723a3e93d47455e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 41/53] fix: a key-value request with a decimal of more octets
 than supported is refused

---
 src/jogasaki/api/kvsservice/serializer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index 6008379..ee39560 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -164,6 +164,11 @@ status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data
             }
             case takatori::type::type_kind::decimal: {
                 const auto &dec = value->decimal_value();
+                const auto &coefficient = dec.unscaled_value();
+                if (coefficient.empty() || coefficient.size() > jogasaki::utils::max_decimal_length ||
+                    ! jogasaki::utils::validate_decimal_coefficient(coefficient)) {
+                    return status::err_invalid_argument;
+                }
                 auto triple = jogasaki::utils::read_decimal(dec.unscaled_value(), -dec.exponent());
                 auto ctype = cd.column()->optional_type();
                 if (ctype.empty()) {
-- 
2.43.0


From b8c82c9061680afbc2bc7e5e579d0bf347a3deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 42/53] fix: a null boolean is read by a key-value get as null

---
 src/jogasaki/api/kvsservice/serializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index ee39560..fcd7709 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -363,7 +363,7 @@ status deserialize(jogasaki::kvs::coding_spec const &spec, yugawara::storage::co
         case takatori::type::type_kind::boolean: {
             auto type = meta::field_type{meta::field_enum_tag<kind::boolean>};
             s = decode(nullable, stream, type, spec, dest);
-            if (s == status::ok) {
+            if (s == status::ok && !dest.empty()) {
                 value->set_boolean_value(dest.to<bool>());
             }
             break;
-- 
2.43.0


From cbb2732d6eb773b6192c1b45c455e53bd6bc4492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 43/53] fix: key-value requests encode decimals in the decimal
 context of the engine

---
 src/jogasaki/api/kvsservice/serializer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index fcd7709..0649a57 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -43,6 +43,7 @@
 #include <jogasaki/api/kvsservice/column_data.h>
 #include <jogasaki/api/kvsservice/status.h>
 #include <jogasaki/data/any.h>
+#include <jogasaki/executor/expr/details/decimal_context.h>
 #include <jogasaki/kvs/coder.h>
 #include <jogasaki/kvs/coding_context.h>
 #include <jogasaki/kvs/writable_stream.h>
@@ -169,6 +170,7 @@ status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data
                     ! jogasaki::utils::validate_decimal_coefficient(coefficient)) {
                     return status::err_invalid_argument;
                 }
+                executor::expr::details::ensure_decimal_context();
                 auto triple = jogasaki::utils::read_decimal(dec.unscaled_value(), -dec.exponent());
                 auto ctype = cd.column()->optional_type();
                 if (ctype.empty()) {
-- 
2.43.0


From 83efc874b8a328e8f57ade0e91694fdd42096cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 44/53] fix: a decimal is encoded whatever earlier operations
 left in the decimal context of the thread

---
 src/jogasaki/kvs/writable_stream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jogasaki/kvs/writable_stream.cpp b/src/jogasaki/kvs/writable_stream.cpp
index d46b097..4422480 100644
--- a/src/jogasaki/kvs/writable_stream.cpp
+++ b/src/jogasaki/kvs/writable_stream.cpp
@@ -173,6 +173,7 @@ status writable_stream::do_write(runtime_t<meta::field_type_kind::decimal> data,
     }
     std::size_t precision = option.precision_.value();
     std::size_t scale = option.scale_.value();
+    decimal::context.clear_status();  // the context is thread local and may keep the status of earlier operations
     decimal::Decimal x{data};
     if((decimal::context.status() & MPD_IEEE_Invalid_operation) != 0) {
         decimal_error_logging("value creation", data, precision, scale, -1);
-- 
2.43.0


From caca17b80d8935f53140afea1baf321902f57cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:49 +0000
Subject: [PATCH 45/53] fix: a char value in a key-value request is padded as
 SQL statements store it

---
 src/jogasaki/api/kvsservice/serializer.cpp  | 31 +++++++++++----------
 src/jogasaki/api/kvsservice/serializer.h    |  7 +++--
 src/jogasaki/api/kvsservice/transaction.cpp | 16 +++++------
 3 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/jogasaki/api/kvsservice/serializer.cpp b/src/jogasaki/api/kvsservice/serializer.cpp
index 0649a57..77873ce 100644
--- a/src/jogasaki/api/kvsservice/serializer.cpp
+++ b/src/jogasaki/api/kvsservice/serializer.cpp
@@ -64,10 +64,10 @@ using kind = jogasaki::meta::field_type_kind;
 namespace jogasaki::api::kvsservice {
 
 status get_bufsize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data> const &list,
-                   std::size_t &size) {
+                   std::size_t &size, bool coding_for_write) {
     // NOTE empty_stream is created just for getting enough buffer size
     jogasaki::kvs::writable_stream empty_stream{nullptr, 0, true};
-    auto s = serialize(spec, list, empty_stream);
+    auto s = serialize(spec, list, empty_stream, coding_for_write);
     if (s == status::ok) {
         size = empty_stream.size();
     }
@@ -75,9 +75,10 @@ status get_bufsize(jogasaki::kvs::coding_spec const &spec, std::vector<column_da
 }
 
 static inline status encode(bool nullable, data::any const& data,
-    meta::field_type const& type, jogasaki::kvs::coding_spec const & spec, jogasaki::kvs::writable_stream & results) {
+    meta::field_type const& type, jogasaki::kvs::coding_spec const & spec, jogasaki::kvs::writable_stream & results, bool coding_for_write) {
     jogasaki::status s{};
     kvs::coding_context ctx{};
+    ctx.coding_for_write(coding_for_write);
     if (nullable) {
         s = jogasaki::kvs::encode_nullable(data, type, spec, ctx, results);
     } else {
@@ -99,7 +100,7 @@ static status check_character(column_data const &cd, std::string_view view) {
 }
 
 status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data> const &list,
-                 jogasaki::kvs::writable_stream &results) {
+                 jogasaki::kvs::writable_stream &results, bool coding_for_write) {
     for (auto &cd : list) {
         const auto value = cd.value();
         const auto nullable = cd.column()->criteria().nullity().nullable();
@@ -109,7 +110,7 @@ status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data
             // TODO check
             data::any data{};
             auto type = meta::field_type{};
-            s = encode(nullable, data, type, spec, results);
+            s = encode(nullable, data, type, spec, results, coding_for_write);
             if (s != status::ok) {
                 return s;
             }
@@ -119,25 +120,25 @@ status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data
             case takatori::type::type_kind::int4: {
                 data::any data{std::in_place_type<std::int32_t>, value->int4_value()};
                 auto type = meta::field_type{meta::field_enum_tag<kind::int4>};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::int8: {
                 data::any data{std::in_place_type<std::int64_t>, value->int8_value()};
                 auto type = meta::field_type{meta::field_enum_tag<kind::int8>};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::float4: {
                 data::any data{std::in_place_type<std::float_t>, value->float4_value()};
                 auto type = meta::field_type{meta::field_enum_tag<kind::float4>};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::float8: {
                 data::any data{std::in_place_type<std::double_t>, value->float8_value()};
                 auto type = meta::field_type{meta::field_enum_tag<kind::float8>};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::character: {
@@ -153,14 +154,14 @@ status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data
                     character_type->varying(), character_type->length()
                 )};
                 // TODO spec should have storage_spec(padding, length)
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::boolean: {
                 std::int8_t v = value->boolean_value() ? 1 : 0;
                 data::any data{std::in_place_type<std::int8_t>, v};
                 auto type = meta::field_type{meta::field_enum_tag<kind::boolean>};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::decimal: {
@@ -180,14 +181,14 @@ status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data
                 auto type{meta::field_type{std::make_shared<meta::decimal_field_option>(
                         decimal_type->precision(), decimal_type->scale())}};
                 data::any data{std::in_place_type<takatori::decimal::triple>, triple};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::date: {
                 takatori::datetime::date date{value->date_value()};
                 data::any data{std::in_place_type<takatori::datetime::date>, date};
                 auto type = meta::field_type{meta::field_enum_tag<kind::date>};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::time_of_day: {
@@ -195,7 +196,7 @@ status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data
                 takatori::datetime::time_of_day time{nanosec};
                 data::any data{std::in_place_type<takatori::datetime::time_of_day>, time};
                 auto type = meta::field_type{std::make_shared<meta::time_of_day_field_option>()};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             case takatori::type::type_kind::time_point: {
@@ -205,7 +206,7 @@ status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data
                 takatori::datetime::time_point time{offset, diff};
                 data::any data{std::in_place_type<takatori::datetime::time_point>, time};
                 auto type = meta::field_type{std::make_shared<meta::time_point_field_option>()};
-                s = encode(nullable, data, type, spec, results);
+                s = encode(nullable, data, type, spec, results, coding_for_write);
                 break;
             }
             default:
diff --git a/src/jogasaki/api/kvsservice/serializer.h b/src/jogasaki/api/kvsservice/serializer.h
index 6695be8..8f29fb8 100644
--- a/src/jogasaki/api/kvsservice/serializer.h
+++ b/src/jogasaki/api/kvsservice/serializer.h
@@ -41,21 +41,24 @@ namespace jogasaki::api::kvsservice {
  * @param spec the coding_spec to serialize the values
  * @param list the list of values to be serialized
  * @param size [out] the buffer length required to serialize the values
+ * @param coding_for_write whether the values are encoded as stored in the tables (e.g. padded up to the length of char type)
  * @return status::ok if succeeded
  * @return otherwise if error was occurred
  */
-status get_bufsize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data> const &list, std::size_t &size);
+status get_bufsize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data> const &list, std::size_t &size,
+                   bool coding_for_write = false);
 
 /**
  * @brief serialize the values
  * @param spec the coding_spec to serialize the values
  * @param list the list of values to be serialized
  * @param results [out]the output buffer to write serialized data
+ * @param coding_for_write whether the values are encoded as stored in the tables (e.g. padded up to the length of char type)
  * @return status::ok if succeeded
  * @return otherwise if error was occurred
  */
 status serialize(jogasaki::kvs::coding_spec const &spec, std::vector<column_data> const &list,
-                 jogasaki::kvs::writable_stream &results);
+                 jogasaki::kvs::writable_stream &results, bool coding_for_write = false);
 
 /**
  * @brief deserialize the value
diff --git a/src/jogasaki/api/kvsservice/transaction.cpp b/src/jogasaki/api/kvsservice/transaction.cpp
index 4159c1c..9b748b3 100644
--- a/src/jogasaki/api/kvsservice/transaction.cpp
+++ b/src/jogasaki/api/kvsservice/transaction.cpp
@@ -166,23 +166,23 @@ status transaction::put(std::string_view table_name, tateyama::proto::kvs::data:
         return s;
     }
     std::size_t key_size{};
-    if (auto s = get_bufsize(spec_primary_key, rec_cols.primary_keys(), key_size);
+    if (auto s = get_bufsize(spec_primary_key, rec_cols.primary_keys(), key_size, true);
             s != status::ok) {
         return s;
     }
     jogasaki::data::aligned_buffer key_buffer{key_size};
     jogasaki::kvs::writable_stream key_stream{key_buffer.data(), key_buffer.capacity()};
-    if (auto s = serialize(spec_primary_key, rec_cols.primary_keys(), key_stream); s != status::ok) {
+    if (auto s = serialize(spec_primary_key, rec_cols.primary_keys(), key_stream, true); s != status::ok) {
         return s;
     }
     std::size_t value_size{};
-    if (auto s = get_bufsize(spec_value, rec_cols.values(), value_size);
+    if (auto s = get_bufsize(spec_value, rec_cols.values(), value_size, true);
             s != status::ok) {
         return s;
     }
     jogasaki::data::aligned_buffer value_buffer{value_size};
     jogasaki::kvs::writable_stream value_stream{value_buffer.data(), value_buffer.capacity()};
-    if (auto s = serialize(spec_value, rec_cols.values(), value_stream); s != status::ok) {
+    if (auto s = serialize(spec_value, rec_cols.values(), value_stream, true); s != status::ok) {
         return s;
     }
     sharksfin::Slice key_slice {key_stream.data(), key_stream.size()};
@@ -214,13 +214,13 @@ status transaction::get(std::string_view table_name, tateyama::proto::kvs::data:
         return s;
     }
     std::size_t key_size{};
-    if (auto s = get_bufsize(spec_primary_key, rec_cols.primary_keys(), key_size);
+    if (auto s = get_bufsize(spec_primary_key, rec_cols.primary_keys(), key_size, true);
         s != status::ok) {
         return s;
     }
     jogasaki::data::aligned_buffer key_buffer{key_size};
     jogasaki::kvs::writable_stream key_stream{key_buffer.data(), key_buffer.capacity()};
-    if (auto s = serialize(spec_primary_key, rec_cols.primary_keys(), key_stream);
+    if (auto s = serialize(spec_primary_key, rec_cols.primary_keys(), key_stream, true);
         s != status::ok) {
         return s;
     }
@@ -258,13 +258,13 @@ status transaction::remove(std::string_view table_name, tateyama::proto::kvs::da
         return s;
     }
     std::size_t key_size{};
-    if (auto s = get_bufsize(spec_primary_key, rec_cols.primary_keys(), key_size);
+    if (auto s = get_bufsize(spec_primary_key, rec_cols.primary_keys(), key_size, true);
             s != status::ok) {
         return s;
     }
     jogasaki::data::aligned_buffer key_buffer{key_size};
     jogasaki::kvs::writable_stream key_stream{key_buffer.data(), key_buffer.capacity()};
-    if (auto s = serialize(spec_primary_key, rec_cols.primary_keys(), key_stream);
+    if (auto s = serialize(spec_primary_key, rec_cols.primary_keys(), key_stream, true);
         s != status::ok) {
         return s;
     }
-- 
2.43.0


From ccdb394670203bf192634aee2851a112ebf2ff69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:23 +0000
Subject: [PATCH 46/53] fix: a decimal too large to be rescaled is refused when
 encoded

---
 src/jogasaki/kvs/writable_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jogasaki/kvs/writable_stream.cpp b/src/jogasaki/kvs/writable_stream.cpp
index 4422480..967af7b 100644
--- a/src/jogasaki/kvs/writable_stream.cpp
+++ b/src/jogasaki/kvs/writable_stream.cpp
@@ -181,7 +181,7 @@ status writable_stream::do_write(runtime_t<meta::field_type_kind::decimal> data,
     }
     decimal::context.clear_status();
     auto y = x.rescale(-static_cast<std::int64_t>(scale));
-    if((decimal::context.status() & MPD_Inexact) != 0) {
+    if((decimal::context.status() & (MPD_Inexact | MPD_IEEE_Invalid_operation)) != 0) {
         decimal_error_logging("rescale", data, precision, scale, -1);
         return status::err_expression_evaluation_failure; // TODO
     }
-- 
2.43.0


From 81ce64b98f3c334c9fb23831707d79383b9e6bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:45 +0000
Subject: [PATCH 47/53] fix: a failed load never reports success when two
 blocks fail at once

---
 .../executor/batch/batch_execution_state.cpp  | 24 +++++++++----------
 .../executor/batch/batch_execution_state.h    |  2 ++
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/jogasaki/executor/batch/batch_execution_state.cpp b/src/jogasaki/executor/batch/batch_execution_state.cpp
index 541b98b..621bf04 100644
--- a/src/jogasaki/executor/batch/batch_execution_state.cpp
+++ b/src/jogasaki/executor/batch/batch_execution_state.cpp
@@ -46,20 +46,20 @@ std::shared_ptr<error::error_info> batch_execution_state::error_info() const noe
 
 bool batch_execution_state::set_error_status(status st, std::shared_ptr<error::error_info> info) noexcept {  //NOLINT(performance-unnecessary-value-param)
     error_aborting_ = true;
-    std::shared_ptr<error::error_info> s{};
-    s = std::atomic_load(std::addressof(error_info_));
-    do {
-        if (s && (*s)) {
-            if(info->status() != status::err_inactive_transaction &&
-                info->code() != error_code::inactive_transaction_exception) {
-                // Inactive tx occurs very frequentyly, so avoid logging here.
-                VLOG_LP(log_error) << "Error " << info->code() << "(\"" << info->message() << "\")"
-                                                                                              " is reported subsequently following the original error " << s->code() << ".";
-            }
-            return false;
+    // status code and error info must be visible together to anyone that returns from here and finishes the batch
+    std::lock_guard lock{error_mutex_};
+    auto s = std::atomic_load(std::addressof(error_info_));
+    if (s && (*s)) {
+        if(info->status() != status::err_inactive_transaction &&
+            info->code() != error_code::inactive_transaction_exception) {
+            // Inactive tx occurs very frequentyly, so avoid logging here.
+            VLOG_LP(log_error) << "Error " << info->code() << "(\"" << info->message() << "\")"
+                                                                                          " is reported subsequently following the original error " << s->code() << ".";
         }
-    } while (! std::atomic_compare_exchange_strong(std::addressof(error_info_), std::addressof(s), info));
+        return false;
+    }
     status_code_ = st;
+    std::atomic_store(std::addressof(error_info_), std::move(info));
     return true;
 }
 
diff --git a/src/jogasaki/executor/batch/batch_execution_state.h b/src/jogasaki/executor/batch/batch_execution_state.h
index 6a6288a..dbdd2ce 100644
--- a/src/jogasaki/executor/batch/batch_execution_state.h
+++ b/src/jogasaki/executor/batch/batch_execution_state.h
@@ -18,6 +18,7 @@
 #include <atomic>
 #include <cstddef>
 #include <memory>
+#include <mutex>
 #include <string>
 
 #include <jogasaki/error/error_info.h>
@@ -99,6 +100,7 @@ private:
     std::atomic_size_t running_statements_{0};
     std::atomic_bool finished_{false};
     std::shared_ptr<error::error_info> error_info_{};
+    std::mutex error_mutex_{};
 };
 
 /**
-- 
2.43.0


From e1c749a6c37f2c271ef87ce276305105e4f230b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:45 +0000
Subject: [PATCH 48/53] fix: a load in a transaction reads every row group of
 its files

---
 src/jogasaki/executor/file/loader.cpp | 9 +++++++--
 src/jogasaki/executor/file/loader.h   | 1 +
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jogasaki/executor/file/loader.cpp b/src/jogasaki/executor/file/loader.cpp
index 22d8535..145cacd 100644
--- a/src/jogasaki/executor/file/loader.cpp
+++ b/src/jogasaki/executor/file/loader.cpp
@@ -186,8 +186,13 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
 
             reader_option opt{};
             create_reader_option_and_mapping(*parameters_, *statement_, mapping_, opt);
-            reader_ = parquet_reader::open(*next_file_, std::addressof(opt));
-            ++next_file_;
+            reader_ = parquet_reader::open(*next_file_, std::addressof(opt), next_row_group_);
+            if(reader_ && next_row_group_ + 1 < reader_->row_group_count()) {
+                ++next_row_group_;
+            } else {
+                next_row_group_ = 0;
+                ++next_file_;
+            }
             if(! reader_) {
                 status_ = status::err_io_error;
                 msg_ = "opening parquet file failed.";
diff --git a/src/jogasaki/executor/file/loader.h b/src/jogasaki/executor/file/loader.h
index 5feb226..f15c1ef 100644
--- a/src/jogasaki/executor/file/loader.h
+++ b/src/jogasaki/executor/file/loader.h
@@ -167,6 +167,7 @@ private:
     std::atomic_size_t records_loaded_{0};
     maybe_shared_ptr<meta::external_record_meta> meta_{};
     decltype(files_)::const_iterator next_file_{};
+    std::size_t next_row_group_{};
     std::unordered_map<std::string, parameter> mapping_{};
     std::size_t bulk_size_{};
     bool more_to_read_{true};
-- 
2.43.0


From 25328116424d81a973d898d767c9e58b5da4acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:58 +0000
Subject: [PATCH 49/53] fix: a load in a transaction never misses the error of
 its last statement

The completion callback gave its running count back before it recorded the
error, so the load could find no statement running and no error, and answer
with success although the statement (and with it the transaction) had failed.
The error is recorded first, once, and is checked after the count.
---
 src/jogasaki/executor/file/loader.cpp | 38 ++++++++++++++++++---------
 src/jogasaki/executor/file/loader.h   |  6 ++++-
 2 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/jogasaki/executor/file/loader.cpp b/src/jogasaki/executor/file/loader.cpp
index 145cacd..4f25c47 100644
--- a/src/jogasaki/executor/file/loader.cpp
+++ b/src/jogasaki/executor/file/loader.cpp
@@ -168,7 +168,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
         return loader_result::running;
     }
     if (! more_to_read_) {
-        return running_statement_count_ != 0 ? loader_result::running : loader_result::ok;
+        return finished() ? loader_result::ok : loader_result::running;
     }
     auto slots = bulk_size_ - running_statement_count_;
     if (slots == 0) {
@@ -181,7 +181,7 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
             if(next_file_ == files_.end()) {
                 // reading all files completed
                 more_to_read_ = false;
-                return running_statement_count_ != 0 ? loader_result::running : loader_result::ok;
+                return finished() ? loader_result::ok : loader_result::running;
             }
 
             reader_option opt{};
@@ -194,10 +194,13 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
                 ++next_file_;
             }
             if(! reader_) {
-                status_ = status::err_io_error;
-                msg_ = "opening parquet file failed.";
-                VLOG_LP(log_error) << msg_;
-                error_aborting_ = true;
+                std::lock_guard lock{error_mutex_};
+                if(! error_aborting_) {
+                    status_ = status::err_io_error;
+                    msg_ = "opening parquet file failed.";
+                    VLOG_LP(log_error) << msg_;
+                    error_aborting_ = true;
+                }
                 return loader_result::running;
             }
         }
@@ -224,24 +227,33 @@ loader_result loader::operator()() {  //NOLINT(readability-function-cognitive-co
                 std::shared_ptr<request_statistics> stats  //NOLINT(performance-unnecessary-value-param)
             ){
                 (void) stats; // TODO
-                --running_statement_count_;
                 if(st != status::ok) {
                     std::stringstream ss{};
                     ss << "load failed with the statement position:" << records_loaded_ << " status:" << st
                        << " with message \"" << (info ? info->message() : "") << "\"";
-                    status_ = st;
-                    msg_ = ss.str();
-                    VLOG_LP(log_error) << msg_;  //NOLINT
-                    error_aborting_ = true;
-                    return;
+                    VLOG_LP(log_error) << ss.str();  //NOLINT
+                    std::lock_guard lock{error_mutex_};
+                    if(! error_aborting_) {
+                        status_ = st;
+                        msg_ = ss.str();
+                        error_aborting_ = true;
+                    }
+                } else {
+                    ++records_loaded_;
                 }
-                ++records_loaded_;
+                // the result must be visible before the statement is counted as completed
+                --running_statement_count_;
             }
         );
     }
     return loader_result::running;
 }
 
+bool loader::finished() const noexcept {
+    // check the count first - the error is set before the count gets to zero
+    return running_statement_count_ == 0 && ! error_aborting_;
+}
+
 std::atomic_size_t& loader::running_statement_count() noexcept {
     return running_statement_count_;
 }
diff --git a/src/jogasaki/executor/file/loader.h b/src/jogasaki/executor/file/loader.h
index f15c1ef..1ade08d 100644
--- a/src/jogasaki/executor/file/loader.h
+++ b/src/jogasaki/executor/file/loader.h
@@ -20,6 +20,7 @@
 #include <cstdlib>
 #include <iosfwd>
 #include <memory>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <unordered_map>
@@ -173,8 +174,11 @@ private:
     bool more_to_read_{true};
     status status_{status::ok};
     std::string msg_{};
-    bool error_aborting_{false};
+    std::atomic_bool error_aborting_{false};
     bool error_aborted_{false};
+    std::mutex error_mutex_{};
+
+    [[nodiscard]] bool finished() const noexcept;
 };
 
 }  // namespace executor::file
-- 
2.43.0


From 7101664cb974e4ddaf5a43833edd42cb51b2b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:06 +0000
Subject: [PATCH 50/53] fix: a load without a transaction always completes

Ending a block or a file counted on the block or file started next to end it
later, even though that one could have finished in the meantime: nobody ended
it and the load never completed. Blocks finishing while others of the file were
still created could end the file twice, completing the load too early with
files unread. Files whose start failed were destroyed while statements of
their blocks were running.
---
 .../executor/batch/batch_block_executor.cpp         |  3 +++
 src/jogasaki/executor/batch/batch_executor.cpp      | 12 +++++-------
 src/jogasaki/executor/batch/batch_file_executor.cpp | 13 +++++++++----
 src/jogasaki/executor/batch/batch_file_executor.h   | 11 +++++++++++
 4 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/src/jogasaki/executor/batch/batch_block_executor.cpp b/src/jogasaki/executor/batch/batch_block_executor.cpp
index 785a0ad..dba9534 100644
--- a/src/jogasaki/executor/batch/batch_block_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_block_executor.cpp
@@ -230,6 +230,9 @@ std::pair<bool, bool> batch_block_executor::next_statement() {
                     " block index:" << block_index_ <<
                     " statement position:" << pos <<
                     " status:" << st;
+                if(! err_info) {
+                    err_info = create_error_info(error_code::sql_execution_exception, "executing statement failed.", st);
+                }
                 err_info->additional_text(ss.str());
                 state_->set_error_status(st, std::move(err_info));
                 finish(info_, *state_);
diff --git a/src/jogasaki/executor/batch/batch_executor.cpp b/src/jogasaki/executor/batch/batch_executor.cpp
index 4beb30f..74ee528 100644
--- a/src/jogasaki/executor/batch/batch_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_executor.cpp
@@ -37,6 +37,8 @@ batch_executor::batch_executor(
 
 std::pair<bool, bool> batch_executor::create_blocks(std::shared_ptr<batch_file_executor> const& file) {
     bool block_created = false;
+    // keep the blocks finishing in the meantime from ending the file
+    file->hold();
     auto mb = info_.options().max_concurrent_blocks_per_file();
     std::size_t n = (mb == batch_executor_option::undefined) ? std::numeric_limits<std::size_t>::max() : mb;
     for(std::size_t i=0; i < n; ++i) {
@@ -49,7 +51,7 @@ std::pair<bool, bool> batch_executor::create_blocks(std::shared_ptr<batch_file_e
         }
         block_created = true;
     }
-    if(file->remaining_block_count() == 0) {
+    if(file->unhold() == 0) {
         // blocks might have been created, but they finished already, so handle as if they are not created
         block_created = false;
     }
@@ -65,7 +67,7 @@ std::pair<bool, std::shared_ptr<batch_file_executor>> batch_executor::next_file(
 
         auto [s, block_created] = create_blocks(file);
         if (! s) {
-            release(file.get());
+            // blocks of the file can be running - leave releasing it to the destruction of this object
             return {false, {}};
         }
         if (! block_created) {
@@ -180,11 +182,7 @@ void batch_executor::end_of_file(batch_file_executor *arg) {
     auto [f, cnt] = release(arg);
     (void) f;
 
-    if (file) {
-        return;
-    }
-
-    // no more file
+    // even if next file has been created here, it might have been finished already
     if(cnt != 0) {
         // other files are in progress, so leave finalizing batch to it
         return;
diff --git a/src/jogasaki/executor/batch/batch_file_executor.cpp b/src/jogasaki/executor/batch/batch_file_executor.cpp
index abc805d..1f1b1b5 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.cpp
+++ b/src/jogasaki/executor/batch/batch_file_executor.cpp
@@ -166,10 +166,7 @@ void batch_file_executor::end_of_block(batch_block_executor *arg) {
     auto [self, cnt] = release(arg); // keep self by the end of this scope
     (void) self;
 
-    if(next) {
-        return;
-    }
-
+    // even if next block has been created here, it might have been finished already
     if(cnt != 0) {
         // other block in the file are in progress, so leave finalizing file to it
         return;
@@ -179,6 +176,14 @@ void batch_file_executor::end_of_block(batch_block_executor *arg) {
     parent_->end_of_file(this);
 }
 
+void batch_file_executor::hold() noexcept {
+    ++remaining_block_count_;
+}
+
+std::size_t batch_file_executor::unhold() noexcept {
+    return --remaining_block_count_;
+}
+
 std::size_t batch_file_executor::remaining_block_count() const noexcept {
     return remaining_block_count_;
 }
diff --git a/src/jogasaki/executor/batch/batch_file_executor.h b/src/jogasaki/executor/batch/batch_file_executor.h
index 08a553a..c9050ce 100644
--- a/src/jogasaki/executor/batch/batch_file_executor.h
+++ b/src/jogasaki/executor/batch/batch_file_executor.h
@@ -104,6 +104,17 @@ public:
      */
     [[nodiscard]] std::size_t remaining_block_count() const noexcept;
 
+    /**
+     * @brief keep the file from being ended by its blocks, until `unhold()` is called
+     */
+    void hold() noexcept;
+
+    /**
+     * @brief undo `hold()`
+     * @return the number of remaining blocks. If zero, all the blocks have finished and the caller must end the file.
+     */
+    std::size_t unhold() noexcept;
+
     /**
      * @brief factory function to construct file executor
      * @see constructor for the details of parameters
-- 
2.43.0


From 95f184527eab337457b14bd4b5a45258622371ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:04 +0000
Subject: [PATCH 51/53] fix: dumps started in the same second do not share
 their file names

Two dumps into one directory created the same file names, and overwrote each
other's files while both were answered with success.
---
 src/jogasaki/executor/io/dump_channel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/io/dump_channel.cpp b/src/jogasaki/executor/io/dump_channel.cpp
index b804921..d90d21b 100644
--- a/src/jogasaki/executor/io/dump_channel.cpp
+++ b/src/jogasaki/executor/io/dump_channel.cpp
@@ -15,6 +15,7 @@
  */
 #include "dump_channel.h"
 
+#include <atomic>
 #include <chrono>
 #include <cstdint>
 #include <optional>
@@ -56,7 +57,9 @@ dump_channel::dump_channel(
 {
     auto now = std::chrono::system_clock::now();
     auto secs_since_epoch = std::chrono::duration_cast<std::chrono::seconds>(now.time_since_epoch()).count();
-    prefix_ = std::string("d") + std::to_string(secs_since_epoch);
+    // dumps started in the same second must not share their file names
+    static std::atomic_size_t dump_id_src{0};
+    prefix_ = std::string("d") + std::to_string(secs_since_epoch) + "_" + std::to_string(dump_id_src++);
 }
 
 status dump_channel::acquire(std::shared_ptr<record_writer>& wrt) {
-- 
2.43.0


From 981355cdaf9ded7860c6d56bb3c76275ef8406ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:04 +0000
Subject: [PATCH 52/53] fix: a dump that cannot acquire a writer for its file
 list is refused

The failure was ignored and the first file completed crashed the server.
---
 src/jogasaki/executor/io/dump_channel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jogasaki/executor/io/dump_channel.cpp b/src/jogasaki/executor/io/dump_channel.cpp
index d90d21b..38ae49d 100644
--- a/src/jogasaki/executor/io/dump_channel.cpp
+++ b/src/jogasaki/executor/io/dump_channel.cpp
@@ -64,7 +64,9 @@ dump_channel::dump_channel(
 
 status dump_channel::acquire(std::shared_ptr<record_writer>& wrt) {
     std::shared_ptr<record_writer> w{};
-    channel_->acquire(w);
+    if(auto res = channel_->acquire(w); res != status::ok) {
+        return res;
+    }
     auto wid = writer_id_src_++;
     wrt = std::make_shared<dump_channel_writer>(*this, w, wid, cfg_);
     return status::ok;
-- 
2.43.0


From ad2136a31b1245fd677265507161d4e38f927825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:04 +0000
Subject: [PATCH 53/53] fix: a dump whose files could not be completed or
 listed is answered with an error

Results of closing a file and of writing its name to the file list were
ignored, and the last files are closed after the statement finished: the dump
was answered with success while a file was incomplete or missing in the list.
Files that were created but not completed are removed as the others.
---
 src/jogasaki/executor/executor.cpp            | 14 +++++++++--
 src/jogasaki/executor/io/dump_channel.cpp     |  8 ++++++
 src/jogasaki/executor/io/dump_channel.h       | 16 +++++++++++-
 .../executor/io/dump_channel_writer.cpp       | 25 +++++++++++++------
 .../executor/io/dump_channel_writer.h         |  4 +--
 5 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/src/jogasaki/executor/executor.cpp b/src/jogasaki/executor/executor.cpp
index 4fed08f..fe29c17 100644
--- a/src/jogasaki/executor/executor.cpp
+++ b/src/jogasaki/executor/executor.cpp
@@ -407,15 +407,25 @@ bool execute_dump(
     );
     return details::execute_internal(
         database,
-        std::move(tx),
+        tx,
         statement,
         dump_ch,
-        [on_completion=std::move(on_completion), dump_ch, cfg](
+        [on_completion=std::move(on_completion), dump_ch, cfg, tx, req_info](
             status st,
             std::shared_ptr<error::error_info> info,
             std::shared_ptr<request_statistics> stats  //NOLINT(performance-unnecessary-value-param)
         ) {
             (void) stats; // no stats for dump yet
+            if(st == status::ok && dump_ch->failed()) {
+                // the last files are completed after the statement finished
+                st = status::err_io_error;
+                info = create_error_info(
+                    error_code::dump_file_exception,
+                    "an error occurred in completing dump files",
+                    st
+                );
+                abort_transaction(tx, req_info);
+            }
             if(st != status::ok) {
                 if (! cfg.keep_files_on_error_) {
                     dump_ch->clean_output_files();
diff --git a/src/jogasaki/executor/io/dump_channel.cpp b/src/jogasaki/executor/io/dump_channel.cpp
index 38ae49d..7758b3a 100644
--- a/src/jogasaki/executor/io/dump_channel.cpp
+++ b/src/jogasaki/executor/io/dump_channel.cpp
@@ -94,6 +94,14 @@ maybe_shared_ptr<meta::external_record_meta> const& dump_channel::file_name_reco
     return file_name_record_meta_;
 }
 
+void dump_channel::set_failed() noexcept {
+    failed_ = true;
+}
+
+bool dump_channel::failed() const noexcept {
+    return failed_;
+}
+
 std::string_view dump_channel::prefix() const noexcept {
     return prefix_;
 }
diff --git a/src/jogasaki/executor/io/dump_channel.h b/src/jogasaki/executor/io/dump_channel.h
index ac414c3..b844ba8 100644
--- a/src/jogasaki/executor/io/dump_channel.h
+++ b/src/jogasaki/executor/io/dump_channel.h
@@ -117,10 +117,23 @@ public:
     void clean_output_files() {
         for(auto it = output_files_.unsafe_begin(), end = output_files_.unsafe_end(); it != end; ++it) {
             boost::filesystem::path p(*it);
-            boost::filesystem::remove(p);
+            boost::system::error_code ec{};
+            boost::filesystem::remove(p, ec); // file might not have been created
         }
     }
 
+    /**
+     * @brief declare that some of the output files failed to be completed or to be listed on the output channel
+     * @note this function is thread safe
+     */
+    void set_failed() noexcept;
+
+    /**
+     * @brief accessor to the failed flag
+     * @return whether `set_failed()` has been called
+     */
+    [[nodiscard]] bool failed() const noexcept;
+
     /**
      * @brief accessor for channel stats
      */
@@ -152,6 +165,7 @@ private:
     std::string prefix_{};
     dump_config cfg_{};
     std::atomic_size_t writer_id_src_{0};
+    std::atomic_bool failed_{false};
     tbb::concurrent_queue<std::string> output_files_{};
     executor::io::record_channel_stats stats_{};
 };
diff --git a/src/jogasaki/executor/io/dump_channel_writer.cpp b/src/jogasaki/executor/io/dump_channel_writer.cpp
index eb00da1..af0aa84 100644
--- a/src/jogasaki/executor/io/dump_channel_writer.cpp
+++ b/src/jogasaki/executor/io/dump_channel_writer.cpp
@@ -70,6 +70,7 @@ bool dump_channel_writer::write(accessor::record_ref rec) {
         auto fn = create_file_name(parent_->prefix(), cfg_);
         boost::filesystem::path p(std::string{parent_->directory()});
         p = p / fn;
+        parent_->add_output_file(p.string());
         if(cfg_.file_format_ == dump_file_format_kind::arrow) {
             file::arrow_writer_option opt{};
             opt.record_batch_size(cfg_.record_batch_size_);
@@ -103,28 +104,38 @@ bool dump_channel_writer::write(accessor::record_ref rec) {
 
     if(max_recs_per_file_ != 0 && file_writer_->write_count() >= max_recs_per_file_) {
         // max records of file reached, close current and move to next file
-        flush();
+        return close_file_writer();
     }
     return true;
 }
 
-void dump_channel_writer::write_file_path(std::string_view path) {
+bool dump_channel_writer::write_file_path(std::string_view path) {
     auto& meta = *parent_->file_name_record_meta();
     auto sz = meta.record_size();
     std::vector<char> buf(sz, 0);
     accessor::record_ref ref{std::addressof(buf[0]), sz};
     ref.set_value(meta.value_offset(0), accessor::text(path));
     ref.set_null(meta.nullity_offset(0), false);
-    writer_->write(ref);
+    if(! writer_->write(ref)) {
+        return false;
+    }
     writer_->flush();
-    parent_->add_output_file(path);
+    return true;
 }
 
-void dump_channel_writer::close_file_writer() {
-    file_writer_->close();
-    write_file_path(file_writer_->path());
+bool dump_channel_writer::close_file_writer() {
+    bool success = file_writer_->close();
+    if(! success) {
+        VLOG_LP(log_error) << "completing dump file failed on path " << file_writer_->path();
+    } else {
+        success = write_file_path(file_writer_->path());
+    }
+    if(! success) {
+        parent_->set_failed();
+    }
     file_writer_.reset();
     ++current_sequence_number_;
+    return success;
 }
 
 void dump_channel_writer::flush() {
diff --git a/src/jogasaki/executor/io/dump_channel_writer.h b/src/jogasaki/executor/io/dump_channel_writer.h
index 57c32b9..eed7177 100644
--- a/src/jogasaki/executor/io/dump_channel_writer.h
+++ b/src/jogasaki/executor/io/dump_channel_writer.h
@@ -96,8 +96,8 @@ private:
     std::size_t max_recs_per_file_{};
 
     [[nodiscard]] std::string create_file_name(std::string_view prefix, dump_config const& cfg) const;
-    void write_file_path(std::string_view path);
-    void close_file_writer();
+    [[nodiscard]] bool write_file_path(std::string_view path);
+    bool close_file_writer();
 };
 
 }  // namespace jogasaki::executor::io
-- 
2.43.0


From 766e7a8fbd33b9c58bdf989fb718467078519cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:32 +0000
Subject: [PATCH 01/30] fix: do not terminate the ASIL-B provider when QM
 control slots were modified

A QM process can write arbitrary values to the QM control section. An unused
QM slot that differs from its ASIL-B counterpart triggered an assertion in the
ASIL-B provider instead of the documented fallback to ASIL-B only operation.
---
 .../bindings/lola/event_data_control_composite.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
index 4b7a671..8a542b1 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
@@ -82,12 +82,14 @@ auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() con
             const auto time_stamp = slot_b.GetTimeStamp();
             if (time_stamp < oldest_time_stamp)
             {
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    static_cast<EventSlotStatus::value_type>(slot_qm) ==
-                        static_cast<EventSlotStatus::value_type>(slot_b),
-                    "Defensive progamming: QM and ASIL-B control slots are expected to be in the same state. Assert "
-                    "this to ensure that returning the qm slot value to be used also for the asil-b slot value is "
-                    "correct. We already check if the qm value is incorrect (hinting at a memory corruption) above.");
+                // Unused slots of the QM and ASIL-B control sections are expected to be in the same state. If they
+                // differ, the QM consumer has modified the control memory region (see above). It must not be able to
+                // bring down the ASIL-B provider, so we exit early here as well.
+                if (static_cast<EventSlotStatus::value_type>(slot_qm) !=
+                    static_cast<EventSlotStatus::value_type>(slot_b))
+                {
+                    return {};
+                }
                 slot_info = {slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)};
                 oldest_time_stamp = time_stamp;
             }
-- 
2.43.0


From 9c7e0bb2fb6ddc5653c538547dbc0524ab93be4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:37 +0000
Subject: [PATCH 02/30] fix: keep the memory bounds of OffsetPtrs outside of
 shared memory in swap

---
 score/memory/shared/offset_ptr.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index cd30d87..b209ebc 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -1093,9 +1093,11 @@ template <typename T>
 // coverity[autosar_cpp14_m3_2_3_violation : FALSE] See rationale for autosar_cpp14_m3_2_3_violation above
 void swap(OffsetPtr<T>& left, OffsetPtr<T>& right) noexcept
 {
-    auto* const right_ptr = OffsetPtr<T>::GetPointerWithoutBoundsCheck(&right, right.offset_);
+    // Swap via a copy of the OffsetPtr and not via a raw pointer, since the copy keeps the memory bounds of the region
+    // that the pointer was read from.
+    const OffsetPtr<T> right_copy{right};
     right = left;
-    left = right_ptr;
+    left = right_copy;
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From 8afe21d2afad4943833a7d1aec341fd6cddfa5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:41 +0000
Subject: [PATCH 03/30] fix: do not bounds check null OffsetPtrs and keep the
 bounds of copied ones

---
 score/memory/shared/offset_ptr.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index b209ebc..2388ed4 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -538,7 +538,7 @@ auto OffsetPtr<PointedType>::CopyFrom(const OffsetPtr<OtherPointedType>& source_
         OffsetPtr<OtherPointedType>::GetPointerWithoutBoundsCheck(&source_offset_ptr, source_offset_ptr.offset_);
     if (other_pointed_to_object == nullptr)
     {
-        return {detail_offset_ptr::kNullPtrRepresentation, {}};
+        return {detail_offset_ptr::kNullPtrRepresentation, memory_bounds};
     }
     auto* const pointed_to_object = static_cast<PointedType*>(other_pointed_to_object);
     const auto offset = CalculateOffsetFromPointer(&target_offset_ptr, pointed_to_object);
@@ -553,6 +553,12 @@ auto OffsetPtr<PointedType>::GetPointerWithBoundsCheck(
     const MemoryRegionBounds& offset_ptr_memory_bounds_when_not_in_shm,
     const std::size_t pointed_type_size) -> pointer
 {
+    // A null pointer doesn't point to an object which could lie outside of the memory region.
+    if (offset == detail_offset_ptr::kNullPtrRepresentation)
+    {
+        return nullptr;
+    }
+
     if (detail_offset_ptr::IsBoundsCheckingEnabled())
     {
         const auto offset_ptr_bounds = MemoryResourceRegistry::getInstance().GetBoundsFromAddress(offset_ptr_address);
-- 
2.43.0


From 6ac6cd3c0b7b2bc726ce5cbdf61351cffe3ab215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:32 +0000
Subject: [PATCH 04/30] fix: withdraw a field whose initial value cannot be
 published when offering fails

OfferService is rolled back when one of its steps fails, but the event of a
field whose deferred initial update failed had already been prepared and was
left prepared, so that the service stayed half offered.
---
 score/mw/com/impl/skeleton_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/score/mw/com/impl/skeleton_base.cpp b/score/mw/com/impl/skeleton_base.cpp
index b80c161..5b94143 100644
--- a/score/mw/com/impl/skeleton_base.cpp
+++ b/score/mw/com/impl/skeleton_base.cpp
@@ -132,6 +132,9 @@ score::Result<std::vector<utils::ScopeExit<>>> SkeletonBase::OfferServiceFields(
         const auto offer_result = skeleton_field.PrepareOffer();
         if (!offer_result.has_value())
         {
+            // The event of the field may already have been prepared when publishing the initial value failed.
+            skeleton_field.PrepareStopOffer();
+
             score::mw::log::LogError("lola")
                 << "SkeletonBinding::OfferService failed for field" << field_name
                 << ": Reason:" << offer_result.error().Message() << ": " << offer_result.error().UserMessage();
-- 
2.43.0


From a918073c9751099d3efd3331d2e800998ad4e6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:20 +0000
Subject: [PATCH 05/30] fix: do not keep a memory resource registered whose
 region could not be registered

---
 score/memory/shared/memory_resource_registry.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/memory_resource_registry.cpp b/score/memory/shared/memory_resource_registry.cpp
index bd1824b..33c0e7e 100644
--- a/score/memory/shared/memory_resource_registry.cpp
+++ b/score/memory/shared/memory_resource_registry.cpp
@@ -78,7 +78,14 @@ auto score::memory::shared::MemoryResourceRegistry::insert_resource(
         const auto memory_range_start_as_integer = CastPointerToInteger(memory_range_start);
         const auto memory_range_end_as_integer = CastPointerToInteger(memory_range_end);
 
-        return region_map_.UpdateKnownRegion(memory_range_start_as_integer, memory_range_end_as_integer);
+        const bool region_added =
+            region_map_.UpdateKnownRegion(memory_range_start_as_integer, memory_range_end_as_integer);
+        if (!region_added)
+        {
+            // The resource must not stay registered when its memory region could not be registered.
+            score::cpp::ignore = this->registry_.erase(result.first);
+        }
+        return region_added;
     }
     return result.second;
 }
-- 
2.43.0


From 9a7944ce3aca73daf1cdeae1cdc9792ef226e023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:20 +0000
Subject: [PATCH 06/30] fix: do not hand out shared memory behind the end of
 the region

---
 score/memory/shared/shared_memory_resource.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index cc67488..6051f52 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -255,6 +255,12 @@ void* do_allocation_algorithm(const void* const alloc_start,
                               const std::size_t bytes,
                               const std::size_t alignment) noexcept
 {
+    // The start address is derived from data residing in shared memory, so it might lie behind the end.
+    if (CastPointerToInteger(alloc_start) > CastPointerToInteger(alloc_end))
+    {
+        return nullptr;
+    }
+
     // Suppress "AUTOSAR C++14 A5-2-3" rule finding: A cast shall not remove any const or volatile
     // qualification from the type of a pointer or reference.
     // Rationale : std::align does not modify the underlying memory of aligned_address
-- 
2.43.0


From 7e6416992e0f8a215985f73a4ca983640c95724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:35 +0000
Subject: [PATCH 07/30] fix: a resource that could not be opened does not
 deregister the one that is in use

---
 score/memory/shared/shared_memory_resource.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index 6051f52..9216ecc 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -304,7 +304,12 @@ Stat::Mode SharedMemoryResource::calcStatModeForPermissions(const UserPermission
 // coverity[autosar_cpp14_a12_4_1_violation] only std::enable_shared_from_this has non-virtual destructor
 SharedMemoryResource::~SharedMemoryResource()
 {
-    MemoryResourceRegistry::getInstance().remove_resource(memory_identifier_);
+    // Another resource with the same identifier might be registered if this one could not be created or opened.
+    auto& registry = MemoryResourceRegistry::getInstance();
+    if (registry.at(memory_identifier_) == this)
+    {
+        registry.remove_resource(memory_identifier_);
+    }
     if (this->file_descriptor_ != -1)
     {
         this->deinitalizeInternalsInSharedMemory();
-- 
2.43.0


From 4c8a5914f69dd26b51fddb346acd829fa5ed6b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:12 +0000
Subject: [PATCH 08/30] fix: do not leave a lock file and its descriptor behind
 if creating the lock fails

---
 score/memory/shared/lock_file.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/score/memory/shared/lock_file.cpp b/score/memory/shared/lock_file.cpp
index 6db8448..ff07625 100644
--- a/score/memory/shared/lock_file.cpp
+++ b/score/memory/shared/lock_file.cpp
@@ -45,15 +45,17 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
                                         << " | Error: " << create_result.error().ToString();
         return {};
     }
-    auto result = score::os::Stat::instance().chmod(path.data(), kReadAccessForAll);
+    // From here on the file is closed and removed again if it cannot be handed out.
+    constexpr bool owns_file{true};
+    LockFile lock_file{std::move(path), create_result.value(), owns_file};
+    auto result = score::os::Stat::instance().chmod(lock_file.lock_file_path_.data(), kReadAccessForAll);
     if (!result.has_value())
     {
-        score::mw::log::LogError("shm") << "LockFile::Create failed to chmod file: " << path
+        score::mw::log::LogError("shm") << "LockFile::Create failed to chmod file: " << lock_file.lock_file_path_
                                         << " | Error: " << result.error().ToString();
         return {};
     }
-    constexpr bool owns_file{true};
-    return LockFile{std::move(path), create_result.value(), owns_file};
+    return lock_file;
 }
 
 std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_ownership) noexcept
@@ -71,14 +73,20 @@ std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_owner
                                         << " | Error: " << create_result.error().ToString();
         return {};
     }
-    auto result = score::os::Stat::instance().chmod(path.data(), kReadAccessForAll);
+    // From here on the file is closed again if it cannot be handed out.
+    LockFile lock_file{std::move(path), create_result.value(), false};
+    auto result = score::os::Stat::instance().chmod(lock_file.lock_file_path_.data(), kReadAccessForAll);
     if (!result.has_value())
     {
-        score::mw::log::LogError("shm") << "LockFile::CreateOrOpen failed to chmod file: " << path
+        score::mw::log::LogError("shm") << "LockFile::CreateOrOpen failed to chmod file: " << lock_file.lock_file_path_
                                         << " | Error: " << result.error().ToString();
         return {};
     }
-    return LockFile{std::move(path), create_result.value(), take_ownership};
+    if (take_ownership)
+    {
+        lock_file.TakeOwnership();
+    }
+    return lock_file;
 }
 
 std::optional<LockFile> LockFile::Open(std::string path) noexcept
-- 
2.43.0


From 02c83a0e6890ae2321abb2b65e96a469f718b12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:31 +0000
Subject: [PATCH 09/30] fix: give queued send slots back to the pool when a
 client connection stops

---
 score/message_passing/client_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2cd2e44..a5cd325 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -598,8 +598,10 @@ void ClientConnection::SwitchToStopState() noexcept
     }
     while (!send_queue_.empty())
     {
-        auto callback = std::move(send_queue_.front().callback);
+        SendCommand& send = send_queue_.front();
+        auto callback = std::move(send.callback);
         send_queue_.pop_front();
+        send_pool_.push_front(send);
         if (!callback.empty())
         {
             lock.unlock();
-- 
2.43.0


From cdb1f2e62de97e4829f81acccd18977302cfeac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:31 +0000
Subject: [PATCH 10/30] fix: a reply without an outstanding request is a
 protocol error even while the send queue is blocked

---
 score/message_passing/client_connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index a5cd325..b0e4a77 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -473,7 +473,8 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
         case score::cpp::to_underlying(ServerToClient::REPLY):
         {
             std::unique_lock<std::mutex> lock{send_mutex_};
-            if (waiting_for_reply_.has_value())
+            // an empty callback only blocks the send queue, there is no request that could be replied to
+            if (waiting_for_reply_.has_value() && !waiting_for_reply_->empty())
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
-- 
2.43.0


From 0dcfeb3400b5d91b74811b8d9edd3f28c73e3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:54 +0000
Subject: [PATCH 11/30] fix: SendWaitReply() waits for a callback that is
 already being executed when its own send fails

---
 score/message_passing/client_connection.cpp | 19 +++++++++++--------
 score/message_passing/client_connection.h   |  2 ++
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index b0e4a77..16bdd3a 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -58,6 +58,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       send_pool_{},
       send_queue_{},
       waiting_for_reply_{},
+      direct_request_{nullptr},
       connection_timer_{},
       disconnection_command_{},
       async_send_command_{},
@@ -204,20 +205,20 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     else
     {
         waiting_for_reply_ = std::move(callback);
+        direct_request_ = &future;
         lock.unlock();
         const auto expected =
             engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
-        if (!expected.has_value())
+        // if the connection has been stopped meanwhile, the callback is already being executed on the callback thread; it
+        // refers to this stack frame, so its completion still needs to be waited for
+        if (!expected.has_value() && (direct_request_ == &future))
         {
-            if (send_queue_.empty())
-            {
-                // no one managed to get into queue while we were blocking it
-                waiting_for_reply_.reset();
-            }
-            else
+            direct_request_ = nullptr;
+            waiting_for_reply_.reset();
+            if (!send_queue_.empty())
             {
-                // unblock the queue
+                // someone managed to get into queue while we were blocking it; unblock the queue
                 ArmSendQueueUnderLock();
             }
             return score::cpp::make_unexpected(expected.error());
@@ -478,6 +479,7 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
+                direct_request_ = nullptr;
                 ProcessSendQueueUnderLock(lock);
                 lock.unlock();
                 callback(message);
@@ -590,6 +592,7 @@ void ClientConnection::SwitchToStopState() noexcept
     {
         auto callback = std::move(*waiting_for_reply_);
         waiting_for_reply_.reset();
+        direct_request_ = nullptr;
         lock.unlock();
         if (!callback.empty())
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 36cce14..806b4a6 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -132,6 +132,8 @@ class ClientConnection final : public IClientConnection
     score::containers::intrusive_list<SendCommand> send_queue_;
 
     std::optional<ReplyCallback> waiting_for_reply_;
+    // identifies the SendWaitReply() call whose callback is in waiting_for_reply_, until the callback is taken from there
+    const void* direct_request_;
 
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
     ISharedResourceEngine::CommandQueueEntry disconnection_command_;
-- 
2.43.0


From f5a21a3e90b1b97ff820d86f54fc2a6242dd2ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:50 +0000
Subject: [PATCH 12/30] fix: a failing synchronous first connection attempt
 does not trip the callback thread assertion

---
 score/message_passing/client_connection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 16bdd3a..c306aa1 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -579,7 +579,8 @@ void ClientConnection::SwitchToStopState() noexcept
 {
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(state_ == State::kStopping);
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(stop_reason_ != StopReason::kNone);
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback());
+    // a synchronous first connection attempt can fail on the thread that called Start() or Restart()
+    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback() || client_config_.sync_first_connect);
     posix_endpoint_.disconnect = {};  // no need to trigger the cleanup once more
     engine_->CleanUpOwner(this);
     if (client_fd_ != -1)
-- 
2.43.0


From 628b076ed52065a5b1e576d6e346661ccd60e17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:42 +0000
Subject: [PATCH 13/30] fix: a client connection that is stopped while
 connecting does not become ready any more

---
 score/message_passing/client_connection.cpp | 29 ++++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index c306aa1..b1ebf24 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -326,6 +326,11 @@ void ClientConnection::DoRestart() noexcept
 {
     stop_reason_ = StopReason::kNone;
     ProcessStateChange(State::kStarting);
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // Stop() has been called from within the state callback
+        return;
+    }
 
     LogInfo(engine_->GetLogger(), "ClientConnection::DoRestart ", engine_->IsOnCallbackThread(), " ", identifier_);
 
@@ -348,9 +353,11 @@ void ClientConnection::DoRestart() noexcept
 
 void ClientConnection::TryConnect() noexcept
 {
-    // The order of access to these atomics is important, as stop_reason_ can change in background
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(((stop_reason_ == StopReason::kNone) && (state_ == State::kStarting)) ||
-                                        ((state_ == State::kStopping) && (stop_reason_ == StopReason::kUserRequested)));
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // Stop() has been called before we could even try to connect
+        return;
+    }
 
     auto& logger = engine_->GetLogger();
 
@@ -359,6 +366,15 @@ void ClientConnection::TryConnect() noexcept
         logger, kConnectIpcWarningDelay, "TryOpenClientConnection", std::string_view{identifier_});
     auto fd_expected = engine_->TryOpenClientConnection(identifier_);
     delay_guard.release();
+    if (stop_reason_ != StopReason::kNone)
+    {
+        // Stop() has been called while we were connecting
+        if (fd_expected.has_value())
+        {
+            engine_->CloseClientConnection(fd_expected.value());
+        }
+        return;
+    }
     if (!fd_expected.has_value())
     {
         auto error = fd_expected.error();
@@ -447,7 +463,12 @@ void ClientConnection::TryConnect() noexcept
             this);
     }
 
-    ProcessStateChange(State::kReady);
+    // stop_reason_ and state_ can change in background, don't override the Stopping (or even Stopped) state
+    State expected_state = State::kStarting;
+    if (state_.compare_exchange_strong(expected_state, State::kReady) && !callback_context_->state_callback.empty())
+    {
+        callback_context_->state_callback(State::kReady);
+    }
 }
 
 IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
-- 
2.43.0


From 0c9a2bf83233fe535e83b7b2b4169e3b0eb631f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:14 +0000
Subject: [PATCH 14/30] fix: refuse to send a message whose size does not fit
 into the message header

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index c01611a..afe24cc 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -15,6 +15,7 @@
 #include "score/message_passing/unix_domain/unix_domain_socket_address.h"
 
 #include <future>
+#include <limits>
 #include <tuple>
 
 namespace score::message_passing
@@ -195,6 +196,11 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     struct msghdr msg;
     std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
     constexpr auto kVectorCount = 3UL;
+    if (message.size() > std::numeric_limits<std::uint16_t>::max())
+    {
+        // the size would not fit into the message header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
+    }
     std::uint16_t size = static_cast<std::uint16_t>(message.size());
     std::array<iovec, kVectorCount> io;
     // Deviation of MISRA RULE-6-8-3: codeql::misra_deviation_next_line(unix-domain-iovec-stack-buffers)
-- 
2.43.0


From 329f14e5cc95282fb4a4bb7ead0c7d70534d5439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:14 +0000
Subject: [PATCH 15/30] fix: do not deliver a message whose header was cut off
 by a disconnection

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index afe24cc..1575f99 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -253,6 +253,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
         // other side disconnected
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
     }
+    if (static_cast<std::size_t>(size_expected.value()) != (sizeof(code) + sizeof(size)))
+    {
+        // other side disconnected in the middle of the message header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EIO));
+    }
     if (size == 0)
     {
         return {};
-- 
2.43.0


From cabcaff46cf9cd8c48203013b9ac61f41bf147da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:14 +0000
Subject: [PATCH 16/30] fix: compare the received size with the whole size of a
 receive buffer of 64 KiB or more

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 1575f99..1160249 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -262,7 +262,7 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
     {
         return {};
     }
-    if (size > static_cast<std::uint16_t>(posix_receive_buffer_.size()))
+    if (static_cast<std::size_t>(size) > posix_receive_buffer_.size())
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
-- 
2.43.0


From c80f63f175c7811f850796df252d5b7ea5dac7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:33 +0000
Subject: [PATCH 17/30] fix: a connection that cannot be accepted does not
 terminate the server

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index eb87c2d..d142fd9 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -237,7 +237,13 @@ void UnixDomainServer::ProcessConnect() noexcept
 {
     auto& socket = engine_->GetOsResources().socket;
 
-    const std::int32_t data_fd = socket->accept(server_fd_, nullptr, nullptr).value();
+    const auto data_fd_expected = socket->accept(server_fd_, nullptr, nullptr);
+    if (!data_fd_expected.has_value())
+    {
+        // e.g. the client has already gone or this process is out of file descriptors
+        return;
+    }
+    const std::int32_t data_fd = data_fd_expected.value();
 #ifdef __QNX__
     // no support for SO_PEERCRED on QNX
     ClientIdentity identity{0, 0, 0};
-- 
2.43.0


From 2fd081331916cee258e361c2779225613f4f6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:45 +0000
Subject: [PATCH 18/30] fix: a client cannot terminate a server that does not
 handle its kind of message or disconnection

---
 .../unix_domain/unix_domain_server.cpp           | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index d142fd9..f8419da 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -112,12 +112,22 @@ bool UnixDomainServer::ServerConnection::ProcessInput()
     switch (code)
     {
         case score::cpp::to_underlying(ClientToServer::REQUEST):
+            if ((!std::holds_alternative<HandlerPointerT>(user_data)) && server_.sent_with_reply_callback_.empty())
+            {
+                // nobody handles this kind of message; drop connection
+                return false;
+            }
             return (std::holds_alternative<HandlerPointerT>(user_data)
                         ? std::get<HandlerPointerT>(user_data)->OnMessageSentWithReply(*this, message)
                         : server_.sent_with_reply_callback_(*this, message))
                 .has_value();
 
         case score::cpp::to_underlying(ClientToServer::SEND):
+            if ((!std::holds_alternative<HandlerPointerT>(user_data)) && server_.sent_callback_.empty())
+            {
+                // nobody handles this kind of message; drop connection
+                return false;
+            }
             return (std::holds_alternative<HandlerPointerT>(user_data)
                         ? std::get<HandlerPointerT>(user_data)->OnMessageSent(*this, message)
                         : server_.sent_callback_(*this, message))
@@ -141,10 +151,14 @@ UnixDomainServer::ServerConnection::~ServerConnection() noexcept
         {
             (*handler)->OnDisconnect(*this);
         }
-        else
+        else if (!server_.disconnect_callback_.empty())
         {
             server_.disconnect_callback_(*this);
         }
+        else
+        {
+            // nobody is interested in the disconnection
+        }
     }
     std::ignore = server_.engine_->GetOsResources().unistd->close(fd_);
 }
-- 
2.43.0


From 74ec35aec8d894a5b09b22e6adbcf1cf04475e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:03 +0000
Subject: [PATCH 19/30] fix: the engine thread does not sleep forever if a
 command became due while others were executed

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 1160249..f4e5673 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -363,6 +363,11 @@ std::int32_t UnixDomainEngine::ProcessTimerQueue() noexcept
     {
         return INT32_MAX;
     }
+    if (distance_ms < 0)
+    {
+        // already due, since executing the commands took long; a negative timeout would wait forever
+        return 0;
+    }
     // At this point distance_ms < INT32_MAX, so adding 1 cannot overflow.
     return static_cast<std::int32_t>(distance_ms + 1);
 }
-- 
2.43.0


From 2eeccee625368c1fcc7628302036c10ed19cb321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:37 +0000
Subject: [PATCH 20/30] fix: answer requests that arrive after the message
 callback scope expired without terminating

After replying kSkeletonAlreadyDestroyed the callback went on to access the
result of an invocation that did not take place, which terminated the process.
---
 .../bindings/lola/messaging/message_passing_service_instance.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index 5818201..e752e4c 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -339,6 +339,7 @@ message_passing::MessageCallback MessagePassingServiceInstance::CreateSendMessag
                                                     "expiring. Disconnecting from client.";
                 return score::cpp::make_unexpected(os::Error::createUnspecifiedError());
             }
+            return {};
         }
 
         const auto& message_handling_result = function_invocation_result.value();
-- 
2.43.0


From 0a1c53c470be5bba46c323b43400d2e9f6df9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:12 +0000
Subject: [PATCH 21/30] fix: report the existence of event notification
 handlers reliably

The handler existence (used by providers to skip notifications) was decided on
separately read local and remote registrations and reported outside any order,
so that a concurrent local and remote (un)registration could leave a provider
believing that nobody is interested. Removing an outdated node was not reported
at all. Reports are now serialized per event and always based on both.
---
 .../message_passing_service_instance.cpp      | 209 ++++++------------
 .../message_passing_service_instance.h        |  30 ++-
 2 files changed, 101 insertions(+), 138 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index e752e4c..98ce5c4 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -220,6 +220,8 @@ MessagePassingServiceInstance::MessagePassingServiceInstance(
       event_update_handlers_mutex_{},
       handler_status_change_callbacks_{},
       handler_status_change_callbacks_mutex_{},
+      handler_status_reports_{},
+      handler_status_reports_mutex_{},
       event_update_interested_nodes_{},
       event_update_interested_nodes_mutex_{},
       event_update_remote_registrations_{},
@@ -472,14 +474,6 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     }
 
     bool already_registered{false};
-    bool notify_status_change = false;
-
-    // Check if there are local handlers first (to maintain lock hierarchy: handlers before nodes)
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(elementFqId);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
 
     // TODO: PMR
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
@@ -488,19 +482,14 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     {
         auto inserted = search->second.insert(sender_node_id);
         already_registered = (inserted.second == false);
-        notify_status_change = !already_registered && (search->second.size() == 1U);
     }
     else
     {
         auto emplaced = event_update_interested_nodes_.emplace(elementFqId, std::set<pid_t>{});
         score::cpp::ignore = emplaced.first->second.insert(sender_node_id);
-        notify_status_change = true;  // First remote handler
     }
     write_lock.unlock();
 
-    // Only notify if no local handlers exist
-    notify_status_change = notify_status_change && !has_local_handlers;
-
     if (already_registered)
     {
         score::mw::log::LogWarn("lola")
@@ -508,17 +497,7 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
             << elementFqId.ToString() << " from node " << sender_node_id;
     }
 
-    // Notify SkeletonEvent that the first handler (remote) has been registered.
-    // This allows SkeletonEvent to start sending NotifyEvent() calls for this event.
-    if (notify_status_change)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(elementFqId);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(true);  // Now has handlers
-        }
-    }
+    ReportHandlerExistence(elementFqId);
 }
 
 void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score::cpp::span<const std::uint8_t> payload,
@@ -532,27 +511,12 @@ void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score:
     }
 
     bool registration_found{false};
-    bool notify_status_change = false;
-
-    // Check if there are local handlers first (to maintain lock hierarchy: handlers before nodes)
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(elementFqId);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
 
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
     auto search = event_update_interested_nodes_.find(elementFqId);
     if (search != event_update_interested_nodes_.end())
     {
         registration_found = search->second.erase(sender_node_id) == 1U;
-
-        // If this was the last remote node being unregistered, we have a status change only if there are
-        // no local handlers exist.
-        if (registration_found && search->second.empty())
-        {
-            notify_status_change = !has_local_handlers;
-        }
     }
     write_lock.unlock();
 
@@ -563,17 +527,7 @@ void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score:
             << elementFqId.ToString() << " from node " << sender_node_id << ", but there was no registration!";
     }
 
-    // Notify SkeletonEvent that the last handler (remote) has been unregistered.
-    // This allows SkeletonEvent to skip NotifyEvent() calls for this event to save performance.
-    if (notify_status_change)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(elementFqId);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(false);  // No handlers remain
-        }
-    }
+    ReportHandlerExistence(elementFqId);
 }
 
 void MessagePassingServiceInstance::HandleOutdatedNodeIdMsg(const score::cpp::span<const std::uint8_t> payload,
@@ -588,12 +542,23 @@ void MessagePassingServiceInstance::HandleOutdatedNodeIdMsg(const score::cpp::sp
 
     EventUpdateNodeIdMapType::size_type remove_count{0U};
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
+    std::vector<ElementFqId> affected_events{};
     for (auto& element : event_update_interested_nodes_)
     {
-        remove_count += element.second.erase(pid_to_unregister);
+        const auto erased_count = element.second.erase(pid_to_unregister);
+        if (erased_count > 0U)
+        {
+            remove_count += erased_count;
+            affected_events.push_back(element.first);
+        }
     }
     write_lock.unlock();
 
+    for (const auto& affected_event : affected_events)
+    {
+        ReportHandlerExistence(affected_event);
+    }
+
     if (remove_count == 0U)
     {
         score::mw::log::LogInfo("lola") << "MessagePassingService: HandleOutdatedNodeIdMsg for outdated node id:"
@@ -1042,13 +1007,8 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
     std::weak_ptr<ScopedEventReceiveHandler> callback,
     const pid_t target_node_id) noexcept
 {
-    bool notify_status_change = false;
-
     std::unique_lock<std::shared_mutex> write_lock(event_update_handlers_mutex_);
-
-    // Check if this is the first handler being registered
     auto search = event_update_handlers_.find(event_id);
-    const bool was_empty = (search == event_update_handlers_.end()) || (search->second.empty());
 
     // The rule against increment and decrement operators mixed with others on the same line sems to be more applicable
     // to arithmetic operators. Here the only other operator is the member access operator (i.e. the dot operator) and
@@ -1067,19 +1027,6 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
         result.first->second.push_back(std::move(newHandler));
     }
 
-    // Check if we need to notify about status change (transition from 0 to 1 local handlers)
-    // We only notify if there were no remote handlers either
-    if (was_empty)
-    {
-        std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-        auto nodes_search = event_update_interested_nodes_.find(event_id);
-        const bool has_remote_handlers =
-            (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-        nodes_read_lock.unlock();
-        // Only notify if no remote handlers exist, because only then we have a state change from 0 -> >0.
-        notify_status_change = !has_remote_handlers;
-    }
-
     write_lock.unlock();
 
     if (target_node_id != self_pid_)
@@ -1087,17 +1034,7 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
         RegisterEventNotificationRemote(event_id, target_node_id);
     }
 
-    // Notify SkeletonEvent that the first handler (local) has been registered.
-    // This allows SkeletonEvent to start sending NotifyEvent() calls for this event.
-    if (notify_status_change)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(true);  // Now has handlers
-        }
-    }
+    ReportHandlerExistence(event_id);
 
     return registration_no;
 }
@@ -1160,7 +1097,6 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
     const pid_t target_node_id) noexcept
 {
     bool found{false};
-    bool notify_status_change = false;
 
     std::unique_lock<std::shared_mutex> write_lock(event_update_handlers_mutex_);
     auto search = event_update_handlers_.find(event_id);
@@ -1180,18 +1116,6 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
         {
             score::cpp::ignore = search->second.erase(result);
             found = true;
-
-            // If this was the last local handler, check if remote nodes interested in update notification exist
-            if (search->second.empty())
-            {
-                std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-                auto nodes_search = event_update_interested_nodes_.find(event_id);
-                const bool has_remote_handlers =
-                    (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-                nodes_read_lock.unlock();
-                // Only notify if no remote handlers exist, because only then we have a state change from >0 -> 0.
-                notify_status_change = !has_remote_handlers;
-            }
         }
     }
     write_lock.unlock();
@@ -1211,17 +1135,7 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
         UnregisterEventNotificationRemote(event_id, registration_no, target_node_id);
     }
 
-    // Notify SkeletonEvent that the last handler (local) has been unregistered.
-    // This allows SkeletonEvent to skip NotifyEvent() calls for this event to save performance.
-    if (notify_status_change)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(false);  // No handlers remain
-        }
-    }
+    ReportHandlerExistence(event_id);
 }
 
 Result<void> MessagePassingServiceInstance::RegisterOnServiceMethodSubscribedHandler(
@@ -1470,40 +1384,13 @@ void MessagePassingServiceInstance::RegisterEventNotificationExistenceChangedCal
     IMessagePassingService::HandlerStatusChangeCallback callback) noexcept
 {
     std::unique_lock<std::shared_mutex> write_lock(handler_status_change_callbacks_mutex_);
-    handler_status_change_callbacks_[event_id] = std::move(callback);
+    auto& registered_callback = handler_status_change_callbacks_[event_id];
+    registered_callback.callback = std::move(callback);
+    registered_callback.reported_status = false;
     write_lock.unlock();
 
-    // Check current handler status and invoke callback if handlers already exist
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(event_id);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
-
-    std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-    auto nodes_search = event_update_interested_nodes_.find(event_id);
-    const bool has_remote_handlers =
-        (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-    nodes_read_lock.unlock();
-
-    const bool has_any_handlers = has_local_handlers || has_remote_handlers;
-
-    // Invoke the callback immediately only if handlers are already registered.
-    // This avoids unnecessary callback invocation when the atomic flags are already initialized to false.
-    if (has_any_handlers)
-    {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-
-        // LCOV_EXCL_BR_START: Defensive programming: false branch is unreachable in practice. The code inserts a
-        // callback into the map, then immediately looks it up. Between these two operations (both protected by
-        // mutexes), there's no way for the callback to be removed.
-        if (callback_search != handler_status_change_callbacks_.end())
-        // LCOV_EXCL_BR_STOP
-        {
-            callback_search->second(true);
-        }
-    }
+    // Invokes the callback immediately only if handlers are already registered.
+    ReportHandlerExistence(event_id);
 }
 
 void MessagePassingServiceInstance::UnregisterEventNotificationExistenceChangedCallback(
@@ -1521,6 +1408,56 @@ void MessagePassingServiceInstance::UnregisterEventNotificationExistenceChangedC
     }
 }
 
+bool MessagePassingServiceInstance::HasHandlers(const ElementFqId event_id) noexcept
+{
+    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
+    const auto handlers_search = event_update_handlers_.find(event_id);
+    const bool has_local_handlers =
+        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
+
+    std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
+    const auto nodes_search = event_update_interested_nodes_.find(event_id);
+    const bool has_remote_handlers =
+        (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
+
+    return has_local_handlers || has_remote_handlers;
+}
+
+void MessagePassingServiceInstance::ReportHandlerExistence(const ElementFqId event_id) noexcept
+{
+    std::unique_lock<std::mutex> reports_lock(handler_status_reports_mutex_);
+    auto& report = handler_status_reports_[event_id];
+    report.is_requested = true;
+    if (report.is_in_progress)
+    {
+        // The thread which is currently reporting will look at the handlers again before it is done.
+        return;
+    }
+
+    report.is_in_progress = true;
+    while (report.is_requested)
+    {
+        report.is_requested = false;
+        reports_lock.unlock();
+        {
+            std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
+            const auto callback_search = handler_status_change_callbacks_.find(event_id);
+            if (callback_search != handler_status_change_callbacks_.end())
+            {
+                auto& registered_callback = callback_search->second;
+                const bool has_handlers = HasHandlers(event_id);
+                if (has_handlers != registered_callback.reported_status)
+                {
+                    registered_callback.reported_status = has_handlers;
+                    registered_callback.callback(has_handlers);
+                }
+            }
+        }
+        reports_lock.lock();
+    }
+    report.is_in_progress = false;
+}
+
 QualityType MessagePassingServiceInstance::GetPartnerQualityType() const
 {
     switch (asil_level_)
diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
index f2e1247..e9225e4 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
@@ -37,6 +37,7 @@
 #include <iterator>
 #include <memory>
 #include <set>
+#include <mutex>
 #include <shared_mutex>
 #include <unordered_map>
 #include <utility>
@@ -161,6 +162,20 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
         IMessagePassingService::HandlerRegistrationNoType register_no{};
     };
 
+    /// \brief Callback for changes of the handler existence together with the status it was called with last.
+    struct RegisteredStatusChangeCallback
+    {
+        IMessagePassingService::HandlerStatusChangeCallback callback{};
+        bool reported_status{false};
+    };
+
+    /// \brief State of the reporting of the handler existence of one event.
+    struct StatusReport
+    {
+        bool is_in_progress{false};
+        bool is_requested{false};
+    };
+
     /// \brief Counter for registered event receive notifications for the given (target) node.
     struct NodeCounter
     {
@@ -221,6 +236,12 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
                                            const pid_t target_node_id) noexcept;
     void SendRegisterEventNotificationMessage(const ElementFqId event_id, const pid_t target_node_id) noexcept;
 
+    /// \brief Returns whether any (local or remote) handler is currently registered for the given event.
+    bool HasHandlers(const ElementFqId event_id) noexcept;
+
+    /// \brief Calls the callback registered for event_id, if the existence of handlers differs from what was reported.
+    void ReportHandlerExistence(const ElementFqId event_id) noexcept;
+
     score::Result<void> CallSubscribeServiceMethodLocally(
         const SkeletonInstanceIdentifier& skeleton_instance_identifier,
         const ProxyInstanceIdentifier& proxy_instance_identifier,
@@ -338,11 +359,16 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
     /// \details This allows SkeletonEvent instances to be notified when they transition from having
     ///          no handlers to having at least one handler (or vice versa), avoiding unnecessary lock
     ///          overhead in the main path when no handlers are registered.
-    std::unordered_map<ElementFqId, IMessagePassingService::HandlerStatusChangeCallback>
-        handler_status_change_callbacks_;
+    std::unordered_map<ElementFqId, RegisteredStatusChangeCallback> handler_status_change_callbacks_;
 
     std::shared_mutex handler_status_change_callbacks_mutex_;
 
+    /// \brief map holding per event_id, whether the handler registration status is currently being reported.
+    /// \details Reports for the same event are serialized, so that the status reported last is the current one.
+    std::unordered_map<ElementFqId, StatusReport> handler_status_reports_;
+
+    std::mutex handler_status_reports_mutex_;
+
     /// \brief map holding per event_id a list of remote LoLa nodes, which need to be informed, when the event with
     ///        given _event_id_ is updated.
     /// \note This is the symmetric data structure to event_update_handlers_, in case the proxy-event registering
-- 
2.43.0


From b7320e8c0344ce95a86c3e8f703597a9dc760cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:28 +0000
Subject: [PATCH 22/30] fix: re-register an event notification whose remote
 registration was given up by another proxy

With two proxies of a process connected to a restarted provider, the remote registration can
have been removed already by the unregistration of the first one when the second one
re-registers. Its registration was then lost: the new provider never got to know about it.
---
 .../lola/messaging/message_passing_service_instance.cpp     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index 98ce5c4..8a6a84f 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -1062,9 +1062,11 @@ void MessagePassingServiceInstance::ReregisterEventNotification(const ElementFqI
         auto registration_count = event_update_remote_registrations_.find(event_id);
         if (registration_count == event_update_remote_registrations_.end())
         {
+            // Another proxy may have re-registered (or registered) with the new remote pid before and already
+            // unregistered again.
+            score::cpp::ignore = event_update_remote_registrations_.emplace(event_id, NodeCounter{target_node_id, 1U});
             remote_reg_write_lock.unlock();
-            score::mw::log::LogError("lola") << "MessagePassingService: ReregisterEventNotification for a remote event "
-                                             << event_id.ToString() << " without current remote registration!";
+            SendRegisterEventNotificationMessage(event_id, target_node_id);
             return;
         }
         if (registration_count->second.node_id == target_node_id)
-- 
2.43.0


From 66463b345f98699c4674e77857a5f9179b1104e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:29 +0000
Subject: [PATCH 23/30] fix: do not leave a flag file behind if its permissions
 cannot be set

A failed offer would otherwise be found by consumers although the service is not offered.
---
 score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp b/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
index 2a9bd95..51a71ee 100644
--- a/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
+++ b/score/mw/com/impl/bindings/lola/service_discovery/flag_file.cpp
@@ -215,6 +215,8 @@ auto FlagFile::Make(EnrichedInstanceIdentifier enriched_instance_identifier,
     {
         mw::log::LogError("lola") << "Failed to set permissions on flag file" << flag_file_path.Native() << ":"
                                   << permission_result.error();
+        // The flag file must not stay behind, since the service would be found although it is not offered.
+        score::cpp::ignore = filesystem.standard->Remove(flag_file_path);
         return score::MakeUnexpected(ComErrc::kBindingFailure, "Could not set permissions on flag file");
     }
     mw::log::LogDebug("lola") << "created flag file for service:" << flag_file_path.Native();
-- 
2.43.0


From b9b20bb73f94bb200f86d58aa50037d18c972699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:16 +0000
Subject: [PATCH 24/30] fix: reserve the slots for a field's getter and setter
 when shared-memory sizes are calculated analytically

---
 score/mw/com/impl/bindings/lola/skeleton_event.h     |  5 +++++
 .../impl/bindings/lola/skeleton_event_properties.h   | 12 +++++++++---
 .../impl/bindings/lola/skeleton_memory_manager.cpp   |  7 +++++--
 score/mw/com/impl/skeleton_event_binding.h           |  7 +++++++
 4 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_event.h b/score/mw/com/impl/bindings/lola/skeleton_event.h
index 2c5f969..4f71475 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event.h
@@ -98,6 +98,11 @@ class SkeletonEvent final : public SkeletonEventBinding<SampleType>
 
     void PrepareStopOffer() noexcept override;
 
+    std::size_t GetNumberOfAdditionalSlots() const noexcept override
+    {
+        return skeleton_event_common_.GetEventProperties().GetNumberOfFieldSlots();
+    }
+
     BindingType GetBindingType() const noexcept override
     {
         return BindingType::kLoLa;
diff --git a/score/mw/com/impl/bindings/lola/skeleton_event_properties.h b/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
index d18d716..40910a5 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_event_properties.h
@@ -41,9 +41,15 @@ class SkeletonEventProperties
     /// / Setter fuctionality (in case a SkeletonField has WithGetter / WithSetter enabled).
     [[nodiscard]] std::size_t GetTotalNumberOfSlots() const
     {
-        const std::size_t number_of_field_setter_slots = is_setter_enabled_ ? 1 : 0;
-        return number_of_slots_ + number_of_tracing_slots_ + number_of_field_getter_slots_ +
-               number_of_field_setter_slots;
+        return number_of_slots_ + number_of_tracing_slots_ + GetNumberOfFieldSlots();
+    }
+
+    /// \brief Returns the number of slots required to support field Getter / Setter functionality, i.e. the slots which
+    /// are needed in addition to the ones configured by the user.
+    [[nodiscard]] std::size_t GetNumberOfFieldSlots() const
+    {
+        const std::size_t number_of_field_setter_slots = is_setter_enabled_ ? 1U : 0U;
+        return number_of_field_getter_slots_ + number_of_field_setter_slots;
     }
 
     /// \brief Returns the number of slots required to support Getter functionality.
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index dabb70b..430a778 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -579,8 +579,9 @@ std::size_t SkeletonMemoryManager::CalculateDataShmResourceStorageSize(
                                      const bool are_fields) {
             for (const auto& binding : bindings)
             {
-                const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields);
                 SkeletonEventBindingBase& event_binding = binding.second.get();
+                const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields) +
+                                                    event_binding.GetNumberOfAdditionalSlots();
 
                 // A generic (type-erased) event/field allocates its slot-array as an EventDataStorage<std::max_align_t>
                 // (see SkeletonMemoryManager::CreateGenericEventDataInCreatedSharedMemory()): the raw byte count gets
@@ -627,7 +628,9 @@ std::size_t SkeletonMemoryManager::CalculateControlShmResourceStorageSize(
                                               const bool are_fields) {
         for (const auto& binding : bindings)
         {
-            const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields);
+            const SkeletonEventBindingBase& event_binding = binding.second.get();
+            const std::size_t number_of_slots = GetNumberOfSampleSlotsFromConfig(binding.first, are_fields) +
+                                                event_binding.GetNumberOfAdditionalSlots();
             const std::size_t max_subscribers = GetMaxSubscribersFromConfig(binding.first, are_fields);
             events_and_fields_size_infos.push_back(ServiceElementControlSizeInfo{number_of_slots, max_subscribers});
         }
diff --git a/score/mw/com/impl/skeleton_event_binding.h b/score/mw/com/impl/skeleton_event_binding.h
index b395578..851ce56 100644
--- a/score/mw/com/impl/skeleton_event_binding.h
+++ b/score/mw/com/impl/skeleton_event_binding.h
@@ -67,6 +67,13 @@ class SkeletonEventBindingBase
     /// \brief Alignment requirement (in bytes) of the underlying event-type's sample data.
     virtual std::size_t GetAlignment() const noexcept = 0;
 
+    /// \brief Number of sample slots which the binding needs in addition to the slots specified in the configuration
+    /// (e.g. to support the getter / setter of a field).
+    virtual std::size_t GetNumberOfAdditionalSlots() const noexcept
+    {
+        return 0U;
+    }
+
     /// \brief Gets the binding type of the binding
     virtual BindingType GetBindingType() const noexcept = 0;
 
-- 
2.43.0


From 78bdbfaad63693b1ef4cef9d185b854f63c09e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:53 +0000
Subject: [PATCH 25/30] fix: close the methods memory of a proxy whose method
 subscription failed

---
 score/mw/com/impl/bindings/lola/skeleton.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/score/mw/com/impl/bindings/lola/skeleton.cpp b/score/mw/com/impl/bindings/lola/skeleton.cpp
index 4c3457e..f118418 100644
--- a/score/mw/com/impl/bindings/lola/skeleton.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton.cpp
@@ -703,6 +703,7 @@ Result<void> Skeleton::OnServiceMethodsSubscribed(const ProxyInstanceIdentifier&
     if (!(subscription_result.has_value()))
     {
         UnsubscribeMethods(method_ids_to_unsubscribe, proxy_instance_identifier);
+        method_resources_.Remove(proxy_instance_identifier);
         return subscription_result;
     }
     return {};
-- 
2.43.0


From d218bc0bcac2677bb39811b68ca8f4038ffe5fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:26 +0000
Subject: [PATCH 26/30] fix: send the names of a provided service's elements
 instead of their addresses

---
 .../sample/messages/gateway_messages.cpp      |  5 +-
 .../sample/messages/gateway_messages.h        |  2 +
 .../sample/messages/serialization.h           | 63 +++++++++++++++++++
 3 files changed, 69 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
index 6d9dec7..b85b5d3 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
@@ -60,7 +60,10 @@ std::size_t ProvideServiceRequest::Serialize(score::cpp::span<std::uint8_t> buff
 
 bool ProvideServiceRequest::Deserialize(score::cpp::span<const std::uint8_t> data)
 {
-    return DeserializeWithTemplate(*this, data);
+    // The names of the deserialized elements refer to the buffer they have been deserialized from.
+    elements_.clear();
+    payload_.assign(data.begin(), data.end());
+    return DeserializeWithTemplate(*this, score::cpp::span<const std::uint8_t>(payload_.data(), payload_.size()));
 }
 
 std::size_t AckResponse::Serialize(score::cpp::span<std::uint8_t> buffer) const
diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
index ec05266..992b80b 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
@@ -95,6 +95,8 @@ class ProvideServiceRequest : public TransportMessage
     std::vector<score::mw::com::EventInfo> elements_;
     std::uint32_t shm_control_size_{0U};
     std::uint32_t shm_data_size_{0U};
+    // Payload which this message has been deserialized from: the names in elements_ refer to it.
+    std::vector<std::uint8_t> payload_;
 };
 
 /// \brief Acknowledgement response message, sent to confirm receipt of a request with a given sequence number.
diff --git a/score/mw/com/gateway/transport_layer/sample/messages/serialization.h b/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
index 9ae369f..d2e02af 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
@@ -24,6 +24,11 @@
 #include <type_traits>
 #include <vector>
 
+namespace score::mw::com::impl
+{
+struct EventInfo;
+}  // namespace score::mw::com::impl
+
 namespace score::mw::com::gateway
 {
 
@@ -59,6 +64,9 @@ struct std_vector_tag
 struct std_string_tag
 {
 };
+struct event_info_tag
+{
+};
 struct non_trivial_tag
 {
 };
@@ -71,6 +79,10 @@ constexpr auto serialization_tag()
     {
         return std_string_tag{};
     }
+    else if constexpr (std::is_same_v<std::decay_t<T>, impl::EventInfo>)
+    {
+        return event_info_tag{};
+    }
     else if constexpr (std::is_trivially_copyable_v<T>)
     {
         return trivially_copyable_tag{};
@@ -93,6 +105,8 @@ constexpr auto serialization_tag()
  * The supported types are:
  * - std::string: serialized as a null-terminated string (i.e. the string data followed by a null terminator). The
  *   required buffer size is the string size + 1 (for the null terminator).
+ * - impl::EventInfo: only refers to its name, so the name is serialized like a std::string, followed by a binary copy
+ *   of its data type meta info.
  * - Trivially copyable types: serialized as a binary copy of the value. The required buffer size is sizeof the type.
  * - std::vector: serialized as a 16-bit unsigned integer for the number of elements, followed by the serialized
  *   elements. The required buffer size is 2 (for the number of elements) + the sum of the required buffer sizes of the
@@ -117,6 +131,8 @@ score::Result<uint32_t> Serialize(const T& value, score::cpp::span<std::byte> ta
  *
  * The supported types are:
  * - std::string: deserialized from a null-terminated string (i.e. the string data followed by a null terminator).
+ * - impl::EventInfo: deserialized from a null-terminated string and a binary copy of the data type meta info. The name
+ *   of the deserialized value refers to the source buffer, which has to outlive it.
  * - Trivially copyable types: deserialized as a binary copy of the value.
  * - std::vector: deserialized as a 16-bit unsigned integer for the number of elements, followed by the deserialized
  *   elements.
@@ -154,6 +170,25 @@ score::Result<uint32_t> Serialize(const T& string, score::cpp::span<std::byte> t
  * @brief Serialize implementation for trivially copyable types.
  * @details See above in the main Serialize function
  */
+template <typename T>
+score::Result<uint32_t> Serialize(const T& event_info, score::cpp::span<std::byte> target_buffer, event_info_tag)
+{
+    const auto name_result = Serialize(std::string{event_info.name}, target_buffer);
+    if (!name_result)
+    {
+        return name_result;
+    }
+
+    const auto meta_info_result =
+        Serialize(event_info.data_type_meta_info, target_buffer.subspan(name_result.value()));
+    if (!meta_info_result)
+    {
+        return meta_info_result;
+    }
+
+    return name_result.value() + meta_info_result.value();
+}
+
 template <typename T>
 score::Result<uint32_t> Serialize(const T& trivial_copyable,
                                   score::cpp::span<std::byte> target_buffer,
@@ -253,6 +288,12 @@ std::size_t ComputeSerializedSize(const T& value, std_string_tag)
     return value.size() + 1U;
 }
 
+template <typename T>
+std::size_t ComputeSerializedSize(const T& event_info, event_info_tag)
+{
+    return event_info.name.size() + 1U + ComputeSerializedSize(event_info.data_type_meta_info);
+}
+
 template <typename T>
 std::size_t ComputeSerializedSize(const T&, trivially_copyable_tag)
 {
@@ -311,6 +352,28 @@ score::Result<uint32_t> Deserialize(T& target_string, score::cpp::span<const std
  * @brief Deserialize implementation for trivially copyable types.
  * @details See above in the main Deserialize function
  */
+template <typename T>
+score::Result<uint32_t> Deserialize(T& event_info, score::cpp::span<const std::byte> source_buffer, event_info_tag)
+{
+    const auto* const name_start = reinterpret_cast<const char*>(source_buffer.data());
+    const auto name_len = strnlen(name_start, source_buffer.size());
+    if (name_len == source_buffer.size() || name_len == 0U)
+    {
+        return score::MakeUnexpected(score::mw::com::gateway::MessageErrorc::kPayloadInvalid);
+    }
+
+    const auto meta_info_result =
+        Deserialize(event_info.data_type_meta_info, source_buffer.subspan(name_len + 1U));
+    if (!meta_info_result)
+    {
+        return meta_info_result;
+    }
+
+    event_info.name = {name_start, name_len};
+
+    return static_cast<uint32_t>(name_len + 1U) + meta_info_result.value();
+}
+
 template <typename T>
 score::Result<uint32_t> Deserialize(T& target, score::cpp::span<const std::byte> source_buffer, trivially_copyable_tag)
 {
-- 
2.43.0


From b6a74644b3d1ea02f3428828f2ec31d415a9c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:27 +0000
Subject: [PATCH 27/30] fix: let the gateway transport's threads see a shutdown
 before they block

---
 .../sample/bidirectional_transport.cpp              | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index a700aba..540f89a 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -284,7 +284,7 @@ bool BidirectionalTransport::WaitForConnection(score::cpp::stop_token stop_token
 
 void BidirectionalTransport::ReceiveUntilDisconnect(score::cpp::stop_token stop_token)
 {
-    while (!stop_token.stop_requested() && is_connected_)
+    while (!stop_token.stop_requested() && is_connected_ && !dispatch_shutdown_)
     {
         auto message = message_framer_->ReceiveMessage(receive_socket_.Get());
         if (message == nullptr)
@@ -478,6 +478,14 @@ bool BidirectionalTransport::IsConnected() const
 
 void BidirectionalTransport::Shutdown()
 {
+    {
+        // Both loops check this flag before they block: the dispatch loop while it holds the mutex, the connection loop
+        // after it has stored its receive socket. It has to be set before the sockets are shut down.
+        std::lock_guard<std::mutex> lock(dispatch_mutex_);
+        dispatch_shutdown_ = true;
+    }
+    dispatch_cv_.notify_all();
+
     is_connected_ = false;
 
     pending_tracker_->NotifyAll();
@@ -486,9 +494,6 @@ void BidirectionalTransport::Shutdown()
     receive_socket_.ShutdownFd();
     listen_socket_.ShutdownFd();
 
-    dispatch_shutdown_ = true;
-    dispatch_cv_.notify_all();
-
     threads_.Shutdown();
 }
 
-- 
2.43.0


From 5cc61ff94af0c28784feb1dccaf043fffc81cdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:28 +0000
Subject: [PATCH 28/30] fix: a service of which the gateway has no proxy may
 disappear without terminating the gateway

---
 .../com/gateway/gateway_application/gateway_application.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/score/mw/com/gateway/gateway_application/gateway_application.cpp b/score/mw/com/gateway/gateway_application/gateway_application.cpp
index 4a4334d..a1dd19b 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.cpp
+++ b/score/mw/com/gateway/gateway_application/gateway_application.cpp
@@ -163,11 +163,9 @@ void GatewayApplication::OnServiceAvailabilityChanged(const std::string& specifi
 void GatewayApplication::OnServiceUnavailable(const std::string& specifier_str)
 {
     std::lock_guard<std::recursive_mutex> lock(mutex_);
-    const auto it = proxies_.find(specifier_str);
-
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(it != proxies_.cend(),
-                                                "GatewayApplication: Service unavailable but proxy not found");
 
+    // There may be no proxy for the service, if its creation or its propagation failed. The withdrawal is forwarded even
+    // then, since the remote gateway may have handled a request whose acknowledgement got lost.
     score::mw::log::LogInfo() << "GatewayApplication: Service no longer available: " << specifier_str;
 
     auto specifier_result = score::mw::com::InstanceSpecifier::Create(std::string{specifier_str});
-- 
2.43.0


From 34aea764f1b49175148fb82b52e61314cb98b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:46:28 +0000
Subject: [PATCH 29/30] fix: propagate a valid alignment of a forwarded
 service's samples

---
 .../gateway_application.cpp                    | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/gateway/gateway_application/gateway_application.cpp b/score/mw/com/gateway/gateway_application/gateway_application.cpp
index a1dd19b..a029ec6 100644
--- a/score/mw/com/gateway/gateway_application/gateway_application.cpp
+++ b/score/mw/com/gateway/gateway_application/gateway_application.cpp
@@ -20,6 +20,7 @@
 #include "score/mw/log/logging.h"
 #include <score/assert.hpp>
 
+#include <cstddef>
 #include <cstdint>
 #include <limits>
 #include <memory>
@@ -36,6 +37,18 @@ namespace
 // actual data is read directly from shared memory by the consumer.
 constexpr std::size_t kGatewaySubscribeSamples = 1U;
 
+// A generic proxy only knows the size of the samples of an event. As the size of a type is a multiple of its alignment,
+// the largest power of two dividing the size (limited to the strictest fundamental alignment) is a valid alignment.
+std::size_t GetAlignmentForSampleSize(const std::size_t sample_size) noexcept
+{
+    std::size_t alignment{1U};
+    while ((sample_size != 0U) && (alignment < alignof(std::max_align_t)) && ((sample_size % (alignment * 2U)) == 0U))
+    {
+        alignment *= 2U;
+    }
+    return alignment;
+}
+
 }  // namespace
 
 GatewayApplication::~GatewayApplication()
@@ -202,8 +215,9 @@ void GatewayApplication::PropagateService(const std::string& specifier_str)
     for (const auto& [event_name, event] : std::as_const(event_map))
     {
         const auto sample_size = event.GetSampleSize();
-        elements.push_back(
-            score::mw::com::impl::EventInfo{event_name, score::mw::com::impl::DataTypeMetaInfo{sample_size, 0U}});
+        elements.push_back(score::mw::com::impl::EventInfo{
+            event_name,
+            score::mw::com::impl::DataTypeMetaInfo{sample_size, GetAlignmentForSampleSize(sample_size)}});
     }
 
     auto provide_result = transport_layer_->ProvideService(std::move(specifier_result).value(), std::move(elements));
-- 
2.43.0


From 550068df0600f61c6fe9f4b657c1e8608d08e2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:14 +0000
Subject: [PATCH 30/30] fix: removing a receive handler within another event's
 handler waits for it

The thread local flag that tells a call within a receive handler was shared
by all events: a handler that removed the receive handler of another event (or
unsubscribed it) did not wait until that handler ended in its thread, so it
could still run, or even start, after UnsetReceiveHandler/Unsubscribe returned.
---
 score/mw/com/design/events_fields/README.md | 10 +++++-----
 score/mw/com/impl/proxy_event_base.cpp      | 20 ++++++++++++--------
 score/mw/com/impl/proxy_event_base.h        | 16 ++++++++++++++--
 3 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/score/mw/com/design/events_fields/README.md b/score/mw/com/design/events_fields/README.md
index 0a77f28..afd0d2f 100644
--- a/score/mw/com/design/events_fields/README.md
+++ b/score/mw/com/design/events_fields/README.md
@@ -479,11 +479,11 @@ has ended, the handler can be removed/unset. This is, because we have this contr
 `EventReceiveHandler` has ended.
 When the call to `ProxyEvent::UnsetReceiveHandler` happens inside a running `EventReceiveHandler`, then synchronization
 via scope expiring is not needed and would lead to a **deadlock**!
-The distinction is realized via a thread local bool variable `is_in_receive_handler_context` in `ProxyEventBase`.
-So in this wrapping step, we "enrich" the existing handler, by setting this thread local variable to `true`, before the
-call to the handler and reset it to `false` after the handler returns. With this extension we always can find out in a
-call to `ProxyEvent::UnsetReceiveHandler`, whether we are inside or outside a running `EventReceiveHandler` and act
-accordingly.
+The distinction is realized via a thread local variable `receive_handler_context` in `ProxyEventBase`.
+So in this wrapping step, we "enrich" the existing handler, by noting in this thread local variable, of which event the
+handler is executed, before the call to the handler and restoring its previous value after the handler returns. With
+this extension we always can find out in a call to `ProxyEvent::UnsetReceiveHandler`, whether we are inside or outside a
+running `EventReceiveHandler` of this event and act accordingly.
 
 ##### Handler extension with scoping
 
diff --git a/score/mw/com/impl/proxy_event_base.cpp b/score/mw/com/impl/proxy_event_base.cpp
index cb125c4..9276472 100644
--- a/score/mw/com/impl/proxy_event_base.cpp
+++ b/score/mw/com/impl/proxy_event_base.cpp
@@ -32,7 +32,7 @@ namespace score::mw::com::impl
 {
 
 // Initialization of static thread_local variables!
-thread_local bool ProxyEventBase::is_in_receive_handler_context = false;
+thread_local const ProxyEventBase::ReceiveHandlerContext* ProxyEventBase::receive_handler_context = nullptr;
 
 ProxyEventBase::ProxyEventBase(std::string_view event_name,
                                Result<std::unique_ptr<ProxyEventBindingBase>> proxy_event_binding)
@@ -214,12 +214,12 @@ Result<void> ProxyEventBase::SetReceiveHandler(EventReceiveHandler handler) noex
     auto tracing_handler = tracing::CreateTracingReceiveHandler(tracing_data_, *binding_base_, std::move(handler));
 
     // Package the tracing handler, which already encapsulates the user provided EventReceiveHandler into another
-    // move-only function, which adds the aspect of updating the thread local state is_in_receive_handler_context
-    // correctly.
-    auto extended_tracing_handler = [handler = std::move(tracing_handler)]() noexcept {
-        is_in_receive_handler_context = true;
+    // move-only function, which adds the aspect of updating the thread local state receive_handler_context correctly.
+    auto extended_tracing_handler = [handler = std::move(tracing_handler), event = tracker_.get()]() noexcept {
+        const ReceiveHandlerContext context{event, receive_handler_context};
+        receive_handler_context = &context;
         handler();
-        is_in_receive_handler_context = false;
+        receive_handler_context = context.outer;
     };
 
     // Create a new scope for the provided callable. This will also expire the scope of any previously registered
@@ -264,10 +264,14 @@ Result<void> ProxyEventBase::UnsetReceiveHandler() noexcept
 
 void ProxyEventBase::ExpireReceiveHandlerScopeIfNotInHandler()
 {
-    if (!is_in_receive_handler_context)
+    for (const auto* context = receive_handler_context; context != nullptr; context = context->outer)
     {
-        receive_handler_scope_.Expire();
+        if (context->event == tracker_.get())
+        {
+            return;
+        }
     }
+    receive_handler_scope_.Expire();
 }
 
 }  // namespace score::mw::com::impl
diff --git a/score/mw/com/impl/proxy_event_base.h b/score/mw/com/impl/proxy_event_base.h
index 5fc40bf..e550cdc 100644
--- a/score/mw/com/impl/proxy_event_base.h
+++ b/score/mw/com/impl/proxy_event_base.h
@@ -205,8 +205,18 @@ class ProxyEventBase : public EnableReferenceToMoveableFromThis<ProxyEventBase>
     FlagOwner is_subscribed_flag_;
     safecpp::Scope<> receive_handler_scope_;
     std::shared_ptr<ScopedEventReceiveHandler> receive_handler_ptr_;
+    /// \brief Chain of the events, whose user provided EventReceiveHandler is currently executed by a thread (innermost
+    ///        first).
+    /// \details An event is identified by the address of its #tracker_, which (other than the address of the event
+    ///          itself) doesn't change, when the event gets moved.
+    struct ReceiveHandlerContext
+    {
+        const SampleReferenceTracker* event;
+        const ReceiveHandlerContext* outer;
+    };
+
     /// \brief thread local variable, which indicates, whether the current thread is within the call context of an
-    ///        user provided EventReceiveHandler registered via #SetReceiveHandler.
+    ///        user provided EventReceiveHandler registered via #SetReceiveHandler - and of which event.
     /// \details In #UnsetReceiveHandler (or #Unsubscribe, which also implicitly does an UnsetReceiveHandler), we need
     ///          to synchronize with an (maybe) currently running user provided EventReceiveHandler, which is
     ///          encapsulated within a MoveOnlyScopedFunction. This is realized by expiring the scope
@@ -218,7 +228,9 @@ class ProxyEventBase : public EnableReferenceToMoveableFromThis<ProxyEventBase>
     ///          EventReceiveHandler, we have to detect in UnsetReceiveHandler/Unsubscribe, whether we are in the
     ///          EventReceiveHandler call context or not and thus to call scope.expire() or not. This thread local
     ///          variable enables this detection.
-    static thread_local bool is_in_receive_handler_context;
+    ///          Being in the call context of the EventReceiveHandler of a different event doesn't count: The
+    ///          EventReceiveHandler of this event might be running in another thread then and we have to wait for it.
+    static thread_local const ReceiveHandlerContext* receive_handler_context;
 };
 
 class ProxyEventBaseView
-- 
2.43.0


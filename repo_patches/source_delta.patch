From d1bf97868519046449ac326b077b2b6df306e639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:46 +0000
Subject: [PATCH 001/147] fix: gap_vector: a gap opened for an insertion must
 be at least as large as the insertion

Inserting more elements than the default gap size in one call opened a gap
smaller than the insertion, so the elements after the insertion point were
overwritten and the gap had negative size; elements moved out of the part of
the gap not filled by the insertion were left constructed.
---
 include/neolib/core/gap_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 396d8bb..b11134f 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -745,7 +745,7 @@ namespace neolib
                 if (room() < aCount)
                     grow(aCount);
                 auto const pos = std::next(iData, posIndex);
-                auto const initialGapSize = std::min(room(), DefaultGapSize);
+                auto const initialGapSize = std::min(room(), std::max(DefaultGapSize, aCount));
                 auto src = iDataEnd;
                 auto dest = std::next(iDataEnd, initialGapSize);
                 while (src != pos)
@@ -757,7 +757,7 @@ namespace neolib
                     else
                         *dest = std::move(*src);
                 };
-                auto const garbageCount = std::min<size_type>(aCount, iDataEnd - pos);
+                auto const garbageCount = std::min<size_type>(initialGapSize, iDataEnd - pos);
                 for (auto garbage = std::next(pos, garbageCount); garbage != pos;)
                     std::allocator_traits<allocator_type>::destroy(iAlloc, --garbage);
                 std::advance(iDataEnd, initialGapSize);
-- 
2.43.0


From 5f6cebaf95fc221bf4c7e4f8f2f7a0ecbdcf2b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 002/147] fix: gap_vector: destroy the elements left behind in
 the old storage when growing

reserve() moved the elements to the new storage and freed the old one without
destroying the moved-from elements, leaking whatever they still own.
---
 include/neolib/core/gap_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index b11134f..6750b70 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -472,6 +472,9 @@ namespace neolib
 
                 iDataEnd = std::uninitialized_move(existingData, existingDataEnd, iData);
 
+                for (auto garbage = existingData; garbage != existingDataEnd; ++garbage)
+                    std::allocator_traits<allocator_type>::destroy(iAlloc, garbage);
+
                 std::allocator_traits<allocator_type>::deallocate(iAlloc, existingData, existingCapacity);
             }
             catch(...)
-- 
2.43.0


From ad8056dc5d585dc8ffed172d6880ca496e607733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:39 +0000
Subject: [PATCH 003/147] fix: array_tree: a moved-from tree keeps a valid nil
 node

---
 include/neolib/core/array_tree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/neolib/core/array_tree.hpp b/include/neolib/core/array_tree.hpp
index aabab03..7112afb 100644
--- a/include/neolib/core/array_tree.hpp
+++ b/include/neolib/core/array_tree.hpp
@@ -237,16 +237,9 @@ namespace neolib
             set_root_node(iNil);
         }
         array_tree(array_tree&& other) :
-            iAllocator{ std::move(other.iAllocator) },
-            iRoot{ nullptr },
-            iFront{ nullptr },
-            iBack{ nullptr },
-            iNil{ nullptr }
+            array_tree{ other.iAllocator }
         {
-            std::swap(iRoot, other.iRoot);
-            std::swap(iFront, other.iFront);
-            std::swap(iBack, other.iBack);
-            std::swap(iNil, other.iNil);
+            swap(other);
         }
         ~array_tree()
         {
-- 
2.43.0


From a31f2aefaf648e7f57b4e1928e615b2d46821254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:36 +0000
Subject: [PATCH 004/147] fix: segmented_array: spill into the next segment
 only when it can also take the displaced tail

---
 include/neolib/core/segmented_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 1e28731..e519c20 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -733,7 +733,8 @@ namespace neolib
             if (aCount == 0)
                 return aPosition.iNode;
             node* lastNode = nullptr;
-            if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && aCount <= 
+            if (aCount > 0 && aPosition.iNode && aPosition.iNode->next() != nullptr && 
+                std::max(aCount, static_cast<size_type>(aPosition.iNode->segment().size() - aPosition.iSegmentPosition)) <=
                 available(static_cast<node*>(aPosition.iNode->next())->segment()))
             {
                 lastNode = static_cast<node*>(aPosition.iNode->next());
-- 
2.43.0


From 322b4ff1796eff9289ae30a8ed4fe7a169b73bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 005/147] fix: growable_static_vector: swap elements, never
 in-place buffers

---
 include/neolib/core/static_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/static_vector.hpp b/include/neolib/core/static_vector.hpp
index 67bf52a..04145b4 100644
--- a/include/neolib/core/static_vector.hpp
+++ b/include/neolib/core/static_vector.hpp
@@ -137,6 +137,10 @@ namespace neolib
         }
         // operations
     public:
+        void swap(growable_static_vector& other)
+        {
+            std::swap(*this, other); // storage may be in the small buffer of either object so only elements can be swapped
+        }
         const std_type& as_std_vector() const
         {
             return *this;
-- 
2.43.0


From e8c12eb22072aefa3710ee5ccdba547dcab01119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:58 +0000
Subject: [PATCH 006/147] fix: polymorphic::vecarray: refuse an assignment that
 cannot fit before discarding the contents

---
 include/neolib/core/polymorphic_vecarray.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/polymorphic_vecarray.hpp b/include/neolib/core/polymorphic_vecarray.hpp
index 7b144ca..274e87e 100644
--- a/include/neolib/core/polymorphic_vecarray.hpp
+++ b/include/neolib/core/polymorphic_vecarray.hpp
@@ -184,8 +184,9 @@ namespace neolib
             void assign(generic_container_type const& aOther) final
             {
                 if (&aOther == this)
-                    return; clear();
+                    return;
                 reserve(aOther.size());
+                clear();
                 std::copy(aOther.begin(), aOther.end(), std::back_insert_iterator{ iVector });
             }
             // from i_container
-- 
2.43.0


From ee0c61bb11665667444ce6eae89758d8c5d56a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:08 +0000
Subject: [PATCH 007/147] fix: mutable_set iterators step to iterators of their
 own kind, so set iterators can go backwards

---
 include/neolib/core/mutable_set.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/neolib/core/mutable_set.hpp b/include/neolib/core/mutable_set.hpp
index 77053c0..782fa01 100644
--- a/include/neolib/core/mutable_set.hpp
+++ b/include/neolib/core/mutable_set.hpp
@@ -64,6 +64,10 @@ namespace neolib
         public:
             iterator() {}
             iterator(typename std_type::iterator aIterator) : std_type::iterator(aIterator) {}
+            iterator& operator++() { std_type::iterator::operator++(); return *this; }
+            iterator& operator--() { std_type::iterator::operator--(); return *this; }
+            iterator operator++(int) { iterator result{ *this }; ++*this; return result; }
+            iterator operator--(int) { iterator result{ *this }; --*this; return result; }
             pointer operator->() const { return &std_type::iterator::operator*().second; }
             reference operator*() const { return std_type::iterator::operator*().second; }
         };
@@ -77,6 +81,10 @@ namespace neolib
             const_iterator() {}
             const_iterator(typename std_type::const_iterator aIterator) : std_type::const_iterator(aIterator) {}
             const_iterator(typename std_type::iterator aIterator) : std_type::const_iterator(aIterator) {}
+            const_iterator& operator++() { std_type::const_iterator::operator++(); return *this; }
+            const_iterator& operator--() { std_type::const_iterator::operator--(); return *this; }
+            const_iterator operator++(int) { const_iterator result{ *this }; ++*this; return result; }
+            const_iterator operator--(int) { const_iterator result{ *this }; --*this; return result; }
             pointer operator->() const { return &std_type::const_iterator::operator*().second; }
             reference operator*() const { return std_type::const_iterator::operator*().second; }
         };
-- 
2.43.0


From b3e4883d259a03e0b18c9cdc84dc0a80578c3aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:29 +0000
Subject: [PATCH 008/147] fix: ref_ptr move assignment takes the reference over
 before releasing the old one

---
 include/neolib/core/reference_counted.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index 9c9dfc9..bc3a385 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -311,8 +311,9 @@ namespace neolib
         {
             if (&aOther == this)
                 return *this;
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr taken{ std::move(aOther) };
+            reset(taken.ptr(), taken.managed_ptr(), taken.reference_counted(), false);
+            taken.detach();
             return *this;
         }
         ref_ptr& operator=(abstract_type const& aOther)
@@ -331,8 +332,9 @@ namespace neolib
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
         ref_ptr& operator=(ref_ptr<Interface2>&& aOther)
         {
-            reset(aOther.ptr(), aOther.managed_ptr(), aOther.reference_counted(), false);
-            aOther.detach();
+            ref_ptr<Interface2> taken{ std::move(aOther) };
+            reset(taken.ptr(), taken.managed_ptr(), taken.reference_counted(), false);
+            taken.detach();
             return *this;
         }
         template <typename Interface2, typename = std::enable_if_t<std::is_base_of_v<Interface, Interface2>, sfinae>>
-- 
2.43.0


From e53886b8cd6de4c03979dbe8e3f5b2beafd8d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:29 +0000
Subject: [PATCH 009/147] fix: ref_ptr reset to what it already holds keeps the
 count right

---
 include/neolib/core/reference_counted.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index bc3a385..b7cf0e7 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -438,8 +438,12 @@ namespace neolib
         template <typename Interface2 = Interface, typename = std::enable_if_t<std::is_base_of_v<Interface2, Interface>, sfinae>>
         void reset(Interface2* aPtr, Interface2* aManagedPtr, bool aReferenceCounted, bool aAddRef)
         {
-            if (iPtr == aPtr && iManagedPtr == aManagedPtr)
+            if (iPtr == aPtr && iManagedPtr == aManagedPtr && iReferenceCounted == aReferenceCounted)
+            {
+                if (iManagedPtr && iReferenceCounted && !aAddRef)
+                    iManagedPtr->release();
                 return;
+            }
             Interface* compatiblePtr = dynamic_cast<Interface*>(aPtr);
             if (aPtr != nullptr && compatiblePtr == nullptr)
                 throw std::bad_cast();
-- 
2.43.0


From 688433fb54856103f4caf0a6c12b7a2d659b3532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:02 +0000
Subject: [PATCH 010/147] fix: switchable_mutex: name the dependent member
 templates so that the header compiles

---
 include/neolib/core/mutex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index 737b783..c48e400 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -472,19 +472,19 @@ namespace neolib
     public:
         void set_single_threaded()
         {
-            iActiveMutex.emplace<neolib::null_mutex>();
+            iActiveMutex.template emplace<neolib::null_mutex>();
         }
         void set_multi_threaded()
         {
-            iActiveMutex.emplace<std::recursive_mutex>();
+            iActiveMutex.template emplace<std::recursive_mutex>();
         }
         void set_multi_threaded_profiled()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag>>();
         }
         void set_multi_threaded_spinlock()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag, true>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag, true>>();
         }
     public:
         void lock() noexcept final
-- 
2.43.0


From ddaea9f0b57daf03e2ed824eb0cfcc1e50b1e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:29 +0000
Subject: [PATCH 011/147] fix: event: each trigger owns its work list, so
 destroying the event or leaving early never corrupts another trigger

---
 include/neolib/task/event.hpp | 44 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f003f02..b4e0526 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -128,8 +128,26 @@ namespace neolib
         typedef std::vector<ref_ptr<i_slot<Args...>>> slot_list;
         struct work_list
         {
+            event const* owner;
             slot_list slots;
             bool accepted = false;
+            work_list* previous;
+
+            work_list(event const& aOwner, slot_list const& aSlots) : 
+                owner{ &aOwner }, slots{ aSlots }, previous{ active() }
+            {
+                active() = this;
+            }
+            ~work_list()
+            {
+                active() = previous;
+            }
+            work_list(work_list const&) = delete;
+            static work_list*& active()
+            {
+                thread_local work_list* tActive = nullptr;
+                return tActive;
+            }
         };
     public:
         event()
@@ -149,7 +167,6 @@ namespace neolib
             iTriggerType = aOther.iTriggerType;
             iSlots = {};
             iHasSlots = false;
-            iActiveWorkList = {};
             return *this;
         }
     public:
@@ -169,14 +186,7 @@ namespace neolib
 
             std::unique_lock lock{ iMutex };
             destroyed_flag destroyed{ *this };
-            thread_local std::size_t stack;
-            scoped_counter<std::size_t> stackCounter{ stack };
-            thread_local std::vector<std::unique_ptr<work_list>> workLists;
-            if (workLists.size() < stack)
-                workLists.push_back(std::make_unique<work_list>());
-            auto& workList = *workLists[stack - 1];
-            scoped_pointer<work_list> activeWorkList{ iActiveWorkList, &workList };
-            workList.slots = iSlots;
+            work_list workList{ *this, iSlots };
             lock.unlock();
 
             for (auto slot : workList.slots)
@@ -188,15 +198,9 @@ namespace neolib
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
-                {
-                    workList.accepted = false;
                     return trigger_result::Accepted;
-                }
             }
 
-            workList.slots.clear();
-            workList.accepted = false;
-
             return trigger_result::Unaccepted;
         }
         void async_trigger(Args... aArgs) const final
@@ -207,9 +211,12 @@ namespace neolib
         }
         void accept() const final
         {
-            std::unique_lock lock{ iMutex };
-            if (iActiveWorkList)
-                iActiveWorkList->accepted = true;
+            for (auto workList = work_list::active(); workList != nullptr; workList = workList->previous)
+                if (workList->owner == this)
+                {
+                    workList->accepted = true;
+                    return;
+                }
         }
     public:
         bool has_slots() const final
@@ -243,7 +250,6 @@ namespace neolib
         neolib::trigger_type iTriggerType = neolib::trigger_type::Synchronous;
         mutable slot_list iSlots;
         mutable std::atomic<bool> iHasSlots = false;
-        mutable work_list* iActiveWorkList = nullptr;
     };
 
     #define define_declared_event( name, declName, ... ) \
-- 
2.43.0


From e8897bc8d00935edba3ba2ee50a4b9b00b10a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 012/147] fix: async_event_queue: a pending callback of a
 destroyed slot never swallows a new one

---
 include/neolib/task/event.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index b4e0526..a8215d7 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -98,12 +98,12 @@ namespace neolib
             {
                 typename decltype(iQueue.single)::key_type const key{ &event, &aSlot };
                 auto existing = iQueue.single.find(key);
-                if (existing != iQueue.single.end())
+                if (existing != iQueue.single.end() && !existing->second.eventDestroyed && !existing->second.slotDestroyed)
                 {
                     existing->second.callback = callback;
                     return;
                 }
-                iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, aSlot, callback });
+                iQueue.single.insert_or_assign(key, queue_entry{ &event, event, &aSlot, aSlot, callback });
             }
             else
                 iQueue.multiple.emplace_back(&event, event, &aSlot, aSlot, callback);
-- 
2.43.0


From 8e28a580fe35fe514f3b838ae96e7e6bc65d74b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 013/147] fix: async_event_queue: a callback that throws
 neither loses nor repeats other callbacks

---
 src/task/event.cpp | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/task/event.cpp b/src/task/event.cpp
index 173b55f..60cd7ac 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -102,27 +102,34 @@ namespace neolib
     bool async_event_queue::pump_events()
     {
         std::unique_lock lock{ iMutex };
-        thread_local std::size_t stack;
-        scoped_counter<std::size_t> stackCounter{ stack };
-        typedef std::vector<queue_entry> work_list;
-        thread_local std::vector<std::unique_ptr<work_list>> workLists;
-        if (workLists.size() < stack)
-            workLists.push_back(std::make_unique<work_list>());
-        auto& workList = *workLists[stack - 1];
-        workList.swap(iQueue.multiple);
-        for (auto const& se : iQueue.single)
-            workList.push_back(se.second);
-        iQueue.single.clear();
+        queue workList;
+        std::swap(workList, iQueue);
         lock.unlock();
         bool didSome = false;
-        for (auto& entry : workList)
+        auto nextMultiple = workList.multiple.begin();
+        auto nextSingle = workList.single.begin();
+        auto const execute = [&](queue_entry& entry)
         {
             if (entry.eventDestroyed || entry.slotDestroyed)
-                continue;
+                return;
             entry.callback();
             didSome = true;
+        };
+        try
+        {
+            while (nextMultiple != workList.multiple.end())
+                execute(*nextMultiple++);
+            while (nextSingle != workList.single.end())
+                execute((nextSingle++)->second);
+        }
+        catch (...)
+        {
+            // what has not been executed stays pending, ahead of anything queued in the meantime
+            lock.lock();
+            iQueue.multiple.insert(iQueue.multiple.begin(), nextMultiple, workList.multiple.end());
+            iQueue.single.insert(nextSingle, workList.single.end());
+            throw;
         }
-        workList.clear();
         return didSome;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 8de436ef5e86686ea2f212409e022f39ca1ccfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:50 +0000
Subject: [PATCH 014/147] fix: async_event_queue: take the lock of the queue
 map when adding and removing a queue

---
 src/task/event.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/task/event.cpp b/src/task/event.cpp
index 60cd7ac..6be9cb4 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -77,17 +77,20 @@ namespace neolib
 
     async_event_queue::async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
+        std::scoped_lock lock{ instance_map().mutex };
         if (instance_map().find(std::this_thread::get_id()) == instance_map().end())
             instance_map()[std::this_thread::get_id()] = this;
     }
 
     async_event_queue::~async_event_queue()
     {
+        {
+            std::scoped_lock lock{ instance_map().mutex };
+            auto existing = instance_map().find(std::this_thread::get_id());
+            if (existing != instance_map().end() && existing->second == this)
+                instance_map().erase(existing);
+        }
         std::scoped_lock lock{ iMutex };
-        auto existing = instance_map().find(std::this_thread::get_id());
-        if (existing != instance_map().end())
-            instance_map().erase(existing);
         if (iTask && !*iTaskDestroyed)
             iTask->unregister_event_queue(*this);
     }
-- 
2.43.0


From d8a67db3baa723f7592915c1e942bbdaa03ace83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 015/147] fix: lifetime: a copied object has a lifetime of its
 own

---
 include/neolib/core/lifetime.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/neolib/core/lifetime.hpp b/include/neolib/core/lifetime.hpp
index 3f36f7f..55119e7 100644
--- a/include/neolib/core/lifetime.hpp
+++ b/include/neolib/core/lifetime.hpp
@@ -110,7 +110,10 @@ namespace neolib
         typedef neolib::destroyed_flag destroyed_flag;
     public:
         lifetime(lifetime_state aState = lifetime_state::Alive);
+        lifetime(const lifetime& aOther);
         virtual ~lifetime();
+    public:
+        lifetime& operator=(const lifetime& aOther);
     public:
         lifetime_state object_state() const final;
         i_ref_ptr<i_lifetime_control_block>& object_state_ptr() const final;
@@ -130,6 +133,18 @@ namespace neolib
     {
     }
 
+    template <typename Base>
+    inline lifetime<Base>::lifetime(const lifetime& aOther) : Base{ aOther }, iState{ make_ref<lifetime_control_block>(aOther.is_creating() ? lifetime_state::Creating : lifetime_state::Alive) }
+    {
+    }
+
+    template <typename Base>
+    inline lifetime<Base>& lifetime<Base>::operator=(const lifetime& aOther)
+    {
+        Base::operator=(aOther);
+        return *this;
+    }
+
     template <typename Base>
     inline lifetime<Base>::~lifetime()
     {
-- 
2.43.0


From dbbac85e27c4380fb6b22d093266ed4a3cec52fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:43 +0000
Subject: [PATCH 016/147] fix: object, async_task: announce destroying then
 destroyed, each once, however end of life is announced

---
 include/neolib/app/object.hpp | 10 +++++++---
 src/task/async_task.cpp       | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/neolib/app/object.hpp b/include/neolib/app/object.hpp
index f142e89..3125edb 100644
--- a/include/neolib/app/object.hpp
+++ b/include/neolib/app/object.hpp
@@ -61,22 +61,26 @@ namespace neolib
         }
         // i_lifetime
     public:
+        using base_type::is_creating;
         using base_type::is_alive;
         using base_type::is_destroyed;
         void set_destroying() override
         {
-            if (is_alive())
+            if (is_creating() || is_alive())
             {
-                Destroying.trigger();
                 base_type::set_destroying();
+                Destroying.trigger();
             }
         }
         void set_destroyed() override
         {
             if (!is_destroyed())
             {
-                Destroyed.trigger();
+                set_destroying();
+                if (is_destroyed()) // announced by a handler of destroying
+                    return;
                 base_type::set_destroyed();
+                Destroyed.trigger();
             }
         }
     };
diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index c36a999..8382d70 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -228,6 +228,7 @@ namespace neolib
         set_destroying();
         if (joined())
             thread().abort();
+        set_destroyed();
     }
 
     i_thread& async_task::thread() const
@@ -418,10 +419,10 @@ namespace neolib
 
     void async_task::set_destroying()
     {
-        if (is_alive())
+        if (is_creating() || is_alive())
         {
-            Destroying.trigger();
             lifetime::set_destroying();
+            Destroying.trigger();
         }
     }
 
@@ -429,8 +430,11 @@ namespace neolib
     {
         if (!is_destroyed())
         {
-            Destroyed.trigger();
+            set_destroying();
+            if (is_destroyed()) // announced by a handler of destroying
+                return;
             lifetime::set_destroyed();
+            Destroyed.trigger();
         }
     }
 
-- 
2.43.0


From cfc84d981bd926509e945a736cc8e0a14ee3f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:04 +0000
Subject: [PATCH 017/147] fix: sink: assigning a sink to itself keeps its
 subscriptions

---
 include/neolib/task/i_event.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index 7ef64c5..29270a9 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -298,6 +298,8 @@ namespace neolib
     public:
         sink& operator=(sink const& aOther)
         {
+            if (&aOther == this)
+                return *this;
             std::scoped_lock lock{ iMutex, aOther.iMutex };
             clear();
             iSlots = aOther.iSlots;
-- 
2.43.0


From ea62540215cd511441c12c04d8f29ed224e330b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:18 +0000
Subject: [PATCH 018/147] fix: event: slots released by destroying or assigning
 an event never alter the slot list being released

---
 include/neolib/task/event.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index a8215d7..a5a2fbe 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -159,13 +159,15 @@ namespace neolib
         }
         ~event()
         {
+            base_type::set_destroyed(); // so that slots released with the slot list leave the list alone
         }
     public:
         event& operator=(event const& aOther)
         {
             std::unique_lock lock{ iMutex };
             iTriggerType = aOther.iTriggerType;
-            iSlots = {};
+            slot_list released;
+            released.swap(iSlots);
             iHasSlots = false;
             return *this;
         }
-- 
2.43.0


From 321b09a161af4603734b8769bb72e50f51086fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:03 +0000
Subject: [PATCH 019/147] fix: async_event_queue: a slot outlives the call that
 its queued callback is making to it

---
 include/neolib/task/event.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index a5a2fbe..d1740ae 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -90,6 +90,7 @@ namespace neolib
             std::tuple<Args...> args{ aArgs... };
             auto callback = [&, args]()
             {
+                ref_ptr<i_slot<Args...>> const keepAlive{ &aSlot };
                 std::apply([&](Args... aArgs) { aSlot.call(aArgs...); }, args);
             };
             bool const single = (aNoDuplicates || aSlot.stateless());
-- 
2.43.0


From 65933b6614b6a56c27035f57b398780fb649d33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:37 +0000
Subject: [PATCH 020/147] fix: indexitor: foreign index of end(), lookups in
 trailing skips of inner nodes, skips lost on copy

---
 include/neolib/core/indexitor.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index c8fa962..43de001 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -315,7 +315,8 @@ namespace neolib
         indexitor(const indexitor& aOther, const Alloc& aAllocator = Alloc()) :
             iAllocator(aAllocator), iSize(0)
         {
-            insert(begin(), aOther.begin(), aOther.end());
+            for (node* n = static_cast<node*>(aOther.front_node()); n != nullptr; n = static_cast<node*>(n->next()))
+                push_back(n->value(), n->skip());
         }
         ~indexitor()
         {
@@ -514,7 +515,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() &&
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(const_iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -527,7 +528,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() && 
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -537,7 +538,7 @@ namespace neolib
             if (aPosition.iNode != nullptr)
                 return do_foreign_index(aPosition.iNode) + aPosition.iNode->skip().first;
             else
-                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->foreign_index();
+                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->centre_foreign_index();
         }
         foreign_index_type skip_before(const_iterator aPosition) const
         {
-- 
2.43.0


From 12390a6a500f876b50a738a81fcf371ee923a992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:03 +0000
Subject: [PATCH 021/147] fix: jar: running out of cookies made later items
 reuse cookies still in use

---
 include/neolib/core/jar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index a65b8e3..13d791b 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -410,9 +410,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
@@ -730,9 +730,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
-- 
2.43.0


From 50ad6e9f067e6071fec79c73b48f48a6b158ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:07 +0000
Subject: [PATCH 022/147] fix: waitable_event loses signals and times out while
 signalled

A timed wait trusted the condition variable's status without looking at the
event, a timeout cleared a signal when no other thread waited, a second signal
replaced the first, a signal_one or reset after signal_all lost the remaining
waiters, and the signal type was read uninitialised.
---
 include/neolib/task/waitable_event.hpp | 13 ++------
 src/task/waitable_event.cpp            | 46 ++++++++++++++++----------
 2 files changed, 32 insertions(+), 27 deletions(-)

diff --git a/include/neolib/task/waitable_event.hpp b/include/neolib/task/waitable_event.hpp
index 79db6ef..cf80bc0 100644
--- a/include/neolib/task/waitable_event.hpp
+++ b/include/neolib/task/waitable_event.hpp
@@ -52,13 +52,6 @@ namespace neolib
         // constants
     public:
         static const uint32_t ShortTimeout_ms = 20;
-        // types
-    private:
-        enum signal_type
-        {
-            SignalOne,
-            SignalAll
-        };
         // construction
     public:
         waitable_event();
@@ -74,9 +67,9 @@ namespace neolib
     private:
         mutable std::mutex iMutex;
         mutable std::condition_variable iCondVar;
-        mutable bool iReady;
-        mutable std::size_t iTotalWaiting;
-        mutable signal_type iSignalType;
+        mutable std::size_t iSignals; // signals not yet taken by a waiter
+        mutable std::size_t iTotalWaiting; // waiters not yet released by signal_all
+        mutable std::uint64_t iGeneration; // changed by each signal_all that releases waiters
     };
 
     struct wait_result_event { wait_result_event(const waitable_event& aEvent) : iEvent(aEvent) {} const waitable_event& iEvent; };
diff --git a/src/task/waitable_event.cpp b/src/task/waitable_event.cpp
index 10835fe..0bf7e3b 100644
--- a/src/task/waitable_event.cpp
+++ b/src/task/waitable_event.cpp
@@ -34,53 +34,65 @@
 */
 
 #include <neolib/neolib.hpp>
+#include <algorithm>
 #include <chrono>
 #include <neolib/task/waitable_event.hpp>
 #include <neolib/task/thread.hpp>
 
 namespace neolib
 {
-    waitable_event::waitable_event() : iReady(false), iTotalWaiting(0)
+    waitable_event::waitable_event() : iSignals(0), iTotalWaiting(0), iGeneration(0)
     {
     }
 
     void waitable_event::signal_one() const
     {
         std::scoped_lock<std::mutex> lock(iMutex);
-        iReady = true;
-        iSignalType = SignalOne;
+        if (iSignals < std::max<std::size_t>(iTotalWaiting, 1))
+            ++iSignals;
         iCondVar.notify_one();
     }
 
     void waitable_event::signal_all() const
     {
         std::scoped_lock<std::mutex> lock(iMutex);
-        iReady = true;
-        iSignalType = SignalAll;
+        if (iTotalWaiting == 0)
+        {
+            iSignals = 1;
+            return;
+        }
+        iSignals = 0;
+        iTotalWaiting = 0;
+        ++iGeneration;
         iCondVar.notify_all();
     }
 
     void waitable_event::wait() const
     {
         std::unique_lock<std::mutex> lock(iMutex);
+        auto const generation = iGeneration;
         ++iTotalWaiting;
-        while (!iReady)
-            iCondVar.wait(lock);
-        --iTotalWaiting;
-        if (iSignalType == SignalOne || iTotalWaiting == 0)
-            iReady = false;
+        iCondVar.wait(lock, [&]() { return iSignals != 0 || iGeneration != generation; });
+        if (iGeneration == generation)
+        {
+            --iTotalWaiting;
+            --iSignals;
+        }
     }
 
     bool waitable_event::wait(uint32_t aTimeout_ms) const
     {
-        bool result = true;
         std::unique_lock<std::mutex> lock(iMutex);
+        auto const generation = iGeneration;
         ++iTotalWaiting;
-        if (!iReady)
-            result = (iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms)) == std::cv_status::no_timeout);
-        --iTotalWaiting;
-        if (result && iSignalType == SignalOne || iTotalWaiting == 0)
-            iReady = false;
+        bool const result = iCondVar.wait_for(lock, std::chrono::milliseconds(aTimeout_ms),
+            [&]() { return iSignals != 0 || iGeneration != generation; });
+        if (iGeneration == generation)
+        {
+            --iTotalWaiting;
+            if (result)
+                --iSignals;
+        }
         return result;
     }
 
@@ -114,7 +126,7 @@ namespace neolib
     void waitable_event::reset() const
     {
         std::scoped_lock<std::mutex> lock(iMutex);
-        iReady = false;
+        iSignals = std::min(iSignals, iTotalWaiting); // those already sent to waiters stay sent
     }
 
     wait_result waitable_event_list::wait() const
-- 
2.43.0


From edbb1b1331ef73774b95dae65f9539eed00707c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 023/147] fix: destroying a thread that was never started
 terminates the program

---
 src/task/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 2b606be..9b0e7b3 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -124,7 +124,7 @@ namespace neolib
 
     thread::~thread()
     {
-        if (!finished() && !using_existing_thread())
+        if (started() && !finished() && !using_existing_thread())
             abort();
         if (has_thread_object() && thread_object().joinable())
             thread_object().join();
-- 
2.43.0


From af462adb581a9171d5785a2846268744f1b2a8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 024/147] fix: cancelling a thread terminates the program

---
 src/task/thread.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 9b0e7b3..c1b5af1 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -387,8 +387,15 @@ namespace neolib
         }
         try
         {
-            exec_preamble();
-            exec();
+            try
+            {
+                exec_preamble();
+                exec();
+            }
+            catch(const cancellation&)
+            {
+                // cancelled or aborted: end normally
+            }
             if (!iUsingExistingThread)
             {
                 std::scoped_lock<std::recursive_mutex> lock{ iMutex };
-- 
2.43.0


From b969c2e4aaeeb63749431a5b30d3e8ace39083e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:20 +0000
Subject: [PATCH 025/147] fix: an aborted thread is reported finished while it
 still runs and never sees that it was aborted

---
 src/task/thread.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index c1b5af1..3c04114 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -213,14 +213,13 @@ namespace neolib
             return;
         }
         lock.emplace(iMutex);
-        if (started())
+        if (started() && !finished())
         {
             iState = thread_state::Aborted;
         }
         lock = std::nullopt;
         if (aWait && aborted())
             wait();
-        iState = thread_state::Finished;
     }
 
     void thread::wait() const
@@ -381,7 +380,10 @@ namespace neolib
         {
             std::scoped_lock<std::recursive_mutex> lock{ iMutex };
             if (iState != thread_state::Starting)
+            {
+                iState = thread_state::Finished; // aborted before it could run
                 return;
+            }
             iState = thread_state::Started;
             iId = std::this_thread::get_id();
         }
@@ -399,7 +401,7 @@ namespace neolib
             if (!iUsingExistingThread)
             {
                 std::scoped_lock<std::recursive_mutex> lock{ iMutex };
-                if (iState == thread_state::Started)
+                if (iState == thread_state::Started || iState == thread_state::Aborted)
                     iState = thread_state::Finished;
             }
         }
-- 
2.43.0


From 6cda560468a0c341db14367c3ce3eb98d4d7638b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:36 +0000
Subject: [PATCH 026/147] fix: waiting for a thread or an event never notices
 that the thread has ended

---
 include/neolib/task/thread.hpp | 1 +
 src/task/thread.cpp            | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/neolib/task/thread.hpp b/include/neolib/task/thread.hpp
index 47306b2..212dca2 100644
--- a/include/neolib/task/thread.hpp
+++ b/include/neolib/task/thread.hpp
@@ -136,6 +136,7 @@ namespace neolib
         std::atomic<thread_state> iState;
         thread_object_pointer iThreadObject;
         id_type iId;
+        std::atomic<bool> iEnded;
         std::atomic<std::size_t> iBlockedCount;
     };
 }
diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 3c04114..018e2c2 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -112,6 +112,7 @@ namespace neolib
         iUsingExistingThread(aAttachToCurrentThread), 
         iState(thread_state::ReadyToStart), 
         iId{ aAttachToCurrentThread ? std::this_thread::get_id() : std::thread::id{} },
+        iEnded{ false },
         iBlockedCount(0)
     {
     }
@@ -360,7 +361,7 @@ namespace neolib
 
     bool thread::waitable_ready() const noexcept
     {
-        return thread_object().get_id() == std::thread::id();
+        return iEnded;
     }
 
     void thread::exec_preamble()
@@ -382,6 +383,7 @@ namespace neolib
             if (iState != thread_state::Starting)
             {
                 iState = thread_state::Finished; // aborted before it could run
+                iEnded = true;
                 return;
             }
             iState = thread_state::Started;
@@ -404,6 +406,7 @@ namespace neolib
                 if (iState == thread_state::Started || iState == thread_state::Aborted)
                     iState = thread_state::Finished;
             }
+            iEnded = true;
         }
         catch(const std::exception& aException)
         {
-- 
2.43.0


From fb6a7fbe4f16e82fdea05c76f7d4672c7e030daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:36 +0000
Subject: [PATCH 027/147] fix: two threads waiting for the same thread join it
 twice

---
 include/neolib/task/thread.hpp | 1 +
 src/task/thread.cpp            | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/include/neolib/task/thread.hpp b/include/neolib/task/thread.hpp
index 212dca2..dd2d663 100644
--- a/include/neolib/task/thread.hpp
+++ b/include/neolib/task/thread.hpp
@@ -130,6 +130,7 @@ namespace neolib
         // attributes
     private:
         mutable std::recursive_mutex iMutex;
+        mutable std::mutex iJoinMutex;
         const std::string iName;
         bool iUsingExistingThread;
         std::optional<std::function<void()>> iExecFunction;
diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 018e2c2..6f70ef4 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -229,6 +229,10 @@ namespace neolib
             throw thread_not_started();
         if (in())
             throw cannot_wait_on_self();
+        {
+            std::scoped_lock<std::recursive_mutex> lock{ iMutex }; // start() may not have stored the thread object yet
+        }
+        std::scoped_lock<std::mutex> joinLock{ iJoinMutex };
         if (thread_object().joinable())
             thread_object().join();
     }
-- 
2.43.0


From d0aa95e834856cb81a846b74f326d6307580e767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:43 +0000
Subject: [PATCH 028/147] fix: a thread that reuses the id of an ended thread
 is taken for it

---
 src/task/thread.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 6f70ef4..8e562b0 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -343,6 +343,8 @@ namespace neolib
     {
         if (!started() && !using_existing_thread())
             throw thread_not_started();
+        if (iEnded && !using_existing_thread())
+            return false; // the id may have been given to another thread
         return std::this_thread::get_id() == iId;
     }
 
-- 
2.43.0


From d13307575d7d5917754da5c7b06e17882ddef8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:42 +0000
Subject: [PATCH 029/147] fix: cancelling a thread while it is aborted lets the
 abort return too early

---
 src/task/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread.cpp b/src/task/thread.cpp
index 8e562b0..3e07668 100644
--- a/src/task/thread.cpp
+++ b/src/task/thread.cpp
@@ -191,7 +191,7 @@ namespace neolib
         }
         bool canCancel = false;
         lock.emplace(iMutex);
-        if (started())
+        if (started() && !finished())
         {
             iState = thread_state::Cancelled;
             canCancel = true;
-- 
2.43.0


From 010e3c2abcaf0c3d8a1559eb677bb0be19ab8527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:53 +0000
Subject: [PATCH 030/147] fix: an exception thrown by a function run in a
 thread pool terminates the program instead of reaching its future

---
 include/neolib/task/task.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/neolib/task/task.hpp b/include/neolib/task/task.hpp
index b812a18..9a0512c 100644
--- a/include/neolib/task/task.hpp
+++ b/include/neolib/task/task.hpp
@@ -97,7 +97,14 @@ namespace neolib
         }
         void run(yield_type) override
         {
-            iPromise.set_value(iFunction());
+            try
+            {
+                iPromise.set_value(iFunction());
+            }
+            catch (...)
+            {
+                iPromise.set_exception(std::current_exception());
+            }
         }
     private:
         std::function<T()> iFunction;
@@ -107,7 +114,14 @@ namespace neolib
     template <>
     inline void function_task<void>::run(yield_type)
     {
-        iFunction();
-        iPromise.set_value();
+        try
+        {
+            iFunction();
+            iPromise.set_value();
+        }
+        catch (...)
+        {
+            iPromise.set_exception(std::current_exception());
+        }
     }
 }
-- 
2.43.0


From c68796f1293bfb8a20402c267a8d90da412549f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:53 +0000
Subject: [PATCH 031/147] fix: only one of several threads waiting for a thread
 pool is woken

---
 src/task/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index aeb5f77..117c10c 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -322,7 +322,7 @@ namespace neolib
                 std::unique_lock lk(iWaitMutex);
                 iStopped = true;
             }
-            iWaitConditionVariable.notify_one();
+            iWaitConditionVariable.notify_all();
         }
     }
 
@@ -355,7 +355,7 @@ namespace neolib
     void thread_pool::thread_gone_idle()
     {
         update_idle();
-        iWaitConditionVariable.notify_one();
+        iWaitConditionVariable.notify_all();
     }
 
     void thread_pool::thread_gone_busy()
-- 
2.43.0


From 587cfcfda443fd5c5a0af4913b279156afb3fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:53 +0000
Subject: [PATCH 032/147] fix: a thread pool that is being stopped accepts
 tasks it will never run

---
 include/neolib/task/thread_pool.hpp |  4 +++-
 src/task/thread_pool.cpp            | 19 +++++++++++++------
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/include/neolib/task/thread_pool.hpp b/include/neolib/task/thread_pool.hpp
index 4b560e4..e099f28 100644
--- a/include/neolib/task/thread_pool.hpp
+++ b/include/neolib/task/thread_pool.hpp
@@ -93,6 +93,7 @@ namespace neolib
     private:
         mutable std::recursive_mutex iMutex;
         std::atomic<bool> iIdle;
+        std::atomic<bool> iStopping;
         std::atomic<bool> iStopped;
         std::size_t iMaxThreads;
         thread_list iThreads;
@@ -103,7 +104,8 @@ namespace neolib
     template <typename T>
     inline std::pair<std::future<T>, thread_pool::task_pointer> thread_pool::run(std::function<T()> aFunction, int32_t aPriority)
     {
-        if (stopped())
+        std::unique_lock lk(iMutex);
+        if (iStopping)
             return {};
         auto newTask = std::make_shared<function_task<T>>(aFunction);
         start(newTask, aPriority);
diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index 117c10c..14145b7 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -166,7 +166,7 @@ namespace neolib
         std::atomic<bool> iStopped;
     };
 
-    thread_pool::thread_pool() : iIdle{ true }, iStopped { false }, iMaxThreads{ 0 }
+    thread_pool::thread_pool() : iIdle{ true }, iStopping{ false }, iStopped { false }, iMaxThreads{ 0 }
     {
         reserve(std::thread::hardware_concurrency());
     }
@@ -224,9 +224,9 @@ namespace neolib
 
     void thread_pool::start(task_pointer aTask, int32_t aPriority)
     {
-        if (stopped())
-            return;
         std::unique_lock lk(iMutex);
+        if (iStopping)
+            return;
         if (iThreads.empty())
             throw no_threads();
         for (auto& t : iThreads)
@@ -243,7 +243,8 @@ namespace neolib
 
     bool thread_pool::try_start(i_task& aTask, int32_t aPriority)
     {
-        if (stopped())
+        std::unique_lock lk(iMutex);
+        if (iStopping)
             return false;
         if (available_threads() == 0)
             return false;
@@ -253,7 +254,8 @@ namespace neolib
 
     bool thread_pool::try_start(task_pointer aTask, int32_t aPriority)
     {
-        if (stopped())
+        std::unique_lock lk(iMutex);
+        if (iStopping)
             return false;
         if (available_threads() == 0)
             return false;
@@ -263,7 +265,8 @@ namespace neolib
 
     std::pair<std::future<void>, thread_pool::task_pointer> thread_pool::run(std::function<void()> aFunction, int32_t aPriority)
     {
-        if (stopped())
+        std::unique_lock lk(iMutex);
+        if (iStopping)
             return {};
         auto newTask = std::make_shared<function_task<void>>(aFunction);
         start(newTask, aPriority);
@@ -314,6 +317,10 @@ namespace neolib
     {
         if (!stopped())
         {
+            {
+                std::unique_lock lk(iMutex);
+                iStopping = true; // a task accepted from now on would never run
+            }
             for (auto& t : iThreads)
             {
                 static_cast<thread_pool_thread&>(*t).stop();
-- 
2.43.0


From 5f149d53a5f3ef73f0ac4428d3240835ae1dc9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:53 +0000
Subject: [PATCH 033/147] fix: threads added to a thread pool leave waiting
 tasks alone and available threads wrap below zero

---
 src/task/thread_pool.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index 14145b7..7c85abf 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -183,7 +183,10 @@ namespace neolib
         std::unique_lock lk(iMutex);
         iMaxThreads = aMaxThreads;
         while (iThreads.size() < iMaxThreads)
+        {
             iThreads.push_back(std::make_unique<thread_pool_thread>(*this));
+            steal_work(static_cast<thread_pool_thread&>(*iThreads.back()));
+        }
     }
 
     std::size_t thread_pool::active_threads() const
@@ -199,7 +202,8 @@ namespace neolib
     std::size_t thread_pool::available_threads() const
     {
         std::unique_lock lk(iMutex);
-        return max_threads() - active_threads();
+        auto const active = active_threads();
+        return active < max_threads() ? max_threads() - active : 0;
     }
 
     std::size_t thread_pool::total_threads() const
-- 
2.43.0


From 49198e93cf6de442e16a8475d749ee31cf344055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:55 +0000
Subject: [PATCH 034/147] fix: a thread pool still claims to be idle when a
 task it was just given runs already

---
 src/task/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index 7c85abf..3386d03 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -134,13 +134,13 @@ namespace neolib
                 iThreadPool.steal_work(*this);
             if (!iWaitingTasks.empty())
             {
+                iThreadPool.thread_gone_busy();
                 {
                     std::unique_lock lk2(iCondVarMutex);
                     iActiveTask = iWaitingTasks.front().first;
                     iWaitingTasks.pop_front();
                 }
                 iConditionVariable.notify_one();
-                iThreadPool.thread_gone_busy();
             }
             else
                 iThreadPool.thread_gone_idle();
-- 
2.43.0


From 8d00e7f20e1e40962f65b75f273eab7573704328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:19 +0000
Subject: [PATCH 035/147] fix: stopping a thread pool while it is being stopped
 returns before its tasks have ended

---
 src/task/thread_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/thread_pool.cpp b/src/task/thread_pool.cpp
index 3386d03..1c86005 100644
--- a/src/task/thread_pool.cpp
+++ b/src/task/thread_pool.cpp
@@ -121,8 +121,8 @@ namespace neolib
                     iStopped = true;
                 }
                 iConditionVariable.notify_one();
-                wait();
             }
+            wait();
         }
     private:
         void next_task()
-- 
2.43.0


From 89f5f36978ef2afb1ca1dcef047dda3ac3c52087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 036/147] fix: a cancelled timer stays waiting and cannot be
 restarted

---
 src/task/timer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 67773f6..9c74a1d 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -155,6 +155,7 @@ namespace neolib
     {
         if (!waiting())
             return;
+        iWaiting = false;
         if (!iTaskDestroying && !iTaskDestroyed)
             timer_object().cancel();
     }
-- 
2.43.0


From 0b96daaaaec4c1b11d73ae0189e42ced7adfb323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 037/147] fix: a timer callback that throws makes later polls
 call it again, even when its timer has gone

---
 src/task/async_task.cpp   | 1 +
 src/task/timer_object.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/task/async_task.cpp b/src/task/async_task.cpp
index 8382d70..9ab4a5f 100644
--- a/src/task/async_task.cpp
+++ b/src/task/async_task.cpp
@@ -158,6 +158,7 @@ namespace neolib
             if (workListStack.size() < stack)
                 workListStack.push_back(std::make_unique<work_list_t>());
             work_list_t& workList = *workListStack[stack - 1];
+            struct clear_work_list { work_list_t& workList; ~clear_work_list() { workList.clear(); } } clearWorkList{ workList };
 
             std::unique_lock lock{ iMutex };
             iObjects.erase(std::remove_if(iObjects.begin(), iObjects.end(), [](auto const& o) { return o == nullptr; }), iObjects.end());
diff --git a/src/task/timer_object.cpp b/src/task/timer_object.cpp
index 4121be2..d02ba55 100644
--- a/src/task/timer_object.cpp
+++ b/src/task/timer_object.cpp
@@ -114,6 +114,7 @@ namespace neolib
         if (workListStack.size() < stack)
             workListStack.push_back(std::make_unique<work_list_t>());
         work_list_t& workList = *workListStack[stack - 1];
+        struct clear_work_list { work_list_t& workList; ~clear_work_list() { workList.clear(); } } clearWorkList{ workList };
 
         std::unique_lock lock{ iSubscribersMutex };
         std::transform(iSubscribers.begin(), iSubscribers.end(), std::back_inserter(workList), [](auto const& s) { return std::make_pair(s, destroyed_flag{ *s }); });
-- 
2.43.0


From 91d908db62dc1da69a155d0a649efff6fc4ad21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:19 +0000
Subject: [PATCH 038/147] fix: a timer destroyed by its callback is written to
 when the callback throws

---
 src/task/timer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task/timer.cpp b/src/task/timer.cpp
index 9c74a1d..e1ac88f 100644
--- a/src/task/timer.cpp
+++ b/src/task/timer.cpp
@@ -231,10 +231,10 @@ namespace neolib
         iWaiting = false;
         if (ok)
         {
+            destroyed_flag destroyed{ *this };
             try
             {
                 iInReady = true;
-                destroyed_flag destroyed{ *this };
                 if (std::uncaught_exceptions() == 0)
                     ready();
                 else
@@ -245,7 +245,8 @@ namespace neolib
             }
             catch (...)
             {
-                iInReady = false;
+                if (!destroyed)
+                    iInReady = false;
                 throw;
             }
         }
-- 
2.43.0


From 527f6d4780b4b0cc028a44244a91180cb98649c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:47 +0000
Subject: [PATCH 039/147] fix: asking a logger whether a category is enabled
 never returns

---
 include/neolib/app/i_logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/i_logger.hpp b/include/neolib/app/i_logger.hpp
index 1445b73..7dec4f6 100644
--- a/include/neolib/app/i_logger.hpp
+++ b/include/neolib/app/i_logger.hpp
@@ -170,9 +170,9 @@ namespace neolib
                 register_category(static_cast<category_id>(aId), string{ aName });
             }
             template <typename IdType>
-            void category_enabled(IdType aId)
+            bool category_enabled(IdType aId) const
             {
-                category_enabled(static_cast<category_id>(aId));
+                return category_enabled(static_cast<category_id>(aId));
             }
             template <typename IdType>
             void enable_category(IdType aId)
-- 
2.43.0


From 9af0a7e2118ac5d56c6a50049f853a1b1d86de49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:17 +0000
Subject: [PATCH 040/147] fix: a logger loses or reorders messages committed
 while others are logged, committed or waited for

---
 include/neolib/app/logger.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index abb534c..5164f9d 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -243,15 +243,13 @@ namespace neolib
         public:
             void commit() override
             {
+                std::lock_guard<std::recursive_mutex> lg{ mutex() };
                 if (!iLoggingThread || std::this_thread::get_id() == iLoggingThread->get_id())
                 {
+                    for (auto& entry : buffers())
                     {
-                        std::lock_guard<std::recursive_mutex> lg{ mutex() };
-                        for (auto& entry : buffers())
-                        {
-                            auto& buffers = entry.second;
-                            std::swap(buffers.first, buffers.second);
-                        }
+                        auto& buffers = entry.second;
+                        std::swap(buffers.first, buffers.second);
                     }
                     thread_local buffer_t tempBuffer;
                     for (auto& entry : buffers())
-- 
2.43.0


From 55239947a234aac307a90f13102241577f739b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:55 +0000
Subject: [PATCH 041/147] fix: a logger loses uncommitted messages of threads
 that have ended

---
 include/neolib/app/logger.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index 5164f9d..003e685 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -378,7 +378,9 @@ namespace neolib
                         {
                             parent.wait();
                             std::lock_guard<std::recursive_mutex> lg{ parent.mutex() };
-                            parent.buffers().erase(std::this_thread::get_id());
+                            auto existing = parent.buffers().find(std::this_thread::get_id());
+                            if (existing != parent.buffers().end() && existing->second.first->empty()) // nothing left to commit
+                                parent.buffers().erase(existing);
                         }
                     }
                 } cleanup{ *this, *this };
-- 
2.43.0


From dcec9e0f82db5fc5f7aba5d8584d56b632befe8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:18 +0000
Subject: [PATCH 042/147] fix: destroying a logger that was finalized hangs or
 terminates the program

---
 include/neolib/app/logger.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/app/logger.hpp b/include/neolib/app/logger.hpp
index 003e685..2a9d86f 100644
--- a/include/neolib/app/logger.hpp
+++ b/include/neolib/app/logger.hpp
@@ -216,7 +216,11 @@ namespace neolib
             void join_logging_thread()
             {
                 if (iLoggingThread)
+                {
                     iLoggingThread->join();
+                    std::lock_guard<std::recursive_mutex> lg{ mutex() };
+                    iLoggingThread = std::nullopt;
+                }
             }
             severity message_severity() const
             {
-- 
2.43.0


From 70ca72629831f5a5302e1ba7bd316359356eface Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 043/147] fix: a setting whose key leads to another's loads an
 empty value from the settings file

---
 src/app/settings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app/settings.cpp b/src/app/settings.cpp
index 32e72cb..3f04afe 100644
--- a/src/app/settings.cpp
+++ b/src/app/settings.cpp
@@ -86,7 +86,7 @@ namespace neolib
                 if (!node)
                     break;
             }
-            if (node)
+            if (node && (**node).has_attribute("value"))
             {
                 aSetting.set_value_from_string(string{ (**node).attribute_value("value") });
                 aSetting.apply_change();
-- 
2.43.0


From 2db1113f14fae2b7357b9400069dc58b4baf1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 044/147] fix: settings of single byte or floating point type
 do not survive their text form

---
 include/neolib/app/setting.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/setting.hpp b/include/neolib/app/setting.hpp
index a2be373..b01df48 100644
--- a/include/neolib/app/setting.hpp
+++ b/include/neolib/app/setting.hpp
@@ -37,6 +37,9 @@
 
 #include <neolib/neolib.hpp>
 #include <neolib/core/reference_counted.hpp>
+#include <iomanip>
+#include <limits>
+#include <sstream>
 #include <neolib/core/string.hpp>
 #include <neolib/core/string_utils.hpp>
 #include <neolib/task/event.hpp>
@@ -159,7 +162,23 @@ namespace neolib
         using i_setting::value_as_string;
         void value_as_string(i_string& aValue, bool aUnappliedNew = false) const override
         {
-            aValue = to_string(value(aUnappliedNew).template get<T>());
+            auto const& theValue = value(aUnappliedNew).template get<T>();
+            if constexpr (std::is_floating_point_v<T>)
+            {
+                // shortest text that denotes the value
+                for (int precision = std::numeric_limits<T>::digits10; precision <= std::numeric_limits<T>::max_digits10; ++precision)
+                {
+                    std::ostringstream oss;
+                    oss << std::setprecision(precision) << theValue;
+                    aValue = string{ oss.str() };
+                    if (from_string<T>(aValue) == theValue)
+                        break;
+                }
+            }
+            else if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+                aValue = to_string(static_cast<int>(theValue)); // a number, not a character
+            else
+                aValue = to_string(theValue);
         }
         using i_setting::set_default_value;
         void set_default_value(i_setting_value const& aDefaultValue) override
@@ -195,7 +214,10 @@ namespace neolib
         }
         void set_value_from_string(i_string const& aNewValue) override
         {
-            set_value(setting_value<T>{ from_string<T>(aNewValue) });
+            if constexpr (std::is_same_v<T, int8_t> || std::is_same_v<T, uint8_t>)
+                set_value(setting_value<T>{ static_cast<T>(from_string<int>(aNewValue)) });
+            else
+                set_value(setting_value<T>{ from_string<T>(aNewValue) });
         }
         void clear() override
         {
-- 
2.43.0


From dbb3c95849b8a6a60f01eaab0429a3b026defafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:28 +0000
Subject: [PATCH 045/147] fix: clearing a setting that is already being cleared
 announces a change

---
 include/neolib/app/setting.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/app/setting.hpp b/include/neolib/app/setting.hpp
index b01df48..904a6a1 100644
--- a/include/neolib/app/setting.hpp
+++ b/include/neolib/app/setting.hpp
@@ -230,8 +230,10 @@ namespace neolib
                 else
                     return;
             }
-            else
+            else if (!modified() || modified_value().is_set())
                 iNewValue.emplace();
+            else
+                return;
             Changing.trigger();
             iManager.changing_setting(*this);
         }
-- 
2.43.0


From 9d4bdbdf892dbbff96a58475731dfc3552b394dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:14 +0000
Subject: [PATCH 046/147] fix: a new setting inherits the friendly texts of a
 deleted one at the same address

---
 src/app/settings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/app/settings.cpp b/src/app/settings.cpp
index 3f04afe..a7d2e58 100644
--- a/src/app/settings.cpp
+++ b/src/app/settings.cpp
@@ -169,6 +169,7 @@ namespace neolib
         SettingDeleted.trigger(*existing->second());
         iSettings.erase(existing);
         auto existingOrdered = std::find_if(iSettingsOrdered.begin(), iSettingsOrdered.end(), [&](auto const& s) { return &*s == &aExistingSetting; });
+        std::erase_if(iFriendlyText, [&](auto const& t) { return t.first.first == &aExistingSetting; });
         iSettingsOrdered.erase(existingOrdered);
         save();
     }
-- 
2.43.0


From 2442e65f4b6d9a983e810dfe5495ae9e92d932db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:15 +0000
Subject: [PATCH 047/147] fix: a carriage return at the start of a chunk does
 not end the pending text packet

---
 include/neolib/io/string_packet.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/neolib/io/string_packet.hpp b/include/neolib/io/string_packet.hpp
index 07c5a9e..f89282f 100644
--- a/include/neolib/io/string_packet.hpp
+++ b/include/neolib/io/string_packet.hpp
@@ -135,9 +135,15 @@ namespace neolib
             if (aFirst == aLast)
                 return false;
 
+            const_pointer const chunkStart = aFirst;
+
             if (skip_delimiters(aFirst, aLast))
                 return true;
 
+            // delimiters end what is pending from earlier chunks
+            if (aFirst != chunkStart && !contents().empty())
+                return true;
+
             if (aFirst == aLast)
                 return false;
 
-- 
2.43.0


From 9dd5fd10c67cdb0ab7cbb13911a42384f2881441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:15 +0000
Subject: [PATCH 048/147] fix: a packet connection keeps references to
 destroyed packets when it is closed

---
 include/neolib/io/packet_connection.hpp | 2 ++
 include/neolib/io/packet_stream.hpp     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index e9ff670..57bc014 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -257,6 +257,8 @@ namespace neolib
             bool wasConnected = iConnected;
             iConnected = false;
             iReceiveBufferPtr = &buffer()[0];
+            iPacketBeingSent = nullptr;
+            iSendQueue.clear();
             if (wasConnected)
                 iOwner.handle_connection_closed();
         }
diff --git a/include/neolib/io/packet_stream.hpp b/include/neolib/io/packet_stream.hpp
index c7b8147..52e509e 100644
--- a/include/neolib/io/packet_stream.hpp
+++ b/include/neolib/io/packet_stream.hpp
@@ -173,6 +173,7 @@ namespace neolib
         }
         void handle_connection_closed() override
         {
+            remove_all_packets();
             ConnectionClosed.trigger();
         }
         orphaned_queue_item remove_packet(const packet_type& aPacket)
-- 
2.43.0


From 403c7771ae2a4e43f4e11c070b3a7684c8d4d948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:15 +0000
Subject: [PATCH 049/147] fix: a packet connection handles the result of a name
 lookup after it was destroyed or reopened

---
 include/neolib/io/packet_connection.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 57bc014..373159e 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -107,10 +107,10 @@ namespace neolib
             {
             }
         public:
-            void handle_resolve(const boost::system::error_code& aError, typename resolver_type::results_type::iterator aEndPointIterator)
+            void handle_resolve(const boost::system::error_code& aError, typename resolver_type::results_type aResults)
             {
                 if (!iParentDestroyed && !iOrphaned)
-                    iParent.handle_resolve(aError, aEndPointIterator);
+                    iParent.handle_resolve(aError, aResults);
             }
             void handle_connect(const boost::system::error_code& aError)
             {
@@ -397,9 +397,9 @@ namespace neolib
             if (!iRemoteHostName.empty())
             {
                 iResolver.async_resolve(iRemoteHostName, uint32_to_string<char>(iRemotePort),
-                    [&](const boost::system::error_code& ec, resolver_type::results_type results)
+                    [proxy = iHandlerProxy](const boost::system::error_code& ec, typename resolver_type::results_type results)
                     {
-                        handle_resolve(ec, results);
+                        proxy->handle_resolve(ec, results);
                     });
             }
         }
-- 
2.43.0


From eaa88513feec2594c8137779797f76947d493956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:15 +0000
Subject: [PATCH 050/147] fix: a packet connection delivers what is left of a
 closed connection's data

---
 include/neolib/io/packet_connection.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index 373159e..e1a993d 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -226,6 +226,7 @@ namespace neolib
         {
             if (opened())
                 throw already_open();
+            iReceivePacket->clear();
             if (!secure())
             {
                 iSocketHolder = socket_pointer(new socket_type(iIoTask.io_context().native_object<boost::asio::io_context>()));
@@ -580,6 +581,7 @@ namespace neolib
                 return;
             if (!aError)
             {
+                auto const proxy = iHandlerProxy;
                 typename packet_type::const_pointer start = reinterpret_cast<typename packet_type::pointer>(&buffer()[0]);
                 typename packet_type::const_pointer end = iReceiveBufferPtr + aBytesTransferred / sizeof(CharType);
                 while(iReceivePacket->take_some(start, end))
@@ -587,7 +589,7 @@ namespace neolib
                     if (!iReceivePacket->empty())
                     {
                         iOwner.handle_packet_arrived(*iReceivePacket);
-                        if (destroyed)
+                        if (destroyed || proxy != iHandlerProxy) // destroyed or closed by the handler?
                             return;
                         iReceivePacket->clear();
                     }
-- 
2.43.0


From dffe81b5030d49229ff37df2d3ae00b84ce15fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:35 +0000
Subject: [PATCH 051/147] fix: sending an empty packet throws and blocks the
 packets after it

---
 include/neolib/io/packet_connection.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/neolib/io/packet_connection.hpp b/include/neolib/io/packet_connection.hpp
index e1a993d..74017fb 100644
--- a/include/neolib/io/packet_connection.hpp
+++ b/include/neolib/io/packet_connection.hpp
@@ -501,11 +501,14 @@ namespace neolib
                 return;
             iPacketBeingSent = iSendQueue.front();
             iSendQueue.pop_front();
+            boost::asio::const_buffer const contents = !iPacketBeingSent->empty() ?
+                boost::asio::const_buffer{ iPacketBeingSent->data(), iPacketBeingSent->length() } :
+                boost::asio::const_buffer{};
             if (!secure())
             {
                 boost::asio::async_write(
                     socket(), 
-                    boost::asio::buffer(iPacketBeingSent->data(), iPacketBeingSent->length()),
+                    contents,
                     boost::bind(
                         &handler_proxy::handle_write, 
                         iHandlerProxy,
@@ -516,7 +519,7 @@ namespace neolib
             {
                 boost::asio::async_write(
                     secure_stream(), 
-                    boost::asio::buffer(iPacketBeingSent->data(), iPacketBeingSent->length()),
+                    contents,
                     boost::bind(
                         &handler_proxy::handle_write, 
                         iHandlerProxy,
-- 
2.43.0


From ff665ac63c17a88635558e187a2e14b012b7b1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 052/147] fix: tokens() adds an empty token beyond the limit

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 5198ddb..087c6dd 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -164,7 +164,7 @@ namespace neolib
             aTokens.push_back(value_type{ b, e });
             b = e;
         }
-        else if (b == e && last && last.value() != e && !aSkipEmptyTokens)
+        else if (b == e && last && last.value() != e && !aSkipEmptyTokens && (aMaxTokens == 0 || tokens < aMaxTokens))
             aTokens.push_back(value_type{ e, e });
         return b;
     }
-- 
2.43.0


From 7ea6768c3cfe76e37bb93363ecb7b60ae421245a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 053/147] fix: wildcard_match() rejects texts whose end matches
 only after an earlier hit and accepts any text for an empty pattern

---
 include/neolib/core/string_utils.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 087c6dd..46bba79 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -533,6 +533,8 @@ namespace neolib
         CharT any_string = detail::wildcard_match_any_string<CharT>();
         neolib::tokens(aPatternBegin, aPatternEnd, &any_string, &any_string + 1, substrings);
 
+        if (aPatternBegin == aPatternEnd)
+            return aTextBegin == aTextEnd;
         FwdIter previousMatch = aTextBegin;
         for (typename substrings_t::const_iterator i = substrings.begin(); i != substrings.end();)
         {
@@ -542,10 +544,13 @@ namespace neolib
                 return false;
             if (theSubstring.first == aPatternBegin && nextMatch != aTextBegin)
                 return false;
-            if (theSubstring.second == aPatternEnd && !std::equal(aTextEnd - (theSubstring.second - theSubstring.first), aTextEnd, theSubstring.first, detail::wildcard_compare<Traits>()))
-                return false;
-            if (theSubstring.second == aPatternEnd && aTextEnd - nextMatch != theSubstring.second - theSubstring.first)
-                return false;
+            if (theSubstring.second == aPatternEnd)
+            {
+                // a piece that ends the pattern has to match the end of the text, not the first place where it is found
+                if (theSubstring.first == aPatternBegin)
+                    return aTextEnd - nextMatch == theSubstring.second - theSubstring.first;
+                return std::equal(aTextEnd - (theSubstring.second - theSubstring.first), aTextEnd, theSubstring.first, detail::wildcard_compare<Traits>());
+            }
             previousMatch = nextMatch + (theSubstring.second - theSubstring.first);
         }
         return true;
-- 
2.43.0


From 8c23c997dbcb745935541868c551926605ce2594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 054/147] fix: replace_string() does not end when the search
 string is empty

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 46bba79..f70b3d2 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -244,7 +244,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool replace_string(std::basic_string<CharT, Traits, Alloc>& aString, const std::basic_string<CharT, Traits, Alloc>& aSearch, const std::basic_string<CharT, Traits, Alloc>& aReplace, string_spans* aSpans, const string_span::type* aNewSpanType)
     {
-        if (aString.empty())
+        if (aString.empty() || aSearch.empty())
             return false;
         typedef std::basic_string<CharT, Traits, Alloc> string;
         typename string::size_type pos = 0;
-- 
2.43.0


From 7fd4745c749420291f488b00a1d7026433b748f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 055/147] fix: format() shows the first argument for every
 automatically numbered field

---
 include/neolib/core/string_utils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index f70b3d2..fc44a92 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -680,7 +680,10 @@ namespace neolib
                         argId = static_cast<std::size_t>(std::stoi(std::string{ std::next(nextArg), argIdEnd }));
                     if (argId)
                         result.args.emplace_back(argId.value(), result.size());
-                    result.append(std::vformat(std::string_view{ nextArg, nextArgEnd }, std::make_format_args(aArgs...)));
+                    if (argIdEnd - nextArg == 1) // each field is formatted on its own so an automatic number has to be made explicit
+                        result.append(std::vformat("{" + std::to_string(argId.value()) + std::string{ argIdEnd, nextArgEnd }, std::make_format_args(aArgs...)));
+                    else
+                        result.append(std::vformat(std::string_view{ nextArg, nextArgEnd }, std::make_format_args(aArgs...)));
                     if (argId)
                         result.args.back().end = result.size();
                 }
-- 
2.43.0


From a740c18e73f253ab00199904de4a0df627df0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 056/147] fix: string_search_fsa does not find a pattern that
 another pattern starts with

---
 src/core/string_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index 818186f..ffc07cd 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -82,7 +82,7 @@ namespace neolib
         if (aNext == aEnd)
         {
             auto wildcard = aState.match.find('*');
-            if (wildcard != aState.match.end() && wildcard->second.match.empty())
+            if (wildcard != aState.match.end())
                 for (auto const& action : wildcard->second.actions)
                     aResults.insert(std::make_tuple(&action, aStart, aEnd));
             return;
@@ -93,7 +93,7 @@ namespace neolib
             if (existing != aState.match.end())
             {
                 bool const wildcard = (existing->first == '*');
-                if (!wildcard && existing->second.match.empty())
+                if (!wildcard)
                     for (auto const& action : existing->second.actions)
                         aResults.insert(std::make_tuple(&action, aStart, std::next(aNext)));
                 search(existing->second, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, false, aResults);
-- 
2.43.0


From 5730484afc2eee66b81a367df17d5fd8d74341de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 057/147] fix: string_search_fsa forgets where a match of a
 pattern starting with a wildcard begins

---
 src/core/string_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index ffc07cd..624accc 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -101,7 +101,7 @@ namespace neolib
                 {
                     if (!aSearchingWildcard)
                         search(existing->second, aStart, aNext, aEnd, false, aResults);
-                    search(aState, aStart, std::next(aNext), aEnd, true, aResults);
+                    search(aState, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, true, aResults);
                 }
             }
     }
-- 
2.43.0


From dfbbcacd8526f4159727c3090a059af57c951ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 058/147] fix: quick_string::compare() of a part reads past the
 end of the string

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index b6c6075..9cb1f02 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -98,7 +98,7 @@ namespace neolib
         {
         }
         basic_quick_string(const basic_quick_string& str, size_type pos, size_type n = npos) :
-            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, (n == npos ? str.size() - pos : n) }, str.get_allocator() } } 
+            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, (n > str.size() - pos ? str.size() - pos : n) }, str.get_allocator() } } 
         {
         }
         explicit basic_quick_string(const string_view_type& view, const Alloc& a = Alloc()) :
-- 
2.43.0


From 4c0a094c4294ab3f80b6b8bf9d60be62319800ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 059/147] fix: quick_string::find_last_not_of() finds the last
 of the given characters

---
 include/neolib/core/quick_string.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 9cb1f02..87a2ae5 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -499,37 +499,37 @@ namespace neolib
         size_type find_last_not_of(const basic_quick_string& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str.to_std_string_view(), pos);
+                return get_view_string().find_last_not_of(str.to_std_string_view(), pos);
             else
-                return get_string().find_last_of(str.to_std_string_view(), pos);
+                return get_string().find_last_not_of(str.to_std_string_view(), pos);
         }
         size_type find_last_not_of(const string_type& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str, pos);
+                return get_view_string().find_last_not_of(str, pos);
             else
-                return get_string().find_last_of(str, pos);
+                return get_string().find_last_not_of(str, pos);
         }
         size_type find_last_not_of(const CharT* s, size_type pos, size_type n) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos, n);
+                return get_view_string().find_last_not_of(s, pos, n);
             else
-                return get_string().find_last_of(s, pos, n);
+                return get_string().find_last_not_of(s, pos, n);
         }
         size_type find_last_not_of(const CharT* s, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos);
+                return get_view_string().find_last_not_of(s, pos);
             else
-                return get_string().find_last_of(s, pos);
+                return get_string().find_last_not_of(s, pos);
         }
         size_type find_last_not_of(CharT c, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(c, pos);
+                return get_view_string().find_last_not_of(c, pos);
             else
-                return get_string().find_last_of(c, pos);
+                return get_string().find_last_not_of(c, pos);
         }
         string_type substr(size_type pos = 0, size_type n = npos) const
         {
-- 
2.43.0


From 35c1d470ebbaaeb8de7aae673e24696b0e3bb28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 060/147] fix: UTF-8 decoding accepts surrogates and code
 points above U+10FFFF

---
 include/neolib/core/string_utf.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index 1a7eaaf..a8c4a7f 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -246,7 +246,8 @@ namespace neolib
                 }
             }
             static const unicode_char_t sMaxCodePoint[] = { 0x7F, 0x7FF, 0xFFFF, 0x10FFFF };
-            if (unicodeChar <= sMaxCodePoint[aCount - 1]) // overlong sequences
+            if (unicodeChar <= sMaxCodePoint[aCount - 1] || // overlong sequences
+                unicodeChar > sMaxCodePoint[3] || utf16::is_high_surrogate(unicodeChar) || utf16::is_low_surrogate(unicodeChar))
             {
                 aCurrent = start;
                 return INVALID_CHAR32;
-- 
2.43.0


From 24a2b4283107b08da3591f8d9281b0860db13954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:43 +0000
Subject: [PATCH 061/147] fix: check_utf8() rejects the replacement character

---
 include/neolib/core/string_utf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utf.hpp b/include/neolib/core/string_utf.hpp
index a8c4a7f..c29c12c 100644
--- a/include/neolib/core/string_utf.hpp
+++ b/include/neolib/core/string_utf.hpp
@@ -423,7 +423,7 @@ namespace neolib
                     uch = detail::next_utf_bits(static_cast<unicode_char_t>(nch & ~0xF8), 3, i, end);
                 else
                     uch = INVALID_CHAR32;
-                if (i == old || uch == INVALID_CHAR32)
+                if (i == old)
                     return false;
             }
         }
-- 
2.43.0


From 4f07ca9a7cabc6c2fb7e03a72b429664d89e8bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:25 +0000
Subject: [PATCH 062/147] fix: wildcard_match() of two strings does not compile

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index fc44a92..4918575 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -565,7 +565,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool wildcard_match(const std::basic_string<CharT, Traits, Alloc>& aText, const std::basic_string<CharT, Traits, Alloc>& aPattern)
     {
-        return do_wildcard_match<CharT, Traits, std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
+        return do_wildcard_match<CharT, Traits, typename std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
     }
 
     class string_search_fsa
-- 
2.43.0


From a961783e04a4b015860d54097ece92c0ece7e39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:14 +0000
Subject: [PATCH 063/147] fix: string_search_fsa reports a match of a single
 character without its beginning

---
 src/core/string_utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/string_utils.cpp b/src/core/string_utils.cpp
index 624accc..70fc092 100644
--- a/src/core/string_utils.cpp
+++ b/src/core/string_utils.cpp
@@ -95,7 +95,7 @@ namespace neolib
                 bool const wildcard = (existing->first == '*');
                 if (!wildcard)
                     for (auto const& action : existing->second.actions)
-                        aResults.insert(std::make_tuple(&action, aStart, std::next(aNext)));
+                        aResults.insert(std::make_tuple(&action, aStart == nullptr ? aNext : aStart, std::next(aNext)));
                 search(existing->second, aStart == nullptr ? aNext : aStart, std::next(aNext), aEnd, false, aResults);
                 if (wildcard)
                 {
-- 
2.43.0


From 6dcc1057942d8d8e4704df2309f392fa9510759c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:46 +0000
Subject: [PATCH 064/147] fix: JSON unicode escapes at the start of a string
 leave a backslash behind

---
 include/neolib/file/json.inl | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 15b3593..87105e9 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1494,10 +1494,12 @@ namespace neolib
                 case json_detail::state::String:
                     currentElement.type = element::String;
                     currentElement.start = (nextOutputCh = nextInputCh + 1);
+                    iUtf16HighSurrogate = std::nullopt;
                     break;
                 case json_detail::state::Name:
                     currentElement.type = element::Name;
                     currentElement.start = (nextOutputCh = nextInputCh + 1);
+                    iUtf16HighSurrogate = std::nullopt;
                     break;
                 case json_detail::state::EndName:
                     if (std::holds_alternative<std::monostate>(currentElement.name))
@@ -1548,7 +1550,16 @@ namespace neolib
                     break;
                 case json_detail::state::Escaped:
                     if (nextOutputCh == currentElement.start)
-                        nextOutputCh = (currentState != json_detail::state::EscapingUnicode ? nextInputCh - 1 : nextInputCh - 2);
+                    {
+                        if (currentState != json_detail::state::EscapingUnicode)
+                            nextOutputCh = nextInputCh - 1;
+                        else if (currentElement.auxType != element::EscapedUnicode)
+                        {
+                            nextOutputCh = nextInputCh - 2;
+                            if (iUtf16HighSurrogate != std::nullopt && nextOutputCh - currentElement.start == 6)
+                                nextOutputCh = currentElement.start; // first half of the surrogate pair starts the string
+                        }
+                    }
                     if (currentState == json_detail::state::Escaping)
                     {
                         switch (*(nextInputCh))
-- 
2.43.0


From 9208c8f1d22814664532aca10295940041728256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:46 +0000
Subject: [PATCH 065/147] fix: JSON member names with unicode escapes are
 rejected

---
 include/neolib/file/json.inl | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 87105e9..88f1488 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1609,8 +1609,7 @@ namespace neolib
                             {
                                 iUtf16HighSurrogate = u16ch;
                                 currentElement.auxType = element::Unknown;
-                                currentElement.type = element::String;
-                                nextState = json_detail::state::String;
+                                nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                                 break;
                             }
                             else if (utf16::is_low_surrogate(u16ch) && iUtf16HighSurrogate != std::nullopt)
@@ -1664,7 +1663,7 @@ namespace neolib
                                 }
                             }
                             currentElement.auxType = element::Unknown;
-                            nextState = json_detail::state::String;
+                            nextState = currentElement.type == element::String ? json_detail::state::String : json_detail::state::Name;
                         }
                         else
                         {
-- 
2.43.0


From 1ebb8b147e2456b0d9c45363a58ee868f2a8e912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:46 +0000
Subject: [PATCH 066/147] fix: JSON closing brackets are not matched with their
 opening brackets

---
 include/neolib/file/json.inl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 88f1488..6b46d99 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1332,7 +1332,7 @@ namespace neolib
                     create_parse_error();
                     return false;
                 case json_detail::state::EndOfParse:
-                    if (nextInputCh != &iDocumentText.back())
+                    if (nextInputCh != &iDocumentText.back() || !iCompositeValueStack.empty())
                     {
                         create_parse_error();
                         return false;
@@ -1446,7 +1446,15 @@ namespace neolib
                         break;
                     }
                     if (nextState == json_detail::state::Close)
+                    {
+                        if (context() != (*nextInputCh == '}' ? json_type::Object : json_type::Array) ||
+                            !std::holds_alternative<std::monostate>(currentElement.name))
+                        {
+                            create_parse_error();
+                            return false;
+                        }
                         iCompositeValueStack.pop_back();
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-- 
2.43.0


From f860c90b370a427cadf33550f64102eb082a3be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:47 +0000
Subject: [PATCH 067/147] fix: JSON text after the root object or array
 replaces it

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 6b46d99..0c8e290 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1493,7 +1493,7 @@ namespace neolib
                         break;
                     default:
                         if (nextState == json_detail::state::Close)
-                            nextState = json_detail::state::Value;
+                            nextState = json_detail::state::Element;
                         break;
                     }
                     currentElement.type = element::Unknown;
-- 
2.43.0


From 246695df9527f610ba0e75d73cd1553d082c5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:47 +0000
Subject: [PATCH 068/147] fix: JSON documents cannot be read again, and text
 without a value is accepted

---
 include/neolib/file/json.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 0c8e290..086422f 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1107,6 +1107,8 @@ namespace neolib
     inline void basic_json<Syntax, Alloc, CharT, Traits, CharAlloc>::clear()
     {
         iCursor = decltype(iCursor){};
+        iRoot = std::nullopt;
+        iCompositeValueStack.clear();
         document().clear();
         iUtf16HighSurrogate = std::nullopt;
     }
@@ -1332,7 +1334,7 @@ namespace neolib
                     create_parse_error();
                     return false;
                 case json_detail::state::EndOfParse:
-                    if (nextInputCh != &iDocumentText.back() || !iCompositeValueStack.empty())
+                    if (nextInputCh != &iDocumentText.back() || !iCompositeValueStack.empty() || !has_root())
                     {
                         create_parse_error();
                         return false;
-- 
2.43.0


From 3857b35c2d5e27b5439caf8c8d9cbeab506abebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:37 +0000
Subject: [PATCH 069/147] fix: standard JSON with missing or misplaced
 separators is accepted

---
 include/neolib/file/json.inl | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 086422f..005a67a 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -255,7 +255,16 @@ namespace neolib
         template <json_syntax Syntax>
         constexpr inline std::array<state, TOKEN_COUNT> object_state()
         {
-            if constexpr (Syntax != json_syntax::Functional)
+            if constexpr (Syntax == json_syntax::Standard || Syntax == json_syntax::StandardNoKeywords)
+            {
+                return
+                    // state::Object
+                    std::array<state, TOKEN_COUNT>
+                    {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
+                        SXXX, SXXX, SCLO, SXXX, SXXX, SXXX, SXXX, SNAM, SKEY, SXXX, SKEY, SKEY, SXXX, SXXX, SXXX, SKEY, SKEY, SXXX, SKEY, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                    }};
+            }
+            else if constexpr (Syntax != json_syntax::Functional)
             {
                 return
                     // state::Object
@@ -416,7 +425,7 @@ namespace neolib
             // state::NeedValueSeparator
             std::array<state, TOKEN_COUNT>
             {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SVAL, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SNVA, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
             }},
             // state::NeedValue
             need_value_state<Syntax>(),
@@ -1457,10 +1466,20 @@ namespace neolib
                         }
                         iCompositeValueStack.pop_back();
                     }
+                    if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
+                    {
+                        bool const needColon = (context() == json_type::Object && !std::holds_alternative<std::monostate>(currentElement.name));
+                        bool const canHaveComma = (context() == json_type::Array || (context() == json_type::Object && !needColon));
+                        if ((*nextInputCh == ':' && !needColon) || (*nextInputCh == ',' && !canHaveComma))
+                        {
+                            create_parse_error();
+                            return false;
+                        }
+                    }
                     switch (context())
                     {
                     case json_type::Object:
-                        if constexpr (syntax == json_syntax::Standard)
+                        if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
                         {
                             if (std::holds_alternative<std::monostate>(currentElement.name))
                             {
@@ -1472,7 +1491,7 @@ namespace neolib
                                     nextState = json_detail::state::NeedObjectValueSeparator;
                             }
                             else
-                                nextState = json_detail::state::NeedValue;
+                                nextState = *nextInputCh != ':' ? json_detail::state::EndName : json_detail::state::NeedValue;
                         }
                         else
                         {
@@ -1483,7 +1502,7 @@ namespace neolib
                         }
                         break;
                     case json_type::Array:
-                        if constexpr (syntax == json_syntax::Standard)
+                        if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
                         {
                             if (*nextInputCh == ',')
                                 nextState = json_detail::state::NeedValue;
-- 
2.43.0


From fccb446c5f5a5b553902bb95ff4319a5d8d75a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:37 +0000
Subject: [PATCH 070/147] fix: standard JSON numbers with leading zeros are
 accepted

---
 include/neolib/file/json.inl | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 005a67a..91ceb12 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1394,6 +1394,15 @@ namespace neolib
                         break;
                     case element::Number:
                         {
+                            if constexpr (syntax == json_syntax::Standard || syntax == json_syntax::StandardNoKeywords)
+                            {
+                                auto const firstDigit = currentElement.start + (*currentElement.start == '-' ? 1 : 0);
+                                if (firstDigit[0] == '0' && firstDigit[1] >= '0' && firstDigit[1] <= '9')
+                                {
+                                    create_parse_error();
+                                    return false;
+                                }
+                            }
                             json_string newNumber{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh : nextOutputCh };
                             if (currentState == json_detail::state::NumberInt)
                             {
@@ -1543,13 +1552,13 @@ namespace neolib
                     break;
                 case json_detail::state::NumberIntNeedDigit:
                     currentElement.type = element::Number;
-                    currentElement.start = nextInputCh;
+                    currentElement.start = (nextOutputCh = nextInputCh);
                     break;
                 case json_detail::state::NumberInt:
                     if (currentElement.type != element::Number)
                     {
                         currentElement.type = element::Number;
-                        currentElement.start = nextInputCh;
+                        currentElement.start = (nextOutputCh = nextInputCh);
                     }
                     break;
                 case json_detail::state::Array:
-- 
2.43.0


From 2a72d042355899296d57bf00d1eddf0b52df0590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:37 +0000
Subject: [PATCH 071/147] fix: relaxed JSON comments and other quote characters
 inside quoted text

---
 include/neolib/file/json.inl | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 91ceb12..919ea5d 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -630,6 +630,11 @@ namespace neolib
                     else if (token == json_detail::token::EndOfInput)
                         return state::Error;
                     return state::CStyleComment;
+                case state::Name:
+                case state::String:
+                case state::Escaping:
+                case state::EscapingUnicode:
+                    break; // quoted text does not contain comments
                 default:
                     if (token == json_detail::token::ForwardSlash)
                     {
@@ -1540,6 +1545,16 @@ namespace neolib
                     iUtf16HighSurrogate = std::nullopt;
                     break;
                 case json_detail::state::EndName:
+                    if constexpr (syntax == json_syntax::Relaxed)
+                    {
+                        if (*nextInputCh != *(currentElement.start - 1))
+                        {
+                            if (currentElement.start != nextOutputCh)
+                                *nextOutputCh++ = *nextInputCh;
+                            nextState = json_detail::state::Name;
+                            break;
+                        }
+                    }
                     if (std::holds_alternative<std::monostate>(currentElement.name))
                     {
                         json_string newName
@@ -1583,7 +1598,11 @@ namespace neolib
                     {
                         // relaxed: support for three different quote characters
                         if (*nextInputCh != *(currentElement.start - 1))
+                        {
+                            if (currentElement.start != nextOutputCh)
+                                *nextOutputCh++ = *nextInputCh;
                             nextState = json_detail::state::String;
+                        }
                     }
                     break;
                 case json_detail::state::Escaped:
-- 
2.43.0


From e05404844beea548634e23ef20cd4920c147576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:23 +0000
Subject: [PATCH 072/147] fix: JSON documents are written with unescaped names,
 hexadecimal numbers after control characters and rounded doubles

---
 include/neolib/file/json.inl | 83 +++++++++++++++++++++---------------
 1 file changed, 49 insertions(+), 34 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 919ea5d..4441291 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1770,6 +1770,45 @@ namespace neolib
             for (int32_t l = 0; l < level; ++l)
                 aOutput << aIndent;
         };
+        auto write_string = [&aOutput](const json_string& aString)
+        {
+            aOutput << '\"';
+            for (auto const& ch : aString)
+                switch (ch)
+                {
+                case '\"':
+                    aOutput << "\\\"";
+                    break;
+                case '\\':
+                    aOutput << "\\\\";
+                    break;
+                case '\b':
+                    aOutput << "\\b";
+                    break;
+                case '\f':
+                    aOutput << "\\f";
+                    break;
+                case '\n':
+                    aOutput << "\\n";
+                    break;
+                case '\r':
+                    aOutput << "\\r";
+                    break;
+                case '\t':
+                    aOutput << "\\t";
+                    break;
+                default:
+                    if (static_cast<std::uint32_t>(ch) >= 32u)
+                        aOutput << ch;
+                    else
+                    {
+                        auto const oldFill = aOutput.fill('0');
+                        aOutput << "\\u" << std::hex << std::setw(4) << (int)ch << std::dec;
+                        aOutput.fill(oldFill);
+                    }
+                }
+            aOutput << '\"';
+        };
         for (auto i = cbegin(); i != end; ++i)
         {
             auto const& v = **i;
@@ -1777,7 +1816,10 @@ namespace neolib
             if (i.value().has_name())
             {
                 if (!i.value().name_is_keyword())
-                    aOutput << '\"' << i.value().name() << "\": ";
+                {
+                    write_string(i.value().name());
+                    aOutput << ": ";
+                }
                 else
                     aOutput << i.value().name() << ": ";
             }
@@ -1804,7 +1846,11 @@ namespace neolib
                     aOutput << ']';
                 break;
             case json_type::Double:
-                aOutput << std::get<json_double>(v);
+                {
+                    auto const oldPrecision = aOutput.precision(std::numeric_limits<json_double>::max_digits10);
+                    aOutput << std::get<json_double>(v);
+                    aOutput.precision(oldPrecision);
+                }
                 break;
             case json_type::Int64:
                 aOutput << std::get<json_int64>(v);
@@ -1819,38 +1865,7 @@ namespace neolib
                 aOutput << std::get<json_uint>(v);
                 break;
             case json_type::String:
-                aOutput << '\"';
-                for (auto const& ch : std::get<json_string>(v))
-                    switch (ch)
-                    {
-                    case '\"':
-                        aOutput << "\\\"";
-                        break;
-                    case '\\':
-                        aOutput << "\\\\";
-                        break;
-                    case '\b':
-                        aOutput << "\\b";
-                        break;
-                    case '\f':
-                        aOutput << "\\f";
-                        break;
-                    case '\n':
-                        aOutput << "\\n";
-                        break;
-                    case '\r':
-                        aOutput << "\\r";
-                        break;
-                    case '\t':
-                        aOutput << "\\t";
-                        break;
-                    default:
-                        if (static_cast<std::uint32_t>(ch) >= 32u)
-                            aOutput << ch;
-                        else
-                            aOutput << "\\u" << std::hex << std::setw(4) << std::setfill('0') << (int)ch;
-                    }
-                aOutput << '\"';
+                write_string(std::get<json_string>(v));
                 break;
             case json_type::Bool:
                 aOutput << (std::get<json_bool>(v) ? trueString : falseString);
-- 
2.43.0


From ed8af9010ce255b62331d327dc8c29b65003ae50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:43 +0000
Subject: [PATCH 073/147] fix: string_to_double is not exact for numbers with
 more than 15 digits

---
 include/neolib/core/string_numeric.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 2f941cd..8f98e3b 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -38,6 +38,7 @@
 #include <neolib/neolib.hpp>
 #include <string>
 #include <string_view>
+#include <charconv>
 #include <boost/spirit/include/qi_parse.hpp>
 #include <boost/spirit/include/qi_numeric.hpp>
 #include <neolib/core/variant.hpp>
@@ -153,6 +154,17 @@ namespace neolib
     {
         namespace qi = boost::spirit::qi;
         double result = 0.0;
+#ifdef __cpp_lib_to_chars
+        // Boost.Spirit's result may not be the nearest one...
+        if constexpr (std::is_same_v<CharT, char>)
+        {
+            auto const first = aStringView.data();
+            auto const last = first + aStringView.size();
+            if (std::from_chars(first != last && *first == '+' ? first + 1 : first, last, result).ec == std::errc{})
+                return result;
+            result = 0.0;
+        }
+#endif
         qi::parse(aStringView.begin(), aStringView.end(), qi::double_, result);
         return result;
     }
-- 
2.43.0


From be77a7aa7cacd6dc40a5f45a93ae2dd351aaf410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:09 +0000
Subject: [PATCH 074/147] fix: JSON array and object lookups disagree with the
 document after members are added or removed

---
 include/neolib/file/json.hpp | 44 ++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/include/neolib/file/json.hpp b/include/neolib/file/json.hpp
index 895e832..9cc2147 100644
--- a/include/neolib/file/json.hpp
+++ b/include/neolib/file/json.hpp
@@ -402,7 +402,6 @@ namespace neolib
                 return *existing->second;
             auto& newChild = contents().emplace_back(value_type{});
             newChild.set_name(aKey.to_std_string());
-            cache().emplace(newChild.name(), &newChild);
             return newChild;
         }
     public:
@@ -423,7 +422,8 @@ namespace neolib
                 return *iLazyDictionary;
             iLazyDictionary = std::make_unique<dictionary_type>(); // todo: use allocator_type
             for (auto i = contents().begin(); i != contents().end(); ++i)
-                iLazyDictionary->emplace(i.value().name(), &i.value());
+                if (i.value().has_name())
+                    iLazyDictionary->emplace(i.value().name(), &i.value());
             return *iLazyDictionary;
         }
         dictionary_type& cache()
@@ -490,15 +490,11 @@ namespace neolib
     public:
         json_value& push_back(const value_type& aValue)
         {
-            auto& newChild = contents().emplace_back(aValue);
-            cache().emplace_back(&newChild);
-            return back();
+            return contents().emplace_back(aValue);
         }
         json_value& push_back(value_type&& aValue)
         {
-            auto& newChild = contents().emplace_back(std::move(aValue));
-            cache().emplace_back(&newChild);
-            return back();
+            return contents().emplace_back(std::move(aValue));
         }
         json_value& back()
         {
@@ -727,11 +723,15 @@ namespace neolib
         }
         void set_name(const json_string& aName)
         {
+            bool const renamed = has_name();
             iName = aName;
+            name_changed(renamed);
         }
         void set_name(const json_keyword& aName)
         {
+            bool const renamed = has_name();
             iName = aName;
+            name_changed(renamed);
         }
     public:
         bool is_root() const
@@ -865,6 +865,7 @@ namespace neolib
         }
         void clear(bool aUnlink = false)
         {
+            clear_cache();
             auto previous = iNode.previous_sibling();
             auto next = iNode.next_sibling();
             if (has_parent())
@@ -897,6 +898,7 @@ namespace neolib
         }
         void pop_back()
         {
+            clear_cache();
             iNode.destruct_child(last_child());
         }
     public:
@@ -912,7 +914,31 @@ namespace neolib
         template <typename... Args>
         pointer buy_child(Args&&... aArguments)
         {
-            return iNode.buy_child(*this, std::forward<Args>(aArguments)...);
+            auto newChild = iNode.buy_child(*this, std::forward<Args>(aArguments)...);
+            if (type() == json_type::Array)
+            {
+                auto& array = std::get<json_array>(iValue);
+                if (array.iLazyArray != nullptr)
+                    array.iLazyArray->push_back(newChild);
+            }
+            return newChild;
+        }
+        void name_changed(bool aRenamed)
+        {
+            if (!has_parent() || parent().type() != json_type::Object)
+                return;
+            auto& object = std::get<json_object>(parent().iValue);
+            if (aRenamed)
+                object.iLazyDictionary = nullptr;
+            else if (object.iLazyDictionary != nullptr)
+                object.iLazyDictionary->emplace(name(), this);
+        }
+        void clear_cache()
+        {
+            if (type() == json_type::Object)
+                std::get<json_object>(iValue).iLazyDictionary = nullptr;
+            else if (type() == json_type::Array)
+                std::get<json_array>(iValue).iLazyArray = nullptr;
         }
         void update_contents()
         {
-- 
2.43.0


From 18cc7b85e7649d3687c6a153dfbe33ecf2de5149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:09 +0000
Subject: [PATCH 075/147] fix: JSON path lookup below an array throws
 bad_variant_access

---
 include/neolib/file/json.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 4441291..f532334 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1972,7 +1972,7 @@ namespace neolib
             return *node;
         do
         {
-            auto existing = std::find_if(node->begin(), node->end(), [&](auto&& child) { return child.name() == std::string_view{ &*bitStart, static_cast<std::string_view::size_type>(std::distance(bitStart, bitEnd)) };  });
+            auto existing = std::find_if(node->begin(), node->end(), [&](auto&& child) { return child.has_name() && child.name() == std::string_view{ &*bitStart, static_cast<std::string_view::size_type>(std::distance(bitStart, bitEnd)) };  });
             if (existing == node->end())
                 throw json_path_not_found(aPath.to_std_string());
             node = &*existing;
-- 
2.43.0


From 7da83a9f4c573c9263ebc003b4b83eb24f10a87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:27 +0000
Subject: [PATCH 076/147] fix: relaxed JSON rejects commas after white space in
 arrays

---
 include/neolib/file/json.inl | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index f532334..49b1301 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -353,6 +353,27 @@ namespace neolib
             }
         }
 
+        template <json_syntax Syntax>
+        constexpr inline std::array<state, TOKEN_COUNT> need_value_separator_state()
+        {
+            if constexpr (Syntax == json_syntax::Relaxed)
+            {
+                // state::NeedValueSeparator: the comma is optional
+                auto result = value_state<Syntax>();
+                result[static_cast<std::size_t>(token::Comma)] = SVAL;
+                return result;
+            }
+            else
+            {
+                return
+                    // state::NeedValueSeparator
+                    std::array<state, TOKEN_COUNT>
+                    {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
+                        SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SNVA, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
+                    }};
+            }
+        }
+
         template <json_syntax Syntax>
         constexpr inline std::array<state, TOKEN_COUNT> keyword_state()
         {
@@ -423,10 +444,7 @@ namespace neolib
             // state::Value
             value_state<Syntax>(),
             // state::NeedValueSeparator
-            std::array<state, TOKEN_COUNT>
-            {{//TXXX  TOBJ  TCLO  TARR  TCLA  TCOL  TCOM  TQOT  TCHA  TESC  TESU  TECH  TPLU  TMIN  TDIG  THEX  TEHX  TDEC  TEXP  TAST  TFWD  TSYM  TSPA  TWSP  TZZZ
-                SXXX, SXXX, SCLO, SXXX, SCLO, SXXX, SNVA, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SXXX, SIGN, SIGN, SXXX
-            }},
+            need_value_separator_state<Syntax>(),
             // state::NeedValue
             need_value_state<Syntax>(),
             // state::NeedObjectValueSeparator
@@ -1523,6 +1541,8 @@ namespace neolib
                             else
                                 nextState = json_detail::state::NeedValueSeparator;
                         }
+                        else if constexpr (syntax == json_syntax::Relaxed)
+                            nextState = (*nextInputCh == ',' ? json_detail::state::Value : json_detail::state::NeedValueSeparator);
                         else
                             nextState = json_detail::state::Value;
                         break;
-- 
2.43.0


From 092dea4fc4d2643a3da0d6acd0520d3c45d20db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:27 +0000
Subject: [PATCH 077/147] fix: relaxed JSON words are not ended by a line
 comment

---
 include/neolib/file/json.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 49b1301..9a257a6 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1266,7 +1266,6 @@ namespace neolib
         static constexpr bool usePreviousState = (Syntax == json_syntax::Relaxed || Syntax == json_syntax::Functional || json_detail::debug);
 
         json_detail::state currentState = json_detail::state::Value;
-        json_detail::state previousState = currentState;
         json_detail::state nextState;
         element currentElement = {};
 
@@ -1317,7 +1316,7 @@ namespace neolib
                     bool skippingComment = false;
                     auto tempState = currentState;
                     do {
-                        nextState = json_detail::next_state<syntax>(tempState, previousState, *nextInputCh, nextInputCh != &iDocumentText.back() ? *(nextInputCh + 1) : '\0');
+                        nextState = json_detail::next_state<syntax>(tempState, currentState, *nextInputCh, nextInputCh != &iDocumentText.back() ? *(nextInputCh + 1) : '\0');
                         skippingComment = (nextState == json_detail::state::CppStyleComment || nextState == json_detail::state::CStyleComment);
                         if (skippingComment)
                         {
-- 
2.43.0


From 6d3598a46d1a6529af73292d873ff48355d1ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:35 +0000
Subject: [PATCH 078/147] fix: relaxed JSON empty strings take in a comment
 which follows them

---
 include/neolib/file/json.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 9a257a6..445f802 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1403,7 +1403,7 @@ namespace neolib
                         break;
                     case element::String:
                         {
-                            json_string newString{ currentElement.start, currentElement.start == nextOutputCh ? nextInputCh - 1 : nextOutputCh };
+                            json_string newString{ currentElement.start, currentElement.auxStart };
                             buy_value(currentElement, newString);
                         }
                         break;
@@ -1621,8 +1621,10 @@ namespace neolib
                             if (currentElement.start != nextOutputCh)
                                 *nextOutputCh++ = *nextInputCh;
                             nextState = json_detail::state::String;
+                            break;
                         }
                     }
+                    currentElement.auxStart = (currentElement.start == nextOutputCh ? nextInputCh : nextOutputCh);
                     break;
                 case json_detail::state::Escaped:
                     if (nextOutputCh == currentElement.start)
-- 
2.43.0


From ca9c40e284233b9e0d6c1cd6e4d6a2a49412bf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:54 +0000
Subject: [PATCH 079/147] fix: relaxed JSON takes /*/ for a whole comment

---
 include/neolib/file/json.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/file/json.inl b/include/neolib/file/json.inl
index 445f802..9debcf0 100644
--- a/include/neolib/file/json.inl
+++ b/include/neolib/file/json.inl
@@ -1322,6 +1322,8 @@ namespace neolib
                         {
                             if (tempState != nextState && currentElement.start != nullptr && nextOutputCh == currentElement.start)
                                 nextOutputCh = (currentState != json_detail::state::StringEnd ? nextInputCh : nextInputCh - 1);
+                            if (tempState != nextState && nextState == json_detail::state::CStyleComment)
+                                increment_cursor(); // the opening asterisk does not close the comment
                             tempState = nextState;
                             increment_cursor();
                         }
-- 
2.43.0


From 8e8c280aa539646254631735cfb2845c521f364c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:59 +0000
Subject: [PATCH 080/147] fix: removing a component record frees its handles a
 second time for the snapshot

---
 include/neolib/ecs/component.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/neolib/ecs/component.hpp b/include/neolib/ecs/component.hpp
index 81c9f71..f32aba1 100644
--- a/include/neolib/ecs/component.hpp
+++ b/include/neolib/ecs/component.hpp
@@ -360,18 +360,13 @@ namespace neolib::ecs
                 throw entity_record_not_found();
             if constexpr (data_meta_type::has_handles)
                 data_meta_type::free_handles(base_type::component_data()[reverseIndex], ecs());
-            std::swap(base_type::component_data()[reverseIndex], base_type::component_data().back());
-            base_type::component_data().pop_back();
-            auto tailEntity = entities().back();
-            std::swap(entities()[reverseIndex], entities().back());
-            entities().pop_back();
-            reverse_indices()[tailEntity] = reverseIndex;
-            reverse_indices()[aEntity] = invalid;
+            remove_entity_record(aEntity, reverseIndex);
             if (have_snapshot())
             {
                 auto ss = snapshot();
-                if (ss.data().has_entity_record(aEntity))
-                    ss.data().destroy_entity_record(aEntity);
+                auto snapshotReverseIndex = ss.data().reverse_index(aEntity);
+                if (snapshotReverseIndex != invalid) // a snapshot's record is a copy: its handles have been freed already
+                    ss.data().remove_entity_record(aEntity, snapshotReverseIndex);
             }
         }
         value_type& populate(entity_id aEntity, const value_type& aData)
@@ -450,6 +445,17 @@ namespace neolib::ecs
             neolib::parallel_apply(ecs().thread_pool(), component_data(), [&](value_type& aData) { aCallable(*this, aData); }, aMinimumParallelismCount);
         }
     private:
+        void remove_entity_record(entity_id aEntity, reverse_index_t aReverseIndex)
+        {
+            std::scoped_lock<component_mutex<Data>> lock{ mutex() };
+            std::swap(base_type::component_data()[aReverseIndex], base_type::component_data().back());
+            base_type::component_data().pop_back();
+            auto tailEntity = entities().back();
+            std::swap(entities()[aReverseIndex], entities().back());
+            entities().pop_back();
+            reverse_indices()[tailEntity] = aReverseIndex;
+            reverse_indices()[aEntity] = invalid;
+        }
         template <typename T>
         value_type& do_populate(entity_id aEntity, T&& aComponentData)
         {
-- 
2.43.0


From 0405799b315807675051f447a653d0af7121672c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:01 +0000
Subject: [PATCH 081/147] fix: intrusive_sort leaves the last element out of
 the heap it sorts with

---
 include/neolib/core/intrusive_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index ce97414..a918231 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -111,7 +111,7 @@ namespace neolib
             while (start > first)
             {
                 --start;
-                siftDown(first, start, end, swapper, comp);
+                siftDown(first, start, last, swapper, comp);
             }
         }
             
-- 
2.43.0


From b87296cd88cb396e2c41c50085cf14fc173167f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 082/147] fix: ecs::add_handle stores the handle past the end
 of its table

---
 src/ecs/ecs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 0d5d91c..df7ee22 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -539,7 +539,7 @@ namespace neolib::ecs
         std::unique_lock lock{ mutex() };
         auto nextHandleId = next_handle_id();
         if (iHandles.size() <= nextHandleId)
-            iHandles.resize(nextHandleId);
+            iHandles.resize(nextHandleId + 1);
         iHandles[nextHandleId] = aHandle;
         return nextHandleId;
     }
-- 
2.43.0


From f71470d3961f6e8e2be190df201d6ca2490b9490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:45 +0000
Subject: [PATCH 083/147] fix: ecs::to_handle reads past the end of the table
 for an id never issued

---
 src/ecs/ecs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index df7ee22..8d60a4b 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -531,6 +531,8 @@ namespace neolib::ecs
     ecs::handle_t ecs::to_handle(handle_id aId) const
     {
         std::unique_lock lock{ mutex() };
+        if (iHandles.size() <= aId)
+            throw invalid_handle_id();
         return iHandles[aId];
     }
 
-- 
2.43.0


From ada52553c853429668d8969a43e6a83818d92a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:47 +0000
Subject: [PATCH 084/147] fix: an entity asked to be destroyed twice is
 destroyed twice and its id given to two entities

---
 src/ecs/ecs.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 8d60a4b..72e2bf6 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -388,7 +388,8 @@ namespace neolib::ecs
     {
         {
             scoped_component_data_lock<entity_info> lock{ *this };
-            component<entity_info>().entity_record(aEntityId).destroyed = true;
+            if (component<entity_info>().entity_record(aEntityId).destroyed.exchange(true))
+                return; // already going to be destroyed
         }
         {
             std::unique_lock lock{ entity_mutex() };
@@ -410,6 +411,9 @@ namespace neolib::ecs
         {
             auto next = entitiesToDestroy.back();
             entitiesToDestroy.pop_back();
+            auto const& info = component<entity_info>();
+            if (!info.has_entity_record(next.first) || !info.entity_record(next.first).destroyed)
+                continue; // has been destroyed since it was asked for
             destroy_entity(next.first, next.second);
         }
     }
-- 
2.43.0


From 43b91b4f83c41a255b6aa3e71941a3a9e2f8a8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:33 +0000
Subject: [PATCH 085/147] fix: a system given its components by iterators is
 paused twice when created while all systems are paused

---
 include/neolib/ecs/system.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/neolib/ecs/system.hpp b/include/neolib/ecs/system.hpp
index f3efa8b..3a7be76 100644
--- a/include/neolib/ecs/system.hpp
+++ b/include/neolib/ecs/system.hpp
@@ -103,8 +103,6 @@ namespace neolib::ecs
         {
             (ecs().template component<ComponentData>(), ...);
             update_component_availability();
-            if (ecs().all_systems_paused())
-                pause();
         }
         ~system()
         {
-- 
2.43.0


From 0d833eb9ff09107766050088261e3cc84efc50d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:57 +0000
Subject: [PATCH 086/147] fix: scoped_multi_lock unlocks mutexes added after it
 locked

---
 include/neolib/core/mutex.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index c48e400..c040df7 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -510,16 +510,19 @@ namespace neolib
     {
     public:
         scoped_multi_lock(Mutexes& aMutexes) :
-            iMutexes{ aMutexes }
+            iMutexes{ aMutexes },
+            iCount{ aMutexes.size() }
         {
             boost::lock(iMutexes.begin(), iMutexes.end());
         }
         ~scoped_multi_lock()
         {
-            for (auto& m : iMutexes)
-                m.unlock();
+            // mutexes may have been appended in the meantime: those are not ours
+            for (auto m = iMutexes.begin(); iCount != 0; ++m, --iCount)
+                m->unlock();
         }
     private:
         Mutexes& iMutexes;
+        std::size_t iCount;
     };
 }
\ No newline at end of file
-- 
2.43.0


From 2b6e945e4c9ebdac94fc920e885009759f3a7a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:44 +0000
Subject: [PATCH 087/147] fix: erasing or adding tree nodes leaves the counts
 of nodes and of visible nodes wrong

---
 include/neolib/core/segmented_tree.hpp | 43 ++++++++++----------------
 1 file changed, 16 insertions(+), 27 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 31ac047..3d78e67 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -188,7 +188,8 @@ namespace neolib
                 if (!iSkipChildren)
                 {
                     iSkipChildren = true;
-                    parent().increment_skipped_descendent_count(descendent_count() - skipped_descendent_count());
+                    if (!is_root())
+                        parent().adjust_descendent_counts(0, descendent_count() - skipped_descendent_count());
                 }
             }
             void unskip_children()
@@ -196,7 +197,8 @@ namespace neolib
                 if (iSkipChildren)
                 {
                     iSkipChildren = false;
-                    parent().decrement_skipped_descendent_count(descendent_count() - skipped_descendent_count());
+                    if (!is_root())
+                        parent().adjust_descendent_counts(0, skipped_descendent_count() - descendent_count());
                 }
             }
         private:
@@ -204,33 +206,17 @@ namespace neolib
             {
                 return iDescendentCount;
             }
-            void increment_descendent_count()
-            {
-                ++iDescendentCount;
-                if (!is_root())
-                    parent().increment_descendent_count();
-            }
-            void decrement_descendent_count()
-            {
-                --iDescendentCount;
-                if (!is_root())
-                    parent().decrement_descendent_count();
-            }
             std::size_t skipped_descendent_count() const
             {
                 return iSkippedDescendentCount;
             }
-            void increment_skipped_descendent_count(std::size_t aCount)
-            {
-                iSkippedDescendentCount += aCount;
-                if (!is_root())
-                    parent().increment_skipped_descendent_count(aCount);
-            }
-            void decrement_skipped_descendent_count(std::size_t aCount)
+            // the counts are unsigned, a decrease is a negative value converted to std::size_t
+            void adjust_descendent_counts(std::size_t aDescendents, std::size_t aSkippedDescendents)
             {
-                iSkippedDescendentCount -= aCount;
+                iDescendentCount += aDescendents;
+                iSkippedDescendentCount += aSkippedDescendents;
                 if (!is_root())
-                    parent().decrement_skipped_descendent_count(aCount);
+                    parent().adjust_descendent_counts(aDescendents, children_skipped() ? aDescendents : aSkippedDescendents);
             }
             void update_parents(node& parent)
             {
@@ -766,7 +752,7 @@ namespace neolib
             auto& parent = const_cast<node&>(position.parent_node());
             auto& children = const_cast<node_child_list&>(parent.children());
             auto result = sibling_iterator{ parent, children.emplace_insert(position.base(), parent, value) };
-            parent.increment_descendent_count();
+            parent.adjust_descendent_counts(1, 0);
             return result;
         }
         void push_back(const value_type& value)
@@ -789,8 +775,11 @@ namespace neolib
         {
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
+            node& erased = mutablePos.our_node();
+            auto const descendents = erased.descendent_count();
+            auto const skippedDescendents = erased.children_skipped() ? descendents : erased.skipped_descendent_count();
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
-            parent.decrement_descendent_count();
+            parent.adjust_descendent_counts(0 - (descendents + 1), 0 - skippedDescendents);
             return result;
         }
         void sort()
@@ -851,12 +840,12 @@ namespace neolib
         void push_back(node& parent, const value_type& value)
         {
             parent.children().emplace_back(parent, value);
-            parent.increment_descendent_count();
+            parent.adjust_descendent_counts(1, 0);
         }
         void push_front(node& parent, const value_type& value)
         {
             parent.children().emplace_front(parent, value);
-            parent.increment_descendent_count();
+            parent.adjust_descendent_counts(1, 0);
         }
     private:
         template <typename Predicate>
-- 
2.43.0


From bddfca8088ba8d564f46ef068856a59650cde4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:45 +0000
Subject: [PATCH 088/147] fix: tree::erase returns an unusable iterator when
 the last child of a node is erased

---
 include/neolib/core/segmented_tree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 3d78e67..a4d6758 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -780,6 +780,8 @@ namespace neolib
             auto const skippedDescendents = erased.children_skipped() ? descendents : erased.skipped_descendent_count();
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
             parent.adjust_descendent_counts(0 - (descendents + 1), 0 - skippedDescendents);
+            while (result.iBaseIterator == result.parent_node().children().end() && !result.parent_node().is_root())
+                result = iterator{ result.parent_node().parent(), std::next(result.parent_node().parent().children().iter(result.parent_node())) };
             return result;
         }
         void sort()
-- 
2.43.0


From 1a7845ca92472a7b73ade1b25a77ef30a8d3f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:45 +0000
Subject: [PATCH 089/147] fix: postfix increment and decrement of tree
 iterators do not move the iterator and give its next position

---
 include/neolib/core/segmented_tree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index a4d6758..ed871d2 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -290,10 +290,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator++(int) const
+            basic_iterator operator++(int)
             {
                 basic_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_iterator& operator--()
@@ -313,10 +313,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator--(int) const
+            basic_iterator operator--(int)
             {
                 basic_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
@@ -456,10 +456,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator++(int) const
+            basic_const_iterator operator++(int)
             {
                 basic_const_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_const_iterator& operator--()
@@ -479,10 +479,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator--(int) const
+            basic_const_iterator operator--(int)
             {
                 basic_const_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
-- 
2.43.0


From 6a31339950e50a4e35afbe35636b896307444073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:35 +0000
Subject: [PATCH 090/147] fix: copied tag_array elements get the tag of the
 element after them; self-assignment empties a tag_array

---
 include/neolib/core/tag_array.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index 847d93e..eb1a63e 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -370,6 +370,8 @@ namespace neolib
     public:
         tag_array& operator=(const tag_array& aRhs)
         {
+            if (this == &aRhs)
+                return *this;
             clear();
             insert(begin(), aRhs.begin(), aRhs.end());
             return *this;
@@ -457,7 +459,8 @@ namespace neolib
             auto pos = aPosition.iContainerPosition;
             while (aFirst != aLast)
             {
-                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst++);
+                aPosition = insert(aFirst.segment().tag(), aPosition, 1, *aFirst);
+                ++aFirst;
                 ++aPosition;
             }
             return iterator(*this, pos);
-- 
2.43.0


From dd9e2650beab666c2fa5ac757bb8b567ab72c275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:35 +0000
Subject: [PATCH 091/147] fix: a copy constructed tag_array has the size of the
 original but none of its elements

---
 include/neolib/core/tag_array.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/neolib/core/tag_array.hpp b/include/neolib/core/tag_array.hpp
index eb1a63e..d0d0f71 100644
--- a/include/neolib/core/tag_array.hpp
+++ b/include/neolib/core/tag_array.hpp
@@ -363,6 +363,11 @@ namespace neolib
         {
             insert(aTag, begin(), aFirst, aLast);
         }
+        tag_array(const tag_array& aOther) :
+            base_type(aOther), iAllocator(aOther.iAllocator), iSize(0)
+        {
+            insert(begin(), aOther.begin(), aOther.end());
+        }
         ~tag_array()
         {
             erase(begin(), end());
-- 
2.43.0


From 24fe7fd940bda529afed0a796eb2fd4d48e7ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:09 +0000
Subject: [PATCH 092/147] fix: pool allocators keep their links misaligned, or
 outside a chunk smaller than a link

---
 include/neolib/core/allocator.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/neolib/core/allocator.hpp b/include/neolib/core/allocator.hpp
index f6cc511..75593e3 100644
--- a/include/neolib/core/allocator.hpp
+++ b/include/neolib/core/allocator.hpp
@@ -66,20 +66,20 @@ namespace neolib
 
         static constexpr std::size_t chunk_size()
         {
-            if constexpr (ChunkSize > sizeof(T))
+            if constexpr (ChunkSize > element_size())
                 return ChunkSize;
             else
-                return sizeof(T);
+                return element_size();
         }
 
         static constexpr std::size_t element_size()
         {
-            return sizeof(value_type) < sizeof(link) ? sizeof(link) : sizeof(value_type);
+            return sizeof(value_type) < sizeof(link) ? sizeof(link) : (sizeof(value_type) + alignof(link) - 1) / alignof(link) * alignof(link);
         }
 
         struct chunk
         {
-            alignas(T) char iMem[chunk_size()];
+            alignas(T) alignas(link) char iMem[chunk_size()];
             chunk* iNext;
         };
         class pool
@@ -299,7 +299,7 @@ namespace neolib
             } iBuffer;
             char* iMem;
             link* iHead;
-            block() : iElementSize(sizeof(T) < sizeof(link) ? sizeof(link) : sizeof(T)), iMem(reinterpret_cast<char*>(iBuffer.iBuffer)), iHead(reinterpret_cast<link*>(iMem)) { init(); }
+            block() : iElementSize(sizeof(iBuffer.iBuffer[0])), iMem(reinterpret_cast<char*>(iBuffer.iBuffer)), iHead(reinterpret_cast<link*>(iMem)) { init(); }
             void init()
             {
                 char* start = iMem;
-- 
2.43.0


From f317aac5988091a1ceda8807b0e14ab6ff2a37f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:09 +0000
Subject: [PATCH 093/147] fix: recycling an omega pool which has not been used
 yet dereferences a null pointer

---
 include/neolib/core/allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/allocator.hpp b/include/neolib/core/allocator.hpp
index 75593e3..bd088c6 100644
--- a/include/neolib/core/allocator.hpp
+++ b/include/neolib/core/allocator.hpp
@@ -134,7 +134,7 @@ namespace neolib
                         std::memset(start, 0xFF, last - start);
                         reinterpret_cast<link*>(last - element_size())->iNext = (n->iNext != nullptr ? reinterpret_cast<link*>(n->iNext->iMem) : nullptr);
                     }
-                    iHead = reinterpret_cast<link*>(iChunks->iMem);
+                    iHead = (iChunks != nullptr ? reinterpret_cast<link*>(iChunks->iMem) : nullptr);
                 }
             }
             template <typename CharT, typename Traits>
-- 
2.43.0


From 1f5e13357622804c8dab8bb8a60a23df934f8058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:51 +0000
Subject: [PATCH 094/147] fix: containers cannot use the pool and reserve
 allocators (std::allocator has no max_size in C++20)

---
 include/neolib/core/allocator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/allocator.hpp b/include/neolib/core/allocator.hpp
index bd088c6..8033b4c 100644
--- a/include/neolib/core/allocator.hpp
+++ b/include/neolib/core/allocator.hpp
@@ -253,7 +253,7 @@ namespace neolib
         };
 
         // this should really return 1 but popular implementations assume otherwise
-        size_type max_size() const { return std::allocator<T>().max_size(); }
+        size_type max_size() const { std::allocator<T> const a; return std::allocator_traits<std::allocator<T>>::max_size(a); }
 
         bool operator==(const neo_pool_allocator&) const { return true; }
         bool operator!=(const neo_pool_allocator&) const { return false; }
@@ -365,7 +365,7 @@ namespace neolib
         };
 
         // this should really return 1 but popular implementations assume otherwise
-        size_type max_size() const { return std::allocator<T>().max_size(); }
+        size_type max_size() const { std::allocator<T> const a; return std::allocator_traits<std::allocator<T>>::max_size(a); }
 
         bool operator==(const reserve_allocator&) const { return true; }
         bool operator!=(const reserve_allocator&) const { return false; }
-- 
2.43.0


From 45e108448494abaabc3bf9497242df681df3f4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:22 +0000
Subject: [PATCH 095/147] fix: XML markup following text or an attribute value
 that ends with a newline loses its first character when written

---
 include/neolib/file/xml.hpp |  1 +
 include/neolib/file/xml.inl | 10 +++++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.hpp b/include/neolib/file/xml.hpp
index 69a371e..94e27c3 100644
--- a/include/neolib/file/xml.hpp
+++ b/include/neolib/file/xml.hpp
@@ -506,6 +506,7 @@ namespace neolib
             template <typename T>
             node_writer& operator<<(const T& aData);
             node_writer& operator<<(const string& aData);
+            node_writer& operator<<(std::basic_ostream<CharT>& (&aNewLine)(std::basic_ostream<CharT>&));
         private:
             node_writer& operator=(const node_writer&); // undefined
         };
diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index a7e1d36..3b9ad41 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -423,9 +423,17 @@ namespace neolib
     template <typename CharT, typename Alloc>
         template <typename T>
     typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(const T& aData)
+    {
+        iStream << aData;
+        iLastWasNewLine = false;
+        return *this;
+    }
+
+    template <typename CharT, typename Alloc>
+    typename basic_xml<CharT, Alloc>::node_writer& basic_xml<CharT, Alloc>::node_writer::operator<<(std::basic_ostream<CharT>& (&aNewLine)(std::basic_ostream<CharT>&))
     {
         if (!iLastWasNewLine)
-            iStream << aData;
+            iStream << aNewLine;
         iLastWasNewLine = false;
         return *this;
     }
-- 
2.43.0


From 2be538f1b4db469fb29f66cea1c9cd874da4e68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:22 +0000
Subject: [PATCH 096/147] fix: reading XML runs off the end of a document whose
 last tag is not terminated, and unclosed elements are not reported

---
 include/neolib/file/xml.inl | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 3b9ad41..ba7da68 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -577,6 +577,11 @@ namespace neolib
     {
         if (aStartTag.first == aDocumentEnd || aStartTag.first >= aStartTag.second)
             return aDocumentEnd;
+        if (aStartTag.type() == node::Element && aStartTag.second == aDocumentEnd)
+        {
+            iError = true;
+            return aDocumentEnd;
+        }
 
         switch(aStartTag.type())
         {
@@ -653,7 +658,7 @@ namespace neolib
                     token contentToken = next_token(sTagDelimeter, true, next, aDocumentEnd);
                     next = contentToken.second;
                     if (next == aDocumentEnd)
-                        return next;
+                        break;
                     string content(contentToken.first, contentToken.second);
                     strip_if(content);
                     bool hasContent = false;
@@ -679,8 +684,8 @@ namespace neolib
                         theElement.push_back(new text(content));
                     }
                     tag nextTag = next_tag(next, aDocumentEnd); 
-                    if (nextTag.first > nextTag.second)
-                        return next;
+                    if (nextTag.first == aDocumentEnd || (nextTag.type() == node::Element && nextTag.second == aDocumentEnd))
+                        break;
                     if (nextTag.first == nextTag.second)
                     {
                         next= nextTag.first;
@@ -718,7 +723,8 @@ namespace neolib
                     }
                     next = parse(theElement.back(), nextTag, aDocumentEnd);
                 }
-                return next;
+                iError = true; // no end tag
+                return aDocumentEnd;
             }
             // no break required here due to return above (warning dampening)
         case node::Comment:
-- 
2.43.0


From c76f334903ba8b4c31e799aa0e1c5b50107b9fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:22 +0000
Subject: [PATCH 097/147] fix: XML text following a '>' in it is lost

---
 include/neolib/file/xml.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index ba7da68..caacf5c 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -185,7 +185,7 @@ namespace neolib
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueDelimeter = std::string("\"\'");
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidOne = std::string("<>\"");
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidTwo = std::string("<>\'");
-        const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<>");
+        const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<");
         const parsing_bits<char>::character_map parsing_bits<char>::sWhitespace = std::string(" \t\r\n");
         const parsing_bits<char>::string parsing_bits<char>::sCommentStart = "!--";
         const parsing_bits<char>::string parsing_bits<char>::sCommentEnd = "-->";
@@ -225,7 +225,7 @@ namespace neolib
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueDelimeter = std::wstring(L"\"\'");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidOne = std::wstring(L"<>\"");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidTwo = std::wstring(L"<>\'");
-        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<>");
+        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sWhitespace = std::wstring(L" \t\r\n");
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentStart = L"!--";
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentEnd = L"-->";
-- 
2.43.0


From 37e0056935203bce136458e94c5875a1e76f4005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:22 +0000
Subject: [PATCH 098/147] fix: reading an empty XML comment or CDATA section
 yields text instead, and an empty tag is not reported

---
 include/neolib/file/xml.inl | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index caacf5c..742f76d 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -575,9 +575,9 @@ namespace neolib
     template <typename CharT, typename Alloc>
     typename basic_xml<CharT, Alloc>::string::view_const_iterator basic_xml<CharT, Alloc>::parse(node& aNode, const tag& aStartTag, typename basic_xml<CharT, Alloc>::string::view_const_iterator aDocumentEnd)
     {
-        if (aStartTag.first == aDocumentEnd || aStartTag.first >= aStartTag.second)
+        if (aStartTag.first == aDocumentEnd)
             return aDocumentEnd;
-        if (aStartTag.type() == node::Element && aStartTag.second == aDocumentEnd)
+        if (aStartTag.type() == node::Element && (aStartTag.first == aStartTag.second || aStartTag.second == aDocumentEnd))
         {
             iError = true;
             return aDocumentEnd;
@@ -684,13 +684,8 @@ namespace neolib
                         theElement.push_back(new text(content));
                     }
                     tag nextTag = next_tag(next, aDocumentEnd); 
-                    if (nextTag.first == aDocumentEnd || (nextTag.type() == node::Element && nextTag.second == aDocumentEnd))
+                    if (nextTag.first == aDocumentEnd || (nextTag.type() == node::Element && (nextTag.first == nextTag.second || nextTag.second == aDocumentEnd)))
                         break;
-                    if (nextTag.first == nextTag.second)
-                    {
-                        next= nextTag.first;
-                        continue;
-                    }
                     switch (nextTag.type())
                     {
                     case node::Element:
@@ -800,8 +795,6 @@ namespace neolib
         tag nextTag = next_tag(document.cbegin(), document.cend());        
         while (nextTag.first != document.cend())
         {
-            while(nextTag.first != document.cend() && nextTag.first == nextTag.second)
-                nextTag = next_tag(nextTag.first, document.cend());
             nextTag = next_tag(parse(iDocument, nextTag, document.cend()), document.cend());
         };
 
-- 
2.43.0


From 43351a968aae835429f2411bb32d70590e4aec67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:22 +0000
Subject: [PATCH 099/147] fix: white space before the '>' of an XML end tag is
 reported as an error

---
 include/neolib/file/xml.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 742f76d..d8d8c11 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -691,7 +691,10 @@ namespace neolib
                     case node::Element:
                         if (*nextTag.first == characters<CharT>::sForwardSlashChar)
                         {
-                            if (theElement.name() != string(nextTag.first+1, nextTag.second))
+                            auto nameEnd = nextTag.second;
+                            while (sWhitespace.find(*(nameEnd - 1)))
+                                --nameEnd;
+                            if (theElement.name() != string(nextTag.first+1, nameEnd))
                             {
                                 iError = true;
                                 return aDocumentEnd;
-- 
2.43.0


From 2f8a604c4babc2b2cc4314a3e14e02dad326678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:22 +0000
Subject: [PATCH 100/147] fix: unterminated XML comments, declarations, CDATA
 sections and DTDs, and repeated attributes, are not reported

---
 include/neolib/file/xml.inl | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index d8d8c11..833d2d6 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -531,7 +531,10 @@ namespace neolib
             nextTag.first += sCommentStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sCommentEnd.begin(), sCommentEnd.end());
             if (nextTag.second == aDocumentEnd)
+            {
                 nextTag.first = aDocumentEnd;
+                iError = true;
+            }
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sDeclarationStart.size() && std::equal(nextTag.first, nextTag.first+sDeclarationStart.size(), sDeclarationStart.begin()))
         {
@@ -539,7 +542,10 @@ namespace neolib
             nextTag.first += sDeclarationStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sDeclarationEnd.begin(), sDeclarationEnd.end());
             if (nextTag.second == aDocumentEnd)
+            {
                 nextTag.first = aDocumentEnd;
+                iError = true;
+            }
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sCdataStart.size() && std::equal(nextTag.first, nextTag.first+sCdataStart.size(), sCdataStart.begin()))
         {
@@ -547,7 +553,10 @@ namespace neolib
             nextTag.first += sCdataStart.size();
             nextTag.second = std::search(nextTag.first, aDocumentEnd, sCdataEnd.begin(), sCdataEnd.end());
             if (nextTag.second == aDocumentEnd)
+            {
                 nextTag.first = aDocumentEnd;
+                iError = true;
+            }
         }
         else if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sDtdStart.size() + 1 && std::equal(nextTag.first, nextTag.first+sDtdStart.size(), sDtdStart.begin()) &&
             sWhitespace.find(*(nextTag.first + sDtdStart.size())))
@@ -567,7 +576,10 @@ namespace neolib
                 ++nextTag.second;
             }
             if (nextTag.second == aDocumentEnd)
+            {
                 nextTag.first = aDocumentEnd;
+                iError = true;
+            }
         }
         return nextTag;
     }
@@ -643,8 +655,11 @@ namespace neolib
                         return aDocumentEnd;
                     }
                     next = attributeValue.second + 1;
+                    auto const attributeCount = theElement.attributes().size();
                     typename attribute_list::iterator a = theElement.attributes().insert(std::make_pair(string(attributeName.first, attributeName.second), attributeValue.iHasEntities ? parse_entities(string(attributeValue.first, attributeValue.second)) : string(attributeValue.first, attributeValue.second))).first;
                     strip_if(a->second);
+                    if (theElement.attributes().size() == attributeCount)
+                        iError = true;
                 }
 
                 if (*(aStartTag.second-1) == characters<CharT>::sForwardSlashChar) // empty tag
-- 
2.43.0


From 30220b6ec2f88e384427b98b3a2fd8929781e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:22 +0000
Subject: [PATCH 101/147] fix: an XML attribute value containing '>' is
 reported as an error

---
 include/neolib/file/xml.inl | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index 833d2d6..b26d567 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -183,8 +183,8 @@ namespace neolib
         const parsing_bits<char>::character_map parsing_bits<char>::sNameDelimeter = std::string("<>/=\"\'");
         const parsing_bits<char>::character_map parsing_bits<char>::sNameBadDelimeter = std::string("<=\"\'");
         const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueDelimeter = std::string("\"\'");
-        const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidOne = std::string("<>\"");
-        const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidTwo = std::string("<>\'");
+        const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidOne = std::string("<\"");
+        const parsing_bits<char>::character_map parsing_bits<char>::sAttributeValueInvalidTwo = std::string("<\'");
         const parsing_bits<char>::character_map parsing_bits<char>::sTagDelimeter = std::string("<");
         const parsing_bits<char>::character_map parsing_bits<char>::sWhitespace = std::string(" \t\r\n");
         const parsing_bits<char>::string parsing_bits<char>::sCommentStart = "!--";
@@ -223,8 +223,8 @@ namespace neolib
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sNameDelimeter = std::wstring(L"<>/=\"\'");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sNameBadDelimeter = std::wstring(L"<=\"\'");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueDelimeter = std::wstring(L"\"\'");
-        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidOne = std::wstring(L"<>\"");
-        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidTwo = std::wstring(L"<>\'");
+        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidOne = std::wstring(L"<\"");
+        const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sAttributeValueInvalidTwo = std::wstring(L"<\'");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sTagDelimeter = std::wstring(L"<");
         const parsing_bits<wchar_t>::character_map parsing_bits<wchar_t>::sWhitespace = std::wstring(L" \t\r\n");
         const parsing_bits<wchar_t>::string parsing_bits<wchar_t>::sCommentStart = L"!--";
@@ -581,6 +581,23 @@ namespace neolib
                 iError = true;
             }
         }
+        else if (nextTag.first != aDocumentEnd && *nextTag.first != characters<CharT>::sForwardSlashChar)
+        {
+            CharT quote = {};
+            for (nextTag.second = nextTag.first; nextTag.second != aDocumentEnd; ++nextTag.second)
+            {
+                CharT const current = *nextTag.second;
+                if (quote != CharT{})
+                {
+                    if (current == quote)
+                        quote = CharT{};
+                }
+                else if (current == characters<CharT>::sElementTagEnd)
+                    break;
+                else if (sAttributeValueDelimeter.find(current))
+                    quote = current;
+            }
+        }
         return nextTag;
     }
 
-- 
2.43.0


From ddd2cb0631886952e512d6360dbc3ed92c26c163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:28 +0000
Subject: [PATCH 102/147] fix: a '<' which ends an XML document is not reported

---
 include/neolib/file/xml.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index b26d567..f6f6b21 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -522,8 +522,8 @@ namespace neolib
     {
         tag nextTag;
         nextTag.first = std::find(aNext, aDocumentEnd, CharT(characters<CharT>::sElementTagStart));
-        if (nextTag.first != aDocumentEnd)
-            ++nextTag.first;
+        if (nextTag.first != aDocumentEnd && ++nextTag.first == aDocumentEnd)
+            iError = true;
         nextTag.second = std::find(nextTag.first, aDocumentEnd, CharT(characters<CharT>::sElementTagEnd));
         if (static_cast<typename string::size_type>(nextTag.second - nextTag.first) >= sCommentStart.size() && std::equal(nextTag.first, nextTag.first+sCommentStart.size(), sCommentStart.begin()))
         {
-- 
2.43.0


From 2dfa9baef20ad6885e4469d0bad490bc82df8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:59 +0000
Subject: [PATCH 103/147] fix: an XML tag without a name is not reported

---
 include/neolib/file/xml.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/file/xml.inl b/include/neolib/file/xml.inl
index f6f6b21..2870f9f 100644
--- a/include/neolib/file/xml.inl
+++ b/include/neolib/file/xml.inl
@@ -625,7 +625,7 @@ namespace neolib
 
                 /* get element name */
                 token elementName = next_token(sNameDelimeter, false, aStartTag.first, aStartTag.second);
-                if (elementName.first == aStartTag.second)
+                if (elementName.first == elementName.second)
                 {
                     iError = true;
                     return aDocumentEnd;
-- 
2.43.0


From 242634542882dd6614dc4bf90bd0cd913fbf5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:03 +0000
Subject: [PATCH 104/147] fix: zip headers are misread where long has 64 bits

---
 include/neolib/file/zip.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/file/zip.hpp b/include/neolib/file/zip.hpp
index 94cbbdd..5537906 100644
--- a/include/neolib/file/zip.hpp
+++ b/include/neolib/file/zip.hpp
@@ -73,9 +73,9 @@ namespace neolib
         struct dir_header;
         struct dir_file_header;
         struct local_header;
-        typedef unsigned long dword;
-        typedef unsigned short word;
-        typedef unsigned char byte;
+        typedef std::uint32_t dword;
+        typedef std::uint16_t word;
+        typedef std::uint8_t byte;
         std::vector<const dir_file_header*> iDirEntries;
         std::vector<std::string> iFiles;
     };
-- 
2.43.0


From 2546c09682a96b3d207519f43e5e94d904cbb96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:03 +0000
Subject: [PATCH 105/147] fix: extracting a zip entry to a directory writes
 from a wild pointer

---
 src/file/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index b2c6fc3..031089e 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -152,7 +152,7 @@ namespace neolib
         if (extract_to(aIndex, data))
         {
             std::ofstream out(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
-            out.write(reinterpret_cast<const char*>(data[0]), data.size());
+            out.write(reinterpret_cast<const char*>(data.data()), data.size());
             if (out)
                 return true;
         }
-- 
2.43.0


From e8f2fa29bf2ae1e768dc2be5dd00d9601c4cfe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:03 +0000
Subject: [PATCH 106/147] fix: a zip index one past the last entry is accepted

---
 src/file/zip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 031089e..4c1b849 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -164,7 +164,7 @@ namespace neolib
     {
         if (iError)
             return false;
-        if (aIndex > iFiles.size())
+        if (aIndex >= iFiles.size())
             return false;
         const local_header* lh = reinterpret_cast<const local_header*>(data_front() + iDirEntries[aIndex]->iHeaderOffset);
         if (byte_cast(lh) < byte_cast(data_front()) ||
-- 
2.43.0


From 29b24997ad9fc9f70289abbbd3c8fe4b80c37c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:03 +0000
Subject: [PATCH 107/147] fix: a damaged zip directory is read past its end and
 not reported

---
 src/file/zip.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 4c1b849..75fb091 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -260,14 +260,14 @@ namespace neolib
         for (size_t i = 0; i < dh->iDirEntries; ++i)
         {
             if (byte_cast(fh) < byte_cast(data_front()) ||
-                byte_cast(fh) + sizeof(fh->iSignature) >= byte_cast(dh))
+                byte_cast(fh) + sizeof(*fh) > byte_cast(dh))
             {
-                iError = false;
+                iError = true;
                 return false;
             }
             if (fh->iSignature != dir_file_header::Signature)
             {
-                iError = false;
+                iError = true;
                 return false;
             }
             else
@@ -275,7 +275,7 @@ namespace neolib
                 if (byte_cast(reinterpret_cast<const char*>(fh) + sizeof(*fh) + fh->iFilenameLength + fh->iExtraLength + fh->iCommentLength) > 
                     byte_cast(dh))
                 {
-                    iError = false;
+                    iError = true;
                     return false;
                 }
                 iDirEntries.push_back(fh);
-- 
2.43.0


From cbe628747c4c521ffa108e7ce232458943199de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:47 +0000
Subject: [PATCH 108/147] fix: a zip entry with a data descriptor is extracted
 as empty

---
 src/file/zip.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 75fb091..54bb697 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -166,7 +166,9 @@ namespace neolib
             return false;
         if (aIndex >= iFiles.size())
             return false;
-        const local_header* lh = reinterpret_cast<const local_header*>(data_front() + iDirEntries[aIndex]->iHeaderOffset);
+        // the sizes and the checksum in a local header are zero if a data descriptor follows the data; those in the directory are always set
+        const dir_file_header* fh = iDirEntries[aIndex];
+        const local_header* lh = reinterpret_cast<const local_header*>(data_front() + fh->iHeaderOffset);
         if (byte_cast(lh) < byte_cast(data_front()) ||
             byte_cast(lh) > byte_cast(data_back()) - sizeof(local_header) + 1)
         {
@@ -180,19 +182,19 @@ namespace neolib
         }
         const uint8_t* compressedData = reinterpret_cast<const uint8_t*>(lh + 1) + lh->iFilenameLength + lh->iExtraLength;
         if (byte_cast(compressedData) < byte_cast(data_front()) ||
-            byte_cast(compressedData) + lh->iCompressedSize - 1 > byte_cast(data_back()))
+            byte_cast(compressedData) + fh->iCompressedSize - 1 > byte_cast(data_back()))
         {
             iError = true;
             return false;
         }
         if (lh->iCompression == Z_NO_COMPRESSION)
         {
-            if (crc32(reinterpret_cast<const uint8_t*>(compressedData), lh->iCompressedSize) != lh->iCrc32)
+            if (crc32(reinterpret_cast<const uint8_t*>(compressedData), fh->iCompressedSize) != fh->iCrc32)
             {
                 iError = true;
                 return false;
             }
-            aBuffer.resize(lh->iCompressedSize);
+            aBuffer.resize(fh->iCompressedSize);
             std::copy(compressedData, compressedData + aBuffer.size(), &aBuffer[0]);
             return true;
         }
@@ -203,8 +205,8 @@ namespace neolib
         }
         z_stream stream;
         stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
-        stream.avail_in = static_cast<uInt>(lh->iCompressedSize);
-        aBuffer.resize(lh->iUncompressedSize);
+        stream.avail_in = static_cast<uInt>(fh->iCompressedSize);
+        aBuffer.resize(fh->iUncompressedSize);
         stream.next_out = static_cast<Bytef*>(&aBuffer[0]);
         stream.avail_out = static_cast<uInt>(aBuffer.size());
         stream.zalloc = static_cast<alloc_func>(0);
@@ -223,7 +225,7 @@ namespace neolib
             iError = true;
             return false;
         }
-        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != lh->iCrc32)
+        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != fh->iCrc32)
         {
             iError = true;
             return false;
-- 
2.43.0


From 215f8e24f398049c0d49177fc0549b9e2a611436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 109/147] fix: an empty zip archive or entry is accessed
 through a null reference

---
 src/file/zip.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 54bb697..1a9494e 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -114,21 +114,21 @@ namespace neolib
         if (fileSize > iZipFile.max_size())
             throw zip_file_too_big();
         iZipFile.resize(static_cast<std::size_t>(fileSize));
-        iZipFileData = &iZipFile[0];
+        iZipFileData = iZipFile.data();
         iZipFileDataLength = iZipFile.size();
         std::ifstream input(aZipFilePath, std::ios::binary | std::ios::in);
-        if (input.read(reinterpret_cast<char*>(&iZipFile[0]), iZipFile.size()))
+        if (input.read(reinterpret_cast<char*>(iZipFile.data()), iZipFile.size()))
             parse();
         else
             iError = true;
     }
 
-    zip::zip(const buffer_type& aZipFile) : iZipFile{aZipFile}, iZipFileData{&iZipFile[0]}, iZipFileDataLength{iZipFile.size()}, iError{false}
+    zip::zip(const buffer_type& aZipFile) : iZipFile{aZipFile}, iZipFileData{iZipFile.data()}, iZipFileDataLength{iZipFile.size()}, iError{false}
     {
         parse();
     }
 
-    zip::zip(buffer_type&& aZipFile) : iZipFile{std::move(aZipFile)}, iZipFileData{&iZipFile[0]}, iZipFileDataLength{iZipFile.size()}, iError{false}
+    zip::zip(buffer_type&& aZipFile) : iZipFile{std::move(aZipFile)}, iZipFileData{iZipFile.data()}, iZipFileDataLength{iZipFile.size()}, iError{false}
     {
         parse();
     }
@@ -195,7 +195,7 @@ namespace neolib
                 return false;
             }
             aBuffer.resize(fh->iCompressedSize);
-            std::copy(compressedData, compressedData + aBuffer.size(), &aBuffer[0]);
+            std::copy(compressedData, compressedData + aBuffer.size(), aBuffer.begin());
             return true;
         }
         else if (lh->iCompression != Z_DEFLATED)
@@ -225,7 +225,7 @@ namespace neolib
             iError = true;
             return false;
         }
-        if (crc32(reinterpret_cast<const uint8_t*>(&aBuffer[0]), static_cast<uint32_t>(aBuffer.size())) != fh->iCrc32)
+        if (crc32(reinterpret_cast<const uint8_t*>(aBuffer.data()), static_cast<uint32_t>(aBuffer.size())) != fh->iCrc32)
         {
             iError = true;
             return false;
-- 
2.43.0


From e4f05e8bc1146a4bf5c2ee78993930aab6b6e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 110/147] fix: a deflated empty zip entry cannot be extracted

---
 src/file/zip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 1a9494e..0df4bf1 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -207,7 +207,8 @@ namespace neolib
         stream.next_in = static_cast<Bytef*>(const_cast<uint8_t*>(compressedData));
         stream.avail_in = static_cast<uInt>(fh->iCompressedSize);
         aBuffer.resize(fh->iUncompressedSize);
-        stream.next_out = static_cast<Bytef*>(&aBuffer[0]);
+        Bytef none = 0; // zlib insists on somewhere to write to
+        stream.next_out = aBuffer.empty() ? &none : static_cast<Bytef*>(aBuffer.data());
         stream.avail_out = static_cast<uInt>(aBuffer.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
-- 
2.43.0


From 44dd43288143ff0633d5e3fc8844798299da0d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 111/147] fix: a zip entry's path can lead out of the directory
 it is extracted to

---
 src/file/zip.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index 0df4bf1..b23aea0 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -149,7 +149,16 @@ namespace neolib
     bool zip::extract(size_t aIndex, const std::string& aTargetDirectory)
     {
         buffer_type data;
-        if (extract_to(aIndex, data))
+        bool const contained = [&]()
+        {
+            if (aIndex >= iFiles.size())
+                return false;
+            for (auto const& component : std::filesystem::path(file_path(aIndex)))
+                if (component == "..")
+                    return false;
+            return true;
+        }();
+        if (contained && extract_to(aIndex, data))
         {
             std::ofstream out(aTargetDirectory + "/" + file_path(aIndex), std::ios::out | std::ios::binary);
             out.write(reinterpret_cast<const char*>(data.data()), data.size());
-- 
2.43.0


From c7aa5c1b4a8e0a7adb25b0420fa69a03148b1870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 112/147] fix: a copied zip refers to the data of the zip it
 was copied from

---
 include/neolib/file/zip.hpp |  4 ++++
 src/file/zip.cpp            | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/include/neolib/file/zip.hpp b/include/neolib/file/zip.hpp
index 5537906..a70d5db 100644
--- a/include/neolib/file/zip.hpp
+++ b/include/neolib/file/zip.hpp
@@ -53,6 +53,10 @@ namespace neolib
         zip(const buffer_type& aZipFile);
         zip(buffer_type&& aZipFile);
         zip(const void* aZipFileData, std::size_t aZipFileDataLength);
+        zip(const zip& aOther);
+        zip(zip&& aOther) = default;
+        zip& operator=(const zip& aOther);
+        zip& operator=(zip&& aOther) = default;
     public:
         size_t file_count() const { return iFiles.size(); }
         std::size_t index_of(const std::string& aFile) const;
diff --git a/src/file/zip.cpp b/src/file/zip.cpp
index b23aea0..786d72a 100644
--- a/src/file/zip.cpp
+++ b/src/file/zip.cpp
@@ -138,6 +138,17 @@ namespace neolib
         parse();
     }
 
+    zip::zip(const zip& aOther) : iZipFile{aOther.iZipFile}, iZipFileData{aOther.iZipFileData == aOther.iZipFile.data() ? iZipFile.data() : aOther.iZipFileData}, iZipFileDataLength{aOther.iZipFileDataLength}, iError{false}
+    {
+        parse();
+        iError = aOther.iError;
+    }
+
+    zip& zip::operator=(const zip& aOther)
+    {
+        return *this = zip{ aOther };
+    }
+
     std::size_t zip::index_of(const std::string& aFile) const
     {
         for (std::size_t i = 0; i < file_count(); ++i)
-- 
2.43.0


From 94f4b585f7cb644829c0df18b19f6a3a214c2c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 113/147] fix: damaged gzip data are not reported

---
 src/file/gunzip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index b78ffa2..9cd879b 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -126,7 +126,8 @@ namespace neolib
                 result = Z_OK;
             inflateEnd(&stream);
         }
-        iOk = (result == Z_OK);
+        iOk = (result == Z_OK && stream.avail_out == 0 &&
+            ::crc32(::crc32(0, Z_NULL, 0), reinterpret_cast<const Bytef*>(iUncompressedData.data()), static_cast<uInt>(iUncompressedData.size())) == crc32);
         if (!iOk)
         {
             iUncompressedData.clear();
-- 
2.43.0


From 327e5ab2c4ec2e1247aec08ac4fa0d43caf7f98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 114/147] fix: gzip checksums and sizes of 2^31 or more are
 sign extended

---
 src/file/gunzip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index 9cd879b..0766f5d 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -103,11 +103,11 @@ namespace neolib
         unsigned long crc32 = static_cast<unsigned char>(*i++);
         crc32 += (static_cast<unsigned char>(*i++) << 8);
         crc32 += (static_cast<unsigned char>(*i++) << 16); 
-        crc32 += (static_cast<unsigned char>(*i++) << 24);    
+        crc32 += (static_cast<unsigned long>(static_cast<unsigned char>(*i++)) << 24);    
         unsigned long isize = static_cast<unsigned char>(*i++); 
         isize += (static_cast<unsigned char>(*i++) << 8);
         isize += (static_cast<unsigned char>(*i++) << 16); 
-        isize += (static_cast<unsigned char>(*i++) << 24);
+        isize += (static_cast<unsigned long>(static_cast<unsigned char>(*i++)) << 24);
         unsigned long uncompressedSize = isize;
         z_stream stream;
         stream.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(compressedData));
-- 
2.43.0


From c45f57bde6159129fb24c9137720f68529268e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 115/147] fix: the gzip data of an empty file are reported as
 damaged

---
 src/file/gunzip.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/file/gunzip.cpp b/src/file/gunzip.cpp
index 0766f5d..75a1e69 100644
--- a/src/file/gunzip.cpp
+++ b/src/file/gunzip.cpp
@@ -113,7 +113,8 @@ namespace neolib
         stream.next_in = reinterpret_cast<Bytef*>(const_cast<char*>(compressedData));
         stream.avail_in = static_cast<uInt>(compressedSize);
         iUncompressedData.resize(uncompressedSize);
-        stream.next_out = reinterpret_cast<Bytef*>(&iUncompressedData[0]);
+        Bytef none = 0; // zlib insists on somewhere to write to
+        stream.next_out = iUncompressedData.empty() ? &none : reinterpret_cast<Bytef*>(iUncompressedData.data());
         stream.avail_out = static_cast<uInt>(iUncompressedData.size());
         stream.zalloc = static_cast<alloc_func>(0);
         stream.zfree = static_cast<free_func>(0);
-- 
2.43.0


From 0d9612e0d87b78941826291721d9c55a50fe5a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:36 +0000
Subject: [PATCH 116/147] fix: an any copied from a non-const any or an i_any
 nests or recurses

---
 include/neolib/core/any.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 250cc06..d2d86f2 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -82,7 +82,7 @@ namespace neolib
         {
         }
         any(i_any&& aOther) :
-            any{ static_cast<any&>(aOther) } // todo - is it doable?
+            any{ static_cast<any&&>(aOther) } // todo - is it doable?
         {
         }
         any(const any& aOther) :
@@ -100,7 +100,7 @@ namespace neolib
             aOther.ptr = nullptr;
         }
         template <typename ValueType>
-        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>>, sfinae> = {}) :
+        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>> && !std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae> = {}) :
             std::any{ std::decay_t<ValueType>{aValue} },
             cptr{ &any::do_cptr<std::decay_t<ValueType>> },
             ptr{ &any::do_ptr<std::decay_t<ValueType>> }
@@ -122,7 +122,7 @@ namespace neolib
         any& operator=(i_any&& aRhs)
         {
             // todo - is it doable?
-            return *this = static_cast<any&>(aRhs);
+            return *this = static_cast<any&&>(aRhs);
         }
         any& operator=(const any& aRhs)
         {
@@ -141,7 +141,7 @@ namespace neolib
             return *this;
         }
         template<typename ValueType>
-        any& operator=(ValueType&& aRhs)
+        std::enable_if_t<!std::is_base_of_v<i_any, std::decay_t<ValueType>>, any&> operator=(ValueType&& aRhs)
         {
             std::any::operator=(std::decay_t<ValueType>{aRhs});
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
-- 
2.43.0


From fbc03e1782e3fd875a759c2e1ee4883878977632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:36 +0000
Subject: [PATCH 117/147] fix: any::emplace takes exactly one argument

---
 include/neolib/core/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index d2d86f2..165b249 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -152,7 +152,7 @@ namespace neolib
         template<class ValueType, class... Args>
         std::decay_t<ValueType>& emplace(Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -160,7 +160,7 @@ namespace neolib
         template<class ValueType, class U, class... Args>
         std::decay_t<ValueType>& emplace(std::initializer_list<U> il, Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(il, std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(il, std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
-- 
2.43.0


From c5b5332a375db96a8e7d529c7c9ba9cd33b26b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:36 +0000
Subject: [PATCH 118/147] fix: assigning an empty variant by its interface
 leaves the old value

---
 include/neolib/core/variant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index c07587c..52a7dcf 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -284,7 +284,10 @@ namespace neolib
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
-            RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
+            if (aIndex == 0)
+                std_type::template emplace<0>();
+            else
+                RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
             return *this;
         }
     };
-- 
2.43.0


From 766f74007ca414b941e79a49e7e1a608002b3049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:36 +0000
Subject: [PATCH 119/147] fix: a variant assigned its own value by its
 interface copies a destroyed value

---
 include/neolib/core/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index 52a7dcf..96618fb 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -277,7 +277,7 @@ namespace neolib
             static void assign(variant& aVariant, std::size_t aIndex, void const* aPtr) 
             {
                 if (aIndex == 1)
-                    aVariant.template emplace<T>(*static_cast<maybe_abstract_t<T> const*>(aPtr));
+                    aVariant.template emplace<T>(T{ *static_cast<maybe_abstract_t<T> const*>(aPtr) });
                 else
                     RuntimeTypeDispatchToEmplace<Ts...>::assign(aVariant, aIndex - 1, aPtr);
             }
-- 
2.43.0


From 6bcc84b72f3e16ead4f241174b9418d6a2ba6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:36 +0000
Subject: [PATCH 120/147] fix: reading '?' or nothing into an optional leaves
 or makes up a value

---
 include/neolib/core/optional.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/optional.hpp b/include/neolib/core/optional.hpp
index 533428a..14f5dd6 100644
--- a/include/neolib/core/optional.hpp
+++ b/include/neolib/core/optional.hpp
@@ -358,8 +358,11 @@ namespace neolib
     inline std::basic_istream<Elem, Traits>& operator>>(std::basic_istream<Elem, Traits>& aStream, optional<T>& aOptional)
     {
         char temp;
-        aStream >> temp;
-        if (temp != '?')
+        if (!(aStream >> temp))
+            return aStream;
+        if (temp == '?')
+            aOptional.reset();
+        else
         {
             aStream.unget();
             aOptional.emplace();
-- 
2.43.0


From 20af2311b53d099ed2a86c1540333182c4d4f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:38 +0000
Subject: [PATCH 121/147] fix: an any_cast of a pointer does not compile

---
 include/neolib/core/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 165b249..8089610 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -281,12 +281,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T* any_cast(any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T unsafe_any_cast(const any& operand) noexcept
-- 
2.43.0


From d29acbe70f8277160737b3e59807ecdc0abd8b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:38 +0000
Subject: [PATCH 122/147] fix: an i_optional cannot be compared with a value

---
 include/neolib/core/i_optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/i_optional.hpp b/include/neolib/core/i_optional.hpp
index 2827497..62b22b7 100644
--- a/include/neolib/core/i_optional.hpp
+++ b/include/neolib/core/i_optional.hpp
@@ -120,7 +120,7 @@ namespace neolib
     {
         if (!lhs.has_value())
             return false;
-        return lhs.get() == rhs;
+        return lhs.value() == rhs;
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -128,7 +128,7 @@ namespace neolib
     {
         if (!rhs.has_value())
             return false;
-        return lhs == rhs.get();
+        return lhs == rhs.value();
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -136,7 +136,7 @@ namespace neolib
     {
         if (!lhs.has_value())
             return std::partial_ordering::less;
-        return lhs.get() <=> rhs;
+        return lhs.value() <=> rhs;
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -144,6 +144,6 @@ namespace neolib
     {
         if (!rhs.has_value())
             return std::partial_ordering::greater;
-        return lhs <=> rhs.get();
+        return lhs <=> rhs.value();
     }
 }
-- 
2.43.0


From b882b2171b3f1c79e6c2350ac50553b7457edb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:11:08 +0000
Subject: [PATCH 123/147] fix: an any_cast of a pointer to an i_any does not
 compile

---
 include/neolib/core/i_any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/i_any.hpp b/include/neolib/core/i_any.hpp
index 9846fcb..75a514b 100644
--- a/include/neolib/core/i_any.hpp
+++ b/include/neolib/core/i_any.hpp
@@ -95,12 +95,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const i_any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T* any_cast(i_any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T unsafe_any_cast(const i_any& operand) noexcept
-- 
2.43.0


From f32f2d5550eae0a07ceee13f1b2a2918d688d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:33 +0000
Subject: [PATCH 124/147] fix: arithmetic between a matrix and a scalar does
 not compile

---
 include/neolib/core/numerical.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index db0e3f8..0390f46 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -969,6 +969,10 @@ namespace neolib
             bool operator!=(const basic_matrix& right) const { return m != right.m; }
             basic_matrix& operator+=(const basic_matrix& right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] += right[column]; return *this; }
             basic_matrix& operator-=(const basic_matrix& right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] -= right[column]; return *this; }
+            basic_matrix& operator+=(value_type right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] += right; return *this; }
+            basic_matrix& operator-=(value_type right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] -= right; return *this; }
+            basic_matrix& operator*=(value_type right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] *= right; return *this; }
+            basic_matrix& operator/=(value_type right) { for (std::uint32_t column = 0; column < Columns; ++column) (*this)[column] /= right; return *this; }
             basic_matrix& operator*=(const basic_matrix& right)
             {
                 basic_matrix result;
-- 
2.43.0


From ca782e3f7cb7b5797a9ea251b9ead063a248f8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:33 +0000
Subject: [PATCH 125/147] fix: rounding a matrix rounds negative elements
 towards zero

---
 include/neolib/core/numerical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 0390f46..8ea4e3a 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -997,7 +997,7 @@ namespace neolib
                 for (std::uint32_t column = 0; column < Columns; ++column)
                     for (std::uint32_t row = 0; row < Rows; ++row)
                     {
-                        std::modf((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5), &result[column][row]);
+                        result[column][row] = std::floor((*this)[column][row] / aEpsilon + static_cast<value_type>(0.5));
                         result[column][row] *= aEpsilon;
                     }
                 return result;
-- 
2.43.0


From 73356afa58a365919af2ec763137d1ed3f0aff8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:33 +0000
Subject: [PATCH 126/147] fix: the product of two matrices that are not square
 does not compile

---
 include/neolib/core/numerical.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 8ea4e3a..21cecb1 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1282,10 +1282,13 @@ namespace neolib
         inline basic_matrix<T, D1, D1> operator*(const basic_matrix<T, D1, D2>& left, const basic_matrix<T, D2, D1>& right)
         {
 #if defined(IDENTITY_MATRIX_OPTIMISATIONS)
-            if (left.is_identity())
-                return right;
-            if (right.is_identity())
-                return left;
+            if constexpr (D1 == D2)
+            {
+                if (left.is_identity())
+                    return right;
+                if (right.is_identity())
+                    return left;
+            }
 #endif
             basic_matrix<T, D1, D1> result;
             for (std::uint32_t column = 0u; column < D1; ++column)
-- 
2.43.0


From 10bd990d0c794a67e3992f28a2d6937410ad8e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:33 +0000
Subject: [PATCH 127/147] fix: quad_extents cannot be called as its template
 arguments cannot be deduced

---
 include/neolib/core/numerical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 21cecb1..1a097cd 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1937,7 +1937,7 @@ namespace neolib
         constexpr std::size_t QuadBottomRight = static_cast<std::size_t>(quad_corner::BottomRight);
         constexpr std::size_t QuadBottomLeft = static_cast<std::size_t>(quad_corner::BottomLeft);
 
-        template <typename T, std::size_t D>
+        template <typename T, std::uint32_t D>
         inline basic_vector<T, D> quad_extents(std::array<basic_vector<T, D>, 4> const& aQuad)
         {
             return basic_vector<T, D>{
-- 
2.43.0


From d120f360d1920f0f2cecfc14374be222651a23b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:03 +0000
Subject: [PATCH 128/147] fix: to_aabb_2d compiles for double vertices only

---
 include/neolib/core/numerical.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 1a097cd..daa467e 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2303,13 +2303,13 @@ namespace neolib
         template <typename T>
         inline basic_aabb_2d<basic_vector<T, 2u>> to_aabb_2d(const basic_vector<T, 2u>& aOrigin, T aSize)
         {
-            return basic_aabb_2d<basic_vector<T, 2u>>{ (aOrigin - aSize / 2.0).xy, (aOrigin + aSize / 2.0).xy };
+            return basic_aabb_2d<basic_vector<T, 2u>>{ (aOrigin - aSize / static_cast<T>(2.0)).xy, (aOrigin + aSize / static_cast<T>(2.0)).xy };
         }
 
         template <typename T>
         inline basic_aabb_2d<basic_vector<T, 2u>> to_aabb_2d(const basic_vector<T, 2u>& aOrigin, const basic_vector<T, 2u>& aSize)
         {
-            return basic_aabb_2d<basic_vector<T, 2u>>{ (aOrigin - aSize / 2.0).xy, (aOrigin + aSize / 2.0).xy };
+            return basic_aabb_2d<basic_vector<T, 2u>>{ (aOrigin - aSize / static_cast<T>(2.0)).xy, (aOrigin + aSize / static_cast<T>(2.0)).xy };
         }
 
         template <typename VertexIter, typename Vertex = typename std::iterator_traits<VertexIter>::value_type>
-- 
2.43.0


From fe898f379f2297791db51616b3de13dc73210570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:03 +0000
Subject: [PATCH 129/147] fix: transforming a bounding box ignores the
 translation

---
 include/neolib/core/numerical.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index daa467e..f28a7f8 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2081,14 +2081,14 @@ namespace neolib
             using coordinate_t = typename Vertex::value_type;
             std::array<Vertex, 8> boxVertices =
             {
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, coordinate_t{} }).xyz
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.min.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.min.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.min.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.min.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.min.y, aAabb.max.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.min.y, aAabb.max.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.min.x, aAabb.max.y, aAabb.max.z, coordinate_t{ 1 } }).xyz,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 4u>{ aAabb.max.x, aAabb.max.y, aAabb.max.z, coordinate_t{ 1 } }).xyz
             };
             basic_aabb<Vertex> result{ boxVertices[0], boxVertices[0] };
             for (auto const& v : boxVertices)
@@ -2286,10 +2286,10 @@ namespace neolib
             using coordinate_t = typename Vertex::value_type;
             std::array<Vertex, 4> boxVertices =
             {
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.min.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.min.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.max.y, coordinate_t{} }).xy,
-                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.max.y, coordinate_t{} }).xy
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.min.y, coordinate_t{ 1 } }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.min.y, coordinate_t{ 1 } }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.min.x, aAabb.max.y, coordinate_t{ 1 } }).xy,
+                ((aFirstTransform * ... * aRemainingTransforms) * basic_vector<coordinate_t, 3u>{ aAabb.max.x, aAabb.max.y, coordinate_t{ 1 } }).xy
             };
             basic_aabb_2d<Vertex> result{ boxVertices[0].xy, boxVertices[0].xy };
             for (auto const& v : boxVertices)
-- 
2.43.0


From f55d28f409c23dfbc359021c2d9a14e16bc09c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:03 +0000
Subject: [PATCH 130/147] fix: aabb_contains compares the corners
 lexicographically

---
 include/neolib/core/numerical.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index f28a7f8..b07065d 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2202,13 +2202,13 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const basic_aabb<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return outer.min.min(inner.min) == outer.min && outer.max.max(inner.max) == outer.max;
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return outer.min.min(point) == outer.min && outer.max.max(point) == outer.max;
         }
 
         template <typename Vertex>
@@ -2431,13 +2431,13 @@ namespace neolib
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const basic_aabb_2d<Vertex>& inner)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return outer.min.min(inner.min) == outer.min && outer.max.max(inner.max) == outer.max;
         }
 
         template <typename Vertex>
         inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const Vertex& point)
         {
-            return point >= outer.min && point <= outer.max;
+            return outer.min.min(point) == outer.min && outer.max.max(point) == outer.max;
         }
 
         template <typename Vertex>
-- 
2.43.0


From 52e7ae0dd442130d4b1a304f6b31e58aecec3f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:03 +0000
Subject: [PATCH 131/147] fix: the rotation matrix of a half turn is a
 reflection

---
 include/neolib/core/numerical.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index b07065d..bfc5e0a 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -1563,8 +1563,6 @@ namespace neolib
         {
             if (std::abs(angle) <= epsilon)
                 return basic_matrix<T, 3u, 3u>::identity();
-            else if (std::abs(angle - boost::math::constants::pi<T>()) <= epsilon)
-                return -basic_matrix<T, 3u, 3u>::identity();
             T const s = std::sin(angle);
             T const c = std::cos(angle);
             T const a = static_cast<T>(1.0) - c;
@@ -1582,7 +1580,16 @@ namespace neolib
         {
             auto const nva = vectorA.normalized();
             auto const nvb = vectorB.normalized();
-            return rotation_matrix(nva.cross(nvb).normalized(), std::acos(nva.dot(nvb)), epsilon);
+            auto const cosine = std::clamp(nva.dot(nvb), static_cast<T>(-1.0), static_cast<T>(1.0));
+            if (cosine <= epsilon - static_cast<T>(1.0))
+            {
+                // opposite directions: a half turn about any axis perpendicular to them
+                auto const other = std::abs(nva.x) < constants::half<T> ?
+                    basic_vector<T, 3u>{ constants::one<T>, constants::zero<T>, constants::zero<T> } :
+                    basic_vector<T, 3u>{ constants::zero<T>, constants::one<T>, constants::zero<T> };
+                return rotation_matrix(nva.cross(other).normalized(), boost::math::constants::pi<T>(), epsilon);
+            }
+            return rotation_matrix(nva.cross(nvb).normalized(), std::acos(cosine), epsilon);
         }
 
         template <std::floating_point T>
-- 
2.43.0


From de9e5a59efe4ff547af339e0e36b0fa7c41aecca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:03 +0000
Subject: [PATCH 132/147] fix: assigning a swizzle to one of the same shape
 assigns the other elements too

---
 include/neolib/core/swizzle.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/neolib/core/swizzle.hpp b/include/neolib/core/swizzle.hpp
index 23608c8..422e163 100644
--- a/include/neolib/core/swizzle.hpp
+++ b/include/neolib/core/swizzle.hpp
@@ -84,6 +84,15 @@ namespace neolib
                 static constexpr uint32_t value = Index;
             };
         public:
+            swizzle() = default;
+            swizzle(const swizzle&) = default;
+            swizzle& operator=(const swizzle& aRhs)
+            {
+                static_assert(greater_than<vector_type::Size, Indexes...>::result, "Swizzle too big");
+                auto const rhs = aRhs.v;
+                ((v[Indexes] = rhs[Indexes]), ...);
+                return *this;
+            }
             swizzle& operator=(const value_type& aRhs)
             {
                 static_assert(greater_than<vector_type::Size, Indexes...>::result, "Swizzle too big");
-- 
2.43.0


From da451968ca28577377868322daf3c36e11e6db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:25 +0000
Subject: [PATCH 133/147] fix: the SIMD four-way product delivers its results
 in reverse order, or zero for floats

---
 include/neolib/core/simd.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index b5f284d..0393df0 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -141,20 +141,20 @@ namespace neolib
             alignas(32) __m256d lhs = _mm256_set_pd(x1, y1, z1, w1);
             alignas(32) __m256d rhs = _mm256_set_pd(x2, y2, z2, w2);
             alignas(32) __m256d ans = _mm256_mul_pd(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            a = to_scalar(ans, 3);
+            b = to_scalar(ans, 2);
+            c = to_scalar(ans, 1);
+            d = to_scalar(ans, 0);
         }
         else
         {
             alignas(32) __m256 lhs = _mm256_set_ps(x1, y1, z1, w1, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 rhs = _mm256_set_ps(x2, y2, z2, w2, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 ans = _mm256_mul_ps(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            a = to_scalar(ans, 7);
+            b = to_scalar(ans, 6);
+            c = to_scalar(ans, 5);
+            d = to_scalar(ans, 4);
         }
     }
 #endif
-- 
2.43.0


From d5aad4d39511d82b4fd4ff86423ac268c8e6892c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:25 +0000
Subject: [PATCH 134/147] fix: simd_rand reads beyond its register

---
 include/neolib/core/simd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index 0393df0..c41b8ab 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -82,7 +82,7 @@ namespace neolib
 #ifdef _WIN32
         return emmRegister.m128i_u32[index];
 #else
-        return emmRegister[index];
+        return reinterpret_cast<__v4su>(emmRegister)[index];
 #endif
     }
 #endif
-- 
2.43.0


From dc449656817cf51e63a294b885ad6dc82fbbde59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:38 +0000
Subject: [PATCH 135/147] fix: seeding simd_rand leaves numbers of the previous
 sequence to be handed out

---
 include/neolib/core/simd.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index c41b8ab..7051574 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -218,18 +218,28 @@ namespace neolib
             return tSeed;
         }
 #endif
+
+        // how many of the four numbers last generated have been handed out
+        template <bool Emm>
+        inline std::size_t& simd_rand_counter()
+        {
+            thread_local std::size_t tCounter = 4u;
+            return tCounter;
+        }
     }
 
 #if defined(USE_EMM) || defined(USE_EMM_DYNAMIC)
     inline void emm_simd_srand(std::uint32_t seed)
     {
         detail::simd_rand_seed() = _mm_set_epi32(seed, seed + 1, seed, seed + 1);
+        detail::simd_rand_counter<true>() = 4u;
     }
 #endif
 
     inline void fake_simd_srand(std::uint32_t seed)
     {
         std::srand(seed);
+        detail::simd_rand_counter<false>() = 4u;
     }
 
 #if defined(USE_EMM)
@@ -255,7 +265,7 @@ namespace neolib
     inline std::uint32_t emm_simd_rand()
     {
         thread_local std::array<std::uint32_t, 4u> result = {};
-        thread_local std::size_t resultCounter = 4u;
+        std::size_t& resultCounter = detail::simd_rand_counter<true>();
 
         if (resultCounter < 4u)
             return result[resultCounter++];
@@ -298,7 +308,7 @@ namespace neolib
     inline std::uint32_t fake_simd_rand()
     {
         thread_local std::array<std::uint32_t, 4u> result = {};
-        thread_local std::size_t resultCounter = 4u;
+        std::size_t& resultCounter = detail::simd_rand_counter<false>();
         if (resultCounter < 4u)
             return result[resultCounter++];
         result = { 
-- 
2.43.0


From ff5a56b6abe6f2e573133ea4a9ccaede53d23266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:58 +0000
Subject: [PATCH 136/147] fix: a URI that lacks a part is parsed by reading a
 token that is not there, and a part that contains its delimiter is cut short

---
 src/io/uri.cpp | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index eaa6d99..b118d8c 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -206,38 +206,34 @@ namespace neolib
 
     std::string uri::parse_path(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep{ "/" };
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-            iPath = unescaped(std::string{ bits[1].first, aRest.end() });
-        return std::string{ bits[0].first, bits[0].second };
+        auto const sep = aRest.find('/');
+        if (sep != std::string::npos)
+            iPath = unescaped(aRest.substr(sep + 1));
+        return aRest.substr(0, sep);
     }
 
     std::string uri::parse_query(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "?" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iQuery = unescaped(bits[1]);
-        return bits.front();
+        auto const sep = aRest.find('?');
+        if (sep != std::string::npos)
+            iQuery = unescaped(aRest.substr(sep + 1));
+        return aRest.substr(0, sep);
     }
 
     std::string uri::parse_fragment(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "#" }, bits, 2, false, false);
-        if (bits.size() == 2)
-            iFragment = unescaped(bits[1]);
-        return bits.front();
+        auto const sep = aRest.find('#');
+        if (sep != std::string::npos)
+            iFragment = unescaped(aRest.substr(sep + 1));
+        return aRest.substr(0, sep);
     }
 
     std::string uri::parse_scheme(const std::string& aRest)
     {
-        neolib::vecarray<std::string, 2> bits;
-        neolib::tokens(aRest, std::string{ "://" }, bits, 2, false, true);
-        if (bits.size() == 2)
-            iScheme = unescaped(bits[0]);
-        return bits.back();
+        auto const sep = aRest.find("://");
+        if (sep == std::string::npos || aRest.find_first_of("/?#") < sep)
+            return aRest;
+        iScheme = unescaped(aRest.substr(0, sep));
+        return aRest.substr(sep + 3);
     }
 }
-- 
2.43.0


From 3aa0299a85a5c0efb849ed093e6c0329bcbd3b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:58 +0000
Subject: [PATCH 137/147] fix: unescaping a URI drops an escape at its end and
 reads beyond a short text

---
 src/io/uri.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index b118d8c..331a93e 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -192,16 +192,17 @@ namespace neolib
 
     std::string uri::unescaped(const std::string& aString)
     {
-        std::string escaped;
+        auto const isHex = [](char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'A' && ch <= 'F') || (ch >= 'a' && ch <= 'f'); };
+        std::string unescaped;
         for (auto i = aString.begin(); i != aString.end(); ++i)
-            if (*i != '%')
-                escaped += *i;
-            else if (i < aString.end() - 3)
+            if (*i == '%' && aString.end() - i >= 3 && isHex(i[1]) && isHex(i[2]))
             {
-                escaped += static_cast<char>(string_to_uint32(std::string{ i + 1, i + 3 }, 16));
+                unescaped += static_cast<char>(string_to_uint32(std::string{ i + 1, i + 3 }, 16));
                 i += 2;
             }
-        return escaped;
+            else
+                unescaped += *i;
+        return unescaped;
     }
 
     std::string uri::parse_path(const std::string& aRest)
-- 
2.43.0


From 1b0e0876137dbd88580609337e60cca16e4a903f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:58 +0000
Subject: [PATCH 138/147] fix: the user information and host of a URI are not
 unescaped, and an IP literal is split at its first colon

---
 src/io/uri.cpp | 35 ++++++++++++-----------------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index 331a93e..fc9d0f3 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -66,33 +66,22 @@ namespace neolib
 
     std::string uri_authority::parse_user_information(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep("@");
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-        {
-            iUserInformation = std::string{ bits[0].first, bits[0].second };
-            return std::string{ bits[1].first, bits[1].second };
-        }
-        else if (bits.size() == 1)
-            return std::string{ bits[0].first, bits[0].second };
-        else
-            return {};
+        auto const sep = aRest.find('@');
+        if (sep == std::string::npos)
+            return aRest;
+        iUserInformation = uri::unescaped(aRest.substr(0, sep));
+        return aRest.substr(sep + 1);
     }
 
     std::string uri_authority::parse_host(const std::string& aRest)
     {
-        neolib::vecarray<std::pair<std::string::const_iterator, std::string::const_iterator>, 2> bits;
-        std::string sep(":");
-        neolib::tokens(aRest.begin(), aRest.end(), sep.begin(), sep.end(), bits, 2, false, false);
-        if (bits.size() == 2)
-        {
-            iHost = std::string{ bits[0].first, bits[0].second };
-            return std::string(bits[1].first, bits[1].second);
-        }
-        else if (bits.size() == 1)
-            iHost = std::string(bits[0].first, bits[0].second);
-        return {};
+        // an IP literal is enclosed in brackets and may contain colons
+        auto const literalEnd = !aRest.empty() && aRest[0] == '[' ? aRest.find(']') : std::string::npos;
+        auto const hostEnd = literalEnd != std::string::npos ? literalEnd + 1 : std::min(aRest.find(':'), aRest.size());
+        if (hostEnd != 0)
+            iHost = uri::unescaped(aRest.substr(0, hostEnd));
+        auto const sep = aRest.find(':', hostEnd);
+        return sep != std::string::npos ? aRest.substr(sep + 1) : std::string{};
     }
 
     void uri_authority::parse_port(const std::string& aRest)
-- 
2.43.0


From 147f9734ff8f3d4590b0e605c0c3d605802b0868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:58 +0000
Subject: [PATCH 139/147] fix: a port that is not a number up to 65535 is
 truncated rather than refused

---
 src/io/uri.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index fc9d0f3..ad61524 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -86,8 +86,14 @@ namespace neolib
 
     void uri_authority::parse_port(const std::string& aRest)
     {
-        if (!aRest.empty())
-            iPort = static_cast<port_type>(std::stoi(aRest));
+        if (aRest.empty())
+            return;
+        if (aRest.find_first_not_of("0123456789") != std::string::npos)
+            throw std::invalid_argument("neolib::uri_authority: invalid port");
+        auto const port = std::stoul(aRest);
+        if (port > std::numeric_limits<port_type>::max())
+            throw std::out_of_range("neolib::uri_authority: invalid port");
+        iPort = static_cast<port_type>(port);
     }
 
     uri::uri()
-- 
2.43.0


From dc69112b8adc412f3ad814fabb7ea2076e8a4d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:58 +0000
Subject: [PATCH 140/147] fix: writing a URI does not escape percent signs and
 delimiters within its parts

---
 include/neolib/io/uri.hpp | 16 ++++++++++------
 src/io/uri.cpp            |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/neolib/io/uri.hpp b/include/neolib/io/uri.hpp
index c8a2256..dee435e 100644
--- a/include/neolib/io/uri.hpp
+++ b/include/neolib/io/uri.hpp
@@ -85,7 +85,7 @@ namespace neolib
         void set_query(const std::string& aQuery);
         void set_fragment(const std::string& aFragment);
     public:
-        static std::string escaped(const std::string& aString);
+        static std::string escaped(const std::string& aString, const std::string& aReserved = {});
         static std::string unescaped(const std::string& String);
     private:
         void parse_authority(const std::string& aRest);
@@ -105,9 +105,13 @@ namespace neolib
     inline std::basic_ostream<Elem, Traits>& operator<<(std::basic_ostream<Elem, Traits>& aStream, const uri_authority& aUriAuthority)
     {
         if (aUriAuthority.user_information() != std::nullopt)
-            aStream << uri::escaped(*aUriAuthority.user_information()) << "@";
+            aStream << uri::escaped(*aUriAuthority.user_information(), "%@/?#") << "@";
         if (aUriAuthority.host() != std::nullopt)
-            aStream << uri::escaped(*aUriAuthority.host());
+        {
+            auto const& host = *aUriAuthority.host();
+            bool const literal = host.size() > 1 && host[0] == '[' && host.find(']') == host.size() - 1;
+            aStream << uri::escaped(host, literal ? "%@/?#" : "%@:[/?#");
+        }
         if (aUriAuthority.port() != std::nullopt)
             aStream << ":" << *aUriAuthority.port();
         return aStream;
@@ -116,11 +120,11 @@ namespace neolib
     template <typename Elem, typename Traits>
     inline std::basic_ostream<Elem, Traits>& operator<<(std::basic_ostream<Elem, Traits>& aStream, const uri& aUri)
     {
-        aStream << uri::escaped(aUri.scheme()) << "://" << aUri.authority() << "/" << uri::escaped(aUri.path());
+        aStream << uri::escaped(aUri.scheme(), "%:/?#") << "://" << aUri.authority() << "/" << uri::escaped(aUri.path(), "%?#");
         if (!aUri.query().empty())
-            aStream << "?" << uri::escaped(aUri.query());
+            aStream << "?" << uri::escaped(aUri.query(), "%#");
         if (!aUri.fragment().empty())
-            aStream << "#" << uri::escaped(aUri.fragment());
+            aStream << "#" << uri::escaped(aUri.fragment(), "%");
         return aStream;
     }
 }
diff --git a/src/io/uri.cpp b/src/io/uri.cpp
index ad61524..20e1bd9 100644
--- a/src/io/uri.cpp
+++ b/src/io/uri.cpp
@@ -167,7 +167,7 @@ namespace neolib
         iAuthority = uri_authority(aRest);
     }
 
-    std::string uri::escaped(const std::string& aString)
+    std::string uri::escaped(const std::string& aString, const std::string& aReserved)
     {
         static const std::unordered_set<char> sUrlChars = 
         {
@@ -178,7 +178,7 @@ namespace neolib
         };
         std::string escaped;
         for (auto ch : aString)
-            if (sUrlChars.find(ch) != sUrlChars.end())
+            if (sUrlChars.find(ch) != sUrlChars.end() && aReserved.find(ch) == std::string::npos)
                 escaped += ch;
             else
                 escaped += "%" + uint32_to_string<char>(static_cast<uint8_t>(ch), 16, 2);
-- 
2.43.0


From 9ae8bdd605ab080e7dc01acdf16a9fec54c4c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:19 +0000
Subject: [PATCH 141/147] fix: uuid: writing a uuid leaves the stream's format
 as it was

---
 include/neolib/core/uuid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/uuid.hpp b/include/neolib/core/uuid.hpp
index a5b9ee8..54566bc 100644
--- a/include/neolib/core/uuid.hpp
+++ b/include/neolib/core/uuid.hpp
@@ -86,6 +86,7 @@ namespace neolib
 
     inline std::ostream& operator<<(std::ostream& aStream, const uuid& aId)
     {
+        auto const oldFlags = aStream.flags();
         char oldFill = aStream.fill('0');
         aStream << std::hex << std::uppercase << std::setw(8) << aId.part1 << "-";
         aStream << std::hex << std::uppercase << std::setw(4) << aId.part2 << "-";
@@ -93,7 +94,7 @@ namespace neolib
         aStream << std::hex << std::uppercase << std::setw(4) << aId.part4 << "-";
         for (size_t i = 0; i <= 5; ++i)
             aStream << std::hex << std::uppercase << std::setw(2) << static_cast<uint32_t>(aId.part5[i]);
-        aStream << std::dec;
+        aStream.flags(oldFlags);
         aStream.fill(oldFill);
         return aStream;
     }
-- 
2.43.0


From b4a8e94097b714575d0876f814c795b41b58b2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:19 +0000
Subject: [PATCH 142/147] fix: hex_dump: leave the stream's format as it was

---
 include/neolib/file/hexdump.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/file/hexdump.hpp b/include/neolib/file/hexdump.hpp
index 76164f1..2a13dbb 100644
--- a/include/neolib/file/hexdump.hpp
+++ b/include/neolib/file/hexdump.hpp
@@ -47,6 +47,8 @@ namespace neolib
         const char* const start = static_cast<const char*>(aData);
         const char* const end = start + aLength;
         const char* line = start;
+        auto const oldFlags = aStream.flags();
+        auto const oldFill = aStream.fill();
         while (line != end)
         {
             aStream.width(4);
@@ -79,5 +81,7 @@ namespace neolib
             aStream << std::endl;
             line = line + lineLength;
         }
+        aStream.flags(oldFlags);
+        aStream.fill(oldFill);
     }
 }
-- 
2.43.0


From 9d52b51b19769c330f807f4beced0a96bca0232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:19 +0000
Subject: [PATCH 143/147] fix: version: compare the other version's maintenance
 number, not one's own

---
 include/neolib/app/version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index 2cd76ab..d0eef04 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -78,7 +78,7 @@ namespace neolib
     public:
         bool operator<(const version& aOther) const
         {
-            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, iMaintenance, aOther.iBuild);
+            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, aOther.iMaintenance, aOther.iBuild);
         }
         bool operator>(const version& aOther) const
         {
-- 
2.43.0


From 49c4b22edfd0be6e082dae8dfb4e5b4823e97ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:15 +0000
Subject: [PATCH 144/147] fix: version: parse the name of the version

---
 include/neolib/app/version.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index d0eef04..8f99c68 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -56,18 +56,22 @@ namespace neolib
         version(const std::string& aVersionString = "") :
             iMajor(0), iMinor(0), iMaintenance(0), iBuild(0), iName("")
         {
-            neolib::vecarray<std::string, 5> bits;
-            neolib::tokens(aVersionString, std::string(". "), bits, 4);
-            if (bits.size() > 0)
-                iMajor = neolib::string_to_uint32(bits[0]);
-            if (bits.size() > 1)
-                iMinor = neolib::string_to_uint32(bits[1]);
-            if (bits.size() > 2)
-                iMaintenance = neolib::string_to_uint32(bits[2]);
-            if (bits.size() > 3)
-                iBuild = neolib::string_to_uint32(bits[3]);
-            if (bits.size() > 4)
-                iName = bits[3];
+            auto const isNumber = [](char ch) { return ch >= '0' && ch <= '9'; };
+            auto rest = aVersionString.begin();
+            for (auto number : { &iMajor, &iMinor, &iMaintenance, &iBuild })
+            {
+                // the name, if there is one, comes after a space and can only look like a number after all four numbers
+                auto const word = std::find_if(rest, aVersionString.end(), [](char ch) { return ch != ' '; });
+                if (word != rest && word != aVersionString.end() && !isNumber(*word))
+                    break;
+                auto const next = std::find_if(word, aVersionString.end(), [](char ch) { return ch != '.' && ch != ' '; });
+                if (next == aVersionString.end())
+                    break;
+                rest = std::find_if(next, aVersionString.end(), [](char ch) { return ch == '.' || ch == ' '; });
+                *number = neolib::string_to_uint32(std::string{ next, rest });
+            }
+            if (rest != aVersionString.end() && *rest == ' ')
+                iName = std::string{ std::next(rest), aVersionString.end() };
         }
         version(const i_version& aOther) :
             iMajor(aOther.version_major()), iMinor(aOther.version_minor()), iMaintenance(aOther.version_maintenance()), iBuild(aOther.version_build()), iName(aOther.version_name())
-- 
2.43.0


From 2adadc8151b26f6c424e18cee4121dad338a2fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:22 +0000
Subject: [PATCH 145/147] fix: gap_vector: assigning a gap_vector to itself
 leaves it as it is

---
 include/neolib/core/gap_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 6750b70..b189270 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -294,6 +294,8 @@ namespace neolib
     public:
         constexpr gap_vector& operator=(const gap_vector& other)
         {
+            if (this == &other)
+                return *this;
             assign(other.begin(), other.end());
             return *this;
         }
-- 
2.43.0


From ce977b43e8e1655c2565f0ba39de94a89599f16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:55 +0000
Subject: [PATCH 146/147] fix: scoped_pointer: saved() returns the pointer that
 was saved

---
 include/neolib/core/scoped.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/scoped.hpp b/include/neolib/core/scoped.hpp
index 8a38173..fa19d19 100644
--- a/include/neolib/core/scoped.hpp
+++ b/include/neolib/core/scoped.hpp
@@ -90,7 +90,7 @@ namespace neolib
         scoped_pointer(T*& aPointer, T* aValue) noexcept : iPointer{ aPointer }, iSaved{ aPointer }, iIgnore{ false } { iPointer = aValue; }
         ~scoped_pointer() noexcept { if (!iIgnore) iPointer = iSaved; }
     public:
-        T const& saved() const noexcept { return iSaved; }
+        T* saved() const noexcept { return iSaved; }
         void ignore() noexcept { iIgnore = true; }
     private:
         T*& iPointer;
-- 
2.43.0


From 1e51dfea1f144fae88a4f3d9a417a49bb59a8754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:31 +0000
Subject: [PATCH 147/147] fix: zip_iterator: swapping what two zip iterators
 refer to swaps it

---
 include/neolib/core/zip_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/zip_iterator.hpp b/include/neolib/core/zip_iterator.hpp
index efd050c..da288b4 100644
--- a/include/neolib/core/zip_iterator.hpp
+++ b/include/neolib/core/zip_iterator.hpp
@@ -216,7 +216,7 @@ namespace std
     template <typename... Iterators>
     inline void iter_swap(neolib::zip_iterator<Iterators...> a, neolib::zip_iterator<Iterators...> b)
     {
-        auto temp = *a;
+        typename std::iterator_traits<neolib::zip_iterator<Iterators...>>::value_type temp = *a;
         *a = *b;
         *b = temp;
     }
-- 
2.43.0


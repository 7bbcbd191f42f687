From cd65da61f34a30a23b3c07a7a04fc93956d8d14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 01/57] fix: robin_hash_map::find() returns end() for an absent
 key

The not-found marker last_slot() is not what end() designates in the indirect
layout or in a map without storage.
---
 src/jstd/hashmap/robin_hash_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7232853..161bb1c 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3555,6 +3555,8 @@ public:
 
     const_iterator find(const key_type & key) const {
         const slot_type * slot = this->find_impl(key);
+        if (slot == this->last_slot())
+            return this->end();
         if (!kIsIndirectKV)
             return this->iterator_at(this->index_of(slot));
         else
-- 
2.43.0


From eb15429edd1fb5d9ed5060b284d85ddf629538d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 02/57] fix: robin_hash_map move constructor takes over the
 slot threshold

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 161bb1c..a58c600 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3152,7 +3152,7 @@ public:
         slot_size_(jstd::exchange(other.slot_size_, 0)),
         slot_mask_(jstd::exchange(other.slot_mask_, 0)),
         max_lookups_(jstd::exchange(other.max_lookups_, kMinLookups)),
-        slot_threshold_(jstd::exchange(other.slot_size_, 0)),
+        slot_threshold_(jstd::exchange(other.slot_threshold_, 0)),
         n_mlf_(jstd::exchange(other.n_mlf_, kDefaultLoadFactorInt)),
         n_mlf_rev_(jstd::exchange(other.n_mlf_rev_, kDefaultLoadFactorRevInt)),
 #if ROBIN_USE_HASH_POLICY
-- 
2.43.0


From 163034bd635728000452de3759acd1685ef2c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 03/57] fix: robin_hash_map::swap() exchanges last_slot too

---
 src/jstd/hashmap/robin_hash_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index a58c600..cf20b7e 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -6558,6 +6558,7 @@ Insert_To_Slot:
         using std::swap;
         swap(this->ctrls_, other.ctrls_);
         swap(this->slots_, other.slots_);
+        swap(this->last_slot_, other.last_slot_);
         swap(this->slot_size_, other.slot_size_);
         swap(this->slot_mask_, other.slot_mask_);
         swap(this->max_lookups_, other.max_lookups_);
-- 
2.43.0


From 311341c81aa79eb36236c63fae2abaf17911c9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 04/57] fix: robin_hash_map::insert(initializer_list) compiles

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index cf20b7e..34319c7 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3617,7 +3617,7 @@ public:
     }
 
     void insert(std::initializer_list<value_type> ilist) {
-        this->insert(ilist.cbegin(), ilist.cend());
+        this->insert(ilist.begin(), ilist.end());
     }
 
     template <typename KeyType, typename MappedType>
-- 
2.43.0


From b2d31e3a4680b7de99c33d8231ac1fbbfe97a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 05/57] fix: robin_hash_map hinted insert and insert_or_assign

The hinted overloads return an iterator, and an lvalue key is not moved from.
---
 src/jstd/hashmap/robin_hash_map.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 34319c7..13ac7cf 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3605,8 +3605,8 @@ public:
     template <typename P, typename std::enable_if<
               (!jstd::is_same_ex<P, value_type>::value) &&
               std::is_constructible<value_type, P &&>::value>::type * = nullptr>
-    std::pair<iterator, bool> insert(const_iterator hint, P && value) {
-        return this->emplace_impl<false>(std::forward<P>(value));
+    iterator insert(const_iterator hint, P && value) {
+        return this->emplace_impl<false>(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
@@ -3627,17 +3627,17 @@ public:
 
     template <typename KeyType, typename MappedType>
     std::pair<iterator, bool> insert_or_assign(KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value));
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value));
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, const KeyType & key, MappedType && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedType>(value)).first;
     }
 
     template <typename KeyType, typename MappedType>
     iterator insert_or_assign(const_iterator hint, KeyType && key, MappedType && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedType>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyType>(key), std::forward<MappedType>(value)).first;
     }
 
     std::pair<iterator, bool> insert_always(const value_type & value) {
-- 
2.43.0


From 155bf47cced8a236c7db9103a953ff49422b742b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 06/57] fix: robin_hash_map::bucket_count() reports the
 capacity, not the size

---
 src/jstd/hashmap/robin_hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 13ac7cf..f228fa8 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3301,7 +3301,7 @@ public:
     }
 
     constexpr size_type bucket_count() const {
-        return this->slot_size_;
+        return this->slot_capacity();
     }
 
     size_type bucket(const key_type & key) const {
-- 
2.43.0


From f71a290dc9cbf72043085f24b6149f043466f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 07/57] fix: robin_hash_map::max_load_factor() applies to the
 existing table

The growth threshold follows the new load factor, and reserve(n) is enough for n
elements under every load factor.
---
 src/jstd/hashmap/robin_hash_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index f228fa8..382f3b3 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3324,11 +3324,13 @@ public:
         std::uint32_t n_mlf_rev = (std::uint32_t)std::ceil(1.0f / mlf * kLoadFactorAmplify);
         this->n_mlf_ = n_mlf;
         this->n_mlf_rev_ = n_mlf_rev;
+        this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
         size_type now_slot_size = this->slot_size();
         size_type new_slot_threshold = this->slot_threshold();
         if (now_slot_size > new_slot_threshold) {
             size_type min_required_capacity = this->min_require_capacity(now_slot_size);
             if (min_required_capacity > this->slot_capacity()) {
+                // Note: rehash() converts the number of elements to the capacity.
                 this->rehash(now_slot_size);
             }
         }
@@ -3869,7 +3871,8 @@ private:
     }
 
     size_type min_require_capacity(size_type init_capacity) const {
-        size_type new_capacity = init_capacity * this->integral_mlf_rev() / kLoadFactorAmplify;
+        // Round up, or the threshold of the capacity may be less than [init_capacity].
+        size_type new_capacity = (init_capacity * this->integral_mlf_rev() + kLoadFactorAmplify - 1) / kLoadFactorAmplify;
         return new_capacity;
     }
 
-- 
2.43.0


From a039260fa90207660df4c74fe373d99e9f6f2b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:32 +0000
Subject: [PATCH 08/57] fix: robin_hash_map erase by iterator and by range

The iterator overloads did not compile, ignored the indirect layout, and the range
overload lost track of the elements moved by each erase.
---
 src/jstd/hashmap/robin_hash_map.h | 54 +++++++++++++++----------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 382f3b3..028e202 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -2889,7 +2889,7 @@ public:
 
         slot_type * slot() {
             const slot_type * _slot = this->owner_->slot_at(this->index_);
-            return const_cast<this_type *>(_slot);
+            return const_cast<slot_type *>(_slot);
         }
 
         const slot_type * slot() const {
@@ -3731,43 +3731,43 @@ public:
     }
 
     iterator erase(iterator pos) {
-        if (likely(pos->owner() == std::addressof(*this))) {
+        return this->erase(const_iterator(pos));
+    }
+
+    iterator erase(const_iterator pos) {
+        if (!kIsIndirectKV) {
+            // The backward shift may have moved the next element to the erased position.
             size_type ctrl_index = this->index_of(pos);
             this->erase_slot(ctrl_index);
-            ctrl_type * ctrl = this->ctrl_at(ctrl_index);
-            return this->next_valid_iterator(ctrl, pos);
+            return this->next_valid_iterator(this->ctrl_at(ctrl_index), this->iterator_at(ctrl_index));
         } else {
-            size_type to_erase_idx = this->find_ctrl_index(pos);
-            if (likely(to_erase_idx != this->max_slot_capacity())) {
-                if (!kIsIndirectKV)
-                    this->erase_slot(to_erase_idx);
-                else
-                    this->indirect_erase_slot(to_erase_idx);
-                ctrl_type * ctrl = this->ctrl_at(to_erase_idx);
-                return this->next_valid_iterator(ctrl, iterator(this, to_erase_idx));
-            } else {
-                return { this, this->max_slot_capacity() };
-            }
+            // The last element has been moved to the erased position.
+            size_type slot_index = this->index_of(pos.slot());
+            this->indirect_erase_slot(this->index_of(pos));
+            return this->iterator_at(slot_index);
         }
     }
 
-    iterator erase(const_iterator pos) {
-        return this->erase(iterator(pos));
-    }
-
     iterator erase(const_iterator first, const_iterator last) {
-        // TODO: There is a bug, which needs to be traversed from the last to the first.
-        if (likely(first.owner() == this)) {
-            for (; first != last; ++first) {
-                size_type ctrl_index = this->index_of(first);
-                this->erase_slot(ctrl_index);
+        if (!kIsIndirectKV) {
+            // The backward shift keeps the order of the elements, but it changes their positions.
+            size_type num_elements = static_cast<size_type>(jstd::distance(first, last));
+            iterator iter = this->iterator_at(first.index());
+            while (num_elements != 0) {
+                iter = this->erase(iter);
+                num_elements--;
             }
+            return iter;
         } else {
-            for (; first != last; ++first) {
-                this->erase_slot(*first);
+            // Traverse from the last to the first, because erasing moves the last element of the map.
+            size_type first_index = this->index_of(first.slot());
+            size_type slot_index = this->index_of(last.slot());
+            while (slot_index != first_index) {
+                slot_index--;
+                this->erase(this->iterator_at(slot_index));
             }
+            return this->iterator_at(first_index);
         }
-        return { first };
     }
 
     template <typename InputIter, typename std::enable_if<
-- 
2.43.0


From 48b2153417e3c67e5e05eaaa6f80ac591f2cca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 09/57] fix: robin_hash_map survives a failed allocation of its
 storage

The probe limit is changed only when both blocks have been obtained, and the first
block is released if the second one cannot be allocated.
---
 src/jstd/hashmap/robin_hash_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 028e202..e9c805d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4358,7 +4358,6 @@ private:
             new_max_lookups = (std::max)(new_max_lookups * 2, kMinLookups);
         else
             new_max_lookups = (std::min)(new_max_lookups * 4, size_type(std::uint8_t(kMaxDist) + 1));
-        this->max_lookups_ = new_max_lookups;
 
         size_type new_ctrl_capacity = new_capacity + new_max_lookups;
         size_type new_group_count = (new_ctrl_capacity + (kGroupWidth - 1)) / kGroupWidth;
@@ -4381,7 +4380,13 @@ private:
         this->clear_ctrls(new_ctrls, new_capacity, new_max_lookups, new_group_count);
 
 #if ROBIN_USE_SEPARATE_SLOTS
-        slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        slot_type * new_slots;
+        try {
+            new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_ctrl_capacity);
+        } catch (...) {
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, new_ctrls, ctrl_alloc_size);
+            throw;
+        }
 #else
         slot_type * new_slots = this->AlignedSlots<kSlotAlignment>(new_ctrls, ctrl_alloc_size);
 #endif
-- 
2.43.0


From 71dca91d7e3fdb37d353bfebbbebc03461c7bb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 10/57] fix: robin_hash_map::clear() does not write to the
 shared empty ctrls

---
 src/jstd/hashmap/robin_hash_map.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index e9c805d..7ee8b82 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4216,8 +4216,11 @@ private:
         // Note!!: clear_slots() need use this->ctrls()
         this->clear_slots();
 
-        this->clear_ctrls(this->ctrls(), this->slot_capacity(),
-                          this->max_lookups(), this->group_count());
+        // The default empty ctrls are shared by all maps without storage, never write to them.
+        if (this->ctrls_ != this_type::default_empty_ctrls()) {
+            this->clear_ctrls(this->ctrls(), this->slot_capacity(),
+                              this->max_lookups(), this->group_count());
+        }
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 8ea44b3cfe60e7933f2c90d004db7bd68b8f559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:56 +0000
Subject: [PATCH 11/57] fix: robin_hash_map assignment keeps storage and
 allocator together

The allocators were exchanged only if they propagate on swap, so storage obtained
from the propagated allocator was returned to another one.
---
 src/jstd/hashmap/robin_hash_map.h | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 7ee8b82..696ce67 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3243,11 +3243,13 @@ public:
     }
 
     robin_hash_map & operator = (const robin_hash_map & other) {
-        robin_hash_map tmp(other,
-                           AllocTraits::propagate_on_container_copy_assignment::value
-                           ? other.get_allocator_ref()
-                           : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        if (std::addressof(other) != this) {
+            robin_hash_map tmp(other,
+                               AllocTraits::propagate_on_container_copy_assignment::value
+                               ? other.get_allocator_ref()
+                               : this->get_allocator_ref());
+            this->swap_all(tmp);
+        }
         return *this;
     }
 
@@ -6552,7 +6554,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -6560,7 +6562,7 @@ Insert_To_Slot:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -6581,6 +6583,18 @@ Insert_To_Slot:
 #endif
     }
 
+    // Use in assignment: the storage goes along with the allocators it was obtained from,
+    // whether or not they propagate on swap.
+    void swap_all(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->ctrl_allocator_, other.get_ctrl_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
     void swap_policy(this_type & other) noexcept {
         using std::swap;
         swap(this->hasher_, other.hash_function_ref());
-- 
2.43.0


From 85e0d4242eb37a5823ecb023cc0815e8ec637986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 12/57] fix: robin_hash_map constructors release everything
 when they throw

They delegate to a complete constructor, so the destructor runs. Moving with an
unequal allocator moves the elements and leaves the source empty.
---
 src/jstd/hashmap/robin_hash_map.h | 80 +++++--------------------------
 1 file changed, 13 insertions(+), 67 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 696ce67..13222f1 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3079,15 +3079,9 @@ public:
                    size_type init_capacity = kDefaultCapacity,
                    const hasher & hash = hasher(),
                    const key_equal & equal = key_equal(),
-                   const allocator_type & alloc = allocator_type()) :
-        ctrls_(this_type::default_empty_ctrls()),
-        slots_(nullptr), last_slot_(nullptr),
-        slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
-        hasher_(hash), key_equal_(equal),
-        allocator_(alloc),
-        ctrl_allocator_(alloc), slot_allocator_(alloc) {
+                   const allocator_type & alloc = allocator_type())
+        : robin_hash_map(0, hash, equal, alloc) {
+        // Note: the delegated construction ensures that the destructor is called if an insertion throws.
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type input_size = jstd::distance(first, last);
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
@@ -3115,31 +3109,12 @@ public:
                                 select_on_container_copy_construction(other.get_allocator_ref())) {
     }
 
-    robin_hash_map(const robin_hash_map & other, const Allocator & alloc) :
-        ctrls_(this_type::default_empty_ctrls()),
-        slots_(nullptr), last_slot_(nullptr),
-        slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
-#if ROBIN_USE_HASH_POLICY
-        hash_policy_(),
-#endif
-        hasher_(other.hash_function_ref()), key_equal_(other.key_eq_ref()),
-        allocator_(alloc),
-        ctrl_allocator_(alloc), slot_allocator_(alloc) {
+    robin_hash_map(const robin_hash_map & other, const Allocator & alloc)
+        : robin_hash_map(0, other.hash_function_ref(), other.key_eq_ref(), alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type other_size = other.size();
         this->reserve_for_insert(other_size);
-        try {
-            this->unique_insert(other.begin(), other.end());
-        } catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            this->destroy();
-            throw std::bad_alloc();
-        } catch (...) {
-            this->destroy();
-            throw;
-        }
+        this->unique_insert(other.begin(), other.end());
     }
 
     robin_hash_map(robin_hash_map && other) noexcept(
@@ -3167,20 +3142,8 @@ public:
         // this->swap_content(other);
     }
 
-    robin_hash_map(robin_hash_map && other, const Allocator & alloc) :
-        ctrls_(this_type::default_empty_ctrls()),
-        slots_(nullptr), last_slot_(nullptr),
-        slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
-#if ROBIN_USE_HASH_POLICY
-        hash_policy_(jstd::exchange(other.hash_policy_ref(), hash_policy_t())),
-#endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
-        allocator_(alloc),
-        ctrl_allocator_(alloc),
-        slot_allocator_(alloc) {
+    robin_hash_map(robin_hash_map && other, const Allocator & alloc)
+        : robin_hash_map(0, other.hash_function_ref(), other.key_eq_ref(), alloc) {
         if (this->get_allocator_ref() == other.get_allocator_ref()) {
             // Swap content only
             this->swap_content(other);
@@ -3189,17 +3152,10 @@ public:
             size_type other_size = other.size();
             this->reserve_for_insert(other_size);
 
-            // Note: this will copy elements of dense_set and unordered_set instead of
-            // moving them. This can be fixed if it ever becomes an issue.
-            try {
-                this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                this->destroy();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy();
-                throw;
+            for (iterator iter = other.begin(); iter != other.end(); ++iter) {
+                this->unique_insert(std::move(*iter));
             }
+            other.clear();
         }
     }
 
@@ -3207,18 +3163,8 @@ public:
                    size_type init_capacity = kDefaultCapacity,
                    const hasher & hash = hasher(),
                    const key_equal & equal = key_equal(),
-                   const allocator_type & alloc = allocator_type()) :
-        ctrls_(this_type::default_empty_ctrls()),
-        slots_(nullptr), last_slot_(nullptr),
-        slot_size_(0), slot_mask_(0), max_lookups_(kMinLookups),
-        slot_threshold_(0), n_mlf_(kDefaultLoadFactorInt),
-        n_mlf_rev_(kDefaultLoadFactorRevInt),
-#if ROBIN_USE_HASH_POLICY
-        hash_policy_(),
-#endif
-        hasher_(hash), key_equal_(equal),
-        allocator_(alloc),
-        ctrl_allocator_(alloc), slot_allocator_(alloc) {
+                   const allocator_type & alloc = allocator_type())
+        : robin_hash_map(0, hash, equal, alloc) {
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type reserve_capacity = (init_capacity >= init_list.size()) ? init_capacity : init_list.size();
         this->reserve_for_insert(reserve_capacity);
-- 
2.43.0


From 09020f9f7a4cb7518b3711ec1a171146c161a29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 13/57] fix: robin_hash_map insertion and rehash keep the table
 consistent

An insertion first makes sure that there is room for the displaced elements, and
the new element is constructed before the table grows, because the arguments may
refer to elements of the map.  A rehash first makes sure that the new table has
room for every element (it was possible to run over the probe limit and the end of
the table), and copying handles the indirect layout.  If a hash function, an
element constructor or the allocator throws, the table remains valid.
---
 src/jstd/hashmap/robin_hash_map.h | 688 +++++++++++++++---------------
 1 file changed, 335 insertions(+), 353 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 13222f1..e72f10d 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -67,6 +67,7 @@
 #include <initializer_list>
 #include <algorithm>    // For std::max(), std::min()
 #include <type_traits>
+#include <exception>
 #include <stdexcept>
 
 #include "jstd/basic/stddef.h"
@@ -4387,229 +4388,162 @@ private:
             }
             CPU_Prefetch_Read_T2(old_slots);
 
-            this->create_slots<false>(new_capacity);
-
-            if (!kIsIndirectKV) {
-                // kIsIndirectKV = false
-                if (old_slot_capacity >= kGroupWidth) {
-#if ROBIN_REHASH_READ_PREFETCH
-                    static constexpr size_type kSlotSetp = sizeof(value_type) * kGroupWidth;
-                    static constexpr size_type kCacheLine = 64;
-                    static constexpr size_type kPrefetchMinSteps = 3;
-                    static constexpr size_type kPrefetchMinOffset = cmax(kPrefetchMinSteps * kSlotSetp, kCacheLine);
-                    static constexpr size_type kPrefetchMaxOffset = 1024;
-                    static constexpr size_type kMaxPrefetchOffset = cmax(kPrefetchMinOffset, kPrefetchMaxOffset);
-                    static constexpr size_type kPrefetchSteps = 4 + kSlotSetp / 512;
-                    static constexpr size_type kPrefetchOffset = cmin(kPrefetchSteps * cmax(kSlotSetp, kCacheLine), kMaxPrefetchOffset);
-                    static constexpr size_type kTailGroupCount = (kPrefetchOffset + (kSlotSetp - 1)) / kSlotSetp;
-
-                    static constexpr size_type kPrefetchCtrlOffset = cmax(4 * kGroupSize, kCacheLine * 2);
-
-                    ctrl_type * ctrl = old_ctrls;
-                    ctrl_type * last_ctrl = old_ctrls + old_group_count * kGroupWidth;
-                    ctrl_type * end_ctrl = last_ctrl - kTailGroupCount * kGroupWidth;
-                    group_type group(ctrl), end_group(end_ctrl);
-                    slot_type * slot_base = old_slots;
-                    for (; group < end_group; ++group) {
-                        // Prefetch for read old ctrl
-                        jstd::CPU_Prefetch_Read_T0(PtrOffset(group.ctrl(), kPrefetchCtrlOffset));
-
-                        // Prefetch for read old slot
-                        if (kSlotSetp < 64) {
-                            // sizeof(value_type) = [1, 4)
-                            jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 0));
-                        } else {
-                            if (kSlotSetp >= 64 * 1) {   // >= 64
-                                // sizeof(value_type) = [4, 8)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 0));
-                            }
-                            if (kSlotSetp >= 64 * 2) {   // >= 128
-                                // sizeof(value_type) = [8, 12)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 1));
-                            }
-                            if (kSlotSetp >= 64 * 3) {   // >= 192
-                                // sizeof(value_type) = [12, 16)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 2));
-                            }
-                            if (kSlotSetp >= 64 * 4) {   // >= 256
-                                // sizeof(value_type) = [16, 20)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 3));
-                            }
-                            if (kSlotSetp >= 64 * 5) {   // >= 320
-                                // sizeof(value_type) = [20, 24)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 4));
-                            }
-                            if (kSlotSetp >= 64 * 6) {   // >= 384
-                                // sizeof(value_type) = [24, 28)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 5));
-                            }
-                            if (kSlotSetp >= 64 * 7) {   // >= 448
-                                // sizeof(value_type) = [28, 32)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 6));
-                            }
-                            if (kSlotSetp >= 64 * 8) {   // >= 512
-                                // sizeof(value_type) = [32, 36)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 7));
-                            }
-                            if (kSlotSetp >= 64 * 9) {   // >= 576
-                                // sizeof(value_type) = [36, 40)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 8));
-                            }
-                            if (kSlotSetp >= 64 * 10) {   // >= 640
-                                // sizeof(value_type) = [40, 44)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 9));
-                            }
-                            if (kSlotSetp >= 64 * 11) {   // >= 704
-                                // sizeof(value_type) = [44, 48)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 10));
-                            }
-                            if (kSlotSetp >= 64 * 12) {   // >= 768
-                                // sizeof(value_type) = [48, 52)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 11));
-                            }
-                            if (kSlotSetp >= 64 * 13) {   // >= 832
-                                // sizeof(value_type) = [52, 56)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 12));
+            // Nothing has been moved until the new table is known to have room for every element.
+            this->create_table(new_capacity);
+
+            size_type index = 0;
+            try {
+                if (!kIsIndirectKV) {
+                    // kIsIndirectKV = false
+                    if (old_ctrls != default_empty_ctrls()) {
+                        for (; index < old_max_slot_capacity; index++) {
+                            if (old_ctrls[index].isUsed()) {
+                                slot_type * old_slot = old_slots + index;
+                                if (!kNeedStoreHash)
+                                    this->insert_no_grow(old_slot);
+                                else
+                                    this->insert_no_grow(old_slot, old_ctrls[index].getHash());
+                                this->destroy_slot(old_slot);
                             }
-                            if (kSlotSetp >= 64 * 14) {   // >= 896
-                                // sizeof(value_type) = [56, 60)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 13));
-                            }
-                            if (kSlotSetp >= 64 * 15) {   // >= 960
-                                // sizeof(value_type) = [60, 64)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 14));
-                            }
-                            if (kSlotSetp >= 64 * 16) {   // >= 1024
-                                // sizeof(value_type) = [64, Max)
-                                jstd::CPU_Prefetch_Read_T0(PtrOffset(slot_base, kPrefetchOffset + 64 * 15));
-                            }
-                        }
-
-                        std::uint32_t maskUsed = group.matchUsed();
-                        while (maskUsed != 0) {
-                            size_type pos = BitUtils::bsf32(maskUsed);
-                            maskUsed = BitUtils::clearLowBit32(maskUsed);
-                            size_type index = group.index(0, pos);
-                            slot_type * old_slot = slot_base + index;
-                            this->insert_no_grow(old_slot);
-                            this->destroy_slot(old_slot);
-                        }
-                        slot_base += kGroupWidth;
-                    }
-
-                    group_type last_group(last_ctrl);
-                    for (; group < last_group; ++group) {
-                        std::uint32_t maskUsed = group.matchUsed();
-                        while (maskUsed != 0) {
-                            size_type pos = BitUtils::bsf32(maskUsed);
-                            maskUsed = BitUtils::clearLowBit32(maskUsed);
-                            size_type index = group.index(0, pos);
-                            slot_type * old_slot = slot_base + index;
-                            this->insert_no_grow(old_slot);
-                            this->destroy_slot(old_slot);
                         }
-                        slot_base += kGroupWidth;
                     }
-
-#else // !ROBIN_REHASH_READ_PREFETCH
-
-                    ctrl_type * ctrl = old_ctrls;
-                    ctrl_type * last_ctrl = old_ctrls + old_group_count * kGroupWidth;
-                    group_type group(ctrl), last_group(last_ctrl);
-                    slot_type * slot_base = old_slots;
-
-                    for (; group < last_group; ++group) {
-                        std::uint32_t maskUsed = group.matchUsed();
-                        while (maskUsed != 0) {
-                            size_type pos = BitUtils::bsf32(maskUsed);
-                            maskUsed = BitUtils::clearLowBit32(maskUsed);
-                            size_type index = group.index(0, pos);
-                            slot_type * old_slot = slot_base + index;
-                            this->insert_no_grow(old_slot);
-                            this->destroy_slot(old_slot);
-                        }
-                        slot_base += kGroupWidth;
-                    }
-
-#endif // ROBIN_REHASH_READ_PREFETCH
-
-                } else if (old_ctrls != default_empty_ctrls()) {
-                    ctrl_type * last_ctrl = old_ctrls + old_max_slot_capacity;
-                    slot_type * old_slot = old_slots;
-                    for (ctrl_type * ctrl = old_ctrls; ctrl != last_ctrl; ctrl++) {
-                        if (likely(ctrl->isUsed())) {
-                            if (!kNeedStoreHash)
-                                this->insert_no_grow(old_slot);
-                            else
-                                this->insert_no_grow(old_slot, ctrl->getHash());
-                            this->destroy_slot(old_slot);
-                        }
-                        old_slot++;
-                    }
-                }
-            } else {
-#if 1
-                // kIsIndirectKV = true
-                if (old_ctrls != default_empty_ctrls()) {
-                    slot_type * last_slot = old_slots + old_slot_size;
-                    for (slot_type * old_slot = old_slots; old_slot != last_slot; old_slot++) {
-                        this->indirect_insert_no_grow(old_slot);
+                } else {
+                    // kIsIndirectKV = true, the ctrls have already been placed by create_table().
+                    for (; index < old_slot_size; index++) {
+                        slot_type * old_slot = old_slots + index;
+                        SlotPolicyTraits::construct(&this->allocator_, this->slot_at(index), old_slot);
+                        this->slot_size_++;
                         this->destroy_slot(old_slot);
                     }
                 }
-#else
-                // kIsIndirectKV = true
-                if (old_slot_capacity >= kGroupWidth) {
-                    ctrl_type * ctrl = old_ctrls;
-                    ctrl_type * last_ctrl = old_ctrls + old_group_count * kGroupWidth;
-                    group_type group(ctrl), last_group(last_ctrl);
-
-                    for (; group < last_group; ++group) {
-                        std::uint32_t maskUsed = group.matchUsed();
-                        while (maskUsed != 0) {
-                            size_type pos = BitUtils::bsf32(maskUsed);
-                            maskUsed = BitUtils::clearLowBit32(maskUsed);
-                            size_type index = group.index(0, pos);
-                            ctrl_type * ctrl = group.ctrl() + index;
-                            assert(!ctrl->isEmpty());
-                            size_type slot_index = ctrl->getIndex();
-                            slot_type * old_slot = old_slots + slot_index;
-                            this->indirect_insert_no_grow(old_slot, ctrl->getHash());
-                            this->destroy_slot(old_slot);
-                        }
+            } catch (...) {
+                // Keep the elements that have been moved, the others are lost.
+                if (!kIsIndirectKV) {
+                    for (; index < old_max_slot_capacity; index++) {
+                        if (old_ctrls[index].isUsed())
+                            this->destroy_slot(old_slots + index);
                     }
-                } else if (old_ctrls != default_empty_ctrls()) {
-                    ctrl_type * last_ctrl = old_ctrls + old_max_slot_capacity;
-                    for (ctrl_type * ctrl = old_ctrls; ctrl != last_ctrl; ctrl++) {
-                        if (likely(ctrl->isUsed())) {
-                            size_type slot_index = ctrl->getIndex();
-                            slot_type * old_slot = old_slots + slot_index;
-                            this->indirect_insert_no_grow(old_slot, ctrl->getHash());
-                            this->destroy_slot(old_slot);
-                        }
+                } else {
+                    this->indirect_close_gaps(index);
+                    for (; index < old_slot_size; index++) {
+                        this->destroy_slot(old_slots + index);
                     }
                 }
-#endif
+                this->destroy_table(old_ctrls, old_slots, old_group_count, old_max_slot_capacity);
+                throw;
             }
 
             assert(this->slot_size() == old_slot_size);
 
-            if (old_ctrls != this->default_empty_ctrls()) {
-                size_type old_max_ctrl_capacity = (old_group_count + 1) * kGroupWidth;
+            this->destroy_table(old_ctrls, old_slots, old_group_count, old_max_slot_capacity);
+        }
+    }
+
+    void destroy_table(ctrl_type * ctrls, slot_type * slots,
+                       size_type group_count, size_type max_slot_capacity) noexcept {
+        if (ctrls != this_type::default_empty_ctrls()) {
+            size_type max_ctrl_capacity = (group_count + 1) * kGroupWidth;
 #if ROBIN_USE_SEPARATE_SLOTS
-                CtrlAllocTraits::deallocate(this->ctrl_allocator_, old_ctrls, old_max_ctrl_capacity);
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, ctrls, max_ctrl_capacity);
 #else
-                size_type total_alloc_size = this->TotalAllocSize<kSlotAlignment>(
-                                                   old_max_ctrl_capacity, old_max_slot_capacity);
-                CtrlAllocTraits::deallocate(this->ctrl_allocator_, old_ctrls, total_alloc_size);
+            size_type total_alloc_size = this->TotalAllocSize<kSlotAlignment>(
+                                               max_ctrl_capacity, max_slot_capacity);
+            CtrlAllocTraits::deallocate(this->ctrl_allocator_, ctrls, total_alloc_size);
 #endif
-            }
+        }
 
 #if ROBIN_USE_SEPARATE_SLOTS
-            if (old_slots != nullptr) {
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_max_slot_capacity);
-            }
+        if (slots != nullptr) {
+            SlotAllocTraits::deallocate(this->slot_allocator_, slots, max_slot_capacity);
+        }
 #endif
+    }
+
+    // Replace the table by an empty one that has room for every element of the old one,
+    // the elements stay where they are. If it throws, nothing has been changed.
+    void create_table(size_type new_capacity) {
+        ctrl_type * old_ctrls = this->ctrls_;
+        slot_type * old_slots = this->slots_;
+        slot_type * old_last_slot = this->last_slot_;
+        size_type old_slot_size = this->slot_size_;
+        size_type old_slot_mask = this->slot_mask_;
+        size_type old_max_lookups = this->max_lookups_;
+        size_type old_slot_threshold = this->slot_threshold_;
+        size_type old_max_slot_capacity = this->max_slot_capacity();
+
+        for (;;) {
+            this->create_slots<false>(new_capacity);
+
+            std::exception_ptr error;
+            bool is_placed = false;
+            try {
+                is_placed = this->place_ctrls(old_ctrls, old_slots, old_slot_size, old_max_slot_capacity);
+            } catch (...) {
+                error = std::current_exception();
+            }
+
+            if (is_placed) {
+                if (!kIsIndirectKV) {
+                    this->clear_ctrls(this->ctrls(), this->slot_capacity(),
+                                      this->max_lookups(), this->group_count());
+                }
+                return;
+            }
+
+            this->destroy_table(this->ctrls_, this->slots_, this->group_count(), this->max_slot_capacity());
+
+            this->ctrls_ = old_ctrls;
+            this->slots_ = old_slots;
+            this->last_slot_ = old_last_slot;
+            this->slot_size_ = old_slot_size;
+            this->slot_mask_ = old_slot_mask;
+            this->max_lookups_ = old_max_lookups;
+            this->slot_threshold_ = old_slot_threshold;
+
+            if (error)
+                std::rethrow_exception(error);
+
+            new_capacity *= 2;
+        }
+    }
+
+    // Place the ctrls of all old elements in the new table, return false if there is not enough room.
+    bool place_ctrls(const ctrl_type * old_ctrls, const slot_type * old_slots,
+                     size_type old_slot_size, size_type old_max_slot_capacity) {
+        if (old_ctrls != this_type::default_empty_ctrls()) {
+            size_type old_count = (!kIsIndirectKV) ? old_max_slot_capacity : old_slot_size;
+            for (size_type index = 0; index < old_count; index++) {
+                if (kIsIndirectKV || old_ctrls[index].isUsed()) {
+                    if (!this->place_ctrl(old_slots[index].value.first, index))
+                        return false;
+                }
+            }
+        }
+        return true;
+    }
+
+    template <typename KeyT>
+    bool place_ctrl(const KeyT & key, size_type slot_index) {
+        hash_code_t hash_code = this->get_hash(key);
+        ctrl_type * ctrl;
+        ctrl_type dist_and_0;
+        if (!kIsIndirectKV)
+            ctrl = this->find_failed(hash_code, dist_and_0).first;
+        else
+            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+
+        ctrl_type dist_and_hash(dist_and_0, this->get_ctrl_hash(hash_code));
+        if (!this->has_room(ctrl, dist_and_hash))
+            return false;
+
+        if (kIsIndirectKV)
+            dist_and_hash.setIndex(static_cast<slot_index_t>(slot_index));
+
+        if (ctrl->isEmpty()) {
+            this->setUsedCtrl(ctrl, dist_and_hash);
+            return true;
+        } else {
+            return (this->indirect_insert_to_place<true>(ctrl, dist_and_hash) == kIsNotExists);
         }
     }
 
@@ -5475,16 +5409,12 @@ private:
             assert(slot < this->last_slot());
         }
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+        dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
 
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
+        if (this->need_grow() || !this->has_room(ctrl, dist_and_hash)) {
+            // The size of slot reach the slot threshold or hashmap is full.
+            return { nullptr, kNeedGrow };
         }
-
-        dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
         //return { slot, kIsNotExists };
 #else
         const slot_type * last_slot;
@@ -5603,15 +5533,14 @@ InsertOrGrow_Start:
             assert(ctrl <= last_ctrl);
         }
 
-        if (this->need_grow() || (dist_and_0.getDist() > static_cast<udist_type>(kMaxDist))) {
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
+        dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
 
-            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
+        if (this->need_grow() || !this->has_room(ctrl, dist_and_hash)) {
+            // The size of slot reach the slot threshold or hashmap is full.
+            return { nullptr, kNeedGrow };
         }
 
         size_type new_slot_index = this->slot_size_;
-        dist_and_hash.mergeHash(dist_and_0, ctrl_hash);
         dist_and_hash.setIndex(static_cast<slot_index_t>(new_slot_index));
 
         slot_type * new_slot = this->slot_at(new_slot_index);
@@ -5662,6 +5591,21 @@ InsertOrGrow_Start:
         return ctrl;
     }
 
+    // Is there room for a new element at [ctrl], when the elements after it give way?
+    JSTD_FORCED_INLINE
+    bool has_room(const ctrl_type * ctrl, const ctrl_type & dist_and_hash) const {
+        const ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
+        size_type dist = dist_and_hash.getDist();
+        while (dist < this->max_lookups() && ctrl < last_ctrl) {
+            if (ctrl->isEmpty())
+                return true;
+            dist = (std::min)(dist, size_type(ctrl->getDist()));
+            ctrl++;
+            dist++;
+        }
+        return false;
+    }
+
     template <bool isRehashing>
     JSTD_FORCED_INLINE
     FindResult insert_to_place(ctrl_type * insert_ctrl, slot_type * insert_slot, const ctrl_type & dist_and_hash) {
@@ -5828,6 +5772,69 @@ InsertOrGrow_Start:
 
     ////////////////////////////////////////////////////////////////////////////////////////////
 
+    // An element outside of the table.
+    class temp_slot {
+    private:
+        this_type & owner_;
+        alignas(slot_type) unsigned char raw_[sizeof(slot_type)];
+
+    public:
+        template <typename ... Args>
+        explicit temp_slot(this_type & owner, Args && ... args) : owner_(owner) {
+            SlotPolicyTraits::construct(&owner.allocator_, this->slot(), std::forward<Args>(args)...);
+        }
+        temp_slot(const temp_slot &) = delete;
+        ~temp_slot() {
+            SlotPolicyTraits::destroy(&this->owner_.allocator_, this->slot());
+        }
+
+        slot_type * slot() {
+            return reinterpret_cast<slot_type *>(&this->raw_);
+        }
+    };
+
+    // Construct the new element in the [slot] that find_and_insert() has prepared.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(slot_type * slot, Args && ... args) {
+        try {
+            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->release_new_slot(slot);
+            throw;
+        }
+        this->slot_size_++;
+    }
+
+    // Undo find_and_insert(), the new element doesn't exist.
+    JSTD_NO_INLINE
+    void release_new_slot(slot_type * slot) {
+        if (!kIsIndirectKV) {
+            this->close_gap(this->index_of(slot));
+        } else {
+            this->indirect_close_gaps(this->index_of(slot));
+        }
+    }
+
+    // The arguments may refer to elements of this map, so the new element
+    // must be constructed before the table is replaced.
+    template <typename ... Args>
+    JSTD_NO_INLINE
+    std::pair<iterator, bool> grow_and_emplace(Args && ... args) {
+        temp_slot holder(*this, std::forward<Args>(args)...);
+        return this->grow_and_insert(holder.slot());
+    }
+
+    std::pair<iterator, bool> grow_and_insert(slot_type * tmp_slot) {
+        std::pair<slot_type *, bool> find_info;
+        do {
+            this->grow_if_necessary();
+            find_info = this->unique_find_and_insert(tmp_slot->value.first);
+        } while (find_info.second);
+        this->construct_new_slot(find_info.first, tmp_slot);
+        return { this->iterator_at(find_info.first), true };
+    }
+
     template <bool AlwaysUpdate>
     std::pair<iterator, bool> emplace_impl(const actual_value_type & value) {
         auto find_info = this->find_and_insert(value.first);
@@ -5837,8 +5844,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, value);
-            this->slot_size_++;
+            this->construct_new_slot(slot, value);
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -5848,8 +5854,8 @@ InsertOrGrow_Start:
             }
             return { this->iterator_at(slot), false };
         } else {
-            this->grow_if_necessary();
-            return this->emplace_impl<AlwaysUpdate>(value);
+            assert(is_exists == kNeedGrow);
+            return this->grow_and_emplace(value);
         }
     }
 
@@ -5862,8 +5868,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot, std::forward<actual_value_type>(value));
-            this->slot_size_++;
+            this->construct_new_slot(slot, std::forward<actual_value_type>(value));
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -5878,8 +5883,7 @@ InsertOrGrow_Start:
             return { this->iterator_at(slot), false };
         } else {
             assert(is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->emplace_impl<AlwaysUpdate>(std::forward<actual_value_type>(value));
+            return this->grow_and_emplace(std::forward<actual_value_type>(value));
         }
     }
 
@@ -5901,10 +5905,9 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::forward<KeyT>(key),
                                         std::forward<MappedT>(value));
-            this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -5921,10 +5924,7 @@ InsertOrGrow_Start:
             return { this->iterator_at(slot), false };
         } else {
             assert(is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->emplace_impl<AlwaysUpdate, KeyT, MappedT>(
-                    std::forward<KeyT>(key), std::forward<MappedT>(value)
-                );
+            return this->grow_and_emplace(std::forward<KeyT>(key), std::forward<MappedT>(value));
         }
     }
 
@@ -5945,11 +5945,10 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -5961,10 +5960,9 @@ InsertOrGrow_Start:
             return { this->iterator_at(slot), false };
         } else {
             assert (is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->emplace(std::piecewise_construct,
-                                    std::forward_as_tuple(std::forward<KeyT>(key)),
-                                    std::forward_as_tuple(std::forward<Args>(args)...));
+            return this->grow_and_emplace(std::piecewise_construct,
+                                          std::forward_as_tuple(std::forward<KeyT>(key)),
+                                          std::forward_as_tuple(std::forward<Args>(args)...));
         }
     }
 
@@ -5988,11 +5986,10 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward<std::tuple<Ts1...>>(first),
                                         std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -6004,10 +6001,9 @@ InsertOrGrow_Start:
             return { this->iterator_at(slot), false };
         } else {
             assert (is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->emplace(std::piecewise_construct,
-                                    std::forward<std::tuple<Ts1...>>(first),
-                                    std::forward<std::tuple<Ts2...>>(second));
+            return this->grow_and_emplace(std::piecewise_construct,
+                                          std::forward<std::tuple<Ts1...>>(first),
+                                          std::forward<std::tuple<Ts2...>>(second));
         }
     }
 
@@ -6021,12 +6017,8 @@ InsertOrGrow_Start:
                !std::is_constructible<key_type, First &&>::value)>::type * = nullptr,
               typename ... Args>
     std::pair<iterator, bool> emplace_impl(First && first, Args && ... args) {
-        alignas(slot_type) unsigned char raw[sizeof(slot_type)];
-        slot_type * tmp_slot = reinterpret_cast<slot_type *>(&raw);
-
-        SlotPolicyTraits::construct(&this->allocator_, tmp_slot,
-                                    std::forward<First>(first),
-                                    std::forward<Args>(args)...);
+        temp_slot holder(*this, std::forward<First>(first), std::forward<Args>(args)...);
+        slot_type * tmp_slot = holder.slot();
 
         auto find_info = this->find_and_insert(tmp_slot->value.first);
         slot_type * slot = find_info.first;
@@ -6035,8 +6027,7 @@ InsertOrGrow_Start:
             // The key to be inserted is not exists.
             assert(slot != nullptr);
 
-            SlotPolicyTraits::transfer(&this->allocator_, slot, tmp_slot);
-            this->slot_size_++;
+            this->construct_new_slot(slot, tmp_slot);
             return { this->iterator_at(slot), true };
         } else if (is_exists > kIsNotExists) {
             // The key to be inserted already exists.
@@ -6044,15 +6035,10 @@ InsertOrGrow_Start:
             if (AlwaysUpdate) {
                 slot->value.second = std::move(tmp_slot->value.second);
             }
-            SlotPolicyTraits::destroy(&this->allocator_, tmp_slot);
             return { this->iterator_at(slot), false };
         } else {
             assert (is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            if (kIsLayoutCompatible)
-                return this->emplace(std::move(tmp_slot->mutable_value));
-            else
-                return this->emplace(std::move(tmp_slot->value));
+            return this->grow_and_insert(tmp_slot);
         }
     }
 
@@ -6066,15 +6052,15 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(key),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         } else if (is_exists < kIsNotExists) {
             assert(is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->try_emplace_impl(key, std::forward<Args>(args)...);
+            return this->grow_and_emplace(std::piecewise_construct,
+                                          std::forward_as_tuple(key),
+                                          std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot), (is_exists == kIsNotExists) };
     }
@@ -6087,16 +6073,15 @@ InsertOrGrow_Start:
         if (is_exists == kIsNotExists) {
             // The key to be inserted is not exists.
             assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->allocator_, slot,
+            this->construct_new_slot(slot,
                                         std::piecewise_construct,
                                         std::forward_as_tuple(std::forward<KeyT>(key)),
                                         std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
         } else if (is_exists < kIsNotExists) {
             assert(is_exists == kNeedGrow);
-            this->grow_if_necessary();
-            return this->try_emplace_impl(std::forward<KeyT>(key),
-                                          std::forward<Args>(args)...);
+            return this->grow_and_emplace(std::piecewise_construct,
+                                          std::forward_as_tuple(std::forward<KeyT>(key)),
+                                          std::forward_as_tuple(std::forward<Args>(args)...));
         }
         return { this->iterator_at(slot), (is_exists == kIsNotExists) };
     }
@@ -6230,8 +6215,7 @@ InsertOrGrow_Start:
     void insert_no_grow(slot_type * old_slot) {
         slot_type * new_slot = this->find_and_insert_no_grow(old_slot->value.first);
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(new_slot, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -6239,8 +6223,7 @@ InsertOrGrow_Start:
     void insert_no_grow(slot_type * old_slot, std::uint8_t ctrl_hash) {
         slot_type * new_slot = this->find_and_insert_no_grow(old_slot->value.first, ctrl_hash);
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(new_slot, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -6248,8 +6231,7 @@ InsertOrGrow_Start:
     void indirect_insert_no_grow(slot_type * old_slot) {
         slot_type * new_slot = this->indirect_find_and_insert_no_grow(old_slot->value.first);
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(new_slot, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -6257,8 +6239,7 @@ InsertOrGrow_Start:
     void indirect_insert_no_grow(slot_type * old_slot, std::uint8_t ctrl_hash) {
         slot_type * new_slot = this->indirect_find_and_insert_no_grow(old_slot->value.first, ctrl_hash);
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(new_slot, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -6275,64 +6256,38 @@ InsertOrGrow_Start:
     JSTD_NO_INLINE
     std::pair<slot_type *, bool>
     unique_find_and_insert(const KeyT & key, hash_code_t hash_code) {
-        size_type slot_index = this->index_for_hash(hash_code);
-        std::uint8_t ctrl_hash = this->get_ctrl_hash(hash_code);
-
-        ctrl_type * ctrl = this->ctrl_at(slot_index);
-        slot_type * slot = this->slot_at(slot_index);
+        ctrl_type * ctrl;
         ctrl_type dist_and_0;
+        if (!kIsIndirectKV)
+            ctrl = this->find_failed(hash_code, dist_and_0).first;
+        else
+            ctrl = this->indirect_find_failed(hash_code, dist_and_0);
 
-        while (dist_and_0.value <= ctrl->value) {
-            dist_and_0.incDist();
-            ctrl++;
-        }
+        ctrl_type dist_and_hash(dist_and_0, this->get_ctrl_hash(hash_code));
 
-        if (this->need_grow() || (dist_and_0.uvalue >= this->max_distance())) {
+        if (this->need_grow() || !this->has_room(ctrl, dist_and_hash)) {
             // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
-
-            auto find_info = this->find_failed(hash_code, dist_and_0);
-            ctrl = find_info.first;
-            slot = find_info.second;
-        } else {
-            slot += dist_and_0.dist;
-        }
-
-        ctrl_type dist_and_hash(dist_and_0, ctrl_hash);
-
-#if 0
-        slot_type * last_slot = this->last_slot();
-
-        // Find the first empty slot and insert
-        while (slot < last_slot) {
-            group_type group(ctrl);
-            std::uint32_t maskEmpty = group.matchEmptyAndDistance(dist_and_hash.dist);
-            if (maskEmpty != 0) {
-                // Found a [EmptyEntry] to insert
-                size_type pos = BitUtils::bsf32(maskEmpty);
-                size_type index = group.index(0, pos);
-                ctrl += index;
-                slot += index;
-                dist_and_hash.dist += std::uint8_t(index);
-                goto Insert_To_Slot;
-            }
-            dist_and_hash.incDist(kGroupWidth);
-            ctrl += kGroupWidth;
-            slot += kGroupWidth;
-            assert(dist_and_hash.value >= 0 && dist_and_hash.uvalue < this->max_distance());
+            return { nullptr, true };
         }
 
-        return { nullptr, false };
-
-Insert_To_Slot:
-#endif
-        if (ctrl->isEmpty()) {
-            this->setUsedCtrl(ctrl, dist_and_hash);
-            return { slot, false };
+        slot_type * slot;
+        FindResult neednt_grow = kIsNotExists;
+        if (!kIsIndirectKV) {
+            slot = this->slot_at(ctrl);
+            if (ctrl->isEmpty())
+                this->setUsedCtrl(ctrl, dist_and_hash);
+            else
+                neednt_grow = this->insert_to_place<false>(ctrl, slot, dist_and_hash);
         } else {
-            FindResult neednt_grow = this->insert_to_place<false>(ctrl, slot, dist_and_hash);
-            return { slot, (neednt_grow == kNeedGrow) };
+            size_type slot_index = this->slot_size_;
+            slot = this->slot_at(slot_index);
+            dist_and_hash.setIndex(static_cast<slot_index_t>(slot_index));
+            if (ctrl->isEmpty())
+                this->setUsedCtrl(ctrl, dist_and_hash);
+            else
+                neednt_grow = this->indirect_insert_to_place<false>(ctrl, dist_and_hash);
         }
+        return { slot, (neednt_grow == kNeedGrow) };
     }
 
     void unique_insert(const value_type & value) {
@@ -6346,8 +6301,7 @@ Insert_To_Slot:
             return;
         }
 
-        SlotPolicyTraits::construct(&this->allocator_, new_slot, value);
-        this->slot_size_++;
+        this->construct_new_slot(new_slot, value);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -6363,12 +6317,10 @@ Insert_To_Slot:
         }
 
         if (kIsLayoutCompatible) {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot,
-                                        std::move(*reinterpret_cast<mutable_value_type *>(&value)));
+            this->construct_new_slot(new_slot, std::move(*reinterpret_cast<mutable_value_type *>(&value)));
         } else {
-            SlotPolicyTraits::construct(&this->allocator_, new_slot, std::move(value));
+            this->construct_new_slot(new_slot, std::move(value));
         }
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -6406,6 +6358,17 @@ Insert_To_Slot:
         assert(curr_ctrl->isUsed());
 
         this->destroy_slot(curr_slot);
+        this->close_gap(to_erase_idx);
+
+        assert(this->slot_size_ > 0);
+        this->slot_size_--;
+    }
+
+    // Backward shift the elements after the position [index], whose element doesn't exist any more.
+    JSTD_FORCED_INLINE
+    void close_gap(size_type index) {
+        ctrl_type * curr_ctrl = this->ctrl_at(index);
+        slot_type * curr_slot = this->slot_at(index);
 
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
         slot_type * next_slot = curr_slot + std::ptrdiff_t(1);
@@ -6426,20 +6389,15 @@ Insert_To_Slot:
         }
 
         this->setUnusedCtrl(curr_ctrl);
-
-        assert(this->slot_size_ > 0);
-        this->slot_size_--;
     }
 
-    template <typename KeyT>
     JSTD_FORCED_INLINE
-    ctrl_type * find_ctrl(const KeyT & key, size_type target_slot_index) {
+    ctrl_type * find_ctrl(hash_code_t hash_code, size_type target_slot_index) {
         if (!kIsIndirectKV) {
             assert(false);
             return nullptr;
         }
 
-        hash_code_t hash_code = this->get_hash(key);
         size_type ctrl_index = this->index_for_hash(hash_code);
         std::uint8_t ctrl_hash = this->get_ctrl_hash(hash_code);
 
@@ -6461,6 +6419,47 @@ Insert_To_Slot:
         size_type erase_slot_index = curr_ctrl->getIndex();
         assert(curr_ctrl->isUsed());
 
+        assert(this->slot_size_ > 0);
+        size_type last_slot_index = this->slot_size_ - 1;
+        slot_type * last_slot = this->slot_at(last_slot_index);
+
+        // Get the hash before anything is changed, because the hash function may throw.
+        hash_code_t last_hash_code = 0;
+        if (erase_slot_index != last_slot_index) {
+            last_hash_code = this->get_hash(last_slot->key);
+        }
+
+        this->indirect_close_gap(to_erase_idx);
+        this->slot_size_--;
+
+        if (erase_slot_index != last_slot_index) {
+            slot_type * erase_slot = this->slot_at(erase_slot_index);
+
+            ctrl_type * last_key_ctrl = this->find_ctrl(last_hash_code, last_slot_index);
+            assert(last_key_ctrl != nullptr);
+            last_key_ctrl->setIndex(static_cast<slot_index_t>(erase_slot_index));
+
+            this->swap_slot(erase_slot, last_slot);
+        }
+        this->destroy_slot(last_slot);
+    }
+
+    // Remove the ctrls of the slots at and after [slot_index], whose elements don't exist any more.
+    void indirect_close_gaps(size_type slot_index) {
+        size_type ctrl_index = 0;
+        while (ctrl_index < this->max_slot_capacity()) {
+            ctrl_type * ctrl = this->ctrl_at(ctrl_index);
+            if (ctrl->isUsed() && (ctrl->getIndex() >= slot_index))
+                this->indirect_close_gap(ctrl_index);
+            else
+                ctrl_index++;
+        }
+    }
+
+    // Backward shift the ctrls after the position [index].
+    JSTD_FORCED_INLINE
+    void indirect_close_gap(size_type index) {
+        ctrl_type * curr_ctrl = this->ctrl_at(index);
         ctrl_type * last_ctrl = this->ctrls() + this->max_slot_capacity();
         ctrl_type * next_ctrl = curr_ctrl + std::ptrdiff_t(1);
 
@@ -6477,23 +6476,6 @@ Insert_To_Slot:
         }
 
         this->setUnusedCtrl(curr_ctrl);
-
-        assert(this->slot_size_ > 0);
-        this->slot_size_--;
-
-        size_type last_slot_index = this->slot_size_;
-        slot_type * last_slot = this->slot_at(last_slot_index);
-
-        if (erase_slot_index != last_slot_index) {
-            slot_type * erase_slot = this->slot_at(erase_slot_index);
-
-            ctrl_type * last_key_ctrl = this->find_ctrl(last_slot->key, last_slot_index);
-            assert(last_key_ctrl != nullptr);
-            last_key_ctrl->setIndex(static_cast<slot_index_t>(erase_slot_index));
-
-            this->swap_slot(erase_slot, last_slot);
-        }
-        this->destroy_slot(last_slot);
     }
 
     // TODO: Optimize this assuming *this and other don't overlap.
-- 
2.43.0


From 4a6afdbc94a2cc14eb1fc0fa33a035b0a464882c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:30 +0000
Subject: [PATCH 14/57] fix: robin_hash_map::insert(P &&) works with move-only
 mapped types

---
 src/jstd/hashmap/robin_hash_map.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index e72f10d..e305413 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5874,11 +5874,7 @@ InsertOrGrow_Start:
             // The key to be inserted already exists.
             assert(is_exists == kIsExists);
             if (AlwaysUpdate) {
-                static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
-                if (is_rvalue_ref)
-                    slot->value.second = std::move(value.second);
-                else
-                    slot->value.second = value.second;
+                slot->value.second = std::move(value.second);
             }
             return { this->iterator_at(slot), false };
         } else {
-- 
2.43.0


From 286a7efb411fd85e2ca9507ce69bc01bb2ca0e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 15/57] fix: group15/16_flat_map::insert(first, last) inserts
 every element of the range

---
 src/jstd/hashmap/group15_flat_map.hpp | 2 +-
 src/jstd/hashmap/group16_flat_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index e97a273..475d41e 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -458,7 +458,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 7dea593..6180de4 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -455,7 +455,7 @@ public:
     JSTD_FORCED_INLINE
     void insert(InputIter first, InputIter last) {
         for (InputIter pos = first; pos != last; ++pos) {
-            table_.emplace(*first);
+            table_.emplace(*pos);
         }
     }
 
-- 
2.43.0


From 1db2a85f70a1fb5606d0c8c40cce6bbc42e3cb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 16/57] fix: group15/16_flat_map::insert() of a braced pair and
 with a hint

---
 src/jstd/hashmap/group15_flat_map.hpp | 37 ++-------------------------
 src/jstd/hashmap/group16_flat_map.hpp | 37 ++-------------------------
 2 files changed, 4 insertions(+), 70 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 475d41e..8372e92 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -394,29 +394,13 @@ public:
     ///
     /// insert(value)
     ///
-    JSTD_FORCED_INLINE
-    std::pair<iterator, bool> insert(const value_type & value) {
-        return table_.emplace(value);
-    }
-
-    JSTD_FORCED_INLINE
-    std::pair<iterator, bool> insert(value_type && value) {
-        return table_.emplace(std::move(value));
-    }
-
-    JSTD_FORCED_INLINE
-    std::pair<iterator, bool> insert(const init_type & value) {
-        return table_.emplace(value);
-    }
-
+    // The only non-template overload, a braced-init-list always selects this one.
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert(init_type && value) {
         return table_.emplace(std::move(value));
     }
 
     template <typename P, typename std::enable_if<
-              (!jstd::is_same_ex<P, value_type>::value &&
-               !jstd::is_same_ex<P, init_type >::value) &&
                (std::is_constructible<value_type, P &&>::value ||
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
@@ -424,34 +408,17 @@ public:
         return table_.emplace(std::forward<P>(value));
     }
 
-    JSTD_FORCED_INLINE
-    iterator insert(const_iterator hint, const value_type & value) {
-        return table_.emplace(value).first;
-    }
-
-    JSTD_FORCED_INLINE
-    iterator insert(const_iterator hint, value_type && value) {
-        return table_.emplace(std::move(value)).first;
-    }
-
-    JSTD_FORCED_INLINE
-    iterator insert(const_iterator hint, const init_type & value) {
-        return table_.emplace(value).first;
-    }
-
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, init_type && value) {
         return table_.emplace(std::move(value)).first;
     }
 
     template <typename P, typename std::enable_if<
-              (!jstd::is_same_ex<P, value_type>::value &&
-               !jstd::is_same_ex<P, init_type >::value) &&
                (std::is_constructible<value_type, P &&>::value ||
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 6180de4..d16c97f 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -391,29 +391,13 @@ public:
     ///
     /// insert(value)
     ///
-    JSTD_FORCED_INLINE
-    std::pair<iterator, bool> insert(const value_type & value) {
-        return table_.emplace(value);
-    }
-
-    JSTD_FORCED_INLINE
-    std::pair<iterator, bool> insert(value_type && value) {
-        return table_.emplace(std::move(value));
-    }
-
-    JSTD_FORCED_INLINE
-    std::pair<iterator, bool> insert(const init_type & value) {
-        return table_.emplace(value);
-    }
-
+    // The only non-template overload, a braced-init-list always selects this one.
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert(init_type && value) {
         return table_.emplace(std::move(value));
     }
 
     template <typename P, typename std::enable_if<
-              (!jstd::is_same_ex<P, value_type>::value &&
-               !jstd::is_same_ex<P, init_type >::value) &&
                (std::is_constructible<value_type, P &&>::value ||
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
@@ -421,34 +405,17 @@ public:
         return table_.emplace(std::forward<P>(value));
     }
 
-    JSTD_FORCED_INLINE
-    iterator insert(const_iterator hint, const value_type & value) {
-        return table_.emplace(value).first;
-    }
-
-    JSTD_FORCED_INLINE
-    iterator insert(const_iterator hint, value_type && value) {
-        return table_.emplace(std::move(value)).first;
-    }
-
-    JSTD_FORCED_INLINE
-    iterator insert(const_iterator hint, const init_type & value) {
-        return table_.emplace(value).first;
-    }
-
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, init_type && value) {
         return table_.emplace(std::move(value)).first;
     }
 
     template <typename P, typename std::enable_if<
-              (!jstd::is_same_ex<P, value_type>::value &&
-               !jstd::is_same_ex<P, init_type >::value) &&
                (std::is_constructible<value_type, P &&>::value ||
                 std::is_constructible<init_type,  P &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert(const_iterator hint, P && value) {
-        return table_.emplace(hint, std::forward<P>(value)).first;
+        return table_.emplace(std::forward<P>(value)).first;
     }
 
     template <typename InputIter>
-- 
2.43.0


From cda79deb2e75da50346403c191386f0b9e0e10e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 17/57] fix: group15/16_flat_map::insert_or_assign() compiles
 and moves rvalue keys only

---
 src/jstd/hashmap/group15_flat_map.hpp   | 12 ++++++------
 src/jstd/hashmap/group15_flat_table.hpp |  8 ++++----
 src/jstd/hashmap/group16_flat_map.hpp   | 12 ++++++------
 src/jstd/hashmap/group16_flat_table.hpp |  8 ++++----
 4 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 8372e92..818a8d8 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -439,13 +439,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -455,19 +455,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -477,7 +477,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 85724cb..38c21d0 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -922,25 +922,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index d16c97f..85ae358 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -436,13 +436,13 @@ public:
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value));
+        return table_.insert_or_assign(key, std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value));
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -452,19 +452,19 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return table_.template emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT, typename std::enable_if<
@@ -474,7 +474,7 @@ public:
               !std::is_convertible<KeyT, const_iterator>::value>::type * = nullptr>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return table_.template emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return table_.insert_or_assign(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 1292c06..81606f3 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -870,25 +870,25 @@ public:
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> insert_or_assign(KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value));
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value));
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, const key_type & key, MappedT && value) {
-        return this->emplace_impl<true>(key, std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(key, std::forward<MappedT>(value)).first;
     }
 
     template <typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, key_type && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value)).first;
     }
 
     template <typename KeyT, typename MappedT>
     JSTD_FORCED_INLINE
     iterator insert_or_assign(const_iterator hint, KeyT && key, MappedT && value) {
-        return this->emplace_impl<true>(std::move(key), std::forward<MappedT>(value))->first;
+        return this->emplace_impl<true>(std::forward<KeyT>(key), std::forward<MappedT>(value)).first;
     }
 
     ///
-- 
2.43.0


From 2e2c71198b78e085db6c193ab657c74ad8373293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 18/57] fix: group15/16_flat_map::try_emplace() with a hint
 returns an iterator

---
 src/jstd/hashmap/group15_flat_map.hpp | 10 +++++-----
 src/jstd/hashmap/group16_flat_map.hpp | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index 818a8d8..da08b72 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -540,13 +540,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(hint, key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -559,7 +559,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -571,9 +571,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index 85ae358..b6f719e 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -537,13 +537,13 @@ public:
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, const key_type & key, Args && ... args) {
-        return table_.try_emplace(hint, key, std::forward<Args>(args)...);
+        return table_.try_emplace(hint, key, std::forward<Args>(args)...).first;
     }
 
     template <typename ... Args>
     JSTD_FORCED_INLINE
     iterator try_emplace(const_iterator hint, key_type && key, Args && ... args) {
-        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::move(key), std::forward<Args>(args)...).first;
     }
 
     template <typename KeyT, typename ... Args>
@@ -556,7 +556,7 @@ public:
                             !std::is_convertible<KeyT, const_iterator>::value,
                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     // For compatibility with versions below C++17 that do not support T::is_transparent
@@ -568,9 +568,9 @@ public:
                              !std::is_same<key_type, KeyT>::value &&
                              !std::is_convertible<KeyT, iterator>::value &&
                              !std::is_convertible<KeyT, const_iterator>::value,
-                              std::pair<iterator, bool> >::type
+                              iterator >::type
     try_emplace(const_iterator hint, KeyT && key, Args && ... args) {
-        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...);
+        return table_.try_emplace(hint, std::forward<KeyT>(key), std::forward<Args>(args)...).first;
     }
 
     ///
-- 
2.43.0


From 1c82206b1d63154b8e769ca686deba5b2550d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 19/57] fix: group15/16_flat_map erase by iterator and by
 range, std::erase_if

---
 src/jstd/hashmap/flat_map_iterator15.hpp |  8 +++++-
 src/jstd/hashmap/group15_flat_map.hpp    | 32 +++++++++---------------
 src/jstd/hashmap/group15_flat_table.hpp  |  6 ++---
 src/jstd/hashmap/group16_flat_map.hpp    | 31 +++++++++--------------
 4 files changed, 34 insertions(+), 43 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_iterator15.hpp b/src/jstd/hashmap/flat_map_iterator15.hpp
index f31e104..b45f598 100644
--- a/src/jstd/hashmap/flat_map_iterator15.hpp
+++ b/src/jstd/hashmap/flat_map_iterator15.hpp
@@ -539,9 +539,15 @@ public:
     inline slot_type * slot() noexcept { return const_cast<slot_type *>(this->slot_); }
     inline const slot_type * slot() const noexcept { return this->slot_; }
 
+    inline locator_t locator() const noexcept {
+        std::uintptr_t ctrl = reinterpret_cast<std::uintptr_t>(this->ctrl());
+        return { reinterpret_cast<const group_type *>(ctrl & ~static_cast<std::uintptr_t>(kGroupWidth - 1)),
+                 static_cast<size_type>(ctrl % kGroupWidth), this->slot() };
+    }
+
     inline ssize_type index(const hashmap_type * hashmap) const noexcept {
         assert(hashmap != nullptr);
-        return hashmap->ctrl_at(this->ctrl());
+        return static_cast<ssize_type>(this->ctrl() - hashmap->ctrls());
     }
 
 private:
diff --git a/src/jstd/hashmap/group15_flat_map.hpp b/src/jstd/hashmap/group15_flat_map.hpp
index da08b72..95ec8fb 100644
--- a/src/jstd/hashmap/group15_flat_map.hpp
+++ b/src/jstd/hashmap/group15_flat_map.hpp
@@ -585,35 +585,27 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
         iterator iter = first;
-        if (JSTD_LIKELY(iter.slots() >= this->slots() &&
-                        iter.slots() < this->last_slot())) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (iter != last) {
+            iter = this->erase(iter);
         }
-        return { last };
+        return iter;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -622,7 +614,7 @@ public:
     JSTD_FORCED_INLINE
     size_type erase(InputIter first, InputIter last) {
         size_type num_deleted = 0;
-        iterator iter = first;
+        InputIter iter = first;
         for (; iter != last; ++iter) {
             num_deleted += static_cast<size_type>(this->erase(*iter));
         }
@@ -689,13 +681,13 @@ erase_if(jstd::group15_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    while (iter != last) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 38c21d0..4b31706 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1008,10 +1008,10 @@ public:
 
     JSTD_FORCED_INLINE
     iterator erase(iterator pos) {
-        locator_t & locator = pos.locator();
+        locator_t locator = pos.locator();
         this->erase_slot(locator);
-        locator.increment();
-        return { locator };
+        ++pos;
+        return pos;
     }
 
     JSTD_FORCED_INLINE
diff --git a/src/jstd/hashmap/group16_flat_map.hpp b/src/jstd/hashmap/group16_flat_map.hpp
index b6f719e..7544cf4 100644
--- a/src/jstd/hashmap/group16_flat_map.hpp
+++ b/src/jstd/hashmap/group16_flat_map.hpp
@@ -582,34 +582,27 @@ public:
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(iterator pos) {
+    iterator erase(iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
-    size_type erase(const_iterator pos) {
+    iterator erase(const_iterator pos) {
         return table_.erase(pos);
     }
 
     JSTD_FORCED_INLINE
     iterator erase(iterator first, iterator last) {
         iterator iter = first;
-        if (JSTD_LIKELY(iter.hashmap() == this)) {
-            for (; iter != last; ++iter) {
-                this->erase(iter);
-            }
-        } else {
-            for (; iter != last; ++iter) {
-                const slot_type * slot = iter.slots();
-                this->erase(slot->get_key());
-            }
+        while (iter != last) {
+            iter = this->erase(iter);
         }
-        return { last };
+        return iter;
     }
 
     JSTD_FORCED_INLINE
     iterator erase(const_iterator first, const_iterator last) {
-        return this->erase(first, last);
+        return this->erase(iterator(first), iterator(last));
     }
 
     template <typename InputIter, typename std::enable_if<
@@ -620,7 +613,7 @@ public:
         size_type num_deleted = 0;
         InputIter iter = first;
         for (; iter != last; ++iter) {
-            num_deleted += static_cast<size_type>(this->erase(*first));
+            num_deleted += static_cast<size_type>(this->erase(*iter));
         }
         return num_deleted;
     }
@@ -685,13 +678,13 @@ erase_if(jstd::group16_flat_map<Key, Value, Hash, KeyEqual, Alloc> & hash_map, P
 {
     auto old_size = hash_map.size();
 
-    auto first = hash_map.begin();
+    auto iter = hash_map.begin();
     auto last = hash_map.end();
-    auto iter = last;
-    while (iter != first) {
-        --iter;
+    while (iter != last) {
         if (pred(*iter)) {
-            hash_map.erase(iter);
+            iter = hash_map.erase(iter);
+        } else {
+            ++iter;
         }
     }
 
-- 
2.43.0


From b75a3194838feda411ca36a6bb4c3be73081a8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:54 +0000
Subject: [PATCH 20/57] fix: flat_map_iterator accessors compile

---
 src/jstd/hashmap/flat_map_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/flat_map_iterator.hpp b/src/jstd/hashmap/flat_map_iterator.hpp
index 63db61a..8a73fde 100644
--- a/src/jstd/hashmap/flat_map_iterator.hpp
+++ b/src/jstd/hashmap/flat_map_iterator.hpp
@@ -218,7 +218,7 @@ public:
     }
 
     inline hashmap_type * hashmap() noexcept {
-        return this->hashmap_;
+        return const_cast<hashmap_type *>(this->hashmap_);
     }
 
     inline const hashmap_type * hashmap() const noexcept {
@@ -231,7 +231,7 @@ public:
 
     inline ctrl_type * ctrl() noexcept {
         const ctrl_type * _ctrl = this->hashmap_->ctrl_at(this->index_);
-        return const_cast<slot_type *>(_ctrl);
+        return const_cast<ctrl_type *>(_ctrl);
     }
 
     inline const ctrl_type * ctrl() const noexcept {
-- 
2.43.0


From 38d2d4859b594058ae02427de47f6e02b7cd9733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:22 +0000
Subject: [PATCH 21/57] fix: group15/16_flat_map insertion constructs the
 element before it counts it

The element is built before the table grows (its arguments may refer to
elements of the table), a throwing constructor leaves the slot empty, an
lvalue pair is copied instead of moved from, and emplace() of a detached
value destroys it exactly once.
---
 src/jstd/hashmap/group15_flat_table.hpp | 226 ++++++++++++------------
 src/jstd/hashmap/group16_flat_table.hpp | 221 ++++++++++++-----------
 2 files changed, 220 insertions(+), 227 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 4b31706..3624731 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2388,9 +2388,74 @@ private:
         return {};
     }
 
-    template <typename KeyT>
+    //
+    // A detached slot, use to hold the new element while the table is growing.
+    //
+    class temp_slot {
+    private:
+        slot_allocator_type & allocator_;
+        alignas(slot_type) unsigned char raw_[sizeof(slot_type)];
+
+    public:
+        template <typename ... Args>
+        explicit temp_slot(slot_allocator_type & allocator, Args && ... args) : allocator_(allocator) {
+            SlotPolicyTraits::construct(&this->allocator_, this->slot(), std::forward<Args>(args)...);
+        }
+        temp_slot(const temp_slot &) = delete;
+        ~temp_slot() {
+            SlotPolicyTraits::destroy(&this->allocator_, this->slot());
+        }
+
+        slot_type * slot() {
+            return reinterpret_cast<slot_type *>(&this->raw_);
+        }
+    };
+
+    // Construct the new element in the slot that find_empty_to_insert() has prepared.
+    template <typename ... Args>
+    JSTD_FORCED_INLINE
+    void construct_new_slot(locator_t & locator, Args && ... args) {
+        slot_type * slot = locator.slot();
+        assert(slot != nullptr);
+#if (GROUP15_USE_NEW_OVERFLOW == 0)
+        size_type old_slot_threshold = this->slot_threshold_;
+#endif
+        this->slot_size_++;
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->reset_ctrl(locator);
+#if (GROUP15_USE_NEW_OVERFLOW == 0)
+            // find_empty_to_insert() did not change the slot threshold.
+            this->slot_threshold_ = old_slot_threshold;
+#endif
+            throw;
+        }
+    }
+
+    // The arguments may refer to elements of this table, so the new element
+    // must be constructed before the table is replaced.
+    template <typename ... Args>
+    JSTD_NO_INLINE
+    locator_t grow_and_construct(std::size_t key_hash, Args && ... args) {
+        temp_slot holder(this->slot_allocator_, std::forward<Args>(args)...);
+
+        // The size of slot reach the slot threshold or hashmap is full.
+        this->grow_if_necessary();
+
+        slot_type * tmp_slot = holder.slot();
+        size_type group_index = this->index_for_hash(key_hash);
+        std::size_t ctrl_hash = this->ctrl_for_hash(key_hash);
+        locator_t locator = this->template find_empty_to_insert<false, key_type>(
+                                       tmp_slot->value.first, group_index, ctrl_hash);
+        this->construct_new_slot(locator, tmp_slot);
+        return locator;
+    }
+
+    // Find the key, if it does not exist, construct a new element from args.
+    template <typename KeyT, typename ... Args>
     JSTD_FORCED_INLINE
-    std::pair<locator_t, bool> find_or_insert(const KeyT & key) {
+    std::pair<locator_t, bool> find_or_construct(const KeyT & key, Args && ... args) {
         std::size_t key_hash = this->hash_for(key);
         size_type group_index = this->index_for_hash(key_hash);
         std::size_t ctrl_hash = this->ctrl_for_hash(key_hash);
@@ -2401,29 +2466,12 @@ private:
         }
 
         if (JSTD_UNLIKELY(this->need_grow())) {
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
-
-            group_index = this->index_for_hash(key_hash);
-            // Ctrl hash will not change
-            // ctrl_hash = this->ctrl_for_hash(key_hash);
+            return { this->grow_and_construct(key_hash, std::forward<Args>(args)...), kNeedInsert };
         }
 
-        locator = this->find_empty_to_insert<false, KeyT>(key, group_index, ctrl_hash);
-        if (JSTD_LIKELY(true || (locator.slot() != nullptr))) {
-            return { locator, kNeedInsert };
-        }
-        else {
-            printf("\nfind_or_insert(): overflow, size() = %d, load_factor = %0.3f\n",
-                    (int)this->size(), this->load_factor());
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
-
-            group_index = this->index_for_hash(key_hash);
-            locator = this->find_empty_to_insert<false, KeyT>(key, group_index, ctrl_hash);
-            assert(locator.slot() < this->last_slot());
-            return { locator, kNeedInsert };
-        }
+        locator = this->template find_empty_to_insert<false, KeyT>(key, group_index, ctrl_hash);
+        this->construct_new_slot(locator, std::forward<Args>(args)...);
+        return { locator, kNeedInsert };
     }
 
     JSTD_FORCED_INLINE
@@ -2511,16 +2559,11 @@ private:
                std::is_constructible<init_type, const ValueT &>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(const ValueT & value) {
-        auto find_info = this->find_or_insert(value.first);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(value.first, value);
         locator_t & locator = find_info.first;
-        bool need_insert = find_info.second;        
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
-        } else {
+        bool need_insert = find_info.second;
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = locator.slot();
@@ -2538,17 +2581,11 @@ private:
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
         static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
-        auto find_info = this->find_or_insert(value.first);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(value.first, std::forward<ValueT>(value));
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = locator.slot();
@@ -2578,19 +2615,13 @@ private:
                 std::is_constructible<mapped_type, MappedT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(KeyT && key, MappedT && value) {
-        auto find_info = this->find_or_insert(key);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key,
+                                                std::forward<KeyT>(key),
+                                                std::forward<MappedT>(value));
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
             if (AlwaysUpdate) {
@@ -2617,20 +2648,14 @@ private:
                 typename ... Args>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(KeyT && key, Args && ... args) {
-        auto find_info = this->find_or_insert(key);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key,
+                                                std::piecewise_construct,
+                                                std::forward_as_tuple(std::forward<KeyT>(key)),
+                                                std::forward_as_tuple(std::forward<Args>(args)...));
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = locator.slot();
@@ -2655,20 +2680,14 @@ private:
                                            std::tuple<Ts1...> && first,
                                            std::tuple<Ts2...> && second) {
         jstd::tuple_wrapper2<key_type> key_wrapper(first);
-        auto find_info = this->find_or_insert(key_wrapper.value());
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key_wrapper.value(),
+                                                std::piecewise_construct,
+                                                std::forward<std::tuple<Ts1...>>(first),
+                                                std::forward<std::tuple<Ts2...>>(second));
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 jstd::tuple_wrapper2<mapped_type> mapped_wrapper(std::move(second));
@@ -2690,31 +2709,20 @@ private:
                 typename ... Args>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(First && first, Args && ... args) {
-        alignas(slot_type) unsigned char raw[sizeof(slot_type)];
-        slot_type * tmp_slot = reinterpret_cast<slot_type *>(&raw);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, tmp_slot,
-                                    std::forward<First>(first),
-                                    std::forward<Args>(args)...);
+        temp_slot holder(this->slot_allocator_, std::forward<First>(first), std::forward<Args>(args)...);
+        slot_type * tmp_slot = holder.slot();
 
-        auto find_info = this->find_or_insert(tmp_slot->get_key());
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(tmp_slot->get_key(), tmp_slot);
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = locator.slot();
                 slot->value.second = std::move(tmp_slot->value.second);
             }
         }
-        SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
         return { locator, need_insert };
     }
 
@@ -2723,40 +2731,26 @@ private:
     template <typename KeyT, typename ... Args>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> try_emplace_impl(const KeyT & key, Args && ... args) {
-        auto find_info = this->find_or_insert(key);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key,
+                                                std::piecewise_construct,
+                                                std::forward_as_tuple(key),
+                                                std::forward_as_tuple(std::forward<Args>(args)...));
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
-        }
         return { locator, need_insert };
     }
 
     template <typename KeyT, typename ... Args>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> try_emplace_impl(KeyT && key, Args && ... args) {
-        auto find_info = this->find_or_insert(key);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key,
+                                                std::piecewise_construct,
+                                                std::forward_as_tuple(std::forward<KeyT>(key)),
+                                                std::forward_as_tuple(std::forward<Args>(args)...));
         locator_t & locator = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = locator.slot();
-            assert(slot != nullptr);
-            assert(slot < this->last_slot());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
-        }
         return { locator, need_insert };
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 81606f3..bf0f946 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2212,9 +2212,74 @@ private:
         return this->slot_capacity();
     }
 
-    template <typename KeyT>
+    //
+    // A detached slot, use to hold the new element while the table is growing.
+    //
+    class temp_slot {
+    private:
+        slot_allocator_type & allocator_;
+        alignas(slot_type) unsigned char raw_[sizeof(slot_type)];
+
+    public:
+        template <typename ... Args>
+        explicit temp_slot(slot_allocator_type & allocator, Args && ... args) : allocator_(allocator) {
+            SlotPolicyTraits::construct(&this->allocator_, this->slot(), std::forward<Args>(args)...);
+        }
+        temp_slot(const temp_slot &) = delete;
+        ~temp_slot() {
+            SlotPolicyTraits::destroy(&this->allocator_, this->slot());
+        }
+
+        slot_type * slot() {
+            return reinterpret_cast<slot_type *>(&this->raw_);
+        }
+    };
+
+    // Construct the new element in the slot that find_empty_to_insert() has prepared.
+    template <typename ... Args>
     JSTD_FORCED_INLINE
-    std::pair<size_type, bool> find_or_insert(const KeyT & key) {
+    void construct_new_slot(size_type slot_index, Args && ... args) {
+        slot_type * slot = this->slot_at(slot_index);
+        assert(slot != nullptr);
+#if (GROUP16_USE_NEW_OVERFLOW == 0)
+        size_type old_slot_threshold = this->slot_threshold_;
+#endif
+        this->slot_size_++;
+        try {
+            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::forward<Args>(args)...);
+        } catch (...) {
+            this->reset_ctrl(slot_index);
+#if (GROUP16_USE_NEW_OVERFLOW == 0)
+            // find_empty_to_insert() did not change the slot threshold.
+            this->slot_threshold_ = old_slot_threshold;
+#endif
+            throw;
+        }
+    }
+
+    // The arguments may refer to elements of this table, so the new element
+    // must be constructed before the table is replaced.
+    template <typename ... Args>
+    JSTD_NO_INLINE
+    size_type grow_and_construct(std::size_t key_hash, Args && ... args) {
+        temp_slot holder(this->slot_allocator_, std::forward<Args>(args)...);
+
+        // The size of slot reach the slot threshold or hashmap is full.
+        this->grow_if_necessary();
+
+        slot_type * tmp_slot = holder.slot();
+        size_type group_index = this->index_for_hash(key_hash);
+        std::size_t ctrl_hash = this->ctrl_for_hash(key_hash);
+        size_type slot_index = this->template find_empty_to_insert<false, key_type>(
+                                       tmp_slot->value.first, group_index, ctrl_hash);
+        this->construct_new_slot(slot_index, tmp_slot);
+        return slot_index;
+    }
+
+    // Find the key, if it does not exist, construct a new element from args.
+    template <typename KeyT, typename ... Args>
+    JSTD_FORCED_INLINE
+    std::pair<size_type, bool> find_or_construct(const KeyT & key, Args && ... args) {
         std::size_t key_hash = this->hash_for(key);
         size_type group_index = this->index_for_hash(key_hash);
         std::size_t ctrl_hash = this->ctrl_for_hash(key_hash);
@@ -2225,29 +2290,12 @@ private:
         }
 
         if (JSTD_UNLIKELY(this->need_grow())) {
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
-
-            group_index = this->index_for_hash(key_hash);
-            // Ctrl hash will not change
-            // ctrl_hash = this->ctrl_for_hash(key_hash);
+            return { this->grow_and_construct(key_hash, std::forward<Args>(args)...), kNeedInsert };
         }
 
-        slot_index = this->find_empty_to_insert<false, KeyT>(key, group_index, ctrl_hash);
-        if (JSTD_LIKELY(true || (slot_index != this->slot_capacity()))) {
-            return { slot_index, kNeedInsert };
-        }
-        else {
-            printf("\nfind_or_insert(): overflow, size() = %d, load_factor = %0.3f\n",
-                    (int)this->size(), this->load_factor());
-            // The size of slot reach the slot threshold or hashmap is full.
-            this->grow_if_necessary();
-
-            group_index = this->index_for_hash(key_hash);
-            slot_index = this->find_empty_to_insert<false, KeyT>(key, group_index, ctrl_hash);
-            assert(slot_index < this->slot_capacity());
-            return { slot_index, kNeedInsert };
-        }
+        slot_index = this->template find_empty_to_insert<false, KeyT>(key, group_index, ctrl_hash);
+        this->construct_new_slot(slot_index, std::forward<Args>(args)...);
+        return { slot_index, kNeedInsert };
     }
 
     JSTD_FORCED_INLINE
@@ -2341,16 +2389,11 @@ private:
                std::is_constructible<init_type, const ValueT &>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(const ValueT & value) {
-        auto find_info = this->find_or_insert(value.first);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(value.first, value);
         size_type slot_index = find_info.first;
-        bool need_insert = find_info.second;        
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, value);
-            this->slot_size_++;
-        } else {
+        bool need_insert = find_info.second;
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = this->slot_at(slot_index);
@@ -2368,17 +2411,11 @@ private:
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
         static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
-        auto find_info = this->find_or_insert(value.first);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(value.first, std::forward<ValueT>(value));
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            assert(slot_index < this->slot_capacity());
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot, std::move(value));
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = this->slot_at(slot_index);
@@ -2408,18 +2445,13 @@ private:
                 std::is_constructible<mapped_type, MappedT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(KeyT && key, MappedT && value) {
-        auto find_info = this->find_or_insert(std::forward<KeyT>(key));
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key,
+                                                std::forward<KeyT>(key),
+                                                std::forward<MappedT>(value));
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::forward<KeyT>(key),
-                                        std::forward<MappedT>(value));
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             static constexpr bool isMappedType = jstd::is_same_ex<MappedT, mapped_type>::value;
             if (AlwaysUpdate) {
@@ -2446,19 +2478,14 @@ private:
                 typename ... Args>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(KeyT && key, Args && ... args) {
-        auto find_info = this->find_or_insert(key);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key,
+                                                std::piecewise_construct,
+                                                std::forward_as_tuple(std::forward<KeyT>(key)),
+                                                std::forward_as_tuple(std::forward<Args>(args)...));
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = this->slot_at(slot_index);
@@ -2483,19 +2510,14 @@ private:
                                            std::tuple<Ts1...> && first,
                                            std::tuple<Ts2...> && second) {
         tuple_wrapper2<key_type> key_wrapper(first);
-        auto find_info = this->find_or_insert(key_wrapper.value());
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key_wrapper.value(),
+                                                std::piecewise_construct,
+                                                std::forward<std::tuple<Ts1...>>(first),
+                                                std::forward<std::tuple<Ts2...>>(second));
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward<std::tuple<Ts1...>>(first),
-                                        std::forward<std::tuple<Ts2...>>(second));
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 tuple_wrapper2<mapped_type> mapped_wrapper(std::move(second));
@@ -2517,31 +2539,20 @@ private:
                 typename ... Args>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(First && first, Args && ... args) {
-        alignas(slot_type) unsigned char raw[sizeof(slot_type)];
-        slot_type * tmp_slot = reinterpret_cast<slot_type *>(&raw);
+        temp_slot holder(this->slot_allocator_, std::forward<First>(first), std::forward<Args>(args)...);
+        slot_type * tmp_slot = holder.slot();
 
-        SlotPolicyTraits::construct(&this->slot_allocator_, tmp_slot,
-                                    std::forward<First>(first),
-                                    std::forward<Args>(args)...);
-
-        auto find_info = this->find_or_insert(tmp_slot->value.first);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(tmp_slot->value.first, tmp_slot);
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-
-            SlotPolicyTraits::transfer(&this->slot_allocator_, slot, tmp_slot);
-            this->slot_size_++;
-        } else {
+        if (!need_insert) {
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = this->slot_at(slot_index);
                 slot->value.second = std::move(tmp_slot->value.second);
             }
         }
-        SlotPolicyTraits::destroy(&this->slot_allocator_, tmp_slot);
         return { this->iterator_at(slot_index), need_insert };
     }
 
@@ -2550,38 +2561,26 @@ private:
     template <typename KeyT, typename ... Args>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> try_emplace_impl(const KeyT & key, Args && ... args) {
-        auto find_info = this->find_or_insert(key);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key,
+                                                std::piecewise_construct,
+                                                std::forward_as_tuple(key),
+                                                std::forward_as_tuple(std::forward<Args>(args)...));
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(key),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
-        }
         return { this->iterator_at(slot_index), need_insert };
     }
 
     template <typename KeyT, typename ... Args>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> try_emplace_impl(KeyT && key, Args && ... args) {
-        auto find_info = this->find_or_insert(key);
+        // If the key to be inserted is not exists, construct the new element.
+        auto find_info = this->find_or_construct(key,
+                                                std::piecewise_construct,
+                                                std::forward_as_tuple(std::forward<KeyT>(key)),
+                                                std::forward_as_tuple(std::forward<Args>(args)...));
         size_type slot_index = find_info.first;
         bool need_insert = find_info.second;
-        if (need_insert) {
-            // The key to be inserted is not exists.
-            slot_type * slot = this->slot_at(slot_index);
-            assert(slot != nullptr);
-            SlotPolicyTraits::construct(&this->slot_allocator_, slot,
-                                        std::piecewise_construct,
-                                        std::forward_as_tuple(std::forward<KeyT>(key)),
-                                        std::forward_as_tuple(std::forward<Args>(args)...));
-            this->slot_size_++;
-        }
         return { this->iterator_at(slot_index), need_insert };
     }
 
-- 
2.43.0


From 7a48bc4ed8f99a1edbf34f5e8395306d419fb049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 22/57] fix: group15/16_flat_map::insert() works with move-only
 mapped types

---
 src/jstd/hashmap/group15_flat_table.hpp | 11 +----------
 src/jstd/hashmap/group16_flat_table.hpp | 11 +----------
 2 files changed, 2 insertions(+), 20 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 3624731..ccecb93 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -2580,7 +2580,6 @@ private:
                std::is_constructible<init_type, ValueT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
-        static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
         // If the key to be inserted is not exists, construct the new element.
         auto find_info = this->find_or_construct(value.first, std::forward<ValueT>(value));
         locator_t & locator = find_info.first;
@@ -2589,15 +2588,7 @@ private:
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = locator.slot();
-                if (is_rvalue_ref) {
-                    //slot->value.second = std::move(value.second);
-                    if (kIsLayoutCompatible)
-                        jstd::move_assign_if<is_rvalue_ref>(slot->mutable_value.second, value.second);
-                    else
-                        jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
-                } else {
-                    slot->value.second = value.second;
-                }
+                slot->value.second = std::forward<ValueT>(value).second;
             }
         }
         return { locator, need_insert };
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index bf0f946..5bc9064 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2410,7 +2410,6 @@ private:
                std::is_constructible<init_type, ValueT &&>::value)>::type * = nullptr>
     JSTD_FORCED_INLINE
     std::pair<iterator, bool> emplace_impl(ValueT && value) {
-        static constexpr bool is_rvalue_ref = std::is_rvalue_reference<decltype(value)>::value;
         // If the key to be inserted is not exists, construct the new element.
         auto find_info = this->find_or_construct(value.first, std::forward<ValueT>(value));
         size_type slot_index = find_info.first;
@@ -2419,15 +2418,7 @@ private:
             // The key to be inserted already exists.
             if (AlwaysUpdate) {
                 slot_type * slot = this->slot_at(slot_index);
-                if (is_rvalue_ref) {
-                    //slot->value.second = std::move(value.second);
-                    if (kIsLayoutCompatible)
-                        jstd::move_assign_if<is_rvalue_ref>(slot->mutable_value.second, value.second);
-                    else
-                        jstd::move_assign_if<is_rvalue_ref>(slot->value.second, value.second);
-                } else {
-                    slot->value.second = value.second;
-                }
+                slot->value.second = std::forward<ValueT>(value).second;
             }
         }
         return { this->iterator_at(slot_index), need_insert };
-- 
2.43.0


From 0a313f6e6d60d41c498e24820ca2d1be5725427d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 23/57] fix: group15/16_flat_map rehash keeps the table valid
 when it throws

---
 src/jstd/hashmap/group15_flat_table.hpp | 86 +++++++++++++++----------
 src/jstd/hashmap/group16_flat_table.hpp | 75 +++++++++++++--------
 2 files changed, 100 insertions(+), 61 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index ccecb93..c71fe1d 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -60,6 +60,7 @@
 #include <memory>           // For std::allocator<T>
 #include <limits>           // For std::numeric_limits<T>, CHAR_BIT
 #include <initializer_list>
+#include <exception>
 #include <type_traits>
 #include <algorithm>        // For std::max()
 #include <utility>          // For std::pair<F, S>
@@ -2069,7 +2070,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
@@ -2126,37 +2133,57 @@ private:
 
             this->create_slots<false>(new_capacity);
 
+            std::exception_ptr error;
+
             if (old_groups != this_type::default_empty_groups()) {
                 assert(old_groups != nullptr);
                 assert(old_slots != nullptr);
                 assert(old_group_capacity > 0);
+                // The sentinel mark is not a element.
+                group_type * tail_group = old_groups + (old_group_capacity - 1);
+                tail_group->set_empty(kGroupSize - 1);
+
                 group_type * group = old_groups;
-                group_type * last_group = old_groups + old_group_capacity;
                 slot_type * slot_base = old_slots;
+                std::uint32_t used_mask = group->match_used();
 
-                for (; group < last_group; ++group) {
-                    //JSTD_ASSUME(slot_base != nullptr);
-                    //jstd::CPU_Prefetch_Read_T0((const void *)&slot_base->get_key());
-                    std::uint32_t used_mask = group->match_used();
-                    if (used_mask != 0) {
-                        do {
+                try {
+                    for (;;) {
+                        //JSTD_ASSUME(slot_base != nullptr);
+                        //jstd::CPU_Prefetch_Read_T0((const void *)&slot_base->get_key());
+                        while (used_mask != 0) {
                             std::uint32_t used_pos = BitUtils::bsf32(used_mask);
-                            if (JSTD_LIKELY(!group->is_sentinel(used_pos))) {
-                                slot_type * old_slot = slot_base + used_pos;
-                                assert(old_slot < old_last_slot);
-                                this->no_grow_unique_transfer_insert(old_slot);
-                                //this->destroy_slot(old_slot);
-                            } else {
-                                break;
-                            }
+                            slot_type * old_slot = slot_base + used_pos;
+                            assert(old_slot < old_last_slot);
+                            this->no_grow_unique_transfer_insert(old_slot);
+                            //this->destroy_slot(old_slot);
                             used_mask = BitUtils::clearLowBit32(used_mask);
-                        } while (used_mask != 0);
+                        }
+                        if (++group > tail_group)
+                            break;
+                        slot_base += kGroupSize;
+                        used_mask = group->match_used();
+                    }
+                } catch (...) {
+                    // The elements which have not been moved can't be kept.
+                    error = std::current_exception();
+                    for (;;) {
+                        while (used_mask != 0) {
+                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                            this->destroy_slot(slot_base + used_pos);
+                            used_mask = BitUtils::clearLowBit32(used_mask);
+                        }
+                        if (++group > tail_group)
+                            break;
+                        slot_base += kGroupSize;
+                        used_mask = group->match_used();
                     }
-                    slot_base += kGroupSize;
                 }
             }
 
-            assert(this->slot_size() == old_slot_size);
+            assert(error || (this->slot_size() == old_slot_size));
+            // A table that shrinks to 100% usage can exceed the load factor.
+            this->slot_threshold_ = (std::max)(this->slot_threshold_, this->slot_size_);
 
 #if GROUP15_USE_SEPARATE_SLOTS
             if (old_groups != this_type::default_empty_groups()) {
@@ -2178,6 +2205,9 @@ private:
                 SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
             }
 #endif
+            if (error) {
+                std::rethrow_exception(error);
+            }
         }
     }
 
@@ -2491,12 +2521,8 @@ private:
     void no_grow_unique_transfer_insert(slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
-        slot_type * new_slot = locator.slot();
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(locator, old_slot);
         this->destroy_slot(old_slot);
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2504,12 +2530,8 @@ private:
     void no_grow_unique_transfer_insert(group15_flat_table * other, slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
-        slot_type * new_slot = locator.slot();
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(locator, old_slot);
         other->destroy_slot(old_slot);
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2520,11 +2542,7 @@ private:
     void no_grow_unique_insert(const slot_type * old_slot) {
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
-        slot_type * new_slot = locator.slot();
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(locator, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 5bc9064..3c7d8ba 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -60,6 +60,7 @@
 #include <memory>           // For std::allocator<T>
 #include <limits>           // For std::numeric_limits<T>, CHAR_BIT
 #include <initializer_list>
+#include <exception>
 #include <type_traits>
 #include <algorithm>        // For std::max()
 #include <utility>          // For std::pair<F, S>
@@ -1949,7 +1950,13 @@ private:
             group_type * new_groups_alloc = GroupAllocTraits::allocate(this->group_allocator_, total_group_alloc_count);
             group_type * new_groups = this->AlignedGroups<kGroupAlignment>(new_groups_alloc);
 
-            slot_type * new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            slot_type * new_slots;
+            try {
+                new_slots = SlotAllocTraits::allocate(this->slot_allocator_, new_slot_capacity);
+            } catch (...) {
+                GroupAllocTraits::deallocate(this->group_allocator_, new_groups_alloc, total_group_alloc_count);
+                throw;
+            }
 #else
             size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(new_group_capacity, new_slot_capacity);
 
@@ -2004,27 +2011,50 @@ private:
 
             this->create_slots<false>(new_capacity);
 
+            std::exception_ptr error;
+
             if (old_groups != this_type::default_empty_groups()) {
                 auto mask_bits = group_type::make_mask_bits();
                 group_type * group = old_groups;
                 group_type * last_group = old_groups + old_group_capacity;
                 slot_type * slot_base = old_slots;
+                std::uint32_t used_mask = group->match_used(mask_bits);
 
-                for (; group < last_group; ++group) {
-                    std::uint32_t used_mask = group->match_used(mask_bits);
-                    while (used_mask != 0) {
-                        std::uint32_t used_pos = BitUtils::bsf32(used_mask);
-                        used_mask = BitUtils::clearLowBit32(used_mask);
-                        slot_type * old_slot = slot_base + used_pos;
-                        assert(old_slot < old_last_slot);
-                        this->no_grow_unique_transfer_insert(old_slot);
-                        //this->destroy_slot(old_slot);
+                try {
+                    for (;;) {
+                        while (used_mask != 0) {
+                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                            slot_type * old_slot = slot_base + used_pos;
+                            assert(old_slot < old_last_slot);
+                            this->no_grow_unique_transfer_insert(old_slot);
+                            //this->destroy_slot(old_slot);
+                            used_mask = BitUtils::clearLowBit32(used_mask);
+                        }
+                        if (++group >= last_group)
+                            break;
+                        slot_base += kGroupWidth;
+                        used_mask = group->match_used(mask_bits);
+                    }
+                } catch (...) {
+                    // The elements which have not been moved can't be kept.
+                    error = std::current_exception();
+                    for (;;) {
+                        while (used_mask != 0) {
+                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                            this->destroy_slot(slot_base + used_pos);
+                            used_mask = BitUtils::clearLowBit32(used_mask);
+                        }
+                        if (++group >= last_group)
+                            break;
+                        slot_base += kGroupWidth;
+                        used_mask = group->match_used(mask_bits);
                     }
-                    slot_base += kGroupWidth;
                 }
             }
 
-            assert(this->slot_size() == old_slot_size);
+            assert(error || (this->slot_size() == old_slot_size));
+            // A table that shrinks to 100% usage can exceed the load factor.
+            this->slot_threshold_ = (std::max)(this->slot_threshold_, this->slot_size_);
 
 #if GROUP16_USE_SEPARATE_SLOTS
             if (old_groups != this_type::default_empty_groups()) {
@@ -2042,6 +2072,9 @@ private:
                 SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
             }
 #endif
+            if (error) {
+                std::rethrow_exception(error);
+            }
         }
     }
 
@@ -2315,12 +2348,8 @@ private:
     void no_grow_unique_transfer_insert(slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
-        slot_type * new_slot = this->slot_at(slot_index);
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(slot_index, old_slot);
         this->destroy_slot(old_slot);
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2328,12 +2357,8 @@ private:
     void no_grow_unique_transfer_insert(group16_flat_table * other, slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
-        slot_type * new_slot = this->slot_at(slot_index);
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
+        this->construct_new_slot(slot_index, old_slot);
         other->destroy_slot(old_slot);
-        this->slot_size_++;
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2344,11 +2369,7 @@ private:
     void no_grow_unique_insert(const slot_type * old_slot) {
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
-        slot_type * new_slot = this->slot_at(slot_index);
-        assert(new_slot != nullptr);
-
-        SlotPolicyTraits::construct(&this->slot_allocator_, new_slot, old_slot);
-        this->slot_size_++;
+        this->construct_new_slot(slot_index, old_slot);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
-- 
2.43.0


From 8986f2d1a3c231495ec4f92644773e631eaa52c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 24/57] fix: group15/16_flat_map copy constructor copies every
 element

---
 src/jstd/hashmap/group15_flat_table.hpp | 109 +++++-------------------
 src/jstd/hashmap/group16_flat_table.hpp |  83 +++++-------------
 2 files changed, 44 insertions(+), 148 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index c71fe1d..2a6a51c 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -313,27 +313,11 @@ public:
                                     select_on_container_copy_construction(other.get_allocator_ref())) {
     }
 
-    group15_flat_table(group15_flat_table const & other, allocator_type const & allocator) :
-        groups_(default_empty_groups()), slots_(nullptr),
-        slot_size_(0),
-        slot_threshold_(0),        
-#if GROUP15_USE_INDEX_SHIFT && (GROUP15_USE_HASH_POLICY == 0)
-        group_mask_(0),
-        index_shift_(kWordLength - 1),
-#else
-        ctrl_mask_(size_type(-1)),
-        slot_capacity_(0),
-#endif
-        mlf_(other.mlf_),
-#if GROUP15_USE_SEPARATE_SLOTS
-        groups_alloc_(nullptr),
-#endif
-#if GROUP15_USE_HASH_POLICY
-        hash_policy_(),
-#endif
-        hasher_(other.hash_function_ref()), key_equal_(other.key_eq_ref()),
-        allocator_(allocator), group_allocator_(allocator), slot_allocator_(allocator)
+    group15_flat_table(group15_flat_table const & other, allocator_type const & allocator)
+        : group15_flat_table(kDefaultCapacity, other.hash_function_ref(), other.key_eq_ref(), allocator)
     {
+        this->mlf_ = other.mlf_;
+
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type other_size = other.size();
         if (other_size != 0) {
@@ -1658,24 +1642,18 @@ private:
         if (this->ctrl_capacity() == other.ctrl_capacity()) {
             this->fast_copy_slots_from(other);
         } else {
-            try {
-                this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
-            }
+            this->unique_insert(other.begin(), other.end());
         }
     }
 
     JSTD_FORCED_INLINE
     void fast_copy_slots_from(group15_flat_table const & other) {
         if (this->slots() != nullptr && other.slots() != nullptr) {
-            copy_groups_array_from(other);
+            // The groups are still empty if the copy of the slots has failed.
             copy_slots_array_from(other);
+            copy_groups_array_from(other);
+            this->slot_size_ = other.slot_size_;
+            this->slot_threshold_ = other.slot_threshold_;
         } else {
             assert(false);
         }
@@ -1723,72 +1701,31 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
     JSTD_FORCED_INLINE
     void copy_slots_array_from(group15_flat_table const & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
+        const group_type * groups = other.groups();
         const slot_type * other_slot = other.slots();
         slot_type * slot = this->slots();
-        ssize_type index = 0;
+        // Exclude the sentinel mark
+        size_type slot_capacity = other.slot_capacity();
+        size_type index = 0;
 
         try {
-            while (ctrl < last_ctrl) {
-                if (ctrl->is_used()) {
-                    if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                        SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                    } else {
-                        break;
-                    }
-                }
-                ++index;
-                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != (kGroupSize - 1))) {
-                    ++ctrl;
-                } else {
-                    ctrl += 2;
+            for (; index < slot_capacity; ++index) {
+                if (groups[index / kGroupSize].is_used(index % kGroupSize)) {
+                    SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
                 }
             }
-        }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
         } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
+            while (index > 0) {
+                --index;
+                if (groups[index / kGroupSize].is_used(index % kGroupSize)) {
+                    this->destroy_slot(&slot[index]);
+                }
             }
             throw;
         }
@@ -2547,7 +2484,7 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    void unique_insert(iterator first, iterator last) {
+    void unique_insert(const_iterator first, const_iterator last) {
         for (; first != last; ++first) {
             const slot_type * old_slot = first.slot();
             this->no_grow_unique_insert(old_slot);
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 3c7d8ba..b689aa1 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -306,25 +306,11 @@ public:
                                     select_on_container_copy_construction(other.get_allocator_ref())) {
     }
 
-    group16_flat_table(group16_flat_table const & other, allocator_type const & allocator) :
-        groups_(default_empty_groups()), slots_(nullptr),
-        slot_size_(0),
-        slot_mask_(size_type(-1)),
-        slot_threshold_(0),
-        group_mask_(0),
-#if GROUP16_USE_INDEX_SHIFT
-        index_shift_(kWordLength - 1),
-#endif
-        mlf_(other.mlf_),
-#if GROUP16_USE_SEPARATE_SLOTS
-        groups_alloc_(nullptr),
-#endif
-#if GROUP16_USE_HASH_POLICY
-        hash_policy_(),
-#endif
-        hasher_(other.hash_function_ref()), key_equal_(other.key_eq_ref()),
-        allocator_(allocator), group_allocator_(allocator), slot_allocator_(allocator)
+    group16_flat_table(group16_flat_table const & other, allocator_type const & allocator)
+        : group16_flat_table(kDefaultCapacity, other.hash_function_ref(), other.key_eq_ref(), allocator)
     {
+        this->mlf_ = other.mlf_;
+
         // Prepare enough space to ensure that no expansion is required during the insertion process.
         size_type other_size = other.size();
         if (other_size != 0) {
@@ -1603,24 +1589,18 @@ private:
         if (this->slot_capacity() == other.slot_capacity()) {
             this->fast_copy_slots_from(other);
         } else {
-            try {
-                this->unique_insert(other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
-            }
+            this->unique_insert(other.begin(), other.end());
         }
     }
 
     JSTD_FORCED_INLINE
     void fast_copy_slots_from(group16_flat_table const & other) {
         if (this->slots() != nullptr && other.slots() != nullptr) {
-            copy_groups_array_from(other);
+            // The groups are still empty if the copy of the slots has failed.
             copy_slots_array_from(other);
+            copy_groups_array_from(other);
+            this->slot_size_ = other.slot_size_;
+            this->slot_threshold_ = other.slot_threshold_;
         }
     }
 
@@ -1666,48 +1646,30 @@ private:
          */
         std::memcpy(
             reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
+            reinterpret_cast<const unsigned char *>(other.slots()),
             other.slot_capacity() * sizeof(slot_type));
     }
 
     JSTD_FORCED_INLINE
     void copy_slots_array_from(group16_flat_table const & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
+        const ctrl_type * ctrl = other.ctrls();
         const slot_type * other_slot = other.slots();
         slot_type * slot = this->slots();
-        ssize_type index = 0;
+        size_type slot_capacity = other.slot_capacity();
+        size_type index = 0;
 
         try {
-            while (ctrl < last_ctrl) {
-                if (ctrl->is_used()) {
+            for (; index < slot_capacity; ++index) {
+                if (ctrl[index].is_used()) {
                     SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
                 }
-                ++index;
-                ++ctrl;
             }
-        }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
         } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
+            while (index > 0) {
+                --index;
+                if (ctrl[index].is_used()) {
+                    this->destroy_slot(&slot[index]);
+                }
             }
             throw;
         }
@@ -2374,10 +2336,7 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    void unique_insert(iterator first, iterator last) {
-        this_type * other = first.hashmap();
-        assert(other != nullptr);
-        assert(other != this);
+    void unique_insert(const_iterator first, const_iterator last) {
         for (; first != last; ++first) {
             const slot_type * old_slot = first.slot();
             this->no_grow_unique_insert(old_slot);
-- 
2.43.0


From 64366f8236156158c1659f9b9990066625e25855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 25/57] fix: group15/16_flat_map move constructors compile and
 transfer every element

---
 src/jstd/hashmap/group15_flat_table.hpp | 194 ++----------------------
 src/jstd/hashmap/group16_flat_table.hpp | 169 ++-------------------
 2 files changed, 24 insertions(+), 339 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 2a6a51c..6ca23b5 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -351,31 +351,13 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
-    group15_flat_table(group15_flat_table && other, allocator_type const & allocator) :
-        groups_(default_empty_groups()), slots_(nullptr),
-        slot_size_(0),
-        slot_threshold_(0),        
-#if GROUP15_USE_INDEX_SHIFT && (GROUP15_USE_HASH_POLICY == 0)
-        group_mask_(0),
-        index_shift_(kWordLength - 1),
-#else
-        ctrl_mask_(size_type(-1)),
-        slot_capacity_(0),
-#endif
-        mlf_(kDefaultMaxLoadFactor),
-#if GROUP15_USE_SEPARATE_SLOTS
-        groups_alloc_(nullptr),
-#endif
-#if GROUP15_USE_HASH_POLICY
-        hash_policy_(std::move(other.hash_policy_ref())),
-#endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
-        allocator_(allocator), group_allocator_(allocator), slot_allocator_(allocator) {
+    group15_flat_table(group15_flat_table && other, allocator_type const & allocator)
+        : group15_flat_table(kDefaultCapacity, other.hash_function_ref(), other.key_eq_ref(), allocator) {
+        this->mlf_ = other.mlf_;
         if (this->get_allocator_ref() == other.get_allocator_ref()) {
             // Swap content only
             this->swap_content(other);
@@ -387,8 +369,8 @@ public:
                 // Here we will move elements of [other] hashmap to this hashmap.
                 this->move_slots_from(other);
             }
-            // Destroy all data but needn't clear_slots().
-            other.destroy<false>();
+            // All elements of [other] hashmap have been moved, release its storage.
+            other.template destroy<true>();
         }
     }
 
@@ -1739,152 +1721,7 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->ctrl_capacity() == other.ctrl_capacity()) {
-            this->fast_move_slots_from(other);
-        } else {
-            try {
-                this->move_unique_insert(other, other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
-            }
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void fast_move_slots_from(group15_flat_table & other) {
-        if (this->slots() != nullptr && other.slots() != nullptr) {
-            move_groups_array_from(other);
-            move_slots_array_from(other);
-        } else {
-            assert(false);
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other) {
-        this->copy_groups_array_from(other, std::is_trivially_copy_assignable<group_type>{});
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other, std::true_type /* -> memcpy */) {
-        std::memcpy(
-            this->groups(), other.groups(),
-            other.group_capacity() * sizeof(group_type));
-
-        // Reset all of other groups
-        this->clear_groups(other.groups(), other.group_capacity());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group15_flat_table & other, std::false_type /* -> manual */) {
-        group_type * other_group = other.groups();
-        group_type * group = this->groups();
-        size_type index = 0;
-        size_type group_capacity = other.group_capacity();
-        while (index < group_capacity) {
-            group[index] = other_group[index];
-            // Reset one other group
-            other_group[index].init();
-            ++index;
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group15_flat_table & other) {
-        this->move_slots_array_from(
-            other,
-            std::integral_constant<bool, std::is_trivially_copy_constructible<element_type>::value &&
-                                        (jstd::is_std_allocator<Allocator>::value ||
-                                        !jstd::alloc_has_construct<Allocator, value_type *, const value_type &>::value)>{}
-        );
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group15_flat_table & other, std::true_type /* -> memcpy */) {
-        /*
-         * reinterpret_cast: GCC may complain about value_type not being trivially
-         * copy-assignable when we're relying on trivial copy constructibility.
-         */
-        std::memcpy(
-            reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
-            other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group15_flat_table & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
-        slot_type * other_slot = other.slots();
-        slot_type * slot = this->slots();
-        ssize_type index = 0;
-
-        try {
-            while (ctrl < last_ctrl) {
-                if (ctrl->is_used()) {
-                    if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                        SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                        other.destroy_slot(&other_slot[index]);
-                    } else {
-                        break;
-                    }
-                }
-                ++index;
-                if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != (kGroupSize - 1))) {
-                    ++ctrl;
-                } else {
-                    ctrl += 2;
-                }
-            }
-        }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        if (JSTD_LIKELY(!ctrl->is_sentinel())) {
-                            SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                        } else {
-                            break;
-                        }
-                    }
-                    --index;
-                    if (JSTD_LIKELY((reinterpret_cast<size_type>(ctrl) % kGroupWidth) != 0)) {
-                        --ctrl;
-                    } else {
-                        ctrl -= 2;
-                    }
-                } while (index >= 0);
-            }
-            throw;
-        }
+        this->move_unique_insert(other, other.begin(), other.end());
     }
 
     JSTD_FORCED_INLINE
@@ -2464,11 +2301,13 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    void no_grow_unique_transfer_insert(group15_flat_table * other, slot_type * old_slot) {
+    void no_grow_unique_transfer_insert(group15_flat_table & other, iterator pos) {
+        locator_t old_locator = pos.locator();
+        slot_type * old_slot = old_locator.slot();
         assert(old_slot != nullptr);
         locator_t locator = this->no_grow_unique_insert(old_slot->get_key());
         this->construct_new_slot(locator, old_slot);
-        other->destroy_slot(old_slot);
+        other.erase_slot(old_locator);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2491,19 +2330,10 @@ private:
         }
     }
 
-    JSTD_FORCED_INLINE
-    void move_unique_insert(iterator first, iterator last) {
-        for (; first != last; ++first) {
-            slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(old_slot);
-        }
-    }
-
     JSTD_FORCED_INLINE
     void move_unique_insert(group15_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
-            slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(&other, old_slot);
+            this->no_grow_unique_transfer_insert(other, first);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index b689aa1..5e6567f 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -342,29 +342,13 @@ public:
         hasher_(std::move(other.hash_function_ref())),
         key_equal_(std::move(other.key_eq_ref())),
         allocator_(std::move(other.get_allocator_ref())),
-        group_allocator_(std::move(other.get_ctrl_allocator_ref())),
+        group_allocator_(std::move(other.get_group_allocator_ref())),
         slot_allocator_(std::move(other.get_slot_allocator_ref())) {
     }
 
-    group16_flat_table(group16_flat_table && other, allocator_type const & allocator) :
-        groups_(default_empty_groups()), slots_(nullptr),
-        slot_size_(0),
-        slot_mask_(size_type(-1)),
-        slot_threshold_(0),
-        group_mask_(0),
-#if GROUP16_USE_INDEX_SHIFT
-        index_shift_(kWordLength - 1),
-#endif
-        mlf_(kDefaultMaxLoadFactor),
-#if GROUP16_USE_SEPARATE_SLOTS
-        groups_alloc_(nullptr),
-#endif
-#if GROUP16_USE_HASH_POLICY
-        hash_policy_(std::move(other.hash_policy_ref())),
-#endif
-        hasher_(std::move(other.hash_function_ref())),
-        key_equal_(std::move(other.key_eq_ref())),
-        allocator_(allocator), group_allocator_(allocator), slot_allocator_(allocator) {
+    group16_flat_table(group16_flat_table && other, allocator_type const & allocator)
+        : group16_flat_table(kDefaultCapacity, other.hash_function_ref(), other.key_eq_ref(), allocator) {
+        this->mlf_ = other.mlf_;
         if (this->get_allocator_ref() == other.get_allocator_ref()) {
             // Swap content only
             this->swap_content(other);
@@ -376,8 +360,8 @@ public:
                 // Here we will move elements of [other] hashmap to this hashmap.
                 this->move_slots_from(other);
             }
-            // Destroy all data but needn't clear_slots().
-            other.destroy<false>();
+            // All elements of [other] hashmap have been moved, release its storage.
+            other.template destroy<true>();
         }
     }
 
@@ -1683,126 +1667,7 @@ private:
         assert(this->empty());
         assert(this != std::addressof(other));
         assert(other.size() > 0);
-        if (this->slot_capacity() == other.slot_capacity()) {
-            this->fast_move_slots_from(other);
-        } else {
-            try {
-                this->move_unique_insert(other, other.begin(), other.end());
-            } catch (const std::bad_alloc & ex) {
-                JSTD_UNUSED(ex);
-                this->destroy<true>();
-                throw std::bad_alloc();
-            } catch (...) {
-                this->destroy<true>();
-                throw;
-            }
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void fast_move_slots_from(group16_flat_table & other) {
-        if (this->slots() != nullptr && other.slots() != nullptr) {
-            move_groups_array_from(other);
-            move_slots_array_from(other);
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other) {
-        this->copy_groups_array_from(other, std::is_trivially_copy_assignable<group_type>{});
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other, std::true_type /* -> memcpy */) {
-        std::memcpy(
-            this->groups(), other.groups(),
-            other.group_capacity() * sizeof(group_type));
-
-        // Reset all of other groups
-        this->clear_groups(other.groups(), other.group_capacity());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_groups_array_from(group16_flat_table & other, std::false_type /* -> manual */) {
-        group_type * other_group = other.groups();
-        group_type * group = this->groups();
-        size_type index = 0;
-        size_type group_capacity = other.group_capacity();
-        while (index < group_capacity) {
-            group[index] = other_group[index];
-            // Reset one other group
-            other_group[index].init();
-            ++index;
-        }
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group16_flat_table & other) {
-        this->move_slots_array_from(
-            other,
-            std::integral_constant<bool, std::is_trivially_copy_constructible<element_type>::value &&
-                                        (jstd::is_std_allocator<Allocator>::value ||
-                                        !jstd::alloc_has_construct<Allocator, value_type *, const value_type &>::value)>{}
-        );
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group16_flat_table & other, std::true_type /* -> memcpy */) {
-        /*
-         * reinterpret_cast: GCC may complain about value_type not being trivially
-         * copy-assignable when we're relying on trivial copy constructibility.
-         */
-        std::memcpy(
-            reinterpret_cast<unsigned char *>(this->slots()),
-            reinterpret_cast<unsigned char *>(other.slots()),
-            other.slot_capacity() * sizeof(slot_type));
-
-        // Reset all of other slots
-        std::fill_n(other.slots(), other.slot_capacity(), slot_type());
-    }
-
-    JSTD_FORCED_INLINE
-    void move_slots_array_from(group16_flat_table & other, std::false_type /* -> manual */) {
-        const ctrl_type * ctrl = this->ctrls();
-        const ctrl_type * last_ctrl = this->last_ctrl();
-        slot_type * other_slot = other.slots();
-        slot_type * slot = this->slots();
-        ssize_type index = 0;
-
-        try {
-            while (ctrl < last_ctrl) {
-                if (ctrl->is_used()) {
-                    SlotPolicyTraits::construct(&this->slot_allocator_, &slot[index], &other_slot[index]);
-                    other.destroy_slot(&other_slot[index]);
-                }
-                ++index;
-                ++ctrl;
-            }
-        }
-        catch (const std::bad_alloc & ex) {
-            JSTD_UNUSED(ex);
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw std::bad_alloc();
-        } catch (...) {
-            if (index != 0) {
-                do {
-                    if (ctrl->is_used()) {
-                        SlotPolicyTraits::destroy(&this->slot_allocator_, &slot[index]);
-                    }
-                    --ctrl;
-                    --index;
-                } while (index >= 0);
-            }
-            throw;
-        }
+        this->move_unique_insert(other, other.begin(), other.end());
     }
 
     JSTD_FORCED_INLINE
@@ -2316,11 +2181,13 @@ private:
     }
 
     JSTD_FORCED_INLINE
-    void no_grow_unique_transfer_insert(group16_flat_table * other, slot_type * old_slot) {
+    void no_grow_unique_transfer_insert(group16_flat_table & other, iterator pos) {
+        size_type old_slot_index = pos.index();
+        slot_type * old_slot = other.slot_at(old_slot_index);
         assert(old_slot != nullptr);
         size_type slot_index = this->no_grow_unique_insert(old_slot->value.first);
         this->construct_new_slot(slot_index, old_slot);
-        other->destroy_slot(old_slot);
+        other.erase_slot(old_slot_index);
         assert(this->slot_size() <= this->slot_capacity());
     }
 
@@ -2343,22 +2210,10 @@ private:
         }
     }
 
-    JSTD_FORCED_INLINE
-    void move_unique_insert(iterator first, iterator last) {
-        this_type * other = first.hashmap();
-        assert(other != nullptr);
-        assert(other != this);
-        for (; first != last; ++first) {
-            slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(old_slot);
-        }
-    }
-
     JSTD_FORCED_INLINE
     void move_unique_insert(group16_flat_table & other, iterator first, iterator last) {
         for (; first != last; ++first) {
-            slot_type * old_slot = first.slot();
-            this->no_grow_unique_transfer_insert(other, old_slot);
+            this->no_grow_unique_transfer_insert(other, first);
         }
     }
 
-- 
2.43.0


From 70c4f7cd5114f57ee99657f80eb2d70d49b78125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:19 +0000
Subject: [PATCH 26/57] fix: group15/16_flat_map assignment keeps storage and
 allocator together

---
 src/jstd/hashmap/group15_flat_table.hpp | 24 +++++++++++++++++++++---
 src/jstd/hashmap/group16_flat_table.hpp | 24 +++++++++++++++++++++---
 2 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 6ca23b5..f0b3241 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -379,11 +379,14 @@ public:
     }
 
     group15_flat_table & operator = (const group15_flat_table & other) {
+        if (std::addressof(other) == this) {
+            return *this;
+        }
         group15_flat_table tmp(other,
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->swap_all(tmp);
         return *this;
     }
 
@@ -2590,7 +2593,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -2599,7 +2602,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -2643,6 +2646,21 @@ private:
         }
     }
 
+    // Use in the assignments: the storage always moves together with its allocator.
+    JSTD_FORCED_INLINE
+    void swap_all(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+#if GROUP15_USE_HASH_POLICY
+        swap(this->hash_policy_, other.hash_policy_ref());
+#endif
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->group_allocator_, other.get_group_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 5e6567f..51107ab 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -370,11 +370,14 @@ public:
     }
 
     group16_flat_table & operator = (const group16_flat_table & other) {
+        if (std::addressof(other) == this) {
+            return *this;
+        }
         group16_flat_table tmp(other,
                            AllocTraits::propagate_on_container_copy_assignment::value
                            ? other.get_allocator_ref()
                            : this->get_allocator_ref());
-        this->swap_impl(tmp);
+        this->swap_all(tmp);
         return *this;
     }
 
@@ -2457,7 +2460,7 @@ private:
     this_type & move_assign(this_type && other, std::true_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other));
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -2466,7 +2469,7 @@ private:
     this_type & move_assign(this_type && other, std::false_type) {
         if (std::addressof(other) != this) {
             this_type tmp(std::move(other), this->get_allocator_ref());
-            this->swap_impl(tmp);
+            this->swap_all(tmp);
         }
         return *this;
     }
@@ -2508,6 +2511,21 @@ private:
         }
     }
 
+    // Use in the assignments: the storage always moves together with its allocator.
+    JSTD_FORCED_INLINE
+    void swap_all(this_type & other) noexcept {
+        using std::swap;
+        this->swap_content(other);
+#if GROUP16_USE_HASH_POLICY
+        swap(this->hash_policy_, other.hash_policy_ref());
+#endif
+        swap(this->hasher_, other.hash_function_ref());
+        swap(this->key_equal_, other.key_eq_ref());
+        swap(this->allocator_, other.get_allocator_ref());
+        swap(this->group_allocator_, other.get_group_allocator_ref());
+        swap(this->slot_allocator_, other.get_slot_allocator_ref());
+    }
+
     JSTD_FORCED_INLINE
     void swap_impl(this_type & other) noexcept {
         this->swap_content(other);
-- 
2.43.0


From a1af64c48b6c9bcfea58553c7463b8c1d6f492c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 27/57] fix: group15/16_flat_map reserve(), rehash() and
 shrink_to_fit() keep the elements and their promises

---
 src/jstd/hashmap/group15_flat_table.hpp | 198 ++++++++++++++----------
 src/jstd/hashmap/group16_flat_table.hpp | 167 +++++++++++---------
 2 files changed, 204 insertions(+), 161 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index f0b3241..bf5d44a 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -682,8 +682,7 @@ public:
     JSTD_FORCED_INLINE
     void reserve_for_insert(size_type init_capacity) {
         assert(init_capacity > 0);
-        size_type new_capacity = this->shrink_to_fit_capacity(init_capacity);
-        new_capacity = this->calc_capacity(new_capacity);
+        size_type new_capacity = this->fit_capacity(init_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
         this->create_slots<true>(new_capacity);
@@ -700,11 +699,11 @@ public:
     //
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
-        if (JSTD_LIKELY(new_capacity != 0)) {
-            new_capacity = this->shrink_to_fit_capacity(new_capacity);
-            this->rehash_impl<false>(new_capacity);
-        } else {
-            this->destroy<true>();
+        // The slot threshold is the number of elements that can be held without growing.
+        if (new_capacity > this->slot_threshold()) {
+            new_capacity = this->fit_capacity(new_capacity);
+            new_capacity = (std::max)(new_capacity, this->ctrl_capacity());
+            this->resize_impl(new_capacity);
         }
     }
 
@@ -718,7 +717,15 @@ public:
     //
     JSTD_FORCED_INLINE
     void rehash(size_type new_capacity) {
-        size_type fit_to_now = this->shrink_to_fit_capacity(this->size());
+        size_type fit_to_now = (this->size() != 0) ? this->fit_capacity(this->size()) : 0;
+        if (new_capacity != 0) {
+            size_type bucket_count = new_capacity;
+            new_capacity = this->calc_capacity(bucket_count);
+            // Some ctrls of the groups are not slots.
+            if (this_type::calc_slot_capacity(this_type::calc_group_capacity(new_capacity)) < bucket_count) {
+                new_capacity *= 2;
+            }
+        }
         new_capacity = (std::max)(fit_to_now, new_capacity);
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<false>(new_capacity);
@@ -730,8 +737,8 @@ public:
     JSTD_FORCED_INLINE
     void shrink_to_fit(bool read_only = false) {
         size_type new_capacity;
-        if (JSTD_LIKELY(!read_only))
-            new_capacity = this->shrink_to_fit_capacity(this->size());
+        if (JSTD_LIKELY(!read_only && (this->size() != 0)))
+            new_capacity = this->fit_capacity(this->size());
         else
             new_capacity = this->size();
         if (JSTD_LIKELY(new_capacity != 0)) {
@@ -1186,6 +1193,10 @@ private:
         if (!run_time::is_pow2(new_capacity)) {
             new_capacity = run_time::round_up<size_type, kMinCapacity>(new_capacity);
         }
+        // Some ctrls of the groups are not slots.
+        if (this_type::calc_slot_capacity(this_type::calc_group_capacity(new_capacity)) < this->slot_size()) {
+            new_capacity *= 2;
+        }
         return new_capacity;
     }
 
@@ -1265,7 +1276,18 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + (this->mlf_ - 1)) / this->mlf_;
+        return new_capacity;
+    }
+
+    // Get the capacity that can hold [init_capacity] elements without growing.
+    inline size_type fit_capacity(size_type init_capacity) const noexcept {
+        size_type new_capacity = this->calc_capacity(this->shrink_to_fit_capacity(init_capacity));
+        // Some ctrls of the groups are not slots.
+        while (this->calc_slot_threshold(this_type::calc_slot_capacity(
+                    this_type::calc_group_capacity(new_capacity))) < init_capacity) {
+            new_capacity *= 2;
+        }
         return new_capacity;
     }
 
@@ -1896,95 +1918,103 @@ private:
         assert(new_capacity >= kMinCapacity);
         if ((!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
             (AllowShrink && (new_capacity != this->ctrl_capacity()))) {
-            if (!AllowShrink) {
-                assert(new_capacity >= this->slot_size());
-            }
+            this->resize_impl(new_capacity);
+        }
+    }
 
-            group_type * old_groups = this->groups();
-            group_type * old_groups_alloc = this->groups_alloc();
-            size_type old_group_capacity = this->group_capacity();
+    //
+    // Move all of the elements to a new table of the given capacity.
+    //
+    JSTD_NO_INLINE
+    void resize_impl(size_type new_capacity) {
+        assert(run_time::is_pow2(new_capacity));
+        assert(new_capacity >= kMinCapacity);
+        assert(new_capacity >= this->slot_size());
 
-            slot_type * old_slots = this->slots();
-            slot_type * old_last_slot = this->safe_last_slot();
-            size_type old_slot_size = this->slot_size();
+        group_type * old_groups = this->groups();
+        group_type * old_groups_alloc = this->groups_alloc();
+        size_type old_group_capacity = this->group_capacity();
 
-            this->create_slots<false>(new_capacity);
+        slot_type * old_slots = this->slots();
+        slot_type * old_last_slot = this->safe_last_slot();
+        size_type old_slot_size = this->slot_size();
 
-            std::exception_ptr error;
+        this->create_slots<false>(new_capacity);
 
-            if (old_groups != this_type::default_empty_groups()) {
-                assert(old_groups != nullptr);
-                assert(old_slots != nullptr);
-                assert(old_group_capacity > 0);
-                // The sentinel mark is not a element.
-                group_type * tail_group = old_groups + (old_group_capacity - 1);
-                tail_group->set_empty(kGroupSize - 1);
+        std::exception_ptr error;
 
-                group_type * group = old_groups;
-                slot_type * slot_base = old_slots;
-                std::uint32_t used_mask = group->match_used();
+        if (old_groups != this_type::default_empty_groups()) {
+            assert(old_groups != nullptr);
+            assert(old_slots != nullptr);
+            assert(old_group_capacity > 0);
+            // The sentinel mark is not a element.
+            group_type * tail_group = old_groups + (old_group_capacity - 1);
+            tail_group->set_empty(kGroupSize - 1);
 
-                try {
-                    for (;;) {
-                        //JSTD_ASSUME(slot_base != nullptr);
-                        //jstd::CPU_Prefetch_Read_T0((const void *)&slot_base->get_key());
-                        while (used_mask != 0) {
-                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
-                            slot_type * old_slot = slot_base + used_pos;
-                            assert(old_slot < old_last_slot);
-                            this->no_grow_unique_transfer_insert(old_slot);
-                            //this->destroy_slot(old_slot);
-                            used_mask = BitUtils::clearLowBit32(used_mask);
-                        }
-                        if (++group > tail_group)
-                            break;
-                        slot_base += kGroupSize;
-                        used_mask = group->match_used();
+            group_type * group = old_groups;
+            slot_type * slot_base = old_slots;
+            std::uint32_t used_mask = group->match_used();
+
+            try {
+                for (;;) {
+                    //JSTD_ASSUME(slot_base != nullptr);
+                    //jstd::CPU_Prefetch_Read_T0((const void *)&slot_base->get_key());
+                    while (used_mask != 0) {
+                        std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                        slot_type * old_slot = slot_base + used_pos;
+                        assert(old_slot < old_last_slot);
+                        this->no_grow_unique_transfer_insert(old_slot);
+                        //this->destroy_slot(old_slot);
+                        used_mask = BitUtils::clearLowBit32(used_mask);
                     }
-                } catch (...) {
-                    // The elements which have not been moved can't be kept.
-                    error = std::current_exception();
-                    for (;;) {
-                        while (used_mask != 0) {
-                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
-                            this->destroy_slot(slot_base + used_pos);
-                            used_mask = BitUtils::clearLowBit32(used_mask);
-                        }
-                        if (++group > tail_group)
-                            break;
-                        slot_base += kGroupSize;
-                        used_mask = group->match_used();
+                    if (++group > tail_group)
+                        break;
+                    slot_base += kGroupSize;
+                    used_mask = group->match_used();
+                }
+            } catch (...) {
+                // The elements which have not been moved can't be kept.
+                error = std::current_exception();
+                for (;;) {
+                    while (used_mask != 0) {
+                        std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                        this->destroy_slot(slot_base + used_pos);
+                        used_mask = BitUtils::clearLowBit32(used_mask);
                     }
+                    if (++group > tail_group)
+                        break;
+                    slot_base += kGroupSize;
+                    used_mask = group->match_used();
                 }
             }
+        }
 
-            assert(error || (this->slot_size() == old_slot_size));
-            // A table that shrinks to 100% usage can exceed the load factor.
-            this->slot_threshold_ = (std::max)(this->slot_threshold_, this->slot_size_);
+        assert(error || (this->slot_size() == old_slot_size));
+        // A table that shrinks to 100% usage can exceed the load factor.
+        this->slot_threshold_ = (std::max)(this->slot_threshold_, this->slot_size_);
 
 #if GROUP15_USE_SEPARATE_SLOTS
-            if (old_groups != this_type::default_empty_groups()) {
-                assert(old_groups_alloc != nullptr);
-                size_type total_group_alloc_count = this->TotalGroupAllocCount<kGroupAlignment>(old_group_capacity);
-                GroupAllocTraits::deallocate(this->group_allocator_, old_groups_alloc, total_group_alloc_count);
-            }
-            if (old_slots != nullptr) {
-                size_type old_slot_capacity = this_type::calc_slot_capacity(old_group_capacity);
-                assert(old_slot_capacity != 0);
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_slot_capacity);
-            }
+        if (old_groups != this_type::default_empty_groups()) {
+            assert(old_groups_alloc != nullptr);
+            size_type total_group_alloc_count = this->TotalGroupAllocCount<kGroupAlignment>(old_group_capacity);
+            GroupAllocTraits::deallocate(this->group_allocator_, old_groups_alloc, total_group_alloc_count);
+        }
+        if (old_slots != nullptr) {
+            size_type old_slot_capacity = this_type::calc_slot_capacity(old_group_capacity);
+            assert(old_slot_capacity != 0);
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_slot_capacity);
+        }
 #else
-            if (old_slots != nullptr) {
-                size_type old_slot_capacity = this_type::calc_slot_capacity(old_group_capacity);
-                assert(old_slot_capacity != 0);
-                size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(
-                                                         old_group_capacity, old_slot_capacity);
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
-            }
+        if (old_slots != nullptr) {
+            size_type old_slot_capacity = this_type::calc_slot_capacity(old_group_capacity);
+            assert(old_slot_capacity != 0);
+            size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(
+                                                     old_group_capacity, old_slot_capacity);
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
+        }
 #endif
-            if (error) {
-                std::rethrow_exception(error);
-            }
+        if (error) {
+            std::rethrow_exception(error);
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 51107ab..c36bad5 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -640,19 +640,18 @@ public:
     //
     JSTD_FORCED_INLINE
     void reserve(size_type new_capacity) {
-        if (JSTD_LIKELY(new_capacity != 0)) {
-            new_capacity = this->shrink_to_fit_capacity(new_capacity);
-            this->rehash_impl<false>(new_capacity);
-        } else {
-            this->destroy<true>();
+        // The slot threshold is the number of elements that can be held without growing.
+        if (new_capacity > this->slot_threshold()) {
+            new_capacity = this->fit_capacity(new_capacity);
+            new_capacity = (std::max)(new_capacity, this->ctrl_capacity());
+            this->resize_impl(new_capacity);
         }
     }
 
     JSTD_FORCED_INLINE
     void reserve_for_insert(size_type init_capacity) {
         assert(init_capacity > 0);
-        size_type new_capacity = this->shrink_to_fit_capacity(init_capacity);
-        new_capacity = this->calc_capacity(new_capacity);
+        size_type new_capacity = this->fit_capacity(init_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
         this->create_slots<true>(new_capacity);
@@ -668,7 +667,7 @@ public:
     //
     JSTD_FORCED_INLINE
     void rehash(size_type new_capacity) {
-        size_type fit_to_now = this->shrink_to_fit_capacity(this->size());
+        size_type fit_to_now = (this->size() != 0) ? this->fit_capacity(this->size()) : 0;
         new_capacity = (std::max)(fit_to_now, new_capacity);
         if (JSTD_LIKELY(new_capacity != 0)) {
             this->rehash_impl<true>(new_capacity);
@@ -680,8 +679,8 @@ public:
     JSTD_FORCED_INLINE
     void shrink_to_fit(bool read_only = false) {
         size_type new_capacity;
-        if (JSTD_LIKELY(!read_only))
-            new_capacity = this->shrink_to_fit_capacity(this->size());
+        if (JSTD_LIKELY(!read_only && (this->size() != 0)))
+            new_capacity = this->fit_capacity(this->size());
         else
             new_capacity = this->size();
         if (JSTD_LIKELY(new_capacity != 0)) {
@@ -1194,7 +1193,13 @@ private:
     }
 
     inline size_type shrink_to_fit_capacity(size_type init_capacity) const noexcept {
-        size_type new_capacity = init_capacity * kLoadFactorAmplify / this->mlf_;
+        size_type new_capacity = (init_capacity * kLoadFactorAmplify + (this->mlf_ - 1)) / this->mlf_;
+        return new_capacity;
+    }
+
+    // Get the capacity that can hold [init_capacity] elements without growing.
+    inline size_type fit_capacity(size_type init_capacity) const noexcept {
+        size_type new_capacity = this->calc_capacity(this->shrink_to_fit_capacity(init_capacity));
         return new_capacity;
     }
 
@@ -1824,87 +1829,95 @@ private:
         assert(new_capacity >= kMinCapacity);
         if ((!AllowShrink && (new_capacity > this->ctrl_capacity())) ||
             (AllowShrink && (new_capacity != this->ctrl_capacity()))) {
-            if (!AllowShrink) {
-                assert(new_capacity >= this->slot_size());
-            }
+            this->resize_impl(new_capacity);
+        }
+    }
 
-            group_type * old_groups = this->groups();
-            group_type * old_groups_alloc = this->groups_alloc();
-            size_type old_group_capacity = this->group_capacity();
+    //
+    // Move all of the elements to a new table of the given capacity.
+    //
+    JSTD_NO_INLINE
+    void resize_impl(size_type new_capacity) {
+        assert(run_time::is_pow2(new_capacity));
+        assert(new_capacity >= kMinCapacity);
+        assert(new_capacity >= this->slot_size());
 
-            slot_type * old_slots = this->slots();
-            slot_type * old_last_slot = this->last_slot();
-            size_type old_slot_size = this->slot_size();
-            size_type old_slot_mask = this->slot_mask();
-            size_type old_slot_capacity = this->slot_capacity();
-            size_type old_slot_threshold = this->slot_threshold();
+        group_type * old_groups = this->groups();
+        group_type * old_groups_alloc = this->groups_alloc();
+        size_type old_group_capacity = this->group_capacity();
 
-            this->create_slots<false>(new_capacity);
+        slot_type * old_slots = this->slots();
+        slot_type * old_last_slot = this->last_slot();
+        size_type old_slot_size = this->slot_size();
+        size_type old_slot_mask = this->slot_mask();
+        size_type old_slot_capacity = this->slot_capacity();
+        size_type old_slot_threshold = this->slot_threshold();
 
-            std::exception_ptr error;
+        this->create_slots<false>(new_capacity);
 
-            if (old_groups != this_type::default_empty_groups()) {
-                auto mask_bits = group_type::make_mask_bits();
-                group_type * group = old_groups;
-                group_type * last_group = old_groups + old_group_capacity;
-                slot_type * slot_base = old_slots;
-                std::uint32_t used_mask = group->match_used(mask_bits);
+        std::exception_ptr error;
+
+        if (old_groups != this_type::default_empty_groups()) {
+            auto mask_bits = group_type::make_mask_bits();
+            group_type * group = old_groups;
+            group_type * last_group = old_groups + old_group_capacity;
+            slot_type * slot_base = old_slots;
+            std::uint32_t used_mask = group->match_used(mask_bits);
 
-                try {
-                    for (;;) {
-                        while (used_mask != 0) {
-                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
-                            slot_type * old_slot = slot_base + used_pos;
-                            assert(old_slot < old_last_slot);
-                            this->no_grow_unique_transfer_insert(old_slot);
-                            //this->destroy_slot(old_slot);
-                            used_mask = BitUtils::clearLowBit32(used_mask);
-                        }
-                        if (++group >= last_group)
-                            break;
-                        slot_base += kGroupWidth;
-                        used_mask = group->match_used(mask_bits);
+            try {
+                for (;;) {
+                    while (used_mask != 0) {
+                        std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                        slot_type * old_slot = slot_base + used_pos;
+                        assert(old_slot < old_last_slot);
+                        this->no_grow_unique_transfer_insert(old_slot);
+                        //this->destroy_slot(old_slot);
+                        used_mask = BitUtils::clearLowBit32(used_mask);
                     }
-                } catch (...) {
-                    // The elements which have not been moved can't be kept.
-                    error = std::current_exception();
-                    for (;;) {
-                        while (used_mask != 0) {
-                            std::uint32_t used_pos = BitUtils::bsf32(used_mask);
-                            this->destroy_slot(slot_base + used_pos);
-                            used_mask = BitUtils::clearLowBit32(used_mask);
-                        }
-                        if (++group >= last_group)
-                            break;
-                        slot_base += kGroupWidth;
-                        used_mask = group->match_used(mask_bits);
+                    if (++group >= last_group)
+                        break;
+                    slot_base += kGroupWidth;
+                    used_mask = group->match_used(mask_bits);
+                }
+            } catch (...) {
+                // The elements which have not been moved can't be kept.
+                error = std::current_exception();
+                for (;;) {
+                    while (used_mask != 0) {
+                        std::uint32_t used_pos = BitUtils::bsf32(used_mask);
+                        this->destroy_slot(slot_base + used_pos);
+                        used_mask = BitUtils::clearLowBit32(used_mask);
                     }
+                    if (++group >= last_group)
+                        break;
+                    slot_base += kGroupWidth;
+                    used_mask = group->match_used(mask_bits);
                 }
             }
+        }
 
-            assert(error || (this->slot_size() == old_slot_size));
-            // A table that shrinks to 100% usage can exceed the load factor.
-            this->slot_threshold_ = (std::max)(this->slot_threshold_, this->slot_size_);
+        assert(error || (this->slot_size() == old_slot_size));
+        // A table that shrinks to 100% usage can exceed the load factor.
+        this->slot_threshold_ = (std::max)(this->slot_threshold_, this->slot_size_);
 
 #if GROUP16_USE_SEPARATE_SLOTS
-            if (old_groups != this_type::default_empty_groups()) {
-                assert(old_groups_alloc != nullptr);
-                size_type total_group_alloc_count = this->TotalGroupAllocCount<kGroupAlignment>(old_group_capacity);
-                GroupAllocTraits::deallocate(this->group_allocator_, old_groups_alloc, total_group_alloc_count);
-            }
-            if (old_slots != nullptr) {
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_slot_capacity);
-            }
+        if (old_groups != this_type::default_empty_groups()) {
+            assert(old_groups_alloc != nullptr);
+            size_type total_group_alloc_count = this->TotalGroupAllocCount<kGroupAlignment>(old_group_capacity);
+            GroupAllocTraits::deallocate(this->group_allocator_, old_groups_alloc, total_group_alloc_count);
+        }
+        if (old_slots != nullptr) {
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, old_slot_capacity);
+        }
 #else
-            if (old_slots != nullptr) {
-                size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(
-                                                         old_group_capacity, old_slot_capacity);
-                SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
-            }
+        if (old_slots != nullptr) {
+            size_type total_slot_alloc_count = this->TotalSlotAllocCount<kGroupAlignment>(
+                                                     old_group_capacity, old_slot_capacity);
+            SlotAllocTraits::deallocate(this->slot_allocator_, old_slots, total_slot_alloc_count);
+        }
 #endif
-            if (error) {
-                std::rethrow_exception(error);
-            }
+        if (error) {
+            std::rethrow_exception(error);
         }
     }
 
-- 
2.43.0


From 31ca46f53f9d608d8c3b5bd063c29a4a06661c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 28/57] fix: group15/16_flat_map::max_load_factor() applies to
 the existing table

---
 src/jstd/hashmap/group15_flat_table.hpp | 17 +++++++++++++----
 src/jstd/hashmap/group16_flat_table.hpp | 17 +++++++++++++----
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index bf5d44a..baf5468 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -594,12 +594,21 @@ public:
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
+        size_type old_mlf = this->mlf_;
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
-        size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
-        if (new_ctrl_capacity > this->ctrl_capacity()) {
-            this->rehash(new_ctrl_capacity);
+        size_type slot_capacity = this->safe_slot_capacity();
+        if (slot_capacity != 0) {
+            size_type old_slot_threshold = this_type::calc_slot_threshold(old_mlf, slot_capacity);
+            size_type new_slot_threshold = this->calc_slot_threshold(slot_capacity);
+            if (this->size() > new_slot_threshold) {
+                this->resize_impl(this->fit_capacity(this->size()));
+            } else {
+                // The threshold that the erased slots have taken away is still missing.
+                size_type lost_threshold = old_slot_threshold - (std::min)(old_slot_threshold, this->slot_threshold_);
+                new_slot_threshold -= (std::min)(new_slot_threshold, lost_threshold);
+                this->slot_threshold_ = (std::max)(new_slot_threshold, this->size());
+            }
         }
     }
 
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index c36bad5..6784c7c 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -557,12 +557,21 @@ public:
         if (mlf > kMaxLoadFactorF)
             mlf = kMaxLoadFactorF;
         size_type mlf_int = static_cast<size_type>((float)kLoadFactorAmplify * mlf);
+        size_type old_mlf = this->mlf_;
         this->mlf_ = mlf_int;
 
-        size_type new_capacity = this->shrink_to_fit_capacity(this->ctrl_capacity());
-        size_type new_ctrl_capacity = this->calc_capacity(new_capacity);
-        if (new_ctrl_capacity > this->ctrl_capacity()) {
-            this->rehash(new_ctrl_capacity);
+        size_type slot_capacity = this->slot_capacity();
+        if (slot_capacity != 0) {
+            size_type old_slot_threshold = this_type::calc_slot_threshold(old_mlf, slot_capacity);
+            size_type new_slot_threshold = this->calc_slot_threshold(slot_capacity);
+            if (this->size() > new_slot_threshold) {
+                this->resize_impl(this->fit_capacity(this->size()));
+            } else {
+                // The threshold that the erased slots have taken away is still missing.
+                size_type lost_threshold = old_slot_threshold - (std::min)(old_slot_threshold, this->slot_threshold_);
+                new_slot_threshold -= (std::min)(new_slot_threshold, lost_threshold);
+                this->slot_threshold_ = (std::max)(new_slot_threshold, this->size());
+            }
         }
     }
 
-- 
2.43.0


From f9703b7b16cbf07197e3d16f180323068de0bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 29/57] fix: group16_flat_map never raises the slot threshold
 above the load factor

---
 src/jstd/hashmap/group16_flat_table.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 6784c7c..9f6cc02 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -2071,6 +2071,9 @@ private:
 #if GROUP16_USE_NEW_OVERFLOW
                     // If overflow bit is 1, and found a empty slot, the slot must be a deleted slot.
                     bool is_deleted_slot = group->is_overflow(ctrl_hash);
+                    // But the slot threshold was only lowered if the deleted key has the same overflow bit.
+                    is_deleted_slot = is_deleted_slot &&
+                                      (this->slot_threshold_ < this->calc_slot_threshold(this->slot_capacity()));
                     this->slot_threshold_ += is_deleted_slot;
                     assert(this->slot_threshold_ <= this->slot_capacity());
 #endif
-- 
2.43.0


From e1c33332575a48ef9c1e4ab5e3b065f7d5d939c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 30/57] fix: group15/16_flat_map::clear() restores the slot
 threshold, and leaves the shared empty groups alone

---
 src/jstd/hashmap/group15_flat_table.hpp | 7 +++++++
 src/jstd/hashmap/group16_flat_table.hpp | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index baf5468..8942f2d 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1583,12 +1583,19 @@ private:
 
     JSTD_FORCED_INLINE
     void clear_data() {
+        if (this->slots_ == nullptr) {
+            // There is nothing to clear, and the default empty groups are shared.
+            return;
+        }
+
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
         this->clear_groups(this->groups(), this->group_capacity());
 
         // Set the sentinel mark
         this_type::set_sentinel_mark(this->groups(), this->group_capacity());
+
+        this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
     }
 
     JSTD_FORCED_INLINE
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 9f6cc02..42a0a9c 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -1532,6 +1532,8 @@ private:
         // Note!!: clear_slots() need use this->ctrls(), so must clear slots first.
         this->clear_slots();
         this->clear_groups(this->groups(), this->group_capacity());
+
+        this->slot_threshold_ = this->calc_slot_threshold(this->slot_capacity());
     }
 
     JSTD_FORCED_INLINE
-- 
2.43.0


From 3c1ffb32c82b938a81554817fda72809062d2a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 31/57] fix: group15_flat_map::bucket() compiles

---
 src/jstd/hashmap/group15_flat_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 8942f2d..493b7ab 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -568,8 +568,8 @@ public:
     }
 
     size_type bucket(const key_type & key) const {
-        size_type ctrl_index = this->find_impl(key);
-        return ctrl_index;
+        locator_t locator = this->find_impl(key);
+        return (locator.slot() != nullptr) ? this->index_of(locator.slot()) : this->safe_slot_capacity();
     }
 
     ///
-- 
2.43.0


From 2d255264ea79711bfec2928735359a734e85d40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 32/57] fix: hash maps reject a capacity whose storage size
 overflows

---
 src/jstd/hashmap/group15_flat_table.hpp | 11 +++++++++++
 src/jstd/hashmap/group16_flat_table.hpp | 11 +++++++++++
 src/jstd/hashmap/robin_hash_map.h       |  9 +++++++++
 3 files changed, 31 insertions(+)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 493b7ab..8c3d964 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -61,6 +61,7 @@
 #include <limits>           // For std::numeric_limits<T>, CHAR_BIT
 #include <initializer_list>
 #include <exception>
+#include <stdexcept>        // For std::length_error
 #include <type_traits>
 #include <algorithm>        // For std::max()
 #include <utility>          // For std::pair<F, S>
@@ -691,6 +692,7 @@ public:
     JSTD_FORCED_INLINE
     void reserve_for_insert(size_type init_capacity) {
         assert(init_capacity > 0);
+        this_type::check_capacity(init_capacity);
         size_type new_capacity = this->fit_capacity(init_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
@@ -710,6 +712,7 @@ public:
     void reserve(size_type new_capacity) {
         // The slot threshold is the number of elements that can be held without growing.
         if (new_capacity > this->slot_threshold()) {
+            this_type::check_capacity(new_capacity);
             new_capacity = this->fit_capacity(new_capacity);
             new_capacity = (std::max)(new_capacity, this->ctrl_capacity());
             this->resize_impl(new_capacity);
@@ -726,6 +729,7 @@ public:
     //
     JSTD_FORCED_INLINE
     void rehash(size_type new_capacity) {
+        this_type::check_capacity(new_capacity);
         size_type fit_to_now = (this->size() != 0) ? this->fit_capacity(this->size()) : 0;
         if (new_capacity != 0) {
             size_type bucket_count = new_capacity;
@@ -1195,6 +1199,13 @@ private:
         return reinterpret_cast<ctrl_type *>(this_type::default_empty_groups());
     }
 
+    // The sizes of the storage that a bigger capacity needs can overflow.
+    static inline void check_capacity(size_type capacity) {
+        if (capacity > (static_cast<size_type>((std::numeric_limits<std::ptrdiff_t>::max)()) / sizeof(slot_type) / 8)) {
+            throw std::length_error("jstd::group15_flat_map: the capacity is too large.");
+        }
+    }
+
     JSTD_FORCED_INLINE
     size_type calc_capacity(size_type init_capacity) const noexcept {
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index 42a0a9c..a613eac 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -61,6 +61,7 @@
 #include <limits>           // For std::numeric_limits<T>, CHAR_BIT
 #include <initializer_list>
 #include <exception>
+#include <stdexcept>        // For std::length_error
 #include <type_traits>
 #include <algorithm>        // For std::max()
 #include <utility>          // For std::pair<F, S>
@@ -651,6 +652,7 @@ public:
     void reserve(size_type new_capacity) {
         // The slot threshold is the number of elements that can be held without growing.
         if (new_capacity > this->slot_threshold()) {
+            this_type::check_capacity(new_capacity);
             new_capacity = this->fit_capacity(new_capacity);
             new_capacity = (std::max)(new_capacity, this->ctrl_capacity());
             this->resize_impl(new_capacity);
@@ -660,6 +662,7 @@ public:
     JSTD_FORCED_INLINE
     void reserve_for_insert(size_type init_capacity) {
         assert(init_capacity > 0);
+        this_type::check_capacity(init_capacity);
         size_type new_capacity = this->fit_capacity(init_capacity);
         assert(new_capacity > 0);
         assert(new_capacity >= kMinCapacity);
@@ -676,6 +679,7 @@ public:
     //
     JSTD_FORCED_INLINE
     void rehash(size_type new_capacity) {
+        this_type::check_capacity(new_capacity);
         size_type fit_to_now = (this->size() != 0) ? this->fit_capacity(this->size()) : 0;
         new_capacity = (std::max)(fit_to_now, new_capacity);
         if (JSTD_LIKELY(new_capacity != 0)) {
@@ -1139,6 +1143,13 @@ private:
         return reinterpret_cast<ctrl_type *>(this_type::default_empty_groups());
     }
 
+    // The sizes of the storage that a bigger capacity needs can overflow.
+    static inline void check_capacity(size_type capacity) {
+        if (capacity > (static_cast<size_type>((std::numeric_limits<std::ptrdiff_t>::max)()) / sizeof(slot_type) / 8)) {
+            throw std::length_error("jstd::group16_flat_map: the capacity is too large.");
+        }
+    }
+
     JSTD_FORCED_INLINE
     size_type calc_capacity(size_type init_capacity) const noexcept {
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index e305413..8effa01 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3474,6 +3474,7 @@ public:
     }
 
     void rehash(size_type new_capacity, bool read_only = false) {
+        this_type::check_capacity(new_capacity);
         if (!read_only)
             new_capacity = (std::max)(this->min_require_capacity(new_capacity), this->slot_size());
         else
@@ -3793,6 +3794,13 @@ private:
             return reinterpret_cast<ctrl_type *>(const_cast<ctrl_data<void, true, true> *>(&s_empty_ctrls11[0]));
     }
 
+    // The sizes of the storage that a bigger capacity needs can overflow.
+    static inline void check_capacity(size_type capacity) {
+        if (capacity > (static_cast<size_type>((std::numeric_limits<std::ptrdiff_t>::max)()) / sizeof(slot_type) / 8)) {
+            throw std::length_error("jstd::robin_hash_map: the capacity is too large.");
+        }
+    }
+
     JSTD_FORCED_INLINE
     size_type calc_capacity(size_type init_capacity) const noexcept {
         size_type new_capacity = (std::max)(init_capacity, kMinCapacity);
@@ -4231,6 +4239,7 @@ private:
 
     JSTD_FORCED_INLINE
     void reserve_for_insert(size_type init_capacity) {
+        this_type::check_capacity(init_capacity);
         size_type new_capacity = this->min_require_capacity(init_capacity);
         this->create_slots<true>(new_capacity);
     }
-- 
2.43.0


From 76e67b9f8228564c17a4baa1d0edc59a6a11400e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 33/57] fix: MT19937 generators do not skip a number after
 srand()

---
 src/jstd/system/MT19937_32.h | 6 +++---
 src/jstd/system/MT19937_64.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 466b3bb..e0e29cc 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;     // The next rand() regenerates the state.
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 57256a7..0996da8 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -264,17 +264,17 @@ private:
 public:
     void srand(value_type initSeed = kMTDefaultSeed) {
         this->init(initSeed);
-        this->next_state();
+        this->left = 1;     // The next rand() regenerates the state.
     }
 
     void srand(const value_type * init_key, size_type key_len, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, key_len, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     void srand(const std::vector<value_type> & init_key, value_type initSeed = kMTDefaultSeed) {
         this->init(init_key, initSeed);
-        this->next_state();
+        this->left = 1;
     }
 
     value_type rand() {
-- 
2.43.0


From 831e9d86eb1c15c50bf69ab515372bfbcdcd81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 34/57] fix: a copied MT19937 generator draws from its own
 state

---
 src/jstd/system/MT19937_32.h | 18 ++++++++++++++++++
 src/jstd/system/MT19937_64.h | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index e0e29cc..8d7abd2 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -165,6 +165,15 @@ public:
         this->init(init_key, initSeed);
     }
 
+    MT19937_32(const MT19937_32 & src) : next(nullptr), left(1) {
+        this->copy_from(src);
+    }
+
+    MT19937_32 & operator = (const MT19937_32 & rhs) {
+        this->copy_from(rhs);
+        return *this;
+    }
+
     ~MT19937_32() {}
 
     value_type rand_max() const {
@@ -172,6 +181,15 @@ public:
     }
 
 private:
+    // The copy draws from its own state.
+    void copy_from(const MT19937_32 & src) {
+        this->next = (src.next != nullptr) ? (&this->state[0] + (src.next - &src.state[0])) : nullptr;
+        this->left = src.left;
+        for (size_type j = 0; j < N; ++j) {
+            this->state[j] = src.state[j];
+        }
+    }
+
     void init(value_type initSeed = kMTDefaultSeed) {
         if (initSeed == 0) {
             time_t timer;
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 0996da8..941454e 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -165,6 +165,15 @@ public:
         this->init(init_key, initSeed);
     }
 
+    MT19937_64(const MT19937_64 & src) : next(nullptr), left(1) {
+        this->copy_from(src);
+    }
+
+    MT19937_64 & operator = (const MT19937_64 & rhs) {
+        this->copy_from(rhs);
+        return *this;
+    }
+
     ~MT19937_64() {}
 
     value_type rand_max() const {
@@ -172,6 +181,15 @@ public:
     }
 
 private:
+    // The copy draws from its own state.
+    void copy_from(const MT19937_64 & src) {
+        this->next = (src.next != nullptr) ? (&this->state[0] + (src.next - &src.state[0])) : nullptr;
+        this->left = src.left;
+        for (size_type j = 0; j < N; ++j) {
+            this->state[j] = src.state[j];
+        }
+    }
+
     void init(value_type initSeed = kMTDefaultSeed) {
         if (initSeed == 0) {
             time_t timer;
-- 
2.43.0


From 30b442cc3bec531f71848ae0325837562991ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 35/57] fix: MT19937 seeding with an empty key array reads
 nothing

---
 src/jstd/system/MT19937_32.h | 2 ++
 src/jstd/system/MT19937_64.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 8d7abd2..65f9e79 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -223,6 +223,8 @@ private:
 
     template <typename ValueList>
     void init_keys(const ValueList & init_key, size_type key_len) {
+        if (key_len == 0)
+            return;
         size_type i = 1, j = 0;
         size_type k = (N > key_len) ? N : key_len;
         for (; k > 0; --k) {
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 941454e..35ee8b4 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -223,6 +223,8 @@ private:
 
     template <typename ValueList>
     void init_keys(const ValueList & init_key, size_type key_len) {
+        if (key_len == 0)
+            return;
         size_type i = 1, j = 0;
         size_type k = (N > key_len) ? N : key_len;
         for (; k > 0; --k) {
-- 
2.43.0


From 8e29dd61d6a685ba86103be0214cd0c917578b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 36/57] fix: MT19937_64 produces the MT19937-64 sequence

---
 src/jstd/system/MT19937_64.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index 35ee8b4..e2ee26c 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -198,7 +198,7 @@ private:
         }
         this->state[0] = initSeed;
         for (size_type j = 1; j < N; ++j) {
-            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 30)) + (value_type)j);
+            this->state[j] = (6364136223846793005ull * (this->state[j - 1] ^ (this->state[j - 1] >> 62)) + (value_type)j);
             // See Knuth TAOCP Vol2. 3rd Ed. P.106 for multiplier.
             // In the previous versions, MSBs of the seed affect
             // only MSBs of the array state[].
@@ -229,8 +229,8 @@ private:
         size_type k = (N > key_len) ? N : key_len;
         for (; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1664525ul)) + init_key[j] + (value_type)j;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 3935559000370003845ull)) + init_key[j] + (value_type)j;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             ++j;
@@ -244,8 +244,8 @@ private:
 
         for (k = N - 1; k > 0; --k) {
             // non linear
-            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 30))
-                                                * (value_type)1566083941ul)) - (value_type)i;
+            this->state[i] = (this->state[i] ^ ((this->state[i - 1] ^ (this->state[i - 1] >> 62))
+                                                * 2862933555777941757ull)) - (value_type)i;
             this->state[i] &= 0xFFFFFFFFFFFFFFFFull;
             ++i;
             if (i >= N) {
@@ -274,7 +274,7 @@ private:
     }
 
     value_type mixbits(value_type u, value_type v) const {
-        return (u & 0x8000000000000000ull) | (v & 0x7FFFFFFFFFFFFFFFull);
+        return (u & 0xFFFFFFFF80000000ull) | (v & 0x7FFFFFFFull);
     }
 
     value_type twist(value_type u, value_type v) const {
-- 
2.43.0


From b914072cd29d594476b44d228ecdb6ffd1164bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 37/57] fix: bounded integer draws work for every range

---
 src/jstd/system/RandomGen.h | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 7101494..4a2e621 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -110,7 +110,7 @@ public:
         return this_type::getInstance().nextUInt64();
     }
 
-    static std::size_t nextInt() {
+    static std::intptr_t nextInt() {
         return this_type::getInstance().nextInt();
     }
 
@@ -160,7 +160,7 @@ public:
     }
 
     static std::intptr_t nextInt(std::intptr_t maxValue) {
-        return this_type::nextUInt(0, maxValue);
+        return this_type::nextInt(0, maxValue);
     }
 
     static std::size_t nextUInt(std::size_t minValue, std::size_t maxValue) {
@@ -239,17 +239,14 @@ private:
 
     template <typename ValueType, typename UnsignedType = ValueType>
     static ValueType nextInteger(ValueType minValue, ValueType maxValue) {
-        ValueType result;
-        if (minValue <= maxValue) {
-            result = minValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(maxValue - minValue + 1));
-        }
-        else {
-            assert(minValue > maxValue);
-            result = maxValue + (this_type::template nextInteger<ValueType>() %
-                                 UnsignedType(minValue - maxValue + 1));
-        }
-        return result;
+        ValueType lower = (minValue <= maxValue) ? minValue : maxValue;
+        ValueType upper = (minValue <= maxValue) ? maxValue : minValue;
+        UnsignedType range = UnsignedType(upper) - UnsignedType(lower) + 1;
+        UnsignedType offset = UnsignedType(this_type::template nextInteger<ValueType>());
+        // A range of 0 means every value of the type is allowed.
+        if (range != 0)
+            offset %= range;
+        return ValueType(UnsignedType(lower) + offset);
     }
 
     template <typename ValueType, typename UnsignedType = ValueType>
-- 
2.43.0


From a32c135b6f184162385afba3a8162c0f6a44ea19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 38/57] fix: bounded floating-point draws never round past
 their bound

---
 src/jstd/system/RandomGen.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/jstd/system/RandomGen.h b/src/jstd/system/RandomGen.h
index 4a2e621..af38d8e 100644
--- a/src/jstd/system/RandomGen.h
+++ b/src/jstd/system/RandomGen.h
@@ -190,9 +190,13 @@ public:
         float result;
         if (minValue < maxValue) {
             result = minValue + (this_type::nextFloat() * (maxValue - minValue));
+            if (result > maxValue)  // Rounding
+                result = maxValue;
         }
         else if (minValue > maxValue) {
             result = maxValue + (this_type::nextFloat() * (minValue - maxValue));
+            if (result > minValue)  // Rounding
+                result = minValue;
         }
         else {
             result = minValue;
@@ -204,9 +208,13 @@ public:
         double result;
         if (minValue < maxValue) {
             result = minValue + (this_type::nextDouble() * (maxValue - minValue));
+            if (result > maxValue)  // Rounding
+                result = maxValue;
         }
         else if (minValue > maxValue) {
             result = maxValue + (this_type::nextDouble() * (minValue - maxValue));
+            if (result > minValue)  // Rounding
+                result = minValue;
         }
         else {
             result = minValue;
@@ -218,9 +226,13 @@ public:
         double result;
         if (minValue < maxValue) {
             result = minValue + (this_type::nextDouble53() * (maxValue - minValue));
+            if (result > maxValue)  // Rounding
+                result = maxValue;
         }
         else if (minValue > maxValue) {
             result = maxValue + (this_type::nextDouble53() * (minValue - maxValue));
+            if (result > minValue)  // Rounding
+                result = minValue;
         }
         else {
             result = minValue;
-- 
2.43.0


From 176c99aa67bc23ab2dc3fe8538d49e1f0ebb9af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 39/57] fix: the gettimeofday() stop watch reports seconds

---
 src/jstd/test/StopWatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/test/StopWatch.h b/src/jstd/test/StopWatch.h
index 5560f29..66b3900 100644
--- a/src/jstd/test/StopWatch.h
+++ b/src/jstd/test/StopWatch.h
@@ -520,7 +520,7 @@ public:
     }
 
     static time_float_t duration_time(time_point_t now_time, time_point_t old_time) {
-        return static_cast<time_float_t>(this_type::interval(now_time, old_time));
+        return (this_type::interval(now_time, old_time) / TimeRatio<time_float_t>::microsecs);
     }
 
     static time_stamp_t timestamp(time_point_t now_time, time_point_t base_time) {
-- 
2.43.0


From 22498f6c7751d3b22ffdf2d96e4f1a4618495d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 40/57] fix: StopWatchExBase::getDurationTime() compiles

---
 src/jstd/test/StopWatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/test/StopWatch.h b/src/jstd/test/StopWatch.h
index 66b3900..2d51f85 100644
--- a/src/jstd/test/StopWatch.h
+++ b/src/jstd/test/StopWatch.h
@@ -356,7 +356,7 @@ public:
     }
 
     time_float_t getDurationTime() const {
-        detail::duration_time<time_float_t> _duration_time = impl_type::duration_time(stop_time_, start_time_);
+        time_float_t _duration_time = impl_type::duration_time(stop_time_, start_time_);
         return _duration_time;
     }
 
-- 
2.43.0


From 2ffe7b9029d280e29e9f556dba2cf9029b3f1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:27 +0000
Subject: [PATCH 41/57] fix: a reset StopWatchEx reports a duration of zero

---
 src/jstd/test/StopWatch.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jstd/test/StopWatch.h b/src/jstd/test/StopWatch.h
index 2d51f85..f9e790d 100644
--- a/src/jstd/test/StopWatch.h
+++ b/src/jstd/test/StopWatch.h
@@ -254,6 +254,7 @@ public:
     StopWatchExBase() : elapsed_time_(kTimeZero),
         total_elapsed_time_(kTimeZero), running_(false) {
         start_time_ = impl_type::now();
+        stop_time_ = start_time_;
     }
     StopWatchExBase(StopWatchExBase<T> const & src) :
         start_time_(src.start_time_), stop_time_(src.stop_time_),
@@ -266,6 +267,7 @@ public:
         elapsed_time_ = kTimeZero;
         total_elapsed_time_ = kTimeZero;
         start_time_ = impl_type::now();
+        stop_time_ = start_time_;
         running_ = false;
         __COMPILER_BARRIER();
     }
-- 
2.43.0


From 3aef23059114f7fcee79d03dfb4361e2bdb658aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 42/57] fix: MT19937 state regeneration stays inside the state
 array

---
 src/jstd/system/MT19937_32.h | 4 ++--
 src/jstd/system/MT19937_64.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/system/MT19937_32.h b/src/jstd/system/MT19937_32.h
index 65f9e79..c66cd78 100644
--- a/src/jstd/system/MT19937_32.h
+++ b/src/jstd/system/MT19937_32.h
@@ -265,10 +265,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
diff --git a/src/jstd/system/MT19937_64.h b/src/jstd/system/MT19937_64.h
index e2ee26c..5e3c5a3 100644
--- a/src/jstd/system/MT19937_64.h
+++ b/src/jstd/system/MT19937_64.h
@@ -265,10 +265,10 @@ private:
         }
 
         for (size_type i = M; --i; ++p) {
-            *p = (p[N - M] ^ this->twist(p[0], p[1]));
+            *p = (*(p - (N - M)) ^ this->twist(p[0], p[1]));
         }
 
-        *p = p[N - M] ^ this->twist(p[0], this->state[0]);
+        *p = *(p - (N - M)) ^ this->twist(p[0], this->state[0]);
         this->left = (value_type)N;
         this->next = &this->state[0];
     }
-- 
2.43.0


From 49b72e8674e77e05eb278b2ad5224bb84972154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:05 +0000
Subject: [PATCH 43/57] fix: robin_hash_map rejects an oversized initial
 capacity

---
 src/jstd/hashmap/robin_hash_map.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 8effa01..249c258 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3067,6 +3067,7 @@ public:
         allocator_(alloc),
         ctrl_allocator_(alloc), slot_allocator_(alloc) {
         if (init_capacity != 0) {
+            this_type::check_capacity(init_capacity);
             this->create_slots<true>(init_capacity);
         }
     }
-- 
2.43.0


From 6f7bac4087647ed10d7a12999ea9ca98da5ca716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:02 +0000
Subject: [PATCH 44/57] fix: destroying the storage of a robin_hash_map resets
 its capacity

clear(true) destroyed the storage and then let create_slots(0) destroy it
again, which walked the shared empty ctrls with the old capacity.
---
 src/jstd/hashmap/robin_hash_map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 249c258..31deab8 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -4140,6 +4140,9 @@ private:
         this->destroy_slots();
 
         this->destroy_ctrls();
+
+        // No storage is left, a later traversal of the ctrls must not use the old capacity.
+        this->reset<false>();
     }
 
     void destroy_slots() noexcept {
-- 
2.43.0


From 951dd6da92c3326bd7cebed2a0890863e0c5ef49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:13 +0000
Subject: [PATCH 45/57] fix: robin_hash_map does not construct the exchange
 slot twice

The displacement loop default-constructed its spare slot and destroyed it at
the end, but exchange_slot() constructs over it and leaves raw storage behind.
---
 src/jstd/hashmap/robin_hash_map.h | 51 ++-----------------------------
 1 file changed, 3 insertions(+), 48 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 31deab8..61625b9 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5653,14 +5653,14 @@ InsertOrGrow_Start:
 #endif
         target++;
 
-        // Initialize the empty slot use default constructor if necessary
-        this->construct_empty_slot(empty);
+        // The empty slot is raw storage: exchange_slot() and swap_plain_slot()
+        // construct an element in it and destroy the element they took it from.
+        this->placement_new_slot(empty);
 
         slot_type * last_slot = this->last_slot();
         while (target < last_slot) {
             if (ctrl->isEmpty()) {
                 this->emplace_rich_slot(ctrl, target, insert, rich_ctrl);
-                this->destroy_empty_slot(empty);
                 return kIsNotExists;
             } else if (rich_ctrl.dist > ctrl->dist) {
                 std::swap(rich_ctrl.value, ctrl->value);
@@ -5684,14 +5684,12 @@ InsertOrGrow_Start:
             } else {
                 if (rich_ctrl.uvalue >= this->max_distance()) {
                     this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-                    this->destroy_empty_slot(empty);
                     return kNeedGrow;
                 }
             }
         }
 
         this->emplace_rich_slot(insert_ctrl, insert_slot, insert, rich_ctrl);
-        this->destroy_empty_slot(empty);
         return kNeedGrow;
     }
 
@@ -5740,49 +5738,6 @@ InsertOrGrow_Start:
         this->transfer_slot(slot, insert);
     }
 
-    JSTD_FORCED_INLINE
-    void construct_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->construct_slot(empty);
-                    return;
-                }
-            }
-        }
-
-        // If we don't called construct_slot(empty), then use placement new.
-        this->placement_new_slot(empty);
-    }
-
-    JSTD_FORCED_INLINE
-    void destroy_empty_slot(slot_type * empty) {
-        static constexpr bool isNoexceptMoveAssignable = is_noexcept_move_assignable<value_type>::value;
-        static constexpr bool isMutableNoexceptMoveAssignable = is_noexcept_move_assignable<mutable_value_type>::value;
-
-        if ((!is_slot_trivial_destructor) && (!kIsPlainKV) &&
-            (!kIsSwappableKV) && (!kIsSmallValueType) && kEnableExchange) {
-            if (kIsLayoutCompatible) {
-                if (isMutableNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            } else {
-                if (isNoexceptMoveAssignable) {
-                    this->destroy_slot(empty);
-                }
-            }
-        }
-    }
-
     ////////////////////////////////////////////////////////////////////////////////////////////
 
     // An element outside of the table.
-- 
2.43.0


From e0eaae21eebca9a11e3de40b02d2f1530ad71ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:45 +0000
Subject: [PATCH 46/57] fix: robin_hash_map displaces elements after
 constructing the new one

The arguments of an insertion may refer to elements of the map; elements of
a direct layout were displaced before the arguments were read.
---
 src/jstd/hashmap/robin_hash_map.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 61625b9..6b6eed8 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5514,8 +5514,9 @@ InsertOrGrow_Start:
             this->setUsedCtrl(ctrl, dist_and_hash);
             return { slot, kIsNotExists };
         } else {
-            FindResult neednt_grow = this->insert_to_place<false>(ctrl, slot, dist_and_hash);
-            return { slot, neednt_grow };
+            // Other elements have to give way. The arguments may refer to them,
+            // so the new element must be constructed first, see grow_and_emplace().
+            return { nullptr, kNeedGrow };
         }
     }
 
@@ -5785,7 +5786,7 @@ InsertOrGrow_Start:
     }
 
     // The arguments may refer to elements of this map, so the new element
-    // must be constructed before the table is replaced.
+    // must be constructed before the table is replaced or its elements are moved.
     template <typename ... Args>
     JSTD_NO_INLINE
     std::pair<iterator, bool> grow_and_emplace(Args && ... args) {
@@ -5795,10 +5796,12 @@ InsertOrGrow_Start:
 
     std::pair<iterator, bool> grow_and_insert(slot_type * tmp_slot) {
         std::pair<slot_type *, bool> find_info;
-        do {
-            this->grow_if_necessary();
+        for (;;) {
             find_info = this->unique_find_and_insert(tmp_slot->value.first);
-        } while (find_info.second);
+            if (!find_info.second)
+                break;
+            this->grow_if_necessary();
+        }
         this->construct_new_slot(find_info.first, tmp_slot);
         return { this->iterator_at(find_info.first), true };
     }
-- 
2.43.0


From 774eb1bb07538c468eb36a3ca0bbcd083a637971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 47/57] fix: robin_hash_map::insert() does not move a pair
 whose key exists

---
 src/jstd/hashmap/robin_hash_map.h | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 6b6eed8..0da90de 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -5854,6 +5854,35 @@ InsertOrGrow_Start:
         }
     }
 
+    // The other one of value_type and mutable_value_type, it isn't converted
+    // because its value must not be moved if the key already exists.
+    template <bool AlwaysUpdate, typename PairT, typename std::enable_if<
+              (!jstd::is_same_ex<PairT, actual_value_type>::value) &&
+              (jstd::is_same_ex<PairT, value_type>::value ||
+               jstd::is_same_ex<PairT, mutable_value_type>::value)>::type * = nullptr>
+    std::pair<iterator, bool> emplace_impl(PairT && value) {
+        auto find_info = this->find_and_insert(value.first);
+        slot_type * slot = find_info.first;
+        FindResult is_exists = find_info.second;
+        if (is_exists == kIsNotExists) {
+            // The key to be inserted is not exists.
+            assert(slot != nullptr);
+
+            this->construct_new_slot(slot, std::forward<PairT>(value));
+            return { this->iterator_at(slot), true };
+        } else if (is_exists > kIsNotExists) {
+            // The key to be inserted already exists.
+            assert(is_exists == kIsExists);
+            if (AlwaysUpdate) {
+                slot->value.second = std::forward<PairT>(value).second;
+            }
+            return { this->iterator_at(slot), false };
+        } else {
+            assert(is_exists == kNeedGrow);
+            return this->grow_and_emplace(std::forward<PairT>(value));
+        }
+    }
+
     template <bool AlwaysUpdate, typename KeyT, typename MappedT, typename std::enable_if<
               (!jstd::is_same_ex<KeyT, value_type>::value &&
                !std::is_constructible<value_type, KeyT &&>::value) &&
-- 
2.43.0


From 441fee107968316a3c48d155eae62257aa9005db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 48/57] fix: robin_hash_map leaves no moved-from keys behind
 when an element-wise move fails

---
 src/jstd/hashmap/robin_hash_map.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 0da90de..3de1840 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3154,8 +3154,14 @@ public:
             size_type other_size = other.size();
             this->reserve_for_insert(other_size);
 
-            for (iterator iter = other.begin(); iter != other.end(); ++iter) {
-                this->unique_insert(std::move(*iter));
+            try {
+                for (iterator iter = other.begin(); iter != other.end(); ++iter) {
+                    this->unique_insert(std::move(*iter));
+                }
+            } catch (...) {
+                // Some keys have been moved away, they can't be found or compared any more.
+                other.clear();
+                throw;
             }
             other.clear();
         }
-- 
2.43.0


From 434462ce3a45db022bf6dc2b6efb1d0f6a525415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 49/57] fix: the group tables leave no moved-from keys behind
 when an element-wise move fails

---
 src/jstd/hashmap/group15_flat_table.hpp | 8 +++++++-
 src/jstd/hashmap/group16_flat_table.hpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index 8c3d964..eed4c7e 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -368,7 +368,13 @@ public:
             if (other_size > 0) {
                 this->reserve_for_insert(other_size);
                 // Here we will move elements of [other] hashmap to this hashmap.
-                this->move_slots_from(other);
+                try {
+                    this->move_slots_from(other);
+                } catch (...) {
+                    // Some keys have been moved away, they can't be found or compared any more.
+                    other.clear();
+                    throw;
+                }
             }
             // All elements of [other] hashmap have been moved, release its storage.
             other.template destroy<true>();
diff --git a/src/jstd/hashmap/group16_flat_table.hpp b/src/jstd/hashmap/group16_flat_table.hpp
index a613eac..2da3c19 100644
--- a/src/jstd/hashmap/group16_flat_table.hpp
+++ b/src/jstd/hashmap/group16_flat_table.hpp
@@ -359,7 +359,13 @@ public:
             if (other_size > 0) {
                 this->reserve_for_insert(other_size);
                 // Here we will move elements of [other] hashmap to this hashmap.
-                this->move_slots_from(other);
+                try {
+                    this->move_slots_from(other);
+                } catch (...) {
+                    // Some keys have been moved away, they can't be found or compared any more.
+                    other.clear();
+                    throw;
+                }
             }
             // All elements of [other] hashmap have been moved, release its storage.
             other.template destroy<true>();
-- 
2.43.0


From a1b59a73dee4aed7acc50a667788e861c7d60dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 50/57] Revert "fix: a reset StopWatchEx reports a duration of
 zero"

This reverts commit 2ffe7b9029d280e29e9f556dba2cf9029b3f1cfb.
---
 src/jstd/test/StopWatch.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jstd/test/StopWatch.h b/src/jstd/test/StopWatch.h
index f9e790d..2d51f85 100644
--- a/src/jstd/test/StopWatch.h
+++ b/src/jstd/test/StopWatch.h
@@ -254,7 +254,6 @@ public:
     StopWatchExBase() : elapsed_time_(kTimeZero),
         total_elapsed_time_(kTimeZero), running_(false) {
         start_time_ = impl_type::now();
-        stop_time_ = start_time_;
     }
     StopWatchExBase(StopWatchExBase<T> const & src) :
         start_time_(src.start_time_), stop_time_(src.stop_time_),
@@ -267,7 +266,6 @@ public:
         elapsed_time_ = kTimeZero;
         total_elapsed_time_ = kTimeZero;
         start_time_ = impl_type::now();
-        stop_time_ = start_time_;
         running_ = false;
         __COMPILER_BARRIER();
     }
-- 
2.43.0


From 258847af6a9c9571134e756b101ddf488c435467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 51/57] Revert "fix: StopWatchExBase::getDurationTime()
 compiles"

This reverts commit 22498f6c7751d3b22ffdf2d96e4f1a4618495d75.
---
 src/jstd/test/StopWatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/test/StopWatch.h b/src/jstd/test/StopWatch.h
index 2d51f85..66b3900 100644
--- a/src/jstd/test/StopWatch.h
+++ b/src/jstd/test/StopWatch.h
@@ -356,7 +356,7 @@ public:
     }
 
     time_float_t getDurationTime() const {
-        time_float_t _duration_time = impl_type::duration_time(stop_time_, start_time_);
+        detail::duration_time<time_float_t> _duration_time = impl_type::duration_time(stop_time_, start_time_);
         return _duration_time;
     }
 
-- 
2.43.0


From 61564f5e3a5cea1765b89102a88675dd881b9690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 52/57] Revert "fix: the gettimeofday() stop watch reports
 seconds"

This reverts commit 176c99aa67bc23ab2dc3fe8538d49e1f0ebb9af2.
---
 src/jstd/test/StopWatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jstd/test/StopWatch.h b/src/jstd/test/StopWatch.h
index 66b3900..5560f29 100644
--- a/src/jstd/test/StopWatch.h
+++ b/src/jstd/test/StopWatch.h
@@ -520,7 +520,7 @@ public:
     }
 
     static time_float_t duration_time(time_point_t now_time, time_point_t old_time) {
-        return (this_type::interval(now_time, old_time) / TimeRatio<time_float_t>::microsecs);
+        return static_cast<time_float_t>(this_type::interval(now_time, old_time));
     }
 
     static time_stamp_t timestamp(time_point_t now_time, time_point_t base_time) {
-- 
2.43.0


From f2c0e31e03d6f397a01843b9df4107e3b4e1f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 53/57] fix: the hash maps compile with assertions enabled

---
 src/jstd/hashmap/group15_flat_table.hpp | 2 +-
 src/jstd/support/Power2.h               | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jstd/hashmap/group15_flat_table.hpp b/src/jstd/hashmap/group15_flat_table.hpp
index eed4c7e..a749fd3 100644
--- a/src/jstd/hashmap/group15_flat_table.hpp
+++ b/src/jstd/hashmap/group15_flat_table.hpp
@@ -1475,7 +1475,7 @@ private:
         assert(ctrl != nullptr);
         assert(ctrl >= this->ctrls());
         size_type ctrl_index = static_cast<size_type>(ctrl - this->ctrls());
-        assert(is_positive(index));
+        assert(is_positive(ctrl_index));
         return ctrl_index;
     }
 
diff --git a/src/jstd/support/Power2.h b/src/jstd/support/Power2.h
index bb4acef..3dedd07 100644
--- a/src/jstd/support/Power2.h
+++ b/src/jstd/support/Power2.h
@@ -196,7 +196,7 @@ round_down(SizeType N)
                   "Error: pow2::round_down(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
@@ -259,7 +259,7 @@ round_up(SizeType N)
                   "Error: pow2::round_up(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
@@ -332,7 +332,7 @@ log2_int(SizeType N)
                   "Error: pow2::log2_int(SizeType n) -- n must be a integral type.");
     typedef typename std::make_unsigned<SizeType>::type unsigned_type;
     typedef typename size_type_t<SizeType>::type        return_type;
-#ifdef _DEBUG
+#ifndef NDEBUG
     typedef typename std::make_signed<SizeType>::type   signed_type;
 #endif
     unsigned_type n = static_cast<unsigned_type>(N);
-- 
2.43.0


From b3b7152fe7ebc5fcae2d3ea55f134187adfe8abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 54/57] fix: robin_hash_map erases an empty range of a map
 without storage with assertions enabled

---
 src/jstd/hashmap/robin_hash_map.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 3de1840..5b84d73 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3717,8 +3717,9 @@ public:
             return iter;
         } else {
             // Traverse from the last to the first, because erasing moves the last element of the map.
-            size_type first_index = this->index_of(first.slot());
-            size_type slot_index = this->index_of(last.slot());
+            // The iterators of a map without storage have no slot.
+            size_type first_index = static_cast<size_type>(first.slot() - this->slots());
+            size_type slot_index = static_cast<size_type>(last.slot() - this->slots());
             while (slot_index != first_index) {
                 slot_index--;
                 this->erase(this->iterator_at(slot_index));
-- 
2.43.0


From 68dad93a9a77a3bacccf4bd7a6ad34b28b2bedc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 55/57] fix: jstd/system/time.h compiles

It used assertion macros that are defined nowhere, and int64_t without a declaration.
---
 src/jstd/system/time.h | 74 +++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/jstd/system/time.h b/src/jstd/system/time.h
index 9600716..ff3da21 100644
--- a/src/jstd/system/time.h
+++ b/src/jstd/system/time.h
@@ -7,8 +7,8 @@
 #endif
 
 #include "jstd/basic/stddef.h"
+#include "jstd/basic/stdint.h"
 //#include "jstd/basic/export.h"
-#include "jstd/basic/assert.h"
 
 #include <assert.h>
 
@@ -78,19 +78,19 @@ jmc_timestamp_t jmc_get_nanosec(void)
     result = (jmc_timestamp_t)(((double)qp_cnt.QuadPart / (double)qp_freq.QuadPart) * 1000000000.0);
 #elif defined(__linux__)
     struct timespec ts;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         clock_gettime(CLOCK_REALTIME, &ts);
-    JIMIC_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
+    JSTD_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
     result = (jmc_timestamp_t)((int64_t)(1000000000UL) * (int64_t)(ts.tv_sec) + (int64_t)(ts.tv_nsec));
 #else  /* generic Unix */
     struct timeval tv;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         gettimeofday(&tv, NULL);
-    JIMIC_ASSERT_EX(status == 0, "gettimeofday failed");
+    JSTD_ASSERT_EX(status == 0, "gettimeofday failed");
     result = (jmc_timestamp_t)((int64_t)(1000000000UL) * (int64_t)(tv.tv_sec) + (int64_t)(1000UL) * (int64_t)(tv.tv_usec));
 #endif  /*(choice of OS) */
 
@@ -110,19 +110,19 @@ jmc_timestamp_t jmc_get_millisec(void)
     result = (jmc_timestamp_t)(((double)qp_cnt.QuadPart / (double)qp_freq.QuadPart) * 1000.0);
 #elif defined(__linux__)
     struct timespec ts;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif /* JIMIC_USE_ASSERT */
+#endif /* JSTD_USE_ASSERT */
         clock_gettime(CLOCK_REALTIME, &ts);
-    JIMIC_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
+    JSTD_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
     result = (jmc_timestamp_t)((int64_t)(1000UL) * (int64_t)(ts.tv_sec) + (int64_t)(ts.tv_nsec) / (int64_t)(1000000UL));
 #else /* generic Unix */
     struct timeval tv;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif /* JIMIC_USE_ASSERT */
+#endif /* JSTD_USE_ASSERT */
         gettimeofday(&tv, NULL);
-    JIMIC_ASSERT_EX(status == 0, "gettimeofday failed");
+    JSTD_ASSERT_EX(status == 0, "gettimeofday failed");
     result = (jmc_timestamp_t)((int64_t)(1000UL) * (int64_t)(tv.tv_sec) + (int64_t)(tv.tv_usec) / (int64_t)(1000UL));
 #endif /*(choice of OS) */
 
@@ -182,19 +182,19 @@ jmc_timestamp_t jmc_get_timestamp(void)
     result = (jmc_timestamp_t)qp_cnt.QuadPart;
 #elif defined(__linux__)
     struct timespec ts;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         clock_gettime(CLOCK_REALTIME, &ts);
-    JIMIC_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
+    JSTD_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
     result = (jmc_timestamp_t)((int64_t)(1000000000UL) * (int64_t)(ts.tv_sec) + (int64_t)(ts.tv_nsec));
 #else  /* generic Unix */
     struct timeval tv;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         gettimeofday(&tv, NULL);
-    JIMIC_ASSERT_EX(status == 0, "gettimeofday failed");
+    JSTD_ASSERT_EX(status == 0, "gettimeofday failed");
     result = (jmc_timestamp_t)((int64_t)(1000000UL) * (int64_t)(tv.tv_sec) + (int64_t)(tv.tv_usec));
 #endif  /*(choice of OS) */
 
@@ -218,21 +218,21 @@ jmc_timestamp_t jmc_get_elapsedtime_ms(jmc_timestamp_t time_start)
     result = (jmc_timestamp_t)(((double)(time_end - time_start) / (double)qp_freq.QuadPart) * 1000.0);
 #elif defined(__linux__)
     struct timespec ts;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         clock_gettime(CLOCK_REALTIME, &ts);
-    JIMIC_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
+    JSTD_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
     time_end = (jmc_timestamp_t)((int64_t)(1000000000UL) * (int64_t)(ts.tv_sec) + (int64_t)(ts.tv_nsec));
 
     result = (jmc_timestamp_t)(time_end - time_start) / 1000000LL;
 #else  /* generic Unix */
     struct timeval tv;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         gettimeofday(&tv, NULL);
-    JIMIC_ASSERT_EX(status == 0, "gettimeofday failed");
+    JSTD_ASSERT_EX(status == 0, "gettimeofday failed");
     time_end = (jmc_timestamp_t)((int64_t)(1000000UL) * (int64_t)(tv.tv_sec) + (int64_t)(tv.tv_usec));
 
     result = (jmc_timestamp_t)(time_end - time_start) / 1000LL;
@@ -259,21 +259,21 @@ jmc_timefloat_t jmc_get_elapsedtime_msf(jmc_timestamp_t time_start)
     result = (jmc_timefloat_t)(((double)(time_end - time_start) / (double)qp_freq.QuadPart) * 1000.0);
 #elif defined(__linux__)
     struct timespec ts;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         clock_gettime(CLOCK_REALTIME, &ts);
-    JIMIC_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
+    JSTD_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
     time_end = (jmc_timestamp_t)((int64_t)(1000000000UL) * (int64_t)(ts.tv_sec) + (int64_t)(ts.tv_nsec));
 
     result = (jmc_timefloat_t)(time_end - time_start)  * 1E-6;
 #else  /* generic Unix */
     struct timeval tv;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         gettimeofday(&tv, NULL);
-    JIMIC_ASSERT_EX(status == 0, "gettimeofday failed");
+    JSTD_ASSERT_EX(status == 0, "gettimeofday failed");
     time_end = (jmc_timestamp_t)((int64_t)(1000000UL) * (int64_t)(tv.tv_sec) + (int64_t)(tv.tv_usec));
 
     result = (jmc_timefloat_t)(time_end - time_start)  * 1E-3;
@@ -299,21 +299,21 @@ jmc_timefloat_t jmc_get_elapsedtime_sec(jmc_timestamp_t time_start)
     result = (jmc_timefloat_t)(((double)(time_end - time_start) / (double)qp_freq.QuadPart));
 #elif defined(__linux__)
     struct timespec ts;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         clock_gettime(CLOCK_REALTIME, &ts);
-    JIMIC_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
+    JSTD_ASSERT_EX(status == 0, "CLOCK_REALTIME not supported");
     time_end = (jmc_timestamp_t)((int64_t)(1000000000UL) * (int64_t)(ts.tv_sec) + (int64_t)(ts.tv_nsec));
 
     result = (jmc_timefloat_t)(time_end - time_start)  * 1E-9;
 #else  /* generic Unix */
     struct timeval tv;
-#if JIMIC_USE_ASSERT
+#if JSTD_USE_ASSERT
     int status =
-#endif  /* JIMIC_USE_ASSERT */
+#endif  /* JSTD_USE_ASSERT */
         gettimeofday(&tv, NULL);
-    JIMIC_ASSERT_EX(status == 0, "gettimeofday failed");
+    JSTD_ASSERT_EX(status == 0, "gettimeofday failed");
     time_end = (jmc_timestamp_t)((int64_t)(1000000UL) * (int64_t)(tv.tv_sec) + (int64_t)(tv.tv_usec));
 
     result = (jmc_timefloat_t)(time_end - time_start)  * 1E-6;
-- 
2.43.0


From 577625528d7a5766df03fd6b007e729458cd6c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:19 +0000
Subject: [PATCH 56/57] fix: a sleep lasts as long as it was asked for

usleep() ends when a signal arrives, and the product overflowed for more than 71 minutes.
---
 src/jstd/system/sleep.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jstd/system/sleep.h b/src/jstd/system/sleep.h
index c4d51f6..5b21168 100644
--- a/src/jstd/system/sleep.h
+++ b/src/jstd/system/sleep.h
@@ -17,6 +17,8 @@ __declspec(dllimport) int __stdcall SwitchToThread(void);
 #elif defined(__GNUC__) || defined(__clang__) || defined(__linux__)
 
 #include <unistd.h>     // For usleep()
+#include <time.h>       // For nanosleep()
+#include <errno.h>      // For EINTR
 #include <sched.h>      // For sched_yield()
 
 #endif // _MSC_VER && !__clang__
@@ -140,7 +142,13 @@ int cpu_yield()
 static inline
 void thread_sleep(unsigned int millisec)
 {
-    usleep(millisec * 1000);
+    struct timespec remain;
+    remain.tv_sec  = (time_t)(millisec / 1000);
+    remain.tv_nsec = (long)(millisec % 1000) * 1000000L;
+    // Sleep for the rest of the time if a signal handler has interrupted it.
+    while (nanosleep(&remain, &remain) != 0 && errno == EINTR) {
+        continue;
+    }
 }
 
 /* Sleep more tiny for the platform */
@@ -148,7 +156,7 @@ static inline
 void thread_wsleep(unsigned int millisec)
 {
     if (millisec != 0)
-        usleep(millisec * 1000);
+        thread_sleep(millisec);
     else
         usleep(250);
 }
-- 
2.43.0


From ca904cf60cfe0b4189c1d0ac6d2a75f2423431c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:50 +0000
Subject: [PATCH 57/57] fix: robin_hash_map can be built from a range that can
 be read only once

---
 src/jstd/hashmap/robin_hash_map.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/jstd/hashmap/robin_hash_map.h b/src/jstd/hashmap/robin_hash_map.h
index 5b84d73..20f483c 100644
--- a/src/jstd/hashmap/robin_hash_map.h
+++ b/src/jstd/hashmap/robin_hash_map.h
@@ -3085,7 +3085,8 @@ public:
         : robin_hash_map(0, hash, equal, alloc) {
         // Note: the delegated construction ensures that the destructor is called if an insertion throws.
         // Prepare enough space to ensure that no expansion is required during the insertion process.
-        size_type input_size = jstd::distance(first, last);
+        size_type input_size = this_type::range_size(first, last,
+            typename std::iterator_traits<InputIter>::iterator_category());
         size_type reserve_capacity = (init_capacity >= input_size) ? init_capacity : input_size;
         this->reserve_for_insert(reserve_capacity);
         this->insert(first, last);
@@ -3751,6 +3752,17 @@ public:
     }
 
 private:
+    // A single-pass range can only be read once, so it can't be counted before the insertion.
+    template <typename InputIter>
+    static size_type range_size(InputIter first, InputIter last, std::input_iterator_tag) {
+        return 0;
+    }
+
+    template <typename ForwardIter>
+    static size_type range_size(ForwardIter first, ForwardIter last, std::forward_iterator_tag) {
+        return static_cast<size_type>(jstd::distance(first, last));
+    }
+
     static ctrl_type * default_empty_ctrls() {
         static constexpr size_type kMinGroupCount = (kMinLookups + (kGroupWidth - 1)) / kGroupWidth;
         static constexpr size_type kMinCtrlCapacity = (kMinGroupCount + 1) * kGroupWidth;
-- 
2.43.0


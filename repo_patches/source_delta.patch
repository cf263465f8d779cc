From 821bd31442dcb1b0584e2aee4f46c4f6f66f17cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 01/30] fix: do not hand out reserved handles again in
 create/recycle

---
 include/co_ecs/detail/handle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/co_ecs/detail/handle.hpp b/include/co_ecs/detail/handle.hpp
index d7d9fc5..a8e0561 100644
--- a/include/co_ecs/detail/handle.hpp
+++ b/include/co_ecs/detail/handle.hpp
@@ -72,6 +72,7 @@ public:
     /// @brief Creates a new handle.
     /// @return Handle
     [[nodiscard]] constexpr auto create() -> H {
+        flush(); // account for outstanding reservations first
         if (!_free_ids.empty()) {
             auto id = _free_ids.back();
             _free_ids.pop_back();
@@ -96,6 +97,7 @@ public:
     /// @brief Recycles a handle for reuse in future creations.
     /// @param handle Handle to recycle
     constexpr void recycle(H handle) {
+        flush(); // account for outstanding reservations first
         if (!alive(handle)) {
             return;
         }
-- 
2.43.0


From d4d54ef490869950517ac277197670a11c2f86c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 02/30] fix: keep all chunks but the last one full when erasing
 entities

---
 include/co_ecs/chunk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index 097dc75..da1e5bc 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -126,7 +126,7 @@ public:
     /// @return std::optional<entity>
     auto swap_erase(std::size_t index, chunk& other) noexcept -> std::optional<entity> {
         assert((index < _size) && "Entity index exceeds chunk size");
-        if (size() == 1 || index == _size - 1) {
+        if (this == &other && index == _size - 1) {
             pop_back();
             return std::nullopt;
         }
-- 
2.43.0


From a2b340dba5cdd4b52c4a11f4e6fb0e33617150f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:14 +0000
Subject: [PATCH 03/30] fix: align component arrays and keep them inside of the
 chunk buffer

---
 include/co_ecs/archetype.hpp | 37 +++++++++++++++++++++++++++---------
 include/co_ecs/chunk.hpp     | 21 ++++++++++++--------
 2 files changed, 41 insertions(+), 17 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 78a5227..b301b02 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -188,11 +188,11 @@ private:
         const std::size_t size_in_bytes = _max_size * meta.type->size;
         const std::size_t align = meta.type->align;
 
-        _blocks.emplace(meta.id, offset, meta);
+        offset = align_up(offset, align);
 
-        offset += detail::mod_2n(offset, align) + size_in_bytes;
+        _blocks.emplace(meta.id, offset, meta);
 
-        return offset;
+        return offset + size_in_bytes;
     }
 
     // Calculates the maximum size of individual components this chunk buffer can hold
@@ -220,7 +220,14 @@ private:
         auto remaining_elements_count = remaining_space / packed_components_size(components_meta);
 
         // The maximum amount of entities we can hold is grater by 1 for which we calculated aligned_size
-        return remaining_elements_count + 1;
+        auto max_size = remaining_elements_count + 1;
+
+        // Padding between component arrays may require more space than padding inside of a single structure
+        while (max_size > 1 && blocks_size(components_meta, max_size) > chunk::chunk_bytes) {
+            max_size--;
+        }
+
+        return max_size;
     }
 
     // Calculate size of packed structure of components
@@ -233,13 +240,11 @@ private:
 
     // Calculate size of properly aligned structure of components
     static auto aligned_components_size(auto&& components_meta) noexcept -> std::size_t {
-        auto begin = chunk::alloc_alignment;
-        auto end = begin;
+        std::size_t end = 0;
 
         // Add single component element size accounting for its alignment
         auto add_elements = [&end](const component_meta& meta) {
-            end += detail::mod_2n(std::bit_cast<std::size_t>(end), meta.type->align);
-            end += meta.type->size;
+            end = align_up(end, meta.type->align) + meta.type->size;
         };
 
         add_elements(component_meta::of<entity>());
@@ -247,7 +252,21 @@ private:
             add_elements(meta);
         }
 
-        return end - begin;
+        return end;
+    }
+
+    // Round offset up to a multiple of alignment
+    static constexpr auto align_up(std::size_t offset, std::size_t align) noexcept -> std::size_t {
+        return (offset + align - 1) / align * align;
+    }
+
+    // Calculate size of all component arrays, properly aligned, holding the given number of elements each
+    static auto blocks_size(auto&& components_meta, std::size_t count) noexcept -> std::size_t {
+        auto offset = count * component_meta::of<entity>().type->size;
+        for (const auto& meta : components_meta) {
+            offset = align_up(offset, meta.type->align) + count * meta.type->size;
+        }
+        return offset;
     }
 
     template<component_reference ComponentRef>
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index da1e5bc..fa7ad77 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -39,20 +39,16 @@ public:
     /// @brief Chunk size in bytes
     static constexpr std::size_t chunk_bytes = static_cast<const std::size_t>(16U * 1024); // 16 KB
 
-    /// @brief Block allocation alignment
+    /// @brief Minimal block allocation alignment
     static constexpr std::size_t alloc_alignment = alignof(entity);
 
-    /// @brief Chunk buffer type
-    struct alignas(alloc_alignment) chunk_buffer {
-        std::byte data[chunk_bytes];
-    };
-
     /// @brief Construct a new chunk object
     ///
     /// @param blocks Component blocks
     /// @param max_size Maxium size of entries this chunk can hold
     chunk(const blocks_type& blocks, std::size_t max_size) :
-        _blocks(&blocks), _max_size(max_size), _buffer((new chunk_buffer)->data) {
+        _blocks(&blocks), _max_size(max_size),
+        _buffer(static_cast<std::byte*>(::operator new(chunk_bytes, buffer_alignment(blocks)))) {
     }
 
     /// @brief Deleted copy constructor
@@ -94,7 +90,7 @@ public:
                 block.meta.type->destruct(_buffer + block.offset + i * block.meta.type->size);
             }
         }
-        delete reinterpret_cast<chunk_buffer*>(_buffer);
+        ::operator delete(_buffer, buffer_alignment(*_blocks));
     }
 
     /// @brief Emplace back components into blocks
@@ -287,6 +283,15 @@ private:
         return (reinterpret_cast<P>(self._buffer + block.offset) + index);
     }
 
+    // Alignment of the buffer that satisfies the alignment requirements of all components
+    [[nodiscard]] static auto buffer_alignment(const blocks_type& blocks) noexcept -> std::align_val_t {
+        auto align = alloc_alignment;
+        for (const auto& [id, block] : blocks) {
+            align = std::max(align, block.meta.type->align);
+        }
+        return std::align_val_t{ align };
+    }
+
     [[nodiscard]] auto get_block(component_id_t id) const -> const block_metadata& {
         return _blocks->at(id);
     }
-- 
2.43.0


From a96639a9ad2c0ed23f9072eb2682862f76fc2b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 04/30] fix: do not leave an empty archetype behind when its
 creation fails

---
 include/co_ecs/archetype.hpp | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index b301b02..27a63e1 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -323,13 +323,13 @@ public:
     /// @param components Components meta set
     /// @return archetype*
     auto ensure_archetype(const component_meta_set& components) -> archetype* {
-        auto& archetype = _archetypes[components.ids()];
+        auto* archetype = find_archetype(components.ids());
         if (!archetype) {
-            archetype = create_archetype(components);
+            archetype = add_archetype(create_archetype(components));
         }
         assert((archetype->components().ids() == components.ids())
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype matching the passed Components types
@@ -341,13 +341,13 @@ public:
         _search_component_set.clear();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto* archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype(component_meta_set::create<Components...>());
+            archetype = add_archetype(create_archetype(component_meta_set::create<Components...>()));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype by adding new Components to an anchor archetype
@@ -360,13 +360,13 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.insert<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto* archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype_added<Components...>(anchor_archetype);
+            archetype = add_archetype(create_archetype_added<Components...>(anchor_archetype));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Get or create an archetype by removing Components from an anchor archetype
@@ -379,13 +379,13 @@ public:
         _search_component_set = anchor_archetype->components().ids();
         (..., _search_component_set.erase<Components>());
 
-        auto& archetype = _archetypes[_search_component_set];
+        auto* archetype = find_archetype(_search_component_set);
         if (!archetype) {
-            archetype = create_archetype_removed<Components...>(anchor_archetype);
+            archetype = add_archetype(create_archetype_removed<Components...>(anchor_archetype));
         }
         assert((archetype->components().ids() == _search_component_set)
                && "Archetype components do not match the search request");
-        return archetype.get();
+        return archetype;
     }
 
     /// @brief Returns iterator to the beginning of archetypes container
@@ -424,6 +424,18 @@ public:
     }
 
 private:
+    auto find_archetype(const component_set& components) noexcept -> archetype* {
+        auto iter = _archetypes.find(components);
+        return iter != _archetypes.end() ? iter->second.get() : nullptr;
+    }
+
+    // Only archetypes that were successfully created are added to the map
+    auto add_archetype(std::unique_ptr<archetype> new_archetype) -> archetype* {
+        auto* ptr = new_archetype.get();
+        _archetypes[ptr->components().ids()] = std::move(new_archetype);
+        return ptr;
+    }
+
     static auto create_archetype(auto&& components) -> std::unique_ptr<archetype> {
         return std::make_unique<archetype>(std::forward<decltype(components)>(components));
     }
-- 
2.43.0


From a295d569b4d427640dd8f3a3b4447e23d7250c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 05/30] fix: do not allocate an entity when create, clone, copy
 or move fails

---
 include/co_ecs/base_registry.hpp | 46 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/include/co_ecs/base_registry.hpp b/include/co_ecs/base_registry.hpp
index 2a5ea7a..d3b5df4 100644
--- a/include/co_ecs/base_registry.hpp
+++ b/include/co_ecs/base_registry.hpp
@@ -142,8 +142,8 @@ protected:
         // compile-time check to make sure all component types in parameter pack are unique
         [[maybe_unused]] detail::unique_types<Components...> uniqueness_check;
 
-        auto entity = allocate();
         auto archetype = _archetypes.ensure_archetype<Components...>();
+        auto entity = allocate();
         auto location = archetype->template emplace<Components...>(entity, std::forward<Components>(args)...);
         set_location(entity.id(), location);
         return entity;
@@ -208,11 +208,13 @@ protected:
 
     entity move(entity ent, base_registry& dest) {
         assert((&dest != this) && "Move to the same registry does not make sense");
-        return move(ent, dest, dest.allocate());
+        ensure_alive(ent);
+        return move(ent, dest, placeholder_entity{ dest.allocate() });
     }
 
     entity copy(entity ent, base_registry& dest) const {
-        return copy(ent, dest, dest.allocate());
+        auto new_location = copy_components(ent, dest);
+        return dest.attach(dest.allocate(), new_location);
     }
 
     entity move(entity ent, base_registry& dest, placeholder_entity placeholder) {
@@ -240,24 +242,11 @@ protected:
     }
 
     entity copy(entity ent, base_registry& dest, placeholder_entity placeholder) const {
-        auto location = get_location(ent);
-        auto* src_archetype = location.archetype;
-        auto* dst_archetype = dest._archetypes.ensure_archetype(src_archetype->components());
-        auto new_location = src_archetype->copy(location, *dst_archetype);
-
-        // TODO: handle inside Archetype
-        *dst_archetype
-             ->chunks()                                                      // in dst Archetype chunks
-                 [new_location.chunk_index]                                  // find the Chunk the EntityId was moved to
-             .ptr_unchecked<entity>(new_location.entry_index) = placeholder; // update EntityId value in the Chunk
-
-        dest.set_location(placeholder.get_entity().id(), new_location);
-
-        return placeholder;
+        return dest.attach(placeholder, copy_components(ent, dest));
     }
 
     entity clone(entity ent) {
-        return copy(ent, *this, allocate());
+        return copy(ent, *this);
     }
 
     entity clone(entity ent, placeholder_entity placeholder) {
@@ -265,6 +254,27 @@ protected:
     }
 
 private:
+    // Copies components of the entity to the destination registry, the copy does not belong to any entity yet
+    entity_location copy_components(entity ent, base_registry& dest) const {
+        auto location = get_location(ent);
+        auto* src_archetype = location.archetype;
+        auto* dst_archetype = dest._archetypes.ensure_archetype(src_archetype->components());
+        return src_archetype->copy(location, *dst_archetype);
+    }
+
+    // Makes the entity own components at the given location
+    entity attach(entity ent, const entity_location& location) {
+        // TODO: handle inside Archetype
+        *location
+             .archetype->chunks()                                // in dst Archetype chunks
+                 [location.chunk_index]                          // find the Chunk the EntityId was moved to
+             .ptr_unchecked<entity>(location.entry_index) = ent; // update EntityId value in the Chunk
+
+        set_location(ent.id(), location);
+
+        return ent;
+    }
+
     constexpr void ensure_alive(const entity& ent) const {
         if (!alive(ent)) {
             throw entity_not_found{ ent };
-- 
2.43.0


From 3582c4327f40f8348cf15a0dfab8ad0de3a3a8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 06/30] fix: clean up partially copied components when copying
 fails

---
 include/co_ecs/archetype.hpp | 10 +++++++++-
 include/co_ecs/chunk.hpp     | 28 +++++++++++++++++++++-------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/co_ecs/archetype.hpp b/include/co_ecs/archetype.hpp
index 27a63e1..848340e 100644
--- a/include/co_ecs/archetype.hpp
+++ b/include/co_ecs/archetype.hpp
@@ -119,7 +119,15 @@ public:
 
         assert((location.entry_index < chunk.size()) && "Entity location index exceeds chunk size");
 
-        auto entry_index = chunk.copy(location.entry_index, free_chunk);
+        std::size_t entry_index{};
+        try {
+            entry_index = chunk.copy(location.entry_index, free_chunk);
+        } catch (...) {
+            if (free_chunk.empty() && other._chunks.size() > 1) {
+                other._chunks.pop_back(); // chunk was created for this copy
+            }
+            throw;
+        }
         auto new_location = entity_location{
             &other,
             other._chunks.size() - 1,
diff --git a/include/co_ecs/chunk.hpp b/include/co_ecs/chunk.hpp
index fa7ad77..f2ce55b 100644
--- a/include/co_ecs/chunk.hpp
+++ b/include/co_ecs/chunk.hpp
@@ -169,15 +169,29 @@ public:
         assert((index < _size) && "Entity index exceeds chunk size");
         assert((!other_chunk.full()) && "Other chunk is full, cannot move entity to it");
         const std::size_t other_chunk_index = other_chunk._size;
-        for (const auto& [id, block] : *_blocks) {
-            const auto* type = block.meta.type;
-            if (!other_chunk._blocks->contains(id)) {
-                continue;
+        std::size_t visited = 0;
+        try {
+            for (const auto& [id, block] : *_blocks) {
+                const auto* type = block.meta.type;
+                if (!other_chunk._blocks->contains(id)) {
+                    ++visited;
+                    continue;
+                }
+                auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
+                if (type->copy_construct) {
+                    type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+                }
+                ++visited;
             }
-            auto* ptr = other_chunk._buffer + other_chunk._blocks->at(id).offset + other_chunk_index * type->size;
-            if (type->copy_construct) {
-                type->copy_construct(ptr, _buffer + block.offset + index * type->size);
+        } catch (...) {
+            // destroy components copied so far
+            for (const auto& [id, block] : *_blocks | detail::views::take(visited)) {
+                if (other_chunk._blocks->contains(id)) {
+                    block.meta.type->destruct(other_chunk._buffer + other_chunk._blocks->at(id).offset
+                                              + other_chunk_index * block.meta.type->size);
+                }
             }
+            throw;
         }
         other_chunk._size++;
         return other_chunk_index;
-- 
2.43.0


From e4618f5ca0fd2fe0e021e616eb12bda0c1e1f375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 07/30] fix: construct a component before attaching it to the
 entity

---
 include/co_ecs/entity_ref.hpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index f1b7751..15029d3 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -148,10 +148,13 @@ public:
     /// @return C& Reference to the component C.
     template<component C>
     [[nodiscard]] constexpr auto get_or_insert(auto&&... args) -> C& {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<decltype(args)>(args)...);
+        if (_registry.get().template has<C>(_entity)) {
+            return get<C>();
         }
+        // construct first: construction may fail, and args may refer to components that are about to move
+        C value = C(std::forward<decltype(args)>(args)...);
+        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
+        std::construct_at(ptr, std::move(value));
         return *ptr;
     }
 
@@ -175,11 +178,13 @@ public:
     /// @return entity_ref Returns this entity to allow method chaining.
     template<component C, typename... Args>
     constexpr auto set(Args&&... args) -> entity_ref {
-        auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
-        if (inserted) {
-            std::construct_at(ptr, std::forward<Args>(args)...);
+        if (_registry.get().template has<C>(_entity)) {
+            get<C>() = C{ std::forward<Args>(args)... };
         } else {
-            *ptr = C{ std::forward<Args>(args)... };
+            // construct first: construction may fail, and args may refer to components that are about to move
+            C value = C(std::forward<Args>(args)...);
+            auto [inserted, ptr] = _registry.get().set_impl<C>(_entity);
+            std::construct_at(ptr, std::move(value));
         }
         return *this;
     }
-- 
2.43.0


From 234916843052ad830ff3fad9f15a67ab576ad3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:13 +0000
Subject: [PATCH 08/30] fix: has() and archetype() report a dead entity instead
 of terminating

---
 include/co_ecs/entity_ref.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index 15029d3..2511ac7 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -28,7 +28,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -52,7 +52,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
@@ -373,7 +373,7 @@ public:
     /// Accessing the archetype can be useful for inspecting the structure and component makeup of the entity.
     ///
     /// @return const archetype& A reference to the archetype of the entity.
-    [[nodiscard]] constexpr auto archetype() const noexcept -> const archetype& {
+    [[nodiscard]] constexpr auto archetype() const -> const archetype& {
         return *_registry.get().get_location(_entity).archetype;
     }
 
@@ -397,7 +397,7 @@ public:
     /// @tparam C The component types to check for.
     /// @return bool Returns true if the entity has all specified components; otherwise, false.
     template<component... C>
-    [[nodiscard]] constexpr auto has() const noexcept -> bool {
+    [[nodiscard]] constexpr auto has() const -> bool {
         return _registry.get().template has<C...>(_entity);
     }
 
-- 
2.43.0


From bbb5324c62d5a95f1e8cd9cfbb35a56a0775e48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 09/30] fix: destroy the erased element of the hash table

---
 include/co_ecs/detail/hash_table.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 45c81ba..466f694 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -710,7 +710,6 @@ private:
             break;
         }
 
-        value_type temp = std::move(*ptr);
         _size--;
 
         while (true) {
@@ -731,6 +730,9 @@ private:
             info = n_info;
         }
 
+        // ptr is the last entry of the shifted chain, it is not occupied anymore
+        allocator_traits::destroy(_buckets.allocator(), ptr);
+
         const size_type threshold = approx_40_percent(bucket_size);
         if (_size > default_bucket_count && _size < threshold) {
             const auto new_size = bucket_size >> size_type{ 1 };
-- 
2.43.0


From 4dd811d4159ce4f88557dc54bf19692ab6db5c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 10/30] fix: keep the source range and honour the bucket count
 when constructing a hash table from a range

---
 include/co_ecs/detail/hash_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 466f694..d556fe4 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -326,10 +326,10 @@ public:
         const Hash& hash = Hash(),
         const key_equal& equal = key_equal(),
         const Allocator& alloc = Allocator()) :
-        _buckets(alloc, bucket_count), _info(default_bucket_count), _equal(equal), _hash(hash) {
+        _buckets(alloc, bucket_count), _info(bucket_count), _equal(equal), _hash(hash) {
         assert((bucket_count % 2 == 0) && "Bucket count must be a power of two");
         for (; first != last; ++first) {
-            emplace_or_assign_impl(std::move(*first));
+            emplace_or_assign_impl(*first);
         }
     }
 
-- 
2.43.0


From 9142d47c39fc756d0da08797eb66a0f328aaea77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 11/30] fix: allow inserting an element of the hash table into
 itself when it grows

---
 include/co_ecs/detail/hash_table.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index d556fe4..40d74a4 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -745,8 +745,11 @@ private:
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
+            // args may refer to elements of this table
+            value_type value(std::forward<Args>(args)...);
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
+            return _emplace_impl(std::move(value));
         }
 
         return _emplace_impl(std::forward<Args>(args)...);
@@ -757,8 +760,11 @@ private:
         size_type buckets_size = _buckets.size();
         const size_type threshold = approx_85_percent(buckets_size);
         if (_size > threshold) {
+            // args may refer to elements of this table
+            value_type value(std::forward<Args>(args)...);
             const auto new_size = buckets_size << size_type{ 1 };
             reserve(new_size);
+            return _emplace_or_assign_impl(std::move(value));
         }
         return _emplace_or_assign_impl(std::forward<Args>(args)...);
     }
-- 
2.43.0


From c4f94f68de06ec3414ef78db2d7ea93b098dd9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 12/30] fix: make post-increment, cbegin and cend of the hash
 table usable

---
 include/co_ecs/detail/hash_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/co_ecs/detail/hash_table.hpp b/include/co_ecs/detail/hash_table.hpp
index 40d74a4..b6e5a29 100644
--- a/include/co_ecs/detail/hash_table.hpp
+++ b/include/co_ecs/detail/hash_table.hpp
@@ -221,7 +221,7 @@ private:
         /// @return iterator_impl& Iterator
         constexpr auto operator++(int) noexcept -> iterator_impl {
             iterator_impl tmp(*this);
-            *this ++;
+            ++*this;
             return tmp;
         }
 
@@ -656,14 +656,14 @@ public:
     /// @brief Get iterator to the begin of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cbegin() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cbegin() const noexcept -> const_iterator {
         return begin();
     }
 
     /// @brief Get iterator to the end of the container
     ///
     /// @return Iterator
-    [[nodiscard]] constexpr auto cend() const noexcept -> iterator {
+    [[nodiscard]] constexpr auto cend() const noexcept -> const_iterator {
         return end();
     }
 
-- 
2.43.0


From 9518dcf9983d8b8a3abf382ae621e4306b4512cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 13/30] fix: do not wrap the size of a sparse table around when
 all keys are in use

---
 include/co_ecs/detail/sparse_table.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index 69ad330..f8c5c1b 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -215,7 +215,7 @@ public:
         } else {
             _dense.emplace_back(key);
         }
-        _sparse[key] = _size;
+        _sparse[key] = static_cast<key_type>(_size);
         ++_size;
         return std::pair(_dense.begin() + _sparse[key], true);
     }
@@ -306,7 +306,7 @@ private:
     std::vector<value_type, Allocator> _dense;
     std::vector<key_type> _sparse;
 
-    key_type _size{};
+    size_type _size{};
     size_t _sparse_capacity{};
 };
 
-- 
2.43.0


From f437b081b1733273109bf0ca8b135f3cf0c65623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 14/30] fix: leave a moved-from sparse table empty

---
 include/co_ecs/detail/sparse_table.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/detail/sparse_table.hpp b/include/co_ecs/detail/sparse_table.hpp
index f8c5c1b..e7b2f5b 100644
--- a/include/co_ecs/detail/sparse_table.hpp
+++ b/include/co_ecs/detail/sparse_table.hpp
@@ -2,6 +2,7 @@
 
 #include <memory>
 #include <stdexcept>
+#include <utility>
 #include <vector>
 
 namespace co_ecs::detail {
@@ -38,7 +39,12 @@ public:
     /// @brief Move constructor
     ///
     /// @param rhs Sparse container to move from
-    constexpr sparse_table(sparse_table&& rhs) noexcept = default;
+    constexpr sparse_table(sparse_table&& rhs) noexcept :
+        _dense(std::move(rhs._dense)), _sparse(std::move(rhs._sparse)), _size(std::exchange(rhs._size, 0)),
+        _sparse_capacity(std::exchange(rhs._sparse_capacity, 0)) {
+        rhs._dense.clear();
+        rhs._sparse.clear();
+    }
 
     /// @brief Copy constructor
     ///
@@ -49,7 +55,17 @@ public:
     ///
     /// @param rhs Sparse container to move from
     /// @return Container data from rhs moved to
-    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& = default;
+    constexpr auto operator=(sparse_table&& rhs) noexcept -> sparse_table& {
+        if (this != &rhs) {
+            _dense = std::move(rhs._dense);
+            _sparse = std::move(rhs._sparse);
+            _size = std::exchange(rhs._size, 0);
+            _sparse_capacity = std::exchange(rhs._sparse_capacity, 0);
+            rhs._dense.clear();
+            rhs._sparse.clear();
+        }
+        return *this;
+    }
 
     /// @brief Copy assignment
     ///
-- 
2.43.0


From 8db23404a4e82a3d4b159ca17468d8f8d74a24c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 15/30] fix: compare bitsets by content regardless of the
 number of blocks

---
 include/co_ecs/detail/dynamic_bitset.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/dynamic_bitset.hpp b/include/co_ecs/detail/dynamic_bitset.hpp
index 4bcacdd..db110e7 100644
--- a/include/co_ecs/detail/dynamic_bitset.hpp
+++ b/include/co_ecs/detail/dynamic_bitset.hpp
@@ -78,7 +78,11 @@ public:
     /// @return true If bitsets are equal
     /// @return false If bitsets aren't equal
     auto operator==(const dynamic_bitset& rhs) const noexcept -> bool {
-        return std::ranges::equal(_blocks, rhs._blocks);
+        const auto common = std::min(_blocks.size(), rhs._blocks.size());
+        const auto is_zero = [](block_type block) { return block == 0; };
+        return std::equal(_blocks.begin(), _blocks.begin() + common, rhs._blocks.begin())
+               && std::all_of(_blocks.begin() + common, _blocks.end(), is_zero)
+               && std::all_of(rhs._blocks.begin() + common, rhs._blocks.end(), is_zero);
     }
 
 private:
-- 
2.43.0


From f7735d224c2e29de987acb77fc445d43929ef274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 16/30] fix: refuse an allocation when the stack allocator is
 full

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index e4d604d..3ea32b7 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -52,6 +52,11 @@ public:
         assert(is_power_of_2(alignment) && "Alignment must be a power of two");
         assert((alignment <= std::numeric_limits<padding_t>::max()) && "Alignment is out of range");
 
+        // No space even for the allocation header
+        if (remaining() < sizeof(alloc_header)) {
+            return nullptr;
+        }
+
         // Get the top of the stack
         char* top = _start + _offset;
         // Get the pointer to the top + 1 allocation header
-- 
2.43.0


From ddc0785d2fbe719fb2b6a0f75bbfb7e8abdd8706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 17/30] fix: carry allocations over when moving a stack
 allocator

---
 include/co_ecs/detail/allocator/stack_allocator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/allocator/stack_allocator.hpp b/include/co_ecs/detail/allocator/stack_allocator.hpp
index 3ea32b7..3b050f4 100644
--- a/include/co_ecs/detail/allocator/stack_allocator.hpp
+++ b/include/co_ecs/detail/allocator/stack_allocator.hpp
@@ -32,7 +32,8 @@ public:
     /// @brief Move constructor
     /// @param rhs Other allocator
     stack_allocator(stack_allocator&& rhs) noexcept :
-        _start(std::exchange(rhs._start, nullptr)), _size(std::exchange(rhs._size, 0)) {
+        _start(std::exchange(rhs._start, nullptr)), _offset(std::exchange(rhs._offset, 0)),
+        _size(std::exchange(rhs._size, 0)) {
     }
 
     /// @brief Move assignment
@@ -40,6 +41,7 @@ public:
     /// @return Allocator
     stack_allocator& operator=(stack_allocator&& rhs) noexcept {
         _start = std::exchange(rhs._start, nullptr);
+        _offset = std::exchange(rhs._offset, 0);
         _size = std::exchange(rhs._size, 0);
         return *this;
     }
-- 
2.43.0


From 099661bfc41d28781b88c01fe558e0ccb41f9567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:48 +0000
Subject: [PATCH 18/30] fix: remove the staged component of a set command once
 it is played

---
 include/co_ecs/command.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 720313a..3a1752a 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -168,8 +168,10 @@ public:
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
-                dest_registry.get_entity(dest_entity)
-                    .template set<C>(std::move(staging_registry.get_entity(staging_entity).template get<C>()));
+                auto staged = staging_registry.get_entity(staging_entity);
+                C value = std::move(staged.template get<C>());
+                staged.destroy(); // the value is not needed in the staging registry anymore, even if set fails
+                dest_registry.get_entity(dest_entity).template set<C>(std::move(value));
             });
         return *this;
     }
-- 
2.43.0


From 43a1807b8438839b3b068c94adc0f985b1e08a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 19/30] fix: publish the grown array of the work-stealing queue
 with release

A thief could read the new array pointer before the array's contents became visible to it.
---
 include/co_ecs/detail/work_stealing_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/detail/work_stealing_queue.hpp b/include/co_ecs/detail/work_stealing_queue.hpp
index b835ae6..1fd98d0 100644
--- a/include/co_ecs/detail/work_stealing_queue.hpp
+++ b/include/co_ecs/detail/work_stealing_queue.hpp
@@ -67,7 +67,7 @@ public:
             auto* tmp = array->grow(bottom, top);
             _garbage.push_back(array);
             std::swap(array, tmp);
-            _array.store(array, std::memory_order_relaxed);
+            _array.store(array, std::memory_order_release);
         }
 
         array->push(bottom, std::forward<decltype(o)>(o));
-- 
2.43.0


From 202f225734da5305cca17675739ecd2f8041fb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:20 +0000
Subject: [PATCH 20/30] fix: finish a task's parent once, and make its effects
 visible to the waiter

Decrementing the counter and testing it for zero were two steps, so two
threads finishing children of one task could both finish the parent. The
relaxed operations did not order the task's writes before the end of wait().
---
 include/co_ecs/thread_pool/task.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index 18b8a7e..de85f4a 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -31,7 +31,7 @@ public:
     /// @brief Checks if the task has been completed.
     /// @return True if the task is completed, otherwise false.
     bool is_completed() const noexcept {
-        return _unfinishedTasks.load(std::memory_order::relaxed) == 0;
+        return _unfinishedTasks.load(std::memory_order::acquire) == 0;
     }
 
     /// @brief Retrieves the parent task if it exists.
@@ -42,10 +42,11 @@ public:
 
 private:
     void finish() {
-        _unfinishedTasks.fetch_sub(1, std::memory_order::relaxed);
+        // once the counter drops to zero a waiter may go on and this task may be gone
+        auto* parent = _parent;
 
-        if (is_completed() && _parent) {
-            _parent->finish();
+        if (_unfinishedTasks.fetch_sub(1, std::memory_order::acq_rel) == 1 && parent) {
+            parent->finish();
         }
     }
 
-- 
2.43.0


From e83cedad7d59968065b7470a3b33c72567fda592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:37 +0000
Subject: [PATCH 21/30] fix: count a task submitted under a completed parent in
 the parent's ancestors

Such a task finished its grandparent a second time, so waiting for the
grandparent returned too early, or never because the counter wrapped.
---
 include/co_ecs/thread_pool/task.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/co_ecs/thread_pool/task.hpp b/include/co_ecs/thread_pool/task.hpp
index de85f4a..50abdbd 100644
--- a/include/co_ecs/thread_pool/task.hpp
+++ b/include/co_ecs/thread_pool/task.hpp
@@ -17,8 +17,8 @@ public:
     /// @param parent Optional pointer to a parent task, defaults to nullptr if no parent is specified.
     task_t(auto&& func, task_t* parent = nullptr) : _func(std::forward<decltype(func)>(func)), _parent(parent) {
         _unfinishedTasks.store(1, std::memory_order::relaxed);
-        if (_parent) {
-            _parent->_unfinishedTasks.fetch_add(1, std::memory_order::relaxed);
+        // a parent that is completed already becomes unfinished again, and so an unfinished task of its own parent
+        for (auto* p = _parent; p && p->_unfinishedTasks.fetch_add(1, std::memory_order::relaxed) == 0; p = p->_parent) {
         }
     }
 
-- 
2.43.0


From 078d55f971ca24bcf20cbe06ba4859f96a2b2825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 22/30] fix: keep the commands of a thread that exits before
 the flush

The buffer lived in thread-local storage while the list of all buffers kept
a pointer to it, so flush() used freed memory once a thread had exited, and
its commands were lost.
---
 include/co_ecs/command.hpp | 49 +++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 3a1752a..0f41805 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -4,8 +4,10 @@
 #include <co_ecs/registry.hpp>
 
 #include <deque>
+#include <memory>
 #include <mutex>
 #include <variant>
+#include <vector>
 
 namespace co_ecs {
 
@@ -18,8 +20,8 @@ public:
     /// @brief Retrieves the thread-local command buffer instance.
     /// @return Reference to the thread-local command buffer.
     static auto get() -> command_buffer& {
-        static thread_local command_buffer buf;
-        return buf;
+        static thread_local thread_registration registration;
+        return registration.buffer();
     }
 
     /// @brief Flushes all commands in the command buffers to the given registry.
@@ -28,23 +30,51 @@ public:
         registry.sync();
 
         std::lock_guard lk{ _mutex };
-        for (auto* command_buffer : _command_buffers) {
+        for (auto& command_buffer : _command_buffers) {
             command_buffer->play_commands(registry);
         }
+
+        // commands of threads that have exited are played now
+        std::erase_if(_command_buffers, [](const auto& buffer) { return buffer->_abandoned; });
     }
 
 private:
     static inline std::mutex _mutex; ///< Mutex to synchronize access to the command buffers vector.
-    static inline std::vector<command_buffer*>
-        _command_buffers; ///< Vector containing all thread-local command buffers.
+    static inline std::vector<std::unique_ptr<command_buffer>>
+        _command_buffers; ///< Vector containing the command buffers of all threads.
 
     friend class command_writer;
     friend class command_entity_ref;
 
-    command_buffer() {
-        std::lock_guard lk{ _mutex };
-        _command_buffers.push_back(this);
-    }
+    /// @brief Ties a command buffer to a thread. The buffer outlives its thread as long as it holds commands.
+    class thread_registration {
+    public:
+        thread_registration() {
+            std::lock_guard lk{ _mutex };
+            _buffer = _command_buffers.emplace_back(new command_buffer).get();
+        }
+
+        ~thread_registration() {
+            std::lock_guard lk{ _mutex };
+            if (_buffer->_commands.empty()) {
+                std::erase_if(_command_buffers, [this](const auto& buffer) { return buffer.get() == _buffer; });
+            } else {
+                _buffer->_abandoned = true;
+            }
+        }
+
+        thread_registration(const thread_registration&) = delete;
+        thread_registration& operator=(const thread_registration&) = delete;
+
+        auto buffer() noexcept -> command_buffer& {
+            return *_buffer;
+        }
+
+    private:
+        command_buffer* _buffer;
+    };
+
+    command_buffer() = default;
 
     template<typename T>
     void push(auto&&... args) {
@@ -149,6 +179,7 @@ private:
 private:
     registry _staging;             ///< Staging registry for intermediate command processing.
     std::deque<command> _commands; ///< Deque containing the commands to be executed.
+    bool _abandoned{ false };      ///< The thread that recorded the commands has exited.
 };
 
 
-- 
2.43.0


From 98685877f1279028cf4d8e2c60905c9f62f2eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 23/30] fix: check access conflicts in both directions when
 forming batches

A system that writes the whole registry was put into one batch with systems
that only record commands, or that only read the registry.
---
 include/co_ecs/system/stage.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 1a2b453..a1fc948 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -82,7 +82,9 @@ public:
                 auto executor = _systems[i]->create_executor(registry, user_context);
                 auto system_access_pattern = executor->access_pattern();
 
-                if (!access_pattern.allows(system_access_pattern)) {
+                // the check is not symmetric: a batch without any access allows a system that accesses everything
+                if (!executor_set.empty()
+                    && !(access_pattern.allows(system_access_pattern) && system_access_pattern.allows(access_pattern))) {
                     ++i;
                     continue;
                 }
-- 
2.43.0


From cf0e74c549c1f874f46d30d8b5dabc7fd433613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 24/30] fix: keep the systems of a stage when an executor is
 created

Creating an executor took the worker systems out of the stage, so a second
executor of the same schedule ran none of them.
---
 include/co_ecs/system/stage.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index a1fc948..7e4fdcf 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -74,13 +74,17 @@ public:
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
         std::vector<vector_of_executors_t> executors{};
 
-        while (!_systems.empty()) {
+        vector_of_executors_t pending;
+        for (auto& system : _systems) {
+            pending.emplace_back(system->create_executor(registry, user_context));
+        }
+
+        while (!pending.empty()) {
             access_pattern_t access_pattern;
             vector_of_executors_t& executor_set = executors.emplace_back();
 
-            for (size_t i = 0; i < _systems.size();) {
-                auto executor = _systems[i]->create_executor(registry, user_context);
-                auto system_access_pattern = executor->access_pattern();
+            for (size_t i = 0; i < pending.size();) {
+                auto system_access_pattern = pending[i]->access_pattern();
 
                 // the check is not symmetric: a batch without any access allows a system that accesses everything
                 if (!executor_set.empty()
@@ -90,8 +94,8 @@ public:
                 }
 
                 access_pattern &= system_access_pattern;
-                executor_set.emplace_back(std::move(executor));
-                _systems.erase(_systems.begin() + i);
+                executor_set.emplace_back(std::move(pending[i]));
+                pending.erase(pending.begin() + i);
             }
         }
 
-- 
2.43.0


From 46eaf1e2a5c14cf1a24d8c157fe4ea154079f14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:58 +0000
Subject: [PATCH 25/30] fix: run each main-thread system once per pass, in a
 batch it does not conflict with

Main-thread systems ran alongside every batch of worker systems: several
times in a stage with several batches, never in a stage without worker
systems, and at the same time as worker systems they conflict with.
---
 include/co_ecs/system/stage.hpp | 59 +++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/include/co_ecs/system/stage.hpp b/include/co_ecs/system/stage.hpp
index 7e4fdcf..f082e62 100644
--- a/include/co_ecs/system/stage.hpp
+++ b/include/co_ecs/system/stage.hpp
@@ -9,6 +9,12 @@ namespace co_ecs {
 /// This type alias defines a vector of unique pointers to system executor interfaces.
 using vector_of_executors_t = std::vector<std::unique_ptr<system_executor_interface>>;
 
+/// @brief Systems that may run at the same time: some on worker threads, some one after the other on the main thread.
+struct executor_batch_t {
+    vector_of_executors_t worker_executors;
+    vector_of_executors_t main_thread_executors;
+};
+
 class stage_executor;
 class schedule;
 
@@ -72,7 +78,8 @@ public:
     /// @param user_context Optional user context.
     /// @return Unique pointer to the created stage executor.
     auto create_executor(registry& registry, void* user_context = nullptr) -> std::unique_ptr<stage_executor> {
-        std::vector<vector_of_executors_t> executors{};
+        std::vector<executor_batch_t> batches{};
+        std::vector<access_pattern_t> worker_access_patterns{};
 
         vector_of_executors_t pending;
         for (auto& system : _systems) {
@@ -81,7 +88,7 @@ public:
 
         while (!pending.empty()) {
             access_pattern_t access_pattern;
-            vector_of_executors_t& executor_set = executors.emplace_back();
+            vector_of_executors_t& executor_set = batches.emplace_back().worker_executors;
 
             for (size_t i = 0; i < pending.size();) {
                 auto system_access_pattern = pending[i]->access_pattern();
@@ -97,15 +104,29 @@ public:
                 executor_set.emplace_back(std::move(pending[i]));
                 pending.erase(pending.begin() + i);
             }
+
+            worker_access_patterns.emplace_back(std::move(access_pattern));
         }
 
-        // Main thread systems
-        vector_of_executors_t main_thread_executors;
+        // Main thread systems: each one goes into one batch it does not conflict with, in the order they were added
+        std::size_t index = 0;
         for (auto& system : _main_thread_systems) {
-            main_thread_executors.emplace_back(system->create_executor(registry, user_context));
+            auto executor = system->create_executor(registry, user_context);
+            auto system_access_pattern = executor->access_pattern();
+
+            while (index < worker_access_patterns.size()
+                   && !(worker_access_patterns[index].allows(system_access_pattern)
+                        && system_access_pattern.allows(worker_access_patterns[index]))) {
+                ++index;
+            }
+
+            if (index == batches.size()) {
+                batches.emplace_back();
+            }
+            batches[index].main_thread_executors.emplace_back(std::move(executor));
         }
 
-        return std::make_unique<stage_executor>(_name, std::move(executors), std::move(main_thread_executors));
+        return std::make_unique<stage_executor>(_name, std::move(batches));
     }
 
 private:
@@ -146,32 +167,27 @@ public:
     /// @brief Constructs a new stage executor.
     ///
     /// @param name Name of the stage.
-    /// @param executor_set Set of system executors.
-    /// @param main_thread_executors Main thread system executors.
-    explicit stage_executor(std::string_view name,
-        std::vector<vector_of_executors_t> executor_set,
-        vector_of_executors_t main_thread_executors) :
-        _executor_set(std::move(executor_set)), _main_thread_executors(std::move(main_thread_executors)), _name(name) {
+    /// @param batches Batches of system executors, run one after the other.
+    explicit stage_executor(std::string_view name, std::vector<executor_batch_t> batches) :
+        _batches(std::move(batches)), _name(name) {
     }
 
     /// @brief Runs all systems in the stage.
     void run() {
-        for (auto& executors : _executor_set) {
-            execute_batch(executors);
+        for (auto& batch : _batches) {
+            execute_batch(batch);
         }
     }
 
 private:
     /// @brief Executes a batch of systems.
     ///
-    /// @tparam WorkBatch Type of the work batch.
-    /// @param work_batch The batch of work to be executed.
-    template<typename WorkBatch>
-    void execute_batch(WorkBatch&& work_batch) {
+    /// @param batch The batch of work to be executed.
+    void execute_batch(executor_batch_t& batch) {
         task_t* parent{};
         thread_pool& _thread_pool = thread_pool::get();
 
-        for (auto& work_item : work_batch) {
+        for (auto& work_item : batch.worker_executors) {
             auto task = _thread_pool.submit([&work_item]() { work_item->run(); }, parent);
             if (!parent) {
                 parent = task;
@@ -179,7 +195,7 @@ private:
         }
 
         // in the meantime execute main thread systems
-        for (auto& executor : _main_thread_executors) {
+        for (auto& executor : batch.main_thread_executors) {
             executor->run();
         }
 
@@ -189,8 +205,7 @@ private:
     }
 
 private:
-    std::vector<vector_of_executors_t> _executor_set;
-    vector_of_executors_t _main_thread_executors;
+    std::vector<executor_batch_t> _batches;
     std::string_view _name;
 };
 
-- 
2.43.0


From edd527378a02d69fa83272954e8c82972224edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:08 +0000
Subject: [PATCH 26/30] fix: share component ids between binaries built with
 hidden visibility

CO_ECS_API had no effect on the type registry when compiled with -fvisibility=hidden: the
visibility of a template instantiation is limited by its arguments, and the tag of the component
family was hidden. Each binary numbered its components on its own.
---
 include/co_ecs/component.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 196e637..86a4d3e 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -75,8 +75,11 @@ using component_id_t = std::uint32_t;
 /// @brief Invalid component ID
 constexpr auto invalid_component_id = std::numeric_limits<component_id_t>::max();
 
+/// @brief Tag of the component family. As a template argument it limits the visibility of the type registry.
+struct CO_ECS_API _component_family_t;
+
 /// @brief Type for family used to generated component IDs.
-using component_id = detail::type_id<struct _component_family_t, component_id_t>;
+using component_id = detail::type_id<_component_family_t, component_id_t>;
 
 /// @brief Component concept. The component must be a struct/class that can be move constructed and move
 /// assignable
-- 
2.43.0


From b971bcfd2dcfdfa5877894a8ed0728c41084e2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:12 +0000
Subject: [PATCH 27/30] fix: keep the names of component types beyond the
 binary they come from

The type registry kept views of names that lie in the binary that used the type first. After that
binary had been unloaded, looking up any id could read unmapped memory.
---
 include/co_ecs/component.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/co_ecs/component.hpp b/include/co_ecs/component.hpp
index 86a4d3e..3cf14f5 100644
--- a/include/co_ecs/component.hpp
+++ b/include/co_ecs/component.hpp
@@ -6,6 +6,7 @@
 #include <functional>
 #include <numeric>
 #include <stdexcept>
+#include <string>
 
 #include <co_ecs/detail/dynamic_bitset.hpp>
 #include <co_ecs/detail/hash_map.hpp>
@@ -30,7 +31,7 @@ public:
     /// @param type_string Name of the type
     /// @return id_type ID assigned to a type
     CO_ECS_API static auto id(std::string_view type_string) -> id_type {
-        auto [iter, inserted] = get_id_map().emplace(type_string, get_next_id());
+        auto [iter, inserted] = get_id_map().emplace(std::string(type_string), get_next_id());
         if (inserted) {
             get_next_id()++;
         }
@@ -40,9 +41,9 @@ public:
 
     /// @brief Get ID mapping
     ///
-    /// @return hash_map<std::string_view, id_type>& Reference to a hash map: name -> ID
-    CO_ECS_API static auto get_id_map() -> hash_map<std::string_view, id_type>& {
-        static hash_map<std::string_view, id_type> id_map{};
+    /// @return hash_map<std::string, id_type>& Reference to a hash map: name -> ID
+    CO_ECS_API static auto get_id_map() -> hash_map<std::string, id_type>& {
+        static hash_map<std::string, id_type> id_map{};
         return id_map;
     }
 
-- 
2.43.0


From 2358781561b1844768b529d91bb22e66bece8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 28/30] fix: construct the value set over an existing component
 like that of a new one

---
 include/co_ecs/entity_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/entity_ref.hpp b/include/co_ecs/entity_ref.hpp
index 2511ac7..17e96b1 100644
--- a/include/co_ecs/entity_ref.hpp
+++ b/include/co_ecs/entity_ref.hpp
@@ -179,7 +179,7 @@ public:
     template<component C, typename... Args>
     constexpr auto set(Args&&... args) -> entity_ref {
         if (_registry.get().template has<C>(_entity)) {
-            get<C>() = C{ std::forward<Args>(args)... };
+            get<C>() = C(std::forward<Args>(args)...);
         } else {
             // construct first: construction may fail, and args may refer to components that are about to move
             C value = C(std::forward<Args>(args)...);
-- 
2.43.0


From 353bd352bb2783b249d0b4abad9fac72ed7d525e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:12 +0000
Subject: [PATCH 29/30] fix: construct the component of a deferred set like
 that of a direct one

---
 include/co_ecs/command.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/co_ecs/command.hpp b/include/co_ecs/command.hpp
index 0f41805..840a532 100644
--- a/include/co_ecs/command.hpp
+++ b/include/co_ecs/command.hpp
@@ -195,7 +195,7 @@ public:
     /// @return A reference to the command_entity_ref for chaining.
     template<component C, typename... Args>
     auto set(Args&&... args) -> command_entity_ref& {
-        auto staging_entity = _commands.staging().template create<C>(C{ std::forward<Args>(args)... });
+        auto staging_entity = _commands.staging().template create<C>(make_component<C>(std::forward<Args>(args)...));
         _commands.push<command_buffer::command_set>(staging_entity,
             _entity,
             [](auto& staging_registry, auto staging_entity, auto& dest_registry, auto dest_entity) {
@@ -237,6 +237,16 @@ public:
     }
 
 private:
+    /// @brief Constructs a component the way entity_ref::set() does.
+    template<component C, typename... Args>
+    static auto make_component(Args&&... args) -> C {
+        if constexpr (std::is_constructible_v<C, Args...>) {
+            return C(std::forward<Args>(args)...);
+        } else {
+            return C{ std::forward<Args>(args)... };
+        }
+    }
+
     friend class command_writer;
 
     command_entity_ref(command_buffer& commands, registry& registry, entity entity) :
-- 
2.43.0


From c0ba9b6e06d76faa4856cf5759f69b5dba1544ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 30/30] fix: copy components from a constant source

---
 include/co_ecs/type_meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/co_ecs/type_meta.hpp b/include/co_ecs/type_meta.hpp
index 955e997..c789f4f 100644
--- a/include/co_ecs/type_meta.hpp
+++ b/include/co_ecs/type_meta.hpp
@@ -35,7 +35,7 @@ struct type_meta {
     template<typename T>
     static void copy_constructor(void* ptr, void* rhs) noexcept(std::is_nothrow_copy_constructible_v<T>) {
         if constexpr (std::is_copy_constructible_v<T>) {
-            std::construct_at(static_cast<T*>(ptr), *static_cast<T*>(rhs));
+            std::construct_at(static_cast<T*>(ptr), *static_cast<const T*>(rhs));
         } else {
             throw std::invalid_argument("No copy constructor defined");
         }
-- 
2.43.0


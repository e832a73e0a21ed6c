From 8d728006c79966fcf1ea01c224212a9db1a6bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 01/55] fix: make links streamable, operator<< could not deduce
 the link types

---
 include/podio/detail/Link.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 9193f80..5639b86 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -348,8 +348,8 @@ private:
   podio::utils::MaybeSharedPtr<LinkObjT> m_obj{nullptr};
 };
 
-template <typename FromT, typename ToT>
-std::ostream& operator<<(std::ostream& os, const Link<FromT, ToT>& link) {
+template <typename FromT, typename ToT, bool Mutable>
+std::ostream& operator<<(std::ostream& os, const LinkT<FromT, ToT, Mutable>& link) {
   if (!link.isAvailable()) {
     return os << "[not available]";
   }
-- 
2.43.0


From c84c4190118838660fcb812c4cf6b3c514274e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 02/55] fix: declare exposed POD member accessors with the
 requested get syntax

---
 python/templates/macros/declarations.jinja2 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/templates/macros/declarations.jinja2 b/python/templates/macros/declarations.jinja2
index 75058f5..06e6a32 100644
--- a/python/templates/macros/declarations.jinja2
+++ b/python/templates/macros/declarations.jinja2
@@ -17,7 +17,7 @@
 {% if member.sub_members %}
 {% for sub_member in member.sub_members %}
   /// Access the member of {{ member.docstring }}
-  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_sytnax) }}() const;
+  {{ sub_member.getter_return_type() }} {{ sub_member.getter_name(get_syntax) }}() const;
 {% endfor %}
 {% endif %}
 
@@ -43,7 +43,7 @@
   /// Get reference to the member of {{ member.docstring }}
   {{ sub_member.full_type }}& {{ sub_member.name }}();
   /// Set the member of  {{ member.docstring }}
-  void {{ sub_member.setter_name(get_sytnax) }}({{ sub_member.full_type }} value);
+  void {{ sub_member.setter_name(get_syntax) }}({{ sub_member.full_type }} value);
 {% endif %}
 {% endfor %}
 {% endif %}
-- 
2.43.0


From 24365874b13704af6e37ed0569c51dcfe536f60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 03/55] fix: new link and user data collections do not have an
 ID

They started with the ID 0 instead of the one reserved for collections
without an ID, so that hasID() was true for them before they got one.
---
 include/podio/UserDataCollection.h        | 2 +-
 include/podio/detail/LinkCollectionImpl.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/podio/UserDataCollection.h b/include/podio/UserDataCollection.h
index 361bb00..1c0aedc 100644
--- a/include/podio/UserDataCollection.h
+++ b/include/podio/UserDataCollection.h
@@ -71,7 +71,7 @@ private:
   // simpler move-semantics this will be set and properly initialized on
   // demand during the call to getBuffers
   std::vector<BasicType>* _vecPtr{nullptr};
-  uint32_t m_collectionID{0};
+  uint32_t m_collectionID{static_cast<uint32_t>(podio::ObjectID::untracked)};
   CollRefCollection m_refCollections{};
   VectorMembersInfo m_vecmem_info{};
 
diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index cf498c3..ba37ab5 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -62,7 +62,7 @@ public:
   LinkCollection() = default;
 
   LinkCollection(CollectionDataT&& data, bool isSubsetColl) :
-      m_isSubsetColl(isSubsetColl), m_collectionID(0), m_storage(std::move(data)) {
+      m_isSubsetColl(isSubsetColl), m_storage(std::move(data)) {
   }
 
   // Move-only type
@@ -370,7 +370,7 @@ private:
 
   mutable bool m_isPrepared{false};
   bool m_isSubsetColl{false};
-  uint32_t m_collectionID{0};
+  uint32_t m_collectionID{static_cast<uint32_t>(podio::ObjectID::untracked)};
   mutable std::unique_ptr<std::mutex> m_storageMtx{std::make_unique<std::mutex>()};
   mutable CollectionDataT m_storage{};
 };
-- 
2.43.0


From 8df4f7041ab114044962342dd22e637119c5c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 04/55] fix: free the elements of a collection that is assigned
 to

The defaulted move assignment dropped the pointers to the elements the
collection had so far without deleting the elements.
---
 include/podio/detail/LinkCollectionImpl.h | 14 +++++++++++++-
 python/templates/Collection.h.jinja2      | 14 +++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index ba37ab5..b24d8db 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -69,7 +69,19 @@ public:
   LinkCollection(const LinkCollection&) = delete;
   LinkCollection& operator=(const LinkCollection&) = delete;
   LinkCollection(LinkCollection&&) = default;
-  LinkCollection& operator=(LinkCollection&&) = default;
+  LinkCollection& operator=(LinkCollection&& other) {
+    if (this != &other) {
+      // The storage doesn't know whether it owns its elements, so whatever this
+      // collection currently holds has to be cleaned up explicitly
+      m_storage.clear(m_isSubsetColl);
+      m_isPrepared = other.m_isPrepared;
+      m_isSubsetColl = other.m_isSubsetColl;
+      m_collectionID = other.m_collectionID;
+      m_storageMtx = std::move(other.m_storageMtx);
+      m_storage = std::move(other.m_storage);
+    }
+    return *this;
+  }
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor from range in order to enable the use of std::ranges::to see
   /// @ref from.
diff --git a/python/templates/Collection.h.jinja2 b/python/templates/Collection.h.jinja2
index c74a50d..54470fe 100644
--- a/python/templates/Collection.h.jinja2
+++ b/python/templates/Collection.h.jinja2
@@ -61,7 +61,19 @@ public:
   {{ class.bare_type }}Collection(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection& operator=(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection({{ class.bare_type }}Collection&&) = default;
-  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&&) = default;
+  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&& other) {
+    if (this != &other) {
+      // The storage doesn't know whether it owns its elements, so whatever this
+      // collection currently holds has to be cleaned up explicitly
+      m_storage.clear(m_isSubsetColl);
+      m_isPrepared = other.m_isPrepared;
+      m_isSubsetColl = other.m_isSubsetColl;
+      m_collectionID = other.m_collectionID;
+      m_storageMtx = std::move(other.m_storageMtx);
+      m_storage = std::move(other.m_storage);
+    }
+    return *this;
+  }
 
   ~{{ class.bare_type }}Collection() override;
 #if defined(__cpp_lib_containers_ranges)
-- 
2.43.0


From 051a40fbabcb99408e39f0cf7730a94c485df432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 05/55] fix: make an empty subset collection usable after
 turning it back into an ordinary one

The buffers that are released for subset collections were not created
again, so that such a collection crashed when it was written.
---
 include/podio/detail/LinkCollectionImpl.h | 4 ++++
 python/templates/Collection.cc.jinja2     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index b24d8db..4bbe996 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -319,6 +319,10 @@ public:
 
     if (setSubset) {
       m_storage.makeSubsetCollection();
+    } else if (m_isSubsetColl) {
+      // Get back all the buffers that are not present in a subset collection
+      m_storage = CollectionDataT{};
+      m_isPrepared = false;
     }
     m_isSubsetColl = setSubset;
   }
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 0acc2e7..1c82f6f 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -78,6 +78,10 @@ void {{ collection_type }}::setSubsetCollection(bool setSubset) {
 
   if (setSubset) {
     m_storage.makeSubsetCollection();
+  } else if (m_isSubsetColl) {
+    // Get back all the buffers that are not present in a subset collection
+    m_storage = {{ collection_type }}Data{};
+    m_isPrepared = false;
   }
   m_isSubsetColl = setSubset;
 }
-- 
2.43.0


From 2aa33eeffa8be3f4744f404207c8b8b2d859e1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:06 +0000
Subject: [PATCH 06/55] fix: start from empty buffers when preparing a
 collection again after a failure

If prepareForWrite threw because a relation pointed to an untracked object
the next attempt appended the data to what was already in the buffers.
---
 python/templates/CollectionData.cc.jinja2 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 0452da5..30ed846 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -141,7 +141,12 @@ void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
     return;
   }
 
-  // Normal collections have to store the data and all the relations
+  // Normal collections have to store the data and all the relations. There can
+  // be leftovers of an earlier attempt that ended with an exception
+  m_data->clear();
+{% for member in VectorMembers %}
+  m_vec_{{ member.name }}->clear();
+{% endfor %}
   m_data->reserve(entries.size());
   for (const auto& obj : entries) { m_data->push_back(obj->data); }
 
-- 
2.43.0


From 743ae3e23e568d9e7f5b00e21b5b880f82dba107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 07/55] fix: print subset collections with elements that are
 not available

Elements of a subset collection whose original collection has not been
stored are not available after reading, printing them dereferenced a null
pointer.
---
 include/podio/detail/LinkCollectionImpl.h  | 4 ++++
 python/templates/macros/collections.jinja2 | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index 4bbe996..2392176 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -396,6 +396,10 @@ std::ostream& operator<<(std::ostream& o, const LinkCollection<FromT, ToT>& v) {
   const auto old_flags = o.flags();
   o << "          id:      weight:" << '\n';
   for (const auto&& el : v) {
+    if (!el.isAvailable()) {
+      o << std::setw(12) << el.id() << " [not available]" << '\n';
+      continue;
+    }
     o << std::scientific << std::showpos << std::setw(12) << el.id() << " " << std::setw(12) << " " << el.getWeight()
       << '\n';
 
diff --git a/python/templates/macros/collections.jinja2 b/python/templates/macros/collections.jinja2
index 87a72dc..e29e7da 100644
--- a/python/templates/macros/collections.jinja2
+++ b/python/templates/macros/collections.jinja2
@@ -107,6 +107,10 @@ std::ostream& operator<<(std::ostream& o, const {{ class.bare_type }}Collection&
 {%- endfor -%}" << '\n';
 
   for (const auto&& el : v) {
+    if (!el.isAvailable()) {
+      o << std::setw({{ col_width }}) << el.id() << " [not available]" << std::endl;
+      continue;
+    }
     o << std::scientific << std::showpos << std::setw({{ col_width }}) << el.id() << " "
 {% for member in members %}
 {% if not member.is_array %}
-- 
2.43.0


From 60e2dd2edb631ccf8840742e23e688ce8460c065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 08/55] fix: copy the ID table of a Frame without racing with
 puts

The contents were copied while another thread could be adding a name.
---
 include/podio/Frame.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 1f83030..417baaa 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -134,7 +134,8 @@ class Frame {
     bool get(uint32_t collectionID, podio::CollectionBase*& collection) const override;
 
     podio::CollectionIDTable getIDTable() const override {
-      // Make a copy
+      // Make a copy, new names are only ever added while holding this lock
+      std::lock_guard lock{*m_mapMtx};
       return {m_idTable.ids(), m_idTable.names()};
     }
 
-- 
2.43.0


From df04215bc766c6252e1affbc19c5dfd2ec22a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:08 +0000
Subject: [PATCH 09/55] fix: do not put collections under the name of one that
 is still to be unpacked

Putting a collection with the name of a collection from the raw data was
only refused after that one had been unpacked. Before it silently replaced
it.
---
 include/podio/Frame.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 417baaa..a2e22cd 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -9,6 +9,7 @@
 #include "podio/SchemaEvolution.h"
 #include "podio/utilities/TypeHelpers.h"
 
+#include <algorithm>
 #include <concepts>
 #include <initializer_list>
 #include <memory>
@@ -526,7 +527,12 @@ template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<podio::CollectionBase> coll,
                                                                 const std::string& name) {
   {
-    std::lock_guard lock{*m_mapMtx};
+    std::scoped_lock lock{*m_mapMtx, *m_dataMtx};
+    // Collections that have not been unpacked from the raw data yet are only
+    // known there
+    if (m_idTable.present(name) && std::ranges::count(m_data->getAvailableCollections(), name) != 0) {
+      throw std::invalid_argument("An object with key " + name + " already exists in the frame");
+    }
     auto [it, success] = m_collections.try_emplace(name, std::move(coll));
     if (success) {
       // TODO: Check whether this collection is already known to the idTable
-- 
2.43.0


From 2e1ad59c8955a1d4694c87af922eea9f16585289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:24 +0000
Subject: [PATCH 10/55] fix: make unpacking collections of a Frame thread safe

While one thread was unpacking a collection it was neither in the raw data
nor in the map, so that other threads could not get it. It was put into the
map before its relations were resolved, and the set of retrieved IDs was
modified without any lock. Now unpacking happens while the raw data are
locked and the results become visible once all relations are in place.
---
 include/podio/Frame.h | 139 ++++++++++++++++++++++--------------------
 1 file changed, 73 insertions(+), 66 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index a2e22cd..ba64079 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -15,7 +15,6 @@
 #include <memory>
 #include <mutex>
 #include <optional>
-#include <set>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
@@ -143,18 +142,20 @@ class Frame {
     std::vector<std::string> availableCollections() const override;
 
   private:
-    podio::CollectionBase* doGet(const std::string& name, bool setReferences = true) const;
+    podio::CollectionBase* doGet(const std::string& name) const;
 
     using CollectionMapT = std::unordered_map<std::string, std::unique_ptr<podio::CollectionBase>>;
 
-    mutable CollectionMapT m_collections{};                 ///< The internal map for storing unpacked collections
-    mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr};  ///< The mutex for guarding the internal collection map
-    std::unique_ptr<FrameDataT> m_data{nullptr};            ///< The raw data read from file
-    mutable std::unique_ptr<std::mutex> m_dataMtx{nullptr}; ///< The mutex for guarding the raw data
-    podio::CollectionIDTable m_idTable{};                   ///< The collection ID table
+    mutable CollectionMapT m_collections{};                ///< The internal map for storing unpacked collections
+    mutable std::unique_ptr<std::mutex> m_mapMtx{nullptr}; ///< The mutex for guarding the internal collection map
+    std::unique_ptr<FrameDataT> m_data{nullptr};           ///< The raw data read from file
+    /// The mutex for guarding the raw data and the unpacking of collections
+    /// (recursive, because this might require to unpack related collections)
+    mutable std::unique_ptr<std::recursive_mutex> m_dataMtx{nullptr};
+    podio::CollectionIDTable m_idTable{};                            ///< The collection ID table
     std::unique_ptr<podio::GenericParameters> m_parameters{nullptr}; ///< The generic parameter store for this frame
-    mutable std::set<uint32_t> m_retrievedIDs{}; ///< The IDs of the collections that we have already read (but not yet
-                                                 ///< put into the map)
+    mutable CollectionMapT m_unpacking{}; ///< The collections that are currently being unpacked, i.e. the ones for
+                                          ///< which not all relations have been resolved yet
   };
 
   std::unique_ptr<FrameConcept> m_self; ///< The internal concept pointer through which all the work is done
@@ -426,7 +427,7 @@ const CollT& Frame::put(CollT&& coll, const std::string& name) {
 
 template <typename FrameDataT>
 Frame::FrameModel<FrameDataT>::FrameModel(std::unique_ptr<FrameDataT> data) :
-    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::mutex>()) {
+    m_mapMtx(std::make_unique<std::mutex>()), m_dataMtx(std::make_unique<std::recursive_mutex>()) {
   if (!data) {
     throw std::invalid_argument(
         "FrameData is a nullptr. If you are reading from a file it may be corrupted or you may reading beyond the end "
@@ -443,57 +444,73 @@ const podio::CollectionBase* Frame::FrameModel<FrameDataT>::get(const std::strin
 }
 
 template <typename FrameDataT>
-podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name, bool setReferences) const {
-  {
-    // First check whether the collection is in the map already
-    //
-    // Collections only land here if they are fully unpacked, i.e.
-    // prepareAfterRead has been called or it has been put into the Frame
+podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& name) const {
+  const auto findInMap = [this, &name]() -> podio::CollectionBase* {
     std::lock_guard lock{*m_mapMtx};
-    if (const auto it = m_collections.find(name); it != m_collections.end()) {
-      return it->second.get();
-    }
+    const auto it = m_collections.find(name);
+    return it != m_collections.end() ? it->second.get() : nullptr;
+  };
+
+  // First check whether the collection is in the map already
+  //
+  // Collections only land here if they are fully unpacked, i.e.
+  // prepareAfterRead has been called and all relations of this and all related
+  // collections have been resolved, or it has been put into the Frame
+  if (auto* coll = findInMap()) {
+    return coll;
   }
 
-  podio::CollectionBase* retColl = nullptr;
+  // Now try to get it from the raw data. Only one thread can do this at a time,
+  // since all collections that are reachable via relations will be unpacked as
+  // well.
+  std::lock_guard dataLock{*m_dataMtx};
 
-  // Now try to get it from the raw data if we have the possibility
-  if (m_data) {
-    // Have the buffers in the outer scope here to hold the raw data lock as
-    // briefly as possible
-    std::optional<podio::CollectionReadBuffers> buffers;
-    {
-      std::lock_guard lock{*m_dataMtx};
-      buffers = unpack(m_data.get(), name);
-    }
-    if (buffers) {
-      std::unique_ptr<podio::CollectionBase> coll{nullptr};
-      // Subset collections do not need schema evolution (by definition)
-      if (buffers->data == nullptr) {
-        coll = buffers->createCollection(std::move(buffers.value()), true);
-      } else {
-        const auto version = buffers->schemaVersion;
-        const std::string collType{buffers->type};
-        auto evolvedBuffers =
-            podio::SchemaEvolution::instance().evolveBuffers(std::move(buffers.value()), version, collType);
-        coll = evolvedBuffers.createCollection(std::move(evolvedBuffers), false);
-      }
+  // Another thread could have unpacked it while we were waiting
+  if (auto* coll = findInMap()) {
+    return coll;
+  }
+  // We could be here because of (circular) relations
+  if (const auto it = m_unpacking.find(name); it != m_unpacking.end()) {
+    return it->second.get();
+  }
 
-      coll->prepareAfterRead();
-      coll->setID(m_idTable.collectionID(name).value());
-      {
-        std::lock_guard mapLock{*m_mapMtx};
-        auto [it, success] = m_collections.emplace(name, std::move(coll));
-        // TODO: Check success? Or simply assume that everything is fine at this point?
-        // TODO: Collision handling?
-        retColl = it->second.get();
-      }
+  auto buffers = unpack(m_data.get(), name);
+  if (!buffers) {
+    return nullptr;
+  }
+
+  std::unique_ptr<podio::CollectionBase> coll{nullptr};
+  // Subset collections do not need schema evolution (by definition)
+  if (buffers->data == nullptr) {
+    coll = buffers->createCollection(std::move(buffers.value()), true);
+  } else {
+    const auto version = buffers->schemaVersion;
+    const std::string collType{buffers->type};
+    auto evolvedBuffers =
+        podio::SchemaEvolution::instance().evolveBuffers(std::move(buffers.value()), version, collType);
+    coll = evolvedBuffers.createCollection(std::move(evolvedBuffers), false);
+  }
 
-      if (setReferences) {
-        retColl->setReferences(this);
+  coll->prepareAfterRead();
+  coll->setID(m_idTable.collectionID(name).value());
+
+  // Make everything available to others once the collection we started from is
+  // done. At that point all relations have been resolved.
+  struct Publisher {
+    const FrameModel* frame;
+    bool outermost;
+    ~Publisher() {
+      if (outermost) {
+        std::lock_guard lock{*frame->m_mapMtx};
+        frame->m_collections.merge(frame->m_unpacking);
+        frame->m_unpacking.clear();
       }
     }
-  }
+  };
+  const auto publisher = Publisher{this, m_unpacking.empty()};
+
+  auto* retColl = m_unpacking.emplace(name, std::move(coll)).first->second.get();
+  retColl->setReferences(this);
 
   return retColl;
 }
@@ -504,20 +521,10 @@ bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*&
   if (!name) {
     return false;
   }
-  const auto& [_, inserted] = m_retrievedIDs.insert(collectionID);
 
-  if (inserted) {
-    auto coll = doGet(name.value());
-    if (coll) {
-      collection = coll;
-      return true;
-    }
-  } else {
-    auto coll = doGet(name.value(), false);
-    if (coll) {
-      collection = coll;
-      return true;
-    }
+  if (auto* coll = doGet(name.value())) {
+    collection = coll;
+    return true;
   }
 
   return false;
-- 
2.43.0


From b4974f3ea0dd9a4f7703c3ae9bf990d42c762c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 11/55] fix: do not read in front of the creation functions for
 schema version 0

Versions start at 1, requesting buffers for version 0 is answered like for
any other unknown version now.
---
 src/CollectionBufferFactory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CollectionBufferFactory.cc b/src/CollectionBufferFactory.cc
index 8c48ea0..33ee245 100644
--- a/src/CollectionBufferFactory.cc
+++ b/src/CollectionBufferFactory.cc
@@ -15,7 +15,7 @@ std::optional<podio::CollectionReadBuffers>
 CollectionBufferFactory::createBuffers(const std::string& collType, SchemaVersionT version, bool subsetColl) const {
   if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {
     const auto& [_, versionMap] = *typeIt;
-    if (versionMap.size() >= version) {
+    if (version > 0 && versionMap.size() >= version) {
       return versionMap[version - 1](subsetColl);
     }
   }
-- 
2.43.0


From 6de4955b13887f6adadf2b69ab9aa7b3ddfb90e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 12/55] fix: leave buffers alone if there is no evolution
 function for their version

For version 0 the function in front of the first one was called, and for a
version without a registered function an empty one.
---
 src/SchemaEvolution.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index f21bb4f..243bfd5 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,7 +24,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion < typeEvolFuncs.size()) {
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size() && typeEvolFuncs[fromVersion - 1]) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
       return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
-- 
2.43.0


From ba7f1c8dae46a112bb2b780e79672394ba138797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 13/55] fix: respect the priority of schema evolution functions

The priority was ignored, so that the auto generated functions of a
datamodel replaced user defined ones that had been registered before.
---
 include/podio/SchemaEvolution.h | 16 +++++++++++-----
 src/SchemaEvolution.cc          | 12 +++++++-----
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/podio/SchemaEvolution.h b/include/podio/SchemaEvolution.h
index 5eb82c6..807ef26 100644
--- a/include/podio/SchemaEvolution.h
+++ b/include/podio/SchemaEvolution.h
@@ -27,13 +27,23 @@ struct CollectionReadBuffers;
 /// that the registration still happens on a single thread. After this
 /// initialization evolutions can be done from multiple threads.
 class SchemaEvolution {
+public:
+  /// Enum to make it possible to prioritize evolution functions during
+  /// registration, making AutoGenerated lower priority than UserDefined
+  enum class Priority { AutoGenerated = 0, UserDefined = 1 };
+
+private:
   /// The interface of any evolution function takes buffers and a version and
   /// returns buffers.
   using EvolutionFuncT = std::function<podio::CollectionReadBuffers(podio::CollectionReadBuffers&&, SchemaVersionT)>;
   /// Each datatype gets its own version "map" where the index defines the
   /// version from which the schema evolution has to start to end up in the
   /// current version
-  using EvolFuncVersionMapT = std::vector<EvolutionFuncT>;
+  struct PrioritizedEvolutionFunc {
+    EvolutionFuncT func{};                        ///< The evolution function
+    Priority priority{Priority::AutoGenerated}; ///< The priority it was registered with
+  };
+  using EvolFuncVersionMapT = std::vector<PrioritizedEvolutionFunc>;
 
   /// Helper struct combining the current schema version of each type and an
   /// index into the schema evolution "map" below
@@ -51,10 +61,6 @@ class SchemaEvolution {
   using EvolutionMapT = std::vector<EvolFuncVersionMapT>;
 
 public:
-  /// Enum to make it possible to prioritize evolution functions during
-  /// registration, making AutoGenerated lower priority than UserDefined
-  enum class Priority { AutoGenerated = 0, UserDefined = 1 };
-
   /// The SchemaEvolution is a singleton so we disable all copy and move
   /// constructors explicitly
   SchemaEvolution(const SchemaEvolution&) = delete;
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index 243bfd5..be0dac8 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,10 +24,10 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size() && typeEvolFuncs[fromVersion - 1]) {
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size() && typeEvolFuncs[fromVersion - 1].func) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
-      return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
+      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
     }
   }
 
@@ -62,9 +62,11 @@ void SchemaEvolution::registerEvolutionFunc(const std::string& collType, SchemaV
     versionMap.resize(currentVersion);
   }
 
-  versionMap[fromVersion - 1] = evolutionFunc;
-  if (priority != Priority::UserDefined) {
-    //  std::cerr << "Not updating evolution function because priority is not UserDefined" << std::endl;
+  // Never replace a user defined function by an auto generated one,
+  // independent of the order in which the libraries are loaded
+  auto& entry = versionMap[fromVersion - 1];
+  if (!entry.func || entry.priority <= priority) {
+    entry = {evolutionFunc, priority};
   }
 }
 
-- 
2.43.0


From 782f7be95eb4499ac0e207e3ef8cff3e2f8de415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 14/55] fix: allow setting the ends of a link by type from
 mutable handles

---
 include/podio/detail/Link.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/Link.h b/include/podio/detail/Link.h
index 5639b86..5951100 100644
--- a/include/podio/detail/Link.h
+++ b/include/podio/detail/Link.h
@@ -269,9 +269,10 @@ public:
              (isMutableFromOrToT<T> || detail::isInterfaceInitializableFrom<ToT, T> ||
               detail::isInterfaceInitializableFrom<FromT, T>))
   void set(T value) {
-    if constexpr (std::is_same_v<T, FromT>) {
+    using DefaultT = detail::GetDefaultHandleType<T>;
+    if constexpr (std::is_same_v<DefaultT, FromT>) {
       setFrom(std::move(value));
-    } else if constexpr (std::is_same_v<T, ToT>) {
+    } else if constexpr (std::is_same_v<DefaultT, ToT>) {
       setTo(std::move(value));
     } else if constexpr (detail::isInterfaceInitializableFrom<FromT, T> &&
                          !detail::isInterfaceInitializableFrom<ToT, T>) {
-- 
2.43.0


From be54b97cb7078a46ac628fe985497f41475f951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:56 +0000
Subject: [PATCH 15/55] fix: make interface types default constructible as
 documented

---
 python/templates/Interface.h.jinja2 | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/templates/Interface.h.jinja2 b/python/templates/Interface.h.jinja2
index b23fb14..d058d20 100644
--- a/python/templates/Interface.h.jinja2
+++ b/python/templates/Interface.h.jinja2
@@ -104,6 +104,9 @@ private:
  std::unique_ptr<Concept> m_self{nullptr};
 
 public:
+  /// Create an empty handle
+  {{ class.bare_type }}() : {{ class.bare_type }}(makeEmpty()) {}
+
   // {{ class.bare_type }} can only be initialized with one of the following types (and their Mutable counter parts): {{ Types | join(", ") }}
   template<typename ValueT>
   requires isInitializableFrom<ValueT>
-- 
2.43.0


From 0c01f9015437d4b843c97fc3ba8469d5cb4e932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:53 +0000
Subject: [PATCH 16/55] fix: do not resolve stored relations into collections
 put into a Frame later

Putting a collection under the name of one that was not stored made relations
that were unpacked afterwards refer to (or read beyond) the new collection
---
 include/podio/Frame.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index ba64079..2244b59 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -19,6 +19,7 @@
 #include <string>
 #include <type_traits>
 #include <unordered_map>
+#include <unordered_set>
 #include <vector>
 
 namespace podio {
@@ -154,6 +155,7 @@ class Frame {
     mutable std::unique_ptr<std::recursive_mutex> m_dataMtx{nullptr};
     podio::CollectionIDTable m_idTable{};                            ///< The collection ID table
     std::unique_ptr<podio::GenericParameters> m_parameters{nullptr}; ///< The generic parameter store for this frame
+    std::unordered_set<uint32_t> m_putIDs{}; ///< The IDs of the collections that have been put into this Frame
     mutable CollectionMapT m_unpacking{}; ///< The collections that are currently being unpacked, i.e. the ones for
                                           ///< which not all relations have been resolved yet
   };
@@ -517,6 +519,14 @@ podio::CollectionBase* Frame::FrameModel<FrameDataT>::doGet(const std::string& n
 
 template <typename FrameDataT>
 bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*& collection) const {
+  {
+    // Raw data can only refer to other raw data, and not to a collection that
+    // has been put into this Frame under the name of one that was not stored
+    std::lock_guard lock{*m_mapMtx};
+    if (m_putIDs.contains(collectionID)) {
+      return false;
+    }
+  }
   const auto name = m_idTable.name(collectionID);
   if (!name) {
     return false;
@@ -547,6 +557,7 @@ const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<
       // -> Check before we emplace it into the internal map to prevent possible
       //    collisions from collections that are potentially present from rawdata?
       it->second->setID(m_idTable.add(name));
+      m_putIDs.insert(it->second->getID());
       return it->second.get();
     } else {
       throw std::invalid_argument("An object with key " + name + " already exists in the frame");
-- 
2.43.0


From 587c578e9124c135a2935bd6e6053c80cecd5f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:27 +0000
Subject: [PATCH 17/55] fix: brace expressions without matches are errors in
 glob expansion

GLOB_NOMAGIC does not look at braces, so that the pattern itself was returned
as the only match
---
 src/Glob.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Glob.cc b/src/Glob.cc
index 25d634b..cd15c9e 100644
--- a/src/Glob.cc
+++ b/src/Glob.cc
@@ -34,7 +34,10 @@ int glob_err_handler(const char* epath, int eerrno) {
 
 std::vector<std::string> expand_glob(const std::string& pattern) {
   glob_t glob_result;
-  auto retv = glob(pattern.c_str(), GLOB_TILDE | GLOB_BRACE | GLOB_NOMAGIC, glob_err_handler, &glob_result);
+  // GLOB_NOMAGIC does not consider braces to be magic and would return brace
+  // expressions without any match as they are
+  const auto flags = GLOB_TILDE | GLOB_BRACE | (is_glob_pattern(pattern) ? 0 : GLOB_NOMAGIC);
+  auto retv = glob(pattern.c_str(), flags, glob_err_handler, &glob_result);
   if (retv == GLOB_NOMATCH) {
     throw std::runtime_error("Glob expansion found no matches for pattern: " + pattern);
   } else if (retv != 0) {
-- 
2.43.0


From 30d34561dfa3b5fc15e65222ff450fd891e4aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:44 +0000
Subject: [PATCH 18/55] fix: reject member definitions that are only valid in
 part

---
 python/podio_gen/podio_config_reader.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 928f5a3..068639e 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -47,8 +47,9 @@ class MemberParser:
     array_str = rf" *std::array *< *{type_str} *, *([0-9]+) *>"
 
     # Default values can be anything that in curly braces, but not the empty
-    # default initialization, since that is what we generate in any case
-    def_val_str = r"(?:{(.+)})?"
+    # default initialization, since that is what we generate in any case. Don't be
+    # greedy here, the description might also contain curly braces
+    def_val_str = r"(?:{(.+?)})?"
 
     array_re = re.compile(array_str)
     full_array_re = re.compile(
@@ -57,8 +58,8 @@ class MemberParser:
     member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str} *{comment_str}")
 
     # For cases where we don't require a description
-    bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str}")
-    bare_array_re = re.compile(rf" *{array_str} +{name_str} *{def_val_str} *{unit_str}")
+    bare_member_re = re.compile(rf" *{type_str} +{name_str} *{def_val_str} *{unit_str} *$")
+    bare_array_re = re.compile(rf"{array_str} *{name_str} *{def_val_str} *{unit_str} *$")
 
     @staticmethod
     def _parse_with_regexps(string, regexps_callbacks):
-- 
2.43.0


From 20521e599fe58ff9b0b9aabe439a1461787eff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:06 +0000
Subject: [PATCH 19/55] fix: do not take parts of builtin types for member
 names

---
 python/podio_gen/podio_config_reader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 068639e..a510e02 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -32,8 +32,10 @@ class MemberParser:
     type_re = re.compile(type_str)
 
     # Names can be almost anything as long as it doesn't start with a digit and
-    # doesn't contain anything fancy
-    name_str = r"([a-zA-Z_]+\w*)"
+    # doesn't contain anything fancy. They also cannot be (parts of) builtin types,
+    # e.g. 'unsigned int // no name' is not an unsigned called int
+    builtin_words_str = r"|".join(sorted({w for t in BUILTIN_TYPES for w in t.split()}))
+    name_str = rf"(?!(?:{builtin_words_str})\b)([a-zA-Z_]+\w*)"
     name_re = re.compile(name_str)
 
     # Units are given in square brackets
-- 
2.43.0


From 551eaab627c8256312dbf29ab9ebea8f0d410ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:03 +0000
Subject: [PATCH 20/55] fix: do not write the list of generated files in a dry
 run

---
 python/podio_gen/cpp_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 01c2b65..c888861 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -846,6 +846,9 @@ have resolvable schema evolution incompatibilities:"
 
     def _write_cmake_lists_file(self):
         """Write the names of all generated header and src files into cmake lists"""
+        if self.dryrun:
+            return
+
         header_files = list(f for f in self.generated_files if f.endswith(".h"))
         src_files = (f for f in self.generated_files if f.endswith(".cc"))
         xml_files = (f for f in self.generated_files if f.endswith(".xml"))
-- 
2.43.0


From f247dc4a265dd061bc1a75fdfb203ae2fba7e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:38 +0000
Subject: [PATCH 21/55] fix: include headers of the data model also without
 includeSubfolder

---
 python/podio_gen/cpp_generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index c888861..a5cfc14 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -1077,6 +1077,9 @@ have resolvable schema evolution incompatibilities:"
                 stl_includes.append(include)
             elif self.upstream_edm and self.upstream_edm.options["includeSubfolder"] in include:
                 upstream_includes.append(include)
+            elif '"' in include:
+                # Headers from the package without subfolder or from other places
+                package_includes.append(include)
             else:
                 print(f"Warning: unable to include '{include}'")
 
-- 
2.43.0


From 38152292099be2ba3a8578548d277ff726ac2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 22/55] fix: include julia structs after the ones they use and
 in a reproducible order

---
 python/podio_gen/julia_generator.py | 35 +++++++++--------------------
 1 file changed, 11 insertions(+), 24 deletions(-)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index e96ceb0..61663aa 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -102,36 +102,23 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
 
         """
         # Create a dictionary to store dependencies
-        dependencies = {}
-        bare_types_mapping = {}
+        dependencies = {d["class"].full_type: set() for d in data}
+        bare_types_mapping = {d["class"].full_type: d["class"].bare_type for d in data}
 
         for component_data in data:
             full_type = component_data["class"].full_type
-            bare_type = component_data["class"].bare_type
-            bare_types_mapping[full_type] = bare_type
-            dependencies[full_type] = set()
-
-            # Check dependencies in 'Members'
-            if "Members" in component_data:
-                for member_data in component_data["Members"]:
-                    member_full_type = member_data.full_type
-                    if not member_data.is_builtin and not member_data.is_builtin_array:
-                        dependencies[full_type].add(member_full_type)
-
-            # Check dependencies in 'VectorMembers'
-            if "VectorMembers" in component_data:
-                for vector_member_data in component_data["VectorMembers"]:
-                    vector_member_full_type = vector_member_data.full_type
-                    if (
-                        not vector_member_data.is_builtin
-                        and not vector_member_data.is_builtin_array
-                    ):
-                        dependencies[full_type].add(vector_member_full_type)
+            for member in component_data.get("Members", []) + component_data.get(
+                "VectorMembers", []
+            ):
+                member_type = member.array_type if member.is_array else member.full_type
+                # Everything else is builtin or comes from an upstream datamodel
+                if member_type in dependencies:
+                    dependencies[full_type].add(member_type)
 
         # Perform topological sorting using Kahn's algorithm
         sorted_components = []
         while dependencies:
-            ready = {component for component, deps in dependencies.items() if not deps}
+            ready = [component for component, deps in dependencies.items() if not deps]
             if not ready:
                 sorted_components.extend(
                     bare_types_mapping[component] for component in dependencies
@@ -143,7 +130,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
                 sorted_components.append(bare_types_mapping[component])
 
             for deps in dependencies.values():
-                deps -= ready
+                deps.difference_update(ready)
 
         # Return the Sorted Components (bare_types)
         return sorted_components
-- 
2.43.0


From c76bfaaed041c2aff38fc6213750eb8af307c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:43 +0000
Subject: [PATCH 23/55] fix: generate code for dropped components in a
 reproducible order

---
 python/podio_gen/cpp_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index a5cfc14..d9f45b5 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -616,7 +616,7 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         previous_components = set(self.old_components.keys())
         dropped_components = previous_components.difference(current_components)
 
-        for name in dropped_components:
+        for name in sorted(dropped_components):
             comps = sorted(self.old_components[name], key=lambda x: x["version"], reverse=True)
             most_recent_comp = comps[0]["definition"]
             most_recent_comp["class"] = DataType(name)
-- 
2.43.0


From 132112da4becebd0bba11f40e49decb4919e8d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:51 +0000
Subject: [PATCH 24/55] fix: map unsigned to a julia type

---
 doc/templates.md                    | 1 +
 python/podio_gen/generator_utils.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/doc/templates.md b/doc/templates.md
index 25f4d6c..d244718 100644
--- a/doc/templates.md
+++ b/doc/templates.md
@@ -166,6 +166,7 @@ Builtin types mapping in Julia
 | `short` | `Int16` |
 | `int` | `Int32` |
 | `unsigned int` | `UInt32` |
+| `unsigned` | `UInt32` |
 | `float` | `Float32` |
 | `double` | `Float64` |
 | `long` | `Int64` |
diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 327a158..4c75fae 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -40,6 +40,7 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
         "bool": "Bool",
         "long": "Int64",
         "unsigned int": "UInt32",
+        "unsigned": "UInt32",
         "unsigned long": "UInt64",
         "char": "Char",
         "short": "Int16",
-- 
2.43.0


From 0e8153e05e95995cf1947f88eb5923da8e6dc95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:15 +0000
Subject: [PATCH 25/55] fix: do not generate julia code that uses datatypes
 without julia code

---
 python/podio_gen/julia_generator.py | 35 ++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/python/podio_gen/julia_generator.py b/python/podio_gen/julia_generator.py
index 61663aa..0ece940 100644
--- a/python/podio_gen/julia_generator.py
+++ b/python/podio_gen/julia_generator.py
@@ -17,6 +17,9 @@ REPORT_TEXT_JULIA = """
 class JuliaClassGenerator(ClassGeneratorBaseMixin):
     """The julia class / code generator for podio"""
 
+    # names of datatypes that cannot be generated, populated in pre_process
+    unsupported_types = frozenset()
+
     def print_report(self):
         """Print a summary of the generated code"""
         nfiles = len(self.datamodel.datatypes) + len(self.datamodel.components) + 1
@@ -30,6 +33,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
 
     def pre_process(self):
         """The necessary specific pre-processing for julia code generation"""
+        self.unsupported_types = self._get_unsupported_types()
         datamodel = {}
         datamodel["class"] = DataType(self.package_name.capitalize())
         datamodel["upstream_edm"] = self.upstream_edm
@@ -46,6 +50,30 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
         )
         self._fill_templates("ParentModule", datamodel)
 
+    def _get_unsupported_types(self):
+        """Get the names of all datatypes that cannot be generated
+
+        Julia doesn't support any interfaces yet, so we have to also sort out all
+        the datatypes that use them as well as all the datatypes that use these"""
+        datatypes = dict(self.upstream_edm.datatypes) if self.upstream_edm else {}
+        datatypes.update(self.datamodel.datatypes)
+
+        unsupported = set()
+        found = True
+        while found:
+            found = [
+                name
+                for name, datatype in datatypes.items()
+                if name not in unsupported
+                and any(
+                    self._is_in(r.full_type, "interfaces") or r.full_type in unsupported
+                    for r in datatype["OneToOneRelations"] + datatype["OneToManyRelations"]
+                )
+            ]
+            unsupported.update(found)
+
+        return unsupported
+
     def do_process_component(self, _, component):
         """Do the julia specific processing of a component"""
         component["upstream_edm"] = self.upstream_edm
@@ -55,12 +83,7 @@ class JuliaClassGenerator(ClassGeneratorBaseMixin):
 
     def do_process_datatype(self, _, datatype):
         """Do the julia specific processing for a datatype"""
-        if any(
-            self._is_in(r.full_type, "interfaces")
-            for r in datatype["OneToOneRelations"] + datatype["OneToManyRelations"]
-        ):
-            # Julia doesn't support any interfaces yet, so we have to also sort out
-            # all the datatypes that use them
+        if datatype["class"].full_type in self.unsupported_types:
             return None
 
         datatype["params_jl"] = sorted(self._get_julia_params(datatype), key=lambda x: x[0])
-- 
2.43.0


From 0d2c066ba0cfbc4e12085d5ec31ee064658258d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:41 +0000
Subject: [PATCH 26/55] fix: arrays of 16 bit unsigned integers are builtin in
 julia code

---
 python/podio_gen/generator_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 4c75fae..b8a88c5 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -62,10 +62,11 @@ def get_julia_type(cpp_type, is_array=False, array_type=None, array_size=None):
             return cpp_type
 
     else:
+        is_builtin = array_type in builtin_types_map or _is_fixed_width_type(array_type)
         array_type = get_julia_type(array_type)
         if "::" in array_type:
             array_type = array_type.split("::")[1]
-        if array_type not in builtin_types_map.values():
+        if not is_builtin:
             array_type = array_type + "Struct"
         return f"MVector{{{array_size}, {array_type}}}"
 
-- 
2.43.0


From 6c988cfe7eb8513b9ed82907b218e3f6158d1772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:00 +0000
Subject: [PATCH 27/55] fix: treat components and interfaces of upstream models
 like own ones

The generators looked up components and interface types of upstream data
models only in some places, so that models using upstream components with
exposePODMembers, or upstream interfaces in relations, failed or did not
compile.
---
 python/podio_gen/cpp_generator.py       | 21 +++++++++++++++++----
 python/podio_gen/podio_config_reader.py |  6 +++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index d9f45b5..d949c0a 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -425,6 +425,13 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             print(summaryline)
         print()
 
+    def _get_definition(self, name, category):
+        """Get the definition from the datamodel or from the upstream datamodel"""
+        definitions = getattr(self.datamodel, category)
+        if name not in definitions:
+            definitions = getattr(self.upstream_edm, category)
+        return definitions[name]
+
     def _preprocess_for_class(self, datatype):
         """Do the preprocessing that is necessary for the classes and Mutable classes"""
         includes = set(datatype["includes_data"])
@@ -436,11 +443,15 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for member in datatype["Members"]:
             if self.expose_pod_members and not member.is_builtin and not member.is_array:
-                member.sub_members = self.datamodel.components[member.full_type]["Members"]
+                member.sub_members = self._get_definition(member.full_type, "components")[
+                    "Members"
+                ]
 
         for relation in datatype["OneToOneRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                relation.interface_types = self._get_definition(
+                    relation.full_type, "interfaces"
+                )["Types"]
             if self._needs_include(relation.full_type):
                 fwd_declarations[relation.namespace].append(relation.bare_type)
                 fwd_declarations[relation.namespace].append(f"Mutable{relation.bare_type}")
@@ -452,12 +463,14 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
 
         for relation in datatype["OneToManyRelations"]:
             if self._is_in(relation.full_type, "interfaces"):
-                relation.interface_types = self.datamodel.interfaces[relation.full_type]["Types"]
+                relation.interface_types = self._get_definition(
+                    relation.full_type, "interfaces"
+                )["Types"]
             if self._needs_include(relation.full_type):
                 includes.add(self._build_include(relation))
 
         for vectormember in datatype["VectorMembers"]:
-            if vectormember.full_type in self.datamodel.components:
+            if self._is_in(vectormember.full_type, "components"):
                 includes.add(self._build_include(vectormember))
 
         includes.update(datatype.get("ExtraCode", {}).get("includes", "").split("\n"))
diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index a510e02..51548f9 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -320,7 +320,11 @@ class ClassDefinitionValidator:
 
             all_members[member.name] = classname
             if expose_pod_members and not member.is_builtin and not member.is_array:
-                for sub_member in datamodel.components[member.full_type]["Members"]:
+                if member.full_type in datamodel.components:
+                    component = datamodel.components[member.full_type]
+                else:
+                    component = upstream_edm.components[member.full_type]
+                for sub_member in component["Members"]:
                     if sub_member.name in all_members:
                         raise DefinitionError(
                             f"'{sub_member.name}' clashes with another member name in class "
-- 
2.43.0


From e4571f73d306df5322fc259f73ecb86abebdee2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:25 +0000
Subject: [PATCH 28/55] fix: do not race with insertions when listing the keys
 of parameters

---
 include/podio/GenericParameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index f21e15d..5d6ae5b 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -232,10 +232,10 @@ template <ValidGenericDataType T>
 std::vector<std::string> GenericParameters::getKeys() const {
   std::vector<std::string> keys;
   const auto& map = getMap<T>();
-  keys.reserve(map.size());
   {
     auto& mtx = getMutex<T>();
     std::lock_guard lock{mtx};
+    keys.reserve(map.size());
     std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });
   }
 
-- 
2.43.0


From 5dc6b3f8dbd9189a838e1822cf5cff1a24a620dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:09 +0000
Subject: [PATCH 29/55] fix: keep empty descriptions of members in the embedded
 definition

Without the description comment the definition of a datatype member cannot be
read again.
---
 python/podio_gen/generator_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index b8a88c5..6a1bcc3 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -160,6 +160,8 @@ class MemberVariable:
     def __init__(self, name, **kwargs):
         self.name = name
         self.full_type = kwargs.pop("type", "")
+        # An empty description is not the same as none, e.g. for reading it again
+        self.has_description = "description" in kwargs
         self.description = kwargs.pop("description", "")
         self.default_val = kwargs.pop("default_val", None)
         self.unit = kwargs.pop("unit", None)
@@ -333,7 +335,7 @@ class MemberVariable:
         # The __str__ method is geared towards c++ too much, so we have to build
         # things again here from available information
         def_val = f"{{{self.default_val}}}" if self.default_val else ""
-        description = f" // {self.description}" if self.description else ""
+        description = f" // {self.description}" if self.has_description else ""
         unit = f"[{self.unit}]" if self.unit else ""
         return f"{self.full_type} {self.name}{def_val}{unit}{description}"
 
-- 
2.43.0


From b2957ee1fcd3a82e324c089828ca49f1e4101780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:01 +0000
Subject: [PATCH 30/55] fix: reject clashing names and incomplete definitions
 in data models

Names of relations, vector members and members of components and interfaces could
clash, as well as those of types of different kinds, which gave code that does not
compile. Components without members and an empty schema version ended in
exceptions other than a definition error, and unknown categories of extra code
for mutable types were ignored.
---
 python/podio_gen/podio_config_reader.py | 61 +++++++++++++++++++------
 1 file changed, 48 insertions(+), 13 deletions(-)

diff --git a/python/podio_gen/podio_config_reader.py b/python/podio_gen/podio_config_reader.py
index 51548f9..01a871c 100644
--- a/python/podio_gen/podio_config_reader.py
+++ b/python/podio_gen/podio_config_reader.py
@@ -222,7 +222,17 @@ class ClassDefinitionValidator:
                             "Only 'declaration', 'declarationFile' and 'includes' are allowed here"
                         )
 
+            if "Members" not in component:
+                raise DefinitionError(f"component '{name}' does not define 'Members'")
+
+            member_names = set()
             for member in component["Members"]:
+                if member.name in member_names:
+                    raise DefinitionError(
+                        f"'{member.name}' clashes with another member in component '{name}'"
+                    )
+                member_names.add(member.name)
+
                 is_builtin = member.is_builtin or member.is_builtin_array
                 is_component_array = member.is_array and cls._check_comp(
                     member.array_type, datamodel.components, upstream_edm
@@ -245,6 +255,10 @@ class ClassDefinitionValidator:
         # declaration. NOTE: In this way also invalid classes will be considered,
         # but they should hopefully be caught later
         for name, definition in datamodel.datatypes.items():
+            if name in datamodel.components:
+                raise DefinitionError(
+                    f"'{name}' defines a datatype with the same name as an existing component"
+                )
             cls._check_keys(name, definition)
             cls._fill_defaults(definition)
             cls._check_datatype(name, definition, expose_pod_members, datamodel, upstream_edm)
@@ -257,25 +271,30 @@ class ClassDefinitionValidator:
         all_types.extend(ext_types)
 
         for name, definition in datamodel.interfaces.items():
-            if name in all_types:
+            if name in all_types or name in datamodel.components:
                 raise DefinitionError(
                     f"'{name}' defines an interface type with the same name "
-                    "as an existing datatype"
+                    "as an existing datatype or component"
                 )
             cls._check_required_fields(name, definition, cls.required_interface_keys, "interface")
             cls._check_interface_types(name, definition, all_types)
+            member_names = [member.name for member in definition["Members"]]
+            if len(set(member_names)) != len(member_names):
+                raise DefinitionError(
+                    f"interface '{name}' defines several members with the same name"
+                )
 
     @classmethod
     def _check_datatype(cls, classname, definition, expose_pod_members, datamodel, upstream_edm):
         """Check that a datatype only defines valid types and relations."""
-        cls._check_members(
+        all_members = cls._check_members(
             classname,
             definition.get("Members", []),
             expose_pod_members,
             datamodel,
             upstream_edm,
         )
-        cls._check_relations(classname, definition, datamodel, upstream_edm)
+        cls._check_relations(classname, definition, datamodel, upstream_edm, all_members)
 
     @classmethod
     def _check_links(cls, datamodel, upstream_edm):
@@ -287,16 +306,17 @@ class ClassDefinitionValidator:
         all_types.extend(ext_types)
 
         for name, definition in datamodel.links.items():
-            if name in all_types:
+            if name in all_types or name in datamodel.components:
                 raise DefinitionError(
-                    f"'{name}' defines a link type with the same name as an existing datatype"
+                    f"'{name}' defines a link type with the same name as an existing type"
                 )
             cls._check_required_fields(name, definition, cls.required_link_keys, "link")
             cls._check_link_types(name, definition, all_types)
 
     @classmethod
     def _check_members(cls, classname, members, expose_pod_members, datamodel, upstream_edm):
-        """Check the members of a class for name clashes or undefined classes."""
+        """Check the members of a class for name clashes or undefined classes. Returns
+        the names that are taken and where they come from"""
         all_types = list(datamodel.components.keys())
         ext_types = upstream_edm.components.keys() if upstream_edm else []
         all_types.extend(ext_types)
@@ -334,9 +354,21 @@ class ClassDefinitionValidator:
 
                     all_members[sub_member.name] = f"member '{member.name}'"
 
+        return all_members
+
     @classmethod
-    def _check_relations(cls, classname, definition, datamodel, upstream_edm):
-        """Check the relations of a class."""
+    def _check_relations(  # pylint: disable=too-many-arguments
+        cls, classname, definition, datamodel, upstream_edm, all_members
+    ):
+        """Check the relations and vector members of a class."""
+
+        def _check_name(member):
+            if member.name in all_members:
+                raise DefinitionError(
+                    f"'{member.name}' clashes with another member in class '{classname}', "
+                    f"previously defined in '{all_members[member.name]}'"
+                )
+            all_members[member.name] = classname
 
         def _valid_datatype(rel_type):
             if rel_type in datamodel.datatypes or rel_type in datamodel.interfaces:
@@ -353,6 +385,7 @@ class ClassDefinitionValidator:
                 raise DefinitionError(
                     f"'{classname}' declares a invalid many-relation to '{relation.full_type}'"
                 )
+            _check_name(relation)
 
         one_relations = definition.get("OneToOneRelations", [])
         for relation in one_relations:
@@ -360,6 +393,7 @@ class ClassDefinitionValidator:
                 raise DefinitionError(
                     f"'{classname}' declares an invalid single-relation to '{relation.full_type}'"
                 )
+            _check_name(relation)
 
         vector_members = definition.get("VectorMembers", [])
         for vecmem in vector_members:
@@ -369,6 +403,7 @@ class ClassDefinitionValidator:
                 raise DefinitionError(
                     f"'{classname}' declares a invalid vector member of type '{vecmem.full_type}'"
                 )
+            _check_name(vecmem)
 
     @classmethod
     def _check_keys(cls, classname, definition):
@@ -395,12 +430,12 @@ class ClassDefinitionValidator:
             if key not in definition:
                 raise DefinitionError(f"'{classname}' does not define '{key}'")
 
-        if "ExtraCode" in definition:
-            extracode = definition["ExtraCode"]
+        for extracode_key in cls.valid_extra_datatype_keys:
+            extracode = definition.get(extracode_key, {})
             invalid_keys = [k for k in extracode if k not in cls.valid_extra_code_keys]
             if invalid_keys:
                 raise DefinitionError(
-                    f"{classname} defines invalid 'ExtraCode' categories: " f"{invalid_keys}"
+                    f"{classname} defines invalid '{extracode_key}' categories: {invalid_keys}"
                 )
 
     @classmethod
@@ -576,7 +611,7 @@ class PodioConfigReader:
         except KeyError:
             # pylint: disable-next=raise-missing-from
             raise DefinitionError("Please provide a 'schema_version' in your definition")
-        except ValueError:
+        except (TypeError, ValueError):
             # pylint: disable-next=raise-missing-from
             raise DefinitionError(
                 f"schema_version has to be convertible to int (is {model_dict['schema_version']})"
-- 
2.43.0


From 0b24445aa915070fdb292e897d06fe9c30992672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 31/55] fix: resolve renames one by one when comparing data
 models

Several renames of members with the same type in one class could not be resolved,
several datatypes with the same members or renamed components gave exceptions
and the kind of a member did not count for datatypes to be the same.
---
 python/podio_schema_evolution.py | 100 ++++++++++++++++++++-----------
 1 file changed, 66 insertions(+), 34 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 55f0c14..d0fe83c 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -316,19 +316,28 @@ class SchemaEvolutionJudge:
         same_type_adds_drops = self.filter_types_with_adds_and_drops(
             added_members, dropped_members
         )
+        potential_renames = []
+        renamed = []
         for added_member, dropped_member in same_type_adds_drops:
-            if (
-                self.check_rename(
-                    added_member, dropped_member, schema_changes, read_schema_changes
-                )
-                == self.RenameResult.UNHANDLED
-            ):
-                warnings.append(
-                    f"Definition '{dropped_member.klassname}' has a potential "
-                    f"rename: '{dropped_member.member.name}' -> "
-                    f"'{added_member.member.name}' of type "
-                    f"'{dropped_member.member.full_type}'."
-                )
+            if added_member in renamed or dropped_member in renamed:
+                continue
+            result = self.check_rename(
+                added_member, dropped_member, schema_changes, read_schema_changes
+            )
+            if result == self.RenameResult.HANDLED:
+                renamed.extend((added_member, dropped_member))
+            elif result == self.RenameResult.UNHANDLED:
+                potential_renames.append((added_member, dropped_member))
+
+        for added_member, dropped_member in potential_renames:
+            if added_member in renamed or dropped_member in renamed:
+                continue
+            warnings.append(
+                f"Definition '{dropped_member.klassname}' has a potential "
+                f"rename: '{dropped_member.member.name}' -> "
+                f"'{added_member.member.name}' of type "
+                f"'{dropped_member.member.full_type}'."
+            )
 
         return warnings
 
@@ -402,32 +411,53 @@ class SchemaEvolutionJudge:
         )
 
         def _member_signature(datatype_definition):
-            """Build a set of (name, full_type) tuples for all member fields of a datatype"""
+            """Build a set of (field, name, full_type) tuples for all members of a datatype"""
             sig = set()
             for field in _MEMBER_FIELDS:
                 for member in datatype_definition.get(field, []):
-                    sig.add((member.name, member.full_type))
+                    sig.add((field, member.name, member.full_type))
             return sig
 
-        for dropped in dropped_datatypes:
-            dropped_sig = _member_signature(dropped.datatype)
-            is_known_evolution = False
-            for added in added_datatypes:
-                if dropped_sig == _member_signature(added.datatype):
-                    for schema_change in read_schema_changes:
-                        if isinstance(schema_change, RenamedDataType) and (
-                            schema_change.name_old == dropped.klassname
-                            and schema_change.name_new == added.klassname
-                        ):
-                            schema_changes.remove(dropped)
-                            schema_changes.remove(added)
-                            schema_changes.append(schema_change)
-                            is_known_evolution = True
-                    if not is_known_evolution:
-                        renamed = RenamedDataType(dropped.klassname, added.klassname)
-                        schema_changes.remove(dropped)
-                        schema_changes.remove(added)
-                        schema_changes.append(renamed)
+        def _known_rename(dropped, added):
+            """Get the renaming of a datatype from the evolution file if there is one"""
+            for schema_change in read_schema_changes:
+                if isinstance(schema_change, RenamedDataType) and (
+                    schema_change.name_old == dropped.klassname
+                    and schema_change.name_new == added.klassname
+                ):
+                    return schema_change
+            return None
+
+        same_signature = [
+            (dropped, added)
+            for dropped in dropped_datatypes
+            for added in added_datatypes
+            if _member_signature(dropped.datatype) == _member_signature(added.datatype)
+        ]
+
+        def _apply_rename(dropped, added, renamed):
+            """Replace the dropping and adding by a renaming"""
+            schema_changes.remove(dropped)
+            schema_changes.remove(added)
+            schema_changes.append(renamed)
+            return [pair for pair in same_signature if dropped not in pair and added not in pair]
+
+        # Those that are listed in the evolution file come first
+        for dropped, added in list(same_signature):
+            known_rename = _known_rename(dropped, added)
+            if known_rename and (dropped, added) in same_signature:
+                same_signature = _apply_rename(dropped, added, known_rename)
+
+        # The rest has to be unambiguous
+        for dropped, added in list(same_signature):
+            if sum(dropped in pair or added in pair for pair in same_signature) == 1:
+                same_signature = _apply_rename(
+                    dropped, added, RenamedDataType(dropped.klassname, added.klassname)
+                )
+        for dropped, added in same_signature:
+            warnings.append(
+                f"Potential rename of '{dropped.klassname}' into '{added.klassname}'."
+            )
 
         # are there dropped/added component pairs that could be interpreted as rename?
         dropped_components = [
@@ -442,7 +472,9 @@ class SchemaEvolutionJudge:
             for added in added_components:
                 added_members = {member.name: member for member in added.component["Members"]}
                 if set(dropped_members.keys()) == set(added_members.keys()):
-                    warnings.append(f"Potential rename of '{dropped.name}' into '{added.name}'.")
+                    warnings.append(
+                        f"Potential rename of '{dropped.klassname}' into '{added.klassname}'."
+                    )
 
         return schema_changes, warnings, errors
 
-- 
2.43.0


From 62c1996fde40f0d3b71f8e0672cd7f1f6ed7b072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 32/55] fix: report schema changes in the order of the data
 models

The order of sets is not reproducible, but the order of generated I/O rules depends
on it.
---
 python/podio_schema_evolution.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index d0fe83c..9bc4f62 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -640,9 +640,9 @@ class DataModelComparator:
     @staticmethod
     def _compare_keys(keys1, keys2):
         """compare keys of two given dicts. return added, dropped and overlapping keys"""
-        added = set(keys1).difference(keys2)
-        dropped = set(keys2).difference(keys1)
-        kept = set(keys1).intersection(keys2)
+        added = [key for key in keys1 if key not in keys2]
+        dropped = [key for key in keys2 if key not in keys1]
+        kept = [key for key in keys1 if key in keys2]
         return added, dropped, kept
 
     def get_changed_schemata(self, results, schema_filter=None):
-- 
2.43.0


From 3daed572b85a1cb6430f07fabc30e80f4c6f902b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 33/55] fix: refuse changes between components and builtin
 types

This is not something ROOT can evolve, and changing the components in an array is
not different from changing a component.
---
 python/podio_schema_evolution.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/podio_schema_evolution.py b/python/podio_schema_evolution.py
index 9bc4f62..f2ba8ae 100755
--- a/python/podio_schema_evolution.py
+++ b/python/podio_schema_evolution.py
@@ -373,6 +373,10 @@ class SchemaEvolutionJudge:
         for change in (c for c in schema_changes if isinstance(c, self.unsupported_changes)):
             errors.append(f"Unsupported schema change: {change}")
 
+        def _element_type(member):
+            """Get the type of a member or of its elements if it is an array"""
+            return member.array_type if member.is_array else member.full_type
+
         # are the member changes actually supported/supportable?
         changed_members = [
             change for change in schema_changes if isinstance(change, ChangedMemberType)
@@ -385,8 +389,12 @@ class SchemaEvolutionJudge:
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
                     f" to '{change.new_member.full_type}'"
                 )
-            # changing from one component type to another component type is forbidden
-            elif change.old_member.full_type in old_datamodel.components:
+            # changing from one component type to another component type or
+            # between components and builtin types is forbidden
+            elif _element_type(change.old_member) != _element_type(change.new_member) and (
+                _element_type(change.old_member) in old_datamodel.components
+                or _element_type(change.new_member) in self.datamodel_new.components
+            ):
                 errors.append(
                     f"Forbidden schema change in '{change.klassname}' for "
                     f"'{change.old_member.name}' from '{change.old_member.full_type}'"
-- 
2.43.0


From c2342ac5e9956014d331fa9ad9ed42f56eed7f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:06 +0000
Subject: [PATCH 34/55] fix: know the types of the upstream model when reading
 old versions

---
 python/podio_gen/cpp_generator.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index d949c0a..94c5f9c 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -677,13 +677,20 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         reader = PodioConfigReader()
         # Read the current model again into a "new" namespace to have it more
         # easily discerned from the "old" model
-        datamodel_new = reader.read(self.yamlfile, package_name="new")
+        datamodel_new = reader.read(
+            self.yamlfile, package_name="new", upstream_edm=self.upstream_edm
+        )
         comparator = DataModelComparator(datamodel_new)
         judge = SchemaEvolutionJudge(comparator.datamodel_new, evolution_file=self.evolution_file)
 
         # Process each old schema version
         for old_yamlfile in self.old_yamlfiles:
-            datamodel_old = reader.read(old_yamlfile, package_name="old", ignore_extracode=True)
+            datamodel_old = reader.read(
+                old_yamlfile,
+                package_name="old",
+                upstream_edm=self.upstream_edm,
+                ignore_extracode=True,
+            )
             detected_changes = comparator.compare(datamodel_old)
             comparison_results = judge.judge(datamodel_old, detected_changes)
 
-- 
2.43.0


From b5e3f089ed2c728dbbc2d05632f8b5e1a8ad32b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 35/55] fix: keep the layouts of old components with components
 in them

Members of old versions of components used the current versions of other
components, and missed the headers of dropped ones. Components of upstream
models do not have the versions of this model.
---
 python/podio_gen/cpp_generator.py   | 10 +++++++++-
 python/podio_gen/generator_utils.py |  4 +++-
 python/templates/Component.h.jinja2 |  2 +-
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 94c5f9c..efd2bf2 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -613,6 +613,13 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         (names) as a list of dictionaries with the old definition
         """
         for version, old_model in old_datamodels.items():
+            for definition in [*old_model.components.values(), *old_model.datatypes.values()]:
+                for member in definition["Members"]:
+                    klass = member.array_type if member.is_array else member.full_type
+                    member.is_versioned = not (
+                        self.upstream_edm and klass in self.upstream_edm.components
+                    )
+
             for name, comp_def in old_model.components.items():
                 self.old_components[name].append({"version": version, "definition": comp_def})
 
@@ -656,7 +663,6 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         versions of it"""
         includes = set(self._get_member_includes(component["Members"]))
         includes.update(component.get("ExtraCode", {}).get("includes", "").split("\n"))
-        component["includes"] = self._sort_includes(includes)
 
         # Add old versions **even if they are identical**
         component["old_versions"] = old_comp_versions
@@ -664,6 +670,8 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         for old_comp in old_comp_versions:
             includes.update(self._get_member_includes(old_comp["definition"]["Members"]))
 
+        component["includes"] = self._sort_includes(includes)
+
         self._fill_templates("Component", component)
 
         return component
diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 6a1bcc3..8ffa5e5 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -168,6 +168,8 @@ class MemberVariable:
         self.is_builtin = False
         self.is_builtin_array = False
         self.is_array = False
+        # types of upstream datamodels do not follow the versions of this one
+        self.is_versioned = True
         # ensure that this will break somewhere if requested but not set
         self.namespace, self.bare_type = None, None
         self.julia_type = None
@@ -263,7 +265,7 @@ class MemberVariable:
         Only applies in case the member is a component, as builtin variables are
         considered not versionable
         """
-        if self.is_builtin:
+        if self.is_builtin or not self.is_versioned:
             return str(self)
 
         if self.is_array:
diff --git a/python/templates/Component.h.jinja2 b/python/templates/Component.h.jinja2
index 19a9e7b..7d044e0 100644
--- a/python/templates/Component.h.jinja2
+++ b/python/templates/Component.h.jinja2
@@ -49,7 +49,7 @@ namespace v{{ old_version.version }} {
 class {{ class.bare_type }} {
 public:
 {% for member in old_version.definition.Members %}
-  {{ member }}
+  {{ member.qualified_as_version(old_version.version) }}
 {% endfor %}
 };
 
-- 
2.43.0


From d6a012115dc3fbfd8b88bb4e51a3fec26d77a550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:31 +0000
Subject: [PATCH 36/55] fix: read renamed datatypes in namespaces and of
 several old versions

The creation function of a renamed datatype asked for a collection type with
leading colons, and was registered for one old version only.
---
 python/podio_gen/cpp_generator.py     | 19 +++++++++----------
 python/templates/Collection.cc.jinja2 |  4 +++-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index efd2bf2..be88231 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -647,16 +647,15 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         """Generate code for datatypes that have been renamed, so that their old
         versioned data classes are available in the new dictionary for ROOT"""
         for name, changes in self.changed_datatypes.items():
-            for change in changes:
-                if isinstance(change["schema_change"], RenamedDataType):
-                    old_def = change["definition"].copy()
-                    old_def["renamed_to"] = change["schema_change"].name_new
-                    old_def["renamed_to_collection"] = (
-                        str(DataType(change["schema_change"].name_new)) + "Collection"
-                    )
-                    old_def["renamed_from_version"] = change["version"]
-                    self._process_datatype(name, old_def)
-                    break
+            renames = [c for c in changes if isinstance(c["schema_change"], RenamedDataType)]
+            if not renames:
+                continue
+            change = max(renames, key=lambda c: c["version"])
+            old_def = change["definition"].copy()
+            old_def["renamed_to"] = change["schema_change"].name_new
+            old_def["renamed_to_collection"] = f"{change['schema_change'].name_new}Collection"
+            old_def["renamed_from_versions"] = [c["version"] for c in renames]
+            self._process_datatype(name, old_def)
 
     def _generate_component_code(self, component, old_comp_versions):
         """Generate the component code for a given component definition and old
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 1c82f6f..8238d94 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -227,12 +227,14 @@ bool register{{ class.bare_type }}Collection() {
 {% endif %}
 {% if renamed_to_collection is defined %}
     // Schema Evolution for renamed datatypes: register old type buffers as new type
-    factory.registerCreationFunc("{{ class.full_type }}Collection", {{ renamed_from_version }},
+{% for version in renamed_from_versions %}
+    factory.registerCreationFunc("{{ class.full_type }}Collection", {{ version }},
       [](bool isSubset) {
         return *podio::CollectionBufferFactory::instance().createBuffers(
            "{{ renamed_to_collection }}", 1, isSubset);
       }
     );
+{% endfor %}
 {% endif %}
 
     return true;
-- 
2.43.0


From 3545c4b05a0c0974f81ea85d5bee6f94a93c3358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 37/55] fix: keep descriptions from ending or continuing
 comments in generated code

'*/' in the description of a class ended the comment, and a backslash at the end
of the description of a member swallowed the following line.
---
 python/podio_gen/generator_utils.py         | 3 ++-
 python/templates/macros/declarations.jinja2 | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index 8ffa5e5..f32f18b 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -231,7 +231,8 @@ class MemberVariable:
             docstring = rf"{self.description} [{self.unit}]"
         else:
             docstring = self.description
-        return docstring
+        # A backslash at the end would continue the comment on the next line
+        return docstring + "." if docstring.endswith("\\") else docstring
 
     def __str__(self):
         """string representation"""
diff --git a/python/templates/macros/declarations.jinja2 b/python/templates/macros/declarations.jinja2
index 06e6a32..f719edc 100644
--- a/python/templates/macros/declarations.jinja2
+++ b/python/templates/macros/declarations.jinja2
@@ -1,7 +1,7 @@
 {% macro class_description(type, description, author, prefix='', postfix='') %}
 /** @class {{ prefix }}{{ type }}{{ postfix }}
- *  {{ description }}
- *  @author: {{ author }}
+ *  {{ description | replace('*/', '* /') }}
+ *  @author: {{ author | replace('*/', '* /') }}
  */
 {%- endmacro %}
 
@@ -110,7 +110,7 @@
 
 {% macro single_relation_getters(relations, get_syntax) %}
 {% for relation in relations %}
-  /// Access the {{ relation.description }}
+  /// Access the {{ relation.docstring }}
   const {{ relation.full_type }} {{ relation.getter_name(get_syntax) }}() const;
 {% endfor %}
 {%- endmacro %}
@@ -118,7 +118,7 @@
 
 {% macro single_relation_setters(relations, get_syntax) %}
 {% for relation in relations %}
-  /// Set the {{ relation.description }}
+  /// Set the {{ relation.docstring }}
   void {{ relation.setter_name(get_syntax) }}(const {{ relation.full_type }}& value);
 {% endfor %}
 {%- endmacro %}
-- 
2.43.0


From a9e9350eb69d71bde3a467a970da3b7498958be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:34 +0000
Subject: [PATCH 38/55] fix: declare types that refer to each other with
 one-to-many relations

---
 python/podio_gen/cpp_generator.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index be88231..64d816e 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -467,6 +467,10 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
                     relation.full_type, "interfaces"
                 )["Types"]
             if self._needs_include(relation.full_type):
+                # The types might refer to each other, in which case the include
+                # does not yet provide the type
+                if relation.full_type != datatype["class"].full_type:
+                    fwd_declarations[relation.namespace].append(relation.bare_type)
                 includes.add(self._build_include(relation))
 
         for vectormember in datatype["VectorMembers"]:
@@ -510,12 +514,14 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
         if datatype["VectorMembers"] or datatype["OneToManyRelations"]:
             includes.add("#include <vector>")
 
-        for relation in datatype["VectorMembers"] + datatype["OneToManyRelations"]:
-            if not relation.is_builtin:
-                if relation.full_type == datatype["class"].full_type:
-                    includes_cc.add(self._build_include(datatype["class"]))
-                else:
-                    includes.add(self._build_include(relation))
+        for vectormember in datatype["VectorMembers"]:
+            if not vectormember.is_builtin:
+                includes.add(self._build_include(vectormember))
+
+        for relation in datatype["OneToManyRelations"]:
+            if relation.full_type != datatype["class"].full_type:
+                fwd_declarations[relation.namespace].append(relation.bare_type)
+            includes_cc.add(self._build_include(relation))
 
         datatype["forward_declarations_obj"] = fwd_declarations
         datatype["includes_obj"] = self._sort_includes(includes)
-- 
2.43.0


From a47ed20da298401a687d98bbfdbc5ad4a0f1fbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 39/55] fix: visualise associations without two relations or
 with removed types

---
 tools/podio-vis | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/podio-vis b/tools/podio-vis
index 8374a4a..e885527 100755
--- a/tools/podio-vis
+++ b/tools/podio-vis
@@ -51,11 +51,14 @@ class ModelToGraphviz:
         for name, datatype in self.datamodel.datatypes.items():
             if name in self.remove:
                 continue
-            if "Association" in name:
+            ends = [rel.full_type for rel in datatype["OneToOneRelations"][:2]]
+            if "Association" in name and len(ends) == 2:
+                if self.remove.intersection(ends):
+                    continue
                 with_association = True
                 self.graph.edge(
-                    datatype["OneToOneRelations"][0].full_type.replace("::", "_"),
-                    datatype["OneToOneRelations"][1].full_type.replace("::", "_"),
+                    ends[0].replace("::", "_"),
+                    ends[1].replace("::", "_"),
                     label=name.replace("edm4hep::", ""),
                     color="black",
                     dir="both",
-- 
2.43.0


From f8a6da0dfb250de85f121e4e7305f3e04097563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 40/55] fix: print the IDs of related objects when printing
 them could lead back to the same object

---
 python/podio_gen/cpp_generator.py             | 20 +++++++++++++++++++
 python/podio_gen/generator_utils.py           |  3 +++
 .../templates/macros/implementations.jinja2   |  2 +-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index 64d816e..fa3a01d 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -432,6 +432,25 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
             definitions = getattr(self.upstream_edm, category)
         return definitions[name]
 
+    def _leads_to(self, from_type, to_type):
+        """Check whether it is possible to get from one type to another one by
+        following one-to-many relations only"""
+        known_types, todo = set(), [from_type]
+        while todo:
+            current = todo.pop()
+            if current == to_type:
+                return True
+            if current in known_types:
+                continue
+            known_types.add(current)
+            if self._is_in(current, "interfaces"):
+                types = self._get_definition(current, "interfaces")["Types"]
+            else:
+                types = self._get_definition(current, "datatypes").get("OneToManyRelations", [])
+            todo.extend(t.full_type for t in types)
+
+        return False
+
     def _preprocess_for_class(self, datatype):
         """Do the preprocessing that is necessary for the classes and Mutable classes"""
         includes = set(datatype["includes_data"])
@@ -472,6 +491,7 @@ class CPPClassGenerator(ClassGeneratorBaseMixin):
                 if relation.full_type != datatype["class"].full_type:
                     fwd_declarations[relation.namespace].append(relation.bare_type)
                 includes.add(self._build_include(relation))
+            relation.leads_back = self._leads_to(relation.full_type, datatype["class"].full_type)
 
         for vectormember in datatype["VectorMembers"]:
             if self._is_in(vectormember.full_type, "components"):
diff --git a/python/podio_gen/generator_utils.py b/python/podio_gen/generator_utils.py
index f32f18b..67d1948 100644
--- a/python/podio_gen/generator_utils.py
+++ b/python/podio_gen/generator_utils.py
@@ -181,6 +181,9 @@ class MemberVariable:
         self.includes = set()
         self.jl_imports = set()
         self.interface_types = []  # populated in the generator script if necessary
+        # can following this (and more) one-to-many relations end up at the same
+        # type again? Populated in the generator script
+        self.leads_back = False
 
         if kwargs:
             raise ValueError(f"Unused kwargs in MemberVariable: {list(kwargs.keys())}")
diff --git a/python/templates/macros/implementations.jinja2 b/python/templates/macros/implementations.jinja2
index 9653c4f..f980403 100644
--- a/python/templates/macros/implementations.jinja2
+++ b/python/templates/macros/implementations.jinja2
@@ -214,7 +214,7 @@ std::ostream& operator<<(std::ostream& o, const {{ type }}& value) {
 {% for relation in multi_relations %}
   o << " {{ relation.name }} : ";
   for (unsigned i = 0; i < value.{{ relation.name }}_size(); ++i) {
-{% if type == relation.bare_type %}
+{% if relation.leads_back %}
     o << value.{{ relation.getter_name(get_syntax) }}(i).id() << " ";
 {% else %}
     o << value.{{ relation.getter_name(get_syntax) }}(i) << " ";
-- 
2.43.0


From 1455d940c817713d99764be0bdafb39bae99c768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 41/55] fix: convert the elements of subset link collections to
 their IDs in JSON

---
 include/podio/detail/LinkCollectionImpl.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index 2392176..de747c1 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -475,8 +475,13 @@ namespace detail {
 template <typename FromT, typename ToT>
 void to_json(nlohmann::json& j, const podio::LinkCollection<FromT, ToT>& collection) {
   j = nlohmann::json::array();
+  const auto subset = collection.isSubsetCollection();
   for (auto&& elem : collection) {
-    j.emplace_back(elem);
+    if (subset) {
+      j.emplace_back(elem.id());
+    } else {
+      j.emplace_back(elem);
+    }
   }
 }
 #endif
-- 
2.43.0


From b0f5bd5e57e6ee1468688e418afaababbf08220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:13 +0000
Subject: [PATCH 42/55] fix: find the relation names of datatypes whose names
 end on Collection

---
 src/DatamodelRegistry.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DatamodelRegistry.cc b/src/DatamodelRegistry.cc
index 608d85d..666fe64 100644
--- a/src/DatamodelRegistry.cc
+++ b/src/DatamodelRegistry.cc
@@ -85,8 +85,9 @@ RelationNames DatamodelRegistry::getRelationNames(std::string_view typeName) con
     return {relationNames, emptyVec};
   }
 
-  // Strip Collection if necessary
-  if (typeName.size() > 10 && typeName.substr(typeName.size() - 10) == "Collection") {
+  // Strip Collection if necessary, but not from the names of datatypes that end
+  // on it themselves
+  if (typeName.size() > 10 && typeName.substr(typeName.size() - 10) == "Collection" && !m_relations.contains(typeName)) {
     typeName = typeName.substr(0, typeName.size() - 10);
   }
 
-- 
2.43.0


From 079c9824dcc43dc1e9df880a19d0be2354d6fd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:52 +0000
Subject: [PATCH 43/55] fix: include interfaces in the header of all types of a
 data model

---
 python/podio_gen/cpp_generator.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/podio_gen/cpp_generator.py b/python/podio_gen/cpp_generator.py
index fa3a01d..2a45aa1 100644
--- a/python/podio_gen/cpp_generator.py
+++ b/python/podio_gen/cpp_generator.py
@@ -961,17 +961,19 @@ have resolvable schema evolution incompatibilities:"
         )
 
     def _write_all_collections_header(self):
-        """Write a header file that includes all collection headers"""
-        collection_files = (
+        """Write a header file that includes all collection and interface headers"""
+        header_files = [
             x.split("::")[-1] + "Collection.h"
             for x in list(self.datamodel.datatypes.keys()) + list(self.datamodel.links.keys())
-        )
+        ]
+        # Interfaces are not necessarily included by any of the collections
+        header_files += [x.split("::")[-1] + ".h" for x in self.datamodel.interfaces.keys()]
         self._write_file(
             f"{self.package_name}.h",
             self._eval_template(
                 "datamodel.h.jinja2",
                 {
-                    "includes": collection_files,
+                    "includes": header_files,
                     "incfolder": self.incfolder,
                     "package_name": self.package_name,
                     "datatypes": self.datamodel.datatypes,
-- 
2.43.0


From a34ffc6c7c6d3389634c90852e9ff9ab158b448b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:50 +0000
Subject: [PATCH 44/55] fix: keep the buffers of a collection that already is
 of the requested kind

---
 include/podio/detail/LinkCollectionImpl.h | 7 ++++++-
 python/templates/Collection.cc.jinja2     | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index de747c1..8243ecd 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -317,9 +317,14 @@ public:
       throw std::logic_error("Cannot change the character of a collection that already contains elements");
     }
 
+    // Nothing to change, and there might already be filled buffers to keep
+    if (m_isSubsetColl == setSubset) {
+      return;
+    }
+
     if (setSubset) {
       m_storage.makeSubsetCollection();
-    } else if (m_isSubsetColl) {
+    } else {
       // Get back all the buffers that are not present in a subset collection
       m_storage = CollectionDataT{};
       m_isPrepared = false;
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 8238d94..45912f3 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -76,9 +76,14 @@ void {{ collection_type }}::setSubsetCollection(bool setSubset) {
     throw std::logic_error("Cannot change the character of a collection that already contains elements");
   }
 
+  // Nothing to change, and there might already be filled buffers to keep
+  if (m_isSubsetColl == setSubset) {
+    return;
+  }
+
   if (setSubset) {
     m_storage.makeSubsetCollection();
-  } else if (m_isSubsetColl) {
+  } else {
     // Get back all the buffers that are not present in a subset collection
     m_storage = {{ collection_type }}Data{};
     m_isPrepared = false;
-- 
2.43.0


From f6ed8f7c3fdcc125ceb173a983ad45104a867f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 45/55] fix: do not form references to elements of empty
 vectors in SIO blocks

---
 include/podio/SIOBlockUserData.h         | 4 ++--
 python/templates/macros/sioblocks.jinja2 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/podio/SIOBlockUserData.h b/include/podio/SIOBlockUserData.h
index 0c47c9b..7816282 100644
--- a/include/podio/SIOBlockUserData.h
+++ b/include/podio/SIOBlockUserData.h
@@ -50,14 +50,14 @@ public:
     unsigned size(0);
     device.data(size);
     dataVec->resize(size);
-    podio::handlePODDataSIO(device, &(*dataVec)[0], size);
+    podio::handlePODDataSIO(device, dataVec->data(), size);
   }
 
   void write(sio::write_device& device) override {
     auto* dataVec = m_writeBuffers.template dataAsVector<BasicType>();
     unsigned size = dataVec->size();
     device.data(size);
-    podio::handlePODDataSIO(device, &(*dataVec)[0], size);
+    podio::handlePODDataSIO(device, dataVec->data(), size);
   }
 
   SIOBlock* create(const std::string& name) const override {
diff --git a/python/templates/macros/sioblocks.jinja2 b/python/templates/macros/sioblocks.jinja2
index e3893b1..66e99ca 100644
--- a/python/templates/macros/sioblocks.jinja2
+++ b/python/templates/macros/sioblocks.jinja2
@@ -2,7 +2,7 @@
     auto* vec{{ index }} = *reinterpret_cast<std::vector<{{ member.full_type }}>**>(vecMemInfo->at({{ index }}).second);
     size = vec{{ index }}->size();
     device.data(size);
-    podio::handlePODDataSIO(device, &(*vec{{ index }})[0], size);
+    podio::handlePODDataSIO(device, vec{{ index }}->data(), size);
 
 {% endmacro %}
 
-- 
2.43.0


From 55e1b3fa7f53505998d5b22bb95fbebb95d1efb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 46/55] fix: refuse to write collections that are not in the
 frame with the SIOWriter

---
 src/SIOWriter.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SIOWriter.cc b/src/SIOWriter.cc
index 87e50e6..f00f5b1 100644
--- a/src/SIOWriter.cc
+++ b/src/SIOWriter.cc
@@ -6,6 +6,7 @@
 #include "sioUtils.h"
 
 #include <memory>
+#include <stdexcept>
 #include <string>
 
 namespace podio {
@@ -37,8 +38,15 @@ void SIOWriter::writeFrame(const podio::Frame& frame, std::string_view category,
   std::vector<sio_utils::StoreCollection> collections;
   collections.reserve(collsToWrite.size());
   for (const auto& name : collsToWrite) {
-    collections.emplace_back(name, frame.getCollectionForWrite(name));
-    m_datamodelCollector.registerDatamodelDefinition(collections.back().second, name);
+    const auto* coll = frame.getCollectionForWrite(name);
+    if (!coll) {
+      // Make sure all collections that we want to write are actually available
+      // NOLINTNEXTLINE(performance-inefficient-string-concatenation)
+      throw std::runtime_error("Collection '" + name + "' in category '" + std::string(category) +
+                               "' is not available in Frame");
+    }
+    collections.emplace_back(name, coll);
+    m_datamodelCollector.registerDatamodelDefinition(coll, name);
   }
 
   // Write necessary metadata and the actual data into two different records.
-- 
2.43.0


From 81adb71b64471a518731a4472fbad6c403eb2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 47/55] fix: forget about the previous file when opening
 another one with the SIOReader

---
 src/SIOReader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SIOReader.cc b/src/SIOReader.cc
index cac3d3a..1c28a00 100644
--- a/src/SIOReader.cc
+++ b/src/SIOReader.cc
@@ -15,6 +15,12 @@ SIOReader::SIOReader() {
 }
 
 void SIOReader::openFile(const std::string& filename) {
+  // Forget everything about a file that has been opened before
+  m_stream = sio::ifstream{};
+  m_nameCtr.clear();
+  m_tocRecord = SIOFileTOCRecord{};
+  m_datamodelHolder = DatamodelDefinitionHolder{};
+
   m_stream.open(filename, std::ios::binary);
   if (!m_stream.is_open()) {
     throw std::runtime_error("File " + filename + " couldn't be opened");
-- 
2.43.0


From 7c70aaa12266612e6ab06046ad6062d310e26888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 48/55] fix: ignore the type of the ROOT backend for .sio files
 in makeWriter, as documented

---
 src/Writer.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/Writer.cc b/src/Writer.cc
index 84bd82a..3469850 100644
--- a/src/Writer.cc
+++ b/src/Writer.cc
@@ -32,19 +32,19 @@ Writer makeWriter(const std::string& filename, const std::string& type) {
     defaultTypeRNTuple = true;
   }
 
-  if ((type == "default" && !defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "root") {
+  if (endsWith(filename, ".sio")) {
+#if PODIO_ENABLE_SIO
+    return Writer{std::make_unique<SIOWriter>(filename)};
+#else
+    throw std::runtime_error("SIO writer not available. Please recompile with SIO support.");
+#endif
+  } else if ((type == "default" && !defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "root") {
     return Writer{std::make_unique<ROOTWriter>(filename)};
   } else if ((type == "default" && defaultTypeRNTuple && endsWith(filename, ".root")) || lower(type) == "rntuple") {
 #if PODIO_ENABLE_RNTUPLE
     return Writer{std::make_unique<RNTupleWriter>(filename)};
 #else
     throw std::runtime_error("ROOT RNTuple writer not available. Please recompile with ROOT RNTuple support.");
-#endif
-  } else if (endsWith(filename, ".sio")) {
-#if PODIO_ENABLE_SIO
-    return Writer{std::make_unique<SIOWriter>(filename)};
-#else
-    throw std::runtime_error("SIO writer not available. Please recompile with SIO support.");
 #endif
   }
   throw std::runtime_error("Unknown file type for file " + filename + " with type " + type);
-- 
2.43.0


From 429acabf61c2d569f3aa5da728b1ee63a82193df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 49/55] fix: do not truncate the index of the frame to read in
 the generic Reader

---
 include/podio/Reader.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/podio/Reader.h b/include/podio/Reader.h
index 7d1f458..fa94077 100644
--- a/include/podio/Reader.h
+++ b/include/podio/Reader.h
@@ -5,6 +5,8 @@
 #include "podio/podioVersion.h"
 #include "podio/utilities/ReaderUtils.h"
 
+#include <limits>
+
 namespace podio {
 
 /// Generic (type erased) reader class that can handle different I/O backends
@@ -55,9 +57,12 @@ private:
     }
 
     podio::Frame readFrame(std::string_view name, size_t index, const std::vector<std::string>& collsToRead) override {
-      auto maybeFrame = m_reader->readEntry(name, index, collsToRead);
-      if (maybeFrame) {
-        return maybeFrame;
+      // The readers use a smaller type for the index
+      if (index <= std::numeric_limits<unsigned>::max()) {
+        auto maybeFrame = m_reader->readEntry(name, index, collsToRead);
+        if (maybeFrame) {
+          return maybeFrame;
+        }
       }
       throw std::runtime_error("Failed reading category " + std::string(name) + " at frame " + std::to_string(index) +
                                " (reading beyond bounds?)");
-- 
2.43.0


From 95354228be2843bcb0552a0119a7479fcc9f4a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 50/55] fix: refuse ranges of entries that end before they
 start in podio-dump

---
 tools/src/podio-dump-tool.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/src/podio-dump-tool.cpp b/tools/src/podio-dump-tool.cpp
index 3349c08..0c4a17d 100644
--- a/tools/src/podio-dump-tool.cpp
+++ b/tools/src/podio-dump-tool.cpp
@@ -91,6 +91,9 @@ std::vector<size_t> parseEventRange(const std::string_view evtRange) {
     } else if (std::ranges::distance(colonSplitRange) == 2 && !(*nextIt).empty()) {
       size_t start = parseSizeOrExit(*it);
       size_t stop = parseSizeOrExit(*nextIt);
+      if (stop < start) {
+        parseError();
+      }
       std::vector<size_t> events(stop - start + 1);
       std::iota(events.begin(), events.end(), start);
       return events;
-- 
2.43.0


From 699c0d26259a65d1e205b7c2e05064cf5538d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 51/55] fix: tell about parameters that are stored as float and
 double in Frame.get_param_info

---
 python/podio/frame.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/python/podio/frame.py b/python/podio/frame.py
index 55eb24c..febc0dd 100644
--- a/python/podio/frame.py
+++ b/python/podio/frame.py
@@ -320,18 +320,12 @@ class Frame:
             KeyError: If no parameter is stored under the given name
         """
         # This raises the KeyError if the name is not present
-        par_types = [
-            t.replace("std::vector<", "").replace(">", "") for t in self._param_key_types[name]
-        ]
-        # Assume that we have one parameter and update the dictionary below in case
-        # there are more
-        par_infos = {t: 1 for t in par_types}
-        for par_type in par_types:
-            par_value = self.get_parameter(name, as_type=par_type)
-            if isinstance(par_value, list):
-                par_infos[par_type] = len(par_value)
-
-        return par_infos
+        return {
+            t.replace("std::vector<", "").replace(">", ""): len(
+                self._frame.getParameter[t](name).value()
+            )
+            for t in self._param_key_types[name]
+        }
 
     def _get_param_keys_types(self):
         """Initialize the param keys dict for easier lookup of the available parameters.
-- 
2.43.0


From d2a2bb8903fdd787d1b822fdac3d0b0f2b4d7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 52/55] fix: refuse unknown values for the metadata in
 merge_files, as documented

---
 python/podio/root_merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/podio/root_merge.py b/python/podio/root_merge.py
index aa54196..7e7fc77 100644
--- a/python/podio/root_merge.py
+++ b/python/podio/root_merge.py
@@ -41,6 +41,8 @@ def merge_files(input_files, output_file, metadata="first", compression=101):
     """
     if not input_files:
         raise ValueError("input_files must not be empty")
+    if metadata not in ("first", "all", "none"):
+        raise ValueError(f"metadata has to be one of first, all or none, not {metadata!r}")
 
     input_files = convert_to_str_paths(input_files)
     output_file = convert_to_str_paths(output_file)[0]
-- 
2.43.0


From f828e72f3cbb3759ab7d09b3b19247f693a11a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 53/55] fix: do not leave temporary files behind when merging
 files

---
 python/podio/root_merge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/podio/root_merge.py b/python/podio/root_merge.py
index 7e7fc77..8ded6c1 100644
--- a/python/podio/root_merge.py
+++ b/python/podio/root_merge.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python3
 """Utilities for merging podio ROOT files (TTree and RNTuple)."""
 
+import os
 import tempfile
 
 import ROOT
@@ -68,9 +69,8 @@ def merge_files(input_files, output_file, metadata="first", compression=101):
     for frame in frames:
         frame.put_parameter("MergedInputFiles", list(input_files))
 
-    with tempfile.NamedTemporaryFile(suffix=".root") as tmp_file:
-        tmp_file.close()
-        tmp_path = tmp_file.name
+    with tempfile.TemporaryDirectory() as tmp_dir:
+        tmp_path = os.path.join(tmp_dir, "metadata.root")
 
         tmp_writer = writer_cls(tmp_path)
         for frame in frames:
-- 
2.43.0


From bcf8a767a668bae53ee8aadd43469d02ffe56e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:11 +0000
Subject: [PATCH 54/55] fix: merge all and not only the first SIO file in
 podio-merge-files

---
 tools/podio-merge-files | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/tools/podio-merge-files b/tools/podio-merge-files
index c0e35ad..af6d54f 100755
--- a/tools/podio-merge-files
+++ b/tools/podio-merge-files
@@ -48,10 +48,11 @@ elif first.endswith(".sio"):
     from podio import reading  # pylint: disable=wrong-import-position # noqa: E402
     from podio import sio_io  # pylint: disable=wrong-import-position # noqa: E402
 
-    reader = reading.get_reader(args.files)
+    # SIO readers can only handle a single file
+    readers = [reading.get_reader(f) for f in args.files]
     writer = sio_io.Writer(args.output_file)
 
-    categories = list(reader.categories)
+    categories = list(dict.fromkeys(cat for reader in readers for cat in reader.categories))
     is_metadata_available = True  # pylint: disable=invalid-name
     try:
         # All frames will be copied as they are except the metadata ones
@@ -60,9 +61,10 @@ elif first.endswith(".sio"):
         is_metadata_available = False  # pylint: disable=invalid-name
 
     for category in tqdm(categories):
-        all_frames = reader.get(category)
-        for frame in tqdm(all_frames, desc=f"Merging category '{category}'"):
-            writer.write_frame(frame, category)
+        for reader in readers:
+            all_frames = reader.get(category)
+            for frame in tqdm(all_frames, desc=f"Merging category '{category}'"):
+                writer.write_frame(frame, category)
 
     if args.metadata == "none":
         sys.exit(0)
@@ -75,9 +77,9 @@ elif first.endswith(".sio"):
         all_frames = [podio.Frame()]
     else:
         if args.metadata == "first":
-            all_frames = [reader.get("metadata")[0]]
+            all_frames = [readers[0].get("metadata")[0]]
         else:
-            all_frames = reader.get("metadata")
+            all_frames = [frame for reader in readers for frame in reader.get("metadata")]
     for frame in all_frames:
         frame.put_parameter("MergedInputFiles", args.files)
         writer.write_frame(frame, "metadata")
-- 
2.43.0


From 428d9576126ac17aadd868dc22dd2ee2136b2e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:12 +0000
Subject: [PATCH 55/55] fix: merge SIO files of which the first one has no
 metadata

---
 tools/podio-merge-files | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/podio-merge-files b/tools/podio-merge-files
index af6d54f..ab2aa95 100755
--- a/tools/podio-merge-files
+++ b/tools/podio-merge-files
@@ -77,7 +77,8 @@ elif first.endswith(".sio"):
         all_frames = [podio.Frame()]
     else:
         if args.metadata == "first":
-            all_frames = [readers[0].get("metadata")[0]]
+            # The other files might have metadata even if the first one doesn't
+            all_frames = list(readers[0].get("metadata"))[:1] or [podio.Frame()]
         else:
             all_frames = [frame for reader in readers for frame in reader.get("metadata")]
     for frame in all_frames:
-- 
2.43.0


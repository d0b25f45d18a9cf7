From e351cec1891dd542cfe8577eea3d2df45e216db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 01/61] fix: Prefetcher loses a source whose address is reused
 while the previous one is being sent

---
 SEImplementation/src/lib/Prefetcher/Prefetcher.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
index 42f6325..0f1dee4 100644
--- a/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
+++ b/SEImplementation/src/lib/Prefetcher/Prefetcher.cpp
@@ -117,11 +117,14 @@ void Prefetcher::outputLoop() {
       }
       // If it is, send it downstream
       logger.debug() << "Source " << next.m_source_addr << " sent downstream";
+      // Once sent, the source may be destroyed and its address reused by a new one, which could then finish before
+      // the lock is recovered: do not leave behind an entry under that address
+      auto finished_source = std::move(processed->second);
+      m_finished_sources.erase(processed);
       {
         ReverseLock<decltype(output_lock)> release_lock(output_lock);
-        sendSource(std::move(processed->second));
+        sendSource(std::move(finished_source));
       }
-      m_finished_sources.erase(processed);
       m_received.pop_front();
       m_semaphore.release();
     }
-- 
2.43.0


From 24e760e320684f127505313feba3423150aa8a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 02/61] fix: MultithreadedMeasurement may stop its output
 thread while a group is still being measured

---
 .../src/lib/Measurement/MultithreadedMeasurement.cpp           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
index b29fdec..c0a8a38 100644
--- a/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
+++ b/SEImplementation/src/lib/Measurement/MultithreadedMeasurement.cpp
@@ -131,7 +131,8 @@ void MultithreadedMeasurement::outputThreadLoop() {
       m_output_queue.pop_front();
     }
 
-    if (m_input_done && m_thread_pool->running() + m_thread_pool->queued() == 0 &&
+    // The queue must be looked at first: a group that leaves it afterwards is already accounted for as running
+    if (m_input_done && m_thread_pool->queued() == 0 && m_thread_pool->running() == 0 &&
         m_output_queue.empty()) {
       break;
     }
-- 
2.43.0


From 4fc2235643a8bd003736cb6e24705b7d0fc2df00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:17 +0000
Subject: [PATCH 03/61] fix: AssocGrouping groups together the sources that
 belong to no group

---
 .../SEImplementation/Grouping/AssocGrouping.h  |  2 ++
 .../src/lib/Grouping/AssocGrouping.cpp         | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/SEImplementation/SEImplementation/Grouping/AssocGrouping.h b/SEImplementation/SEImplementation/Grouping/AssocGrouping.h
index 7e5e67a..beba442 100644
--- a/SEImplementation/SEImplementation/Grouping/AssocGrouping.h
+++ b/SEImplementation/SEImplementation/Grouping/AssocGrouping.h
@@ -18,6 +18,7 @@
 #ifndef _SEIMPLEMENTATION_GROUPING_ASSOCGROUPING_H_
 #define _SEIMPLEMENTATION_GROUPING_ASSOCGROUPING_H_
 
+#include <list>
 #include <map>
 
 #include "SEFramework/Pipeline/SourceGrouping.h"
@@ -41,6 +42,7 @@ public:
 private:
   std::shared_ptr<SourceGroupFactory> m_group_factory;
   std::map<unsigned int, std::unique_ptr<SourceGroupInterface>> m_source_groups;
+  std::list<std::unique_ptr<SourceGroupInterface>> m_ungrouped_sources;
   unsigned int m_hard_limit;
 
 };
diff --git a/SEImplementation/src/lib/Grouping/AssocGrouping.cpp b/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
index ce80b81..2d69ac3 100644
--- a/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
+++ b/SEImplementation/src/lib/Grouping/AssocGrouping.cpp
@@ -33,6 +33,14 @@ std::set<PropertyId> AssocGrouping::requiredProperties() const {
 void AssocGrouping::receiveSource(std::unique_ptr<SourceInterface> source) {
   auto source_id = source->getProperty<AssocMode>().getGroupId();
 
+  if (source_id == 0) {
+    // the source doesn't belong to any group of the catalog (see AssocCriteria), it is never grouped
+    auto new_group = m_group_factory->createSourceGroup();
+    new_group->addSource(std::move(source));
+    m_ungrouped_sources.emplace_back(std::move(new_group));
+    return;
+  }
+
   if (m_source_groups.find(source_id) == m_source_groups.end()) {
     auto new_group = m_group_factory->createSourceGroup();
     m_source_groups[source_id] = std::move(new_group);
@@ -53,6 +61,16 @@ void AssocGrouping::receiveSource(std::unique_ptr<SourceInterface> source) {
 
 /// Handles a ProcessSourcesEvent to trigger the processing of some of the Sources stored in SourceGrouping
 void AssocGrouping::receiveProcessSignal(const ProcessSourcesEvent& event) {
+  // The sources without a group are handled one by one
+  for (auto it = m_ungrouped_sources.begin(); it != m_ungrouped_sources.end();) {
+    if (event.m_selection_criteria->mustBeProcessed(*(*it)->begin())) {
+      sendSource(std::move(*it));
+      it = m_ungrouped_sources.erase(it);
+    } else {
+      ++it;
+    }
+  }
+
   std::vector<unsigned int> groups_to_process;
 
   // We iterate through all the SourceGroups we have
-- 
2.43.0


From eeb190d863c2b0e3254373e9b2603698377e9efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 04/61] fix: QuadTree range search skips subtrees whose closest
 point is not a corner

---
 SEUtils/SEUtils/_impl/QuadTree.icpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index dccdba2..00f6476 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -84,12 +84,10 @@ std::vector<T> QuadTree<T>::getPointsWithinRange(Coord c, double range) const {
     std::vector<T> points;
     for (int i=0; i<4; i++) {
       if (m_sub_trees[i] != nullptr) {
-        // compare range with distance to closest corner of subtree
-        auto dx_sq = std::min((c.x - m_sub_trees[i]->m_min.x) * (c.x - m_sub_trees[i]->m_min.x),
-            (c.x - m_sub_trees[i]->m_max.x) * (c.x - m_sub_trees[i]->m_max.x));
-        auto dy_sq = std::min((c.y - m_sub_trees[i]->m_min.y) * (c.y - m_sub_trees[i]->m_min.y),
-            (c.y - m_sub_trees[i]->m_max.y) * (c.y - m_sub_trees[i]->m_max.y));
-        if (dx_sq + dy_sq <= range_sq) {
+        // compare range with distance to closest point of subtree
+        auto dx = std::max(std::max(m_sub_trees[i]->m_min.x - c.x, c.x - m_sub_trees[i]->m_max.x), 0.0);
+        auto dy = std::max(std::max(m_sub_trees[i]->m_min.y - c.y, c.y - m_sub_trees[i]->m_max.y), 0.0);
+        if (dx * dx + dy * dy <= range_sq) {
           auto subtree_points = m_sub_trees[i]->getPointsWithinRange(c, range);
           points.insert(points.end(), subtree_points.begin(), subtree_points.end());
         }
-- 
2.43.0


From d6296c74c746bafdd0dc6449f4cc1fdaeb86dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:17 +0000
Subject: [PATCH 05/61] fix: QuadTree recurses forever when as many points as
 its capacity share one position

---
 SEUtils/SEUtils/QuadTree.h          | 1 +
 SEUtils/SEUtils/_impl/QuadTree.icpp | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/SEUtils/SEUtils/QuadTree.h b/SEUtils/SEUtils/QuadTree.h
index 4d24790..846c349 100644
--- a/SEUtils/SEUtils/QuadTree.h
+++ b/SEUtils/SEUtils/QuadTree.h
@@ -47,6 +47,7 @@ public:
 private:
   void addLocally(const T& data);
   void split();
+  bool isDivisible() const;
   void expand(Coord c);
   size_t getQuadrant(Coord c) const;
   bool isContained(Coord c) const;
diff --git a/SEUtils/SEUtils/_impl/QuadTree.icpp b/SEUtils/SEUtils/_impl/QuadTree.icpp
index 00f6476..92ddca1 100644
--- a/SEUtils/SEUtils/_impl/QuadTree.icpp
+++ b/SEUtils/SEUtils/_impl/QuadTree.icpp
@@ -54,7 +54,8 @@ void QuadTree<T>::add(const T& data) {
     m_sub_trees[quad]->add(data);
   } else {
     addLocally(data);
-    if (m_data.size() >= m_capacity) {
+    // points that all share (almost) the same position can't be separated by splitting
+    if (m_data.size() >= m_capacity && isDivisible()) {
       split();
     }
   }
@@ -139,6 +140,11 @@ void QuadTree<T>::split() {
   m_data.clear();
 }
 
+template<typename T>
+bool QuadTree<T>::isDivisible() const {
+  return m_min.x < (m_min.x + m_max.x) / 2.0 || m_min.y < (m_min.y + m_max.y) / 2.0;
+}
+
 template<typename T>
 void QuadTree<T>::expand(Coord c) {
   assert(m_is_divided && !isContained(c));
-- 
2.43.0


From 2b11716d1a8abbd12df54d74fc466f550c015858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:34 +0000
Subject: [PATCH 06/61] fix: flood fill segmentation publishes fragments of
 sources larger than the maximum size

---
 .../src/lib/Segmentation/BFSSegmentation.cpp           | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp b/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
index 8ca5a4b..f0bb490 100644
--- a/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
+++ b/SEImplementation/src/lib/Segmentation/BFSSegmentation.cpp
@@ -74,6 +74,7 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
 
   PixelCoordinate minPixel = pc;
   PixelCoordinate maxPixel = pc;
+  bool too_large = false;
 
   while (pixels_to_process.size() > 0) {
     auto pixel = pixels_to_process.back();
@@ -86,8 +87,9 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
     maxPixel.m_y = std::max(maxPixel.m_y, pixel.m_y);
 
     if (maxPixel.m_x - minPixel.m_x > m_max_delta || maxPixel.m_y - minPixel.m_y > m_max_delta) {
-      // The source extends over a too large area, ignore it
-      return;
+      // The source extends over a too large area, ignore it.
+      // Its remaining pixels must still be visited, or they would be published as separate sources
+      too_large = true;
     }
 
     for (auto& offset : offsets) {
@@ -100,6 +102,10 @@ void BFSSegmentation::labelSource(PixelCoordinate pc,
     }
   }
 
+  if (too_large) {
+    return;
+  }
+
   auto source = m_source_factory->createSource();
   source->setProperty<PixelCoordinateList>(source_pixels);
   source->setProperty<SourceId>();
-- 
2.43.0


From dee2deb4aa2c00864577ce0c9f6877ace28ab215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:16 +0000
Subject: [PATCH 07/61] fix: AttractorsPartitionStep looks up pixel values at
 the wrong place of the source stamp

---
 .../src/lib/Partition/AttractorsPartitionStep.cpp        | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
index f5eb987..e7577db 100644
--- a/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
+++ b/SEImplementation/src/lib/Partition/AttractorsPartitionStep.cpp
@@ -34,18 +34,21 @@ namespace SourceXtractor {
 
 std::vector<std::unique_ptr<SourceInterface>> AttractorsPartitionStep::partition(std::unique_ptr<SourceInterface> source) const {
   using Accessor = ImageAccessor<DetectionImage::PixelType>;
-  Accessor stamp(source->getProperty<DetectionFrameSourceStamp>().getStamp());
+  auto& source_stamp = source->getProperty<DetectionFrameSourceStamp>();
+  Accessor stamp(source_stamp.getStamp());
+  // The stamp is larger than the bounding box of the source
+  auto stamp_offset = source_stamp.getTopLeft();
   auto& detection_frame = source->getProperty<DetectionFrame>();
   auto& bounds = source->getProperty<PixelBoundaries>();
 
   auto bbox_min = bounds.getMin();
   auto bbox_max = bounds.getMax();
 
-  auto value_function = [bbox_min, bbox_max, &stamp](PixelCoordinate coord) {
+  auto value_function = [bbox_min, bbox_max, stamp_offset, &stamp](PixelCoordinate coord) {
     if (coord.m_x < bbox_min.m_x || coord.m_x > bbox_max.m_x || coord.m_y < bbox_min.m_y || coord.m_y > bbox_max.m_y) {
       return std::numeric_limits<DetectionImage::PixelType>::lowest();
     }
-    auto offset_coord = coord - bbox_min;
+    auto offset_coord = coord - stamp_offset;
     return stamp.getValue(offset_coord.m_x, offset_coord.m_y);
   };
 
-- 
2.43.0


From bbf6fbe0df1928a7b6935c8b7a52c684c08db6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:09 +0000
Subject: [PATCH 08/61] fix: a source merged by the cleaning keeps the
 detection identity of the source it replaces

The merged source was given the source identity of its parent as detection
identity. When the parent comes from a partition step the two differ, and the
merged source claimed to belong to a detection that does not exist: it was
missing from the detection check image and grouped apart from the other parts
of its detection.
---
 SEImplementation/src/lib/Deblending/Cleaning.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Deblending/Cleaning.cpp b/SEImplementation/src/lib/Deblending/Cleaning.cpp
index 94d8456..5d83b3f 100644
--- a/SEImplementation/src/lib/Deblending/Cleaning.cpp
+++ b/SEImplementation/src/lib/Deblending/Cleaning.cpp
@@ -160,7 +160,7 @@ std::unique_ptr<SourceInterface> Cleaning::mergeSources(SourceInterface& parent,
   auto new_source = m_source_factory->createSource();
   new_source->setProperty<PixelCoordinateList>(pixel_list);
   new_source->setProperty<DetectionFrame>(parent.getProperty<DetectionFrame>().getEncapsulatedFrame());
-  new_source->setProperty<SourceId>(parent.getProperty<SourceId>().getSourceId());
+  new_source->setProperty<SourceId>(parent.getProperty<SourceId>().getDetectionId());
 
   return new_source;
 }
-- 
2.43.0


From 3d6d74b92db329c08063969af9c46a6b7b138643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:31 +0000
Subject: [PATCH 09/61] fix: the order of merged sources does not depend on
 where they are stored

The cleaning walked through a map ordered by the address of the sources, so the
order in which merged sources were put back in the group, and with it their
numbers in the catalogue, could change from one run to the next.
---
 SEImplementation/src/lib/Deblending/Cleaning.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/src/lib/Deblending/Cleaning.cpp b/SEImplementation/src/lib/Deblending/Cleaning.cpp
index 5d83b3f..2cff7fa 100644
--- a/SEImplementation/src/lib/Deblending/Cleaning.cpp
+++ b/SEImplementation/src/lib/Deblending/Cleaning.cpp
@@ -67,11 +67,14 @@ void Cleaning::deblend(SourceGroupInterface& group) const {
         merging_map[influential_source].push_back(it);
       }
 
-      for (auto merging_pair : merging_map) {
-        if (merging_pair.second.size() > 0) {
-          auto new_source = mergeSources(*merging_pair.first, merging_pair.second);
+      // follow the order of the group, that of the map depends on where the sources are stored
+      for (auto& remaining : remaining_sources) {
+        auto merging_pair = merging_map.find(remaining);
+        if (merging_pair != merging_map.end()) {
+          auto new_source = mergeSources(*remaining, merging_pair->second);
+          merging_map.erase(merging_pair);
           group.addSource(std::move(new_source));
-          group.removeSource(merging_pair.first);
+          group.removeSource(remaining);
         }
       }
     } else if (remaining_sources.size() == 1) {
-- 
2.43.0


From 4a2efd213ff539776e4e6e6c9e11e2730cdb3200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:49 +0000
Subject: [PATCH 10/61] fix: a member of a group reports a property nobody can
 make as not found

The task provider's own exception came through when no factory makes the
property, instead of the documented PropertyNotFoundException, which a source
outside of a group and the group itself throw.
---
 SEFramework/src/lib/Source/EntangledSource.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/Source/EntangledSource.cpp b/SEFramework/src/lib/Source/EntangledSource.cpp
index 32db767..7596d2c 100644
--- a/SEFramework/src/lib/Source/EntangledSource.cpp
+++ b/SEFramework/src/lib/Source/EntangledSource.cpp
@@ -57,7 +57,12 @@ const Property& SourceGroupWithOnDemandProperties::EntangledSource::getProperty(
     // Getting this exception means the property must be computed at the group level
 
     // Get the group task
-    auto group_task = m_group.m_task_provider->getTask<GroupTask>(property_id);
+    std::shared_ptr<const GroupTask> group_task;
+    try {
+      group_task = m_group.m_task_provider->getTask<GroupTask>(property_id);
+    } catch (const Elements::Exception& no_factory) {
+      // Nobody makes this property
+    }
     if (!group_task) {
       // No task is available to make that property
       throw PropertyNotFoundException(property_id);
-- 
2.43.0


From b0e77e8472495f1526fda623064ed7d4079e238c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:26 +0000
Subject: [PATCH 11/61] fix: merging a group into another one leaves no group
 results behind in the emptied group

The properties of the emptied group and the values its task had computed for the
former members were still returned by it.
---
 SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp b/SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp
index c27b71c..7e5606f 100644
--- a/SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp
+++ b/SEFramework/src/lib/Source/SourceGroupWithOnDemandProperties.cpp
@@ -78,6 +78,7 @@ void SourceGroupWithOnDemandProperties::merge(SourceGroupInterface&& other) {
     m_sources.emplace_back(Euclid::make_unique<EntangledSource>(std::move(entangled_source.m_source), *this));
   }
   other_group.m_sources.clear();
+  other_group.clearGroupProperties();
   clearGroupProperties();
 }
 
-- 
2.43.0


From 292b946651a7af5e64524447329ae66303506657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:35 +0000
Subject: [PATCH 12/61] fix: a pixel written after its tile was evicted from
 the cache was not seen by readers

---
 .../SEFramework/Image/WriteableBufferedImage.h      | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/SEFramework/SEFramework/Image/WriteableBufferedImage.h b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
index d5acb8b..348b170 100644
--- a/SEFramework/SEFramework/Image/WriteableBufferedImage.h
+++ b/SEFramework/SEFramework/Image/WriteableBufferedImage.h
@@ -49,18 +49,15 @@ public:
   void setValue(int x, int y, T value) override {
     assert(x >= 0 && y >=0 && x < BufferedImage<T>::m_source->getWidth() && y < BufferedImage<T>::m_source->getHeight());
 
-    if (m_current_tile == nullptr || !m_current_tile->isPixelInTile(x, y)) {
-      m_current_tile = BufferedImage<T>::m_tile_manager->getTileForPixel(x, y, BufferedImage<T>::m_source);
-    }
-
-    m_current_tile->setModified(true);
-    m_current_tile->setValue(x, y, value);
+    // Always ask the tile manager: a tile kept from a previous call could have been evicted, and then what is written
+    // to it would not be visible to anyone else
+    auto tile = BufferedImage<T>::m_tile_manager->getTileForPixel(x, y, BufferedImage<T>::m_source);
+    tile->setModified(true);
+    tile->setValue(x, y, value);
   }
 
   using BufferedImage<T>::getRepr;
 
-private:
-  mutable std::shared_ptr<ImageTile> m_current_tile;
 };
 
 }
-- 
2.43.0


From a375e2079e9520d158663e59c333f21abfc38858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:32 +0000
Subject: [PATCH 13/61] fix: a tile could be evicted while it was being written

---
 SEFramework/src/lib/Image/TileManager.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/SEFramework/src/lib/Image/TileManager.cpp b/SEFramework/src/lib/Image/TileManager.cpp
index 4848089..a713f97 100644
--- a/SEFramework/src/lib/Image/TileManager.cpp
+++ b/SEFramework/src/lib/Image/TileManager.cpp
@@ -174,11 +174,15 @@ void TileManager::removeTile(TileKey tile_key) {
 }
 
 void TileManager::removeExtraTiles() {
-  while (m_total_memory_used > m_max_memory) {
-    assert(m_tile_list.size() > 0);
-    auto tile_to_remove = m_tile_list.back();
-    removeTile(tile_to_remove);
-    m_tile_list.pop_back();
+  // Oldest first. A tile that someone holds at this moment stays: if it was evicted while it is being written, what is
+  // written to it would be missing from the copy loaded by the next one to ask for it
+  auto it = m_tile_list.end();
+  while (m_total_memory_used > m_max_memory && it != m_tile_list.begin()) {
+    --it;
+    if (m_tile_map.at(*it).use_count() == 1) {
+      removeTile(*it);
+      it = m_tile_list.erase(it);
+    }
   }
 }
 
-- 
2.43.0


From b4419f7964f1ab6fdfcd81562a65e5f8a23e333a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:43 +0000
Subject: [PATCH 14/61] fix: padding an image one pixel wide or tall by
 reflecting it divided by zero

---
 SEFramework/SEFramework/Image/PaddedImage.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEFramework/SEFramework/Image/PaddedImage.h b/SEFramework/SEFramework/Image/PaddedImage.h
index 85bd572..8a74e81 100644
--- a/SEFramework/SEFramework/Image/PaddedImage.h
+++ b/SEFramework/SEFramework/Image/PaddedImage.h
@@ -58,6 +58,10 @@ inline int Reflect101Coordinates(int N, int v) {
   }
 
   int max = N - 1;
+  if (max == 0) {
+    // There is only one pixel to repeat
+    return 0;
+  }
   v = std::abs(v);
   int offset = v % max;
   int ntimes = v / max;
-- 
2.43.0


From ab0ae3784687ca2c02cf4cdaf06904a62572f946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:27 +0000
Subject: [PATCH 15/61] fix: name the SATURATED flag so that it can be printed

FlagsStr had no entry for it and printing any combination with it threw std::out_of_range.
---
 SEFramework/SEFramework/Source/SourceFlags.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/SEFramework/SEFramework/Source/SourceFlags.h b/SEFramework/SEFramework/Source/SourceFlags.h
index 31870cc..c0467e3 100644
--- a/SEFramework/SEFramework/Source/SourceFlags.h
+++ b/SEFramework/SEFramework/Source/SourceFlags.h
@@ -56,6 +56,7 @@ const std::map<Flags, std::string> FlagsStr = {
   {Flags::NONE, "NONE"},
   {Flags::BIASED, "BIASED"},
   {Flags::BLENDED, "BLENDED"},
+  {Flags::SATURATED, "SATURATED"},
   {Flags::BOUNDARY, "BOUNDARY"},
   {Flags::NEIGHBORS, "NEIGHBORS"},
   {Flags::OUTSIDE, "OUTSIDE"},
-- 
2.43.0


From d21f8748057a872f2727cc110b3d9f7d3eb9b13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:49 +0000
Subject: [PATCH 16/61] fix: aperture boxes round outwards, mirrored pixels are
 not truncated towards zero

CircularAperture/EllipticalAperture/TransformedAperture truncated the corners of
their boxes towards zero, losing pixels covered by the aperture (fractional
radii or centres, or negative coordinates) and missing the BOUNDARY flag; the
mirror pixel of a masked one was taken inside the image at coordinates in (-1, 0).
---
 SEFramework/src/lib/Aperture/CircularAperture.cpp    | 3 ++-
 SEFramework/src/lib/Aperture/EllipticalAperture.cpp  | 3 ++-
 SEFramework/src/lib/Aperture/FluxMeasurement.cpp     | 5 +++--
 SEFramework/src/lib/Aperture/TransformedAperture.cpp | 5 +++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/SEFramework/src/lib/Aperture/CircularAperture.cpp b/SEFramework/src/lib/Aperture/CircularAperture.cpp
index ab5878b..33b1910 100644
--- a/SEFramework/src/lib/Aperture/CircularAperture.cpp
+++ b/SEFramework/src/lib/Aperture/CircularAperture.cpp
@@ -20,6 +20,7 @@
  *  Created on: Oct 08, 2018
  *      Author: Alejandro Alvarez
  */
+#include <cmath>
 #include <iostream>
 #include "SEFramework/Aperture/CircularAperture.h"
 
@@ -77,7 +78,7 @@ SeFloat CircularAperture::getRadiusSquared(SeFloat center_x, SeFloat center_y, S
 }
 
 PixelCoordinate CircularAperture::getMinPixel(SeFloat centroid_x, SeFloat centroid_y) const {
-  return PixelCoordinate(centroid_x - m_radius, centroid_y - m_radius);
+  return PixelCoordinate(std::floor(centroid_x - m_radius), std::floor(centroid_y - m_radius));
 }
 
 PixelCoordinate CircularAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
index 22928bb..b661898 100644
--- a/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
+++ b/SEFramework/src/lib/Aperture/EllipticalAperture.cpp
@@ -21,6 +21,7 @@
  *      Author: Alejandro Alvarez
  */
 
+#include <cmath>
 #include "SEFramework/Aperture/EllipticalAperture.h"
 #include <iostream>
 namespace SourceXtractor {
@@ -78,7 +79,7 @@ PixelCoordinate EllipticalAperture::getMinPixel(SeFloat centroid_x, SeFloat cent
   dy = m_rad_max * std::sqrt(1.0 / (m_cyy - m_cxy * m_cxy / (4.0 * m_cxx)));
 
   // return the absolute values
-  return PixelCoordinate(centroid_x - dx, centroid_y - dy);
+  return PixelCoordinate(std::floor(centroid_x - dx), std::floor(centroid_y - dy));
 }
 
 PixelCoordinate EllipticalAperture::getMaxPixel(SeFloat centroid_x, SeFloat centroid_y) const {
diff --git a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
index e64fef6..c4e8e2f 100644
--- a/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
+++ b/SEFramework/src/lib/Aperture/FluxMeasurement.cpp
@@ -21,6 +21,7 @@
  *      Author: Alejandro Alvarez
  */
 
+#include <cmath>
 #include "SEFramework/Aperture/FluxMeasurement.h"
 #include "SEFramework/Image/ImageChunk.h"
 
@@ -36,8 +37,8 @@ getMirrorPixel(SeFloat centroid_x, SeFloat centroid_y,
                SeFloat variance_threshold) {
   centroid_x -= min_pixel.m_x;
   centroid_y -= min_pixel.m_y;
-  auto mirror_x = 2 * centroid_x - pixel_x + 0.49999;
-  auto mirror_y = 2 * centroid_y - pixel_y + 0.49999;
+  int mirror_x = std::floor(2 * centroid_x - pixel_x + 0.49999);
+  int mirror_y = std::floor(2 * centroid_y - pixel_y + 0.49999);
   if (img.isInside(mirror_x, mirror_y)) {
     auto variance_tmp = variance_map.getValue(mirror_x, mirror_y);
     if (variance_tmp < variance_threshold) {
diff --git a/SEFramework/src/lib/Aperture/TransformedAperture.cpp b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
index d88f5b8..0a47962 100644
--- a/SEFramework/src/lib/Aperture/TransformedAperture.cpp
+++ b/SEFramework/src/lib/Aperture/TransformedAperture.cpp
@@ -23,6 +23,7 @@
 
 #include "SEFramework/Aperture/TransformedAperture.h"
 #include <algorithm>
+#include <cmath>
 
 namespace SourceXtractor {
 
@@ -62,7 +63,7 @@ PixelCoordinate TransformedAperture::getMinPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::min({a.first, b.first, c.first, d.first});
   auto min_y = std::min({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::floor(x + min_x), std::floor(y + min_y));
 }
 
 PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
@@ -77,7 +78,7 @@ PixelCoordinate TransformedAperture::getMaxPixel(SeFloat x, SeFloat y) const {
   auto min_x = std::max({a.first, b.first, c.first, d.first});
   auto min_y = std::max({a.second, b.second, c.second, d.second});
 
-  return PixelCoordinate(x + min_x, y + min_y);
+  return PixelCoordinate(std::ceil(x + min_x), std::ceil(y + min_y));
 }
 
 SeFloat TransformedAperture::getArea(SeFloat center_x, SeFloat center_y, SeFloat pixel_x, SeFloat pixel_y) const {
-- 
2.43.0


From 508d00fb9e46eb598eb283b976f772b20cf1979b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:02 +0000
Subject: [PATCH 17/61] fix: a dependent parameter brings its value up to date
 when it becomes observed

While nobody observes it a dependent parameter computes its value when asked;
the first observer made it return the value cached at its last computation
until one of its inputs changed again.
---
 ModelFitting/src/lib/Parameters/BasicParameter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ModelFitting/src/lib/Parameters/BasicParameter.cpp b/ModelFitting/src/lib/Parameters/BasicParameter.cpp
index 48bd97e..8b17051 100644
--- a/ModelFitting/src/lib/Parameters/BasicParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/BasicParameter.cpp
@@ -37,6 +37,8 @@ void BasicParameter::setValue(const double new_value) {
 }
 
 std::size_t BasicParameter::addObserver(ParameterObserver observer) {
+  // A dependent parameter only keeps its value up to date while it is observed
+  getValue();
   m_last_obs_id += 1;
   m_observer_map.emplace(m_last_obs_id, std::move(observer));
   return m_last_obs_id;
-- 
2.43.0


From 11bbf4111f3095abca8db63496ded9cb1ce566a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 18/61] fix: a dependent parameter stops observing its inputs
 when it is destroyed

The observers it registered captured this and stayed with the inputs, which
called them after the dependent parameter was gone.
---
 .../ModelFitting/Parameters/DependentParameter.h    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ModelFitting/ModelFitting/Parameters/DependentParameter.h b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
index c759a11..a5cbef2 100644
--- a/ModelFitting/ModelFitting/Parameters/DependentParameter.h
+++ b/ModelFitting/ModelFitting/Parameters/DependentParameter.h
@@ -65,7 +65,11 @@ public:
     //m_get_value_hook = std::bind(&DependentParameter::getValueHook, this);
   }
 
-  virtual ~DependentParameter() = default;
+  virtual ~DependentParameter() {
+    for (int i = 0; i < PARAM_NO; ++i) {
+      (*m_params)[i]->removeObserver(m_observer_ids[i]);
+    }
+  }
 
   double getValue() const override {
     if (!this->isObserved()) {
@@ -82,6 +86,9 @@ private:
   // Array of the input parameter
   std::shared_ptr<std::array<std::shared_ptr<BasicParameter>, PARAM_NO>> m_params;
 
+  // Identifiers of the observers added to the input parameters
+  std::array<std::size_t, PARAM_NO> m_observer_ids;
+
   /* The two following methods represent the mechanism to loop over
    * the arbitrary number of variadic elements, the first one is called
    * as long as there is more than one elements in the list and the
@@ -117,8 +124,8 @@ private:
   }
 
   template<typename Param>
-  void addParameterObserver(int, Param& param) {
-    param->addObserver([this](double){
+  void addParameterObserver(int i, Param& param) {
+    m_observer_ids[i] = param->addObserver([this](double){
       // Do not bother updating live if there are no observers
       if (this->isObserved()) {
           this->update((*m_params)[0]->getValue());
-- 
2.43.0


From e5f0cae12f04901291195209710bab378295f1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 19/61] fix: the engine value of a parameter is set before its
 observers are told

EngineValueResidual computes its residual from the engine value when it is told
of a change; after EngineParameter::setValue() it kept that of the value before.
---
 ModelFitting/src/lib/Parameters/EngineParameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/EngineParameter.cpp b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
index d3d8bed..3fc1928 100644
--- a/ModelFitting/src/lib/Parameters/EngineParameter.cpp
+++ b/ModelFitting/src/lib/Parameters/EngineParameter.cpp
@@ -37,8 +37,8 @@ double EngineParameter::getEngineToWorldDerivative() const {
 }
 
 void EngineParameter::setValue(const double value) {
-  BasicParameter::setValue(value);
   m_engine_value = m_converter->worldToEngine(value);
+  BasicParameter::setValue(value);
 }
 
 
-- 
2.43.0


From 20a54acc6541849aad6e038e3ae132373cc0f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 20/61] fix: an exponential range gives a finite engine value
 at its limits

worldToEngine() returned plus or minus infinity (or NaN for an empty range) for
a value at a limit of the range, which the minimization then started from.
---
 ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp b/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
index 1f67b37..6657312 100644
--- a/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
+++ b/ModelFitting/src/lib/Parameters/ExpSigmoidConverter.cpp
@@ -41,7 +41,11 @@ double ExpSigmoidConverter::worldToEngine(const double world_value) const {
   }
 
   auto wv = std::max(m_min_value, std::min(m_max_value, world_value));
-  return log(log(wv / m_min_value) / log(m_max_value / wv));
+  double num = log(wv / m_min_value);
+  double den = log(m_max_value / wv);
+
+  // Like SigmoidConverter, a finite engine value also at the limits of the range
+  return (num > 1e-50 ? (den > 1e-50 ? log(num / den) : 50.0) : -50.0);
 }
 
 
-- 
2.43.0


From 735920a03334b7b076fc5352cfe95c6f84cfe656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:58 +0000
Subject: [PATCH 21/61] fix: a fit leaves the parameters at the best solution,
 not at the last point evaluated

---
 ModelFitting/src/lib/Engine/GSLEngine.cpp    | 4 ++++
 ModelFitting/src/lib/Engine/LevmarEngine.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ModelFitting/src/lib/Engine/GSLEngine.cpp b/ModelFitting/src/lib/Engine/GSLEngine.cpp
index 4d31f10..b6081b0 100644
--- a/ModelFitting/src/lib/Engine/GSLEngine.cpp
+++ b/ModelFitting/src/lib/Engine/GSLEngine.cpp
@@ -197,6 +197,10 @@ LeastSquareSummary GSLEngine::solveProblem(ModelFitting::EngineParameterManager&
   auto end     = std::chrono::steady_clock::now();
   std::chrono::duration<float> elapsed = end - start;
 
+  // The last evaluated point may be a rejected step, or a step of the numerical derivative: leave the parameters
+  // at the best position found
+  parameter_manager.updateEngineValues(GslVectorConstIterator{gsl_multifit_nlinear_position(workspace)});
+
   // Final cost
   double chisq;
   gsl_blas_ddot(residual, residual, &chisq);
diff --git a/ModelFitting/src/lib/Engine/LevmarEngine.cpp b/ModelFitting/src/lib/Engine/LevmarEngine.cpp
index a69d94c..9648030 100644
--- a/ModelFitting/src/lib/Engine/LevmarEngine.cpp
+++ b/ModelFitting/src/lib/Engine/LevmarEngine.cpp
@@ -195,6 +195,10 @@ LeastSquareSummary LevmarEngine::solveProblem(EngineParameterManager& parameter_
   levmar_mutex.unlock();
 #endif
 
+  // The last evaluated point may be a rejected step, or a step of the numerical derivative: leave the parameters
+  // at the best position found
+  parameter_manager.updateEngineValues(param_values.begin());
+
   // Create and return the summary object
   LeastSquareSummary summary {};
 
-- 
2.43.0


From 22fb96e85f2d250dce924f6cb5fa5c5b5f4a4f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 22/61] fix: the catalogue file is created when the first frame
 has no sources

---
 SEImplementation/SEImplementation/Output/FitsOutput.h | 7 +++++--
 SEImplementation/SEImplementation/Output/LdacOutput.h | 3 ++-
 SEImplementation/src/lib/Output/LdacOutput.cpp        | 4 +++-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/SEImplementation/Output/FitsOutput.h b/SEImplementation/SEImplementation/Output/FitsOutput.h
index fe8d5d3..d83b563 100644
--- a/SEImplementation/SEImplementation/Output/FitsOutput.h
+++ b/SEImplementation/SEImplementation/Output/FitsOutput.h
@@ -18,7 +18,7 @@ class FitsOutput : public FlushableOutput {
 
 public:
   FitsOutput (const std::string& filename, SourceToRowConverter source_to_row, size_t flush_size)
-    : FlushableOutput(source_to_row, flush_size), m_filename(filename), m_part_nb(0) {
+    : FlushableOutput(source_to_row, flush_size), m_filename(filename), m_part_nb(0), m_file_created(false) {
     m_fits_writer = std::make_shared<Euclid::Table::FitsWriter>(m_filename, true);
     m_fits_writer->setHduName("CATALOG");
   }
@@ -28,7 +28,8 @@ public:
     std::stringstream hdu_name;
     hdu_name << "CATALOG_" << m_part_nb;
 
-    m_fits_writer = std::make_shared<Euclid::Table::FitsWriter>(m_filename);
+    // The first part with rows creates the file, it may not be the first one
+    m_fits_writer = std::make_shared<Euclid::Table::FitsWriter>(m_filename, !m_file_created);
     m_fits_writer->setHduName(hdu_name.str());
   }
 
@@ -36,11 +37,13 @@ protected:
   void writeRows(const std::vector<Euclid::Table::Row>& rows) override {
     Euclid::Table::Table table {rows};
     m_fits_writer->addData(table);
+    m_file_created = true;
   }
 
 private:
   std::string m_filename;
   int m_part_nb;
+  bool m_file_created;
 
   std::shared_ptr<Euclid::Table::FitsWriter> m_fits_writer;
 };
diff --git a/SEImplementation/SEImplementation/Output/LdacOutput.h b/SEImplementation/SEImplementation/Output/LdacOutput.h
index 481ee35..919a396 100644
--- a/SEImplementation/SEImplementation/Output/LdacOutput.h
+++ b/SEImplementation/SEImplementation/Output/LdacOutput.h
@@ -18,7 +18,7 @@ class LdacOutput : public FlushableOutput {
 
 public:
   LdacOutput (const std::string& filename, SourceToRowConverter source_to_row, size_t flush_size)
-    : FlushableOutput(source_to_row, flush_size), m_filename(filename), m_part_nb(0), m_rms(0), m_gain(0) {
+    : FlushableOutput(source_to_row, flush_size), m_filename(filename), m_part_nb(0), m_file_created(false), m_rms(0), m_gain(0) {
   }
 
   void nextPart() override;
@@ -36,6 +36,7 @@ private:
 
   std::string m_filename;
   int m_part_nb;
+  bool m_file_created;
 
   std::shared_ptr<Euclid::Table::FitsWriter> m_fits_writer;
 
diff --git a/SEImplementation/src/lib/Output/LdacOutput.cpp b/SEImplementation/src/lib/Output/LdacOutput.cpp
index 41a7f17..6e61207 100644
--- a/SEImplementation/src/lib/Output/LdacOutput.cpp
+++ b/SEImplementation/src/lib/Output/LdacOutput.cpp
@@ -140,7 +140,8 @@ void LdacOutput::outputSource(const SourceInterface& source) {
 }
 
 void LdacOutput::writeHeaders() {
-  auto imhead_writer = Euclid::make_unique<FitsWriter>(m_filename, m_part_nb == 0);
+  // The first part with rows creates the file, it may not be the first one
+  auto imhead_writer = Euclid::make_unique<FitsWriter>(m_filename, !m_file_created);
   if (m_part_nb >= 1) {
     std::stringstream hdu_name;
     hdu_name << "LDAC_IMHEAD_" << m_part_nb;
@@ -180,6 +181,7 @@ void LdacOutput::writeHeaders() {
   auto column_info = std::make_shared<ColumnInfo>(std::vector<ColumnInfo::info_type>{{"Field Header Card", typeid(std::string)}});
   std::vector<Row> rows{{std::vector<Row::cell_type>{header}, column_info}};
   imhead_writer->addData(Table{std::move(rows)});
+  m_file_created = true;
 }
 
 void LdacOutput::nextPart() {
-- 
2.43.0


From ab7407c71d0a526e0861cb5326c8dcf2cd9b444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:20 +0000
Subject: [PATCH 23/61] fix: the median filter's window stays inside an image
 smaller than the box

---
 .../SEImplementation/Background/SE/MedianFilter.h         | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
index 28b463d..be05d1b 100644
--- a/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
+++ b/SEImplementation/SEImplementation/Background/SE/MedianFilter.h
@@ -20,6 +20,7 @@
 
 #include "SEFramework/Image/VectorImage.h"
 #include "SEFramework/Image/WriteableImage.h"
+#include <algorithm>
 #include <array>
 
 namespace SourceXtractor {
@@ -125,12 +126,7 @@ private:
    *    As many pixels as could be read safely from the image, up to box_size
    */
   static int clip(int position, int box_size, int image_size) {
-    box_size /= 2;
-    if (box_size > position)
-      return position;
-    if (box_size > image_size - position - 1)
-      return image_size - position - 1;
-    return box_size;
+    return std::min(box_size / 2, std::min(position, image_size - position - 1));
   }
 
   /**
-- 
2.43.0


From fbbcbf7cfb174121a5ed2d2cdc8ffaf8272df19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 24/61] fix: the background's spread does not vanish in images
 with small units

---
 .../SEImplementation/Background/SE/KappaSigmaBinning.h         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h b/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
index 59103e4..1b26830 100644
--- a/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
+++ b/SEImplementation/SEImplementation/Background/SE/KappaSigmaBinning.h
@@ -148,7 +148,8 @@ private:
     std::tuple<double, double, size_t> get() {
       mean /= ndata;
       sigma = sigma / ndata - mean * mean;
-      if (sigma > std::numeric_limits<double>::epsilon())
+      // Rounding errors are relative to the values, which can be in any unit
+      if (sigma > ndata * std::numeric_limits<double>::epsilon() * mean * mean)
         sigma = std::sqrt(sigma);
       else
         sigma = 0.;
-- 
2.43.0


From 7a5f948b46380e95b9117e9de890c70da013d572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:36 +0000
Subject: [PATCH 25/61] fix: the scaling of the weight map is 1 when no cell of
 the background has both a weight and a spread

---
 .../src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp      | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
index 3c5edac..748dd3d 100644
--- a/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
+++ b/SEImplementation/src/lib/Background/SE/SEBackgroundLevelAnalyzer.cpp
@@ -59,6 +59,11 @@ static float computeScaling(const std::shared_ptr<VectorImage<DetectionImage::Pi
     }
   }
 
+  // Nothing to compare the weights with: leave them as they are
+  if (ratios.empty()) {
+    return 1.f;
+  }
+
   std::sort(ratios.begin(), ratios.end());
   if (ratios.size() % 2 == 1) {
     return ratios[ratios.size() / 2];
-- 
2.43.0


From d01e467d8fe9bf7bd9bbddb27732819dbcddcec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:37 +0000
Subject: [PATCH 26/61] fix: a data cube knows its depth, starts at its first
 layer and refuses layers it does not have

---
 SEFramework/SEFramework/FITS/FitsImageSource.h | 4 ++--
 SEFramework/src/lib/FITS/FitsImageSource.cpp   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/SEFramework/SEFramework/FITS/FitsImageSource.h b/SEFramework/SEFramework/FITS/FitsImageSource.h
index 5686df9..da3eb63 100644
--- a/SEFramework/SEFramework/FITS/FitsImageSource.h
+++ b/SEFramework/SEFramework/FITS/FitsImageSource.h
@@ -133,10 +133,10 @@ private:
 
   int m_width;
   int m_height;
-  int m_depth;
+  int m_depth {1};
   ImageTile::ImageType m_image_type;
 
-  int m_current_layer;
+  int m_current_layer {0};
 };
 
 }
diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index f68b062..48a8e2e 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -94,7 +94,7 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
     switchHdu(fptr, m_hdu_number);
   }
 
-  fits_get_img_param(fptr, 2, &bitpix, &naxis, naxes, &status);
+  fits_get_img_param(fptr, 3, &bitpix, &naxis, naxes, &status);
   if (status != 0 || (naxis != 2 && naxis != 3)) {
     char error_message[32];
     fits_get_errstatus(status, error_message);
@@ -273,7 +273,7 @@ void FitsImageSource::switchHdu(fitsfile *fptr, int hdu_number) const {
 }
 
 void FitsImageSource::setLayer(int layer) {
-  if (layer < 0 && layer >= m_depth) {
+  if (layer < 0 || layer >= m_depth) {
     throw Elements::Exception() << "Trying to access an inexistent data cube layer (" << layer << ") in " << m_filename;
   }
   m_current_layer = layer;
-- 
2.43.0


From 0a81b52ebb4b1e3c061fca2ffe724e5e4c79ed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 27/61] fix: the default HDU of a FITS file does not depend on
 what was read from the file before

---
 SEFramework/SEFramework/FITS/FitsFile.h      | 6 ++++++
 SEFramework/src/lib/FITS/FitsFile.cpp        | 2 ++
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 9 +++------
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/SEFramework/SEFramework/FITS/FitsFile.h b/SEFramework/SEFramework/FITS/FitsFile.h
index 9fbfc00..4d70051 100644
--- a/SEFramework/SEFramework/FITS/FitsFile.h
+++ b/SEFramework/SEFramework/FITS/FitsFile.h
@@ -53,6 +53,11 @@ public:
   const std::vector<int>& getImageHdus() const;
 
   std::map<std::string, MetadataEntry>& getHDUHeaders(int hdu);
+  /// The HDU the file opens at: the first image, or the one selected by the extended file name syntax
+  int getDefaultHdu() const {
+    return m_default_hdu;
+  }
+
   std::vector<int> getDimensions(int hdu) const;
 
   void refresh();
@@ -61,6 +66,7 @@ private:
   boost::filesystem::path m_path;
   bool m_is_writeable;
   std::unique_ptr<fitsfile, void (*)(fitsfile*)> m_fits_ptr;
+  int m_default_hdu {0};
   std::vector<int> m_image_hdus;
   std::vector<std::map<std::string, MetadataEntry>> m_headers;
 
diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index 449ced8..cfae7de 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -172,6 +172,8 @@ void FitsFile::loadInfo() {
   int original_hdu = 0;
   fits_get_hdu_num(ptr, &original_hdu);
 
+  m_default_hdu = original_hdu;
+
   // Number of HDU
   m_image_hdus.clear();
   int number_of_hdus = 0;
diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index 48a8e2e..d4fa355 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -86,13 +86,10 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
   auto fptr = acc->m_fd.getFitsFilePtr();
 
   if (m_hdu_number <= 0) {
-    if (fits_get_hdu_num(fptr, &m_hdu_number) < 0) {
-      throw Elements::Exception() << "Can't get the active HDU from the FITS file: " << filename;
-    }
-  }
-  else {
-    switchHdu(fptr, m_hdu_number);
+    // the file may have been used already, so the current HDU is not necessarily the one it was opened at
+    m_hdu_number = acc->m_fd.getDefaultHdu();
   }
+  switchHdu(fptr, m_hdu_number);
 
   fits_get_img_param(fptr, 3, &bitpix, &naxis, naxes, &status);
   if (status != 0 || (naxis != 2 && naxis != 3)) {
-- 
2.43.0


From 423a5eeeeeb5397455bd489b9475fa21d0e24bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:57 +0000
Subject: [PATCH 28/61] fix: unsigned FITS images are recognized as such

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index d4fa355..7461b43 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -105,6 +105,8 @@ FitsImageSource::FitsImageSource(const std::string& filename, int hdu_number,
   m_depth = naxis >= 3 ? naxes[2] : 1;
 
   if (image_type < 0) {
+    // takes BZERO and BSCALE into account: unsigned integers are stored with an offset
+    fits_get_img_equivtype(fptr, &bitpix, &status);
     m_image_type = convertImageType(bitpix);
   }
   else {
-- 
2.43.0


From b3e44ba5e3fcdfd2c1dbf251856c3bb3829c417e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 29/61] fix: FITS header strings may contain slashes or be
 empty

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index cfae7de..b5e997d 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -72,11 +72,16 @@ static typename MetadataEntry::value_t valueAutoCast(const std::string& value) {
   // the string starts and ends with single quotes.
   // We used to use boost::io::quoted here, but it seems that starting with 1.73 it
   // does not work well when the escape code and the delimiter are the same
+  std::string content = value;
+  if (content.size() >= 2 && content.front() == '\'' && content.back() == '\'') {
+    content = content.substr(1, content.size() - 2);
+  }
+
   std::string unquoted;
   bool escape = false;
 
-  unquoted.reserve(value.size());
-  for (auto i = value.begin(); i != value.end(); ++i) {
+  unquoted.reserve(content.size());
+  for (auto i = content.begin(); i != content.end(); ++i) {
     if (*i == '\'' && !escape) {
       escape = true;
       // skip this char
@@ -225,7 +230,7 @@ static std::map<std::string, MetadataEntry> loadHeadersFromFits(fitsfile* fptr)
 
   fits_read_record(fptr, keynum, record, &status);
   while (status == 0 && strncmp(record, "END", 3) != 0) {
-    static boost::regex regex("([^=]{8})=([^\\/]*)(\\/(.*))?");
+    static boost::regex regex("([^=]{8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/(.*))?");
     std::string         record_str(record);
 
     boost::smatch sub_matches;
@@ -301,7 +306,7 @@ void FitsFile::loadHeadFile() {
       current_hdu = *(++hdu_iter);
       is_new_hdu = true;
     } else {
-      static boost::regex regex("([^=]{1,8})=([^\\/]*)(\\/ (.*))?");
+      static boost::regex regex("([^=]{1,8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/ (.*))?");
       boost::smatch       sub_matches;
       if (boost::regex_match(line, sub_matches, regex) && sub_matches.size() >= 3) {
         auto keyword = boost::to_upper_copy(sub_matches[1].str());
-- 
2.43.0


From 136b549788b45e3e0735026e6cdf0de8affbf35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 30/61] fix: a FITS keyword starting with END does not end the
 header

---
 SEFramework/src/lib/FITS/FitsFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEFramework/src/lib/FITS/FitsFile.cpp b/SEFramework/src/lib/FITS/FitsFile.cpp
index b5e997d..ab67ad9 100644
--- a/SEFramework/src/lib/FITS/FitsFile.cpp
+++ b/SEFramework/src/lib/FITS/FitsFile.cpp
@@ -229,7 +229,7 @@ static std::map<std::string, MetadataEntry> loadHeadersFromFits(fitsfile* fptr)
   int keynum = 1, status = 0;
 
   fits_read_record(fptr, keynum, record, &status);
-  while (status == 0 && strncmp(record, "END", 3) != 0) {
+  while (status == 0 && boost::trim_right_copy(std::string(record)) != "END") {
     static boost::regex regex("([^=]{8})=(\\s*'(?:[^']|'')*'\\s*|[^\\/]*)(\\/(.*))?");
     std::string         record_str(record);
 
-- 
2.43.0


From 95eeeb7b17e8b3a8c1b7589ac15fa2206c2df4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:49 +0000
Subject: [PATCH 31/61] fix: string metadata are written as FITS strings

---
 SEFramework/src/lib/FITS/FitsImageSource.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/SEFramework/src/lib/FITS/FitsImageSource.cpp b/SEFramework/src/lib/FITS/FitsImageSource.cpp
index 7461b43..698dcca 100644
--- a/SEFramework/src/lib/FITS/FitsImageSource.cpp
+++ b/SEFramework/src/lib/FITS/FitsImageSource.cpp
@@ -28,6 +28,7 @@
 #include <AlexandriaKernel/memory_tools.h>
 #include <ElementsKernel/Exception.h>
 #include <boost/algorithm/string/case_conv.hpp>
+#include <boost/algorithm/string/replace.hpp>
 #include <boost/algorithm/string/trim.hpp>
 #include <boost/filesystem/operations.hpp>
 #include <boost/filesystem/path.hpp>
@@ -336,8 +337,13 @@ void FitsImageSource::setMetadata(const std::string& key, const MetadataEntry& v
   std::ostringstream padded_key, serializer;
   padded_key << std::setw(8) << std::left << key;
 
-  serializer << padded_key.str() << "= " << std::left << std::setw(70)
-             << VariantCast<std::string>(value.m_value);
+
+  auto text = VariantCast<std::string>(value.m_value);
+  if (value.m_value.type() == typeid(std::string)) {
+    // strings are quoted, so that they are not mistaken for something else when read back
+    text = "'" + boost::replace_all_copy(text, "'", "''") + "'";
+  }
+  serializer << padded_key.str() << "= " << std::left << std::setw(70) << text;
   auto str = serializer.str();
 
   int status = 0;
-- 
2.43.0


From e5712d6fb812268cca35444e632bfe8dc6703fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:56 +0000
Subject: [PATCH 32/61] fix: do not let a weight threshold make an unknown
 weight type valid

Looking the type up with operator[] added it to the table of known types, so that the validation that follows accepted it.
---
 .../src/lib/Configuration/MeasurementImageConfig.cpp           | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
index ba81408..e618985 100644
--- a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
@@ -136,8 +136,7 @@ WeightImage::PixelType extractWeightThreshold(const PyMeasurementImage& py_image
     return std::numeric_limits<WeightImage::PixelType>::max();
   }
   WeightImage::PixelType threshold = py_image.weight_threshold;
-  auto weight_type_name = boost::to_upper_copy(py_image.weight_type);
-  switch (weight_type_map[weight_type_name]) {
+  switch (getWeightType(py_image.weight_type, py_image.weight_file)) {
       default:
       case WeightImageConfig::WeightType::WEIGHT_TYPE_FROM_BACKGROUND:
       case WeightImageConfig::WeightType::WEIGHT_TYPE_RMS:
-- 
2.43.0


From ae76a73ff1c49a9f7e0e30f0045058b46569346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:17 +0000
Subject: [PATCH 33/61] fix: scale the threshold of an absolute weight map
 along with the map

The weight map of a measurement image is multiplied by the square of the flux scale when it is absolute; its threshold was left in the units of the original map, unlike that of the detection image.
---
 .../src/lib/Configuration/MeasurementImageConfig.cpp           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
index e618985..1a9cefb 100644
--- a/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/MeasurementImageConfig.cpp
@@ -209,6 +209,9 @@ void MeasurementImageConfig::initialize(const UserValues&) {
       if (weight_map != nullptr && flux_scale != 1. && py_image.weight_absolute) {
         info.m_weight_image = MultiplyImage<WeightImage::PixelType>::create(
             weight_map, py_image.flux_scale * py_image.flux_scale);
+        if (info.m_weight_threshold < std::numeric_limits<WeightImage::PixelType>::max()) {
+          info.m_weight_threshold *= py_image.flux_scale * py_image.flux_scale;
+        }
       } else {
         info.m_weight_image = weight_map;
       }
-- 
2.43.0


From c68da4fd19df52f5a5c03501d74ed5d221821156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 34/61] fix: the vignet of a source may extend beyond the
 detection frame

The detection pixel at the position of a vignet's pixel was read even where the
detection image has none (the measurement frame is larger or shifted).
---
 .../src/lib/Plugin/Vignet/VignetSourceTask.cpp        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
index 15ab07c..f214a5a 100644
--- a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
+++ b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
@@ -22,6 +22,8 @@
  * @author mkuemmel@usm.lmu.de
  */
 
+#include <cmath>
+
 #include "SEImplementation/Property/PixelCoordinateList.h"
 #include <SEImplementation/Plugin/MeasurementFrameInfo/MeasurementFrameInfo.h>
 #include <SEImplementation/Plugin/MeasurementFrameCoordinates/MeasurementFrameCoordinates.h>
@@ -82,11 +84,14 @@ void VignetSourceTask::computeProperties(SourceInterface& source) const {
 
       // copy the pixel value if it is not masked, and if it does not correspond to a detection pixel
       // if it corresponds to a detection pixel, use it if it belongs to the source
-      int detection_x = static_cast<int>(detection_coord.m_x + 0.5);
-      int detection_y = static_cast<int>(detection_coord.m_y + 0.5);
+      int detection_x = static_cast<int>(std::floor(detection_coord.m_x + 0.5));
+      int detection_y = static_cast<int>(std::floor(detection_coord.m_y + 0.5));
 
       bool is_masked = measurement_var_image->getValue(ix, iy) > measurement_var_threshold;
-      bool is_detection_pixel = detection_thresh_image->getValue(detection_x, detection_y) > 0;
+      // the measurement frame may extend beyond the detection frame
+      bool is_detection_pixel = detection_x >= 0 && detection_y >= 0 &&
+        detection_x < detection_thresh_image->getWidth() && detection_y < detection_thresh_image->getHeight() &&
+        detection_thresh_image->getValue(detection_x, detection_y) > 0;
 
       if (!is_masked && (!is_detection_pixel || pixel_coords.contains({detection_x, detection_y}))) {
         vignet_vector[index] = measurement_sub_image->getValue(ix, iy);
-- 
2.43.0


From fb889272d50e7bd60d4dea90392b54f1f38711ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 35/61] fix: the centre of a vignet is rounded to the nearest
 pixel for negative coordinates, too

---
 SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
index f214a5a..0a74078 100644
--- a/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
+++ b/SEImplementation/src/lib/Plugin/Vignet/VignetSourceTask.cpp
@@ -59,8 +59,8 @@ void VignetSourceTask::computeProperties(SourceInterface& source) const {
 
   // get the central pixel coord
   const auto& centroid = source.getProperty<MeasurementFramePixelCentroid>(m_instance);
-  const int x_pix = static_cast<int>(centroid.getCentroidX() + 0.5);
-  const int y_pix = static_cast<int>(centroid.getCentroidY() + 0.5);
+  const int x_pix = static_cast<int>(std::floor(centroid.getCentroidX() + 0.5));
+  const int y_pix = static_cast<int>(std::floor(centroid.getCentroidY() + 0.5));
 
   // get the sub-image boundaries
   int x_start = x_pix - m_vignet_size[0] / 2;
-- 
2.43.0


From f7f5c0db9f4e9e8be90fe6ee6d4d580409e2e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 36/61] fix: the peak of a source without positive pixels is
 its highest pixel

numeric_limits::min() is the smallest positive value: sources given by a catalogue
(ASSOC) on negative pixels got it as peak, at (-1, -1).
---
 .../SEImplementation/Plugin/PeakValue/PeakValueTask.h           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
index 1dc7342..f270200 100644
--- a/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
+++ b/SEImplementation/SEImplementation/Plugin/PeakValue/PeakValueTask.h
@@ -43,7 +43,7 @@ public:
 
     auto& coordinates = source.getProperty<PixelCoordinateList>().getCoordinateList();
 
-    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::min();
+    DetectionImage::PixelType peak_value = std::numeric_limits<DetectionImage::PixelType>::lowest();
     DetectionImage::PixelType min_value = std::numeric_limits<DetectionImage::PixelType>::max();
 
     unsigned int index=0;
-- 
2.43.0


From a9e34bf16eecdfd548a4271aa0a9f2a7ba46bdc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 37/61] fix: a source along the antidiagonal has a position
 angle of -45 degrees

With equal second moments the angle was +45 degrees whatever the sign of the mixed one.
---
 .../src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp b/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
index 2ba368d..77c35ea 100644
--- a/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ShapeParameters/ShapeParametersTask.cpp
@@ -76,7 +76,7 @@ void ShapeParametersTask::computeProperties(SourceInterface& source) const {
   if (fabs(x_2 - y_2) > 0.0) {
     theta = atan2(2.0 * x_y, x_2 - y_2) / 2.0;
   } else {
-    theta = M_PI/4.0;
+    theta = x_y < 0.0 ? -M_PI/4.0 : M_PI/4.0;
   }
 
   float temp = x_2 - y_2;
-- 
2.43.0


From a272264c04be713794e0b5a603a9c1bd4e6d8d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 38/61] fix: the error ellipse is oriented along its major axis

The angle was computed from the absolute difference of the variances and not halved.
---
 .../src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp      | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
index 59c52a8..6a0c7df 100644
--- a/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
+++ b/SEImplementation/src/lib/Plugin/ErrorEllipse/ErrorEllipseTask.cpp
@@ -97,11 +97,11 @@ void ErrorEllipseTask::computeProperties(SourceInterface& source) const {
 
   // angle of the error ellipse
   SeFloat theta_error, a_error, b_error;
-  SeFloat temp_error = fabs(x_2_error - y_2_error);
-  if (temp_error>0.0)
-	  theta_error = atan2(2.0*x_y_error, temp_error); // when dividing by 2.0 as in SE2 the range is -45 < theta_error < 45 which is smaller than in SE2
+  SeFloat temp_error = x_2_error - y_2_error;
+  if (fabs(temp_error)>0.0)
+	  theta_error = atan2(2.0*x_y_error, temp_error) / 2.0;
   else
-	  theta_error = M_PI /4.0;
+	  theta_error = x_y_error < 0.0 ? -M_PI/4.0 : M_PI/4.0;
 
   // major/minor axis for the error ellipse
   temp_error = sqrt(0.25*temp_error*temp_error+x_y_error*x_y_error);
-- 
2.43.0


From 54af935bb17f28d9a9c5c4ae8eb56f2e8b5e7752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 39/61] fix: aperture photometry can be added to a list of
 images, as documented

---
 .../python/sourcextractor/config/measurement_config.py         | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index c275634..641f8da 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -63,6 +63,9 @@ class MeasurementConfig:
         if isinstance(image, MeasurementImage):
             if image.id not in self._measurement_images:
                 self._measurement_images[image.id] = image
+        elif isinstance(image, list):
+            for member in image:
+                self.add_measurement_image(member)
         elif image.is_leaf():
             for member in image:
                 self.add_measurement_image(member)
-- 
2.43.0


From 1b200d8cdbf04a8be260490a5393c604615d2bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 40/61] fix: every parameter of an output column is registered,
 not only the first

---
 .../python/sourcextractor/config/measurement_config.py         | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 641f8da..41dbc92 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -419,7 +419,8 @@ class MeasurementConfig:
                 self._column_map[base].append((name, params))
                 known_subclass = True
         if issubclass(param_type, ParameterBase):
-            self.model_fitting._register_parameter(params[0])
+            for param in params:
+                self.model_fitting._register_parameter(param)
 
         if not known_subclass:
             raise TypeError('{} is not a known column type'.format(str(param_type)))
-- 
2.43.0


From 4ae6589ec8b56d9cfa4810fb4b843310a687c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 41/61] fix: a weight cube must have as many layers as the
 image cube

---
 .../python/sourcextractor/config/measurement_config.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index 41dbc92..dc2f1b0 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -249,7 +249,7 @@ class MeasurementConfig:
             weight_dims = weight_fits_file.get_dimensions(weight_hdu)
             if len(weight_dims) == 3:
                 # handle weight as data cube
-                if dims[2] != cube_size:
+                if weight_dims[2] != cube_size:
                     raise ValueError("The weight map cube doesn't match the image cube")
 
                 weight_file_list = [weight_fits_file] * cube_size
-- 
2.43.0


From 7a1a6c5939aae01bdc50c7fc9673ab0cf6ed67f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 42/61] fix: the parameter of a constant model is registered
 with it

---
 .../python/sourcextractor/config/model_fitting.py           | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 8b8a304..01db25a 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -530,9 +530,9 @@ class ConstantModel(ModelBase):
             return 'ConstantModel[value={}]'.format(self.value)
         else:
             return 'ConstantModel[value={}]'.format(self.value.id)
-        
-        def get_params(self):
-            return [self.value]
+
+    def get_params(self):
+        return [self.value]
 
 
 class SersicModelBase(CoordinateModelBase):
-- 
2.43.0


From d9249ce134c0c645190c91a4dea8b6e20fe2a5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 43/61] fix: psf_renormalize can be given for data cubes too

---
 .../python/sourcextractor/config/measurement_images.py        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_images.py b/SEImplementation/python/sourcextractor/config/measurement_images.py
index a5fbbac..e4a2a47 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_images.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_images.py
@@ -226,13 +226,13 @@ class DataCubeSlice(MeasurementImage):
                  weight_type='none', weight_absolute=False, weight_scaling=1.,
                  weight_threshold=None, constant_background=None,
                  image_hdu=0, psf_hdu=None, weight_hdu=None,
-                 image_layer=0, weight_layer=0):
+                 image_layer=0, weight_layer=0, psf_renormalize=True):
         super(DataCubeSlice, self).__init__(fits_file, psf_file, weight_file, gain,
                                             gain_keyword, saturation, saturation_keyword,
                                             flux_scale, flux_scale_keyword,
                                             weight_type, weight_absolute, weight_scaling,
                                             weight_threshold, constant_background,
-                                            image_hdu, psf_hdu, weight_hdu)
+                                            image_hdu, psf_hdu, weight_hdu, psf_renormalize)
 
         self.is_data_cube = True
         self.image_layer = image_layer
-- 
2.43.0


From f1c8c035e9a0cebd503357e4ecde6962510dc86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 44/61] fix: a FileList can be passed to load_fits_images, as
 documented

---
 .../python/sourcextractor/config/measurement_config.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index dc2f1b0..c7df511 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -21,6 +21,7 @@ import sys
 
 import _SourceXtractorPy as cpp
 
+from .argv import FileList
 from .measurement_images import DataCubeSlice, FitsFile, ImageGroup, MeasurementGroup, \
     MeasurementImage
 from .model_fitting import ModelFitting, ParameterBase
@@ -159,6 +160,13 @@ class MeasurementConfig:
             In case of mismatched list of files
         """
 
+        if isinstance(images, FileList):
+            images = list(images)
+        if isinstance(psfs, FileList):
+            psfs = list(psfs)
+        if isinstance(weights, FileList):
+            weights = list(weights)
+
         if isinstance(images, list):
             if len(images) == 0:
                 raise ValueError("An empty list passed to load_fits_images")
-- 
2.43.0


From ffe4fcd001aadbf08d8fe821c80d49bed6922181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 45/61] fix: images are not dropped silently when the weight
 file has fewer HDUs

---
 .../python/sourcextractor/config/measurement_config.py        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_config.py b/SEImplementation/python/sourcextractor/config/measurement_config.py
index c7df511..3ea4feb 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_config.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_config.py
@@ -123,6 +123,8 @@ class MeasurementConfig:
                 weight_hdu_list = [kwargs.pop("weight_hdu")] * len(image_hdu_list)
             else:    
                 weight_hdu_list = weight_file.hdu_list
+            if len(weight_hdu_list) < len(image_hdu_list):
+                raise ValueError("The weight file has fewer HDUs than there are images!")
             weight_file_list = [weight_file] * len(image_hdu_list)
 
         image_list = []
@@ -268,6 +270,8 @@ class MeasurementConfig:
                 weight_file_list = [weight_fits_file] * cube_size
                 weight_hdu_list = weight_fits_file.hdu_list
                 weight_layer_list = [0] * cube_size
+                if len(weight_hdu_list) < cube_size:
+                    raise ValueError("The weight file has fewer HDUs than there are images!")
 
         image_list = []
         for psf_file, psf_hdu, weight_file, weight_hdu, image_layer, weight_layer in zip(
-- 
2.43.0


From ce82f11aae1bba3ef195626303bd416fe978cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 46/61] fix: a compute graph model can be printed

---
 .../python/sourcextractor/config/model_fitting.py         | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 01db25a..c066699 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -790,12 +790,12 @@ class ComputeGraphModel(CoordinateModelBase):
         str
         """
         if show_params:
-            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, effective_radius={}, aspect_ratio={}, angle={}]'.format(
-                self.x_coord, self.y_coord, self.flux, self.effective_radius, self.aspect_ratio,
+            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, scale={}, aspect_ratio={}, angle={}]'.format(
+                self.x_coord, self.y_coord, self.flux, self.scale, self.aspect_ratio,
                 self.angle)
         else:
-            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, effective_radius={}, aspect_ratio={}, angle={}]'.format(
-                self.x_coord.id, self.y_coord.id, self.flux.id, self.effective_radius.id,
+            return 'ComputeGraph[x_coord={}, y_coord={}, flux={}, scale={}, aspect_ratio={}, angle={}]'.format(
+                self.x_coord.id, self.y_coord.id, self.flux.id, self.scale.id,
                 self.aspect_ratio.id, self.angle.id)
 
     def get_params(self):
-- 
2.43.0


From 3a4c27a20facad5f4d6f14a166d0816647b01498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 47/61] fix: a compute graph model leaves the dictionary of
 parameters it is given as it was

---
 SEImplementation/python/sourcextractor/config/model_fitting.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index c066699..9ed9875 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -755,6 +755,9 @@ class ComputeGraphModel(CoordinateModelBase):
         angle_name = "_angle"
         scale_name = "_scale"
 
+        # do not change the dictionary of the caller
+        params = dict(params)
+
         for k in params.keys():
             if not isinstance(params[k], ParameterBase):
                 params[k] = ConstantParameter(params[k])
-- 
2.43.0


From 824d7688c17e6fc03ffc5cb0c914179bc5c8780e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 48/61] fix: the axes of the ellipse are perpendicular in
 get_world_parameters

---
 .../python/sourcextractor/config/model_fitting.py             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/model_fitting.py b/SEImplementation/python/sourcextractor/config/model_fitting.py
index 9ed9875..8de7d00 100644
--- a/SEImplementation/python/sourcextractor/config/model_fitting.py
+++ b/SEImplementation/python/sourcextractor/config/model_fitting.py
@@ -999,14 +999,14 @@ def get_world_parameters(x, y, radius, angle, ratio):
             x2 = x + math.cos(angle) * radius
             y2 = y + math.sin(angle) * radius
         else:
-            x2 = x + math.sin(angle) * radius * ratio
+            x2 = x - math.sin(angle) * radius * ratio
             y2 = y + math.cos(angle) * radius * ratio
 
         return x2, y2
 
     def get_minor_axis(x, y, radius, angle, ratio):
         if ratio <= 1:
-            x2 = x + math.sin(angle) * radius * ratio
+            x2 = x - math.sin(angle) * radius * ratio
             y2 = y + math.cos(angle) * radius * ratio
         else:
             x2 = x + math.cos(angle) * radius
-- 
2.43.0


From 65b790f0eab97d32e812a870879e4d5275e60e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 49/61] fix: a measurement group made of an empty split group
 can be iterated

---
 .../python/sourcextractor/config/measurement_images.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SEImplementation/python/sourcextractor/config/measurement_images.py b/SEImplementation/python/sourcextractor/config/measurement_images.py
index e4a2a47..1b8fbb6 100644
--- a/SEImplementation/python/sourcextractor/config/measurement_images.py
+++ b/SEImplementation/python/sourcextractor/config/measurement_images.py
@@ -586,7 +586,7 @@ class MeasurementGroup(object):
         -------
         iterator
         """
-        if self.__subgroups:
+        if self.__subgroups is not None:
             return self.__subgroups.__iter__()
         else:
             return self.__images.__iter__()
@@ -610,7 +610,7 @@ class MeasurementGroup(object):
             If we can't find what we want
         """
 
-        if self.__subgroups:
+        if self.__subgroups is not None:
             try:
                 return next(x for x in self.__subgroups if x[0] == index)[1]
             except StopIteration:
@@ -628,7 +628,7 @@ class MeasurementGroup(object):
         int
             Number of subgroups, or images contained within the group
         """
-        if self.__subgroups:
+        if self.__subgroups is not None:
             return len(self.__subgroups)
         else:
             return len(self.__images)
-- 
2.43.0


From 2882fe95bdcc1d5c482dd717fa92b064ef6d9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 50/61] fix: a malformed ASCII filter is refused instead of
 being misread

---
 .../src/lib/Configuration/SegmentationConfig.cpp       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp b/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
index 04a6438..c08d305 100644
--- a/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
+++ b/SEImplementation/src/lib/Configuration/SegmentationConfig.cpp
@@ -182,6 +182,9 @@ static void extractValues(std::istream& line_stream, std::vector<T>& data) {
   T value;
   while (line_stream.good()) {
     line_stream >> value;
+    if (line_stream.fail()) {
+      throw Elements::Exception() << "Malformed segmentation filter: not a number";
+    }
     data.push_back(value);
   }
 }
@@ -227,10 +230,15 @@ std::shared_ptr<DetectionImageFrame::ImageFilter> SegmentationConfig::loadASCIIF
         kernel_width = kernel_data.size();
         state = LoadState::STATE_OTHER_LINES;
         break;
-      case LoadState::STATE_OTHER_LINES:
+      case LoadState::STATE_OTHER_LINES: {
+        auto size_before = kernel_data.size();
         extractValues(line_stream, kernel_data);
+        if (kernel_data.size() - size_before != kernel_width) {
+          throw Elements::Exception() << "Malformed segmentation filter: the rows have different widths";
+        }
         break;
       }
+      }
   }
 
   // compute the dimensions and create the kernel
-- 
2.43.0


From e1391fa5003cabcdecd7452a3caaf48cf8d269e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:21 +0000
Subject: [PATCH 51/61] fix: a DFT convolution with a kernel of even size does
 not depend on the padding

---
 SEFramework/SEFramework/Convolution/DFT.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/SEFramework/SEFramework/Convolution/DFT.h b/SEFramework/SEFramework/Convolution/DFT.h
index 2385ac5..289e491 100644
--- a/SEFramework/SEFramework/Convolution/DFT.h
+++ b/SEFramework/SEFramework/Convolution/DFT.h
@@ -222,9 +222,10 @@ public:
 protected:
   void padKernel(ConvolutionContext& context) const {
     auto padded = PaddedImage<T>::create(m_kernel, context.m_padded_width, context.m_padded_height);
-    auto center = PixelCoordinate{context.m_padded_width / 2, context.m_padded_height / 2};
-    if (context.m_padded_width % 2 == 0) center.m_x--;
-    if (context.m_padded_height % 2 == 0) center.m_y--;
+    // The center must not depend on the padding, even if the size of the kernel is even
+    auto center = PixelCoordinate{(context.m_padded_width - m_kernel->getWidth()) / 2 + (m_kernel->getWidth() - 1) / 2,
+                                  (context.m_padded_height - m_kernel->getHeight()) / 2 + (m_kernel->getHeight() - 1) / 2};
+
     auto recenter = RecenterImage<T>::create(padded, center);
 
     dumpImage(recenter, context.m_kernel_transform);
-- 
2.43.0


From f94232b8a038424a2d2b9a818e6d6bab817bdd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:05 +0000
Subject: [PATCH 52/61] fix: without a number the columns of the assoc config
 file start with the first column of the catalog

---
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index e0d259d..fd28ca0 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -449,7 +449,7 @@ std::map<std::string, unsigned int>  AssocModeConfig::parseConfigFile(const std:
     }
 
     std::string line;
-    int current_column_nb = 1; // column indices start at 1
+    int current_column_nb = 0; // the internal index is 0-based
     while (std::getline(config_file, line)) {
       boost::trim(line);
       // Skip lines starting with '#'
-- 
2.43.0


From 70b5c9c064dd52171a9fa5d81e4baa65ba27e77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 53/61] fix: a column of the assoc config file that is not a
 number is refused

---
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index fd28ca0..ca02d80 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -465,7 +465,9 @@ std::map<std::string, unsigned int>  AssocModeConfig::parseConfigFile(const std:
           name = line.substr(0, equal_sign_pos);
           std::string number_string = line.substr(equal_sign_pos + 1);
           std::istringstream iss(number_string);
-          iss >> number;
+          if (!(iss >> number) || !(iss >> std::ws).eof()) {
+            throw Elements::Exception() << "Invalid column number in assoc config file: " << line;
+          }
           number--;
           current_column_nb = number + 1;
       } else {
-- 
2.43.0


From 2fa8849ac279d47479aacaf45521815e43dc8bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 54/61] fix: the association filter is applied after the
 attractors partition

---
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
index ca02d80..2524d40 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeConfig.cpp
@@ -30,6 +30,7 @@
 #include "SEImplementation/Configuration/DetectionImageConfig.h"
 #include "SEImplementation/Configuration/PartitionStepConfig.h"
 #include "SEImplementation/Configuration/MultiThresholdPartitionConfig.h"
+#include "SEImplementation/Configuration/AttractorsPartitionConfig.h"
 
 #include "SEImplementation/Plugin/AssocMode/AssocModePartitionStep.h"
 
@@ -122,6 +123,7 @@ AssocModeConfig::AssocModeConfig(long manager_id) : Configuration(manager_id), m
 
   // this is used to enforce the order the PartitionSteps are added and performed
   ConfigManager::getInstance(manager_id).registerDependency<AssocModeConfig, MultiThresholdPartitionConfig>();
+  ConfigManager::getInstance(manager_id).registerDependency<AssocModeConfig, AttractorsPartitionConfig>();
 }
 
 std::map<std::string, Configuration::OptionDescriptionList> AssocModeConfig::getProgramOptions() {
-- 
2.43.0


From 60d88f6bb56752caf619d8a7585e21f05bcafe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:21 +0000
Subject: [PATCH 55/61] fix: a matched source keeps the group and the size of
 its catalog entry

---
 SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
index 2be8afb..034f559 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
@@ -183,7 +183,8 @@ void AssocModeTask::computeProperties(SourceInterface &source) const {
     };
 
     auto assoc_data = assoc_mode_implementation_table.at(m_assoc_mode)(nearby_catalog_entries);
-    source.setProperty<AssocMode>(true, assoc_data.assoc_columns);
+    source.setProperty<AssocMode>(true, assoc_data.assoc_columns,
+        assoc_data.source_pixel_width, assoc_data.source_pixel_height, assoc_data.group_id);
   }
 }
 
-- 
2.43.0


From ec4f74efb1456c45dd24ad91335f8c164426ae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:46 +0000
Subject: [PATCH 56/61] fix: assoc mode FIRST takes the first matching entry of
 the catalog whatever its size

---
 .../Plugin/AssocMode/AssocModeTask.h          |  8 ++++-
 .../lib/Plugin/AssocMode/AssocModeTask.cpp    | 30 ++++++++++++++-----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
index d6cef7d..5074856 100644
--- a/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
+++ b/SEImplementation/SEImplementation/Plugin/AssocMode/AssocModeTask.h
@@ -41,8 +41,14 @@ public:
 
   void computeProperties(SourceInterface& source) const override;
 
+  /// A catalog entry along with its position in the catalog, as the KdTree reorders the entries
+  struct IndexedEntry {
+    AssocModeConfig::CatalogEntry entry;
+    size_t index;
+  };
+
 private:
-  std::vector<KdTree<AssocModeConfig::CatalogEntry>> m_catalogs;
+  std::vector<KdTree<IndexedEntry>> m_catalogs;
   AssocModeConfig::AssocMode m_assoc_mode;
   double m_radius;
 };
diff --git a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
index 034f559..28c084c 100644
--- a/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/AssocMode/AssocModeTask.cpp
@@ -33,12 +33,12 @@ namespace SourceXtractor {
 //////////////////////////////////////////////////////////////////////////////////////////
 
 template <>
-struct KdTreeTraits<AssocModeConfig::CatalogEntry> {
-  static double getCoord(const AssocModeConfig::CatalogEntry& t, size_t index) {
+struct KdTreeTraits<AssocModeTask::IndexedEntry> {
+  static double getCoord(const AssocModeTask::IndexedEntry& t, size_t index) {
     if (index == 0) {
-      return t.coord.m_x;
+      return t.entry.coord.m_x;
     } else {
-      return t.coord.m_y;
+      return t.entry.coord.m_y;
     }
   }
 };
@@ -149,13 +149,18 @@ AssocModeTask::AssocModeTask(const std::vector<std::vector<AssocModeConfig::Cata
                              AssocModeConfig::AssocMode assoc_mode, double radius) :
                              m_assoc_mode(assoc_mode), m_radius(radius) {
   for (auto& catalog : catalogs) {
-    m_catalogs.emplace_back(catalog);
+    std::vector<IndexedEntry> indexed_entries;
+    indexed_entries.reserve(catalog.size());
+    for (auto& entry : catalog) {
+      indexed_entries.emplace_back(IndexedEntry { entry, indexed_entries.size() });
+    }
+    m_catalogs.emplace_back(indexed_entries);
   }
 }
 
 void AssocModeTask::computeProperties(SourceInterface &source) const {
   using namespace std::placeholders;  // for _1, _2, _3...
-  using Tree = KdTree<AssocModeConfig::CatalogEntry>;
+  using Tree = KdTree<IndexedEntry>;
 
   // get the object center
   const auto& x = source.getProperty<PixelCentroid>().getCentroidX();
@@ -164,7 +169,18 @@ void AssocModeTask::computeProperties(SourceInterface &source) const {
   auto hdu_index = source.getProperty<DetectionFrameInfo>().getHduIndex();
   const auto& catalog = m_catalogs.at(hdu_index);
 
-  auto nearby_catalog_entries = catalog.findPointsWithinRadius(Tree::Coord { x, y }, m_radius);
+  auto nearby_indexed_entries = catalog.findPointsWithinRadius(Tree::Coord { x, y }, m_radius);
+
+  // restore the order of the catalog
+  std::sort(nearby_indexed_entries.begin(), nearby_indexed_entries.end(),
+      [](const IndexedEntry& a, const IndexedEntry& b) -> bool {
+          return a.index < b.index;
+      });
+  std::vector<AssocModeConfig::CatalogEntry> nearby_catalog_entries;
+  nearby_catalog_entries.reserve(nearby_indexed_entries.size());
+  for (auto& indexed_entry : nearby_indexed_entries) {
+    nearby_catalog_entries.emplace_back(indexed_entry.entry);
+  }
 
   if (nearby_catalog_entries.size() == 0) {
     // No match
-- 
2.43.0


From 1b3b1bbf153e900ad1b58dfbf2955606fce1c9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 57/61] fix: check images of every detection image have its
 size and coordinates

They were made with those of the first image; writing the segmentation of a larger one wrote outside of the file.
---
 SEImplementation/src/lib/CheckImages/CheckImages.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/CheckImages/CheckImages.cpp b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
index e047002..9271f29 100644
--- a/SEImplementation/src/lib/CheckImages/CheckImages.cpp
+++ b/SEImplementation/src/lib/CheckImages/CheckImages.cpp
@@ -109,8 +109,8 @@ void CheckImages::configure(Euclid::Configuration::ConfigManager& manager) {
   m_check_image_ml_detection.resize(detection_images_nb);
 
   for (size_t i = 0; i < detection_images_nb; i++) {
-    auto detection_image = manager.getConfiguration<DetectionImageConfig>().getDetectionImage();
-    auto coordinate_system = manager.getConfiguration<DetectionImageConfig>().getCoordinateSystem();
+    auto detection_image = manager.getConfiguration<DetectionImageConfig>().getDetectionImage(i);
+    auto coordinate_system = manager.getConfiguration<DetectionImageConfig>().getCoordinateSystem(i);
 
     m_detection_images.emplace_back(detection_image);
     m_coordinate_systems.emplace_back(coordinate_system);
-- 
2.43.0


From 78cbc7a4091e113f134bd549e392982531c8622c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:24 +0000
Subject: [PATCH 58/61] fix: iterative model fitting of a source outside of a
 frame asked an invalid rectangle for its corners, which aborts with
 assertions on

---
 .../FlexibleModelFittingIterativeTask.cpp              | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index 1e99d9e..eb6644a 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -131,6 +131,11 @@ PixelRectangle FlexibleModelFittingIterativeTask::getUnclippedFittingRect(Source
 
 PixelRectangle FlexibleModelFittingIterativeTask::clipFittingRect(PixelRectangle fitting_rect,
     SourceInterface& source, int frame_index) const {
+  // an invalid rectangle: the source is outside of the frame
+  if (fitting_rect.getWidth() <= 0 || fitting_rect.getHeight() <= 0) {
+    return PixelRectangle();
+  }
+
   const auto& frame_info = source.getProperty<MeasurementFrameInfo>(frame_index);
 
   auto min = fitting_rect.getTopLeft();
@@ -142,6 +147,11 @@ PixelRectangle FlexibleModelFittingIterativeTask::clipFittingRect(PixelRectangle
   max.m_x = std::min(max.m_x, frame_info.getWidth() - 1);
   max.m_y = std::min(max.m_y, frame_info.getHeight() - 1);
 
+  // nothing of it is inside the frame
+  if (min.m_x > max.m_x || min.m_y > max.m_y) {
+    return PixelRectangle();
+  }
+
   return PixelRectangle(min, max);
 }
 
-- 
2.43.0


From f654c12abc331a2bb78dcd776970efd8d61a3b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:22 +0000
Subject: [PATCH 59/61] fix: iterative model fitting lost the OUTSIDE and
 INSUFFICIENT_DATA flags and reported 0 for the other parameters of sources it
 could not fit

---
 .../FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index eb6644a..b6d754b 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -403,7 +403,7 @@ void FlexibleModelFittingIterativeTask::computeProperties(SourceGroupInterface&
             initial_state.parameters_values[free_parameter->getId()] = free_parameter->getInitialValue(source);
       } else {
         initial_state.parameters_initial_values[parameter->getId()] =
-            initial_state.parameters_values[parameter->getId()] = 0.0;
+            initial_state.parameters_values[parameter->getId()] = std::numeric_limits<double>::quiet_NaN();
       }
       // Make sure we have a default value for sigmas in case we cannot do the fit
       initial_state.parameters_sigmas[parameter->getId()] = std::numeric_limits<double>::quiet_NaN();
@@ -740,6 +740,7 @@ void FlexibleModelFittingIterativeTask::fitSource(SourceGroupInterface& group, S
 
   // Do not run the model fitting for the flags above
   if (flags != Flags::NONE) {
+    state.source_states[index].flags = flags;
     return;
   }
 
-- 
2.43.0


From 6d5b98f9e77092a1e0b8c786cb4f75aa9d7be3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:23 +0000
Subject: [PATCH 60/61] fix: parameters depending on a bounded parameter that
 could not be fitted were computed from its upper limit

---
 .../FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp  | 2 +-
 .../Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index b6d754b..b3d90fc 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -668,7 +668,7 @@ void FlexibleModelFittingIterativeTask::fitSourceUpdateState(
       // Need to cascade the NaN to any potential dependent parameter
       auto engine_parameter = std::dynamic_pointer_cast<EngineParameter>(modelfitting_parameter);
       if (engine_parameter) {
-        engine_parameter->setEngineValue(std::numeric_limits<double>::quiet_NaN());
+        engine_parameter->setValue(std::numeric_limits<double>::quiet_NaN());
       }
 
       flags |= Flags::PARTIAL_FIT;
diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp
index 4c6555c..fa4b8d4 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingTask.cpp
@@ -297,7 +297,7 @@ void FlexibleModelFittingTask::computeProperties(SourceGroupInterface& group) co
           // Need to cascade the NaN to any potential dependent parameter
           auto engine_parameter = std::dynamic_pointer_cast<EngineParameter>(modelfitting_parameter);
           if (engine_parameter) {
-            engine_parameter->setEngineValue(std::numeric_limits<double>::quiet_NaN());
+            engine_parameter->setValue(std::numeric_limits<double>::quiet_NaN());
           }
           parameter_values[parameter->getId()] = std::numeric_limits<double>::quiet_NaN();
           parameter_sigmas[parameter->getId()] = std::numeric_limits<double>::quiet_NaN();
-- 
2.43.0


From b867be5135f8534da10ce7aa294f9a9fa126cc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:00 +0000
Subject: [PATCH 61/61] fix: the model check image of iterative fitting was
 undefined around sources without enough data to fit

---
 .../FlexibleModelFittingIterativeTask.cpp                   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
index b3d90fc..7a247ac 100644
--- a/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
+++ b/SEImplementation/src/lib/Plugin/FlexibleModelFitting/FlexibleModelFittingIterativeTask.cpp
@@ -806,7 +806,11 @@ void FlexibleModelFittingIterativeTask::updateCheckImages(SourceGroupInterface&
     index++;
   }
 
+  index = 0;
   for (auto& src : group) {
+    // there is no model for sources that could not be fitted
+    bool fitted = (state.source_states[index++].flags & (Flags::OUTSIDE | Flags::INSUFFICIENT_DATA)) == Flags::NONE;
+
     for (auto frame : m_frames) {
       int frame_index = frame->getFrameNb();
 
@@ -820,7 +824,7 @@ void FlexibleModelFittingIterativeTask::updateCheckImages(SourceGroupInterface&
 
         {
           auto debug_image = CheckImages::getInstance().getModelFittingImage(frame_index);
-          if (debug_image) {
+          if (debug_image && fitted) {
             ImageAccessor<SeFloat> debug_accessor(debug_image);
             for (int x = 0; x < final_stamp->getWidth(); x++) {
               for (int y = 0; y < final_stamp->getHeight(); y++) {
-- 
2.43.0


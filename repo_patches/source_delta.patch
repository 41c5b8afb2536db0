From eb43ac8183b1811f7b1e83aa4f173f1d768f5123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:54:17 +0000
Subject: [PATCH 01/44] fix: allow FinishAllComputations to be called more than
 once

---
 builder/map_builder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 513bfea..bf9491c 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -719,7 +719,7 @@ void MapBuilder::FinishAllComputations() {
   size_t remaining_pointcloud_count = data_collector_->GetRemainingCloudSize();
   int delay = 0;
   SimpleTime delay_time = SimpleTime::FromSec(0.1);
-  if (scan_match_thread_) {
+  if (scan_match_thread_ && scan_match_thread_->joinable()) {
     do {
       delay_time.Sleep();
       delay++;
-- 
2.43.0


From 899310b76079c7e6b4ea9ecff533c12feeca5488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:57:22 +0000
Subject: [PATCH 02/44] fix: register the scans still being pre-processed
 before finishing

---
 builder/data/data_collector.cc | 4 +++-
 builder/data/data_collector.h  | 4 ++++
 builder/map_builder.cc         | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 42461d3..26a040f 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -163,12 +163,13 @@ InnerCloudType::Ptr DataCollector::GetNewCloud() {
 
   auto ret = cloud_data_.front();
   cloud_data_.pop_front();
+  --remaining_cloud_count_;
   return ret;
 }
 
 size_t DataCollector::GetRemainingCloudSize() {
   Locker locker(mutex_[kPointCloudData]);
-  return cloud_data_.size();
+  return remaining_cloud_count_;
 }
 
 void DataCollector::AddSensorData(const OdomMsg& odom_msg) {
@@ -320,6 +321,7 @@ void DataCollector::TrimSensorData(const SensorDataType type,
 void DataCollector::ClearAllCloud() {
   Locker locker(mutex_[kPointCloudData]);
   // clear all source clouds
+  remaining_cloud_count_ -= cloud_data_.size();
   for (auto& inner_cloud : cloud_data_) {
     inner_cloud.reset();
   }
diff --git a/builder/data/data_collector.h b/builder/data/data_collector.h
index f5c7154..1c1fe65 100644
--- a/builder/data/data_collector.h
+++ b/builder/data/data_collector.h
@@ -119,6 +119,8 @@ class DataCollector {
   /// @brief output odom path to .pcd file for review
   void RawOdomDataToFile(const std::string& filename) const;
 
+  /// @brief number of the clouds not fetched by GetNewCloud() yet, including
+  /// the ones still waiting for or in the pre-processing
   size_t GetRemainingCloudSize();
   void ClearAllCloud();
 
@@ -136,6 +138,7 @@ class DataCollector {
 
   std::deque<InnerCloudType::Ptr> cloud_data_;
   std::deque<InnerCloudType::Ptr> cloud_data_before_preprocessing_;
+  size_t remaining_cloud_count_ = 0;
 
   bool kill_cloud_preprocessing_thread_ = false;
   std::thread cloud_processing_thread_;
@@ -208,6 +211,7 @@ void DataCollector::AddSensorData(
   Locker locker(mutex_[kPointCloudData]);
   accumulated_cloud_count_ = 0;
   cloud_data_before_preprocessing_.push_back(data_before_processing);
+  ++remaining_cloud_count_;
 }
 
 }  // namespace data
diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index bf9491c..5a120be 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -269,7 +269,8 @@ void MapBuilder::ScanMatchProcessing() {
   while (true) {
     auto new_inner_cloud = data_collector_->GetNewCloud();
     if (new_inner_cloud == nullptr) {
-      if (end_all_thread_.load()) {
+      if (end_all_thread_.load() &&
+          data_collector_->GetRemainingCloudSize() == 0) {
         break;
       }
       SimpleTime::FromSec(0.005).Sleep();
-- 
2.43.0


From bcfff11362902c122f7b04b906dbf3a6ff38910d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:02:24 +0000
Subject: [PATCH 03/44] fix: do not lose frames and submaps added while a stage
 is ending

---
 builder/map_builder.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 5a120be..bd6d201 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -453,9 +453,12 @@ void MapBuilder::ConnectAllSubmap() {
   submaps_to_connect.reserve(20);
   bool first_inserted = false;
   while (true) {
+    // The flag must be read first, otherwise the submaps added between reading
+    // the size and the flag will be lost.
+    const bool all_submaps_added = submap_processing_done_.load();
     int submap_size = current_trajectory_->size();
     if (submap_size == 0 || submap_size - 1 == current_finished_index) {
-      if (submap_processing_done_.load()) {
+      if (all_submaps_added) {
         break;
       }
       SimpleTime::FromSec(0.1).Sleep();
@@ -660,9 +663,12 @@ void MapBuilder::SubmapProcessing() {
   submap_match_thread_pool.enqueue([&]() { ConnectAllSubmap(); });
 
   while (true) {
+    // The flag must be read first, otherwise the frames added between reading
+    // the size and the flag will be lost.
+    const bool all_frames_added = !scan_match_thread_running_.load();
     const int frames_size = frames_.size();
     if (frames_size - current_index < submap_frame_count) {
-      if (!scan_match_thread_running_.load()) {
+      if (all_frames_added) {
         PRINT_INFO("no enough frames for new submap, quit");
         break;
       }
-- 
2.43.0


From f7e9964c46ae0ea3637de6e1119e62308153bc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:40 +0000
Subject: [PATCH 04/44] fix: do not use frames and submaps before they are
 completely inserted

---
 builder/map_builder.cc |  3 ++-
 builder/map_builder.h  |  3 +++
 builder/trajectory.h   | 17 +++++++++++++++++
 3 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index bd6d201..f8cc89b 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -226,6 +226,7 @@ void MapBuilder::InsertFrameForSubmap(InnerCloud::Ptr cloud_ptr,
   frame->SetTimeStamp(cloud_ptr->GetTime());
   frame->SetGlobalPose(global_pose);
   frames_.push_back(frame);
+  ready_frames_count_++;
 }
 
 namespace {
@@ -666,7 +667,7 @@ void MapBuilder::SubmapProcessing() {
     // The flag must be read first, otherwise the frames added between reading
     // the size and the flag will be lost.
     const bool all_frames_added = !scan_match_thread_running_.load();
-    const int frames_size = frames_.size();
+    const int frames_size = ready_frames_count_.load();
     if (frames_size - current_index < submap_frame_count) {
       if (all_frames_added) {
         PRINT_INFO("no enough frames for new submap, quit");
diff --git a/builder/map_builder.h b/builder/map_builder.h
index 0977d4c..8d5e9bb 100644
--- a/builder/map_builder.h
+++ b/builder/map_builder.h
@@ -256,6 +256,9 @@ class MapBuilder {
   std::shared_ptr<registrator::Interface> scan_matcher_ = nullptr;
   std::unique_ptr<std::thread> scan_match_thread_;
   tbb::concurrent_vector<std::shared_ptr<Frame>> frames_;
+  // The size of a concurrent_vector may include an element which is still being
+  // constructed, so count the completely inserted ones.
+  std::atomic<int> ready_frames_count_{0};
   std::atomic<bool> scan_match_thread_running_;
   bool got_first_point_cloud_ = false;
 
diff --git a/builder/trajectory.h b/builder/trajectory.h
index 027f35b..3893816 100644
--- a/builder/trajectory.h
+++ b/builder/trajectory.h
@@ -23,6 +23,7 @@
 #ifndef BUILDER_TRAJECTORY_H_
 #define BUILDER_TRAJECTORY_H_
 // stl
+#include <atomic>
 #include <memory>
 #include <string>
 #include <vector>
@@ -62,6 +63,21 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
   PROHIBIT_COPY_AND_ASSIGN(Trajectory);
 
   using Ptr = std::shared_ptr<Trajectory>;
+  using Base = tbb::concurrent_vector<std::shared_ptr<Submap>>;
+
+  // The size of a concurrent_vector may include an element which is still being
+  // constructed, so only the completely inserted submaps are made visible.
+  // Submaps are pushed by one single thread.
+  iterator push_back(const std::shared_ptr<Submap>& submap) {
+    const auto it = Base::push_back(submap);
+    ready_size_++;
+    return it;
+  }
+  size_type size() const { return ready_size_.load(); }
+  bool empty() const { return size() == 0; }
+  iterator end() { return begin() + size(); }
+  const_iterator end() const { return begin() + size(); }
+  std::shared_ptr<Submap>& back() { return (*this)[size() - 1]; }
 
   // Trajectory APIs
   void SetId(int id) { id_ = id; }
@@ -72,6 +88,7 @@ class Trajectory : public tbb::concurrent_vector<std::shared_ptr<Submap>> {
   void OutputPathToPointcloud(const std::string& path);
 
  private:
+  std::atomic<size_type> ready_size_{0};
   int id_;
   // @todo(edward) change to enu offset
   double enu_offset_x_ = 0.;
-- 
2.43.0


From 269fdf45702a0bcbb8c4bfe80854321a2dd24190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:05:25 +0000
Subject: [PATCH 05/44] fix: keep a submap cloud in memory while it is in use

---
 builder/submap.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/builder/submap.cc b/builder/submap.cc
index c643af4..c8cc019 100644
--- a/builder/submap.cc
+++ b/builder/submap.cc
@@ -230,7 +230,11 @@ bool Submap::UpdateInactiveTime(const int update_time_in_sec) {
   cloud_inactive_time_ += update_time_in_sec;
   if (cloud_inactive_time_ > options_.disk_saving_delay) {
     WriteMutexLocker write_locker(locker);
-    this->inner_cloud_->Clear();
+    // No one can get the cloud now, but it must stay in memory as long as it is
+    // used by someone who has got it before.
+    if (this->inner_cloud_.use_count() == 1) {
+      this->inner_cloud_->Clear();
+    }
   }
   return true;
 }
-- 
2.43.0


From 10c8f37ec49714c9ac01489ef7fccc19113e7aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 06/44] fix: refuse cloud files that end too early

A read that hits the end of the file counted as success, so a file cut
short produced a cloud with missing points filled with zeros.
---
 builder/data/cloud_types.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 67bc517..e0f95c0 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -155,7 +155,7 @@ int InnerPointType::Serialize(std::fstream* stream) const {
 int InnerPointType::Deserialize(std::fstream* stream) {
   if (stream && stream->is_open()) {
     stream->read(reinterpret_cast<char*>(this), sizeof(InnerPointType));
-    if (stream->good() || stream->eof()) {
+    if (stream->good()) {
       return sizeof(InnerPointType);
     } else {
       return -1;
@@ -446,7 +446,8 @@ bool InnerPointCloudData::CloudInMemory() {
     InnerCloudType::Ptr inner_cloud(new InnerCloudType);
     std::fstream bin_fs(filename_, std::ios::in | std::ios::binary);
     CHECK(bin_fs.is_open()) << "Could not open file: " << filename_;
-    inner_cloud->Deserialize(&bin_fs);
+    CHECK_GE(inner_cloud->Deserialize(&bin_fs), 0)
+        << "Broken file: " << filename_;
     bin_fs.close();
 
     SetInnerCloudImpl(inner_cloud);
-- 
2.43.0


From 2e798056c950e28d531edfe48d04fd4a46a47bbc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 07/44] fix: keep the size of converted clouds consistent

The converted cloud had points but width and height zero. A PCD file
written from it could not be read back.
---
 builder/data/cloud_types.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index e0f95c0..b9afbe4 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -280,7 +280,7 @@ void ToPclPointCloud(const InnerCloudType& cloud,
     for (const auto& point : cloud.points) {
       PointT pcl_point;
       ToPclPoint(point, &pcl_point);
-      pcl_cloud->points.push_back(pcl_point);
+      pcl_cloud->push_back(pcl_point);
     }
   }
 }
-- 
2.43.0


From a33b139fb78e64c7ce20b25a06834631d19f304c Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 08/44] fix: rotate normals without translating them

---
 builder/data/cloud_types.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index b9afbe4..1b04028 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -296,8 +296,7 @@ void EigenPointCloud::ApplyTransform(const Eigen::Matrix4d& transform) {
 
   if (normals.cols() > 0) {
     CHECK_EQ(normals.cols(), points_count);
-    homo_data.block(0, 0, 3, points_count) = normals;
-    normals = (transform * homo_data).block(0, 0, 3, points_count);
+    normals = (transform.block(0, 0, 3, 3) * normals).eval();
   }
 }
 
-- 
2.43.0


From 8d8024cdf51e7f2c66fa5026783a1ded5ff2fcdd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:56:40 +0000
Subject: [PATCH 09/44] fix: use the given transform in motion compensation

The loop variable hid the argument, so an uninitialised matrix was used.
---
 builder/data/cloud_types.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 1b04028..339fe05 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -308,11 +308,11 @@ void EigenPointCloud::ApplyMotionCompensation(
   CHECK_EQ(cloud_size, factors.size());
 
   for (size_t i = 0; i < cloud_size; ++i) {
-    const Eigen::Matrix4d transform = common::InterpolateTransform(
+    const Eigen::Matrix4d point_transform = common::InterpolateTransform(
         Eigen::Matrix4d::Identity().eval(), transform, factors[i]);
     const Eigen::Vector3d new_point_start =
-        transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
-        transform.block(0, 3, 3, 1);
+        point_transform.block(0, 0, 3, 3) * points.col(i).topRows(3) +
+        point_transform.block(0, 3, 3, 1);
     points.col(i).topRows(3) = new_point_start;
   }
 
-- 
2.43.0


From 1d069b8d21eeb4c4f92e0d4fda395f5e1abd2835 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 19:58:09 +0000
Subject: [PATCH 10/44] fix: allow appending a cloud to itself

The loop went on over storage that was freed when the cloud grew.
---
 builder/data/cloud_types.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 339fe05..7f0ca2f 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -247,8 +247,10 @@ void InnerCloudType::ApplyTransformToOutput(
 }
 
 InnerCloudType& InnerCloudType::operator+=(const InnerCloudType& b) {
-  for (const auto& point : b.points) {
-    this->points.push_back(point);
+  // "b" may be this cloud itself.
+  const size_t size = b.points.size();
+  for (size_t i = 0; i < size; ++i) {
+    this->points.push_back(b.points[i]);
   }
   return *this;
 }
-- 
2.43.0


From 5a0410b880dc7a22445ac50d0d0137661d772e0e Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Mon, 16 Nov 2026 20:03:54 +0000
Subject: [PATCH 11/44] fix: distance to a line whose direction is not a unit
 vector

---
 common/math.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/math.h b/common/math.h
index 9b34c27..2293ad3 100644
--- a/common/math.h
+++ b/common/math.h
@@ -215,8 +215,9 @@ double DistanceToLine(const Eigen::Matrix<double, N, 1>& point,
                       const Eigen::Matrix<double, N, 1>& origin,
                       const Eigen::Matrix<double, N, 1>& direction) {
   const Eigen::Matrix<double, N, 1> op = point - origin;
+  const Eigen::Matrix<double, N, 1> unit_direction = direction.normalized();
   const Eigen::Matrix<double, N, 1> oc =
-      op.dot(direction) * direction.normalized();
+      op.dot(unit_direction) * unit_direction;
   return (oc - op).norm();
 }
 
-- 
2.43.0


From f566313b384a692bb28771793e4bdf22ecc87dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:13 +0000
Subject: [PATCH 12/44] fix: report every kept point once when a filter runs
 again

The axis range and random sample filters keep all points with their default
settings. That path appended to the inliers of the previous run.
---
 pre_processors/filter_axis_range.cc    | 1 +
 pre_processors/filter_random_sample.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pre_processors/filter_axis_range.cc b/pre_processors/filter_axis_range.cc
index f25513c..0426464 100644
--- a/pre_processors/filter_axis_range.cc
+++ b/pre_processors/filter_axis_range.cc
@@ -50,6 +50,7 @@ void AxisRange::Filter(const data::InnerCloudType::Ptr& cloud) {
   if (min_ == -std::numeric_limits<float>::max() &&
       max_ == std::numeric_limits<float>::max()) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
diff --git a/pre_processors/filter_random_sample.cc b/pre_processors/filter_random_sample.cc
index 5c5c68d..1e1797f 100644
--- a/pre_processors/filter_random_sample.cc
+++ b/pre_processors/filter_random_sample.cc
@@ -43,6 +43,7 @@ void RandomSampler::Filter(const data::InnerCloudType::Ptr& cloud) {
   }
   if (sampling_rate_ > 0.999) {
     *cloud = *this->inner_cloud_;
+    this->inliers_.clear();
     for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
       this->inliers_.push_back(i);
     }
-- 
2.43.0


From 0c698e932668949fc99b224f13ab29b214732934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:13 +0000
Subject: [PATCH 13/44] fix: start every range image filtering with an empty
 image

Filtering the same cloud a second time removed all of its points.
The image still held the pixels of the first run.
---
 pre_processors/filter_range_image.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index a54ccbc..5b0add6 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -86,6 +86,8 @@ void RangeImage::Filter(const data::InnerCloudType::Ptr &cloud) {
   }
 
   this->FilterPrepare(cloud);
+  map_image_.clear();
+  matrix_image_.setZero();
   const float image_horizontal_res =
       M_PI * 2 / static_cast<float>(horizontal_line_num_);
   const float image_vertical_res = (top_angle_ - btm_angle_) /
-- 
2.43.0


From f25b12f68ddf05194b9ce5e99d0b9db909c25973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:13 +0000
Subject: [PATCH 14/44] fix: report the points of sparse voxels in ground
 removal

Points in voxels with too few points were removed but listed neither as
inliers nor as outliers. The output was in voxel order although the inliers
are sorted. It now has the order of the inliers.
---
 pre_processors/filter_ground_removal.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_ground_removal.cc b/pre_processors/filter_ground_removal.cc
index b2f9ef1..d2512d2 100644
--- a/pre_processors/filter_ground_removal.cc
+++ b/pre_processors/filter_ground_removal.cc
@@ -75,6 +75,9 @@ void GroundRemoval::Filter(const data::InnerCloudType::Ptr& cloud) {
     auto& index = index_vector.first;
     auto& vector = index_vector.second;
     if ((int32_t)vector.size() < min_point_num_in_voxel_) {
+      for (auto& i : vector) {
+        this->outliers_.push_back(i);
+      }
       continue;
     }
     bool is_ground = false;
@@ -102,12 +105,14 @@ void GroundRemoval::Filter(const data::InnerCloudType::Ptr& cloud) {
     if (!is_ground) {
       for (auto& i : vector) {
         this->inliers_.push_back(i);
-        cloud->points.push_back(this->inner_cloud_->points[i]);
       }
     }
   }
   std::sort(this->inliers_.begin(), this->inliers_.end());
   std::sort(this->outliers_.begin(), this->outliers_.end());
+  for (auto& i : this->inliers_) {
+    cloud->points.push_back(this->inner_cloud_->points[i]);
+  }
 }
 
 }  // namespace filter
-- 
2.43.0


From b0a21c1e5265646f6602131ce5431a6a5aa759af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:13 +0000
Subject: [PATCH 15/44] fix: remove ground points that lie exactly on the
 fitted line

A distance below zero means that no line was found. A distance of zero was
treated the same way, so points exactly on the line were kept.
---
 pre_processors/filter_ground_removal2.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pre_processors/filter_ground_removal2.cc b/pre_processors/filter_ground_removal2.cc
index 832db9b..fa809d8 100644
--- a/pre_processors/filter_ground_removal2.cc
+++ b/pre_processors/filter_ground_removal2.cc
@@ -372,12 +372,12 @@ void GroundRemoval2::ClusterGround(const std::vector<Segment>& segments,
 
             distance =
                 VerticalDistanceToSegment(point, segments.at(can_seg_index));
-            if (distance > 0.) {
+            if (distance >= 0.) {
               break;
             }
           }
         }
-        if (distance > 0. && distance <= max_dist_to_line_) {
+        if (distance >= 0. && distance <= max_dist_to_line_) {
           // this is a ground removal filter
           // so, if you found a point on ground
           // you should add it into outliers
-- 
2.43.0


From 6ae0a86ccc5be86a30e95c13326d609b1b1509a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:13 +0000
Subject: [PATCH 16/44] fix: do not put a flag per point on the stack in the
 range filter

A cloud with more points than the stack has bytes ended the program.
---
 pre_processors/filter_range.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_range.cc b/pre_processors/filter_range.cc
index b7e7a4e..0bf5e4d 100644
--- a/pre_processors/filter_range.cc
+++ b/pre_processors/filter_range.cc
@@ -23,6 +23,7 @@
 #include "pre_processors/filter_range.h"
 
 #include <limits>
+#include <vector>
 
 namespace static_map {
 namespace pre_processers {
@@ -51,7 +52,7 @@ void Range::Filter(const data::InnerCloudType::Ptr& cloud) {
   this->FilterPrepare(cloud);
   const int size = this->inner_cloud_->points.size();
   // Do not use std::vector<bool>, it's not thread safe in omp threads.
-  bool is_inlier[size];  // NOLINT
+  std::vector<uint8_t> is_inlier(size, 0);
   // TODO(edward) more test on the efficiency
 #ifdef _OPENMP
 #pragma omp parallel for num_threads(LOCAL_OMP_THREADS_NUM)
-- 
2.43.0


From 1eaea507d79391183464a45cb9b61edcd8b786bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:12:13 +0000
Subject: [PATCH 17/44] fix: let the statistic removal filter pass its input on

The filter is not implemented and left its output untouched. As the first
filter of a chain it lost the whole cloud and its time.
---
 pre_processors/filter_statistic_removal.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pre_processors/filter_statistic_removal.cc b/pre_processors/filter_statistic_removal.cc
index 451fe40..f9b29fb 100644
--- a/pre_processors/filter_statistic_removal.cc
+++ b/pre_processors/filter_statistic_removal.cc
@@ -55,7 +55,12 @@ void StatisticRemoval::Filter(const data::InnerCloudType::Ptr &cloud) {
   // sor.filter(*cloud);
   // TODO(edward) implement statistic removal upon inner cloud type
 
-  // @todo inliers and outliers
+  // until then, keep all the points
+  this->FilterPrepare(cloud);
+  cloud->points = this->inner_cloud_->points;
+  for (int i = 0; i < this->inner_cloud_->points.size(); ++i) {
+    this->inliers_.push_back(i);
+  }
 }
 
 }  // namespace filter
-- 
2.43.0


From 47230fb4d3b5f236b81ab2c54f6d6daa797e23bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:29 +0000
Subject: [PATCH 18/44] fix: write map files with the right number of points

The output cloud was filled without updating its width and height.
The saved file announced no points and could not be read back.
---
 builder/multi_resolution_voxel_map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 4917d30..15861dd 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -158,7 +158,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
           }
           pcl::PointXYZI pcl_point;
           data::ToPclPoint(point, &pcl_point);
-          cloud->points.push_back(pcl_point);
+          cloud->push_back(pcl_point);
         }
       }
     }
@@ -206,7 +206,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
           rgb_point.y = point.y;
           rgb_point.z = point.z;
           rgb_point.r = rgb_point.g = rgb_point.b = rgb;
-          cloud->points.push_back(rgb_point);
+          cloud->push_back(rgb_point);
         }
       }
     }
-- 
2.43.0


From 2025b07564e5c50ddc2c287a5c29b113dce42402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:32:29 +0000
Subject: [PATCH 19/44] fix: do not wrap the occupancy threshold of the voxel
 map

A threshold of one became zero when it was stored in a byte, so every cell
was output instead of none.
---
 builder/multi_resolution_voxel_map.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 15861dd..9d6ff4f 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -129,7 +129,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-  const Probability prob_threshold = threshold * kTableSize;
+  const int prob_threshold = threshold * kTableSize;
   for (auto& high_res_voxel : high_resolution_voxels_) {
     if (high_res_voxel.second.probability >= prob_threshold) {
       CHECK(!high_res_voxel.second.points.empty());
@@ -174,7 +174,7 @@ void MultiResolutionVoxelMap::OutputToPointCloud(
   }
   cloud->clear();
   cloud->points.reserve(high_resolution_voxels_.size());
-  const Probability prob_threshold = threshold * kTableSize;
+  const int prob_threshold = threshold * kTableSize;
   for (auto& high_res_voxel : high_resolution_voxels_) {
     if (high_res_voxel.second.probability >= prob_threshold) {
       CHECK(!high_res_voxel.second.points.empty());
-- 
2.43.0


From 2794445257f5e11fa4484ddfa01f3505eaa516ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:43:34 +0000
Subject: [PATCH 20/44] fix: make updates of a voxel by several threads atomic

The occupancy of a cell, its highest intensity and the limit on its number of
points were read and written in separate steps. Points handled by different
threads at the same time lost updates or exceeded the limit.
---
 builder/multi_resolution_voxel_map.cc | 23 +++++++++++++----------
 builder/multi_resolution_voxel_map.h  |  9 +++++++--
 common/atomic_wrapper.h               |  6 ++++++
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/builder/multi_resolution_voxel_map.cc b/builder/multi_resolution_voxel_map.cc
index 9d6ff4f..d76bcbe 100644
--- a/builder/multi_resolution_voxel_map.cc
+++ b/builder/multi_resolution_voxel_map.cc
@@ -67,6 +67,12 @@ void MultiResolutionVoxelMap::InsertPointCloud(
     odd += hit ? hit_log_odd : miss_log_odd;
     return Clamp(OddToProbability(odd), kMinProb, kMaxProb);
   };
+  auto update_voxel = [&](AtomicProbability* prob, bool hit) {
+    Probability former = *prob;
+    while (!prob->CompareExchange(
+        &former, (Probability)(update_prob(former, hit) * kTableSize))) {
+    }
+  };
 
   size_t point_index = 0;
   const size_t cloud_size = cloud->points.size();
@@ -89,15 +95,13 @@ void MultiResolutionVoxelMap::InsertPointCloud(
       end_voxels[high_end_index] = true;
 
       auto& voxel = high_resolution_voxels_[high_end_index];
-      auto& prob = voxel.probability;
-      // TODO(edward) actually this compare and store is not atomic operaion.
-      // Try to find another way to achieve this.
-      if (static_cast<int>(point.intensity) >
-          static_cast<int>(voxel.max_intensity)) {
-        voxel.max_intensity = static_cast<int>(point.intensity);
+      const int32_t intensity = static_cast<int>(point.intensity);
+      int32_t max_intensity = voxel.max_intensity;
+      while (intensity > max_intensity &&
+             !voxel.max_intensity.CompareExchange(&max_intensity, intensity)) {
       }
-      prob = (Probability)(update_prob(prob, true) * kTableSize);
-      if (voxel.points.size() < settings_.max_point_num_in_cell) {
+      update_voxel(&voxel.probability, true);
+      if (voxel.point_num++ < settings_.max_point_num_in_cell) {
         FATAL_CHECK_POINT(point);
         voxel.points.push_back(point);
       }
@@ -110,8 +114,7 @@ void MultiResolutionVoxelMap::InsertPointCloud(
                 high_resolution_voxels_.end() &&
             high_resolution_voxels_[high_index].need_update == kTrue) {
           // update the probability
-          auto& prob = high_resolution_voxels_[high_index].probability;
-          prob = (Probability)(update_prob(prob, false) * kTableSize);
+          update_voxel(&high_resolution_voxels_[high_index].probability, false);
         }
       }
     }
diff --git a/builder/multi_resolution_voxel_map.h b/builder/multi_resolution_voxel_map.h
index 13bc44a..34ca17b 100644
--- a/builder/multi_resolution_voxel_map.h
+++ b/builder/multi_resolution_voxel_map.h
@@ -80,6 +80,7 @@ class MultiResolutionVoxelMap {
   // should use AtomicWrapper<bool> directly.
   using AtomicBool = common::AtomicWrapper<int8_t>;
   using AtomicInt = common::AtomicWrapper<int32_t>;
+  using AtomicProbability = common::AtomicWrapper<Probability>;
   template <typename T>
   using VoxelMap =
       tbb::concurrent_unordered_map<KeyInt3, T, std::hash<KeyInt3>>;
@@ -118,10 +119,14 @@ class MultiResolutionVoxelMap {
  private:
   struct HighResolutionVoxel {
     HighResolutionVoxel()
-        : probability(kUnknown), need_update(kTrue), max_intensity(0) {}
-    Probability probability;
+        : probability(kUnknown),
+          need_update(kTrue),
+          max_intensity(0),
+          point_num(0) {}
+    AtomicProbability probability;
     AtomicBool need_update;
     AtomicInt max_intensity;
+    AtomicInt point_num;
     PointVector points;
   };
 
diff --git a/common/atomic_wrapper.h b/common/atomic_wrapper.h
index b9d0ef3..91b35a0 100644
--- a/common/atomic_wrapper.h
+++ b/common/atomic_wrapper.h
@@ -50,6 +50,12 @@ class AtomicWrapper {
 
   operator T();
 
+  /// @brief Stores desired if the value is *expected, otherwise loads the value
+  /// into *expected.
+  bool CompareExchange(T* expected, const T& desired) {
+    return atom_.compare_exchange_strong(*expected, desired);
+  }
+
   /// @brief Pre-increment
   template <std::enable_if_t<std::is_integral<T>::value, bool> = true>
   T operator++() {
-- 
2.43.0


From 60fd00390c59f43e8c7eecba2dcc70314b2ff9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:55:31 +0000
Subject: [PATCH 21/44] fix: write the points of map package pieces

The points of a piece were added without updating the size of its cloud, so
every piece file claimed to hold no points.
---
 builder/map_package.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/map_package.cc b/builder/map_package.cc
index fd080c0..3147c0c 100644
--- a/builder/map_package.cc
+++ b/builder/map_package.cc
@@ -193,7 +193,7 @@ bool SaveTrajectoriesAsMapPackage(
                         part.bb_max)) {
           point.x -= part.center[0];
           point.y -= part.center[1];
-          part.cloud->points.push_back(point);
+          part.cloud->push_back(point);
         }
       }
 
-- 
2.43.0


From a86da729b173847f15bb3b9a125a9c77ea139283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:50 +0000
Subject: [PATCH 22/44] fix: do not return outdated predictions after a new
 pose

A prediction was kept for its time even after a pose of that time was added.
With inertial data, predicting right after the first pose used a missing
tracker and crashed.
---
 builder/pose_extrapolator.cc | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index be3ff6a..7414183 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -90,12 +90,9 @@ SimpleTime PoseExtrapolator::GetLastExtrapolatedTime() {
 void PoseExtrapolator::AddPose(const SimpleTime time, const RigidPose3d& pose) {
   common::MutexLocker locker(&mutex_);
   timed_pose_queue_.emplace_back(time, pose);
-  if (timed_pose_queue_.size() == 1u) {
-    // It's the first pose and the only pose.
-    cached_extrapolated_pose_.time = time;
-    cached_extrapolated_pose_.pose = pose;
-    return;
-  }
+  // Predictions made before are outdated, at 'time' it is the new pose.
+  cached_extrapolated_pose_.time = time;
+  cached_extrapolated_pose_.pose = pose;
 
   while (timed_pose_queue_.size() > 2 &&
          timed_pose_queue_[1].time <= time - pose_queue_duration_) {
-- 
2.43.0


From 04477fcdabf589187ec3665fb8255c58ea167ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:49 +0000
Subject: [PATCH 23/44] fix: let the default configuration start

Without a usable configuration file the builder announces the defaults and
then aborted, because the default IMU frequency failed its own range check.
---
 builder/map_builder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/builder/map_builder.h b/builder/map_builder.h
index 8d5e9bb..f072abf 100644
--- a/builder/map_builder.h
+++ b/builder/map_builder.h
@@ -72,7 +72,7 @@ struct Options {
   struct {
     bool enabled = true;
     data::ImuType type = data::ImuType::kNormalImu;
-    float frequency = 0.f;
+    float frequency = 100.f;
     float gravity_constant = 9.8f;
   } imu_options;
 
-- 
2.43.0


From 42af55db5768e81c37a747dfa20107ca52b6aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:19:49 +0000
Subject: [PATCH 24/44] fix: refuse a loop detector that may look at no
 candidate

With nearest_history_pos_num below 1 the first loop candidate divided by zero.
---
 builder/map_builder_options.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/builder/map_builder_options.cc b/builder/map_builder_options.cc
index f3ebe7d..e984ecc 100644
--- a/builder/map_builder_options.cc
+++ b/builder/map_builder_options.cc
@@ -62,6 +62,9 @@ void CheckOptions(const MapBuilderOptions& options) {
         options.back_end_options.loop_detector_setting.use_descriptor)
       << "You should selete at least one way to do loop detect: use gps or "
          "descriptor or both.";
+  CHECK_GE(
+      options.back_end_options.loop_detector_setting.nearest_history_pos_num,
+      1);
   CHECK_GE(options.front_end_options.accumulate_cloud_num, 1);
   CHECK_GT(options.output_mrvm_settings.hit_prob, 0.5);
   CHECK_LT(options.output_mrvm_settings.miss_prob, 0.5);
-- 
2.43.0


From 8bf76a264a873aa5ec702d19f9bc8b8667d900af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:59 +0000
Subject: [PATCH 25/44] fix: end the pre-processing of scans before destroying
 the filters

A scan that arrives while finishing could still be in the pre-processing
thread when the filters it uses were destroyed.
---
 builder/map_builder.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index f8cc89b..5b39fd1 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -57,7 +57,11 @@ MapBuilder::MapBuilder()
       submap_processing_done_(false),
       scan_match_thread_running_(false) {}
 
-MapBuilder::~MapBuilder() {}
+MapBuilder::~MapBuilder() {
+  // The pre-processing thread of the collector uses the filters, it must end
+  // before they are destroyed.
+  data_collector_.reset();
+}
 
 int MapBuilder::InitialiseInside() {
   PRINT_INFO("Init scan matchers.");
-- 
2.43.0


From bb66afc1b558c4f486ce00e70b553965a54b65c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:20 +0000
Subject: [PATCH 26/44] fix: skip scans without any point

A scan that is empty, or that the filters leave nothing of, aborted the
whole mapping session. It is now skipped with a warning.
---
 builder/map_builder.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 5b39fd1..0f09e77 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -282,6 +282,11 @@ void MapBuilder::ScanMatchProcessing() {
       continue;
     }
 
+    if (new_inner_cloud->points.empty()) {
+      PRINT_WARNING("skip empty cloud.");
+      continue;
+    }
+
     source_cloud.reset(new InnerCloud(new_inner_cloud));
     const auto source_time = source_cloud->GetTime();
     if (!got_first_point_cloud_) {
-- 
2.43.0


From 76f4cb93dcf87c36ae926745b2e7effc67e806ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:20 +0000
Subject: [PATCH 27/44] fix: do not match against a scan older than the last
 pose

A scan with an older time stamp than the last registered one became the
target of the next registration although no pose was known for it. All
following poses were wrong by the motion between the two scans.
---
 builder/map_builder.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/map_builder.cc b/builder/map_builder.cc
index 0f09e77..f2e67e2 100644
--- a/builder/map_builder.cc
+++ b/builder/map_builder.cc
@@ -305,8 +305,9 @@ void MapBuilder::ScanMatchProcessing() {
 
     REGISTER_BLOCK("FrontEndOneFrame");
     if (extrapolator_ && source_time < extrapolator_->GetLastPoseTime()) {
+      // It is older than the last pose, there is no pose for it and it can not
+      // be the target of the following clouds.
       PRINT_INFO("Extrapolator still initialising...");
-      target_cloud = source_cloud;
       continue;
     }
 
-- 
2.43.0


From 9638c0320d9d701b4760d6fcb1f982f42315a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:45:45 +0000
Subject: [PATCH 28/44] fix: refuse a descriptor for less than three points

The principal component analysis throws for less than three points. The
exception ended the whole mapping session.
---
 descriptor/m2dp.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/descriptor/m2dp.cc b/descriptor/m2dp.cc
index 57e6342..43a4b38 100644
--- a/descriptor/m2dp.cc
+++ b/descriptor/m2dp.cc
@@ -120,8 +120,9 @@ Eigen::VectorXi M2dp::singleViewProcess(double theta, double phi) {
 }
 
 bool M2dp::setInputCloud(const data::InnerCloudType::Ptr& source) {
-  if (source->points.empty()) {
-    PCL_ERROR("source is empty.\n");
+  // The principal axes are only defined by 3 or more points.
+  if (source->points.size() < 3) {
+    PCL_ERROR("source has less than 3 points.\n");
     return false;
   }
 
-- 
2.43.0


From f7c063ef02d44b90d699864692e0de8c59ab395f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:47:54 +0000
Subject: [PATCH 29/44] fix: let an empty scan pass the filters

The filters leave the output untouched for an empty scan. Its time stamp
then differed from the scan and the check for it ended the process.
---
 builder/data/data_collector.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 26a040f..2ebd0fa 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -136,6 +136,8 @@ void DataCollector::CloudPreProcessing() {
 
     // filtering cloud
     InnerCloudType::Ptr filtered_cloud(new InnerCloudType);
+    // The filters do nothing for an empty cloud.
+    filtered_cloud->stamp = data->stamp;
     filter_factory_->SetInputCloud(data);
     filter_factory_->Filter(filtered_cloud);
     CHECK(data->stamp == filtered_cloud->stamp);
-- 
2.43.0


From 50d63b0145e419e9415d567e2dec4cbb0ed9665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:28 +0000
Subject: [PATCH 30/44] fix: skip outdated imu data instead of aborting

---
 builder/pose_extrapolator.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/builder/pose_extrapolator.cc b/builder/pose_extrapolator.cc
index 7414183..2a1e5df 100644
--- a/builder/pose_extrapolator.cc
+++ b/builder/pose_extrapolator.cc
@@ -123,8 +123,15 @@ void PoseExtrapolator::AddImuData(const data::ImuMsg& imu_data) {
     return;
   }
   common::MutexLocker locker(&mutex_);
-  CHECK(timed_pose_queue_.empty() ||
-        imu_data.header.stamp >= timed_pose_queue_.back().time);
+  // Imu data and poses come from different threads, so it depends on the timing
+  // which one is first. Data that comes too late or out of order is useless.
+  if ((!timed_pose_queue_.empty() &&
+       imu_data.header.stamp < timed_pose_queue_.back().time) ||
+      (!imu_data_.empty() &&
+       imu_data.header.stamp < imu_data_.back().header.stamp)) {
+    LOG(WARNING) << "Skip outdated imu data.";
+    return;
+  }
   imu_data_.push_back(imu_data);
   TrimImuData();
 }
-- 
2.43.0


From 4ae23abf9cf70623ff89a4247325c91a53b30b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:06:28 +0000
Subject: [PATCH 31/44] fix: skip gps data with a repeated or older time stamp

---
 builder/data/data_collector.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/builder/data/data_collector.cc b/builder/data/data_collector.cc
index 2ebd0fa..3a90708 100644
--- a/builder/data/data_collector.cc
+++ b/builder/data/data_collector.cc
@@ -104,8 +104,9 @@ void DataCollector::AddSensorData(const NavSatFixMsg& navsat_msg) {
       navsat_msg.latitude, navsat_msg.longtitude, navsat_msg.altitude,
       data.enu_position[0], data.enu_position[1], data.enu_position[2]);
 
-  if (!gps_data_.empty()) {
-    CHECK(data.time > gps_data_.back().time);
+  if (!gps_data_.empty() && data.time <= gps_data_.back().time) {
+    PRINT_WARNING("skip gps data which is not newer than the last one.");
+    return;
   }
   gps_data_.push_back(data);
 
-- 
2.43.0


From f71e239f53be127ea3439bfe8cf3a3431ab50a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:16:32 +0000
Subject: [PATCH 32/44] fix: let the score of the ndt registrator grow with the
 quality of the match

---
 registrators/ndt.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/registrators/ndt.cc b/registrators/ndt.cc
index 74d6520..96e3ae2 100644
--- a/registrators/ndt.cc
+++ b/registrators/ndt.cc
@@ -21,6 +21,9 @@
 // SOFTWARE.
 
 #include "registrators/ndt.h"
+
+#include <cmath>
+
 #include "pclomp/voxel_grid_covariance_omp_impl.hpp"
 
 namespace static_map {
@@ -57,7 +60,9 @@ bool Ndt::Align(const Eigen::Matrix4d& guess,
       new pcl::PointCloud<pcl::PointXYZ>);
   inner_matcher_.align(*aligned_cloud, guess.cast<float>());
 
-  this->final_score_ = inner_matcher_.getFitnessScore();
+  // The fitness score of pcl is the mean squared distance (the smaller the
+  // better), while the score of a registrator is the bigger the better.
+  this->final_score_ = std::exp(-inner_matcher_.getFitnessScore());
   result = inner_matcher_.getFinalTransformation().template cast<double>();
 
   return true;
-- 
2.43.0


From 61ffedec29033b3e4a0e34ea133342824511c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:21:58 +0000
Subject: [PATCH 33/44] fix: estimate the normal of a plane through the origin

---
 builder/data/cloud_types.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 7f0ca2f..ff112f8 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -92,6 +92,12 @@ void CalculateNormals(EigenPointCloud* const data, const int first,
   }
 
   Eigen::VectorXd normal = M_wave.inverse() * Eigen::VectorXd(b_wave);
+  if (!normal.allFinite()) {
+    // The method above has no solution for a plane through the origin.
+    normal = Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d>(C)
+                 .eigenvectors()
+                 .col(0);
+  }
 
   // sampling in a simple way
   // use just one point in a box
-- 
2.43.0


From 4cc0d8d1136ceb0c2ec39ac77d5df2929ced5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:55:46 +0000
Subject: [PATCH 34/44] fix: do not keep the points of the last cloud in a
 descriptor

---
 descriptor/m2dp.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/descriptor/m2dp.cc b/descriptor/m2dp.cc
index 43a4b38..ae1d60a 100644
--- a/descriptor/m2dp.cc
+++ b/descriptor/m2dp.cc
@@ -54,6 +54,8 @@ void M2dp::preProcess(const data::InnerCloudType::Ptr& source) {
       new pcl::PointCloud<pcl::PointXYZ>);
   pca.project(*pcl_cloud, *tmp_inner_cloud);
 
+  // Do not keep the points of the last input.
+  inner_cloud_->points.clear();
   for (auto& point : tmp_inner_cloud->points) {
     double d = getLength<pcl::PointXYZ>(point);
     if (d <= max_distance_) {
-- 
2.43.0


From e55143f79087821df335d61530e1ba13a3fe7956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:38:54 +0000
Subject: [PATCH 35/44] fix: report whether a folder exists after creating it

---
 common/file_utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/file_utils.cc b/common/file_utils.cc
index 912b174..7ff7dbb 100644
--- a/common/file_utils.cc
+++ b/common/file_utils.cc
@@ -54,7 +54,10 @@ bool CreateDir(const std::string& path) {
       boost::filesystem::exists(path_without_slash)) {
     return true;
   }
-  return boost::filesystem::create_directories(path_without_slash);
+  // not the returned value: another thread may create the path meanwhile
+  boost::system::error_code error;
+  boost::filesystem::create_directories(path_without_slash, error);
+  return boost::filesystem::is_directory(path_without_slash, error);
 }
 
 std::vector<std::string> ListFilesInPath(const std::string& path) {
-- 
2.43.0


From a8634544cb5f3884ebc84b6808a867cbc196a2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:47 +0000
Subject: [PATCH 36/44] fix: report a cloud that could not be written

---
 builder/data/cloud_types.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index ff112f8..69bfd22 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -194,7 +194,8 @@ int InnerCloudType::Serialize(std::fstream* stream) const {
     for (const auto& point : points) {
       point.Serialize(stream);
     }
-    return 0;
+    stream->flush();
+    return stream->good() ? 0 : -1;
   }
   return -1;
 }
-- 
2.43.0


From a6374f6cd7ca533eaa923474760719868d4f9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:43:47 +0000
Subject: [PATCH 37/44] fix: calculate the normals again for a cloud loaded
 from file

---
 builder/data/cloud_types.cc | 5 +++++
 builder/data/cloud_types.h  | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/builder/data/cloud_types.cc b/builder/data/cloud_types.cc
index 69bfd22..f809792 100644
--- a/builder/data/cloud_types.cc
+++ b/builder/data/cloud_types.cc
@@ -415,12 +415,14 @@ void InnerPointCloudData::CalculateNormals() {
   // Use this carefully, this function is not locked.
   CHECK(eigen_cloud_);
   eigen_cloud_->CalculateNormals();
+  has_normals_ = true;
 }
 
 void InnerPointCloudData::SetInnerCloud(const InnerCloudType::Ptr cloud) {
   boost::upgrade_lock<common::ReadWriteMutex> locker(mutex_);
   common::WriteMutexLocker write_locker(locker);
   SetInnerCloudImpl(cloud);
+  has_normals_ = false;
 }
 
 void InnerPointCloudData::SetInnerCloudImpl(const InnerCloudType::Ptr cloud) {
@@ -459,6 +461,9 @@ bool InnerPointCloudData::CloudInMemory() {
     bin_fs.close();
 
     SetInnerCloudImpl(inner_cloud);
+    if (has_normals_) {
+      eigen_cloud_->CalculateNormals();
+    }
     is_cloud_in_memory_ = true;
     // PRINT_DEBUG("get submap data from disk.");
   }
diff --git a/builder/data/cloud_types.h b/builder/data/cloud_types.h
index 317f6ab..dfc7d20 100644
--- a/builder/data/cloud_types.h
+++ b/builder/data/cloud_types.h
@@ -190,6 +190,8 @@ class InnerPointCloudData {
   SimpleTime time_;
   std::string filename_;
   std::atomic<bool> is_cloud_in_memory_;
+  /// Normals are not saved, they are calculated again for a reloaded cloud.
+  bool has_normals_ = false;
 
   PROHIBIT_COPY_AND_ASSIGN(InnerPointCloudData);
 };
-- 
2.43.0


From 31f26b4b276ee15f7d3879db9593ecf332945da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:23:13 +0000
Subject: [PATCH 38/44] fix: average rotations relative to the first one

The angles of close rotations may differ by a whole turn.
Their plain average pointed the other way.
---
 common/math.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/common/math.cc b/common/math.cc
index afa07e1..4103fa6 100644
--- a/common/math.cc
+++ b/common/math.cc
@@ -180,15 +180,20 @@ Eigen::Rigid3::Transform<T> AverageTransforms(
   CHECK(!transforms.empty());
   Eigen::Rigid3::Eulers<T> angles(0, 0, 0);
   Eigen::Rigid3::Translation<T> translation(0, 0, 0);
+  // The angles are relative to the first rotation, the absolute ones of close
+  // rotations may differ by a whole turn.
+  const Eigen::Rigid3::Rotation<T> reference =
+      transforms.front().block(0, 0, 3, 3);
   for (const Eigen::Rigid3::Transform<T>& transform : transforms) {
     translation += transform.block(0, 3, 3, 1);
-    angles += RotationMatrixToEulerAngles(
-        Eigen::Rigid3::Rotation<T>(transform.block(0, 0, 3, 3)));
+    angles += RotationMatrixToEulerAngles(Eigen::Rigid3::Rotation<T>(
+        reference.transpose() * transform.block(0, 0, 3, 3)));
   }
   translation /= static_cast<T>(transforms.size());
   angles /= static_cast<T>(transforms.size());
   Eigen::Rigid3::Transform<T> result = Eigen::Rigid3::Transform<T>::Identity();
-  result.block(0, 0, 3, 3) = common::EulerAnglesToRotationMatrix(angles);
+  result.block(0, 0, 3, 3) =
+      reference * common::EulerAnglesToRotationMatrix(angles);
   result.block(0, 3, 3, 1) = translation;
 
   return result;
-- 
2.43.0


From d27891a989faab4481c27e1654baa38ece28e8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:24:49 +0000
Subject: [PATCH 39/44] fix: forget the clusters of the previous cloud

The indices of the old clusters do not belong to the new cloud.
---
 pre_processors/filter_range_image.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index 5b0add6..ae4f8d0 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -87,6 +87,7 @@ void RangeImage::Filter(const data::InnerCloudType::Ptr &cloud) {
 
   this->FilterPrepare(cloud);
   map_image_.clear();
+  clusters_.clear();
   matrix_image_.setZero();
   const float image_horizontal_res =
       M_PI * 2 / static_cast<float>(horizontal_line_num_);
-- 
2.43.0


From a36ed52c254b74baeddb798c3e87326799dd5139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:25:40 +0000
Subject: [PATCH 40/44] fix: draw pixels beyond the maximum range as empty

They showed the pixel of the line before, or memory that was never set.
---
 pre_processors/filter_range_image.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pre_processors/filter_range_image.cc b/pre_processors/filter_range_image.cc
index ae4f8d0..8e5754a 100644
--- a/pre_processors/filter_range_image.cc
+++ b/pre_processors/filter_range_image.cc
@@ -22,6 +22,8 @@
 
 #include "pre_processors/filter_range_image.h"
 
+#include <cstring>
+
 namespace static_map {
 namespace pre_processers {
 namespace filter {
@@ -208,6 +210,7 @@ void RangeImage::ToPng(const float &max_range, const char *filename,
 
   png_bytep row = (png_bytep)malloc(3 * width * sizeof(png_byte));
   for (png_uint_32 y = 0; y < height; ++y) {
+    std::memset(row, 0, 3 * width * sizeof(png_byte));
     for (png_uint_32 x = 0; x < width; ++x) {
       if (matrix_image_(y, x) > max_range) {
         continue;
@@ -233,6 +236,7 @@ void RangeImage::ToPng(const float &max_range, const char *filename,
     png_write_row(png_ptr, row);
   }
   png_write_end(png_ptr, NULL);
+  free(row);
 
   if (fp != NULL) {
     fclose(fp);
-- 
2.43.0


From c17b3ced5ea50bd8d5bb49985165c307db3c272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:25:40 +0000
Subject: [PATCH 41/44] fix: keep the bounds of the graph image around the
 vertices

The upper bound started above zero, so a graph left of the origin got an
image that reached to the origin.  Saving an image moved the bounds.
---
 back_end/view_graph.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/back_end/view_graph.cc b/back_end/view_graph.cc
index b199c66..a80be7a 100644
--- a/back_end/view_graph.cc
+++ b/back_end/view_graph.cc
@@ -35,8 +35,8 @@ namespace back_end {
 ViewGraph::ViewGraph() {
   min_bounding_ << std::numeric_limits<double>::max(),
       std::numeric_limits<double>::max();
-  max_bounding_ << std::numeric_limits<double>::min(),
-      std::numeric_limits<double>::min();
+  max_bounding_ << std::numeric_limits<double>::lowest(),
+      std::numeric_limits<double>::lowest();
 }
 
 void ViewGraph::AddEdge(const int64_t a, const int64_t b,
@@ -95,18 +95,18 @@ void ViewGraph::SaveImage(const std::string &filename,
   }
 
   const double edge_width = 1.;
-  max_bounding_[0] += edge_width;
-  max_bounding_[1] += edge_width;
-  min_bounding_[0] -= edge_width;
-  min_bounding_[1] -= edge_width;
-  Eigen::Vector2d image_bbox = max_bounding_ - min_bounding_;
+  const Eigen::Vector2d max_bounding =
+      max_bounding_ + Eigen::Vector2d::Constant(edge_width);
+  const Eigen::Vector2d min_bounding =
+      min_bounding_ - Eigen::Vector2d::Constant(edge_width);
+  Eigen::Vector2d image_bbox = max_bounding - min_bounding;
   image_bbox /= resolution;
   // std::cout << image_bbox << std::endl;
 
   auto pose_to_image = [&](const Eigen::Matrix4d &pose) -> std::pair<int, int> {
     Eigen::Vector2d image_position(pose(0, 3), pose(1, 3));
-    image_position[0] -= min_bounding_[0];
-    image_position[1] = max_bounding_[1] - image_position[1];
+    image_position[0] -= min_bounding[0];
+    image_position[1] = max_bounding[1] - image_position[1];
     image_position /= resolution;
     return std::make_pair(static_cast<int>(image_position[0]),
                           static_cast<int>(image_position[1]));
-- 
2.43.0


From 163b046672f16859b219b8e3ee8b26d32cd5e022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:39:19 +0000
Subject: [PATCH 42/44] fix: forget the depth of the previous tree

The depth told after building again was that of the deepest tree so far.
---
 common/octree.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/octree.cc b/common/octree.cc
index ff2b066..3817d52 100644
--- a/common/octree.cc
+++ b/common/octree.cc
@@ -79,6 +79,7 @@ void Octree::InitWithPointCloud(const Eigen::MatrixXd& points) {
   for (int i = 0; i < size; ++i) {
     points_vec[i] = points.col(i).topRows(3);
   }
+  max_depth_ = 0;
   root_ = BuildTree(0, CubeBoundingBox(config_.center, config_.max_size),
                     points_vec);
 }
-- 
2.43.0


From ee3e0eac9f1abcabf1ebae5f6869378387033a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:43:52 +0000
Subject: [PATCH 43/44] fix: detect planes in the current cloud only

The voxels of earlier clouds stayed with indices of points that are gone.
Sampling a cloud without planes read the first of no indices.
---
 pre_processors/plane_detector.h                  | 1 +
 pre_processors/random_sample_with_plane_detect.h | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pre_processors/plane_detector.h b/pre_processors/plane_detector.h
index 2833c11..dd0ed3c 100644
--- a/pre_processors/plane_detector.h
+++ b/pre_processors/plane_detector.h
@@ -73,6 +73,7 @@ class PlaneDetector {
       return;
     }
     input_cloud_ = cloud;
+    voxels_.clear();
 
     for (int i = 0; i < input_cloud_->size(); ++i) {
       auto& point = input_cloud_->points[i];
diff --git a/pre_processors/random_sample_with_plane_detect.h b/pre_processors/random_sample_with_plane_detect.h
index b5af687..cc8260d 100644
--- a/pre_processors/random_sample_with_plane_detect.h
+++ b/pre_processors/random_sample_with_plane_detect.h
@@ -91,7 +91,7 @@ class RandomSamplerWithPlaneDetect {
     int other_sum = 0;
     int other_sapmled_sum = 0;
     for (int i = 0; i < input_cloud_->size(); ++i) {
-      if (i == plane_indices.front()) {
+      if (!plane_indices.empty() && i == plane_indices.front()) {
         cloud->push_back(input_cloud_->points[i]);
         plane_indices.erase(plane_indices.begin());
       } else {
-- 
2.43.0


From 3b17c70adf77c5bdb8783745e6000a78299fe277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 03:38:27 +0000
Subject: [PATCH 44/44] fix: split cubes of any place and size without losing
 points

Splitting a cube checked the edges of its parts with an absolute tolerance, so
rounding ended the program for most cubes. Points on the border of two parts
could also be outside of both and were dropped.
---
 common/bounding_box.cc | 27 +++++++++++----------------
 common/bounding_box.h  |  4 ++++
 common/octree.cc       |  6 ++++--
 3 files changed, 19 insertions(+), 18 deletions(-)

diff --git a/common/bounding_box.cc b/common/bounding_box.cc
index 3274604..fe7e469 100644
--- a/common/bounding_box.cc
+++ b/common/bounding_box.cc
@@ -53,22 +53,14 @@ std::vector<CubeBoundingBox> CubeBoundingBox::GenerateSubBoxes() const {
   ///  x > 0, y < 0, z > 0: 3
   ///  ... for z < 0 : [4, 7]
   /// "0" means the center of the voxel which we want to split into 8 parts.
-  return {CubeBoundingBox(center_, max_),
-          CubeBoundingBox(center_ - Eigen::Vector3d(half_size_, 0, 0),
-                          max_ - Eigen::Vector3d(half_size_, 0, 0)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(half_size_, half_size_, 0),
-                          max_ - Eigen::Vector3d(half_size_, half_size_, 0)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(0, half_size_, 0),
-                          max_ - Eigen::Vector3d(0, half_size_, 0)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(0, 0, half_size_),
-                          max_ - Eigen::Vector3d(0, 0, half_size_)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(half_size_, 0, half_size_),
-                          max_ - Eigen::Vector3d(half_size_, 0, half_size_)),
-          CubeBoundingBox(
-              center_ - Eigen::Vector3d(half_size_, half_size_, half_size_),
-              max_ - Eigen::Vector3d(half_size_, half_size_, half_size_)),
-          CubeBoundingBox(center_ - Eigen::Vector3d(0, half_size_, half_size_),
-                          max_ - Eigen::Vector3d(0, half_size_, half_size_))};
+  const double quarter = 0.5 * half_size_;
+  const auto sub_box = [&](double x, double y, double z) {
+    return CubeBoundingBox(center_ + quarter * Eigen::Vector3d(x, y, z),
+                           half_size_);
+  };
+  return {sub_box(1, 1, 1),  sub_box(-1, 1, 1),  sub_box(-1, -1, 1),
+          sub_box(1, -1, 1), sub_box(1, 1, -1),  sub_box(-1, 1, -1),
+          sub_box(-1, -1, -1), sub_box(1, -1, -1)};
 }
 
 int CubeBoundingBox::GetSubBoxIndexForPoint(
@@ -76,7 +68,10 @@ int CubeBoundingBox::GetSubBoxIndexForPoint(
   if (!ContainsPoint(point)) {
     return -1;
   }
+  return GetNearestSubBoxIndex(point);
+}
 
+int CubeBoundingBox::GetNearestSubBoxIndex(const Eigen::Vector3d& point) const {
   const Eigen::Vector3d offseted_point = point - center_;
   int index = 0;
   if (offseted_point[0] >= 0.) {
diff --git a/common/bounding_box.h b/common/bounding_box.h
index 921a933..3eb8b49 100644
--- a/common/bounding_box.h
+++ b/common/bounding_box.h
@@ -50,6 +50,10 @@ class CubeBoundingBox {
   /// for the given point.
   int GetSubBoxIndexForPoint(const Eigen::Vector3d& point) const;
 
+  /// @brief GetNearestSubBoxIndex: return the index of the sub CubeBoundingBox
+  /// on the side of the given point, which may lie outside of the box.
+  int GetNearestSubBoxIndex(const Eigen::Vector3d& point) const;
+
   /// @brief ContainsPoint: return whether the given point is in the box.
   bool ContainsPoint(const Eigen::Vector3d& point) const;
 
diff --git a/common/octree.cc b/common/octree.cc
index 3817d52..7418a76 100644
--- a/common/octree.cc
+++ b/common/octree.cc
@@ -55,10 +55,12 @@ std::shared_ptr<OctreeNode> Octree::BuildTree(
   const auto sub_bboxes = bbox.GenerateSubBoxes();
   std::vector<OctreePoint> sub_points[8];
   for (const auto& point : points) {
-    const int index = bbox.GetSubBoxIndexForPoint(point);
-    if (index < 0) {
+    // A point on the border of two sub boxes may lie outside of both of them
+    // because of rounding, so only the root decides which points are inside.
+    if (depth == 0 && !bbox.ContainsPoint(point)) {
       continue;
     }
+    const int index = bbox.GetNearestSubBoxIndex(point);
     CHECK_LT(index, 8);
     sub_points[index].push_back(point);
   }
-- 
2.43.0


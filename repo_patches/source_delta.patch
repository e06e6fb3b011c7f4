From 8e0c3bd4941a0467abc921d1d9641e4f6b2d8194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 01/43] fix: reader-first lock reports waiting threads as in
 use

isInUse() is documented to return true while threads wait for access, but
the reader-first variant never counted its waiting readers and writers, so
it answered false between a release and the wake-up of the next owner.
---
 aslam_cv_common/src/reader-first-reader-writer-lock.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_common/src/reader-first-reader-writer-lock.cc b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
index 559a284..b79d02b 100644
--- a/aslam_cv_common/src/reader-first-reader-writer-lock.cc
+++ b/aslam_cv_common/src/reader-first-reader-writer-lock.cc
@@ -9,14 +9,17 @@ ReaderFirstReaderWriterMutex::~ReaderFirstReaderWriterMutex() {}
 
 void ReaderFirstReaderWriterMutex::acquireReadLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++pending_readers_;
   while (current_writer_) {
     cv_writer_finished_.wait(lock);
   }
+  --pending_readers_;
   ++num_readers_;
 }
 
 void ReaderFirstReaderWriterMutex::acquireWriteLock() {
   std::unique_lock<std::mutex> lock(mutex_);
+  ++num_pending_writers_;
   while (true) {
     while (num_readers_ > (pending_upgrade_ ? 1 : 0)) {
       cv_readers_.wait(lock);
@@ -29,6 +32,7 @@ void ReaderFirstReaderWriterMutex::acquireWriteLock() {
       }
     }
   }
+  --num_pending_writers_;
   current_writer_ = true;
 }
 
-- 
2.43.0


From ba9724e5a25c97890842cf0ecff60ac92fa05459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:33 +0000
Subject: [PATCH 02/43] fix: thread pool wakes an idle worker for every
 enqueued task

Workers and threads blocked in waitForEmptyQueue() wait on the same
condition variable, so notify_one() in enqueueOrdered() could wake a waiter
(which goes back to sleep) and leave the task queued although a worker is
idle. A running task that depends on the new one then deadlocks.
---
 aslam_cv_common/include/aslam/common/thread-pool.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index af78aa0..9f8030c 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -153,7 +153,9 @@ ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
       groupid_exclusivity_guards_.emplace(exclusivity_group_id, false);
     }
   }
-  tasks_queue_change_.notify_one();
+  // Workers and threads in waitForEmptyQueue() wait on the same condition
+  // variable, so waking a single thread could leave all workers asleep.
+  tasks_queue_change_.notify_all();
   return res;
 }
 
-- 
2.43.0


From fc0b703f82ee09b232213b4db9d340e5ff7b50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 03/43] fix: thread pool never accepts a task its workers will
 not execute

enqueueOrdered() tested the stop signal before taking the lock. If the pool
was stopped and its workers exited in between, the task was queued for ever:
its valid future never became ready, and waitForEmptyQueue() blocked.
---
 aslam_cv_common/include/aslam/common/thread-pool.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/thread-pool.h b/aslam_cv_common/include/aslam/common/thread-pool.h
index 9f8030c..0bf93f0 100644
--- a/aslam_cv_common/include/aslam/common/thread-pool.h
+++ b/aslam_cv_common/include/aslam/common/thread-pool.h
@@ -131,18 +131,20 @@ std::future<typename std::result_of<Function(Args...)>::type>
 ThreadPool::enqueueOrdered(const size_t exclusivity_group_id,
                            Function&& function, Args&&... args) {
   typedef typename std::result_of<Function(Args...)>::type return_type;
-  // Don't allow enqueueing after stopping the pool.
-  if(stop_) {
-    LOG(ERROR) << "enqueue() called on stopped ThreadPool";
-    // An empty future will return valid() == false.
-    return std::future<typename std::result_of<Function(Args...)>::type>();
-  }
   auto task = std::make_shared<std::packaged_task<return_type()>>(
       std::bind(function, std::forward<Args>(args)...));
 
   std::future<return_type> res = task->get_future();
   {
     std::unique_lock<std::mutex> lock(tasks_mutex_);
+    // Don't allow enqueueing after stopping the pool. This has to be checked
+    // under the lock: otherwise the workers could see the stop signal and an
+    // empty queue, and exit, before the task is added.
+    if (stop_) {
+      LOG(ERROR) << "enqueue() called on stopped ThreadPool";
+      // An empty future will return valid() == false.
+      return std::future<return_type>();
+    }
     groupid_tasks_.emplace_back(exclusivity_group_id, [task](){ (*task)();});
 
     // Initialize a group id exclusivity guard.
-- 
2.43.0


From f00dbe7dfe03d0be0d165813c532fc75ba4dffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 04/43] fix: identifier text that is not hexadecimal is
 rejected

---
 aslam_cv_common/include/aslam/common/hash-id.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aslam_cv_common/include/aslam/common/hash-id.h b/aslam_cv_common/include/aslam/common/hash-id.h
index 508548d..64a468f 100644
--- a/aslam_cv_common/include/aslam/common/hash-id.h
+++ b/aslam_cv_common/include/aslam/common/hash-id.h
@@ -84,6 +84,10 @@ class HashId {
     if (hexString.size() != 2*sizeof(val_)){
       return false;
     }
+    if (hexString.find_first_not_of("0123456789abcdefABCDEF") !=
+        std::string::npos) {
+      return false;
+    }
     for (size_t i = 0; i < sizeof(val_); ++i){
       val_.c[i] = static_cast<unsigned char>(
           stoul(std::string(hexString, 2*i, 2), 0, 16));
-- 
2.43.0


From ac4fa81a7eb6346e06559cf4ba9da4887bac0e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 05/43] fix: channels of different type or shape compare as
 different

---
 .../include/aslam/common/channel.h            | 31 +++++++++++++++++--
 aslam_cv_common/src/channel.cc                |  9 +++++-
 2 files changed, 37 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel.h b/aslam_cv_common/include/aslam/common/channel.h
index d0bddea..0b00852 100644
--- a/aslam_cv_common/include/aslam/common/channel.h
+++ b/aslam_cv_common/include/aslam/common/channel.h
@@ -18,6 +18,7 @@
 #include <mutex>
 #include <string>
 #include <unordered_map>
+#include <vector>
 
 #include <aslam/common/channel-serialization.h>
 #include <aslam/common/crtp-clone.h>
@@ -48,6 +49,31 @@ struct ChannelValueCloner :
 template<> struct ChannelValueCloner<cv::Mat> {
   static cv::Mat clone(const cv::Mat& value) { return value; }
 };
+
+template<typename ValueType>
+bool areChannelValuesEqual(const ValueType& left, const ValueType& right) {
+  return left == right;
+}
+// Eigen can only compare matrices of the same size.
+template<typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
+bool areChannelValuesEqual(
+    const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& left,
+    const Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>& right) {
+  return left.rows() == right.rows() && left.cols() == right.cols() && left == right;
+}
+template<typename ValueType, typename Allocator>
+bool areChannelValuesEqual(const std::vector<ValueType, Allocator>& left,
+                           const std::vector<ValueType, Allocator>& right) {
+  if (left.size() != right.size()) {
+    return false;
+  }
+  for (size_t i = 0u; i < left.size(); ++i) {
+    if (!areChannelValuesEqual(left[i], right[i])) {
+      return false;
+    }
+  }
+  return true;
+}
 }
 
 class ChannelBase {
@@ -82,7 +108,8 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
   }
   void operator=(const Channel<TYPE>&) = delete;
   virtual bool compare(const ChannelBase& other) {
-    return *this == *CHECK_NOTNULL(dynamic_cast<const Channel<TYPE>*>(&other));
+    const Channel<TYPE>* other_channel = dynamic_cast<const Channel<TYPE>*>(&other);
+    return other_channel != nullptr && *this == *other_channel;
   }
   bool serializeToString(std::string* string) const {
     return aslam::internal::serializeToString(value_, string);
@@ -100,7 +127,7 @@ class Channel : public aslam::Cloneable<ChannelBase, Channel<TYPE>> {
 
  private:
   bool equal_to(const Channel<TYPE>& other, std::true_type /*is_not_pointer */) {
-    return value_ == other.value_;
+    return internal::areChannelValuesEqual(value_, other.value_);
   }
   bool equal_to(const Channel<TYPE>& other, std::false_type /*is_not_pointer */) {
     if (other == nullptr && value_ == nullptr) {
diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index ae75d0f..9ffd9e6 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -9,7 +9,14 @@ namespace channels {
 
 template<>
 bool Channel<cv::Mat>::operator==(const Channel<cv::Mat>& other) {
-  return cv::countNonZero(value_ != other.value_) == 0;
+  if (value_.dims != other.value_.dims || value_.size != other.value_.size ||
+      value_.type() != other.value_.type()) {
+    return false;
+  }
+  if (value_.empty()) {
+    return true;
+  }
+  return cv::countNonZero(value_.reshape(1) != other.value_.reshape(1)) == 0;
 }
 
 ChannelGroup cloneChannelGroup(const ChannelGroup& channels) {
-- 
2.43.0


From af18cfa010ce6b0ad294b7ecdb9aeb1f796d98a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:33 +0000
Subject: [PATCH 06/43] fix: comparing channel groups both ways around does not
 deadlock

---
 aslam_cv_common/src/channel.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_common/src/channel.cc b/aslam_cv_common/src/channel.cc
index 9ffd9e6..b90afba 100644
--- a/aslam_cv_common/src/channel.cc
+++ b/aslam_cv_common/src/channel.cc
@@ -35,8 +35,10 @@ bool isChannelGroupEqual(const ChannelGroup& left_channels, const ChannelGroup&
   if (&left_channels == &right_channels) {
     return true;
   }
-  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_);
-  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_);
+  // Both at once: another thread may be comparing the same groups the other way around.
+  std::lock(left_channels.m_channels_, right_channels.m_channels_);
+  std::lock_guard<std::mutex> lock_left(left_channels.m_channels_, std::adopt_lock);
+  std::lock_guard<std::mutex> lock_right(right_channels.m_channels_, std::adopt_lock);
 
   if (left_channels.channels_.size() != right_channels.channels_.size()) {
     return false;
-- 
2.43.0


From 1ae3fd7816cdf27b71de9ff31a17019485cd4ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:24 +0000
Subject: [PATCH 07/43] fix: scalar channel values survive serialization to
 text

---
 .../aslam/common/channel-serialization.h      | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index c4d5161..8b2fcf9 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -2,7 +2,10 @@
 #define ASLAM_CHANNEL_SERIALIZATION_H_
 
 #include <cstdint>
+#include <cstdlib>
 #include <iostream>
+#include <limits>
+#include <locale>
 #include <sstream>
 #include <string>
 #include <type_traits>
@@ -306,8 +309,13 @@ bool serializeToBuffer(const cv::Mat& matrix,
 template<typename Scalar>
 bool serializeToString(const Scalar& value, std::string* string) {
   CHECK_NOTNULL(string);
-  std::string value_string = std::to_string(value);
-  string->swap(value_string);
+  std::ostringstream stream;
+  stream.imbue(std::locale::classic());
+  // Enough digits to restore floating point values exactly.
+  stream.precision(std::numeric_limits<Scalar>::max_digits10);
+  // The sign promotes character types, which are written as numbers.
+  stream << +value;
+  *string = stream.str();
   return true;
 }
 
@@ -317,7 +325,16 @@ bool deSerializeFromString(const std::string& string,
                            typename std::enable_if<std::is_integral<Scalar>::value>::type* = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stoll(string));
+  size_t num_characters_read = 0u;
+  if (std::is_signed<Scalar>::value || sizeof(Scalar) < sizeof(long long)) {
+    const long long parsed_value = std::stoll(string, &num_characters_read);
+    (*value) = static_cast<Scalar>(parsed_value);
+    CHECK_EQ(static_cast<long long>(*value), parsed_value) << "Out of range.";
+  } else {
+    CHECK_EQ(string.find('-'), std::string::npos) << "Out of range.";
+    (*value) = static_cast<Scalar>(std::stoull(string, &num_characters_read));
+  }
+  CHECK_EQ(num_characters_read, string.size()) << "Not a number: " << string;
   return true;
 }
 
@@ -328,7 +345,10 @@ bool deSerializeFromString(const std::string& string,
                              = 0) {
   CHECK_NOTNULL(value);
   CHECK(!string.empty());
-  (*value) = static_cast<Scalar>(std::stod(string));
+  // In contrast to std::stod() this also reads denormalized values.
+  char* end = nullptr;
+  (*value) = static_cast<Scalar>(std::strtod(string.c_str(), &end));
+  CHECK(end == string.c_str() + string.size()) << "Not a number: " << string;
   return true;
 }
 
-- 
2.43.0


From 4a14c3de3ebd0ddba1d4509415470b54a11328f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:33 +0000
Subject: [PATCH 08/43] fix: reading a list of matrices stays within the buffer

---
 .../include/aslam/common/channel-serialization.h           | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index 8b2fcf9..597be18 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -248,12 +248,15 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_NOTNULL(matrices);
 
   size_t repeat;
+  CHECK_GE(size, sizeof(repeat));
   memcpy(&repeat, buffer, sizeof(repeat));
   size_t offset = sizeof(repeat);
 
+  HeaderInformation header;
+  CHECK_LE(repeat, (size - offset) / header.size());
   matrices->resize(repeat);
   for (size_t i = 0; i < repeat; i++) {
-    HeaderInformation header;
+    CHECK_GE(size - offset, header.size());
     bool success = header.deSerializeFromBuffer(buffer, offset);
     if (!success) {
       LOG(ERROR) << "Failed to deserialize header from string: " <<
@@ -280,9 +283,11 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     }
 
     size_t matrix_size = sizeof(Scalar) * (*matrices)[i].rows() * (*matrices)[i].cols();
+    CHECK_GE(size - offset, matrix_size);
     memcpy((*matrices)[i].data(), buffer + offset, matrix_size);
     offset += matrix_size;
   }
+  CHECK_EQ(size, offset);
 
   return true;
 }
-- 
2.43.0


From 3f237165b9a13c84f310f0c5de1a1df367f047cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:01 +0000
Subject: [PATCH 09/43] fix: a damaged matrix message is rejected before
 allocating memory

---
 .../include/aslam/common/channel-serialization.h  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/channel-serialization.h b/aslam_cv_common/include/aslam/common/channel-serialization.h
index 597be18..b481a0f 100644
--- a/aslam_cv_common/include/aslam/common/channel-serialization.h
+++ b/aslam_cv_common/include/aslam/common/channel-serialization.h
@@ -220,6 +220,12 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
   CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);
   CHECK_EQ(1u, header.channels) << "Eigen matrices must have one channel.";
 
+  // Before allocating memory for what the header claims.
+  const size_t num_elements = static_cast<size_t>(header.rows) * header.cols;
+  CHECK_LE(num_elements, (size - header.size()) / sizeof(Scalar));
+  const size_t matrix_size = sizeof(Scalar) * num_elements;
+  CHECK_EQ(size, matrix_size + header.size());
+
   if (ROWS == Eigen::Dynamic && COLS == Eigen::Dynamic) {
     matrix->resize(header.rows, header.cols);
   } else if (ROWS == Eigen::Dynamic && COLS != Eigen::Dynamic) {
@@ -228,9 +234,6 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     matrix->resize(Eigen::NoChange, header.cols);
   }
 
-  size_t matrix_size = sizeof(Scalar) * matrix->rows() * matrix->cols();
-  size_t total_size = matrix_size + header.size();
-  CHECK_EQ(size, total_size);
   memcpy(matrix->data(), buffer + header.size(), matrix_size);
   return true;
 }
@@ -274,6 +277,10 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
     CHECK_EQ(header.depth, cv::DataType<Scalar>::depth);
     CHECK_EQ(1u, header.channels) << "Eigen matrices must have one channel.";
 
+    const size_t num_elements = static_cast<size_t>(header.rows) * header.cols;
+    CHECK_LE(num_elements, (size - offset) / sizeof(Scalar));
+    const size_t matrix_size = sizeof(Scalar) * num_elements;
+
     if (ROWS == Eigen::Dynamic && COLS == Eigen::Dynamic) {
       (*matrices)[i].resize(header.rows, header.cols);
     } else if (ROWS == Eigen::Dynamic && COLS != Eigen::Dynamic) {
@@ -282,8 +289,6 @@ bool deSerializeFromBuffer(const char* const buffer, size_t size,
       (*matrices)[i].resize(Eigen::NoChange, header.cols);
     }
 
-    size_t matrix_size = sizeof(Scalar) * (*matrices)[i].rows() * (*matrices)[i].cols();
-    CHECK_GE(size - offset, matrix_size);
     memcpy((*matrices)[i].data(), buffer + offset, matrix_size);
     offset += matrix_size;
   }
-- 
2.43.0


From 70bb77d3b5bfca8b1898ca73b1ffbb66b7c97573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:06 +0000
Subject: [PATCH 10/43] fix: image messages with an impossible number of
 channels are rejected

---
 aslam_cv_common/src/channel-serialization.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aslam_cv_common/src/channel-serialization.cc b/aslam_cv_common/src/channel-serialization.cc
index 34caaa8..60bdb04 100644
--- a/aslam_cv_common/src/channel-serialization.cc
+++ b/aslam_cv_common/src/channel-serialization.cc
@@ -101,6 +101,8 @@ void deSerializeTypedFromBuffer(const char* const buffer, size_t size,
                                 const HeaderInformation& header, cv::Mat* image) {
   CHECK_NOTNULL(buffer);
   CHECK_NOTNULL(image);
+  CHECK_GE(header.channels, 1u);
+  CHECK_LE(header.channels, static_cast<uint32_t>(CV_CN_MAX));
   size_t matrix_size = sizeof(SCALAR) * header.rows * header.cols * header.channels;
   size_t total_size = matrix_size + header.size();
   CHECK_EQ(size, total_size);
-- 
2.43.0


From 7122a67fb1623381834c2504e505fd028d2340fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 11/43] fix: reducing the points of an occupancy grid works
 below one point per cell

---
 aslam_cv_common/include/aslam/common/occupancy-grid-inl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
index d667f34..cd478ad 100644
--- a/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
+++ b/aslam_cv_common/include/aslam/common/occupancy-grid-inl.h
@@ -259,9 +259,10 @@ void WeightedOccupancyGrid<PointType>::removePointsFromFullestCellsUntilSize(
   CHECK_GT(max_total_num_points, 0u);
   while (getNumPoints() > max_total_num_points) {
     const GridCoordinates fullest_cell_coords = getFullestGridCell();
-    const size_t max_cell_count = getGridCell(fullest_cell_coords).size();
-    removeWeightedPointsFromOverfullCell(
-        fullest_cell_coords, max_cell_count - 1);
+    PointList& fullest_cell = getGridCell(fullest_cell_coords);
+    fullest_cell.erase(
+        std::min_element(fullest_cell.begin(), fullest_cell.end()));
+    --current_num_points_;
   }
 }
 
-- 
2.43.0


From 109f8d6465f2de1979717bcda4da6d0e9d92a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 12/43] fix: printing and exporting timers and statistics does
 not race with their use

---
 aslam_cv_common/src/statistics.cc | 18 ++++++++++++++----
 aslam_cv_common/src/timer.cc      | 10 ++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/aslam_cv_common/src/statistics.cc b/aslam_cv_common/src/statistics.cc
index fdb822d..60ba39b 100644
--- a/aslam_cv_common/src/statistics.cc
+++ b/aslam_cv_common/src/statistics.cc
@@ -195,7 +195,13 @@ std::string Statistics::SecondsToTimeString(double seconds) {
 }
 
 void Statistics::Print(std::ostream& out) {  // NOLINT
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  size_t max_tag_length;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -203,7 +209,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   out << "Statistics\n";
 
-  out.width((std::streamsize)Instance().max_tag_length_);
+  out.width((std::streamsize)max_tag_length);
   out.setf(std::ios::left, std::ios::adjustfield);
   out << "-----------";
   out.width(7);
@@ -215,7 +221,7 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 
   for (const typename map_t::value_type& t : tag_map) {
     size_t i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
@@ -239,7 +245,11 @@ void Statistics::Print(std::ostream& out) {  // NOLINT
 }
 
 void Statistics::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
diff --git a/aslam_cv_common/src/timer.cc b/aslam_cv_common/src/timer.cc
index 442012d..86c3df4 100755
--- a/aslam_cv_common/src/timer.cc
+++ b/aslam_cv_common/src/timer.cc
@@ -186,7 +186,11 @@ std::string Timing::SecondsToTimeString(double seconds) {
 }
 
 void Timing::WriteToYamlFile(const std::string& path) {
-  const map_t& tag_map = Instance().tag_map_;
+  map_t tag_map;
+  {
+    std::lock_guard<std::mutex> lock(Instance().mutex_);
+    tag_map = Instance().tag_map_;
+  }
 
   if (tag_map.empty()) {
     return;
@@ -225,9 +229,11 @@ void Timing::WriteToYamlFile(const std::string& path) {
 
 void Timing::Print(std::ostream& out) {  // NOLINT
   map_t tagMap;
+  size_t max_tag_length;
   {
     std::lock_guard<std::mutex> lock(Instance().mutex_);
     tagMap = Instance().tag_map_;
+    max_tag_length = Instance().max_tag_length_;
   }
 
   if (tagMap.empty()) {
@@ -238,7 +244,7 @@ void Timing::Print(std::ostream& out) {  // NOLINT
   out << "-----------\n";
   for (typename map_t::value_type t : tagMap) {
     size_t time_i = t.second;
-    out.width((std::streamsize)Instance().max_tag_length_);
+    out.width((std::streamsize)max_tag_length);
     out.setf(std::ios::left, std::ios::adjustfield);
     out << t.first << "\t";
     out.width(7);
-- 
2.43.0


From 4a2e909604ad6d6626acf17c429fc4f5ac58ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:12 +0000
Subject: [PATCH 13/43] fix: erasing no indices from a container does nothing

eraseIndicesFromContainer() read the last element of the index list before
checking whether the list is empty.
---
 aslam_cv_common/include/aslam/common/stl-helpers-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
index e8ab541..24d02b1 100644
--- a/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
+++ b/aslam_cv_common/include/aslam/common/stl-helpers-inl.h
@@ -117,11 +117,11 @@ void eraseIndicesFromContainer(
     ContainerType* container) {
   CHECK_NOTNULL(container);
   CHECK_EQ(internal::dynamicSize(*container), expected_initial_count);
-  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   if (ordered_indices_to_erase.empty()) {
     return;
   }
+  CHECK_LT(ordered_indices_to_erase.back(), expected_initial_count);
 
   const size_t erase_count = ordered_indices_to_erase.size();
   CHECK_LE(erase_count, expected_initial_count);
-- 
2.43.0


From 4d7d51e318a259dbc328e18536a9f44142f99117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:20 +0000
Subject: [PATCH 14/43] fix: Hamming distance counts all differing bits for any
 size

Bytes beyond a multiple of 16 were ignored, descriptors of fewer than 16 bytes
were read past their end, the 8-bit partial sums overflowed from 512 bytes on,
the sum of the two halves went through float, and unaligned descriptors
faulted.
---
 .../include/aslam/common/hamming-inl.h        | 48 ++++++++++---------
 .../include/aslam/common/hamming.h            | 24 +++++++---
 2 files changed, 43 insertions(+), 29 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/hamming-inl.h b/aslam_cv_common/include/aslam/common/hamming-inl.h
index 0d19583..9fd56b6 100644
--- a/aslam_cv_common/include/aslam/common/hamming-inl.h
+++ b/aslam_cv_common/include/aslam/common/hamming-inl.h
@@ -107,31 +107,33 @@ const int numberOf128BitWords) {
   xmm5 = _mm_setzero_si128();  // xmm5 -- global accumulator.
 
   const __m128i* end = signature1 + numberOf128BitWords;
-  xmm4 = xmm5;  // xmm4 -- local accumulator.
   const __m128i shiftval = _mm_set_epi32(0, 0, 0, 4);
-  do {
-    xmm0 = _mm_xor_si128(*signature1++, *signature2++);
-    xmm1 = xmm0;
-    xmm1 = _mm_srl_epi16(xmm1, shiftval);
-    xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
-    xmm1 = _mm_and_si128(xmm1, xmm6);  // xmm1 := higher nibbles.
-    xmm2 = xmm7;
-    xmm3 = xmm7;  // Get popcount.
-    xmm2 = _mm_shuffle_epi8(xmm2, xmm0);  // For all nibbles.
-    xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
-    xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
-    xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
-  }while (signature1 < end);
-  // Update global accumulator(two 32-bits counters).
-  xmm4 = _mm_sad_epu8(xmm4, xmm5);
-  xmm5 = _mm_add_epi32(xmm5, xmm4);
+  // The 8-bit counters of the local accumulator grow by at most 8 per word.
+  const int kMaxWordsPerBlock = 31;
+  while (signature1 < end) {
+    const __m128i* block_end = (end - signature1 > kMaxWordsPerBlock) ?
+        signature1 + kMaxWordsPerBlock : end;
+    xmm4 = _mm_setzero_si128();  // xmm4 -- local accumulator.
+    do {
+      xmm0 = _mm_xor_si128(_mm_loadu_si128(signature1++),
+                           _mm_loadu_si128(signature2++));
+      xmm1 = xmm0;
+      xmm1 = _mm_srl_epi16(xmm1, shiftval);
+      xmm0 = _mm_and_si128(xmm0, xmm6);  // xmm0 := lower nibbles.
+      xmm1 = _mm_and_si128(xmm1, xmm6);  // xmm1 := higher nibbles.
+      xmm2 = xmm7;
+      xmm3 = xmm7;  // Get popcount.
+      xmm2 = _mm_shuffle_epi8(xmm2, xmm0);  // For all nibbles.
+      xmm3 = _mm_shuffle_epi8(xmm3, xmm1);  // Using PSHUFB.
+      xmm4 = _mm_add_epi8(xmm4, xmm2);  // Update local.
+      xmm4 = _mm_add_epi8(xmm4, xmm3);  // Accumulator.
+    } while (signature1 < block_end);
+    // Update global accumulator(two 32-bits counters).
+    xmm4 = _mm_sad_epu8(xmm4, _mm_setzero_si128());
+    xmm5 = _mm_add_epi32(xmm5, xmm4);
+  }
   // finally add together 32-bits counters stored in global accumulator.
-  // __asm__ volatile(
-  //  "movhlps  %%xmm5, %%xmm0 \n"
-  // TODO(slynen): fix with appropriate intrinsic
-  xmm0 = _mm_cvtps_epi32(_mm_movehl_ps(_mm_cvtepi32_ps(xmm0),
-      _mm_cvtepi32_ps(xmm5)));
-  xmm0 = _mm_add_epi32(xmm0, xmm5);
+  xmm0 = _mm_add_epi32(xmm5, _mm_srli_si128(xmm5, 8));
   result = _mm_cvtsi128_si32(xmm0);
   return result;
 }
diff --git a/aslam_cv_common/include/aslam/common/hamming.h b/aslam_cv_common/include/aslam/common/hamming.h
index cf57f11..6ce4fce 100644
--- a/aslam_cv_common/include/aslam/common/hamming.h
+++ b/aslam_cv_common/include/aslam/common/hamming.h
@@ -90,6 +90,8 @@ class  Hamming {
   }
 #endif  // __ARM_NEON
 
+  static constexpr int kBytesPer128BitWord = 16;
+
   typedef unsigned char ValueType;
 
   // Important that this is signed as weird behavior happens in BruteForce if
@@ -99,15 +101,25 @@ class  Hamming {
   static ResultType evaluate(const unsigned char* a,
                              const unsigned char* b,
                              const int size) {
+    const int num_full_words = size / kBytesPer128BitWord;
 #ifdef __ARM_NEON
-    return NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
-                             reinterpret_cast<const uint8x16_t*>(b),
-                             size / 16);
+    uint32_t result =
+        NEONPopcntofXORed(reinterpret_cast<const uint8x16_t*>(a),
+                          reinterpret_cast<const uint8x16_t*>(b),
+                          num_full_words);
 #else
-    return SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
-                              reinterpret_cast<const __m128i*>(b),
-                              size / 16);
+    uint32_t result =
+        SSSE3PopcntofXORed(reinterpret_cast<const __m128i*>(a),
+                           reinterpret_cast<const __m128i*>(b),
+                           num_full_words);
 #endif  // __ARM_NEON
+    // The bytes that do not fill a word.
+    for (int i = num_full_words * kBytesPer128BitWord; i < size; ++i) {
+      for (unsigned int bits = a[i] ^ b[i]; bits != 0u; bits &= bits - 1u) {
+        ++result;
+      }
+    }
+    return result;
   }
 
   // This will count the bits in a ^ b.
-- 
2.43.0


From 2eb2f542939d24de90f198370b845a53940510bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 15/43] fix: negative times of nine digits are formatted
 correctly

timeNanosecondsToString() counted the sign as a digit: -754438441 became
"-s 754438441ns".
---
 aslam_cv_common/include/aslam/common/time.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_common/include/aslam/common/time.h b/aslam_cv_common/include/aslam/common/time.h
index 9308b5b..45e2018 100644
--- a/aslam_cv_common/include/aslam/common/time.h
+++ b/aslam_cv_common/include/aslam/common/time.h
@@ -74,14 +74,17 @@ inline bool isValidTime(int64_t time) {
 
 inline std::string timeNanosecondsToString(const int64_t timestamp_nanoseconds) {
   const std::string timestamp_string = std::to_string(timestamp_nanoseconds);
-  const size_t num_digits = timestamp_string.size();
+  const size_t num_chars = timestamp_string.size();
+  // The sign is not a digit.
+  const size_t num_digits =
+      timestamp_nanoseconds < 0 ? num_chars - 1u : num_chars;
   if (num_digits < 10u) {
     return timestamp_string + "ns";
   }
 
   const std::string timestamp_with_units =
-      timestamp_string.substr(0u, num_digits - 9u) + "s " +
-      timestamp_string.substr(num_digits - 9u) + "ns";
+      timestamp_string.substr(0u, num_chars - 9u) + "s " +
+      timestamp_string.substr(num_chars - 9u) + "ns";
   return timestamp_with_units;
 }
 
-- 
2.43.0


From 562ecff3d5e7fd4ef751c24a99cbe10aee9bf279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:24 +0000
Subject: [PATCH 16/43] fix: matrix rows of several columns are not taken for a
 column vector

decodeEigenMatrixData() had its check for single-element rows inverted: a
column vector written as [[1], [2]] was refused and [[1, 2], [3, 4]] was read
as the 2x1 matrix [1, 3].
---
 aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
index 8a015ab..2c9f201 100644
--- a/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
+++ b/aslam_cv_common/include/aslam/common/yaml-serialization-eigen.h
@@ -61,7 +61,7 @@ struct convert<Eigen::Matrix<Scalar_, A_, B_, C_, D_, E_> > {
         for (IndexType j = 0; j < cols; ++j) {
           CHECK(it != it_end);
           if (it->IsSequence()) {
-            CHECK(it->size() != 1u) << "Wrong dimension of Eigen-type matrix!";
+            CHECK(it->size() == 1u) << "Wrong dimension of Eigen-type matrix!";
             M(i, j) = it->begin()->as<Scalar>();
           } else {
             M(i, j) = it->as<Scalar>();
-- 
2.43.0


From 6c1d6953664282799bb1dfef1049b88f296f72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 17/43] fix: frame drop detection keeps complete nframes

Removing the nframes before two consecutive complete ones also removed
complete nframes among them, which were then never delivered.
---
 aslam_cv_pipeline/src/visual-npipeline.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index a6b0998..87c01c6 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -307,10 +307,17 @@ void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
     if (delete_upto_including_index >= 0) {
       int num_nframes_to_delete = delete_upto_including_index + 1;
       auto it_processing = processing_.begin();
+      int num_nframes_deleted = 0;
       while (it_processing != processing_.end() && num_nframes_to_delete-- > 0) {
-        it_processing = processing_.erase(it_processing);
+        if (it_processing->second->areAllFramesSet()) {
+          // Complete nframes are moved to the output queue below.
+          ++it_processing;
+        } else {
+          it_processing = processing_.erase(it_processing);
+          ++num_nframes_deleted;
+        }
       }
-      LOG(WARNING) << "Detected frame drop: removing " << delete_upto_including_index + 1
+      LOG(WARNING) << "Detected frame drop: removing " << num_nframes_deleted
                    << " nframes from the queue.";
     }
 
-- 
2.43.0


From c206ea7d8f06b421b3f67d073f921eda5557b33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 18/43] fix: nframes completed with the same timestamp are all
 delivered

completed_ was a map, so a second complete nframe with a timestamp that was
still waiting was dropped silently.
---
 aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h | 5 +++--
 aslam_cv_pipeline/src/visual-npipeline.cc                   | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h b/aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h
index c7a135c..fb6e178 100644
--- a/aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h
+++ b/aslam_cv_pipeline/include/aslam/pipeline/visual-npipeline.h
@@ -191,8 +191,9 @@ class VisualNPipeline final {
   typedef std::map<int64_t, std::shared_ptr<VisualNFrame>> TimestampVisualNFrameMap;
   /// The frames that are in progress.
   TimestampVisualNFrameMap processing_;
-  /// The output queue of completed frames.
-  TimestampVisualNFrameMap completed_;
+  typedef std::multimap<int64_t, std::shared_ptr<VisualNFrame>> TimestampVisualNFrameMultimap;
+  /// The output queue of completed frames. Several of them can have the same timestamp.
+  TimestampVisualNFrameMultimap completed_;
 
   /// A thread pool for processing.
   std::shared_ptr<aslam::ThreadPool> thread_pool_;
diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index 87c01c6..16a57db 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -179,7 +179,7 @@ bool VisualNPipeline::getLatestAndClearBlocking(
         continue;
       }
     }
-    TimestampVisualNFrameMap::const_reverse_iterator nframe_iterator =
+    TimestampVisualNFrameMultimap::const_reverse_iterator nframe_iterator =
         completed_.rbegin();
     CHECK(nframe_iterator != completed_.rend());
     *nframe = nframe_iterator->second;
-- 
2.43.0


From bbceb941870d5bea69b197f1f0c98e207fcef198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:16 +0000
Subject: [PATCH 19/43] fix: shutdown of the npipeline wakes all waiting
 threads

The flag was set and notified without holding the mutex, so a thread between
its check and its wait was never released.
---
 aslam_cv_pipeline/src/visual-npipeline.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index 16a57db..b149fb2 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -53,7 +53,12 @@ VisualNPipeline::~VisualNPipeline() {
 }
 
 void VisualNPipeline::shutdown() {
-  shutdown_ = true;
+  {
+    // A waiting thread must not miss the notification between checking the
+    // flag and starting to wait.
+    std::lock_guard<std::mutex> lock(mutex_);
+    shutdown_ = true;
+  }
   condition_not_empty_.notify_all();
   condition_not_full_.notify_all();
   thread_pool_->stop();
-- 
2.43.0


From 10e0560eb08a5dd79d20c8356ce1a30f8a68b7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 20/43] fix: blocked npipeline calls check for shutdown after
 waking up

A blocked submission that was woken up reported success although the image
was refused by the pool that had been stopped meanwhile.
---
 aslam_cv_pipeline/src/visual-npipeline.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index b149fb2..091b348 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -71,9 +71,7 @@ bool VisualNPipeline::processImageBlockingIfFull(
   while (!shutdown_) {
     if (completed_.size() >= max_queue_size) {
       condition_not_full_.wait(lock);
-      if (completed_.size() >= max_queue_size) {
-        continue;
-      }
+      continue;
     }
     processImageImpl(camera_index, image, timestamp);
     return true;
@@ -104,9 +102,7 @@ bool VisualNPipeline::getNextBlocking(std::shared_ptr<VisualNFrame>* nframe) {
   while (!shutdown_) {
     if (completed_.empty()) {
       condition_not_empty_.wait(lock);
-      if (completed_.empty()) {
-        continue;
-      }
+      continue;
     }
     // Get the oldest frame.
     *nframe = getNextImpl();
@@ -180,9 +176,7 @@ bool VisualNPipeline::getLatestAndClearBlocking(
   while (!shutdown_) {
     if (completed_.empty()) {
       condition_not_empty_.wait(lock);
-      if (completed_.empty()) {
-        continue;
-      }
+      continue;
     }
     TimestampVisualNFrameMultimap::const_reverse_iterator nframe_iterator =
         completed_.rbegin();
-- 
2.43.0


From 366749d3391f21a12cd6133327783c658b381140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:21 +0000
Subject: [PATCH 21/43] fix: camera index of the npipeline is checked against
 the last index

---
 aslam_cv_pipeline/src/visual-npipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_pipeline/src/visual-npipeline.cc b/aslam_cv_pipeline/src/visual-npipeline.cc
index 091b348..269bb3d 100644
--- a/aslam_cv_pipeline/src/visual-npipeline.cc
+++ b/aslam_cv_pipeline/src/visual-npipeline.cc
@@ -213,7 +213,7 @@ size_t VisualNPipeline::getNumFramesProcessing() const {
 
 void VisualNPipeline::work(size_t camera_index, const cv::Mat& image,
                            int64_t timestamp_nanoseconds) {
-  CHECK_LE(camera_index, pipelines_.size());
+  CHECK_LT(camera_index, pipelines_.size());
   std::shared_ptr<VisualFrame> frame;
   frame = pipelines_[camera_index]->processImage(image, timestamp_nanoseconds);
 
-- 
2.43.0


From ed18834c454af34faa591951db55cd2911b48520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:00 +0000
Subject: [PATCH 22/43] fix: discard untracked observations from all channels
 and descriptor blocks

The 3D positions and time offsets kept the discarded keypoints, and only the
first descriptor block was shortened, which aborted (or removed the wrong
descriptors) in frames with several descriptor types.
---
 aslam_cv_frames/src/visual-frame.cc | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 5dce032..e165832 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -606,11 +606,33 @@ void VisualFrame::discardUntrackedObservations(
     common::stl_helpers::eraseIndicesFromContainer(
         *discarded_indices, original_count, getKeypointScalesMutable());
   }
-  if (hasDescriptors()) {
-    common::stl_helpers::OneDimensionAdapter<unsigned char,
-    common::stl_helpers::kColumns> adapter(getDescriptorsMutable());
+  if (hasKeypoint3DPositions()) {
+    common::stl_helpers::eraseIndicesFromContainer(
+        *discarded_indices, original_count, getKeypoint3DPositionsMutable());
+  }
+  if (hasKeypointTimeOffsets()) {
     common::stl_helpers::eraseIndicesFromContainer(
-        *discarded_indices, original_count, &adapter);
+        *discarded_indices, original_count, getKeypointTimeOffsetsMutable());
+  }
+  if (hasDescriptors()) {
+    CHECK_EQ(getNumDescriptors(), static_cast<size_t>(original_count));
+    // The keypoint indices run over all descriptor blocks.
+    size_t block_start = 0u;
+    for (DescriptorsT& block :
+         aslam::channels::get_DESCRIPTORS_Data(channels_)) {
+      const size_t block_size = static_cast<size_t>(block.cols());
+      std::vector<size_t> discarded_indices_in_block;
+      for (const size_t index : *discarded_indices) {
+        if (index >= block_start && index < block_start + block_size) {
+          discarded_indices_in_block.emplace_back(index - block_start);
+        }
+      }
+      common::stl_helpers::OneDimensionAdapter<unsigned char,
+      common::stl_helpers::kColumns> adapter(&block);
+      common::stl_helpers::eraseIndicesFromContainer(
+          discarded_indices_in_block, block_size, &adapter);
+      block_start += block_size;
+    }
   }
   common::stl_helpers::eraseIndicesFromContainer(
       *discarded_indices, original_count, getTrackIdsMutable());
-- 
2.43.0


From 317c5b0dfd9796d191e53ca5f6052d2a5a95632c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:02 +0000
Subject: [PATCH 23/43] fix: clear all keypoint channels of a frame

Only the first descriptor block was cleared, and 3D positions and time offsets
were kept, so that the frame still had data of keypoints it no longer has.
---
 aslam_cv_frames/src/visual-frame.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index e165832..9226121 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -450,6 +450,16 @@ void VisualFrame::clearKeypointChannels() {
   setKeypointOrientations(zero_vector_double);
   setKeypointScores(zero_vector_double);
   setKeypointScales(zero_vector_double);
+  if (hasKeypoint3DPositions()) {
+    setKeypoint3DPositions(Eigen::Matrix3Xd());
+  }
+  if (hasKeypointTimeOffsets()) {
+    setKeypointTimeOffsets(zero_vector_int);
+  }
+  if (hasDescriptors()) {
+    aslam::channels::get_DESCRIPTORS_Data(channels_).clear();
+    setDescriptorTypes(Eigen::VectorXi());
+  }
   setDescriptors(aslam::VisualFrame::DescriptorsT());
 }
 
-- 
2.43.0


From c6c91c9f9d7a59f28e1e1ebb9be474412119695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:04 +0000
Subject: [PATCH 24/43] fix: number of keypoints of a type in a frame without
 descriptors

It is documented to be 0; the call aborted.
---
 aslam_cv_frames/src/visual-frame.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 9226121..27cf21e 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -887,11 +887,11 @@ size_t VisualFrame::getNumKeypointMeasurementsOfType(int descriptor_type) const
     return 0u;
   }
 
-  const std::vector<VisualFrame::DescriptorsT>& descriptors =
-      aslam::channels::get_DESCRIPTORS_Data(channels_);
   if (!hasDescriptorType(descriptor_type)) {
     return 0u;
   }
+  const std::vector<VisualFrame::DescriptorsT>& descriptors =
+      aslam::channels::get_DESCRIPTORS_Data(channels_);
   const size_t block = getDescriptorTypeBlock(descriptor_type);
   CHECK_LT(block, descriptors.size());
   return descriptors[block].cols();
-- 
2.43.0


From 214b112b9de5c634746261bfbb0ea25f77b2577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:46 +0000
Subject: [PATCH 25/43] fix: bearing vectors only of keypoints of the requested
 type

The index one past the last keypoint of the type passed the check, which
without assertions returns a keypoint of the next type (or beyond the end).
---
 aslam_cv_frames/src/visual-frame.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_frames/src/visual-frame.cc b/aslam_cv_frames/src/visual-frame.cc
index 27cf21e..bb7996f 100644
--- a/aslam_cv_frames/src/visual-frame.cc
+++ b/aslam_cv_frames/src/visual-frame.cc
@@ -553,7 +553,7 @@ Eigen::Matrix3Xd VisualFrame::getNormalizedBearingVectors(
 
   size_t list_idx = 0;
   for (const size_t keypoint_idx : keypoint_indices) {
-    CHECK_LE(keypoint_idx, num_keypoints);
+    CHECK_LT(keypoint_idx, num_keypoints);
     keypoints_reduced.col(list_idx++) = keypoints.col(keypoint_idx);
   }
 
-- 
2.43.0


From 0ce9912ae2230035f9c8d543b0f606c0dea05eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 26/43] fix: NCamera::setCamera keeps the other cameras' ids
 findable

---
 aslam_cv_cameras/src/ncamera.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index c3b9ce0..85432a7 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -273,9 +273,8 @@ Camera::ConstPtr NCamera::getCameraShared(size_t camera_index) const {
 void NCamera::setCamera(size_t camera_index, Camera::Ptr camera) {
   CHECK(camera);
   CHECK_LT(camera_index, cameras_.size());
-  id_to_index_.erase(cameras_[camera_index]->getId());
   cameras_[camera_index] = camera;
-  id_to_index_[camera->getId()] = camera_index;
+  initInternal();
 }
 
 size_t NCamera::numCameras() const {
-- 
2.43.0


From 58dc161a15e40e471457d3c6286607c1e36c4344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:18 +0000
Subject: [PATCH 27/43] fix: cloneRigWithoutDistortion rebuilds the id lookup
 for the new camera ids

---
 aslam_cv_cameras/src/ncamera.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index 85432a7..c3e0c61 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -341,6 +341,7 @@ aslam::NCamera::Ptr NCamera::cloneRigWithoutDistortion() const {
   aslam::NCameraId ncam_id;
   generateId(&ncam_id);
   rig_without_distortion->setId(ncam_id);
+  rig_without_distortion->initInternal();
   return rig_without_distortion;
 }
 
-- 
2.43.0


From 84b30cb35f43916a449b7c0cfa8766ae3e0f2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:21 +0000
Subject: [PATCH 28/43] fix: NCamera reads the cameras of a document instead of
 appending them

---
 aslam_cv_cameras/src/ncamera.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/src/ncamera.cc b/aslam_cv_cameras/src/ncamera.cc
index c3e0c61..7db3882 100644
--- a/aslam_cv_cameras/src/ncamera.cc
+++ b/aslam_cv_cameras/src/ncamera.cc
@@ -125,6 +125,8 @@ bool NCamera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     return false;
   }
 
+  TransformationVector T_C_B;
+  std::vector<Camera::Ptr> cameras;
   for (size_t camera_index = 0; camera_index < num_cameras; ++camera_index) {
     // Decode the camera
     const YAML::Node& camera_node = cameras_node[camera_index];
@@ -165,10 +167,12 @@ bool NCamera::loadFromYamlNodeImpl(const YAML::Node& yaml_node) {
     }
 
     // Fill in the data in the ncamera.
-    cameras_.emplace_back(camera);
-    T_C_B_.emplace_back(T_B_C.inverse());
+    cameras.emplace_back(camera);
+    T_C_B.emplace_back(T_B_C.inverse());
   }
 
+  T_C_B_ = T_C_B;
+  cameras_ = cameras;
   initInternal();
 
   return true;
-- 
2.43.0


From d4cd4d7dd0326c3bdafeb6d3646c2023d2f10cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:24 +0000
Subject: [PATCH 29/43] fix: compare multi-camera frames with empty slots

---
 aslam_cv_frames/src/visual-nframe.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index 09ab075..d04c1de 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -199,7 +199,7 @@ bool VisualNFrame::operator==(const VisualNFrame& other) const {
   same &= frames_.size() == other.frames_.size();
   if(same) {
     for(size_t i = 0; i < frames_.size(); ++i) {
-      same &= *CHECK_NOTNULL(frames_[i].get()) == *CHECK_NOTNULL(other.frames_[i].get());
+      same &= aslam::checkSharedEqual(frames_[i], other.frames_[i]);
     }
   }
   return same;
@@ -211,8 +211,11 @@ bool VisualNFrame::compareWithoutCameraSystem(const VisualNFrame& other) const {
   same &= frames_.size() == other.frames_.size();
   if(same) {
     for(size_t i = 0; i < frames_.size(); ++i) {
-      same &= CHECK_NOTNULL(frames_[i].get())->compareWithoutCameraGeometry(
-          *CHECK_NOTNULL(other.frames_[i].get()));
+      if (frames_[i] && other.frames_[i]) {
+        same &= frames_[i]->compareWithoutCameraGeometry(*other.frames_[i]);
+      } else {
+        same &= !frames_[i] && !other.frames_[i];
+      }
     }
   }
   return same;
-- 
2.43.0


From 83f422378c60f6ab6cf88f5f66ccba996b1b4414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:27 +0000
Subject: [PATCH 30/43] fix: self-assignment of a multi-camera frame keeps its
 frames

---
 aslam_cv_frames/src/visual-nframe.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index d04c1de..dcab44c 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -39,6 +39,9 @@ VisualNFrame::VisualNFrame(const VisualNFrame& other) {
 }
 
 VisualNFrame& VisualNFrame::operator=(const VisualNFrame& other) {
+  if (this == &other) {
+    return *this;
+  }
   id_ = other.id_;
   camera_rig_ = other.camera_rig_;
   frames_.clear();
-- 
2.43.0


From 857a4998aa10f46edaeb50182316235fc880beb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 31/43] fix: timestamps of multi-camera frames without camera
 system

---
 aslam_cv_frames/src/visual-nframe.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/src/visual-nframe.cc b/aslam_cv_frames/src/visual-nframe.cc
index dcab44c..9ad1628 100644
--- a/aslam_cv_frames/src/visual-nframe.cc
+++ b/aslam_cv_frames/src/visual-nframe.cc
@@ -170,7 +170,7 @@ bool VisualNFrame::isFrameValid(size_t frame_index) const {
 
 int64_t VisualNFrame::getMinTimestampNanoseconds() const {
   int64_t min_timestamp_nanoseconds = std::numeric_limits<int64_t>::max();
-  for (size_t camera_idx = 0; camera_idx < getNumCameras(); ++camera_idx) {
+  for (size_t camera_idx = 0; camera_idx < getNumFrames(); ++camera_idx) {
     if (isFrameSet(camera_idx)) {
       const int64_t timestamp_frame_nanoseconds = getFrame(camera_idx).getTimestampNanoseconds();
       if (timestamp_frame_nanoseconds < min_timestamp_nanoseconds)
@@ -184,7 +184,7 @@ int64_t VisualNFrame::getMinTimestampNanoseconds() const {
 
 int64_t VisualNFrame::getMaxTimestampNanoseconds() const {
   int64_t max_timestamp_nanoseconds = aslam::time::getInvalidTime();
-  for (size_t camera_idx = 0; camera_idx < getNumCameras(); ++camera_idx) {
+  for (size_t camera_idx = 0; camera_idx < getNumFrames(); ++camera_idx) {
     if (isFrameSet(camera_idx)) {
       const int64_t timestamp_frame_nanoseconds = getFrame(camera_idx).getTimestampNanoseconds();
       if (timestamp_frame_nanoseconds > max_timestamp_nanoseconds)
-- 
2.43.0


From e9d30a27f2145fd03feea063f6d59e977cb5b8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 32/43] fix: descriptor size of a matcher is its own, not that
 of the first one

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 05d81e7..2efcad9 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -140,7 +140,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
   bool passed_ratio_test = false;
   int n_processed_corners = 0;
   KeyPointIterator it_best;
-  const static unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
+  const unsigned int kDescriptorSizeBits = 8 * kDescriptorSizeBytes;
   int best_score = static_cast<int>(
       kDescriptorSizeBits * kMatchingThresholdBitsRatioRelaxed);
   unsigned int distance_best = kDescriptorSizeBits + 1;
-- 
2.43.0


From 46fff3c20c9cbc3b099bb406062b87d4939a2f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:44 +0000
Subject: [PATCH 33/43] fix: descriptors without a common bit are no match
 instead of an error

---
 aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
index 64fbe24..7a15096 100644
--- a/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
+++ b/aslam_cv_matcher/include/aslam/matcher/gyro-two-frame-matcher.h
@@ -79,7 +79,7 @@ class GyroTwoFrameMatcher {
     MatchData() = default;
     void addCandidate(
         const KeyPointIterator keypoint_iterator_kp1, const double matching_score) {
-      CHECK_GT(matching_score, 0.0);
+      CHECK_GE(matching_score, 0.0);
       CHECK_LE(matching_score, 1.0);
       keypoint_match_candidates_kp1.push_back(keypoint_iterator_kp1);
       match_candidate_matching_scores.push_back(matching_score);
-- 
2.43.0


From 92d8ae4ce72631e38ff1d8d96bcdeb786b36d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:46 +0000
Subject: [PATCH 34/43] fix: ratio test considers candidates seen before the
 best one

---
 aslam_cv_matcher/src/gyro-two-frame-matcher.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
index 2efcad9..6260483 100644
--- a/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
+++ b/aslam_cv_matcher/src/gyro-two-frame-matcher.cc
@@ -176,7 +176,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
     int current_score = kDescriptorSizeBits - distance;
     if (current_score > best_score) {
       best_score = current_score;
-      distance_second_best = distance_best;
+      distance_second_best = std::min(distance_best, distance_second_best);
       distance_best = distance;
       it_best = it;
       found = true;
@@ -220,7 +220,7 @@ void GyroTwoFrameMatcher::matchKeypoint(const int idx_k) {
       int current_score = kDescriptorSizeBits - distance;
       if (current_score > best_score) {
         best_score = current_score;
-        distance_second_best = distance_best;
+        distance_second_best = std::min(distance_best, distance_second_best);
         distance_best = distance;
         it_best = it;
         found = true;
-- 
2.43.0


From 310e70beaa7b2763e15d441dab7d465f8f5fbc77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:21 +0000
Subject: [PATCH 35/43] fix: sign of the project4 Jacobian for points with
 negative weight

---
 aslam_cv_cameras/src/camera.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/camera.cc b/aslam_cv_cameras/src/camera.cc
index 9a6babb..a7b5152 100644
--- a/aslam_cv_cameras/src/camera.cc
+++ b/aslam_cv_cameras/src/camera.cc
@@ -366,7 +366,10 @@ const ProjectionResult Camera::project4(
   Eigen::Matrix<double, 2, 3> Je;
   ProjectionResult ret = project3(point_3d, out_keypoint, &Je);
   out_jacobian->setZero();
-  out_jacobian->topLeftCorner<2, 3>() = Je;
+  if (point_4d[3] < 0)
+    out_jacobian->topLeftCorner<2, 3>() = -Je;
+  else
+    out_jacobian->topLeftCorner<2, 3>() = Je;
 
   return ret;
 }
-- 
2.43.0


From f2803fc7fdb0ff3396e3e296dd8cc89542485e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:28 +0000
Subject: [PATCH 36/43] fix: Jacobian of the equidistant distortion at the
 image center

---
 aslam_cv_cameras/src/distortion-equidistant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_cameras/src/distortion-equidistant.cc b/aslam_cv_cameras/src/distortion-equidistant.cc
index 7a822e2..9434841 100644
--- a/aslam_cv_cameras/src/distortion-equidistant.cc
+++ b/aslam_cv_cameras/src/distortion-equidistant.cc
@@ -38,7 +38,7 @@ void EquidistantDistortion::distortUsingExternalCoefficients(
   if (r < 1e-10) {
     // Keypoint remains unchanged.
     if(out_jacobian)
-      out_jacobian->setZero();
+      out_jacobian->setIdentity();
     return;
   }
 
-- 
2.43.0


From 90ff4de2221e184f84cfd311858a6121be560d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:33 +0000
Subject: [PATCH 37/43] fix: parameter Jacobian of the fisheye distortion close
 to the image center

---
 aslam_cv_cameras/src/distortion-fisheye.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_cameras/src/distortion-fisheye.cc b/aslam_cv_cameras/src/distortion-fisheye.cc
index 48ae4c3..a65fd05 100644
--- a/aslam_cv_cameras/src/distortion-fisheye.cc
+++ b/aslam_cv_cameras/src/distortion-fisheye.cc
@@ -100,8 +100,8 @@ void FisheyeDistortion::distortParameterJacobian(const Eigen::VectorXd* dist_coe
     out_jacobian->setZero();
   }
   else if (r_u * r_u < 1e-5) {
-    out_jacobian->setOnes();
-    *out_jacobian *= (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
+    *out_jacobian =
+        point * (w - sin(w)) / (w * w * cos(w / 2) * cos(w / 2));
   }
   else {
     const double dxd_d_w = (2 * u * (tanwhalfsq / 2 + 0.5))
-- 
2.43.0


From 742d27664b1791011b01a61019b87cbefda84de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:50 +0000
Subject: [PATCH 38/43] fix: lidar camera projects with the external intrinsics
 it is given

---
 .../include/aslam/cameras/camera-3d-lidar-inl.h          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
index df58686..5ec5bee 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar-inl.h
@@ -26,16 +26,17 @@ const ProjectionResult Camera3DLidar::project3Functional(
   const Eigen::Matrix<ScalarType, 3, 1> bearing_vector = point_3d.normalized();
 
   (*out_keypoint)[0] = (std::atan2(bearing_vector.x(), bearing_vector.z()) +
-                        horizontalCenter()) /
-                       horizontalResolution();
+                        intrinsics_external[kHorizontalCenterRad]) /
+                       intrinsics_external[kHorizontalResolutionRad];
 
   if ((*out_keypoint)[0] < 0.0) {
     (*out_keypoint)[0] = imageWidth() + (*out_keypoint)[0];
   }
 
   (*out_keypoint)[1] =
-      ((std::asin(bearing_vector.y()) + verticalCenter()) /
-       verticalResolution());
+      ((std::asin(bearing_vector.y()) +
+        intrinsics_external[kVerticalCenterRad]) /
+       intrinsics_external[kVerticalResolutionRad]);
 
   return evaluateProjectionResult(*out_keypoint, point_3d);
 }
-- 
2.43.0


From b19fa8ec0e5628591a66e953308f6b02b7105a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:52 +0000
Subject: [PATCH 39/43] fix: maximal rolling shutter delay of the lidar camera
 counts columns

---
 aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
index cdc1ea9..377e781 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-3d-lidar.h
@@ -267,6 +267,11 @@ class Camera3DLidar : public aslam::Cloneable<Camera, Camera3DLidar> {
     return this->imageWidth() * line_delay_nanoseconds_;
   }
 
+  /// \brief The maximal delay is determined by the columns, not the rows.
+  int64_t maxRollingShutterDelayNanoSeconds() const override {
+    return rollingShutterDelayNanoSeconds();
+  }
+
   /// \brief returns the number of lines, this is either the number of columns
   /// or rows or 1 in case of a global shutter camera.
   uint32_t getNumberOfLines() const {
-- 
2.43.0


From d3adf59243ecc018cd498ce48ea7c9ac3572440e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:55 +0000
Subject: [PATCH 40/43] fix: name of the lidar camera type

---
 aslam_cv_cameras/include/aslam/cameras/camera-inl.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aslam_cv_cameras/include/aslam/cameras/camera-inl.h b/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
index f9b6fd5..0f7926e 100644
--- a/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
+++ b/aslam_cv_cameras/include/aslam/cameras/camera-inl.h
@@ -44,6 +44,7 @@ inline std::ostream& operator<<(std::ostream& out, const Camera::Type& value) {
     #define INSERT_ELEMENT(type, val) names[type::val] = #val
     INSERT_ELEMENT(Camera::Type, kPinhole);
     INSERT_ELEMENT(Camera::Type, kUnifiedProjection);
+    INSERT_ELEMENT(Camera::Type, kLidar3D);
     #undef INSERT_ELEMENT
   }
   return out << names[value];
-- 
2.43.0


From dc4a01184a4654cc5bbe6b267bf6033870b4279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:55 +0000
Subject: [PATCH 41/43] fix: corners of a target that were not observed can be
 asked for

---
 .../include/aslam/calibration/target-observation.h             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/include/aslam/calibration/target-observation.h b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
index 9334ddd..08b92f1 100644
--- a/aslam_cv_calibration/include/aslam/calibration/target-observation.h
+++ b/aslam_cv_calibration/include/aslam/calibration/target-observation.h
@@ -78,7 +78,8 @@ class TargetObservation {
   }
 
   bool getObservedCornerById(int corner_id, Eigen::Vector2d* obs_corner) const {
-    CHECK_LT(corner_id, corner_ids_.rows());
+    CHECK_GE(corner_id, 0);
+    CHECK_LT(static_cast<size_t>(corner_id), target_->size());
 
     for (int i = 0; i < corner_ids_.rows(); ++i) {
       if (corner_id == corner_ids_(i)) {
-- 
2.43.0


From e848a65827de48fa05e19a3b2c781019ed8be0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 42/43] fix: a target document without tag spacing is refused

---
 aslam_cv_calibration/src/target-aprilgrid.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aslam_cv_calibration/src/target-aprilgrid.cc b/aslam_cv_calibration/src/target-aprilgrid.cc
index 18a1922..5117059 100644
--- a/aslam_cv_calibration/src/target-aprilgrid.cc
+++ b/aslam_cv_calibration/src/target-aprilgrid.cc
@@ -31,7 +31,7 @@ TargetAprilGrid::TargetConfiguration::fromYaml(const std::string& yaml_file) {
     CHECK_GT(target_config.num_tag_rows, 0u);
     YAML::safeGet(yaml_node, "tagSize", &target_config.tag_size_meter);
     CHECK_GT(target_config.tag_size_meter, 0.0);
-    double relative_tag_spacing;
+    double relative_tag_spacing = 0.0;
     YAML::safeGet(yaml_node, "tagSpacing", &relative_tag_spacing);
     target_config.tag_inbetween_space_meter =
         relative_tag_spacing * target_config.tag_size_meter;
-- 
2.43.0


From 5215cc318b6af3efd46e343b5ed333ef8d2d67cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:59 +0000
Subject: [PATCH 43/43] fix: extent of feature tracks with negative coordinates

---
 aslam_cv_frames/include/aslam/frames/feature-track.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aslam_cv_frames/include/aslam/frames/feature-track.h b/aslam_cv_frames/include/aslam/frames/feature-track.h
index 3e6a8f0..fef1390 100644
--- a/aslam_cv_frames/include/aslam/frames/feature-track.h
+++ b/aslam_cv_frames/include/aslam/frames/feature-track.h
@@ -25,9 +25,9 @@ class FeatureTrack {
 
   inline double getDiagonalSqOfDisparityBoundingBox() const {
     double u_min = std::numeric_limits<double>::max();
-    double u_max = std::numeric_limits<double>::min();
+    double u_max = std::numeric_limits<double>::lowest();
     double v_min = std::numeric_limits<double>::max();
-    double v_max = std::numeric_limits<double>::min();
+    double v_max = std::numeric_limits<double>::lowest();
 
     for (const KeypointIdentifier& kid : getKeypointIdentifiers()) {
       const Eigen::Block<const Eigen::Matrix2Xd, 2, 1> keypoint = kid.getKeypointMeasurement();
-- 
2.43.0


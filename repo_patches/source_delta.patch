From a50d509db6a7c274eb6525c048ea311c5ae7685d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 01/36] fix: add_double must add to the value it compared
 against

It loaded the number twice, so that a reset between the two loads was undone
and what had just been reported was reported again.
---
 spectator/atomicnumber.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/spectator/atomicnumber.h b/spectator/atomicnumber.h
index f5be358..e15e603 100644
--- a/spectator/atomicnumber.h
+++ b/spectator/atomicnumber.h
@@ -10,8 +10,7 @@ inline auto add_double(std::atomic<double>* n, double delta) -> void {
   double current;
   do {
     current = n->load(std::memory_order_relaxed);
-  } while (!n->compare_exchange_weak(
-      current, n->load(std::memory_order_relaxed) + delta));
+  } while (!n->compare_exchange_weak(current, current + delta));
 }
 
 /// Atomically set the max value of an atomic number
-- 
2.43.0


From 17279079d3e6ba97fc1f6dd8b2ae972012dd7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 02/36] fix: ignore NaN increments of counters

---
 spectator/counter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spectator/counter.cc b/spectator/counter.cc
index 0804622..b66200e 100644
--- a/spectator/counter.cc
+++ b/spectator/counter.cc
@@ -22,7 +22,8 @@ void Counter::Increment() noexcept { Add(1.0); }
 void Counter::Add(double delta) noexcept {
   Update();
 
-  if (delta < 0) {
+  // also true for NaN, which would otherwise stick in the counter
+  if (!(delta >= 0)) {
     return;
   }
   add_double(&count_, delta);
-- 
2.43.0


From 651440d64e9b61dcc6453576e03ac4d3b7a14a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:22 +0000
Subject: [PATCH 03/36] fix: MonotonicCounter must read its value once per
 measurement

Growth between the two reads was never reported.
---
 spectator/monotonic_counter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spectator/monotonic_counter.cc b/spectator/monotonic_counter.cc
index 980adef..da1888b 100644
--- a/spectator/monotonic_counter.cc
+++ b/spectator/monotonic_counter.cc
@@ -19,9 +19,9 @@ auto MonotonicCounter::Delta() const noexcept -> double {
 }
 
 void MonotonicCounter::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed),
-                    std::memory_order_relaxed);
+  auto value = value_.load(std::memory_order_relaxed);
+  auto delta = value - prev_value_.load(std::memory_order_relaxed);
+  prev_value_.store(value, std::memory_order_relaxed);
   if (delta > 0) {
     if (!count_id_) {
       count_id_ =
-- 
2.43.0


From 8bc260066b3841d01479f7a8b3e6f6347b278ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 04/36] fix: MonotonicCounterUint must measure one value, and
 none before it is set

Growth between its two reads was never reported, and a measurement between
creation and the first Set made the absolute value appear as growth.
---
 spectator/monotonic_counter_uint.cc | 26 ++++++++++++++++++--------
 spectator/monotonic_counter_uint.h  |  1 +
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/spectator/monotonic_counter_uint.cc b/spectator/monotonic_counter_uint.cc
index a89ef2b..58b7f6c 100644
--- a/spectator/monotonic_counter_uint.cc
+++ b/spectator/monotonic_counter_uint.cc
@@ -13,14 +13,10 @@ MonotonicCounterUint::MonotonicCounterUint(Id id) noexcept
 void MonotonicCounterUint::Set(uint64_t amount) noexcept {
   Update();
   value_.store(amount, std::memory_order_relaxed);
+  has_value_.store(true, std::memory_order_release);
 }
 
-auto MonotonicCounterUint::Delta() const noexcept -> double {
-  if (!init_.load(std::memory_order_relaxed)) return kNaN;
-
-  auto prev = prev_value_.load(std::memory_order_relaxed);
-  auto curr = value_.load(std::memory_order_relaxed);
-
+static auto growth(uint64_t prev, uint64_t curr) -> double {
   if (curr < prev) {
     return kMax - prev + curr + 1;
   } else {
@@ -28,9 +24,23 @@ auto MonotonicCounterUint::Delta() const noexcept -> double {
   }
 }
 
+auto MonotonicCounterUint::Delta() const noexcept -> double {
+  if (!init_.load(std::memory_order_relaxed)) return kNaN;
+
+  auto prev = prev_value_.load(std::memory_order_relaxed);
+  auto curr = value_.load(std::memory_order_relaxed);
+  return growth(prev, curr);
+}
+
 void MonotonicCounterUint::Measure(Measurements* results) const noexcept {
-  auto delta = Delta();
-  prev_value_.store(value_.load(std::memory_order_relaxed), std::memory_order_relaxed);
+  // created, but not set yet: there is nothing to start from
+  if (!has_value_.load(std::memory_order_acquire)) return;
+
+  auto curr = value_.load(std::memory_order_relaxed);
+  auto delta = init_.load(std::memory_order_relaxed)
+                   ? growth(prev_value_.load(std::memory_order_relaxed), curr)
+                   : kNaN;
+  prev_value_.store(curr, std::memory_order_relaxed);
   init_.store(true, std::memory_order_relaxed);
 
   if (delta > 0) {
diff --git a/spectator/monotonic_counter_uint.h b/spectator/monotonic_counter_uint.h
index 64ca7ab..85ee64b 100644
--- a/spectator/monotonic_counter_uint.h
+++ b/spectator/monotonic_counter_uint.h
@@ -15,6 +15,7 @@ class MonotonicCounterUint : public Meter {
  private:
   mutable std::unique_ptr<Id> count_id_;
   mutable std::atomic<bool> init_;
+  std::atomic<bool> has_value_{false};
   mutable std::atomic<uint64_t> value_;
   mutable std::atomic<uint64_t> prev_value_;
 };
-- 
2.43.0


From cb24d9d50f7e1c772e3cb712701736f64c14057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 05/36] fix: MonotonicSampled must compute and consume the rate
 in one step

A sample arriving between the two locked sections was never reported.
---
 spectator/monotonic_sampled.cc | 14 +++++++++-----
 spectator/monotonic_sampled.h  |  2 ++
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index 1e1d5bf..b78e0da 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -29,13 +29,13 @@ void MonotonicSampled::Set(double amount, int64_t ts_nanos) noexcept {
 }
 
 void MonotonicSampled::Measure(Measurements* results) const noexcept {
-  auto sampled_delta = SampledRate();
-  if (std::isnan(sampled_delta)) {
-    return;
-  }
-
+  double sampled_delta;
   {
     absl::MutexLock lock(&mutex_);
+    sampled_delta = rate();
+    if (std::isnan(sampled_delta)) {
+      return;
+    }
     prev_value_ = value_;
     prev_ts_ = ts_;
   }
@@ -50,6 +50,10 @@ void MonotonicSampled::Measure(Measurements* results) const noexcept {
 
 auto MonotonicSampled::SampledRate() const noexcept -> double {
   absl::MutexLock lock(&mutex_);
+  return rate();
+}
+
+auto MonotonicSampled::rate() const noexcept -> double {
   auto delta_t = (ts_ - prev_ts_) / 1e9;
   return (value_ - prev_value_) / delta_t;
 }
diff --git a/spectator/monotonic_sampled.h b/spectator/monotonic_sampled.h
index 5618108..94d45ef 100644
--- a/spectator/monotonic_sampled.h
+++ b/spectator/monotonic_sampled.h
@@ -14,6 +14,8 @@ class MonotonicSampled : public Meter {
   auto SampledRate() const noexcept -> double;
 
  private:
+  auto rate() const noexcept -> double ABSL_EXCLUSIVE_LOCKS_REQUIRED(mutex_);
+
   mutable std::unique_ptr<Id> count_id_;
   mutable absl::Mutex mutex_;
   double value_ ABSL_GUARDED_BY(mutex_);
-- 
2.43.0


From e2ecdb8110b9f8c21458e6dceecc7eac0605b1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 06/36] fix: MonotonicSampled must ignore a second sample for
 the same time

It made the rate infinite.
---
 spectator/monotonic_sampled.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/monotonic_sampled.cc b/spectator/monotonic_sampled.cc
index b78e0da..c0ca749 100644
--- a/spectator/monotonic_sampled.cc
+++ b/spectator/monotonic_sampled.cc
@@ -16,7 +16,7 @@ void MonotonicSampled::Set(double amount, int64_t ts_nanos) noexcept {
 
   absl::MutexLock lock(&mutex_);
   // ignore out of order points, or wrap arounds
-  if (ts_nanos < ts_) {
+  if (ts_nanos <= ts_) {
     return;
   }
   // only update prev values at most once per reporting interval
-- 
2.43.0


From 1a1dc9bbd99a1ff59795c4c6ef4076804e58adb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:55 +0000
Subject: [PATCH 07/36] fix: timers and distribution summaries must count a
 recording last

A measurement in the middle of a recording took its count and left the rest of
it behind, to be reported with a later recording or, if there was none, never.
---
 spectator/dist_summary.cc | 5 +++--
 spectator/timer.cc        | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/spectator/dist_summary.cc b/spectator/dist_summary.cc
index 4f1fb13..2180373 100644
--- a/spectator/dist_summary.cc
+++ b/spectator/dist_summary.cc
@@ -9,7 +9,7 @@ DistributionSummary::DistributionSummary(Id id) noexcept
 
 auto DistributionSummary::Measure(Measurements* results) const noexcept
     -> void {
-  auto cnt = count_.exchange(0, std::memory_order_relaxed);
+  auto cnt = count_.exchange(0, std::memory_order_acquire);
   if (cnt == 0) {
     return;
   }
@@ -31,10 +31,11 @@ auto DistributionSummary::Record(double amount) noexcept -> void {
   Update();
 
   if (amount >= 0) {
-    count_.fetch_add(1, std::memory_order_relaxed);
     add_double(&total_, amount);
     add_double(&totalSq_, amount * amount);
     update_max(&max_, amount);
+    // last: a measurement that sees the count also sees the rest
+    count_.fetch_add(1, std::memory_order_release);
   }
 }
 
diff --git a/spectator/timer.cc b/spectator/timer.cc
index 3218601..865de41 100644
--- a/spectator/timer.cc
+++ b/spectator/timer.cc
@@ -8,7 +8,7 @@ Timer::Timer(Id id) noexcept
     : Meter(std::move(id)), count_(0), total_(0), totalSq_(0.0), max_(0) {}
 
 void Timer::Measure(Measurements* results) const noexcept {
-  auto cnt = count_.exchange(0, std::memory_order_relaxed);
+  auto cnt = count_.exchange(0, std::memory_order_acquire);
   if (cnt == 0) {
     return;
   }
@@ -33,10 +33,11 @@ void Timer::Record(absl::Duration amount) noexcept {
   Update();
   int64_t ns = amount / absl::Nanoseconds(1);
   if (ns >= 0) {
-    count_.fetch_add(1, std::memory_order_relaxed);
     total_.fetch_add(ns, std::memory_order_relaxed);
     add_double(&totalSq_, static_cast<double>(ns) * ns);
     update_max(&max_, ns);
+    // last: a measurement that sees the count also sees the rest
+    count_.fetch_add(1, std::memory_order_release);
   }
 }
 
-- 
2.43.0


From c24faa99504d55eea72aaa486f4877cc4ce98ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 08/36] fix: an update of a gauge must not be torn by a
 measurement

Between the time stamp and the value a measurement reported an expired value as
fresh, or reset the gauge after the new value had been stored so that the
update was lost. A new ttl brought an expired value back.
---
 spectator/gauge.cc | 15 ++++++++++++---
 spectator/gauge.h  |  3 +++
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/spectator/gauge.cc b/spectator/gauge.cc
index e87cd63..e74cc62 100644
--- a/spectator/gauge.cc
+++ b/spectator/gauge.cc
@@ -25,9 +25,12 @@ auto Gauge::HasExpired(int64_t now) const noexcept -> bool {
 
 void Gauge::Measure(Measurements* results, int64_t now) const noexcept {
   double value;
-  if (HasExpired(now)) {
-    value = value_.exchange(kNAN, std::memory_order_relaxed);
-  } else {
+  {
+    absl::MutexLock lock(&mutex_);
+    if (HasExpired(now)) {
+      value_.store(kNAN, std::memory_order_relaxed);
+      return;
+    }
     value = value_.load(std::memory_order_relaxed);
   }
 
@@ -41,6 +44,7 @@ void Gauge::Measure(Measurements* results, int64_t now) const noexcept {
 }
 
 void Gauge::Set(double value) noexcept {
+  absl::MutexLock lock(&mutex_);
   Update();
 
   value_.store(value, std::memory_order_relaxed);
@@ -51,6 +55,11 @@ auto Gauge::Get() const noexcept -> double {
 }
 
 void Gauge::SetTtl(absl::Duration ttl) noexcept {
+  absl::MutexLock lock(&mutex_);
+  if (HasExpired(absl::GetCurrentTimeNanos())) {
+    // a longer ttl must not bring the old value back
+    value_.store(kNAN, std::memory_order_relaxed);
+  }
   this->ttl_nanos_ = get_ttl(ttl);
 }
 
diff --git a/spectator/gauge.h b/spectator/gauge.h
index c9aed82..9d35206 100644
--- a/spectator/gauge.h
+++ b/spectator/gauge.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "absl/synchronization/mutex.h"
 #include "meter.h"
 #include <atomic>
 
@@ -20,6 +21,8 @@ class Gauge : public Meter {
   auto HasExpired(int64_t now) const noexcept -> bool;
 
  private:
+  // value, ttl and time of the last update change together
+  mutable absl::Mutex mutex_;
   std::atomic<int64_t> ttl_nanos_;
   mutable std::unique_ptr<Id> gauge_id_;
   mutable std::atomic<double> value_;
-- 
2.43.0


From 57dca86a9350c495bbfe71a69de350f763c3a268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:39 +0000
Subject: [PATCH 09/36] fix: an age gauge without a recorded success has no age

A measurement between its creation and the first success reported the time
since 1970.
---
 spectator/age_gauge.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectator/age_gauge.h b/spectator/age_gauge.h
index b097cda..59512c7 100644
--- a/spectator/age_gauge.h
+++ b/spectator/age_gauge.h
@@ -10,6 +10,10 @@ class AgeGauge : public Meter {
   explicit AgeGauge(Id id) noexcept : Meter{std::move(id)}, last_success_{0} {}
 
   void Measure(Measurements* results) const noexcept {
+    if (GetLastSuccess() == 0) {
+      // created, but no success recorded yet
+      return;
+    }
     if (!gauge_id_) {
       gauge_id_ =
           std::make_unique<Id>(MeterId().WithDefaultStat(refs().gauge()));
-- 
2.43.0


From 95d00f7735b1a019e22ccc332195fadebf5d8936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 10/36] fix: look up, limit and create age gauges in one step

Deleting the gauge between contains and at threw out of a noexcept function, and
two creations could exceed the limit.
---
 spectator/registry.cc | 31 +++++++++++++------------------
 spectator/registry.h  | 19 +++++++++++++++----
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/spectator/registry.cc b/spectator/registry.cc
index 88514f4..25a39a6 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -26,26 +26,21 @@ auto Registry::GetLogger() const noexcept -> Registry::logger_ptr {
 }
 
 auto Registry::GetAgeGauge(Id id) noexcept -> std::shared_ptr<AgeGauge> {
-  if (all_meters_.age_gauges_.contains(id)) {
-    return all_meters_.age_gauges_.at(id);
-  } else {
-    if (all_meters_.age_gauges_.size() < config_->age_gauge_limit) {
-      return all_meters_.insert_age_gauge(std::move(id));
-    } else {
-      logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
-                    config_->age_gauge_limit);
-
-      if (age_gauge_first_warn_) {
-        auto known_age_gauges = all_meters_.age_gauges_.get_ids();
-        for (size_t i = 0; i < known_age_gauges.size(); ++i) {
-          logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
-        }
-        age_gauge_first_warn_ = false;
-      }
-
-      return std::make_shared<AgeGauge>(std::move(id));
+  if (auto g = all_meters_.insert_age_gauge(id, config_->age_gauge_limit)) {
+    return g;
+  }
+  logger_->warn("max number of age gauges ({}) has been reached, skipping creation",
+                config_->age_gauge_limit);
+
+  if (age_gauge_first_warn_) {
+    auto known_age_gauges = all_meters_.age_gauges_.get_ids();
+    for (size_t i = 0; i < known_age_gauges.size(); ++i) {
+      logger_->warn("known age gauge {}: {}", i, known_age_gauges[i]);
     }
+    age_gauge_first_warn_ = false;
   }
+
+  return std::make_shared<AgeGauge>(std::move(id));
 }
 
 auto Registry::GetAgeGauge(std::string_view name, Tags tags) noexcept
diff --git a/spectator/registry.h b/spectator/registry.h
index 936b239..21f0514 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -69,9 +69,19 @@ struct meter_map {
     return insert_result.first->second;
   }
 
-  auto at(const Id& id) -> std::shared_ptr<M> {
+  // insert unless limit meters exist already; null if it was refused
+  auto insert_limited(std::shared_ptr<M> meter, size_t limit)
+      -> std::shared_ptr<M> {
     absl::MutexLock lock(&meters_mutex_);
-    return meters_.at(id);
+    auto it = meters_.find(meter->MeterId());
+    if (it != meters_.end()) {
+      return it->second;
+    }
+    if (meters_.size() >= limit) {
+      return nullptr;
+    }
+    const auto& id = meter->MeterId();
+    return meters_.emplace(id, std::move(meter)).first->second;
   }
 
   void measure(std::vector<Measurement>* res, int64_t meter_ttl) const {
@@ -216,8 +226,9 @@ struct all_meters {
     return {total_expired, total_count};
   }
 
-  auto insert_age_gauge(Id id) {
-    return age_gauges_.insert(std::make_shared<AgeGauge>(std::move(id)));
+  auto insert_age_gauge(Id id, size_t limit) {
+    return age_gauges_.insert_limited(std::make_shared<AgeGauge>(std::move(id)),
+                                      limit);
   }
 
   auto insert_counter(Id id) {
-- 
2.43.0


From 557fab7d49e2d3174d06efecd568ac15a470b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 11/36] fix: deleting a meter must answer true to only one of
 two requests

---
 spectator/registry.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 21f0514..6f7605d 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -119,13 +119,8 @@ struct meter_map {
   }
 
   auto remove_one(Id id) noexcept -> bool {
-    if (contains(id)) {
-      absl::MutexLock lock{&meters_mutex_};
-      meters_.erase(id);
-      return true;
-    } else {
-      return false;
-    }
+    absl::MutexLock lock{&meters_mutex_};
+    return meters_.erase(id) > 0;
   }
 
   void remove_all() noexcept {
-- 
2.43.0


From b0e259059e184f5ccc47fd2dcc272ef23051b599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 12/36] fix: remove all meters of a kind without iterating over
 what is being erased

Erasing may shrink or move the entries the loop is still to visit, and passes a
reference to the key being destroyed.
---
 spectator/registry.h | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 6f7605d..7f097a5 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -56,11 +56,6 @@ struct meter_map {
     return meters_.size();
   }
 
-  auto contains(const Id& id) -> bool {
-    absl::MutexLock lock(&meters_mutex_);
-    return meters_.contains(id);
-  }
-
   // only insert if it doesn't exist, otherwise return the existing meter
   auto insert(std::shared_ptr<M> meter) -> std::shared_ptr<M> {
     absl::MutexLock lock(&meters_mutex_);
@@ -125,12 +120,7 @@ struct meter_map {
 
   void remove_all() noexcept {
     absl::MutexLock lock{&meters_mutex_};
-    auto it = meters_.begin();
-    auto end = meters_.end();
-    while (it != end) {
-      meters_.erase(it->first);
-      ++it;
-    }
+    meters_.clear();
   }
 
   auto get_ids() const -> std::vector<Id> {
-- 
2.43.0


From c3a12106950faac9e6cfa2ca73bef419f7b6dda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 13/36] fix: do not drop a meter that is about to be updated

An idle meter could be removed between its lookup and its update, which was then
lost.
---
 spectator/meter.h    |  6 ++++++
 spectator/registry.h | 12 +++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/spectator/meter.h b/spectator/meter.h
index 10e1989..88ccd1a 100644
--- a/spectator/meter.h
+++ b/spectator/meter.h
@@ -17,10 +17,16 @@ struct Meter {
   [[nodiscard]] auto Updated() const noexcept -> int64_t {
     return last_updated_;
   }
+  // when the registry last gave out a reference, probably for an update
+  [[nodiscard]] auto Accessed() const noexcept -> int64_t {
+    return last_accessed_;
+  }
+  void Access() noexcept { last_accessed_ = absl::GetCurrentTimeNanos(); }
 
  private:
   Id id_;
   std::atomic_int64_t last_updated_;
+  std::atomic_int64_t last_accessed_{0};
 
  protected:
   auto Update() -> void { last_updated_ = absl::GetCurrentTimeNanos(); }
diff --git a/spectator/registry.h b/spectator/registry.h
index 7f097a5..3e30a4f 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -45,6 +45,14 @@ inline auto is_meter_expired<Gauge>(int64_t now, const Gauge& m,
   return m.HasExpired(now);
 }
 
+// a reference given out a moment ago is about to be used for an update
+template <typename T>
+inline auto is_meter_in_use(int64_t now, const T& m, int64_t meter_ttl)
+    -> bool {
+  static constexpr int64_t kGraceNanos = int64_t(5) * 1000 * 1000 * 1000;
+  return now - m.Accessed() <= std::min(kGraceNanos, meter_ttl);
+}
+
 template <typename M>
 struct meter_map {
   mutable absl::Mutex meters_mutex_{};
@@ -61,6 +69,7 @@ struct meter_map {
     absl::MutexLock lock(&meters_mutex_);
     const auto& id = meter->MeterId();
     auto insert_result = meters_.emplace(id, std::move(meter));
+    insert_result.first->second->Access();
     return insert_result.first->second;
   }
 
@@ -102,7 +111,8 @@ struct meter_map {
       auto end = meters_.end();
       while (it != end) {
         ++total;
-        if (is_meter_expired(now, *it->second, meter_ttl)) {
+        if (is_meter_expired(now, *it->second, meter_ttl) &&
+            !is_meter_in_use(now, *it->second, meter_ttl)) {
           it = meters_.erase(it);
           ++expired;
         } else {
-- 
2.43.0


From 50a354e6eb80ee0dc1a0ada901fc8f3c0c7166f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 14/36] fix: measure, count and expire monotonic sampled meters

They were accepted and then neither reported nor ever dropped.
---
 spectator/registry.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spectator/registry.h b/spectator/registry.h
index 3e30a4f..5904122 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -172,7 +172,7 @@ struct all_meters {
   auto size() const -> size_t {
     return age_gauges_.size() + counters_.size() + dist_sums_.size() +
            gauges_.size() + max_gauges_.size() + mono_counters_.size() +
-           mono_counters_uint_.size() + timers_.size();
+           mono_counters_uint_.size() + mono_sampled_.size() + timers_.size();
   }
 
   auto measure(int64_t meter_ttl) const -> std::vector<Measurement> {
@@ -185,6 +185,7 @@ struct all_meters {
     max_gauges_.measure(&res, meter_ttl);
     mono_counters_.measure(&res, meter_ttl);
     mono_counters_uint_.measure(&res, meter_ttl);
+    mono_sampled_.measure(&res, meter_ttl);
     timers_.measure(&res, meter_ttl);
     return res;
   }
@@ -215,6 +216,9 @@ struct all_meters {
     std::tie(expired, count) = mono_counters_uint_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
+    std::tie(expired, count) = mono_sampled_.remove_expired(meter_ttl);
+    total_expired += expired;
+    total_count += count;
     std::tie(expired, count) = timers_.remove_expired(meter_ttl);
     total_expired += expired;
     total_count += count;
-- 
2.43.0


From bd8eeca16814ca33d287db52266df5b100329012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:15 +0000
Subject: [PATCH 15/36] fix: read the value of a monotonic sampled line as the
 double it was parsed as

---
 server/spectatord.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 0207e8d..2832f19 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -592,7 +592,7 @@ auto Server::parse_line(const char* buffer) -> std::optional<std::string> {
         // extra is milliseconds since the epoch
         auto nanos = extra * 1000 * 1000;
         registry_->GetMonotonicSampled(measurement->id)
-            ->Set(measurement->value.u, nanos);
+            ->Set(measurement->value.d, nanos);
       }
       break;
     default:
-- 
2.43.0


From 75a5dbd9bda6d202b80521039d6ac213cc2c0378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 16/36] fix: a measurement must own its id

The publisher sends measurements after the registry's lock was released; the
expirer or an admin DELETE can free the meter whose id they refer to.
---
 spectator/measurement.h | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/spectator/measurement.h b/spectator/measurement.h
index 3e2264f..cfefd34 100644
--- a/spectator/measurement.h
+++ b/spectator/measurement.h
@@ -9,15 +9,12 @@ namespace spectator {
 
 class Measurement {
  public:
-  Measurement(const Id& id_param, double value_param) noexcept
-      : id{id_param}, value{value_param} {}
+  // The id is owned: the meter it came from may be gone by the time the
+  // measurement is sent.
+  Measurement(Id id_param, double value_param) noexcept
+      : id{std::move(id_param)}, value{value_param} {}
 
-  // We do not own the id_param so temporary references will cause problems.
-  // This could happen if the user tries something like:
-  // Measurement(id.withTag(...), value);
-  Measurement(Id&& error, double value_param) noexcept = delete;
-
-  const Id& id;
+  Id id;
   double value;
 
   auto operator==(const Measurement& other) const -> bool {
-- 
2.43.0


From 5cc43716c52a9ba8d3d0ff41620e42226bc739ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:48 +0000
Subject: [PATCH 17/36] fix: move assignment of tags must take over the
 capacity and free what it had

---
 spectator/tags.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spectator/tags.h b/spectator/tags.h
index b8f6f83..b7b441d 100644
--- a/spectator/tags.h
+++ b/spectator/tags.h
@@ -58,10 +58,17 @@ class Tags {
   auto operator=(const Tags&) -> Tags& = delete;
 
   auto operator=(Tags&& o) noexcept -> Tags& {
+    if (this == &o) {
+      return *this;
+    }
+    if (is_large()) {
+      free(begin_);
+    }
     size_ = o.size_;
     if (is_large()) {
       begin_ = o.begin_;
       o.begin_ = nullptr;
+      U.capacity_ = o.U.capacity_;
     } else {
       begin_ = &U.entries_[0];
       std::copy(o.begin(), o.end(), begin());
-- 
2.43.0


From 304ead18340d38a01aac9b8b6e9b72586c605757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:17 +0000
Subject: [PATCH 18/36] fix: listing the meters must keep them alive

GET /metrics walks pointers to meters which the expirer or a DELETE frees.
---
 admin/admin_server.cc | 38 +++++++++++++++++++-------------------
 spectator/registry.h  | 43 +++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 62 insertions(+), 19 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index 765d2c1..f07b141 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -146,12 +146,12 @@ void POST_config_common_tags(HTTPServerRequest& req, HTTPServerResponse& res,
   res.send() << R"({"message": "common tags updated"})";
 }
 
-Poco::SharedPtr<Object> fmt_meter_object(spectator::Meter* meter) {
+Poco::SharedPtr<Object> fmt_meter_object(const spectator::Meter& meter) {
   Object::Ptr obj = new Object(true);
-  obj->set("name", fmt::format("{}", meter->MeterId().Name()));
+  obj->set("name", fmt::format("{}", meter.MeterId().Name()));
 
   Object::Ptr tag_obj = new Object(true);
-  for (auto tag_it : meter->MeterId().GetTags()) {
+  for (auto tag_it : meter.MeterId().GetTags()) {
     tag_obj->set(fmt::format("{}", tag_it.key), fmt::format("{}", tag_it.value));
   }
   obj->set("tags", tag_obj);
@@ -163,64 +163,64 @@ void GET_metrics(HTTPServerRequest& req, HTTPServerResponse& res, spectator::Reg
   Object::Ptr obj = new Object(true);
 
   Poco::JSON::Array::Ptr age_gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.AgeGauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.Snapshot<spectator::AgeGauge>()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Value()));
     age_gauges->add(meter);
   }
   obj->set("age_gauges", age_gauges);
 
   Poco::JSON::Array::Ptr counters = new Poco::JSON::Array(true);
-  for (auto it : registry.Counters()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.Snapshot<spectator::Counter>()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Count()));
     counters->add(meter);
   }
   obj->set("counters", counters);
 
   Poco::JSON::Array::Ptr dist_summaries = new Poco::JSON::Array(true);
-  for (auto it : registry.DistSummaries()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.Snapshot<spectator::DistributionSummary>()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->TotalAmount()));
     dist_summaries->add(meter);
   }
   obj->set("dist_summaries", dist_summaries);
 
   Poco::JSON::Array::Ptr gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.Gauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.Snapshot<spectator::Gauge>()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Get()));
     gauges->add(meter);
   }
   obj->set("gauges", gauges);
 
   Poco::JSON::Array::Ptr max_gauges = new Poco::JSON::Array(true);
-  for (auto it : registry.MaxGauges()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.Snapshot<spectator::MaxGauge>()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Get()));
     max_gauges->add(meter);
   }
   obj->set("max_gauges", max_gauges);
 
   Poco::JSON::Array::Ptr mono_counters = new Poco::JSON::Array(true);
-  for (auto it : registry.MonotonicCounters()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.Snapshot<spectator::MonotonicCounter>()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Delta()));
     mono_counters->add(meter);
   }
   obj->set("mono_counters", mono_counters);
 
   Poco::JSON::Array::Ptr mono_counters_uint = new Poco::JSON::Array(true);
-  for (auto it : registry.MonotonicCountersUint()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.Snapshot<spectator::MonotonicCounterUint>()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->Delta()));
     mono_counters_uint->add(meter);
   }
   obj->set("mono_counters_uint", mono_counters_uint);
 
   Poco::JSON::Array::Ptr timers = new Poco::JSON::Array(true);
-  for (auto it : registry.Timers()) {
-    auto meter = fmt_meter_object((spectator::Meter*)it);
+  for (const auto& it : registry.Snapshot<spectator::Timer>()) {
+    auto meter = fmt_meter_object(*it);
     meter->set("value", fmt::format("{}", it->TotalTime()));
     timers->add(meter);
   }
diff --git a/spectator/registry.h b/spectator/registry.h
index 5904122..1430964 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -145,6 +145,20 @@ struct meter_map {
     return res;
   }
 
+  // like get_values, for callers that use the meters while others may be
+  // removing them
+  auto get_all() const -> std::vector<std::shared_ptr<const M>> {
+    std::vector<std::shared_ptr<const M>> res;
+    {
+      absl::MutexLock lock{&meters_mutex_};
+      res.reserve(meters_.size());
+      for (const auto& pair : meters_) {
+        res.emplace_back(pair.second);
+      }
+    }
+    return res;
+  }
+
   auto get_values() const -> std::vector<const M*> {
     std::vector<const M*> res;
     {
@@ -175,6 +189,29 @@ struct all_meters {
            mono_counters_uint_.size() + mono_sampled_.size() + timers_.size();
   }
 
+  template <typename M>
+  auto get_all() const -> std::vector<std::shared_ptr<const M>> {
+    if constexpr (std::is_same_v<M, AgeGauge>) {
+      return age_gauges_.get_all();
+    } else if constexpr (std::is_same_v<M, Counter>) {
+      return counters_.get_all();
+    } else if constexpr (std::is_same_v<M, DistributionSummary>) {
+      return dist_sums_.get_all();
+    } else if constexpr (std::is_same_v<M, Gauge>) {
+      return gauges_.get_all();
+    } else if constexpr (std::is_same_v<M, MaxGauge>) {
+      return max_gauges_.get_all();
+    } else if constexpr (std::is_same_v<M, MonotonicCounter>) {
+      return mono_counters_.get_all();
+    } else if constexpr (std::is_same_v<M, MonotonicCounterUint>) {
+      return mono_counters_uint_.get_all();
+    } else if constexpr (std::is_same_v<M, MonotonicSampled>) {
+      return mono_sampled_.get_all();
+    } else {
+      return timers_.get_all();
+    }
+  }
+
   auto measure(int64_t meter_ttl) const -> std::vector<Measurement> {
     std::vector<Measurement> res;
     res.reserve(size() * 2);
@@ -348,6 +385,12 @@ class Registry {
   bool DeleteMeter(const std::string& type, const Id& id);
   void DeleteAllMeters(const std::string& type);
 
+  // a snapshot of the meters, which keeps them alive
+  template <typename M>
+  auto Snapshot() const -> std::vector<std::shared_ptr<const M>> {
+    return all_meters_.get_all<M>();
+  }
+
   // for debugging / testing
   auto AgeGauges() const -> std::vector<const AgeGauge*> {
     return all_meters_.age_gauges_.get_values();
-- 
2.43.0


From 58a7b79098e21dc08e38168ce9c07b67db2d983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 19/36] fix: percentile meters must record into the meter that
 is registered

A cached percentile timer or distribution summary kept recording into its base
meter after that one had expired and was no longer reported.
---
 spectator/percentile_distribution_summary.h | 15 ++++++++-------
 spectator/percentile_timer.h                | 10 ++++------
 2 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/spectator/percentile_distribution_summary.h b/spectator/percentile_distribution_summary.h
index 253ddb5..ed31044 100644
--- a/spectator/percentile_distribution_summary.h
+++ b/spectator/percentile_distribution_summary.h
@@ -14,9 +14,7 @@ class PercentileDistributionSummary {
       : registry_{registry},
         id_{std::move(id)},
         min_{min},
-        max_{max},
-        dist_summary_{registry->GetDistributionSummary(id_)} {
-  }
+        max_{max} {}
 
   auto get_counter(size_t index, const std::string* perc_tags) -> std::shared_ptr<Counter> {
     using spectator::refs;
@@ -30,7 +28,7 @@ class PercentileDistributionSummary {
       return;
     }
 
-    dist_summary_->Record(amount);
+    registry_->GetDistributionSummary(id_)->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(restricted);
     auto c = get_counter(index, kDistTags.begin());
@@ -38,15 +36,18 @@ class PercentileDistributionSummary {
   }
 
   auto MeterId() const noexcept -> const Id& { return id_; }
-  auto Count() const noexcept -> int64_t { return dist_summary_->Count(); }
-  auto TotalAmount() const noexcept -> double { return dist_summary_->TotalAmount(); }
+  auto Count() const noexcept -> int64_t {
+    return registry_->GetDistributionSummary(id_)->Count();
+  }
+  auto TotalAmount() const noexcept -> double {
+    return registry_->GetDistributionSummary(id_)->TotalAmount();
+  }
 
  private:
   Registry* registry_;
   Id id_;
   int64_t min_;
   int64_t max_;
-  std::shared_ptr<DistributionSummary> dist_summary_;
 };
 
 }  // namespace spectator
diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 7a023b0..1cb20bb 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -14,8 +14,7 @@ class PercentileTimer {
       : registry_{registry},
         id_{std::move(id)},
         min_{min},
-        max_{max},
-        timer_{registry->GetTimer(id_)} {}
+        max_{max} {}
 
   auto get_counter(size_t index, const std::string* perc_tags) -> std::shared_ptr<Counter> {
     using spectator::refs;
@@ -25,7 +24,7 @@ class PercentileTimer {
   }
 
   void Record(absl::Duration amount) noexcept {
-    timer_->Record(amount);
+    registry_->GetTimer(id_)->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(absl::ToInt64Nanoseconds(restricted));
     auto c = get_counter(index, kTimerTags.begin());
@@ -34,15 +33,14 @@ class PercentileTimer {
 
   void Record(std::chrono::nanoseconds amount) noexcept { Record(absl::FromChrono(amount)); }
   auto MeterId() const noexcept -> const Id& { return id_; }
-  auto Count() const noexcept -> int64_t { return timer_->Count(); }
-  auto TotalTime() const noexcept -> int64_t { return timer_->TotalTime(); }
+  auto Count() const noexcept -> int64_t { return registry_->GetTimer(id_)->Count(); }
+  auto TotalTime() const noexcept -> int64_t { return registry_->GetTimer(id_)->TotalTime(); }
 
  private:
   Registry* registry_;
   Id id_;
   absl::Duration min_;
   absl::Duration max_;
-  std::shared_ptr<Timer> timer_;
 };
 
 }  // namespace spectator
-- 
2.43.0


From fd612a47c21e247067346e48b1a07740ab7af4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 20/36] fix: a percentile timer must not count a negative
 amount its timer ignores

---
 spectator/percentile_timer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spectator/percentile_timer.h b/spectator/percentile_timer.h
index 1cb20bb..ba9c4fa 100644
--- a/spectator/percentile_timer.h
+++ b/spectator/percentile_timer.h
@@ -24,6 +24,10 @@ class PercentileTimer {
   }
 
   void Record(absl::Duration amount) noexcept {
+    if (amount < absl::ZeroDuration()) {
+      return;
+    }
+
     registry_->GetTimer(id_)->Record(amount);
     auto restricted = restrict(amount, min_, max_);
     auto index = PercentileBucketIndexOf(absl::ToInt64Nanoseconds(restricted));
-- 
2.43.0


From b9bcaa6fc74746798a065cf157848553203b2991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 21/36] fix: look up spectatord's own meters whenever they are
 updated

A meter kept since the start is no longer reported once it has expired or was
deleted, so what is recorded into it afterwards is lost for good.
---
 server/spectatord.cc  | 52 +++++++++++++------------------------------
 server/spectatord.h   |  4 ++--
 spectator/publisher.h | 36 ++++++++++++++++--------------
 spectator/registry.cc |  7 +++---
 spectator/registry.h  |  4 ++--
 5 files changed, 42 insertions(+), 61 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 2832f19..2300957 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -46,7 +46,7 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
     auto maybe_err = parser(p);
     if (maybe_err) {
       if (cfg.status_metrics_enabled) {
-        parse_errors_->Increment();
+        registry_->GetCounter(parse_errors_id_)->Increment();
       }
       if (err_msg.empty()) {
         err_msg = *maybe_err;
@@ -55,7 +55,7 @@ auto Server::parse_lines(char* buffer, const handler_t& parser) -> std::optional
         err_msg += *maybe_err;
       }
     } else if (cfg.status_metrics_enabled) {
-      parsed_count_->Increment();
+      registry_->GetCounter(parsed_count_id_)->Increment();
     }
     if (newline == nullptr) {
       break;
@@ -302,8 +302,8 @@ Server::Server(bool ipv4_only, int port_number, std::optional<int> statsd_port_n
       statsd_port_number_{statsd_port_number},
       socket_path_{std::move(socket_path)},
       registry_{registry},
-      parsed_count_{registry_->GetCounter("spectatord.parsedCount")},
-      parse_errors_{registry_->GetCounter("spectatord.parseErrors")},
+      parsed_count_id_{spectator::Id::Of("spectatord.parsedCount")},
+      parse_errors_id_{spectator::Id::Of("spectatord.parseErrors")},
       logger_{Logger()},
       perc_timers_{create_perc_timer},
       perc_ds_{create_perc_ds} {}
@@ -399,24 +399,6 @@ void Server::ensure_not_stuck() {
 void Server::upkeep() {
   const auto& cfg = registry_->GetConfig();
 
-  static auto timers_size_gauge = registry_->GetGauge(
-      "spectatord.percentileCacheSize", spectator::Tags{{"id", "timer"}});
-  static auto ds_size_gauge = registry_->GetGauge(
-      "spectatord.percentileCacheSize", spectator::Tags{{"id", "dist-summary"}});
-  static auto timers_expired_ctr = registry_->GetCounter(
-      "spectatord.percentileExpired", spectator::Tags{{"id", "timer"}});
-  static auto ds_expired_ctr = registry_->GetCounter(
-      "spectatord.percentileExpired", spectator::Tags{{"id", "dist-summary"}});
-
-  static auto pool_hits = registry_->GetMonotonicCounter(
-      "spectatord.poolAccess", spectator::Tags{{"id", "hit"}});
-  static auto pool_misses = registry_->GetMonotonicCounter(
-      "spectatord.poolAccess", spectator::Tags{{"id", "miss"}});
-  static auto pool_alloc_size = registry_->GetGauge(
-      "spectatord.poolAllocSize");
-  static auto pool_entries = registry_->GetGauge(
-      "spectatord.poolEntries");
-
   using clock = std::chrono::steady_clock;
   using std::chrono::duration_cast;
   using std::chrono::milliseconds;
@@ -432,20 +414,21 @@ void Server::upkeep() {
     std::tie(ds_size, ds_expired) = perc_ds_.expire();
     std::tie(t_size, t_expired) = perc_timers_.expire();
     if (cfg.status_metrics_enabled) {
-      timers_size_gauge->Set(t_size);
-      ds_size_gauge->Set(ds_size);
-      timers_expired_ctr->Add(t_expired);
-      ds_expired_ctr->Add(ds_expired);
+      // look them up every time, since they might have been removed
+      registry_->GetGauge("spectatord.percentileCacheSize", {{"id", "timer"}})->Set(t_size);
+      registry_->GetGauge("spectatord.percentileCacheSize", {{"id", "dist-summary"}})->Set(ds_size);
+      registry_->GetCounter("spectatord.percentileExpired", {{"id", "timer"}})->Add(t_expired);
+      registry_->GetCounter("spectatord.percentileExpired", {{"id", "dist-summary"}})->Add(ds_expired);
     }
 #ifdef __linux__
     update_network_metrics();
 #endif
     auto pool_stats = spectator::string_pool_stats();
     if (cfg.status_metrics_enabled) {
-      pool_hits->Set(pool_stats.hits);
-      pool_misses->Set(pool_stats.misses);
-      pool_alloc_size->Set(pool_stats.alloc_size);
-      pool_entries->Set(pool_stats.table_size);
+      registry_->GetMonotonicCounter("spectatord.poolAccess", {{"id", "hit"}})->Set(pool_stats.hits);
+      registry_->GetMonotonicCounter("spectatord.poolAccess", {{"id", "miss"}})->Set(pool_stats.misses);
+      registry_->GetGauge("spectatord.poolAllocSize")->Set(pool_stats.alloc_size);
+      registry_->GetGauge("spectatord.poolEntries")->Set(pool_stats.table_size);
     }
     logger_->debug("Str Pool: Hits {} Misses {} Size {} Alloc {}", pool_stats.hits,
                    pool_stats.misses, pool_stats.table_size, pool_stats.alloc_size);
@@ -465,15 +448,10 @@ void Server::update_network_metrics() {
   // parse /proc/net/udp to get dropped packets for our ports
   const auto& cfg = registry_->GetConfig();
 
-  static auto udp_packets_dropped_ctr = registry_->GetMonotonicCounter(
-      "spectatord.udpPacketsDropped");
-  static auto udp_queue = registry_->GetMaxGauge(
-      "spectatord.udpRxQueue");
-
   auto info = udp_info(port_number_);
   if (info && cfg.status_metrics_enabled) {
-    udp_packets_dropped_ctr->Set(info->num_dropped);
-    udp_queue->Set(info->rx_queue_bytes);
+    registry_->GetMonotonicCounter("spectatord.udpPacketsDropped")->Set(info->num_dropped);
+    registry_->GetMaxGauge("spectatord.udpRxQueue")->Set(info->rx_queue_bytes);
   }
 }
 
diff --git a/server/spectatord.h b/server/spectatord.h
index a95115b..f4e8685 100644
--- a/server/spectatord.h
+++ b/server/spectatord.h
@@ -28,8 +28,8 @@ class Server {
   std::optional<int> statsd_port_number_;
   std::optional<std::string> socket_path_;
   spectator::Registry* registry_;
-  std::shared_ptr<spectator::Counter> parsed_count_;
-  std::shared_ptr<spectator::Counter> parse_errors_;
+  spectator::Id parsed_count_id_;
+  spectator::Id parse_errors_id_;
   std::shared_ptr<spdlog::logger> logger_;
   expiring_cache<spectator::PercentileTimer> perc_timers_;
   expiring_cache<spectator::PercentileDistributionSummary> perc_ds_;
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 57231ae..6066d21 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -41,19 +41,16 @@ class Publisher {
         started_{false},
         should_stop_{false},
         last_successful_send_{absl::GetCurrentTimeNanos()},
-        sentMetrics_{detail::get_counter(registry, Tags{{"id", "sent"}})},
-        invalidMetrics_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "validation"}})},
-        droppedHttp_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "http-error"}})},
-        droppedOther_{detail::get_counter(
-            registry, Tags{{"id", "dropped"}, {"error", "other"}})},
         num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
     for (const auto& kv : registry_->GetConfig().common_tags) {
       common_tags_.add(kv.first, kv.second);
     }
+    sent_metrics();
+    dropped_metrics("validation");
+    dropped_metrics("http-error");
+    dropped_metrics("other");
   }
 
   Publisher(const Publisher&) = delete;
@@ -111,10 +108,6 @@ class Publisher {
   std::mutex cv_mutex_;
   std::condition_variable cv_;
   std::thread sender_thread_;
-  std::shared_ptr<Counter> sentMetrics_;
-  std::shared_ptr<Counter> invalidMetrics_;
-  std::shared_ptr<Counter> droppedHttp_;
-  std::shared_ptr<Counter> droppedOther_;
   Tags common_tags_;
   size_t num_sender_threads_;
   asio::thread_pool pool_;
@@ -269,6 +262,15 @@ class Publisher {
                             cfg.external_enabled, cert_info};
   }
 
+  // look these up every time, since they might have expired
+  auto sent_metrics() -> std::shared_ptr<Counter> {
+    return detail::get_counter(registry_, Tags{{"id", "sent"}});
+  }
+
+  auto dropped_metrics(std::string_view error) -> std::shared_ptr<Counter> {
+    return detail::get_counter(registry_, Tags{{"id", "dropped"}, {"error", error}});
+  }
+
   auto handle_aggr_response(const HttpResponse& http_response,
                             size_t num_measurements,
                             tsl::hopscotch_set<std::string>* err_messages)
@@ -289,7 +291,7 @@ class Publisher {
                       uri, http_code, http_response.raw_body);
         num_err = num_measurements;
         if (status_metrics_enabled) {
-          droppedOther_->Add(num_measurements);
+          dropped_metrics("other")->Add(num_measurements);
         }
       } else {
         if (body.HasMember("errorCount")) {
@@ -297,8 +299,8 @@ class Publisher {
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
-            invalidMetrics_->Add(err_count);
-            sentMetrics_->Add(static_cast<double>(num_measurements - err_count));
+            dropped_metrics("validation")->Add(err_count);
+            sent_metrics()->Add(static_cast<double>(num_measurements - err_count));
           }
           auto messages = body["message"].GetArray();
           for (auto& msg : messages) {
@@ -309,7 +311,7 @@ class Publisher {
           logger->error("Missing errorCount field in JSON response from {}: {}",
                         uri, http_code, http_response.raw_body);
           if (status_metrics_enabled) {
-            droppedOther_->Add(num_measurements);
+            dropped_metrics("other")->Add(num_measurements);
           }
           num_err = num_measurements;
         }
@@ -317,11 +319,11 @@ class Publisher {
     } else if (http_code == -1) {  // connection error or timeout
       num_err = num_measurements;
       if (status_metrics_enabled) {
-        droppedOther_->Add(num_measurements);
+        dropped_metrics("other")->Add(num_measurements);
       }
     } else {  // 5xx error
       if (status_metrics_enabled) {
-        droppedHttp_->Add(num_measurements);
+        dropped_metrics("http-error")->Add(num_measurements);
       }
       num_err = num_measurements;
     }
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 25a39a6..38c4964 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -12,8 +12,9 @@ Registry::Registry(std::unique_ptr<Config> config,
       meter_ttl_{absl::ToInt64Nanoseconds(config->meter_ttl)},
       config_{std::move(config)},
       logger_{std::move(logger)},
-      registry_size_{GetDistributionSummary("spectator.registrySize", Tags{{"owner", "spectatord"}})},
+      registry_size_id_{Id::Of("spectator.registrySize", Tags{{"owner", "spectatord"}})},
       publisher_(this) {
+  GetDistributionSummary(registry_size_id_);
   if (meter_ttl_ == 0) {
     meter_ttl_ = int64_t(15) * 60 * 1000 * 1000 * 1000;
   }
@@ -150,10 +151,10 @@ void Registry::Stop() noexcept {
   }
 }
 
-auto Registry::Measurements() const noexcept -> std::vector<Measurement> {
+auto Registry::Measurements() noexcept -> std::vector<Measurement> {
   auto res = all_meters_.measure(meter_ttl_);
   if (config_->status_metrics_enabled) {
-    registry_size_->Record(res.size());
+    GetDistributionSummary(registry_size_id_)->Record(res.size());
   }
   for (const auto& callback : ms_callbacks_) {
     callback(res);
diff --git a/spectator/registry.h b/spectator/registry.h
index 1430964..a055228 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -370,7 +370,7 @@ class Registry {
   auto GetTimer(std::string_view name, Tags tags = {}) noexcept
       -> std::shared_ptr<Timer>;
 
-  auto Measurements() const noexcept -> std::vector<Measurement>;
+  auto Measurements() noexcept -> std::vector<Measurement>;
 
   auto Size() const noexcept -> std::size_t { return all_meters_.size(); }
 
@@ -434,7 +434,7 @@ class Registry {
   detail::all_meters all_meters_;
 
   std::vector<measurements_callback> ms_callbacks_{};
-  std::shared_ptr<DistributionSummary> registry_size_;
+  Id registry_size_id_;
 
   void expirer() noexcept;
 
-- 
2.43.0


From 53d6ee9bd6f9d544f28660903b2540f8ae50b417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:42 +0000
Subject: [PATCH 22/36] fix: a cached percentile meter must outlive the update
 that uses it

---
 server/expiring_cache.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/server/expiring_cache.h b/server/expiring_cache.h
index 2cac0f4..5f43e7b 100644
--- a/server/expiring_cache.h
+++ b/server/expiring_cache.h
@@ -11,7 +11,7 @@ namespace detail {
 template <typename V>
 struct cache_entry {
   mutable std::chrono::steady_clock::time_point updated;
-  std::unique_ptr<V> v;
+  std::shared_ptr<V> v;
 };
 }  // namespace detail
 
@@ -22,19 +22,20 @@ class expiring_cache {
                                             spectator::Id);
   explicit expiring_cache(supplier_t supplier) : supplier_{supplier} {}
 
-  V* get_or_create(spectator::Registry* registry, spectator::Id k) {
+  // the caller shares ownership, since the entry may expire while it is used
+  std::shared_ptr<V> get_or_create(spectator::Registry* registry, spectator::Id k) {
     absl::MutexLock lock{&cache_mutex_};
 
     auto it = cache_.find(k);
     if (it != cache_.end()) {
       auto& entry = it->second;
       entry.updated = std::chrono::steady_clock::now();
-      return entry.v.get();
+      return entry.v;
     }
 
     detail::cache_entry<V> entry{std::chrono::steady_clock::now(),
                                  supplier_(registry, k)};
-    auto* ret = entry.v.get();
+    auto ret = entry.v;
     cache_.emplace(std::make_pair(std::move(k), std::move(entry)));
     return ret;
   }
-- 
2.43.0


From 876a3a6cfbef33e540773394a90d5da010902500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 23/36] fix: apply changes of the common tags, whole and
 without racing

The admin server changed a map that others read without synchronization, one
tag at a time, and the publisher never looked at it again after its start.
---
 admin/admin_server.cc | 12 +++++++-----
 spectator/publisher.h | 13 ++++++++++---
 spectator/registry.cc | 25 +++++++++++++++++++------
 spectator/registry.h  |  4 ++++
 4 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index f07b141..e161b9b 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -45,11 +45,12 @@ void GET_root(HTTPServerRequest& req, HTTPServerResponse& res) {
 }
 
 void GET_config(HTTPServerRequest& req, HTTPServerResponse& res,
-                const spectator::Config& config) {
+                const spectator::Registry& registry) {
+  const auto& config = registry.GetConfig();
   Object::Ptr obj = new Object(true);
 
   Object::Ptr common_tags = new Object(true);
-  for (auto& pair : config.common_tags) {
+  for (auto& pair : registry.CommonTags()) {
     common_tags->set(pair.first, pair.second);
   }
 
@@ -130,16 +131,17 @@ void POST_config_common_tags(HTTPServerRequest& req, HTTPServerResponse& res,
     }
   }
 
+  std::map<std::string, std::string> tags;
   for (auto & it : *object) {
     auto second = it.second.extract<std::string>();
     if (second.empty()) {
       logger->info("delete common tag {}", it.first);
-      registry.EraseCommonTag(it.first);
     } else {
       logger->info("update common tag {}={}", it.first, second);
-      registry.UpdateCommonTag(it.first, second);
     }
+    tags[it.first] = second;
   }
+  registry.UpdateCommonTags(tags);
 
   res.setStatus(HTTPResponse::HTTP_OK);
   res.setContentType("application/json");
@@ -321,7 +323,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
     GET_root(req, res);
   } else if (req.getURI() == "/config" && req.getMethod() == "GET") {
     // get the full spectator configuration
-    GET_config(req, res, this->registry.GetConfig());
+    GET_config(req, res, this->registry);
   } else if (req.getURI() == "/config/common_tags" && req.getMethod() == "GET") {
     // describe common_tags usage
     GET_config_common_tags(req, res, join(this->allowed_tags, ", "));
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 6066d21..9dc483a 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -44,9 +44,7 @@ class Publisher {
         num_sender_threads_{std::min(8U, std::thread::hardware_concurrency())},
         pool_{num_sender_threads_} {
     buffers_.resize(num_sender_threads_);
-    for (const auto& kv : registry_->GetConfig().common_tags) {
-      common_tags_.add(kv.first, kv.second);
-    }
+    update_common_tags();
     sent_metrics();
     dropped_metrics("validation");
     dropped_metrics("http-error");
@@ -113,6 +111,14 @@ class Publisher {
   asio::thread_pool pool_;
   std::vector<SmilePayload> buffers_;
 
+  void update_common_tags() {
+    Tags tags;
+    for (const auto& kv : registry_->CommonTags()) {
+      tags.add(kv.first, kv.second);
+    }
+    common_tags_ = std::move(tags);
+  }
+
   void sender() noexcept {
     using std::chrono::duration_cast;
     using std::chrono::milliseconds;
@@ -335,6 +341,7 @@ class Publisher {
     const auto& cfg = registry_->GetConfig();
     auto http_cfg = get_http_config(cfg);
     auto start = absl::Now();
+    update_common_tags();
     HttpClient client{registry_, std::move(http_cfg)};
     auto batch_size = static_cast<std::vector<Measurement>::difference_type>(cfg.batch_size);
     auto measurements = registry_->Measurements();
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 38c4964..59588cd 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -163,18 +163,31 @@ auto Registry::Measurements() noexcept -> std::vector<Measurement> {
 }
 
 void Registry::UpdateCommonTag(const std::string& k, const std::string& v) {
-  auto it = config_->common_tags.find(k);
-  if (it != config_->common_tags.end()) {
-    it->second = v;
-  } else {
-    config_->common_tags.insert({k, v});
-  }
+  absl::MutexLock lock{&common_tags_mutex_};
+  config_->common_tags[k] = v;
 }
 
 void Registry::EraseCommonTag(const std::string& k) {
+  absl::MutexLock lock{&common_tags_mutex_};
   config_->common_tags.erase(k);
 }
 
+void Registry::UpdateCommonTags(const std::map<std::string, std::string>& tags) {
+  absl::MutexLock lock{&common_tags_mutex_};
+  for (const auto& kv : tags) {
+    if (kv.second.empty()) {
+      config_->common_tags.erase(kv.first);
+    } else {
+      config_->common_tags[kv.first] = kv.second;
+    }
+  }
+}
+
+auto Registry::CommonTags() const -> std::map<std::string, std::string> {
+  absl::MutexLock lock{&common_tags_mutex_};
+  return config_->common_tags;
+}
+
 bool Registry::DeleteMeter(const std::string& type, const Id& id) {
   if (type == "A") {
     return all_meters_.age_gauges_.remove_one(id);
diff --git a/spectator/registry.h b/spectator/registry.h
index a055228..94fc8d6 100644
--- a/spectator/registry.h
+++ b/spectator/registry.h
@@ -380,6 +380,9 @@ class Registry {
   // for updating mantis common tags
   void UpdateCommonTag(const std::string& k, const std::string& v);
   void EraseCommonTag(const std::string& k);
+  // all of the tags in one step; those with an empty value are erased
+  void UpdateCommonTags(const std::map<std::string, std::string>& tags);
+  auto CommonTags() const -> std::map<std::string, std::string>;
 
   // for administering gauges
   bool DeleteMeter(const std::string& type, const Id& id);
@@ -429,6 +432,7 @@ class Registry {
   int64_t meter_ttl_;  // in nanos
 
   std::unique_ptr<Config> config_;
+  mutable absl::Mutex common_tags_mutex_;  // for config_->common_tags
   logger_ptr logger_;
 
   detail::all_meters all_meters_;
-- 
2.43.0


From 1bc8d9cbf5b34c3e5bce86f21358b8b8bada80b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:17 +0000
Subject: [PATCH 24/36] fix: count the measurements of fully accepted batches
 as sent

---
 spectator/publisher.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 9dc483a..08716d8 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -289,6 +289,9 @@ class Publisher {
     auto http_code = http_response.status;
     if (http_code == 200) {
       num_sent = num_measurements;
+      if (status_metrics_enabled) {
+        sent_metrics()->Add(static_cast<double>(num_measurements));
+      }
     } else if (http_code > 200 && http_code < 500) {
       rapidjson::Document body;
       body.Parse(http_response.raw_body.c_str(), http_response.raw_body.size());
-- 
2.43.0


From a502929c4b73e3e3efb3af46fefe1c9b61b9d34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:49 +0000
Subject: [PATCH 25/36] fix: survive any body of a rejection by the aggregator

An errorCount that is no number or above what was sent, a body that is no
object or a message that is no array failed assertions or broke the counts.
---
 spectator/publisher.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/spectator/publisher.h b/spectator/publisher.h
index 08716d8..318bd5a 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -303,18 +303,22 @@ class Publisher {
           dropped_metrics("other")->Add(num_measurements);
         }
       } else {
-        if (body.HasMember("errorCount")) {
-          auto err_count = body["errorCount"].GetInt();
+        if (body.IsObject() && body.HasMember("errorCount") && body["errorCount"].IsUint64()) {
+          // do not trust it to reject more than what was sent
+          auto err_count = std::min<size_t>(body["errorCount"].GetUint64(), num_measurements);
           num_err = err_count;
           num_sent = num_measurements - err_count;
           if (status_metrics_enabled) {
             dropped_metrics("validation")->Add(err_count);
             sent_metrics()->Add(static_cast<double>(num_measurements - err_count));
           }
-          auto messages = body["message"].GetArray();
-          for (auto& msg : messages) {
-            err_messages->emplace(
-                std::string(msg.GetString(), msg.GetStringLength()));
+          if (body.HasMember("message") && body["message"].IsArray()) {
+            for (auto& msg : body["message"].GetArray()) {
+              if (msg.IsString()) {
+                err_messages->emplace(
+                    std::string(msg.GetString(), msg.GetStringLength()));
+              }
+            }
           }
         } else {
           logger->error("Missing errorCount field in JSON response from {}: {}",
-- 
2.43.0


From e70e883680c4a00d9302e907be1c111228d9139c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:04 +0000
Subject: [PATCH 26/36] fix: a request to stop must not be missed by a thread
 about to wait

Nor may a spurious wakeup start a cycle early.
---
 server/spectatord.cc  |  9 +++++++--
 spectator/publisher.h |  8 ++++++--
 spectator/registry.cc | 13 ++++++++++---
 3 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 2300957..b932465 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -439,7 +439,7 @@ void Server::upkeep() {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = kFrequency - elapsed;
       logger->debug("Janitor - sleeping {}ms", duration_cast<milliseconds>(sleep).count());
-      cv_.wait_for(lock, sleep);
+      cv_.wait_for(lock, sleep, [this] { return should_stop_.load(); });
     }
   }
 }
@@ -456,7 +456,12 @@ void Server::update_network_metrics() {
 }
 
 void Server::Stop() {
-  if (!should_stop_.exchange(true)) {
+  bool was_stopped;
+  {
+    std::lock_guard<std::mutex> lock{cv_mutex_};
+    was_stopped = should_stop_.exchange(true);
+  }
+  if (!was_stopped) {
     logger_->debug("Stopping background tasks");
     cv_.notify_all();
     upkeep_thread_.join();
diff --git a/spectator/publisher.h b/spectator/publisher.h
index 318bd5a..ec19d05 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -87,7 +87,10 @@ class Publisher {
 
   void Stop() {
     if (started_.exchange(false)) {
-      should_stop_ = true;
+      {
+        std::lock_guard<std::mutex> lock{cv_mutex_};
+        should_stop_ = true;
+      }
       cv_.notify_all();
       sender_thread_.join();
     }
@@ -145,7 +148,8 @@ class Publisher {
         auto sleep = cfg.frequency - elapsed;
         logger->debug("Sleeping {}s until the next interval",
                       absl::ToDoubleSeconds(sleep));
-        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+        cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep),
+                     [this] { return should_stop_.load(); });
       }
     }
     logger->info("Stopping Publisher");
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 59588cd..8434f52 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -144,7 +144,12 @@ void Registry::Start() noexcept {
 
 void Registry::Stop() noexcept {
   publisher_.Stop();
-  if (!should_stop_.exchange(true)) {
+  bool was_stopped;
+  {
+    std::lock_guard<std::mutex> lock{cv_mutex_};
+    was_stopped = should_stop_.exchange(true);
+  }
+  if (!was_stopped) {
     logger_->debug("Stopping expirer thread");
     cv_.notify_all();
     expirer_thread_.join();
@@ -225,7 +230,8 @@ void Registry::expirer() noexcept {
   // Start - wait one freq_millis interval
   {
     std::unique_lock<std::mutex> lock{cv_mutex_};
-    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency));
+    cv_.wait_for(lock, absl::ToChronoMilliseconds(frequency),
+                 [this] { return should_stop_.load(); });
   }
   while (!should_stop_) {
     auto start = absl::Now();
@@ -235,7 +241,8 @@ void Registry::expirer() noexcept {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = frequency - elapsed;
       logger_->debug("Expirer sleeping {}s", absl::ToDoubleSeconds(sleep));
-      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep));
+      cv_.wait_for(lock, absl::ToChronoMilliseconds(sleep),
+                   [this] { return should_stop_.load(); });
     }
   }
 }
-- 
2.43.0


From ebae48b1ea6fcacf47d66e31088f9260c3f049bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 27/36] fix: measure elapsed time with the steady clock

A step of the system's clock made the publisher sleep for as long as the step,
or not at all, and retry after timeouts it should not retry.
---
 spectator/http_client.cc |  2 +-
 spectator/log_entry.h    | 11 +++++++----
 spectator/publisher.h    |  8 +++-----
 spectator/registry.cc    |  5 +++--
 4 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/spectator/http_client.cc b/spectator/http_client.cc
index 7c22b1a..d3dc285 100644
--- a/spectator/http_client.cc
+++ b/spectator/http_client.cc
@@ -269,7 +269,7 @@ auto HttpClient::perform(const char* method, const std::string& url,
         entry.set_error("unknown");
     }
 
-    auto elapsed = absl::Now() - entry.start();
+    auto elapsed = entry.elapsed();
     // retry connect timeouts if possible, not read timeouts
     logger->info(
         "HTTP timeout to {}: {}ms elapsed - connect_to={} read_to={}", url,
diff --git a/spectator/log_entry.h b/spectator/log_entry.h
index cae0689..8fade04 100644
--- a/spectator/log_entry.h
+++ b/spectator/log_entry.h
@@ -11,18 +11,21 @@ class LogEntry {
   LogEntry(Registry* registry, const std::string& method,
            const std::string& url)
       : registry_{registry},
-        start_{absl::Now()},
+        start_{std::chrono::steady_clock::now()},
         id_{Id::Of("ipc.client.call", {{"owner", "spectatord"},
                                        {"ipc.endpoint", PathFromUrl(url)},
                                        {"http.method", method},
                                        {"http.status", "-1"}})} {}
 
-  [[nodiscard]] auto start() const -> absl::Time { return start_; }
+  // not absl::Now(), which jumps when the system's clock is set
+  [[nodiscard]] auto elapsed() const -> absl::Duration {
+    return absl::FromChrono(std::chrono::steady_clock::now() - start_);
+  }
 
   void log(bool status_metrics_enabled) {
     if (status_metrics_enabled) {
       PercentileTimer timer{registry_, std::move(id_), absl::Milliseconds(1), absl::Seconds(10)};
-      timer.Record(absl::Now() - start_);
+      timer.Record(elapsed());
     }
   }
 
@@ -49,7 +52,7 @@ class LogEntry {
 
  private:
   Registry* registry_;
-  absl::Time start_;
+  std::chrono::steady_clock::time_point start_;
   Id id_;
 
   static auto attempt(int attempt_number) -> StrRef {
diff --git a/spectator/publisher.h b/spectator/publisher.h
index ec19d05..3650dfc 100644
--- a/spectator/publisher.h
+++ b/spectator/publisher.h
@@ -123,9 +123,6 @@ class Publisher {
   }
 
   void sender() noexcept {
-    using std::chrono::duration_cast;
-    using std::chrono::milliseconds;
-
     const auto& cfg = registry_->GetConfig();
     auto logger = registry_->GetLogger();
 
@@ -135,13 +132,14 @@ class Publisher {
                  common_tags_);
 
     while (!should_stop_) {
-      auto start = absl::Now();
+      // not absl::Now(), which jumps when the system's clock is set
+      auto start = std::chrono::steady_clock::now();
       try {
         send_metrics();
       } catch (std::exception& e) {
         logger->error("Ignoring exception while sending metrics: {}", e.what());
       }
-      auto elapsed = absl::Now() - start;
+      auto elapsed = absl::FromChrono(std::chrono::steady_clock::now() - start);
 
       if (elapsed < cfg.frequency) {
         std::unique_lock<std::mutex> lock{cv_mutex_};
diff --git a/spectator/registry.cc b/spectator/registry.cc
index 8434f52..808e0f9 100644
--- a/spectator/registry.cc
+++ b/spectator/registry.cc
@@ -234,9 +234,10 @@ void Registry::expirer() noexcept {
                  [this] { return should_stop_.load(); });
   }
   while (!should_stop_) {
-    auto start = absl::Now();
+    // not absl::Now(), which jumps when the system's clock is set
+    auto start = std::chrono::steady_clock::now();
     remove_expired_meters();
-    auto elapsed = absl::Now() - start;
+    auto elapsed = absl::FromChrono(std::chrono::steady_clock::now() - start);
     if (elapsed < frequency) {
       std::unique_lock<std::mutex> lock{cv_mutex_};
       auto sleep = frequency - elapsed;
-- 
2.43.0


From bb5ddd7de2f676597eafc0903531c440e1363ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:08 +0000
Subject: [PATCH 28/36] fix: leave room for the null that terminates a message

A datagram of 65536 bytes, which unix sockets do deliver, had it written past
the end of the buffer.
---
 server/local_server.cc | 6 +++---
 server/local_server.h  | 3 ++-
 server/udp_server.cc   | 6 +++---
 server/udp_server.h    | 3 ++-
 4 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/server/local_server.cc b/server/local_server.cc
index a3cdf28..e17b19a 100644
--- a/server/local_server.cc
+++ b/server/local_server.cc
@@ -13,11 +13,11 @@ void LocalServer::Start() { start_local_receive(); }
 
 void LocalServer::start_local_receive() {
   socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
-        if (bytes_transferred >= recv_buffer_.size()) {
+        if (bytes_transferred >= recv_buffer_.size() - 1) {
           Logger()->error("too many bytes transferred: {} >= {}",
-                          bytes_transferred, recv_buffer_.size());
+                          bytes_transferred, recv_buffer_.size() - 1);
         }
 
         if (err) {
diff --git a/server/local_server.h b/server/local_server.h
index dbdfdcb..ad75b36 100644
--- a/server/local_server.h
+++ b/server/local_server.h
@@ -15,7 +15,8 @@ class LocalServer {
  private:
   handler_t handler_;
   asio::local::datagram_protocol::socket socket_;
-  std::array<char, 65536> recv_buffer_{};
+  // one more than the longest message, for the terminating null
+  std::array<char, 65537> recv_buffer_{};
   void start_local_receive();
 };
 
diff --git a/server/udp_server.cc b/server/udp_server.cc
index 5136902..3620cf6 100644
--- a/server/udp_server.cc
+++ b/server/udp_server.cc
@@ -23,11 +23,11 @@ UdpServer::UdpServer(asio::io_context& io_context, bool ipv4_only, int port_numb
 
 void UdpServer::start_udp_receive() {
   udp_socket_.async_receive(
-      asio::buffer(recv_buffer_),
+      asio::buffer(recv_buffer_.data(), recv_buffer_.size() - 1),
       [this](const std::error_code& err, size_t bytes_transferred) {
-        if (bytes_transferred >= recv_buffer_.size()) {
+        if (bytes_transferred >= recv_buffer_.size() - 1) {
           Logger()->error("too many bytes transferred: {} >= {}",
-                          bytes_transferred, recv_buffer_.size());
+                          bytes_transferred, recv_buffer_.size() - 1);
         }
 
         if (err) {
diff --git a/server/udp_server.h b/server/udp_server.h
index 450e7a3..11a17ce 100644
--- a/server/udp_server.h
+++ b/server/udp_server.h
@@ -14,7 +14,8 @@ class UdpServer {
 
  private:
   asio::ip::udp::socket udp_socket_;
-  std::array<char, 65536> recv_buffer_{};
+  // one more than the longest message, for the terminating null
+  std::array<char, 65537> recv_buffer_{};
   handler_t message_handler_;
 
   void start_udp_receive();
-- 
2.43.0


From 9762e5db38a2e8f48f1258f6062a5335e8be97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 29/36] fix: reject a tag without a value

Its line was read past the tags, and possibly past its end, for a value.
---
 server/spectatord.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index b932465..bcad2f6 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -238,8 +238,11 @@ auto get_measurement(char type, std::string_view measurement_str, std::string* e
   if (measurement_str[pos] == ',') {
     while (measurement_str[pos] != ':') {
       ++pos;
-      auto k_pos = measurement_str.find('=', pos);
-      if (k_pos == std::string_view::npos) break;
+      auto k_pos = measurement_str.find_first_of("=,:", pos);
+      if (k_pos == std::string_view::npos || measurement_str[k_pos] != '=') {
+        *err_msg = "Missing value for tag";
+        return {};
+      }
       auto key = measurement_str.substr(pos, k_pos - pos);
       ++k_pos;
       auto v_pos = measurement_str.find_first_of(",:", k_pos);
-- 
2.43.0


From 17415706e43ce763ec732f0358631c2c58a77e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:54 +0000
Subject: [PATCH 30/36] fix: reject statsd sampling rates that would stall the
 server

---
 server/spectatord.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index bcad2f6..f934de7 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -7,6 +7,8 @@
 
 namespace spectatord {
 
+static constexpr auto kMinSamplingRate = 1e-6;
+
 enum class StatsdMetricType { Counter, Timing, Gauge, Histogram, Set };
 
 inline auto add_tag(spectator::Tags* tags, const char* begin_key,
@@ -184,7 +186,9 @@ auto Server::parse_statsd_line(const char* buffer)
     if (*p == '@') {
       ++p;
       sampling_rate = std::strtod(p, &last_char);
-      if (last_char == p || sampling_rate <= 0 || sampling_rate > 1) {
+      // not a number is rejected as well, and so are rates which would have us
+      // record a value millions of times
+      if (last_char == p || !(sampling_rate >= kMinSamplingRate && sampling_rate <= 1)) {
         return fmt::format("Invalid sampling rate for name={}", name);
       }
       p = last_char;
-- 
2.43.0


From 9c026b0d0a32ce92416a7d461a060784664a9ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:03 +0000
Subject: [PATCH 31/36] fix: encode integers of four bytes as integers

---
 spectator/smile.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spectator/smile.cc b/spectator/smile.cc
index 9b3006e..db6d98a 100644
--- a/spectator/smile.cc
+++ b/spectator/smile.cc
@@ -52,7 +52,7 @@ void SmilePayload::Append(size_t n) {
   auto b2 = static_cast<uint8_t>(i & 0x7FU);
   i >>= 7U;
   if (i <= 0x7F) {
-    buffer_.Append(kTokenInt32, static_cast<uint8_t>(i), b2, b1, b0);
+    buffer_.Append(kByteInt32, static_cast<uint8_t>(i), b2, b1, b0);
     return;
   }
   // no, need all 5 bytes
-- 
2.43.0


From 6fde013651a342d7338a990541b064c0b9599bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 32/36] fix: look for the udp socket in the file which lists it

---
 server/spectatord.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index f934de7..73aa57e 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -452,10 +452,11 @@ void Server::upkeep() {
 }
 
 void Server::update_network_metrics() {
-  // parse /proc/net/udp to get dropped packets for our ports
+  // parse /proc/net/udp to get dropped packets for our ports; sockets which
+  // accept IPv6 as well are listed in a file of their own
   const auto& cfg = registry_->GetConfig();
 
-  auto info = udp_info(port_number_);
+  auto info = udp_info(port_number_, ipv4_only_ ? "/proc/net/udp" : "/proc/net/udp6");
   if (info && cfg.status_metrics_enabled) {
     registry_->GetMonotonicCounter("spectatord.udpPacketsDropped")->Set(info->num_dropped);
     registry_->GetMaxGauge("spectatord.udpRxQueue")->Set(info->rx_queue_bytes);
-- 
2.43.0


From 60f3b2d9bbe6f5ddad732b626af7efaabc42d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:42 +0000
Subject: [PATCH 33/36] fix: reject a statsd tag with an empty key, as the
 first character is no exception

---
 server/spectatord.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/server/spectatord.cc b/server/spectatord.cc
index 73aa57e..786ba11 100644
--- a/server/spectatord.cc
+++ b/server/spectatord.cc
@@ -203,7 +203,6 @@ auto Server::parse_statsd_line(const char* buffer)
       const char* end_key = nullptr;
       const char* begin_value = nullptr;
       while (*p != '\0') {
-        ++p;
         if (*p == ':') {
           end_key = p;
           begin_value = ++p;
@@ -213,7 +212,10 @@ auto Server::parse_statsd_line(const char* buffer)
             return fmt::format("Invalid tags for name={}", name);
           }
           begin_value = nullptr;
-          begin_key = ++p;
+          begin_key = p + 1;
+        }
+        if (*p != '\0') {
+          ++p;
         }
       }
       if (!add_tag(&tags, begin_key, end_key, begin_value, p)) {
-- 
2.43.0


From 6b9de6bcf5b9df70dfb36c1f147e9c90e770e985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:38 +0000
Subject: [PATCH 34/36] fix: wait for administration requests in progress
 before the registry goes away

---
 admin/admin_server.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/admin/admin_server.h b/admin/admin_server.h
index f4a8436..86f282b 100644
--- a/admin/admin_server.h
+++ b/admin/admin_server.h
@@ -4,6 +4,9 @@
 #include "../util/logger.h"
 #include <Poco/Net/HTTPServer.h>
 #include <Poco/Net/HTTPRequestHandler.h>
+#include <Poco/ThreadPool.h>
+#include <chrono>
+#include <thread>
 
 namespace admin {
 
@@ -43,15 +46,35 @@ class RequestHandlerFactory: public HTTPRequestHandlerFactory {
 };
 
 class AdminServer {
+  // the threads that serve requests
+  Poco::ThreadPool pool;
   std::shared_ptr<HTTPServer> instance;
 //  Registry &registry;
 
+  static HTTPServerParams* params() {
+    auto p = new HTTPServerParams;
+    // how often a thread without requests notices that the server was stopped
+    p->setThreadIdleTime(Poco::Timespan(0, 100 * 1000));
+    return p;
+  }
+
  public:
   AdminServer(Registry &r, int p):
-    instance{std::make_shared<HTTPServer>(new RequestHandlerFactory(r), SocketAddress("localhost", p), new HTTPServerParams)} {}
+    instance{std::make_shared<HTTPServer>(new RequestHandlerFactory(r), pool, SocketAddress("localhost", p), params())} {}
 //    registry{r} {}
   void Start() { instance->start(); }
-  void Stop() { instance->stop(); }
+  // The handlers use the registry, which may be gone once this returns, so wait
+  // for the requests in progress after aborting their connections.
+  void Stop() {
+    instance->stopAll(true);
+    while (pool.used() > 0) {
+      std::this_thread::sleep_for(std::chrono::milliseconds(10));
+      instance->stopAll(true);
+    }
+  }
+  ~AdminServer() { Stop(); }
+  AdminServer(const AdminServer&) = delete;
+  AdminServer& operator=(const AdminServer&) = delete;
 };
 
 }
\ No newline at end of file
-- 
2.43.0


From e870f3f4ac0f5daee7d285c84315bea3b6c93c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:12 +0000
Subject: [PATCH 35/36] fix: compare the whole host name when checking for a
 local admin request

The Host header was searched for "localhost", "127.0.0.1" and "[::1]" as
substrings, so that a page under http://localhost.example.com:1234 could
delete gauges and change the common tags.
---
 admin/admin_server.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index e161b9b..b5d8f75 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -310,13 +310,20 @@ void DELETE_metrics(const std::string& type, HTTPServerRequest& req, HTTPServerR
   }
 }
 
+// the Host header names the local machine, with or without a port
+bool is_localhost(const std::string& host) {
+  for (const std::string name : {"localhost", "127.0.0.1", "[::1]"}) {
+    if (host == name || host.rfind(name + ":", 0) == 0) {
+      return true;
+    }
+  }
+  return false;
+}
+
 void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& res) {
   this->logger->debug("AdminServer request for URI={}", req.getURI());
 
-  auto localhost_found =
-      req.getHost().rfind("localhost") != std::string::npos ||
-      req.getHost().rfind("127.0.0.1") != std::string::npos ||
-      req.getHost().rfind("[::1]") != std::string::npos;
+  auto localhost_found = is_localhost(req.getHost());
 
   if (req.getURI() == "/" && req.getMethod() == "GET") {
     // describe admin service
-- 
2.43.0


From 2f7b21221505ac9493265f5aec1b09a0e9e4ef83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:23 +0000
Subject: [PATCH 36/36] fix: delete gauges only for /metrics/g and
 /metrics/g/<id>

Every DELETE whose path began with /metrics/g or /metrics/A was taken for
one of the two, so that DELETE /metrics/gfoo deleted the gauge "oo".
---
 admin/admin_server.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/admin/admin_server.cc b/admin/admin_server.cc
index b5d8f75..d5edafc 100644
--- a/admin/admin_server.cc
+++ b/admin/admin_server.cc
@@ -320,6 +320,12 @@ bool is_localhost(const std::string& host) {
   return false;
 }
 
+// all meters of a type, or one of them
+bool is_metrics_uri(const std::string& uri, const std::string& type) {
+  const auto all = "/metrics/" + type;
+  return uri == all || uri.rfind(all + "/", 0) == 0;
+}
+
 void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& res) {
   this->logger->debug("AdminServer request for URI={}", req.getURI());
 
@@ -347,7 +353,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
   } else if (req.getURI() == "/metrics" && req.getMethod() == "GET") {
     // get all metrics defined in the registry
     GET_metrics(req, res, this->registry);
-  } else if (req.getURI().rfind("/metrics/A", 0) == 0  && req.getMethod() == "DELETE") {
+  } else if (is_metrics_uri(req.getURI(), "A") && req.getMethod() == "DELETE") {
     // delete one or all age gauges
     if (localhost_found) {
       DELETE_metrics("A", req, res, this->logger, this->registry);
@@ -357,7 +363,7 @@ void RequestHandler::handleRequest(HTTPServerRequest& req, HTTPServerResponse& r
       res.setReason("Bad Request");
       res.send();
     }
-  } else if (req.getURI().rfind("/metrics/g", 0) == 0 && req.getMethod() == "DELETE") {
+  } else if (is_metrics_uri(req.getURI(), "g") && req.getMethod() == "DELETE") {
     // delete one or all gauges
     if (localhost_found) {
       DELETE_metrics("g", req, res, this->logger, this->registry);
-- 
2.43.0


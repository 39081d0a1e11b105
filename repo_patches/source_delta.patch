From a5de547b6fdee3fe269a51a8cd21666749e880f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 01/75] fix: recursive_generator rethrows the exception of a
 child that fails before its first yield

---
 include/soro/utls/coroutine/recursive_generator.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/soro/utls/coroutine/recursive_generator.h b/include/soro/utls/coroutine/recursive_generator.h
index b08d48a..570694b 100644
--- a/include/soro/utls/coroutine/recursive_generator.h
+++ b/include/soro/utls/coroutine/recursive_generator.h
@@ -64,7 +64,12 @@ public:
 
         awaitable(promise_type* childPromise) : m_childPromise(childPromise) {}
 
-        bool await_ready() noexcept { return this->m_childPromise == nullptr; }
+        // a child that completed without yielding a value has nothing to suspend
+        // for, but its exception (if any) must still be thrown by await_resume
+        bool await_ready() noexcept {
+          return this->m_childPromise == nullptr ||
+                 this->m_childPromise->is_complete();
+        }
 
         void await_suspend(coro::coroutine_handle<promise_type>) noexcept {}
 
@@ -84,14 +89,12 @@ public:
         generator.m_promise->m_parentOrLeaf = this;
         generator.m_promise->resume();
 
-        if (!generator.m_promise->is_complete()) {
-          return awaitable{generator.m_promise};
+        if (generator.m_promise->is_complete()) {
+          m_root->m_parentOrLeaf = this;
         }
-
-        m_root->m_parentOrLeaf = this;
       }
 
-      return awaitable{nullptr};
+      return awaitable{generator.m_promise};
     }
 
     // Don't allow any use of 'co_await' inside the recursive_generator
-- 
2.43.0


From 172f66d055c00d8964a1724747c46f5dabe758db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 02/75] fix: error reporting of the number parsers stays within
 the given input

---
 include/soro/utls/parse_fp.h  |  6 +++---
 include/soro/utls/parse_int.h | 14 ++++++++------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/soro/utls/parse_fp.h b/include/soro/utls/parse_fp.h
index 59576ec..e0c161e 100644
--- a/include/soro/utls/parse_fp.h
+++ b/include/soro/utls/parse_fp.h
@@ -35,10 +35,10 @@ constexpr T parse_fp(const char* const start, const char* const end) {
   auto const [ptr, ec] = std::from_chars(start, end, result);
 
   sassert(ec == std::errc{}, "Error while parsing floating point input {}.",
-          std::quoted(start));
+          std::quoted(std::string_view(start, end)));
 
   sassert(ptr == end, "Error while parsing floating point input {}.",
-          std::quoted(start));
+          std::quoted(std::string_view(start, end)));
 
 #endif
 
@@ -62,7 +62,7 @@ constexpr T parse_fp(const char* const start, std::size_t const len) {
   } else {
     sassert(!detail::contains_char(start, start + len, ','),
             "Input string {} contains a comma, but ReplaceComma is Off",
-            std::quoted(start));
+            std::quoted(std::string_view(start, len)));
 
     return detail::parse_fp<T>(start, start + len);
   }
diff --git a/include/soro/utls/parse_int.h b/include/soro/utls/parse_int.h
index 6089b0d..788537b 100644
--- a/include/soro/utls/parse_int.h
+++ b/include/soro/utls/parse_int.h
@@ -23,15 +23,16 @@ template <std::integral T>
   auto const [success, val] = parse_int_impl<T>(start, end);
 
   if (success.ec != std::errc{}) {
-    return utls::unexpected(success.ec,
-                            "error {} while parsing integer input {}",
-                            success.ec, std::quoted(start));
+    return utls::unexpected(
+        success.ec, "error {} while parsing integer input {}", success.ec,
+        std::quoted(std::string_view(start, end)));
   }
 
   if (success.ptr != end) {
     return utls::unexpected(std::errc::invalid_argument,
                             "error {} while parsing integer input {}",
-                            std::errc::invalid_argument, std::quoted(start));
+                            std::errc::invalid_argument,
+                            std::quoted(std::string_view(start, end)));
   }
 
   return val;
@@ -43,10 +44,11 @@ template <std::integral T>
   auto const [success, val] = parse_int_impl<T>(start, end);
 
   utls::sassert(success.ec == std::errc{},
-                "Error while parsing integer input {}.", std::quoted(start));
+                "Error while parsing integer input {}.",
+                std::quoted(std::string_view(start, end)));
 
   utls::sassert(success.ptr == end, "Error while parsing integer input {}.",
-                std::quoted(start));
+                std::quoted(std::string_view(start, end)));
 
   return val;
 }
-- 
2.43.0


From 433d88d19d76b8dad83f7f1994f9c62e77bf4c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:45 +0000
Subject: [PATCH 03/75] fix: comparing string views does not rely on a
 terminating NUL

---
 include/soro/utls/string.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/string.h b/include/soro/utls/string.h
index ed7a5c3..d928e1d 100644
--- a/include/soro/utls/string.h
+++ b/include/soro/utls/string.h
@@ -44,15 +44,15 @@ inline bool equal(char const* const s1, soro::string const& s2) {
 }
 
 inline bool equal(soro::string_view s1, char const* const s2) {
-  return equal(s1.data(), s2);
+  return s1 == s2;
 }
 
 inline bool equal(char const* const s1, soro::string_view s2) {
-  return equal(s1, s2.data());
+  return s1 == s2;
 }
 
 inline bool equal(soro::string_view const& s1, soro::string_view const& s2) {
-  return equal(s1.data(), s2.data());
+  return s1 == s2;
 }
 
 inline bool starts_with(char const* const str, char const* const prfx) {
-- 
2.43.0


From e2ef46bc61e302eabda7c85bb6ddc360f29e3a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 04/75] fix: optional::swap compiles when instantiated

---
 include/soro/utls/container/optional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/soro/utls/container/optional.h b/include/soro/utls/container/optional.h
index db1cec9..147cf3f 100644
--- a/include/soro/utls/container/optional.h
+++ b/include/soro/utls/container/optional.h
@@ -136,7 +136,7 @@ struct optional {
 
   void swap(optional& other) noexcept {
     if (has_value() && !other.has_value()) {
-      other = this->val_;
+      other.val_ = this->val_;
       this->reset();
     } else if (!has_value() && other.has_value()) {
       this->val_ = other.value();
@@ -144,7 +144,7 @@ struct optional {
     } else if (has_value() && other.has_value()) {
       auto const tmp = this->value();
       this->val_ = other.value();
-      other = tmp;
+      other.val_ = tmp;
     }
   }
 
-- 
2.43.0


From fac453be51ef620fba1561e7525b1381c9d2c85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 05/75] fix: offsetting an id_iterator yields an id_iterator

---
 include/soro/utls/container/id_iterator.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/container/id_iterator.h b/include/soro/utls/container/id_iterator.h
index c1e93e4..1bc521b 100644
--- a/include/soro/utls/container/id_iterator.h
+++ b/include/soro/utls/container/id_iterator.h
@@ -94,11 +94,11 @@ struct id_iterator {
     return *this;
   }
 
-  id_iterator operator+(difference_type const d) const { return it_ + d; }
-  id_iterator operator-(difference_type const d) const { return it_ - d; }
+  id_iterator operator+(difference_type const d) const { return {it_ + d, c_}; }
+  id_iterator operator-(difference_type const d) const { return {it_ - d, c_}; }
 
   friend id_iterator operator+(difference_type const d, id_iterator const& it) {
-    return id_iterator{.it_ = it.it_ + d, .c_ = it.c_};
+    return {it.it_ + d, it.c_};
   }
 
   difference_type operator-(id_iterator const& o) const { return it_ - o.it_; }
-- 
2.43.0


From 2cfbf6ee369686e010a3847de6222c1d0c3c28e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 06/75] fix: offset_container is created with the requested
 size

---
 include/soro/utls/container/offset_container.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/utls/container/offset_container.h b/include/soro/utls/container/offset_container.h
index 3608fa9..9864220 100644
--- a/include/soro/utls/container/offset_container.h
+++ b/include/soro/utls/container/offset_container.h
@@ -15,7 +15,7 @@ struct offset_container {
   offset_container() = default;
 
   offset_container(size_type const offset, size_type const size)
-      : offset_{offset}, vec_{size} {}
+      : offset_{offset}, vec_(size) {}
 
   auto& operator[](size_type const idx) noexcept { return vec_[idx - offset_]; }
 
-- 
2.43.0


From 9221a612e0c72f1f619ee72f2b77e671621e516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 07/75] fix: strong_type arithmetic leaves its operands alone

---
 include/soro/utls/strong_types/strong_type.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/soro/utls/strong_types/strong_type.h b/include/soro/utls/strong_types/strong_type.h
index b6b4646..68f09a9 100644
--- a/include/soro/utls/strong_types/strong_type.h
+++ b/include/soro/utls/strong_types/strong_type.h
@@ -15,7 +15,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator+(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator+(strong_type lhs, strong_type const& rhs) {
     lhs += rhs;
     return lhs;
   }
@@ -25,7 +25,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator-(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator-(strong_type lhs, strong_type const& rhs) {
     lhs -= rhs;
     return lhs;
   }
@@ -35,7 +35,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator*(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator*(strong_type lhs, strong_type const& rhs) {
     lhs *= rhs;
     return lhs;
   }
@@ -45,7 +45,7 @@ struct strong_type {
     return *this;
   }
 
-  friend auto operator/(strong_type& lhs, strong_type const& rhs) {
+  friend auto operator/(strong_type lhs, strong_type const& rhs) {
     lhs /= rhs;
     return lhs;
   }
-- 
2.43.0


From ef98dad9a35a003f462912ba49d4bbfa2f7f299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 08/75] fix: bfs and dfs do not expand their start node a
 second time

---
 include/soro/utls/graph/traversal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/soro/utls/graph/traversal.h b/include/soro/utls/graph/traversal.h
index c1229f3..e905b4b 100644
--- a/include/soro/utls/graph/traversal.h
+++ b/include/soro/utls/graph/traversal.h
@@ -28,6 +28,9 @@ inline void graph_traversal(Node const start, GetNeighbours&& get_neighbours,
   Todo q;
   cista::raw::hash_set<Node> seen;
 
+  // start counts as seen, otherwise it is expanded a second time when an edge
+  // leads back to it
+  seen.emplace(start);
   q.emplace(std::pair{start, start});
 
   while (!q.empty()) {
-- 
2.43.0


From 9791908808ea62a4f58b64251f39a16bb287b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:39 +0000
Subject: [PATCH 09/75] fix: bitfields that set the same days are equivalent

---
 src/timetable/bitfield.cc | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/timetable/bitfield.cc b/src/timetable/bitfield.cc
index 377fe9f..11c584c 100644
--- a/src/timetable/bitfield.cc
+++ b/src/timetable/bitfield.cc
@@ -189,15 +189,12 @@ bool bitfield::equivalent(bitfield const& o) const noexcept {
     return true;
   }
 
-  if (this->first_date_ < o.first_date_) {
-    auto copy = o;
-    copy.bitset_ >> distance(this->first_date_, o.first_date_);
-    return *this == copy;
-  } else {
-    auto copy = *this;
-    copy.bitset_ >> distance(o.first_date_, this->first_date_);
-    return copy == o;
-  }
+  auto const& early = this->first_date_ <= o.first_date_ ? *this : o;
+  auto const& late = this->first_date_ <= o.first_date_ ? o : *this;
+
+  return early.count() == late.count() &&
+         early.bitset_ ==
+             late.bitset_ << distance(early.first_date_, late.first_date_);
 }
 
 bitfield operator|(bitfield const& lhs, bitfield const& rhs) noexcept {
-- 
2.43.0


From 7465d939ce115d805549ea8c4c84dcca877c758f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 10/75] fix: trips that left before the interval's first day
 are found

---
 src/timetable/train.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/timetable/train.cc b/src/timetable/train.cc
index e314edd..beaf019 100644
--- a/src/timetable/train.cc
+++ b/src/timetable/train.cc
@@ -10,6 +10,13 @@ namespace soro::tt {
 using namespace soro::rs;
 using namespace soro::infra;
 
+// the earliest midnight, whose trip could still be running at the given time
+absolute_time earliest_midnight(train const& train, absolute_time const t) {
+  auto const last_arrival = train.last_arrival();
+  return t.time_since_epoch() < last_arrival ? absolute_time::min()
+                                             : t - last_arrival;
+}
+
 train_node::train_node(soro::infra::route_node const& rn,
                        sequence_point::optional_ptr sp)
     : infra::route_node{rn},
@@ -25,7 +32,8 @@ train::iterator::iterator(train const* train, interval const& interval,
                           bool const end)
     : train_{train},
       bitfield_it_(end ? train->service_days_.to(interval.end_)
-                       : train->service_days_.from(interval.start_)),
+                       : train->service_days_.from(
+                             earliest_midnight(*train, interval.start_))),
       interval_{interval} {
   advance();
 }
-- 
2.43.0


From 7ca39d68d7d444a9f968019a102e202db29ad44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:19 +0000
Subject: [PATCH 11/75] fix: setting a value in an empty exclusion set

---
 src/infrastructure/exclusion/exclusion_set.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 08e1b6b..59da5dc 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -157,6 +157,11 @@ bool exclusion_set::operator[](exclusion_set::value_type const idx) const {
 }
 
 void exclusion_set::set(value_type const idx) {
+  if (this->empty()) {
+    *this = make_exclusion_set(id_, {idx});
+    return;
+  }
+
   if (idx < first_) {
     lower_first(this,
                 (idx / bitvec_t::bits_per_block) * bitvec_t::bits_per_block);
-- 
2.43.0


From a5d5b75e3ba18eb00e0651c0ea09429a8e1f49a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:46 +0000
Subject: [PATCH 12/75] fix: two empty exclusion sets compare equivalent

---
 src/infrastructure/exclusion/exclusion_set.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/exclusion/exclusion_set.cc b/src/infrastructure/exclusion/exclusion_set.cc
index 59da5dc..17e0fc4 100644
--- a/src/infrastructure/exclusion/exclusion_set.cc
+++ b/src/infrastructure/exclusion/exclusion_set.cc
@@ -281,8 +281,9 @@ exclusion_set exclusion_set::operator|(exclusion_set const& other) const {
 }
 
 std::partial_ordering exclusion_set::compare(exclusion_set const& other) const {
-  if (this->empty() && !other.empty()) {
-    return std::partial_ordering::less;
+  if (this->empty()) {
+    return other.empty() ? std::partial_ordering::equivalent
+                         : std::partial_ordering::less;
   }
 
   if (other.empty()) {
-- 
2.43.0


From e54e1dbd6e074cc2bddd7067547784e934ba3ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 13/75] fix: is_path copes with elements that have no neighbour
 on one side

---
 include/soro/infrastructure/path/is_path.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/soro/infrastructure/path/is_path.h b/include/soro/infrastructure/path/is_path.h
index 9c46d87..154cf7b 100644
--- a/include/soro/infrastructure/path/is_path.h
+++ b/include/soro/infrastructure/path/is_path.h
@@ -9,8 +9,9 @@
 namespace soro::infra {
 
 inline bool neighbours(element::ptr e1, element::ptr e2) {
-  return utls::any_of(e1->neighbours(),
-                      [&](auto&& neigh) { return neigh->id() == e2->id(); });
+  return utls::any_of(e1->neighbours(), [&](auto&& neigh) {
+    return neigh != nullptr && neigh->id() == e2->id();
+  });
 }
 
 template <typename Iterable>
-- 
2.43.0


From bbf638514e534d514127e277c8ffb8ceec13b279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:09 +0000
Subject: [PATCH 14/75] fix: get_path_length_from_sections does not read past
 the end of its path

---
 include/soro/infrastructure/path/length.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/soro/infrastructure/path/length.h b/include/soro/infrastructure/path/length.h
index 473de07..f29dbe4 100644
--- a/include/soro/infrastructure/path/length.h
+++ b/include/soro/infrastructure/path/length.h
@@ -59,6 +59,10 @@ si::length get_path_length_from_sections(Iterable&& element_iter) {
     while (iter != std::end(element_iter) && (*iter)->is_track_element()) {
       ++iter;
 
+      if (iter == std::end(element_iter)) {
+        break;
+      }
+
       prev_to_next_section = next_section;
       next_section = *iter;
     }
@@ -72,6 +76,10 @@ si::length get_path_length_from_sections(Iterable&& element_iter) {
 
     ++iter;
 
+    if (iter == std::end(element_iter)) {
+      break;
+    }
+
     last_section = next_section;
     next_to_last_section = *iter;
 
-- 
2.43.0


From b6d0e574c0f5d156ca3048a12cf8e70e5c28aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 15/75] fix: speed limits act where the data says they do

"Signal" means the last signal and "Hier" means here; the two were swapped.
---
 src/infrastructure/parsers/iss/parse_track_element.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/infrastructure/parsers/iss/parse_track_element.cc b/src/infrastructure/parsers/iss/parse_track_element.cc
index 9bfeb65..25619bd 100644
--- a/src/infrastructure/parsers/iss/parse_track_element.cc
+++ b/src/infrastructure/parsers/iss/parse_track_element.cc
@@ -21,11 +21,11 @@ namespace soro::infra {
 speed_limit::poa parse_speed_limit_poa(xml_node const& poa_node) {
   switch (str_hash(poa_node.child_value())) {
     case str_hash(SIGNAL): {
-      return speed_limit::poa::HERE;
+      return speed_limit::poa::LAST_SIGNAL;
     }
 
     case str_hash(HERE): {
-      return speed_limit::poa::LAST_SIGNAL;
+      return speed_limit::poa::HERE;
     }
 
     default: {
-- 
2.43.0


From 110c1df1d1c51bec0e6a9850247a6a8c118ee95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:29 +0000
Subject: [PATCH 16/75] fix: an extra speed limit of a station route sticks to
 its own node only

Iterating a station route attached an extra speed limit to every later node
as well, and an omitted node with an extra limit hid all later ones.
---
 src/infrastructure/station/station_route.cc | 22 ++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/infrastructure/station/station_route.cc b/src/infrastructure/station/station_route.cc
index 74b63a7..b1912c7 100644
--- a/src/infrastructure/station/station_route.cc
+++ b/src/infrastructure/station/station_route.cc
@@ -166,15 +166,19 @@ utls::recursive_generator<route_node> station_route::from_to(
 
     if (result.omitted_) {
       ++omit_idx;
-    } else {
-      bool const extra_spl =
-          spl_idx < extra_speed_limits_.size() &&
-          extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
-
-      if (extra_spl) {
-        result.extra_spl_ =
-            speed_limit::optional_ptr(&extra_speed_limits_[spl_idx++]);
-      }
+    }
+
+    bool const extra_spl =
+        spl_idx < extra_speed_limits_.size() &&
+        extra_speed_limits_[spl_idx].node_->id_ == result.node_->id_;
+
+    result.extra_spl_ = extra_spl && !result.omitted_
+                            ? speed_limit::optional_ptr(
+                                  &extra_speed_limits_[spl_idx])
+                            : speed_limit::optional_ptr(std::nullopt);
+
+    if (extra_spl) {
+      ++spl_idx;
     }
 
     co_yield result;
-- 
2.43.0


From 606cacbdd7367c804b6bffe0397e8747bf920c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 17/75] fix: interlocking statistics cope with an empty
 interlocking

---
 src/infrastructure/interlocking/get_interlocking.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/infrastructure/interlocking/get_interlocking.cc b/src/infrastructure/interlocking/get_interlocking.cc
index b4d2d8a..69400a9 100644
--- a/src/infrastructure/interlocking/get_interlocking.cc
+++ b/src/infrastructure/interlocking/get_interlocking.cc
@@ -273,6 +273,11 @@ void print_interlocking_stats(soro::vector<interlocking_route> const& irs) {
   }
 
   uLOG(utl::info) << "Generated " << irs.size() << " interlocking routes.";
+
+  if (irs.empty()) {
+    return;
+  }
+
   uLOG(utl::info) << "Average length in station routes of an interlocking: "
                   << length_in_srs / irs.size();
 }
-- 
2.43.0


From bab359e8e3394eac56277590240094abae3b2a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 18/75] fix: exclusion elements do not depend on a known
 hardware concurrency

---
 src/infrastructure/exclusion/get_exclusion.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/exclusion/get_exclusion.cc b/src/infrastructure/exclusion/get_exclusion.cc
index b8fc49d..4246017 100644
--- a/src/infrastructure/exclusion/get_exclusion.cc
+++ b/src/infrastructure/exclusion/get_exclusion.cc
@@ -43,7 +43,8 @@ soro::vector<interlocking_route::ids> get_closed_element_used_by(
   result_t element_used_by(element_count);
 
   // Set up the thread results ...
-  auto const thread_count = std::thread::hardware_concurrency();
+  // hardware_concurrency() is allowed to return 0 if it is not computable
+  auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
   soro::vector<result_t> thread_results(thread_count, result_t(element_count));
 
   // ... thread lambda ...
-- 
2.43.0


From 2486a29a7f723242f8bef953e9a214374a14a812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:14 +0000
Subject: [PATCH 19/75] fix: an infrastructure can be given by its Index.xml

---
 src/infrastructure/parsers/iss/iss_files.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/infrastructure/parsers/iss/iss_files.cc b/src/infrastructure/parsers/iss/iss_files.cc
index 04de0fd..d70c131 100644
--- a/src/infrastructure/parsers/iss/iss_files.cc
+++ b/src/infrastructure/parsers/iss/iss_files.cc
@@ -51,7 +51,7 @@ iss_files get_iss_files(std::filesystem::path const& fp) {
   if (fp.extension() == ".iss") {
     throw utl::fail("archives are currently not supported.");
   } else if (fp.filename().string() == "Index.xml") {
-    return iss_files(fp.parent_path());
+    return iss_files(fp);
   } else if (is_directory(fp) && exists(fp / "Index.xml")) {
     return iss_files(fp / "Index.xml");
   } else if (is_directory(fp) && !exists(fp / "Index.xml")) {
-- 
2.43.0


From f8d600763de0b720e95659ba0fe35c864136d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 20/75] fix: match interlocking routes to the station routes of
 a stop sequence

The first interlocking route may begin before the stop sequence and may end
after it: compare it from the first station route of the sequence on, do not
read past the end of the sequence, and turn down routes that leave it.
---
 .../station_route_to_interlocking_route.cc    | 59 +++++++++++++------
 1 file changed, 40 insertions(+), 19 deletions(-)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index adb5f39..4a82914 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -6,6 +6,7 @@
 
 #include "soro/utls/algo/sort_and_intersect.h"
 #include "soro/utls/std_wrapper/count_if.h"
+#include "soro/utls/std_wrapper/find.h"
 #include "soro/utls/std_wrapper/find_position.h"
 
 #include "soro/infrastructure/interlocking/interlocking_route.h"
@@ -16,10 +17,14 @@ namespace soro::tt {
 using namespace soro::rs;
 using namespace soro::infra;
 
+// The count of station routes the interlocking route shares with the stop
+// sequence, starting from the station route with offset sr_offset. The
+// interlocking route can start before this station route.
 auto get_prefix_length(interlocking_route const& interlocking_route,
                        stop_sequence const& stop_sequence,
                        std::size_t const sr_offset) {
-  auto sr1 = interlocking_route.station_routes_.begin();
+  auto sr1 = utls::find(interlocking_route.station_routes_,
+                        stop_sequence.points_[sr_offset].station_route_);
   auto sr2 = std::begin(stop_sequence.points_) +
              static_cast<std::ptrdiff_t>(sr_offset);
 
@@ -69,6 +74,10 @@ struct cover {
       return false;
     }
 
+    if (stop_sequence_offset_ == ss.points_.size()) {
+      return true;
+    }
+
     auto const last_sr =
         infra->station_routes_[ss.points_.back().station_route_];
 
@@ -155,19 +164,26 @@ utls::result<first_ir> get_first_ir(stop_sequence const& stop_sequence,
   auto const& prefix_ir = irs.routes_[longest_prefix_routes.front()];
 
   ss_cover.node_idx_ = prefix_ir.end_offset_;
-  if (current_longest_prefix == 0) {
-    ss_cover.stop_sequence_offset_ =
-        prefix_ir.station_routes_.size() -
-        utls::find_position(prefix_ir.station_routes_, first_sr->id_) - 1;
-  } else {
-    ss_cover.stop_sequence_offset_ = current_longest_prefix - 1;
-  }
+  ss_cover.stop_sequence_offset_ = current_longest_prefix - 1;
+
+  auto const remaining_srs =
+      prefix_ir.station_routes_.size() -
+      utls::find_position(prefix_ir.station_routes_, first_sr->id_);
 
-  if (longest_prefix_routes.size() == 1) {
-    return first_ir{.id_ = longest_prefix_routes.front(), .cover_ = ss_cover};
+  if (current_longest_prefix < remaining_srs) {
+    // the interlocking route leaves the stop sequence
+    if (current_longest_prefix < stop_sequence.points_.size()) {
+      return std::unexpected(error::route_transform::NO_FIRST_IR);
+    }
+
+    // the interlocking route continues after the last station route of the stop
+    // sequence, so it covers the last station route completely
+    ss_cover.node_idx_ =
+        infra->station_routes_[stop_sequence.points_.back().station_route_]
+            ->size();
   }
 
-  return std::unexpected(error::route_transform::NO_UNIQUE_FIRST_IR);
+  return first_ir{.id_ = longest_prefix_routes.front(), .cover_ = ss_cover};
 }
 
 soro::vector<sequence_point> get_sequence_points(interlocking_route const& ir,
@@ -249,13 +265,17 @@ utls::result<interlocking_transformation> transform_to_interlocking(
                             current_cover.stop_sequence_offset_ + prefix_length,
                             infra));
 
-    // the current cover + the current interlocking route cover more
-    // than the given stop sequence.
-    // thus, it is fully covered
-    if (current_cover.stop_sequence_offset_ +
-            current_ir->station_routes_.size() >
-        stop_sequence.points_.size()) {
-      break;
+    if (prefix_length < current_ir->station_routes_.size()) {
+      // the current cover + the current interlocking route cover more
+      // than the given stop sequence.
+      // thus, it is fully covered
+      if (current_cover.stop_sequence_offset_ + prefix_length ==
+          stop_sequence.points_.size()) {
+        break;
+      }
+
+      // the interlocking route leaves the stop sequence
+      return std::unexpected(error::route_transform::NO_IR);
     }
 
     // true when the current interlocking route and the currently worked on
@@ -270,7 +290,8 @@ utls::result<interlocking_transformation> transform_to_interlocking(
     // into the interlocking path, so we can move on to the next station route
     current_cover.stop_sequence_offset_ +=
         ends_align ? prefix_length : prefix_length - 1;
-    current_cover.node_idx_ = current_ir->end_offset_;
+    // nothing of the next station route is covered yet
+    current_cover.node_idx_ = ends_align ? 0 : current_ir->end_offset_;
   }
 
   utls::ensures([&] {
-- 
2.43.0


From aa0c27118d311647fb54a891de59766942dcba5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 21/75] fix: a probability distribution keeps values inserted
 before its first one

---
 include/soro/simulation/dpd.h | 23 ++++++-----------------
 1 file changed, 6 insertions(+), 17 deletions(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index 9f0cf99..23987d9 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -127,15 +127,10 @@ struct dpd<Granularity, T> {
     }
 
     if (granular < first_) {
-      auto diff = (first_ - granular) / granularity;
-      std::vector<probability_t> new_dpd(dpd_.size() + size_t{diff});
-      for (soro::size_t idx = 0; idx < new_dpd.size(); ++idx) {
-        if (static_cast<soro::size_t>(diff) < idx) {
-          new_dpd[idx] = 0.0F;
-        } else {
-          new_dpd[idx + size_t{diff}] = dpd_[idx];
-        }
-      }
+      auto const diff =
+          static_cast<std::size_t>((first_ - granular) / granularity);
+      dpd_.insert(std::begin(dpd_), diff, probability_t{0.0F});
+      first_ = granular;
     }
 
     auto const idx = to_idx(head);
@@ -197,14 +192,8 @@ struct dpd<Granularity, T, Ts...> {
     if (granular < first_) {
       auto const diff =
           static_cast<std::size_t>(((first_ - granular) / granularity).t_);
-      container_t new_dpds(dpd_.size() + diff);
-      for (auto idx = 0U; idx < new_dpds.size(); ++idx) {
-        if (idx < diff) {
-          new_dpds[idx] = {};
-        } else {
-          new_dpds[idx] = std::move(dpd_[idx]);
-        }
-      }
+      dpd_.insert(std::begin(dpd_), diff, inner_dpd_t{});
+      first_ = granular;
     }
 
     auto const idx = to_idx(head);
-- 
2.43.0


From aa78f5a7aba49930d6aa3615229875ef2409ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 22/75] fix: iterating a time-speed distribution yields the
 inserted speeds

---
 include/soro/simulation/dpd.h                | 2 +-
 include/soro/simulation/kilometer_per_hour.h | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index 23987d9..47ce117 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -246,7 +246,7 @@ utls::generator<std::tuple<
           dpd.first_ +
           dpd.get_granularity() * soro::utls::unixtime{static_cast<time_t>(p1)};
       auto const speed =
-          m2.first_ + m2.get_granularity() + kilometer_per_hour{p2};
+          m2.first_ + m2.get_granularity() * kilometer_per_hour{p2};
 
       co_yield std::tuple{time, speed, prob};
     }
diff --git a/include/soro/simulation/kilometer_per_hour.h b/include/soro/simulation/kilometer_per_hour.h
index 3df0aee..8ca8002 100644
--- a/include/soro/simulation/kilometer_per_hour.h
+++ b/include/soro/simulation/kilometer_per_hour.h
@@ -25,6 +25,10 @@ struct kilometer_per_hour {
     return kilometer_per_hour{static_cast<member_t>(km_h_ - o.km_h_)};
   }
 
+  auto operator*(kilometer_per_hour const& o) const {
+    return kilometer_per_hour{static_cast<member_t>(km_h_ * o.km_h_)};
+  }
+
   auto operator/(kilometer_per_hour const& o) const {
     return kilometer_per_hour{static_cast<member_t>(km_h_ / o.km_h_)};
   }
-- 
2.43.0


From 8d4060c0f551b32304c5ec539ef00d77214c9116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 23/75] fix: the next node of a trip is the trip's own

---
 src/simulation/ordering/ordering_graph.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index fa553f4..83aba1f 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -219,13 +219,15 @@ std::span<const ordering_node> ordering_graph::trip_nodes(
 }
 
 ordering_node const& ordering_node::next(ordering_graph const& og) const {
+  // the nodes of a trip are stored consecutively, other trains can be in the way
+  // of the edge between them or come before it
   utls::sasserts([this, &og] {
-    utls::sassert(!out_.empty(), "no next node");
-    auto const& next = og.nodes_[out_.front()];
+    utls::sassert(id_ + 1 < og.nodes_.size(), "no next node");
+    auto const& next = og.nodes_[id_ + 1];
     utls::sassert(next.train_id_ == train_id_, "next node not same train");
   });
 
-  return og.nodes_[out_.front()];
+  return og.nodes_[id_ + 1];
 }
 
 }  // namespace soro::simulation
\ No newline at end of file
-- 
2.43.0


From 0f3438efc475511e4cf52753f0ad396bdf53dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 24/75] fix: looking up a traction vehicle reads only the given
 names

---
 src/rolling_stock/rolling_stock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rolling_stock/rolling_stock.cc b/src/rolling_stock/rolling_stock.cc
index 7adc5df..4b457cd 100644
--- a/src/rolling_stock/rolling_stock.cc
+++ b/src/rolling_stock/rolling_stock.cc
@@ -8,7 +8,7 @@ utls::result<traction_vehicle> rolling_stock::get_traction_vehicle(
     std::string_view const series, std::string_view const owner,
     variant_id variant_id) const {
 
-  std::string tsk = series.data() + std::string("-") + owner.data();  // NOLINT
+  auto const tsk = fmt::format("{}-{}", series, owner);
   soro::string const train_series_key{tsk.data()};  // NOLINT
 
   auto train_series_it = train_series_.find(train_series_key);
-- 
2.43.0


From fe566ffb360e58458b38159e656700c54b604b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:45 +0000
Subject: [PATCH 25/75] fix: the infrastructure version is read from a kss
 file, not from any file

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index a45d802..6bd6bf5 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -17,6 +17,7 @@
 #include "soro/utls/sassert.h"
 #include "soro/utls/statistics.h"
 #include "soro/utls/std_wrapper/any_of.h"
+#include "soro/utls/std_wrapper/find_if.h"
 #include "soro/utls/string.h"
 
 #include "soro/timetable/bitfield.h"
@@ -510,7 +511,13 @@ infra::version get_required_infra_version(timetable_options const& opts) {
   utls::expect(!fs::is_empty(opts.timetable_path_),
                "timetable path {} is empty", opts.timetable_path_);
 
-  auto const first_fp = begin(fs::directory_iterator{opts.timetable_path_});
+  // the directory can contain other files as well
+  auto const first_fp = utls::find_if(
+      fs::directory_iterator{opts.timetable_path_},
+      [](auto&& dir_entry) { return is_kss_file(dir_entry.path()); });
+  utls::expect(first_fp != fs::directory_iterator{},
+               "no kss file in timetable path {}", opts.timetable_path_);
+
   auto const first_file = utls::load_file(first_fp->path());
 
   xml_document tt_xml;
-- 
2.43.0


From c32d960df4016115e8291e22145e2cc1ee881327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 26/75] fix: route usages starting at the same time have one
 order in all exclusion sets

---
 src/simulation/ordering/ordering_graph.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/simulation/ordering/ordering_graph.cc b/src/simulation/ordering/ordering_graph.cc
index 83aba1f..a6419b6 100644
--- a/src/simulation/ordering/ordering_graph.cc
+++ b/src/simulation/ordering/ordering_graph.cc
@@ -1,5 +1,7 @@
 #include "soro/simulation/ordering/ordering_graph.h"
 
+#include <tuple>
+
 #include "range/v3/range/conversion.hpp"
 #include "range/v3/view/filter.hpp"
 #include "range/v3/view/transform.hpp"
@@ -180,19 +182,18 @@ ordering_graph::ordering_graph(infra::infrastructure const& infra,
     generate_route_orderings(train);
   }
 
+  // usages that start at the same time need the same order in every exclusion
+  // set, otherwise there are cycles in the ordering graph
   utl::parallel_for(orderings, [](auto&& usage_order) {
     utls::sort(usage_order, [](auto&& usage1, auto&& usage2) {
-      return usage1.from_ < usage2.from_;
+      return std::tie(usage1.from_, usage1.id_) <
+             std::tie(usage2.from_, usage2.id_);
     });
   });
 
   // create edges according to the sorted orderings
   for (auto const& usage_order : orderings) {
     for (auto [from, to] : utl::pairwise(usage_order)) {
-      // if the .from timestamps for the orderings are equal then we are just
-      // betting that we don't introduce a cycle into the ordering graph
-      //      utls::sassert(from.from_ != to.from_, "from and to are equal");
-
       nodes_[from.id_].out_.emplace_back(to.id_);
       nodes_[to.id_].in_.emplace_back(from.id_);
     }
-- 
2.43.0


From 5c80a79668ef8728ff50e8e66b0a6704a964bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 27/75] fix: the difference of distribution iterators has the
 usual sign

---
 include/soro/simulation/dpd.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/soro/simulation/dpd.h b/include/soro/simulation/dpd.h
index 47ce117..4359c1a 100644
--- a/include/soro/simulation/dpd.h
+++ b/include/soro/simulation/dpd.h
@@ -71,7 +71,7 @@ struct prob_dist_iter {
   bool operator!=(prob_dist_iter const& o) const { return it_ != o.it_; }
 
   int operator-(prob_dist_iter const& o) const {
-    return std::distance(it_, o.it_);
+    return static_cast<int>(std::distance(o.it_, it_));
   }
 
   typename T::primary_t t_;
-- 
2.43.0


From 881412bd5cff0ed7b21626f9a47d9e0d72dd5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 28/75] fix: limits from the last signal on start at a signal
 that shares its place

---
 src/runtime/interval.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/runtime/interval.cc b/src/runtime/interval.cc
index b61af2d..15fbdcb 100644
--- a/src/runtime/interval.cc
+++ b/src/runtime/interval.cc
@@ -211,10 +211,6 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
       current_limit = (*spl_duo.here_)->limit_;
     }
 
-    if (tn.node_->is(type::MAIN_SIGNAL)) {
-      last_ms = list.size();
-    }
-
     if (event_types.contains(tn.node_->type())) {
       current_events.emplace_back(tn.node_, current_distance);
     }
@@ -234,6 +230,11 @@ interval_list get_interval_list(train const& train, type_set const& event_types,
         list.push_back(new_interval);
       }
 
+      // the signal can share its interval with an element at the same place
+      if (tn.node_->is(type::MAIN_SIGNAL)) {
+        last_ms = list.size() - 1;
+      }
+
       prev_limit = current_limit;
       current_events = {};
     }
-- 
2.43.0


From 1192ff7e463fa0d2e5f8397a5c4dbdd34dde3af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 29/75] fix: trains without service days do not count towards a
 timetable's interval

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index 6bd6bf5..4598e8f 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -543,6 +543,11 @@ interval get_interval(soro::vector<train> const& trains) {
   interval result{.start_ = absolute_time::max(), .end_ = absolute_time::min()};
 
   for (auto const& train : trains) {
+    // a train without service days never runs
+    if (train.trip_count() == 0) {
+      continue;
+    }
+
     result.start_ = std::min(result.start_, train.first_absolute_departure());
     result.end_ = std::max(result.end_, train.last_absolute_arrival());
   }
-- 
2.43.0


From 6ca9020ea61d88953317a6055590fc6f463c6cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 30/75] fix: a parsed timetable knows the type of its source

---
 src/timetable/timetable.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/timetable/timetable.cc b/src/timetable/timetable.cc
index 7c0316e..cb1f8a1 100644
--- a/src/timetable/timetable.cc
+++ b/src/timetable/timetable.cc
@@ -69,7 +69,10 @@ utls::result<timetable> try_parsing_timetable(
 
   utls::sassert(bt.has_value(), "base timetable not successfully parsed");
 
-  return timetable(std::move(*bt));
+  timetable result(std::move(*bt));
+  result.source_type_ = source_type;
+
+  return result;
 }
 
 }  // namespace soro::tt
-- 
2.43.0


From deb631bd8dfd7452863cb8dcfc1697a0b5274052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 31/75] fix: elements without data are served too

---
 web/server/src/modules/infrastructure/serve_element.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index 564aeab..ee47ed6 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -12,7 +12,13 @@ using namespace soro::infra;
 
 template <typename Archive>
 void add_data_to_cereal_archive(Archive& archive, element_data_t const& ed) {
+  // most elements have no data of their own
+  if (!ed.valid()) {
+    return;
+  }
+
   ed.apply(utl::overloaded{
+      [](empty const&) {},
       [&](eotd const& eotd) {
         archive(cereal::make_nvp("signal", eotd.signal_));
       },
-- 
2.43.0


From b6d6faebb49c392a4438844ff6a7cb51112be036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 32/75] fix: an element that does not exist is not found

---
 web/server/src/modules/infrastructure/serve_element.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/web/server/src/modules/infrastructure/serve_element.cc b/web/server/src/modules/infrastructure/serve_element.cc
index ee47ed6..860dedb 100644
--- a/web/server/src/modules/infrastructure/serve_element.cc
+++ b/web/server/src/modules/infrastructure/serve_element.cc
@@ -52,6 +52,12 @@ net::web_server::string_res_t infrastructure_module::serve_element(
   }
 
   auto const e_id = utls::parse_int<element_id>(req.path_params_[1]);
+  if (e_id >= (**infra)->graph_.elements_.size()) {
+    uLOG(utl::warn) << "requesting element " << e_id << " but there are only "
+                    << (**infra)->graph_.elements_.size() << " elements";
+    return net::not_found_response(req);
+  }
+
   auto const& element = (**infra)->graph_.elements_[e_id];
 
   json_archive archive;
-- 
2.43.0


From bf99a9874230f274a0f024e48e03b293ec03f294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 33/75] fix: an exclusion set that does not exist is not found

---
 .../src/modules/infrastructure/serve_exclusion_set.cc     | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/web/server/src/modules/infrastructure/serve_exclusion_set.cc b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
index c775048..5a32b44 100644
--- a/web/server/src/modules/infrastructure/serve_exclusion_set.cc
+++ b/web/server/src/modules/infrastructure/serve_exclusion_set.cc
@@ -21,6 +21,14 @@ net::web_server::string_res_t infrastructure_module::serve_exclusion_set(
   }
 
   auto const es_id = utls::parse_int<exclusion_set::id>(req.path_params_[1]);
+  if (es_id >= (**infra)->exclusion_.exclusion_sets_.size()) {
+    uLOG(utl::warn) << "requesting exclusion set " << es_id
+                    << " but there are only "
+                    << (**infra)->exclusion_.exclusion_sets_.size()
+                    << " exclusion sets";
+    return net::not_found_response(req);
+  }
+
   auto const& es = (**infra)->exclusion_.exclusion_sets_[es_id];
 
   json_archive archive;
-- 
2.43.0


From ed7e3f16371a38397b041297c018c779afc8eef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 34/75] fix: the timetables of an unknown infrastructure are
 not found

---
 web/server/src/modules/timetable/serve_timetable_names.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/timetable/serve_timetable_names.cc b/web/server/src/modules/timetable/serve_timetable_names.cc
index c3744a9..a4c9053 100644
--- a/web/server/src/modules/timetable/serve_timetable_names.cc
+++ b/web/server/src/modules/timetable/serve_timetable_names.cc
@@ -1,5 +1,7 @@
 #include "soro/server/modules/timetable/timetable_module.h"
 
+#include "net/web_server/responses.h"
+
 #include "soro/server/cereal/cereal_extern.h"
 #include "soro/server/cereal/json_archive.h"
 
@@ -7,7 +9,11 @@ namespace soro::server {
 
 net::web_server::string_res_t timetable_module::serve_timetable_names(
     net::query_router::route_request const& req) const {
-  auto const& context = this->contexts_.at(req.path_params_.front());
+  auto const it = this->contexts_.find(req.path_params_.front());
+  if (it == std::end(this->contexts_)) {
+    return net::not_found_response(req);
+  }
+  auto const& context = it->second;
 
   json_archive archive;
   archive.add()(cereal::make_nvp("timetables",
-- 
2.43.0


From 4fb1e9ec2f28c0f6417d856b0261bf975a7128ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 35/75] fix: halts are found by their extern identifier

---
 web/server/src/modules/search/search_module.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/web/server/src/modules/search/search_module.cc b/web/server/src/modules/search/search_module.cc
index ec359e4..b119e69 100644
--- a/web/server/src/modules/search/search_module.cc
+++ b/web/server/src/modules/search/search_module.cc
@@ -107,12 +107,12 @@ search_module::context get_search_context(infra::infrastructure const& infra) {
       }
 
       if (!data.identifier_extern_.empty()) {
-        std::string const name(data.identifier_operational_);
-        ctx.results_.push_back({type, name, bb, id});
+        std::string const name(data.identifier_extern_);
+        ctx.results_.push_back({type, name, bb, id, type_str});
       }
 
       if (!data.identifier_operational_.empty()) {
-        std::string const name(data.identifier_extern_);
+        std::string const name(data.identifier_operational_);
         ctx.results_.push_back({type, name, bb, id, type_str});
       }
     }
-- 
2.43.0


From ff65acea80e65b6eed46fd8a47711b1006ba81b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 36/75] fix: OSM export with an unknown number of hardware
 threads

---
 web/server/src/modules/tiles/osm_export/osm_export.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/tiles/osm_export/osm_export.cc b/web/server/src/modules/tiles/osm_export/osm_export.cc
index b621a5d..006a110 100644
--- a/web/server/src/modules/tiles/osm_export/osm_export.cc
+++ b/web/server/src/modules/tiles/osm_export/osm_export.cc
@@ -180,7 +180,9 @@ pugi::xml_document export_to_osm(soro::infra::infrastructure_t const& iss) {
 
   uLOG(info) << "[ OSM Export ] Stations and elements to OSM.";
   auto node_length = osm_info.nodes_.size();
-  std::size_t const thread_count = std::thread::hardware_concurrency();
+  // the number of threads may be unknown
+  std::size_t const thread_count =
+      std::max(std::thread::hardware_concurrency(), 1U);
   std::size_t const unit = (node_length / thread_count) + 1;
   std::vector<std::future<pugi::xml_document>> docs;
 
-- 
2.43.0


From ac5303f32069cb6fd91e09de4a423337b9a12523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:15 +0000
Subject: [PATCH 37/75] fix: a missing coordinate list leaves every station
 without a place

---
 src/infrastructure/parsers/parse_station_coords.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/infrastructure/parsers/parse_station_coords.cc b/src/infrastructure/parsers/parse_station_coords.cc
index c15d047..812a6a5 100644
--- a/src/infrastructure/parsers/parse_station_coords.cc
+++ b/src/infrastructure/parsers/parse_station_coords.cc
@@ -18,14 +18,14 @@ using namespace soro::utls;
 soro::vector<gps> parse_station_coords(
     std::filesystem::path const& gps_path,
     soro::map<soro::string, station::ptr> const& ds100_to_station) {
+  soro::vector<gps> station_coords(
+      static_cast<uint32_t>(ds100_to_station.size()));
+
   if (!std::filesystem::exists(gps_path)) {
     uLOG(warn) << "GPS coordinate path '" << gps_path << "' does not exist.";
-    return {};
+    return station_coords;
   }
 
-  soro::vector<gps> station_coords(
-      static_cast<uint32_t>(ds100_to_station.size()));
-
   auto const gps_content = utls::read_file_to_string(gps_path);
 
   struct row {
-- 
2.43.0


From 653c209d03010bb92d8a2bd8d68e20fdf58d7306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 38/75] fix: connections between borders at the same place

---
 web/server/src/modules/tiles/osm_export/interpolation.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/web/server/src/modules/tiles/osm_export/interpolation.cc b/web/server/src/modules/tiles/osm_export/interpolation.cc
index 9a7fd32..2c4ba77 100644
--- a/web/server/src/modules/tiles/osm_export/interpolation.cc
+++ b/web/server/src/modules/tiles/osm_export/interpolation.cc
@@ -59,7 +59,8 @@ gps get_auxiliary_point(element_ptr e1, element_ptr e2,
     dist = sin(to_rad(e1_gps.lat_)) * sin(to_rad(e2_gps.lat_)) +
            cos(to_rad(e1_gps.lat_)) * cos(to_rad(e2_gps.lat_)) *
                cos(to_rad(e1_gps.lon_ - e2_gps.lon_));
-    dist = acos(dist);
+    // rounding may push the cosine of no distance above one
+    dist = acos(std::min(dist, 1.0));
     dist = (EARTH_RADIUS / 1000.0 * PI * dist) / 180.0F;
     double units = 0.2 * dist;
 
-- 
2.43.0


From dab77a41c61233a40cc459ecec7fa4d8bdd88922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 39/75] fix: all main signals of a section are looked for in
 the OSM data

---
 tools/generate-osm/db-utils/mapper/map-signals.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/mapper/map-signals.go b/tools/generate-osm/db-utils/mapper/map-signals.go
index c803f54..845eaac 100644
--- a/tools/generate-osm/db-utils/mapper/map-signals.go
+++ b/tools/generate-osm/db-utils/mapper/map-signals.go
@@ -106,7 +106,7 @@ func processHauptsignal(
 					Lat:  matchingSignalNodes[0].Lat,
 					Lon:  matchingSignalNodes[0].Lon,
 				}
-				return nil
+				continue
 			}
 		}
 		conflictingSignalNames[signal.Name.Value] = true
-- 
2.43.0


From 6df0569977914915f4efbd941643e5c8139477cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 40/75] fix: the closest match is one of the two closest nodes

---
 tools/generate-osm/db-utils/find-nodes/find-closest-match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/find-nodes/find-closest-match.go b/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
index 66702a5..ab2cb02 100644
--- a/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
+++ b/tools/generate-osm/db-utils/find-nodes/find-closest-match.go
@@ -47,7 +47,7 @@ func findClosestMatch(
 
 	var allPairs = []NodePair{
 		{upNode1, upNode2, distUp1Up2, upDist1, upDist2},
-		{upNode1, downNode1, distUp1Down2, upDist1, downDist2},
+		{upNode1, downNode2, distUp1Down2, upDist1, downDist2},
 		{downNode1, upNode2, distDown1Up2, downDist1, upDist2},
 		{downNode1, downNode2, distDown1Down2, downDist1, downDist2}}
 
-- 
2.43.0


From 0451ec4c7a33ce78a7f82c63db77abc6debfe98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:36 +0000
Subject: [PATCH 41/75] fix: a switch that is not found is reported after one
 that is

---
 tools/generate-osm/db-utils/mapper/map-switches.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/db-utils/mapper/map-switches.go b/tools/generate-osm/db-utils/mapper/map-switches.go
index 86e8e42..93c5e73 100644
--- a/tools/generate-osm/db-utils/mapper/map-switches.go
+++ b/tools/generate-osm/db-utils/mapper/map-switches.go
@@ -20,8 +20,8 @@ func FindAndMapAnchorSwitches(
 	foundAnchorCount *int,
 	nodeIdCounter *int,
 ) error {
-	foundSwitch := false
 	for _, switchBegin := range knoten.WeichenAnf {
+		foundSwitch := false
 		for _, node := range osm.Node {
 			if len(node.Tag) == 0 {
 				continue
-- 
2.43.0


From 9bc47c32f8266f5f153bb493d60a0af8fb8593d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:37 +0000
Subject: [PATCH 42/75] fix: of several common nodes the one that fits the
 distances is taken

---
 .../db-utils/find-nodes/find-new-node.go      | 28 +++++++++++++++----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/tools/generate-osm/db-utils/find-nodes/find-new-node.go b/tools/generate-osm/db-utils/find-nodes/find-new-node.go
index 9f7636d..cca6fea 100644
--- a/tools/generate-osm/db-utils/find-nodes/find-new-node.go
+++ b/tools/generate-osm/db-utils/find-nodes/find-new-node.go
@@ -31,11 +31,27 @@ func findNewNode(
 		return nil, errors.Wrap(err2, "insufficient anchor: "+node2.Id)
 	}
 
-	if up1 == up2 || up1 == down2 {
-		return OSMUtil.GetNodeById(osmData, up1)
-	} else if down1 == up2 || down1 == down2 {
-		return OSMUtil.GetNodeById(osmData, down1)
-	} else {
-		return findClosestMatch(osmData, up1, up2, down1, down2, math.Abs(upDist1-dist1), math.Abs(upDist2-dist2), math.Abs(downDist1-dist1), math.Abs(downDist2-dist2))
+	upDist1, downDist1 = math.Abs(upDist1-dist1), math.Abs(downDist1-dist1)
+	upDist2, downDist2 = math.Abs(upDist2-dist2), math.Abs(downDist2-dist2)
+
+	// both anchors can lead to more than one common Node, e.g. if they reach the same end of the track
+	commonNode, deviation := "", math.Inf(1)
+	for _, common := range []struct {
+		id1, id2  string
+		deviation float64
+	}{
+		{up1, up2, upDist1 + upDist2},
+		{up1, down2, upDist1 + downDist2},
+		{down1, up2, downDist1 + upDist2},
+		{down1, down2, downDist1 + downDist2},
+	} {
+		if common.id1 == common.id2 && common.deviation < deviation {
+			commonNode, deviation = common.id1, common.deviation
+		}
+	}
+	if commonNode != "" {
+		return OSMUtil.GetNodeById(osmData, commonNode)
 	}
+
+	return findClosestMatch(osmData, up1, up2, down1, down2, upDist1, upDist2, downDist1, downDist2)
 }
-- 
2.43.0


From 44370f98b25ca9075c0dc1c14fad3d056b495814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 43/75] fix: all stations and halts of the lines are replaced

---
 tools/generate-osm/main.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tools/generate-osm/main.go b/tools/generate-osm/main.go
index 5a4c8f6..d99bf8d 100644
--- a/tools/generate-osm/main.go
+++ b/tools/generate-osm/main.go
@@ -198,16 +198,18 @@ func generateOsm(generateLines bool, mapDB bool, inputFile string, outputFile st
 			return errors.Wrap(err, "failed writing stations JSON")
 		}
 
-		for i, node := range outputOsm.Node {
+		outputNodes := []*osmUtils.Node{}
+		for _, node := range outputOsm.Node {
 			value, found := osmUtils.FindTagOnNode(node, "railway")
 
 			if found == nil {
 				if value == "station" || value == "halt" {
-					outputOsm.Node = append(outputOsm.Node[:i], outputOsm.Node[i+1:]...)
+					continue
 				}
 			}
+			outputNodes = append(outputNodes, node)
 		}
-		outputOsm.Node = append(outputOsm.Node, stationHaltOsm.Node...)
+		outputOsm.Node = append(outputNodes, stationHaltOsm.Node...)
 		osmUtils.SortAndRemoveDuplicatesOsm(&outputOsm)
 		osmData = outputOsm
 	}
-- 
2.43.0


From 3b6c9b83ea8784abb9f5192079b9c2b51e6f821e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 44/75] fix: additional OSM data is accepted if it is an xml
 file

---
 tools/generate-osm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/generate-osm/main.go b/tools/generate-osm/main.go
index d99bf8d..0869d05 100644
--- a/tools/generate-osm/main.go
+++ b/tools/generate-osm/main.go
@@ -227,7 +227,7 @@ func generateOsm(generateLines bool, mapDB bool, inputFile string, outputFile st
 }
 
 func insertOsm(modifiedOsm osmUtils.Osm, additionalOsmFile string, maxNewNodeID int) (osmUtils.Osm, error) {
-	if additionalOsmFile[:len(additionalOsmFile)-4] != ".xml" {
+	if filepath.Ext(additionalOsmFile) != ".xml" {
 		return osmUtils.Osm{}, errors.New("additional osm file must be an xml file")
 	}
 
-- 
2.43.0


From 7b2c68872be0579962ac145c3305b13a157ca4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 45/75] fix: the DB elements are part of the ways of the
 additional OSM data

---
 tools/generate-osm/main.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/generate-osm/main.go b/tools/generate-osm/main.go
index 0869d05..8470c9e 100644
--- a/tools/generate-osm/main.go
+++ b/tools/generate-osm/main.go
@@ -253,6 +253,7 @@ func insertOsm(modifiedOsm osmUtils.Osm, additionalOsmFile string, maxNewNodeID
 					}
 				}
 				outputWay.Tag = modifiedWay.Tag
+				outputWay.Nd = modifiedWay.Nd
 			}
 		}
 	}
-- 
2.43.0


From 337b50c51849d1a0b21da42500dd61960411802f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:25 +0000
Subject: [PATCH 46/75] fix: an element where two ways of opposite direction
 meet does not turn the search back

---
 tools/generate-osm/db-utils/find-nodes/find-next-way.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/generate-osm/db-utils/find-nodes/find-next-way.go b/tools/generate-osm/db-utils/find-nodes/find-next-way.go
index 46776a3..8802378 100644
--- a/tools/generate-osm/db-utils/find-nodes/find-next-way.go
+++ b/tools/generate-osm/db-utils/find-nodes/find-next-way.go
@@ -48,6 +48,10 @@ func findNextWay(
 		connectionComingFromFirst := waysBeginMatch && firstWayMatches && firstWayMatchesOldNode
 		// or both beginnings link up, however we come from second [second item is also known!]
 		connectionComingFromSecond := waysBeginMatch && secondWayMatches && secondWayMatchesOldNode
+		// an element inserted next to the beginning is the second item of both ways
+		if connectionComingFromFirst && connectionComingFromSecond {
+			connectionComingFromFirst = runningWay.Id == firstWay.Id
+		}
 
 		if !firstLinksWithSecond && !secondLinksWithFirst && !connectionComingFromFirst && !connectionComingFromSecond {
 			return OSMUtil.Way{}, 0, false, errors.New("failed to find way up for node: " + runningNode.Id)
@@ -93,6 +97,10 @@ func findNextWay(
 	connectionEndComingFromFirst := firstLastAndSecondLastMatch && firstWayLastMatches && firstWayMatchesOldNode
 	// or end-linkage and coming from second
 	connectionEndComingFromSecond := firstLastAndSecondLastMatch && secondWayLastMatches && secondWayMatchesOldNode
+	// an element inserted next to the end is the second-to-last item of both ways
+	if connectionEndComingFromFirst && connectionEndComingFromSecond {
+		connectionEndComingFromFirst = runningWay.Id == firstWay.Id
+	}
 
 	if !firstLinksWithSecond && !secondLinksWithFirst && !connectionEndComingFromFirst && !connectionEndComingFromSecond {
 		return OSMUtil.Way{}, 0, false, errors.New("failed to find way down for node: " + runningNode.Id)
-- 
2.43.0


From 35f433fc20ef8529452b093b792944faa1ad60f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 47/75] fix: the delays at a halt are a probability
 distribution

The first delay is zero, not one, so its probability was three and the
distribution added up to four.
---
 include/soro/simulation/disruption.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/soro/simulation/disruption.h b/include/soro/simulation/disruption.h
index 9eb2b31..a3e5a45 100644
--- a/include/soro/simulation/disruption.h
+++ b/include/soro/simulation/disruption.h
@@ -17,8 +17,7 @@ inline DurationDPD get_halt_distribution() {
   for (auto delay = 0_s; delay < max_trials; delay += 1_s) {
     auto delay_as_prob = static_cast<probability_t>(delay.d_);
 
-    probability_t const prob =
-        std::pow(1 - p_halt, delay_as_prob - probability_t(1.0)) * p_halt;
+    probability_t const prob = std::pow(1 - p_halt, delay_as_prob) * p_halt;
 
     result.insert(delay, prob);
   }
-- 
2.43.0


From 9c2e2d3046f6bddb33c23f0cf440fb7193383b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:39 +0000
Subject: [PATCH 48/75] fix: the disturbances of a train are a probability
 distribution

The delays start at zero, not one, and there are twice the variance plus one
speeds; the sum was seventeen or more, and infinite for a standing train.
---
 include/soro/simulation/disruption.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/soro/simulation/disruption.h b/include/soro/simulation/disruption.h
index a3e5a45..286ad12 100644
--- a/include/soro/simulation/disruption.h
+++ b/include/soro/simulation/disruption.h
@@ -44,9 +44,8 @@ inline TimeSpeedDPD get_runtime_distribution(utls::unixtime const& arrival,
       auto const delay_as_prob = static_cast<probability_t>(delay.d_);
 
       probability_t const prob =
-          (std::pow(1 - p_departure, delay_as_prob - probability_t(1.0)) *
-           p_departure) /
-          static_cast<probability_t>(speed_variance.km_h_) * 2;
+          (std::pow(1 - p_departure, delay_as_prob) * p_departure) /
+          static_cast<probability_t>(speed_variance.km_h_ * 2 + 1);
 
       result.insert(arrival + delay, new_speed, prob);
     }
-- 
2.43.0


From 57a2964cb15bacdf3c4200d7d8dcb52040aef04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:31 +0000
Subject: [PATCH 49/75] fix: interlocking routes where trains can run around a
 ring without a signal

---
 src/infrastructure/interlocking/get_interlocking.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/infrastructure/interlocking/get_interlocking.cc b/src/infrastructure/interlocking/get_interlocking.cc
index 69400a9..5e20a9f 100644
--- a/src/infrastructure/interlocking/get_interlocking.cc
+++ b/src/infrastructure/interlocking/get_interlocking.cc
@@ -9,6 +9,7 @@
 
 #include "soro/infrastructure/infrastructure.h"
 #include "soro/utls/std_wrapper/accumulate.h"
+#include "soro/utls/std_wrapper/contains.h"
 #include "soro/utls/std_wrapper/is_sorted.h"
 #include "soro/utls/std_wrapper/sort.h"
 
@@ -195,6 +196,13 @@ soro::vector<interlocking_route> get_interlocking_routes_from_sr(
       return;
     }
 
+    // a ring without a signal would be followed around and around
+    auto const circles = !route->can_end_an_interlocking(srg) &&
+                         utls::contains(ir.station_routes_, route->id_);
+    if (circles) {
+      return;
+    }
+
     ir.station_routes_.emplace_back(route->id_);
 
     if (route->can_end_an_interlocking(srg)) {
-- 
2.43.0


From c83fe5e33f15079a405bce9833764ea6610e2ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 50/75] fix: the first speed limit of a train that starts on a
 ring without speed limits

---
 src/runtime/interval.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/interval.cc b/src/runtime/interval.cc
index 15fbdcb..951e7af 100644
--- a/src/runtime/interval.cc
+++ b/src/runtime/interval.cc
@@ -30,7 +30,11 @@ si::speed get_initial_spl(train const& train, infrastructure const& infra) {
   }
 
   auto curr_node = train.first_station_route(infra)->nodes().front();
-  while (curr_node->reverse_ahead() != nullptr) {
+  // on a ring the way back does not end, it passes every node at most once
+  auto nodes_left = infra->graph_.nodes_.size();
+  while (curr_node->reverse_ahead() != nullptr && nodes_left != 0) {
+    --nodes_left;
+
     if (curr_node->is(type::SPEED_LIMIT)) {
       auto const& spl = infra->graph_.element_data<speed_limit>(curr_node);
       if (train.effected_by(spl)) {
-- 
2.43.0


From c4bf41b3d946a1506ea1f812a43ce12c5f85f99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:56 +0000
Subject: [PATCH 51/75] fix: durations with characters after their last unit

---
 src/timetable/parsers/kss/parse_kss_timetable.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timetable/parsers/kss/parse_kss_timetable.cc b/src/timetable/parsers/kss/parse_kss_timetable.cc
index 4598e8f..8ee3f00 100644
--- a/src/timetable/parsers/kss/parse_kss_timetable.cc
+++ b/src/timetable/parsers/kss/parse_kss_timetable.cc
@@ -183,6 +183,10 @@ duration2 parse_duration(char const* const dur_str) {
       return (std::isalpha(c) != 0) && (std::isupper(c) != 0);
     });
 
+    if (next_cap == str_end) {
+      break;
+    }
+
     switch (*next_cap) {
       case 'H': {
         result += hours{parse_int<hours::rep>(letter_it, next_cap)};
-- 
2.43.0


From 5ddb6e7c5712b6c7e707a657bfda1d3da03fb78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:55 +0000
Subject: [PATCH 52/75] fix: station route attributes the library does not know

---
 src/infrastructure/parsers/iss/parse_station_route.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/parsers/iss/parse_station_route.cc b/src/infrastructure/parsers/iss/parse_station_route.cc
index c2bbe28..df02267 100644
--- a/src/infrastructure/parsers/iss/parse_station_route.cc
+++ b/src/infrastructure/parsers/iss/parse_station_route.cc
@@ -54,7 +54,15 @@ intermediate_station_route parse_station_route(
   }
 
   for (auto const& at : xml_station_route.child(ATTRIBUTES).children()) {
-    i_station_route.attributes_[attribute_index(at.name())] = true;
+    auto const index = attribute_index(at.name());
+    if (index >= i_station_route.attributes_.size()) {
+      uLOG(warn) << "Skipped unknown attribute " << at.name()
+                 << " of station route " << i_station_route.name_
+                 << " in station " << station->ds100_ << ".";
+      continue;
+    }
+
+    i_station_route.attributes_[index] = true;
   }
 
   for (auto const& cd : xml_station_route.child(COURSE).children()) {
-- 
2.43.0


From 1c44a6e37d9e26be97cf9b2b5c2c1e6d42b92a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:30 +0000
Subject: [PATCH 53/75] fix: omitted nodes at elements that stand for both
 directions

---
 src/infrastructure/parsers/iss/parse_iss.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/infrastructure/parsers/iss/parse_iss.cc b/src/infrastructure/parsers/iss/parse_iss.cc
index b42afd1..2730533 100644
--- a/src/infrastructure/parsers/iss/parse_iss.cc
+++ b/src/infrastructure/parsers/iss/parse_iss.cc
@@ -775,7 +775,9 @@ void calculate_station_routes(infrastructure_t& infra,
       utl::verify(omit_element->is_track_element(),
                   "Cannot omit a non track element!");
 
-      omitted_nodes_set.insert(omit_element->as<track_element>().get_node());
+      for (auto const& node : omit_element->nodes()) {
+        omitted_nodes_set.insert(node);
+      }
     }
 
     for (node::idx idx = 0; idx < sr->size(); ++idx) {
-- 
2.43.0


From 5c595287ef37ac35701cffa6f93e8b4093431e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:41 +0000
Subject: [PATCH 54/75] fix: late answers of the server changed the selection
 of another infrastructure or timetable

---
 web/client/src/stores/sidebar-store.ts | 32 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/web/client/src/stores/sidebar-store.ts b/web/client/src/stores/sidebar-store.ts
index c145971..ec4f5f5 100644
--- a/web/client/src/stores/sidebar-store.ts
+++ b/web/client/src/stores/sidebar-store.ts
@@ -180,8 +180,9 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       commit('deleteHighlightedInterlockingRoute', routeId);
     },
 
-    loadInfrastructure({ commit, rootState }, infrastructureName) {
+    loadInfrastructure({ commit, rootState, state }, infrastructureName) {
       commit('setCurrentInfrastructure', infrastructureName);
+      commit('setTimetables', []);
       commit('setCurrentTimetable', undefined);
 
       if (!infrastructureName) {
@@ -191,28 +192,47 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       rootState.soroClient
         .infrastructure(infrastructureName)
         .timetables()
-        .then((response) => commit('setTimetables', response.timetables))
+        .then((response) => {
+          // another infrastructure may have been selected in the meantime
+          if (state.currentInfrastructure === infrastructureName) {
+            commit('setTimetables', response.timetables);
+          }
+        })
         .catch(console.error);
     },
 
     loadTimetable({ commit, rootState, state }, timetableName) {
-      if (!state.currentInfrastructure) {
+      const infrastructureName = state.currentInfrastructure;
+
+      if (!infrastructureName) {
+        return;
+      }
+
+      commit('setCurrentTimetable', timetableName);
+
+      if (!timetableName) {
         return;
       }
 
       rootState.soroClient
-        .infrastructure(state.currentInfrastructure)
+        .infrastructure(infrastructureName)
         .timetable(timetableName)
         .get()
         .then((response) => {
+          // something else may have been selected in the meantime
+          if (
+            state.currentInfrastructure !== infrastructureName ||
+            state.currentTimetable !== timetableName
+          ) {
+            return;
+          }
+
           commit('setCurrentDateRange', [
             response.timetable.interval.start,
             response.timetable.interval.end
           ]);
         })
         .catch(console.error);
-
-      commit('setCurrentTimetable', timetableName);
     },
 
     setCurrentDateRange({ commit }, dateRange: UnixRange) {
-- 
2.43.0


From 2fd845ffe4e21e751fd752dcaaaeff2c7050e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 55/75] fix: routes that were switched off, or of another
 infrastructure, were highlighted when their answer arrived

---
 web/client/src/stores/sidebar-store.ts | 65 ++++++++++++++++++++++++--
 1 file changed, 61 insertions(+), 4 deletions(-)

diff --git a/web/client/src/stores/sidebar-store.ts b/web/client/src/stores/sidebar-store.ts
index ec4f5f5..e4482cb 100644
--- a/web/client/src/stores/sidebar-store.ts
+++ b/web/client/src/stores/sidebar-store.ts
@@ -26,6 +26,9 @@ export type SidebarState = {
   currentStation?: number;
   highlightedStationRoutes: GeoJSONFeature[];
   highlightedInterlockingRoutes: GeoJSONFeature[];
+  // routes to highlight as soon as the server sent them
+  requestedStationRoutes?: number[];
+  requestedInterlockingRoutes?: number[];
   // dev tools state
   trainIdsFilter: number[];
 };
@@ -69,6 +72,8 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       // map state
       highlightedStationRoutes: [],
       highlightedInterlockingRoutes: [],
+      requestedStationRoutes: [],
+      requestedInterlockingRoutes: [],
       // dev tools state:
       trainIdsFilter: []
     };
@@ -111,27 +116,60 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       state.currentStation = currentStation;
     },
 
+    requestStationRoute(state, routeId: number) {
+      state.requestedStationRoutes = [
+        ...(state.requestedStationRoutes ?? []),
+        routeId
+      ];
+    },
+
     addHighlightedStationRoute(state, route: GeoJSONFeature) {
+      state.requestedStationRoutes = state.requestedStationRoutes?.filter(
+        (id) => id !== route.properties.id
+      );
       state.highlightedStationRoutes.push(route);
     },
 
     deleteHighlightedStationRoute(state, routeId: number) {
+      state.requestedStationRoutes = state.requestedStationRoutes?.filter(
+        (id) => id !== routeId
+      );
       state.highlightedStationRoutes = state.highlightedStationRoutes.filter(
         (route) => route.properties.id !== routeId
       );
     },
 
+    requestInterlockingRoute(state, routeId: number) {
+      state.requestedInterlockingRoutes = [
+        ...(state.requestedInterlockingRoutes ?? []),
+        routeId
+      ];
+    },
+
     addHighlightedInterlockingRoute(state, route: GeoJSONFeature) {
+      state.requestedInterlockingRoutes =
+        state.requestedInterlockingRoutes?.filter(
+          (id) => id !== route.properties.id
+        );
       state.highlightedInterlockingRoutes.push(route);
     },
 
     deleteHighlightedInterlockingRoute(state, routeId: number) {
+      state.requestedInterlockingRoutes =
+        state.requestedInterlockingRoutes?.filter((id) => id !== routeId);
       state.highlightedInterlockingRoutes =
         state.highlightedInterlockingRoutes.filter(
           (route) => route.properties.id !== routeId
         );
     },
 
+    clearHighlightedRoutes(state) {
+      state.highlightedStationRoutes = [];
+      state.highlightedInterlockingRoutes = [];
+      state.requestedStationRoutes = [];
+      state.requestedInterlockingRoutes = [];
+    },
+
     setTrainIdsFilter(state, trainIdsFilter) {
       state.trainIdsFilter = trainIdsFilter;
     }
@@ -150,11 +188,20 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
         return;
       }
 
+      const infrastructureName = state.currentInfrastructure;
+      commit('requestStationRoute', routeId);
+
       const route = await rootState.soroClient
-        .infrastructure(state.currentInfrastructure)
+        .infrastructure(infrastructureName)
         .stationRoute(routeId);
 
-      commit('addHighlightedStationRoute', routeToGeoJSON(route));
+      // the route may not be wanted any more
+      if (
+        state.currentInfrastructure === infrastructureName &&
+        state.requestedStationRoutes?.includes(routeId)
+      ) {
+        commit('addHighlightedStationRoute', routeToGeoJSON(route));
+      }
     },
 
     deleteHighlightedStationRoute({ commit }, routeId) {
@@ -169,11 +216,20 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
         return;
       }
 
+      const infrastructureName = state.currentInfrastructure;
+      commit('requestInterlockingRoute', routeId);
+
       const route = await rootState.soroClient
-        .infrastructure(state.currentInfrastructure)
+        .infrastructure(infrastructureName)
         .interlockingRoute(routeId);
 
-      commit('addHighlightedInterlockingRoute', routeToGeoJSON(route));
+      // the route may not be wanted any more
+      if (
+        state.currentInfrastructure === infrastructureName &&
+        state.requestedInterlockingRoutes?.includes(routeId)
+      ) {
+        commit('addHighlightedInterlockingRoute', routeToGeoJSON(route));
+      }
     },
 
     deleteHighlightedInterlockingRoute({ commit }, routeId) {
@@ -182,6 +238,7 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
 
     loadInfrastructure({ commit, rootState, state }, infrastructureName) {
       commit('setCurrentInfrastructure', infrastructureName);
+      commit('clearHighlightedRoutes');
       commit('setTimetables', []);
       commit('setCurrentTimetable', undefined);
 
-- 
2.43.0


From 405a90b6d97bd77f507eb2a0d422bf13299c8eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 56/75] fix: ordering graphs requested one after the other were
 put into one graph

---
 web/client/src/components/ordering/ordering-graph.vue | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/web/client/src/components/ordering/ordering-graph.vue b/web/client/src/components/ordering/ordering-graph.vue
index afafe80..1840728 100644
--- a/web/client/src/components/ordering/ordering-graph.vue
+++ b/web/client/src/components/ordering/ordering-graph.vue
@@ -93,6 +93,7 @@ export default defineComponent({
 
       this.graph.clear();
       this.graph = new DirectedGraph();
+      const graph = this.graph;
 
       const tim: timer = new timer();
       const og = await this.$store.state.soroClient
@@ -102,6 +103,11 @@ export default defineComponent({
 
       tim.printElapsed('fetched ordering graph');
 
+      // another graph may have been requested in the meantime
+      if (this.graph !== graph) {
+        return;
+      }
+
       this.graph.import(og);
 
       tim.printElapsed('imported ordering graph');
@@ -125,6 +131,7 @@ export default defineComponent({
 
       tim.printElapsed('set node attributes');
 
+      this.sigma?.kill();
       this.sigma = new Sigma(
         this.graph,
         this.$refs.graph as HTMLElement,
-- 
2.43.0


From 7de5d2dfc4ca4cd91b414c46e2440ce9f41333b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 57/75] fix: the search showed results of older queries and of
 other infrastructures

---
 .../components/sidebar/search/extended-search.vue | 15 ++++++++++++++-
 web/client/src/stores/sidebar-store.ts            |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/web/client/src/components/sidebar/search/extended-search.vue b/web/client/src/components/sidebar/search/extended-search.vue
index e853f78..dea8cf4 100644
--- a/web/client/src/components/sidebar/search/extended-search.vue
+++ b/web/client/src/components/sidebar/search/extended-search.vue
@@ -111,7 +111,20 @@ export default defineComponent({
 
   watch: {
     async currentQuery(newText: string) {
-      this.setCurrentSearchResults(await this.search(newText));
+      const infrastructure = this.currentInfrastructure;
+      const results = await this.search(newText).catch((error) => {
+        console.error(error);
+
+        return [];
+      });
+
+      // the answer may belong to an older query
+      if (
+        newText === this.currentQuery &&
+        infrastructure === this.currentInfrastructure
+      ) {
+        this.setCurrentSearchResults(results);
+      }
     }
   },
 
diff --git a/web/client/src/stores/sidebar-store.ts b/web/client/src/stores/sidebar-store.ts
index e4482cb..f7c41fe 100644
--- a/web/client/src/stores/sidebar-store.ts
+++ b/web/client/src/stores/sidebar-store.ts
@@ -239,6 +239,7 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
     loadInfrastructure({ commit, rootState, state }, infrastructureName) {
       commit('setCurrentInfrastructure', infrastructureName);
       commit('clearHighlightedRoutes');
+      commit('setCurrentSearchResults', []);
       commit('setTimetables', []);
       commit('setCurrentTimetable', undefined);
 
-- 
2.43.0


From 324a0b391bcb6391f02f54829ca3de1e615718b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 58/75] fix: late answers of the server, and stations of
 another infrastructure, were shown as the current station

---
 .../components/sidebar/station/station.vue    | 21 ++++++++++++++++---
 web/client/src/stores/sidebar-store.ts        |  1 +
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/web/client/src/components/sidebar/station/station.vue b/web/client/src/components/sidebar/station/station.vue
index 4fabbd3..0dc9d9e 100644
--- a/web/client/src/components/sidebar/station/station.vue
+++ b/web/client/src/components/sidebar/station/station.vue
@@ -72,7 +72,7 @@ export default defineComponent({
   },
 
   watch: {
-    async currentStation(newStationId: number) {
+    async currentStation(newStationId?: number) {
       await this.fetchStation(newStationId);
     }
   },
@@ -91,11 +91,26 @@ export default defineComponent({
       'deleteHighlightedInterlockingRoute'
     ]),
 
-    async fetchStation(stationId: number) {
+    async fetchStation(stationId?: number) {
+      if (stationId === undefined) {
+        this.id = -1;
+
+        return;
+      }
+
+      const infrastructure = this.currentInfrastructure;
       const station = await this.$store.state.soroClient
-        .infrastructure(this.currentInfrastructure)
+        .infrastructure(infrastructure)
         .station(stationId);
 
+      // another station may have been selected in the meantime
+      if (
+        stationId !== this.currentStation ||
+        infrastructure !== this.currentInfrastructure
+      ) {
+        return;
+      }
+
       this.id = station.id;
       this.ds100 = station.ds100;
       this.stationRoutes = station.stationRoutes;
diff --git a/web/client/src/stores/sidebar-store.ts b/web/client/src/stores/sidebar-store.ts
index f7c41fe..b485119 100644
--- a/web/client/src/stores/sidebar-store.ts
+++ b/web/client/src/stores/sidebar-store.ts
@@ -240,6 +240,7 @@ export const SidebarStore: Module<SidebarState, GlobalState> = {
       commit('setCurrentInfrastructure', infrastructureName);
       commit('clearHighlightedRoutes');
       commit('setCurrentSearchResults', []);
+      commit('setCurrentStation', undefined);
       commit('setTimetables', []);
       commit('setCurrentTimetable', undefined);
 
-- 
2.43.0


From ce0d51fe0a3aa6cbc1581d05d69ec00a5c31ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 59/75] fix: the sidebar did not bring up the station with id 0

---
 web/client/src/components/sidebar/sidebar.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/client/src/components/sidebar/sidebar.vue b/web/client/src/components/sidebar/sidebar.vue
index f86f688..eeb14c2 100644
--- a/web/client/src/components/sidebar/sidebar.vue
+++ b/web/client/src/components/sidebar/sidebar.vue
@@ -76,7 +76,7 @@ export default defineComponent({
 
   watch: {
     currentStation(newStationId?: number) {
-      if (!newStationId) {
+      if (newStationId === undefined) {
         return;
       }
 
-- 
2.43.0


From 1f7e0019412daee1662eb217c885dc695c02a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 60/75] fix: the map went to the infrastructure selected
 before, or failed, when the infrastructure was changed while it loaded

---
 .../components/infrastructure/infrastructure-map.vue | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/web/client/src/components/infrastructure/infrastructure-map.vue b/web/client/src/components/infrastructure/infrastructure-map.vue
index 81e9307..76ca759 100644
--- a/web/client/src/components/infrastructure/infrastructure-map.vue
+++ b/web/client/src/components/infrastructure/infrastructure-map.vue
@@ -327,18 +327,30 @@ export default defineComponent({
         })
       });
 
+      const map = this.libreGLMap;
       this.libreGLMap.on('load', async () => {
         if (!this.libreGLMap) {
           return;
         }
 
         await addIcons(this.libreGLMap as Map);
+
+        // the map may have been replaced in the meantime
+        if (this.libreGLMap !== map) {
+          return;
+        }
+
         this.setVisibilityOfAllControls();
 
         // zoom to infrastructure
         const box = await this.$store.state.soroClient
           .infrastructure(infraName)
           .boundingBox();
+
+        if (this.libreGLMap !== map) {
+          return;
+        }
+
         this.libreGLMap.fitBounds(box.boundingBox);
       });
 
-- 
2.43.0


From ac5c6a6512fedc551ee834092d35e5410f3ce624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:06 +0000
Subject: [PATCH 61/75] fix: changes of the legend after a reset changed the
 controls that are initially checked

---
 web/client/src/components/infrastructure/infrastructure-map.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/client/src/components/infrastructure/infrastructure-map.vue b/web/client/src/components/infrastructure/infrastructure-map.vue
index 76ca759..11aa5a3 100644
--- a/web/client/src/components/infrastructure/infrastructure-map.vue
+++ b/web/client/src/components/infrastructure/infrastructure-map.vue
@@ -223,7 +223,7 @@ export default defineComponent({
     },
 
     resetLegend() {
-      this.checkedControls = initiallyCheckedControls;
+      this.checkedControls = Array.from(initiallyCheckedControls);
       this.saveControls();
       this.setVisibilityOfAllControls();
     },
-- 
2.43.0


From 56b1fd5b6715b7af78c3eb5fb10706432ddce434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:06 +0000
Subject: [PATCH 62/75] fix: special characters of a search text became part of
 the address

---
 web/client/src/util/SoroClient.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/web/client/src/util/SoroClient.ts b/web/client/src/util/SoroClient.ts
index d3602b4..8b081dc 100644
--- a/web/client/src/util/SoroClient.ts
+++ b/web/client/src/util/SoroClient.ts
@@ -202,7 +202,10 @@ class SoroClient extends HttpClient {
 
   search(infrastructureName: string, query: string): Promise<SearchResult[]> {
     return this.get(
-      '/infrastructure/' + infrastructureName + '/search/' + query
+      '/infrastructure/' +
+        infrastructureName +
+        '/search/' +
+        encodeURIComponent(query)
     );
   }
 
-- 
2.43.0


From 968b808b2be4d1739ebe911e861190eee9d3ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:06 +0000
Subject: [PATCH 63/75] fix: headers of the HTTP client could not be set, basic
 authentication was not encoded as a whole

---
 web/client/src/util/HttpClient.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/web/client/src/util/HttpClient.ts b/web/client/src/util/HttpClient.ts
index 736e306..e5c222c 100644
--- a/web/client/src/util/HttpClient.ts
+++ b/web/client/src/util/HttpClient.ts
@@ -6,7 +6,7 @@ class HttpClient {
 
   constructor(baseUrl: string, options: RequestInit = {}) {
     this._baseURL = baseUrl || '';
-    this._headers = <Headers>options.headers || {};
+    this._headers = new Headers(options.headers);
   }
 
   async _fetchJSON<Type>(
@@ -54,7 +54,7 @@ class HttpClient {
   setBasicAuth(username: string, password: string) {
     this._headers.set(
       'Authorization',
-      'Basic ' + btoa(username) + ':' + btoa(password)
+      'Basic ' + btoa(username + ':' + password)
     );
     return this;
   }
-- 
2.43.0


From 44c092db2c780ba8434e0264cd779291a0e5a37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:06 +0000
Subject: [PATCH 64/75] fix: a list of train ids that starts with a comma was
 accepted

---
 web/client/src/components/base/soro-id-input.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/client/src/components/base/soro-id-input.vue b/web/client/src/components/base/soro-id-input.vue
index 63b65cf..5a0241c 100644
--- a/web/client/src/components/base/soro-id-input.vue
+++ b/web/client/src/components/base/soro-id-input.vue
@@ -35,7 +35,7 @@ export default defineComponent({
   methods: {
     validationRules() {
       return [
-        (v: string) => /^\d*(,\d+)*$/.test(v) || 'only comma separated numbers'
+        (v: string) => /^(\d+(,\d+)*)?$/.test(v) || 'only comma separated numbers'
       ];
     },
 
-- 
2.43.0


From b3105ea04067033340184493056a5bb45350bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:06 +0000
Subject: [PATCH 65/75] fix: time ranges without an end

---
 web/client/src/components/base/soro-datetimerange.vue | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/client/src/components/base/soro-datetimerange.vue b/web/client/src/components/base/soro-datetimerange.vue
index 3e4c61c..5a98889 100644
--- a/web/client/src/components/base/soro-datetimerange.vue
+++ b/web/client/src/components/base/soro-datetimerange.vue
@@ -54,7 +54,7 @@ export default defineComponent({
 
   methods: {
     emitChange() {
-      if (!this.dateTimeRange || this.dateTimeRange.length !== 2) {
+      if (!this.dateTimeRange?.[0] || !this.dateTimeRange[1]) {
         return;
       }
 
-- 
2.43.0


From 3379a7bae2ac0399baef068da3dabaaa2a75cd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:58 +0000
Subject: [PATCH 66/75] fix: new maps and maps whose theme changed lost the
 highlighted routes and the choice of directions

---
 .../infrastructure/infrastructure-map.vue     | 51 +++++++++++++------
 .../components/infrastructure/map-style.ts    | 22 ++++++--
 2 files changed, 53 insertions(+), 20 deletions(-)

diff --git a/web/client/src/components/infrastructure/infrastructure-map.vue b/web/client/src/components/infrastructure/infrastructure-map.vue
index 11aa5a3..4acf990 100644
--- a/web/client/src/components/infrastructure/infrastructure-map.vue
+++ b/web/client/src/components/infrastructure/infrastructure-map.vue
@@ -36,7 +36,7 @@ import { createInfrastructureMapStyle, mapLayers } from './map-style';
 import { addIcons } from './add-icons';
 import { ElementTypes, ElementType } from './element-types';
 import { defineComponent } from 'vue';
-import { ThemeInstance, useTheme } from 'vuetify';
+import { ThemeDefinition, ThemeInstance, useTheme } from 'vuetify';
 import {
   SpecialLegendControls,
   SpecialLegendControl
@@ -166,12 +166,7 @@ export default defineComponent({
           return;
         }
 
-        this.libreGLMap.setStyle(
-          createInfrastructureMapStyle({
-            currentTheme: newTheme.current.value,
-            activatedElements: this.checkedControls
-          })
-        );
+        this.libreGLMap.setStyle(this.createStyle(newTheme.current.value));
       },
       deep: true
     }
@@ -258,7 +253,28 @@ export default defineComponent({
       );
     },
 
-    evaluateSpecialLegendControls() {
+    createStyle(currentTheme: ThemeDefinition) {
+      return createInfrastructureMapStyle({
+        currentTheme,
+        activatedElements: this.checkedControls,
+        elementFilter: this.getDirectionFilter(),
+        stationRoutes: this.highlightedStationRoutes,
+        interlockingRoutes: this.highlightedInterlockingRoutes
+      });
+    },
+
+    showHighlightedRoutes() {
+      mapSourceHelper(
+        this.libreGLMap?.getSource('station-routes'),
+        this.highlightedStationRoutes
+      );
+      mapSourceHelper(
+        this.libreGLMap?.getSource('interlocking-routes'),
+        this.highlightedInterlockingRoutes
+      );
+    },
+
+    getDirectionFilter(): FilterSpecification | undefined {
       const risingChecked = this.checkedControls.includes(
         SpecialLegendControl.RISING
       );
@@ -266,15 +282,20 @@ export default defineComponent({
         SpecialLegendControl.FALLING
       );
 
-      let filter: FilterSpecification;
       if (!risingChecked && fallingChecked) {
-        filter = ['!', ['get', 'rising']];
+        return ['!', ['get', 'rising']];
       } else if (risingChecked && !fallingChecked) {
-        filter = ['get', 'rising'];
+        return ['get', 'rising'];
       } else if (!risingChecked && !fallingChecked) {
-        filter = ['boolean', false];
+        return ['boolean', false];
       }
 
+      return undefined;
+    },
+
+    evaluateSpecialLegendControls() {
+      const filter = this.getDirectionFilter();
+
       ElementTypes.forEach((elementType) => {
         if (elementType === ElementType.STATION) {
           return;
@@ -321,10 +342,7 @@ export default defineComponent({
         bearing: 0,
         container: this.$refs.map as HTMLElement,
         transformRequest: transformUrl,
-        style: createInfrastructureMapStyle({
-          currentTheme: this.$vuetify.theme.current,
-          activatedElements: this.checkedControls
-        })
+        style: this.createStyle(this.$vuetify.theme.current)
       });
 
       const map = this.libreGLMap;
@@ -341,6 +359,7 @@ export default defineComponent({
         }
 
         this.setVisibilityOfAllControls();
+        this.showHighlightedRoutes();
 
         // zoom to infrastructure
         const box = await this.$store.state.soroClient
diff --git a/web/client/src/components/infrastructure/map-style.ts b/web/client/src/components/infrastructure/map-style.ts
index 645e4a9..900278d 100644
--- a/web/client/src/components/infrastructure/map-style.ts
+++ b/web/client/src/components/infrastructure/map-style.ts
@@ -1,15 +1,25 @@
 import { ElementType, ElementTypes } from './element-types';
-import { StyleSpecification } from 'maplibre-gl';
+import {
+  FilterSpecification,
+  GeoJSONFeature,
+  StyleSpecification
+} from 'maplibre-gl';
 import { ThemeDefinition } from 'vuetify';
 
 export const mapLayers = ElementTypes.map((type) => type + '-layer');
 
 export const createInfrastructureMapStyle = ({
   currentTheme,
-  activatedElements
+  activatedElements,
+  elementFilter,
+  stationRoutes = [],
+  interlockingRoutes = []
 }: {
   currentTheme: ThemeDefinition;
   activatedElements: typeof ElementTypes;
+  elementFilter?: FilterSpecification;
+  stationRoutes?: GeoJSONFeature[];
+  interlockingRoutes?: GeoJSONFeature[];
 }) => {
   const style: StyleSpecification = {
     version: 8,
@@ -23,14 +33,14 @@ export const createInfrastructureMapStyle = ({
         type: 'geojson',
         data: {
           type: 'FeatureCollection',
-          features: []
+          features: stationRoutes
         }
       },
       'interlocking-routes': {
         type: 'geojson',
         data: {
           type: 'FeatureCollection',
-          features: []
+          features: interlockingRoutes
         }
       }
     },
@@ -138,6 +148,8 @@ export const createInfrastructureMapStyle = ({
     ]
   };
 
+  const filter = elementFilter ? { filter: elementFilter } : {};
+
   ElementTypes.forEach((type) => {
     if (type === ElementType.STATION) {
       style.layers.push({
@@ -171,6 +183,7 @@ export const createInfrastructureMapStyle = ({
         type: 'circle',
         minzoom: 13,
         maxzoom: 24,
+        ...filter,
         paint: {
           'circle-radius': 3,
           'circle-color': '#000000',
@@ -190,6 +203,7 @@ export const createInfrastructureMapStyle = ({
         type: 'symbol',
         minzoom: type === ElementType.HALT ? 10 : 15,
         maxzoom: 24,
+        ...filter,
         paint: {
           'icon-color': '#ffffff',
           'text-color': currentTheme.colors?.['on-surface']
-- 
2.43.0


From 5383b729eac0298c0939ef82268c06f8ee24418b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:13:04 +0000
Subject: [PATCH 67/75] fix: export the exclusion graph, which is made from the
 exclusion elements

---
 tools/export_exclusion_graph/src/export_exclusion_graph.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/export_exclusion_graph/src/export_exclusion_graph.cc b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
index e321213..d542f07 100644
--- a/tools/export_exclusion_graph/src/export_exclusion_graph.cc
+++ b/tools/export_exclusion_graph/src/export_exclusion_graph.cc
@@ -69,6 +69,7 @@ int main(int argc, char const** argv) {
   opts.layout_ = false;
   opts.interlocking_ = true;
   opts.exclusions_ = true;
+  opts.exclusion_elements_ = true;
   opts.exclusion_graph_ = true;
 
   infrastructure const infra(opts);
-- 
2.43.0


From 03baec8a7893931ac0b5387a203332aa10b5a4a6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 68/75] fix: the server refuses to start without its source
 directories

---
 web/server/src/main.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/web/server/src/main.cc b/web/server/src/main.cc
index 5d68fcc..f957938 100644
--- a/web/server/src/main.cc
+++ b/web/server/src/main.cc
@@ -44,15 +44,15 @@ int main(int argc, char const** argv) {
     return 1;
   }
 
-  if (!fs::exists(s.infrastructure_sources_.val()) &&
-      fs::is_directory(s.infrastructure_sources_.val())) {
+  if (!fs::exists(s.infrastructure_sources_.val()) ||
+      !fs::is_directory(s.infrastructure_sources_.val())) {
     uLOG(utl::err) << "please specify a valid infrastructure source directory, "
                    << s.infrastructure_sources_.val() << " does not exist";
     return 1;
   }
 
-  if (!fs::exists(s.timetable_sources_.val()) &&
-      fs::is_directory(s.timetable_sources_.val())) {
+  if (!fs::exists(s.timetable_sources_.val()) ||
+      !fs::is_directory(s.timetable_sources_.val())) {
     uLOG(utl::err) << "please specify a valid timetable source directory, "
                    << s.timetable_sources_.val() << " does not exist";
     return 1;
-- 
2.43.0


From 0598c0cfad3ec35b9167ffc8a62dacce750b3ab4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:27:53 +0000
Subject: [PATCH 69/75] fix: the stations of an infrastructure are found the
 way the client asks for them

---
 web/server/src/soro_server.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/web/server/src/soro_server.cc b/web/server/src/soro_server.cc
index 1fcc49e..507629e 100644
--- a/web/server/src/soro_server.cc
+++ b/web/server/src/soro_server.cc
@@ -45,7 +45,7 @@ void soro_server::set_up_routes(server_settings const& s) {
                 });
 
   // 0.0.0.0:8080/infrastructure/{infrastructure_name}/stations/
-  router_.route("GET", R"(/infrastructure\/([a-zA-Z0-9_-]+)\/stations/$)",
+  router_.route("GET", R"(/infrastructure\/([a-zA-Z0-9_-]+)\/stations\/?$)",
                 [this](net::query_router::route_request const& req,
                        web_server::http_res_cb_t const& cb, bool const) {
                   cb(infrastructure_module_.serve_station_names(req));
-- 
2.43.0


From 11c2e67cf0b57412277fec83c5212b9ab1f078c0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:39:20 +0000
Subject: [PATCH 70/75] fix: exceptions in generators ended the sequence
 silently

---
 include/soro/utls/coroutine/generator.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/coroutine/generator.h b/include/soro/utls/coroutine/generator.h
index 9b41d6e..6fc22e7 100644
--- a/include/soro/utls/coroutine/generator.h
+++ b/include/soro/utls/coroutine/generator.h
@@ -57,7 +57,13 @@ public:
   }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() const {
+    if (exception_) {
+      std::rethrow_exception(exception_);
+    }
+  }
 
   reference_type value() const noexcept {
     return static_cast<reference_type>(*value_);
@@ -69,6 +75,7 @@ public:
 
 private:
   pointer_type value_{nullptr};
+  std::exception_ptr exception_{nullptr};
 };
 
 template <typename T, bool IsConst>
@@ -113,6 +120,7 @@ struct generator_iterator {
 
   generator_iterator& operator++() {
     coroutine_.resume();
+    coroutine_.promise().rethrow_if_exception();
     return *this;
   }
 
@@ -147,8 +155,15 @@ struct [[nodiscard]] generator {
     }
   }
 
-  iterator begin() noexcept { return iterator{coroutine_}; }
-  const_iterator begin() const noexcept { return const_iterator{coroutine_}; }
+  iterator begin() {
+    coroutine_.promise().rethrow_if_exception();
+    return iterator{coroutine_};
+  }
+
+  const_iterator begin() const {
+    coroutine_.promise().rethrow_if_exception();
+    return const_iterator{coroutine_};
+  }
 
   iterator end() noexcept { return {}; }
   const_iterator end() const noexcept { return {}; }
-- 
2.43.0


From c5d56ffd8b293a36c7abbe7f512f328a9b933e7c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:39:20 +0000
Subject: [PATCH 71/75] fix: exceptions in coroutine iterators ended the
 sequence silently

---
 include/soro/utls/coroutine/iterator.h | 38 +++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/include/soro/utls/coroutine/iterator.h b/include/soro/utls/coroutine/iterator.h
index 6b6592f..ce0e8b7 100644
--- a/include/soro/utls/coroutine/iterator.h
+++ b/include/soro/utls/coroutine/iterator.h
@@ -1,5 +1,9 @@
 #pragma once
 
+#include <exception>
+#include <memory>
+#include <utility>
+
 #include "soro/utls/coroutine/coro_namespace.h"
 
 namespace soro::utls {
@@ -22,7 +26,13 @@ struct value_promise {
   coro::suspend_always final_suspend() noexcept { return {}; }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() const {
+    if (exception_) {
+      std::rethrow_exception(exception_);
+    }
+  }
 
   coro::suspend_always yield_value(reference_t v) noexcept {
     v_ = v;
@@ -39,6 +49,7 @@ struct value_promise {
 
 private:
   value_t v_{};
+  std::exception_ptr exception_{nullptr};
 };
 
 template <typename T>
@@ -57,7 +68,13 @@ struct reference_promise {
   coro::suspend_always final_suspend() noexcept { return {}; }
 
   void return_void() {}
-  void unhandled_exception() {}
+  void unhandled_exception() noexcept { exception_ = std::current_exception(); }
+
+  void rethrow_if_exception() const {
+    if (exception_) {
+      std::rethrow_exception(exception_);
+    }
+  }
 
   coro::suspend_always yield_value(reference_t v) noexcept {
     v_ = std::addressof(v);
@@ -77,6 +94,7 @@ struct reference_promise {
 
 private:
   pointer_t v_{nullptr};
+  std::exception_ptr exception_{nullptr};
 };
 
 }  // namespace detail
@@ -104,17 +122,17 @@ struct coro_it {
     }
   }
 
-  coro_it& operator++() noexcept {
+  coro_it& operator++() {
     co_handle_.resume();
+    co_handle_.promise().rethrow_if_exception();
     return *this;
   }
 
-  friend bool operator==(coro_it const& it1, coro_it const& it2) noexcept {
-    return (!it1.co_handle_ && it2.co_handle_.done()) ||
-           (!it2.co_handle_ && it1.co_handle_.done());
+  friend bool operator==(coro_it const& it1, coro_it const& it2) {
+    return (!it1.co_handle_ && it2.done()) || (!it2.co_handle_ && it1.done());
   }
 
-  friend bool operator!=(coro_it const& it1, coro_it const& it2) noexcept {
+  friend bool operator!=(coro_it const& it1, coro_it const& it2) {
     return !(it1 == it2);
   }
 
@@ -123,6 +141,12 @@ struct coro_it {
   pointer_t operator->() const noexcept { return std::addressof(operator*()); }
 
 private:
+  bool done() const {
+    // an exception before the first value could not be thrown any earlier
+    co_handle_.promise().rethrow_if_exception();
+    return co_handle_.done();
+  }
+
   co_handle_t co_handle_{nullptr};
 };
 
-- 
2.43.0


From 265ecb53d35e8b2af0b0f11c6f9f0efd6a12305b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:39:20 +0000
Subject: [PATCH 72/75] fix: copies of coroutine iterators destroyed their
 coroutine twice

---
 include/soro/utls/coroutine/iterator.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/soro/utls/coroutine/iterator.h b/include/soro/utls/coroutine/iterator.h
index ce0e8b7..88fb9a8 100644
--- a/include/soro/utls/coroutine/iterator.h
+++ b/include/soro/utls/coroutine/iterator.h
@@ -116,6 +116,18 @@ struct coro_it {
   coro_it(co_handle_t co_handle) noexcept  // NO LINT
       : co_handle_{std::move(co_handle)} {}
 
+  // owns the coroutine, the state must not be destroyed twice
+  coro_it(coro_it const&) = delete;
+  coro_it& operator=(coro_it const&) = delete;
+
+  coro_it(coro_it&& other) noexcept
+      : co_handle_{std::exchange(other.co_handle_, nullptr)} {}
+
+  coro_it& operator=(coro_it&& other) noexcept {
+    std::swap(co_handle_, other.co_handle_);
+    return *this;
+  }
+
   ~coro_it() {
     if (co_handle_) {
       co_handle_.destroy();
-- 
2.43.0


From 7dba3b25d5cf652931cb53933140ac0478344947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:41 +0000
Subject: [PATCH 73/75] fix: the last of the statistics was neither set up nor
 printed

---
 include/soro/utls/statistics.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/soro/utls/statistics.h b/include/soro/utls/statistics.h
index 3622a7d..c0b9ad7 100644
--- a/include/soro/utls/statistics.h
+++ b/include/soro/utls/statistics.h
@@ -16,7 +16,7 @@ struct statistics {
 
   explicit statistics(std::map<enum_t, std::string> const& stat_text)
       : stat_texts_{stat_text} {
-    for (auto i = 0; i < static_cast<int>(enum_t::count) - 1; ++i) {
+    for (auto i = 0; i < static_cast<int>(enum_t::count); ++i) {
       stats_.emplace(static_cast<enum_t>(i), 0);
     }
   }
@@ -25,8 +25,7 @@ struct statistics {
   void dec(enum_t const stat) { --stats_[stat]; }
 
   void print() const {
-    for (std::size_t i = 0; i < static_cast<std::size_t>(enum_t::count) - 1;
-         ++i) {
+    for (std::size_t i = 0; i < static_cast<std::size_t>(enum_t::count); ++i) {
       auto const k = static_cast<enum_t>(i);
       uLOG(utl::info) << stat_texts_.at(k) << " " << stats_.at(k);
     }
-- 
2.43.0


From acef2ee8fe27203e922c92b6b9d9deafc4ab985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:42 +0000
Subject: [PATCH 74/75] fix: a train that halts in the last station route
 before it breaks out ended at the halt

---
 .../parsers/station_route_to_interlocking_route.cc         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index 4a82914..6a10a81 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -83,10 +83,11 @@ struct cover {
 
     node::idx last_stop_sequence_node = node::INVALID_IDX;
 
-    if (ss.points_.back().is_halt()) {
-      last_stop_sequence_node = last_sr->get_halt_idx(freight).value();
-    } else if (ss.break_out_) {
+    // a train that breaks out leaves at the end, even when it halts before
+    if (ss.break_out_) {
       last_stop_sequence_node = last_sr->size() - 1;
+    } else if (ss.points_.back().is_halt()) {
+      last_stop_sequence_node = last_sr->get_halt_idx(freight).value();
     }
 
     return node_idx_ > last_stop_sequence_node;
-- 
2.43.0


From 532d8f076d309af25b6e35c1c9fb6e62f6dc9b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:43 +0000
Subject: [PATCH 75/75] fix: interlocking routes that come from another station
 route than the described one were taken

---
 .../parsers/station_route_to_interlocking_route.cc   | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/timetable/parsers/station_route_to_interlocking_route.cc b/src/timetable/parsers/station_route_to_interlocking_route.cc
index 6a10a81..7400147 100644
--- a/src/timetable/parsers/station_route_to_interlocking_route.cc
+++ b/src/timetable/parsers/station_route_to_interlocking_route.cc
@@ -28,6 +28,16 @@ auto get_prefix_length(interlocking_route const& interlocking_route,
   auto sr2 = std::begin(stop_sequence.points_) +
              static_cast<std::ptrdiff_t>(sr_offset);
 
+  // before this station route the two must not differ either
+  auto before1 = sr1;
+  auto before2 = sr2;
+  while (before1 != std::begin(interlocking_route.station_routes_) &&
+         before2 != std::begin(stop_sequence.points_)) {
+    if (*--before1 != (*--before2).station_route_) {
+      return std::size_t{0};
+    }
+  }
+
   std::size_t prefix_length = 0;
 
   for (;
@@ -58,7 +68,7 @@ auto get_longest_prefix_interlocking_routes(
       current_longset_prefix = prefix_length;
     }
 
-    if (prefix_length >= current_longset_prefix) {
+    if (prefix_length != 0 && prefix_length >= current_longset_prefix) {
       longest_prefixes.emplace_back(candidate);
     }
   }
-- 
2.43.0


From 0652f5a9f3d5652e4347d993178dd5b0274d966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:08 +0000
Subject: [PATCH 01/72] fix: keep the comparator's state in the results of the
 map helpers

map_difference, map_symmetric_difference, map_union, map_intersect,
map_subset and map_subset_sorted default constructed their result, so with
a stateful comparator (documented as supported) the result was ordered, and
deduplicated, by a comparator of another state.
---
 include/albatross/src/utils/map_utils.hpp | 27 +++++++++++++++++------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/include/albatross/src/utils/map_utils.hpp b/include/albatross/src/utils/map_utils.hpp
index 7c52f93..7891343 100644
--- a/include/albatross/src/utils/map_utils.hpp
+++ b/include/albatross/src/utils/map_utils.hpp
@@ -160,6 +160,18 @@ void map_subset_sequence(const Map &a, const Set &b, Merge &&merge) {
   }
 }
 
+// Constructs an empty map which orders its keys the way `m` does.  Where the
+// comparator is stateful, a default constructed one could order them
+// differently (and even consider different keys equivalent).
+template <typename Result, typename Map>
+Result empty_map_ordered_like(const Map &m) {
+  if constexpr (std::is_constructible_v<Result, decltype(m.key_comp())>) {
+    return Result(m.key_comp());
+  } else {
+    return Result{};
+  }
+}
+
 struct DoNothing {
   template <typename... Args>
   constexpr void operator()(const Args &...) const noexcept {}
@@ -283,7 +295,7 @@ void map_union(const Map1 &a, const Map2 &b, AddA &&add_a, AddB &&add_b,
 template <typename Map1, typename Map2,
           typename = std::enable_if_t<has_same_key_compare_v<Map1, Map2>, void>>
 [[nodiscard]] Map1 map_difference(const Map1 &a, const Map2 &b) {
-  Map1 diff;
+  auto diff = detail::empty_map_ordered_like<Map1>(a);
   const auto only_a = [&diff](const auto &k, const auto &v) {
     diff.emplace_hint(diff.end(), k, v);
   };
@@ -322,7 +334,7 @@ template <typename Map1, typename Map2,
                                  typename Map2::mapped_type>,
               void>>
 [[nodiscard]] Map1 map_symmetric_difference(const Map1 &a, const Map2 &b) {
-  Map1 diff;
+  auto diff = detail::empty_map_ordered_like<Map1>(a);
   const auto either = [&diff](const auto &k, const auto &v) {
     diff.emplace_hint(diff.end(), k, v);
   };
@@ -418,7 +430,7 @@ template <typename Map1, typename Map2, typename Merge = ReturnLeft,
               void>>
 [[nodiscard]] Map1 map_union(const Map1 &a, const Map2 &b,
                              Merge &&merge = ReturnLeft{}) {
-  Map1 result;
+  auto result = detail::empty_map_ordered_like<Map1>(a);
   const auto add_a = [&result](const auto &k, const auto &av) {
     result.emplace_hint(result.end(), k, av);
   };
@@ -494,8 +506,9 @@ template <template <typename...> typename Map, typename K, typename V,
                                  Compare>
 map_intersect(const Map<K, V, Compare> &a, const Map2 &b,
               Merge &&merge = MakePair{}) {
-  IntersectedMapType<Map, K, V, typename Map2::mapped_type, Merge, Compare>
-      intersection;
+  auto intersection = detail::empty_map_ordered_like<
+      IntersectedMapType<Map, K, V, typename Map2::mapped_type, Merge, Compare>>(
+      a);
   const auto on_both = [&intersection, merge = std::forward<Merge>(merge)](
                            const auto &k, const auto &av, const auto &bv) {
     intersection.emplace_hint(intersection.end(), k,
@@ -598,7 +611,7 @@ template <
     typename Map, typename Sequence,
     typename = std::enable_if_t<has_same_key_compare_v<Map, Sequence>, void>>
 [[nodiscard]] Map map_subset(const Map &m, const Sequence &keys) {
-  Map results;
+  auto results = detail::empty_map_ordered_like<Map>(m);
   const auto on_match = [&results](const auto &k, const auto &v) {
     results.emplace_hint(results.end(), k, v);
   };
@@ -635,7 +648,7 @@ template <typename Map, typename Sequence>
   ALBATROSS_ASSERT(std::is_sorted(keys.begin(), keys.end(), m.key_comp()) &&
                    "You promised when you called this function that the `keys` "
                    "would be sorted!");
-  Map results;
+  auto results = detail::empty_map_ordered_like<Map>(m);
   const auto on_match = [&results](const auto &k, const auto &v) {
     results.emplace_hint(results.end(), k, v);
   };
-- 
2.43.0


From 8fce1d0077507d8924dd8798bb9c35fbe1870999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 02/72] fix: never put a self loop into a spanning tree

The vertex the tree grows from was not marked as part of it, so an edge
from that vertex to itself, if the heaviest, was added as if it led to a
new vertex and the result had a cycle and missed a vertex.
---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index d074abd..175433c 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -132,6 +132,9 @@ Graph<VertexType> maximum_spanning_tree(const Graph<VertexType> &graph) {
   const Edge<VertexType> first_edge =
       *std::max_element(graph.edges.begin(), graph.edges.end());
 
+  // The starting vertex is part of the tree from the beginning, otherwise an
+  // edge from it to itself could be mistaken for one leading to a new vertex.
+  output.vertices.insert(first_edge.a);
   for (const auto &edge : adjacency.at(first_edge.a)) {
     if (!contains_vertex(output, edge.b)) {
       queue.push(edge);
-- 
2.43.0


From f9728a36017db3806b638e445e063769aa418b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 03/72] fix: print a graph to the stream that was given

---
 include/albatross/src/graph/minimum_spanning_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/graph/minimum_spanning_tree.hpp b/include/albatross/src/graph/minimum_spanning_tree.hpp
index 175433c..dffc89a 100644
--- a/include/albatross/src/graph/minimum_spanning_tree.hpp
+++ b/include/albatross/src/graph/minimum_spanning_tree.hpp
@@ -280,7 +280,7 @@ template <typename VertexType>
 inline std::ostream &operator<<(std::ostream &os,
                                 const Graph<VertexType> &graph) {
   for (const auto &edge : graph.edges) {
-    std::cout << edge << std::endl;
+    os << edge << std::endl;
   }
   return os;
 }
-- 
2.43.0


From 495af3bf6254c7b7dfbb0d1c73f839f1e742ceae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:15 +0000
Subject: [PATCH 04/72] fix: refuse compressed streams which announce an
 impossible size

maybe_decompress into a string trusted the size in the header of a damaged
stream: it tried to allocate that much and threw, instead of returning
false.
---
 include/albatross/src/utils/compress.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/compress.hpp b/include/albatross/src/utils/compress.hpp
index cb6cf4b..4e0e4da 100644
--- a/include/albatross/src/utils/compress.hpp
+++ b/include/albatross/src/utils/compress.hpp
@@ -97,6 +97,20 @@ inline auto check_decompressed_size(unsigned long long decompressed_size) {
   return DecompressResult::kOK;
 }
 
+// Check the size announced by the header of `input` before allocating that
+// much memory: a block decompresses to no more than `ZSTD_BLOCKSIZE_MAX`
+// bytes, and takes at least one byte of `input`.
+inline auto check_decompressed_size(unsigned long long decompressed_size,
+                                    const std::string &input) {
+  const auto result = check_decompressed_size(decompressed_size);
+  if (!failed(result) &&
+      decompressed_size / ZSTD_BLOCKSIZE_MAX > input.size()) {
+    return DecompressResult::kZstdContentSizeError;
+  }
+
+  return result;
+}
+
 inline DecompressResult __attribute__((warn_unused_result))
 maybe_decompress(const std::string &input, void *output,
                  std::size_t output_size) {
@@ -182,7 +196,8 @@ inline bool __attribute__((warn_unused_result))
 maybe_decompress(const std::string &input, std::string *output) {
   const auto decompressed_size = internal::get_decompressed_string_size(input);
 
-  if (internal::failed(internal::check_decompressed_size(decompressed_size))) {
+  if (internal::failed(
+          internal::check_decompressed_size(decompressed_size, input))) {
     return false;
   }
 
@@ -203,7 +218,7 @@ maybe_decompress(const std::string &input, std::string *output) {
 inline std::string decompress(const std::string &input) {
   std::string output;
   const auto decompressed_size = internal::get_decompressed_string_size(input);
-  assert_on_error(internal::check_decompressed_size(decompressed_size));
+  assert_on_error(internal::check_decompressed_size(decompressed_size, input));
 
   output.resize(decompressed_size);
   internal::decompress(
-- 
2.43.0


From 8e9e95219e1de40b2dd1a65bd405b8cf545ce416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:59 +0000
Subject: [PATCH 05/72] fix: refuse negative values in safe_cast_to_size_t

Converting a negative double to an unsigned type is undefined; the check
only covered values which are too large.
---
 include/albatross/src/utils/vector_utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/utils/vector_utils.hpp b/include/albatross/src/utils/vector_utils.hpp
index 25fe739..fa18774 100644
--- a/include/albatross/src/utils/vector_utils.hpp
+++ b/include/albatross/src/utils/vector_utils.hpp
@@ -16,6 +16,7 @@
 namespace albatross {
 
 inline std::size_t safe_cast_to_size_t(double x) {
+  ALBATROSS_ASSERT(x >= 0.);
   ALBATROSS_ASSERT(
       x < static_cast<double>(std::numeric_limits<std::size_t>::max()));
   return static_cast<std::size_t>(x);
-- 
2.43.0


From 96240f12275efcdb7568475e5e7b8fd2d2324f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 06/72] fix: make the free set_subset of distributions usable

It passed the base class on to a method which takes the derived class, so
no call of it could compile.
---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 7fc7d26..7fa7e4d 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -243,7 +243,7 @@ template <typename SizeType, typename DistributionType>
 inline void set_subset(const DistributionBase<DistributionType> &from,
                        const std::vector<SizeType> &indices,
                        DistributionBase<DistributionType> *to) {
-  to->derived().set_subset(from, indices);
+  to->derived().set_subset(from.derived(), indices);
 }
 
 template <typename Derived>
-- 
2.43.0


From 41f316d3b401811a4481e46dd20e0c397846466c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 07/72] fix: print a joint distribution to the stream that was
 given

---
 include/albatross/src/core/distribution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 7fa7e4d..5a95804 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -299,7 +299,7 @@ inline std::ostream &operator<<(std::ostream &os,
                            joint.covariance.cols() + 1);
   combined.rightCols(joint.covariance.cols()) = joint.covariance;
   combined.col(0) = joint.mean;
-  std::cout << combined;
+  os << combined;
   return os;
 }
 
-- 
2.43.0


From 27545b343dc5447005fd1cf65ab7c26b2d78ab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:04 +0000
Subject: [PATCH 08/72] fix: distributions of different sizes compare as
 different

Comparing them read out of bounds (or failed an assertion of Eigen).
---
 include/albatross/src/core/distribution.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index 5a95804..a094f3c 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -15,7 +15,7 @@
 
 inline bool operator==(const albatross::DiagonalMatrixXd &x,
                        const albatross::DiagonalMatrixXd &y) {
-  return (x.diagonal() == y.diagonal());
+  return (x.rows() == y.rows() && x.diagonal() == y.diagonal());
 }
 
 namespace albatross {
@@ -117,7 +117,8 @@ struct MarginalDistribution : public DistributionBase<MarginalDistribution> {
   }
 
   bool operator==(const MarginalDistribution &other) const {
-    return (mean == other.mean) && (covariance == other.covariance);
+    return (mean.size() == other.mean.size()) && (mean == other.mean) &&
+           (covariance == other.covariance);
   }
 
   MarginalDistribution operator+(const MarginalDistribution &other) const {
@@ -191,7 +192,10 @@ struct JointDistribution : public DistributionBase<JointDistribution> {
   }
 
   bool operator==(const JointDistribution &other) const {
-    return (mean == other.mean) && (covariance == other.covariance);
+    return (mean.size() == other.mean.size()) &&
+           (covariance.rows() == other.covariance.rows()) &&
+           (covariance.cols() == other.covariance.cols()) &&
+           (mean == other.mean) && (covariance == other.covariance);
   }
 
   JointDistribution operator*(double scale) const {
-- 
2.43.0


From 47de643aa8e129ec3983f5f3efc572240709c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 09/72] fix: normalise the Gaussian prior densities

The log density multiplied log(2 pi) and 2 log(sigma) instead of adding them.
---
 include/albatross/src/core/priors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 978aa34..79e40df 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -134,7 +134,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation);
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation);
   }
 
   double mu_;
@@ -162,7 +162,7 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ * 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
   }
 
   double mu_;
-- 
2.43.0


From f14364510c23ec3cf6c84bef2cdf52c6bf013c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 10/72] fix: density and support of the log normal prior

The exponent missed its factor one half, values which are not positive
evaluated to nan or were considered valid.
---
 include/albatross/src/core/priors.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 79e40df..7579066 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -183,9 +183,16 @@ public:
     return oss.str();
   }
 
+  double lower_bound() const override {
+    return std::numeric_limits<double>::epsilon();
+  }
+
   double log_pdf(double x) const override {
+    if (!(x > 0.)) {
+      return -LARGE_VAL;
+    }
     double deviation = (log(x) - mu_) / sigma_;
-    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - deviation * deviation;
+    return -0.5 * LOG_2PI_ - log(sigma_) - log(x) - 0.5 * deviation * deviation;
   }
 
   double mu_;
-- 
2.43.0


From 2a7805a0ba7c8c11873bb8ecc0e1099ca4250135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 11/72] fix: compare the bounds of uniform priors, not only
 their printed name

---
 include/albatross/src/core/priors.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 7579066..3cf6423 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -80,6 +80,12 @@ public:
     ALBATROSS_ASSERT(upper_ > lower_);
   };
 
+  // The name only holds the first digits of the bounds.
+  bool operator==(const UniformPrior &other) const {
+    return Prior::operator==(other) && other.lower_ == lower_ &&
+           other.upper_ == upper_;
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "uniform[" << lower_ << "," << upper_ << "]";
-- 
2.43.0


From 2fe86bb6d0de4df416eeee952a773c65f9a95676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 12/72] fix: set a parameter which several operands share in
 all of them

get_params reports the last operand's value of a shared name, set_param only
set the first one's, so a parameter could be set without taking effect.
---
 include/albatross/src/core/parameter_handling_mixin.hpp | 7 +++++--
 include/albatross/src/models/gp.hpp                     | 9 ++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/albatross/src/core/parameter_handling_mixin.hpp b/include/albatross/src/core/parameter_handling_mixin.hpp
index 24bb746..2e8296b 100644
--- a/include/albatross/src/core/parameter_handling_mixin.hpp
+++ b/include/albatross/src/core/parameter_handling_mixin.hpp
@@ -184,8 +184,11 @@ template <typename ParameterHandler, typename... Args,
 inline bool
 variadic_set_param_if_exists(const ParameterKey &key, const Parameter &param,
                              ParameterHandler *param_handler, Args... args) {
-  return (set_param_if_exists(key, param, param_handler) ||
-          variadic_set_param_if_exists(key, param, args...));
+  // The same parameter may exist in more than one handler, in which case
+  // all of them need to be set (so no short circuiting here).
+  const bool exists = set_param_if_exists(key, param, param_handler);
+  const bool exists_in_others = variadic_set_param_if_exists(key, param, args...);
+  return exists || exists_in_others;
 }
 
 } // namespace details
diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index c10da0d..5c68c96 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -260,11 +260,10 @@ public:
 
   virtual void set_param(const std::string &name,
                          const Parameter &param) override {
-    const bool success =
-        (set_param_if_exists(name, param, &impl().params_) ||
-         set_param_if_exists_in_any(name, param, &covariance_function_,
-                                    &mean_function_));
-    ALBATROSS_ASSERT(success);
+    const bool own_param = set_param_if_exists(name, param, &impl().params_);
+    const bool function_param = set_param_if_exists_in_any(
+        name, param, &covariance_function_, &mean_function_);
+    ALBATROSS_ASSERT(own_param || function_param);
   }
 
   std::string pretty_string() const {
-- 
2.43.0


From af96702c9e8348f6456279229c7e802f43f3f07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:57 +0000
Subject: [PATCH 13/72] fix: NullModel reports and keeps the parameters it was
 given

A private params_ hid the one of the parameter handling mixin.
---
 include/albatross/src/models/null_model.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/models/null_model.hpp b/include/albatross/src/models/null_model.hpp
index f8086e4..197caa7 100644
--- a/include/albatross/src/models/null_model.hpp
+++ b/include/albatross/src/models/null_model.hpp
@@ -29,7 +29,9 @@ template <> struct Fit<NullModel> {
 class NullModel : public ModelBase<NullModel> {
 public:
   NullModel() {}
-  NullModel(const ParameterStore &param_store) : params_(param_store) {}
+  NullModel(const ParameterStore &param_store) {
+    this->params_ = param_store;
+  }
 
   std::string get_name() const { return "null_model"; };
 
@@ -72,9 +74,6 @@ public:
     const Eigen::VectorXd diag = 1.e4 * Eigen::VectorXd::Ones(en);
     return MarginalDistribution(mean, diag.asDiagonal());
   }
-
-private:
-  ParameterStore params_;
 };
 
 } // namespace albatross
-- 
2.43.0


From 2e8cba1bc0507610c322e7b204266791127ce95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:23 +0000
Subject: [PATCH 14/72] fix: a plain feature never converts into a measurement
 by itself

With the implicit conversion a covariance function defined between two
measurements was also used between a measurement and a plain feature.
---
 include/albatross/src/covariance_functions/measurement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/covariance_functions/measurement.hpp b/include/albatross/src/covariance_functions/measurement.hpp
index b0647c7..2eb9dd7 100644
--- a/include/albatross/src/covariance_functions/measurement.hpp
+++ b/include/albatross/src/covariance_functions/measurement.hpp
@@ -23,7 +23,7 @@ template <typename X> struct Measurement {
 
   Measurement() : value() {}
 
-  Measurement(const X &x) { value = x; }
+  explicit Measurement(const X &x) { value = x; }
 
   X value;
 };
-- 
2.43.0


From 37547423981a5fcdffce2366b9734141f080fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:34 +0000
Subject: [PATCH 15/72] fix: products of means of a measured linear combination
 are taken term by term

Sums and products of mean functions claimed calls with composite types for
themselves, so the product of the combinations' means was used in place of the
combination of the products.
---
 .../covariance_functions/mean_function.hpp    | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/albatross/src/covariance_functions/mean_function.hpp b/include/albatross/src/covariance_functions/mean_function.hpp
index ea0f541..42db741 100644
--- a/include/albatross/src/covariance_functions/mean_function.hpp
+++ b/include/albatross/src/covariance_functions/mean_function.hpp
@@ -167,8 +167,8 @@ public:
    * this will return the sum of the two.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x) + this->rhs_(x);
@@ -178,8 +178,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -189,8 +189,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
@@ -232,8 +232,8 @@ public:
    * this will return the product of the two.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     double output = this->lhs_(x);
@@ -247,8 +247,8 @@ public:
    * If only LHS has a valid call method we ignore R.
    */
   template <typename X,
-            typename std::enable_if<(has_valid_caller<LHS, X>::value &&
-                                     !has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(has_equivalent_caller<LHS, X>::value &&
+                                     !has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->lhs_(x);
@@ -258,8 +258,8 @@ public:
    * If only RHS has a valid call method we ignore L.
    */
   template <typename X,
-            typename std::enable_if<(!has_valid_caller<LHS, X>::value &&
-                                     has_valid_caller<RHS, X>::value),
+            typename std::enable_if<(!has_equivalent_caller<LHS, X>::value &&
+                                     has_equivalent_caller<RHS, X>::value),
                                     int>::type = 0>
   double _call_impl(const X &x) const {
     return this->rhs_(x);
-- 
2.43.0


From c82649c531595f5fcd3f7f60f2c1e05f52c3048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:54 +0000
Subject: [PATCH 16/72] fix: bracket the solution when deriving a length scale
 so that the solver converges

---
 .../src/covariance_functions/radial.hpp          | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/albatross/src/covariance_functions/radial.hpp b/include/albatross/src/covariance_functions/radial.hpp
index a129b3e..b56db43 100644
--- a/include/albatross/src/covariance_functions/radial.hpp
+++ b/include/albatross/src/covariance_functions/radial.hpp
@@ -317,14 +317,20 @@ inline double newton_solve(double guess, double target, Func func, Grad grad,
       break;
     }
 
-    if (guess - delta <= lower_bound) {
-      guess = 0.5 * (guess + lower_bound);
-    } else if (guess - delta >= upper_bound) {
-      guess = 0.5 * (guess + upper_bound);
+    // The function is monotonic so the direction of the step tells on which
+    // side of the current guess the solution is.  Shrinking the bounds keeps
+    // the iterations from jumping back and forth without ever converging.
+    if (delta > 0.) {
+      upper_bound = guess;
+    } else {
+      lower_bound = guess;
+    }
+
+    if (guess - delta <= lower_bound || guess - delta >= upper_bound) {
+      guess = sqrt(lower_bound * upper_bound);
     } else {
       guess -= delta;
     }
-    guess = std::min(upper_bound, std::max(lower_bound, guess));
   }
   return guess;
 }
-- 
2.43.0


From 2b865f344c06aa4ac0898275a064dc645656b56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 17/72] fix: a threaded apply waits for every evaluation before
 it throws

---
 include/albatross/src/utils/async_utils.hpp | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/albatross/src/utils/async_utils.hpp b/include/albatross/src/utils/async_utils.hpp
index 3239325..d1ec2bf 100644
--- a/include/albatross/src/utils/async_utils.hpp
+++ b/include/albatross/src/utils/async_utils.hpp
@@ -21,6 +21,24 @@ inline bool should_serial_apply(ThreadPool *pool) {
   return (nullptr == pool) || (pool->thread_count() <= 1);
 }
 
+// If one of the evaluations throws the others may still be running, and they
+// hold references to whatever the caller captured, so nothing may be thrown
+// before all of them have finished.
+template <typename ResultType>
+inline void wait_for_all(const std::vector<std::future<ResultType>> &futures) {
+  for (const auto &f : futures) {
+    f.wait();
+  }
+}
+
+template <typename KeyType, typename ResultType>
+inline void
+wait_for_all(const Grouped<KeyType, std::future<ResultType>> &futures) {
+  for (const auto &f : futures) {
+    f.second.wait();
+  }
+}
+
 } // namespace detail
 
 template <typename ValueType, typename ApplyFunction,
@@ -41,6 +59,7 @@ inline void apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -64,6 +83,7 @@ inline auto apply(const std::vector<ValueType> &xs, const ApplyFunction &func,
     futures.emplace_back(pool->enqueue(func, x));
   }
 
+  detail::wait_for_all(futures);
   std::vector<ApplyType> output;
   for (auto &f : futures) {
     output.emplace_back(f.get());
@@ -90,6 +110,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -115,6 +136,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
@@ -142,6 +164,7 @@ inline void apply_map(const Map<KeyType, ValueType> &xs,
   for (const auto &x : xs) {
     futures.emplace_back(pool->enqueue(func, x.first, x.second));
   }
+  detail::wait_for_all(futures);
   for (auto &f : futures) {
     f.get();
   }
@@ -168,6 +191,7 @@ inline Grouped<KeyType, ApplyType> apply_map(const Map<KeyType, ValueType> &xs,
     futures[x.first] = pool->enqueue(func, x.first, x.second);
   }
 
+  detail::wait_for_all(futures);
   Grouped<KeyType, ApplyType> output;
   for (auto &f : futures) {
     output[f.first] = f.second.get();
-- 
2.43.0


From cef2a7962d0b2577517c8686fff847593bb4bfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 18/72] fix: constants and zero means leave composite types to
 the callers

Constant (and ZeroMean) accepted measured linear combinations directly, so in a
sum or product the other parts and the coefficients were ignored for them.
---
 .../albatross/src/covariance_functions/mean_function.hpp    | 6 +++++-
 include/albatross/src/covariance_functions/polynomials.hpp  | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/covariance_functions/mean_function.hpp b/include/albatross/src/covariance_functions/mean_function.hpp
index 42db741..125f8b1 100644
--- a/include/albatross/src/covariance_functions/mean_function.hpp
+++ b/include/albatross/src/covariance_functions/mean_function.hpp
@@ -272,7 +272,11 @@ protected:
 };
 
 struct ZeroMean : public MeanFunction<ZeroMean> {
-  template <typename X> double _call_impl(const X &) const { return 0.; }
+  template <typename X,
+            typename std::enable_if_t<is_basic_type<X>::value, int> = 0>
+  double _call_impl(const X &) const {
+    return 0.;
+  }
 };
 
 template <typename Derived>
diff --git a/include/albatross/src/covariance_functions/polynomials.hpp b/include/albatross/src/covariance_functions/polynomials.hpp
index 1c39d63..a97c86d 100644
--- a/include/albatross/src/covariance_functions/polynomials.hpp
+++ b/include/albatross/src/covariance_functions/polynomials.hpp
@@ -53,7 +53,9 @@ public:
    * which is saying all observations are perfectly correlated,
    * so you can move one if you move the rest the same amount.
    */
-  template <typename X, typename Y>
+  template <typename X, typename Y,
+            typename std::enable_if_t<
+                is_basic_type<X>::value && is_basic_type<Y>::value, int> = 0>
   double _call_impl(const X &x __attribute__((unused)),
                     const Y &y __attribute__((unused))) const {
     return sigma_constant.value * sigma_constant.value;
-- 
2.43.0


From 0921bb019c693c437e513ac8b279dba2a547741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 19/72] fix: measured predictions of a temporary fit own that
 fit

predict() moves a temporary fit into the prediction, but
predict_with_measurement_noise() kept a reference to it.
---
 include/albatross/src/core/fit_model.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/core/fit_model.hpp b/include/albatross/src/core/fit_model.hpp
index c0da05c..7609e52 100644
--- a/include/albatross/src/core/fit_model.hpp
+++ b/include/albatross/src/core/fit_model.hpp
@@ -53,7 +53,7 @@ public:
 
   template <typename PredictFeatureType>
   auto predict_with_measurement_noise(
-      const std::vector<PredictFeatureType> &features) const {
+      const std::vector<PredictFeatureType> &features) const & {
     std::vector<Measurement<PredictFeatureType>> measurements;
     for (const auto &f : features) {
       measurements.emplace_back(Measurement<PredictFeatureType>(f));
@@ -61,6 +61,16 @@ public:
     return predict(measurements);
   }
 
+  template <typename PredictFeatureType>
+  auto predict_with_measurement_noise(
+      const std::vector<PredictFeatureType> &features) && {
+    std::vector<Measurement<PredictFeatureType>> measurements;
+    for (const auto &f : features) {
+      measurements.emplace_back(Measurement<PredictFeatureType>(f));
+    }
+    return std::move(*this).predict(measurements);
+  }
+
   template <
       typename FeatureType,
       typename std::enable_if<
-- 
2.43.0


From c923bb54fcae30db3d2a6dae7f547b03b0e09a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 20/72] fix: build block symmetric matrices from a plain LDLT

An Eigen::LDLT converts to both SerializableLDLT and MatrixXd with Eigen 3.4, so
updating a Gaussian process did not compile.
---
 include/albatross/src/linalg/block_symmetric.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/albatross/src/linalg/block_symmetric.hpp b/include/albatross/src/linalg/block_symmetric.hpp
index e89170c..b58a941 100644
--- a/include/albatross/src/linalg/block_symmetric.hpp
+++ b/include/albatross/src/linalg/block_symmetric.hpp
@@ -125,6 +125,13 @@ BlockSymmetric<Solver> build_block_symmetric(const Solver &A,
   return BlockSymmetric<Solver>(A, B, S);
 }
 
+template <typename Solver>
+BlockSymmetric<Solver>
+build_block_symmetric(const Solver &A, const Eigen::MatrixXd &B,
+                      const Eigen::LDLT<Eigen::MatrixXd, Eigen::Lower> &S) {
+  return BlockSymmetric<Solver>(A, B, Eigen::SerializableLDLT(S));
+}
+
 template <typename Solver>
 BlockSymmetric<Solver> build_block_symmetric(const Solver &A,
                                              const Eigen::MatrixXd &B,
-- 
2.43.0


From 6462db42372f1672095ac244af298334b83080db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 21/72] fix: a measurement of a measurement is the measurement

as_measurements() wrapped features which already are measurements twice; no
covariance is defined for those, so they were refused or, inside variants,
counted as zero covariance when fitting.
---
 .../src/covariance_functions/measurement.hpp  | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/covariance_functions/measurement.hpp b/include/albatross/src/covariance_functions/measurement.hpp
index 2eb9dd7..32e88f4 100644
--- a/include/albatross/src/covariance_functions/measurement.hpp
+++ b/include/albatross/src/covariance_functions/measurement.hpp
@@ -39,6 +39,12 @@ Measurement<FeatureType> as_measurement(const FeatureType &f) {
   return Measurement<FeatureType>(f);
 }
 
+// Something which is a measurement already stays what it is.
+template <typename X>
+Measurement<X> as_measurement(const Measurement<X> &measurement) {
+  return measurement;
+}
+
 /*
  * Takes a vector of features and turns it into a vector of
  * measurements of those features.
@@ -52,17 +58,23 @@ auto as_measurements(const std::vector<FeatureType> &features) {
   return measurement_features;
 }
 
+template <typename X>
+auto as_measurements(const std::vector<Measurement<X>> &measurements) {
+  return measurements;
+}
+
 /*
  * This takes a vector of variants of features and turns it into
  * a vector of variants of MEASUREMENTS of features.
  */
 template <typename... Ts>
 auto as_measurements(const std::vector<variant<Ts...>> &features) {
-  std::vector<variant<Measurement<Ts>...>> measurement_features;
+  using MeasurementVariant =
+      variant<decltype(as_measurement(std::declval<Ts>()))...>;
+  std::vector<MeasurementVariant> measurement_features;
   for (const auto &f : features) {
-    measurement_features.emplace_back(f.match([](const auto &x) {
-      return variant<Measurement<Ts>...>(as_measurement(x));
-    }));
+    measurement_features.emplace_back(f.match(
+        [](const auto &x) { return MeasurementVariant(as_measurement(x)); }));
   }
   return measurement_features;
 }
-- 
2.43.0


From 9175b64670feacaaa2f4a5bc9574f5cba11c3778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 22/72] fix: updates of a Gaussian process condition on
 measurements, as fits do

The noise which a covariance function gives to measurements only was ignored
for the data a fit was updated with.
---
 include/albatross/src/models/gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index 5c68c96..1958078 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -387,7 +387,9 @@ public:
                             const MarginalDistribution &targets) const {
     const auto new_features = concatenate(fit_.train_features, features);
 
-    auto pred = this->_predict_impl(features, fit_,
+    // As when fitting, what has been observed are measurements of the features.
+    const auto measurement_features = as_measurements(features);
+    auto pred = this->_predict_impl(measurement_features, fit_,
                                     PredictTypeIdentity<JointDistribution>());
 
     Eigen::VectorXd delta = targets.mean - pred.mean;
@@ -395,7 +397,7 @@ public:
     const auto S_ldlt = pred.covariance.ldlt();
 
     const Eigen::MatrixXd cross =
-        covariance_function_(fit_.train_features, features);
+        covariance_function_(fit_.train_features, measurement_features);
 
     const auto new_covariance =
         build_block_symmetric(fit_.train_covariance, cross, S_ldlt);
-- 
2.43.0


From 73446f7b1ed212cdb907ac915dc05c9aee5131f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 23/72] fix: remove the mean from the targets a sparse GP is
 fit to

The targets were copied before the mean function was removed, so the
mean was counted twice: once fit to, once added when predicting.
---
 include/albatross/src/models/sparse_gp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 8927f08..7ffda12 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -662,10 +662,9 @@ private:
     const auto features =
         subset(out_of_order_measurement_features, reordered_inds);
     auto targets = subset(out_of_order_targets, reordered_inds);
-    *y = targets.mean;
-
     this->mean_function_.remove_from(
         subset(out_of_order_features, reordered_inds), &targets.mean);
+    *y = targets.mean;
 
     *K_fu = this->covariance_function_(features, inducing_features,
                                        Base::threads_.get());
-- 
2.43.0


From 9266b278ad90d01dea57b1e4c365707f5fe18220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 24/72] fix: remove the mean when a sparse GP is fit from a
 prediction

Predicting adds the mean function, so the information vector must be
that of the prediction without it (as GaussianProcessBase does).
---
 include/albatross/src/models/sparse_gp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index 7ffda12..b5720f8 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -422,6 +422,7 @@ public:
     JointDistribution prediction(prediction_);
     prediction.covariance.diagonal() += Eigen::VectorXd::Constant(
         cast::to_index(prediction.size()), 1, details::DEFAULT_NUGGET);
+    this->mean_function_.remove_from(new_inducing_points, &prediction.mean);
     new_fit.information = new_fit.train_covariance.solve(prediction.mean);
 
     // Here P is the posterior covariance at the new inducing points.  If
-- 
2.43.0


From d56c34601fa45a185f3f56e54c021d3cbb356ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 25/72] fix: set_inducing_point_strategy replaces the strategy

It assigned the argument to itself and left the model as it was.
---
 include/albatross/src/models/sparse_gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index b5720f8..a9a3fbf 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -609,7 +609,7 @@ public:
 
   void
   set_inducing_point_strategy(InducingPointStrategy &&inducing_point_strategy) {
-    inducing_point_strategy =
+    inducing_point_strategy_ =
         std::forward<InducingPointStrategy>(inducing_point_strategy);
   }
 
-- 
2.43.0


From 15c0b6e48af334d2ac7cc477c2b7c4e08d57c2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:07 +0000
Subject: [PATCH 26/72] fix: a sparse GP is fit to measurements less the mean
 of measurements

As GaussianProcessRegression does: the mean function was evaluated at the
bare features, though predict_with_measurement_noise adds that of
measurements.
---
 include/albatross/src/models/sparse_gp.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index a9a3fbf..a29013d 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -663,8 +663,7 @@ private:
     const auto features =
         subset(out_of_order_measurement_features, reordered_inds);
     auto targets = subset(out_of_order_targets, reordered_inds);
-    this->mean_function_.remove_from(
-        subset(out_of_order_features, reordered_inds), &targets.mean);
+    this->mean_function_.remove_from(features, &targets.mean);
     *y = targets.mean;
 
     *K_fu = this->covariance_function_(features, inducing_features,
-- 
2.43.0


From 489912fc08ebdfa8b1efd0e49ccef52700b6d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 27/72] fix: BlockDiagonalLDLT solves sparse right hand sides

Blocks of a sparse matrix are not MatrixBase, so neither solve nor
sqrt_solve compiled for them.
---
 include/albatross/src/linalg/block_diagonal.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_diagonal.hpp b/include/albatross/src/linalg/block_diagonal.hpp
index 2932187..1c7ad3f 100644
--- a/include/albatross/src/linalg/block_diagonal.hpp
+++ b/include/albatross/src/linalg/block_diagonal.hpp
@@ -130,7 +130,8 @@ BlockDiagonalLDLT::solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> rhs_chunk =
+        rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.solve(rhs_chunk);
     i += b.rows();
   }
@@ -155,7 +156,8 @@ BlockDiagonalLDLT::sqrt_solve(
   Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> output(rows(),
                                                                 rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const Eigen::Matrix<_Scalar, Eigen::Dynamic, Eigen::Dynamic> rhs_chunk =
+        rhs.block(i, 0, b.rows(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b.sqrt_solve(rhs_chunk);
     i += b.rows();
   }
-- 
2.43.0


From ce2c21d6556b40a2edb9f3c5625aa3f78b9a8b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 28/72] fix: block_accumulate and the block products compile

Unqualified, apply found std::apply for a temporary std::vector, and
block_product had a template parameter which nothing could deduce.
---
 include/albatross/src/linalg/block_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_utils.hpp b/include/albatross/src/linalg/block_utils.hpp
index 77fa09c..60efe37 100644
--- a/include/albatross/src/linalg/block_utils.hpp
+++ b/include/albatross/src/linalg/block_utils.hpp
@@ -65,10 +65,10 @@ inline Eigen::MatrixXd block_accumulate(const Grouped<GroupKey, X> &lhs,
     return apply_function(lhs.at(key), rhs.at(key));
   };
 
-  return block_sum(apply(lhs.keys(), one_group));
+  return block_sum(albatross::apply(lhs.keys(), one_group));
 }
 
-template <typename GroupKey, typename ApplyFunction>
+template <typename GroupKey>
 inline Eigen::MatrixXd
 block_product(const Grouped<GroupKey, Eigen::MatrixXd> &lhs,
               const Grouped<GroupKey, Eigen::MatrixXd> &rhs) {
-- 
2.43.0


From 11da2ea62c97d98bed13d75e291b765aea75d515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 29/72] fix: block diagonal matrices of rectangular blocks
 multiply

The rows of the right hand side which belong to a block are as many as
its columns; toDense already told them apart.
---
 include/albatross/src/linalg/block_diagonal.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_diagonal.hpp b/include/albatross/src/linalg/block_diagonal.hpp
index 1c7ad3f..1eaf612 100644
--- a/include/albatross/src/linalg/block_diagonal.hpp
+++ b/include/albatross/src/linalg/block_diagonal.hpp
@@ -259,18 +259,21 @@ inline Eigen::Matrix<_Scalar, _Rows, _Cols> BlockDiagonal::operator*(
     const Eigen::Matrix<_Scalar, _Rows, _Cols> &rhs) const {
   ALBATROSS_ASSERT(cols() == rhs.rows());
   Eigen::Index i = 0;
+  Eigen::Index j = 0;
   Eigen::Matrix<_Scalar, _Rows, _Cols> output =
       Eigen::Matrix<_Scalar, _Rows, _Cols>::Zero(rows(), rhs.cols());
   for (const auto &b : blocks) {
-    const auto rhs_chunk = rhs.block(i, 0, b.rows(), rhs.cols());
+    const auto rhs_chunk = rhs.block(j, 0, b.cols(), rhs.cols());
     output.block(i, 0, b.rows(), rhs.cols()) = b * rhs_chunk;
     i += b.rows();
+    j += b.cols();
   }
   return output;
 }
 
 inline BlockDiagonal BlockDiagonal::operator-(const BlockDiagonal &rhs) const {
-  ALBATROSS_ASSERT(cols() == rhs.rows());
+  ALBATROSS_ASSERT(rows() == rhs.rows());
+  ALBATROSS_ASSERT(cols() == rhs.cols());
   ALBATROSS_ASSERT(blocks.size() == rhs.blocks.size());
 
   BlockDiagonal output;
-- 
2.43.0


From 3472aa66a60dd72288a1c7ef54225b774f698026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 30/72] fix: compare LDLTs of different sizes or only one
 initialized

The triangles were compared first, reading a decomposition which was
never computed, or matrices of different sizes (out of bounds).
---
 include/albatross/src/eigen/serializable_ldlt.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 5e9eace..4ad605e 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -204,15 +204,17 @@ public:
     if (!this->m_isInitialized && !rhs.m_isInitialized) {
       return true;
     }
+    if (this->m_isInitialized != rhs.m_isInitialized ||
+        this->rows() != rhs.rows()) {
+      return false;
+    }
     auto this_lower =
         MatrixXd(MatrixXd(this->matrixLDLT()).triangularView<Eigen::Lower>());
     auto rhs_lower =
         MatrixXd(MatrixXd(rhs.matrixLDLT()).triangularView<Eigen::Lower>());
 
-    return (this->m_isInitialized == rhs.m_isInitialized &&
-            this_lower == rhs_lower &&
-            this->transpositionsP().indices() ==
-                rhs.transpositionsP().indices());
+    return (this_lower == rhs_lower && this->transpositionsP().indices() ==
+                                           rhs.transpositionsP().indices());
   }
 };
 
-- 
2.43.0


From 90404dadfeb4c5f960bd982eaa865f610f20bef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:59 +0000
Subject: [PATCH 31/72] fix: the diagonal of a matrix of rectangular blocks

Each block's own diagonal was copied as though as long as the block has
rows, reading past its end and ignoring where the blocks lie.
---
 include/albatross/src/linalg/block_diagonal.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/linalg/block_diagonal.hpp b/include/albatross/src/linalg/block_diagonal.hpp
index 1eaf612..baef920 100644
--- a/include/albatross/src/linalg/block_diagonal.hpp
+++ b/include/albatross/src/linalg/block_diagonal.hpp
@@ -299,12 +299,19 @@ inline Eigen::MatrixXd BlockDiagonal::toDense() const {
 
 inline Eigen::VectorXd BlockDiagonal::diagonal() const {
   ALBATROSS_ASSERT(rows() == cols());
-  Eigen::VectorXd output(rows());
+  Eigen::VectorXd output = Eigen::VectorXd::Zero(rows());
 
+  // The diagonal need not cross a rectangular block along its own.
   Eigen::Index i = 0;
+  Eigen::Index j = 0;
   for (const auto &b : blocks) {
-    output.block(i, 0, b.rows(), 1) = b.diagonal();
+    const Eigen::Index begin = std::max(i, j);
+    const Eigen::Index end = std::min(i + b.rows(), j + b.cols());
+    for (Eigen::Index k = begin; k < end; ++k) {
+      output[k] = b(k - i, k - j);
+    }
     i += b.rows();
+    j += b.cols();
   }
   return output;
 }
-- 
2.43.0


From 6636f572bf81df9e0da51f1f27dabc50e033946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 32/72] fix: dataset_size_from_folds did not compile for the
 folds it takes

---
 include/albatross/src/evaluation/folds.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/folds.hpp b/include/albatross/src/evaluation/folds.hpp
index 7c30949..3f76a23 100644
--- a/include/albatross/src/evaluation/folds.hpp
+++ b/include/albatross/src/evaluation/folds.hpp
@@ -142,7 +142,7 @@ dataset_size_from_indexer(const GroupIndexer<GroupKey> &indexer) {
 template <typename GroupKey, typename FeatureType>
 inline std::size_t
 dataset_size_from_folds(const RegressionFolds<GroupKey, FeatureType> &folds) {
-  return dataset_size_from_indexer(group_indexer_from_folds(folds));
+  return dataset_size_from_indexer(group_indexer_from_folds(folds.get_map()));
 }
 
 } // namespace albatross
-- 
2.43.0


From 099ba8f58f2c04f0c4759f14c67f0ca2d45d23db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:50 +0000
Subject: [PATCH 33/72] fix: get of joint distributions by group returned the
 other container type

---
 include/albatross/src/evaluation/cross_validation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/evaluation/cross_validation.hpp b/include/albatross/src/evaluation/cross_validation.hpp
index b0e6cbe..aeedbef 100644
--- a/include/albatross/src/evaluation/cross_validation.hpp
+++ b/include/albatross/src/evaluation/cross_validation.hpp
@@ -234,11 +234,11 @@ private:
   auto get(get_type<JointDistribution>) const { return this->joint(); }
 
   auto get(get_type<std::map<GroupKey, JointDistribution>>) const {
-    return this->joints();
+    return this->joints().get_map();
   }
 
   auto get(get_type<Grouped<GroupKey, JointDistribution>>) const {
-    return this->joints().get_map();
+    return this->joints();
   }
 
   const ModelType model_;
-- 
2.43.0


From a47d9cb7383ff9f29199415fd851d3f279c2cf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 34/72] fix: differential entropy multiplied the log
 determinant by the dimension

---
 include/albatross/src/evaluation/differential_entropy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/differential_entropy.hpp b/include/albatross/src/evaluation/differential_entropy.hpp
index 2f184c8..d393c7e 100644
--- a/include/albatross/src/evaluation/differential_entropy.hpp
+++ b/include/albatross/src/evaluation/differential_entropy.hpp
@@ -38,7 +38,7 @@ inline double
 differential_entropy(const Eigen::LDLT<Eigen::MatrixXd> &cov_ldlt) {
   double k = cast::to_double(cov_ldlt.rows());
   double log_det = log_determinant_of_symmetric(cov_ldlt);
-  return 0.5 * (k * (1 + log(2 * M_PI) + log_det));
+  return 0.5 * (k * (1 + log(2 * M_PI)) + log_det);
 }
 
 inline double differential_entropy(const Eigen::MatrixXd &cov) {
-- 
2.43.0


From 224a2d3cce7b69efc847921323f31e1417db5df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 35/72] fix: the log likelihood of a Gaussian process ignored
 the noise of the targets

---
 include/albatross/src/models/gp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/gp.hpp b/include/albatross/src/models/gp.hpp
index 1958078..e6c5d3a 100644
--- a/include/albatross/src/models/gp.hpp
+++ b/include/albatross/src/models/gp.hpp
@@ -445,7 +445,8 @@ public:
     Eigen::VectorXd zero_mean(dataset.targets.mean);
     const auto measurement_features = as_measurements(dataset.features);
     mean_function_.remove_from(measurement_features, &zero_mean);
-    const Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    Eigen::MatrixXd cov = covariance_function_(measurement_features);
+    cov += dataset.targets.covariance;
     double ll = -negative_log_likelihood(zero_mean, cov);
     ll += this->prior_log_likelihood();
     return ll;
-- 
2.43.0


From f6f465300f6b2982c89aae821453070789dba1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 36/72] fix: draws for the energy score undo the pivoting of
 the decomposition

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index b2a7437..5af6486 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -206,7 +206,7 @@ Eigen::MatrixXd draw_mvn(const Eigen::LDLT<Eigen::MatrixXd> &decomp,
   ALBATROSS_ASSERT((decomp.vectorD().array() > 0.).all() &&
                    "Please pass a positive definite covariance!");
   std::normal_distribution<double> standard_normal{0.0, 1.0};
-  return (decomp.transpositionsP() *
+  return (decomp.transpositionsP().transpose() *
           (decomp.matrixL() *
            (decomp.vectorD().array().sqrt().matrix().asDiagonal() *
             Eigen::MatrixXd::NullaryExpr(
-- 
2.43.0


From cb7976fa1e4a68b1545b13b4f378c0d4e0a92326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 37/72] fix: both terms of the energy score weigh errors alike

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 5af6486..34de1ad 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -248,10 +248,10 @@ inline double pairwise_errors_paired(const Eigen::MatrixXd &samples_a,
                    "Sample matrices must be the same size!");
   ALBATROSS_ASSERT(samples_a.cols() == samples_b.cols() &&
                    "Sample matrices must be the same size!");
-  return ((samples_a - samples_b).array().colwise() * weights.array())
-      .matrix()
-      .colwise()
-      .norm()
+  return (((samples_a - samples_b).array().square().colwise() * weights.array())
+              .colwise()
+              .sum())
+      .sqrt()
       .mean();
 }
 
-- 
2.43.0


From f59277422677cfb8c521805167aa6c0895713b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 38/72] fix: the variogram score mixed rows and columns, and
 took roots of rounding errors

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 34de1ad..ec12b5d 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -490,7 +490,8 @@ inline double variogram_score(
     Eigen::VectorXd sigma =
         (prediction.get_diagonal(row) +
          prediction.covariance.diagonal().tail(rest).array() -
-         2. * prediction.covariance.row(row).tail(rest).array())
+         2. * prediction.covariance.row(row).tail(rest).transpose().array())
+            .max(0.)
             .sqrt();
     Eigen::VectorXd expectation =
         mean_err.binaryExpr(sigma, [order](double mean, double std) {
@@ -499,8 +500,8 @@ inline double variogram_score(
     Eigen::VectorXd truth_err =
         (truth(row) - truth.tail(rest).array()).abs().pow(p);
     Eigen::VectorXd diff = truth_err - expectation;
-    sum += (weight_matrix.row(row).tail(rest).array() * diff.array() *
-            diff.array())
+    sum += (weight_matrix.row(row).tail(rest).transpose().array() *
+            diff.array() * diff.array())
                .sum();
   }
 
-- 
2.43.0


From c8d972982f97f2f96fed89648628aa68005cd280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 39/72] fix: the Wasserstein distance of degenerate
 distributions was not a number

---
 .../src/evaluation/prediction_metrics.hpp     | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index ec12b5d..9a9fd2d 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -148,7 +148,8 @@ namespace distance {
 
 namespace detail {
 
-inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input) {
+inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input,
+                                      double scale) {
   const Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eigs(input);
   Eigen::VectorXd eigenvalues{eigs.eigenvalues()};
   if (!(eigs.eigenvalues().array() >= 0.).all()) {
@@ -159,15 +160,19 @@ inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input) {
     // The factor of 10 here is a heuristic to allow small negative
     // eigenvalues (due to numerical errors) but not clamp
     // meaningfully large ones that indicate a serious problem in
-    // calculation.
+    // calculation.  Singular inputs have eigenvalues which are nothing
+    // but numerical errors, these are small compared to the `scale` of
+    // the terms which `input` was computed from.
     const double min_positive =
         (eigenvalues.array() > 0)
             .select(eigenvalues.array(),
                     std::numeric_limits<double>::infinity())
             .minCoeff();
-    eigenvalues =
-        (eigenvalues.array() < 0 && eigenvalues.array() > -10 * min_positive)
-            .select(0, eigenvalues.array());
+    const double threshold = std::max(
+        10 * min_positive, 10 * cast::to_double(input.rows()) *
+                               std::numeric_limits<double>::epsilon() * scale);
+    eigenvalues = (eigenvalues.array() < 0 && eigenvalues.array() > -threshold)
+                      .select(0, eigenvalues.array());
   }
 
   return eigs.eigenvectors() *
@@ -179,10 +184,12 @@ inline Eigen::MatrixXd principal_sqrt(const Eigen::MatrixXd &input) {
 
 inline double wasserstein_2(const JointDistribution &a,
                             const JointDistribution &b) {
-  auto b_sqrt{detail::principal_sqrt(b.covariance)};
+  const double b_norm = b.covariance.norm();
+  auto b_sqrt{detail::principal_sqrt(b.covariance, b_norm)};
   return (a.mean - b.mean).squaredNorm() +
          (a.covariance + b.covariance -
-          2 * detail::principal_sqrt(b_sqrt * a.covariance * b_sqrt))
+          2 * detail::principal_sqrt(b_sqrt * a.covariance * b_sqrt,
+                                     a.covariance.norm() * b_norm))
              .trace();
 }
 
-- 
2.43.0


From b93b9a7b7917b6ff3f0574da192964cb53307e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 40/72] fix: comparing RANSAC outputs ignored the best
 iteration

---
 include/albatross/src/models/ransac.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 52d2421..6efad39 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -125,7 +125,7 @@ template <typename GroupKey> struct RansacOutput {
   std::vector<RansacIteration<GroupKey>> iterations;
 
   bool operator==(const RansacOutput &other) const {
-    return (return_code == other.return_code && best == best &&
+    return (return_code == other.return_code && best == other.best &&
             iterations == other.iterations);
   }
 };
-- 
2.43.0


From b2b237f0ac53a437985472d408e46edb2c5edc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:09 +0000
Subject: [PATCH 41/72] fix: the functions of a RANSAC strategy refer to
 metrics which may be gone

---
 include/albatross/src/models/ransac.hpp    | 7 ++++---
 include/albatross/src/models/ransac_gp.hpp | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/albatross/src/models/ransac.hpp b/include/albatross/src/models/ransac.hpp
index 6efad39..0cf19ab 100644
--- a/include/albatross/src/models/ransac.hpp
+++ b/include/albatross/src/models/ransac.hpp
@@ -296,8 +296,9 @@ inline RansacFunctions<FitModelType, GroupKey> get_generic_ransac_functions(
         return model.fit(subset(dataset, inds));
       };
 
-  auto inlier_metric_from_group = [&, indexer](const GroupKey &group,
-                                               const FitModelType &fit) {
+  auto inlier_metric_from_group = [&, indexer,
+                                   inlier_metric](const GroupKey &group,
+                                                  const FitModelType &fit) {
     GroupIndices inds = indexer.at(group);
     const auto pred = fit.predict(subset(dataset.features, inds));
     const auto target = subset(dataset.targets, inds);
@@ -305,7 +306,7 @@ inline RansacFunctions<FitModelType, GroupKey> get_generic_ransac_functions(
   };
 
   auto consensus_metric_from_group =
-      [&, indexer](const std::vector<GroupKey> &groups) {
+      [&, indexer, consensus_metric](const std::vector<GroupKey> &groups) {
         auto inds = indices_from_groups(indexer, groups);
         RegressionDataset<FeatureType> inlier_dataset = subset(dataset, inds);
         return consensus_metric(inlier_dataset, model);
diff --git a/include/albatross/src/models/ransac_gp.hpp b/include/albatross/src/models/ransac_gp.hpp
index fadb2a2..6d2e218 100644
--- a/include/albatross/src/models/ransac_gp.hpp
+++ b/include/albatross/src/models/ransac_gp.hpp
@@ -21,7 +21,7 @@ template <typename GroupKey>
 inline typename RansacFunctions<ConditionalFit, GroupKey>::FitterFunc
 get_gp_ransac_fitter(const ConditionalGaussian &model,
                      const GroupIndexer<GroupKey> &indexer) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [model, indexer](const std::vector<GroupKey> &groups) {
     auto indices = indices_from_groups(indexer, groups);
     return model.fit_from_indices(indices);
   };
@@ -32,7 +32,7 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::IsValidCandidate
 get_gp_ransac_is_valid_candidate(const ConditionalGaussian &model,
                                  const GroupIndexer<GroupKey> &indexer,
                                  const IsValidCandidateMetric &metric) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [model, indexer, metric](const std::vector<GroupKey> &groups) {
     const auto indices = indices_from_groups(indexer, groups);
     const auto prior = model.get_prior(indices);
     const auto truth = model.get_truth(indices);
@@ -45,7 +45,8 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::InlierMetric
 get_gp_ransac_inlier_metric(const ConditionalGaussian &model,
                             const GroupIndexer<GroupKey> &indexer,
                             const InlierMetricType &metric) {
-  return [&, indexer, model](const GroupKey &group, const ConditionalFit &fit) {
+  return [indexer, model, metric](const GroupKey &group,
+                                  const ConditionalFit &fit) {
     const auto indices = indexer.at(group);
     const auto pred = get_prediction_reference(model, fit, indices);
     const auto truth = model.get_truth(indices);
@@ -58,7 +59,7 @@ inline typename RansacFunctions<ConditionalFit, GroupKey>::ConsensusMetric
 get_gp_ransac_consensus_metric(const ConditionalGaussian &model,
                                const GroupIndexer<GroupKey> &indexer,
                                const ConsensusMetric &metric) {
-  return [&, model, indexer](const std::vector<GroupKey> &groups) {
+  return [model, indexer, metric](const std::vector<GroupKey> &groups) {
     const auto indices = indices_from_groups(indexer, groups);
     const auto prior = model.get_prior(indices);
     const auto truth = model.get_truth(indices);
-- 
2.43.0


From 5d1cab06234ca1e8d91b82ffbbffeb1c7390e37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:14 +0000
Subject: [PATCH 42/72] fix: least squares models can customize their solver,
 as documented

---
 include/albatross/src/models/least_squares.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/models/least_squares.hpp b/include/albatross/src/models/least_squares.hpp
index bb62fa4..23361e7 100644
--- a/include/albatross/src/models/least_squares.hpp
+++ b/include/albatross/src/models/least_squares.hpp
@@ -64,7 +64,7 @@ public:
       A.row(i) = features[cast::to_size(i)];
     }
 
-    FitType model_fit = {least_squares_solver(A, targets.mean)};
+    FitType model_fit = {this->derived().least_squares_solver(A, targets.mean)};
     return model_fit;
   }
 
-- 
2.43.0


From 30a51feb5ee5a6a4750203bc42252154aa659453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 43/72] fix: gradient based tuning died when the objective was
 not finite

---
 include/albatross/src/tune/tune.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/tune/tune.hpp b/include/albatross/src/tune/tune.hpp
index 1135cae..31c946e 100644
--- a/include/albatross/src/tune/tune.hpp
+++ b/include/albatross/src/tune/tune.hpp
@@ -157,7 +157,9 @@ struct GenericTuner {
         for (std::size_t i = 0; i < grad_eval.size(); ++i) {
           this->output_stream << "  " << tunable.names[i] << " : "
                               << grad_eval[i] << std::endl;
-          grad[i] = grad_eval[i];
+          // Failures of the objective must not reach the optimizer (which
+          // would then propose NAN parameters).
+          grad[i] = std::isfinite(grad_eval[i]) ? grad_eval[i] : 0.;
         }
       }
 
@@ -197,7 +199,7 @@ struct GenericTuner {
         for (std::size_t i = 0; i < grad_eval.size(); ++i) {
           this->output_stream << "  " << i << " : " << grad_eval[i]
                               << std::endl;
-          grad[i] = grad_eval[i];
+          grad[i] = std::isfinite(grad_eval[i]) ? grad_eval[i] : 0.;
         }
       }
 
-- 
2.43.0


From 1f83a45f4bad65a3e923aa8ef53db301de4226f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 44/72] fix: greedy tuning with a single query per direction
 left the bounds

---
 include/albatross/src/tune/greedy_tuner.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/greedy_tuner.hpp b/include/albatross/src/tune/greedy_tuner.hpp
index d35f752..0ee9cfd 100644
--- a/include/albatross/src/tune/greedy_tuner.hpp
+++ b/include/albatross/src/tune/greedy_tuner.hpp
@@ -38,7 +38,7 @@ inline std::vector<double> query_ratios(std::size_t n) {
   const double log_min = -5.;
   const double log_max = -0.1;
   if (n == 1) {
-    return {log_min};
+    return {std::pow(10, log_min)};
   }
 
   const double step = (log_max - log_min) / (cast::to_double(n) - 1);
-- 
2.43.0


From a5b4e293c95b92858cc8500fab96e3ad9887b50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 45/72] fix: finite difference gradients were always zero at
 upper bounds

---
 include/albatross/src/tune/finite_difference.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/tune/finite_difference.hpp b/include/albatross/src/tune/finite_difference.hpp
index 586aac3..0f7be45 100644
--- a/include/albatross/src/tune/finite_difference.hpp
+++ b/include/albatross/src/tune/finite_difference.hpp
@@ -55,12 +55,12 @@ compute_gradient(Function f, const ParameterStore &params, double f_val,
     if (std::isfinite(range)) {
       epsilon = 1e-8 * range;
     }
-    auto perturbed_params = get_perturbed(i, epsilon);
-
-    if (!params_are_valid(perturbed_params)) {
+    // At the upper bound step the other way (note that values which exceed the
+    // bounds would otherwise silently be forced back onto them).
+    if (tunable_params.values[i] + epsilon > tunable_params.upper_bounds[i]) {
       epsilon *= -1;
-      perturbed_params = get_perturbed(i, epsilon);
     }
+    const auto perturbed_params = get_perturbed(i, epsilon);
 
     double grad_i = (f(perturbed_params) - f_val) / epsilon;
 
-- 
2.43.0


From 4c433e77d5cefeb12b5ef6d2b7bb4cde31eca554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 46/72] fix: tuning more than ten values permuted them

---
 include/albatross/src/tune/tune.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/tune/tune.hpp b/include/albatross/src/tune/tune.hpp
index 31c946e..44294c2 100644
--- a/include/albatross/src/tune/tune.hpp
+++ b/include/albatross/src/tune/tune.hpp
@@ -82,8 +82,12 @@ inline nlopt::opt default_gradient_optimizer(
 
 inline ParameterStore uninformative_params(const std::vector<double> &values) {
   ParameterStore params;
+  const int width = static_cast<int>(std::to_string(values.size()).size());
   for (std::size_t i = 0; i < values.size(); ++i) {
-    params[std::to_string(i)] = {values[i], UninformativePrior()};
+    // Padded so that the (sorted) names preserve the order of the values.
+    std::ostringstream name;
+    name << std::setfill('0') << std::setw(width) << i;
+    params[name.str()] = {values[i], UninformativePrior()};
   }
   return params;
 }
-- 
2.43.0


From 7dc7afa3527ec85d221ceece25e7cf1519016944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 47/72] fix: gradients of functions of vectors were evaluated
 out of bounds

---
 include/albatross/src/tune/tune.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/tune/tune.hpp b/include/albatross/src/tune/tune.hpp
index 44294c2..329f3f2 100644
--- a/include/albatross/src/tune/tune.hpp
+++ b/include/albatross/src/tune/tune.hpp
@@ -197,8 +197,14 @@ struct GenericTuner {
       double metric = objective(x);
 
       if (grad.size() > 0) {
-        const auto grad_eval =
-            compute_gradient(objective, x, metric, threads.get());
+        // Evaluate the gradient by way of the parameters such that it
+        // respects their bounds.
+        auto params_objective = [&](const ParameterStore &params) {
+          return objective(get_tunable_parameters(params).values);
+        };
+        const auto grad_eval = compute_gradient(
+            params_objective, set_tunable_params_values(initial_params, x),
+            metric, threads.get());
         this->output_stream << "gradient" << std::endl;
         for (std::size_t i = 0; i < grad_eval.size(); ++i) {
           this->output_stream << "  " << i << " : " << grad_eval[i]
-- 
2.43.0


From c4ff9ec9b9e29005f460bfdede4f2ab425ac2319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 48/72] fix: including the samplers in two translation units
 did not link

---
 include/albatross/src/samplers/ensemble.hpp       | 2 +-
 include/albatross/src/samplers/initialization.hpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index 6cbded4..16c6c32 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -35,7 +35,7 @@ inline std::size_t random_complement(std::size_t n, std::size_t i,
   }
 }
 
-void assert_valid_states(const EnsembleSamplerState &ensembles) {
+inline void assert_valid_states(const EnsembleSamplerState &ensembles) {
   for (std::size_t i = 0; i < ensembles.size(); ++i) {
     ALBATROSS_ASSERT(std::isfinite(ensembles[i].log_prob));
   }
diff --git a/include/albatross/src/samplers/initialization.hpp b/include/albatross/src/samplers/initialization.hpp
index 5eeb0b9..9271151 100644
--- a/include/albatross/src/samplers/initialization.hpp
+++ b/include/albatross/src/samplers/initialization.hpp
@@ -26,7 +26,7 @@ inline std::vector<std::string> split_string(const std::string &s,
   return tokens;
 }
 
-std::vector<double> parse_line(const std::string &line) {
+inline std::vector<double> parse_line(const std::string &line) {
   std::vector<double> output;
   for (const auto &s : split_string(line, ',')) {
     try {
@@ -39,7 +39,7 @@ std::vector<double> parse_line(const std::string &line) {
   return output;
 }
 
-std::vector<std::map<std::string, double>>
+inline std::vector<std::map<std::string, double>>
 initial_params_from_csv(std::istream &ss) {
 
   std::vector<std::map<std::string, double>> output;
@@ -76,7 +76,7 @@ initial_params_from_csv(std::istream &ss) {
   return output;
 }
 
-std::vector<std::vector<double>>
+inline std::vector<std::vector<double>>
 initial_params_from_csv(const ParameterStore &param_store, std::istream &ss) {
 
   const auto all_params = initial_params_from_csv(ss);
-- 
2.43.0


From ed5a11ba3a3589074035c7ed7a8815065adb6dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 49/72] fix: the ensemble sampler moved from its function in
 the first iteration

---
 include/albatross/src/samplers/ensemble.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/samplers/ensemble.hpp b/include/albatross/src/samplers/ensemble.hpp
index 16c6c32..d2b4819 100644
--- a/include/albatross/src/samplers/ensemble.hpp
+++ b/include/albatross/src/samplers/ensemble.hpp
@@ -137,8 +137,8 @@ ensemble_sampler(ComputeLogProb &&compute_log_prob,
   callback(0, state);
 
   for (std::size_t iter = 1; iter <= max_iterations; ++iter) {
-    const auto next_state = stretch_move_step<ComputeLogProb>(
-        state, std::forward<ComputeLogProb>(compute_log_prob), gen);
+    const auto next_state =
+        stretch_move_step<ComputeLogProb &>(state, compute_log_prob, gen);
     output.push_back(next_state);
     callback(iter, next_state);
     state = next_state;
-- 
2.43.0


From 220528ac8ec1682802bd485eae69f69f51c16efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 50/72] fix: writing CSV rounded values to six decimals

---
 include/albatross/src/samplers/callbacks.hpp |  4 ++--
 include/albatross/src/utils/csv_utils.hpp    | 24 +++++++++++++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/albatross/src/samplers/callbacks.hpp b/include/albatross/src/samplers/callbacks.hpp
index ab391e6..2447f55 100644
--- a/include/albatross/src/samplers/callbacks.hpp
+++ b/include/albatross/src/samplers/callbacks.hpp
@@ -40,10 +40,10 @@ inline void write_ensemble_sampler_state(
     const auto params =
         set_tunable_params_values(param_store, ensemble[i].params);
     for (const auto &param : params) {
-      row[param.first] = std::to_string(param.second.value);
+      row[param.first] = details::to_csv_value(param.second.value);
     }
     row["iteration"] = std::to_string(iteration);
-    row["log_probability"] = std::to_string(ensemble[i].log_prob);
+    row["log_probability"] = details::to_csv_value(ensemble[i].log_prob);
     row["ensemble_index"] = std::to_string(i);
     write_row(stream, row, columns);
   }
diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 39b8a71..c80dcf8 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -60,6 +60,18 @@ namespace albatross {
 
 using namespace cereal;
 
+namespace details {
+
+// Enough digits to recover the exact value (std::to_string keeps six decimals
+// such that small values would turn into zeros).
+inline std::string to_csv_value(double x) {
+  std::ostringstream oss;
+  oss << std::setprecision(std::numeric_limits<double>::max_digits10) << x;
+  return oss.str();
+}
+
+} // namespace details
+
 /*
  * This recursive function generates a map from key to value in an
  * XML document by joining nested structure using a ".".
@@ -123,7 +135,7 @@ inline std::map<std::string, std::string> to_map(const FeatureType &feature) {
 // A special case for floating point features, otherwise they would
 // be given a column name of "value0" by cereal.
 inline std::map<std::string, std::string> to_map(const double &feature) {
-  return {{"feature", std::to_string(feature)}};
+  return {{"feature", details::to_csv_value(feature)}};
 }
 
 template <typename FeatureType>
@@ -131,10 +143,10 @@ inline std::map<std::string, std::string>
 to_map(const FeatureType &feature, double target, double target_variance,
        double prediction, double prediction_variance) {
   auto output = to_map(feature);
-  output["target"] = std::to_string(target);
-  output["target_variance"] = std::to_string(target_variance);
-  output["prediction"] = std::to_string(prediction);
-  output["prediction_variance"] = std::to_string(prediction_variance);
+  output["target"] = details::to_csv_value(target);
+  output["target_variance"] = details::to_csv_value(target_variance);
+  output["prediction"] = details::to_csv_value(prediction);
+  output["prediction_variance"] = details::to_csv_value(prediction_variance);
   return output;
 }
 
@@ -259,7 +271,7 @@ inline void write_to_csv(std::ostream &stream,
                          const Eigen::Matrix<_Scalar, _Rows, _Cols> &x) {
   for (Eigen::Index i = 0; i < x.rows(); ++i) {
     for (Eigen::Index j = 0; j < x.cols(); ++j) {
-      stream << x(i, j);
+      stream << details::to_csv_value(static_cast<double>(x(i, j)));
       if (j < x.cols() - 1) {
         stream << ",";
       }
-- 
2.43.0


From e8b9fc97b488157a413962342a4e4dad2ea24b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:15 +0000
Subject: [PATCH 51/72] fix: writing CSV to streams without random access
 (pipes) lost the output

---
 include/albatross/src/utils/csv_utils.hpp | 31 ++++++++++-------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index c80dcf8..4857a54 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -174,16 +174,6 @@ to_map(const RegressionDataset<FeatureType> &dataset,
   return row;
 }
 
-/*
- * This helper function makes it easier to use range based
- * for loops that append a delimeter which can be followed
- * by this function to turn the last delimeter into a new line
- */
-inline void replace_last_character_with_newline(std::ostream &stream) {
-  stream.seekp(-1, std::ios_base::end);
-  stream << std::endl;
-}
-
 template <typename FeatureType, typename DistributionType>
 inline std::vector<std::string>
 get_column_names(const RegressionDataset<FeatureType> &dataset,
@@ -199,21 +189,26 @@ get_column_names(const RegressionDataset<FeatureType> &dataset,
 inline void write_row(std::ostream &stream,
                       const std::map<std::string, std::string> &row,
                       const std::vector<std::string> &columns) {
-  for (const auto &col : columns) {
-    if (map_contains(row, col)) {
-      stream << row.at(col);
+  for (std::size_t i = 0; i < columns.size(); ++i) {
+    if (i > 0) {
+      stream << ",";
+    }
+    if (map_contains(row, columns[i])) {
+      stream << row.at(columns[i]);
     }
-    stream << ",";
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 inline void write_header(std::ostream &stream,
                          const std::vector<std::string> &columns) {
-  for (const auto &col : columns) {
-    stream << col << ",";
+  for (std::size_t i = 0; i < columns.size(); ++i) {
+    if (i > 0) {
+      stream << ",";
+    }
+    stream << columns[i];
   }
-  replace_last_character_with_newline(stream);
+  stream << std::endl;
 }
 
 template <typename FeatureType, typename DistributionType>
-- 
2.43.0


From 52e65707795e61d7a44f4191fb0da87accff0a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:30 +0000
Subject: [PATCH 52/72] fix: draws of singular multivariate normals had the
 wrong covariance

---
 include/albatross/src/utils/random_utils.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/utils/random_utils.hpp b/include/albatross/src/utils/random_utils.hpp
index 509203b..7e631c9 100644
--- a/include/albatross/src/utils/random_utils.hpp
+++ b/include/albatross/src/utils/random_utils.hpp
@@ -134,7 +134,16 @@ inline Eigen::VectorXd random_multivariate_normal(const Eigen::VectorXd &mean,
   Eigen::VectorXd sample(mean.size());
   gaussian_fill(sample, gen);
 
-  sample = cov.llt().matrixL() * sample;
+  const Eigen::LLT<Eigen::MatrixXd> llt(cov);
+  if (llt.info() == Eigen::Success) {
+    sample = llt.matrixL() * sample;
+  } else {
+    // The covariance is singular (some variables determine others).
+    const Eigen::LDLT<Eigen::MatrixXd> ldlt(cov);
+    const Eigen::VectorXd sd = ldlt.vectorD().cwiseMax(0.).cwiseSqrt();
+    sample = (ldlt.matrixL() * sd.cwiseProduct(sample)).eval();
+    sample = (ldlt.transpositionsP().transpose() * sample).eval();
+  }
 
   sample += mean;
 
-- 
2.43.0


From 4129436f132ab9b2a8c0d8af099819c045538fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:21 +0000
Subject: [PATCH 53/72] fix: serialize datasets whose features only save to
 output archives

An archive either saves or loads: requiring a feature to do both with the same
archive refused every type which is not serialized by a function of both, such
as double, std::string and Eigen types.
---
 include/albatross/src/cereal/dataset.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/cereal/dataset.hpp b/include/albatross/src/cereal/dataset.hpp
index a76c829..76d6da2 100644
--- a/include/albatross/src/cereal/dataset.hpp
+++ b/include/albatross/src/cereal/dataset.hpp
@@ -16,11 +16,14 @@
 using albatross::delay_static_assert;
 using albatross::RegressionDataset;
 using albatross::valid_in_out_serializer;
+using albatross::valid_input_serializer;
+using albatross::valid_output_serializer;
 
 namespace cereal {
 
 template <class Archive, class FeatureType>
-typename std::enable_if<valid_in_out_serializer<FeatureType, Archive>::value,
+typename std::enable_if<valid_output_serializer<FeatureType, Archive>::value ||
+                            valid_input_serializer<FeatureType, Archive>::value,
                         void>::type
 serialize(Archive &archive, RegressionDataset<FeatureType> &dataset,
           const std::uint32_t) {
@@ -30,8 +33,10 @@ serialize(Archive &archive, RegressionDataset<FeatureType> &dataset,
 }
 
 template <class Archive, class FeatureType>
-typename std::enable_if<!valid_in_out_serializer<FeatureType, Archive>::value,
-                        void>::type
+typename std::enable_if<
+    !(valid_output_serializer<FeatureType, Archive>::value ||
+      valid_input_serializer<FeatureType, Archive>::value),
+    void>::type
 serialize(Archive &archive ALBATROSS_UNUSED, RegressionDataset<FeatureType> &,
           const std::uint32_t) {
   static_assert(delay_static_assert<Archive>::value,
-- 
2.43.0


From 5e624ebd51d0b35ad61a0647b2cb34f151296ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 54/72] fix: sparse matrices were saved transposed and
 truncated

The payload held as many bytes as the values alone take, though it consists of
triplets, and the row and column of each were exchanged.
---
 include/albatross/src/cereal/eigen.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/albatross/src/cereal/eigen.hpp b/include/albatross/src/cereal/eigen.hpp
index 188b24a..45b0d82 100644
--- a/include/albatross/src/cereal/eigen.hpp
+++ b/include/albatross/src/cereal/eigen.hpp
@@ -169,15 +169,17 @@ inline void save(Archive &ar,
   const _StorageIndex rows = m.rows();
   const _StorageIndex cols = m.cols();
   const std::size_t nnz = albatross::cast::to_size(m.nonZeros());
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  using Triplet = Eigen::Triplet<_Scalar, _StorageIndex>;
+  const std::size_t size_bytes = nnz * sizeof(Triplet);
 
-  std::vector<Eigen::Triplet<_Scalar>> elems;
+  std::vector<Triplet> elems;
   elems.reserve(nnz);
-  for (_StorageIndex col = 0; col < m.outerSize(); ++col) {
+  for (_StorageIndex outer = 0; outer < m.outerSize(); ++outer) {
     for (typename Eigen::SparseMatrix<_Scalar, _Options,
-                                      _StorageIndex>::InnerIterator it(m, col);
+                                      _StorageIndex>::InnerIterator it(m,
+                                                                       outer);
          it; ++it) {
-      elems.emplace_back(it.col(), it.row(), it.value());
+      elems.emplace_back(it.row(), it.col(), it.value());
     }
   }
 
@@ -207,7 +209,8 @@ inline void load(Archive &ar,
   ar(CEREAL_NVP(cols));
   ar(CEREAL_NVP(nnz));
   ar(CEREAL_NVP(payload));
-  const std::size_t size_bytes = nnz * sizeof(_Scalar);
+  using Triplet = Eigen::Triplet<_Scalar, _StorageIndex>;
+  const std::size_t size_bytes = nnz * sizeof(Triplet);
 
   if (::cereal::traits::is_text_archive<Archive>::value) {
     payload = base64::decode(payload);
@@ -222,8 +225,9 @@ inline void load(Archive &ar,
   if (size_bytes == 0) {
     m.setZero();
   } else {
-    std::vector<Eigen::Triplet<_Scalar>> elems(nnz);
-    std::memcpy(elems.data(), decompressed.data(), size_bytes);
+    std::vector<Triplet> elems(nnz);
+    std::memcpy(static_cast<void *>(elems.data()), decompressed.data(),
+                size_bytes);
     m.setFromTriplets(elems.begin(), elems.end());
   }
 
-- 
2.43.0


From 6d9d268d5f0891cb0a6264f9dc52b6fa6c36cf1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:21 +0000
Subject: [PATCH 55/72] fix: loading complex CHOLMOD matrices wrote past their
 values

The values of a complex matrix take two elements each, of which only half were
allocated. Patterns, which have no values, could be saved but not loaded.
---
 include/albatross/src/cereal/suitesparse.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/cereal/suitesparse.hpp b/include/albatross/src/cereal/suitesparse.hpp
index ca44c9c..6b38b8e 100644
--- a/include/albatross/src/cereal/suitesparse.hpp
+++ b/include/albatross/src/cereal/suitesparse.hpp
@@ -437,15 +437,23 @@ inline void load(Archive &ar, cholmod_sparse &m,
   if (!m.packed) {
     detail::suitesparse_cereal_realloc(&m.nz, m.ncol, integer_size_bytes);
   }
-  detail::suitesparse_cereal_realloc(&m.x, m.nzmax, element_size_bytes);
+  // A pattern has no numerical values, so that none were saved.
+  const bool has_values = m.xtype != CHOLMOD_PATTERN;
+  if (has_values) {
+    detail::suitesparse_cereal_realloc(&m.x, x_elements, element_size_bytes);
+  } else if (nullptr != m.x) {
+    free(m.x);
+    m.x = nullptr;
+  }
 
   detail::decode_array(ar, "m.p", m.p, (m.ncol + 1) * p_size_bytes);
   detail::decode_array(ar, "m.i", m.i, m.nzmax * integer_size_bytes);
   if (!m.packed) {
     detail::decode_array(ar, "m.nz", m.nz, m.ncol * integer_size_bytes);
   }
-  // TODO(@peddie): in what cases may `x` be absent?
-  detail::decode_array(ar, "m.x", m.x, x_elements * element_size_bytes);
+  if (has_values) {
+    detail::decode_array(ar, "m.x", m.x, x_elements * element_size_bytes);
+  }
   // This should only be non-null for "zomplex" elements
   ALBATROSS_ASSERT(m.z == nullptr);
 }
-- 
2.43.0


From b8b5ff282a0ce466133b0ff55084b5d0294bf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:45 +0000
Subject: [PATCH 56/72] fix: loaded LDLT factorizations lost their norm, sign
 and success

Their norm, and with it the condition number of a block diagonal, was whatever
was in memory. A factorization which was not initialized could not be saved
where assertions of Eigen are enabled. Version 1 of the format holds them;
archives of version 0 load as before.
---
 .../src/cereal/serializable_ldlt.hpp          | 19 +++++++++++---
 .../albatross/src/eigen/serializable_ldlt.hpp | 25 +++++++++++++++++++
 2 files changed, 41 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/cereal/serializable_ldlt.hpp b/include/albatross/src/cereal/serializable_ldlt.hpp
index a6b6fe6..5da4465 100644
--- a/include/albatross/src/cereal/serializable_ldlt.hpp
+++ b/include/albatross/src/cereal/serializable_ldlt.hpp
@@ -17,18 +17,31 @@ namespace cereal {
 
 template <typename Archive>
 inline void save(Archive &archive, const Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   save_lower_triangle(archive, ldlt.matrix());
-  archive(cereal::make_nvp("transpositions", ldlt.transpositionsP()),
+  archive(cereal::make_nvp("transpositions", ldlt.transpositions()),
           cereal::make_nvp("is_initialized", ldlt.is_initialized()));
+  if (version > 0 && ldlt.is_initialized()) {
+    archive(cereal::make_nvp("l1_norm", ldlt.l1_norm()),
+            cereal::make_nvp("sign", ldlt.sign()),
+            cereal::make_nvp("info", ldlt.computation_info()));
+  }
 }
 
 template <typename Archive>
 inline void load(Archive &archive, Eigen::SerializableLDLT &ldlt,
-                 const std::uint32_t) {
+                 const std::uint32_t version) {
   load_lower_triangle(archive, ldlt.mutable_matrix());
   archive(cereal::make_nvp("transpositions", ldlt.mutable_transpositions()),
           cereal::make_nvp("is_initialized", ldlt.mutable_is_initialized()));
+  if (version > 0 && ldlt.is_initialized()) {
+    int sign;
+    int info;
+    archive(cereal::make_nvp("l1_norm", ldlt.mutable_l1_norm()),
+            cereal::make_nvp("sign", sign), cereal::make_nvp("info", info));
+    ldlt.set_sign(sign);
+    ldlt.set_computation_info(info);
+  }
 }
 
 } // namespace cereal
diff --git a/include/albatross/src/eigen/serializable_ldlt.hpp b/include/albatross/src/eigen/serializable_ldlt.hpp
index 4ad605e..2c81514 100644
--- a/include/albatross/src/eigen/serializable_ldlt.hpp
+++ b/include/albatross/src/eigen/serializable_ldlt.hpp
@@ -18,6 +18,9 @@ namespace Eigen {
 // See LDLT.h in Eigen for a detailed description of the decomposition
 class SerializableLDLT : public LDLT<MatrixXd, Lower> {
 public:
+  // Version 1 added the properties found while factorizing, such as the norm.
+  static const std::uint32_t serialization_version = 1;
+
   using RealScalar = double;
   using Scalar = double;
   using MatrixType = MatrixXd;
@@ -39,6 +42,28 @@ public:
     return this->m_transpositions;
   }
 
+  // Unlike `transpositionsP` this doesn't require the decomposition to be
+  // initialized.
+  const LDLT<MatrixXd, Lower>::TranspositionType &transpositions() const {
+    return this->m_transpositions;
+  }
+
+  double &mutable_l1_norm() { return this->m_l1_norm; }
+
+  // What the factorization found out about the sign of the matrix, as a number
+  // which serializes.
+  int sign() const { return static_cast<int>(this->m_sign); }
+
+  void set_sign(int sign) {
+    this->m_sign = static_cast<decltype(this->m_sign)>(sign);
+  }
+
+  int computation_info() const { return static_cast<int>(this->m_info); }
+
+  void set_computation_info(int info) {
+    this->m_info = static_cast<ComputationInfo>(info);
+  }
+
   LDLT<MatrixXd, Lower>::MatrixType &mutable_matrix() { return this->m_matrix; }
 
   LDLT<MatrixXd, Lower>::MatrixType matrix() const { return this->m_matrix; }
-- 
2.43.0


From f7bbb9bc7e900d87ccd5238244ee83513f8f8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 57/72] fix: CSV cells which hold commas or line breaks shifted
 the columns

A text (of a feature or of the metadata) or the name of a column which holds a
comma, a quote or a line break is now quoted.
---
 include/albatross/src/utils/csv_utils.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index 4857a54..f296a1a 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -70,6 +70,22 @@ inline std::string to_csv_value(double x) {
   return oss.str();
 }
 
+// Quotes a cell which holds a character with a meaning in a CSV (RFC 4180).
+inline std::string to_csv_cell(const std::string &value) {
+  if (value.find_first_of(",\"\r\n") == std::string::npos) {
+    return value;
+  }
+  std::string quoted = "\"";
+  for (const char c : value) {
+    quoted += c;
+    if (c == '"') {
+      quoted += c;
+    }
+  }
+  quoted += '"';
+  return quoted;
+}
+
 } // namespace details
 
 /*
@@ -194,7 +210,7 @@ inline void write_row(std::ostream &stream,
       stream << ",";
     }
     if (map_contains(row, columns[i])) {
-      stream << row.at(columns[i]);
+      stream << details::to_csv_cell(row.at(columns[i]));
     }
   }
   stream << std::endl;
@@ -206,7 +222,7 @@ inline void write_header(std::ostream &stream,
     if (i > 0) {
       stream << ",";
     }
-    stream << columns[i];
+    stream << details::to_csv_cell(columns[i]);
   }
   stream << std::endl;
 }
-- 
2.43.0


From d037d62f5428c8c1bc089c533af35a09b6e643ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 58/72] fix: writing several datasets as CSV kept the columns
 of the first alone

What the others have and the first has not was silently dropped: everything if
the first was empty. No datasets at all was undefined behavior.
---
 include/albatross/src/utils/csv_utils.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/utils/csv_utils.hpp b/include/albatross/src/utils/csv_utils.hpp
index f296a1a..893634b 100644
--- a/include/albatross/src/utils/csv_utils.hpp
+++ b/include/albatross/src/utils/csv_utils.hpp
@@ -269,9 +269,15 @@ inline void
 write_to_csv(std::ostream &stream,
              const std::vector<RegressionDataset<FeatureType>> &datasets,
              const std::vector<DistributionType> &predictions) {
-  const auto columns = get_column_names(datasets[0], predictions[0]);
-  write_header(stream, columns);
   ALBATROSS_ASSERT(datasets.size() == predictions.size());
+  // Datasets may have optional values or metadata which others do not have.
+  std::set<std::string> keys;
+  for (std::size_t i = 0; i < datasets.size(); i++) {
+    const auto next_keys = get_column_names(datasets[i], predictions[i]);
+    keys.insert(next_keys.begin(), next_keys.end());
+  }
+  const std::vector<std::string> columns(keys.begin(), keys.end());
+  write_header(stream, columns);
   for (std::size_t i = 0; i < datasets.size(); i++) {
     write_to_csv(stream, datasets[i], predictions[i], columns);
   }
-- 
2.43.0


From bed4515336472fdc3e6b335aef29dcbc9e6b8cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:37 +0000
Subject: [PATCH 59/72] fix: a call trace names sums and products after their
 own terms

The names came from default constructed sums and products, so names which
depend on parameters were wrong, and expressions with a term which has no
default constructor could not be traced.
---
 include/albatross/src/covariance_functions/call_trace.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/covariance_functions/call_trace.hpp b/include/albatross/src/covariance_functions/call_trace.hpp
index f15fb7f..25811ad 100644
--- a/include/albatross/src/covariance_functions/call_trace.hpp
+++ b/include/albatross/src/covariance_functions/call_trace.hpp
@@ -151,7 +151,7 @@ public:
   template <typename X, typename Y>
   std::vector<CallAndValue> get_trace(const X &x, const Y &y) const {
     std::vector<CallAndValue> calls;
-    calls.push_back({SumOfCovarianceFunctions<LHS, RHS>().name(), eval(x, y)});
+    calls.push_back({cov_func_.get_name(), eval(x, y)});
 
     std::vector<CallAndValue> lhs_calls =
         CallTrace<LHS>(this->cov_func_.lhs_).get_trace(x, y);
@@ -197,8 +197,7 @@ public:
   template <typename X, typename Y>
   std::vector<CallAndValue> get_trace(const X &x, const Y &y) const {
     std::vector<CallAndValue> calls;
-    calls.push_back(
-        {ProductOfCovarianceFunctions<LHS, RHS>().name(), eval(x, y)});
+    calls.push_back({cov_func_.get_name(), eval(x, y)});
 
     std::vector<CallAndValue> lhs_calls =
         CallTrace<LHS>(this->cov_func_.lhs_).get_trace(x, y);
-- 
2.43.0


From 67dd6919a0ad842c962f7915e2e3136c08faa014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:28 +0000
Subject: [PATCH 60/72] fix: products of covariance functions without a default
 constructor

The constructor of a product made a default constructed product and threw it
away, so products of terms which have no default constructor did not compile
(sums of them do).
---
 .../src/covariance_functions/covariance_function.hpp          | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/albatross/src/covariance_functions/covariance_function.hpp b/include/albatross/src/covariance_functions/covariance_function.hpp
index 89b97db..97c1974 100644
--- a/include/albatross/src/covariance_functions/covariance_function.hpp
+++ b/include/albatross/src/covariance_functions/covariance_function.hpp
@@ -333,9 +333,7 @@ class ProductOfCovarianceFunctions
 public:
   ProductOfCovarianceFunctions() : lhs_(), rhs_() {}
   ProductOfCovarianceFunctions(const LHS &lhs, const RHS &rhs)
-      : lhs_(lhs), rhs_(rhs) {
-    ProductOfCovarianceFunctions();
-  }
+      : lhs_(lhs), rhs_(rhs) {}
 
   std::string name() const {
     return "(" + lhs_.get_name() + "*" + rhs_.get_name() + ")";
-- 
2.43.0


From 2ef0c49c68e70a96ac090b9473b1585772ff1ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 61/72] fix: a call trace shows values with all their digits

Terms were printed with six decimals, so a covariance of 1e-8 showed as zero,
and sums and products with six significant digits, so values in a trace did
not add up to the covariance which they explain.
---
 .../src/covariance_functions/call_trace.hpp    | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/albatross/src/covariance_functions/call_trace.hpp b/include/albatross/src/covariance_functions/call_trace.hpp
index 25811ad..e6a61b7 100644
--- a/include/albatross/src/covariance_functions/call_trace.hpp
+++ b/include/albatross/src/covariance_functions/call_trace.hpp
@@ -34,6 +34,14 @@ struct CallAndValue {
   };
 };
 
+// All the digits of a value, so that small contributions don't look like zero
+// and the values in a trace add (and multiply) up.
+inline std::string trace_value(double value) {
+  std::ostringstream oss;
+  oss << std::setprecision(std::numeric_limits<double>::max_digits10) << value;
+  return oss.str();
+}
+
 /*
  * Takes two call traces and appends one to the other after
  * having applied a level offset delimiter.
@@ -108,7 +116,7 @@ public:
             typename std::enable_if<has_call_operator<CovFunc, X &, Y &>::value,
                                     int>::type = 0>
   std::vector<CallAndValue> get_trace(const X &x, const Y &y) const {
-    return {{cov_func_.get_name(), std::to_string(cov_func_(x, y))}};
+    return {{cov_func_.get_name(), trace_value(cov_func_(x, y))}};
   }
 
   template <typename X, typename Y,
@@ -134,9 +142,7 @@ public:
                                   Y &>::value,
                 int>::type = 0>
   std::string eval(const X &x, const Y &y) const {
-    std::ostringstream oss;
-    oss << cov_func_(x, y);
-    return oss.str();
+    return trace_value(cov_func_(x, y));
   }
 
   template <typename X, typename Y,
@@ -180,9 +186,7 @@ public:
                                   Y &>::value,
                 int>::type = 0>
   std::string eval(const X &x, const Y &y) const {
-    std::ostringstream oss;
-    oss << cov_func_(x, y);
-    return oss.str();
+    return trace_value(cov_func_(x, y));
   }
 
   template <typename X, typename Y,
-- 
2.43.0


From 8b2cd6f9a2ca558df6b8d6818862f13fc41fdecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:14 +0000
Subject: [PATCH 62/72] fix: add up the variogram score with more digits

With all pairs counted the rounding of the running sum alone exceeded what the
test of the scaling property allows.
---
 include/albatross/src/evaluation/prediction_metrics.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 9a9fd2d..1d8c5a3 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -486,7 +486,9 @@ inline double variogram_score(
                    "Variogram score weights must be a square matrix matched to "
                    "the size of the problem!");
 
-  double sum{0.};
+  // The scores of all pairs are many and of different size: add them up with
+  // more digits than the result has.
+  long double sum{0.};
   const double p = detail::variogram_score_order_p(order);
   for (Eigen::Index row = 0; row < truth.size() - 1; ++row) {
     const Eigen::Index rest = truth.size() - row - 1;
@@ -513,7 +515,7 @@ inline double variogram_score(
   }
 
   ALBATROSS_ASSERT(sum >= 0.0 && "Invalid (negative) variogram score!");
-  return sum;
+  return static_cast<double>(sum);
 }
 
 // The variogram score of a truth distribution measured with some
-- 
2.43.0


From c960b8d13fcf91717f8f3a7ff366ba54f9d3a9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 63/72] fix: scale both sides of a covariance between an input
 and a measurement

A ScalingTerm ignores the side its function is not defined for, but took a
Measurement of a scaled type for one: cov(measurement, input) lost one of the
two factors.
---
 .../covariance_functions/scaling_function.hpp | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/covariance_functions/scaling_function.hpp b/include/albatross/src/covariance_functions/scaling_function.hpp
index 62351ec..095400b 100644
--- a/include/albatross/src/covariance_functions/scaling_function.hpp
+++ b/include/albatross/src/covariance_functions/scaling_function.hpp
@@ -25,6 +25,22 @@ public:
   //   double _call_impl(const X &x) const;
 };
 
+namespace detail {
+
+// Whether a scaling function has something to say about a type, including
+// measurements of a type it scales (those are unwrapped by the callers).
+template <typename ScalingFunction, typename X>
+struct is_scaled_by : public has_valid_call_impl<ScalingFunction, X &> {};
+
+template <typename ScalingFunction, typename X>
+struct is_scaled_by<ScalingFunction, Measurement<X>> {
+  static constexpr bool value =
+      has_valid_call_impl<ScalingFunction, Measurement<X> &>::value ||
+      is_scaled_by<ScalingFunction, X>::value;
+};
+
+} // namespace detail
+
 /*
  * A scaling term is not actually a covariance function
  * in the rigorous sense.  It doesn't describe the uncertainty
@@ -91,7 +107,7 @@ public:
    */
   template <typename X, typename Y,
             typename std::enable_if<
-                (!has_valid_call_impl<ScalingFunction, X &>::value &&
+                (!detail::is_scaled_by<ScalingFunction, X>::value &&
                  has_valid_call_impl<ScalingFunction, Y &>::value),
                 int>::type = 0>
   double _call_impl(const X &, const Y &y) const {
@@ -101,7 +117,7 @@ public:
   template <typename X, typename Y,
             typename std::enable_if<
                 (has_valid_call_impl<ScalingFunction, X &>::value &&
-                 !has_valid_call_impl<ScalingFunction, Y &>::value),
+                 !detail::is_scaled_by<ScalingFunction, Y>::value),
                 int>::type = 0>
   double _call_impl(const X &x, const Y &) const {
     return this->scaling_function_._call_impl(x);
-- 
2.43.0


From 33ddd923cdcd15a7e5614859a50a3c9062e15da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:05 +0000
Subject: [PATCH 64/72] fix: normalize the positive gaussian prior when its
 mean is not zero

The density was twice that of the Gaussian whatever the mean, which only
integrates to one when the mean is zero, and the bounds could leave out the
mode.
---
 include/albatross/src/core/priors.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 3cf6423..fe64a37 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -158,7 +158,9 @@ public:
 
   double lower_bound() const override { return 0.; }
 
-  double upper_bound() const override { return 10. * sigma_; }
+  double upper_bound() const override {
+    return std::max(mu_, 0.) + 10. * sigma_;
+  }
 
   std::string get_name() const override {
     std::ostringstream oss;
@@ -168,7 +170,10 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) + LOG_2_;
+    // What is left of a Gaussian above zero.
+    const double mass = 0.5 * std::erfc(-mu_ / (sigma_ * std::sqrt(2.)));
+    return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) -
+           log(mass);
   }
 
   double mu_;
-- 
2.43.0


From 8baa553596198f94a0b0f84ab866446ef2277947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:18 +0000
Subject: [PATCH 65/72] fix: compare what priors hold, not only what they
 print, in operator!=

operator!= came from Prior, which compares names (rounded to a few digits):
two priors could be neither equal nor different.
---
 include/albatross/src/core/priors.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index fe64a37..8fa8fb4 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -86,6 +86,10 @@ public:
            other.upper_ == upper_;
   }
 
+  bool operator!=(const UniformPrior &other) const {
+    return !((*this) == other);
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "uniform[" << lower_ << "," << upper_ << "]";
@@ -132,6 +136,10 @@ public:
     return other.mu_ == mu_ && other.sigma_ == sigma_;
   }
 
+  bool operator!=(const GaussianPrior &other) const {
+    return !((*this) == other);
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "gaussian[" << mu_ << "," << sigma_ << "]";
@@ -156,6 +164,10 @@ public:
     return other.mu_ == mu_ && other.sigma_ == sigma_;
   }
 
+  bool operator!=(const PositiveGaussianPrior &other) const {
+    return !((*this) == other);
+  }
+
   double lower_bound() const override { return 0.; }
 
   double upper_bound() const override {
@@ -188,6 +200,10 @@ public:
     return other.mu_ == mu_ && other.sigma_ == sigma_;
   }
 
+  bool operator!=(const LogNormalPrior &other) const {
+    return !((*this) == other);
+  }
+
   std::string get_name() const override {
     std::ostringstream oss;
     oss << "log_normal[" << mu_ << "," << sigma_ << "]";
@@ -263,6 +279,10 @@ public:
     return priors_ == other.priors_;
   }
 
+  bool operator!=(const PriorContainer &other) const {
+    return !((*this) == other);
+  }
+
   template <typename PriorType> void operator=(const PriorType &prior) {
     priors_ = prior;
   }
-- 
2.43.0


From 0ab9dd2042015b9d2c05d86da9847176aeb33b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 66/72] fix: block symmetric matrices of different sizes are
 not equal

---
 include/albatross/src/linalg/block_symmetric.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/linalg/block_symmetric.hpp b/include/albatross/src/linalg/block_symmetric.hpp
index b58a941..259738c 100644
--- a/include/albatross/src/linalg/block_symmetric.hpp
+++ b/include/albatross/src/linalg/block_symmetric.hpp
@@ -105,7 +105,8 @@ inline Eigen::Matrix<_Scalar, _Rows, _Cols> BlockSymmetric<Solver>::solve(
 template <typename Solver>
 inline bool
 BlockSymmetric<Solver>::operator==(const BlockSymmetric &rhs) const {
-  return (A == rhs.A && Ai_B == rhs.Ai_B && S == rhs.S);
+  return (Ai_B.rows() == rhs.Ai_B.rows() && Ai_B.cols() == rhs.Ai_B.cols() &&
+          A == rhs.A && Ai_B == rhs.Ai_B && S == rhs.S);
 }
 
 template <typename Solver>
-- 
2.43.0


From 79a65358fe5f8c59a0d027cb61314bf2d7e492c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 67/72] fix: direct inverses of different sizes are not equal

---
 include/albatross/src/covariance_functions/representations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/covariance_functions/representations.hpp b/include/albatross/src/covariance_functions/representations.hpp
index f883aa8..a51f38b 100644
--- a/include/albatross/src/covariance_functions/representations.hpp
+++ b/include/albatross/src/covariance_functions/representations.hpp
@@ -108,7 +108,8 @@ struct DirectInverse {
   }
 
   bool operator==(const DirectInverse &rhs) const {
-    return (inverse_ == rhs.inverse_);
+    return (inverse_.rows() == rhs.inverse_.rows() &&
+            inverse_.cols() == rhs.inverse_.cols() && inverse_ == rhs.inverse_);
   }
 
   Eigen::Index rows() const { return inverse_.rows(); }
-- 
2.43.0


From c3f2df311c2c85ed63cdeab74c556fdde5ee7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:43 +0000
Subject: [PATCH 68/72] fix: least squares fits of different sizes are not
 equal

---
 include/albatross/src/models/least_squares.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/albatross/src/models/least_squares.hpp b/include/albatross/src/models/least_squares.hpp
index 23361e7..aa71197 100644
--- a/include/albatross/src/models/least_squares.hpp
+++ b/include/albatross/src/models/least_squares.hpp
@@ -20,7 +20,9 @@ template <typename ImplType> class LeastSquares;
 template <typename ImplType> struct Fit<LeastSquares<ImplType>> {
   Eigen::VectorXd coefs;
 
-  bool operator==(const Fit &other) const { return (coefs == other.coefs); }
+  bool operator==(const Fit &other) const {
+    return (coefs.size() == other.coefs.size() && coefs == other.coefs);
+  }
 };
 
 inline bool all_same_value(const Eigen::VectorXd &x) {
-- 
2.43.0


From 66243a0a82b8722f64a7def00fc38913f0678aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:34 +0000
Subject: [PATCH 69/72] fix: distributions of different sizes are not
 approximately equal

---
 include/albatross/src/core/distribution.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/albatross/src/core/distribution.hpp b/include/albatross/src/core/distribution.hpp
index a094f3c..5b31a45 100644
--- a/include/albatross/src/core/distribution.hpp
+++ b/include/albatross/src/core/distribution.hpp
@@ -110,6 +110,9 @@ struct MarginalDistribution : public DistributionBase<MarginalDistribution> {
   bool approximately_equal(
       const MarginalDistribution &other,
       double epsilon = cDefaultApproximatelyEqualEpsilon) const {
+    if (size() != other.size()) {
+      return false;
+    }
     const bool mean_approx_equal = mean.isApprox(other.mean, epsilon);
     const bool cov_approx_equal =
         covariance.diagonal().isApprox(other.covariance.diagonal(), epsilon);
@@ -185,6 +188,9 @@ struct JointDistribution : public DistributionBase<JointDistribution> {
   bool approximately_equal(
       const JointDistribution &other,
       const double epsilon = cDefaultApproximatelyEqualEpsilon) const {
+    if (size() != other.size()) {
+      return false;
+    }
     const bool mean_approx_equal = mean.isApprox(other.mean, epsilon);
     const bool cov_approx_equal =
         covariance.isApprox(other.covariance, epsilon);
-- 
2.43.0


From 6c52d4479df282be191b294af1652621e8e40899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:10 +0000
Subject: [PATCH 70/72] fix: the expected size of a normal variable of any
 scale

---
 include/albatross/src/evaluation/prediction_metrics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/albatross/src/evaluation/prediction_metrics.hpp b/include/albatross/src/evaluation/prediction_metrics.hpp
index 1d8c5a3..99c60bd 100644
--- a/include/albatross/src/evaluation/prediction_metrics.hpp
+++ b/include/albatross/src/evaluation/prediction_metrics.hpp
@@ -301,7 +301,7 @@ inline double expected_abs_normal_1(double mu, double sigma) {
     return std::abs(mu);
   }
 
-  const double normalized = std::fabs(mu) / std::max(1.0e-16, sigma);
+  const double normalized = std::fabs(mu) / sigma;
   return sigma * std::sqrt(2. / M_PI) *
              std::exp(-0.5 * normalized * normalized) +
          std::fabs(mu) * std::erf(normalized / std::sqrt(2.));
-- 
2.43.0


From b5ce05930eb347dcb4f1708d4bc9f8d1fb115fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:19 +0000
Subject: [PATCH 71/72] fix: saving a sparse fit dropped its numerical rank

Fits of sparse processes were always saved with class version zero, so the
numerical rank was never written, and saving overwrote that of the saved fit.
---
 include/albatross/src/models/sparse_gp.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/albatross/src/models/sparse_gp.hpp b/include/albatross/src/models/sparse_gp.hpp
index a29013d..83987ef 100644
--- a/include/albatross/src/models/sparse_gp.hpp
+++ b/include/albatross/src/models/sparse_gp.hpp
@@ -93,6 +93,9 @@ template <typename FeatureType> struct SparseGPFit {};
 template <typename FeatureType> struct Fit<SparseGPFit<FeatureType>> {
   using PermutationIndices = Eigen::Matrix<Eigen::Index, Eigen::Dynamic, 1>;
 
+  // The numerical rank is saved since version 2.
+  static const std::uint32_t serialization_version = 2;
+
   std::vector<FeatureType> train_features;
   Eigen::SerializableLDLT train_covariance;
   Eigen::MatrixXd R;
-- 
2.43.0


From 34dbd428c22511bb9d28b98de12720eb519b836f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:23:50 +0000
Subject: [PATCH 72/72] fix: the density of a positive Gaussian prior was
 infinite far below zero

---
 include/albatross/src/core/priors.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/albatross/src/core/priors.hpp b/include/albatross/src/core/priors.hpp
index 8fa8fb4..ed8879f 100644
--- a/include/albatross/src/core/priors.hpp
+++ b/include/albatross/src/core/priors.hpp
@@ -182,10 +182,21 @@ public:
 
   double log_pdf(double x) const override {
     double deviation = (x - mu_) / sigma_;
-    // What is left of a Gaussian above zero.
-    const double mass = 0.5 * std::erfc(-mu_ / (sigma_ * std::sqrt(2.)));
     return -0.5 * (LOG_2PI_ + 2 * log(sigma_) + deviation * deviation) -
-           log(mass);
+           log_mass_above_zero();
+  }
+
+  // The logarithm of what is left of a Gaussian above zero.
+  double log_mass_above_zero() const {
+    const double z = -mu_ / (sigma_ * std::sqrt(2.));
+    if (z < 25.) {
+      return log(0.5 * std::erfc(z));
+    }
+    // The mass itself gets too small to represent, use the asymptotic
+    // expansion of erfc.
+    const double w = 1. / (2. * z * z);
+    return -z * z - log(2. * z * std::sqrt(M_PI)) +
+           std::log1p(-w + 3. * w * w - 15. * w * w * w);
   }
 
   double mu_;
-- 
2.43.0


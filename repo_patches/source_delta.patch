From ff5a78b035942a19a21e5c5a32e446cf456ba14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 01/28] fix: make gate processing order independent of memory
 addresses

Preprocessor iterated over containers ordered or hashed by gate pointers,
so the preprocessed graph (and the order of reported products)
depended on the heap layout of the process.
---
 src/preprocessor.cc |  7 ++++---
 src/preprocessor.h  | 17 +++++++++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 9a03e14..a873c60 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -752,7 +752,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
   graph_->Clear<Pdag::kGateMark>();
   // The original gate and its multiple definitions.
-  std::unordered_map<GatePtr, std::vector<GateWeakPtr>> multi_def;
+  std::map<GatePtr, std::vector<GateWeakPtr>, GateIndexLess> multi_def;
   {
     GateSet unique_gates;
     DetectMultipleDefinitions(graph_->root(), &multi_def, &unique_gates);
@@ -777,7 +777,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
 void Preprocessor::DetectMultipleDefinitions(
     const GatePtr& gate,
-    std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+    std::map<GatePtr, std::vector<GateWeakPtr>, GateIndexLess>* multi_def,
     GateSet* unique_gates) noexcept {
   if (gate->mark())
     return;
@@ -1420,7 +1420,8 @@ void Preprocessor::FindOptionGroup(
       bool superset = boost::includes(candidate->first, group.back()->first);
       if (!superset)
         continue;  // Does not include all the arguments.
-      bool parents = boost::includes(group.back()->second, candidate->second);
+      bool parents = boost::includes(group.back()->second,
+                                     candidate->second, GateIndexLess{});
       if (!parents)
         continue;  // Parents do not match.
       group.push_back(candidate);
diff --git a/src/preprocessor.h b/src/preprocessor.h
index efc3e52..735e55c 100644
--- a/src/preprocessor.h
+++ b/src/preprocessor.h
@@ -21,6 +21,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <set>
 #include <unordered_map>
@@ -111,6 +112,17 @@ class Preprocessor : private boost::noncopyable {
  protected:
   class GateSet;  ///< Container of unique gates by semantics.
 
+  /// Reproducible ordering of gates (independent of memory addresses).
+  struct GateIndexLess {
+    /// @param[in] lhs  The left-hand-side gate.
+    /// @param[in] rhs  The right-hand-side gate.
+    ///
+    /// @returns true if the lhs gate has the lower index.
+    bool operator()(const GatePtr& lhs, const GatePtr& rhs) const {
+      return lhs->index() < rhs->index();
+    }
+  };
+
   /// Runs the default preprocessing
   /// that achieves the graph in a normal form.
   virtual void Run() noexcept = 0;
@@ -324,7 +336,7 @@ class Preprocessor : private boost::noncopyable {
   /// @warning Gate marks must be clear.
   void DetectMultipleDefinitions(
       const GatePtr& gate,
-      std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+      std::map<GatePtr, std::vector<GateWeakPtr>, GateIndexLess>* multi_def,
       GateSet* unique_gates) noexcept;
 
   /// Traverses the PDAG to detect modules.
@@ -475,7 +487,8 @@ class Preprocessor : private boost::noncopyable {
   /// common arguments of gates into new gates.
   struct MergeTable {
     using CommonArgs = std::vector<int>;  ///< Unique, sorted common arguments.
-    using CommonParents = std::set<GatePtr>;  ///< Unique common parent gates.
+    /// Unique common parent gates.
+    using CommonParents = std::set<GatePtr, GateIndexLess>;
     using Option = std::pair<CommonArgs, CommonParents>;  ///< One possibility.
     using OptionGroup = std::vector<Option*>;  ///< A set of best options.
     using MergeGroup = std::vector<Option>;  ///< Isolated group for processing.
-- 
2.43.0


From 63a129011fd2af748bdbd3d4de22114dc74bbd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:23 +0000
Subject: [PATCH 02/28] fix: make event-tree sequence order independent of
 memory addresses

The sequences of an event tree were collected in a hash map keyed by pointers,
so their order in reports depended on the heap layout of the process.
---
 src/event_tree_analysis.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/event_tree_analysis.h b/src/event_tree_analysis.h
index d1206e9..44d574c 100644
--- a/src/event_tree_analysis.h
+++ b/src/event_tree_analysis.h
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <string>
 #include <unordered_map>
@@ -76,12 +77,23 @@ class EventTreeAnalysis : public Analysis {
     std::unordered_map<std::string, bool> set_instructions;  ///< House events.
   };
 
+  /// Reproducible ordering of sequences (independent of memory addresses).
+  struct SequenceNameLess {
+    /// @param[in] lhs  The left-hand-side sequence.
+    /// @param[in] rhs  The right-hand-side sequence.
+    ///
+    /// @returns true if the lhs sequence goes before by its unique name.
+    bool operator()(const mef::Sequence* lhs, const mef::Sequence* rhs) const {
+      return lhs->name() < rhs->name();
+    }
+  };
+
   /// Walks the event tree paths and collects sequences.
   struct SequenceCollector {
     const mef::InitiatingEvent& initiating_event;  ///< The analysis initiator.
     mef::Context& context;  ///< The collection context.
     /// Sequences with collected paths.
-    std::unordered_map<const mef::Sequence*, std::vector<PathCollector>>
+    std::map<const mef::Sequence*, std::vector<PathCollector>, SequenceNameLess>
         sequences;
   };
 
-- 
2.43.0


From 0d2371ba2077afb98c7e04b944041c1dd143ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 03/28] fix: don't terminate on switching prime implicants off
 with the algorithm

The noexcept algorithm setter requested an approximation
while the prime implicants were still on,
so the resulting SettingsError terminated the program.
---
 src/settings.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index afd50ac..0f0c7d2 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -35,10 +35,10 @@ Settings& Settings::algorithm(Algorithm value) noexcept {
       approximation(Approximation::kNone);
       break;
     default:
-      if (approximation_ == Approximation::kNone)
-        approximation(Approximation::kRareEvent);
       if (prime_implicants_)
         prime_implicants(false);
+      if (approximation_ == Approximation::kNone)
+        approximation(Approximation::kRareEvent);
   }
   return *this;
 }
-- 
2.43.0


From 222a6a03045066088ed8cf08cf5b412dac7876dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 04/28] fix: reject NaN values of analysis settings

NaN passes the negated range comparisons,
so the cut-off, mission time, and time step accepted it.
---
 src/settings.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/settings.cc b/src/settings.cc
index 0f0c7d2..50aaba5 100644
--- a/src/settings.cc
+++ b/src/settings.cc
@@ -95,7 +95,7 @@ Settings& Settings::limit_order(int order) {
 }
 
 Settings& Settings::cut_off(double prob) {
-  if (prob < 0 || prob > 1)
+  if (!(prob >= 0 && prob <= 1))
     SCRAM_THROW(SettingsError(
         "The cut-off probability cannot be negative or more than 1."))
         << errinfo_value(std::to_string(prob));
@@ -141,7 +141,7 @@ Settings& Settings::seed(int s) {
 }
 
 Settings& Settings::mission_time(double time) {
-  if (time < 0)
+  if (!(time >= 0))
     SCRAM_THROW(SettingsError("The mission time cannot be negative."))
         << errinfo_value(std::to_string(time));
 
@@ -150,7 +150,7 @@ Settings& Settings::mission_time(double time) {
 }
 
 Settings& Settings::time_step(double time) {
-  if (time < 0)
+  if (!(time >= 0))
     SCRAM_THROW(SettingsError("The time step cannot be negative."))
         << errinfo_value(std::to_string(time));
   if (!time && safety_integrity_levels_)
-- 
2.43.0


From 1ab9e03efeb4436070c5b946ab59043e7eae5729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 05/28] fix: keep project file settings not given on the
 command line

The absence of command-line flags erased the analysis requests
of the project file instead of leaving them as configured.
---
 src/scram.cc | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/scram.cc b/src/scram.cc
index 523d778..370ee9b 100644
--- a/src/scram.cc
+++ b/src/scram.cc
@@ -208,7 +208,8 @@ void ConstructSettings(const po::variables_map& vm,
   } else if (vm.count("mocus")) {
     settings->algorithm(scram::core::Algorithm::kMocus);
   }
-  settings->prime_implicants(vm.count("prime-implicants"));
+  if (vm.count("prime-implicants"))
+    settings->prime_implicants(true);
   // Determine if the probability approximation is requested.
   if (vm.count("rare-event")) {
     assert(!vm.count("mcub"));
@@ -217,12 +218,16 @@ void ConstructSettings(const po::variables_map& vm,
     settings->approximation(scram::core::Approximation::kMcub);
   }
   SET("time-step", double, time_step);
-  settings->safety_integrity_levels(vm.count("sil"));
-
-  settings->probability_analysis(vm.count("probability"));
-  settings->importance_analysis(vm.count("importance"));
-  settings->uncertainty_analysis(vm.count("uncertainty"));
-  settings->ccf_analysis(vm.count("ccf"));
+  if (vm.count("sil"))
+    settings->safety_integrity_levels(true);
+  if (vm.count("probability"))
+    settings->probability_analysis(true);
+  if (vm.count("importance"))
+    settings->importance_analysis(true);
+  if (vm.count("uncertainty"))
+    settings->uncertainty_analysis(true);
+  if (vm.count("ccf"))
+    settings->ccf_analysis(true);
   SET("seed", int, seed);
   SET("limit-order", int, limit_order);
   SET("cut-off", double, cut_off);
-- 
2.43.0


From 8dfa281bf9120fdce686d627ba25eafe0953f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 06/28] fix: reject NaN in the domain checks of model values

Invalid expressions like pow(-1, 0.5) evaluate to NaN,
which passed the negated comparisons of the domain checks
and crashed the analysis or got into the results.
---
 src/alignment.cc  | 2 +-
 src/expression.cc | 6 +++---
 src/parameter.cc  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/alignment.cc b/src/alignment.cc
index c814b79..0f305f0 100644
--- a/src/alignment.cc
+++ b/src/alignment.cc
@@ -27,7 +27,7 @@ namespace scram::mef {
 
 Phase::Phase(std::string name, double time_fraction)
     : Element(std::move(name)), time_fraction_(time_fraction) {
-  if (time_fraction_ <= 0 || time_fraction_ > 1)
+  if (!(time_fraction_ > 0 && time_fraction_ <= 1))
     SCRAM_THROW(DomainError("The phase fraction must be in (0, 1]."))
         << errinfo_value(std::to_string(time_fraction_))
         << errinfo_element(Element::name(), kTypeString);
diff --git a/src/expression.cc b/src/expression.cc
index c22f9ad..4d1690d 100644
--- a/src/expression.cc
+++ b/src/expression.cc
@@ -74,7 +74,7 @@ std::string ToString(const Interval& interval) {
 
 void EnsureProbability(Expression* expression, const char* type) {
   double value = expression->value();
-  if (value < 0 || value > 1)
+  if (!(value >= 0 && value <= 1))
     SCRAM_THROW(DomainError("Invalid " + std::string(type) + " value"))
         << errinfo_value(std::to_string(value));
 
@@ -88,7 +88,7 @@ void EnsurePositive(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value <= 0)
+  if (!(value > 0))
     SCRAM_THROW(DomainError(description + " argument value must be positive."s))
         << errinfo_value(std::to_string(value));
 
@@ -103,7 +103,7 @@ void EnsureNonNegative(Expression* expression, const char* description) {
   using namespace std::string_literals;  // NOLINT
 
   double value = expression->value();
-  if (value < 0)
+  if (!(value >= 0))
     SCRAM_THROW(
         DomainError(description + " argument value cannot be negative."s))
         << errinfo_value(std::to_string(value));
diff --git a/src/parameter.cc b/src/parameter.cc
index 057f2b9..60dae7b 100644
--- a/src/parameter.cc
+++ b/src/parameter.cc
@@ -27,7 +27,7 @@ namespace scram::mef {
 MissionTime::MissionTime(double time, Units unit) : unit_(unit) { value(time); }
 
 void MissionTime::value(double time) {
-  if (time < 0)
+  if (!(time >= 0))
     SCRAM_THROW(LogicError("Mission time cannot be negative."));
   value_ = time;
 }
-- 
2.43.0


From 5df875ebcdcd7df161a40fef68d5fb156e717829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 07/28] fix: reject NaN numbers in XML input

Only infinities were rejected on conversion of XML values to numbers.
---
 src/xml.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml.h b/src/xml.h
index 9f3b85c..1d2b9aa 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -86,7 +86,7 @@ std::enable_if_t<std::is_arithmetic_v<T>, T> to(const std::string_view& value) {
     char* end_char = nullptr;
     double ret = std::strtod(value.data(), &end_char);
     int len = end_char - value.data();
-    if (len != value.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
+    if (len != value.size() || !std::isfinite(ret)) {
       SCRAM_THROW(ValidityError("Failed to interpret value to double"))
           << errinfo_value(std::string(value));
     }
-- 
2.43.0


From 5842449cf7bda3f8792d955d6501cb556f40334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 08/28] fix: detect write errors with buffered output

The error state of the output file was checked before its buffer was flushed,
so reports lost to a full device were still announced as success.
---
 src/xml_stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index f41ed6b..57dce23 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -428,6 +428,7 @@ class Stream {
   ///
   /// @post The exception is thrown only if no other exception is on flight.
   ~Stream() noexcept(false) {
+    std::fflush(out_.file());  // Detect errors with the buffered output.
     int err = std::ferror(out_.file());
     if (err && (std::uncaught_exceptions() == uncaught_exceptions_))
       SCRAM_THROW(IOError("FILE error on write")) << boost::errinfo_errno(err);
-- 
2.43.0


From 9ae44b2dbc727a7ab1aa5a560ffbe76c8aaec003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:50 +0000
Subject: [PATCH 09/28] fix: count a constant probability in one SIL bucket
 only

---
 src/probability_analysis.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index ecd3708..be21796 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -105,7 +105,8 @@ void PartitionY(const Points& points, T* y_fractions) {
       if (p_0 <= b_0 && b_1 <= p_1)  // Sub-range.
         return (b_1 - b_0) / k;
       if (b_0 <= p_0 && p_1 <= b_1)  // Super-range.
-        return t_1 - t_0;  // Covers the case when k == 0.
+        // The lower bound is excluded from the bucket except for 0.
+        return k == 0 && b_0 != 0 && b_0 == p_0 ? 0 : t_1 - t_0;
       // The cases of partially overlapping intervals.
       if (p_0 <= b_0 && b_0 <= p_1)  // b_1 is outside (>) of the range.
         return (p_1 - b_0) / k;
-- 
2.43.0


From 25f3e7f49028f0bbb94a3ef4cfaa3a28fcfa5b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:00 +0000
Subject: [PATCH 10/28] fix: sign of BDD importance factors when the root
 function is complemented

---
 src/importance_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 8e7bff9..094074d 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -79,6 +79,8 @@ double ImportanceAnalyzer<Bdd>::CalculateMif(int index) noexcept {
 
   int order = bdd_graph_->index_to_order().find(index)->second;
   double mif = CalculateMif(root, order, !original_mark);
+  if (bdd_graph_->root().complement)
+    mif = -mif;
   bdd_graph_->ClearMarks(original_mark);
   return mif;
 }
-- 
2.43.0


From c5b4e17e96c3f593bc0a7500e845e563e1bd6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 11/28] fix: house events set repeatedly in a phase keep a
 wrong state afterwards

---
 src/risk_analysis.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 114f29c..aed9aee 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -58,8 +58,9 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
         model_->mission_time().value(init_time);
         Analysis::settings().mission_time(init_time);
 
-        for (const std::pair<mef::HouseEvent*, bool>& entry : house_events)
-          entry.first->state(entry.second);
+        // An event can be set repeatedly; the oldest entry has its initial state.
+        for (auto it = house_events.rbegin(); it != house_events.rend(); ++it)
+          it->first->state(it->second);
       });
 
   if (context) {
-- 
2.43.0


From 64311268471789fcb85b020c94fa46c12c80f4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:33 +0000
Subject: [PATCH 12/28] fix: NaN statistics of uncertainty analysis with a
 single trial

---
 src/uncertainty_analysis.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 27b542a..303c082 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -110,7 +110,10 @@ void UncertaintyAnalysis::CalculateStatistics(
     distribution_.push_back(hist[i]);
   }
   mean_ = boost::accumulators::mean(acc);
-  sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
+  // The unbiased estimate is undefined for a single trial.
+  sigma_ = num_trials > 1
+               ? std::sqrt(num_trials * variance(acc) / (num_trials - 1))
+               : 0;
   error_factor_ = std::exp(1.96 * sigma_);
   confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
   confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
-- 
2.43.0


From ac479b75cf5bbcf2baec9606e62271fb6802eb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:14 +0000
Subject: [PATCH 13/28] fix: entity references in attributes and CDATA texts
 abort the program

---
 src/xml.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/xml.h b/src/xml.h
index 1d2b9aa..099012f 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -393,7 +393,8 @@ class Element {
 /// The parser options passed to the library parser.
 const int kParserOptions = XML_PARSE_XINCLUDE | XML_PARSE_NOBASEFIX |
                            XML_PARSE_NONET | XML_PARSE_NOXINCNODE |
-                           XML_PARSE_COMPACT | XML_PARSE_HUGE;
+                           XML_PARSE_COMPACT | XML_PARSE_HUGE |
+                           XML_PARSE_NOENT | XML_PARSE_NOCDATA;
 
 class Validator;  // Forward declaration for validation upon DOM constructions.
 
-- 
2.43.0


From dfdd08f555758aa4c18649a28e989be6b9811f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 14/28] fix: reject CCF groups without factors for common
 failures

---
 src/ccf_group.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index f5cf57c..f1490c8 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -128,6 +128,11 @@ void CcfGroup::Validate() const {
       EnsureProbability(f.second, "CCF group factor");
     }
 
+    if (factors_.back().first < 2) {
+      SCRAM_THROW(ValidityError(
+          "CCF group must have factors for failures of at least 2 members."));
+    }
+
     this->DoValidate();
 
   } catch (Error& err) {
-- 
2.43.0


From e041f745b6feb8b4018bcd4511be86fbf06e04a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 15/28] fix: reject NaN parameters of random deviates

---
 src/expression/random_deviate.cc | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index fb5e810..b09c862 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -42,7 +42,7 @@ UniformDeviate::UniformDeviate(Expression* min, Expression* max)
     : RandomDeviate({min, max}), min_(*min), max_(*max) {}
 
 void UniformDeviate::Validate() const {
-  if (min_.value() >= max_.value()) {
+  if (!(min_.value() < max_.value())) {
     SCRAM_THROW(
         ValidityError("Min value is more than max for Uniform distribution."));
   }
@@ -57,7 +57,7 @@ NormalDeviate::NormalDeviate(Expression* mean, Expression* sigma)
     : RandomDeviate({mean, sigma}), mean_(*mean), sigma_(*sigma) {}
 
 void NormalDeviate::Validate() const {
-  if (sigma_.value() <= 0) {
+  if (!(sigma_.value() > 0)) {
     SCRAM_THROW(DomainError("Standard deviation cannot be negative or zero."));
   }
 }
@@ -77,12 +77,12 @@ LognormalDeviate::LognormalDeviate(Expression* mu, Expression* sigma)
       flavor_(new LognormalDeviate::Normal(mu, sigma)) {}
 
 void LognormalDeviate::Logarithmic::Validate() const {
-  if (level_.value() <= 0 || level_.value() >= 1) {
+  if (!(level_.value() > 0 && level_.value() < 1)) {
     SCRAM_THROW(DomainError("The confidence level is not within (0, 1)."));
-  } else if (ef_.value() <= 1) {
+  } else if (!(ef_.value() > 1)) {
     SCRAM_THROW(DomainError(
         "The Error Factor for Log-Normal distribution cannot be less than 1."));
-  } else if (mean_.value() <= 0) {
+  } else if (!(mean_.value() > 0)) {
     SCRAM_THROW(DomainError(
         "The mean of Log-Normal distribution cannot be negative or zero."));
   }
@@ -108,7 +108,7 @@ double LognormalDeviate::Logarithmic::location() noexcept {
 }
 
 void LognormalDeviate::Normal::Validate() const {
-  if (sigma_.value() <= 0)
+  if (!(sigma_.value() > 0))
     SCRAM_THROW(DomainError("Standard deviation cannot be negative or zero."));
 }
 
@@ -120,11 +120,11 @@ GammaDeviate::GammaDeviate(Expression* k, Expression* theta)
     : RandomDeviate({k, theta}), k_(*k), theta_(*theta) {}
 
 void GammaDeviate::Validate() const {
-  if (k_.value() <= 0) {
+  if (!(k_.value() > 0)) {
     SCRAM_THROW(
         DomainError("The k shape parameter for Gamma distribution"
                     " cannot be negative or zero."));
-  } else if (theta_.value() <= 0) {
+  } else if (!(theta_.value() > 0)) {
     SCRAM_THROW(
         DomainError("The theta scale parameter for Gamma distribution"
                     " cannot be negative or zero."));
@@ -148,11 +148,11 @@ BetaDeviate::BetaDeviate(Expression* alpha, Expression* beta)
     : RandomDeviate({alpha, beta}), alpha_(*alpha), beta_(*beta) {}
 
 void BetaDeviate::Validate() const {
-  if (alpha_.value() <= 0) {
+  if (!(alpha_.value() > 0)) {
     SCRAM_THROW(
         DomainError("The alpha shape parameter for Beta distribution"
                     " cannot be negative or zero."));
-  } else if (beta_.value() <= 0) {
+  } else if (!(beta_.value() > 0)) {
     SCRAM_THROW(
         DomainError("The beta shape parameter for Beta distribution"
                     " cannot be negative or zero."));
@@ -189,11 +189,12 @@ Histogram::Histogram(std::vector<Expression*> boundaries,
 }
 
 void Histogram::Validate() const {
-  if (ext::any_of(weights_, [](const auto& expr) { return expr->value() < 0; }))
+  if (ext::any_of(weights_,
+                  [](const auto& expr) { return !(expr->value() >= 0); }))
     SCRAM_THROW(ValidityError("Histogram weights cannot be negative."));
 
   if (!boost::is_sorted(boundaries_, [](const auto& lhs, const auto& rhs) {
-        return lhs->value() <= rhs->value();
+        return !(lhs->value() > rhs->value());
       })) {
     SCRAM_THROW(ValidityError(
         "Histogram upper boundaries are not strictly increasing."));
-- 
2.43.0


From a8e7416de5580d892b05791a68c546ac51b47681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 16/28] fix: interval of beta deviates is the support of the
 distribution

---
 src/expression/random_deviate.cc | 5 +----
 src/expression/random_deviate.h  | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index b09c862..bfb45ce 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -25,7 +25,6 @@
 #include <functional>
 
 #include <boost/iterator/transform_iterator.hpp>
-#include <boost/math/special_functions/beta.hpp>
 #include <boost/math/special_functions/erf.hpp>
 #include <boost/math/special_functions/gamma.hpp>
 #include <boost/random/beta_distribution.hpp>
@@ -160,9 +159,7 @@ void BetaDeviate::Validate() const {
 }
 
 Interval BetaDeviate::interval() noexcept {
-  double high_estimate =
-      std::pow(boost::math::ibeta(alpha_.value(), beta_.value(), 0.99), -1);
-  return Interval::closed(0, high_estimate);
+  return Interval::closed(0, 1);
 }
 
 double BetaDeviate::DoSample() noexcept {
diff --git a/src/expression/random_deviate.h b/src/expression/random_deviate.h
index 3494f37..34d4afd 100644
--- a/src/expression/random_deviate.h
+++ b/src/expression/random_deviate.h
@@ -233,7 +233,7 @@ class BetaDeviate : public RandomDeviate {
     return alpha_mean / (alpha_mean + beta_.value());
   }
 
-  /// @returns 99 percentile.
+  /// @returns The support of the distribution.
   Interval interval() noexcept override;
 
  private:
-- 
2.43.0


From 7ed7444d6ba2d8db2ceb4137560c8995bcf1e5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 17/28] fix: sound intervals for non-monotonic expressions

---
 src/expression/boolean.h    | 68 +++++++++++++++++++++++++++++++++++++
 src/expression/numerical.cc | 63 ++++++++++++++++++++++++++++++++++
 src/expression/numerical.h  | 15 ++++++++
 3 files changed, 146 insertions(+)

diff --git a/src/expression/boolean.h b/src/expression/boolean.h
index fb3e81f..51d8eb6 100644
--- a/src/expression/boolean.h
+++ b/src/expression/boolean.h
@@ -36,4 +36,72 @@ using Gt = NaryExpression<std::greater<>, 2>;  ///< (>) test.
 using Leq = NaryExpression<std::less_equal<>, 2>;  ///< (<=) test.
 using Geq = NaryExpression<std::greater_equal<>, 2>;  ///< (>=) test.
 
+namespace detail {
+
+/// @returns true if all values in the interval are 0 (false).
+inline bool IsFalse(const Interval& interval) {
+  return interval.lower() == 0 && interval.upper() == 0;
+}
+
+/// @returns The interval of Boolean values.
+inline Interval BooleanInterval(bool can_be_false, bool can_be_true) {
+  return Interval::closed(can_be_false ? 0 : 1, can_be_true ? 1 : 0);
+}
+
+}  // namespace detail
+
+/// @cond Doxygen_With_Smart_Using_Declaration
+/// Interval specialization for the functions
+/// that are not monotonic in their arguments.
+/// @{
+template <>
+inline Interval Not::interval() noexcept {
+  Interval arg = args().front()->interval();
+  return detail::BooleanInterval(!detail::IsFalse(arg), Contains(arg, 0));
+}
+
+template <>
+inline Interval And::interval() noexcept {
+  bool can_be_false = false;
+  bool can_be_true = true;
+  for (Expression* arg : args()) {
+    Interval arg_interval = arg->interval();
+    can_be_false |= Contains(arg_interval, 0);
+    can_be_true &= !detail::IsFalse(arg_interval);
+  }
+  return detail::BooleanInterval(can_be_false, can_be_true);
+}
+
+template <>
+inline Interval Or::interval() noexcept {
+  bool can_be_false = true;
+  bool can_be_true = false;
+  for (Expression* arg : args()) {
+    Interval arg_interval = arg->interval();
+    can_be_false &= Contains(arg_interval, 0);
+    can_be_true |= !detail::IsFalse(arg_interval);
+  }
+  return detail::BooleanInterval(can_be_false, can_be_true);
+}
+
+template <>
+inline Interval Eq::interval() noexcept {
+  Interval one = args().front()->interval();
+  Interval two = args().back()->interval();
+  bool same = one.lower() == two.upper() && two.lower() == one.upper();
+  bool overlap = one.lower() <= two.upper() && two.lower() <= one.upper();
+  return detail::BooleanInterval(!same, overlap);
+}
+
+template <>
+inline Interval Df::interval() noexcept {
+  Interval one = args().front()->interval();
+  Interval two = args().back()->interval();
+  bool same = one.lower() == two.upper() && two.lower() == one.upper();
+  bool overlap = one.lower() <= two.upper() && two.lower() <= one.upper();
+  return detail::BooleanInterval(overlap, !same);
+}
+/// @}
+/// @endcond
+
 }  // namespace scram::mef
diff --git a/src/expression/numerical.cc b/src/expression/numerical.cc
index 7bd94f4..094e44f 100644
--- a/src/expression/numerical.cc
+++ b/src/expression/numerical.cc
@@ -20,6 +20,11 @@
 
 #include "numerical.h"
 
+#include <cmath>
+
+#include <algorithm>
+#include <limits>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -65,6 +70,64 @@ void Pow::Validate() const {
                     " positive exponent is required."));
   }
 }
+
+template <>
+Interval Abs::interval() noexcept {
+  Interval arg = args().front()->interval();
+  double lower = std::abs(arg.lower());
+  double upper = std::abs(arg.upper());
+  return Interval::closed(Contains(arg, 0) ? 0 : std::min(lower, upper),
+                          std::max(lower, upper));
+}
+
+template <>
+Interval Tan::interval() noexcept {
+  Interval arg = args().front()->interval();
+  auto branch = [](double x) {  // The index of the period between the poles.
+    return std::floor(x / ConstantExpression::kPi.value() + 0.5);
+  };
+  if (branch(arg.lower()) != branch(arg.upper())) {
+    double inf = std::numeric_limits<double>::infinity();
+    return Interval::closed(-inf, inf);
+  }
+  return Interval::closed(std::tan(arg.lower()), std::tan(arg.upper()));
+}
+
+template <>
+Interval Cosh::interval() noexcept {
+  Interval arg = args().front()->interval();
+  double lower = std::cosh(arg.lower());
+  double upper = std::cosh(arg.upper());
+  return Interval::closed(Contains(arg, 0) ? 1 : std::min(lower, upper),
+                          std::max(lower, upper));
+}
+
+template <>
+Interval Mod::interval() noexcept {
+  Interval arg_one = args().front()->interval();
+  Interval arg_two = args().back()->interval();
+  // The result has the sign of the dividend.
+  double bound =
+      std::max(std::abs(arg_two.lower()), std::abs(arg_two.upper()));
+  return Interval::closed(std::max(std::min(arg_one.lower(), 0.0), -bound),
+                          std::min(std::max(arg_one.upper(), 0.0), bound));
+}
+
+template <>
+Interval Pow::interval() noexcept {
+  Interval base = args().front()->interval();
+  Interval exponent = args().back()->interval();
+  double max_max = std::pow(base.upper(), exponent.upper());
+  double max_min = std::pow(base.upper(), exponent.lower());
+  double min_max = std::pow(base.lower(), exponent.upper());
+  double min_min = std::pow(base.lower(), exponent.lower());
+  auto [lower, upper] = std::minmax({max_max, max_min, min_max, min_min});
+  if (Contains(base, 0)) {  // The extremum of even powers.
+    lower = std::min(lower, 0.0);
+    upper = std::max(upper, 0.0);
+  }
+  return Interval::closed(lower, upper);
+}
 /// @endcond
 
 Mean::Mean(std::vector<Expression*> args) : ExpressionFormula(std::move(args)) {
diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index 786cba7..a29848a 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -185,6 +185,21 @@ template <>
 inline Interval Sin::interval() noexcept {
   return Interval::closed(-1, 1);
 }
+
+template <>
+Interval Abs::interval() noexcept;
+
+template <>
+Interval Tan::interval() noexcept;
+
+template <>
+Interval Cosh::interval() noexcept;
+
+template <>
+Interval Mod::interval() noexcept;
+
+template <>
+Interval Pow::interval() noexcept;
 /// @}
 /// @endcond
 
-- 
2.43.0


From 0c5b59796489d5f57d9fa4977e7e15f9eb14eba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:15 +0000
Subject: [PATCH 18/28] fix: cardinality connective with a single argument
 aborts the program

---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index 7c9e6a9..ceb844a 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -680,6 +680,8 @@ GatePtr Pdag::ConstructComplexGate(const mef::Formula& formula, bool ccf,
       auto well_form = [](Gate* atleast) {
         if (atleast->min_number() == 0) {
           atleast->MakeConstant(true);
+        } else if (atleast->args().size() == 1) {
+          atleast->type(kNull);
         } else if (atleast->min_number() == 1) {
           atleast->type(kOr);
         } else if (atleast->min_number() == atleast->args().size()) {
-- 
2.43.0


From 688eeaf9483edcf941afbdcca0ed06ad80ded66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 19/28] fix: min number of a connective over 65535 aborts the
 program

---
 src/event.cc | 6 ------
 src/event.h  | 4 ++--
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/event.cc b/src/event.cc
index 9658648..f6a4329 100644
--- a/src/event.cc
+++ b/src/event.cc
@@ -20,7 +20,6 @@
 
 #include "event.h"
 
-#include <limits>
 
 #include <boost/range/algorithm.hpp>
 
@@ -127,11 +126,6 @@ void Formula::Swap(ArgEvent current, ArgEvent other) {
 
 void Formula::ValidateMinMaxNumber(std::optional<int> min_number,
                                    std::optional<int> max_number) {
-  assert(!min_number ||
-         std::numeric_limits<decltype(min_number_)>::max() >= *min_number);
-  assert(!max_number ||
-         std::numeric_limits<decltype(max_number_)>::max() >= *max_number);
-
   if (min_number) {
     if (*min_number < 0)
       SCRAM_THROW(LogicError("The min number cannot be negative."))
diff --git a/src/event.h b/src/event.h
index 6abb861..87e6e37 100644
--- a/src/event.h
+++ b/src/event.h
@@ -362,8 +362,8 @@ class Formula {
   void ValidateNesting(const Arg& arg);
 
   Connective connective_;  ///< Logical connective.
-  std::uint16_t min_number_;  ///< Min number for "atleast"/"cardinality".
-  std::uint16_t max_number_;  ///< Max number for "cardinality".
+  int min_number_;  ///< Min number for "atleast"/"cardinality".
+  int max_number_;  ///< Max number for "cardinality".
   ArgSet args_;  ///< All events.
 };
 
-- 
2.43.0


From ebcb87f6eeb33ab214fdc13106824deb78306016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:25 +0000
Subject: [PATCH 20/28] fix: make top event order independent of memory
 addresses

---
 src/fault_tree.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fault_tree.cc b/src/fault_tree.cc
index 90e0614..edd1591 100644
--- a/src/fault_tree.cc
+++ b/src/fault_tree.cc
@@ -20,6 +20,8 @@
 
 #include "fault_tree.h"
 
+#include <algorithm>
+
 #include "error.h"
 
 namespace scram::mef {
@@ -75,6 +77,11 @@ void FaultTree::CollectTopEvents() {
       top_events_.push_back(gate);
     }
   }
+  // Reproducible ordering of top events (independent of memory addresses).
+  std::sort(top_events_.begin(), top_events_.end(),
+            [](const Gate* lhs, const Gate* rhs) {
+              return lhs->full_path() < rhs->full_path();
+            });
 }
 
 void FaultTree::MarkNonTopGates(Gate* gate,
-- 
2.43.0


From 7ec2428a2ec18ce7474844bf2c3bbb902474dc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:39 +0000
Subject: [PATCH 21/28] fix: unconditional paths make event-tree sequences
 certain

---
 src/event_tree_analysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 6bd06a6..ad44f37 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -114,6 +114,13 @@ void EventTreeAnalysis::Analyze() noexcept {
     std::vector<mef::FormulaPtr> gate_formulas;
     std::vector<mef::Expression*> arg_expressions;
     for (PathCollector& path_collector : sequence.second) {
+      if (path_collector.formulas.empty() &&
+          path_collector.expressions.empty()) {
+        // The unconditional path makes the sequence certain.
+        gate_formulas.clear();
+        arg_expressions.clear();
+        break;
+      }
       if (path_collector.formulas.size() == 1) {
         gate_formulas.push_back(std::move(path_collector.formulas.front()));
       } else if (path_collector.formulas.size() > 1) {
-- 
2.43.0


From 975145faad9ae2309d23799b358b1b3eddc37749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:03 +0000
Subject: [PATCH 22/28] fix: name the line of duplicates within a container

---
 src/initializer.cc | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/initializer.cc b/src/initializer.cc
index 8ec668b..bf90ee4 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -665,30 +665,32 @@ void Initializer::RegisterFaultTreeData(const xml::Element& ft_node,
                                         const std::string& base_path,
                                         Component* component) {
   for (const xml::Element& node : ft_node.children()) {
+    auto add = [&node, component](auto&& element) {
+      try {
+        component->Add(std::forward<decltype(element)>(element));
+      } catch (ValidityError& err) {
+        err << boost::errinfo_at_line(node.line());
+        throw;
+      }
+    };
+
     if (node.name() == "define-basic-event") {
-      component->Add(Register<BasicEvent>(node, base_path, component->role()));
+      add(Register<BasicEvent>(node, base_path, component->role()));
 
     } else if (node.name() == "define-parameter") {
-      component->Add(Register<Parameter>(node, base_path, component->role()));
+      add(Register<Parameter>(node, base_path, component->role()));
 
     } else if (node.name() == "define-gate") {
-      component->Add(Register<Gate>(node, base_path, component->role()));
+      add(Register<Gate>(node, base_path, component->role()));
 
     } else if (node.name() == "define-house-event") {
-      component->Add(Register<HouseEvent>(node, base_path, component->role()));
+      add(Register<HouseEvent>(node, base_path, component->role()));
 
     } else if (node.name() == "define-CCF-group") {
-      component->Add(Register<CcfGroup>(node, base_path, component->role()));
+      add(Register<CcfGroup>(node, base_path, component->role()));
 
     } else if (node.name() == "define-component") {
-      std::unique_ptr<Component> sub =
-          DefineComponent(node, base_path, component->role());
-      try {
-        component->Add(std::move(sub));
-      } catch (ValidityError& err) {
-        err << boost::errinfo_at_line(node.line());
-        throw;
-      }
+      add(DefineComponent(node, base_path, component->role()));
     }
   }
 }
-- 
2.43.0


From 56d04731ca86fa42233a953057b15c07d8775a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:53 +0000
Subject: [PATCH 23/28] fix: resolve references to CCF group members by local
 scope and path

---
 src/initializer.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/initializer.cc b/src/initializer.cc
index bf90ee4..11f99d5 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -1273,7 +1273,9 @@ void Initializer::ProcessCcfMembers(const xml::Element& members_node,
       err << boost::errinfo_at_line(event_node.line());
       throw;
     }
+    auto* member = basic_event.get();
     Register(std::move(basic_event), event_node);
+    path_basic_events_.insert(member);
   }
 }
 
-- 
2.43.0


From a4e2b432e674449bb02b2963a82d295a1457d386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:54 +0000
Subject: [PATCH 24/28] fix: name the line of invalid constants, CCF groups and
 private elements

---
 src/initializer.cc | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/initializer.cc b/src/initializer.cc
index 11f99d5..68bbe81 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -117,9 +117,16 @@ template <class T>
 std::enable_if_t<std::is_base_of_v<Role, T>, std::unique_ptr<T>>
 ConstructElement(const xml::Element& xml_element, const std::string& base_path,
                  RoleSpecifier base_role) {
-  auto element =
-      std::make_unique<T>(std::string(xml_element.attribute("name")), base_path,
-                          GetRole(xml_element.attribute("role"), base_role));
+  auto element = [&] {
+    try {
+      return std::make_unique<T>(
+          std::string(xml_element.attribute("name")), base_path,
+          GetRole(xml_element.attribute("role"), base_role));
+    } catch (ValidityError& err) {
+      err << boost::errinfo_at_line(xml_element.line());
+      throw;
+    }
+  }();
   AttachLabelAndAttributes(xml_element, element.get());
   return element;
 }
@@ -447,8 +454,14 @@ void Initializer::Define(const xml::Element& ccf_node, CcfGroup* ccf_group) {
   for (const xml::Element& element : ccf_node.children()) {
     std::string_view name = element.name();
     if (name == "distribution") {
-      ccf_group->AddDistribution(
-          GetExpression(*element.child(), ccf_group->base_path()));
+      Expression* distribution =
+          GetExpression(*element.child(), ccf_group->base_path());
+      try {
+        ccf_group->AddDistribution(distribution);
+      } catch (ValidityError& err) {
+        err << boost::errinfo_at_line(ccf_node.line());
+        throw;
+      }
 
     } else if (name == "factor") {
       DefineCcfFactor(element, ccf_group);
@@ -757,8 +770,13 @@ std::unique_ptr<Formula> Initializer::GetFormula(
 
   auto add_arg = [this, &arg_set, &add_event](const xml::Element& element) {
     if (element.name() == "constant") {
-      arg_set.Add(*element.attribute<bool>("value") ? &HouseEvent::kTrue
-                                                    : &HouseEvent::kFalse);
+      try {
+        arg_set.Add(*element.attribute<bool>("value") ? &HouseEvent::kTrue
+                                                      : &HouseEvent::kFalse);
+      } catch (ValidityError& err) {
+        err << boost::errinfo_at_line(element.line());
+        throw;
+      }
       return;
     }
 
-- 
2.43.0


From f590097603f7b7fd9132dac1b9b39fb8faee8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 25/28] fix: modules with constant functions abort the BDD
 construction

---
 src/bdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index acb4448..6559b78 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -155,7 +155,7 @@ Bdd::Function Bdd::ConvertGraph(
   }
   for (const Gate::ConstArg<Gate>& arg : gate.args<Gate>()) {
     Function res = ConvertGraph(arg.second, gates);
-    if (arg.second.module()) {
+    if (arg.second.module() && !res.vertex->terminal()) {
       args.push_back(
           {arg.first < 0, FindOrAddVertex(arg.second, kOne_, kOne_, true)});
     } else {
-- 
2.43.0


From 93f968defa717e1dd9851ad7071e9ef61fe0220c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:40 +0000
Subject: [PATCH 26/28] fix: sort BDD arguments with a strict weak ordering

---
 src/bdd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index 6559b78..fdb7e61 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -164,10 +164,10 @@ Bdd::Function Bdd::ConvertGraph(
     }
   }
   boost::sort(args, [](const Function& lhs, const Function& rhs) {
-    if (lhs.vertex->terminal())
-      return true;
     if (rhs.vertex->terminal())
       return false;
+    if (lhs.vertex->terminal())
+      return true;
     return Ite::Ref(lhs.vertex).order() > Ite::Ref(rhs.vertex).order();
   });
   auto it = args.cbegin();
-- 
2.43.0


From 39cc234e4efe3318912c6fccfc82516148e77e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:20 +0000
Subject: [PATCH 27/28] fix: sort ZBDD arguments with a strict weak ordering

---
 src/zbdd.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index ee63ff6..0740d21 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -350,10 +350,10 @@ Zbdd::VertexPtr Zbdd::ConvertGraph(
     }
   }
   boost::sort(args, [](const VertexPtr& lhs, const VertexPtr& rhs) {
-    if (lhs->terminal())
-      return true;
     if (rhs->terminal())
       return false;
+    if (lhs->terminal())
+      return true;
     return SetNode::Ref(lhs).order() > SetNode::Ref(rhs).order();
   });
   auto it = args.cbegin();
-- 
2.43.0


From be22e9d29c55afd36db0eb80961a11320b91ad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:41 +0000
Subject: [PATCH 28/28] fix: keep cut sets with vanishing non-coherent modules
 at the limit

---
 src/zbdd.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index 0740d21..d39552b 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -304,15 +304,17 @@ Zbdd::VertexPtr Zbdd::ConvertBddPrimeImplicants(
   Bdd::Function common = Bdd::Consensus()(bdd_graph, ite, complement);
   VertexPtr consensus = ConvertBdd(common.vertex, common.complement, bdd_graph,
                                    limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the product order.
+  // Unity modules may happen with minimal cut sets.
+  bool may_be_unity = ite->module() && !kSettings_.prime_implicants();
+  if (limit_order == 0 && !may_be_unity) {  // Cut-off on the product order.
     if (consensus->terminal())
       return consensus;
     return kEmpty_;
   }
   int sublimit = limit_order - 1;  // Assumes non-Unity element.
-  if (ite->module() && !kSettings_.prime_implicants()) {
+  if (may_be_unity) {
     assert(!ite->coherent() && "Only non-coherent modules through PI.");
-    sublimit += 1;  // Unity modules may happen with minimal cut sets.
+    sublimit += 1;
   }
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, sublimit, ites);
-- 
2.43.0


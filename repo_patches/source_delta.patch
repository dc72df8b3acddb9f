From 0819b936ad88ba4f832f45758bdca5538e69aff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 01/86] fix: parallel bulk add to an empty string dictionary
 compares against unwritten storage

The first string of a batch has index 0; when the dictionary is empty it is not
in storage yet, so it has to be compared through the in-memory batch.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index ccc267b..20f3b85 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1246,7 +1246,7 @@ uint32_t StringDictionary::computeBucketFromStorageAndMemory(
     }
     auto candidate_string_index = idToIndex(candidate_string_id);
     if (!materialize_hashes_ || (input_string_hash == hashById(candidate_string_id))) {
-      if (candidate_string_index > 0 &&
+      if (candidate_string_index >= 0 &&
           static_cast<size_t>(candidate_string_index) >= storage_high_water_mark) {
         // The candidate string is not in storage yet but in our string_memory_ids temp
         // buffer
-- 
2.43.0


From a41a38a3bcfdbd140a75c38536a6b00c539ff971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 02/86] fix: equality of nested string dictionaries ignores own
 strings

Own string ids span [base_generation_, base_generation_ + str_count_).
---
 omniscidb/StringDictionary/StringDictionary.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 20f3b85..db7edb4 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -142,7 +142,8 @@ bool StringDictionary::operator==(StringDictionary const& rhs) const {
     return false;
   }
 
-  for (auto str_id = base_generation_; str_id < static_cast<int64_t>(str_count_);
+  for (auto str_id = base_generation_;
+       str_id < base_generation_ + static_cast<int64_t>(str_count_);
        ++str_id) {
     if (getOwnedStringChecked(str_id) != rhs.getOwnedStringChecked(str_id)) {
       return false;
-- 
2.43.0


From f6db131cac2800cc1d43a5ebf8408d0ca88420b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 03/86] fix: concurrent copyStrings calls race on the strings
 cache

---
 omniscidb/StringDictionary/StringDictionary.cpp | 1 +
 omniscidb/StringDictionary/StringDictionary.h   | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index db7edb4..f45eeca 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1059,6 +1059,7 @@ std::vector<int32_t> StringDictionary::getRegexpLike(const std::string& pattern,
 std::vector<std::string> StringDictionary::copyStrings(int64_t generation) const {
   generation = generation >= 0 ? std::min(generation, static_cast<int64_t>(entryCount()))
                                : static_cast<int64_t>(entryCount());
+  std::lock_guard<std::mutex> strings_cache_lock(strings_cache_mutex_);
   if (!strings_cache_) {
     strings_cache_ = std::make_shared<std::vector<std::string>>();
     strings_cache_->reserve(entryCount());
diff --git a/omniscidb/StringDictionary/StringDictionary.h b/omniscidb/StringDictionary/StringDictionary.h
index c5a0cef..045693c 100644
--- a/omniscidb/StringDictionary/StringDictionary.h
+++ b/omniscidb/StringDictionary/StringDictionary.h
@@ -25,6 +25,7 @@
 #include <functional>
 #include <future>
 #include <map>
+#include <mutex>
 #include <string>
 #include <string_view>
 #include <tuple>
@@ -277,6 +278,7 @@ class StringDictionary {
   mutable std::map<std::string, int32_t> equal_cache_;
   mutable DictionaryCache<std::string, compare_cache_value_t> compare_cache_;
   mutable std::shared_ptr<std::vector<std::string>> strings_cache_;
+  mutable std::mutex strings_cache_mutex_;
 
   char* CANARY_BUFFER{nullptr};
   size_t canary_buffer_size = 0;
-- 
2.43.0


From 3ef403721ec23b177c962f1a59233625b3b8ab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 04/86] fix: string dictionary is left inconsistent when a bulk
 add exceeds the id range

The parallel path left ids of never stored strings in the hash table and the
serial path kept stale search caches for strings it had added.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index f45eeca..209ccc1 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -455,6 +455,8 @@ void StringDictionary::getOrAddBulk(const std::vector<String>& input_strings,
     // need to add record to dictionary
     // check there is room
     if (str_count_ > static_cast<size_t>(max_valid_int_value<T>())) {
+      // Strings added so far stay in the dictionary.
+      invalidateInvertedIndex();
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(str_count_, MAX_STRCOUNT)
@@ -542,6 +544,10 @@ void StringDictionary::getOrAddBulkParallel(const std::vector<String>& input_str
     // Did not find string, so need to add record to dictionary
     // First check there is room
     if (shadow_str_count > static_cast<size_t>(max_valid_int_value<T>())) {
+      // Strings added so far are already in the hash table, so they must be stored.
+      appendToStorageBulk(input_strings, string_memory_ids, sum_new_string_lengths);
+      str_count_ = shadow_str_count;
+      invalidateInvertedIndex();
       throw_encoding_error<T>(input_string, dict_ref_);
     }
     CHECK_LT(shadow_str_count, MAX_STRCOUNT)
-- 
2.43.0


From 5ff709e110b11ddd0affaf020492a527ecf1f7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 05/86] fix: untranslated string count includes the base count
 once per parallel task

The identity of a parallel reduction is used for every sub-range.
---
 omniscidb/StringDictionary/StringDictionary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 209ccc1..27e07ac 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -1608,7 +1608,7 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
       tbb::blocked_range<int32_t>(source_dict->base_generation_,
                                   num_source_strings,
                                   target_strings_per_task /* tbb grain_size */),
-      base_num_strings_not_translated,
+      (size_t)0,
       [&](const tbb::blocked_range<int32_t>& r, size_t num_strings_not_translated) {
         const int32_t start_idx = r.begin();
         const int32_t end_idx = r.end();
@@ -1641,7 +1641,7 @@ size_t StringDictionaryTranslator::buildDictionaryTranslationMap(
         return num_strings_not_translated;
       },
       std::plus<size_t>());
-  return total_num_strings_not_translated;
+  return base_num_strings_not_translated + total_num_strings_not_translated;
 }
 
 namespace fast {
-- 
2.43.0


From 209398e22c67945353e59079be58f428884b3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 06/86] fix: LIKE reads one byte past a pattern with an
 unterminated character class

---
 omniscidb/Utils/StringLike.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Utils/StringLike.cpp b/omniscidb/Utils/StringLike.cpp
index 4d00bc5..5e43e95 100644
--- a/omniscidb/Utils/StringLike.cpp
+++ b/omniscidb/Utils/StringLike.cpp
@@ -198,7 +198,7 @@ DEVICE static LikeStatus string_like_match(const char* str,
         slen--;
         pplen--;
         const char* x;
-        for (x = pp + 1; *x != ']' && pplen > 0; x++, pplen--) {
+        for (x = pp + 1; pplen > 0 && *x != ']'; x++, pplen--) {
           ;
         }
         if (pplen <= 0) {
-- 
2.43.0


From 2fd8004c40f51ece642922818c24fb885873f3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 07/86] fix: string comparison treats the end of a string as a
 zero byte

Distinct strings such as 'a' and 'a\0' compared equal.
---
 omniscidb/Utils/StringLike.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/Utils/StringLike.cpp b/omniscidb/Utils/StringLike.cpp
index 5e43e95..e6ce904 100644
--- a/omniscidb/Utils/StringLike.cpp
+++ b/omniscidb/Utils/StringLike.cpp
@@ -277,8 +277,9 @@ extern "C" RUNTIME_EXPORT DEVICE int32_t StringCompare(const char* s1,
     s2_++;
   }
 
-  unsigned char c1 = (s1_ < s1 + s1_len) ? (*(unsigned char*)s1_) : 0;
-  unsigned char c2 = (s2_ < s2 + s2_len) ? (*(unsigned char*)s2_) : 0;
+  // The end of a string orders before any character, including a zero byte.
+  int32_t c1 = (s1_ < s1 + s1_len) ? (*(unsigned char*)s1_) : -1;
+  int32_t c2 = (s2_ < s2 + s2_len) ? (*(unsigned char*)s2_) : -1;
 
   return c1 - c2;
 }
-- 
2.43.0


From f5f6e43147093dbc417cb663871cfcfc5f07f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:04 +0000
Subject: [PATCH 08/86] fix: unsupported string comparison operator is not
 reported

---
 omniscidb/StringDictionary/StringDictionary.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/StringDictionary/StringDictionary.cpp b/omniscidb/StringDictionary/StringDictionary.cpp
index 27e07ac..95e2f87 100644
--- a/omniscidb/StringDictionary/StringDictionary.cpp
+++ b/omniscidb/StringDictionary/StringDictionary.cpp
@@ -992,7 +992,7 @@ std::vector<int32_t> StringDictionary::getCompare(const std::string& pattern,
       }
     }
   } else {
-    std::runtime_error("Unsupported string comparison operator");
+    throw std::runtime_error("Unsupported string comparison operator");
   }
   return ret;
 }
-- 
2.43.0


From 0dfd9cafe254b26069be598099aa8f37fffef8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:54 +0000
Subject: [PATCH 09/86] fix: SQL rewriting uses offsets relative to the last
 skipped string literal

apply_shim passes match positions to the literal check and to the rewriting
callback as offsets into the whole query, but after a literal was skipped they
were relative to the end of that literal: the wrong text was replaced, and the
rewriting could go on forever.
---
 omniscidb/Shared/StringTransform.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omniscidb/Shared/StringTransform.cpp b/omniscidb/Shared/StringTransform.cpp
index 7578986..ff81a4f 100644
--- a/omniscidb/Shared/StringTransform.cpp
+++ b/omniscidb/Shared/StringTransform.cpp
@@ -40,6 +40,8 @@ void apply_shim(std::string& result,
     if (!boost::regex_search(start_it, end_it, what, reg_expr)) {
       break;
     }
+    // Match positions are relative to the beginning of the whole string.
+    what.set_base(result.cbegin());
     const auto next_start =
         inside_string_literal(what.position(), what.length(), lit_pos);
     if (next_start) {
-- 
2.43.0


From 1247a4217ea282cd55df988b52922cc29caa2502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:55 +0000
Subject: [PATCH 10/86] fix: string literals after an empty literal are found
 at wrong positions

find_string_literals assumed that every match starts where the previous one
ended, which does not hold when an empty literal lies in between.
---
 omniscidb/Shared/StringTransform.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/omniscidb/Shared/StringTransform.cpp b/omniscidb/Shared/StringTransform.cpp
index ff81a4f..10da56f 100644
--- a/omniscidb/Shared/StringTransform.cpp
+++ b/omniscidb/Shared/StringTransform.cpp
@@ -59,7 +59,6 @@ std::vector<std::pair<size_t, size_t>> find_string_literals(const std::string& q
   boost::regex literal_string_regex{R"(([^']+)('(?:[^']+|'')+'))", boost::regex::perl};
   boost::smatch what;
   auto it = query.begin();
-  auto prev_it = it;
   std::vector<std::pair<size_t, size_t>> positions;
   while (true) {
     try {
@@ -76,10 +75,8 @@ std::vector<std::pair<size_t, size_t>> find_string_literals(const std::string& q
       break;
     }
     CHECK_GT(what[1].length(), 0);
-    prev_it = it;
-    it += what.length();
-    positions.emplace_back(prev_it + what[1].length() - query.begin(),
-                           it - query.begin());
+    it = what[2].second;
+    positions.emplace_back(what[2].first - query.begin(), it - query.begin());
   }
   return positions;
 }
-- 
2.43.0


From f84babc5f987a72f7e690b42690d0519896352b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:55 +0000
Subject: [PATCH 11/86] fix: signed overflow when an interval range spans more
 than half of the type

---
 omniscidb/Shared/Intervals.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Shared/Intervals.h b/omniscidb/Shared/Intervals.h
index 187db3a..287c150 100644
--- a/omniscidb/Shared/Intervals.h
+++ b/omniscidb/Shared/Intervals.h
@@ -79,7 +79,7 @@ class Intervals {
 
   Intervals(T begin, T end, U n_workers)
       : begin_(begin)
-      , total_size_(begin < end && n_workers ? end - begin : 0)
+      , total_size_(begin < end && n_workers ? U(end) - U(begin) : 0)
       , quot_(n_workers ? total_size_ / n_workers : 0)
       , rem_(n_workers ? total_size_ % n_workers : 0) {
     static_assert(std::is_integral<T>::value);
-- 
2.43.0


From 9f94d4b2f5730678c812947586b22ae542fe5a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:37 +0000
Subject: [PATCH 12/86] fix: full month names are not recognised in dates

A missing comma shifted the table of month name suffixes by one month.
---
 omniscidb/Shared/DateTimeParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Shared/DateTimeParser.cpp b/omniscidb/Shared/DateTimeParser.cpp
index 33afc0e..25e6693 100644
--- a/omniscidb/Shared/DateTimeParser.cpp
+++ b/omniscidb/Shared/DateTimeParser.cpp
@@ -43,7 +43,7 @@ constexpr std::array<int, 12> month_prefixes{{int('j') << 16 | int('a') << 8 | i
                                               int('d') << 16 | int('e') << 8 | int('c')}};
 
 constexpr std::array<std::string_view, 13> month_suffixes{
-    {""
+    {"",
      "uary",
      "ruary",
      "ch",
-- 
2.43.0


From 68949d698ef38709f4d5c7907e5869f0b0b95ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:37 +0000
Subject: [PATCH 13/86] fix: dates outside 1970..2036 are printed wrongly in
 result set text

The string helpers used the fast calendar functions outside of their range, and
truncated negative high precision timestamps towards zero.
---
 omniscidb/Utils/ExtractStringFromTime.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/omniscidb/Utils/ExtractStringFromTime.cpp b/omniscidb/Utils/ExtractStringFromTime.cpp
index ffad9da..e6eeea2 100644
--- a/omniscidb/Utils/ExtractStringFromTime.cpp
+++ b/omniscidb/Utils/ExtractStringFromTime.cpp
@@ -32,13 +32,14 @@ std::string getStrDayFromSeconds(const int64_t seconds_tstamp) {
 
 std::string getStrMonthFromSeconds(const int64_t seconds_tstamp) {
   std::ostringstream oss;
-  oss << std::setfill('0') << std::setw(2) << extract_month_fast(seconds_tstamp);
+  oss << std::setfill('0') << std::setw(2) << extract_month(seconds_tstamp);
   return oss.str();
 }
 
 std::string getStrYearFromSeconds(const int64_t seconds_tstamp) {
   std::ostringstream oss;
-  oss << std::setfill('0') << std::setw(2) << extract_year_fast(seconds_tstamp);
+  oss << std::setfill('0') << std::setw(2)
+      << ExtractFromTime(hdk::ir::DateExtractField::kYear, seconds_tstamp);
   return oss.str();
 }
 
@@ -61,11 +62,11 @@ std::string getStrTimeFromSeconds(const int64_t seconds_tstamp) {
 std::string getStrTimeStampSecondsScaled(const int64_t tstamp,
                                          const int64_t seconds_scale) {
   std::ostringstream oss;
-  oss << getStrDateFromSeconds(tstamp / seconds_scale) << " "
-      << getStrTimeFromSeconds(tstamp / seconds_scale);
+  const int64_t seconds = floor_div(tstamp, seconds_scale);
+  oss << getStrDateFromSeconds(seconds) << " " << getStrTimeFromSeconds(seconds);
   if (seconds_scale > 1) {
     oss << "." << std::setfill('0') << std::setw(log10(seconds_scale))
-        << tstamp % seconds_scale;
+        << unsigned_mod(tstamp, seconds_scale);
   }
   return oss.str();
 }
-- 
2.43.0


From 2b164e9d97e3132b0f848d788b3786234609f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:26 +0000
Subject: [PATCH 14/86] fix: month based datediff of sub-second timestamps is
 off by one at the end of a month

---
 omniscidb/QueryEngine/DateTruncate.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/DateTruncate.cpp b/omniscidb/QueryEngine/DateTruncate.cpp
index 53b571c..32fe4cf 100644
--- a/omniscidb/QueryEngine/DateTruncate.cpp
+++ b/omniscidb/QueryEngine/DateTruncate.cpp
@@ -543,9 +543,25 @@ DateDiffHighPrecision(const hdk::ir::DateTruncField datepart,
       int64_t const start_seconds = floor_div(startdate, pow10[start_dim]);
       delta_ns -= (startdate - start_seconds * pow10[start_dim]) * pow10[9 - start_dim];
       int64_t const delta_s = end_seconds - start_seconds;
+      switch (datepart) {
+        case hdk::ir::DateTruncField::kMonth:
+        case hdk::ir::DateTruncField::kQuarter:
+        case hdk::ir::DateTruncField::kYear:
+        case hdk::ir::DateTruncField::kDecade:
+        case hdk::ir::DateTruncField::kCentury:
+        case hdk::ir::DateTruncField::kMillennium: {
+          // Calendar fields: shifting by a second could cross a month boundary, so let the
+          // sub-second part decide when the whole seconds of the day are equal.
+          EraTime const d = EraTime::make(end_seconds) - EraTime::make(start_seconds);
+          int const sod = d.sod != 0 ? d.sod : delta_ns < 0 ? -1 : 0 < delta_ns ? 1 : 0;
+          return EraTime{d.era, d.yoe, d.moy, d.dom, sod}.count(datepart);
+        }
+        default:
+          break;
+      }
       // sub-second values must be accounted for when calling DateDiff. Examples:
-      // 2000-02-15 12:00:00.006 to 2000-03-15 12:00:00.005 is 0 months.
-      // 2000-02-15 12:00:00.006 to 2000-03-15 12:00:00.006 is 1 month.
+      // 2000-02-15 12:00:00.006 to 2000-02-16 12:00:00.005 is 0 days.
+      // 2000-02-15 12:00:00.006 to 2000-02-16 12:00:00.006 is 1 day.
       int const adj_sec = 0 < delta_s && delta_ns < 0   ? -1
                           : delta_s < 0 && 0 < delta_ns ? 1
                                                         : 0;
-- 
2.43.0


From 82f77c994534998ce40f76fff503b1224e21d02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:14 +0000
Subject: [PATCH 15/86] fix: NULL IN a list of strings missing from the
 dictionary is false instead of NULL

---
 omniscidb/QueryEngine/InValuesIR.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/InValuesIR.cpp b/omniscidb/QueryEngine/InValuesIR.cpp
index 3c2a101..3fe0075 100644
--- a/omniscidb/QueryEngine/InValuesIR.cpp
+++ b/omniscidb/QueryEngine/InValuesIR.cpp
@@ -41,7 +41,9 @@ llvm::Value* CodeGenerator::codegen(const hdk::ir::InValues* expr,
   if (co.hoist_literals) {  // TODO(alex): remove this constraint
     auto in_vals_bitmap = createInValuesBitmap(expr, co);
     if (in_vals_bitmap) {
-      if (in_vals_bitmap->isEmpty()) {
+      // The result for a NULL needle is NULL even if there is nothing to match it with.
+      if (in_vals_bitmap->isEmpty() &&
+          (in_vals_bitmap->hasNull() || !expr_type->nullable())) {
         return in_vals_bitmap->hasNull()
                    ? cgen_state_->inlineIntNull(expr_type->ctx().boolean())
                    : result;
-- 
2.43.0


From 1c93973bda5c9ccaf381eb51cffd30971bf0752f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:28 +0000
Subject: [PATCH 16/86] fix: approximate count distinct with 32-bit counts
 aborts query execution

---
 omniscidb/Shared/TargetInfo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/TargetInfo.h b/omniscidb/Shared/TargetInfo.h
index 8b680e8..bb41ffa 100644
--- a/omniscidb/Shared/TargetInfo.h
+++ b/omniscidb/Shared/TargetInfo.h
@@ -149,7 +149,8 @@ inline TargetInfo get_target_info(const PointerType target_expr,
           agg_expr->aggType(),
           agg_type == hdk::ir::AggType::kCount
               ? ctx.integer((is_distinct || bigint_count) ? 8 : 4, nullable)
-              : agg_expr->type(),
+          : agg_type == hdk::ir::AggType::kApproxCountDistinct ? ctx.int64(nullable)
+                                                               : agg_expr->type(),
           agg_arg_type,
           agg_type == hdk::ir::AggType::kCount &&
                   (agg_arg_type->isString() || agg_arg_type->isArray())
-- 
2.43.0


From ddb58daa1f801e9289bb56d29e4beb641892b8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:28 +0000
Subject: [PATCH 17/86] fix: result set metadata synthesis binds references to
 elements of an empty vector

---
 omniscidb/ResultSetRegistry/ResultSetMetadata.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp b/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
index ba85b0a..396236a 100644
--- a/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
+++ b/omniscidb/ResultSetRegistry/ResultSetMetadata.cpp
@@ -108,9 +108,8 @@ ChunkMetadataMap synthesizeMetadata(const ResultSet* rows) {
       has_varlen = has_varlen || col_type->isVarLen();
     }
   }
-  if (has_varlen) {
-    varlen_lengths.resize(worker_count, std::vector<size_t>(rows->colCount(), 0));
-  }
+  varlen_lengths.resize(worker_count,
+                        std::vector<size_t>(has_varlen ? rows->colCount() : 0, 0));
 
   rows->moveToBegin();
   const auto do_work = [rows](const std::vector<TargetValue>& crt_row,
-- 
2.43.0


From dc0e3e3c642a044123f1a2fbc085d727d6b5be53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:38 +0000
Subject: [PATCH 18/86] fix: default constructed builder expression leaves the
 auto name flag uninitialised

---
 omniscidb/QueryBuilder/QueryBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryBuilder/QueryBuilder.cpp b/omniscidb/QueryBuilder/QueryBuilder.cpp
index bdf2b45..dd61f31 100644
--- a/omniscidb/QueryBuilder/QueryBuilder.cpp
+++ b/omniscidb/QueryBuilder/QueryBuilder.cpp
@@ -467,7 +467,7 @@ NullSortedPosition BuilderOrderByKey::parseNullPosition(const std::string& val)
   return BuilderSortField::parseNullPosition(val);
 }
 
-BuilderExpr::BuilderExpr() : builder_(nullptr) {}
+BuilderExpr::BuilderExpr() : builder_(nullptr), auto_name_(true) {}
 
 BuilderExpr::BuilderExpr(const QueryBuilder* builder,
                          ExprPtr expr,
-- 
2.43.0


From 762a669483d17f3ea165e9ddd02fa19673fe5c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:37 +0000
Subject: [PATCH 19/86] fix: FLOOR and CEIL of a decimal built by the query
 builder abort query execution

---
 omniscidb/QueryEngine/ExtensionsIR.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/ExtensionsIR.cpp b/omniscidb/QueryEngine/ExtensionsIR.cpp
index 7a961c1..c57e94a 100644
--- a/omniscidb/QueryEngine/ExtensionsIR.cpp
+++ b/omniscidb/QueryEngine/ExtensionsIR.cpp
@@ -505,9 +505,10 @@ llvm::Value* CodeGenerator::codegenFunctionOperWithCustomTypeHandling(
           func_name, {arg_lv, cgen_state_->llInt(exp_to_scale(arg_scale))});
       auto ret_type = function_oper->type();
       CHECK(ret_type->isDecimal());
-      CHECK_EQ(0, ret_type->as<hdk::ir::DecimalType>()->scale());
+      auto ret_scale = ret_type->as<hdk::ir::DecimalType>()->scale();
+      CHECK_LE(ret_scale, arg_scale);
       const auto result_lv = cgen_state_->ir_builder_.CreateSDiv(
-          covar_result_lv, cgen_state_->llInt(exp_to_scale(arg_scale)));
+          covar_result_lv, cgen_state_->llInt(exp_to_scale(arg_scale - ret_scale)));
       return endArgsNullcheck(bbs, result_lv, nullptr, function_oper, co);
     } else if (function_oper->name() == "ROUND" &&
                function_oper->arg(0)->type()->isDecimal()) {
-- 
2.43.0


From 54afbc1c88a9e788c40211be630ce7f8f9ba1075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:30 +0000
Subject: [PATCH 20/86] fix: approximate count distinct of an argument with an
 empty range overruns its registers

---
 omniscidb/QueryEngine/MemoryLayoutBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
index b0859a6..deabe74 100644
--- a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
+++ b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
@@ -462,7 +462,7 @@ CountDistinctDescriptors init_count_distinct_descriptors(
         count_distinct_descriptors.emplace_back(CountDistinctDescriptor{
             CountDistinctImplType::Bitmap,
             0,
-            64,
+            bitmap_sz_bits ? bitmap_sz_bits : 64,
             agg_info.agg_kind == hdk::ir::AggType::kApproxCountDistinct,
             device_type,
             1});
-- 
2.43.0


From 0bc9bd158db8bd56fc7d5efcf813301d1b98f48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:38 +0000
Subject: [PATCH 21/86] fix: standard deviation of a single value is zero
 instead of NULL

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index bc368f3..77a5469 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -178,10 +178,10 @@ class StdDevAggregate final : public CompoundAggregate {
     BuilderExpr cnt_ref(&builder_, cnt_ref_);
     BuilderExpr sum_ref(&builder_, sum_ref_);
     BuilderExpr quad_sum_ref(&builder_, quad_sum_ref_);
-    auto cnt_or_null =
-        builder_.ifThenElse(cnt_ref.eq(0), builder_.nullCst(cnt_ref.type()), cnt_ref);
-    auto cnt_m_1_or_null = builder_.ifThenElse(
-        cnt_ref.eq(1), builder_.nullCst(cnt_ref.type()), cnt_ref.sub(1));
+    auto null_cnt = builder_.nullCst(cnt_ref.type()->withNullable(true));
+    auto cnt_or_null = builder_.ifThenElse(cnt_ref.eq(0), null_cnt, cnt_ref);
+    auto cnt_m_1_or_null =
+        builder_.ifThenElse(cnt_ref.eq(1), null_cnt, cnt_ref.sub(1));
     auto stddev = quad_sum_ref.cast(ctx_.fp64())
                       .sub(sum_ref.mul(sum_ref).cast(ctx_.fp64()).div(cnt_or_null))
                       .div(cnt_m_1_or_null)
-- 
2.43.0


From 52f349c962ee81def1b54041f75f91b50112d833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:11 +0000
Subject: [PATCH 22/86] fix: simple projection of a global aggregate is
 executed as a projection of its input

---
 omniscidb/QueryEngine/WorkUnitBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WorkUnitBuilder.cpp b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
index 2884b86..73787e9 100644
--- a/omniscidb/QueryEngine/WorkUnitBuilder.cpp
+++ b/omniscidb/QueryEngine/WorkUnitBuilder.cpp
@@ -484,7 +484,7 @@ void WorkUnitBuilder::processProject(const ir::Project* proj) {
     input_rewriter_.addReplacement(proj, i, new_target_exprs[i]);
   }
   target_exprs_[rte_idx] = std::move(new_target_exprs);
-  if (groupby_exprs_.empty()) {
+  if (groupby_exprs_.empty() && !is_agg_) {
     groupby_exprs_.push_back(nullptr);
   }
 }
-- 
2.43.0


From 586208a8f0345cc36e12b6827e6a764da394c955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:43 +0000
Subject: [PATCH 23/86] fix: null date group keys are reported as 1970-01-01
 when group keys are compacted

---
 omniscidb/QueryEngine/MemoryLayoutBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
index deabe74..0f16c2d 100644
--- a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
+++ b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
@@ -684,7 +684,7 @@ int8_t pick_baseline_key_width(const RelAlgExecutionUnit& ra_exe_unit,
     const auto expr_range = getExpressionRange(groupby_expr.get(), query_infos, executor);
     compact_width = std::max(
         compact_width,
-        pick_baseline_key_component_width(expr_range, groupby_expr->type()->size()));
+        pick_baseline_key_component_width(expr_range, groupby_expr->type()->canonicalize()->size()));
   }
   return compact_width;
 }
-- 
2.43.0


From a13b7cf8cd3c0dfeb343283b794b68feeca35632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:43 +0000
Subject: [PATCH 24/86] fix: top-k following an average uses the initial value
 of another slot

---
 omniscidb/QueryEngine/QueryMemoryInitializer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/QueryMemoryInitializer.cpp b/omniscidb/QueryEngine/QueryMemoryInitializer.cpp
index 5b2793a..ab4f3f6 100644
--- a/omniscidb/QueryEngine/QueryMemoryInitializer.cpp
+++ b/omniscidb/QueryEngine/QueryMemoryInitializer.cpp
@@ -922,8 +922,10 @@ std::vector<int> QueryMemoryInitializer::allocateTopKBuffers(
       }
     }
 
-    if (query_mem_desc.getPaddedSlotWidthBytes(target_idx)) {
-      ++init_val_idx;
+    for (auto slot_idx : query_mem_desc.getColSlotContext().getSlotsForCol(target_idx)) {
+      if (query_mem_desc.getPaddedSlotWidthBytes(slot_idx)) {
+        ++init_val_idx;
+      }
     }
   }
   return topk_params;
-- 
2.43.0


From 6a3fa226b3784c7723f1a1ee9c4bbd7d48f18966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:38 +0000
Subject: [PATCH 25/86] fix: quantile and top-k of an input with no fragments
 to scan crash

---
 omniscidb/QueryEngine/Execute.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/Execute.cpp b/omniscidb/QueryEngine/Execute.cpp
index 156ca07..a49ff85 100644
--- a/omniscidb/QueryEngine/Execute.cpp
+++ b/omniscidb/QueryEngine/Execute.cpp
@@ -2527,6 +2527,7 @@ void fill_entries_for_empty_input(std::vector<TargetInfo>& target_infos,
                                   std::vector<int64_t>& entry,
                                   const std::vector<const hdk::ir::Expr*>& target_exprs,
                                   const QueryMemoryDescriptor& query_mem_desc,
+                                  RowSetMemoryOwner& row_set_mem_owner,
                                   bool bigint_count) {
   for (size_t target_idx = 0; target_idx < target_exprs.size(); ++target_idx) {
     const auto target_expr = target_exprs[target_idx];
@@ -2548,6 +2549,22 @@ void fill_entries_for_empty_input(std::vector<TargetInfo>& target_infos,
       } else {
         entry.push_back(inline_null_val(agg_info.type, float_argument_input));
       }
+    } else if (agg_info.agg_kind == hdk::ir::AggType::kQuantile) {
+      entry.push_back(reinterpret_cast<int64_t>(row_set_mem_owner.quantiles(1)));
+    } else if (agg_info.agg_kind == hdk::ir::AggType::kTopK) {
+      // A heap with no values has all its elements set to NULL.
+      auto elem_type = agg_info.agg_arg_type->canonicalize();
+      size_t elem_count = std::abs(agg_info.topk_param);
+      auto null_val = inline_null_val(elem_type, elem_type->isFp32());
+      int64_t inline_heap = 0;
+      auto heap = agg_info.topk_inline_buffer
+                      ? reinterpret_cast<int8_t*>(&inline_heap)
+                      : row_set_mem_owner.topKBuffer(elem_count * elem_type->size());
+      for (size_t i = 0; i < elem_count; ++i) {
+        memcpy(heap + i * elem_type->size(), &null_val, elem_type->size());
+      }
+      entry.push_back(agg_info.topk_inline_buffer ? inline_heap
+                                                  : reinterpret_cast<int64_t>(heap));
     } else {
       entry.push_back(inline_null_val(agg_info.type, float_argument_input));
     }
@@ -2581,14 +2598,15 @@ ResultSetPtr build_row_for_empty_input(
   }
   std::vector<TargetInfo> target_infos;
   std::vector<int64_t> entry;
+  CHECK(executor);
+  auto row_set_mem_owner = executor->getRowSetMemoryOwner();
+  CHECK(row_set_mem_owner);
   fill_entries_for_empty_input(target_infos,
                                entry,
                                target_exprs,
                                query_mem_desc,
+                               *row_set_mem_owner,
                                executor->getConfig().exec.group_by.bigint_count);
-  CHECK(executor);
-  auto row_set_mem_owner = executor->getRowSetMemoryOwner();
-  CHECK(row_set_mem_owner);
   auto rs = std::make_shared<ResultSet>(target_infos,
                                         device_type,
                                         query_mem_desc,
-- 
2.43.0


From 129de69bb2933e4f15cd226a48d38616aebe0ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:05 +0000
Subject: [PATCH 26/86] fix: ranges of sub-second date parts miss the seconds
 they include

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index be38911..a9b980b 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -843,11 +843,11 @@ ExpressionRange getExpressionRange(
     case hdk::ir::DateExtractField::kSecond:
       return ExpressionRange::makeIntRange(0, 60, 0, has_nulls);
     case hdk::ir::DateExtractField::kMilli:
-      return ExpressionRange::makeIntRange(0, 999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999, 0, has_nulls);
     case hdk::ir::DateExtractField::kMicro:
-      return ExpressionRange::makeIntRange(0, 999999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999999, 0, has_nulls);
     case hdk::ir::DateExtractField::kNano:
-      return ExpressionRange::makeIntRange(0, 999999999, 0, has_nulls);
+      return ExpressionRange::makeIntRange(0, 59999999999, 0, has_nulls);
     case hdk::ir::DateExtractField::kDayOfWeek:
       return ExpressionRange::makeIntRange(0, 6, 0, has_nulls);
     case hdk::ir::DateExtractField::kIsoDayOfWeek:
-- 
2.43.0


From ee3b061d450e6290e123e5a041832ab65c19e96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:32 +0000
Subject: [PATCH 27/86] fix: range of LIKE does not tell that the result can be
 NULL

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index a9b980b..a8a13c7 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -587,8 +587,7 @@ ExpressionRange getExpressionRange(const hdk::ir::LikeExpr* like_expr) {
   const auto& type = like_expr->type();
   CHECK(type->isBoolean());
   const auto& arg_type = like_expr->arg()->type();
-  return ExpressionRange::makeIntRange(
-      arg_type->nullable() ? inline_null_value<bool>() : 0, 1, 0, false);
+  return ExpressionRange::makeIntRange(0, 1, 0, arg_type->nullable());
 }
 
 ExpressionRange getExpressionRange(const hdk::ir::CaseExpr* case_expr,
-- 
2.43.0


From 6afc35a876a5304021ae590877c75a4c63411b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:32 +0000
Subject: [PATCH 28/86] fix: ranges of epoch and year of sub-second timestamps
 do not cover their values

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index a8a13c7..1ccd6cf 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -815,19 +815,34 @@ ExpressionRange getExpressionRange(
       const int64_t year_range_min =
           is_hpt
               ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
-                                arg_range.getIntMin() / hdk::ir::unitsPerSecond(unit))
+                                floor_div(arg_range.getIntMin(),
+                                          hdk::ir::unitsPerSecond(unit)))
               : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMin());
       const int64_t year_range_max =
           is_hpt
               ? ExtractFromTime(hdk::ir::DateExtractField::kYear,
-                                arg_range.getIntMax() / hdk::ir::unitsPerSecond(unit))
+                                floor_div(arg_range.getIntMax(),
+                                          hdk::ir::unitsPerSecond(unit)))
               : ExtractFromTime(hdk::ir::DateExtractField::kYear, arg_range.getIntMax());
       return ExpressionRange::makeIntRange(
           year_range_min, year_range_max, 0, arg_range.hasNulls());
     }
     case hdk::ir::DateExtractField::kEpoch:
-    case hdk::ir::DateExtractField::kDateEpoch:
-      return arg_range;
+    case hdk::ir::DateExtractField::kDateEpoch: {
+      if (arg_range.getType() == ExpressionRangeType::Invalid) {
+        return ExpressionRange::makeInvalidRange();
+      }
+      CHECK(arg_range.getType() == ExpressionRangeType::Integer);
+      const auto scale = is_hpt ? hdk::ir::unitsPerSecond(unit) : 1;
+      const int64_t epoch_min = floor_div(arg_range.getIntMin(), scale);
+      const int64_t epoch_max = floor_div(arg_range.getIntMax(), scale);
+      if (extract_field == hdk::ir::DateExtractField::kDateEpoch) {
+        return ExpressionRange::makeIntRange(
+            ExtractFromTime(extract_field, epoch_min), epoch_max, 0, has_nulls);
+      }
+      return ExpressionRange::makeIntRange(
+          epoch_min, epoch_max, is_hpt ? 0 : arg_range.getBucket(), has_nulls);
+    }
     case hdk::ir::DateExtractField::kQuarterDay:
     case hdk::ir::DateExtractField::kQuarter:
       return ExpressionRange::makeIntRange(1, 4, 0, has_nulls);
-- 
2.43.0


From b61dc8e2ba6d00e52087a5743749f71cc5d4b51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:37 +0000
Subject: [PATCH 29/86] fix: arithmetic over a group key above an aggregation
 aborts query compilation

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 1ccd6cf..6553b27 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -569,6 +569,10 @@ ExpressionRange getExpressionRange(
     const Executor* executor,
     boost::optional<std::list<hdk::ir::ExprPtr>> simple_quals) {
   const int rte_idx = col_expr->rteIdx();
+  if (rte_idx < 0 && dynamic_cast<const hdk::ir::Var*>(col_expr)) {
+    // Reference to a group key, there is no input table to take the range from.
+    return ExpressionRange::makeInvalidRange();
+  }
   CHECK_GE(rte_idx, 0);
   CHECK_LT(static_cast<size_t>(rte_idx), query_infos.size());
   bool is_outer_join_proj = rte_idx > 0 && executor->containsLeftDeepOuterJoin();
-- 
2.43.0


From 5a07afe4a1515173383209b6d95a6c912d02bbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:30 +0000
Subject: [PATCH 30/86] fix: range of a time unit conversion of an expression
 with unknown range aborts

---
 omniscidb/QueryEngine/ExpressionRange.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/QueryEngine/ExpressionRange.cpp b/omniscidb/QueryEngine/ExpressionRange.cpp
index 6553b27..c211c26 100644
--- a/omniscidb/QueryEngine/ExpressionRange.cpp
+++ b/omniscidb/QueryEngine/ExpressionRange.cpp
@@ -729,6 +729,9 @@ ExpressionRange getExpressionRange(
                                        : hdk::ir::TimeUnit::kSecond;
   if ((type->isTimestamp() && (type_unit != arg_unit)) ||
       (arg_type->isTimestamp() && type->isDate())) {
+    if (arg_range.getType() == ExpressionRangeType::Invalid) {
+      return ExpressionRange::makeInvalidRange();
+    }
     return getDateTimePrecisionCastRange(arg_range, arg_type, type);
   }
   switch (arg_range.getType()) {
-- 
2.43.0


From bc1ac280369f19e7259fccf07ebde421138ea2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:49 +0000
Subject: [PATCH 31/86] fix: fetching all fragments of a column overruns when
 some fragments are empty

---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 62fd71f..26ef1ac 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -342,7 +342,8 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
             CHECK(ab->getMemoryPtr());
             int8_t* col_buffer =
                 ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(write_ptrs[frag_id].first, col_buffer, write_ptrs[frag_id].second);
+            memcpy(
+                write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
           }
         });
 
-- 
2.43.0


From ede24ca8e3968c37ad7b68666d96bae382d03b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:53 +0000
Subject: [PATCH 32/86] fix: window count of a narrow column is truncated to
 the width of the column

---
 omniscidb/QueryEngine/WindowFunctionIR.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/WindowFunctionIR.cpp b/omniscidb/QueryEngine/WindowFunctionIR.cpp
index 67a9738..4469c26 100644
--- a/omniscidb/QueryEngine/WindowFunctionIR.cpp
+++ b/omniscidb/QueryEngine/WindowFunctionIR.cpp
@@ -345,7 +345,7 @@ llvm::Value* Executor::codegenAggregateWindowState(const CompilationOptions& co)
   }
   if (window_func->kind() == hdk::ir::WindowFunctionKind::Count) {
     return cgen_state_->ir_builder_.CreateLoad(
-        get_int_type(window_func_type->size() * 8, cgen_state_->context_),
+        get_int_type(window_func->type()->size() * 8, cgen_state_->context_),
         aggregate_state);
   }
   if (window_func_type->isFp32()) {
-- 
2.43.0


From be6a0cf4dcdd4c584e01ccc2168ff58dcc118c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:43 +0000
Subject: [PATCH 33/86] fix: parallel fetch of all fragments of a column
 deadlocks with concurrent kernels

---
 omniscidb/QueryEngine/ColumnFetcher.cpp | 66 +++++++++++++------------
 1 file changed, 35 insertions(+), 31 deletions(-)

diff --git a/omniscidb/QueryEngine/ColumnFetcher.cpp b/omniscidb/QueryEngine/ColumnFetcher.cpp
index 26ef1ac..3eca861 100644
--- a/omniscidb/QueryEngine/ColumnFetcher.cpp
+++ b/omniscidb/QueryEngine/ColumnFetcher.cpp
@@ -24,6 +24,7 @@
 #include "Shared/sqltypes.h"
 
 #include <tbb/parallel_for.h>
+#include <tbb/task_arena.h>
 #include <memory>
 
 namespace {
@@ -314,38 +315,41 @@ const int8_t* ColumnFetcher::getAllTableColumnFragments(
 
     CHECK(!write_ptrs.empty());
     size_t valid_frag_count = valid_fragments.size();
-    tbb::parallel_for(
-        tbb::blocked_range<size_t>(0, valid_frag_count),
-        [&](const tbb::blocked_range<size_t>& frag_ids) {
-          for (size_t v_frag_id = frag_ids.begin(); v_frag_id < frag_ids.end();
-               ++v_frag_id) {
-            std::list<std::shared_ptr<Chunk_NS::Chunk>> chunk_holder;
-            std::list<ChunkIter> chunk_iter_holder;
-            size_t frag_id = valid_fragments[v_frag_id];
-            const auto& fragment = (*fragments)[frag_id];
-            auto chunk_meta_it = fragment.getChunkMetadataMap().find(col_id);
-            CHECK(chunk_meta_it != fragment.getChunkMetadataMap().end());
-            std::shared_ptr<Chunk_NS::Chunk> chunk;
-            {
-              ChunkKey chunk_key{
-                  db_id, fragment.physicalTableId, col_id, fragment.fragmentId};
-              chunk = data_provider_->getChunk(col_info,
-                                               chunk_key,
-                                               Data_Namespace::CPU_LEVEL,
-                                               0,
-                                               chunk_meta_it->second->numBytes(),
-                                               chunk_meta_it->second->numElements());
-              std::lock_guard<std::mutex> chunk_list_lock(chunk_list_mutex_);
-              chunk_holder.push_back(chunk);
+    // A waiting thread must not pick up another task which needs the mutex held here.
+    tbb::this_task_arena::isolate([&]() {
+      tbb::parallel_for(
+          tbb::blocked_range<size_t>(0, valid_frag_count),
+          [&](const tbb::blocked_range<size_t>& frag_ids) {
+            for (size_t v_frag_id = frag_ids.begin(); v_frag_id < frag_ids.end();
+                 ++v_frag_id) {
+              std::list<std::shared_ptr<Chunk_NS::Chunk>> chunk_holder;
+              std::list<ChunkIter> chunk_iter_holder;
+              size_t frag_id = valid_fragments[v_frag_id];
+              const auto& fragment = (*fragments)[frag_id];
+              auto chunk_meta_it = fragment.getChunkMetadataMap().find(col_id);
+              CHECK(chunk_meta_it != fragment.getChunkMetadataMap().end());
+              std::shared_ptr<Chunk_NS::Chunk> chunk;
+              {
+                ChunkKey chunk_key{
+                    db_id, fragment.physicalTableId, col_id, fragment.fragmentId};
+                chunk = data_provider_->getChunk(col_info,
+                                                 chunk_key,
+                                                 Data_Namespace::CPU_LEVEL,
+                                                 0,
+                                                 chunk_meta_it->second->numBytes(),
+                                                 chunk_meta_it->second->numElements());
+                std::lock_guard<std::mutex> chunk_list_lock(chunk_list_mutex_);
+                chunk_holder.push_back(chunk);
+              }
+              auto ab = chunk->getBuffer();
+              CHECK(ab->getMemoryPtr());
+              int8_t* col_buffer =
+                  ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
+              memcpy(
+                  write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
             }
-            auto ab = chunk->getBuffer();
-            CHECK(ab->getMemoryPtr());
-            int8_t* col_buffer =
-                ab->getMemoryPtr();  // @TODO(alex) change to use ChunkIter
-            memcpy(
-                write_ptrs[v_frag_id].first, col_buffer, write_ptrs[v_frag_id].second);
-          }
-        });
+          });
+    });
 
     std::unique_ptr<ColumnarResults> merged_results(new ColumnarResults(
         {write_ptrs[0].first}, total_row_count, col_info->type, thread_idx));
-- 
2.43.0


From c7af92aa36f468e381454a63c5622f49f2afaea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:48 +0000
Subject: [PATCH 34/86] fix: window average loses rows when a running sum meets
 the NULL value of a narrow type

---
 omniscidb/QueryEngine/WindowFunctionIR.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/WindowFunctionIR.cpp b/omniscidb/QueryEngine/WindowFunctionIR.cpp
index 4469c26..abccc0c 100644
--- a/omniscidb/QueryEngine/WindowFunctionIR.cpp
+++ b/omniscidb/QueryEngine/WindowFunctionIR.cpp
@@ -106,8 +106,13 @@ std::string get_window_agg_name(const hdk::ir::WindowFunctionKind kind,
 const hdk::ir::Type* get_adjusted_window_type(
     const hdk::ir::WindowFunction* window_func) {
   const auto& args = window_func->args();
-  return ((window_func->kind() == hdk::ir::WindowFunctionKind::Count && !args.empty()) ||
-          window_func->kind() == hdk::ir::WindowFunctionKind::Avg)
+  if (window_func->kind() == hdk::ir::WindowFunctionKind::Avg) {
+    // Sum of narrow integers is accumulated as a 64-bit value, so NULL value of the
+    // narrow type is one of possible intermediate results and cannot be used for it.
+    const auto arg_type = args.front()->type();
+    return arg_type->isInteger() ? arg_type->ctx().int64(arg_type->nullable()) : arg_type;
+  }
+  return window_func->kind() == hdk::ir::WindowFunctionKind::Count && !args.empty()
              ? args.front()->type()
              : window_func->type();
 }
@@ -249,7 +254,8 @@ llvm::Value* Executor::codegenWindowFunctionAggregateCalls(llvm::Value* aggregat
     CodeGenerator code_generator(this, co.codegen_traits_desc);
     const auto arg_lvs = code_generator.codegen(args.front().get(), true, co);
     CHECK_EQ(arg_lvs.size(), size_t(1));
-    if (window_func->kind() == hdk::ir::WindowFunctionKind::Sum &&
+    if ((window_func->kind() == hdk::ir::WindowFunctionKind::Sum ||
+         window_func->kind() == hdk::ir::WindowFunctionKind::Avg) &&
         !window_func_type->isFloatingPoint()) {
       crt_val = code_generator.codegenCastBetweenIntTypes(
           arg_lvs.front(), args.front()->type(), window_func_type, false);
-- 
2.43.0


From 8b0fdf5e9f5383630c501352b097a12b3b1be2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:29 +0000
Subject: [PATCH 35/86] fix: a buffer deleted on unpin unlocks its mutex after
 it is destroyed

---
 omniscidb/DataMgr/BufferMgr/Buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/Buffer.h b/omniscidb/DataMgr/BufferMgr/Buffer.h
index 92a880e..3899ad6 100644
--- a/omniscidb/DataMgr/BufferMgr/Buffer.h
+++ b/omniscidb/DataMgr/BufferMgr/Buffer.h
@@ -135,9 +135,11 @@ class Buffer : public AbstractBuffer {
   }
 
   inline int unPin() override {
-    std::lock_guard<std::mutex> pin_lock(pin_mutex_);
+    std::unique_lock<std::mutex> pin_lock(pin_mutex_);
     int res = (--pin_count_);
     if (!res && delete_on_unpin_) {
+      // The mutex is a part of the object, so release it before deletion.
+      pin_lock.unlock();
       delete this;
     }
     return res;
-- 
2.43.0


From 34dfda960529a1ac2bb62daa1cc01cd92c331126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:29 +0000
Subject: [PATCH 36/86] fix: buffer pool index and epoch are accessed without
 the locks that guard them

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index fc710d4..89752cb 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -145,11 +145,14 @@ AbstractBuffer* BufferMgr::createBuffer(const ChunkKey& chunk_key,
   try {
     allocateBuffer(seg_it, actual_chunk_page_size, initial_size);
   } catch (const OutOfMemory&) {
-    auto buffer_it = chunk_index_.find(chunk_key);
-    CHECK(buffer_it != chunk_index_.end());
-    buffer_it->second->buffer =
-        nullptr;  // constructor failed for the buffer object so make sure to mark it
-                  // null so deleteBuffer doesn't try to delete it
+    {
+      std::lock_guard<std::mutex> lock(chunk_index_mutex_);
+      auto buffer_it = chunk_index_.find(chunk_key);
+      CHECK(buffer_it != chunk_index_.end());
+      buffer_it->second->buffer =
+          nullptr;  // constructor failed for the buffer object so make sure to mark it
+                    // null so deleteBuffer doesn't try to delete it
+    }
     deleteBuffer(chunk_key);
     throw;
   }
@@ -181,6 +184,7 @@ BufferList::iterator BufferMgr::evict(BufferList::iterator& evict_start,
     }
     num_pages += evict_it->num_pages;
     if (evict_it->mem_status == USED && evict_it->chunk_key.size() > 0) {
+      std::lock_guard<std::mutex> chunk_index_lock(chunk_index_mutex_);
       chunk_index_.erase(evict_it->chunk_key);
     }
     if (evict_it->buffer != nullptr) {
@@ -719,10 +723,9 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
       if (found_buffer) {
         CHECK(buffer_it->second->buffer);
         buffer_it->second->buffer->pin();
+        buffer_it->second->last_touched = buffer_epoch_++;
         sized_segs_lock.unlock();
 
-        buffer_it->second->last_touched = buffer_epoch_++;  // race
-
         // If we need to fetch a missing part of buffer, then lock it by
         // creating a conditional variable.
         if (buffer_it->second->buffer->size() < num_bytes) {
-- 
2.43.0


From ac9e97107c3c9e675a72112d0ad4dbe95c856110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:29 +0000
Subject: [PATCH 37/86] fix: a failed chunk fetch leaves the chunk pinned in
 the pool and later requests blocked

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 28 +++++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index 89752cb..faef519 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -732,13 +732,21 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           in_progress_buffer_cvs_[key] = std::make_shared<std::condition_variable>();
 
           chunk_index_lock.unlock();
-          // need to fetch part of buffer we don't have - up to numBytes
-          parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
 
-          chunk_index_lock.lock();
-          in_progress_buffer_cvs_[key]->notify_all();
-          in_progress_buffer_cvs_.erase(key);
-          chunk_index_lock.unlock();
+          ScopeGuard sg([&]() {
+            chunk_index_lock.lock();
+            in_progress_buffer_cvs_[key]->notify_all();
+            in_progress_buffer_cvs_.erase(key);
+            chunk_index_lock.unlock();
+          });
+
+          // need to fetch part of buffer we don't have - up to numBytes
+          try {
+            parent_mgr_->fetchBuffer(key, buffer_it->second->buffer, num_bytes);
+          } catch (...) {
+            buffer_it->second->buffer->unPin();
+            throw;
+          }
         } else {
           chunk_index_lock.unlock();
         }
@@ -766,7 +774,13 @@ AbstractBuffer* BufferMgr::getBuffer(const ChunkKey& key, const size_t num_bytes
           AbstractBuffer* buffer = createBuffer(key, page_size_, num_bytes);
           // This should put buffer in a BufferSegment.
           // ColumnarConversionNotSupported exception can be thrown here.
-          parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          try {
+            parent_mgr_->fetchBuffer(key, buffer, num_bytes);
+          } catch (...) {
+            // The buffer has no valid content and nobody else can hold it.
+            deleteBuffer(key);
+            throw;
+          }
           res = buffer;
         }
       }
-- 
2.43.0


From 02e29af2e4fa10c3f110fb09ed79a920c21a16b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:26 +0000
Subject: [PATCH 38/86] fix: running out of memory before the first slab is
 allocated reads a missing slab

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index faef519..b93469b 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -378,7 +378,7 @@ BufferList::iterator BufferMgr::findFreeBuffer(size_t num_bytes) {
   // We're going for lowest score here, like golf
   // This is because score is the sum of the lastTouched score for all pages evicted.
   // Evicting fewer pages and older pages will lower the score
-  BufferList::iterator best_eviction_start = slab_segments_[0].end();
+  BufferList::iterator best_eviction_start;
   int best_eviction_start_slab = -1;
   int slab_num = 0;
 
@@ -436,7 +436,7 @@ BufferList::iterator BufferMgr::findFreeBuffer(size_t num_bytes) {
       //}
     }
   }
-  if (best_eviction_start == slab_segments_[0].end()) {
+  if (best_eviction_start_slab < 0) {
     LOG(ERROR) << "ALLOCATION failed to find " << num_bytes << "B throwing out of memory "
                << getStringMgrType() << ":" << device_id_;
     VLOG(2) << printSlabs();
-- 
2.43.0


From 63e7eef688ff0f6d35f8d0760c35d6306a9a3237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:26 +0000
Subject: [PATCH 39/86] fix: a chunk of the parent pool stays pinned when the
 child pool cannot grow its copy

---
 omniscidb/DataMgr/BufferMgr/BufferMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
index b93469b..382f133 100644
--- a/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
+++ b/omniscidb/DataMgr/BufferMgr/BufferMgr.cpp
@@ -828,8 +828,9 @@ void BufferMgr::fetchBuffer(const ChunkKey& key,
       }
     }
   }
+  // The copy might fail to reserve memory in the destination buffer.
+  ScopeGuard unpin_guard([buffer]() { buffer->unPin(); });
   buffer->copyTo(dest_buffer, num_bytes);
-  buffer->unPin();
 }
 
 int BufferMgr::getBufferId() {
-- 
2.43.0


From 395be0eeeb2d094a62ba3cb987868a961b4f8b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:50 +0000
Subject: [PATCH 40/86] fix: eviction makes a virtual call on a buffer still
 under construction in another thread

---
 omniscidb/DataMgr/BufferMgr/Buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/DataMgr/BufferMgr/Buffer.h b/omniscidb/DataMgr/BufferMgr/Buffer.h
index 3899ad6..cc07e81 100644
--- a/omniscidb/DataMgr/BufferMgr/Buffer.h
+++ b/omniscidb/DataMgr/BufferMgr/Buffer.h
@@ -144,7 +144,8 @@ class Buffer : public AbstractBuffer {
     }
     return res;
   }
-  inline int getPinCount() override {
+  // Final: other threads might call it while a derived class is being constructed.
+  inline int getPinCount() final {
     std::lock_guard<std::mutex> pin_lock(pin_mutex_);
     return (pin_count_);
   }
-- 
2.43.0


From 654c389b042020f588ba14d48b31ce1d9fdeb541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:27 +0000
Subject: [PATCH 41/86] fix: statistics of narrow time chunks start from a
 truncated empty range

---
 omniscidb/DataMgr/FixedLengthEncoder.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/DataMgr/FixedLengthEncoder.h b/omniscidb/DataMgr/FixedLengthEncoder.h
index 53e108a..a4232af 100644
--- a/omniscidb/DataMgr/FixedLengthEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthEncoder.h
@@ -85,14 +85,14 @@ class FixedLengthEncoder : public Encoder {
 
     std::tie(dataMin, dataMax, has_nulls) = tbb::parallel_reduce(
         tbb::blocked_range(size_t(0), num_elements),
-        std::tuple(static_cast<V>(dataMin), static_cast<V>(dataMax), has_nulls),
+        std::tuple(dataMin, dataMax, has_nulls),
         [&](const auto& range, auto init) {
           auto [min, max, nulls] = init;
           for (size_t i = range.begin(); i < range.end(); i++) {
             if (data[i] != inline_null_value<V>()) {
               if (!fixlen_array || data[i] != inline_null_array_value<V>()) {
-                min = std::min(min, data[i]);
-                max = std::max(max, data[i]);
+                min = std::min(min, static_cast<T>(data[i]));
+                max = std::max(max, static_cast<T>(data[i]));
               }
             } else {
               nulls = true;
-- 
2.43.0


From ab230e16033e1460e113aa6ea850e3a8da2beb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:27 +0000
Subject: [PATCH 42/86] fix: statistics assigned to an array chunk are
 discarded by the next update

---
 omniscidb/DataMgr/ArrayNoneEncoder.h            | 1 +
 omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/omniscidb/DataMgr/ArrayNoneEncoder.h b/omniscidb/DataMgr/ArrayNoneEncoder.h
index 040f3bc..e84872e 100644
--- a/omniscidb/DataMgr/ArrayNoneEncoder.h
+++ b/omniscidb/DataMgr/ArrayNoneEncoder.h
@@ -141,6 +141,7 @@ class ArrayNoneEncoder : public Encoder {
     elem_min = stats.min;
     elem_max = stats.max;
     has_nulls = stats.has_nulls;
+    initialized = true;
     return true;
   }
 
diff --git a/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h b/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
index 0002472..af83a9f 100644
--- a/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
+++ b/omniscidb/DataMgr/FixedLengthArrayNoneEncoder.h
@@ -191,6 +191,7 @@ class FixedLengthArrayNoneEncoder : public Encoder {
     elem_min = stats.min;
     elem_max = stats.max;
     has_nulls = stats.has_nulls;
+    initialized = true;
     return true;
   }
 
-- 
2.43.0


From 0dd37500b4023fe35bb73d60b16c930a0eaf502e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:07 +0000
Subject: [PATCH 43/86] fix: t-digest writes past its centroids when many rows
 fall in the last bin

---
 omniscidb/Shared/approx_quantile.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/approx_quantile.h b/omniscidb/Shared/approx_quantile.h
index 5d8b885..b4e5205 100644
--- a/omniscidb/Shared/approx_quantile.h
+++ b/omniscidb/Shared/approx_quantile.h
@@ -617,7 +617,10 @@ TDigest<RealType, IndexType>::maxCardinality(IndexType const sum,
   } else {
     // Whitepaper scaling function k=1.
     RealType const x = 2.0 * sum / total_weight - 1;  // = 2 q_{i-1} - 1
-    RealType const f_inv = 0.5 + 0.5 * std::sin(c + std::asin(x));
+    // f_inv is 1 for the last bin; sin() would start to decrease beyond pi/2.
+    constexpr RealType half_pi = 1.570796326794896619231321691639751442e+00;
+    RealType const angle = c + std::asin(x);
+    RealType const f_inv = angle < half_pi ? 0.5 + 0.5 * std::sin(angle) : RealType(1);
     constexpr RealType eps = 1e-5;  // round-off epsilon for floor().
     IndexType const dsum = static_cast<IndexType>(total_weight * f_inv + eps);
     return dsum < sum ? 0 : dsum - sum;
-- 
2.43.0


From ef422a16b5118032fa17d04c12c6ff74ff42c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:07 +0000
Subject: [PATCH 44/86] fix: quantile iterator reads past the chunk list when
 it reaches the end

---
 omniscidb/Shared/quantile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/Shared/quantile.h b/omniscidb/Shared/quantile.h
index 1e8c778..122cb29 100644
--- a/omniscidb/Shared/quantile.h
+++ b/omniscidb/Shared/quantile.h
@@ -73,7 +73,7 @@ class ChunkedArray {
       if (i < 0) {
         operator-=(-i);
       } else {
-        while (true) {
+        while (i) {
           int64_t rem = int64_t((*chunks_)[chunk_idx_].max_elems - chunk_offs_);
           if (rem > i) {
             chunk_offs_ += i;
-- 
2.43.0


From 18ee146ca70a88b7b58e8c111d5fc3a6bd794a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:20 +0000
Subject: [PATCH 45/86] fix: quantile interpolation overflows for distant
 integer values

---
 omniscidb/Shared/quantile.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/omniscidb/Shared/quantile.h b/omniscidb/Shared/quantile.h
index 122cb29..f43ed73 100644
--- a/omniscidb/Shared/quantile.h
+++ b/omniscidb/Shared/quantile.h
@@ -331,7 +331,14 @@ class Quantile {
       double diff_coeff =
           interpolation == hdk::ir::Interpolation::kMidpoint ? 0.5 : pos - floor(pos);
       auto right_value = *right_iter;
-      res = static_cast<ResultType>(left_value + (right_value - left_value) * diff_coeff);
+      double diff;
+      if constexpr (std::is_integral_v<ValueType>) {
+        // The difference might not fit ValueType.
+        diff = static_cast<uint64_t>(right_value) - static_cast<uint64_t>(left_value);
+      } else {
+        diff = right_value - left_value;
+      }
+      res = static_cast<ResultType>(left_value + diff * diff_coeff);
     } else {
       res = static_cast<ResultType>(left_value);
     }
-- 
2.43.0


From 68233321440978c4039cb9eac57e5f7bbef45aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:00 +0000
Subject: [PATCH 46/86] fix: null-safe string join does not translate the id
 next to the outer column's range

---
 .../JoinHashTable/Runtime/HashJoinRuntime.cpp            | 9 +++------
 .../JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp         | 5 +----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
index 8d45b12..6417443 100644
--- a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.cpp
@@ -222,8 +222,7 @@ DEVICE auto fill_hash_join_buff_impl(int32_t* buff,
       }
     }
 #ifndef __CUDACC__
-    if (sd_inner_to_outer_translation_map &&
-        (!type_info.uses_bw_eq || elem != type_info.translated_null_val)) {
+    if (sd_inner_to_outer_translation_map && item.element != type_info.null_val) {
       const auto outer_id = map_str_id_to_outer_dict(
           elem, type_info.min_val, type_info.max_val, sd_inner_to_outer_translation_map);
       if (outer_id == StringDictionary::INVALID_STR_ID) {
@@ -617,8 +616,7 @@ DEVICE void count_matches_impl(int32_t* count_buff,
       }
     }
 #ifndef __CUDACC__
-    if (sd_inner_to_outer_translation_map &&
-        (!type_info.uses_bw_eq || elem != type_info.translated_null_val)) {
+    if (sd_inner_to_outer_translation_map && item.element != type_info.null_val) {
       const auto outer_id = map_str_id_to_outer_dict(
           elem, type_info.min_val, type_info.max_val, sd_inner_to_outer_translation_map);
       if (outer_id == StringDictionary::INVALID_STR_ID) {
@@ -804,8 +802,7 @@ DEVICE void fill_row_ids_impl(int32_t* buff,
       }
     }
 #ifndef __CUDACC__
-    if (sd_inner_to_outer_translation_map &&
-        (!type_info.uses_bw_eq || elem != type_info.translated_null_val)) {
+    if (sd_inner_to_outer_translation_map && item.element != type_info.null_val) {
       const auto outer_id = map_str_id_to_outer_dict(
           elem, type_info.min_val, type_info.max_val, sd_inner_to_outer_translation_map);
       if (outer_id == StringDictionary::INVALID_STR_ID) {
diff --git a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp
index 49c3be6..25e0ebf 100644
--- a/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp
+++ b/omniscidb/QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp
@@ -68,10 +68,7 @@ inline int apply_hash_table_elementwise_impl(
         continue;
       }
       elem = type_info.translated_null_val;
-    }
-
-    if (sd_inner_to_outer_translation_map &&
-        (!type_info.uses_bw_eq || elem != type_info.translated_null_val)) {
+    } else if (sd_inner_to_outer_translation_map) {
       const auto outer_id = map_str_id_to_outer_dict(
           elem, type_info.min_val, type_info.max_val, sd_inner_to_outer_translation_map);
       if (outer_id == StringDictionary::INVALID_STR_ID) {
-- 
2.43.0


From 8ed211718e424b16db9360a03d12173411b7bc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:22 +0000
Subject: [PATCH 47/86] fix: copying nested types to another context passes
 foreign element types

---
 omniscidb/IR/Context.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index 62ad477..fcd9cdd 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -294,19 +294,30 @@ class ContextImpl {
       case Type::kFixedLenArray: {
         auto fixed_array_type = static_cast<const FixedLenArrayType*>(type);
         return arrayFixed(fixed_array_type->numElems(),
-                          fixed_array_type->elemType(),
+                          copyType(fixed_array_type->elemType()),
                           fixed_array_type->nullable());
       }
       case Type::kVarLenArray: {
         auto varlen_array_type = static_cast<const VarLenArrayType*>(type);
-        return arrayVarLen(varlen_array_type->elemType(),
+        return arrayVarLen(copyType(varlen_array_type->elemType()),
                            varlen_array_type->offsetSize(),
                            varlen_array_type->nullable());
       }
       case Type::kExtDictionary: {
         auto ext_dict_type = static_cast<const ExtDictionaryType*>(type);
-        return extDict(
-            ext_dict_type->elemType(), ext_dict_type->dictId(), ext_dict_type->size());
+        return extDict(copyType(ext_dict_type->elemType()),
+                       ext_dict_type->dictId(),
+                       ext_dict_type->size());
+      }
+      case Type::kColumn: {
+        auto column_type = static_cast<const ColumnType*>(type);
+        return column(copyType(column_type->columnType()), column_type->nullable());
+      }
+      case Type::kColumnList: {
+        auto column_list_type = static_cast<const ColumnListType*>(type);
+        return columnList(copyType(column_list_type->columnType()),
+                          column_list_type->length(),
+                          column_list_type->nullable());
       }
       default:
         throw InvalidTypeError() << "Unexpected type: " << type;
-- 
2.43.0


From e2b6503713a62df73d31f67d61e481b0dd5ac4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:22 +0000
Subject: [PATCH 48/86] fix: text of varlen array and not null dictionary types
 cannot be read back

---
 omniscidb/IR/Context.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index fcd9cdd..9f61686 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -437,7 +437,7 @@ class ContextImpl {
     }
     // Varlen array types.
     if (std::regex_match(
-            val_lower, match_res, std::regex("array\\((.+)\\)(\\[nn\\])?"))) {
+            val_lower, match_res, std::regex("array(?:32)?\\((.+)\\)(\\[nn\\])?"))) {
       const Type* elem_type = typeFromString(match_res[1].str());
       return arrayVarLen(elem_type, 4, !match_res[2].matched);
     }
@@ -445,10 +445,13 @@ class ContextImpl {
     if (std::regex_match(
             val_lower,
             match_res,
-            std::regex("dict(8|16|32)?(?:\\((.+)\\))?(?:\\[(-?\\d+)\\])?"))) {
+            std::regex("dict(8|16|32)?(?:\\((.+)\\))?(?:\\[(-?\\d+)\\])?(\\[nn\\])?"))) {
       int size = match_res[1].matched ? std::stoi(match_res[1].str()) / 8 : 4;
       const Type* elem_type =
           match_res[2].matched ? typeFromString(match_res[2].str()) : text(true);
+      if (match_res[4].matched) {
+        elem_type = elem_type->withNullable(false);
+      }
       int dict_id = match_res[3].matched ? std::stoi(match_res[3].str()) : 0;
       return extDict(elem_type, dict_id, size);
     }
-- 
2.43.0


From ff481797638aa8e092fe41e6bc35936f940b495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:22 +0000
Subject: [PATCH 49/86] fix: interning of types is not thread safe

---
 omniscidb/IR/Context.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/omniscidb/IR/Context.cpp b/omniscidb/IR/Context.cpp
index 9f61686..e45f3c6 100644
--- a/omniscidb/IR/Context.cpp
+++ b/omniscidb/IR/Context.cpp
@@ -11,6 +11,7 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/functional/hash.hpp>
 
+#include <mutex>
 #include <regex>
 #include <unordered_map>
 
@@ -23,6 +24,7 @@ class ContextImpl {
   const NullType* null() { return null_type_.get(); }
 
   const BooleanType* boolean(bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = boolean_types_[nullable];
     if (!res) {
       res.reset(new BooleanType(ctx_, nullable));
@@ -31,6 +33,7 @@ class ContextImpl {
   }
 
   const IntegerType* integer(int size, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = integer_types_[std::make_pair(size, nullable)];
     if (!res) {
       if (size != 1 && size != 2 && size != 4 && size != 8) {
@@ -43,6 +46,7 @@ class ContextImpl {
   }
 
   const FloatingPointType* fp(FloatingPointType::Precision precision, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = floating_point_types_[std::make_pair(precision, nullable)];
     if (!res) {
       res.reset(new FloatingPointType(ctx_, precision, nullable));
@@ -51,6 +55,7 @@ class ContextImpl {
   }
 
   const DecimalType* decimal(int size, int precision, int scale, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = decimal_types_[std::make_tuple(size, precision, scale, nullable)];
     if (!res) {
       if (size != 8) {
@@ -68,6 +73,7 @@ class ContextImpl {
   }
 
   const VarCharType* varChar(int max_length, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = varchar_types_[std::make_pair(max_length, nullable)];
     if (!res) {
       if (max_length < 0) {
@@ -80,6 +86,7 @@ class ContextImpl {
   }
 
   const TextType* text(bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = text_types_[nullable];
     if (!res) {
       res.reset(new TextType(ctx_, nullable));
@@ -88,6 +95,7 @@ class ContextImpl {
   }
 
   const DateType* date(int size, TimeUnit unit, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = date_types_[std::make_tuple(size, unit, nullable)];
     if (!res) {
       if (size != 2 && size != 4 && size != 8) {
@@ -110,6 +118,7 @@ class ContextImpl {
   }
 
   const TimeType* time(int size, TimeUnit unit, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = time_types_[std::make_tuple(size, unit, nullable)];
     if (!res) {
       if (size != 2 && size != 4 && size != 8) {
@@ -132,6 +141,7 @@ class ContextImpl {
   }
 
   const TimestampType* timestamp(TimeUnit unit, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = timestamp_types_[std::make_pair(unit, nullable)];
     if (!res) {
       if (unit == TimeUnit::kMonth || unit == TimeUnit::kDay) {
@@ -143,6 +153,7 @@ class ContextImpl {
   }
 
   const IntervalType* interval(int size, TimeUnit unit, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = interval_types_[std::make_tuple(size, unit, nullable)];
     if (!res) {
       res.reset(new IntervalType(ctx_, size, unit, nullable));
@@ -153,6 +164,7 @@ class ContextImpl {
   const FixedLenArrayType* arrayFixed(int num_elems,
                                       const Type* elem_type,
                                       bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = fixed_array_types_[std::make_tuple(num_elems, elem_type, nullable)];
     if (!res) {
       if (&ctx_ != &elem_type->ctx()) {
@@ -177,6 +189,7 @@ class ContextImpl {
   const VarLenArrayType* arrayVarLen(const Type* elem_type,
                                      int offs_size,
                                      bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = varlen_array_types_[std::make_tuple(offs_size, elem_type, nullable)];
     if (!res) {
       if (&ctx_ != &elem_type->ctx()) {
@@ -199,6 +212,7 @@ class ContextImpl {
   }
 
   const ExtDictionaryType* extDict(const Type* elem_type, int dict_id, int index_size) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = ext_dict_types_[std::make_tuple(elem_type, dict_id, index_size)];
     if (!res) {
       if (&ctx_ != &elem_type->ctx()) {
@@ -219,6 +233,7 @@ class ContextImpl {
   }
 
   const ColumnType* column(const Type* column_type, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = column_types_[std::make_pair(column_type, nullable)];
     if (!res) {
       if (&ctx_ != &column_type->ctx()) {
@@ -231,6 +246,7 @@ class ContextImpl {
   }
 
   const ColumnListType* columnList(const Type* column_type, int length, bool nullable) {
+    std::lock_guard<std::mutex> lock(mutex_);
     auto& res = column_list_types_[std::make_tuple(column_type, length, nullable)];
     if (!res) {
       if (&ctx_ != &column_type->ctx()) {
@@ -461,6 +477,8 @@ class ContextImpl {
 
  private:
   Context& ctx_;
+  // Protects maps of interned types. Contexts are shared between threads.
+  std::mutex mutex_;
   std::unique_ptr<const NullType> null_type_;
   std::unordered_map<bool, std::unique_ptr<const BooleanType>> boolean_types_;
   std::unordered_map<std::pair<int, bool>,
-- 
2.43.0


From a9fadbe453a69f0926156d1879f804e2e612a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:52 +0000
Subject: [PATCH 50/86] fix: LIKE pattern analysis mistakes escaped escape
 characters and reads an empty pattern

---
 omniscidb/Analyzer/Analyzer.cpp | 40 +++++++++++++++++----------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/omniscidb/Analyzer/Analyzer.cpp b/omniscidb/Analyzer/Analyzer.cpp
index 01ed6d4..f45f723 100644
--- a/omniscidb/Analyzer/Analyzer.cpp
+++ b/omniscidb/Analyzer/Analyzer.cpp
@@ -47,7 +47,12 @@ bool expr_is_null(const hdk::ir::Expr* expr) {
 }
 
 void check_like_expr(const std::string& like_str, char escape_char) {
-  if (like_str.back() == escape_char) {
+  // An escape character at the end is fine only when it is escaped itself.
+  bool escaped = false;
+  for (char cur_char : like_str) {
+    escaped = !escaped && cur_char == escape_char;
+  }
+  if (escaped) {
     throw std::runtime_error("LIKE pattern must not end with escape character.");
   }
 }
@@ -88,36 +93,33 @@ bool test_is_simple_expr(const std::string& like_str, char escape_char) {
   if (like_str.size() < 2 || like_str[0] != '%' || like_str[like_str.size() - 1] != '%') {
     return false;
   }
-  // if the last '%' is escaped then not a simple string
-  if (like_str[like_str.size() - 2] == escape_char &&
-      like_str[like_str.size() - 3] != escape_char) {
-    return false;
-  }
+  bool escaped = false;
   for (size_t i = 1; i < like_str.size() - 1; i++) {
-    if (like_str[i] == '%' || like_str[i] == '_' || like_str[i] == '[' ||
-        like_str[i] == ']') {
-      if (like_str[i - 1] != escape_char) {
-        return false;
-      }
+    if (escaped) {
+      escaped = false;
+    } else if (like_str[i] == escape_char) {
+      escaped = true;
+    } else if (like_str[i] == '%' || like_str[i] == '_' || like_str[i] == '[' ||
+               like_str[i] == ']') {
+      return false;
     }
   }
-  return true;
+  // if the last '%' is escaped then not a simple string
+  return !escaped;
 }
 void erase_cntl_chars(std::string& like_str, char escape_char) {
-  char prev_char = '\0';
+  bool escaped = false;
   // easier to create new string of allowable chars
   // rather than erase chars from
   // existing string
   std::string new_str;
   for (char& cur_char : like_str) {
-    if (cur_char == '%' || cur_char == escape_char) {
-      if (prev_char != escape_char) {
-        prev_char = cur_char;
-        continue;
-      }
+    if (!escaped && (cur_char == '%' || cur_char == escape_char)) {
+      escaped = cur_char == escape_char;
+      continue;
     }
     new_str.push_back(cur_char);
-    prev_char = cur_char;
+    escaped = false;
   }
   like_str = new_str;
 }
-- 
2.43.0


From 05d43e7a83e89913f7d27db460662a3ed81d36de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 51/86] fix: casts of the same operand to different types
 compare equal

---
 omniscidb/IR/Expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index d52b9aa..4d9af1c 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1021,7 +1021,8 @@ bool UOper::operator==(const Expr& rhs) const {
     return false;
   }
   const UOper& rhs_uo = dynamic_cast<const UOper&>(rhs);
-  return op_type_ == rhs_uo.opType() && *operand_ == *rhs_uo.operand() &&
+  return op_type_ == rhs_uo.opType() && type_->equal(rhs_uo.type()) &&
+         *operand_ == *rhs_uo.operand() &&
          is_dict_intersection_ == rhs_uo.is_dict_intersection_;
 }
 
-- 
2.43.0


From e594b1a7245cea6ba7e63b1d941d140ce8f55028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 52/86] fix: binary operators with different qualifiers compare
 equal

---
 omniscidb/IR/Expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 4d9af1c..c459a11 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1031,7 +1031,8 @@ bool BinOper::operator==(const Expr& rhs) const {
     return false;
   }
   const BinOper& rhs_bo = dynamic_cast<const BinOper&>(rhs);
-  return op_type_ == rhs_bo.opType() && *left_operand_ == *rhs_bo.leftOperand() &&
+  return op_type_ == rhs_bo.opType() && qualifier_ == rhs_bo.qualifier() &&
+         *left_operand_ == *rhs_bo.leftOperand() &&
          *right_operand_ == *rhs_bo.rightOperand();
 }
 
-- 
2.43.0


From f5954171507b6851b36a7bb5f259e22c83f2162e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 53/86] fix: substring search compares equal to a full LIKE of
 the same text

---
 omniscidb/IR/Expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index c459a11..42a5c2f 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1105,7 +1105,7 @@ bool LikeExpr::operator==(const Expr& rhs) const {
   }
   const LikeExpr& rhs_lk = dynamic_cast<const LikeExpr&>(rhs);
   if (!(*arg_ == *rhs_lk.arg()) || !(*like_expr_ == *rhs_lk.likeExpr()) ||
-      is_ilike_ != rhs_lk.isIlike()) {
+      is_ilike_ != rhs_lk.isIlike() || is_simple_ != rhs_lk.isSimple()) {
     return false;
   }
   if (escape_expr_.get() == rhs_lk.escapeExpr()) {
-- 
2.43.0


From e6cedcbcb7412c148c80c7ea530b021121d40b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 54/86] fix: aggregates with different second arguments compare
 equal

---
 omniscidb/IR/Expr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 42a5c2f..5496db6 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1200,6 +1200,10 @@ bool AggExpr::operator==(const Expr& rhs) const {
       interpolation_ != rhs_ae.interpolation_) {
     return false;
   }
+  if (arg1_.get() != rhs_ae.arg1_.get() &&
+      (!arg1_ || !rhs_ae.arg1_ || !(*arg1_ == *rhs_ae.arg1_))) {
+    return false;
+  }
   if (arg_.get() == rhs_ae.arg()) {
     return true;
   }
-- 
2.43.0


From 24c4135a546985a2c7c963c7d9f8971b0fa91d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 55/86] fix: window functions with different orders compare
 equal

---
 omniscidb/IR/Expr.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 5496db6..e91c954 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1285,7 +1285,15 @@ bool WindowFunction::operator==(const Expr& rhs) const {
   }
   return exprsEqual(args_, rhs_window->args_) &&
          exprsEqual(partition_keys_, rhs_window->partition_keys_) &&
-         exprsEqual(order_keys_, rhs_window->order_keys_);
+         exprsEqual(order_keys_, rhs_window->order_keys_) &&
+         std::equal(collation_.begin(),
+                    collation_.end(),
+                    rhs_window->collation_.begin(),
+                    rhs_window->collation_.end(),
+                    [](const OrderEntry& lhs, const OrderEntry& rhs) {
+                      return lhs.tle_no == rhs.tle_no && lhs.is_desc == rhs.is_desc &&
+                             lhs.nulls_first == rhs.nulls_first;
+                    });
 }
 
 bool ArrayExpr::operator==(Expr const& rhs) const {
-- 
2.43.0


From b02d6cf09ed40361f09fb301b3bf6eeca56442fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 56/86] fix: comparing array expressions of different lengths
 reads past the shorter one

---
 omniscidb/IR/Expr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index e91c954..7134b3a 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1301,6 +1301,9 @@ bool ArrayExpr::operator==(Expr const& rhs) const {
     return false;
   }
   ArrayExpr const& casted_rhs = static_cast<ArrayExpr const&>(rhs);
+  if (contained_expressions_.size() != casted_rhs.contained_expressions_.size()) {
+    return false;
+  }
   for (unsigned i = 0; i < contained_expressions_.size(); i++) {
     auto& lhs_expr = contained_expressions_[i];
     auto& rhs_expr = casted_rhs.contained_expressions_[i];
-- 
2.43.0


From e063017e751311ed93e7624fa668361c7c06971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 57/86] fix: array constant does not compare equal to itself

---
 omniscidb/IR/Expr.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 7134b3a..cd16407 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1011,7 +1011,12 @@ bool Constant::operator==(const Expr& rhs) const {
     return true;
   }
   if (type_->isArray()) {
-    return false;
+    return std::equal(
+        value_list_.begin(),
+        value_list_.end(),
+        rhs_c.value_list_.begin(),
+        rhs_c.value_list_.end(),
+        [](const ExprPtr& lhs, const ExprPtr& rhs) { return *lhs == *rhs; });
   }
   return DatumEqual(value_, rhs_c.value(), type_);
 }
-- 
2.43.0


From 2df7220eae58b9cc6be396b2c2852a3405498599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 58/86] fix: function call equality depends on the order of
 operands

---
 omniscidb/IR/Expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index cd16407..5317bee 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -1729,7 +1729,7 @@ bool FunctionOper::operator==(const Expr& rhs) const {
     return false;
   }
   const auto rhs_func_oper = dynamic_cast<const FunctionOper*>(&rhs);
-  if (!rhs_func_oper) {
+  if (!rhs_func_oper || typeid(rhs) != typeid(*this)) {
     return false;
   }
   if (name() != rhs_func_oper->name()) {
-- 
2.43.0


From d006a5171c7ad93f34f158dd5b47364b0148b117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 59/86] fix: NaN constants are cast to integers and decimals

---
 omniscidb/IR/Expr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Expr.cpp b/omniscidb/IR/Expr.cpp
index 5317bee..46904e0 100644
--- a/omniscidb/IR/Expr.cpp
+++ b/omniscidb/IR/Expr.cpp
@@ -84,7 +84,8 @@ TO safeRound(FROM const from) {
   static_assert(std::is_integral_v<TO> && std::is_floating_point_v<FROM>);
   constexpr FROM max_float = maxRound<FROM, TO>();
   FROM const n = std::round(from);
-  if (n < static_cast<FROM>(std::numeric_limits<TO>::min()) || max_float < n) {
+  if (std::isnan(n) || n < static_cast<FROM>(std::numeric_limits<TO>::min()) ||
+      max_float < n) {
     throw OverflowOrUnderflow();
   }
   return static_cast<TO>(n);
-- 
2.43.0


From ce4c73f30fdc0235a79b51e9ecc9544ca4a50c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:48 +0000
Subject: [PATCH 60/86] fix: decimals are printed through double and lose
 digits

---
 omniscidb/IR/Datum.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index ba04a69..5f98a14 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -434,11 +434,16 @@ std::string DatumToString(Datum d, const hdk::ir::Type* type) {
     case hdk::ir::Type::kDecimal: {
       CHECK_EQ(type->size(), 8);
       auto scale = type->as<hdk::ir::DecimalType>()->scale();
-      double v = (double)d.bigintval / pow(10, scale);
-      int size = snprintf(buf, buf_size, "%.*f", scale, v);
-      CHECK_LE(0, size) << v << ' ' << type->toString();
-      CHECK_LT(size_t(size), buf_size) << v << ' ' << type->toString();
-      return buf;
+      const uint64_t abs_val = d.bigintval < 0 ? 0 - static_cast<uint64_t>(d.bigintval)
+                                               : static_cast<uint64_t>(d.bigintval);
+      auto res = std::to_string(abs_val);
+      if (scale > 0) {
+        if (res.size() <= static_cast<size_t>(scale)) {
+          res.insert(0, scale + 1 - res.size(), '0');
+        }
+        res.insert(res.size() - scale, 1, '.');
+      }
+      return d.bigintval < 0 ? "-" + res : res;
     }
     case hdk::ir::Type::kInteger:
       switch (type->size()) {
-- 
2.43.0


From d916b34d42d40d7b14fe238c3ce0c8c4d24bffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:48 +0000
Subject: [PATCH 61/86] fix: dates in milliseconds and finer units are printed
 as seconds

---
 omniscidb/IR/Datum.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index 5f98a14..3bd42a6 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -482,7 +482,12 @@ std::string DatumToString(Datum d, const hdk::ir::Type* type) {
       return buf;
     }
     case hdk::ir::Type::kDate: {
-      size_t const len = shared::formatDate(buf, buf_size, d.bigintval);
+      // Like in the parser, dates with day unit are held in seconds.
+      auto unit = type->as<hdk::ir::DateType>()->unit();
+      auto units_per_sec =
+          unit == hdk::ir::TimeUnit::kDay ? 1 : hdk::ir::unitsPerSecond(unit);
+      auto secs = d.bigintval / units_per_sec - (d.bigintval % units_per_sec < 0);
+      size_t const len = shared::formatDate(buf, buf_size, secs);
       CHECK_LE(10u, len);  // 10 == strlen("YYYY-MM-DD")
       return buf;
     }
-- 
2.43.0


From c2e91ea1eadf2e70815175c4af153934fa29746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:48 +0000
Subject: [PATCH 62/86] fix: whole decimals close to the maximum are refused,
 the minimum is undefined behaviour

---
 omniscidb/IR/Datum.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index 3bd42a6..dc399d5 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -90,12 +90,15 @@ int64_t parse_numeric(const std::string_view s, const hdk::ir::Type* type) {
     after_dot = s.substr(dot + 1);
   } else {
     before_dot = s;
-    after_dot = "0";
+    after_dot = "";
   }
   const bool is_negative = before_dot.find_first_of('-', 0) != std::string::npos;
   const int64_t sign = is_negative ? -1 : 1;
-  int64_t result;
-  result = std::abs(std::stoll(before_dot));
+  int64_t result = std::stoll(before_dot);
+  if (result == std::numeric_limits<int64_t>::min()) {
+    throw std::runtime_error("Overflow in DECIMAL conversion.");
+  }
+  result = std::abs(result);
   int64_t fraction = 0;
   const size_t before_dot_digits = before_dot.length() - (is_negative ? 1 : 0);
 
@@ -105,13 +108,15 @@ int64_t parse_numeric(const std::string_view s, const hdk::ir::Type* type) {
     // After dot will be used to scale integer part so make sure it wont overflow
     if (after_dot.size() + before_dot_digits > max_digits) {
       if (before_dot_digits >= max_digits) {
-        after_dot = "0";
+        after_dot = "";
       } else {
         next_digit = std::stoll(after_dot.substr(max_digits - before_dot_digits, 1));
         after_dot = after_dot.substr(0, max_digits - before_dot_digits);
       }
     }
-    fraction = std::stoll(after_dot);
+    if (!after_dot.empty()) {
+      fraction = std::stoll(after_dot);
+    }
     fraction += next_digit >= 5 ? 1 : 0;
   }
 
-- 
2.43.0


From 02dbafdab30baf89f635d56c9bbe88467d977f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:48 +0000
Subject: [PATCH 63/86] fix: decimal literals lose digits after leading zeros
 and are rounded twice

---
 omniscidb/IR/Datum.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/omniscidb/IR/Datum.cpp b/omniscidb/IR/Datum.cpp
index dc399d5..836fed8 100644
--- a/omniscidb/IR/Datum.cpp
+++ b/omniscidb/IR/Datum.cpp
@@ -100,7 +100,10 @@ int64_t parse_numeric(const std::string_view s, const hdk::ir::Type* type) {
   }
   result = std::abs(result);
   int64_t fraction = 0;
-  const size_t before_dot_digits = before_dot.length() - (is_negative ? 1 : 0);
+  // Leading zeros do not limit the number of digits we can keep.
+  const size_t first_digit = before_dot.find_first_of("123456789");
+  const size_t before_dot_digits =
+      first_digit == std::string::npos ? 0 : before_dot.length() - first_digit;
 
   constexpr int max_digits = std::numeric_limits<int64_t>::digits10;
   if (!after_dot.empty()) {
@@ -117,7 +120,10 @@ int64_t parse_numeric(const std::string_view s, const hdk::ir::Type* type) {
     if (!after_dot.empty()) {
       fraction = std::stoll(after_dot);
     }
-    fraction += next_digit >= 5 ? 1 : 0;
+    // Conversion to the scale below does the rounding if it drops digits.
+    if (static_cast<size_t>(dtype->scale()) >= after_dot.length()) {
+      fraction += next_digit >= 5 ? 1 : 0;
+    }
   }
 
   result = convert_decimal_value_to_scale_internal(result, after_dot.length());
-- 
2.43.0


From dbe5a3143862c8a686f59bdd1fad099dea4813d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:45 +0000
Subject: [PATCH 64/86] fix: query memory descriptors with a different number
 of slots compare equal

---
 omniscidb/ResultSet/ColSlotContext.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/omniscidb/ResultSet/ColSlotContext.h b/omniscidb/ResultSet/ColSlotContext.h
index e7a6cc8..0113cc8 100644
--- a/omniscidb/ResultSet/ColSlotContext.h
+++ b/omniscidb/ResultSet/ColSlotContext.h
@@ -101,11 +101,7 @@ class ColSlotContext {
   void addColumn(const std::vector<std::tuple<int8_t, int8_t>>& slots_for_col);
 
   bool operator==(const ColSlotContext& that) const {
-    return std::equal(
-               slot_sizes_.cbegin(), slot_sizes_.cend(), that.slot_sizes_.cbegin()) &&
-           std::equal(col_to_slot_map_.cbegin(),
-                      col_to_slot_map_.cend(),
-                      that.col_to_slot_map_.cbegin());
+    return slot_sizes_ == that.slot_sizes_ && col_to_slot_map_ == that.col_to_slot_map_;
   }
 
   bool operator!=(const ColSlotContext& that) const { return !(*this == that); }
-- 
2.43.0


From eac6c62fd3c4bc9e0446b582f028641005326b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:57 +0000
Subject: [PATCH 65/86] fix: key columns of appended columnar result sets are
 read at the wrong offset

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 38153c2..f15c07b 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -548,7 +548,7 @@ InternalTargetValue ResultSet::ColumnWiseTargetAccessor::getColumnInternal(
       ptr1 =
           buff + result_set_->query_mem_desc_.getTargetGroupbyIndex(target_logical_idx) *
                      result_set_->query_mem_desc_.getEffectiveKeyWidth() *
-                     result_set_->query_mem_desc_.entry_count_;
+                     storage_lookup_result.storage_ptr->getEntryCount();
     }
   }
 
@@ -1466,7 +1466,7 @@ TargetValue ResultSet::getTargetValueFromBufferColwise(
   const auto key_width = query_mem_desc_.getEffectiveKeyWidth();
   const auto key_idx = query_mem_desc_.getTargetGroupbyIndex(target_logical_idx);
   CHECK_GE(key_idx, 0);
-  auto key_col_ptr = keys_ptr + key_idx * query_mem_desc_.getEntryCount() * key_width;
+  auto key_col_ptr = keys_ptr + key_idx * query_mem_desc.getEntryCount() * key_width;
   return makeTargetValue(columnar_elem_ptr(local_entry_idx, key_col_ptr, key_width),
                          key_width,
                          target_info,
-- 
2.43.0


From f92d9cde130be1fff5bea3c23c7d4f9af55bf6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:57 +0000
Subject: [PATCH 66/86] fix: lazily fetched rows are looked up in the wrong
 fragment

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index f15c07b..0736da9 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -856,10 +856,10 @@ inline std::pair<int64_t, int64_t> get_frag_id_and_local_idx(
     const size_t tab_or_col_idx,
     const int64_t global_idx) {
   CHECK_GE(global_idx, int64_t(0));
-  for (int64_t frag_id = frag_offsets.size() - 1; frag_id > 0; --frag_id) {
+  for (int64_t frag_id = frag_offsets.size() - 1; frag_id >= 0; --frag_id) {
     CHECK_LT(tab_or_col_idx, frag_offsets[frag_id].size());
     const auto frag_off = static_cast<int64_t>(frag_offsets[frag_id][tab_or_col_idx]);
-    if (frag_off < global_idx) {
+    if (frag_off <= global_idx) {
       return {frag_id, global_idx - frag_off};
     }
   }
-- 
2.43.0


From bab92d3c064b7e851136bc4964b1bbaf8636bda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:56 +0000
Subject: [PATCH 67/86] fix: lazily fetched text is ordered by the strings of
 other rows

---
 omniscidb/ResultSet/ResultSetIteration.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/omniscidb/ResultSet/ResultSetIteration.cpp b/omniscidb/ResultSet/ResultSetIteration.cpp
index 0736da9..ddb7230 100644
--- a/omniscidb/ResultSet/ResultSetIteration.cpp
+++ b/omniscidb/ResultSet/ResultSetIteration.cpp
@@ -641,7 +641,7 @@ int64_t ResultSet::lazyReadInt(const int64_t ival,
         bool is_end{false};
         ChunkIter_get_nth(
             reinterpret_cast<ChunkIter*>(const_cast<int8_t*>(frag_col_buffer)),
-            storage_lookup_result.fixedup_entry_idx,
+            ival_copy,
             false,
             &vd,
             &is_end);
-- 
2.43.0


From 7456034290ea7c1f629eb3100a3dd4afd3cfab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:03 +0000
Subject: [PATCH 68/86] fix: failed sqlite statements are never finalized and
 keep their locks

---
 omniscidb/SqliteConnector/SqliteConnector.cpp | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/omniscidb/SqliteConnector/SqliteConnector.cpp b/omniscidb/SqliteConnector/SqliteConnector.cpp
index 66c8173..0fc1569 100644
--- a/omniscidb/SqliteConnector/SqliteConnector.cpp
+++ b/omniscidb/SqliteConnector/SqliteConnector.cpp
@@ -23,6 +23,7 @@
 #include "SqliteConnector.h"
 
 #include <iostream>
+#include <memory>
 
 #include "Logger/Logger.h"
 
@@ -31,6 +32,16 @@ using std::endl;
 using std::runtime_error;
 using std::string;
 
+namespace {
+
+struct StatementDeleter {
+  void operator()(sqlite3_stmt* stmt) const { sqlite3_finalize(stmt); }
+};
+
+using StatementPtr = std::unique_ptr<sqlite3_stmt, StatementDeleter>;
+
+}  // namespace
+
 SqliteConnector::SqliteConnector(const string& dbName, const string& dir)
     : dbName_(dbName) {
   string connectString(dir);
@@ -81,8 +92,10 @@ void SqliteConnector::query_with_text_params(const std::string& queryString,
   columnNames.clear();
   columnTypes.clear();
   results_.clear();
-  sqlite3_stmt* stmt;
+  sqlite3_stmt* stmt{nullptr};
   int returnCode = sqlite3_prepare_v2(db_, queryString.c_str(), -1, &stmt, nullptr);
+  // The statement is finalized on errors too, otherwise it keeps its locks.
+  StatementPtr stmt_owner(stmt);
   if (returnCode != SQLITE_OK) {
     throwError();
   }
@@ -131,8 +144,6 @@ void SqliteConnector::query_with_text_params(const std::string& queryString,
       results_[c].emplace_back(NullableResult{col_text, is_null});
     }
   } while (1 == 1);  // Loop control in break statement above
-
-  sqlite3_finalize(stmt);
 }
 
 void SqliteConnector::query_with_text_params(
@@ -168,9 +179,10 @@ void SqliteConnector::batch_insert(const std::string& table_name,
 
   query("BEGIN TRANSACTION");
 
-  sqlite3_stmt* stmt;
+  sqlite3_stmt* stmt{nullptr};
   int returnCode =
       sqlite3_prepare_v2(db_, paramertized_query.c_str(), -1, &stmt, nullptr);
+  StatementPtr stmt_owner(stmt);
   if (returnCode != SQLITE_OK) {
     throwError();
   }
@@ -194,6 +206,6 @@ void SqliteConnector::batch_insert(const std::string& table_name,
     }
     sqlite3_reset(stmt);
   }
-  sqlite3_finalize(stmt);
+  stmt_owner.reset();
   query("END TRANSACTION");
 }
-- 
2.43.0


From 6feb157c257619fc03cfdd0eb0dca5948c241faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 69/86] fix: failed batch inserts leave their transaction open

---
 omniscidb/SqliteConnector/SqliteConnector.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omniscidb/SqliteConnector/SqliteConnector.cpp b/omniscidb/SqliteConnector/SqliteConnector.cpp
index 0fc1569..ad7f84b 100644
--- a/omniscidb/SqliteConnector/SqliteConnector.cpp
+++ b/omniscidb/SqliteConnector/SqliteConnector.cpp
@@ -26,6 +26,7 @@
 #include <memory>
 
 #include "Logger/Logger.h"
+#include "Shared/scope.h"
 
 using std::cout;
 using std::endl;
@@ -178,6 +179,12 @@ void SqliteConnector::batch_insert(const std::string& table_name,
   paramertized_query += "?)";
 
   query("BEGIN TRANSACTION");
+  // Errors below mustn't leave the transaction open.
+  ScopeGuard rollback = [this]() {
+    if (!sqlite3_get_autocommit(db_)) {
+      sqlite3_exec(db_, "ROLLBACK TRANSACTION", nullptr, nullptr, nullptr);
+    }
+  };
 
   sqlite3_stmt* stmt{nullptr};
   int returnCode =
-- 
2.43.0


From 8f5cbca978dd7746017db99472a983eb3829c609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 70/86] fix: the handle of a sqlite database that can't be
 opened is leaked

---
 omniscidb/SqliteConnector/SqliteConnector.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/omniscidb/SqliteConnector/SqliteConnector.cpp b/omniscidb/SqliteConnector/SqliteConnector.cpp
index ad7f84b..a244f35 100644
--- a/omniscidb/SqliteConnector/SqliteConnector.cpp
+++ b/omniscidb/SqliteConnector/SqliteConnector.cpp
@@ -52,6 +52,8 @@ SqliteConnector::SqliteConnector(const string& dbName, const string& dir)
   connectString += dbName;
   int returnCode = sqlite3_open(connectString.c_str(), &db_);
   if (returnCode != SQLITE_OK) {
+    // The destructor is not going to be called.
+    ScopeGuard close_db = [this]() { sqlite3_close(db_); };
     throwError();
   }
 }
-- 
2.43.0


From 0ec07663a682988ac8622f17aa06a601792fb775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 71/86] fix: cost model extrapolation is garbage when measured
 times decrease

---
 .../CostModel/ExtrapolationModels/LinearExtrapolation.cpp    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
index db52329..837dcf2 100644
--- a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
+++ b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
@@ -40,10 +40,11 @@ size_t LinearExtrapolation::getExtrapolatedData(size_t bytes) const {
     id1 = id2 - 1;
   }
 
-  size_t y1 = measurement_[id1].milliseconds, y2 = measurement_[id2].milliseconds;
+  double y1 = measurement_[id1].milliseconds, y2 = measurement_[id2].milliseconds;
   size_t x1 = measurement_[id1].bytes, x2 = measurement_[id2].bytes;
 
-  return y1 + (static_cast<double>(bytes) - x1) / (x2 - x1) * (y2 - y1);
+  // Execution time can decrease between measurements, but it can't become negative.
+  return std::max(0.0, y1 + (static_cast<double>(bytes) - x1) / (x2 - x1) * (y2 - y1));
 }
 
 }  // namespace costmodel
-- 
2.43.0


From 6b1d45ed551f3038313efe241caf7f9d262f9434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 72/86] fix: extrapolation of a single measurement reads out of
 bounds

---
 .../CostModel/ExtrapolationModels/LinearExtrapolation.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
index 837dcf2..faddc4a 100644
--- a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
+++ b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearExtrapolation.cpp
@@ -13,11 +13,18 @@
 
 #include "LinearExtrapolation.h"
 
+#include "Logger/Logger.h"
+
 #include <algorithm>
 
 namespace costmodel {
 
 size_t LinearExtrapolation::getExtrapolatedData(size_t bytes) const {
+  CHECK(!measurement_.empty());
+  if (measurement_.size() == 1) {
+    return measurement_[0].milliseconds;
+  }
+
   size_t id1, id2;
   Detail::Measurement tmp = {bytes, 0};
 
-- 
2.43.0


From a35f29163d2a24b92a29bcd1e8ed8818189b999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 73/86] fix: sums of execution proportions wrap around

---
 .../CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp  | 4 ++--
 .../CostModel/Dispatchers/ProportionBasedExecutionPolicy.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
index 14a98d9..bdfc211 100644
--- a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
+++ b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.cpp
@@ -25,7 +25,7 @@ ProportionBasedExecutionPolicy::ProportionBasedExecutionPolicy(
   CHECK_GT(proportion.size(), 0u);
   proportion_.merge(proportion);
   total_parts_ = std::accumulate(
-      proportion_.begin(), proportion_.end(), 0u, [](unsigned acc, auto& cur) {
+      proportion_.begin(), proportion_.end(), size_t(0), [](size_t acc, auto& cur) {
         return acc + cur.second;
       });
   if (total_parts_ == 0u) {
@@ -39,7 +39,7 @@ SchedulingAssignment ProportionBasedExecutionPolicy::scheduleSingleFragment(
     const FragmentInfo& fragment,
     size_t frag_id,
     size_t frag_num) const {
-  unsigned scheduled_portion = 0;
+  size_t scheduled_portion = 0;
   for (auto& [device_type, portion] : proportion_) {
     if (frag_id * total_parts_ < (portion + scheduled_portion) * frag_num) {
       auto memory_level = device_type == ExecutorDeviceType::GPU
diff --git a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
index 13d2a2c..a4b9f4d 100644
--- a/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
+++ b/omniscidb/QueryEngine/CostModel/Dispatchers/ProportionBasedExecutionPolicy.h
@@ -35,6 +35,6 @@ class ProportionBasedExecutionPolicy : public ExecutionPolicy {
 
  private:
   std::map<ExecutorDeviceType, unsigned> proportion_;
-  unsigned total_parts_;
+  size_t total_parts_;
 };
 }  // namespace policy
-- 
2.43.0


From 65e8129c0ef5269d3ce060f658629ee243ea6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 74/86] fix: cost model proportions of 4GB and more are
 truncated

---
 omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp b/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
index 6429e42..056584c 100644
--- a/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
+++ b/omniscidb/QueryEngine/CostModel/IterativeCostModel.cpp
@@ -66,8 +66,11 @@ std::unique_ptr<policy::ExecutionPolicy> IterativeCostModel::predict(
     if (cur_prediction < runtime_prediction) {
       runtime_prediction = cur_prediction;
 
-      cpu_prop = cpu_size;
-      gpu_prop = gpu_size;
+      // Keep the proportion when sizes don't fit its type.
+      size_t scale =
+          query_info.bytes_size / std::numeric_limits<unsigned>::max() + 1;
+      cpu_prop = cpu_size / scale;
+      gpu_prop = gpu_size / scale;
     }
   }
 
-- 
2.43.0


From 53ce1db0c8dd3e54b4957a6c3fb0729ff77247c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:03:41 +0000
Subject: [PATCH 75/86] fix: parsing of any options switches the cost model off

---
 omniscidb/ConfigBuilder/ConfigBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/omniscidb/ConfigBuilder/ConfigBuilder.cpp b/omniscidb/ConfigBuilder/ConfigBuilder.cpp
index 3bf6b9c..7c87f0f 100644
--- a/omniscidb/ConfigBuilder/ConfigBuilder.cpp
+++ b/omniscidb/ConfigBuilder/ConfigBuilder.cpp
@@ -409,7 +409,8 @@ bool ConfigBuilder::parseCommandLineArgs(int argc,
 
   opt_desc.add_options()(
       "use-cost-model",
-      po::value<bool>(&config_->exec.enable_cost_model)->default_value(false),
+      po::value<bool>(&config_->exec.enable_cost_model)
+          ->default_value(config_->exec.enable_cost_model),
       "Use Cost Model for query execution when it is possible.");
 
   // opts.filter_pushdown
-- 
2.43.0


From c9add6460a0f7cb5cdd68df13d7853a27499649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:02 +0000
Subject: [PATCH 76/86] fix: negative regression results become huge execution
 times

---
 .../CostModel/ExtrapolationModels/LinearRegression.cpp       | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
index 8d1e1ed..98533df 100644
--- a/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
+++ b/omniscidb/QueryEngine/CostModel/ExtrapolationModels/LinearRegression.cpp
@@ -12,6 +12,8 @@
 */
 
 #include "LinearRegression.h"
+
+#include <algorithm>
 #include <armadillo>
 
 namespace costmodel {
@@ -37,7 +39,8 @@ LinearRegression::~LinearRegression() = default;
 
 size_t LinearRegression::getExtrapolatedData(size_t bytes) const {
   arma::vec x = {1.0, static_cast<double>(bytes)};
-  return static_cast<size_t>(arma::dot(x, pimpl_->weights));
+  // Regression can be negative for small sizes, execution time can't.
+  return static_cast<size_t>(std::max(0.0, arma::dot(x, pimpl_->weights)));
 }
 
 void LinearRegression::buildRegressionCoefficients() {
-- 
2.43.0


From d85c16366239d1b5e579cd43e4854c63d5c1c439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:06 +0000
Subject: [PATCH 77/86] fix: timers of new threads are lost or reported below
 other timers

---
 omniscidb/Logger/Logger.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/omniscidb/Logger/Logger.cpp b/omniscidb/Logger/Logger.cpp
index 67e3ed5..f3284a0 100644
--- a/omniscidb/Logger/Logger.cpp
+++ b/omniscidb/Logger/Logger.cpp
@@ -813,7 +813,7 @@ void debug_timer_new_thread(ThreadId parent_thread_id) {
   auto const current_depth = parent_itr->second->currentDepth();
   auto& duration_tree_ptr = g_duration_tree_map[g_thread_id];
   if (!duration_tree_ptr) {
-    duration_tree_ptr = std::make_unique<DurationTree>(g_thread_id, current_depth + 1);
+    duration_tree_ptr = std::make_unique<DurationTree>(g_thread_id, current_depth);
     parent_itr->second->pushDurationTree(*duration_tree_ptr);
   } else if (parent_thread_id == g_thread_id) {
     // DEBUG_TIMER_NEW_THREAD() was called but this is actually the same thread as the
@@ -825,7 +825,7 @@ void debug_timer_new_thread(ThreadId parent_thread_id) {
     // key in g_duration_tree_map.
     g_thread_id = g_next_thread_id++;
     auto const insert = g_duration_tree_map.insert(
-        {g_thread_id, std::make_unique<DurationTree>(g_thread_id, current_depth + 1)});
+        {g_thread_id, std::make_unique<DurationTree>(g_thread_id, current_depth)});
     CHECK(insert.second) << parent_thread_id << " -> " << g_thread_id;
     parent_itr->second->pushDurationTree(*insert.first->second);
   }
-- 
2.43.0


From b2a8372d0a7e41d7f81dbd2070beb536e70e57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:51 +0000
Subject: [PATCH 78/86] fix: removing a chain of dead sorts no longer depends
 on the order of their addresses

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index 77a5469..aead48e 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -80,8 +80,14 @@ void dropDeadSorts(QueryDag& dag) {
   for (auto& pr : valid_sort_users) {
     if (pr.second.empty()) {
       auto sort = pr.first;
+      // Skip through other removed sorts, so that the order in which we remove a chain of
+      // sorts doesn't matter.
+      auto new_input = sort->getAndOwnInput(0);
+      while (valid_sort_users.count(new_input) && valid_sort_users.at(new_input).empty()) {
+        new_input = new_input->getAndOwnInput(0);
+      }
       for (auto user : all_sort_users.at(sort)) {
-        user->replaceInput(sort, sort->getAndOwnInput(0));
+        user->replaceInput(sort, new_input);
       }
       node_list.erase(sorts.at(sort));
     }
-- 
2.43.0


From b71e84bb9d329515ddc80e2495cbd40f3b146577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:51 +0000
Subject: [PATCH 79/86] fix: a sort under a bare limit decides which rows are
 kept and is not dead

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index aead48e..2bf0eed 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -69,9 +69,11 @@ void dropDeadSorts(QueryDag& dag) {
     }
   }
 
-  // Find sort and aggregate nodes and remove their inputs from valid sort users.
+  // Find sort and aggregate nodes and remove their inputs from valid sort users. Sort nodes
+  // with no collation (LIMIT/OFFSET only) don't reorder rows and depend on the input order.
   for (auto node : node_list) {
-    if (node->is<Aggregate>() || node->is<Sort>()) {
+    if (node->is<Aggregate>() ||
+        (node->is<Sort>() && node->as<Sort>()->collationCount() > 0)) {
       removeFromValidSortUsers(node.get(), valid_sort_users);
     }
   }
-- 
2.43.0


From d3a3bab823dd6262130019aee5a0b4240305aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:51 +0000
Subject: [PATCH 80/86] fix: the pre-projection of a window function reads its
 own input, not the node listed before it

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index 2bf0eed..cb16215 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -474,8 +474,7 @@ void addWindowFunctionPreProject(
       continue;
     }
 
-    const auto prev_node_itr = std::prev(node_itr);
-    const auto prev_node = *prev_node_itr;
+    const auto prev_node = window_func_project_node->getAndOwnInput(0);
     CHECK(prev_node);
 
     auto filter_node = std::dynamic_pointer_cast<hdk::ir::Filter>(prev_node);
-- 
2.43.0


From 18739bcdb2f14698430eac1a67cf6a82ff3798f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 81/86] fix: stddev and corr of narrow integers no longer
 multiply them in their own type

---
 omniscidb/QueryOptimizer/CanonicalizeQuery.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index cb16215..1e4b7e7 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -133,6 +133,14 @@ class CompoundAggregate {
   virtual void addResult(ExprPtrVector& reduce_proj_exprs) = 0;
 
  protected:
+  // Products of narrow integers might not fit the type of their operands.
+  BuilderExpr widen(const BuilderExpr& expr) const {
+    auto type = expr.type();
+    return type->isInteger() && type->size() < 8
+               ? expr.cast(ctx_.int64(type->nullable()))
+               : expr;
+  }
+
   Context& ctx_;
   QueryBuilder builder_;
   Aggregate* node_;
@@ -153,7 +161,7 @@ class StdDevAggregate final : public CompoundAggregate {
 
   void addInputExprs(ExprPtrVector& exprs, std::vector<std::string>& fields) override {
     // Add arg * arg column.
-    BuilderExpr arg(&builder_, agg_->argShared());
+    auto arg = widen(BuilderExpr(&builder_, agg_->argShared()));
     quad_arg_index_ = static_cast<unsigned>(exprs.size());
     exprs.emplace_back(arg.mul(arg).expr());
     fields.emplace_back(field_ + "__stddev_quad_arg_" + std::to_string(quad_arg_index_));
@@ -190,8 +198,10 @@ class StdDevAggregate final : public CompoundAggregate {
     auto cnt_or_null = builder_.ifThenElse(cnt_ref.eq(0), null_cnt, cnt_ref);
     auto cnt_m_1_or_null =
         builder_.ifThenElse(cnt_ref.eq(1), null_cnt, cnt_ref.sub(1));
+    // Move to FP64 before the multiplication to avoid overflows.
+    auto sum_fp = sum_ref.cast(ctx_.fp64());
     auto stddev = quad_sum_ref.cast(ctx_.fp64())
-                      .sub(sum_ref.mul(sum_ref).cast(ctx_.fp64()).div(cnt_or_null))
+                      .sub(sum_fp.mul(sum_fp).div(cnt_or_null))
                       .div(cnt_m_1_or_null)
                       .pow(0.5);
     reduce_proj_exprs.emplace_back(stddev.expr());
@@ -216,8 +226,8 @@ class CorrAggregate final : public CompoundAggregate {
 
   void addInputExprs(ExprPtrVector& exprs, std::vector<std::string>& fields) override {
     // Add x * x, y * y, x * y columns
-    BuilderExpr x_arg(&builder_, agg_->argShared());
-    BuilderExpr y_arg(&builder_, agg_->arg1Shared());
+    auto x_arg = widen(BuilderExpr(&builder_, agg_->argShared()));
+    auto y_arg = widen(BuilderExpr(&builder_, agg_->arg1Shared()));
     first_mul_arg_index_ = static_cast<unsigned>(exprs.size());
     fields.emplace_back(field_ + "__corr_x_mul_x_" + std::to_string(exprs.size()));
     exprs.emplace_back(x_arg.mul(x_arg).expr());
-- 
2.43.0


From 4ff69344005d7dcd3cfc44aaf6c3f2d3a4632ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:26 +0000
Subject: [PATCH 82/86] fix: corr considers only the pairs whose both values
 are not NULL

---
 .../QueryOptimizer/CanonicalizeQuery.cpp      | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
index 1e4b7e7..ea504e2 100644
--- a/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
+++ b/omniscidb/QueryOptimizer/CanonicalizeQuery.cpp
@@ -218,6 +218,7 @@ class StdDevAggregate final : public CompoundAggregate {
  * corr(x, y) = (avg(x * y) * cnt(x) * cnt(y) - sum(x) * sum(y)) /
  * (sqrt(cnt(x) * sum(x * x) - sum(x) * sum(x)) *
  *  sqrt(cnt(y) * sum(y * y) - sum(y) * sum(y)))
+ * Only pairs with both x and y not NULL are considered.
  */
 class CorrAggregate final : public CompoundAggregate {
  public:
@@ -225,9 +226,11 @@ class CorrAggregate final : public CompoundAggregate {
       : CompoundAggregate(node, agg, field, config) {}
 
   void addInputExprs(ExprPtrVector& exprs, std::vector<std::string>& fields) override {
-    // Add x * x, y * y, x * y columns
-    auto x_arg = widen(BuilderExpr(&builder_, agg_->argShared()));
-    auto y_arg = widen(BuilderExpr(&builder_, agg_->arg1Shared()));
+    // Add x * x, y * y, x * y, x, y columns. Each of x and y is NULL if the other one is.
+    auto x = widen(BuilderExpr(&builder_, agg_->argShared()));
+    auto y = widen(BuilderExpr(&builder_, agg_->arg1Shared()));
+    auto x_arg = nullIfNull(x, y);
+    auto y_arg = nullIfNull(y, x);
     first_mul_arg_index_ = static_cast<unsigned>(exprs.size());
     fields.emplace_back(field_ + "__corr_x_mul_x_" + std::to_string(exprs.size()));
     exprs.emplace_back(x_arg.mul(x_arg).expr());
@@ -235,14 +238,18 @@ class CorrAggregate final : public CompoundAggregate {
     exprs.emplace_back(y_arg.mul(y_arg).expr());
     fields.emplace_back(field_ + "__corr_x_mul_y_" + std::to_string(exprs.size()));
     exprs.emplace_back(x_arg.mul(y_arg).expr());
+    fields.emplace_back(field_ + "__corr_x_" + std::to_string(exprs.size()));
+    exprs.emplace_back(x_arg.expr());
+    fields.emplace_back(field_ + "__corr_y_" + std::to_string(exprs.size()));
+    exprs.emplace_back(y_arg.expr());
   }
 
   void addAggregates(const Project* input,
                      ExprPtrVector& new_aggs,
                      std::vector<std::string>& new_agg_fields) override {
     // Create count(x), count(y), sum(x), sum(y), sum(x * x), sum(y * y), avg(x * y)
-    BuilderExpr x_arg(&builder_, agg_->argShared());
-    BuilderExpr y_arg(&builder_, agg_->arg1Shared());
+    BuilderExpr x_arg(&builder_, getNodeColumnRef(input, first_mul_arg_index_ + 3));
+    BuilderExpr y_arg(&builder_, getNodeColumnRef(input, first_mul_arg_index_ + 4));
     BuilderExpr quad_x(&builder_, getNodeColumnRef(input, first_mul_arg_index_));
     BuilderExpr quad_y(&builder_, getNodeColumnRef(input, first_mul_arg_index_ + 1));
     BuilderExpr x_mul_y(&builder_, getNodeColumnRef(input, first_mul_arg_index_ + 2));
@@ -312,6 +319,14 @@ class CorrAggregate final : public CompoundAggregate {
   }
 
  private:
+  BuilderExpr nullIfNull(const BuilderExpr& expr, const BuilderExpr& other) {
+    if (!other.type()->nullable()) {
+      return expr;
+    }
+    auto type = expr.type()->withNullable(true);
+    return builder_.ifThenElse(other.isNull(), builder_.nullCst(type), expr);
+  }
+
   unsigned first_mul_arg_index_ = 0;
   ExprPtr x_cnt_ref_;
   ExprPtr y_cnt_ref_;
-- 
2.43.0


From 791813f58c92de685e6940210ac6b619cd2243c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 83/86] fix: copies of aggregate nodes leave their execution
 hints uninitialised

---
 omniscidb/IR/Node.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index ea9dd75..569d74b 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -192,7 +192,9 @@ Aggregate::Aggregate(Aggregate const& rhs)
     : Node(rhs)
     , groupby_count_(rhs.groupby_count_)
     , aggs_(rhs.aggs_)
-    , fields_(rhs.fields_) {}
+    , fields_(rhs.fields_)
+    , partitioned_(rhs.partitioned_)
+    , buffer_entry_count_hint_(rhs.buffer_entry_count_hint_) {}
 
 void Aggregate::rewriteExprs(hdk::ir::ExprRewriter& rewriter) {
   for (size_t i = 0; i < aggs_.size(); ++i) {
-- 
2.43.0


From 1a1daa8ffa81daca62924f32f8af5932d92f9136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 84/86] fix: a query DAG made from its root has no nodes and no
 creation time

---
 omniscidb/IR/Node.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/omniscidb/IR/Node.cpp b/omniscidb/IR/Node.cpp
index 569d74b..20a80e9 100644
--- a/omniscidb/IR/Node.cpp
+++ b/omniscidb/IR/Node.cpp
@@ -10,6 +10,8 @@
 #include "InputRewriter.h"
 #include "UnnestDetector.h"
 
+#include <unordered_set>
+
 namespace hdk::ir {
 
 namespace {
@@ -389,17 +391,24 @@ void Shuffle::rewriteExprs(hdk::ir::ExprRewriter& rewriter) {
 
 namespace {
 
-void collectNodes(NodePtr node, std::vector<NodePtr> nodes) {
+void collectNodes(NodePtr node,
+                  std::vector<NodePtr>& nodes,
+                  std::unordered_set<const Node*>& visited) {
+  if (!visited.insert(node.get()).second) {
+    return;
+  }
   for (size_t i = 0; i < node->inputCount(); ++i) {
-    collectNodes(std::const_pointer_cast<Node>(node->getAndOwnInput(i)), nodes);
+    collectNodes(node->getAndOwnInput(i), nodes, visited);
   }
   nodes.push_back(node);
 }
 
 }  // namespace
 
-QueryDag::QueryDag(ConfigPtr config, NodePtr root) : config_(config), root_(root) {
-  collectNodes(root_, nodes_);
+QueryDag::QueryDag(ConfigPtr config, NodePtr root) : QueryDag(config) {
+  root_ = root;
+  std::unordered_set<const Node*> visited;
+  collectNodes(root_, nodes_, visited);
 }
 
 void QueryDag::eachNode(std::function<void(Node const*)> const& callback) const {
-- 
2.43.0


From ccc40c00fdf5ec12533c118f68e7ac8093be466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:49 +0000
Subject: [PATCH 85/86] fix: count rows once when finalizing quantiles of a cut
 result

finalizeAggregates counts the rows of a result set with a limit or an
offset through the row iterator, which already skips the dropped rows,
and then applied limit and offset to that number again. rowCount() of a
finalized result with an offset was too small.
---
 omniscidb/ResultSet/ResultSet.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/omniscidb/ResultSet/ResultSet.cpp b/omniscidb/ResultSet/ResultSet.cpp
index 300c087..97ae910 100644
--- a/omniscidb/ResultSet/ResultSet.cpp
+++ b/omniscidb/ResultSet/ResultSet.cpp
@@ -1292,6 +1292,8 @@ void ResultSet::finalizeAggregates() {
       ++iter;
       ++row_count;
     }
+    // The iterator has already applied limit and offset.
+    setCachedRowCount(row_count);
   } else {
     row_count = tbb::parallel_reduce(
         tbb::blocked_range((size_t)0, appended_storage_.size() + 1),
@@ -1321,9 +1323,8 @@ void ResultSet::finalizeAggregates() {
           return row_count_cnt1;
         },
         std::plus<size_t>());  // end iteration by storage
+    setCachedRowCount(row_count);
   }
-
-  setCachedRowCount(get_truncated_row_count(row_count, getLimit(), drop_first_));
 }
 
 // namespace result_set
-- 
2.43.0


From 2884bd883a1c2bcfa9fbaf31c958a74ff694ff61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:14 +0000
Subject: [PATCH 86/86] fix: don't let MIN over NULLs mark the presence of a
 keyless group

---
 omniscidb/QueryEngine/MemoryLayoutBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
index 0f16c2d..5b7a3c4 100644
--- a/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
+++ b/omniscidb/QueryEngine/MemoryLayoutBuilder.cpp
@@ -332,6 +332,12 @@ KeylessInfo get_keyless_info(const RelAlgExecutionUnit& ra_exe_unit,
           }
           auto expr_range_info =
               getExpressionRange(agg_expr->arg(), query_infos, executor);
+          // The init value of a nullable kMin is the NULL sentinel, a group with NULLs
+          // only can't be told from an empty one.
+          if (expr_range_info.getType() == ExpressionRangeType::Invalid ||
+              expr_range_info.hasNulls()) {
+            break;
+          }
           auto init_max = get_agg_initial_val(agg_info.agg_kind,
                                               chosen_type,
                                               is_group_by || float_argument_input,
-- 
2.43.0


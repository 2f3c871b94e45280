From 91d31f8678e399440f92a4662b2c96bc5a6456fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 01/44] fix: parallel_for reports the index of the failed job

The error list recorded the loop variable of the thread-spawning loop,
captured by reference: the wrong number, and a dangling reference read
concurrently with its increment.
---
 include/utl/parallel_for.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 5d75804..7eee386 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -47,7 +47,7 @@ inline errors_t parallel_for_run_threadlocal(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(std::pair{idx, std::current_exception()});
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
@@ -90,7 +90,7 @@ inline errors_t parallel_for_run(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(std::pair{idx, std::current_exception()});
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
-- 
2.43.0


From a8393f1bca60bf1d96bde59dbfe77884b9303f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 02/44] fix: run on at least one thread if hardware concurrency
 is unknown

std::thread::hardware_concurrency() may return 0: the parallel loops then
skipped all jobs silently and the thread pool blocked forever.
---
 include/utl/parallel_for.h | 6 ++++--
 include/utl/thread_pool.h  | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 7eee386..50e740d 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -32,7 +32,8 @@ inline errors_t parallel_for_run_threadlocal(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < thread_count; ++i) {
     threads.emplace_back([&]() {
       auto threadlocal = ThreadLocal{};
 
@@ -77,7 +78,8 @@ inline errors_t parallel_for_run(
   std::atomic<size_t> counter(0);
   std::atomic<bool> quit{false};
   std::vector<std::thread> threads;
-  for (auto i = 0u; i < std::thread::hardware_concurrency(); ++i) {
+  auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
+  for (auto i = 0u; i < thread_count; ++i) {
     threads.emplace_back([&]() {
       while (!quit) {
         auto const idx = counter.fetch_add(1);
diff --git a/include/utl/thread_pool.h b/include/utl/thread_pool.h
index dfaec53..947d11d 100644
--- a/include/utl/thread_pool.h
+++ b/include/utl/thread_pool.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <algorithm>
 #include <condition_variable>
 #include <atomic>
 #include <functional>
@@ -21,7 +22,8 @@ struct thread_pool {
         stop_{false},
         job_count_{0},
         counter_{0} {
-    for (auto i = 0U; i < std::thread::hardware_concurrency(); ++i) {
+    auto const thread_count = std::max(1U, std::thread::hardware_concurrency());
+    for (auto i = 0U; i < thread_count; ++i) {
       threads_.emplace_back([&, this] {
         initializer_();
         while (true) {
-- 
2.43.0


From 3098cdf214b3d86c9ebe35d96ecb3e2045f83bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:37 +0000
Subject: [PATCH 03/44] fix: progress tracker output is no NaN for an input
 range of 0

---
 src/progress_tracker.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 33b2c59..d644122 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,8 +120,10 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
-                                           static_cast<double>(in_high_));
+  auto const in_ratio =
+      in_high_ == 0ULL ? 1.F
+                       : static_cast<float>(static_cast<double>(in_) /
+                                            static_cast<double>(in_high_));
 
   auto const new_out = std::clamp(
       out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-- 
2.43.0


From 81bb3232a5e06d74b83a335f156796e72684bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:49 +0000
Subject: [PATCH 04/44] fix: concurrent progress updates never leave a stale
 output

A thread that computed its output before another one's update could publish
it afterwards: the output moved backwards or stayed outdated for good.
---
 src/progress_tracker.cc | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index d644122..75a6cb0 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -119,19 +119,27 @@ void progress_tracker::increment(size_t const inc) {
 }
 
 void progress_tracker::update_out() {
-  auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio =
-      in_high_ == 0ULL ? 1.F
-                       : static_cast<float>(static_cast<double>(in_) /
-                                            static_cast<double>(in_high_));
-
-  auto const new_out = std::clamp(
-      out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-      out_low_, out_high_);
-
-  auto old_out = out_.exchange(new_out);
-  if (old_out != new_out) {
-    callback_(*this);
+  auto old_out = out_.load();
+  while (true) {
+    // read the input after old_out, and again after each publication:
+    // concurrent updates must not leave an output for an outdated input
+    auto const out_range = (out_high_ - out_low_);
+    auto const in_ratio =
+        in_high_ == 0ULL ? 1.F
+                         : static_cast<float>(static_cast<double>(in_) /
+                                              static_cast<double>(in_high_));
+
+    auto const new_out = std::clamp(
+        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
+        out_low_, out_high_);
+
+    if (old_out == new_out) {
+      break;
+    }
+    if (out_.compare_exchange_strong(old_out, new_out)) {
+      old_out = new_out;
+      callback_(*this);
+    }
   }
 }
 
-- 
2.43.0


From 16507e61925d2b963e839a9f569c3265dd0e9539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 05/44] fix: cstr::substr stays within the text for any range

An inverted range or a start beyond the end underflowed the length.
---
 include/utl/parser/cstr.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 2691fb8..a01e9f1 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -83,10 +83,13 @@ struct cstr {
   }
   cstr substr(size_t begin, size_t end) const {
     auto const adjusted_begin = std::min(begin, len);
-    auto const adjusted_end = std::min(end, len);
+    auto const adjusted_end = std::max(adjusted_begin, std::min(end, len));
     return {str + adjusted_begin, adjusted_end - adjusted_begin};
   }
-  cstr substr(size_t begin) const { return {str + begin, len - begin}; }
+  cstr substr(size_t begin) const {
+    auto const adjusted_begin = std::min(begin, len);
+    return {str + adjusted_begin, len - adjusted_begin};
+  }
   cstr substr(field const& f) const {
     return (f.size == field::MAX_SIZE) ? substr(f.from)
                                        : substr(f.from, size(f.size));
-- 
2.43.0


From a11295bfc8db8f7c18115f45d3b176ea014602a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 06/44] fix: cstr comparison looks at all bytes

strncmp stopped at the first zero byte: views with equal length that differ
after it compared equal.
---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index a01e9f1..5ec2c54 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -58,7 +58,7 @@ struct cstr {
     } else if (len == 0) {
       return true;
     } else {
-      return strncmp(str, s.str, len) == 0;
+      return std::memcmp(str, s.str, len) == 0;
     }
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
-- 
2.43.0


From d1f82e67542b11c90019e69c4da9e3e824d111dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 07/44] fix: line_iterator + n returns the advanced iterator

It advanced itself and returned the old position.
---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 5ec2c54..a1982f4 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -231,7 +231,7 @@ struct line_iterator {
   }
   line_iterator operator+(difference_type const n) {
     line_iterator curr = *this;
-    *this += n;
+    curr += n;
     return curr;
   }
 
-- 
2.43.0


From c562a299368029f231098843b5cd226df865fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:08 +0000
Subject: [PATCH 08/44] fix: skip_lines skips the whole line end

With CRLF line ends the line feed was left over as an extra empty line.
---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index a1982f4..15dd8a5 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -278,7 +278,7 @@ cstr skip_lines(cstr file_content, Predicate skip) {
     if (!skip(line)) {
       break;
     }
-    file_content += line.len;
+    file_content += get_until(file_content, '\n').len;
     if (file_content.len != 0) {
       ++file_content;
     }
-- 
2.43.0


From e9a1293c2caa956dc685cdf5df0aa43da6fe7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 09/44] fix: an empty line does not end a line range or CSV
 range

All lines after the first empty one were dropped silently.
---
 include/utl/parser/csv_range.h  | 14 ++++++--------
 include/utl/parser/line_range.h |  2 +-
 2 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/include/utl/parser/csv_range.h b/include/utl/parser/csv_range.h
index 3f3077b..83e9195 100644
--- a/include/utl/parser/csv_range.h
+++ b/include/utl/parser/csv_range.h
@@ -105,13 +105,9 @@ struct csv_range : public LineRange {
   }
 
   std::optional<T> begin() {
-    cstr s;
-    LineRange::next(s);
-    if (LineRange::valid(s)) {
-      return read_row(s);
-    } else {
-      return std::nullopt;
-    }
+    std::optional<T> it;
+    next(it);
+    return it;
   }
 
   template <typename It>
@@ -122,7 +118,9 @@ struct csv_range : public LineRange {
   template <typename It>
   void next(It& it) {
     cstr s;
-    LineRange::next(s);
+    do {
+      LineRange::next(s);
+    } while (LineRange::valid(s) && strip_cr(s).empty());  // skip empty lines
     if (LineRange::valid(s)) {
       it = read_row(s);
     } else {
diff --git a/include/utl/parser/line_range.h b/include/utl/parser/line_range.h
index 5255be2..5c22675 100644
--- a/include/utl/parser/line_range.h
+++ b/include/utl/parser/line_range.h
@@ -22,7 +22,7 @@ struct line_range {
 
   template <typename It>
   bool valid(It& it) {
-    return it.valid();
+    return it.data() != nullptr;  // an empty line is not the end
   }
 
   Reader r_;
-- 
2.43.0


From 0465b08df52d2ccafcd248b54c38bf15d0d639e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 10/44] fix: CSV cell with a missing closing quote

The length was computed as if the closing quote had been there: bytes were
lost, and the length of a cell consisting only of a quote underflowed.
---
 include/utl/parser/csv.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9968734..a1056b8 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -27,7 +27,7 @@ inline void parse_column(cstr& s, T& arg) {
   }
 
   auto begin = s;
-  int adjust_for_cr = 0;
+  auto content_end = s.end();
   while (s) {
     char c = *s.str;
 
@@ -38,10 +38,10 @@ inline void parse_column(cstr& s, T& arg) {
     }
 
     if (c == end || c == '\r' || c == '\n' || s.len == 0) {
-      if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
+      content_end = s.str;
+      if ((end == '"' && c == end) || c == '\r') {
         ++s;
       }
-      adjust_for_cr = (c == '\r') ? -1 : 0;
       break;
     }
 
@@ -50,9 +50,7 @@ inline void parse_column(cstr& s, T& arg) {
     }
   }
 
-  int adjust_for_quote = (end == '"') ? -1 : 0;
-  arg.assign(begin.str, static_cast<size_t>((s.str - begin.str) +
-                                            adjust_for_quote + adjust_for_cr));
+  arg.assign(begin.str, static_cast<size_t>(content_end - begin.str));
 }
 
 template <typename StringType>
-- 
2.43.0


From 0fcb6382def39a36597e03591ff04b76a4398c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 11/44] fix: no signed overflow when parsing integers

Parsing the smallest value of a type or a number out of range was undefined.
---
 include/utl/parser/arg_parser.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index d50755a..c96dc27 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -16,10 +16,13 @@ inline bool parse_arg(
     cstr& s, IntType& arg,
     typename std::enable_if<std::is_integral<IntType>::value, IntType>::type
         default_value = 0) {
-  IntType sign = 1;
+  // unsigned: no overflow, neither for the smallest value nor for bad input
+  using value_t = std::make_unsigned_t<IntType>;
+  auto negative = false;
+  auto value = value_t{0};
   if constexpr (std::is_signed_v<IntType>) {
     if (s && s[0] == '-') {
-      sign = -1;
+      negative = true;
       ++s;
     }
   }
@@ -28,14 +31,13 @@ inline bool parse_arg(
     ++s;
   }
 
-  arg = 0;
   bool value_okay = false;
   while (s) {
     char c = *s.str;
     if (c > '9' || c < '0') {
       break;
     }
-    arg = arg * 10 + static_cast<IntType>(c - '0');
+    value = static_cast<value_t>(value * 10U + static_cast<unsigned>(c - '0'));
     value_okay = true;
     ++s;
   }
@@ -43,7 +45,7 @@ inline bool parse_arg(
   if (!value_okay) {
     arg = default_value;
   } else {
-    arg *= sign;
+    arg = static_cast<IntType>(negative ? value_t{0} - value : value);
   }
 
   return value_okay && s.empty();
-- 
2.43.0


From 1a6e46e46e6220fb6dcb36beb042b5beffcfe286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 12/44] fix: parse floating point numbers beyond the range of
 int

The part before the point was parsed as int. Also, a text without any digit
or with two signs is no number.
---
 include/utl/parser/arg_parser.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index c96dc27..109cdd2 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -64,12 +64,20 @@ inline bool parse_fp(cstr& s, T& v) {
     ++s;
   }
 
-  int pre_point;
-  parse_arg(s, pre_point);
-  v = static_cast<T>(pre_point);
+  if (s && *s.str == '+') {
+    ++s;
+  }
+
+  auto has_digits = false;
+  v = T{0.0};
+  while (s && *s.str >= '0' && *s.str <= '9') {
+    v = v * 10 + static_cast<T>(*s.str - '0');
+    has_digits = true;
+    ++s;
+  }
   if (s.len == 0) {
     v *= sign;
-    return true;
+    return has_digits;
   }
 
   if (*s.str != '.') {
@@ -88,13 +96,14 @@ inline bool parse_fp(cstr& s, T& v) {
     }
     v += multiplier * (c - '0');
     multiplier *= static_cast<T>(0.1);
+    has_digits = true;
     if (s) {
       ++s;
     }
   }
   v *= sign;
 
-  return is_good;
+  return is_good && has_digits;
 }
 
 inline bool parse_arg(cstr& s, float& arg) { return parse_fp(s, arg); }
-- 
2.43.0


From b95471947eaca67fb670a3166d2ce01aa8883d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 13/44] fix: parsing false overrides a default of true

---
 include/utl/parser/arg_parser.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index 109cdd2..56d02fa 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -127,6 +127,7 @@ inline bool parse_arg(cstr& s, bool& b, bool const default_value = false) {
     for (int i = 0; i < 4 && s; ++i, ++s);
     return ret;
   } else if (c == 'f') {
+    b = false;
     auto const ret = s.len == 5 &&  //
                      std::tolower(s[1]) == 'a' &&  //
                      std::tolower(s[2]) == 'l' &&  //
-- 
2.43.0


From 6ba1b2cc54705bf8b690845ea0c53ae14f7f5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 14/44] fix: parsing a path stops at the end of the view

---
 include/utl/parser/arg_parser.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index 56d02fa..8e8ae77 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -147,7 +147,9 @@ inline void parse_arg(cstr& s, cista::raw::generic_string& arg) {
   arg.set_non_owning(s.str, static_cast<unsigned>(s.len));
 }
 
-inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.str; }
+inline void parse_arg(cstr& s, std::filesystem::path& arg) {
+  arg = s.view();
+}
 
 template <typename T>
 inline T parse(cstr s) {
-- 
2.43.0


From 5555bd54b96f7aabeda4dbdd7db89b09cd074648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 15/44] fix: is_uniform leaves the range untouched and accepts
 an empty one

---
 include/utl/is_uniform.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index a4e58be..e15a4e6 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -7,24 +7,20 @@ namespace utl {
 
 template <typename It1, typename It2, typename Predicate>
 bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (fn(*it) != fn(pred)) {
+  for (auto it = it1; it != it2; ++it) {
+    if (fn(*it) != fn(*it1)) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
 
 template <typename It1, typename It2>
 bool is_uniform(It1&& it1, It2&& it2) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (*it != pred) {
+  for (auto it = it1; it != it2; ++it) {
+    if (*it != *it1) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
-- 
2.43.0


From c4fea01757152bd3506c811b224e5facfe8b5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 16/44] fix: distance to the end of an enumeration

---
 include/utl/enumerate.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index c87b7cc..e537730 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -20,7 +20,12 @@ struct iterator {
   using pointer = std::add_pointer_t<value_type>;
 
   difference_type operator-(iterator const& o) const {
-    return static_cast<std::ptrdiff_t>(i_) - static_cast<std::ptrdiff_t>(o.i_);
+    if constexpr (requires { iter_ - o.iter_; }) {
+      return static_cast<difference_type>(iter_ - o.iter_);  // end has no index
+    } else {
+      return static_cast<std::ptrdiff_t>(i_) -
+             static_cast<std::ptrdiff_t>(o.i_);
+    }
   }
 
   bool operator!=(iterator const& o) const { return iter_ != o.iter_; }
-- 
2.43.0


From e02e6e48612d8810dd7dd53ea559c08e8413c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 17/44] fix: postfix increment and decrement of the enumerate
 iterator

---
 include/utl/enumerate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index e537730..35e958d 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -42,13 +42,13 @@ struct iterator {
     --iter_;
   }
 
-  iterator operator++(int) const {
+  iterator operator++(int) {
     auto tmp = *this;
     ++(*this);
     return tmp;
   }
 
-  iterator operator--(int) const
+  iterator operator--(int)
     requires(std::bidirectional_iterator<It>)
   {
     auto tmp = *this;
-- 
2.43.0


From e8c912f54b1469f05ca1c8e2faf2c16b0b737dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 18/44] fix: make_range of a container does not return a
 dangling reference

---
 include/utl/pipes/make_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 02aa10e..434f5e3 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -10,10 +10,10 @@
 namespace utl {
 
 template <typename T>
-auto&& make_range(T&& t) {
+decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return t;
+    return (t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
-- 
2.43.0


From 0d513cdc2a950619dc1b3cdcc856551ab2ec4498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 19/44] fix: take_while stops at the end of its source

---
 include/utl/pipes/take_while.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index ca02a27..6a7bffb 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -18,7 +18,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename It>
   bool valid(It& it) {
-    return take_while_.fn_(this->read(it));
+    return parent_t::valid(it) && take_while_.fn_(this->read(it));
   }
 
   TakeWhile take_while_;
-- 
2.43.0


From 9bd91aed5a415771af801967babc73017f31c112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 20/44] fix: average of negative and fractional values

---
 include/utl/pipes/avg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/avg.h b/include/utl/pipes/avg.h
index 5d81b36..0c3d850 100644
--- a/include/utl/pipes/avg.h
+++ b/include/utl/pipes/avg.h
@@ -9,11 +9,11 @@ namespace utl {
 struct avg_t {
   template <typename T>
   friend double operator|(T&& r, avg_t) {
-    auto sum = std::size_t{0};
+    auto sum = 0.0;
     auto count = std::size_t{0};
     auto it = r.begin();
     while (r.valid(it)) {
-      sum += r.read(it);
+      sum += static_cast<double>(r.read(it));
       ++count;
       r.next(it);
     }
-- 
2.43.0


From 1996eb7bb266f704534fb197341e27ebcc47e033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 21/44] fix: buffer move assignment releases the old memory

---
 include/utl/parser/buffer.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 7d1ba8a..4529016 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -37,10 +37,13 @@ struct buffer final {
   }
 
   buffer& operator=(buffer&& o) noexcept {
-    buf_ = o.buf_;
-    size_ = o.size_;
-    o.buf_ = nullptr;
-    o.size_ = 0;
+    if (this != &o) {
+      std::free(buf_);
+      buf_ = o.buf_;
+      size_ = o.size_;
+      o.buf_ = nullptr;
+      o.size_ = 0;
+    }
     return *this;
   }
 
-- 
2.43.0


From ee57b938f416ab637f4dfe74a0bc3b125c5bc4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 22/44] fix: buffer resize to zero does not free the memory
 twice

---
 include/utl/parser/buffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 4529016..35551b7 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -58,7 +58,8 @@ struct buffer final {
   inline unsigned char* end() { return data() + size_; }
 
   inline void resize(std::size_t new_size) {
-    if (void* tmp = std::realloc(buf_, new_size)) {
+    // realloc with size 0 frees the memory and returns a null pointer
+    if (void* tmp = std::realloc(buf_, new_size == 0 ? 1 : new_size)) {
       buf_ = tmp;
       size_ = new_size;
     } else {
-- 
2.43.0


From 922fd05fb18c410f5a7d8f72d81fc676f5e9741d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 23/44] fix: mmap_reader move assignment releases the old file
 and mapping

---
 include/utl/parser/mmap_reader_unix.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index abf6dd4..823bf8b 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -30,10 +30,15 @@ struct mmap_reader {
     }
 
     file& operator=(file&& o) noexcept {
-      fd_ = o.fd_;
-      size_ = o.size_;
-      o.fd_ = -1;
-      o.size_ = 0;
+      if (this != &o) {
+        if (fd_ != -1) {
+          close(fd_);
+        }
+        fd_ = o.fd_;
+        size_ = o.size_;
+        o.fd_ = -1;
+        o.size_ = 0;
+      }
       return *this;
     }
 
@@ -76,9 +81,14 @@ struct mmap_reader {
     }
 
     memory_map& operator=(memory_map&& o) noexcept {
-      f_ = std::move(o.f_);
-      fmap_ = o.fmap_;
-      o.fmap_ = nullptr;
+      if (this != &o) {
+        if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT
+          munmap(fmap_, f_.size_);
+        }
+        f_ = std::move(o.f_);
+        fmap_ = o.fmap_;
+        o.fmap_ = nullptr;
+      }
       return *this;
     }
 
-- 
2.43.0


From 39931897eabaa3ef99b2be6dc1dfc9efd05afd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 24/44] fix: moving a finally guard keeps exactly the pending
 cleanups

---
 include/utl/raii.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 508333d..23ced07 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -49,13 +49,20 @@ struct finally {
   finally(finally const&) = delete;
   finally& operator=(finally const&) = delete;
 
-  finally(finally&& o) noexcept : destruct_{std::move(o.destruct_)} {
+  finally(finally&& o) noexcept
+      : exec_{o.exec_}, destruct_{std::move(o.destruct_)} {
     o.exec_ = false;
   }
 
   finally& operator=(finally&& o) noexcept {
-    destruct_ = std::move(o.destruct_);
-    o.exec_ = false;
+    if (this != &o) {
+      if (exec_) {
+        destruct_();
+      }
+      destruct_ = std::move(o.destruct_);
+      exec_ = o.exec_;
+      o.exec_ = false;
+    }
     return *this;
   }
 
-- 
2.43.0


From feb09ae56ffd3cccfa1afb6b5bfc800316ddaffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 25/44] fix: a generator has exactly one owner

---
 include/utl/generator.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index 4f2b3c8..bb9572e 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,5 +1,6 @@
 #include <coroutine>
 #include <exception>
+#include <utility>
 
 namespace utl {
 
@@ -27,10 +28,27 @@ struct generator {
 
   generator(handle_type h) : h_(h) {}
 
-  ~generator() { h_.destroy(); }
+  generator(generator const&) = delete;
+  generator& operator=(generator const&) = delete;
+
+  generator(generator&& o) noexcept
+      : h_{std::exchange(o.h_, nullptr)},
+        full_{std::exchange(o.full_, false)} {}
+
+  generator& operator=(generator&& o) noexcept {
+    std::swap(h_, o.h_);
+    std::swap(full_, o.full_);
+    return *this;
+  }
+
+  ~generator() {
+    if (h_) {
+      h_.destroy();
+    }
+  }
 
   explicit operator bool() {
-    if (h_.done()) {
+    if (!h_ || h_.done()) {
       return false;
     }
     fill();
-- 
2.43.0


From 3de95565ed3ab3fd2c3197a0b44466e9d61b10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 26/44] fix: log time stamps of years with more than four
 digits

---
 include/utl/logging.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/logging.h b/include/utl/logging.h
index 8359454..60cc197 100644
--- a/include/utl/logging.h
+++ b/include/utl/logging.h
@@ -52,7 +52,7 @@ struct log {
 enum log_level { emrg, alrt, crit, err, warn, notice, info, debug };
 
 inline std::string time(time_t const t) {
-  char buf[sizeof "2011-10-08t07:07:09z-0430"];
+  char buf[sizeof "-2147483648-10-08t07:07:09z-0430"];
   struct tm result {};
   gmt(&t, &result);
   strftime(buf, sizeof buf, "%FT%TZ%z", &result);
-- 
2.43.0


From 09dfdc91c914c83b7d8c4e9115a1f5321afa0a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 27/44] fix: file::write reports write errors that surface on
 flushing

---
 include/utl/parser/file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 9be1e1a..b6e657a 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -181,7 +181,8 @@ struct file {
 
   void write(void const* buf, size_t size) {
     auto bytes_written = std::fwrite(buf, 1, size, f_);
-    verify(bytes_written == size, "file write error: {}", filename_);
+    verify(bytes_written == size && std::fflush(f_) == 0,
+           "file write error: {}", filename_);
   }
 
   operator FILE*() { return f_; }
-- 
2.43.0


From fbacd3b8a303b555dcfecc4748e387540d910cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:51 +0000
Subject: [PATCH 28/44] fix: file::size reports a failing ftell

---
 include/utl/parser/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index b6e657a..1f233c2 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -158,6 +158,7 @@ struct file {
     auto err = std::fseek(f_, 0, SEEK_END);
     verify(!err, "fseek to SEEK_END error: {}", filename_);
     auto size = std::ftell(f_);
+    verify(size != -1, "ftell error: {}", filename_);
     std::rewind(f_);
     return static_cast<size_t>(size);
   }
-- 
2.43.0


From c33d694d50ea3ea9f1bea571584fd5b305575169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 29/44] fix: compare facade iterators with their own sentinel
 type

---
 include/utl/iterator_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 201e355..6e113d7 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -111,7 +111,7 @@ template <typename T>
 concept iter_is_single_pass = bool(T::single_pass_iterator);
 
 template <typename T, typename Iter>
-concept iter_sentinel = std::is_same_v<T, typename T::sentinel_type>;
+concept iter_sentinel = std::is_same_v<T, typename Iter::sentinel_type>;
 
 // clang-format on
 
-- 
2.43.0


From 3c824f179198c283f13b8bc5c20abe17e59abefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 30/44] fix: iterator facade over bidirectional and forward
 iterators

---
 include/utl/iterator_facade.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 6e113d7..86fc4f5 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -104,7 +104,7 @@ iter_has_advance_method<T>;
 
 template <typename T>
 concept iter_is_bidirectional =
-iter_is_random_access<T> ||
+iter_has_advance_method<T> ||
 iter_has_decrement_method<T>;
 
 template <typename T>
@@ -274,12 +274,12 @@ public:
       // If there is an increment(), assume it is the most efficient way to
       // advance, even if we have an advance()
       _self().increment();
-    } else if constexpr (detail::iter_is_random_access<self_type>) {
+    } else if constexpr (detail::iter_has_advance_method<self_type>) {
       // Just offset by one
-      _self() += 1;
+      _self().advance(1);
     } else {
       // Bad!
-      static_assert(detail::iter_is_random_access<self_type>,
+      static_assert(detail::iter_has_advance_method<self_type>,
                     "Iterator subclass must provide an `increment` or "
                     "`advance(n)` method");
     }
@@ -304,7 +304,7 @@ public:
     if constexpr (detail::iter_has_decrement_method<self_type>) {
       _self().decrement();
     } else {
-      _self() -= 1;
+      _self().advance(-1);
     }
     return _self();
   }
@@ -473,16 +473,21 @@ public:
   iterator_wrapper_facade() = default;
   explicit iterator_wrapper_facade(InnerIterator it) : wrapped_iterator(it) {}
 
+  constexpr void increment() noexcept { ++wrapped_iterator; }
+
+  // clang-format off
   template <detail::iter_diff<self_type> D>
-  constexpr void advance(D off) noexcept {
+  constexpr void advance(D off) noexcept
+  requires std::is_base_of_v<
+      std::bidirectional_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     std::advance(wrapped_iterator, off);
   }
 
-  // clang-format off
   constexpr auto distance_to(const self_type& other) const noexcept
   requires std::is_base_of_v<
-      typename std::iterator_traits<InnerIterator>::iterator_category,
-      std::random_access_iterator_tag> {
+      std::random_access_iterator_tag,
+      typename std::iterator_traits<InnerIterator>::iterator_category> {
     return other.wrapped_iterator - wrapped_iterator;
   }
   // clang-format on
-- 
2.43.0


From 3f5a0c7653ae003c4fc69e984924d082c6dd70ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:05 +0000
Subject: [PATCH 31/44] fix: piping a named range onward leaves it intact

---
 include/utl/pipes/iterable.h   | 2 +-
 include/utl/pipes/make_range.h | 2 +-
 include/utl/pipes/take_while.h | 2 +-
 include/utl/pipes/unique.h     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utl/pipes/iterable.h b/include/utl/pipes/iterable.h
index 8baeabf..b52be78 100644
--- a/include/utl/pipes/iterable.h
+++ b/include/utl/pipes/iterable.h
@@ -30,7 +30,7 @@ template <typename Range>
 struct iterable_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
   iterable_range() = default;
-  explicit iterable_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  explicit iterable_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
   auto begin() { return it{*this, parent_t::begin()}; }
   auto end() { return end_it{}; }
   friend auto begin(iterable_range const& r) { return r.begin(); }
diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 434f5e3..b45dbe9 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -13,7 +13,7 @@ template <typename T>
 decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return (t);
+    return static_cast<T&&>(t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index 6a7bffb..bfe0090 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -13,7 +13,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename R>
   take_while_range(R&& r, TakeWhile&& take_while)
-      : parent_t(std::forward<parent_t>(r)),
+      : parent_t(std::forward<R>(r)),
         take_while_(std::forward<TakeWhile>(take_while)) {}
 
   template <typename It>
diff --git a/include/utl/pipes/unique.h b/include/utl/pipes/unique.h
index 9a11954..487e67f 100755
--- a/include/utl/pipes/unique.h
+++ b/include/utl/pipes/unique.h
@@ -11,7 +11,7 @@ template <typename Range>
 struct unique_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
 
-  unique_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  unique_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
 
   template <typename It>
   void find(It& it) {
-- 
2.43.0


From 7d44c509b4186981b4d0850acafcdb977c2ec33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:07 +0000
Subject: [PATCH 32/44] fix: a range over two iterators holds the iterators

---
 include/utl/pipes/all.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/all.h b/include/utl/pipes/all.h
index 49dfdcc..8b8b0c3 100644
--- a/include/utl/pipes/all.h
+++ b/include/utl/pipes/all.h
@@ -21,8 +21,8 @@ auto all(Container& c) {
 
 template <typename BeginIt, typename EndIt>
 auto all(BeginIt&& a, EndIt&& e) {
-  return range<BeginIt, EndIt>{std::forward<BeginIt>(a),
-                               std::forward<EndIt>(e)};
+  return range<std::decay_t<BeginIt>, std::decay_t<EndIt>>{
+      std::forward<BeginIt>(a), std::forward<EndIt>(e)};
 }
 
 template <typename Container>
-- 
2.43.0


From 392a2b20985b4f885bb39eedeff18a4aa0791cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 33/44] fix: a range holding a container moves it in instead of
 nesting it

---
 include/utl/pipes/all.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/all.h b/include/utl/pipes/all.h
index 8b8b0c3..eb49ca3 100644
--- a/include/utl/pipes/all.h
+++ b/include/utl/pipes/all.h
@@ -33,7 +33,7 @@ struct holding_range {
   using begin_t = typename Container::const_iterator;
   using end_t = typename Container::const_iterator;
 
-  explicit holding_range(Container&& c) : c_{std::forward<decltype(c)>(c)} {}
+  explicit holding_range(Container&& c) : c_(std::forward<decltype(c)>(c)) {}
 
   auto begin() const { return c_.begin(); }
   auto end() const { return c_.end(); }
-- 
2.43.0


From 813f46a22c3d16ad7755b7ac74ad1a2cfd04b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:52 +0000
Subject: [PATCH 34/44] fix: a range over an initializer list holds its
 elements

---
 include/utl/pipes/all.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/utl/pipes/all.h b/include/utl/pipes/all.h
index eb49ca3..3acc962 100644
--- a/include/utl/pipes/all.h
+++ b/include/utl/pipes/all.h
@@ -2,6 +2,7 @@
 
 #include <initializer_list>
 #include <utility>
+#include <vector>
 
 #include "utl/clear_t.h"
 #include "utl/pipes/is_range.h"
@@ -78,7 +79,7 @@ auto all(Container&& c) {
 
 template <typename T>
 auto all(std::initializer_list<T>&& c) {
-  return holding_range{std::forward<decltype(c)>(c)};
+  return holding_range<std::vector<T>>{std::vector<T>(c)};
 }
 
 }  // namespace utl
\ No newline at end of file
-- 
2.43.0


From 00335ca9afa49cc33a41c70e64e76f6b16c61dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:09 +0000
Subject: [PATCH 35/44] fix: printable enums trim the space before a comma

---
 include/utl/printable_enum.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utl/printable_enum.h b/include/utl/printable_enum.h
index 7b6f269..82f425d 100644
--- a/include/utl/printable_enum.h
+++ b/include/utl/printable_enum.h
@@ -2,6 +2,7 @@
 
 #include <algorithm>
 #include <iostream>
+#include <iterator>
 #include <string>
 
 #define PRINTABLE_ENUM(name, ...)                                    \
@@ -17,6 +18,9 @@
       start = c;                                                     \
       c = std::find(std::next(c), end(s), ',');                      \
     }                                                                \
+    while (c != start && *std::prev(c) == ' ') {                     \
+      --c;                                                           \
+    }                                                                \
     return {start, c};                                               \
   }                                                                  \
   inline std::ostream& operator<<(std::ostream& out, name const v) { \
-- 
2.43.0


From b7d3bc51ac797c53b8278600fa010fd4364aa052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:45 +0000
Subject: [PATCH 36/44] fix: names and descriptions of more than 30 characters
 are cut off

---
 include/utl/const_str.h | 126 +++++++++++-----------------------------
 1 file changed, 33 insertions(+), 93 deletions(-)

diff --git a/include/utl/const_str.h b/include/utl/const_str.h
index c8defe6..cedcaad 100644
--- a/include/utl/const_str.h
+++ b/include/utl/const_str.h
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstddef>
+#include <utility>
+
 namespace utl {
 
 template <char... Chars>
@@ -7,100 +10,37 @@ struct const_str {
   static constexpr char const s[sizeof...(Chars) + 1] = {Chars..., 0};
 };
 
-#if __cplusplus < 201703L
-template <char... Chars>
-constexpr char const const_str<Chars...>::s[sizeof...(Chars) + 1];
-#endif
+namespace detail {
+
+// string literal as template argument
+template <std::size_t N>
+struct literal {
+  constexpr literal(char const (&str)[N]) {
+    for (auto i = std::size_t{0U}; i != N; ++i) {
+      str_[i] = str[i];
+    }
+  }
+
+  constexpr std::size_t size() const {  // up to the terminator
+    auto size = std::size_t{0U};
+    while (size != N && str_[size] != '\0') {
+      ++size;
+    }
+    return size;
+  }
+
+  char str_[N]{};
+};
+
+template <literal Str, std::size_t... I>
+constexpr auto make_const_str(std::index_sequence<I...>) {
+  return const_str<Str.str_[I]...>{};
+}
 
-#define STRING_LITERAL_30(str) \
-  STRING_LITERAL_29(str), ((TERMINATED_29(str)) ? (str[29]) : ('\0'))
-#define STRING_LITERAL_29(str) \
-  STRING_LITERAL_28(str), ((TERMINATED_28(str)) ? (str[28]) : ('\0'))
-#define STRING_LITERAL_28(str) \
-  STRING_LITERAL_27(str), ((TERMINATED_27(str)) ? (str[27]) : ('\0'))
-#define STRING_LITERAL_27(str) \
-  STRING_LITERAL_26(str), ((TERMINATED_26(str)) ? (str[26]) : ('\0'))
-#define STRING_LITERAL_26(str) \
-  STRING_LITERAL_25(str), ((TERMINATED_25(str)) ? (str[25]) : ('\0'))
-#define STRING_LITERAL_25(str) \
-  STRING_LITERAL_24(str), ((TERMINATED_24(str)) ? (str[24]) : ('\0'))
-#define STRING_LITERAL_24(str) \
-  STRING_LITERAL_23(str), ((TERMINATED_23(str)) ? (str[23]) : ('\0'))
-#define STRING_LITERAL_23(str) \
-  STRING_LITERAL_22(str), ((TERMINATED_22(str)) ? (str[22]) : ('\0'))
-#define STRING_LITERAL_22(str) \
-  STRING_LITERAL_21(str), ((TERMINATED_21(str)) ? (str[21]) : ('\0'))
-#define STRING_LITERAL_21(str) \
-  STRING_LITERAL_20(str), ((TERMINATED_20(str)) ? (str[20]) : ('\0'))
-#define STRING_LITERAL_20(str) \
-  STRING_LITERAL_19(str), ((TERMINATED_19(str)) ? (str[19]) : ('\0'))
-#define STRING_LITERAL_19(str) \
-  STRING_LITERAL_18(str), ((TERMINATED_18(str)) ? (str[18]) : ('\0'))
-#define STRING_LITERAL_18(str) \
-  STRING_LITERAL_17(str), ((TERMINATED_17(str)) ? (str[17]) : ('\0'))
-#define STRING_LITERAL_17(str) \
-  STRING_LITERAL_16(str), ((TERMINATED_16(str)) ? (str[16]) : ('\0'))
-#define STRING_LITERAL_16(str) \
-  STRING_LITERAL_15(str), ((TERMINATED_15(str)) ? (str[15]) : ('\0'))
-#define STRING_LITERAL_15(str) \
-  STRING_LITERAL_14(str), ((TERMINATED_14(str)) ? (str[14]) : ('\0'))
-#define STRING_LITERAL_14(str) \
-  STRING_LITERAL_13(str), ((TERMINATED_13(str)) ? (str[13]) : ('\0'))
-#define STRING_LITERAL_13(str) \
-  STRING_LITERAL_12(str), ((TERMINATED_12(str)) ? (str[12]) : ('\0'))
-#define STRING_LITERAL_12(str) \
-  STRING_LITERAL_11(str), ((TERMINATED_11(str)) ? (str[11]) : ('\0'))
-#define STRING_LITERAL_11(str) \
-  STRING_LITERAL_10(str), ((TERMINATED_10(str)) ? (str[10]) : ('\0'))
-#define STRING_LITERAL_10(str) \
-  STRING_LITERAL_9(str), ((TERMINATED_9(str)) ? (str[9]) : ('\0'))
-#define STRING_LITERAL_9(str) \
-  STRING_LITERAL_8(str), ((TERMINATED_8(str)) ? (str[8]) : ('\0'))
-#define STRING_LITERAL_8(str) \
-  STRING_LITERAL_7(str), ((TERMINATED_7(str)) ? (str[7]) : ('\0'))
-#define STRING_LITERAL_7(str) \
-  STRING_LITERAL_6(str), ((TERMINATED_6(str)) ? (str[6]) : ('\0'))
-#define STRING_LITERAL_6(str) \
-  STRING_LITERAL_5(str), ((TERMINATED_5(str)) ? (str[5]) : ('\0'))
-#define STRING_LITERAL_5(str) \
-  STRING_LITERAL_4(str), ((TERMINATED_4(str)) ? (str[4]) : ('\0'))
-#define STRING_LITERAL_4(str) \
-  STRING_LITERAL_3(str), ((TERMINATED_3(str)) ? (str[3]) : ('\0'))
-#define STRING_LITERAL_3(str) \
-  STRING_LITERAL_2(str), ((TERMINATED_2(str)) ? (str[2]) : ('\0'))
-#define STRING_LITERAL_2(str) \
-  STRING_LITERAL_1(str), ((TERMINATED_1(str)) ? (str[1]) : ('\0'))
-#define STRING_LITERAL_1(str) str[0]
-#define STRING_LITERAL(str) utl::const_str<STRING_LITERAL_30(str)>::s
+}  // namespace detail
 
-#define TERMINATED_29(str) TERMINATED_28(str) && str[28]
-#define TERMINATED_28(str) TERMINATED_27(str) && str[27]
-#define TERMINATED_27(str) TERMINATED_26(str) && str[26]
-#define TERMINATED_26(str) TERMINATED_25(str) && str[25]
-#define TERMINATED_25(str) TERMINATED_24(str) && str[24]
-#define TERMINATED_24(str) TERMINATED_23(str) && str[23]
-#define TERMINATED_23(str) TERMINATED_22(str) && str[22]
-#define TERMINATED_22(str) TERMINATED_21(str) && str[21]
-#define TERMINATED_21(str) TERMINATED_20(str) && str[20]
-#define TERMINATED_20(str) TERMINATED_19(str) && str[19]
-#define TERMINATED_19(str) TERMINATED_18(str) && str[18]
-#define TERMINATED_18(str) TERMINATED_17(str) && str[17]
-#define TERMINATED_17(str) TERMINATED_16(str) && str[16]
-#define TERMINATED_16(str) TERMINATED_15(str) && str[15]
-#define TERMINATED_15(str) TERMINATED_14(str) && str[14]
-#define TERMINATED_14(str) TERMINATED_13(str) && str[13]
-#define TERMINATED_13(str) TERMINATED_12(str) && str[12]
-#define TERMINATED_12(str) TERMINATED_11(str) && str[11]
-#define TERMINATED_11(str) TERMINATED_10(str) && str[10]
-#define TERMINATED_10(str) TERMINATED_9(str) && str[9]
-#define TERMINATED_9(str) TERMINATED_8(str) && str[8]
-#define TERMINATED_8(str) TERMINATED_7(str) && str[7]
-#define TERMINATED_7(str) TERMINATED_6(str) && str[6]
-#define TERMINATED_6(str) TERMINATED_5(str) && str[5]
-#define TERMINATED_5(str) TERMINATED_4(str) && str[4]
-#define TERMINATED_4(str) TERMINATED_3(str) && str[3]
-#define TERMINATED_3(str) TERMINATED_2(str) && str[2]
-#define TERMINATED_2(str) TERMINATED_1(str) && str[1]
-#define TERMINATED_1(str) str[0]
+#define STRING_LITERAL(str)                                        \
+  decltype(utl::detail::make_const_str<utl::detail::literal{str}>( \
+      std::make_index_sequence<utl::detail::literal{str}.size()>{}))::s
 
 }  // namespace utl
-- 
2.43.0


From ba33999295460629d7aeae1f6ec768bac576639b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:56 +0000
Subject: [PATCH 37/44] fix: maximum of a pipeline converted to double

---
 include/utl/pipes/max.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/max.h b/include/utl/pipes/max.h
index 823e281..2f3709f 100644
--- a/include/utl/pipes/max.h
+++ b/include/utl/pipes/max.h
@@ -9,7 +9,7 @@ namespace utl {
 template <typename MaxType>
 struct max {
   template <typename T>
-  friend double operator|(T&& t, max&& f) {
+  friend MaxType operator|(T&& t, max&& f) {
     auto r = make_range(std::forward<T>(t));
     auto it = r.begin();
 
-- 
2.43.0


From 0630fb6be1ff2bd078007b2fc7477e675e79b7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:19 +0000
Subject: [PATCH 38/44] fix: sum of fractional values dropped their fractions

---
 include/utl/pipes/sum.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/sum.h b/include/utl/pipes/sum.h
index 7d23970..02a7fb5 100644
--- a/include/utl/pipes/sum.h
+++ b/include/utl/pipes/sum.h
@@ -1,7 +1,10 @@
 #pragma once
 
+#include <cstddef>
+#include <type_traits>
 #include <utility>
 
+#include "utl/clear_t.h"
 #include "utl/pipes/make_range.h"
 
 namespace utl {
@@ -13,11 +16,14 @@ struct sum {
   friend auto operator|(T&& t, sum&& f) {
     auto r = make_range(std::forward<T>(t));
     auto it = r.begin();
+    using sum_t =
+        std::common_type_t<std::size_t, clear_t<decltype(r.read(it))>>;
+    auto acc = static_cast<sum_t>(f.acc_);
     while (r.valid(it)) {
-      f.acc_ += r.read(it);
+      acc += r.read(it);
       r.next(it);
     }
-    return f.acc_;
+    return acc;
   }
 
   std::size_t acc_ = 0;
-- 
2.43.0


From 3dd7a4551d0e638ac21db05b259bea206ec8939b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:29 +0000
Subject: [PATCH 39/44] fix: to_set of an iterator pair or of references does
 not compile

---
 include/utl/to_set.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/utl/to_set.h b/include/utl/to_set.h
index 657bdee..2452d2c 100644
--- a/include/utl/to_set.h
+++ b/include/utl/to_set.h
@@ -3,22 +3,23 @@
 #include <algorithm>
 #include <iterator>
 #include <set>
+#include <type_traits>
 
 namespace utl {
 
 template <typename It, typename UnaryOperation>
-inline auto to_set(It b, It e,
-                   UnaryOperation&& op) -> std::set<decltype(op(*b))> {
-  using set = std::set<decltype(op(*b))>;
-  set s(std::distance(s, e));
-  std::transform(b, e, std::insert_iterator<set>(s), op);
+inline auto to_set(It b, It e, UnaryOperation&& op)
+    -> std::set<std::decay_t<decltype(op(*b))>> {
+  using set = std::set<std::decay_t<decltype(op(*b))>>;
+  set s;
+  std::transform(b, e, std::insert_iterator<set>(s, s.begin()), op);
   return s;
 }
 
 template <typename Container, typename UnaryOperation>
 inline auto to_set(Container const& c, UnaryOperation&& op)
-    -> std::set<decltype(op(*std::begin(c)))> {
-  using set = std::set<decltype(op(*std::begin(c)))>;
+    -> std::set<std::decay_t<decltype(op(*std::begin(c)))>> {
+  using set = std::set<std::decay_t<decltype(op(*std::begin(c)))>>;
   set s;
   std::transform(std::begin(c), std::end(c),
                  std::insert_iterator<set>(s, begin(s)), op);
-- 
2.43.0


From f717330a0d8eaa28b6fbf099aec23f2b7ddcc068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:03 +0000
Subject: [PATCH 40/44] fix: is_uniform of a collection with a function does
 not compile

---
 include/utl/is_uniform.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index e15a4e6..6bc4c3f 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -2,6 +2,7 @@
 
 #include <concepts>
 #include <iterator>
+#include <utility>
 
 namespace utl {
 
@@ -33,8 +34,8 @@ bool is_uniform(Collection&& c) {
 }
 
 template <typename Collection, typename Predicate>
-std::enable_if_t<std::is_function_v<Predicate>, bool> is_uniform(
-    Collection&& c, Predicate&& fn) {
+  requires requires(Collection& c, Predicate& fn) { fn(*std::begin(c)); }
+bool is_uniform(Collection&& c, Predicate&& fn) {
   using std::begin;
   using std::end;
   return is_uniform(begin(c), end(c), std::forward<Predicate&&>(fn));
-- 
2.43.0


From 7156c7a503bacfc9b67a76becfdfa2c4be8ce26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:46 +0000
Subject: [PATCH 41/44] fix: sort_by of constant columns does not compile

---
 include/utl/sort_by.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/sort_by.h b/include/utl/sort_by.h
index 9aa3767..d7e7b7e 100644
--- a/include/utl/sort_by.h
+++ b/include/utl/sort_by.h
@@ -1,4 +1,4 @@
-#include <vector>
+#pragma once
 
 #include <algorithm>
 #include <tuple>
@@ -29,7 +29,7 @@ std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> sort_by(SortBy&& order,
             [&](auto&& a, auto&& b) { return order[a] < order[b]; });
   std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> ret{order, ts...};
   std::apply(
-      [&](SortBy& first, Ts&... rest) {
+      [&](auto& first, auto&... rest) {
         apply_permutation(permutation, order, first);
         (apply_permutation(permutation, ts, rest), ...);
       },
-- 
2.43.0


From 7612b6f423b1af12730e4a1ec1cec8a7d84a8575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:46 +0000
Subject: [PATCH 42/44] fix: generator.h cannot be included twice or on its own

---
 include/utl/generator.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index bb9572e..b4f271c 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,6 +1,10 @@
+#pragma once
+
+#include <concepts>
 #include <coroutine>
 #include <exception>
 #include <utility>
+#include <vector>
 
 namespace utl {
 
-- 
2.43.0


From 43a8279269b95537cb2d14d38c6862ee23c986cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:04 +0000
Subject: [PATCH 43/44] fix: utl_verify without message arguments does not
 compile

---
 include/utl/verify.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/utl/verify.h b/include/utl/verify.h
index ad889de..f307482 100644
--- a/include/utl/verify.h
+++ b/include/utl/verify.h
@@ -17,11 +17,11 @@
 #define UTL_UNLIKELY
 #endif
 
-#define utl_verify(condition, fmt_str, ...)                 \
-  [&]() {                                                   \
-    if (!(condition)) {                                     \
-      UTL_UNLIKELY throw ::utl::fail(fmt_str, __VA_ARGS__); \
-    }                                                       \
+#define utl_verify(condition, fmt_str, ...)                               \
+  [&]() {                                                                 \
+    if (!(condition)) {                                                   \
+      UTL_UNLIKELY throw ::utl::fail(fmt_str __VA_OPT__(, ) __VA_ARGS__); \
+    }                                                                     \
   }()
 
 namespace utl {
-- 
2.43.0


From c839de5ca74506de952975ee024b86de968142bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:18 +0000
Subject: [PATCH 44/44] fix: nwise ranges name wrong iterator and reference
 types

---
 include/utl/nwise.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/nwise.h b/include/utl/nwise.h
index 315a3fd..9cd8e38 100644
--- a/include/utl/nwise.h
+++ b/include/utl/nwise.h
@@ -19,7 +19,7 @@ struct nwise_iterator {
 
   using value_type = decltype(value_type_helper<It>(indices_t{}));
   using pointer = value_type const*;
-  using reference = value_type const&;
+  using reference = value_type;
 
   nwise_iterator(It const begin, It const end) {
     auto curr = begin;
@@ -63,8 +63,8 @@ struct nwise_iterator {
 
 template <std::size_t N, typename It>
 struct nwise_range {
-  using iterator = It;
-  using const_iterator = It;
+  using iterator = nwise_iterator<N, It>;
+  using const_iterator = nwise_iterator<N, It>;
   nwise_range(It begin, It end) : begin_{begin}, end_{end} {}
   nwise_iterator<N, It> begin() const { return {begin_, end_}; }
   nwise_iterator<N, It> end() const { return {end_, end_}; }
-- 
2.43.0


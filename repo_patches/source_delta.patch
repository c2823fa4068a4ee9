From 0c36512e7d21a2ef4ad9b33cbe2be4428bee7963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 01/24] fix: every match attempt starts from a clean state

A failed attempt could leave the cursor past the start of the next one,
so later matches were skipped (e.g. (c)a on 'acca'), and groups captured
by it were still reported afterwards. Empty matches were found forever,
and the empty match at the end of the query was never found.
---
 src/match_result.hpp | 61 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index fe5e0ba..925f7f1 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -50,15 +50,8 @@ namespace e_regex
             constexpr __attribute__((always_inline))
             match_result(literal_string_view<> query) noexcept
             {
-                data.query                 = query;
-                data.actual_iterator_start = query.begin();
-                data.actual_iterator_end = data.actual_iterator_start;
-
-                data = matcher::match(data);
-                if (!data)
-                {
-                    next();
-                }
+                data.query = query;
+                find(query.begin());
             }
 
             constexpr __attribute__((always_inline)) auto
@@ -176,11 +169,40 @@ namespace e_regex
              */
             constexpr __attribute__((always_inline)) auto next() noexcept
             {
-                data.match_groups = {};
-                data.actual_iterator_start = data.actual_iterator_end;
+                if (!data.accepted)
+                {
+                    return false;
+                }
+
+                // An empty match must not be found again
+                if (data.actual_iterator_start == data.actual_iterator_end)
+                {
+                    if (data.actual_iterator_end == data.query.end())
+                    {
+                        return reject();
+                    }
+
+                    return find(data.actual_iterator_end + 1);
+                }
 
-                while (data.actual_iterator_start < data.query.end())
+                return find(data.actual_iterator_end);
+            }
+
+        private:
+            // Find the first match that starts at `position` or later;
+            // what a failed attempt left behind must not be visible to
+            // the next one
+            constexpr __attribute__((always_inline)) auto
+                find(typename literal_string_view<Char_Type>::iterator position) noexcept
+                -> bool
+            {
+                for (;; ++position)
                 {
+                    data.match_groups          = {};
+                    data.actual_iterator_start = position;
+                    data.actual_iterator_end   = position;
+                    data.accepted              = true;
+
                     matcher::match(data);
 
                     if (data.accepted)
@@ -188,11 +210,20 @@ namespace e_regex
                         return true;
                     }
 
-                    data.actual_iterator_start
-                        = ++data.actual_iterator_end;
+                    if (position == data.query.end())
+                    {
+                        return reject();
+                    }
                 }
+            }
+
+            constexpr __attribute__((always_inline)) auto reject() noexcept -> bool
+            {
+                data.match_groups          = {};
+                data.actual_iterator_start = data.query.end();
+                data.actual_iterator_end   = data.query.end();
+                data.accepted              = false;
 
-                data.accepted = false;
                 return false;
             }
     };
-- 
2.43.0


From 261a763dd2de3f980ab1a85988dde97dc0d95e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:06 +0000
Subject: [PATCH 02/24] fix: a failed branch or negated class leaves the cursor
 where it was

A branch that failed half way, a negated class that refused a character
and \s moved the cursor (and the groups) anyway: a[^a] on 'aab' and
(?:aa|b)c on 'abc' gave wrong spans.
---
 src/nodes/common.hpp               | 4 ++++
 src/nodes/negated.hpp              | 5 ++++-
 src/terminals/space_characters.hpp | 5 ++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 48ad323..05f3052 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -123,12 +123,16 @@ namespace e_regex::nodes
             }
             else
             {
+                const auto checkpoint = match_result;
+
                 if (invoker::template match<typename _children::type>(
                         match_result))
                 {
                     return match_result;
                 }
 
+                // Next branch must not see what this one left behind
+                match_result          = checkpoint;
                 match_result.accepted = true;
                 return dfs<typename _children::remaining>(match_result);
             }
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 601a9b9..02ade18 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -38,8 +38,11 @@ namespace e_regex::nodes
                     return result;
                 }
 
+                const auto begin = result.actual_iterator_end;
+
                 matcher::match(result);
-                result.accepted = !result.accepted;
+                result.accepted            = !result.accepted;
+                result.actual_iterator_end = begin;
 
                 if (result)
                 {
diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 4ed983e..7b8ffbb 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -29,7 +29,10 @@ namespace e_regex::terminals
                                    *result.actual_iterator_end)
                          != matched.end();
 
-                result.actual_iterator_end++;
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From b7e2bd548b7781708f12912b55089b966683365c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 03/24] fix: negated character classes compile and consume one
 character

\D, \W, \S and \N did not compile.
---
 src/terminals/common.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/terminals/common.hpp b/src/terminals/common.hpp
index 32bc961..8118150 100644
--- a/src/terminals/common.hpp
+++ b/src/terminals/common.hpp
@@ -41,6 +41,9 @@ namespace e_regex::terminals
         : public terminal_common<negated_terminal<terminal, admission_set>,
                                  admitted_set_complement_t<admission_set>>
     {
+            static constexpr auto expression
+                = "[^" + terminal::expression + "]";
+
             template<typename... injected_children>
             using optimize = negated_terminal;
 
@@ -48,8 +51,16 @@ namespace e_regex::terminals
             static constexpr __attribute__((always_inline)) auto
                 match_(auto& result) -> auto&
             {
-                result = terminal::match_(std::move(result));
-                result = !result.accepted;
+                const auto begin = result.actual_iterator_end;
+
+                terminal::match_(result);
+                result.accepted            = !result.accepted;
+                result.actual_iterator_end = begin;
+
+                if (result)
+                {
+                    result.actual_iterator_end++;
+                }
 
                 return result;
             }
-- 
2.43.0


From f7339909af72745acfda679a89d52254480da808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:27 +0000
Subject: [PATCH 04/24] fix: admitted sets hold exactly the characters that can
 come first

Bytes above 0x7F were missing from complements and '.', a hex or octal
string admitted all of its characters instead of the first one, the end
anchor admitted everything but a newline, and [a-a] did not compile.
---
 src/terminals/anchors/end.hpp   | 4 ++--
 src/terminals/anchors/start.hpp | 2 +-
 src/terminals/any.hpp           | 2 +-
 src/terminals/exact_matcher.hpp | 4 ++--
 src/utilities/admitted_set.hpp  | 8 +++++---
 5 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index 4bfe158..bb3c9d0 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -10,8 +10,8 @@ namespace e_regex::terminals::anchors
     {
             static constexpr auto expression = static_string {"$"};
 
-            static constexpr auto meta = e_regex::meta<
-                admitted_set_complement_t<admitted_set<char, '\n'>>> {
+            static constexpr auto meta
+                = e_regex::meta<admitted_set<char, '\n'>> {
                 .policy_            = e_regex::policy::NONE,
                 .minimum_match_size = 0,
                 .maximum_match_size = 1,
diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index e58799b..1ff665f 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -11,7 +11,7 @@ namespace e_regex::terminals::anchors
             static constexpr auto expression = static_string {"^"};
 
             static constexpr auto meta
-                = e_regex::meta<admitted_set_complement_t<admitted_set<char>>> {
+                = e_regex::meta<admitted_set<char>> {
                     .policy_            = e_regex::policy::NONE,
                     .minimum_match_size = 0,
                     .maximum_match_size = 0,
diff --git a/src/terminals/any.hpp b/src/terminals/any.hpp
index a3eec05..592eac8 100644
--- a/src/terminals/any.hpp
+++ b/src/terminals/any.hpp
@@ -9,7 +9,7 @@ namespace e_regex::terminals
     template<>
     struct terminal<pack_string<'.'>>
         : public terminal_common<terminal<pack_string<'.'>>,
-                                 admitted_set_range_t<char, '\0', '\x7F'>>
+                                 admitted_set_complement_t<admitted_set<char, '\n'>>>
     {
             static constexpr auto expression = static_string {"."};
 
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index f9ec4e4..6146059 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -14,13 +14,13 @@ namespace e_regex::terminals
     struct exact_matcher<pack_string<identifier, identifiers...>>
         : public terminal_common<
               exact_matcher<pack_string<identifier, identifiers...>>,
-              admitted_set<char, identifier, identifiers...>>
+              admitted_set<char, identifier>>
     {
             static constexpr auto expression
                 = pack_string<identifier, identifiers...>::string;
 
             static constexpr auto meta
-                = e_regex::meta<admitted_set<char, identifier, identifiers...>> {
+                = e_regex::meta<admitted_set<char, identifier>> {
                     .policy_            = e_regex::policy::EXACT,
                     .minimum_match_size = sizeof...(identifiers) + 1,
                     .maximum_match_size = sizeof...(identifiers) + 1,
diff --git a/src/utilities/admitted_set.hpp b/src/utilities/admitted_set.hpp
index 4d4353b..cd1d667 100644
--- a/src/utilities/admitted_set.hpp
+++ b/src/utilities/admitted_set.hpp
@@ -27,14 +27,14 @@ namespace e_regex
              Char start,
              Char end,
              typename seq = std::make_integer_sequence<unsigned, 1 + end - start>>
-        requires(end > start)
+        requires(end >= start)
     struct admitted_set_range;
 
     template<typename Char, Char start, Char end, auto... seq>
     struct admitted_set_range<Char, start, end, std::integer_sequence<unsigned, seq...>>
     {
             using type
-                = admitted_set<Char, (static_cast<Char>(seq) + start)...>;
+                = admitted_set<Char, static_cast<Char>(start + static_cast<int>(seq))...>;
     };
 
     template<typename Char, Char start, Char end>
@@ -194,7 +194,9 @@ namespace e_regex
     template<typename set, typename Char = typename set::Char_t>
     using admitted_set_complement_t = admitted_sets_difference_t<
         set,
-        admitted_set_range_t<Char, 0, std::numeric_limits<Char>::max()>>;
+        admitted_set_range_t<Char,
+                             std::numeric_limits<Char>::min(),
+                             std::numeric_limits<Char>::max()>>;
 
     // Intersection of two sets
     template<typename set1,
-- 
2.43.0


From 060e6271ff74bf6d113f704935ef173741ce03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 05/24] fix: admitted sets and sizes cover every branch and
 what follows

[bc]* admitted only 'b' and (a*)b only 'a', so a preceding repetition was
wrongly made possessive ([bc]*c did not match 'bcc'). Maximum sizes were
taken from minimum ones and wrapped around.
---
 src/nodes/basic.hpp      | 27 ++++++++++-----------------
 src/nodes/common.hpp     |  8 ++++++++
 src/nodes/greedy.hpp     | 20 ++++++++++----------
 src/nodes/group.hpp      | 13 +++++++++----
 src/nodes/lazy.hpp       | 20 ++++++++++----------
 src/nodes/possessive.hpp | 20 ++++++++++----------
 src/nodes/repeated.hpp   | 12 ++++++++----
 src/utilities/math.hpp   | 17 +++++++++++++++++
 8 files changed, 82 insertions(+), 55 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index d299d6c..75487de 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -44,19 +44,17 @@ namespace e_regex::nodes
                 }
             }();
 
-            using admission_set = std::conditional_t<
-                matcher::meta.minimum_match_size == 0,
-                typename extract_admission_set<matcher, children...>::type,
-                typename extract_admission_set<matcher>::type>;
+            using admission_set
+                = sequence_admission_set_t<matcher, false, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size
-                  + min(children::meta.minimum_match_size...),
+                = sum_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size
-                  + max(children::meta.minimum_match_size...),
+                = sum_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...)),
             };
 
             template<typename... injected_children>
@@ -88,23 +86,18 @@ namespace e_regex::nodes
     template<typename... children>
     struct simple<void, children...> : public base<void, children...>
     {
-            using child
-                = std::tuple_element_t<0, std::tuple<children...>>;
-
             static constexpr auto expression
                 = get_children_expression<children...>();
 
-            using admission_set = std::conditional_t<
-                child::meta.minimum_match_size == 0,
-                typename extract_admission_set<children...>::type,
-                typename extract_admission_set<child>::type>;
+            using admission_set =
+                typename extract_admission_set<children...>::type;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = policy::NONE,
                 .minimum_match_size
                 = min(children::meta.minimum_match_size...),
                 .maximum_match_size
-                = max(children::meta.minimum_match_size...),
+                = max(children::meta.maximum_match_size...),
             };
 
             template<typename... injected_children>
@@ -132,7 +125,7 @@ namespace e_regex::nodes
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_            = policy::NONE,
                 .minimum_match_size = child::meta.minimum_match_size,
-                .maximum_match_size = child::meta.minimum_match_size,
+                .maximum_match_size = child::meta.maximum_match_size,
             };
 
             template<typename... injected_children>
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 05f3052..d2aeba6 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -35,6 +35,14 @@ namespace e_regex::nodes
             using type = admitted_set<char>;
     };
 
+    // Admission set of a matcher followed by its children: if the matcher
+    // can be empty, its children can come first too
+    template<typename matcher, bool can_be_empty, typename... children>
+    using sequence_admission_set_t = std::conditional_t<
+        can_be_empty || matcher::meta.minimum_match_size == 0,
+        typename extract_admission_set<matcher, children...>::type,
+        typename extract_admission_set<matcher>::type>;
+
     template<typename T>
     concept has_groups = requires(T t) { t.groups; };
 
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 3dcb5f3..bbad143 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -28,21 +28,21 @@ namespace e_regex::nodes
 
             // If matcher is optional (aka repetitions_min==0),
             // admission set must include children too
-            using admission_set = std::conditional_t<
-                repetitions_min == 0,
-                typename extract_admission_set<matcher, children...>::type,
-                self_admission_set>;
+            using admission_set
+                = sequence_admission_set_t<matcher, repetitions_min == 0, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::GREEDY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = sum_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size,
+                                   repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = repetitions_max == std::numeric_limits<unsigned>::max()
-                      ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                = sum_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size,
+                                   repetitions_max),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr unsigned groups
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 5fc7019..0145689 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -17,13 +17,18 @@ namespace e_regex::nodes
                 = '(' + matcher::expression + ')'
                   + get_children_expression<children...>();
 
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            using admission_set
+                = sequence_admission_set_t<matcher, false, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-                .minimum_match_size = matcher::meta.minimum_match_size,
-                .maximum_match_size = matcher::meta.maximum_match_size};
+                .minimum_match_size
+                = sum_sizes(matcher::meta.minimum_match_size,
+                            min(children::meta.minimum_match_size...)),
+                .maximum_match_size
+                = sum_sizes(matcher::meta.maximum_match_size,
+                            max(children::meta.maximum_match_size...)),
+            };
 
             static constexpr auto next_group_index = group_index + 1;
 
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index aa309a2..ac61f56 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -19,21 +19,21 @@ namespace e_regex::nodes
     {
             // If matcher is optional (aka repetitions_min==0),
             // admission set must include children too
-            using admission_set = std::conditional_t<
-                repetitions_min == 0,
-                typename extract_admission_set<matcher, children...>::type,
-                typename decltype(matcher::meta)::admission_set>;
+            using admission_set
+                = sequence_admission_set_t<matcher, repetitions_min == 0, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::LAZY,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = sum_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size,
+                                   repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = repetitions_max == std::numeric_limits<unsigned>::max()
-                      ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                = sum_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size,
+                                   repetitions_max),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index a625909..d007b0f 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -18,21 +18,21 @@ namespace e_regex::nodes
     {
             // If matcher is optional (aka repetitions_min==0),
             // admission set must include children too
-            using admission_set = std::conditional_t<
-                repetitions_min == 0,
-                typename extract_admission_set<matcher, children...>::type,
-                typename decltype(matcher::meta)::admission_set>;
+            using admission_set
+                = sequence_admission_set_t<matcher, repetitions_min == 0, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::POSSESSIVE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions_min
-                  + min(children::meta.minimum_match_size...),
+                = sum_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size,
+                                   repetitions_min),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = repetitions_max == std::numeric_limits<unsigned>::max()
-                      ? std::numeric_limits<unsigned>::max()
-                      : matcher::meta.maximum_match_size * repetitions_max
-                            + max(children::meta.maximum_match_size...),
+                = sum_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size,
+                                   repetitions_max),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 2ee9821..716504e 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -12,15 +12,19 @@ namespace e_regex::nodes
     template<typename matcher, unsigned repetitions, typename... children>
     struct repeated : public base<matcher, children...>
     {
-            using admission_set =
-                typename extract_admission_set<matcher>::type;
+            using admission_set
+                = sequence_admission_set_t<matcher, repetitions == 0, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
                 .minimum_match_size
-                = matcher::meta.minimum_match_size * repetitions,
+                = sum_sizes(
+                    multiply_sizes(matcher::meta.minimum_match_size, repetitions),
+                    min(children::meta.minimum_match_size...)),
                 .maximum_match_size
-                = matcher::meta.maximum_match_size * repetitions,
+                = sum_sizes(
+                    multiply_sizes(matcher::meta.maximum_match_size, repetitions),
+                    max(children::meta.maximum_match_size...)),
             };
 
             static constexpr auto expression = []() {
diff --git a/src/utilities/math.hpp b/src/utilities/math.hpp
index 1b9eab7..ee39994 100644
--- a/src/utilities/math.hpp
+++ b/src/utilities/math.hpp
@@ -2,6 +2,7 @@
 #define E_REGEX_UTILITIES_MATH_HPP_
 
 #include <algorithm>
+#include <limits>
 
 namespace e_regex
 {
@@ -15,6 +16,22 @@ namespace e_regex
         return (n + ...);
     }
 
+    // Sizes without an upper bound are represented by the greatest
+    // unsigned, operations on sizes must not wrap around it
+    consteval auto sum_sizes(unsigned n1, unsigned n2) -> unsigned
+    {
+        constexpr auto limit = std::numeric_limits<unsigned>::max();
+
+        return n1 > limit - n2 ? limit : n1 + n2;
+    }
+
+    consteval auto multiply_sizes(unsigned n1, unsigned n2) -> unsigned
+    {
+        constexpr auto limit = std::numeric_limits<unsigned>::max();
+
+        return n2 != 0 && n1 > limit / n2 ? limit : n1 * n2;
+    }
+
     consteval auto min()
     {
         return 0;
-- 
2.43.0


From 86fe85d9f0bb66b49bb8a3110a4468c451601e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:42 +0000
Subject: [PATCH 06/24] fix: what follows a group takes part in its
 backtracking

---
 src/nodes/basic.hpp      |  40 +++++++++++---
 src/nodes/common.hpp     |  55 +++++++++++++++++--
 src/nodes/greedy.hpp     | 115 ++++++++++++++++++---------------------
 src/nodes/group.hpp      |  56 +++++++++++++++----
 src/nodes/lazy.hpp       |  73 ++++++++++++-------------
 src/nodes/negated.hpp    |   6 ++
 src/nodes/possessive.hpp |  26 +++++++--
 src/nodes/repeated.hpp   |  11 +++-
 8 files changed, 249 insertions(+), 133 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 75487de..d6ecc5f 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -68,15 +68,20 @@ namespace e_regex::nodes
             {
                 auto begin = res.actual_iterator_end;
 
-                matcher::match(res);
+                if constexpr (retriable<matcher>)
+                {
+                    matcher::template match<children..., injected_children...>(
+                        res);
+                }
+                else if (matcher::match(res))
+                {
+                    dfs<std::tuple<children...>,
+                        std::tuple<injected_children...>>(res);
+                }
 
-                if (res)
+                if (!res)
                 {
-                    if (!dfs<std::tuple<children...>,
-                             std::tuple<injected_children...>>(res))
-                    {
-                        res.actual_iterator_end = begin;
-                    }
+                    res.actual_iterator_end = begin;
                 }
 
                 return res;
@@ -136,7 +141,8 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                return child::template match<injected_children...>(res);
+                return dfs<std::tuple<child>, std::tuple<injected_children...>>(
+                    res);
             }
     };
 
@@ -162,7 +168,23 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                return matcher::match(res);
+                auto begin = res.actual_iterator_end;
+
+                if constexpr (retriable<matcher>)
+                {
+                    matcher::template match<injected_children...>(res);
+                }
+                else if (matcher::match(res))
+                {
+                    dfs<std::tuple<>, std::tuple<injected_children...>>(res);
+                }
+
+                if (!res)
+                {
+                    res.actual_iterator_end = begin;
+                }
+
+                return res;
             }
     };
 
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index d2aeba6..040f777 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -85,6 +85,15 @@ namespace e_regex::nodes
                   + sum(group_getter<children>::value...);
     };
 
+    // Nodes match what follows them too, terminals don't
+    template<typename T>
+    concept node = requires { typename T::admission_set; };
+
+    template<typename children          = std::tuple<>,
+             typename injected_children = std::tuple<>>
+    constexpr __attribute__((always_inline)) auto
+        dfs(auto& match_result) noexcept -> auto&;
+
     template<typename injected_children>
     struct invoke_match;
 
@@ -95,7 +104,23 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
-                return T::template match<injected_children...>(res);
+                if constexpr (node<T>)
+                {
+                    return T::template match<injected_children...>(res);
+                }
+                else
+                {
+                    const auto begin = res.actual_iterator_end;
+
+                    if (T::match(res)
+                        && !dfs<std::tuple<>, std::tuple<injected_children...>>(
+                            res))
+                    {
+                        res.actual_iterator_end = begin;
+                    }
+
+                    return res;
+                }
             }
     };
 
@@ -110,14 +135,33 @@ namespace e_regex::nodes
                   std::tuple<others...>>
     {};
 
-    template<typename children          = std::tuple<>,
-             typename injected_children = std::tuple<>>
+    // A matcher that can consume a variable number of characters must be
+    // retried when what follows it does not match
+    template<typename T>
+    concept retriable
+        = node<T>
+          && (T::meta.minimum_match_size != T::meta.maximum_match_size);
+
+    // Match children, or what follows this branch (injected_children, in
+    // order) if there are no children
+    template<typename children, typename injected_children>
     constexpr __attribute__((always_inline)) auto
         dfs(auto& match_result) noexcept -> auto&
     {
         if constexpr (std::tuple_size_v<children> == 0)
         {
-            return match_result;
+            if constexpr (std::tuple_size_v<injected_children> == 0)
+            {
+                return match_result;
+            }
+            else
+            {
+                using next    = first_type<injected_children>;
+                using invoker = invoke_match<typename next::remaining>;
+
+                return invoker::template match<typename next::type>(
+                    match_result);
+            }
         }
         else
         {
@@ -142,7 +186,8 @@ namespace e_regex::nodes
                 // Next branch must not see what this one left behind
                 match_result          = checkpoint;
                 match_result.accepted = true;
-                return dfs<typename _children::remaining>(match_result);
+                return dfs<typename _children::remaining, injected_children>(
+                    match_result);
             }
         }
     }
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index bbad143..a25cddc 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -117,116 +117,105 @@ namespace e_regex::nodes
                        repetitions_max,
                        typename children::template optimize<>...>>;
 
-            template<typename... injected_children>
-            static constexpr auto __attribute__((always_inline))
-            backtrack(auto& result) -> auto&
-            {
-                if constexpr (sizeof...(children) > 0)
-                {
-                    return dfs<std::tuple<children...>>(result);
-                }
-                else
-                {
-                    auto bak = result.actual_iterator_end;
-
-                    dfs<std::tuple<injected_children...>>(result);
-                    result.actual_iterator_end = bak;
-
-                    return result;
-                }
-            }
-
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
+                using injected = std::tuple<injected_children...>;
+
+                const auto begin = result;
+
                 if constexpr (std::is_same_v<matcher, void>)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>, injected>(result);
                 }
-                else if constexpr (repetitions_min == 0
-                                   && repetitions_max == 1
-                                   && matcher::meta.minimum_match_size
-                                          == matcher::meta.maximum_match_size)
+                else if constexpr (repetitions_min == 0 && repetitions_max == 1)
                 {
-                    // Optional node with a terminal matcher
-                    matcher::match(result);
-
-                    if (!backtrack<injected_children...>(result)
-                        && result.actual_iterator_end
-                               > result.actual_iterator_start)
+                    if (!simple<matcher, children...>::template match<
+                            injected_children...>(result))
                     {
-                        result.actual_iterator_end
-                            -= matcher::meta.minimum_match_size;
-                        backtrack<injected_children...>(result);
+                        result = begin;
+                        dfs<std::tuple<children...>, injected>(result);
                     }
 
                     return result;
                 }
                 else
                 {
-                    const auto begin = result.actual_iterator_end;
-
-                    if constexpr (repetitions_min > 0)
+                    for (unsigned i = 0; i < repetitions_min; ++i)
                     {
-                        for (unsigned i = 0; i < repetitions_min; ++i)
+                        if (!matcher::match(result))
                         {
-                            if (!matcher::match(result))
-                            {
-                                return result;
-                            }
+                            result.actual_iterator_end
+                                = begin.actual_iterator_end;
+                            return result;
                         }
                     }
 
                     // Iterate while this matcher accepts
                     auto       repetitions = repetitions_min;
-                    const auto start = result.actual_iterator_end;
+                    const auto start       = result;
 
                     while (repetitions < repetitions_max)
                     {
+                        const auto last = result;
+
                         if (!matcher::match(result))
                         {
                             // Restore last good match
-                            result = true;
+                            result = last;
                             break;
                         }
 
                         repetitions++;
+
+                        if (result.actual_iterator_end
+                            == last.actual_iterator_end)
+                        {
+                            // An empty match would be repeated forever
+                            break;
+                        }
                     }
 
                     // Now backtrack
-                    while (repetitions > repetitions_min)
+                    while (true)
                     {
-                        if (backtrack<injected_children...>(result))
+                        const auto last = result;
+
+                        if (dfs<std::tuple<children...>, injected>(result))
                         {
                             return result;
                         }
 
-                        for (auto iter = result.actual_iterator_end - 1;
-                             iter >= start;
-                             --iter)
+                        if (repetitions == repetitions_min)
                         {
-                            result.actual_iterator_end = iter;
-
-                            if (matcher::match(result))
-                            {
-                                result.actual_iterator_end = iter;
-                                break;
-                            }
+                            result.actual_iterator_end
+                                = begin.actual_iterator_end;
+                            return result;
                         }
 
                         --repetitions;
-                    }
 
-                    result = repetitions >= repetitions_min;
+                        if constexpr (matcher::meta.minimum_match_size
+                                          == matcher::meta.maximum_match_size
+                                      && group_getter<matcher>::value == 0)
+                        {
+                            result = last;
+                            result.actual_iterator_end
+                                -= matcher::meta.minimum_match_size;
+                        }
+                        else
+                        {
+                            // Match again everything but the last
+                            // repetition
+                            result = start;
 
-                    if (result)
-                    {
-                        return dfs<std::tuple<children...>>(result);
+                            for (auto i = repetitions_min; i < repetitions; ++i)
+                            {
+                                matcher::match(result);
+                            }
+                        }
                     }
-
-                    result.actual_iterator_end = begin;
-                    return result;
                 }
             }
     };
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 0145689..5b0b9c2 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -10,6 +10,30 @@
 
 namespace e_regex::nodes
 {
+    // Closes a group before matching what follows it
+    template<auto group_index>
+    struct group_end
+    {
+            using admission_set = admitted_set<char>;
+
+            template<typename... injected_children>
+            static constexpr __attribute__((always_inline)) auto
+                match(auto& result) -> auto&
+            {
+                auto&      end      = result.match_groups[group_index].end_;
+                const auto previous = end;
+
+                end = result.actual_iterator_end;
+
+                if (!dfs<std::tuple<>, std::tuple<injected_children...>>(result))
+                {
+                    end = previous;
+                }
+
+                return result;
+            }
+    };
+
     template<typename matcher, auto group_index, typename... children>
     struct group
     {
@@ -46,20 +70,32 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto begin = result.actual_iterator_end;
+                const auto begin    = result.actual_iterator_end;
+                auto&      group_   = result.match_groups[group_index];
+                const auto previous = group_;
 
-                // This node's children matter in backtracking
-                matcher::template match<children...>(result);
+                if constexpr (retriable<matcher>)
+                {
+                    group_.begin_ = begin;
 
-                if (result)
+                    // What follows this group matters in backtracking
+                    matcher::template match<group_end<group_index>,
+                                            children...,
+                                            injected_children...>(result);
+                }
+                else if (matcher::match(result))
                 {
-                    result.match_groups[group_index]
-                        = literal_string_view {
-                            begin, result.actual_iterator_end};
+                    group_ = literal_string_view {
+                        begin, result.actual_iterator_end};
 
-                    return dfs<std::tuple<children...>,
-                               std::tuple<children..., injected_children...>>(
-                        result);
+                    dfs<std::tuple<children...>,
+                        std::tuple<injected_children...>>(result);
+                }
+
+                if (!result)
+                {
+                    result.actual_iterator_end = begin;
+                    group_                     = previous;
                 }
 
                 return result;
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index ac61f56..f07e95b 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -108,64 +108,59 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                auto start = result.actual_iterator_end;
+                using injected = std::tuple<injected_children...>;
+
+                const auto begin = result;
 
                 if constexpr (std::is_same_v<matcher, void>)
                 {
-                    return dfs<std::tuple<children...>>(result);
+                    return dfs<std::tuple<children...>, injected>(result);
+                }
+                else if constexpr (repetitions_min == 0 && repetitions_max == 1)
+                {
+                    if (!dfs<std::tuple<children...>, injected>(result))
+                    {
+                        result = begin;
+                        simple<matcher, children...>::template match<
+                            injected_children...>(result);
+                    }
+
+                    return result;
                 }
                 else
                 {
-                    if constexpr (repetitions_min != 0)
+                    for (unsigned i = 0; i < repetitions_min; ++i)
                     {
-                        for (unsigned i = 0; i < repetitions_min; ++i)
+                        if (!matcher::match(result))
                         {
-                            if (!matcher::match(result))
-                            {
-                                return result;
-                            }
+                            result.actual_iterator_end
+                                = begin.actual_iterator_end;
+                            return result;
                         }
                     }
 
-                    unsigned matches = repetitions_min;
-
-                    while (result.actual_iterator_end < result.query.end()
-                           && matches < repetitions_max)
+                    for (auto matches = repetitions_min;; ++matches)
                     {
-                        if constexpr (sizeof...(children) > 0)
-                        {
-                            dfs<std::tuple<children...>>(result);
+                        const auto last = result;
 
-                            if (result)
-                            {
-                                return result;
-                            }
-                        }
-                        else
+                        if (dfs<std::tuple<children...>, injected>(result))
                         {
-                            auto bak = result.actual_iterator_end;
-                            dfs<std::tuple<injected_children...>>(result);
-                            result.actual_iterator_end = bak;
+                            return result;
                         }
 
-                        if (!result)
-                        {
-                            matcher::match(result);
-                            matches++;
-
-                            if (!result)
-                            {
-                                result.actual_iterator_end = start;
-                                return result;
-                            }
-                        }
-                        else
+                        result = last;
+
+                        // An empty match would be repeated forever
+                        if (matches == repetitions_max || !matcher::match(result)
+                            || result.actual_iterator_end
+                                   == last.actual_iterator_end)
                         {
-                            break;
+                            result.actual_iterator_end
+                                = begin.actual_iterator_end;
+                            result.accepted = false;
+                            return result;
                         }
                     }
-
-                    return dfs<std::tuple<children...>>(result);
                 }
             }
     };
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 02ade18..4846481 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -47,6 +47,12 @@ namespace e_regex::nodes
                 if (result)
                 {
                     result.actual_iterator_end++;
+
+                    if (!dfs<std::tuple<>, std::tuple<injected_children...>>(
+                            result))
+                    {
+                        result.actual_iterator_end = begin;
+                    }
                 }
 
                 return result;
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index d007b0f..aa17d12 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -98,31 +98,45 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-	      auto end = result.actual_iterator_end;
+                const auto begin = result.actual_iterator_end;
 
                 for (unsigned i = 0; i < repetitions_max; ++i)
                 {
-                    matcher::template match<injected_children...>(result);
+                    const auto last = result;
+
+                    matcher::match(result);
 
                     if (!result)
                     {
                         if (i < repetitions_min)
                         {
                             // Failed too early
+                            result.actual_iterator_end = begin;
                             return result;
                         }
 
                         // Failed but repetitions_min was satisfied,
                         // run dfs
-                        result.accepted = true;
-			result.actual_iterator_end = end;
+                        result = last;
                         break;
                     }
 
-		  end = result.actual_iterator_end;
+                    if (i >= repetitions_min
+                        && result.actual_iterator_end
+                               == last.actual_iterator_end)
+                    {
+                        // An empty match would be repeated forever
+                        break;
+                    }
+                }
+
+                if (!dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(result))
+                {
+                    result.actual_iterator_end = begin;
                 }
 
-                return dfs<std::tuple<children...>>(result);
+                return result;
             }
     };
 
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 716504e..afb1585 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -54,15 +54,24 @@ namespace e_regex::nodes
             static constexpr __attribute__((always_inline)) auto
                 match(auto& res) -> auto&
             {
+                const auto begin = res.actual_iterator_end;
+
                 for (unsigned i = 0; i < repetitions; ++i)
                 {
                     if (!matcher::match(res))
                     {
+                        res.actual_iterator_end = begin;
                         return res;
                     }
                 }
 
-                return dfs<std::tuple<children...>>(res);
+                if (!dfs<std::tuple<children...>,
+                         std::tuple<injected_children...>>(res))
+                {
+                    res.actual_iterator_end = begin;
+                }
+
+                return res;
             }
     };
 } // namespace e_regex::nodes
-- 
2.43.0


From 56f6f5c91a9ead3be4a9253bb267a1c98a2ea4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:36 +0000
Subject: [PATCH 07/24] fix: groups after a subtree don't reuse its indexes

---
 src/operators/common.hpp          | 5 +++++
 src/operators/round_brackets.hpp  | 6 +++---
 src/operators/square_brackets.hpp | 7 ++-----
 src/tree_builder/tree_builder.hpp | 2 +-
 4 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/operators/common.hpp b/src/operators/common.hpp
index 79118c0..10b2d17 100644
--- a/src/operators/common.hpp
+++ b/src/operators/common.hpp
@@ -8,6 +8,11 @@
 
 namespace e_regex
 {
+    // Index of the first group after a subtree, that may not contain any
+    template<typename subtree, auto group_index>
+    constexpr auto next_group_index_v
+        = max(group_index, nodes::group_index_getter<subtree>::value);
+
     template<typename last_node, typename tokens, auto group_index>
     struct tree_builder_helper;
 
diff --git a/src/operators/round_brackets.hpp b/src/operators/round_brackets.hpp
index 2d755f6..37654bc 100644
--- a/src/operators/round_brackets.hpp
+++ b/src/operators/round_brackets.hpp
@@ -21,7 +21,7 @@ namespace e_regex
             using tree =
                 typename branched<std::tuple<parsed..., subtree>,
                                   std::tuple<subregexes...>,
-                                  group_index>::tree;
+                                  next_group_index_v<subtree, group_index>>::tree;
     };
 
     template<typename... parsed, auto group_index>
@@ -47,7 +47,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<node,
                                              typename substring::remaining,
-                                             node::next_group_index>::tree;
+                                             next_group_index_v<subregex, group_index + 1>>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
@@ -70,7 +70,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             next_group_index_v<subregex, group_index>>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/operators/square_brackets.hpp b/src/operators/square_brackets.hpp
index 4b9618e..6a7f627 100644
--- a/src/operators/square_brackets.hpp
+++ b/src/operators/square_brackets.hpp
@@ -107,7 +107,7 @@ namespace e_regex
             using new_node =
                 typename tree_builder_helper<subregex,
                                              typename substring::remaining,
-                                             subregex::next_group_index>::tree;
+                                             group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
@@ -127,13 +127,10 @@ namespace e_regex
                 typename substring::result,
                 group_index>::tree;
 
-            // if subregex_group_index is 0 the subregex does not
-            // contain any group
-
             using new_node = typename tree_builder_helper<
                 nodes::simple<nodes::negated_node<subregex>>,
                 typename substring::remaining,
-                subregex::next_group_index>::tree;
+                group_index>::tree;
 
             using tree = add_child_t<last_node, new_node>;
     };
diff --git a/src/tree_builder/tree_builder.hpp b/src/tree_builder/tree_builder.hpp
index f327789..b930f1b 100644
--- a/src/tree_builder/tree_builder.hpp
+++ b/src/tree_builder/tree_builder.hpp
@@ -22,7 +22,7 @@ namespace e_regex
             using tree =
                 typename tree_builder_branches<std::tuple<parsed..., subtree>,
                                                std::tuple<subregexes...>,
-                                               subtree::next_group_index>::tree;
+                                               next_group_index_v<subtree, group_index>>::tree;
     };
 
     template<typename... parsed, auto group_index>
-- 
2.43.0


From 5d91c5eca432f5c5e2149dfca0ced6b7b9acb1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 08/24] fix: heuristics consider everything that follows a node

---
 src/nodes/basic.hpp      |  7 +++---
 src/nodes/common.hpp     | 49 ++++++++++++++++++++++++++++++++++++++++
 src/nodes/greedy.hpp     | 15 ++++--------
 src/nodes/group.hpp      |  2 +-
 src/nodes/lazy.hpp       | 16 ++++++-------
 src/nodes/possessive.hpp |  2 +-
 src/nodes/repeated.hpp   |  4 ++--
 7 files changed, 69 insertions(+), 26 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index d6ecc5f..93e0601 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -59,8 +59,8 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<typename matcher::template optimize<injected_children...>,
-                         typename children::template optimize<>...>;
+                = simple<typename matcher::template optimize<children..., injected_children...>,
+                         typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
@@ -107,7 +107,8 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = simple<void, typename children::template optimize<>...>;
+                = simple<void,
+                         typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 040f777..31ed3ed 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -5,6 +5,7 @@
 #include <tuple>
 #include <type_traits>
 
+#include "meta.hpp"
 #include "utilities/admitted_set.hpp"
 #include "utilities/first_type.hpp"
 #include "utilities/math.hpp"
@@ -43,6 +44,54 @@ namespace e_regex::nodes
         typename extract_admission_set<matcher, children...>::type,
         typename extract_admission_set<matcher>::type>;
 
+    // Characters that can come first in a sequence of nodes
+    template<typename... sequence>
+    struct sequence_meta
+    {
+            using admission_set                = admitted_set<char>;
+            static constexpr auto can_be_empty = true;
+    };
+
+    template<typename head, typename... tail>
+    struct sequence_meta<head, tail...>
+    {
+            static constexpr auto can_be_empty
+                = head::meta.minimum_match_size == 0
+                  && sequence_meta<tail...>::can_be_empty;
+
+            using admission_set = std::conditional_t<
+                head::meta.minimum_match_size == 0,
+                merge_admitted_sets_t<
+                    typename extract_admission_set<head>::type,
+                    typename sequence_meta<tail...>::admission_set>,
+                typename extract_admission_set<head>::type>;
+    };
+
+    // What follows a repetition, when another repetition can follow it
+    struct anything
+    {
+            using admission_set = admitted_set_complement_t<admitted_set<char>>;
+
+            static constexpr auto meta = e_regex::meta<admission_set> {
+                .policy_            = policy::NONE,
+                .minimum_match_size = 1,
+                .maximum_match_size = 1,
+            };
+    };
+
+    // If a repetition can't begin where what follows it begins,
+    // backtracking is not needed; what follows must then exist, unless
+    // repeating as much as possible is right anyway
+    template<typename matcher, bool as_much_as_possible, typename... following>
+    constexpr bool backtracking_is_useless
+        = matcher::meta.minimum_match_size == matcher::meta.maximum_match_size
+          && (sizeof...(following) == 0
+                  ? as_much_as_possible
+                  : !sequence_meta<following...>::can_be_empty
+                        && admitted_sets_intersection_t<
+                            typename extract_admission_set<matcher>::type,
+                            typename sequence_meta<following...>::admission_set>::empty);
+
     template<typename T>
     concept has_groups = requires(T t) { t.groups; };
 
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index a25cddc..86a5700 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -23,9 +23,6 @@ namespace e_regex::nodes
              typename... children>
     struct greedy : public base<matcher, children...>
     {
-            using self_admission_set =
-                typename decltype(matcher::meta)::admission_set;
-
             // If matcher is optional (aka repetitions_min==0),
             // admission set must include children too
             using admission_set
@@ -105,17 +102,15 @@ namespace e_regex::nodes
             // backtracking is not needed
             template<typename... injected_children>
             using optimize = std::conditional_t<
-                admitted_sets_intersection_t<
-                    self_admission_set,
-                    typename extract_admission_set<children..., injected_children...>::type>::empty,
-                possessive<typename matcher::template optimize<>,
+                backtracking_is_useless<matcher, true, children..., injected_children...>,
+                possessive<typename matcher::template optimize<anything>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
-                greedy<typename matcher::template optimize<>,
+                           typename children::template optimize<injected_children...>...>,
+                greedy<typename matcher::template optimize<anything>,
                        repetitions_min,
                        repetitions_max,
-                       typename children::template optimize<>...>>;
+                       typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 5b0b9c2..1899e81 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -60,7 +60,7 @@ namespace e_regex::nodes
             using optimize
                 = group<typename matcher::template optimize<children..., injected_children...>,
                         group_index,
-                        typename children::template optimize<>...>;
+                        typename children::template optimize<injected_children...>...>;
 
             static constexpr unsigned groups
                 = group_getter<matcher>::value
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index f07e95b..3b03528 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -92,17 +92,15 @@ namespace e_regex::nodes
             // backtracking is not needed
             template<typename... injected_children>
             using optimize = std::conditional_t<
-                admitted_sets_intersection_t<
-                    admission_set,
-                    typename extract_admission_set<children..., injected_children...>::type>::empty,
-                possessive<typename matcher::template optimize<>,
+                backtracking_is_useless<matcher, false, children..., injected_children...>,
+                possessive<typename matcher::template optimize<anything>,
                            repetitions_min,
                            repetitions_max,
-                           typename children::template optimize<>...>,
-                lazy<typename matcher::template optimize<>,
-                     repetitions_min,
-                     repetitions_max,
-                     typename children::template optimize<>...>>;
+                           typename children::template optimize<injected_children...>...>,
+                lazy<typename matcher::template optimize<anything>,
+                       repetitions_min,
+                       repetitions_max,
+                       typename children::template optimize<injected_children...>...>>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index aa17d12..31dea43 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -92,7 +92,7 @@ namespace e_regex::nodes
                 = possessive<typename matcher::template optimize<>,
                              repetitions_min,
                              repetitions_max,
-                             typename children::template optimize<>...>;
+                             typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index afb1585..ba3006f 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -46,9 +46,9 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = repeated<typename matcher::template optimize<>,
+                = repeated<typename matcher::template optimize<anything>,
                            repetitions,
-                           typename children::template optimize<>...>;
+                           typename children::template optimize<injected_children...>...>;
 
             template<typename... injected_children>
             static constexpr __attribute__((always_inline)) auto
-- 
2.43.0


From edc86985dcce54860640ed4e5e486a0c720f1fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 09/24] fix: the index after a group follows the groups it
 contains

---
 src/nodes/group.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 1899e81..9676035 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -54,7 +54,10 @@ namespace e_regex::nodes
                             max(children::meta.maximum_match_size...)),
             };
 
-            static constexpr auto next_group_index = group_index + 1;
+            static constexpr auto next_group_index
+                = max(group_index + 1,
+                      group_index_getter<matcher>::value,
+                      group_index_getter<children>::value...);
 
             template<typename... injected_children>
             using optimize
-- 
2.43.0


From 355edfac567fd90876604da38914a6d460ea759a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 10/24] fix: what follows an alternative is not expanded in
 every alternative

---
 src/nodes/common.hpp   | 27 +++++++++++----------------
 src/nodes/greedy.hpp   | 13 ++++++++++---
 src/nodes/lazy.hpp     | 13 ++++++++++---
 src/nodes/repeated.hpp |  2 +-
 4 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 31ed3ed..3771f3d 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -67,18 +67,6 @@ namespace e_regex::nodes
                 typename extract_admission_set<head>::type>;
     };
 
-    // What follows a repetition, when another repetition can follow it
-    struct anything
-    {
-            using admission_set = admitted_set_complement_t<admitted_set<char>>;
-
-            static constexpr auto meta = e_regex::meta<admission_set> {
-                .policy_            = policy::NONE,
-                .minimum_match_size = 1,
-                .maximum_match_size = 1,
-            };
-    };
-
     // If a repetition can't begin where what follows it begins,
     // backtracking is not needed; what follows must then exist, unless
     // repeating as much as possible is right anyway
@@ -143,6 +131,14 @@ namespace e_regex::nodes
     constexpr __attribute__((always_inline)) auto
         dfs(auto& match_result) noexcept -> auto&;
 
+    // Not inlined, otherwise the code of what follows would be duplicated
+    // for every alternative before it
+    template<typename children, typename injected_children>
+    constexpr auto follow(auto& match_result) noexcept -> auto&
+    {
+        return dfs<children, injected_children>(match_result);
+    }
+
     template<typename injected_children>
     struct invoke_match;
 
@@ -205,11 +201,10 @@ namespace e_regex::nodes
             }
             else
             {
-                using next    = first_type<injected_children>;
-                using invoker = invoke_match<typename next::remaining>;
+                using next = first_type<injected_children>;
 
-                return invoker::template match<typename next::type>(
-                    match_result);
+                return follow<std::tuple<typename next::type>,
+                              typename next::remaining>(match_result);
             }
         }
         else
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 86a5700..12ec09e 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -98,16 +98,23 @@ namespace e_regex::nodes
                 }
             }();
 
+            // A repetition is not aware of the next one
+            template<typename... injected_children>
+            using optimized_matcher = std::conditional_t<
+                repetitions_min == 0 && repetitions_max == 1,
+                typename matcher::template optimize<children..., injected_children...>,
+                typename matcher::template optimize<>>;
+
             // If this node has no intersections with its children,
             // backtracking is not needed
             template<typename... injected_children>
             using optimize = std::conditional_t<
                 backtracking_is_useless<matcher, true, children..., injected_children...>,
-                possessive<typename matcher::template optimize<anything>,
+                possessive<optimized_matcher<injected_children...>,
                            repetitions_min,
                            repetitions_max,
                            typename children::template optimize<injected_children...>...>,
-                greedy<typename matcher::template optimize<anything>,
+                greedy<optimized_matcher<injected_children...>,
                        repetitions_min,
                        repetitions_max,
                        typename children::template optimize<injected_children...>...>>;
@@ -130,7 +137,7 @@ namespace e_regex::nodes
                             injected_children...>(result))
                     {
                         result = begin;
-                        dfs<std::tuple<children...>, injected>(result);
+                        follow<std::tuple<children...>, injected>(result);
                     }
 
                     return result;
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 3b03528..5d67c6f 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -88,16 +88,23 @@ namespace e_regex::nodes
                 }
             }();
 
+            // A repetition is not aware of the next one
+            template<typename... injected_children>
+            using optimized_matcher = std::conditional_t<
+                repetitions_min == 0 && repetitions_max == 1,
+                typename matcher::template optimize<children..., injected_children...>,
+                typename matcher::template optimize<>>;
+
             // If this node has no intersections with its children,
             // backtracking is not needed
             template<typename... injected_children>
             using optimize = std::conditional_t<
                 backtracking_is_useless<matcher, false, children..., injected_children...>,
-                possessive<typename matcher::template optimize<anything>,
+                possessive<optimized_matcher<injected_children...>,
                            repetitions_min,
                            repetitions_max,
                            typename children::template optimize<injected_children...>...>,
-                lazy<typename matcher::template optimize<anything>,
+                lazy<optimized_matcher<injected_children...>,
                        repetitions_min,
                        repetitions_max,
                        typename children::template optimize<injected_children...>...>>;
@@ -116,7 +123,7 @@ namespace e_regex::nodes
                 }
                 else if constexpr (repetitions_min == 0 && repetitions_max == 1)
                 {
-                    if (!dfs<std::tuple<children...>, injected>(result))
+                    if (!follow<std::tuple<children...>, injected>(result))
                     {
                         result = begin;
                         simple<matcher, children...>::template match<
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index ba3006f..32d75d5 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -46,7 +46,7 @@ namespace e_regex::nodes
 
             template<typename... injected_children>
             using optimize
-                = repeated<typename matcher::template optimize<anything>,
+                = repeated<typename matcher::template optimize<>,
                            repetitions,
                            typename children::template optimize<injected_children...>...>;
 
-- 
2.43.0


From 42c7883baf6ea0fc34fd8b6538c785049d3e5dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 11/24] fix: hex letters are decoded and 8 is not an octal
 digit

---
 src/operators/hex.hpp   | 17 ++++++++++++-----
 src/operators/octal.hpp |  4 ++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/operators/hex.hpp b/src/operators/hex.hpp
index 94eeee2..0e56226 100644
--- a/src/operators/hex.hpp
+++ b/src/operators/hex.hpp
@@ -8,7 +8,14 @@
 namespace e_regex
 {
     template<char C>
-    concept hex = C >= '0' && C <= 'F';
+    concept hex = (C >= '0' && C <= '9') || (C >= 'A' && C <= 'F')
+                  || (C >= 'a' && C <= 'f');
+
+    template<char C>
+        requires hex<C>
+    constexpr int nibble_value = C <= '9'   ? C - '0'
+                                 : C <= 'F' ? C - 'A' + 10
+                                            : C - 'a' + 10;
 
     template<char... digits>
     struct hex_to_bin;
@@ -20,7 +27,7 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << 4) | (second - '0');
+                = (nibble_value<first> << 4) | nibble_value<second>;
 
             using result
                 = merge_pack_strings_t<pack_string<current>,
@@ -34,8 +41,8 @@ namespace e_regex
                           "Hex characters must be included between 0 and F");
 
             static constexpr char current
-                = ((first - '0') << (4)) | (second - '0');
-            static constexpr char current_second = (third - '0') << 4;
+                = (nibble_value<first> << 4) | nibble_value<second>;
+            static constexpr char current_second = nibble_value<third> << 4;
 
             using result = pack_string<current>;
     };
@@ -46,7 +53,7 @@ namespace e_regex
             static_assert(hex<first>,
                           "Hex characters must be included between 0 and F");
 
-            static constexpr char current = first - '0';
+            static constexpr char current = nibble_value<first>;
 
             using result = pack_string<current>;
     };
diff --git a/src/operators/octal.hpp b/src/operators/octal.hpp
index 7cc26e0..9b95c5e 100644
--- a/src/operators/octal.hpp
+++ b/src/operators/octal.hpp
@@ -7,7 +7,7 @@
 namespace e_regex
 {
     template<char C>
-    concept octal = C >= '0' && C <= '8';
+    concept octal = C >= '0' && C <= '7';
 
     template<char... digits>
     struct octal_to_bin;
@@ -16,7 +16,7 @@ namespace e_regex
     struct octal_to_bin<first, second, third, tail...>
     {
             static_assert(octal<first> && octal<second> && octal<third>,
-                          "Octal characters must be included between 0 and 8");
+                          "Octal characters must be included between 0 and 7");
 
             static constexpr char current = ((first - '0') << 6)
                                             | ((second - '0') << 3)
-- 
2.43.0


From 01fd3fa4149f901ae9c0fa259077bcf9e8f7790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:45 +0000
Subject: [PATCH 12/24] fix: matchers never read beyond the end of the query

---
 src/terminals/anchors/end.hpp   | 9 +++------
 src/terminals/exact_matcher.hpp | 3 ++-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/terminals/anchors/end.hpp b/src/terminals/anchors/end.hpp
index bb3c9d0..b67a5f4 100644
--- a/src/terminals/anchors/end.hpp
+++ b/src/terminals/anchors/end.hpp
@@ -24,17 +24,14 @@ namespace e_regex::terminals::anchors
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                if (result.actual_iterator_end > result.query.end())
+                if (result.actual_iterator_end == result.query.end())
                 {
-                    result.accepted = false;
                     return result;
                 }
 
-                result
-                    = (result.actual_iterator_end == result.query.end())
-                      || *result.actual_iterator_end == '\n';
+                result = *result.actual_iterator_end == '\n';
 
-                if (*result.actual_iterator_end == '\n')
+                if (result)
                 {
                     result.actual_iterator_end++;
                 }
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index 6146059..e030391 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -35,7 +35,8 @@ namespace e_regex::terminals
                 for (const auto c:
                      pack_string<identifier, identifiers...>::string.to_view())
                 {
-                    if (c != *result.actual_iterator_end)
+                    if (result.actual_iterator_end == result.query.end()
+                        || c != *result.actual_iterator_end)
                     {
                         result.actual_iterator_end = start;
                         result.accepted            = false;
-- 
2.43.0


From 9249b2fa59e0fd57f0a1a13faf4295c031b4a64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 13/24] fix: the start of an empty query is a start

---
 src/terminals/anchors/start.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index 1ff665f..236f8f3 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -24,12 +24,6 @@ namespace e_regex::terminals::anchors
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                if (result.actual_iterator_end >= result.query.end())
-                {
-                    result.accepted = false;
-                    return result;
-                }
-
                 result = (result.actual_iterator_end
                           == result.query.begin());
 
-- 
2.43.0


From 69913e5647d39b82070c18f77d505a79f8b3301f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 14/24] fix: every branch of a token or separator matches the
 beginning

---
 src/tokenization/iterator.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index fb16900..f4185b9 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -27,6 +27,12 @@ namespace e_regex::tokenization
                 {}
         };
 
+        // Adding ^ to alway match the beginning of current, grouping is
+        // needed to apply it to every branch
+        template<auto matcher>
+        using anchored = e_regex::regex<static_string {"^(?:"} + matcher
+                                        + static_string {")"}>;
+
         template<token_definition auto... tokens>
         struct separator_splitter;
 
@@ -36,11 +42,8 @@ namespace e_regex::tokenization
                 using rec = separator_splitter<tail...>;
 
                 static constexpr auto tokens = std::tuple_cat(
-                    std::make_tuple(token_matcher {
-                        token.type,
-                        // Adding ^ to alway match the beginning of
-                        // current
-                        e_regex::regex<static_string {"^"} + token.matcher> {}}),
+                    std::make_tuple(
+                        token_matcher {token.type, anchored<token.matcher> {}}),
                     rec::tokens);
                 static constexpr auto separators = rec::separators;
         };
@@ -52,8 +55,7 @@ namespace e_regex::tokenization
 
                 static constexpr auto tokens     = rec::tokens;
                 static constexpr auto separators = std::tuple_cat(
-                    std::make_tuple(
-                        e_regex::regex<static_string {"^"} + token.matcher> {}),
+                    std::make_tuple(anchored<token.matcher> {}),
                     rec::separators);
         };
 
-- 
2.43.0


From ac839dd7e61cd6b1132bbd2e7bb2807ca430c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 15/24] fix: results of a single terminal can be decomposed

---
 src/match_result.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 925f7f1..eb4b3ca 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -111,7 +111,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto get() const noexcept
             {
                 static_assert(
-                    index <= matcher::groups,
+                    index <= groups_,
                     "Group index is greater than the number of groups.");
 
                 return get_group(index);
@@ -235,7 +235,8 @@ namespace std
     template<typename matcher>
     struct tuple_size<e_regex::match_result<matcher>>
     {
-            static const unsigned value = matcher::groups + 1;
+            static const unsigned value
+                = e_regex::nodes::group_getter<matcher>::value + 1;
     };
 
     template<std::size_t N, typename matcher, typename Char_Type>
-- 
2.43.0


From b7b5d3173032e7e3a10ebfca3b66963c37f325b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:54 +0000
Subject: [PATCH 16/24] fix: get_expression describes the same regex

---
 src/nodes/basic.hpp                | 15 ++++++----
 src/nodes/get_expression.hpp       | 46 +++++++++++++++++++++++++++---
 src/nodes/greedy.hpp               | 14 ++-------
 src/nodes/group.hpp                |  6 ++++
 src/nodes/lazy.hpp                 | 14 ++-------
 src/nodes/negated.hpp              | 41 ++++++++++++++++++++++++--
 src/nodes/possessive.hpp           | 14 ++-------
 src/nodes/repeated.hpp             | 13 ++-------
 src/terminals/digit_characters.hpp |  3 ++
 src/terminals/exact_matcher.hpp    | 13 ++++++++-
 src/terminals/new_line.hpp         |  3 ++
 src/terminals/space_characters.hpp |  3 ++
 src/terminals/word_characters.hpp  |  3 ++
 13 files changed, 129 insertions(+), 59 deletions(-)

diff --git a/src/nodes/basic.hpp b/src/nodes/basic.hpp
index 93e0601..d2ae23a 100644
--- a/src/nodes/basic.hpp
+++ b/src/nodes/basic.hpp
@@ -31,16 +31,16 @@ namespace e_regex::nodes
     struct simple : public base<matcher, children...>
     {
             static constexpr auto expression = []() {
-                if constexpr (sizeof...(children) <= 1)
+                // Terminals can be followed by anything
+                if constexpr (node<matcher>)
                 {
-                    return matcher::expression
+                    return get_matcher_expression<matcher>()
                            + get_children_expression<children...>();
                 }
                 else
                 {
-                    return matcher::expression + "(?:"
-                           + get_children_expression<children...>()
-                           + ')';
+                    return matcher::expression
+                           + get_children_expression<children...>();
                 }
             }();
 
@@ -189,6 +189,11 @@ namespace e_regex::nodes
             }
     };
 
+    template<typename first, typename second, typename... children>
+    struct is_delimited<simple<void, first, second, children...>>
+    {
+            static constexpr auto value = true;
+    };
 } // namespace e_regex::nodes
 
 #endif /* E_REGEX_NODES_BASIC_HPP_*/
diff --git a/src/nodes/get_expression.hpp b/src/nodes/get_expression.hpp
index aa4e3b9..980848b 100644
--- a/src/nodes/get_expression.hpp
+++ b/src/nodes/get_expression.hpp
@@ -7,6 +7,7 @@
 
 namespace e_regex::nodes
 {
+    // More than one child are alternatives, they must be delimited
     template<typename... children>
     constexpr __attribute__((always_inline)) auto get_children_expression()
     {
@@ -16,13 +17,50 @@ namespace e_regex::nodes
         }
         else if constexpr (sizeof...(children) == 1)
         {
-            return std::tuple_element_t<0, std::tuple<children...>>::expression;
+            constexpr auto expression
+                = std::tuple_element_t<0, std::tuple<children...>>::expression;
+
+            // ^ is an anchor only when nothing comes before it
+            if constexpr (expression.to_view().starts_with('^'))
+            {
+                return "(?:" + expression + ')';
+            }
+            else
+            {
+                return expression;
+            }
+        }
+        else
+        {
+            return "(?:"
+                   + concatenate_pack_strings_t<
+                       pack_string<'|'>,
+                       build_pack_string_t<children::expression>...>::string
+                   + ')';
+        }
+    }
+
+    // Expressions that can be followed by an operator, or by another
+    // expression, as they are
+    template<typename T>
+    struct is_delimited
+    {
+            static constexpr auto value
+                = !requires { typename T::admission_set; }
+                  && T::meta.maximum_match_size == 1
+                  && T::meta.minimum_match_size == 1;
+    };
+
+    template<typename matcher>
+    constexpr __attribute__((always_inline)) auto get_matcher_expression()
+    {
+        if constexpr (is_delimited<matcher>::value)
+        {
+            return matcher::expression;
         }
         else
         {
-            return concatenate_pack_strings_t<
-                pack_string<'|'>,
-                build_pack_string_t<("(?:" + children::expression + ")")>...>::string;
+            return "(?:" + matcher::expression + ')';
         }
     }
 } // namespace e_regex::nodes
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index 12ec09e..b4bb15f 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -83,19 +83,9 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_matcher_expression<matcher>();
 
-                if constexpr (sizeof...(children) <= 1)
-                {
-                    return self + quantifier
-                           + get_children_expression<children...>();
-                }
-                else
-                {
-                    return self + quantifier + "(?:"
-                           + get_children_expression<children...>()
-                           + ')';
-                }
+                return self + quantifier + get_children_expression<children...>();
             }();
 
             // A repetition is not aware of the next one
diff --git a/src/nodes/group.hpp b/src/nodes/group.hpp
index 9676035..42b5cc6 100644
--- a/src/nodes/group.hpp
+++ b/src/nodes/group.hpp
@@ -104,6 +104,12 @@ namespace e_regex::nodes
                 return result;
             }
     };
+
+    template<typename matcher, auto group_index>
+    struct is_delimited<group<matcher, group_index>>
+    {
+            static constexpr auto value = true;
+    };
 } // namespace e_regex::nodes
 
 #endif /* E_REGEX_NODES_GROUP_HPP_*/
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 5d67c6f..9330aa3 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -73,19 +73,9 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_matcher_expression<matcher>();
 
-                if constexpr (sizeof...(children) <= 1)
-                {
-                    return self + quantifier
-                           + get_children_expression<children...>();
-                }
-                else
-                {
-                    return self + quantifier + "(?:"
-                           + get_children_expression<children...>()
-                           + ')';
-                }
+                return self + quantifier + get_children_expression<children...>();
             }();
 
             // A repetition is not aware of the next one
diff --git a/src/nodes/negated.hpp b/src/nodes/negated.hpp
index 4846481..8a57298 100644
--- a/src/nodes/negated.hpp
+++ b/src/nodes/negated.hpp
@@ -9,11 +9,44 @@
 
 namespace e_regex::nodes
 {
+    // Content of the square brackets that produced a matcher
+    template<typename matcher>
+    struct brackets_content
+    {
+            static constexpr auto value = matcher::expression;
+    };
+
+    template<typename... children>
+    struct brackets_content<simple<void, children...>>
+    {
+            static constexpr auto value
+                = concatenate_pack_strings_t<
+                    pack_string<>,
+                    build_pack_string_t<brackets_content<children>::value>...>::string;
+    };
+
+    template<typename matcher>
+    struct brackets_content<simple<matcher>> : public brackets_content<matcher>
+    {};
+
+    template<char start, char end>
+    struct brackets_content<
+        terminals::range_terminal<pack_string<start>, pack_string<end>>>
+    {
+            static constexpr auto value = pack_string<start, '-', end>::string;
+    };
+
+    template<>
+    struct brackets_content<terminals::exact_matcher<pack_string<'-'>>>
+    {
+            static constexpr auto value = static_string {"\\-"};
+    };
+
     template<typename matcher>
     struct negated_node : public base<matcher>
     {
             static constexpr auto expression
-                = "[^" + matcher::expression + "]";
+                = "[^" + brackets_content<matcher>::value + "]";
 
             using admission_set = admitted_set_complement_t<
                 typename extract_admission_set<matcher>::type>;
@@ -59,7 +92,11 @@ namespace e_regex::nodes
             }
     };
 
-    // TODO missing get_expression
+    template<typename matcher>
+    struct is_delimited<negated_node<matcher>>
+    {
+            static constexpr auto value = true;
+    };
 } // namespace e_regex::nodes
 
 #endif /* E_REGEX_NODES_NEGATED_HPP_*/
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 31dea43..7afb9e1 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -72,19 +72,9 @@ namespace e_regex::nodes
                     }
                 }();
 
-                auto self = matcher::expression;
+                auto self = get_matcher_expression<matcher>();
 
-                if constexpr (sizeof...(children) <= 1)
-                {
-                    return self + quantifier
-                           + get_children_expression<children...>();
-                }
-                else
-                {
-                    return self + quantifier + "(?:"
-                           + +get_children_expression<children...>()
-                           + ')';
-                }
+                return self + quantifier + get_children_expression<children...>();
             }();
 
             template<typename... injected_children>
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index 32d75d5..ffd10b6 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -28,20 +28,11 @@ namespace e_regex::nodes
             };
 
             static constexpr auto expression = []() {
-                auto self = matcher::expression + '{'
+                auto self = get_matcher_expression<matcher>() + '{'
                             + number_to_pack_string_t<repetitions>::string
                             + '}';
 
-                if constexpr (sizeof...(children) <= 1)
-                {
-                    return self + get_children_expression<children...>();
-                }
-                else
-                {
-                    return self + "(?:"
-                           + get_children_expression<children...>()
-                           + ')';
-                }
+                return self + get_children_expression<children...>();
             }();
 
             template<typename... injected_children>
diff --git a/src/terminals/digit_characters.hpp b/src/terminals/digit_characters.hpp
index 49fa499..7428bac 100644
--- a/src/terminals/digit_characters.hpp
+++ b/src/terminals/digit_characters.hpp
@@ -20,6 +20,9 @@ namespace e_regex::terminals
                                   admitted_set_range_t<char, '0', '9'>>
     {
             static constexpr auto expression = static_string {"\\D"};
+
+            template<typename... injected_children>
+            using optimize = terminal;
     };
 } // namespace e_regex::terminals
 
diff --git a/src/terminals/exact_matcher.hpp b/src/terminals/exact_matcher.hpp
index e030391..d32227c 100644
--- a/src/terminals/exact_matcher.hpp
+++ b/src/terminals/exact_matcher.hpp
@@ -1,12 +1,22 @@
 #ifndef E_REGEX_TERMINALS_EXACT_MATCHER_HPP_
 #define E_REGEX_TERMINALS_EXACT_MATCHER_HPP_
 
+#include <string_view>
+#include <type_traits>
+
 #include "common.hpp"
 #include "utilities/admitted_set.hpp"
 #include "utilities/static_string.hpp"
 
 namespace e_regex::terminals
 {
+    // Operators must be escaped to match their character
+    template<char c>
+    using escaped_t
+        = std::conditional_t<std::string_view {"\\^$.|?*+()[]{}"}.contains(c),
+                             pack_string<'\\', c>,
+                             pack_string<c>>;
+
     template<typename identifier>
     struct exact_matcher;
 
@@ -17,7 +27,8 @@ namespace e_regex::terminals
               admitted_set<char, identifier>>
     {
             static constexpr auto expression
-                = pack_string<identifier, identifiers...>::string;
+                = merge_pack_strings_t<escaped_t<identifier>,
+                                       escaped_t<identifiers>...>::string;
 
             static constexpr auto meta
                 = e_regex::meta<admitted_set<char, identifier>> {
diff --git a/src/terminals/new_line.hpp b/src/terminals/new_line.hpp
index e276d34..6e0037f 100644
--- a/src/terminals/new_line.hpp
+++ b/src/terminals/new_line.hpp
@@ -19,6 +19,9 @@ namespace e_regex::terminals
                                   admitted_set<char, '\n'>>
     {
             static constexpr auto expression = static_string {"\\N"};
+
+            template<typename... injected_children>
+            using optimize = terminal;
     };
 } // namespace e_regex::terminals
 
diff --git a/src/terminals/space_characters.hpp b/src/terminals/space_characters.hpp
index 7b8ffbb..c252f6e 100644
--- a/src/terminals/space_characters.hpp
+++ b/src/terminals/space_characters.hpp
@@ -44,6 +44,9 @@ namespace e_regex::terminals
                                   space_characters_admission_set>
     {
             static constexpr auto expression = static_string {"\\S"};
+
+            template<typename... injected_children>
+            using optimize = terminal;
     };
 } // namespace e_regex::terminals
 
diff --git a/src/terminals/word_characters.hpp b/src/terminals/word_characters.hpp
index ed1b5b4..bef1046 100644
--- a/src/terminals/word_characters.hpp
+++ b/src/terminals/word_characters.hpp
@@ -42,6 +42,9 @@ namespace e_regex::terminals
         : public negated_terminal<terminal<pack_string<'\\', 'w'>>, word_characters_admission_set>
     {
             static constexpr auto expression = static_string {"\\W"};
+
+            template<typename... injected_children>
+            using optimize = terminal;
     };
 } // namespace e_regex::terminals
 
-- 
2.43.0


From 3e77dcb97951d7bb8c4a81b2d67a53711aec3e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:07 +0000
Subject: [PATCH 17/24] fix: ^ matches the start of every line

---
 src/terminals/anchors/start.hpp |  4 ++--
 src/tokenization/iterator.hpp   | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/terminals/anchors/start.hpp b/src/terminals/anchors/start.hpp
index 236f8f3..9441eb3 100644
--- a/src/terminals/anchors/start.hpp
+++ b/src/terminals/anchors/start.hpp
@@ -24,8 +24,8 @@ namespace e_regex::terminals::anchors
             static constexpr __attribute__((always_inline)) auto
                 match(auto& result) -> auto&
             {
-                result = (result.actual_iterator_end
-                          == result.query.begin());
+                result = result.actual_iterator_end == result.query.begin()
+                         || *(result.actual_iterator_end - 1) == '\n';
 
                 return result;
             }
diff --git a/src/tokenization/iterator.hpp b/src/tokenization/iterator.hpp
index f4185b9..3da4e15 100644
--- a/src/tokenization/iterator.hpp
+++ b/src/tokenization/iterator.hpp
@@ -100,11 +100,24 @@ namespace e_regex::tokenization
             token_t               last_match;
             bool                  valid = true;
 
+            // ^ matches the start of the next lines too
+            template<typename regex>
+            [[nodiscard]] constexpr auto match_current(regex matcher) const
+                -> literal_string_view<>
+            {
+                const literal_string_view<> match
+                    = matcher(current).to_view();
+
+                return match.begin() == current.begin()
+                           ? match
+                           : literal_string_view<> {};
+            }
+
             [[nodiscard]] constexpr auto match_separator() -> bool
             {
                 auto matches = std::apply(
                     [this](auto... regex) {
-                        return std::array {regex(current).to_view()...};
+                        return std::array {match_current(regex)...};
                     },
                     data::separators);
 
@@ -131,7 +144,7 @@ namespace e_regex::tokenization
                 auto matches = std::apply(
                     [this](auto... token) {
                         return std::array {token_t {
-                            .value = token.matcher(current).to_view(),
+                            .value = match_current(token.matcher),
                             .type  = token.type}...};
                     },
                     data::tokens);
-- 
2.43.0


From 19cf416aae61c72d2c5126d58aaaa5a20b6c0cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 18/24] fix: end() is an empty result, without groups

---
 src/match_result.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index eb4b3ca..ed2ffa8 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -84,9 +84,7 @@ namespace e_regex
             constexpr __attribute__((always_inline)) auto end() const noexcept
             {
                 auto res = *this;
-                res.data.actual_iterator_start
-                    = res.data.actual_iterator_end;
-                res.data.accepted = false;
+                res.reject();
 
                 return res;
             }
-- 
2.43.0


From 9a4b8da243f18699798de259a317a2805284d2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 19/24] fix: size() is the number of groups

---
 src/match_result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index ed2ffa8..0b5081a 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -152,7 +152,7 @@ namespace e_regex
 
             constexpr __attribute__((always_inline)) auto size() const noexcept
             {
-                return data.matches;
+                return groups_;
             }
 
             static __attribute__((always_inline)) constexpr auto groups() noexcept
-- 
2.43.0


From c529b248d27eef25ac147fd83a470ed7531b3b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 20/24] fix: results convert to std::string_view

---
 src/match_result.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index 0b5081a..ed9ecf2 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -150,6 +150,12 @@ namespace e_regex
                 return to_view();
             }
 
+            explicit constexpr __attribute__((always_inline))
+            operator std::string_view() const noexcept
+            {
+                return to_view();
+            }
+
             constexpr __attribute__((always_inline)) auto size() const noexcept
             {
                 return groups_;
-- 
2.43.0


From c244229bce96ad7966ae6894713d801eb61a0b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 21/24] fix: {0,n} is shown with its zero

---
 src/utilities/number_to_pack_string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utilities/number_to_pack_string.hpp b/src/utilities/number_to_pack_string.hpp
index 4c964b6..7a3581a 100644
--- a/src/utilities/number_to_pack_string.hpp
+++ b/src/utilities/number_to_pack_string.hpp
@@ -35,8 +35,9 @@ namespace e_regex
                                                pack_string<(current_unit + '0'), current...>>::type;
     };
 
-    template<>
-    struct number_to_pack_string<0, pack_string<>>
+    template<auto number>
+        requires(!nonzero(number))
+    struct number_to_pack_string<number, pack_string<>>
     {
             using type = pack_string<'0'>;
     };
-- 
2.43.0


From 0f29de336080a43411051ab88f69087cf67f30e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:59 +0000
Subject: [PATCH 22/24] fix: brackets and | inside square brackets are ordinary
 characters

---
 src/tokenizer.hpp                           | 44 +++++++++++++++++++++
 src/utilities/balanced.hpp                  | 27 +++++++++----
 src/utilities/extract_delimited_content.hpp | 30 ++++++++++++++
 3 files changed, 94 insertions(+), 7 deletions(-)

diff --git a/src/tokenizer.hpp b/src/tokenizer.hpp
index ee1b819..963f7ae 100644
--- a/src/tokenizer.hpp
+++ b/src/tokenizer.hpp
@@ -109,6 +109,50 @@ namespace e_regex
                 typename tokenizer<current_, pack_string<tail...>>::tokens;
     };
 
+    // Inside square brackets only \ and ] have a special meaning
+    template<typename current, typename string>
+    struct class_tokenizer;
+
+    template<typename current, char head, char... tail>
+    struct class_tokenizer<current, pack_string<head, tail...>>
+        : public class_tokenizer<tuple_cat_t<current, std::tuple<pack_string<head>>>,
+                                 pack_string<tail...>>
+    {
+            // Simple iteration
+    };
+
+    template<typename current, char head, char... tail>
+    struct class_tokenizer<current, pack_string<'\\', head, tail...>>
+        : public class_tokenizer<
+              tuple_cat_t<current, std::tuple<pack_string<'\\', head>>>,
+              pack_string<tail...>>
+    {
+            // Escaped character
+    };
+
+    template<typename current, char... tail>
+    struct class_tokenizer<current, pack_string<']', tail...>>
+        : public tokenizer<tuple_cat_t<current, std::tuple<pack_string<']'>>>,
+                           pack_string<tail...>>
+    {
+            // End of the class
+    };
+
+    template<typename current>
+    struct class_tokenizer<current, pack_string<>>
+    {
+            // Malformed class
+            using tokens = current;
+    };
+
+    template<typename current, char... tail>
+    struct tokenizer<current, pack_string<'[', tail...>>
+        : public class_tokenizer<tuple_cat_t<current, std::tuple<pack_string<'['>>>,
+                                 pack_string<tail...>>
+    {
+            // Character class
+    };
+
     template<typename current, char... tail>
     struct tokenizer<current, pack_string<'{', tail...>>
     {
diff --git a/src/utilities/balanced.hpp b/src/utilities/balanced.hpp
index f0a2701..cdc2220 100644
--- a/src/utilities/balanced.hpp
+++ b/src/utilities/balanced.hpp
@@ -41,19 +41,32 @@ namespace e_regex
             // ) found and a ( is on top of the stack
     };
 
+    // Inside square brackets the others are ordinary characters
     template<typename stack, typename... strings>
-    struct balanced<stack, pack_string<'['>, strings...>
-        : public balanced<typename stack::template push<'['>, strings...>
+    struct balanced_after_class : public std::false_type
     {
-            // [ found
+            // Not closed
+    };
+
+    template<typename stack, typename string, typename... strings>
+    struct balanced_after_class<stack, string, strings...>
+        : public balanced_after_class<stack, strings...>
+    {
+            // Inside the class
     };
 
     template<typename stack, typename... strings>
-        requires(!stack::empty && stack::head == '[')
-    struct balanced<stack, pack_string<']'>, strings...>
-        : public balanced<typename stack::pop, strings...>
+    struct balanced_after_class<stack, pack_string<']'>, strings...>
+        : public balanced<stack, strings...>
     {
-            // ] found and a [ is on top of the stack
+            // ] found
+    };
+
+    template<typename stack, typename... strings>
+    struct balanced<stack, pack_string<'['>, strings...>
+        : public balanced_after_class<stack, strings...>
+    {
+            // [ found
     };
 
     template<typename stack, typename... strings>
diff --git a/src/utilities/extract_delimited_content.hpp b/src/utilities/extract_delimited_content.hpp
index 634367e..b9694a3 100644
--- a/src/utilities/extract_delimited_content.hpp
+++ b/src/utilities/extract_delimited_content.hpp
@@ -56,6 +56,36 @@ namespace e_regex
             // Iterate characters
     };
 
+    template<typename current, typename... tail>
+    struct extract_delimited_content<'[', ']', 0, current, std::tuple<pack_string<'['>, tail...>>
+        : public extract_delimited_content<'[',
+                                           ']',
+                                           0,
+                                           tuple_cat_t<current, pack_string<'['>>,
+                                           std::tuple<tail...>>
+    {
+            // Inside square brackets [ is an ordinary character
+    };
+
+    template<unsigned skip_counter, typename current, typename... tail>
+    struct extract_delimited_content<'(', ')', skip_counter, current, std::tuple<pack_string<'['>, tail...>>
+    {
+            // Inside square brackets ( and ) are ordinary characters
+            using content
+                = extract_delimited_content<'[', ']', 0, std::tuple<>, std::tuple<tail...>>;
+            using next = extract_delimited_content<
+                '(',
+                ')',
+                skip_counter,
+                tuple_cat_t<tuple_cat_t<tuple_cat_t<current, pack_string<'['>>,
+                                        typename content::result>,
+                            pack_string<']'>>,
+                typename content::remaining>;
+
+            using result    = typename next::result;
+            using remaining = typename next::remaining;
+    };
+
     template<char open, char closing, typename string>
     using extract_delimited_content_t
         = extract_delimited_content<open, closing, 0, std::tuple<>, string>;
-- 
2.43.0


From 5222088947cdc7cd4cd252331eb86cbaa12df368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:30 +0000
Subject: [PATCH 23/24] fix: groups can be read in constant expressions

---
 src/match_result.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/match_result.hpp b/src/match_result.hpp
index ed9ecf2..4226582 100644
--- a/src/match_result.hpp
+++ b/src/match_result.hpp
@@ -32,6 +32,17 @@ namespace e_regex
             {
                 return accepted;
             }
+
+            // An empty list assigned to the groups is not a constant
+            // expression with gcc
+            constexpr __attribute__((always_inline)) void clear_groups() noexcept
+            {
+                for (auto& group: match_groups)
+                {
+                    group.begin_ = {};
+                    group.end_   = {};
+                }
+            }
     };
 
     template<typename matcher, typename Char_Type = char>
@@ -202,7 +213,7 @@ namespace e_regex
             {
                 for (;; ++position)
                 {
-                    data.match_groups          = {};
+                    data.clear_groups();
                     data.actual_iterator_start = position;
                     data.actual_iterator_end   = position;
                     data.accepted              = true;
@@ -223,7 +234,7 @@ namespace e_regex
 
             constexpr __attribute__((always_inline)) auto reject() noexcept -> bool
             {
-                data.match_groups          = {};
+                data.clear_groups();
                 data.actual_iterator_start = data.query.end();
                 data.actual_iterator_end   = data.query.end();
                 data.accepted              = false;
-- 
2.43.0


From e7a31cef902559c335f3b1dd4c74c6f562275d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:07 +0000
Subject: [PATCH 24/24] fix: a part repeated zero times does not come first in
 a pattern

---
 src/nodes/common.hpp     | 8 ++++++++
 src/nodes/greedy.hpp     | 2 +-
 src/nodes/lazy.hpp       | 2 +-
 src/nodes/possessive.hpp | 2 +-
 src/nodes/repeated.hpp   | 2 +-
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/nodes/common.hpp b/src/nodes/common.hpp
index 3771f3d..3467c8b 100644
--- a/src/nodes/common.hpp
+++ b/src/nodes/common.hpp
@@ -44,6 +44,14 @@ namespace e_regex::nodes
         typename extract_admission_set<matcher, children...>::type,
         typename extract_admission_set<matcher>::type>;
 
+    // Admission set of a repeated matcher followed by its children: a
+    // matcher that is repeated zero times can't come first
+    template<typename matcher, unsigned repetitions_min, unsigned repetitions_max, typename... children>
+    using repeated_admission_set_t = std::conditional_t<
+        repetitions_max == 0,
+        typename extract_admission_set<children...>::type,
+        sequence_admission_set_t<matcher, repetitions_min == 0, children...>>;
+
     // Characters that can come first in a sequence of nodes
     template<typename... sequence>
     struct sequence_meta
diff --git a/src/nodes/greedy.hpp b/src/nodes/greedy.hpp
index b4bb15f..6ece7df 100644
--- a/src/nodes/greedy.hpp
+++ b/src/nodes/greedy.hpp
@@ -26,7 +26,7 @@ namespace e_regex::nodes
             // If matcher is optional (aka repetitions_min==0),
             // admission set must include children too
             using admission_set
-                = sequence_admission_set_t<matcher, repetitions_min == 0, children...>;
+                = repeated_admission_set_t<matcher, repetitions_min, repetitions_max, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::GREEDY,
diff --git a/src/nodes/lazy.hpp b/src/nodes/lazy.hpp
index 9330aa3..795e606 100644
--- a/src/nodes/lazy.hpp
+++ b/src/nodes/lazy.hpp
@@ -20,7 +20,7 @@ namespace e_regex::nodes
             // If matcher is optional (aka repetitions_min==0),
             // admission set must include children too
             using admission_set
-                = sequence_admission_set_t<matcher, repetitions_min == 0, children...>;
+                = repeated_admission_set_t<matcher, repetitions_min, repetitions_max, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::LAZY,
diff --git a/src/nodes/possessive.hpp b/src/nodes/possessive.hpp
index 7afb9e1..d566a4c 100644
--- a/src/nodes/possessive.hpp
+++ b/src/nodes/possessive.hpp
@@ -19,7 +19,7 @@ namespace e_regex::nodes
             // If matcher is optional (aka repetitions_min==0),
             // admission set must include children too
             using admission_set
-                = sequence_admission_set_t<matcher, repetitions_min == 0, children...>;
+                = repeated_admission_set_t<matcher, repetitions_min, repetitions_max, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::POSSESSIVE,
diff --git a/src/nodes/repeated.hpp b/src/nodes/repeated.hpp
index ffd10b6..a8072b8 100644
--- a/src/nodes/repeated.hpp
+++ b/src/nodes/repeated.hpp
@@ -13,7 +13,7 @@ namespace e_regex::nodes
     struct repeated : public base<matcher, children...>
     {
             using admission_set
-                = sequence_admission_set_t<matcher, repetitions == 0, children...>;
+                = repeated_admission_set_t<matcher, repetitions, repetitions, children...>;
 
             static constexpr auto meta = e_regex::meta<admission_set> {
                 .policy_ = e_regex::policy::NONE,
-- 
2.43.0


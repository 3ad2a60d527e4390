From 9951f4c34fbf8be62241a9dab62f07c02c0e11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 001/113] fix: split_n with include_all_delimiters takes the
 whole run of delimiters, as split does

---
 strtk.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cc44874..09782ff 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3579,14 +3579,18 @@ namespace strtk
          {
             if (include_delimiters)
             {
-               ++range.second;
+               if (include_1st_delimiter)
+                  ++range.second;
+               else if (include_all_delimiters)
+                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
+
                (*out) = range;
                ++out;
 
                if (++match_count >= token_count)
                   return match_count;
 
-               if (compress_delimiters)
+               if ((!include_all_delimiters) && compress_delimiters)
                   while ((end != range.second) && delimiter(*range.second)) ++range.second;
             }
             else
-- 
2.43.0


From 2aff4a659424c3b34167c236ce64a026243a9aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 002/113] fix: an exhausted offset_predicate stays exhausted
 instead of reading past its offset list

---
 strtk.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 09782ff..701837e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3902,7 +3902,12 @@ namespace strtk
 
       inline int next() const
       {
-         int result = offset_list_[current_index_++];
+         const int result = offset_list_[current_index_];
+
+         if (current_index_ < offset_list_size)
+         {
+            ++current_index_;
+         }
 
          if (rotate_ && (current_index_ >= offset_list_size))
          {
-- 
2.43.0


From f1ba2967868726de2799d9389ec54b0ba07ecf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:56 +0000
Subject: [PATCH 003/113] fix: split_regex_n with a token count of zero yields
 no tokens

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 701837e..02030a9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3806,6 +3806,8 @@ namespace strtk
                                     OutputIterator out,
                                     const regex_match_mode::type mode = regex_match_mode::match_all)
    {
+      if (0 == token_count) return 0;
+
       boost::sregex_iterator itr(begin,end,delimiter_expression);
       const boost::sregex_iterator itr_end;
       std::pair<InputIterator,InputIterator> range(begin,begin);
-- 
2.43.0


From e66ea9e5285773e14c35b3ead3aff3511ae3db05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 004/113] fix: long and unsigned long conversions use the
 type's real limits on LP64 platforms

---
 strtk.hpp | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 02030a9..304ef71 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16920,27 +16920,6 @@ namespace strtk
          static const unsigned int ldpos        =  5;
       };
 
-      template<>
-      struct numeric<long>
-      {
-         static const unsigned int length       = 10;
-         static const unsigned int size         = 16;
-         static const unsigned int bound_length = 10;
-         static const long m10                  = 214748364;
-         static const long ldpos                =  7;
-         static const long ldneg                =  8;
-      };
-
-      template<>
-      struct numeric<unsigned long>
-      {
-         static const unsigned int  length       = 10;
-         static const unsigned int  size         = 16;
-         static const unsigned int  bound_length = 10;
-         static const unsigned long m10          = 429496729;
-         static const unsigned long ldpos        = 5;
-      };
-
       template<>
       struct numeric<long long>
       {
@@ -16962,6 +16941,29 @@ namespace strtk
          static const unsigned long long ldpos  = 5;
       };
 
+      // Note: long is either as wide as int or as wide as long long.
+      template <std::size_t N>
+      struct numeric_long
+      {
+         typedef numeric<long long>              signed_type;
+         typedef numeric<unsigned long long int> unsigned_type;
+      };
+
+      template<>
+      struct numeric_long<sizeof(int)>
+      {
+         typedef numeric<int>          signed_type;
+         typedef numeric<unsigned int> unsigned_type;
+      };
+
+      template<>
+      struct numeric<long> : public numeric_long<sizeof(long)>::signed_type
+      {};
+
+      template<>
+      struct numeric<unsigned long> : public numeric_long<sizeof(unsigned long)>::unsigned_type
+      {};
+
       template<> struct numeric<float>  { enum { min_exp =  -37, max_exp =  +38, precision = 10}; };
       template<> struct numeric<double> { enum { min_exp = -307, max_exp = +308, precision = 15}; };
 
-- 
2.43.0


From a2e090d061cb97b643b555d1e196f309db4addfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:10 +0000
Subject: [PATCH 005/113] fix: real exponents outside the power table scale in
 steps instead of reading past it

---
 strtk.hpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 304ef71..17784ec 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16830,25 +16830,27 @@ namespace strtk
 
          static const int fract10_size = static_cast<int>(sizeof(fract10) / sizeof(double));
 
-         const int e = std::abs(exponent);
+         static const int max_step = fract10_size - 1;
 
-         if (exponent >= std::numeric_limits<T>::min_exponent10)
+         if (T(0) == d)
+            return d;
+
+         int e = std::abs(exponent);
+
+         for ( ; e > max_step; e -= max_step)
          {
-            if (e < fract10_size)
-            {
-               if (exponent > 0)
-                  return T(d * fract10[e]);
-               else
-                  return T(d / fract10[e]);
-            }
+            if (exponent > 0)
+               d *= T(fract10[max_step]);
             else
-               return T(d * std::pow(10.0, 10.0 * exponent));
+               d /= T(fract10[max_step]);
          }
+
+         if (0 == e)
+            return d;
+         else if (exponent > 0)
+            return T(d * fract10[e]);
          else
-         {
-                     d /= fract10[          -std::numeric_limits<T>::min_exponent10];
-            return T(d / fract10[-exponent + std::numeric_limits<T>::min_exponent10]);
-         }
+            return T(d / fract10[e]);
       }
 
       #define strtk_register_pod_type(T)                                                           \
-- 
2.43.0


From 4ef4c25ffb09a3a339ce60f9551130e5ca80cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:39 +0000
Subject: [PATCH 006/113] fix: real parsing rejects exponents without digits
 and garbage around inf and nan

---
 strtk.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 17784ec..3f54ac1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17539,11 +17539,11 @@ namespace strtk
                #ifdef strtk_use_lut
 
                #define strtk_process_digit \
-               if (strtk_likely((digit = details::digit_table[(int)*itr++]) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #else
                #define strtk_process_digit \
-               if (strtk_likely((digit = (*itr++ - '0')) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = (*itr - '0')) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #endif
 
@@ -17646,6 +17646,7 @@ namespace strtk
                return false;
          }
 
+         const Iterator number_begin = itr;
          bool instate = false;
 
          #ifdef strtk_use_lut
@@ -17732,8 +17733,13 @@ namespace strtk
                   {
                      if (end == itr)
                         return false;
-                     else
-                        c = (*itr);
+
+                     const typename std::iterator_traits<Iterator>::value_type last = *(itr - 1);
+
+                     if ((last < '0') || ('9' < last))
+                        return false;
+
+                     c = (*itr);
                   }
 
                   exponent += exp;
@@ -17763,7 +17769,7 @@ namespace strtk
                      else
                         return false;
                   }
-                  else if (('I' <= (*itr)) && ((*itr) <= 'n'))
+                  else if ((number_begin == itr) && ('I' <= (*itr)) && ((*itr) <= 'n'))
                   {
                      if (('i' == (*itr)) || ('I' == (*itr)))
                      {
-- 
2.43.0


From 84d80efd95e1cdced6fdc11cc714c332ef4dee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 007/113] fix: index_remover over an empty index list removes
 nothing instead of reading it

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3f54ac1..ecd8792 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1155,7 +1155,7 @@ namespace strtk
          : itr_(sequence.begin()),
            end_(sequence.end()),
            current_index_(0),
-           check_(true)
+           check_(sequence.begin() != sequence.end())
          {}
 
          template <typename T>
-- 
2.43.0


From b45e373d71d0b1a7e05996efe63979da891608a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 008/113] fix: remove_duplicates handles every character value
 and its in-place form modifies its argument

---
 strtk.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ecd8792..689590a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1432,16 +1432,16 @@ namespace strtk
 
    inline std::string remove_duplicates(const std::string& str)
    {
-      std::string::value_type table[0xFF];
-      std::fill_n(table,0xFF,static_cast<char>(0));
+      std::string::value_type table[0x100];
+      std::fill_n(table,0x100,static_cast<char>(0));
       std::string result;
       result.reserve(str.size());
       for (std::size_t i = 0; i < str.size(); ++i)
       {
          const char c = str[i];
-         if (0 == table[static_cast<std::size_t>(c)])
+         if (0 == table[static_cast<unsigned char>(c)])
          {
-            table[static_cast<std::size_t>(c)] = 0x01;
+            table[static_cast<unsigned char>(c)] = 0x01;
             result += c;
          }
       }
@@ -1450,7 +1450,8 @@ namespace strtk
 
    inline std::string remove_duplicates_inplace(std::string& str)
    {
-      return remove_duplicates(str);
+      str = remove_duplicates(str);
+      return str;
    }
 
    template <typename Iterator, typename Predicate>
-- 
2.43.0


From eb10cba28856e9856f1866ae94428a8073e11977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 009/113] fix: remove_trailing considers the first element of
 the range too

---
 strtk.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 689590a..399c206 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1463,12 +1463,11 @@ namespace strtk
       if (0 == length)
          return 0;
 
-      Iterator itr = begin + (length - 1);
+      Iterator itr = begin + length;
       std::size_t removal_count = 0;
 
-      while ((begin != itr) && predicate(*itr))
+      while ((begin != itr) && predicate(*(--itr)))
       {
-         --itr;
          ++removal_count;
       }
 
-- 
2.43.0


From 466d92076a7cd4bb3d7bd4a119014dca61ac5bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 010/113] fix: wildcard matching tries every way to cut the
 text and stays inside it

---
 strtk.hpp | 66 ++++++++++++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 399c206..f18d721 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1905,47 +1905,59 @@ namespace strtk
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_more,
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_one)
       {
-         Iterator d_itr = data_begin;
-         Iterator p_itr = pattern_begin;
+         /*
+            current[i]: the data consumed so far is matched by the first
+                        i elements of the pattern.
+         */
+         const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
+
+         std::vector<char> current(pattern_length + 1, 0);
+         std::vector<char> next   (pattern_length + 1, 0);
 
-         while ((p_itr != pattern_end) && (d_itr != data_end))
+         current[0] = 1;
+
+         for (Iterator d_itr = data_begin; ; ++d_itr)
          {
-            if (match_zero_or_more == *p_itr)
+            Iterator p_itr = pattern_begin;
+
+            for (std::size_t i = 0; i < pattern_length; ++i, ++p_itr)
             {
-               while ((p_itr != pattern_end) && (*p_itr == match_zero_or_more || *p_itr == match_zero_or_one))
+               if (current[i] && ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr)))
                {
-                  ++p_itr;
+                  current[i + 1] = 1;
                }
+            }
 
-               if (p_itr == pattern_end)
-                  return true;
+            if (data_end == d_itr)
+               break;
 
-               const typename std::iterator_traits<Iterator>::value_type c = *(p_itr++);
+            bool active = false;
+            p_itr = pattern_begin;
+            std::fill(next.begin(),next.end(),static_cast<char>(0));
 
-               while ((d_itr != data_end) && !Comparator::cmp(c, *d_itr))
+            for (std::size_t i = 0; i < pattern_length; ++i, ++p_itr)
+            {
+               if (!current[i])
+                  continue;
+               else if (match_zero_or_more == *p_itr)
                {
-                  ++d_itr;
+                  next[i] = 1;
+                  active  = true;
+               }
+               else if ((match_zero_or_one == *p_itr) || Comparator::cmp(*p_itr, *d_itr))
+               {
+                  next[i + 1] = 1;
+                  active      = true;
                }
-
-               ++d_itr;
-            }
-            else if ((*p_itr == match_zero_or_one) || Comparator::cmp(*p_itr, *d_itr))
-            {
-               ++d_itr;
-               ++p_itr;
             }
-            else
+
+            if (!active)
                return false;
-         }
 
-         if (d_itr != data_end)
-            return false;
-         else if (p_itr == pattern_end)
-            return true;
-         else if ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr))
-            ++p_itr;
+            current.swap(next);
+         }
 
-         return pattern_end == p_itr;
+         return (0 != current[pattern_length]);
       }
    }
 
-- 
2.43.0


From 0c647bc1e7d79a3fc8a25dad0cffd99be8c0a9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 011/113] fix: case-insensitive membership tests work for every
 container of strings

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f18d721..53b5284 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2034,7 +2034,7 @@ namespace strtk
    template <typename Iterator>
    inline Iterator imatch(const std::string& s, const Iterator begin, const Iterator end)
    {
-      for (const std::string* itr = begin; end != itr; ++itr)
+      for (Iterator itr = begin; end != itr; ++itr)
       {
          if (imatch(s,*itr))
          {
@@ -2054,13 +2054,13 @@ namespace strtk
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::set<std::string,Comparator,Allocator>& set)
    {
-      return imatch(s, set.begin(), set.end());
+      return (set.end() != imatch(s, set.begin(), set.end()));
    }
 
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::multiset<std::string,Comparator,Allocator>& multiset)
    {
-      return imatch(s, multiset.begin(), multiset.end());
+      return (multiset.end() != imatch(s, multiset.begin(), multiset.end()));
    }
 
    template <typename Iterator, typename OutputIterator>
-- 
2.43.0


From 2be942aca9a4f16c245eee7f01cc48585e515e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:15 +0000
Subject: [PATCH 012/113] fix: searching for every occurrence of an empty
 pattern terminates

---
 strtk.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 53b5284..cf50490 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2073,6 +2073,9 @@ namespace strtk
       Iterator itr = begin;
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
+      if (0 == pattern_length)
+         return 0;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end)))
       {
          (*out) = std::make_pair(itr,itr + pattern_length);
@@ -2122,6 +2125,9 @@ namespace strtk
       const std::size_t pattern_length = std::distance(pattern_begin,pattern_end);
       std::size_t match_count = 0;
 
+      if (0 == pattern_length)
+         return 0;
+
       while (end != (itr = std::search(itr, end, pattern_begin, pattern_end, imatch_char)))
       {
          (*out) = std::make_pair(itr, itr + pattern_length);
-- 
2.43.0


From 04b747f46d9e56ee39cc72c883635bc789b5e82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 013/113] fix: replace_pattern over ranges advances its output
 iterator between pieces

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cf50490..965f330 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1852,9 +1852,9 @@ namespace strtk
          pos = std::distance(s_begin,temp_s_itr) - p_size;
          int diff = pos - prev_pos;
 
-         std::copy(s_itr,s_itr + diff, out);
+         out = std::copy(s_itr,s_itr + diff, out);
          s_itr = temp_s_itr;
-         std::copy(r_itr,r_end, out);
+         out = std::copy(r_itr,r_end, out);
 
          pos += p_size;
          prev_pos = pos;
-- 
2.43.0


From 0c8d463083d96da6f384b88a095e5693e9c52de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:55 +0000
Subject: [PATCH 014/113] fix: filter_on_wildcard_match lets matches through
 when asked to

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 965f330..75fb849 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7708,7 +7708,7 @@ namespace strtk
       template <typename Iterator>
       inline void operator() (const std::pair<Iterator,Iterator>& range) const
       {
-         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') ^ allow_through_on_match_)
+         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') == allow_through_on_match_)
          {
             predicate_(range);
          }
@@ -7716,7 +7716,7 @@ namespace strtk
 
       inline void operator() (const std::string& s) const
       {
-         if (match(match_pattern_,s) ^ allow_through_on_match_)
+         if (match(match_pattern_,s) == allow_through_on_match_)
          {
             predicate_(s);
          }
-- 
2.43.0


From ec3c9008ee81e720f5fda5eac6e3b5a55773967c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:56 +0000
Subject: [PATCH 015/113] fix: first_non_repeated_char handles every character
 value

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 75fb849..71c78ba 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4364,7 +4364,7 @@ namespace strtk
 
       while (end != itr)
       {
-         unsigned long long int& element = lut[static_cast<unsigned int>(*itr)];
+         unsigned long long int& element = lut[static_cast<unsigned char>(*itr)];
 
          if (not_yet_encountered == element)
          {
-- 
2.43.0


From 2b572d6a4955c19433ad7c852a0c19305751287b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 016/113] fix: filter_on_match compares whole words and blocks
 matches when asked to

---
 strtk.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 71c78ba..f39c30b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7756,7 +7756,11 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch(to_ptr((*itr)), to_ptr((*itr)) + (*itr).size(), range.first,range.second))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(), (*itr).end(), range.first))
+                 (
+                   !case_insensitive_ &&
+                   ((*itr).size() == static_cast<std::size_t>(std::distance(range.first,range.second))) &&
+                   std::equal((*itr).begin(), (*itr).end(), range.first)
+                 )
                )
             {
                if (allow_through_on_match_)
@@ -7781,14 +7785,15 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch((*itr).begin(),(*itr).end(),s.begin(),s.end()))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(),(*itr).end(),s.begin()))
+                 (!case_insensitive_ && ((*itr) == s))
                )
             {
                if (allow_through_on_match_)
                {
                   predicate_(s);
-                  return;
                }
+
+               return;
             }
          }
 
-- 
2.43.0


From de80ac42c9d2fa156bcddb1f24839b0dfb709255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 017/113] fix: match_n_consecutive in at-least mode accepts a
 run that reaches the end

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index f39c30b..075caa6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15833,7 +15833,7 @@ namespace strtk
                return false;
          }
 
-         return false;
+         return (count >= n);
       }
 
       template <typename Iterator,typename Predicate>
-- 
2.43.0


From 2521f5c0fd8fc68dab7d3a1a7f561a6820008310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:03 +0000
Subject: [PATCH 018/113] fix: split_on_consecutive_n yields at most n runs

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 075caa6..a866bc3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15984,7 +15984,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = details::find_exactly_n_consecutive_values(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
@@ -16056,7 +16056,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = find_n_consecutive<iterator_type>(m,type,mode,itr_range);
 
-- 
2.43.0


From 7cff45d057a3d094c4ae74fe33e51d8117237280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 019/113] fix: predicate forms of split_on_consecutive_n
 compile

---
 strtk.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a866bc3..d7d38c3 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15986,7 +15986,7 @@ namespace strtk
 
       while ((end != itr_range.first) && (match_count < n))
       {
-         range_type found_itr = details::find_exactly_n_consecutive_values(m,p,itr_range);
+         range_type found_itr = details::find_exactly_n_consecutive_values<iterator_type,Predicate>(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
          {
             break;
@@ -16231,14 +16231,13 @@ namespace strtk
                                              const char* end,
                                              OutputIterator out)
    {
-      return split_on_consecutive_n<Predicate,
-                                    char*,
-                                    OutputIterator>(n,
-                                                    m,
-                                                    p,
-                                                    const_cast<char*>(begin),
-                                                    const_cast<char*>(end),
-                                                    out);
+      return split_on_consecutive<Predicate,
+                                  OutputIterator>(n,
+                                                  m,
+                                                  p,
+                                                  const_cast<char*>(begin),
+                                                  const_cast<char*>(end),
+                                                  out);
    }
 
    template <typename Predicate, typename OutputIterator>
-- 
2.43.0


From ffadeb60e14ad1fc73c8378aebbd80aa7c035398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 020/113] fix: replicate_inplace leaves n copies, as replicate
 does

---
 strtk.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index d7d38c3..aa60dc2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11484,10 +11484,16 @@ namespace strtk
    inline void replicate_inplace(const std::size_t& n,
                                  std::string& str)
    {
+      if (0 == n)
+      {
+         str.clear();
+         return;
+      }
+
       std::string temp_str = str;
-      str.reserve(str.size() + (str.size() * n));
+      str.reserve(str.size() * n);
 
-      for (std::size_t i = 0; i < n; ++i)
+      for (std::size_t i = 1; i < n; ++i)
       {
          str.append(temp_str);
       }
-- 
2.43.0


From fe22180fb9d5763cda3af2babb0dda2d7d8133c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 021/113] fix: translation_table handles every character value

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index aa60dc2..845d1be 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11838,13 +11838,13 @@ namespace strtk
 
          for (std::size_t i = 0; i < itable.size(); ++i)
          {
-            table_[static_cast<unsigned int>(itable[i])] = static_cast<unsigned char>(otable[i]);
+            table_[static_cast<unsigned char>(itable[i])] = static_cast<unsigned char>(otable[i]);
          }
       }
 
       inline char operator()(const char c) const
       {
-         return static_cast<char>(table_[static_cast<unsigned int>(c)]);
+         return static_cast<char>(table_[static_cast<unsigned char>(c)]);
       }
 
       inline unsigned char operator()(const unsigned char c) const
-- 
2.43.0


From 8e04e4704c611856fa52332bac55a68752d26524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 022/113] fix: text insert and remove shift their overlapping
 bytes correctly

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 845d1be..dfd8b61 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15617,7 +15617,7 @@ namespace strtk
       {
          if (index >= s.size())
             return;
-         std::memcpy(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - (index + 1));
          s.resize(s.size() - 1);
       }
 
@@ -15631,7 +15631,7 @@ namespace strtk
       inline void insert_inplace(std::string& s, const std::size_t& index, const char c)
       {
          s.resize(s.size() + 1);
-         std::memcpy(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - (index + 1));
          s[index] = c;
       }
 
-- 
2.43.0


From da9799133d653863b3d9da0267086b79644e86dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 023/113] fix: lexicographically_canonicalize yields the
 smallest rotation

---
 strtk.hpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index dfd8b61..43a27af 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4284,23 +4284,28 @@ namespace strtk
       typedef typename std::list<iter_type> itr_list_type;
       itr_list_type itr_list;
 
+      if (begin == end)
+         return;
+
       type smallest = (*std::min_element(begin,end));
+      std::size_t remaining = std::distance(begin,end) - 1;
 
       for (Iterator itr = begin; itr != end; ++itr)
       {
          if (*itr == smallest) itr_list.push_back(std::make_pair(itr,itr));
       }
 
-      while (itr_list.size() > 1)
+      while ((itr_list.size() > 1) && (remaining > 0))
       {
+         --remaining;
+
          typename itr_list_type::iterator itr = itr_list.begin();
          while (itr_list.end() != itr)
          {
             ++(*itr).first;
             if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
+               (*itr).first = begin;
+            ++itr;
          }
 
          smallest = *(*itr_list.begin()).first;
@@ -4321,15 +4326,6 @@ namespace strtk
            else
               ++itr;
          }
-
-         itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-            if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
-         }
       }
 
       std::rotate(begin,(*itr_list.begin()).second,end);
-- 
2.43.0


From 35639818925b054cde640463d2853419032145d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 024/113] fix: set_array from a shorter array copies only that
 array

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 43a27af..5b00671 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -23983,7 +23983,7 @@ namespace strtk
    {
       if (N < M)
          return false;
-      std::copy(src,src + N, &dest[0]);
+      std::copy(src,src + M, &dest[0]);
       if ((M < N) && pad)
          std::fill_n(&dest[M],N - M,padding);
       return true;
-- 
2.43.0


From 6f205e5056b5151f497174adacff0ceec1b4bdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:15 +0000
Subject: [PATCH 025/113] fix: delete_if works for sets of pointers

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5b00671..ea54946 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21639,7 +21639,7 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
+               delete (*itr);
                itr = cont.erase(itr);
             }
             else
@@ -21660,7 +21660,7 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
+               delete (*itr);
                itr = cont.erase(itr);
             }
             else
-- 
2.43.0


From 7160c167ed5bc6fae743be25d2951e0a393fea2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:28 +0000
Subject: [PATCH 026/113] fix: base64 decoding read before the start of inputs
 shorter than two characters

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ea54946..1e2b801 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4690,9 +4690,9 @@ namespace strtk
 
       const unsigned char* end_itr = end;
 
-      if ('=' == *(end - 2))
+      if ((std::distance(begin,end) >= 2) && ('=' == *(end - 2)))
          end_itr = end - 2;
-      else if ('=' == *(end - 1))
+      else if ((begin != end) && ('=' == *(end - 1)))
          end_itr = end - 1;
 
       const std::size_t length = std::distance(begin,end_itr);
-- 
2.43.0


From 5c92352f4e18c1b901474354ace91cd2abaa9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 027/113] fix: twoway_bitwise_interleave on strings sized its
 output for half the result

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1e2b801..97276b4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4959,7 +4959,7 @@ namespace strtk
          return false;
       }
 
-      out.resize(str1.size());
+      out.resize(str1.size() << 1);
 
       return twoway_bitwise_interleave(to_ptr(str1), to_ptr(str1) + str1.size(),
                                        to_ptr(str2), to_ptr(str2) + str2.size(),
-- 
2.43.0


From dac741ed514f8f467aae859d12e378e73efe7ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:29 +0000
Subject: [PATCH 028/113] fix: hamming_distance_elementwise never advanced its
 iterators

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 97276b4..61b997b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5206,6 +5206,9 @@ namespace strtk
       {
          if ((*itr1) != (*itr2))
             ++distance;
+
+         ++itr1;
+         ++itr2;
       }
 
       return distance;
-- 
2.43.0


From 1fd575417630b6aeb94aec9e8e1b7fea82693c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 029/113] fix: 32-bit byte-order conversion used swapped masks
 and lost bytes

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 61b997b..81f6866 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13789,8 +13789,8 @@ namespace strtk
          static inline unsigned int convert(const unsigned int v)
          {
             //static_assert(4 == sizeof(v),"");
-            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0x0000FF00) |
-                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0xFF000000);
+            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0xFF000000) |
+                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0x0000FF00);
          }
 
          static inline unsigned long long int convert(const unsigned long long int v)
-- 
2.43.0


From 4549b2635eb9528afdaa6a379ee497013a8f6de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 030/113] fix: right-padded binary writes resized to the
 padding instead of the field width

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 81f6866..ffb3f9b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14627,7 +14627,7 @@ namespace strtk
                else if (s.size() < size)
                {
                   if (right_padding == pmode)
-                     s.resize(size - s.size(),padding);
+                     s.resize(size,padding);
                   else
                      s = std::string(size - s.size(),padding) + s;
                }
-- 
2.43.0


From e47376140c25dd741cc11f4ef824542f4f8a6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:18 +0000
Subject: [PATCH 031/113] fix: binary reader ignored the given 64-bit length
 when not reading the length

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index ffb3f9b..bd3d152 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14018,7 +14018,7 @@ namespace strtk
          inline bool operator()(T*& data, uint64_t& length, const bool read_length = true)
          {
             uint32_t l = 0;
-            if (read_length)
+            if (!read_length)
                l = static_cast<uint32_t>(length);
             if (!operator()(data,l,read_length))
                return false;
-- 
2.43.0


From 0f66b214259135a584eaf1cb11f440c315f7a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 032/113] fix: binary reader reused one element for a whole
 container, accumulating nested containers

---
 strtk.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index bd3d152..ad95d16 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14070,10 +14070,10 @@ namespace strtk
             if (!buffer_capacity_ok(raw_size))             \
                return false;                               \
                                                            \
-            T t = T();                                     \
-                                                           \
             for (std::size_t i = 0; i < size; ++i)         \
             {                                              \
+               T t = T();                                  \
+                                                           \
                if (operator()(t))                          \
                   seq.push_back(t);                        \
                else                                        \
@@ -14118,9 +14118,9 @@ namespace strtk
             if (!buffer_capacity_ok(raw_size))
                return false;
 
-            T t;
             for (std::size_t i = 0; i < size; ++i)
             {
+               T t = T();
                if (!operator()(t))
                   return false;
                set.insert(t);
@@ -14142,9 +14142,9 @@ namespace strtk
             if (!buffer_capacity_ok(raw_size))
                return false;
 
-            T t;
             for (std::size_t i = 0; i < size; ++i)
             {
+               T t = T();
                if (!operator()(t))
                   return false;
                multiset.insert(t);
@@ -14283,10 +14283,10 @@ namespace strtk
                                                     std::vector<T,Allocator>& v,
                                                     const bool)
                {
-                  T t;
-
                   for (std::size_t i = 0; i < size; ++i)
                   {
+                     T t = T();
+
                      if (r.operator()(t))
                         v[i] = t;
                      else
-- 
2.43.0


From 7bae5da292307cdae05923fc3936347e12cf2009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:46 +0000
Subject: [PATCH 033/113] fix: binary reader/writer demanded sizeof(T) buffer
 bytes per element of class type

---
 strtk.hpp | 57 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ad95d16..f197ac9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14066,8 +14066,8 @@ namespace strtk
             if (!read_pod(size))                           \
                return false;                               \
                                                            \
-            const std::size_t raw_size = size * sizeof(T); \
-            if (!buffer_capacity_ok(raw_size))             \
+            if (!buffer_capacity_ok(                       \
+                   selector<T>::type::min_raw_size(size))) \
                return false;                               \
                                                            \
             for (std::size_t i = 0; i < size; ++i)         \
@@ -14095,13 +14095,9 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-
-            if (!buffer_capacity_ok(raw_size))
+            if (!buffer_capacity_ok(selector<T>::type::min_raw_size(size)))
                return false;
 
-            vec.resize(size);
-
             return selector<T>::type::batch_vector_read(*this,size,vec,false);
          }
 
@@ -14114,8 +14110,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
+            if (!buffer_capacity_ok(selector<T>::type::min_raw_size(size)))
                return false;
 
             for (std::size_t i = 0; i < size; ++i)
@@ -14138,8 +14133,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
-            if (!buffer_capacity_ok(raw_size))
+            if (!buffer_capacity_ok(selector<T>::type::min_raw_size(size)))
                return false;
 
             for (std::size_t i = 0; i < size; ++i)
@@ -14270,6 +14264,12 @@ namespace strtk
             template <typename T, typename IsPOD>
             struct selector_impl
             {
+               // Objects of class type determine their own encoded size
+               static inline std::size_t min_raw_size(const std::size_t&)
+               {
+                  return 0;
+               }
+
                template <typename Reader>
                static inline bool run(Reader& r, T& t)
                {
@@ -14283,12 +14283,14 @@ namespace strtk
                                                     std::vector<T,Allocator>& v,
                                                     const bool)
                {
+                  v.clear();
+
                   for (std::size_t i = 0; i < size; ++i)
                   {
                      T t = T();
 
                      if (r.operator()(t))
-                        v[i] = t;
+                        v.push_back(t);
                      else
                         return false;
                   }
@@ -14300,6 +14302,11 @@ namespace strtk
             template <typename T>
             struct selector_impl<T,strtk::details::yes_t>
             {
+               static inline std::size_t min_raw_size(const std::size_t& size)
+               {
+                  return size * sizeof(T);
+               }
+
                template <typename Reader>
                static inline bool run(Reader& r,
                                       T& t,
@@ -14316,6 +14323,12 @@ namespace strtk
                                                     const bool)
                {
                   const std::size_t raw_size = sizeof(T) * size;
+
+                  v.resize(size);
+
+                  if (0 == size)
+                     return true;
+
                   char* ptr = const_cast<char*>(reinterpret_cast<const char*>(&v[0]));
                   std::copy(r.buffer_, r.buffer_ + raw_size, ptr);
                   r.buffer_ += raw_size;
@@ -14509,7 +14522,7 @@ namespace strtk
          inline bool operator()(const std::vector<T,Allocator>& vec)
          {
             const uint32_t size = static_cast<uint32_t>(vec.size());
-            const std::size_t raw_size = (size * sizeof(T));
+            const std::size_t raw_size = selector<T>::type::min_raw_size(size);
             if (!buffer_capacity_ok(raw_size + sizeof(size)))
                return false;
             if (!operator()(size))
@@ -14526,7 +14539,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = selector<T>::type::min_raw_size(size);
 
             if (!buffer_capacity_ok(raw_size))
                return false;
@@ -14553,7 +14566,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = selector<T>::type::min_raw_size(size);
             if (!buffer_capacity_ok(raw_size))
                return false;
 
@@ -14667,6 +14680,12 @@ namespace strtk
             template <typename T, typename IsPOD>
             struct selector_impl
             {
+               // Objects of class type determine their own encoded size
+               static inline std::size_t min_raw_size(const std::size_t&)
+               {
+                  return 0;
+               }
+
                template <typename Writer>
                static inline bool run(Writer& w, const T& t)
                {
@@ -14694,6 +14713,11 @@ namespace strtk
             template <typename T>
             struct selector_impl<T,strtk::details::yes_t>
             {
+               static inline std::size_t min_raw_size(const std::size_t& size)
+               {
+                  return size * sizeof(T);
+               }
+
                template <typename Writer>
                static inline bool run(Writer& w, const T& t)
                {
@@ -14706,6 +14730,9 @@ namespace strtk
                                                       const std::size_t& raw_size,
                                                       const std::vector<T,Allocator>& v)
                {
+                  if (v.empty())
+                     return true;
+
                   const char* ptr = reinterpret_cast<const char*>(&v[0]);
                   std::copy(ptr, ptr + raw_size, w.buffer_);
                   w.buffer_ += raw_size;
-- 
2.43.0


From 7ba62f69d00092126fad6243a242fb9ecd2fbd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 034/113] fix: generate_random_data wrote before buffers
 shorter than a word

---
 strtk.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f197ac9..63e233e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11896,9 +11896,10 @@ namespace strtk
 
       if (length > 0)
       {
-         itr -= (sizeof(unsigned int) - length);
-         x = reinterpret_cast<unsigned int*>(itr);
-         (*x) = rnd();
+         const unsigned int r = rnd();
+         std::copy(reinterpret_cast<const unsigned char*>(&r),
+                   reinterpret_cast<const unsigned char*>(&r) + length,
+                   itr);
       }
    }
 
-- 
2.43.0


From 9c178c0a32ed5bdb29bed47638936210e502dbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 035/113] fix: uniform_real_rng advanced a generator it does
 not draw from

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 63e233e..b256589 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11977,7 +11977,7 @@ namespace strtk
       : rng_(static_cast<rng_type::result_type>(seed)),
         rnd_(rng_,boost::uniform_real<double>(0.0,1.0))
       {
-         while (pregen--) rng_();
+         while (pregen--) rnd_.engine()();
       }
 
       inline double operator()()
-- 
2.43.0


From 940deb17af793cbfb25d79680e29fa5bc1df4d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 036/113] fix: n_choose_k(0,0) is one

---
 strtk.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b256589..6428226 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12497,7 +12497,6 @@ namespace strtk
    inline unsigned long long int n_choose_k(const unsigned long long int& n, const unsigned long long int& k)
    {
       if (n  < k) return 0;
-      if (0 == n) return 0;
       if (0 == k) return 1;
       if (n == k) return 1;
       if (1 == k) return n;
-- 
2.43.0


From 99bfb03f3dd4679d360a89becb661517fceae54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 037/113] fix: nth_combination_sequence overwrote the
 combination when completing the index

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6428226..b117d9f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12633,7 +12633,7 @@ namespace strtk
 
       for (std::size_t i = 0; i < index_list.size(); --index_list[i++]);
 
-      std::copy(index_list.begin(),index_list.end(),out);
+      out = std::copy(index_list.begin(),index_list.end(),out);
 
       if (complete_index)
       {
-- 
2.43.0


From 56a8fcbb79c81c8213dd8c9c1616a696a42f35cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 038/113] fix: nth_permutation_sequence over a range emitted
 iterators, and indexed an empty list

---
 strtk.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b117d9f..b561722 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12677,6 +12677,9 @@ namespace strtk
    inline void nth_permutation_sequence(std::size_t n, const std::size_t k, OutputIterator out)
    {
       //Note: n in [0,k!)
+      if (0 == k)
+         return;
+
       std::vector<std::size_t> factorid (k,0);
       std::vector<std::size_t> permutate(k,0);
 
@@ -12720,7 +12723,7 @@ namespace strtk
       nth_permutation_sequence(n,size,index_list.begin());
       for (std::size_t i = 0; i < size; ++i)
       {
-         *(out++) = (begin + index_list[i]);
+         *(out++) = *(begin + index_list[i]);
       }
    }
 
-- 
2.43.0


From fd097a1e68f9d96a39ab10d4d3b79c821b3da7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 039/113] fix: nth_combination_sequence indexed outside its
 list for zero or one element

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b561722..f9d95ed 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12609,7 +12609,7 @@ namespace strtk
       value_type x = 0;
       ++n;
 
-      for (std::size_t i = 1; i <= (k - 1); ++i)
+      for (std::size_t i = 1; i < k; ++i)
       {
          index_list[i - 1] = 0;
 
@@ -12629,7 +12629,10 @@ namespace strtk
          x -= j;
       }
 
-      index_list[k - 1] = index_list[k - 2] + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      if (k > 0)
+      {
+         index_list[k - 1] = ((k > 1) ? index_list[k - 2] : 0) + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      }
 
       for (std::size_t i = 0; i < index_list.size(); --index_list[i++]);
 
-- 
2.43.0


From 2e077509bb3a923c5f5b117b3cd9d707053561ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 040/113] fix: signed_all_digits_check compiles for fixed
 widths and reads nothing at width zero

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f9d95ed..c29e2bf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13605,15 +13605,15 @@ namespace strtk
       inline bool signed_all_digits_check(Iterator itr)
       {
          if (('-' == (*itr)) || ('+' == (*itr)))
-            return all_digits_check<Iterator,N - 1>((itr + 1));
+            return all_digits_check<N - 1,Iterator>((itr + 1));
          else
-            return all_digits_check<Iterator,N>(itr);
+            return all_digits_check<N,Iterator>(itr);
       }
 
       template <typename Iterator>
       inline bool signed_all_digits_check(const std::size_t& n, Iterator itr)
       {
-         if (('-' == (*itr)) || ('+' == (*itr)))
+         if ((0 != n) && (('-' == (*itr)) || ('+' == (*itr))))
             return all_digits_check(n - 1,(itr + 1));
          else
             return all_digits_check(n,itr);
-- 
2.43.0


From ba154b931c12af0dfabc5e45e3633fe5b92ff17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 041/113] fix: digit checks support the twenty digit width
 conversions support

---
 strtk.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index c29e2bf..559b45d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12905,6 +12905,16 @@ namespace strtk
             }
          };
 
+         template <typename Iterator>
+         struct all_digits_check_impl<Iterator,20>
+         {
+            static inline bool process(Iterator itr)
+            {
+               return static_cast<unsigned char>(itr[0] - '0') < 10 &&
+                      all_digits_check_impl<Iterator,19>::process(itr + 1);
+            }
+         };
+
          template <typename Iterator>
          struct all_digits_check_impl<Iterator,19>
          {
@@ -13585,6 +13595,7 @@ namespace strtk
             case_stmt( 8) case_stmt( 9) case_stmt(10) case_stmt(11)
             case_stmt(12) case_stmt(13) case_stmt(14) case_stmt(15)
             case_stmt(16) case_stmt(17) case_stmt(18) case_stmt(19)
+            case_stmt(20)
             default : return false;
             #undef case_stmt
          }
-- 
2.43.0


From 3b38742e36005352d1358e3f0fcf175b9dc296f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:24 +0000
Subject: [PATCH 042/113] fix: signed_numeric_convert does not read an empty
 range

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 559b45d..fec2596 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13728,9 +13728,9 @@ namespace strtk
                                          T& t,
                                          const bool digit_check = false)
       {
-         const bool negative = ('-' == (*itr));
+         const bool negative = (end != itr) && ('-' == (*itr));
 
-         if (negative || ('+' == (*itr)))
+         if (negative || ((end != itr) && ('+' == (*itr))))
          {
             if (end == (++itr))
                return false;
-- 
2.43.0


From 4a108564ee520e4bcfcef5dc97006d68f7920ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:33 +0000
Subject: [PATCH 043/113] fix: signed_numeric_convert compiles for fixed widths

---
 strtk.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fec2596..c057058 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13648,7 +13648,7 @@ namespace strtk
       }
 
       template <std::size_t N, typename T, typename Iterator>
-      inline void numeric_convert(Iterator itr, T& t, const bool digit_check = false)
+      inline bool numeric_convert(Iterator itr, T& t, const bool digit_check = false)
       {
          typedef typename strtk::details::is_valid_iterator<Iterator>::type itr_type;
          strtk::details::convert_type_assert<itr_type>();
@@ -13657,17 +13657,19 @@ namespace strtk
              if (!all_digits_check<N,Iterator>(itr))
              {
                 t = 0;
-                return;
+                return false;
              }
          }
 
          details::numeric_convert_impl<T,Iterator,N>::process(itr,t);
+
+         return true;
       }
 
       template <std::size_t N, typename T>
-      inline void numeric_convert(const std::string& s, T& t, const bool digit_check = false)
+      inline bool numeric_convert(const std::string& s, T& t, const bool digit_check = false)
       {
-         numeric_convert<N,T,const char*>(to_ptr(s), t, digit_check);
+         return numeric_convert<N,T,const char*>(to_ptr(s), t, digit_check);
       }
 
       template <typename T, typename Iterator>
@@ -13710,9 +13712,12 @@ namespace strtk
       {
          if ('-' == (*itr))
          {
-            numeric_convert<N - 1,T,Iterator>((itr + 1),t,digit_check);
+            if (!numeric_convert<N - 1,T,Iterator>((itr + 1),t,digit_check))
+               return false;
+
             typename strtk::details::supported_conversion_to_type<T>::type type;
-            details::negate(t,type);
+
+            return details::negate(t,type);
          }
          else if ('+' == (*itr))
          {
-- 
2.43.0


From 440f9e64a1f659a669d3d30cb25f47ee9cfc2600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 044/113] fix: parsing argc/argv into variables starts at the
 first argument

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index c057058..e4d0a72 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -10175,7 +10175,7 @@ namespace strtk
       std::size_t result = 0;
 
       #define strtk_cmpstmt(N)                                  \
-      if (!string_to_type_converter(std::string(argv[N]),t##N)) \
+      if (!string_to_type_converter(std::string(argv[N - 1]),t##N)) \
          return result;                                         \
       ++result;                                                 \
 
-- 
2.43.0


From 8ebcb62dc70e6c4a4a2df6d45a4ce5dce270cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:28 +0000
Subject: [PATCH 045/113] fix: parse_n over a pair of iterators calls parse_n

---
 strtk.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e4d0a72..c7b5996 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -9761,7 +9761,7 @@ namespace strtk
                               Sequence<T,Allocator>& sequence,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,sequence,split_option);
+      return parse_n(range.first,range.second,delimiters,n,sequence,split_option);
    }
 
    template <typename InputIterator,
@@ -9774,7 +9774,7 @@ namespace strtk
                               std::set<T,Comparator,Allocator>& set,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,set,split_option);
+      return parse_n(range.first,range.second,delimiters,n,set,split_option);
    }
 
    template <typename InputIterator,
@@ -9787,7 +9787,7 @@ namespace strtk
                               std::multiset<T,Comparator,Allocator>& multiset,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,multiset,split_option);
+      return parse_n(range.first,range.second,delimiters,n,multiset,split_option);
    }
 
    template <typename InputIterator,
@@ -9799,7 +9799,7 @@ namespace strtk
                               std::queue<T,Container>& queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,queue,split_option);
    }
 
    template <typename InputIterator,
@@ -9811,7 +9811,7 @@ namespace strtk
                               std::stack<T,Container>& stack,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,stack,split_option);
+      return parse_n(range.first,range.second,delimiters,n,stack,split_option);
    }
 
    template <typename InputIterator,
@@ -9824,7 +9824,7 @@ namespace strtk
                               std::priority_queue<T,Container,Comparator>& priority_queue,
                               const split_options::type& split_option = split_options::compress_delimiters)
    {
-      return parse(range.first,range.second,delimiters,n,priority_queue,split_option);
+      return parse_n(range.first,range.second,delimiters,n,priority_queue,split_option);
    }
 
    template <typename T1 , typename T2 , typename T3 , typename  T4,
-- 
2.43.0


From b43c9daa3808c75414c63d03081b3f1301bf464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:52 +0000
Subject: [PATCH 046/113] fix: copies of range_to_ptr_type_iterator share the
 insert count

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index c7b5996..289207e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3060,7 +3060,8 @@ namespace strtk
       {}
 
       range_to_ptr_type_iterator(const range_to_ptr_type_iterator& itr)
-      : pointer_(itr.pointer_)
+      : pointer_(itr.pointer_),
+        insert_count_(itr.insert_count_)
       {}
 
       inline range_to_ptr_type_iterator& operator=(const range_to_ptr_type_iterator& itr)
-- 
2.43.0


From a8f141ea00676b52776c241bb956c9220bc37888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 047/113] fix: sink_type bound on construction has no element
 count by default

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 289207e..c0fe16c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15447,7 +15447,8 @@ namespace strtk
                        const split_options::type& split_option = split_options::compress_delimiters)
       : delimiters_(delimiters),
         split_option_(split_option),
-        container_(&container)
+        container_(&container),
+        element_count_(std::numeric_limits<std::size_t>::max())
       {}
 
       inline sink_type& count(const std::size_t& element_count = std::numeric_limits<std::size_t>::max())
-- 
2.43.0


From 32a23965918b513addfef626118f95855ecf3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:29 +0000
Subject: [PATCH 048/113] fix: hex and base64 number sinks are copyable

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c0fe16c..5d3da83 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14928,7 +14928,7 @@ namespace strtk
       {}
 
       hex_to_number_sink(const hex_to_number_sink& hns)
-      : valid_(hns.valid),
+      : valid_(hns.valid_),
         t_(hns.t_)
       {}
 
@@ -15030,7 +15030,7 @@ namespace strtk
       {}
 
       base64_to_number_sink(const base64_to_number_sink& bns)
-      : valid_(bns.valid),
+      : valid_(bns.valid_),
         t_(bns.t_)
       {}
 
-- 
2.43.0


From 20ff926798bb9876b45687433184f084f4e74657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 049/113] fix: hex_to_number_sink reads short numbers
 right-aligned and rejects long ones

---
 strtk.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5d3da83..ce3d63b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14946,22 +14946,28 @@ namespace strtk
          const std::size_t size = std::distance(s.first,s.second);
          if ((size > 2) && ((*s.first) == '0') && (((*(s.first + 1)) == 'x') || ((*(s.first + 1)) == 'X')))
             offset = 2;
-         if ((size - offset) > (2 * sizeof(T)))
-            return (*this);
 
          const std::size_t buffer_size = 2 * sizeof(T);
-         const std::size_t buffer_offset = ((size - offset) % 2);
-         char buffer[buffer_size] = { '0' };
+
+         if ((0 == size) || ((size - offset) > buffer_size))
+         {
+            valid_ = false;
+            return (*this);
+         }
+
+         const std::size_t buffer_offset = buffer_size - (size - offset);
+         char buffer[buffer_size];
          if (!range_only_contains(hex_value_check(),s.first + offset,s.first + size))
          {
             valid_ = false;
             return (*this);
          }
 
+         std::fill(buffer, buffer + buffer_offset, '0');
          std::copy(s.first + offset, s.first + size, buffer + buffer_offset);
          (*t_) = 0;
          valid_= convert_hex_to_bin(buffer,
-                                    buffer + (size - offset) + buffer_offset,
+                                    buffer + buffer_size,
                                     reinterpret_cast<char*>(t_));
          reverse_bytes();
          return (*this);
-- 
2.43.0


From 1d66634fd285b81f5eac0dea001ef68c5ad6a171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 050/113] fix: base64_to_number_sink reports valid fields and
 stays inside its target

---
 strtk.hpp | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ce3d63b..c66783e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15049,34 +15049,32 @@ namespace strtk
 
       inline base64_to_number_sink& operator=(const std::string& s)
       {
-         if (!range_only_contains(base64_value_check(), to_ptr(s), to_ptr(s) + s.size()))
-         {
-            valid_ = false;
-            return (*this);
-         }
-
-         (*t_) = T(0);
-
-         convert_base64_to_bin(to_ptr(s), to_ptr(s) + s.size(), reinterpret_cast<char*>(t_));
-         reverse_bytes();
-
-         return (*this);
+         return this->operator =(std::make_pair(to_ptr(s), to_ptr(s) + s.size()));
       }
 
       template <typename InputIterator>
       inline base64_to_number_sink& operator=(const std::pair<InputIterator,InputIterator>& s)
       {
+         valid_ = false;
+
          if (!range_only_contains(base64_value_check(),s.first,s.second))
-         {
-            valid_ = false;
             return (*this);
-         }
+
+         const std::string data(s.first,s.second);
+         std::string buffer;
+
+         convert_base64_to_bin(data,buffer);
+
+         if (buffer.empty() || (buffer.size() > sizeof(T)))
+            return (*this);
 
          (*t_) = T(0);
 
-         convert_base64_to_bin(s.first, s.second,reinterpret_cast<char*>(t_));
+         std::copy(buffer.begin(), buffer.end(), reinterpret_cast<char*>(t_) + (sizeof(T) - buffer.size()));
          reverse_bytes();
 
+         valid_ = true;
+
          return (*this);
       }
 
-- 
2.43.0


From c79625037eea7fc5714a9f051aaf1806647f0a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 051/113] fix: decimal_sink reads nothing past its field

---
 strtk.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index c66783e..8a62326 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15264,6 +15264,9 @@ namespace strtk
          if (0 == t_)
             return false;
 
+         if (itr == end)
+            return false;
+
          typedef typename strtk::details::real_type<T>::type real_t;
 
          bool negative = ('-' == (*itr));
@@ -15295,7 +15298,13 @@ namespace strtk
                return false;
          }
 
-         ++itr;
+         if (itr != end)
+         {
+            if ('.' != *itr)
+               return false;
+
+            ++itr;
+         }
 
          length = std::min<std::size_t>(frac_size_,std::distance(itr,end));
          end_n  = itr + length;
-- 
2.43.0


From d5c53626e296ed540293f2869d7ba7dbfbb0c67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:11 +0000
Subject: [PATCH 052/113] fix: decimal_sink can be used as a field

---
 strtk.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 8a62326..5057039 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17463,6 +17463,17 @@ namespace strtk
          return true;
       }
 
+      template <typename Iterator, typename DecimalSink>
+      inline bool string_to_type_converter_impl(Iterator& itr, const Iterator end, DecimalSink& t, decsink_type_tag)
+      {
+         if (!t(itr,end))
+            return false;
+
+         itr = end;
+
+         return true;
+      }
+
       template <typename Iterator, typename TruncatedInt>
       inline bool string_to_type_converter_impl(Iterator& itr, const Iterator end, TruncatedInt& t, truncint_type_tag)
       {
-- 
2.43.0


From 01e1e914ff8ee21a079112efe0d4fb061a842498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:18 +0000
Subject: [PATCH 053/113] fix: join_if over a sequence applies its predicate

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5057039..4012072 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11399,7 +11399,7 @@ namespace strtk
                               Predicate predicate,
                               const Sequence<T,Allocator>& sequence)
    {
-      return join(delimiter,predicate,sequence.begin(),sequence.end());
+      return join_if(delimiter,predicate,sequence.begin(),sequence.end());
    }
 
    template <typename T,
-- 
2.43.0


From cf8b735d700bb576661402e909dbc4655a5a3ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 054/113] fix: prefix trie keeps each value at the node of its
 own key

---
 strtk.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4012072..8ed0d72 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19900,7 +19900,6 @@ namespace strtk
 
             key_iterator_t itr = begin;
             key_value_t key    = (*itr);
-            node_ptr parent    = 0;
             node_ptr next_node = 0;
             node_ptr n = head_ = ((0 == head_) ? new node_t(*itr) : head_);
 
@@ -19913,12 +19912,11 @@ namespace strtk
                   n->add_node(next_node = new node_t(key));
                }
 
-               parent = n;
                n = next_node;
                ++itr;
             }
 
-            parent->assign_value(v);
+            n->assign_value(v);
          }
 
          template <typename key_iterator_t>
@@ -19930,7 +19928,6 @@ namespace strtk
                return false;
 
             key_iterator_t itr = begin;
-            node_ptr parent = head_;
             node_ptr n = head_;
 
             while (end != itr)
@@ -19940,13 +19937,12 @@ namespace strtk
                if (0 == next_node)
                   return false;
 
-               parent = n;
                n = next_node;
                ++itr;
             }
-            if (!parent->value_holder())
+            if (!n->value_holder())
                return false;
-             v = parent->value();
+             v = n->value();
              return true;
          }
 
-- 
2.43.0


From 8c6994e3a02a3ee1e219da587c48d25db909d240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:52 +0000
Subject: [PATCH 055/113] fix: trie functions taking a character pointer
 compile

---
 strtk.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8ed0d72..0370c2a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19988,7 +19988,8 @@ namespace strtk
                          const char* key,
                          const Value& value = Value(0))
       {
-         trie.insert(std::string(key),value);
+         const std::string k(key);
+         trie.insert(k.begin(),k.end(),value);
       }
 
       template <typename Value>
@@ -20004,7 +20005,7 @@ namespace strtk
                        const char* key,
                        Value& v)
       {
-         return trie.find_prefix(trie,std::string(key),v);
+         return find(trie,std::string(key),v);
       }
 
       template <typename Value>
@@ -20018,7 +20019,7 @@ namespace strtk
       inline bool find_prefix(prefix<std::string::const_iterator,Value>& trie,
                               const char* key)
       {
-         return trie.find_prefix(trie,std::string(key));
+         return find_prefix(trie,std::string(key));
       }
 
    } // namespace trie
-- 
2.43.0


From 9f1b241f386b4c1300c805d3c3312d3c38250b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 056/113] fix: copying a bloom filter does not release an
 uninitialised table

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 0370c2a..e950e74 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20225,6 +20225,7 @@ namespace strtk
          }
 
          filter(const filter& filter)
+         : bit_table_(0)
          {
             this->operator=(filter);
          }
-- 
2.43.0


From 713d978674c6995523a6ef8e329a5c111198c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:24 +0000
Subject: [PATCH 057/113] fix: a bloom filter table holds every bit of a size
 that is not a multiple of eight

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index e950e74..9dbe67b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20219,7 +20219,7 @@ namespace strtk
             salt_count_ = p.optimal_parameters.number_of_hashes;
             table_size_ = p.optimal_parameters.table_size;
             generate_unique_salt();
-            raw_table_size_ = table_size_ / bits_per_char;
+            raw_table_size_ = (table_size_ / bits_per_char) + ((0 != (table_size_ % bits_per_char)) ? 1 : 0);
             bit_table_ = new cell_type[static_cast<std::size_t>(raw_table_size_)];
             std::fill_n(&bit_table_[0], static_cast<std::size_t>(raw_table_size_), static_cast<unsigned char>(0x00));
          }
-- 
2.43.0


From 8da40cecc9d884d583bb25007e2b53b1f24fd1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 058/113] fix: compressing a bloom filter by more than half
 stays inside its table

---
 strtk.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9dbe67b..9594e61 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20754,19 +20754,18 @@ namespace strtk
             }
 
             desired_false_positive_probability_ = effective_fpp();
-            cell_type* tmp = new cell_type[static_cast<std::size_t>(new_table_size / bits_per_char)];
-            std::copy(bit_table_, bit_table_ + (new_table_size / bits_per_char), tmp);
-            cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
-            cell_type* end = bit_table_ + (original_table_size / bits_per_char);
-            cell_type* itr_tmp = tmp;
+            const std::size_t new_raw_size = static_cast<std::size_t>(new_table_size / bits_per_char);
+            cell_type* tmp = new cell_type[new_raw_size];
+            std::copy(bit_table_, bit_table_ + new_raw_size, tmp);
 
-            while (end != itr)
+            for (std::size_t i = new_raw_size; i < raw_table_size_; ++i)
             {
-               *(itr_tmp++) |= (*itr++);
+               tmp[i % new_raw_size] |= bit_table_[i];
             }
 
             delete[] bit_table_;
             bit_table_ = tmp;
+            raw_table_size_ = new_raw_size;
             size_list.push_back(new_table_size);
 
             return true;
-- 
2.43.0


From 9fd3b51196998bffc2075c3960ccbc5af52a41fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:52 +0000
Subject: [PATCH 059/113] fix: bloom filters compressed differently are not
 combined

---
 strtk.hpp | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9594e61..c1f45ff 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20414,11 +20414,7 @@ namespace strtk
          inline filter& operator &= (const filter& f)
          {
             /* intersection */
-            if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
-               )
+            if (compatible(f))
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
                {
@@ -20431,11 +20427,7 @@ namespace strtk
          inline filter& operator |= (const filter& f)
          {
             /* union */
-            if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
-               )
+            if (compatible(f))
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
                {
@@ -20448,11 +20440,7 @@ namespace strtk
          inline filter& operator ^= (const filter& f)
          {
             /* difference */
-            if (
-                (salt_count_  == f.salt_count_) &&
-                (table_size_  == f.table_size_) &&
-                (random_seed_ == f.random_seed_)
-               )
+            if (compatible(f))
             {
                for (std::size_t i = 0; i < raw_table_size_; ++i)
                {
@@ -20556,6 +20544,14 @@ namespace strtk
 
       protected:
 
+         inline virtual bool compatible(const filter& f) const
+         {
+            return (salt_count_     == f.salt_count_    ) &&
+                   (table_size_     == f.table_size_    ) &&
+                   (raw_table_size_ == f.raw_table_size_) &&
+                   (random_seed_    == f.random_seed_   );
+         }
+
          inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
          {
             bit_index = static_cast<std::size_t>(hash % table_size_);
@@ -20773,6 +20769,13 @@ namespace strtk
 
       private:
 
+         inline virtual bool compatible(const filter& f) const
+         {
+            const compressible_filter* cf = dynamic_cast<const compressible_filter*>(&f);
+
+            return filter::compatible(f) && (cf ? (size_list == cf->size_list) : (1 == size_list.size()));
+         }
+
          inline virtual void compute_indices(const bloom_type& hash, std::size_t& bit_index, std::size_t& bit) const
          {
             bit_index = hash;
-- 
2.43.0


From f591e300c4b7155b303b9976860a90be2b69cf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:07 +0000
Subject: [PATCH 060/113] fix: an inconsistent bloom filter file is refused

---
 strtk.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c1f45ff..ba7adfb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20491,7 +20491,7 @@ namespace strtk
             }
             ostream.close();
             delete[] buffer;
-            return result;
+            return result && !ostream.fail();
          }
 
          inline bool read_from_file(const std::string& file_name)
@@ -20530,10 +20530,18 @@ namespace strtk
                           reader(random_seed_)                        &&
                           reader(desired_false_positive_probability_) &&
                           reader(salt_)                               &&
-                          reader(bit_table_,raw_table_size_);
+                          reader(bit_table_,raw_table_size_)          &&
+                          (salt_.size() == salt_count_)               &&
+                          (0 != table_size_)                          &&
+                          (raw_table_size_ == ((table_size_ / bits_per_char) + ((0 != (table_size_ % bits_per_char)) ? 1 : 0)));
 
             delete[] buffer;
 
+            if (!result)
+            {
+               operator=(filter());
+            }
+
             return result;
          }
 
-- 
2.43.0


From 2283897d8f16b665e51fe7aa1e0452db26ed4ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:07 +0000
Subject: [PATCH 061/113] fix: a compressible bloom filter adopts the size of
 the file it loads

---
 strtk.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index ba7adfb..0641fbf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20775,6 +20775,18 @@ namespace strtk
             return true;
          }
 
+         inline bool read_from_file(const std::string& file_name)
+         {
+            const bool result = filter::read_from_file(file_name);
+
+            if (result || (0 == table_size_))
+            {
+               size_list.assign(1,table_size_);
+            }
+
+            return result;
+         }
+
       private:
 
          inline virtual bool compatible(const filter& f) const
-- 
2.43.0


From edaeec3a27653602ea4a96b264e9bf1eef0a63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 062/113] fix: the token grid strips only quotes that enclose a
 token

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 0641fbf..09bc081 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7538,6 +7538,7 @@ namespace strtk
                for (std::size_t i = 0; i < dsv_index_.token_list.size(); ++i)
                {
                   if (
+                      (std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second) > 1) &&
                       ((*(dsv_index_.token_list[i].first     )) == '"') &&
                       ((*(dsv_index_.token_list[i].second - 1)) == '"')
                      )
-- 
2.43.0


From b071ee59b9524b152f5d6d9046f7d82951d37f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 063/113] fix: token_grid::range works on rows

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 09bc081..9d8bffa 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5501,9 +5501,9 @@ namespace strtk
       {
          if (upper_bound == std::numeric_limits<index_t>::max())
          {
-            upper_bound = static_cast<index_t>(dsv_index_.token_list.size());
+            upper_bound = static_cast<index_t>(dsv_index_.row_index.size());
          }
-         else if (upper_bound > dsv_index_.token_list.size())
+         else if (upper_bound > dsv_index_.row_index.size())
          {
             return row_range_t(std::numeric_limits<index_t>::max(),std::numeric_limits<index_t>::max());
          }
-- 
2.43.0


From 7324d884ee3906adc05af2df9b6700b421c56277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 064/113] fix: token_grid row and column joins keep every token

---
 strtk.hpp | 42 ++++++++++++++++--------------------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9d8bffa..7a2adc7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7112,21 +7112,19 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = dsv_index_.token_list.begin() + r.first;
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
          while (end != itr)
          {
-            if (!delimiter.empty() && appended)
-               result.append(delimiter);
-
-            appended = false;
-
             if ((*itr).first != (*itr).second)
             {
+               if (!delimiter.empty() && appended)
+                  result.append(delimiter);
+
                result.append((*itr).first,(*itr).second);
                appended = true;
             }
@@ -7149,23 +7147,21 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = (dsv_index_.token_list.begin() + r.first);
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
          while (end != itr)
          {
-            if (!delimiter.empty() && appended)
-               result.append(delimiter);
-
-            appended = false;
-
             if ((*itr).first != (*itr).second)
             {
                if (predicate(*itr))
                {
+                  if (!delimiter.empty() && appended)
+                     result.append(delimiter);
+
                   result.append((*itr).first,(*itr).second);
                   appended = true;
                }
@@ -7208,13 +7204,11 @@ namespace strtk
 
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended)
-                  result.append(delimiter);
-
-               appended = false;
-
                if (range.first != range.second)
                {
+                  if (!delimiter.empty() && appended)
+                     result.append(delimiter);
+
                   result.append(range.first,range.second);
                   appended = true;
                }
@@ -7245,8 +7239,6 @@ namespace strtk
 
          bool appended = false;
 
-         const std::size_t pre_end_index = row_range.second - 1;
-
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
             const row_index_range_t& r = dsv_index_.row_index[i];
@@ -7256,15 +7248,13 @@ namespace strtk
                row_type row = row_type(i,dsv_index_);
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended && (pre_end_index != i))
-                  result.append(delimiter);
-
-               appended = false;
-
                if (range.first != range.second)
                {
                   if (predicate(row))
                   {
+                     if (!delimiter.empty() && appended)
+                        result.append(delimiter);
+
                      result.append(range.first,range.second);
                      appended = true;
                   }
-- 
2.43.0


From afae4ee5e82acc8dc1532f1f74a95f0e6cccf4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:56 +0000
Subject: [PATCH 065/113] fix: sequential_partition reports partitions of one
 row

---
 strtk.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7a2adc7..3b9cfaa 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7288,17 +7288,15 @@ namespace strtk
          {
             if (p(row_type(i,dsv_index_)))
             {
-               if (r.first != r.second)
+               if (r.first != i)
                {
                   r.second = i;
                   if (!f(*this,r))
                      return false;
                }
 
-               r.first = r.second;
+               r.first = i;
             }
-            else
-               r.second = i;
          }
 
          if (r.first != row_range.second)
-- 
2.43.0


From e983b73f2aeeae326fd7d52bf85aba069f9aa443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 066/113] fix: token_grid refuses the column index one past the
 last

---
 strtk.hpp | 42 +++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3b9cfaa..8b2ff17 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6513,7 +6513,7 @@ namespace strtk
                                          const std::size_t& index,
                                          OutputIterator out) const
       {
-         if (index > max_column_count_)
+         if (index >= max_column_count_)
             return false;
          else if (row_range_invalid(row_range))
             return false;
@@ -6572,7 +6572,7 @@ namespace strtk
                                  OutputIterator out) const
       {
 
-         if (index > max_column_count_)
+         if (index >= max_column_count_)
             return false;
          else if (row_range_invalid(row_range))
             return false;
@@ -6605,8 +6605,8 @@ namespace strtk
                                  OutputIterator1 out1) const
       {
          if (
-              (index0 > max_column_count_) ||
-              (index1 > max_column_count_)
+              (index0 >= max_column_count_) ||
+              (index1 >= max_column_count_)
             )
             return false;
          else if (row_range_invalid(row_range))
@@ -6638,9 +6638,9 @@ namespace strtk
                                  OutputIterator2 out2) const
       {
          if (
-              (index0 > max_column_count_) ||
-              (index1 > max_column_count_) ||
-              (index2 > max_column_count_)
+              (index0 >= max_column_count_) ||
+              (index1 >= max_column_count_) ||
+              (index2 >= max_column_count_)
             )
             return false;
          else if (row_range_invalid(row_range))
@@ -6676,10 +6676,10 @@ namespace strtk
                                  OutputIterator3 out3) const
       {
          if (
-              (index0 > max_column_count_) ||
-              (index1 > max_column_count_) ||
-              (index2 > max_column_count_) ||
-              (index3 > max_column_count_)
+              (index0 >= max_column_count_) ||
+              (index1 >= max_column_count_) ||
+              (index2 >= max_column_count_) ||
+              (index3 >= max_column_count_)
             )
             return false;
          else if (row_range_invalid(row_range))
@@ -6719,11 +6719,11 @@ namespace strtk
                                  OutputIterator4 out4) const
       {
          if (
-              (index0 > max_column_count_) ||
-              (index1 > max_column_count_) ||
-              (index2 > max_column_count_) ||
-              (index3 > max_column_count_) ||
-              (index4 > max_column_count_)
+              (index0 >= max_column_count_) ||
+              (index1 >= max_column_count_) ||
+              (index2 >= max_column_count_) ||
+              (index3 >= max_column_count_) ||
+              (index4 >= max_column_count_)
             )
             return false;
          else if (row_range_invalid(row_range))
@@ -6938,7 +6938,7 @@ namespace strtk
       inline std::size_t column_width(const std::size_t& col,
                                       const row_range_t& row_range) const
       {
-         if (col > max_column_count_)
+         if (col >= max_column_count_)
             return 0;
          else if (row_range_invalid(row_range))
             return 0;
@@ -7020,7 +7020,7 @@ namespace strtk
                                            const row_range_t& row_range,
                                            T& result) const
       {
-         if (col > max_column_count_)
+         if (col >= max_column_count_)
             return 0;
          else if (row_range_invalid(row_range))
             return 0;
@@ -7060,7 +7060,7 @@ namespace strtk
                                            Predicate p,
                                            T& result) const
       {
-         if (col > max_column_count_)
+         if (col >= max_column_count_)
             return 0;
          else if (row_range_invalid(row_range))
             return 0;
@@ -7187,7 +7187,7 @@ namespace strtk
                               const std::string& delimiter,
                               std::string& result) const
       {
-         if (col > max_column_count_)
+         if (col >= max_column_count_)
             return false;
          else if (row_range_invalid(row_range))
             return false;
@@ -7232,7 +7232,7 @@ namespace strtk
                               const std::string& delimiter,
                               std::string& result) const
       {
-         if (col > max_column_count_)
+         if (col >= max_column_count_)
             return false;
          else if (row_range_invalid(row_range))
             return false;
-- 
2.43.0


From 65693e418c49d008bf91e7b8d536d917d663d672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:14 +0000
Subject: [PATCH 067/113] fix: accumulate_column counts only the accumulated
 tokens

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8b2ff17..130dc30 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7037,12 +7037,13 @@ namespace strtk
                const range_t& range = *(dsv_index_.token_list.begin() + r.first + col);
 
                if (string_to_type_converter(range.first,range.second,current_value))
+               {
                   result += current_value;
+                  ++process_count;
+               }
                else
                   return 0;
             }
-
-            ++process_count;
          }
 
          return process_count;
-- 
2.43.0


From 540b1e9923d21bd5946120e38f735eec757cae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:31 +0000
Subject: [PATCH 068/113] fix: column counts of a token_grid follow row removal

---
 strtk.hpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 130dc30..8e9921d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6753,6 +6753,7 @@ namespace strtk
          if (index < dsv_index_.row_index.size())
          {
             dsv_index_.remove_row(index);
+            update_minmax_columns();
          }
       }
 
@@ -6805,6 +6806,7 @@ namespace strtk
          if (!remove_token_list.empty())
          {
             remove_inplace(index_remover(remove_token_list),dsv_index_.token_list);
+            update_minmax_columns();
          }
 
          return true;
@@ -6891,10 +6893,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_columns(column_count));
-
-         min_column_count_ = column_count;
-         max_column_count_ = column_count;
+         remove_row_if(row_range,insufficient_number_of_columns(column_count));
       }
 
       inline void enforce_column_count(const std::size_t& column_count)
@@ -6909,10 +6908,7 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_minmax_columns(min_column_count,max_column_count));
-
-         min_column_count_ = min_column_count;
-         max_column_count_ = max_column_count;
+         remove_row_if(row_range,insufficient_number_of_minmax_columns(min_column_count,max_column_count));
       }
 
       inline void enforce_min_max_column_count(const std::size_t& min_column_count,
@@ -7614,6 +7610,11 @@ namespace strtk
             if (number_of_tokens < min_column_count_)
                min_column_count_ = number_of_tokens;
          }
+
+         if (dsv_index_.row_index.empty())
+         {
+            min_column_count_ = 0;
+         }
       }
 
    private:
-- 
2.43.0


From e233187ad14dda96129d22a29549c683ceb34944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 069/113] fix: a failed token_grid load leaves no stale tokens
 and keeps its hands off the user's buffer

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8e9921d..793171c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7348,9 +7348,9 @@ namespace strtk
          if ((load_from_file_) && (0 != buffer_))
          {
             delete [] buffer_;
-            buffer_ = 0;
          }
 
+         buffer_           = 0;
          buffer_size_      = 0;
          min_column_count_ = 0;
          max_column_count_ = 0;
@@ -7488,12 +7488,12 @@ namespace strtk
 
       inline bool load()
       {
-         if (load_from_file_ && !load_buffer_from_file())
-            return false;
-
          dsv_index_.token_list.clear();
          dsv_index_.row_index.clear();
 
+         if (load_from_file_ && !load_buffer_from_file())
+            return false;
+
          multiple_char_delimiter_predicate text_newline_predicate(options_.row_delimiters);
 
          if (!options_.support_dquotes)
-- 
2.43.0


From b8ee64a2a6f6678d9df5367ad98e53c1ff7a9365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:55 +0000
Subject: [PATCH 070/113] fix: an unbalanced quote ends with its row

---
 strtk.hpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 793171c..9a3d731 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7486,6 +7486,27 @@ namespace strtk
          mutable strtk::multiple_char_delimiter_predicate mdp_;
       };
 
+      struct double_quotes_row_processor
+      {
+         double_quotes_row_processor(store& idx,
+                                     double_quotes_predicate& tp,
+                                     const split_options::type split_mode)
+         : processor_(idx,tp,split_mode),
+           token_predicate_(tp)
+         {}
+
+         inline void operator()(const range_t& range)
+         {
+            token_predicate_.reset();
+            processor_(range);
+         }
+
+         double_quotes_row_processor& operator=(const double_quotes_row_processor&);
+
+         row_processor<double_quotes_predicate> processor_;
+         double_quotes_predicate& token_predicate_;
+      };
+
       inline bool load()
       {
          dsv_index_.token_list.clear();
@@ -7514,7 +7535,7 @@ namespace strtk
             strtk::split(text_newline_predicate,
                          buffer_, buffer_ + buffer_size_,
                          strtk::functional_inserter(
-                            row_processor<double_quotes_predicate>
+                            double_quotes_row_processor
                               (dsv_index_,token_predicate_dblq,options_.column_split_option)),
                         strtk::split_options::compress_delimiters);
 
-- 
2.43.0


From 61f16022f5fb96c15255ae39054f53879fc6d2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 071/113] fix: row parsing fails at the end of the row

---
 strtk.hpp | 227 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 116 insertions(+), 111 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9a3d731..00aa7c5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5687,16 +5687,16 @@ namespace strtk
                                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                                       T6& t6, T7& t7, T8& t8, T9& t9) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
-            if (!process(*(begin_ + col2),t2)) return false;
-            if (!process(*(begin_ + col3),t3)) return false;
-            if (!process(*(begin_ + col4),t4)) return false;
-            if (!process(*(begin_ + col5),t5)) return false;
-            if (!process(*(begin_ + col6),t6)) return false;
-            if (!process(*(begin_ + col7),t7)) return false;
-            if (!process(*(begin_ + col8),t8)) return false;
-            if (!process(*(begin_ + col9),t9)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
+            if (!process(col2,t2)) return false;
+            if (!process(col3,t3)) return false;
+            if (!process(col4,t4)) return false;
+            if (!process(col5,t5)) return false;
+            if (!process(col6,t6)) return false;
+            if (!process(col7,t7)) return false;
+            if (!process(col8,t8)) return false;
+            if (!process(col9,t9)) return false;
             return true;
          }
 
@@ -5711,15 +5711,15 @@ namespace strtk
                                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                                       T6& t6, T7& t7, T8& t8) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
-            if (!process(*(begin_ + col2),t2)) return false;
-            if (!process(*(begin_ + col3),t3)) return false;
-            if (!process(*(begin_ + col4),t4)) return false;
-            if (!process(*(begin_ + col5),t5)) return false;
-            if (!process(*(begin_ + col6),t6)) return false;
-            if (!process(*(begin_ + col7),t7)) return false;
-            if (!process(*(begin_ + col8),t8)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
+            if (!process(col2,t2)) return false;
+            if (!process(col3,t3)) return false;
+            if (!process(col4,t4)) return false;
+            if (!process(col5,t5)) return false;
+            if (!process(col6,t6)) return false;
+            if (!process(col7,t7)) return false;
+            if (!process(col8,t8)) return false;
             return true;
          }
 
@@ -5732,14 +5732,14 @@ namespace strtk
                                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                                       T6& t6, T7& t7) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
-            if (!process(*(begin_ + col2),t2)) return false;
-            if (!process(*(begin_ + col3),t3)) return false;
-            if (!process(*(begin_ + col4),t4)) return false;
-            if (!process(*(begin_ + col5),t5)) return false;
-            if (!process(*(begin_ + col6),t6)) return false;
-            if (!process(*(begin_ + col7),t7)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
+            if (!process(col2,t2)) return false;
+            if (!process(col3,t3)) return false;
+            if (!process(col4,t4)) return false;
+            if (!process(col5,t5)) return false;
+            if (!process(col6,t6)) return false;
+            if (!process(col7,t7)) return false;
             return true;
          }
 
@@ -5752,13 +5752,13 @@ namespace strtk
                                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                                       T6& t6) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
-            if (!process(*(begin_ + col2),t2)) return false;
-            if (!process(*(begin_ + col3),t3)) return false;
-            if (!process(*(begin_ + col4),t4)) return false;
-            if (!process(*(begin_ + col5),t5)) return false;
-            if (!process(*(begin_ + col6),t6)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
+            if (!process(col2,t2)) return false;
+            if (!process(col3,t3)) return false;
+            if (!process(col4,t4)) return false;
+            if (!process(col5,t5)) return false;
+            if (!process(col6,t6)) return false;
             return true;
          }
 
@@ -5769,12 +5769,12 @@ namespace strtk
                                       const std::size_t& col4, const std::size_t& col5,
                                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
-            if (!process(*(begin_ + col2),t2)) return false;
-            if (!process(*(begin_ + col3),t3)) return false;
-            if (!process(*(begin_ + col4),t4)) return false;
-            if (!process(*(begin_ + col5),t5)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
+            if (!process(col2,t2)) return false;
+            if (!process(col3,t3)) return false;
+            if (!process(col4,t4)) return false;
+            if (!process(col5,t5)) return false;
             return true;
          }
 
@@ -5784,11 +5784,11 @@ namespace strtk
                                       const std::size_t& col4,
                                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
-            if (!process(*(begin_ + col2),t2)) return false;
-            if (!process(*(begin_ + col3),t3)) return false;
-            if (!process(*(begin_ + col4),t4)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
+            if (!process(col2,t2)) return false;
+            if (!process(col3,t3)) return false;
+            if (!process(col4,t4)) return false;
             return true;
          }
 
@@ -5797,10 +5797,10 @@ namespace strtk
                                       const std::size_t& col2, const std::size_t& col3,
                                       T0& t0, T1& t1, T2& t2, T3& t3) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
-            if (!process(*(begin_ + col2),t2)) return false;
-            if (!process(*(begin_ + col3),t3)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
+            if (!process(col2,t2)) return false;
+            if (!process(col3,t3)) return false;
             return true;
          }
 
@@ -5809,9 +5809,9 @@ namespace strtk
                                       const std::size_t& col2,
                                       T0& t0, T1& t1, T2& t2) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
-            if (!process(*(begin_ + col2),t2)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
+            if (!process(col2,t2)) return false;
             return true;
          }
 
@@ -5819,15 +5819,15 @@ namespace strtk
          inline bool parse_with_index(const std::size_t& col0, const std::size_t& col1,
                                       T0& t0, T1& t1) const
          {
-            if (!process(*(begin_ + col0),t0)) return false;
-            if (!process(*(begin_ + col1),t1)) return false;
+            if (!process(col0,t0)) return false;
+            if (!process(col1,t1)) return false;
             return true;
          }
 
          template <typename T>
          inline bool parse_with_index(const std::size_t& col, T& t) const
          {
-            return process(*(begin_ + col),t);
+            return process(col,t);
          }
 
          template <typename T0, typename T1, typename T2, typename T3,
@@ -5837,16 +5837,16 @@ namespace strtk
                            T4& t4, T5& t5, T6& t6, T7& t7,
                            T8& t8, T9& t9) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
-            if (!process(*(begin_ + 2),t2)) return false;
-            if (!process(*(begin_ + 3),t3)) return false;
-            if (!process(*(begin_ + 4),t4)) return false;
-            if (!process(*(begin_ + 5),t5)) return false;
-            if (!process(*(begin_ + 6),t6)) return false;
-            if (!process(*(begin_ + 7),t7)) return false;
-            if (!process(*(begin_ + 8),t8)) return false;
-            if (!process(*(begin_ + 9),t9)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
+            if (!process(2,t2)) return false;
+            if (!process(3,t3)) return false;
+            if (!process(4,t4)) return false;
+            if (!process(5,t5)) return false;
+            if (!process(6,t6)) return false;
+            if (!process(7,t7)) return false;
+            if (!process(8,t8)) return false;
+            if (!process(9,t9)) return false;
             return true;
          }
 
@@ -5857,15 +5857,15 @@ namespace strtk
                            T4& t4, T5& t5, T6& t6, T7& t7,
                            T8& t8) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
-            if (!process(*(begin_ + 2),t2)) return false;
-            if (!process(*(begin_ + 3),t3)) return false;
-            if (!process(*(begin_ + 4),t4)) return false;
-            if (!process(*(begin_ + 5),t5)) return false;
-            if (!process(*(begin_ + 6),t6)) return false;
-            if (!process(*(begin_ + 7),t7)) return false;
-            if (!process(*(begin_ + 8),t8)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
+            if (!process(2,t2)) return false;
+            if (!process(3,t3)) return false;
+            if (!process(4,t4)) return false;
+            if (!process(5,t5)) return false;
+            if (!process(6,t6)) return false;
+            if (!process(7,t7)) return false;
+            if (!process(8,t8)) return false;
             return true;
          }
 
@@ -5874,14 +5874,14 @@ namespace strtk
          inline bool parse(T0& t0, T1& t1, T2& t2, T3& t3,
                            T4& t4, T5& t5, T6& t6, T7& t7) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
-            if (!process(*(begin_ + 2),t2)) return false;
-            if (!process(*(begin_ + 3),t3)) return false;
-            if (!process(*(begin_ + 4),t4)) return false;
-            if (!process(*(begin_ + 5),t5)) return false;
-            if (!process(*(begin_ + 6),t6)) return false;
-            if (!process(*(begin_ + 7),t7)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
+            if (!process(2,t2)) return false;
+            if (!process(3,t3)) return false;
+            if (!process(4,t4)) return false;
+            if (!process(5,t5)) return false;
+            if (!process(6,t6)) return false;
+            if (!process(7,t7)) return false;
             return true;
          }
 
@@ -5890,13 +5890,13 @@ namespace strtk
          inline bool parse(T0& t0, T1& t1, T2& t2, T3& t3,
                            T4& t4, T5& t5, T6& t6) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
-            if (!process(*(begin_ + 2),t2)) return false;
-            if (!process(*(begin_ + 3),t3)) return false;
-            if (!process(*(begin_ + 4),t4)) return false;
-            if (!process(*(begin_ + 5),t5)) return false;
-            if (!process(*(begin_ + 6),t6)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
+            if (!process(2,t2)) return false;
+            if (!process(3,t3)) return false;
+            if (!process(4,t4)) return false;
+            if (!process(5,t5)) return false;
+            if (!process(6,t6)) return false;
             return true;
          }
 
@@ -5905,12 +5905,12 @@ namespace strtk
          inline bool parse(T0& t0, T1& t1, T2& t2, T3& t3,
                            T4& t4, T5& t5) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
-            if (!process(*(begin_ + 2),t2)) return false;
-            if (!process(*(begin_ + 3),t3)) return false;
-            if (!process(*(begin_ + 4),t4)) return false;
-            if (!process(*(begin_ + 5),t5)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
+            if (!process(2,t2)) return false;
+            if (!process(3,t3)) return false;
+            if (!process(4,t4)) return false;
+            if (!process(5,t5)) return false;
             return true;
          }
 
@@ -5918,11 +5918,11 @@ namespace strtk
                    typename T2, typename T3,typename T4>
          inline bool parse(T0& t0, T1& t1, T2& t2, T3& t3, T4& t4) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
-            if (!process(*(begin_ + 2),t2)) return false;
-            if (!process(*(begin_ + 3),t3)) return false;
-            if (!process(*(begin_ + 4),t4)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
+            if (!process(2,t2)) return false;
+            if (!process(3,t3)) return false;
+            if (!process(4,t4)) return false;
             return true;
          }
 
@@ -5930,34 +5930,34 @@ namespace strtk
                    typename T2, typename T3>
          inline bool parse(T0& t0, T1& t1, T2& t2, T3& t3) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
-            if (!process(*(begin_ + 2),t2)) return false;
-            if (!process(*(begin_ + 3),t3)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
+            if (!process(2,t2)) return false;
+            if (!process(3,t3)) return false;
             return true;
          }
 
          template <typename T0, typename T1, typename T2>
          inline bool parse(T0& t0, T1& t1, T2& t2) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
-            if (!process(*(begin_ + 2),t2)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
+            if (!process(2,t2)) return false;
             return true;
          }
 
          template <typename T0, typename T1>
          inline bool parse(T0& t0, T1& t1) const
          {
-            if (!process(*(begin_ + 0),t0)) return false;
-            if (!process(*(begin_ + 1),t1)) return false;
+            if (!process(0,t0)) return false;
+            if (!process(1,t1)) return false;
             return true;
          }
 
          template <typename T0>
          inline bool parse(T0& t) const
          {
-            return process(*begin_,t);
+            return process(0,t);
          }
 
          template <typename T, typename OutputIterator>
@@ -6312,8 +6312,13 @@ namespace strtk
       private:
 
          template <typename T>
-         inline bool process(const range_t& range, T& t) const
+         inline bool process(const std::size_t& index, T& t) const
          {
+            if (index >= size_)
+               return false;
+
+            const range_t& range = *(begin_ + index);
+
             return string_to_type_converter(range.first,range.second,t);
          }
 
-- 
2.43.0


From 19d81af3088bcb9269b084a0e059a544229a610c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:56 +0000
Subject: [PATCH 072/113] fix: extract_column advances any output iterator

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 00aa7c5..f13b965 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7588,7 +7588,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token(const range_t& range, OutputIterator out) const
+      inline void process_token(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
          (*out) = string_to_type_converter<output_type>(range.first,range.second);
@@ -7596,7 +7596,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token_checked(const range_t& range, OutputIterator out) const
+      inline void process_token_checked(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
 
-- 
2.43.0


From 829f8663b32caec50e8e7043a1edb0e2e89f374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 073/113] fix: split judges the character after a delimiter run
 once

---
 strtk.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index f13b965..343be83 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3402,6 +3402,13 @@ namespace strtk
             }
             ++token_count;
             range.first = range.second;
+
+            // The end of a delimiter run has already judged the next character.
+            if (
+                 (end != range.second) &&
+                 (include_all_delimiters || (include_1st_delimiter && compress_delimiters))
+               )
+               ++range.second;
          }
          else
             ++range.second;
-- 
2.43.0


From 108737acaf2bbf5ae23c3df781ebc84a0a6bf320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 074/113] fix: a copied util::value holds its own binding

---
 strtk.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 343be83..6c996c2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21401,6 +21401,16 @@ namespace strtk
             assign(t);
          }
 
+         inline value(const value& v)
+         {
+            copy(v);
+         }
+
+         inline value(value& v)
+         {
+            copy(v);
+         }
+
          inline bool operator!() const
          {
             return (0 == type_holder_);
@@ -21417,13 +21427,7 @@ namespace strtk
          {
             if (&v != this)
             {
-               if (0 != v.type_holder_)
-               {
-                  std::copy(v.type_holder_buffer_,
-                            v.type_holder_buffer_ + type_holder_buffer_size,
-                            type_holder_buffer_);
-                  type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
-               }
+               copy(v);
             }
             return *this;
          }
@@ -21476,6 +21480,18 @@ namespace strtk
 
          typedef type_holder_base* type_holder_ptr;
 
+         inline void copy(const value& v)
+         {
+            std::copy(v.type_holder_buffer_,
+                      v.type_holder_buffer_ + type_holder_buffer_size,
+                      type_holder_buffer_);
+
+            if (0 != v.type_holder_)
+               type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
+            else
+               type_holder_ = 0;
+         }
+
          template <typename T, bool b>
          struct construct
          {
-- 
2.43.0


From c47b7813812156060460489300881cefade2e58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 075/113] fix: a copied semantic action holds its own function

---
 strtk.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 6c996c2..c9a7795 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21181,6 +21181,18 @@ namespace strtk
             assign(f);
          }
 
+         inline semantic_action_impl(const semantic_action_impl& sa)
+         {
+            std::copy(sa.function_holder_buffer_,
+                      sa.function_holder_buffer_ + function_holder_buffer_size,
+                      function_holder_buffer_);
+
+            if (0 != sa.function_holder_)
+               function_holder_ = reinterpret_cast<function_holder_ptr>(function_holder_buffer_);
+            else
+               function_holder_ = 0;
+         }
+
          inline bool operator!() const
          {
             return (0 == function_holder_);
-- 
2.43.0


From 3d99cc2914626a4784c2461079c225eedb276fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:52 +0000
Subject: [PATCH 076/113] fix: a default attribute starts from defined values

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index c9a7795..370a4a8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21009,7 +21009,9 @@ namespace strtk
       public:
 
          attribute()
-         : initialised_(false)
+         : t_(),
+           prev_t_(),
+           initialised_(false)
          {}
 
          attribute(const T& t)
-- 
2.43.0


From 69526631075fb57e9d51d1058f97e29a0c4cfe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:56 +0000
Subject: [PATCH 077/113] fix: numeric keys of key-value pairs are not wrapped

---
 strtk.hpp | 105 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 59 insertions(+), 46 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 370a4a8..f3be965 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24344,6 +24344,59 @@ namespace strtk
          std::vector<range_type> pair_list_;
       };
 
+      namespace details
+      {
+         template <typename Range,typename KType>
+         struct keygen
+         {
+            static inline bool transform(const Range&, KType& key)
+            {
+               key = KType();
+               return true;
+            }
+         };
+
+         template <typename Range>
+         struct keygen<Range,std::string>
+         {
+            static inline bool transform(const Range& key_range, std::string& key)
+            {
+               key.assign(key_range.first,key_range.second);
+               return true;
+            }
+         };
+
+         template <typename Range>
+         struct keygen<Range,unsigned int>
+         {
+            static inline bool transform(const Range& key_range, unsigned int& key)
+            {
+               const std::size_t length = std::distance(key_range.first,key_range.second);
+               const std::size_t max_length = std::numeric_limits<unsigned long long int>::digits10;
+               unsigned long long int result = 0;
+
+               if ((0 == length) || (length > max_length))
+                  return false;
+               else if (!strtk::fast::numeric_convert(length,key_range.first,result,true))
+                  return false;
+               else if (result > std::numeric_limits<unsigned int>::max())
+                  return false;
+
+               key = static_cast<unsigned int>(result);
+               return true;
+            }
+         };
+
+         struct no_op_validator
+         {
+            template <typename Range>
+            inline bool operator()(const Range&)
+            {
+               return true;
+            }
+         };
+      }
+
       class uintkey_map
       {
       private:
@@ -24377,8 +24430,8 @@ namespace strtk
          template <typename Range>
          inline bool operator()(const Range& key_range, const Range& value_range)
          {
-            std::size_t key = 0;
-            if (!fast::numeric_convert(distance(key_range),key_range.first,key,true))
+            unsigned int key = 0;
+            if (!details::keygen<Range,unsigned int>::transform(key_range,key))
                return false;
             if (key >= value_lut_.size())
                return false;
@@ -24410,49 +24463,6 @@ namespace strtk
          std::vector<strtk::util::value> value_lut_;
       };
 
-      namespace details
-      {
-         template <typename Range,typename KType>
-         struct keygen
-         {
-            static inline KType transform(const Range&)
-            {
-               return KType();
-            }
-         };
-
-         template <typename Range>
-         struct keygen<Range,std::string>
-         {
-            static inline std::string transform(const Range& key_range)
-            {
-               return std::string(key_range.first,key_range.second);
-            }
-         };
-
-         template <typename Range>
-         struct keygen<Range,unsigned int>
-         {
-            static inline unsigned int transform(const Range& key_range)
-            {
-               unsigned int result = 0;
-               if (strtk::fast::numeric_convert(std::distance(key_range.first,key_range.second),key_range.first,result,true))
-                  return result;
-               else
-                  return std::numeric_limits<unsigned int>::max();
-            }
-         };
-
-         struct no_op_validator
-         {
-            template <typename Range>
-            inline bool operator()(const Range&)
-            {
-               return true;
-            }
-         };
-      }
-
       template <typename KeyType,
                 typename MapType = std::map<KeyType,strtk::util::value>,
                 typename KeyValidator = details::no_op_validator,
@@ -24480,7 +24490,10 @@ namespace strtk
                return false;
             if (!val_validator_(value_range))
                return false;
-            typename map_type::iterator itr = value_map_.find(details::keygen<Range,key_type>::transform(key_range));
+            key_type key = key_type();
+            if (!details::keygen<Range,key_type>::transform(key_range,key))
+               return false;
+            typename map_type::iterator itr = value_map_.find(key);
             if (value_map_.end() == itr)
                return false;
             const util::value& v = (*itr).second;
-- 
2.43.0


From 55f3110994adbe456dec3d2835617be20cc4ada3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 078/113] fix: a column selector takes a first variable of its
 own type

---
 strtk.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f3be965..b793e3e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22374,7 +22374,7 @@ namespace strtk
          typedef column_list_impl<10> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8, T9& t9)
          : csb_t(column_list)
          {
@@ -22397,7 +22397,7 @@ namespace strtk
          typedef column_list_impl<9> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8)
          : csb_t(column_list)
          {
@@ -22420,7 +22420,7 @@ namespace strtk
          typedef column_list_impl<8> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6, T7& t7)
          : csb_t(column_list)
          {
@@ -22442,7 +22442,7 @@ namespace strtk
          typedef column_list_impl<7> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6)
          : csb_t(column_list)
          {
@@ -22464,7 +22464,7 @@ namespace strtk
          typedef column_list_impl<6> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4, T5& t5)
          : csb_t(column_list)
          {
@@ -22485,7 +22485,7 @@ namespace strtk
          typedef column_list_impl<5> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4)
          : csb_t(column_list)
          {
@@ -22505,7 +22505,7 @@ namespace strtk
          typedef column_list_impl<4> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3)
+                              T0& t0, T1& t1, T2& t2, T3& t3)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22523,7 +22523,7 @@ namespace strtk
          typedef column_list_impl<3> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2)
+                              T0& t0, T1& t1, T2& t2)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22541,7 +22541,7 @@ namespace strtk
          typedef column_list_impl<2> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1)
+                              T0& t0, T1& t1)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
-- 
2.43.0


From f382b1b29807d0c2bf85557b87afad6b2f628724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:11 +0000
Subject: [PATCH 079/113] fix: column selectors of eleven and twelve columns
 take their own column list

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b793e3e..749f6dc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22790,8 +22790,8 @@ namespace strtk
    template <typename T0, typename T1, typename  T2, typename T3,
              typename T4, typename T5, typename  T6, typename T7,
              typename T8, typename T9, typename T10, typename T11>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
-      column_selector(const details::column_list_impl<11>& col_list,
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11>
+      column_selector(const details::column_list_impl<12>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3,  T4&  t4,  T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10, T11& t11)
    {
@@ -22804,7 +22804,7 @@ namespace strtk
    template <typename T0, typename T1, typename T2, typename T3,
              typename T4, typename T5, typename T6, typename T7,
              typename T8, typename T9, typename T10>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10>
       column_selector(const details::column_list_impl<11>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10)
-- 
2.43.0


From 03785dc1bc20519d089610c88faa293f7829b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 080/113] fix: plain data can be written to a file stream

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 749f6dc..0cb4f47 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18771,7 +18771,7 @@ namespace strtk
          template <typename T>
          inline bool write_pod_proxy(std::ofstream& stream, const T& t)
          {
-            return (false == stream.write(reinterpret_cast<char*>(&t),
+            return (false == stream.write(reinterpret_cast<const char*>(&t),
                                           static_cast<std::streamsize>(sizeof(T))).fail());
          }
       }
-- 
2.43.0


From baf5eb62332c7c19693dac4c28033c37b15d5127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 081/113] fix: reading or writing an array of plain data
 reports its outcome the right way round

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0cb4f47..05fdea9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18909,7 +18909,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool read_pod(std::ifstream& stream, T (&t)[N])
       {
-         return (false != stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.read(reinterpret_cast<char*>(&t[0]),static_cast<std::streamsize>(sizeof(T) * N)).fail());
       }
 
       template <typename T,
@@ -19103,9 +19103,9 @@ namespace strtk
       }
 
       template <typename T, std::size_t N>
-      inline bool write_pod(std::ofstream& stream, T (&t)[N])
+      inline bool write_pod(std::ofstream& stream, const T (&t)[N])
       {
-         return (false != stream.write(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.write(reinterpret_cast<const char*>(&t[0]),static_cast<std::streamsize>(sizeof(T) * N)).fail());
       }
 
       template <typename T,
-- 
2.43.0


From 3cdc0030940cf65e81e0c3af12f1a11459cb6e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:48 +0000
Subject: [PATCH 082/113] fix: writing a container of plain data to a file
 stream reports success

---
 strtk.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 05fdea9..a66143d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19114,8 +19114,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const Sequence<T,Allocator>& sequence)
       {
-         typename Sequence<T,Allocator>::iterator itr = sequence.begin();
-         typename Sequence<T,Allocator>::iterator end = sequence.end();
+         typename Sequence<T,Allocator>::const_iterator itr = sequence.begin();
+         typename Sequence<T,Allocator>::const_iterator end = sequence.end();
 
          while (end != itr)
          {
@@ -19124,6 +19124,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19132,8 +19134,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const std::set<T,Comparator,Allocator>& set)
       {
-         typename std::set<T,Comparator,Allocator>::iterator itr = set.begin();
-         typename std::set<T,Comparator,Allocator>::iterator end = set.end();
+         typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
+         typename std::set<T,Comparator,Allocator>::const_iterator end = set.end();
 
          while (end != itr)
          {
@@ -19142,6 +19144,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19150,8 +19154,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const std::multiset<T,Comparator,Allocator>& multiset)
       {
-         typename std::multiset<T,Comparator,Allocator>::iterator itr = multiset.begin();
-         typename std::multiset<T,Comparator,Allocator>::iterator end = multiset.end();
+         typename std::multiset<T,Comparator,Allocator>::const_iterator itr = multiset.begin();
+         typename std::multiset<T,Comparator,Allocator>::const_iterator end = multiset.end();
 
          while (end != itr)
          {
@@ -19160,6 +19164,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       inline bool read_at_offset(std::ifstream& stream,
-- 
2.43.0


From cce390d33a849ac0d575c12b6324a74c9c12d18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 083/113] fix: plain data containers are read from and written
 to memory

---
 strtk.hpp | 95 ++++++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 66 insertions(+), 29 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a66143d..7d8304d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18916,7 +18916,7 @@ namespace strtk
                 typename Allocator,
                 template <typename,typename> class Sequence>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            Sequence<T,Allocator>& sequence)
       {
          T t;
@@ -18936,7 +18936,7 @@ namespace strtk
                 typename Comparator,
                 typename Allocator>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            std::set<T,Comparator,Allocator>& set)
       {
          T t;
@@ -18956,7 +18956,7 @@ namespace strtk
                 typename Comparator,
                 typename Allocator>
       inline bool read_pod(std::ifstream& stream,
-                           const std::size_t& count,
+                           const std::size_t count,
                            std::multiset<T,Comparator,Allocator>& multiset)
       {
          T t;
@@ -19397,9 +19397,7 @@ namespace strtk
    template <typename T, std::size_t N>
    inline unsigned char* read_pod(unsigned char* data, T (&t)[N])
    {
-      T* begin = reinterpret_cast<T*>(data);
-      T* end = begin + N;
-      std::copy(begin, end, &t[0]);
+      ::memcpy(&t[0], data, N * sizeof(T));
       return data + (N * sizeof(T));
    }
 
@@ -19407,36 +19405,54 @@ namespace strtk
              typename Allocator,
              template <typename,typename> class Sequence>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const Sequence<T,Allocator>& sequence)
+                                  const std::size_t n,
+                                  Sequence<T,Allocator>& sequence)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::back_inserter(sequence));
-      return data + (sequence.size() * sizeof(T));
+      T t;
+
+      for (std::size_t i = 0; i < n; ++i)
+      {
+         data = read_pod(data, t);
+         sequence.push_back(t);
+      }
+
+      return data;
    }
 
    template <typename T,
              typename Comparator,
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const std::set<T,Comparator,Allocator>& set)
+                                  const std::size_t n,
+                                  std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::inserter(set,set.begin()));
-      return data + (set.size() * sizeof(T));
+      T t;
+
+      for (std::size_t i = 0; i < n; ++i)
+      {
+         data = read_pod(data, t);
+         set.insert(t);
+      }
+
+      return data;
    }
 
    template <typename T,
              typename Comparator,
              typename Allocator>
    inline unsigned char* read_pod(unsigned char* data,
-                                  const std::size_t& n,
-                                  const std::multiset<T,Comparator,Allocator>& multiset)
+                                  const std::size_t n,
+                                  std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(ptr, ptr + n, std::inserter(multiset,multiset.begin()));
-      return data + (multiset.size() * sizeof(T));
+      T t;
+
+      for (std::size_t i = 0; i < n; ++i)
+      {
+         data = read_pod(data, t);
+         multiset.insert(t);
+      }
+
+      return data;
    }
 
    template <typename T1,  typename T2, typename  T3, typename  T4,
@@ -19639,8 +19655,15 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const Sequence<T,Allocator>& sequence)
    {
-      ::memcpy(data, sequence.data(), sequence.size() * sizeof(T));
-      data += (sequence.size() * sizeof(T));
+      typename Sequence<T,Allocator>::const_iterator itr = sequence.begin();
+      typename Sequence<T,Allocator>::const_iterator end = sequence.end();
+
+      while (end != itr)
+      {
+         data = write_pod(data, *itr);
+         ++itr;
+      }
+
       return data;
    }
 
@@ -19650,9 +19673,16 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::set<T,Comparator,Allocator>& set)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(set.begin(),set.end(),ptr);
-      return data + (set.size() * sizeof(T));
+      typename std::set<T,Comparator,Allocator>::const_iterator itr = set.begin();
+      typename std::set<T,Comparator,Allocator>::const_iterator end = set.end();
+
+      while (end != itr)
+      {
+         data = write_pod(data, *itr);
+         ++itr;
+      }
+
+      return data;
    }
 
    template <typename T,
@@ -19661,9 +19691,16 @@ namespace strtk
    inline unsigned char* write_pod(unsigned char* data,
                                    const std::multiset<T,Comparator,Allocator>& multiset)
    {
-      T* ptr = reinterpret_cast<T>(data);
-      std::copy(multiset.begin(),multiset.end(),ptr);
-      return data + (multiset.size() * sizeof(T));
+      typename std::multiset<T,Comparator,Allocator>::const_iterator itr = multiset.begin();
+      typename std::multiset<T,Comparator,Allocator>::const_iterator end = multiset.end();
+
+      while (end != itr)
+      {
+         data = write_pod(data, *itr);
+         ++itr;
+      }
+
+      return data;
    }
 
    class string_condition
-- 
2.43.0


From 72e41b06796effac7fbaa83721faf452c67213eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:01 +0000
Subject: [PATCH 084/113] fix: reading at an offset leaves the caller's stream
 open

---
 strtk.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7d8304d..250c8dc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19178,7 +19178,6 @@ namespace strtk
          if (stream.fail()) return false;
          stream.read(buffer,static_cast<std::streamsize>(buffer_size));
          if (stream.fail()) return false;
-         stream.close();
          return true;
       }
 
-- 
2.43.0


From 009476ae42e333736f49a1518bf8ab65080598ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 085/113] fix: a line visit bounded to zero lines visits none

---
 strtk.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 250c8dc..33d10c6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -137,11 +137,10 @@ namespace strtk
       buffer.reserve(buffer_size);
       std::size_t line_count = 0;
 
-      while (std::getline(stream,buffer))
+      while ((line_count < n) && std::getline(stream,buffer))
       {
          function(buffer);
-         if (n == ++line_count)
-            break;
+         ++line_count;
       }
 
       return line_count;
@@ -202,14 +201,13 @@ namespace strtk
       std::string buffer;
       buffer.reserve(buffer_size);
       std::size_t line_count = 0;
-      while (std::getline(stream,buffer))
+      while ((line_count < n) && std::getline(stream,buffer))
       {
          if (!function(buffer))
          {
             return line_count;
          }
-         if (n == ++line_count)
-            break;
+         ++line_count;
       }
       return line_count;
    }
-- 
2.43.0


From 656fe936723c980861fc3fdcc8e4a4e477182173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 086/113] fix: a failed copy or concatenation leaves the
 destination alone

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 33d10c6..3b6a572 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18650,8 +18650,8 @@ namespace strtk
       inline bool copy_file(const std::string& src_file_name, const std::string& dest_file_name)
       {
          std::ifstream src_file(src_file_name.c_str(),std::ios::binary);
-         std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!src_file) return false;
+         std::ofstream dest_file(dest_file_name.c_str(),std::ios::binary);
          if (!dest_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
@@ -18684,9 +18684,12 @@ namespace strtk
       {
          std::ifstream file1(file_name1.c_str(),std::ios::binary);
          std::ifstream file2(file_name2.c_str(),std::ios::binary);
+
+         if (!file1 || !file2) return false;
+
          std::ofstream out_file(output_file_name.c_str(),std::ios::binary);
 
-         if (!file1 || !file2 || !out_file) return false;
+         if (!out_file) return false;
 
          static const std::size_t block_size = 16 * one_kilobyte;
          char buffer[block_size];
-- 
2.43.0


From ef7eb526a35d4a6f274c030ddb4aef72e2a07fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 087/113] fix: file writing helpers report a failed write

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3b6a572..7cce365 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18639,7 +18639,7 @@ namespace strtk
          if (!out_stream) return false;
          out_stream.write(buffer,static_cast<std::streamsize>(buffer_size));
          out_stream.close();
-         return true;
+         return (false == out_stream.fail());
       }
 
       inline bool write_file(const std::string& file_name, const std::string& buffer)
@@ -18675,7 +18675,7 @@ namespace strtk
 
          src_file.close();
          dest_file.close();
-         return true;
+         return (false == dest_file.fail());
       }
 
       inline bool concatenate(const std::string& file_name1,
@@ -18719,7 +18719,7 @@ namespace strtk
             ++round;
          }
          out_file.close();
-         return true;
+         return (false == out_file.fail());
       }
 
       inline bool files_identical(const std::string& file_name1, const std::string& file_name2)
-- 
2.43.0


From 90f174797108c7cf9eb763dd48049b0eab9fa6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 088/113] fix: string conditions on prefix, suffix and
 substring judge every text

---
 strtk.hpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7cce365..3a1e87b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19736,29 +19736,19 @@ namespace strtk
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
-         {
-            return strtk::begins_with(s_begin, s_end, begin, end);
-         }
-         else
-            return false;
+         return strtk::begins_with(s_begin, s_end, begin, end);
       }
 
       inline bool condition_ends_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
-         {
-            return strtk::ends_with(s_begin, s_end, begin, end);
-         }
-         else
-            return false;
+         return strtk::ends_with(s_begin, s_end, begin, end);
       }
 
       inline bool condition_within(const itr_type begin, const itr_type end) const
       {
          if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
-            return (end != std::search(begin, end, s_begin, s_end));
+            return (s.empty() || (end != std::search(begin, end, s_begin, s_end)));
          }
          else
             return false;
@@ -19768,7 +19758,7 @@ namespace strtk
       {
          if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
-            return (end == std::search(begin, end, s_begin, s_end));
+            return !(s.empty() || (end != std::search(begin, end, s_begin, s_end)));
          }
          else
             return true;
-- 
2.43.0


From 0efd730714f016ddb885496e79f0ebf1e4310b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 089/113] fix: a copied string condition judges with its own
 pattern

---
 strtk.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 3a1e87b..0fd0620 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19805,6 +19805,24 @@ namespace strtk
          }
       }
 
+      inline string_condition(const string_condition& cond)
+      : cond_type_(cond.cond_type_),
+        s(cond.s),
+        s_begin(reinterpret_cast<const unsigned char*>(to_ptr(s))),
+        s_end  (reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size())),
+        condition_method_(cond.condition_method_)
+      {}
+
+      inline string_condition& operator=(const string_condition& cond)
+      {
+         cond_type_        = cond.cond_type_;
+         s                 = cond.s;
+         s_begin           = reinterpret_cast<const unsigned char*>(to_ptr(s));
+         s_end             = reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size());
+         condition_method_ = cond.condition_method_;
+         return (*this);
+      }
+
       template <typename Iterator>
       inline bool operator()(const Iterator begin, const Iterator end)
       {
-- 
2.43.0


From 828d4d665fc92b0efc044689b11ae2bbe1ccb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:22 +0000
Subject: [PATCH 090/113] fix: read_line_as_value can be used with any type

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 0fd0620..8c9090d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -238,6 +238,9 @@ namespace strtk
          return 0;
    }
 
+   template <typename T>
+   inline bool string_to_type_converter(const std::string& s, T& t);
+
    template <typename T>
    inline bool read_line_as_value(std::istream& stream,
                                   T& t,
-- 
2.43.0


From 2840082d7b1fa5eb9a739c26b6a1884819fa2cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 091/113] fix: run search with a stateful predicate stays
 inside the range

---
 strtk.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8c9090d..12f04a6 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15790,11 +15790,13 @@ namespace strtk
                ++itr;
                while ((end != itr) && !p(*itr))
                   ++itr;
-               if (!stateful_predicate)
-                  count = n;
-               else
+               count = n;
+
+               if (stateful_predicate && (end != itr))
                {
-                  --count;
+                  if (0 == --count)
+                     return typename range_type<Iterator>::type(itr,itr + n);
+
                   ++itr;
                }
             }
-- 
2.43.0


From b3d87f69dc2ef86e151b64a57ceb4cde50cb7e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:18 +0000
Subject: [PATCH 092/113] fix: post-increment of the pointer inserter keeps its
 position

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 12f04a6..c4f011f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3134,7 +3134,7 @@ namespace strtk
          return (*this);
       }
 
-      inline range_to_ptr_type_iterator operator++(int)
+      inline range_to_ptr_type_iterator& operator++(int)
       {
          return (*this);
       }
-- 
2.43.0


From 9550a7d300ac61781b78dc063e78f2e8eef7147f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 093/113] fix: copy_file and concatenate report a source that
 cannot be read

---
 strtk.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c4f011f..ad58bbc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18666,14 +18666,18 @@ namespace strtk
 
          while (remaining_bytes >= block_size)
          {
-            src_file.read(&buffer[0],static_cast<std::streamsize>(block_size));
+            if (!src_file.read(&buffer[0],static_cast<std::streamsize>(block_size)))
+               return false;
+
             dest_file.write(&buffer[0],static_cast<std::streamsize>(block_size));
             remaining_bytes -= block_size;
          }
 
          if (remaining_bytes > 0)
          {
-            src_file.read(&buffer[0],static_cast<std::streamsize>(remaining_bytes));
+            if (!src_file.read(&buffer[0],static_cast<std::streamsize>(remaining_bytes)))
+               return false;
+
             dest_file.write(&buffer[0],static_cast<std::streamsize>(remaining_bytes));
             remaining_bytes = 0;
          }
@@ -18708,14 +18712,18 @@ namespace strtk
 
             while (remaining_bytes >= block_size)
             {
-               input_stream.read(&buffer[0],static_cast<std::streamsize>(block_size));
+               if (!input_stream.read(&buffer[0],static_cast<std::streamsize>(block_size)))
+                  return false;
+
                out_file.write(&buffer[0],static_cast<std::streamsize>(block_size));
                remaining_bytes -= block_size;
             }
 
             if (remaining_bytes > 0)
             {
-               input_stream.read(&buffer[0],static_cast<std::streamsize>(remaining_bytes));
+               if (!input_stream.read(&buffer[0],static_cast<std::streamsize>(remaining_bytes)))
+                  return false;
+
                out_file.write(&buffer[0],static_cast<std::streamsize>(remaining_bytes));
                remaining_bytes = 0;
             }
-- 
2.43.0


From d651dce5032c391513dfb63c6f72d2108e47593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 094/113] fix: files_identical does not compare bytes it failed
 to read

---
 strtk.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ad58bbc..f2f3153 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18751,8 +18751,12 @@ namespace strtk
 
          while (remaining_bytes >= block_size)
          {
-            file1.read(&buffer1[0],static_cast<std::streamsize>(block_size));
-            file2.read(&buffer2[0],static_cast<std::streamsize>(block_size));
+            if (!file1.read(&buffer1[0],static_cast<std::streamsize>(block_size)))
+               return false;
+
+            if (!file2.read(&buffer2[0],static_cast<std::streamsize>(block_size)))
+               return false;
+
             if (0 != std::memcmp(buffer1,buffer2,block_size))
                return false;
             remaining_bytes -= block_size;
@@ -18760,8 +18764,12 @@ namespace strtk
 
          if (remaining_bytes > 0)
          {
-            file1.read(&buffer1[0],static_cast<std::streamsize>(remaining_bytes));
-            file2.read(&buffer2[0],static_cast<std::streamsize>(remaining_bytes));
+            if (!file1.read(&buffer1[0],static_cast<std::streamsize>(remaining_bytes)))
+               return false;
+
+            if (!file2.read(&buffer2[0],static_cast<std::streamsize>(remaining_bytes)))
+               return false;
+
             if (0 != std::memcmp(buffer1,buffer2,remaining_bytes))
                return false;
             remaining_bytes = 0;
-- 
2.43.0


From d3652f3efe449d6e23a554714b34679179e9c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 095/113] fix: load_file reports a file whose bytes cannot be
 read

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index f2f3153..f27376c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18628,8 +18628,9 @@ namespace strtk
          std::ifstream in_stream(file_name.c_str(),std::ios::binary);
          if (!in_stream) return false;
          in_stream.read(buffer,static_cast<std::streamsize>(buffer_size));
+         const bool result = (false == in_stream.bad());
          in_stream.close();
-         return true;
+         return result;
       }
 
       inline bool load_file(const std::string& file_name, std::string& buffer)
-- 
2.43.0


From 686eb00e4de063cea958dee795308d11f1461069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 096/113] fix: the binary reader reports a stream that does not
 deliver the bytes asked for

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f27376c..1b42bcd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14199,14 +14199,14 @@ namespace strtk
          {
             if (length > buffer_length_) return false;
             stream.read(original_buffer_,static_cast<std::streamsize>(length));
-            return true;
+            return (false == stream.fail());
          }
 
          inline bool operator()(std::ifstream& stream)
          {
             if (0 == amount_read_sofar_) return false;
             stream.read(original_buffer_,static_cast<std::streamsize>(amount_read_sofar_));
-            return true;
+            return (false == stream.fail());
          }
 
          template <typename T>
-- 
2.43.0


From cd35c80cbc390ce66ad8742e6ea54274ec2e3607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 097/113] fix: the bloom filter does not load a file that
 cannot be read completely

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1b42bcd..96be967 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20616,10 +20616,11 @@ namespace strtk
 
             strtk::binary::reader reader(buffer,buffer_size);
             reader.reset(true);
-            reader(istream,buffer_size);
+            const bool read_result = reader(istream,buffer_size);
             istream.close();
 
-            bool result = reader(salt_count_)                         &&
+            bool result = read_result                                 &&
+                          reader(salt_count_)                         &&
                           reader(table_size_)                         &&
                           reader(raw_table_size_)                     &&
                           reader(projected_element_count_)            &&
-- 
2.43.0


From 3f29b9a4a18360e396472a0a4fdcbd76553863a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:15 +0000
Subject: [PATCH 098/113] fix: the token grid does not load a file that cannot
 be read completely

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 96be967..6a800c1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7590,9 +7590,10 @@ namespace strtk
          stream.seekg (0,std::ios::beg);
          buffer_ = new unsigned char[buffer_size_];
          stream.read(reinterpret_cast<char*>(buffer_),static_cast<std::streamsize>(buffer_size_));
+         const bool result = (false == stream.fail());
          stream.close();
 
-         return true;
+         return result;
       }
 
       template <typename OutputIterator>
-- 
2.43.0


From 17d3e7bf8a034f2949d269afe18f2a2d6fdff49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 099/113] fix: a copied or assigned trie owns its own nodes

---
 strtk.hpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 6a800c1..9dd6824 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19949,6 +19949,23 @@ namespace strtk
                node_list_.push_back(n);
             }
 
+            inline node_ptr clone() const
+            {
+               node_ptr n = new node_t(key_value_);
+
+               if (value_holder_)
+               {
+                  n->assign_value(value_);
+               }
+
+               for (std::size_t i = 0; i < node_list_.size(); ++i)
+               {
+                  n->add_node(node_list_[i]->clone());
+               }
+
+               return n;
+            }
+
             inline bool value_holder() const
             {
                return value_holder_;
@@ -19988,6 +20005,22 @@ namespace strtk
          : head_(0)
          {}
 
+         prefix(const prefix& p)
+         : head_((0 == p.head_) ? 0 : p.head_->clone())
+         {}
+
+         inline prefix& operator=(const prefix& p)
+         {
+            if (this != &p)
+            {
+               node_ptr new_head = (0 == p.head_) ? 0 : p.head_->clone();
+               delete head_;
+               head_ = new_head;
+            }
+
+            return *this;
+         }
+
          template <typename key_iterator_t>
          inline void insert(const key_iterator_t begin,
                             const key_iterator_t end,
-- 
2.43.0


From e8525e29ff66031fb4db928b0d01391353b81594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 100/113] fix: the hash of a sequence takes every element into
 account

---
 strtk.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 9dd6824..2f2f8bc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20999,7 +20999,7 @@ namespace strtk
       }
 
       template <std::size_t block_size, typename Iterator>
-      inline void compute_block(Iterator itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(Iterator& itr, std::size_t& length, unsigned int& hash)
       {
          while (length >= block_size)
          {
@@ -21012,7 +21012,7 @@ namespace strtk
       }
 
       template <std::size_t block_size>
-      inline void compute_block(unsigned char* itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(unsigned char*& itr, std::size_t& length, unsigned int& hash)
       {
          unsigned int local_hash = hash;
 
@@ -21029,15 +21029,17 @@ namespace strtk
       }
 
       template <std::size_t block_size>
-      inline void compute_block(char* itr, std::size_t& length, unsigned int& hash)
+      inline void compute_block(char*& itr, std::size_t& length, unsigned int& hash)
       {
-         compute_block<block_size>(reinterpret_cast<unsigned char*>(itr),length,hash);
+         unsigned char* uitr = reinterpret_cast<unsigned char*>(itr);
+         compute_block<block_size>(uitr,length,hash);
+         itr = reinterpret_cast<char*>(uitr);
       }
 
       static const unsigned int hash_seed = 0xAAAAAAAA;
 
       template <typename Iterator>
-      inline void hash(const Iterator itr, std::size_t length, unsigned int& hash_value)
+      inline void hash(Iterator itr, std::size_t length, unsigned int& hash_value)
       {
          if (length >= 64) compute_block<64>(itr,length,hash_value);
          if (length >= 32) compute_block<32>(itr,length,hash_value);
@@ -21045,7 +21047,7 @@ namespace strtk
          if (length >=  8) compute_block< 8>(itr,length,hash_value);
          if (length >=  4) compute_block< 4>(itr,length,hash_value);
          if (length >=  2) compute_block< 2>(itr,length,hash_value);
-         if (length ==  0) compute_block< 1>(itr,length,hash_value);
+         if (length >=  1) compute_block< 1>(itr,length,hash_value);
       }
 
    } // namespace details
-- 
2.43.0


From e5d89dc09809f42a15d51d3740a6bfef0a7f95b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 101/113] fix: the same characters hash alike from a string and
 from a char pointer

---
 strtk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 2f2f8bc..fb7f2b4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20967,6 +20967,11 @@ namespace strtk
          hash ^= ~((hash << 11) + (itr[3] ^ (hash >> 5)));
       }
 
+      inline void compute_pod_hash(const char& data, unsigned int& hash)
+      {
+         compute_pod_hash(static_cast<int>(static_cast<unsigned char>(data)),hash);
+      }
+
       inline void compute_pod_hash(const unsigned int& data, unsigned int& hash)
       {
          compute_pod_hash(static_cast<int>(data),hash);
-- 
2.43.0


From 2b1af738f1cdf396d56869b309aa6d1b423556ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 102/113] fix: a clock that steps back within a second is
 reported like any other

---
 strtk.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index fb7f2b4..5ec613b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24756,7 +24756,10 @@ namespace strtk
             {
                if (!in_use_)
                {
-                  if (stop_time_.tv_sec >= start_time_.tv_sec)
+                  if (
+                       (stop_time_.tv_sec  > start_time_.tv_sec) ||
+                       ((stop_time_.tv_sec == start_time_.tv_sec) && (stop_time_.tv_usec >= start_time_.tv_usec))
+                     )
                   {
                      return 1000000 * (stop_time_.tv_sec  - start_time_.tv_sec ) +
                                       (stop_time_.tv_usec - start_time_.tv_usec);
-- 
2.43.0


From a4d295d8a33f56f6e9a99923c06e90a19d05bead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:36 +0000
Subject: [PATCH 103/113] fix: holders bound to the same variable compare equal

---
 strtk.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5ec613b..2e2ef01 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21319,7 +21319,9 @@ namespace strtk
          {
             return (0 !=    function_holder_) &&
                    (0 != sa.function_holder_) &&
-                   (function_holder_ == sa.function_holder_);
+                   std::equal(function_holder_buffer_,
+                              function_holder_buffer_ + function_holder_buffer_size,
+                              sa.function_holder_buffer_);
          }
 
          template <typename InputIterator>
@@ -21549,7 +21551,9 @@ namespace strtk
          {
             return (0 !=   type_holder_) &&
                    (0 != v.type_holder_) &&
-                   (type_holder_ == v.type_holder_);
+                   std::equal(type_holder_buffer_,
+                              type_holder_buffer_ + type_holder_buffer_size,
+                              v.type_holder_buffer_);
          }
 
          inline value& operator=(const value& v)
-- 
2.43.0


From 01b996216b729b5b6b5ff788e0688d9bebb804da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 104/113] fix: key_map reads keys of any key type from their
 text

---
 strtk.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2e2ef01..79cfcd4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24468,10 +24468,9 @@ namespace strtk
          template <typename Range,typename KType>
          struct keygen
          {
-            static inline bool transform(const Range&, KType& key)
+            static inline bool transform(const Range& key_range, KType& key)
             {
-               key = KType();
-               return true;
+               return strtk::string_to_type_converter(key_range.first,key_range.second,key);
             }
          };
 
-- 
2.43.0


From 43e2848cc49159bff50e353e334a25b46194b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 105/113] fix: an assigned tokenizer or iterator takes over the
 delimiter predicate

---
 strtk.hpp | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 79cfcd4..c5fc8cd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2373,7 +2373,7 @@ namespace strtk
                                             const iterator end,
                                             const Predicate& predicate,
                                             const tokenize_options::type tokenize_option = tokenize_options::default_mode)
-         : predicate_(predicate),
+         : predicate_(&predicate),
            end_(end),
            range_(begin,begin),
            current_token_(end,end),
@@ -2403,23 +2403,23 @@ namespace strtk
 
             while (end_ != range_.second)
             {
-              if (predicate_(*(range_.second)))
+              if ((*predicate_)(*(range_.second)))
               {
                  if (include_delimiters_)
                  {
                     if (include_1st_delimiter_)
                        ++range_.second;
                     else if (include_all_delimiters_)
-                       while ((end_ != range_.second) && predicate_(*(range_.second))) ++range_.second;
+                       while ((end_ != range_.second) && (*predicate_)(*(range_.second))) ++range_.second;
                     current_token_ = range_;
                     if ((!include_all_delimiters_) && compress_delimiters_)
-                       while ((end_ != range_.second) && predicate_(*(range_.second))) ++range_.second;
+                       while ((end_ != range_.second) && (*predicate_)(*(range_.second))) ++range_.second;
                  }
                  else
                  {
                     current_token_ = range_;
                     if (compress_delimiters_)
-                       while ((end_ != (++range_.second)) && predicate_(*(range_.second))) ;
+                       while ((end_ != (++range_.second)) && (*predicate_)(*(range_.second))) ;
                     else
                        ++range_.second;
                  }
@@ -2435,7 +2435,7 @@ namespace strtk
                current_token_.second = range_.second;
                if (!last_token_done_)
                {
-                  if (predicate_(*(range_.second - 1)))
+                  if ((*predicate_)(*(range_.second - 1)))
                      current_token_.first = range_.second;
                   else
                      current_token_.first = range_.first;
@@ -2489,6 +2489,7 @@ namespace strtk
          {
             if (this != &itr)
             {
+               predicate_             = itr.predicate_;
                range_                  = itr.range_;
                current_token_          = itr.current_token_;
                end_                    = itr.end_;
@@ -2509,7 +2510,7 @@ namespace strtk
 
       protected:
 
-         const Predicate& predicate_;
+         const Predicate* predicate_;
          iterator end_;
          range_type range_;
          range_type current_token_;
@@ -2534,28 +2535,29 @@ namespace strtk
                        const DelimiterPredicate& predicate,
                        const tokenize_options::type tokenize_options = tokenize_options::default_mode)
       : tokenize_options_(tokenize_options),
-        predicate_(predicate),
+        predicate_(&predicate),
         begin_(begin),
         end_(end),
-        begin_itr_(begin_, end_, predicate_, tokenize_options_),
-        end_itr_(end_, end_, predicate_, tokenize_options_)
+        begin_itr_(begin_, end_, *predicate_, tokenize_options_),
+        end_itr_(end_, end_, *predicate_, tokenize_options_)
       {}
 
       inline tokenizer(const std::string& s,
                        const DelimiterPredicate& predicate,
                        const tokenize_options::type tokenize_options = tokenize_options::default_mode)
       : tokenize_options_(tokenize_options),
-        predicate_(predicate),
+        predicate_(&predicate),
         begin_(to_ptr(s)),
         end_(to_ptr(s) + s.size()),
-        begin_itr_(begin_, end_, predicate_, tokenize_options_),
-        end_itr_(end_, end_, predicate_, tokenize_options_)
+        begin_itr_(begin_, end_, *predicate_, tokenize_options_),
+        end_itr_(end_, end_, *predicate_, tokenize_options_)
       {}
 
       inline tokenizer& operator=(const tokenizer& t)
       {
          if (this != &t)
          {
+            predicate_        = t.predicate_;
             begin_            = t.begin_;
             end_              = t.end_;
             end_itr_          = t.end_itr_;
@@ -2580,8 +2582,8 @@ namespace strtk
       {
          begin_     = begin;
          end_       = end;
-         begin_itr_ = iterator(begin_,end_,predicate_,tokenize_options_);
-         end_itr_   = iterator(end_  ,end_,predicate_,tokenize_options_);
+         begin_itr_ = iterator(begin_,end_,*predicate_,tokenize_options_);
+         end_itr_   = iterator(end_  ,end_,*predicate_,tokenize_options_);
       }
 
       inline const_iterator_ref begin() const
@@ -2597,7 +2599,7 @@ namespace strtk
    private:
 
       tokenize_options::type tokenize_options_;
-      const DelimiterPredicate& predicate_;
+      const DelimiterPredicate* predicate_;
       Iterator begin_;
       Iterator end_;
       iterator begin_itr_;
-- 
2.43.0


From 3a1ba405a7c8cfcf8fae704a8d8095bd160de400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:38 +0000
Subject: [PATCH 106/113] fix: an assigned inserter delivers where its source
 does

---
 strtk.hpp | 71 ++++++++++++++++++++++++++++---------------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c5fc8cd..73caf76 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2639,7 +2639,7 @@ namespace strtk
       typedef typename Sequence::value_type value_type;
 
       explicit inline range_to_type_back_inserter_iterator(Sequence& sequence)
-      : sequence_(sequence)
+      : sequence_(&sequence)
       {}
 
       range_to_type_back_inserter_iterator(const range_to_type_back_inserter_iterator& itr)
@@ -2662,7 +2662,7 @@ namespace strtk
          value_type t;
 
          if (string_to_type_converter(r.first,r.second,t))
-            sequence_.push_back(t);
+            sequence_->push_back(t);
 
          return (*this);
       }
@@ -2672,7 +2672,7 @@ namespace strtk
          value_type t;
 
          if (string_to_type_converter(to_ptr(s), to_ptr(s) + s.size(),t))
-            sequence_.push_back(t);
+            sequence_->push_back(t);
 
          return (*this);
       }
@@ -2683,13 +2683,13 @@ namespace strtk
          value_type t;
 
          if (string_to_type_converter(r.first,r.second,t))
-            sequence_.push_back(t);
+            sequence_->push_back(t);
       }
 
       template <typename Iterator>
       inline void operator()(const Iterator begin, const Iterator end)
       {
-         sequence_.push_back(string_to_type_converter<value_type>(begin,end));
+         sequence_->push_back(string_to_type_converter<value_type>(begin,end));
       }
 
       inline range_to_type_back_inserter_iterator& operator*()
@@ -2709,7 +2709,7 @@ namespace strtk
 
    private:
 
-      Sequence& sequence_;
+      Sequence* sequence_;
    };
 
    template <typename Sequence>
@@ -2730,7 +2730,7 @@ namespace strtk
       typedef typename Set::value_type value_type;
 
       explicit inline range_to_type_inserter_iterator(Set& set)
-      : set_(set)
+      : set_(&set)
       {}
 
       range_to_type_inserter_iterator(const range_to_type_inserter_iterator& itr)
@@ -2752,7 +2752,7 @@ namespace strtk
       {
          value_type t;
          if (string_to_type_converter(r.first,r.second,t))
-            set_.insert(t);
+            set_->insert(t);
 
          return (*this);
       }
@@ -2762,7 +2762,7 @@ namespace strtk
       {
          value_type t;
          if (string_to_type_converter(r.first,r.second,t))
-            set_.insert(t);
+            set_->insert(t);
       }
 
       inline range_to_type_inserter_iterator& operator*()
@@ -2782,7 +2782,7 @@ namespace strtk
 
    private:
 
-      Set& set_;
+      Set* set_;
    };
 
    template <typename Set>
@@ -2803,7 +2803,7 @@ namespace strtk
       typedef typename Container::value_type value_type;
 
       explicit inline range_to_type_push_inserter_iterator(Container& container)
-      : container_(container)
+      : container_(&container)
       {}
 
       range_to_type_push_inserter_iterator(const range_to_type_push_inserter_iterator& itr)
@@ -2825,7 +2825,7 @@ namespace strtk
          value_type t;
 
          if (string_to_type_converter(r.first,r.second,t))
-            container_.push(t);
+            container_->push(t);
 
          return (*this);
       }
@@ -2835,7 +2835,7 @@ namespace strtk
       {
          value_type t;
          if (string_to_type_converter(r.first,r.second,t))
-            container_.push(t);
+            container_->push(t);
       }
 
       inline range_to_type_push_inserter_iterator& operator*()
@@ -2855,7 +2855,7 @@ namespace strtk
 
    private:
 
-      Container& container_;
+      Container* container_;
    };
 
    template <typename Container>
@@ -2874,7 +2874,7 @@ namespace strtk
    public:
 
       explicit inline back_inserter_with_valuetype_iterator(Sequence& sequence)
-      : sequence_(sequence)
+      : sequence_(&sequence)
       {}
 
       back_inserter_with_valuetype_iterator(const back_inserter_with_valuetype_iterator& itr)
@@ -2892,13 +2892,13 @@ namespace strtk
 
       inline back_inserter_with_valuetype_iterator& operator=(const typename Sequence::value_type& v)
       {
-         sequence_.push_back(v);
+         sequence_->push_back(v);
          return (*this);
       }
 
       inline void operator()(const typename Sequence::value_type& v)
       {
-         sequence_.push_back(v);
+         sequence_->push_back(v);
       }
 
       inline back_inserter_with_valuetype_iterator& operator*()
@@ -2918,7 +2918,7 @@ namespace strtk
 
    private:
 
-      Sequence& sequence_;
+      Sequence* sequence_;
    };
 
    template <typename Sequence>
@@ -2937,7 +2937,7 @@ namespace strtk
    public:
 
       explicit inline inserter_with_valuetype_iterator(Set& set)
-      : set_(set)
+      : set_(&set)
       {}
 
       inserter_with_valuetype_iterator(const inserter_with_valuetype_iterator& itr)
@@ -2956,13 +2956,13 @@ namespace strtk
 
       inline inserter_with_valuetype_iterator& operator=(const typename Set::value_type& v)
       {
-         set_.insert(v);
+         set_->insert(v);
          return (*this);
       }
 
       inline void operator()(const typename Set::value_type& v)
       {
-         set_.insert(v);
+         set_->insert(v);
       }
 
       inline inserter_with_valuetype_iterator& operator*()
@@ -2982,7 +2982,7 @@ namespace strtk
 
    private:
 
-      Set& set_;
+      Set* set_;
    };
 
    template <typename Set>
@@ -3001,7 +3001,7 @@ namespace strtk
    public:
 
       explicit inline push_inserter_iterator(Container& container)
-      : container_(container)
+      : container_(&container)
       {}
 
       inline push_inserter_iterator& operator=(const push_inserter_iterator& itr)
@@ -3016,7 +3016,7 @@ namespace strtk
 
       inline push_inserter_iterator<Container>& operator=(typename Container::const_reference v)
       {
-         container_.push(v);
+         container_->push(v);
          return (*this);
       }
 
@@ -3037,7 +3037,7 @@ namespace strtk
 
    private:
 
-      Container& container_;
+      Container* container_;
    };
 
    template <typename Container>
@@ -3059,7 +3059,7 @@ namespace strtk
 
       explicit inline range_to_ptr_type_iterator(T* pointer, std::size_t& insert_count)
       : pointer_(pointer),
-        insert_count_(insert_count)
+        insert_count_(&insert_count)
       {}
 
       range_to_ptr_type_iterator(const range_to_ptr_type_iterator& itr)
@@ -3072,6 +3072,7 @@ namespace strtk
          if (this != &itr)
          {
             this->pointer_ = itr.pointer_;
+            this->insert_count_ = itr.insert_count_;
          }
 
          return (*this);
@@ -3086,7 +3087,7 @@ namespace strtk
          {
             (*pointer_) = t;
             ++pointer_;
-            ++insert_count_;
+            ++(*insert_count_);
          }
 
          return (*this);
@@ -3100,7 +3101,7 @@ namespace strtk
          {
             (*pointer_) = t;
             ++pointer_;
-            ++insert_count_;
+            ++(*insert_count_);
          }
 
          return (*this);
@@ -3114,7 +3115,7 @@ namespace strtk
          {
             (*pointer_) = t;
             ++pointer_;
-            ++insert_count_;
+            ++(*insert_count_);
          }
       }
 
@@ -3123,7 +3124,7 @@ namespace strtk
       {
          (*pointer_) = string_to_type_converter<T>(begin,end);
          ++pointer_;
-         ++insert_count_;
+         ++(*insert_count_);
       }
 
       inline range_to_ptr_type_iterator& operator*()
@@ -3144,7 +3145,7 @@ namespace strtk
    private:
 
       T* pointer_;
-      std::size_t& insert_count_;
+      std::size_t* insert_count_;
    };
 
    template <typename T>
@@ -3170,7 +3171,7 @@ namespace strtk
    public:
 
       explicit inline counting_back_inserter_iterator(std::size_t& counter)
-      : counter_(counter)
+      : counter_(&counter)
       {}
 
       counting_back_inserter_iterator(const counting_back_inserter_iterator& itr)
@@ -3189,13 +3190,13 @@ namespace strtk
 
       inline counting_back_inserter_iterator& operator=(const T&)
       {
-         ++counter_;
+         ++(*counter_);
          return (*this);
       }
 
       inline void operator()(const T&)
       {
-         ++counter_;
+         ++(*counter_);
       }
 
       inline counting_back_inserter_iterator& operator*()
@@ -3215,7 +3216,7 @@ namespace strtk
 
    private:
 
-      std::size_t& counter_;
+      std::size_t* counter_;
    };
 
    template <typename T>
-- 
2.43.0


From b9a8782e8016c0e7abb01b54712584681615bb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:49 +0000
Subject: [PATCH 107/113] fix: an assigned hex sink decodes where its source
 does

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 73caf76..cf35003 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15139,7 +15139,7 @@ namespace strtk
 
       hex_to_string_sink(std::string& s)
       : valid_(false),
-        s_(s)
+        s_(&s)
       {}
 
       hex_to_string_sink(const hex_to_string_sink& hss)
@@ -15166,10 +15166,10 @@ namespace strtk
             valid_ = false;
             return (*this);
          }
-         s_.resize((size - offset) / 2);
+         s_->resize((size - offset) / 2);
          valid_ = convert_hex_to_bin(s.first + offset,
                                      s.second,
-                                     const_cast<char*>(to_ptr(s_)));
+                                     const_cast<char*>(to_ptr(*s_)));
          return (*this);
       }
 
@@ -15187,7 +15187,7 @@ namespace strtk
    private:
 
       bool valid_;
-      std::string& s_;
+      std::string* s_;
    };
 
    template <typename T>
-- 
2.43.0


From ccc16dcffc7803c83418a1a1613ca93f15f8c84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:48 +0000
Subject: [PATCH 108/113] fix: range_to_ptr_type without a count does not share
 one

---
 strtk.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cf35003..14785c5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3057,6 +3057,11 @@ namespace strtk
 
       typedef T value_type;
 
+      explicit inline range_to_ptr_type_iterator(T* pointer)
+      : pointer_(pointer),
+        insert_count_(0)
+      {}
+
       explicit inline range_to_ptr_type_iterator(T* pointer, std::size_t& insert_count)
       : pointer_(pointer),
         insert_count_(&insert_count)
@@ -3087,7 +3092,7 @@ namespace strtk
          {
             (*pointer_) = t;
             ++pointer_;
-            ++(*insert_count_);
+            count();
          }
 
          return (*this);
@@ -3101,7 +3106,7 @@ namespace strtk
          {
             (*pointer_) = t;
             ++pointer_;
-            ++(*insert_count_);
+            count();
          }
 
          return (*this);
@@ -3115,7 +3120,7 @@ namespace strtk
          {
             (*pointer_) = t;
             ++pointer_;
-            ++(*insert_count_);
+            count();
          }
       }
 
@@ -3124,7 +3129,7 @@ namespace strtk
       {
          (*pointer_) = string_to_type_converter<T>(begin,end);
          ++pointer_;
-         ++(*insert_count_);
+         count();
       }
 
       inline range_to_ptr_type_iterator& operator*()
@@ -3144,6 +3149,12 @@ namespace strtk
 
    private:
 
+      inline void count() const
+      {
+         if (insert_count_)
+            ++(*insert_count_);
+      }
+
       T* pointer_;
       std::size_t* insert_count_;
    };
@@ -3157,8 +3168,7 @@ namespace strtk
    template <typename T>
    inline range_to_ptr_type_iterator<T> range_to_ptr_type(T* pointer)
    {
-      static std::size_t insert_count = 0;
-      return (range_to_ptr_type_iterator<T>(pointer,insert_count));
+      return (range_to_ptr_type_iterator<T>(pointer));
    }
 
    template <typename T>
-- 
2.43.0


From e962aaaaeee8cd837985b46e9081821fcdca70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:23 +0000
Subject: [PATCH 109/113] fix: a prefix tree gives back its nodes when memory
 runs out

---
 strtk.hpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 14785c5..4cbef1a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19959,21 +19959,37 @@ namespace strtk
 
             inline void add_node(node_ptr n)
             {
-               node_list_.push_back(n);
+               try
+               {
+                  node_list_.push_back(n);
+               }
+               catch (...)
+               {
+                  delete n;
+                  throw;
+               }
             }
 
             inline node_ptr clone() const
             {
                node_ptr n = new node_t(key_value_);
 
-               if (value_holder_)
+               try
                {
-                  n->assign_value(value_);
-               }
+                  if (value_holder_)
+                  {
+                     n->assign_value(value_);
+                  }
 
-               for (std::size_t i = 0; i < node_list_.size(); ++i)
+                  for (std::size_t i = 0; i < node_list_.size(); ++i)
+                  {
+                     n->add_node(node_list_[i]->clone());
+                  }
+               }
+               catch (...)
                {
-                  n->add_node(node_list_[i]->clone());
+                  delete n;
+                  throw;
                }
 
                return n;
-- 
2.43.0


From 7253c9e8c6a56d0f51f461eaf0fa06b55713a0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:44 +0000
Subject: [PATCH 110/113] fix: bloom filters survive a failing allocation

---
 strtk.hpp | 129 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 85 insertions(+), 44 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4cbef1a..5785ced 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20418,6 +20418,9 @@ namespace strtk
          {
             if (this != &f)
             {
+               std::vector<bloom_type> salt(f.salt_);
+               cell_type* bit_table     = new cell_type[static_cast<std::size_t>(f.raw_table_size_)];
+               std::copy(f.bit_table_, f.bit_table_ + f.raw_table_size_, bit_table);
                salt_count_              = f.salt_count_;
                table_size_              = f.table_size_;
                raw_table_size_          = f.raw_table_size_;
@@ -20426,9 +20429,8 @@ namespace strtk
                random_seed_             = f.random_seed_;
                desired_false_positive_probability_ = f.desired_false_positive_probability_;
                delete[] bit_table_;
-               bit_table_               = new cell_type[static_cast<std::size_t>(raw_table_size_)];
-               std::copy(f.bit_table_, f.bit_table_ + raw_table_size_, bit_table_);
-               salt_                    = f.salt_;
+               bit_table_               = bit_table;
+               salt_.swap(salt);
             }
             return *this;
          }
@@ -20633,8 +20635,8 @@ namespace strtk
             std::ofstream ostream(file_name.c_str(),std::ios::binary);
             if (!ostream)
                return false;
-            unsigned char* buffer = new unsigned char[buffer_size];
-            strtk::binary::writer writer(buffer,buffer_size);
+            std::vector<unsigned char> buffer(buffer_size);
+            strtk::binary::writer writer(&buffer[0],buffer_size);
             writer.reset(true);
             bool result = writer(salt_count_)                         &&
                           writer(table_size_)                         &&
@@ -20650,7 +20652,6 @@ namespace strtk
                writer(ostream);
             }
             ostream.close();
-            delete[] buffer;
             return result && !ostream.fail();
          }
 
@@ -20661,46 +20662,44 @@ namespace strtk
             if (!istream)
                return false;
 
-            salt_count_                         = 0;
-            table_size_                         = 0;
-            raw_table_size_                     = 0;
-            projected_element_count_            = 0;
-            inserted_element_count_             = 0;
-            random_seed_                        = 0;
-            desired_false_positive_probability_ = 0.0;
-            salt_.clear();
-
-            if (0 != bit_table_)
-               delete [] bit_table_;
-
-            bit_table_= 0;
+            discard();
             const std::size_t buffer_size = strtk::fileio::file_size(file_name);
             unsigned char* buffer = new unsigned char[buffer_size];
+            bool result = false;
 
-            strtk::binary::reader reader(buffer,buffer_size);
-            reader.reset(true);
-            const bool read_result = reader(istream,buffer_size);
-            istream.close();
-
-            bool result = read_result                                 &&
-                          reader(salt_count_)                         &&
-                          reader(table_size_)                         &&
-                          reader(raw_table_size_)                     &&
-                          reader(projected_element_count_)            &&
-                          reader(inserted_element_count_)             &&
-                          reader(random_seed_)                        &&
-                          reader(desired_false_positive_probability_) &&
-                          reader(salt_)                               &&
-                          reader(bit_table_,raw_table_size_)          &&
-                          (salt_.size() == salt_count_)               &&
-                          (0 != table_size_)                          &&
-                          (raw_table_size_ == ((table_size_ / bits_per_char) + ((0 != (table_size_ % bits_per_char)) ? 1 : 0)));
+            try
+            {
+               strtk::binary::reader reader(buffer,buffer_size);
+               reader.reset(true);
+               const bool read_result = reader(istream,buffer_size);
+               istream.close();
+
+               result = read_result                                 &&
+                        reader(salt_count_)                         &&
+                        reader(table_size_)                         &&
+                        reader(raw_table_size_)                     &&
+                        reader(projected_element_count_)            &&
+                        reader(inserted_element_count_)             &&
+                        reader(random_seed_)                        &&
+                        reader(desired_false_positive_probability_) &&
+                        reader(salt_)                               &&
+                        reader(bit_table_,raw_table_size_)          &&
+                        (salt_.size() == salt_count_)               &&
+                        (0 != table_size_)                          &&
+                        (raw_table_size_ == ((table_size_ / bits_per_char) + ((0 != (table_size_ % bits_per_char)) ? 1 : 0)));
+            }
+            catch (...)
+            {
+               delete[] buffer;
+               discard();
+               throw;
+            }
 
             delete[] buffer;
 
             if (!result)
             {
-               operator=(filter());
+               discard();
             }
 
             return result;
@@ -20713,6 +20712,21 @@ namespace strtk
 
       protected:
 
+         inline void discard()
+         {
+            salt_count_                         = 0;
+            table_size_                         = 0;
+            raw_table_size_                     = 0;
+            projected_element_count_            = 0;
+            inserted_element_count_             = 0;
+            random_seed_                        = 0;
+            desired_false_positive_probability_ = 0.0;
+            salt_.clear();
+
+            delete[] bit_table_;
+            bit_table_ = 0;
+         }
+
          inline virtual bool compatible(const filter& f) const
          {
             return (salt_count_     == f.salt_count_    ) &&
@@ -20897,6 +20911,20 @@ namespace strtk
             size_list.push_back(table_size_);
          }
 
+         compressible_filter(const compressible_filter& f)
+         : filter(f),
+           size_list(f.size_list)
+         {}
+
+         inline compressible_filter& operator = (const compressible_filter& f)
+         {
+            std::vector<unsigned long long int> new_size_list(f.size_list);
+            filter::operator=(f);
+            size_list.swap(new_size_list);
+
+            return *this;
+         }
+
          inline virtual unsigned long long int size() const
          {
             return size_list.back();
@@ -20918,9 +20946,10 @@ namespace strtk
                return false;
             }
 
-            desired_false_positive_probability_ = effective_fpp();
+            size_list.reserve(size_list.size() + 1);
             const std::size_t new_raw_size = static_cast<std::size_t>(new_table_size / bits_per_char);
             cell_type* tmp = new cell_type[new_raw_size];
+            desired_false_positive_probability_ = effective_fpp();
             std::copy(bit_table_, bit_table_ + new_raw_size, tmp);
 
             for (std::size_t i = new_raw_size; i < raw_table_size_; ++i)
@@ -20938,14 +20967,26 @@ namespace strtk
 
          inline bool read_from_file(const std::string& file_name)
          {
-            const bool result = filter::read_from_file(file_name);
-
-            if (result || (0 == table_size_))
+            try
             {
-               size_list.assign(1,table_size_);
+               const bool result = filter::read_from_file(file_name);
+
+               if (result || (0 == table_size_))
+               {
+                  size_list.assign(1,table_size_);
+               }
+
+               return result;
             }
+            catch (...)
+            {
+               if (0 == table_size_)
+               {
+                  size_list.assign(1,table_size_);
+               }
 
-            return result;
+               throw;
+            }
          }
 
       private:
-- 
2.43.0


From 1abe35a484acdf90e2cb95da05d5fac14e081432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:32 +0000
Subject: [PATCH 111/113] fix: a delimiter set gives its storage back when
 copying a delimiter fails

---
 strtk.hpp | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5785ced..24b5d68 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1047,7 +1047,7 @@ namespace strtk
         delimiter_((length_ <= sbo_buffer_size) ? sbo_buffer : new T[length_]),
         delimiter_end_(delimiter_ + length_)
       {
-         std::copy(d_begin,d_end, delimiter_);
+         assign(d_begin,d_end);
       }
 
       multiple_delimiter_predicate(const T d[], const std::size_t& length)
@@ -1055,7 +1055,7 @@ namespace strtk
         delimiter_((length_ <= sbo_buffer_size) ? sbo_buffer : new T[length_]),
         delimiter_end_(delimiter_ + length_)
       {
-         std::copy(d,d + length, delimiter_);
+         assign(d,d + length);
       }
 
       template <typename Iterator>
@@ -1065,7 +1065,7 @@ namespace strtk
         delimiter_end_(delimiter_ + length_)
       {
          //static_assert(T == std::iterator_traits<Iterator>::value_type);
-         std::copy(begin,end, delimiter_);
+         assign(begin,end);
       }
 
       template <typename Type>
@@ -1075,15 +1075,12 @@ namespace strtk
         delimiter_end_(delimiter_ + length_)
       {
          //static_assert(T == std::iterator_traits<Iterator>::value_type);
-         std::copy(r.begin(),r.end(), delimiter_);
+         assign(r.begin(),r.end());
       }
 
      ~multiple_delimiter_predicate()
       {
-         if (length_ > sbo_buffer_size)
-         {
-            delete[] delimiter_;
-         }
+         release();
       }
 
       inline bool operator()(const T& d) const
@@ -1093,6 +1090,28 @@ namespace strtk
 
    private:
 
+      template <typename Iterator>
+      inline void assign(const Iterator begin, const Iterator end)
+      {
+         try
+         {
+            std::copy(begin, end, delimiter_);
+         }
+         catch (...)
+         {
+            release();
+            throw;
+         }
+      }
+
+      inline void release()
+      {
+         if (length_ > sbo_buffer_size)
+         {
+            delete[] delimiter_;
+         }
+      }
+
       multiple_delimiter_predicate(const multiple_delimiter_predicate<T>& mdp);
       multiple_delimiter_predicate& operator=(const multiple_delimiter_predicate<T>& mdp);
 
-- 
2.43.0


From b3df1b0837329d26f5e5ca6124ea1d3a04cde3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:46 +0000
Subject: [PATCH 112/113] fix: a token grid whose loading runs out of memory is
 empty

---
 strtk.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 24b5d68..392d7f1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7399,6 +7399,8 @@ namespace strtk
          buffer_size_      = 0;
          min_column_count_ = 0;
          max_column_count_ = 0;
+         state_            = false;
+         dsv_index_.clear();
          options_          = options;
          load_from_file_   = true;
          state_            = load();
@@ -7433,6 +7435,8 @@ namespace strtk
 
          min_column_count_ = 0;
          max_column_count_ = 0;
+         state_            = false;
+         dsv_index_.clear();
          options_          = options;
          load_from_file_   = false;
          buffer_           = buffer;
@@ -7553,6 +7557,26 @@ namespace strtk
       };
 
       inline bool load()
+      {
+         try
+         {
+            return load_tokens();
+         }
+         catch (...)
+         {
+            if (load_from_file_)
+               delete[] buffer_;
+
+            buffer_           = 0;
+            buffer_size_      = 0;
+            min_column_count_ = 0;
+            max_column_count_ = 0;
+            dsv_index_.clear();
+            throw;
+         }
+      }
+
+      inline bool load_tokens()
       {
          dsv_index_.token_list.clear();
          dsv_index_.row_index.clear();
-- 
2.43.0


From 7337697d4ab4d2b7f18e6ecef10a6c7d9dbd1911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:41 +0000
Subject: [PATCH 113/113] fix: a predicate that throws while grid rows or
 tokens are removed leaves the grid as it was

---
 strtk.hpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 392d7f1..e53ca14 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6812,10 +6812,11 @@ namespace strtk
 
          std::deque<std::size_t> remove_token_list;
          std::deque<std::size_t> remove_row_list;
+         row_index_t row_index(dsv_index_.row_index);
 
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
-            row_index_range_t& r = dsv_index_.row_index[i];
+            row_index_range_t& r = row_index[i];
             std::size_t temp_r_first = r.first - removed_token_count;
             row_type row(i,dsv_index_);
 
@@ -6835,9 +6836,9 @@ namespace strtk
             r.second -= static_cast<unsigned int>(removed_token_count);
          }
 
-         for (std::size_t i = row_range.second; i < dsv_index_.row_index.size(); ++i)
+         for (std::size_t i = row_range.second; i < row_index.size(); ++i)
          {
-            row_index_range_t& r = dsv_index_.row_index[i];
+            row_index_range_t& r = row_index[i];
 
             r.first  -= static_cast<unsigned int>(removed_token_count);
             r.second -= static_cast<unsigned int>(removed_token_count);
@@ -6845,12 +6846,18 @@ namespace strtk
 
          if (!remove_row_list.empty())
          {
-            remove_inplace(index_remover(remove_row_list),dsv_index_.row_index);
+            remove_inplace(index_remover(remove_row_list),row_index);
          }
 
          if (!remove_token_list.empty())
          {
             remove_inplace(index_remover(remove_token_list),dsv_index_.token_list);
+         }
+
+         dsv_index_.row_index.swap(row_index);
+
+         if (!remove_token_list.empty())
+         {
             update_minmax_columns();
          }
 
@@ -6872,10 +6879,11 @@ namespace strtk
          std::size_t removed_token_count = 0;
          std::deque<std::size_t> remove_token_list;
          std::deque<std::size_t> remove_row_list;
+         row_index_t row_index(dsv_index_.row_index);
 
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
-            row_index_range_t& r = dsv_index_.row_index[i];
+            row_index_range_t& r = row_index[i];
             std::size_t temp_r_first = r.first - removed_token_count;
             row_type row(i,dsv_index_);
 
@@ -6897,16 +6905,16 @@ namespace strtk
             }
          }
 
-         for (std::size_t i = row_range.second; i < dsv_index_.row_index.size(); ++i)
+         for (std::size_t i = row_range.second; i < row_index.size(); ++i)
          {
-            row_index_range_t& r = dsv_index_.row_index[i];
+            row_index_range_t& r = row_index[i];
             r.first  -= static_cast<unsigned int>(removed_token_count);
             r.second -= static_cast<unsigned int>(removed_token_count);
          }
 
          if (!remove_row_list.empty())
          {
-            remove_inplace(index_remover(remove_row_list),dsv_index_.row_index);
+            remove_inplace(index_remover(remove_row_list),row_index);
          }
 
          if (!remove_token_list.empty())
@@ -6914,6 +6922,8 @@ namespace strtk
             remove_inplace(index_remover(remove_token_list),dsv_index_.token_list);
          }
 
+         dsv_index_.row_index.swap(row_index);
+
          if (!remove_token_list.empty())
          {
             update_minmax_columns();
-- 
2.43.0


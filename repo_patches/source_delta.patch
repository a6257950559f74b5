From cad6a4d48990101e2f3754f21a225e2a2d26b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:21 +0000
Subject: [PATCH 01/27] fix: base64_valid() accepted '=' anywhere in the string

Padding is only valid as the last one or two characters; strings such as
'A=AA' or '====' were reported valid and then decoded to garbage (or
tripped the decoder's assertions).
---
 src/c4/base64.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 7f8b339..6a35d63 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -98,12 +98,18 @@ bool base64_valid(csubstr encoded)
 {
     if(encoded.len & 3u) // (encoded.len % 4u)
         return false;
-    for(const char c : encoded)
+    // padding is valid only in the last one or two characters
+    size_t num = encoded.len;
+    if(num && encoded.str[num - 1] == '=')
+    {
+        --num;
+        if(encoded.str[num - 1] == '=')
+            --num;
+    }
+    for(const char c : encoded.first(num))
     {
         if(c < 0/* || c >= 128*/)
             return false;
-        if(c == '=')
-            continue;
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
     }
-- 
2.43.0


From b655260103cf41772aeea479b811cb6195c2ba38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 02/27] fix: itoa() with radix wrote the sign to a too-small
 buffer

The documentation promises that no writes occur when the buffer is empty
or too small, but the '-' was written before checking the size.
---
 src/c4/charconv.hpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 41a513b..51e0373 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1009,9 +1009,7 @@ template<class I>
 C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
 {
     using digits_type = detail::charconv_digits<I>;
-    size_t pos = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
+    size_t pos = 1; // leave room for -
     switch(radix)
     {
     case I(10):
@@ -1041,16 +1039,15 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
         pos = _itoa2buf(buf, pos, digits_type::min_value_oct());
         break;
     }
+    buf.str[0] = '-';
     return pos;
 }
 template<class I>
 C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
 {
     using digits_type = detail::charconv_digits<I>;
-    size_t pos = 0;
+    size_t pos = 1; // leave room for -
     size_t needed_digits = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
     switch(radix)
     {
     case I(10):
@@ -1090,6 +1087,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         pos = _itoa2bufwithdigits(buf, pos, num_digits, digits_type::min_value_oct());
         break;
     }
+    buf.str[0] = '-';
     return pos;
 }
 } // namespace detail
@@ -1154,8 +1152,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned digits = 0;
@@ -1197,6 +1193,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
             digits += 2u;
             break;
         }
+        if(pos && C4_LIKELY(buf.len >= pos + digits))
+            buf.str[0] = '-';
         return pos + digits;
     }
     C4_SUPPRESS_WARNING_GCC_POP
@@ -1231,8 +1229,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned total_digits = 0;
@@ -1275,6 +1271,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             }
             break;
         }
+        if(pos && C4_LIKELY(buf.len >= total_digits))
+            buf.str[0] = '-';
         return total_digits;
     }
     C4_SUPPRESS_WARNING_GCC_POP
-- 
2.43.0


From 6f0d286c7a45106e6eea16a8822629ae92c36709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:00 +0000
Subject: [PATCH 03/27] fix: zero-padded write_dec/hex/oct/bin() wrote to a
 too-small buffer

When the number fitted but its zero-padded form did not, the unpadded
number was still written; the documentation promises no writes.
---
 src/c4/charconv.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 51e0373..79764c9 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -781,7 +781,8 @@ template<class T, NumberWriter<T> writer>
 size_t write_num_digits(substr buf, T v, size_t num_digits) noexcept
 {
     C4_STATIC_ASSERT(std::is_integral<T>::value);
-    size_t ret = writer(buf, v);
+    // do not write if the padded number does not fit
+    size_t ret = writer(num_digits <= buf.len ? buf : buf.first(0), v);
     if(ret >= num_digits)
         return ret;
     else if(ret >= buf.len || num_digits > buf.len)
-- 
2.43.0


From 8f7ab9b13ad7b067c7d66cf706ed9fa8ee47c8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:17 +0000
Subject: [PATCH 04/27] fix: substr left_of/right_of/offs returned views
 outside the string at pos==len

right_of(len) returned a view with length npos starting past the end,
left_of(len, true) returned a view one character longer than the string,
and offs() accepted left+right==len+1, returning a view with length npos.
---
 src/c4/substr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a1e4fc..63f948d 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -368,7 +368,7 @@ public:
     {
         C4_ASSERT(left  >= 0 && left  <= len);
         C4_ASSERT(right >= 0 && right <= len);
-        C4_ASSERT(left  <= len - right + 1);
+        C4_ASSERT(left  <= len - right);
         return basic_substring(str + left, len - right - left);
     }
 
@@ -385,7 +385,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring left_of(size_t pos, bool include_pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ?
             basic_substring(str, pos+include_pos) :
             *this;
     }
@@ -394,7 +394,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ?
             basic_substring(str + (pos + 1), len - (pos + 1)) :
             basic_substring(str + len, size_t(0));
     }
@@ -403,7 +403,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos, bool include_pos) const noexcept
     {
         C4_ASSERT(pos <= len || pos == npos);
-        return (pos != npos) ?
+        return (pos < len) ?
             basic_substring(str + (pos + !include_pos), len - (pos + !include_pos)) :
             basic_substring(str + len, size_t(0));
     }
-- 
2.43.0


From 561416a3bc8c48d2762799ede84162596b2c4d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:44 +0000
Subject: [PATCH 05/27] fix: substr::compare(char) truncated the length to int

A string with length 2^32+1 compared equal to its first character, and
one with length 2^31 or more compared less than it.
---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 63f948d..b25bccc 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -229,7 +229,7 @@ public:
     {
         C4_XASSERT((str != nullptr) || len == 0);
         if(C4_LIKELY(str != nullptr && len > 0))
-            return (*str != c) ? *str - c : (static_cast<int>(len) - 1);
+            return (*str != c) ? *str - c : static_cast<int>(len > 1);
         else
             return -1;
     }
-- 
2.43.0


From 21984db443d2cda9d79a695b96baa57ed79f6d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:12 +0000
Subject: [PATCH 06/27] fix: substr::count() of an empty string never returned

---
 src/c4/substr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index b25bccc..8a50823 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -578,6 +578,8 @@ public:
     inline size_t count(ro_substr c, size_t pos=0) const
     {
         C4_ASSERT(pos >= 0 && pos <= len);
+        if(c.len == 0)
+            return len - pos + 1; // find() matches the empty string at every position
         size_t num = 0;
         pos = find(c, pos);
         while(pos != npos)
-- 
2.43.0


From 7b0d4ecb0bc7e43f9cc3b5b92b7fa0ae037fc965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:41 +0000
Subject: [PATCH 07/27] fix: substr::replace_all() with pos==npos copied out of
 bounds

---
 src/c4/substr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 8a50823..e382d9a 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -2146,6 +2146,7 @@ public:
                 sz += num;                                              \
             }
         size_t sz = 0;
+        pos = pos != npos ? pos : len;
         size_t b = pos;
         _c4append(str, str + pos);
         do {
-- 
2.43.0


From 26161b5bf962b5ea1683fa2a80c54e654b266f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:15 +0000
Subject: [PATCH 08/27] fix: overflows<signed>("-") must not read past the end
 of the string

---
 src/c4/charconv.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 79764c9..f1353c0 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1720,6 +1720,8 @@ auto overflows(csubstr str)
         return false;
     if(str.str[0] == '-')
     {
+        if(C4_UNLIKELY(str.len == 1))
+            return false;
         if(str.str[1] == '0')
         {
             if(str.len == 2)
-- 
2.43.0


From d4dee27638d678b04f2f23336ddac91b8e0562e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:39 +0000
Subject: [PATCH 09/27] fix: atoi_first() must fail and not assert when the
 number starts with '+'

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index f1353c0..9c59ee8 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1508,7 +1508,7 @@ template<class T>
 C4_ALWAYS_INLINE size_t atoi_first(csubstr str, T * C4_RESTRICT v)
 {
     csubstr trimmed = str.first_int_span();
-    if(trimmed.len == 0)
+    if(trimmed.len == 0 || trimmed.str[0] == '+') // atoi() does not accept a positive sign
         return csubstr::npos;
     if(atoi(trimmed, v))
         return static_cast<size_t>(trimmed.end() - str.begin());
-- 
2.43.0


From 843ad7116da1e58265e9ad1fb60ef1d36af01a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:04 +0000
Subject: [PATCH 10/27] fix: from_chars_first() for pointers must report
 failure and the number of characters read

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 9c59ee8..3f7026f 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2403,7 +2403,7 @@ C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf,   double *C4_RESTRICT v) n
 template <class T> _C4_IF_NOT_FIXED_LENGTH_I(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atoi_first(buf, v); }
 template <class T> _C4_IF_NOT_FIXED_LENGTH_U(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atou_first(buf, v); }
 template <class T>
-C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; bool ret = from_chars_first(buf, &tmp); if(ret) { *v = (T*)tmp; } return ret; }
+C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; size_t ret = from_chars_first(buf, &tmp); if(ret != csubstr::npos) { *v = (T*)tmp; } return ret; }
 
 /** @} */
 
-- 
2.43.0


From e6151beba695e59333f24e568dfe928a19259af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:31 +0000
Subject: [PATCH 11/27] fix: from_chars_first(bool) must read only the first
 token, and count leading whitespace

---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 3f7026f..e0e0f55 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2492,9 +2492,9 @@ inline bool from_chars(csubstr buf, bool * C4_RESTRICT v) noexcept
 inline size_t from_chars_first(csubstr buf, bool * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
-    if(trimmed.len == 0 || !from_chars(buf, v))
+    if(trimmed.len == 0 || !from_chars(trimmed, v))
         return csubstr::npos;
-    return trimmed.len;
+    return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
 
-- 
2.43.0


From 269743367d8f57fc1600a86c0f5fb52ad68e76fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:55 +0000
Subject: [PATCH 12/27] fix: from_chars_first(raw_wrapper) must return the
 number of characters read

---
 src/c4/format.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 519c2a4..6b9ee49 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -478,13 +478,17 @@ inline bool from_chars(csubstr buf, fmt::raw_wrapper r)
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper *r)
 {
-    return from_chars(buf, r);
+    if(!from_chars(buf, r))
+        return csubstr::npos;
+    // the data starts at the first aligned position in the buffer
+    const size_t misalignment = reinterpret_cast<uintptr_t>(buf.str) & (r->alignment - 1);
+    return (misalignment ? r->alignment - misalignment : 0) + r->len;
 }
 /** read a variable in raw binary format, using memcpy
  * @ingroup doc_from_chars_first */
 inline size_t from_chars_first(csubstr buf, fmt::raw_wrapper r)
 {
-    return from_chars(buf, &r);
+    return from_chars_first(buf, &r);
 }
 
 
-- 
2.43.0


From 2a80bc169fb28e9e805a11e42a9e12b073692ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:18 +0000
Subject: [PATCH 13/27] fix: fmt::left()/right() must not write past the buffer
 when it is smaller than the width

---
 src/c4/format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 6b9ee49..6121199 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -549,7 +549,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(align.width > buf.len || ret >= align.width)
         return ret > align.width ? ret : align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
     to_chars(buf, align.val);
@@ -561,7 +561,7 @@ template<class T>
 size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
+    if(align.width > buf.len || ret >= align.width)
         return ret > align.width ? ret : align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
     buf.first(rem).fill(align.pad);
-- 
2.43.0


From 6098174ef75559db3a92a94b040dda81a79a0075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:29 +0000
Subject: [PATCH 14/27] fix: cat_dump_resume() must not dump arguments after
 one that does not fit: they were dumped again when resuming

---
 src/c4/dump.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index c65623f..f37054a 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -168,6 +168,8 @@ template<DumperPfn dumpfn, class Arg, class... Args>
 DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
 {
     results = detail::cat_dump_resume<dumpfn>(currarg, results, buf, a);
+    if(C4_UNLIKELY(results.write_arg(currarg)))
+        buf.len = 0; // the argument was not written; ensure no more calls to dump
     return detail::cat_dump_resume<dumpfn>(currarg + 1u, results, buf, more...);
 }
 
@@ -175,6 +177,8 @@ template<class DumperFn, class Arg, class... Args>
 DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults results, substr buf, Arg const& C4_RESTRICT a, Args const& C4_RESTRICT ...more)
 {
     results = detail::cat_dump_resume(currarg, dumpfn, results, buf, a);
+    if(C4_UNLIKELY(results.write_arg(currarg)))
+        buf.len = 0; // the argument was not written; ensure no more calls to dump
     return detail::cat_dump_resume(currarg + 1u, dumpfn, results, buf, more...);
 }
 } // namespace detail
-- 
2.43.0


From 3f928c1e56fce3969117f81af0ba038888a30cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:34 +0000
Subject: [PATCH 15/27] fix: *_dump_resume() must not take a string argument
 for dumped when the buffer is empty: it and the failed arguments before it
 were lost

---
 src/c4/dump.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index f37054a..03e3805 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -143,7 +143,7 @@ DumpResults cat_dump_resume(size_t currarg, DumpResults results, substr buf, Arg
     if(C4_LIKELY(results.write_arg(currarg)))
     {
         size_t sz = dump<dumpfn>(buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        if(currarg == results.lastok + 1 && sz <= buf.len && buf.len > 0)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
@@ -157,7 +157,7 @@ DumpResults cat_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults resul
     if(C4_LIKELY(results.write_arg(currarg)))
     {
         size_t sz = dump(dumpfn, buf, a);  // yield to the specialized function
-        if(currarg == results.lastok + 1 && sz <= buf.len)
+        if(currarg == results.lastok + 1 && sz <= buf.len && buf.len > 0)
             results.lastok = currarg;
         results.bufsize = sz > results.bufsize ? sz : results.bufsize;
     }
@@ -284,7 +284,7 @@ void catsep_dump_resume_(size_t currarg, DumpResults *C4_RESTRICT results, subst
     {
         size_t sz = dump<dumpfn>(*buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(sz <= buf->len && buf->len > 0)) // strings are not dumped to an empty buffer
             results->lastok = currarg;
         else
             buf->len = 0;
@@ -298,7 +298,7 @@ void catsep_dump_resume_(size_t currarg, DumperFn &&dumpfn, DumpResults *C4_REST
     {
         size_t sz = dump(dumpfn, *buf, a);
         results->bufsize = sz > results->bufsize ? sz : results->bufsize;
-        if(C4_LIKELY(sz <= buf->len))
+        if(C4_LIKELY(sz <= buf->len && buf->len > 0)) // strings are not dumped to an empty buffer
             results->lastok = currarg;
         else
             buf->len = 0;
@@ -508,7 +508,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
     {
         pos = dump<dumpfn>(buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(pos <= buf.len && buf.len > 0)) // strings are not dumped to an empty buffer
             results.lastok = currarg + 1;
         else
             buf.len = 0;
@@ -548,7 +548,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
     {
         pos = dump(dumpfn, buf, a);
         results.bufsize = pos > results.bufsize ? pos : results.bufsize;
-        if(C4_LIKELY(pos <= buf.len))
+        if(C4_LIKELY(pos <= buf.len && buf.len > 0)) // strings are not dumped to an empty buffer
             results.lastok = currarg + 1;
         else
             buf.len = 0;
-- 
2.43.0


From e41171cff3b85f15b40f195c01dd23e1ad79e5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:38 +0000
Subject: [PATCH 16/27] fix: resuming a completed format_dump_resume() must not
 dump the end of the format again, nor assert

---
 src/c4/dump.hpp | 48 ++++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/src/c4/dump.hpp b/src/c4/dump.hpp
index 03e3805..6c500fc 100644
--- a/src/c4/dump.hpp
+++ b/src/c4/dump.hpp
@@ -457,7 +457,7 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -470,7 +470,7 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
 {
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(buf.len > 0))
+    if(C4_LIKELY(buf.len > 0 && results.write_arg(currarg)))
     {
         dumpfn(fmt);
         results.lastok = currarg;
@@ -486,22 +486,20 @@ DumpResults format_dump_resume(size_t currarg, DumpResults results, substr buf,
     size_t pos = fmt.find("{}"); // @todo use _find_fmt()
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(results.write_arg(currarg)))
+    const bool write = buf.len > 0 && results.write_arg(currarg);
+    if(C4_UNLIKELY(pos == csubstr::npos))
     {
-        if(C4_UNLIKELY(pos == csubstr::npos))
-        {
-            if(C4_LIKELY(buf.len > 0))
-            {
-                results.lastok = currarg;
-                dumpfn(fmt);
-            }
-            return results;
-        }
-        if(C4_LIKELY(buf.len > 0))
+        if(C4_LIKELY(write))
         {
             results.lastok = currarg;
-            dumpfn(fmt.first(pos));
+            dumpfn(fmt);
         }
+        return results;
+    }
+    if(C4_LIKELY(write))
+    {
+        results.lastok = currarg;
+        dumpfn(fmt.first(pos));
     }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
@@ -526,22 +524,20 @@ DumpResults format_dump_resume(size_t currarg, DumperFn &&dumpfn, DumpResults re
     size_t pos = fmt.find("{}"); // @todo use _find_fmt()
     // we can dump without using buf
     // but we'll only dump if the buffer is ok
-    if(C4_LIKELY(results.write_arg(currarg)))
+    const bool write = buf.len > 0 && results.write_arg(currarg);
+    if(C4_UNLIKELY(pos == csubstr::npos))
     {
-        if(C4_UNLIKELY(pos == csubstr::npos))
-        {
-            if(C4_LIKELY(buf.len > 0))
-            {
-                results.lastok = currarg;
-                dumpfn(fmt);
-            }
-            return results;
-        }
-        if(C4_LIKELY(buf.len > 0))
+        if(C4_LIKELY(write))
         {
             results.lastok = currarg;
-            dumpfn(fmt.first(pos));
+            dumpfn(fmt);
         }
+        return results;
+    }
+    if(C4_LIKELY(write))
+    {
+        results.lastok = currarg;
+        dumpfn(fmt.first(pos));
     }
     fmt = fmt.sub(pos + 2);
     if(C4_LIKELY(results.write_arg(currarg + 1)))
-- 
2.43.0


From e29e3cbedba1d033243789c36addde521693c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:02:38 +0000
Subject: [PATCH 17/27] fix: unformat() must fail when the buffer ends before
 the format's text, and not return more characters than the buffer has

---
 src/c4/format.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 6121199..8d02cbd 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -853,9 +853,9 @@ substr format_sub(substr buf, csubstr fmt, Args const& C4_RESTRICT ...args)
 
 /// @cond dev
 // terminates the variadic recursion
-inline size_t unformat(csubstr /*buf*/, csubstr fmt)
+inline size_t unformat(csubstr buf, csubstr fmt)
 {
-    return fmt.len;
+    return fmt.len <= buf.len ? fmt.len : csubstr::npos;
 }
 /// @endcond
 
@@ -872,7 +872,9 @@ size_t unformat(csubstr buf, csubstr fmt, Arg & C4_RESTRICT a, Args & C4_RESTRIC
         return unformat(buf, fmt);
     size_t num = pos;
     size_t out = num;
-    buf  = buf.len >= num ? buf.sub(num) : substr{};
+    if(C4_UNLIKELY(buf.len < num))
+        return csubstr::npos;
+    buf  = buf.sub(num);
     num  = from_chars_first(buf, &a);
     if(C4_UNLIKELY(num == csubstr::npos))
         return csubstr::npos;
-- 
2.43.0


From 5a3d705d929168e5ca064fb15367416d4f9cdc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:48 +0000
Subject: [PATCH 18/27] fix: blob: return *this from the converting assignments

---
 src/c4/blob.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/blob.hpp b/src/c4/blob.hpp
index 76a1d9e..542e8f9 100644
--- a/src/c4/blob.hpp
+++ b/src/c4/blob.hpp
@@ -39,8 +39,8 @@ public:
 
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U> const& that) noexcept : buf(that.buf), len(that.len) {}
     template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_(blob_<U>     && that) noexcept : buf(that.buf), len(that.len) {}
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; }
-    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U>     && that) noexcept { buf = that.buf; len = that.len; return *this; }
+    template<class U, class=typename std::enable_if<std::is_const<T>::value && std::is_same<typename std::add_const<U>::type, T>::value, U>::type> C4_ALWAYS_INLINE blob_& operator=(blob_<U> const& that) noexcept { buf = that.buf; len = that.len; return *this; }
 
     C4_ALWAYS_INLINE blob_(void       *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
     C4_ALWAYS_INLINE blob_(void const *ptr, size_t n) noexcept : buf(reinterpret_cast<T*>(ptr)), len(n) {}
-- 
2.43.0


From 229fe859feb844bcbe4b3cb6113f27fd1cafb611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:13 +0000
Subject: [PATCH 19/27] fix: single-chunk memory resources: acquire()/release()
 of a live object use the underlying resource and do not leak

---
 src/c4/memory_resource.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 891c373..72de4b4 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -166,7 +166,8 @@ void detail::_MemoryResourceSingleChunk::release()
 {
     if(m_mem && m_owner)
     {
-        impl_type::deallocate(m_mem, m_size);
+        // no virtual dispatch: the memory goes back to where it came from
+        impl_type::do_deallocate(m_mem, m_size, alignof(max_align_t));
     }
     m_mem = nullptr;
     m_size = 0;
@@ -176,16 +177,17 @@ void detail::_MemoryResourceSingleChunk::release()
 
 void detail::_MemoryResourceSingleChunk::acquire(size_t sz)
 {
-    clear();
+    release();
     m_owner = true;
-    m_mem = (char*) impl_type::allocate(sz, alignof(max_align_t));
+    // no virtual dispatch: the memory does not come from this resource
+    m_mem = (char*) impl_type::do_allocate(sz, alignof(max_align_t), nullptr);
     m_size = sz;
     m_pos = 0;
 }
 
 void detail::_MemoryResourceSingleChunk::acquire(void *mem, size_t sz)
 {
-    clear();
+    release();
     m_owner = false;
     m_mem = (char*) mem;
     m_size = sz;
-- 
2.43.0


From 159ffb14965e3d8478be127dad95e31709ed9328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:15 +0000
Subject: [PATCH 20/27] fix: MemoryResourceLinear: reallocating to a huge size
 does not overflow the check for room

---
 src/c4/memory_resource.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 72de4b4..6620535 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -249,7 +249,7 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
         return ptr;
     }
     // we're growing the block, and it fits in size
-    else if(same_pos && cptr + newsz <= m_mem + m_size)
+    else if(same_pos && newsz - oldsz <= m_size - m_pos)
     {
         // if this is the MRA, we can safely shrink the position
         m_pos += newsz - oldsz;
-- 
2.43.0


From ad127c9e4ac8803ff65b36ca4b7c34cbc2491307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:17 +0000
Subject: [PATCH 21/27] fix: MemoryResourceLinear: reallocating a block which
 cannot grow in place keeps its contents

---
 src/c4/memory_resource.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/c4/memory_resource.cpp b/src/c4/memory_resource.cpp
index 6620535..9a407fc 100644
--- a/src/c4/memory_resource.cpp
+++ b/src/c4/memory_resource.cpp
@@ -257,7 +257,11 @@ void* MemoryResourceLinear::do_reallocate(void* ptr, size_t oldsz, size_t newsz,
     }
     // we're growing the block or it doesn't fit -
     // delegate any of these situations to do_deallocate()
-    return do_allocate(newsz, alignment, ptr);
+    void *mem = do_allocate(newsz, alignment, ptr);
+    // the block moved: take its contents along
+    if(mem != nullptr && oldsz != 0)
+        ::memcpy(mem, ptr, oldsz);
+    return mem;
 }
 
 
-- 
2.43.0


From f73453b742561f9aadd3deeb66de606a9f826ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:55 +0000
Subject: [PATCH 22/27] fix: ScopedMemoryResourceCounts restores the memory
 resource which was in place

---
 src/c4/memory_resource.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/c4/memory_resource.hpp b/src/c4/memory_resource.hpp
index 0818f58..985eece 100644
--- a/src/c4/memory_resource.hpp
+++ b/src/c4/memory_resource.hpp
@@ -547,19 +547,20 @@ struct ScopedMemoryResource
  * @ingroup memory_resources */
 struct ScopedMemoryResourceCounts
 {
+    MemoryResource *m_original;
     MemoryResourceCounts mr;
 
-    ScopedMemoryResourceCounts() : mr()
+    ScopedMemoryResourceCounts() : m_original(get_memory_resource()), mr()
     {
         set_memory_resource(&mr);
     }
-    ScopedMemoryResourceCounts(MemoryResource *m) : mr(m)
+    ScopedMemoryResourceCounts(MemoryResource *m) : m_original(get_memory_resource()), mr(m)
     {
         set_memory_resource(&mr);
     }
     ~ScopedMemoryResourceCounts()
     {
-        set_memory_resource(mr.resource());
+        set_memory_resource(m_original);
     }
 };
 
-- 
2.43.0


From a3d269bb29f769386cc76ffd4c20b40eeb1cdd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:43 +0000
Subject: [PATCH 23/27] fix: SmallAllocator: blocks in the embedded storage do
 not overlap, are aligned, and are reallocated with their contents

---
 src/c4/allocator.hpp | 45 ++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/src/c4/allocator.hpp b/src/c4/allocator.hpp
index e345966..e4269ea 100644
--- a/src/c4/allocator.hpp
+++ b/src/c4/allocator.hpp
@@ -272,7 +272,13 @@ class SmallAllocator : public detail::_AllocatorUtil<MemResProvider>
     using impl_type = detail::_AllocatorUtil<MemResProvider>;
 
     alignas(Alignment) char m_arr[N * sizeof(T)];
-    size_t m_num{0};
+    size_t m_num{0}; // number of objects held in m_arr
+    size_t m_pos{0}; // end of the last block held in m_arr
+
+    bool _in_arr(T const* ptr) const
+    {
+        return (char const*)ptr >= m_arr && (char const*)ptr < m_arr + sizeof(m_arr);
+    }
 
 public:
 
@@ -335,26 +341,33 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        void *vmem;
-        if(m_num + num_objs <= N)
+        void *vmem = m_arr + m_pos;
+        size_t space = sizeof(m_arr) - m_pos;
+        // (an empty block also needs an address inside the array)
+        if(num_objs <= N && std::align(alignment, num_objs ? num_objs * sizeof(T) : 1u, vmem, space))
         {
-            vmem = (m_arr + m_num * sizeof(T));
+            m_pos = (sizeof(m_arr) - space) + num_objs * sizeof(T);
+            m_num += num_objs;
         }
         else
         {
             vmem = this->resource()->allocate(num_objs * sizeof(T), alignment);
         }
-        m_num += num_objs;
         T *mem = static_cast<T*>(vmem);
         return mem;
     }
 
     void deallocate(T * ptr, size_t num_objs, size_t alignment=Alignment)
     {
-        C4_ASSERT(m_num >= num_objs);
-        m_num -= num_objs;
-        if((char*)ptr >= m_arr && (char*)ptr < m_arr + (N * sizeof(T)))
+        if(_in_arr(ptr))
         {
+            C4_ASSERT(m_num >= num_objs);
+            m_num -= num_objs;
+            // only the last block can be reused while others are held
+            if(m_num == 0)
+                m_pos = 0;
+            else if((char*)ptr + num_objs * sizeof(T) == m_arr + m_pos)
+                m_pos -= num_objs * sizeof(T);
             return;
         }
         C4_ASSERT(this->resource() != nullptr);
@@ -366,18 +379,14 @@ public:
     {
         C4_ASSERT(this->resource() != nullptr);
         C4_ASSERT(alignment >= alignof(T));
-        if(oldnum <= N && newnum <= N)
-        {
-            return m_arr;
-        }
-        else if(oldnum <= N && newnum > N)
-        {
-            return allocate(newnum, alignment);
-        }
-        else if(oldnum > N && newnum <= N)
+        if(_in_arr(ptr) || newnum <= N)
         {
+            T* nptr = allocate(newnum, alignment);
+            size_t num = oldnum < newnum ? oldnum : newnum;
+            if(num)
+                ::memcpy((void*)nptr, (void const*)ptr, num * sizeof(T));
             deallocate(ptr, oldnum, alignment);
-            return m_arr;
+            return nptr;
         }
         void* vmem = this->resource()->reallocate(ptr, oldnum * sizeof(T), newnum * sizeof(T), alignment);
         T* mem = static_cast<T*>(vmem);
-- 
2.43.0


From a2728df00511269a9e10a954409c3b178f15e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:55 +0000
Subject: [PATCH 24/27] fix: make_room()/destroy_room() of zero elements leave
 non-trivial elements alone

---
 src/c4/ctor_dtor.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/c4/ctor_dtor.hpp b/src/c4/ctor_dtor.hpp
index da832ba..f80b33e 100644
--- a/src/c4/ctor_dtor.hpp
+++ b/src/c4/ctor_dtor.hpp
@@ -318,7 +318,11 @@ template<class U, class I> C4_ALWAYS_INLINE typename std::enable_if< ! std::is_t
 make_room(U *buf, I bufsz, I room) C4_NOEXCEPT_A
 {
     C4_ASSERT(bufsz >= 0 && room >= 0);
-    if(room >= bufsz)
+    if(room == 0)
+    {
+        // nothing to do - the elements must not be constructed from themselves
+    }
+    else if(room >= bufsz)
     {
         for(I i = 0; i < bufsz; ++i)
         {
@@ -412,7 +416,11 @@ destroy_room(U *buf, I n, I room)
 {
     C4_ASSERT(n >= 0 && room >= 0);
     C4_ASSERT(room <= n);
-    if(room < n)
+    if(room == 0)
+    {
+        // nothing to do - the elements must not be assigned from themselves
+    }
+    else if(room < n)
     {
         for(I i = 0, e = n - room; i < e; ++i)
         {
-- 
2.43.0


From 623920a28456a93b08d88980f2bb4ca20fb8c180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:07 +0000
Subject: [PATCH 25/27] fix: EnumSymbols::find(name, len) matched any symbol
 whose name begins with the query

---
 src/c4/enum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/enum.hpp b/src/c4/enum.hpp
index ae12f51..1a4757d 100644
--- a/src/c4/enum.hpp
+++ b/src/c4/enum.hpp
@@ -240,7 +240,7 @@ bool EnumSymbols<Enum>::Sym::cmp(const char *s) const
 template<class Enum>
 bool EnumSymbols<Enum>::Sym::cmp(const char *s, size_t len) const
 {
-    if(strncmp(name, s, len) == 0)
+    if(strlen(name) == len && strncmp(name, s, len) == 0) // do not match prefixes of the name
         return true;
 
     size_t nlen = 0;
-- 
2.43.0


From 75be3a6717aff4baea496e32269bf89c4c25f052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:09 +0000
Subject: [PATCH 26/27] fix: str2bm() refused symbol names with digits, and
 hexadecimal digits a-f

---
 src/c4/bitmask.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index a4190d5..53284cd 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -269,7 +269,8 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         const char c = *pc;
         if((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_')
         {
-            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X'))); // accept hexadecimal numbers
+            C4_CHECK(( ! num) || ((pc - f) == 1 && (c == 'x' || c == 'X')) // accept hexadecimal numbers
+                     || ((pc - f) > 1 && (f[1] == 'x' || f[1] == 'X') && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))));
             if( ! started)
             {
                 f = pc;
@@ -278,8 +279,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c >= '0' && c <= '9')
         {
-            C4_CHECK( ! alnum);
-            if(!started)
+            if(!started) // names may have digits after the first character
             {
                 f = pc;
                 num = started = true;
-- 
2.43.0


From a21781522c69cbdf59a72feb5802a776692d1caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:11 +0000
Subject: [PATCH 27/27] fix: str2bm() read through a null pointer on an empty
 token in release builds

---
 src/c4/bitmask.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/bitmask.hpp b/src/c4/bitmask.hpp
index 53284cd..8932977 100644
--- a/src/c4/bitmask.hpp
+++ b/src/c4/bitmask.hpp
@@ -291,7 +291,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
         }
         else if(c == '|' || c == '\0')
         {
-            C4_ASSERT(num != alnum);
+            C4_CHECK(num != alnum);
             C4_ASSERT(pc >= f);
             val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
             started = num = alnum = false;
@@ -308,7 +308,7 @@ typename std::underlying_type<Enum>::type str2bm(const char *str, size_t sz)
 
     if(f)
     {
-        C4_ASSERT(num != alnum);
+        C4_CHECK(num != alnum);
         C4_ASSERT(pc >= f);
         val |= detail::str2bm_read_one<Enum>(f, static_cast<size_t>(pc-f), alnum);
     }
-- 
2.43.0


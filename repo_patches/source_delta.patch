From 5406ae271f6c4fd807b2f457c86065180b74695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:07 +0000
Subject: [PATCH 01/23] fix: accept lower case hexadecimal digits

The digits A-F and a-f are equivalent in percent-encoding triplets and in
IPv6 addresses (RFC 3986 2.1, 3.2.2), hex_digit() rejected a-f.
---
 include/boost/url/detail/char_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 7366d3b..f09e86d 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -59,7 +59,7 @@ hex_digit(char c) noexcept
         "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\xff\xff\xff\xff\xff\xff" //  48...63
         "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  64...79
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  80...95
-        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
+        "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 112..127
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 128..143
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 144..159
-- 
2.43.0


From df7ca4ac09e007b73df10ea4c17e23c66e03ccda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:22 +0000
Subject: [PATCH 02/23] fix: allow digits in the scheme

scheme = ALPHA *( ALPHA / DIGIT / "+" / "-" / "." )
---
 include/boost/url/detail/char_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index f09e86d..cfc288b 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -78,10 +78,10 @@ bool
 is_scheme_char(
     char c) noexcept
 {
-    // [A-Za-z.+-]
+    // [A-Za-z0-9.+-]
     static constexpr char tab[] =
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //   0...31
-        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //  32...63
+        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0\0" //  32...63
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  64...95
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  96..127
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" // 128..159
-- 
2.43.0


From 54f42f1c96d991535b21be3b25e969efd28b52f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:30 +0000
Subject: [PATCH 03/23] fix: validate the first character of a path-absolute

The character after the leading slash was skipped, so that any byte was
accepted there, including '?' and '#' which start another part.
---
 include/boost/url/detail/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b0894d8..e6d5e9b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -657,7 +657,7 @@ struct parser
                 pchar_pct_set();
             // segment-nz
             p_ = e.parse(
-                p_ + 1, end_, ec);
+                p_, end_, ec);
             if(ec)
                 return;
             while(p_ < end_)
-- 
2.43.0


From 0dd42ca855f81844d23ca3d566f3896309427a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:37 +0000
Subject: [PATCH 04/23] fix: path segments end where the query begins

The iterators of segments_type used the offset of the fragment as the end
of the path, so that the last segment included the query, iteration did
not stop at the end of the path, and inserting or erasing at the end of
the path failed an assertion when no query follows.
---
 include/boost/url/impl/url_base.ipp | 7 ++-----
 include/boost/url/impl/url_view.ipp | 8 ++++----
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7218e8c..33cf461 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1245,10 +1245,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == v_->pt_.offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -1297,9 +1297,6 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
-        v_->pt_.offset[
-            detail::id_frag]);
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 659dea3..8a2ea61 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -414,10 +414,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == pt_->offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -468,10 +468,10 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         s_ + pt_->offset[
-            detail::id_frag];
+            detail::id_query];
     auto const p0 = s_ + off_;
     auto p = p0;
     if(*p == '/')
-- 
2.43.0


From a45e28101e626f7a59b9b40bb89b909a4609a68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:47 +0000
Subject: [PATCH 05/23] fix: query parameters end where the fragment begins

The iterators of params_type ran into the fragment, and decrementing to
the first parameter kept the key and value lengths of the next one.
---
 include/boost/url/impl/url_base.ipp | 3 ++-
 include/boost/url/impl/url_view.ipp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 33cf461..54367a3 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1624,6 +1624,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - v_->s_;
+    parse();
     return *this;
 }
 
@@ -1637,7 +1638,7 @@ parse() noexcept
     BOOST_ASSERT(v_->pt_.nparam > 0);
     auto const end =
         v_->s_ + v_->pt_.offset[
-            detail::id_end];
+            detail::id_frag];
     char const* p = v_->s_ + off_;
     BOOST_ASSERT(
         ( off_ == v_->pt_.offset[
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 8a2ea61..77e84eb 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -636,6 +636,7 @@ operator--() noexcept ->
     }
     BOOST_ASSERT(*p == '?');
     off_ = p - s_;
+    parse();
     return *this;
 }
 
@@ -649,7 +650,7 @@ parse() noexcept
     BOOST_ASSERT(pt_->nparam > 0);
     auto const end =
         s_ + pt_->offset[
-            detail::id_end];
+            detail::id_frag];
     auto p = s_ + off_;
     BOOST_ASSERT(
         ( off_ == pt_->offset[
-- 
2.43.0


From c7d0bff2d0335e717e4568e52222367e82c20f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:32 +0000
Subject: [PATCH 06/23] fix: '&' always separates query parameters

A key without a value swallowed the '&' and the following parameter when
iterating forward ("?a&b=c" was one parameter with the key "a&b"), while
iterating backward split the query at every '&'.
---
 include/boost/url/detail/char_type.hpp | 20 ++++++++++++++++++++
 include/boost/url/detail/parse.hpp     | 23 +++++++++++------------
 include/boost/url/impl/url_base.ipp    |  4 ++--
 include/boost/url/impl/url_view.ipp    |  4 ++--
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index cfc288b..d739a4a 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -429,6 +429,26 @@ qkey_pct_set() noexcept
     return pct_encoding(tab);
 }
 
+// characters of a key in a sequence of
+// key/value pairs separated by '&'
+inline
+pct_encoding
+param_key_pct_set() noexcept
+{
+    // qkey_pct_set minus '&'
+    static constexpr char tab[] =
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" //   0...31
+        "\3\1\3\3\1\3\3\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\1\3\3\3\1" //  32...63
+        "\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\3\3\3\3\1" //  64...95
+        "\3\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\3\3\3\1\3" //  96..127
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" // 128..159
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" // 160..191
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" // 192..223
+        "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" "\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3\3" // 224..255
+        ;
+    return pct_encoding(tab);
+}
+
 inline
 pct_encoding
 qval_pct_set() noexcept
diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e6d5e9b..3685d1f 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -755,7 +755,7 @@ struct parser
         if(*p_ != '?')
             return;
         auto const ek =
-            qkey_pct_set();
+            param_key_pct_set();
         auto const ev =
             qval_pct_set();
         std::size_t n = 0;
@@ -768,17 +768,16 @@ struct parser
                 return;
             if(p_ >= end_)
                 break;
-            if(*p_ != '=')
-                break;
-            ++p_;
-            if(p_ >= end_)
-                break;
-            p_ = ev.parse(
-                p_, end_, ec);
-            if(ec)
-                return;
-            if(p_ >= end_)
-                break;
+            if(*p_ == '=')
+            {
+                ++p_;
+                p_ = ev.parse(
+                    p_, end_, ec);
+                if(ec)
+                    return;
+                if(p_ >= end_)
+                    break;
+            }
             if(*p_ != '&')
                 break;
             ++p_;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 54367a3..fde21fe 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1649,12 +1649,12 @@ parse() noexcept
             *p == '&' ));
     auto p0 = p++;
     auto const ek =
-        detail::qkey_pct_set();
+        detail::param_key_pct_set();
     error_code ec;
     p = ek.parse(p, end, ec);
     BOOST_ASSERT(! ec);
     nk_ = p - p0;
-    if(p == end)
+    if(p == end || *p == '&')
     {
         nv_ = 0;
         return;
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 77e84eb..0b6cdaa 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -661,12 +661,12 @@ parse() noexcept
             *p == '&' ));
     auto p0 = p++;
     auto const ek =
-        detail::qkey_pct_set();
+        detail::param_key_pct_set();
     error_code ec;
     p = ek.parse(p, end, ec);
     BOOST_ASSERT(! ec);
     nk_ = p - p0;
-    if(p == end)
+    if(p == end || *p == '&')
     {
         nv_ = 0;
         return;
-- 
2.43.0


From 790dfac8e88415b9d9d60d5467fd9f7e058782a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:23 +0000
Subject: [PATCH 07/23] fix: initialize the buffer pointer when constructing
 from a string

Constructing from an empty string read the uninitialized pointer.
---
 include/boost/url/impl/url_base.ipp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index fde21fe..9e2f12d 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -34,6 +34,7 @@ url_base(
     detail::storage& a,
     string_view s)
     : a_(a)
+    , s_(nullptr)
 {
     set_encoded_url(s);
 }
-- 
2.43.0


From 06ec585b3056ec86b4fe88cab227b0e396994376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:37 +0000
Subject: [PATCH 08/23] fix: null-terminate the first allocation of the storage

When an empty container grew for the first time the byte that is moved as
the terminator was uninitialized memory.
---
 include/boost/url/detail/storage.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/storage.hpp b/include/boost/url/detail/storage.hpp
index 225d801..ed32c00 100644
--- a/include/boost/url/detail/storage.hpp
+++ b/include/boost/url/detail/storage.hpp
@@ -84,8 +84,8 @@ public:
                 p, p_, size_ + 1);
             a_.deallocate(
                 p_, cap_ + 1);
-            p[size_] = 0;
         }
+        p[size_] = 0;
         p_ = p;
         cap_ = cap;
         return p_;
-- 
2.43.0


From 8f3b214bdf657b60f934144445e1aa42c20b87e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:46 +0000
Subject: [PATCH 09/23] fix: keep the storage size in step when a part shrinks

Editing the path segments after any setter made the URL shorter failed
the assertion size() == storage size.
---
 include/boost/url/impl/url_base.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 9e2f12d..6bbd274 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1769,6 +1769,7 @@ resize(
         for(auto i = id + 1;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[id];
     }
 
@@ -1823,6 +1824,7 @@ resize(
         for(auto i = last;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[first];
     }
 
-- 
2.43.0


From da808262460c9cd13810bfd7eae0416cbcc9e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:56 +0000
Subject: [PATCH 10/23] fix: set_encoded_userinfo splits the user after the
 slashes

The leading "//" belongs to the user part, it was not counted.
---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 6bbd274..43aef23 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -348,7 +348,7 @@ set_encoded_userinfo(
     s.copy(dest, s.size());
     pt_.split(
         detail::id_user,
-        pt.length(detail::id_user));
+        2 + pt.length(detail::id_user));
     dest[s.size()] = '@';
     return *this;
 }
-- 
2.43.0


From 0efd3c318ee9baef35fd481e67a60cd4f40e55b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:04 +0000
Subject: [PATCH 11/23] fix: clearing the user of an authority without userinfo

set_user("") read the last character of the empty password part.
---
 include/boost/url/impl/url_base.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 43aef23..13722ee 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -391,8 +391,9 @@ set_user(
 {
     if(s.empty())
     {
+        // no userinfo
         if(pt_.length(
-            detail::id_user) == 0)
+            detail::id_password) == 0)
             return *this;
         BOOST_ASSERT(pt_.get(
             detail::id_password, s_).back() == '@');
-- 
2.43.0


From ef045af4cd716abe640ff41a03a571022cedfa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:12 +0000
Subject: [PATCH 12/23] fix: set_password_part and password_part

password_part() asserted that a non-empty password part begins with '@'.
set_password_part() did not check for the leading colon when more than one
character is given, and set_password_part(":") on a URL without authority
removed the password part which it had just added.
---
 include/boost/url/impl/url_base.ipp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 13722ee..f5662ef 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -511,7 +511,7 @@ password_part() const noexcept
         detail::id_password, s_);
     if(! s.empty())
     {
-        BOOST_ASSERT(s.front() == '@');
+        BOOST_ASSERT(s.back() == '@');
         s.remove_suffix(1);
     }
     return s;
@@ -617,10 +617,10 @@ set_password_part(
 {
     if(s.empty())
         return set_password(s);
+    if(s.front() != ':')
+        invalid_part::raise();
     if(s.size() == 1)
     {
-        if(s.front() != ':')
-            invalid_part::raise();
         if(pt_.length(
             detail::id_user) != 0)
         {
@@ -639,6 +639,7 @@ set_password_part(
         dest[3] = '@';
         pt_.split(
             detail::id_user, 2);
+        return *this;
     }
     set_encoded_password(
         s.substr(1));
-- 
2.43.0


From 2758dfbaa0ae2655264339388d7497a84cff7694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:20 +0000
Subject: [PATCH 13/23] fix: set_port_part(":") adds the authority if there is
 none

The colon was inserted without the leading "//".
---
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index f5662ef..bc303cd 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -891,6 +891,22 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    if(! has_authority())
+    {
+        // add authority
+        auto const dest = resize(
+            detail::id_user, 3);
+        dest[0] = '/';
+        dest[1] = '/';
+        dest[2] = ':';
+        pt_.split(
+            detail::id_user, 2);
+        pt_.split(
+            detail::id_password, 0);
+        pt_.split(
+            detail::id_host, 0);
+        return *this;
+    }
     resize(
         detail::id_port, 1)[0] = ':';
     return *this;
-- 
2.43.0


From 3470c0e026417a09bca37e617b6bc8a2df31641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:11 +0000
Subject: [PATCH 14/23] fix: keep the number of path segments up to date

set_encoded_path() did not update it, so that segments() reported the
size of the previous path, or was empty. set_encoded_url("") kept all of
the previous counts and the host type.
---
 include/boost/url/detail/parse.hpp  | 16 ++++++++++++----
 include/boost/url/impl/url_base.ipp | 12 ++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 3685d1f..c541384 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -1011,8 +1011,9 @@ match_port(string_view s)
         invalid_part::raise();
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_abempty(string_view s)
 {
     parts pt;
@@ -1023,10 +1024,12 @@ match_path_abempty(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_absolute(string_view s)
 {
     parts pt;
@@ -1037,10 +1040,12 @@ match_path_absolute(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_noscheme(string_view s)
 {
     parts pt;
@@ -1051,10 +1056,12 @@ match_path_noscheme(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
+// returns the number of segments
 inline
-void
+std::size_t
 match_path_rootless(string_view s)
 {
     parts pt;
@@ -1065,6 +1072,7 @@ match_path_rootless(string_view s)
         invalid_part::raise();
     if(! pr.done())
         invalid_part::raise();
+    return pt.nseg;
 }
 
 } // detail
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index bc303cd..77464d0 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -70,6 +70,7 @@ set_encoded_url(
             resize(
                 detail::id_scheme,
                 detail::id_end, 0);
+        pt_ = detail::parts();
         return *this;
     }
     error_code ec;
@@ -937,32 +938,35 @@ set_encoded_path(
     {
         resize(
             detail::id_path, 0);
+        pt_.nseg = 0;
         return *this;
     }
+    std::size_t nseg;
     if(has_authority())
     {
         // path-abempty
-        detail::match_path_abempty(s);
+        nseg = detail::match_path_abempty(s);
     }
     else if(s.front() == '/')
     {
         // path-absolute
-        detail::match_path_absolute(s);
+        nseg = detail::match_path_absolute(s);
     }
     else if(pt_.length(
         detail::id_scheme) == 0)
     {
         // path-noscheme
-        detail::match_path_noscheme(s);
+        nseg = detail::match_path_noscheme(s);
     }
     else
     {
         // path-rootless
-        detail::match_path_rootless(s);
+        nseg = detail::match_path_rootless(s);
     }
     auto const dest = resize(
         detail::id_path, s.size());
     s.copy(dest, s.size());
+    pt_.nseg = nseg;
     return *this;
 }
 
-- 
2.43.0


From e82654a3968614d752a06de800036eaa717ad78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:19 +0000
Subject: [PATCH 15/23] fix: keep the number of query parameters up to date

set_query(), set_encoded_query() and set_query_part() did not update it,
so that params() reported the size of the previous query, or was empty.
---
 include/boost/url/detail/parse.hpp  | 15 +++++++++++++++
 include/boost/url/impl/url_base.ipp |  9 +++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index c541384..e2e4c98 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -1075,6 +1075,21 @@ match_path_rootless(string_view s)
     return pt.nseg;
 }
 
+// returns the number of parameters
+// in a valid query, including the '?'
+inline
+std::size_t
+count_params(string_view s) noexcept
+{
+    parts pt;
+    parser pr(s);
+    error_code ec;
+    pr.parse_query(pt, ec);
+    BOOST_ASSERT(! ec);
+    BOOST_ASSERT(pr.done());
+    return pt.nparam;
+}
+
 } // detail
 } // urls
 } // boost
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 77464d0..38c78ff 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1010,6 +1010,7 @@ set_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1021,6 +1022,8 @@ set_query(
         1 + n);
     dest[0] = '?';
     e.encode(dest + 1, s);
+    pt_.nparam =
+        detail::count_params(query_part());
     return *this;
 }
 
@@ -1032,6 +1035,7 @@ set_encoded_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1042,6 +1046,8 @@ set_encoded_query(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam =
+        detail::count_params(query_part());
     return *this;
 }
 
@@ -1053,6 +1059,7 @@ set_query_part(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     if(s.front() != '?')
@@ -1066,6 +1073,8 @@ set_query_part(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam =
+        detail::count_params(query_part());
     return *this;
 }
 
-- 
2.43.0


From e2c45a2c204b3e388ff9e46c276c56e0fe4b3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:26 +0000
Subject: [PATCH 16/23] fix: keep the host type up to date

Setting the authority, or clearing the authority or the host, left the
host type of the previous host.
---
 include/boost/url/impl/url_base.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 38c78ff..9f3e898 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -212,6 +212,7 @@ set_encoded_authority(
         resize(
             detail::id_user,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -237,6 +238,7 @@ set_encoded_authority(
     BOOST_ASSERT(
         pt_.length(detail::id_port) ==
             pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -697,6 +699,7 @@ set_host(
         {
             resize(detail::id_host, 0);
         }
+        pt_.host = urls::host_type::none;
         return *this;
     }
     detail::parts pt;
-- 
2.43.0


From 61b0a90b9c74410a23953dbb2619cb004a6c089f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:22 +0000
Subject: [PATCH 17/23] fix: set_encoded_origin accepts only an origin

The text after the authority was not checked, any bytes were accepted and
stored in front of the path. The host type was not updated.
---
 include/boost/url/detail/parse.hpp  | 18 ++++++++++--------
 include/boost/url/impl/url_base.ipp |  9 ++++++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e2e4c98..a4cdc34 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -891,16 +891,18 @@ parse_origin(
         return;
     }
     pr.mark(pt, id_scheme);
-    pr.parse_hier_part(pt, ec);
 
     // authority
-    if(! pr.match_literal("//"))
-        return;
-    pr.parse_authority(pt, ec);
-    if(ec)
-        return;
-    pt.resize(id_user,
-        pt.length(id_user) + 1);
+    if(pr.match_literal("//"))
+    {
+        pr.parse_authority(pt, ec);
+        if(ec)
+            return;
+    }
+
+    // a trailing slash is
+    // not part of the origin
+    pr.match_literal("/");
 
     if(! pr.done())
         ec = error::syntax;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 9f3e898..f1f4264 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -97,6 +97,7 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -105,12 +106,13 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    auto const n =
+        pt.offset[detail::id_path];
     auto const dest =
         resize(
             detail::id_scheme,
-            detail::id_path,
-            s.size());
-    s.copy(dest, s.size());
+            detail::id_path, n);
+    s.copy(dest, n);
     pt_.split(
         detail::id_scheme,
         pt.length(detail::id_scheme));
@@ -125,6 +127,7 @@ set_encoded_origin(
         pt.length(detail::id_host));
     pt_.split(
         detail::id_port, pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
-- 
2.43.0


From 428b2ae7c6093e8b82da2b634007eed49da4b42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:27 +0000
Subject: [PATCH 18/23] fix: adding or removing the authority keeps the path

Adding an authority in front of a path that does not begin with a slash
merged the first segment into the authority, and removing the authority
in front of a path beginning with "//" turned the path into an authority.
The former is refused, the latter keeps an empty authority.
---
 include/boost/url/impl/url_base.ipp | 57 ++++++++++++++++++++++-------
 include/boost/url/url_base.hpp      |  2 +
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index f1f4264..f37978c 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -212,15 +212,13 @@ set_encoded_authority(
 {
     if(s.empty())
     {
-        resize(
-            detail::id_user,
-            detail::id_path, 0);
-        pt_.host = urls::host_type::none;
+        remove_authority();
         return *this;
     }
 
     detail::parts pt;
     detail::parse_authority(pt, s);
+    check_add_authority();
     auto const dest = resize(
         detail::id_user,
         detail::id_path,
@@ -330,9 +328,7 @@ set_encoded_userinfo(
             detail::id_path) == 0)
         {
             // no authority
-            resize(
-                detail::id_user,
-                detail::id_host, 0);
+            remove_authority();
             return *this;
         }
         // keep "//"
@@ -344,6 +340,7 @@ set_encoded_userinfo(
 
     detail::parts pt;
     detail::parse_userinfo(pt, s);
+    check_add_authority();
     auto dest = resize(
         detail::id_user,
         detail::id_host,
@@ -424,6 +421,7 @@ set_user(
         return *this;
     }
 
+    check_add_authority();
     auto const e =
         detail::userinfo_nc_pct_set();
     if(pt_.length(
@@ -462,6 +460,7 @@ set_encoded_user(
     auto const e =
         detail::userinfo_nc_pct_set();
     e.validate(s);
+    check_add_authority();
 
     auto const n = s.size();
     if(pt_.length(detail::id_password) != 0)
@@ -553,6 +552,7 @@ set_password(
         return *this;
     }
 
+    check_add_authority();
     auto const e =
         detail::userinfo_pct_set();
     auto const n =
@@ -592,6 +592,7 @@ set_encoded_password(
     if(s[0] == ':')
         invalid_part::raise();
     e.validate(s);
+    check_add_authority();
 
     auto const n = s.size();
     if(pt_.length(detail::id_user) != 0)
@@ -636,6 +637,7 @@ set_password_part(
             dest[1] = '@';
             return *this;
         }
+        check_add_authority();
         auto const dest = resize(
             detail::id_user,
             detail::id_host, 4);
@@ -693,10 +695,7 @@ set_host(
             BOOST_ASSERT(pt_.get(
                 detail::id_user, s_
                     ) == "//");
-            // remove authority
-            resize(
-                detail::id_user,
-                detail::id_path, 0);
+            remove_authority();
         }
         else
         {
@@ -709,6 +708,7 @@ set_host(
     detail::parse_plain_hostname(pt, s);
     BOOST_ASSERT(
         pt.host != urls::host_type::none);
+    check_add_authority();
     if(pt.host != urls::host_type::name)
     {
         if(! has_authority())
@@ -772,6 +772,7 @@ set_encoded_host(
         return set_host(s);
     detail::parts pt;
     detail::parse_hostname(pt, s);
+    check_add_authority();
     if(! has_authority())
     {
         // add authority
@@ -846,9 +847,7 @@ set_port(string_view s)
             BOOST_ASSERT(pt_.get(
                 detail::id_user, s_).substr(
                     0, 2) == "//");
-            resize(
-                detail::id_user,
-                detail::id_path, 0);
+            remove_authority();
         }
         else
         {
@@ -857,6 +856,7 @@ set_port(string_view s)
         return *this;
     }
     detail::match_port(s);
+    check_add_authority();
     if(! has_authority())
     {
         // add authority
@@ -898,6 +898,7 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    check_add_authority();
     if(! has_authority())
     {
         // add authority
@@ -1782,6 +1783,34 @@ operator[](string_view key) const
 
 //----------------------------------------------------------
 
+// An authority can only be followed
+// by a path which is empty or begins
+// with a slash.
+void
+url_base::
+check_add_authority() const
+{
+    if(has_authority())
+        return;
+    auto const s = encoded_path();
+    if(! s.empty() && s.front() != '/')
+        invalid_part::raise();
+}
+
+void
+url_base::
+remove_authority()
+{
+    // A path which begins with "//" would be
+    // read as an authority, so keep the slashes.
+    auto const n =
+        encoded_path().substr(0, 2) == "//" ? 2 : 0;
+    resize(
+        detail::id_user,
+        detail::id_path, n);
+    pt_.host = urls::host_type::none;
+}
+
 char*
 url_base::
 resize(
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 5728f60..9eee5be 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1611,6 +1611,8 @@ public:
 private:
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
+    inline void check_add_authority() const;
+    inline void remove_authority();
 };
 
 //----------------------------------------------------------
-- 
2.43.0


From b86aff76ccb20307c3463756691136445521297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:18 +0000
Subject: [PATCH 19/23] fix: changing the scheme or origin keeps the path

Removing the scheme turned a first segment with a colon into a scheme,
and replacing the origin by one with or without an authority turned the
beginning of some paths into an authority, or the other way around. These
combinations are not valid URLs and are refused.
---
 include/boost/url/impl/url_base.ipp | 21 +++++++++++++++++++++
 include/boost/url/url_base.hpp      |  1 +
 2 files changed, 22 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index f37978c..55d4174 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -94,6 +94,9 @@ set_encoded_origin(
 {
     if(s.empty())
     {
+        check_remove_scheme();
+        if(encoded_path().substr(0, 2) == "//")
+            invalid_part::raise();
         resize(
             detail::id_scheme,
             detail::id_path, 0);
@@ -106,6 +109,10 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    if(pt.length(detail::id_user) != 0)
+        check_add_authority();
+    else if(encoded_path().substr(0, 2) == "//")
+        invalid_part::raise();
     auto const n =
         pt.offset[detail::id_path];
     auto const dest =
@@ -158,6 +165,7 @@ set_scheme(
 {
     if(s.empty())
     {
+        check_remove_scheme();
         resize(detail::id_scheme, 0);
         return *this;
     }
@@ -1783,6 +1791,19 @@ operator[](string_view key) const
 
 //----------------------------------------------------------
 
+// Without a scheme and an authority,
+// the first segment can't contain a colon.
+void
+url_base::
+check_remove_scheme() const
+{
+    if(has_authority())
+        return;
+    auto const s = encoded_path();
+    if(! s.empty() && s.front() != '/')
+        detail::match_path_noscheme(s);
+}
+
 // An authority can only be followed
 // by a path which is empty or begins
 // with a slash.
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 9eee5be..3d12b7e 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1611,6 +1611,7 @@ public:
 private:
     inline char* resize(int id, std::size_t new_size);
     inline char* resize(int first, int last, std::size_t new_size);
+    inline void check_remove_scheme() const;
     inline void check_add_authority() const;
     inline void remove_authority();
 };
-- 
2.43.0


From fdd50e86e56033e319ab5556654d15be95f9b583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:31 +0000
Subject: [PATCH 20/23] fix: static_pool never hands out memory outside of its
 buffer

Aligning the position could move it past the end of the buffer, and the
size in bytes could overflow. Both made the bounds check pass.
---
 include/boost/url/static_pool.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 57ebcb5..50441be 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -35,8 +35,10 @@ class basic_static_pool
             (u0 + align - 1) / align);
         auto const p =
             reinterpret_cast<char*>(u);
-        if( u < u0 || bytes >
-            capacity_ - (p - base_))
+        auto const n = static_cast<
+            std::size_t>(p - base_);
+        if( u < u0 || n > capacity_ ||
+            bytes > capacity_ - n)
             BOOST_THROW_EXCEPTION(
                 std::bad_alloc());
         top_ = reinterpret_cast<
@@ -103,6 +105,9 @@ public:
         pointer
         allocate(size_type n)
         {
+            if(n > std::size_t(-1) / sizeof(T))
+                BOOST_THROW_EXCEPTION(
+                    std::bad_alloc());
             return reinterpret_cast<T*>(
                 pool_->allocate(
                     n * sizeof(T),
-- 
2.43.0


From 04eafa6162de3071a7c67e165c03b4d2cb5c10c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:13 +0000
Subject: [PATCH 21/23] fix: refuse an empty first segment without an authority

Inserting an empty segment in front of others produced a path beginning
with "//", which is an authority.
---
 include/boost/url/impl/url_base.ipp | 19 +++++++++++++++++++
 include/boost/url/url_base.hpp      |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 55d4174..cca77af 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1481,12 +1481,28 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     return pos;
 }
 
+// Without an authority the path can't begin with
+// an empty segment that is followed by others.
+// n is the number of characters to be replaced
+void
+url_base::
+segments_type::
+check_segment( iterator pos, string_view s, std::size_t n ) const
+{
+    BOOST_ASSERT(v_ != nullptr);
+    if( s.empty() && ! v_->has_authority() &&
+        pos.off_ == v_->pt_.offset[detail::id_path] &&
+        n < v_->pt_.length(detail::id_path) )
+        invalid_part::raise();
+}
+
 auto
 url_base::
 segments_type::
 insert_encoded( iterator pos, string_view s ) ->
     iterator
 {
+    check_segment(pos, s, 0);
     return insert_encoded_impl(pos, detail::pchar_pct_set().validate(s));
 }
 
@@ -1496,6 +1512,7 @@ segments_type::
 insert( iterator pos, string_view s ) ->
     iterator
 {
+    check_segment(pos, s, 0);
     return insert_impl(pos, s, detail::pchar_pct_set().encoded_size(s));
 }
 
@@ -1509,6 +1526,7 @@ replace_encoded( iterator pos, string_view s ) ->
     BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
     BOOST_ASSERT(v.size() == v.a_.size());
+    check_segment(pos, s, pos.n_);
     auto const ns = s.size();
     auto const n0 = pos.n_;
     auto const n = ns + 1;
@@ -1530,6 +1548,7 @@ replace( iterator pos, string_view s ) ->
     BOOST_ASSERT(v_ != nullptr);
     url_base& v = *v_;
     BOOST_ASSERT(v.size() == v.a_.size());
+    check_segment(pos, s, pos.n_);
     auto const ns = detail::pchar_pct_set().encoded_size(s);
     auto const n0 = pos.n_;
     auto const n = ns + 1;
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 3d12b7e..13e95ae 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -1640,6 +1640,10 @@ private:
     iterator
     insert_impl( iterator pos, string_view s, std::size_t ns );
 
+    inline
+    void
+    check_segment( iterator pos, string_view s, std::size_t n ) const;
+
 public:
 
     segments_type() = default;
-- 
2.43.0


From e7bef930e34df43b0ac4aa3b045fefd7bd384892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:58 +0000
Subject: [PATCH 22/23] fix: check all octets of an IPv4 address embedded in an
 IPv6 address

The first octet was taken from the hexadecimal value of the preceding
word, so that it could be missing ("::.1.2.3", "1::.1.2.3") or have
leading zeros ("::001.2.3.4").
---
 include/boost/url/detail/parse.hpp | 67 +++++-------------------------
 1 file changed, 10 insertions(+), 57 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index a4cdc34..dc1ad54 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -429,21 +429,6 @@ struct parser
         return v;
     }
 
-    // return `true` if the hex
-    // word could be 0..255 if
-    // interpreted as decimal
-    bool
-    maybe_octet(long word)
-    {
-        if(word > 0x255)
-            return false;
-        if(((word >>  4) & 0xf) > 9)
-            return false;
-        if((word & 0xf) > 9)
-            return false;
-        return true;
-    }
-
     void
     parse_ip_v6(
         error_code& ec) noexcept
@@ -456,7 +441,7 @@ struct parser
         int n = 8; // words needed
         bool b = false; // got '::'
         bool c = false; // need colon
-        long word = 0;
+        char const* word = nullptr; // last word
         for(;;)
         {
             if(p_ == end_)
@@ -490,10 +475,12 @@ struct parser
                         break;
                     b = true;
                     c = false;
+                    word = nullptr;
                 }
                 else if(c)
                 {
-                    word = parse_word(ec);
+                    word = p_;
+                    parse_word(ec);
                     if(ec)
                         return;
                     --n;
@@ -515,49 +502,14 @@ struct parser
                     ec = error::syntax;
                     return;
                 }
-                if(! maybe_octet(word))
+                if(! word)
                 {
-                    // invalid octet
+                    // no octet
                     ec = error::syntax;
                     return;
                 }
-                ++p_;
-                auto m = match_octet();
-                if( m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if( m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if(m == -1)
+                p_ = word;
+                if(! match_ip_v4())
                 {
                     ec = error::syntax;
                     return;
@@ -571,7 +523,8 @@ struct parser
             }
             else if(! c)
             {
-                word = parse_word(ec);
+                word = p_;
+                parse_word(ec);
                 if(ec)
                     return;
                 --n;
-- 
2.43.0


From 1e93495eb108ec532271adcead2072f40a61e2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:17 +0000
Subject: [PATCH 23/23] fix: refuse to insert after an empty first segment
 without an authority

---
 include/boost/url/impl/url_base.ipp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index cca77af..1e353e1 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1490,9 +1490,12 @@ segments_type::
 check_segment( iterator pos, string_view s, std::size_t n ) const
 {
     BOOST_ASSERT(v_ != nullptr);
-    if( s.empty() && ! v_->has_authority() &&
-        pos.off_ == v_->pt_.offset[detail::id_path] &&
-        n < v_->pt_.length(detail::id_path) )
+    if( v_->has_authority() )
+        return;
+    auto const path = v_->encoded_path();
+    auto const off = pos.off_ - v_->pt_.offset[detail::id_path];
+    if( off == 0 ? s.empty() && n < path.size() :
+        off == 1 && path.front() == '/' )
         invalid_part::raise();
 }
 
-- 
2.43.0


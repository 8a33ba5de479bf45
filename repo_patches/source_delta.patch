From 82c738b8988c92b854239cd57e5e9e4ce69966b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:19 +0000
Subject: [PATCH 01/25] fix: validate the first character of an absolute path's
 first segment

---
 include/boost/url/detail/parse.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index b0894d8..e6d5e9b 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -657,7 +657,7 @@ struct parser
                 pchar_pct_set();
             // segment-nz
             p_ = e.parse(
-                p_ + 1, end_, ec);
+                p_, end_, ec);
             if(ec)
                 return;
             while(p_ < end_)
-- 
2.43.0


From 065d8d81bde7c5135c2d289d10331fc08eb175f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:19 +0000
Subject: [PATCH 02/25] fix: accept lowercase hex digits in percent escapes and
 IPv6 words

---
 include/boost/url/detail/char_type.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index 7366d3b..f09e86d 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -59,7 +59,7 @@ hex_digit(char c) noexcept
         "\x00\x01\x02\x03\x04\x05\x06\x07\x08\x09\xff\xff\xff\xff\xff\xff" //  48...63
         "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  64...79
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  80...95
-        "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
+        "\xff\x0a\x0b\x0c\x0d\x0e\x0f\xff\xff\xff\xff\xff\xff\xff\xff\xff" //  96..111
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 112..127
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 128..143
         "\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff\xff" // 144..159
-- 
2.43.0


From 103d2f9e0a7937f27b91b1b2fac2665c1ae6b2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:19 +0000
Subject: [PATCH 03/25] fix: allow digits after the first character of a scheme

---
 include/boost/url/detail/char_type.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index f09e86d..cfc288b 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -78,10 +78,10 @@ bool
 is_scheme_char(
     char c) noexcept
 {
-    // [A-Za-z.+-]
+    // [A-Za-z0-9.+-]
     static constexpr char tab[] =
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //   0...31
-        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" //  32...63
+        "\0\0\0\0\0\0\0\0\0\0\0\1\0\1\1\0" "\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0\0" //  32...63
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  64...95
         "\0\1\1\1\1\1\1\1\1\1\1\1\1\1\1\1" "\1\1\1\1\1\1\1\1\1\1\1\0\0\0\0\0" //  96..127
         "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" "\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0" // 128..159
-- 
2.43.0


From 0130b67678704ddc5f5425a5c666c9e557122863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:09 +0000
Subject: [PATCH 04/25] fix: validate the IPv4 tail of an IPv6 address

---
 include/boost/url/detail/parse.hpp | 72 +++++-------------------------
 1 file changed, 10 insertions(+), 62 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index e6d5e9b..06402ec 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -429,21 +429,6 @@ struct parser
         return v;
     }
 
-    // return `true` if the hex
-    // word could be 0..255 if
-    // interpreted as decimal
-    bool
-    maybe_octet(long word)
-    {
-        if(word > 0x255)
-            return false;
-        if(((word >>  4) & 0xf) > 9)
-            return false;
-        if((word & 0xf) > 9)
-            return false;
-        return true;
-    }
-
     void
     parse_ip_v6(
         error_code& ec) noexcept
@@ -456,7 +441,7 @@ struct parser
         int n = 8; // words needed
         bool b = false; // got '::'
         bool c = false; // need colon
-        long word = 0;
+        auto pw = p_; // start of last word
         for(;;)
         {
             if(p_ == end_)
@@ -493,7 +478,8 @@ struct parser
                 }
                 else if(c)
                 {
-                    word = parse_word(ec);
+                    pw = p_;
+                    parse_word(ec);
                     if(ec)
                         return;
                     --n;
@@ -509,55 +495,16 @@ struct parser
             }
             else if(*p_ == '.')
             {
-                if(! b && n > 1)
+                if(! c || (! b && n > 1))
                 {
                     // not enough words
                     ec = error::syntax;
                     return;
                 }
-                if(! maybe_octet(word))
-                {
-                    // invalid octet
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                auto m = match_octet();
-                if( m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if( m == -1)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(p_ >= end_)
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                if(*p_ != '.')
-                {
-                    ec = error::syntax;
-                    return;
-                }
-                ++p_;
-                m = match_octet();
-                if(m == -1)
+                // the last word is
+                // the first octet
+                p_ = pw;
+                if(! match_ip_v4())
                 {
                     ec = error::syntax;
                     return;
@@ -571,7 +518,8 @@ struct parser
             }
             else if(! c)
             {
-                word = parse_word(ec);
+                pw = p_;
+                parse_word(ec);
                 if(ec)
                     return;
                 --n;
-- 
2.43.0


From 8c00084df8deb131a9c18a3db3595e86d9a98e88 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 05/25] fix: shrinking a part updates the size of the storage

---
 include/boost/url/impl/url_base.ipp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7218e8c..b1ed6e9 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1770,6 +1770,7 @@ resize(
         for(auto i = id + 1;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[id];
     }
 
@@ -1824,6 +1825,7 @@ resize(
         for(auto i = last;
             i <= detail::id_end; ++i)
             pt_.offset[i] -= n;
+        s_ = a_.resize(size());
         return s_ + pt_.offset[first];
     }
 
-- 
2.43.0


From 8601569ed54d432b3e0bd624312ecea756c126f3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 06/25] fix: growing a part keeps the terminating null

---
 include/boost/url/impl/url_base.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index b1ed6e9..30ae594 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1788,7 +1788,7 @@ resize(
         s_ + pos + n,
         s_ + pos,
         pt_.offset[detail::id_end] -
-            pos + 1);
+            pos);
     for(auto i = id + 1;
         i <= detail::id_end; ++i)
         pt_.offset[i] += n;
@@ -1843,7 +1843,7 @@ resize(
         s_ + pos + n,
         s_ + pos,
         pt_.offset[detail::id_end] -
-            pos + 1);
+            pos);
     for(auto i = first + 1;
         i < last; ++i)
         pt_.offset[i] =
-- 
2.43.0


From ffaee8b1aedda0a4ca5280586eefce8e6613b6f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 07/25] fix: set_encoded_userinfo counts the leading "//" in
 the user part

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 30ae594..dbbcb0e 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -347,7 +347,7 @@ set_encoded_userinfo(
     s.copy(dest, s.size());
     pt_.split(
         detail::id_user,
-        pt.length(detail::id_user));
+        2 + pt.length(detail::id_user));
     dest[s.size()] = '@';
     return *this;
 }
-- 
2.43.0


From d232670609eba2a8c8aa8c27f9b8ea8d33b05a85 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 08/25] fix: set_user("") leaves an authority without userinfo
 alone

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index dbbcb0e..edf391f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -391,7 +391,7 @@ set_user(
     if(s.empty())
     {
         if(pt_.length(
-            detail::id_user) == 0)
+            detail::id_password) == 0)
             return *this;
         BOOST_ASSERT(pt_.get(
             detail::id_password, s_).back() == '@');
-- 
2.43.0


From 668b519a0bcb8a918b1bed749c532f50062be8bd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 09/25] fix: set_password_part requires the leading colon and
 keeps ":" without authority

---
 include/boost/url/impl/url_base.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index edf391f..3e3312c 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -637,7 +637,10 @@ set_password_part(
         dest[3] = '@';
         pt_.split(
             detail::id_user, 2);
+        return *this;
     }
+    if(s.front() != ':')
+        invalid_part::raise();
     set_encoded_password(
         s.substr(1));
     return *this;
-- 
2.43.0


From 122f9fe4d683939bd6bf25bdac85f1b0b8ba0ad1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 10/25] fix: password_part expects the trailing at sign at the
 end

---
 include/boost/url/impl/url_base.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 3e3312c..3997e38 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -509,7 +509,7 @@ password_part() const noexcept
         detail::id_password, s_);
     if(! s.empty())
     {
-        BOOST_ASSERT(s.front() == '@');
+        BOOST_ASSERT(s.back() == '@');
         s.remove_suffix(1);
     }
     return s;
-- 
2.43.0


From 70d16885b91bc112a3accce55eea61abaec930bb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 11/25] fix: set_port_part(":") adds the authority

---
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 3997e38..1a01198 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -891,6 +891,22 @@ set_port_part(string_view s)
         invalid_part::raise();
     if(s.size() > 1)
         return set_port(s.substr(1));
+    if(! has_authority())
+    {
+        // add authority
+        auto const dest = resize(
+            detail::id_user, 3);
+        dest[0] = '/';
+        dest[1] = '/';
+        dest[2] = ':';
+        pt_.split(
+            detail::id_user, 2);
+        pt_.split(
+            detail::id_password, 0);
+        pt_.split(
+            detail::id_host, 0);
+        return *this;
+    }
     resize(
         detail::id_port, 1)[0] = ':';
     return *this;
-- 
2.43.0


From 4c7563bc9aeb708c0e2d7e69dbbe834bfdb12e00 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 12/25] fix: setting or removing the authority updates the host
 type

---
 include/boost/url/impl/url_base.ipp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 1a01198..8ef4594 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -69,6 +69,7 @@ set_encoded_url(
             resize(
                 detail::id_scheme,
                 detail::id_end, 0);
+        pt_ = detail::parts();
         return *this;
     }
     error_code ec;
@@ -95,6 +96,7 @@ set_encoded_origin(
         resize(
             detail::id_scheme,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -123,6 +125,7 @@ set_encoded_origin(
         pt.length(detail::id_host));
     pt_.split(
         detail::id_port, pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -210,6 +213,7 @@ set_encoded_authority(
         resize(
             detail::id_user,
             detail::id_path, 0);
+        pt_.host = urls::host_type::none;
         return *this;
     }
 
@@ -235,6 +239,7 @@ set_encoded_authority(
     BOOST_ASSERT(
         pt_.length(detail::id_port) ==
             pt.length(detail::id_port));
+    pt_.host = pt.host;
     return *this;
 }
 
@@ -696,6 +701,7 @@ set_host(
         {
             resize(detail::id_host, 0);
         }
+        pt_.host = urls::host_type::none;
         return *this;
     }
     detail::parts pt;
-- 
2.43.0


From 44583c1eefb260aae10471c6eb05d80235ead634 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 13/25] fix: set_encoded_path updates the number of segments

---
 include/boost/url/detail/parse.hpp  | 20 ++++++++++++--------
 include/boost/url/impl/url_base.ipp | 11 +++++++----
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 06402ec..6af803a 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -962,9 +962,10 @@ match_port(string_view s)
 
 inline
 void
-match_path_abempty(string_view s)
+match_path_abempty(
+    parts& pt,
+    string_view s)
 {
-    parts pt;
     parser pr(s);
     error_code ec;
     pr.parse_path_abempty(pt, ec);
@@ -976,9 +977,10 @@ match_path_abempty(string_view s)
 
 inline
 void
-match_path_absolute(string_view s)
+match_path_absolute(
+    parts& pt,
+    string_view s)
 {
-    parts pt;
     parser pr(s);
     error_code ec;
     pr.parse_path_absolute(pt, ec);
@@ -990,9 +992,10 @@ match_path_absolute(string_view s)
 
 inline
 void
-match_path_noscheme(string_view s)
+match_path_noscheme(
+    parts& pt,
+    string_view s)
 {
-    parts pt;
     parser pr(s);
     error_code ec;
     pr.parse_path_noscheme(pt, ec);
@@ -1004,9 +1007,10 @@ match_path_noscheme(string_view s)
 
 inline
 void
-match_path_rootless(string_view s)
+match_path_rootless(
+    parts& pt,
+    string_view s)
 {
-    parts pt;
     parser pr(s);
     error_code ec;
     pr.parse_path_rootless(pt, ec);
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 8ef4594..a0c7ae8 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -943,32 +943,35 @@ set_encoded_path(
     {
         resize(
             detail::id_path, 0);
+        pt_.nseg = 0;
         return *this;
     }
+    detail::parts pt;
     if(has_authority())
     {
         // path-abempty
-        detail::match_path_abempty(s);
+        detail::match_path_abempty(pt, s);
     }
     else if(s.front() == '/')
     {
         // path-absolute
-        detail::match_path_absolute(s);
+        detail::match_path_absolute(pt, s);
     }
     else if(pt_.length(
         detail::id_scheme) == 0)
     {
         // path-noscheme
-        detail::match_path_noscheme(s);
+        detail::match_path_noscheme(pt, s);
     }
     else
     {
         // path-rootless
-        detail::match_path_rootless(s);
+        detail::match_path_rootless(pt, s);
     }
     auto const dest = resize(
         detail::id_path, s.size());
     s.copy(dest, s.size());
+    pt_.nseg = pt.nseg;
     return *this;
 }
 
-- 
2.43.0


From edb4fe040ec73223545267fffb7d00baf6b36fc2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:03 +0000
Subject: [PATCH 14/25] fix: setting the query updates the number of parameters

---
 include/boost/url/detail/parse.hpp  | 14 ++++++++++++++
 include/boost/url/impl/url_base.ipp |  9 +++++++++
 2 files changed, 23 insertions(+)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index 6af803a..f7e3c02 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -960,6 +960,20 @@ match_port(string_view s)
         invalid_part::raise();
 }
 
+// number of parameters in query-part
+inline
+std::size_t
+count_params(
+    string_view s) noexcept
+{
+    parts pt;
+    parser pr(s);
+    error_code ec;
+    pr.parse_query(pt, ec);
+    BOOST_ASSERT(! ec);
+    return pt.nparam;
+}
+
 inline
 void
 match_path_abempty(
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index a0c7ae8..be18a4c 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1015,6 +1015,7 @@ set_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1026,6 +1027,8 @@ set_query(
         1 + n);
     dest[0] = '?';
     e.encode(dest + 1, s);
+    pt_.nparam = detail::count_params(
+        pt_.get(detail::id_query, s_));
     return *this;
 }
 
@@ -1037,6 +1040,7 @@ set_encoded_query(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     auto const e =
@@ -1047,6 +1051,8 @@ set_encoded_query(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = detail::count_params(
+        pt_.get(detail::id_query, s_));
     return *this;
 }
 
@@ -1058,6 +1064,7 @@ set_query_part(
     if(s.empty())
     {
         resize(detail::id_query, 0);
+        pt_.nparam = 0;
         return *this;
     }
     if(s.front() != '?')
@@ -1071,6 +1078,8 @@ set_query_part(
         1 + s.size());
     dest[0] = '?';
     s.copy(dest + 1, s.size());
+    pt_.nparam = detail::count_params(
+        pt_.get(detail::id_query, s_));
     return *this;
 }
 
-- 
2.43.0


From 7f4cf0158b9df9d3e56e9471c732fd920037fdb3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:04 +0000
Subject: [PATCH 15/25] fix: iterating the segments stops at the end of the
 path

---
 include/boost/url/impl/url_base.ipp | 6 +++---
 include/boost/url/impl/url_view.ipp | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index be18a4c..da705c7 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1282,10 +1282,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == v_->pt_.offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -1336,7 +1336,7 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         v_->pt_.offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 659dea3..8a2ea61 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -414,10 +414,10 @@ operator++() noexcept ->
 {
     BOOST_ASSERT(
         off_ != pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     off_ = off_ + n_;
     if(off_ == pt_->offset[
-        detail::id_frag])
+        detail::id_query])
     {
         // end
         n_ = 0;
@@ -468,10 +468,10 @@ parse() noexcept
 {
     BOOST_ASSERT(off_ !=
         pt_->offset[
-            detail::id_frag]);
+            detail::id_query]);
     auto const end =
         s_ + pt_->offset[
-            detail::id_frag];
+            detail::id_query];
     auto const p0 = s_ + off_;
     auto p = p0;
     if(*p == '/')
-- 
2.43.0


From bb7a1561c6ed9886954d063e587c5167d69956a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:04 +0000
Subject: [PATCH 16/25] fix: parsing a query parameter stops at the end of the
 query

---
 include/boost/url/impl/url_base.ipp | 2 +-
 include/boost/url/impl/url_view.ipp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index da705c7..c59a954 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1677,7 +1677,7 @@ parse() noexcept
     BOOST_ASSERT(v_->pt_.nparam > 0);
     auto const end =
         v_->s_ + v_->pt_.offset[
-            detail::id_end];
+            detail::id_frag];
     char const* p = v_->s_ + off_;
     BOOST_ASSERT(
         ( off_ == v_->pt_.offset[
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 8a2ea61..0c0cc92 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -649,7 +649,7 @@ parse() noexcept
     BOOST_ASSERT(pt_->nparam > 0);
     auto const end =
         s_ + pt_->offset[
-            detail::id_end];
+            detail::id_frag];
     auto p = s_ + off_;
     BOOST_ASSERT(
         ( off_ == pt_->offset[
-- 
2.43.0


From 97e4b256c2ad4658d5cc9b849a2a3b8daa8f0be1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:09:04 +0000
Subject: [PATCH 17/25] fix: decrementing a query parameter iterator finds the
 previous parameter

---
 include/boost/url/impl/url_base.ipp | 23 ++++++++---------------
 include/boost/url/impl/url_view.ipp | 23 ++++++++---------------
 2 files changed, 16 insertions(+), 30 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index c59a954..369d3cb 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1649,21 +1649,14 @@ operator--() noexcept ->
     BOOST_ASSERT(
         off_ != v_->pt_.offset[
             detail::id_query]);
-    auto const begin =
-        v_->s_ + v_->pt_.offset[
-            detail::id_query];
-    auto p = v_->s_ + off_;
-    while(--p > begin)
-    {
-        if(*p == '&')
-        {
-            off_ = p - v_->s_;
-            parse();
-            return *this;
-        }
-    }
-    BOOST_ASSERT(*p == '?');
-    off_ = p - v_->s_;
+    // keys may contain '&', so
+    // search from the beginning
+    auto const off = off_;
+    off_ = v_->pt_.offset[
+        detail::id_query];
+    parse();
+    while(off_ + nk_ + nv_ != off)
+        ++*this;
     return *this;
 }
 
diff --git a/include/boost/url/impl/url_view.ipp b/include/boost/url/impl/url_view.ipp
index 0c0cc92..c808364 100644
--- a/include/boost/url/impl/url_view.ipp
+++ b/include/boost/url/impl/url_view.ipp
@@ -621,21 +621,14 @@ operator--() noexcept ->
     BOOST_ASSERT(
         off_ != pt_->offset[
             detail::id_query]);
-    auto const begin =
-        s_ + pt_->offset[
-            detail::id_query];
-    auto p = s_ + off_;
-    while(--p > begin)
-    {
-        if(*p == '&')
-        {
-            off_ = p - s_;
-            parse();
-            return *this;
-        }
-    }
-    BOOST_ASSERT(*p == '?');
-    off_ = p - s_;
+    // keys may contain '&', so
+    // search from the beginning
+    auto const off = off_;
+    off_ = pt_->offset[
+        detail::id_query];
+    parse();
+    while(off_ + nk_ + nv_ != off)
+        ++*this;
     return *this;
 }
 
-- 
2.43.0


From f61d3766a2f4a78401cd958c69bd31972d4e7509 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 18/25] fix: inserting or erasing segments at the end of the
 path returns the end iterator

---
 include/boost/url/impl/url_base.ipp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 369d3cb..b270e42 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1334,9 +1334,13 @@ segments_type::
 iterator::
 parse() noexcept
 {
-    BOOST_ASSERT(off_ !=
-        v_->pt_.offset[
-            detail::id_query]);
+    if(off_ == v_->pt_.offset[
+        detail::id_query])
+    {
+        // end
+        n_ = 0;
+        return;
+    }
     auto const end =
         v_->s_ + v_->pt_.offset[
             detail::id_query];
-- 
2.43.0


From 92b978b27d5af667a1e8534aa66df8b841e041e6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:10:00 +0000
Subject: [PATCH 19/25] fix: erase counts the first segment of a rootless path

---
 include/boost/url/impl/url_base.ipp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index b270e42..8d84b45 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1407,7 +1407,9 @@ erase( iterator first, iterator last ) noexcept ->
     if( d == 0 )
         return first;
     BOOST_ASSERT(d > 0);
-    int c = 0;
+    // The first segment of a rootless path has no slash
+    int c = first.off_ == v.pt_.offset[detail::id_path] &&
+        v.s_[first.off_] != '/';
     for( auto i = v.s_ + first.off_, e = v.s_ + last.off_; i != e; ++i )
         c += (*i == '/'); // Count the number of segments in the range
     BOOST_ASSERT(c > 0);
-- 
2.43.0


From b22db2c6101fa94feae3f285905af779f2fb195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:08 +0000
Subject: [PATCH 20/25] fix: scheme names are matched without the C library's
 locale

---
 include/boost/url/detail/char_type.hpp |  2 +-
 include/boost/url/impl/scheme.ipp      | 38 +++++++++++++-------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/include/boost/url/detail/char_type.hpp b/include/boost/url/detail/char_type.hpp
index cfc288b..32a3dd7 100644
--- a/include/boost/url/detail/char_type.hpp
+++ b/include/boost/url/detail/char_type.hpp
@@ -26,7 +26,7 @@ to_lower(char c) noexcept
         static_cast<unsigned char>(c - 65);
     if(u > 25)
         return c;
-    return 'a' + c;
+    return 'a' + u;
 }
 
 inline
diff --git a/include/boost/url/impl/scheme.ipp b/include/boost/url/impl/scheme.ipp
index 1885550..bd43813 100644
--- a/include/boost/url/impl/scheme.ipp
+++ b/include/boost/url/impl/scheme.ipp
@@ -25,23 +25,23 @@ string_to_scheme(
     switch(s.size())
     {
     case 2: // ws
-        if( tolower(s[0]) == 'w' &&
-            tolower(s[1]) == 's')
+        if( to_lower(s[0]) == 'w' &&
+            to_lower(s[1]) == 's')
             return scheme::ws;
         break;
 
     case 3:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'w': // wss
-            if( tolower(s[1]) == 's' &&
-                tolower(s[2]) == 's')
+            if( to_lower(s[1]) == 's' &&
+                to_lower(s[2]) == 's')
                 return scheme::wss;
             break;
 
         case 'f': // ftp
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 'p')
                 return scheme::ftp;
             break;
 
@@ -51,19 +51,19 @@ string_to_scheme(
         break;
 
     case 4:
-        switch(tolower(s[0]))
+        switch(to_lower(s[0]))
         {
         case 'f': // file
-            if( tolower(s[1]) == 'i' &&
-                tolower(s[2]) == 'l' &&
-                tolower(s[3]) == 'e')
+            if( to_lower(s[1]) == 'i' &&
+                to_lower(s[2]) == 'l' &&
+                to_lower(s[3]) == 'e')
                 return scheme::file;
             break;
 
         case 'h': // http
-            if( tolower(s[1]) == 't' &&
-                tolower(s[2]) == 't' &&
-                tolower(s[3]) == 'p')
+            if( to_lower(s[1]) == 't' &&
+                to_lower(s[2]) == 't' &&
+                to_lower(s[3]) == 'p')
                 return scheme::http;
             break;
 
@@ -73,11 +73,11 @@ string_to_scheme(
         break;
 
     case 5: // https
-        if( tolower(s[0]) == 'h' &&
-            tolower(s[1]) == 't' &&
-            tolower(s[2]) == 't' &&
-            tolower(s[3]) == 'p' &&
-            tolower(s[4]) == 's')
+        if( to_lower(s[0]) == 'h' &&
+            to_lower(s[1]) == 't' &&
+            to_lower(s[2]) == 't' &&
+            to_lower(s[3]) == 'p' &&
+            to_lower(s[4]) == 's')
             return scheme::https;
         break;
 
-- 
2.43.0


From 7a1840944567ee963c5b8ceda2c3961d30a22692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 21/25] fix: inserting a segment at the front of a rootless
 path keeps the segments apart

---
 include/boost/url/impl/url_base.ipp | 32 +++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 8d84b45..4e5c16d 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1439,15 +1439,23 @@ insert_encoded_impl( iterator pos, string_view s ) ->
     BOOST_ASSERT(pos.off_ >= v.pt_.offset[detail::id_path]);
     BOOST_ASSERT(pos.off_ <= v.pt_.offset[detail::id_query]);
     auto const n0 = v.pt_.offset[detail::id_end];
-    auto const n = s.size() + 1;
+    // A rootless path has no slash before its first segment
+    bool const rootless = pos.off_ == v.pt_.offset[detail::id_path] &&
+        v.pt_.length(detail::id_path) > 0 && v.s_[pos.off_] != '/';
+    // An empty first segment needs a leading slash
+    std::size_t const lead = (! rootless || s.empty()) ? 1 : 0;
+    auto const n = lead + s.size() + rootless;
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
     std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    std::memcpy(v.s_ + pos.off_ + 1, s.data(), s.size());
+    if(lead)
+        v.s_[pos.off_] = '/';
+    std::memcpy(v.s_ + pos.off_ + lead, s.data(), s.size());
+    if(rootless)
+        v.s_[pos.off_ + lead + s.size()] = '/';
     ++v.pt_.nseg;
-    pos.off_ += n;
+    pos.off_ += lead + s.size();
     pos.parse();
     return pos;
 }
@@ -1467,15 +1475,23 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     auto const pct = detail::pchar_pct_set();
     BOOST_ASSERT(pct.encoded_size(s) == ns);
     auto const n0 = v.pt_.offset[detail::id_end];
-    auto const n = ns + 1;
+    // A rootless path has no slash before its first segment
+    bool const rootless = pos.off_ == v.pt_.offset[detail::id_path] &&
+        v.pt_.length(detail::id_path) > 0 && v.s_[pos.off_] != '/';
+    // An empty first segment needs a leading slash
+    std::size_t const lead = (! rootless || s.empty()) ? 1 : 0;
+    auto const n = lead + ns + rootless;
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
     std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
-    v.s_[pos.off_] = '/';
-    pct.encode(v.s_ + pos.off_ + 1, s);
+    if(lead)
+        v.s_[pos.off_] = '/';
+    pct.encode(v.s_ + pos.off_ + lead, s);
+    if(rootless)
+        v.s_[pos.off_ + lead + ns] = '/';
     ++v.pt_.nseg;
-    pos.off_ += n;
+    pos.off_ += lead + ns;
     pos.parse();
     return pos;
 }
-- 
2.43.0


From 773f69bd2c8323f0b3bf28951652caa835e6a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:39 +0000
Subject: [PATCH 22/25] fix: inserting a segment into an empty URL does not
 copy an indeterminate byte over the terminator

---
 include/boost/url/impl/url_base.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 4e5c16d..6f1ca0f 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -1447,7 +1447,7 @@ insert_encoded_impl( iterator pos, string_view s ) ->
     auto const n = lead + s.size() + rootless;
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
+    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
     if(lead)
         v.s_[pos.off_] = '/';
@@ -1483,7 +1483,7 @@ insert_impl( iterator pos, string_view s, std::size_t const ns ) ->
     auto const n = lead + ns + rootless;
     v.s_ = v.a_.resize(v.size() + n);
     v.pt_.resize(detail::id_path, v.pt_.length(detail::id_path, detail::id_query) + n);
-    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_ + 1);
+    std::memmove(v.s_ + v.pt_.offset[detail::id_end] + pos.off_ - n0, v.s_ + pos.off_, n0 - pos.off_);
     BOOST_ASSERT(v.s_[v.pt_.offset[detail::id_end]] == '\0');
     if(lead)
         v.s_[pos.off_] = '/';
-- 
2.43.0


From 690085a90f1c546f6d4c4783b3e75adc84a8cc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:47 +0000
Subject: [PATCH 23/25] fix: set_encoded_origin rejects text that is not a URL
 and ignores the path

---
 include/boost/url/detail/parse.hpp  | 7 -------
 include/boost/url/impl/url_base.ipp | 3 +++
 2 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/boost/url/detail/parse.hpp b/include/boost/url/detail/parse.hpp
index f7e3c02..86b2ed9 100644
--- a/include/boost/url/detail/parse.hpp
+++ b/include/boost/url/detail/parse.hpp
@@ -841,15 +841,8 @@ parse_origin(
     }
     pr.mark(pt, id_scheme);
     pr.parse_hier_part(pt, ec);
-
-    // authority
-    if(! pr.match_literal("//"))
-        return;
-    pr.parse_authority(pt, ec);
     if(ec)
         return;
-    pt.resize(id_user,
-        pt.length(id_user) + 1);
 
     if(! pr.done())
         ec = error::syntax;
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 6f1ca0f..7b04d1e 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -105,6 +105,9 @@ set_encoded_origin(
     detail::parse_origin(pt, s, ec);
     if(ec)
         invalid_part::raise();
+    // the origin ends where the path begins
+    s = s.substr(0, pt.offset[
+        detail::id_path]);
     auto const dest =
         resize(
             detail::id_scheme,
-- 
2.43.0


From 332f4ccf18cca3e9415d2e20f279e5c330415d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:02 +0000
Subject: [PATCH 24/25] fix: copy assignment of a URL copies it

basic_url::operator= returned without copying, so that after a = b
the URL a still held its old contents.
---
 include/boost/url/basic_url.hpp     |  3 ++-
 include/boost/url/impl/url_base.ipp | 16 ++++++++++++++++
 include/boost/url/url_base.hpp      |  6 ++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/boost/url/basic_url.hpp b/include/boost/url/basic_url.hpp
index 0219765..8bb219a 100644
--- a/include/boost/url/basic_url.hpp
+++ b/include/boost/url/basic_url.hpp
@@ -65,8 +65,9 @@ public:
 
     basic_url&
     operator=(
-        basic_url const&)
+        basic_url const& other)
     {
+        this->assign(other);
         return *this;
     }
 };
diff --git a/include/boost/url/impl/url_base.ipp b/include/boost/url/impl/url_base.ipp
index 7b04d1e..17b1270 100644
--- a/include/boost/url/impl/url_base.ipp
+++ b/include/boost/url/impl/url_base.ipp
@@ -38,6 +38,22 @@ url_base(
     set_encoded_url(s);
 }
 
+void
+url_base::
+assign(url_base const& other)
+{
+    if(this == &other)
+        return;
+    auto const n = other.size();
+    if(n > 0 || s_)
+        s_ = a_.resize(n);
+    //---
+    if(n > 0)
+        std::memcpy(
+            s_, other.s_, n);
+    pt_ = other.pt_;
+}
+
 string_view
 url_base::
 encoded_url() const
diff --git a/include/boost/url/url_base.hpp b/include/boost/url/url_base.hpp
index 5728f60..afd58e3 100644
--- a/include/boost/url/url_base.hpp
+++ b/include/boost/url/url_base.hpp
@@ -81,6 +81,12 @@ private:
         detail::storage& a,
         string_view s);
 
+    /** Replace the contents with a copy of another URL.
+    */
+    BOOST_URL_DECL
+    void
+    assign(url_base const& other);
+
 public:
     class segments_type;
     class params_type;
-- 
2.43.0


From e1fc1c632ddfe0207e139632e4e2d2a44d9cb5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:47 +0000
Subject: [PATCH 25/25] fix: static_pool never hands out memory outside its
 buffer

Aligning the next block could move past the end of the buffer, whereupon
the remaining capacity wrapped around and the allocation succeeded. The
size of an allocation of n objects could wrap around as well.
---
 include/boost/url/static_pool.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/boost/url/static_pool.hpp b/include/boost/url/static_pool.hpp
index 57ebcb5..6e93aed 100644
--- a/include/boost/url/static_pool.hpp
+++ b/include/boost/url/static_pool.hpp
@@ -35,8 +35,11 @@ class basic_static_pool
             (u0 + align - 1) / align);
         auto const p =
             reinterpret_cast<char*>(u);
-        if( u < u0 || bytes >
-            capacity_ - (p - base_))
+        auto const used =
+            static_cast<std::size_t>(p - base_);
+        // alignment can move p past the end
+        if( u < u0 || used > capacity_ ||
+            bytes > capacity_ - used)
             BOOST_THROW_EXCEPTION(
                 std::bad_alloc());
         top_ = reinterpret_cast<
@@ -103,6 +106,10 @@ public:
         pointer
         allocate(size_type n)
         {
+            if(n > static_cast<
+                size_type>(-1) / sizeof(T))
+                BOOST_THROW_EXCEPTION(
+                    std::bad_alloc());
             return reinterpret_cast<T*>(
                 pool_->allocate(
                     n * sizeof(T),
-- 
2.43.0


From d73db9c7df53404ba9d1ecf1030413085bd69890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:55 +0000
Subject: [PATCH 01/31] fix: pad unicode escape sequences to four hex digits

json_hex used sizeof() of the integer type as the field width, so a 16-bit
codepoint below 0x1000 was written as '\\u01' or '\\uE9', which is not JSON.
---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index e41aaa0..0eb79ea 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -82,7 +82,7 @@ struct json_hex
     friend inline std::basic_ostream<_CharTy>& operator<<(std::basic_ostream<_CharTy>& os, const json_hex& i)
     {
         os << std::setfill(_CharTy('0')) << std::hex << std::uppercase;
-        os << '\\' << 'u' << std::setw(sizeof(i.i)) << i.i;
+        os << '\\' << 'u' << std::setw(4) << i.i;
         os << std::dec << std::nouppercase;
         return os;
     }
-- 
2.43.0


From 3505b51d54bff2353087a12074a6917f7290e3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 02/31] fix: report a sign without digits as a deserialization
 error

Inputs like '-' or '-x' ran into an assertion (or garbage with NDEBUG).
---
 include/configor/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 0eb79ea..4f2ebb8 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -509,7 +509,8 @@ public:
     {
         using integer_type = typename value_type::integer_type;
 
-        CONFIGOR_ASSERT(is_digit(current_));
+        if (!is_digit(current_))
+            fail("invalid number, got", current_);
 
         number_integer_ = static_cast<integer_type>(current_ - '0');
         while (true)
-- 
2.43.0


From 86efe378e8a27c0145b0557e19b7315317beddea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:01 +0000
Subject: [PATCH 03/31] fix: require a digit after the exponent sign

'1e+}' consumed the bracket as a digit of the exponent.
---
 include/configor/json.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 4f2ebb8..78ea875 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -584,6 +584,9 @@ public:
             read_next();
         }
 
+        if (!is_digit(current_))
+            fail("invalid exponent number, got", current_);
+
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-- 
2.43.0


From b2685388817a83ff41b6a9469c6668799033563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 04/31] fix: integer literals out of the integer range must not
 overflow

The digits were accumulated without a range check (undefined behaviour for
signed types), so 9223372036854775808 became INT64_MIN and the integer part of
12345678901234567890.5 was garbage. Such literals are now read as floats.
---
 include/configor/json.hpp | 41 +++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 78ea875..026d511 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -23,7 +23,9 @@
 
 #include <algorithm>  // std::for_each
 #include <iomanip>    // std::setprecision
+#include <cmath>      // std::fabs
 #include <ios>        // std::noskipws, std::noshowbase, std::right
+#include <limits>     // std::numeric_limits
 
 namespace configor
 {
@@ -163,7 +165,7 @@ public:
 
     virtual void get_integer(typename value_type::integer_type& out) override
     {
-        out = is_negative_ ? -number_integer_ : number_integer_;
+        out = number_integer_;
     }
 
     virtual void get_float(typename value_type::float_type& out) override
@@ -494,7 +496,10 @@ public:
         {
             read_next();
             if (current_ == '.')
+            {
+                number_float_ = 0;
                 return scan_float();
+            }
 
             if (current_ == 'e' || current_ == 'E')
                 fail("invalid exponent");
@@ -508,31 +513,47 @@ public:
     token_type scan_integer()
     {
         using integer_type = typename value_type::integer_type;
+        using float_type   = typename value_type::float_type;
+        using limits       = std::numeric_limits<integer_type>;
 
         if (!is_digit(current_))
             fail("invalid number, got", current_);
 
-        number_integer_ = static_cast<integer_type>(current_ - '0');
+        // accumulate with the sign, the minimum integer has no positive counterpart
+        bool overflow = false;
         while (true)
         {
-            const auto ch = read_next();
-            if (ch == '.' || ch == 'e' || ch == 'E')
-                return scan_float();
+            const auto digit = static_cast<integer_type>(current_ - '0');
+            if (!overflow
+                && (is_negative_ ? number_integer_ < (limits::min() + digit) / 10
+                                 : number_integer_ > (limits::max() - digit) / 10))
+            {
+                // does not fit the integer type, continue as a float number
+                overflow      = true;
+                number_float_ = std::fabs(static_cast<float_type>(number_integer_));
+            }
 
-            if (is_digit(ch))
-                number_integer_ = number_integer_ * 10 + static_cast<integer_type>(ch - '0');
+            if (overflow)
+                number_float_ = number_float_ * 10 + static_cast<float_type>(digit);
             else
+                number_integer_ = static_cast<integer_type>(number_integer_ * 10 + (is_negative_ ? -digit : digit));
+
+            if (!is_digit(read_next()))
                 break;
         }
-        return token_type::value_integer;
+
+        if (!overflow)
+            number_float_ = std::fabs(static_cast<float_type>(number_integer_));
+
+        if (current_ == '.' || current_ == 'e' || current_ == 'E')
+            return scan_float();
+        return overflow ? token_type::value_float : token_type::value_integer;
     }
 
     token_type scan_float()
     {
         using float_type = typename value_type::float_type;
 
-        number_float_ = static_cast<float_type>(number_integer_);
-
         if (current_ == 'e' || current_ == 'E')
             return scan_exponent();
 
-- 
2.43.0


From 809f58222052359116d55ee7b96949e9f785e6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 05/31] fix: huge exponents must not wrap around or produce NaN

1e4294967297 was read as 10, and 0.0e999 as NaN.
---
 include/configor/json.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 026d511..d4986a8 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -611,7 +611,9 @@ public:
         uint32_t exponent = static_cast<uint32_t>(current_ - '0');
         while (is_digit(read_next()))
         {
-            exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
+            // saturate, far beyond the range of any float type
+            if (exponent < 100000000)
+                exponent = (exponent * 10) + static_cast<uint32_t>(current_ - '0');
         }
 
         float_type power = 1;
@@ -619,7 +621,9 @@ public:
             if (exponent & 1)
                 power *= base;
 
-        number_float_ *= power;
+        // zero stays zero even if the power is infinite
+        if (number_float_ != 0)
+            number_float_ *= power;
         return token_type::value_float;
     }
 
-- 
2.43.0


From b182d3f3dfc117d2856c3e19cb960e722314c1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:10 +0000
Subject: [PATCH 06/31] fix: compare whole codepoints when scanning numbers and
 literals

The codepoint was truncated to the source character type, so U+0130 counted as
the digit '0' and 't\\u0172ue' as the literal true.
---
 include/configor/json.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index d4986a8..1e5cce6 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -328,7 +328,7 @@ public:
     {
         for (const auto ch : text)
         {
-            if (ch != std::char_traits<source_char_type>::to_char_type(current_))
+            if (static_cast<uint32_t>(ch) != current_)
             {
                 detail::fast_ostringstream ss;
                 ss << "unexpected character '" << static_cast<char>(current_) << "'";
@@ -653,9 +653,9 @@ public:
         return code;
     }
 
-    inline bool is_digit(source_char_type ch) const
+    inline bool is_digit(uint32_t ch) const
     {
-        return source_char_type('0') <= ch && ch <= source_char_type('9');
+        return '0' <= ch && ch <= '9';
     }
 
     inline void fail(const std::string& msg)
-- 
2.43.0


From c5b4d1d28674be28149bc8c95adac8a62a8b7d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 07/31] fix: recognize the end of a comment after consecutive
 asterisks

'/***/' and '/* x **/' were reported as unterminated comments.
---
 include/configor/json.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 1e5cce6..a366a61 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -299,9 +299,10 @@ public:
         else if (current_ == '*')
         {
             // multiple line comment
+            read_next();
             while (true)
             {
-                if (read_next() == '*')
+                if (current_ == '*')
                 {
                     if (read_next() == '/')
                     {
@@ -310,6 +311,10 @@ public:
                         break;
                     }
                 }
+                else
+                {
+                    read_next();
+                }
 
                 if (this->is_.eof())
                 {
-- 
2.43.0


From 85ea5c474d41f8ffaca2779faeb9d8e19c8d052d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:16 +0000
Subject: [PATCH 08/31] fix: skip consecutive comments without recursion

Every comment added stack frames, a long run of them overflowed the stack.
---
 include/configor/json.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index a366a61..84674c6 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -264,12 +264,14 @@ public:
 
     void skip_spaces()
     {
-        while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
-            read_next();
-
-        // skip comments
-        if (current_ == '/')
+        while (true)
         {
+            while (current_ == ' ' || current_ == '\t' || current_ == '\n' || current_ == '\r')
+                read_next();
+
+            if (current_ != '/')
+                break;
+
             skip_comments();
         }
     }
@@ -286,7 +288,6 @@ public:
                 if (current_ == '\n' || current_ == '\r')
                 {
                     // end of comment
-                    skip_spaces();
                     break;
                 }
 
@@ -321,7 +322,6 @@ public:
                     fail("unexpected eof while reading comment");
                 }
             }
-            skip_spaces();
         }
         else
         {
-- 
2.43.0


From 7cd0db15394060cde0d6522e95755d44fc278a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:19 +0000
Subject: [PATCH 09/31] fix: a comment ends at the end of a NUL-terminated
 input

Input adapters signal the end with NUL instead of EOF, a trailing comment
made the parser read forever.
---
 include/configor/json.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 84674c6..08ed851 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -291,7 +291,7 @@ public:
                     break;
                 }
 
-                if (this->is_.eof())
+                if (this->is_.eof() || current_ == 0)
                 {
                     break;
                 }
@@ -317,7 +317,7 @@ public:
                     read_next();
                 }
 
-                if (this->is_.eof())
+                if (this->is_.eof() || current_ == 0)
                 {
                     fail("unexpected eof while reading comment");
                 }
-- 
2.43.0


From a229cca80daaa2c1a614af9ab5b35421e462923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:23 +0000
Subject: [PATCH 10/31] fix: do not cast floats beyond the int64_t range when
 dumping

1e300 was dumped as -9223372036854775808.0.
---
 include/configor/json.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 08ed851..eb72a79 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -896,7 +896,8 @@ public:
 
     virtual void put_float(typename value_type::float_type f) override
     {
-        if (std::ceil(f) == std::floor(f))
+        // beyond the range of int64_t the cast is undefined
+        if (std::ceil(f) == std::floor(f) && std::fabs(f) < static_cast<typename value_type::float_type>(9223372036854775808.0))
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
-- 
2.43.0


From c0b76e8ac2f3e62bdd76efa5a4f983c5842d68fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 11/31] fix: keep floats recognizable when rounding removes the
 fraction

123456.7 was dumped as 123457 with the default precision, which is read back
as an integer.
---
 include/configor/json.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index eb72a79..597309e 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -23,7 +23,7 @@
 
 #include <algorithm>  // std::for_each
 #include <iomanip>    // std::setprecision
-#include <cmath>      // std::fabs
+#include <cmath>      // std::fabs, std::isfinite
 #include <ios>        // std::noskipws, std::noshowbase, std::right
 #include <limits>     // std::numeric_limits
 
@@ -904,7 +904,19 @@ public:
         }
         else
         {
-            this->os_ << f;
+            fast_basic_ostringstream<target_char_type> ss;
+            ss.copyfmt(this->os_);
+            ss << f;
+
+            const auto& str = ss.str();
+            this->os_.write(str.c_str(), static_cast<std::streamsize>(str.size()));
+
+            // rounding may have removed the fraction, but it is still a float
+            const target_char_type marks[] = { '.', 'e', 0 };
+            if (std::isfinite(f) && str.find_first_of(marks) == str.npos)
+            {
+                output({ '.', '0' });
+            }
         }
     }
 
-- 
2.43.0


From d00430547081bfbc0e9e3db73248c7a4fae4067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 12/31] fix: reject ill-formed unicode sequences

The utf8 decoder accepted stray and missing continuation bytes (swallowing the
following characters, even a closing quote), overlong forms and surrogates, and
all codecs accepted lone surrogates, so ill-formed text was read and written.
---
 include/configor/details/encoding.hpp | 79 +++++++++++++++++----------
 1 file changed, 51 insertions(+), 28 deletions(-)

diff --git a/include/configor/details/encoding.hpp b/include/configor/details/encoding.hpp
index 7ca64fa..161928e 100644
--- a/include/configor/details/encoding.hpp
+++ b/include/configor/details/encoding.hpp
@@ -54,6 +54,11 @@ inline bool is_trail_surrogate(const uint32_t codepoint)
     return constants::trail_surrogate_begin <= codepoint && codepoint <= constants::trail_surrogate_end;
 }
 
+inline bool is_surrogate(const uint32_t codepoint)
+{
+    return is_lead_surrogate(codepoint) || is_trail_surrogate(codepoint);
+}
+
 inline uint32_t decode_surrogates(uint32_t lead_surrogate, uint32_t trail_surrogate)
 {
     uint32_t codepoint = ((lead_surrogate - constants::lead_surrogate_begin) << constants::surrogate_bits);
@@ -115,7 +120,11 @@ public:
         // U+0080...U+07FF      110xxxxx 10xxxxxx
         // U+0800...U+FFFF      1110xxxx 10xxxxxx 10xxxxxx
         // U+10000...U+10FFFF   11110xxx 10xxxxxx 10xxxxxx 10xxxxxx
-        if (codepoint < 0x80)
+        if (unicode::is_surrogate(codepoint))
+        {
+            os.setstate(std::ios_base::failbit);
+        }
+        else if (codepoint < 0x80)
         {
             // 0xxxxxxx
             os.put(static_cast<char_type>(codepoint));
@@ -165,8 +174,12 @@ public:
             2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5,
         };
 
-        static const std::array<std::uint32_t, 6> utf8_offsets = {
-            0x00000000, 0x00003080, 0x000E2080, 0x03C82080, 0xFA082080, 0x82082080,
+        // the smallest codepoint of each length, anything below is an overlong form
+        static const std::array<std::uint32_t, 4> utf8_minimums = {
+            0x00000000,
+            0x00000080,
+            0x00000800,
+            0x00010000,
         };
 
         // peek one byte and check eof
@@ -175,32 +188,34 @@ public:
         if (is.eof())
             return false;
 
-        codepoint = 0;
-
         // read bytes
+        codepoint = static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+
         const auto extra_bytes_to_read = utf8_extra_bytes[first_byte];
-        switch (extra_bytes_to_read)
+        if (extra_bytes_to_read >= utf8_minimums.size() || (first_byte & 0xC0) == 0x80)
         {
-        case 5:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 4:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 3:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 2:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 1:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
-            codepoint <<= 6;
-        case 0:
-            codepoint += static_cast<uint32_t>(static_cast<uint8_t>(is.get()));
+            // 5 or 6 bytes form, or a continuation byte without a lead byte
+            is.setstate(std::ios_base::failbit);
+            return true;
         }
-        codepoint -= utf8_offsets[extra_bytes_to_read];
-        if (codepoint > 0x10FFFF)
+
+        if (extra_bytes_to_read > 0)
+            codepoint &= static_cast<uint32_t>(0x3F >> extra_bytes_to_read);
+
+        for (std::uint8_t i = 0; i < extra_bytes_to_read; ++i)
+        {
+            const auto next_byte = static_cast<uint8_t>(is.peek());
+            if (is.eof() || (next_byte & 0xC0) != 0x80)
+            {
+                // not a continuation byte
+                is.setstate(std::ios_base::failbit);
+                return true;
+            }
+            codepoint = (codepoint << 6) | static_cast<uint32_t>(next_byte & 0x3F);
+            is.get();
+        }
+
+        if (codepoint > 0x10FFFF || codepoint < utf8_minimums[extra_bytes_to_read] || unicode::is_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
@@ -221,7 +236,11 @@ public:
 
     static void encode(ostream_type& os, uint32_t codepoint)
     {
-        if (codepoint <= 0xFFFF)
+        if (unicode::is_surrogate(codepoint))
+        {
+            os.setstate(std::ios_base::failbit);
+        }
+        else if (codepoint <= 0xFFFF)
         {
             os.put(traits_type::to_char_type(static_cast<typename traits_type::int_type>(codepoint)));
         }
@@ -259,6 +278,10 @@ public:
                 is.setstate(std::ios_base::failbit);
             }
         }
+        else if (unicode::is_trail_surrogate(codepoint))
+        {
+            is.setstate(std::ios_base::failbit);
+        }
 
         if (codepoint > 0x10FFFF)
         {
@@ -281,7 +304,7 @@ public:
 
     static void encode(ostream_type& os, uint32_t codepoint)
     {
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_surrogate(codepoint))
         {
             os.setstate(std::ios_base::failbit);
         }
@@ -295,7 +318,7 @@ public:
         if (is.eof())
             return false;
 
-        if (codepoint > 0x10FFFF)
+        if (codepoint > 0x10FFFF || unicode::is_surrogate(codepoint))
         {
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From 90fdef609ad36e034ac87bff548bd667ba3c6f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 13/31] fix: count the peeked character when reading a block
 from an adapter

read(s, n) after peek() reported one character less than it stored and set
failbit, and read(s, 0) wrote to the buffer.
---
 include/configor/details/stream.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index a99761e..c6be093 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -177,15 +177,18 @@ private:
 
         virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
         {
+            if (num <= 0)
+                return 0;
+
+            std::streamsize copied = 0;
             if (last_char_ != 0)
             {
                 // read last char
                 s[0]       = traits_type::to_char_type(last_char_);
                 last_char_ = 0;
-                ++s;
-                --num;
+                copied     = 1;
             }
-            adapter_.read(s, static_cast<size_t>(num));
+            adapter_.read(s + copied, static_cast<size_t>(num - copied));
             return num;
         }
 
-- 
2.43.0


From a1622b3e96e21aa2fc6c5f94313a68457ee5c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:59 +0000
Subject: [PATCH 14/31] fix: replace the content of maps in from_value

Unlike every other container std::map and std::unordered_map kept their stale
entries, which won over the ones of the value.
---
 include/configor/details/conversion.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index e3bcba9..218b6db 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -449,6 +449,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
@@ -474,6 +475,7 @@ template <typename _ValTy, typename _KeyTy, typename _Ty,
                                   int>::type = 0>
 void from_value(const _ValTy& c, std::unordered_map<_KeyTy, _Ty>& v)
 {
+    v.clear();
     for (auto iter = c.cbegin(); iter != c.cend(); iter++)
     {
         v.emplace(iter.key(), iter.value().template get<_Ty>());
-- 
2.43.0


From e328883ed22f443d32b21519e31ce41badba25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:04 +0000
Subject: [PATCH 15/31] fix: neither leak nor double free when constructing a
 value throws

A throwing to_value() leaked the content built so far, a throwing reset() left
the type set with a dangling pointer, and create_data() leaked its memory.
---
 include/configor/details/value.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 97c9bbe..4782817 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -156,8 +156,7 @@ public:
               typename std::enable_if<!is_value<_UTy>::value && detail::has_to_value<basic_value, _UTy>::value,
                                       int>::type = 0>
     basic_value(_CompatibleTy&& value)
-        : type_{ value_constant::null }
-        , data_{}
+        : basic_value()
     {
         binder_type<_UTy>::to_value(*this, std::forward<_CompatibleTy>(value));
     }
@@ -1024,8 +1023,9 @@ public:
     static void reset(value_type& v, _Args&&... args)
     {
         destroy(v);
-        v.type(_Ty);
+        v.type(value_constant::null);
         construct<_Ty>(v, std::forward<_Args>(args)...);
+        v.type(_Ty);
     }
 
     template <value_constant::type _Ty, typename... _Args>
@@ -1103,7 +1103,15 @@ private:
         static allocator_type<_Ty> allocator;
 
         auto ptr = allocator_traits::allocate(allocator, 1);
-        allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        try
+        {
+            allocator_traits::construct(allocator, ptr, std::forward<_Args>(args)...);
+        }
+        catch (...)
+        {
+            allocator_traits::deallocate(allocator, ptr, 1);
+            throw;
+        }
         return ptr;
     }
 
-- 
2.43.0


From 44d260ff7b9b2df549099435e9435a096af3a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:07 +0000
Subject: [PATCH 16/31] fix: report output failures when dumping

Only failures within a string were noticed, anything else that could not be
written to the underlying buffer was lost silently.
---
 include/configor/details/serializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 6eba96f..878c46e 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -60,6 +60,9 @@ public:
         {
             do_dump(c);
             next(token_type::end_of_input);
+
+            if (!os_.good())
+                throw configor_serialization_error("output failed");
         }
         catch (...)
         {
-- 
2.43.0


From 18152c2ad3cce3d4ac005368906cb39d7efa992b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:10 +0000
Subject: [PATCH 17/31] fix: check the output state at the end of a parsed
 string

A failure while appending an escaped character was only noticed by the next
ordinary one, so a string ending with it was truncated silently.
---
 include/configor/json.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 597309e..a4f501b 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -367,6 +367,11 @@ public:
             case '\"':
             {
                 // end of string
+                if (!oss.good())
+                {
+                    fail("encoding failed while reading string");
+                }
+
                 // skip last `\"`
                 read_next();
                 return;
-- 
2.43.0


From 87247c33dd4ea3140f6b8e38ad29108de57d3509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 18/31] fix: do not truncate a float when its temporary stream
 fails

An allocation failure inside operator<< only sets badbit on the temporary
stream; forward the state instead of writing what was collected so far.
---
 include/configor/json.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index a4f501b..3446238 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -902,7 +902,8 @@ public:
     virtual void put_float(typename value_type::float_type f) override
     {
         // beyond the range of int64_t the cast is undefined
-        if (std::ceil(f) == std::floor(f) && std::fabs(f) < static_cast<typename value_type::float_type>(9223372036854775808.0))
+        const auto limit = static_cast<typename value_type::float_type>(9223372036854775808.0);
+        if (std::ceil(f) == std::floor(f) && std::fabs(f) < limit)
         {
             // integer
             this->os_ << static_cast<int64_t>(f) << ".0";
@@ -912,6 +913,11 @@ public:
             fast_basic_ostringstream<target_char_type> ss;
             ss.copyfmt(this->os_);
             ss << f;
+            if (!ss.good())
+            {
+                this->os_.setstate(ss.rdstate());
+                return;
+            }
 
             const auto& str = ss.str();
             this->os_.write(str.c_str(), static_cast<std::streamsize>(str.size()));
-- 
2.43.0


From e0c1cdc84bc26df7fbb864fb4caad7c601d0149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:05 +0000
Subject: [PATCH 19/31] fix: reject an object member without a colon

---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 74555fa..9b11ca4 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -182,7 +182,7 @@ protected:
 
                 token = scan();
                 if (token != token_type::name_separator)
-                    break;
+                    fail(token, token_type::name_separator);
 
                 _ValTy object;
                 do_parse(object, token);
-- 
2.43.0


From 17297a507e4d6ddd1fa8f871410e04e8da1774b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:40 +0000
Subject: [PATCH 20/31] fix: do not lose a NUL after a peek

A NUL read from a FILE or an adapter was forgotten by peek, [1<NUL>] was read
as [1].
---
 include/configor/details/stream.hpp | 44 ++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index c6be093..3726eb5 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -156,22 +156,25 @@ private:
         explicit streambuf(basic_iadapter<char_type>& adapter)
             : adapter_(adapter)
             , last_char_(0)
+            , peeked_(false)
         {
         }
 
     protected:
         virtual int_type underflow() override
         {
-            if (last_char_ != 0)
-                return last_char_;
-            last_char_ = traits_type::to_char_type(adapter_.read());
+            if (!peeked_)
+            {
+                last_char_ = traits_type::to_char_type(adapter_.read());
+                peeked_    = true;
+            }
             return last_char_;
         }
 
         virtual int_type uflow() override
         {
             int_type c = underflow();
-            last_char_ = 0;
+            peeked_    = false;
             return c;
         }
 
@@ -181,12 +184,12 @@ private:
                 return 0;
 
             std::streamsize copied = 0;
-            if (last_char_ != 0)
+            if (peeked_)
             {
                 // read last char
-                s[0]       = traits_type::to_char_type(last_char_);
-                last_char_ = 0;
-                copied     = 1;
+                s[0]    = traits_type::to_char_type(last_char_);
+                peeked_ = false;
+                copied  = 1;
             }
             adapter_.read(s + copied, static_cast<size_t>(num - copied));
             return num;
@@ -195,6 +198,7 @@ private:
     private:
         basic_iadapter<char_type>& adapter_;
         int_type                   last_char_;
+        bool                       peeked_;
     };
 
     streambuf buf_;
@@ -351,22 +355,25 @@ public:
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
         , last_char_(0)
+        , peeked_(false)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
-            return last_char_;
-        last_char_ = std::fgetc(file_);
+        if (!peeked_)
+        {
+            last_char_ = std::fgetc(file_);
+            peeked_    = true;
+        }
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        last_char_ = 0;
+        peeked_    = false;
         return c;
     }
 
@@ -380,6 +387,7 @@ protected:
 private:
     std::FILE* file_;
     int_type   last_char_;
+    bool       peeked_;
 };
 
 template <>
@@ -394,22 +402,25 @@ public:
     explicit fast_cfile_istreambuf(std::FILE* file)
         : file_(file)
         , last_char_(0)
+        , peeked_(false)
     {
     }
 
 protected:
     virtual int_type underflow() override
     {
-        if (last_char_ != 0)
-            return last_char_;
-        last_char_ = std::fgetwc(file_);
+        if (!peeked_)
+        {
+            last_char_ = std::fgetwc(file_);
+            peeked_    = true;
+        }
         return last_char_;
     }
 
     virtual int_type uflow() override
     {
         int_type c = underflow();
-        last_char_ = 0;
+        peeked_    = false;
         return c;
     }
 
@@ -423,6 +434,7 @@ protected:
 private:
     std::FILE* file_;
     int_type   last_char_;
+    bool       peeked_;
 };
 
 //
-- 
2.43.0


From 3084d9072e7d6f64dd5a33acb46705675176ec5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:31 +0000
Subject: [PATCH 21/31] fix: compare nested values in linear time, not
 exponential in their depth

---
 include/configor/details/value.hpp | 129 +++++++++++++++++++----------
 1 file changed, 86 insertions(+), 43 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index 4782817..cdd7e06 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -885,50 +885,9 @@ public:
 
     // lt functions
 
-    friend bool operator<(const basic_value& lhs, const basic_value& rhs)
+    friend inline bool operator<(const basic_value& lhs, const basic_value& rhs)
     {
-        const auto lhs_type = lhs.type();
-        const auto rhs_type = rhs.type();
-
-        if (lhs_type == rhs_type)
-        {
-            switch (lhs_type)
-            {
-            case value_constant::array:
-                return (*lhs.data().vector) < (*rhs.data().vector);
-
-            case value_constant::object:
-                return (*lhs.data().object) < (*rhs.data().object);
-
-            case value_constant::null:
-                return false;
-
-            case value_constant::string:
-                return (*lhs.data().string) < (*rhs.data().string);
-
-            case value_constant::boolean:
-                return (lhs.data().boolean < rhs.data().boolean);
-
-            case value_constant::integer:
-                return (lhs.data().integer < rhs.data().integer);
-
-            case value_constant::floating:
-                return (lhs.data().floating < rhs.data().floating);
-
-            default:
-                return false;
-            }
-        }
-        else if (lhs_type == value_constant::integer && rhs_type == value_constant::floating)
-        {
-            return (static_cast<float_type>(lhs.data().integer) < rhs.data().floating);
-        }
-        else if (lhs_type == value_constant::floating && rhs_type == value_constant::integer)
-        {
-            return (lhs.data().floating < static_cast<float_type>(rhs.data().integer));
-        }
-
-        return false;
+        return compare(lhs, rhs) < 0;
     }
 
     template <typename _ScalarTy, typename = typename std::enable_if<std::is_scalar<_ScalarTy>::value>::type>
@@ -1000,6 +959,90 @@ public:
         return basic_value(lhs) >= rhs;
     }
 
+private:
+    // three-way comparison, returns a negative number, zero or a positive number
+    // values that have no order (e.g. a string and an array) are treated as equivalent
+
+    template <typename _Ty>
+    static inline int compare_data(const _Ty& lhs, const _Ty& rhs)
+    {
+        return (lhs < rhs) ? -1 : ((rhs < lhs) ? 1 : 0);
+    }
+
+    static int compare_data(const array_type& lhs, const array_type& rhs)
+    {
+        auto lit = lhs.begin();
+        auto rit = rhs.begin();
+        for (; lit != lhs.end() && rit != rhs.end(); ++lit, ++rit)
+        {
+            const int result = compare(*lit, *rit);
+            if (result != 0)
+                return result;
+        }
+        return (lit != lhs.end()) ? 1 : ((rit != rhs.end()) ? -1 : 0);
+    }
+
+    static int compare_data(const object_type& lhs, const object_type& rhs)
+    {
+        auto lit = lhs.begin();
+        auto rit = rhs.begin();
+        for (; lit != lhs.end() && rit != rhs.end(); ++lit, ++rit)
+        {
+            int result = compare_data(lit->first, rit->first);
+            if (result == 0)
+                result = compare(lit->second, rit->second);
+            if (result != 0)
+                return result;
+        }
+        return (lit != lhs.end()) ? 1 : ((rit != rhs.end()) ? -1 : 0);
+    }
+
+    static int compare(const basic_value& lhs, const basic_value& rhs)
+    {
+        const auto lhs_type = lhs.type();
+        const auto rhs_type = rhs.type();
+
+        if (lhs_type == rhs_type)
+        {
+            switch (lhs_type)
+            {
+            case value_constant::array:
+                return compare_data(*lhs.data().vector, *rhs.data().vector);
+
+            case value_constant::object:
+                return compare_data(*lhs.data().object, *rhs.data().object);
+
+            case value_constant::null:
+                return 0;
+
+            case value_constant::string:
+                return compare_data(*lhs.data().string, *rhs.data().string);
+
+            case value_constant::boolean:
+                return compare_data(lhs.data().boolean, rhs.data().boolean);
+
+            case value_constant::integer:
+                return compare_data(lhs.data().integer, rhs.data().integer);
+
+            case value_constant::floating:
+                return compare_data(lhs.data().floating, rhs.data().floating);
+
+            default:
+                return 0;
+            }
+        }
+        else if (lhs_type == value_constant::integer && rhs_type == value_constant::floating)
+        {
+            return compare_data(static_cast<float_type>(lhs.data().integer), rhs.data().floating);
+        }
+        else if (lhs_type == value_constant::floating && rhs_type == value_constant::integer)
+        {
+            return compare_data(lhs.data().floating, static_cast<float_type>(rhs.data().integer));
+        }
+
+        return 0;
+    }
+
 private:
     value_constant::type type_;
     data_type            data_;
-- 
2.43.0


From a344353f8b1acf3e1d42f68a49b3e391a43dcb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:18 +0000
Subject: [PATCH 22/31] fix: a bound struct whose optional fields all have
 their defaults becomes an empty object, not null

---
 include/configor/details/conversion.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/configor/details/conversion.hpp b/include/configor/details/conversion.hpp
index 218b6db..4e69b25 100644
--- a/include/configor/details/conversion.hpp
+++ b/include/configor/details/conversion.hpp
@@ -825,6 +825,10 @@ public:
 #define CONFIGOR_BIND(value_type, custom_type, ...)                                                                   \
     friend void to_value(value_type& c, const custom_type& v)                                                         \
     {                                                                                                                 \
+        if (c.is_null())                                                                                              \
+        {                                                                                                             \
+            c = ::configor::value_constant::object;                                                                   \
+        }                                                                                                             \
         __CONFIGOR_EXPAND(__CONFIGOR_PASTE(__CONFIGOR_COMBINE_PASTE1, __CONFIGOR_TO_CONF_CALL_OVERLOAD, __VA_ARGS__)) \
     }                                                                                                                 \
     friend void from_value(const value_type& c, custom_type& v)                                                       \
-- 
2.43.0


From 1bbd1837eb6b26fc93c4ad44b12607b8a5ae5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 23/31] fix: give an error in the first character to the error
 handler as well

---
 include/configor/details/parser.hpp | 4 ++++
 include/configor/json.hpp           | 3 +--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index 9b11ca4..b928282 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -56,6 +56,7 @@ public:
     {
         try
         {
+            begin_parse();
             do_parse(c, token_type::uninitialized);
             if (scan() != token_type::end_of_input)
                 fail(token_type::end_of_input);
@@ -87,6 +88,9 @@ public:
     }
 
 protected:
+    // called once before the first token is scanned, errors go to the error handler as well
+    virtual void begin_parse() {}
+
     virtual token_type scan() = 0;
 
     virtual void get_integer(typename value_type::integer_type& out) = 0;
diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 3446238..a898934 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -156,11 +156,10 @@ public:
         std::for_each(options.begin(), options.end(), [&](const option& option) { option(*this); });
     }
 
-    virtual void parse(value_type& c) override
+    virtual void begin_parse() override
     {
         // read first char
         read_next();
-        basic_parser<value_type, source_char_type>::parse(c);
     }
 
     virtual void get_integer(typename value_type::integer_type& out) override
-- 
2.43.0


From f7ed6403e045a0d08e8afd445a69ebf2a6903a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 24/31] fix: do not take a FILE read error for the end of the
 document

A document cut off by an I/O error was accepted if what was read so far
happened to be complete, for example 12 of 1234.
---
 include/configor/details/stream.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 3726eb5..2142ba4 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -365,7 +365,9 @@ protected:
         if (!peeked_)
         {
             last_char_ = std::fgetc(file_);
-            peeked_    = true;
+            if (last_char_ == static_cast<int_type>(EOF) && std::ferror(file_))
+                throw std::ios_base::failure("reading from file failed");
+            peeked_ = true;
         }
         return last_char_;
     }
@@ -412,7 +414,9 @@ protected:
         if (!peeked_)
         {
             last_char_ = std::fgetwc(file_);
-            peeked_    = true;
+            if (last_char_ == static_cast<int_type>(WEOF) && std::ferror(file_))
+                throw std::ios_base::failure("reading from file failed");
+            peeked_ = true;
         }
         return last_char_;
     }
-- 
2.43.0


From 1e48f1904703abef52ff9c51a9a274289a00ef91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:16 +0000
Subject: [PATCH 25/31] fix: leave the locale of the caller's stream buffer
 alone

Imbuing the private stream imbued the shared buffer as well: its locale stayed
changed afterwards, and an encoding set on the buffer of a file was replaced.
---
 include/configor/details/parser.hpp     | 3 ++-
 include/configor/details/serializer.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index b928282..e8156a0 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -43,13 +43,14 @@ public:
     using target_char_type = typename value_type::char_type;
 
     basic_parser(std::basic_istream<source_char_type>& is)
-        : is_(is.rdbuf())
+        : is_(nullptr)
         , err_handler_(nullptr)
         , source_decoder_(nullptr)
         , target_encoder_(nullptr)
     {
         is_.unsetf(std::ios_base::skipws);
         is_.imbue(std::locale(std::locale::classic(), is.getloc(), std::locale::collate | std::locale::ctype));
+        is_.rdbuf(is.rdbuf());  // not before imbue(), which would change the locale of the buffer
     }
 
     virtual void parse(value_type& c)
diff --git a/include/configor/details/serializer.hpp b/include/configor/details/serializer.hpp
index 878c46e..2b0d8ef 100644
--- a/include/configor/details/serializer.hpp
+++ b/include/configor/details/serializer.hpp
@@ -45,13 +45,14 @@ public:
     using target_char_type = _TargetCharTy;
 
     explicit basic_serializer(std::basic_ostream<target_char_type>& os)
-        : os_(os.rdbuf())
+        : os_(nullptr)
         , err_handler_(nullptr)
         , source_decoder_(nullptr)
         , target_encoder_(nullptr)
     {
         os_.setf(os.flags(), std::ios_base::floatfield);
         os_.imbue(std::locale(std::locale::classic(), os.getloc(), std::locale::collate | std::locale::ctype));
+        os_.rdbuf(os.rdbuf());  // not before imbue(), which would change the locale of the buffer
     }
 
     virtual void dump(const value_type& c)
-- 
2.43.0


From b9c4f600feda37de03625337364dc8a4cd29c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 26/31] fix: read negative numbers as floats if the integer
 type is unsigned

The literal -5 became 18446744073709551611 for a value whose integer type is
uint64_t, and -2.5 became -18446744073709551616.
---
 include/configor/json.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index a898934..c743429 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -533,9 +533,10 @@ public:
         while (true)
         {
             const auto digit = static_cast<integer_type>(current_ - '0');
-            if (!overflow
-                && (is_negative_ ? number_integer_ < (limits::min() + digit) / 10
-                                 : number_integer_ > (limits::max() - digit) / 10))
+            const bool fits  = !is_negative_      ? number_integer_ <= (limits::max() - digit) / 10
+                               : limits::is_signed ? number_integer_ >= (limits::min() + digit) / 10
+                                                   : digit == 0;
+            if (!overflow && !fits)
             {
                 // does not fit the integer type, continue as a float number
                 overflow      = true;
-- 
2.43.0


From 7d231be2358fd9fcdaf05e323fb75f31d3b69358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:04 +0000
Subject: [PATCH 27/31] fix: dump integers of an 8-bit integer type as numbers

They were written as characters.
---
 include/configor/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index c743429..6a68cb9 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -896,7 +896,7 @@ public:
 
     virtual void put_integer(typename value_type::integer_type i) override
     {
-        this->os_ << i;
+        this->os_ << +i;  // promoted, a small integer type may be a character
     }
 
     virtual void put_float(typename value_type::float_type f) override
-- 
2.43.0


From 1f68887ebac7733348bcf4edd2ed9162fe8980ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:40 +0000
Subject: [PATCH 28/31] fix: append the characters of short escapes without
 widening them

A string stream of char16_t or char32_t has no ctype facet, so reading any
of the short escapes into such a value threw std::bad_cast.
---
 include/configor/json.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/configor/json.hpp b/include/configor/json.hpp
index 6a68cb9..4df6b35 100644
--- a/include/configor/json.hpp
+++ b/include/configor/json.hpp
@@ -417,28 +417,28 @@ public:
                 switch (read_next())
                 {
                 case '\"':
-                    oss << '\"';
+                    oss.put('\"');
                     break;
                 case '\\':
-                    oss << '\\';
+                    oss.put('\\');
                     break;
                 case '/':
-                    oss << '/';
+                    oss.put('/');
                     break;
                 case 'b':
-                    oss << '\b';
+                    oss.put('\b');
                     break;
                 case 'f':
-                    oss << '\f';
+                    oss.put('\f');
                     break;
                 case 'n':
-                    oss << '\n';
+                    oss.put('\n');
                     break;
                 case 'r':
-                    oss << '\r';
+                    oss.put('\r');
                     break;
                 case 't':
-                    oss << '\t';
+                    oss.put('\t');
                     break;
 
                 case 'u':
-- 
2.43.0


From 929317a77b690751ddf7f6c89fe5de1a09ec78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 29/31] fix: do not copy each nested object while parsing, time
 was quadratic in the depth

---
 include/configor/details/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/configor/details/parser.hpp b/include/configor/details/parser.hpp
index e8156a0..2014601 100644
--- a/include/configor/details/parser.hpp
+++ b/include/configor/details/parser.hpp
@@ -191,7 +191,7 @@ protected:
 
                 _ValTy object;
                 do_parse(object, token);
-                c.data().object->emplace(key, object);
+                c.data().object->emplace(std::move(key), std::move(object));
 
                 // read ','
                 token = scan();
-- 
2.43.0


From 249e0e1ebc3a1b60d0f4e40b873a297e06901df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 30/31] fix: make block reads of string, buffer and file
 sources advance and deliver every character

---
 include/configor/details/stream.hpp | 41 ++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/include/configor/details/stream.hpp b/include/configor/details/stream.hpp
index 2142ba4..7544071 100644
--- a/include/configor/details/stream.hpp
+++ b/include/configor/details/stream.hpp
@@ -19,9 +19,9 @@
 // THE SOFTWARE.
 
 #pragma once
-#include <algorithm>    // std::none_of
+#include <algorithm>    // std::min, std::none_of
 #include <cmath>        // std::ceil, std::floor
-#include <cstdio>       // std::FILE, std::fgetc, std::fgets, std::fgetwc, std::fgetws, std::snprintf
+#include <cstdio>       // std::FILE, std::fgetc, std::fgetwc, std::snprintf
 #include <iomanip>      // std::fill, std::setw
 #include <ios>          // std::basic_ios, std::streamsize, std::hex, std::dec, std::uppercase, std::nouppercase
 #include <istream>      // std::basic_istream
@@ -284,7 +284,10 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
+        if (num <= 0 || index_ >= str_.size())
+            return 0;
         const auto copied = str_.copy(s, static_cast<size_t>(num), index_);
+        index_ += copied;
         return static_cast<std::streamsize>(copied);
     }
 
@@ -326,12 +329,12 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (index_ + static_cast<size_t>(num) >= size_)
-            num = static_cast<std::streamsize>(size_ - index_);
-        if (num == 0)
+        if (num <= 0 || index_ >= size_)
             return 0;
-        traits_type::copy(s, buffer_, static_cast<size_t>(num));
-        return num;
+        const auto copied = (std::min)(static_cast<size_t>(num), size_ - index_);
+        traits_type::copy(s, buffer_ + index_, copied);
+        index_ += copied;
+        return static_cast<std::streamsize>(copied);
     }
 
 private:
@@ -381,9 +384,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgets(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize copied = 0;
+        for (; copied < num; ++copied)
+        {
+            const int_type c = uflow();
+            if (c == traits_type::eof())
+                break;
+            s[copied] = traits_type::to_char_type(c);
+        }
+        return copied;
     }
 
 private:
@@ -430,9 +439,15 @@ protected:
 
     virtual std::streamsize xsgetn(char_type* s, std::streamsize num) override
     {
-        if (std::fgetws(s, static_cast<int>(num), file_) == nullptr)
-            return 0;
-        return num;
+        std::streamsize copied = 0;
+        for (; copied < num; ++copied)
+        {
+            const int_type c = uflow();
+            if (c == traits_type::eof())
+                break;
+            s[copied] = traits_type::to_char_type(c);
+        }
+        return copied;
     }
 
 private:
-- 
2.43.0


From 58f0e1b8218e95f59b957d6b557285538ee38a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:29 +0000
Subject: [PATCH 31/31] fix: keep the elements of json::object and json::array,
 not a dangling initializer list

---
 include/configor/details/value.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/configor/details/value.hpp b/include/configor/details/value.hpp
index cdd7e06..4916dfc 100644
--- a/include/configor/details/value.hpp
+++ b/include/configor/details/value.hpp
@@ -28,6 +28,7 @@
 #include <sstream>      // std::stringstream
 #include <type_traits>  // std::enable_if, std::is_same, std::is_integral, std::is_floating_point
 #include <utility>      // std::swap, std::forward, std::declval
+#include <vector>       // std::vector
 
 namespace configor
 {
@@ -1193,7 +1194,7 @@ public:
         }
 
     private:
-        std::initializer_list<pair_type> list_;
+        std::vector<pair_type> list_;  // not the initializer_list, its elements do not outlive the expression
     };
 
     struct array
@@ -1212,7 +1213,7 @@ public:
         }
 
     private:
-        std::initializer_list<value_type> list_;
+        std::vector<value_type> list_;  // not the initializer_list, its elements do not outlive the expression
     };
 };
 }  // namespace detail
-- 
2.43.0


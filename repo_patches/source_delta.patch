From bbc2514ec4bdcdec5a9d4f0cf8ea066bfa1878a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 01/40] fix: reject packets whose header length plus content
 length overflows

A length field close to 2^64 wrapped around when added to the header length, so a
view of a few bytes was reported as valid with a content of up to 2^64 - 1 bytes
(or a total length of zero, which made iteration endless).
---
 include/fast_ber/util/BerView.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 4cd7590..456a69b 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -198,9 +198,10 @@ inline void BerView::assign(absl::Span<const uint8_t> input_ber_data) noexcept
     size_t input_tag_length      = extract_tag(input_ber_data, m_tag);
     size_t input_len_length      = extract_length(input_ber_data, input_content_length, input_tag_length);
     size_t input_header_length   = input_tag_length + input_len_length;
-    size_t input_complete_length = input_header_length + input_content_length;
 
-    if (input_tag_length == 0 || input_len_length == 0 || input_complete_length > input_ber_data.length())
+    // Compare against the remaining space, header + content may overflow when the length field is corrupt
+    if (input_tag_length == 0 || input_len_length == 0 ||
+        input_content_length > input_ber_data.length() - input_header_length)
     {
         m_header_length  = 0;
         m_content_length = 0;
-- 
2.43.0


From 8d2bcfe13a6a18b45b199c968d6b7e0a275f13da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:54 +0000
Subject: [PATCH 02/40] fix: reject tags which do not fit in the Tag type

The multiplication overflowed a signed integer, and different over-long tags were
read as the same tag.
---
 include/fast_ber/util/Extract.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fast_ber/util/Extract.hpp b/include/fast_ber/util/Extract.hpp
index dda9838..5fdedb6 100644
--- a/include/fast_ber/util/Extract.hpp
+++ b/include/fast_ber/util/Extract.hpp
@@ -6,6 +6,8 @@
 
 #include "absl/types/span.h"
 
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -99,6 +101,10 @@ inline size_t extract_tag(absl::Span<const uint8_t> input, Tag& tag) noexcept
                 return i + 1;
             }
 
+            if (tag > std::numeric_limits<Tag>::max() / 0x80)
+            {
+                return 0; // Tag does not fit
+            }
             tag *= 0x80;
         }
         return 0;
-- 
2.43.0


From c42a102206a390a21c80658fb5224932d1027f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 03/40] fix: decode binary reals with more than one exponent
 octet

The exponent was read from as many octets as precede it, so the doubles which encode_real
writes with a two octet exponent (1e100, 2.0e-300, ...) decoded to another value. Short
mantissas made the decoder loop forever, denormal values and three octet contents decoded
wrongly, and an empty decimal form read one element past the content.
---
 include/fast_ber/ber_types/Real.hpp | 140 ++++------------------------
 src/ber_types/Real.cpp              |   2 +-
 2 files changed, 18 insertions(+), 124 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index 794e3e9..ec60e6d 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -76,7 +76,7 @@ inline bool check_real_binary(absl::Span<const uint8_t> input) noexcept
     /* Minimal binary construction is: | control | exponent | number |  => length is 3 bytes minimum
      * Check that base bits are not set to the reserved value, see X690 Clause 8.5.7.4
      * */
-    if (input.length() > 3 && (input[0] & 0x30) != 0x30)
+    if (input.length() >= 3 && (input[0] & 0x30) != 0x30)
     {
         /* X690 Clause 8.5.7.4 */
         size_t exponent_len    = (input[0] & 0x03) + 1;
@@ -240,9 +240,9 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
     int factor = (input[0] & 0x0C) >> 2;
 
     /* Read exponent */
-    for (size_t i = 0; i < exponent_offset; ++i)
+    for (size_t i = 0; i < exponent_len; ++i)
     {
-        exponent = (exponent << 8) | input[exponent_offset + i];
+        exponent = exponent * 0x100 + input[exponent_offset + i];
     }
 
     /* Convert base 8 exponent to base 2 */
@@ -300,135 +300,29 @@ inline bool decode_real_binary(absl::Span<const uint8_t> input, double& output)
         return true;
     }
 
-    /* Get Mantissa into a buffer
-     * One more byte is read because there could be a 3 or 4 bits shift, see X690 Clause 8.5.7
-     * */
-    std::array<uint8_t, 9> double_bytes    = {};
-    size_t                 mantissa_offset = exponent_len + exponent_offset;
-    size_t                 mantissa_len    = input.length() - mantissa_offset;
-
-    /* Skip leading zeros */
-    while (mantissa_len > 1 && input[mantissa_offset] == 0)
+    /* Get mantissa, skipping leading zeros */
+    size_t mantissa_offset = exponent_len + exponent_offset;
+    while (input[mantissa_offset] == 0)
     {
         mantissa_offset++;
-        mantissa_len--;
-    }
-
-    /* Put mantissa into bytes 1 to 7 and adapt the exponent */
-    for (size_t i = 0; i < 8; i++)
-    {
-        if (i < mantissa_len)
-        {
-            double_bytes[i + 1] = input[mantissa_offset + i];
-        }
-    }
-
-    /* IEEE 754 double format is: | 1 bit Sign | 11 bits exponent | 52 bits mantissa |
-     * Exponent bias is 2^(k-1) - 1 where k = exponent size in bits. Here bias = 1023
-     * Add mantissa size to the bias to get an exponent corresponding to the mantissa
-     * bias = 1023 + 52 = 1075
-     * */
-    exponent += ((mantissa_len - 7) << 3) + 1075;
-
-    /* For a normalized value, the mantissa size is 52 bits with an implicit hidden bit which equals 1
-     * Set double_bytes to have b0001 in the first 4 bits of the first double byte
-     * See X690 Clause 8.5.7 */
-    if ((double_bytes[1] & 0xE0) != 0 && exponent < 0x7FF)
-    {
-        /* Mantissa is too big - shift right up to 3 bits */
-        int          shift      = 0;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xE0) != 0 && exponent < (0x7FF - shift))
-        {
-            first_byte >>= 1;
-            shift++;
-        }
-        exponent += shift;
-
-        /* Adapt double bytes */
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-    }
-    else if ((double_bytes[1] & 0xF0) == 0 && exponent > 0)
-    {
-        /* Mantissa is too small - shift left up to 4 bits */
-        int          shift      = 8;
-        unsigned int first_byte = double_bytes[1];
-
-        /* Adapt exponent */
-        while ((first_byte & 0xF0) == 0 && exponent > (8 - shift))
-        {
-            exponent -= 8 - shift;
-        }
-
-        for (int j = 1; j < 8; ++j)
-        {
-            unsigned int first_byte_shifted = static_cast<unsigned int>(double_bytes[j]) << 8;
-            double_bytes[j]                 = (first_byte_shifted | double_bytes[j + 1]) >> shift;
-        }
     }
 
-    /* Verify that exponent does not overflow after modification */
-    if (exponent >= 0x7FF || exponent <= -55)
+    /* The first 8 significant bytes hold more than the 53 bits of precision of a double. The remaining bytes only
+     * scale the value */
+    uint64_t     mantissa     = 0;
+    const size_t mantissa_len = std::min(input.length() - mantissa_offset, sizeof(mantissa));
+    for (size_t i = 0; i < mantissa_len; ++i)
     {
-        /* Exponent too large for a double */
-        if (exponent >= 0)
-        {
-            output =
-                mantissa_sign == 0 ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
-        }
-        else
-        {
-            /* Exponent too small for a double */
-            output = mantissa_sign == 0 ? 0.0 : -0.0;
-        }
-
-        return true;
+        mantissa = (mantissa << 8) | input[mantissa_offset + i];
     }
+    exponent += static_cast<int>(input.length() - mantissa_offset - mantissa_len) * 8;
 
-    /* Normalize the value if necessary */
-    if (exponent <= 0)
+    /* Overflows to infinity and underflows to zero when the exponent does not fit a double */
+    output = std::ldexp(static_cast<double>(mantissa), exponent);
+    if (mantissa_sign != 0)
     {
-        /* correct the exponent to shift one bit more right */
-        --exponent;
-
-        /* Shift the mantissa right until exponent is 0 */
-        int shift = (-exponent) >> 3;
-        for (int j = 7; j > shift; --j)
-        {
-            double_bytes[j] = double_bytes[j - shift];
-        }
-        for (int j = shift; j > 0; --j)
-        {
-            double_bytes[j] = 0;
-        }
-        /* shift right bit by bit */
-        shift = -exponent & 0x07;
-        for (int j = 7; j > 0; --j)
-        {
-            unsigned int next_byte_shifted = static_cast<unsigned int>(double_bytes[j - 1]) << 8;
-            double_bytes[j]                = (next_byte_shifted | double_bytes[j]) >> shift;
-        }
-
-        /* exponent for a denormalized value */
-        exponent = 0;
+        output = -output;
     }
-
-    /* Finally add the mantissa sign and the exponent to the double bytes */
-    double_bytes[0] = (mantissa_sign << 7) | (exponent >> 4);
-    double_bytes[1] = (exponent << 4) | (double_bytes[1] & 0x0F);
-
-#ifdef ABSL_IS_LITTLE_ENDIAN
-    /* Reverse bytes if needed */
-    std::reverse(double_bytes.begin(), double_bytes.end() - 1);
-#endif
-
-    memcpy(&output, double_bytes.data(), sizeof(double));
     return true;
 }
 
diff --git a/src/ber_types/Real.cpp b/src/ber_types/Real.cpp
index 011a35b..5501381 100644
--- a/src/ber_types/Real.cpp
+++ b/src/ber_types/Real.cpp
@@ -17,7 +17,7 @@ const std::regex g_iso_6093_nr3{"^[ ]*[+-]?([0-9]+[\\.\\,]{1}[0-9]*|[0-9]*[\\.\\
  */
 bool decode_real_decimal(absl::Span<const uint8_t> input, double& output) noexcept
 {
-    std::string iso_6093_value(reinterpret_cast<const char*>(&input[1]), input.length() - 1);
+    std::string iso_6093_value(reinterpret_cast<const char*>(input.data() + 1), input.length() - 1);
 
     /* Check that string matches the iso 6093 NR1/NR2/NR3 forms */
     if (std::regex_match(iso_6093_value, g_iso_6093_nr1) || std::regex_match(iso_6093_value, g_iso_6093_nr2) ||
-- 
2.43.0


From 019d24f9730c3d5feb35b585fefb88ffeb9846ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:45 +0000
Subject: [PATCH 04/40] fix: return the requested component from
 ObjectIdentifier::component_number

Component 1 was taken from the second octet (out of bounds for a one octet content) and
every later component was reset to zero before it was returned.
---
 include/fast_ber/ber_types/ObjectIdentifier.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/ObjectIdentifier.hpp b/include/fast_ber/ber_types/ObjectIdentifier.hpp
index 3033164..de32898 100644
--- a/include/fast_ber/ber_types/ObjectIdentifier.hpp
+++ b/include/fast_ber/ber_types/ObjectIdentifier.hpp
@@ -170,7 +170,7 @@ inline int64_t get_component_number(absl::Span<const uint8_t> input, size_t numb
     }
     if (number_of_component_to_extract == 1)
     {
-        return input[1] % 40;
+        return input[0] % 40;
     }
 
     for (size_t i = 1, current_num = 0, current_component_number = 2; i < static_cast<size_t>(input.length()); i++)
@@ -182,11 +182,11 @@ inline int64_t get_component_number(absl::Span<const uint8_t> input, size_t numb
         }
         else
         {
-            current_num = 0;
             if (current_component_number == number_of_component_to_extract)
             {
                 return current_num;
             }
+            current_num = 0;
             current_component_number++;
         }
     }
-- 
2.43.0


From d151188cde32b060f22b2d09b1361c9a92beaaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 05/40] fix: support object identifiers with a second arc above
 39

The first subidentifier of an object identifier below arc 2 may take several octets
(X.690 8.19.4). It was read as a single octet, so 2.999.3 sent by a peer was decoded as
3.16.55.3, and could not be assigned at all. A failed assignment now leaves the
identifier empty and not filled with stale octets.
---
 .../fast_ber/ber_types/ObjectIdentifier.hpp   | 64 +++++++++++--------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/include/fast_ber/ber_types/ObjectIdentifier.hpp b/include/fast_ber/ber_types/ObjectIdentifier.hpp
index de32898..d0260ef 100644
--- a/include/fast_ber/ber_types/ObjectIdentifier.hpp
+++ b/include/fast_ber/ber_types/ObjectIdentifier.hpp
@@ -7,6 +7,9 @@
 #include "absl/container/inlined_vector.h"
 #include "absl/types/span.h"
 
+#include <algorithm>
+#include <limits>
+
 namespace fast_ber
 {
 
@@ -62,15 +65,16 @@ class ObjectIdentifier
 
 inline size_t encoded_object_id_length(const ObjectIdentifierComponents& input) noexcept
 {
-    if (input.size() < 2)
+    if (input.size() < 2 || input[1] > std::numeric_limits<int64_t>::max() - 80)
     {
         return 0;
     }
 
-    size_t output_size = 1;
-    for (size_t i = 2; i < input.size(); i++)
+    size_t output_size = 0;
+    for (size_t i = 1; i < input.size(); i++)
     {
-        int64_t component = input[i];
+        // The first two components share a subidentifier
+        int64_t component = (i == 1 && input[0] == 2) ? input[i] + 80 : input[i];
         do
         {
             output_size++;
@@ -88,18 +92,17 @@ inline EncodeResult encode_object_id(absl::Span<uint8_t> output, const ObjectIde
         encoded_length = encoded_object_id_length(input);
     }
 
-    if (output.empty() || output.size() < encoded_length || input.size() < 2 || input[0] > 2 || input[1] > 39)
+    if (output.empty() || output.size() < encoded_length || input.size() < 2 || input[0] < 0 || input[0] > 2 ||
+        input[1] > (input[0] < 2 ? 39 : std::numeric_limits<int64_t>::max() - 80))
     {
         return EncodeResult{false, 0};
     }
 
-    output[0] = static_cast<uint8_t>(40 * input[0] + input[1]);
-
     size_t output_write_pos = encoded_length - 1;
-    for (size_t i = input.size() - 1; i > 1; i--)
+    for (size_t i = input.size() - 1; i > 0; i--)
     {
-        int64_t component = input[i];
-        if (component < 0)
+        int64_t component = (i == 1) ? 40 * input[0] + input[1] : input[i];
+        if (input[i] < 0)
         {
             return EncodeResult{false, 0};
         }
@@ -137,10 +140,7 @@ inline DecodeResult decode_object_id(absl::Span<const uint8_t> input, absl::Inli
         return DecodeResult{false};
     }
 
-    output.push_back(input[0] / 40);
-    output.push_back(input[0] % 40);
-
-    for (size_t i = 1, current_num = 0; i < input.length(); i++)
+    for (size_t i = 0, current_num = 0; i < input.length(); i++)
     {
         current_num += 0x7F & input[i];
         if (0x80 & input[i])
@@ -149,6 +149,11 @@ inline DecodeResult decode_object_id(absl::Span<const uint8_t> input, absl::Inli
         }
         else
         {
+            if (output.empty()) // The first two components share a subidentifier
+            {
+                output.push_back(std::min<size_t>(current_num / 40, 2));
+                current_num -= 40 * static_cast<size_t>(output[0]);
+            }
             output.push_back(current_num);
             current_num = 0;
         }
@@ -164,16 +169,7 @@ inline int64_t get_component_number(absl::Span<const uint8_t> input, size_t numb
         return -1;
     }
 
-    if (number_of_component_to_extract == 0)
-    {
-        return input[0] / 40;
-    }
-    if (number_of_component_to_extract == 1)
-    {
-        return input[0] % 40;
-    }
-
-    for (size_t i = 1, current_num = 0, current_component_number = 2; i < static_cast<size_t>(input.length()); i++)
+    for (size_t i = 0, current_num = 0, current_component_number = 1; i < static_cast<size_t>(input.length()); i++)
     {
         current_num += 0x7F & input[i];
         if (0x80 & input[i])
@@ -182,6 +178,15 @@ inline int64_t get_component_number(absl::Span<const uint8_t> input, size_t numb
         }
         else
         {
+            if (current_component_number == 1) // The first two components share a subidentifier
+            {
+                const size_t first = std::min<size_t>(current_num / 40, 2);
+                if (number_of_component_to_extract == 0)
+                {
+                    return first;
+                }
+                current_num -= 40 * first;
+            }
             if (current_component_number == number_of_component_to_extract)
             {
                 return current_num;
@@ -201,12 +206,13 @@ inline size_t get_number_of_components(absl::Span<const uint8_t> input) noexcept
         return 0;
     }
 
-    size_t number_of_components = 2;
-    for (size_t i = 1; i < input.length(); i++)
+    size_t number_of_components = 0;
+    for (size_t i = 0; i < input.length(); i++)
     {
         if (!(0x80 & input[i]))
         {
-            number_of_components++;
+            // The first two components share a subidentifier
+            number_of_components += (number_of_components == 0) ? 2 : 1;
         }
     }
 
@@ -281,6 +287,10 @@ bool ObjectIdentifier<Identifier>::assign(const ObjectIdentifierComponents& oid)
     {
         assert(res.length == m_contents.content_length());
     }
+    else
+    {
+        m_contents.resize_content(0);
+    }
     return res.success;
 }
 
-- 
2.43.0


From 742ea9ca51759aed2870189309b7d3cf7e754c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 06/40] fix: keep the previous time when decoding a malformed
 GeneralizedTime

A content which is too short was stored before its length was checked, printing it
(fast_ber_view on 18 00) then read out of bounds.
---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 5ffbe31..8052b60 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -39,7 +39,7 @@ class GeneralizedTime
     GeneralizedTime(const GeneralizedTime&)     = default;
     GeneralizedTime(GeneralizedTime&&) noexcept = default;
     GeneralizedTime(const absl::Time& time) { set_time(time); }
-    explicit GeneralizedTime(BerView view) { decode(view); }
+    explicit GeneralizedTime(BerView view) : GeneralizedTime() { decode(view); }
     ~GeneralizedTime() noexcept = default;
 
     GeneralizedTime& operator=(const GeneralizedTime&) = default;
@@ -174,12 +174,14 @@ EncodeResult GeneralizedTime<Identifier>::encode(absl::Span<uint8_t> output) con
 template <typename Identifier>
 DecodeResult GeneralizedTime<Identifier>::decode(BerView view) noexcept
 {
-    DecodeResult res = m_contents.decode(view);
-    if (m_contents.content_length() < minimum_timestamp_length || m_contents.content_length() > max_timestamp_length)
+    FixedIdBerContainer<Identifier> contents;
+    if (!contents.decode(view).success || contents.content_length() < minimum_timestamp_length ||
+        contents.content_length() > max_timestamp_length)
     {
         return DecodeResult{false};
     }
-    return res;
+    m_contents = std::move(contents);
+    return DecodeResult{true};
 }
 
 template <typename Identifier>
-- 
2.43.0


From 3e353c82d268682e61c2b83bfdcb88b35d254207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 07/40] fix: encode a local civil time unchanged in every host
 time zone

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 8052b60..771d832 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -79,8 +79,9 @@ void GeneralizedTime<Identifier>::set_time(const absl::Time& time)
 template <typename Identifier>
 void GeneralizedTime<Identifier>::set_time(const absl::CivilSecond& cs)
 {
+    // Formatted as provided: a round trip through the host's time zone would alter times skipped by a DST change
     std::string time_str =
-        absl::FormatTime(g_local_time_format, absl::FromCivil(cs, absl::LocalTimeZone()), absl::LocalTimeZone());
+        absl::FormatTime(g_local_time_format, absl::FromCivil(cs, absl::UTCTimeZone()), absl::UTCTimeZone());
 
     m_contents.assign_content(
         absl::Span<const uint8_t>(reinterpret_cast<const uint8_t*>(time_str.data()), time_str.length()));
-- 
2.43.0


From b70f15020891d847a2e9669862002353bf3ac764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:03 +0000
Subject: [PATCH 08/40] fix: keep FixedIdBerContainer consistent when moved
 from or given extra octets

A moved from container kept its content length without its data, so resizing or
reassigning it (StringImpl::resize, ObjectIdentifier::operator=) read out of bounds.
Decoding an explicitly tagged packet with octets after the inner packet returned the
trailing octets as the content.
---
 include/fast_ber/util/FixedIdBerContainer.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index 8c7fb03..0a4fff5 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -92,6 +92,7 @@ template <typename Identifier>
 FixedIdBerContainer<Identifier>::FixedIdBerContainer(FixedIdBerContainer&& rhs) noexcept
     : m_data(std::move(rhs.m_data)), m_content_length(std::move(rhs.m_content_length))
 {
+    rhs.assign_content({});
 }
 
 template <typename Identifier>
@@ -147,8 +148,12 @@ template <typename Identifier1>
 FixedIdBerContainer<Identifier1>&
 FixedIdBerContainer<Identifier1>::operator=(FixedIdBerContainer<Identifier1>&& rhs) noexcept
 {
-    m_data           = std::move(rhs.m_data);
-    m_content_length = std::move(rhs.m_content_length);
+    if (this != &rhs)
+    {
+        m_data           = std::move(rhs.m_data);
+        m_content_length = std::move(rhs.m_content_length);
+        rhs.assign_content({});
+    }
     return *this;
 }
 
@@ -202,8 +207,16 @@ DecodeResult FixedIdBerContainer<Identifier>::decode_impl(BerView
         return DecodeResult{false};
     }
 
+    const BerViewIterator inner = input_view.begin();
+    if (inner->ber_length() != input_view.content_length())
+    {
+        // Extra octets follow the inner packet, the content is expected to be at the end of the data
+        assign_content(inner->content());
+        return DecodeResult{true};
+    }
+
     m_data.assign(input_view.ber().begin(), input_view.ber().end());
-    m_content_length = input_view.begin()->content_length();
+    m_content_length = inner->content_length();
     return DecodeResult{true};
 }
 
-- 
2.43.0


From 668be0145d00d3021c1d0e18a7ef534bfcd60e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 09/40] fix: keep BerContainer consistent when copied, moved
 from or resized

A copy of an invalid container was reported as valid with no data behind it, a moved from
container kept a view of memory which it no longer owned, and resizing a container holding
a tag which was not sent in its shortest form overwrote the tag.
---
 include/fast_ber/util/BerContainer.hpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index 09950d8..ac4e7d4 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -28,7 +28,7 @@ class BerContainer
     BerContainer() noexcept;
     BerContainer(const BerView input_view) noexcept { decode(input_view); }
     BerContainer(const BerContainer& container) noexcept { decode(container.view()); }
-    BerContainer(BerContainer&& container) noexcept { decode(container.view()); }
+    BerContainer(BerContainer&& container) noexcept { *this = std::move(container); }
     BerContainer(absl::Span<const uint8_t> input_data, ConstructionMethod method) noexcept;
     BerContainer(Construction input_construction, Class input_class, Tag input_tag,
                  absl::Span<const uint8_t> input_content) noexcept;
@@ -100,15 +100,28 @@ inline BerContainer::BerContainer(Construction input_construction, Class input_c
 
 inline BerContainer& BerContainer::operator=(const BerContainer& container) noexcept
 {
-    m_data = container.m_data;
-    m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    if (this != &container)
+    {
+        decode(container.view());
+    }
     return *this;
 }
 
 inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
 {
-    m_data = std::move(container.m_data);
-    m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+    if (this != &container)
+    {
+        if (container.is_valid())
+        {
+            m_data = std::move(container.m_data);
+            m_view.assign(m_data, container.tag(), container.header_length(), container.content_length());
+        }
+        else
+        {
+            decode(BerView());
+        }
+        container.decode(BerView());
+    }
     return *this;
 }
 
@@ -146,7 +159,7 @@ inline void BerContainer::resize_content(size_t size)
 
     size_t old_header_length   = view().header_length();
     size_t old_size            = view().content_length();
-    size_t new_length_offset   = view().identifier_length();
+    size_t new_length_offset   = extract_tag_length(view().ber()); // The received tag may not be in its shortest form
     size_t new_length_length   = encode_length(absl::MakeSpan(length_buffer), size);
     size_t new_header_length   = new_length_offset + new_length_length;
     size_t new_complete_length = new_header_length + size;
-- 
2.43.0


From 9e585a2f808d57fa092325ca621e73df63184362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 10/40] fix: advance the iterator past a Default which is
 present

The overload left the iterator on the element it had just decoded, so the element was
decoded again as the next member.
---
 include/fast_ber/ber_types/Default.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index 8aa24e8..edb8680 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -171,7 +171,9 @@ DecodeResult decode(BerViewIterator& input, Default<T, DefaultValue>& output) no
 {
     if (input->is_valid() && Identifier<T>::check_id_match(input->class_(), input->tag()))
     {
-        return output.decode(*input);
+        DecodeResult res = output.decode(*input);
+        ++input;
+        return res;
     }
     else
     {
-- 
2.43.0


From 8e32017c91c16e4e11ce4275f5e450cee05e3e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 11/40] fix: keep DynamicVariant intact on self assignment,
 aliasing and failed assignment

The held value was deleted before its replacement was created: assigning a variant (or its
own content) to itself used freed memory, and an exception from the copy or the allocation
left a dangling pointer which was deleted again. Copying a moved from variant dereferenced
null, assigning an lvalue moved out of it, and operator< compared for equality.
---
 include/fast_ber/util/DynamicVariant.hpp | 104 +++++++----------------
 1 file changed, 33 insertions(+), 71 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 0a998c0..d26be10 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -331,12 +331,14 @@ class DynamicVariant
 
     DynamicVariant() noexcept : m_data(new ToType<0>()) {}
     DynamicVariant(const DynamicVariant& other)
-        : m_index(other.m_index), m_data(fast_ber::dynamic::visit(CopyVisitor{}, other))
+        : m_index(other.m_index),
+          m_data(other.valueless_by_exception() ? nullptr : fast_ber::dynamic::visit(CopyVisitor{}, other))
     {
     }
     DynamicVariant(DynamicVariant&& other) noexcept : m_index(std::move(other.m_index)), m_data(std::move(other.m_data))
     {
-        other.m_data = nullptr;
+        other.m_index = variant_npos;
+        other.m_data  = nullptr;
     }
 
     template <typename T, typename = absl::enable_if_t<!std::is_same<absl::decay_t<T>, DynamicVariant>::value>,
@@ -384,36 +386,27 @@ class DynamicVariant
         assert(index() == i);
     }
 
-    ~DynamicVariant()
-    {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-    }
+    ~DynamicVariant() { reset(variant_npos, nullptr); }
 
     DynamicVariant& operator=(const DynamicVariant& other)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
+        if (this != &other)
         {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
+            reset(other.m_index,
+                  other.valueless_by_exception() ? nullptr : fast_ber::dynamic::visit(CopyVisitor(), other));
         }
-        m_index = other.m_index;
-        m_data  = fast_ber::dynamic::visit(CopyVisitor(), other);
-
         return *this;
     }
 
     DynamicVariant& operator=(DynamicVariant&& other) noexcept
     {
-        if (!valueless_by_exception() && m_data != nullptr)
+        if (this != &other)
         {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = other.m_index;
-        m_data  = other.m_data;
+            reset(other.m_index, other.m_data);
 
-        other.m_data = nullptr;
+            other.m_index = variant_npos;
+            other.m_data  = nullptr;
+        }
         return *this;
     }
 
@@ -424,12 +417,7 @@ class DynamicVariant
     DynamicVariant& operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::move(t));
+        reset(AcceptedIndex<T>::value, new AcceptedType<T>(std::forward<T>(t)));
         return *this;
     }
 
@@ -437,12 +425,7 @@ class DynamicVariant
               typename = absl::enable_if_t<std::is_constructible<T, Args...>::value && ExactlyOnce<T>::value>>
     T& emplace(Args&&... args)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new AcceptedType<T>(std::forward<Args>(args)...);
+        reset(AcceptedIndex<T>::value, new AcceptedType<T>(std::forward<Args>(args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -453,12 +436,7 @@ class DynamicVariant
                                            ExactlyOnce<T>::value>>
     T& emplace(std::initializer_list<U> il, Args&&... args)
     {
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-        m_index = AcceptedIndex<T>::value;
-        m_data  = new T(std::forward<Args>(il, args)...);
+        reset(AcceptedIndex<T>::value, new T(il, std::forward<Args>(args)...));
 
         assert(holds_alternative<T>(*this));
         return *static_cast<T*>(m_data);
@@ -471,21 +449,7 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-
-        try
-        {
-            m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(args)...);
-        }
-        catch (...)
-        {
-            m_index = variant_npos;
-            throw;
-        }
+        reset(i, new ToType<i>(std::forward<Args>(args)...));
         assert(index() == i);
         return get<i>(*this);
     }
@@ -498,21 +462,7 @@ class DynamicVariant
     {
         static_assert(i < sizeof...(Types), "The index should be in [0, number of alternatives)");
 
-        if (!valueless_by_exception() && m_data != nullptr)
-        {
-            fast_ber::dynamic::visit(DeleteVisitor(), *this);
-        }
-
-        try
-        {
-            m_index = i;
-            m_data  = new ToType<i>(std::forward<Args>(il, args)...);
-        }
-        catch (...)
-        {
-            m_index = variant_npos;
-            throw;
-        }
+        reset(i, new ToType<i>(il, std::forward<Args>(args)...));
         assert(index() == i);
         return get<i>(*this);
     }
@@ -540,6 +490,18 @@ class DynamicVariant
     }
 
   private:
+    // Takes ownership of new data. It has been created before the old data is deleted, as it may be made out of the old
+    // data, and as the variant keeps its value if the creation fails
+    void reset(size_t new_index, void* new_data)
+    {
+        if (!valueless_by_exception() && m_data != nullptr)
+        {
+            fast_ber::dynamic::visit(DeleteVisitor(), *this);
+        }
+        m_index = new_index;
+        m_data  = new_data;
+    }
+
     size_t m_index{0};
     void*  m_data;
 }; // namespace fast_ber
@@ -563,7 +525,7 @@ struct LessThan
     template <typename T>
     bool operator()(const T& lhs, const T& rhs)
     {
-        return lhs == rhs;
+        return lhs < rhs;
     }
 };
 
@@ -597,13 +559,13 @@ struct GreaterThanOrEquals
 template <typename... Types>
 bool operator==(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() == b.index()) && visit_binary(Equals(), a, b);
+    return (a.index() == b.index()) && (a.valueless_by_exception() || visit_binary(Equals(), a, b));
 }
 
 template <typename... Types>
 bool operator!=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) || !visit_binary(Equals(), a, b);
+    return !(a == b);
 }
 
 template <typename... Types>
-- 
2.43.0


From efccc6815d4637e54f714f386e434db59ad6163a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 12/40] fix: report compiler outputs which could not be written

The compiler exited with success when a generated header was truncated by a full disk or
an I/O error.
---
 src/compiler_main/CompilerMain.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index 3728a0f..dda1400 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -284,6 +284,26 @@ int main(int argc, char** argv)
         fwd_output_file << create_fwd_body(context.asn1_tree);
         detail_output_file << create_detail_body(context.asn1_tree);
 
+        // Closing flushes the outputs, which may fail (disk full, ...)
+        output_file.close();
+        fwd_output_file.close();
+        detail_output_file.close();
+        if (!output_file.good())
+        {
+            std::cerr << "Could not write output file: " + output_filename + "\n";
+            return -1;
+        }
+        if (!fwd_output_file.good())
+        {
+            std::cerr << "Could not write output file: " + fwd_filame + "\n";
+            return -1;
+        }
+        if (!detail_output_file.good())
+        {
+            std::cerr << "Could not write output file: " + detail_filame + "\n";
+            return -1;
+        }
+
         return 0;
     }
     catch (const std::exception& e)
-- 
2.43.0


From 45475b2252e3337d2e5cb88c69318809d8990cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:11 +0000
Subject: [PATCH 13/40] fix: report I/O errors in fast_ber_view

A read error aborted the program with an uncaught exception, and output which could not be
written was reported as a success.
---
 src/view/view.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/view/view.cpp b/src/view/view.cpp
index ddf4c36..ad1dbe5 100644
--- a/src/view/view.cpp
+++ b/src/view/view.cpp
@@ -26,9 +26,23 @@ int main(int argc, const char** argv)
         return -1;
     }
 
-    const auto buffer = std::vector<uint8_t>{std::istreambuf_iterator<char>(input), std::istreambuf_iterator<char>()};
-    auto       view   = fast_ber::BerView(buffer);
+    try
+    {
+        const auto buffer =
+            std::vector<uint8_t>{std::istreambuf_iterator<char>(input), std::istreambuf_iterator<char>()};
+        auto view = fast_ber::BerView(buffer);
 
-    std::cout << view;
-    return view.is_valid() ? 0 : -1;
+        std::cout << view << std::flush;
+        if (!std::cout.good())
+        {
+            std::cerr << "Failed to write output" << std::endl;
+            return -1;
+        }
+        return view.is_valid() ? 0 : -1;
+    }
+    catch (const std::exception& e)
+    {
+        std::cerr << "Failed to read input: " << input_path << ": " << e.what() << std::endl;
+        return -1;
+    }
 }
-- 
2.43.0


From 715131430c7b9ea8100e871cdc7cd892a20f0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:03 +0000
Subject: [PATCH 14/40] fix: decode choices with alternatives sharing a tag
 number across classes

---
 src/compiler/EncodeDecode.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 16501f4..4a5c571 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -434,15 +434,15 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
     {
         auto scope1 = CodeScope(block);
         block.add_line("BerView content(input);");
+        block.add_line("if (!input.is_valid())");
+        {
+            auto scope2 = CodeScope(block);
+            block.add_line(R"(FAST_BER_ERROR("Invalid packet when decoding choice [)" + name + R"(]");)");
+            block.add_line("return DecodeResult{false};");
+        }
         block.add_line("if (!IsChoiceId<Identifier>::value)");
         {
             auto scope2 = CodeScope(block);
-            block.add_line("if (!input.is_valid())");
-            {
-                auto scope3 = CodeScope(block);
-                block.add_line(R"(FAST_BER_ERROR("Invalid packet when decoding choice [)" + name + R"(]");)");
-                block.add_line("return DecodeResult{false};");
-            }
             block.add_line("if (!has_correct_header(input, Identifier{}, Construction::constructed))");
             {
                 auto scope3 = CodeScope(block);
@@ -490,8 +490,10 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
                 if (std::any_of(outer_ids.begin(), outer_ids.end(),
                                 [class_](const Identifier& id) { return id.class_ == class_; }))
                 {
+                    block.add_line("if (content.class_() == " + to_string(class_) + ")");
+                    auto scope2 = CodeScope(block);
                     block.add_line("switch (content.tag())");
-                    auto        scope2 = CodeScope(block);
+                    auto        scope3 = CodeScope(block);
                     std::size_t i      = 0;
                     for (const NamedType& named_type : choice.choices)
                     {
-- 
2.43.0


From 4ba54b6aaed2379574f3da207ff9731b24709f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 15/40] fix: wrap the alternative of an explicitly tagged
 CHOICE directly

An explicit tag on an untagged CHOICE added a second wrapper carrying the
end-of-contents tag (universal 0), which no other BER implementation accepts.
---
 src/compiler/Identifier.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index f495896..cc758d0 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -187,7 +187,9 @@ TaggingInfo identifier(const TaggedType& tagged_type, const Module& current_modu
     }
 
     const TaggingInfo& child_tag = identifier(tagged_type.type, current_module, tree);
-    if (is_explicit || child_tag.outer_tag)
+    // An untagged choice has no identifier of its own, any tag wraps the selected alternative directly
+    const bool is_untagged_choice = child_tag.is_default_tagged && !child_tag.choice_ids.empty();
+    if ((is_explicit && !is_untagged_choice) || child_tag.outer_tag)
     {
         return TaggingInfo{
             Identifier(tagged_type.tag.class_, tagged_type.tag.tag_number), child_tag.inner_tag, {}, false};
-- 
2.43.0


From b2d5d7fc4aa3a4439afa63832cb35e6332c4a342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:33 +0000
Subject: [PATCH 16/40] fix: apply automatic tags consistently

In a module with AUTOMATIC TAGS, OPTIONAL and DEFAULT members were never
decoded (their untagged identifier was looked for), members of a referenced
SEQUENCE, SET or CHOICE type were encoded without their automatic tag, tags
without a mode were explicit, and automatic tags were applied to types with
tagged components. Work out the tags of components in one place, following
X.680, and use it for definitions, encoding and decoding.
---
 src/compiler/EncodeDecode.cpp                 | 220 +++++++-----------
 src/compiler/GenerateChoice.cpp               |  17 +-
 src/compiler/Identifier.cpp                   |  84 ++++---
 src/compiler/TypeAsString.cpp                 |  79 +++----
 .../include/fast_ber/compiler/Identifier.hpp  |   6 +
 5 files changed, 179 insertions(+), 227 deletions(-)

diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index 4a5c571..f20c83b 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -11,12 +11,12 @@
 #include <string>
 #include <vector>
 
-std::string make_component_function(const std::string& function, const NamedType& component, const Module& module,
-                                    const Asn1Tree& tree)
+std::string make_component_function(const std::string& function, const NamedType& component, const Type& tagged_type,
+                                    const Module& module, const Asn1Tree& tree)
 {
     if (is_generated(resolve_type(tree, module.module_reference, component).type))
     {
-        auto id = identifier(component.type, module, tree);
+        auto id = identifier(tagged_type, module, tree);
         if (!id.is_default_tagged)
             return function + "_with_id<" + id.name() + ">";
     }
@@ -27,7 +27,8 @@ template <typename CollectionType>
 CodeBlock create_collection_encode_functions(const std::string& name, const CollectionType& collection,
                                              const Module& module, const Asn1Tree& tree)
 {
-    CodeBlock block;
+    CodeBlock               block;
+    const std::vector<Type> types = tagged_component_types(collection, module);
 
     block.add_line(create_template_definition({"Identifier_"}));
     block.add_line("inline EncodeResult " + name + "::encode_with_id(absl::Span<uint8_t> output) const noexcept");
@@ -49,10 +50,12 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
         }
         block.add_line("std::size_t content_length = 0;");
 
-        for (const ComponentType& component : collection.components)
+        for (std::size_t i = 0; i < collection.components.size(); i++)
         {
+            const ComponentType& component = collection.components[i];
             block.add_line("res = " + component.named_type.name + "." +
-                           make_component_function("encode", component.named_type, module, tree) + "(content);");
+                           make_component_function("encode", component.named_type, types[i], module, tree) +
+                           "(content);");
             block.add_line("if (!res.success)");
             {
                 auto scope2 = CodeScope(block);
@@ -71,10 +74,12 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
         auto scope = CodeScope(block);
         block.add_line("std::size_t content_length = 0;");
         block.add_line();
-        for (const ComponentType& component : collection.components)
+        for (std::size_t i = 0; i < collection.components.size(); i++)
         {
+            const ComponentType& component = collection.components[i];
             block.add_line("content_length += this->" + component.named_type.name + "." +
-                           make_component_function("encoded_length", component.named_type, module, tree) + "();");
+                           make_component_function("encoded_length", component.named_type, types[i], module, tree) +
+                           "();");
         }
         block.add_line();
         block.add_line("return fast_ber::encoded_length(content_length, Identifier_{});");
@@ -86,7 +91,8 @@ CodeBlock create_collection_encode_functions(const std::string& name, const Coll
 CodeBlock create_choice_encode_functions(const std::string& name, const ChoiceType& choice, const Module& module,
                                          const Asn1Tree& tree)
 {
-    CodeBlock block;
+    CodeBlock               block;
+    const std::vector<Type> types = tagged_component_types(choice, module);
 
     block.add_line(create_template_definition({"Identifier_"}));
     block.add_line("inline EncodeResult " + name + "::encode_with_id(absl::Span<uint8_t> output) const noexcept");
@@ -117,7 +123,8 @@ CodeBlock create_choice_encode_functions(const std::string& name, const ChoiceTy
             {
                 block.add_line("case " + std::to_string(i) + ":");
                 block.add_line("	res = fast_ber::get<" + std::to_string(i) + ">(*this)." +
-                               make_component_function("encode", choice.choices[i], module, tree) + "(content);");
+                               make_component_function("encode", choice.choices[i], types[i], module, tree) +
+                               "(content);");
                 block.add_line("	break;");
             }
             block.add_line("default: assert(0);");
@@ -156,7 +163,8 @@ CodeBlock create_choice_encode_functions(const std::string& name, const ChoiceTy
             {
                 block.add_line("case " + std::to_string(i) + ":");
                 block.add_line("	content_length = fast_ber::get<" + std::to_string(i) + ">(*this)." +
-                               make_component_function("encoded_length", choice.choices[i], module, tree) + "();");
+                               make_component_function("encoded_length", choice.choices[i], types[i], module, tree) +
+                               "();");
                 block.add_line("	break;");
             }
             block.add_line("default: assert(0);");
@@ -182,7 +190,9 @@ template <typename CollectionType>
 CodeBlock create_collection_decode_functions(const std::string& name, const CollectionType& collection,
                                              const Module& module, const Asn1Tree& tree)
 {
-    CodeBlock block;
+    CodeBlock               block;
+    const std::vector<Type> types = tagged_component_types(collection, module);
+
     block.add_line(create_template_definition({"Identifier_"}));
     block.add_line("DecodeResult " + name + "::decode_with_id(BerView input) noexcept");
     {
@@ -219,93 +229,55 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                 block.add_line("while (iterator != end)");
                 {
                     auto scope2 = CodeScope(block);
-                    if (module.tagging_default == TaggingMode::automatic)
+                    for (Class class_ : {
+                             Class::universal,
+                             Class::application,
+                             Class::context_specific,
+                             Class::private_,
+                         })
                     {
-                        block.add_line("if (iterator->class_() == " + to_string(Class::context_specific) + ")");
-                        auto scope3 = CodeScope(block);
+                        if (std::any_of(types.begin(), types.end(), [&](const Type& type) {
+                                const std::vector<Identifier>& outer_ids = outer_identifiers(type, module, tree);
+                                return std::any_of(outer_ids.begin(), outer_ids.end(),
+                                                   [class_](const Identifier& id) { return id.class_ == class_; });
+                            }))
                         {
-                            block.add_line("switch (iterator->tag())");
-                            auto        scope4 = CodeScope(block);
-                            std::size_t i      = 0;
-                            for (const ComponentType& component : collection.components)
-                            {
-                                block.add_line("case " + std::to_string(i) + ":");
-                                block.add_line("res = this->" + component.named_type.name + "." +
-                                               make_component_function("decode", component.named_type, module, tree) +
-                                               "(*iterator);");
-                                block.add_line("if (!res.success)");
-                                {
-                                    auto scope5 = CodeScope(block);
-                                    {
-                                        block.add_line(R"(FAST_BER_ERROR("failed to decode member [)" +
-                                                       component.named_type.name + R"(] of collection [)" + name +
-                                                       R"(]");)");
-                                        block.add_line("return res;");
-                                    }
-                                }
-                                block.add_line("++decode_counts[" + std::to_string(i) + "];");
-                                block.add_line("++iterator;");
-                                block.add_line("continue;");
-                                i++;
-                            }
-                        }
-                    }
-                    else
-                    {
-                        for (Class class_ : {
-                                 Class::universal,
-                                 Class::application,
-                                 Class::context_specific,
-                                 Class::private_,
-                             })
-                        {
-                            if (std::any_of(collection.components.begin(), collection.components.end(),
-                                            [&](const ComponentType& component) {
-                                                const std::vector<Identifier>& outer_ids =
-                                                    outer_identifiers(component.named_type.type, module, tree);
-                                                return std::any_of(
-                                                    outer_ids.begin(), outer_ids.end(),
-                                                    [class_](const Identifier& id) { return id.class_ == class_; });
-                                            }))
-                            {
 
-                                block.add_line("if (iterator->class_() == " + to_string(class_) + ")");
-                                auto scope3 = CodeScope(block);
+                            block.add_line("if (iterator->class_() == " + to_string(class_) + ")");
+                            auto scope3 = CodeScope(block);
+                            {
+                                block.add_line("switch (iterator->tag())");
+                                auto        scope4 = CodeScope(block);
+                                std::size_t i      = 0;
+                                for (const ComponentType& component : collection.components)
                                 {
-                                    block.add_line("switch (iterator->tag())");
-                                    auto        scope4 = CodeScope(block);
-                                    std::size_t i      = 0;
-                                    for (const ComponentType& component : collection.components)
+                                    const std::vector<Identifier>& ids = outer_identifiers(types[i], module, tree);
+                                    for (const Identifier& id : ids)
                                     {
-                                        const std::vector<Identifier>& ids =
-                                            outer_identifiers(component.named_type.type, module, tree);
-                                        for (const Identifier& id : ids)
+                                        if (id.class_ == class_)
                                         {
-                                            if (id.class_ == class_)
-                                            {
-                                                block.add_line("case " + std::to_string(id.tag_number) + ":");
-                                                block.add_line("res = this->" + component.named_type.name + "." +
-                                                               make_component_function("decode", component.named_type,
-                                                                                       module, tree) +
-                                                               "(*iterator);");
+                                            block.add_line("case " + std::to_string(id.tag_number) + ":");
+                                            block.add_line("res = this->" + component.named_type.name + "." +
+                                                           make_component_function("decode", component.named_type,
+                                                                                   types[i], module, tree) +
+                                                           "(*iterator);");
 
-                                                block.add_line("if (!res.success)");
+                                            block.add_line("if (!res.success)");
+                                            {
+                                                auto scope5 = CodeScope(block);
                                                 {
-                                                    auto scope5 = CodeScope(block);
-                                                    {
-                                                        block.add_line(R"(FAST_BER_ERROR("failed to decode member [)" +
-                                                                       component.named_type.name +
-                                                                       R"(] of collection [)" + name + R"(]");)");
-                                                        block.add_line("return res;");
-                                                    }
+                                                    block.add_line(R"(FAST_BER_ERROR("failed to decode member [)" +
+                                                                   component.named_type.name + R"(] of collection [)" +
+                                                                   name + R"(]");)");
+                                                    block.add_line("return res;");
                                                 }
-                                                block.add_line("++decode_counts[" + std::to_string(i) + "];");
-                                                block.add_line("++iterator;");
-                                                block.add_line("continue;");
                                             }
+                                            block.add_line("++decode_counts[" + std::to_string(i) + "];");
+                                            block.add_line("++iterator;");
+                                            block.add_line("continue;");
                                         }
-                                        i++;
                                     }
+                                    i++;
                                 }
                             }
                         }
@@ -356,12 +328,13 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
             }
             else
             {
-                for (const ComponentType& component : collection.components)
+                for (std::size_t i = 0; i < collection.components.size(); i++)
                 {
+                    const ComponentType& component = collection.components[i];
                     if (component.is_optional || component.default_value)
                     {
                         std::string id_check = "if (iterator->is_valid() && (false ";
-                        for (const Identifier& id : outer_identifiers(component.named_type.type, module, tree))
+                        for (const Identifier& id : outer_identifiers(types[i], module, tree))
                         {
                             id_check += " || " + id.name() + "::check_id_match(iterator->class_(), iterator->tag())";
                         }
@@ -370,9 +343,10 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
 
                         {
                             auto scope2 = CodeScope(block);
-                            block.add_line("res = this->" + component.named_type.name + "." +
-                                           make_component_function("decode", component.named_type, module, tree) +
-                                           "(*iterator);");
+                            block.add_line(
+                                "res = this->" + component.named_type.name + "." +
+                                make_component_function("decode", component.named_type, types[i], module, tree) +
+                                "(*iterator);");
 
                             block.add_line("if (!res.success)");
                             {
@@ -403,7 +377,7 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                     else
                     {
                         block.add_line("res = this->" + component.named_type.name + "." +
-                                       make_component_function("decode", component.named_type, module, tree) +
+                                       make_component_function("decode", component.named_type, types[i], module, tree) +
                                        "(*iterator);");
 
                         block.add_line("if (!res.success)");
@@ -427,7 +401,8 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
 CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceType& choice, const Module& module,
                                          const Asn1Tree& tree)
 {
-    CodeBlock block;
+    CodeBlock               block;
+    const std::vector<Type> types = tagged_component_types(choice, module);
 
     block.add_line(create_template_definition({"Identifier"}));
     block.add_line("inline DecodeResult " + name + "::decode_with_id(BerView input) noexcept");
@@ -464,51 +439,34 @@ CodeBlock create_choice_decode_functions(const std::string& name, const ChoiceTy
             block.add_line("content = *child;");
         }
 
-        if (module.tagging_default == TaggingMode::automatic)
+        for (Class class_ : {
+                 Class::universal,
+                 Class::application,
+                 Class::context_specific,
+                 Class::private_,
+             })
         {
-            block.add_line("switch (content.tag())");
+            const std::vector<Identifier>& outer_ids = outer_identifiers(choice, module, tree);
+            if (std::any_of(outer_ids.begin(), outer_ids.end(),
+                            [class_](const Identifier& id) { return id.class_ == class_; }))
             {
+                block.add_line("if (content.class_() == " + to_string(class_) + ")");
                 auto scope2 = CodeScope(block);
+                block.add_line("switch (content.tag())");
+                auto scope3 = CodeScope(block);
                 for (std::size_t i = 0; i < choice.choices.size(); i++)
                 {
-                    block.add_line("case " + std::to_string(i) + ":");
-                    block.add_line("	return this->template emplace<" + std::to_string(i) + ">()." +
-                                   make_component_function("decode", choice.choices[i], module, tree) + "(content);");
-                }
-            }
-        }
-        else
-        {
-            for (Class class_ : {
-                     Class::universal,
-                     Class::application,
-                     Class::context_specific,
-                     Class::private_,
-                 })
-            {
-                const std::vector<Identifier>& outer_ids = outer_identifiers(choice, module, tree);
-                if (std::any_of(outer_ids.begin(), outer_ids.end(),
-                                [class_](const Identifier& id) { return id.class_ == class_; }))
-                {
-                    block.add_line("if (content.class_() == " + to_string(class_) + ")");
-                    auto scope2 = CodeScope(block);
-                    block.add_line("switch (content.tag())");
-                    auto        scope3 = CodeScope(block);
-                    std::size_t i      = 0;
-                    for (const NamedType& named_type : choice.choices)
+                    const std::vector<Identifier>& ids = outer_identifiers(types[i], module, tree);
+                    for (const Identifier& id : ids)
                     {
-                        const std::vector<Identifier>& ids = outer_identifiers(named_type.type, module, tree);
-                        for (const Identifier& id : ids)
+                        if (id.class_ == class_)
                         {
-                            if (id.class_ == class_)
-                            {
-                                block.add_line("case " + std::to_string(id.tag_number) + ":");
-                                block.add_line("	return this->template emplace<" + std::to_string(i) + ">()." +
-                                               make_component_function("decode", choice.choices[i], module, tree) +
-                                               "(content);");
-                            }
+                            block.add_line("case " + std::to_string(id.tag_number) + ":");
+                            block.add_line(
+                                "	return this->template emplace<" + std::to_string(i) + ">()." +
+                                make_component_function("decode", choice.choices[i], types[i], module, tree) +
+                                "(content);");
                         }
-                        i++;
                     }
                 }
             }
diff --git a/src/compiler/GenerateChoice.cpp b/src/compiler/GenerateChoice.cpp
index bdf4e9e..e7496f9 100644
--- a/src/compiler/GenerateChoice.cpp
+++ b/src/compiler/GenerateChoice.cpp
@@ -28,20 +28,11 @@ CodeBlock create_choice_definition(const ChoiceType& choice, const Module& modul
     {
         CodeScope scope(block, true);
 
-        int64_t tag_counter = 0;
-        for (const auto& named_type : choice.choices)
+        const std::vector<Type> choice_types = tagged_component_types(choice, module);
+        for (size_t i = 0; i < choice.choices.size(); i++)
         {
-            if (module.tagging_default == TaggingMode::automatic)
-            {
-                std::string choice_id = Identifier(Class::context_specific, tag_counter++).name();
-                block.add_block(create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree,
-                                                       choice_id, false));
-            }
-            else
-            {
-                block.add_block(
-                    create_type_assignment(make_type_name(named_type.name), named_type.type, module, tree, {}, false));
-            }
+            block.add_block(create_type_assignment(make_type_name(choice.choices[i].name), choice_types[i], module,
+                                                   tree, {}, false));
         }
         block.add_line("using Storage = " + storage + ';');
         block.add_line();
diff --git a/src/compiler/Identifier.cpp b/src/compiler/Identifier.cpp
index cc758d0..bf2c721 100644
--- a/src/compiler/Identifier.cpp
+++ b/src/compiler/Identifier.cpp
@@ -3,6 +3,48 @@
 
 #include "absl/container/flat_hash_set.h"
 
+#include <algorithm>
+
+static std::vector<Type> apply_automatic_tags(std::vector<Type> types, const Module& module)
+{
+    if (module.tagging_default == TaggingMode::automatic && std::none_of(types.begin(), types.end(), is_prefixed))
+    {
+        for (size_t i = 0; i < types.size(); i++)
+        {
+            const Tag tag{Class::context_specific, static_cast<int>(i)};
+            types[i] = BuiltinType(PrefixedType(TaggedType{tag, TaggingMode::implicit, types[i]}));
+        }
+    }
+    return types;
+}
+template <typename Collection>
+static std::vector<Type> tagged_collection_types(const Collection& collection, const Module& module)
+{
+    std::vector<Type> types;
+    for (const ComponentType& component : collection.components)
+    {
+        types.push_back(component.named_type.type);
+    }
+    return apply_automatic_tags(std::move(types), module);
+}
+std::vector<Type> tagged_component_types(const SequenceType& sequence, const Module& module)
+{
+    return tagged_collection_types(sequence, module);
+}
+std::vector<Type> tagged_component_types(const SetType& set, const Module& module)
+{
+    return tagged_collection_types(set, module);
+}
+std::vector<Type> tagged_component_types(const ChoiceType& choice, const Module& module)
+{
+    std::vector<Type> types;
+    for (const NamedType& named_type : choice.choices)
+    {
+        types.push_back(named_type.type);
+    }
+    return apply_automatic_tags(std::move(types), module);
+}
+
 TaggingInfo identifier(const AnyType&, const Module&, const Asn1Tree&)
 {
     TaggingInfo info;
@@ -38,28 +80,7 @@ TaggingInfo identifier(const ChoiceType& choice, const Module& module, const Asn
     TaggingInfo info;
     info.is_default_tagged = true;
 
-    if (module.tagging_default == TaggingMode::automatic)
-    {
-        for (size_t i = 0; i < choice.choices.size(); i++)
-        {
-            if (is_prefixed(choice.choices[i].type))
-            {
-                info.choice_ids.push_back(outer_identifiers(choice.choices[i].type, module, tree)[0]);
-            }
-            else
-            {
-                info.choice_ids.push_back(Identifier{Class::context_specific, static_cast<int64_t>(i)});
-            }
-        }
-    }
-    else
-    {
-        for (const NamedType& named_type : choice.choices)
-        {
-            auto ids = outer_identifiers(named_type.type, module, tree);
-            info.choice_ids.insert(info.choice_ids.end(), ids.begin(), ids.end());
-        }
-    }
+    info.choice_ids = outer_identifiers(choice, module, tree);
 
     absl::flat_hash_set<Identifier> outer_ids;
     for (const Identifier& id : info.outer_tags())
@@ -182,8 +203,7 @@ TaggingInfo identifier(const TaggedType& tagged_type, const Module& current_modu
     }
     else
     {
-        is_explicit = (current_module.tagging_default == TaggingMode::explicit_ ||
-                       current_module.tagging_default == TaggingMode::automatic);
+        is_explicit = (current_module.tagging_default == TaggingMode::explicit_);
     }
 
     const TaggingInfo& child_tag = identifier(tagged_type.type, current_module, tree);
@@ -273,20 +293,10 @@ std::vector<Identifier> outer_identifiers(const CharacterStringType& type, const
 std::vector<Identifier> outer_identifiers(const ChoiceType& choice, const Module& module, const Asn1Tree& tree)
 {
     std::vector<Identifier> ids;
-    if (module.tagging_default == TaggingMode::automatic)
+    for (const Type& type : tagged_component_types(choice, module))
     {
-        for (size_t i = 0; i < choice.choices.size(); i++)
-        {
-            ids.push_back(Identifier{Class::context_specific, static_cast<int64_t>(i)});
-        }
-    }
-    else
-    {
-        for (const NamedType& named_type : choice.choices)
-        {
-            auto child_ids = outer_identifiers(named_type.type, module, tree);
-            ids.insert(ids.end(), child_ids.begin(), child_ids.end());
-        }
+        auto child_ids = outer_identifiers(type, module, tree);
+        ids.insert(ids.end(), child_ids.begin(), child_ids.end());
     }
     return ids;
 }
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index cc443b4..a22b69b 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -47,22 +47,14 @@ CodeBlock create_collection_definition(const Collection& collection, const Modul
             block.add_line();
         }
 
-        int64_t tag_counter = 0;
+        const std::vector<Type> component_types = tagged_component_types(collection, module);
 
         // Define child types
-        for (const ComponentType& component : collection.components)
+        for (size_t i = 0; i < collection.components.size(); i++)
         {
-            if (module.tagging_default == TaggingMode::automatic)
-            {
-                std::string id = Identifier(Class::context_specific, tag_counter++).name();
-                block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
-                                                       component.named_type.type, module, tree, id, false));
-            }
-            else
-            {
-                block.add_block(create_type_assignment(make_type_name(component.named_type.name, type_name),
-                                                       component.named_type.type, module, tree, {}, false));
-            }
+            const NamedType& named_type = collection.components[i].named_type;
+            block.add_block(create_type_assignment(make_type_name(named_type.name, type_name), component_types[i],
+                                                   module, tree, {}, false));
         }
         if (!collection.components.empty())
         {
@@ -230,35 +222,33 @@ std::string type_as_string(const RelativeOIDType& type, const Module& module, co
 }
 void check_valid(const SequenceType& sequence, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
-
-    if (module.tagging_default != TaggingMode::automatic)
+    const std::vector<Type>     types = tagged_component_types(sequence, module);
+    std::vector<Identifier>     previous_optional_ids;
+    absl::optional<std::string> previous_optional_type;
+    for (size_t i = 0; i < sequence.components.size(); i++)
     {
-        std::vector<Identifier>     previous_optional_ids;
-        absl::optional<std::string> previous_optional_type;
-        for (const ComponentType& component : sequence.components)
+        const ComponentType& component = sequence.components[i];
+        if (component.is_optional || component.default_value)
         {
-            if (component.is_optional || component.default_value)
-            {
-                auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
+            auto outer_ids = identifier(types[i], module, tree).outer_tags();
 
-                for (const Identifier& previous_optional_id : previous_optional_ids)
+            for (const Identifier& previous_optional_id : previous_optional_ids)
+            {
+                if (previous_optional_type && previous_optional_id == outer_ids.front())
                 {
-                    if (previous_optional_type && previous_optional_id == outer_ids.front())
-                    {
-                        throw std::runtime_error("SEQUENCE " + type_name +
-                                                 " is ambiguous, two optional values in a row with same ID [" +
-                                                 component.named_type.name + "] [" + *previous_optional_type + "] [" +
-                                                 outer_ids.front().name() + "]");
-                    }
+                    throw std::runtime_error("SEQUENCE " + type_name +
+                                             " is ambiguous, two optional values in a row with same ID [" +
+                                             component.named_type.name + "] [" + *previous_optional_type + "] [" +
+                                             outer_ids.front().name() + "]");
                 }
-                previous_optional_ids  = std::move(outer_ids);
-                previous_optional_type = component.named_type.name;
-            }
-            else
-            {
-                previous_optional_type = absl::nullopt;
-                previous_optional_ids.clear();
             }
+            previous_optional_ids  = std::move(outer_ids);
+            previous_optional_type = component.named_type.name;
+        }
+        else
+        {
+            previous_optional_type = absl::nullopt;
+            previous_optional_ids.clear();
         }
     }
 }
@@ -287,20 +277,17 @@ std::string type_as_string(const SequenceOfType& sequence, const Module&, const
 }
 void check_valid(const SetType& set, const Module& module, const Asn1Tree& tree, const std::string& type_name)
 {
-    if (module.tagging_default != TaggingMode::automatic)
+    absl::flat_hash_set<Identifier> ids;
+    for (const Type& type : tagged_component_types(set, module))
     {
-        absl::flat_hash_set<Identifier> ids;
-        for (const ComponentType& component : set.components)
+        auto outer_ids = identifier(type, module, tree).outer_tags();
+        for (const Identifier& id : outer_ids)
         {
-            auto outer_ids = identifier(component.named_type.type, module, tree).outer_tags();
-            for (const Identifier& id : outer_ids)
+            if (ids.count(id) > 0)
             {
-                if (ids.count(id) > 0)
-                {
-                    throw std::runtime_error("Identifier " + id.name() + " occurs more than once in SET " + type_name);
-                }
-                ids.insert(id);
+                throw std::runtime_error("Identifier " + id.name() + " occurs more than once in SET " + type_name);
             }
+            ids.insert(id);
         }
     }
 }
diff --git a/src/compiler/include/fast_ber/compiler/Identifier.hpp b/src/compiler/include/fast_ber/compiler/Identifier.hpp
index d16d7b1..f3ab39f 100644
--- a/src/compiler/include/fast_ber/compiler/Identifier.hpp
+++ b/src/compiler/include/fast_ber/compiler/Identifier.hpp
@@ -4,6 +4,12 @@
 #include "fast_ber/compiler/ResolveType.hpp"
 #include "fast_ber/compiler/TypeAsString.hpp"
 
+// The components of a SEQUENCE or SET, or the alternatives of a CHOICE, with the tags they are encoded with.
+// In a module with automatic tags [0], [1], ... are applied unless one of the components is explicitly tagged
+std::vector<Type> tagged_component_types(const SequenceType&, const Module&);
+std::vector<Type> tagged_component_types(const SetType&, const Module&);
+std::vector<Type> tagged_component_types(const ChoiceType&, const Module&);
+
 TaggingInfo identifier(const AnyType&, const Module&, const Asn1Tree&);
 TaggingInfo identifier(const BitStringType&, const Module&, const Asn1Tree&);
 TaggingInfo identifier(const BooleanType&, const Module&, const Asn1Tree&);
-- 
2.43.0


From b1a2dc9e4e520576a906ab17d304a2653a117b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 17/40] fix: reject collections which contain a malformed
 element

A corrupt length inside a SEQUENCE, SET or SEQUENCE OF made the decoder stop
there and report success: the elements after it were silently dropped and
optional members reported absent.
---
 include/fast_ber/ber_types/SequenceOf.hpp | 9 +++++----
 include/fast_ber/util/BerView.hpp         | 3 +++
 src/compiler/EncodeDecode.cpp             | 6 ++++++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/SequenceOf.hpp b/include/fast_ber/ber_types/SequenceOf.hpp
index d0ec79e..92ba203 100644
--- a/include/fast_ber/ber_types/SequenceOf.hpp
+++ b/include/fast_ber/ber_types/SequenceOf.hpp
@@ -128,17 +128,18 @@ DecodeResult SequenceOf<T, I, s>::decode(BerView input) noexcept
         return DecodeResult{false};
     }
 
-    BerView child_range = (I::depth() == 1) ? input : *input.begin();
-    for (const BerView child : child_range)
+    const BerView   child_range = (I::depth() == 1) ? input : *input.begin();
+    BerViewIterator child       = child_range.begin();
+    for (; child->is_valid(); ++child)
     {
         this->emplace_back();
-        bool success = this->back().decode(child).success;
+        bool success = this->back().decode(*child).success;
         if (!success)
         {
             return DecodeResult{false};
         }
     }
-    return DecodeResult{true};
+    return DecodeResult{!child.is_malformed()};
 }
 
 template <typename T, typename I, StorageMode s1>
diff --git a/include/fast_ber/util/BerView.hpp b/include/fast_ber/util/BerView.hpp
index 456a69b..0b15853 100644
--- a/include/fast_ber/util/BerView.hpp
+++ b/include/fast_ber/util/BerView.hpp
@@ -105,6 +105,9 @@ class BerViewIterator
     const BerView& operator*() const noexcept { return m_view; }
     const BerView* operator->() const noexcept { return &m_view; }
 
+    // Octets remain, but they do not start with a complete packet
+    bool is_malformed() const noexcept { return !m_view.is_valid() && !m_buffer.empty(); }
+
     friend bool operator==(const BerViewIterator& lhs, const BerViewIterator& rhs) noexcept
     {
         if (!lhs.m_view.is_valid() && !rhs.m_view.is_valid())
diff --git a/src/compiler/EncodeDecode.cpp b/src/compiler/EncodeDecode.cpp
index f20c83b..ac66677 100644
--- a/src/compiler/EncodeDecode.cpp
+++ b/src/compiler/EncodeDecode.cpp
@@ -391,6 +391,12 @@ CodeBlock create_collection_decode_functions(const std::string& name, const Coll
                     }
                 }
             }
+            block.add_line("if (iterator.is_malformed())");
+            {
+                auto scope2 = CodeScope(block);
+                block.add_line(R"(FAST_BER_ERROR("Malformed member when decoding collection [)" + name + R"(]");)");
+                block.add_line("return DecodeResult{false};");
+            }
         }
         block.add_line("return DecodeResult{true};");
     }
-- 
2.43.0


From b142e60d23bcbd031a87473fd3df5c5887a48283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 18/40] fix: allow optional members of recursive types to be
 moved and compared with a value

---
 include/fast_ber/ber_types/Optional.hpp   | 3 ++-
 include/fast_ber/util/DynamicOptional.hpp | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Optional.hpp b/include/fast_ber/ber_types/Optional.hpp
index ae42f2e..fdc7321 100644
--- a/include/fast_ber/ber_types/Optional.hpp
+++ b/include/fast_ber/ber_types/Optional.hpp
@@ -77,7 +77,8 @@ Optional<T, s1>::Optional(Optional<T, s1>&& rhs) noexcept : Implementation(std::
 template <typename T, StorageMode s1>
 Optional<T, s1>& Optional<T, s1>::operator=(Optional<T, s1>&& rhs) noexcept
 {
-    this->Implementation::operator=(std::move(rhs));
+    // Assign as the base class, to not select its assignment from a value
+    this->Implementation::operator=(static_cast<Implementation&&>(rhs));
     return *this;
 }
 
diff --git a/include/fast_ber/util/DynamicOptional.hpp b/include/fast_ber/util/DynamicOptional.hpp
index ecd55b1..07c9fe8 100644
--- a/include/fast_ber/util/DynamicOptional.hpp
+++ b/include/fast_ber/util/DynamicOptional.hpp
@@ -96,7 +96,7 @@ class DynamicOptional
             return false;
         }
 
-        return *m_val == *rhs;
+        return *m_val == rhs;
     }
     bool operator!=(const DynamicOptional& rhs) const noexcept { return !(*this == rhs); }
     bool operator!=(const T& rhs) const noexcept { return !(*this == rhs); }
-- 
2.43.0


From 474df1aa3919240ceff6bc938ee7e33d432a9252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:01 +0000
Subject: [PATCH 19/40] fix: encode tagged references to generated types with
 their tag

A type assignment or collection element such as [1] Point, where Point is
a SEQUENCE, SET or CHOICE, was encoded with the identifier of Point.
---
 include/fast_ber/util/Alias.hpp               | 40 +++++++++++++++++--
 src/compiler/TypeAsString.cpp                 | 23 +++++++----
 .../fast_ber/compiler/TypeAsString.hpp        |  2 +-
 3 files changed, 54 insertions(+), 11 deletions(-)

diff --git a/include/fast_ber/util/Alias.hpp b/include/fast_ber/util/Alias.hpp
index 9caba9d..47c66fb 100644
--- a/include/fast_ber/util/Alias.hpp
+++ b/include/fast_ber/util/Alias.hpp
@@ -1,14 +1,48 @@
 #pragma once
 
+#include "absl/types/span.h"
+#include "fast_ber/util/BerView.hpp"
+#include "fast_ber/util/DecodeHelpers.hpp"
+#include "fast_ber/util/EncodeHelpers.hpp"
+
+namespace fast_ber
+{
+
+// A generated type which is encoded with another identifier than its own, such as B in
+// A ::= SEQUENCE {}
+// B ::= [1] A
+template <typename T, typename Identifier>
+struct TaggedAlias : T
+{
+    using T::T;
+    using T::operator=;
+    TaggedAlias()                   = default;
+    TaggedAlias(const TaggedAlias&) = default;
+    TaggedAlias(TaggedAlias&&)      = default;
+    TaggedAlias(const T& t) : T(t) {}
+    TaggedAlias(T&& t) : T(std::move(t)) {}
+    TaggedAlias& operator=(const TaggedAlias&) = default;
+
+    using AsnId = Identifier;
+    size_t       encoded_length() const noexcept { return this->template encoded_length_with_id<Identifier>(); }
+    EncodeResult encode(absl::Span<uint8_t> output) const noexcept
+    {
+        return this->template encode_with_id<Identifier>(output);
+    }
+    DecodeResult decode(BerView input) noexcept { return this->template decode_with_id<Identifier>(input); }
+};
+
+} // namespace fast_ber
+
 #define FAST_BER_ALIAS(X, ...)                                                                                         \
     struct X : __VA_ARGS__                                                                                             \
     {                                                                                                                  \
         using AliasedType = __VA_ARGS__;                                                                               \
         using AliasedType::AliasedType;                                                                                \
         using AliasedType::operator=;                                                                                  \
-        X()                        = default;                                                                          \
-        X(const X&)                = default;                                                                          \
-        X(X&&)                     = default;                                                                          \
+        X()         = default;                                                                                         \
+        X(const X&) = default;                                                                                         \
+        X(X&&)      = default;                                                                                         \
         X(const AliasedType& a) : AliasedType(a) {}                                                                    \
         X(AliasedType&& a) : AliasedType(std::move(a)) {}                                                              \
         X&                 operator=(const X&) = default;                                                              \
diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index a22b69b..fbeb752 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -376,7 +376,8 @@ std::string type_as_string(const Type& type, const Module& module, const Asn1Tre
 }
 
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
-                                 const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type)
+                                 const Asn1Tree& tree, const std::string& identifier_override, bool introduce_type,
+                                 bool is_element)
 {
     CodeBlock block;
 
@@ -401,13 +402,13 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
     {
         const SetOfType& sequence = absl::get<SetOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&      type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false, true));
     }
     else if (is_sequence_of(assignment_type))
     {
         const SequenceOfType& sequence = absl::get<SequenceOfType>(absl::get<BuiltinType>(assignment_type));
         const Type&           type     = sequence.has_name ? sequence.named_type->type : *sequence.type;
-        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false));
+        block.add_block(create_type_assignment(name + "Contained", type, module, tree, {}, false, true));
     }
     else if (is_set(assignment_type))
     {
@@ -436,7 +437,8 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
         }
 
         const PrefixedType& prefixed = absl::get<PrefixedType>(absl::get<BuiltinType>(assignment_type));
-        block.add_block(create_type_assignment(name, prefixed.tagged_type->type, module, tree, id, introduce_type));
+        block.add_block(
+            create_type_assignment(name, prefixed.tagged_type->type, module, tree, id, introduce_type, is_element));
     }
     else
     {
@@ -456,14 +458,21 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
                                resolved.module.module_reference + "::" + defined_type.type_reference + "Values;");
             }
         }
+        std::string type_string = type_as_string(assignment_type, module, tree, name, id);
+        if ((introduce_type || is_element) && is_defined(assignment_type) &&
+            is_generated(resolve_type(tree, module.module_reference, absl::get<DefinedType>(assignment_type)).type) &&
+            id != identifier(assignment_type, module, tree).name())
+        {
+            // Generated types carry the identifier of their definition, which is replaced by the tag of the reference
+            type_string = "::fast_ber::TaggedAlias<" + type_string + ", " + id + ">";
+        }
         if (introduce_type)
         {
-            block.add_line("FAST_BER_ALIAS(" + name + ", " + type_as_string(assignment_type, module, tree, name, id) +
-                           ");");
+            block.add_line("FAST_BER_ALIAS(" + name + ", " + type_string + ");");
         }
         else
         {
-            block.add_line("using " + name + " = " + type_as_string(assignment_type, module, tree, name, id) + ";");
+            block.add_line("using " + name + " = " + type_string + ";");
         }
     }
     return block;
diff --git a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
index 62fdec1..3fcd0f3 100644
--- a/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
+++ b/src/compiler/include/fast_ber/compiler/TypeAsString.hpp
@@ -117,5 +117,5 @@ inline std::string type_name(const Type& t) { return absl::visit(TypeNameHelper{
 
 CodeBlock create_type_assignment(const std::string& name, const Type& assignment_type, const Module& module,
                                  const Asn1Tree& tree, const std::string& identifier_override = {},
-                                 bool introduce_type = true);
+                                 bool introduce_type = true, bool is_element = false);
 CodeBlock create_type_assignment(const Assignment& assignment, const Module& module, const Asn1Tree& tree);
-- 
2.43.0


From d7d89ba0f14f2d56abcd5bbf5066146924efc338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:31 +0000
Subject: [PATCH 20/40] fix: inspect the format of a moved from GeneralizedTime

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 771d832..8ff93a4 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -42,7 +42,7 @@ class GeneralizedTime
     explicit GeneralizedTime(BerView view) : GeneralizedTime() { decode(view); }
     ~GeneralizedTime() noexcept = default;
 
-    GeneralizedTime& operator=(const GeneralizedTime&) = default;
+    GeneralizedTime& operator=(const GeneralizedTime&)     = default;
     GeneralizedTime& operator=(GeneralizedTime&&) noexcept = default;
 
     size_t       encoded_length() const noexcept;
@@ -106,12 +106,12 @@ void GeneralizedTime<Identifier>::set_time(const absl::Time& time, int timezone_
 template <typename Identifier>
 typename GeneralizedTime<Identifier>::TimeFormat GeneralizedTime<Identifier>::format() const
 {
-    if (m_contents.content().back() == 'Z')
+    const absl::Span<const uint8_t> content = m_contents.content();
+    if (!content.empty() && content.back() == 'Z')
     {
         return TimeFormat::universal;
     }
-    else if ((m_contents.content()[m_contents.content_length() - 5] == '-') ||
-             (m_contents.content()[m_contents.content_length() - 5] == '+'))
+    else if (content.length() >= 5 && (content[content.length() - 5] == '-' || content[content.length() - 5] == '+'))
     {
         return TimeFormat::universal_with_timezone;
     }
-- 
2.43.0


From a4e5fc94d86e708e7c4d9fe5b218d36ce37b8518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:14 +0000
Subject: [PATCH 21/40] fix: compare malformed times received from a peer
 without terminating

The comparison of times threw on malformed text, which ended the process when
comparing the CHOICEs, lists and messages which contain them, as these
comparisons are noexcept.
---
 .../fast_ber/ber_types/GeneralizedTime.hpp    | 63 ++++++++++---------
 1 file changed, 32 insertions(+), 31 deletions(-)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index 8ff93a4..a54b313 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -51,18 +51,24 @@ class GeneralizedTime
 
     using AsnId = Identifier;
 
+    // Malformed times, which may be received from a peer, are only equal to themselves
+    bool operator==(const GeneralizedTime& rhs) const noexcept
+    {
+        absl::Time  lhs_time;
+        absl::Time  rhs_time;
+        std::string error;
+        return m_contents.content() == rhs.m_contents.content() ||
+               (parse(lhs_time, error) && rhs.parse(rhs_time, error) && lhs_time == rhs_time);
+    }
+
   private:
+    bool parse(absl::Time& time, std::string& error) const;
+
     FixedIdBerContainer<Identifier> m_contents;
 };
 
 template <typename Identifier>
-bool operator==(const GeneralizedTime<Identifier>& lhs, const GeneralizedTime<Identifier>& rhs)
-{
-    return lhs.time() == rhs.time();
-}
-
-template <typename Identifier>
-bool operator!=(const GeneralizedTime<Identifier>& lhs, const GeneralizedTime<Identifier>& rhs)
+bool operator!=(const GeneralizedTime<Identifier>& lhs, const GeneralizedTime<Identifier>& rhs) noexcept
 {
     return !(lhs == rhs);
 }
@@ -122,34 +128,29 @@ typename GeneralizedTime<Identifier>::TimeFormat GeneralizedTime<Identifier>::fo
 }
 
 template <typename Identifier>
-absl::Time GeneralizedTime<Identifier>::time() const
+bool GeneralizedTime<Identifier>::parse(absl::Time& time, std::string& error) const
 {
-    thread_local std::string s_error_string;
-    absl::Time               time;
-    const TimeFormat         frmt = format();
-
-    if (frmt == TimeFormat::universal)
-    {
-        if (!absl::ParseTime(g_universal_time_format, this->string(), absl::UTCTimeZone(), &time, &s_error_string))
-        {
-            throw std::runtime_error("Failed to parse time: " + s_error_string);
-        }
-    }
-    else if (frmt == TimeFormat::universal_with_timezone)
+    const std::string time_str = this->string();
+    switch (format())
     {
-        const auto time_str = this->string();
-        if (!absl::ParseTime(g_universal_time_with_time_zone_format, time_str.substr(.0, time_str.length() - 5),
-                             absl::UTCTimeZone(), &time, &s_error_string))
-        {
-            throw std::runtime_error("Failed to parse time: " + s_error_string);
-        }
+    case TimeFormat::universal:
+        return absl::ParseTime(g_universal_time_format, time_str, absl::UTCTimeZone(), &time, &error);
+    case TimeFormat::universal_with_timezone:
+        return absl::ParseTime(g_universal_time_with_time_zone_format, time_str.substr(0, time_str.length() - 5),
+                               absl::UTCTimeZone(), &time, &error);
+    default:
+        return absl::ParseTime(g_local_time_format, time_str, absl::UTCTimeZone(), &time, &error);
     }
-    else if (frmt == TimeFormat::local)
+}
+
+template <typename Identifier>
+absl::Time GeneralizedTime<Identifier>::time() const
+{
+    std::string error;
+    absl::Time  time;
+    if (!parse(time, error))
     {
-        if (!absl::ParseTime(g_local_time_format, this->string(), absl::UTCTimeZone(), &time, &s_error_string))
-        {
-            throw std::runtime_error("Failed to parse time: " + s_error_string);
-        }
+        throw std::runtime_error("Failed to parse time: " + error);
     }
     return time;
 }
-- 
2.43.0


From 4a0973d1c93da84b6d0d24522d1d2263b7b490f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:28 +0000
Subject: [PATCH 22/40] fix: define BerContainer's assignment from a BerView,
 which was declared only

---
 include/fast_ber/util/BerContainer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index ac4e7d4..c7a10b8 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -98,6 +98,12 @@ inline BerContainer::BerContainer(Construction input_construction, Class input_c
     assign_content(input_construction, input_class, input_tag, input_content);
 }
 
+inline BerContainer& BerContainer::operator=(const BerView input_view) noexcept
+{
+    decode(input_view);
+    return *this;
+}
+
 inline BerContainer& BerContainer::operator=(const BerContainer& container) noexcept
 {
     if (this != &container)
-- 
2.43.0


From daa78f2510e122bb4e54be922ba73855d9c609dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:36 +0000
Subject: [PATCH 23/40] fix: assigning a part of a container's own content to
 it read the content after it was overwritten

---
 include/fast_ber/util/BerContainer.hpp        | 19 +++++++++++++++++++
 include/fast_ber/util/FixedIdBerContainer.hpp | 10 ++++++++++
 2 files changed, 29 insertions(+)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index c7a10b8..f4ae460 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -9,6 +9,7 @@
 #include "absl/types/span.h"
 
 #include <array>
+#include <functional>
 
 namespace fast_ber
 {
@@ -133,6 +134,15 @@ inline BerContainer& BerContainer::operator=(BerContainer&& container) noexcept
 
 inline void BerContainer::assign_content(const absl::Span<const uint8_t> input_content) noexcept
 {
+    // Content may be taken from this container itself, where resizing would alter or release it
+    if (!std::less<const uint8_t*>()(input_content.data(), m_data.data()) &&
+        std::less<const uint8_t*>()(input_content.data(), m_data.data() + m_data.size()))
+    {
+        const absl::InlinedVector<uint8_t, 100u> copy(input_content.begin(), input_content.end());
+        assign_content(absl::Span<const uint8_t>(copy));
+        return;
+    }
+
     m_data.resize(15 + input_content.size());
     m_data[0] = 0x00; // No identifier provided, use a tag of 0
     size_t new_header_length =
@@ -148,6 +158,15 @@ inline void BerContainer::assign_content(const absl::Span<const uint8_t> input_c
 inline void BerContainer::assign_content(Construction input_construction, Class input_class, Tag input_tag,
                                          absl::Span<const uint8_t> input_content) noexcept
 {
+    // Content may be taken from this container itself, where resizing would alter or release it
+    if (!std::less<const uint8_t*>()(input_content.data(), m_data.data()) &&
+        std::less<const uint8_t*>()(input_content.data(), m_data.data() + m_data.size()))
+    {
+        const absl::InlinedVector<uint8_t, 100u> copy(input_content.begin(), input_content.end());
+        assign_content(input_construction, input_class, input_tag, absl::Span<const uint8_t>(copy));
+        return;
+    }
+
     m_data.resize(30 + input_content.size());
     size_t input_header_length = encode_header(absl::MakeSpan(m_data.data(), m_data.size()), input_construction,
                                                input_class, input_tag, input_content.size());
diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index 0a4fff5..c360897 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -11,6 +11,7 @@
 #include "absl/types/span.h"
 
 #include <array>
+#include <functional>
 
 namespace fast_ber
 {
@@ -223,6 +224,15 @@ DecodeResult FixedIdBerContainer<Identifier>::decode_impl(BerView
 template <typename Identifier>
 void FixedIdBerContainer<Identifier>::assign_content(const absl::Span<const uint8_t> input_content) noexcept
 {
+    // Content may be taken from this container itself, where resizing would alter or release it
+    if (!std::less<const uint8_t*>()(input_content.data(), m_data.data()) &&
+        std::less<const uint8_t*>()(input_content.data(), m_data.data() + m_data.size()))
+    {
+        const absl::InlinedVector<uint8_t, 100u> copy(input_content.begin(), input_content.end());
+        assign_content(absl::Span<const uint8_t>(copy));
+        return;
+    }
+
     const size_t encoded_len = fast_ber::encoded_length(input_content.length(), Identifier{});
     const size_t header_len  = encoded_len - input_content.length();
 
-- 
2.43.0


From 7c8b2a9954f0c803012cbf4fbaa9bf6b6840e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 24/40] fix: Default::value did not compile when used

---
 include/fast_ber/ber_types/Default.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index edb8680..a3d147a 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -7,6 +7,7 @@
 #include "absl/types/optional.h"
 
 #include <type_traits>
+#include <utility>
 
 namespace fast_ber
 {
@@ -40,10 +41,14 @@ struct Default
     Default& operator=(const T2& val);
     Default& operator=(const char* val);
 
-    const T&              get() const noexcept { return is_default() ? m_default : *m_item; }
-    decltype(T{}.value()) value() const noexcept(T{}.value()) { return get()->value(); }
-    bool                  is_default() const noexcept { return !m_item; }
-    void                  set_to_default() noexcept { m_item = absl::nullopt; }
+    const T& get() const noexcept { return is_default() ? m_default : *m_item; }
+    template <typename U = T>
+    decltype(std::declval<const U&>().value()) value() const noexcept(noexcept(std::declval<const U&>().value()))
+    {
+        return get().value();
+    }
+    bool is_default() const noexcept { return !m_item; }
+    void set_to_default() noexcept { m_item = absl::nullopt; }
 
     size_t       encoded_length() const noexcept;
     EncodeResult encode(absl::Span<uint8_t> buffer) const noexcept;
-- 
2.43.0


From 2aa96032f40f5c4194d1705c39e08577df9d576c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 25/40] fix: growing a received string could expose octets of
 its former header instead of zeros

---
 include/fast_ber/util/BerContainer.hpp        | 4 ++++
 include/fast_ber/util/FixedIdBerContainer.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/fast_ber/util/BerContainer.hpp b/include/fast_ber/util/BerContainer.hpp
index f4ae460..bf78ba1 100644
--- a/include/fast_ber/util/BerContainer.hpp
+++ b/include/fast_ber/util/BerContainer.hpp
@@ -191,6 +191,10 @@ inline void BerContainer::resize_content(size_t size)
 
     m_data.resize(new_complete_length);
     std::memmove(m_data.data() + new_header_length, m_data.data() + old_header_length, std::min(old_size, size));
+    if (size > old_size)
+    {
+        std::memset(m_data.data() + new_header_length + old_size, 0, size - old_size);
+    }
     std::copy(length_buffer.data(), length_buffer.data() + new_length_length, m_data.data() + new_length_offset);
     m_view.assign(absl::MakeSpan(m_data.data(), m_data.size()), new_header_length, size);
 
diff --git a/include/fast_ber/util/FixedIdBerContainer.hpp b/include/fast_ber/util/FixedIdBerContainer.hpp
index c360897..6157d8d 100644
--- a/include/fast_ber/util/FixedIdBerContainer.hpp
+++ b/include/fast_ber/util/FixedIdBerContainer.hpp
@@ -253,6 +253,10 @@ void FixedIdBerContainer<Identifier>::resize_content(size_t size)
     m_data.resize(new_header_length + size);
     std::memmove(m_data.data() + new_header_length, m_data.data() + old_header_length,
                  std::min(m_content_length, size));
+    if (size > m_content_length)
+    {
+        std::memset(m_data.data() + new_header_length + m_content_length, 0, size - m_content_length);
+    }
 
     encode_header(absl::Span<uint8_t>(m_data), size, Identifier{}, Construction::primitive);
     m_content_length = size;
-- 
2.43.0


From 8c79b1c43eb54822d2b03133cbe6c0e22d23d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 26/40] fix: define Enumerated's assignment from another tag,
 which was declared only

---
 include/fast_ber/ber_types/Enumerated.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Enumerated.hpp b/include/fast_ber/ber_types/Enumerated.hpp
index 0a09663..de185ef 100644
--- a/include/fast_ber/ber_types/Enumerated.hpp
+++ b/include/fast_ber/ber_types/Enumerated.hpp
@@ -27,7 +27,11 @@ class Enumerated
     EnumeratedType value() const noexcept { return static_cast<EnumeratedType>(m_val.value()); }
 
     template <typename Identifier2>
-    Enumerated& operator=(const Enumerated<EnumeratedType, Identifier2>& rhs) noexcept;
+    Enumerated& operator=(const Enumerated<EnumeratedType, Identifier2>& rhs) noexcept
+    {
+        assign(rhs);
+        return *this;
+    }
     Enumerated& operator=(EnumeratedType rhs) noexcept
     {
         assign(rhs);
-- 
2.43.0


From 36de9c53b6f6946d12567eecd27e8d762cca8b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:03 +0000
Subject: [PATCH 27/40] fix: a Default constructed from a value was compared
 with a default which was not yet initialised

---
 include/fast_ber/ber_types/Default.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Default.hpp b/include/fast_ber/ber_types/Default.hpp
index a3d147a..ee9fd0c 100644
--- a/include/fast_ber/ber_types/Default.hpp
+++ b/include/fast_ber/ber_types/Default.hpp
@@ -55,8 +55,8 @@ struct Default
     DecodeResult decode(BerView input) noexcept;
 
   private:
+    const T           m_default = T(DefaultValue::get_value()); // initialised first, m_item is compared with it
     absl::optional<T> m_item;
-    const T           m_default = T(DefaultValue::get_value());
 };
 
 template <typename T, typename DefaultValue>
-- 
2.43.0


From d429a5381a22cae0228886796043bb77de1a636a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 28/40] fix: assigning a choice's own alternative to it read
 the alternative after it was destroyed

---
 include/fast_ber/ber_types/Choice.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 4a91fcc..b88070a 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -413,7 +413,8 @@ struct Choice<Choices<Types...>, Identifier, storage>
     operator=(T&& t) noexcept(std::is_nothrow_assignable<AcceptedType<T&&>&, T&&>::value&&
                                   std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
     {
-        m_base.template emplace<AcceptedType<T&&>>(std::forward<T&&>(t));
+        // t may refer into the present alternative, which ends its life before the new one is constructed
+        m_base.template emplace<AcceptedType<T&&>>(AcceptedType<T&&>(std::forward<T>(t)));
         return *this;
     }
 
-- 
2.43.0


From fff648ab72f1eeca252e6a7f2c92ef351bbbdd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:27 +0000
Subject: [PATCH 29/40] fix: an infinite REAL compared equal to every other
 number

---
 include/fast_ber/ber_types/Real.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Real.hpp b/include/fast_ber/ber_types/Real.hpp
index ec60e6d..9516015 100644
--- a/include/fast_ber/ber_types/Real.hpp
+++ b/include/fast_ber/ber_types/Real.hpp
@@ -502,9 +502,9 @@ inline bool Real<Identifier>::operator==(const Real& rhs) const noexcept
 
     /* According to https://www.gnu.org/software/libc/manual/html_node/Infinity-and-NaN.html
      * In comparison operations, positive infinity is larger than all values except itself and NaN */
-    if (std::isinf(lhs_value) && std::isinf(rhs_value))
+    if (std::isinf(lhs_value) || std::isinf(rhs_value))
     {
-        return std::signbit(lhs_value) == std::signbit(rhs_value);
+        return lhs_value == rhs_value;
     }
 
     if (std::abs(lhs_value - rhs_value) <= std::numeric_limits<double>::epsilon())
-- 
2.43.0


From 08a3a8f2798b9c0d5131ba41e19df64ded0081a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:47 +0000
Subject: [PATCH 30/40] fix: copying a SequenceOf leaked memory when an
 allocation failed while copying its elements

---
 include/fast_ber/ber_types/SequenceOf.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/fast_ber/ber_types/SequenceOf.hpp b/include/fast_ber/ber_types/SequenceOf.hpp
index 92ba203..a5b3b54 100644
--- a/include/fast_ber/ber_types/SequenceOf.hpp
+++ b/include/fast_ber/ber_types/SequenceOf.hpp
@@ -40,10 +40,11 @@ struct SequenceOf : public SequenceOfImplementation<T, s>::Type
     using Implementation = typename SequenceOfImplementation<T, s>::Type;
 
     using Implementation::Implementation;
-    SequenceOf()                  = default;
-    SequenceOf(const SequenceOf&) = default;
+    SequenceOf() = default;
+    // Copied by iterators, as absl::InlinedVector's copy constructor leaks its allocation when copying an element throws
+    SequenceOf(const SequenceOf& t) : Implementation(t.begin(), t.end()) {}
     SequenceOf(SequenceOf&&) noexcept;
-    SequenceOf(const Implementation& t) : Implementation(t) {}
+    SequenceOf(const Implementation& t) : Implementation(t.begin(), t.end()) {}
     SequenceOf(Implementation&& t) noexcept : Implementation(std::move(t)) {}
     template <typename I2, StorageMode s2>
     SequenceOf(const SequenceOf<T, I2, s2>& t) : Implementation(t.begin(), t.end())
-- 
2.43.0


From 4f016159a5bd0367fd4d53c1f9d479b9f811c0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 31/40] fix: move rvalues into variants and optionals instead
 of copying them

---
 include/fast_ber/ber_types/Choice.hpp     | 2 +-
 include/fast_ber/util/DynamicOptional.hpp | 2 +-
 include/fast_ber/util/DynamicVariant.hpp  | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index b88070a..d2b73dc 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -366,7 +366,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
                                                        ExactlyOnce<AcceptedType<T&&>>::value &&
                                                        std::is_constructible<AcceptedType<T&&>, T&&>::value>>
     Choice(T&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
-        : m_base(typename Implementation::template InPlaceType<AcceptedType<T&&>>{}, t)
+        : m_base(typename Implementation::template InPlaceType<AcceptedType<T&&>>{}, std::forward<T>(t))
     {
         assert(holds_alternative<AcceptedType<T&&>>(*this));
     }
diff --git a/include/fast_ber/util/DynamicOptional.hpp b/include/fast_ber/util/DynamicOptional.hpp
index 07c9fe8..69cb69d 100644
--- a/include/fast_ber/util/DynamicOptional.hpp
+++ b/include/fast_ber/util/DynamicOptional.hpp
@@ -70,7 +70,7 @@ class DynamicOptional
     template <typename... Args>
     T& emplace(Args&&... args)
     {
-        m_val = absl::make_unique<T>(args...);
+        m_val = absl::make_unique<T>(std::forward<Args>(args)...);
         return *m_val;
     }
     bool has_value() const noexcept { return bool(m_val); }
diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index d26be10..21ac433 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -345,7 +345,7 @@ class DynamicVariant
               typename = absl::enable_if_t<ExactlyOnce<AcceptedType<T&&>>::value &&
                                            std::is_constructible<AcceptedType<T&&>, T&&>::value>>
     DynamicVariant(T&& t) noexcept(std::is_nothrow_constructible<AcceptedType<T&&>, T&&>::value)
-        : m_index(detail::IndexOf<AcceptedType<T&&>, Types...>::value), m_data(new AcceptedType<T&&>(t))
+        : m_index(detail::IndexOf<AcceptedType<T&&>, Types...>::value), m_data(new AcceptedType<T&&>(std::forward<T>(t)))
     {
         assert(holds_alternative<AcceptedType<T&&>>(*this));
     }
@@ -363,7 +363,7 @@ class DynamicVariant
               typename = absl::enable_if_t<ExactlyOnce<T>::value &&
                                            std::is_constructible<T, std::initializer_list<U>&, Args&&...>::value>>
     explicit DynamicVariant(in_place_type_t<T>, std::initializer_list<U> il, Args&&... args)
-        : m_index(detail::IndexOf<T, Types...>::value), m_data(new T(il, args...))
+        : m_index(detail::IndexOf<T, Types...>::value), m_data(new T(il, std::forward<Args>(args)...))
     {
         assert(holds_alternative<T>(*this));
     }
-- 
2.43.0


From a12bc3f812a19bb575f291c0236d50c9fc3a169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 32/40] fix: getting an alternative of an rvalue variant or
 choice did not compile

---
 include/fast_ber/ber_types/Choice.hpp    | 22 ++++++++++++++--------
 include/fast_ber/util/DynamicVariant.hpp |  8 ++++----
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index d2b73dc..5725c90 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -185,7 +185,7 @@ T& get(Choice<Choices<Types...>, Identifier, StorageMode::static_>& v)
 template <class T, typename... Types, typename Identifier>
 T&& get(Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<T>(v.base());
+    return std::move(absl::get<T>(v.base()));
 }
 
 template <class T, typename... Types, typename Identifier>
@@ -197,7 +197,7 @@ const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&
 template <class T, typename... Types, typename Identifier>
 const T&& get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<T>(v.base());
+    return std::move(absl::get<T>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -211,7 +211,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::static_>>&&
 get(Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<I>(v.base());
+    return std::move(absl::get<I>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -225,15 +225,21 @@ template <std::size_t I, typename... Types, typename Identifier>
 const variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::static_>>&&
 get(const Choice<Choices<Types...>, Identifier, StorageMode::static_>&& v)
 {
-    return absl::get<I>(v.base());
+    return std::move(absl::get<I>(v.base()));
 }
 
 template <class T, typename... Types, typename Identifier>
-T&& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
+T& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>& v)
 {
     return fast_ber::dynamic::get<T>(v.base());
 }
 
+template <class T, typename... Types, typename Identifier>
+T&& get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
+{
+    return std::move(fast_ber::dynamic::get<T>(v.base()));
+}
+
 template <class T, typename... Types, typename Identifier>
 const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>& v)
 {
@@ -243,7 +249,7 @@ const T& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&
 template <class T, typename... Types, typename Identifier>
 const T&& get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<T>(v.base());
+    return std::move(fast_ber::dynamic::get<T>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -257,7 +263,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::dynamic>>&&
 get(Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<I>(v.base());
+    return std::move(fast_ber::dynamic::get<I>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
@@ -271,7 +277,7 @@ template <std::size_t I, typename... Types, typename Identifier>
 const variant_alternative_t<I, Choice<Choices<Types...>, Identifier, StorageMode::dynamic>>&&
 get(const Choice<Choices<Types...>, Identifier, StorageMode::dynamic>&& v)
 {
-    return fast_ber::dynamic::get<I>(v.base());
+    return std::move(fast_ber::dynamic::get<I>(v.base()));
 }
 
 template <std::size_t I, typename... Types, typename Identifier>
diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 21ac433..39e32b1 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -121,7 +121,7 @@ T&& get(DynamicVariant<Types...>&& v)
     {
         throw BadVariantAccess();
     }
-    return v.template value<T>();
+    return std::move(v.template value<T>());
 }
 
 template <class T, class... Types>
@@ -141,7 +141,7 @@ const T&& get(const DynamicVariant<Types...>&& v)
     {
         throw BadVariantAccess();
     }
-    return v.template value<T>();
+    return std::move(v.template value<T>());
 }
 
 template <std::size_t I, class... Types>
@@ -161,7 +161,7 @@ variant_alternative_t<I, DynamicVariant<Types...>>&& get(DynamicVariant<Types...
     {
         throw BadVariantAccess();
     }
-    return v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>();
+    return std::move(v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>());
 }
 
 template <std::size_t I, class... Types>
@@ -181,7 +181,7 @@ const variant_alternative_t<I, DynamicVariant<Types...>>&& get(const DynamicVari
     {
         throw BadVariantAccess();
     }
-    return v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>();
+    return std::move(v.template value<variant_alternative_t<I, DynamicVariant<Types...>>>());
 }
 
 template <std::size_t I, class... Types>
-- 
2.43.0


From 6bfe39a6c33365ed6588e999193c0cbc7c3a393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 33/40] fix: visiting or ordering a valueless variant threw an
 int, and a visitor could not modify the alternative

---
 include/fast_ber/util/DynamicVariant.hpp | 25 ++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 39e32b1..4a682ef 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -210,13 +210,19 @@ constexpr typename std::add_pointer<const T>::type get_if(const DynamicVariant<T
     return fast_ber::dynamic::get_if<detail::IndexOf<T, Types...>::value>(v);
 }
 
+template <size_t index, typename Visitor, typename... VariantOptions,
+          typename std::enable_if<(index == sizeof...(VariantOptions)), int>::type = 0>
+[[noreturn]] auto visit_impl(Visitor&& vis, DynamicVariant<VariantOptions...>& variant) -> decltype(vis(get<0>(variant)))
+{
+    throw BadVariantAccess();
+}
+
 template <size_t index, typename Visitor, typename... VariantOptions,
           typename std::enable_if<(index == sizeof...(VariantOptions)), int>::type = 0>
 [[noreturn]] auto visit_impl(Visitor&& vis, const DynamicVariant<VariantOptions...>& variant)
     -> decltype(vis(get<0>(variant)))
 {
-    assert("Not reachable");
-    throw 0;
+    throw BadVariantAccess();
 }
 
 template <size_t index, typename Visitor, typename... VariantOptions,
@@ -252,8 +258,7 @@ template <size_t index, typename Visitor, typename... VariantOptions,
 [[noreturn]] auto visit_binary_impl(Visitor&& vis, const DynamicVariant<VariantOptions...>& a,
                                     const DynamicVariant<VariantOptions...>& b) -> decltype(vis(get<0>(a), get<0>(b)))
 {
-    assert("Not reachable");
-    throw 0;
+    throw BadVariantAccess();
 }
 
 template <size_t index, typename Visitor, typename... VariantOptions,
@@ -571,25 +576,29 @@ bool operator!=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...
 template <typename... Types>
 bool operator<(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1) : visit_binary(LessThan(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1)
+                                    : (!a.valueless_by_exception() && visit_binary(LessThan(), a, b));
 }
 
 template <typename... Types>
 bool operator>(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1) : visit_binary(GreaterThan(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1)
+                                    : (!a.valueless_by_exception() && visit_binary(GreaterThan(), a, b));
 }
 
 template <typename... Types>
 bool operator<=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1) : visit_binary(LessThanOrEquals(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) < (b.index() + 1)
+                                    : (a.valueless_by_exception() || visit_binary(LessThanOrEquals(), a, b));
 }
 
 template <typename... Types>
 bool operator>=(const DynamicVariant<Types...>& a, const DynamicVariant<Types...>& b)
 {
-    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1) : visit_binary(GreaterThanOrEquals(), a, b);
+    return (a.index() != b.index()) ? (a.index() + 1) > (b.index() + 1)
+                                    : (a.valueless_by_exception() || visit_binary(GreaterThanOrEquals(), a, b));
 }
 
 } // namespace dynamic
-- 
2.43.0


From a9574ac0cd7e8efcb6b20b15ecb1a94a03eb7a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 34/40] fix: moving a part of a dynamic variant's alternative
 into the variant read it after it was destroyed

---
 include/fast_ber/util/DynamicVariant.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/fast_ber/util/DynamicVariant.hpp b/include/fast_ber/util/DynamicVariant.hpp
index 4a682ef..004e4d6 100644
--- a/include/fast_ber/util/DynamicVariant.hpp
+++ b/include/fast_ber/util/DynamicVariant.hpp
@@ -405,13 +405,8 @@ class DynamicVariant
 
     DynamicVariant& operator=(DynamicVariant&& other) noexcept
     {
-        if (this != &other)
-        {
-            reset(other.m_index, other.m_data);
-
-            other.m_index = variant_npos;
-            other.m_data  = nullptr;
-        }
+        // other may be a part of the present alternative, so that is destroyed last
+        DynamicVariant(std::move(other)).swap(*this);
         return *this;
     }
 
-- 
2.43.0


From d4df3ce8f1b96e11ed67f67b2299ab0cb7bf1bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 35/40] fix: emplacing an alternative of a choice from an
 lvalue did not compile

---
 include/fast_ber/ber_types/Choice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fast_ber/ber_types/Choice.hpp b/include/fast_ber/ber_types/Choice.hpp
index 5725c90..6efccd0 100644
--- a/include/fast_ber/ber_types/Choice.hpp
+++ b/include/fast_ber/ber_types/Choice.hpp
@@ -428,7 +428,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
               typename = absl::enable_if_t<std::is_constructible<T, Args...>::value && ExactlyOnce<T>::value>>
     T& emplace(Args&&... args)
     {
-        return m_base.template emplace<T, Args...>(std::forward<Args>(args)...);
+        return m_base.template emplace<T>(std::forward<Args>(args)...);
     }
 
     template <typename T, typename U, typename... Args,
@@ -436,7 +436,7 @@ struct Choice<Choices<Types...>, Identifier, storage>
                                            ExactlyOnce<T>::value>>
     T& emplace(std::initializer_list<U> il, Args&&... args)
     {
-        return m_base.template emplace<T, U, Args...>(il, std::forward<Args>(args)...);
+        return m_base.template emplace<T>(il, std::forward<Args>(args)...);
     }
 
     template <size_t i, typename... Args>
-- 
2.43.0


From ad47fe8e91e9230afedcfe9ab9f4d4e390748f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 36/40] fix: malformed times were read as some other time

---
 include/fast_ber/ber_types/GeneralizedTime.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/fast_ber/ber_types/GeneralizedTime.hpp b/include/fast_ber/ber_types/GeneralizedTime.hpp
index a54b313..196d720 100644
--- a/include/fast_ber/ber_types/GeneralizedTime.hpp
+++ b/include/fast_ber/ber_types/GeneralizedTime.hpp
@@ -131,6 +131,20 @@ template <typename Identifier>
 bool GeneralizedTime<Identifier>::parse(absl::Time& time, std::string& error) const
 {
     const std::string time_str = this->string();
+
+    // absl also takes shorter numbers, signs, white space and words
+    const size_t suffix_length = (format() == TimeFormat::universal) ? 1
+                                 : (format() == TimeFormat::universal_with_timezone) ? 5
+                                                                                     : 0;
+    const size_t digits_length = time_str.length() - suffix_length;
+    const size_t first_other   = time_str.find_first_not_of("0123456789");
+    if (digits_length != 14 || (first_other != std::string::npos && first_other < digits_length) ||
+        time_str.find_first_not_of("0123456789", digits_length + 1) != std::string::npos)
+    {
+        error = "Expected YYYYMMDDhhmmss";
+        return false;
+    }
+
     switch (format())
     {
     case TimeFormat::universal:
-- 
2.43.0


From c6a9470396dddf9ad1afdb9b6815bee8f6ee365d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:02 +0000
Subject: [PATCH 37/40] fix: the compiler read beyond the end of an input which
 ends in a comment or string, and ignored what follows a null character

---
 src/compiler_main/CompilerMain.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/compiler_main/CompilerMain.cpp b/src/compiler_main/CompilerMain.cpp
index dda1400..99baa0e 100644
--- a/src/compiler_main/CompilerMain.cpp
+++ b/src/compiler_main/CompilerMain.cpp
@@ -226,6 +226,13 @@ int main(int argc, char** argv)
             }
 
             std::string buffer(std::istreambuf_iterator<char>(input_file), {});
+            if (buffer.find('\0') != std::string::npos)
+            {
+                std::cerr << "Input file contains a null character: " << input_filename << "\n";
+                return -1;
+            }
+            // The lexer looks for the end of a comment or string without regard to the end of the input
+            buffer.append("\n\0*/\0\"", 6);
             context.cursor = buffer.c_str();
             context.location.initialize(&input_filename);
 
-- 
2.43.0


From f4e76474f45e94f88a78a1a924c973b701b29568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:39 +0000
Subject: [PATCH 38/40] fix: enumerated, real and malformed values were printed
 as 0, as nothing or as a default

---
 src/util/BerView.cpp | 59 +++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 22 deletions(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index f2925f8..2b90235 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -3,6 +3,21 @@
 
 namespace fast_ber
 {
+// Contents which are not those of the type given by the tag are printed as they are
+template <typename T>
+static void print_content(std::ostream& os, const BerView& view)
+{
+    T object;
+    if (object.decode(view).success)
+    {
+        os << object;
+    }
+    else
+    {
+        os << OctetString<>(view.content());
+    }
+}
+
 std::ostream& operator<<(std::ostream& os, BerView view) noexcept
 {
     if (!view.is_valid())
@@ -23,70 +38,70 @@ std::ostream& operator<<(std::ostream& os, BerView view) noexcept
                 switch (static_cast<UniversalTag>(view.tag()))
                 {
                 case UniversalTag::boolean:
-                    os << Boolean<>(view);
+                    print_content<Boolean<>>(os, view);
                     break;
                 case UniversalTag::integer:
-                    os << Integer<>(view);
+                    print_content<Integer<>>(os, view);
                     break;
                 case UniversalTag::bit_string:
-                    os << BitString<>(view);
+                    print_content<BitString<>>(os, view);
                     break;
                 case UniversalTag::octet_string:
-                    os << OctetString<>(view);
+                    print_content<OctetString<>>(os, view);
                     break;
                 case UniversalTag::null:
-                    os << Null<>(view);
+                    print_content<Null<>>(os, view);
                     break;
                 case UniversalTag::object_identifier:
-                    os << ObjectIdentifier<>(view);
+                    print_content<ObjectIdentifier<>>(os, view);
                     break;
                 case UniversalTag::real:
-                    // os << Real<>(view);
+                    print_content<Real<>>(os, view);
                     break;
                 case UniversalTag::enumerated:
-                    os << Integer<>(view);
+                    print_content<Integer<ExplicitId<UniversalTag::enumerated>>>(os, view);
                     break;
                 case UniversalTag::utf8_string:
-                    os << UTF8String<>(view);
+                    print_content<UTF8String<>>(os, view);
                     break;
                 case UniversalTag::numeric_string:
-                    os << NumericString<>(view);
+                    print_content<NumericString<>>(os, view);
                     break;
                 case UniversalTag::printable_string:
-                    os << PrintableString<>(view);
+                    print_content<PrintableString<>>(os, view);
                     break;
                 case UniversalTag::teletex_string:
-                    os << TeletexString<>(view);
+                    print_content<TeletexString<>>(os, view);
                     break;
                 case UniversalTag::videotex_string:
-                    os << VideotexString<>(view);
+                    print_content<VideotexString<>>(os, view);
                     break;
                 case UniversalTag::ia5_string:
-                    os << IA5String<>(view);
+                    print_content<IA5String<>>(os, view);
                     break;
                 case UniversalTag::utc_time:
-                    os << UTCTime<>(view);
+                    print_content<UTCTime<>>(os, view);
                     break;
                 case UniversalTag::generalized_time:
-                    os << GeneralizedTime<>(view);
+                    print_content<GeneralizedTime<>>(os, view);
                     break;
                 case UniversalTag::graphic_string:
-                    os << GraphicString<>(view);
+                    print_content<GraphicString<>>(os, view);
                     break;
                 case UniversalTag::visible_string:
-                    os << VisibleString<>(view);
+                    print_content<VisibleString<>>(os, view);
                     break;
                 case UniversalTag::general_string:
-                    os << GeneralString<>(view);
+                    print_content<GeneralString<>>(os, view);
                     break;
                 case UniversalTag::universal_string:
-                    os << UniversalString<>(view);
+                    print_content<UniversalString<>>(os, view);
                     break;
                 case UniversalTag::character_string:
-                    os << CharacterString<>(view);
+                    print_content<CharacterString<>>(os, view);
                     break;
                 case UniversalTag::bmp_string:
-                    os << BMPString<>(view);
+                    print_content<BMPString<>>(os, view);
                     break;
 
                 case UniversalTag::embedded_pdv:
-- 
2.43.0


From 4c1fd29e49f4a99e04d8fbaaf45bd09dc33edb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:36 +0000
Subject: [PATCH 39/40] fix: printing a deeply nested packet exhausted the
 stack

---
 src/util/BerView.cpp | 55 ++++++++++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/util/BerView.cpp b/src/util/BerView.cpp
index 2b90235..246e16e 100644
--- a/src/util/BerView.cpp
+++ b/src/util/BerView.cpp
@@ -1,6 +1,8 @@
 #include "fast_ber/util/BerView.hpp"
 #include "fast_ber/ber_types/All.hpp"
 
+#include <vector>
+
 namespace fast_ber
 {
 // Contents which are not those of the type given by the tag are printed as they are
@@ -18,14 +20,9 @@ static void print_content(std::ostream& os, const BerView& view)
     }
 }
 
-std::ostream& operator<<(std::ostream& os, BerView view) noexcept
+// A packet up to the first one inside
+static void print_start(std::ostream& os, const BerView& view)
 {
-    if (!view.is_valid())
-    {
-        os << "null";
-        return os;
-    }
-
     os << "{ \"length\": " << view.ber_length();
     os << ", \"identifier\": " << view.identifier();
     os << ", \"content\": ";
@@ -127,20 +124,44 @@ std::ostream& operator<<(std::ostream& os, BerView view) noexcept
     }
     else
     {
-        bool first = true;
         os << "[";
-        for (const BerView& child : view)
+    }
+}
+
+std::ostream& operator<<(std::ostream& os, BerView view) noexcept
+{
+    if (!view.is_valid())
+    {
+        os << "null";
+        return os;
+    }
+
+    // Packets may be nested more deeply than calls can be
+    std::vector<BerViewIterator> levels;
+    while (true)
+    {
+        print_start(os, view);
+        const bool constructed = view.construction() == Construction::constructed;
+        if (constructed && view.begin()->is_valid())
         {
-            if (!first)
-            {
-                os << ", ";
-            }
-            os << child;
-            first = false;
+            levels.push_back(view.begin());
+            view = *levels.back();
+            continue;
+        }
+
+        os << (constructed ? "] }" : " }");
+        while (!levels.empty() && !(++levels.back())->is_valid())
+        {
+            os << "] }";
+            levels.pop_back();
+        }
+        if (levels.empty())
+        {
+            return os;
         }
-        os << "]";
+        os << ", ";
+        view = *levels.back();
     }
-    return os << " }";
 }
 
 } // namespace fast_ber
-- 
2.43.0


From b58f227486fb68ddc22a31fa2be3f254b798be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:39 +0000
Subject: [PATCH 40/40] fix: enumeration items without a number were numbered
 after the item before them

---
 src/compiler/TypeAsString.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/compiler/TypeAsString.cpp b/src/compiler/TypeAsString.cpp
index fbeb752..79ff21f 100644
--- a/src/compiler/TypeAsString.cpp
+++ b/src/compiler/TypeAsString.cpp
@@ -9,6 +9,7 @@
 #include "absl/container/flat_hash_set.h"
 
 #include <iostream>
+#include <set>
 
 template <typename Type>
 std::string identifier_template_params(const Type&, const Module&, const Asn1Tree&,
@@ -386,12 +387,30 @@ CodeBlock create_type_assignment(const std::string& name, const Type& assignment
         const EnumeratedType& enumerated = absl::get<EnumeratedType>(absl::get<BuiltinType>(assignment_type));
         block.add_line("enum class " + name + "Values");
         CodeScope scope(block, true);
+        std::set<int64_t> numbers;
+        for (const EnumerationValue& enum_value : enumerated.enum_values)
+        {
+            if (enum_value.value)
+            {
+                numbers.insert(*enum_value.value);
+            }
+        }
+        int64_t next_number = 0;
         for (const EnumerationValue& enum_value : enumerated.enum_values)
         {
             if (enum_value.value)
             {
                 block.add_line(enum_value.name + " = " + std::to_string(*enum_value.value) + ',');
             }
+            else if (!enumerated.accept_anything)
+            {
+                // Items without a number are numbered from zero, leaving out the numbers of other items
+                while (numbers.count(next_number) > 0)
+                {
+                    next_number++;
+                }
+                block.add_line(enum_value.name + " = " + std::to_string(next_number++) + ',');
+            }
             else
             {
                 block.add_line(enum_value.name + ',');
-- 
2.43.0


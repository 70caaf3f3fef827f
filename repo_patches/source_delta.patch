From f74b236b8cdd7ecdb32c313402cc02a262ea9e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:13 +0000
Subject: [PATCH 01/18] fix: characters above U+10FFFF are not UTF-16 encodable

---
 source/string_internal.hxx | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/string_internal.hxx b/source/string_internal.hxx
index 0409b51..8247806 100644
--- a/source/string_internal.hxx
+++ b/source/string_internal.hxx
@@ -68,9 +68,9 @@ enum RangeTypeFlags : int {
 
     k7BitFlags  = kAsciiFlag | kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3f
     k16BitFlags =              kUtf8Flag | kUcs2Flag | kUtf16Flag | kUcs4Flag | kUnicodeFlag,   // 0x3e
-    k21BitFlags =              kUtf8Flag |             kUtf16Flag | kUcs4Flag,                  // 0x1a
+    k21BitFlags =              kUtf8Flag |                          kUcs4Flag,                  // 0x12
 
-    k21BitUnicodeFlags = k21BitFlags | kUnicodeFlag,                             // 0x3a,
+    k21BitUnicodeFlags = k21BitFlags | kUtf16Flag | kUnicodeFlag,                // 0x3a,
     k31BitFlags =              kUtf8Flag |                          kUcs4Flag,   // 0x12
     k32BitFlags =                                                   kUcs4Flag    // 0x10
 };
@@ -173,7 +173,8 @@ RangeTypeFlags getCharEncodableRangeFlags(C c)
     }
     else if (c < 0x200000)
     {
-        return static_cast<RangeTypeFlags>(k21BitFlags | getUnicodeEncodableRangeFlag(c));
+        // above U+10FFFF, UTF-16 has no encoding for it
+        return getUnicodeEncodableRangeFlag(c) == kNoFlag ? k21BitFlags : k21BitUnicodeFlags;
     }
     else
     {
-- 
2.43.0


From 664299cbfd24cc23bef04f13ebf19d16887eb627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:52 +0000
Subject: [PATCH 02/18] fix: toUtf8 from UTF-16 refuses an unpaired second half

---
 source/string.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 97a658f..e093c65 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -503,6 +503,10 @@ string toUtf8(const char16_t* src)
                 char32_t c32 = rawDecodeUtf16(c, c1);
                 encodeUtf8(c32, adder);
             }
+            else if (isSecondHalfUtf16(c))
+            {
+                return string();
+            }
             else
             {
                 encodeUtf8(c, adder);
-- 
2.43.0


From 79f8753ff161b0247ecc930fde3e59c1200e08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:33 +0000
Subject: [PATCH 03/18] fix: isUtf16 applies a predicate to the code point of a
 surrogate pair

---
 source/string.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index e093c65..6bc440f 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -378,7 +378,7 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
         {
             return false;
         }
-        auto c = *p;
+        char32_t c = *p;
         RangeTypeFlags charFlag;
         /* Never hit, 2nd half UTF16 is invalid range
         if (isSecondHalfUtf16(c))
@@ -392,8 +392,9 @@ bool isUtf16(const char16_t* test, RangeType targetRange, const EncodingCheckPre
             {
                 return false;
             }
+            c = rawDecodeUtf16(static_cast<char16_t>(c), c1);
             // Could make this function call but it is unnecessary
-            // charFlag = getCharEncodableRangeFlags(rawDecodeUtf16(c, c1));
+            // charFlag = getCharEncodableRangeFlags(c);
             charFlag = k21BitUnicodeFlags;
         }
         else
-- 
2.43.0


From b3978acfbf1152a812780421192aee006c01f5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:36 +0000
Subject: [PATCH 04/18] fix: length-terminated scans do not read beyond the
 given length

---
 source/string.cxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 6bc440f..8ece679 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -181,8 +181,9 @@ inline bool isFirstHalfUtf16AsUtf8
 // Utility function to decide if a to-be-decoded character must be teh second
 // half of a UTF-16 character in two UTF-8 values.
 //
-// Note: Call only if p points to 3-character sequence start AND there are
-//       at least two more bytes available in the character stream
+// Note: Call only if p points to 3-character sequence start AND there is
+//       at least one more byte available in the character stream (the third
+//       byte has no influence on which half it is and may not be there)
 //
 // Returns true if byte starts a 3-byte UTF-8 character and isSecondHalfUtf16
 
@@ -194,7 +195,7 @@ inline bool isSecondHalfUtf16AsUtf8
     return isSecondHalfUtf16(rawDecodeUtf8(
                 static_cast<unsigned char>(p[0]),
                 static_cast<unsigned char>(p[1]),
-                static_cast<unsigned char>(p[2])));
+                static_cast<unsigned char>(0x80)));
 }
 
 //=========================================================================
@@ -879,7 +880,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         }
 
         // or if null terminated, is there another piece?
-        auto c1 = p[1];
+        char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
             return r - 1;
-- 
2.43.0


From ef4565e3a154a5984cccef54c337df9cb56d1493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:39 +0000
Subject: [PATCH 05/18] fix: length-terminated scans reject malformed bytes at
 the end and embedded nulls

---
 source/string.cxx | 48 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 8ece679..3374190 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -198,6 +198,33 @@ inline bool isSecondHalfUtf16AsUtf8
                 static_cast<unsigned char>(0x80)));
 }
 
+//=========================================================================
+// Utility function to check the bytes that are present of a UTF-8 sequence
+// that is cut short by the end of a length-terminated run of bytes.
+//
+// Returns true if they can be the start of such a sequence, false if one of
+// them is out of place
+
+bool isCutSequenceWellFormed
+(
+    const char*         p,      // I - points to the start of the sequence
+    unsigned int        left    // I - the number of bytes that are left
+)
+{
+    bool threeByteLead = (static_cast<unsigned char>(*p) & 0xf0) == 0xe0;
+    for (unsigned int i = 1; i < left; ++i)
+    {
+        // two 3-byte sequences make up a UTF-16 pair
+        auto expect = (threeByteLead && i == 3) ? 0xe0 : 0x80;
+        auto mask = (threeByteLead && i == 3) ? 0xf0 : 0xc0;
+        if ((static_cast<unsigned char>(p[i]) & mask) != expect)
+        {
+            return false;
+        }
+    }
+    return true;
+}
+
 //=========================================================================
 // Utility function to check the UTF-8 encoding of a length- or null-
 // terminated string of bytes.
@@ -266,7 +293,7 @@ bool isUtf8
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return true;
+                return isCutSequenceWellFormed(p, lengthLeft);
             }
         }
 
@@ -280,8 +307,9 @@ bool isUtf8
 
         if (c == 0)
         {
-            // decoding to 0 when *p != 0 is invalid UTF-8
-            return *p == 0;
+            // decoding to 0 when *p != 0 is invalid UTF-8, so is a null inside
+            // of a length-terminated scan
+            return *p == 0 && !lengthTerminated;
         }
 
         // decoded -- how much was used?
@@ -774,8 +802,11 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         // sequence, quit, now
         if (lengthTerminated)
         {
-            // result will always be positive, p is never nullptr
             unsigned int seqStarts = sequenceSizeCharStarts(p);
+            if (seqStarts > 6)
+            {
+                return 0;       // not the start of any sequence
+            }
             // "3" long sequences might be UTF-16 parts
             if (seqStarts == 3)
             {
@@ -793,7 +824,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
             // if out of space, and not otherwise invalid, leave with success
             if (seqStarts > lengthLeft)
             {
-                return r;
+                return isCutSequenceWellFormed(p, lengthLeft) ? r : 0;
             }
         }
         // GUARANTEE: if lengthTerminated, lengthLeft >= to-be-usedThisTime
@@ -809,8 +840,9 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
 
         if (c == 0)
         {
-            // decoding to 0 when *p != 0 is invalid UTF-8
-            return (*p == 0) ? (r - 1) : 0;
+            // decoding to 0 when *p != 0 is invalid UTF-8, so is a null inside
+            // of a length-terminated scan
+            return (*p == 0 && !lengthTerminated) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -883,7 +915,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
-            return r - 1;
+            return lengthTerminated ? 0 : r - 1;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From 0dd47ca0994c8aef140387cc530f939a9bff696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:43 +0000
Subject: [PATCH 06/18] fix: unicodeLength of nothing but an incomplete
 sequence is 0

---
 source/string.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/string.cxx b/source/string.cxx
index 3374190..0f5b609 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -842,7 +842,7 @@ unsigned int unicodeLength(const char* src, unsigned int testLength)
         {
             // decoding to 0 when *p != 0 is invalid UTF-8, so is a null inside
             // of a length-terminated scan
-            return (*p == 0 && !lengthTerminated) ? (r - 1) : 0;
+            return (*p == 0 && !lengthTerminated && r > 0) ? (r - 1) : 0;
         }
 
         // decoded -- how much was used?
@@ -915,7 +915,7 @@ unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
         char16_t c1 = isFirstHalf ? p[1] : 0;
         if (isFirstHalf && c1 == 0)
         {
-            return lengthTerminated ? 0 : r - 1;
+            return (lengthTerminated || r == 0) ? 0 : r - 1;
         }
 
         // and if in two pieces, is it valid?
-- 
2.43.0


From 428746d3ed9191ac2599406e47ce5757909be73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:46 +0000
Subject: [PATCH 07/18] fix: unicodeLength accepts a null UTF-16 or UCS-4
 pointer, as the UTF-8 one does

---
 source/string.cxx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/string.cxx b/source/string.cxx
index 0f5b609..e49d72b 100644
--- a/source/string.cxx
+++ b/source/string.cxx
@@ -884,6 +884,11 @@ unsigned int unicodeLength(const utf16String& src)
 
 unsigned int unicodeLength(const char16_t* src, unsigned int testLength)
 {
+    if (!src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
@@ -963,6 +968,11 @@ unsigned int unicodeLength(const ucs4String& src)
 
 unsigned int unicodeLength(const char32_t* src, unsigned int testLength)
 {
+    if (!src)
+    {
+        return 0;
+    }
+
     // some behaviour is changed if the scan is length terminated
     bool lengthTerminated = testLength != 0;
 
-- 
2.43.0


From de62c49ccdef9c7df62de1c4e4aa864d7ed61e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:29 +0000
Subject: [PATCH 08/18] fix: toLower leaves the multiplication sign U+00D7
 alone

---
 source/bits10/char_to_lower.cxx | 6 +++---
 source/bits11/char_to_lower.cxx | 6 +++---
 source/bits12/char_to_lower.cxx | 6 +++---
 source/bits13/char_to_lower.cxx | 6 +++---
 source/bits14/char_to_lower.cxx | 6 +++---
 source/bits15/char_to_lower.cxx | 6 +++---
 source/bits16/char_to_lower.cxx | 6 +++---
 source/bits7/char_to_lower.cxx  | 6 +++---
 source/bits8/char_to_lower.cxx  | 6 +++---
 source/bits9/char_to_lower.cxx  | 6 +++---
 10 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index bc5e614..1719cd2 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 68a1ef1..b7ce5e8 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 9a582fa..00bdb73 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 050b5c3..8c97017 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 7d6ad65..a2f8374 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index b1b6a32..32add43 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index d411f80..a24268d 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 5efc45b..67f3ba3 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -50,12 +50,12 @@ namespace ansak {
 namespace internal {
 
 // The Simple algorithm for characters: 0x41..0x5A --> 0x61..0x7A
-//                                      0xC0..0xD7 --> 0xE0..0xF7
-//                                      0xD9..0xDE --> 0xF9..0xFE
+//                                      0xC0..0xD6 --> 0xE0..0xF6
+//                                      0xD8..0xDE --> 0xF8..0xFE
 char toLowerC(char c)
 {
     uint8_t uc = static_cast<uint8_t>(c);
-    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0))
+    if (uc < 0x41 || uc > 0xDE || (uc > 0x5A && uc < 0xC0) || uc == 0xD7)
     {
         return c;
     }
-- 
2.43.0


From 924c1f61b04f2c32b6cf3609593c1b2322d6b8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:29 +0000
Subject: [PATCH 09/18] fix: toLower leaves U+1E96, U+1E98, U+1E9A and U+1E9C
 alone

---
 source/bits10/char_to_lower.cxx | 2 +-
 source/bits11/char_to_lower.cxx | 2 +-
 source/bits12/char_to_lower.cxx | 2 +-
 source/bits13/char_to_lower.cxx | 2 +-
 source/bits14/char_to_lower.cxx | 2 +-
 source/bits15/char_to_lower.cxx | 2 +-
 source/bits16/char_to_lower.cxx | 2 +-
 source/bits7/char_to_lower.cxx  | 2 +-
 source/bits8/char_to_lower.cxx  | 2 +-
 source/bits9/char_to_lower.cxx  | 2 +-
 10 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/source/bits10/char_to_lower.cxx b/source/bits10/char_to_lower.cxx
index 1719cd2..3c93cda 100644
--- a/source/bits10/char_to_lower.cxx
+++ b/source/bits10/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 1719cd2..3c93cda 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index b7ce5e8..2c57133 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index 00bdb73..ee0bb72 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index 8c97017..dc673a6 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index 8c97017..dc673a6 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index a2f8374..bfbe774 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -283,7 +283,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits7/char_to_lower.cxx b/source/bits7/char_to_lower.cxx
index 32add43..6edf8de 100644
--- a/source/bits7/char_to_lower.cxx
+++ b/source/bits7/char_to_lower.cxx
@@ -264,7 +264,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits8/char_to_lower.cxx b/source/bits8/char_to_lower.cxx
index a24268d..8d72bb0 100644
--- a/source/bits8/char_to_lower.cxx
+++ b/source/bits8/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
diff --git a/source/bits9/char_to_lower.cxx b/source/bits9/char_to_lower.cxx
index 67f3ba3..597e183 100644
--- a/source/bits9/char_to_lower.cxx
+++ b/source/bits9/char_to_lower.cxx
@@ -276,7 +276,7 @@ char16_t toLower1000(char16_t c)
         {
             return 0xDF;
         }
-        else
+        else if (c < 0x1E96 || c > 0x1E9D)
         {
             return c | 1;
         }
-- 
2.43.0


From 9ad64ea1bad10533f4126d24f540920b483b438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 10/18] fix: toLower knows the Georgian and Medefaidrin
 capitals added in Unicode 11

---
 source/bits11/char_to_lower.cxx | 13 +++++++++++++
 source/bits12/char_to_lower.cxx | 13 +++++++++++++
 source/bits13/char_to_lower.cxx | 13 +++++++++++++
 source/bits14/char_to_lower.cxx | 13 +++++++++++++
 source/bits15/char_to_lower.cxx | 13 +++++++++++++
 source/bits16/char_to_lower.cxx | 10 ++++++++++
 6 files changed, 75 insertions(+)

diff --git a/source/bits11/char_to_lower.cxx b/source/bits11/char_to_lower.cxx
index 3c93cda..236b6ec 100644
--- a/source/bits11/char_to_lower.cxx
+++ b/source/bits11/char_to_lower.cxx
@@ -271,6 +271,15 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -538,6 +547,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits12/char_to_lower.cxx b/source/bits12/char_to_lower.cxx
index 2c57133..5030047 100644
--- a/source/bits12/char_to_lower.cxx
+++ b/source/bits12/char_to_lower.cxx
@@ -271,6 +271,15 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -543,6 +552,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits13/char_to_lower.cxx b/source/bits13/char_to_lower.cxx
index ee0bb72..4c5e04e 100644
--- a/source/bits13/char_to_lower.cxx
+++ b/source/bits13/char_to_lower.cxx
@@ -271,6 +271,15 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -546,6 +555,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits14/char_to_lower.cxx b/source/bits14/char_to_lower.cxx
index dc673a6..0383194 100644
--- a/source/bits14/char_to_lower.cxx
+++ b/source/bits14/char_to_lower.cxx
@@ -271,6 +271,15 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +559,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits15/char_to_lower.cxx b/source/bits15/char_to_lower.cxx
index dc673a6..0383194 100644
--- a/source/bits15/char_to_lower.cxx
+++ b/source/bits15/char_to_lower.cxx
@@ -271,6 +271,15 @@ char16_t toLower1000(char16_t c)
         }
         break;
 
+    case 0x1C:
+        if ((c >= 0x1C90 && c <= 0x1CBA) ||
+            (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
+        break;
+
     case 0x1E:
         if (c == 0x1E9E)
         {
@@ -550,6 +559,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index bfbe774..1b93603 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -276,6 +276,12 @@ char16_t toLower1000(char16_t c)
         {
             return 0x1C8A;
         }
+        else if ((c >= 0x1C90 && c <= 0x1CBA) ||
+                 (c >= 0x1CBD && c <= 0x1CBF))
+        {
+            // Georgian Mtavruli
+            return c - 0xBC0;
+        }
         break;
 
     case 0x1E:
@@ -569,6 +575,10 @@ char32_t toLower(char32_t c)
             return c + 0x20;
         }
     }
+    else if (c >= 0x16E40 && c <= 0x16E5F)
+    {
+        return c + 0x20;
+    }
     else if (c >= 0x1E900 && c <= 0x1E921)
     {
         return c + 0x22;
-- 
2.43.0


From cacbc452e9914daa59c4e9333bfa8eb34c033958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 11/18] fix: toLower leaves the unassigned U+1057B, U+1058B and
 U+10593 alone

---
 source/bits16/char_to_lower.cxx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/bits16/char_to_lower.cxx b/source/bits16/char_to_lower.cxx
index 1b93603..c45af97 100644
--- a/source/bits16/char_to_lower.cxx
+++ b/source/bits16/char_to_lower.cxx
@@ -558,7 +558,10 @@ char32_t toLower(char32_t c)
         {
             return c + 0x28;
         }
-        else if (c >= 0x10570 && c <= 0x10595)
+        else if ((c >= 0x10570 && c <= 0x1057A) ||
+                 (c >= 0x1057C && c <= 0x1058A) ||
+                 (c >= 0x1058C && c <= 0x10592) ||
+                 (c >= 0x10594 && c <= 0x10595))
         {
             return c + 0x27;
         }
-- 
2.43.0


From 82932e5e0d729321e7433b0438b9478bd988c0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:15 +0000
Subject: [PATCH 12/18] fix: join keeps a delimiter whose value is zero

---
 interface/string_splitjoin.hxx | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/interface/string_splitjoin.hxx b/interface/string_splitjoin.hxx
index 6121fe5..19f2483 100644
--- a/interface/string_splitjoin.hxx
+++ b/interface/string_splitjoin.hxx
@@ -126,15 +126,13 @@ std::basic_string<C> join(const std::vector< std::basic_string<C> >& src, C deli
     }
     else
     {
-        C delimStr[2] = {0};
-        delimStr[0] = delim;
         return_type r;
         bool first = true;
         for (auto s : src)
         {
             if (!first)
             {
-                r.append(delimStr);
+                r.append(1, delim);
             }
             first = false;
             r.append(s);
-- 
2.43.0


From a389ab9ebcae47296a6397f52f90f5a52b4fec5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:15 +0000
Subject: [PATCH 13/18] fix: wchar_t conversions of a null pointer give an
 empty string

---
 interface/string.hxx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index b3dc096..62ffaab 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -665,7 +665,7 @@ inline utf8String toUtf8(const std::wstring& src)
 inline utf16String toUtf16(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUtf16(redirect))
+    if (redirect != nullptr && isUtf16(redirect))
     {
         return utf16String(redirect);
     }
@@ -681,7 +681,7 @@ inline utf16String toUtf16(const std::wstring& src)
 inline ucs2String toUcs2(const wchar_t* src)
 {
     const char16_t* redirect = reinterpret_cast<const char16_t*>(src);
-    if (isUcs2(redirect))
+    if (redirect != nullptr && isUcs2(redirect))
     {
         return ucs2String(redirect);
     }
@@ -711,7 +711,7 @@ inline std::wstring toWstring(const utf8String& src)
 
 inline std::wstring toWstring(const char16_t* src)
 {
-    if (isUtf16(src))
+    if (src != nullptr && isUtf16(src))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
@@ -958,7 +958,7 @@ inline ucs2String toUcs2(const std::wstring& src)
 
 inline ucs4String toUcs4(const wchar_t* src)
 {
-    if (isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
+    if (src != nullptr && isUcs4(reinterpret_cast<const char32_t*>(src), kUtf16))
     {
         return ucs4String(reinterpret_cast<const char32_t*>(src));
     }
@@ -997,7 +997,7 @@ inline std::wstring toWstring(const ucs2String& src)
 
 inline std::wstring toWstring(const char32_t* src)
 {
-    if (isUcs4(src, kUtf16))
+    if (src != nullptr && isUcs4(src, kUtf16))
     {
         return std::wstring(reinterpret_cast<const wchar_t*>(src));
     }
-- 
2.43.0


From 5371175a9a3f3203f0f56f32d39cf7c81a0de748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:15 +0000
Subject: [PATCH 14/18] fix: Windows string conversions of a null pointer give
 an empty string

---
 interface/string.hxx | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/interface/string.hxx b/interface/string.hxx
index 62ffaab..bc45bce 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -746,7 +746,7 @@ inline std::wstring toWstring(const ucs4String& src)
 
 inline utf8String toUtf8(const char* src)
 {
-  if (isUtf8(src))
+  if (src != nullptr && isUtf8(src))
   {
     return utf8String(src);
   }
@@ -767,7 +767,7 @@ inline std::string toTstring(const utf8String& test)
 
 inline std::string toTstring(const char* test)
 {
-    if (isUtf8(test, kAscii))
+    if (test != nullptr && isUtf8(test, kAscii))
     {
         return std::string(test);
     }
@@ -844,6 +844,10 @@ inline std::wstring toTstring(const ucs2String& test)
 
 inline std::wstring toTstring(const char16_t* test)
 {
+    if (test == nullptr)
+    {
+        return std::wstring();
+    }
     return std::wstring(reinterpret_cast<const wchar_t*>(test));
 }
 
-- 
2.43.0


From b075c737a39d435a3905cc521baceab4ce153834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:35 +0000
Subject: [PATCH 15/18] fix: toTstring of a basic_string no longer calls itself
 for ever (_MBCS)

---
 interface/string.hxx | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interface/string.hxx b/interface/string.hxx
index bc45bce..680c888 100644
--- a/interface/string.hxx
+++ b/interface/string.hxx
@@ -760,6 +760,11 @@ inline utf8String toUtf8(const std::string& src) { return toUtf8(src.c_str()); }
 
 #if defined(_MBCS)
 
+// declared ahead of the basic_string overloads, which forward to these
+inline std::string toTstring(const char* test);
+inline std::string toTstring(const char16_t* test);
+inline std::string toTstring(const char32_t* test);
+
 inline std::string toTstring(const utf8String& test)
 {
     return toTstring(test.c_str());
-- 
2.43.0


From 8b037aaf5c2d5c44d2be90122f550392ef854e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:35 +0000
Subject: [PATCH 16/18] fix: trimWhiteSpace trims all Unicode white space

---
 interface/string_trim.hxx | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index 9965047..ba0efb9 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -87,16 +87,17 @@ inline void trimAscii7WhiteSpace(std::string& victim)
 inline void trimWhiteSpace(ucs4String& victim)
 {
     trim(victim, std::u32string(
-            U"\U00000009\U0000000a\U0000000d \U000000a0\U00002000\U00002001\U00002002\U00002003"
-            U"\U00002004\U00002005\U00002006\U00002007\U00002008\U00002009\U0000200a\U0000202f"
+            U"\U00000009\U0000000a\U0000000b\U0000000c\U0000000d \U00000085\U000000a0\U00001680"
+            U"\U00002000\U00002001\U00002002\U00002003"
+            U"\U00002004\U00002005\U00002006\U00002007\U00002008\U00002009\U0000200a\U00002028\U00002029\U0000202f"
             U"\U0000205f\U00003000"));
 }
 
 inline void trimWhiteSpace(utf16String& victim)
 {
     trim(victim, std::u16string(
-            u"\u0009\u000a\u000d \u00a0\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
-            u"\u2009\u200a\u202f\u205f\u3000"));
+            u"\u0009\u000a\u000b\u000c\u000d \u0085\u00a0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008"
+            u"\u2009\u200a\u2028\u2029\u202f\u205f\u3000"));
 }
 
 inline void trimWhiteSpace(utf8String& victim)
-- 
2.43.0


From 3f9d73304aa749ce033e709bf5c29a757c16c83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:35 +0000
Subject: [PATCH 17/18] fix: trimWhiteSpace does not empty UTF-8 strings with
 characters above U+10FFFF

---
 interface/string_trim.hxx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interface/string_trim.hxx b/interface/string_trim.hxx
index ba0efb9..459ddaa 100644
--- a/interface/string_trim.hxx
+++ b/interface/string_trim.hxx
@@ -102,9 +102,9 @@ inline void trimWhiteSpace(utf16String& victim)
 
 inline void trimWhiteSpace(utf8String& victim)
 {
-    auto v16 = toUtf16(victim);
-    trimWhiteSpace(v16);
-    victim = toUtf8(v16);
+    auto v32 = toUcs4(victim);
+    trimWhiteSpace(v32);
+    victim = toUtf8(v32);
 }
 
 }
-- 
2.43.0


From 9692b4b3c091fe2957b2ee1dc05f4c0efc6245f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:49 +0000
Subject: [PATCH 18/18] fix: a predicate that both requires and excludes a type
 matches nothing

---
 source/encoding_check_predicate.cxx | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/encoding_check_predicate.cxx b/source/encoding_check_predicate.cxx
index 1200c8b..b402607 100644
--- a/source/encoding_check_predicate.cxx
+++ b/source/encoding_check_predicate.cxx
@@ -55,6 +55,9 @@ namespace {
 EncodingTypeFlags encodingTypeToEncodingFlag[kFirstInvalidEncoding] =
     { kNoneFlag, kIsAssignedFlag, kIsPrivateFlag, kIsControlFlag, kIsWhiteSpaceFlag };
 
+// in a value, but never in a mask: no character can be and not be of some type
+const uint32_t kContradiction = 0x80000000;
+
 }
 
 ///////////////////////////////////////////////////////////////////////////
@@ -89,6 +92,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIf
 )
 {
     EncodingCheckPredicate other(toCheckFor);
+    if ((m_mask & other.m_mask & (m_value ^ other.m_value)) != 0)
+    {
+        m_value |= kContradiction;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
@@ -103,6 +110,10 @@ EncodingCheckPredicate EncodingCheckPredicate::andIfNot
 )
 {
     EncodingCheckPredicate other(toCheckFor, false);
+    if ((m_mask & other.m_mask & (m_value ^ other.m_value)) != 0)
+    {
+        m_value |= kContradiction;
+    }
     m_value |= other.m_value;
     m_mask |= other.m_mask;
     return *this;
-- 
2.43.0


From ccbea5560a87e67ad434d02399de76510263f215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 01/66] fix: unescape JSON object keys when reading the
 configuration

Keys of vocab, special tokens and map fields were read with escaped_key(), so
a key written with a JSON escape ("\"", "\u0120") was stored with its
backslashes instead of the characters it denotes.
---
 src/added_vocabulary.cpp | 2 +-
 src/post_processor.cpp   | 4 ++--
 src/utils.cpp            | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index d7f86b5..34381f7 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -327,7 +327,7 @@ std::unique_ptr<AddedVocabulary> with_added_vocabulary(
     simdjson::ondemand::object added_token_param = val.get_object();
     AddedToken added_token;
     for (auto element : added_token_param) {
-      auto key = element.escaped_key();
+      auto key = element.unescaped_key();
       if (key.value() == "id") {
         added_token.id = static_cast<int>(element.value().get_int64());
       } else if (key.value() == "content") {
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 135c730..a0b78d8 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -53,7 +53,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
@@ -70,7 +70,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         simdjson::ondemand::object map_piece = element.get_object().value();
         for (auto field : map_piece) {
           type =
-              std::string(static_cast<std::string_view>(field.escaped_key()));
+              std::string(static_cast<std::string_view>(field.unescaped_key()));
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
diff --git a/src/utils.cpp b/src/utils.cpp
index 8d1c6f4..efd6d54 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -255,7 +255,7 @@ std::unique_ptr<Padding> with_padding(
       simdjson::ondemand::object strategy_obj = val.get_object().value();
       for (auto field : strategy_obj) {
         strategy =
-            std::string(static_cast<std::string_view>(field.escaped_key()));
+            std::string(static_cast<std::string_view>(field.unescaped_key()));
         fixed_size = static_cast<int>(field.value().get_int64());
       }
     } else {
@@ -289,7 +289,7 @@ std::unordered_map<std::string, int> get_map_ints_from_json(
   std::unordered_map<std::string, int> result;
   for (auto element : json_object) {
     result.insert(
-        {std::string(static_cast<std::string_view>(element.escaped_key())),
+        {std::string(static_cast<std::string_view>(element.unescaped_key())),
          static_cast<int>(element.value().get_int64())});
   }
   return result;
-- 
2.43.0


From 06b56359efd8a986afce0fc2e1ae627927a722d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 02/66] fix: count characters, not UTF-16 units, in
 NormalizedString

A character outside the BMP got two entries in offset_ranges (the second one
for its trail surrogate), so every index after it was off by one.
---
 src/normalizer.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 0e7f22a..34a67e8 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -4,6 +4,7 @@
 #include <unicode/normlzr.h>
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
+#include <unicode/utf8.h>
 
 #include <algorithm>
 #include <functional>
@@ -44,18 +45,12 @@ NORMALIZER get_normalizer(std::string type) {
 
 NormalizedString::NormalizedString(std::wstring normalized)
     : normalized(normalized) {
-  icu::UnicodeString unicode_normalized = icu::UnicodeString::fromUTF32(
-      reinterpret_cast<const UChar32*>(normalized.c_str()),
-      normalized.length());
   int idx = 0;
-  for (int i = 0; i < unicode_normalized.length(); i++) {
-    icu::UnicodeString unicode_normalized_str;
-    unicode_normalized_str.append(unicode_normalized.char32At(i));
-    std::string normalized_str;
-    unicode_normalized_str.toUTF8String(normalized_str);
-    offset_ranges.push_back({idx, normalized_str.length()});
-    idx += normalized_str.length();
-    for (int j = 0; j < normalized_str.length(); j++) {
+  for (int i = 0; i < normalized.length(); i++) {
+    int length = std::max(1, U8_LENGTH(static_cast<UChar32>(normalized[i])));
+    offset_ranges.push_back({idx, length});
+    idx += length;
+    for (int j = 0; j < length; j++) {
       offsets.push_back({i, i + 1});
     }
   }
-- 
2.43.0


From 46cfb5c1f7f5047310e05f7ca9a36aff0fbe806e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:46 +0000
Subject: [PATCH 03/66] fix: keep alignments in step when clean_text erases
 characters

Erasing advanced the index past the character that moved into the erased
place and left the start of every later range where it was, so offsets after
a removed character were wrong and could be read out of bounds.
---
 src/normalizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 34a67e8..57c3757 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -203,6 +203,9 @@ void NormalizedString::transform(int i, std::string op, int n) {
     offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
     offset_ranges.erase(offset_ranges.begin() + i,
                         offset_ranges.begin() + i + 1);
+    for (int j = i; j < offset_ranges.size(); j++) {
+      offset_ranges[j].first -= limit;
+    }
   } else if (op == "pad") {
     std::pair<int, int> offset = offsets[start];
     std::vector<std::pair<int, int>> new_offsets(2, offset);
@@ -458,10 +461,10 @@ NormalizedString BertNormalizer::do_clean_text(NormalizedString normalized) {
       } else {
         result.push_back(c);
       }
+      i++;
     } else {
       normalized.transform(i, "erase", 0);
     }
-    i++;
   }
   normalized.normalized = result;
   return normalized;
-- 
2.43.0


From db75df197b66acee032cc2cced906b7786a1efa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 04/66] fix: align NFC/NFD/NFKC/NFKD results with the original
 text

The alignment assumed that every changed character becomes exactly two and
takes two bytes: offsets were wrong after compositions, expansions to more
characters and one- or three-byte characters, and ranges could be read out of
bounds. Walk the pieces between normalization boundaries instead.
---
 src/normalizer.cpp | 117 ++++++++++++++++-----------------------------
 1 file changed, 40 insertions(+), 77 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 57c3757..a35c6df 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -1,6 +1,7 @@
 // Copyright 2024 Omkar Prabhu
 #include "tokenizers/normalizer.h"
 
+#include <unicode/normalizer2.h>
 #include <unicode/normlzr.h>
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
@@ -220,14 +221,6 @@ void NormalizedString::transform(int i, std::string op, int n) {
       offset_ranges[j].first =
           offset_ranges[j - 1].first + offset_ranges[j - 1].second;
     }
-  } else if (op == "grow") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, 1},
-                                                          {start + 1, 1}};
-    offset_ranges.erase(offset_ranges.begin() + i);
-    offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
-                         new_offset_ranges.end());
-  } else if (op == "shrink") {
-    offset_ranges.erase(offset_ranges.begin() + i);
   } else if (op == "add" || op == "replace") {
     std::vector<std::pair<int, int>> new_offset_ranges = {{start, n}};
     if (op == "add") {
@@ -247,6 +240,38 @@ void NormalizedString::transform(int i, std::string op, int n) {
   }
 }
 
+// Aligns the characters of the Unicode normalization form of a string with the
+// original: a piece the form leaves alone keeps its alignment, every character
+// of a rewritten piece comes from the whole piece.
+static void align_unicode_form(NormalizedString* normalized,
+                               const icu::Normalizer2* form) {
+  const std::wstring& source = normalized->normalized;
+  std::vector<std::pair<int, int>> new_offsets, new_offset_ranges;
+  for (int start = 0, end = 0; start < source.length(); start = end) {
+    end = start + 1;
+    while (end < source.length() && !form->hasBoundaryBefore(source[end])) {
+      end++;
+    }
+    UErrorCode status = U_ZERO_ERROR;
+    icu::UnicodeString piece = icu::UnicodeString::fromUTF32(
+        reinterpret_cast<const UChar32*>(&source[start]), end - start);
+    icu::UnicodeString new_piece = form->normalize(piece, status);
+    std::pair<int, int> first =
+        normalized->offsets[normalized->offset_ranges[start].first];
+    std::pair<int, int> last =
+        normalized->offsets[normalized->offset_ranges[end - 1].first];
+    for (int i = 0; i < new_piece.countChar32(); i++) {
+      new_offset_ranges.push_back({new_offsets.size(), 1});
+      new_offsets.push_back(
+          new_piece == piece
+              ? normalized->offsets[normalized->offset_ranges[start + i].first]
+              : std::make_pair(first.first, last.second));
+    }
+  }
+  normalized->offsets = new_offsets;
+  normalized->offset_ranges = new_offset_ranges;
+}
+
 NFC::NFC() {}
 
 NormalizedString NFC::normalize(NormalizedString normalized) const {
@@ -264,23 +289,7 @@ NormalizedString NFC::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
+  align_unicode_form(&normalized, icu::Normalizer2::getNFCInstance(status));
   normalized.normalized = result;
   return normalized;
 }
@@ -302,23 +311,7 @@ NormalizedString NFD::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
+  align_unicode_form(&normalized, icu::Normalizer2::getNFDInstance(status));
   normalized.normalized = result;
   return normalized;
 }
@@ -340,23 +333,8 @@ NormalizedString NFKC::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
+  align_unicode_form(&normalized,
+                     icu::Normalizer2::getNFKCInstance(status));
   normalized.normalized = result;
   return normalized;
 }
@@ -378,23 +356,8 @@ NormalizedString NFKD::normalize(NormalizedString normalized) const {
   result.resize(unicode_normalized.countChar32());
   unicode_normalized.toUTF32(reinterpret_cast<UChar32*>(&result[0]),
                              unicode_normalized.countChar32(), status);
-  int oi = 0, ni = 0;
-  std::vector<int> grow_ids;
-  while (oi < normalized.normalized.length() && ni < result.length()) {
-    if (normalized.normalized[oi] == result[ni]) {
-      oi++;
-      ni++;
-    } else {
-      grow_ids.push_back(oi);
-      oi++;
-      ni += 2;
-    }
-  }
-  int multi = 0;
-  for (auto i : grow_ids) {
-    normalized.transform(i + multi, "grow", 0);
-    multi += 1;
-  }
+  align_unicode_form(&normalized,
+                     icu::Normalizer2::getNFKDInstance(status));
   normalized.normalized = result;
   return normalized;
 }
@@ -522,7 +485,7 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
   }
   int multi = 0;
   for (auto id : shrink_ids) {
-    nfd_normalized.transform(id + multi, "shrink", 0);
+    nfd_normalized.transform(id + multi, "erase", 0);
     multi -= 1;
   }
   nfd_normalized.normalized = result;
-- 
2.43.0


From a3956b9167f11bfccbff18fa361480560048f6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 05/66] fix: honour strip_accents: false in BertNormalizer

Only an unset strip_accents follows lowercase; an explicit false was treated
the same as null, so accents were stripped whenever lowercase was on.
---
 include/tokenizers/normalizer.h |  5 +++--
 src/normalizer.cpp              | 12 +++++++-----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/tokenizers/normalizer.h b/include/tokenizers/normalizer.h
index 8031913..836af04 100644
--- a/include/tokenizers/normalizer.h
+++ b/include/tokenizers/normalizer.h
@@ -60,13 +60,14 @@ class BertNormalizer : public Normalizer {
  public:
   explicit BertNormalizer(bool clean_text = true,
                           bool handle_chinese_chars = true,
-                          bool strip_accents = false, bool lowercase = true);
+                          std::optional<bool> strip_accents = std::nullopt,
+                          bool lowercase = true);
   NormalizedString normalize(NormalizedString normalized) const override;
 
  private:
   bool clean_text;
   bool handle_chinese_chars;
-  bool strip_accents;
+  std::optional<bool> strip_accents;
   bool lowercase;
   static NormalizedString do_clean_text(NormalizedString normalized);
   static NormalizedString do_handle_chinese_chars(NormalizedString normalized);
diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index a35c6df..bf617dd 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -120,9 +120,10 @@ std::unique_ptr<Normalizer> with_normalizer(
             ? false
             : static_cast<bool>(val.get_bool());
     val = normalizer_params["strip_accents"].value();
-    bool strip_accents = val.type() == simdjson::ondemand::json_type::null
-                             ? false
-                             : static_cast<bool>(val.get_bool());
+    std::optional<bool> strip_accents;
+    if (val.type() != simdjson::ondemand::json_type::null) {
+      strip_accents = static_cast<bool>(val.get_bool());
+    }
     val = normalizer_params["lowercase"].value();
     bool lowercase = val.type() == simdjson::ondemand::json_type::null
                          ? false
@@ -363,7 +364,8 @@ NormalizedString NFKD::normalize(NormalizedString normalized) const {
 }
 
 BertNormalizer::BertNormalizer(bool clean_text, bool handle_chinese_chars,
-                               bool strip_accents, bool lowercase)
+                               std::optional<bool> strip_accents,
+                               bool lowercase)
     : clean_text(clean_text),
       handle_chinese_chars(handle_chinese_chars),
       strip_accents(strip_accents),
@@ -376,7 +378,7 @@ NormalizedString BertNormalizer::normalize(NormalizedString normalized) const {
   if (handle_chinese_chars) {
     normalized = do_handle_chinese_chars(normalized);
   }
-  if (strip_accents || lowercase) {
+  if (strip_accents.value_or(lowercase)) {
     normalized = do_strip_accents(normalized);
   }
   if (lowercase) {
-- 
2.43.0


From 2facf7845042e5a7aeb95dc3f91f8f07124779dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:28 +0000
Subject: [PATCH 06/66] fix: classify and lowercase by Unicode in
 BertNormalizer, not by locale

iswspace, iswcntrl and towlower depend on the C locale, where they know ASCII
only: other scripts kept their case, and non-ASCII spaces and control or
format characters went through clean_text untouched.
---
 src/normalizer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index bf617dd..f4aaed8 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -394,7 +394,7 @@ bool is_whitespace(wchar_t c) {
     case L'\r':
       return true;
     default:
-      return std::iswspace(c);
+      return u_isUWhiteSpace(c);
   }
 }
 
@@ -405,7 +405,8 @@ bool is_control(wchar_t c) {
     case L'\r':
       return false;
     default:
-      return std::iswcntrl(c);
+      return U_GET_GC_MASK(c) &
+             (U_GC_CC_MASK | U_GC_CF_MASK | U_GC_CS_MASK | U_GC_CO_MASK);
   }
 }
 
@@ -496,7 +497,8 @@ NormalizedString BertNormalizer::do_strip_accents(NormalizedString normalized) {
 
 NormalizedString BertNormalizer::do_lowercase(NormalizedString normalized) {
   std::wstring result = normalized.normalized;
-  std::transform(result.begin(), result.end(), result.begin(), std::towlower);
+  std::transform(result.begin(), result.end(), result.begin(),
+                 [](wchar_t c) { return u_tolower(c); });
   normalized.normalized = result;
   return normalized;
 }
-- 
2.43.0


From dc10e6b6b10c417ffeb5ba5f9aa3e596f222094e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 07/66] fix: prepend any string to any text in Prepend

An empty text was read out of bounds (it stays empty now, as documented by the
reference implementation), and a prefix of more than one character was given a
single range counted in bytes, which shifted the offsets of the whole text.
---
 src/normalizer.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index f4aaed8..4337ae4 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -223,19 +223,23 @@ void NormalizedString::transform(int i, std::string op, int n) {
           offset_ranges[j - 1].first + offset_ranges[j - 1].second;
     }
   } else if (op == "add" || op == "replace") {
-    std::vector<std::pair<int, int>> new_offset_ranges = {{start, n}};
+    std::vector<std::pair<int, int>> new_offset_ranges;
+    for (int j = 0; j < n; j++) {
+      new_offset_ranges.push_back({start + j, 1});
+    }
     if (op == "add") {
       new_offset_ranges.push_back({start + n, limit});
     }
     offset_ranges.erase(offset_ranges.begin() + i);
     offset_ranges.insert(offset_ranges.begin() + i, new_offset_ranges.begin(),
                          new_offset_ranges.end());
-    for (int j = i + (op == "add" ? 2 : 1); j < offset_ranges.size(); j++) {
-      offset_ranges[j].first =
-          offset_ranges[j - 1].first + offset_ranges[j - 1].second;
+    for (int j = i + n + (op == "add" ? 1 : 0); j < offset_ranges.size(); j++) {
+      offset_ranges[j].first += n - (op == "add" ? 0 : limit);
+    }
+    std::vector<std::pair<int, int>> new_offsets(n, {offsets[start]});
+    if (op == "replace") {
+      offsets.erase(offsets.begin() + start, offsets.begin() + start + limit);
     }
-    std::vector<std::pair<int, int>> new_offsets((op == "add" ? n : n - 1),
-                                                 {offsets[start]});
     offsets.insert(offsets.begin() + start, new_offsets.begin(),
                    new_offsets.end());
   }
@@ -521,9 +525,12 @@ NormalizedString SequenceNormalizer::normalize(
 Prepend::Prepend(const std::string& prepend) : prepend(prepend) {}
 
 NormalizedString Prepend::normalize(NormalizedString normalized) const {
-  std::wstring result = convert_from_string(prepend) + normalized.normalized;
-  normalized.transform(0, "add", prepend.length());
-  normalized.normalized = result;
+  std::wstring wide_prepend = convert_from_string(prepend);
+  if (normalized.normalized.empty() || wide_prepend.empty()) {
+    return normalized;
+  }
+  normalized.transform(0, "add", wide_prepend.length());
+  normalized.normalized = wide_prepend + normalized.normalized;
   return normalized;
 }
 
-- 
2.43.0


From 4a8c68a472097ad00f05cf740913b944940282d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 08/66] fix: replace every literal occurrence of any pattern in
 Replace

The pattern string was interpreted as a regular expression, only the first
character of a match was removed, and the text was modified while a regex
iterator was still walking over it.
---
 src/normalizer.cpp | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index 4337ae4..f605b5f 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -13,7 +13,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -538,26 +537,24 @@ Replace::Replace(const std::string& pattern, const std::string& content)
     : pattern(pattern), content(content) {}
 
 NormalizedString Replace::normalize(NormalizedString normalized) const {
-  std::wregex regex_pattern(convert_from_string(pattern));
-  std::vector<int> replace_ids;
-  std::wsregex_iterator it(normalized.normalized.begin(),
-                           normalized.normalized.end(), regex_pattern);
-  std::wsregex_iterator end;
-  std::wstring replace_content = convert_from_string(content);
-  while (it != end) {
-    std::wsmatch match = *it;
-    replace_ids.push_back(match.position());
-    normalized.normalized.erase(normalized.normalized.begin() +
-                                match.position());
-    normalized.normalized.insert(
-        normalized.normalized.begin() + match.position(),
-        replace_content.begin(), replace_content.end());
-    ++it;
+  std::wstring from = convert_from_string(pattern);
+  std::wstring to = convert_from_string(content);
+  if (from.empty()) {
+    return normalized;
   }
-  int multi = 0;
-  for (auto i : replace_ids) {
-    normalized.transform(i + multi, "replace", content.length());
-    multi += replace_content.length();
+  size_t pos = 0;
+  while ((pos = normalized.normalized.find(from, pos)) != std::wstring::npos) {
+    // the new characters come from the whole match
+    std::pair<int, int> range = normalized.offset_ranges[pos];
+    std::pair<int, int> last = normalized.offset_ranges[pos + from.size() - 1];
+    normalized.offsets[range.first].second =
+        normalized.offsets[last.first].second;
+    for (int i = 1; i < from.size(); i++) {
+      normalized.transform(pos + 1, "erase", 0);
+    }
+    normalized.transform(pos, "replace", to.size());
+    normalized.normalized.replace(pos, from.size(), to);
+    pos += to.size();
   }
   return normalized;
 }
-- 
2.43.0


From 19e996a046ef868b05c6a48a4b0da3ac1821bf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:14 +0000
Subject: [PATCH 09/66] fix: strip Unicode whitespace and keep offsets in Strip

Characters were truncated to eight bits before isspace, so letters such as
U+0120 were stripped and U+3000 was not, and the alignment with the original
text was left as it was before stripping.
---
 src/normalizer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index f605b5f..b51bf12 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -566,17 +566,20 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   int start = 0, end = normalized.normalized.size();
   if (strip_left) {
     while (start < normalized.normalized.size() &&
-           std::isspace(
-               static_cast<unsigned char>(normalized.normalized[start]))) {
+           u_isUWhiteSpace(normalized.normalized[start])) {
       ++start;
     }
   }
   if (strip_right) {
-    while (end > start && std::isspace(static_cast<unsigned char>(
-                              normalized.normalized[end - 1]))) {
+    while (end > start && u_isUWhiteSpace(normalized.normalized[end - 1])) {
       --end;
     }
   }
+  for (int i = normalized.normalized.size() - 1; i >= 0; i--) {
+    if (i < start || i >= end) {
+      normalized.transform(i, "erase", 0);
+    }
+  }
   normalized.normalized = normalized.normalized.substr(start, end - start);
   return normalized;
 }
-- 
2.43.0


From 591f9187bf7585588b83ef320f63a75bf28db380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 10/66] fix: strip all combining marks and keep offsets in
 StripAccents

Only U+0300..U+036F was removed, and the alignment with the original text was
not updated for the removed characters.
---
 src/normalizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index b51bf12..d9ef4d0 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -584,7 +584,7 @@ NormalizedString Strip::normalize(NormalizedString normalized) const {
   return normalized;
 }
 
-bool isCombiningMark(wchar_t ch) { return (ch >= 0x0300 && ch <= 0x036F); }
+bool isCombiningMark(wchar_t ch) { return U_GET_GC_MASK(ch) & U_GC_M_MASK; }
 
 StripAccents::StripAccents() {}
 
@@ -593,6 +593,8 @@ NormalizedString StripAccents::normalize(NormalizedString normalized) const {
   for (wchar_t ch : normalized.normalized) {
     if (!isCombiningMark(ch)) {
       result += ch;
+    } else {
+      normalized.transform(result.size(), "erase", 0);
     }
   }
   normalized.normalized = result;
-- 
2.43.0


From f7a1681deda83b438c5a02046ad27f1990cebf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 11/66] fix: keep text and alignment when a normalized piece
 replaces a range

transform_range re-numbered the piece's offsets one by one, losing every
removed or merged character, dropped the ranges behind the piece, left the
normalized text as it was, and read out of bounds for empty pieces.
---
 src/normalizer.cpp | 54 ++++++++++++++++------------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/src/normalizer.cpp b/src/normalizer.cpp
index d9ef4d0..caa3bdb 100644
--- a/src/normalizer.cpp
+++ b/src/normalizer.cpp
@@ -149,52 +149,34 @@ void NormalizedString::transform_range(std::pair<int, int> original_offsets,
                                        NormalizedString sub_normalized) {
   int original_start = original_offsets.first;
   int original_end = original_offsets.second;
-  int offsets_start = offset_ranges[original_start].first;
+  int offsets_start = original_start == offset_ranges.size()
+                          ? offsets.size()
+                          : offset_ranges[original_start].first;
   int offsets_end = original_end == offset_ranges.size()
-                        ? offset_ranges[original_end - 1].first
+                        ? offsets.size()
                         : offset_ranges[original_end].first;
-  std::vector<std::pair<int, int>> new_offset_ranges;
-  for (int i = 0; i < sub_normalized.offset_ranges.size(); i++) {
-    if (i == 0) {
-      sub_normalized.offset_ranges[i].first =
-          offset_ranges[original_start].first;
-    } else {
-      sub_normalized.offset_ranges[i].first =
-          sub_normalized.offset_ranges[i - 1].first +
-          sub_normalized.offset_ranges[i - 1].second;
-    }
-    new_offset_ranges.push_back(sub_normalized.offset_ranges[i]);
+  int base = offsets_start == offsets_end ? 0 : offsets[offsets_start].first;
+  for (auto& offset : sub_normalized.offsets) {
+    offset.first += base;
+    offset.second += base;
   }
-  int j = new_offset_ranges.size();
-  for (int i = original_end; i < offset_ranges.size(); i++) {
-    new_offset_ranges.push_back(
-        {new_offset_ranges[j - 1].first + new_offset_ranges[j - 1].second,
-         offset_ranges[i].second});
-    j++;
+  for (auto& offset_range : sub_normalized.offset_ranges) {
+    offset_range.first += offsets_start;
   }
-  std::pair<int, int> prev;
-  for (int i = 0; i < sub_normalized.offsets.size(); i++) {
-    if (i == 0) {
-      prev = sub_normalized.offsets[i];
-      sub_normalized.offsets[i].first = offsets[offsets_start].first;
-      sub_normalized.offsets[i].second = offsets[offsets_start].second;
-    } else {
-      if (prev == sub_normalized.offsets[i]) {
-        sub_normalized.offsets[i] = sub_normalized.offsets[i - 1];
-      } else {
-        prev = sub_normalized.offsets[i];
-        sub_normalized.offsets[i] = {sub_normalized.offsets[i - 1].second,
-                                     sub_normalized.offsets[i - 1].second + 1};
-      }
-    }
+  int added = sub_normalized.offsets.size() - (offsets_end - offsets_start);
+  for (int i = original_end; i < offset_ranges.size(); i++) {
+    offset_ranges[i].first += added;
   }
   offset_ranges.erase(offset_ranges.begin() + original_start,
-                      offset_ranges.end());
+                      offset_ranges.begin() + original_end);
   offset_ranges.insert(offset_ranges.begin() + original_start,
-                       new_offset_ranges.begin(), new_offset_ranges.end());
+                       sub_normalized.offset_ranges.begin(),
+                       sub_normalized.offset_ranges.end());
   offsets.erase(offsets.begin() + offsets_start, offsets.begin() + offsets_end);
   offsets.insert(offsets.begin() + offsets_start,
                  sub_normalized.offsets.begin(), sub_normalized.offsets.end());
+  normalized.replace(original_start, original_end - original_start,
+                     sub_normalized.normalized);
 }
 
 void NormalizedString::transform(int i, std::string op, int n) {
-- 
2.43.0


From 132817cde3fc0e67c013296d3f7c0d58abd7bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 12/66] fix: do not read freed memory when loading ordinary
 added tokens

The tokenizer passes added_tokens to add_tokens, which appended to that same
vector while iterating over it: any non-special added token in a configuration
was a use after free.
---
 include/tokenizers/added_vocabulary.h | 2 +-
 src/added_vocabulary.cpp              | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/tokenizers/added_vocabulary.h b/include/tokenizers/added_vocabulary.h
index 076d25b..2e93e7d 100644
--- a/include/tokenizers/added_vocabulary.h
+++ b/include/tokenizers/added_vocabulary.h
@@ -35,7 +35,7 @@ class AddedVocabulary {
  public:
   std::vector<AddedToken> added_tokens;
   explicit AddedVocabulary(std::vector<AddedToken> added_tokens);
-  int add_tokens(const std::vector<AddedToken> &tokens, Model *model,
+  int add_tokens(const std::vector<AddedToken> &new_tokens, Model *model,
                  Normalizer *normalizer);
   int add_special_tokens(const std::vector<AddedToken> &tokens, Model *model,
                          Normalizer *normalizer);
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 34381f7..eaa0df1 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -52,8 +52,10 @@ std::optional<std::string> AddedVocabulary::id_to_token(int id) {
   return std::nullopt;
 }
 
-int AddedVocabulary::add_tokens(const std::vector<AddedToken>& tokens,
+int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                                 Model* model, Normalizer* normalizer) {
+  // new_tokens can be added_tokens itself, which grows below
+  const std::vector<AddedToken> tokens = new_tokens;
   for (auto token : tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
-- 
2.43.0


From 0c5a63a72f78e55a4730c268099330ff163fccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:01 +0000
Subject: [PATCH 13/66] fix: start added token ids at 0 for an empty vocabulary

With an empty model vocabulary and no added token yet, the end iterator of the
added tokens map was dereferenced.
---
 src/added_vocabulary.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index eaa0df1..e0f852d 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -84,8 +84,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                               const std::pair<std::string, int>& b) {
                              return a.second < b.second;
                            });
-      if (model->get_vocab_size() == 0 ||
-          (max_val_token != added_tokens_map.end() &&
+      if (max_val_token != added_tokens_map.end() &&
+          (model->get_vocab_size() == 0 ||
            max_val_token->second >= model->get_vocab_size())) {
         new_id = max_val_token->second + 1;
       } else {
-- 
2.43.0


From d0c09c59384f4e6f26e6a845408ceeb0519a3af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 14/66] fix: recognise added tokens that are not in the model
 vocabulary

The tokens to look for were resolved through the model only, so a token that
got a new id when it was added was never found in a text.
---
 src/added_vocabulary.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index e0f852d..7f6a8b3 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -109,22 +109,22 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
                                            Normalizer* normalizer) {
   std::vector<std::pair<AddedToken, int>> normalized, non_normalized;
   for (auto token : special_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
+    auto it = added_tokens_map.find(token.content);
+    if (it != added_tokens_map.end()) {
       if (token.normalized) {
-        normalized.push_back({token, id.value()});
+        normalized.push_back({token, it->second});
       } else {
-        non_normalized.push_back({token, id.value()});
+        non_normalized.push_back({token, it->second});
       }
     }
   }
   for (auto token : added_tokens) {
-    auto id = model->token_to_id(token.content);
-    if (id.has_value()) {
+    auto it = added_tokens_map.find(token.content);
+    if (it != added_tokens_map.end()) {
       if (token.normalized) {
-        normalized.push_back({token, id.value()});
+        normalized.push_back({token, it->second});
       } else {
-        non_normalized.push_back({token, id.value()});
+        non_normalized.push_back({token, it->second});
       }
     }
   }
-- 
2.43.0


From c74defe82fa9224ca70990545ffae820d42e21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 15/66] fix: find the leftmost-longest added tokens anywhere in
 a text

Only a token at the start of the text or right behind a space was found, and
the shortest one when several matched; UTF-16 positions were used to cut UTF-8
and wide strings; single_word, lstrip and rstrip looked at ASCII only.
---
 include/tokenizers/added_vocabulary.h |  2 +-
 src/added_vocabulary.cpp              | 82 +++++++++++++--------------
 2 files changed, 41 insertions(+), 43 deletions(-)

diff --git a/include/tokenizers/added_vocabulary.h b/include/tokenizers/added_vocabulary.h
index 2e93e7d..92e1a84 100644
--- a/include/tokenizers/added_vocabulary.h
+++ b/include/tokenizers/added_vocabulary.h
@@ -55,7 +55,7 @@ class AddedVocabulary {
   std::pair<std::vector<std::string>, std::vector<int>> split_normalized_trie;
   void refresh_added_tokens(Model *model, Normalizer *normalizer);
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> find_matches(
-      std::string sentence,
+      const std::wstring &sentence,
       std::pair<std::vector<std::string>, std::vector<int>> split_re);
 };
 
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 7f6a8b3..2bdfd92 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -7,7 +7,6 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
-#include <regex>
 #include <string>
 #include <tuple>
 #include <unordered_map>
@@ -146,61 +145,60 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   split_non_normalized_trie = {non_normalized_tokens, non_normalized_ids};
 }
 
-bool ends_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("\\w$"));
+bool is_word_char(UChar32 c) {
+  return u_hasBinaryProperty(c, UCHAR_ALPHABETIC) ||
+         (U_GET_GC_MASK(c) & (U_GC_M_MASK | U_GC_ND_MASK | U_GC_PC_MASK)) ||
+         c == 0x200C || c == 0x200D;
 }
 
-bool starts_with_word(std::string sentence) {
-  return std::regex_search(sentence, std::regex("^\\w"));
+bool ends_with_word(const std::wstring& sentence) {
+  return !sentence.empty() && is_word_char(sentence.back());
 }
 
-size_t space_leftmost_at_end(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("\\s*$"))) {
-    return match.position();
-  } else {
-    return sentence.length();
+bool starts_with_word(const std::wstring& sentence) {
+  return !sentence.empty() && is_word_char(sentence.front());
+}
+
+size_t space_leftmost_at_end(const std::wstring& sentence) {
+  size_t start = sentence.length();
+  while (start > 0 && u_isUWhiteSpace(sentence[start - 1])) {
+    start--;
   }
+  return start;
 }
 
-size_t space_rightmost_at_start(std::string sentence) {
-  std::smatch match;
-  if (std::regex_search(sentence, match, std::regex("^\\s*"))) {
-    return match.length();
-  } else {
-    return 0;
+size_t space_rightmost_at_start(const std::wstring& sentence) {
+  size_t length = 0;
+  while (length < sentence.length() && u_isUWhiteSpace(sentence[length])) {
+    length++;
   }
+  return length;
 }
 
 std::vector<std::pair<std::optional<int>, std::pair<int, int>>>
 AddedVocabulary::find_matches(
-    std::string sentence,
+    const std::wstring& sentence,
     std::pair<std::vector<std::string>, std::vector<int>> split_re) {
   // TODO(omkar): update to find matches from trie
   std::vector<std::tuple<int, int, int>> matches;
-  std::unordered_map<std::string, int> word_ids;
+  std::unordered_map<std::wstring, int> word_ids;
+  size_t max_length = 0;
   for (int i = 0; i < split_re.first.size(); ++i) {
-    word_ids[split_re.first[i]] = split_re.second[i];
+    std::wstring word = convert_from_string(split_re.first[i]);
+    max_length = std::max(max_length, word.length());
+    word_ids.insert({word, split_re.second[i]});
   }
-  icu::UnicodeString unicode_sentence = icu::UnicodeString::fromUTF8(sentence);
-  int i = 0, cur = 0;
-  while (i < unicode_sentence.length()) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
-      cur = i;
-    }
-    if (unicode_sentence[i] == ' ') {
-      cur = i + 1;
+  int i = 0;
+  while (i < sentence.length()) {
+    int length = std::min(max_length, sentence.length() - i);
+    while (length > 0 && word_ids.count(sentence.substr(i, length)) == 0) {
+      length--;
     }
-    i++;
-  }
-  if (i != cur) {
-    std::string sub_sentence;
-    unicode_sentence.tempSubString(cur, i - cur).toUTF8String(sub_sentence);
-    if (word_ids.count(sub_sentence) > 0) {
-      matches.push_back({cur, i, word_ids[sub_sentence]});
+    if (length > 0) {
+      matches.push_back({i, i + length, word_ids[sentence.substr(i, length)]});
+      i += length;
+    } else {
+      i++;
     }
   }
   std::vector<std::pair<std::optional<int>, std::pair<int, int>>> result;
@@ -235,7 +233,7 @@ AddedVocabulary::find_matches(
     result.push_back({id, {start, stop}});
     start_offset = stop;
   }
-  int total_len = unicode_sentence.length();
+  int total_len = sentence.length();
   if (start_offset != total_len) {
     result.push_back({std::nullopt, {start_offset, total_len}});
   }
@@ -252,7 +250,7 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
   PreTokenizedString pre_tokenized =
       PreTokenizedString(NormalizedString(sequence));
   auto matches =
-      find_matches(convert_to_string(pre_tokenized.normalized.normalized),
+      find_matches(pre_tokenized.normalized.normalized,
                    split_non_normalized_trie);
   std::vector<Split> non_normalized_splits;
   for (auto match : matches) {
@@ -293,8 +291,8 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
       pre_tokenized.normalized.transform_range(new_split_offset,
                                                split_normalized);
 
-      matches = find_matches(convert_to_string(split_normalized.normalized),
-                             split_normalized_trie);
+      matches =
+          find_matches(split_normalized.normalized, split_normalized_trie);
       for (auto match : matches) {
         std::string value =
             convert_to_string(split_normalized.normalized.substr(
-- 
2.43.0


From 8d0cc45a2be11d2837860822fb551f70646b0568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 16/66] fix: do not cut the same text twice around an rstrip
 token

The whitespace an rstrip token takes can be the start of the next match; both
pieces then held it, and the pieces ran past the end of the text.
---
 src/added_vocabulary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 2bdfd92..cc6359c 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -207,6 +207,9 @@ AddedVocabulary::find_matches(
     int start = std::get<0>(match), stop = std::get<1>(match),
         id = std::get<2>(match);
     AddedToken added_token = added_tokens_map_r[id];
+    if (start < start_offset) {
+      continue;
+    }
     if (encode_special_tokens &&
         special_tokens_set.count(added_token.content) > 0) {
       continue;
-- 
2.43.0


From 5dfffc804178b7b3f61bb1fcc0d3a98dadcb2082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 17/66] fix: place added tokens by characters and keep no stale
 pieces

The pieces of added tokens were measured in bytes although all positions are
characters, and when normalization left nothing of the text the raw pieces
were kept with positions that no longer exist.
---
 src/added_vocabulary.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index cc6359c..f299570 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -263,25 +263,25 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
     if (match.first.has_value()) {
       Split new_split = Split(value, match.second);
       new_split.tokens = {
-          Token(match.first.value(), value, {0, value.length()})};
+          Token(match.first.value(), value,
+                {0, match.second.second - match.second.first})};
       non_normalized_splits.push_back(new_split);
     } else {
       non_normalized_splits.push_back(Split(value, match.second));
     }
   }
-  if (non_normalized_splits.size() > 0) {
-    pre_tokenized.splits = non_normalized_splits;
-  }
+  pre_tokenized.splits = non_normalized_splits;
 
   std::vector<Split> normalized_splits;
   int ending_idx = 0;
   for (const Split& original_split : pre_tokenized.splits) {
     if (original_split.tokens.size() > 0) {
       Split new_split = original_split;
-      new_split.offsets = {ending_idx,
-                           ending_idx + new_split.normalized.length()};
+      int length =
+          original_split.offsets.second - original_split.offsets.first;
+      new_split.offsets = {ending_idx, ending_idx + length};
       normalized_splits.push_back(new_split);
-      ending_idx += new_split.normalized.length();
+      ending_idx += length;
     } else {
       NormalizedString split_normalized =
           NormalizedString(convert_from_string(original_split.normalized));
@@ -305,7 +305,8 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
               Split(value, {match.second.first + new_split_offset.first,
                             match.second.second + new_split_offset.first});
           new_split.tokens = {
-              Token(match.first.value(), value, {0, value.length()})};
+              Token(match.first.value(), value,
+                    {0, match.second.second - match.second.first})};
           normalized_splits.push_back(new_split);
         } else {
           normalized_splits.push_back(
@@ -316,9 +317,7 @@ PreTokenizedString AddedVocabulary::extract_and_normalize(
       ending_idx += split_normalized.normalized.length();
     }
   }
-  if (normalized_splits.size() > 0) {
-    pre_tokenized.splits = normalized_splits;
-  }
+  pre_tokenized.splits = normalized_splits;
 
   return pre_tokenized;
 }
-- 
2.43.0


From ee908ac3abff5dec1b7287ec912a5e1649773b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 18/66] fix: look for normalized added tokens in their
 normalized form

Tokens with normalized: true are searched for in the normalized text, but were
searched for as written, so for instance "Foo" was never found behind a
lowercasing normalizer.
---
 src/added_vocabulary.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index f299570..0c70c24 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -132,7 +132,11 @@ void AddedVocabulary::refresh_added_tokens(Model* model,
   std::vector<std::string> normalized_tokens;
   std::vector<int> normalized_ids;
   for (auto element : normalized) {
-    normalized_tokens.push_back(element.first.content);
+    std::wstring content = convert_from_string(element.first.content);
+    if (normalizer != nullptr) {
+      content = normalizer->normalize(NormalizedString(content)).normalized;
+    }
+    normalized_tokens.push_back(convert_to_string(content));
     normalized_ids.push_back(element.second);
   }
   split_normalized_trie = {normalized_tokens, normalized_ids};
-- 
2.43.0


From e663c3b140472a8c09c4582c41bcb659c30be8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 19/66] fix: do not tokenize added tokens with the model

A piece that already is an added token was tokenized again, which gave other
tokens whenever the model does not know its text as one word.
---
 src/model.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/model.cpp b/src/model.cpp
index 9d5850c..cbe2ee9 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -142,6 +142,9 @@ WordPiece::WordPiece(const std::unordered_map<std::string, int>& vocab,
 
 PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     icu::UnicodeString unicode_sequence =
         icu::UnicodeString::fromUTF8(split.normalized);
     int char_len = unicode_sequence.length();
@@ -437,6 +440,9 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
 
 PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
   for (auto& split : pre_tokenized.splits) {
+    if (!split.tokens.empty()) {
+      continue;
+    }
     std::string sequence = split.normalized;
     if (dropout == 0.0f) {
       split.tokens = tokenize_with_cache(sequence);
-- 
2.43.0


From b8ec102da69f23d6d8a0b4cae9aa09f32c126845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:50 +0000
Subject: [PATCH 20/66] fix: count characters, not UTF-16 units, in WordPiece

The length limit and the token offsets counted every character outside the
BMP twice.
---
 src/model.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index cbe2ee9..4b3cd92 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -145,8 +145,7 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
     if (!split.tokens.empty()) {
       continue;
     }
-    icu::UnicodeString unicode_sequence =
-        icu::UnicodeString::fromUTF8(split.normalized);
+    std::wstring unicode_sequence = convert_from_string(split.normalized);
     int char_len = unicode_sequence.length();
     if (char_len > max_input_chars_per_word) {
       auto it = vocab.find(unk_token);
@@ -164,10 +163,8 @@ PreTokenizedString WordPiece::tokenize(PreTokenizedString pre_tokenized) const {
       int end = unicode_sequence.length();
       std::optional<Token> cur_sequence_token = std::nullopt;
       while (start < end) {
-        std::string sub_sequence;
-        icu::UnicodeString unicode_sub_sequence =
-            unicode_sequence.tempSubString(start, end - start);
-        unicode_sub_sequence.toUTF8String(sub_sequence);
+        std::string sub_sequence =
+            convert_to_string(unicode_sequence.substr(start, end - start));
         if (start > 0) {
           sub_sequence = continuing_subword_prefix + sub_sequence;
         }
-- 
2.43.0


From b720a07c3dbf675fecb9de506ab142395d1bcee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:54 +0000
Subject: [PATCH 21/66] fix: give pre-tokenizer splits offsets in characters

Offsets were in UTF-16 units, so everything behind a character outside the
BMP was off by one.
---
 src/pre_tokenizer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 01e7054..f3a5052 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -166,10 +166,13 @@ std::vector<Split> split_normalized(
       unicode_normalized
           .tempSubStringBetween(match.first.first, match.first.second)
           .toUTF8String(split_unicode_normalized);
+      // the matches are in UTF-16 units, offsets are in characters
+      int start = original_split.offsets.first +
+                  unicode_normalized.countChar32(0, match.first.first);
+      int length = unicode_normalized.countChar32(
+          match.first.first, match.first.second - match.first.first);
       new_splits.push_back(
-          Split(split_unicode_normalized,
-                {match.first.first + original_split.offsets.first,
-                 match.first.second + original_split.offsets.first}));
+          Split(split_unicode_normalized, {start, start + length}));
     }
   }
   return new_splits;
-- 
2.43.0


From f49ff0bb5d1f39e7fec9542d4b006ca8cc7a7ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:30 +0000
Subject: [PATCH 22/66] fix: reject an invalid Split pattern instead of
 crashing

A pattern ICU cannot compile gave a null pattern that was dereferenced on the
first text.
---
 src/pre_tokenizer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index f3a5052..18fc6d8 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -106,6 +106,9 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
   UErrorCode status = U_ZERO_ERROR;
   icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
       icu::UnicodeString::fromUTF8(regex), 0, status);
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("Invalid regular expression: " + regex);
+  }
   icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
   while (matcher->find(status)) {
     matches.push_back({matcher->start(status), matcher->end(status)});
@@ -226,7 +229,9 @@ SplitPreTokenizer::SplitPreTokenizer(const std::string& pattern,
                                      const std::string& behavior, bool invert)
     : pattern(pattern),
       behavior(get_split_delimiter_behavior(behavior)),
-      invert(invert) {}
+      invert(invert) {
+  find_matches(pattern, "");   // throws for an invalid pattern
+}
 
 PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-- 
2.43.0


From 8ece47eaf39d3c04fdebca255b444f26d231eae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:33 +0000
Subject: [PATCH 23/66] fix: make no empty splits for patterns that match the
 empty string

---
 src/pre_tokenizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 18fc6d8..271d832 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -122,7 +122,9 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
     if (cur != match.first) {
       result.push_back({{cur, match.first}, false});
     }
-    result.push_back({match, true});
+    if (match.first != match.second) {
+      result.push_back({match, true});
+    }
     cur = match.second;
   }
   if (cur < input.length()) {
-- 
2.43.0


From 38bb1261e831274b91d8415b8a1d6dc0412ca2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:36 +0000
Subject: [PATCH 24/66] fix: honour invert in the Split pre-tokenizer

The option was read and ignored.
---
 src/pre_tokenizer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 271d832..d1fb9ad 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -239,7 +239,13 @@ PreTokenizedString SplitPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-    return find_matches(pattern, input);
+    auto matches = find_matches(pattern, input);
+    if (invert) {
+      for (auto& match : matches) {
+        match.second = !match.second;
+      }
+    }
+    return matches;
   };
 
   pre_tokenized.split(matches_regex, behavior);
-- 
2.43.0


From cbad36cb8a87005c726044f2db6cff1472c32ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:39 +0000
Subject: [PATCH 25/66] fix: split at ASCII symbols in the BERT pre-tokenizer

The nine ASCII symbols $+<=>^`|~ are punctuation for BERT (they are not in
the Unicode category P) but stayed glued to their neighbours.
---
 src/pre_tokenizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index d1fb9ad..73c794d 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -141,7 +141,8 @@ std::vector<std::pair<std::pair<int, int>, bool>> is_whitespace(
 
 std::vector<std::pair<std::pair<int, int>, bool>> is_bert_punc(
     icu::UnicodeString input) {
-  std::string pattern = "\\p{P}";
+  // as the reference, ASCII symbols such as $ and + are punctuation too
+  std::string pattern = "[\\p{P}$+<=>^`|~]";
   return find_matches(pattern, input);
 }
 
-- 
2.43.0


From b4fd44f3f86ef60f8ac456ea63cee551552a9f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 26/66] fix: use the whole GPT-2 pattern in the byte-level
 pre-tokenizer

std::regex_constants::optimize was taken as the length of the string, which
cut the pattern down to its first four characters, 's|'.
---
 src/pre_tokenizer.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 73c794d..0a8567c 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -10,7 +10,6 @@
 #include <memory>
 #include <numeric>
 #include <optional>
-#include <regex>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -258,8 +257,7 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
     : add_prefix_space(add_prefix_space),
       use_regex(use_regex),
       regex(
-          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)",
-          std::regex_constants::optimize),
+          R"('s|'t|'re|'ve|'m|'ll|'d| ?\p{L}+| ?\p{N}+| ?[^\s\p{L}\p{N}]+|\s+(?!\S)|\s+)"),
       BYTES_CHAR(bytes_char()) {}
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
-- 
2.43.0


From c121eb89d3e853ddc7dec5fd0f8b61430744c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:56 +0000
Subject: [PATCH 27/66] fix: map every byte in the byte-level pre-tokenizer and
 keep offsets

Bytes above 0x7F were looked up as negative numbers, so any non-ASCII text
threw std::out_of_range. Each byte is a character of its own now, aligned with
the character it belongs to; added tokens are left as they are.
---
 src/pre_tokenizer.cpp | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 0a8567c..2fb71be 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -277,12 +277,36 @@ PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     return {{{0, input.length()}, false}};
   };
   pre_tokenized.split(matches_regex, SPLIT_DELIMITER_BEHAVIOR::ISOLATED);
-  for (Split& split : pre_tokenized.splits) {
-    std::string new_split_normalized;
-    for (const char c : split.normalized) {
-      new_split_normalized += BYTES_CHAR.at(static_cast<int>(c));
+  // every byte of a character becomes a character aligned with that character
+  const NormalizedString& source = pre_tokenized.normalized;
+  NormalizedString mapped(L"");
+  int i = 0;
+  auto map_until = [&](int end, bool to_bytes) {
+    for (; i < end; i++) {
+      std::wstring chars = source.normalized.substr(i, 1);
+      if (to_bytes) {
+        std::string byte_chars;
+        for (const unsigned char byte : convert_to_string(chars)) {
+          byte_chars += BYTES_CHAR.at(byte);
+        }
+        chars = convert_from_string(byte_chars);
+      }
+      mapped.normalized += chars;
+      for (int j = 0; j < chars.length(); j++) {
+        mapped.offset_ranges.push_back({mapped.offsets.size(), 1});
+        mapped.offsets.push_back(
+            source.offsets[source.offset_ranges[i].first]);
+      }
     }
-    split.normalized = new_split_normalized;
+  };
+  for (Split& split : pre_tokenized.splits) {
+    map_until(split.offsets.first, false);
+    int start = mapped.normalized.length();
+    map_until(split.offsets.second, split.tokens.empty());
+    split.offsets = {start, mapped.normalized.length()};
+    split.normalized = convert_to_string(mapped.normalized.substr(start));
   }
+  map_until(source.normalized.length(), false);
+  pre_tokenized.normalized = mapped;
   return pre_tokenized;
 }
-- 
2.43.0


From 5664045be5a6a3e570e4408acf9478eabd293df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 28/66] fix: add the byte-level prefix space to pieces, not to
 the whole text

Adding the space threw away all splits made so far, so added tokens were no
longer recognised, and an empty text threw std::out_of_range.
---
 src/pre_tokenizer.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 2fb71be..65b5a1f 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -262,12 +262,20 @@ ByteLevelPreTokenizer::ByteLevelPreTokenizer(bool add_prefix_space,
 
 PreTokenizedString ByteLevelPreTokenizer::pre_tokenize(
     PreTokenizedString pre_tokenized) const {
-  if (add_prefix_space &&
-      !std::iswspace(pre_tokenized.normalized.normalized.at(0))) {
-    pre_tokenized.normalized.normalized =
-        std::wstring(L" ") + pre_tokenized.normalized.normalized;
-    pre_tokenized.normalized.transform(0, "add", std::wstring(L" ").length());
-    pre_tokenized = PreTokenizedString(pre_tokenized.normalized);
+  int added = 0;
+  for (Split& split : pre_tokenized.splits) {
+    split.offsets.first += added;
+    split.offsets.second += added;
+    int start = split.offsets.first;
+    if (add_prefix_space && split.tokens.empty() && !split.normalized.empty() &&
+        !u_isUWhiteSpace(pre_tokenized.normalized.normalized[start])) {
+      pre_tokenized.normalized.normalized.insert(start, L" ");
+      pre_tokenized.normalized.transform(start, "add",
+                                         std::wstring(L" ").length());
+      split.normalized = " " + split.normalized;
+      split.offsets.second++;
+      added++;
+    }
   }
   auto matches_regex = [this](icu::UnicodeString input)
       -> std::vector<std::pair<std::pair<int, int>, bool>> {
-- 
2.43.0


From 9b0c2618d7e11b073f3913f26ef200ef2eb6984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:29 +0000
Subject: [PATCH 29/66] fix: apply BPE merges from the lowest rank up, leftmost
 first

The priority queue served the merge with the highest rank first, and an
arbitrary position among equal ranks.
---
 include/tokenizers/model.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index 1690ece..dbbb411 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -67,7 +67,10 @@ class Merge {
   int rank;
   int new_id;
   Merge(int pos, int rank, int new_id);
-  bool operator<(const Merge &other) const { return rank < other.rank; }
+  // the queue serves the greatest first: lowest rank, then leftmost
+  bool operator<(const Merge &other) const {
+    return rank != other.rank ? rank > other.rank : pos > other.pos;
+  }
 };
 
 struct PairHash {
-- 
2.43.0


From 0b53cd6c5c6f106b838b0793ecf18deaea29a2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 30/66] fix: do not read past an empty BPE word

symbols.size() - 1 wrapped around for a word without symbols.
---
 src/model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index 4b3cd92..9b4f0aa 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -229,7 +229,7 @@ void Word::merge_all(
     float dropout) {
   std::priority_queue<Merge> queue;
   std::vector<Merge> skip;
-  for (int i = 0; i < symbols.size() - 1; i++) {
+  for (int i = 0; i + 1 < symbols.size(); i++) {
     std::pair<int, int> pair = {symbols[i].c, symbols[i + 1].c};
     auto it = merges.find(pair);
     if (it != merges.end()) {
-- 
2.43.0


From e6c347a56b631910cb458468add5b989a33e34cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 31/66] fix: split BPE merges at the space only

A merge is two tokens separated by one space; splitting at any white space
lost merges of tokens that hold a tab or a line break.
---
 src/model.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index 9b4f0aa..423204c 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -315,9 +315,10 @@ BPE::BPE(const std::unordered_map<std::string, int>& vocab,
       cache({}) {
   int prefix_len = continuing_subword_prefix.length();
   for (int i = 0; i < merges_list.size(); ++i) {
-    std::istringstream iss(merges_list[i]);
-    std::string part1, part2;
-    if (iss >> part1 >> part2) {
+    size_t space = merges_list[i].find(' ');
+    if (space != std::string::npos) {
+      std::string part1 = merges_list[i].substr(0, space);
+      std::string part2 = merges_list[i].substr(space + 1);
       auto it1 = vocab.find(part1);
       auto it2 = vocab.find(part2);
       if (it1 != vocab.end() && it2 != vocab.end()) {
-- 
2.43.0


From 4d9e85eebd339163cd1128b7b3c593299786e989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:46 +0000
Subject: [PATCH 32/66] fix: start BPE from characters, not bytes

Words were cut into single bytes, so no character outside ASCII was ever found
in the vocabulary, and offsets counted bytes.
---
 include/tokenizers/model.h |  3 ++-
 src/model.cpp              | 32 +++++++++++++++++++++++---------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/tokenizers/model.h b/include/tokenizers/model.h
index dbbb411..2a5050b 100644
--- a/include/tokenizers/model.h
+++ b/include/tokenizers/model.h
@@ -115,6 +115,7 @@ class BPE : public Model {
  private:
   mutable std::unordered_map<std::string, Word> cache;
   Word merge_word(std::string sequence) const;
-  std::vector<Token> word_to_tokens(const Word &word) const;
+  std::vector<Token> word_to_tokens(const Word &word,
+                                    const std::string &sequence) const;
   std::vector<Token> tokenize_with_cache(const std::string &sequence) const;
 };
diff --git a/src/model.cpp b/src/model.cpp
index 423204c..b349cfa 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -3,7 +3,9 @@
 
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
+#include <unicode/utf8.h>
 
+#include <algorithm>
 #include <iostream>
 #include <memory>
 #include <optional>
@@ -340,8 +342,8 @@ Word BPE::merge_word(std::string sequence) const {
   int length = sequence.size();
   Word word;
   std::optional<std::pair<int, int>> unk;
-  for (int i = 0; i < length; i++) {
-    int end = (i + 1 < length) ? i + 1 : length;
+  for (int i = 0, end = 0; i < length; i = end) {
+    U8_FWD_1(sequence.data(), end, length);
     bool is_first = (i == 0);
     bool is_last = (end == length);
 
@@ -408,12 +410,24 @@ Word BPE::merge_word(std::string sequence) const {
   return word;
 }
 
-std::vector<Token> BPE::word_to_tokens(const Word& word) const {
+std::vector<Token> BPE::word_to_tokens(const Word& word,
+                                       const std::string& sequence) const {
+  // symbols are measured in bytes, offsets in characters: for every byte the
+  // number of characters that start before it
+  std::vector<int> chars = {0};
+  for (const char byte : sequence) {
+    chars.push_back(chars.back() + (U8_IS_TRAIL(byte) ? 0 : 1));
+  }
   std::vector<Token> result;
-  int pos = 0;
+  int pos = 0, length = sequence.length();
   for (auto symbol : word.symbols) {
-    int new_pos = pos + symbol.len;
-    result.push_back(Token(symbol.c, vocab_r.at(symbol.c), {pos, new_pos}));
+    int new_pos = std::min(pos + symbol.len, length);
+    int start = chars[pos];
+    if (pos < length && U8_IS_TRAIL(sequence[pos])) {
+      start--;
+    }
+    result.push_back(
+        Token(symbol.c, vocab_r.at(symbol.c), {start, chars[new_pos]}));
     pos = new_pos;
   }
   return result;
@@ -428,10 +442,10 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   }
   auto it = cache.find(sequence);
   if (it != cache.end()) {
-    return word_to_tokens(it->second);
+    return word_to_tokens(it->second, sequence);
   }
   auto word = merge_word(sequence);
-  auto result = word_to_tokens(word);
+  auto result = word_to_tokens(word, sequence);
   cache.insert({sequence, word});
   return result;
 }
@@ -446,7 +460,7 @@ PreTokenizedString BPE::tokenize(PreTokenizedString pre_tokenized) const {
       split.tokens = tokenize_with_cache(sequence);
     } else {
       auto word = merge_word(sequence);
-      split.tokens = word_to_tokens(word);
+      split.tokens = word_to_tokens(word, sequence);
     }
   }
   return pre_tokenized;
-- 
2.43.0


From 7d6254f51799b32c47061279ca2bf3bbbc3f8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 33/66] fix: fall back to the byte tokens <0x00>..<0xFF> in BPE

The name of a byte token was formatted as characters (<000a>), never as
<0x0A>; a character was replaced by part of its bytes when some byte tokens
were missing; and a pending unknown token was put behind the bytes.
---
 src/model.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/model.cpp b/src/model.cpp
index b349cfa..203abc3 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -6,6 +6,7 @@
 #include <unicode/utf8.h>
 
 #include <algorithm>
+#include <iomanip>
 #include <iostream>
 #include <memory>
 #include <optional>
@@ -367,26 +368,26 @@ Word BPE::merge_word(std::string sequence) const {
       word.add(it->second, sub_len);
     } else {
       if (byte_fallback) {
-        std::vector<std::optional<int>> tokens;
-        for (auto b : sub_sequence) {
+        std::vector<int> tokens;
+        for (const unsigned char b : sub_sequence) {
           std::ostringstream oss;
-          oss << "<" << std::hex << std::setw(4) << std::setfill('0') << b
-              << ">";
-          auto code = oss.str();
-          auto token_it = vocab.find(code);
-          tokens.push_back((token_it != vocab.end())
-                               ? std::optional<int>(token_it->second)
-                               : std::nullopt);
-        }
-        bool added = false;
-        for (auto& token : tokens) {
-          if (token.has_value()) {
-            word.add(token.value(), 1);
-            added = true;
+          oss << "<0x" << std::uppercase << std::hex << std::setw(2)
+              << std::setfill('0') << static_cast<int>(b) << ">";
+          auto token_it = vocab.find(oss.str());
+          if (token_it != vocab.end()) {
+            tokens.push_back(token_it->second);
           }
         }
-        if (added)
+        if (tokens.size() == sub_sequence.size()) {
+          if (unk.has_value()) {
+            word.add(unk->first, unk->second);
+            unk.reset();
+          }
+          for (int token : tokens) {
+            word.add(token, 1);
+          }
           continue;
+        }
       }
       if (unk_token.size() != 0) {
         if (unk.has_value() && fuse_unk) {
-- 
2.43.0


From 5db98945aaee3aa08041a7827d6f98266351510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:53 +0000
Subject: [PATCH 34/66] fix: give words kept by ignore_merges their offsets

---
 src/model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index 203abc3..2e7616b 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -438,7 +438,8 @@ std::vector<Token> BPE::tokenize_with_cache(const std::string& sequence) const {
   if (ignore_merges) {
     auto it = vocab.find(sequence);
     if (it != vocab.end()) {
-      return {Token(it->second, sequence, {0, 0})};
+      int length = convert_from_string(sequence).length();
+      return {Token(it->second, sequence, {0, length})};
     }
   }
   auto it = cache.find(sequence);
-- 
2.43.0


From f79d9eadfa8979773321b585abf199d9e821e3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 35/66] fix: normalize texts when no added tokens are
 configured

With added_tokens: null the configured normalizer was skipped.
---
 src/tokenizer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index e5ffd6d..4230ea2 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -91,8 +91,11 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
 
 Encoding Tokenizer::encode(const std::wstring& sequence,
                            bool add_special_tokens) {
-  PreTokenizedString pre_tokenized =
-      PreTokenizedString(NormalizedString(sequence));
+  NormalizedString normalized(sequence);
+  if (added_vocabulary == nullptr && normalizer != nullptr) {
+    normalized = normalizer->normalize(normalized);
+  }
+  PreTokenizedString pre_tokenized = PreTokenizedString(normalized);
   if (added_vocabulary != nullptr) {
     pre_tokenized =
         added_vocabulary->extract_and_normalize(normalizer.get(), sequence);
-- 
2.43.0


From 4846ac62c3ddcaa6b26c2a4976dfab74f16386c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:35 +0000
Subject: [PATCH 36/66] fix: map both ends of a token to the original text

Token offsets were added to the original start of their piece, which is wrong
as soon as normalization changes the number of characters inside the piece,
and an empty piece was looked up out of bounds.
---
 src/tokenizer.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 4230ea2..8c4405e 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -4,6 +4,7 @@
 #include <unicode/uchar.h>
 #include <unicode/unistr.h>
 
+#include <algorithm>
 #include <memory>
 #include <numeric>
 #include <optional>
@@ -138,23 +139,23 @@ int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
 Encoding into_encoding(PreTokenizedString pre_tokenized,
                        std::optional<int> word_idx, int type_id) {
   Encoding encoding;
+  const NormalizedString& normalized = pre_tokenized.normalized;
   for (int idx = 0; idx < pre_tokenized.splits.size(); idx++) {
     Split split = pre_tokenized.splits[idx];
-    std::pair<int, int> transformed_split_offset = {
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .first,
-        pre_tokenized.normalized
-            .offsets[pre_tokenized.normalized.offset_ranges[split.offsets.first]
-                         .first]
-            .second};
     for (Token token : split.tokens) {
       encoding.ids.push_back(token.id);
       encoding.tokens.push_back(token.value);
-      encoding.offsets.push_back(
-          {transformed_split_offset.first + token.offsets.first,
-           transformed_split_offset.first + token.offsets.second});
+      int start = split.offsets.first + token.offsets.first;
+      int end = std::min<int>(split.offsets.first + token.offsets.second,
+                              normalized.offset_ranges.size());
+      if (start < end) {
+        encoding.offsets.push_back(
+            {normalized.offsets[normalized.offset_ranges[start].first].first,
+             normalized.offsets[normalized.offset_ranges[end - 1].first]
+                 .second});
+      } else {
+        encoding.offsets.push_back({0, 0});
+      }
       encoding.words.push_back(word_idx.has_value() ? word_idx.value() : idx);
       encoding.type_ids.push_back(type_id);
       encoding.special_tokens_mask.push_back(0);
-- 
2.43.0


From e61a10d81597f5cb57562678696391240a42ed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 37/66] fix: decode without a decoder, added tokens or model,
 and unknown ids

decode dereferenced components that the configuration may leave out and threw
bad_optional_access for an id that names no token. As in the reference,
unknown ids are skipped and tokens are joined by spaces without a decoder.
---
 src/tokenizer.cpp | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 8c4405e..b2e0afe 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -112,18 +112,28 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
                               bool skip_special_tokens) {
   std::vector<std::string> tokens;
   for (int id : ids) {
-    std::string token = "";
-    std::optional<std::string> av_token = added_vocabulary->id_to_token(id);
-    if (!av_token.has_value()) {
-      token = model->id_to_token(id).value();
-    } else {
-      token = av_token.value();
+    std::optional<std::string> token;
+    if (added_vocabulary != nullptr) {
+      token = added_vocabulary->id_to_token(id);
+    }
+    if (!token.has_value() && model != nullptr) {
+      token = model->id_to_token(id);
+    }
+    if (!token.has_value()) {
+      continue;
     }
-    if (!skip_special_tokens || !added_vocabulary->is_special_token(token)) {
-      tokens.push_back(token);
+    if (!skip_special_tokens || added_vocabulary == nullptr ||
+        !added_vocabulary->is_special_token(token.value())) {
+      tokens.push_back(token.value());
+    }
+  }
+  if (decoder != nullptr) {
+    tokens = decoder->decode_chain(tokens);
+  } else {
+    for (int i = 1; i < tokens.size(); i++) {
+      tokens[i] = " " + tokens[i];
     }
   }
-  tokens = decoder->decode_chain(tokens);
   return std::accumulate(tokens.begin(), tokens.end(), std::string{});
 }
 
-- 
2.43.0


From 4206ccdd5d7395ebd7a7f626ead77242dc385a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 38/66] fix: add tokens to tokenizers without added tokens or
 model

add_tokens dereferenced a null added vocabulary when the configuration has
added_tokens: null, and a null model when it has model: null.
---
 src/added_vocabulary.cpp | 9 +++++----
 src/tokenizer.cpp        | 7 +++++--
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 0c70c24..a202dae 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -55,6 +55,7 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                                 Model* model, Normalizer* normalizer) {
   // new_tokens can be added_tokens itself, which grows below
   const std::vector<AddedToken> tokens = new_tokens;
+  int vocab_size = model == nullptr ? 0 : model->get_vocab_size();
   for (auto token : tokens) {
     if (token.special && !token.content.empty() &&
         special_tokens_set.count(token.content) != 1) {
@@ -74,7 +75,8 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
     auto it = added_tokens_map.find(token.content);
     if (it != added_tokens_map.end()) {
       new_id = it->second;
-    } else if (model->token_to_id(token.content).has_value()) {
+    } else if (model != nullptr &&
+               model->token_to_id(token.content).has_value()) {
       new_id = model->token_to_id(token.content).value();
     } else {
       auto max_val_token =
@@ -84,11 +86,10 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                              return a.second < b.second;
                            });
       if (max_val_token != added_tokens_map.end() &&
-          (model->get_vocab_size() == 0 ||
-           max_val_token->second >= model->get_vocab_size())) {
+          (vocab_size == 0 || max_val_token->second >= vocab_size)) {
         new_id = max_val_token->second + 1;
       } else {
-        new_id = model->get_vocab_size();
+        new_id = vocab_size;
       }
     }
     added_tokens_map[token.content] = new_id;
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index b2e0afe..0bbd29a 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -138,12 +138,15 @@ std::string Tokenizer::decode(const std::vector<int>& ids,
 }
 
 int Tokenizer::add_tokens(const std::vector<AddedToken>& tokens) {
+  if (added_vocabulary == nullptr) {
+    added_vocabulary =
+        std::make_unique<AddedVocabulary>(std::vector<AddedToken>());
+  }
   return added_vocabulary->add_tokens(tokens, model.get(), normalizer.get());
 }
 
 int Tokenizer::add_special_tokens(const std::vector<AddedToken>& tokens) {
-  return added_vocabulary->add_special_tokens(tokens, model.get(),
-                                              normalizer.get());
+  return add_tokens(tokens);
 }
 
 Encoding into_encoding(PreTokenizedString pre_tokenized,
-- 
2.43.0


From 153a727a3b674132be6446cca4fd9b9d30cc84b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 39/66] fix: decode all 256 byte characters in the byte-level
 decoder

Characters were cut down to eight bits before they were looked up, so the
bytes written with U+0100 and above (all of them continuation bytes of UTF-8,
spaces and controls) came out wrong, and characters outside the BMP were
visited twice. As in the reference, a token holding any character that is not
a byte character stands for itself.
---
 src/decoder.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 65b6665..d0dd986 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -203,15 +203,21 @@ std::vector<std::string> ByteLevelDecoder::decode_chain(
   std::string result;
   for (const auto& token : tokens) {
     icu::UnicodeString unicode_token = icu::UnicodeString::fromUTF8(token);
-    for (int i = 0; i < unicode_token.length(); i++) {
-      auto ch = unicode_token.char32At(i);
-      auto it = CHAR_BYTES.find(std::string(1, ch));
-      if (it != CHAR_BYTES.end()) {
-        result.push_back(static_cast<char>(it->second));
-      } else {
-        result.push_back(ch);
+    std::string bytes;
+    bool is_byte_level = true;
+    for (int i = 0; i < unicode_token.length();
+         i = unicode_token.moveIndex32(i, 1)) {
+      std::string ch;
+      icu::UnicodeString(unicode_token.char32At(i)).toUTF8String(ch);
+      auto it = CHAR_BYTES.find(ch);
+      if (it == CHAR_BYTES.end()) {
+        is_byte_level = false;
+        break;
       }
+      bytes.push_back(static_cast<char>(it->second));
     }
+    // a token with any other character stands for itself
+    result += is_byte_level ? bytes : token;
   }
 
   return {result};
-- 
2.43.0


From 4bff10c9b86887aad823200882cabe91cc2a25d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 40/66] fix: make the Replace decoder replace

It dropped every token it was given.
---
 src/decoder.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index d0dd986..cc63f10 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -155,7 +155,12 @@ ReplaceDecoder::ReplaceDecoder(const std::string& pattern,
 
 std::vector<std::string> ReplaceDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  if (!pattern.empty()) {
+    for (std::string& token : tokens) {
+      token = replace(token, pattern, content);
+    }
+  }
+  return tokens;
 }
 
 ByteFallbackDecoder::ByteFallbackDecoder() {}
-- 
2.43.0


From caf6c3d5b98929f9ee31d1b5958701b768bc7e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 41/66] fix: make the Fuse decoder join tokens

It dropped every token it was given.
---
 src/decoder.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index cc63f10..7cac122 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -174,7 +174,11 @@ FuseDecoder::FuseDecoder() {}
 
 std::vector<std::string> FuseDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::string result;
+  for (const std::string& token : tokens) {
+    result += token;
+  }
+  return {result};
 }
 
 StripDecoder::StripDecoder(const std::string& content, int start, int stop)
-- 
2.43.0


From 96086cb52e936467bdec634fbe7f91a8d6b7f3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 42/66] fix: make the Strip decoder strip

It dropped every token it was given.
---
 src/decoder.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 7cac122..774cc67 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -186,7 +186,21 @@ StripDecoder::StripDecoder(const std::string& content, int start, int stop)
 
 std::vector<std::string> StripDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  int length = content.length();
+  if (length == 0) {
+    return tokens;
+  }
+  for (std::string& token : tokens) {
+    for (int i = 0; i < start && token.find(content) == 0; i++) {
+      token.erase(0, length);
+    }
+    for (int i = 0; i < stop && token.length() >= length &&
+                    token.compare(token.length() - length, length, content) == 0;
+         i++) {
+      token.erase(token.length() - length);
+    }
+  }
+  return tokens;
 }
 
 SequenceDecoder::SequenceDecoder(std::vector<std::unique_ptr<Decoder>> decoders)
-- 
2.43.0


From 2916df6f88f2df5f119c7fc802f58cacb9cd4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:45 +0000
Subject: [PATCH 43/66] fix: make the ByteFallback decoder decode byte tokens

It dropped every token it was given.
---
 src/decoder.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/decoder.cpp b/src/decoder.cpp
index 774cc67..78ea96f 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -167,7 +167,31 @@ ByteFallbackDecoder::ByteFallbackDecoder() {}
 
 std::vector<std::string> ByteFallbackDecoder::decode_chain(
     std::vector<std::string> tokens) const {
-  return {};
+  std::vector<std::string> result;
+  std::string bytes;
+  auto flush_bytes = [&result, &bytes]() {
+    std::string checked;
+    icu::UnicodeString::fromUTF8(bytes).toUTF8String(checked);
+    if (checked == bytes && !bytes.empty()) {
+      result.push_back(bytes);
+    } else {
+      result.insert(result.end(), bytes.length(), "\uFFFD");
+    }
+    bytes.clear();
+  };
+  for (const std::string& token : tokens) {
+    if (token.length() == 6 && token.find("<0x") == 0 && token[5] == '>' &&
+        std::isxdigit(static_cast<unsigned char>(token[3])) &&
+        std::isxdigit(static_cast<unsigned char>(token[4]))) {
+      bytes.push_back(
+          static_cast<char>(std::stoi(token.substr(3, 2), nullptr, 16)));
+    } else {
+      flush_bytes();
+      result.push_back(token);
+    }
+  }
+  flush_bytes();
+  return result;
 }
 
 FuseDecoder::FuseDecoder() {}
-- 
2.43.0


From b2347473d5648147be7d5a8b367f4679473dcb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:56 +0000
Subject: [PATCH 44/66] fix: step truncation windows from the left by the right
 distance

The loop changed its own counter, so consecutive windows were one token too
close, and a distance of one token never ended.
---
 src/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index efd6d54..d9e37d1 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -66,8 +66,8 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
       }
     }
   } else if (direction == LEFT_TRUNCATION_DIRECTION) {
-    for (int stop = encoding.ids.size() - 1; stop >= 0; stop -= offset) {
-      stop += 1;
+    for (int last = encoding.ids.size() - 1; last >= 0; last -= offset) {
+      int stop = last + 1;
       int start = stop < max_length ? 0 : stop - max_length;
       if (start < stop && !end) {
         end = start == 0;
-- 
2.43.0


From 1357b9f2a11b08d4c795ffa0acb331532b229f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:00 +0000
Subject: [PATCH 45/66] fix: refuse a truncation stride that makes no progress

With a stride of max_length or more the windows never advanced: encode hung or
ran out of memory.
---
 src/utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index d9e37d1..2195bce 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -54,6 +55,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     encoding.overflowing = {};
     return encoding;
   }
+  if (stride < 0 || stride >= max_length) {
+    throw std::invalid_argument("Truncation stride must be below max_length");
+  }
   int offset = max_length - stride;
   bool end = false;
   std::vector<std::pair<int, int>> parts_ranges;
-- 
2.43.0


From ed44245f06fcc4d33d11eeed4c2fbbbce42aa8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 46/66] fix: truncate to nothing when max_length is 0

The encoding was returned untouched.
---
 src/utils.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index 2195bce..7ab1dd8 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -52,8 +52,9 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
     return encoding;
   }
   if (max_length == 0) {
-    encoding.overflowing = {};
-    return encoding;
+    Encoding empty;
+    empty.overflowing.push_back(encoding);
+    return empty;
   }
   if (stride < 0 || stride >= max_length) {
     throw std::invalid_argument("Truncation stride must be below max_length");
-- 
2.43.0


From d38494df2f4ae4e2ca497ec2d3688e6c61e71e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 47/66] fix: apply the template to overflowing encodings
 instead of dropping them

---
 src/post_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index a0b78d8..8f01b20 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -202,6 +202,10 @@ Encoding TemplateProcessing::process(Encoding encoding,
                                  final_encoding.attention_mask.begin(),
                                  final_encoding.attention_mask.end());
   }
+  for (const Encoding& overflowing_encoding : encoding.overflowing) {
+    result.overflowing.push_back(
+        process(overflowing_encoding, add_special_tokens));
+  }
   return result;
 }
 
-- 
2.43.0


From e46639c74a69c135f57113906ba34cf34f8b0efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 48/66] fix: leave room for special tokens when truncating to
 max_length

---
 include/tokenizers/utils.h | 3 ++-
 src/tokenizer.cpp          | 7 ++++++-
 src/utils.cpp              | 3 ++-
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/tokenizers/utils.h b/include/tokenizers/utils.h
index c4dfab9..77b6eb9 100644
--- a/include/tokenizers/utils.h
+++ b/include/tokenizers/utils.h
@@ -32,7 +32,8 @@ class Truncation {
  public:
   Truncation(const std::string &direction, const std::string &strategy,
              int max_length, int stride);
-  Encoding truncate_encoding(Encoding encoding) const;
+  // n_added: the number of tokens post-processing will add
+  Encoding truncate_encoding(Encoding encoding, int n_added = 0) const;
 
  private:
   TRUNCATION_DIRECTION direction;
diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 0bbd29a..9d4e6bc 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -190,7 +190,12 @@ Encoding Tokenizer::do_tokenize(PreTokenizedString pre_tokenized,
 Encoding Tokenizer::do_post_process(Encoding encoding,
                                     bool add_special_tokens) const {
   if (truncation != nullptr) {
-    encoding = truncation->truncate_encoding(encoding);
+    // leave room for the special tokens
+    int n_added = post_processor == nullptr
+                      ? 0
+                      : post_processor->process(Encoding(), add_special_tokens)
+                            .ids.size();
+    encoding = truncation->truncate_encoding(encoding, n_added);
   }
   if (post_processor != nullptr) {
     encoding = post_processor->process(encoding, add_special_tokens);
diff --git a/src/utils.cpp b/src/utils.cpp
index 7ab1dd8..96a0f55 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -119,7 +119,8 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
   return new_encoding;
 }
 
-Encoding Truncation::truncate_encoding(Encoding encoding) const {
+Encoding Truncation::truncate_encoding(Encoding encoding, int n_added) const {
+  int max_length = std::max(0, this->max_length - n_added);
   if (max_length == 0) {
     return truncate(encoding, 0, stride, direction);
   }
-- 
2.43.0


From 0496bf171adba380b8a8946bfbdbaf6e07293a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:25 +0000
Subject: [PATCH 49/66] fix: reject UTF-8 that is cut short at the end of a
 string

---
 src/common.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/common.cpp b/src/common.cpp
index d98c463..8d264a6 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -63,7 +64,12 @@ std::string convert_to_string(std::wstring sequence) {
 
 std::wstring convert_from_string(std::string sequence) {
   std::wstring_convert<std::codecvt_utf8<wchar_t>> converter;
-  return converter.from_bytes(sequence);
+  std::wstring result = converter.from_bytes(sequence);
+  // a sequence cut short at the end is left over without an error
+  if (converter.converted() != sequence.size()) {
+    throw std::range_error("String is not valid UTF-8");
+  }
+  return result;
 }
 
 std::unordered_map<uint16_t, std::string> bytes_char() {
-- 
2.43.0


From bd1d34697af2ffd2a59ba4f3293ff87d577bca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 50/66] fix: reject configurations that are not well-formed
 JSON as a whole

---
 src/tokenizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 9d4e6bc..9a943ca 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -8,6 +8,7 @@
 #include <memory>
 #include <numeric>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -38,6 +39,11 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
     } else {
       tokenizer_json_str = simdjson::padded_string(config);
     }
+    // the on-demand parser does not look at the parts that are not read
+    simdjson::dom::parser validator;
+    if (validator.parse(tokenizer_json_str).error() != simdjson::SUCCESS) {
+      throw std::runtime_error("Malformed JSON");
+    }
     simdjson::ondemand::document tokenizer_json =
         parser.iterate(tokenizer_json_str);
 
-- 
2.43.0


From 15c9015bf5665bb019c826df828f737f4f51cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 51/66] fix: reject integers that do not fit instead of
 wrapping them

---
 include/tokenizers/common.h |  3 +++
 src/added_vocabulary.cpp    |  2 +-
 src/common.cpp              |  9 +++++++++
 src/decoder.cpp             |  4 ++--
 src/model.cpp               |  2 +-
 src/post_processor.cpp      |  6 +++---
 src/utils.cpp               | 14 +++++++-------
 7 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/tokenizers/common.h b/include/tokenizers/common.h
index 8d9b135..c107c86 100644
--- a/include/tokenizers/common.h
+++ b/include/tokenizers/common.h
@@ -56,3 +56,6 @@ std::string convert_to_string(std::wstring sequence);
 std::wstring convert_from_string(std::string sequence);
 
 std::unordered_map<uint16_t, std::string> bytes_char();
+
+// throws when the value does not fit
+int to_int(int64_t value);
diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index a202dae..b1e5286 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -336,7 +336,7 @@ std::unique_ptr<AddedVocabulary> with_added_vocabulary(
     for (auto element : added_token_param) {
       auto key = element.unescaped_key();
       if (key.value() == "id") {
-        added_token.id = static_cast<int>(element.value().get_int64());
+        added_token.id = to_int(element.value().get_int64());
       } else if (key.value() == "content") {
         added_token.content = std::string(
             static_cast<std::string_view>(element.value().get_string()));
diff --git a/src/common.cpp b/src/common.cpp
index 8d264a6..255b8ac 100644
--- a/src/common.cpp
+++ b/src/common.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <cstdint>
+#include <limits>
 #include <optional>
 #include <stdexcept>
 #include <string>
@@ -114,3 +115,11 @@ std::unordered_map<uint16_t, std::string> bytes_char() {
   }
   return result;
 }
+
+int to_int(int64_t value) {
+  if (value < std::numeric_limits<int>::min() ||
+      value > std::numeric_limits<int>::max()) {
+    throw std::out_of_range("Integer out of range");
+  }
+  return static_cast<int>(value);
+}
diff --git a/src/decoder.cpp b/src/decoder.cpp
index 78ea96f..07b51c4 100644
--- a/src/decoder.cpp
+++ b/src/decoder.cpp
@@ -73,11 +73,11 @@ std::unique_ptr<Decoder> with_decoder(
     val = decoder_params["start"].value();
     int start = val.type() == simdjson::ondemand::json_type::null
                     ? 0
-                    : static_cast<int>(val.get_int64());
+                    : to_int(val.get_int64());
     val = decoder_params["stop"].value();
     int stop = val.type() == simdjson::ondemand::json_type::null
                    ? 0
-                   : static_cast<int>(val.get_int64());
+                   : to_int(val.get_int64());
     return std::make_unique<StripDecoder>(StripDecoder(content, start, stop));
   } else if (get_decoder(type) == REPLACE_DECODER) {
     val = decoder_params["pattern"].value();
diff --git a/src/model.cpp b/src/model.cpp
index 2e7616b..cd9dc18 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -55,7 +55,7 @@ std::unique_ptr<Model> with_model(simdjson::ondemand::object model_params) {
     int max_input_chars_per_word =
         val.type() == simdjson::ondemand::json_type::null
             ? 0
-            : static_cast<int>(val.get_int64());
+            : to_int(val.get_int64());
     val = model_params["continuing_subword_prefix"].value();
     std::string continuing_subword_prefix =
         val.type() == simdjson::ondemand::json_type::null
diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index 8f01b20..fac6be0 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -57,7 +57,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
-          int type_id = static_cast<int>(val["type_id"].value().get_int64());
+          int type_id = to_int(val["type_id"].value().get_int64());
           single.push_back({type, Piece(id, type_id)});
         }
       }
@@ -74,7 +74,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
           val = field.value();
           std::string id = std::string(
               static_cast<std::string_view>(val["id"].value().get_string()));
-          int type_id = static_cast<int>(val["type_id"].value().get_int64());
+          int type_id = to_int(val["type_id"].value().get_int64());
           pair.push_back({type, Piece(id, type_id)});
         }
       }
@@ -91,7 +91,7 @@ std::unique_ptr<PostProcessor> with_post_processor(
         auto ids_val = val["ids"].value();
         simdjson::ondemand::array ids_array = ids_val.get_array();
         for (auto id_elem : ids_array) {
-          ids.push_back(static_cast<int>(id_elem.value().get_int64()));
+          ids.push_back(to_int(id_elem.value().get_int64()));
         }
         std::vector<std::string> tokens;
         auto tokens_val = val["tokens"].value();
diff --git a/src/utils.cpp b/src/utils.cpp
index 96a0f55..1677e51 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -156,11 +156,11 @@ std::unique_ptr<Truncation> with_truncation(
   val = truncation_params["max_length"].value();
   int max_length = val.type() == simdjson::ondemand::json_type::null
                        ? 0
-                       : static_cast<int>(val.get_int64());
+                       : to_int(val.get_int64());
   val = truncation_params["stride"].value();
   int stride = val.type() == simdjson::ondemand::json_type::null
                    ? 0
-                   : static_cast<int>(val.get_int64());
+                   : to_int(val.get_int64());
   return std::make_unique<Truncation>(
       Truncation(direction, strategy, max_length, stride));
 }
@@ -262,7 +262,7 @@ std::unique_ptr<Padding> with_padding(
       for (auto field : strategy_obj) {
         strategy =
             std::string(static_cast<std::string_view>(field.unescaped_key()));
-        fixed_size = static_cast<int>(field.value().get_int64());
+        fixed_size = to_int(field.value().get_int64());
       }
     } else {
       strategy = std::string(static_cast<std::string_view>(val.get_string()));
@@ -271,11 +271,11 @@ std::unique_ptr<Padding> with_padding(
   val = padding_params["pad_id"].value();
   int pad_id = val.type() == simdjson::ondemand::json_type::null
                    ? 0
-                   : static_cast<int>(val.get_int64());
+                   : to_int(val.get_int64());
   val = padding_params["pad_type_id"].value();
   int pad_type_id = val.type() == simdjson::ondemand::json_type::null
                         ? 0
-                        : static_cast<int>(val.get_int64());
+                        : to_int(val.get_int64());
   val = padding_params["pad_token"].value();
   std::string pad_token =
       std::string(val.type() == simdjson::ondemand::json_type::null
@@ -284,7 +284,7 @@ std::unique_ptr<Padding> with_padding(
   val = padding_params["pad_to_multiple_of"].value();
   int pad_to_multiple_of = val.type() == simdjson::ondemand::json_type::null
                                ? 0
-                               : static_cast<int>(val.get_int64());
+                               : to_int(val.get_int64());
   return std::make_unique<Padding>(Padding(direction, strategy, fixed_size,
                                            pad_id, pad_type_id, pad_token,
                                            pad_to_multiple_of));
@@ -296,7 +296,7 @@ std::unordered_map<std::string, int> get_map_ints_from_json(
   for (auto element : json_object) {
     result.insert(
         {std::string(static_cast<std::string_view>(element.unescaped_key())),
-         static_cast<int>(element.value().get_int64())});
+         to_int(element.value().get_int64())});
   }
   return result;
 }
-- 
2.43.0


From 113b9fae3b93d0dd927f7e8e736ad95153824da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:57 +0000
Subject: [PATCH 52/66] fix: find configuration keys however they are escaped

---
 src/tokenizer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.cpp b/src/tokenizer.cpp
index 9a943ca..d73862f 100644
--- a/src/tokenizer.cpp
+++ b/src/tokenizer.cpp
@@ -41,9 +41,13 @@ Tokenizer::Tokenizer(const std::string& path, const std::string& config) {
     }
     // the on-demand parser does not look at the parts that are not read
     simdjson::dom::parser validator;
-    if (validator.parse(tokenizer_json_str).error() != simdjson::SUCCESS) {
+    simdjson::dom::element document;
+    if (validator.parse(tokenizer_json_str).get(document) !=
+        simdjson::SUCCESS) {
       throw std::runtime_error("Malformed JSON");
     }
+    // and finds keys only as they are spelled, so spell them without escapes
+    tokenizer_json_str = simdjson::padded_string(simdjson::minify(document));
     simdjson::ondemand::document tokenizer_json =
         parser.iterate(tokenizer_json_str);
 
-- 
2.43.0


From 19ed8d08faaa7952a31ad6eaab07ad287e885586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:44 +0000
Subject: [PATCH 53/66] fix: reject unknown truncation and padding directions
 and strategies

---
 src/utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index 1677e51..bd9bbbd 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -161,6 +161,10 @@ std::unique_ptr<Truncation> with_truncation(
   int stride = val.type() == simdjson::ondemand::json_type::null
                    ? 0
                    : to_int(val.get_int64());
+  if (get_truncation_direction(direction) == UNKNOWN_TRUNCATION_DIRECTION ||
+      get_truncation_strategy(strategy) == UNKNOWN_TRUNCATION_STRATEGY) {
+    throw std::invalid_argument("Unknown truncation direction or strategy");
+  }
   return std::make_unique<Truncation>(
       Truncation(direction, strategy, max_length, stride));
 }
@@ -285,6 +289,10 @@ std::unique_ptr<Padding> with_padding(
   int pad_to_multiple_of = val.type() == simdjson::ondemand::json_type::null
                                ? 0
                                : to_int(val.get_int64());
+  if (get_padding_direction(direction) == UNKNOWN_PADDING_DIRECTION ||
+      get_padding_strategy(strategy) == UNKNOWN_PADDING_STRATEGY) {
+    throw std::invalid_argument("Unknown padding direction or strategy");
+  }
   return std::make_unique<Padding>(Padding(direction, strategy, fixed_size,
                                            pad_id, pad_type_id, pad_token,
                                            pad_to_multiple_of));
-- 
2.43.0


From 1100bbe4f81a53dbd68e824ff0f7cbf31604bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 54/66] fix: Android encode takes surrogate pairs as one
 character

A Java string holds UTF-16; its code units were handed to the library as
characters, so any text beyond the BMP ended the process.
---
 .../src/main/cpp/tokenizers_android_jni.cpp   | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 080695d..7a52715 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,10 +1,19 @@
 #include <jni.h>
+#include <unicode/unistr.h>
 
 #include <string>
 #include <vector>
 
 #include "tokenizers/tokenizer.h"
 
+icu::UnicodeString get_string(JNIEnv *env, jstring str) {
+  jsize length = env->GetStringLength(str);
+  const jchar *chars = env->GetStringChars(str, nullptr);
+  icu::UnicodeString result(reinterpret_cast<const char16_t *>(chars), length);
+  env->ReleaseStringChars(str, chars);
+  return result;
+}
+
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
@@ -18,10 +27,12 @@ Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
                                            jlong native_ptr, jstring sequence,
                                            jboolean add_special_tokens) {
   Tokenizer *tokenizer = reinterpret_cast<Tokenizer *>(native_ptr);
-  const jchar *sequence_str = env->GetStringChars(sequence, nullptr);
-  jsize sequence_length = env->GetStringLength(sequence);
-  std::wstring wsequence(sequence_str, sequence_str + sequence_length);
-  env->ReleaseStringChars(sequence, sequence_str);
+  icu::UnicodeString unicode_sequence = get_string(env, sequence);
+  std::wstring wsequence(unicode_sequence.length(), L'\0');
+  UErrorCode status = U_ZERO_ERROR;
+  wsequence.resize(unicode_sequence.toUTF32(
+      reinterpret_cast<UChar32 *>(wsequence.data()), wsequence.length(),
+      status));
   Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
   jintArray ids_array = env->NewIntArray(encoding.ids.size());
   env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
-- 
2.43.0


From 2aa85626d6fb830003de721eb8a2f4699314c2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 55/66] fix: Android configurations may hold characters beyond
 the BMP

GetStringUTFChars gives modified UTF-8, which is not UTF-8 for them.
---
 .../src/main/cpp/tokenizers_android_jni.cpp                 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 7a52715..61cad31 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -17,9 +17,9 @@ icu::UnicodeString get_string(JNIEnv *env, jstring str) {
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
-  const char *config_str = env->GetStringUTFChars(config, nullptr);
-  Tokenizer *tokenizer = new Tokenizer("", std::string(config_str));
-  env->ReleaseStringUTFChars(config, config_str);
+  std::string config_str;
+  get_string(env, config).toUTF8String(config_str);
+  Tokenizer *tokenizer = new Tokenizer("", config_str);
   return (jlong)tokenizer;
 }
 extern "C" JNIEXPORT jintArray JNICALL
-- 
2.43.0


From 09d140174ebcedbf6a1392b5976b8c68788da309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 56/66] fix: Android decode returns the decoded text

NewStringUTF takes modified UTF-8 up to the first NUL, not UTF-8.
---
 .../src/main/cpp/tokenizers_android_jni.cpp            | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index 61cad31..cd3913d 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -14,6 +14,12 @@ icu::UnicodeString get_string(JNIEnv *env, jstring str) {
   return result;
 }
 
+jstring new_string(JNIEnv *env, const std::string &str) {
+  icu::UnicodeString result = icu::UnicodeString::fromUTF8(str);
+  return env->NewString(reinterpret_cast<const jchar *>(result.getBuffer()),
+                        result.length());
+}
+
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
@@ -48,5 +54,5 @@ extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
   std::vector<int> ids_vector(ids_array, ids_array + length);
   env->ReleaseIntArrayElements(ids, ids_array, 0);
   std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
-  return env->NewStringUTF(decoded.c_str());
-}
\ No newline at end of file
+  return new_string(env, decoded);
+}
-- 
2.43.0


From fbab6750a280f476315dc413f8a82e29aa54c402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:44 +0000
Subject: [PATCH 57/66] fix: Android methods throw instead of ending the
 process

An exception of the library must not leave a native method.
---
 .../src/main/cpp/tokenizers_android_jni.cpp   | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
index cd3913d..3c77d48 100644
--- a/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
+++ b/android/tokenizers_android/src/main/cpp/tokenizers_android_jni.cpp
@@ -1,6 +1,7 @@
 #include <jni.h>
 #include <unicode/unistr.h>
 
+#include <exception>
 #include <string>
 #include <vector>
 
@@ -20,13 +21,25 @@ jstring new_string(JNIEnv *env, const std::string &str) {
                         result.length());
 }
 
+void throw_exception(JNIEnv *env, const std::exception &e) {
+  jclass type = env->FindClass("java/lang/RuntimeException");
+  jmethodID init = env->GetMethodID(type, "<init>", "(Ljava/lang/String;)V");
+  env->Throw(static_cast<jthrowable>(
+      env->NewObject(type, init, new_string(env, e.what()))));
+}
+
 extern "C" JNIEXPORT jlong JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_newTokenizer(JNIEnv *env, jobject thiz,
                                                  jstring config) {
   std::string config_str;
   get_string(env, config).toUTF8String(config_str);
-  Tokenizer *tokenizer = new Tokenizer("", config_str);
-  return (jlong)tokenizer;
+  try {
+    Tokenizer *tokenizer = new Tokenizer("", config_str);
+    return (jlong)tokenizer;
+  } catch (const std::exception &e) {
+    throw_exception(env, e);
+    return 0;
+  }
 }
 extern "C" JNIEXPORT jintArray JNICALL
 Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
@@ -39,7 +52,13 @@ Java_xyz_omkar_tokenizers_Tokenizer_encode(JNIEnv *env, jobject thiz,
   wsequence.resize(unicode_sequence.toUTF32(
       reinterpret_cast<UChar32 *>(wsequence.data()), wsequence.length(),
       status));
-  Encoding encoding = tokenizer->encode(wsequence, add_special_tokens);
+  Encoding encoding;
+  try {
+    encoding = tokenizer->encode(wsequence, add_special_tokens);
+  } catch (const std::exception &e) {
+    throw_exception(env, e);
+    return nullptr;
+  }
   jintArray ids_array = env->NewIntArray(encoding.ids.size());
   env->SetIntArrayRegion(ids_array, 0, encoding.ids.size(),
                          encoding.ids.data());
@@ -53,6 +72,12 @@ extern "C" JNIEXPORT jstring JNICALL Java_xyz_omkar_tokenizers_Tokenizer_decode(
   jint *ids_array = env->GetIntArrayElements(ids, nullptr);
   std::vector<int> ids_vector(ids_array, ids_array + length);
   env->ReleaseIntArrayElements(ids, ids_array, 0);
-  std::string decoded = tokenizer->decode(ids_vector, skip_special_tokens);
+  std::string decoded;
+  try {
+    decoded = tokenizer->decode(ids_vector, skip_special_tokens);
+  } catch (const std::exception &e) {
+    throw_exception(env, e);
+    return nullptr;
+  }
   return new_string(env, decoded);
 }
-- 
2.43.0


From 617fea3d9ea0c1c339de6722e515695a2335eb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:48 +0000
Subject: [PATCH 58/66] fix: reject a template special token with unequal
 numbers of ids and tokens

---
 src/post_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/post_processor.cpp b/src/post_processor.cpp
index fac6be0..d4092a9 100644
--- a/src/post_processor.cpp
+++ b/src/post_processor.cpp
@@ -9,6 +9,7 @@
 #include <iostream>
 #include <memory>
 #include <numeric>
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <utility>
@@ -100,6 +101,9 @@ std::unique_ptr<PostProcessor> with_post_processor(
           tokens.push_back(std::string(
               static_cast<std::string_view>(token_elem.value().get_string())));
         }
+        if (ids.size() != tokens.size()) {
+          throw std::invalid_argument("Special token needs a token for each id");
+        }
         special_tokens.push_back(SpecialToken(id, ids, tokens));
       }
     }
-- 
2.43.0


From d9e69acc3d5e5ef1fe1fc1387d233bbbf35624e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:48 +0000
Subject: [PATCH 59/66] fix: do not overflow when a very negative max_length
 leaves room for special tokens

---
 src/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.cpp b/src/utils.cpp
index bd9bbbd..eaa5843 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -120,7 +120,7 @@ Encoding truncate(Encoding encoding, int max_length, int stride,
 }
 
 Encoding Truncation::truncate_encoding(Encoding encoding, int n_added) const {
-  int max_length = std::max(0, this->max_length - n_added);
+  int max_length = std::max(0, std::max(0, this->max_length) - n_added);
   if (max_length == 0) {
     return truncate(encoding, 0, stride, direction);
   }
-- 
2.43.0


From dc03b0c1e73a6a47e84ed304a53b81386a57845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:48 +0000
Subject: [PATCH 60/66] fix: no id overflow when an added token already has the
 largest id

---
 src/added_vocabulary.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index b1e5286..1dbab2a 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -5,8 +5,10 @@
 #include <unicode/unistr.h>
 
 #include <algorithm>
+#include <limits>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <string>
 #include <tuple>
 #include <unordered_map>
@@ -87,6 +89,9 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                            });
       if (max_val_token != added_tokens_map.end() &&
           (vocab_size == 0 || max_val_token->second >= vocab_size)) {
+        if (max_val_token->second == std::numeric_limits<int>::max()) {
+          throw std::runtime_error("No id left for an added token");
+        }
         new_id = max_val_token->second + 1;
       } else {
         new_id = vocab_size;
-- 
2.43.0


From f1b9155b1d977973287dc3967defac3c8b4fa329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:29 +0000
Subject: [PATCH 61/66] fix: a negative fixed padding size pads nothing

---
 src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index eaa5843..7516875 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -243,6 +243,8 @@ Encoding pad(Encoding encoding, int target_length, int pad_id, int pad_type_id,
 Encoding Padding::pad_encoding(const Encoding& encoding) const {
   int pad_length =
       strategy == FIXED_PADDING_STRATEGY ? fixed_size : encoding.ids.size();
+  // pad() compares it with unsigned lengths
+  pad_length = std::max(0, pad_length);
   if (pad_to_multiple_of > 0 && pad_length % pad_to_multiple_of > 0) {
     pad_length += pad_to_multiple_of - pad_length % pad_to_multiple_of;
   }
-- 
2.43.0


From a1e1a3ec5cfd0969cd06fab8fabf2fe8501c4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:25 +0000
Subject: [PATCH 62/66] fix: adding a token again does not make the list of
 added tokens grow

---
 src/added_vocabulary.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index 1dbab2a..afce1f8 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -97,9 +97,19 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
         new_id = vocab_size;
       }
     }
+    // adding again what is already there must not make the list grow
+    bool again = it != added_tokens_map.end() &&
+                 std::any_of(added_tokens.begin(), added_tokens.end(),
+                             [&token](const AddedToken& other) {
+                               return other.content == token.content &&
+                                      other.normalized == token.normalized;
+                             });
     added_tokens_map[token.content] = new_id;
     added_tokens_map_r[new_id] = token;
 
+    if (again) {
+      continue;
+    }
     if (!special_tokens_set.count(token.content)) {
       added_tokens.push_back(token);
     }
-- 
2.43.0


From fc716949fef7cc48ec79ac97d0b805cdca68a68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:07 +0000
Subject: [PATCH 63/66] fix: an added token that is not UTF-8 is rejected
 before anything changes

---
 src/added_vocabulary.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/added_vocabulary.cpp b/src/added_vocabulary.cpp
index afce1f8..9581195 100644
--- a/src/added_vocabulary.cpp
+++ b/src/added_vocabulary.cpp
@@ -57,6 +57,9 @@ int AddedVocabulary::add_tokens(const std::vector<AddedToken>& new_tokens,
                                 Model* model, Normalizer* normalizer) {
   // new_tokens can be added_tokens itself, which grows below
   const std::vector<AddedToken> tokens = new_tokens;
+  for (const AddedToken& token : tokens) {
+    convert_from_string(token.content);  // throws unless it is UTF-8
+  }
   int vocab_size = model == nullptr ? 0 : model->get_vocab_size();
   for (auto token : tokens) {
     if (token.special && !token.content.empty() &&
-- 
2.43.0


From 228886e195163a20f80fcffcf141abff90ad97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:19 +0000
Subject: [PATCH 64/66] fix: dropout skips merges at random, not the same ones
 in every word

---
 src/model.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model.cpp b/src/model.cpp
index cd9dc18..88f0103 100644
--- a/src/model.cpp
+++ b/src/model.cpp
@@ -239,7 +239,8 @@ void Word::merge_all(
       queue.emplace(i, it->second.first, it->second.second);
     }
   }
-  std::default_random_engine rng;
+  // not seeded anew for every word, which would skip the same merges each time
+  thread_local std::default_random_engine rng(std::random_device{}());
   std::uniform_real_distribution<float> dist(0.0, 1.0);
   while (!queue.empty()) {
     Merge top = queue.top();
-- 
2.43.0


From 980842c8cdebe9b66039b71adb3d07da1292ea1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:20 +0000
Subject: [PATCH 65/66] fix: regular expressions match long texts too

ICU gives up on a match that needs more than its default stack, which was
taken for no match; the limit is lifted, and a failure is no longer ignored.
---
 src/pre_tokenizer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 65b5a1f..111ab83 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -109,11 +109,16 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
     throw std::runtime_error("Invalid regular expression: " + regex);
   }
   icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
+  // a long match must not look like none because of the default limit
+  matcher->setStackLimit(0, status);
   while (matcher->find(status)) {
     matches.push_back({matcher->start(status), matcher->end(status)});
   }
   delete matcher;
   delete unicode_pattern;
+  if (U_FAILURE(status)) {
+    throw std::runtime_error("Cannot match regular expression: " + regex);
+  }
 
   std::vector<std::pair<std::pair<int, int>, bool>> result;
   int cur = 0;
-- 
2.43.0


From b8fcc803c3c7a6f8e3c205acc907a6da78c2243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:19:13 +0000
Subject: [PATCH 66/66] fix: regular expressions are freed when memory runs out

A failing push_back left the compiled pattern and its matcher behind.
---
 src/pre_tokenizer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pre_tokenizer.cpp b/src/pre_tokenizer.cpp
index 111ab83..11621a6 100644
--- a/src/pre_tokenizer.cpp
+++ b/src/pre_tokenizer.cpp
@@ -105,17 +105,17 @@ std::vector<std::pair<std::pair<int, int>, bool>> find_matches(
   UErrorCode status = U_ZERO_ERROR;
   icu::RegexPattern* unicode_pattern = icu::RegexPattern::compile(
       icu::UnicodeString::fromUTF8(regex), 0, status);
+  std::unique_ptr<icu::RegexPattern> pattern_owner(unicode_pattern);
   if (U_FAILURE(status)) {
     throw std::runtime_error("Invalid regular expression: " + regex);
   }
   icu::RegexMatcher* matcher = unicode_pattern->matcher(input, status);
+  std::unique_ptr<icu::RegexMatcher> matcher_owner(matcher);
   // a long match must not look like none because of the default limit
   matcher->setStackLimit(0, status);
   while (matcher->find(status)) {
     matches.push_back({matcher->start(status), matcher->end(status)});
   }
-  delete matcher;
-  delete unicode_pattern;
   if (U_FAILURE(status)) {
     throw std::runtime_error("Cannot match regular expression: " + regex);
   }
-- 
2.43.0


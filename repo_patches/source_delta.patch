From 67d2efcdfab0ab720123b3cc658a07c117ceaab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:01 +0000
Subject: [PATCH 01/29] fix: keep the last column of a character touching the
 right edge

---
 src/ppocr/box_char/make_box_character.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/box_char/make_box_character.cpp b/src/ppocr/box_char/make_box_character.cpp
index a61c3e2..c30e2bb 100644
--- a/src/ppocr/box_char/make_box_character.cpp
+++ b/src/ppocr/box_char/make_box_character.cpp
@@ -57,9 +57,9 @@ Box make_box_character(Image const & image, Index const & idx, Bounds const & bn
 
     unsigned w = x;
 
-    while (w + 1 < bnd.width()) {
+    while (w < bnd.width()) {
         ++w;
-        if ([&image](Pixel const * d, unsigned w, unsigned h) -> bool {
+        if (w == bnd.width() || [&image](Pixel const * d, unsigned w, unsigned h) -> bool {
             for (auto e = d+w*h; d != e; d += w) {
                 if (is_pix_letter(*d) && (
                     (d+1 != e && is_pix_letter(*(d+1)))
-- 
2.43.0


From 66eb9dfc4b3eab8073d5b30f82c0115875d479e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 02/29] fix: reject ASCII images with fewer samples than
 declared pixels

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c4bdf64..08b7941 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -287,7 +287,7 @@ Image image_from_file(const char * filename, unsigned luminance)
         for (; p < end && (*p == ' ' || *p == '\n'); ++p) {
         }
 
-        if (p != end) {
+        if (p != end || compunt_counter != img_size) {
             throw std::runtime_error(invalid_data_len);
         }
     }
-- 
2.43.0


From 15c5ac547a2c1b78015f67787229ac8c33db2a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 03/29] fix: do not use unread bytes of an image file shorter
 than announced

---
 src/ppocr/image/image_from_file.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 08b7941..c905d6c 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -94,16 +94,13 @@ namespace
         std::size_t remaining = buf.len;
         auto* p = buf.data;
         while (ssize_t res = read(file.fd, p, remaining)) {
-            if (res <= 0) {
-                if (res == 0) {
-                    buf.data -= remaining;
-                    return 0;
-                }
+            if (res < 0) {
                 throw_error(filename);
             }
             remaining -= static_cast<std::size_t>(res);
             p += res;
         }
+        buf.len -= remaining;
 
         return buf;
     }
-- 
2.43.0


From 32986dbc9b460c0778c1635f7b893105f8dadc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 04/29] fix: compute the packed bitmap length without overflow

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c905d6c..c551120 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -236,7 +236,7 @@ Image image_from_file(const char * filename, unsigned luminance)
     }
     // binary data (pbm)
     else if (header.type == '4') {
-        if (static_cast<std::size_t>(end - p) != (header.width + 7) / 8 * header.height) {
+        if (static_cast<std::size_t>(end - p) != (static_cast<std::size_t>(header.width) + 7) / 8 * header.height) {
             throw std::runtime_error(invalid_data_len);
         }
 
-- 
2.43.0


From 395907fcc48d7e1cea1257014683ef7b60914169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 05/29] fix: accept one-byte bitmaps with a minimal header

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c551120..9499f83 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -122,7 +122,7 @@ namespace
             // ['0'-'9']+ '\n'                  # max value (when type != 1 or 4)
             // data
 
-            if (end - p < 9) {
+            if (end - p < 3) {
                 return false;
             }
 
-- 
2.43.0


From 6a25191de72dafd818aea977840e1b6951befdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 06/29] fix: accept ASCII images holding exactly the declared
 pixels

---
 src/ppocr/image/image_from_file.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 9499f83..a446d3c 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -263,12 +263,14 @@ Image image_from_file(const char * filename, unsigned luminance)
             else if (*p == '0') {
                 *output++ = '-';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
             else if (*p == '1') {
                 *output++ = 'x';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
-- 
2.43.0


From 77085fabe1edba4b4b5b3c3aa4aec82bc6e9008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:11 +0000
Subject: [PATCH 07/29] fix: compare region shares that are both zero without
 dividing by zero

---
 src/ppocr/strategies/proportionality_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index 4eb53dc..db16c1d 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -70,7 +70,7 @@ unsigned proportionality_zone::relationship_type::compute(const value_type& a, c
     unsigned const total = std::inner_product(
         a.begin(), a.end(), b.begin(), 0u
       , std::plus<unsigned>()
-      , [](unsigned a, unsigned b) { return a*100/(a+b); }
+      , [](unsigned a, unsigned b) { return a+b ? a*100/(a+b) : 50u; }
     ) / a.size();
     return utils::compute_relationship(total, 50u, 100u);
 }
-- 
2.43.0


From c87034c00368a02f0ef13f4c07724a41f8e28512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 08/29] fix: keep room for the terminator of words whose length
 is a multiple of four

---
 src/ppocr/ocr2/glyphs.cpp | 4 ++--
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 68fba9d..53cf62b 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -68,7 +68,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         std::vector<unsigned> reindex(word_map.size());
         for (auto & p : word_map) {
             reindex[p.second] = buf_word_sz;
-            buf_word_sz += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned) + 1;
+            buf_word_sz += p.first.size() / sizeof(unsigned) + 2;
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
         for (auto & views : glyphs) {
@@ -84,7 +84,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++buf;
             std::copy(p.first.begin(), p.first.end(), reinterpret_cast<char*>(buf));
             reinterpret_cast<char*>(buf)[p.first.size()] = 0;
-            buf += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned);
+            buf += p.first.size() / sizeof(unsigned) + 1;
         }
     }
 
diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c2e7149..295cf3a 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -74,7 +74,7 @@ struct Glyphs : std::vector<Views> {
                 }
                 break;
             }
-            i += (this->get_word_(i).size() + sizeof(unsigned) * 2 - 1) / sizeof(unsigned);
+            i += this->get_word_(i).size() / sizeof(unsigned) + 2;
         }
         return no_index;
     }
-- 
2.43.0


From 82add8642b57f8c31b42d387d9b87056e71bfa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 09/29] fix: look up whole words instead of prefixes

---
 src/ppocr/ocr2/glyphs.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 295cf3a..321260a 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -21,6 +21,7 @@
 
 #include <map>
 #include <string>
+#include <string_view>
 #include <memory>
 #include <vector>
 #include <istream>
@@ -67,7 +68,7 @@ struct Glyphs : std::vector<Views> {
     unsigned word_index_of(std::string_view s) const {
         unsigned i = 0;
         while (i < this->buf_word_sz) {
-            auto r = s.compare(0, s.size(), this->get_word_(i).data(), s.size());
+            auto r = s.compare(std::string_view(this->get_word_(i).data(), this->get_word_(i).size()));
             if (r <= 0) {
                 if (r == 0) {
                     return i;
-- 
2.43.0


From 91963dda005447bb27bc227a43c64124d634222d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 10/29] fix: index view classes by glyph instead of by sorted
 position

---
 src/ppocr/ocr2/views_index_ordered.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/views_index_ordered.hpp b/src/ppocr/ocr2/views_index_ordered.hpp
index 61028a0..a35a1d0 100644
--- a/src/ppocr/ocr2/views_index_ordered.hpp
+++ b/src/ppocr/ocr2/views_index_ordered.hpp
@@ -31,6 +31,7 @@ inline std::vector<unsigned> get_views_indexes_ordered(Glyphs const & glyphs) {
     if (!glyphs.empty()) {
         std::vector<std::reference_wrapper<Views const>> glyph_refs(glyphs.begin(), glyphs.end());
         std::sort(glyph_refs.begin(), glyph_refs.end(), LtViews{});
+        auto const sorted_refs = glyph_refs;
 
         auto first = glyph_refs.begin() + 1;
         auto last = glyph_refs.end();
@@ -42,9 +43,9 @@ inline std::vector<unsigned> get_views_indexes_ordered(Glyphs const & glyphs) {
         }
 
         id_views.resize(glyphs.size());
-        auto it = id_views.begin();
+        auto it = sorted_refs.begin();
         for (Views const & g : glyph_refs) {
-            *it = static_cast<unsigned>(&g - &glyphs[0]);
+            id_views[static_cast<std::size_t>(&it->get() - &glyphs[0])] = static_cast<unsigned>(&g - &glyphs[0]);
             ++it;
         }
     }
-- 
2.43.0


From 8dd7920321b9f6abf720b45412f8d456b5239a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 11/29] fix: take the first box into account when sizing the
 line histograms

---
 src/ppocr/ocr2/filter_by_lines.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9019647..7a24bd0 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -74,15 +74,17 @@ namespace {
     struct MinMaxBox
     {
         unsigned min_top;
-        unsigned max_top = 0;
+        unsigned max_top;
         unsigned min_bottom;
-        unsigned max_bottom = 0;
+        unsigned max_bottom;
 
         using iterator = std::vector<ppocr::Box>::const_iterator;
 
         MinMaxBox(iterator first, iterator last)
         : min_top(first->top())
+        , max_top(first->top())
         , min_bottom(first->bottom())
+        , max_bottom(first->bottom())
         {
             while (++first != last) {
                 min_top = std::min(min_top, first->top());
-- 
2.43.0


From aed3030ae4ad3eb0b62d6b3666b341c774baf361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 12/29] fix: test the second word of a position against the
 lines as well

---
 src/ppocr/ocr2/filter_by_lines.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 7a24bd0..9dec663 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -50,10 +50,11 @@ namespace {
             auto out = vec.begin();
             auto last = vec.end();
             if (!pred(*(first-1))) {
-                do {
+                ++count;
+                while (first != last && !pred(*first)) {
                     first = std::find_if(first+1, last, view_equal_to(first->get().word));
                     ++count;
-                } while (first != last && !pred(*first));
+                }
                 out = first;
             }
             while (first != last) {
-- 
2.43.0


From eb570ee159311070b15909a3d106bc4941c56453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:50 +0000
Subject: [PATCH 13/29] fix: keep the readings of a position when none of them
 fits the lines

---
 src/ppocr/ocr2/filter_by_lines.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9dec663..fa62c3d 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -66,7 +66,10 @@ namespace {
                 first = rlast;
             }
 
-            vec.erase(out, vec.end());
+            // keep every reading when none of them fits
+            if (out != vec.begin()) {
+                vec.erase(out, vec.end());
+            }
         }
 
         return count;
-- 
2.43.0


From 879751d179c175e275c579a7893f5b277cbea5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 14/29] fix: mark and count leading unread positions, keep the
 blank after a first word of punctuation

---
 src/ppocr/ocr2/disambiguous_with_dict.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/ocr2/disambiguous_with_dict.cpp b/src/ppocr/ocr2/disambiguous_with_dict.cpp
index 060a437..90e033d 100644
--- a/src/ppocr/ocr2/disambiguous_with_dict.cpp
+++ b/src/ppocr/ocr2/disambiguous_with_dict.cpp
@@ -168,13 +168,11 @@ unsigned ppocr::ocr2::disambiguous_with_dict(
 
     auto first = ambiguous.begin();
     auto last = ambiguous.end();
-    auto middle = std::find_if_not(first, first + *it_space, search_fn);
-    for (; first != middle; ++first) {
-        append(result, glyphs, *first);
-    }
-    if (first == ambiguous.begin() + *it_space) {
+    // no blank before the first position
+    if (first != last && *it_space == 0) {
         ++it_space;
     }
+
     while (first != last) {
         auto e = ambiguous.begin() + *it_space;
         assert(e <= ambiguous.end());
-- 
2.43.0


From 41e07ca6fc406d3aba54556695240d69864e6781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 15/29] fix: match every character of the candidates of the
 last position

---
 src/ppocr/spell/word_disambiguouser.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index 28508ac..5f86642 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -61,20 +61,20 @@ private:
         if (pos != rng.end() && pos->get() == c) {
             auto next_first = first;
             ++next_first;
-            if (next_first == last) {
+            if (*++it) {
+                if (!pos->empty() && disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
+                    set_c(output, c);
+                    return true;
+                }
+            }
+            else if (next_first == last) {
                 if (pos->is_terminal()) {
                     set_c(output, c);
                     return true;
                 }
             }
             else if (!pos->empty()) {
-                if (*++it) {
-                    if (disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
-                        set_c(output, c);
-                        return true;
-                    }
-                }
-                else if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
+                if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
                     set_c(output, c);
                     return true;
                 }
-- 
2.43.0


From 7b11ce913ab5014110ea9fbed7b2fb232e4fe7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 16/29] fix: ignore blank entries when building a dictionary

---
 src/ppocr/spell/dictionary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index dc3cfd7..42f35a7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -42,7 +42,9 @@ Dictionary::Dictionary(std::vector<std::string> const & words)
         for (uint32_t c; (c = *it); ++it) {
             new_word.push_back(c);
         }
-        uwords.push_back(std::move(new_word));
+        if (!new_word.empty()) {
+            uwords.push_back(std::move(new_word));
+        }
     }
 
     std::sort(uwords.begin(), uwords.end());
-- 
2.43.0


From 961cf490435cb2e05c1bd05b6232a232dc442eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 17/29] fix: do not scan replaced text again

---
 src/ppocr/ocr2/replacement.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/replacement.hpp b/src/ppocr/ocr2/replacement.hpp
index 928beac..217d083 100644
--- a/src/ppocr/ocr2/replacement.hpp
+++ b/src/ppocr/ocr2/replacement.hpp
@@ -39,8 +39,9 @@ std::istream & operator >> (std::istream & is, Replacements & replacements);
 inline void replace_words(std::string & result, Replacements const & replacements) {
     for (Replacement const & rep : replacements) {
         std::string::size_type pos = 0;
-        while ((pos = result.find(rep.pattern, pos)) != std::string::npos) {
+        while (!rep.pattern.empty() && (pos = result.find(rep.pattern, pos)) != std::string::npos) {
             result.replace(pos, rep.pattern.size(), rep.replace);
+            pos += rep.replace.size();
         }
     }
 }
-- 
2.43.0


From 418e3f44829b01d688e47b20470a00cf02394ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 18/29] fix: give a last pattern without newline its own empty
 replacement

---
 src/ppocr/ocr2/replacement.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/replacement.cpp b/src/ppocr/ocr2/replacement.cpp
index 56c7298..e1fb1ef 100644
--- a/src/ppocr/ocr2/replacement.cpp
+++ b/src/ppocr/ocr2/replacement.cpp
@@ -25,14 +25,12 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, Replacements& replacemen
     Replacement rep;
     while (is) {
         is >> rep.pattern;
+        rep.replace.clear();
         auto c = is.rdbuf()->sgetc();
         if (!char_traits::eq_int_type(c, char_traits::eof())) {
             if (!char_traits::eq(char_traits::to_char_type(c), '\n')) {
                 is >> rep.replace;
             }
-            else {
-                rep.replace.clear();
-            }
         }
         if (is) {
             replacements.push_back(rep);
-- 
2.43.0


From ab4f9e2f350f5731e93daafaef086b657548e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 19/29] fix: make integer cursors compare less or equal to
 themselves

---
 src/ppocr/utils/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/utils/integer_iterator.hpp b/src/ppocr/utils/integer_iterator.hpp
index 57283ff..a671016 100644
--- a/src/ppocr/utils/integer_iterator.hpp
+++ b/src/ppocr/utils/integer_iterator.hpp
@@ -44,6 +44,6 @@ namespace ppocr
         bool operator==(integer_iterator const & other) const { return this->n == other.n; }
         bool operator!=(integer_iterator const & other) const { return this->n != other.n; }
         bool operator<(integer_iterator const & other) const { return this->n < other.n; }
-        bool operator<=(integer_iterator const & other) const { return this->n < other.n; }
+        bool operator<=(integer_iterator const & other) const { return this->n <= other.n; }
     };
 }
-- 
2.43.0


From 77edb3d1ff2394001af1ba2362246819f3ca7c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 20/29] fix: order feature entries lexicographically

---
 src/ppocr/loader2/datas_loader.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ppocr/loader2/datas_loader.hpp b/src/ppocr/loader2/datas_loader.hpp
index 006d748..bd03f21 100644
--- a/src/ppocr/loader2/datas_loader.hpp
+++ b/src/ppocr/loader2/datas_loader.hpp
@@ -77,7 +77,6 @@ namespace details_ {
 
     struct Lt { template <class T> bool operator()(T const & a, T const & b) const { return a < b; } };
     struct Eq { template <class T> bool operator()(T const & a, T const & b) const { return a == b; } };
-    struct Noop { template <class T> bool operator()(T const & , T const & ) const { return false; } };
 
     template<class Cmp, class Cmp2, class Data>
     bool cmp_datas(size_t i1, size_t i2, Cmp cmp, Cmp2, Data const & data) {
@@ -86,10 +85,10 @@ namespace details_ {
 
     template<class Cmp, class Cmp2, class Data, class... Datas>
     bool cmp_datas(size_t i1, size_t i2, Cmp cmp, Cmp2 cmp2, Data const & data, Datas const & ... others) {
-        if (cmp(data[i1], data[i2]) || cmp2(data[i1], data[i2])) {
+        if (cmp2(data[i1], data[i2])) {
             return cmp_datas(i1, i2, cmp, cmp2, others...);
         }
-        return false;
+        return cmp(data[i1], data[i2]);
     }
 
     template<class Relationship, bool Is = Relationship::is_contiguous>
@@ -225,7 +224,7 @@ struct Datas : private Data<Strategies>...
     }
 
     bool eq(size_t i1, size_t i2) const {
-        return details_::cmp_datas(i1, i2, details_::Eq(), details_::Noop(), get<Strategies>()...);
+        return details_::cmp_datas(i1, i2, details_::Eq(), details_::Eq(), get<Strategies>()...);
     }
 
 private:
-- 
2.43.0


From c212e31c5e0902f5667a68c17d94c0bd4789fbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:17 +0000
Subject: [PATCH 21/29] fix: divide the unrecognized rate by the number of
 characters

---
 main/ocr2_extract_text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f46b225..4a639dc 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -191,7 +191,7 @@ int main(int ac, char **av)
       << " ## result: " << result
       << "\nunrecognized_count: " << unrecognized_count
       << "\ncount: " << ambiguous.size()
-      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty()? ambiguous.size() :1)
+      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
 }
-- 
2.43.0


From 1d62bda1932f67f78c8339e6e7df9caedbaf170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:51 +0000
Subject: [PATCH 22/29] fix: open each words file with a fresh stream

The stream was neither closed nor cleared between files, so opening the
second and later files failed and their words were skipped.
---
 main/make_trie_dictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index af6c3a9..4efe5d0 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -34,11 +34,10 @@ int main(int ac, char ** av) {
         return 1;
     }
 
-    std::ifstream file;
     std::vector<std::string> words;
 
     for (int i = 1; i < ac; ++i) {
-        file.open(av[i]);
+        std::ifstream file(av[i]);
         if (!file) {
             std::cerr << av[i] << ": " << strerror(errno) << std::endl;
             continue;
-- 
2.43.0


From fb2da208bfde148258ee65944677d6e7afe01aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:27 +0000
Subject: [PATCH 23/29] fix: scanning a one-row image past its last character
 trips an assertion in debug builds

---
 src/ppocr/box_char/make_box_character.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/box_char/make_box_character.cpp b/src/ppocr/box_char/make_box_character.cpp
index c30e2bb..dc37730 100644
--- a/src/ppocr/box_char/make_box_character.cpp
+++ b/src/ppocr/box_char/make_box_character.cpp
@@ -47,7 +47,7 @@ Box make_box_character(Image const & image, Index const & idx, Bounds const & bn
 {
     unsigned x = idx.x();
 
-    auto d = image.data({x, idx.y()});
+    auto d = image.data() + image.to_size_t({x, idx.y()});
     for (; x < bnd.width(); ++x) {
         if (!utils::vertical_empty(d, bnd)) {
             break;
@@ -79,7 +79,7 @@ Box make_box_character(Image const & image, Index const & idx, Bounds const & bn
 
     unsigned y = idx.y();
 
-    d = image.data({x, y});
+    d = image.data() + image.to_size_t({x, y});
     for (; y < bnd.height(); ++y) {
         if (!utils::horizontal_empty(d, w)) {
             break;
-- 
2.43.0


From 8b2df36a48a373ae24ffe52801f9109a8a641246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:58 +0000
Subject: [PATCH 24/29] fix: the distance of two row-range cursors is a number,
 not a truth value

---
 src/ppocr/image/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image.hpp b/src/ppocr/image/image.hpp
index ba720cf..c650b07 100644
--- a/src/ppocr/image/image.hpp
+++ b/src/ppocr/image/image.hpp
@@ -124,7 +124,7 @@ struct HorizontalRange
 
         bool operator*() const { return r_.pixel_get_(data_); }
 
-        bool operator-(iterator const & other) const { return data_ - other.data_; }
+        difference_type operator-(iterator const & other) const { return data_ - other.data_; }
 
         iterator & operator++() { ++data_; return *this; }
 
-- 
2.43.0


From fdc064dd8ec192d8825f125f48e51d28181307a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:57 +0000
Subject: [PATCH 25/29] fix: extract_text6 and extract_text8 rotate the picture
 once for the rotated features

The strategy applies its policy itself; applying it again in the tool swapped
the two pictures back, so no learned character was ever read.
---
 main/extract_text6.cpp | 2 +-
 main/extract_text8.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/main/extract_text6.cpp b/main/extract_text6.cpp
index 5cf7fb5..5918cc0 100644
--- a/main/extract_text6.cpp
+++ b/main/extract_text6.cpp
@@ -407,7 +407,7 @@ struct data_for_strategy {
 
     typename strategy_type::value_type
     load(Image const & img, Image const & img90, ctx_type& ctx) {
-        x = loader2::load(strategy_type(), LoaderStrategy::policy, img, img90, ctx);
+        x = strategy_type::load(img, img90, ctx);
         return x;
     }
 };
diff --git a/main/extract_text8.cpp b/main/extract_text8.cpp
index bde535b..bd107f1 100644
--- a/main/extract_text8.cpp
+++ b/main/extract_text8.cpp
@@ -266,7 +266,7 @@ struct data_for_strategy {
     typename strategy_type::value_type
     load(Image const & img, Image const & img90) {
         typename strategy_type::ctx_type ctx;
-        x = loader2::load(strategy_type(), LoaderStrategy::policy, img, img90, ctx);
+        x = strategy_type::load(img, img90, ctx);
         return x;
     }
 };
-- 
2.43.0


From 7cd76191a9ed80ac548de18fd039032d49b2f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:57 +0000
Subject: [PATCH 26/29] fix: extract_text6 and extract_text8 mark an unread
 shape seen again like the first time

---
 main/extract_text6.cpp | 4 +---
 main/extract_text8.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/main/extract_text6.cpp b/main/extract_text6.cpp
index 5918cc0..7645948 100644
--- a/main/extract_text6.cpp
+++ b/main/extract_text6.cpp
@@ -642,7 +642,6 @@ void compute_image(
     if (o.tmp_probabilities.empty()) {
         o.result2 += '_';
         o.ambiguous.push_back({});
-        cache_element.second.push_back({"_"});
     }
     else if (o.tmp_probabilities[0].prob >= 1/* && tmp_probabilities.size() == 1*/) {
         o.result2 += get_word(o.tmp_probabilities[0]);
@@ -664,7 +663,6 @@ void compute_image(
         if (o.probabilities.empty()) {
             o.result2 += '_';
             o.ambiguous.push_back({});
-            cache_element.second.push_back({"_"});
         }
         else {
             auto prob_limit = o.probabilities.front().prob;
@@ -813,7 +811,7 @@ int main(int ac, char **av)
         auto it = compute_image_data.sorted_img.find(img_word);
         if (it != compute_image_data.sorted_img.end()) {
             compute_image_data.result1 += it->second.first;
-            compute_image_data.result2 += it->second.second.front();
+            compute_image_data.result2 += it->second.second.empty() ? "_" : it->second.second.front();
             compute_image_data.ambiguous.push_back(it->second.second);
             compute_image_data.result1 += ' ';
             compute_image_data.result2 += ' ';
diff --git a/main/extract_text8.cpp b/main/extract_text8.cpp
index bd107f1..ab2e2b9 100644
--- a/main/extract_text8.cpp
+++ b/main/extract_text8.cpp
@@ -473,7 +473,6 @@ void compute_image(
     if (o.tmp_probabilities.empty()) {
         o.result2 += '_';
         o.ambiguous.push_back({});
-        cache_element.second.push_back({"_"});
     }
     else if (o.tmp_probabilities[0].prob >= 1/* && tmp_probabilities.size() == 1*/) {
         o.result2 += get_word(o.tmp_probabilities[0]);
@@ -495,7 +494,6 @@ void compute_image(
         if (o.probabilities.empty()) {
             o.result2 += '_';
             o.ambiguous.push_back({});
-            cache_element.second.push_back({"_"});
         }
         else {
             auto prob_limit = o.probabilities.front().prob;
@@ -714,7 +712,7 @@ int main(int ac, char **av)
         auto it = compute_image_data.sorted_img.find(img_word);
         if (it != compute_image_data.sorted_img.end()) {
             compute_image_data.result1 += it->second.first;
-            compute_image_data.result2 += it->second.second.front();
+            compute_image_data.result2 += it->second.second.empty() ? "_" : it->second.second.front();
             compute_image_data.ambiguous.push_back(it->second.second);
             compute_image_data.result1 += ' ';
             compute_image_data.result2 += ' ';
-- 
2.43.0


From cad4cb343292146797c5234fc7664c3c2cde91e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:57 +0000
Subject: [PATCH 27/29] fix: extract_text6 and extract_text8 mark leading
 unread characters, keep leading punctuation

---
 main/extract_text6.cpp | 3 +--
 main/extract_text8.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/main/extract_text6.cpp b/main/extract_text6.cpp
index 7645948..8822f9c 100644
--- a/main/extract_text6.cpp
+++ b/main/extract_text6.cpp
@@ -804,7 +804,7 @@ int main(int ac, char **av)
         Image img_word = img.section(cbox.index(), cbox.bounds());
         //std::cout << img_word;
 
-        if (x + 4 < cbox.x()) {
+        if (x && x + 4 < cbox.x()) {
             compute_image_data.ambiguous.push_back({" "});
         }
 
@@ -844,7 +844,6 @@ int main(int ac, char **av)
     spell::WordDisambiguouser word_disambiguouser;
     auto first = compute_image_data.ambiguous.begin();
     auto last = compute_image_data.ambiguous.end();
-    first = std::find_if_not(first, last, search_fn);
     while (first != last) {
         auto middle = std::find_if(first, last, search_fn);
         if (!word_disambiguouser(dict, first, middle, result3)) {
diff --git a/main/extract_text8.cpp b/main/extract_text8.cpp
index ab2e2b9..a705221 100644
--- a/main/extract_text8.cpp
+++ b/main/extract_text8.cpp
@@ -705,7 +705,7 @@ int main(int ac, char **av)
         Image img_word = img.section(cbox.index(), cbox.bounds());
         //std::cout << img_word;
 
-        if (x + 4 < cbox.x()) {
+        if (x && x + 4 < cbox.x()) {
             compute_image_data.ambiguous.push_back({" "});
         }
 
@@ -745,7 +745,6 @@ int main(int ac, char **av)
     spell::WordDisambiguouser word_disambiguouser;
     auto first = compute_image_data.ambiguous.begin();
     auto last = compute_image_data.ambiguous.end();
-    first = std::find_if_not(first, last, search_fn);
     while (first != last) {
         auto middle = std::find_if(first, last, search_fn);
         if (!word_disambiguouser(dict, first, middle, result3)) {
-- 
2.43.0


From 6d8c815d4b89aff0ca972a56775c89d3beeff709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:57 +0000
Subject: [PATCH 28/29] fix: extract_text8 merges the entries with equal
 features, and only those

The scan for the end of a group looked for the next equal entry, the merged
views went to an entry which was then dropped, and the dropped entries were
never removed.
---
 main/extract_text8.cpp      | 54 +++++++++++++------------------------
 src/ppocr/utils/reindex.hpp |  2 +-
 2 files changed, 20 insertions(+), 36 deletions(-)

diff --git a/main/extract_text8.cpp b/main/extract_text8.cpp
index a705221..19a8538 100644
--- a/main/extract_text8.cpp
+++ b/main/extract_text8.cpp
@@ -625,7 +625,7 @@ int main(int ac, char **av)
             return datas.get<strategy1>()[i1] < datas.get<strategy1>()[i2];
         });
 
-        std::vector<index_type *> duplicate;
+        std::vector<index_type> uniques;
         {
             auto first = indexes.begin();
             auto last = indexes.end();
@@ -633,45 +633,29 @@ int main(int ac, char **av)
             while (first != last) {
                 auto eq = [](loader2::View const & v1, loader2::View const & v2) { return v1.word == v2.word; };
                 auto lt = [](loader2::View const & v1, loader2::View const & v2) { return v1.word <  v2.word; };
-                auto pos = std::find_if(
+                auto pos = std::find_if_not(
                     first+1, last, [&](unsigned i1) { return datas_eq(datas, i1, *first); }
                 );
-                if (++first != pos) {
-                    for (; first != pos; ++first) {
-                        duplicate.emplace_back(&*first);
-                        views.resize(glyphs[*first].views.size() + glyphs[*(first-1)].views.size());
-                        views.erase(std::unique(
-                            views.begin(),
-                            std::set_union(
-                                std::make_move_iterator(glyphs[*first].views.begin()),
-                                std::make_move_iterator(glyphs[*first].views.end()),
-                                std::make_move_iterator(glyphs[*(first-1)].views.begin()),
-                                std::make_move_iterator(glyphs[*(first-1)].views.end()),
-                                views.begin(), lt
-                            ), eq
-                        ), views.end());
-                        std::swap(glyphs[*first].views, views);
-                    }
+                auto & glyph = glyphs[*first];
+                uniques.emplace_back(*first);
+                while (++first != pos) {
+                    views.resize(glyphs[*first].views.size() + glyph.views.size());
+                    views.erase(std::unique(
+                        views.begin(),
+                        std::set_union(
+                            std::make_move_iterator(glyphs[*first].views.begin()),
+                            std::make_move_iterator(glyphs[*first].views.end()),
+                            std::make_move_iterator(glyph.views.begin()),
+                            std::make_move_iterator(glyph.views.end()),
+                            views.begin(), lt
+                        ), eq
+                    ), views.end());
+                    std::swap(glyph.views, views);
                 }
             }
         }
-        std::cout << " ## duplicate.size(): " << (duplicate.size()) << std::endl;
-        if (!duplicate.empty()) {
-            auto first = duplicate.begin() + 1;
-            std::copy(
-                std::copy_if(
-                    duplicate.front() + 1, duplicate.back(), duplicate.front() + 1,
-                    [&](unsigned & i) {
-                        bool ret = *first != &i;
-                        while (*first < &i) {
-                            ++first;
-                        }
-                        return ret;
-                    }
-                ),
-                &indexes.back(), duplicate.back()
-            );
-        }
+        std::cout << " ## duplicate.size(): " << (indexes.size() - uniques.size()) << std::endl;
+        indexes = std::move(uniques);
 
         utils::reindex(indexes, glyphs);
         loader2::apply_from_datas(datas, ReindexDatas{indexes});
diff --git a/src/ppocr/utils/reindex.hpp b/src/ppocr/utils/reindex.hpp
index 3c263a2..a3aea9d 100644
--- a/src/ppocr/utils/reindex.hpp
+++ b/src/ppocr/utils/reindex.hpp
@@ -28,7 +28,7 @@ namespace utils {
 template<class Index, class T>
 void reindex(std::vector<Index> const & indexes, std::vector<T> & cont) {
     std::vector<T> new_cont;
-    new_cont.resize(cont.size());
+    new_cont.resize(indexes.size());
     auto it = new_cont.begin();
     for (auto i : indexes) {
         *it = std::move(cont[i]);
-- 
2.43.0


From 9168013fe753068ae71370e40d1b0f38aec3bde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:26:18 +0000
Subject: [PATCH 29/29] fix: feature ratios no longer wrap around on large
 glyphs

The weighted sums and the products by 100 of the direction, gravity and
density features were computed in 32 bits: a 600x600 glyph inked in its
upper half had an hgravity of 41 instead of 200, a plain 6600x6600 one a
density of 1 instead of 100.
---
 src/ppocr/strategies/density.cpp                         | 4 +++-
 src/ppocr/strategies/dzdensity.cpp                       | 3 ++-
 src/ppocr/strategies/hgravity2.cpp                       | 4 +++-
 src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp | 8 ++++----
 src/ppocr/strategies/utils/horizontal_gravity.hpp        | 4 ++--
 src/ppocr/strategies/utils/top_bottom.hpp                | 4 +++-
 6 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/ppocr/strategies/density.cpp b/src/ppocr/strategies/density.cpp
index eb5de9d..bbc2ee6 100644
--- a/src/ppocr/strategies/density.cpp
+++ b/src/ppocr/strategies/density.cpp
@@ -20,6 +20,8 @@
 
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies {
 
 density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_type& /*ctx*/)
@@ -32,7 +34,7 @@ density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_
             ++count;
         }
     }
-    return count * 100 / img.area();
+    return std::uint64_t(count) * 100 / img.area();
 }
 
 } }
diff --git a/src/ppocr/strategies/dzdensity.cpp b/src/ppocr/strategies/dzdensity.cpp
index fda4cef..fa6522a 100644
--- a/src/ppocr/strategies/dzdensity.cpp
+++ b/src/ppocr/strategies/dzdensity.cpp
@@ -21,6 +21,7 @@
 #include "ppocr/image/image.hpp"
 
 #include <algorithm>
+#include <cstdint>
 
 namespace ppocr { namespace strategies {
 
@@ -63,7 +64,7 @@ dzdensity::value_type dzdensity::load(Image const & img, Image const & /*img90*/
         data += img.width();
     });
 
-    return dzdensity::value_type(res * 100 / area);
+    return dzdensity::value_type(std::int64_t(res) * 100 / area);
 }
 
 } }
diff --git a/src/ppocr/strategies/hgravity2.cpp b/src/ppocr/strategies/hgravity2.cpp
index 68947cd..a67449b 100644
--- a/src/ppocr/strategies/hgravity2.cpp
+++ b/src/ppocr/strategies/hgravity2.cpp
@@ -20,6 +20,8 @@
 
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
+
 
 namespace ppocr { namespace strategies {
 
@@ -29,7 +31,7 @@ hgravity2::value_type hgravity2::load(Image const & img, Image const & /*img90*/
     if (!hby2) {
         return 50;
     }
-    auto const area = ((hby2 * (hby2 + 1)) / 2) * img.width();
+    auto const area = ((std::uint64_t(hby2) * (hby2 + 1)) / 2) * img.width();
     auto const top_bottom = ctx.compute(img);
     auto const ret = (area + top_bottom.top - top_bottom.bottom) * 100 / (area * 2);
     return ret;
diff --git a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
index e7ab70d..654f160 100644
--- a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
+++ b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
@@ -25,10 +25,10 @@
 namespace ppocr { namespace strategies { namespace utils {
 
 namespace details_ {
-    inline unsigned count_diagonal_vertical_gravity(
+    inline std::uint64_t count_diagonal_vertical_gravity(
         Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top
     ) {
-        unsigned g = 0;
+        std::uint64_t g = 0;
         unsigned coef = is_top ? bnd.height() : 1;
         unsigned ih = 0;
         unsigned const wdiv2 = bnd.width()/2;
@@ -47,13 +47,13 @@ namespace details_ {
     }
 }
 
-inline unsigned diagonal_vertical_gravity_area(const Image& img)
+inline std::uint64_t diagonal_vertical_gravity_area(const Image& img)
 {
     Bounds const bnd(img.width(), img.height() / 2);
     auto p = img.data();
     auto ep = img.data({0, bnd.height()});
 
-    unsigned area = 0;
+    std::uint64_t area = 0;
     unsigned ih = 0;
     unsigned const wdiv2 = bnd.width()/2;
     for (; p != ep; p += bnd.width(), ++ih) {
diff --git a/src/ppocr/strategies/utils/horizontal_gravity.hpp b/src/ppocr/strategies/utils/horizontal_gravity.hpp
index 5652f62..be8fbc6 100644
--- a/src/ppocr/strategies/utils/horizontal_gravity.hpp
+++ b/src/ppocr/strategies/utils/horizontal_gravity.hpp
@@ -29,9 +29,9 @@ namespace ppocr { namespace strategies { namespace utils {
  * Multiply each pixel with the distance [\a bnd.height(), y]
  */
 inline
-unsigned horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
+std::uint64_t horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
 {
-    unsigned /*long*/ g = 0;
+    std::uint64_t g = 0;
     unsigned h = is_top ? bnd.height() : 1;
     while (p != ep) {
         for (auto epl = p + bnd.width(); p != epl; ++p) {
diff --git a/src/ppocr/strategies/utils/top_bottom.hpp b/src/ppocr/strategies/utils/top_bottom.hpp
index b673532..6bf382a 100644
--- a/src/ppocr/strategies/utils/top_bottom.hpp
+++ b/src/ppocr/strategies/utils/top_bottom.hpp
@@ -19,9 +19,11 @@
 #ifndef PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 #define PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies { namespace utils {
 
-struct TopBottom { unsigned top, bottom; };
+struct TopBottom { std::uint64_t top, bottom; };
 
 } } }
 
-- 
2.43.0


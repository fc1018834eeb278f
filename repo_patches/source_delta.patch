From e1a231582d393968570cb1192e9cd5b0e0a4ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 01/10] fix: restricted-mode URLs containing an ampersand no
 longer panic

reverse_encode_html's regular expression matches &amp; but the match had no arm for it.
---
 src/htmltools.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/htmltools.rs b/src/htmltools.rs
index e9582ef..12537a5 100644
--- a/src/htmltools.rs
+++ b/src/htmltools.rs
@@ -52,6 +52,7 @@ pub(crate) fn reverse_encode_html(text: &str) -> Cow<str> {
     ENTITY_RE.replace_all(text, |cap: &Captures| {
         let entity = &cap[1];
         match entity {
+            "&amp;" => "&",
             "&lt;" => "<",
             "&gt;" => ">",
             "&quot;" => "\"",
-- 
2.43.0


From 3a550465ddd4253969706520ab3e133018e01263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 02/10] fix: look up the image's own URL, not its HTML-escaped
 form, in restricted mode

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index cfb3a80..6d87f4e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -584,7 +584,7 @@ impl <'t> ParserState<'t> {
             atts.insert("alt", optional_title.unwrap_or_default().to_owned());
 
             if !UrlBits::parse(url).is_relative() && self.textile.get_sizes {
-                if let Some((width, height)) = get_image_size(url) {
+                if let Some((width, height)) = get_image_size(&self.unrestrict_url(url)) {
                     atts.insert("height", height.to_string());
                     atts.insert("width", width.to_string());
                 }
-- 
2.43.0


From 1b4ec5179fc83489cf756a837bbaaa4ba53fd392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 03/10] fix: changing the uid of a used parser drops the
 expressions built for the old one

---
 src/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 6d87f4e..5f7a38c 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -2127,6 +2127,8 @@ impl Textile {
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
         ];
+        // The cached expressions embed the previous uid.
+        self.regex_cache.borrow_mut().clear();
         self
     }
 
-- 
2.43.0


From 1cdfd6835fc79c5460a5db8ca5bb9f4a4ec0beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 04/10] fix: creating a parser no longer panics when the clock
 reads before 1970

---
 src/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 5f7a38c..1c0d72f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1864,9 +1864,13 @@ fn normalize_newlines(text: &str) -> String {
 }
 
 fn time_based_uid() -> String {
-    let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
+    // The system clock may be set to a moment before the epoch.
+    let now = match SystemTime::now().duration_since(UNIX_EPOCH) {
+        Ok(since_epoch) => since_epoch.as_nanos(),
+        Err(e) => e.duration().as_nanos().wrapping_neg(),
+    };
     let mut hasher = DefaultHasher::new();
-    hasher.write_u128(now.as_nanos());
+    hasher.write_u128(now);
     format!("{:x}", hasher.finish())
 }
 
-- 
2.43.0


From eed55d571bc53ed250efc37036f9591e819a351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 05/10] fix: a corrupted image header no longer panics the
 render that looks up its size

---
 src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 1c0d72f..2c3a956 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -66,7 +66,10 @@ fn get_image_size(url: &str) -> Option<(i64, i64)> {
                 Ok(bytes_fetched) => {
                     if bytes_fetched == 0 { break; }
                     read_total += bytes_fetched;
-                    if let Ok(info) = imageinfo::ImageInfo::from_raw_data(&buffer[..read_total]) {
+                    // imageinfo panics on some corrupted headers
+                    let info = std::panic::catch_unwind(
+                        || imageinfo::ImageInfo::from_raw_data(&buffer[..read_total]));
+                    if let Ok(Ok(info)) = info {
                         return Some((info.size.width, info.size.height));
                     }
                 },
-- 
2.43.0


From 38f89cd198dd6c87367cf1814fb2548fe98a7a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 06/10] fix: strip the internal reference prefix from the
 source text until none is left

---
 src/parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 2c3a956..6a5a5f6 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1935,8 +1935,11 @@ impl Textile {
         };
 
         let mut state = ParserState::new(self);
-        let text = normalize_newlines(&text)
-            .replace(&state.textile.uid, "");
+        let mut text = normalize_newlines(&text);
+        // Removing one copy of the uid may join the pieces of another one.
+        while text.contains(&state.textile.uid) {
+            text = text.replace(&state.textile.uid, "");
+        }
 
         let text = if self.block_tags {
             let text = state.block(&text);
-- 
2.43.0


From 891e115967af2de227dd28e5c2d5f89abb25696f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:50 +0000
Subject: [PATCH 07/10] fix: resolving shelved content always terminates

---
 src/parser.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 6a5a5f6..7b99ecd 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -398,14 +398,11 @@ impl <'t> ParserState<'t> {
 
     pub fn retrieve(&self, text: String) -> String {
         let mut new_text = text;
-        loop {
-            let old = new_text.clone();
-            for (k, v) in self.shelf.iter() {
-                new_text = new_text.replace(k, v);
-            }
-            if new_text == old {
-                break;
-            }
+        // Shelved content only refers to items shelved before it, so a single
+        // pass from the newest item to the oldest resolves all of them, and
+        // ends even if the text imitates a reference to itself.
+        for (k, v) in self.shelf.iter().rev() {
+            new_text = new_text.replace(k, v);
         }
         new_text
     }
-- 
2.43.0


From 0c9645a7eb2b3db0c11ff983c5f1787009eca552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:04 +0000
Subject: [PATCH 08/10] fix: line breaks in lists with multibyte text no longer
 panic

The prefix check sliced the text at byte offsets that need not be character
boundaries, and the lowercased copy may differ in length from the original.
---
 src/parser.rs | 17 +++--------------
 1 file changed, 3 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 7b99ecd..acde2d7 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1002,14 +1002,6 @@ impl <'t> ParserState<'t> {
     /// Inserts <br> before each newline within a specified HTML tag,
     /// unless it is inappropriate (like when a <br> is already there).
     pub(crate) fn do_tag_br<'a>(&mut self, tag: &'static str, input: &'a str) -> Cow<'a, str> {
-
-        fn eq_ignore_ascii_case(a: &str, b: &str) -> bool {
-            if a.len() == b.len() {
-                a.chars().zip(b.chars()).all(|(a_c, b_c)| a_c.eq_ignore_ascii_case(&b_c))
-            } else {
-                false
-            }
-        }
         // Performs an equivalent of
         // `replace_all`with a regular expression
         // r"(?i)(.+)(?!(?<=</dd>|</dt>|</li>|<br/>)|(?<=<br>)|(?<=<br />))\n(?![\s|])"
@@ -1025,7 +1017,7 @@ impl <'t> ParserState<'t> {
             // The <br> is not appropriate to insert after the following prefixes
             const STOP_PREFIXES: [&str; 6] = ["</dd>", "</dt>", "</li>", "<br/>", "<br>", "<br />"];
             let mut output = String::with_capacity(text.len() + num_newlines * br.len());
-            let lc_text = text.to_lowercase();
+            let lc_text = text.to_ascii_lowercase();
             let mut next_start = 0;
             while let Some(rel_newline_pos) = lc_text[next_start..].find('\n') {
                 let abs_newline_pos = next_start + rel_newline_pos;
@@ -1035,11 +1027,8 @@ impl <'t> ParserState<'t> {
                     .starts_with(|c| char::is_whitespace(c) || c == '|');
                 if is_next_good {
                     // The preceding sequence should also be appropriate for <br>
-                    let is_prefix_good = !STOP_PREFIXES.iter().any(|p| {
-                        let prefix_start = abs_newline_pos - p.len().min(abs_newline_pos);
-                        let prefix = &lc_text[prefix_start..abs_newline_pos];
-                        eq_ignore_ascii_case(prefix, *p)
-                    });
+                    let is_prefix_good = !STOP_PREFIXES.iter().any(
+                        |p| lc_text[..abs_newline_pos].ends_with(p));
                     if is_prefix_good {
                         output += br;
                     }
-- 
2.43.0


From e65d9738c3f4dbf24fb835b87bde0321b896156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:42 +0000
Subject: [PATCH 09/10] fix: escape the token in the expressions built from it

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index acde2d7..21106db 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -414,7 +414,7 @@ impl <'t> ParserState<'t> {
             .or_default()
             .entry("")
             .or_insert_with(
-                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", self.textile.uid)));
+                || fregex!(&format!(r"{0}(?P<token>[0-9]+):url", fancy_regex::escape(&self.textile.uid))));
 
         let retrieve_url = |cap: &Captures| -> String {
             let token = &cap["token"];
@@ -1270,7 +1270,7 @@ impl <'t> ParserState<'t> {
                             "\":",
                             // url upto a stopchar
                             r"(?P<urlx>[^{1}]*)"),
-                        needle, STOPCHARS)));
+                        fancy_regex::escape(&needle), STOPCHARS)));
 
         let mut f_link = |cap: &Captures| -> String {
             let in_ = &cap[0];
@@ -1598,7 +1598,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", self.textile.uid)));
+                    || fregex!(&format!("{0}(?P<token>[0-9]+):ospan ", fancy_regex::escape(&self.textile.uid))));
             open_tag_re.replace_all(text, f_retrieve_tags)
         };
         let result = {
@@ -1609,7 +1609,7 @@ impl <'t> ParserState<'t> {
                 .or_default()
                 .entry("")
                 .or_insert_with(
-                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", self.textile.uid)));
+                    || fregex!(&format!(" {0}(?P<token>[0-9]+):cspan", fancy_regex::escape(&self.textile.uid))));
             close_tag_re.replace_all(&result, f_retrieve_tags)
         };
         result.into_owned()
@@ -2118,7 +2118,7 @@ impl Textile {
         self.link_prefix = format!("{0}-", base_id);
         let dyn_3plus_replacement = format!(
             r#"$1<span class="caps">{0}:glyph:$2</span>$3"#,
-            &self.uid);
+            self.uid.replace('$', "$$"));
         self.dyn_glyph_replacers = [
             // 3+ uppercase
             (DYN_3PLUS_RE.clone(), dyn_3plus_replacement),
-- 
2.43.0


From 4676b5ec978977c387069309483350285dcf6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:29 +0000
Subject: [PATCH 10/10] fix: do not take text assembled from raw sections for
 references

---
 src/parser.rs | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 21106db..c1e3060 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -396,15 +396,30 @@ impl <'t> ParserState<'t> {
         format!("{0}{1}{2}", self.textile.uid, self.ref_index, ":url")
     }
 
-    pub fn retrieve(&self, text: String) -> String {
-        let mut new_text = text;
-        // Shelved content only refers to items shelved before it, so a single
-        // pass from the newest item to the oldest resolves all of them, and
-        // ends even if the text imitates a reference to itself.
-        for (k, v) in self.shelf.iter().rev() {
-            new_text = new_text.replace(k, v);
-        }
-        new_text
+    /// Puts everything shelved back in its place. The pieces are resolved one
+    /// by one, so text which only looks like a reference once they are joined
+    /// remains a text.
+    pub fn retrieve(&mut self, text: &str) -> String {
+        let shelved_re = self.textile.regex_cache
+            .borrow_mut()
+            .entry(line!())
+            .or_default()
+            .entry("")
+            .or_insert_with(
+                || fregex!(&format!("({0}[0-9]+:shelve)", fancy_regex::escape(&self.textile.uid))))
+            .clone();
+        split_with_capture(&shelved_re, text)
+            .map(|piece| match self.shelf.get(piece).cloned() {
+                Some(shelved) => self.retrieve(&shelved),
+                None => {
+                    let piece = piece.replace(
+                        &format!("{0}:glyph:", self.textile.uid),
+                        "");
+                    let piece = self.retrieve_tags(&piece);
+                    self.retrieve_urls(&piece).into_owned()
+                }
+            })
+            .collect()
     }
 
     fn retrieve_urls<'a>(&mut self, text: &'a str) -> Cow<'a, str> {
@@ -1941,13 +1956,7 @@ impl Textile {
             state.glyphs(&text).into_owned()
         };
 
-        let text = state.retrieve(text);
-        let text = text.replace(
-            &format!("{0}:glyph:", &state.textile.uid),
-            "");
-
-        let text = state.retrieve_tags(&text);
-        let text = state.retrieve_urls(&text);
+        let text: Cow<str> = state.retrieve(&text).into();
 
         let text = match self.sanitizer_config {
             Some(ref configurator) =>
-- 
2.43.0


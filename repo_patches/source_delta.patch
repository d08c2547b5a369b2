From 15257bd3635ce8dc06cc570c78c49781aa08c852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:22 +0000
Subject: [PATCH 001/140] fix: drop characters XML 1.0 cannot represent when
 escaping text

---
 src/core/xml_utils.rs                         | 27 ++++++++++++-------
 src/generator/presentation_theme.rs           |  4 +--
 src/generator/props_xml.rs                    | 13 +--------
 src/generator/slide_content/comments.rs       |  6 +----
 .../slide_content/digital_signature.rs        |  6 +----
 src/generator/slide_content/embedded_fonts.rs |  6 +----
 src/generator/slide_content/print_settings.rs |  6 +----
 src/generator/slide_content/sections.rs       |  6 +----
 src/parts/coreprops.rs                        |  6 +----
 9 files changed, 26 insertions(+), 54 deletions(-)

diff --git a/src/core/xml_utils.rs b/src/core/xml_utils.rs
index f567516..7558d59 100644
--- a/src/core/xml_utils.rs
+++ b/src/core/xml_utils.rs
@@ -4,13 +4,23 @@
 
 use std::fmt::Write;
 
-/// Escape special XML characters in a single pass.
+/// Whether a byte may start a character that needs escaping or removal.
+fn needs_escape(b: u8) -> bool {
+    matches!(b, b'&' | b'<' | b'>' | b'"' | b'\'')
+        || (b < 0x20 && !matches!(b, b'\t' | b'\n' | b'\r'))
+        || b == 0xEF
+}
+
+/// Characters XML 1.0 cannot represent, not even as character references.
+fn is_illegal_xml_char(c: char) -> bool {
+    matches!(c, '\u{0}'..='\u{8}' | '\u{B}' | '\u{C}' | '\u{E}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}')
+}
+
+/// Escape special XML characters in a single pass, dropping the control
+/// characters that XML 1.0 cannot represent.
 pub fn escape_xml(s: &str) -> String {
     // Fast path: most strings need no escaping.
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
+    if !s.bytes().any(needs_escape) {
         return s.to_string();
     }
 
@@ -22,6 +32,7 @@ pub fn escape_xml(s: &str) -> String {
             '>' => out.push_str("&gt;"),
             '"' => out.push_str("&quot;"),
             '\'' => out.push_str("&apos;"),
+            c if is_illegal_xml_char(c) => {}
             _ => out.push(c),
         }
     }
@@ -30,10 +41,7 @@ pub fn escape_xml(s: &str) -> String {
 
 /// Append escaped XML text into an existing buffer (avoids intermediate String).
 pub fn append_escape_xml(buf: &mut String, s: &str) {
-    if !s
-        .bytes()
-        .any(|b| matches!(b, b'&' | b'<' | b'>' | b'"' | b'\''))
-    {
+    if !s.bytes().any(needs_escape) {
         buf.push_str(s);
         return;
     }
@@ -44,6 +52,7 @@ pub fn append_escape_xml(buf: &mut String, s: &str) {
             '>' => buf.push_str("&gt;"),
             '"' => buf.push_str("&quot;"),
             '\'' => buf.push_str("&apos;"),
+            c if is_illegal_xml_char(c) => {}
             _ => buf.push(c),
         }
     }
diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 1b1caff..8176115 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -309,9 +309,7 @@ fn normalize_hex(hex: &str) -> String {
 }
 
 fn escape_xml_attr(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('"', "&quot;")
-        .replace('<', "&lt;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 9b23ef4..746e4f0 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -43,18 +43,7 @@ pub fn create_core_props_xml(title: &str) -> String {
 
 /// Escape a string for use in XML text content / attribute values.
 fn xml_escape(s: &str) -> String {
-    let mut out = String::with_capacity(s.len());
-    for c in s.chars() {
-        match c {
-            '&' => out.push_str("&amp;"),
-            '<' => out.push_str("&lt;"),
-            '>' => out.push_str("&gt;"),
-            '"' => out.push_str("&quot;"),
-            '\'' => out.push_str("&apos;"),
-            _ => out.push(c),
-        }
-    }
-    out
+    crate::core::escape_xml(s)
 }
 
 /// Build the `<HeadingPairs>` and `<TitlesOfParts>` elements.
diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 7eef008..1b47c36 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -218,11 +218,7 @@ impl SlideComments {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index df533fd..bedf476 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -184,11 +184,7 @@ impl DigitalSignature {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index c3b7408..0695079 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -249,11 +249,7 @@ impl EmbeddedFontList {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/print_settings.rs b/src/generator/slide_content/print_settings.rs
index c19576d..081121a 100644
--- a/src/generator/slide_content/print_settings.rs
+++ b/src/generator/slide_content/print_settings.rs
@@ -232,11 +232,7 @@ impl PrintSettings {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0acbb0e..cc34795 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -177,11 +177,7 @@ fn generate_section_id(name: &str) -> String {
 }
 
 fn xml_escape(s: &str) -> String {
-    s.replace('&', "&amp;")
-        .replace('<', "&lt;")
-        .replace('>', "&gt;")
-        .replace('"', "&quot;")
-        .replace('\'', "&apos;")
+    crate::core::escape_xml(s)
 }
 
 #[cfg(test)]
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 76bf8ba..c2e8c6f 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -110,11 +110,7 @@ impl CorePropertiesPart {
     }
 
     fn escape_xml(s: &str) -> String {
-        s.replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;")
-            .replace('"', "&quot;")
-            .replace('\'', "&apos;")
+        crate::core::escape_xml(s)
     }
 }
 
-- 
2.43.0


From 8472c64d7c41676adbd7737b382e8249a64dbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:51 +0000
Subject: [PATCH 002/140] fix: escape the document title in docProps/core.xml

---
 src/generator/props_xml.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 746e4f0..93ef8ab 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -28,6 +28,7 @@ fn current_timestamp() -> String {
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
     let now = current_timestamp();
+    let title = xml_escape(title);
     format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/" xmlns:dcmitype="http://purl.org/dc/dcmitype/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
-- 
2.43.0


From 7178a4a827904907b5daf1f0b134e540ad1856f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:53 +0000
Subject: [PATCH 003/140] fix: escape custom bullet characters

---
 src/generator/slide_content/bullet.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index ccc976a..5448f30 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -34,7 +34,9 @@ impl BulletStyle {
             BulletStyle::LetterUpper => r#"<a:buAutoNum type="alphaUcPeriod"/>"#.to_string(),
             BulletStyle::RomanLower => r#"<a:buAutoNum type="romanLcPeriod"/>"#.to_string(),
             BulletStyle::RomanUpper => r#"<a:buAutoNum type="romanUcPeriod"/>"#.to_string(),
-            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, ch),
+            BulletStyle::Custom(ch) => {
+                format!(r#"<a:buChar char="{}"/>"#, crate::core::escape_xml(&ch.to_string()))
+            }
             BulletStyle::None => r#"<a:buNone/>"#.to_string(),
         }
     }
-- 
2.43.0


From 26756d8e127957eec8a829f413fb1dff0bc9b0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:54 +0000
Subject: [PATCH 004/140] fix: escape font family names in bullet run
 properties

---
 src/generator/layouts/common.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 6498314..5409cb8 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -83,6 +83,7 @@ impl ExtendedTextProps {
         }
         
         if let Some(ref font) = self.font_family {
+            let font = escape_xml(font);
             attrs.push_str(&format!(
                 r#"<a:latin typeface="{font}"/><a:cs typeface="{font}"/>"#
             ));
-- 
2.43.0


From 2c89c54ce2125ee451c39213c01773951d2ed394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:55 +0000
Subject: [PATCH 005/140] fix: declare a content type for every packaged image
 extension

---
 src/generator/package_xml.rs | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ea5360d..61d881c 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -26,25 +26,25 @@ const CONTENT_TYPES_HEADER: &str = r#"<?xml version="1.0" encoding="UTF-8" stand
 <Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>"#;
 
 fn append_image_content_type_defaults(xml: &mut String, media_exts: &[String]) {
-    let mut has_jpg = false;
-    let mut has_png = false;
-    let mut has_gif = false;
+    let mut seen: Vec<&str> = Vec::new();
     for ext in media_exts {
-        match ext.as_str() {
-            "jpg" | "jpeg" => has_jpg = true,
-            "png" => has_png = true,
-            "gif" => has_gif = true,
-            _ => {}
+        if seen.contains(&ext.as_str()) {
+            continue;
         }
-    }
-    if has_jpg {
-        xml.push_str(r#"<Default Extension="jpg" ContentType="image/jpeg"/>"#);
-    }
-    if has_png {
-        xml.push_str(r#"<Default Extension="png" ContentType="image/png"/>"#);
-    }
-    if has_gif {
-        xml.push_str(r#"<Default Extension="gif" ContentType="image/gif"/>"#);
+        seen.push(ext);
+        let content_type = match ext.as_str() {
+            "jpg" | "jpeg" => "image/jpeg".to_string(),
+            "tif" | "tiff" => "image/tiff".to_string(),
+            "svg" => "image/svg+xml".to_string(),
+            "emf" => "image/x-emf".to_string(),
+            "wmf" => "image/x-wmf".to_string(),
+            other => format!("image/{}", escape_xml(other)),
+        };
+        xml.push_str(&format!(
+            r#"<Default Extension="{}" ContentType="{}"/>"#,
+            escape_xml(ext),
+            content_type
+        ));
     }
 }
 
-- 
2.43.0


From f9e1d535adbd11cb40209206f33522f5fd6e5fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:57 +0000
Subject: [PATCH 006/140] fix: declare signature, font and ink content types in
 lazily written packages

---
 src/generator/builder.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index ccec2dc..748f81e 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -985,6 +985,7 @@ fn write_content_types_lazy<W: Write + Seek>(
 <Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>"#,
     );
     super::layout_parts::append_layout_content_type_overrides(&mut content_types, STANDARD_LAYOUT_COUNT);
+    content_types.push_str("\n</Types>");
 
     if has_digital_signature(settings) {
         append_digital_signature_content_type(&mut content_types);
@@ -995,8 +996,6 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
-    content_types.push_str("\n</Types>");
-
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
-- 
2.43.0


From cb243f89927c2c2291ede10eecf2497377d750b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:17 +0000
Subject: [PATCH 007/140] fix: place the embedded font list where the schema
 allows it

---
 src/generator/package_xml.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 61d881c..c8c4c08 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -376,8 +376,8 @@ pub fn create_presentation_xml_with_fonts(
     let mut xml = create_presentation_xml(title, slides, has_notes, has_handout);
     let font_xml = fonts.to_xml();
     if !font_xml.is_empty() {
-        // Insert <p:embeddedFontLst> before the closing </p:presentation>.
-        if let Some(pos) = xml.rfind("</p:presentation>") {
+        // The schema places <p:embeddedFontLst> right after <p:notesSz>.
+        if let Some(pos) = xml.find("<p:defaultTextStyle>") {
             xml.insert_str(pos, &font_xml);
         }
     }
-- 
2.43.0


From 6bf28ec603e8eb667f466296915c42d64d98b865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 008/140] fix: derive embedded font part names that are legal
 for any typeface

---
 src/generator/slide_content/embedded_fonts.rs | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 0695079..6df8213 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -124,11 +124,25 @@ impl EmbeddedFont {
         "application/x-fontdata"
     }
 
+    /// File name stem for the font part: spaces are dropped and every other
+    /// character that is not safe in a part name is replaced by its code point.
+    fn file_stem(&self) -> String {
+        let mut stem = String::with_capacity(self.typeface.len());
+        for c in self.typeface.chars() {
+            match c {
+                ' ' => {}
+                c if c.is_ascii_alphanumeric() || c == '-' => stem.push(c),
+                c => stem.push_str(&format!("_{:X}_", c as u32)),
+            }
+        }
+        stem
+    }
+
     /// Part name in the ZIP archive
     pub fn part_name(&self) -> String {
         format!(
             "ppt/fonts/{}-{}.fntdata",
-            self.typeface.replace(' ', ""),
+            self.file_stem(),
             self.style.xml_element()
         )
     }
@@ -137,7 +151,7 @@ impl EmbeddedFont {
     pub fn rel_target(&self) -> String {
         format!(
             "fonts/{}-{}.fntdata",
-            self.typeface.replace(' ', ""),
+            self.file_stem(),
             self.style.xml_element()
         )
     }
@@ -220,7 +234,7 @@ impl EmbeddedFontList {
             // Font descriptor (from first variant)
             if let Some(first) = variants.first() {
                 let panose_attr = first.panose.as_ref()
-                    .map(|p| format!(r#" panose="{}""#, p))
+                    .map(|p| format!(r#" panose="{}""#, xml_escape(p)))
                     .unwrap_or_default();
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
-- 
2.43.0


From 3cf8363074b6174a314f2ff998e212f47aa57b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:21 +0000
Subject: [PATCH 009/140] fix: escape the digital signature signing time

---
 src/generator/slide_content/digital_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index bedf476..3f187f4 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -170,7 +170,7 @@ impl DigitalSignature {
             self.hash_algorithm.uri(),
             self.commitment_type.uri(),
             self.commitment_type.label(),
-            date,
+            xml_escape(date),
         ));
         xml.push_str(r#"</Object>"#);
         xml.push_str(r#"</Signature>"#);
-- 
2.43.0


From f25d64e396b5e0daa8c4df1c7950927b64dc7ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:46 +0000
Subject: [PATCH 010/140] fix: relate the signature origin part to the
 signature it announces

---
 src/generator/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 748f81e..426b090 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1369,6 +1369,10 @@ fn write_digital_signature_parts<W: Write + Seek>(
     zip.start_file("_xmlsignatures/origin.sigs", *options)?;
     zip.write_all(signature.to_origin_xml().as_bytes())?;
 
+    zip.start_file("_xmlsignatures/_rels/origin.sigs.rels", *options)?;
+    zip.write_all(br#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships"><Relationship Id="rId1" Type="http://schemas.openxmlformats.org/package/2006/relationships/digital-signature/signature" Target="sig1.xml"/></Relationships>"#)?;
+
     zip.start_file("_xmlsignatures/sig1.xml", *options)?;
     zip.write_all(signature.to_signature_xml().as_bytes())?;
 
-- 
2.43.0


From 49a5793525711c83ae4ababac7493d496fb16e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:59 +0000
Subject: [PATCH 011/140] fix: number slide relationships over the images that
 are actually packaged

---
 src/generator/builder.rs           | 3 ++-
 src/generator/slide_xml/content.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 426b090..f58e57c 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1160,7 +1160,8 @@ fn write_slides<W: Write + Seek>(
                 let slide_num = i + 1;
 
                 let mut chart_rids = Vec::with_capacity(slide.charts.len());
-                let start_rid = slide_content_rel_start(slide.notes.is_some(), slide.images.len());
+                let image_count = slide.images.iter().filter(|i| i.get_bytes().is_some()).count();
+                let start_rid = slide_content_rel_start(slide.notes.is_some(), image_count);
                 for j in 0..slide.charts.len() {
                     push_chart_rid(&mut chart_rids, start_rid + j);
                 }
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d4aac14..42e2806 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -30,7 +30,8 @@ pub fn render_additional_content(
     // Render images (actual picture elements, not placeholders)
     let image_start_id = 20 + content.shapes.len();
     let image_rel_start = 2 + usize::from(content.notes.is_some());
-    for (i, image) in content.images.iter().enumerate() {
+    // Images without bytes have no media part, hence no relationship to embed.
+    for (i, image) in content.images.iter().filter(|im| im.get_bytes().is_some()).enumerate() {
         xml.push('\n');
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
-- 
2.43.0


From 7e1dfb5b2d30f595bc387f8ff98b457ff4b3bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 012/140] fix: express slide-show jump links by their action
 instead of a dangling relationship

---
 src/generator/builder.rs    | 1 +
 src/generator/hyperlinks.rs | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index f58e57c..da200a5 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -92,6 +92,7 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
         .shapes
         .iter()
         .filter_map(|s| s.hyperlink.as_ref())
+        .filter(|h| h.action.needs_relationship())
         .filter_map(|h| {
             h.r_id
                 .as_ref()
diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4b13be4..9aaba13 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -88,6 +88,12 @@ impl HyperlinkAction {
         )
     }
 
+    /// Whether this action needs a relationship target. Slide-show jumps are
+    /// expressed by the action attribute alone.
+    pub fn needs_relationship(&self) -> bool {
+        self.action_type().is_none()
+    }
+
     /// Get the action type for internal links
     pub fn action_type(&self) -> Option<&'static str> {
         match self {
@@ -161,6 +167,7 @@ impl Hyperlink {
 
 /// Generate hyperlink XML for text run
 pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
+    let r_id = if hyperlink.action.needs_relationship() { r_id } else { "" };
     let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
 
     if let Some(tooltip) = &hyperlink.tooltip {
@@ -182,6 +189,7 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
 /// Generate hyperlink XML for shape
 pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
+    let r_id = if hyperlink.action.needs_relationship() { r_id } else { "" };
     let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
 
     if let Some(tooltip) = &hyperlink.tooltip {
-- 
2.43.0


From e846d0eb1abd9a430ec2444c0b860e13af1979ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:06 +0000
Subject: [PATCH 013/140] fix: relate slide links to the slide part with the
 slide-jump action

---
 src/generator/hyperlinks.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 9aaba13..1fb9645 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -88,6 +88,14 @@ impl HyperlinkAction {
         )
     }
 
+    /// The `action` attribute of the click element, if this link has one.
+    fn click_action(&self) -> Option<&'static str> {
+        match self {
+            HyperlinkAction::Slide(_) => Some("ppaction://hlinksldjump"),
+            _ => self.action_type(),
+        }
+    }
+
     /// Whether this action needs a relationship target. Slide-show jumps are
     /// expressed by the action attribute alone.
     pub fn needs_relationship(&self) -> bool {
@@ -179,7 +187,7 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
     }
 
     // Add action for internal navigation
-    if let Some(action) = hyperlink.action.action_type() {
+    if let Some(action) = hyperlink.action.click_action() {
         xml.push_str(&format!(r#" action="{}""#, action));
     }
 
@@ -200,7 +208,7 @@ pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
         xml.push_str(r#" highlightClick="1""#);
     }
 
-    if let Some(action) = hyperlink.action.action_type() {
+    if let Some(action) = hyperlink.action.click_action() {
         xml.push_str(&format!(r#" action="{}""#, action));
     }
 
@@ -217,9 +225,15 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
         ""
     };
 
+    let kind = match hyperlink.action {
+        HyperlinkAction::Slide(_) => "slide",
+        _ => "hyperlink",
+    };
+
     format!(
-        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
+        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/{}" Target="{}"{}/>"#,
         r_id,
+        kind,
         escape_xml(&target),
         target_mode
     )
-- 
2.43.0


From 1ffd7203bf924267872810e90d631b19d2ebe92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:09 +0000
Subject: [PATCH 014/140] fix: write shape hyperlinks that carry no
 relationship id

---
 src/generator/builder.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index da200a5..72e30ea 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1,5 +1,6 @@
 //! PPTX builder - orchestrates ZIP creation and file writing
 
+use std::borrow::Cow;
 use std::io::{Write, Seek, Cursor};
 use zip::write::FileOptions;
 use zip::ZipWriter;
@@ -101,6 +102,22 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
         .collect()
 }
 
+/// Give every shape hyperlink without a relationship id one of its own, so that
+/// the link is written instead of being dropped.
+fn assign_hyperlink_rel_ids(slide: &SlideContent) -> Cow<'_, SlideContent> {
+    let missing = |h: &crate::generator::Hyperlink| h.r_id.is_none();
+    if !slide.shapes.iter().any(|s| s.hyperlink.as_ref().is_some_and(missing)) {
+        return Cow::Borrowed(slide);
+    }
+    let mut slide = slide.clone();
+    for (i, shape) in slide.shapes.iter_mut().enumerate() {
+        if let Some(h) = shape.hyperlink.as_mut().filter(|h| missing(h)) {
+            h.r_id = Some(format!("rIdHlink{}", i + 1));
+        }
+    }
+    Cow::Owned(slide)
+}
+
 fn set_notes_part_path(path: &mut String, notes_part_num: usize) {
     path.clear();
     path.push_str("ppt/notesSlides/notesSlide");
@@ -1041,6 +1058,7 @@ fn write_slide_packages_lazy<W: Write + Seek>(
         let Some(slide) = slides.generate_slide(i) else {
             continue;
         };
+        let slide = assign_hyperlink_rel_ids(&slide).into_owned();
         let slide_num = i + 1;
         let layout_number = resolve_layout_number(&slide, template);
         let images = slide_image_rel_targets(&slide, &media_registry);
@@ -1158,6 +1176,7 @@ fn write_slides<W: Write + Seek>(
             let mut notes_part_num = 0usize;
             let mut ink_part_num = 0usize;
             for (i, slide) in slides.iter().enumerate() {
+                let slide = &*assign_hyperlink_rel_ids(slide);
                 let slide_num = i + 1;
 
                 let mut chart_rids = Vec::with_capacity(slide.charts.len());
@@ -1227,6 +1246,7 @@ fn write_slide_relationships_extended<W: Write + Seek>(
             let mut zip_path = String::with_capacity(56);
             let mut ink_part_num = 0usize;
             for (i, slide) in slides.iter().enumerate() {
+                let slide = &*assign_hyperlink_rel_ids(slide);
                 let slide_num = i + 1;
                 let layout_number = resolve_layout_number(slide, template);
                 let images = slide_image_rel_targets(slide, &media_registry);
-- 
2.43.0


From b99c82a6adb69ac41b78506df7318b4bd6d1ef1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 015/140] fix: write charts in the structure and with the data
 the chart schema requires

---
 src/generator/charts/xml.rs | 315 +++++++++++++++++++-----------------
 1 file changed, 165 insertions(+), 150 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 6fe9bd1..708e734 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -109,45 +109,60 @@ fn chart_part_footer() -> &'static str {
 </c:chartSpace>"#
 }
 
+/// Spreadsheet column holding the values of series `idx` (series 0 is column B)
+fn series_column(idx: usize) -> String {
+    let mut n = idx + 2;
+    let mut letters = Vec::new();
+    while n > 0 {
+        letters.push((b'A' + ((n - 1) % 26) as u8) as char);
+        n = (n - 1) / 26;
+    }
+    letters.into_iter().rev().collect()
+}
+
 /// Generate series data XML
-fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
+fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
+    let column = series_column(idx);
     let mut xml = format!(
         r#"
 <c:ser>
 <c:idx val="{}"/>
 <c:order val="{}"/>
-<c:title>
 <c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
+<c:strRef>
+<c:f>Sheet1!${}$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
 </c:tx>
-</c:title>
 <c:dLbls>
 <c:showVal val="0"/>
-</c:dLbls>
+</c:dLbls>"#,
+        idx, idx, column, escape_xml(series_name)
+    );
+
+    xml.push_str(&generate_category_data(chart));
+
+    xml.push_str(&format!(
+        r#"
 <c:val>
 <c:numRef>
-<c:f>Sheet1!$B${}:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-        idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len()
-    );
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+        column, column, 1 + values.len(), values.len()
+    ));
 
-    for value in values {
+    for (i, value) in values.iter().enumerate() {
         xml.push_str(&format!(
             r#"
-<c:pt idx="0">
+<c:pt idx="{}">
 <c:v>{}</c:v>
 </c:pt>"#,
-            value
+            i, value
         ));
     }
 
@@ -162,27 +177,16 @@ fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &
     xml
 }
 
-/// Generate category axis XML
-fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
+/// Generate the category labels of one series
+fn generate_category_data(chart: &Chart) -> String {
     let mut xml = format!(
         r#"
-<c:catAx>
-<c:axId val="1"/>
-<c:scaling>
-<c:orientation val="minMax"/>
-</c:scaling>
-<c:delete val="0"/>
-<c:axPos val="{}"/>
-<c:majorGridlines/>
-<c:numFmt formatCode="General" sourceLinked="1"/>
-<c:tickLblPos val="low"/>
-<c:crossAx val="2"/>
-<c:crosses val="autoZero"/>
+<c:cat>
 <c:strRef>
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:strCache>
 <c:ptCount val="{}"/>"#,
-        ax_pos, 1 + chart.category_count(), chart.category_count()
+        1 + chart.category_count(), chart.category_count()
     );
 
     for (idx, cat) in chart.categories.iter().enumerate() {
@@ -199,18 +203,45 @@ fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
         r#"
 </c:strCache>
 </c:strRef>
-</c:catAx>"#
+</c:cat>"#
     );
 
     xml
 }
 
+/// References from a chart to its category and value axes
+const AXIS_IDS: &str = r#"
+<c:axId val="1"/>
+<c:axId val="2"/>
+"#;
+
+/// Generate category axis XML
+fn generate_category_axis(ax_pos: &str) -> String {
+    format!(
+        r#"
+<c:catAx>
+<c:axId val="1"/>
+<c:scaling>
+<c:orientation val="minMax"/>
+</c:scaling>
+<c:delete val="0"/>
+<c:axPos val="{}"/>
+<c:majorGridlines/>
+<c:numFmt formatCode="General" sourceLinked="1"/>
+<c:tickLblPos val="low"/>
+<c:crossAx val="2"/>
+<c:crosses val="autoZero"/>
+</c:catAx>"#,
+        ax_pos
+    )
+}
+
 /// Generate value axis XML
-fn generate_value_axis(ax_pos: &str) -> String {
+fn generate_value_axis(ax_pos: &str, id: usize, cross_id: usize) -> String {
     format!(
         r#"
 <c:valAx>
-<c:axId val="2"/>
+<c:axId val="{}"/>
 <c:scaling>
 <c:orientation val="minMax"/>
 </c:scaling>
@@ -219,10 +250,10 @@ fn generate_value_axis(ax_pos: &str) -> String {
 <c:majorGridlines/>
 <c:numFmt formatCode="General" sourceLinked="1"/>
 <c:tickLblPos val="low"/>
-<c:crossAx val="1"/>
+<c:crossAx val="{}"/>
 <c:crosses val="autoZero"/>
 </c:valAx>"#,
-        ax_pos
+        id, ax_pos, cross_id
     )
 }
 
@@ -230,17 +261,24 @@ fn generate_value_axis(ax_pos: &str) -> String {
 fn generate_bar_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:barChart>
-<c:barDir val="bar"/>
-<c:grouping val="clustered"/>"#);
+    let bar_dir = chart.chart_type.bar_direction().unwrap_or("col");
+    let grouping = chart.chart_type.grouping().unwrap_or("clustered");
+    xml.push_str(&format!(r#"<c:barChart>
+<c:barDir val="{}"/>
+<c:grouping val="{}"/>"#, bar_dir, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "l"));
-    xml.push_str(&generate_value_axis("b"));
+    if grouping != "clustered" {
+        xml.push_str("\n<c:overlap val=\"100\"/>");
+    }
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:barChart>");
+    let (cat_pos, val_pos) = if bar_dir == "bar" { ("l", "b") } else { ("b", "l") };
+    xml.push_str(&generate_category_axis(cat_pos));
+    xml.push_str(&generate_value_axis(val_pos, 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -250,16 +288,18 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
 fn generate_line_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:lineChart>
-<c:grouping val="lineMarkers"/>"#);
+    let grouping = chart.chart_type.grouping().unwrap_or("standard");
+    xml.push_str(&format!(r#"<c:lineChart>
+<c:grouping val="{}"/>"#, grouping));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:lineChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -279,31 +319,34 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
 <c:ser>
 <c:idx val="0"/>
 <c:order val="0"/>
-<c:title>
 <c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
+<c:strRef>
+<c:f>Sheet1!$B$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
 </c:tx>
-</c:title>
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
+</c:dLbls>"#,
+            escape_xml(&series.name)
+        ));
+
+        xml.push_str(&generate_category_data(chart));
+
+        xml.push_str(&format!(
+            r#"
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B$2:$B${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            escape_xml(&series.name),
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            1 + series.values.len(),
+            series.values.len()
         ));
 
         for (idx, value) in series.values.iter().enumerate() {
@@ -316,35 +359,11 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
             ));
         }
 
-        xml.push_str(&format!(
+        xml.push_str(
             r#"
 </c:numCache>
 </c:numRef>
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
-        ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
 </c:ser>"#
         );
     }
@@ -360,8 +379,7 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:doughnutChart>
-<c:varyColors val="1"/>
-<c:holeSize val="50"/>"#);
+<c:varyColors val="1"/>"#);
 
     // Doughnut chart uses first series only (like pie)
     if let Some(series) = chart.series.first() {
@@ -382,14 +400,22 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
+</c:dLbls>"#,
+            escape_xml(&series.name)
+        ));
+
+        xml.push_str(&generate_category_data(chart));
+
+        xml.push_str(&format!(
+            r#"
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B$2:$B${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            escape_xml(&series.name),
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            1 + series.values.len(),
+            series.values.len()
         ));
 
         for (idx, value) in series.values.iter().enumerate() {
@@ -402,39 +428,16 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
             ));
         }
 
-        xml.push_str(&format!(
+        xml.push_str(
             r#"
 </c:numCache>
 </c:numRef>
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
-        ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
 </c:ser>"#
         );
     }
 
+    xml.push_str("<c:holeSize val=\"50\"/>");
     xml.push_str("</c:doughnutChart>");
     xml.push_str(chart_part_footer());
 
@@ -453,9 +456,10 @@ fn generate_area_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:areaChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -477,7 +481,7 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:order val="{}"/>
 <c:tx>
 <c:strRef>
-<c:f>Sheet1!$B$1</c:f>
+<c:f>Sheet1!${}$1</c:f>
 <c:strCache>
 <c:ptCount val="1"/>
 <c:pt idx="0"><c:v>{}</c:v></c:pt>
@@ -488,8 +492,9 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:numRef>
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            idx, idx, series_column(idx), escape_xml(&series.name), 1 + series.values.len(), series.values.len()
         ));
 
         // X values (use index as X)
@@ -510,10 +515,11 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 </c:xVal>
 <c:yVal>
 <c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            series_column(idx), series_column(idx), 1 + series.values.len(), series.values.len()
         ));
 
         for (i, value) in series.values.iter().enumerate() {
@@ -535,9 +541,10 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
         );
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:scatterChart>");
+    xml.push_str(&generate_value_axis("b", 1, 2));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -548,8 +555,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:bubbleChart>
-<c:varyColors val="0"/>
-<c:bubbleScale val="100"/>"#);
+<c:varyColors val="0"/>"#);
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&format!(
@@ -559,7 +565,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:order val="{}"/>
 <c:tx>
 <c:strRef>
-<c:f>Sheet1!$B$1</c:f>
+<c:f>Sheet1!${}$1</c:f>
 <c:strCache>
 <c:ptCount val="1"/>
 <c:pt idx="0"><c:v>{}</c:v></c:pt>
@@ -570,8 +576,9 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:numRef>
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            idx, idx, series_column(idx), escape_xml(&series.name), 1 + series.values.len(), series.values.len()
         ));
 
         for (i, _) in series.values.iter().enumerate() {
@@ -591,10 +598,11 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 </c:xVal>
 <c:yVal>
 <c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            series_column(idx), series_column(idx), 1 + series.values.len(), series.values.len()
         ));
 
         for (i, value) in series.values.iter().enumerate() {
@@ -616,8 +624,9 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:numRef>
 <c:f>Sheet1!$C$2:$C${}</c:f>
 <c:numCache>
-<c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+<c:formatCode>General</c:formatCode>
+<c:ptCount val="{}"/>"#,
+            1 + series.values.len(), series.values.len()
         ));
 
         // Bubble sizes (use values as sizes)
@@ -640,9 +649,11 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
         );
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str("<c:bubbleScale val=\"100\"/>");
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:bubbleChart>");
+    xml.push_str(&generate_value_axis("b", 1, 2));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -660,9 +671,10 @@ fn generate_radar_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:radarChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -679,9 +691,10 @@ fn generate_stock_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:stockChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
@@ -701,8 +714,7 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:barChart>");
 
     // Second half as lines
@@ -714,9 +726,12 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
             xml.push_str(&generate_series_data(chart, mid + idx, &series.name, &series.values));
         }
 
+        xml.push_str(AXIS_IDS);
         xml.push_str("</c:lineChart>");
     }
 
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis("l", 2, 1));
     xml.push_str(chart_part_footer());
 
     xml
-- 
2.43.0


From 8f14f0c1eb925fdaa270a835fb7a7a1341020098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:47 +0000
Subject: [PATCH 016/140] fix: write connector labels as text boxes, which
 connectors cannot contain

---
 src/generator/connectors.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/generator/connectors.rs b/src/generator/connectors.rs
index eefb63c..2396b1c 100644
--- a/src/generator/connectors.rs
+++ b/src/generator/connectors.rs
@@ -349,6 +349,9 @@ impl Connector {
     }
 }
 
+/// Distance between a connector's id and the id of the text box with its label
+const LABEL_ID_OFFSET: usize = 1_000_000;
+
 /// Generate connector XML for a slide
 pub fn generate_connector_xml(connector: &Connector, shape_id: usize) -> String {
     let x = connector.start_x.min(connector.end_x);
@@ -435,12 +438,31 @@ pub fn generate_connector_xml(connector: &Connector, shape_id: usize) -> String
 </a:ln>
 </p:spPr>"#);
 
-    // Add label if present
+    xml.push_str(r#"
+</p:cxnSp>"#);
+
+    // A connector cannot hold text: the label is a text box laid over it
     if let Some(label) = &connector.label {
         xml.push_str(&format!(
             r#"
+<p:sp>
+<p:nvSpPr>
+<p:cNvPr id="{}" name="Connector Label {}"/>
+<p:cNvSpPr txBox="1"/>
+<p:nvPr/>
+</p:nvSpPr>
+<p:spPr>
+<a:xfrm>
+<a:off x="{}" y="{}"/>
+<a:ext cx="{}" cy="{}"/>
+</a:xfrm>
+<a:prstGeom prst="rect">
+<a:avLst/>
+</a:prstGeom>
+<a:noFill/>
+</p:spPr>
 <p:txBody>
-<a:bodyPr/>
+<a:bodyPr anchor="ctr"/>
 <a:lstStyle/>
 <a:p>
 <a:r>
@@ -448,14 +470,14 @@ pub fn generate_connector_xml(connector: &Connector, shape_id: usize) -> String
 <a:t>{}</a:t>
 </a:r>
 </a:p>
-</p:txBody>"#,
+</p:txBody>
+</p:sp>"#,
+            LABEL_ID_OFFSET + shape_id, shape_id,
+            x, y, cx, cy,
             escape_xml(label)
         ));
     }
 
-    xml.push_str(r#"
-</p:cxnSp>"#);
-
     xml
 }
 
-- 
2.43.0


From 77df7cd74fe9885be022cea76ff7b83fa60bc658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 017/140] fix: use preset geometries that exist for every shape
 type

---
 src/generator/shapes.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index 01c98d9..759504d 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -189,12 +189,12 @@ impl ShapeType {
             ShapeType::FlowChartDocument => "flowChartDocument",
             ShapeType::FlowChartPredefinedProcess => "flowChartPredefinedProcess",
             ShapeType::FlowChartInternalStorage => "flowChartInternalStorage",
-            ShapeType::FlowChartData => "flowChartData",
+            ShapeType::FlowChartData => "flowChartInputOutput",
             ShapeType::FlowChartInputOutput => "flowChartInputOutput",
             ShapeType::FlowChartManualInput => "flowChartManualInput",
             ShapeType::FlowChartManualOperation => "flowChartManualOperation",
             ShapeType::FlowChartConnector => "flowChartConnector",
-            ShapeType::FlowChartOffPageConnector => "flowChartOffPageConnector",
+            ShapeType::FlowChartOffPageConnector => "flowChartOffpageConnector",
             ShapeType::FlowChartPunchedCard => "flowChartPunchedCard",
             ShapeType::FlowChartPunchedTape => "flowChartPunchedTape",
             ShapeType::FlowChartSummingJunction => "flowChartSummingJunction",
@@ -219,7 +219,7 @@ impl ShapeType {
             ShapeType::CurvedUpDownArrow => "curvedUpDownArrow",
             ShapeType::StripedRightArrow => "stripedRightArrow",
             ShapeType::NotchedRightArrow => "notchedRightArrow",
-            ShapeType::PentagonArrow => "pentArrow",
+            ShapeType::PentagonArrow => "homePlate",
             ShapeType::ChevronArrow => "chevron",
             ShapeType::RightArrowCallout => "rightArrowCallout",
             ShapeType::LeftArrowCallout => "leftArrowCallout",
@@ -234,11 +234,11 @@ impl ShapeType {
             ShapeType::Parallelogram => "parallelogram",
             ShapeType::Trapezoid => "trapezoid",
             ShapeType::NonIsoscelesTrapezoid => "nonIsoscelesTrapezoid",
-            ShapeType::IsoscelesTrapezoid => "isoTrapezoid",
+            ShapeType::IsoscelesTrapezoid => "trapezoid",
             ShapeType::Cube => "cube",
             ShapeType::Can => "can",
-            ShapeType::Cone => "cone",
-            ShapeType::Cylinder => "cylinder",
+            ShapeType::Cone => "triangle",
+            ShapeType::Cylinder => "can",
             ShapeType::Bevel => "bevel",
             ShapeType::Donut => "donut",
             ShapeType::NoSmoking => "noSmoking",
@@ -250,7 +250,7 @@ impl ShapeType {
             ShapeType::Pie => "pie",
             ShapeType::Teardrop => "teardrop",
             ShapeType::Plaque => "plaque",
-            ShapeType::MusicNote => "musicNote",
+            ShapeType::MusicNote => "actionButtonSound",
             ShapeType::PictureFrame => "frame",
             
             ShapeType::Star10 => "star10",
@@ -258,11 +258,11 @@ impl ShapeType {
             ShapeType::Star16 => "star16",
             ShapeType::Star24 => "star24",
             ShapeType::Star32 => "star32",
-            ShapeType::Seal => "seal",
-            ShapeType::Seal4 => "seal4",
-            ShapeType::Seal8 => "seal8",
-            ShapeType::Seal16 => "seal16",
-            ShapeType::Seal32 => "seal32",
+            ShapeType::Seal => "irregularSeal1",
+            ShapeType::Seal4 => "star4",
+            ShapeType::Seal8 => "star8",
+            ShapeType::Seal16 => "star16",
+            ShapeType::Seal32 => "star32",
             ShapeType::ActionButtonBlank => "actionButtonBlank",
             ShapeType::ActionButtonHome => "actionButtonHome",
             ShapeType::ActionButtonHelp => "actionButtonHelp",
-- 
2.43.0


From 34d46f79b31c6ffb8d00e5efba2119c0e8ff6afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:49 +0000
Subject: [PATCH 018/140] fix: write the reveal transition with the element the
 schema has for it

---
 src/generator/slide_content/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/transition.rs b/src/generator/slide_content/transition.rs
index 4039709..5db0ffa 100644
--- a/src/generator/slide_content/transition.rs
+++ b/src/generator/slide_content/transition.rs
@@ -27,7 +27,7 @@ impl TransitionType {
             TransitionType::Push => r#"<p:transition><p:push dir="r"/></p:transition>"#.to_string(), // Default right
             TransitionType::Wipe => r#"<p:transition><p:wipe dir="r"/></p:transition>"#.to_string(), // Default right
             TransitionType::Split => r#"<p:transition><p:split dir="out" orient="horz"/></p:transition>"#.to_string(),
-            TransitionType::Reveal => r#"<p:transition><p:reveal dir="r"/></p:transition>"#.to_string(),
+            TransitionType::Reveal => r#"<p:transition><p:pull dir="r"/></p:transition>"#.to_string(),
             TransitionType::Cover => r#"<p:transition><p:cover dir="r"/></p:transition>"#.to_string(),
             TransitionType::Zoom => r#"<p:transition><p:zoom dir="in"/></p:transition>"#.to_string(),
         }
-- 
2.43.0


From 5d6d818775cdbac72068e20fbf4f158a55855b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:22 +0000
Subject: [PATCH 019/140] fix: list image effects in schema order, each once

---
 src/generator/image_effects.rs | 12 +++++++++++-
 src/generator/images.rs        |  2 +-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generator/image_effects.rs b/src/generator/image_effects.rs
index d55e624..3f2210a 100644
--- a/src/generator/image_effects.rs
+++ b/src/generator/image_effects.rs
@@ -10,8 +10,18 @@ pub fn generate_effect_list_xml(effects: &[ImageEffect]) -> String {
         return String::new();
     }
 
+    // CT_EffectList is a sequence that holds each effect at most once
+    const SCHEMA_ORDER: [ImageEffect; 6] = [
+        ImageEffect::Blur,
+        ImageEffect::Glow,
+        ImageEffect::InnerShadow,
+        ImageEffect::Shadow,
+        ImageEffect::Reflection,
+        ImageEffect::SoftEdges,
+    ];
+
     let mut xml = String::from("<a:effectLst>");
-    for effect in effects {
+    for effect in SCHEMA_ORDER.iter().filter(|e| effects.contains(e)) {
         xml.push_str(&generate_effect_xml(effect));
     }
     xml.push_str("</a:effectLst>");
diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1059aca..83d7e77 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -53,7 +53,7 @@ impl Crop {
 }
 
 /// Image effects
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq, Eq)]
 pub enum ImageEffect {
     /// Outer shadow
     Shadow,
-- 
2.43.0


From d4d2152d54136e509d78a511b7c176b07859ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:23 +0000
Subject: [PATCH 020/140] fix: list embedded font styles in schema order

---
 src/generator/slide_content/embedded_fonts.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 6df8213..16c82e3 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -224,10 +224,12 @@ impl EmbeddedFontList {
         }
 
         for typeface in &seen_typefaces {
-            let variants: Vec<&EmbeddedFont> = self.fonts
+            let mut variants: Vec<&EmbeddedFont> = self.fonts
                 .iter()
                 .filter(|f| &f.typeface == typeface)
                 .collect();
+            // The schema orders the styles: regular, bold, italic, boldItalic
+            variants.sort_by_key(|f| (f.style.is_italic(), f.style.is_bold()));
 
             xml.push_str("<p:embeddedFont>");
 
-- 
2.43.0


From 8bbb89ef70b905a9f7b814051590987de4750462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:24 +0000
Subject: [PATCH 021/140] fix: give code blocks without text an empty paragraph

---
 src/cli/syntax.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/syntax.rs b/src/cli/syntax.rs
index 3079e73..b7f49ff 100644
--- a/src/cli/syntax.rs
+++ b/src/cli/syntax.rs
@@ -122,6 +122,11 @@ pub fn generate_highlighted_code_xml(code: &str, language: &str) -> String {
         xml.push_str("</a:p>");
     }
 
+    if xml.is_empty() {
+        // A text body holds at least one paragraph
+        xml.push_str("<a:p><a:pPr algn=\"l\"/></a:p>");
+    }
+
     xml
 }
 
-- 
2.43.0


From 7587656580520adb86e5c53919ad811dfbba83ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:20 +0000
Subject: [PATCH 022/140] fix: use existing preset geometries for the two-way
 curved arrows

---
 src/generator/shapes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index 759504d..f7eb01d 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -215,8 +215,8 @@ impl ShapeType {
             ShapeType::CurvedLeftArrow => "curvedLeftArrow",
             ShapeType::CurvedUpArrow => "curvedUpArrow",
             ShapeType::CurvedDownArrow => "curvedDownArrow",
-            ShapeType::CurvedLeftRightArrow => "curvedLeftRightArrow",
-            ShapeType::CurvedUpDownArrow => "curvedUpDownArrow",
+            ShapeType::CurvedLeftRightArrow => "leftRightArrow",
+            ShapeType::CurvedUpDownArrow => "upDownArrow",
             ShapeType::StripedRightArrow => "stripedRightArrow",
             ShapeType::NotchedRightArrow => "notchedRightArrow",
             ShapeType::PentagonArrow => "homePlate",
-- 
2.43.0


From 892373825c8ce62652b7fea9bc1b47cc8d082519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:21 +0000
Subject: [PATCH 023/140] fix: bind the prefix the ink alternate content
 requires

---
 src/generator/slide_xml/content.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 42e2806..f001238 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -82,7 +82,7 @@ pub fn render_additional_content(
         && content.ink_annotations.is_some() {
             xml.push('\n');
             xml.push_str(&format!(
-                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
+                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006" xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main"><mc:Choice Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
                 rel_id
             ));
         }
-- 
2.43.0


From 33929ecd2582303de7dcf929ba553940c4214679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 024/140] fix: write centre and middle alignment of table
 cells, which is not the default

---
 src/generator/table/format.rs | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/generator/table/format.rs b/src/generator/table/format.rs
index ccadbd4..d6ccccb 100644
--- a/src/generator/table/format.rs
+++ b/src/generator/table/format.rs
@@ -1,6 +1,6 @@
 //! Shared table cell formatting and XML generation
 
-use super::cell::{CellAlign, CellVAlign, TableCell};
+use super::cell::TableCell;
 use crate::core::escape_xml;
 use crate::generator::slide_content::table_merge::CellMergeState;
 use crate::generator::text::{color_to_xml, TextFormat};
@@ -71,11 +71,7 @@ pub fn run_properties_xml(cell: &TableCell) -> String {
 
 /// Paragraph properties element for `<a:p>`.
 pub fn paragraph_props_xml(cell: &TableCell) -> String {
-    if cell.align == CellAlign::Center {
-        String::new()
-    } else {
-        format!(r#"<a:pPr algn="{}"/>"#, cell.align.as_str())
-    }
+    format!(r#"<a:pPr algn="{}"/>"#, cell.align.as_str())
 }
 
 /// Body properties for `<a:bodyPr>` inside table cells.
@@ -86,19 +82,13 @@ pub fn body_props_xml(_cell: &TableCell) -> String {
 
 /// Cell properties (`<a:tcPr>`) including background and vertical alignment.
 pub fn tc_properties_xml(cell: &TableCell) -> String {
-    let anchor = if cell.valign == CellVAlign::Middle {
-        String::new()
-    } else {
-        format!(r#" anchor="{}""#, cell.valign.as_str())
-    };
+    let anchor = format!(r#" anchor="{}""#, cell.valign.as_str());
 
     if let Some(ref background) = cell.background_color {
         format!(
             r#"<a:tcPr{anchor}>{}</a:tcPr>"#,
             color_to_xml(background)
         )
-    } else if anchor.is_empty() {
-        "<a:tcPr/>".to_string()
     } else {
         format!(r#"<a:tcPr{anchor}/>"#)
     }
-- 
2.43.0


From 03719a50bd10eb275ca2208e1c92559f19426494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:28 +0000
Subject: [PATCH 025/140] fix: mark cells merged in both directions in both
 directions

---
 src/generator/table/format.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/table/format.rs b/src/generator/table/format.rs
index d6ccccb..960daf0 100644
--- a/src/generator/table/format.rs
+++ b/src/generator/table/format.rs
@@ -33,6 +33,10 @@ impl TableCell {
 
 /// Merge attributes for `<a:tc>` from cell state.
 pub fn merge_attrs_from_cell(cell: &TableCell) -> String {
+    if cell.h_merge && cell.v_merge {
+        let (h, v) = (CellMergeState::HMerge, CellMergeState::VMerge);
+        return h.to_xml_attrs() + &v.to_xml_attrs();
+    }
     if cell.h_merge {
         return CellMergeState::HMerge.to_xml_attrs();
     }
-- 
2.43.0


From 5798921877656c562510fe57273491e1c26c7515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:29 +0000
Subject: [PATCH 026/140] fix: honour the content underline setting

---
 src/generator/slide_xml/layouts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 95c0224..1feb0fd 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -242,7 +242,7 @@ pub fn create_title_and_big_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
@@ -325,7 +325,7 @@ pub fn create_two_column_slide(
         content_size,
         content.content_bold,
         content.content_italic,
-        false,
+        content.content_underline,
         content.content_color.as_deref(),
     );
 
@@ -504,7 +504,7 @@ pub fn create_title_and_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
-- 
2.43.0


From ef47a305161081ef147d83623a15e6c2704600b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 027/140] fix: write run properties of code shapes in schema
 order

---
 src/generator/shapes_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 34ecae7..d2aa263 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -350,7 +350,7 @@ fn generate_text_xml_with_autofit(text: &Option<String>, width: u32, height: u32
                         r#"<a:p>
 <a:pPr algn="l"/>
 <a:r>
-<a:rPr lang="en-US" sz="1200" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill></a:rPr>
+<a:rPr lang="en-US" sz="1200" dirty="0"><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr>
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
-- 
2.43.0


From e378cce32bee64ed65049b879d824330c9af7ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 028/140] fix: render a slide's table in every layout

---
 src/generator/slide_xml/content.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index f001238..a65f29f 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -1,7 +1,7 @@
 //! Additional content rendering (shapes, images, code blocks, connectors)
 
 use crate::generator::shapes_xml::generate_shape_xml;
-use crate::generator::slide_content::SlideContent;
+use crate::generator::slide_content::{SlideContent, SlideLayout};
 
 /// Render additional content elements (shapes, images, code blocks, connectors, charts, ink)
 pub fn render_additional_content(
@@ -20,6 +20,13 @@ pub fn render_additional_content(
         xml.reserve(extra_elements * 512);
     }
 
+    // The title-and-content layout places the table itself, in its content area
+    if let Some(table) = &content.table
+        && content.layout != SlideLayout::TitleAndContent {
+            xml.push('\n');
+            xml.push_str(&crate::generator::table::generate_table_xml(table, 5));
+        }
+
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
     for (i, shape) in content.shapes.iter().enumerate() {
         xml.push('\n');
-- 
2.43.0


From 65861feca44d21a1a69aa9114cfc4ab8d2c4c462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 029/140] fix: round crop fractions instead of truncating them

---
 src/generator/image_effects.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generator/image_effects.rs b/src/generator/image_effects.rs
index 3f2210a..2fe8500 100644
--- a/src/generator/image_effects.rs
+++ b/src/generator/image_effects.rs
@@ -52,10 +52,10 @@ pub fn generate_effect_xml(effect: &ImageEffect) -> String {
 pub fn generate_blip_fill_xml(rel_id: &str, crop: Option<&Crop>) -> String {
     match crop {
         Some(crop) => {
-            let l = (crop.left * 100_000.0) as u32;
-            let t = (crop.top * 100_000.0) as u32;
-            let r = (crop.right * 100_000.0) as u32;
-            let b = (crop.bottom * 100_000.0) as u32;
+            let l = (crop.left * 100_000.0).round() as u32;
+            let t = (crop.top * 100_000.0).round() as u32;
+            let r = (crop.right * 100_000.0).round() as u32;
+            let b = (crop.bottom * 100_000.0).round() as u32;
             let mut attrs = String::new();
             for (name, value) in [("l", l), ("t", t), ("r", r), ("b", b)] {
                 if value > 0 {
-- 
2.43.0


From cc079c66e9c6baec2b740a20c07bb3add3015fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 030/140] fix: percent-encode the subject of mail links

---
 src/generator/hyperlinks.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 1fb9645..d39bf66 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -72,7 +72,7 @@ impl HyperlinkAction {
             HyperlinkAction::Email { address, subject } => {
                 let mut mailto = format!("mailto:{}", address);
                 if let Some(subj) = subject {
-                    mailto.push_str(&format!("?subject={}", subj));
+                    mailto.push_str(&format!("?subject={}", percent_encode(subj)));
                 }
                 mailto
             }
@@ -115,6 +115,19 @@ impl HyperlinkAction {
     }
 }
 
+/// Percent-encode a URI query value
+fn percent_encode(value: &str) -> String {
+    let mut encoded = String::with_capacity(value.len());
+    for byte in value.bytes() {
+        if byte.is_ascii_alphanumeric() || b"-._~".contains(&byte) {
+            encoded.push(byte as char);
+        } else {
+            encoded.push_str(&format!("%{byte:02X}"));
+        }
+    }
+    encoded
+}
+
 /// Hyperlink definition
 #[derive(Clone, Debug)]
 pub struct Hyperlink {
-- 
2.43.0


From fadbb3cd0e2666c0f97aabca263b0384a87b2c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:33 +0000
Subject: [PATCH 031/140] fix: read slides in the order of the presentation's
 slide list

---
 src/oxml/presentation.rs | 55 ++++++++++++++++++++++++++++++++--------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 26a784d..3fa8342 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -160,20 +160,22 @@ impl PresentationReader {
 
                 for rel in root.find_all("Relationship") {
                     let rel_type = rel.attr("Type").unwrap_or("");
-                    if rel_type.contains("/slide")
-                        && !rel_type.contains("Layout")
-                        && !rel_type.contains("Master")
+                    if rel_type.ends_with("/slide")
                         && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target")) {
-                            let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                                stripped.to_string()
-                            } else {
-                                format!("ppt/{target}")
-                            };
-                            slide_rels.push((id.to_string(), full_path));
+                            slide_rels.push((id.to_string(), resolve_target(target)));
                         }
                 }
 
-                // Sort by relationship ID to maintain slide order
+                // The slide list of presentation.xml decides the order
+                if let Some(order) = self.slide_order() {
+                    slide_rels.retain(|(id, _)| order.contains(id));
+                    slide_rels.sort_by_key(|(id, _)| order.iter().position(|o| o == id));
+                    self.slide_paths = slide_rels.into_iter().map(|(_, path)| path).collect();
+                    self.info.slide_count = self.slide_paths.len();
+                    return Ok(());
+                }
+
+                // Without one, sort by relationship ID
                 slide_rels.sort_by(|a, b| {
                     let num_a: u32 = a.0.trim_start_matches("rId").parse().unwrap_or(0);
                     let num_b: u32 = b.0.trim_start_matches("rId").parse().unwrap_or(0);
@@ -201,6 +203,39 @@ impl PresentationReader {
         self.info.slide_count = self.slide_paths.len();
         Ok(())
     }
+
+    /// Relationship IDs of the slides in presentation order, if presentation.xml lists any
+    fn slide_order(&self) -> Option<Vec<String>> {
+        let xml = self.package.get_part("ppt/presentation.xml")?;
+        let root = XmlParser::parse_str(&String::from_utf8_lossy(xml)).ok()?;
+        let list = root.find("sldIdLst")?;
+        let ids: Vec<String> = list
+            .find_all("sldId")
+            .into_iter()
+            .filter_map(|s| {
+                s.attributes
+                    .iter()
+                    .find(|(name, _)| name.ends_with(":id"))
+                    .map(|(_, value)| value.clone())
+            })
+            .collect();
+        if ids.is_empty() { None } else { Some(ids) }
+    }
+}
+
+/// Resolve a relationship target of presentation.xml to a part path
+fn resolve_target(target: &str) -> String {
+    let mut segments: Vec<&str> = if target.starts_with('/') { vec![] } else { vec!["ppt"] };
+    for segment in target.split('/') {
+        match segment {
+            "" | "." => {}
+            ".." => {
+                segments.pop();
+            }
+            s => segments.push(s),
+        }
+    }
+    segments.join("/")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3b057dc834d92af81df8ff32298849956484e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:34 +0000
Subject: [PATCH 032/140] fix: keep text that consists of whitespace when
 parsing XML

---
 src/oxml/xmlchemy.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 0404cb8..76b874a 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -169,7 +169,11 @@ impl XmlParser {
                     stack.push(element);
                 }
                 Ok(XmlEvent::EndElement { .. }) => {
-                    if let Some(element) = stack.pop() {
+                    if let Some(mut element) = stack.pop() {
+                        // Whitespace between child elements is only indentation
+                        if !element.children.is_empty() && element.text.trim().is_empty() {
+                            element.text.clear();
+                        }
                         if let Some(parent) = stack.last_mut() {
                             parent.add_child(element);
                         } else {
@@ -177,7 +181,7 @@ impl XmlParser {
                         }
                     }
                 }
-                Ok(XmlEvent::Characters(text)) => {
+                Ok(XmlEvent::Characters(text)) | Ok(XmlEvent::Whitespace(text)) => {
                     if let Some(current) = stack.last_mut() {
                         current.text.push_str(&text);
                     }
-- 
2.43.0


From 14ca33484db26701274bccbed3deb291d64e781e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:35 +0000
Subject: [PATCH 033/140] fix: read all runs and paragraphs of table cells

---
 src/oxml/slide.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index b139c0c..ce0eb2a 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -347,8 +347,14 @@ impl SlideParser {
             let mut row = Vec::new();
             for tc in tr.find_all("tc") {
                 let text = tc
-                    .find_descendant("t")
-                    .map(|t| t.text_content())
+                    .find("txBody")
+                    .map(|body| {
+                        Self::parse_text_body(body)
+                            .iter()
+                            .map(|p| p.text())
+                            .collect::<Vec<_>>()
+                            .join("\n")
+                    })
                     .unwrap_or_default();
 
                 let row_span = tc.attr("rowSpan").and_then(|v| v.parse().ok()).unwrap_or(1);
-- 
2.43.0


From 3fb052133c9e44b8ada935c22e09b1528213a841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:37 +0000
Subject: [PATCH 034/140] fix: read line breaks, fields and blank paragraphs of
 text bodies

---
 src/oxml/slide.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index ce0eb2a..850a3f4 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -259,7 +259,13 @@ impl SlideParser {
             }
 
             // Parse text runs
-            for r in p.find_all("r") {
+            for r in &p.children {
+                if r.is("br") {
+                    para.runs.push(TextRun::new("\n"));
+                }
+                if !r.is("r") && !r.is("fld") {
+                    continue;
+                }
                 let text = r.find("t").map(|t| t.text_content()).unwrap_or_default();
                 if text.is_empty() {
                     continue;
@@ -290,9 +296,7 @@ impl SlideParser {
                 para.runs.push(run);
             }
 
-            if !para.runs.is_empty() {
-                paragraphs.push(para);
-            }
+            paragraphs.push(para);
         }
 
         paragraphs
-- 
2.43.0


From 04c00a2558c626b6868b0a622e052b9ad72989a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:38 +0000
Subject: [PATCH 035/140] fix: read underline none as not underlined and the
 fill of the text rather than its outline

---
 src/oxml/slide.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index 850a3f4..b6fe3f1 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -283,11 +283,11 @@ impl SlideParser {
                         .attr("i")
                         .map(|v| v == "1" || v == "true")
                         .unwrap_or(false);
-                    run.underline = rpr.attr("u").is_some();
+                    run.underline = rpr.attr("u").is_some_and(|v| v != "none");
                     run.font_size = rpr.attr("sz").and_then(|v| v.parse().ok());
 
                     // Get color from solidFill/srgbClr
-                    if let Some(solid_fill) = rpr.find_descendant("solidFill")
+                    if let Some(solid_fill) = rpr.find("solidFill")
                         && let Some(srgb) = solid_fill.find("srgbClr") {
                             run.color = srgb.attr("val").map(|s| s.to_string());
                         }
-- 
2.43.0


From 033c83968f26a986ac9a979d2e8349babe073424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 036/140] fix: do not take subtitles and other placeholders for
 the title

---
 src/oxml/slide.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index b6fe3f1..d977a0b 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -186,7 +186,7 @@ impl SlideParser {
             for sp in sp_tree.find_all("sp") {
                 if let Some(mut shape) = Self::parse_shape(sp) {
                     // Check if this is title or body
-                    if Self::is_title_shape(sp) {
+                    if slide.title.is_none() && Self::is_title_shape(sp) {
                         shape.is_title = true;
                         slide.title = Some(shape.text());
                     } else if Self::is_body_shape(sp) {
@@ -307,9 +307,7 @@ impl SlideParser {
         if let Some(nv_pr) = sp.find_descendant("nvPr")
             && let Some(ph) = nv_pr.find("ph") {
                 let ph_type = ph.attr("type").unwrap_or("");
-                if ph_type == "title" || ph_type == "ctrTitle" {
-                    return true;
-                }
+                return ph_type == "title" || ph_type == "ctrTitle";
             }
         // Also check shape name for textbox-based titles
         if let Some(cnv_pr) = sp.find_descendant("cNvPr")
@@ -327,9 +325,7 @@ impl SlideParser {
         if let Some(nv_pr) = sp.find_descendant("nvPr")
             && let Some(ph) = nv_pr.find("ph") {
                 let ph_type = ph.attr("type").unwrap_or("body");
-                if ph_type == "body" || ph_type.is_empty() {
-                    return true;
-                }
+                return matches!(ph_type, "body" | "subTitle" | "obj" | "");
             }
         // Also check shape name for textbox-based content
         if let Some(cnv_pr) = sp.find_descendant("cNvPr")
-- 
2.43.0


From 776efac67879a937e9899627b114780673eca49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:04 +0000
Subject: [PATCH 037/140] fix: extract the text of tables, and no text twice

---
 src/oxml/slide.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index d977a0b..458d7a1 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -155,12 +155,17 @@ impl ParsedSlide {
             texts.push(title.clone());
         }
         texts.extend(self.body_text.clone());
-        for shape in &self.shapes {
+        for shape in self.shapes.iter().filter(|s| !s.is_title && !s.is_body) {
             let text = shape.text();
             if !text.is_empty() {
                 texts.push(text);
             }
         }
+        for cell in self.tables.iter().flat_map(|t| &t.rows).flatten() {
+            if !cell.text.is_empty() {
+                texts.push(cell.text.clone());
+            }
+        }
         texts
     }
 }
-- 
2.43.0


From e77f98b7775ac6fd429336ebd3f68d61bf1b388f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 038/140] fix: import every shape type the library can write

---
 src/import/mod.rs | 104 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 103 insertions(+), 1 deletion(-)

diff --git a/src/import/mod.rs b/src/import/mod.rs
index bb9e862..dffef0b 100644
--- a/src/import/mod.rs
+++ b/src/import/mod.rs
@@ -88,8 +88,110 @@ fn map_shape_type(type_name: &Option<String>) -> ShapeType {
             "pentagon" => ShapeType::Pentagon,
             "hexagon" => ShapeType::Hexagon,
             "octagon" => ShapeType::Octagon,
-            "star5" => ShapeType::Star5,
             "rightArrow" => ShapeType::RightArrow,
+            "leftArrow" => ShapeType::LeftArrow,
+            "upArrow" => ShapeType::UpArrow,
+            "downArrow" => ShapeType::DownArrow,
+            "leftRightArrow" => ShapeType::LeftRightArrow,
+            "upDownArrow" => ShapeType::UpDownArrow,
+            "bentArrow" => ShapeType::BentArrow,
+            "uturnArrow" => ShapeType::UTurnArrow,
+            "star4" => ShapeType::Star4,
+            "star5" => ShapeType::Star5,
+            "star6" => ShapeType::Star6,
+            "star8" => ShapeType::Star8,
+            "ribbon2" => ShapeType::Ribbon,
+            "wave" => ShapeType::Wave,
+            "wedgeRectCallout" => ShapeType::WedgeRectCallout,
+            "wedgeEllipseCallout" => ShapeType::WedgeEllipseCallout,
+            "cloudCallout" => ShapeType::CloudCallout,
+            "flowChartProcess" => ShapeType::FlowChartProcess,
+            "flowChartDecision" => ShapeType::FlowChartDecision,
+            "flowChartTerminator" => ShapeType::FlowChartTerminator,
+            "flowChartDocument" => ShapeType::FlowChartDocument,
+            "flowChartPredefinedProcess" => ShapeType::FlowChartPredefinedProcess,
+            "flowChartInternalStorage" => ShapeType::FlowChartInternalStorage,
+            "flowChartInputOutput" => ShapeType::FlowChartData,
+            "flowChartManualInput" => ShapeType::FlowChartManualInput,
+            "flowChartManualOperation" => ShapeType::FlowChartManualOperation,
+            "flowChartConnector" => ShapeType::FlowChartConnector,
+            "flowChartOffpageConnector" => ShapeType::FlowChartOffPageConnector,
+            "flowChartPunchedCard" => ShapeType::FlowChartPunchedCard,
+            "flowChartPunchedTape" => ShapeType::FlowChartPunchedTape,
+            "flowChartSummingJunction" => ShapeType::FlowChartSummingJunction,
+            "flowChartOr" => ShapeType::FlowChartOr,
+            "flowChartCollate" => ShapeType::FlowChartCollate,
+            "flowChartSort" => ShapeType::FlowChartSort,
+            "flowChartExtract" => ShapeType::FlowChartExtract,
+            "flowChartMerge" => ShapeType::FlowChartMerge,
+            "flowChartOnlineStorage" => ShapeType::FlowChartOnlineStorage,
+            "flowChartDelay" => ShapeType::FlowChartDelay,
+            "flowChartMagneticTape" => ShapeType::FlowChartMagneticTape,
+            "flowChartMagneticDisk" => ShapeType::FlowChartMagneticDisk,
+            "flowChartMagneticDrum" => ShapeType::FlowChartMagneticDrum,
+            "flowChartDisplay" => ShapeType::FlowChartDisplay,
+            "flowChartPreparation" => ShapeType::FlowChartPreparation,
+            "curvedRightArrow" => ShapeType::CurvedRightArrow,
+            "curvedLeftArrow" => ShapeType::CurvedLeftArrow,
+            "curvedUpArrow" => ShapeType::CurvedUpArrow,
+            "curvedDownArrow" => ShapeType::CurvedDownArrow,
+            "stripedRightArrow" => ShapeType::StripedRightArrow,
+            "notchedRightArrow" => ShapeType::NotchedRightArrow,
+            "homePlate" => ShapeType::PentagonArrow,
+            "chevron" => ShapeType::ChevronArrow,
+            "rightArrowCallout" => ShapeType::RightArrowCallout,
+            "leftArrowCallout" => ShapeType::LeftArrowCallout,
+            "upArrowCallout" => ShapeType::UpArrowCallout,
+            "downArrowCallout" => ShapeType::DownArrowCallout,
+            "leftRightArrowCallout" => ShapeType::LeftRightArrowCallout,
+            "upDownArrowCallout" => ShapeType::UpDownArrowCallout,
+            "quadArrow" => ShapeType::QuadArrow,
+            "leftRightUpArrow" => ShapeType::LeftRightUpArrow,
+            "circularArrow" => ShapeType::CircularArrow,
+            "parallelogram" => ShapeType::Parallelogram,
+            "trapezoid" => ShapeType::Trapezoid,
+            "nonIsoscelesTrapezoid" => ShapeType::NonIsoscelesTrapezoid,
+            "cube" => ShapeType::Cube,
+            "can" => ShapeType::Can,
+            "bevel" => ShapeType::Bevel,
+            "donut" => ShapeType::Donut,
+            "noSmoking" => ShapeType::NoSmoking,
+            "blockArc" => ShapeType::BlockArc,
+            "foldedCorner" => ShapeType::FoldedCorner,
+            "smileyFace" => ShapeType::SmileyFace,
+            "arc" => ShapeType::Arc,
+            "chord" => ShapeType::Chord,
+            "pie" => ShapeType::Pie,
+            "teardrop" => ShapeType::Teardrop,
+            "plaque" => ShapeType::Plaque,
+            "actionButtonSound" => ShapeType::MusicNote,
+            "frame" => ShapeType::PictureFrame,
+            "star10" => ShapeType::Star10,
+            "star12" => ShapeType::Star12,
+            "star16" => ShapeType::Star16,
+            "star24" => ShapeType::Star24,
+            "star32" => ShapeType::Star32,
+            "irregularSeal1" => ShapeType::Seal,
+            "actionButtonBlank" => ShapeType::ActionButtonBlank,
+            "actionButtonHome" => ShapeType::ActionButtonHome,
+            "actionButtonHelp" => ShapeType::ActionButtonHelp,
+            "actionButtonInformation" => ShapeType::ActionButtonInformation,
+            "actionButtonForwardNext" => ShapeType::ActionButtonForwardNext,
+            "actionButtonBackPrevious" => ShapeType::ActionButtonBackPrevious,
+            "actionButtonBeginning" => ShapeType::ActionButtonBeginning,
+            "actionButtonEnd" => ShapeType::ActionButtonEnd,
+            "actionButtonReturn" => ShapeType::ActionButtonReturn,
+            "actionButtonDocument" => ShapeType::ActionButtonDocument,
+            "actionButtonMovie" => ShapeType::ActionButtonMovie,
+            "heart" => ShapeType::Heart,
+            "lightningBolt" => ShapeType::Lightning,
+            "sun" => ShapeType::Sun,
+            "moon" => ShapeType::Moon,
+            "cloud" => ShapeType::Cloud,
+            "leftBrace" => ShapeType::Brace,
+            "leftBracket" => ShapeType::Bracket,
+            "mathPlus" => ShapeType::Plus,
+            "mathMinus" => ShapeType::Minus,
             _ => ShapeType::Rectangle, // Default
         }
     } else {
-- 
2.43.0


From e151cc3ab18fcb33e3885bbb145e11bd9220eb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:07 +0000
Subject: [PATCH 039/140] fix: import merged table cells as merged

---
 src/import/mod.rs | 9 ++++++++-
 src/oxml/slide.rs | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/import/mod.rs b/src/import/mod.rs
index dffef0b..cd2d328 100644
--- a/src/import/mod.rs
+++ b/src/import/mod.rs
@@ -57,7 +57,14 @@ pub fn import_pptx(path: &str) -> Result<Presentation> {
              let mut table_builder = TableBuilder::new(col_widths);
              for row in parsed_table.rows {
                  let cells: Vec<TableCell> = row.into_iter()
-                     .map(|cell| TableCell::new(&cell.text))
+                     .map(|cell| {
+                         let mut imported = TableCell::new(&cell.text);
+                         imported.grid_span = (cell.col_span > 1).then_some(cell.col_span);
+                         imported.row_span = (cell.row_span > 1).then_some(cell.row_span);
+                         imported.h_merge = cell.h_merge;
+                         imported.v_merge = cell.v_merge;
+                         imported
+                     })
                      .collect();
                  let table_row = TableRow::new(cells);
                  table_builder = table_builder.add_row(table_row);
diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index 458d7a1..5e50edf 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -101,6 +101,10 @@ pub struct ParsedTableCell {
     pub text: String,
     pub row_span: u32,
     pub col_span: u32,
+    /// Whether the cell is covered by a cell to its left
+    pub h_merge: bool,
+    /// Whether the cell is covered by a cell above it
+    pub v_merge: bool,
 }
 
 /// Parsed table
@@ -368,10 +372,13 @@ impl SlideParser {
                     .and_then(|v| v.parse().ok())
                     .unwrap_or(1);
 
+                let flag = |name: &str| matches!(tc.attr(name), Some("1" | "true"));
                 row.push(ParsedTableCell {
                     text,
                     row_span,
                     col_span,
+                    h_merge: flag("hMerge"),
+                    v_merge: flag("vMerge"),
                 });
             }
             if !row.is_empty() {
-- 
2.43.0


From 057e8f283e77cf45ddf12b43ee39b8e38451a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 040/140] fix: read shapes and tables inside groups

---
 src/oxml/slide.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index 5e50edf..345b000 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -192,7 +192,7 @@ impl SlideParser {
         // Find shape tree (spTree)
         if let Some(sp_tree) = root.find_descendant("spTree") {
             // Parse shapes
-            for sp in sp_tree.find_all("sp") {
+            for sp in Self::with_groups(sp_tree, "sp") {
                 if let Some(mut shape) = Self::parse_shape(sp) {
                     // Check if this is title or body
                     if slide.title.is_none() && Self::is_title_shape(sp) {
@@ -212,7 +212,7 @@ impl SlideParser {
             }
 
             // Parse graphic frames (tables, charts)
-            for gf in sp_tree.find_all("graphicFrame") {
+            for gf in Self::with_groups(sp_tree, "graphicFrame") {
                 if let Some(table) = Self::parse_table_from_graphic_frame(gf) {
                     slide.tables.push(table);
                 }
@@ -222,6 +222,18 @@ impl SlideParser {
         Ok(slide)
     }
 
+    /// Elements of one kind in the tree, including those inside groups, in document order
+    fn with_groups<'a>(tree: &'a XmlElement, local_name: &str) -> Vec<&'a XmlElement> {
+        tree.children
+            .iter()
+            .flat_map(|c| match c.local_name.as_str() {
+                "grpSp" => Self::with_groups(c, local_name),
+                n if n == local_name => vec![c],
+                _ => vec![],
+            })
+            .collect()
+    }
+
     fn parse_shape(sp: &XmlElement) -> Option<ParsedShape> {
         // Get shape name from nvSpPr/cNvPr
         let name = sp
-- 
2.43.0


From bb2b21e4210eda8ff66f61cbe4f4a26264293043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 041/140] fix: edit the slide list of a presentation in place
 instead of rewriting its parts

---
 src/oxml/editor.rs       | 636 +++++++++++++++------------------------
 src/oxml/presentation.rs |   9 +-
 2 files changed, 254 insertions(+), 391 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 105d7c5..0a80c8d 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -6,53 +6,66 @@
 //! - Remove slides
 //! - Modify presentation properties
 
+use super::presentation::resolve_target;
 use super::slide::{ParsedSlide, SlideParser};
+use super::xmlchemy::XmlParser;
 use crate::exc::{messages, PptxError};
 use crate::generator::slide_content::SlideContent;
-use crate::generator::package_xml::{
-    create_presentation_rels_xml_full, slide_id_value, slide_rel_id,
-};
+use crate::generator::package_xml::slide_id_value;
 use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
 use crate::opc::Package;
 
+const PRESENTATION: &str = "ppt/presentation.xml";
+const PRESENTATION_RELS: &str = "ppt/_rels/presentation.xml.rels";
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const SLIDE_REL_TYPE: &str =
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide";
+const SLIDE_TYPE: &str =
+    "application/vnd.openxmlformats-officedocument.presentationml.slide+xml";
+const NOTES_TYPE: &str =
+    "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml";
+
+/// One entry of the presentation's slide list
+#[derive(Debug, Clone)]
+struct SlideRef {
+    id: usize,
+    rel_id: String,
+    path: String,
+}
+
 /// Presentation editor for modifying PPTX files
 pub struct PresentationEditor {
     package: Package,
-    slide_count: usize,
+    slides: Vec<SlideRef>,
 }
 
 impl PresentationEditor {
     /// Open a PPTX file for editing
     pub fn open(path: &str) -> Result<Self, PptxError> {
         let package = Package::open(path)?;
-        let slide_count = Self::count_slides(&package);
+        let slides = Self::read_slide_list(&package)?;
 
-        Ok(PresentationEditor {
-            package,
-            slide_count,
-        })
+        Ok(PresentationEditor { package, slides })
     }
 
     /// Create a new presentation for editing
     pub fn new() -> Self {
         PresentationEditor {
             package: Package::new(),
-            slide_count: 0,
+            slides: Vec::new(),
         }
     }
 
     /// Get number of slides
     pub fn slide_count(&self) -> usize {
-        self.slide_count
+        self.slides.len()
     }
 
     /// Get a parsed slide by index (0-based)
     pub fn get_slide(&self, index: usize) -> Result<ParsedSlide, PptxError> {
-        let slide_num = index + 1;
-        let path = format!("ppt/slides/slide{slide_num}.xml");
         let xml = self
             .package
-            .get_part(&path)
+            .get_part(self.slide_path(index)?)
             .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?;
 
         let xml_str = String::from_utf8_lossy(xml);
@@ -61,43 +74,13 @@ impl PresentationEditor {
 
     /// Add a new slide at the end
     pub fn add_slide(&mut self, content: SlideContent) -> Result<usize, PptxError> {
-        let new_index = self.slide_count + 1;
-
-        // Generate slide XML
-        let slide_xml = create_slide_xml_with_content(new_index, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        // Add slide file
-        let slide_path = format!("ppt/slides/slide{new_index}.xml");
-        self.package.add_part(slide_path, slide_xml.into_bytes());
-
-        // Add slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{new_index}.xml.rels");
-        self.package
-            .add_part(rels_path, slide_rels_xml.into_bytes());
-
-        // Update presentation.xml to include new slide
-        self.update_presentation_xml(new_index)?;
-
-        // Update presentation.xml.rels
-        self.update_presentation_rels(new_index)?;
-
-        // Update [Content_Types].xml
-        self.update_content_types(new_index)?;
-
-        self.slide_count = new_index;
-        Ok(new_index - 1) // Return 0-based index
+        self.insert_slide(self.slides.len(), content)
     }
 
     /// Update slide content at index
     pub fn update_slide(&mut self, index: usize, content: SlideContent) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let slide_xml = create_slide_xml_with_content(slide_num, &content, &[], None);
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
+        let slide_path = self.slide_path(index)?.to_string();
+        let slide_xml = create_slide_xml_with_content(index + 1, &content, &[], None);
 
         self.package.add_part(slide_path, slide_xml.into_bytes());
         Ok(())
@@ -105,166 +88,80 @@ impl PresentationEditor {
 
     /// Remove a slide by index
     pub fn remove_slide(&mut self, index: usize) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
+        self.slide_path(index)?;
+        let slide = self.slides.remove(index);
 
-        // Remove slide file
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        self.package.remove_part(&slide_path);
-
-        // Remove slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-        self.package.remove_part(&rels_path);
-
-        // Renumber remaining slides
-        for i in (slide_num + 1)..=self.slide_count {
-            self.renumber_slide(i, i - 1)?;
+        // The notes belong to the slide and go with it
+        if let Some(notes) = self.notes_path(&slide.path) {
+            self.remove_part_with_rels(&notes);
         }
+        self.remove_part_with_rels(&slide.path);
 
-        self.slide_count -= 1;
-
-        // Update presentation files
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.edit_part(PRESENTATION_RELS, |xml| {
+            remove_elements(xml, "Relationship", "Id", &slide.rel_id)
+        });
+        self.edit_part(PRESENTATION, |xml| {
+            let xml = remove_elements(xml, "p14:sldId", "id", &slide.id.to_string());
+            remove_elements(&xml, "p:sld", "r:id", &slide.rel_id)
+        });
+        self.write_slide_list();
 
         Ok(())
     }
 
     /// Duplicate an existing slide, inserting the copy immediately after the original.
     pub fn duplicate_slide(&mut self, index: usize) -> Result<usize, PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let new_index = index + 1;
-        let new_num = new_index + 1;
-
-        // Copy original slide content and relationships.
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-
+        let path = self.slide_path(index)?.to_string();
         let slide_data = self
             .package
-            .get_part(&slide_path)
+            .get_part(&path)
             .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?
             .to_vec();
-        let rels_data = self
+        let mut rels = self
             .package
-            .get_part(&rels_path)
-            .unwrap_or_default()
-            .to_vec();
+            .get_part_string(&rels_path(&path))
+            .unwrap_or_else(create_slide_rels_xml);
 
-        // Shift slides after the original to make room for the duplicate.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Insert duplicate at the newly vacated position.
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_data);
-        self.package
-            .add_part(format!("ppt/slides/_rels/slide{new_num}.xml.rels"), rels_data);
+        let new_path = self.free_path("ppt/slides/slide");
 
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        // The copy gets its own copy of the notes
+        if let Some(notes) = self.notes_path(&path) {
+            let new_notes = self.free_path("ppt/notesSlides/notesSlide");
+            if let Some(data) = self.package.get_part(&notes).map(<[u8]>::to_vec) {
+                self.package.add_part(new_notes.clone(), data);
+            }
+            if let Some(xml) = self.package.get_part_string(&rels_path(&notes)) {
+                let xml = retarget(&xml, "ppt/notesSlides", &path, &new_path);
+                self.package.add_part(rels_path(&new_notes), xml.into_bytes());
+            }
+            self.add_override(&new_notes, NOTES_TYPE);
+            rels = retarget(&rels, "ppt/slides", &notes, &new_notes);
+        }
 
-        Ok(new_index)
+        self.link_slide(index + 1, new_path, slide_data, rels);
+        Ok(index + 1)
     }
 
     /// Insert a new slide at the specified index.
     pub fn insert_slide(&mut self, index: usize, content: SlideContent) -> Result<usize, PptxError> {
-        if index > self.slide_count {
+        if index > self.slides.len() {
             return Err(PptxError::NotFound(messages::slide_not_found(index)));
         }
 
-        let new_num = index + 1;
-
-        // Shift slides at and after the insertion point upward.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Generate and insert the new slide.
-        let slide_xml = create_slide_xml_with_content(new_num, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_xml.into_bytes());
-        self.package.add_part(
-            format!("ppt/slides/_rels/slide{new_num}.xml.rels"),
-            slide_rels_xml.into_bytes(),
-        );
-
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        let slide_xml = create_slide_xml_with_content(index + 1, &content, &[], None);
+        let path = self.free_path("ppt/slides/slide");
+        self.link_slide(index, path, slide_xml.into_bytes(), create_slide_rels_xml());
 
         Ok(index)
     }
 
     /// Reorder a slide from one position to another.
     pub fn reorder_slide(&mut self, from_index: usize, to_index: usize) -> Result<(), PptxError> {
-        if from_index >= self.slide_count || to_index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(
-                from_index.max(to_index),
-            )));
-        }
-
-        if from_index == to_index {
-            return Ok(());
-        }
-
-        let from_num = from_index + 1;
-        let to_num = to_index + 1;
-
-        // Extract the slide being moved.
-        let temp_slide_path = "ppt/slides/_temp_slide.xml".to_string();
-        let temp_rels_path = "ppt/slides/_rels/_temp_slide.xml.rels".to_string();
-
-        if let Some(data) = self.package.remove_part(&format!("ppt/slides/slide{from_num}.xml")) {
-            self.package.add_part(temp_slide_path.clone(), data);
-        }
-        if let Some(data) =
-            self.package.remove_part(&format!("ppt/slides/_rels/slide{from_num}.xml.rels"))
-        {
-            self.package.add_part(temp_rels_path.clone(), data);
-        }
-
-        if from_index < to_index {
-            // Shift intermediate slides left.
-            for i in from_num..to_num {
-                self.renumber_slide(i + 1, i)?;
-            }
-        } else {
-            // Shift intermediate slides right.
-            for i in (to_num..from_num).rev() {
-                self.renumber_slide(i, i + 1)?;
-            }
-        }
+        self.slide_path(from_index.max(to_index))?;
 
-        // Place the moved slide at the target position.
-        if let Some(data) = self.package.remove_part(&temp_slide_path) {
-            self.package
-                .add_part(format!("ppt/slides/slide{to_num}.xml"), data);
-        }
-        if let Some(data) = self.package.remove_part(&temp_rels_path) {
-            self.package
-                .add_part(format!("ppt/slides/_rels/slide{to_num}.xml.rels"), data);
-        }
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        let slide = self.slides.remove(from_index);
+        self.slides.insert(to_index, slide);
+        self.write_slide_list();
 
         Ok(())
     }
@@ -287,236 +184,201 @@ impl PresentationEditor {
 
     // Helper methods
 
-    fn count_slides(package: &Package) -> usize {
-        package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .count()
-    }
-
-    fn presentation_has_notes(xml: &str) -> bool {
-        xml.contains("<p:notesMasterIdLst>")
-    }
-
-    fn presentation_has_handout(xml: &str) -> bool {
-        xml.contains("<p:handoutMasterIdLst>")
-    }
-
-    fn update_presentation_xml(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("ppt/presentation.xml") {
-            // Parse and update the presentation XML
-            let updated = self.add_slide_to_presentation_xml(&xml, new_slide_count)?;
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), updated.into_bytes());
-        }
-        Ok(())
-    }
-
-    fn add_slide_to_presentation_xml(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        // Find </p:sldIdLst> and insert new slide reference before it
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let slide_id = slide_id_value(slide_num);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-
-        let new_slide_ref = format!("\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>");
-
-        if let Some(pos) = xml.find("</p:sldIdLst>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_slide_ref);
-            Ok(result)
-        } else {
-            // If no sldIdLst, return as-is (shouldn't happen for valid PPTX)
-            Ok(xml.to_string())
-        }
-    }
-
-    fn update_presentation_rels(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self
-            .package
-            .get_part_string("ppt/_rels/presentation.xml.rels")
-        {
-            let updated = self.add_slide_to_presentation_rels(&xml, new_slide_count)?;
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                updated.into_bytes(),
-            );
-        }
-        Ok(())
-    }
-
-    fn add_slide_to_presentation_rels(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-        let new_rel = format!(
-            "\n<Relationship Id=\"rId{r_id}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{slide_num}.xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Relationships>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_rel);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
+    fn slide_path(&self, index: usize) -> Result<&str, PptxError> {
+        self.slides
+            .get(index)
+            .map(|s| s.path.as_str())
+            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))
+    }
+
+    /// Read the slide list of presentation.xml
+    fn read_slide_list(package: &Package) -> Result<Vec<SlideRef>, PptxError> {
+        let (Some(xml), Some(rels)) = (
+            package.get_part_string(PRESENTATION),
+            package.get_part_string(PRESENTATION_RELS),
+        ) else {
+            return Ok(Vec::new());
+        };
+        let root = XmlParser::parse_str(&xml)?;
+        let rels = XmlParser::parse_str(&rels)?;
+
+        let mut slides = Vec::new();
+        for entry in root.find("sldIdLst").map(|l| l.find_all("sldId")).unwrap_or_default() {
+            let rel_id = entry
+                .attributes
+                .iter()
+                .find(|(name, _)| name.ends_with(":id"))
+                .map(|(_, value)| value.clone())
+                .unwrap_or_default();
+            let target = rels
+                .find_all("Relationship")
+                .into_iter()
+                .find(|r| r.attr("Id") == Some(rel_id.as_str()))
+                .and_then(|r| r.attr("Target"));
+            if let Some(target) = target {
+                slides.push(SlideRef {
+                    id: entry.attr("id").and_then(|v| v.parse().ok()).unwrap_or(0),
+                    path: resolve_target("ppt", target),
+                    rel_id,
+                });
+            }
         }
+        Ok(slides)
     }
 
-    fn update_content_types(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("[Content_Types].xml") {
-            let updated = self.add_slide_to_content_types(&xml, new_slide_count)?;
-            self.package
-                .add_part("[Content_Types].xml".to_string(), updated.into_bytes());
+    /// Write the slide list back to presentation.xml, leaving the rest of it as it is
+    fn write_slide_list(&mut self) {
+        let mut list = String::from("<p:sldIdLst>");
+        for slide in &self.slides {
+            list.push_str(&format!(
+                "\n<p:sldId id=\"{}\" r:id=\"{}\"/>",
+                slide.id, slide.rel_id
+            ));
         }
-        Ok(())
-    }
+        list.push_str("\n</p:sldIdLst>");
 
-    fn add_slide_to_content_types(&self, xml: &str, slide_num: usize) -> Result<String, PptxError> {
-        let new_override = format!(
-            "\n<Override PartName=\"/ppt/slides/slide{slide_num}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Types>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_override);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
-        }
+        self.edit_part(PRESENTATION, |xml| {
+            if xml.contains("<p:sldIdLst/>") {
+                return xml.replacen("<p:sldIdLst/>", &list, 1);
+            }
+            if let (Some(start), Some(end)) =
+                (xml.find("<p:sldIdLst>"), xml.find("</p:sldIdLst>"))
+            {
+                let end = end + "</p:sldIdLst>".len();
+                return format!("{}{}{}", &xml[..start], list, &xml[end..]);
+            }
+            for before in [
+                "</p:handoutMasterIdLst>",
+                "</p:notesMasterIdLst>",
+                "</p:sldMasterIdLst>",
+            ] {
+                if let Some(pos) = xml.find(before) {
+                    let pos = pos + before.len();
+                    return format!("{}\n{}{}", &xml[..pos], list, &xml[pos..]);
+                }
+            }
+            xml.to_string()
+        });
     }
 
-    fn renumber_slide(&mut self, old_num: usize, new_num: usize) -> Result<(), PptxError> {
-        // Move slide file
-        let old_path = format!("ppt/slides/slide{old_num}.xml");
-        let new_path = format!("ppt/slides/slide{new_num}.xml");
-
-        if let Some(content) = self.package.remove_part(&old_path) {
-            self.package.add_part(new_path, content);
-        }
-
-        // Move slide rels
-        let old_rels = format!("ppt/slides/_rels/slide{old_num}.xml.rels");
-        let new_rels = format!("ppt/slides/_rels/slide{new_num}.xml.rels");
+    /// Add a slide part with its relationships and list it at the index
+    fn link_slide(&mut self, index: usize, path: String, data: Vec<u8>, rels: String) {
+        self.package.add_part(rels_path(&path), rels.into_bytes());
+        self.package.add_part(path.clone(), data);
+        self.add_override(&path, SLIDE_TYPE);
 
-        if let Some(content) = self.package.remove_part(&old_rels) {
-            self.package.add_part(new_rels, content);
-        }
-
-        Ok(())
-    }
-
-    fn rebuild_presentation_xml(&mut self) -> Result<(), PptxError> {
-        let existing = self
+        let rels = self
             .package
-            .get_part_string("ppt/presentation.xml")
+            .get_part_string(PRESENTATION_RELS)
             .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let mut slide_refs = String::new();
-        for i in 1..=self.slide_count {
-            let slide_id = slide_id_value(i);
-            let r_id = slide_rel_id(i, has_notes, has_handout);
-            slide_refs.push_str(&format!(
-                "\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>"
-            ));
-        }
-
-        let mut xml = String::from(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" saveSubsetFonts="1" autoCompressPictures="0">
-<p:sldMasterIdLst>
-<p:sldMasterId id="2147483648" r:id="rId1"/>
-</p:sldMasterIdLst>"#,
-        );
-
-        if has_notes {
-            xml.push_str(
-                r#"
-<p:notesMasterIdLst>
-<p:notesMasterId id="2147483650" r:id="rId6"/>
-</p:notesMasterIdLst>"#,
-            );
+        let rel_id = (self.slides.len() + 2..)
+            .map(|n| format!("rId{n}"))
+            .find(|id| !rels.contains(&format!("\"{id}\"")))
+            .unwrap_or_default();
+        let target = path.trim_start_matches("ppt/");
+        self.edit_part(PRESENTATION_RELS, |xml| {
+            insert_before(
+                xml,
+                "</Relationships>",
+                &format!("\n<Relationship Id=\"{rel_id}\" Type=\"{SLIDE_REL_TYPE}\" Target=\"{target}\"/>"),
+            )
+        });
+
+        let id = self.slides.iter().map(|s| s.id + 1).fold(slide_id_value(1), usize::max);
+        self.slides.insert(index, SlideRef { id, rel_id, path });
+        self.write_slide_list();
+    }
+
+    /// First part name of the form `<stem><n>.xml` that is not in use
+    fn free_path(&self, stem: &str) -> String {
+        let mut n = 1;
+        while self.package.has_part(&format!("{stem}{n}.xml")) {
+            n += 1;
         }
-
-        if has_handout {
-            let handout_rid = if has_notes { 7 } else { 6 };
-            xml.push_str(&format!(
-                r#"
-<p:handoutMasterIdLst>
-<p:handoutMasterId id="2147483651" r:id="rId{handout_rid}"/>
-</p:handoutMasterIdLst>"#
-            ));
+        format!("{stem}{n}.xml")
+    }
+
+    /// The notes part related to a slide
+    fn notes_path(&self, slide_path: &str) -> Option<String> {
+        let xml = self.package.get_part_string(&rels_path(slide_path))?;
+        let root = XmlParser::parse_str(&xml).ok()?;
+        let target = root
+            .find_all("Relationship")
+            .into_iter()
+            .find(|r| r.attr("Type").is_some_and(|t| t.ends_with("/notesSlide")))?
+            .attr("Target")?;
+        Some(resolve_target("ppt/slides", target))
+    }
+
+    fn add_override(&mut self, path: &str, content_type: &str) {
+        self.edit_part(CONTENT_TYPES, |xml| {
+            insert_before(
+                xml,
+                "</Types>",
+                &format!("\n<Override PartName=\"/{path}\" ContentType=\"{content_type}\"/>"),
+            )
+        });
+    }
+
+    fn remove_part_with_rels(&mut self, path: &str) {
+        self.package.remove_part(path);
+        self.package.remove_part(&rels_path(path));
+        self.edit_part(CONTENT_TYPES, |xml| {
+            remove_elements(xml, "Override", "PartName", &format!("/{path}"))
+        });
+    }
+
+    fn edit_part(&mut self, path: &str, edit: impl FnOnce(&str) -> String) {
+        if let Some(xml) = self.package.get_part_string(path) {
+            self.package.add_part(path.to_string(), edit(&xml).into_bytes());
         }
-
-        xml.push_str(&format!(
-            r#"
-<p:sldIdLst>{slide_refs}
-</p:sldIdLst>
-<p:sldSz cx="9144000" cy="6858000" type="screen4x3"/>
-<p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#
-        ));
-
-        self.package
-            .add_part("ppt/presentation.xml".to_string(), xml.into_bytes());
-        Ok(())
     }
+}
 
-    fn rebuild_presentation_rels(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let xml = create_presentation_rels_xml_full(self.slide_count, has_notes, has_handout);
+/// Path of the relationships part of a part
+fn rels_path(path: &str) -> String {
+    match path.rsplit_once('/') {
+        Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
+        None => format!("_rels/{path}.rels"),
+    }
+}
 
-        self.package.add_part(
-            "ppt/_rels/presentation.xml.rels".to_string(),
-            xml.into_bytes(),
-        );
-        Ok(())
+fn insert_before(xml: &str, marker: &str, text: &str) -> String {
+    match xml.rfind(marker) {
+        Some(pos) => format!("{}{}{}", &xml[..pos], text, &xml[pos..]),
+        None => xml.to_string(),
     }
+}
 
-    fn rebuild_content_types(&mut self) -> Result<(), PptxError> {
-        let mut slide_overrides = String::new();
-        for i in 1..=self.slide_count {
-            slide_overrides.push_str(&format!(
-                "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-            ));
+/// Remove the empty elements of one name that have the given attribute value
+fn remove_elements(xml: &str, tag: &str, attr: &str, value: &str) -> String {
+    let open = format!("<{tag} ");
+    let wanted = format!(" {attr}=\"{value}\"");
+    let mut result = String::with_capacity(xml.len());
+    let mut rest = xml;
+    while let Some(start) = rest.find(&open) {
+        let Some(end) = rest[start..].find("/>").map(|e| start + e + 2) else { break };
+        result.push_str(&rest[..start]);
+        if !rest[start..end].contains(&wanted) {
+            result.push_str(&rest[start..end]);
         }
-
-        let xml = format!(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
-<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-<Default Extension="xml" ContentType="application/xml"/>
-<Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>{slide_overrides}
-<Override PartName="/ppt/slideLayouts/slideLayout1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"/>
-<Override PartName="/ppt/slideMasters/slideMaster1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"/>
-<Override PartName="/ppt/theme/theme1.xml" ContentType="application/vnd.openxmlformats-officedocument.theme+xml"/>
-<Override PartName="/docProps/core.xml" ContentType="application/vnd.openxmlformats-package.core-properties+xml"/>
-<Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>
-</Types>"#
-        );
-
-        self.package
-            .add_part("[Content_Types].xml".to_string(), xml.into_bytes());
-        Ok(())
+        rest = &rest[end..];
     }
+    result + rest
+}
+
+/// Point the relationships that lead to one part at another
+fn retarget(rels: &str, dir: &str, from: &str, to: &str) -> String {
+    rels.split("Target=\"")
+        .enumerate()
+        .map(|(i, piece)| match piece.split_once('"') {
+            Some((target, rest)) if i > 0 && resolve_target(dir, target) == from => {
+                format!("/{to}\"{rest}")
+            }
+            _ => piece.to_string(),
+        })
+        .collect::<Vec<_>>()
+        .join("Target=\"")
 }
 
 impl Default for PresentationEditor {
diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 3fa8342..54e8ab4 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -162,7 +162,7 @@ impl PresentationReader {
                     let rel_type = rel.attr("Type").unwrap_or("");
                     if rel_type.ends_with("/slide")
                         && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target")) {
-                            slide_rels.push((id.to_string(), resolve_target(target)));
+                            slide_rels.push((id.to_string(), resolve_target("ppt", target)));
                         }
                 }
 
@@ -223,9 +223,10 @@ impl PresentationReader {
     }
 }
 
-/// Resolve a relationship target of presentation.xml to a part path
-fn resolve_target(target: &str) -> String {
-    let mut segments: Vec<&str> = if target.starts_with('/') { vec![] } else { vec!["ppt"] };
+/// Resolve a relationship target of a part in the given folder to a part path
+pub(super) fn resolve_target(dir: &str, target: &str) -> String {
+    let mut segments: Vec<&str> =
+        if target.starts_with('/') { vec![] } else { dir.split('/').collect() };
     for segment in target.split('/') {
         match segment {
             "" | "." => {}
-- 
2.43.0


From 6b1a392e73c016ad2e2f013e09712426af3a6244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:44 +0000
Subject: [PATCH 042/140] fix: remove the parts only a removed slide referred
 to along with it

---
 src/oxml/editor.rs       | 34 ++++++++++++++++++++++++++++------
 src/oxml/presentation.rs |  4 ++--
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 0a80c8d..ab546e8 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -91,15 +91,10 @@ impl PresentationEditor {
         self.slide_path(index)?;
         let slide = self.slides.remove(index);
 
-        // The notes belong to the slide and go with it
-        if let Some(notes) = self.notes_path(&slide.path) {
-            self.remove_part_with_rels(&notes);
-        }
-        self.remove_part_with_rels(&slide.path);
-
         self.edit_part(PRESENTATION_RELS, |xml| {
             remove_elements(xml, "Relationship", "Id", &slide.rel_id)
         });
+        self.remove_part_with_rels(&slide.path);
         self.edit_part(PRESENTATION, |xml| {
             let xml = remove_elements(xml, "p14:sldId", "id", &slide.id.to_string());
             remove_elements(&xml, "p:sld", "r:id", &slide.rel_id)
@@ -320,12 +315,39 @@ impl PresentationEditor {
         });
     }
 
+    /// Remove a part, and the parts only it refers to
     fn remove_part_with_rels(&mut self, path: &str) {
+        let targets = self.rel_targets(&rels_path(path));
         self.package.remove_part(path);
         self.package.remove_part(&rels_path(path));
         self.edit_part(CONTENT_TYPES, |xml| {
             remove_elements(xml, "Override", "PartName", &format!("/{path}"))
         });
+
+        for target in targets {
+            let referenced = self
+                .package
+                .part_paths()
+                .into_iter()
+                .filter(|p| p.ends_with(".rels"))
+                .any(|p| self.rel_targets(p).contains(&target));
+            if self.package.has_part(&target) && !referenced {
+                self.remove_part_with_rels(&target);
+            }
+        }
+    }
+
+    /// Parts a relationships part leads to
+    fn rel_targets(&self, rels_path: &str) -> Vec<String> {
+        let dir = rels_path.rsplit_once("_rels/").map_or("", |(dir, _)| dir);
+        let xml = self.package.get_part_string(rels_path).unwrap_or_default();
+        let Ok(root) = XmlParser::parse_str(&xml) else { return Vec::new() };
+        root.find_all("Relationship")
+            .into_iter()
+            .filter(|r| r.attr("TargetMode") != Some("External"))
+            .filter_map(|r| r.attr("Target"))
+            .map(|target| resolve_target(dir, target))
+            .collect()
     }
 
     fn edit_part(&mut self, path: &str, edit: impl FnOnce(&str) -> String) {
diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 54e8ab4..d64b8fa 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -225,8 +225,8 @@ impl PresentationReader {
 
 /// Resolve a relationship target of a part in the given folder to a part path
 pub(super) fn resolve_target(dir: &str, target: &str) -> String {
-    let mut segments: Vec<&str> =
-        if target.starts_with('/') { vec![] } else { dir.split('/').collect() };
+    let dir = if target.starts_with('/') { "" } else { dir };
+    let mut segments: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
     for segment in target.split('/') {
         match segment {
             "" | "." => {}
-- 
2.43.0


From d8c2d8e8d759d9fb7ddbed9b8daed90681abe2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:26 +0000
Subject: [PATCH 043/140] fix: reject XML that is not well-formed instead of
 only blank text

---
 src/core/validation.rs | 27 +++------------------------
 1 file changed, 3 insertions(+), 24 deletions(-)

diff --git a/src/core/validation.rs b/src/core/validation.rs
index d4b6a11..b89aae6 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -105,30 +105,9 @@ pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut string_char = '"';
-
-    for ch in trimmed.chars() {
-        match ch {
-            '"' | '\'' if in_tag && !in_string => {
-                in_string = true;
-                string_char = ch;
-            }
-            c if in_string && c == string_char => {
-                in_string = false;
-            }
-            '<' if !in_string => {
-                in_tag = true;
-            }
-            '>' if !in_string => {
-                in_tag = false;
-            }
-            _ => {}
-        }
-    }
-
-    Ok(())
+    crate::oxml::XmlParser::parse_str(trimmed)
+        .map(|_| ())
+        .map_err(|e| PptxError::InvalidXml(e.to_string()))
 }
 
 /// Check that all required part paths exist in `found`.
-- 
2.43.0


From 279d52f72b24fc0195007e771525382ed1c1807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:28 +0000
Subject: [PATCH 044/140] fix: parse relationships when checking and repairing
 them instead of reading them line by line

---
 src/oxml/editor.rs |   2 +-
 src/oxml/repair.rs | 162 ++++++++++++++++-----------------------------
 2 files changed, 59 insertions(+), 105 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index ab546e8..1096d5c 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -373,7 +373,7 @@ fn insert_before(xml: &str, marker: &str, text: &str) -> String {
 }
 
 /// Remove the empty elements of one name that have the given attribute value
-fn remove_elements(xml: &str, tag: &str, attr: &str, value: &str) -> String {
+pub(super) fn remove_elements(xml: &str, tag: &str, attr: &str, value: &str) -> String {
     let open = format!("<{tag} ");
     let wanted = format!(" {attr}=\"{value}\"");
     let mut result = String::with_capacity(xml.len());
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8cad2df..e72537a 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -11,9 +11,12 @@ use crate::core::{
     check_required_parts_with_descriptions, validate_well_formed_xml, ValidationIssue,
     REQUIRED_PARTS_REPAIR,
 };
+use super::editor::remove_elements;
+use super::presentation::resolve_target;
+use super::xmlchemy::{XmlElement, XmlParser};
 use crate::exc::{PptxError, Result};
 use crate::opc::Package;
-use std::collections::HashSet;
+use std::collections::{BTreeSet, HashSet};
 use std::path::Path;
 
 /// Types of issues that can be detected in a PPTX file
@@ -301,56 +304,48 @@ impl PptxRepair {
     }
 
     fn check_relationships(&mut self) {
-        // Check _rels/.rels
-        self.check_rels_file("_rels/.rels");
-
-        // Check ppt/_rels/presentation.xml.rels
-        self.check_rels_file("ppt/_rels/presentation.xml.rels");
-
-        // Check slide relationship files
-        let slide_rels: Vec<String> = self
+        let rels_parts: Vec<String> = self
             .package
             .part_paths()
             .iter()
-            .filter(|p| p.starts_with("ppt/slides/_rels/") && p.ends_with(".xml.rels"))
+            .filter(|p| p.ends_with(".rels"))
             .map(|s| s.to_string())
             .collect();
 
-        for rels_path in slide_rels {
+        for rels_path in rels_parts {
             self.check_rels_file(&rels_path);
         }
     }
 
     fn check_rels_file(&mut self, rels_path: &str) {
-        if let Some(content) = self.package.get_part(rels_path) {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Parse relationships and check targets exist
-            for line in xml_str.lines() {
-                if line.contains("Relationship") && line.contains("Target=")
-                    && let Some(target) = self.extract_attribute(line, "Target") {
-                        let rel_id = self.extract_attribute(line, "Id").unwrap_or_default();
-
-                        // Skip external relationships
-                        if target.starts_with("http://") || target.starts_with("https://") {
-                            continue;
-                        }
-
-                        // Resolve relative path
-                        let full_path = self.resolve_path(rels_path, &target);
-
-                        if !self.package.has_part(&full_path) && !target.contains("..") {
-                            self.issues.push(RepairIssue::BrokenRelationship {
-                                source: rels_path.to_string(),
-                                target: full_path,
-                                rel_id,
-                            });
-                        }
-                    }
+        // Check that the targets inside the package exist
+        for rel in self.relationships(rels_path) {
+            if rel.attr("TargetMode") == Some("External") {
+                continue;
+            }
+            let Some(target) = rel.attr("Target") else { continue };
+            let full_path = self.resolve_path(rels_path, target);
+
+            if !self.package.has_part(&full_path) {
+                self.issues.push(RepairIssue::BrokenRelationship {
+                    source: rels_path.to_string(),
+                    target: full_path,
+                    rel_id: rel.attr("Id").unwrap_or_default().to_string(),
+                });
             }
         }
     }
 
+    /// Relationship elements of a relationships part, none if it cannot be parsed
+    fn relationships(&self, rels_path: &str) -> Vec<XmlElement> {
+        self.package
+            .get_part_string(rels_path)
+            .and_then(|xml| XmlParser::parse_str(&xml).ok())
+            .map(|root| root.find_all("Relationship").into_iter().cloned().collect())
+            .unwrap_or_default()
+    }
+
+    #[cfg(test)]
     fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
         let pattern = format!("{}=\"", attr);
         if let Some(start) = line.find(&pattern) {
@@ -363,28 +358,9 @@ impl PptxRepair {
     }
 
     fn resolve_path(&self, rels_path: &str, target: &str) -> String {
-        if let Some(stripped) = target.strip_prefix('/') {
-            return stripped.to_string();
-        }
-
-        // Get directory of rels file
-        let rels_dir = rels_path.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-        let base_dir = rels_dir
-            .replace("_rels", "")
-            .trim_end_matches('/')
-            .to_string();
-
-        if target.starts_with("../") {
-            // Go up one directory
-            let parent = base_dir.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-            format!("{}/{}", parent, target.trim_start_matches("../"))
-        } else {
-            if base_dir.is_empty() {
-                target.to_string()
-            } else {
-                format!("{}/{}", base_dir, target)
-            }
-        }
+        // Get directory of the part the rels file belongs to
+        let base_dir = rels_path.rsplit_once("_rels/").map_or("", |(d, _)| d);
+        resolve_target(base_dir, target)
     }
 
     fn check_slide_references(&mut self) {
@@ -392,27 +368,16 @@ impl PptxRepair {
         let mut referenced_slides: HashSet<String> = HashSet::new();
         let slide_rel_type = crate::parts::relationships::RelationshipType::Slide.uri();
 
-        if let Some(rels_content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_content);
-            for line in xml_str.lines() {
-                if let Some(type_attr) = self.extract_attribute(line, "Type") {
-                    if type_attr != slide_rel_type {
-                        continue;
-                    }
-                    if let Some(target) = self.extract_attribute(line, "Target") {
-                        let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                            stripped.to_string()
-                        } else {
-                            format!("ppt/{}", target)
-                        };
-                        referenced_slides.insert(full_path);
-                    }
+        for rel in self.relationships("ppt/_rels/presentation.xml.rels") {
+            if rel.attr("Type") == Some(slide_rel_type)
+                && let Some(target) = rel.attr("Target") {
+                    referenced_slides
+                        .insert(self.resolve_path("ppt/_rels/presentation.xml.rels", target));
                 }
-            }
         }
 
         // Get actual slide files
-        let actual_slides: HashSet<String> = self
+        let actual_slides: BTreeSet<String> = self
             .package
             .part_paths()
             .iter()
@@ -424,7 +389,7 @@ impl PptxRepair {
 
         // Check for orphan references (referenced but don't exist)
         for slide in &referenced_slides {
-            if !actual_slides.contains(slide) {
+            if !self.package.has_part(slide) {
                 self.issues.push(RepairIssue::OrphanSlide {
                     slide_path: slide.clone(),
                 });
@@ -595,20 +560,18 @@ impl PptxRepair {
         rel_id: &str,
     ) -> Result<()> {
         // Remove the broken relationship from the rels file
-        if let Some(content) = self.package.get_part(source) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Remove the relationship line with this ID
-            let pattern = format!("Id=\"{}\"", rel_id);
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&pattern))
-                .collect();
-
-            let repaired = lines.join("\n");
+        if let Some(xml_str) = self.package.get_part_string(source) {
+            let repaired = remove_elements(&xml_str, "Relationship", "Id", rel_id);
             self.package
                 .add_part(source.to_string(), repaired.into_bytes());
         }
+        // A slide that is not there cannot stay in the slide list
+        if source == "ppt/_rels/presentation.xml.rels"
+            && let Some(xml_str) = self.package.get_part_string("ppt/presentation.xml") {
+                let repaired = remove_elements(&xml_str, "p:sldId", "r:id", rel_id);
+                self.package
+                    .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
+            }
         Ok(())
     }
 
@@ -650,7 +613,7 @@ impl PptxRepair {
             let xml_str = String::from_utf8_lossy(content).to_string();
 
             // Find highest slide ID
-            let max_slide_id = self.find_max_slide_id(&xml_str);
+            let max_slide_id = self.find_max_slide_id(&xml_str).max(255);
             let new_slide_id = max_slide_id + 1;
 
             // Add to sldIdLst
@@ -723,22 +686,13 @@ impl PptxRepair {
     }
 
     fn repair_orphan_slide(&mut self, slide_path: &str) -> Result<()> {
-        // Remove the orphan reference from presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Find and remove the relationship
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&format!("Target=\"{}\"", slide_target)))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
+        // Remove the references to the slide from the presentation
+        let source = "ppt/_rels/presentation.xml.rels";
+        for rel in self.relationships(source) {
+            if self.resolve_path(source, rel.attr("Target").unwrap_or_default()) == slide_path {
+                let rel_id = rel.attr("Id").unwrap_or_default();
+                self.repair_broken_relationship(source, slide_path, rel_id)?;
+            }
         }
         Ok(())
     }
-- 
2.43.0


From 677b797ed01c7e4bea8629505cb37d4311efc40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:21 +0000
Subject: [PATCH 045/140] fix: remove elements of the slide and relationship
 lists however they are spelled

---
 src/oxml/editor.rs | 51 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 1096d5c..dd8ec59 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -372,23 +372,60 @@ fn insert_before(xml: &str, marker: &str, text: &str) -> String {
     }
 }
 
-/// Remove the empty elements of one name that have the given attribute value
+/// Remove the elements of one name that have the given attribute value
 pub(super) fn remove_elements(xml: &str, tag: &str, attr: &str, value: &str) -> String {
-    let open = format!("<{tag} ");
-    let wanted = format!(" {attr}=\"{value}\"");
+    let open = format!("<{tag}");
+    let close = format!("</{tag}>");
     let mut result = String::with_capacity(xml.len());
     let mut rest = xml;
     while let Some(start) = rest.find(&open) {
-        let Some(end) = rest[start..].find("/>").map(|e| start + e + 2) else { break };
+        let name_end = start + open.len();
+        let named = rest[name_end..].starts_with(|c: char| c.is_whitespace() || c == '/' || c == '>');
+        let Some(tag_end) = start_tag_end(&rest[start..]).map(|e| start + e) else { break };
+        let empty = rest[..tag_end].ends_with("/>");
+        let end = match rest[tag_end..].find(&close) {
+            Some(e) if !empty => tag_end + e + close.len(),
+            _ => tag_end,
+        };
         result.push_str(&rest[..start]);
-        if !rest[start..end].contains(&wanted) {
-            result.push_str(&rest[start..end]);
+        if named && attr_value(&rest[name_end..tag_end], attr) == Some(value) {
+            rest = &rest[end..];
+        } else {
+            result.push_str(&rest[start..tag_end]);
+            rest = &rest[tag_end..];
         }
-        rest = &rest[end..];
     }
     result + rest
 }
 
+/// Length of the start tag at the beginning of the text
+fn start_tag_end(xml: &str) -> Option<usize> {
+    let mut quote = None;
+    for (i, c) in xml.char_indices() {
+        match (quote, c) {
+            (None, '>') => return Some(i + 1),
+            (None, '"' | '\'') => quote = Some(c),
+            (Some(q), _) if q == c => quote = None,
+            _ => {}
+        }
+    }
+    None
+}
+
+/// Value of an attribute among the attributes of a start tag
+fn attr_value<'a>(mut attrs: &'a str, name: &str) -> Option<&'a str> {
+    while let Some((key, rest)) = attrs.split_once('=') {
+        let rest = rest.trim_start();
+        let quote = rest.chars().next().filter(|c| matches!(c, '"' | '\''))?;
+        let (value, after) = rest[1..].split_once(quote)?;
+        if key.trim() == name {
+            return Some(value);
+        }
+        attrs = after;
+    }
+    None
+}
+
 /// Point the relationships that lead to one part at another
 fn retarget(rels: &str, dir: &str, from: &str, to: &str) -> String {
     rels.split("Target=\"")
-- 
2.43.0


From 7d0ca3934a557598bd507de46ebbf601262a7e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:23 +0000
Subject: [PATCH 046/140] fix: give every part its content type when repairing
 the content types

---
 src/oxml/repair.rs | 95 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 75 insertions(+), 20 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index e72537a..64e940b 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -410,17 +410,24 @@ impl PptxRepair {
         if let Some(content) = self.package.get_part("[Content_Types].xml") {
             let xml_str = String::from_utf8_lossy(content);
 
+            let Ok(types) = XmlParser::parse_str(&xml_str) else { return };
+            let listed = |element: &str, attr: &str, value: &str| {
+                types.find_all(element).iter().any(|e| {
+                    e.attr(attr).is_some_and(|v| v.eq_ignore_ascii_case(value))
+                })
+            };
+
             // Check that all parts have content types
             let parts = self.package.part_paths();
             for part in parts {
-                if part == "[Content_Types].xml" {
+                if part == "[Content_Types].xml" || part.ends_with('/') {
                     continue;
                 }
 
                 // Check if part has Override or matches Default
-                let has_override = xml_str.contains(&format!("PartName=\"/{}\"", part));
+                let has_override = listed("Override", "PartName", &format!("/{}", part));
                 let extension = part.rsplit('.').next().unwrap_or("");
-                let has_default = xml_str.contains(&format!("Extension=\"{}\"", extension));
+                let has_default = listed("Default", "Extension", extension);
 
                 if !has_override && !has_default && !part.ends_with(".rels") {
                     self.issues.push(RepairIssue::InvalidContentType {
@@ -718,22 +725,69 @@ impl PptxRepair {
     }
 
     fn infer_content_type(&self, path: &str) -> &'static str {
-        if path.contains("slideLayout") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"
-        } else if path.contains("slideMaster") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"
-        } else if path.contains("notesSlide") {
-            "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"
-        } else if path.starts_with("ppt/slides/slide") && path.ends_with(".xml") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slide+xml"
-        } else if path.contains("theme") {
-            "application/vnd.openxmlformats-officedocument.theme+xml"
-        } else if path.contains("presentation.xml") {
-            "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"
-        } else if path.ends_with(".xml") {
-            "application/xml"
-        } else {
-            "application/octet-stream"
+        let in_folder = |folder: &str| path.starts_with(folder) && path.ends_with(".xml");
+        match path {
+            "ppt/presentation.xml" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"
+            }
+            "ppt/presProps.xml" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.presProps+xml"
+            }
+            "ppt/viewProps.xml" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml"
+            }
+            "ppt/tableStyles.xml" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml"
+            }
+            "docProps/core.xml" => "application/vnd.openxmlformats-package.core-properties+xml",
+            "docProps/app.xml" => {
+                "application/vnd.openxmlformats-officedocument.extended-properties+xml"
+            }
+            _ if in_folder("ppt/slideLayouts/") => {
+                "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"
+            }
+            _ if in_folder("ppt/slideMasters/") => {
+                "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"
+            }
+            _ if in_folder("ppt/notesSlides/") => {
+                "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"
+            }
+            _ if in_folder("ppt/notesMasters/") => {
+                "application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml"
+            }
+            _ if in_folder("ppt/handoutMasters/") => {
+                "application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml"
+            }
+            _ if in_folder("ppt/slides/") => {
+                "application/vnd.openxmlformats-officedocument.presentationml.slide+xml"
+            }
+            _ if in_folder("ppt/theme/") => {
+                "application/vnd.openxmlformats-officedocument.theme+xml"
+            }
+            _ if in_folder("ppt/charts/chart") => {
+                "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"
+            }
+            _ if in_folder("ppt/ink/") => {
+                "application/vnd.openxmlformats-officedocument.presentationml.ink+xml"
+            }
+            _ if in_folder("_xmlsignatures/") => {
+                "application/vnd.openxmlformats-package.digital-signature-xmlsignature+xml"
+            }
+            _ => match path.rsplit('.').next().unwrap_or("").to_ascii_lowercase().as_str() {
+                "rels" => "application/vnd.openxmlformats-package.relationships+xml",
+                "xml" => "application/xml",
+                "png" => "image/png",
+                "jpg" | "jpeg" => "image/jpeg",
+                "gif" => "image/gif",
+                "bmp" => "image/bmp",
+                "tif" | "tiff" => "image/tiff",
+                "svg" => "image/svg+xml",
+                "webp" => "image/webp",
+                "xlsx" => "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet",
+                "fntdata" => "application/x-fontdata",
+                "sigs" => "application/vnd.openxmlformats-package.digital-signature-origin",
+                _ => "application/octet-stream",
+            },
         }
     }
 
@@ -790,7 +844,8 @@ impl PptxRepair {
 
         // Add overrides for existing parts
         for path in self.package.part_paths() {
-            if path.ends_with(".xml") && path != "[Content_Types].xml" {
+            let covered = [".rels", ".jpeg", ".png", "/"].iter().any(|end| path.ends_with(end));
+            if !covered && path != "[Content_Types].xml" {
                 let ct = self.infer_content_type(path);
                 content.push_str(&format!(
                     "  <Override PartName=\"/{}\" ContentType=\"{}\"/>\n",
-- 
2.43.0


From 414acd20f8452b9791c820d6762d37115e11c0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:25 +0000
Subject: [PATCH 047/140] fix: report XML that could not be repaired as not
 repaired

---
 src/oxml/repair.rs | 58 ++++++++++++----------------------------------
 1 file changed, 15 insertions(+), 43 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 64e940b..da2cedc 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -492,6 +492,7 @@ impl PptxRepair {
             // Try to repair using anyrepair for JSON-like structures
             // For XML, we try basic fixes
             let repaired = self.attempt_xml_repair(&xml_str);
+            self.validate_xml(&repaired).map_err(PptxError::XmlParse)?;
 
             self.package
                 .add_part(path.to_string(), repaired.into_bytes());
@@ -513,51 +514,22 @@ impl PptxRepair {
         // Fix common issues
         // Replace bare & with &amp; (but not existing entities)
         // Since Rust regex doesn't support look-ahead, we use a different approach
-        let mut result = String::new();
-        let mut chars = repaired.chars().peekable();
-        while let Some(ch) = chars.next() {
-            if ch == '&' {
-                // Check if this is already an entity
-                let mut entity = String::from("&");
-                let mut is_entity = false;
-                let mut temp_chars: Vec<char> = Vec::new();
-
-                while let Some(&next) = chars.peek() {
-                    if next == ';' {
-                        entity.push(chars.next().unwrap());
-                        is_entity = entity == "&amp;"
-                            || entity == "&lt;"
-                            || entity == "&gt;"
-                            || entity == "&quot;"
-                            || entity == "&apos;"
-                            || entity.starts_with("&#");
-                        break;
-                    } else if next.is_alphanumeric() || next == '#' || next == 'x' {
-                        temp_chars.push(chars.next().unwrap());
-                        entity.push(*temp_chars.last().unwrap());
-                    } else {
-                        break;
-                    }
-                    if entity.len() > 10 {
-                        break;
-                    }
-                }
-
-                if is_entity {
-                    result.push_str(&entity);
-                } else {
-                    result.push_str("&amp;");
-                    for c in temp_chars {
-                        result.push(c);
-                    }
-                }
-            } else {
-                result.push(ch);
-            }
+        let mut pieces = repaired.split('&');
+        let mut result = pieces.next().unwrap_or_default().to_string();
+        for piece in pieces {
+            let is_entity = piece.split_once(';').is_some_and(|(name, _)| {
+                let is_number = |digits: &str, radix: u32| {
+                    !digits.is_empty() && digits.chars().all(|c| c.is_digit(radix))
+                };
+                matches!(name, "amp" | "lt" | "gt" | "quot" | "apos")
+                    || name.strip_prefix("#x").is_some_and(|n| is_number(n, 16))
+                    || name.strip_prefix('#').is_some_and(|n| is_number(n, 10))
+            });
+            result.push_str(if is_entity { "&" } else { "&amp;" });
+            result.push_str(piece);
         }
-        repaired = result;
 
-        repaired
+        result
     }
 
     fn repair_broken_relationship(
-- 
2.43.0


From 0cb0feb58b46d048da24355ba05f638e5cf52abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:31 +0000
Subject: [PATCH 048/140] fix: count an issue that is still there after a
 repair as not repaired

---
 src/oxml/repair.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index da2cedc..e3b81be 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -239,6 +239,13 @@ impl PptxRepair {
         let remaining_issues = self.validate();
         result.is_valid = remaining_issues.is_empty();
 
+        // What is still wrong was not repaired
+        let (unrepaired, repaired) = std::mem::take(&mut result.issues_repaired)
+            .into_iter()
+            .partition(|issue| remaining_issues.contains(issue));
+        result.issues_repaired = repaired;
+        result.issues_unrepaired.extend::<Vec<_>>(unrepaired);
+
         result
     }
 
-- 
2.43.0


From 6e08ce4c06b25b109cb460b01302b49a88006f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:32 +0000
Subject: [PATCH 049/140] fix: regenerate the presentation and its
 relationships so that they name each other

---
 src/oxml/repair.rs | 151 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 118 insertions(+), 33 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index e3b81be..559701b 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -16,7 +16,7 @@ use super::presentation::resolve_target;
 use super::xmlchemy::{XmlElement, XmlParser};
 use crate::exc::{PptxError, Result};
 use crate::opc::Package;
-use std::collections::{BTreeSet, HashSet};
+use std::collections::HashSet;
 use std::path::Path;
 
 /// Types of issues that can be detected in a PPTX file
@@ -384,15 +384,7 @@ impl PptxRepair {
         }
 
         // Get actual slide files
-        let actual_slides: BTreeSet<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .map(|s| s.to_string())
-            .collect();
+        let actual_slides = self.parts_in("ppt/slides/slide");
 
         // Check for orphan references (referenced but don't exist)
         for slide in &referenced_slides {
@@ -478,7 +470,13 @@ impl PptxRepair {
             "[Content_Types].xml" => self.generate_content_types(),
             "_rels/.rels" => self.generate_package_rels(),
             "ppt/presentation.xml" => self.generate_presentation_xml(),
-            "ppt/_rels/presentation.xml.rels" => self.generate_presentation_rels(),
+            "ppt/_rels/presentation.xml.rels" => {
+                // Which slide each entry of the slide list led to is lost
+                for rel_id in self.presentation_ids("sldId") {
+                    self.remove_from_slide_list(&rel_id);
+                }
+                self.generate_presentation_rels()
+            }
             _ => {
                 return Err(PptxError::Generic(format!(
                     "Cannot generate part: {}",
@@ -552,15 +550,47 @@ impl PptxRepair {
                 .add_part(source.to_string(), repaired.into_bytes());
         }
         // A slide that is not there cannot stay in the slide list
-        if source == "ppt/_rels/presentation.xml.rels"
-            && let Some(xml_str) = self.package.get_part_string("ppt/presentation.xml") {
-                let repaired = remove_elements(&xml_str, "p:sldId", "r:id", rel_id);
-                self.package
-                    .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
-            }
+        if source == "ppt/_rels/presentation.xml.rels" {
+            self.remove_from_slide_list(rel_id);
+        }
         Ok(())
     }
 
+    fn remove_from_slide_list(&mut self, rel_id: &str) {
+        if let Some(xml_str) = self.package.get_part_string("ppt/presentation.xml") {
+            let repaired = remove_elements(&xml_str, "p:sldId", "r:id", rel_id);
+            self.package
+                .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
+        }
+    }
+
+    /// Relationship ids of the elements of one name in the presentation part
+    fn presentation_ids(&self, element: &str) -> Vec<String> {
+        self.package
+            .get_part_string("ppt/presentation.xml")
+            .and_then(|xml| XmlParser::parse_str(&xml).ok())
+            .map(|root| {
+                root.find_all_descendants(element)
+                    .into_iter()
+                    .filter_map(|e| e.attr("r:id").map(str::to_string))
+                    .collect()
+            })
+            .unwrap_or_default()
+    }
+
+    /// Parts of the package in one folder, in the order of their numbers
+    fn parts_in(&self, folder: &str) -> Vec<String> {
+        let mut parts: Vec<String> = self
+            .package
+            .part_paths()
+            .iter()
+            .filter(|p| p.starts_with(folder) && p.ends_with(".xml"))
+            .map(|p| p.to_string())
+            .collect();
+        parts.sort_by_key(|p| (p.len(), p.clone()));
+        parts
+    }
+
     fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
         // Add the slide to presentation.xml.rels
         if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
@@ -838,35 +868,90 @@ impl PptxRepair {
     }
 
     fn generate_package_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        let mut rels = String::from(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
   <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="ppt/presentation.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" Target="docProps/core.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties" Target="docProps/app.xml"/>
-</Relationships>"#.to_string()
+"#,
+        );
+        if self.package.has_part("docProps/core.xml") {
+            rels.push_str("  <Relationship Id=\"rId2\" Type=\"http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties\" Target=\"docProps/core.xml\"/>\n");
+        }
+        if self.package.has_part("docProps/app.xml") {
+            rels.push_str("  <Relationship Id=\"rId3\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties\" Target=\"docProps/app.xml\"/>\n");
+        }
+        rels.push_str("</Relationships>");
+        rels
     }
 
     fn generate_presentation_xml(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        let rels = self.relationships("ppt/_rels/presentation.xml.rels");
+        let ids = |kind: &str| -> Vec<&str> {
+            rels.iter()
+                .filter(|r| r.attr("Type").is_some_and(|t| t.ends_with(kind)))
+                .filter_map(|r| r.attr("Id"))
+                .collect()
+        };
+        let master = ids("/slideMaster").first().copied().unwrap_or("rId1");
+        let list = |name: &str, kind: &str| match ids(kind).first() {
+            Some(id) => format!("  <p:{name}IdLst><p:{name}Id r:id=\"{id}\"/></p:{name}IdLst>\n"),
+            None => String::new(),
+        };
+        let slides: String = ids("/slide")
+            .iter()
+            .enumerate()
+            .map(|(i, id)| format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", 256 + i, id))
+            .collect();
+        format!(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
   <p:sldMasterIdLst>
-    <p:sldMasterId id="2147483648" r:id="rId1"/>
+    <p:sldMasterId id="2147483648" r:id="{master}"/>
   </p:sldMasterIdLst>
-  <p:sldIdLst/>
+{}{}  <p:sldIdLst>{slides}</p:sldIdLst>
   <p:sldSz cx="9144000" cy="6858000"/>
   <p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#.to_string()
+</p:presentation>"#,
+            list("notesMaster", "/notesMaster"),
+            list("handoutMaster", "/handoutMaster"),
+        )
     }
 
     fn generate_presentation_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideMaster" Target="slideMasters/slideMaster1.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme" Target="theme/theme1.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/presProps" Target="presProps.xml"/>
-  <Relationship Id="rId4" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/viewProps" Target="viewProps.xml"/>
-  <Relationship Id="rId5" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/tableStyles" Target="tableStyles.xml"/>
-</Relationships>"#.to_string()
+        let mut rels: Vec<(String, &str, String)> = Vec::new();
+        // Parts the presentation names keep the ids it names them by
+        for (element, kind, folder) in [
+            ("sldMasterId", "slideMaster", "ppt/slideMasters/"),
+            ("notesMasterId", "notesMaster", "ppt/notesMasters/"),
+            ("handoutMasterId", "handoutMaster", "ppt/handoutMasters/"),
+        ] {
+            let parts = self.parts_in(folder);
+            rels.extend(self.presentation_ids(element).into_iter().zip(parts).map(|(id, p)| (id, kind, p)));
+        }
+        for (kind, path) in [
+            ("slideMaster", "ppt/slideMasters/slideMaster1.xml"),
+            ("theme", "ppt/theme/theme1.xml"),
+            ("presProps", "ppt/presProps.xml"),
+            ("viewProps", "ppt/viewProps.xml"),
+            ("tableStyles", "ppt/tableStyles.xml"),
+        ] {
+            if self.package.has_part(path) && !rels.iter().any(|(_, _, p)| p == path) {
+                let id = (1..).map(|n| format!("rId{n}")).find(|id| !rels.iter().any(|(r, _, _)| r == id));
+                rels.push((id.unwrap_or_default(), kind, path.to_string()));
+            }
+        }
+        let entries: String = rels
+            .iter()
+            .map(|(id, kind, path)| {
+                format!(
+                    "  <Relationship Id=\"{id}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/{kind}\" Target=\"{}\"/>\n",
+                    path.trim_start_matches("ppt/")
+                )
+            })
+            .collect();
+        format!(
+            "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">\n{entries}</Relationships>"
+        )
     }
 }
 
-- 
2.43.0


From 06febcda731c3591cf9de8f6bd5be88aed559deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:59 +0000
Subject: [PATCH 050/140] fix: parse relationships when validating a package

---
 src/core/package_validation/context.rs | 63 ++++++--------------------
 1 file changed, 15 insertions(+), 48 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index b2e21f0..3df3ccc 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -5,6 +5,8 @@ use std::io::{Read, Seek};
 
 use zip::ZipArchive;
 
+use crate::oxml::XmlParser;
+
 use super::rels::{rels_source_dir, resolve_rel_target};
 use super::report::{PackageValidationIssue, ValidationCategory};
 
@@ -115,52 +117,17 @@ impl PackageContext {
 
 fn parse_relationships(rels_xml: &str, base_dir: &str) -> Vec<Relationship> {
     // base_dir is the directory of the relationship source part
-    let mut relationships = Vec::new();
-    let mut search_from = 0;
-
-    while let Some(id_start) = rels_xml[search_from..].find("Id=\"") {
-        let abs_id = search_from + id_start + 4;
-        let Some(id_end) = rels_xml[abs_id..].find('"') else {
-            break;
-        };
-        let id = rels_xml[abs_id..abs_id + id_end].to_string();
-
-        let target_needle = "Target=\"";
-        let after_id = abs_id + id_end;
-        let Some(target_start) = rels_xml[after_id..].find(target_needle) else {
-            search_from = after_id;
-            continue;
-        };
-        let abs_target = after_id + target_start + target_needle.len();
-        let Some(target_end) = rels_xml[abs_target..].find('"') else {
-            break;
-        };
-        let target = rels_xml[abs_target..abs_target + target_end].to_string();
-
-        // Scope the `TargetMode` lookup to the remainder of this element so the
-        // attribute of a later relationship is never mis-attributed.
-        let element_tail_end = rels_xml[abs_target + target_end..]
-            .find('>')
-            .map(|p| abs_target + target_end + p)
-            .unwrap_or(rels_xml.len());
-        let element_tail = &rels_xml[abs_target + target_end..element_tail_end];
-        let target_mode = if element_tail.contains("TargetMode=\"External\"") {
-            "External".to_string()
-        } else {
-            String::new()
-        };
-
-        let resolved = resolve_rel_target(base_dir, &target);
-
-        relationships.push(Relationship {
-            id,
-            target,
-            resolved,
-            target_mode,
-        });
-
-        search_from = element_tail_end;
-    }
-
-    relationships
+    let Ok(root) = XmlParser::parse_str(rels_xml) else { return Vec::new() };
+    root.find_all("Relationship")
+        .into_iter()
+        .map(|rel| {
+            let attr = |name: &str| rel.attr(name).unwrap_or_default().to_string();
+            Relationship {
+                id: attr("Id"),
+                resolved: resolve_rel_target(base_dir, &attr("Target")),
+                target: attr("Target"),
+                target_mode: attr("TargetMode"),
+            }
+        })
+        .collect()
 }
-- 
2.43.0


From 090910939e6cf336469025c7732617d9eac044a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:01 +0000
Subject: [PATCH 051/140] fix: report parts of a package that cannot be read

---
 src/core/package_validation/context.rs | 20 +++++++++++++++-
 src/core/package_validation/rules.rs   | 32 +++++++++++++++++++-------
 2 files changed, 43 insertions(+), 9 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index 3df3ccc..b739664 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -31,7 +31,8 @@ impl PackageContext {
     pub fn from_archive<R: Read + Seek>(archive: &mut ZipArchive<R>) -> Self {
         let mut names = std::collections::HashSet::new();
         for i in 0..archive.len() {
-            if let Ok(file) = archive.by_index(i)
+            // Names are known even of entries that cannot be decompressed
+            if let Ok(file) = archive.by_index_raw(i)
                 && !file.is_dir() {
                     names.insert(file.name().to_string());
                 }
@@ -91,6 +92,23 @@ impl PackageContext {
         Some(content)
     }
 
+    /// Why a part cannot be read, if it cannot
+    pub fn read_error<R: Read + Seek>(
+        &self,
+        archive: &mut ZipArchive<R>,
+        path: &str,
+    ) -> Option<PackageValidationIssue> {
+        let error = match archive.by_name(path) {
+            Ok(mut file) => std::io::copy(&mut file, &mut std::io::sink()).err()?.to_string(),
+            Err(e) => e.to_string(),
+        };
+        Some(PackageValidationIssue::error(
+            ValidationCategory::MissingPart,
+            format!("Cannot read part {path}: {error}"),
+            Some(path),
+        ))
+    }
+
     fn read_part_from_archive<R: Read + Seek>(
         &self,
         archive: &mut ZipArchive<R>,
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index ff87f65..3a3100c 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -35,6 +35,7 @@ pub fn validate_package<R: Read + Seek>(archive: &mut ZipArchive<R>) -> PackageV
     let mut report = PackageValidationReport::default();
 
     check_required_parts(&ctx, &mut report);
+    check_readable_parts(&ctx, archive, &mut report);
     check_xml_parts(&mut ctx, archive, &mut report);
     check_relationship_targets(&ctx, &mut report);
     check_content_types(&mut ctx, archive, &mut report);
@@ -80,6 +81,18 @@ fn check_required_parts(ctx: &PackageContext, report: &mut PackageValidationRepo
     }
 }
 
+fn check_readable_parts<R: Read + Seek>(
+    ctx: &PackageContext,
+    archive: &mut ZipArchive<R>,
+    report: &mut PackageValidationReport,
+) {
+    for path in &ctx.names {
+        if let Some(issue) = ctx.read_error(archive, path) {
+            report.push(issue);
+        }
+    }
+}
+
 fn check_xml_parts<R: Read + Seek>(
     ctx: &mut PackageContext,
     archive: &mut ZipArchive<R>,
@@ -93,14 +106,17 @@ fn check_xml_parts<R: Read + Seek>(
         .collect();
 
     for path in xml_parts {
-        if let Some(content) = ctx.read_part(archive, &path)
-            && let Err(e) = validate_well_formed_xml(&content) {
-                report.push(PackageValidationIssue::error(
-                    ValidationCategory::Xml,
-                    e.to_string(),
-                    Some(&path),
-                ));
-            }
+        let problem = match ctx.read_part(archive, &path) {
+            Some(content) => validate_well_formed_xml(&content).err().map(|e| e.to_string()),
+            None => Some(format!("{path} is not UTF-8 text")),
+        };
+        if let Some(message) = problem {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::Xml,
+                message,
+                Some(&path),
+            ));
+        }
     }
 }
 
-- 
2.43.0


From eaca53b36886cdfb36a3367481457991b7ca328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:00 +0000
Subject: [PATCH 052/140] fix: reject XML with more than one root element

---
 src/oxml/xmlchemy.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 76b874a..849f032 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -5,7 +5,7 @@
 use crate::exc::PptxError;
 use std::collections::HashMap;
 use std::io::Read;
-use xml::reader::{EventReader, XmlEvent};
+use xml::reader::{EventReader, ParserConfig, XmlEvent};
 
 /// Represents an XML element with attributes and children
 #[derive(Debug, Clone)]
@@ -134,7 +134,8 @@ impl XmlParser {
 
     /// Parse XML from a reader
     pub fn parse<R: Read>(reader: R) -> Result<XmlElement, PptxError> {
-        let parser = EventReader::new(reader);
+        let config = ParserConfig::new().allow_multiple_root_elements(false);
+        let parser = EventReader::new_with_config(reader, config);
         let mut stack: Vec<XmlElement> = Vec::new();
         let mut root: Option<XmlElement> = None;
 
-- 
2.43.0


From 1a134fbd464ca8bbc989daaee5d8e3a0877ce1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 053/140] fix: report parts that are not UTF-8 text when
 repairing

---
 src/oxml/repair.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 559701b..a06bd76 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -298,8 +298,11 @@ impl PptxRepair {
 
         for path in xml_parts {
             if let Some(content) = self.package.get_part(&path) {
-                let xml_str = String::from_utf8_lossy(content);
-                if let Err(e) = self.validate_xml(&xml_str) {
+                let checked = match std::str::from_utf8(content) {
+                    Ok(xml_str) => self.validate_xml(xml_str),
+                    Err(e) => Err(e.to_string()),
+                };
+                if let Err(e) = checked {
                     self.issues.push(RepairIssue::InvalidXml { path, error: e });
                 }
             }
-- 
2.43.0


From fe11bc15f0ed00c15f8b1c462b0c63e2b8491680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:11 +0000
Subject: [PATCH 054/140] fix: keep relationships to parts that were generated
 by the same repair

---
 src/oxml/repair.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index a06bd76..eca5eb7 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -223,8 +223,12 @@ impl PptxRepair {
             return result;
         }
 
-        // Attempt to repair each issue
-        for issue in &result.issues_found.clone() {
+        // Attempt to repair each issue, the content types once the other parts are there
+        let mut issues = result.issues_found.clone();
+        issues.sort_by_key(|issue| {
+            matches!(issue, RepairIssue::MissingPart { path, .. } if path == "[Content_Types].xml")
+        });
+        for issue in &issues {
             if issue.is_repairable() {
                 match self.repair_issue(issue) {
                     Ok(()) => result.issues_repaired.push(issue.clone()),
@@ -543,9 +547,13 @@ impl PptxRepair {
     fn repair_broken_relationship(
         &mut self,
         source: &str,
-        _target: &str,
+        target: &str,
         rel_id: &str,
     ) -> Result<()> {
+        // A part that was missing may have been generated by now
+        if self.package.has_part(target) {
+            return Ok(());
+        }
         // Remove the broken relationship from the rels file
         if let Some(xml_str) = self.package.get_part_string(source) {
             let repaired = remove_elements(&xml_str, "Relationship", "Id", rel_id);
-- 
2.43.0


From 90c03a52f66efd82af99355dfe049dcff5af4226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:13 +0000
Subject: [PATCH 055/140] fix: restore all relationships of the package when
 repairing them

---
 src/oxml/repair.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index eca5eb7..c651861 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -885,11 +885,24 @@ impl PptxRepair {
   <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="ppt/presentation.xml"/>
 "#,
         );
-        if self.package.has_part("docProps/core.xml") {
-            rels.push_str("  <Relationship Id=\"rId2\" Type=\"http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties\" Target=\"docProps/core.xml\"/>\n");
-        }
-        if self.package.has_part("docProps/app.xml") {
-            rels.push_str("  <Relationship Id=\"rId3\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties\" Target=\"docProps/app.xml\"/>\n");
+        let package_rel = "http://schemas.openxmlformats.org/package/2006/relationships";
+        let office_rel = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+        for (i, (part, base, kind)) in [
+            ("docProps/core.xml", package_rel, "metadata/core-properties"),
+            ("docProps/app.xml", office_rel, "extended-properties"),
+            ("docProps/custom.xml", office_rel, "custom-properties"),
+            ("docProps/thumbnail.jpeg", package_rel, "metadata/thumbnail"),
+            ("_xmlsignatures/origin.sigs", package_rel, "digital-signature/origin"),
+        ]
+        .into_iter()
+        .enumerate()
+        {
+            if self.package.has_part(part) {
+                rels.push_str(&format!(
+                    "  <Relationship Id=\"rId{}\" Type=\"{base}/{kind}\" Target=\"{part}\"/>\n",
+                    i + 2
+                ));
+            }
         }
         rels.push_str("</Relationships>");
         rels
-- 
2.43.0


From 9d4335704d02246902201fd199b4dcc80acdd46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:10 +0000
Subject: [PATCH 056/140] fix: drop bytes that are not text when repairing XML

---
 src/oxml/repair.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index c651861..e748fc1 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -499,7 +499,8 @@ impl PptxRepair {
 
     fn repair_invalid_xml(&mut self, path: &str) -> Result<()> {
         if let Some(content) = self.package.get_part(path) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
+            // Bytes that are not text are dropped
+            let xml_str: String = content.utf8_chunks().map(|chunk| chunk.valid()).collect();
 
             // Try to repair using anyrepair for JSON-like structures
             // For XML, we try basic fixes
-- 
2.43.0


From 276cd1d43d2f9954f2417227eceeb58e10af6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 057/140] fix: repair XML before the parts that depend on it

---
 src/oxml/repair.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index e748fc1..a3fa260 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -223,10 +223,13 @@ impl PptxRepair {
             return result;
         }
 
-        // Attempt to repair each issue, the content types once the other parts are there
+        // Attempt to repair each issue: first the XML that the others need to read,
+        // the content types once the other parts are there
         let mut issues = result.issues_found.clone();
-        issues.sort_by_key(|issue| {
-            matches!(issue, RepairIssue::MissingPart { path, .. } if path == "[Content_Types].xml")
+        issues.sort_by_key(|issue| match issue {
+            RepairIssue::InvalidXml { .. } => 0,
+            RepairIssue::MissingPart { path, .. } if path == "[Content_Types].xml" => 2,
+            _ => 1,
         });
         for issue in &issues {
             if issue.is_repairable() {
-- 
2.43.0


From 8eb8272da91e038f1e69ac6523f6fd6f314dc7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:19 +0000
Subject: [PATCH 058/140] fix: do not list slides twice when their list was
 repaired first

---
 src/oxml/repair.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index a3fa260..daa4624 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -607,6 +607,15 @@ impl PptxRepair {
     }
 
     fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
+        // The list of slides may have become readable by now
+        let source = "ppt/_rels/presentation.xml.rels";
+        let referenced = self.relationships(source).iter().any(|rel| {
+            self.resolve_path(source, rel.attr("Target").unwrap_or_default()) == slide_path
+        });
+        if referenced {
+            return Ok(());
+        }
+
         // Add the slide to presentation.xml.rels
         if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
             let xml_str = String::from_utf8_lossy(content).to_string();
-- 
2.43.0


From 95cc0c0537970d216cc6cfc5c56aefbf92805f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:05 +0000
Subject: [PATCH 059/140] fix: save the parts of a package in a fixed order

---
 src/opc/package.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/opc/package.rs b/src/opc/package.rs
index 853766f..428ae70 100644
--- a/src/opc/package.rs
+++ b/src/opc/package.rs
@@ -56,7 +56,11 @@ impl Package {
     pub fn save_writer<W: std::io::Write + std::io::Seek>(&self, writer: W) -> Result<()> {
         let mut archive = zip::ZipWriter::new(writer);
 
-        for (path, content) in &self.parts {
+        // Always in the same order, the content types first
+        let mut parts: Vec<_> = self.parts.iter().collect();
+        parts.sort_by_key(|(path, _)| (path.as_str() != "[Content_Types].xml", path.as_str()));
+
+        for (path, content) in parts {
             let options = zip::write::FileOptions::default();
             archive.start_file(path, options)?;
             std::io::Write::write_all(&mut archive, content)?;
-- 
2.43.0


From b29f432444fdb8836dc447b9d578629de9805e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 060/140] fix: keep the text of elements when removing
 whitespace from XML

---
 src/opc/compress.rs | 79 ++++++++++++++++++++++-----------------------
 1 file changed, 39 insertions(+), 40 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bb01efb..2e9c85f 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -357,8 +357,8 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
         .collect();
 
     for path in xml_paths {
-        if let Some(content) = package.get_part_string(&path) {
-            let optimized = minimize_xml(&content);
+        if let Some(Ok(content)) = package.get_part(&path).map(std::str::from_utf8) {
+            let optimized = minimize_xml(content);
             package.add_part(path, optimized.into_bytes());
         }
     }
@@ -366,52 +366,51 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
     Ok(())
 }
 
-/// Minimize XML by removing unnecessary whitespace
+/// Minimize XML by removing the whitespace between tags
+///
+/// Text is kept as it is, also where an element holds nothing but whitespace.
 fn minimize_xml(xml: &str) -> String {
     let mut result = String::with_capacity(xml.len());
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut prev_char = ' ';
-
-    for ch in xml.chars() {
-        match ch {
-            '"' if !in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '"' if in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '<' if !in_string => {
-                in_tag = true;
-                // Remove whitespace before tag
-                if (prev_char == ' ' || prev_char == '\n' || prev_char == '\t')
-                    && !result.is_empty() {
-                        result.pop();
-                    }
-                result.push(ch);
-            }
-            '>' if !in_string => {
-                in_tag = false;
-                result.push(ch);
-            }
-            ' ' | '\n' | '\t' | '\r' if !in_tag && !in_string => {
-                // Skip whitespace between tags
-                if prev_char != ' ' {
-                    result.push(' ');
-                }
-            }
-            _ => {
-                result.push(ch);
-            }
+    let mut rest = xml;
+    let mut after_start_tag = false;
+
+    while !rest.is_empty() {
+        let (text, markup) = rest.split_at(rest.find('<').unwrap_or(rest.len()));
+        let is_leaf_text = after_start_tag && markup.starts_with("</");
+        let is_blank = text.bytes().all(|b| b.is_ascii_whitespace());
+        if !is_blank || is_leaf_text || markup.starts_with("<![CDATA[") {
+            result.push_str(text);
         }
-        prev_char = ch;
+
+        let (tag, remainder) = markup.split_at(markup_end(markup));
+        result.push_str(tag);
+        after_start_tag =
+            !tag.starts_with("</") && !tag.ends_with("/>") && !tag.starts_with("<!") && !tag.starts_with("<?");
+        rest = remainder;
     }
 
     result
 }
 
+/// Length of the tag, comment, CDATA section or processing instruction at the beginning
+fn markup_end(markup: &str) -> usize {
+    for (open, close) in [("<!--", "-->"), ("<![CDATA[", "]]>"), ("<?", "?>")] {
+        if markup.starts_with(open) {
+            return markup.find(close).map_or(markup.len(), |end| end + close.len());
+        }
+    }
+    let mut quote = None;
+    for (i, c) in markup.char_indices() {
+        match (quote, c) {
+            (None, '>') => return i + 1,
+            (None, '"' | '\'') => quote = Some(c),
+            (Some(q), _) if q == c => quote = None,
+            _ => {}
+        }
+    }
+    markup.len()
+}
+
 /// Analyze PPTX file and return size breakdown
 pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
     let package = Package::open(path.as_ref())?;
-- 
2.43.0


From 596d359f611e863465bae10c3e48525f07783449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:08 +0000
Subject: [PATCH 061/140] fix: keep media that are used, and leave no reference
 to what compression removes

---
 src/opc/compress.rs      | 144 ++++++++++++++++++++++++++-------------
 src/oxml/editor.rs       |   2 +-
 src/oxml/presentation.rs |   2 +-
 3 files changed, 97 insertions(+), 51 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 2e9c85f..eeb66cc 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -8,6 +8,9 @@
 
 use super::Package;
 use crate::exc::Result;
+use crate::oxml::editor::remove_elements;
+use crate::oxml::presentation::resolve_target;
+use crate::oxml::XmlParser;
 use std::collections::HashSet;
 use std::path::Path;
 
@@ -227,6 +230,11 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
         remove_notes_slides(&mut package)?;
     }
 
+    // Remove comments if requested
+    if options.remove_comments {
+        remove_comments(&mut package);
+    }
+
     // Optimize XML
     if options.optimize_xml {
         optimize_xml_content(&mut package)?;
@@ -278,75 +286,113 @@ pub fn compress_pptx_in_memory(
 
 /// Remove unused media files from package
 fn remove_unused_media(package: &mut Package) -> Result<usize> {
-    let media_paths: Vec<String> = package
+    // Media are used by the parts whose relationships lead to them
+    let referenced: HashSet<String> = package
         .part_paths()
-        .iter()
-        .filter(|p| p.starts_with("ppt/media/"))
+        .into_iter()
+        .filter(|p| p.ends_with(".rels"))
+        .flat_map(|p| relationship_targets(package, p))
+        .map(|(_, target)| target)
+        .collect();
+
+    let unused: Vec<String> = package
+        .part_paths()
+        .into_iter()
+        .filter(|p| p.starts_with("ppt/media/") && !referenced.contains(*p))
         .map(|s| s.to_string())
         .collect();
 
-    let mut referenced = HashSet::new();
-    let mut removed = 0;
-
-    // Find all media references in slide files
-    for path in package.part_paths() {
-        if path.starts_with("ppt/slides/slide") && path.ends_with(".xml")
-            && let Some(content) = package.get_part_string(path) {
-                // Look for media references like rId5, image1.png, etc.
-                for media_path in &media_paths {
-                    let filename = Path::new(media_path)
-                        .file_name()
-                        .and_then(|n| n.to_str())
-                        .unwrap_or("");
-                    if content.contains(filename) || content.contains(&media_path[4..]) {
-                        referenced.insert(media_path.clone());
-                    }
-                }
-            }
+    remove_parts(package, &unused);
+    Ok(unused.len())
+}
+
+/// Ids and target parts of the relationships in a relationships part
+fn relationship_targets(package: &Package, rels_path: &str) -> Vec<(String, String)> {
+    let dir = rels_path.rsplit_once("_rels/").map_or("", |(dir, _)| dir);
+    let xml = package.get_part_string(rels_path).unwrap_or_default();
+    let Ok(root) = XmlParser::parse_str(&xml) else { return Vec::new() };
+    root.find_all("Relationship")
+        .into_iter()
+        .filter(|rel| rel.attr("TargetMode") != Some("External"))
+        .filter_map(|rel| Some((rel.attr("Id")?.to_string(), resolve_target(dir, rel.attr("Target")?))))
+        .collect()
+}
+
+/// Remove parts together with their relationships, the relationships that lead to them
+/// and their content types
+fn remove_parts(package: &mut Package, paths: &[String]) {
+    for path in paths {
+        package.remove_part(path);
+        let (dir, name) = path.rsplit_once('/').unwrap_or(("", path));
+        package.remove_part(format!("{dir}/_rels/{name}.rels").trim_start_matches('/'));
     }
 
-    // Remove unreferenced media
-    for media_path in media_paths {
-        if !referenced.contains(&media_path) {
-            package.remove_part(&media_path);
-            removed += 1;
+    let rels_paths: Vec<String> = package
+        .part_paths()
+        .into_iter()
+        .filter(|p| p.ends_with(".rels"))
+        .map(|s| s.to_string())
+        .collect();
+    for rels_path in rels_paths {
+        for (id, target) in relationship_targets(package, &rels_path) {
+            if paths.contains(&target) {
+                remove_from_part(package, &rels_path, "Relationship", "Id", &id);
+            }
         }
     }
+    for path in paths {
+        remove_from_part(package, "[Content_Types].xml", "Override", "PartName", &format!("/{path}"));
+    }
+}
+
+fn remove_from_part(package: &mut Package, path: &str, tag: &str, attr: &str, value: &str) {
+    if let Some(xml) = package.get_part_string(path) {
+        let edited = remove_elements(&xml, tag, attr, value);
+        package.add_part(path.to_string(), edited.into_bytes());
+    }
+}
 
-    Ok(removed)
+/// Paths of the parts that fulfil a condition
+fn parts_where(package: &Package, condition: impl Fn(&str) -> bool) -> Vec<String> {
+    package
+        .part_paths()
+        .into_iter()
+        .filter(|p| condition(p))
+        .map(|s| s.to_string())
+        .collect()
 }
 
 /// Remove document properties
 fn remove_document_properties(package: &mut Package) {
-    // Remove core properties
-    package.remove_part("docProps/core.xml");
-    // Remove app properties
-    package.remove_part("docProps/app.xml");
-    // Remove custom properties
-    package.remove_part("docProps/custom.xml");
-    // Remove thumbnail
-    package.remove_part("docProps/thumbnail.jpeg");
+    let paths = parts_where(package, |p| {
+        matches!(
+            p,
+            "docProps/core.xml"
+                | "docProps/app.xml"
+                | "docProps/custom.xml"
+                | "docProps/thumbnail.jpeg"
+        )
+    });
+    remove_parts(package, &paths);
 }
 
 /// Remove notes slides
 fn remove_notes_slides(package: &mut Package) -> Result<()> {
-    let notes_paths: Vec<String> = package
-        .part_paths()
-        .iter()
-        .filter(|p| p.starts_with("ppt/notesSlides/"))
-        .map(|s| s.to_string())
-        .collect();
-
-    for path in notes_paths {
-        package.remove_part(&path);
-        // Also remove relationships
-        let rels_path = path.replace("notesSlides/", "notesSlides/_rels/") + ".rels";
-        package.remove_part(&rels_path);
-    }
-
+    let paths = parts_where(package, |p| {
+        p.starts_with("ppt/notesSlides/") && !p.ends_with(".rels")
+    });
+    remove_parts(package, &paths);
     Ok(())
 }
 
+/// Remove comments and their authors
+fn remove_comments(package: &mut Package) {
+    let paths = parts_where(package, |p| {
+        (p.starts_with("ppt/comments/") && !p.ends_with(".rels")) || p == "ppt/commentAuthors.xml"
+    });
+    remove_parts(package, &paths);
+}
+
 /// Optimize XML content (minimize whitespace)
 fn optimize_xml_content(package: &mut Package) -> Result<()> {
     let xml_paths: Vec<String> = package
diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index dd8ec59..4625020 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -373,7 +373,7 @@ fn insert_before(xml: &str, marker: &str, text: &str) -> String {
 }
 
 /// Remove the elements of one name that have the given attribute value
-pub(super) fn remove_elements(xml: &str, tag: &str, attr: &str, value: &str) -> String {
+pub(crate) fn remove_elements(xml: &str, tag: &str, attr: &str, value: &str) -> String {
     let open = format!("<{tag}");
     let close = format!("</{tag}>");
     let mut result = String::with_capacity(xml.len());
diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index d64b8fa..efe7b4e 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -224,7 +224,7 @@ impl PresentationReader {
 }
 
 /// Resolve a relationship target of a part in the given folder to a part path
-pub(super) fn resolve_target(dir: &str, target: &str) -> String {
+pub(crate) fn resolve_target(dir: &str, target: &str) -> String {
     let dir = if target.starts_with('/') { "" } else { dir };
     let mut segments: Vec<&str> = dir.split('/').filter(|s| !s.is_empty()).collect();
     for segment in target.split('/') {
-- 
2.43.0


From 15f42d56791aa2b64e6df886710d9e32ec934865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:10 +0000
Subject: [PATCH 062/140] fix: compress in memory without shared temporary
 files, also when the result is larger

---
 src/opc/compress.rs | 64 ++++++++++++++++++++-------------------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index eeb66cc..75edb58 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -207,10 +207,21 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
     output_path: Q,
     options: &CompressionOptions,
 ) -> Result<CompressionResult> {
+    let data = std::fs::read(input_path.as_ref())?;
+    let (compressed, result) = compress_pptx_in_memory(&data, options)?;
+    std::fs::write(output_path.as_ref(), compressed)?;
+    Ok(result)
+}
+
+/// Compress a PPTX in memory
+pub fn compress_pptx_in_memory(
+    data: &[u8],
+    options: &CompressionOptions,
+) -> Result<(Vec<u8>, CompressionResult)> {
     // Load package
-    let mut package = Package::open(input_path.as_ref())?;
+    let mut package = Package::open_reader(std::io::Cursor::new(data))?;
 
-    let original_size = std::fs::metadata(input_path.as_ref())?.len() as usize;
+    let original_size = data.len();
 
     let mut unused_media_removed = 0;
     let images_compressed = 0;
@@ -241,47 +252,30 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
     }
 
     // Save compressed package
-    package.save(output_path.as_ref())?;
+    let mut output = std::io::Cursor::new(Vec::new());
+    package.save_writer(&mut output)?;
+    let output = output.into_inner();
 
-    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+    let compressed_size = output.len();
     let reduction_percent = if original_size > 0 {
-        ((original_size - compressed_size) as f64 / original_size as f64) * 100.0
+        (1.0 - compressed_size as f64 / original_size as f64) * 100.0
     } else {
         0.0
     };
 
     let target_achieved = options.target_size == 0 || compressed_size <= options.target_size;
 
-    Ok(CompressionResult {
-        original_size,
-        compressed_size,
-        reduction_percent,
-        unused_media_removed,
-        images_compressed,
-        target_achieved,
-    })
-}
-
-/// Compress a PPTX in memory
-pub fn compress_pptx_in_memory(
-    data: &[u8],
-    options: &CompressionOptions,
-) -> Result<(Vec<u8>, CompressionResult)> {
-    // Write to temp file
-    let temp_dir = std::env::temp_dir();
-    let temp_input = temp_dir.join("compress_input.pptx");
-    let temp_output = temp_dir.join("compress_output.pptx");
-
-    std::fs::write(&temp_input, data)?;
-
-    let result = compress_pptx(&temp_input, &temp_output, options)?;
-    let output_data = std::fs::read(&temp_output)?;
-
-    // Cleanup
-    let _ = std::fs::remove_file(&temp_input);
-    let _ = std::fs::remove_file(&temp_output);
-
-    Ok((output_data, result))
+    Ok((
+        output,
+        CompressionResult {
+            original_size,
+            compressed_size,
+            reduction_percent,
+            unused_media_removed,
+            images_compressed,
+            target_achieved,
+        },
+    ))
 }
 
 /// Remove unused media files from package
-- 
2.43.0


From 299e704944c39a7d437c10e0914624180f07cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:11 +0000
Subject: [PATCH 063/140] fix: count images of every format as images when
 analysing size

---
 src/opc/compress.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 75edb58..d91550f 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -469,10 +469,11 @@ pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
             let size = data.len();
 
             if part_path.starts_with("ppt/media/") {
-                if part_path.ends_with(".png")
-                    || part_path.ends_with(".jpg")
-                    || part_path.ends_with(".jpeg")
-                {
+                let extension = part_path.rsplit('.').next().unwrap_or("").to_ascii_lowercase();
+                if matches!(
+                    extension.as_str(),
+                    "png" | "jpg" | "jpeg" | "gif" | "bmp" | "tif" | "tiff" | "svg" | "webp" | "emf" | "wmf"
+                ) {
                     images_size += size;
                     image_count += 1;
                 } else {
-- 
2.43.0


From 056a41f247284ca4c05704dc04701aceed675689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:39 +0000
Subject: [PATCH 064/140] fix: keep relationships that became readable by the
 same repair

---
 src/oxml/repair.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index daa4624..16d0e64 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -551,11 +551,15 @@ impl PptxRepair {
     fn repair_broken_relationship(
         &mut self,
         source: &str,
-        target: &str,
+        _target: &str,
         rel_id: &str,
     ) -> Result<()> {
-        // A part that was missing may have been generated by now
-        if self.package.has_part(target) {
+        // The part may have been generated, or the relationship become readable, by now
+        let leads_to_part = self.relationships(source).iter().any(|rel| {
+            rel.attr("Id") == Some(rel_id)
+                && rel.attr("Target").is_some_and(|t| self.package.has_part(&self.resolve_path(source, t)))
+        });
+        if leads_to_part {
             return Ok(());
         }
         // Remove the broken relationship from the rels file
-- 
2.43.0


From 4867c2d0eb9e7bf719b6a5b4ec3cd622959bdf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:34 +0000
Subject: [PATCH 065/140] fix: reject XML nested so deeply that walking it
 overflows the stack

---
 src/oxml/xmlchemy.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 849f032..a3ed35a 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -123,6 +123,10 @@ impl XmlElement {
     }
 }
 
+/// Deepest accepted nesting of elements. The element tree is walked, dropped
+/// and cloned recursively, so unbounded nesting would overflow the stack.
+const MAX_DEPTH: usize = 1000;
+
 /// XML Parser for Office XML documents
 pub struct XmlParser;
 
@@ -167,6 +171,11 @@ impl XmlParser {
                         element.set_attr(&attr_name, &attr.value);
                     }
 
+                    if stack.len() >= MAX_DEPTH {
+                        return Err(PptxError::XmlParse(format!(
+                            "Elements nested deeper than {MAX_DEPTH} levels"
+                        )));
+                    }
                     stack.push(element);
                 }
                 Ok(XmlEvent::EndElement { .. }) => {
-- 
2.43.0


From 9b91e55994b3f8311d4f3e1f721fe105f83fb1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:14 +0000
Subject: [PATCH 066/140] fix: keep all list items, notes, tables and marks
 when importing Markdown

---
 src/cli/markdown/parser.rs | 271 +++++++++++++++++--------------------
 1 file changed, 127 insertions(+), 144 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index e6afe33..8da2034 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -7,7 +7,7 @@ use pulldown_cmark::{Event, HeadingLevel, Options, Parser, Tag, TagEnd};
 
 use super::mermaid;
 use crate::generator::{
-    CodeBlock, Shape, ShapeFill, ShapeType, SlideContent,
+    BulletPoint, BulletStyle, CodeBlock, Shape, ShapeFill, ShapeType, SlideContent,
 };
 
 /// Parse markdown content into slides
@@ -16,22 +16,14 @@ pub fn parse(content: &str) -> Result<Vec<SlideContent>, String> {
     parser.parse(content)
 }
 
-/// Represents a task list item
-#[derive(Clone, Debug)]
-struct TaskItem {
-    text: String,
-    checked: bool,
-}
-
 /// State machine for markdown parsing
 struct MarkdownParser {
     slides: Vec<SlideContent>,
     current_slide: Option<SlideContent>,
     current_text: String,
-    // List state
-    in_list: bool,
-    list_items: Vec<String>,
-    task_items: Vec<TaskItem>,
+    // List state: whether each open list is ordered, and the items so far
+    open_lists: Vec<bool>,
+    list_items: Vec<BulletPoint>,
     // Table state
     in_table: bool,
     table_rows: Vec<Vec<String>>,
@@ -42,17 +34,13 @@ struct MarkdownParser {
     in_code_block: bool,
     code_content: String,
     code_language: Option<String>,
-    // Formatting state
-    is_bold: bool,
-    is_italic: bool,
-    is_strikethrough: bool,
     // Blockquote (speaker notes)
-    in_blockquote: bool,
+    blockquote_depth: usize,
     blockquote_text: String,
-    // Image state
+    // Image state: address and alternative text
     pending_image: Option<(String, String)>,
-    // Task list state
-    current_task_checked: bool,
+    // Checkbox of the current item, if it is a task
+    current_task_checked: Option<bool>,
 }
 
 impl MarkdownParser {
@@ -61,9 +49,8 @@ impl MarkdownParser {
             slides: Vec::new(),
             current_slide: None,
             current_text: String::new(),
-            in_list: false,
+            open_lists: Vec::new(),
             list_items: Vec::new(),
-            task_items: Vec::new(),
             in_table: false,
             table_rows: Vec::new(),
             current_row: Vec::new(),
@@ -72,13 +59,10 @@ impl MarkdownParser {
             in_code_block: false,
             code_content: String::new(),
             code_language: None,
-            is_bold: false,
-            is_italic: false,
-            is_strikethrough: false,
-            in_blockquote: false,
+            blockquote_depth: 0,
             blockquote_text: String::new(),
             pending_image: None,
-            current_task_checked: false,
+            current_task_checked: None,
         }
     }
 
@@ -105,6 +89,12 @@ impl MarkdownParser {
 
     fn handle_event(&mut self, event: Event) {
         match event {
+            // A heading in a quote is part of the notes
+            Event::Start(Tag::Heading { .. }) if self.blockquote_depth > 0 => {}
+            Event::End(TagEnd::Heading(_)) if self.blockquote_depth > 0 => {
+                self.blockquote_text.push('\n');
+            }
+
             // Headings create new slides
             Event::Start(Tag::Heading { level, .. }) => {
                 if level == HeadingLevel::H1 {
@@ -116,35 +106,34 @@ impl MarkdownParser {
                 let title = std::mem::take(&mut self.current_text).trim().to_string();
                 if level == HeadingLevel::H1 {
                     self.current_slide = Some(SlideContent::new(&title));
-                } else if let Some(ref mut slide) = self.current_slide {
-                    let formatted = format!("**{}**", title);
-                    *slide = slide.clone().add_bullet(&formatted);
+                } else {
+                    self.add_paragraph(&format!("**{}**", title));
                 }
             }
 
             // Lists
-            Event::Start(Tag::List(_)) => {
-                self.in_list = true;
-                self.list_items.clear();
-                self.task_items.clear();
+            Event::Start(Tag::List(start)) => {
+                // The text of an item comes before the list nested in it
+                self.finish_list_item();
+                self.open_lists.push(start.is_some());
             }
             Event::End(TagEnd::List(_)) => {
-                self.in_list = false;
-                self.flush_list_items();
+                self.open_lists.pop();
+                if self.open_lists.is_empty() {
+                    self.flush_list_items();
+                }
             }
             Event::Start(Tag::Item) => {
                 self.current_text.clear();
                 // Reset task state for new item
-                self.current_task_checked = false;
+                self.current_task_checked = None;
             }
+            Event::TaskListMarker(checked) => self.current_task_checked = Some(checked),
             Event::End(TagEnd::Item) => {
-                let item = std::mem::take(&mut self.current_text).trim().to_string();
-                if !item.is_empty() {
-                    // Since pulldown-cmark may have stripped the [x]/[ ] already,
-                    // we need to check for task items differently
-                    // For now, we'll treat all items as regular bullets
-                    // and let the user add special characters if they want
-                    self.list_items.push(item);
+                if self.blockquote_depth > 0 {
+                    self.blockquote_text.push('\n');
+                } else {
+                    self.finish_list_item();
                 }
             }
 
@@ -207,21 +196,21 @@ impl MarkdownParser {
 
             // Blockquotes (speaker notes)
             Event::Start(Tag::BlockQuote) => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+                self.blockquote_depth += 1;
             }
             Event::End(TagEnd::BlockQuote) => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
+                self.blockquote_depth -= 1;
+                if self.blockquote_depth == 0 {
+                    self.flush_blockquote();
+                }
             }
 
             // Inline formatting
-            Event::Start(Tag::Strong) => self.is_bold = true,
-            Event::End(TagEnd::Strong) => self.is_bold = false,
-            Event::Start(Tag::Emphasis) => self.is_italic = true,
-            Event::End(TagEnd::Emphasis) => self.is_italic = false,
-            Event::Start(Tag::Strikethrough) => self.is_strikethrough = true,
-            Event::End(TagEnd::Strikethrough) => self.is_strikethrough = false,
+            Event::Start(Tag::Strong) | Event::End(TagEnd::Strong) => self.push_text("**"),
+            Event::Start(Tag::Emphasis) | Event::End(TagEnd::Emphasis) => self.push_text("*"),
+            Event::Start(Tag::Strikethrough) | Event::End(TagEnd::Strikethrough) => {
+                self.push_text("~~")
+            }
             Event::Code(code) => {
                 let formatted = format!("`{}`", code);
                 self.push_text(&formatted);
@@ -234,24 +223,24 @@ impl MarkdownParser {
                 if html_str.contains("<mark>") || html_str.contains("<ins>") {
                     // Highlight syntax: ==text== or <ins>text</ins>
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str.find("</")
+                            && let Some(text) = html_str.get(start + 1..end) {
                             self.push_text(&format!("=={}==", text));
                         }
                     }
                 } else if html_str.contains("<sub>") {
                     // Subscript
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str.find("</")
+                            && let Some(text) = html_str.get(start + 1..end) {
                             self.push_text(&format!("~{}~", text));
                         }
                     }
                 } else if html_str.contains("<sup>") {
                     // Superscript
                     if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
+                        if let Some(end) = html_str.find("</")
+                            && let Some(text) = html_str.get(start + 1..end) {
                             self.push_text(&format!("^{}^", text));
                         }
                     }
@@ -259,10 +248,8 @@ impl MarkdownParser {
             }
 
             // Images
-            Event::Start(Tag::Image {
-                dest_url, title, ..
-            }) => {
-                self.pending_image = Some((dest_url.to_string(), title.to_string()));
+            Event::Start(Tag::Image { dest_url, .. }) => {
+                self.pending_image = Some((dest_url.to_string(), String::new()));
             }
             Event::End(TagEnd::Image) => {
                 if let Some((url, alt)) = self.pending_image.take() {
@@ -271,13 +258,7 @@ impl MarkdownParser {
             }
 
             // Horizontal rule = slide break
-            Event::Rule => {
-                self.finalize_current_slide();
-                if let Some(last) = self.slides.last() {
-                    let title = format!("{} (continued)", last.title);
-                    self.current_slide = Some(SlideContent::new(&title));
-                }
-            }
+            Event::Rule => self.continue_on_new_slide(),
 
             // Text content
             Event::Text(text) => {
@@ -289,12 +270,16 @@ impl MarkdownParser {
 
             // Paragraphs
             Event::Start(Tag::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
+                if self.open_lists.is_empty() && !self.in_table && self.blockquote_depth == 0 && !self.in_code_block {
                     self.current_text.clear();
                 }
             }
             Event::End(TagEnd::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
+                if self.blockquote_depth > 0 {
+                    self.blockquote_text.push('\n');
+                } else if !self.open_lists.is_empty() {
+                    self.current_text.push(' ');
+                } else if !self.in_table && !self.in_code_block {
                     let text = std::mem::take(&mut self.current_text).trim().to_string();
                     if !text.is_empty() {
                         self.add_paragraph(&text);
@@ -307,84 +292,69 @@ impl MarkdownParser {
     }
 
     fn push_text(&mut self, text: &str) {
-        let formatted = if self.is_bold && self.is_italic {
-            format!("***{}***", text)
-        } else if self.is_bold {
-            format!("**{}**", text)
-        } else if self.is_italic {
-            format!("*{}*", text)
-        } else if self.is_strikethrough {
-            format!("~~{}~~", text)
-        } else {
-            text.to_string()
-        };
-
         if self.in_code_block {
             self.code_content.push_str(text);
+        } else if let Some((_, alt)) = self.pending_image.as_mut() {
+            alt.push_str(text);
         } else if self.in_table {
-            self.current_cell.push_str(&formatted);
-        } else if self.in_blockquote {
-            self.blockquote_text.push_str(&formatted);
+            self.current_cell.push_str(text);
+        } else if self.blockquote_depth > 0 {
+            self.blockquote_text.push_str(text);
         } else {
-            self.current_text.push_str(&formatted);
+            self.current_text.push_str(text);
         }
     }
 
     fn add_paragraph(&mut self, text: &str) {
-        if let Some(ref mut slide) = self.current_slide {
-            *slide = slide.clone().add_bullet(text);
-        } else {
-            let mut slide = SlideContent::new("Slide");
-            slide = slide.add_bullet(text);
-            self.current_slide = Some(slide);
-        }
+        self.add_bullet(BulletPoint::new(text));
     }
 
-    fn flush_list_items(&mut self) {
-        // Flush regular list items
-        if !self.list_items.is_empty() {
-            let items = std::mem::take(&mut self.list_items);
+    fn add_bullet(&mut self, bullet: BulletPoint) {
+        // A slide shows its table in place of its bullets
+        if self.current_slide.as_ref().is_some_and(|s| s.table.is_some()) {
+            self.continue_on_new_slide();
+        }
+        let slide = self
+            .current_slide
+            .get_or_insert_with(|| SlideContent::new("Slide"));
+        slide.content.push(format!("{}{}", "  ".repeat(bullet.level as usize), bullet.text));
+        slide.bullets.push(bullet);
+    }
 
-            if let Some(ref mut slide) = self.current_slide {
-                for item in items {
-                    *slide = slide.clone().add_bullet(&item);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for item in items {
-                    slide = slide.add_bullet(&item);
-                }
-                self.current_slide = Some(slide);
-            }
+    /// Close the current slide and go on with another one under the same title
+    fn continue_on_new_slide(&mut self) {
+        self.finalize_current_slide();
+        if let Some(last) = self.slides.last() {
+            let title = format!("{} (continued)", last.title);
+            self.current_slide = Some(SlideContent::new(&title));
         }
+    }
 
-        // Flush task list items
-        if !self.task_items.is_empty() {
-            let tasks = std::mem::take(&mut self.task_items);
+    /// Turn the text of the current list item into a bullet
+    fn finish_list_item(&mut self) {
+        let Some(&ordered) = self.open_lists.last() else {
+            return;
+        };
+        let text = std::mem::take(&mut self.current_text).trim().to_string();
+        let task = self.current_task_checked.take();
+        if text.is_empty() {
+            return;
+        }
+        let text = match task {
+            Some(true) => format!("☑ ~~{}~~", text),
+            Some(false) => format!("☐ {}", text),
+            None => text,
+        };
+        let style = if ordered { BulletStyle::Number } else { BulletStyle::Bullet };
+        // Presentations have nine levels
+        let level = (self.open_lists.len() - 1).min(8) as u32;
+        self.list_items
+            .push(BulletPoint::new(&text).with_level(level).with_style(style));
+    }
 
-            if let Some(ref mut slide) = self.current_slide {
-                for task in tasks {
-                    let checkbox = if task.checked { "☑" } else { "☐" };
-                    let text = if task.checked {
-                        format!("{} ~~{}~~", checkbox, task.text)
-                    } else {
-                        format!("{} {}", checkbox, task.text)
-                    };
-                    *slide = slide.clone().add_bullet(&text);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for task in tasks {
-                    let checkbox = if task.checked { "☑" } else { "☐" };
-                    let text = if task.checked {
-                        format!("{} ~~{}~~", checkbox, task.text)
-                    } else {
-                        format!("{} {}", checkbox, task.text)
-                    };
-                    slide = slide.add_bullet(&text);
-                }
-                self.current_slide = Some(slide);
-            }
+    fn flush_list_items(&mut self) {
+        for item in std::mem::take(&mut self.list_items) {
+            self.add_bullet(item);
         }
     }
 
@@ -396,6 +366,15 @@ impl MarkdownParser {
         let rows = std::mem::take(&mut self.table_rows);
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
+        // A slide shows one table, and shows it in place of its bullets
+        if self
+            .current_slide
+            .as_ref()
+            .is_some_and(|s| s.table.is_some() || !s.bullets.is_empty())
+        {
+            self.continue_on_new_slide();
+        }
+
         if let Some(ref mut slide) = self.current_slide {
             slide.table = Some(table);
             slide.has_table = true;
@@ -421,7 +400,8 @@ impl MarkdownParser {
             return;
         }
 
-        let code_block = CodeBlock::new(code.trim(), lang_str);
+        // Keep the indentation of the first line
+        let code_block = CodeBlock::new(code.trim_matches('\n').trim_end(), lang_str);
 
         if let Some(ref mut slide) = self.current_slide {
             slide.code_blocks.push(code_block);
@@ -502,15 +482,18 @@ impl MarkdownParser {
     }
 
     fn flush_blockquote(&mut self) {
-        if self.blockquote_text.is_empty() {
+        let notes = std::mem::take(&mut self.blockquote_text).trim().to_string();
+        if notes.is_empty() {
             return;
         }
 
-        let notes = std::mem::take(&mut self.blockquote_text).trim().to_string();
-
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(notes);
-        }
+        let slide = self
+            .current_slide
+            .get_or_insert_with(|| SlideContent::new("Slide"));
+        slide.notes = Some(match slide.notes.take() {
+            Some(earlier) => format!("{earlier}\n{notes}"),
+            None => notes,
+        });
     }
 
     fn add_image_placeholder(&mut self, url: &str, alt: &str) {
-- 
2.43.0


From 6734b96282e37df04604965972bcb009e9a64534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:49 +0000
Subject: [PATCH 067/140] fix: escape texts so that exported Markdown shows
 them as they are

---
 src/export/md.rs | 83 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 68 insertions(+), 15 deletions(-)

diff --git a/src/export/md.rs b/src/export/md.rs
index b5f802b..2482b2e 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -94,14 +94,19 @@ pub fn export_to_markdown_with_options(
     // YAML frontmatter
     if options.include_frontmatter {
         md.push_str("---\n");
-        md.push_str(&format!("title: \"{}\"\n", escape_yaml(presentation.get_title())));
+        let title = escape_yaml(presentation.get_title());
+        if title.starts_with("|2-\n") {
+            md.push_str(&format!("title: {title}\n"));
+        } else {
+            md.push_str(&format!("title: \"{title}\"\n"));
+        }
         md.push_str(&format!("slides: {}\n", presentation.slide_count()));
         md.push_str("generator: ppt-rs\n");
         md.push_str("---\n\n");
     }
 
     // Presentation title as main heading
-    md.push_str(&format!("# {}\n\n", presentation.get_title()));
+    md.push_str(&format!("# {}\n\n", escape_heading(presentation.get_title())));
 
     // Export each slide
     for (i, slide) in presentation.slides().iter().enumerate() {
@@ -114,15 +119,15 @@ pub fn export_to_markdown_with_options(
 
         // Slide number header
         if options.include_slide_numbers {
-            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_markdown(&slide.title)));
+            md.push_str(&format!("## Slide {}: {}\n\n", slide_num, escape_heading(&slide.title)));
         } else {
-            md.push_str(&format!("## {}\n\n", escape_markdown(&slide.title)));
+            md.push_str(&format!("## {}\n\n", escape_heading(&slide.title)));
         }
 
         // Bullet content
         if !slide.content.is_empty() {
             for item in &slide.content {
-                md.push_str(&format!("- {}\n", escape_markdown(item)));
+                md.push_str(&format!("- {}\n", escape_lines(item, "\\\n  ")));
             }
             md.push('\n');
         }
@@ -144,7 +149,10 @@ pub fn export_to_markdown_with_options(
                     alt_text,
                     slide_num,
                     img_idx + 1,
-                    image.format.to_lowercase().replace("jpeg", ".jpg").replace("png", ".png")
+                    match image.format.to_lowercase().as_str() {
+                        "jpeg" => ".jpg".to_string(),
+                        other => format!(".{other}"),
+                    }
                 ));
             }
         }
@@ -152,8 +160,10 @@ pub fn export_to_markdown_with_options(
         // Code blocks
         if !slide.code_blocks.is_empty() {
             for code_block in &slide.code_blocks {
+                // The fence must be longer than any run of backticks in the code
+                let fence = "`".repeat(longest_backtick_run(&code_block.code).max(2) + 1);
                 md.push_str(&format!(
-                    "```{lang}\n{code}\n```\n\n",
+                    "{fence}{lang}\n{code}\n{fence}\n\n",
                     lang = &code_block.language,
                     code = &code_block.code
                 ));
@@ -165,7 +175,7 @@ pub fn export_to_markdown_with_options(
         if options.include_notes && has_notes {
             md.push_str("**Notes:**\n\n");
             if let Some(notes) = &slide.notes {
-                md.push_str(&format!("> {}\n\n", escape_markdown(notes)));
+                md.push_str(&format!("> {}\n\n", escape_lines(notes, "\\\n> ")));
             }
         }
     }
@@ -177,18 +187,22 @@ pub fn export_to_markdown_with_options(
 fn export_table_to_gfm(table: &crate::generator::Table) -> String {
     let mut md = String::new();
 
+    // A GFM table has as many columns as its header, so the header is padded
+    let columns = table.rows.iter().map(|r| r.cells.len()).max().unwrap_or(0);
+
     // Header row
     if let Some(first_row) = table.rows.first() {
         md.push_str("| ");
         for cell in &first_row.cells {
-            md.push_str(&escape_markdown(&cell.text));
+            md.push_str(&escape_lines(&cell.text, "<br>"));
             md.push_str(" | ");
         }
+        md.push_str(&" | ".repeat(columns - first_row.cells.len()));
         md.push('\n');
 
         // Separator
         md.push('|');
-        for _ in &first_row.cells {
+        for _ in 0..columns {
             md.push_str(" --- |");
         }
         md.push('\n');
@@ -197,7 +211,7 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
         for row in table.rows.iter().skip(1) {
             md.push_str("| ");
             for cell in &row.cells {
-                md.push_str(&escape_markdown(&cell.text));
+                md.push_str(&escape_lines(&cell.text, "<br>"));
                 md.push_str(" | ");
             }
             md.push('\n');
@@ -218,15 +232,54 @@ fn escape_markdown(text: &str) -> String {
         .replace('#', "\\#")
         .replace('<', "\\<")
         .replace('>', "\\>")
+        .replace('&', "\\&")
+        .replace('|', "\\|")
+        .replace('~', "\\~")
+}
+
+/// Escape text that may span lines: each line is escaped on its own, blank
+/// lines are dropped and the rest is joined with `separator`.
+fn escape_lines(text: &str, separator: &str) -> String {
+    text.lines()
+        .flat_map(|line| line.split('\r'))
+        .map(str::trim)
+        .filter(|line| !line.is_empty())
+        .map(escape_line)
+        .collect::<Vec<_>>()
+        .join(separator)
+}
+
+/// Escape heading text, which has to stay on one line
+fn escape_heading(text: &str) -> String {
+    escape_lines(text, " ")
+}
+
+/// Escape one line so that its start is not taken for a list, rule or heading
+fn escape_line(line: &str) -> String {
+    let escaped = escape_markdown(line);
+    let digits = escaped.chars().take_while(char::is_ascii_digit).count();
+    if escaped.starts_with(['-', '+', '=', ':']) {
+        format!("\\{escaped}")
+    } else if digits > 0 && escaped[digits..].starts_with(['.', ')']) {
+        format!("{}\\{}", &escaped[..digits], &escaped[digits..])
+    } else {
+        escaped
+    }
+}
+
+/// Length of the longest run of backticks in `text`
+fn longest_backtick_run(text: &str) -> usize {
+    text.split(|c| c != '`').map(str::len).max().unwrap_or(0)
 }
 
 /// Escape special YAML characters in frontmatter
 fn escape_yaml(text: &str) -> String {
-    if text.contains('\n') || text.contains('"') || text.contains('\\') {
-        // Use literal block scalar for multiline or complex strings
-        format!("|\n  {}", text.replace('\n', "\n  "))
+    if text.contains(['\n', '\r']) {
+        // Use literal block scalar for multiline strings
+        let text = text.replace("\r\n", "\n").replace('\r', "\n");
+        format!("|2-\n  {}", text.replace('\n', "\n  "))
     } else {
-        text.replace('"', "\\\"").replace('\\', "\\\\")
+        text.replace('\\', "\\\\").replace('"', "\\\"")
     }
 }
 
-- 
2.43.0


From 73ab5417df60f21883a506df17981cb3bdc9bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:50 +0000
Subject: [PATCH 068/140] fix: export tables to HTML and escape the texts
 around them

---
 src/export/html.rs | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index 8aad9a2..ef89a4b 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -69,7 +69,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
     html.push_str("<!DOCTYPE html>\n<html>\n<head>\n");
     html.push_str("<meta charset=\"UTF-8\">\n");
     html.push_str("<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n");
-    html.push_str(&format!("<title>{}</title>\n", presentation.get_title()));
+    html.push_str(&format!("<title>{}</title>\n", escape_html(presentation.get_title())));
 
     // Enhanced CSS
     html.push_str("<style>\n");
@@ -97,7 +97,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
 
     // Title Slide (Presentation Title)
     html.push_str("<div class=\"slide title-slide\" data-slide=\"0\">\n");
-    html.push_str(&format!("<h1>{}</h1>\n", presentation.get_title()));
+    html.push_str(&format!("<h1>{}</h1>\n", escape_html(presentation.get_title())));
     html.push_str("</div>\n");
 
     // Slides
@@ -128,7 +128,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     html.push_str(&format!("<div class=\"slide-number\">{}</div>\n", index));
 
     // Title
-    html.push_str(&format!("<h2>{}</h2>\n", slide.title));
+    html.push_str(&format!("<h2>{}</h2>\n", escape_html(&slide.title)));
 
     // Content Container
     html.push_str("<div class=\"content\">\n");
@@ -137,7 +137,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     if !slide.content.is_empty() {
         html.push_str("<ul>\n");
         for item in &slide.content {
-            html.push_str(&format!("<li>{}</li>\n", item));
+            html.push_str(&format!("<li>{}</li>\n", escape_html(item)));
         }
         html.push_str("</ul>\n");
     }
@@ -157,7 +157,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     // Code Blocks
     for code in &slide.code_blocks {
         if options.syntax_highlight {
-            html.push_str(&format!("<pre><code class=\"language-{}\">", code.language));
+            html.push_str(&format!("<pre><code class=\"language-{}\">", escape_html(&code.language)));
         } else {
             html.push_str("<pre><code>");
         }
@@ -178,14 +178,26 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
 }
 
 /// Render a table as HTML
-fn render_table_html(_table: &crate::generator::Table) -> String {
+fn render_table_html(table: &crate::generator::Table) -> String {
     let mut html = String::new();
     html.push_str("<table class=\"ppt-table\">\n");
 
-    // Render rows (assuming table has row data structure)
-    // This is a simplified version - you may need to adapt based on actual Table structure
     html.push_str("<tbody>\n");
-    html.push_str("<tr><td>Table content</td></tr>\n"); // Placeholder
+    for row in &table.rows {
+        html.push_str("<tr>");
+        // Cells covered by a merge are not shown
+        for cell in row.cells.iter().filter(|c| !c.v_merge && !c.h_merge) {
+            html.push_str("<td");
+            if let Some(span) = cell.row_span {
+                html.push_str(&format!(" rowspan=\"{span}\""));
+            }
+            if let Some(span) = cell.grid_span {
+                html.push_str(&format!(" colspan=\"{span}\""));
+            }
+            html.push_str(&format!(">{}</td>", escape_html(&cell.text)));
+        }
+        html.push_str("</tr>\n");
+    }
     html.push_str("</tbody>\n");
 
     html.push_str("</table>\n");
@@ -222,14 +234,14 @@ fn render_image_with_options(image: &Image, options: &HtmlExportOptions) -> Opti
 
         Some(format!(
             "<div class=\"image-container\"><img src=\"{}\" alt=\"{}\" /></div>\n",
-            filepath, image.filename
+            escape_html(&filepath), escape_html(&image.filename)
         ))
     } else {
         // Use base64 encoding
         let b64 = base64_encode(&bytes);
         Some(format!(
             "<div class=\"image-container\"><img src=\"data:{};base64,{}\" alt=\"{}\" /></div>\n",
-            mime, b64, image.filename
+            mime, b64, escape_html(&image.filename)
         ))
     }
 }
-- 
2.43.0


From 1ab10348175e9d4b4c511afe3240fba03745c5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:09 +0000
Subject: [PATCH 069/140] fix: keep texts, tables and slides that follow void,
 raw, unclosed or stray tags in HTML import

---
 src/import/html.rs | 818 +++++++++++++++++++++++++++------------------
 1 file changed, 490 insertions(+), 328 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 34126f6..4a042f3 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -121,52 +121,77 @@ enum HtmlEvent {
     Text(String),
 }
 
-/// Decode common HTML entities
+/// Decode HTML entities: numeric ones and the common named ones
 fn decode_entities(s: &str) -> String {
+    /// No known entity is longer than this
+    const MAX_ENTITY: usize = 12;
     let mut out = String::with_capacity(s.len());
-    let bytes = s.as_bytes();
-    let mut i = 0;
-    while i < bytes.len() {
-        if bytes[i] == b'&'
-            && let Some(end) = s[i..].find(';') {
-                let entity = &s[i + 1..i + end];
-                let ch = match entity {
-                    "amp" => Some('&'),
-                    "lt" => Some('<'),
-                    "gt" => Some('>'),
-                    "quot" => Some('"'),
-                    "apos" | "#39" | "#x27" => Some('\''),
-                    "nbsp" => Some('\u{00a0}'),
-                    "#x2018" => Some('\u{2018}'),
-                    "#x2019" => Some('\u{2019}'),
-                    "#x201c" => Some('\u{201c}'),
-                    "#x201d" => Some('\u{201d}'),
-                    "#x2014" => Some('\u{2014}'),
-                    "#x2013" => Some('\u{2013}'),
-                    _ => {
-                        if let Some(hex) = entity.strip_prefix("#x") {
-                            u32::from_str_radix(hex, 16).ok().and_then(char::from_u32)
-                        } else if let Some(num) = entity.strip_prefix('#') {
-                            num.parse::<u32>().ok().and_then(char::from_u32)
-                        } else {
-                            None
-                        }
-                    }
-                };
-                if let Some(c) = ch {
-                    out.push(c);
-                    i = i + end + 1;
-                    continue;
-                }
+    let mut rest = s;
+    while let Some(start) = rest.find('&') {
+        out.push_str(&rest[..start]);
+        rest = &rest[start..];
+        let end = rest.char_indices().take(MAX_ENTITY).find(|(_, c)| *c == ';').map(|(i, _)| i);
+        match end.and_then(|end| entity_char(&rest[1..end]).map(|c| (c, end))) {
+            Some((c, end)) => {
+                out.push(c);
+                rest = &rest[end + 1..];
             }
-        // Preserve full Unicode characters (not just ASCII bytes)
-        let c = s[i..].chars().next().unwrap();
-        out.push(c);
-        i += c.len_utf8();
+            None => {
+                out.push('&');
+                rest = &rest[1..];
+            }
+        }
     }
+    out.push_str(rest);
     out
 }
 
+/// The character a single entity (without `&` and `;`) stands for
+fn entity_char(entity: &str) -> Option<char> {
+    if let Some(num) = entity.strip_prefix('#') {
+        let code = match num.strip_prefix(['x', 'X']) {
+            Some(hex) => u32::from_str_radix(hex, 16),
+            None => num.parse::<u32>(),
+        };
+        return code.ok().and_then(char::from_u32);
+    }
+    Some(match entity {
+        "amp" => '&',
+        "lt" => '<',
+        "gt" => '>',
+        "quot" => '"',
+        "apos" => '\'',
+        "nbsp" => '\u{00a0}',
+        "copy" => '\u{00a9}',
+        "reg" => '\u{00ae}',
+        "trade" => '\u{2122}',
+        "deg" => '\u{00b0}',
+        "plusmn" => '\u{00b1}',
+        "middot" => '\u{00b7}',
+        "times" => '\u{00d7}',
+        "divide" => '\u{00f7}',
+        "laquo" => '\u{00ab}',
+        "raquo" => '\u{00bb}',
+        "sect" => '\u{00a7}',
+        "para" => '\u{00b6}',
+        "cent" => '\u{00a2}',
+        "pound" => '\u{00a3}',
+        "yen" => '\u{00a5}',
+        "euro" => '\u{20ac}',
+        "ndash" => '\u{2013}',
+        "mdash" => '\u{2014}',
+        "lsquo" => '\u{2018}',
+        "rsquo" => '\u{2019}',
+        "ldquo" => '\u{201c}',
+        "rdquo" => '\u{201d}',
+        "bull" => '\u{2022}',
+        "hellip" => '\u{2026}',
+        "larr" => '\u{2190}',
+        "rarr" => '\u{2192}',
+        _ => return None,
+    })
+}
+
 // ---------------------------------------------------------------------------
 // Inline CSS style parsing
 // ---------------------------------------------------------------------------
@@ -224,8 +249,12 @@ fn css_named_color(name: &str) -> Option<&'static str> {
 
 /// Parse a CSS color value to a 6-digit hex string (without #)
 fn parse_css_color(value: &str) -> Option<String> {
-    let value = value.trim();
+    let value = value.trim().to_lowercase();
+    let value = value.as_str();
     if let Some(hex) = value.strip_prefix('#') {
+        if !hex.chars().all(|c| c.is_ascii_hexdigit()) {
+            return None;
+        }
         let hex = match hex.len() {
             3 => hex.chars().map(|c| format!("{c}{c}")).collect::<String>(),
             6 => hex.to_string(),
@@ -254,15 +283,16 @@ fn parse_css_color(value: &str) -> Option<String> {
 /// Parse a CSS font-size value to points
 fn parse_font_size(value: &str) -> Option<u32> {
     let value = value.trim();
-    if let Some(px) = value.strip_suffix("px") {
-        let px = px.trim().parse::<f64>().ok()?;
-        Some((px / 1.333).round() as u32)
+    let points = if let Some(px) = value.strip_suffix("px") {
+        px.trim().parse::<f64>().ok()? / 1.333
     } else if let Some(pt) = value.strip_suffix("pt") {
-        let pt = pt.trim().parse::<f64>().ok()?;
-        Some(pt.round() as u32)
+        pt.trim().parse::<f64>().ok()?
     } else {
-        value.parse::<u32>().ok()
-    }
+        f64::from(value.parse::<u32>().ok()?)
+    };
+    // The sizes a presentation can hold
+    let points = points.round();
+    (1.0..=4000.0).contains(&points).then_some(points as u32)
 }
 
 /// Check if a CSS font-weight value represents bold
@@ -315,7 +345,12 @@ impl InlineStyle {
                     "font-style" => style.font_style = Some(value.to_string()),
                     "text-decoration" => style.text_decoration = Some(value.to_string()),
                     "font-family" => {
-                        style.font_family = Some(value.trim_matches('"').trim_matches('\'').to_string());
+                        // The first family of the list; the others are fallbacks
+                        let family = value.split(',').next().unwrap_or("").trim();
+                        let family = family.trim_matches('"').trim_matches('\'');
+                        if !family.is_empty() {
+                            style.font_family = Some(family.to_string());
+                        }
                     }
                     "text-align" => style.text_align = Some(value.to_string()),
                     "margin-top" => style.margin_top = Some(value.to_string()),
@@ -419,6 +454,28 @@ const VOID_TAGS: &[&str] = &[
     "link", "meta", "param", "source", "track", "wbr",
 ];
 
+/// Tags whose content is text up to the closing tag
+const RAW_TEXT_TAGS: &[&str] = &["script", "style", "title", "textarea", "iframe"];
+
+/// Whether a tag, comment or declaration starts at `i`; any other `<` is text
+fn starts_tag(chars: &[char], i: usize) -> bool {
+    chars[i] == '<'
+        && match chars.get(i + 1) {
+            Some('!') | Some('?') => true,
+            Some('/') => true,
+            Some(c) => c.is_ascii_alphabetic(),
+            None => false,
+        }
+}
+
+/// Whether the closing tag of `name` starts at `i`
+fn closes_tag(chars: &[char], i: usize, name: &str) -> bool {
+    chars[i] == '<'
+        && chars.get(i + 1) == Some(&'/')
+        && name.chars().enumerate().all(|(k, c)| chars.get(i + 2 + k).is_some_and(|x| x.to_ascii_lowercase() == c))
+        && chars.get(i + 2 + name.len()).is_none_or(|c| !c.is_ascii_alphanumeric())
+}
+
 /// Walk through HTML and produce events
 fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut events = Vec::new();
@@ -427,11 +484,8 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut i = 0;
 
     while i < len {
-        if chars[i] == '<' {
+        if starts_tag(&chars, i) {
             i += 1;
-            if i >= len {
-                break;
-            }
 
             // Comment <!-- ... -->
             if i + 3 <= len && chars[i] == '!' && i + 1 < len && chars[i + 1] == '-' && i + 2 < len && chars[i + 2] == '-' {
@@ -444,8 +498,8 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 continue;
             }
 
-            // Doctype/other <!...>
-            if chars[i] == '!' {
+            // Doctype/other <!...> and <?...>
+            if chars[i] == '!' || chars[i] == '?' {
                 while i < len && chars[i] != '>' {
                     i += 1;
                 }
@@ -477,10 +531,6 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
             }
 
             // Opening or self-closing tag
-            // Skip whitespace before tag name
-            while i < len && (chars[i] == ' ' || chars[i] == '\t' || chars[i] == '\n' || chars[i] == '\r') {
-                i += 1;
-            }
             let mut name = String::new();
             while i < len && (chars[i].is_alphanumeric() || chars[i] == '-' || chars[i] == ':' || chars[i] == '_' || chars[i] == '.') {
                 name.push(chars[i]);
@@ -549,20 +599,29 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 i += 1; // skip '>'
             }
 
-            if !tag_name.is_empty() {
-                events.push(HtmlEvent::OpenTag { name: tag_name, attrs });
+            let self_closing = i >= 2 && chars[i - 1] == '>' && chars[i - 2] == '/';
+            events.push(HtmlEvent::OpenTag { name: tag_name.clone(), attrs });
+
+            if self_closing && tag_name == "svg" {
+                events.push(HtmlEvent::CloseTag(tag_name));
+            } else if RAW_TEXT_TAGS.contains(&tag_name.as_str()) {
+                // Everything up to the closing tag is text, whatever it looks like
+                let start = i;
+                while i < len && !closes_tag(&chars, i, &tag_name) {
+                    i += 1;
+                }
+                if i > start {
+                    events.push(HtmlEvent::Text(chars[start..i].iter().collect()));
+                }
             }
         } else {
             // Text content
             let mut text = String::new();
-            while i < len && chars[i] != '<' {
+            while i < len && !starts_tag(&chars, i) {
                 text.push(chars[i]);
                 i += 1;
             }
-            let trimmed = text.trim();
-            if !trimmed.is_empty() {
-                events.push(HtmlEvent::Text(decode_entities(&text)));
-            }
+            events.push(HtmlEvent::Text(decode_entities(&text)));
         }
     }
 
@@ -579,18 +638,36 @@ const SKIP_TAGS: &[&str] = &[
     "title",
 ];
 
+/// Tags that start a block of their own: text before, inside and after them
+/// belongs to different paragraphs
+const BLOCK_TAGS: &[&str] = &[
+    "address", "article", "aside", "blockquote", "body", "caption", "center", "dd", "details", "dialog", "div",
+    "dl", "dt", "fieldset", "figcaption", "figure", "footer", "h1", "h2", "h3", "h4", "h5", "h6",
+    "head", "header", "hr", "html", "legend", "li", "main", "ol", "p", "pre", "section", "summary",
+    "table", "tbody", "td", "tfoot", "th", "thead", "tr", "ul",
+];
+
+/// Open elements beyond this depth are not tracked
+const MAX_DEPTH: usize = 4096;
+
+/// An element that is open at the current position
+struct OpenElement {
+    name: String,
+    style: InlineStyle,
+    /// Length of the text right after the opening mark of bold or italic text
+    mark: usize,
+}
+
 struct HtmlSlideParser {
     options: HtmlParseOptions,
     slides: Vec<SlideContent>,
     current_slide: Option<SlideContent>,
     text_buffer: String,
-    tag_stack: Vec<String>,
-    style_stack: Vec<InlineStyle>,
-    in_list: bool,
-    in_table: bool,
-    in_code: bool,
-    in_blockquote: bool,
-    italic: bool,
+    stack: Vec<OpenElement>,
+    /// How many elements of each name are open
+    open: std::collections::HashMap<String, usize>,
+    skip_depth: usize,
+    heading_images: Vec<crate::generator::Image>,
     list_items: Vec<(String, Option<BulletTextFormat>)>,
     table_rows: Vec<Vec<String>>,
     current_row: Vec<String>,
@@ -598,7 +675,6 @@ struct HtmlSlideParser {
     code_content: String,
     blockquote_text: String,
     presentation_title: Option<String>,
-    current_href: Option<String>,
 }
 
 impl HtmlSlideParser {
@@ -608,13 +684,10 @@ impl HtmlSlideParser {
             slides: Vec::new(),
             current_slide: None,
             text_buffer: String::new(),
-            tag_stack: Vec::new(),
-            style_stack: Vec::new(),
-            in_list: false,
-            in_table: false,
-            in_code: false,
-            in_blockquote: false,
-            italic: false,
+            stack: Vec::new(),
+            open: std::collections::HashMap::new(),
+            skip_depth: 0,
+            heading_images: Vec::new(),
             list_items: Vec::new(),
             table_rows: Vec::new(),
             current_row: Vec::new(),
@@ -622,32 +695,63 @@ impl HtmlSlideParser {
             code_content: String::new(),
             blockquote_text: String::new(),
             presentation_title: None,
-            current_href: None,
         }
     }
 
-    /// Return the current active style (top of the style stack)
+    /// Return the current active style (that of the innermost open element)
     fn active_style(&self) -> Option<&InlineStyle> {
-        self.style_stack.last()
+        self.stack.last().map(|e| &e.style)
+    }
+
+    fn open_count(&self, name: &str) -> usize {
+        self.open.get(name).copied().unwrap_or(0)
+    }
+
+    fn in_code(&self) -> bool {
+        self.open_count("pre") > 0
+    }
+
+    fn in_table(&self) -> bool {
+        self.open_count("table") > 0
+    }
+
+    fn in_blockquote(&self) -> bool {
+        self.open_count("blockquote") > 0
+    }
+
+    fn in_heading(&self) -> bool {
+        ["h1", "h2", "h3", "h4", "h5", "h6"].iter().any(|h| self.open_count(h) > 0)
+    }
+
+    fn list_depth(&self) -> usize {
+        self.open_count("ul") + self.open_count("ol")
+    }
+
+    /// Where text goes at the current position
+    fn sink(&mut self) -> &mut String {
+        if self.in_code() {
+            &mut self.code_content
+        } else if self.in_table() {
+            &mut self.current_cell
+        } else if self.in_blockquote() {
+            &mut self.blockquote_text
+        } else {
+            &mut self.text_buffer
+        }
     }
 
     fn parse(&mut self, events: &[HtmlEvent]) -> Result<Vec<SlideContent>, String> {
         for event in events {
             match event {
-                HtmlEvent::OpenTag { name, attrs } => {
-                    self.tag_stack.push(name.clone());
-                    self.handle_open_tag(name, attrs);
-                }
-                HtmlEvent::CloseTag(name) => {
-                    self.handle_close_tag(name);
-                    self.tag_stack.pop();
-                }
-                HtmlEvent::Text(text) => {
-                    self.handle_text(text);
-                }
+                HtmlEvent::OpenTag { name, attrs } => self.handle_open_tag(name, attrs),
+                HtmlEvent::CloseTag(name) => self.handle_close_tag(name),
+                HtmlEvent::Text(text) => self.handle_text(text),
             }
         }
 
+        while !self.stack.is_empty() {
+            self.close_innermost();
+        }
         self.finalize_current_slide();
 
         if self.slides.is_empty() {
@@ -663,58 +767,123 @@ impl HtmlSlideParser {
     }
 
     fn is_inside_skip_tag(&self) -> bool {
-        self.tag_stack.iter().any(|t| SKIP_TAGS.contains(&t.as_str()))
+        self.skip_depth > 0
+    }
+
+    /// Close the elements whose closing tag may be left out before `name`
+    fn close_implied(&mut self, name: &str) {
+        if BLOCK_TAGS.contains(&name) {
+            // A block ends an open paragraph
+            self.close_up_to(&["p"], &["td", "th", "table", "button"]);
+        }
+        match name {
+            "li" => self.close_up_to(&["li"], &["ul", "ol", "table"]),
+            "dt" | "dd" => self.close_up_to(&["dt", "dd"], &["dl", "table"]),
+            "td" | "th" => self.close_up_to(&["td", "th", "caption"], &["table"]),
+            "tr" => self.close_up_to(&["tr", "caption"], &["table"]),
+            "tbody" | "thead" | "tfoot" => self.close_up_to(&["tbody", "thead", "tfoot", "caption"], &["table"]),
+            _ => {}
+        }
+    }
+
+    /// Close the innermost open element of one of `names`, unless one of `limits` is inside it
+    fn close_up_to(&mut self, names: &[&str], limits: &[&str]) {
+        if names.iter().all(|n| self.open_count(n) == 0) {
+            return;
+        }
+        let found = self
+            .stack
+            .iter()
+            .rposition(|e| names.contains(&e.name.as_str()) || limits.contains(&e.name.as_str()));
+        if let Some(index) = found
+            && names.contains(&self.stack[index].name.as_str()) {
+                while self.stack.len() > index {
+                    self.close_innermost();
+                }
+            }
     }
 
     fn handle_open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
-        if self.is_inside_skip_tag() {
+        if VOID_TAGS.contains(&name) {
+            if !self.is_inside_skip_tag() {
+                self.handle_void_tag(name, attrs);
+            }
+            return;
+        }
+
+        if !self.is_inside_skip_tag() {
+            self.close_implied(name);
+            if BLOCK_TAGS.contains(&name) {
+                self.end_block();
+            }
+        }
+        if self.stack.len() >= MAX_DEPTH {
             return;
         }
 
-        // Push style for this element (inherits from parent). Skip void tags.
-        if !VOID_TAGS.contains(&name) {
-            let parent = self.style_stack.last().cloned().unwrap_or_default();
-            let style = if let Some(style_attr) = attrs.iter().find(|(k, _)| k == "style") {
-                parent.merge(&InlineStyle::parse(&style_attr.1))
-            } else {
-                parent
-            };
-            self.style_stack.push(style);
+        // The style of this element inherits from its parent
+        let parent = self.active_style().cloned().unwrap_or_default();
+        let style = if let Some(style_attr) = attrs.iter().find(|(k, _)| k == "style") {
+            parent.merge(&InlineStyle::parse(&style_attr.1))
+        } else {
+            parent
+        };
+        self.stack.push(OpenElement { name: name.to_string(), style, mark: 0 });
+        *self.open.entry(name.to_string()).or_default() += 1;
+        if SKIP_TAGS.contains(&name) {
+            self.skip_depth += 1;
+        }
+        if self.is_inside_skip_tag() {
+            return;
         }
 
         match name {
-            "h1" => {
-                self.flush_text_buffer();
-                self.finalize_current_slide();
-            }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
-                self.flush_text_buffer();
-            }
-            "p" | "div" | "article" | "section" | "main" | "li" => {}
-            "pre" => {
-                self.in_code = true;
-                self.code_content.clear();
-            }
-            "table" => {
-                self.in_table = true;
+            "h1" if !self.in_table() && !self.in_blockquote() => self.finalize_current_slide(),
+            "pre" if self.open_count("pre") == 1 => self.code_content.clear(),
+            "table" if self.open_count("table") == 1 => {
                 self.table_rows.clear();
+                self.current_row.clear();
+                self.current_cell.clear();
             }
-            "blockquote" => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+            "td" | "th" if self.open_count("table") == 1 => {
+                // Text between cells does not belong to the cell
+                self.flush_stray_cell_text();
             }
-            "ul" | "ol" => {
-                self.in_list = true;
-                self.list_items.clear();
-            }
-            "strong" | "b" => {
-                self.text_buffer.push_str("**");
-            }
-            "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = true;
+            "ul" | "ol" => self.list_items.clear(),
+            "strong" | "b" => self.open_mark("**"),
+            "em" | "i" => self.open_mark("*"),
+            _ => {}
+        }
+    }
+
+    fn open_mark(&mut self, mark: &str) {
+        if self.in_code() {
+            return;
+        }
+        let sink = self.sink();
+        sink.push_str(mark);
+        let length = sink.len();
+        if let Some(element) = self.stack.last_mut() {
+            element.mark = length;
+        }
+    }
+
+    fn close_mark(&mut self, mark: &str, opened_at: usize) {
+        if self.in_code() || opened_at == 0 {
+            return;
+        }
+        let sink = self.sink();
+        match sink.get(opened_at..) {
+            // Nothing was marked
+            Some(marked) if marked.trim().is_empty() && sink[..opened_at].ends_with(mark) => {
+                sink.replace_range(opened_at - mark.len()..opened_at, "");
             }
-            "title" => {}
+            _ => sink.push_str(mark),
+        }
+    }
+
+    fn handle_void_tag(&mut self, name: &str, attrs: &[(String, String)]) {
+        match name {
             "img" => {
                 if self.options.include_images {
                     let alt = attrs.iter().find(|(k, _)| k == "alt").map(|(_, v)| v.as_str()).unwrap_or("");
@@ -723,133 +892,133 @@ impl HtmlSlideParser {
                     if !src.is_empty() {
                         // Try to download and embed the actual image
                         if let Some(image) = self.load_image(src, alt) {
-                            if let Some(ref mut slide) = self.current_slide {
-                                slide.images.push(image);
+                            if self.in_heading() {
+                                self.heading_images.push(image);
                             } else {
-                                let mut slide = SlideContent::new("Image");
-                                slide.images.push(image);
-                                self.current_slide = Some(slide);
+                                self.current_slide
+                                    .get_or_insert_with(|| SlideContent::new("Image"))
+                                    .images
+                                    .push(image);
                             }
                         } else {
                             // Fallback to placeholder if image loading fails
                             let label = if alt.is_empty() { src } else { alt };
-                            self.add_paragraph(&format!("[Image: {}]", label));
+                            let placeholder = format!("[Image: {}]", label);
+                            if self.in_code() || self.in_table() || self.in_blockquote() || self.in_heading() || self.list_depth() > 0 {
+                                self.sink().push_str(&placeholder);
+                            } else {
+                                self.add_paragraph(&placeholder);
+                            }
                         }
                     }
                 }
             }
-            "a" => {
-                // Handle hyperlinks - just mark that we're inside a link
-                // The actual link text will be handled in text processing
-                if let Some(href) = attrs.iter().find(|(k, _)| k == "href").map(|(_, v)| v.as_str()) {
-                    // Store the current href for later use
-                    self.current_href = Some(href.to_string());
-                }
-            }
-            "br" => {
-                self.text_buffer.push('\n');
-            }
+            "br" => self.sink().push('\n'),
             "hr" => {
-                self.flush_text_buffer();
-                self.finalize_current_slide();
+                self.close_implied(name);
+                self.end_block();
+                if !self.in_table() && !self.in_blockquote() {
+                    self.finalize_current_slide();
+                }
             }
             _ => {}
         }
     }
 
     fn handle_close_tag(&mut self, name: &str) {
-        if self.is_inside_skip_tag() {
+        // A closing tag does not reach out of the cell or list it is in
+        let limits: &[&str] = match name {
+            "table" | "caption" | "thead" | "tbody" | "tfoot" | "tr" | "td" | "th" | "html" | "body" => &[],
+            "li" => &["ul", "ol", "table", "td", "th", "caption"],
+            _ => &["table", "td", "th", "caption"],
+        };
+        self.close_up_to(&[name], limits);
+    }
+
+    /// Finish the innermost open element
+    fn close_innermost(&mut self) {
+        let Some((name, mark)) = self.stack.last().map(|e| (e.name.clone(), e.mark)) else {
             return;
-        }
+        };
 
-        match name {
-            "h1" => {
-                let title = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if self.presentation_title.is_none() && !title.is_empty() {
-                    self.presentation_title = Some(title.clone());
-                }
-                let slide_title = if title.is_empty() { "Slide".to_string() } else { title };
-                let mut slide = SlideContent::new(&slide_title);
-                // Apply title-level styles from active style
-                if let Some(s) = self.active_style() {
-                    if let Some(ref c) = s.color { slide = slide.title_color(c); }
-                    if let Some(sz) = s.font_size { slide = slide.title_size(sz); }
-                    if let Some(ref fw) = s.font_weight && is_font_weight_bold(fw) { slide = slide.title_bold(true); }
-                    if let Some(ref fs) = s.font_style && is_font_style_italic(fs) { slide = slide.title_italic(true); }
-                    if let Some(ref td) = s.text_decoration && td.contains("underline") { slide = slide.title_underline(true); }
-                }
-                self.current_slide = Some(slide);
-            }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_formatted_text(&format!("**{}**", text));
-                }
-            }
-            "p" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
+        if !self.is_inside_skip_tag() {
+            match name.as_str() {
+                "strong" | "b" => self.close_mark("**", mark),
+                "em" | "i" => self.close_mark("*", mark),
+                "h1" if !self.in_table() && !self.in_blockquote() => self.finish_title(),
+                "h2" | "h3" | "h4" | "h5" | "h6"
+                    if !self.in_table() && !self.in_blockquote() && self.list_depth() == 0 =>
+                {
+                    let text = self.take_text();
+                    if !text.is_empty() {
+                        self.add_paragraph(&format!("**{}**", text));
+                    }
                 }
-            }
-            "div" | "article" | "section" | "main" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
+                "td" | "th" if self.open_count("table") == 1 => {
+                    let cell = std::mem::take(&mut self.current_cell).trim().to_string();
+                    self.current_row.push(cell);
                 }
-            }
-            "li" => {
-                let item = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !item.is_empty() {
-                    let item_style = self.active_style().and_then(|s| s.to_bullet_format());
-                    self.list_items.push((item, item_style));
+                "tr" if self.open_count("table") == 1 => self.finish_row(),
+                "li" if !self.in_table() && !self.in_blockquote() => {
+                    let item = self.take_text();
+                    if !item.is_empty() {
+                        let style = self.active_style().and_then(|s| s.to_bullet_format());
+                        self.list_items.push((item, style));
+                    }
                 }
+                "ul" | "ol" if !self.in_table() && !self.in_blockquote() => self.flush_list_items(),
+                _ if BLOCK_TAGS.contains(&name.as_str()) => self.end_block(),
+                _ => {}
             }
-            "ul" | "ol" => {
-                self.flush_list_items();
-                self.in_list = false;
-            }
-            "pre" => {
-                self.in_code = false;
-                self.flush_code_block();
-            }
-            "table" => {
-                self.in_table = false;
+        }
+
+        self.stack.pop();
+        if let Some(count) = self.open.get_mut(&name) {
+            *count -= 1;
+        }
+        if SKIP_TAGS.contains(&name.as_str()) {
+            self.skip_depth -= 1;
+        }
+        if self.is_inside_skip_tag() || SKIP_TAGS.contains(&name.as_str()) {
+            return;
+        }
+
+        match name.as_str() {
+            "pre" if !self.in_code() => self.flush_code_block(),
+            "table" if !self.in_table() => {
+                self.flush_stray_cell_text();
+                self.finish_row();
                 self.flush_table();
             }
-            "blockquote" => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
-            }
-            "th" | "td" => {
-                let cell = std::mem::take(&mut self.current_cell).trim().to_string();
-                self.current_row.push(cell);
-            }
-            "tr" => {
-                if !self.current_row.is_empty() {
-                    self.table_rows.push(std::mem::take(&mut self.current_row));
-                    self.current_row = Vec::new();
-                }
-            }
-            "strong" | "b" => {
-                self.text_buffer.push_str("**");
-            }
-            "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = false;
-            }
-            "a" => {
-                // When closing an anchor tag, we have the link text in the buffer
-                // and the href in current_href. For now, we'll just clear the href
-                // since PowerPoint hyperlink support requires more complex XML handling
-                self.current_href = None;
-            }
+            "blockquote" if !self.in_blockquote() => self.flush_blockquote(),
+            "caption" if self.open_count("table") == 1 => self.flush_stray_cell_text(),
             _ => {}
         }
+    }
+
+    fn finish_title(&mut self) {
+        let title = self.take_text();
+        if self.presentation_title.is_none() && !title.is_empty() {
+            self.presentation_title = Some(title.clone());
+        }
+        let slide_title = if title.is_empty() { "Slide".to_string() } else { title };
+        let mut slide = SlideContent::new(&slide_title);
+        // Apply title-level styles from active style
+        if let Some(s) = self.active_style() {
+            if let Some(ref c) = s.color { slide = slide.title_color(c); }
+            if let Some(sz) = s.font_size { slide = slide.title_size(sz); }
+            if let Some(ref fw) = s.font_weight && is_font_weight_bold(fw) { slide = slide.title_bold(true); }
+            if let Some(ref fs) = s.font_style && is_font_style_italic(fs) { slide = slide.title_italic(true); }
+            if let Some(ref td) = s.text_decoration && td.contains("underline") { slide = slide.title_underline(true); }
+        }
+        slide.images.append(&mut self.heading_images);
+        self.finalize_current_slide();
+        self.current_slide = Some(slide);
+    }
 
-        // Pop style stack for non-void tags (mirrors push in handle_open_tag)
-        if !VOID_TAGS.contains(&name) {
-            self.style_stack.pop();
+    fn finish_row(&mut self) {
+        if !self.current_row.is_empty() {
+            self.table_rows.push(std::mem::take(&mut self.current_row));
         }
     }
 
@@ -858,138 +1027,131 @@ impl HtmlSlideParser {
             return;
         }
 
-        if self.in_code {
+        if self.in_code() {
             self.code_content.push_str(text);
-        } else if self.in_table {
-            self.current_cell.push_str(text);
-        } else if self.in_blockquote {
-            self.blockquote_text.push_str(text);
         } else {
-            self.text_buffer.push_str(text);
+            let sink = self.sink();
+            if !text.trim().is_empty() {
+                sink.push_str(text);
+            } else if !sink.is_empty() && !sink.ends_with(char::is_whitespace) {
+                // White space between two elements separates their texts
+                sink.push(' ');
+            }
         }
     }
 
-    fn add_formatted_text(&mut self, text: &str) {
-        let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
-            }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-        } else {
-            let mut slide = SlideContent::new("Slide");
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
+    /// Take the text collected so far; marks that are open end with it and
+    /// are opened again for what follows
+    fn take_text(&mut self) -> String {
+        let mut text = std::mem::take(&mut self.text_buffer);
+        for element in self.stack.iter_mut().rev().filter(|e| e.mark > 0) {
+            let mark = if matches!(element.name.as_str(), "em" | "i") { "*" } else { "**" };
+            match text.get(element.mark..) {
+                Some(marked) if marked.trim().is_empty() => {
+                    text.replace_range(element.mark - mark.len()..element.mark, "");
+                }
+                _ => text.push_str(mark),
             }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-            self.current_slide = Some(slide);
         }
+        for element in self.stack.iter_mut().filter(|e| e.mark > 0) {
+            self.text_buffer.push_str(if matches!(element.name.as_str(), "em" | "i") { "*" } else { "**" });
+            element.mark = self.text_buffer.len();
+        }
+        text.trim().to_string()
     }
 
-    fn add_paragraph(&mut self, text: &str) {
-        let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            if slide.content.len() < self.options.max_bullets {
-                let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-                if let Some(ref f) = fmt {
-                    bp = bp.with_format(f.clone());
-                }
-                slide.content.push(text.to_string());
-                slide.bullets.push(bp);
+    /// Text before a block boundary is separate from the text after it
+    fn end_block(&mut self) {
+        if self.in_code() {
+            return;
+        }
+        if self.in_table() || self.in_blockquote() || self.in_heading() || self.list_depth() > 0 {
+            let sink = self.sink();
+            if !sink.is_empty() && !sink.ends_with(char::is_whitespace) {
+                sink.push('\n');
             }
         } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Overview".to_string());
-            let mut slide = SlideContent::new(&title);
+            self.flush_text_buffer();
+        }
+    }
+
+    /// Add a bullet with the style at the current position
+    fn add_bullet(&mut self, text: &str, fmt: Option<BulletTextFormat>, default_title: &str) {
+        let title = self.presentation_title.clone().unwrap_or_else(|| default_title.to_string());
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new(&title));
+        if slide.content.len() < self.options.max_bullets {
             let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
+            if let Some(f) = fmt {
+                bp = bp.with_format(f);
             }
             slide.content.push(text.to_string());
             slide.bullets.push(bp);
-            self.current_slide = Some(slide);
         }
     }
 
+    fn add_paragraph(&mut self, text: &str) {
+        let fmt = self.active_style().and_then(|s| s.to_bullet_format());
+        self.add_bullet(text, fmt, "Overview");
+    }
+
     fn flush_text_buffer(&mut self) {
-        let text = std::mem::take(&mut self.text_buffer);
-        let trimmed = text.trim().to_string();
-        if !trimmed.is_empty() {
-            self.add_paragraph(&trimmed);
+        let text = self.take_text();
+        if !text.is_empty() {
+            self.add_paragraph(&text);
         }
     }
 
     fn flush_list_items(&mut self) {
-        let items = std::mem::take(&mut self.list_items);
-        if items.is_empty() {
-            return;
+        for (item, style) in std::mem::take(&mut self.list_items) {
+            self.add_bullet(&item, style, "Key Points");
         }
+    }
 
-        if let Some(ref mut slide) = self.current_slide {
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
-            }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Key Points".to_string());
-            let mut slide = SlideContent::new(&title);
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
-            }
-            self.current_slide = Some(slide);
+    /// Close the current slide and go on with another one under the same title
+    fn continue_on_new_slide(&mut self) {
+        if let Some(slide) = self.current_slide.take() {
+            let title = format!("{} (continued)", slide.title);
+            self.slides.push(slide);
+            self.current_slide = Some(SlideContent::new(&title));
+        }
+    }
+
+    /// Text of a table that is in none of its cells becomes a paragraph
+    fn flush_stray_cell_text(&mut self) {
+        let text = std::mem::take(&mut self.current_cell).trim().to_string();
+        if !text.trim_matches('*').is_empty() {
+            self.add_paragraph(&text);
         }
     }
 
     fn flush_table(&mut self) {
-        if !self.options.include_tables || self.table_rows.is_empty() {
+        let rows = std::mem::take(&mut self.table_rows);
+        if !self.options.include_tables || rows.is_empty() {
             return;
         }
 
-        let rows = std::mem::take(&mut self.table_rows);
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.table = Some(table);
-            slide.has_table = true;
-        } else {
-            let mut slide = SlideContent::new("Data Table");
-            slide.table = Some(table);
-            slide.has_table = true;
-            self.current_slide = Some(slide);
+        // A slide holds one table
+        if self.current_slide.as_ref().is_some_and(|s| s.table.is_some()) {
+            self.continue_on_new_slide();
         }
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new("Data Table"));
+        slide.table = Some(table);
+        slide.has_table = true;
     }
 
     fn flush_code_block(&mut self) {
-        if !self.options.include_code || self.code_content.is_empty() {
+        let code = std::mem::take(&mut self.code_content);
+        let code = code.trim_start_matches(['\n', '\r']).trim_end();
+        if !self.options.include_code || code.trim().is_empty() {
             return;
         }
 
-        let code = std::mem::take(&mut self.code_content);
-        let code_block = CodeBlock::new(code.trim(), "text");
-
-        if let Some(ref mut slide) = self.current_slide {
-            slide.code_blocks.push(code_block);
-        } else {
-            let mut slide = SlideContent::new("Code");
-            slide.code_blocks.push(code_block);
-            self.current_slide = Some(slide);
-        }
+        self.current_slide
+            .get_or_insert_with(|| SlideContent::new("Code"))
+            .code_blocks
+            .push(CodeBlock::new(code, "text"));
     }
 
     fn flush_blockquote(&mut self) {
@@ -998,14 +1160,14 @@ impl HtmlSlideParser {
             return;
         }
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(text);
-        }
+        let title = self.presentation_title.clone().unwrap_or_else(|| "Overview".to_string());
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new(&title));
+        slide.notes = Some(text);
     }
 
     fn finalize_current_slide(&mut self) {
-        self.flush_text_buffer();
         self.flush_list_items();
+        self.flush_text_buffer();
         if let Some(slide) = self.current_slide.take() {
             self.slides.push(slide);
         }
-- 
2.43.0


From 20d626ef3832b25f52dacb2a19132bc6290e7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:11 +0000
Subject: [PATCH 070/140] fix: accept pictures of four or five bytes when
 detecting their format

---
 src/generator/images.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 83d7e77..045189a 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -482,7 +482,7 @@ impl ImageBuilder {
                 "PNG"
             } else if data.len() >= 2 && &data[0..2] == b"\xFF\xD8" {
                 "JPEG"
-            } else if data.len() >= 6 && &data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a" {
+            } else if data.len() >= 6 && (&data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a") {
                 "GIF"
             } else {
                 "PNG" // default
-- 
2.43.0


From 8fd4afe66eac0002f4c93e843f78fcf15c15abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:18 +0000
Subject: [PATCH 071/140] fix: build tables without columns instead of dividing
 by zero

---
 src/generator/table/style.rs | 2 +-
 src/helpers/tables.rs        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/generator/table/style.rs b/src/generator/table/style.rs
index 24ed8f0..a5a459c 100644
--- a/src/generator/table/style.rs
+++ b/src/generator/table/style.rs
@@ -29,7 +29,7 @@ pub fn header_cell(text: &str) -> TableCell {
 /// Build a positioned table from string rows with optional header styling.
 pub fn table_from_string_rows(rows: Vec<Vec<String>>, style_header: bool) -> Table {
     let col_count = rows.iter().map(|row| row.len()).max().unwrap_or(1);
-    let col_width = DEFAULT_TABLE_WIDTH / col_count as u32;
+    let col_width = DEFAULT_TABLE_WIDTH / col_count.max(1) as u32;
     let col_widths = vec![col_width; col_count];
 
     let mut builder = TableBuilder::new(col_widths);
diff --git a/src/helpers/tables.rs b/src/helpers/tables.rs
index b1f43c8..006707c 100644
--- a/src/helpers/tables.rs
+++ b/src/helpers/tables.rs
@@ -13,7 +13,7 @@ use crate::generator::{TableBuilder, TableCell, TableRow};
 /// let table = simple_table(3, 4); // 3 rows, 4 columns with equal widths
 /// ```
 pub fn simple_table(rows: usize, cols: usize) -> TableBuilder {
-    let col_width = 9144000 / cols as u32; // Divide slide width equally
+    let col_width = 9144000 / cols.max(1) as u32; // Divide slide width equally
     let column_widths = vec![col_width; cols];
     let mut builder = TableBuilder::new(column_widths);
 
@@ -64,7 +64,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
     let widths = if let Some(widths) = column_widths {
         widths.iter().map(|w| (w * 914400.0) as u32).collect()
     } else {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / cols.max(1) as u32;
         vec![col_width; cols]
     };
 
@@ -89,7 +89,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
 /// ```
 pub fn table_with_header(headers: &[&str], data_rows: usize) -> TableBuilder {
     let cols = headers.len();
-    let col_width = 9144000 / cols as u32;
+    let col_width = 9144000 / cols.max(1) as u32;
     let column_widths = vec![col_width; cols];
 
     let mut builder = TableBuilder::new(column_widths);
@@ -124,7 +124,7 @@ pub struct QuickTable {
 impl QuickTable {
     /// Create a new quick table with equal column widths
     pub fn new(cols: usize) -> Self {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / cols.max(1) as u32;
         let column_widths = vec![col_width; cols];
         Self {
             builder: TableBuilder::new(column_widths),
-- 
2.43.0


From 26085f6f31558d4d63bc463240fc6191b5154a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:28 +0000
Subject: [PATCH 072/140] fix: keep slashes in unquoted attribute values of
 imported HTML

---
 src/import/html.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index 4a042f3..65d13af 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -585,7 +585,7 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                         }
                     } else {
                         // unquoted value
-                        while i < len && chars[i] != '>' && chars[i] != ' ' && chars[i] != '\t' && chars[i] != '\n' && chars[i] != '\r' && chars[i] != '/' {
+                        while i < len && chars[i] != '>' && chars[i] != ' ' && chars[i] != '\t' && chars[i] != '\n' && chars[i] != '\r' && !(chars[i] == '/' && chars.get(i + 1) == Some(&'>')) {
                             attr_value.push(chars[i]);
                             i += 1;
                         }
-- 
2.43.0


From 7b5609fad70052ace421aeed263756932540c15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 073/140] fix: package template masters, layouts, themes and
 what they refer to once and declared

---
 src/generator/builder.rs  |  38 ++++--
 src/generator/template.rs | 256 ++++++++++++++++++++++++++++++++++----
 2 files changed, 257 insertions(+), 37 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 72e30ea..0a29705 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -519,6 +519,7 @@ fn collect_slide_titles_lazy(slides: &dyn LazySlideSource, slide_count: usize) -
 }
 
 /// Write content types XML
+#[allow(clippy::too_many_arguments)]
 fn write_content_types<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
@@ -527,6 +528,7 @@ fn write_content_types<W: Write + Seek>(
     chart_info: &ChartInfo,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let media_exts = custom_slides
         .map(build_media_registry)
@@ -551,6 +553,9 @@ fn write_content_types<W: Write + Seek>(
         .map(|slides| slides.iter().filter(|s| s.ink_annotations.is_some()).count())
         .unwrap_or(0);
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
+    if let Some(template) = template {
+        template.declare_parts(&mut content_types);
+    }
 
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
@@ -582,6 +587,7 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let pres_props = create_pres_props_xml(settings);
     zip.start_file("ppt/presProps.xml", *options)?;
@@ -591,9 +597,11 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip.start_file("ppt/viewProps.xml", *options)?;
     zip.write_all(view_props.as_bytes())?;
 
-    let table_styles = create_table_styles_xml();
+    let table_styles = template
+        .and_then(|t| t.table_styles())
+        .unwrap_or_else(|| create_table_styles_xml().as_bytes());
     zip.start_file("ppt/tableStyles.xml", *options)?;
-    zip.write_all(table_styles.as_bytes())?;
+    zip.write_all(table_styles)?;
     Ok(())
 }
 
@@ -650,14 +658,13 @@ fn write_theme_and_layouts<W: Write + Seek>(
     let print = settings.and_then(|s| s.print.as_ref());
 
     if let Some(tmpl) = template {
-        for (path, data) in tmpl.parts() {
+        let theme_xml = settings.and_then(|s| s.theme.as_ref()).map(|t| create_theme_xml(Some(t)));
+        for (path, data) in tmpl.master_parts() {
             zip.start_file(path, *options)?;
-            zip.write_all(data)?;
-        }
-        if let Some(theme) = settings.and_then(|s| s.theme.as_ref()) {
-            let theme_xml = create_theme_xml(Some(theme));
-            zip.start_file("ppt/theme/theme1.xml", *options)?;
-            zip.write_all(theme_xml.as_bytes())?;
+            match &theme_xml {
+                Some(xml) if path == "ppt/theme/theme1.xml" => zip.write_all(xml.as_bytes())?,
+                _ => zip.write_all(data)?,
+            }
         }
         return Ok(());
     }
@@ -747,7 +754,7 @@ fn write_package_files<W: Write + Seek>(
     let chart_info = collect_chart_info(custom_slides);
 
     // 1. Content types
-    write_content_types(zip, options, slide_count, custom_slides, &chart_info, has_handout, settings.as_ref())?;
+    write_content_types(zip, options, slide_count, custom_slides, &chart_info, has_handout, settings.as_ref(), template.as_ref())?;
 
     // 2. Package relationships
     let rels = create_rels_xml_with_signature(has_signature);
@@ -767,7 +774,7 @@ fn write_package_files<W: Write + Seek>(
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts (presProps, viewProps, tableStyles)
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master (when printing handouts)
     if has_handout {
@@ -847,7 +854,7 @@ fn write_package_files_lazy<W: Write + Seek>(
     let chart_info = collect_chart_info_lazy(slides);
 
     // 1. Content types (lazy version)
-    write_content_types_lazy(zip, options, slide_count, slides, &chart_info, has_handout, settings.as_ref())?;
+    write_content_types_lazy(zip, options, slide_count, slides, &chart_info, has_handout, settings.as_ref(), template.as_ref())?;
 
     // 2. Package relationships
     let rels = create_rels_xml_with_signature(has_signature);
@@ -867,7 +874,7 @@ fn write_package_files_lazy<W: Write + Seek>(
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master
     if has_handout {
@@ -921,6 +928,7 @@ fn write_package_files_lazy<W: Write + Seek>(
 }
 
 /// Write content types for lazy slides
+#[allow(clippy::too_many_arguments)]
 fn write_content_types_lazy<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
@@ -929,6 +937,7 @@ fn write_content_types_lazy<W: Write + Seek>(
     chart_info: &ChartInfo,
     has_handout: bool,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let notes_count = (0..slide_count)
         .filter(|i| {
@@ -1013,6 +1022,9 @@ fn write_content_types_lazy<W: Write + Seek>(
     }
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
+    if let Some(template) = template {
+        template.declare_parts(&mut content_types);
+    }
 
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
diff --git a/src/generator/template.rs b/src/generator/template.rs
index 47b5644..cf8d916 100644
--- a/src/generator/template.rs
+++ b/src/generator/template.rs
@@ -1,16 +1,39 @@
 //! Load theme / master / layout parts from an existing PPTX template.
 
-use std::collections::HashMap;
+use std::collections::{HashMap, VecDeque};
 use std::path::Path;
 
+use crate::core::escape_xml;
 use crate::exc::{PptxError, Result};
 use crate::opc::Package;
+use crate::oxml::presentation::resolve_target;
+use crate::oxml::xmlchemy::XmlParser;
+
+const MASTER: &str = "ppt/slideMasters/slideMaster1.xml";
+const THEME: &str = "ppt/theme/theme1.xml";
+const TABLE_STYLES: &str = "ppt/tableStyles.xml";
 
 /// Theme + master + layout parts cloned from an existing `.pptx` file.
 #[derive(Clone, Debug, Default)]
 pub struct PptxTemplate {
     parts: HashMap<String, Vec<u8>>,
     layout_count: usize,
+    /// Content types of the parts besides theme, master, layouts and table styles
+    content_types: Vec<(String, String)>,
+}
+
+/// A relationship of a template part
+struct Rel {
+    id: String,
+    kind: String,
+    target: String,
+    external: bool,
+}
+
+impl Rel {
+    fn is(&self, kind: &str) -> bool {
+        !self.external && self.kind.rsplit('/').next() == Some(kind)
+    }
 }
 
 impl PptxTemplate {
@@ -20,36 +43,102 @@ impl PptxTemplate {
         Self::from_package(&pkg)
     }
 
-    /// Extract template parts from an opened package.
+    /// Extract template parts from an opened package: the first slide master,
+    /// its theme and layouts and whatever they refer to. The parts get the
+    /// names the generated package uses for them.
     pub fn from_package(pkg: &Package) -> Result<Self> {
-        let mut parts = HashMap::new();
-        for path in pkg.part_paths() {
-            if (path.starts_with("ppt/theme/")
-                || path.starts_with("ppt/slideMasters/")
-                || path.starts_with("ppt/slideLayouts/")
-                || path == "ppt/tableStyles.xml")
-                && let Some(data) = pkg.get_part(path) {
-                    parts.insert(path.to_string(), data.to_vec());
+        let master = first_master(pkg)
+            .ok_or_else(|| PptxError::InvalidValue("template missing ppt/slideMasters/".into()))?;
+
+        let master_rels = relationships(pkg, &master);
+        let mut layouts: Vec<String> = master_rels
+            .iter()
+            .filter(|r| r.is("slideLayout") && pkg.has_part(&r.target))
+            .map(|r| r.target.clone())
+            .collect();
+        layouts.sort_by_key(|p| (trailing_number(p), p.clone()));
+        layouts.dedup();
+        if layouts.is_empty() {
+            return Err(PptxError::InvalidValue("template missing ppt/slideLayouts/".into()));
+        }
+
+        let mut names: Vec<(String, String)> = vec![(master, MASTER.to_string())];
+        for (i, layout) in layouts.iter().enumerate() {
+            names.push((layout.clone(), format!("ppt/slideLayouts/slideLayout{}.xml", i + 1)));
+        }
+        if let Some(theme) = master_rels.iter().find(|r| r.is("theme") && pkg.has_part(&r.target)) {
+            names.push((theme.target.clone(), THEME.to_string()));
+        }
+
+        // Whatever these parts refer to (pictures, tags, ...) goes to a folder of its own
+        let mut content_types = Vec::new();
+        let mut queue: VecDeque<String> = names.iter().map(|(from, _)| from.clone()).collect();
+        while let Some(part) = queue.pop_front() {
+            for rel in relationships(pkg, &part) {
+                if !is_cloned(&rel) || !pkg.has_part(&rel.target) || new_name(&names, &rel.target).is_some() {
+                    continue;
                 }
+                let ext = rel.target.rsplit('/').next().and_then(|n| n.rsplit_once('.')).map_or("bin", |(_, e)| e);
+                let name = format!("ppt/template/part{}.{}", content_types.len() + 1, ext);
+                content_types.push((name.clone(), content_type(pkg, &rel.target)));
+                names.push((rel.target.clone(), name));
+                queue.push_back(rel.target);
+            }
         }
 
-        if !parts.keys().any(|p| p.starts_with("ppt/slideMasters/")) {
-            return Err(PptxError::InvalidValue(
-                "template missing ppt/slideMasters/".into(),
-            ));
+        let mut parts = HashMap::new();
+        for (from, to) in &names {
+            if let Some(data) = pkg.get_part(from) {
+                parts.insert(to.clone(), data.to_vec());
+            }
+            if pkg.has_part(&rels_path(from)) {
+                parts.insert(rels_path(to), relationships_xml(&relationships(pkg, from), &names).into_bytes());
+            }
+        }
+        if let Some(data) = pkg.get_part(TABLE_STYLES) {
+            parts.insert(TABLE_STYLES.to_string(), data.to_vec());
         }
 
-        let layout_count = parts
-            .keys()
-            .filter(|p| {
-                p.starts_with("ppt/slideLayouts/slideLayout")
-                    && p.ends_with(".xml")
-                    && !p.contains("_rels")
-            })
-            .count()
-            .max(1);
+        Ok(PptxTemplate { parts, layout_count: layouts.len(), content_types })
+    }
 
-        Ok(PptxTemplate { parts, layout_count })
+    /// Table styles of the template
+    pub(crate) fn table_styles(&self) -> Option<&[u8]> {
+        self.parts.get(TABLE_STYLES).map(|d| d.as_slice())
+    }
+
+    /// Master, layouts, theme and the parts they refer to, by name
+    pub(crate) fn master_parts(&self) -> Vec<(&str, &[u8])> {
+        let mut parts: Vec<(&str, &[u8])> = self
+            .parts
+            .iter()
+            .filter(|(path, _)| *path != TABLE_STYLES)
+            .map(|(path, data)| (path.as_str(), data.as_slice()))
+            .collect();
+        parts.sort();
+        parts
+    }
+
+    /// Declare the layouts and other parts of the template in `[Content_Types].xml`
+    pub(crate) fn declare_parts(&self, xml: &mut String) {
+        let layout_type = "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml";
+        let declaration = |path: &str, kind: &str| {
+            format!("\n<Override PartName=\"/{}\" ContentType=\"{}\"/>", escape_xml(path), escape_xml(kind))
+        };
+        let mut wanted = String::new();
+        for n in 1..=self.layout_count.max(super::layout_parts::STANDARD_LAYOUT_COUNT) {
+            let path = format!("ppt/slideLayouts/slideLayout{n}.xml");
+            *xml = xml.replace(&declaration(&path, layout_type), "");
+            if self.has_layout(n) {
+                wanted.push_str(&declaration(&path, layout_type));
+            }
+        }
+        for (path, kind) in &self.content_types {
+            wanted.push_str(&declaration(path, kind));
+        }
+        if let Some(pos) = xml.rfind("</Types>") {
+            xml.insert_str(pos, &wanted);
+        }
     }
 
     pub fn layout_count(&self) -> usize {
@@ -75,6 +164,125 @@ impl PptxTemplate {
     }
 }
 
+/// The first slide master of the presentation
+fn first_master(pkg: &Package) -> Option<String> {
+    let presentation = relationships_of(pkg, "_rels/.rels", "")
+        .into_iter()
+        .find(|r| r.is("officeDocument"))
+        .map_or_else(|| "ppt/presentation.xml".to_string(), |r| r.target);
+    let rels = relationships(pkg, &presentation);
+    let listed = pkg
+        .get_part_string(&presentation)
+        .and_then(|xml| XmlParser::parse_str(&xml).ok())
+        .and_then(|root| {
+            let entry = root.find_descendant("sldMasterId")?;
+            let (_, id) = entry.attributes.iter().find(|(name, _)| name.ends_with(":id"))?;
+            rels.iter().find(|r| r.id == *id).map(|r| r.target.clone())
+        });
+    listed
+        .or_else(|| rels.iter().find(|r| r.is("slideMaster")).map(|r| r.target.clone()))
+        .filter(|path| pkg.has_part(path))
+        .or_else(|| {
+            let mut paths: Vec<&str> = pkg
+                .part_paths()
+                .into_iter()
+                .filter(|p| p.starts_with("ppt/slideMasters/") && p.ends_with(".xml"))
+                .collect();
+            paths.sort();
+            paths.first().map(|p| p.to_string())
+        })
+}
+
+/// Whether the target of a relationship becomes part of the new presentation
+fn is_cloned(rel: &Rel) -> bool {
+    !rel.external
+        && !["slide", "slideMaster", "slideLayout", "notesSlide", "notesMaster", "officeDocument"]
+            .iter()
+            .any(|kind| rel.is(kind))
+}
+
+fn new_name<'a>(names: &'a [(String, String)], path: &str) -> Option<&'a str> {
+    names.iter().find(|(from, _)| from == path).map(|(_, to)| to.as_str())
+}
+
+fn trailing_number(path: &str) -> usize {
+    let stem = path.trim_end_matches(".xml");
+    stem[stem.trim_end_matches(|c: char| c.is_ascii_digit()).len()..].parse().unwrap_or(usize::MAX)
+}
+
+fn rels_path(path: &str) -> String {
+    match path.rsplit_once('/') {
+        Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
+        None => format!("_rels/{path}.rels"),
+    }
+}
+
+fn relationships(pkg: &Package, path: &str) -> Vec<Rel> {
+    relationships_of(pkg, &rels_path(path), path.rsplit_once('/').map_or("", |(dir, _)| dir))
+}
+
+fn relationships_of(pkg: &Package, rels_path: &str, dir: &str) -> Vec<Rel> {
+    let xml = pkg.get_part_string(rels_path).unwrap_or_default();
+    let Ok(root) = XmlParser::parse_str(&xml) else { return Vec::new() };
+    root.find_all("Relationship")
+        .into_iter()
+        .filter_map(|r| {
+            let external = r.attr("TargetMode") == Some("External");
+            let target = r.attr("Target")?;
+            Some(Rel {
+                id: r.attr("Id")?.to_string(),
+                kind: r.attr("Type")?.to_string(),
+                target: if external { target.to_string() } else { resolve_target(dir, target) },
+                external,
+            })
+        })
+        .collect()
+}
+
+/// Relationships that lead to the parts under their new names
+fn relationships_xml(rels: &[Rel], names: &[(String, String)]) -> String {
+    let mut xml = String::from(
+        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">"#,
+    );
+    for rel in rels {
+        let (target, mode) = if rel.external {
+            (rel.target.clone(), r#" TargetMode="External""#)
+        } else if let Some(name) = new_name(names, &rel.target) {
+            (format!("/{name}"), "")
+        } else {
+            continue;
+        };
+        xml.push_str(&format!(
+            "\n<Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"{mode}/>",
+            escape_xml(&rel.id),
+            escape_xml(&rel.kind),
+            escape_xml(&target)
+        ));
+    }
+    xml.push_str("\n</Relationships>");
+    xml
+}
+
+/// Content type of a part as the template declares it
+fn content_type(pkg: &Package, path: &str) -> String {
+    let xml = pkg.get_part_string("[Content_Types].xml").unwrap_or_default();
+    let Ok(root) = XmlParser::parse_str(&xml) else { return "application/octet-stream".into() };
+    let name = format!("/{path}");
+    let ext = path.rsplit('.').next().unwrap_or_default();
+    root.find_all("Override")
+        .into_iter()
+        .find(|o| o.attr("PartName").is_some_and(|p| p.eq_ignore_ascii_case(&name)))
+        .or_else(|| {
+            root.find_all("Default")
+                .into_iter()
+                .find(|d| d.attr("Extension").is_some_and(|e| e.eq_ignore_ascii_case(ext)))
+        })
+        .and_then(|e| e.attr("ContentType"))
+        .unwrap_or("application/octet-stream")
+        .to_string()
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3f39274770705260f4db64c39a3d78dcc3ecb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:40 +0000
Subject: [PATCH 074/140] fix: write the real creation and modification dates

---
 src/core/mod.rs            |  2 ++
 src/core/timestamp.rs      | 36 ++++++++++++++++++++++++++++++++++++
 src/generator/props_xml.rs | 25 +------------------------
 src/parts/coreprops.rs     | 32 +-------------------------------
 4 files changed, 40 insertions(+), 55 deletions(-)
 create mode 100644 src/core/timestamp.rs

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 2e3b90f..86b768d 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -7,6 +7,7 @@ mod dimension;
 mod package_validation;
 mod placement;
 mod powerpoint_compat;
+mod timestamp;
 mod traits;
 mod validation;
 mod xml_utils;
@@ -18,6 +19,7 @@ pub use package_validation::{
 };
 pub use placement::ElementPlacement;
 pub use powerpoint_compat::{validate_powerpoint_structure, CompatReport};
+pub(crate) use timestamp::current_timestamp;
 pub use traits::{Positioned, Sized as ElementSized, ToXml};
 pub use validation::{
     check_required_parts, check_required_parts_with_descriptions, clamp_ratio,
diff --git a/src/core/timestamp.rs b/src/core/timestamp.rs
new file mode 100644
index 0000000..e935b3f
--- /dev/null
+++ b/src/core/timestamp.rs
@@ -0,0 +1,36 @@
+//! Current time for document properties
+
+/// Current timestamp in ISO 8601 format (UTC)
+pub(crate) fn current_timestamp() -> String {
+    let secs = std::time::SystemTime::now()
+        .duration_since(std::time::UNIX_EPOCH)
+        .unwrap_or_else(|_| std::time::Duration::from_secs(0))
+        .as_secs();
+    format_timestamp(secs)
+}
+
+/// Format seconds since 1970-01-01 in the Gregorian calendar
+fn format_timestamp(secs: u64) -> String {
+    let (days, seconds) = (secs / 86400, secs % 86400);
+
+    // Count days from 0000-03-01, so that leap days end the years
+    let days = days + 719_468;
+    let (era, day_of_era) = (days / 146_097, days % 146_097);
+    let year_of_era = (day_of_era - day_of_era / 1_460 + day_of_era / 36_524 - day_of_era / 146_096) / 365;
+    let day_of_year = day_of_era - (365 * year_of_era + year_of_era / 4 - year_of_era / 100);
+    let shifted_month = (5 * day_of_year + 2) / 153;
+
+    let day = day_of_year - (153 * shifted_month + 2) / 5 + 1;
+    let month = if shifted_month < 10 { shifted_month + 3 } else { shifted_month - 9 };
+    let year = era * 400 + year_of_era + u64::from(month <= 2);
+
+    format!(
+        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
+        year,
+        month,
+        day,
+        seconds / 3600,
+        seconds % 3600 / 60,
+        seconds % 60
+    )
+}
diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 93ef8ab..da8bd0a 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -1,29 +1,6 @@
 //! Document properties XML generation
 
-/// Get current timestamp in ISO 8601 format (UTC)
-fn current_timestamp() -> String {
-    let duration = std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap_or_else(|_| std::time::Duration::from_secs(0));
-
-    let secs = duration.as_secs();
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30;
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
-}
+use crate::core::current_timestamp;
 
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index c2e8c6f..b0c13d4 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -3,40 +3,10 @@
 //! Represents docProps/core.xml with document metadata.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::current_timestamp;
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
-/// Get current timestamp in ISO 8601 format (UTC)
-/// Simple alternative to chrono::Utc::now()
-fn current_timestamp() -> String {
-    // Use std::time for current timestamp
-    let duration = std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap_or_else(|_| std::time::Duration::from_secs(0));
-
-    let secs = duration.as_secs();
-
-    // Convert to UTC datetime (simplified calculation)
-    // Days since Unix epoch
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    // Approximate date from Unix epoch (1970-01-01)
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30; // Approximate
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
-}
-
 /// Core properties part (docProps/core.xml)
 #[derive(Debug, Clone)]
 pub struct CorePropertiesPart {
-- 
2.43.0


From ff76722e33ac58ca3dedfe5cc03c0275563cbf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:41 +0000
Subject: [PATCH 075/140] fix: keep the fonts of a theme that has the default
 name and colours

---
 src/generator/presentation_theme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 8176115..b326e30 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -233,7 +233,7 @@ impl PresentationTheme {
 
     /// Generate `ppt/theme/theme1.xml` content using the full Office theme template.
     pub fn to_theme_xml(&self) -> String {
-        if self.name == "Office Theme" && self.colors == ThemeColorScheme::office() {
+        if *self == Self::office() {
             return office_theme_xml().to_string();
         }
 
-- 
2.43.0


From 2092300c9353e27a0033224f5915a4f4f3b73272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:53 +0000
Subject: [PATCH 076/140] fix: write ink strokes as separate points with
 brushes that can be found, and ink without strokes as a valid part

---
 src/generator/slide_content/ink_annotations.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/generator/slide_content/ink_annotations.rs b/src/generator/slide_content/ink_annotations.rs
index 3aa34ca..61dbf22 100644
--- a/src/generator/slide_content/ink_annotations.rs
+++ b/src/generator/slide_content/ink_annotations.rs
@@ -123,20 +123,19 @@ impl InkStroke {
         self.points.is_empty()
     }
 
-    /// Generate points string for ink XML (space-separated x y pairs)
+    /// Generate points string for ink XML (comma-separated x y pairs)
     fn points_str(&self) -> String {
         self.points
             .iter()
             .map(|p| format!("{} {}", p.x as i64, p.y as i64))
             .collect::<Vec<_>>()
-            .join(" ")
+            .join(", ")
     }
 
     /// Generate XML for this stroke as an `<ink:trace>` element
     pub fn to_xml(&self, trace_id: u32) -> String {
         format!(
-            "<ink:trace contextRef=\"#{}\" brushRef=\"#br{}\" id=\"{}\">{}</ink:trace>",
-            trace_id,
+            "<ink:trace brushRef=\"#br{}\" xml:id=\"tr{}\">{}</ink:trace>",
             trace_id,
             trace_id,
             self.points_str(),
@@ -181,10 +180,6 @@ impl InkAnnotations {
 
     /// Generate the standalone ink part XML (`ppt/ink/inkN.xml`).
     pub fn part_xml(&self) -> String {
-        if self.strokes.is_empty() {
-            return String::new();
-        }
-
         let mut xml = String::from(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <ink:ink xmlns:ink="http://www.w3.org/2003/InkML">"#,
@@ -198,7 +193,7 @@ impl InkAnnotations {
                 String::new()
             };
             xml.push_str(&format!(
-                "<ink:brush id=\"br{}\" color=\"#{}\" width=\"{}\" tip=\"{}\"{} />\n",
+                "<ink:brush xml:id=\"br{}\" color=\"#{}\" width=\"{}\" tip=\"{}\"{} />\n",
                 i, stroke.pen.color, stroke.pen.width, stroke.pen.tip.to_xml(), opacity_attr,
             ));
         }
-- 
2.43.0


From b1e7b63f33b5400f05ff88f51ba4cba0b70027bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:15 +0000
Subject: [PATCH 077/140] fix: write the signature provider id as a GUID

---
 src/generator/slide_content/digital_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index 3f187f4..3154edb 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -164,7 +164,7 @@ impl DigitalSignature {
         xml.push_str(r#"</KeyInfo>"#);
         xml.push_str("<Object>");
         xml.push_str(&format!(
-            "<SignatureProperties><SignatureProperty Target=\"#SignatureInfo\"><SignatureInfoV1 xmlns=\"http://schemas.microsoft.com/office/2006/digsig\"><SetupID/><SignatureText>{}</SignatureText>{}<SignatureType>1</SignatureType><SignatureProviderUrl/><SignatureProviderDetails>9</SignatureProviderDetails><ManifestHashAlgorithm>{}</ManifestHashAlgorithm><SignatureProviderId>{{{{00000000-0000-0000-0000-000000000000}}}}</SignatureProviderId><CommitmentTypeId>{}</CommitmentTypeId><CommitmentTypeQualifier>{}</CommitmentTypeQualifier><SigningTime>{}</SigningTime></SignatureInfoV1></SignatureProperty></SignatureProperties>",
+            "<SignatureProperties><SignatureProperty Target=\"#SignatureInfo\"><SignatureInfoV1 xmlns=\"http://schemas.microsoft.com/office/2006/digsig\"><SetupID/><SignatureText>{}</SignatureText>{}<SignatureType>1</SignatureType><SignatureProviderUrl/><SignatureProviderDetails>9</SignatureProviderDetails><ManifestHashAlgorithm>{}</ManifestHashAlgorithm><SignatureProviderId>{{00000000-0000-0000-0000-000000000000}}</SignatureProviderId><CommitmentTypeId>{}</CommitmentTypeId><CommitmentTypeQualifier>{}</CommitmentTypeQualifier><SigningTime>{}</SigningTime></SignatureInfoV1></SignatureProperty></SignatureProperties>",
             xml_escape(&self.signer.name),
             comments_xml,
             self.hash_algorithm.uri(),
-- 
2.43.0


From 7932e02a3e7ed4c74e0b46fd5115cf0e610b9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:09 +0000
Subject: [PATCH 078/140] fix: keep the bullets of centred-title and
 section-header slides

---
 src/generator/slide_xml/layouts.rs | 61 ++++++++++++++++++++++++++++++
 1 file changed, 61 insertions(+)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 1feb0fd..d905d92 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -127,11 +127,71 @@ pub fn create_section_header_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    push_body_below_title(&mut xml, content, 24, 3_520_440, 2_400_000);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
 }
 
+/// Render the bullets of a layout whose title sits in the middle of the slide
+/// as a text box below that title
+fn push_body_below_title(
+    xml: &mut String,
+    content: &SlideContent,
+    default_size: u32,
+    y: u32,
+    height: u32,
+) {
+    if content.bullets.is_empty() && content.content.is_empty() {
+        return;
+    }
+
+    xml.push_str(&format!(
+        r#"
+<p:sp>
+<p:nvSpPr>
+<p:cNvPr id="3" name="Content"/>
+<p:cNvSpPr txBox="1"/>
+<p:nvPr/>
+</p:nvSpPr>
+<p:spPr>
+<a:xfrm>
+<a:off x="457200" y="{y}"/>
+<a:ext cx="8230200" cy="{height}"/>
+</a:xfrm>
+<a:prstGeom prst="rect"><a:avLst/></a:prstGeom>
+<a:noFill/>
+</p:spPr>
+<p:txBody>
+<a:bodyPr wrap="square" rtlCol="0"/>
+<a:lstStyle/>"#
+    ));
+
+    let default_props = ExtendedTextProps::with_basic(
+        content.content_size.unwrap_or(default_size) * 100,
+        content.content_bold,
+        content.content_italic,
+        content.content_underline,
+        content.content_color.as_deref(),
+    );
+    if !content.bullets.is_empty() {
+        for bullet in &content.bullets {
+            xml.push_str(&generate_bullet_paragraph_from_point(bullet, &default_props));
+        }
+    } else {
+        for bullet in &content.content {
+            let bp = BulletPoint::new(bullet).with_style(content.bullet_style);
+            xml.push_str(&generate_bullet_paragraph_from_point(&bp, &default_props));
+        }
+    }
+
+    xml.push_str(
+        r#"
+</p:txBody>
+</p:sp>"#,
+    );
+}
+
 /// Create a centered title slide
 pub fn create_centered_title_slide(
     content: &SlideContent,
@@ -159,6 +219,7 @@ pub fn create_centered_title_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    push_body_below_title(&mut xml, content, 28, 4_206_240, 2_200_000);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
-- 
2.43.0


From f2c425d98511c0e6060a1171b01c3ae26c5d3751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:11 +0000
Subject: [PATCH 079/140] fix: do not panic on colour strings that are not
 hexadecimal

---
 src/elements/color.rs | 2 +-
 src/helpers/colors.rs | 4 +++-
 src/helpers/mod.rs    | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/elements/color.rs b/src/elements/color.rs
index 3216b85..04815f0 100644
--- a/src/elements/color.rs
+++ b/src/elements/color.rs
@@ -21,7 +21,7 @@ impl RgbColor {
     /// Parse from hex string (e.g., "FF0000" or "#FF0000")
     pub fn from_hex(hex: &str) -> Option<Self> {
         let hex = hex.trim_start_matches('#');
-        if hex.len() != 6 {
+        if hex.len() != 6 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
             return None;
         }
         let r = u8::from_str_radix(&hex[0..2], 16).ok()?;
diff --git a/src/helpers/colors.rs b/src/helpers/colors.rs
index 95c0989..d02d77f 100644
--- a/src/helpers/colors.rs
+++ b/src/helpers/colors.rs
@@ -31,7 +31,9 @@ impl ColorValue {
     /// Create a color from a hex string (with or without #)
     pub fn from_hex(hex: &str) -> Self {
         let hex = hex.trim_start_matches('#');
-        if hex.len() == 6 {
+        if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            Self::rgb(0, 0, 0)
+        } else if hex.len() == 6 {
             let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
             let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
             let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
diff --git a/src/helpers/mod.rs b/src/helpers/mod.rs
index 50a7bff..bb0a15c 100644
--- a/src/helpers/mod.rs
+++ b/src/helpers/mod.rs
@@ -229,7 +229,7 @@ pub fn rgb(r: u8, g: u8, b: u8) -> Color {
 /// ```
 pub fn hex(color: &str) -> Color {
     let color = color.trim_start_matches('#');
-    if color.len() == 6 {
+    if color.len() == 6 && color.bytes().all(|b| b.is_ascii_hexdigit()) {
         let r = u8::from_str_radix(&color[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&color[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&color[4..6], 16).unwrap_or(0);
-- 
2.43.0


From fb5311fb7bf8b12923a781265059a3d208d81c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:03 +0000
Subject: [PATCH 080/140] fix: read the dimensions of more JPEG and BMP images

---
 src/generator/images.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 045189a..ec755f4 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -117,8 +117,8 @@ impl Image {
             .ok_or_else(|| "Failed to detect image dimensions (unsupported format)".to_string())?;
             
         // Convert pixels to EMU (assuming 96 DPI): 1 pixel = 9525 EMU
-        let w_emu = w * 9525;
-        let h_emu = h * 9525;
+        let w_emu = w.saturating_mul(9525);
+        let h_emu = h.saturating_mul(9525);
         
         Ok(Image {
             filename,
@@ -742,11 +742,19 @@ fn read_image_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
         let h = u16::from_le_bytes([data[8], data[9]]) as u32;
         return Some((w, h, "GIF".into()));
     }
-    // BMP: "BM", width/height as little-endian u32 at offset 18/22
+    // BMP: "BM", then a header whose size tells how the dimensions are stored
     if data.starts_with(b"BM") && data.len() >= 26 {
-        let w = u32::from_le_bytes([data[18], data[19], data[20], data[21]]);
-        let h = u32::from_le_bytes([data[22], data[23], data[24], data[25]]);
-        return Some((w, h, "BMP".into()));
+        let header_size = u32::from_le_bytes([data[14], data[15], data[16], data[17]]);
+        if header_size == 12 {
+            // Core header: two little-endian u16
+            let w = u16::from_le_bytes([data[18], data[19]]) as u32;
+            let h = u16::from_le_bytes([data[20], data[21]]) as u32;
+            return Some((w, h, "BMP".into()));
+        }
+        // Signed little-endian i32; a negative height means rows stored top-down
+        let w = i32::from_le_bytes([data[18], data[19], data[20], data[21]]);
+        let h = i32::from_le_bytes([data[22], data[23], data[24], data[25]]);
+        return Some((w.unsigned_abs(), h.unsigned_abs(), "BMP".into()));
     }
     // WebP: "RIFF....WEBP", VP8 chunk has dimensions
     if data.len() >= 30 && &data[0..4] == b"RIFF" && &data[8..12] == b"WEBP" {
@@ -771,7 +779,7 @@ fn read_image_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
     None
 }
 
-/// Scan JPEG markers to find SOF0/SOF2 frame with dimensions
+/// Scan JPEG markers to find the start-of-frame segment with dimensions
 fn read_jpeg_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
     let mut i = 2;
     while i + 1 < data.len() {
@@ -780,9 +788,15 @@ fn read_jpeg_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
             continue;
         }
         let marker = data[i + 1];
+        if marker == 0xFF {
+            // Fill byte before a marker
+            i += 1;
+            continue;
+        }
         i += 2;
-        // SOF0 (0xC0) or SOF2 (0xC2): height at +3, width at +5 (big-endian u16)
-        if (marker == 0xC0 || marker == 0xC2) && i + 7 < data.len() {
+        // SOF0-SOF15 (0xC4, 0xC8 and 0xCC are not frames): height at +3, width at +5
+        let is_frame = matches!(marker, 0xC0..=0xCF) && !matches!(marker, 0xC4 | 0xC8 | 0xCC);
+        if is_frame && i + 7 < data.len() {
             let h = u16::from_be_bytes([data[i + 3], data[i + 4]]) as u32;
             let w = u16::from_be_bytes([data[i + 5], data[i + 6]]) as u32;
             return Some((w, h, "JPEG".into()));
-- 
2.43.0


From 71ea0ba009b419e6810c84d223606f5c613f4feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:05 +0000
Subject: [PATCH 081/140] fix: keep earlier effects and crop when an image is
 built with another one

---
 src/generator/images.rs | 104 ++++------------------------------------
 1 file changed, 8 insertions(+), 96 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index ec755f4..b8923d4 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -593,130 +593,42 @@ impl ImageBuilder {
     
     /// Build with crop
     pub fn build_with_crop(self, left: f64, top: f64, right: f64, bottom: f64) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: Some(Crop::new(left, top, right, bottom)),
-            effects: Vec::new(),
-            alt_text: None,
-        }
+        self.crop(left, top, right, bottom).build()
     }
     
     /// Build with shadow effect
     pub fn build_with_shadow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Shadow],
-            alt_text: None,
-        }
+        self.shadow().build()
     }
     
     /// Build with reflection effect
     pub fn build_with_reflection(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Reflection],
-            alt_text: None,
-        }
+        self.reflection().build()
     }
     
     /// Build with both shadow and reflection effects
     pub fn build_with_effects(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Shadow, ImageEffect::Reflection],
-            alt_text: None,
-        }
+        self.shadow().reflection().build()
     }
     
     /// Build with glow effect
     pub fn build_with_glow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Glow],
-            alt_text: None,
-        }
+        self.glow().build()
     }
     
     /// Build with soft edges effect
     pub fn build_with_soft_edges(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::SoftEdges],
-            alt_text: None,
-        }
+        self.soft_edges().build()
     }
     
     /// Build with inner shadow effect
     pub fn build_with_inner_shadow(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::InnerShadow],
-            alt_text: None,
-        }
+        self.inner_shadow().build()
     }
     
     /// Build with blur effect
     pub fn build_with_blur(self) -> Image {
-        Image {
-            filename: self.filename,
-            width: self.placement.width,
-            height: self.placement.height,
-            x: self.placement.x,
-            y: self.placement.y,
-            format: self.format,
-            source: self.source,
-            crop: None,
-            effects: vec![ImageEffect::Blur],
-            alt_text: None,
-        }
+        self.blur().build()
     }
 }
 
-- 
2.43.0


From 9e278a31077ea853805831e2be86eda840d492aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:06 +0000
Subject: [PATCH 082/140] fix: recognise BMP and WebP bytes in
 ImageBuilder::auto

---
 src/generator/images.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index b8923d4..d9d7cf9 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -484,6 +484,10 @@ impl ImageBuilder {
                 "JPEG"
             } else if data.len() >= 6 && (&data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a") {
                 "GIF"
+            } else if &data[0..2] == b"BM" {
+                "BMP"
+            } else if data.len() >= 12 && &data[0..4] == b"RIFF" && &data[8..12] == b"WEBP" {
+                "WEBP"
             } else {
                 "PNG" // default
             }
-- 
2.43.0


From 25e32a2ecbfbbfec838e707407f8860fcc2282f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:08 +0000
Subject: [PATCH 083/140] fix: layout positions for shapes that do not fit, and
 for no shapes

---
 src/prelude.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index a09ae6e..422b444 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -704,12 +704,12 @@ pub mod layouts {
 
     /// Center a shape on the slide (horizontal)
     pub fn center_x(shape_width: u32) -> u32 {
-        (SLIDE_WIDTH - shape_width) / 2
+        SLIDE_WIDTH.saturating_sub(shape_width) / 2
     }
 
     /// Center a shape on the slide (vertical)
     pub fn center_y(shape_height: u32) -> u32 {
-        (SLIDE_HEIGHT - shape_height) / 2
+        SLIDE_HEIGHT.saturating_sub(shape_height) / 2
     }
 
     /// Get position for centering a shape both horizontally and vertically
@@ -717,19 +717,31 @@ pub mod layouts {
         (center_x(shape_width), center_y(shape_height))
     }
 
+    /// Total extent of `count` items with `spacing` between them
+    fn extent(count: usize, size: u32, spacing: u32) -> u32 {
+        let gaps = offset(count.saturating_sub(1), 0, spacing);
+        offset(count, 0, size).saturating_add(gaps)
+    }
+
+    /// Position of the item at `index` when items start at `start`, `step` apart
+    fn offset(index: usize, start: u32, step: u32) -> u32 {
+        let index = u32::try_from(index).unwrap_or(u32::MAX);
+        start.saturating_add(index.saturating_mul(step))
+    }
+
     /// Calculate grid positions for arranging shapes
     /// Returns Vec of (x, y) positions
     pub fn grid(rows: usize, cols: usize, cell_width: u32, cell_height: u32) -> Vec<(u32, u32)> {
         let mut positions = Vec::new();
-        let total_width = cell_width * cols as u32;
-        let total_height = cell_height * rows as u32;
+        let total_width = extent(cols, cell_width, 0);
+        let total_height = extent(rows, cell_height, 0);
         let start_x = center_x(total_width);
         let start_y = center_y(total_height);
 
         for row in 0..rows {
             for col in 0..cols {
-                let x = start_x + (col as u32 * cell_width);
-                let y = start_y + (row as u32 * cell_height);
+                let x = offset(col, start_x, cell_width);
+                let y = offset(row, start_y, cell_height);
                 positions.push((x, y));
             }
         }
@@ -743,11 +755,11 @@ pub mod layouts {
         spacing: u32,
         y: u32,
     ) -> Vec<(u32, u32)> {
-        let total_width = (shape_width * count as u32) + (spacing * (count - 1) as u32);
+        let total_width = extent(count, shape_width, spacing);
         let start_x = center_x(total_width);
 
         (0..count)
-            .map(|i| (start_x + (i as u32 * (shape_width + spacing)), y))
+            .map(|i| (offset(i, start_x, shape_width.saturating_add(spacing)), y))
             .collect()
     }
 
@@ -758,11 +770,11 @@ pub mod layouts {
         spacing: u32,
         x: u32,
     ) -> Vec<(u32, u32)> {
-        let total_height = (shape_height * count as u32) + (spacing * (count - 1) as u32);
+        let total_height = extent(count, shape_height, spacing);
         let start_y = center_y(total_height);
 
         (0..count)
-            .map(|i| (x, start_y + (i as u32 * (shape_height + spacing))))
+            .map(|i| (x, offset(i, start_y, shape_height.saturating_add(spacing))))
             .collect()
     }
 
@@ -776,10 +788,11 @@ pub mod layouts {
         }
 
         let usable_width = SLIDE_WIDTH - (2 * MARGIN);
-        let spacing = (usable_width - (shape_width * count as u32)) / (count as u32 - 1);
+        let gaps = u32::try_from(count - 1).unwrap_or(u32::MAX);
+        let spacing = usable_width.saturating_sub(extent(count, shape_width, 0)) / gaps;
 
         (0..count)
-            .map(|i| (MARGIN + (i as u32 * (shape_width + spacing)), y))
+            .map(|i| (offset(i, MARGIN, shape_width.saturating_add(spacing)), y))
             .collect()
     }
 }
-- 
2.43.0


From 7218271993c24bda3f29e3e5277b2000d0eeab7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:02 +0000
Subject: [PATCH 084/140] fix: give every table row one cell per grid column

---
 src/generator/table/builder.rs |  4 ++--
 src/generator/table/xml.rs     | 30 ++++++++++++++++++++++++++----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/generator/table/builder.rs b/src/generator/table/builder.rs
index cefcb27..389a632 100644
--- a/src/generator/table/builder.rs
+++ b/src/generator/table/builder.rs
@@ -43,7 +43,7 @@ impl Table {
 
     /// Calculate total table width
     pub fn width(&self) -> u32 {
-        self.column_widths.iter().sum()
+        self.column_widths.iter().fold(0, |sum: u32, width| sum.saturating_add(*width))
     }
 
     /// Calculate total table height based on row heights
@@ -51,7 +51,7 @@ impl Table {
         self.rows
             .iter()
             .map(|row| row.height.unwrap_or(400000))
-            .sum()
+            .fold(0, u32::saturating_add)
     }
 
     /// Get the number of rows
diff --git a/src/generator/table/xml.rs b/src/generator/table/xml.rs
index 66f08ee..5b99f87 100644
--- a/src/generator/table/xml.rs
+++ b/src/generator/table/xml.rs
@@ -2,6 +2,7 @@
 
 use super::builder::Table;
 use super::format::generate_cell_xml;
+use super::cell::TableCell;
 use super::row::TableRow;
 use crate::core::XmlWriter;
 
@@ -9,7 +10,19 @@ use crate::core::XmlWriter;
 pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
     let x = table.x.to_string();
     let y = table.y.to_string();
-    let width = table.width().to_string();
+
+    // Every row needs exactly one cell per grid column: the grid grows to the
+    // longest row and shorter rows are filled up with empty cells
+    let columns = table
+        .rows
+        .iter()
+        .map(|row| row.cells.len())
+        .fold(table.column_widths.len(), usize::max);
+    let mut column_widths = table.column_widths.clone();
+    let extra_width = column_widths.last().copied().unwrap_or(914_400);
+    column_widths.resize(columns, extra_width);
+
+    let width = column_widths.iter().fold(0u32, |sum, w| sum.saturating_add(*w)).to_string();
     let height = table.height().to_string();
     let shape_id_str = shape_id.to_string();
     let table_name = format!("Table {shape_id}");
@@ -30,7 +43,7 @@ pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
     writer.empty_element("a:ext", &[("cx", &width), ("cy", &height)]);
     writer.raw("</p:xfrm><a:graphic><a:graphicData uri=\"http://schemas.openxmlformats.org/drawingml/2006/table\"><a:tbl><a:tblPr firstRow=\"1\" bandRow=\"1\"/><a:tblGrid>");
 
-    for (col_idx, col_width) in table.column_widths.iter().enumerate() {
+    for (col_idx, col_width) in column_widths.iter().enumerate() {
         let col_id = 20_000 + col_idx;
         writer.raw(&format!(
             r#"<a:gridCol w="{col_width}"><a:extLst><a:ext uri="{{9D8B030D-6E8A-4147-A177-3AD203B41FA5}}"><a16:colId xmlns:a16="http://schemas.microsoft.com/office/drawing/2014/main" val="{col_id}"/></a:ext></a:extLst></a:gridCol>"#
@@ -40,7 +53,7 @@ pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
     writer.raw("</a:tblGrid>");
 
     for (row_idx, row) in table.rows.iter().enumerate() {
-        writer.raw(&generate_row_xml(row, row_idx));
+        writer.raw(&generate_row_xml(row, row_idx, columns));
     }
 
     writer.raw("</a:tbl></a:graphicData></a:graphic>");
@@ -49,7 +62,7 @@ pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
 }
 
 /// Generate row XML
-fn generate_row_xml(row: &TableRow, row_idx: usize) -> String {
+fn generate_row_xml(row: &TableRow, row_idx: usize, columns: usize) -> String {
     let height = row.height.unwrap_or(400000).to_string();
     let row_id = 10_000 + row_idx;
     let mut writer = XmlWriter::with_capacity(512);
@@ -58,6 +71,15 @@ fn generate_row_xml(row: &TableRow, row_idx: usize) -> String {
     for cell in &row.cells {
         writer.raw(&generate_cell_xml(cell));
     }
+    for col_idx in row.cells.len()..columns {
+        let mut filler = TableCell::new("");
+        filler.h_merge = row
+            .cells
+            .iter()
+            .enumerate()
+            .any(|(idx, cell)| idx + cell.grid_span.unwrap_or(1) as usize > col_idx);
+        writer.raw(&generate_cell_xml(&filler));
+    }
 
     writer.raw(&format!(
         r#"<a:extLst><a:ext uri="{{0D108BD9-81ED-4DB2-BD59-A6C34878D82A}}"><a16:rowId xmlns:a16="http://schemas.microsoft.com/office/drawing/2014/main" val="{row_id}"/></a:ext></a:extLst>"#
-- 
2.43.0


From b9358f3fe0bf8c44cb67af8eb4bc801ea7d420c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 085/140] fix: show the title and slide count of a presentation
 in pptcli info

---
 src/cli/commands.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cli/commands.rs b/src/cli/commands.rs
index 7015c61..6a7ab48 100644
--- a/src/cli/commands.rs
+++ b/src/cli/commands.rs
@@ -151,6 +151,17 @@ impl InfoCommand {
         let is_file = metadata.is_file();
         println!("Is file:  {is_file}");
 
+        // Read the presentation itself
+        if let Ok(reader) = crate::oxml::PresentationReader::open(file) {
+            println!("\nPresentation Information");
+            println!("========================");
+            if let Some(title) = &reader.info().title {
+                println!("Title: {title}");
+            }
+            println!("Slides: {}", reader.slide_count());
+            return Ok(());
+        }
+
         // Try to read and parse as XML
         if let Ok(content) = fs::read_to_string(file) {
             if content.starts_with("<?xml") {
-- 
2.43.0


From 4f3db26c36a94128df39646c9aaa9792eeae2dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:42 +0000
Subject: [PATCH 086/140] fix: report why pptcli validate --json fails

---
 src/bin/pptcli.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/bin/pptcli.rs b/src/bin/pptcli.rs
index 3866125..48dd018 100644
--- a/src/bin/pptcli.rs
+++ b/src/bin/pptcli.rs
@@ -79,9 +79,7 @@ fn main() {
                 }
             }
             Err(e) => {
-                if !json {
-                    eprintln!("✗ Error: {e}");
-                }
+                eprintln!("✗ Error: {e}");
                 std::process::exit(1);
             }
         },
-- 
2.43.0


From 999527f1f63493e9c1b21535a348d9f22cca630b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:08 +0000
Subject: [PATCH 087/140] fix: do not panic on colours that are not hexadecimal
 in PDF export

---
 src/export/slide_render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 9e4bb57..e6f8524 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -63,7 +63,7 @@ fn font_name(bold: bool, italic: bool) -> &'static str {
 
 fn hex_to_rgb(hex: &str) -> (f32, f32, f32) {
     let h = hex.trim_start_matches('#');
-    if h.len() == 6 {
+    if h.len() == 6 && h.bytes().all(|b| b.is_ascii_hexdigit()) {
         let r = u8::from_str_radix(&h[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&h[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&h[4..6], 16).unwrap_or(0);
-- 
2.43.0


From 78c870c9fb2527bfe63105321c69925f2030afda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:09 +0000
Subject: [PATCH 088/140] fix: declare the font of code blocks on PDF pages

---
 src/export/slide_render.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index e6f8524..f0b3306 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -19,12 +19,14 @@ const FONT_HELVETICA: &str = "Helvetica";
 const FONT_HELVETICA_BOLD: &str = "Helvetica-Bold";
 const FONT_HELVETICA_OBLIQUE: &str = "Helvetica-Oblique";
 const FONT_HELVETICA_BOLD_OBLIQUE: &str = "Helvetica-BoldOblique";
+const FONT_COURIER: &str = "Courier";
 
 struct FontIds {
     helvetica: u32,
     helvetica_bold: u32,
     helvetica_oblique: u32,
     helvetica_bold_oblique: u32,
+    courier: u32,
 }
 
 fn add_fonts(generator: &mut PdfGenerator) -> FontIds {
@@ -44,11 +46,16 @@ fn add_fonts(generator: &mut PdfGenerator) -> FontIds {
         "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
         FONT_HELVETICA_BOLD_OBLIQUE
     ));
+    let courier = generator.add_object(format!(
+        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
+        FONT_COURIER
+    ));
     FontIds {
         helvetica,
         helvetica_bold,
         helvetica_oblique,
         helvetica_bold_oblique,
+        courier,
     }
 }
 
@@ -304,7 +311,7 @@ fn render_slide(
             if y < margin {
                 break;
             }
-            draw_text_line(&mut cs, line, margin + 8.0, y, "Courier", code_size, 0.1, 0.1, 0.1);
+            draw_text_line(&mut cs, line, margin + 8.0, y, FONT_COURIER, code_size, 0.1, 0.1, 0.1);
             y -= code_line_h;
         }
         y -= line_height * 0.5;
@@ -346,6 +353,7 @@ fn add_page(
              /{} {} 0 R \
              /{} {} 0 R \
              /{} {} 0 R \
+             /{} {} 0 R \
          >> >>\n\
          >>\n",
         pages_obj_id,
@@ -356,6 +364,7 @@ fn add_page(
         FONT_HELVETICA_BOLD, font_ids.helvetica_bold,
         FONT_HELVETICA_OBLIQUE, font_ids.helvetica_oblique,
         FONT_HELVETICA_BOLD_OBLIQUE, font_ids.helvetica_bold_oblique,
+        FONT_COURIER, font_ids.courier,
     );
     generator.add_object(page_dict)
 }
-- 
2.43.0


From 0079cb95a3424d6a3b6b4dba65a0b1d20ed07e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:11 +0000
Subject: [PATCH 089/140] fix: write PDF text in the encoding of its fonts

---
 src/export/slide_render.rs | 51 +++++++++++++++++++++++++++++++++-----
 1 file changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index f0b3306..fcd5788 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -31,23 +31,23 @@ struct FontIds {
 
 fn add_fonts(generator: &mut PdfGenerator) -> FontIds {
     let helvetica = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
+        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
         FONT_HELVETICA
     ));
     let helvetica_bold = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
+        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
         FONT_HELVETICA_BOLD
     ));
     let helvetica_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
+        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
         FONT_HELVETICA_OBLIQUE
     ));
     let helvetica_bold_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
+        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
         FONT_HELVETICA_BOLD_OBLIQUE
     ));
     let courier = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
+        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
         FONT_COURIER
     ));
     FontIds {
@@ -86,6 +86,43 @@ fn escape_pdf_text(s: &str) -> String {
         .replace(')', "\\)")
 }
 
+/// Code of a character in the WinAnsi encoding the fonts are declared with.
+/// White space becomes a space, other characters the fonts cannot show `?`.
+fn win_ansi_byte(c: char) -> u8 {
+    match c {
+        ' '..='~' | '\u{A0}'..='\u{FF}' => c as u8,
+        '\u{20AC}' => 0x80,
+        '\u{201A}' => 0x82,
+        '\u{0192}' => 0x83,
+        '\u{201E}' => 0x84,
+        '\u{2026}' => 0x85,
+        '\u{2020}' => 0x86,
+        '\u{2021}' => 0x87,
+        '\u{02C6}' => 0x88,
+        '\u{2030}' => 0x89,
+        '\u{0160}' => 0x8A,
+        '\u{2039}' => 0x8B,
+        '\u{0152}' => 0x8C,
+        '\u{017D}' => 0x8E,
+        '\u{2018}' => 0x91,
+        '\u{2019}' => 0x92,
+        '\u{201C}' => 0x93,
+        '\u{201D}' => 0x94,
+        '\u{2022}' => 0x95,
+        '\u{2013}' => 0x96,
+        '\u{2014}' => 0x97,
+        '\u{02DC}' => 0x98,
+        '\u{2122}' => 0x99,
+        '\u{0161}' => 0x9A,
+        '\u{203A}' => 0x9B,
+        '\u{0153}' => 0x9C,
+        '\u{017E}' => 0x9E,
+        '\u{0178}' => 0x9F,
+        c if c.is_whitespace() => b' ',
+        _ => b'?',
+    }
+}
+
 fn set_color(out: &mut Vec<u8>, r: f32, g: f32, b: f32) {
     out.extend_from_slice(format!("{:.3} {:.3} {:.3} rg\n", r, g, b).as_bytes());
 }
@@ -114,7 +151,9 @@ fn draw_text_line(
     set_font(out, font_name, font_size);
     out.extend_from_slice(b"BT\n");
     out.extend_from_slice(format!("{} {:.1} Td\n", x, y).as_bytes());
-    out.extend_from_slice(format!("({}) Tj\n", escape_pdf_text(text)).as_bytes());
+    out.push(b'(');
+    out.extend(escape_pdf_text(text).chars().map(win_ansi_byte));
+    out.extend_from_slice(b") Tj\n");
     out.extend_from_slice(b"ET\n");
 }
 
-- 
2.43.0


From aa6a7b0fa77e65e7646f55827fb23eee66bb0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:12 +0000
Subject: [PATCH 090/140] fix: draw the underline of PDF titles in its colour
 with a valid path

---
 src/export/slide_render.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index fcd5788..f197c90 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -240,9 +240,9 @@ fn render_slide(
             );
             // Underline
             if slide.title_underline {
-                set_color(&mut cs, tr, tg, tb);
+                cs.extend_from_slice(format!("{tr:.3} {tg:.3} {tb:.3} RG\n").as_bytes());
                 cs.extend_from_slice(
-                    format!("{:.1} {:.1} m\n{:.1} {:.1} l\n1 w\nS\n", margin, title_y - 4.0, page_w - margin, title_y - 4.0).as_bytes(),
+                    format!("1 w\n{:.1} {:.1} m\n{:.1} {:.1} l\nS\n", margin, title_y - 4.0, page_w - margin, title_y - 4.0).as_bytes(),
                 );
             }
         }
-- 
2.43.0


From 3ec24e524983531ee36cd4db9e18b2016be8ad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:13 +0000
Subject: [PATCH 091/140] fix: continue lettered PDF bullets after z

---
 src/export/slide_render.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index f197c90..e39badc 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -166,8 +166,8 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     match style {
         BulletStyle::Bullet => "\u{2022}".to_string(),
         BulletStyle::Number => format!("{}.", index + 1),
-        BulletStyle::LetterLower => format!("{}.", char::from_u32(b'a' as u32 + index).unwrap_or('a')),
-        BulletStyle::LetterUpper => format!("{}.", char::from_u32(b'A' as u32 + index).unwrap_or('A')),
+        BulletStyle::LetterLower => format!("{}.", to_letters(index)),
+        BulletStyle::LetterUpper => format!("{}.", to_letters(index).to_uppercase()),
         BulletStyle::RomanLower => to_roman(index + 1).to_lowercase(),
         BulletStyle::RomanUpper => to_roman(index + 1),
         BulletStyle::Custom(ch) => ch.to_string(),
@@ -175,6 +175,12 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     }
 }
 
+/// Letters of the item at `index`: a to z, then aa to zz and so on
+fn to_letters(index: u32) -> String {
+    let letter = char::from(b'a' + (index % 26) as u8);
+    std::iter::repeat(letter).take(index as usize / 26 + 1).collect()
+}
+
 fn to_roman(mut num: u32) -> String {
     let pairs = [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")];
     let mut result = String::new();
-- 
2.43.0


From d19abadf34f43a34bd5d06dffed41872bd7cf398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 092/140] fix: keep every node of Mermaid flowcharts, in order,
 with its label

---
 src/cli/markdown/mermaid/flowchart.rs | 115 +++++++++++++++-----------
 1 file changed, 65 insertions(+), 50 deletions(-)

diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index 3cae060..faa47a9 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -27,7 +27,8 @@ pub fn parse(code: &str) -> Flowchart {
     let first_line = lines.next().unwrap_or("");
     let direction = parse_direction(first_line);
 
-    let mut nodes: HashMap<String, FlowNode> = HashMap::new();
+    // Nodes in the order in which they appear
+    let mut nodes: Vec<FlowNode> = Vec::new();
     let mut connections: Vec<FlowConnection> = Vec::new();
     let mut subgraphs: Vec<Subgraph> = Vec::new();
     let mut current_subgraph: Option<Subgraph> = None;
@@ -60,69 +61,76 @@ pub fn parse(code: &str) -> Flowchart {
             continue;
         }
 
-        // Parse connections: A --> B, A --> B[Label], A[Text] --> B[Text]
-        if let Some((from_part, rest)) = split_connection(line) {
-            let (arrow_type, to_part) = parse_arrow_and_rest(&rest);
-
-            // Parse from node
-            let (from_id, from_node) = parse_node_def(&from_part);
-            if let Some(node) = from_node {
-                nodes.entry(from_id.clone()).or_insert(node);
+        // Parse a node or a chain of connections: A, A --> B, A[Text] --> B[Text] --> C
+        let mut rest = line.to_string();
+        let mut incoming: Option<(String, ArrowStyle, Option<String>)> = None;
+        loop {
+            let connection = split_connection(&rest);
+            let node_part = connection.as_ref().map_or(rest.as_str(), |(from, _)| from);
+            let (id, node) = parse_node_def(node_part);
+            if let Some(node) = node {
+                add_node(&mut nodes, node);
                 if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&from_id) {
-                        sg.nodes.push(from_id.clone());
+                    if !sg.nodes.contains(&id) {
+                        sg.nodes.push(id.clone());
                     }
                 }
             }
 
-            // Parse to node (may have label on arrow)
-            let (to_part_clean, arrow_label) = extract_arrow_label(&to_part);
-            let (to_id, to_node) = parse_node_def(&to_part_clean);
-            if let Some(node) = to_node {
-                nodes.entry(to_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&to_id) {
-                        sg.nodes.push(to_id.clone());
-                    }
-                }
+            if let Some((from, arrow_type, label)) = incoming.take() {
+                connections.push(FlowConnection {
+                    from,
+                    to: id.clone(),
+                    label,
+                    arrow_type,
+                });
             }
 
-            connections.push(FlowConnection {
-                from: from_id,
-                to: to_id,
-                label: arrow_label,
-                arrow_type,
-            });
-        } else {
-            // Standalone node definition
-            let (id, node) = parse_node_def(line);
-            if let Some(n) = node {
-                nodes.entry(id.clone()).or_insert(n);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&id) {
-                        sg.nodes.push(id);
-                    }
-                }
-            }
+            // The rest of the line starts at the arrow, which may have a label
+            let Some((_, arrow_and_rest)) = connection else { break };
+            let (arrow_type, to_part) = parse_arrow_and_rest(&arrow_and_rest);
+            let (to_part, label) = extract_arrow_label(&to_part);
+            incoming = Some((id, arrow_type, label));
+            rest = to_part;
         }
     }
 
     Flowchart {
         direction,
-        nodes: nodes.into_values().collect(),
+        nodes,
         connections,
         subgraphs,
     }
 }
 
-/// Split line at connection arrow
+/// Add a node, or give a node that was only named so far its label and shape
+fn add_node(nodes: &mut Vec<FlowNode>, node: FlowNode) {
+    match nodes.iter_mut().find(|n| n.id == node.id) {
+        Some(known) if known.label == known.id && known.shape == NodeShape::Rectangle => *known = node,
+        Some(_) => {}
+        None => nodes.push(node),
+    }
+}
+
+/// Split line at the first connection arrow outside of node texts
 fn split_connection(line: &str) -> Option<(String, String)> {
-    for arrow in ["==>", "-.->", "-->", "---", "->"] {
-        if let Some(pos) = line.find(arrow) {
-            let from = line[..pos].trim().to_string();
-            let rest = line[pos..].to_string();
-            return Some((from, rest));
+    let mut pos = 0;
+    while let Some(c) = line[pos..].chars().next() {
+        let rest = &line[pos..];
+        if ["==>", "-.->", "-->", "---", "->"].iter().any(|arrow| rest.starts_with(arrow)) {
+            return Some((line[..pos].trim().to_string(), rest.to_string()));
         }
+        pos += c.len_utf8();
+        // Skip the text of a node
+        let close = match c {
+            '[' => "]",
+            '(' => ")",
+            '{' => "}",
+            _ => continue,
+        };
+        let text = &line[pos..];
+        let quote_end = text.strip_prefix('"').and_then(|quoted| quoted.find('"')).map_or(0, |end| end + 1);
+        pos += text[quote_end..].find(close).map_or(0, |end| quote_end + end);
     }
     None
 }
@@ -146,7 +154,7 @@ fn parse_arrow_and_rest(s: &str) -> (ArrowStyle, String) {
 
 /// Extract arrow label like |text|
 fn extract_arrow_label(s: &str) -> (String, Option<String>) {
-    if let Some(start) = s.find('|') {
+    if let Some(start) = s.starts_with('|').then_some(0) {
         if let Some(end) = s[start + 1..].find('|') {
             let label = s[start + 1..start + 1 + end].to_string();
             let rest = s[start + 2 + end..].trim().to_string();
@@ -160,19 +168,26 @@ fn extract_arrow_label(s: &str) -> (String, Option<String>) {
 fn parse_node_def(s: &str) -> (String, Option<FlowNode>) {
     let s = s.trim();
 
-    // Try different bracket types
-    for (open, close, shape) in [
+    // Try different bracket types, starting with the one that opens first
+    let mut brackets = [
+
         ("((", "))", NodeShape::Circle),
         ("([", "])", NodeShape::Stadium),
         ("{{", "}}", NodeShape::Hexagon),
         ("[", "]", NodeShape::Rectangle),
         ("(", ")", NodeShape::RoundedRect),
         ("{", "}", NodeShape::Diamond),
-    ] {
+    ];
+    brackets.sort_by_key(|(open, _, _)| s.find(open).unwrap_or(usize::MAX));
+    for (open, close, shape) in brackets {
         if let Some(start) = s.find(open) {
             let id = s[..start].trim().to_string();
-            if let Some(end) = s[start + open.len()..].find(close) {
+            if let Some(end) = s[start + open.len()..].rfind(close) {
                 let label = s[start + open.len()..start + open.len() + end].to_string();
+                let label = label
+                    .strip_prefix('"')
+                    .and_then(|l| l.strip_suffix('"'))
+                    .map_or(label.clone(), str::to_string);
                 return (id.clone(), Some(FlowNode { id, label, shape }));
             }
         }
-- 
2.43.0


From 62a5787795a72e75bb4d95a12c791183966b6812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:45 +0000
Subject: [PATCH 093/140] fix: keep the entities of Mermaid ER diagrams whole
 and in order

---
 src/cli/markdown/mermaid/er_diagram.rs | 73 ++++++++++++--------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/cli/markdown/mermaid/er_diagram.rs b/src/cli/markdown/mermaid/er_diagram.rs
index ef1ab15..5b58d58 100644
--- a/src/cli/markdown/mermaid/er_diagram.rs
+++ b/src/cli/markdown/mermaid/er_diagram.rs
@@ -7,12 +7,33 @@ use crate::generator::connectors::{
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+fn add_entity(entities: &mut Vec<(String, Vec<String>)>, name: &str) {
+    if !entities.iter().any(|(known, _)| known == name) {
+        entities.push((name.to_string(), Vec::new()));
+    }
+}
+
+/// Parse a relationship like `CUSTOMER ||--o{ ORDER : places`
+fn parse_relationship(line: &str) -> Option<(String, String, String)> {
+    let (rel_part, label) = line.split_once(':').unwrap_or((line, ""));
+    let (left, right) = rel_part.split_once("--").or_else(|| rel_part.split_once(".."))?;
+    let e1 = ["|o", "||", "}o", "}|"].iter().find_map(|m| left.strip_suffix(m))?.trim();
+    let e2 = ["o|", "||", "o{", "|{"].iter().find_map(|m| right.strip_prefix(m))?.trim();
+    if e1.is_empty() || e2.is_empty() {
+        return None;
+    }
+    // Remove quotes if present
+    let label = label.trim().trim_matches('"').trim_matches('\'');
+    Some((e1.to_string(), e2.to_string(), label.to_string()))
+}
+
 /// Generate shapes and connectors for an ER diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut entities: HashMap<String, Vec<String>> = HashMap::new();
+    // Entities in the order in which they appear, with their attributes
+    let mut entities: Vec<(String, Vec<String>)> = Vec::new();
     let mut relationships: Vec<(String, String, String)> = Vec::new();
     let mut current_entity = String::new();
 
@@ -22,47 +43,21 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             continue;
         }
 
-        if line.contains("||") || line.contains("}|") || line.contains("|{") || line.contains("o{")
-        {
-            // Extract relationship label after colon
-            let (rel_part, label) = if let Some(colon_pos) = line.find(':') {
-                let label_part = line[colon_pos + 1..].trim();
-                // Remove quotes if present
-                let label = label_part.trim_matches('"').trim_matches('\'').to_string();
-                (&line[..colon_pos], label)
-            } else {
-                (line, String::new())
-            };
-
-            let parts: Vec<&str> = rel_part
-                .split(|c: char| c == '|' || c == '{' || c == '}' || c == 'o' || c == '-')
-                .collect();
-            let parts: Vec<&str> = parts
-                .into_iter()
-                .filter(|s| !s.is_empty() && s.chars().any(|c| c.is_alphabetic()))
-                .collect();
-            if parts.len() >= 2 {
-                let e1 = parts[0].trim().to_string();
-                let e2 = parts[parts.len() - 1].trim().to_string();
-                if !entities.contains_key(&e1) {
-                    entities.insert(e1.clone(), Vec::new());
-                }
-                if !entities.contains_key(&e2) {
-                    entities.insert(e2.clone(), Vec::new());
-                }
-                relationships.push((e1, e2, label));
-            }
-        } else if line.contains('{') {
-            current_entity = line.split('{').next().unwrap_or("").trim().to_string();
-            if !entities.contains_key(&current_entity) {
-                entities.insert(current_entity.clone(), Vec::new());
-            }
-        } else if line == "}" {
+        if line == "}" {
             current_entity.clear();
-        } else if !current_entity.is_empty() && !line.is_empty() {
-            if let Some(attrs) = entities.get_mut(&current_entity) {
+        } else if !current_entity.is_empty() {
+            if let Some((_, attrs)) = entities.iter_mut().find(|(name, _)| *name == current_entity) {
                 attrs.push(line.to_string());
             }
+        } else if let Some((e1, e2, label)) = parse_relationship(line) {
+            add_entity(&mut entities, &e1);
+            add_entity(&mut entities, &e2);
+            relationships.push((e1, e2, label));
+        } else if let Some((name, rest)) = line.split_once('{') {
+            add_entity(&mut entities, name.trim());
+            if !rest.contains('}') {
+                current_entity = name.trim().to_string();
+            }
         }
     }
 
-- 
2.43.0


From 59a96b85822dbdbd5c38c6bc69ab4cdea3bde7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:24 +0000
Subject: [PATCH 094/140] fix: place the nodes of Mermaid mind maps apart and
 by their indentation

---
 src/cli/markdown/mermaid/mindmap.rs | 51 ++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/cli/markdown/mermaid/mindmap.rs b/src/cli/markdown/mermaid/mindmap.rs
index ab2bf65..5af5405 100644
--- a/src/cli/markdown/mermaid/mindmap.rs
+++ b/src/cli/markdown/mermaid/mindmap.rs
@@ -3,6 +3,17 @@
 use super::types::{create_labeled_shape, LabelPosition};
 use crate::generator::{Shape, ShapeType};
 
+/// Text of a node like `text`, `(text)` or `id((text))`
+fn node_text(node: &str) -> String {
+    for (open, close) in [("((", "))"), ("{{", "}}"), ("))", "(("), ("[", "]"), ("(", ")"), (")", "(")] {
+        if let (Some(start), true) = (node.find(open), node.ends_with(close))
+            && start + open.len() + close.len() <= node.len() {
+                return node[start + open.len()..node.len() - close.len()].trim().to_string();
+            }
+    }
+    node.to_string()
+}
+
 /// Generate shapes for a mindmap
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
@@ -10,6 +21,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut root = String::new();
     let mut level1: Vec<String> = Vec::new();
     let mut level2: Vec<(usize, String)> = Vec::new();
+    // Indentation of the current node and its ancestors
+    let mut ancestors: Vec<usize> = Vec::new();
 
     for line in code.lines().skip(1) {
         let trimmed = line.trim();
@@ -18,21 +31,19 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         }
 
         let spaces = line.len() - line.trim_start().len();
-        let text = trimmed
-            .trim_start_matches(|c| c == '-' || c == '+' || c == '*')
-            .trim()
-            .trim_matches(|c| c == '(' || c == ')' || c == '[' || c == ']')
-            .to_string();
+        let text = node_text(trimmed.trim_start_matches(|c| c == '-' || c == '+' || c == '*').trim());
 
         if text.is_empty() {
             continue;
         }
 
-        if spaces == 0 || (root.is_empty() && spaces <= 4) {
-            if root.is_empty() {
-                root = text;
-            }
-        } else if spaces <= 8 {
+        ancestors.retain(|indent| *indent < spaces);
+        let depth = ancestors.len();
+        ancestors.push(spaces);
+
+        if root.is_empty() {
+            root = text;
+        } else if depth <= 1 || level1.is_empty() {
             level1.push(text);
         } else {
             let parent_idx = level1.len().saturating_sub(1);
@@ -63,6 +74,13 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         LabelPosition::Inside,
     ));
 
+    // Top left corner of a node at an angle from the center
+    let around = |radius: u32, angle: f64| {
+        let x = (center_x - node_width / 2) as f64 + radius as f64 * angle.cos();
+        let y = (center_y - node_height / 2) as f64 + radius as f64 * angle.sin();
+        (x.max(0.0) as u32, y.max(0.0) as u32)
+    };
+
     // Level 1 nodes (arranged in circle)
     let level1_colors = ["4472C4", "ED7D31", "70AD47", "FFC000", "5B9BD5", "9E480E"];
     let angle_step = if level1.is_empty() {
@@ -73,8 +91,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     for (i, text) in level1.iter().enumerate() {
         let angle = (i as f64) * angle_step - std::f64::consts::PI / 2.0;
-        let x = center_x + (radius1 as f64 * angle.cos()) as u32 - node_width / 2;
-        let y = center_y + (radius1 as f64 * angle.sin()) as u32 - node_height / 2;
+        let (x, y) = around(radius1, angle);
 
         let color = level1_colors[i % level1_colors.len()];
         shapes.extend(create_labeled_shape(
@@ -90,12 +107,14 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         ));
     }
 
-    // Level 2 nodes
-    for (parent_idx, text) in &level2 {
+    // Level 2 nodes (spread around the angle of their parent)
+    for (i, (parent_idx, text)) in level2.iter().enumerate() {
         if *parent_idx < level1.len() {
             let parent_angle = (*parent_idx as f64) * angle_step - std::f64::consts::PI / 2.0;
-            let x = center_x + (radius2 as f64 * parent_angle.cos()) as u32 - node_width / 2;
-            let y = center_y + (radius2 as f64 * parent_angle.sin()) as u32 - node_height / 2;
+            let siblings = level2.iter().filter(|(parent, _)| parent == parent_idx).count();
+            let position = level2[..i].iter().filter(|(parent, _)| parent == parent_idx).count();
+            let spread = (position as f64 + 0.5) / siblings as f64 - 0.5;
+            let (x, y) = around(radius2, parent_angle + 0.8 * angle_step * spread);
 
             shapes.extend(create_labeled_shape(
                 ShapeType::RoundedRectangle,
-- 
2.43.0


From dc38af0d370bdb58e3e5a33d3d5138375ff401da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:04 +0000
Subject: [PATCH 095/140] fix: keep all texts of Mermaid sequence, pie,
 timeline, gantt, journey and quadrant diagrams

---
 src/cli/markdown/mermaid/gantt.rs    | 17 +++++++------
 src/cli/markdown/mermaid/journey.rs  | 16 ++++++------
 src/cli/markdown/mermaid/pie.rs      |  2 +-
 src/cli/markdown/mermaid/quadrant.rs | 37 +++++++++++++++++++---------
 src/cli/markdown/mermaid/sequence.rs | 12 +++++----
 src/cli/markdown/mermaid/timeline.rs | 18 +++++++-------
 6 files changed, 61 insertions(+), 41 deletions(-)

diff --git a/src/cli/markdown/mermaid/gantt.rs b/src/cli/markdown/mermaid/gantt.rs
index d37e14d..0014fc5 100644
--- a/src/cli/markdown/mermaid/gantt.rs
+++ b/src/cli/markdown/mermaid/gantt.rs
@@ -19,7 +19,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         if line.starts_with("title") {
             title = line.strip_prefix("title").unwrap_or("").trim().to_string();
         } else if line.starts_with("section") {
-            if !current_section.is_empty() {
+            if !current_section.is_empty() || !current_tasks.is_empty() {
                 sections.push((current_section.clone(), current_tasks.clone()));
                 current_tasks.clear();
             }
@@ -39,7 +39,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         }
     }
 
-    if !current_section.is_empty() {
+    if !current_section.is_empty() || !current_tasks.is_empty() {
         sections.push((current_section, current_tasks));
     }
 
@@ -62,11 +62,14 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let colors = ["4472C4", "ED7D31", "70AD47", "FFC000", "5B9BD5"];
 
     for (section_idx, (section_name, tasks)) in sections.iter().enumerate() {
-        let section_shape = Shape::new(ShapeType::Rectangle, start_x, y, 7_000_000, section_height)
-            .with_fill(ShapeFill::new("E0E0E0"))
-            .with_text(section_name);
-        shapes.push(section_shape);
-        y += section_height + 50_000;
+        // Tasks before the first section have no section header
+        if !section_name.is_empty() {
+            let section_shape = Shape::new(ShapeType::Rectangle, start_x, y, 7_000_000, section_height)
+                .with_fill(ShapeFill::new("E0E0E0"))
+                .with_text(section_name);
+            shapes.push(section_shape);
+            y += section_height + 50_000;
+        }
 
         for (task_idx, (task_name, duration)) in tasks.iter().enumerate() {
             let label_shape =
diff --git a/src/cli/markdown/mermaid/journey.rs b/src/cli/markdown/mermaid/journey.rs
index 90687f5..410f2b6 100644
--- a/src/cli/markdown/mermaid/journey.rs
+++ b/src/cli/markdown/mermaid/journey.rs
@@ -17,7 +17,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
         if trimmed.starts_with("section") {
             // Save previous section
-            if !current_section.is_empty() {
+            if !current_section.is_empty() || !current_items.is_empty() {
                 sections.push((current_section.clone(), current_items.clone()));
                 current_items.clear();
             }
@@ -38,7 +38,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Save last section
-    if !current_section.is_empty() {
+    if !current_section.is_empty() || !current_items.is_empty() {
         sections.push((current_section, current_items));
     }
 
@@ -53,11 +53,13 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
     for (section_name, items) in &sections {
         // Section header
-        shapes.push(
-            Shape::new(ShapeType::Rectangle, x, start_y, section_width, 350_000)
-                .with_fill(ShapeFill::new("7B1FA2"))
-                .with_text(section_name),
-        );
+        if !section_name.is_empty() {
+            shapes.push(
+                Shape::new(ShapeType::Rectangle, x, start_y, section_width, 350_000)
+                    .with_fill(ShapeFill::new("7B1FA2"))
+                    .with_text(section_name),
+            );
+        }
 
         // Items in section
         let mut y = start_y + 400_000;
diff --git a/src/cli/markdown/mermaid/pie.rs b/src/cli/markdown/mermaid/pie.rs
index 6d6d186..90527af 100644
--- a/src/cli/markdown/mermaid/pie.rs
+++ b/src/cli/markdown/mermaid/pie.rs
@@ -9,7 +9,7 @@ pub fn parse(code: &str) -> Vec<(String, f64)> {
     for line in code.lines().skip(1) {
         let line = line.trim();
         if line.contains(':') && !line.starts_with("title") {
-            if let Some((label, value)) = line.split_once(':') {
+            if let Some((label, value)) = line.rsplit_once(':') {
                 let label = label.trim().trim_matches('"').to_string();
                 if let Ok(val) = value.trim().parse::<f64>() {
                     slices.push((label, val));
diff --git a/src/cli/markdown/mermaid/quadrant.rs b/src/cli/markdown/mermaid/quadrant.rs
index 79ff1d4..4f9e08c 100644
--- a/src/cli/markdown/mermaid/quadrant.rs
+++ b/src/cli/markdown/mermaid/quadrant.rs
@@ -7,8 +7,8 @@ use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let mut shapes = Vec::new();
     let mut points: Vec<(String, f32, f32)> = Vec::new();
-    let mut _x_axis = ("Low", "High");
-    let mut _y_axis = ("Low", "High");
+    let mut x_axis = ("", "");
+    let mut y_axis = ("", "");
     let mut quadrant_labels = ["", "", "", ""];
 
     for line in code.lines().skip(1) {
@@ -19,17 +19,13 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
         if trimmed.starts_with("x-axis") {
             // Parse: x-axis Low Effort --> High Effort
-            let parts: Vec<&str> = trimmed.split("-->").collect();
-            if parts.len() == 2 {
-                _x_axis.0 = parts[0].strip_prefix("x-axis").unwrap_or("").trim();
-                _x_axis.1 = parts[1].trim();
-            }
+            let axis = trimmed.strip_prefix("x-axis").unwrap_or("");
+            let (low, high) = axis.split_once("-->").unwrap_or((axis, ""));
+            x_axis = (low.trim(), high.trim());
         } else if trimmed.starts_with("y-axis") {
-            let parts: Vec<&str> = trimmed.split("-->").collect();
-            if parts.len() == 2 {
-                _y_axis.0 = parts[0].strip_prefix("y-axis").unwrap_or("").trim();
-                _y_axis.1 = parts[1].trim();
-            }
+            let axis = trimmed.strip_prefix("y-axis").unwrap_or("");
+            let (low, high) = axis.split_once("-->").unwrap_or((axis, ""));
+            y_axis = (low.trim(), high.trim());
         } else if trimmed.starts_with("quadrant-") {
             // Parse quadrant labels
             if let Some(rest) = trimmed.strip_prefix("quadrant-1") {
@@ -115,6 +111,23 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         .with_line(ShapeLine::new("9E9E9E", 12700)),
     );
 
+    // Label the quadrants and the axes
+    for (label, x, y) in [
+        (quadrant_labels[0], chart_x + half_w, chart_y),
+        (quadrant_labels[1], chart_x, chart_y),
+        (quadrant_labels[2], chart_x, chart_y + half_h),
+        (quadrant_labels[3], chart_x + half_w, chart_y + half_h),
+        (x_axis.0, chart_x, chart_y + chart_height),
+        (x_axis.1, chart_x + half_w, chart_y + chart_height),
+        (y_axis.0, 0, chart_y + half_h),
+        (y_axis.1, 0, chart_y),
+    ] {
+        if !label.is_empty() {
+            let width = if x == 0 { chart_x } else { half_w };
+            shapes.push(Shape::new(ShapeType::Rectangle, x, y, width, 300_000).with_text(label));
+        }
+    }
+
     // Draw points with separate labels using helper
     let point_size = 300_000u32;
     for (label, x, y) in &points {
diff --git a/src/cli/markdown/mermaid/sequence.rs b/src/cli/markdown/mermaid/sequence.rs
index a43a5db..f06a846 100644
--- a/src/cli/markdown/mermaid/sequence.rs
+++ b/src/cli/markdown/mermaid/sequence.rs
@@ -28,12 +28,14 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             }
         }
         // Parse message
-        else if line.contains("->>") || line.contains("-->>") {
-            let arrow = if line.contains("-->>") { "-->>" } else { "->>" };
-            if let Some((from_part, rest)) = line.split_once(arrow) {
-                if let Some((to_part, msg)) = rest.split_once(':') {
+        else if let Some((ends, msg)) = line.split_once(':') {
+            // The first arrow separates the participants, "->" is part of the others
+            let arrow = ["-->>", "->>", "-->", "->"].into_iter().find(|a| ends.contains(a));
+            if let Some(arrow) = arrow {
+                if let Some((from_part, to_part)) = ends.split_once(arrow) {
                     let from = from_part.trim().to_string();
-                    let to = to_part.trim().to_string();
+                    // Activation marks are not part of the name
+                    let to = to_part.trim().trim_start_matches(['+', '-']).trim().to_string();
                     let text = msg.trim().to_string();
 
                     if !participant_ids.contains(&from) {
diff --git a/src/cli/markdown/mermaid/timeline.rs b/src/cli/markdown/mermaid/timeline.rs
index 13f8242..0b292b6 100644
--- a/src/cli/markdown/mermaid/timeline.rs
+++ b/src/cli/markdown/mermaid/timeline.rs
@@ -19,16 +19,16 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
         if line.starts_with("title") {
             title = line.strip_prefix("title").unwrap_or("").trim().to_string();
-        } else if line.contains(':') {
-            if !current_date.is_empty() {
-                events.push((current_date.clone(), current_items.clone()));
-                current_items.clear();
-            }
-            let (date, item) = line.split_once(':').unwrap();
-            current_date = date.trim().to_string();
-            if !item.trim().is_empty() {
-                current_items.push(item.trim().to_string());
+        } else if let Some((date, items)) = line.split_once(':') {
+            // A line without a date continues the events of the last one
+            if !date.trim().is_empty() {
+                if !current_date.is_empty() {
+                    events.push((current_date.clone(), current_items.clone()));
+                    current_items.clear();
+                }
+                current_date = date.trim().to_string();
             }
+            current_items.extend(items.split(':').map(str::trim).filter(|i| !i.is_empty()).map(str::to_string));
         } else if !current_date.is_empty() {
             current_items.push(line.to_string());
         }
-- 
2.43.0


From f21d7b1f5d39b11cd76ef715052b25a86b8b2dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:44 +0000
Subject: [PATCH 096/140] fix: keep all classes, states and commits of Mermaid
 diagrams

---
 src/cli/markdown/mermaid/class_diagram.rs | 74 ++++++++++++++---------
 src/cli/markdown/mermaid/gitgraph.rs      | 11 +++-
 src/cli/markdown/mermaid/state_diagram.rs | 26 +++++++-
 3 files changed, 79 insertions(+), 32 deletions(-)

diff --git a/src/cli/markdown/mermaid/class_diagram.rs b/src/cli/markdown/mermaid/class_diagram.rs
index b5335bc..6f267d7 100644
--- a/src/cli/markdown/mermaid/class_diagram.rs
+++ b/src/cli/markdown/mermaid/class_diagram.rs
@@ -7,17 +7,43 @@ use crate::generator::connectors::{
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// Name, attributes and methods
+type Class = (String, Vec<String>, Vec<String>);
+
+/// The class of a name, which is added if it is not known yet
+fn class_entry<'a>(classes: &'a mut Vec<Class>, name: &str) -> &'a mut Class {
+    let index = match classes.iter().position(|(known, _, _)| known == name) {
+        Some(index) => index,
+        None => {
+            classes.push((name.to_string(), Vec::new(), Vec::new()));
+            classes.len() - 1
+        }
+    };
+    &mut classes[index]
+}
+
+/// Parse the ends of a relationship like `Animal <|-- Duck`, `Car *-- "4" Wheel : has` or `A..>B`
+fn parse_relationship(line: &str) -> Option<(String, String)> {
+    let rel_part = line.split(':').next().unwrap_or("");
+    let (left, right) = rel_part.split_once("--").or_else(|| rel_part.split_once(".."))?;
+    let left = left.trim_end_matches(" o").trim_end_matches(['<', '|', '>', '*']);
+    let right = right.strip_prefix("o ").unwrap_or(right).trim_start_matches(['<', '|', '>', '*']);
+    let from = left.split_whitespace().next()?;
+    let to = right.split_whitespace().next_back()?;
+    Some((from.to_string(), to.to_string()))
+}
+
 /// Generate shapes and connectors for a class diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut classes: Vec<(String, Vec<String>, Vec<String>)> = Vec::new();
+    let mut classes: Vec<Class> = Vec::new();
     let mut current_class = String::new();
     let mut current_attrs: Vec<String> = Vec::new();
     let mut current_methods: Vec<String> = Vec::new();
     let mut in_class = false;
-    let mut relationships: Vec<(String, String, String)> = Vec::new();
+    let mut relationships: Vec<(String, String)> = Vec::new();
 
     for line in code.lines().skip(1) {
         let line = line.trim();
@@ -25,7 +51,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             continue;
         }
 
-        if line.starts_with("class ") && line.contains('{') {
+        if line.starts_with("class ") && line.contains('{') && !line.ends_with('}') {
             current_class = line
                 .strip_prefix("class ")
                 .unwrap_or("")
@@ -38,11 +64,9 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             current_attrs.clear();
             current_methods.clear();
         } else if line == "}" && in_class {
-            classes.push((
-                current_class.clone(),
-                current_attrs.clone(),
-                current_methods.clone(),
-            ));
+            let (_, attrs, methods) = class_entry(&mut classes, &current_class);
+            attrs.append(&mut current_attrs);
+            methods.append(&mut current_methods);
             in_class = false;
         } else if in_class {
             if line.contains('(') {
@@ -50,25 +74,19 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             } else if !line.is_empty() {
                 current_attrs.push(line.to_string());
             }
-        } else if line.contains("<|--") || line.contains("-->") || line.contains("--") {
-            let rel_type = if line.contains("<|--") {
-                "extends"
-            } else if line.contains("-->") {
-                "uses"
-            } else {
-                "associates"
-            };
-
-            let parts: Vec<&str> = line
-                .split(|c| c == '<' || c == '|' || c == '-' || c == '>')
-                .collect();
-            let parts: Vec<&str> = parts.into_iter().filter(|s| !s.is_empty()).collect();
-            if parts.len() >= 2 {
-                relationships.push((
-                    parts[0].trim().to_string(),
-                    parts[parts.len() - 1].trim().to_string(),
-                    rel_type.to_string(),
-                ));
+        } else if let Some((from, to)) = parse_relationship(line) {
+            class_entry(&mut classes, &from);
+            class_entry(&mut classes, &to);
+            relationships.push((from, to));
+        } else if let Some(name) = line.strip_prefix("class ") {
+            class_entry(&mut classes, name.split('{').next().unwrap_or("").trim());
+        } else if let Some((name, member)) = line.split_once(':') {
+            // A member on its own: `Animal : +eat()`
+            let name = name.trim();
+            if !name.is_empty() && name.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                let (_, attrs, methods) = class_entry(&mut classes, name);
+                let members = if member.contains('(') { methods } else { attrs };
+                members.push(member.trim().to_string());
             }
         }
     }
@@ -144,7 +162,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
     }
 
     // Create connectors with shape anchoring
-    for (from, to, _rel_type) in &relationships {
+    for (from, to) in &relationships {
         if let (Some(&(from_x, from_y)), Some(&(to_x, to_y))) =
             (class_positions.get(from), class_positions.get(to))
         {
diff --git a/src/cli/markdown/mermaid/gitgraph.rs b/src/cli/markdown/mermaid/gitgraph.rs
index bf4ba66..70666d5 100644
--- a/src/cli/markdown/mermaid/gitgraph.rs
+++ b/src/cli/markdown/mermaid/gitgraph.rs
@@ -22,7 +22,12 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             let id = if trimmed.contains("id:") {
                 let parts: Vec<&str> = trimmed.split("id:").collect();
                 if parts.len() > 1 {
-                    parts[1].trim().trim_matches('"').to_string()
+                    // Other attributes like a tag may follow the quoted id
+                    let id = parts[1].trim();
+                    match id.strip_prefix('"').and_then(|quoted| quoted.split_once('"')) {
+                        Some((id, _)) => id.to_string(),
+                        None => id.trim_matches('"').to_string(),
+                    }
                 } else {
                     format!("C{}", commit_count)
                 }
@@ -37,8 +42,10 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
                 .unwrap_or("")
                 .trim()
                 .to_string();
+            // A new branch is also the one that following commits belong to
             if !branch_name.is_empty() && !branches.contains(&branch_name) {
-                branches.push(branch_name);
+                branches.push(branch_name.clone());
+                current_branch = branch_name;
             }
         } else if trimmed.starts_with("checkout") {
             let branch_name = trimmed
diff --git a/src/cli/markdown/mermaid/state_diagram.rs b/src/cli/markdown/mermaid/state_diagram.rs
index 5c97e79..615ac9c 100644
--- a/src/cli/markdown/mermaid/state_diagram.rs
+++ b/src/cli/markdown/mermaid/state_diagram.rs
@@ -7,12 +7,27 @@ use crate::generator::connectors::{
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// Parse a state like `Name`, `Name : description` or `state "description" as Name`
+fn parse_state(line: &str) -> Option<(String, String)> {
+    let (state, description) = match line.strip_prefix("state \"").and_then(|rest| rest.split_once("\" as ")) {
+        Some((description, state)) => (state, description),
+        None => {
+            let rest = line.strip_prefix("state ").unwrap_or(line);
+            rest.split_once(':').unwrap_or((rest, ""))
+        }
+    };
+    let state = state.trim();
+    let is_name = !state.is_empty() && state.chars().all(|c| c.is_alphanumeric() || c == '_');
+    is_name.then(|| (state.to_string(), description.trim().to_string()))
+}
+
 /// Generate shapes and connectors for a state diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
     let mut states: Vec<String> = Vec::new();
+    let mut descriptions: HashMap<String, String> = HashMap::new();
     let mut transitions: Vec<(String, String, String)> = Vec::new();
 
     for line in code.lines().skip(1) {
@@ -22,7 +37,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
         }
 
         if line.contains("-->") {
-            let parts: Vec<&str> = line.split("-->").collect();
+            let parts: Vec<&str> = line.splitn(2, "-->").collect();
             if parts.len() >= 2 {
                 let from = parts[0].trim().to_string();
                 let (to, label) = if let Some((t, l)) = parts[1].split_once(':') {
@@ -47,6 +62,13 @@ pub fn generate_elements(code: &str) -> DiagramElements {
 
                 transitions.push((from_state, to_state, label));
             }
+        } else if let Some((state, description)) = parse_state(line) {
+            if !states.contains(&state) {
+                states.push(state.clone());
+            }
+            if !description.is_empty() {
+                descriptions.insert(state, description);
+            }
         }
     }
 
@@ -86,7 +108,7 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             .with_id(shape_id)
             .with_fill(ShapeFill::new(fill_color))
             .with_line(ShapeLine::new("00838F", 2))
-            .with_text(state);
+            .with_text(descriptions.get(state).unwrap_or(state));
         shapes.push(shape);
         shape_id += 1;
     }
-- 
2.43.0


From 137a7bcf722b8c8e5088440713662ce7f9c1875e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:57 +0000
Subject: [PATCH 097/140] fix: keep the shape ids of several Mermaid diagrams
 on a slide apart

---
 src/cli/markdown/mermaid/mod.rs | 12 ++++++++++-
 src/cli/markdown/parser.rs      | 36 ++++++++++++++++++---------------
 2 files changed, 31 insertions(+), 17 deletions(-)

diff --git a/src/cli/markdown/mermaid/mod.rs b/src/cli/markdown/mermaid/mod.rs
index 5a6ec4b..96cb4c4 100644
--- a/src/cli/markdown/mermaid/mod.rs
+++ b/src/cli/markdown/mermaid/mod.rs
@@ -34,9 +34,18 @@ pub use types::*;
 
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
+/// The code from the line that declares the diagram type, without comments before it
+fn skip_preamble(code: &str) -> &str {
+    let mut rest = code.trim_start();
+    while rest.starts_with("%%") {
+        rest = rest.split_once('\n').map_or("", |(_, rest)| rest.trim_start());
+    }
+    rest
+}
+
 /// Detect the type of Mermaid diagram from code
 pub fn detect_type(code: &str) -> MermaidType {
-    let first_line = code.lines().next().unwrap_or("").trim().to_lowercase();
+    let first_line = skip_preamble(code).lines().next().unwrap_or("").trim().to_lowercase();
 
     if first_line.starts_with("graph") || first_line.starts_with("flowchart") {
         MermaidType::Flowchart
@@ -69,6 +78,7 @@ pub fn detect_type(code: &str) -> MermaidType {
 
 /// Create shapes and connectors for a Mermaid diagram (main entry point)
 pub fn create_diagram_elements(code: &str) -> DiagramElements {
+    let code = skip_preamble(code);
     let diagram_type = detect_type(code);
 
     match diagram_type {
diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 8da2034..d4db429 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -462,22 +462,26 @@ impl MarkdownParser {
             })
             .collect();
 
-        if let Some(ref mut slide) = self.current_slide {
-            for shape in shapes {
-                slide.shapes.push(shape);
-            }
-            for connector in connectors {
-                slide.connectors.push(connector);
-            }
-        } else {
-            let mut slide = SlideContent::new(title);
-            for shape in shapes {
-                slide.shapes.push(shape);
-            }
-            for connector in connectors {
-                slide.connectors.push(connector);
-            }
-            self.current_slide = Some(slide);
+        let slide = self
+            .current_slide
+            .get_or_insert_with(|| SlideContent::new(title));
+
+        // Every diagram counts its shapes from the same id, so that the ids have to
+        // follow those of an earlier diagram on the slide
+        let highest = slide.shapes.iter().filter_map(|shape| shape.id).max();
+        let lowest = shapes.iter().filter_map(|shape| shape.id).min();
+        let shift = match (highest, lowest) {
+            (Some(highest), Some(lowest)) => (highest + 1).saturating_sub(lowest),
+            _ => 0,
+        };
+        for mut shape in shapes {
+            shape.id = shape.id.map(|id| id + shift);
+            slide.shapes.push(shape);
+        }
+        for mut connector in connectors {
+            connector.start_shape_id = connector.start_shape_id.map(|id| id + shift);
+            connector.end_shape_id = connector.end_shape_id.map(|id| id + shift);
+            slide.connectors.push(connector);
         }
     }
 
-- 
2.43.0


From a0932a769603b80415e1b3ac8f6008c11c6b58f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:13 +0000
Subject: [PATCH 098/140] fix: do not give slide elements the id set for
 another shape

---
 src/generator/slide_xml/content.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index a65f29f..3a3b345 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -2,6 +2,7 @@
 
 use crate::generator::shapes_xml::generate_shape_xml;
 use crate::generator::slide_content::{SlideContent, SlideLayout};
+use std::collections::HashSet;
 
 /// Render additional content elements (shapes, images, code blocks, connectors, charts, ink)
 pub fn render_additional_content(
@@ -20,6 +21,16 @@ pub fn render_additional_content(
         xml.reserve(extra_elements * 512);
     }
 
+    // Ids that were set are kept; the other elements take the next free one
+    let mut used: HashSet<usize> = content.shapes.iter().filter_map(|s| s.id).map(|id| id as usize).collect();
+    let mut free_id = |wanted: usize| {
+        let mut id = wanted;
+        while !used.insert(id) {
+            id += 1;
+        }
+        id
+    };
+
     // The title-and-content layout places the table itself, in its content area
     if let Some(table) = &content.table
         && content.layout != SlideLayout::TitleAndContent {
@@ -30,7 +41,7 @@ pub fn render_additional_content(
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
     for (i, shape) in content.shapes.iter().enumerate() {
         xml.push('\n');
-        let shape_id = shape.id.unwrap_or((i + 10) as u32);
+        let shape_id = shape.id.unwrap_or_else(|| free_id(i + 10) as u32);
         xml.push_str(&generate_shape_xml(shape, shape_id));
     }
 
@@ -43,7 +54,7 @@ pub fn render_additional_content(
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
             image,
-            image_start_id + i,
+            free_id(image_start_id + i),
             rel_id,
         ));
     }
@@ -52,7 +63,7 @@ pub fn render_additional_content(
     let code_start_id = 30 + content.shapes.len() + content.images.len();
     for (i, code_block) in content.code_blocks.iter().enumerate() {
         xml.push('\n');
-        xml.push_str(&generate_code_block(code_start_id + i, code_block));
+        xml.push_str(&generate_code_block(free_id(code_start_id + i), code_block));
     }
 
     // Render connectors
@@ -60,7 +71,7 @@ pub fn render_additional_content(
         50 + content.shapes.len() + content.images.len() + content.code_blocks.len();
     for (i, connector) in content.connectors.iter().enumerate() {
         xml.push('\n');
-        let id = connector_start_id + i;
+        let id = free_id(connector_start_id + i);
         xml.push_str(&crate::generator::connectors::generate_connector_xml(
             connector, id,
         ));
@@ -79,7 +90,7 @@ pub fn render_additional_content(
             xml.push_str(&crate::generator::charts::generate_chart_ref_xml(
                 chart,
                 r_id,
-                chart_start_id + i,
+                free_id(chart_start_id + i),
             ));
         }
     }
-- 
2.43.0


From b97884ae3ea53ca6b336ea4c426b2a63fa2588e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:31 +0000
Subject: [PATCH 099/140] fix: skip comments and accept actors in Mermaid
 diagrams

---
 src/cli/markdown/mermaid/mod.rs      | 20 +++++++++++---------
 src/cli/markdown/mermaid/sequence.rs |  4 ++--
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/cli/markdown/mermaid/mod.rs b/src/cli/markdown/mermaid/mod.rs
index 96cb4c4..4275ec5 100644
--- a/src/cli/markdown/mermaid/mod.rs
+++ b/src/cli/markdown/mermaid/mod.rs
@@ -34,18 +34,20 @@ pub use types::*;
 
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
-/// The code from the line that declares the diagram type, without comments before it
-fn skip_preamble(code: &str) -> &str {
-    let mut rest = code.trim_start();
-    while rest.starts_with("%%") {
-        rest = rest.split_once('\n').map_or("", |(_, rest)| rest.trim_start());
-    }
-    rest
+/// The code from the line that declares the diagram type, without comments
+fn without_comments(code: &str) -> String {
+    let lines: Vec<&str> = code
+        .lines()
+        .filter(|line| !line.trim_start().starts_with("%%"))
+        .skip_while(|line| line.trim().is_empty())
+        .collect();
+    lines.join("\n")
 }
 
 /// Detect the type of Mermaid diagram from code
 pub fn detect_type(code: &str) -> MermaidType {
-    let first_line = skip_preamble(code).lines().next().unwrap_or("").trim().to_lowercase();
+    let code = without_comments(code);
+    let first_line = code.lines().next().unwrap_or("").trim().to_lowercase();
 
     if first_line.starts_with("graph") || first_line.starts_with("flowchart") {
         MermaidType::Flowchart
@@ -78,7 +80,7 @@ pub fn detect_type(code: &str) -> MermaidType {
 
 /// Create shapes and connectors for a Mermaid diagram (main entry point)
 pub fn create_diagram_elements(code: &str) -> DiagramElements {
-    let code = skip_preamble(code);
+    let code = &without_comments(code);
     let diagram_type = detect_type(code);
 
     match diagram_type {
diff --git a/src/cli/markdown/mermaid/sequence.rs b/src/cli/markdown/mermaid/sequence.rs
index f06a846..82ef392 100644
--- a/src/cli/markdown/mermaid/sequence.rs
+++ b/src/cli/markdown/mermaid/sequence.rs
@@ -14,8 +14,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         let line = line.trim();
 
         // Parse participant
-        if line.starts_with("participant") {
-            let rest = line.strip_prefix("participant").unwrap_or("").trim();
+        if let Some(rest) = line.strip_prefix("participant").or_else(|| line.strip_prefix("actor ")) {
+            let rest = rest.trim();
             let (id, display_name) = if let Some((id, alias)) = rest.split_once(" as ") {
                 (id.trim().to_string(), alias.trim().to_string())
             } else {
-- 
2.43.0


From 199b4cc4f710d572e01e1469b22360f78ce63612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:31 +0000
Subject: [PATCH 100/140] fix: drop the colon from the labels of Mermaid
 quadrant points

---
 src/cli/markdown/mermaid/quadrant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli/markdown/mermaid/quadrant.rs b/src/cli/markdown/mermaid/quadrant.rs
index 4f9e08c..f7219bc 100644
--- a/src/cli/markdown/mermaid/quadrant.rs
+++ b/src/cli/markdown/mermaid/quadrant.rs
@@ -40,7 +40,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         } else if trimmed.contains('[') && trimmed.contains(']') {
             // Parse point: "Label: [x, y]"
             if let Some(bracket_start) = trimmed.find('[') {
-                let label = trimmed[..bracket_start].trim_end_matches(':').trim();
+                let label = trimmed[..bracket_start].trim().trim_end_matches(':').trim();
                 let coords = &trimmed[bracket_start..];
                 if let Some(bracket_end) = coords.find(']') {
                     let coord_str = &coords[1..bracket_end];
-- 
2.43.0


From 5a422514e6d2dd30c3cf505f4ca5aab5e2542412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:08 +0000
Subject: [PATCH 101/140] fix: keep the points of Mermaid quadrant charts
 inside the chart

---
 src/cli/markdown/mermaid/quadrant.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cli/markdown/mermaid/quadrant.rs b/src/cli/markdown/mermaid/quadrant.rs
index f7219bc..ec9a49c 100644
--- a/src/cli/markdown/mermaid/quadrant.rs
+++ b/src/cli/markdown/mermaid/quadrant.rs
@@ -46,8 +46,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
                     let coord_str = &coords[1..bracket_end];
                     let parts: Vec<&str> = coord_str.split(',').collect();
                     if parts.len() == 2 {
-                        let x = parts[0].trim().parse::<f32>().unwrap_or(0.5);
-                        let y = parts[1].trim().parse::<f32>().unwrap_or(0.5);
+                        let x = parts[0].trim().parse::<f32>().unwrap_or(0.5).clamp(0.0, 1.0);
+                        let y = parts[1].trim().parse::<f32>().unwrap_or(0.5).clamp(0.0, 1.0);
                         points.push((label.to_string(), x, y));
                     }
                 }
-- 
2.43.0


From c9b4893fdb7dfcefd1f49d3c3123b9391582a4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:48 +0000
Subject: [PATCH 102/140] fix: keep every heading, list item, table and image
 of converted web pages, in order

---
 src/web2ppt/parser.rs | 135 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 109 insertions(+), 26 deletions(-)

diff --git a/src/web2ppt/parser.rs b/src/web2ppt/parser.rs
index e54a2fb..974d885 100644
--- a/src/web2ppt/parser.rs
+++ b/src/web2ppt/parser.rs
@@ -123,7 +123,18 @@ impl WebContent {
         self.blocks.iter().filter(|b| b.is_heading()).collect()
     }
 
-    /// Get content grouped by headings
+    /// Get the content that comes before the first heading
+    pub fn leading_blocks(&self) -> &[ContentBlock] {
+        let end = self
+            .blocks
+            .iter()
+            .position(ContentBlock::is_heading)
+            .unwrap_or(self.blocks.len());
+        &self.blocks[..end]
+    }
+
+    /// Get content grouped by headings (see `leading_blocks` for the content
+    /// that no heading precedes)
     pub fn grouped_by_headings(&self) -> Vec<(&ContentBlock, Vec<&ContentBlock>)> {
         let mut groups: Vec<(&ContentBlock, Vec<&ContentBlock>)> = Vec::new();
         let mut current_heading: Option<&ContentBlock> = None;
@@ -137,7 +148,7 @@ impl WebContent {
                     current_content = Vec::new();
                 }
                 current_heading = Some(block);
-            } else {
+            } else if current_heading.is_some() {
                 current_content.push(block);
             }
         }
@@ -193,7 +204,7 @@ impl WebParser {
         // Try <title> tag first
         if let Ok(selector) = Selector::parse("title") {
             if let Some(element) = document.select(&selector).next() {
-                let title = element.text().collect::<String>().trim().to_string();
+                let title = self.clean_text(&element);
                 if !title.is_empty() {
                     return title;
                 }
@@ -203,7 +214,7 @@ impl WebParser {
         // Try h1
         if let Ok(selector) = Selector::parse("h1") {
             if let Some(element) = document.select(&selector).next() {
-                let title = element.text().collect::<String>().trim().to_string();
+                let title = self.clean_text(&element);
                 if !title.is_empty() {
                     return title;
                 }
@@ -297,10 +308,10 @@ impl WebParser {
 
     /// Walk element tree and extract content in order
     fn walk_element(&self, element: &ElementRef, content: &mut WebContent, depth: u8) {
-        // Skip script, style, nav, footer, aside, header elements
+        // Skip scripts, styles, navigation, footers and form controls
         let tag_name = element.value().name();
-        let skip_tags = ["script", "style", "noscript", "svg", "form", "button", "input", "select", "textarea", "iframe"];
-        if skip_tags.contains(&tag_name) {
+        let skip_tags = ["nav", "footer", "form", "button", "input", "select"];
+        if skip_tags.contains(&tag_name) || Self::is_invisible(tag_name) {
             return;
         }
 
@@ -309,7 +320,15 @@ impl WebParser {
             let class_lower = class.to_lowercase();
             // Only skip if clearly navigation/ads
             let skip_classes = ["advertisement", "ad-container", "social-share", "comment-section"];
-            if skip_classes.iter().any(|c| class_lower.contains(c)) {
+            let names_skipped = |token: &str| {
+                skip_classes.iter().any(|c| {
+                    // "ad-container" must not match "thread-container"
+                    token.match_indices(c).any(|(at, _)| {
+                        !token[..at].ends_with(|p: char| p.is_alphanumeric())
+                    })
+                })
+            };
+            if class_lower.split_whitespace().any(names_skipped) {
                 return;
             }
         }
@@ -334,18 +353,21 @@ impl WebParser {
                 if text.len() >= 10 {
                     content.blocks.push(ContentBlock::new(ContentType::Paragraph, &text));
                 }
+                self.walk_nested(element, content, depth, &["img"]);
             }
             "li" => {
                 let text = self.clean_text(element);
                 if !text.is_empty() && text.len() < 500 {
                     content.blocks.push(ContentBlock::new(ContentType::ListItem, &text).with_level(depth));
                 }
+                self.walk_nested(element, content, depth, &["img", "ul", "ol"]);
             }
             "blockquote" => {
                 let text = self.clean_text(element);
                 if !text.is_empty() {
                     content.blocks.push(ContentBlock::new(ContentType::Quote, &text));
                 }
+                self.walk_nested(element, content, depth, &["img"]);
             }
             "pre" | "code" => {
                 if self.config.include_code {
@@ -397,38 +419,99 @@ impl WebParser {
         if !no_recurse_tags.contains(&tag_name) {
             for child in element.children() {
                 if let Some(child_elem) = ElementRef::wrap(child) {
-                    self.walk_element(&child_elem, content, depth + 1);
+                    self.walk_element(&child_elem, content, depth.saturating_add(1));
                 }
             }
         }
     }
 
+    /// Walk the outermost elements of the given kinds inside an element whose
+    /// own text has been extracted already
+    fn walk_nested(&self, element: &ElementRef, content: &mut WebContent, depth: u8, tags: &[&str]) {
+        for child in element.children().filter_map(ElementRef::wrap) {
+            if tags.contains(&child.value().name()) {
+                self.walk_element(&child, content, depth.saturating_add(1));
+            } else {
+                self.walk_nested(&child, content, depth.saturating_add(1), tags);
+            }
+        }
+    }
+
+    /// Elements whose content is not shown as text
+    fn is_invisible(tag_name: &str) -> bool {
+        ["script", "style", "noscript", "svg", "textarea", "iframe"].contains(&tag_name)
+    }
+
     /// Clean and normalize text
     fn clean_text(&self, element: &ElementRef) -> String {
-        let text: String = element.text().collect();
+        let mut text = String::new();
+        // The items of a nested list are items of their own
+        let skip_lists = element.value().name() == "li";
+        Self::collect_text(element, skip_lists, &mut text);
         // Normalize whitespace
-        let text = text.split_whitespace().collect::<Vec<_>>().join(" ");
-        text.trim().to_string()
+        text.split_whitespace().collect::<Vec<_>>().join(" ")
+    }
+
+    /// Collect the visible text of an element, keeping apart what line breaks
+    /// and block elements keep apart
+    fn collect_text(element: &ElementRef, skip_lists: bool, out: &mut String) {
+        const BLOCKS: [&str; 24] = [
+            "address", "article", "blockquote", "br", "dd", "div", "dl", "dt", "figcaption",
+            "figure", "h1", "h2", "h3", "h4", "h5", "h6", "hr", "li", "ol", "p", "pre", "section",
+            "td", "ul",
+        ];
+        for child in element.children() {
+            if let Some(text) = child.value().as_text() {
+                out.push_str(text);
+            } else if let Some(child) = ElementRef::wrap(child) {
+                let tag_name = child.value().name();
+                if Self::is_invisible(tag_name)
+                    || (skip_lists && (tag_name == "ul" || tag_name == "ol"))
+                {
+                    continue;
+                }
+                let block = BLOCKS.contains(&tag_name);
+                if block {
+                    out.push(' ');
+                }
+                Self::collect_text(&child, skip_lists, out);
+                if block {
+                    out.push(' ');
+                }
+            }
+        }
+    }
+
+    /// Child elements of the given kinds
+    fn children_named<'a>(element: &ElementRef<'a>, tags: &[&str]) -> Vec<ElementRef<'a>> {
+        element
+            .children()
+            .filter_map(ElementRef::wrap)
+            .filter(|child| tags.contains(&child.value().name()))
+            .collect()
     }
 
     /// Extract table content
     fn extract_table(&self, element: &ElementRef, content: &mut WebContent) {
         let mut rows: Vec<Vec<String>> = Vec::new();
 
-        if let Ok(row_selector) = Selector::parse("tr") {
-            for row in element.select(&row_selector) {
-                let mut cells: Vec<String> = Vec::new();
-
-                if let Ok(cell_selector) = Selector::parse("th, td") {
-                    for cell in row.select(&cell_selector) {
-                        let text = self.clean_text(&cell);
-                        cells.push(text);
-                    }
-                }
-
-                if !cells.is_empty() {
-                    rows.push(cells);
-                }
+        // The rows of this table, without those of tables inside its cells
+        let row_elements = element
+            .children()
+            .filter_map(ElementRef::wrap)
+            .flat_map(|child| match child.value().name() {
+                "tr" => vec![child],
+                "thead" | "tbody" | "tfoot" => Self::children_named(&child, &["tr"]),
+                _ => Vec::new(),
+            });
+        for row in row_elements {
+            let cells: Vec<String> = Self::children_named(&row, &["th", "td"])
+                .iter()
+                .map(|cell| self.clean_text(cell))
+                .collect();
+
+            if !cells.is_empty() {
+                rows.push(cells);
             }
         }
 
-- 
2.43.0


From 1063b5869b03a95a62fb18392c2534c5cb88f329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:48 +0000
Subject: [PATCH 103/140] fix: drop no page content from the slides of
 converted web pages

---
 src/web2ppt/converter.rs | 224 +++++++++++++--------------------------
 1 file changed, 74 insertions(+), 150 deletions(-)

diff --git a/src/web2ppt/converter.rs b/src/web2ppt/converter.rs
index cb3b4df..05513bd 100644
--- a/src/web2ppt/converter.rs
+++ b/src/web2ppt/converter.rs
@@ -1,6 +1,6 @@
 //! Converter from web content to PowerPoint
 
-use super::{Web2PptError, Result, Web2PptConfig, WebContent, ContentType};
+use super::{Web2PptError, Result, Web2PptConfig, WebContent, ContentBlock, ContentType};
 use crate::{create_pptx_with_content, SlideContent, SlideLayout};
 
 /// Safely truncate text at char boundary
@@ -148,77 +148,10 @@ impl Web2Ppt {
             return self.build_linear_slides(content, slides);
         }
 
+        let leading = content.leading_blocks();
+        self.push_section(slides, Self::untitled_section(leading), leading);
         for (heading, blocks) in groups {
-            if slides.len() >= self.config.max_slides {
-                break;
-            }
-
-            let mut slide = SlideContent::new(&heading.text)
-                .layout(SlideLayout::TitleAndContent);
-
-            let mut bullet_count = 0;
-
-            for block in blocks {
-                if bullet_count >= self.config.max_bullets_per_slide {
-                    // Start a new slide for overflow
-                    slides.push(slide);
-                    slide = SlideContent::new(&format!("{} (cont.)", heading.text))
-                        .layout(SlideLayout::TitleAndContent);
-                    bullet_count = 0;
-
-                    if slides.len() >= self.config.max_slides {
-                        break;
-                    }
-                }
-
-                match &block.content_type {
-                    ContentType::Paragraph => {
-                        // Truncate long paragraphs - use char_indices for safe slicing
-                        let text = truncate_text(&block.text, 200);
-                        slide = slide.add_bullet(&text);
-                        bullet_count += 1;
-                    }
-                    ContentType::ListItem => {
-                        let text = truncate_text(&block.text, 180);
-                        slide = slide.add_bullet(&format!("• {}", text));
-                        bullet_count += 1;
-                    }
-                    ContentType::Quote => {
-                        let text = truncate_text(&block.text, 180);
-                        slide = slide.add_bullet(&format!("\"{}\"", text));
-                        bullet_count += 1;
-                    }
-                    ContentType::Code => {
-                        if self.config.include_code {
-                            let code = truncate_text(&block.text, 150);
-                            slide = slide.add_bullet(&format!("[Code] {}", code));
-                            bullet_count += 1;
-                        }
-                    }
-                    ContentType::Table(rows) => {
-                        if self.config.include_tables && !rows.is_empty() {
-                            let summary = format!("[Table: {} rows × {} cols]", 
-                                rows.len(), 
-                                rows.first().map(|r| r.len()).unwrap_or(0)
-                            );
-                            slide = slide.add_bullet(&summary);
-                            bullet_count += 1;
-                        }
-                    }
-                    ContentType::Image { alt, .. } => {
-                        if self.config.include_images && !alt.is_empty() {
-                            slide = slide.add_bullet(&format!("[Image: {}]", alt));
-                            bullet_count += 1;
-                        }
-                    }
-                    _ => {}
-                }
-            }
-
-            // Only add slide if it has content
-            if bullet_count > 0 {
-                slides.push(slide);
-            }
+            self.push_section(slides, &heading.text, blocks);
         }
 
         Ok(())
@@ -226,9 +159,6 @@ impl Web2Ppt {
 
     /// Build slides linearly (not grouped)
     fn build_linear_slides(&self, content: &WebContent, slides: &mut Vec<SlideContent>) -> Result<()> {
-        let mut current_slide: Option<SlideContent> = None;
-        let mut bullet_count = 0;
-
         // If no content blocks, create a slide with description
         if content.blocks.is_empty() {
             if let Some(desc) = &content.description {
@@ -240,90 +170,84 @@ impl Web2Ppt {
             return Ok(());
         }
 
-        for block in &content.blocks {
+        let leading = content.leading_blocks();
+        self.push_section(slides, Self::untitled_section(leading), leading);
+        let mut rest = &content.blocks[leading.len()..];
+        while let Some((heading, after)) = rest.split_first() {
+            let end = after
+                .iter()
+                .position(|block| block.is_heading())
+                .unwrap_or(after.len());
+            self.push_section(slides, &heading.text, &after[..end]);
+            rest = &after[end..];
+        }
+
+        Ok(())
+    }
+
+    /// Title for the slides of content that no heading precedes
+    fn untitled_section(blocks: &[ContentBlock]) -> &'static str {
+        match blocks.first().map(|b| &b.content_type) {
+            Some(ContentType::ListItem) => "Key Points",
+            _ => "Overview",
+        }
+    }
+
+    /// Add the slides of one section: blocks beyond the bullet limit go on to
+    /// continuation slides, and a section without content gets no slide
+    fn push_section<'a>(
+        &self,
+        slides: &mut Vec<SlideContent>,
+        title: &str,
+        blocks: impl IntoIterator<Item = &'a ContentBlock>,
+    ) {
+        let max_bullets = self.config.max_bullets_per_slide.max(1);
+        let bullets: Vec<String> = blocks
+            .into_iter()
+            .filter_map(|block| self.bullet_text(block))
+            .collect();
+
+        for (i, chunk) in bullets.chunks(max_bullets).enumerate() {
             if slides.len() >= self.config.max_slides {
                 break;
             }
-
-            match &block.content_type {
-                ContentType::Title | ContentType::Heading(_) => {
-                    // Save current slide if it has content
-                    if let Some(slide) = current_slide.take() {
-                        if bullet_count > 0 {
-                            slides.push(slide);
-                        }
-                    }
-
-                    // Start new slide
-                    current_slide = Some(
-                        SlideContent::new(&block.text)
-                            .layout(SlideLayout::TitleAndContent)
-                    );
-                    bullet_count = 0;
-                }
-                ContentType::Paragraph => {
-                    // If no current slide, create one
-                    if current_slide.is_none() {
-                        current_slide = Some(
-                            SlideContent::new("Overview")
-                                .layout(SlideLayout::TitleAndContent)
-                        );
-                    }
-                    
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 200);
-                            *slide = slide.clone().add_bullet(&text);
-                            bullet_count += 1;
-                        } else {
-                            // Start new continuation slide
-                            slides.push(slide.clone());
-                            let title = slide.title.clone();
-                            *slide = SlideContent::new(&format!("{} (cont.)", title))
-                                .layout(SlideLayout::TitleAndContent);
-                            let text = truncate_text(&block.text, 200);
-                            *slide = slide.clone().add_bullet(&text);
-                            bullet_count = 1;
-                        }
-                    }
-                }
-                ContentType::ListItem => {
-                    if current_slide.is_none() {
-                        current_slide = Some(
-                            SlideContent::new("Key Points")
-                                .layout(SlideLayout::TitleAndContent)
-                        );
-                    }
-                    
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 180);
-                            *slide = slide.clone().add_bullet(&format!("• {}", text));
-                            bullet_count += 1;
-                        }
-                    }
-                }
-                ContentType::Quote => {
-                    if let Some(ref mut slide) = current_slide {
-                        if bullet_count < self.config.max_bullets_per_slide {
-                            let text = truncate_text(&block.text, 180);
-                            *slide = slide.clone().add_bullet(&format!("\"{}\"", text));
-                            bullet_count += 1;
-                        }
-                    }
-                }
-                _ => {}
+            let mut slide = if i == 0 {
+                SlideContent::new(title)
+            } else {
+                SlideContent::new(&format!("{} (cont.)", title))
+            }
+            .layout(SlideLayout::TitleAndContent)
+            .title_size(self.config.title_font_size)
+            .content_size(self.config.content_font_size);
+            for text in chunk {
+                slide = slide.add_bullet(text);
             }
+            slides.push(slide);
         }
+    }
 
-        // Save last slide
-        if let Some(slide) = current_slide {
-            if bullet_count > 0 {
-                slides.push(slide);
+    /// The bullet a block is shown as, if it is shown
+    fn bullet_text(&self, block: &ContentBlock) -> Option<String> {
+        match &block.content_type {
+            // Truncate long paragraphs - use char_indices for safe slicing
+            ContentType::Paragraph => Some(truncate_text(&block.text, 200)),
+            ContentType::ListItem => Some(format!("• {}", truncate_text(&block.text, 180))),
+            ContentType::Quote => Some(format!("\"{}\"", truncate_text(&block.text, 180))),
+            ContentType::Code if self.config.include_code => {
+                Some(format!("[Code] {}", truncate_text(&block.text, 150)))
+            }
+            ContentType::Table(rows) if self.config.include_tables && !rows.is_empty() => {
+                Some(format!(
+                    "[Table: {} rows × {} cols]",
+                    rows.len(),
+                    rows.iter().map(|r| r.len()).max().unwrap_or(0)
+                ))
             }
+            ContentType::Image { alt, .. } if self.config.include_images && !alt.is_empty() => {
+                Some(format!("[Image: {}]", alt))
+            }
+            _ => None,
         }
-
-        Ok(())
     }
 
     /// Get config
-- 
2.43.0


From 5360a431ae797f580da20cc2bdcd7b41c80bb6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:24 +0000
Subject: [PATCH 104/140] fix: keep type, target and mode of relationships
 exactly

---
 src/parts/relationships.rs | 68 ++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 2b8255e..6cd7849 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -2,7 +2,7 @@
 //!
 //! Manages relationships between parts in a PPTX package.
 
-use crate::core::ToXml;
+use crate::core::{escape_xml, ToXml};
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -40,27 +40,20 @@ impl RelationshipType {
 
     /// Parse from URI string
     pub fn from_uri(uri: &str) -> Self {
-        if uri.contains("/slide") && !uri.contains("Layout") && !uri.contains("Master") {
-            RelationshipType::Slide
-        } else if uri.contains("/slideLayout") {
-            RelationshipType::SlideLayout
-        } else if uri.contains("/slideMaster") {
-            RelationshipType::SlideMaster
-        } else if uri.contains("/theme") {
-            RelationshipType::Theme
-        } else if uri.contains("/image") {
-            RelationshipType::Image
-        } else if uri.contains("/chart") {
-            RelationshipType::Chart
-        } else if uri.contains("/officeDocument") {
-            RelationshipType::OfficeDocument
-        } else if uri.contains("core-properties") {
-            RelationshipType::CoreProperties
-        } else if uri.contains("extended-properties") {
-            RelationshipType::ExtendedProperties
-        } else {
-            RelationshipType::Custom(uri.to_string())
-        }
+        [
+            RelationshipType::OfficeDocument,
+            RelationshipType::Slide,
+            RelationshipType::SlideLayout,
+            RelationshipType::SlideMaster,
+            RelationshipType::Theme,
+            RelationshipType::Image,
+            RelationshipType::Chart,
+            RelationshipType::CoreProperties,
+            RelationshipType::ExtendedProperties,
+        ]
+        .into_iter()
+        .find(|known| known.uri() == uri)
+        .unwrap_or_else(|| RelationshipType::Custom(uri.to_string()))
     }
 }
 
@@ -70,6 +63,8 @@ pub struct Relationship {
     pub id: String,
     pub rel_type: RelationshipType,
     pub target: String,
+    /// `TargetMode`, e.g. "External"; internal targets have none
+    pub target_mode: Option<String>,
 }
 
 impl Relationship {
@@ -79,16 +74,23 @@ impl Relationship {
             id: id.to_string(),
             rel_type,
             target: target.to_string(),
+            target_mode: None,
         }
     }
 
     /// Generate XML for this relationship
     pub fn to_xml(&self) -> String {
+        let mode = self
+            .target_mode
+            .as_ref()
+            .map(|m| format!(r#" TargetMode="{}""#, escape_xml(m)))
+            .unwrap_or_default();
         format!(
-            r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
-            self.id,
-            self.rel_type.uri(),
-            self.target
+            r#"<Relationship Id="{}" Type="{}" Target="{}"{}/>"#,
+            escape_xml(&self.id),
+            escape_xml(self.rel_type.uri()),
+            escape_xml(&self.target),
+            mode
         )
     }
 }
@@ -117,8 +119,13 @@ impl Relationships {
 
     /// Add a relationship and return its ID
     pub fn add(&mut self, rel_type: RelationshipType, target: &str) -> String {
-        let id = format!("rId{}", self.next_id);
-        self.next_id += 1;
+        let mut id = format!("rId{}", self.next_id);
+        if self.get(&id).is_some() {
+            // the counter has reached its end: take the first free number
+            let free = (1..u32::MAX).find(|n| self.get(&format!("rId{n}")).is_none());
+            id = format!("rId{}", free.unwrap_or(u32::MAX));
+        }
+        self.next_id = self.next_id.saturating_add(1);
         self.relationships
             .push(Relationship::new(&id, rel_type, target));
         id
@@ -131,7 +138,7 @@ impl Relationships {
         // Update next_id if needed
         if let Some(num) = id.strip_prefix("rId").and_then(|s| s.parse::<u32>().ok())
             && num >= self.next_id {
-                self.next_id = num + 1;
+                self.next_id = num.saturating_add(1);
             }
     }
 
@@ -199,6 +206,9 @@ impl Relationships {
                 rel_elem.attr("Target"),
             ) {
                 rels.add_with_id(id, RelationshipType::from_uri(rel_type), target);
+                if let Some(rel) = rels.relationships.last_mut() {
+                    rel.target_mode = rel_elem.attr("TargetMode").map(str::to_string);
+                }
             }
         }
 
-- 
2.43.0


From 3b2b7a1075d4d98fa8482c6e0699b421437b5c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:26 +0000
Subject: [PATCH 105/140] fix: read content types and keep one type per
 extension and part

---
 src/parts/content_types.rs | 54 +++++++++++++++++++++++++++++++-------
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 46517ea..c532c86 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -3,7 +3,9 @@
 //! Represents `[Content_Types].xml` which defines MIME types for all parts.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Default content type mapping (by extension)
 #[derive(Debug, Clone)]
@@ -70,15 +72,33 @@ impl ContentTypesPart {
     }
 
     /// Add a default type
+    ///
+    /// An extension has one type only; a later one replaces an earlier one.
     pub fn add_default(&mut self, extension: impl Into<String>, content_type: impl Into<String>) {
-        self.defaults
-            .push(DefaultType::new(extension, content_type));
+        let new = DefaultType::new(extension, content_type);
+        match self
+            .defaults
+            .iter_mut()
+            .find(|d| d.extension.eq_ignore_ascii_case(&new.extension))
+        {
+            Some(existing) => *existing = new,
+            None => self.defaults.push(new),
+        }
     }
 
     /// Add an override type
+    ///
+    /// A part has one type only; a later one replaces an earlier one.
     pub fn add_override(&mut self, part_name: impl Into<String>, content_type: impl Into<String>) {
-        self.overrides
-            .push(OverrideType::new(part_name, content_type));
+        let new = OverrideType::new(part_name, content_type);
+        match self
+            .overrides
+            .iter_mut()
+            .find(|o| o.part_name.eq_ignore_ascii_case(&new.part_name))
+        {
+            Some(existing) => *existing = new,
+            None => self.overrides.push(new),
+        }
     }
 
     /// Add presentation part
@@ -160,7 +180,8 @@ impl ContentTypesPart {
             .map(|d| {
                 format!(
                     r#"<Default Extension="{}" ContentType="{}"/>"#,
-                    d.extension, d.content_type
+                    escape_xml(&d.extension),
+                    escape_xml(&d.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -172,7 +193,8 @@ impl ContentTypesPart {
             .map(|o| {
                 format!(
                     r#"<Override PartName="{}" ContentType="{}"/>"#,
-                    o.part_name, o.content_type
+                    escape_xml(&o.part_name),
+                    escape_xml(&o.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -212,9 +234,23 @@ impl Part for ContentTypesPart {
         Ok(self.generate_xml())
     }
 
-    fn from_xml(_xml: &str) -> Result<Self, PptxError> {
-        // TODO: Parse XML
-        Ok(ContentTypesPart::new())
+    fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let mut part = ContentTypesPart {
+            defaults: vec![],
+            overrides: vec![],
+        };
+        for entry in &root.children {
+            let Some(content_type) = entry.attr("ContentType") else {
+                continue;
+            };
+            if let Some(extension) = entry.attr("Extension").filter(|_| entry.is("Default")) {
+                part.add_default(extension, content_type);
+            } else if let Some(name) = entry.attr("PartName").filter(|_| entry.is("Override")) {
+                part.add_override(name, content_type);
+            }
+        }
+        Ok(part)
     }
 }
 
-- 
2.43.0


From 73a20e3005092636c4773400b40b527b647241e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:27 +0000
Subject: [PATCH 106/140] fix: escape the dates of the core properties part

---
 src/parts/coreprops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index b0c13d4..95160e0 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -75,7 +75,7 @@ impl CorePropertiesPart {
     pub fn touch(&mut self) {
         self.modified = Some(current_timestamp());
         if let Some(ref mut rev) = self.revision {
-            *rev += 1;
+            *rev = rev.saturating_add(1);
         }
     }
 
@@ -145,13 +145,13 @@ impl Part for CorePropertiesPart {
         if let Some(ref created) = self.created {
             elements.push(format!(
                 r#"<dcterms:created xsi:type="dcterms:W3CDTF">{}</dcterms:created>"#,
-                created
+                Self::escape_xml(created)
             ));
         }
         if let Some(ref modified) = self.modified {
             elements.push(format!(
                 r#"<dcterms:modified xsi:type="dcterms:W3CDTF">{}</dcterms:modified>"#,
-                modified
+                Self::escape_xml(modified)
             ));
         }
 
-- 
2.43.0


From c76b5e57078c877e1791c44c66daf5de05108f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:29 +0000
Subject: [PATCH 107/140] fix: read application properties and escape their
 texts

---
 src/parts/app_props.rs | 44 ++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/parts/app_props.rs b/src/parts/app_props.rs
index b806ecf..65d4a0b 100644
--- a/src/parts/app_props.rs
+++ b/src/parts/app_props.rs
@@ -3,7 +3,9 @@
 //! Represents docProps/app.xml with application-specific metadata.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Application properties part (docProps/app.xml)
 #[derive(Debug, Clone)]
@@ -23,7 +25,8 @@ pub struct AppPropertiesPart {
     pub links_up_to_date: bool,
     pub shared_doc: bool,
     pub hyperlinks_changed: bool,
-    xml_content: Option<String>,
+    /// XML this part was read from, and the XML its values stood for then
+    source: Option<(String, String)>,
 }
 
 impl AppPropertiesPart {
@@ -45,7 +48,7 @@ impl AppPropertiesPart {
             links_up_to_date: false,
             shared_doc: false,
             hyperlinks_changed: false,
-            xml_content: None,
+            source: None,
         }
     }
 
@@ -73,7 +76,7 @@ impl AppPropertiesPart {
         let company_xml = self
             .company
             .as_ref()
-            .map(|c| format!("<Company>{}</Company>", c))
+            .map(|c| format!("<Company>{}</Company>", escape_xml(c)))
             .unwrap_or_default();
 
         format!(
@@ -94,10 +97,10 @@ impl AppPropertiesPart {
   <SharedDoc>{}</SharedDoc>
   <HyperlinksChanged>{}</HyperlinksChanged>
 </Properties>"#,
-            self.application,
-            self.app_version,
+            escape_xml(&self.application),
+            escape_xml(&self.app_version),
             company_xml,
-            self.presentation_format,
+            escape_xml(&self.presentation_format),
             self.slides,
             self.paragraphs,
             self.words,
@@ -132,15 +135,36 @@ impl Part for AppPropertiesPart {
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
-        if let Some(ref xml) = self.xml_content {
-            return Ok(xml.clone());
+        let generated = self.generate_xml();
+        // A part that was read and not changed since keeps its original XML
+        match self.source {
+            Some((ref original, ref unchanged)) if *unchanged == generated => Ok(original.clone()),
+            _ => Ok(generated),
         }
-        Ok(self.generate_xml())
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let text = |name: &str| root.find(name).map(|e| e.text_content());
+        let number = |name: &str| text(name).and_then(|t| t.trim().parse().ok()).unwrap_or(0);
+        let flag = |name: &str| text(name).is_some_and(|t| matches!(t.trim(), "true" | "1"));
+
         let mut part = AppPropertiesPart::new();
-        part.xml_content = Some(xml.to_string());
+        part.application = text("Application").unwrap_or_default();
+        part.app_version = text("AppVersion").unwrap_or_default();
+        part.company = text("Company");
+        part.presentation_format = text("PresentationFormat").unwrap_or_default();
+        part.slides = number("Slides");
+        part.paragraphs = number("Paragraphs");
+        part.words = number("Words");
+        part.notes = number("Notes");
+        part.hidden_slides = number("HiddenSlides");
+        part.mm_clips = number("MMClips");
+        part.scale_crop = flag("ScaleCrop");
+        part.links_up_to_date = flag("LinksUpToDate");
+        part.shared_doc = flag("SharedDoc");
+        part.hyperlinks_changed = flag("HyperlinksChanged");
+        part.source = Some((xml.to_string(), part.generate_xml()));
         Ok(part)
     }
 }
-- 
2.43.0


From 2ed27f6d4bf7ef91279f1ba415e693619e44235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:43 +0000
Subject: [PATCH 108/140] fix: keep slide and relationship ids of the
 presentation part apart

---
 src/parts/presentation.rs | 58 ++++++++++++++++++++++++---------------
 1 file changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/parts/presentation.rs b/src/parts/presentation.rs
index e571887..f596799 100644
--- a/src/parts/presentation.rs
+++ b/src/parts/presentation.rs
@@ -4,6 +4,7 @@
 
 use super::base::{ContentType, Part, PartType};
 use super::relationships::{RelationshipType, Relationships};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -50,7 +51,8 @@ impl PresentationPart {
 
     /// Add a slide reference
     pub fn add_slide(&mut self, r_id: &str) -> u32 {
-        let id = 256 + self.slide_refs.len() as u32 + 1;
+        let highest = self.slide_refs.iter().map(|s| s.id).max().unwrap_or(256);
+        let id = highest.max(256).saturating_add(1);
         self.slide_refs.push(SlideRef {
             id,
             r_id: r_id.to_string(),
@@ -74,30 +76,35 @@ impl PresentationPart {
         self.slide_height = height;
     }
 
+    /// Relationship ID of the slide master and of the theme.
+    ///
+    /// Where none was set, a free one is used.
+    fn master_and_theme_r_ids(&self) -> (String, String) {
+        let mut used: Vec<&str> = self.slide_refs.iter().map(|s| s.r_id.as_str()).collect();
+        used.extend(self.slide_master_r_id.as_deref());
+        used.extend(self.theme_r_id.as_deref());
+        let mut free = (1u32..)
+            .map(|n| format!("rId{n}"))
+            .filter(|id| !used.contains(&id.as_str()));
+        let mut pick = |set: &Option<String>| set.clone().or_else(|| free.next()).unwrap_or_default();
+        (pick(&self.slide_master_r_id), pick(&self.theme_r_id))
+    }
+
     /// Create default relationships for presentation
     pub fn create_relationships(&self) -> Relationships {
         let mut rels = Relationships::new();
 
+        let (master_r_id, theme_r_id) = self.master_and_theme_r_ids();
+
         // Add slide master
-        if let Some(ref r_id) = self.slide_master_r_id {
-            rels.add_with_id(
-                r_id,
-                RelationshipType::SlideMaster,
-                "slideMasters/slideMaster1.xml",
-            );
-        } else {
-            rels.add(
-                RelationshipType::SlideMaster,
-                "slideMasters/slideMaster1.xml",
-            );
-        }
+        rels.add_with_id(
+            &master_r_id,
+            RelationshipType::SlideMaster,
+            "slideMasters/slideMaster1.xml",
+        );
 
         // Add theme
-        if let Some(ref r_id) = self.theme_r_id {
-            rels.add_with_id(r_id, RelationshipType::Theme, "theme/theme1.xml");
-        } else {
-            rels.add(RelationshipType::Theme, "theme/theme1.xml");
-        }
+        rels.add_with_id(&theme_r_id, RelationshipType::Theme, "theme/theme1.xml");
 
         // Add slides
         for (i, slide_ref) in self.slide_refs.iter().enumerate() {
@@ -136,11 +143,17 @@ impl Part for PresentationPart {
         for slide_ref in &self.slide_refs {
             slide_id_list.push_str(&format!(
                 "\n<p:sldId id=\"{}\" r:id=\"{}\"/>",
-                slide_ref.id, slide_ref.r_id
+                slide_ref.id,
+                escape_xml(&slide_ref.r_id)
             ));
         }
 
-        let master_r_id = self.slide_master_r_id.as_deref().unwrap_or("rId1");
+        let (master_r_id, _) = self.master_and_theme_r_ids();
+        let size_type = if (self.slide_width, self.slide_height) == (9144000, 6858000) {
+            " type=\"screen4x3\""
+        } else {
+            ""
+        };
 
         let xml = format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
@@ -150,13 +163,14 @@ impl Part for PresentationPart {
 </p:sldMasterIdLst>
 <p:sldIdLst>{}
 </p:sldIdLst>
-<p:sldSz cx="{}" cy="{}" type="screen4x3"/>
+<p:sldSz cx="{}" cy="{}"{}/>
 <p:notesSz cx="{}" cy="{}"/>
 </p:presentation>"#,
-            master_r_id,
+            escape_xml(&master_r_id),
             slide_id_list,
             self.slide_width,
             self.slide_height,
+            size_type,
             self.slide_height,
             self.slide_width,
         );
-- 
2.43.0


From fbcdf4344edba3fdd737e1b1b2970691af82c17f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:45 +0000
Subject: [PATCH 109/140] fix: read the text of notes parts and give them their
 own type

---
 src/parts/notes_slide.rs | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/parts/notes_slide.rs b/src/parts/notes_slide.rs
index b5e39fb..5ccd625 100644
--- a/src/parts/notes_slide.rs
+++ b/src/parts/notes_slide.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Notes slide part (ppt/notesSlides/notesSlideN.xml)
 #[derive(Debug, Clone)]
@@ -131,11 +132,11 @@ impl Part for NotesSlidePart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Slide // Notes are associated with slides
+        PartType::NotesSlide
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Xml // Notes have their own content type
+        ContentType::NotesSlide
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
@@ -146,11 +147,39 @@ impl Part for NotesSlidePart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        // The notes are the text of the body placeholder
+        let body = root
+            .find_all_descendants("sp")
+            .into_iter()
+            .find(|sp| {
+                sp.find_descendant("ph")
+                    .is_some_and(|ph| ph.attr("type") == Some("body"))
+            })
+            .and_then(|sp| sp.find("txBody"));
+        let notes_text = body
+            .map(|b| {
+                b.find_all("p")
+                    .into_iter()
+                    .map(|p| {
+                        p.children
+                            .iter()
+                            .map(|run| match run.local_name.as_str() {
+                                "br" => "\n".to_string(),
+                                _ => run.find("t").map(|t| t.text.clone()).unwrap_or_default(),
+                            })
+                            .collect::<String>()
+                    })
+                    .collect::<Vec<_>>()
+                    .join("\n")
+            })
+            .unwrap_or_default();
+
         Ok(NotesSlidePart {
             path: "ppt/notesSlides/notesSlide1.xml".to_string(),
             notes_number: 1,
             slide_rel_id: "rId1".to_string(),
-            notes_text: String::new(),
+            notes_text,
             xml_content: Some(xml.to_string()),
         })
     }
-- 
2.43.0


From ea49649df2d842e8f0c32a8fb08aa4e3606a81b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:46 +0000
Subject: [PATCH 110/140] fix: give media parts and all image formats their
 content types

---
 src/parts/base.rs  | 2 +-
 src/parts/image.rs | 1 +
 src/parts/media.rs | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parts/base.rs b/src/parts/base.rs
index 41af2ef..f72e513 100644
--- a/src/parts/base.rs
+++ b/src/parts/base.rs
@@ -53,7 +53,7 @@ impl ContentType {
                 "jpeg" | "jpg" => "image/jpeg",
                 "gif" => "image/gif",
                 "bmp" => "image/bmp",
-                "tiff" => "image/tiff",
+                "tiff" | "tif" => "image/tiff",
                 "svg" => "image/svg+xml",
                 _ => "application/octet-stream",
             },
diff --git a/src/parts/image.rs b/src/parts/image.rs
index 6609d43..b1a1933 100644
--- a/src/parts/image.rs
+++ b/src/parts/image.rs
@@ -87,6 +87,7 @@ impl ImagePart {
             "gif" => "image/gif",
             "bmp" => "image/bmp",
             "tiff" | "tif" => "image/tiff",
+            "svg" => "image/svg+xml",
             _ => "application/octet-stream",
         }
     }
diff --git a/src/parts/media.rs b/src/parts/media.rs
index c0dfb1e..506bf75 100644
--- a/src/parts/media.rs
+++ b/src/parts/media.rs
@@ -175,11 +175,11 @@ impl Part for MediaPart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Image // Media uses similar handling to images
+        PartType::Media
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Image(self.format.extension().to_string())
+        ContentType::Media(self.format.extension().to_string())
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
-- 
2.43.0


From 8dc328e2ba61fe48c97575c2bf3b59acbcb0016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:48 +0000
Subject: [PATCH 111/140] fix: write alignment, borders, merges and row heights
 of table parts validly

---
 src/parts/table.rs | 85 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 60 insertions(+), 25 deletions(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index f5e7de2..4e9fc27 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -102,17 +102,18 @@ impl CellBorder {
 
     pub fn to_xml(&self, tag: &str) -> String {
         if self.style == BorderStyle::None {
-            return format!("<a:{}/>\n", tag);
+            return format!("<a:{tag}><a:noFill/></a:{tag}>\n");
         }
         format!(
-            r#"<a:{} w="{}" cap="flat" cmpd="sng" algn="ctr">
+            r#"<a:{} w="{}" cap="flat" cmpd="{}" algn="ctr">
               <a:solidFill><a:srgbClr val="{}"/></a:solidFill>
               <a:prstDash val="{}"/>
             </a:{}>"#,
             tag,
             self.width,
+            if self.style == BorderStyle::Double { "dbl" } else { "sng" },
             self.color.trim_start_matches('#'),
-            self.style.as_str(),
+            if self.style == BorderStyle::Double { "solid" } else { self.style.as_str() },
             tag
         )
     }
@@ -356,9 +357,19 @@ impl TableCellPart {
 
     /// Generate XML for this cell
     pub fn to_xml(&self) -> String {
+        self.to_xml_covered(true, false)
+    }
+
+    /// XML of this cell; a merged placeholder is covered by the cell to its
+    /// left (`h_merge`), the cell above it (`v_merge`), or both.
+    fn to_xml_covered(&self, h_merge: bool, v_merge: bool) -> String {
         // Handle merged cells (placeholders)
         if self.is_merged {
-            return r#"<a:tc hMerge="1"><a:txBody><a:bodyPr/><a:lstStyle/><a:p><a:endParaRPr/></a:p></a:txBody><a:tcPr/></a:tc>"#.to_string();
+            return format!(
+                r#"<a:tc{}{}><a:txBody><a:bodyPr/><a:lstStyle/><a:p><a:endParaRPr/></a:p></a:txBody><a:tcPr/></a:tc>"#,
+                if h_merge { r#" hMerge="1""# } else { "" },
+                if v_merge { r#" vMerge="1""# } else { "" },
+            );
         }
 
         let mut attrs = String::new();
@@ -396,7 +407,7 @@ impl TableCellPart {
             rpr_attrs.push_str(r#" strike="sngStrike""#);
         }
         if let Some(size) = self.font_size {
-            rpr_attrs.push_str(&format!(r#" sz="{}""#, size * 100));
+            rpr_attrs.push_str(&format!(r#" sz="{}""#, size.saturating_mul(100).clamp(100, 400_000)));
         }
 
         // Text color
@@ -415,15 +426,11 @@ impl TableCellPart {
         let font_xml = self
             .font_family
             .as_ref()
-            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, f))
+            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, escape_xml(f)))
             .unwrap_or_default();
 
         // Paragraph alignment
-        let p_pr = if self.h_align == HorizontalAlign::Center {
-            String::new()
-        } else {
-            format!(r#"<a:pPr algn="{}"/>"#, self.h_align.as_str())
-        };
+        let p_pr = format!(r#"<a:pPr algn="{}"/>"#, self.h_align.as_str());
 
         // Cell properties
         let mut tcpr_attrs = format!(r#" anchor="{}""#, self.v_align.as_str());
@@ -475,6 +482,9 @@ impl ToXml for TableCellPart {
     }
 }
 
+/// Height of rows without one of their own, in EMU
+const DEFAULT_ROW_HEIGHT: i64 = 370840;
+
 /// Table row
 #[derive(Debug, Clone)]
 pub struct TableRowPart {
@@ -499,23 +509,17 @@ impl TableRowPart {
 
     /// Generate XML for this row
     pub fn to_xml(&self) -> String {
-        let height_attr = self
-            .height
-            .map(|h| format!(r#" h="{}""#, h))
-            .unwrap_or_default();
-
-        let cells_xml: String = self
-            .cells
-            .iter()
-            .map(|c| c.to_xml())
-            .collect::<Vec<_>>()
-            .join("\n        ");
+        let cells: Vec<String> = self.cells.iter().map(|c| c.to_xml()).collect();
+        self.wrap_cells(&cells)
+    }
 
+    fn wrap_cells(&self, cells: &[String]) -> String {
         format!(
-            r#"<a:tr{}>
+            r#"<a:tr h="{}">
         {}
       </a:tr>"#,
-            height_attr, cells_xml
+            self.height.unwrap_or(DEFAULT_ROW_HEIGHT),
+            cells.join("\n        ")
         )
     }
 }
@@ -582,6 +586,21 @@ impl TablePart {
         self
     }
 
+    /// Whether a merged placeholder continues a cell to its left, above it, or both.
+    fn covered(&self, row: usize, col: usize) -> (bool, bool) {
+        for (r, anchors) in self.rows.iter().enumerate().take(row + 1) {
+            for (c, anchor) in anchors.cells.iter().enumerate().take(col + 1) {
+                if !anchor.is_merged
+                    && (row - r) < anchor.row_span as usize
+                    && (col - c) < anchor.col_span as usize
+                {
+                    return (c < col, r < row);
+                }
+            }
+        }
+        (true, false)
+    }
+
     /// Generate table XML for embedding in a slide
     pub fn to_slide_xml(&self, shape_id: usize) -> String {
         let grid_cols: String = self
@@ -594,7 +613,23 @@ impl TablePart {
         let rows_xml: String = self
             .rows
             .iter()
-            .map(|r| r.to_xml())
+            .enumerate()
+            .map(|(row, r)| {
+                let cells: Vec<String> = r
+                    .cells
+                    .iter()
+                    .enumerate()
+                    .map(|(col, c)| {
+                        let (h_merge, v_merge) = if c.is_merged {
+                            self.covered(row, col)
+                        } else {
+                            (false, false)
+                        };
+                        c.to_xml_covered(h_merge, v_merge)
+                    })
+                    .collect();
+                r.wrap_cells(&cells)
+            })
             .collect::<Vec<_>>()
             .join("\n      ");
 
-- 
2.43.0


From 6525330effac1d58477777d366654a4bbad4ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:37 +0000
Subject: [PATCH 112/140] fix: write theme parts validly and read their name,
 fonts and colours

---
 src/parts/theme.rs | 49 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 7 deletions(-)

diff --git a/src/parts/theme.rs b/src/parts/theme.rs
index 48a9961..2dfc950 100644
--- a/src/parts/theme.rs
+++ b/src/parts/theme.rs
@@ -3,7 +3,9 @@
 //! Represents a theme (ppt/theme/themeN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Theme color
 #[derive(Debug, Clone)]
@@ -106,6 +108,9 @@ impl ThemePart {
     }
 
     /// Set a theme color
+    ///
+    /// A theme has twelve colors (`dk1`, `lt1`, `dk2`, `lt2`, `accent1` to
+    /// `accent6`, `hlink` and `folHlink`); other names are not written.
     pub fn set_color(&mut self, name: impl Into<String>, value: impl Into<String>) {
         let name = name.into();
         if let Some(color) = self.colors.iter_mut().find(|c| c.name == name) {
@@ -124,10 +129,13 @@ impl ThemePart {
         let colors_xml: String = self
             .colors
             .iter()
+            .filter(|c| Self::default_colors().iter().any(|d| d.name == c.name))
             .map(|c| {
                 format!(
-                    r#"<a:{} val="{}"><a:srgbClr val="{}"/></a:{}>"#,
-                    c.name, c.name, c.value, c.name
+                    r#"<a:{}><a:srgbClr val="{}"/></a:{}>"#,
+                    c.name,
+                    escape_xml(c.value.trim_start_matches('#')),
+                    c.name
                 )
             })
             .collect::<Vec<_>>()
@@ -178,7 +186,10 @@ impl ThemePart {
   <a:objectDefaults/>
   <a:extraClrSchemeLst/>
 </a:theme>"#,
-            self.name, colors_xml, self.major_font.typeface, self.minor_font.typeface
+            escape_xml(&self.name),
+            colors_xml,
+            escape_xml(&self.major_font.typeface),
+            escape_xml(&self.minor_font.typeface)
         )
     }
 }
@@ -204,13 +215,37 @@ impl Part for ThemePart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let font = |kind: &str| {
+            let latin = root.find_descendant(kind).and_then(|f| f.find("latin"));
+            ThemeFont {
+                typeface: latin.and_then(|l| l.attr("typeface")).unwrap_or_default().to_string(),
+                panose: latin.and_then(|l| l.attr("panose")).map(str::to_string),
+            }
+        };
+        let colors = root
+            .find_descendant("clrScheme")
+            .map(|scheme| {
+                scheme
+                    .children
+                    .iter()
+                    .filter_map(|entry| {
+                        // System colors carry the value they had last
+                        let color = entry.children.first()?;
+                        let value = color.attr("lastClr").or_else(|| color.attr("val"))?;
+                        Some(ThemeColor::new(entry.local_name.as_str(), value))
+                    })
+                    .collect()
+            })
+            .unwrap_or_default();
+
         Ok(ThemePart {
             path: "ppt/theme/theme1.xml".to_string(),
             theme_number: 1,
-            name: "Office Theme".to_string(),
-            major_font: ThemeFont::new("Calibri Light"),
-            minor_font: ThemeFont::new("Calibri"),
-            colors: Self::default_colors(),
+            name: root.attr("name").unwrap_or_default().to_string(),
+            major_font: font("majorFont"),
+            minor_font: font("minorFont"),
+            colors,
             xml_content: Some(xml.to_string()),
         })
     }
-- 
2.43.0


From c8c948fa692be5a0d8a3e04efb272e5763a03eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:39 +0000
Subject: [PATCH 113/140] fix: escape names of layout and master parts and read
 them back

---
 src/parts/slide_layout.rs | 31 ++++++++++++++++++++++++++++---
 src/parts/slide_master.rs | 28 ++++++++++++++++++++++------
 2 files changed, 50 insertions(+), 9 deletions(-)

diff --git a/src/parts/slide_layout.rs b/src/parts/slide_layout.rs
index 34054e3..e7a845c 100644
--- a/src/parts/slide_layout.rs
+++ b/src/parts/slide_layout.rs
@@ -3,7 +3,9 @@
 //! Represents a slide layout template (ppt/slideLayouts/slideLayoutN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Slide layout types
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -41,6 +43,26 @@ impl LayoutType {
         }
     }
 
+    /// Layout type of an attribute value; unknown ones are custom layouts
+    fn from_type_value(value: &str) -> Self {
+        [
+            LayoutType::Title,
+            LayoutType::TitleAndContent,
+            LayoutType::SectionHeader,
+            LayoutType::TwoContent,
+            LayoutType::Comparison,
+            LayoutType::TitleOnly,
+            LayoutType::Blank,
+            LayoutType::ContentWithCaption,
+            LayoutType::PictureWithCaption,
+            LayoutType::TitleAndVerticalText,
+            LayoutType::VerticalTitleAndText,
+        ]
+        .into_iter()
+        .find(|t| t.type_value() == value)
+        .unwrap_or(LayoutType::Custom)
+    }
+
     /// Get the layout type attribute value
     pub fn type_value(&self) -> &'static str {
         match self {
@@ -140,7 +162,7 @@ impl SlideLayoutPart {
   </p:clrMapOvr>
 </p:sldLayout>"#,
             self.layout_type.type_value(),
-            self.name
+            escape_xml(&self.name)
         )
     }
 }
@@ -166,11 +188,14 @@ impl Part for SlideLayoutPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let name = root.find("cSld").and_then(|c| c.attr("name"));
+
         Ok(SlideLayoutPart {
             path: "ppt/slideLayouts/slideLayout1.xml".to_string(),
             layout_number: 1,
-            layout_type: LayoutType::TitleAndContent,
-            name: "Layout".to_string(),
+            layout_type: LayoutType::from_type_value(root.attr("type").unwrap_or("cust")),
+            name: name.unwrap_or_default().to_string(),
             master_rel_id: "rId1".to_string(),
             xml_content: Some(xml.to_string()),
         })
diff --git a/src/parts/slide_master.rs b/src/parts/slide_master.rs
index 41d7516..f0dfc32 100644
--- a/src/parts/slide_master.rs
+++ b/src/parts/slide_master.rs
@@ -3,7 +3,9 @@
 //! Represents a slide master template (ppt/slideMasters/slideMasterN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Slide master part (ppt/slideMasters/slideMasterN.xml)
 #[derive(Debug, Clone)]
@@ -68,11 +70,12 @@ impl SlideMasterPart {
         let layout_ids: String = self
             .layout_rel_ids
             .iter()
-            .map(|id| {
+            .enumerate()
+            .map(|(i, id)| {
                 format!(
                     r#"<p:sldLayoutId id="{}" r:id="{}"/>"#,
-                    2147483649 + self.layout_rel_ids.iter().position(|x| x == id).unwrap() as u64,
-                    id
+                    2147483649 + i as u64,
+                    escape_xml(id)
                 )
             })
             .collect::<Vec<_>>()
@@ -81,7 +84,7 @@ impl SlideMasterPart {
         format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <p:sldMaster xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
-  <p:cSld>
+  <p:cSld name="{}">
     <p:bg>
       <p:bgRef idx="1001">
         <a:schemeClr val="bg1"/>
@@ -112,6 +115,7 @@ impl SlideMasterPart {
     <p:otherStyle/>
   </p:txStyles>
 </p:sldMaster>"#,
+            escape_xml(&self.name),
             if layout_ids.is_empty() {
                 "".to_string()
             } else {
@@ -142,12 +146,24 @@ impl Part for SlideMasterPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let name = root.find("cSld").and_then(|c| c.attr("name"));
+        let layout_rel_ids = root
+            .find("sldLayoutIdLst")
+            .map(|list| {
+                list.find_all("sldLayoutId")
+                    .iter()
+                    .filter_map(|l| l.attr("r:id").map(str::to_string))
+                    .collect()
+            })
+            .unwrap_or_default();
+
         Ok(SlideMasterPart {
             path: "ppt/slideMasters/slideMaster1.xml".to_string(),
             master_number: 1,
-            name: "Office Theme".to_string(),
+            name: name.unwrap_or("Office Theme").to_string(),
             theme_rel_id: "rId1".to_string(),
-            layout_rel_ids: vec![],
+            layout_rel_ids,
             xml_content: Some(xml.to_string()),
         })
     }
-- 
2.43.0


From c1ac3466010e9a3ab7baf08a4973de314bf47211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:40 +0000
Subject: [PATCH 114/140] fix: forget the old text of slide parts given new
 content, refuse malformed chart parts

---
 src/parts/chart.rs | 1 +
 src/parts/slide.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/parts/chart.rs b/src/parts/chart.rs
index 058bd7b..924afac 100644
--- a/src/parts/chart.rs
+++ b/src/parts/chart.rs
@@ -87,6 +87,7 @@ impl Part for ChartPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        crate::oxml::XmlParser::parse_str(xml)?;
         // Basic parsing - store XML for now
         Ok(ChartPart {
             path: "ppt/charts/chart1.xml".to_string(),
diff --git a/src/parts/slide.rs b/src/parts/slide.rs
index 1dffcf1..f1fe573 100644
--- a/src/parts/slide.rs
+++ b/src/parts/slide.rs
@@ -55,6 +55,7 @@ impl SlidePart {
     /// Set content
     pub fn set_content(&mut self, content: SlideContent) {
         self.content = Some(content);
+        self.parsed = None;
         self.xml_content = None; // Clear cached XML
     }
 
-- 
2.43.0


From f7c02e44e85b5aad47c7e462c63f81cd6e54134d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:33 +0000
Subject: [PATCH 115/140] fix: refuse merge regions beyond the largest index
 instead of overflowing

---
 src/generator/slide_content/table_merge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/table_merge.rs b/src/generator/slide_content/table_merge.rs
index 2719d41..8b410e2 100644
--- a/src/generator/slide_content/table_merge.rs
+++ b/src/generator/slide_content/table_merge.rs
@@ -23,12 +23,12 @@ impl MergeRegion {
 
     /// Last row index (inclusive)
     pub fn last_row(&self) -> usize {
-        self.row + self.row_span - 1
+        self.row.saturating_add(self.row_span - 1)
     }
 
     /// Last column index (inclusive)
     pub fn last_col(&self) -> usize {
-        self.col + self.col_span - 1
+        self.col.saturating_add(self.col_span - 1)
     }
 
     /// Check if a cell (r, c) is inside this merge region
-- 
2.43.0


From 863d206b5f2746b4c72fa4dc508e480ffa477c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:34 +0000
Subject: [PATCH 116/140] fix: do not overflow on sections of extreme length

---
 src/generator/slide_content/sections.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index cc34795..0c9c19a 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -26,13 +26,13 @@ impl SlideSection {
         if self.slide_count == 0 {
             self.first_slide
         } else {
-            self.first_slide + self.slide_count - 1
+            self.first_slide.saturating_add(self.slide_count - 1)
         }
     }
 
     /// Check if a slide index belongs to this section
     pub fn contains_slide(&self, slide_index: usize) -> bool {
-        slide_index >= self.first_slide && slide_index < self.first_slide + self.slide_count
+        slide_index >= self.first_slide && slide_index - self.first_slide < self.slide_count
     }
 }
 
@@ -152,7 +152,8 @@ fn sections_overlap(a: &SlideSection, b: &SlideSection) -> bool {
     if a.slide_count == 0 || b.slide_count == 0 {
         return false;
     }
-    a.first_slide < b.first_slide + b.slide_count && b.first_slide < a.first_slide + a.slide_count
+    a.first_slide < b.first_slide.saturating_add(b.slide_count)
+        && b.first_slide < a.first_slide.saturating_add(a.slide_count)
 }
 
 /// Generate a deterministic GUID-like ID from a section name
-- 
2.43.0


From 581f92e16193493fd567d7afb5021d92e955e085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:36 +0000
Subject: [PATCH 117/140] fix: give sections of the same name different ids

---
 src/generator/slide_content/sections.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0c9c19a..8fe016e 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -3,6 +3,8 @@
 //! Provides section management for grouping slides into logical sections.
 //! Generates proper OOXML `<p:extLst>` section data in presentation.xml.
 
+use std::collections::HashSet;
+
 /// A section that groups consecutive slides
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub struct SlideSection {
@@ -125,11 +127,19 @@ impl SectionManager {
             r#"<p:extLst><p:ext uri="{521415D9-36F7-43E2-AB2F-B90AF26B5E84}"><p14:sectionLst xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main">"#,
         );
 
+        let mut used_ids = HashSet::new();
         for section in &self.sections {
+            // Sections may share a name, but not an id
+            let mut id = generate_section_id(&section.name);
+            let mut copy = 2;
+            while !used_ids.insert(id.clone()) {
+                id = generate_section_id(&format!("{}\n{}", section.name, copy));
+                copy += 1;
+            }
             xml.push_str(&format!(
                 r#"<p14:section name="{}" id="{{{}}}">"#,
                 xml_escape(&section.name),
-                generate_section_id(&section.name),
+                id,
             ));
             xml.push_str("<p14:sldIdLst>");
             for i in 0..section.slide_count {
-- 
2.43.0


From 831381c2a6d1390397f3189f6ab52ba0dd014e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:37 +0000
Subject: [PATCH 118/140] fix: number added comments after those already there

---
 src/generator/slide_content/comments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 1b47c36..9ced733 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -178,7 +178,7 @@ impl SlideComments {
 
     /// Add a comment with auto-incrementing index
     pub fn add_comment(&mut self, author_id: u32, text: &str, x: u32, y: u32) {
-        let idx = self.comments.len() as u32 + 1;
+        let idx = self.comments.iter().map(|c| c.index).max().unwrap_or(0).saturating_add(1);
         self.comments.push(
             Comment::new(author_id, text)
                 .position(x, y)
-- 
2.43.0


From 01fbab134aa64d07466383558689759c616c4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:39 +0000
Subject: [PATCH 119/140] fix: write strikethrough, sub- and superscript and
 highlight of text runs

---
 src/generator/text/run.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/generator/text/run.rs b/src/generator/text/run.rs
index 980c59b..93e050c 100644
--- a/src/generator/text/run.rs
+++ b/src/generator/text/run.rs
@@ -68,18 +68,28 @@ impl Run {
         let bold = if self.format.bold { "1" } else { "0" };
         let italic = if self.format.italic { "1" } else { "0" };
         let underline = if self.format.underline { " u=\"sng\"" } else { "" };
-        
+        let strike = if self.format.strikethrough { " strike=\"sngStrike\"" } else { "" };
+        let baseline = if self.format.subscript {
+            " baseline=\"-25000\""
+        } else if self.format.superscript {
+            " baseline=\"30000\""
+        } else {
+            ""
+        };
+
         let color_xml = self.format.color.as_ref()
             .map(|c| format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, c))
             .unwrap_or_default();
         
+        let highlight_xml = self.format.to_highlight_xml();
+
         let font_xml = self.format.font_family.as_ref()
             .map(|f| format!(r#"<a:latin typeface="{}"/>"#, escape_xml(f)))
             .unwrap_or_default();
 
         format!(
-            r#"<a:r><a:rPr lang="en-US" sz="{}" b="{}" i="{}"{} dirty="0">{}{}</a:rPr><a:t>{}</a:t></a:r>"#,
-            size, bold, italic, underline, color_xml, font_xml, escape_xml(&self.text)
+            r#"<a:r><a:rPr lang="en-US" sz="{}" b="{}" i="{}"{}{}{} dirty="0">{}{}{}</a:rPr><a:t>{}</a:t></a:r>"#,
+            size, bold, italic, underline, strike, baseline, color_xml, highlight_xml, font_xml, escape_xml(&self.text)
         )
     }
 }
-- 
2.43.0


From eba8215577b43222c053434d7ccd2c8491cb0021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:40 +0000
Subject: [PATCH 120/140] fix: escape the language of right-to-left text
 properties

---
 src/generator/text/rtl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/text/rtl.rs b/src/generator/text/rtl.rs
index 894dab9..cda8f43 100644
--- a/src/generator/text/rtl.rs
+++ b/src/generator/text/rtl.rs
@@ -126,7 +126,7 @@ impl RtlTextProps {
     pub fn to_rpr_xml_attrs(&self) -> String {
         let mut attrs = String::new();
         if let Some(ref lang) = self.language {
-            attrs.push_str(&format!(r#" lang="{lang}""#));
+            attrs.push_str(&format!(r#" lang="{}""#, super::escape_xml(lang)));
         }
         attrs
     }
-- 
2.43.0


From 652e779389067d8d1e392e5992b659f7efec9628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:41 +0000
Subject: [PATCH 121/140] fix: write fill before font in inline code runs as
 the schema demands

---
 src/generator/slide/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide/formatting.rs b/src/generator/slide/formatting.rs
index 95255a3..aef5378 100644
--- a/src/generator/slide/formatting.rs
+++ b/src/generator/slide/formatting.rs
@@ -119,7 +119,7 @@ pub fn generate_rich_text_runs(
         
         if segment.code {
             xml.push_str(&format!(
-                r#"<a:r><a:rPr lang="en-US" sz="{}" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="C7254E"/></a:solidFill></a:rPr><a:t>{}</a:t></a:r>"#,
+                r#"<a:r><a:rPr lang="en-US" sz="{}" dirty="0"><a:solidFill><a:srgbClr val="C7254E"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr><a:t>{}</a:t></a:r>"#,
                 size, escaped_text
             ));
         } else {
-- 
2.43.0


From 2efc380aa755dff0e5ec372a2391ed832317852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:43 +0000
Subject: [PATCH 122/140] fix: keep gradient and rotation angles inside a full
 turn, name the shape gradient path validly

---
 src/generator/gradients.rs  | 4 ++--
 src/generator/shapes.rs     | 2 +-
 src/generator/shapes_xml.rs | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index ff77f5f..10ba066 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -22,7 +22,7 @@ impl GradientType {
             GradientType::Linear => "lin",
             GradientType::Radial => "circle",
             GradientType::Rectangular => "rect",
-            GradientType::Path => "path",
+            GradientType::Path => "shape",
         }
     }
 }
@@ -50,7 +50,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,
             GradientDirection::DiagonalDown => 2700000,
             GradientDirection::DiagonalUp => 18900000,
-            GradientDirection::Custom(deg) => deg * 60000,
+            GradientDirection::Custom(deg) => deg % 360 * 60000,
         }
     }
 }
diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index f7eb01d..97f0aa8 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -447,7 +447,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,      // 90 * 60000
             GradientDirection::DiagonalDown => 2700000,  // 45 * 60000
             GradientDirection::DiagonalUp => 18900000,   // 315 * 60000
-            GradientDirection::Angle(deg) => deg * 60000,
+            GradientDirection::Angle(deg) => deg % 360 * 60000,
         }
     }
 }
diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index d2aa263..dc3f9c2 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -19,7 +19,7 @@ pub fn generate_shape_xml(shape: &Shape, shape_id: u32) -> String {
     let text_xml = generate_text_xml_with_autofit(&shape.text, shape.width, shape.height, fill_color);
     
     let rot_attr = if let Some(rot) = shape.rotation {
-        format!(r#" rot="{}""#, rot * 60000)
+        format!(r#" rot="{}""#, rot % 360 * 60000)
     } else {
         String::new()
     };
-- 
2.43.0


From 45fdd087b2d2e064aed837f26bd04db2565b2fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:44 +0000
Subject: [PATCH 123/140] fix: flip stand-alone connectors that run left or up

---
 src/generator/shapes_xml.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index dc3f9c2..53d6e00 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -440,6 +440,9 @@ pub fn generate_connector_xml(
     color: &str,
     width: u32,
 ) -> String {
+    let flip_h = if end_x < start_x { r#" flipH="1""# } else { "" };
+    let flip_v = if end_y < start_y { r#" flipV="1""# } else { "" };
+
     format!(
         r#"<p:cxnSp>
 <p:nvCxnSpPr>
@@ -448,7 +451,7 @@ pub fn generate_connector_xml(
 <p:nvPr/>
 </p:nvCxnSpPr>
 <p:spPr>
-<a:xfrm>
+<a:xfrm{}{}>
 <a:off x="{}" y="{}"/>
 <a:ext cx="{}" cy="{}"/>
 </a:xfrm>
@@ -465,6 +468,8 @@ pub fn generate_connector_xml(
 </p:cxnSp>"#,
         shape_id,
         shape_id,
+        flip_h,
+        flip_v,
         start_x.min(end_x),
         start_y.min(end_y),
         (end_x as i64 - start_x as i64).unsigned_abs() as u32,
-- 
2.43.0


From c3dcfb3cfa1469b48a79d677284c48682fdc2bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:45 +0000
Subject: [PATCH 124/140] fix: show the given poster picture of a video

---
 src/generator/media.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/media.rs b/src/generator/media.rs
index dc4b1a4..a3a357b 100644
--- a/src/generator/media.rs
+++ b/src/generator/media.rs
@@ -362,7 +362,7 @@ impl Audio {
 }
 
 /// Generate video XML for slide
-pub fn generate_video_xml(video: &Video, shape_id: usize, video_r_id: &str, _image_r_id: &str) -> String {
+pub fn generate_video_xml(video: &Video, shape_id: usize, video_r_id: &str, image_r_id: &str) -> String {
     let alt_text = video.alt_text.as_deref().unwrap_or("Video");
 
     format!(
@@ -400,7 +400,7 @@ pub fn generate_video_xml(video: &Video, shape_id: usize, video_r_id: &str, _ima
 </p:spPr>
 </p:pic>"#,
         shape_id, shape_id, escape_xml(alt_text),
-        video_r_id, video_r_id, video_r_id,
+        video_r_id, video_r_id, image_r_id,
         video.x, video.y, video.width, video.height
     )
 }
-- 
2.43.0


From b99154f0a531f308133edf89b56e8a6b25f79f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:59 +0000
Subject: [PATCH 125/140] fix: take the text sizes of the layout generators as
 points

---
 src/generator/layouts/centered_title.rs | 2 +-
 src/generator/layouts/title_content.rs  | 8 ++++----
 src/generator/layouts/title_only.rs     | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/generator/layouts/centered_title.rs b/src/generator/layouts/centered_title.rs
index e89ca06..fc83f02 100644
--- a/src/generator/layouts/centered_title.rs
+++ b/src/generator/layouts/centered_title.rs
@@ -12,7 +12,7 @@ pub struct CenteredTitleLayout;
 impl CenteredTitleLayout {
     /// Generate centered title slide XML
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(TITLE_FONT_SIZE / 100 * 100);
+        let title_size = content.title_size.map_or(TITLE_FONT_SIZE, |points| points * 100);
         let title_props = generate_text_props(
             title_size,
             content.title_bold,
diff --git a/src/generator/layouts/title_content.rs b/src/generator/layouts/title_content.rs
index 2507278..3f07220 100644
--- a/src/generator/layouts/title_content.rs
+++ b/src/generator/layouts/title_content.rs
@@ -16,8 +16,8 @@ pub struct TitleContentLayout;
 impl TitleContentLayout {
     /// Generate title and content slide XML
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(TITLE_FONT_SIZE / 100 * 100);
-        let content_size = content.content_size.unwrap_or(CONTENT_FONT_SIZE / 100 * 100);
+        let title_size = content.title_size.map_or(TITLE_FONT_SIZE, |points| points * 100);
+        let content_size = content.content_size.map_or(CONTENT_FONT_SIZE, |points| points * 100);
 
         let title_props = generate_text_props(
             title_size,
@@ -119,8 +119,8 @@ pub struct TitleBigContentLayout;
 impl TitleBigContentLayout {
     /// Generate title and big content slide XML
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(TITLE_FONT_SIZE / 100 * 100);
-        let content_size = content.content_size.unwrap_or(CONTENT_FONT_SIZE / 100 * 100);
+        let title_size = content.title_size.map_or(TITLE_FONT_SIZE, |points| points * 100);
+        let content_size = content.content_size.map_or(CONTENT_FONT_SIZE, |points| points * 100);
 
         let title_props = generate_text_props(
             title_size,
diff --git a/src/generator/layouts/title_only.rs b/src/generator/layouts/title_only.rs
index 1919631..146554c 100644
--- a/src/generator/layouts/title_only.rs
+++ b/src/generator/layouts/title_only.rs
@@ -12,7 +12,7 @@ pub struct TitleOnlyLayout;
 impl TitleOnlyLayout {
     /// Generate title-only slide XML
     pub fn generate(content: &SlideContent) -> String {
-        let title_size = content.title_size.unwrap_or(TITLE_FONT_SIZE / 100 * 100);
+        let title_size = content.title_size.map_or(TITLE_FONT_SIZE, |points| points * 100);
         let title_props = generate_text_props(
             title_size,
             content.title_bold,
-- 
2.43.0


From 23819f7d578908a38f6a2c22d5d6c035c2a375a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:49 +0000
Subject: [PATCH 126/140] fix: list only the slides there are of sections of
 extreme length

---
 src/generator/slide_content/sections.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 8fe016e..28e646c 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -142,11 +142,9 @@ impl SectionManager {
                 id,
             ));
             xml.push_str("<p14:sldIdLst>");
-            for i in 0..section.slide_count {
-                let slide_id = 256 + section.first_slide + i;
-                if section.first_slide + i < total_slides {
-                    xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, slide_id));
-                }
+            let end = section.first_slide.saturating_add(section.slide_count).min(total_slides);
+            for index in section.first_slide..end {
+                xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, 256 + index));
             }
             xml.push_str("</p14:sldIdLst>");
             xml.push_str("</p14:section>");
-- 
2.43.0


From b687058e230aad9d07255b15b2c79697541ca0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:33 +0000
Subject: [PATCH 127/140] fix: show one unit for the image size of a package
 summary

---
 src/opc/compress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index d91550f..d663602 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -527,7 +527,7 @@ impl PptxAnalysis {
         format!(
             "PPTX Analysis:\n\
             - Total size: {}\n\
-            - Images: {} ({} MB)\n\
+            - Images: {} ({})\n\
             - Slides: {}\n\
             - XML data: {}\n\
             - Other media: {} files ({})",
-- 
2.43.0


From 05e26b65012817a992958b2d046ff1219ddbb5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:58 +0000
Subject: [PATCH 128/140] fix: embed the data of a chart in its workbook

---
 src/generator/builder.rs          |   4 +-
 src/generator/charts/embedding.rs | 101 ++++++++++++++++++++++++++++++
 src/generator/charts/mod.rs       |   2 +-
 src/generator/charts/xml.rs       |  16 +----
 4 files changed, 107 insertions(+), 16 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 0a29705..a53e3b9 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -32,7 +32,7 @@ use super::notes_xml::*;
 use crate::generator::presentation_theme::office_theme_xml;
 use crate::generator::charts::{
     chart_embedding_filename, create_chart_rels_xml, generate_chart_part_xml,
-    reference_workbook_bytes,
+    chart_workbook_bytes,
 };
 use crate::generator::slide_content::print_settings::PrintWhat;
 use crate::generator::slide_content::presentation_settings::PresentationSettings;
@@ -1048,7 +1048,7 @@ fn write_chart_package<W: Write + Seek>(
     zip.write_all(rels_xml.as_bytes())?;
 
     zip.start_file(format!("ppt/embeddings/{embedding_name}"), *options)?;
-    zip.write_all(reference_workbook_bytes())?;
+    zip.write_all(&chart_workbook_bytes(chart)?)?;
     Ok(())
 }
 
diff --git a/src/generator/charts/embedding.rs b/src/generator/charts/embedding.rs
index 14856ed..4925a8c 100644
--- a/src/generator/charts/embedding.rs
+++ b/src/generator/charts/embedding.rs
@@ -1,5 +1,15 @@
 //! Embedded Excel workbook for chart data (PowerPoint requires package link).
 
+use std::io::{Cursor, Write};
+
+use zip::write::FileOptions;
+use zip::{ZipArchive, ZipWriter};
+
+use super::data::Chart;
+use super::escape_xml;
+use super::types::ChartType;
+use crate::exc::Result;
+
 /// Filename for the embedded workbook associated with a chart part.
 pub fn chart_embedding_filename(chart_idx: usize) -> String {
     format!("Microsoft_Excel_Sheet{chart_idx}.xlsx")
@@ -19,3 +29,94 @@ pub fn create_chart_rels_xml(embedding_filename: &str) -> String {
 pub fn reference_workbook_bytes() -> &'static [u8] {
     include_bytes!("../reference_chart_embedding.xlsx")
 }
+
+/// Workbook holding the data of a chart in the cells the chart part refers to: categories (or
+/// x values) in column A, then a column for each series and, for bubbles, one for its sizes.
+pub fn chart_workbook_bytes(chart: &Chart) -> Result<Vec<u8>> {
+    let mut reference = ZipArchive::new(Cursor::new(reference_workbook_bytes()))?;
+    let mut workbook = ZipWriter::new(Cursor::new(Vec::new()));
+    for idx in 0..reference.len() {
+        let mut part = reference.by_index(idx)?;
+        let name = part.name().to_string();
+        workbook.start_file(name.as_str(), FileOptions::default())?;
+        if name == "xl/worksheets/sheet1.xml" {
+            workbook.write_all(create_worksheet_xml(chart).as_bytes())?;
+        } else {
+            std::io::copy(&mut part, &mut workbook)?;
+        }
+    }
+    Ok(workbook.finish()?.into_inner())
+}
+
+fn create_worksheet_xml(chart: &Chart) -> String {
+    let numeric_x = uses_numeric_x(chart);
+    let value_rows = chart.series.iter().map(|s| s.values.len()).max().unwrap_or(0);
+    let rows = if numeric_x { value_rows } else { value_rows.max(chart.categories.len()) };
+
+    let mut xml = String::from(
+        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main"><sheetData><row r="1">"#,
+    );
+    for (idx, series) in chart.series.iter().enumerate() {
+        push_text_cell(&mut xml, &series_column(idx), 1, &series.name);
+    }
+    xml.push_str("</row>");
+    for i in 0..rows {
+        let row = i + 2;
+        xml.push_str(&format!(r#"<row r="{row}">"#));
+        if numeric_x {
+            push_number_cell(&mut xml, "A", row, (i + 1) as f64);
+        } else if let Some(category) = chart.categories.get(i) {
+            push_text_cell(&mut xml, "A", row, category);
+        }
+        for (idx, series) in chart.series.iter().enumerate() {
+            if let Some(value) = series.values.get(i) {
+                push_number_cell(&mut xml, &series_column(idx), row, *value);
+            }
+        }
+        if chart.chart_type == ChartType::Bubble {
+            for (idx, series) in chart.series.iter().enumerate() {
+                if let Some(value) = series.values.get(i) {
+                    push_number_cell(&mut xml, &size_column(chart, idx), row, value.abs());
+                }
+            }
+        }
+        xml.push_str("</row>");
+    }
+    xml.push_str("</sheetData></worksheet>");
+    xml
+}
+
+fn uses_numeric_x(chart: &Chart) -> bool {
+    matches!(
+        chart.chart_type,
+        ChartType::Scatter | ChartType::ScatterLines | ChartType::ScatterSmooth | ChartType::Bubble
+    )
+}
+
+fn push_text_cell(xml: &mut String, column: &str, row: usize, text: &str) {
+    xml.push_str(&format!(
+        r#"<c r="{column}{row}" t="inlineStr"><is><t xml:space="preserve">{}</t></is></c>"#,
+        escape_xml(text)
+    ));
+}
+
+fn push_number_cell(xml: &mut String, column: &str, row: usize, value: f64) {
+    xml.push_str(&format!(r#"<c r="{column}{row}"><v>{value}</v></c>"#));
+}
+
+/// Spreadsheet column holding the values of series `idx` (series 0 is column B)
+pub(super) fn series_column(idx: usize) -> String {
+    let mut n = idx + 2;
+    let mut letters = Vec::new();
+    while n > 0 {
+        letters.push((b'A' + ((n - 1) % 26) as u8) as char);
+        n = (n - 1) / 26;
+    }
+    letters.into_iter().rev().collect()
+}
+
+/// Spreadsheet column holding the bubble sizes of series `idx`, after the values of all series
+pub(super) fn size_column(chart: &Chart, idx: usize) -> String {
+    series_column(chart.series.len() + idx)
+}
diff --git a/src/generator/charts/mod.rs b/src/generator/charts/mod.rs
index 1f17701..1cb3bcf 100644
--- a/src/generator/charts/mod.rs
+++ b/src/generator/charts/mod.rs
@@ -16,7 +16,7 @@ pub use types::ChartType;
 pub use data::{Chart, ChartSeries};
 pub use builder::ChartBuilder;
 pub use embedding::{
-    chart_embedding_filename, create_chart_rels_xml, reference_workbook_bytes,
+    chart_embedding_filename, chart_workbook_bytes, create_chart_rels_xml, reference_workbook_bytes,
 };
 pub use xml::{generate_chart_part_xml, generate_chart_ref_xml};
 pub(crate) use crate::core::escape_xml;
diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 708e734..4c93913 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -2,6 +2,7 @@
 
 use super::types::ChartType;
 use super::data::Chart;
+use super::embedding::{series_column, size_column};
 use super::escape_xml;
 
 /// Generate chart XML content (for ppt/charts/chartN.xml)
@@ -109,17 +110,6 @@ fn chart_part_footer() -> &'static str {
 </c:chartSpace>"#
 }
 
-/// Spreadsheet column holding the values of series `idx` (series 0 is column B)
-fn series_column(idx: usize) -> String {
-    let mut n = idx + 2;
-    let mut letters = Vec::new();
-    while n > 0 {
-        letters.push((b'A' + ((n - 1) % 26) as u8) as char);
-        n = (n - 1) / 26;
-    }
-    letters.into_iter().rev().collect()
-}
-
 /// Generate series data XML
 fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
     let column = series_column(idx);
@@ -622,11 +612,11 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 </c:yVal>
 <c:bubbleSize>
 <c:numRef>
-<c:f>Sheet1!$C$2:$C${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>
 <c:ptCount val="{}"/>"#,
-            1 + series.values.len(), series.values.len()
+            size_column(chart, idx), size_column(chart, idx), 1 + series.values.len(), series.values.len()
         ));
 
         // Bubble sizes (use values as sizes)
-- 
2.43.0


From 765db3b767aa9f10d2278bddef7667794410d85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:58 +0000
Subject: [PATCH 129/140] fix: draw markers, lines and curves as the chart type
 says

---
 src/generator/charts/xml.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 4c93913..db27fb4 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -126,11 +126,19 @@ fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[
 <c:pt idx="0"><c:v>{}</c:v></c:pt>
 </c:strCache>
 </c:strRef>
-</c:tx>
+</c:tx>"#,
+        idx, idx, column, escape_xml(series_name)
+    );
+
+    // Line charts draw markers unless told not to
+    if matches!(chart.chart_type, ChartType::Line | ChartType::LineStacked) {
+        xml.push_str("\n<c:marker><c:symbol val=\"none\"/></c:marker>");
+    }
+    xml.push_str(
+        r#"
 <c:dLbls>
 <c:showVal val="0"/>
 </c:dLbls>"#,
-        idx, idx, column, escape_xml(series_name)
     );
 
     xml.push_str(&generate_category_data(chart));
@@ -286,6 +294,9 @@ fn generate_line_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
+    if chart.chart_type.has_markers() {
+        xml.push_str("<c:marker val=\"1\"/>");
+    }
     xml.push_str(AXIS_IDS);
     xml.push_str("</c:lineChart>");
     xml.push_str(&generate_category_axis("b"));
@@ -463,6 +474,13 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
     xml.push_str(&format!(r#"<c:scatterChart>
 <c:scatterStyle val="{}"/>"#, scatter_style));
 
+    // The points are connected unless the line is taken away
+    let line = if chart.chart_type == ChartType::Scatter {
+        "\n<c:spPr><a:ln><a:noFill/></a:ln></c:spPr>"
+    } else {
+        ""
+    };
+
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&format!(
             r#"
@@ -477,14 +495,14 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:pt idx="0"><c:v>{}</c:v></c:pt>
 </c:strCache>
 </c:strRef>
-</c:tx>
+</c:tx>{}
 <c:xVal>
 <c:numRef>
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>
 <c:ptCount val="{}"/>"#,
-            idx, idx, series_column(idx), escape_xml(&series.name), 1 + series.values.len(), series.values.len()
+            idx, idx, series_column(idx), escape_xml(&series.name), line, 1 + series.values.len(), series.values.len()
         ));
 
         // X values (use index as X)
@@ -526,9 +544,9 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
             r#"
 </c:numCache>
 </c:numRef>
-</c:yVal>
-</c:ser>"#
+</c:yVal>"#
         );
+        xml.push_str(&format!("\n<c:smooth val=\"{}\"/>\n</c:ser>", u8::from(chart.chart_type.is_smooth())));
     }
 
     xml.push_str(AXIS_IDS);
-- 
2.43.0


From 24c5c01524d12640537db01bd80e342dd7560621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:18 +0000
Subject: [PATCH 130/140] fix: leave a gap for chart values that are no number

---
 src/generator/charts/embedding.rs |  3 +++
 src/generator/charts/xml.rs       | 17 +++++++++++------
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/generator/charts/embedding.rs b/src/generator/charts/embedding.rs
index 4925a8c..6001049 100644
--- a/src/generator/charts/embedding.rs
+++ b/src/generator/charts/embedding.rs
@@ -102,6 +102,9 @@ fn push_text_cell(xml: &mut String, column: &str, row: usize, text: &str) {
 }
 
 fn push_number_cell(xml: &mut String, column: &str, row: usize, value: f64) {
+    if !value.is_finite() {
+        return;
+    }
     xml.push_str(&format!(r#"<c r="{column}{row}"><v>{value}</v></c>"#));
 }
 
diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index db27fb4..f8cdb5e 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -154,7 +154,7 @@ fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[
         column, column, 1 + values.len(), values.len()
     ));
 
-    for (i, value) in values.iter().enumerate() {
+    for (i, value) in points(values) {
         xml.push_str(&format!(
             r#"
 <c:pt idx="{}">
@@ -175,6 +175,11 @@ fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[
     xml
 }
 
+/// The points of a series to write; a value that is no finite number leaves a gap
+fn points(values: &[f64]) -> impl Iterator<Item = (usize, &f64)> {
+    values.iter().enumerate().filter(|(_, value)| value.is_finite())
+}
+
 /// Generate the category labels of one series
 fn generate_category_data(chart: &Chart) -> String {
     let mut xml = format!(
@@ -350,7 +355,7 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
             series.values.len()
         ));
 
-        for (idx, value) in series.values.iter().enumerate() {
+        for (idx, value) in points(&series.values) {
             xml.push_str(&format!(
                 r#"
 <c:pt idx="{}">
@@ -419,7 +424,7 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
             series.values.len()
         ));
 
-        for (idx, value) in series.values.iter().enumerate() {
+        for (idx, value) in points(&series.values) {
             xml.push_str(&format!(
                 r#"
 <c:pt idx="{}">
@@ -530,7 +535,7 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
             series_column(idx), series_column(idx), 1 + series.values.len(), series.values.len()
         ));
 
-        for (i, value) in series.values.iter().enumerate() {
+        for (i, value) in points(&series.values) {
             xml.push_str(&format!(
                 r#"
 <c:pt idx="{}">
@@ -613,7 +618,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
             series_column(idx), series_column(idx), 1 + series.values.len(), series.values.len()
         ));
 
-        for (i, value) in series.values.iter().enumerate() {
+        for (i, value) in points(&series.values) {
             xml.push_str(&format!(
                 r#"
 <c:pt idx="{}">
@@ -638,7 +643,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
         ));
 
         // Bubble sizes (use values as sizes)
-        for (i, value) in series.values.iter().enumerate() {
+        for (i, value) in points(&series.values) {
             xml.push_str(&format!(
                 r#"
 <c:pt idx="{}">
-- 
2.43.0


From 9f623224df565c076220fe4f722a60df01ea4e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:35 +0000
Subject: [PATCH 131/140] fix: write the same workbook for the same chart at
 any time

---
 src/generator/charts/embedding.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generator/charts/embedding.rs b/src/generator/charts/embedding.rs
index 6001049..d544e34 100644
--- a/src/generator/charts/embedding.rs
+++ b/src/generator/charts/embedding.rs
@@ -38,7 +38,9 @@ pub fn chart_workbook_bytes(chart: &Chart) -> Result<Vec<u8>> {
     for idx in 0..reference.len() {
         let mut part = reference.by_index(idx)?;
         let name = part.name().to_string();
-        workbook.start_file(name.as_str(), FileOptions::default())?;
+        // Without the current time, the same chart always gives the same workbook
+        let options = FileOptions::default().last_modified_time(zip::DateTime::default());
+        workbook.start_file(name.as_str(), options)?;
         if name == "xl/worksheets/sheet1.xml" {
             workbook.write_all(create_worksheet_xml(chart).as_bytes())?;
         } else {
-- 
2.43.0


From 31f501ec7096aabca58967b465c8fc62ec55979f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:37 +0000
Subject: [PATCH 132/140] fix: create no directories for a presentation that
 cannot be made

---
 src/cli/commands.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cli/commands.rs b/src/cli/commands.rs
index 6a7ab48..4910708 100644
--- a/src/cli/commands.rs
+++ b/src/cli/commands.rs
@@ -17,14 +17,6 @@ impl CreateCommand {
         slides: usize,
         template: Option<&str>,
     ) -> Result<(), String> {
-        // Create output directory if needed
-        if let Some(parent) = PathBuf::from(output).parent() {
-            if !parent.as_os_str().is_empty() {
-                fs::create_dir_all(parent)
-                    .map_err(|e| format!("Failed to create directory: {e}"))?;
-            }
-        }
-
         let title = title.unwrap_or("Presentation");
 
         let pptx_data = if let Some(template_path) = template {
@@ -39,6 +31,14 @@ impl CreateCommand {
                 .map_err(|e| format!("Failed to generate PPTX: {e}"))?
         };
 
+        // Create output directory if needed
+        if let Some(parent) = PathBuf::from(output).parent() {
+            if !parent.as_os_str().is_empty() {
+                fs::create_dir_all(parent)
+                    .map_err(|e| format!("Failed to create directory: {e}"))?;
+            }
+        }
+
         // Write to file
         fs::write(output, pptx_data).map_err(|e| format!("Failed to write file: {e}"))?;
 
-- 
2.43.0


From 4a0415d8c457ea2c765eb2bb8bcab97b10349ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:39 +0000
Subject: [PATCH 133/140] fix: write narration and timings of a show where the
 schema defaults differ

---
 src/generator/slide_content/slide_show_settings.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/slide_content/slide_show_settings.rs b/src/generator/slide_content/slide_show_settings.rs
index 3fff7db..bc7b19f 100644
--- a/src/generator/slide_content/slide_show_settings.rs
+++ b/src/generator/slide_content/slide_show_settings.rs
@@ -132,14 +132,19 @@ impl SlideShowSettings {
         if self.loop_continuously {
             attrs.push(r#"loop="1""#.to_string());
         }
+        // The schema leaves narration out and uses timings unless told otherwise
         if self.show_without_narration {
             attrs.push(r#"showNarration="0""#.to_string());
+        } else {
+            attrs.push(r#"showNarration="1""#.to_string());
         }
         if self.show_without_animation {
             attrs.push(r#"showAnimation="0""#.to_string());
         }
         if self.use_timings {
             attrs.push(r#"useTimings="1""#.to_string());
+        } else {
+            attrs.push(r#"useTimings="0""#.to_string());
         }
 
         let attrs_str = if attrs.is_empty() {
-- 
2.43.0


From dfdce892b27d1e083503f7cc1b149cedc7a112e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:22:33 +0000
Subject: [PATCH 134/140] fix: leave no temporary files behind when pages are
 rendered, name pictures as documented

---
 src/api.rs | 154 +++++++++++++++++++++++------------------------------
 1 file changed, 67 insertions(+), 87 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index aab3c39..0df4316 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -6,9 +6,59 @@ use crate::exc::{messages, PptxError, Result};
 use crate::export::html::export_to_html;
 use crate::generator::{create_pptx_with_settings, Image, PresentationSettings, PresentationTheme, SlideContent};
 use crate::import::import_pptx;
-use std::path::Path;
+use std::path::{Path, PathBuf};
 use std::process::Command;
 
+/// A directory of its own for temporary files, removed when it goes out of scope
+pub(crate) struct ScratchDir(PathBuf);
+
+impl ScratchDir {
+    pub(crate) fn new(prefix: &str) -> Result<Self> {
+        let dir = std::env::temp_dir().join(format!("{}_{}", prefix, uuid::Uuid::new_v4()));
+        std::fs::create_dir_all(&dir)?;
+        Ok(ScratchDir(dir))
+    }
+
+    pub(crate) fn path(&self) -> &Path {
+        &self.0
+    }
+}
+
+impl Drop for ScratchDir {
+    fn drop(&mut self) {
+        let _ = std::fs::remove_dir_all(&self.0);
+    }
+}
+
+/// Render the pages of a PDF file with pdftoppm; the PNG files in page order.
+fn pdf_to_pngs(pdf: &Path, dir: &Path) -> Result<Vec<PathBuf>> {
+    // pdftoppm -png <pdf_file> <image_prefix>
+    let status = Command::new("pdftoppm")
+        .arg("-png")
+        .arg(pdf)
+        .arg(dir.join("page"))
+        .status()
+        .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
+    if !status.success() {
+        return Err(PptxError::Generic("pdftoppm conversion failed".to_string()));
+    }
+
+    // pdftoppm names files page-1.png ... page-9.png, or page-01.png ... page-10.png
+    let mut pages = Vec::new();
+    for entry in std::fs::read_dir(dir)? {
+        let path = entry?.path();
+        let number = path
+            .file_name()
+            .and_then(|n| n.to_str())
+            .and_then(|n| n.strip_prefix("page-")?.strip_suffix(".png")?.parse::<u32>().ok());
+        if let Some(number) = number {
+            pages.push((number, path));
+        }
+    }
+    pages.sort();
+    Ok(pages.into_iter().map(|(_, path)| path).collect())
+}
+
 /// Represents a PowerPoint presentation
 #[derive(Debug, Clone, Default)]
 pub struct Presentation {
@@ -175,35 +225,18 @@ impl Presentation {
     /// Images will be named `slide-1.png`, `slide-2.png`, etc. in the output directory.
     pub fn save_as_png<P: AsRef<Path>>(&self, output_dir: P) -> Result<()> {
         let output_dir = output_dir.as_ref();
-        if !output_dir.exists() {
-            std::fs::create_dir_all(output_dir)?;
-        }
-
-        // Create temp PDF using pure-Rust pdfrs engine
-        let temp_dir = std::env::temp_dir();
-        let temp_pdf_name = format!("ppt_rs_temp_{}.pdf", uuid::Uuid::new_v4());
-        let temp_pdf_path = temp_dir.join(&temp_pdf_name);
 
         // Convert to PDF first (no LibreOffice needed)
         let bytes = crate::export::slide_render::render_to_pdf_bytes(self)?;
+        let temp_dir = ScratchDir::new("ppt_rs_temp")?;
+        let temp_pdf_path = temp_dir.path().join("slides.pdf");
         std::fs::write(&temp_pdf_path, &bytes)?;
 
-        // Convert PDF to PNGs using pdftoppm
-        // pdftoppm -png <pdf_file> <image_prefix>
-        let prefix = output_dir.join("slide");
-
-        let status = Command::new("pdftoppm")
-            .arg("-png")
-            .arg(&temp_pdf_path)
-            .arg(&prefix)
-            .status()
-            .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
+        let pages = pdf_to_pngs(&temp_pdf_path, temp_dir.path())?;
 
-        // Cleanup temp PDF
-        let _ = std::fs::remove_file(&temp_pdf_path);
-
-        if !status.success() {
-            return Err(PptxError::Generic("pdftoppm conversion failed".to_string()));
+        std::fs::create_dir_all(output_dir)?;
+        for (i, page) in pages.iter().enumerate() {
+            std::fs::copy(page, output_dir.join(format!("slide-{}.png", i + 1)))?;
         }
 
         Ok(())
@@ -221,24 +254,9 @@ impl Presentation {
             )));
         }
 
-        // Create temp dir for images
-        let temp_dir = std::env::temp_dir().join(format!("ppt_rs_import_{}", uuid::Uuid::new_v4()));
-        std::fs::create_dir_all(&temp_dir)?;
-
-        // Convert PDF to PNGs
-        let prefix = temp_dir.join("page");
-
-        let status = Command::new("pdftoppm")
-            .arg("-png")
-            .arg(path)
-            .arg(&prefix)
-            .status()
-            .map_err(|e| PptxError::Generic(format!("Failed to execute pdftoppm: {}", e)))?;
-
-        if !status.success() {
-            let _ = std::fs::remove_dir_all(&temp_dir);
-            return Err(PptxError::Generic("pdftoppm failed".to_string()));
-        }
+        // Convert the pages to PNGs in a temp dir
+        let temp_dir = ScratchDir::new("ppt_rs_import")?;
+        let pages = pdf_to_pngs(path, temp_dir.path())?;
 
         // Read images and create slides
         let mut pres = Presentation::new();
@@ -247,53 +265,15 @@ impl Presentation {
             pres = pres.title(&stem.to_string_lossy());
         }
 
-        // Read dir
-        let mut entries: Vec<_> = std::fs::read_dir(&temp_dir)?
-            .filter_map(|e| e.ok())
-            .collect();
-
-        // Sort by filename to ensure page order
-        // pdftoppm names files like page-1.png, page-2.png... page-10.png
-        // Default string sort might put page-10 before page-2
-        // We need to sort by length then by name, or rely on pdftoppm zero padding (it usually does -01 if needed, but safer to trust number)
-        // pdftoppm default is -1, -2... -10.
-        // So page-1.png, page-10.png, page-2.png.
-        // We need natural sort.
-        entries.sort_by_key(|e| {
-            let name = e.file_name().to_string_lossy().to_string();
-            // Extract number from end
-            // "page-1.png" -> 1
-            if let Some(start) = name.rfind('-')
-                && let Some(end) = name.rfind('.')
-                    && start < end
-                        && let Ok(num) = name[start + 1..end].parse::<u32>() {
-                            return num;
-                        }
-            0 // Fallback
-        });
-
-        for entry in entries {
-            let path = entry.path();
-            if path.extension().is_some_and(|e| e == "png") {
-                // Create slide with full screen image
-                let image = Image::from_path(&path).map_err(PptxError::Generic)?;
-
-                // Add image to slide
-                // Use a default layout?
-                // Just create a slide with this image
-                // We'll center it.
-                // Assuming standard 16:9 slide (10x5.625 inches) -> 9144000 x 5143500 EMU
-                // But we don't know image dimensions here easily without reading it.
-                // Image builder defaults to auto size?
-                // Let's just add it.
-
-                let mut slide = SlideContent::new("");
-                slide.images.push(image);
-                pres = pres.add_slide(slide);
-            }
+        for page in pages {
+            // Create slide with full screen image
+            let image = Image::from_path(&page).map_err(PptxError::Generic)?;
+
+            let mut slide = SlideContent::new("");
+            slide.images.push(image);
+            pres = pres.add_slide(slide);
         }
 
-        let _ = std::fs::remove_dir_all(&temp_dir);
         Ok(pres)
     }
 
-- 
2.43.0


From bd423c97c8f33dcbf34f6f00db42c4796cb30665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:12 +0000
Subject: [PATCH 135/140] fix: keep the pictures of imported PDF pages

---
 src/api.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/api.rs b/src/api.rs
index 0df4316..c6d6a32 100644
--- a/src/api.rs
+++ b/src/api.rs
@@ -4,7 +4,7 @@
 
 use crate::exc::{messages, PptxError, Result};
 use crate::export::html::export_to_html;
-use crate::generator::{create_pptx_with_settings, Image, PresentationSettings, PresentationTheme, SlideContent};
+use crate::generator::{create_pptx_with_settings, Image, ImageSource, PresentationSettings, PresentationTheme, SlideContent};
 use crate::import::import_pptx;
 use std::path::{Path, PathBuf};
 use std::process::Command;
@@ -267,7 +267,9 @@ impl Presentation {
 
         for page in pages {
             // Create slide with full screen image
-            let image = Image::from_path(&page).map_err(PptxError::Generic)?;
+            let mut image = Image::from_path(&page).map_err(PptxError::Generic)?;
+            // The file is gone once the slides are made, so the image holds its bytes
+            image.source = Some(ImageSource::Bytes(std::fs::read(&page)?));
 
             let mut slide = SlideContent::new("");
             slide.images.push(image);
-- 
2.43.0


From 3b84c889a0956c90d6f9934d57395655aed26308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:15 +0000
Subject: [PATCH 136/140] fix: export pictures of the asked slides only,
 through a directory of the call's own

---
 src/export/image_export.rs | 77 ++++++++++++++++++++++----------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/export/image_export.rs b/src/export/image_export.rs
index cd6a79a..695b049 100644
--- a/src/export/image_export.rs
+++ b/src/export/image_export.rs
@@ -5,7 +5,7 @@
 //!
 //! Uses LibreOffice for rendering (same approach as PDF export).
 
-use crate::api::Presentation;
+use crate::api::{Presentation, ScratchDir};
 use crate::exc::{PptxError, Result};
 use std::path::Path;
 use std::process::Command;
@@ -148,21 +148,42 @@ pub fn export_to_images<P: AsRef<Path>>(
     output_dir: P,
     options: &ImageExportOptions,
 ) -> Result<Vec<std::path::PathBuf>> {
-    // First save presentation to temporary PPTX file
-    let temp_dir = std::env::temp_dir();
-    let temp_pptx = temp_dir.join("temp_export.pptx");
-    presentation.save(&temp_pptx)?;
-
     let output_dir = output_dir.as_ref();
-    std::fs::create_dir_all(output_dir)?;
+    let temp_dir = ScratchDir::new("ppt_rs_images")?;
+    let images = render_images(presentation, temp_dir.path(), options)?;
 
-    // Use LibreOffice to convert to images
-    let result = export_pptx_to_images(&temp_pptx, output_dir, options);
+    std::fs::create_dir_all(output_dir)?;
+    let mut paths = Vec::new();
+    for image in images {
+        let path = output_dir.join(image.file_name().unwrap_or_default());
+        std::fs::copy(&image, &path)?;
+        paths.push(path);
+    }
+    Ok(paths)
+}
 
-    // Cleanup temp file
-    let _ = std::fs::remove_file(&temp_pptx);
+/// Render the wanted slides to image files inside a directory of this call's own
+fn render_images(
+    presentation: &Presentation,
+    dir: &Path,
+    options: &ImageExportOptions,
+) -> Result<Vec<std::path::PathBuf>> {
+    if options.slide_number > presentation.slide_count() {
+        return Err(PptxError::InvalidOperation(format!(
+            "Invalid slide number: {} (presentation has {} slides)",
+            options.slide_number,
+            presentation.slide_count()
+        )));
+    }
 
-    result
+    let temp_pptx = dir.join("temp_export.pptx");
+    presentation.save(&temp_pptx)?;
+    let mut images = export_pptx_to_images(&temp_pptx, dir, options)?;
+    if options.slide_number > 0 {
+        // A single image without a number is that of the first slide
+        images.retain(|path| extract_slide_number(path).max(1) == options.slide_number);
+    }
+    Ok(images)
 }
 
 /// Export a specific slide to an image
@@ -183,28 +204,18 @@ pub fn export_slide_to_image<P: AsRef<Path>>(
     let mut slide_options = options.clone();
     slide_options.slide_number = slide_number;
 
-    let output_dir = output_path
-        .as_ref()
-        .parent()
-        .unwrap_or(std::path::Path::new("."));
-
-    let paths = export_to_images(presentation, output_dir, &slide_options)?;
-
-    // Find the specific slide file
-    let expected_name = format!("Slide{}.{}", slide_number, slide_options.format.extension());
-    for path in paths {
-        if let Some(name) = path.file_name().and_then(|n| n.to_str())
-            && (name == expected_name || name.contains(&format!("Slide{}", slide_number))) {
-                // Rename to requested output path if different
-                if path != output_path.as_ref() {
-                    std::fs::rename(&path, &output_path)?;
-                    return Ok(output_path.as_ref().to_path_buf());
-                }
-                return Ok(path);
-            }
-    }
+    let output_path = output_path.as_ref();
+    let temp_dir = ScratchDir::new("ppt_rs_images")?;
+    let images = render_images(presentation, temp_dir.path(), &slide_options)?;
+    let Some(image) = images.first() else {
+        return Err(PptxError::Generic(String::from("Export failed")));
+    };
 
-    Err(PptxError::Generic(String::from("Export failed")))
+    if let Some(parent) = output_path.parent() {
+        std::fs::create_dir_all(parent)?;
+    }
+    std::fs::copy(image, output_path)?;
+    Ok(output_path.to_path_buf())
 }
 
 /// Internal function to export PPTX file to images using LibreOffice
-- 
2.43.0


From 100ca927173c9079c64fd570e5f73266ba4087db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:07 +0000
Subject: [PATCH 137/140] fix: know every colour name of CSS when importing
 HTML

---
 src/import/html.rs | 97 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 97 insertions(+)

diff --git a/src/import/html.rs b/src/import/html.rs
index 65d13af..351e6fb 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -243,6 +243,103 @@ fn css_named_color(name: &str) -> Option<&'static str> {
         "skyblue" => Some("87CEEB"),
         "seagreen" => Some("2E8B57"),
         "forestgreen" => Some("228B22"),
+        "aliceblue" => Some("F0F8FF"),
+        "antiquewhite" => Some("FAEBD7"),
+        "aquamarine" => Some("7FFFD4"),
+        "azure" => Some("F0FFFF"),
+        "beige" => Some("F5F5DC"),
+        "bisque" => Some("FFE4C4"),
+        "blanchedalmond" => Some("FFEBCD"),
+        "blueviolet" => Some("8A2BE2"),
+        "burlywood" => Some("DEB887"),
+        "cadetblue" => Some("5F9EA0"),
+        "chartreuse" => Some("7FFF00"),
+        "cornflowerblue" => Some("6495ED"),
+        "cornsilk" => Some("FFF8DC"),
+        "cyan" => Some("00FFFF"),
+        "darkcyan" => Some("008B8B"),
+        "darkgoldenrod" => Some("B8860B"),
+        "darkkhaki" => Some("BDB76B"),
+        "darkmagenta" => Some("8B008B"),
+        "darkolivegreen" => Some("556B2F"),
+        "darkorchid" => Some("9932CC"),
+        "darksalmon" => Some("E9967A"),
+        "darkseagreen" => Some("8FBC8F"),
+        "darkslateblue" => Some("483D8B"),
+        "darkslategray" | "darkslategrey" => Some("2F4F4F"),
+        "darkturquoise" => Some("00CED1"),
+        "darkviolet" => Some("9400D3"),
+        "deepskyblue" => Some("00BFFF"),
+        "dimgray" | "dimgrey" => Some("696969"),
+        "dodgerblue" => Some("1E90FF"),
+        "firebrick" => Some("B22222"),
+        "floralwhite" => Some("FFFAF0"),
+        "gainsboro" => Some("DCDCDC"),
+        "ghostwhite" => Some("F8F8FF"),
+        "greenyellow" => Some("ADFF2F"),
+        "honeydew" => Some("F0FFF0"),
+        "indianred" => Some("CD5C5C"),
+        "ivory" => Some("FFFFF0"),
+        "khaki" => Some("F0E68C"),
+        "lavender" => Some("E6E6FA"),
+        "lavenderblush" => Some("FFF0F5"),
+        "lawngreen" => Some("7CFC00"),
+        "lemonchiffon" => Some("FFFACD"),
+        "lightblue" => Some("ADD8E6"),
+        "lightcoral" => Some("F08080"),
+        "lightcyan" => Some("E0FFFF"),
+        "lightgoldenrodyellow" => Some("FAFAD2"),
+        "lightgreen" => Some("90EE90"),
+        "lightpink" => Some("FFB6C1"),
+        "lightsalmon" => Some("FFA07A"),
+        "lightseagreen" => Some("20B2AA"),
+        "lightskyblue" => Some("87CEFA"),
+        "lightslategray" | "lightslategrey" => Some("778899"),
+        "lightsteelblue" => Some("B0C4DE"),
+        "lightyellow" => Some("FFFFE0"),
+        "limegreen" => Some("32CD32"),
+        "linen" => Some("FAF0E6"),
+        "magenta" => Some("FF00FF"),
+        "mediumaquamarine" => Some("66CDAA"),
+        "mediumblue" => Some("0000CD"),
+        "mediumorchid" => Some("BA55D3"),
+        "mediumpurple" => Some("9370DB"),
+        "mediumseagreen" => Some("3CB371"),
+        "mediumslateblue" => Some("7B68EE"),
+        "mediumspringgreen" => Some("00FA9A"),
+        "mediumturquoise" => Some("48D1CC"),
+        "mediumvioletred" => Some("C71585"),
+        "midnightblue" => Some("191970"),
+        "mintcream" => Some("F5FFFA"),
+        "mistyrose" => Some("FFE4E1"),
+        "moccasin" => Some("FFE4B5"),
+        "navajowhite" => Some("FFDEAD"),
+        "oldlace" => Some("FDF5E6"),
+        "olivedrab" => Some("6B8E23"),
+        "orangered" => Some("FF4500"),
+        "palegoldenrod" => Some("EEE8AA"),
+        "palegreen" => Some("98FB98"),
+        "paleturquoise" => Some("AFEEEE"),
+        "palevioletred" => Some("DB7093"),
+        "papayawhip" => Some("FFEFD5"),
+        "peachpuff" => Some("FFDAB9"),
+        "peru" => Some("CD853F"),
+        "powderblue" => Some("B0E0E6"),
+        "rebeccapurple" => Some("663399"),
+        "rosybrown" => Some("BC8F8F"),
+        "saddlebrown" => Some("8B4513"),
+        "sandybrown" => Some("F4A460"),
+        "seashell" => Some("FFF5EE"),
+        "sienna" => Some("A0522D"),
+        "slateblue" => Some("6A5ACD"),
+        "slategray" | "slategrey" => Some("708090"),
+        "snow" => Some("FFFAFA"),
+        "springgreen" => Some("00FF7F"),
+        "tan" => Some("D2B48C"),
+        "thistle" => Some("D8BFD8"),
+        "turquoise" => Some("40E0D0"),
+        "whitesmoke" => Some("F5F5F5"),
+        "yellowgreen" => Some("9ACD32"),
         _ => None,
     }
 }
-- 
2.43.0


From 26f1f1870893810d387c18dc38323de17bd9945d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:34 +0000
Subject: [PATCH 138/140] fix: write the charset and pitch of embedded fonts as
 signed bytes

---
 src/generator/slide_content/embedded_fonts.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 16c82e3..f210bde 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -241,8 +241,9 @@ impl EmbeddedFontList {
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
                     xml_escape(typeface),
-                    first.charset.code(),
-                    first.pitch_family,
+                    // Both are signed bytes in the schema
+                    first.charset.code() as i8,
+                    first.pitch_family as i8,
                     panose_attr,
                 ));
             }
-- 
2.43.0


From b7a9e6bfea61329bafdf2663eb7323fdfd2a5939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:15 +0000
Subject: [PATCH 139/140] fix: see master ids that collide with layout ids

---
 src/core/package_validation/rules.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index 3a3100c..7a81194 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -339,8 +339,8 @@ fn check_master_id_uniqueness(
         .collect();
 
     for (tag, label) in [
-        ("notesMasterId", "notes master"),
-        ("handoutMasterId", "handout master"),
+        ("p:notesMasterId", "notes master"),
+        ("p:handoutMasterId", "handout master"),
     ] {
         for id in extract_attr_values(pres, tag, "id") {
             if layout_ids.contains(&id) {
@@ -590,7 +590,7 @@ fn is_slide_part(path: &str) -> bool {
 fn extract_attr_values(xml: &str, element: &str, attr: &str) -> Vec<String> {
     let mut values = Vec::new();
     let needle = format!("<{element}");
-    let attr_needle = format!("{attr}=\"");
+    let attr_needle = format!(" {attr}=\"");
     let mut search_from = 0;
 
     while let Some(start) = xml[search_from..].find(&needle) {
-- 
2.43.0


From f4146b3064790395c92b38f14739f1a2f146f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:10 +0000
Subject: [PATCH 140/140] fix: show no statements of a diagram that only
 describe or style it

---
 src/cli/markdown/mermaid/flowchart.rs | 2 +-
 src/cli/markdown/mermaid/gantt.rs     | 2 ++
 src/cli/markdown/mermaid/mod.rs       | 9 +++++++--
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index faa47a9..83e465d 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -35,7 +35,7 @@ pub fn parse(code: &str) -> Flowchart {
 
     for line in lines {
         let line = line.trim();
-        if line.is_empty() || line.starts_with("%%") {
+        if line.is_empty() || line.starts_with("%%") || line.starts_with("click ") {
             continue;
         }
 
diff --git a/src/cli/markdown/mermaid/gantt.rs b/src/cli/markdown/mermaid/gantt.rs
index 0014fc5..fa8786e 100644
--- a/src/cli/markdown/mermaid/gantt.rs
+++ b/src/cli/markdown/mermaid/gantt.rs
@@ -31,6 +31,8 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         } else if line.contains(':')
             && !line.starts_with("dateFormat")
             && !line.starts_with("axisFormat")
+            && !line.starts_with("todayMarker ")
+            && !line.starts_with("click ")
         {
             if let Some((task_name, _rest)) = line.split_once(':') {
                 let duration = 3u32;
diff --git a/src/cli/markdown/mermaid/mod.rs b/src/cli/markdown/mermaid/mod.rs
index 4275ec5..72040e2 100644
--- a/src/cli/markdown/mermaid/mod.rs
+++ b/src/cli/markdown/mermaid/mod.rs
@@ -34,11 +34,16 @@ pub use types::*;
 
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
-/// The code from the line that declares the diagram type, without comments
+/// The code from the line that declares the diagram type, without comments and
+/// the descriptions for screen readers
 fn without_comments(code: &str) -> String {
+    let is_shown = |line: &str| {
+        let key = line.split_once(':').map_or("", |(key, _)| key.trim());
+        !line.trim_start().starts_with("%%") && !matches!(key, "accTitle" | "accDescr")
+    };
     let lines: Vec<&str> = code
         .lines()
-        .filter(|line| !line.trim_start().starts_with("%%"))
+        .filter(|line| is_shown(line))
         .skip_while(|line| line.trim().is_empty())
         .collect();
     lines.join("\n")
-- 
2.43.0


From 0ca7add0556fa8c35124028f9cce7f1632841894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 1/8] fix: radix digit class accepted one character too many

The digit class was one past the last digit of the base: r10 accepted 'a', r16 and x
accepted 'g', r36 accepted '{'. Such a match could only ever end in a parse error, even
if a shorter match would have succeeded.
---
 sscanf_macro/src/regex_parts.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 8d7db06..7205f14 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -274,10 +274,9 @@ fn regex_from_radix(
     // possible characters for digits
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
-        Less => format!("0-{}", radix - 1),
-        Equal => "0-9a".to_string(),
+        Less | Equal => format!("0-{}", radix - 1),
         Greater => {
-            let last_letter = (b'a' + radix - 10) as char;
+            let last_letter = (b'a' + radix - 11) as char;
             format!("0-9a-{}", last_letter)
         }
     };
-- 
2.43.0


From a0bcd34ee9aa69d2b41c01028aba1ef034e496e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 2/8] fix: radix digits matched non-ASCII letters through
 unicode case folding

The Kelvin sign and the long s are case-insensitively equal to 'k' and 's', so they were
matched as digits in radix 21 and 29 and above, which from_str_radix then rejects.
---
 sscanf_macro/src/regex_parts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 7205f14..1e208e2 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -291,7 +291,7 @@ fn regex_from_radix(
     };
 
     let regex = format!(
-        "(?i:{sign}{prefix}[{digits}]{{1,{n}}})",
+        "(?i-u:{sign}{prefix}[{digits}]{{1,{n}}})",
         sign = sign,
         prefix = prefix_string,
         digits = possible_chars,
-- 
2.43.0


From f4925435154332e454a94a91878ffcf90a5bf865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 3/8] fix: FromScanf::from_str only anchored parts of a regex
 with alternations

---
 src/from_scanf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index 596840f..fbd906a 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -248,7 +248,7 @@ where
     where
         Self: crate::RegexRepresentation,
     {
-        let regex = format!("^{}$", Self::REGEX);
+        let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
         let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-- 
2.43.0


From d6b614239fb07b0ee218f83bb3373cc5152858e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 4/8] fix: autogen included the r# of raw identifiers in the
 format

---
 sscanf_macro/src/derive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5f8d17a..c8f66e3 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,5 +1,7 @@
 use std::collections::{HashMap, HashSet};
 
+use syn::ext::IdentExt;
+
 use crate::*;
 
 pub struct Field {
@@ -432,7 +434,7 @@ pub fn parse_enum(
 Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields or `#[sscanf(skip)]` to skip a variant";
                 return Error::err_spanned(variant.fields, msg); // checked in tests/fail/derive_enum_attributes.rs
             }
-            autogen.create_struct_attr(&variant.ident.to_string(), src.clone())
+            autogen.create_struct_attr(&variant.ident.unraw().to_string(), src.clone())
         } else {
             continue;
         };
-- 
2.43.0


From 8638d5d1b94f625fbc1bd05f00335c655f015b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 5/8] fix: escape sequences in the literal text of a format
 string were not decoded

The format string is parsed from its source text, so "\n", "\"", "\\" and so on in a
non-raw literal matched the backslash and the letter instead of the character.
---
 sscanf_macro/src/format_string.rs | 47 +++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 4f673ca..f44cf96 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -34,6 +34,15 @@ impl<'a> FormatString<'a> {
                 }
             }
 
+            let c = if c == '\\' && !src.is_raw() {
+                match unescape(&mut iter) {
+                    Some(c) => c,
+                    None => continue, // line continuation
+                }
+            } else {
+                c
+            };
+
             if escape_input && regex_syntax::is_meta_character(c) {
                 current_part.push('\\');
             }
@@ -48,3 +57,41 @@ impl<'a> FormatString<'a> {
         })
     }
 }
+
+/// Decodes an escape sequence of a non-raw string literal. The leading `\` is already taken.
+///
+/// Returns `None` for a line continuation (`\` at the end of a line), which is not a character.
+/// Invalid escape sequences don't have to be handled, because the compiler rejects those literals.
+fn unescape<I: Iterator<Item = (usize, char)>>(
+    input: &mut std::iter::Peekable<I>,
+) -> Option<char> {
+    let (_, c) = input.next()?;
+    match c {
+        'n' => Some('\n'),
+        'r' => Some('\r'),
+        't' => Some('\t'),
+        '0' => Some('\0'),
+        'x' | 'u' => {
+            // \xNN or \u{N...}, where the digits of the latter may be separated by '_'
+            let mut digits = String::new();
+            while c == 'u' || digits.len() < 2 {
+                match input.next()?.1 {
+                    '{' | '_' => {}
+                    '}' => break,
+                    digit => digits.push(digit),
+                }
+            }
+            u32::from_str_radix(&digits, 16)
+                .ok()
+                .and_then(std::char::from_u32)
+        }
+        '\n' => {
+            while input
+                .next_if(|(_, c)| matches!(c, ' ' | '\t' | '\n' | '\r'))
+                .is_some()
+            {}
+            None
+        }
+        c => Some(c), // \\, \' and \"
+    }
+}
-- 
2.43.0


From d978853895e787ee299c8538ca9c91e7e200224d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:27 +0000
Subject: [PATCH 6/8] fix: a value given to the skip attribute was silently
 ignored

---
 sscanf_macro/src/attribute/variant.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute/variant.rs b/sscanf_macro/src/attribute/variant.rs
index 50aa6ff..6540385 100644
--- a/sscanf_macro/src/attribute/variant.rs
+++ b/sscanf_macro/src/attribute/variant.rs
@@ -10,7 +10,13 @@ pub enum VariantAttributeKind {
 impl FromAttribute<attr::Variant> for VariantAttributeKind {
     fn from_attribute(attr: Attribute<attr::Variant>, _: ()) -> Result<Self> {
         let struct_kind = match attr.kind {
-            attr::Variant::Skip => return Ok(Self::Skip),
+            attr::Variant::Skip => {
+                if let Some(value) = attr.value.as_ref() {
+                    let msg = format!("attribute `{}` does not take a value", attr.kind);
+                    return Error::err_spanned(value, msg);
+                }
+                return Ok(Self::Skip);
+            }
             attr::Variant::Format => attr::Struct::Format,
             attr::Variant::FormatUnescaped => attr::Struct::FormatUnescaped,
             attr::Variant::Transparent => attr::Struct::Transparent,
-- 
2.43.0


From 8b3164b8fa95625e945d6b78938ebec1fd91f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:25 +0000
Subject: [PATCH 7/8] fix: from and try_from attributes rejected types with
 generic arguments

---
 sscanf_macro/src/attribute.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/attribute.rs b/sscanf_macro/src/attribute.rs
index 768655d..5bba664 100644
--- a/sscanf_macro/src/attribute.rs
+++ b/sscanf_macro/src/attribute.rs
@@ -222,7 +222,7 @@ impl<A: Attr> Attribute<A> {
         }
         let attr = input.parse::<syn::Ident>()?;
         src.extend(quote! { #attr });
-        let kind = find_match(&attr.to_string(), &src)?;
+        let kind: A = find_match(&attr.to_string(), &src)?;
 
         let mut value = None;
         let peek = input.lookahead1();
@@ -236,7 +236,16 @@ impl<A: Attr> Attribute<A> {
                 let msg = "expected an expression after `=`";
                 return Err(syn::Error::new_spanned(eq_sign, msg)); // checked in tests/fail/derive_struct_attributes.rs
             }
-            let expr = input.parse::<syn::Expr>()?;
+            let takes_type = [attr::All::From.as_str(), attr::All::TryFrom.as_str()];
+            let expr = if takes_type.contains(&kind.as_str())
+                && input.fork().parse::<syn::Type>().is_ok()
+            {
+                // types with generics like `Vec<u8>` are not valid expressions
+                let ty = input.parse::<syn::Type>()?;
+                syn::Expr::Verbatim(ty.into_token_stream())
+            } else {
+                input.parse::<syn::Expr>()?
+            };
             src.extend(quote! { #eq_sign #expr });
             value = Some(expr);
         }
-- 
2.43.0


From b01b12920c9cdb3810aa757d49c46ea7bd31e9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:28 +0000
Subject: [PATCH 8/8] fix: a suffix of the format literal was taken for a part
 of its text

---
 sscanf_macro/src/str_lit.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 46c1f81..5c2ff02 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -42,16 +42,10 @@ impl StrLit {
         let quote_position = self.text.find('"').unwrap();
         let prefix_length = quote_position + '"'.len_utf8();
 
-        let suffix_length = if prefix_length > 1 {
-            // raw strings have a suffix of the same length as the prefix, but without the 'r'
-            prefix_length - 'r'.len_utf8()
-        } else {
-            // non-raw strings only have the " suffix
-            '"'.len_utf8()
-        };
-
+        // the last quote is the closing one: it can only be followed by the '#' of a raw string and by
+        // the suffix that a literal may have (as in "..."suffix), neither of which are part of the text
         let start = prefix_length;
-        let end = self.text.len() - suffix_length;
+        let end = self.text.rfind('"').unwrap();
 
         StrLitSlice {
             src: self,
-- 
2.43.0


From 7c2247ceb738b7a2288317e163067d9acad10e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/50] fix: ignore brackets inside strings when splitting
 array and object members

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d379543..54bdc5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -433,19 +433,19 @@ impl Json {
                     }
                     inner.push('\"');
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     inner.push('[');
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     inner.push(']');
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     inner.push('{');
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     inner.push('}');
                 }
@@ -527,7 +527,7 @@ impl Json {
                         v.push('\"');
                     }
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('[');
@@ -535,7 +535,7 @@ impl Json {
                         v.push('[');
                     }
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push(']');
@@ -543,7 +543,7 @@ impl Json {
                         v.push(']');
                     }
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('{');
@@ -551,7 +551,7 @@ impl Json {
                         v.push('{');
                     }
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push('}');
-- 
2.43.0


From ae3a063b4f28a548920cff2b74a2daeb2abb1357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 02/50] fix: reject trailing characters after an empty array or
 object

---
 src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 54bdc5b..bf612fd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -395,7 +395,12 @@ impl Json {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
         if let Some(']') = iter.peek() {
-            return Ok(Json::Array(array));
+            iter.next();
+            return match iter.find(|ch| !is_whitespace(*ch)) {
+                Some(ch) => Err(Error::new(ParseArrayError,
+                                           format!("invalid trailing character: {}.", ch))),
+                None => Ok(Json::Array(array))
+            };
         }
 
         let mut i = 0;
@@ -470,7 +475,12 @@ impl Json {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
         if let Some('}') = iter.peek() {
-            return Ok(Json::Object(object));
+            iter.next();
+            return match iter.find(|ch| !is_whitespace(*ch)) {
+                Some(ch) => Err(Error::new(ParseObjectError,
+                                           format!("invalid trailing character: {}.", ch))),
+                None => Ok(Json::Object(object))
+            };
         }
 
         let mut i = 0;
-- 
2.43.0


From 2515ce894aa3047405a685180f695aa042ea1902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 03/50] fix: accept whitespace inside an empty array or object

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf612fd..0f29d77 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -393,7 +393,7 @@ impl Json {
 
     fn parse_array(json: &str) -> Result<Json, Error> {
         let mut array = Vec::new();
-        let mut iter = json.chars().skip(1).peekable();
+        let mut iter = json.chars().skip(1).skip_while(|ch| is_whitespace(*ch)).peekable();
         if let Some(']') = iter.peek() {
             iter.next();
             return match iter.find(|ch| !is_whitespace(*ch)) {
@@ -473,7 +473,7 @@ impl Json {
 
     fn parse_object(json: &str) -> Result<Json, Error> {
         let mut object = HashMap::new();
-        let mut iter = json.chars().skip(1).peekable();
+        let mut iter = json.chars().skip(1).skip_while(|ch| is_whitespace(*ch)).peekable();
         if let Some('}') = iter.peek() {
             iter.next();
             return match iter.find(|ch| !is_whitespace(*ch)) {
-- 
2.43.0


From 7aead0f4f47478c7db10d156ce9d72ef556dfd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 04/50] fix: do not join tokens separated by whitespace inside
 arrays and objects

---
 src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0f29d77..82d822e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -409,7 +409,7 @@ impl Json {
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -427,7 +427,7 @@ impl Json {
                     if let Some(']') = iter.peek() {
                         return Err(Error::new(ParseArrayError, "invalid trailing comma.".to_string()));
                     }
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     inner.clear();
                 }
                 Some('\"') => {
@@ -462,7 +462,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     inner.push(ch);
                 }
@@ -491,8 +490,8 @@ impl Json {
         loop {
             match iter.next() {
                 Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         loop {
                             match iter.next() {
                                 Some(ch) if is_whitespace(ch) => (),
@@ -513,8 +512,8 @@ impl Json {
                     if let Some('}') = iter.peek() {
                         return Err(Error::new(ParseObjectError, "invalid trailing comma.".to_string()));
                     }
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         k.clear();
                         v.clear();
                         on_key = true;
@@ -587,7 +586,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     if on_key {
                         k.push(ch);
-- 
2.43.0


From 44acd0122fe7f03d1bfb32570208f917728c916a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 05/50] fix: reject repeated colons in an object member

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 82d822e..9f6b01e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -521,7 +521,7 @@ impl Json {
                         return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
                 }
-                Some(':') if i == 0 && j == 0 => {
+                Some(':') if i == 0 && j == 0 && on_key => {
                     on_key = false;
                 }
                 Some('\"') => {
-- 
2.43.0


From 3bd965d25b4030f0835ce9ec8c31ecdface6b75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 06/50] fix: reject numbers with leading zeros

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9f6b01e..d001e23 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -755,7 +755,8 @@ fn valid_number(num: &str) -> bool {
         _ => ()
     }
 
-    true
+    // nothing may follow, e.g. a digit after a leading zero
+    iter.peek().is_none()
 }
 
 #[inline]
-- 
2.43.0


From 1779ea145e79310e3cc326af933a3691eb583b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 07/50] fix: return IndexOutOfRange instead of panicking in
 Json::remove

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d001e23..884e547 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,6 +218,10 @@ impl Json {
     pub fn remove(&mut self, i: usize) -> Result<(), Error> {
         match self {
             Json::Array(vec) => {
+                if i >= vec.len() {
+                    return Err(Error::new(IndexOutOfRange,
+                                          format!("index {} out of range.", i)));
+                }
                 vec.remove(i);
                 Ok(())
             }
-- 
2.43.0


From 150514cf12b768a18828d56ce73b398c78b67c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 08/50] fix: encode non-finite numbers as null instead of
 invalid json

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 884e547..880e53f 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,8 @@ impl ToString for Json {
                             .join(", "))
             }
             Json::String(s) => escape(s),
+            // json has no NaN or infinity
+            Json::Number(f) if !f.is_finite() => "null".to_string(),
             Json::Number(f) => (*f).to_string(),
             Json::Boolean(b) => (*b).to_string(),
             Json::Null => "null".to_string(),
-- 
2.43.0


From 012c2bd5b94bfac032d199476f7b0556c36e4bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 09/50] fix: splitting an empty token list gives no items, so
 empty structs, tuples, enums and parameter lists parse

---
 json_derive/parse/src/utils.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 1b02187..650fdfa 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -26,6 +26,11 @@ pub fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
     // look like: "T: SomeTrait<R, P>, U"
     let mut tokens: Vec<TokenStream> = Vec::new();
 
+    // nothing to split
+    if input.is_empty() {
+        return tokens;
+    }
+
     // let's process, there are two loop scopes
     let mut iter = input
         .into_iter()
-- 
2.43.0


From 65e1d8cc6bc68b26d0441c312538c4b01f455fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 10/50] fix: derive: the key of a raw identifier field is its
 name without r#

---
 json_derive/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 2ff7c10..518ca0d 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -5,6 +5,11 @@ use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
 
+// the name of a field as a key, a raw identifier without its prefix
+fn field_name(ident: &str) -> String {
+    ident.strip_prefix("r#").unwrap_or(ident).to_string()
+}
+
 #[proc_macro_derive(JsonEncode, attributes(key, ignore))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
@@ -24,10 +29,10 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                                 if let Some(key) = meta.get("key") {
                                     key.string().expect("key attribute should be string").to_string()
                                 } else {
-                                    x.ident.clone()
+                                    field_name(&x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                field_name(&x.ident)
                             };
                             (format!("\"{}\".to_string()", k), x.ident.clone())
                         })
@@ -76,10 +81,10 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                                 if let Some(key) = meta.get("key") {
                                     key.string().expect("key attribute should be string").to_string()
                                 } else {
-                                    x.ident.clone()
+                                    field_name(&x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                field_name(&x.ident)
                             };
                             (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
                         })
-- 
2.43.0


From 2fcf4bfe654503b0282ec10d6cb6f1c04ad36cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 11/50] fix: a string or byte literal in an attribute loses
 only its own quotes

---
 json_derive/parse/src/meta.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 6ec8067..7b4ed7c 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -280,9 +280,7 @@ macro_rules! fix_bytes {
         $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
             return Ok(
                 Lit::Bytes {
-                    bytes: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
+                    bytes: $ident[$prefix.len()..$ident.len() - $suffix.len()]
                         .as_bytes()
                         .to_vec(),
                     raw: $ident,
@@ -297,9 +295,7 @@ macro_rules! fix_string {
         $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
             return Ok(
                 Lit::String {
-                    string: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
+                    string: $ident[$prefix.len()..$ident.len() - $suffix.len()]
                         .to_string(),
                     raw: $ident,
                 }
-- 
2.43.0


From c2cce5ef3617369f2d3a7d0e311a22fe01f4ebd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 12/50] fix: derive: a key attribute is the literal as written,
 raw strings and escaped quotes included

---
 json_derive/src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 518ca0d..438b7af 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -27,14 +27,14 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().map(|_| key.to_string()).expect("key attribute should be string")
                                 } else {
-                                    field_name(&x.ident)
+                                    format!("\"{}\"", field_name(&x.ident))
                                 }
                             } else {
-                                field_name(&x.ident)
+                                format!("\"{}\"", field_name(&x.ident))
                             };
-                            (format!("\"{}\".to_string()", k), x.ident.clone())
+                            (format!("{}.to_string()", k), x.ident.clone())
                         })
                         .collect();
                     quote! {
@@ -79,14 +79,14 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().map(|_| key.to_string()).expect("key attribute should be string")
                                 } else {
-                                    field_name(&x.ident)
+                                    format!("\"{}\"", field_name(&x.ident))
                                 }
                             } else {
-                                field_name(&x.ident)
+                                format!("\"{}\"", field_name(&x.ident))
                             };
-                            (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
+                            (k, x.ident.clone(), x.ty.used_ty())
                         })
                         .collect();
                     quote! {
-- 
2.43.0


From 6534c8f5bbe6a7af33d73c673b8bdc0a08e7d0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 13/50] fix: const generic parameters are not lifetimes

---
 json_derive/parse/src/generic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 9cefbf0..b309616 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -32,7 +32,7 @@ impl Generics {
         if !self.items.is_empty() {
             format!("<{}>", self.items
                 .iter()
-                .map(|x| x.ident.clone())
+                .map(|x| x.ident.trim_start_matches("const ").to_string())
                 .collect::<Vec<String>>()
                 .join(", "))
         } else {
@@ -302,7 +302,7 @@ impl Parse for GenericItem {
                     }
                     TokenTree::Ident(ident) if &ident.to_string() == "const" => {
                         if let TokenTree::Ident(name) = &ident_tokens[1] {
-                            format!("'{}", name.to_string())
+                            format!("const {}", name.to_string())
                         } else {
                             return Err(Error::new(format!("const generic name should be an Ident, got {}.", &ident_tokens[1])));
                         }
-- 
2.43.0


From db568fa759d87af0393f5fad1ecc6d2804e1279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 14/50] fix: derive: default types of parameters do not belong
 in the impl header

---
 json_derive/parse/src/generic.rs | 26 +++++++++++++++++++++++---
 json_derive/src/lib.rs           |  4 ++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index b309616..2bd5465 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -39,6 +39,19 @@ impl Generics {
             String::default()
         }
     }
+
+    // an impl header takes the parameters without their default types
+    pub fn without_defaults(&self) -> String {
+        if !self.items.is_empty() {
+            format!("<{}>", self.items
+                .iter()
+                .map(|x| x.without_default())
+                .collect::<Vec<String>>()
+                .join(", "))
+        } else {
+            String::default()
+        }
+    }
 }
 
 impl ToString for Generics {
@@ -176,10 +189,9 @@ impl GenericItem {
     pub fn is_static(&self) -> bool {
         &self.ident == "'static"
     }
-}
 
-impl ToString for GenericItem {
-    fn to_string(&self) -> String {
+    // the parameter and its bounds
+    pub fn without_default(&self) -> String {
         let mut gen = self.ident.clone();
 
         let mut buf = self.traits
@@ -199,6 +211,14 @@ impl ToString for GenericItem {
             gen.push_str(&buf.join(" + "));
         }
 
+        gen
+    }
+}
+
+impl ToString for GenericItem {
+    fn to_string(&self) -> String {
+        let mut gen = self.without_default();
+
         if let Some(ref default) = self.default {
             gen.push_str(" = ");
             gen.push_str(&default.to_string());
diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 438b7af..eb23ab7 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -38,7 +38,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.without_defaults()))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn to_json(&self) -> json::Json {
@@ -90,7 +90,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.without_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn from_json(json: &json::Json) -> Result<Self, json::Error> {
-- 
2.43.0


From d92af4412f90a43ba51d7f6fc4e342b12774f73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 15/50] fix: attribute names may be paths (clippy::all,
 rustfmt::skip)

---
 json_derive/parse/src/meta.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 7b4ed7c..3692c2b 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -509,6 +509,27 @@ impl Parse for MetaItem {
             into_iter().
             collect::<Vec<TokenTree>>();
 
+        // a leading path (a::b::c) is one name
+        let mut name = meta[0].to_string();
+        let mut n = 1;
+        while let (Some(a), Some(b), Some(TokenTree::Ident(ident))) = (meta.get(n), meta.get(n + 1), meta.get(n + 2)) {
+            if !utils::punct_eq(':')(a) || !utils::punct_eq(':')(b) {
+                break;
+            }
+            name.push_str("::");
+            name.push_str(&ident.to_string());
+            n += 3;
+        }
+        if n > 1 {
+            let short = Some(&meta[0]).into_iter().chain(&meta[n..]).cloned().collect();
+            return Ok(match MetaItem::parse(short)? {
+                MetaItem::Ident(_) => MetaItem::Ident(name),
+                MetaItem::Pair { lit, eq, .. } => MetaItem::Pair { key: name, lit, eq },
+                MetaItem::Group { inner, .. } => MetaItem::Group { ident: name, inner },
+                other => other
+            });
+        }
+
         // for different case
         match meta.len() {
             // ident or literal
-- 
2.43.0


From aee94dc8db60311da38eb67028e05176ec876a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 16/50] fix: a negative literal prints with its sign

---
 json_derive/parse/src/meta.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 3692c2b..84231cb 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -562,8 +562,8 @@ impl Parse for MetaItem {
                 // parse negative value
                 if utils::punct_eq('-')(&meta[0]) {
                     match Lit::parse(meta[1].clone().into())? {
-                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw })),
-                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw })),
+                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw: format!("-{}", raw) })),
+                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw: format!("-{}", raw) })),
                         _ => return Err(Error::new(format!("error parsing negative literal: {}.", input)))
                     }
                 }
@@ -634,8 +634,8 @@ impl Parse for MetaItem {
                 // match negative value literal
                 if utils::punct_eq('-')(&meta[2]) {
                     match Lit::parse(meta[3].clone().into())? {
-                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw }; }
-                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw }; }
+                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw: format!("-{}", raw) }; }
+                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw: format!("-{}", raw) }; }
                         _ => return Err(Error::new(format!("error parsing negative literal: - {}.", &meta[3])))
                     }
                 } else {
-- 
2.43.0


From cff857968d9b7e14b144c0000a0f76b79b54840b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 17/50] fix: parameter types may contain paths with ::

---
 json_derive/parse/src/param.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index 726510b..d3595ac 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -81,8 +81,11 @@ impl Parse for ParamItem {
             return Err(Error::new("got empty input when parsing param item."));
         }
 
-        // split ident and type by ':'
-        let mut tokens = utils::split_tokens_by(input.clone(), ":");
+        // split ident and type by the first ':', the type may contain "::"
+        let mut iter = input.clone().into_iter();
+        let head = iter.by_ref().take_while(|x| !utils::punct_eq(':')(x)).collect::<TokenStream>();
+        let tail = iter.collect::<TokenStream>();
+        let mut tokens = if tail.is_empty() { vec![head] } else { vec![head, tail] };
 
         // validate
         if ![1, 2].contains(&tokens.len()) {
-- 
2.43.0


From 659fd3e5444778bcf1d4282156452c147733fe82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 18/50] fix: a mut parameter keeps its name

---
 json_derive/parse/src/param.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index d3595ac..bff3cc3 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -100,7 +100,9 @@ impl Parse for ParamItem {
 
         // parse name
         let ident = match tokens.pop() {
-            Some(token) => match token.into_iter().next() {
+            Some(token) => match token.clone().into_iter().next() {
+                // mut x
+                Some(TokenTree::Ident(ref ident)) if &ident.to_string() == "mut" => Some(token.to_string()),
                 Some(TokenTree::Ident(ident)) => Some(ident.to_string()),
                 Some(other) => return Err(Error::new(format!("field name should be an ident, got {}.", other))),
                 _ => None,
-- 
2.43.0


From bf2d7840d383ff78732418e12a979eeab5176aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 19/50] fix: a reference type prints a space after its lifetime

---
 json_derive/parse/src/name.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index afbd19c..075980b 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -295,6 +295,7 @@ impl ToString for Type {
 
             if let Some(lifetime) = &self.lifetime {
                 ty.push_str(&lifetime.to_string());
+                ty.push(' ');
             }
 
             if self.is_mut {
-- 
2.43.0


From 3269e0036b970c8285c8e8620ccc810a687a8bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 20/50] fix: an associated type argument prints its name before
 the type

---
 json_derive/parse/src/name.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 075980b..2ad4b5a 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -290,6 +290,11 @@ impl ToString for Type {
     fn to_string(&self) -> String {
         let mut ty = String::new();
 
+        if let Some(ident) = &self.ident {
+            ty.push_str(ident);
+            ty.push_str(" = ");
+        }
+
         if self.is_ref {
             ty.push('&');
 
@@ -311,11 +316,6 @@ impl ToString for Type {
             ty.push_str("impl ");
         }
 
-        if let Some(ident) = &self.ident {
-            ty.push_str(ident);
-            ty.push_str(" = ");
-        }
-
         ty.push_str(&self.names
             .iter()
             .map(|x| x.to_string())
-- 
2.43.0


From ee9ad364f6b1576ac3cf1a74c9add0e25fc699d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 21/50] fix: a return type takes exactly its own tokens

---
 json_derive/parse/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index e9b0d01..648da17 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -706,7 +706,7 @@ impl Parse for FnItem {
                 match peek.peek() {
                     Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
                         peek.next();
-                        let return_ty = Type::parse(peek.clone()
+                        let tokens = peek.clone()
                             .take_while(|x| {
                                 match x {
                                     TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,
@@ -714,8 +714,10 @@ impl Parse for FnItem {
                                     _ => true
                                 }
                             })
-                            .collect())?;
-                        peek.nth(return_ty.__token_num() - 1);
+                            .collect::<Vec<_>>();
+                        let n = tokens.len();
+                        let return_ty = Type::parse(tokens.into_iter().collect())?;
+                        peek.nth(n - 1);
                         Some(return_ty)
                     }
                     _ => {
-- 
2.43.0


From 24edc3b52fb66776d9ebc882e2aae892c567f3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 22/50] fix: a public tuple field of tuple type is not a scoped
 pub

---
 json_derive/parse/src/field.rs |  3 ++-
 json_derive/parse/src/utils.rs | 13 ++++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index d211a28..aa4248a 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -198,7 +198,8 @@ impl Parse for TupleFieldItem {
             Some(TokenTree::Ident(ident)) if &ident.to_string() == "pub" => {
                 peek.next();
                 match peek.peek() {
-                    Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
+                    // a tuple type is no scope
+                    Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis && utils::is_scope(group) => {
                         let path = Some(group.stream().to_string());
                         peek.next();
                         Some(path)
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 650fdfa..3a55431 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -1,5 +1,5 @@
 use std::iter::FromIterator;
-use proc_macro::{TokenTree, TokenStream};
+use proc_macro::{Group, TokenTree, TokenStream};
 
 // punct_eq generate a closure to judge whether a TokenTree is
 // the given punct, which usually use in iter.filter() method.
@@ -12,6 +12,17 @@ pub fn punct_eq(c: char) -> impl FnMut(&TokenTree) -> bool {
     }
 }
 
+// whether a group after "pub" is a scope: (crate), (self), (super) or (in ...),
+// anything else there is a tuple type.
+pub fn is_scope(group: &Group) -> bool {
+    let tokens: Vec<String> = group.stream().into_iter().map(|x| x.to_string()).collect();
+    match tokens.first().map(|x| x.as_str()) {
+        Some("in") => true,
+        Some("crate") | Some("self") | Some("super") => tokens.len() == 1,
+        _ => false
+    }
+}
+
 // split the given TokenStream to a Vec<TokenStream> by char, usually
 // use to split generic parameters because rust does not treated angle
 // bracket as a valid group delimiter. It is preferred to use split_tokens_by
-- 
2.43.0


From 7d21d6016ee20317f4b0efb3faca1cea713afa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:23 +0000
Subject: [PATCH 23/50] fix: a unit struct prints its where clause

---
 json_derive/parse/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 648da17..3331f64 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -195,6 +195,9 @@ impl ToString for StructItem {
 
         match &self.fields {
             Fields::NoFields => {
+                if let Some(where_clause) = &self.where_clause {
+                    s.push_str(&where_clause.to_string());
+                }
                 s.push(';');
             }
             fields @ Fields::TupleFields(_) => {
-- 
2.43.0


From 71dc710a351cee0b431986f0348884a9a225a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:47 +0000
Subject: [PATCH 24/50] fix: derive: do not declare ignore as a helper
 attribute, it clashes with the built-in one and never compiles

---
 json_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index eb23ab7..8d6a7d4 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -10,7 +10,7 @@ fn field_name(ident: &str) -> String {
     ident.strip_prefix("r#").unwrap_or(ident).to_string()
 }
 
-#[proc_macro_derive(JsonEncode, attributes(key, ignore))]
+#[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
@@ -62,7 +62,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
     }
 }
 
-#[proc_macro_derive(JsonDecode, attributes(key, ignore))]
+#[proc_macro_derive(JsonDecode, attributes(key))]
 pub fn json_decode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
-- 
2.43.0


From c5b18ca979aba6eacfe4302d799fd574fc66f4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 25/50] fix: a list attribute may be empty: #[cfg(all())]

---
 json_derive/parse/src/meta.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 84231cb..4818ffd 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -402,11 +402,6 @@ impl ToString for NestedMeta {
 
 impl Parse for NestedMeta {
     fn parse(input: TokenStream) -> Result<NestedMeta> {
-        // handle empty input
-        if input.is_empty() {
-            return Err(Error::new("got empty input when parsing nested meta item."));
-        }
-
         // convert single TokenStream to Vec<MetaItem> split by ','
         let items: Vec<MetaItem> = input
             // into iterator
-- 
2.43.0


From 39a553b09172ef6fe88d25c276c87bb5b64d03f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 26/50] fix: a generic argument may be a literal: Array<u8, 3>

---
 json_derive/parse/src/name.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 2ad4b5a..ebe3826 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -145,6 +145,11 @@ impl Parse for Name {
                 match &stream[0] {
                     TokenTree::Ident(ident) => Ok(Name { prefixes, ident: ident.to_string(), generics: Vec::new() }),
 
+                    // const argument
+                    TokenTree::Literal(literal) => {
+                        Ok(Name { prefixes, ident: literal.to_string(), generics: Vec::new() })
+                    }
+
                     // tuple
                     TokenTree::Group(group) if group.delimiter() == Delimiter::Parenthesis => {
                         Ok(Name { prefixes, ident: group.to_string(), generics: Vec::new() })
-- 
2.43.0


From a9630bf937d98d3f1728c2f0a1fbba2cf4756e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 27/50] fix: an enum discriminant may be negative

---
 json_derive/parse/src/enum_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index 3d79369..590c735 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -100,7 +100,8 @@ impl Parse for EnumValueItem {
         // first we parse discrimination
         let tokens = utils::split_tokens_by(input.clone(), "=");
         let disc = if tokens.len() >= 2 {
-            let s = tokens[1].to_string();
+            // a negative value is two tokens: - 1
+            let s = tokens[1].to_string().replace(' ', "");
             match s.parse::<isize>() {
                 Ok(n) => Some(n),
                 _ => {
-- 
2.43.0


From 7a891f40a61f9d0e05adb4cb0aa9b78d1f45be52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:33 +0000
Subject: [PATCH 28/50] fix: the return type of a Fn signature may be a path

---
 json_derive/parse/src/name.rs | 39 ++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index ebe3826..a89b3be 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -110,6 +110,28 @@ impl Parse for Name {
             return Err(Error::new(format!("malformed name: {}.", input)));
         }
 
+        // HINT: specially case for Fn/FnMut/FnOnce/fn, its return type
+        // may contain "::" too, so all the tokens left belong to it
+        let mut n = 0;
+        for (i, split) in splits.iter().enumerate() {
+            let mut iter = split.clone().into_iter();
+            match (iter.next(), iter.next()) {
+                (Some(TokenTree::Ident(f)), Some(TokenTree::Group(g))) => {
+                    if ["Fn", "FnMut", "FnOnce", "fn"].contains(&f.to_string().as_str())
+                        && g.delimiter() == Delimiter::Parenthesis {
+                        return Ok(Name {
+                            prefixes: splits[..i].iter().map(|x| x.to_string()).collect(),
+                            ident: TokenStream::from_iter(input.into_iter().skip(n)).to_string(),
+                            generics: Vec::new(),
+                        });
+                    }
+                }
+                _ => ()
+            }
+            // skip "::" as well
+            n += split.clone().into_iter().count() + 2;
+        }
+
         // handle prefixes
         let prefixes = splits.iter()
             .take(splits.len() - 1)
@@ -123,23 +145,6 @@ impl Parse for Name {
             .into_iter()
             .collect::<Vec<_>>();
 
-        // HINT: specially case for Fn/FnMut/FnOnce
-        if stream.len() >= 2 {
-            match (&stream[0], &stream[1]) {
-                (TokenTree::Ident(f), TokenTree::Group(g)) => {
-                    if ["Fn", "FnMut", "FnOnce", "fn"].contains(&f.to_string().as_str())
-                        && g.delimiter() == Delimiter::Parenthesis {
-                        return Ok(Name {
-                            prefixes,
-                            ident: TokenStream::from_iter(stream).to_string(),
-                            generics: Vec::new(),
-                        });
-                    }
-                }
-                _ => ()
-            }
-        }
-
         match stream.len() {
             1 => {
                 match &stream[0] {
-- 
2.43.0


From d239d7cd80e719c72117d063085d3adff8632874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:25 +0000
Subject: [PATCH 29/50] fix: quote: @params does not rebind variables after it

---
 json_derive/quote/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 5326a1b..d2509fe 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -331,13 +331,15 @@ macro_rules! __append_to_token {
     // @params modifier uses the given variable's value as token
     ( $token:ident $span:ident $($ident:ident)* # ( @ params($($param:ident$(=$expr:expr)?),+$(,)?) : $($tt:tt)+ ) $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
-        let mut _hashmap = std::collections::HashMap::new();
-        $(
-        $(let $param = $expr;)?
-        _hashmap.insert(__stringify!($param).to_string(), $crate::__parse(&$param.to_string(), $span));
-        )+
-        let _input = $crate::__parse(__stringify!($($tt)+), $span);
-        $token.extend($crate::__translate(_input, $span, &_hashmap));
+        {
+            let mut _hashmap = std::collections::HashMap::new();
+            $(
+            $(let $param = $expr;)?
+            _hashmap.insert(__stringify!($param).to_string(), $crate::__parse(&$param.to_string(), $span));
+            )+
+            let _input = $crate::__parse(__stringify!($($tt)+), $span);
+            $token.extend($crate::__translate(_input, $span, &_hashmap));
+        }
         __append_to_token!($token $span $($rest)*);
     }};
     // @scope modifier create an isolated scope, which include some useful behaviours
-- 
2.43.0


From 1d3345a3c8a16ab15e143d34097195415e0acec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 30/50] fix: quote: #undef, #ifdef and #ifndef know macros
 defined with parameters

---
 json_derive/quote/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index d2509fe..4ba645d 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -229,7 +229,7 @@ macro_rules! __scope_command {
             e.expect("unexpected #undef in #foreach scope.");
         }
         if $flag.0 {
-            $hashmap.remove(__stringify!($param));
+            $crate::__undef(&mut $hashmap, __stringify!($param));
         }
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifdef($param:ident) ) => {
@@ -238,7 +238,7 @@ macro_rules! __scope_command {
             e.expect("unexpected #ifdef in #foreach scope.");
         }
         $flag.1 = Some(());
-        $flag.0 = $hashmap.contains_key(__stringify!($param));
+        $flag.0 = $crate::__is_defined(&$hashmap, __stringify!($param));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifndef($param:ident) ) => {
         if $iter.0.is_some() {
@@ -246,7 +246,7 @@ macro_rules! __scope_command {
             e.expect("unexpected #ifndef in #foreach scope.");
         }
         $flag.1 = Some(());
-        $flag.0 = !$hashmap.contains_key(__stringify!($param));
+        $flag.0 = !$crate::__is_defined(&$hashmap, __stringify!($param));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident if($expr:expr) ) => {
         if $iter.0.is_some() {
@@ -1116,6 +1116,17 @@ pub fn __parse(s: &str, span: Span) -> TokenStream {
     }
 }
 
+// a macro is kept under its name followed by '+' (body) and '-' (parameters)
+pub fn __is_defined(map: &HashMap<String, TokenStream>, name: &str) -> bool {
+    map.contains_key(name) || map.contains_key(&format!("{}+", name))
+}
+
+pub fn __undef(map: &mut HashMap<String, TokenStream>, name: &str) {
+    map.remove(name);
+    map.remove(&format!("{}+", name));
+    map.remove(&format!("{}-", name));
+}
+
 pub fn __translate(input: TokenStream, span: Span, map: &HashMap<String, TokenStream>) -> TokenStream {
     let mut tokens: Vec<TokenTree> = Vec::new();
     let mut iter = input.into_iter().peekable();
-- 
2.43.0


From 2f7c76cbc0ee761f1b2740763a76c6046da58bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:51 +0000
Subject: [PATCH 31/50] fix: quote: #foreach without a name does not need
 TokenStream in scope

---
 json_derive/quote/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 4ba645d..292a858 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -299,7 +299,7 @@ macro_rules! __scope_command {
             e.expect("unexpected nested #foreach.");
         }
         let mut _sized_vec = Vec::with_capacity($expr.into_iter().count());
-        _sized_vec.resize(_sized_vec.capacity(), TokenStream::new());
+        _sized_vec.resize(_sized_vec.capacity(), $crate::__pm::TokenStream::new());
         $iter.0 = Some(_sized_vec);
         $iter.1 = "_";
     };
-- 
2.43.0


From f83a2bb8e9b7865986be6dcaad4f375bba344b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:24 +0000
Subject: [PATCH 32/50] fix: quote: at most one branch of #if is taken, and #if
 may be nested

---
 json_derive/quote/src/lib.rs | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 292a858..b4e80bb 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -237,49 +237,52 @@ macro_rules! __scope_command {
             let e: Option<()> = None;
             e.expect("unexpected #ifdef in #foreach scope.");
         }
-        $flag.1 = Some(());
-        $flag.0 = $crate::__is_defined(&$hashmap, __stringify!($param));
+        let _outer = $flag.0;
+        $flag.0 = _outer && $crate::__is_defined(&$hashmap, __stringify!($param));
+        $flag.1.push((_outer, $flag.0));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifndef($param:ident) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #ifndef in #foreach scope.");
         }
-        $flag.1 = Some(());
-        $flag.0 = !$crate::__is_defined(&$hashmap, __stringify!($param));
+        let _outer = $flag.0;
+        $flag.0 = _outer && !$crate::__is_defined(&$hashmap, __stringify!($param));
+        $flag.1.push((_outer, $flag.0));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident if($expr:expr) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #if in #foreach scope.");
         }
-        $flag.1 = Some(());
-        $flag.0 = $expr;
+        let _outer = $flag.0;
+        $flag.0 = _outer && $expr;
+        $flag.1.push((_outer, $flag.0));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident elif($expr:expr) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #elif in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #elif.");
-        $flag.0 = $expr;
+        let _last = $flag.1.last_mut().expect("expect #if before #elif.");
+        $flag.0 = _last.0 && !_last.1 && $expr;
+        _last.1 |= $flag.0;
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident else ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #else in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #else.");
-        $flag.0 = !$flag.0;
+        let _last = $flag.1.last_mut().expect("expect #if before #else.");
+        $flag.0 = _last.0 && !_last.1;
+        _last.1 = true;
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident endif ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #endif in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #endif.");
-        $flag.1 = None;
-        $flag.0 = true;
+        $flag.0 = $flag.1.pop().expect("expect #if before #endif.").0;
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident foreach($expr:expr, $x:ident) ) => {
         if $iter.0.is_some() {
@@ -366,9 +369,11 @@ macro_rules! __append_to_token {
       $($rest:tt)* ) =>
     {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
-        struct _Flag(bool, Option<()>);
+        // whether tokens are emitted, and for each open #if: whether they were before it,
+        // and whether one of its branches was taken
+        struct _Flag(bool, Vec<(bool, bool)>);
         struct _Iter(Option<Vec<$crate::__pm::TokenStream>>, &'static str);
-        let mut _flag = _Flag(true, None);
+        let mut _flag = _Flag(true, Vec::new());
         let mut _iter = _Iter(None, "");
         let mut _hashmap = std::collections::HashMap::new();
         $(__scope_command!($token $span _flag _iter _hashmap $prefix_options$(($($prefix_params)*))?);)*
-- 
2.43.0


From 6b6be67f3325bd8746687a28e9da562d9417c1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:40 +0000
Subject: [PATCH 33/50] fix: quote: tokens inside interpolated and literal
 groups get the span asked for

---
 json_derive/quote/src/lib.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index b4e80bb..a75b35e 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -1112,15 +1112,25 @@ pub fn __parse(s: &str, span: Span) -> TokenStream {
         TokenTree::Ident(Ident::new(s, span)).into()
     } else {
         let token: TokenStream = s.parse().unwrap();
-        token.into_iter()
-            .map(|mut x| {
-                x.set_span(span);
-                x
-            })
-            .collect()
+        set_span(token, span)
     }
 }
 
+fn set_span(token: TokenStream, span: Span) -> TokenStream {
+    token.into_iter()
+        .map(|x| {
+            let mut x = match x {
+                TokenTree::Group(group) => {
+                    TokenTree::from(Group::new(group.delimiter(), set_span(group.stream(), span)))
+                }
+                other => other
+            };
+            x.set_span(span);
+            x
+        })
+        .collect()
+}
+
 // a macro is kept under its name followed by '+' (body) and '-' (parameters)
 pub fn __is_defined(map: &HashMap<String, TokenStream>, name: &str) -> bool {
     map.contains_key(name) || map.contains_key(&format!("{}+", name))
-- 
2.43.0


From aca7a8b48394518938760dd3e6aed44fc3878193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:51 +0000
Subject: [PATCH 34/50] fix: derive: generated impls no longer depend on
 Result, Ok, Err and Some in scope

---
 json_derive/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 8d6a7d4..5ea7603 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -46,8 +46,8 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                                 let mut js = json::Json::Object(map);
                                 #(#v:x
                                     match js.add_option(#(x.0), json::ToJson::to_json(&self.#(x.1)), true) {
-                                        Ok(_) => (),
-                                        Err(_) => unreachable!()
+                                        std::result::Result::Ok(_) => (),
+                                        std::result::Result::Err(_) => unreachable!()
                                     };
                                 )*
                                 js
@@ -93,17 +93,17 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         impl#(#(&s.generics):x #(x.without_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
-                            fn from_json(json: &json::Json) -> Result<Self, json::Error> {
+                            fn from_json(json: &json::Json) -> std::result::Result<Self, json::Error> {
                                 match json {
                                     json::Json::Object(obj) => {
-                                        Ok(
+                                        std::result::Result::Ok(
                                             #(s.ident) {
                                                 #(#v:x
                                                     #(x.1): {
-                                                        if let Some((v, _)) = obj.get(#(x.0)) {
+                                                        if let std::option::Option::Some((v, _)) = obj.get(#(x.0)) {
                                                             <#(x.2) as json::FromJson>::from_json(v)?
                                                         } else {
-                                                            return Err(json::Error::new(json::ErrorKind::MissingKey,
+                                                            return std::result::Result::Err(json::Error::new(json::ErrorKind::MissingKey,
                                                                                         format!("missing key \"{}\".", #(x.0))));
                                                         }
                                                     },
@@ -114,7 +114,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                                             }
                                         )
                                     }
-                                    other => Err(json::Error::new(json::ErrorKind::ConvertError,
+                                    other => std::result::Result::Err(json::Error::new(json::ErrorKind::ConvertError,
                                                                   format!("cannot convert {} to {}.",
                                                                           other._kind(), stringify!(#(s.ident))))),
                                 }
-- 
2.43.0


From 79d898852070931393341f7d058589941a684d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:37 +0000
Subject: [PATCH 35/50] fix: parse: literals of every form are accepted in
 attributes

---
 json_derive/parse/src/meta.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 4818ffd..c6e0766 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -171,6 +171,8 @@ impl Parse for Meta {
 //     3. integer collected as i32;
 //     4. float collected as f64;
 //     5. bool collected as bool;
+//     6. any other literal (char, C string, raw string with more
+//        '#', integer out of range) only as it is written.
 // Boolean value is a special case, because Rust recognize true/false
 // as ident so we have some special measurement.
 #[derive(Debug)]
@@ -207,6 +209,11 @@ pub enum Lit {
     // false
     // HINT: boolean value is a ident.
     Boolean { boolean: bool, raw: String },
+
+    // 'c'
+    // c"..."
+    // 5000000000u64
+    Other { raw: String },
 }
 
 impl ToString for Lit {
@@ -217,6 +224,7 @@ impl ToString for Lit {
             Lit::Integer { raw, .. } => raw.clone(),
             Lit::Float { raw, .. } => raw.clone(),
             Lit::Boolean { raw, .. } => raw.clone(),
+            Lit::Other { raw } => raw.clone(),
         }
     }
 }
@@ -342,8 +350,22 @@ impl Parse for Lit {
                                     ("r#\"", "\"#"),
                                     ("r##\"", "\"##")));
 
+                // digits may be separated by '_'
+                let number = raw.replace('_', "");
+
+                // parse 0x.../0o.../0b...
+                for (prefix, radix) in [("0x", 16), ("0o", 8), ("0b", 2)].iter() {
+                    if number.starts_with(prefix) {
+                        let digits = number[prefix.len()..].split(|x| x == 'u' || x == 'i').next().unwrap();
+                        return Ok(match i32::from_str_radix(digits, *radix) {
+                            Ok(integer) => Lit::Integer { integer, raw },
+                            Err(_) => Lit::Other { raw }
+                        });
+                    }
+                }
+
                 // parse int
-                if let Ok(integer) = fix_suffix!(raw: i32 => (
+                if let Ok(integer) = fix_suffix!(number: i32 => (
                                             "u8", "u16", "u32", "u64",
                                             "u128", "usize", "i8", "i16",
                                             "i32", "i64", "i128", "isize")) {
@@ -351,9 +373,12 @@ impl Parse for Lit {
                 }
 
                 // parse float
-                if let Ok(float) = fix_suffix!(raw: f64 => ("f32", "f64")) {
+                if let Ok(float) = fix_suffix!(number: f64 => ("f32", "f64")) {
                     return Ok(Lit::Float { float, raw });
                 }
+
+                // any other literal
+                return Ok(Lit::Other { raw });
             }
 
             // other case
@@ -559,6 +584,7 @@ impl Parse for MetaItem {
                     match Lit::parse(meta[1].clone().into())? {
                         Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw: format!("-{}", raw) })),
                         Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw: format!("-{}", raw) })),
+                        Lit::Other { raw } => return Ok(MetaItem::Literal(Lit::Other { raw: format!("-{}", raw) })),
                         _ => return Err(Error::new(format!("error parsing negative literal: {}.", input)))
                     }
                 }
@@ -631,6 +657,7 @@ impl Parse for MetaItem {
                     match Lit::parse(meta[3].clone().into())? {
                         Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw: format!("-{}", raw) }; }
                         Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw: format!("-{}", raw) }; }
+                        Lit::Other { raw } => { lit = Lit::Other { raw: format!("-{}", raw) }; }
                         _ => return Err(Error::new(format!("error parsing negative literal: - {}.", &meta[3])))
                     }
                 } else {
-- 
2.43.0


From 7212f48d386a306ecadbfc0b60b04a46d044a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 36/50] fix: parse: extern without an ABI is extern "C", it is
 no longer dropped

---
 json_derive/parse/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 3331f64..7e76530 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -651,7 +651,8 @@ impl Parse for FnItem {
                         peek.next();
                         extern_abi
                     }
-                    _ => None
+                    // extern alone means extern "C"
+                    _ => Some(Literal::string("C"))
                 }
             }
             _ => None
-- 
2.43.0


From 09ba0f14b8c670ae2a4c24dc54cde0b4fdab8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 37/50] fix: parse: a parameter pattern is refused, not taken
 for its first token

---
 json_derive/parse/src/param.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index bff3cc3..27d39b2 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -102,7 +102,12 @@ impl Parse for ParamItem {
         let ident = match tokens.pop() {
             Some(token) => match token.clone().into_iter().next() {
                 // mut x
-                Some(TokenTree::Ident(ref ident)) if &ident.to_string() == "mut" => Some(token.to_string()),
+                Some(TokenTree::Ident(ref ident)) if &ident.to_string() == "mut"
+                    && token.clone().into_iter().count() == 2 => Some(token.to_string()),
+                // other patterns have no name
+                Some(TokenTree::Ident(_)) if token.clone().into_iter().count() > 1 => {
+                    return Err(Error::new(format!("field name should be an ident, got {}.", token)))
+                }
                 Some(TokenTree::Ident(ident)) => Some(ident.to_string()),
                 Some(other) => return Err(Error::new(format!("field name should be an ident, got {}.", other))),
                 _ => None,
-- 
2.43.0


From 9b19ac890b2bc6bce071805850ed813abcfa3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 38/50] fix: parse: a second = in an enum value is refused, not
 dropped

---
 json_derive/parse/src/enum_value.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index 590c735..63207e5 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -112,7 +112,7 @@ impl Parse for EnumValueItem {
             None
         };
 
-        if tokens.is_empty() {
+        if tokens.is_empty() || tokens.len() > 2 {
             return Err(Error::new(format!("malformed enum value: {}.", input)));
         }
 
-- 
2.43.0


From 98d304efba4119959d6bc9e9df9b76ce43b0fc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 39/50] fix: parse: explicit Sized bounds and empty where
 predicates are kept

---
 json_derive/parse/src/generic.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 2bd5465..d59cb4f 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -363,8 +363,8 @@ impl Parse for GenericItem {
                     }
                     (Some(TokenTree::Ident(ident1)), Some(TokenTree::Ident(ident2)))
                     if &ident1.to_string() == "Sized" && &ident2.to_string() == "Sized" => {
+                        // the default, but written out
                         item.sized = true;
-                        continue;
                     }
                     _ => ()
                 }
@@ -412,6 +412,8 @@ impl ToString for WhereClause {
             format!("where {}", self.items
                 .iter()
                 .map(|x| x.to_string())
+                // a predicate without bounds has its colon
+                .map(|x| if x.contains(':') { x } else { format!("{}:", x) })
                 .collect::<Vec<String>>()
                 .join(", "))
         } else {
-- 
2.43.0


From b6d5a6da0fa0334d551065518e69fc4f3cd3baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:10 +0000
Subject: [PATCH 40/50] fix: parse: attribute groups keep their delimiters

---
 json_derive/parse/src/meta.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index c6e0766..faf080f 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -400,7 +400,7 @@ impl Parse for Lit {
 // ToString for NestedMeta separately. And further more, we provide
 // the same API as Meta by implements the Deref trait for NestedMeta.
 #[derive(Debug)]
-pub struct NestedMeta(Meta);
+pub struct NestedMeta(Meta, Delimiter);
 
 impl Deref for NestedMeta {
     type Target = Meta;
@@ -447,7 +447,7 @@ impl Parse for NestedMeta {
             .collect::<Result<Vec<MetaItem>>>()?;
 
         // build Meta
-        Ok(NestedMeta(Meta { items }))
+        Ok(NestedMeta(Meta { items }, Delimiter::Parenthesis))
     }
 }
 
@@ -477,7 +477,11 @@ impl ToString for MetaItem {
             MetaItem::Ident(ident) => ident.clone(),
             MetaItem::Literal(lit) => lit.to_string(),
             MetaItem::Pair { key, lit, eq } => format!("{} {} {}", key, eq, lit.to_string()),
-            MetaItem::Group { ident, inner } => format!("{}({})", ident, inner.to_string()),
+            MetaItem::Group { ident, inner } => match inner.1 {
+                Delimiter::Bracket => format!("{}[{}]", ident, inner.to_string()),
+                Delimiter::Brace => format!("{}{{{}}}", ident, inner.to_string()),
+                _ => format!("{}({})", ident, inner.to_string()),
+            },
         }
     }
 }
@@ -594,7 +598,8 @@ impl Parse for MetaItem {
                     if let TokenTree::Group(group) = &meta[1] {
                         // ident & inner
                         let ident = ident.to_string();
-                        let inner = NestedMeta::parse(group.stream())?;
+                        let mut inner = NestedMeta::parse(group.stream())?;
+                        inner.1 = group.delimiter();
 
                         // valid return
                         return Ok(MetaItem::Group { ident, inner });
-- 
2.43.0


From 95c5fd4faf17f3932f428ad33155da12ea69456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 41/50] fix: parse: a single : at the end of a type is not a
 path separator

---
 json_derive/parse/src/utils.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 3a55431..3af56c9 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -94,11 +94,11 @@ pub fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
                             // check if current punct match the first sep char
                             if punct.as_char() == chars.next().unwrap() {
                                 // hit represents if left sep matched
+                                let mut rest = iter.clone();
                                 let hit = chars
-                                    .zip(iter.clone())
-                                    .all(|(c, x)| {
-                                        match x {
-                                            TokenTree::Punct(ref punct) if punct.as_char() == c => true,
+                                    .all(|c| {
+                                        match rest.next() {
+                                            Some(TokenTree::Punct(ref punct)) if punct.as_char() == c => true,
                                             _ => false
                                         }
                                     });
-- 
2.43.0


From 6505728667b6948b95aa5fee4eb535f28e53e3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 42/50] fix: parse: a literal does not begin a path in
 attributes

---
 json_derive/parse/src/meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index faf080f..1dbbc67 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -536,7 +536,7 @@ impl Parse for MetaItem {
         // a leading path (a::b::c) is one name
         let mut name = meta[0].to_string();
         let mut n = 1;
-        while let (Some(a), Some(b), Some(TokenTree::Ident(ident))) = (meta.get(n), meta.get(n + 1), meta.get(n + 2)) {
+        while let (TokenTree::Ident(_), Some(a), Some(b), Some(TokenTree::Ident(ident))) = (&meta[0], meta.get(n), meta.get(n + 1), meta.get(n + 2)) {
             if !utils::punct_eq(':')(a) || !utils::punct_eq(':')(b) {
                 break;
             }
-- 
2.43.0


From 95a3d8ce06e0703fe34da9f00db84e69beac0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:21 +0000
Subject: [PATCH 43/50] fix: parse: ?path::Sized is refused, ?Sized + Sized
 keeps both

---
 json_derive/parse/src/generic.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index d59cb4f..2ae9873 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -357,15 +357,10 @@ impl Parse for GenericItem {
             for bound_tokens in bounds_tokens {
                 match (bound_tokens.first(), bound_tokens.last()) {
                     (Some(TokenTree::Punct(punct)), Some(TokenTree::Ident(ident)))
-                    if punct.as_char() == '?' && &ident.to_string() == "Sized" => {
+                    if punct.as_char() == '?' && &ident.to_string() == "Sized" && bound_tokens.len() == 2 => {
                         item.sized = false;
                         continue;
                     }
-                    (Some(TokenTree::Ident(ident1)), Some(TokenTree::Ident(ident2)))
-                    if &ident1.to_string() == "Sized" && &ident2.to_string() == "Sized" => {
-                        // the default, but written out
-                        item.sized = true;
-                    }
                     _ => ()
                 }
                 let bound = Name::parse(bound_tokens.into_iter().collect())?;
-- 
2.43.0


From 7f60c42a7dbdcbd8aeeced319c5cfb6b2245f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 44/50] fix: parse: a visibility on an enum value is refused,
 not taken for its name

---
 json_derive/parse/src/enum_value.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index 63207e5..5836e82 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -150,9 +150,10 @@ impl Parse for EnumValueItem {
         };
 
         // parse fields
-        let fields = match peek.peek() {
-            Some(_) => Fields::parse(peek.collect())?,
-            None => Fields::NoFields
+        let fields = match peek.clone().count() {
+            0 => Fields::NoFields,
+            1 => Fields::parse(peek.collect())?,
+            _ => return Err(Error::new(format!("malformed enum value: {}.", input)))
         };
 
         // return
-- 
2.43.0


From 1aed526a6a849d24e86fa87de3213d4d47833f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:41 +0000
Subject: [PATCH 45/50] fix: parse: a brace in a return type is not taken for
 the body

---
 json_derive/parse/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 7e76530..e464fd7 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -753,6 +753,11 @@ impl Parse for FnItem {
             }
         };
 
+        // a brace inside the return type is no body
+        if peek.next().is_some() {
+            return Err(Error::new(format!("malformed fn: {}.", input)));
+        }
+
         // return
         Ok(FnItem {
             meta,
-- 
2.43.0


From 93e1902728c5769990046ae31e7d2a5b438fa2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:39 +0000
Subject: [PATCH 46/50] fix: parse: true and false do not begin a path in
 attributes

---
 json_derive/parse/src/meta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 1dbbc67..94dd986 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -550,7 +550,7 @@ impl Parse for MetaItem {
                 MetaItem::Ident(_) => MetaItem::Ident(name),
                 MetaItem::Pair { lit, eq, .. } => MetaItem::Pair { key: name, lit, eq },
                 MetaItem::Group { inner, .. } => MetaItem::Group { ident: name, inner },
-                other => other
+                _ => return Err(Error::new(format!("expect a path, got: {}.", input)))
             });
         }
 
-- 
2.43.0


From 822f0927cc55941f7498b1d2851d46b0224d36b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:33 +0000
Subject: [PATCH 47/50] fix: parse: a: : B is no path, it is refused

---
 json_derive/parse/src/name.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index a89b3be..bd5f35a 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -110,6 +110,23 @@ impl Parse for Name {
             return Err(Error::new(format!("malformed name: {}.", input)));
         }
 
+        // a prefix is nothing (::a), a name or <...>, maybe a name<...>
+        let check = |prefixes: &[TokenStream]| {
+            for (i, prefix) in prefixes.iter().enumerate() {
+                let mut iter = prefix.clone().into_iter();
+                let open = |x: Option<TokenTree>| x.map_or(true, |x| utils::punct_eq('<')(&x));
+                let valid = match iter.next() {
+                    Some(TokenTree::Ident(_)) => open(iter.next()),
+                    None => i == 0,
+                    first => open(first)
+                };
+                if !valid {
+                    return Err(Error::new(format!("malformed name: {}.", input)));
+                }
+            }
+            Ok(())
+        };
+
         // HINT: specially case for Fn/FnMut/FnOnce/fn, its return type
         // may contain "::" too, so all the tokens left belong to it
         let mut n = 0;
@@ -119,9 +136,10 @@ impl Parse for Name {
                 (Some(TokenTree::Ident(f)), Some(TokenTree::Group(g))) => {
                     if ["Fn", "FnMut", "FnOnce", "fn"].contains(&f.to_string().as_str())
                         && g.delimiter() == Delimiter::Parenthesis {
+                        check(&splits[..i])?;
                         return Ok(Name {
                             prefixes: splits[..i].iter().map(|x| x.to_string()).collect(),
-                            ident: TokenStream::from_iter(input.into_iter().skip(n)).to_string(),
+                            ident: TokenStream::from_iter(input.clone().into_iter().skip(n)).to_string(),
                             generics: Vec::new(),
                         });
                     }
@@ -133,6 +151,7 @@ impl Parse for Name {
         }
 
         // handle prefixes
+        check(&splits[..splits.len() - 1])?;
         let prefixes = splits.iter()
             .take(splits.len() - 1)
             .map(|x| x.to_string())
-- 
2.43.0


From c1af728acda31743b808180f6ef67f2eaa0a9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:44 +0000
Subject: [PATCH 48/50] fix: quote: #foreach in a branch not taken does not
 evaluate its list

---
 json_derive/quote/src/lib.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index a75b35e..ffcebae 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -289,11 +289,13 @@ macro_rules! __scope_command {
             let e: Option<()> = None;
             e.expect("unexpected nested #foreach.");
         }
-        $iter.0 = Some(
+        $iter.0 = Some(if $flag.0 {
             $expr.into_iter()
                 .map(|x| $crate::__parse(&x.to_string(), $span))
                 .collect::<Vec<$crate::__pm::TokenStream>>()
-        );
+        } else {
+            Vec::new()
+        });
         $iter.1 = __stringify!($x);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident foreach($expr:expr) ) => {
@@ -301,9 +303,13 @@ macro_rules! __scope_command {
             let e: Option<()> = None;
             e.expect("unexpected nested #foreach.");
         }
-        let mut _sized_vec = Vec::with_capacity($expr.into_iter().count());
-        _sized_vec.resize(_sized_vec.capacity(), $crate::__pm::TokenStream::new());
-        $iter.0 = Some(_sized_vec);
+        $iter.0 = Some(if $flag.0 {
+            let mut _sized_vec = Vec::with_capacity($expr.into_iter().count());
+            _sized_vec.resize(_sized_vec.capacity(), $crate::__pm::TokenStream::new());
+            _sized_vec
+        } else {
+            Vec::new()
+        });
         $iter.1 = "_";
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident endfor ) => {
-- 
2.43.0


From 0b730152a692330611901cc8b9057b84795aa651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:46 +0000
Subject: [PATCH 49/50] fix: parse: a brace in a where clause is not taken for
 the body

---
 json_derive/parse/src/lib.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index e464fd7..54419db 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -298,6 +298,10 @@ impl Parse for StructItem {
                 let where_clause = WhereClause::parse(peek.clone().collect())?;
                 // skip where clauses
                 peek.nth(where_clause.__token_num() - 1);
+                // a brace inside the where clause is no body
+                if peek.clone().count() != 1 {
+                    return Err(Error::new(format!("malformed struct: {}.", input)));
+                }
                 (Some(where_clause), Fields::parse(peek.collect())?)
             }
             Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => {
@@ -312,7 +316,17 @@ impl Parse for StructItem {
                 peek.nth(0);
                 match peek.peek() {
                     Some(TokenTree::Ident(ident)) if &ident.to_string() == "where" => {
-                        (Some(WhereClause::parse(peek.clone().collect())?), fields)
+                        let where_clause = WhereClause::parse(peek.clone().collect())?;
+                        // skip where clauses, what is left is the semicolon
+                        peek.nth(where_clause.__token_num() - 1);
+                        match (peek.next(), peek.next()) {
+                            (Some(TokenTree::Punct(ref punct)), None) if punct.as_char() == ';' => {
+                                (Some(where_clause), fields)
+                            }
+                            _ => {
+                                return Err(Error::new(format!("malformed struct: {}.", input)));
+                            }
+                        }
                     }
                     Some(TokenTree::Punct(punct)) if punct.as_char() == ';' => {
                         (None, fields)
@@ -470,6 +484,10 @@ impl Parse for EnumItem {
                 let where_clause = WhereClause::parse(peek.clone().collect())?;
                 // skip where clauses
                 peek.nth(where_clause.__token_num() - 1);
+                // a brace inside the where clause is no body
+                if peek.clone().count() != 1 {
+                    return Err(Error::new(format!("malformed enum: {}.", input)));
+                }
                 (Some(where_clause), EnumValues::parse(peek.collect())?)
             }
             Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {
-- 
2.43.0


From 0e8711fbab54a71acae9c9e094be087193d66177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:42 +0000
Subject: [PATCH 50/50] fix: quote! with an empty modifier or a scope without a
 block gave the text of the modifier

---
 json_derive/quote/src/lib.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index ffcebae..f12552c 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -332,13 +332,13 @@ macro_rules! __append_to_token {
     // parse pounded parenthesis with modifier: #(@modifier(args)?: ...)
     // ======================================================================
     // @literal modifier converts the given tokens to TokenStream directly
-    ( $token:ident $span:ident $($ident:ident)* # ( @ literal : $($tt:tt)+ ) $($rest:tt)* ) => {{
+    ( $token:ident $span:ident $($ident:ident)* # ( @ literal : $($tt:tt)* ) $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
-        $($token.extend($crate::__parse(__stringify!($tt), $span));)+
+        $($token.extend($crate::__parse(__stringify!($tt), $span));)*
         __append_to_token!($token $span $($rest)*);
     }};
     // @params modifier uses the given variable's value as token
-    ( $token:ident $span:ident $($ident:ident)* # ( @ params($($param:ident$(=$expr:expr)?),+$(,)?) : $($tt:tt)+ ) $($rest:tt)* ) => {{
+    ( $token:ident $span:ident $($ident:ident)* # ( @ params($($param:ident$(=$expr:expr)?),+$(,)?) : $($tt:tt)* ) $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
         {
             let mut _hashmap = std::collections::HashMap::new();
@@ -346,7 +346,7 @@ macro_rules! __append_to_token {
             $(let $param = $expr;)?
             _hashmap.insert(__stringify!($param).to_string(), $crate::__parse(&$param.to_string(), $span));
             )+
-            let _input = $crate::__parse(__stringify!($($tt)+), $span);
+            let _input = $crate::__parse(__stringify!($($tt)*), $span);
             $token.extend($crate::__translate(_input, $span, &_hashmap));
         }
         __append_to_token!($token $span $($rest)*);
@@ -370,7 +370,7 @@ macro_rules! __append_to_token {
     ( $token:ident $span:ident $($ident:ident)*
         # ( @ scope :
             $( # $prefix_options:ident$(($($prefix_params:tt)*))? )*
-            $({ $($tt:tt)* } $( # $suffix_options:ident$(($($suffix_params:tt)*))? )*)+
+            $({ $($tt:tt)* } $( # $suffix_options:ident$(($($suffix_params:tt)*))? )*)*
           )
       $($rest:tt)* ) =>
     {{
@@ -381,12 +381,12 @@ macro_rules! __append_to_token {
         struct _Iter(Option<Vec<$crate::__pm::TokenStream>>, &'static str);
         let mut _flag = _Flag(true, Vec::new());
         let mut _iter = _Iter(None, "");
-        let mut _hashmap = std::collections::HashMap::new();
+        let mut _hashmap = std::collections::HashMap::<String, $crate::__pm::TokenStream>::new();
         $(__scope_command!($token $span _flag _iter _hashmap $prefix_options$(($($prefix_params)*))?);)*
         $(
         __scope_command!($token $span _flag _iter _hashmap {$($tt)*});
         $(__scope_command!($token $span _flag _iter _hashmap $suffix_options$(($($suffix_params)*))?);)*
-        )+
+        )*
         __append_to_token!($token $span $($rest)*);
     }};
     // ======================================================================
-- 
2.43.0


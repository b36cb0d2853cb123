From 88cfb4a4408bdaec23b8158acbbc9bfcbfc48e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 01/45] fix: brackets and braces inside strings are not nesting
 when splitting arrays and objects

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d379543..54bdc5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -433,19 +433,19 @@ impl Json {
                     }
                     inner.push('\"');
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     inner.push('[');
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     inner.push(']');
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     inner.push('{');
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     inner.push('}');
                 }
@@ -527,7 +527,7 @@ impl Json {
                         v.push('\"');
                     }
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('[');
@@ -535,7 +535,7 @@ impl Json {
                         v.push('[');
                     }
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push(']');
@@ -543,7 +543,7 @@ impl Json {
                         v.push(']');
                     }
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('{');
@@ -551,7 +551,7 @@ impl Json {
                         v.push('{');
                     }
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push('}');
-- 
2.43.0


From 07c253e3621f5df1f61d9f0f16016c645cf58634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 02/45] fix: whitespace does not join the tokens on either side
 of it

---
 src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 54bdc5b..b067053 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -264,11 +264,11 @@ impl Json {
 
 impl Json {
     pub fn parse(json: &str) -> Result<Json, Error> {
-        let json = json.trim_matches(is_whitespace);
         Json::_parse(json)
     }
 
     fn _parse(json: &str) -> Result<Json, Error> {
+        let json = json.trim_matches(is_whitespace);
         match json.chars().peekable().peek() {
             Some('n') => Json::parse_null(json),
             Some('t') | Some('f') => Json::parse_boolean(json),
@@ -457,7 +457,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     inner.push(ch);
                 }
@@ -577,7 +576,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     if on_key {
                         k.push(ch);
-- 
2.43.0


From e1cd3841c69ad083b3991aee395f0d605072273d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 03/45] fix: an empty array or object may contain whitespace
 and may not be followed by anything else

---
 src/lib.rs | 40 ++++++++++++++++++----------------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b067053..f1c8488 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,17 +394,15 @@ impl Json {
     fn parse_array(json: &str) -> Result<Json, Error> {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some(']') = iter.peek() {
-            return Ok(Json::Array(array));
-        }
-
         let mut i = 0;
         let mut j = 0;
         let mut inner = String::new();
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::_parse(&inner)?);
+                    if !array.is_empty() || !inner.trim_matches(is_whitespace).is_empty() {
+                        array.push(Json::_parse(&inner)?);
+                    }
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -468,10 +466,6 @@ impl Json {
     fn parse_object(json: &str) -> Result<Json, Error> {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some('}') = iter.peek() {
-            return Ok(Json::Object(object));
-        }
-
         let mut i = 0;
         let mut j = 0;
         let mut k = String::new();
@@ -479,21 +473,23 @@ impl Json {
         let mut on_key = true;
         loop {
             match iter.next() {
-                Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
-                        loop {
-                            match iter.next() {
-                                Some(ch) if is_whitespace(ch) => (),
-                                Some(ch) => return Err(Error::new(ParseObjectError,
-                                                                  format!("invalid trailing character: {}.", ch))),
-                                None => break
-                            }
+                Some('}') if i == 0 && j == 0 => {
+                    if !on_key || !object.is_empty() || !k.trim_matches(is_whitespace).is_empty() {
+                        if let Ok(Json::String(key)) = Json::_parse(&k) {
+                            object_insert(&mut object, key, Json::_parse(&v)?);
+                        } else {
+                            return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
+                        }
+                    }
+                    loop {
+                        match iter.next() {
+                            Some(ch) if is_whitespace(ch) => (),
+                            Some(ch) => return Err(Error::new(ParseObjectError,
+                                                              format!("invalid trailing character: {}.", ch))),
+                            None => break
                         }
-                        return Ok(Json::Object(object));
-                    } else {
-                        return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
+                    return Ok(Json::Object(object));
                 }
                 Some(',') if i == 0 && j == 0 && !on_key => {
                     if k.is_empty() || v.is_empty() {
-- 
2.43.0


From a48be5b8585f013ea600696ff446650201fc41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 04/45] fix: only the first colon of an object member separates
 its key from its value

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f1c8488..b417485 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -507,7 +507,7 @@ impl Json {
                         return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
                 }
-                Some(':') if i == 0 && j == 0 => {
+                Some(':') if i == 0 && j == 0 && on_key => {
                     on_key = false;
                 }
                 Some('\"') => {
-- 
2.43.0


From e57e6db7f6f1a0130c0c975a576a905acbeffa15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:11 +0000
Subject: [PATCH 05/45] fix: a number with a leading zero is not valid

---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b417485..c80481d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -694,7 +694,12 @@ fn valid_number(num: &str) -> bool {
 
     // validate '0'/'1'~'9'
     match iter.peek() {
-        Some('0') => { iter.next(); }
+        Some('0') => {
+            iter.next();
+            if let Some('0'..='9') = iter.peek() {
+                return false;
+            }
+        }
         Some('1'..='9') => {
             loop {
                 match iter.peek() {
-- 
2.43.0


From e443c6a8357476a374c5f07c13c63b7f82f5a631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 06/45] fix: removing an array index out of range is an error,
 not a panic

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index c80481d..8651b75 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,6 +218,10 @@ impl Json {
     pub fn remove(&mut self, i: usize) -> Result<(), Error> {
         match self {
             Json::Array(vec) => {
+                if i >= vec.len() {
+                    return Err(Error::new(IndexOutOfRange,
+                                          format!("index {} out of range.", i)));
+                }
                 vec.remove(i);
                 Ok(())
             }
-- 
2.43.0


From 22b30163ec31798a302b830d2e819aa71adadd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 07/45] fix: a number that is not finite is written as null,
 json has no token for it

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8651b75..2dcb151 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,8 @@ impl ToString for Json {
                             .join(", "))
             }
             Json::String(s) => escape(s),
+            // json has no NaN or infinity
+            Json::Number(f) if !f.is_finite() => "null".to_string(),
             Json::Number(f) => (*f).to_string(),
             Json::Boolean(b) => (*b).to_string(),
             Json::Null => "null".to_string(),
-- 
2.43.0


From 0d7ed2516216be3c91b444655fc1be5c3250c277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:14 +0000
Subject: [PATCH 08/45] fix: setting an index too large for any array is an
 error, not a panic

---
 src/lib.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2dcb151..e337018 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -601,6 +601,19 @@ fn object_insert(object: &mut HashMap<String, (Json, LinkedList<Json>)>, key: St
     }
 }
 
+// fill the array with null so that it contains index i
+fn array_extend_to(array: &mut Vec<Json>, i: usize) -> Result<(), Error> {
+    if i >= array.len() {
+        let additional = (i - array.len()).saturating_add(1);
+        if array.try_reserve(additional).is_err() {
+            return Err(Error::new(IndexOutOfRange,
+                                  format!("index {} too large.", i)));
+        }
+        array.resize(i + 1, Json::Null);
+    }
+    Ok(())
+}
+
 fn escape(input: &str) -> String {
     let mut output = String::with_capacity(input.len() + 2);
     output.push('\"');
@@ -1310,13 +1323,11 @@ impl Finder {
             Finder::Index(i) => {
                 match json {
                     Json::Array(vec) => {
-                        if *i >= vec.len() {
-                            vec.resize(*i + 1, Json::Null);
-                        }
+                        array_extend_to(vec, *i)?;
                     }
                     _ => {
-                        let mut vec = Vec::with_capacity(*i + 1);
-                        vec.resize(*i + 1, Json::Null);
+                        let mut vec = Vec::new();
+                        array_extend_to(&mut vec, *i)?;
                         *json = Json::Array(vec);
                     }
                 }
-- 
2.43.0


From 672e3805bf2f5c4654322d815ba862a55dd89762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:33 +0000
Subject: [PATCH 09/45] fix: #[ignore] on a field is not ambiguous with the
 builtin attribute

---
 json_derive/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 2ff7c10..5812e90 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -5,7 +5,8 @@ use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
 
-#[proc_macro_derive(JsonEncode, attributes(key, ignore))]
+// `ignore` is a builtin attribute of rust, declaring it here as well makes every use of it ambiguous
+#[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
@@ -57,7 +58,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
     }
 }
 
-#[proc_macro_derive(JsonDecode, attributes(key, ignore))]
+#[proc_macro_derive(JsonDecode, attributes(key))]
 pub fn json_decode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
-- 
2.43.0


From fdeab40f1a2cf4d94046111b9a165af3f8b9c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:34 +0000
Subject: [PATCH 10/45] fix: a struct with braces may have no fields

---
 json_derive/parse/src/field.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index d211a28..aa95b77 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -124,6 +124,8 @@ impl Parse for Fields {
             Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {
                 return Ok(Fields::StructFields(utils::split_tokens_by(group.stream(), ",")
                     .into_iter()
+                    // "struct Dummy {}" has no fields
+                    .filter(|x| !x.is_empty())
                     .map(|x| StructFieldItem::parse(x))
                     .collect::<Result<Vec<StructFieldItem>>>()?));
             }
-- 
2.43.0


From 7b5626e49dd02cae3a0790f8381451efdaba0bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:35 +0000
Subject: [PATCH 11/45] fix: JsonDecode does not pick up a Result alias of the
 surrounding module

---
 json_derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 5812e90..0544162 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -89,7 +89,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         impl#(#(&s.generics))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
-                            fn from_json(json: &json::Json) -> Result<Self, json::Error> {
+                            fn from_json(json: &json::Json) -> std::result::Result<Self, json::Error> {
                                 match json {
                                     json::Json::Object(obj) => {
                                         Ok(
-- 
2.43.0


From 2185b91a8f88894910a8b0a1e4eccfd2ecacacfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 12/45] fix: a key attribute may be any string literal, raw or
 with quotes in it

---
 json_derive/src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 0544162..eb61050 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -23,14 +23,16 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().expect("key attribute should be string");
+                                    // the literal as it is written, whatever its quotes and escapes are
+                                    key.to_string()
                                 } else {
-                                    x.ident.clone()
+                                    format!("\"{}\"", x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                format!("\"{}\"", x.ident)
                             };
-                            (format!("\"{}\".to_string()", k), x.ident.clone())
+                            (format!("{}.to_string()", k), x.ident.clone())
                         })
                         .collect();
                     quote! {
@@ -75,14 +77,16 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().expect("key attribute should be string");
+                                    // the literal as it is written, whatever its quotes and escapes are
+                                    key.to_string()
                                 } else {
-                                    x.ident.clone()
+                                    format!("\"{}\"", x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                format!("\"{}\"", x.ident)
                             };
-                            (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
+                            (k, x.ident.clone(), x.ty.used_ty())
                         })
                         .collect();
                     quote! {
-- 
2.43.0


From 0fa6cd5f3be6f23e62d6c9b8f28753a646acbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 13/45] fix: the default key of a field with a raw identifier
 is the field name

---
 json_derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index eb61050..b5c478c 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -27,10 +27,10 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                                     // the literal as it is written, whatever its quotes and escapes are
                                     key.to_string()
                                 } else {
-                                    format!("\"{}\"", x.ident)
+                                    format!("\"{}\"", x.ident.trim_start_matches("r#"))
                                 }
                             } else {
-                                format!("\"{}\"", x.ident)
+                                format!("\"{}\"", x.ident.trim_start_matches("r#"))
                             };
                             (format!("{}.to_string()", k), x.ident.clone())
                         })
@@ -81,10 +81,10 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                                     // the literal as it is written, whatever its quotes and escapes are
                                     key.to_string()
                                 } else {
-                                    format!("\"{}\"", x.ident)
+                                    format!("\"{}\"", x.ident.trim_start_matches("r#"))
                                 }
                             } else {
-                                format!("\"{}\"", x.ident)
+                                format!("\"{}\"", x.ident.trim_start_matches("r#"))
                             };
                             (k, x.ident.clone(), x.ty.used_ty())
                         })
-- 
2.43.0


From 36d428742715afd51be1c624e37caec46d3d5363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 14/45] fix: defaults of type parameters are not repeated on
 the derived impl

---
 json_derive/parse/src/generic.rs | 26 +++++++++++++++++++++++---
 json_derive/src/lib.rs           |  4 ++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 9cefbf0..020b576 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -28,6 +28,19 @@ impl Generics {
         self.n + 2
     }
 
+    // to declare the same parameters on an impl, where defaults are not allowed
+    pub fn no_defaults(&self) -> String {
+        if !self.items.is_empty() {
+            format!("<{}>", self.items
+                .iter()
+                .map(|x| x.decl())
+                .collect::<Vec<String>>()
+                .join(", "))
+        } else {
+            String::default()
+        }
+    }
+
     pub fn only_idents(&self) -> String {
         if !self.items.is_empty() {
             format!("<{}>", self.items
@@ -176,10 +189,9 @@ impl GenericItem {
     pub fn is_static(&self) -> bool {
         &self.ident == "'static"
     }
-}
 
-impl ToString for GenericItem {
-    fn to_string(&self) -> String {
+    // the parameter and its bounds, without its default
+    fn decl(&self) -> String {
         let mut gen = self.ident.clone();
 
         let mut buf = self.traits
@@ -199,6 +211,14 @@ impl ToString for GenericItem {
             gen.push_str(&buf.join(" + "));
         }
 
+        gen
+    }
+}
+
+impl ToString for GenericItem {
+    fn to_string(&self) -> String {
+        let mut gen = self.decl();
+
         if let Some(ref default) = self.default {
             gen.push_str(" = ");
             gen.push_str(&default.to_string());
diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index b5c478c..c636766 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -36,7 +36,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.no_defaults()))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn to_json(&self) -> json::Json {
@@ -90,7 +90,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.no_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn from_json(json: &json::Json) -> std::result::Result<Self, json::Error> {
-- 
2.43.0


From 39c78a4be8623bc1f1bb339cb83f01e688d66272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:35 +0000
Subject: [PATCH 15/45] fix: a const generic parameter is not turned into a
 lifetime

---
 json_derive/parse/src/generic.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 020b576..4a340a2 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -173,6 +173,7 @@ impl Parse for Generics {
 #[derive(Debug)]
 pub struct GenericItem {
     pub ident: String,
+    pub constant: bool,
     pub traits: Vec<Name>,
     pub lifetimes: Vec<Name>,
     pub sized: bool,
@@ -192,7 +193,11 @@ impl GenericItem {
 
     // the parameter and its bounds, without its default
     fn decl(&self) -> String {
-        let mut gen = self.ident.clone();
+        let mut gen = if self.constant {
+            format!("const {}", self.ident)
+        } else {
+            self.ident.clone()
+        };
 
         let mut buf = self.traits
             .iter()
@@ -246,6 +251,7 @@ impl Parse for GenericItem {
         // preload generic item
         let mut item = GenericItem {
             ident: String::default(),
+            constant: false,
             traits: Vec::default(),
             lifetimes: Vec::default(),
             sized: true,
@@ -322,7 +328,8 @@ impl Parse for GenericItem {
                     }
                     TokenTree::Ident(ident) if &ident.to_string() == "const" => {
                         if let TokenTree::Ident(name) = &ident_tokens[1] {
-                            format!("'{}", name.to_string())
+                            item.constant = true;
+                            name.to_string()
                         } else {
                             return Err(Error::new(format!("const generic name should be an Ident, got {}.", &ident_tokens[1])));
                         }
-- 
2.43.0


From 8a005ddca26a42cc6a209537257312438f7d86d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:54 +0000
Subject: [PATCH 16/45] fix: an attribute named by a path does not break the
 derives

---
 json_derive/parse/src/meta.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 6ec8067..130de3d 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -513,6 +513,21 @@ impl Parse for MetaItem {
             into_iter().
             collect::<Vec<TokenTree>>();
 
+        // the name may be a path, as in clippy::all: parse what follows the
+        // first segment and put that segment in front of its name
+        if meta.len() > 3 && utils::punct_eq(':')(&meta[1]) && utils::punct_eq(':')(&meta[2]) {
+            if let TokenTree::Ident(prefix) = &meta[0] {
+                let mut item = MetaItem::parse(TokenStream::from_iter(meta[3..].to_vec()))?;
+                match &mut item {
+                    MetaItem::Ident(name) |
+                    MetaItem::Pair { key: name, .. } |
+                    MetaItem::Group { ident: name, .. } => *name = format!("{}::{}", prefix, name),
+                    MetaItem::Literal(_) => return Err(Error::new(format!("malformed meta item: {}.", input)))
+                }
+                return Ok(item);
+            }
+        }
+
         // for different case
         match meta.len() {
             // ident or literal
-- 
2.43.0


From ed05cbf7384995837183276d06cacad6a164048d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 17/45] fix: a path string of many segments is read in linear
 time

---
 src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e337018..97dd3d1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1183,13 +1183,13 @@ fn parse_path(s: &str) -> Result<Path, Error> {
         }
     }
 
-    let mut iter = vec.into_iter();
-    let mut path = Path::new(
-        iter.next().ok_or(Error::new(PathSyntaxError, "invalid syntax: empty path.".to_string()))?
-    );
-    iter.for_each(|f| { path.append(f); });
+    // from the last step to the first, appending to the end of a long path would walk all of it
+    let mut path = None;
+    for finder in vec.into_iter().rev() {
+        path = Some(Path { finder, next: path.map(Box::new) });
+    }
 
-    Ok(path)
+    path.ok_or(Error::new(PathSyntaxError, "invalid syntax: empty path.".to_string()))
 }
 
 #[derive(Debug)]
-- 
2.43.0


From b3d6addbdadf46f9b84f6a52cae630447ad63c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:30 +0000
Subject: [PATCH 18/45] fix: a type is written with its lifetime apart and its
 association in front

---
 json_derive/parse/src/name.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index afbd19c..9a608a2 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -290,15 +290,21 @@ impl ToString for Type {
     fn to_string(&self) -> String {
         let mut ty = String::new();
 
+        if let Some(ident) = &self.ident {
+            ty.push_str(ident);
+            ty.push_str(" = ");
+        }
+
         if self.is_ref {
             ty.push('&');
 
             if let Some(lifetime) = &self.lifetime {
                 ty.push_str(&lifetime.to_string());
+                ty.push(' ');
             }
 
             if self.is_mut {
-                ty.push_str(" mut ");
+                ty.push_str("mut ");
             }
         }
 
@@ -310,11 +316,6 @@ impl ToString for Type {
             ty.push_str("impl ");
         }
 
-        if let Some(ident) = &self.ident {
-            ty.push_str(ident);
-            ty.push_str(" = ");
-        }
-
         ty.push_str(&self.names
             .iter()
             .map(|x| x.to_string())
-- 
2.43.0


From 417289815771e465e03752b3387b89ba2d823751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 19/45] fix: types and bounds of any other form are kept as
 written instead of being rejected

---
 json_derive/parse/src/lib.rs  |  9 ++++++---
 json_derive/parse/src/name.rs | 36 ++++++++++++++---------------------
 2 files changed, 20 insertions(+), 25 deletions(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index e9b0d01..f113bc1 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -706,7 +706,7 @@ impl Parse for FnItem {
                 match peek.peek() {
                     Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
                         peek.next();
-                        let return_ty = Type::parse(peek.clone()
+                        let tokens = peek.clone()
                             .take_while(|x| {
                                 match x {
                                     TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,
@@ -714,8 +714,11 @@ impl Parse for FnItem {
                                     _ => true
                                 }
                             })
-                            .collect())?;
-                        peek.nth(return_ty.__token_num() - 1);
+                            .collect::<Vec<TokenTree>>();
+                        let n = tokens.len();
+                        let return_ty = Type::parse(tokens.into_iter().collect())?;
+                        // skip return type tokens
+                        peek.nth(n - 1);
                         Some(return_ty)
                     }
                     _ => {
diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 9a608a2..e7afce4 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -71,6 +71,12 @@ impl Name {
     pub fn is_lifetime(&self) -> bool {
         self.ident.starts_with('\'')
     }
+
+    // types and bounds have more forms than the ones taken apart here, like
+    // *const T, for<'a> Fn(&'a T), Vec::<T> or a const argument: keep their text
+    fn as_written(prefixes: Vec<String>, stream: Vec<TokenTree>) -> Name {
+        Name { prefixes, ident: TokenStream::from_iter(stream).to_string(), generics: Vec::new() }
+    }
 }
 
 impl ToString for Name {
@@ -155,7 +161,7 @@ impl Parse for Name {
                         Ok(Name { prefixes, ident: group.to_string(), generics: Vec::new() })
                     }
 
-                    _ => Err(Error::new(format!("single identifier should be Ident, got {}.", input)))
+                    _ => Ok(Name::as_written(prefixes, stream))
                 }
             }
 
@@ -173,9 +179,7 @@ impl Parse for Name {
                             }
                         }
                     }
-                    other => {
-                        Err(Error::new(format!("lifetime identifier should start with \', got {}.", other)))
-                    }
+                    _ => Ok(Name::as_written(prefixes, stream))
                 }
             }
 
@@ -195,11 +199,13 @@ impl Parse for Name {
                                 .collect::<Result<Vec<Type>>>()?,
                         })
                     }
-                    _ => Err(Error::new(format!("malformed identifier with generics: {}.", input)))
+                    _ => Ok(Name::as_written(prefixes, stream))
                 }
             }
 
-            _ => Err(Error::new(format!("malformed identifier: {}.", input)))
+            0 => Err(Error::new(format!("malformed identifier: {}.", input))),
+
+            _ => Ok(Name::as_written(prefixes, stream))
         }
     }
 }
@@ -270,19 +276,7 @@ impl Type {
 
     // to produce a type that can use static method like T::method
     pub fn used_ty(&self) -> String {
-        let mut ty = String::new();
-        if self.is_ref {
-            ty.push('&');
-        }
-        if self.is_dyn {
-            ty.push_str("dyn ");
-        }
-        ty.push_str(&self.names
-            .iter()
-            .map(|x| x.to_string())
-            .collect::<Vec<_>>()
-            .join(" + "));
-        ty
+        self.to_string()
     }
 }
 
@@ -417,9 +411,7 @@ impl Parse for Type {
 
         // validate
         if peek.peek().is_none()
-            || (is_ref && (is_dyn || is_imp))
-            || (is_dyn && (is_ref || is_imp))
-            || (is_imp && (is_ref || is_dyn)) {
+            || (is_dyn && is_imp) {
             return Err(Error::new(format!("malformed type: {}.", input)));
         }
 
-- 
2.43.0


From 25bc032885bbd0d00fbac9b884b3589fa7ddfba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:43 +0000
Subject: [PATCH 20/45] fix: a key attribute without a string is an error, it
 was silently ignored

---
 json_derive/src/lib.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index c636766..2447fd8 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -4,6 +4,18 @@ use proc_macro::TokenStream;
 use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
+use json_parse::meta::{Meta, MetaItem};
+
+// #[key] and #[key("...")] name no key either
+fn check_key(meta: &Meta) {
+    for item in &meta.items {
+        match item {
+            MetaItem::Ident(ident) |
+            MetaItem::Group { ident, .. } if ident == "key" => panic!("key attribute should be string"),
+            _ => ()
+        }
+    }
+}
 
 // `ignore` is a builtin attribute of rust, declaring it here as well makes every use of it ambiguous
 #[proc_macro_derive(JsonEncode, attributes(key))]
@@ -22,6 +34,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         })
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
+                                check_key(meta);
                                 if let Some(key) = meta.get("key") {
                                     key.string().expect("key attribute should be string");
                                     // the literal as it is written, whatever its quotes and escapes are
@@ -76,6 +89,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                     let v: Vec<(String, String, String)> = v.iter()
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
+                                check_key(meta);
                                 if let Some(key) = meta.get("key") {
                                     key.string().expect("key attribute should be string");
                                     // the literal as it is written, whatever its quotes and escapes are
-- 
2.43.0


From 53bb3351911f0ae6d528e52270a034dac76aac44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:44 +0000
Subject: [PATCH 21/45] fix: attributes of any other form do not break the
 derives

---
 json_derive/parse/src/meta.rs | 23 ++++++++++++++++-------
 json_derive/src/lib.rs        |  3 ++-
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 130de3d..b1bd8a4 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -406,11 +406,6 @@ impl ToString for NestedMeta {
 
 impl Parse for NestedMeta {
     fn parse(input: TokenStream) -> Result<NestedMeta> {
-        // handle empty input
-        if input.is_empty() {
-            return Err(Error::new("got empty input when parsing nested meta item."));
-        }
-
         // convert single TokenStream to Vec<MetaItem> split by ','
         let items: Vec<MetaItem> = input
             // into iterator
@@ -453,6 +448,9 @@ pub enum MetaItem {
 
     // #[name(...)]
     Group { ident: String, inner: NestedMeta },
+
+    // every other form, kept as written
+    Other { ident: String, raw: String },
 }
 
 impl ToString for MetaItem {
@@ -462,6 +460,7 @@ impl ToString for MetaItem {
             MetaItem::Literal(lit) => lit.to_string(),
             MetaItem::Pair { key, lit, eq } => format!("{} {} {}", key, eq, lit.to_string()),
             MetaItem::Group { ident, inner } => format!("{}({})", ident, inner.to_string()),
+            MetaItem::Other { raw, .. } => raw.clone(),
         }
     }
 }
@@ -507,6 +506,16 @@ impl Parse for MetaItem {
             return Err(Error::new("got empty input when parsing meta items."));
         }
 
+        MetaItem::known_form(input.clone()).or_else(|_| Ok(MetaItem::Other {
+            ident: input.clone().into_iter().next().unwrap().to_string(),
+            raw: input.to_string(),
+        }))
+    }
+}
+
+impl MetaItem {
+    // ident, literal, pair or group
+    fn known_form(input: TokenStream) -> Result<MetaItem> {
         // TokenStream[TokenTree, TokenTree, TokenTree]
         let meta = input
             .clone().
@@ -517,12 +526,12 @@ impl Parse for MetaItem {
         // first segment and put that segment in front of its name
         if meta.len() > 3 && utils::punct_eq(':')(&meta[1]) && utils::punct_eq(':')(&meta[2]) {
             if let TokenTree::Ident(prefix) = &meta[0] {
-                let mut item = MetaItem::parse(TokenStream::from_iter(meta[3..].to_vec()))?;
+                let mut item = MetaItem::known_form(TokenStream::from_iter(meta[3..].to_vec()))?;
                 match &mut item {
                     MetaItem::Ident(name) |
                     MetaItem::Pair { key: name, .. } |
                     MetaItem::Group { ident: name, .. } => *name = format!("{}::{}", prefix, name),
-                    MetaItem::Literal(_) => return Err(Error::new(format!("malformed meta item: {}.", input)))
+                    _ => return Err(Error::new(format!("malformed meta item: {}.", input)))
                 }
                 return Ok(item);
             }
diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 2447fd8..aa644f0 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -11,7 +11,8 @@ fn check_key(meta: &Meta) {
     for item in &meta.items {
         match item {
             MetaItem::Ident(ident) |
-            MetaItem::Group { ident, .. } if ident == "key" => panic!("key attribute should be string"),
+            MetaItem::Group { ident, .. } |
+            MetaItem::Other { ident, .. } if ident == "key" => panic!("key attribute should be string"),
             _ => ()
         }
     }
-- 
2.43.0


From 777469c8e14042ee5109a5dc4005a92eeba984c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 22/45] fix: string and byte literals keep everything between
 their quotes, raw ones with any number of #

---
 json_derive/parse/src/meta.rs | 58 +++++++++++------------------------
 1 file changed, 18 insertions(+), 40 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index b1bd8a4..75dc739 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -275,37 +275,17 @@ macro_rules! fix_suffix {
     }};
 }
 
-macro_rules! fix_bytes {
-    ( $ident:ident => ( $(( $prefix:literal, $suffix:literal )),+ ) ) => {
-        $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
-            return Ok(
-                Lit::Bytes {
-                    bytes: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
-                        .as_bytes()
-                        .to_vec(),
-                    raw: $ident,
-                }
-            );
-        })+
-    };
-}
-
-macro_rules! fix_string {
-    ( $ident:ident => ( $(( $prefix:literal, $suffix:literal )),+ ) ) => {
-        $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
-            return Ok(
-                Lit::String {
-                    string: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
-                        .to_string(),
-                    raw: $ident,
-                }
-            );
-        })+
-    };
+// the text between the quotes of a literal, which may be raw with any number of '#'
+fn unquote<'a>(raw: &'a str, prefix: &str) -> Option<&'a str> {
+    let s = raw.strip_prefix(prefix)?;
+    match s.strip_prefix('r') {
+        Some(s) => {
+            let inner = s.trim_start_matches('#');
+            let hashes = &s[..s.len() - inner.len()];
+            inner.strip_prefix('"')?.strip_suffix(hashes)?.strip_suffix('"')
+        }
+        None => s.strip_prefix('"')?.strip_suffix('"')
+    }
 }
 
 impl Parse for Lit {
@@ -334,17 +314,15 @@ impl Parse for Lit {
                 let raw = lit.to_string();
 
                 // parse bytes
-                fix_bytes!(raw => (("b\'", "\'"),
-                                   ("b\"", "\""),
-                                   ("br\"", "\""),
-                                   ("br#\"", "\"#"),
-                                   ("br##\"", "\"##")));
+                let byte = raw.strip_prefix("b\'").and_then(|x| x.strip_suffix('\''));
+                if let Some(inner) = unquote(&raw, "b").or(byte) {
+                    return Ok(Lit::Bytes { bytes: inner.as_bytes().to_vec(), raw });
+                }
 
                 // parse string
-                fix_string!(raw => (("\"", "\""),
-                                    ("r\"", "\""),
-                                    ("r#\"", "\"#"),
-                                    ("r##\"", "\"##")));
+                if let Some(inner) = unquote(&raw, "") {
+                    return Ok(Lit::String { string: inner.to_string(), raw });
+                }
 
                 // parse int
                 if let Ok(integer) = fix_suffix!(raw: i32 => (
-- 
2.43.0


From 1f0c2a76f34cff95845712d30e8f144c0a9c2c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:46 +0000
Subject: [PATCH 23/45] fix: a where predicate whose only bound is Sized is
 written with its colon

---
 json_derive/parse/src/generic.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 4a340a2..c18d8ab 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -199,6 +199,17 @@ impl GenericItem {
             self.ident.clone()
         };
 
+        let buf = self.bounds();
+
+        if buf.len() > 0 {
+            gen.push_str(": ");
+            gen.push_str(&buf.join(" + "));
+        }
+
+        gen
+    }
+
+    fn bounds(&self) -> Vec<String> {
         let mut buf = self.traits
             .iter()
             .map(|x| x.to_string())
@@ -211,12 +222,7 @@ impl GenericItem {
             buf.push("?Sized".to_string());
         }
 
-        if buf.len() > 0 {
-            gen.push_str(": ");
-            gen.push_str(&buf.join(" + "));
-        }
-
-        gen
+        buf
     }
 }
 
@@ -418,7 +424,11 @@ impl ToString for WhereClause {
         if !self.items.is_empty() {
             format!("where {}", self.items
                 .iter()
-                .map(|x| x.to_string())
+                // a predicate keeps its colon even if no bound is left
+                .map(|x| match x.bounds().is_empty() {
+                    true => format!("{}:", x.ident),
+                    false => x.to_string()
+                })
                 .collect::<Vec<String>>()
                 .join(", "))
         } else {
-- 
2.43.0


From b1144a6a36cf64228acb1709ffc1904b8a397dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:26 +0000
Subject: [PATCH 24/45] fix: a where clause may bound types of any form

---
 json_derive/parse/src/generic.rs | 25 +++++++++++--------------
 json_derive/parse/src/utils.rs   | 12 +++++++++++-
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index c18d8ab..9d8e0ca 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -281,9 +281,14 @@ impl Parse for GenericItem {
         let mut generic: Vec<TokenStream> = Vec::with_capacity(2);
         let mut token = TokenStream::new();
         let mut hit_colon = false;
-        for e in tokens[0].clone() {
+        let mut iter = tokens[0].clone().into_iter().peekable();
+        while let Some(e) = iter.next() {
             if hit_colon {
                 token.extend(Some(e));
+            } else if utils::is_path_sep(&e, iter.peek()) {
+                // a type with bounds may be a path, like T::Item
+                token.extend(Some(e));
+                token.extend(iter.next());
             } else {
                 match e {
                     TokenTree::Punct(ref punct) if punct.as_char() == ':' => {
@@ -317,7 +322,8 @@ impl Parse for GenericItem {
                 if let TokenTree::Ident(name) = &ident_tokens[0] {
                     name.to_string()
                 } else {
-                    return Err(Error::new(format!("generic name should be an Ident, got {}.", &ident_tokens[0])));
+                    // a where clause bounds types of any form
+                    generic[0].to_string()
                 }
             }
 
@@ -340,21 +346,12 @@ impl Parse for GenericItem {
                             return Err(Error::new(format!("const generic name should be an Ident, got {}.", &ident_tokens[1])));
                         }
                     }
-                    _ => {
-                        return Err(Error::new(format!("unexpected generic: {}.", ident_tokens.into_iter().collect::<TokenStream>())));
-                    }
+                    _ => generic[0].to_string()
                 }
             }
 
-            // malformed
-            _ => {
-                return Err(Error::new(format!(
-                    "malformed generic ident, expected 'a or T, got: {}.",
-                    ident_tokens
-                        .into_iter()
-                        .collect::<TokenStream>()
-                )));
-            }
+            // any other type
+            _ => generic[0].to_string()
         };
 
         // then we match bounds, including traits, lifetime and sized
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 1b02187..6350240 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -1,5 +1,5 @@
 use std::iter::FromIterator;
-use proc_macro::{TokenTree, TokenStream};
+use proc_macro::{TokenTree, TokenStream, Spacing};
 
 // punct_eq generate a closure to judge whether a TokenTree is
 // the given punct, which usually use in iter.filter() method.
@@ -12,6 +12,16 @@ pub fn punct_eq(c: char) -> impl FnMut(&TokenTree) -> bool {
     }
 }
 
+// "::" is two puncts, neither of them separates a name from its type or bounds
+pub fn is_path_sep(token: &TokenTree, next: Option<&TokenTree>) -> bool {
+    match (token, next) {
+        (TokenTree::Punct(a), Some(TokenTree::Punct(b))) => {
+            a.as_char() == ':' && a.spacing() == Spacing::Joint && b.as_char() == ':'
+        }
+        _ => false
+    }
+}
+
 // split the given TokenStream to a Vec<TokenStream> by char, usually
 // use to split generic parameters because rust does not treated angle
 // bracket as a valid group delimiter. It is preferred to use split_tokens_by
-- 
2.43.0


From 41a300778839d9637c5511de20398893a05c261b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:27 +0000
Subject: [PATCH 25/45] fix: fn parameters of a path type are read, and mut is
 kept

---
 json_derive/parse/src/param.rs | 5 +++--
 json_derive/parse/src/utils.rs | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index 726510b..57aec16 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -97,8 +97,9 @@ impl Parse for ParamItem {
 
         // parse name
         let ident = match tokens.pop() {
-            Some(token) => match token.into_iter().next() {
-                Some(TokenTree::Ident(ident)) => Some(ident.to_string()),
+            Some(token) => match token.clone().into_iter().next() {
+                // the ident may be "mut x"
+                Some(TokenTree::Ident(_)) => Some(token.to_string()),
                 Some(other) => return Err(Error::new(format!("field name should be an ident, got {}.", other))),
                 _ => None,
             }
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 6350240..435982d 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -75,6 +75,13 @@ pub fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
                         // case #2
                         TokenTree::Punct(punct) if punct.as_char() == '>' => n -= 1,
 
+                        // "::" is not a single ':'
+                        TokenTree::Punct(_) if sep == ":" && is_path_sep(&next, iter.peek()) => {
+                            inner.push(next);
+                            inner.push(iter.next().unwrap());
+                            continue;
+                        }
+
                         // hit single sep
                         TokenTree::Punct(punct) if n == 0 && sep.len() == 1 => {
                             if punct.as_char() == sep.chars().next().unwrap() {
-- 
2.43.0


From 5739fdf98ddad09951bd164c0cd610424178b3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 26/45] fix: a negative literal is written with its sign

---
 json_derive/parse/src/meta.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 75dc739..785d751 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -547,8 +547,8 @@ impl MetaItem {
                 // parse negative value
                 if utils::punct_eq('-')(&meta[0]) {
                     match Lit::parse(meta[1].clone().into())? {
-                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw })),
-                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw })),
+                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw: format!("-{}", raw) })),
+                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw: format!("-{}", raw) })),
                         _ => return Err(Error::new(format!("error parsing negative literal: {}.", input)))
                     }
                 }
@@ -619,8 +619,8 @@ impl MetaItem {
                 // match negative value literal
                 if utils::punct_eq('-')(&meta[2]) {
                     match Lit::parse(meta[3].clone().into())? {
-                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw }; }
-                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw }; }
+                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw: format!("-{}", raw) }; }
+                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw: format!("-{}", raw) }; }
                         _ => return Err(Error::new(format!("error parsing negative literal: - {}.", &meta[3])))
                     }
                 } else {
-- 
2.43.0


From 54d45ab6046092652468155cbcb54aa19994f965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 27/45] fix: functions without parameters, enums without values
 and empty tuple structs are read

---
 json_derive/parse/src/enum_value.rs | 2 ++
 json_derive/parse/src/field.rs      | 2 ++
 json_derive/parse/src/param.rs      | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index 3d79369..12d0466 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -41,6 +41,8 @@ impl Parse for EnumValues {
                 return Ok(EnumValues {
                     items: utils::split_tokens_by(group.stream(), ",")
                         .into_iter()
+                        // "enum Dummy {}" has no values
+                        .filter(|x| !x.is_empty())
                         .map(|x| EnumValueItem::parse(x))
                         .collect::<Result<Vec<EnumValueItem>>>()?
                 });
diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index aa95b77..bef0129 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -102,6 +102,8 @@ impl Parse for Fields {
             Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
                 let mut vec: Vec<TupleFieldItem> = utils::split_tokens_by(group.stream(), ",")
                     .into_iter()
+                    // "struct Dummy()" has no fields
+                    .filter(|x| !x.is_empty())
                     .map(|x| TupleFieldItem::parse(x))
                     .collect::<Result<Vec<TupleFieldItem>>>()?;
 
diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index 57aec16..1f44a2b 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -40,6 +40,8 @@ impl Parse for Params {
                 return Ok(Params {
                     items: utils::split_tokens_by(group.stream(), ",")
                         .into_iter()
+                        // "fn f()" has no parameters
+                        .filter(|x| !x.is_empty())
                         .map(|x| ParamItem::parse(x))
                         .collect::<Result<Vec<ParamItem>>>()?
                 });
-- 
2.43.0


From ac534b29624e825609ece968526ffe509f328b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:04 +0000
Subject: [PATCH 28/45] fix: extern without an ABI is not dropped

---
 json_derive/parse/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index f113bc1..265bc89 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -648,7 +648,8 @@ impl Parse for FnItem {
                         peek.next();
                         extern_abi
                     }
-                    _ => None
+                    // "extern fn" means the C ABI
+                    _ => Some(Literal::string("C"))
                 }
             }
             _ => None
-- 
2.43.0


From 389839871f0b1c5f23eedb1ea945395d44603990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:06 +0000
Subject: [PATCH 29/45] fix: the where clause of a unit struct is written

---
 json_derive/parse/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 265bc89..8e214c0 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -195,6 +195,9 @@ impl ToString for StructItem {
 
         match &self.fields {
             Fields::NoFields => {
+                if let Some(where_clause) = &self.where_clause {
+                    s.push_str(&where_clause.to_string());
+                }
                 s.push(';');
             }
             fields @ Fields::TupleFields(_) => {
-- 
2.43.0


From 12e4330346cefb19ac7113c16a5edcefff2fb458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 30/45] fix: declarations made by a macro_rules macro are read

---
 json_derive/parse/src/lib.rs   |  2 +-
 json_derive/parse/src/utils.rs | 24 +++++++++++++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 8e214c0..38f66b2 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -45,7 +45,7 @@ pub trait Parse: Sized {
 
 // a general function to parse Item
 pub fn parse<T: Parse>(input: TokenStream) -> Result<T> {
-    T::parse(input)
+    T::parse(utils::flatten(input))
 }
 
 // Item represents rust item
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 435982d..5534e85 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -1,5 +1,5 @@
 use std::iter::FromIterator;
-use proc_macro::{TokenTree, TokenStream, Spacing};
+use proc_macro::{TokenTree, TokenStream, Spacing, Delimiter, Group};
 
 // punct_eq generate a closure to judge whether a TokenTree is
 // the given punct, which usually use in iter.filter() method.
@@ -12,6 +12,28 @@ pub fn punct_eq(c: char) -> impl FnMut(&TokenTree) -> bool {
     }
 }
 
+// what a macro puts in the place of $x:ty, $x:vis or $x:literal comes in
+// a group without delimiters, replace such groups by the tokens in them
+pub fn flatten(input: TokenStream) -> TokenStream {
+    let mut tokens = TokenStream::new();
+    for token in input {
+        match token {
+            TokenTree::Group(group) => {
+                let inner = flatten(group.stream());
+                if group.delimiter() == Delimiter::None {
+                    tokens.extend(inner);
+                } else {
+                    let mut flat = Group::new(group.delimiter(), inner);
+                    flat.set_span(group.span());
+                    tokens.extend(Some(TokenTree::from(flat)));
+                }
+            }
+            token => tokens.extend(Some(token))
+        }
+    }
+    tokens
+}
+
 // "::" is two puncts, neither of them separates a name from its type or bounds
 pub fn is_path_sep(token: &TokenTree, next: Option<&TokenTree>) -> bool {
     match (token, next) {
-- 
2.43.0


From aade3102b586413d73520d182fefe64928ab39ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:16 +0000
Subject: [PATCH 31/45] fix: a parameter or where predicate may have a colon
 and no bounds

---
 json_derive/parse/src/generic.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 9d8e0ca..1f6d9d0 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -358,6 +358,8 @@ impl Parse for GenericItem {
         if generic.len() > 1 {
             let bounds_tokens = utils::split_tokens_by(generic[1].clone(), "+")
                 .into_iter()
+                // "T:" has no bounds
+                .filter(|x| !x.is_empty())
                 .map(|x| {
                     x.into_iter()
                         .collect::<Vec<TokenTree>>()
-- 
2.43.0


From 0e5308842b1b31c920ca98290e7eb138120b3e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:25 +0000
Subject: [PATCH 32/45] fix: a const argument in braces does not end a where
 clause or return type

---
 json_derive/parse/src/generic.rs |  6 +++---
 json_derive/parse/src/lib.rs     |  4 ++--
 json_derive/parse/src/utils.rs   | 23 +++++++++++++++++++++++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 1f6d9d0..630087d 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -445,6 +445,7 @@ impl Parse for WhereClause {
 
         // n represents tokens num
         let mut n = 0;
+        let mut is_body = utils::is_body();
 
         // build stream from input
         let stream = input
@@ -462,9 +463,8 @@ impl Parse for WhereClause {
             // then we retain tokens before "{}" or ";"
             .take_while(|x| {
                 match x {
-                    TokenTree::Punct(punct) => punct.as_char() != ';',
-                    TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,
-                    _ => true
+                    TokenTree::Punct(punct) if punct.as_char() == ';' => false,
+                    _ => !is_body(x)
                 }
             })
             // count num of tokens
diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 38f66b2..f1c6c6a 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -710,12 +710,12 @@ impl Parse for FnItem {
                 match peek.peek() {
                     Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
                         peek.next();
+                        let mut is_body = utils::is_body();
                         let tokens = peek.clone()
                             .take_while(|x| {
                                 match x {
-                                    TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,
                                     TokenTree::Ident(ident) => &ident.to_string() != "where",
-                                    _ => true
+                                    _ => !is_body(x)
                                 }
                             })
                             .collect::<Vec<TokenTree>>();
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 5534e85..8f8dd21 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -34,6 +34,29 @@ pub fn flatten(input: TokenStream) -> TokenStream {
     tokens
 }
 
+// inside angle brackets a brace group is a const argument, not the body of an item
+pub fn is_body() -> impl FnMut(&TokenTree) -> bool {
+    let mut depth = 0;
+    let mut prev = ' ';
+    move |x: &TokenTree| {
+        let c = match x {
+            TokenTree::Punct(p) => p.as_char(),
+            _ => ' '
+        };
+        match c {
+            '<' => depth += 1,
+            // HINT: '>' after '-' is not a bracket
+            '>' if prev != '-' => depth -= 1,
+            _ => ()
+        }
+        prev = c;
+        match x {
+            TokenTree::Group(group) => depth == 0 && group.delimiter() == Delimiter::Brace,
+            _ => false
+        }
+    }
+}
+
 // "::" is two puncts, neither of them separates a name from its type or bounds
 pub fn is_path_sep(token: &TokenTree, next: Option<&TokenTree>) -> bool {
     match (token, next) {
-- 
2.43.0


From b6041f6796459ab279cea865341279e95db53fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:16 +0000
Subject: [PATCH 33/45] fix: a negative discriminant of an enum value is read

---
 json_derive/parse/src/enum_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index 12d0466..5f4e4af 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -102,7 +102,8 @@ impl Parse for EnumValueItem {
         // first we parse discrimination
         let tokens = utils::split_tokens_by(input.clone(), "=");
         let disc = if tokens.len() >= 2 {
-            let s = tokens[1].to_string();
+            // "-1" is two tokens, which may be written as "- 1"
+            let s = tokens[1].to_string().replace("- ", "-");
             match s.parse::<isize>() {
                 Ok(n) => Some(n),
                 _ => {
-- 
2.43.0


From b582c87595619bb05b288f81e270205516f4d2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 34/45] fix: a tuple behind pub is the type of the field, not a
 restriction

---
 json_derive/parse/src/field.rs |  2 +-
 json_derive/parse/src/utils.rs | 15 +++++++++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index bef0129..636d19b 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -202,7 +202,7 @@ impl Parse for TupleFieldItem {
             Some(TokenTree::Ident(ident)) if &ident.to_string() == "pub" => {
                 peek.next();
                 match peek.peek() {
-                    Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
+                    Some(TokenTree::Group(group)) if utils::is_restriction(group) => {
                         let path = Some(group.stream().to_string());
                         peek.next();
                         Some(path)
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 8f8dd21..204bc00 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -34,6 +34,21 @@ pub fn flatten(input: TokenStream) -> TokenStream {
     tokens
 }
 
+// whether a group behind "pub" restricts it, "pub (A, B)" is a tuple that is public
+pub fn is_restriction(group: &Group) -> bool {
+    let mut iter = group.stream().into_iter();
+    match (group.delimiter(), iter.next(), iter.next()) {
+        (Delimiter::Parenthesis, Some(TokenTree::Ident(ident)), next) => {
+            match ident.to_string().as_str() {
+                "in" => next.is_some(),
+                "crate" | "self" | "super" => next.is_none(),
+                _ => false
+            }
+        }
+        _ => false
+    }
+}
+
 // inside angle brackets a brace group is a const argument, not the body of an item
 pub fn is_body() -> impl FnMut(&TokenTree) -> bool {
     let mut depth = 0;
-- 
2.43.0


From c4e95e64e4beae1937f3f3c679cc3624edaf1cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:45 +0000
Subject: [PATCH 35/45] fix: a discriminant with several = is an error, not cut
 off

---
 json_derive/parse/src/enum_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index 5f4e4af..d3078fd 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -114,7 +114,8 @@ impl Parse for EnumValueItem {
             None
         };
 
-        if tokens.is_empty() {
+        // "A = 1 == 2" is not a number
+        if tokens.is_empty() || tokens.len() > 2 {
             return Err(Error::new(format!("malformed enum value: {}.", input)));
         }
 
-- 
2.43.0


From b168bc3f6d379cd7cfc92cdccc58eacf66be47ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:49 +0000
Subject: [PATCH 36/45] fix: several tokens in front of the colon of a field
 are an error

---
 json_derive/parse/src/field.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index 636d19b..36f7e08 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -330,6 +330,10 @@ impl Parse for StructFieldItem {
 
         // parse name
         let ident = match tokens.pop() {
+            // "unsafe a: T" is not a field with the name unsafe
+            Some(token) if token.clone().into_iter().count() > 1 => {
+                return Err(Error::new(format!("field name should be an ident, got {}.", token)));
+            }
             Some(token) => match token.into_iter().next() {
                 Some(TokenTree::Ident(ident)) => ident.to_string(),
                 Some(other) => return Err(Error::new(format!("field name should be an ident, got {}.", other))),
-- 
2.43.0


From 2b0a56719cf140cb2069787c5e42874bfb3c325e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 37/45] fix: pub in front of an enum value is an error, not its
 name

---
 json_derive/parse/src/enum_value.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index d3078fd..8935cf0 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -154,7 +154,11 @@ impl Parse for EnumValueItem {
 
         // parse fields
         let fields = match peek.peek() {
-            Some(_) => Fields::parse(peek.collect())?,
+            Some(TokenTree::Group(_)) => Fields::parse(peek.collect())?,
+            // "pub A(..)" is not a value with the name pub
+            Some(other) => {
+                return Err(Error::new(format!("enum value expects fields, got {}.", other)));
+            }
             None => Fields::NoFields
         };
 
-- 
2.43.0


From d19f1373ce5b47856336e85bcb15cb1c78731875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:48 +0000
Subject: [PATCH 38/45] fix: the type of a where predicate does not end at a
 colon in angle brackets

---
 json_derive/parse/src/generic.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 630087d..e4d8dcb 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -281,9 +281,23 @@ impl Parse for GenericItem {
         let mut generic: Vec<TokenStream> = Vec::with_capacity(2);
         let mut token = TokenStream::new();
         let mut hit_colon = false;
+        let mut depth = 0;
+        let mut prev = ' ';
         let mut iter = tokens[0].clone().into_iter().peekable();
         while let Some(e) = iter.next() {
-            if hit_colon {
+            // a ':' inside angle brackets belongs to the type
+            let c = match &e {
+                TokenTree::Punct(punct) => punct.as_char(),
+                _ => ' '
+            };
+            match c {
+                '<' => depth += 1,
+                // HINT: '>' after '-' is not a bracket
+                '>' if prev != '-' => depth -= 1,
+                _ => ()
+            }
+            prev = c;
+            if hit_colon || depth > 0 {
                 token.extend(Some(e));
             } else if utils::is_path_sep(&e, iter.peek()) {
                 // a type with bounds may be a path, like T::Item
-- 
2.43.0


From 901a8110adecee17bef9cd73a436de90fbfc46e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:50 +0000
Subject: [PATCH 39/45] fix: brackets that follow an attribute do not make
 parsing panic

---
 json_derive/parse/src/meta.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 785d751..22c9e15 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -157,9 +157,6 @@ impl Parse for Meta {
             }
         }
 
-        // ...
-        debug_assert_eq!(items.len(), items.capacity());
-
         // build meta
         Ok(Meta { items })
     }
-- 
2.43.0


From 643fd17193beb7a402cb8ff7d0276028ef378a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 40/45] fix: #if in a @scope takes one of its branches, also
 when it is nested

---
 json_derive/quote/src/lib.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 5326a1b..a60e21c 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -237,49 +237,53 @@ macro_rules! __scope_command {
             let e: Option<()> = None;
             e.expect("unexpected #ifdef in #foreach scope.");
         }
-        $flag.1 = Some(());
-        $flag.0 = $hashmap.contains_key(__stringify!($param));
+        let _outer = $flag.0;
+        $flag.0 = _outer && $hashmap.contains_key(__stringify!($param));
+        $flag.1.push((_outer, $flag.0));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifndef($param:ident) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #ifndef in #foreach scope.");
         }
-        $flag.1 = Some(());
-        $flag.0 = !$hashmap.contains_key(__stringify!($param));
+        let _outer = $flag.0;
+        $flag.0 = _outer && !$hashmap.contains_key(__stringify!($param));
+        $flag.1.push((_outer, $flag.0));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident if($expr:expr) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #if in #foreach scope.");
         }
-        $flag.1 = Some(());
-        $flag.0 = $expr;
+        let _outer = $flag.0;
+        $flag.0 = _outer && $expr;
+        $flag.1.push((_outer, $flag.0));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident elif($expr:expr) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #elif in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #elif.");
-        $flag.0 = $expr;
+        let (_outer, _taken) = $flag.1.pop().expect("expect #if before #elif.");
+        $flag.0 = _outer && !_taken && $expr;
+        $flag.1.push((_outer, _taken || $flag.0));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident else ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #else in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #else.");
-        $flag.0 = !$flag.0;
+        let (_outer, _taken) = $flag.1.pop().expect("expect #if before #else.");
+        $flag.0 = _outer && !_taken;
+        $flag.1.push((_outer, true));
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident endif ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #endif in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #endif.");
-        $flag.1 = None;
-        $flag.0 = true;
+        let (_outer, _) = $flag.1.pop().expect("expect #if before #endif.");
+        $flag.0 = _outer;
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident foreach($expr:expr, $x:ident) ) => {
         if $iter.0.is_some() {
@@ -364,9 +368,11 @@ macro_rules! __append_to_token {
       $($rest:tt)* ) =>
     {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
-        struct _Flag(bool, Option<()>);
+        // whether tokens are taken here, and for each open #if: whether they are taken around it
+        // and whether one of its branches has been taken
+        struct _Flag(bool, Vec<(bool, bool)>);
         struct _Iter(Option<Vec<$crate::__pm::TokenStream>>, &'static str);
-        let mut _flag = _Flag(true, None);
+        let mut _flag = _Flag(true, Vec::new());
         let mut _iter = _Iter(None, "");
         let mut _hashmap = std::collections::HashMap::new();
         $(__scope_command!($token $span _flag _iter _hashmap $prefix_options$(($($prefix_params)*))?);)*
-- 
2.43.0


From 30b835cd9281f502bf8c339ad060ba3d1c3059bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:43 +0000
Subject: [PATCH 41/45] fix: #foreach without a variable does not need
 TokenStream to be imported

---
 json_derive/quote/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index a60e21c..437b4c9 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -303,7 +303,7 @@ macro_rules! __scope_command {
             e.expect("unexpected nested #foreach.");
         }
         let mut _sized_vec = Vec::with_capacity($expr.into_iter().count());
-        _sized_vec.resize(_sized_vec.capacity(), TokenStream::new());
+        _sized_vec.resize(_sized_vec.capacity(), $crate::__pm::TokenStream::new());
         $iter.0 = Some(_sized_vec);
         $iter.1 = "_";
     };
-- 
2.43.0


From 5086ab3a232cec4ecbd390774c0f030a2b7aa680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:44 +0000
Subject: [PATCH 42/45] fix: an arrow => in an argument of a scope's macro is
 not a closing angle bracket

---
 json_derive/quote/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 437b4c9..cd57bae 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -1220,7 +1220,7 @@ fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
             match iter.next() {
                 Some(next) => {
                     match &next {
-                        TokenTree::Punct(punct) if punct.as_char() == '-' => {
+                        TokenTree::Punct(punct) if punct.as_char() == '-' || punct.as_char() == '=' => {
                             match iter.peek() {
                                 Some(TokenTree::Punct(peek)) if peek.as_char() == '>' => {
                                     inner.push(next);
-- 
2.43.0


From 8099124e79f6c2bc8176a64c79dd9c37d4fb270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 43/45] fix: a bound on an associated type may begin with ::

---
 json_derive/parse/src/name.rs  | 6 ++++++
 json_derive/parse/src/utils.rs | 5 +++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index e7afce4..0166c10 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -122,6 +122,12 @@ impl Parse for Name {
             .map(|x| x.to_string())
             .collect::<Vec<_>>();
 
+        // a bound on an associated type, like Item: ::core::fmt::Debug, has a
+        // ':' in front of the '::' and they must not be written as one
+        if prefixes.iter().any(|x| x.ends_with(':')) {
+            return Ok(Name::as_written(Vec::new(), input.into_iter().collect()));
+        }
+
         let stream = splits
             .into_iter()
             .last()
diff --git a/json_derive/parse/src/utils.rs b/json_derive/parse/src/utils.rs
index 204bc00..aa95ad2 100644
--- a/json_derive/parse/src/utils.rs
+++ b/json_derive/parse/src/utils.rs
@@ -152,8 +152,9 @@ pub fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
                         // HINT: multiple separators should be check one by one,
                         TokenTree::Punct(punct) if n == 0 => {
                             let mut chars = sep.chars();
-                            // check if current punct match the first sep char
-                            if punct.as_char() == chars.next().unwrap() {
+                            // check if current punct match the first sep char, it has
+                            // to be joined to the next one: "Item: ::A" has one "::"
+                            if punct.as_char() == chars.next().unwrap() && punct.spacing() == Spacing::Joint {
                                 // hit represents if left sep matched
                                 let hit = chars
                                     .zip(iter.clone())
-- 
2.43.0


From 243b1cdcd77dcb6d71413b58eb44f0bf8e0a8aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:08 +0000
Subject: [PATCH 44/45] fix: a char as a const argument is not a lifetime

---
 json_derive/parse/src/name.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 0166c10..3ff9183 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -69,7 +69,8 @@ impl Name {
     // provide a shortcut to judge whether this name value
     // is a lifetime, which should starts with a '\'' punct.
     pub fn is_lifetime(&self) -> bool {
-        self.ident.starts_with('\'')
+        // 'a' is a char, a const argument
+        self.ident.starts_with('\'') && !self.ident.ends_with('\'')
     }
 
     // types and bounds have more forms than the ones taken apart here, like
-- 
2.43.0


From 1f2ca4ea810eafd6ed91fb1848709280bbfcf8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:02 +0000
Subject: [PATCH 45/45] fix: decoding an object into a HashMap or pairs
 depended on the hash seed

Keys that convert to the same K ("1" and "01" for a number) left a value
that changed from call to call, as did the order of the pairs and the
member that an error is about. The members are now taken in the order of
their keys.
---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 97dd3d1..efdfc3d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -920,6 +920,9 @@ impl<K: FromStr, V: FromJson> FromJson for Vec<(K, V)> {
     fn from_json(json: &Json) -> Result<Vec<(K, V)>, Error> {
         match json {
             Json::Object(obj) => {
+                // in the order of the keys, the order of the map changes from map to map
+                let mut obj = obj.iter().collect::<Vec<_>>();
+                obj.sort_by(|(k1, _), (k2, _)| k1.cmp(k2));
                 let mut vec = Vec::with_capacity(obj.len());
                 for (mk, (mj, mv)) in obj {
                     for mj in mv.iter().rev() {
@@ -971,6 +974,9 @@ impl<K: Hash + Eq + FromStr, V: FromJson> FromJson for HashMap<K, V> {
     fn from_json(json: &Json) -> Result<HashMap<K, V>, Error> {
         match json {
             Json::Object(obj) => {
+                // in the order of the keys, the order of the map changes from map to map
+                let mut obj = obj.iter().collect::<Vec<_>>();
+                obj.sort_by(|(k1, _), (k2, _)| k1.cmp(k2));
                 let mut map = HashMap::with_capacity(obj.len());
                 for (mk, (mj, _)) in obj {
                     let k = match K::from_str(mk) {
-- 
2.43.0


From 823058c2c034d7d6b3f06d968939cea57d7e3d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:48 +0000
Subject: [PATCH 01/22] fix: report truncated input instead of accepting it

---
 instant-xml/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 1313898..4e099ac 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -160,6 +160,8 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
         let (prefix, local) = match self.context.next() {
             Some(Ok(Node::Close { prefix, local })) => (prefix, local),
+            // The parent element is still open, so the input must be truncated
+            None => return Some(Err(Error::UnexpectedEndOfStream)),
             item => return item,
         };
 
-- 
2.43.0


From 011ae42b8b0431d5c37e60592dbe2f9899a35ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:51 +0000
Subject: [PATCH 02/22] fix: reject a sign in numeric character references

---
 instant-xml/src/de.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 4e099ac..a07e92e 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -468,6 +468,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Hexadecimal character reference e.g. "&#x007c;" -> '|'
                         str::from_utf8(hex)
                             .ok()
+                            .filter(|hex_str| !hex_str.starts_with('+'))
                             .and_then(|hex_str| u32::from_str_radix(hex_str, 16).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
@@ -481,6 +482,7 @@ fn decode(input: &str) -> Result<Cow<'_, str>, Error> {
                         // Decimal character reference e.g. "&#1234;" -> 'Ӓ'
                         str::from_utf8(decimal)
                             .ok()
+                            .filter(|decimal_str| !decimal_str.starts_with('+'))
                             .and_then(|decimal_str| u32::from_str(decimal_str).ok())
                             .and_then(char::from_u32)
                             .filter(valid_xml_character)
-- 
2.43.0


From e66a77d2f69a2ffad992b061bf18bf4a3c2be728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:09 +0000
Subject: [PATCH 03/22] fix: read an empty element as an empty borrowed string

---
 instant-xml/src/de.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index a07e92e..4f9e968 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -417,11 +417,8 @@ pub fn borrow_cow_str<'a, 'xml: 'a>(
         return Err(Error::DuplicateValue(field));
     }
 
-    match deserializer.take_str()? {
-        Some(value) => into.inner = Some(value),
-        None => return Ok(()),
-    };
-
+    // Like for `String`, an empty element yields the empty string
+    into.inner = Some(deserializer.take_str()?.unwrap_or_default());
     deserializer.ignore()?;
     Ok(())
 }
@@ -438,12 +435,10 @@ pub fn borrow_cow_slice_u8<'xml>(
         return Err(Error::DuplicateValue(field));
     }
 
-    if let Some(value) = deserializer.take_str()? {
-        *into = Some(match value {
-            Cow::Borrowed(v) => Cow::Borrowed(v.as_bytes()),
-            Cow::Owned(v) => Cow::Owned(v.into_bytes()),
-        });
-    }
+    *into = Some(match deserializer.take_str()?.unwrap_or_default() {
+        Cow::Borrowed(v) => Cow::Borrowed(v.as_bytes()),
+        Cow::Owned(v) => Cow::Owned(v.into_bytes()),
+    });
 
     deserializer.ignore()?;
     Ok(())
-- 
2.43.0


From 75956ea45d33e10fddb9f01066f000c4271eac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:11 +0000
Subject: [PATCH 04/22] fix: forward ToXml::present() through Box and
 references

---
 instant-xml/src/impls.rs | 4 ++++
 instant-xml/src/lib.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 6d07e74..846736a 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -525,6 +525,10 @@ impl<T: ToXml + ?Sized> ToXml for Box<T> {
     ) -> Result<(), Error> {
         self.as_ref().serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        self.as_ref().present()
+    }
 }
 
 impl<'xml, T: FromXml<'xml>> FromXml<'xml> for Box<T> {
diff --git a/instant-xml/src/lib.rs b/instant-xml/src/lib.rs
index e44e3e2..e672ff0 100644
--- a/instant-xml/src/lib.rs
+++ b/instant-xml/src/lib.rs
@@ -369,6 +369,10 @@ impl<T: ToXml + ?Sized> ToXml for &T {
     ) -> Result<(), Error> {
         (*self).serialize(field, serializer)
     }
+
+    fn present(&self) -> bool {
+        (*self).present()
+    }
 }
 
 /// Deserialize a type from XML
-- 
2.43.0


From 5b10be064aa3fa5c6d47898460ca0143ce631d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:14 +0000
Subject: [PATCH 05/22] fix: escape the names of scalar enum variants

---
 instant-xml-macros/src/ser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 445214a..5097ae4 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -75,7 +75,8 @@ fn serialize_scalar_enum(
                     None => None,
                 };
 
-                serializer.write_str(match self { #variants })?;
+                // Variant names may contain characters that need escaping
+                <str as ::instant_xml::ToXml>::serialize(match self { #variants }, None, serializer)?;
                 if let Some(element) = element {
                     serializer.write_close(element)?;
                 }
-- 
2.43.0


From e7e983609ed96ac701eedad8659c78a11321bc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:37 +0000
Subject: [PATCH 06/22] fix: don't close an element before writing its child
 elements

---
 instant-xml-macros/src/ser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/instant-xml-macros/src/ser.rs b/instant-xml-macros/src/ser.rs
index 5097ae4..4c7b411 100644
--- a/instant-xml-macros/src/ser.rs
+++ b/instant-xml-macros/src/ser.rs
@@ -317,6 +317,7 @@ impl StructOutput {
             .map_err(|err| err.to_compile_error())?;
 
         let mut attrs_only = true;
+        let mut elements = false;
         let mut direct = None;
         for (field, field_meta) in &fields {
             if !field_meta.attribute {
@@ -332,9 +333,16 @@ impl StructOutput {
 
             if field_meta.direct {
                 direct = Some(field.ident.as_ref().unwrap());
+            } else if !field_meta.attribute {
+                elements = true;
             }
         }
 
+        // If there are child elements, the element can't be closed early for lack of direct content
+        if elements {
+            direct = None;
+        }
+
         if !inline {
             self.body.extend(match (attrs_only, direct) {
                 (true, _) => quote!(serializer.end_empty()?;),
-- 
2.43.0


From 09fbc19682bd52a96d84934abdc24aa2b4f8cf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:41 +0000
Subject: [PATCH 07/22] fix: don't leave behind unread nodes passed to
 for_node()

---
 instant-xml/src/de.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 4f9e968..7a82609 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -15,6 +15,8 @@ pub struct Deserializer<'cx, 'xml> {
     parent: Element<'xml>,
     level: usize,
     done: bool,
+    /// Node to yield before continuing with the nodes from `context`
+    first: Option<Node<'xml>>,
     context: Mut<'cx, Context<'xml>>,
 }
 
@@ -49,6 +51,7 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
             parent,
             level,
             done: false,
+            first: None,
             context,
         }
     }
@@ -97,11 +100,11 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
     where
         'cx: 'a,
     {
-        self.context.records.push_front(node);
         Deserializer {
             parent: self.parent,
             level: self.level,
             done: self.done,
+            first: Some(node),
             context: self.context.borrow(),
         }
     }
@@ -154,6 +157,10 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
     type Item = Result<Node<'xml>, Error>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if let Some(node) = self.first.take() {
+            return Some(Ok(node));
+        }
+
         if self.done {
             return None;
         }
-- 
2.43.0


From beec42f517d57c0f43519a88b9920fe407f803c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:24 +0000
Subject: [PATCH 08/22] fix: don't drop text after a comment or CDATA section

---
 instant-xml/src/de.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 7a82609..6dfdcd6 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -186,6 +186,8 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
 
 struct Context<'xml> {
     parser: Tokenizer<'xml>,
+    /// Token that was read from `parser` but still needs to be processed
+    peeked: Option<Result<Token<'xml>, xmlparser::Error>>,
     stack: Vec<Level<'xml>>,
     records: VecDeque<Node<'xml>>,
     limits: Limits,
@@ -195,6 +197,7 @@ impl<'xml> Context<'xml> {
     fn new(input: &'xml str) -> Self {
         Self {
             parser: Tokenizer::from(input),
+            peeked: None,
             stack: Vec::new(),
             records: VecDeque::new(),
             limits: Limits::default(),
@@ -227,6 +230,23 @@ impl<'xml> Context<'xml> {
         })
     }
 
+    /// Extend `text` with the character data that directly follows it
+    ///
+    /// The character data of an element can be split up by comments and CDATA sections.
+    fn extend_text(&mut self, mut text: Cow<'xml, str>) -> Result<Cow<'xml, str>, Error> {
+        loop {
+            match self.parser.next() {
+                Some(Ok(Token::Text { text: more })) => text += decode(more.as_str())?,
+                Some(Ok(Token::Cdata { text: more, .. })) => text += more.as_str(),
+                Some(Ok(Token::Comment { .. })) => continue,
+                token => {
+                    self.peeked = token;
+                    return Ok(text);
+                }
+            }
+        }
+    }
+
     fn default_ns(&self) -> &'xml str {
         self.stack
             .iter()
@@ -262,7 +282,12 @@ impl<'xml> Iterator for Context<'xml> {
         }
 
         loop {
-            match self.parser.next()? {
+            let token = match self.peeked.take() {
+                Some(token) => token,
+                None => self.parser.next()?,
+            };
+
+            match token {
                 Ok(Token::ElementStart { prefix, local, .. }) => {
                     if self.stack.len() >= self.limits.max_levels {
                         return Some(Err(Error::Other(
@@ -394,10 +419,12 @@ impl<'xml> Iterator for Context<'xml> {
                     }
                 }
                 Ok(Token::Text { text }) => {
-                    return Some(decode(text.as_str()).map(Node::Text));
+                    let text = decode(text.as_str()).and_then(|text| self.extend_text(text));
+                    return Some(text.map(Node::Text));
                 }
                 Ok(Token::Cdata { text, .. }) => {
-                    return Some(Ok(Node::Text(Cow::Borrowed(text.as_str()))));
+                    let text = self.extend_text(Cow::Borrowed(text.as_str()));
+                    return Some(text.map(Node::Text));
                 }
                 Ok(token @ Token::Declaration { .. }) => {
                     if !self.stack.is_empty() {
-- 
2.43.0


From 8577f99baa356e69f78bf2c54c352cc1bdb1002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:49 +0000
Subject: [PATCH 09/22] fix: keep all text of an AnyElement with mixed content

---
 instant-xml/src/any_element.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index 8b84483..b181fca 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -105,7 +105,10 @@ impl<'a> AnyElement<'a> {
                     elem.children
                         .push(Self::deserialize(&mut nested, child_id)?);
                 }
-                Some(Ok(Node::Text(text))) => elem.text = Some(text),
+                Some(Ok(Node::Text(text))) => match &mut elem.text {
+                    Some(existing) => *existing += text,
+                    None => elem.text = Some(text),
+                },
                 Some(Ok(Node::Close { .. })) => break,
                 Some(Ok(_)) => continue,
                 Some(Err(e)) => return Err(e),
-- 
2.43.0


From a63e2b4371110efeb21cf044305a200654144867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 10/22] fix: reject duplicate elements for fields with element
 types

---
 instant-xml-macros/src/de.rs   | 16 ++++++++++++++++
 instant-xml/src/any_element.rs |  6 +++++-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 29b2001..8d4ecd3 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -196,6 +196,10 @@ fn deserialize_forward_enum(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 let id = deserializer.parent();
                 #variants else {
                     return Err(Error::UnexpectedTag(format!("{:?}", id)));
@@ -318,6 +322,10 @@ fn deserialize_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 enum __Elements {
                     #elements_enum
                     __Ignore,
@@ -774,6 +782,10 @@ fn deserialize_tuple_struct(
                 use ::instant_xml::de::Node;
                 use ::instant_xml::{Accumulate, Error, FromXml, Id, Kind};
 
+                if into.is_some() {
+                    return Err(Error::DuplicateValue(field));
+                }
+
                 #declare_values
                 deserializer.ignore()?;
 
@@ -849,6 +861,10 @@ fn deserialize_unit_struct(input: &syn::DeriveInput, meta: &ContainerMeta<'_>) -
                 field: &'static str,
                 deserializer: &mut ::instant_xml::Deserializer<'cx, 'xml>,
             ) -> ::std::result::Result<(), ::instant_xml::Error> {
+                if into.is_some() {
+                    return Err(::instant_xml::Error::DuplicateValue(field));
+                }
+
                 deserializer.ignore()?;
                 *into = Some(Self);
                 Ok(())
diff --git a/instant-xml/src/any_element.rs b/instant-xml/src/any_element.rs
index b181fca..f30fa8b 100644
--- a/instant-xml/src/any_element.rs
+++ b/instant-xml/src/any_element.rs
@@ -149,9 +149,13 @@ where
 
     fn deserialize<'cx>(
         into: &mut Self::Accumulator,
-        _field: &'static str,
+        field: &'static str,
         deserializer: &mut Deserializer<'cx, 'xml>,
     ) -> Result<(), Error> {
+        if into.is_some() {
+            return Err(Error::DuplicateValue(field));
+        }
+
         let id = deserializer.parent();
         *into = Some(Self::deserialize(deserializer, id)?);
         Ok(())
-- 
2.43.0


From cfb8627bd25d2c43edf712a30703287698447d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:20 +0000
Subject: [PATCH 11/22] fix: check the elements found for the fields of tuple
 structs

---
 instant-xml-macros/src/de.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 8d4ecd3..a387944 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -817,6 +817,11 @@ fn unnamed_field(
         let #name = match <#no_lifetime_type as FromXml>::KIND {
             Kind::Element => match deserializer.next() {
                 Some(Ok(Node::Open(data))) => {
+                    let id = deserializer.element_id(&data)?;
+                    if !<#no_lifetime_type as FromXml>::matches(id, None) {
+                        return Err(Error::UnexpectedTag(format!("{:?}", id)));
+                    }
+
                     let mut nested = deserializer.nested(data);
                     let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
                     <#no_lifetime_type as FromXml>::deserialize(&mut value, #field_str, &mut nested)?;
-- 
2.43.0


From a805d6068ca3ab1b7e6f02492395e070ec622e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:40 +0000
Subject: [PATCH 12/22] fix: restore the enclosing namespaces after an empty
 element

---
 instant-xml/src/ser.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 03703f9..ed08ed2 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -23,6 +23,10 @@ pub struct Serializer<'xml, W: fmt::Write + ?Sized> {
     /// This might be different from the default namespace for child elements in case of
     /// `force_prefix`.
     attribute_ns: Option<&'static str>,
+    /// Bindings to restore if the start tag being written is closed by `end_empty()`
+    ///
+    /// Holds the previous default namespace and the namespaces of newly defined prefixes.
+    enclosing: (&'static str, Vec<&'static str>),
     state: State,
 }
 
@@ -34,6 +38,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
             prefixes: HashMap::new(),
             default_ns: "",
             attribute_ns: None,
+            enclosing: ("", Vec::new()),
             state: State::Element,
         }
     }
@@ -101,6 +106,8 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
 
         self.state = State::Attribute;
         self.attribute_ns = cx.as_ref().map(|cx| cx.default_ns);
+        self.enclosing.0 = self.default_ns;
+        self.enclosing.1.clear();
         let Some(cx) = cx else {
             return Ok(Element {
                 prefix,
@@ -133,6 +140,7 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
                 Entry::Occupied(mut entry) => mem::replace(entry.get_mut(), prefix.prefix),
                 Entry::Vacant(entry) => {
                     entry.insert(prefix.prefix);
+                    self.enclosing.1.push(prefix.ns);
                     ""
                 }
             };
@@ -211,6 +219,11 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_str(" />")?;
+        self.default_ns = self.enclosing.0;
+        for ns in self.enclosing.1.drain(..) {
+            self.prefixes.remove(ns);
+        }
+
         self.attribute_ns = None;
         self.state = State::Element;
         Ok(())
-- 
2.43.0


From de98bda49f49e05752bbde69777a1e66aa47022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:27 +0000
Subject: [PATCH 13/22] fix: write the prefix of attributes in the element's
 own namespace

---
 instant-xml/src/ser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index ed08ed2..83bb4f9 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -171,15 +171,13 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         let attr_ns = self.attribute_ns.unwrap_or(self.default_ns);
-        match ns.is_empty() || ns == attr_ns {
-            true => self.output.write_fmt(format_args!(" {name}=\""))?,
-            false => {
-                let prefix = self
-                    .prefixes
-                    .get(ns)
-                    .ok_or(Error::UnexpectedState("unknown prefix"))?;
-                self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?;
+        // Unprefixed attributes are in no namespace, so use a prefix if there is one
+        match self.prefixes.get(ns).filter(|_| !ns.is_empty()) {
+            Some(prefix) => self.output.write_fmt(format_args!(" {prefix}:{name}=\""))?,
+            None if ns.is_empty() || ns == attr_ns => {
+                self.output.write_fmt(format_args!(" {name}=\""))?
             }
+            None => return Err(Error::UnexpectedState("unknown prefix")),
         }
 
         self.state = State::Scalar;
-- 
2.43.0


From 04805e673ae64f9d4bd4ac601a24b08e5c6dbdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:54 +0000
Subject: [PATCH 14/22] fix: refuse elements inside attribute values

---
 instant-xml/src/ser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/instant-xml/src/ser.rs b/instant-xml/src/ser.rs
index 83bb4f9..35d4c56 100644
--- a/instant-xml/src/ser.rs
+++ b/instant-xml/src/ser.rs
@@ -194,7 +194,6 @@ impl<'xml, W: fmt::Write + ?Sized> Serializer<'xml, W> {
         }
 
         self.output.write_fmt(format_args!("{value}"))?;
-        self.state = State::Element;
         Ok(())
     }
 
-- 
2.43.0


From 7b1e831d3767895cb31301a3e31a150332406379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:57 +0000
Subject: [PATCH 15/22] fix: deserialize scalar fields of transparent structs

---
 instant-xml-macros/src/de.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index a387944..6290793 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -453,8 +453,9 @@ fn deserialize_inline_struct(
         }
 
         let field_ty = data.no_lifetime_type;
+        let field_id = data.id;
         matches.extend(quote!(
-            <#field_ty as FromXml<'xml>>::matches(id, None)
+            <#field_ty as FromXml<'xml>>::matches(id, Some(#field_id))
         ));
 
         let field_name = &field.ident;
@@ -470,12 +471,12 @@ fn deserialize_inline_struct(
         }
         if let Some(with) = data.deserialize_with {
             deserialize.extend(
-                quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+                quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                     #with(&mut into.#field_name, #field_str, deserializer)?;
                 }),
             );
         } else {
-            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, None) {
+            deserialize.extend(quote!(if <#field_ty as FromXml<'xml>>::matches(current, Some(#field_id)) {
                 match <#field_ty as FromXml>::KIND {
                     Kind::Element => {
                         <#field_ty as FromXml>::deserialize(&mut into.#field_name, #field_str, deserializer)?;
@@ -713,6 +714,7 @@ fn named_field<'a>(
 
     Ok(FieldData {
         field_name,
+        id: quote!(::instant_xml::Id { ns: #ns, name: #field_tag }),
         no_lifetime_type,
         deserialize_with,
     })
@@ -720,6 +722,7 @@ fn named_field<'a>(
 
 struct FieldData<'a> {
     field_name: &'a Ident,
+    id: TokenStream,
     no_lifetime_type: syn::Type,
     deserialize_with: Option<syn::Path>,
 }
-- 
2.43.0


From 01224bd934d9f0e256136c10318a6b218317b466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 16/22] fix: accept missing optional elements in tuple structs

---
 instant-xml-macros/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 6290793..c52c72b 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -833,7 +833,7 @@ fn unnamed_field(
                 }
                 Some(Ok(node)) => return Err(Error::UnexpectedNode(format!("{:?}", node))),
                 Some(Err(e)) => return Err(e),
-                None => return Err(Error::MissingValue(#field_str)),
+                None => <#no_lifetime_type as FromXml>::Accumulator::default(),
             }
             Kind::Scalar => {
                 let mut value = <#no_lifetime_type as FromXml>::Accumulator::default();
-- 
2.43.0


From ca04a315c7119309030e6cb2f8326851f2731bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:18 +0000
Subject: [PATCH 17/22] fix: read to the end of root elements with scalar types

---
 instant-xml/src/de.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 6dfdcd6..836f144 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -8,7 +8,7 @@ use std::str::{self, FromStr};
 use xmlparser::{ElementEnd, Token, Tokenizer};
 
 use crate::impls::CowStrAccumulator;
-use crate::{Accumulate, Error, FromXml, Id};
+use crate::{Accumulate, Error, FromXml, Id, Kind};
 
 /// XML deserializer for iterating over nodes in an element
 pub struct Deserializer<'cx, 'xml> {
@@ -77,6 +77,11 @@ impl<'cx, 'xml> Deserializer<'cx, 'xml> {
 
         let mut value = T::Accumulator::default();
         T::deserialize(&mut value, "<root element>", self)?;
+        if T::KIND == Kind::Scalar {
+            // Scalar types don't necessarily read up to the end of the element
+            self.ignore()?;
+        }
+
         value.try_done("<root element>")
     }
 
-- 
2.43.0


From 44ebab1318b19a1f7e20ec76a771773e06cf792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:16 +0000
Subject: [PATCH 18/22] fix: don't underflow in a deserializer at level zero

---
 instant-xml/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/de.rs b/instant-xml/src/de.rs
index 836f144..5ce6d61 100644
--- a/instant-xml/src/de.rs
+++ b/instant-xml/src/de.rs
@@ -177,7 +177,7 @@ impl<'xml> Iterator for Deserializer<'_, 'xml> {
             item => return item,
         };
 
-        if self.context.stack.len() == self.level - 1
+        if self.context.stack.len() + 1 == self.level
             && local == self.parent.local
             && prefix == self.parent.prefix
         {
-- 
2.43.0


From 7359030a849cdee119e1fead86b1c4602df3cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 19/22] fix: transparent structs can have type parameters

---
 instant-xml-macros/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index c52c72b..9a3bcdf 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -523,7 +523,7 @@ fn deserialize_inline_struct(
             const KIND: ::instant_xml::Kind = ::instant_xml::Kind::Element;
         }
 
-        #visibility struct #accumulator #xml_ty_generics #where_clause {
+        #visibility struct #accumulator #xml_impl_generics #where_clause {
             #acc_field_defs
         }
 
-- 
2.43.0


From fce35aef6b390caa19e29481cf4768b843245d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:47 +0000
Subject: [PATCH 20/22] fix: a list behind a Cow is of the kind of its elements

---
 instant-xml/src/impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/instant-xml/src/impls.rs b/instant-xml/src/impls.rs
index 846736a..c703cee 100644
--- a/instant-xml/src/impls.rs
+++ b/instant-xml/src/impls.rs
@@ -365,7 +365,7 @@ where
     }
 
     type Accumulator = Vec<T>;
-    const KIND: Kind = Kind::Scalar;
+    const KIND: Kind = T::KIND;
 }
 
 impl<T: ToXml> ToXml for Cow<'_, [T]>
-- 
2.43.0


From 07a5a2761642be71714a47bdc68ed7080e16424f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:50 +0000
Subject: [PATCH 21/22] fix: names of variants don't keep the r# of a raw
 identifier

---
 instant-xml-macros/src/case.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/instant-xml-macros/src/case.rs b/instant-xml-macros/src/case.rs
index 42908d2..f4165c3 100644
--- a/instant-xml-macros/src/case.rs
+++ b/instant-xml-macros/src/case.rs
@@ -66,7 +66,11 @@ impl RenameRule {
 
     /// Apply a renaming rule to an enum variant, returning the version expected in the source.
     pub(crate) fn apply_to_variant(&self, ident: &Ident) -> String {
-        let variant = ident.to_string();
+        let mut variant = ident.to_string();
+        if variant.starts_with("r#") {
+            variant = variant[2..].to_string();
+        }
+
         match *self {
             None | PascalCase => variant,
             LowerCase => variant.to_ascii_lowercase(),
-- 
2.43.0


From 70cd1312d84b8bf59aed6d95a6a707345a849262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 22/22] fix: elements are not named with the r# of a raw
 identifier

---
 instant-xml-macros/src/de.rs  | 6 +++++-
 instant-xml-macros/src/lib.rs | 3 ++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/instant-xml-macros/src/de.rs b/instant-xml-macros/src/de.rs
index 9a3bcdf..cb024e5 100644
--- a/instant-xml-macros/src/de.rs
+++ b/instant-xml-macros/src/de.rs
@@ -2,6 +2,7 @@ use std::collections::BTreeSet;
 
 use proc_macro2::{Ident, Literal, Span, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 
 use super::{
@@ -492,7 +493,10 @@ fn deserialize_inline_struct(
 
     // Attributes
     let ident = &input.ident;
-    let accumulator = Ident::new(&format!("__{ident}Accumulator"), Span::call_site());
+    let accumulator = Ident::new(
+        &format!("__{}Accumulator", ident.unraw()),
+        Span::call_site(),
+    );
     let generics = meta.xml_generics(borrowed);
 
     let (xml_impl_generics, xml_ty_generics, _) = generics.split_for_impl();
diff --git a/instant-xml-macros/src/lib.rs b/instant-xml-macros/src/lib.rs
index 92fca8c..bf1d4f0 100644
--- a/instant-xml-macros/src/lib.rs
+++ b/instant-xml-macros/src/lib.rs
@@ -8,6 +8,7 @@ use std::mem;
 
 use proc_macro2::{Literal, Span, TokenStream};
 use quote::{quote, ToTokens};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{parse_macro_input, DeriveInput, GenericParam, Generics};
 
@@ -116,7 +117,7 @@ impl<'input> ContainerMeta<'input> {
     fn tag(&self) -> TokenStream {
         match &self.rename {
             Some(name) => quote!(#name),
-            None => self.input.ident.to_string().into_token_stream(),
+            None => self.input.ident.unraw().to_string().into_token_stream(),
         }
     }
 
-- 
2.43.0


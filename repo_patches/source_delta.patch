From cd207d3131d9245ba14944dbbc5c84b7318620a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:26 +0000
Subject: [PATCH 01/24] fix: keep the element stack in sync when a visitor
 discards an error

If an ElementVisitor discarded an error returned after the end of a child
element, that element stayed on the stack while the rest of its parent was
skipped: a debug assertion failed, or (in release builds) later elements were
reported under the wrong names.
---
 static-xml/src/de/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 35aae66..ae8ac0e 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -472,6 +472,9 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
             self.depth,
             depth
         );
+        // An element which has already ended may still be on the stack, if a
+        // visitor discarded the error returned by a nested read.
+        self.stack.truncate(self.depth);
         while self.depth > depth {
             self.next()?;
             self.stack.truncate(self.depth);
-- 
2.43.0


From 38f782f6914276cd35003b2bb3db01662d3fd086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 02/24] fix: report white-space-only character data

xml-rs reports runs of white space as a separate event; dropping it lost
the text of elements like <a> </a> and of white space beside CDATA.
---
 static-xml/src/de/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index ae8ac0e..e5e584f 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -382,7 +382,7 @@ enum Event {
     EndElement { name: xml::name::OwnedName },
 
     /// Characters, whether from `XmlEvent::CData`, `XmlEvent::Characters`, or
-    /// (possibly?) `XmlEvent::Whitespace`.
+    /// `XmlEvent::Whitespace` (characters which all happen to be white space).
     Characters(String),
 }
 
@@ -451,12 +451,13 @@ impl<R: std::io::Read> ErasedReader for Reader<R> {
                     debug_assert_eq!(&self.stack[self.depth].name, &name);
                     return Ok((Event::EndElement { name }, pos));
                 }
-                Ok(XmlEvent::Characters(str)) | Ok(XmlEvent::CData(str)) => {
+                Ok(XmlEvent::Characters(str))
+                | Ok(XmlEvent::CData(str))
+                | Ok(XmlEvent::Whitespace(str)) => {
                     let pos = self.inner.position();
                     return Ok((Event::Characters(str), pos));
                 }
                 Ok(XmlEvent::Comment(_))
-                | Ok(XmlEvent::Whitespace(_))
                 | Ok(XmlEvent::ProcessingInstruction { .. })
                 | Ok(XmlEvent::StartDocument { .. })
                 | Ok(XmlEvent::EndDocument) => continue,
-- 
2.43.0


From c765421cba0174d1a9b7d5bbeed97a34ee99b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 03/24] fix: accept a processing instruction before the root
 element

Without an XML declaration the parser reports such an instruction first,
and the document was refused.
---
 static-xml/src/de/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index e5e584f..488b080 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -307,6 +307,9 @@ impl<R: std::io::Read> Reader<R> {
     pub fn root(&mut self) -> Result<ElementReader<'_>, Error> {
         match self.inner.next().map_err(|e| Error::xml(&[], e))? {
             XmlEvent::StartDocument { .. } => {}
+            // There's no `StartDocument` event when the XML declaration is
+            // omitted and a processing instruction comes first.
+            XmlEvent::ProcessingInstruction { .. } => {}
             o => {
                 return Err(Error::msg(
                     &[],
-- 
2.43.0


From f30d5a0b54cbd1f217ff17753dea7030279b9f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:14 +0000
Subject: [PATCH 04/24] fix: escape everything a reader would alter, and refuse
 what XML can't represent

---
 static-xml/src/ser/mod.rs | 64 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 7 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 16bddd7..2917ee7 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -96,6 +96,41 @@ impl<W: Write> ErasedEventWriter for WrappedWriter<W> {
     }
 }
 
+/// Escapes `s` for use as character data or as a (quoted) attribute value.
+///
+/// `xml-rs` (as of 0.8.4) can do this, but it leaves alone characters which a
+/// reader would normalize (`\r` and, in attribute values, `\t`), the `]]>` which
+/// character data must not contain, and characters which XML can't represent.
+fn escape(s: &str, attribute: bool) -> Result<Cow<'_, str>, Error> {
+    let mut out = String::new();
+    let mut copied = 0;
+    for (i, c) in s.char_indices() {
+        let escaped = match c {
+            '<' => "&lt;",
+            '>' => "&gt;",
+            '&' => "&amp;",
+            '\r' => "&#xD;",
+            '"' if attribute => "&quot;",
+            '\'' if attribute => "&apos;",
+            '\t' if attribute => "&#x9;",
+            '\n' if attribute => "&#xA;",
+            '\t' | '\n' => continue,
+            '\u{0}'..='\u{1F}' | '\u{FFFE}' | '\u{FFFF}' => {
+                return Err(Error(format!("{:?} can't be represented in XML", c)))
+            }
+            _ => continue,
+        };
+        out.push_str(&s[copied..i]);
+        out.push_str(escaped);
+        copied = i + c.len_utf8();
+    }
+    if copied == 0 {
+        return Ok(Cow::Borrowed(s));
+    }
+    out.push_str(&s[copied..]);
+    Ok(Cow::Owned(out))
+}
+
 /// Builds the start tag for an element: name, namespace mappings, and attributes.
 ///
 /// The element's parent always constructs it with its namespace, local name, and
@@ -161,6 +196,16 @@ impl<'a> ElementBuilder<'a> {
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
         let inner = self.0.take().unwrap();
         let namespaces = inner.namespaces.finalize();
+        let mut values = Vec::with_capacity(inner.attributes.len());
+        for (_, v) in &inner.attributes {
+            match escape(v, true) {
+                Ok(v) => values.push(v),
+                Err(e) => {
+                    inner.writer.poison(e.clone());
+                    return Err(e);
+                }
+            }
+        }
         inner
             .writer
             .write(XmlEvent::StartElement {
@@ -171,9 +216,10 @@ impl<'a> ElementBuilder<'a> {
                     inner
                         .attributes
                         .iter()
-                        .map(|(k, v)| xml::attribute::Attribute {
+                        .zip(&values)
+                        .map(|((k, _), v)| xml::attribute::Attribute {
                             name: namespaces.resolve_attribute(k),
-                            value: &v,
+                            value: v,
                         })
                         .collect::<Vec<_>>(),
                 ),
@@ -227,11 +273,14 @@ impl<'a> ElementWriter<'a> {
     }
 
     pub fn text(&mut self, text: &str) -> Result<(), Error> {
-        self.0
-            .as_mut()
-            .unwrap()
-            .writer
-            .write(XmlEvent::Characters(text))
+        let writer = &mut self.0.as_mut().unwrap().writer;
+        match escape(text, false) {
+            Ok(text) => writer.write(XmlEvent::Characters(&text)),
+            Err(e) => {
+                writer.poison(e.clone());
+                Err(e)
+            }
+        }
     }
 
     pub fn finish(mut self) -> Result<(), Error> {
@@ -698,6 +747,7 @@ impl<'a> Serializer<'a> {
                 xml::writer::EmitterConfig {
                     perform_indent: self.perform_indent,
                     write_document_declaration: self.write_document_declaration,
+                    perform_escaping: false, // see `escape`.
                     ..Default::default()
                 },
             ),
-- 
2.43.0


From b2fb93f555bbc5c154c9f48ac02d500e8e078267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:24 +0000
Subject: [PATCH 05/24] fix: keep namespaced names intact when prefixes collide
 or are rebound

---
 static-xml/src/ser/mod.rs | 148 ++++++++++++++++++++++++--------------
 1 file changed, 93 insertions(+), 55 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 2917ee7..0b17f2e 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -183,7 +183,6 @@ impl<'a> ElementBuilder<'a> {
                 return Err(Error::duplicate_attribute(&name, &old.1, &value));
             }
         }
-        inner.namespaces.attribute(name.namespace);
         Ok(())
     }
 
@@ -194,10 +193,30 @@ impl<'a> ElementBuilder<'a> {
     /// is dropped, serialization will fail.
     #[must_use = "must call finish on the returned writer to complete the document"]
     pub fn start(mut self) -> Result<ElementWriter<'a>, Error> {
-        let inner = self.0.take().unwrap();
-        let namespaces = inner.namespaces.finalize();
-        let mut values = Vec::with_capacity(inner.attributes.len());
-        for (_, v) in &inner.attributes {
+        let mut inner = self.0.take().unwrap();
+        // The mappings may have been added after the attributes which use them.
+        for (name, _) in &inner.attributes {
+            inner.namespaces.attribute(name.namespace);
+        }
+        let parent = inner.namespaces.parent;
+        let namespaces = inner.namespaces.finalize(inner.name.namespace.is_empty());
+        let declarations = namespaces.declarations(parent);
+        let names = declarations.iter().map(|(prefix, _)| match *prefix {
+            "" => xml::name::Name::local("xmlns"),
+            p => xml::name::Name::prefixed(p, "xmlns"),
+        });
+        let names = names.chain(
+            inner
+                .attributes
+                .iter()
+                .map(|(name, _)| namespaces.resolve_attribute(name)),
+        );
+        let mut values = Vec::with_capacity(declarations.len() + inner.attributes.len());
+        for v in declarations
+            .iter()
+            .map(|(_, url)| *url)
+            .chain(inner.attributes.iter().map(|(_, v)| &v[..]))
+        {
             match escape(v, true) {
                 Ok(v) => values.push(v),
                 Err(e) => {
@@ -213,18 +232,15 @@ impl<'a> ElementBuilder<'a> {
 
                 // TODO: better to reuse a Vec and amortize this allocation.
                 attributes: Cow::Owned(
-                    inner
-                        .attributes
-                        .iter()
+                    names
                         .zip(&values)
-                        .map(|((k, _), v)| xml::attribute::Attribute {
-                            name: namespaces.resolve_attribute(k),
-                            value: v,
-                        })
+                        .map(|(name, value)| xml::attribute::Attribute { name, value })
                         .collect::<Vec<_>>(),
                 ),
 
-                namespace: Cow::Borrowed(&namespaces.by_prefix),
+                // The declarations are among the attributes instead; `xml-rs` (as of 0.8.4)
+                // doesn't escape the URLs and omits ones needed to restore a mapping.
+                namespace: Cow::Owned(xml::namespace::Namespace::empty()),
             })
             .map_err(|e| Error(e.to_string()))?;
         Ok(ElementWriter(Some(ElementWriterInner {
@@ -304,12 +320,15 @@ impl<'a> Drop for ElementWriter<'a> {
 }
 
 #[derive(Clone, Debug, Default, Eq, PartialEq)]
-struct NamespacesBuilder<'a>(
+struct NamespacesBuilder<'a> {
     /// A mapping from the URL to the assigned prefix.
     ///
     /// `assigned_prefix` is empty in all of the values.
-    BTreeMap<&'a str, Namespace<'a>>,
-);
+    by_url: BTreeMap<&'a str, Namespace<'a>>,
+
+    /// The mappings in effect in the parent element, if any.
+    parent: Option<&'a xml::namespace::Namespace>,
+}
 
 impl<'a> NamespacesBuilder<'a> {
     /// Ensures there's at least one mapping for `url`, preferably called `prefix`.
@@ -322,8 +341,11 @@ impl<'a> NamespacesBuilder<'a> {
             "prefix {:?} must not start with xml",
             requested_prefix
         );
+        if url.is_empty() || url == crate::XML_NS {
+            return; // un-namespaced names need no mapping, and `xml` is built in.
+        }
         use std::collections::btree_map::Entry;
-        match self.0.entry(url) {
+        match self.by_url.entry(url) {
             Entry::Vacant(e) => {
                 e.insert(Namespace {
                     requested_prefix,
@@ -346,26 +368,29 @@ impl<'a> NamespacesBuilder<'a> {
     ///
     /// Doesn't panic if `url` already exists; `resolve_attribute` will do that later.
     fn attribute(&mut self, url: &str) {
-        if let Some(ns) = self.0.get_mut(url) {
+        if let Some(ns) = self.by_url.get_mut(url) {
             ns.required = true;
             ns.needs_prefix = true;
         }
     }
 
     /// Finalizes the chosen prefixes, returning an immutable `Namespaces`.
-    fn finalize(mut self) -> Namespaces<'a> {
+    ///
+    /// `no_default` is true if the element itself is un-namespaced, so there can't be a default
+    /// namespace.
+    fn finalize(mut self, no_default: bool) -> Namespaces<'a> {
         let mut by_prefix = xml::namespace::Namespace::empty();
 
         // Give first dibs to required mappings, and ensure they get some
         // assignment even if their requested prefix is taken (or unsuitable,
-        // in the corner case where they requested no prefix but an attribute
-        // uses them).
-        for (url, ns) in &mut self.0 {
+        // in the corner cases where they requested no prefix but an attribute
+        // uses them or the element is un-namespaced).
+        for (url, ns) in &mut self.by_url {
             if !ns.required {
                 continue;
             }
 
-            if !(ns.needs_prefix && ns.requested_prefix.is_empty())
+            if !((ns.needs_prefix || no_default) && ns.requested_prefix.is_empty())
                 && by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned())
             {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
@@ -383,10 +408,13 @@ impl<'a> NamespacesBuilder<'a> {
         }
 
         // Best-effort assignment for non-required mappings.
-        for (url, ns) in &mut self.0 {
+        for (url, ns) in &mut self.by_url {
             if ns.required {
                 continue; // already processed.
             }
+            if no_default && ns.requested_prefix.is_empty() {
+                continue;
+            }
 
             if by_prefix.put(ns.requested_prefix.to_owned(), url.to_owned()) {
                 ns.assigned_prefix = Some(Cow::Borrowed(ns.requested_prefix));
@@ -394,7 +422,7 @@ impl<'a> NamespacesBuilder<'a> {
         }
 
         Namespaces {
-            by_url: self.0,
+            by_url: self.by_url,
             by_prefix,
         }
     }
@@ -408,27 +436,45 @@ struct Namespaces<'a> {
 }
 
 impl<'a> Namespaces<'a> {
-    fn child(&self, namespace: &str) -> NamespacesBuilder {
-        let mut child = NamespacesBuilder::default();
-        let mut found_namespace = false;
-        for (prefix, ns) in &self.by_prefix {
-            let required = if !found_namespace && ns == namespace {
-                found_namespace = true;
-                true
-            } else {
-                false
-            };
-            child.0.insert(
-                ns,
-                Namespace {
-                    requested_prefix: prefix,
-                    assigned_prefix: None,
-                    required,
-                    needs_prefix: false,
-                },
-            );
+    fn child(&self, namespace: &str) -> NamespacesBuilder<'_> {
+        NamespacesBuilder {
+            // This includes mappings which have no prefix here because theirs was taken.
+            by_url: self
+                .by_url
+                .iter()
+                .map(|(&url, ns)| {
+                    let child = Namespace {
+                        requested_prefix: match ns.assigned_prefix {
+                            Some(ref p) => p,
+                            None => ns.requested_prefix,
+                        },
+                        assigned_prefix: None,
+                        required: url == namespace,
+                        needs_prefix: false,
+                    };
+                    (url, child)
+                })
+                .collect(),
+            parent: Some(&self.by_prefix),
         }
-        child
+    }
+
+    /// Returns the `(prefix, url)` pairs which differ from those of `parent`.
+    fn declarations<'b>(
+        &'b self,
+        parent: Option<&xml::namespace::Namespace>,
+    ) -> Vec<(&'b str, &'b str)> {
+        let parent_url = |prefix| parent.and_then(|p| p.get(prefix));
+        let mut declarations = Vec::new();
+        if parent_url("").is_some() && self.by_prefix.get("").is_none() {
+            declarations.push(("", ""));
+        }
+        declarations.extend(
+            self.by_prefix
+                .into_iter()
+                .filter(|(prefix, url)| parent_url(prefix) != Some(*url)),
+        );
+        declarations
     }
 
     fn resolve_element<'b>(&'b self, name: &ExpandedNameRef<'b>) -> xml::name::Name<'b>
@@ -442,16 +488,8 @@ impl<'a> Namespaces<'a> {
                 ..
             }) => p,
             None if name.namespace == "http://www.w3.org/XML/1998/namespace" => "xml",
-            _ if name.namespace.is_empty() => {
-                if self.by_prefix.get("").is_none() {
-                    ""
-                } else {
-                    todo!(
-                        "element {} has no namespace, but default namespace is set",
-                        name
-                    )
-                }
-            }
+            // `finalize` has ensured there's no default namespace.
+            _ if name.namespace.is_empty() => "",
             _ => panic!("element {} uses undeclared namespace", name),
         };
         xml::name::Name {
-- 
2.43.0


From 45dbd48bb8d08daa922cced586d38c4a80e3332d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:27 +0000
Subject: [PATCH 06/24] fix: a filled choice passes unrecognized elements on

---
 static-xml-derive/src/deserialize.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 56b864e..e6ccfed 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -424,7 +424,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(None);
+                    return Ok(Some(child));
                 }
                 self.out.write(match element_i {
                     #(#uninitialized_match_arms,)*
-- 
2.43.0


From 3d80c78a1557f55c8a2084f61763ab7a34b6e008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:44 +0000
Subject: [PATCH 07/24] fix: make choices with skipped alternatives compile,
 and refuse to serialize those

---
 static-xml-derive/src/deserialize.rs | 9 +++++++--
 static-xml-derive/src/serialize.rs   | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e6ccfed..4a77bc9 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -341,7 +341,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .iter()
         .map(|v| v.name.quote_expanded())
         .collect();
-    let initialized_match_arms: Vec<TokenStream> = enum_
+    let mut initialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
         .enumerate()
@@ -370,6 +370,11 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
         })
         .collect();
+    if enum_.has_skipped_variants {
+        initialized_match_arms.push(quote! {
+            _ => unreachable!("skipped variants are never deserialized")
+        });
+    }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
         .variants
         .iter()
@@ -415,7 +420,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                 let element_i = ::static_xml::de::find(&name, ELEMENTS);
                 if self.initialized {
                     // SAFETY: self.out is initialized when self.initialized is true.
-                    let expected_i = match unsafe { self.out.assume_init_mut() } {
+                    let expected_i: usize = match unsafe { self.out.assume_init_mut() } {
                         #(#initialized_match_arms,)*
                     };
                     if let Some(element_i) = element_i {
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index 3fd1479..cfa7cab 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -129,7 +129,9 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => {}
+            _ => return Err(::static_xml::ser::Error(::std::string::String::from(
+                concat!("can't serialize skipped variant of ", stringify!(#ident))
+            )))
         });
     }
     let write_namespaces = write_namespaces(&enum_.attr);
-- 
2.43.0


From e5be62cef5c6a3a6718c2725c31338b574e98733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 08/24] fix: sort choice alternatives as the lookup expects

---
 static-xml-derive/src/common.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index c1b2c96..9861c46 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -651,12 +651,7 @@ impl<'a> ElementEnum<'a> {
                 })
             })
             .collect();
-        variants.sort_by(|a, b| {
-            a.name
-                .namespace
-                .cmp(&b.name.namespace)
-                .then_with(|| a.name.local_name.cmp(&b.name.local_name))
-        });
+        variants.sort_by(|a, b| a.name.expanded().cmp(&b.name.expanded()));
         ElementEnum {
             input,
             attr,
-- 
2.43.0


From c482d82dbfb41ae5e0c25de9d4603fbd726d8822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:50 +0000
Subject: [PATCH 09/24] fix: name raw identifiers without the r# prefix

---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 9861c46..64fa3f9 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -6,7 +6,7 @@ use std::{cell::RefCell, collections::BTreeMap};
 use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
-use syn::{DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
+use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
@@ -195,7 +195,7 @@ impl<'a> TextEnum<'a> {
                         ));
                     }
                     TextVariantMode::Known {
-                        text: text.unwrap_or_else(|| v.ident.to_string()),
+                        text: text.unwrap_or_else(|| v.ident.unraw().to_string()),
                     }
                 };
                 RestrictionVariant { inner: v, mode }
@@ -267,7 +267,7 @@ impl<'a> Name<'a> {
     fn from_ident(ident: &syn::Ident) -> Name {
         Name {
             ident,
-            local_name: ident.to_string(),
+            local_name: ident.unraw().to_string(),
             prefix: None,
             namespace: None,
         }
-- 
2.43.0


From c154ee85b5615fbb04c0601fce3c0c1a70990762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 10/24] fix: implement text fields

---
 static-xml-derive/src/common.rs      |  7 +++++++
 static-xml-derive/src/deserialize.rs | 19 ++++++++++++++++---
 static-xml-derive/src/serialize.rs   | 22 ++++++++++++++--------
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 64fa3f9..986315d 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -580,6 +580,13 @@ impl<'a> ElementField<'a> {
             }
             ElementFieldMode::Flatten
         } else if !attribute && !flatten && text {
+            if default {
+                errors.push(syn::Error::new_spanned(
+                    inner,
+                    "default and text are mutually exclusive",
+                ));
+                return Err(());
+            }
             ElementFieldMode::Text
         } else {
             errors.push(syn::Error::new_spanned(
diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 4a77bc9..e614a48 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -39,7 +39,9 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_visitor = format_ident!("{}_visitor", field.ident);
             let ty = &field.inner.ty;
             match field.mode {
-                ElementFieldMode::Text => None,
+                ElementFieldMode::Text => Some(quote_spanned! {span=>
+                    _text_buf: ::std::string::String
+                }),
                 ElementFieldMode::Flatten => Some(quote_spanned! {span=>
                     #field_visitor: <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor
                 }),
@@ -76,6 +78,9 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                         )
                     }
                 }
+                ElementFieldMode::Text => quote_spanned! {span=>
+                    _text_buf: ::std::string::String::new()
+                },
                 _ => {
                     let field_present = format_ident!("{}_present", field.ident);
                     quote_spanned! {span=>
@@ -140,7 +145,15 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(self.#field_visitor, #d)?;
                 }
             }
-            ElementFieldMode::Text => todo!("text fields unimplemented"),
+            ElementFieldMode::Text => {
+                let field_mut = field_mut(field);
+                quote_spanned! {span=>
+                    let text = <#ty as ::static_xml::de::ParseText>::parse(self._text_buf)
+                        .map_err(::static_xml::de::VisitorError::Wrap)?;
+                    // SAFETY: #field_mut is a valid pointer to uninitialized memory.
+                    unsafe { ::std::ptr::write(#field_mut as *mut #ty, text) };
+                }
+            }
         }
     }).collect()
 }
@@ -249,7 +262,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     }
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
-            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::de::VisitorError> {
+            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
                 self._text_buf.push_str(&s);
                 Ok(None)
             }
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index cfa7cab..e707527 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -49,15 +49,21 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
 
 fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
     let elements = struct_.fields.iter().filter_map(|f| {
-        if !matches!(f.mode, ElementFieldMode::Element { .. }) {
-            return None;
-        }
         let ident = &f.inner.ident;
-        let name = f.name.quote_expanded();
-        Some(quote_spanned! {
-            ident.span() =>
-            ::static_xml::ser::SerializeField::write(&self.#ident, writer, #name)?;
-        })
+        match f.mode {
+            ElementFieldMode::Element { .. } => {
+                let name = f.name.quote_expanded();
+                Some(quote_spanned! {
+                    ident.span() =>
+                    ::static_xml::ser::SerializeField::write(&self.#ident, writer, #name)?;
+                })
+            }
+            ElementFieldMode::Text => Some(quote_spanned! {
+                ident.span() =>
+                writer.text(&::static_xml::ser::ToText::to_text(&self.#ident)?)?;
+            }),
+            _ => None,
+        }
     });
     let flattens = struct_.fields.iter().filter_map(|f| {
         if !matches!(f.mode, ElementFieldMode::Flatten) {
-- 
2.43.0


From 4dada4d01eb9e7c8fad45258d70e6dd19163800a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:41 +0000
Subject: [PATCH 11/24] fix: let derived structs be flattened, as documented

---
 static-xml-derive/src/deserialize.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index e614a48..1592b60 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -244,6 +244,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
 
     let ident = &struct_.input.ident;
     let visitor_type = format_ident!("{}Visitor", &struct_.input.ident);
+    // The visibilities must match; see the comment in `do_enum`.
+    let vis = &struct_.input.vis;
     let visitor_field_definitions = visitor_field_definitions(&struct_);
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
@@ -284,7 +286,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
         // a generated field name e.g. `foo__required` or `foo__visitor`. Don't
         // complain about this.
         #[allow(non_snake_case)]
-        struct #visitor_type<'out> {
+        #vis struct #visitor_type<'out> {
             // This can't be &mut MaybeUninit<#type> because flattened fields
             // (if any) get a &mut MaybeUninit<#type> that aliases it. So
             // use a raw pointer and addr_of! to access individual fields, and
@@ -342,6 +344,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
         }
 
+        impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
+            type Visitor = #visitor_type<'out>;
+        }
+
         ::static_xml::impl_deserialize_via_raw!(#ident, #visitor_type);
     }
 }
-- 
2.43.0


From a98df0a35f5cf86392271b2ef1d132a6ad960b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 12/24] fix: drop what was read when deserialization fails

---
 static-xml-derive/src/deserialize.rs | 92 +++++++++++++++++++++++-----
 1 file changed, 75 insertions(+), 17 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 1592b60..4555b84 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -16,7 +16,7 @@ pub(crate) fn quote_flatten_visitors(struct_: &ElementStruct) -> Vec<TokenStream
         .filter_map(|f| {
             if matches!(f.mode, ElementFieldMode::Flatten) {
                 let field_visitor = format_ident!("{}_visitor", f.ident);
-                Some(quote_spanned! { f.inner.ident.span() => &mut self.#field_visitor })
+                Some(quote_spanned! { f.inner.ident.span() => self.#field_visitor.as_mut().unwrap() })
             } else {
                 None
             }
@@ -40,10 +40,15 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
             let ty = &field.inner.ty;
             match field.mode {
                 ElementFieldMode::Text => Some(quote_spanned! {span=>
+                    #field_present: bool,
                     _text_buf: ::std::string::String
                 }),
                 ElementFieldMode::Flatten => Some(quote_spanned! {span=>
-                    #field_visitor: <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor
+                    #field_present: bool,
+                    // `None` once finalized.
+                    #field_visitor: ::std::option::Option<
+                        <#ty as ::static_xml::de::RawDeserialize<'out>>::Visitor
+                    >
                 }),
                 ElementFieldMode::Element { .. } | ElementFieldMode::Attribute { .. } => {
                     Some(quote_spanned! {span=>
@@ -61,13 +66,15 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
         .iter()
         .map(|field| {
             let span = field.inner.span();
+            let field_present = format_ident!("{}_present", field.ident);
             match field.mode {
                 ElementFieldMode::Flatten => {
                     let field_visitor = format_ident!("{}_visitor", field.ident);
                     let fident = field.ident;
                     let ty = &field.inner.ty;
                     quote_spanned! {span=>
-                        #field_visitor: <#ty as ::static_xml::de::RawDeserialize>::Visitor::new(
+                        #field_present: false,
+                        #field_visitor: Some(<#ty as ::static_xml::de::RawDeserialize>::Visitor::new(
                             // SAFETY: out points to valid, uninitialized memory.
                             unsafe {
                                 &mut *(
@@ -75,18 +82,16 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                                     as *mut ::std::mem::MaybeUninit<#ty>
                                 )
                             }
-                        )
+                        ))
                     }
                 }
                 ElementFieldMode::Text => quote_spanned! {span=>
+                    #field_present: false,
                     _text_buf: ::std::string::String::new()
                 },
-                _ => {
-                    let field_present = format_ident!("{}_present", field.ident);
-                    quote_spanned! {span=>
-                        #field_present: false
-                    }
-                }
+                _ => quote_spanned! {span=>
+                    #field_present: false
+                },
             }
         })
         .collect()
@@ -96,6 +101,7 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_.fields.iter().map(|field| {
         let span = field.inner.span();
         let ty = &field.inner.ty;
+        let field_present = format_ident!("{}_present", field.ident);
         let default = field.default.then(|| {
             quote_spanned! {span=>
                 <#ty as ::std::default::Default>::default
@@ -103,7 +109,6 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
         });
         match field.mode {
             ElementFieldMode::Element { sorted_elements_pos: p } => {
-                let field_present = format_ident!("{}_present", field.ident);
                 let field_mut = field_mut(field);
                 let value = match default {
                     Some(d) => quote! { #d() },
@@ -115,11 +120,11 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     if !self.#field_present {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut as *mut #ty, #value) };
+                        self.#field_present = true;
                     }
                 }
             }
             ElementFieldMode::Attribute { sorted_attributes_pos: p } => {
-                let field_present = format_ident!("{}_present", field.ident);
                 let field_mut = field_mut(field);
                 let value = match default {
                     Some(d) => quote! { #d() },
@@ -131,6 +136,7 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     if !self.#field_present {
                         // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                         unsafe { ::std::ptr::write(#field_mut /*as *mut #ty*/, #value) };
+                        self.#field_present = true;
                     }
                 }
             }
@@ -142,22 +148,46 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
                     quote! { None }
                 };
                 quote_spanned! {span=>
-                    <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(self.#field_visitor, #d)?;
+                    <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(
+                        self.#field_visitor.take().unwrap(),
+                        #d,
+                    )?;
+                    self.#field_present = true;
                 }
             }
             ElementFieldMode::Text => {
                 let field_mut = field_mut(field);
                 quote_spanned! {span=>
-                    let text = <#ty as ::static_xml::de::ParseText>::parse(self._text_buf)
-                        .map_err(::static_xml::de::VisitorError::Wrap)?;
+                    let text = <#ty as ::static_xml::de::ParseText>::parse(
+                        ::std::mem::take(&mut self._text_buf)
+                    ).map_err(::static_xml::de::VisitorError::Wrap)?;
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     unsafe { ::std::ptr::write(#field_mut as *mut #ty, text) };
+                    self.#field_present = true;
                 }
             }
         }
     }).collect()
 }
 
+/// Drops each initialized field, for when deserialization fails.
+fn drop_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
+    struct_
+        .fields
+        .iter()
+        .map(|field| {
+            let field_present = format_ident!("{}_present", field.ident);
+            let field_mut = field_mut(field);
+            quote! {
+                if self.#field_present {
+                    // SAFETY: the field is initialized when field_present is true.
+                    unsafe { ::std::ptr::drop_in_place(#field_mut) };
+                }
+            }
+        })
+        .collect()
+}
+
 fn attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_
         .sorted_attributes
@@ -249,6 +279,12 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let visitor_field_definitions = visitor_field_definitions(&struct_);
     let visitor_initializers = visitor_initializers(&struct_);
     let finalize_visitor_fields = finalize_visitor_fields(&struct_);
+    let drop_fields = drop_fields(&struct_);
+    let field_presents: Vec<_> = struct_
+        .fields
+        .iter()
+        .map(|field| format_ident!("{}_present", field.ident))
+        .collect();
     let flatten_visitors = quote_flatten_visitors(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
@@ -332,7 +368,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 }
             }
 
-            fn finalize(self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            #[allow(unused_mut)] // when there are no fields.
+            fn finalize(mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
                 #(#finalize_visitor_fields)*
@@ -340,10 +377,19 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 // finalize_visitor_fields has guaranteed that each field is fully initialized.
                 // The padding doesn't matter. This is similar to this example
                 // https://doc.rust-lang.org/stable/std/mem/union.MaybeUninit.html#initializing-a-struct-field-by-field
+                //
+                // The caller owns the fields from here on, so don't drop them.
+                #(self.#field_presents = false;)*
                 Ok(())
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                #(#drop_fields)*
+            }
+        }
+
         impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
             type Visitor = #visitor_type<'out>;
         }
@@ -470,7 +516,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             }
 
             fn finalize(
-                self,
+                mut self,
                 default: Option<fn() -> Self::Out>,
             ) -> Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
@@ -481,10 +527,22 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     }
                 }
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
+                //
+                // The caller owns the value from here on, so don't drop it.
+                self.initialized = false;
                 Ok(())
             }
         }
 
+        impl<'out> ::std::ops::Drop for #visitor_type<'out> {
+            fn drop(&mut self) {
+                if self.initialized {
+                    // SAFETY: self.out is initialized when self.initialized is true.
+                    unsafe { ::std::ptr::drop_in_place(self.out.as_mut_ptr()) };
+                }
+            }
+        }
+
         impl<'out> ::static_xml::de::RawDeserialize<'out> for #ident {
             type Visitor = #visitor_type<'out>;
         }
-- 
2.43.0


From beaf987d198dc6fb73cf1245531e15b8629b39e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:00 +0000
Subject: [PATCH 13/24] fix: report reserved namespace prefixes rather than
 panicking in the derive macros

---
 static-xml-derive/src/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 986315d..06fa578 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -304,7 +304,11 @@ impl Namespaces {
                     if prefix == "xml" && url == "http://www.w3.org/XML/1998/namespace" {
                         return;
                     }
-                    todo!("unsupported special namespace combo prefix={prefix:?} url={url:?}")
+                    errors.push(syn::Error::new_spanned(
+                        nv,
+                        format!("reserved prefix {:?} can't be mapped to {:?}", prefix, url),
+                    ));
+                    return;
                 }
                 self.add_internal(errors, nv, prefix_untrimmed.trim(), url_untrimmed);
             } else {
-- 
2.43.0


From acaf2d0fb09b96c92eeac078a610d2d86c43384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:00 +0000
Subject: [PATCH 14/24] fix: don't ignore all but the last type-level prefix
 option

---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 06fa578..580c9e9 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -384,7 +384,7 @@ impl<'a> ElementAttr<'a> {
     fn new(errors: &Errors, input: &'a DeriveInput) -> Self {
         let mut name = Name::from_ident(&input.ident);
         let mut namespaces = Namespaces::default();
-        let mut prefix_nv = None;
+        let mut prefix_nvs = Vec::new();
         for item in get_meta_items(errors, &input.attrs) {
             match item {
                 NestedMeta::Meta(Meta::NameValue(nv)) => {
@@ -393,7 +393,7 @@ impl<'a> ElementAttr<'a> {
                             with_lit_str(errors, &nv, &mut |l| name.local_name = l.value());
                         } else if id == "prefix" {
                             // Defer evaluation until we have all the namespaces.
-                            prefix_nv = Some(nv);
+                            prefix_nvs.push(nv);
                         } else if id == "namespace" {
                             namespaces.add_namespace(errors, &nv);
                         } else if id == "default_namespace" {
@@ -408,7 +408,7 @@ impl<'a> ElementAttr<'a> {
                 i => errors.push(syn::Error::new_spanned(i, "item not understood")),
             }
         }
-        if let Some(ref nv) = prefix_nv {
+        for nv in &prefix_nvs {
             namespaces.process_prefix(errors, nv, &mut name);
         }
         ElementAttr { name, namespaces }
-- 
2.43.0


From de1bd60486f06e6b597105ac2838afb531c4c6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:00 +0000
Subject: [PATCH 15/24] fix: check the options following skip on an enum
 variant

---
 static-xml-derive/src/common.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 580c9e9..56f3a68 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -633,6 +633,7 @@ impl<'a> ElementEnum<'a> {
             .iter()
             .filter_map(|v| {
                 let mut name = Name::from_ident(&v.ident);
+                let mut skip = false;
                 for item in get_meta_items(errors, &v.attrs) {
                     match &item {
                         NestedMeta::Meta(Meta::NameValue(nv @ MetaNameValue { ref path, .. }))
@@ -645,13 +646,14 @@ impl<'a> ElementEnum<'a> {
                         {
                             attr.namespaces.process_prefix(errors, nv, &mut name);
                         }
-                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("skip") => {
-                            has_skipped_variants = true;
-                            return None;
-                        }
+                        NestedMeta::Meta(Meta::Path(p)) if p.is_ident("skip") => skip = true,
                         i => errors.push(syn::Error::new_spanned(i, "item not understood")),
                     }
                 }
+                if skip {
+                    has_skipped_variants = true;
+                    return None;
+                }
                 let ty = optional_unnamed_field(errors, &v.ident, &v.fields)
                     .ok()?
                     .map(|f| &f.ty);
-- 
2.43.0


From 49af944f415860f1b238a216f2fc14c66bfcf14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:14 +0000
Subject: [PATCH 16/24] fix: reserved namespace prefixes are refused with
 surrounding white space too

---
 static-xml-derive/src/common.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 56f3a68..49d520e 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -298,8 +298,8 @@ impl Namespaces {
         with_lit_str(errors, nv, &mut |l| {
             let value = l.value();
             if let Some((prefix_untrimmed, url_untrimmed)) = value.split_once(": ") {
-                if prefix_untrimmed.starts_with("xml") {
-                    let prefix = prefix_untrimmed.trim();
+                let prefix = prefix_untrimmed.trim();
+                if prefix.starts_with("xml") {
                     let url = url_untrimmed.trim();
                     if prefix == "xml" && url == "http://www.w3.org/XML/1998/namespace" {
                         return;
@@ -310,7 +310,7 @@ impl Namespaces {
                     ));
                     return;
                 }
-                self.add_internal(errors, nv, prefix_untrimmed.trim(), url_untrimmed);
+                self.add_internal(errors, nv, prefix, url_untrimmed);
             } else {
                 self.add_internal(errors, nv, "", &value);
             }
-- 
2.43.0


From cf0b13c5d30811841cb09f8b9f3a330c7b421fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:28 +0000
Subject: [PATCH 17/24] fix: derived visitors of structs with several flattened
 fields keep their pointers valid

---
 static-xml-derive/src/deserialize.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 4555b84..d50ec48 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -78,7 +78,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                             // SAFETY: out points to valid, uninitialized memory.
                             unsafe {
                                 &mut *(
-                                    ::std::ptr::addr_of_mut!((*out.as_mut_ptr()).#fident)
+                                    ::std::ptr::addr_of_mut!((*out).#fident)
                                     as *mut ::std::mem::MaybeUninit<#ty>
                                 )
                             }
@@ -361,8 +361,11 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             type Out = #ident;
 
             fn new(out: &'out mut ::std::mem::MaybeUninit<Self::Out>) -> Self {
+                // All pointers to fields must derive from this one; calling `as_mut_ptr` again would
+                // invalidate those the flattened fields' visitors have been given.
+                let out = out.as_mut_ptr();
                 Self {
-                    out: out.as_mut_ptr(),
+                    out,
                     _phantom: ::std::marker::PhantomData,
                     #(#visitor_initializers, )*
                 }
-- 
2.43.0


From e9c2baecc75109d2e49df7dbb177375e694dd2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:26 +0000
Subject: [PATCH 18/24] fix: derived visitors of enums don't hold an exclusive
 reference to a flattened field

The containing type's visitor accesses the field after the enum visitor's
finalize and before its drop glue ends, which the reference forbade.
---
 static-xml-derive/src/deserialize.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index d50ec48..d0272e7 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -475,7 +475,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         const ELEMENTS: &[::static_xml::ExpandedNameRef] = &[#(#elements,)*];
 
         #vis struct #visitor_type<'out> {
-            out: &'out mut ::std::mem::MaybeUninit<#ident>,
+            // This can't be &mut MaybeUninit<#type> because when flattened, the
+            // containing type's visitor owns this one and yet accesses the
+            // field after this one is finalized. So use a raw pointer and
+            // PhantomData for the lifetime.
+            out: *mut #ident,
+            _phantom: ::std::marker::PhantomData<&'out mut #ident>,
             initialized: bool,
         }
 
@@ -488,7 +493,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                 let element_i = ::static_xml::de::find(&name, ELEMENTS);
                 if self.initialized {
                     // SAFETY: self.out is initialized when self.initialized is true.
-                    let expected_i: usize = match unsafe { self.out.assume_init_mut() } {
+                    let expected_i: usize = match unsafe { &mut *self.out } {
                         #(#initialized_match_arms,)*
                     };
                     if let Some(element_i) = element_i {
@@ -499,10 +504,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     }
                     return Ok(Some(child));
                 }
-                self.out.write(match element_i {
+                let value = match element_i {
                     #(#uninitialized_match_arms,)*
                     _ => return Ok(Some(child)),
-                });
+                };
+                // SAFETY: self.out points to valid, uninitialized memory.
+                unsafe { self.out.write(value) };
                 self.initialized = true;
                 Ok(None)
             }
@@ -513,7 +520,8 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
 
             fn new(out: &'out mut ::std::mem::MaybeUninit<Self::Out>) -> Self {
                 Self {
-                    out,
+                    out: out.as_mut_ptr(),
+                    _phantom: ::std::marker::PhantomData,
                     initialized: false,
                 }
             }
@@ -524,7 +532,9 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             ) -> Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
                     if let Some(d) = default {
-                        self.out.write(d());
+                        let value = d();
+                        // SAFETY: self.out points to valid, uninitialized memory.
+                        unsafe { self.out.write(value) };
                     } else {
                         return Err(static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
                     }
@@ -541,7 +551,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             fn drop(&mut self) {
                 if self.initialized {
                     // SAFETY: self.out is initialized when self.initialized is true.
-                    unsafe { ::std::ptr::drop_in_place(self.out.as_mut_ptr()) };
+                    unsafe { ::std::ptr::drop_in_place(self.out) };
                 }
             }
         }
-- 
2.43.0


From 721d06b9da62ab0c4d557cb3f82f17334ebd088a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:20 +0000
Subject: [PATCH 19/24] fix: derived code names what it uses by absolute paths

A type alias such as `type Result<T> = ...` next to a derived type, or anything
else hiding a name of the prelude, broke the generated code.
---
 static-xml-derive/src/deserialize.rs | 78 ++++++++++++++--------------
 static-xml-derive/src/parse.rs       | 22 ++++----
 static-xml-derive/src/serialize.rs   | 20 +++----
 static-xml-derive/src/to_text.rs     | 10 ++--
 static-xml/src/de/mod.rs             |  9 ++--
 5 files changed, 71 insertions(+), 68 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index d0272e7..3cfe88c 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -74,7 +74,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
                     let ty = &field.inner.ty;
                     quote_spanned! {span=>
                         #field_present: false,
-                        #field_visitor: Some(<#ty as ::static_xml::de::RawDeserialize>::Visitor::new(
+                        #field_visitor: ::std::option::Option::Some(<#ty as ::static_xml::de::RawDeserialize>::Visitor::new(
                             // SAFETY: out points to valid, uninitialized memory.
                             unsafe {
                                 &mut *(
@@ -143,9 +143,9 @@ fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
             ElementFieldMode::Flatten => {
                 let field_visitor = format_ident!("{}_visitor", field.ident);
                 let d = if let Some(d) = default {
-                    quote! { Some(#d) }
+                    quote! { ::std::option::Option::Some(#d) }
                 } else {
-                    quote! { None }
+                    quote! { ::std::option::Option::None }
                 };
                 quote_spanned! {span=>
                     <#ty as ::static_xml::de::RawDeserialize>::Visitor::finalize(
@@ -214,10 +214,10 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", field.ident);
             let field_mut = field_mut(field);
             quote! {
-                Some(#i) if self.#field_present => {
-                    Err(::static_xml::de::VisitorError::duplicate_attribute(name))
+                ::std::option::Option::Some(#i) if self.#field_present => {
+                    ::std::result::Result::Err(::static_xml::de::VisitorError::duplicate_attribute(name))
                 }
-                Some(#i) => {
+                ::std::option::Option::Some(#i) => {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     unsafe {
                         ::std::ptr::write(
@@ -226,7 +226,7 @@ fn attribute_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                         );
                     }
                     self.#field_present = true;
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
             }
         })
@@ -244,22 +244,22 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
             let field_present = format_ident!("{}_present", &field.ident);
             let field_mut = field_mut(field);
             quote_spanned! {span=>
-                Some(#i) if self.#field_present => {
+                ::std::option::Option::Some(#i) if self.#field_present => {
                     ::static_xml::de::DeserializeElementField::update(
                         // SAFETY: the field is initialized when field_present is true.
                         unsafe { &mut *#field_mut },
                         child,
                     )?;
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
-                Some(#i) => unsafe {
+                ::std::option::Option::Some(#i) => unsafe {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     ::std::ptr::write(
                         #field_mut,
                         ::static_xml::de::DeserializeElementField::init(child)?,
                     );
                     self.#field_present = true;
-                    Ok(None)
+                    ::std::result::Result::Ok(::std::option::Option::None)
                 }
             }
         })
@@ -288,8 +288,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let flatten_visitors = quote_flatten_visitors(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
-        attribute_fallthrough = quote! { Ok(Some(value)) };
-        element_fallthrough = quote! { Ok(Some(child)) };
+        attribute_fallthrough = quote! { ::std::result::Result::Ok(::std::option::Option::Some(value)) };
+        element_fallthrough = quote! { ::std::result::Result::Ok(::std::option::Option::Some(child)) };
     } else {
         attribute_fallthrough = quote! {
             ::static_xml::de::delegate_attribute(&mut [#(#flatten_visitors),*], name, value)
@@ -300,14 +300,14 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     }
     let visitor_characters = if struct_.text_field_pos.is_some() {
         quote! {
-            fn characters(&mut self, s: String, _p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
+            fn characters(&mut self, s: ::std::string::String, _p: ::static_xml::TextPosition) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::BoxedStdError> {
                 self._text_buf.push_str(&s);
-                Ok(None)
+                ::std::result::Result::Ok(::std::option::Option::None)
             }
         }
     } else if !flatten_visitors.is_empty() {
         quote! {
-            fn characters(&mut self, s: String, p: ::static_xml::TextPosition) -> Result<Option<String>, ::static_xml::BoxedStdError> {
+            fn characters(&mut self, s: ::std::string::String, p: ::static_xml::TextPosition) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::BoxedStdError> {
                 ::static_xml::de::delegate_characters(&mut [#(#flatten_visitors),*], s, p)
             }
         }
@@ -336,7 +336,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             fn element<'a>(
                 &mut self,
                 child: ::static_xml::de::ElementReader<'a>,
-            ) -> Result<Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<::std::option::Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
                 match ::static_xml::de::find(&child.expanded_name(), ELEMENTS) {
                     #(#element_match_branches,)*
                     _ => #element_fallthrough
@@ -346,8 +346,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             fn attribute<'a>(
                 &mut self,
                 name: &::static_xml::ExpandedNameRef,
-                value: String,
-            ) -> Result<Option<String>, ::static_xml::de::VisitorError> {
+                value: ::std::string::String,
+            ) -> ::std::result::Result<::std::option::Option<::std::string::String>, ::static_xml::de::VisitorError> {
                 match ::static_xml::de::find(name, ATTRIBUTES) {
                     #(#attribute_match_branches,)*
                     _ => #attribute_fallthrough
@@ -372,7 +372,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
             }
 
             #[allow(unused_mut)] // when there are no fields.
-            fn finalize(mut self, _default: Option<fn() -> Self::Out>) -> Result<(), ::static_xml::de::VisitorError> {
+            fn finalize(mut self, _default: ::std::option::Option<fn() -> Self::Out>) -> ::std::result::Result<(), ::static_xml::de::VisitorError> {
                 // Note _default is currently unsupported for structs.
 
                 #(#finalize_visitor_fields)*
@@ -383,7 +383,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
                 //
                 // The caller owns the fields from here on, so don't drop them.
                 #(self.#field_presents = false;)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
 
@@ -420,17 +420,17 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {span=>
-                        #ident::#vident if element_i == Some(#i) => {
-                            return Ok(None);
+                        #ident::#vident if element_i == ::std::option::Option::Some(#i) => {
+                            return ::std::result::Result::Ok(::std::option::Option::None);
                         }
                         #ident::#vident => #i
                     }
                 }
                 Some(_) => {
                     quote_spanned! {span=>
-                        #ident::#vident(f) if element_i == Some(#i) => {
+                        #ident::#vident(f) if element_i == ::std::option::Option::Some(#i) => {
                             ::static_xml::de::DeserializeElementField::update(f, child)?;
-                            return Ok(None);
+                            return ::std::result::Result::Ok(::std::option::Option::None);
                         }
                         #ident::#vident(_) => #i
                     }
@@ -440,7 +440,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .collect();
     if enum_.has_skipped_variants {
         initialized_match_arms.push(quote! {
-            _ => unreachable!("skipped variants are never deserialized")
+            _ => ::std::unreachable!("skipped variants are never deserialized")
         });
     }
     let uninitialized_match_arms: Vec<TokenStream> = enum_
@@ -452,12 +452,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {
-                        vident.span() => Some(#i) => { #ident::#vident }
+                        vident.span() => ::std::option::Option::Some(#i) => { #ident::#vident }
                     }
                 }
                 Some(_) => {
                     quote_spanned! {
-                        vident.span() => Some(#i) => {
+                        vident.span() => ::std::option::Option::Some(#i) => {
                             #ident::#vident(::static_xml::de::DeserializeElementField::init(child)?)
                         }
                     }
@@ -488,7 +488,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             fn element<'a>(
                 &mut self,
                 mut child: ::static_xml::de::ElementReader<'a>,
-            ) -> Result<Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<::std::option::Option<::static_xml::de::ElementReader<'a>>, ::static_xml::de::VisitorError> {
                 let name = child.expanded_name();
                 let element_i = ::static_xml::de::find(&name, ELEMENTS);
                 if self.initialized {
@@ -496,22 +496,22 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
                     let expected_i: usize = match unsafe { &mut *self.out } {
                         #(#initialized_match_arms,)*
                     };
-                    if let Some(element_i) = element_i {
-                        return Err(::static_xml::de::VisitorError::unexpected_element(
+                    if let ::std::option::Option::Some(element_i) = element_i {
+                        return ::std::result::Result::Err(::static_xml::de::VisitorError::unexpected_element(
                             &name,
                             &ELEMENTS[expected_i],
                         ));
                     }
-                    return Ok(Some(child));
+                    return ::std::result::Result::Ok(::std::option::Option::Some(child));
                 }
                 let value = match element_i {
                     #(#uninitialized_match_arms,)*
-                    _ => return Ok(Some(child)),
+                    _ => return ::std::result::Result::Ok(::std::option::Option::Some(child)),
                 };
                 // SAFETY: self.out points to valid, uninitialized memory.
                 unsafe { self.out.write(value) };
                 self.initialized = true;
-                Ok(None)
+                ::std::result::Result::Ok(::std::option::Option::None)
             }
         }
 
@@ -528,22 +528,22 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
 
             fn finalize(
                 mut self,
-                default: Option<fn() -> Self::Out>,
-            ) -> Result<(), ::static_xml::de::VisitorError> {
+                default: ::std::option::Option<fn() -> Self::Out>,
+            ) -> ::std::result::Result<(), ::static_xml::de::VisitorError> {
                 if !self.initialized {
-                    if let Some(d) = default {
+                    if let ::std::option::Option::Some(d) = default {
                         let value = d();
                         // SAFETY: self.out points to valid, uninitialized memory.
                         unsafe { self.out.write(value) };
                     } else {
-                        return Err(static_xml::de::VisitorError::cant_be_empty(stringify!(#ident)));
+                        return ::std::result::Result::Err(::static_xml::de::VisitorError::cant_be_empty(::std::stringify!(#ident)));
                     }
                 }
                 // SAFETY: returning `Ok` guarantees `self.out` is fully initialized.
                 //
                 // The caller owns the value from here on, so don't drop it.
                 self.initialized = false;
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
 
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index b689a5c..f7245f5 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -39,19 +39,19 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
             quote_spanned! {
                 ident.span() =>
                 match <#ty as ::static_xml::de::ParseText>::parse(text.clone()) {
-                    Ok(r) => return Ok(Self::#ident(r)),
-                    Err(e) => errors.push(e),
+                    ::std::result::Result::Ok(r) => return ::std::result::Result::Ok(Self::#ident(r)),
+                    ::std::result::Result::Err(e) => errors.push(e),
                 }
             }
         })
         .collect();
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
-                let mut errors = Vec::new();
+                let mut errors = ::std::vec::Vec::new();
                 #(#attempts)*
-                Err(::static_xml::de::union_error(stringify!(#ident), errors))
+                ::std::result::Result::Err(::static_xml::de::union_error(::std::stringify!(#ident), errors))
             }
         }
     }
@@ -71,20 +71,20 @@ fn do_restriction(
                 TextVariantMode::Unknown => return None,
             };
             let ident = &v.inner.ident;
-            Some(quote_spanned! { ident.span() => #text => Ok(Self::#ident) })
+            Some(quote_spanned! { ident.span() => #text => ::std::result::Result::Ok(Self::#ident) })
         })
         .collect();
     let fallthrough = if let Some(i) = unknown_variant {
         let vident = &variants[i].inner.ident;
-        quote_spanned! { vident.span() => _ => Ok(Self::#vident(text)) }
+        quote_spanned! { vident.span() => _ => ::std::result::Result::Ok(Self::#vident(text)) }
     } else {
-        quote! { t => Err(::static_xml::de::no_such_variant(stringify!(#ident), t)) }
+        quote! { t => ::std::result::Result::Err(::static_xml::de::no_such_variant(::std::stringify!(#ident), t)) }
     };
     let ident = &enum_.input.ident;
     let normalize = normalize(enum_.whitespace);
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
                 match text.as_str() {
                     #(#match_arms, )*
@@ -99,10 +99,10 @@ fn do_std(ident: &proc_macro2::Ident, attr: &TextAttr) -> TokenStream {
     let normalize = normalize(attr.whitespace);
     quote! {
         impl ::static_xml::de::ParseText for #ident {
-            fn parse(text: String) -> Result<Self, ::static_xml::BoxedStdError> {
+            fn parse(text: ::std::string::String) -> ::std::result::Result<Self, ::static_xml::BoxedStdError> {
                 #normalize
                 ::std::str::FromStr::from_str(text.as_str())
-                    .map_err(|e| Box::new(e) as ::static_xml::BoxedStdError)
+                    .map_err(|e| ::std::boxed::Box::new(e) as ::static_xml::BoxedStdError)
             }
         }
     }
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index e707527..da99ff9 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -98,15 +98,15 @@ fn do_struct(_errors: &Errors, struct_: &ElementStruct) -> TokenStream {
     let impl_root = impl_root(&struct_.attr.name);
     quote! {
         impl ::static_xml::ser::Serialize for #ident {
-            fn write_attributes(&self, mut builder: &mut ::static_xml::ser::ElementBuilder) -> Result<(), ::static_xml::ser::Error> {
+            fn write_attributes(&self, mut builder: &mut ::static_xml::ser::ElementBuilder) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_namespaces)*
                 #(#write_attributes)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
-            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> Result<(), ::static_xml::ser::Error> {
+            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_elements)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
         #impl_root
@@ -135,8 +135,8 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     }).collect();
     if enum_.has_skipped_variants {
         match_arms.push(quote! {
-            _ => return Err(::static_xml::ser::Error(::std::string::String::from(
-                concat!("can't serialize skipped variant of ", stringify!(#ident))
+            _ => return ::std::result::Result::Err(::static_xml::ser::Error(::std::string::String::from(
+                ::std::concat!("can't serialize skipped variant of ", ::std::stringify!(#ident))
             )))
         });
     }
@@ -144,16 +144,16 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
     let impl_root = impl_root(&enum_.attr.name);
     quote! {
         impl ::static_xml::ser::Serialize for #ident {
-            fn write_attributes(&self, builder: &mut ::static_xml::ser::ElementBuilder) -> Result<(), ::static_xml::ser::Error> {
+            fn write_attributes(&self, builder: &mut ::static_xml::ser::ElementBuilder) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 #(#write_namespaces)*
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
-            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> Result<(), ::static_xml::ser::Error> {
+            fn write_children(&self, writer: &mut ::static_xml::ser::ElementWriter) -> ::std::result::Result<(), ::static_xml::ser::Error> {
                 match self {
                     #(#match_arms,)*
                 }
-                Ok(())
+                ::std::result::Result::Ok(())
             }
         }
         #impl_root
diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index b2a5bad..daabdc1 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -29,7 +29,7 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
     quote_spanned! {
         ident.span() =>
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
                 match self {
                     #(#match_arms, )*
                 }
@@ -57,8 +57,8 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
     quote_spanned! {
         ident.span() =>
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
-                Ok(match self {
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
+                ::std::result::Result::Ok(match self {
                     #(#match_arms, )*
                 }.to_owned())
             }
@@ -69,8 +69,8 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
 fn do_std(ident: &proc_macro2::Ident) -> TokenStream {
     quote! {
         impl ::static_xml::ser::ToText for #ident {
-            fn to_text(&self) -> Result<String, ::static_xml::ser::Error> {
-                Ok(::std::string::ToString::to_string(self))
+            fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
+                ::std::result::Result::Ok(::std::string::ToString::to_string(self))
             }
         }
     }
diff --git a/static-xml/src/de/mod.rs b/static-xml/src/de/mod.rs
index 488b080..3013ef3 100644
--- a/static-xml/src/de/mod.rs
+++ b/static-xml/src/de/mod.rs
@@ -750,14 +750,17 @@ macro_rules! impl_deserialize_via_raw {
         impl ::static_xml::de::Deserialize for $t {
             fn deserialize(
                 element: ::static_xml::de::ElementReader<'_>,
-            ) -> Result<Self, ::static_xml::de::VisitorError> {
+            ) -> ::std::result::Result<Self, ::static_xml::de::VisitorError> {
                 let mut out = ::std::mem::MaybeUninit::uninit();
                 let mut visitor =
                     <$visitor as ::static_xml::de::RawDeserializeVisitor>::new(&mut out);
                 element.read_to(&mut visitor)?;
-                ::static_xml::de::RawDeserializeVisitor::finalize(visitor, None)?;
+                ::static_xml::de::RawDeserializeVisitor::finalize(
+                    visitor,
+                    ::std::option::Option::None,
+                )?;
                 // SAFETY: finalize's contract guarantees assume_init is safe.
-                Ok(unsafe { out.assume_init() })
+                ::std::result::Result::Ok(unsafe { out.assume_init() })
             }
         }
     };
-- 
2.43.0


From 5cb5752bb6cb440f8663c07c7f9bdeb77bd74b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:57 +0000
Subject: [PATCH 20/24] fix: derives work within macros which take names as
 arguments

quote_spanned with the span of a field or variant also resolved the names of
the generated code (self, writer, element_i, ...) there, where they're unknown
if the name came from a different macro than the derive.
---
 static-xml-derive/src/common.rs      | 12 ++++++++--
 static-xml-derive/src/deserialize.rs | 34 ++++++++++++++++------------
 static-xml-derive/src/parse.rs       | 10 ++++----
 static-xml-derive/src/serialize.rs   | 18 ++++++++-------
 static-xml-derive/src/to_text.rs     | 14 ++++++------
 5 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/static-xml-derive/src/common.rs b/static-xml-derive/src/common.rs
index 49d520e..b68d5de 100644
--- a/static-xml-derive/src/common.rs
+++ b/static-xml-derive/src/common.rs
@@ -3,13 +3,21 @@
 
 use std::{cell::RefCell, collections::BTreeMap};
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{quote, quote_spanned, ToTokens};
 use static_xml::{de::WhiteSpace, ExpandedNameRef};
 use syn::{ext::IdentExt, DeriveInput, Fields, Lit, LitStr, Meta, MetaNameValue, NestedMeta};
 
 // See serde/serde_derive/src/internals/attr.rs and yaserde_derive/src/common/field.rs
 
+/// Returns a span for generated code which should be attributed to `span`.
+///
+/// Names still resolve as they do in the rest of the generated code. If `span` came from a
+/// different macro, they wouldn't otherwise: e.g. `self` would be unknown.
+pub(crate) fn located_at(span: Span) -> Span {
+    Span::call_site().located_at(span)
+}
+
 /// Accumulates compiler errors. Similar to `serde_derive`'s `Ctxt`.
 pub(crate) struct Errors(RefCell<Option<Vec<syn::Error>>>);
 
@@ -284,7 +292,7 @@ impl<'a> Name<'a> {
         let namespace = self.namespace.as_deref().unwrap_or("");
         let local_name = self.local_name.as_str();
         quote_spanned! {
-            self.ident.span() =>
+            located_at(self.ident.span()) =>
             ::static_xml::ExpandedNameRef {
                 local_name: #local_name,
                 namespace: #namespace,
diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 3cfe88c..a13b064 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -7,7 +7,9 @@ use proc_macro2::TokenStream;
 use quote::{format_ident, quote, quote_spanned};
 use syn::{spanned::Spanned, Data};
 
-use crate::common::{ElementEnum, ElementField, ElementFieldMode, ElementStruct, Errors};
+use crate::common::{
+    located_at, ElementEnum, ElementField, ElementFieldMode, ElementStruct, Errors,
+};
 
 pub(crate) fn quote_flatten_visitors(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_
@@ -16,7 +18,7 @@ pub(crate) fn quote_flatten_visitors(struct_: &ElementStruct) -> Vec<TokenStream
         .filter_map(|f| {
             if matches!(f.mode, ElementFieldMode::Flatten) {
                 let field_visitor = format_ident!("{}_visitor", f.ident);
-                Some(quote_spanned! { f.inner.ident.span() => self.#field_visitor.as_mut().unwrap() })
+                Some(quote_spanned! { located_at(f.inner.ident.span()) => self.#field_visitor.as_mut().unwrap() })
             } else {
                 None
             }
@@ -34,7 +36,7 @@ fn visitor_field_definitions(struct_: &ElementStruct) -> Vec<TokenStream> {
         .fields
         .iter()
         .filter_map(|field| {
-            let span = field.inner.span();
+            let span = located_at(field.inner.span());
             let field_present = format_ident!("{}_present", field.ident);
             let field_visitor = format_ident!("{}_visitor", field.ident);
             let ty = &field.inner.ty;
@@ -65,7 +67,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
         .fields
         .iter()
         .map(|field| {
-            let span = field.inner.span();
+            let span = located_at(field.inner.span());
             let field_present = format_ident!("{}_present", field.ident);
             match field.mode {
                 ElementFieldMode::Flatten => {
@@ -99,7 +101,7 @@ fn visitor_initializers(struct_: &ElementStruct) -> Vec<TokenStream> {
 
 fn finalize_visitor_fields(struct_: &ElementStruct) -> Vec<TokenStream> {
     struct_.fields.iter().map(|field| {
-        let span = field.inner.span();
+        let span = located_at(field.inner.span());
         let ty = &field.inner.ty;
         let field_present = format_ident!("{}_present", field.ident);
         let default = field.default.then(|| {
@@ -241,14 +243,16 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
         .map(|(i, &p)| {
             let field = &struct_.fields[p];
             let span = field.inner.span();
+            // These must resolve as in the surrounding function, whatever `span` resolves to.
+            let (this, child) = (quote! { self }, quote! { child });
             let field_present = format_ident!("{}_present", &field.ident);
             let field_mut = field_mut(field);
             quote_spanned! {span=>
-                ::std::option::Option::Some(#i) if self.#field_present => {
+                ::std::option::Option::Some(#i) if #this.#field_present => {
                     ::static_xml::de::DeserializeElementField::update(
                         // SAFETY: the field is initialized when field_present is true.
                         unsafe { &mut *#field_mut },
-                        child,
+                        #child,
                     )?;
                     ::std::result::Result::Ok(::std::option::Option::None)
                 }
@@ -256,9 +260,9 @@ fn element_match_branches(struct_: &ElementStruct) -> Vec<TokenStream> {
                     // SAFETY: #field_mut is a valid pointer to uninitialized memory.
                     ::std::ptr::write(
                         #field_mut,
-                        ::static_xml::de::DeserializeElementField::init(child)?,
+                        ::static_xml::de::DeserializeElementField::init(#child)?,
                     );
-                    self.#field_present = true;
+                    #this.#field_present = true;
                     ::std::result::Result::Ok(::std::option::Option::None)
                 }
             }
@@ -288,8 +292,10 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let flatten_visitors = quote_flatten_visitors(&struct_);
     let (attribute_fallthrough, element_fallthrough);
     if flatten_visitors.is_empty() {
-        attribute_fallthrough = quote! { ::std::result::Result::Ok(::std::option::Option::Some(value)) };
-        element_fallthrough = quote! { ::std::result::Result::Ok(::std::option::Option::Some(child)) };
+        attribute_fallthrough =
+            quote! { ::std::result::Result::Ok(::std::option::Option::Some(value)) };
+        element_fallthrough =
+            quote! { ::std::result::Result::Ok(::std::option::Option::Some(child)) };
     } else {
         attribute_fallthrough = quote! {
             ::static_xml::de::delegate_attribute(&mut [#(#flatten_visitors),*], name, value)
@@ -415,7 +421,7 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
         .enumerate()
         .map(|(i, v)| {
             let vident = v.ident;
-            let span = vident.span();
+            let span = located_at(vident.span());
 
             match v.ty {
                 None => {
@@ -452,12 +458,12 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
             match v.ty {
                 None => {
                     quote_spanned! {
-                        vident.span() => ::std::option::Option::Some(#i) => { #ident::#vident }
+                        located_at(vident.span()) => ::std::option::Option::Some(#i) => { #ident::#vident }
                     }
                 }
                 Some(_) => {
                     quote_spanned! {
-                        vident.span() => ::std::option::Option::Some(#i) => {
+                        located_at(vident.span()) => ::std::option::Option::Some(#i) => {
                             #ident::#vident(::static_xml::de::DeserializeElementField::init(child)?)
                         }
                     }
diff --git a/static-xml-derive/src/parse.rs b/static-xml-derive/src/parse.rs
index f7245f5..e720d94 100644
--- a/static-xml-derive/src/parse.rs
+++ b/static-xml-derive/src/parse.rs
@@ -9,8 +9,8 @@ use static_xml::de::WhiteSpace;
 use syn::Data;
 
 use crate::common::{
-    Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
-    UnionVariant,
+    located_at, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode,
+    TextVariantMode, UnionVariant,
 };
 
 fn do_enum(enum_: TextEnum) -> TokenStream {
@@ -37,7 +37,7 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
             let ident = &v.inner.ident;
             let ty = &v.ty;
             quote_spanned! {
-                ident.span() =>
+                located_at(ident.span()) =>
                 match <#ty as ::static_xml::de::ParseText>::parse(text.clone()) {
                     ::std::result::Result::Ok(r) => return ::std::result::Result::Ok(Self::#ident(r)),
                     ::std::result::Result::Err(e) => errors.push(e),
@@ -71,12 +71,12 @@ fn do_restriction(
                 TextVariantMode::Unknown => return None,
             };
             let ident = &v.inner.ident;
-            Some(quote_spanned! { ident.span() => #text => ::std::result::Result::Ok(Self::#ident) })
+            Some(quote_spanned! { located_at(ident.span()) => #text => ::std::result::Result::Ok(Self::#ident) })
         })
         .collect();
     let fallthrough = if let Some(i) = unknown_variant {
         let vident = &variants[i].inner.ident;
-        quote_spanned! { vident.span() => _ => ::std::result::Result::Ok(Self::#vident(text)) }
+        quote_spanned! { located_at(vident.span()) => _ => ::std::result::Result::Ok(Self::#vident(text)) }
     } else {
         quote! { t => ::std::result::Result::Err(::static_xml::de::no_such_variant(::std::stringify!(#ident), t)) }
     };
diff --git a/static-xml-derive/src/serialize.rs b/static-xml-derive/src/serialize.rs
index da99ff9..c8978d2 100644
--- a/static-xml-derive/src/serialize.rs
+++ b/static-xml-derive/src/serialize.rs
@@ -7,7 +7,9 @@ use proc_macro2::TokenStream;
 use quote::{quote, quote_spanned};
 use syn::{spanned::Spanned, Data};
 
-use crate::common::{ElementAttr, ElementEnum, ElementFieldMode, ElementStruct, Errors, Name};
+use crate::common::{
+    located_at, ElementAttr, ElementEnum, ElementFieldMode, ElementStruct, Errors, Name,
+};
 
 fn write_namespaces(attr: &ElementAttr) -> Vec<TokenStream> {
     attr.namespaces
@@ -30,7 +32,7 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
         let ident = &f.inner.ident;
         let name = f.name.quote_expanded();
         Some(quote_spanned! {
-            ident.span() =>
+            located_at(ident.span()) =>
             ::static_xml::ser::SerializeAttr::write(&self.#ident, &mut builder, #name)?;
         })
     });
@@ -40,7 +42,7 @@ fn write_struct_attributes(struct_: &ElementStruct) -> Vec<TokenStream> {
         }
         let ident = &f.inner.ident;
         Some(quote_spanned! {
-            ident.span() =>
+            located_at(ident.span()) =>
             ::static_xml::ser::Serialize::write_attributes(&self.#ident, builder)?;
         })
     });
@@ -54,12 +56,12 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
             ElementFieldMode::Element { .. } => {
                 let name = f.name.quote_expanded();
                 Some(quote_spanned! {
-                    ident.span() =>
+                    located_at(ident.span()) =>
                     ::static_xml::ser::SerializeField::write(&self.#ident, writer, #name)?;
                 })
             }
             ElementFieldMode::Text => Some(quote_spanned! {
-                ident.span() =>
+                located_at(ident.span()) =>
                 writer.text(&::static_xml::ser::ToText::to_text(&self.#ident)?)?;
             }),
             _ => None,
@@ -71,7 +73,7 @@ fn write_struct_elements(struct_: &ElementStruct) -> Vec<TokenStream> {
         }
         let ident = &f.inner.ident;
         Some(quote_spanned! {
-            ident.span() =>
+            located_at(ident.span()) =>
             ::static_xml::ser::Serialize::write_children(&self.#ident, writer)?;
         })
     });
@@ -121,13 +123,13 @@ fn do_enum(_errors: &Errors, enum_: &ElementEnum) -> TokenStream {
         match v.ty {
             None => {
                 quote_spanned! {
-                    vident.span() =>
+                    located_at(vident.span()) =>
                     Self::#vident => writer.element(#name).start()?.finish()?
                 }
             },
             Some(_) => {
                 quote_spanned! {
-                    vident.span() =>
+                    located_at(vident.span()) =>
                     Self::#vident(ref f) => ::static_xml::ser::SerializeField::write(f, writer, #name)?
                 }
             }
diff --git a/static-xml-derive/src/to_text.rs b/static-xml-derive/src/to_text.rs
index daabdc1..822bdae 100644
--- a/static-xml-derive/src/to_text.rs
+++ b/static-xml-derive/src/to_text.rs
@@ -6,8 +6,8 @@ use quote::{quote, quote_spanned};
 use syn::Data;
 
 use crate::common::{
-    Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode, TextVariantMode,
-    UnionVariant,
+    located_at, Errors, RestrictionVariant, TextAttr, TextEnum, TextEnumMode, TextMode,
+    TextVariantMode, UnionVariant,
 };
 
 fn do_enum(enum_: TextEnum) -> TokenStream {
@@ -22,12 +22,12 @@ fn do_union(enum_: &TextEnum, variants: &[UnionVariant]) -> TokenStream {
         .iter()
         .map(|v| {
             let vident = &v.inner.ident;
-            quote_spanned! { vident.span() => Self::#vident(ref f) => ::static_xml::ser::ToText::to_text(f) }
+            quote_spanned! { located_at(vident.span()) => Self::#vident(ref f) => ::static_xml::ser::ToText::to_text(f) }
         })
         .collect();
     let ident = &enum_.input.ident;
     quote_spanned! {
-        ident.span() =>
+        located_at(ident.span()) =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
                 match self {
@@ -45,17 +45,17 @@ fn do_restriction(enum_: &TextEnum, variants: &[RestrictionVariant]) -> TokenStr
             let vident = &v.inner.ident;
             match v.mode {
                 TextVariantMode::Known { ref text } => {
-                    quote_spanned! { vident.span() => Self::#vident => #text }
+                    quote_spanned! { located_at(vident.span()) => Self::#vident => #text }
                 },
                 TextVariantMode::Unknown => {
-                    quote_spanned! { vident.span() => Self::#vident(text) => ::std::convert::AsRef::<str>::as_ref(text) }
+                    quote_spanned! { located_at(vident.span()) => Self::#vident(text) => ::std::convert::AsRef::<str>::as_ref(text) }
                 },
             }
         })
         .collect();
     let ident = &enum_.input.ident;
     quote_spanned! {
-        ident.span() =>
+        located_at(ident.span()) =>
         impl ::static_xml::ser::ToText for #ident {
             fn to_text(&self) -> ::std::result::Result<::std::string::String, ::static_xml::ser::Error> {
                 ::std::result::Result::Ok(match self {
-- 
2.43.0


From c0d188080354e25112eb53a41a07bfb711d168fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 21/24] fix: derived visitors don't hide the user's types

A struct `Foo` with a field of a type named `FooVisitor` got the visitor generated
for it instead, which didn't compile.
---
 static-xml-derive/src/deserialize.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index a13b064..0cd495e 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -277,7 +277,8 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
     let element_match_branches = element_match_branches(&struct_);
 
     let ident = &struct_.input.ident;
-    let visitor_type = format_ident!("{}Visitor", &struct_.input.ident);
+    // This hides any type of the same name that the user's fields may mention, so use an unlikely one.
+    let visitor_type = format_ident!("__{}Visitor", &struct_.input.ident);
     // The visibilities must match; see the comment in `do_enum`.
     let vis = &struct_.input.vis;
     let visitor_field_definitions = visitor_field_definitions(&struct_);
@@ -409,7 +410,7 @@ fn do_struct(struct_: &ElementStruct) -> TokenStream {
 
 fn do_enum(enum_: &ElementEnum) -> TokenStream {
     let ident = &enum_.input.ident;
-    let visitor_type = format_ident!("{}Visitor", &enum_.input.ident);
+    let visitor_type = format_ident!("__{}Visitor", &enum_.input.ident);
     let elements: Vec<_> = enum_
         .variants
         .iter()
-- 
2.43.0


From 73db9ec29320b8e11fafaea5d611044f3e2d2e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 22/24] fix: deriving Deserialize for a packed struct is an
 error

The derived code wrote to its fields through misaligned pointers and passed
misaligned references to them, which is undefined behavior.
---
 static-xml-derive/src/deserialize.rs | 29 +++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/static-xml-derive/src/deserialize.rs b/static-xml-derive/src/deserialize.rs
index 0cd495e..3e54889 100644
--- a/static-xml-derive/src/deserialize.rs
+++ b/static-xml-derive/src/deserialize.rs
@@ -571,10 +571,37 @@ fn do_enum(enum_: &ElementEnum) -> TokenStream {
     }
 }
 
+/// Returns an error if the struct is packed: references to its fields may be misaligned, and
+/// `DeserializeElementField::update` takes one.
+fn check_not_packed(errors: &Errors, input: &syn::DeriveInput) -> Result<(), ()> {
+    for attr in &input.attrs {
+        if !attr.path.is_ident("repr") {
+            continue;
+        }
+        if let Ok(syn::Meta::List(list)) = attr.parse_meta() {
+            if list
+                .nested
+                .iter()
+                .any(|n| matches!(n, syn::NestedMeta::Meta(m) if m.path().is_ident("packed")))
+            {
+                errors.push(syn::Error::new_spanned(
+                    attr,
+                    "#[repr(packed)] is unsupported",
+                ));
+                return Err(());
+            }
+        }
+    }
+    Ok(())
+}
+
 pub(crate) fn derive(errors: &Errors, input: syn::DeriveInput) -> Result<TokenStream, ()> {
     match input.data {
         Data::Enum(ref data) => Ok(do_enum(&ElementEnum::new(&errors, &input, data))),
-        Data::Struct(ref data) => ElementStruct::new(&errors, &input, data).map(|s| do_struct(&s)),
+        Data::Struct(ref data) => {
+            check_not_packed(errors, &input)?;
+            ElementStruct::new(&errors, &input, data).map(|s| do_struct(&s))
+        }
         _ => {
             errors.push(syn::Error::new_spanned(
                 input.ident,
-- 
2.43.0


From 015164e460c3a2d38995f6bfb78aed7a994285ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:50 +0000
Subject: [PATCH 23/24] fix: serialization succeeded with an element forgotten
 or whose start panicked

---
 static-xml/src/ser/mod.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 0b17f2e..35b4b0a 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -67,6 +67,9 @@ struct WrappedWriter<W: std::io::Write> {
 
     /// When `Some`, all futures writes and the overall operation should fail with this error.
     poison: Option<Error>,
+
+    /// The number of elements begun (their `ElementBuilder` was constructed) but not finished.
+    unfinished: usize,
 }
 
 /// A type-erased version of [`WrappedWriter`], to avoid monomorphization bloat.
@@ -74,6 +77,9 @@ trait ErasedEventWriter {
     /// Writes the element, poisoning the writer on failure.
     fn write(&mut self, event: XmlEvent) -> Result<(), Error>;
 
+    /// Notes that an element has been begun; writing its `EndElement` finishes it.
+    fn begin(&mut self);
+
     /// Explicitly poison the writer.
     fn poison(&mut self, error: Error);
 }
@@ -83,14 +89,22 @@ impl<W: Write> ErasedEventWriter for WrappedWriter<W> {
         if let Some(ref poison) = self.poison {
             return Err(poison.clone());
         }
+        let finishes = matches!(event, XmlEvent::EndElement { .. });
         if let Err(e) = self.inner.write(event) {
             let wrapped = Error(e.to_string());
             self.poison = Some(wrapped.clone());
             return Err(wrapped);
         }
+        if finishes {
+            self.unfinished -= 1;
+        }
         Ok(())
     }
 
+    fn begin(&mut self) {
+        self.unfinished += 1;
+    }
+
     fn poison(&mut self, error: Error) {
         self.poison.get_or_insert(error);
     }
@@ -279,6 +293,7 @@ impl<'a> ElementWriter<'a> {
         'a: 'b,
     {
         let inner = self.0.as_mut().unwrap();
+        inner.writer.begin();
         ElementBuilder(Some(ElementBuilderInner {
             name,
             namespaces: inner.namespaces.child(name.namespace),
@@ -779,7 +794,7 @@ impl<'a> Serializer<'a> {
 
     /// Serializes to any `Write` impl.
     pub fn to<W: Write>(self, writer: W) -> Result<(), Error> {
-        let mut writer = WrappedWriter {
+        let mut events = WrappedWriter {
             inner: xml::writer::EventWriter::new_with_config(
                 writer,
                 xml::writer::EmitterConfig {
@@ -790,18 +805,30 @@ impl<'a> Serializer<'a> {
                 },
             ),
             poison: None,
+            unfinished: 0,
         };
+        events.begin();
         let mut builder = ElementBuilder(Some(ElementBuilderInner {
             name: self.name,
             namespaces: NamespacesBuilder::default(),
             attributes: Vec::default(),
             seen_attributes: HashMap::default(),
-            writer: &mut writer,
+            writer: &mut events,
         }));
         self.element.write_attributes(&mut builder)?;
         let mut writer = builder.start()?;
         self.element.write_children(&mut writer)?;
-        writer.finish()
+        writer.finish()?;
+
+        // Dropping an unfinished element poisons the writer, but it might not have been dropped, or
+        // `ElementBuilder::start` might have panicked.
+        if events.unfinished > 0 {
+            return Err(Error(format!(
+                "{} elements were not finished",
+                events.unfinished
+            )));
+        }
+        Ok(())
     }
 
     /// Serializes to a `String`.
-- 
2.43.0


From cddb73be67cbb20fdb6e79ec1083819d39fea601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 24/24] fix: serialization went on after the destination
 panicked

---
 static-xml/src/ser/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/static-xml/src/ser/mod.rs b/static-xml/src/ser/mod.rs
index 35b4b0a..045336b 100644
--- a/static-xml/src/ser/mod.rs
+++ b/static-xml/src/ser/mod.rs
@@ -68,6 +68,9 @@ struct WrappedWriter<W: std::io::Write> {
     /// When `Some`, all futures writes and the overall operation should fail with this error.
     poison: Option<Error>,
 
+    /// True during a write, and ever after one in which the destination panicked.
+    writing: bool,
+
     /// The number of elements begun (their `ElementBuilder` was constructed) but not finished.
     unfinished: usize,
 }
@@ -89,8 +92,14 @@ impl<W: Write> ErasedEventWriter for WrappedWriter<W> {
         if let Some(ref poison) = self.poison {
             return Err(poison.clone());
         }
+        if self.writing {
+            return Err(Error("an earlier write panicked".to_owned()));
+        }
         let finishes = matches!(event, XmlEvent::EndElement { .. });
-        if let Err(e) = self.inner.write(event) {
+        self.writing = true;
+        let result = self.inner.write(event);
+        self.writing = false;
+        if let Err(e) = result {
             let wrapped = Error(e.to_string());
             self.poison = Some(wrapped.clone());
             return Err(wrapped);
@@ -805,6 +814,7 @@ impl<'a> Serializer<'a> {
                 },
             ),
             poison: None,
+            writing: false,
             unfinished: 0,
         };
         events.begin();
-- 
2.43.0


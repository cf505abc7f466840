//! An XML infoset, an independent strict XML 1.0 + Namespaces 1.0 parser (the oracle for output), and
//! printing helpers.

use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct QN {
    pub ns: String,
    pub local: String,
}
pub fn qn(ns: &str, local: &str) -> QN {
    QN {
        ns: ns.to_owned(),
        local: local.to_owned(),
    }
}
impl std::fmt::Display for QN {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if self.ns.is_empty() {
            write!(f, "{}", self.local)
        } else {
            write!(f, "{{{}}}{}", self.ns, self.local)
        }
    }
}

/// An element of the infoset: adjacent text is merged, empty text is absent.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct El {
    pub name: QN,
    pub attrs: Vec<(QN, String)>,
    pub kids: Vec<Node>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Node {
    El(El),
    Text(String),
}

impl El {
    pub fn new(name: QN) -> El {
        El {
            name,
            attrs: vec![],
            kids: vec![],
        }
    }
    pub fn push_text(&mut self, t: &str) {
        if t.is_empty() {
            return;
        }
        if let Some(Node::Text(s)) = self.kids.last_mut() {
            s.push_str(t);
        } else {
            self.kids.push(Node::Text(t.to_owned()));
        }
    }
    /// Drops white-space-only text between elements (for elements that have child elements).
    pub fn strip_indent(&mut self) {
        let has_el = self.kids.iter().any(|k| matches!(k, Node::El(_)));
        if has_el {
            self.kids
                .retain(|k| !matches!(k, Node::Text(t) if t.chars().all(|c| " \t\r\n".contains(c))));
        }
        for k in &mut self.kids {
            if let Node::El(e) = k {
                e.strip_indent();
            }
        }
    }
    pub fn text(&self) -> String {
        self.kids
            .iter()
            .filter_map(|k| match k {
                Node::Text(t) => Some(t.as_str()),
                _ => None,
            })
            .collect()
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| match k {
            Node::El(e) => Some(e),
            _ => None,
        })
    }
}
impl std::fmt::Display for El {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}", self.name)?;
        for (n, v) in &self.attrs {
            write!(f, " {}={:?}", n, v)?;
        }
        write!(f, ">")?;
        for k in &self.kids {
            match k {
                Node::El(e) => write!(f, "{e}")?,
                Node::Text(t) => write!(f, "{t:?}")?,
            }
        }
        write!(f, "</>")
    }
}

pub const XML_NS: &str = "http://www.w3.org/XML/1998/namespace";
pub const XMLNS_NS: &str = "http://www.w3.org/2000/xmlns/";

pub fn is_xml_char(c: char) -> bool {
    matches!(c as u32, 0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}
fn name_start(c: char) -> bool {
    matches!(c as u32, 0x41..=0x5A | 0x5F | 0x61..=0x7A | 0xC0..=0xD6 | 0xD8..=0xF6 | 0xF8..=0x2FF | 0x370..=0x37D
        | 0x37F..=0x1FFF | 0x200C..=0x200D | 0x2070..=0x218F | 0x2C00..=0x2FEF | 0x3001..=0xD7FF | 0xF900..=0xFDCF
        | 0xFDF0..=0xFFFD | 0x10000..=0xEFFFF)
}
fn name_char(c: char) -> bool {
    name_start(c) || matches!(c as u32, 0x2D | 0x2E | 0x30..=0x39 | 0xB7 | 0x300..=0x36F | 0x203F..=0x2040)
}
fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\n' | '\r')
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Doc {
    pub root: El,
    pub has_decl: bool,
    /// Number of prefix declarations seen per element, in document order (for diagnostics).
    pub decls: usize,
    /// Text outside the root other than the declaration.
    pub outside: String,
}

struct P {
    s: Vec<char>,
    i: usize,
    decls: usize,
}
type PR<T> = Result<T, String>;

/// Parses a complete document, rejecting anything XML 1.0 (without DTDs) or Namespaces 1.0 forbids.
pub fn parse(s: &str) -> PR<Doc> {
    // Line-end normalization (XML 1.0 section 2.11).
    let mut v = Vec::with_capacity(s.len());
    let mut it = s.chars().peekable();
    if it.peek() == Some(&'\u{feff}') {
        it.next();
    }
    while let Some(c) = it.next() {
        if !is_xml_char(c) {
            return Err(format!("character U+{:04X} not allowed", c as u32));
        }
        if c == '\r' {
            if it.peek() == Some(&'\n') {
                it.next();
            }
            v.push('\n');
        } else {
            v.push(c);
        }
    }
    let mut p = P { s: v, i: 0, decls: 0 };
    let mut outside = String::new();
    let has_decl = p.starts("<?xml") && p.s.get(5).map_or(false, |c| is_ws(*c));
    if has_decl {
        p.decl()?;
    }
    p.misc(&mut outside)?;
    if p.starts("<!DOCTYPE") {
        p.doctype()?;
        p.misc(&mut outside)?;
    }
    if !p.starts("<") {
        return Err("no root element".into());
    }
    let mut scope = BTreeMap::new();
    scope.insert("xml".to_owned(), XML_NS.to_owned());
    let root = p.element(&scope)?;
    p.misc(&mut outside)?;
    if p.i != p.s.len() {
        return Err(format!("content after root at {}", p.i));
    }
    Ok(Doc {
        root,
        has_decl,
        decls: p.decls,
        outside,
    })
}

struct Frame {
    el: El,
    raw: String,
    scope: BTreeMap<String, String>,
}

impl P {
    fn starts(&self, t: &str) -> bool {
        let mut i = self.i;
        for c in t.chars() {
            if self.s.get(i) != Some(&c) {
                return false;
            }
            i += 1;
        }
        true
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn ws(&mut self) -> usize {
        let a = self.i;
        while self.peek().map_or(false, is_ws) {
            self.i += 1;
        }
        self.i - a
    }
    fn expect(&mut self, t: &str) -> PR<()> {
        if self.starts(t) {
            self.i += t.chars().count();
            Ok(())
        } else {
            let around: String = self.s[self.i..].iter().take(20).collect();
            Err(format!("expected {t:?} at {:?}", around))
        }
    }
    fn until(&mut self, t: &str) -> PR<String> {
        let a = self.i;
        while self.i < self.s.len() {
            if self.starts(t) {
                let r = self.s[a..self.i].iter().collect();
                self.i += t.chars().count();
                return Ok(r);
            }
            self.i += 1;
        }
        Err(format!("missing {t:?}"))
    }
    fn name(&mut self) -> PR<String> {
        let a = self.i;
        match self.peek() {
            Some(c) if name_start(c) || c == ':' => self.i += 1,
            c => return Err(format!("bad name start {c:?}")),
        }
        while self.peek().map_or(false, |c| name_char(c) || c == ':') {
            self.i += 1;
        }
        Ok(self.s[a..self.i].iter().collect())
    }
    fn decl(&mut self) -> PR<()> {
        self.expect("<?xml")?;
        let body = self.until("?>")?;
        let b = body.trim();
        if !b.starts_with("version=\"1.0\"") && !b.starts_with("version='1.0'") && !b.starts_with("version=\"1.1\"") {
            return Err(format!("bad declaration {body:?}"));
        }
        let rest = b[13..].trim();
        let ok = rest.is_empty()
            || ["encoding=\"utf-8\"", "encoding=\"UTF-8\"", "encoding='utf-8'"].contains(&rest);
        if !ok {
            return Err(format!("bad declaration {body:?}"));
        }
        Ok(())
    }
    fn comment(&mut self) -> PR<()> {
        self.expect("<!--")?;
        let b = self.until("--")?;
        let _ = b;
        self.expect(">")
    }
    fn pi(&mut self) -> PR<()> {
        self.expect("<?")?;
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            return Err("reserved PI target".into());
        }
        if n.contains(':') {
            return Err("colon in PI target".into());
        }
        if self.starts("?>") {
            return self.expect("?>");
        }
        if self.ws() == 0 {
            return Err("space required in PI".into());
        }
        self.until("?>").map(|_| ())
    }
    /// A document type declaration with an empty internal subset, or none.
    fn doctype(&mut self) -> PR<()> {
        self.expect("<!DOCTYPE")?;
        if self.ws() == 0 {
            return Err("space required after DOCTYPE".into());
        }
        let n = self.name()?;
        if n.starts_with(':') || n.ends_with(':') || n.matches(':').count() > 1 {
            return Err("bad name in DOCTYPE".into());
        }
        let mut sp = self.ws() > 0;
        if self.starts("SYSTEM") || self.starts("PUBLIC") {
            if !sp {
                return Err("space required before external identifier".into());
            }
            let public = self.starts("PUBLIC");
            self.expect(if public { "PUBLIC" } else { "SYSTEM" })?;
            if self.ws() == 0 {
                return Err("space required in external identifier".into());
            }
            let lit = self.literal()?;
            if public {
                if !lit.chars().all(|c| c == ' ' || c == '\n' || c.is_ascii_alphanumeric() || "-'()+,./:=?;!*#@$_%".contains(c)) {
                    return Err("bad public identifier".into());
                }
                if self.ws() == 0 {
                    return Err("space required in external identifier".into());
                }
                self.literal()?;
            }
            sp = self.ws() > 0;
        }
        let _ = sp;
        if self.starts("[") {
            self.expect("[")?;
            self.ws();
            self.expect("]")?;
            self.ws();
        }
        self.expect(">")
    }
    fn literal(&mut self) -> PR<String> {
        let q = if self.starts("'") { "'" } else { "\"" };
        self.expect(q)?;
        self.until(q)
    }
    fn misc(&mut self, outside: &mut String) -> PR<()> {
        loop {
            let a = self.i;
            self.ws();
            if self.starts("<!--") {
                self.comment()?;
            } else if self.starts("<?") {
                self.pi()?;
            } else {
                outside.extend(self.s[a..self.i].iter());
                return Ok(());
            }
            outside.extend(self.s[a..self.i].iter());
        }
    }
    fn reference(&mut self) -> PR<char> {
        self.expect("&")?;
        let b = self.until(";")?;
        Ok(match b.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = b.strip_prefix("#x") {
                    if h.is_empty() || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                        return Err(format!("bad reference {b:?}"));
                    }
                    u32::from_str_radix(h, 16).map_err(|e| e.to_string())?
                } else if let Some(d) = b.strip_prefix('#') {
                    if d.is_empty() || !d.chars().all(|c| c.is_ascii_digit()) {
                        return Err(format!("bad reference {b:?}"));
                    }
                    d.parse().map_err(|_| "bad reference".to_owned())?
                } else {
                    return Err(format!("undefined entity {b:?}"));
                };
                match char::from_u32(n) {
                    Some(c) if is_xml_char(c) => c,
                    _ => return Err(format!("reference to illegal character {n}")),
                }
            }
        })
    }
    fn attr_value(&mut self) -> PR<String> {
        let q = match self.peek() {
            Some(c @ ('"' | '\'')) => c,
            c => return Err(format!("expected quote, got {c:?}")),
        };
        self.i += 1;
        let mut out = String::new();
        loop {
            match self.peek() {
                None => return Err("unterminated attribute".into()),
                Some(c) if c == q => {
                    self.i += 1;
                    return Ok(out);
                }
                Some('<') => return Err("< in attribute value".into()),
                Some('&') => out.push(self.reference()?),
                Some(c) if is_ws(c) => {
                    out.push(' ');
                    self.i += 1;
                }
                Some(c) => {
                    out.push(c);
                    self.i += 1;
                }
            }
        }
    }
    fn split(n: &str) -> PR<(&str, &str)> {
        match n.find(':') {
            None => Ok(("", n)),
            Some(i) => {
                let (p, l) = (&n[..i], &n[i + 1..]);
                if p.is_empty() || l.is_empty() || l.contains(':') || !l.chars().next().map_or(false, name_start) {
                    return Err(format!("bad QName {n:?}"));
                }
                Ok((p, l))
            }
        }
    }
    /// Start tag at `<`; returns the frame and whether it was an empty-element tag.
    fn start_tag(&mut self, outer: &BTreeMap<String, String>) -> PR<(Frame, bool)> {
        self.expect("<")?;
        let raw = self.name()?;
        let mut attrs: Vec<(String, String)> = vec![];
        let empty;
        loop {
            let w = self.ws();
            if self.starts("/>") {
                self.i += 2;
                empty = true;
                break;
            }
            if self.starts(">") {
                self.i += 1;
                empty = false;
                break;
            }
            if w == 0 {
                return Err("white space required before attribute".into());
            }
            let n = self.name()?;
            self.ws();
            self.expect("=")?;
            self.ws();
            let v = self.attr_value()?;
            if attrs.iter().any(|(m, _)| *m == n) {
                return Err(format!("duplicate attribute {n}"));
            }
            attrs.push((n, v));
        }
        let mut scope = outer.clone();
        for (n, v) in &attrs {
            let p = if n == "xmlns" {
                ""
            } else if let Some(p) = n.strip_prefix("xmlns:") {
                if v.is_empty() {
                    return Err(format!("cannot undeclare prefix {p}"));
                }
                if p.contains(':') || !p.chars().next().map_or(false, name_start) {
                    return Err(format!("bad prefix {p:?}"));
                }
                p
            } else {
                continue;
            };
            self.decls += 1;
            if p == "xmlns" || v == XMLNS_NS || (p == "xml") != (v == XML_NS) {
                return Err(format!("reserved prefix or namespace {p}={v}"));
            }
            if v.is_empty() {
                scope.remove("");
            } else {
                scope.insert(p.to_owned(), v.clone());
            }
        }
        let (p, l) = Self::split(&raw)?;
        let ns = match scope.get(p) {
            Some(u) => u.clone(),
            None if p.is_empty() => String::new(),
            None => return Err(format!("undeclared prefix {p:?}")),
        };
        let mut el = El::new(qn(&ns, l));
        let mut seen = BTreeSet::new();
        for (n, v) in attrs {
            if n == "xmlns" || n.starts_with("xmlns:") {
                continue;
            }
            let (p, l) = Self::split(&n)?;
            let ns = if p.is_empty() {
                String::new()
            } else {
                scope.get(p).cloned().ok_or_else(|| format!("undeclared prefix {p:?}"))?
            };
            let name = qn(&ns, l);
            if !seen.insert(name.clone()) {
                return Err(format!("duplicate attribute {name}"));
            }
            el.attrs.push((name, v));
        }
        Ok((Frame { el, raw, scope }, empty))
    }
    fn element(&mut self, scope: &BTreeMap<String, String>) -> PR<El> {
        let (f, empty) = self.start_tag(scope)?;
        if empty {
            return Ok(f.el);
        }
        let mut stack = vec![f];
        loop {
            let Some(c) = self.peek() else {
                return Err("unexpected end inside element".into());
            };
            if self.starts("</") {
                self.i += 2;
                let n = self.name()?;
                self.ws();
                self.expect(">")?;
                let f = stack.pop().unwrap();
                if f.raw != n {
                    return Err(format!("end tag {n} does not match {}", f.raw));
                }
                match stack.last_mut() {
                    None => return Ok(f.el),
                    Some(p) => p.el.kids.push(Node::El(f.el)),
                }
            } else if self.starts("<!--") {
                self.comment()?;
            } else if self.starts("<![CDATA[") {
                self.i += 9;
                let t = self.until("]]>")?;
                stack.last_mut().unwrap().el.push_text(&t);
            } else if self.starts("<?") {
                self.pi()?;
            } else if c == '<' {
                let (f, empty) = {
                    let sc = stack.last().unwrap().scope.clone();
                    self.start_tag(&sc)?
                };
                if empty {
                    stack.last_mut().unwrap().el.kids.push(Node::El(f.el));
                } else {
                    stack.push(f);
                }
            } else if c == '&' {
                let r = self.reference()?;
                stack.last_mut().unwrap().el.push_text(r.encode_utf8(&mut [0; 4]));
            } else {
                let a = self.i;
                while let Some(c) = self.peek() {
                    if c == '<' || c == '&' {
                        break;
                    }
                    if self.starts("]]>") {
                        return Err("]]> in character data".into());
                    }
                    self.i += 1;
                }
                let t: String = self.s[a..self.i].iter().collect();
                stack.last_mut().unwrap().el.push_text(&t);
            }
        }
    }
}

pub fn esc_text(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '\r' => o.push_str("&#13;"),
            c => o.push(c),
        }
    }
    o
}
pub fn esc_attr(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' => o.push_str("&quot;"),
            '\'' => o.push_str("&apos;"),
            '\r' => o.push_str("&#13;"),
            '\n' => o.push_str("&#10;"),
            '\t' => o.push_str("&#9;"),
            c => o.push(c),
        }
    }
    o
}

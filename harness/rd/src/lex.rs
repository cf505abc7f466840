//! Lexical level: malformed and oddly spelled documents, sources that end early, fail or fragment.

use crate::sync::{check_display, ladder_sizes};
use engine::xmlt::{self, qn, El, Node, QN};
use engine::*;
use static_xml::de::*;
use static_xml::{ExpandedNameRef, TextPosition};
use std::io::Read;
use xml::reader::{EventReader, XmlEvent};

// ---------------------------------------------------------------- target types

#[derive(Debug, PartialEq, Clone)]
pub struct All(pub El);
struct AllVis(El);
fn qname(e: &ExpandedNameRef<'_>) -> QN {
    qn(e.namespace, e.local_name)
}
impl ElementVisitor for AllVis {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        self.0.attrs.push((qname(name), value));
        Ok(None)
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let c = All::deserialize(child)?;
        self.0.kids.push(Node::El(c.0));
        Ok(None)
    }
    fn characters(&mut self, s: String, _pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        self.0.push_text(&s);
        Ok(None)
    }
}
impl Deserialize for All {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = AllVis(El::new(qname(&element.expanded_name())));
        element.read_to(&mut v)?;
        Ok(All(v.0))
    }
}
/// Looks at nothing.
#[derive(Debug, PartialEq, Clone)]
pub struct Skip;
impl Deserialize for Skip {
    fn deserialize(_: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(Skip)
    }
}
/// Reads the root with a visitor that declares nothing.
#[derive(Debug, PartialEq, Clone)]
pub struct Shallow;
impl ElementVisitor for Shallow {}
impl Deserialize for Shallow {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut s = Shallow;
        e.read_to(&mut s)?;
        Ok(s)
    }
}
/// Reads everything and discards every error from below.
#[derive(Debug, PartialEq, Clone)]
pub struct Swallow;
impl ElementVisitor for Swallow {
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let _ = c.read_to(&mut Swallow);
        Ok(None)
    }
}
impl Deserialize for Swallow {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let _ = e.read_to(&mut Swallow);
        Ok(Swallow)
    }
}

// ---------------------------------------------------------------- the underlying parser as an oracle

struct Raw {
    /// one well-formed (as far as the parser goes) document with one root element
    accept: bool,
    root: Option<El>,
    /// what failed: message, position, open elements
    err: Option<(String, TextPosition, Vec<(String, TextPosition)>)>,
    /// the parser's error itself
    cause: Option<xml::reader::Error>,
    els: usize,
    /// content outside the root which the parser reported rather than refused
    odd: bool,
}
fn raw<S: Read>(source: S) -> Raw {
    use xml::common::Position;
    let mut r = EventReader::new(source);
    let mut stack: Vec<El> = vec![];
    let mut names: Vec<(String, TextPosition)> = vec![];
    let mut out = Raw {
        accept: false,
        root: None,
        err: None,
        cause: None,
        els: 0,
        odd: false,
    };
    let mut roots = 0;
    let nm = |n: &xml::name::OwnedName| {
        let ns = match (&n.namespace, &n.prefix) {
            (Some(u), _) => u.clone(),
            (None, Some(p)) if p == "xml" => xmlt::XML_NS.to_owned(),
            _ => String::new(),
        };
        QN {
            ns,
            local: n.local_name.clone(),
        }
    };
    loop {
        match r.next() {
            Ok(XmlEvent::StartElement { name, attributes, .. }) => {
                out.els += 1;
                let mut e = El::new(nm(&name));
                for a in attributes {
                    e.attrs.push((nm(&a.name), a.value));
                }
                if stack.is_empty() {
                    roots += 1;
                    out.odd |= roots > 1;
                }
                stack.push(e);
                names.push((name.borrow().repr_display().to_string(), r.position()));
            }
            Ok(XmlEvent::EndElement { .. }) => {
                names.pop();
                let e = stack.pop().expect("engine: raw stack");
                match stack.last_mut() {
                    Some(p) => p.kids.push(Node::El(e)),
                    None => out.root = Some(e),
                }
            }
            Ok(XmlEvent::Characters(t)) | Ok(XmlEvent::CData(t)) | Ok(XmlEvent::Whitespace(t)) => {
                if let Some(e) = stack.last_mut() {
                    e.push_text(&t);
                } else {
                    out.odd = true;
                }
            }
            Ok(XmlEvent::EndDocument) => {
                out.accept = roots == 1;
                return out;
            }
            Ok(_) => {}
            Err(e) => {
                out.err = Some((e.msg().to_owned(), e.position(), names));
                out.cause = Some(e);
                return out;
            }
        }
    }
}

/// The parser's error, or what it wraps, is reachable from `e` through `source()`.
fn reaches(e: &Error, cause: &xml::reader::Error) -> bool {
    use xml::reader::ErrorKind as K;
    let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(e);
    while let Some(c) = cur {
        if let Some(x) = c.downcast_ref::<xml::reader::Error>() {
            if x.msg() == cause.msg() {
                return true;
            }
        }
        match cause.kind() {
            K::Io(want) => {
                if let Some(x) = c.downcast_ref::<std::io::Error>() {
                    if x.kind() == want.kind() && x.to_string() == want.to_string() {
                        return true;
                    }
                }
            }
            K::Utf8(want) => {
                if c.downcast_ref::<std::str::Utf8Error>() == Some(want) {
                    return true;
                }
            }
            _ => {}
        }
        cur = c.source();
    }
    false
}

fn same(a: &El, b: &El) -> bool {
    a == b
}

/// Checks every target type on one document against the underlying parser and the strict one.
fn judge(ctx: &mut Ctx, doc: &[u8], errors: bool, strict: bool) -> R {
    ctx.describe(|| format!("document: {:?}", String::from_utf8_lossy(doc)));
    ctx.state(doc);
    let raw = match no_panic(|| raw(doc)) {
        Ok(r) => r,
        Err(p) => {
            // The parser itself panics: the guarantee cannot hold; report it as such.
            return Err(Fail {
                key: format!("xml-rs-panic:{}", String::from_utf8_lossy(doc)),
                what: format!("parser dependency panics: {p}"),
            });
        }
    };
    let st = if strict {
        std::str::from_utf8(doc).ok().and_then(|s| xmlt::parse(s).ok())
    } else {
        None
    };
    let must = raw.accept && st.is_some();
    ctx.outcome(match (raw.accept, st.is_some()) {
        (true, true) => "well-formed",
        (true, false) => "parser-lenient",
        (false, true) => "parser-strict",
        (false, false) => "malformed",
    });
    ctx.compared += 5;
    let check_err = |e: &Error, what: &str| -> R {
        if let Err(m) = check_display(e) {
            fail!("{what}: {m}");
        }
        if !errors || raw.odd {
            return Ok(());
        }
        let Some((msg, pos, open)) = &raw.err else {
            return Ok(());
        };
        let got: Vec<(String, TextPosition)> = e
            .stack()
            .iter()
            .map(|s| (s.name.borrow().repr_display().to_string(), s.pos))
            .collect();
        ensure!(
            got == *open,
            "{what}: stack {:?}, elements open at the failure {:?}",
            got,
            open
        );
        let want = format!("{msg} @ {pos}");
        let d = e.to_string();
        ensure!(
            d == want || d.starts_with(&format!("{want}\n\n")),
            "{what}: displayed {d:?}, expected to start with {want:?}"
        );
        ensure!(
            reaches(e, raw.cause.as_ref().unwrap()),
            "{what}: the parser's error {:?} is not reachable through source()",
            raw.cause
        );
        Ok(())
    };
    macro_rules! go {
        ($t:ty) => {
            match no_panic(|| read::<_, $t>(doc)) {
                Ok(r) => r,
                Err(p) => fail!("{}: {p}", stringify!($t)),
            }
        };
    }
    // Everything.
    match go!(All) {
        Ok(All(e)) => {
            ensure!(raw.accept, "All: accepted {e}, but the document is malformed");
            ensure!(
                same(&e, raw.root.as_ref().unwrap()),
                "All: read {e}, parser saw {}",
                raw.root.as_ref().unwrap()
            );
            if let Some(d) = &st {
                if same(&d.root, raw.root.as_ref().unwrap()) {
                    ensure!(same(&e, &d.root), "All: read {e}, document is {}", d.root);
                }
            }
        }
        Err(e) => {
            ensure!(!must, "All: refused a well-formed document: {e}");
            check_err(&e, "All")?;
        }
    }
    match go!(Skip) {
        Ok(_) => ensure!(raw.accept, "Skip: accepted a malformed document"),
        Err(e) => {
            ensure!(!must, "Skip: refused a well-formed document: {e}");
            check_err(&e, "Skip")?;
        }
    }
    match go!(Shallow) {
        Ok(_) => ensure!(raw.accept, "Shallow: accepted a malformed document"),
        Err(e) => {
            ensure!(!must, "Shallow: refused a well-formed document: {e}");
            check_err(&e, "Shallow")?;
        }
    }
    match go!(Swallow) {
        Ok(_) => ensure!(raw.accept, "Swallow: accepted a malformed document"),
        Err(e) => {
            ensure!(!must, "Swallow: refused a well-formed document: {e}");
            if let Err(m) = check_display(&e) {
                fail!("Swallow: {m}");
            }
        }
    }
    match go!(String) {
        Ok(s) => {
            ensure!(raw.accept, "String: accepted {s:?} from a malformed document");
            let r = raw.root.as_ref().unwrap();
            ensure!(r.els().next().is_none(), "String: accepted {s:?} although there is a child element");
            ensure!(s == r.text(), "String: read {s:?}, text is {:?}", r.text());
        }
        Err(e) => {
            let fits = raw.root.as_ref().map_or(false, |r| r.els().next().is_none());
            ensure!(!(must && fits), "String: refused {e}");
            if raw.els <= 1 {
                check_err(&e, "String")?;
            } else if let Err(m) = check_display(&e) {
                fail!("String: {m}");
            }
        }
    }
    Ok(())
}

const TOKENS: [&str; 22] = [
    "\n", "<!DOCTYPE a>",
    "<a>", "</a>", "<b x=\"1\">", "</b>", "<a/>", "t", " ", "&amp;", "&bad;", "<!--c-->", "<![CDATA[<]]>", "<?p q?>",
    "<?xml version=\"1.0\"?>", "<", "&", "<a x=\"1\" x=\"2\">", "<p:a>", "</p:a>", "<a xmlns:p='u'>", "]]>",
];
fn tokens(ctx: &mut Ctx, max: usize, errors: bool) -> R {
    let n = ctx.range(0, max);
    let mut d = String::new();
    for _ in 0..n {
        let piece: &str = *ctx.pick(&TOKENS);
        d.push_str(piece);
    }
    judge(ctx, d.as_bytes(), errors, true)
}

/// Something after (or before) a complete root.
const MISC: [&str; 16] = [
    " ", "\n", "<!DOCTYPE r>", "<!DOCTYPE r SYSTEM 'u:d' [ ]>", "<!DOCTYPE", "<!--c-->", "<!--", "<?p q?>", "<?", "t", "<a/>", "</a>", "&amp;", "<![CDATA[x]]>", "<", "<?xml version=\"1.0\"?>",
];
fn epilogue(ctx: &mut Ctx, max: usize, errors: bool) -> R {
    let mut d = String::new();
    for _ in 0..ctx.range(0, 2) {
        let piece: &str = *ctx.pick(&MISC[..11]);
        d.push_str(piece);
    }
    let piece: &str = *ctx.pick(&["<r/>", "<r>t</r>", "<r><a/></r>", "<r><a>x</a> <b/></r>"]);
        d.push_str(piece);
    for _ in 0..ctx.range(0, max) {
        let piece: &str = *ctx.pick(&MISC);
        d.push_str(piece);
    }
    judge(ctx, d.as_bytes(), errors, true)
}

const BYTES: [u8; 20] = [
    b'<', b'>', b'/', b'a', b'=', b'"', b' ', b'&', b';', b'#', b'!', b'-', b'[', b']', b'?', b':', 0xC3, 0xA9, 0xFF, 0,
];
fn byte_strings(ctx: &mut Ctx, max: usize, errors: bool) -> R {
    let (pre, post): (&[u8], &[u8]) = *ctx.pick(&[
        (&b""[..], &b""[..]),
        (b"<a>", b"</a>"),
        (b"<a b=\"", b"\"/>"),
        (b"<a ", b"/>"),
        (b"<a/>", b""),
        (b"<a><", b"/></a>"),
        (b"<a><b/>", b"<c/></a>"),
    ]);
    let n = ctx.range(0, max);
    let mut d = pre.to_vec();
    for _ in 0..n {
        d.push(*ctx.pick(&BYTES));
    }
    d.extend_from_slice(post);
    judge(ctx, &d, errors, true)
}

/// References to characters and entities, legal and not, wherever one can stand.
const REFS: [&str; 30] = [
    "#xD800", "#xDBFF", "#xDC00", "#xDFFF", "#xD7FF", "#xE000", "#xFFFD", "#xFFFE", "#xFFFF", "#x10FFFF", "#x110000",
    "#xFFFFFFFF", "#x100000041", "#0", "#x0", "#1", "#8", "#9", "#10", "#13", "#31", "#32", "#55296", "#57343", "#57344",
    "#1114111", "#1114112", "#4294967361", "nbsp", "QUOT",
];
/// Names which other vocabularies define, and ones close to those XML does.
const NAMED: &str = "AElig AMP APOS Aacute Acirc Agrave Alpha Amp Apos Aring Atilde Auml Beta Ccedil Chi Dagger Delta ETH Eacute \
    Ecirc Egrave Epsilon Eta Euml GT Gamma Hat Iacute Icirc Igrave Iota Iuml Kappa LT Lambda Lt Mu NBSP NewLine \
    Ntilde Nu OElig Oacute Ocirc Ograve Omega Omicron Oslash Otilde Ouml Phi Pi Prime Psi QUOT Quot Rho Scaron \
    Sigma THORN Tab Tau Theta Uacute Ucirc Ugrave Upsilon Uuml Xi Yacute Yuml Zeta a aacute acirc acute aelig \
    agrave alefsym alpha amp.amp and ang aring asymp atilde auml b:lt bdquo beta brvbar bsol bull cap ccedil cedil \
    cent chi circ clubs colon comma commat cong copy cr crarr cup curren dArr dagger darr deg delta diams divide \
    dollar eacute ecirc egrave empty emsp ensp epsilon equals equiv eta eth euml euro excl exist fnof forall \
    frac12 frac14 frac34 frasl gamma ge grave hArr harr hearts hellip iacute icirc iexcl igrave image infin int \
    iota iquest isin iuml kappa l lArr lambda lang laquo larr lbrace lceil ldquo le lfloor lowast lowbar loz lpar \
    lrm lsaquo lsqb lsquo lt2 lt:b ltt macr mdash micro middot minus mu nabla nbsp ndash ne ni nl not notin nsub \
    ntilde nu num oacute ocirc oelig ograve oline omega omicron oplus or ordf ordm oslash otilde otimes ouml para \
    part period permil perp phi pi piv plusmn pound prime prod prop psi quest rArr radic rang raquo rarr rbrace \
    rceil rdquo real reg rfloor rho rlm rsaquo rsqb rsquo sbquo scaron sdot sect semi shy sigma sigmaf sim sol \
    space spades sub sube sum sup sup1 sup2 sup3 supe szlig tab tau there4 theta thetasym thinsp thorn tilde times \
    trade uArr uacute uarr ucirc ugrave uml upsih upsilon uuml verbar weierp xi xml yacute yen yuml zeta zwj zwnj";
fn references(ctx: &mut Ctx, max: usize, errors: bool) -> R {
    let (pre, post) = *ctx.pick(&[
        ("<a>", "</a>"),
        ("<a b=\"", "\"/>"),
        ("<a>t", "u<b/></a>"),
        ("<a><b c='", "'/></a>"),
        ("<a><b>", "</b> </a>"),
        ("<a xmlns:p=\"", "\"/>"),
        ("<a/>", ""),
    ]);
    let mut body = String::new();
    match ctx.choose(3) {
        0 => body.push_str(*ctx.pick(&REFS)),
        1 => body.push_str(NAMED.split(' ').nth(ctx.choose(NAMED.split(' ').count())).unwrap()),
        _ => {
        for _ in 0..ctx.range(0, max) {
            body.push(*ctx.pick(&['#', 'x', 'X', '0', '9', 'D', 'f', 'l', 't', '-', ' ', '\u{e9}']));
        }
        }
    }
    let d = format!("{pre}&{body};{post}");
    judge(ctx, d.as_bytes(), errors, true)
}

/// Sizes of everything a document can have many of, well-formed and broken at the end.
fn wf_ladder(ctx: &mut Ctx, errors: bool) -> R {
    let kind = ctx.choose(9);
    let n = *ctx.pick(&ladder_sizes(2100));
    wf_many(ctx, errors, kind, n)
}
/// The same next to powers of two (without depth, which takes stack, and attributes, which take quadratic time).
fn wf_big(ctx: &mut Ctx, errors: bool, to: u32) -> R {
    let kind = *ctx.pick(&[1, 2, 3, 5, 6, 7, 8]);
    let n = *ctx.pick(&big_sizes(12, to));
    wf_many(ctx, errors, kind, n).map_err(|mut f| {
        f.what = f.what.chars().take(500).collect();
        f
    })
}
fn wf_many(ctx: &mut Ctx, errors: bool, kind: usize, n: usize) -> R {
    let defect = ctx.choose(3);
    let mut d = String::new();
    match kind {
        0 => {
            d.push_str(&"<a>".repeat(n + 1));
            d.push_str(if defect == 1 { "&bad;" } else { "t" });
            d.push_str(&"</a>".repeat(n + 1));
        }
        1 => d = format!("<a>{}{}</a>", "<b/>".repeat(n), if defect == 1 { "<" } else { "" }),
        2 => d = format!("<a>{}{}</a>", "t ".repeat(n), if defect == 1 { "&" } else { "" }),
        3 => d = format!("<a>{}{}</a>", "<b>x</b>\n".repeat(n), if defect == 1 { "</c>" } else { "" }),
        4 => {
            let at: String = (0..n).map(|i| format!(" a{i}=\"{i}\"")).collect();
            d = format!("<a{at}{}/>", if defect == 1 { " a=1" } else { "" });
        }
        5 => d = format!("<a>{}{}</a>", "x<!--c-->".repeat(n), if defect == 1 { "]]<" } else { "" }),
        6 => d = format!("<a/>{}{}", "<!--c-->\n".repeat(n), if defect == 1 { "x" } else { "" }),
        7 => d = format!("{}<a/>{}", "<?p q?>\n".repeat(n), if defect == 1 { "<b/>" } else { "" }),
        _ => d = format!("<{}>{}</{}>", "a".repeat(n + 1), if defect == 1 { "<b>" } else { "" }, "a".repeat(n + 1)),
    }
    if defect == 2 {
        d.pop();
    }
    judge(ctx, d.as_bytes(), errors, true)
}

// ---------------------------------------------------------------- spellings (C04)

/// A non-default spelling costs one unit of budget.
struct Sp<'c> {
    ctx: &'c mut Ctx,
    budget: usize,
    used: usize,
}
impl Sp<'_> {
    fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return 0;
        }
        let c = self.ctx.choose(n);
        if c > 0 {
            self.budget -= 1;
            self.used += 1;
        }
        c
    }
}
pub fn misc(sp_dev: usize) -> &'static str {
    ["", "<!-- </r> -->", "<?pi <x>?>", "<!----><?q?>"][sp_dev]
}
/// All spellings of the text `t` that a parser must read as `t`.
pub fn spell_text(t: &str, how: usize) -> String {
    let split = t.char_indices().nth(t.chars().count() / 2).map_or(0, |x| x.0);
    let (a, b) = t.split_at(split);
    match how {
        0 => xmlt::esc_text(t),
        1 => t.chars().map(|c| format!("&#{};", c as u32)).collect(),
        2 => t.chars().map(|c| format!("&#x{:X};", c as u32)).collect(),
        3 => format!("<![CDATA[{t}]]>"),
        4 => format!("{}<!--c-->{}", xmlt::esc_text(a), xmlt::esc_text(b)),
        5 => format!("{}<![CDATA[{}]]>", xmlt::esc_text(a), b),
        6 => format!("<![CDATA[{a}]]>{}", xmlt::esc_text(b)),
        7 => format!("{}<?p q?>{}", xmlt::esc_text(a), xmlt::esc_text(b)),
        8 => format!("<![CDATA[{a}]]><![CDATA[{b}]]>"),
        9 => format!("{}<![CDATA[]]>{}", xmlt::esc_text(a), xmlt::esc_text(b)),
        _ => format!("<!--c-->{}<?p?>", xmlt::esc_text(t)),
    }
}
pub const TEXT_SPELLINGS: usize = 11;

fn spell(sp: &mut Sp, e: &El, scope: &[(String, String)], o: &mut String) {
    let mut scope: Vec<(String, String)> = scope.to_vec();
    let mut decls: Vec<(String, String)> = vec![];
    let bound = |scope: &[(String, String)], p: &str| scope.iter().rev().find(|x| x.0 == p).map(|x| x.1.clone());
    let mut declare = |scope: &mut Vec<(String, String)>, p: &str, u: &str| {
        scope.push((p.to_owned(), u.to_owned()));
        decls.push((p.to_owned(), u.to_owned()));
    };
    // Irrelevant or redundant declarations.
    match sp.dev(5) {
        1 => declare(&mut scope, "zz", "urn:unrelated"),
        2 => {
            if let Some((p, u)) = scope.iter().rev().find(|x| !x.0.is_empty()).cloned() {
                declare(&mut scope, &p, &u);
            } else {
                declare(&mut scope, "k", "urn:1");
            }
        }
        3 => declare(&mut scope, "p", "urn:2"), // shadows a prefix others use
        4 => {
            declare(&mut scope, "m", "urn:1");
            declare(&mut scope, "n", "urn:2");
        }
        _ => {}
    }
    // Element name.
    let prefix = if e.name.ns.is_empty() {
        if bound(&scope, "").map_or(false, |u| !u.is_empty()) {
            if decls.iter().any(|d| d.0.is_empty()) {
                unreachable!();
            }
            scope.push((String::new(), String::new()));
            decls.push((String::new(), String::new()));
        } else if sp.dev(2) == 1 {
            // a redundant undeclaration
            scope.push((String::new(), String::new()));
            decls.push((String::new(), String::new()));
        }
        String::new()
    } else {
        let how = sp.dev(4);
        let usable: Vec<String> = scope
            .iter()
            .filter(|x| x.1 == e.name.ns && bound(&scope, &x.0).as_deref() == Some(&e.name.ns))
            .map(|x| x.0.clone())
            .collect();
        match how {
            0 if !usable.is_empty() => usable.last().unwrap().clone(),
            1 if !usable.is_empty() => usable.first().unwrap().clone(),
            h => {
                let p = ["p", "q", "", "p2"][h];
                let p = if decls.iter().any(|d| d.0 == p && d.1 != e.name.ns) { "fresh" } else { p };
                if !decls.iter().any(|d| d.0 == p) {
                    scope.push((p.to_owned(), e.name.ns.clone()));
                    decls.push((p.to_owned(), e.name.ns.clone()));
                }
                p.to_owned()
            }
        }
    };
    let q = if prefix.is_empty() {
        e.name.local.clone()
    } else {
        format!("{prefix}:{}", e.name.local)
    };
    // Attributes.
    let mut parts: Vec<String> = vec![];
    for (n, v) in &e.attrs {
        let name = if n.ns.is_empty() {
            n.local.clone()
        } else if n.ns == xmlt::XML_NS {
            format!("xml:{}", n.local)
        } else {
            let usable: Vec<String> = scope
                .iter()
                .filter(|x| !x.0.is_empty() && x.1 == n.ns && bound(&scope, &x.0).as_deref() == Some(&n.ns))
                .map(|x| x.0.clone())
                .collect();
            let p = if usable.is_empty() || sp.dev(2) == 1 {
                let mut i = 0;
                let p = loop {
                    let p = format!("at{i}");
                    if !scope.iter().any(|d| d.0 == p) {
                        break p;
                    }
                    i += 1;
                };
                scope.push((p.clone(), n.ns.clone()));
                decls.push((p.clone(), n.ns.clone()));
                p
            } else {
                usable.last().unwrap().clone()
            };
            format!("{p}:{}", n.local)
        };
        let val = match sp.dev(4) {
            0 => format!("\"{}\"", xmlt::esc_attr(v)),
            1 => format!("'{}'", xmlt::esc_attr(v)),
            2 => format!("\"{}\"", v.chars().map(|c| format!("&#{};", c as u32)).collect::<String>()),
            _ => format!("'{}'", v.chars().map(|c| format!("&#x{:x};", c as u32)).collect::<String>()),
        };
        let eq = ["=", " = ", "=\n\t"][sp.dev(3)];
        parts.push(format!("{name}{eq}{val}"));
    }
    let d: Vec<String> = decls
        .iter()
        .map(|(p, u)| if p.is_empty() { format!("xmlns=\"{u}\"") } else { format!("xmlns:{p}='{u}'") })
        .collect();
    // Order: declarations first, last, or everything reversed.
    let mut all: Vec<String> = match sp.dev(3) {
        0 => d.into_iter().chain(parts).collect(),
        1 => parts.into_iter().chain(d).collect(),
        _ => d.into_iter().chain(parts).rev().collect(),
    };
    let gap = [" ", "\n", "\t  \r\n"][sp.dev(3)];
    o.push('<');
    o.push_str(&q);
    for a in all.drain(..) {
        o.push_str(gap);
        o.push_str(&a);
    }
    if sp.dev(2) == 1 {
        o.push_str(" \n");
    }
    if e.kids.is_empty() {
        match sp.dev(5) {
            0 => o.push_str("/>"),
            1 => o.push_str(&format!("></{q}>")),
            2 => o.push_str(&format!("><!--c--></{q}\n>")),
            3 => o.push_str(&format!("><?p q?></{q} >")),
            _ => o.push_str(&format!("><![CDATA[]]></{q}>")),
        }
        return;
    }
    o.push('>');
    o.push_str(misc(sp.dev(4)));
    for k in &e.kids {
        match k {
            Node::El(c) => spell(sp, c, &scope, o),
            Node::Text(t) => {
                let h = sp.dev(TEXT_SPELLINGS);
                o.push_str(&spell_text(t, h));
            }
        }
        o.push_str(misc(sp.dev(4)));
    }
    o.push_str(&format!("</{q}{}>", ["", " "][sp.dev(2)]));
}

fn choose_el(ctx: &mut Ctx, left: &mut usize, depth: usize, small: bool) -> El {
    let names = [qn("", "r"), qn("urn:1", "r"), qn("urn:2", "s")];
    let mut e = El::new(ctx.pick(&names).clone());
    let at = if small { [0, 2][ctx.choose(2)] } else { ctx.choose(5) };
    match at {
        1 => e.attrs.push((qn("", "x"), "1".into())),
        2 => {
            e.attrs.push((qn("urn:1", "x"), "<'\"&>".into()));
            e.attrs.push((qn("", "x"), " a  b".into()));
        }
        3 => {
            e.attrs.push((qn("urn:2", "x"), "é".into()));
            e.attrs.push((qn("urn:1", "x"), String::new()));
        }
        4 => e.attrs.push((qn(xmlt::XML_NS, "lang"), "en".into())),
        _ => {}
    }
    loop {
        let open = *left > 0 && depth < 3;
        let k = if small {
            [0, 1, 3][ctx.choose(if open { 3 } else { 2 })]
        } else {
            ctx.choose(if open { 4 } else { 3 })
        };
        match k {
            0 => return e,
            1 if !matches!(e.kids.last(), Some(Node::Text(_))) && e.kids.len() < 3 => e.kids.push(Node::Text("a<b".into())),
            2 if !matches!(e.kids.last(), Some(Node::Text(_))) && e.kids.len() < 3 => e.kids.push(Node::Text(" \n".into())),
            3 if e.kids.len() < 3 => {
                *left -= 1;
                let c = choose_el(ctx, left, depth + 1, small);
                e.kids.push(Node::El(c));
            }
            _ => return e,
        }
    }
}
fn sort_attrs(e: &mut El) {
    e.attrs.sort();
    for k in &mut e.kids {
        if let Node::El(c) = k {
            sort_attrs(c);
        }
    }
}
fn respell(ctx: &mut Ctx, extra: usize, budget: usize, small: bool) -> R {
    let mut left = extra;
    let tree = choose_el(ctx, &mut left, 1, small);
    let mut sp = Sp { ctx, budget, used: 0 };
    let mut d = String::new();
    d.push_str(["", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='utf-8' standalone='yes' ?>\n", "<!--c-->\n", "\n", "<?p q?>\n<!--c-->", "<!DOCTYPE r>", "<?xml version='1.0'?>\n<!DOCTYPE r SYSTEM \"urn:d\" [\n]>\n<!--c-->", "<!DOCTYPE a PUBLIC '-//a' 'b' >\n"][sp.dev(9)]);
    spell(&mut sp, &tree, &[], &mut d);
    d.push_str(["", "\n", "<!--c--><?p?>\n", "<?p?>\n\t<!--c-->"][sp.dev(4)]);
    let used = sp.used;
    ctx.describe(|| format!("document: {d:?}\ninfoset: {tree}"));
    ctx.state(&(&tree, used));
    ctx.compared += 1;
    match no_panic(|| from_str::<All>(&d)) {
        Ok(Ok(All(mut e))) => {
            let mut t = tree.clone();
            sort_attrs(&mut e);
            sort_attrs(&mut t);
            ensure!(e == t, "read {e} from {d:?}, infoset is {t}");
        }
        Ok(Err(e)) => fail!("refused {d:?}: {e}"),
        Err(p) => fail!("{d:?}: {p}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- text (C22)

const PIECES: [(&str, &str); 20] = [
    ("a", "a"),
    (" ", " "),
    ("\n", "\n"),
    ("\t", "\t"),
    ("é\u{10348}", "é\u{10348}"),
    ("&amp;", "&"),
    ("&lt;", "<"),
    ("&#32;", " "),
    ("&#x41;", "A"),
    ("&#13;", "\r"),
    ("<![CDATA[]]>", ""),
    ("<![CDATA[ b ]]>", " b "),
    ("<![CDATA[<&;]]>", "<&;"),
    ("<![CDATA[ ]]>", " "),
    ("<![CDATA[]]]>", "]"),
    ("<!---->", ""),
    ("<!-- c -->", ""),
    ("<?p q?>", ""),
    ("]", "]"),
    ("&gt;", ">"),
];
struct Chars(String, usize);
impl ElementVisitor for Chars {
    fn characters(&mut self, s: String, _pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        self.0.push_str(&s);
        self.1 += 1;
        Ok(None)
    }
}
#[derive(Debug)]
struct Direct(String);
impl Deserialize for Direct {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = Chars(String::new(), 0);
        e.read_to(&mut v)?;
        Ok(Direct(v.0))
    }
}
/// First child element as a string.
#[derive(Debug)]
struct Inner(Vec<String>);
struct InnerVis(Vec<String>);
impl ElementVisitor for InnerVis {
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        self.0.push(c.read_string()?);
        Ok(None)
    }
}
impl Deserialize for Inner {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut v = InnerVis(vec![]);
        e.read_to(&mut v)?;
        Ok(Inner(v.0))
    }
}
fn text_check(ctx: &mut Ctx, body: &str, want: &str) -> R {
    ctx.state(body);
    text_check_show(ctx, body, want, &format!("{body:?}"))
}
fn brief(s: &str) -> String {
    if s.len() > 400 {
        format!("{:?}... ({} bytes)", s.chars().take(60).collect::<String>(), s.len())
    } else {
        format!("{s:?}")
    }
}
fn text_check_show(ctx: &mut Ctx, body: &str, want: &str, show: &str) -> R {
    ctx.describe(|| format!("content: {show} means {}", brief(want)));
    ctx.compared += 3;
    let d = format!("<r>{body}</r>");
    match no_panic(|| from_str::<String>(&d)) {
        Ok(Ok(s)) => ensure!(s == want, "String read {} from {}, expected {}", brief(&s), brief(&d), brief(want)),
        Ok(Err(e)) => fail!("String refused {}: {e}", brief(&d)),
        Err(p) => fail!("{}: {p}", brief(&d)),
    }
    match no_panic(|| from_str::<Direct>(&d)) {
        Ok(Ok(s)) => ensure!(s.0 == want, "visitor saw {} in {}, expected {}", brief(&s.0), brief(&d), brief(want)),
        Ok(Err(e)) => fail!("visitor: refused {}: {e}", brief(&d)),
        Err(p) => fail!("{}: {p}", brief(&d)),
    }
    let d = format!("<r> <x>{body}</x><y/>{body}<x>{body}</x></r>");
    match no_panic(|| from_str::<Inner>(&d)) {
        Ok(Ok(s)) => ensure!(s.0 == [want, "", want], "child strings {} in {}", brief(&s.0.concat()), brief(&d)),
        Ok(Err(e)) => fail!("child string refused {}: {e}", brief(&d)),
        Err(p) => fail!("{}: {p}", brief(&d)),
    }
    Ok(())
}
fn text(ctx: &mut Ctx, max: usize) -> R {
    let n = ctx.range(0, max);
    let (mut body, mut want) = (String::new(), String::new());
    let mut last = "";
    for _ in 0..n {
        let (b, w) = *ctx.pick(&PIECES);
        if body.ends_with("]]") && b == "]" || (last == "]" && body.ends_with(']') && b.starts_with('>')) {
            ctx.outcome("skip");
            return Ok(());
        }
        last = b;
        body.push_str(b);
        want.push_str(w);
    }
    text_check(ctx, &body, &want)
}
fn text_child(ctx: &mut Ctx, max: usize) -> R {
    // A child element anywhere inside text-only content is an error.
    let n = ctx.range(0, max);
    let at = ctx.range(0, n);
    let child = *ctx.pick(&["<b/>", "<b>x</b>", "<b><c/></b>", "<r/>", "<p:b xmlns:p='u'> </p:b>"]);
    let mut body = String::new();
    for i in 0..=n {
        if i == at {
            body.push_str(child);
        }
        if i < n {
            body.push_str(ctx.pick(&PIECES[..18]).0);
        }
    }
    let d = format!("<r>{body}</r>");
    ctx.describe(|| format!("document {d:?}"));
    ctx.state(&d);
    ctx.compared += 2;
    match no_panic(|| from_str::<String>(&d)) {
        Ok(Ok(s)) => fail!("String accepted {s:?} from {d:?}"),
        Ok(Err(_)) => {}
        Err(p) => fail!("{d:?}: {p}"),
    }
    let d = format!("<q><r>{body}</r></q>");
    match no_panic(|| from_str::<Inner>(&d)) {
        Ok(Ok(s)) => fail!("child string {:?} from {d:?}", s.0),
        Ok(Err(_)) => {}
        Err(p) => fail!("{d:?}: {p}"),
    }
    Ok(())
}
fn text_ladder(ctx: &mut Ctx) -> R {
    let sizes = ladder_sizes(4200);
    let kind = ctx.choose(7);
    let n = *ctx.pick(&sizes);
    let (b, w) = match kind {
        0 => ("ab ".repeat(n), "ab ".repeat(n)),
        1 => (" ".repeat(n), " ".repeat(n)),
        2 => ("<![CDATA[x]]>".repeat(n), "x".repeat(n)),
        3 => ("é<!--c-->".repeat(n), "é".repeat(n)),
        4 => ("&amp;".repeat(n), "&".repeat(n)),
        5 => ("<![CDATA[ ]]>\n".repeat(n), " \n".repeat(n)),
        _ => ("x<?p?>".repeat(n), "x".repeat(n)),
    };
    text_check(ctx, &b, &w)
}

/// Sizes next to the powers of two which buffers, counters and limits have.
pub fn big_sizes(from: u32, to: u32) -> Vec<usize> {
    (from..=to).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect()
}
/// Long text, in one piece or several, of which one is as long as a power of two or ends there.
fn text_big(ctx: &mut Ctx, to: u32) -> R {
    let n = *ctx.pick(&big_sizes(10, to));
    let unit = *ctx.pick(&["x", " ", "é"]);
    let kind = ctx.choose(5);
    let n = n / unit.len();
    let long = unit.repeat(n);
    let (b, w) = match kind {
        0 => (long.clone(), long),
        1 => (format!("{long}<![CDATA[b]]>c&amp;"), format!("{long}bc&")),
        2 => (format!(" <![CDATA[b]]>{long}<!---->c"), format!(" b{long}c")),
        3 => (format!("<![CDATA[{long}]]>d<![CDATA[{long}]]>"), format!("{long}d{long}")),
        _ => (format!("{long}&#x41;{long}<?p?> "), format!("{long}A{long} ")),
    };
    ctx.state(&(n, unit, kind));
    text_check_show(ctx, &b, &w, &format!("{n} times {unit:?} in the manner {kind}"))
}

// ---------------------------------------------------------------- sources (C10)

/// Delivers `data` in the given chunks and fails as told.
struct Src<'a> {
    data: &'a [u8],
    pos: usize,
    /// remaining lengths of chunks (empty: as much as asked)
    cuts: Vec<usize>,
    /// at this offset, an error of this kind; once or for ever
    fail: Option<(usize, std::io::ErrorKind, bool)>,
    failed: bool,
    /// Interrupted before every n-th read
    intr: usize,
    reads: usize,
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.reads += 1;
        if self.intr > 0 && self.reads % (self.intr + 1) == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "intr"));
        }
        let mut end = self.data.len();
        if let Some((at, kind, once)) = self.fail {
            if self.pos >= at && !(once && self.failed) {
                self.failed = true;
                return Err(std::io::Error::new(kind, format!("injected failure at {at}")));
            }
            if at > self.pos {
                end = end.min(at);
            }
        }
        if let Some(c) = self.cuts.iter().find(|c| **c > self.pos) {
            end = end.min(*c);
        }
        let n = (end - self.pos).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
const DOCS: [&str; 13] = [
    "<a/>",
    "<a></a>",
    "<!DOCTYPE a SYSTEM 'x'>\n<a>t</a>",
    "<a b=\"1\">é</a>",
    "<?xml version=\"1.0\"?>\n<a><b/>x</a>\n",
    "<!--c--><a>x<!--d-->y<![CDATA[z]]>&amp;</a><!--e-->",
    "<p:a xmlns:p=\"urn:x\" p:k=\"v\"><p:b>1</p:b><c/></p:a>",
    "<a><b><c>deep</c></b> <b/></a><?pi end?>",
    "<a x='1' y='2'>&#x1F600;</a>\n\n",
    "<a>true</a>",
    "<a> \n <b>\u{10348}</b>\t</a>",
    "<?xml version='1.0' encoding='utf-8'?><a><b k='v'>t</b><b k='w'>u</b></a>",
    "<a><![CDATA[ ]]><b/><![CDATA[]]]></a> <!-- tail --> ",
];
#[derive(Debug, PartialEq, Clone)]
enum Out {
    All(El),
    Str(String),
    Unit,
}
fn target(which: usize, s: Src<'_>) -> Result<Result<Out, Error>, String> {
    no_panic(|| match which {
        0 => read::<_, All>(s).map(|x| Out::All(x.0)),
        1 => read::<_, Skip>(s).map(|_| Out::Unit),
        2 => read::<_, Shallow>(s).map(|_| Out::Unit),
        3 => read::<_, Swallow>(s).map(|_| Out::Unit),
        4 => read::<_, String>(s).map(Out::Str),
        _ => read::<_, bool>(s).map(|b| Out::Str(b.to_string())),
    })
}
fn src(data: &[u8]) -> Src<'_> {
    Src {
        data,
        pos: 0,
        cuts: vec![],
        fail: None,
        failed: false,
        intr: 0,
        reads: 0,
    }
}
fn truncation(ctx: &mut Ctx) -> R {
    let doc = ctx.pick(&DOCS).as_bytes();
    let t = ctx.choose(6);
    let cut = ctx.choose(doc.len() + 1);
    let d = &doc[..cut];
    ctx.describe(|| format!("{:?} cut at byte {cut}, target {t}", String::from_utf8_lossy(doc)));
    ctx.state(d);
    ctx.compared += 1;
    let complete = raw(d).accept;
    match target(t, src(d)) {
        Ok(Ok(v)) => {
            ensure!(complete, "value {v:?} from a truncated document");
            let full = target(t, src(doc)).unwrap();
            ensure!(matches!(&full, Ok(f) if *f == v), "value {v:?} differs from that of the whole document");
            ctx.outcome("whole");
        }
        Ok(Err(_)) => {
            ensure!(!complete || target(t, src(doc)).unwrap().is_err(), "complete document refused");
            ctx.outcome("refused");
        }
        Err(p) => fail!("{p}"),
    }
    Ok(())
}
const KINDS: [std::io::ErrorKind; 14] = {
    use std::io::ErrorKind as K;
    [
        K::Other, K::UnexpectedEof, K::WouldBlock, K::ConnectionReset, K::BrokenPipe, K::InvalidData, K::InvalidInput,
        K::TimedOut, K::PermissionDenied, K::NotFound, K::ConnectionAborted, K::OutOfMemory, K::WriteZero, K::Unsupported,
    ]
};
fn io_error(ctx: &mut Ctx) -> R {
    let doc = ctx.pick(&DOCS).as_bytes();
    let t = ctx.choose(6);
    let at = ctx.choose(doc.len() + 1);
    let kind = *ctx.pick(&KINDS);
    let once = ctx.flip();
    let intr = ctx.choose(2);
    let mut s = src(doc);
    s.fail = Some((at, kind, once));
    s.intr = intr;
    ctx.describe(|| format!("{:?} {kind:?} at byte {at} once={once} interrupted={intr} target {t}", String::from_utf8_lossy(doc)));
    ctx.state(&(doc, at));
    ctx.compared += 1;
    match target(t, s) {
        Ok(Ok(v)) => fail!("value {v:?} although the source failed"),
        Ok(Err(e)) => {
            // The injected error is in the chain, unless the type itself was refused first.
            let unfit = target(t, src(doc)).unwrap().is_err();
            let mut found = false;
            let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(&e);
            while let Some(c) = cur {
                if let Some(io) = c.downcast_ref::<std::io::Error>() {
                    if io.kind() == kind && io.to_string().contains(&format!("injected failure at {at}")) {
                        found = true;
                    }
                }
                cur = c.source();
            }
            ensure!(found || unfit, "the I/O error is not the source of {e:?}");
            if let Err(m) = check_display(&e) {
                fail!("{m}");
            }
            ctx.outcome(if found { "io-source" } else { "unfit" });
        }
        Err(p) => fail!("{p}"),
    }
    Ok(())
}
fn chunking(ctx: &mut Ctx, all_upto: usize) -> R {
    let doc = ctx.pick(&DOCS).as_bytes();
    let t = ctx.choose(6);
    let mut s = src(doc);
    if doc.len() <= all_upto {
        for i in 1..doc.len() {
            if ctx.flip() {
                s.cuts.push(i);
            }
        }
    } else {
        let k = 1 + ctx.choose(17);
        let off = ctx.choose(k);
        s.cuts = (0..doc.len()).filter(|i| i % k == off).collect();
    }
    s.intr = [0, 1, 2, 7][ctx.choose(4)];
    ctx.describe(|| format!("{:?} chunks end at {:?}, interrupted every {}", String::from_utf8_lossy(doc), s.cuts, s.intr));
    ctx.state(&(doc, &s.cuts));
    ctx.compared += 1;
    let want = target(t, src(doc)).unwrap();
    match (target(t, s), want) {
        (Ok(Ok(a)), Ok(b)) => ensure!(a == b, "read {a:?}, unfragmented {b:?}"),
        (Ok(Err(a)), Err(b)) => ensure!(a.to_string() == b.to_string(), "error {a}, unfragmented {b}"),
        (Ok(a), b) => fail!("{a:?}, unfragmented {b:?}"),
        (Err(p), _) => fail!("{p}"),
    }
    Ok(())
}

/// C08: what a failed read says when the source fails or ends at any byte.
fn failing_source(ctx: &mut Ctx) -> R {
    let doc = ctx.pick(&DOCS).as_bytes();
    let t = ctx.choose(4);
    let at = ctx.choose(doc.len() + 1);
    let how = ctx.choose(KINDS.len() + 1);
    let once = how < KINDS.len() && ctx.flip();
    let make = || {
        let mut s = src(doc);
        match KINDS.get(how) {
            Some(k) => s.fail = Some((at, *k, once)),
            None => s.data = &doc[..at],
        }
        s
    };
    ctx.describe(|| format!("{:?}, fault {how} once={once} at byte {at}, target {t}", String::from_utf8_lossy(doc)));
    ctx.state(&(doc, at));
    ctx.compared += 1;
    let want = raw(make());
    match target(t, make()) {
        Ok(Ok(_)) => ctx.outcome("complete"),
        Ok(Err(e)) => {
            if let Err(m) = check_display(&e) {
                fail!("{m}");
            }
            let Some((msg, pos, open)) = &want.err else { return Ok(()) };
            let got: Vec<(String, TextPosition)> = e.stack().iter().map(|s| (s.name.borrow().repr_display().to_string(), s.pos)).collect();
            // One that discards errors goes on reading what follows the failed read.
            if t == 3 && once {
                return Ok(());
            }
            ensure!(got == *open, "stack {got:?}, elements open at the failure {open:?}: {e}");
            let (d, want_d) = (e.to_string(), format!("{msg} @ {pos}"));
            ensure!(d == want_d || d.starts_with(&format!("{want_d}\n\n")), "displayed {d:?}, expected to start with {want_d:?}");
            ensure!(reaches(&e, want.cause.as_ref().unwrap()), "{:?} is not reachable through source()", want.cause);
            ctx.outcome("error");
        }
        Err(p) => fail!("{p}"),
    }
    Ok(())
}

/// Long documents with a fault at offsets on a ladder.
fn io_ladder(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(4);
    let doc = match kind {
        0 => format!("<a>{}</a>", "<b>x</b>".repeat(1200)),
        1 => format!("<a>{}</a>", "t ".repeat(5000)),
        2 => format!("<a/>{}", "<!--c-->\n".repeat(1100)),
        _ => format!("<a>{}</a>", "é".repeat(4500)),
    };
    io_far(ctx, kind, doc, &ladder_sizes(9000))
}
/// The same, next to powers of two far into documents of a few hundred kilobytes.
fn io_big(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(4);
    let doc = match kind {
        0 => format!("<a>{}</a>", "<b>x</b>".repeat(40_000)),
        1 => format!("<a>{}</a>", "t ".repeat(150_000)),
        2 => format!("<a/>{}", "<!--c-->\n".repeat(35_000)),
        _ => format!("<a k='{}'/>", "é".repeat(150_000)),
    };
    io_far(ctx, kind, doc, &big_sizes(10, 18))
}
fn io_far(ctx: &mut Ctx, kind: usize, doc: String, sizes: &[usize]) -> R {
    let sizes: Vec<usize> = sizes.iter().copied().filter(|s| *s <= doc.len()).collect();
    let at = *ctx.pick(&sizes);
    let how = ctx.choose(3);
    let mut s = src(doc.as_bytes());
    match how {
        0 => s.data = &doc.as_bytes()[..at.min(doc.len() - 1)],
        1 => s.fail = Some((at, std::io::ErrorKind::Other, false)),
        _ => s.cuts = vec![at],
    }
    let t = ctx.choose(4);
    ctx.describe(|| format!("kind {kind}, fault {how} at {at}, target {t}"));
    ctx.state(&(kind, at, how, t));
    let complete = how == 2 || (how == 0 && raw(s.data).accept);
    match target(t, s) {
        Ok(Ok(v)) => ensure!(complete, "value from a broken source: {}", format!("{v:?}").len()),
        Ok(Err(e)) => ensure!(!complete, "refused: {}", e.to_string().lines().next().unwrap_or("")),
        Err(p) => fail!("{p}"),
    }
    Ok(())
}

pub fn models(prop: &str, tier: Tier, v: &mut Vec<Model>) {
    let th = tier == Tier::Thorough;
    let q = |a: usize, b: usize| if th { b } else { a };
    match prop {
        "C09" => {
            let n = q(5, 6);
            v.push(model("tokens", &format!("all sequences of up to {n} of {} markup fragments, five target types", TOKENS.len()), move |c| tokens(c, n, false)));
            let n = q(3, 4);
            v.push(model("epilogue", &format!("up to 2 pieces before and {n} after a complete root"), move |c| epilogue(c, n, false)));
            let n = q(4, 5);
            v.push(model("bytes", &format!("all byte strings of length up to {n} over 20 bytes in 7 contexts"), move |c| byte_strings(c, n, false)));
            let n = q(4, 5);
            v.push(model("references", &format!("{} references, those HTML names and all bodies of up to {n} of 12 characters in 7 places", REFS.len()), move |c| references(c, n, false)));
            v.push(model("size-ladder", "nine kinds of repetition over a ladder of sizes, intact and broken", |c| wf_ladder(c, false)));
            let n = q(16, 19) as u32;
            v.push(model("many", &format!("seven kinds of repetition, 2^k-1, 2^k and 2^k+1 times (k 12 to {n}), intact and broken"), move |c| wf_big(c, false, n)));
        }
        "C08" => {
            let n = q(4, 5);
            v.push(model("malformed", &format!("all sequences of up to {n} of {} markup fragments: stack, message and position of the parser's error", TOKENS.len()), move |c| tokens(c, n, true)));
            let n = q(3, 4);
            v.push(model("malformed-epilogue", "malformed before/after the root", move |c| epilogue(c, n, true)));
            let n = q(3, 4);
            v.push(model("malformed-bytes", &format!("all byte strings of length up to {n} over 20 bytes in 7 contexts"), move |c| byte_strings(c, n, true)));
            v.push(model("failing-source", "12 documents x every byte x 14 error kinds x once/persistent, and ending at every byte, x 4 target types: stack, message, position and source", failing_source));
            let n = q(3, 4);
            v.push(model("malformed-references", &format!("{} references, those HTML names and all bodies of up to {n} of 12 characters in 7 places", REFS.len()), move |c| references(c, n, true)));
            v.push(model("malformed-ladder", "nine kinds of repetition over a ladder of sizes, intact and broken", |c| wf_ladder(c, true)));
            let n = q(16, 19) as u32;
            v.push(model("malformed-many", &format!("seven kinds of repetition, 2^k-1, 2^k and 2^k+1 times (k 12 to {n}), intact and broken"), move |c| wf_big(c, true, n)));
        }
        "C04" => {
            for (name, n, b, small) in if th {
                vec![("respell", 1, 1, false), ("respell-three", 2, 1, true), ("respell-pairs", 1, 2, false), ("respell-triples", 0, 3, true)]
            } else {
                vec![("respell", 1, 1, false), ("respell-small", 1, 2, true), ("respell-pairs", 0, 2, false)]
            } {
                let (na, nt) = if small { (2, 1) } else { (5, 2) };
                v.push(model(name, &format!("all infosets of up to {} elements over 3 names, {na} attribute sets, {nt} texts; all spellings with up to {b} non-default choices", n + 1), move |c| respell(c, n, b, small)));
            }
        }
        "C10" => {
            v.push(model("truncation", "12 documents x every byte x 6 target types", truncation));
            v.push(model("io-error", "12 documents x every byte x 14 error kinds x once/persistent x interrupted x 6 target types", io_error));
            let n = q(12, 16);
            v.push(model("chunking", &format!("every composition of documents up to {n} bytes, periodic ones of the others, x interruptions x 6 target types"), move |c| chunking(c, n)));
            v.push(model("fault-ladder", "long documents, fault offsets on a ladder", io_ladder));
            v.push(model("far-faults", "4 documents of about 300 KB cut, failing or fragmented at 2^k-1, 2^k and 2^k+1 bytes (k 10 to 18)", io_big));
        }
        "C22" => {
            let n = q(4, 5);
            v.push(model("pieces", &format!("all sequences of up to {n} of {} pieces of character data, read as root string, child strings and visitor characters", PIECES.len()), move |c| text(c, n)));
            let n = q(2, 3);
            v.push(model("child-in-text", &format!("a child element at every place among up to {n} pieces"), move |c| text_child(c, n)));
            v.push(model("size-ladder", "seven kinds of pieces over a ladder of counts", text_ladder));
            let k = q(19, 23);
            v.push(model("long-texts", &format!("texts of which a part is 2^k - 1, 2^k or 2^k + 1 bytes long for each k from 10 to {k}, in 5 kinds of pieces"), move |c| text_big(c, k as u32)));
        }
        _ => {}
    }
}

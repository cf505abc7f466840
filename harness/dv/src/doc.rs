//! Documents for a derived type: what it recognises, sample contents, printing.

use crate::reader::{CDATA, COMMENT, PI};
use crate::*;
use engine::xmlt::{El, Node, QN, XML_NS};

/// A name recognised among a type's attributes or children (its own or through flattened fields).
#[derive(Clone, Debug)]
pub struct Slot {
    pub attr: bool,
    pub name: N,
    /// `None`: unit alternative.
    pub ty: Option<Ty>,
    pub card: Card,
    pub own: bool,
    pub choice: bool,
}

pub fn slots(ty: &Ty) -> Vec<Slot> {
    fn go(ty: &Ty, own: bool, out: &mut Vec<Slot>) {
        match ty {
            Ty::Struct(d) => {
                for f in d.fields {
                    match f.mode {
                        Mode::Elem | Mode::Attr => out.push(Slot {
                            attr: f.mode == Mode::Attr,
                            name: f.name,
                            ty: Some(f.ty),
                            card: f.card,
                            own,
                            choice: false,
                        }),
                        _ => {}
                    }
                }
                for f in d.fields {
                    if f.mode == Mode::Flat {
                        go(&f.ty, false, out);
                    }
                }
            }
            Ty::Choice(d) => {
                for a in d.alts.iter().filter(|a| !a.skip) {
                    out.push(Slot {
                        attr: false,
                        name: a.name,
                        ty: a.of.map(|x| x.1),
                        card: a.of.map_or(Card::One, |x| x.0),
                        own,
                        choice: true,
                    });
                }
            }
            _ => {}
        }
    }
    let mut out = Vec::new();
    go(ty, true, &mut out);
    out
}
/// Slots without later ones of the same kind and name.
pub fn distinct(slots: &[Slot]) -> Vec<Slot> {
    let mut out: Vec<Slot> = Vec::new();
    for s in slots {
        if !out.iter().any(|o| o.attr == s.attr && o.name == s.name) {
            out.push(s.clone());
        }
    }
    out
}
pub fn takes_text(ty: &Ty) -> bool {
    match ty {
        Ty::Struct(d) => d.fields.iter().any(|f| f.mode == Mode::Text || (f.mode == Mode::Flat && takes_text(&f.ty))),
        Ty::Choice(_) => false,
        _ => true,
    }
}
fn text_consumers(ty: &Ty) -> usize {
    match ty {
        Ty::Struct(d) => d
            .fields
            .iter()
            .map(|f| match f.mode {
                Mode::Text => 1,
                Mode::Flat => text_consumers(&f.ty),
                _ => 0,
            })
            .sum(),
        _ => 0,
    }
}
/// Does every value of the type have an unambiguous infoset?
pub fn unambiguous(ty: &Ty) -> bool {
    fn go(ty: &Ty, depth: usize) -> bool {
        if depth > 4 {
            return true;
        }
        let s = slots(ty);
        distinct(&s).len() == s.len()
            && text_consumers(ty) <= 1
            && s.iter().all(|s| s.ty.map_or(true, |t| go(&t, depth + 1)))
            && match ty {
                Ty::Struct(d) => d.fields.iter().all(|f| f.mode != Mode::Flat || go(&f.ty, depth + 1)),
                _ => true,
            }
    }
    go(ty, 0)
}

/// Content of an element: valid samples, then invalid ones.
pub fn samples(ty: Option<Ty>, depth: usize) -> (Vec<El>, Vec<El>) {
    let t = |s: &str| {
        let mut e = El::new(engine::xmlt::qn("", "x"));
        e.push_text(s);
        e
    };
    let with_kid = || {
        let mut e = t("a");
        e.kids.push(Node::El(El::new(engine::xmlt::qn("", "zz"))));
        e
    };
    match ty {
        None => {
            let mut odd = t("stray");
            odd.attrs.push((engine::xmlt::qn("", "k"), "1".into()));
            odd.kids.push(Node::El(t("inner")));
            (vec![t(""), odd], vec![])
        }
        Some(Ty::Str) => (vec![t("s<&>"), t("")], vec![with_kid()]),
        Some(Ty::U8) => (vec![t("7"), t(" 200\n")], vec![t("256"), t("")]),
        Some(Ty::Ds) => (vec![t("v"), t("")], vec![t("q")]),
        Some(ty) => {
            let base = || El::new(engine::xmlt::qn("", "x"));
            if depth == 0 {
                // Deep enough: only what needs nothing inside.
                return match ty {
                    Ty::Struct(d) if d.fields.iter().all(|f| f.mode != Mode::Flat && (f.card != Card::One || f.default.is_some())) => {
                        (vec![base()], vec![])
                    }
                    _ => (vec![], vec![]),
                };
            }
            let mut valid = Vec::new();
            let mut invalid = Vec::new();
            match ty {
                Ty::Struct(d) => {
                    // minimal, full, and each with something wrong
                    let mut min = base();
                    let mut full = base();
                    let mut bad = None;
                    let mut ok = true;
                    build(d, depth, &mut min, &mut full, &mut bad, &mut ok);
                    if ok {
                        if min != full {
                            valid.push(full);
                        }
                        valid.insert(0, min);
                    }
                    invalid.extend(bad);
                    let all_optional = d
                        .fields
                        .iter()
                        .all(|f| f.mode != Mode::Flat && (f.card != Card::One || f.default.is_some() || (f.mode == Mode::Text && !matches!(f.ty, Ty::U8))));
                    if !all_optional {
                        invalid.push(base());
                    }
                }
                Ty::Choice(d) => {
                    for a in d.alts.iter().filter(|a| !a.skip) {
                        let (v, iv) = samples(a.of.map(|x| x.1), depth - 1);
                        for (from, to) in [(v, &mut valid), (iv, &mut invalid)] {
                            for mut c in from.into_iter().take(2) {
                                c.name = a.name.qn();
                                let mut e = base();
                                e.kids.push(Node::El(c));
                                to.push(e);
                            }
                        }
                    }
                    invalid.insert(0, base());
                }
                _ => unreachable!(),
            }
            (valid, invalid)
        }
    }
}
fn build(d: &StructD, depth: usize, min: &mut El, full: &mut El, bad: &mut Option<El>, ok: &mut bool) {
    for f in d.fields {
        let need = f.card == Card::One && f.default.is_none();
        match f.mode {
            Mode::Attr => {
                let (v, iv) = samples(Some(f.ty), 0);
                if need {
                    min.attrs.push((f.name.qn(), v[0].text()));
                }
                if let (None, Some(b)) = (&bad, iv.first()) {
                    let mut e = full.clone();
                    e.attrs.push((f.name.qn(), b.text()));
                    *bad = Some(e);
                }
                full.attrs.push((f.name.qn(), v[1].text()));
            }
            Mode::Text => {
                let (v, _) = samples(Some(f.ty), 0);
                min.push_text(&v[0].text());
                full.push_text(&v[0].text());
            }
            Mode::Elem => {
                let (v, iv) = samples(Some(f.ty), depth - 1);
                if v.is_empty() {
                    *ok &= !need;
                    continue;
                }
                let named = |c: &El| {
                    let mut c = c.clone();
                    c.name = f.name.qn();
                    Node::El(c)
                };
                if need {
                    min.kids.push(named(&v[0]));
                }
                if let (None, Some(b)) = (&bad, iv.first()) {
                    let mut e = full.clone();
                    e.kids.push(named(b));
                    *bad = Some(e);
                }
                full.kids.push(named(v.last().unwrap()));
                if f.card == Card::Many {
                    full.kids.push(named(&v[0]));
                }
            }
            Mode::Flat => match f.ty {
                Ty::Struct(d) => build(d, depth, min, full, bad, ok),
                ty => {
                    let (v, _) = samples(Some(ty), depth);
                    if v.is_empty() {
                        *ok = false;
                        continue;
                    }
                    min.kids.extend(v[0].kids.clone());
                    full.kids.extend(v.last().unwrap().kids.clone());
                }
            },
        }
    }
}

/// How a document is spelled.
#[derive(Clone, Copy, Default, Debug)]
pub struct Style {
    /// 0: prefixes declared on the root; 1: default namespace declared on each element that needs it;
    /// 2: prefixes declared on each element using them; 3: prefixes on the root, but swapped round by every child.
    pub ns: usize,
    pub single_quotes: bool,
    /// White space inside tags.
    pub spaces: bool,
    /// Empty elements as start and end tags.
    pub pairs: bool,
    /// 0: escaped; 1: characters as references; 2: CDATA where possible.
    pub text: usize,
    pub decl: bool,
}

struct Printer {
    st: Style,
    urls: Vec<String>,
    out: String,
}
pub fn print(el: &El) -> String {
    print_with(el, Style::default())
}
pub fn print_with(el: &El, st: Style) -> String {
    fn urls(e: &El, v: &mut Vec<String>) {
        for n in e.attrs.iter().map(|a| &a.0).chain([&e.name]) {
            if !n.ns.is_empty() && n.ns != XML_NS && !v.contains(&n.ns) {
                v.push(n.ns.clone());
            }
        }
        e.els().for_each(|c| urls(c, v));
    }
    let mut u = Vec::new();
    urls(el, &mut u);
    let mut p = Printer { st, urls: u, out: String::new() };
    if st.decl {
        p.out.push_str("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- a -->\n<!DOCTYPE x>");
    }
    p.el(el, true, "", 0);
    if st.decl {
        p.out.push_str("\n<!-- z -->\n");
    }
    p.out
}
impl Printer {
    fn prefix(&self, ns: &str, depth: usize) -> String {
        let n = self.urls.len();
        let i = self.urls.iter().position(|u| u == ns).unwrap();
        let i = if self.st.ns == 3 { (i + depth) % n } else { i };
        format!("p{i}")
    }
    fn attr(&mut self, name: &str, value: &str) {
        let q = if self.st.single_quotes { '\'' } else { '"' };
        let v = match self.st.text {
            1 => value.chars().map(|c| format!("&#x{:X};", c as u32)).collect(),
            _ => engine::xmlt::esc_attr(value),
        };
        let (s, eq) = if self.st.spaces { ("\n\t ", " = ") } else { (" ", "=") };
        self.out.push_str(&format!("{s}{name}{eq}{q}{v}{q}"));
    }
    fn el(&mut self, e: &El, root: bool, default: &str, depth: usize) {
        let mut decls: Vec<(String, String)> = Vec::new();
        let mut default = default.to_owned();
        let name = |p: &Printer, q: &QN, attr: bool| -> String {
            if q.ns.is_empty() {
                q.local.clone()
            } else if q.ns == XML_NS {
                format!("xml:{}", q.local)
            } else if p.st.ns == 1 && !attr {
                q.local.clone()
            } else {
                format!("{}:{}", p.prefix(&q.ns, depth), q.local)
            }
        };
        if self.st.ns == 1 && e.name.ns != XML_NS && e.name.ns != default {
            decls.push((String::new(), e.name.ns.clone()));
            default = e.name.ns.clone();
        }
        let used: Vec<String> = match self.st.ns {
            0 if root => self.urls.clone(),
            0 => vec![],
            3 => self.urls.clone(),
            k => {
                let mut u: Vec<String> = e.attrs.iter().map(|a| a.0.ns.clone()).collect();
                if k == 2 {
                    u.push(e.name.ns.clone());
                }
                u.retain(|u| self.urls.contains(u));
                u.sort();
                u.dedup();
                u
            }
        };
        for u in used {
            decls.push((self.prefix(&u, depth), u));
        }
        let tag = name(self, &e.name, false);
        self.out.push('<');
        self.out.push_str(&tag);
        // Declarations after the attributes in one style, before them in the others.
        let late = self.st.ns == 2;
        let d = |p: &mut Printer| {
            for (k, u) in &decls {
                let n = if k.is_empty() { "xmlns".to_owned() } else { format!("xmlns:{k}") };
                p.attr(&n, u);
            }
        };
        if !late {
            d(self);
        }
        for (n, v) in &e.attrs {
            let n = name(self, n, true);
            self.attr(&n, v);
        }
        if late {
            d(self);
        }
        if self.st.spaces {
            self.out.push_str(" \n");
        }
        if e.kids.is_empty() && !self.st.pairs {
            self.out.push_str("/>");
            return;
        }
        self.out.push('>');
        for k in &e.kids {
            match k {
                Node::El(c) => self.el(c, false, &default, depth + 1),
                Node::Text(t) => self.text(t),
            }
        }
        self.out.push_str(&format!("</{tag}{}>", if self.st.spaces { "\t" } else { "" }));
    }
    fn text(&mut self, t: &str) {
        let mut cdata = self.st.text == 2;
        let mut piece = String::new();
        let marks = |c: char| matches!(c, COMMENT | PI | CDATA);
        let mut chars = t.chars().peekable();
        loop {
            match chars.peek() {
                Some(&c) if !marks(c) => {
                    piece.push(c);
                    chars.next();
                    continue;
                }
                _ => {}
            }
            if cdata && !piece.contains("]]>") && !piece.contains('\r') {
                if !piece.is_empty() {
                    self.out.push_str(&format!("<![CDATA[{piece}]]>"));
                }
            } else if self.st.text == 1 {
                for c in piece.chars() {
                    self.out.push_str(&format!("&#{};", c as u32));
                }
            } else {
                self.out.push_str(&engine::xmlt::esc_text(&piece));
            }
            piece.clear();
            cdata = self.st.text == 2;
            match chars.next() {
                None => break,
                Some(COMMENT) => self.out.push_str("<!-- <c> -->"),
                Some(PI) => self.out.push_str("<?p <a/> ?>"),
                Some(_) => cdata = true,
            }
        }
    }
}

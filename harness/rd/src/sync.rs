//! Visitor/stream synchronisation: every bounded document shape x every bounded sequence of decisions
//! the visiting code can take at every callback, checked against a reference interpreter.

use engine::*;
use static_xml::de::*;
use static_xml::{ExpandedNameRef, TextPosition};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Arc;

/// What a run checks.
#[derive(Clone, Copy, PartialEq)]
enum Focus {
    Sync,
    Handle,
    Errors,
}

// ---------------------------------------------------------------- documents

#[derive(Clone, Debug)]
pub struct E {
    pub id: usize,
    pub parent: Option<usize>,
    pub prefix: String,
    pub ns: String,
    pub local: String,
    pub depth: usize,
    /// namespace declarations on this element
    pub decls: Vec<(String, String)>,
    pub attrs: Vec<(String, String)>,
    /// expanded names of attributes with a prefix
    pub names: BTreeMap<String, String>,
    pub kids: Vec<Kid>,
    /// in-scope mappings
    pub scope: BTreeMap<String, String>,
}
#[derive(Clone, Debug)]
pub enum Kid {
    El(usize),
    Text(String),
    /// comment or processing instruction, verbatim
    Raw(&'static str),
}
#[derive(Clone, Debug, Default)]
pub struct Tree {
    pub els: Vec<E>,
    pub text: String,
    /// start position of each element and of each text event, from the underlying parser
    pub pos: Vec<TextPosition>,
}

/// Chooses an ordered tree with exactly `n` nodes as a parent vector in preorder.
fn choose_shape(ctx: &mut Ctx, n: usize) -> Vec<Option<usize>> {
    let mut parents: Vec<Option<usize>> = vec![None];
    let mut open = vec![0usize];
    for i in 1..n {
        let k = ctx.choose(open.len());
        // parent is open[len-1-k]
        let p = open[open.len() - 1 - k];
        open.truncate(open.len() - k);
        parents.push(Some(p));
        open.push(i);
    }
    parents
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Style {
    same_names: bool,
    texts: bool,
    raws: bool,
    newlines: bool,
    /// reserved, namespaced and empty attributes as well
    xattrs: bool,
    /// no attributes at all
    bare: bool,
}

fn build(parents: &[Option<usize>], st: Style, ns_mode: &[usize]) -> Tree {
    let n = parents.len();
    let mut els: Vec<E> = (0..n)
        .map(|i| E {
            id: i,
            parent: parents[i],
            prefix: String::new(),
            ns: String::new(),
            local: if st.same_names { "e".into() } else { format!("e{i}") },
            depth: 1,
            decls: vec![],
            attrs: vec![("x".into(), format!("{i}")), ("y".into(), format!("v{i}"))],
            names: BTreeMap::new(),
            kids: vec![],
            scope: BTreeMap::new(),
        })
        .collect();
    if st.same_names {
        for (i, e) in els.iter_mut().enumerate() {
            e.attrs = vec![("x".into(), format!("{i}"))];
        }
    }
    if st.bare {
        els.iter_mut().for_each(|e| e.attrs.clear());
    }
    if st.xattrs {
        let extra = [
            ("xml:space", "{http://www.w3.org/XML/1998/namespace}space", ["preserve", "default"]),
            ("p:x", "{urn:x}x", ["1", ""]),
            ("xml:lang", "{http://www.w3.org/XML/1998/namespace}lang", ["", "en"]),
            ("xsi:nil", "{http://www.w3.org/2001/XMLSchema-instance}nil", ["true", "1"]),
            ("xsi:type", "{http://www.w3.org/2001/XMLSchema-instance}type", ["p:t", ""]),
            ("xml:id", "{http://www.w3.org/XML/1998/namespace}id", [" a ", "b"]),
            ("xmlnsx", "xmlnsx", ["u", ""]),
        ];
        for (i, e) in els.iter_mut().enumerate() {
            for (k, (q, n, v)) in extra.iter().enumerate() {
                if (k + i) % 2 == 0 || k < 2 {
                    let at = if k % 2 == 0 { 0 } else { e.attrs.len() };
                    e.attrs.insert(at, (q.to_string(), v[(i + k) % 2].to_string()));
                    e.names.insert(q.to_string(), n.to_string());
                }
            }
        }
        els[0].decls.push(("p".into(), "urn:x".into()));
        els[0].decls.push(("xsi".into(), "http://www.w3.org/2001/XMLSchema-instance".into()));
    }
    for i in 0..n {
        if let Some(p) = parents[i] {
            els[i].depth = els[p].depth + 1;
            els[i].scope = els[p].scope.clone();
            els[p].kids.push(Kid::El(i));
        }
        match ns_mode.get(i).copied().unwrap_or(0) {
            0 => {}
            1 => els[i].decls.push(("p".into(), format!("urn:{i}"))),
            2 => els[i].decls.push(("".into(), format!("urn:d{i}"))),
            3 => {
                els[i].decls.push(("q".into(), "urn:q".into()));
                els[i].decls.push(("p".into(), "urn:q".into()));
            }
            4 => els[i].decls.push(("".into(), "".into())),
            // The prefix used by the parent now means what the default did, and the other way round.
            _ => {
                let p = els[i].scope.get("p").cloned().unwrap_or_else(|| "urn:p".into());
                let d = els[i].scope.get("").cloned().filter(|d| !d.is_empty()).unwrap_or_else(|| "urn:d".into());
                els[i].decls.push(("p".into(), d));
                els[i].decls.push(("".into(), p));
            }
        }
        let d = els[i].decls.clone();
        for (p, u) in d {
            els[i].scope.insert(p, u);
        }
        // Use a prefix if there is one in scope.
        if els[i].scope.contains_key("p") && ns_mode.get(i).copied().unwrap_or(0) != 2 {
            els[i].prefix = "p".into();
            els[i].ns = els[i].scope["p"].clone();
        } else {
            els[i].ns = els[i].scope.get("").cloned().unwrap_or_default();
        }
    }
    if st.texts {
        let mut c = 0;
        for i in 0..n {
            let old = std::mem::take(&mut els[i].kids);
            let mut new = vec![];
            for k in old {
                new.push(Kid::Text(format!("t{c}")));
                c += 1;
                new.push(k);
            }
            new.push(Kid::Text(format!("t{c}")));
            c += 1;
            els[i].kids = new;
        }
    }
    if st.raws {
        for e in &mut els {
            let old = std::mem::take(&mut e.kids);
            let mut new = vec![Kid::Raw("<!--<e>-->")];
            for k in old {
                new.push(k);
                new.push(Kid::Raw("<?pi </e>?>"));
            }
            e.kids = new;
        }
    }
    let mut t = Tree {
        els,
        text: String::new(),
        pos: vec![],
    };
    let mut s = String::new();
    print(&t, 0, st, &mut s);
    t.text = s;
    t
}

fn print(t: &Tree, i: usize, st: Style, o: &mut String) {
    let e = &t.els[i];
    let q = |e: &E| {
        if e.prefix.is_empty() {
            e.local.clone()
        } else {
            format!("{}:{}", e.prefix, e.local)
        }
    };
    o.push('<');
    o.push_str(&q(e));
    for (p, u) in &e.decls {
        if p.is_empty() {
            o.push_str(&format!(" xmlns=\"{u}\""));
        } else {
            o.push_str(&format!(" xmlns:{p}=\"{u}\""));
        }
    }
    for (k, v) in &e.attrs {
        if st.newlines {
            o.push_str("\n  ");
        } else {
            o.push(' ');
        }
        o.push_str(&format!("{k}=\"{v}\""));
    }
    if e.kids.is_empty() {
        o.push_str("/>");
        return;
    }
    o.push('>');
    for k in &e.kids {
        match k {
            Kid::El(c) => print(t, *c, st, o),
            Kid::Text(x) => {
                o.push_str(x);
                if st.newlines {
                    o.push('\n');
                }
            }
            Kid::Raw(r) => o.push_str(r),
        }
    }
    o.push_str(&format!("</{}>", q(e)));
}

impl Tree {
    fn text_of(&self, k: &Kid, nl: bool) -> String {
        match k {
            Kid::Text(t) => {
                if nl {
                    format!("{t}\n")
                } else {
                    t.clone()
                }
            }
            _ => String::new(),
        }
    }
}

// ---------------------------------------------------------------- the visiting code under exploration

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Enter(usize, String), // nesting level of the handler, expanded name
    Attr(usize, String, String, bool),
    /// characters delivered; fail?
    Chars(usize, String, bool, TextPosition),
    /// child announced to handler at level; what the handler does
    Child(usize, String, Act),
    /// nested read finished
    Done(usize, bool),
    Str(usize, Result<String, ()>),
    /// after the child was dealt with: the handler's verdict
    Verdict(usize, V),
    /// what the handle says about itself
    BadHandle(String),
    /// what a read to the end says about the element it has read: name, scope, position of the end tag
    End(String),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    Read,
    Ignore,
    Pass,
    Str,
    Fail,
    Bool,
    Peek,
    /// like `Peek`, but panics, which is caught
    Panic,
}
const ACTS: [Act; 8] = [
    Act::Read,
    Act::Ignore,
    Act::Pass,
    Act::Str,
    Act::Fail,
    Act::Bool,
    Act::Peek,
    Act::Panic,
];
#[derive(Clone, Copy, Debug, PartialEq)]
enum V {
    /// Ok(None); swallows an inner error if there was one
    Ok,
    /// returns its own error
    Fail,
    /// propagates the inner error
    Prop,
}

struct Sh<'c> {
    ctx: &'c mut Ctx,
    log: Vec<Ev>,
    budget: usize,
    tree: Arc<Tree>,
    handle: bool,
    /// tag of the next user error
    tag: usize,
    id_by_pos: bool,
    /// id of the error that was raised, where (element id) and of which kind
    raised: Vec<(usize, &'static str)>,
}
thread_local! { static CUR: Cell<*mut ()> = Cell::new(std::ptr::null_mut()); }
fn sh() -> &'static mut Sh<'static> {
    // SAFETY: set by `run` for the duration of the read; single-threaded access, never held across calls.
    unsafe { &mut *(CUR.with(|c| c.get()) as *mut Sh<'static>) }
}
/// A decision with a default; deviations from it are budgeted.
fn dev(n: usize) -> usize {
    let s = sh();
    if s.budget == 0 {
        return 0;
    }
    let c = s.ctx.choose(n);
    if c != 0 {
        s.budget -= 1;
    }
    c
}

#[derive(Debug)]
struct UserError(usize);
impl std::fmt::Display for UserError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "user-error-{}", self.0)
    }
}
impl std::error::Error for UserError {}
fn user_error() -> Box<UserError> {
    let s = sh();
    s.tag += 1;
    Box::new(UserError(s.tag))
}

struct Vis {
    level: usize,
}

fn check_handle(e: &ElementReader<'_>) {
    let s = sh();
    if !s.handle {
        return;
    }
    // The element is identified by its x attribute being its id; accessors cannot see attributes, so
    // identify by the expected document order instead: the harness checks names in the log, and here the
    // handle's depth and scope against the set of elements with that name and depth.
    let name = e.name();
    let en = e.expanded_name();
    let ns: BTreeMap<String, String> = e
        .namespace()
        .0
        .iter()
        .map(|(a, b)| (a.clone(), b.clone()))
        .collect();
    s.log.push(Ev::BadHandle(format!(
        "{}|{}|{}|{}|{}|{}|{}",
        name.prefix.unwrap_or(""),
        name.local_name,
        name.namespace.unwrap_or(""),
        en.namespace,
        en.local_name,
        e.depth(),
        fmt_scope(&ns),
    )));
}
/// Logs what reading an element to its end returned.
fn check_end(r: Result<(xml::name::OwnedName, xml::namespace::Namespace, TextPosition), VisitorError>) -> Result<(), VisitorError> {
    let (name, ns, pos) = r?;
    let s = sh();
    if s.handle {
        let ns: BTreeMap<String, String> = ns.0.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        s.log.push(Ev::End(format!(
            "{}|{}|{}|{}|{pos}",
            name.prefix.as_deref().unwrap_or(""),
            name.local_name,
            name.namespace.as_deref().unwrap_or(""),
            fmt_scope(&ns),
        )));
    }
    Ok(())
}
fn fmt_scope(m: &BTreeMap<String, String>) -> String {
    // The built-in mappings and an explicitly undeclared default are not observable content.
    m.iter()
        .filter(|(p, u)| *p != "xml" && *p != "xmlns" && !u.is_empty())
        .map(|(p, u)| format!("{p}={u};"))
        .collect()
}

impl ElementVisitor for Vis {
    fn attribute(&mut self, name: &ExpandedNameRef<'_>, value: String) -> Result<Option<String>, VisitorError> {
        let d = dev(3);
        let s = sh();
        s.log.push(Ev::Attr(self.level, name.to_string(), value.clone(), d == 1));
        match d {
            1 => Err(VisitorError::Wrap(user_error())),
            2 => Ok(Some(value)),
            _ => Ok(None),
        }
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        let name = child.expanded_name().to_string();
        let act = ACTS[dev(ACTS.len())];
        sh().log.push(Ev::Child(self.level, name, act));
        check_handle(&child);
        let r: Result<(), VisitorError> = match act {
            Act::Read => {
                let r = check_end(child.read_to(&mut Vis { level: self.level + 1 }));
                sh().log.push(Ev::Done(self.level + 1, r.is_ok()));
                r.map(|_| ())
            }
            Act::Ignore => {
                drop(child);
                return Ok(None);
            }
            Act::Pass => return Ok(Some(child)),
            Act::Str => {
                let r = child.read_string();
                sh().log
                    .push(Ev::Str(self.level + 1, r.as_ref().map(|s| s.clone()).map_err(|_| ())));
                r.map(|_| ())
            }
            Act::Bool => {
                // A built-in text type: fails on anything but a boolean, after reading the text.
                let r = bool::deserialize(child);
                sh().log.push(Ev::Str(self.level + 1, r.as_ref().map(|b| b.to_string()).map_err(|_| ())));
                r.map(|_| ())
            }
            Act::Peek | Act::Panic => {
                // Stops at the first child of the nested read.
                struct Stop(bool);
                impl ElementVisitor for Stop {
                    fn attribute(&mut self, _: &ExpandedNameRef<'_>, _: String) -> Result<Option<String>, VisitorError> {
                        Ok(None)
                    }
                    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
                        // descend to the deepest first child, then give up there
                        check_end(c.read_to(&mut Stop(self.0)))?;
                        if self.0 {
                            panic!("visitor");
                        }
                        Err(VisitorError::Wrap(user_error()))
                    }
                }
                let r = match no_panic(|| child.read_to(&mut Stop(act == Act::Panic))) {
                    Ok(r) => check_end(r),
                    Err(p) if p.contains("visitor") => Err(VisitorError::Wrap(user_error())),
                    Err(p) => panic!("{p}"),
                };
                sh().log.push(Ev::Done(self.level + 1, r.is_ok()));
                r.map(|_| ())
            }
            Act::Fail => {
                return Err(VisitorError::Wrap(user_error()));
            }
        };
        match r {
            Ok(()) => {
                let v = if dev(2) == 1 { V::Fail } else { V::Ok };
                sh().log.push(Ev::Verdict(self.level, v));
                if v == V::Fail {
                    return Err(VisitorError::Wrap(user_error()));
                }
                Ok(None)
            }
            Err(e) => {
                // Three reactions to an inner failure; all are explored.
                let v = [V::Ok, V::Prop, V::Fail][sh().ctx.choose(3)];
                sh().log.push(Ev::Verdict(self.level, v));
                match v {
                    V::Ok => Ok(None),
                    V::Prop => Err(e),
                    V::Fail => Err(VisitorError::Wrap(user_error())),
                }
            }
        }
    }
    fn characters(&mut self, s: String, pos: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
        let d = dev(3);
        sh().log.push(Ev::Chars(self.level, s.clone(), d == 1, pos));
        match d {
            1 => Err(user_error()),
            2 => Ok(Some(s)),
            _ => Ok(None),
        }
    }
}

struct Root;
impl Deserialize for Root {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let name = element.expanded_name().to_string();
        sh().log.push(Ev::Enter(0, name));
        check_handle(&element);
        match dev(3) {
            1 => {
                sh().log.push(Ev::Verdict(0, V::Ok));
                return Ok(Root); // ignores everything
            }
            2 => {
                sh().log.push(Ev::Verdict(0, V::Fail));
                return Err(VisitorError::Wrap(user_error()));
            }
            _ => {}
        }
        let r = check_end(element.read_to(&mut Vis { level: 0 }));
        sh().log.push(Ev::Done(0, r.is_ok()));
        match r {
            Ok(_) => {
                let v = if dev(2) == 1 { V::Fail } else { V::Ok };
                sh().log.push(Ev::Verdict(0, v));
                if v == V::Fail {
                    return Err(VisitorError::Wrap(user_error()));
                }
                Ok(Root)
            }
            Err(e) => {
                let v = [V::Prop, V::Ok][sh().ctx.choose(2)];
                sh().log.push(Ev::Verdict(0, v));
                if v == V::Ok {
                    Ok(Root)
                } else {
                    Err(e)
                }
            }
        }
    }
}

// ---------------------------------------------------------------- the reference interpreter

struct Ref<'a> {
    t: &'a Tree,
    log: &'a [Ev],
    i: usize,
    nl: bool,
    handle: bool,
    raised: Option<Raised>,
    states: Vec<(usize, usize, u8)>,
    tag: usize,
    /// Start and end tag of each element.
    starts: &'a [TextPosition],
    ends: &'a [TextPosition],
    /// Where the text at an offset into an element's own text begins, for offsets at which the parser reports one.
    pieces: &'a BTreeMap<(usize, usize), TextPosition>,
}
/// The error an inner failure consists of.
#[derive(Clone, Debug)]
struct Raised {
    /// Element whose handling failed; the expected stack is the path to it.
    at: usize,
    /// Elements below `at` that may still be open (abandoned reads): path of the deepest one.
    deepest: usize,
    tag: Option<usize>,
    /// Where the failure is, if the program can say.
    pos: Option<TextPosition>,
}

type RR<T> = Result<T, String>;
impl<'a> Ref<'a> {
    fn next(&mut self) -> RR<&'a Ev> {
        let e = self.log.get(self.i).ok_or_else(|| "log ends early".to_owned())?;
        self.i += 1;
        Ok(e)
    }
    fn name(&self, e: usize) -> String {
        let e = &self.t.els[e];
        xmlt::qn(&e.ns, &e.local).to_string()
    }
    fn handle_ev(&mut self, e: usize) -> RR<()> {
        if !self.handle {
            return Ok(());
        }
        let el = &self.t.els[e];
        let want = format!(
            "{}|{}|{}|{}|{}|{}|{}",
            el.prefix,
            el.local,
            el.ns,
            el.ns,
            el.local,
            el.depth,
            fmt_scope(&el.scope)
        );
        match self.next()? {
            Ev::BadHandle(h) if *h == want => Ok(()),
            Ev::BadHandle(h) => Err(format!("handle says {h:?}, document says {want:?}")),
            o => Err(format!("expected handle report, got {o:?}")),
        }
    }
    /// An element has been read to its end.
    fn end_ev(&mut self, e: usize) -> RR<()> {
        if !self.handle {
            return Ok(());
        }
        let el = &self.t.els[e];
        let want = format!("{}|{}|{}|{}|{}", el.prefix, el.local, el.ns, fmt_scope(&el.scope), self.ends[e]);
        match self.next()? {
            Ev::End(h) if *h == want => Ok(()),
            Ev::End(h) => Err(format!("at the end of the element the read returned {h:?}, document says {want:?}")),
            o => Err(format!("expected end report, got {o:?}")),
        }
    }
    fn user(&mut self, at: usize, deepest: usize) {
        self.tag += 1;
        self.raised = Some(Raised {
            at,
            deepest,
            tag: Some(self.tag),
            pos: if at == 0 { None } else { Some(self.starts[at]) },
        });
    }
    /// Checks a read of element `e` into a visitor at `level`. Ok(true) if the read succeeds.
    fn read(&mut self, e: usize, level: usize) -> RR<bool> {
        let el = &self.t.els[e];
        for (k, v) in &el.attrs {
            self.states.push((e, level, 0));
            match self.next()? {
                Ev::Attr(l, n, val, failed) if *l == level && n == el.names.get(k).unwrap_or(k) && val == v => {
                    if *failed {
                        self.user(e, e);
                        return Ok(false);
                    }
                }
                o => return Err(format!("expected attribute {k}={v:?} at level {level}, got {o:?}")),
            }
        }
        // group kids: merge adjacent texts (raws contribute nothing but may split)
        let mut pending = String::new();
        let mut flushed = 0;
        let mut k = 0;
        while k <= el.kids.len() {
            let kid = el.kids.get(k);
            match kid {
                Some(Kid::Text(_)) => pending.push_str(&self.t.text_of(kid.unwrap(), self.nl)),
                Some(Kid::Raw(_)) => {}
                _ => {
                    // flush text
                    let mut got = String::new();
                    while got.len() < pending.len() {
                        self.states.push((e, level, 1));
                        match self.next()? {
                            Ev::Chars(l, s, failed, pos) if *l == level && pending[got.len()..].starts_with(s.as_str()) => {
                                // The position is that of the piece, as far as the parser tells.
                                if let Some(want) = self.pieces.get(&(e, flushed + got.len())) {
                                    if want != pos {
                                        return Err(format!("characters {s:?} reported at {pos}, they are at {want}"));
                                    }
                                }
                                got.push_str(s);
                                if *failed {
                                    self.user(e, e);
                                    self.raised.as_mut().unwrap().pos = Some(*pos);
                                    return Ok(false);
                                }
                            }
                            o => {
                                return Err(format!(
                                    "expected characters {:?} at level {level}, got {o:?}",
                                    &pending[got.len()..]
                                ))
                            }
                        }
                    }
                    flushed += pending.len();
                    pending.clear();
                    if let Some(Kid::El(c)) = kid {
                        if !self.child(*c, level)? {
                            return Ok(false);
                        }
                    }
                }
            }
            k += 1;
        }
        self.end_ev(e)?;
        Ok(true)
    }
    /// Content of `e` for a string read: Ok(text) or Err(first child element).
    fn string(&self, e: usize) -> Result<String, usize> {
        let mut s = String::new();
        for k in &self.t.els[e].kids {
            match k {
                Kid::El(c) => return Err(*c),
                k => s.push_str(&self.t.text_of(k, self.nl)),
            }
        }
        Ok(s)
    }
    fn child(&mut self, c: usize, level: usize) -> RR<bool> {
        let want = self.name(c);
        self.states.push((c, level, 2));
        let act = match self.next()? {
            Ev::Child(l, n, a) if *l == level && *n == want => *a,
            o => return Err(format!("expected child {want} at level {level}, got {o:?}")),
        };
        self.handle_ev(c)?;
        let ok = match act {
            Act::Ignore | Act::Pass => return Ok(true),
            Act::Fail => {
                self.user(c, c);
                return Ok(false);
            }
            Act::Read => {
                let ok = self.read(c, level + 1)?;
                match self.next()? {
                    Ev::Done(l, r) if *l == level + 1 && *r == ok => {}
                    o => return Err(format!("expected end of {want} (ok={ok}), got {o:?}")),
                }
                ok
            }
            Act::Peek | Act::Panic => {
                let kids: Vec<usize> = self.t.els[c]
                    .kids
                    .iter()
                    .filter_map(|k| if let Kid::El(x) = k { Some(*x) } else { None })
                    .collect();
                let ok = kids.is_empty();
                if !ok {
                    // deepest first child chain
                    let mut d = kids[0];
                    while let Some(Kid::El(x)) = self.t.els[d].kids.iter().find(|k| matches!(k, Kid::El(_))) {
                        d = *x;
                    }
                    // (A panic is turned into an error by who caught it.)
                    // (The deepest one was read to its end.)
                    self.end_ev(d)?;
                    self.user(if act == Act::Panic { c } else { d }, d);
                } else {
                    self.end_ev(c)?;
                }
                match self.next()? {
                    Ev::Done(l, r) if *l == level + 1 && *r == ok => {}
                    o => return Err(format!("expected end of {want} (ok={ok}), got {o:?}")),
                }
                ok
            }
            Act::Str | Act::Bool => {
                let (exp, raised): (Result<String, ()>, _) = match self.string(c) {
                    Ok(s) => {
                        if act == Act::Bool {
                            // texts are never booleans in this model
                            (
                                Err(()),
                                Some(Raised {
                                    at: c,
                                    deepest: c,
                                    tag: None,
                                    pos: Some(self.starts[c]),
                                }),
                            )
                        } else {
                            (Ok(s), None)
                        }
                    }
                    Err(ch) => (
                        Err(()),
                        Some(Raised {
                            at: ch,
                            deepest: ch,
                            tag: None,
                            pos: Some(self.starts[ch]),
                        }),
                    ),
                };
                match self.next()? {
                    Ev::Str(l, r) if *l == level + 1 && *r == exp => {}
                    o => return Err(format!("string of {want}: expected {exp:?}, got {o:?}")),
                }
                if raised.is_some() {
                    self.raised = raised;
                }
                exp.is_ok()
            }
        };
        self.states.push((c, level, 3));
        match self.next()? {
            Ev::Verdict(l, v) if *l == level => Ok(match v {
                V::Ok => true,
                V::Prop => false,
                V::Fail => {
                    let deep = if ok {
                        c
                    } else {
                        self.raised.as_ref().map_or(c, |r| r.deepest)
                    };
                    self.user(c, deep);
                    false
                }
            }),
            o => Err(format!("expected verdict on {want}, got {o:?}")),
        }
    }
    fn root(&mut self) -> RR<bool> {
        match self.next()? {
            Ev::Enter(0, n) if *n == self.name(0) => {}
            o => return Err(format!("expected root, got {o:?}")),
        }
        self.handle_ev(0)?;
        if let Some(Ev::Verdict(0, v)) = self.log.get(self.i) {
            self.i += 1;
            if *v == V::Fail {
                self.user(0, 0);
            }
            return Ok(*v == V::Ok);
        }
        let ok = self.read(0, 0)?;
        match self.next()? {
            Ev::Done(0, r) if *r == ok => {}
            o => return Err(format!("expected end of root (ok={ok}), got {o:?}")),
        }
        match self.next()? {
            Ev::Verdict(0, V::Ok) => Ok(true),
            Ev::Verdict(0, V::Prop) => Ok(false),
            Ev::Verdict(0, V::Fail) => {
                self.user(0, 0);
                Ok(false)
            }
            o => Err(format!("expected root verdict, got {o:?}")),
        }
    }
}

/// Start positions of every element and of every piece of text according to the underlying parser.
fn positions(t: &Tree) -> (Vec<TextPosition>, Vec<TextPosition>, BTreeMap<(usize, usize), TextPosition>) {
    use xml::common::Position;
    let mut r = xml::reader::EventReader::new(t.text.as_bytes());
    use xml::reader::XmlEvent as X;
    let mut out = vec![];
    let mut ends = vec![];
    let mut pieces = BTreeMap::new();
    let mut open: Vec<(usize, usize)> = vec![];
    loop {
        match r.next() {
            Ok(X::StartElement { .. }) => {
                open.push((out.len(), 0));
                out.push(r.position());
                ends.push(r.position());
            }
            Ok(X::EndElement { .. }) => {
                let (e, _) = open.pop().expect("engine: end of nothing");
                ends[e] = r.position();
            }
            Ok(X::Characters(s)) | Ok(X::CData(s)) | Ok(X::Whitespace(s)) => {
                let o = open.last_mut().expect("engine: text outside");
                pieces.insert(*o, r.position());
                o.1 += s.len();
            }
            Ok(X::EndDocument) => return (out, ends, pieces),
            Ok(_) => {}
            Err(e) => panic!("engine: harness document rejected by xml-rs: {e}: {}", t.text),
        }
    }
}

pub fn path_to(t: &Tree, e: usize) -> Vec<usize> {
    let mut v = vec![e];
    let mut c = e;
    while let Some(p) = t.els[c].parent {
        v.push(p);
        c = p;
    }
    v.reverse();
    v
}

/// Checks the printed form of an error: message and position first, then the stack innermost first.
pub fn check_display(e: &Error) -> Result<(), String> {
    let d = e.to_string();
    let (head, tail) = match d.find("\n\nXML element stack:\n") {
        Some(i) => (&d[..i], &d[i + "\n\nXML element stack:\n".len()..]),
        None => (d.as_str(), ""),
    };
    let at = head.rfind(" @ ").ok_or_else(|| format!("no position in {head:?}"))?;
    let pos = &head[at + 3..];
    let ok = pos.split_once(':').map_or(false, |(a, b)| a.parse::<u64>().is_ok() && b.parse::<u64>().is_ok());
    if !ok {
        return Err(format!("bad position {pos:?}"));
    }
    let mut want = Vec::new();
    for (i, s) in e.stack().iter().enumerate().rev() {
        let q = match &s.name.prefix {
            Some(p) if !p.is_empty() => format!("{p}:{}", s.name.local_name),
            _ => s.name.local_name.clone(),
        };
        want.push((i, format!("<{q}> @ {}", s.pos)));
    }
    let got: Vec<&str> = tail.lines().collect();
    if got.len() != want.len() {
        return Err(format!("{} stack lines, {} stack elements: {d:?}", got.len(), want.len()));
    }
    for ((i, w), g) in want.iter().zip(got) {
        let (n, rest) = g.trim_start().split_once(": ").ok_or_else(|| format!("bad line {g:?}"))?;
        let okn = n.parse::<usize>().ok() == Some(*i) || usize::from_str_radix(n, 16).ok() == Some(*i);
        if !okn || rest != w {
            return Err(format!("line {g:?}, expected {i}: {w}"));
        }
    }
    Ok(())
}

fn check_error(t: &Tree, pos: &[TextPosition], e: &Error, raised: &Raised) -> Result<(), String> {
    let stack: Vec<String> = e
        .stack()
        .iter()
        .map(|s| format!("{}:{}@{}", s.name.prefix.as_deref().unwrap_or(""), s.name.local_name, s.pos))
        .collect();
    let fmt = |p: &[usize]| -> Vec<String> {
        p.iter()
            .map(|&i| format!("{}:{}@{}", t.els[i].prefix, t.els[i].local, pos[i]))
            .collect()
    };
    let full = path_to(t, raised.deepest);
    let short = path_to(t, raised.at);
    // Abandoned descendants may or may not be listed.
    let ok = (short.len()..=full.len().max(short.len())).any(|l| {
        let p = if l <= short.len() { &short[..] } else { &full[..l] };
        fmt(p) == stack
    });
    if !ok {
        return Err(format!("stack {stack:?}, expected {:?} (or down to {:?})", fmt(&short), fmt(&full)));
    }
    check_display(e)?;
    let d = e.to_string();
    if let Some(p) = raised.pos {
        let head = d.lines().next().unwrap_or("");
        if !head.ends_with(&format!(" @ {p}")) {
            return Err(format!("displayed {d:?}, but the failure is at {p}"));
        }
    }
    if let Some(tag) = raised.tag {
        if !d.starts_with(&format!("user-error-{tag} @ ")) {
            return Err(format!("expected user error {tag}, got {d:?}"));
        }
        let mut src = std::error::Error::source(e);
        let mut found = false;
        while let Some(s) = src {
            if let Some(u) = s.downcast_ref::<UserError>() {
                found = u.0 == tag;
            }
            src = s.source();
        }
        if !found {
            return Err("user error not reachable through source()".into());
        }
    }
    Ok(())
}

fn run(ctx: &mut Ctx, t: Tree, st: Style, focus: Focus, budget: usize) -> R {
    let tree = Arc::new(t);
    let (pos, ends, pieces) = positions(&tree);
    ctx.describe(|| format!("document: {}", tree.text));
    let mut s = Sh {
        ctx,
        log: Vec::with_capacity(64),
        budget,
        tree: tree.clone(),
        handle: focus == Focus::Handle,
        tag: 0,
        id_by_pos: false,
        raised: vec![],
    };
    let _ = (&s.tree, s.id_by_pos, &s.raised);
    CUR.with(|c| c.set(&mut s as *mut Sh<'_> as *mut ()));
    let r: Result<Result<Root, Error>, String> = no_panic(|| read(tree.text.as_bytes()));
    CUR.with(|c| c.set(std::ptr::null_mut()));
    let log = std::mem::take(&mut s.log);
    drop(s);
    ctx.describe(|| format!("callbacks and decisions: {log:?}"));
    let r = match r {
        Ok(r) => r,
        Err(p) => fail!("{p}"),
    };
    let mut rf = Ref {
        t: &tree,
        log: &log,
        i: 0,
        nl: st.newlines,
        handle: focus == Focus::Handle,
        raised: None,
        states: vec![],
        tag: 0,
        starts: &pos,
        ends: &ends,
        pieces: &pieces,
    };
    let ok = match rf.root() {
        Ok(b) => b,
        Err(e) => fail!("out of sync: {e}"),
    };
    if rf.i != log.len() {
        fail!("extra callbacks: {:?}", &log[rf.i..]);
    }
    for x in std::mem::take(&mut rf.states) {
        ctx.state(&(tree.text.as_str(), x));
    }
    ctx.compared += log.len() as u64;
    match (&r, ok) {
        (Ok(_), true) => ctx.outcome("read-ok"),
        (Err(_), false) => ctx.outcome("read-error"),
        (Ok(_), false) => fail!("read succeeded although the visiting code failed"),
        (Err(e), true) => fail!("read failed although the visiting code accepted everything: {e}"),
    }
    if focus == Focus::Errors {
        if let Err(e) = &r {
            let Some(raised) = &rf.raised else {
                fail!("error without a raiser: {e}")
            };
            if let Err(m) = check_error(&tree, &pos, e, raised) {
                fail!("wrong error context: {m}\nerror: {e}");
            }
        }
    }
    Ok(())
}

fn sync_model(ctx: &mut Ctx, focus: Focus, maxn: usize, budget: usize) -> R {
    let n = ctx.range(1, maxn);
    let shape = choose_shape(ctx, n);
    let st = Style {
        same_names: ctx.flip(),
        texts: ctx.flip(),
        raws: if n <= 3 { ctx.flip() } else { false },
        newlines: if focus == Focus::Errors { ctx.flip() } else { false },
        xattrs: if focus == Focus::Sync && n <= 3 { ctx.flip() } else { false },
        bare: if matches!(focus, Focus::Sync | Focus::Handle) && n <= 3 { ctx.flip() } else { false },
    };
    let mut modes = vec![];
    let focus_deep = ctx.thorough();
    if focus == Focus::Handle {
        for i in 0..n {
            modes.push(if i < 3 || focus_deep { ctx.choose(6) } else { 0 });
        }
    } else if focus == Focus::Errors && n <= 3 {
        modes.push(ctx.choose(2));
    }
    let t = build(&shape, st, &modes);
    run(ctx, t, st, focus, budget)
}

// ---------------------------------------------------------------- size ladders

/// Skips, strings and errors at many depths, widths and lengths.
fn ladder(ctx: &mut Ctx, focus: Focus) -> R {
    let sizes: Vec<usize> = ladder_sizes(ctx.by_tier(300, 3000));
    let n = *ctx.pick(&sizes);
    let kind = ctx.choose(7);
    many(ctx, focus, kind, n)
}
/// The same next to powers of two (the parser takes quadratic time for attributes and for depth).
fn big(ctx: &mut Ctx, focus: Focus, to: u32) -> R {
    let kind = *ctx.pick(&[0, 1, 2, 5, 6]);
    let n = *ctx.pick(&crate::lex::big_sizes(10, if kind == 0 { 12 } else { to }));
    many(ctx, focus, kind, n).map_err(|mut f| {
        f.what = f.what.chars().take(500).collect();
        f
    })
}
fn many(ctx: &mut Ctx, focus: Focus, kind: usize, n: usize) -> R {
    let mut doc = String::from("<r>");
    let depth = if n > 400 { 400 } else { n };
    match kind {
        // one deep ignored subtree
        0 => {
            for i in 0..n {
                doc.push_str(&format!("<a x=\"{i}\">t<r/>"));
            }
            for _ in 0..n {
                doc.push_str("</a>");
            }
        }
        // many siblings
        1 => {
            for i in 0..n {
                doc.push_str(&format!("<a x=\"{i}\"/>"));
            }
        }
        // long text
        2 => {
            for i in 0..n {
                doc.push((b'a' + (i % 26) as u8) as char);
            }
        }
        // many attributes on a child
        3 => {
            doc.push_str("<a");
            for i in 0..n {
                doc.push_str(&format!(" x{i}=\"{i}\""));
            }
            doc.push_str("/>");
        }
        // deep, read recursively
        4 => {
            for _ in 0..depth {
                doc.push_str("<a>");
            }
            for _ in 0..depth {
                doc.push_str("</a>");
            }
        }
        // many lines
        6 => doc.push_str(&"\n".repeat(n)),
        // text pieces split by comments and CDATA
        _ => {
            for i in 0..n {
                doc.push_str(&format!("{}<!---->", i % 10));
                if i % 3 == 0 {
                    doc.push_str("<![CDATA[<]]>");
                }
            }
        }
    }
    doc.push_str("<z/></r>");
    ctx.describe(|| format!("kind {kind}, size {n}: {} bytes", doc.len()));
    ctx.state(&(kind, n));
    #[derive(Default)]
    struct Log {
        attrs: usize,
        els: Vec<String>,
        text: String,
        maxdepth: usize,
        rec: bool,
        string: bool,
    }
    impl ElementVisitor for Log {
        fn attribute(&mut self, n: &ExpandedNameRef<'_>, v: String) -> Result<Option<String>, VisitorError> {
            if n.local_name != format!("x{}", self.attrs) || v != self.attrs.to_string() {
                return Err(VisitorError::Wrap("attribute out of order".into()));
            }
            self.attrs += 1;
            Ok(None)
        }
        fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
            self.els.push(c.expanded_name().local_name.to_owned());
            self.maxdepth = self.maxdepth.max(c.depth());
            if self.rec {
                let mut l = Log {
                    rec: true,
                    ..Default::default()
                };
                c.read_to(&mut l)?;
                self.maxdepth = self.maxdepth.max(l.maxdepth);
                self.attrs = l.attrs;
                return Ok(None);
            }
            Ok(Some(c))
        }
        fn characters(&mut self, s: String, _: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
            self.text.push_str(&s);
            Ok(None)
        }
    }
    struct D(Log);
    impl Deserialize for D {
        fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
            let mut l = Log::default();
            l.rec = REC.with(|r| r.get());
            let _ = l.string;
            e.read_to(&mut l)?;
            Ok(D(l))
        }
    }
    thread_local! { static REC: Cell<bool> = Cell::new(false); }
    REC.with(|r| r.set(kind == 4 || kind == 3));
    let d: D = match read(doc.as_bytes()) {
        Ok(d) => d,
        Err(e) => fail!("well-formed document refused: {}", e.to_string().lines().next().unwrap_or("")),
    };
    let l = d.0;
    let (els, text, maxd) = match kind {
        0 => ((n > 0) as usize, String::new(), 2),
        1 => (n, String::new(), 2),
        2 => (0, (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect(), 2),
        3 => (1, String::new(), 2),
        4 => ((depth > 0) as usize, String::new(), depth.max(1) + 1),
        6 => (0, "\n".repeat(n), 2),
        _ => (
            0,
            (0..n)
                .map(|i| format!("{}{}", i % 10, if i % 3 == 0 { "<" } else { "" }))
                .collect(),
            2,
        ),
    };
    ensure!(
        l.els.len() == els + 1 && l.els.last().map(|s| s.as_str()) == Some("z"),
        "children seen: {} of {}",
        l.els.len(),
        els + 1
    );
    ensure!(l.text == text, "text {} bytes of {}", l.text.len(), text.len());
    ensure!(l.maxdepth == maxd, "depth {} of {}", l.maxdepth, maxd);
    // The same content through read_string.
    if kind == 2 || kind == 5 {
        let doc2 = doc.replace("<z/>", "");
        let s: String = match from_str(&doc2) {
            Ok(s) => s,
            Err(e) => fail!("{e}"),
        };
        ensure!(s == text, "string of {} bytes, expected {}", s.len(), text.len());
    }
    // An error at the far end has the right stack.
    if focus == Focus::Errors {
        let bad = doc.replace("<z/>", "<z>&bad;</z>");
        match read::<_, D>(bad.as_bytes()) {
            Ok(_) => fail!("malformed document accepted"),
            Err(e) => {
                let names: Vec<&str> = e.stack().iter().map(|s| s.name.local_name.as_str()).collect();
                ensure!(names == ["r", "z"], "stack {names:?}");
                let z = e.stack()[1].pos;
                let want = if kind == 6 && n > 0 { (n as u64, 0) } else { (0, doc.find("<z").expect("z") as u64) };
                ensure!((z.row, z.column) == want, "z at {}:{}, but it is at {want:?}", z.row, z.column);
                if let Err(m) = check_display(&e) {
                    fail!("{m}");
                }
            }
        }
        if kind == 4 {
            let bad = doc.replacen("</a>", "&bad;</a>", 1);
            if depth > 0 {
                match read::<_, D>(bad.as_bytes()) {
                    Ok(_) => fail!("malformed document accepted"),
                    Err(e) => {
                        ensure!(e.stack().len() == depth + 1, "stack of {}, expected {}", e.stack().len(), depth + 1);
                        for (i, s) in e.stack().iter().enumerate() {
                            let col = if i == 0 { 0 } else { 3 * i as u64 };
                            ensure!(s.pos.column == col && s.pos.row == 0, "element {i} at {:?}", s.pos);
                        }
                        if let Err(m) = check_display(&e) {
                            fail!("{m}");
                        }
                    }
                }
            }
        }
    }
    ctx.outcome("ok");
    Ok(())
}

pub fn ladder_sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..40.min(max + 1)).collect();
    let mut p = 32;
    while p <= 16 * max {
        for d in [p - 1, p, p + 1] {
            if d <= max && !v.contains(&d) {
                v.push(d);
            }
        }
        p *= 2;
    }
    for d in [50, 99, 100, 101, 200, 300, 500, 999, 1000, 1001] {
        if d <= max && !v.contains(&d) {
            v.push(d);
        }
    }
    v.sort();
    v
}

fn deep_skip(ctx: &mut Ctx) -> R {
    // Deeper than a recursive skip could go on the small stack this runs on.
    let n = *ctx.pick(&[1_000usize, 5_000, 12_000]);
    let how = ctx.choose(3);
    let mut doc = String::with_capacity(n * 7 + 100);
    doc.push_str("<r><k>");
    for _ in 0..n {
        doc.push_str("<a>");
    }
    for _ in 0..n {
        doc.push_str("</a>");
    }
    doc.push_str("</k><z/></r>");
    ctx.describe(|| format!("depth {n}, way of not reading it {how}"));
    ctx.state(&(n, how));
    thread_local! { static HOW: Cell<usize> = Cell::new(0); }
    struct V(Vec<String>);
    impl ElementVisitor for V {
        fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
            let n = c.expanded_name().local_name.to_owned();
            self.0.push(n.clone());
            if n == "k" {
                return match HOW.with(|h| h.get()) {
                    0 => Ok(None),
                    1 => Ok(Some(c)),
                    _ => {
                        let _ = c.read_string();
                        Ok(None)
                    }
                };
            }
            Ok(None)
        }
    }
    struct D(Vec<String>);
    impl Deserialize for D {
        fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
            let mut v = V(vec![]);
            e.read_to(&mut v)?;
            Ok(D(v.0))
        }
    }
    let r = std::thread::Builder::new()
        .stack_size(192 << 10)
        .spawn(move || {
            HOW.with(|h| h.set(how));
            from_str::<D>(&doc)
                .map(|d| d.0)
                .map_err(|e| e.to_string().lines().next().unwrap_or("").to_owned())
        })
        .unwrap()
        .join();
    match r {
        Ok(Ok(d)) => ensure!(d == ["k", "z"], "children {d:?}"),
        Ok(Err(e)) => fail!("refused: {e}"),
        Err(_) => fail!("panicked"),
    }
    ctx.outcome("ok");
    Ok(())
}

/// Failures of every kind far down, and after far-down failures that were swallowed.
fn deep_errors(ctx: &mut Ctx) -> R {
    let d = 1 + *ctx.pick(&ladder_sizes(ctx.by_tier(300, 1030)));
    let kind = ctx.choose(8);
    let lines = ctx.flip();
    let prefixed = ctx.flip();
    // Level whose visitor meets the failure with something else than passing it on: 0 is nobody.
    let level = *ctx.pick(&[0, 1, 2, d / 2, d.saturating_sub(1), d]);
    let reaction = if level == 0 { 0 } else { 1 + ctx.choose(2) };
    if level > d || (reaction == 1 && (5..8).contains(&kind)) {
        // (What is malformed stays so.)
        return Ok(());
    }
    let nl = if lines { "\n" } else { "" };
    let pre = if prefixed { "p:" } else { "" };
    let mut doc = format!("<r xmlns:p=\"u\">{nl}");
    let at = |doc: &str| -> (u64, u64) {
        let row = doc.matches('\n').count();
        let col = doc.len() - doc.rfind('\n').map_or(0, |i| i + 1);
        (row as u64, col as u64)
    };
    let mut path = vec![("r".to_owned(), (0, 0))];
    for i in 1..d {
        let n = format!("{pre}{}", ["a", "b", "c"][i % 3]);
        path.push((n.clone(), at(&doc)));
        doc.push_str(&format!("<{n}>{nl}"));
    }
    path.push(("leaf".to_owned(), at(&doc)));
    doc.push_str("<leaf x=\"1\">");
    let inner = at(&doc);
    match kind {
        3 => doc.push_str("<k/>"),
        5 => doc.push_str("&bad;"),
        _ => doc.push_str("text"),
    }
    let cut = doc.len();
    doc.push_str("</leaf>");
    let mut after: Vec<(u64, u64)> = vec![(0, 0); d + 1];
    for i in (1..=d).rev() {
        if i < d {
            doc.push_str(&format!("</{}>{nl}", path[i].0));
        }
        after[i] = at(&doc);
        doc.push_str("<z/>");
    }
    doc.push_str("</r>");
    ctx.describe(|| format!("depth {d}, failure {kind}, lines {lines}, prefixed {prefixed}, reaction {reaction} at level {level}"));
    ctx.state(&(d, kind, lines, prefixed, level, reaction));

    #[derive(Clone, Copy)]
    struct How {
        kind: usize,
        level: usize,
        reaction: usize,
        d: usize,
    }
    thread_local! { static HOW: Cell<How> = Cell::new(How { kind: 0, level: 0, reaction: 0, d: 0 }); }
    struct Leaf(usize);
    impl ElementVisitor for Leaf {
        fn attribute(&mut self, _: &ExpandedNameRef<'_>, _: String) -> Result<Option<String>, VisitorError> {
            if self.0 == 0 {
                return Err(VisitorError::Wrap("deep".into()));
            }
            Ok(None)
        }
        fn characters(&mut self, _: String, _: TextPosition) -> Result<Option<String>, static_xml::BoxedStdError> {
            if self.0 == 1 {
                return Err("deep".into());
            }
            Ok(None)
        }
    }
    /// The visitor that reads an element of this level.
    struct V(usize, bool);
    impl ElementVisitor for V {
        fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
            let h = HOW.with(|h| h.get());
            let n = c.expanded_name().local_name.to_owned();
            if n == "z" {
                // Reached only after the failure was swallowed.
                return if self.1 { Err(VisitorError::Wrap("late".into())) } else { Ok(None) };
            }
            let r = if n == "leaf" {
                match h.kind {
                    2 => Err(VisitorError::Wrap("deep".into())),
                    3 => c.read_string().map(|_| ()),
                    4 => bool::deserialize(c).map(|_| ()),
                    k => c.read_to(&mut Leaf(k)).map(|_| ()),
                }
            } else {
                c.read_to(&mut V(self.0 + 1, false)).map(|_| ())
            };
            match r {
                Err(_) if h.level == self.0 + 1 && h.reaction == 1 => {
                    self.1 = true;
                    Ok(None)
                }
                Err(_) if h.level == self.0 + 1 && h.reaction == 2 => Err(VisitorError::Wrap("replaced".into())),
                r => r.map(|_| None),
            }
        }
    }
    struct D;
    impl Deserialize for D {
        fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
            e.read_to(&mut V(0, false))?;
            Ok(D)
        }
    }
    struct Broken<'a>(&'a [u8]);
    impl std::io::Read for Broken<'_> {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.0.len());
            if n == 0 {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "device gone"));
            }
            b[..n].copy_from_slice(&self.0[..n]);
            self.0 = &self.0[n..];
            Ok(n)
        }
    }
    HOW.with(|h| h.set(How { kind, level, reaction, d }));
    let r = no_panic(|| match kind {
        6 => read::<_, D>(&doc.as_bytes()[..cut]),
        7 => read::<_, D>(Broken(&doc.as_bytes()[..cut])),
        _ => read::<_, D>(doc.as_bytes()),
    });
    let e = match r {
        Ok(Ok(_)) => fail!("the failure is not reported"),
        Ok(Err(e)) => e,
        Err(p) => fail!("{p}"),
    };
    // What is expected on the stack, and where.
    let mut want = path.clone();
    let (mut msg, mut pos) = match kind {
        0 | 2 => (Some("deep"), Some(path[d].1)),
        1 => (Some("deep"), Some(inner)),
        3 => {
            want.push(("k".to_owned(), inner));
            (None, Some(inner))
        }
        4 => (None, Some(path[d].1)),
        _ => (None, None),
    };
    if reaction == 1 {
        want.truncate(level);
        want.push(("z".to_owned(), after[level]));
        msg = Some("late");
        pos = Some(after[level]);
    } else if reaction == 2 {
        msg = Some("replaced");
        pos = Some(path[level].1);
    }
    let got: Vec<(String, (u64, u64))> = e
        .stack()
        .iter()
        .map(|s| {
            let n = match &s.name.prefix {
                Some(p) if !p.is_empty() => format!("{p}:{}", s.name.local_name),
                _ => s.name.local_name.clone(),
            };
            (n, (s.pos.row, s.pos.column))
        })
        .collect();
    // (Below where it was replaced, what was abandoned may or may not be listed.)
    let least = if reaction == 2 { level + 1 } else { want.len() };
    if got.len() < least || got.len() > want.len() || got[..] != want[..got.len()] {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        fail!(
            "stack of {}, expected {} to {}; from {i} on it has {:?}, expected {:?}",
            got.len(),
            least,
            want.len(),
            got.get(i),
            want.get(i)
        );
    }
    if let Err(m) = check_display(&e) {
        fail!("{}", m.chars().take(300).collect::<String>());
    }
    let shown = e.to_string();
    let head = shown.lines().next().unwrap_or("");
    if let Some((r, c)) = pos {
        ensure!(head.ends_with(&format!(" @ {}", TextPosition { row: r, column: c })), "shown as {head:?}, but it is at row {r}, column {c}");
    }
    if let Some(m) = msg {
        ensure!(head.starts_with(&format!("{m} @ ")), "shown as {head:?}, but {m:?} was raised");
    }
    ctx.outcome("error");
    Ok(())
}

pub fn models(prop: &str, tier: Tier, v: &mut Vec<Model>) {
    let th = tier == Tier::Thorough;
    match prop {
        "C06" => {
            let (n, b) = if th { (6, 3) } else { (5, 2) };
            v.push(model(
                "sync",
                &format!("documents: all ordered trees of up to {n} elements x names same/unique x text in every gap or none; decisions: up to {b} deviations from 'read everything' plus every reaction to every inner failure"),
                move |c| sync_model(c, Focus::Sync, n, b),
            ));
            let (n2, b2) = if th { (3, 5) } else { (3, 3) };
            v.push(model(
                "sync-deviating",
                &format!("trees of up to {n2} elements, up to {b2} deviations"),
                move |c| sync_model(c, Focus::Sync, n2, b2),
            ));
            v.push(model("size-ladder", "depth, width, text length, attribute count, text pieces over a ladder of sizes", |c| ladder(c, Focus::Sync)));
            let n = if th { 19 } else { 16 };
            v.push(model("many", &format!("2^k-1, 2^k and 2^k+1 (k 10 to {n}; levels to 2^12+1) ignored levels, siblings, characters, pieces of text, lines"), move |c| big(c, Focus::Sync, n)));
            v.push(model("deep-skip", "skipped subtrees 1000..12000 deep on a 192 KiB stack", deep_skip));
        }
        "C07" => {
            let (n, b) = if th { (4, 2) } else { (4, 1) };
            v.push(model(
                "handles",
                &format!("trees of up to {n} elements x 6 namespace-declaration patterns per element (the first three if quick); up to {b} deviations"),
                move |c| sync_model(c, Focus::Handle, n, b),
            ));
            v.push(model("size-ladder", "depth reported over a ladder of sizes", |c| ladder(c, Focus::Handle)));
            let n = if th { 19 } else { 16 };
            v.push(model("many", &format!("2^k-1, 2^k and 2^k+1 (k 10 to {n}; levels to 2^12+1) ignored levels, siblings, characters, pieces of text, lines"), move |c| big(c, Focus::Handle, n)));
        }
        "C08" => {
            let (n, b) = if th { (5, 3) } else { (5, 2) };
            v.push(model(
                "errors",
                &format!("trees of up to {n} elements, single/multi-line tags; up to {b} deviations, every raise point and every propagate/swallow/replace reaction"),
                move |c| sync_model(c, Focus::Errors, n, b),
            ));
            v.push(model("size-ladder", "stack and positions over a ladder of depths", |c| ladder(c, Focus::Errors)));
            v.push(model(
                "deep-errors",
                &format!("a ladder of depths up to {} x 8 ways to fail down there (attribute, characters, child, text with a child, unparsable text, malformed, cut off, I/O) x one line or many x prefixed or not x passed on, or swallowed (and another failure right after) or replaced at any of 5 levels", if th { 1031 } else { 301 }),
                deep_errors,
            ));
            let n = if th { 19 } else { 16 };
            v.push(model("many", &format!("2^k-1, 2^k and 2^k+1 (k 10 to {n}; levels to 2^12+1) ignored levels, siblings, characters, pieces of text, lines"), move |c| big(c, Focus::Errors, n)));
        }
        "C14" => {
            v.push(model("deep-skip", "skipped subtrees 1000..12000 deep on a 192 KiB stack", deep_skip));
        }
        _ => {}
    }
}

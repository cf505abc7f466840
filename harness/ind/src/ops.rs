//! The menu: one document read or written each, in every way that can end, as a deterministic program which calls
//! `tick` wherever the environment or user code gets control (source, destination, visitors, parsers, serializers).

use crate::sched::tick;
use static_xml::de::{self, Deserialize as _, ElementReader, ElementVisitor, VisitorError};
use static_xml::ser::{self, ElementBuilder, ElementWriter, Serialize as _};
use static_xml::{BoxedStdError, ExpandedNameRef, TextPosition};
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};
use std::cell::RefCell;
use std::fmt::Write as _;
use std::io;

thread_local! {
    /// Errors kept alive, with what they said when they were new.
    static KEPT: RefCell<Vec<(de::Error, String)>> = RefCell::new(Vec::new());
}

fn say(e: &de::Error) -> String {
    format!("{e} / {:?} / {:?}", e.stack(), std::error::Error::source(e).map(|s| s.to_string()))
}
/// Says whether an error which was kept has changed; forgets them.
pub fn kept_changed() -> Option<String> {
    KEPT.with(|k| {
        let k = std::mem::take(&mut *k.borrow_mut());
        k.iter().find(|(e, s)| say(e) != *s).map(|(e, s)| format!("an error said {s:?} and now says {:?}", say(e)))
    })
}

/// A leaf with a callback of its own.
#[derive(Debug, PartialEq, Clone, ParseText, ToText)]
#[static_xml(mode = "std")]
pub struct Leaf(String);
impl std::str::FromStr for Leaf {
    type Err = io::Error;
    fn from_str(s: &str) -> Result<Leaf, io::Error> {
        tick();
        match s {
            "bad" => Err(io::Error::new(io::ErrorKind::Other, "bad leaf")),
            "panic" => panic!("leaf panics"),
            s => Ok(Leaf(s.to_owned())),
        }
    }
}
impl std::fmt::Display for Leaf {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        tick();
        if self.0 == "unprintable" {
            panic!("leaf panics");
        }
        f.write_str(&self.0)
    }
}

#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum Size {
    #[static_xml(rename = "a b")]
    Ab,
    Cd,
    #[static_xml(unknown)]
    Other(String),
}
#[derive(Debug, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "replace")]
pub enum Uni {
    I(i32),
    B(bool),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[static_xml(namespace = "p: urn:1", namespace = "q: urn:2", prefix = "p")]
pub struct Plain {
    #[static_xml(attribute)]
    at: Leaf,
    #[static_xml(attribute, prefix = "q")]
    qa: Option<Leaf>,
    #[static_xml(prefix = "p")]
    one: Leaf,
    #[static_xml(default)]
    dflt: u8,
    many: Vec<Leaf>,
    size: Option<Size>,
    uni: Option<Uni>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[static_xml(namespace = "p: urn:2", default_namespace = "urn:1", prefix = "")]
pub struct Nest {
    #[static_xml(attribute, prefix = "p")]
    id: Leaf,
    #[static_xml(prefix = "")]
    nest: Vec<Nest>,
    #[static_xml(prefix = "p")]
    plain: Option<Box2>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
#[static_xml(namespace = "p: urn:3")]
pub struct Box2 {
    #[static_xml(prefix = "p", attribute)]
    z: Option<Leaf>,
    #[static_xml(text)]
    t: Leaf,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub enum Choice {
    A(Leaf),
    B(Vec<Leaf>),
    C,
    #[static_xml(skip)]
    D(Vec<u8>),
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Flat {
    own: Leaf,
    #[static_xml(flatten)]
    ch: Choice,
    #[static_xml(flatten)]
    b: Box2,
}

/// Types whose tables are as long and have names in common, at other places.
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Twin {
    #[static_xml(attribute)]
    a: Option<Leaf>,
    #[static_xml(attribute)]
    b: Option<Leaf>,
    c: Vec<Leaf>,
    d: Vec<Leaf>,
    #[static_xml(flatten)]
    ch: TwinC,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Twin2 {
    #[static_xml(attribute)]
    b: Option<Leaf>,
    #[static_xml(attribute)]
    c: Option<Leaf>,
    d: Vec<Leaf>,
    e: Vec<Leaf>,
    #[static_xml(flatten)]
    ch: TwinC2,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub enum TwinC {
    E(Leaf),
    F(Vec<Leaf>),
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub enum TwinC2 {
    F(Vec<Leaf>),
    G(Leaf),
}
const TWIN: &str = "<t a='1' b='2' c='3'><c>4</c><d>5</d><e>6</e><F>7</F><d>8</d></t>";

/// Looks at nothing; may fail when it has or hasn't read.
#[derive(Debug)]
struct Lazy;
impl de::Deserialize for Lazy {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        tick();
        match e.name().local_name {
            "bad" => Err(VisitorError::Wrap("bad root".into())),
            "late" => {
                e.read_to(&mut Log::default())?;
                tick();
                Err(VisitorError::Wrap("bad late".into()))
            }
            _ => Ok(Lazy),
        }
    }
}

/// Many of everything.
struct Many(usize, Vec<String>);
impl Many {
    fn new(n: usize) -> Many {
        Many(n, (0..n).map(|i| format!("urn:many:{i}")).collect())
    }
}
impl ser::Serialize for Many {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), ser::Error> {
        for i in 0..self.0 {
            // (The builder's lifetime isn't tied to this value's.)
            let (u, a) = (interned("urn:many:", i), interned("a", i));
            b.namespace("", u);
            b.attribute(ExpandedNameRef { namespace: u, local_name: a }, format!("{i}"))?;
            b.attribute(ExpandedNameRef { namespace: "", local_name: a }, "<".into())?;
        }
        Ok(())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), ser::Error> {
        for u in &self.1 {
            w.element(ExpandedNameRef { namespace: u, local_name: "c" }).start()?.finish()?;
            w.text("&x")?;
        }
        Ok(())
    }
}
fn interned(prefix: &str, i: usize) -> &'static str {
    use std::collections::HashMap;
    static S: std::sync::Mutex<Option<HashMap<String, &'static str>>> = std::sync::Mutex::new(None);
    let mut s = S.lock().unwrap_or_else(|e| e.into_inner());
    let k = format!("{prefix}{i}");
    let m = s.get_or_insert_with(HashMap::new);
    if let Some(v) = m.get(&k) {
        return v;
    }
    let v: &'static str = Box::leak(k.clone().into_boxed_str());
    m.insert(k, v);
    v
}
/// Namespaces wanting the same prefix.
struct Clash(&'static str);
impl ser::Serialize for Clash {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), ser::Error> {
        for u in ["urn:2", "urn:1", "urn:3"] {
            b.namespace(self.0, u);
        }
        b.attribute(A2, self.0.to_owned())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), ser::Error> {
        w.element(C1).start()?.finish()?;
        w.element(C0).start()?.finish()
    }
}
/// Elements within each other.
struct Deep(usize);
impl ser::Serialize for Deep {
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), ser::Error> {
        if self.0 > 0 {
            let mut b = w.element(ExpandedNameRef { namespace: if self.0 % 2 == 0 { "urn:deep" } else { "" }, local_name: "d" });
            b.namespace("p", "urn:deep");
            let mut c = b.start()?;
            Deep(self.0 - 1).write_children(&mut c)?;
            c.finish()?;
        }
        Ok(())
    }
}
fn deep(n: usize, close: bool) -> String {
    let mut s = "<d>".repeat(n);
    if close {
        s += &"</d>".repeat(n);
    }
    s
}
/// Reads without giving up control in between; long results are abridged.
fn big<D: de::Deserialize + std::fmt::Debug>(doc: &str) -> String {
    brief(match static_xml::de::from_str::<D>(doc) {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => format!("err {}", say(&e)),
    })
}
fn big_write(s: ser::Serializer) -> String {
    brief(match s.to_string() {
        Ok(s) => format!("ok {s}"),
        Err(e) => format!("err {e}"),
    })
}
fn brief(s: String) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    format!("{} ({} bytes, {:x})", s.chars().take(200).collect::<String>(), s.len(), h.finish())
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Rec {
    d: Vec<Rec>,
}

/// Documents which are big in one respect; `n` says how big.
pub const BIG: &[(&str, fn(usize) -> String)] = &[
    ("a long text", |n| big::<String>(&format!("<t>{}</t>", "x &amp; ".repeat(n)))),
    ("a long text before a child", |n| big::<String>(&format!("<t>{}<c/></t>", "x &amp; ".repeat(n)))),
    ("a long attribute", |n| big::<Log>(&format!("<t a='{}'/>", "x &amp; ".repeat(n)))),
    ("many attributes", |n| big::<Twin>(&format!("<t {}><F/></t>", (0..n).map(|i| format!("a{i}='' ")).collect::<String>()))),
    ("many namespaces", |n| big::<Log>(&format!("<t {}/>", (0..n.min(2000)).map(|i| format!("xmlns:a{i}='u{i}' ")).collect::<String>()))),
    ("many items", |n| big::<Twin>(&format!("<t>{}<F/></t>", "<c>1</c><d/>".repeat(n)))),
    ("many unknown elements", |n| big::<Twin>(&format!("<t>{}<F/></t>", "<x>1</x><y/>".repeat(n)))),
    ("many levels", |n| big::<Rec>(&deep(n.min(1000), true))),
    ("many levels skipped", |n| big::<Lazy>(&deep(n, true))),
    ("many levels left open", |n| big::<Rec>(&deep(n.min(1000), false))),
    ("many skipped levels left open", |n| big::<Lazy>(&deep(n, false))),
    ("many comments", |n| big::<String>(&format!("<t>{}x</t>", "<!--c-->".repeat(n)))),
    ("much collapsed", |n| brief(de::normalize(" a  b".repeat(n), de::WhiteSpace::Collapse))),
    ("much replaced", |n| brief(de::normalize("\ta\r\nb".repeat(n), de::WhiteSpace::Replace))),
    ("writing many of everything", |n| big_write(ser::serialize_with_name(&Many::new(n.min(500)), C0))),
    ("writing many levels", |n| big_write(ser::serialize_with_name(&Deep(n.min(1000)), C0))),
    ("writing a long text", |n| big_write(ser::serialize_with_name(&"<x>".repeat(n), A1))),
    ("writing a long forbidden text", |n| big_write(ser::serialize_with_name(&format!("{}\u{1}", "<x>".repeat(n)), A1))),
];

/// A source which gives out three bytes at a time and may fail or panic.
struct Src<'a> {
    d: &'a [u8],
    end: u8,
}
impl io::Read for Src<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        // Only every eighth call gives up control, to bound the number of schedules.
        if self.d.len() % 24 < 3 {
            tick();
        }
        if self.d.is_empty() {
            match self.end {
                1 => return Err(io::Error::new(io::ErrorKind::TimedOut, "source fails")),
                2 => panic!("source panics"),
                _ => {}
            }
        }
        let n = self.d.len().min(3).min(b.len());
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}
/// A destination which takes five bytes at a time and may fail or panic.
struct Dst {
    out: Vec<u8>,
    left: usize,
    end: u8,
}
impl io::Write for Dst {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.out.len() % 16 == 0 {
            tick();
        }
        if self.left == 0 {
            match self.end {
                1 => return Err(io::Error::new(io::ErrorKind::BrokenPipe, "destination fails")),
                2 => panic!("destination panics"),
                _ => {}
            }
        }
        let n = b.len().min(5).min(self.left.max(1));
        self.left = self.left.saturating_sub(n);
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        tick();
        Ok(())
    }
}

fn read<D: de::Deserialize + std::fmt::Debug>(doc: &str, end: u8) -> String {
    match static_xml::read::<_, D>(Src { d: doc.as_bytes(), end }) {
        Ok(v) => format!("ok {v:?}"),
        Err(e) => {
            let s = say(&e);
            KEPT.with(|k| k.borrow_mut().push((e.clone(), s.clone())));
            format!("err {s}")
        }
    }
}
fn write(s: ser::Serializer, left: usize, end: u8) -> String {
    let mut d = Dst { out: Vec::new(), left, end };
    match s.to(&mut d) {
        Ok(()) => format!("ok {}", String::from_utf8_lossy(&d.out)),
        Err(e) => format!("err {e} / {}", String::from_utf8_lossy(&d.out)),
    }
}

/// Logs everything, and does something unusual at elements of certain names.
#[derive(Debug, Default)]
struct Log(String);
impl ElementVisitor for Log {
    fn attribute(&mut self, n: &ExpandedNameRef<'_>, v: String) -> Result<Option<String>, VisitorError> {
        tick();
        let _ = write!(self.0, "@{n}={v:?} ");
        match &v[..] {
            "bad" => Err(VisitorError::Wrap("bad attribute".into())),
            "panic" => panic!("attribute panics"),
            _ => Ok(None),
        }
    }
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        tick();
        let ns: Vec<(String, String)> = child.namespace().into_iter().map(|(a, b)| (a.to_owned(), b.to_owned())).collect();
        let _ = write!(self.0, "<{} {} {:?} {ns:?}> ", child.name(), child.expanded_name(), child.depth());
        let local = child.name().local_name.to_owned();
        match &local[..] {
            "skip" => Ok(None),
            "pass" => Ok(Some(child)),
            "panic" => panic!("element panics"),
            "bad" => Err(VisitorError::Wrap("bad element".into())),
            "string" => {
                let s = child.read_string()?;
                let _ = write!(self.0, "{s:?} ");
                Ok(None)
            }
            "swallow" => {
                let mut inner = Log::default();
                let r = child.read_to(&mut inner);
                let _ = write!(self.0, "swallowed {} {} ", inner.0, r.is_err());
                if let Err(VisitorError::Propagate(e)) = r {
                    let s = say(&e);
                    KEPT.with(|k| k.borrow_mut().push((e, s)));
                }
                Ok(None)
            }
            _ => {
                let (n, ns, p) = child.read_to(self)?;
                let _ = write!(self.0, "</{n} {} {p}> ", ns.is_empty());
                Ok(None)
            }
        }
    }
    fn characters(&mut self, s: String, pos: TextPosition) -> Result<Option<String>, BoxedStdError> {
        tick();
        let _ = write!(self.0, "{s:?}@{pos} ");
        if s.contains("bad") {
            return Err("bad text".into());
        }
        Ok(None)
    }
}
impl de::Deserialize for Log {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut l = Log::default();
        e.read_to(&mut l)?;
        Ok(l)
    }
}

/// A hand-written serializer which is given what to do.
struct Hand(u8);
const A1: ExpandedNameRef<'static> = ExpandedNameRef { namespace: "urn:1", local_name: "a" };
const A2: ExpandedNameRef<'static> = ExpandedNameRef { namespace: "urn:2", local_name: "a" };
const C1: ExpandedNameRef<'static> = ExpandedNameRef { namespace: "urn:1", local_name: "c" };
const C0: ExpandedNameRef<'static> = ExpandedNameRef { namespace: "", local_name: "c" };
impl ser::Serialize for Hand {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), ser::Error> {
        tick();
        b.namespace("", "urn:1");
        b.namespace("p", "urn:2");
        b.attribute(A1, "x<y>\"&'\r\n\t".into())?;
        tick();
        b.attribute(A2, "y".into())?;
        if self.0 == 1 {
            b.attribute(A2, "z".into())?;
        }
        if self.0 == 2 {
            let _ = b.attribute(A2, "z".into());
        }
        Ok(())
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), ser::Error> {
        tick();
        w.text("t<&>]]>\r")?;
        {
            let mut c = w.element(C1);
            c.namespace("p", "urn:3");
            c.attribute(ExpandedNameRef { namespace: "urn:3", local_name: "b" }, "1".into())?;
            let mut c = c.start()?;
            tick();
            match self.0 {
                3 => {
                    let _ = c.element(C0);
                }
                4 => {
                    let _ = c.element(C0).start();
                }
                5 => drop(c.text("\u{1}")),
                6 => panic!("serializer panics"),
                7 => return Err(ser::Error("given up".into())),
                _ => c.element(C0).start()?.finish()?,
            }
            c.finish()?;
        }
        tick();
        w.element(C0).start()?.finish()
    }
}

fn leaf(s: &str) -> Leaf {
    Leaf(s.to_owned())
}
fn plain(one: &str) -> Plain {
    Plain { at: leaf("a<\n"), qa: Some(leaf("&")), one: leaf(one), dflt: 3, many: vec![leaf("]]>"), leaf("")], size: Some(Size::Ab), uni: Some(Uni::B(true)) }
}
fn nest() -> Nest {
    let inner = Nest { id: leaf("2"), nest: vec![], plain: Some(Box2 { z: Some(leaf("zz")), t: leaf(" t ") }) };
    Nest { id: leaf("1"), nest: vec![inner, Nest { id: leaf("3"), nest: vec![], plain: None }], plain: None }
}

const PLAIN: &str = "<p:Plain xmlns:p='urn:1' xmlns:z='urn:2' at='1' z:qa='2'><p:one>k</p:one><many>x</many><zz>9</zz><many>y</many><size> a  b </size><uni> 7\n</uni></p:Plain>";

pub struct Op {
    pub name: &'static str,
    /// How it ends when it is alone.
    pub ends: &'static str,
    pub run: fn() -> String,
}
macro_rules! ops {
    ($($n:literal $e:literal $b:expr;)*) => { pub const OPS: &[Op] = &[$(Op { name: $n, ends: $e, run: || $b }),*]; }
}
ops! {
    "read a struct" "ok" read::<Plain>(PLAIN, 0);
    "read a struct lacking an element" "err" read::<Plain>("<Plain at='1'>\n <many>x</many></Plain>", 0);
    "read a struct lacking an attribute" "err" read::<Plain>("<Plain/>", 0);
    "read a duplicate" "err" read::<Plain>("<Plain xmlns='urn:1' at='1'><one>1</one><one>2</one></Plain>", 0);
    "read a bad leaf" "err" read::<Plain>("<Plain at='1'><many>x</many><many>bad</many></Plain>", 0);
    "read a panicking leaf" "panic" read::<Plain>("<Plain at='1'><many>x</many><many>panic</many></Plain>", 0);
    "read a bad number" "err" read::<Plain>("<Plain at='1'><dflt>256</dflt></Plain>", 0);
    "read a bad union" "err" read::<Plain>("<Plain at='1'><uni>x</uni></Plain>", 0);
    "read nested namespaces" "ok" read::<Nest>("<n xmlns='urn:1' xmlns:p='urn:2' p:id='1'><nest p:id='2'><p:plain xmlns:p='urn:2' xmlns:y='urn:3' y:z='q'> t </p:plain></nest><m:nest xmlns:m='urn:1' xmlns='' p:id='3'/></n>", 0);
    "read a choice" "ok" read::<Flat>("<f><B>1</B><own>o</own>te<B>2</B>xt</f>", 0);
    "read a mixed choice" "err" read::<Flat>("<f><own>o</own><B>1</B>\n<A>2</A></f>", 0);
    "read an empty choice" "err" read::<Flat>("<f><own>o</own>x</f>", 0);
    "read a unit choice" "ok" read::<Choice>("<f><C/></f>", 0);
    "read an open document" "err" read::<Log>("<a><b><string>x</string><c x='1'>", 0);
    "read a mismatch" "err" read::<Log>("<a><b></a>", 0);
    "read a bad epilogue" "err" read::<Log>("<a><skip/></a>x", 0);
    "read an empty document" "err" read::<Log>("", 0);
    "read a bad root leaf" "err" read::<Leaf>("<a><!--\n\n-->bad</a>", 0);
    "read a panicking root leaf" "panic" read::<Leaf>("<a>panic</a>", 0);
    "read a twin" "ok" read::<Twin>(TWIN, 0);
    "read the other twin" "ok" read::<Twin2>(TWIN, 0);
    "skim a document" "ok" read::<Lazy>("<a><b>x</b></a>", 0);
    "skim an open document" "err" read::<Lazy>("<a>\n<b>x<c>", 0);
    "skim a mismatch" "err" read::<Lazy>("<a>\n<b>x<c></d>", 0);
    "refuse a root" "err" read::<Lazy>("<bad>\n<b>x<c>", 0);
    "refuse a root late" "err" read::<Lazy>("<late>\n<b x='1'>x</b>\n</late>", 0);
    "read from a failing source" "err" read::<Log>("<a><b x='1'><c/>", 1);
    "read from a panicking source" "panic" read::<Log>("<a><b x='1'><c/>", 2);
    "log a document" "ok" read::<Log>("<?xml version='1.0'?><a xmlns='urn:1' x='1'>t<b xmlns:p='urn:2' p:y='2'><p:c xmlns=''/>u<!---->v</b><skip><d><e/></d></skip><pass><d/></pass><string>s<![CDATA[x]]></string></a><!-- -->", 0);
    "log a swallowed error" "ok" read::<Log>("<a><swallow><b><bad><c/></bad></b></swallow><d><swallow>bad</swallow></d><e/></a>", 0);
    "log a raised error" "err" read::<Log>("<a><b/><c>\n<d><bad/></d></c></a>", 0);
    "log a bad attribute" "err" read::<Log>("<a><b/><c>\n<d y='1' x='bad'/></c></a>", 0);
    "log a panicking visitor" "panic" read::<Log>("<a><b/><c><d><panic/></d></c></a>", 0);
    "log a child within a string" "err" read::<Log>("<a><string>x<b/></string></a>", 0);
    "write a struct" "ok" write(ser::serialize(&plain("k")), usize::MAX, 0);
    "write a struct with indentation" "ok" write(ser::serialize(&plain("k")).perform_indent(true).write_document_declaration(false), usize::MAX, 0);
    "write nested namespaces" "ok" write(ser::serialize(&nest()), usize::MAX, 0);
    "write a choice" "ok" write(ser::serialize(&Flat { own: leaf("o"), ch: Choice::B(vec![leaf("1"), leaf("2")]), b: Box2 { z: None, t: leaf("&") } }), usize::MAX, 0);
    "write a skipped alternative" "err" write(ser::serialize(&Choice::D(vec![])), usize::MAX, 0);
    "write to a failing destination" "err" write(ser::serialize(&nest()), 90, 1);
    "write to a panicking destination" "panic" write(ser::serialize(&nest()), 90, 2);
    "write a forbidden character" "err" write(ser::serialize(&plain("x\u{2}y")), usize::MAX, 0);
    "write a panicking leaf" "panic" write(ser::serialize(&plain("unprintable")), usize::MAX, 0);
    "write by hand" "ok" write(ser::serialize_with_name(&Hand(0), A1), usize::MAX, 0);
    "write a duplicate attribute" "err" write(ser::serialize_with_name(&Hand(1), A1), usize::MAX, 0);
    "write a discarded duplicate" "ok" write(ser::serialize_with_name(&Hand(2), A1), usize::MAX, 0);
    "drop a builder" "err" write(ser::serialize_with_name(&Hand(3), A2), usize::MAX, 0);
    "drop a writer" "err" write(ser::serialize_with_name(&Hand(4), A2), usize::MAX, 0);
    "discard a forbidden character" "err" write(ser::serialize_with_name(&Hand(5), A2), usize::MAX, 0);
    "panic while writing" "panic" write(ser::serialize_with_name(&Hand(6), A2), usize::MAX, 0);
    "give up writing" "err" write(ser::serialize_with_name(&Hand(7), A2), usize::MAX, 0);
    "normalize" "ok" format!("ok {:?} {:?}", de::normalize(" a\t\u{a0}b \r\n c ".into(), de::WhiteSpace::Collapse), de::normalize(" a\t b\n".into(), de::WhiteSpace::Replace));
    "read a long text" "ok" BIG[0].1(200);
    "read many items" "ok" BIG[5].1(40);
    "read many levels" "ok" BIG[7].1(40);
    "write many of everything" "ok" BIG[14].1(20);
    "write clashing prefixes" "ok" big_write(ser::serialize_with_name(&Clash("p"), A1));
    "write other clashing prefixes" "ok" big_write(ser::serialize_with_name(&Clash("pq"), A1));
    "write clashing default prefixes" "ok" big_write(ser::serialize_with_name(&Clash(""), A1));
    "write a string" "ok" match ser::serialize(&nest()).to_string() { Ok(s) => format!("ok {s}"), Err(e) => format!("err {e}") };
}

/// What can be done with one `Serializer`, again and again.
pub const ACTIONS: &[&str] = &["to a string", "indented", "without declaration", "to a failing destination", "to a panicking destination", "to a slow destination"];
fn act(s: ser::Serializer, i: usize) -> String {
    let text = |s: ser::Serializer| match s.to_string() {
        Ok(s) => format!("ok {s}"),
        Err(e) => format!("err {e}"),
    };
    let r = engine::no_panic(|| match i {
        0 => text(s),
        1 => text(s.perform_indent(true)),
        2 => text(s.write_document_declaration(false)),
        3 => write(s, 60, 1),
        4 => write(s, 60, 2),
        _ => write(s, usize::MAX, 0),
    });
    r.unwrap_or_else(|p| p)
}
pub fn alone(i: usize) -> String {
    act(ser::serialize(&nest()), i)
}
pub fn reuse(seq: &[usize]) -> Vec<String> {
    let v = nest();
    let s = ser::serialize(&v);
    seq.iter().map(|i| act(s, *i)).collect()
}

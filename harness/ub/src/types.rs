//! Derived types and user code of every kind, all of it safe.

use static_xml::de::{self, DeserializeElementField, ElementReader, ElementVisitor, VisitorError, WhiteSpace};
use static_xml::ExpandedNameRef;
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Ty {
    pub name: &'static str,
    pub attrs: &'static [&'static str],
    pub children: &'static [&'static str],
    /// Longest sequence of children explored.
    pub max: usize,
    pub run: fn(&str) -> Result<String, String>,
}

fn err(s: &str) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, s.to_owned())
}

/// Heap memory which is looked at when dropped.
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std")]
pub struct Tok(Box<String>);
impl std::str::FromStr for Tok {
    type Err = std::io::Error;
    fn from_str(s: &str) -> Result<Tok, std::io::Error> {
        match s {
            "bad" => Err(err("bad")),
            "panic" => panic!("leaf"),
            s => Ok(Tok(Box::new(s.to_owned()))),
        }
    }
}
impl std::fmt::Display for Tok {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        assert!(self.0.len() < 1000);
        self.0.push('.');
    }
}
macro_rules! text {
    ($t:ident, $from:expr, $to:expr) => {
        impl std::str::FromStr for $t {
            type Err = std::io::Error;
            fn from_str(s: &str) -> Result<$t, std::io::Error> {
                if s == "bad" {
                    return Err(err("bad"));
                }
                let f: fn(&str) -> $t = $from;
                Ok(f(s))
            }
        }
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                let t: fn(&$t) -> String = $to;
                f.write_str(&t(self))
            }
        }
    };
}
/// No size at all.
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std")]
pub struct Unit;
text!(Unit, |_| Unit, |_| String::new());
/// Wide alignment.
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std")]
#[repr(align(64))]
pub struct Wide(u8);
text!(Wide, |s| Wide(s.len() as u8), |w| "x".repeat(w.0 as usize));
/// Not every bit pattern is a value.
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std")]
pub struct Niche(std::num::NonZeroU8);
text!(Niche, |s| Niche(std::num::NonZeroU8::new(s.len() as u8 + 1).unwrap()), |w| "x".repeat(w.0.get() as usize - 1));
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "std")]
pub struct Ch(char);
text!(Ch, |s| Ch(s.chars().next().unwrap_or('\u{10FFFF}')), |c| if c.0 == '\u{10FFFF}' { String::new() } else { c.0.to_string() });
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "restriction", whitespace = "collapse")]
pub enum Size {
    #[static_xml(rename = "a b")]
    Ab,
    Cd,
    #[static_xml(unknown)]
    Other(String),
}
#[derive(Debug, Clone, PartialEq, ParseText, ToText)]
#[static_xml(mode = "union", whitespace = "replace")]
pub enum Uni {
    B(bool),
    I(i32),
    T(Tok),
}

#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Attrs {
    #[static_xml(attribute)]
    a: Tok,
    #[static_xml(attribute)]
    b: Option<bool>,
    #[static_xml(attribute, default)]
    c: u64,
    #[static_xml(attribute)]
    d: Option<Niche>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Elems {
    a: Tok,
    b: Option<Size>,
    c: Vec<u16>,
    #[static_xml(default)]
    d: bool,
    e: Vec<Tok>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Padded {
    a: u8,
    w: Option<Wide>,
    b: u128,
    c: Ch,
    n: Option<Niche>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Zst {
    a: Unit,
    #[static_xml(flatten)]
    c: ZstChoice,
    v: Vec<Unit>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub enum ZstChoice {
    X,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Nothing {}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Text {
    a: Option<Tok>,
    #[static_xml(text)]
    t: Uni,
    #[static_xml(attribute)]
    z: Option<Tok>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct In {
    #[static_xml(attribute)]
    ia: Option<Tok>,
    i: Tok,
    j: Vec<Tok>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct InText {
    k: Option<Tok>,
    #[static_xml(text)]
    t: Tok,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub enum Choice {
    A(Tok),
    B(Vec<Tok>),
    C,
    #[static_xml(skip)]
    D(u8),
    E(Option<Niche>),
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub enum Choice2 {
    F(Vec<In>),
    G(u8),
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct FlatStructs {
    #[static_xml(flatten)]
    x: In,
    a: Tok,
    #[static_xml(flatten)]
    y: InText,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct FlatChoices {
    #[static_xml(flatten)]
    c: Choice,
    a: Option<Tok>,
    #[static_xml(flatten)]
    d: Choice2,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Mid {
    #[static_xml(flatten)]
    c: Choice,
    m: Option<Tok>,
    #[static_xml(flatten)]
    x: In,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct FlatDeep {
    n: u8,
    #[static_xml(flatten)]
    m: Mid,
    #[static_xml(flatten)]
    d: Choice2,
    #[static_xml(flatten)]
    y: InText,
    o: Option<Tok>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct Rec {
    r: Vec<Rec>,
    v: Option<Tok>,
    #[static_xml(flatten)]
    c: RecChoice,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub enum RecChoice {
    X(Vec<RecHold>),
    Y(Tok),
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct RecHold {
    x: Option<RecIn>,
}
#[derive(Debug, PartialEq, Deserialize, Serialize)]
pub struct RecIn {
    #[static_xml(flatten)]
    c: Choice,
}

/// Makes do with whatever happens while reading it.
#[derive(Debug)]
pub struct Swallow<T>(Option<T>);
impl<T: de::Deserialize> de::Deserialize for Swallow<T> {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        match catch_unwind(AssertUnwindSafe(|| T::deserialize(e))) {
            Ok(Ok(t)) => Ok(Swallow(Some(t))),
            _ => Ok(Swallow(None)),
        }
    }
}
#[derive(Debug, Deserialize)]
pub struct Swallows {
    a: Swallow<Elems>,
    f: Vec<Swallow<FlatChoices>>,
    c: Option<Tok>,
    #[static_xml(flatten)]
    d: SwallowChoice,
}
#[derive(Debug, Deserialize)]
pub enum SwallowChoice {
    S(Swallow<In>),
    T(Vec<Swallow<In>>),
}

/// A field of the user's own kind: changes, then fails.
#[derive(Debug)]
pub struct Own(Vec<Tok>);
impl DeserializeElementField for Own {
    fn init(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let t = <Tok as de::Deserialize>::deserialize(e)?;
        Ok(Own(vec![t]))
    }
    fn update(&mut self, e: ElementReader<'_>) -> Result<(), VisitorError> {
        self.0 = vec![];
        let t = <Tok as de::Deserialize>::deserialize(e)?;
        self.0.push(t);
        if self.0[0].0.as_str() == "2" {
            return Err(VisitorError::Wrap("two".into()));
        }
        Ok(())
    }
    fn missing(_: &ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
        Ok(Own(vec![]))
    }
}
#[derive(Debug, Deserialize)]
pub struct Owns {
    a: Own,
    b: Option<Tok>,
    #[static_xml(flatten)]
    c: OwnChoice,
}
#[derive(Debug, Deserialize)]
pub enum OwnChoice {
    X(Own),
    Y(Tok),
}
/// Fields which fail when they are missing.
#[derive(Debug)]
pub struct Absent(Tok);
impl DeserializeElementField for Absent {
    fn init(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        Ok(Absent(<Tok as de::Deserialize>::deserialize(e)?))
    }
    fn update(&mut self, e: ElementReader<'_>) -> Result<(), VisitorError> {
        *self = Absent(<Tok as de::Deserialize>::deserialize(e)?);
        Ok(())
    }
    fn missing(n: &ExpandedNameRef<'_>) -> Result<Self, VisitorError> {
        panic!("no {n}")
    }
}
#[derive(Debug, Deserialize)]
pub struct Absents {
    t: Option<Tok>,
    #[static_xml(flatten)]
    i: AbsentIn,
    #[static_xml(default)]
    d: PanDefault,
    #[static_xml(flatten)]
    c: PanChoice,
}
#[derive(Debug, Deserialize)]
pub struct AbsentIn {
    s: Option<Tok>,
    a: Absent,
    u: Vec<Tok>,
}
#[derive(Debug, Deserialize)]
pub struct PanDefault {
    v: Option<Tok>,
}
impl Default for PanDefault {
    fn default() -> Self {
        panic!("no default")
    }
}
#[derive(Debug, Deserialize)]
pub enum PanChoice {
    P(Tok),
}
/// A destructor which panics (unless something is panicking already).
#[derive(Debug, Clone, PartialEq, ParseText)]
#[static_xml(mode = "std")]
pub struct Bomb(Box<u8>);
impl std::str::FromStr for Bomb {
    type Err = std::io::Error;
    fn from_str(s: &str) -> Result<Bomb, std::io::Error> {
        if s == "bad" {
            return Err(err("bad"));
        }
        Ok(Bomb(Box::new(s.len() as u8)))
    }
}
impl Drop for Bomb {
    fn drop(&mut self) {
        if *self.0 == 1 && !std::thread::panicking() {
            panic!("destructor");
        }
    }
}
#[derive(Debug, Deserialize)]
pub struct Bombs {
    t: Vec<Bomb>,
    #[static_xml(flatten)]
    c: BombChoice,
    u: Bomb,
}
#[derive(Debug, Deserialize)]
pub enum BombChoice {
    B(Bomb),
    C(Vec<Bomb>),
}

/// A visitor of the user's own which hands its child on to derived types, and keeps what they give.
#[derive(Debug, Default)]
pub struct Hand(Vec<Result<In, String>>, Option<String>);
impl ElementVisitor for Hand {
    fn element<'a>(&mut self, c: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        match c.name().local_name {
            "in" => self.0.push(<In as de::Deserialize>::deserialize(c).map_err(|e| format!("{e:?}"))),
            "s" => self.1 = c.read_string().ok(),
            "skip" => return Ok(Some(c)),
            "drop" => {}
            _ => {
                c.read_to(self)?;
            }
        }
        Ok(None)
    }
}
impl de::Deserialize for Hand {
    fn deserialize(e: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut h = Hand::default();
        e.read_to(&mut h)?;
        Ok(h)
    }
}

fn read<T: de::Deserialize + Debug>(doc: &str) -> Result<String, String> {
    Ok(match catch_unwind(AssertUnwindSafe(|| match static_xml::de::from_str::<T>(doc) {
        Ok(v) => {
            // Looks at every byte of the value.
            let s = format!("ok {v:?}");
            let moved = Box::new(v);
            drop(moved);
            s
        }
        Err(e) => "err".to_owned(),
    })) {
        Ok(s) => s,
        Err(p) => format!("panic {:?}", p.downcast_ref::<&str>()),
    })
}
macro_rules! ty {
    ($name:literal $run:ident $t:ty, $max:literal, [$($a:literal)*], [$($c:literal)*]) => {
        Ty { name: $name, attrs: &[$($a),*], children: &[$($c),*], max: $max, run: $run::<$t> }
    };
}
pub const TYPES: &[Ty] = &[
    ty!("attributes" read Attrs, 1, ["a='1'" "b='true'" "b='x'" "c='7'" "c='x'" "d='xx'" "a='bad'" "a='panic'" "u=''"], ["<a/>"]),
    ty!("elements" read Elems, 9, [], ["<a>1</a>" "<b> a  b </b>" "<c>1</c>" "<c>x</c>" "<d>true</d>" "<e>x</e>" "<e>panic</e>"]),
    ty!("elements refused" read Elems, 9, [], ["<a>1</a>" "<a>bad</a>" "<b>z</b>" "<d>x</d>" "<e>x</e>" "<e>bad</e>" "<e><u/></e>"]),
    ty!("padding" read Padded, 9, [], ["<a>1</a><b>2</b>" "<c>y</c>" "<c>bad</c>" "<w>x</w>" "<n>x</n>" "<a>1</a>"]),
    ty!("no size" read Zst, 9, [], ["<a/>" "<X/>" "<v/>" "<v>bad</v>"]),
    ty!("nothing" read Nothing, 2, ["a='1'"], ["<a/>" "x"]),
    ty!("text" read Text, 9, ["z='1'" "z='bad'"], ["<a>1</a>" "true" "7" "bad" "panic" "<![CDATA[x]]>"]),
    ty!("flattened structs" read FlatStructs, 9, ["ia='1'" "ia='panic'"], ["<i>1</i>" "<j>2</j>" "<j>bad</j>" "<a>1</a>" "x" "<k>panic</k>"]),
    ty!("flattened choices" read FlatChoices, 9, [], ["<A>1</A>" "<B>1</B>" "<B>bad</B>" "<C/>" "<F><i>1</i></F>" "<F/>" "<a>panic</a>"]),
    ty!("flattened choices, others" read FlatChoices, 9, [], ["<A>panic</A>" "<B>1</B>" "<D/>" "<E>x</E>" "<G>1</G>" "<G>x</G>" "<a>1</a>"]),
    ty!("flattened twice" read FlatDeep, 9, ["ia='1'"], ["<n>1</n><i>1</i>" "<A>1</A><F><i>1</i></F>" "<A>1</A>" "<m>panic</m>" "<F><i>1</i></F>" "x" "<i>2</i>"]),
    ty!("flattened twice, refused" read FlatDeep, 9, ["ia='bad'"], ["<n>1</n><i>1</i>x" "<B>1</B>" "<j>1</j>" "<j>bad</j>" "<G>1</G>" "<o>1</o>" "<o>bad</o>"]),
    ty!("choice" read Choice, 9, [], ["<A>1</A>" "<A>bad</A>" "<B>1</B>" "<B>panic</B>" "<C/>" "<D/>" "<E>x</E>"]),
    ty!("choice of structs" read Choice2, 9, [], ["<F><i>1</i><j>2</j></F>" "<F><i>1</i><j>panic</j></F>" "<F/>" "<G>1</G>" "x"]),
    ty!("recursive" read Rec, 9, [], ["<r><Y>1</Y></r>" "<Y>1</Y>" "<r><r><Y>1</Y></r><X/><v>1</v></r>" "<r><Y>1</Y><v>bad</v></r>" "<X><x><A>1</A></x></X>" "<X><x/></X>" "<v>panic</v>"]),
    ty!("swallowed" read Swallows, 9, [], ["<a><a>1</a></a>" "<a><a>1</a><e>panic</e></a>" "<f><A>1</A></f>" "<f><B>1</B><B>panic</B></f>" "<f><F><i>1</i><j>bad" "<c>1</c>" "<S><i>1</i></S>" "<T><i>1</i><i>2</i></T>"]),
    ty!("user's fields" read Owns, 9, [], ["<a>1</a>" "<a>2</a>" "<a>panic</a>" "<X>1</X>" "<X>2</X>" "<X>panic</X>" "<Y>1</Y>"]),
    ty!("user's defaults" read Absents, 9, [], ["<t>1</t><u>1</u>" "<a>1</a><d/>" "<a>1</a>" "<a>panic</a>" "<d/>" "<d><v>bad</v></d>" "<P>1</P>"]),
    ty!("user's destructors" read Bombs, 9, [], ["<t>1</t>" "<t>22</t>" "<u>1</u>" "<u>bad</u>" "<B>1</B>" "<C>1</C>" "<C>bad</C>"]),
    ty!("user's visitor" read Hand, 9, [], ["<in><i>1</i></in>" "<in/>" "<in><i>panic</i></in>" "<s>x</s>" "<s>x<y/></s>" "<skip><in/></skip>" "<x><in><i>1</i><j>2</j></in></x>"]),
];

pub const NORMAL: &[&str] = &["a", " ", "\t", "\u{a0}", "\u{2028}", "\u{1F600}"];
pub fn normalize(s: &str) -> Result<String, String> {
    let mut all = Vec::new();
    for w in [WhiteSpace::Preserve, WhiteSpace::Replace, WhiteSpace::Collapse] {
        let n = de::normalize(s.to_owned(), w);
        if std::str::from_utf8(n.as_bytes()).is_err() {
            return Err(format!("{w:?} gives a string which is not UTF-8: {:?}", n.as_bytes()));
        }
        all.push(n);
    }
    Ok(format!("ok {all:?}"))
}

/// Characters whose encodings between them have every lead byte, and every continuation byte in every place.
pub fn lead_and_continuation() -> Vec<u32> {
    let mut v: Vec<u32> = Vec::new();
    for k in 0..64 {
        v.extend([0x80 + (k % 30) * 64 + k, 0x1000 * (1 + k % 12) + k * 64 + k, 0x40000 + 0x1000 * k + 64 * k + k]);
    }
    v.extend((0..30).map(|k| 0x80 + k * 64));
    v.extend((0..16).map(|k| if k == 0 { 0x820 } else { k * 0x1000 + 1 }));
    v.extend([0x10001, 0x40001, 0x80001, 0xC0001, 0x100001, 0x10FFFF, 0xFFFF, 0xFEFF, 0x2028, 0x3000, 0x85, 0xA0]);
    v
}

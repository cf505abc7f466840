//! Derived types: descriptions, a reference reader and writer for them, and the models over them.
//!
//! `dvgen.py` writes the types of each family (`dv_*` packages) together with a description of what each
//! declares; everything here works from the descriptions and never looks at what the macros generate.

pub mod doc;
mod faults;
pub mod models;
pub mod names;
pub mod reader;
pub mod writer;

use engine::{Model, Tier};
use static_xml::de::{Deserialize, ParseText};
use static_xml::ser::{SerializeRoot, ToText};
use static_xml_derive::{ParseText, ToText};

/// A value of a derived type.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    /// A leaf, by its text.
    S(String),
    None,
    Some(Box<Val>),
    List(Vec<Val>),
    St(Vec<Val>),
    /// Alternative by declaration index, and its content unless it is a unit.
    Ch(usize, Option<Box<Val>>),
}

#[derive(Clone, Copy, Debug)]
pub enum Ty {
    Str,
    U8,
    Ds,
    Struct(&'static StructD),
    Choice(&'static ChoiceD),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Card {
    One,
    Opt,
    Many,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mode {
    Elem,
    Attr,
    Text,
    Flat,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct N {
    pub ns: &'static str,
    pub local: &'static str,
}
impl N {
    pub fn qn(&self) -> engine::xmlt::QN {
        engine::xmlt::qn(self.ns, self.local)
    }
    pub fn is(&self, q: &engine::xmlt::QN) -> bool {
        self.ns == q.ns && self.local == q.local
    }
}
pub struct FieldD {
    pub mode: Mode,
    pub name: N,
    pub card: Card,
    pub default: Option<fn() -> Val>,
    pub ty: Ty,
}
pub struct StructD {
    pub name: &'static str,
    pub root: N,
    pub fields: &'static [FieldD],
}
pub struct AltD {
    pub name: N,
    pub skip: bool,
    /// `None` for a unit alternative.
    pub of: Option<(Card, Ty)>,
}
pub struct ChoiceD {
    pub name: &'static str,
    pub root: N,
    pub alts: &'static [AltD],
}
impl std::fmt::Debug for StructD {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}
impl std::fmt::Debug for ChoiceD {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}
impl Ty {
    pub fn root(&self) -> N {
        match self {
            Ty::Struct(d) => d.root,
            Ty::Choice(d) => d.root,
            _ => N { ns: "", local: "leaf" },
        }
    }
}

/// Conversion of a derived type to and from [`Val`].
pub trait Dv: Sized {
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
}
impl Dv for String {
    fn to_val(&self) -> Val {
        Val::S(self.clone())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(s) => s.clone(),
            _ => panic!("engine: bad value"),
        }
    }
}
impl Dv for u8 {
    fn to_val(&self) -> Val {
        Val::S(self.to_string())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(s) => s.parse().expect("engine: bad value"),
            _ => panic!("engine: bad value"),
        }
    }
}
impl<T: Dv> Dv for Option<T> {
    fn to_val(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.to_val())),
        }
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::None => None,
            Val::Some(v) => Some(T::from_val(v)),
            _ => panic!("engine: bad value"),
        }
    }
}
impl<T: Dv> Dv for Vec<T> {
    fn to_val(&self) -> Val {
        Val::List(self.iter().map(|v| v.to_val()).collect())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::List(v) => v.iter().map(T::from_val).collect(),
            _ => panic!("engine: bad value"),
        }
    }
}

/// A text type with a default other than the empty string, which refuses `q`.
#[derive(Clone, Debug, ParseText, ToText)]
#[static_xml(mode = "std")]
pub struct Ds(pub String);
impl Default for Ds {
    fn default() -> Self {
        Ds("dflt".to_owned())
    }
}
#[derive(Debug)]
pub struct Refused(String);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "refused {:?}", self.0)
    }
}
impl std::error::Error for Refused {}
impl std::str::FromStr for Ds {
    type Err = Refused;
    fn from_str(s: &str) -> Result<Self, Refused> {
        if s.contains('q') {
            return Err(Refused(s.to_owned()));
        }
        Ok(Ds(s.to_owned()))
    }
}
impl std::fmt::Display for Ds {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl Dv for Ds {
    fn to_val(&self) -> Val {
        Val::S(self.0.clone())
    }
    fn from_val(v: &Val) -> Self {
        match v {
            Val::S(s) => Ds(s.clone()),
            _ => panic!("engine: bad value"),
        }
    }
}
const _: fn() = || {
    fn text<T: ParseText + ToText>() {}
    text::<Ds>();
};

/// A failed read: message and local names of the element stack.
#[derive(Clone, Debug)]
pub struct ReadErr {
    pub msg: String,
    pub stack: Vec<String>,
    /// Row and column of each.
    pub at: Vec<(u64, u64)>,
}

#[derive(Clone, Copy)]
pub struct Entry {
    pub name: &'static str,
    pub ty: Ty,
    pub read: fn(&str) -> Result<Val, ReadErr>,
    /// (With a failure: the I/O error among its sources.)
    pub read_from: fn(&mut dyn std::io::Read) -> Result<Val, (ReadErr, String)>,
    pub write_to: fn(&Val, &mut dyn std::io::Write) -> Result<(), String>,
    /// `(value, indent)`
    pub write: fn(&Val, bool) -> Result<String, String>,
    /// `(value, namespace, local name)` of the root
    pub write_named: fn(&Val, &str, &str) -> Result<String, String>,
}

fn read_err(e: static_xml::de::Error) -> ReadErr {
    ReadErr {
        msg: e.to_string(),
        stack: e.stack().iter().map(|e| e.name.local_name.clone()).collect(),
        at: e.stack().iter().map(|e| (e.pos.row, e.pos.column)).collect(),
    }
}
pub fn read_as<T: Dv + Deserialize>(s: &str) -> Result<Val, ReadErr> {
    match static_xml::de::read::<_, T>(s.as_bytes()) {
        Ok(v) => Ok(v.to_val()),
        Err(e) => Err(read_err(e)),
    }
}
pub fn read_from_as<T: Dv + Deserialize>(s: &mut dyn std::io::Read) -> Result<Val, (ReadErr, String)> {
    match static_xml::de::read::<_, T>(s) {
        Ok(v) => Ok(v.to_val()),
        Err(e) => {
            let mut io = String::new();
            let mut cur: Option<&(dyn std::error::Error + 'static)> = std::error::Error::source(&e);
            while let Some(c) = cur {
                if let Some(i) = c.downcast_ref::<std::io::Error>() {
                    io.push_str(&format!("{:?} {i}", i.kind()));
                }
                cur = c.source();
            }
            Err((read_err(e), io))
        }
    }
}
pub fn write_to_as<T: Dv + SerializeRoot>(v: &Val, w: &mut dyn std::io::Write) -> Result<(), String> {
    let v = T::from_val(v);
    static_xml::ser::serialize(&v).to(w).map_err(|e| e.to_string())
}
pub fn write_as<T: Dv + SerializeRoot>(v: &Val, indent: bool) -> Result<String, String> {
    let v = T::from_val(v);
    static_xml::ser::serialize(&v)
        .perform_indent(indent)
        .to_string()
        .map_err(|e| e.to_string())
}

pub fn write_named_as<T: Dv + SerializeRoot>(v: &Val, namespace: &str, local_name: &str) -> Result<String, String> {
    let v = T::from_val(v);
    static_xml::ser::serialize_with_name(&v, static_xml::ExpandedNameRef { namespace, local_name })
        .to_string()
        .map_err(|e| e.to_string())
}

pub fn registry(family: &str, entries: &'static [Entry], prop: &str, tier: Tier) -> Vec<Model> {
    let mut v = Vec::new();
    models::models(family, entries, prop, tier, &mut v);
    names::models(family, entries, prop, tier, &mut v);
    faults::models(family, entries, prop, tier, &mut v);
    v
}

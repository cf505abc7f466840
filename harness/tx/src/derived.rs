//! C20: derived text types against tables of what they declare.

use crate::norm::spec;
use engine::{ensure, fail, model, no_panic, Ctx, Model, Tier, R};
use static_xml::de::{ParseText, WhiteSpace};
use static_xml::ser::ToText;
use static_xml_derive::{Deserialize, ParseText, Serialize, ToText};

// ---- standard mode

#[derive(Debug)]
pub struct StdErr(String);
impl std::fmt::Display for StdErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "std-refuses[{}]", self.0)
    }
}
impl std::error::Error for StdErr {}

/// What the standard-mode types accept: text without `q`.
fn std_accepts(s: &str) -> bool {
    !s.contains('q')
}

macro_rules! std_type {
    ($name:ident, ($($attr:tt)*), struct) => {
        #[derive(Debug, ParseText, ToText)]
        #[static_xml($($attr)*)]
        pub struct $name(pub String);
        std_type!(@ $name, |s| $name(s), |v| v.0.clone());
    };
    ($name:ident, ($($attr:tt)*), named) => {
        #[derive(Debug, ParseText, ToText)]
        #[static_xml($($attr)*)]
        pub struct $name { pub inner: String }
        std_type!(@ $name, |inner| $name { inner }, |v| v.inner.clone());
    };
    ($name:ident, ($($attr:tt)*), enum) => {
        #[derive(Debug, ParseText, ToText)]
        #[static_xml($($attr)*)]
        pub enum $name { Empty, Text(String) }
        std_type!(@ $name,
            |s: String| if s.is_empty() { $name::Empty } else { $name::Text(s) },
            |v| match v { $name::Empty => String::new(), $name::Text(t) => t.clone() });
    };
    (@ $name:ident, $mk:expr, $show:expr) => {
        impl std::str::FromStr for $name {
            type Err = StdErr;
            fn from_str(s: &str) -> Result<Self, StdErr> {
                let mk: fn(String) -> Self = $mk;
                if std_accepts(s) { Ok(mk(s.to_owned())) } else { Err(StdErr(s.to_owned())) }
            }
        }
        impl std::fmt::Display for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                let show: fn(&Self) -> String = $show;
                f.write_str(&show(self))
            }
        }
    };
}
std_type!(StdDefault, (mode = "std"), struct);
std_type!(StdPreserve, (whitespace = "preserve", mode = "std"), named);
std_type!(StdReplace, (mode = "std", whitespace = "replace"), struct);
std_type!(StdCollapse, (mode = "std", whitespace = "collapse"), enum);

include!("gen_types.rs");

// ---- specification tables

enum Spec {
    /// Text of the value after normalization, if accepted.
    Std(WhiteSpace),
    Restriction(WhiteSpace, &'static [(&'static str, &'static str)], Option<&'static str>),
    Union(WhiteSpace, &'static [(&'static str, &'static Spec)]),
    U8,
    I8,
    U16,
    I32,
    Bool,
    Str,
}

/// (debug text, printed text) of the value, or the messages which must be reported.
type Want = Result<(String, String), Vec<String>>;

fn apply(spec_: &Spec, name: &str, text: &str) -> Want {
    match spec_ {
        Spec::Std(w) => {
            let t = spec(text, *w);
            if std_accepts(&t) {
                Ok((format!("{name}<{t}>"), t))
            } else {
                Err(vec![format!("std-refuses[{t}]")])
            }
        }
        Spec::Restriction(w, known, unknown) => {
            let t = spec(text, *w);
            match known.iter().find(|(_, s)| *s == t) {
                Some((v, s)) => Ok((v.to_string(), s.to_string())),
                None => match unknown {
                    Some(u) => Ok((format!("{u}({t:?})"), t)),
                    None => Err(vec![]),
                },
            }
        }
        Spec::Union(w, alts) => {
            let t = spec(text, *w);
            let mut msgs = Vec::new();
            for (v, a) in *alts {
                match apply(a, v, &t) {
                    Ok((_, printed)) => return Ok((v.to_string(), printed)),
                    Err(m) => msgs.extend(m),
                }
            }
            Err(msgs)
        }
        Spec::U8 => num::<u8>(text),
        Spec::I8 => num::<i8>(text),
        Spec::U16 => num::<u16>(text),
        Spec::I32 => num::<i32>(text),
        Spec::Bool => match text.trim_matches(crate::norm::is_ws) {
            "true" | "1" => Ok(("true".into(), "true".into())),
            "false" | "0" => Ok(("false".into(), "false".into())),
            _ => Err(vec![]),
        },
        Spec::Str => Ok((format!("{text:?}"), text.to_owned())),
    }
}

fn num<T: std::str::FromStr + std::fmt::Display>(text: &str) -> Want
where
    T::Err: std::fmt::Display,
{
    match text.trim_matches(crate::norm::is_ws).parse::<T>() {
        Ok(v) => Ok((v.to_string(), v.to_string())),
        Err(e) => Err(vec![e.to_string()]),
    }
}

/// A type under test: parses text and reports (debug text, printed text).
struct Case {
    name: &'static str,
    spec: Spec,
    /// Through `ParseText` and `ToText` directly.
    direct: fn(&str) -> Result<(String, String), String>,
    /// As element content and as attribute value of a document.
    document: fn(&str) -> Result<Vec<String>, String>,
}

fn direct<T: ParseText + ToText + std::fmt::Debug>(s: &str) -> Result<(String, String), String> {
    let v = T::parse(s.to_owned()).map_err(|e| e.to_string())?;
    let printed = v.to_text().map_err(|e| format!("to_text failed: {e}"))?;
    Ok((format!("{v:?}"), printed))
}

macro_rules! cases {
    ($($t:path = $s:expr),* $(,)?) => {
        vec![$( {
            #[derive(Debug, Deserialize, Serialize)]
            struct Doc {
                #[static_xml(attribute)]
                at: $t,
                el: $t,
                #[static_xml(attribute)]
                oat: Option<$t>,
                oel: Option<$t>,
                v: Vec<$t>,
            }
            fn document(s: &str) -> Result<Vec<String>, String> {
                let e = engine::xmlt::esc_text(s);
                let a = engine::xmlt::esc_attr(s);
                let xml = format!("<r at=\"{a}\" oat=\"{a}\"><el>{e}</el><oel>{e}</oel><v>{e}</v><v>{e}</v></r>");
                let show = |d: &Doc| {
                    let mut o = vec![format!("{:?}", d.at), format!("{:?}", d.el)];
                    o.extend(d.oat.iter().chain(&d.oel).chain(&d.v).map(|x| format!("{x:?}")));
                    o
                };
                let d: Doc = static_xml::de::from_str(&xml).map_err(|e| e.to_string())?;
                let first = show(&d);
                let out = static_xml::serialize(&d).to_string().map_err(|e| format!("serialize: {e}"))?;
                let el = engine::xmlt::parse(&out).map_err(|e| format!("ill-formed output {out}: {e:?}"))?;
                let mut texts: Vec<String> = el.root.attrs.iter().map(|(_, v)| v.clone()).collect();
                texts.extend(el.root.els().map(|x| x.text()));
                let printed = d.el.to_text().map_err(|e| format!("to_text: {e}"))?;
                if texts != vec![printed.clone(); 6] {
                    return Err(format!("{out} has texts {texts:?}, want six of {printed:?}"));
                }
                Ok(first)
            }
            Case { name: stringify!($t), spec: $s, direct: direct::<$t>, document }
        } ),*]
    };
}

use WhiteSpace::{Collapse, Preserve, Replace};
type Known = &'static [(&'static str, &'static str)];
const NAMES: Known = &[("A", "A"), ("Ab", "Ab"), ("ABC", "ABC"), ("a_1", "a_1")];
const RENAMED: Known = &[("Lower", "a"), ("Upper", "A"), ("Ab", "ab"), ("Accent", "\u{e9}"), ("B", "Ab"), ("C", "C")];
const SPACED: Known = &[("Empty", ""), ("Space", " "), ("AB", "a b"), ("AABB", "a  b"), ("LeadA", " a"), ("TabB", "a\tb")];
const UL: Known = &[("Lower", "a"), ("A", "A"), ("AB", "a b")];
const UF: Known = &[("A", "a"), ("B", "B")];
const UM: Known = &[("A", "A"), ("C", "B"), ("Nothing", "")];
const RAW: Known = &[("type", "type"), ("Fn", "Fn"), ("M", "match")];

const IBS: &[(&str, &Spec)] = &[("Int", &Spec::I32), ("Bool", &Spec::Bool), ("Str", &Spec::Str)];
const BI: &[(&str, &Spec)] = &[("Bool", &Spec::Bool), ("Int", &Spec::I32)];
const NARROW: &[(&str, &Spec)] = &[("U8", &Spec::U8), ("I8", &Spec::I8), ("U16", &Spec::U16)];
const OFR: &[(&str, &Spec)] = &[
    ("First", &Spec::Restriction(Preserve, RENAMED, None)),
    ("Second", &Spec::Restriction(Collapse, NAMES, None)),
    ("Third", &Spec::Std(Replace)),
];
const CLOSED: &[(&str, &Spec)] = &[
    ("First", &Spec::Restriction(Preserve, RENAMED, None)),
    ("Second", &Spec::Restriction(Preserve, SPACED, None)),
    ("N", &Spec::U8),
];
const NESTED: &[(&str, &Spec)] = &[
    ("Inner", &Spec::Union(Preserve, NARROW)),
    ("Inner2", &Spec::Union(Collapse, CLOSED)),
    ("B", &Spec::Std(Collapse)),
];
const SHADOWED: &[(&str, &Spec)] = &[("Str", &Spec::Str), ("Int", &Spec::I32)];
const ONE: &[(&str, &Spec)] = &[("Only", &Spec::U8)];

macro_rules! four {
    ($v:ident; $($m:ident => $f:expr;)*) => { $(
        {
            let f: fn(WhiteSpace) -> Spec = $f;
            $v.extend(cases! {
                $m::Default = f(Preserve), $m::Preserve = f(Preserve), $m::Replace = f(Replace), $m::Collapse = f(Collapse),
            });
        }
    )* };
}

fn cases() -> Vec<Case> {
    let mut v = cases! {
        StdDefault = Spec::Std(Preserve),
        StdPreserve = Spec::Std(Preserve),
        StdReplace = Spec::Std(Replace),
        StdCollapse = Spec::Std(Collapse),
    };
    four! { v;
        names => |w| Spec::Restriction(w, NAMES, None);
        renamed => |w| Spec::Restriction(w, RENAMED, None);
        spaced => |w| Spec::Restriction(w, SPACED, None);
        unknown_last => |w| Spec::Restriction(w, UL, Some("Other"));
        unknown_first => |w| Spec::Restriction(w, UF, Some("Unknown"));
        unknown_middle => |w| Spec::Restriction(w, UM, Some("B"));
        unknown_only => |w| Spec::Restriction(w, &[], Some("Any"));
        many => |w| Spec::Restriction(w, MANY, None);
        hundred => |w| Spec::Restriction(w, HUNDRED, Some("Other"));
        raw => |w| Spec::Restriction(w, RAW, None);
        int_bool_str => |w| Spec::Union(w, IBS);
        bool_int => |w| Spec::Union(w, BI);
        narrow => |w| Spec::Union(w, NARROW);
        of_restrictions => |w| Spec::Union(w, OFR);
        closed => |w| Spec::Union(w, CLOSED);
        nested => |w| Spec::Union(w, NESTED);
        shadowed => |w| Spec::Union(w, SHADOWED);
        one => |w| Spec::Union(w, ONE);
    }
    v
}

/// The debug text of a value must name the wanted variant (and hold the wanted text).
fn same_variant(spec_: &Spec, debug: &str, want: &str) -> bool {
    match spec_ {
        Spec::Std(_) => true, // the printed text says it all
        Spec::Restriction(..) => debug == want,
        Spec::Union(..) => debug.split('(').next() == Some(want),
        _ => debug == want,
    }
}

fn check(ctx: &mut Ctx, c: &Case, s: &str, docs: bool) -> R {
    ctx.describe(|| format!("{} <- {s:?}", c.name));
    let want = apply(&c.spec, c.name, s);
    let got = match no_panic(|| (c.direct)(s)) {
        Ok(g) => g,
        Err(p) => fail!("{}: {s:?}: panics: {p}", c.name),
    };
    ctx.compared += 1;
    match (&got, &want) {
        (Err(m), Err(msgs)) => {
            ctx.outcome("refused");
            for w in msgs {
                ensure!(m.contains(w.as_str()), "{}: {s:?}: error {m:?} lacks the alternative's {w:?}", c.name);
            }
        }
        (Ok((d, p)), Ok((wd, wp))) => {
            ctx.outcome("accepted");
            ensure!(same_variant(&c.spec, d, wd), "{}: {s:?} parses as {d}, want {wd}", c.name);
            ensure!(p == wp, "{}: {s:?} parses as {d}, which prints as {p:?}, want {wp:?}", c.name);
        }
        (Ok((d, _)), Err(_)) => fail!("{}: {s:?} accepted as {d}, must be refused", c.name),
        (Err(e), Ok((d, _))) => fail!("{}: {s:?} refused ({e}), want {d}", c.name),
    }
    if docs && s.chars().all(engine::xmlt::is_xml_char) {
        let in_doc = match no_panic(|| (c.document)(s)) {
            Ok(g) => g,
            Err(p) => fail!("{}: {s:?} in a document: panics: {p}", c.name),
        };
        ctx.compared += 1;
        match (in_doc, &got) {
            (Ok(v), Ok((d, _))) => ensure!(v == vec![d.clone(); 6], "{}: {s:?} in a document reads as {v:?}, directly as {d}", c.name),
            (Err(e), Err(_)) => ensure!(
                !e.starts_with("ill-formed") && !e.contains("want six"),
                "{}: {s:?}: {e}", c.name
            ),
            (Ok(v), Err(_)) => fail!("{}: {s:?} accepted in a document as {v:?} but not directly", c.name),
            (Err(e), Ok((d, _))) => fail!("{}: {s:?} reads as {d} directly; in a document: {e}", c.name),
        }
    }
    Ok(())
}

const A: [&str; 12] = ["a", "b", "A", "B", " ", "\t", "1", "-", "q", "\u{e9}", "\n", "\u{a0}"];
/// Every listed string, names, near misses, numbers.
const WORDS: [&str; 62] = [
    "", "A", "Ab", "ABC", "a_1", "a", "ab", "abc", "AB", "aB", "\u{e9}", "\u{c9}", "e\u{301}", "Lower", "Upper", "Accent",
    "C", "c", "B", "Other", "Unknown", "Any", "Empty", "Space", "a b", "a  b", "a\tb", "a\nb", "a\u{a0}b", "type", "r#type",
    "Fn", "r#Fn", "match", "M", "0", "1", "-1", "+1", "127", "128", "-128", "255", "256", "65535", "65536", "-129", "true",
    "false", "True", "q", "Ab q",
    "W0", "W1", "W9", "W10", "W49", "W50", "W99", "W100", "w5", "\u{e9}\u{e9}\u{e9}\u{e9}",
];
const PADS: [&str; 9] = ["", " ", "\t", "\n", "\r", "  ", " \t\r\n ", "\u{a0}", "\u{3000}"];

pub fn models(prop: &str, tier: Tier, v: &mut Vec<Model>) {
    if prop != "C20" {
        return;
    }
    let t = tier == Tier::Thorough;
    let cs: &'static Vec<Case> = Box::leak(Box::new(cases()));
    let n = if t { 6 } else { 5 };
    v.push(model(
        "strings",
        &format!("every string of up to {n} of {A:?} x {} derived text types (up to length 3 also in documents)", cs.len()),
        move |ctx: &mut Ctx| -> R {
            let len = ctx.range(0, n);
            let mut s = String::new();
            for _ in 0..len {
                s.push_str(*ctx.pick(&A));
            }
            ctx.state(s.as_str());
            for c in cs {
                check(ctx, c, &s, len <= 2 || ctx.thorough() && len <= 3)?;
            }
            Ok(())
        },
    ));
    v.push(model(
        "words",
        &format!("{} words x padding before x padding after x {} derived text types, directly and in documents", WORDS.len(), cs.len()),
        move |ctx: &mut Ctx| -> R {
            let w = *ctx.pick(&WORDS);
            let s = format!("{}{}{}", ctx.pick(&PADS), w, ctx.pick(&PADS));
            ctx.state(s.as_str());
            for c in cs {
                check(ctx, c, &s, true)?;
            }
            Ok(())
        },
    ));
    v.push(model(
        "every-character",
        "every Unicode scalar value, alone and after a listed string, x all types",
        move |ctx: &mut Ctx| -> R {
            let block = ctx.choose(0x110000 / 256) as u32;
            ctx.state(&block);
            let step = if ctx.thorough() || block < 0x40 { 1 } else { 53 };
            for lo in (0..256).step_by(step) {
                let Some(ch) = char::from_u32(block * 256 + lo) else { continue };
                for s in [format!("{ch}"), format!("a{ch}")] {
                    for c in cs {
                        check(ctx, c, &s, false)?;
                    }
                }
            }
            Ok(())
        },
    ));
    v.push(model(
        "long",
        "listed strings inside and around long text (lengths to 300, and 2^k-1, 2^k, 2^k+1 for k 9 to 16)",
        move |ctx: &mut Ctx| -> R {
            let n = ctx.choose(324);
            let n = if n < 300 { n + 1 } else { (1 << (9 + (n - 300) / 3)) - 1 + (n - 300) % 3 };
            let s = match ctx.choose(4) {
                0 => "a".repeat(n),
                1 => format!("{}a", " ".repeat(n)),
                2 => format!("a{}b", "\n".repeat(n)),
                _ => format!("{}1", "0".repeat(n)),
            };
            ctx.describe(|| format!("length {}", s.len()));
            ctx.state(s.as_str());
            for c in cs {
                check(ctx, c, &s, false).map_err(|mut f| {
                    f.what = f.what.chars().take(300).collect();
                    f
                })?;
            }
            Ok(())
        },
    ));
}

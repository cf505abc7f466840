//! Character data and attribute values (C02), options (C23).

use crate::prog::*;
use engine::xmlt::{self, is_xml_char, parse, El, Node};
use engine::*;
use static_xml::ser::*;

const CHARS: [char; 18] = [
    'a', '<', '>', '&', '\'', '"', ']', ' ', '\t', '\n', '\r', 'é', '\u{10348}', '\u{85}', '\u{2028}', '\0', '\u{1b}', '\u{fffe}',
];

fn legal(s: &str) -> bool {
    s.chars().all(is_xml_char)
}

/// `s` as text (in one or two calls), as attribute value and both inside a child.
fn one_string(ctx: &mut Ctx, s: &str, split: Option<usize>) -> R {
    ctx.describe(|| format!("string {s:?} split at {split:?}"));
    ctx.compared += 3;
    let mut child = Prog::new(q("c"));
    child.pre.push(Pre::Attr(q("k"), s.to_owned()));
    match split {
        None => child.ops.push(Op::Text(s.to_owned())),
        Some(i) => {
            child.ops.push(Op::Text(s[..i].to_owned()));
            child.ops.push(Op::Text(s[i..].to_owned()));
        }
    }
    let mut root = Prog::new(q("r"));
    root.pre.push(Pre::Attr(q("before"), "1".into()));
    root.pre.push(Pre::Attr(q("k"), s.to_owned()));
    root.pre.push(Pre::Attr(q("after"), "2".into()));
    root.ops.push(Op::Child(child));
    root.ops.push(Op::Child(Prog::new(q("d"))));
    if legal(s) {
        ctx.outcome("legal");
        check_prog(&root)?;
        // As an element with only text.
        match no_panic(|| serialize_with_name(&s, xn(&q("t"))).to_string()) {
            Ok(Ok(out)) => match parse(&out) {
                Ok(d) => {
                    let mut want = El::new(q("t"));
                    want.push_text(s);
                    ensure!(d.root == want, "wrote {out:?}, expected {want}");
                }
                Err(e) => fail!("wrote {out:?}: {e}"),
            },
            Ok(Err(e)) => fail!("refused {s:?}: {e}"),
            Err(p) => fail!("{p}"),
        }
    } else {
        ctx.outcome("unrepresentable");
        for (what, keep_attr, keep_text) in [("attribute", true, false), ("text", false, true)] {
            let mut p = root.clone();
            if !keep_attr {
                p.pre.clear();
                if let Op::Child(c) = &mut p.ops[0] {
                    c.pre.clear();
                }
            }
            if !keep_text {
                if let Op::Child(c) = &mut p.ops[0] {
                    c.ops.clear();
                }
            }
            match serialize_prog(&p) {
                Ok(Ok(out)) => fail!("{what} {s:?} was written as {out:?}"),
                Ok(Err(_)) => {}
                Err(p) => fail!("{p}"),
            }
            // Even if the code ignores it.
            let r = no_panic(|| serialize_with_name(&Run::new(&p, Swallow::ALL), xn(&p.name)).to_string());
            match r {
                Ok(Ok(out)) => fail!("{what} {s:?} refused, but the document is reported complete: {out:?}"),
                Ok(Err(_)) => {}
                Err(p) => fail!("{p}"),
            }
        }
    }
    Ok(())
}
/// `s` through every kind of string field.
struct Typed<'s>(&'s str);
impl Serialize for Typed<'_> {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        let s = self.0;
        let n = |local_name: &'static str| static_xml::ExpandedNameRef { namespace: "", local_name };
        SerializeAttr::write(&s, b, n("a"))?;
        SerializeAttr::write(&s.to_owned(), b, n("b"))?;
        SerializeAttr::write(&Some(s), b, n("c"))?;
        SerializeAttr::write(&Some(s.to_owned()), b, n("d"))?;
        SerializeAttr::write(&None::<String>, b, n("e"))
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        let s = self.0;
        let n = |local_name: &'static str| static_xml::ExpandedNameRef { namespace: "", local_name };
        SerializeField::write(&s, w, n("f"))?;
        SerializeField::write(&s.to_owned(), w, n("g"))?;
        SerializeField::write(&Some(s.to_owned()), w, n("h"))?;
        SerializeField::write(&None::<String>, w, n("i"))?;
        SerializeField::write(&vec![s.to_owned(), String::new(), s.to_owned()], w, n("j"))?;
        SerializeField::write(&vec![s, "z"], w, n("k"))?;
        // Text of the element itself.
        w.text(&s.to_text()?)?;
        w.text(&s.to_owned().to_text()?)
    }
}
fn typed_string(ctx: &mut Ctx, s: &str) -> R {
    ctx.compared += 1;
    let out = match no_panic(|| serialize_with_name(&Typed(s), xn(&q("t"))).to_string()) {
        Ok(r) => r,
        Err(p) => fail!("{s:?}: {p}"),
    };
    if !legal(s) {
        ensure!(out.is_err(), "{s:?} was written as {out:?}");
        return Ok(());
    }
    let out = match out {
        Ok(o) => o,
        Err(e) => fail!("string fields of {s:?} refused: {e}"),
    };
    let mut want = El::new(q("t"));
    for a in ["a", "b", "c", "d"] {
        want.attrs.push((q(a), s.to_owned()));
    }
    for (n, t) in [("f", s), ("g", s), ("h", s), ("j", s), ("j", ""), ("j", s), ("k", s), ("k", "z")] {
        let mut c = El::new(q(n));
        c.push_text(t);
        want.kids.push(Node::El(c));
    }
    want.push_text(s);
    want.push_text(s);
    match parse(&out) {
        Ok(d) => ensure!(d.root == want, "string fields of {s:?} written as {out:?}, expected {want}"),
        Err(e) => fail!("string fields of {s:?} written as {out:?}: {e}"),
    }
    // The same on its own as a String.
    match no_panic(|| serialize_with_name(&s.to_owned(), xn(&q("t"))).to_string()) {
        Ok(Ok(o)) => {
            let mut w = El::new(q("t"));
            w.push_text(s);
            match parse(&o) {
                Ok(d) => ensure!(d.root == w, "String {s:?} written as {o:?}"),
                Err(e) => fail!("String {s:?} written as {o:?}: {e}"),
            }
        }
        Ok(Err(e)) => fail!("String {s:?} refused: {e}"),
        Err(p) => fail!("{s:?}: {p}"),
    }
    Ok(())
}
fn strings(ctx: &mut Ctx, max: usize) -> R {
    let n = ctx.range(0, max);
    let mut s = String::new();
    for _ in 0..n {
        s.push(*ctx.pick(&CHARS));
    }
    ctx.state(&s);
    let mut split = None;
    if n >= 2 && n <= 3 {
        let k = ctx.choose(n);
        if k > 0 {
            split = s.char_indices().nth(k).map(|x| x.0);
        }
    }
    if split.is_none() {
        typed_string(ctx, &s)?;
    }
    one_string(ctx, &s, split)
}
/// Runs of markup-significant characters only, longer.
fn markup(ctx: &mut Ctx, max: usize) -> R {
    let n = ctx.range(0, max);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*ctx.pick(&["]", ">", "<", "&", "amp;", "\r", "\n", "--"][..]));
    }
    ctx.state(&s);
    typed_string(ctx, &s)?;
    one_string(ctx, &s, None)
}
/// Every Unicode scalar value.
fn every_char(ctx: &mut Ctx) -> R {
    const B: usize = 256;
    let b = ctx.choose(0x110000 / B);
    ctx.state(&b);
    let mut good = String::new();
    for i in 0..B {
        let Some(c) = char::from_u32((b * B + i) as u32) else {
            continue;
        };
        if is_xml_char(c) {
            good.push(c);
            // Neighbours must not matter: also alone.
            if b < 16 {
                one_string(ctx, &c.to_string(), None)?;
                one_string(ctx, &format!("x{c}y"), None)?;
            }
        } else {
            one_string(ctx, &format!("x{c}y"), None)?;
            one_string(ctx, &c.to_string(), None)?;
        }
    }
    typed_string(ctx, &good)?;
    one_string(ctx, &good, None)
}
fn string_ladder(ctx: &mut Ctx) -> R {
    let sizes = ladder_sizes(9000);
    let n = *ctx.pick(&sizes);
    let unit = *ctx.pick(&["x", "<", "&", "é", "\r", "\u{10348}", "]]>", "\"", " "]);
    let tail = *ctx.pick(&["", "&", "<a>", "\0"]);
    ctx.state(&(n, unit, tail));
    let s = format!("{}{tail}", unit.repeat(n));
    typed_string(ctx, &s)?;
    one_string(ctx, &s, None)
}
/// Long strings: lengths in bytes next to powers of two, whole or before or after something to escape or refuse.
fn string_big(ctx: &mut Ctx, to: u32) -> R {
    let n = *ctx.pick(&big_sizes(10, to));
    let unit = *ctx.pick(&["x", "<", "é", "\r", "\u{10348}", "]]>", " "]);
    let (head, tail) = *ctx.pick(&[("", ""), ("&", ""), ("", "&"), ("", "\u{1}"), ("]]", ">")]);
    ctx.state(&(n, unit, head, tail));
    ctx.describe(|| format!("{head:?}, {n} bytes of {unit:?}, {tail:?}"));
    let s = format!("{head}{}{tail}", unit.repeat(n / unit.len()));
    brief(typed_string(ctx, &s), "as fields")?;
    brief(one_string(ctx, &s, None), "as text and attribute")
}

/// Every shape of element tree with text before, between and after.
fn choose_tree(ctx: &mut Ctx, left: &mut usize, texts: &[&str]) -> Prog {
    let mut p = Prog::new(q(*ctx.pick(&["a", "b"])));
    match ctx.choose(3) {
        1 => p.pre.push(Pre::Attr(q("x"), "1".into())),
        2 => {
            p.pre.push(Pre::Attr(q("y"), "<&\"".into()));
            p.pre.push(Pre::Attr(q("x"), "".into()));
        }
        _ => {}
    }
    loop {
        match ctx.choose(if *left > 0 { 3 } else { 2 }) {
            0 => return p,
            1 => {
                // A text call; at most two in a row.
                let k = p.ops.iter().rev().take_while(|o| matches!(o, Op::Text(_))).count();
                if k >= 2 {
                    return p;
                }
                p.ops.push(Op::Text((*ctx.pick(texts)).to_owned()));
                if *left == 0 && p.ops.len() > 4 {
                    return p;
                }
            }
            _ => {
                *left -= 1;
                let c = choose_tree(ctx, left, texts);
                p.ops.push(Op::Child(c));
            }
        }
    }
}
fn trees(ctx: &mut Ctx, extra: usize) -> R {
    let mut left = extra;
    let p = choose_tree(ctx, &mut left, &["t<", ""]);
    ctx.describe(|| p.show());
    ctx.state(&p);
    ctx.compared += 1;
    check_prog(&p)
}
pub fn shape_ladder_prog(kind: usize, n: usize) -> Prog {
    let mut p = Prog::new(q("r"));
    match kind {
        0 => {
            for i in 0..n {
                let mut o = Prog::new(q(if i % 2 == 0 { "a" } else { "b" }));
                if i % 3 == 0 {
                    o.pre.push(Pre::Attr(q("d"), i.to_string()));
                }
                o.ops.push(Op::Child(p));
                p = o;
            }
        }
        1 => {
            for i in 0..n {
                let mut c = Prog::new(q("c"));
                c.ops.push(Op::Text(i.to_string()));
                p.ops.push(Op::Child(c));
            }
        }
        2 => {
            for i in 0..n {
                p.pre.push(Pre::Attr(q(&format!("a{i}")), i.to_string()));
            }
        }
        3 => {
            for i in 0..n {
                p.ops.push(Op::Text(format!("{i}&")));
            }
        }
        _ => {
            for _ in 0..n {
                p.ops.push(Op::Child(Prog::new(q("e"))));
                p.ops.push(Op::Text("\n".into()));
            }
        }
    }
    p
}
fn shape_ladder(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(5);
    let sizes = ladder_sizes(if kind == 2 { 600 } else { 1100 });
    let n = *ctx.pick(&sizes);
    let p = shape_ladder_prog(kind, n);
    ctx.describe(|| format!("kind {kind} size {n}"));
    ctx.state(&(kind, n));
    ctx.compared += 1;
    check_prog(&p)
}
/// Many children, attributes and pieces of text.
fn shape_big(ctx: &mut Ctx, to: u32) -> R {
    let kind = 1 + ctx.choose(4);
    let n = *ctx.pick(&big_sizes(11, if kind == 2 { to.min(13) } else { to }));
    let p = shape_ladder_prog(kind, n);
    ctx.describe(|| format!("kind {kind} size {n}"));
    ctx.state(&(kind, n));
    ctx.compared += 1;
    brief(check_prog(&p), "long")
}

// ---------------------------------------------------------------- options

fn options_check(ctx: &mut Ctx, p: &Prog) -> R {
    let want = p.infoset();
    let run = || Run::new(p, Swallow::default());
    let mut plain = None;
    for indent in [false, true] {
        for decl in [true, false] {
            ctx.compared += 1;
            let r = run();
            let ser = serialize_with_name(&r, xn(&p.name));
            let ser = match (indent, decl) {
                (false, true) => ser,
                (true, true) => ser.perform_indent(true),
                (false, false) => ser.write_document_declaration(false),
                (true, false) => ser.perform_indent(false).write_document_declaration(true).write_document_declaration(false).perform_indent(true),
            };
            let out = match no_panic(|| ser.to_string()) {
                Ok(Ok(o)) => o,
                Ok(Err(e)) => fail!("refused with indent={indent} declaration={decl}: {e}"),
                Err(p) => fail!("{p}"),
            };
            let doc = match parse(&out) {
                Ok(d) => d,
                Err(e) => fail!("indent={indent} declaration={decl}: wrote {out:?}, which is not well-formed: {e}"),
            };
            ensure!(doc.has_decl == decl, "declaration={decl}: wrote {out:?}");
            ensure!(out.matches("<?").count() == decl as usize, "declaration={decl}: wrote {out:?}");
            ensure!(doc.outside.trim().is_empty() && (indent || doc.outside.is_empty()), "text outside the root: {out:?}");
            let mut got = doc.root.clone();
            if indent {
                let mut w = want.clone();
                got.strip_indent();
                w.strip_indent();
                ensure!(got == w, "indented output {out:?} says {got}, expected {w}");
            } else {
                ensure!(got == want, "output {out:?} says {got}, expected {want}");
                let body = out.strip_prefix(&decl_of(&out)).unwrap().to_owned();
                match &plain {
                    None => plain = Some(body),
                    Some(b) => ensure!(*b == body, "the declaration option changed the document: {b:?} / {body:?}"),
                }
            }
            // The same call again, and to any destination.
            let mut v = Vec::new();
            let r1 = ser.to(&mut v);
            ensure!(r1.is_ok() && v == out.as_bytes(), "to() differs from to_string(): {:?} / {out:?}", String::from_utf8_lossy(&v));
            let mut one = OneByte(vec![]);
            let r2 = ser.to(&mut one);
            ensure!(r2.is_ok() && one.0 == out.as_bytes(), "a slow destination got {:?}, expected {out:?}", String::from_utf8_lossy(&one.0));
            match ser.to_string() {
                Ok(o2) => ensure!(o2 == out, "second call wrote {o2:?}, first {out:?}"),
                Err(e) => fail!("second call: {e}"),
            }
        }
    }
    Ok(())
}
fn decl_of(s: &str) -> String {
    match s.find("?>") {
        Some(i) if s.starts_with("<?xml") => s[..i + 2].to_owned(),
        _ => String::new(),
    }
}
struct OneByte(Vec<u8>);
impl std::io::Write for OneByte {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if let Some(x) = b.first() {
            self.0.push(*x);
            Ok(1)
        } else {
            Ok(0)
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Trees without mixed content.
fn choose_data(ctx: &mut Ctx, left: &mut usize) -> Prog {
    let mut p = Prog::new(q(*ctx.pick(&["a", "b"])));
    if ctx.flip() {
        p.pre.push(Pre::Attr(q("x"), " \n\t1 ".into()));
    }
    match ctx.choose(if *left > 0 { 7 } else { 6 }) {
        0 => {}
        1 => p.ops.push(Op::Text("t".into())),
        2 => p.ops.push(Op::Text(" \n ".into())),
        3 => p.ops.push(Op::Text(String::new())),
        4 => {
            p.ops.push(Op::Text(" a\n".into()));
            p.ops.push(Op::Text("\n b ".into()));
        }
        5 => {
            p.ops.push(Op::Text("\n".into()));
        }
        _ => loop {
            *left -= 1;
            let c = choose_data(ctx, left);
            p.ops.push(Op::Child(c));
            if *left == 0 || ctx.choose(2) == 0 {
                break;
            }
        },
    }
    p
}
fn options(ctx: &mut Ctx, extra: usize) -> R {
    let mut left = extra;
    let p = choose_data(ctx, &mut left);
    ctx.describe(|| p.show());
    ctx.state(&p);
    options_check(ctx, &p)
}
fn options_ladder(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(3);
    let sizes = ladder_sizes(600);
    let n = *ctx.pick(&sizes);
    let p = shape_ladder_prog(kind, n);
    ctx.describe(|| format!("kind {kind} size {n}"));
    ctx.state(&(kind, n));
    options_check(ctx, &p)
}
/// Namespaced documents under every option.
fn options_names(ctx: &mut Ctx) -> R {
    let p = crate::names::choose_prog(ctx, crate::names::Bounds { levels: 2, decls: 1, attrs: 1, prefixes: &["", "p"], urls: &["urn:1", "urn:2"], xml: false, probe: true });
    ctx.describe(|| p.show());
    ctx.state(&p);
    options_check(ctx, &p)
}

pub fn models(prop: &str, tier: Tier, v: &mut Vec<Model>) {
    let th = tier == Tier::Thorough;
    match prop {
        "C02" => {
            let n = if th { 5 } else { 4 };
            v.push(model("strings", &format!("all strings of length up to {n} over 18 characters, as text, split text, attribute values"), move |c| strings(c, n)));
            let n = if th { 7 } else { 5 };
            v.push(model("markup", &format!("all sequences of up to {n} of 8 markup fragments"), move |c| markup(c, n)));
            v.push(model("every-character", "every Unicode scalar value as text and attribute value", every_char));
            let n = if th { 3 } else { 2 };
            v.push(model("trees", &format!("all trees of up to {} elements, 2 names, 3 attribute sets, up to 2 text calls in every gap", n + 1), move |c| trees(c, n)));
            v.push(model("string-ladder", "string lengths on a ladder", string_ladder));
            let n = if th { 22 } else { 18 };
            v.push(model("long-strings", &format!("7 strings repeated to lengths of 2^k-1, 2^k and 2^k+1 bytes (k 10 to {n}) x 5 things before and after, as every kind of string"), move |c| string_big(c, n)));
            let n = if th { 18 } else { 16 };
            v.push(model("many", &format!("2^k-1, 2^k and 2^k+1 (k 11 to {n}; attributes to 2^13+1) children, attributes, pieces of text"), move |c| shape_big(c, n)));
            v.push(model("shape-ladder", "depth, width, attributes, text calls on a ladder", shape_ladder));
        }
        "C23" => {
            let n = if th { 4 } else { 3 };
            v.push(model("options", &format!("all trees of up to {} elements without mixed content x 4 option settings x 3 destinations", n + 1), move |c| options(c, n)));
            v.push(model("options-names", "namespaced trees x 4 option settings", options_names));
            v.push(model("options-ladder", "depth, width, attributes on a ladder x 4 option settings", options_ladder));
        }
        _ => {}
    }
    let _ = (xmlt::XML_NS, Node::Text(String::new()));
}

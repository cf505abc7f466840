//! C05 and C24: which names are matched, and which are written.

use crate::doc::*;
use crate::models::{gen_val, leaves};
use crate::*;
use engine::xmlt::{self, qn, El, Node, QN, XML_NS};
use engine::{ensure, fail, model, no_panic, Ctx, R};

const NSS: [&str; 6] = ["", "urn:a", "urn:ab", XML_NS, "urn:zz", "urn:A"];
/// Every URL or local name one edit away from `s`.
fn edits(s: &str, url: bool) -> Vec<String> {
    let cs: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    let extra: &[char] = if url { &['#', '/', ' ', '?', ':', 'x', '\u{e9}'] } else { &['x', '.', '-', '_', '\u{e9}'] };
    for i in 0..=cs.len() {
        for &c in extra {
            let mut d = cs.clone();
            d.insert(i, c);
            v.push(d);
        }
        if i < cs.len() {
            let mut d = cs.clone();
            d.remove(i);
            v.push(d);
            let mut d = cs.clone();
            d.insert(i, cs[i]);
            v.push(d);
            for c in [if cs[i].is_lowercase() { cs[i].to_ascii_uppercase() } else { cs[i].to_ascii_lowercase() }, extra[0], 'x'] {
                let mut d = cs.clone();
                d[i] = c;
                v.push(d);
            }
        }
    }
    let mut v: Vec<String> = v.into_iter().map(|d| d.into_iter().collect()).collect();
    v.sort();
    v.dedup();
    // (xml-rs refuses "--" in names.)
    v.retain(|d| !d.is_empty() && d != s && (url || !d.contains("--")) && (url || d.starts_with(|c: char| c.is_alphabetic() || c == '_')));
    v
}

/// One name, one edit away from a declared one.
fn near_misses(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let slots = doc::slots(&e.ty);
        let n = slots[ctx.choose(slots.len())].name;
        let q = if !n.ns.is_empty() && n.ns != XML_NS && ctx.flip() {
            let v = edits(n.ns, true);
            qn(ctx.pick(&v).as_str(), n.local)
        } else {
            let v = edits(n.local, false);
            qn(n.ns, ctx.pick(&v).as_str())
        };
        let attr = n.ns == XML_NS || ctx.flip();
        let mut el = El::new(e.ty.root().qn());
        if attr {
            el.attrs.push((q, "7".to_owned()));
        } else {
            let mut c = El::new(q);
            c.push_text("7");
            el.kids.push(Node::El(c));
        }
        one(ctx, e, &el, Style::default())
    }
}

/// Reads a document into a type; the value must be the reference's.
fn one(ctx: &mut Ctx, e: &'static Entry, el: &El, st: Style) -> R {
    let xml = print_with(el, st);
    ctx.describe(|| format!("type {}\ndocument {xml}", e.name));
    let want = reader::read(&e.ty, el);
    ctx.compared += 1;
    ctx.state(&(e.name, format!("{want:?}")));
    let got = match no_panic(|| (e.read)(&xml)) {
        Ok(g) => g,
        Err(p) => fail!("{}: {p} reading {xml}", e.name),
    };
    ctx.outcome(if want.is_ok() { "value" } else { "error" });
    if let Err(m) = reader::agree(&want, &got) {
        fail!("{}: reading {xml}: {m}", e.name);
    }
    Ok(())
}

const LOCALS: [&str; 7] = ["a", "ab", "A", "b", "aa", "Ab", "_"];

/// Declared names and everything close to them.
fn probes(ty: &Ty) -> Vec<QN> {
    let mut v: Vec<QN> = Vec::new();
    let slots = doc::slots(ty);
    let few = slots.len() <= 6;
    let mut add = |q: QN| {
        if !q.local.is_empty() && !v.contains(&q) {
            v.push(q)
        }
    };
    for s in &slots {
        let n = s.name;
        add(n.qn());
        if !few {
            let l = n.local;
            add(qn(if n.ns.is_empty() { "urn:zz" } else { "" }, l));
            add(qn(&format!("{}x", if n.ns.is_empty() { "urn:" } else { n.ns }), l));
            add(qn(n.ns, &format!("{l}x")));
            add(qn(n.ns, &l[..l.len() - l.chars().last().unwrap().len_utf8()]));
            add(qn(
                n.ns,
                &l.chars()
                    .map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
                    .collect::<String>(),
            ));
        }
    }
    if few {
        for ns in NSS {
            for l in LOCALS {
                add(qn(ns, l));
            }
        }
    }
    v
}

fn matching(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let ps = probes(&e.ty);
        let mut el = El::new(e.ty.root().qn());
        let put = |el: &mut El, q: &QN, attr: bool, v: &str| {
            if !attr && q.ns == XML_NS {
                return; // not read by xml-rs
            }
            if attr {
                if !el.attrs.iter().any(|a| a.0 == *q) {
                    el.attrs.push((q.clone(), v.to_owned()));
                }
            } else {
                let mut c = El::new(q.clone());
                c.push_text(v);
                el.kids.push(Node::El(c));
            }
        };
        let how = ctx.choose(3);
        match how {
            0 => {
                // One name.
                let q = ctx.pick(&ps).clone();
                let a = ctx.flip();
                put(&mut el, &q, a, "7");
            }
            1 => {
                // Two names; for large tables, both of them declared.
                let two = if ps.len() > 60 {
                    let d = doc::slots(&e.ty);
                    let k = ctx.by_tier(12, 40).min(d.len());
                    let step = d.len() / k;
                    d.iter().step_by(step).map(|s| s.name.qn()).collect()
                } else {
                    ps
                };
                let (i, j) = (ctx.choose(two.len()), ctx.choose(two.len()));
                let (a, b) = (ctx.flip(), ctx.flip());
                put(&mut el, &two[i], a, "1");
                put(&mut el, &two[j], b, "2");
            }
            _ => {
                // Everything at once, either way round; of a choice, everything but the other alternatives.
                let keep = match e.ty {
                    Ty::Choice(d) => Some(ctx.choose(d.alts.len())),
                    _ => None,
                };
                let kinds = ctx.choose(3);
                let mut ps = ps;
                if ctx.flip() {
                    ps.reverse();
                }
                if let (Some(k), Ty::Choice(d)) = (keep, e.ty) {
                    ps.retain(|q| d.alts[k].name.is(q) || !d.alts.iter().any(|a| a.name.is(q)));
                }
                for (i, q) in ps.iter().enumerate() {
                    let v = (i % 200).to_string();
                    if kinds != 1 {
                        put(&mut el, q, false, &v);
                    }
                    if kinds != 0 {
                        put(&mut el, q, true, &v);
                    }
                }
            }
        }
        let st = Style {
            ns: if how == 1 && !ctx.thorough() { 0 } else { ctx.choose(3) },
            ..Style::default()
        };
        one(ctx, e, &el, st)
    }
}

/// Is every name of the type (at any depth) in no namespace?
fn values(ctx: &mut Ctx, e: &Entry) -> Val {
    let n = doc::slots(&e.ty).len();
    let mut rich = 0;
    if n <= 4 {
        return gen_val(ctx, &e.ty, 2, &mut rich);
    }
    // Everything filled or empty, except one field.
    let (fill, which) = (ctx.flip(), ctx.choose(n + 1));
    match e.ty {
        Ty::Struct(d) => Val::St(
            d.fields
                .iter()
                .enumerate()
                .map(|(i, f)| {
                    let on = fill ^ (i == which);
                    let v = || Val::S("7".into());
                    match (f.card, f.mode, f.ty) {
                        (Card::One, _, Ty::Str | Ty::U8 | Ty::Ds) => v(),
                        (Card::Opt, _, Ty::Str | Ty::U8 | Ty::Ds) => {
                            if on {
                                Val::Some(Box::new(v()))
                            } else {
                                Val::None
                            }
                        }
                        (Card::Many, _, Ty::Str | Ty::U8 | Ty::Ds) => Val::List(if on { vec![v(), v()] } else { vec![] }),
                        (Card::One, _, t) => gen_val(ctx, &t, 2, &mut rich),
                        (Card::Opt, ..) => Val::None,
                        (Card::Many, ..) => Val::List(vec![]),
                    }
                })
                .collect(),
        ),
        _ => gen_val(ctx, &e.ty, 2, &mut rich),
    }
}

fn naming(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let v = values(ctx, e);
        ctx.describe(|| format!("type {}\nvalue {v:?}", e.name));
        let Ok(mut want) = writer::write(&e.ty, &v) else { return Ok(()) };
        let named = ctx.flip();
        let r = no_panic(|| if named { (e.write_named)(&v, "", "given") } else { (e.write)(&v, false) });
        let xml = match r {
            Ok(Ok(s)) => s,
            Ok(Err(m)) => fail!("{}: {v:?} refused: {m}", e.name),
            Err(p) => fail!("{}: {p} writing {v:?}", e.name),
        };
        if named {
            want.name = qn("", "given");
        }
        let got = match xmlt::parse(&xml) {
            Ok(d) => d.root,
            Err(m) => fail!("{}: {v:?} written as {xml}: {m}", e.name),
        };
        ctx.compared += 1;
        ctx.state(&(e.name, &v));
        ctx.outcome("written");
        ensure!(got == want, "{}: {v:?} written as {xml}, which is {got}, want {want}", e.name);
        if !unambiguous(&e.ty) || leaves(&v) > 300 {
            return Ok(());
        }
        // The names written are those read, whatever the root is called and however its names are spelled.
        let mut el = want;
        let spell = ctx.choose(4);
        let rename = if ctx.thorough() { ctx.choose(4) } else { (spell + 1) % 4 };
        let name = [el.name.clone(), qn("", "zz"), qn("urn:zz", "a"), qn("urn:a", &el.name.local)][rename].clone();
        el.name = name;
        let st = Style {
            ns: spell,
            ..Style::default()
        };
        let doc = print_with(&el, st);
        for d in [&xml, &doc] {
            match no_panic(|| (e.read)(d)) {
                Ok(Ok(b)) => ensure!(b == v, "{}: {v:?} in {d} reads as {b:?}", e.name),
                Ok(Err(m)) => fail!("{}: {v:?} in {d} is refused: {m:?}", e.name),
                Err(p) => fail!("{}: {p} reading {d}", e.name),
            }
        }
        ctx.outcome("read back");
        Ok(())
    }
}

pub fn models(family: &str, en: &'static [Entry], prop: &str, tier: Tier, out: &mut Vec<Model>) {
    let n = en.len();
    let _ = tier;
    let ns: &'static [Entry] = if family == "flat" {
        Box::leak(en.iter().filter(|e| e.name.starts_with("Ns")).copied().collect::<Vec<_>>().into_boxed_slice())
    } else {
        en
    };
    let n = if prop == "C24" { ns.len() } else { n };
    match (prop, family) {
        ("C05", "name") => {
        out.push(model(
            "name/matching",
            &format!("{n} derived types (all ordered pairs of 16 declared names, all ordered triples of 6, tables of up to 100) x every probe name out of 6 namespaces x 7 local names or one step from a declared name, as element and as attribute, alone, in pairs and all together, in 3 spellings"),
            matching(en),
        ));
        out.push(model(
            "name/near-misses",
            &format!("{n} derived types x every declared name x every name one edit (insertion, deletion, substitution) of its URL or local name away, as element and as attribute"),
            near_misses(Box::leak(en.iter().filter(|e| doc::slots(&e.ty).len() > 0).copied().collect::<Vec<_>>().into_boxed_slice())),
        ));
        }
        ("C24", _) | ("C01", "name") => out.push(model(
            &format!("{family}/naming"),
            &format!("{n} derived types x values with every field filled or empty (all but one alike in large types) x own or given root name x 4 spellings and 4 root names for reading (quick: one root name per spelling)"),
            naming(ns),
        )),
        _ => {}
    }
}

//! Namespaces (C03) and attributes (C26).

use crate::prog::*;
use engine::xmlt::{qn, XML_NS};
use engine::*;
use static_xml::ser::*;

#[derive(Clone, Copy)]
pub struct Bounds {
    pub levels: usize,
    pub decls: usize,
    pub attrs: usize,
    pub prefixes: &'static [&'static str],
    pub urls: &'static [&'static str],
    pub xml: bool,
    /// a second child after the first, to see mappings restored
    pub probe: bool,
}

fn level(ctx: &mut Ctx, b: &Bounds, scope: &mut Vec<&'static str>, depth: usize) -> Prog {
    // Declarations.
    let mut decls = vec![];
    for _ in 0..b.decls {
        let k = ctx.choose(1 + b.prefixes.len() * b.urls.len());
        if k == 0 {
            break;
        }
        let k = k - 1;
        decls.push((b.prefixes[k / b.urls.len()], b.urls[k % b.urls.len()]));
    }
    let outer = scope.clone();
    for (_, u) in &decls {
        if !scope.contains(u) {
            scope.push(u);
        }
    }
    let mut ns: Vec<&str> = vec![""];
    ns.extend(scope.iter());
    if b.xml {
        ns.push(XML_NS);
    }
    let name = qn(*ctx.pick(&ns), if depth % 2 == 0 { "e" } else { "f" });
    let mut p = Prog::new(name);
    let mut attrs = vec![];
    for i in 0..b.attrs {
        let k = ctx.choose(1 + ns.len());
        if k == 0 {
            break;
        }
        // The same local name for all: distinct namespaces must be kept apart.
        let local = if attrs.iter().any(|(n, _): &(engine::xmlt::QN, String)| n.ns == ns[k - 1]) { "y" } else { "x" };
        attrs.push((qn(ns[k - 1], local), format!("v{i}")));
    }
    // Order of the calls.
    let attrs_first = !decls.is_empty() && !attrs.is_empty() && ctx.flip();
    let d: Vec<Pre> = decls.iter().map(|(p, u)| Pre::Ns(p.to_string(), u.to_string())).collect();
    let a: Vec<Pre> = attrs.into_iter().map(|(n, v)| Pre::Attr(n, v)).collect();
    p.pre = if attrs_first { a.into_iter().chain(d).collect() } else { d.into_iter().chain(a).collect() };
    if depth < b.levels {
        p.ops.push(Op::Child(level(ctx, b, scope, depth + 1)));
        if b.probe {
            let mut ns: Vec<&str> = vec![""];
            ns.extend(scope.iter());
            let u = *ctx.pick(&ns);
            let mut c = Prog::new(qn(u, "probe"));
            if ctx.flip() {
                c.pre.push(Pre::Attr(qn(u, "at"), "w".into()));
            }
            p.ops.push(Op::Child(c));
        }
    }
    *scope = outer;
    p
}
pub fn choose_prog(ctx: &mut Ctx, b: Bounds) -> Prog {
    let mut scope = vec![];
    level(ctx, &b, &mut scope, 1)
}
fn names(ctx: &mut Ctx, b: Bounds) -> R {
    let p = choose_prog(ctx, b);
    ctx.describe(|| p.show());
    ctx.state(&p);
    ctx.compared += 1;
    check_prog(&p)
}
/// Any string can be a namespace URL.
fn url_strings(ctx: &mut Ctx, max: usize) -> R {
    let n = ctx.range(1, max);
    let mut u = String::new();
    for _ in 0..n {
        u.push(*ctx.pick(&['a', '<', '&', '"', '\'', '>', ' ', ':', '\t', '\n', '\r', 'é', ';', '\0']));
    }
    let legal = u.chars().all(engine::xmlt::is_xml_char);
    let how = ctx.choose(3);
    let mut p = Prog::new(qn(&u, "e"));
    p.pre.push(Pre::Ns(["p", "", "p"][how].into(), u.clone()));
    if how == 2 {
        p.pre.push(Pre::Attr(qn(&u, "x"), "1".into()));
    }
    p.ops.push(Op::Child(Prog::new(qn(&u, "f"))));
    let mut root = Prog::new(q("r"));
    root.ops.push(Op::Child(p));
    ctx.describe(|| root.show());
    ctx.state(&root);
    ctx.compared += 1;
    if legal {
        check_prog(&root)
    } else {
        match serialize_prog(&root) {
            Ok(Ok(s)) => fail!("URL {u:?} written as {s:?}"),
            Ok(Err(_)) => Ok(()),
            Err(p) => fail!("{p}"),
        }
    }
}
/// Many prefixes, many levels.
fn ns_ladder(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(5);
    let n = *ctx.pick(&ladder_sizes(130));
    ns_many(ctx, kind, n)
}
/// Very many (but nothing is nested so deep).
fn ns_big(ctx: &mut Ctx, to: u32) -> R {
    let kind = *ctx.pick(&[0, 3, 4]);
    let n = *ctx.pick(&big_sizes(8, to));
    brief(ns_many(ctx, kind, n), "many")
}
fn ns_many(ctx: &mut Ctx, kind: usize, n: usize) -> R {
    let mut p = Prog::new(qn("", "r"));
    let url = |i: usize| format!("urn:{i}");
    match kind {
        // many declarations of the same prefix on one element
        0 => {
            for i in 0..n {
                p.pre.push(Pre::Ns("p".into(), url(i)));
            }
            for i in 0..n {
                p.pre.push(Pre::Attr(qn(&url(i), "x"), i.to_string()));
            }
            for i in 0..n {
                p.ops.push(Op::Child(Prog::new(qn(&url(i), "c"))));
            }
        }
        // the same prefix rebound at every level, everything used at the bottom
        1 => {
            let mut leaf = Prog::new(qn("", "leaf"));
            for i in 0..n {
                leaf.pre.push(Pre::Attr(qn(&url(i), "x"), i.to_string()));
                leaf.ops.push(Op::Child(Prog::new(qn(&url(i), "c"))));
            }
            for i in (0..n).rev() {
                let mut o = Prog::new(qn(&url(i), "l"));
                o.pre.push(Pre::Ns(if ctx.tier == Tier::Quick || i % 2 == 0 { "p" } else { "" }.into(), url(i)));
                o.ops.push(Op::Child(leaf));
                o.ops.push(Op::Child(Prog::new(qn(&url(i), "after"))));
                leaf = o;
            }
            p.ops.push(Op::Child(leaf));
        }
        // default namespace alternating with none
        2 => {
            let mut leaf = Prog::new(qn("", "leaf"));
            for i in (0..n).rev() {
                let mut o = Prog::new(if i % 2 == 0 { qn("urn:d", "l") } else { qn("", "l") });
                if i % 2 == 0 {
                    o.pre.push(Pre::Ns("".into(), "urn:d".into()));
                }
                o.ops.push(Op::Child(leaf));
                leaf = o;
            }
            p.ops.push(Op::Child(leaf));
        }
        // generated prefixes
        3 => {
            for i in 0..n {
                p.pre.push(Pre::Ns("".into(), url(i)));
                p.pre.push(Pre::Attr(qn(&url(i), "x"), i.to_string()));
            }
            let mut c = Prog::new(qn("", "c"));
            for i in 0..n {
                c.pre.push(Pre::Ns(format!("ns{i}"), format!("other:{i}")));
                c.pre.push(Pre::Attr(qn(&url(i), "x"), i.to_string()));
                c.pre.push(Pre::Attr(qn(&format!("other:{i}"), "x"), i.to_string()));
            }
            p.ops.push(Op::Child(c));
        }
        // siblings, each with its own mapping of one prefix
        _ => {
            for i in 0..n {
                let mut c = Prog::new(qn(&url(i), "c"));
                c.pre.push(Pre::Ns("p".into(), url(i)));
                p.ops.push(Op::Child(c));
            }
        }
    }
    ctx.describe(|| format!("kind {kind} size {n}"));
    ctx.state(&(kind, n));
    ctx.compared += 1;
    check_prog(&p)
}

// ---------------------------------------------------------------- attributes

/// All sequences of calls, duplicates included.
fn attributes(ctx: &mut Ctx, max: usize, swallow: bool) -> R {
    let names = [qn("", "a"), qn("", "b"), qn("urn:1", "a"), qn("urn:2", "a"), qn("urn:2", "b"), qn("", "A")];
    let mut p = Prog::new(qn("", "e"));
    p.pre.push(Pre::Ns("p".into(), "urn:1".into()));
    p.pre.push(Pre::Ns(ctx.pick(&["q", "p", ""]).to_string(), "urn:2".into()));
    let at_child = ctx.flip();
    let n = ctx.range(0, max);
    let mut calls = vec![];
    for i in 0..n {
        calls.push(Pre::Attr(ctx.pick(&names).clone(), format!("{i}")));
    }
    // Where the mappings come among the attributes.
    let pos = ctx.choose(n + 1);
    let decls = std::mem::take(&mut p.pre);
    let mut pre: Vec<Pre> = calls[..pos].to_vec();
    let off = pre.len();
    pre.extend(decls);
    pre.extend(calls[pos..].to_vec());
    p.pre = pre;
    let _ = off;
    let first_dup = {
        let mut seen = vec![];
        let mut d = None;
        for (i, c) in p.pre.iter().enumerate() {
            if let Pre::Attr(n, _) = c {
                if seen.contains(n) {
                    d = Some((i, n.clone()));
                    break;
                }
                seen.push(n.clone());
            }
        }
        d
    };
    let prog = if at_child {
        let mut r = Prog::new(qn("", "r"));
        r.ops.push(Op::Child(p.clone()));
        r
    } else {
        p.clone()
    };
    ctx.describe(|| format!("{} swallow={swallow}", prog.show()));
    ctx.state(&prog);
    ctx.compared += 1;
    let Some((at, dup)) = first_dup else {
        ctx.outcome("distinct");
        return check_prog(&prog);
    };
    ctx.outcome("duplicate");
    let run = Run::new(&prog, Swallow { attr: swallow, ..Default::default() });
    let r = match no_panic(|| serialize_with_name(&run, xn(&prog.name)).to_string()) {
        Ok(r) => r,
        Err(p) => fail!("{p}"),
    };
    let refused = run.refused.borrow();
    ensure!(!refused.is_empty(), "the duplicate of {dup} was accepted: {r:?}");
    ensure!(refused[0].0 == at, "refused call {} instead of {at}: {}", refused[0].0, refused[0].1);
    ensure!(refused[0].1.contains(&dup.local), "error does not name the attribute: {}", refused[0].1);
    if swallow {
        // Every later duplicate is refused too, and nothing else is.
        let mut seen = vec![];
        let mut want = vec![];
        let mut kept = p.clone();
        kept.pre.clear();
        for (i, c) in p.pre.iter().enumerate() {
            match c {
                Pre::Attr(n, _) if seen.contains(n) => want.push(i),
                Pre::Attr(n, _) => {
                    seen.push(n.clone());
                    kept.pre.push(c.clone());
                }
                c => kept.pre.push(c.clone()),
            }
        }
        let got: Vec<usize> = refused.iter().map(|x| x.0).collect();
        ensure!(got == want, "refused calls {got:?}, duplicates are {want:?}");
        if let Ok(s) = r {
            let want = if at_child {
                let mut r = Prog::new(qn("", "r"));
                r.ops.push(Op::Child(kept));
                r.infoset()
            } else {
                kept.infoset()
            };
            match engine::xmlt::parse(&s) {
                Ok(d) => ensure!(d.root == want, "wrote {s:?}, expected {want}"),
                Err(e) => fail!("wrote {s:?}: {e}"),
            }
        }
    } else {
        ensure!(r.is_err(), "the error was lost: {r:?}");
    }
    Ok(())
}
fn attribute_ladder(ctx: &mut Ctx) -> R {
    let n = *ctx.pick(&ladder_sizes(600));
    attributes_many(ctx, n)
}
fn attribute_big(ctx: &mut Ctx, to: u32) -> R {
    let n = *ctx.pick(&big_sizes(10, to));
    brief(attributes_many(ctx, n), "many")
}
fn attributes_many(ctx: &mut Ctx, n: usize) -> R {
    let kind = ctx.choose(3);
    let dup = ctx.choose(3);
    let mut p = Prog::new(qn("", "e"));
    let url = |i: usize| format!("urn:{}", i % 7);
    for i in 0..7 {
        p.pre.push(Pre::Ns(format!("p{i}"), url(i)));
    }
    for i in 0..n {
        let name = match kind {
            0 => qn("", &format!("a{i}")),
            1 => qn(&url(i), &format!("a{}", i / 7)),
            _ => qn(&url(i * 3), &format!("{}a", "x".repeat(1 + i / 7))),
        };
        p.pre.push(Pre::Attr(name, i.to_string()));
    }
    let mut want_err = None;
    if dup > 0 && n > 0 {
        let again = p.pre[7 + if dup == 1 { 0 } else { n - 1 }].clone();
        if let Pre::Attr(m, _) = &again {
            want_err = Some(m.local.clone());
        }
        p.pre.push(again);
    }
    ctx.describe(|| format!("kind {kind} size {n} duplicate {dup}"));
    ctx.state(&(kind, n, dup));
    ctx.compared += 1;
    match want_err {
        None => check_prog(&p),
        Some(l) => match serialize_prog(&p) {
            Ok(Err(e)) => {
                ensure!(e.to_string().contains(&l), "error does not name {l}: {e}");
                Ok(())
            }
            Ok(Ok(_)) => fail!("duplicate accepted"),
            Err(p) => fail!("{p}"),
        },
    }
}

pub fn models(prop: &str, tier: Tier, v: &mut Vec<Model>) {
    let th = tier == Tier::Thorough;
    const SETS: [(&[&str], &[&str]); 4] = [
        (&["", "p"], &["urn:1", "urn:2"]),
        (&["p", "p2"], &["urn:2", "urn:1"]),
        (&["", "ns1"], &["urn:1", "urn:2"]),
        (&["ns1", "ns2", ""], &["urn:1"]),
    ];
    match prop {
        "C03" => {
            for (i, (prefixes, urls)) in SETS.iter().enumerate() {
                v.push(model(
                    &format!("two-levels-{i}"),
                    &format!("2 levels, up to 2 mappings of {prefixes:?} to {urls:?} and 2 attributes each, any call order, a sibling afterwards"),
                    move |c| names(c, Bounds { levels: 2, decls: 2, attrs: if th { 2 } else { 1 }, prefixes, urls, xml: false, probe: true }),
                ));
                v.push(model(
                    &format!("three-levels-{i}"),
                    &format!("3 levels, up to 1 mapping and 1 attribute each, siblings afterwards, {prefixes:?}, {urls:?}"),
                    move |c| names(c, Bounds { levels: 3, decls: 1, attrs: 1, prefixes, urls, xml: false, probe: true }),
                ));
                if th {
                    v.push(model(
                        &format!("four-levels-{i}"),
                        &format!("4 levels, up to 1 mapping and 1 attribute each, {prefixes:?}, {urls:?}"),
                        move |c| names(c, Bounds { levels: 4, decls: 1, attrs: 1, prefixes, urls, xml: false, probe: false }),
                    ));
                }
            }
            v.push(model(
                "three-urls",
                "2 levels, up to 2 mappings of two prefixes to three URLs each",
                move |c| names(c, Bounds { levels: 2, decls: 2, attrs: 1, prefixes: &["", "p"], urls: &["urn:1", "urn:2", "urn:3"], xml: false, probe: false }),
            ));
            v.push(model(
                "one-level",
                "1 level, up to 3 mappings of 4 prefixes to 2 URLs, 2 attributes, xml namespace",
                move |c| names(c, Bounds { levels: 1, decls: 3, attrs: 2, prefixes: &["", "p", "ns1", "p2"], urls: &["urn:1", "urn:2"], xml: true, probe: false }),
            ));
            let n = if th { 5 } else { 4 };
            v.push(model("url-strings", &format!("all namespace URLs of length up to {n} over 14 characters"), move |c| url_strings(c, n)));
            v.push(model("ladder", "numbers of mappings and levels on a ladder", ns_ladder));
            let n = if th { 12 } else { 10 };
            v.push(model("many", &format!("2^k-1, 2^k and 2^k+1 (k 8 to {n}) mappings on an element or on siblings, generated prefixes"), move |c| ns_big(c, n)));
        }
        "C26" => {
            let n = if th { 5 } else { 4 };
            v.push(model("sequences", &format!("all sequences of up to {n} attribute calls over 6 names, mappings at any point, stopping at the first error"), move |c| attributes(c, n, false)));
            v.push(model("sequences-swallowing", "the same, ignoring errors", move |c| attributes(c, n, true)));
            v.push(model("ladder", "numbers of attributes on a ladder, with and without a duplicate", attribute_ladder));
            let n = if th { 14 } else { 12 };
            v.push(model("many", &format!("2^k-1, 2^k and 2^k+1 (k 10 to {n}) attributes, with and without a duplicate"), move |c| attribute_big(c, n)));
            v.push(model(
                "nested",
                "2 levels with up to 2 attributes and 1 mapping each",
                move |c| names(c, Bounds { levels: 2, decls: 1, attrs: 2, prefixes: &["", "p"], urls: &["urn:1", "urn:2"], xml: true, probe: false }),
            ));
        }
        _ => {}
    }
}

//! Models over every type of a family.

use crate::doc::*;
use crate::reader::{self, agree, CDATA, COMMENT, PI};
use crate::*;
use engine::xmlt::{self, qn, El, Node, QN};
use engine::{ensure, fail, model, no_panic, Ctx, R};

fn check_read(ctx: &mut Ctx, e: &Entry, el: &El, st: Style) -> Result<Result<Val, ReadErr>, engine::Fail> {
    let xml = print_with(el, st);
    ctx.describe(|| format!("type {}: {:?}\ndocument {xml}", e.name, e.ty));
    let want = reader::read(&e.ty, el);
    ctx.describe(|| format!("want {want:?}"));
    let got = match no_panic(|| (e.read)(&xml)) {
        Ok(g) => g,
        Err(p) => fail!("{}: {p} reading {xml}", e.name),
    };
    ctx.compared += 1;
    ctx.state(&(e.name, format!("{want:?}")));
    ctx.outcome(match &want {
        Ok(_) => "value",
        Err(e) if e.iter().any(|e| e.open) => "left open",
        Err(_) => "error",
    });
    if let Err(m) = agree(&want, &got) {
        fail!("{}: reading {xml}: {m}", e.name);
    }
    Ok(got)
}

fn root_el(e: &Entry) -> El {
    El::new(e.ty.root().qn())
}
fn named(name: &N, mut c: El) -> El {
    c.name = name.qn();
    c
}

/// Start tags of a document: position, depth, local name, parent.
fn start_tags(xml: &str) -> Vec<(u64, u64, usize, String, Option<usize>)> {
    let (mut row, mut col) = (0u64, 0u64);
    let mut open: Vec<usize> = Vec::new();
    let mut out: Vec<(u64, u64, usize, String, Option<usize>)> = Vec::new();
    let mut rest = xml;
    while !rest.is_empty() {
        let len = if rest.starts_with("<!--") {
            rest.find("-->").unwrap() + 3
        } else if rest.starts_with("<![CDATA[") {
            rest.find("]]>").unwrap() + 3
        } else if rest.starts_with("<?") {
            rest.find("?>").unwrap() + 2
        } else if rest.starts_with("</") {
            open.pop();
            rest.find('>').unwrap() + 1
        } else if rest.starts_with('<') {
            let end = rest.find('>').unwrap() + 1; // the printer escapes > in attributes
            let name: String = rest[1..].chars().take_while(|c| !c.is_whitespace() && !"/>".contains(*c)).collect();
            let local = name.rsplit(':').next().unwrap().to_owned();
            out.push((row, col, open.len(), local, open.last().copied()));
            if !rest[..end].ends_with("/>") {
                open.push(out.len() - 1);
            }
            end
        } else {
            rest.find('<').unwrap_or(rest.len())
        };
        for c in rest[..len].chars() {
            if c == '\n' {
                row += 1;
                col = 0;
            } else {
                col += 1;
            }
        }
        rest = &rest[len..];
    }
    out
}
/// C08: the stack of a failed read is a chain of elements of the document, from the root.
fn check_stack(xml: &str, e: &ReadErr) -> R {
    let tags = start_tags(xml);
    let mut parent = None;
    for (i, (name, at)) in e.stack.iter().zip(&e.at).enumerate() {
        let hit = tags.iter().position(|t| (t.0, t.1) == *at && t.2 == i && t.3 == *name && t.4 == parent);
        ensure!(hit.is_some(), "entry {i} of the stack, {name} at {at:?}, is no such element of {xml}: {e:?}");
        parent = hit;
        let line = format!("> @ {}:{}", at.0 + 1, at.1 + 1);
        ensure!(e.msg.lines().any(|l| l.contains(&line) && l.contains(name.as_str())), "message lacks <{name}{line}: {}", e.msg);
    }
    Ok(())
}

/// C13: how often each thing occurs, and what is in it.
fn occurrences(entries: &'static [Entry], stacks: bool) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let slots = distinct(&doc::slots(&e.ty));
        let mut el = root_el(e);
        let mut groups: Vec<Vec<El>> = Vec::new();
        let mut bad = false;
        let big = slots.len() > 4;
        // Types with many fields: one of them varies, the others are all present or all absent.
        let vary = if big { ctx.choose(slots.len()) } else { 0 };
        let rest = if big { ctx.choose(3) } else { 0 };
        for (i, s) in slots.iter().enumerate() {
            let max = if s.attr {
                1
            } else if s.card == Card::Many {
                ctx.by_tier(3, 4)
            } else {
                2
            };
            let (valid, invalid) = samples(s.ty, 3);
            let n = if !big || i == vary {
                ctx.choose(max + 1)
            } else {
                [1, 0, if s.card == Card::Many { 3 } else { 1 }][rest]
            };
            let mut g = Vec::new();
            for k in 0..n {
                let free = (!big || i == vary) && (k < ctx.by_tier(2, 3));
                let m = valid.len().min(2);
                let c = if free {
                    let few = slots.len() == 1 || k == 0 && slots.len() < 4;
                    let b = if bad { 0 } else { invalid.len().min(if few { 2 } else { ctx.by_tier(1, 2) }) };
                    ctx.choose(m + b)
                } else {
                    k % m
                };
                bad |= c >= m;
                let c = if c < m { valid[c].clone() } else { invalid[c - m].clone() };
                g.push(named(&s.name, c));
            }
            if s.attr {
                el.attrs.extend(g.into_iter().map(|c| (s.name.qn(), c.text())));
            } else {
                groups.push(g);
            }
        }
        if takes_text(&e.ty) {
            match ctx.choose(3) {
                0 => {}
                1 => el.push_text("7"),
                _ => el.push_text("q "),
            }
        }
        match ctx.choose(3) {
            0 => el.kids.extend(groups.into_iter().flatten().map(Node::El)),
            1 => el.kids.extend(groups.into_iter().rev().flatten().map(Node::El)),
            _ => {
                let mut k = 0;
                while groups.iter().any(|g| g.len() > k) {
                    for g in &groups {
                        if let Some(c) = g.get(k) {
                            el.kids.push(Node::El(c.clone()));
                        }
                    }
                    k += 1;
                }
            }
        }
        if stacks {
            let want = reader::read(&e.ty, &el);
            let xml = print(&el);
            ctx.describe(|| format!("type {}: {:?}\ndocument {xml}\nwant {want:?}", e.name, e.ty));
            ctx.compared += 1;
            ctx.state(&(e.name, format!("{want:?}")));
            // Only failures; whether it must fail is for C13.
            if let (Err(_), Err(g)) = (&want, no_panic(|| (e.read)(&xml)).unwrap_or_else(|_| Ok(Val::None))) {
                ctx.outcome("error");
                if let Err(m) = agree(&want, &Err(g.clone())) {
                    fail!("{}: reading {xml}: {m}", e.name);
                }
                check_stack(&xml, &g)?;
            }
            return Ok(());
        }
        check_read(ctx, e, &el, Style::default())?;
        Ok(())
    }
}

/// C15: every interleaving of children and every order of attributes.
fn interleavings(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let mut slots = distinct(&doc::slots(&e.ty));
        let cap = ctx.by_tier(6, 7);
        // The name must be there for the value to be read.
        let needed = |s: &Slot| own_required(&e.ty, s);
        if slots.iter().filter(|s| !s.attr && needed(s)).count() > 3 || slots.len() > 12 {
            return wide_orders(ctx, e, &slots);
        }
        slots.sort_by_key(|s| !needed(s));
        let mut el = root_el(e);
        let mut attrs = Vec::new();
        let mut groups: Vec<Vec<El>> = Vec::new();
        let mut total = 0;
        let (mut n_attrs, mut choice) = (0, false);
        for s in &slots {
            let (valid, _) = samples(s.ty, 3);
            if s.attr {
                if n_attrs < 4 && (needed(s) || ctx.flip()) {
                    n_attrs += 1;
                    attrs.push((s.name.qn(), valid[n_attrs % valid.len().min(2)].text()));
                }
                continue;
            }
            let room = cap - total;
            let max = if s.card == Card::Many { 3 } else { 1 }.min(room);
            // Two alternatives of one choice conflict whatever the order; at most one is enough here.
            if s.choice && choice && slots.len() > 3 {
                continue;
            }
            let lo = needed(s) as usize;
            let n = ctx.range(lo.min(max), max);
            choice |= s.choice && n > 0;
            total += n;
            if n > 0 {
                groups.push(
                    (0..n)
                        .map(|k| {
                            let mut c = match s.ty {
                                Some(Ty::Str | Ty::Ds) => {
                                    let mut c = El::new(qn("", "x"));
                                    c.push_text(&format!("t{k}"));
                                    c
                                }
                                Some(Ty::U8) => {
                                    let mut c = El::new(qn("", "x"));
                                    c.push_text(&format!("{k}"));
                                    c
                                }
                                _ => valid[k % valid.len()].clone(),
                            };
                            c.name = s.name.qn();
                            c
                        })
                        .collect(),
                );
            }
        }
        let mut canon = el.clone();
        canon.attrs = attrs.clone();
        canon.kids = groups.iter().flatten().cloned().map(Node::El).collect();
        let p = ctx.permutation(attrs.len());
        el.attrs = p.iter().map(|&i| attrs[i].clone()).collect();
        let mut next: Vec<usize> = groups.iter().map(|_| 0).collect();
        loop {
            let open: Vec<usize> = (0..groups.len()).filter(|&g| next[g] < groups[g].len()).collect();
            if open.is_empty() {
                break;
            }
            let g = *ctx.pick(&open);
            el.kids.push(Node::El(groups[g][next[g]].clone()));
            next[g] += 1;
        }
        let want = reader::read(&e.ty, &canon);
        let got = check_read(ctx, e, &el, Style::default())?;
        match (&want, &got) {
            (Ok(w), Ok(g)) => ensure!(w == g, "{}: order changes the value: {g:?}, want {w:?}", e.name),
            (Err(_), Err(_)) => {}
            _ => fail!("{}: order decides: {got:?}, in canonical order {want:?}", e.name),
        }
        Ok(())
    }
}

fn own_required(ty: &Ty, s: &Slot) -> bool {
    match ty {
        Ty::Struct(d) => {
            s.own
                && d.fields.iter().any(|f| {
                    (f.mode == Mode::Attr) == s.attr
                        && matches!(f.mode, Mode::Attr | Mode::Elem)
                        && f.name == s.name
                        && f.card == Card::One
                        && f.default.is_none()
                })
        }
        _ => false,
    }
}
/// Many names: everything present, in rotations, reversals and with any two children exchanged.
fn wide_orders(ctx: &mut Ctx, e: &Entry, slots: &[Slot]) -> R {
    let mut canon = root_el(e);
    for s in slots {
        let (valid, _) = samples(s.ty, 3);
        let n = if s.card == Card::Many { 2 } else { 1 };
        for k in 0..n {
            let c = named(&s.name, valid[k % valid.len()].clone());
            if s.attr {
                canon.attrs.push((s.name.qn(), c.text()));
            } else {
                canon.kids.push(Node::El(c));
            }
        }
    }
    let mut el = canon.clone();
    let n = el.kids.len();
    let same = |el: &El, i: usize, j: usize| matches!((&el.kids[i], &el.kids[j]), (Node::El(a), Node::El(b)) if a.name == b.name);
    match ctx.choose(2) {
        0 => {
            let r = ctx.choose(n);
            // Not between two items of one list.
            if r > 0 && same(&el, r - 1, r) {
                return Ok(());
            }
            el.kids.rotate_left(r);
            let k = ctx.choose(el.attrs.len().max(1));
            el.attrs.rotate_left(k);
        }
        _ => {
            let i = ctx.choose(n);
            let j = ctx.choose(n);
            let name = |k: usize| match &el.kids[k] {
                Node::El(c) => c.name.clone(),
                _ => unreachable!(),
            };
            let multi = |k: usize| (0..n).filter(|&m| name(m) == name(k)).count() > 1;
            if i >= j || multi(i) || multi(j) {
                return Ok(());
            }
            el.kids.swap(i, j);
            el.attrs.reverse();
        }
    }
    let want = reader::read(&e.ty, &canon);
    let got = check_read(ctx, e, &el, Style::default())?;
    ensure!(got.as_ref().ok() == want.as_ref().ok(), "{}: order decides: {got:?}, want {want:?}", e.name);
    Ok(())
}

/// C16, C17: every sequence of children of bounded length, valid or not.
fn sequences(entries: &'static [Entry], q: usize, t: usize) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let slots = distinct(&doc::slots(&e.ty));
        let mut el = root_el(e);
        let attrs: Vec<&Slot> = slots.iter().filter(|s| s.attr).collect();
        // Of many attributes, one is there.
        let wide = slots.len() > 14;
        let one = if wide && !attrs.is_empty() { ctx.choose(attrs.len() + 1) } else { 0 };
        for (i, s) in attrs.iter().enumerate() {
            let (v, iv) = samples(s.ty, 0);
            let k = if wide && i + 1 != one { 0 } else { ctx.choose(2 + iv.len().min(1)) };
            if k > 0 {
                el.attrs.push((s.name.qn(), if k == 1 { &v[0] } else { &iv[0] }.text()));
            }
        }
        let mut alphabet: Vec<Node> = Vec::new();
        let mut foreign = El::new(qn("", "zz"));
        for s in slots.iter().filter(|s| !s.attr) {
            let (v, iv) = samples(s.ty, 2);
            for c in v.into_iter().take(2).chain(iv.into_iter().take(1)) {
                let c = named(&s.name, c);
                if foreign.kids.len() < 3 {
                    foreign.kids.push(Node::El(c.clone()));
                }
                alphabet.push(Node::El(c));
            }
        }
        // Names of skipped alternatives are foreign, too.
        if let Ty::Choice(d) = e.ty {
            for a in d.alts.iter().filter(|a| a.skip) {
                if !slots.iter().any(|s| s.name == a.name) {
                    alphabet.push(Node::El(named(&a.name, foreign.clone())));
                }
            }
        }
        alphabet.push(Node::El(foreign));
        alphabet.push(Node::Text("7".into()));
        let mut len = ctx.by_tier(q, t);
        // Keep wide alphabets tractable.
        while len > 2 && alphabet.len().pow(len as u32) > ctx.by_tier(40_000, 600_000) {
            len -= 1;
        }
        if wide {
            // Nothing or all that is declared, one child of it missing, then one more.
            let docs = base_docs(e);
            let d = ctx.choose(docs.len() + 1);
            if !el.attrs.is_empty() {
                len = 1;
            }
            if d > 0 {
                el.kids = docs[d - 1].kids.clone();
                len = 1;
                if !el.attrs.is_empty() {
                    len = 0;
                } else {
                    el.attrs = docs[d - 1].attrs.clone();
                    let i = ctx.choose(el.kids.len() + 1);
                    if i > 0 {
                        el.kids.remove(i - 1);
                    }
                }
            }
        }
        for _ in 0..len {
            match ctx.choose(alphabet.len() + 1) {
                0 => break,
                i => match &alphabet[i - 1] {
                    Node::Text(t) => el.push_text(t),
                    n => el.kids.push(n.clone()),
                },
            }
            // Reading has failed already: what follows is never seen.
            if reader::dead(&e.ty, &el) {
                break;
            }
        }
        check_read(ctx, e, &el, Style::default())?;
        Ok(())
    }
}

// ---------------------------------------------------------------- undeclared content

enum Place {
    /// Element content of a struct or choice.
    Structure(Ty),
    /// Text only.
    Leaf,
    /// Content which is ignored anyway.
    Ignored,
}
/// Every element of the document with what is read into it.
fn places(el: &El, ty: Option<Ty>, path: &mut Vec<usize>, out: &mut Vec<(Vec<usize>, Place)>) {
    let place = match ty {
        None => Place::Ignored,
        Some(Ty::Str | Ty::U8 | Ty::Ds) => Place::Leaf,
        Some(t) => Place::Structure(t),
    };
    out.push((path.clone(), place));
    let known = match ty {
        Some(t @ (Ty::Struct(_) | Ty::Choice(_))) => doc::slots(&t),
        _ => vec![],
    };
    for (i, k) in el.kids.iter().enumerate() {
        if let Node::El(c) = k {
            let s = known.iter().find(|s| !s.attr && s.name.is(&c.name));
            path.push(i);
            places(c, s.and_then(|s| s.ty), path, out);
            path.pop();
        }
    }
}
fn at<'a>(el: &'a mut El, path: &[usize]) -> &'a mut El {
    match path.split_first() {
        None => el,
        Some((i, rest)) => match &mut el.kids[*i] {
            Node::El(c) => at(c, rest),
            _ => panic!("engine: bad path"),
        },
    }
}
fn flip_case(s: &str) -> String {
    s.chars()
        .map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}
/// Undeclared names that look like declared ones.
fn near(ty: &Ty, attr: bool, outer: &[N], full: bool) -> Vec<QN> {
    let slots = doc::slots(ty);
    let mut v: Vec<QN> = vec![qn("", "zz")];
    let mut inner: Vec<N> = outer.to_vec();
    // Of very many names, the first and the last.
    let many = slots.len() > 60;
    for s in slots.iter().enumerate().filter(|(i, _)| !many || *i < 8 || *i + 8 >= slots.len()).map(|(_, s)| s) {
        let n = s.name;
        v.push(qn(if n.ns.is_empty() { "urn:noise" } else { "" }, n.local));
        if full {
            v.push(qn("urn:noise", n.local));
            v.push(qn(n.ns, &flip_case(n.local)));
            v.push(qn(n.ns, &format!("{}{}", n.local, n.local.chars().next().unwrap())));
        }
        // The same name as the other kind of thing.
        v.push(n.qn());
        if let Some(t @ (Ty::Struct(_) | Ty::Choice(_))) = s.ty {
            inner.extend(doc::slots(&t).iter().map(|s| s.name));
        }
    }
    v.extend(inner.iter().map(|n| n.qn()));
    if let Ty::Choice(d) = ty {
        v.extend(d.alts.iter().filter(|a| a.skip).map(|a| a.name.qn()));
    }
    let mut out = Vec::new();
    for q in v {
        if !slots.iter().any(|s| s.attr == attr && s.name.is(&q)) && !out.contains(&q) {
            out.push(q);
        }
    }
    out
}
fn insert_noise(ctx: &mut Ctx, e: &Entry, el: &mut El) -> bool {
    let mut ps = Vec::new();
    places(el, Some(e.ty), &mut vec![], &mut ps);
    let outer: Vec<N> = doc::slots(&e.ty).iter().map(|s| s.name).take(3).collect();
    let (path, place) = {
        let i = ctx.choose(ps.len());
        ps.swap_remove(i)
    };
    let target = at(el, &path);
    let full = ctx.thorough() || path.is_empty();
    let other = Ty::Struct(&NOTHING);
    let (names_ty, leaf, text) = match &place {
        Place::Structure(t) => (t, false, !takes_text(t)),
        Place::Leaf => (&other, true, false),
        Place::Ignored => (&other, false, true),
    };
    if ctx.flip() {
        const XSI: &str = "http://www.w3.org/2001/XMLSchema-instance";
        let mut given: Vec<(QN, &str)> = near(names_ty, true, &outer, full).into_iter().map(|n| (n, "7")).collect();
        // Those which mean something to other software.
        given.extend([
            (qn(xmlt::XML_NS, "space"), "preserve"),
            (qn(xmlt::XML_NS, "space"), "default"),
            (qn(xmlt::XML_NS, "lang"), ""),
            (qn(xmlt::XML_NS, "id"), "a"),
            (qn(xmlt::XML_NS, "base"), "u:b"),
            (qn(XSI, "nil"), "true"),
            (qn(XSI, "nil"), "1"),
            (qn(XSI, "nil"), "false"),
            (qn(XSI, "type"), "t"),
            (qn(XSI, "schemaLocation"), "u:b u:c"),
            (qn("", "nil"), "true"),
        ]);
        if !full {
            given.retain(|(n, v)| *v == "7" || n.ns == XSI && *v == "true" || *v == "preserve");
        }
        let (n, value) = ctx.pick(&given).clone();
        if target.attrs.iter().any(|a| a.0 == n) {
            return false;
        }
        let at = if target.attrs.is_empty() { 0 } else { ctx.choose(2) * target.attrs.len() };
        target.attrs.insert(at, (n, value.into()));
        return true;
    }
    let names = if leaf { vec![] } else { near(names_ty, false, &outer, full) };
    let n = target.kids.len();
    // In very wide elements: at the start, in the middle, at the end.
    let pos = if n > 40 { ctx.choose(3) * n / 2 } else { ctx.choose(n + 1) };
    let texts: &[String] = &[" \n".to_owned(), format!("j7{CDATA}<k>")];
    let texts = if text { texts } else { &[] };
    let markers = [COMMENT.to_string(), PI.to_string()];
    let k = ctx.choose(2 + texts.len() + 2 * names.len());
    let put = |target: &mut El, t: &str| {
        // Merge with neighbouring text, as a parser sees it.
        if pos > 0 {
            if let Node::Text(s) = &mut target.kids[pos - 1] {
                s.push_str(t);
                return;
            }
        }
        if let Some(Node::Text(s)) = target.kids.get_mut(pos) {
            s.insert_str(0, t);
            return;
        }
        target.kids.insert(pos, Node::Text(t.to_owned()));
    };
    if k < 2 {
        put(target, &markers[k]);
    } else if k < 2 + texts.len() {
        put(target, &texts[k - 2]);
    } else {
        let k = k - 2 - texts.len();
        let mut n = El::new(names[k / 2].clone());
        if k % 2 == 1 {
            // Everything declared elsewhere, inside the ignored element; some of it twice, some of it bad.
            let (mut v, bad) = samples(Some(e.ty), 2);
            v.extend(bad);
            for mut c in v {
                for (an, av) in std::mem::take(&mut c.attrs) {
                    if !n.attrs.iter().any(|a| a.0 == an) {
                        n.attrs.push((an, av));
                    }
                }
                n.kids.extend(c.kids.clone());
                c.name = n.name.clone();
                n.kids.push(Node::El(c));
            }
            n.push_text("9");
            // Adjacent text nodes would read as one.
            let kids = std::mem::take(&mut n.kids);
            for k in kids {
                match k {
                    Node::Text(t) => n.push_text(&t),
                    k => n.kids.push(k),
                }
            }
        }
        target.kids.insert(pos, Node::El(n));
    }
    true
}
pub static NOTHING: StructD = StructD {
    name: "Nothing",
    root: N { ns: "", local: "nothing" },
    fields: &[],
};
/// Overlapping flattened types can ask for one attribute twice; a document can't have it twice.
fn dedup_attrs(e: &mut El) {
    let mut seen: Vec<QN> = Vec::new();
    e.attrs.retain(|a| {
        let new = !seen.contains(&a.0);
        seen.push(a.0.clone());
        new
    });
    for k in &mut e.kids {
        if let Node::El(c) = k {
            dedup_attrs(c);
        }
    }
}
fn base_docs(e: &Entry) -> Vec<El> {
    let (v, iv) = samples(Some(e.ty), 3);
    let mut out: Vec<El> = Vec::new();
    for c in v.into_iter().take(4).chain(iv.into_iter().take(1)) {
        let mut c = named(&e.ty.root(), c);
        dedup_attrs(&mut c);
        if !out.contains(&c) {
            out.push(c);
        }
    }
    out
}
pub fn sample_docs(e: &Entry) -> Vec<El> {
    base_docs(e)
}
/// C13: an attribute given twice, which only prefixes of the same namespace allow.
fn attribute_twice(entries: Vec<&'static Entry>) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = *ctx.pick(&entries);
        let slots: Vec<Slot> = namespaced_attrs(e);
        let s = ctx.pick(&slots);
        let docs = base_docs(e);
        let mut el = ctx.pick(&docs).clone();
        el.attrs.retain(|a| a.0 != s.name.qn());
        let (valid, invalid) = samples(s.ty, 2);
        let texts: Vec<String> = valid.iter().chain(&invalid).map(|c| c.text()).collect();
        let mut xml = print_with(&el, Style::default());
        let n = ctx.range(2, 3);
        let (first, last) = (ctx.flip(), ctx.flip());
        for i in 0..n {
            let v: &String = ctx.pick(&texts);
            let v = xmlt::esc_attr(v);
            let a = format!(" xmlns:d{i}=\"{}\" d{i}:{}=\"{v}\"", s.name.qn().ns, s.name.qn().local);
            let front = if i == 0 { first } else { !last };
            let end = xml.find('>').unwrap();
            let at = if front {
                xml.find(|c: char| c.is_whitespace() || c == '/' || c == '>').unwrap()
            } else if xml[..end].ends_with('/') {
                end - 1
            } else {
                end
            };
            xml.insert_str(at, &a);
        }
        ctx.describe(|| format!("type {}: {:?}\ndocument {xml}", e.name, e.ty));
        ctx.state(&(e.name, &xml));
        ctx.compared += 1;
        match no_panic(|| (e.read)(&xml)) {
            Ok(Ok(v)) => fail!("{}: {xml} gives an attribute twice, read as {v:?}", e.name),
            Ok(Err(_)) => ctx.outcome("error"),
            Err(p) => fail!("{}: {p} reading {xml}", e.name),
        }
        Ok(())
    }
}
fn namespaced_attrs(e: &Entry) -> Vec<Slot> {
    let mut v = distinct(&doc::slots(&e.ty));
    v.retain(|s| s.attr && !s.name.qn().ns.is_empty() && s.name.qn().ns != xmlt::XML_NS);
    v
}

/// C14: one or two insertions of undeclared content.
fn noise(entries: &'static [Entry], two: bool) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let docs = base_docs(e);
        if docs.is_empty() {
            return Ok(());
        }
        let base = ctx.pick(&docs).clone();
        let mut el = base.clone();
        for _ in 0..1 + two as usize {
            if !insert_noise(ctx, e, &mut el) {
                return Ok(());
            }
        }
        let want = reader::read(&e.ty, &base);
        let got = check_read(ctx, e, &el, Style::default())?;
        match (&want, &got) {
            (Ok(w), Ok(g)) => ensure!(w == g, "{}: undeclared content changes the value: {g:?}, want {w:?}", e.name),
            (Err(_), Err(_)) => {}
            _ => fail!("{}: undeclared content decides: {got:?}, without it {want:?}", e.name),
        }
        Ok(())
    }
}

/// C22: text of derived fields is the concatenation of the pieces.
fn pieces(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    const PIECES: &[(&str, &str)] = &[
        ("a", "a"), (" ", " "), ("\n\t", "\n\t"), ("<![CDATA[<b>&amp;]]>", "<b>&amp;"), ("<![CDATA[ ]]>", " "), ("<![CDATA[]]>", ""), ("&lt;", "<"),
        ("&#32;", " "), ("&#x1F600;", "\u{1f600}"), ("<!-- c -->", ""), ("<?p i?>", ""), ("<zz>in<![CDATA[ner]]></zz>", ""),
    ];
    // Type, what surrounds the text, whether a child element is an error.
    const HOLDERS: &[(&str, &str, &str, bool)] = &[
        ("One_es", "<a>", "</a>", true),
        ("One_t", "", "", false),
        ("One_nt", "<a>", "</a>", false),
        ("One_emd", "<a>x</a><a>", "</a><a/>", true),
        ("One_ed", "<a>", "</a>", true),
        ("Two_eu_t", "<b>7</b>", "", false),
    ];
    move |ctx| {
        let (name, open, close, strict) = ctx.pick(HOLDERS);
        let e = entries.iter().find(|e| e.name == *name).expect("engine: no such type");
        let n = ctx.range(0, ctx.by_tier(5, 6));
        let (mut raw, mut text, mut kid) = (String::new(), String::new(), false);
        for _ in 0..n {
            let p = ctx.pick(PIECES);
            raw.push_str(p.0);
            text.push_str(p.1);
            kid |= p.0.starts_with("<zz");
        }
        // Where the first field of this type is named differently:
        let open = if *name == "Two_eu_t" {
            let Ty::Struct(d) = e.ty else { fail!("engine") };
            let f = d.fields[0].name.local;
            format!("<{f}>7</{f}>")
        } else {
            open.to_string()
        };
        let xml = format!("<r>{open}{raw}{close}</r>");
        ctx.describe(|| format!("type {name}: document {xml}"));
        ctx.compared += 1;
        ctx.state(&(name, &text, kid));
        let got = match no_panic(|| (e.read)(&xml)) {
            Ok(g) => g,
            Err(p) => fail!("{name}: {p} reading {xml}"),
        };
        let s = Val::S(text.clone());
        let want = match *name {
            "One_nt" => Val::St(vec![Val::Some(Box::new(Val::St(vec![Val::None, s])))]),
            "One_emd" => Val::St(vec![Val::List(vec![Val::S("x".into()), s, Val::S(String::new())])]),
            "Two_eu_t" => Val::St(vec![Val::S("7".into()), s]),
            _ => Val::St(vec![s]),
        };
        if *strict && kid {
            ctx.outcome("child element refused");
            ensure!(got.is_err(), "{name}: {xml} has an element in text, read as {got:?}");
        } else {
            ctx.outcome("text");
            ensure!(got.as_ref().ok() == Some(&want), "{name}: {xml} read as {got:?}, want {want:?}");
        }
        Ok(())
    }
}

/// C04: every spelling of the sample documents.
fn spellings(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let docs = base_docs(e);
        if docs.is_empty() {
            return Ok(());
        }
        let mut el = ctx.pick(&docs).clone();
        let st = Style {
            ns: ctx.choose(4),
            single_quotes: ctx.flip(),
            spaces: ctx.flip(),
            pairs: ctx.flip(),
            text: ctx.choose(3),
            decl: ctx.flip(),
        };
        if ctx.flip() {
            fn rev(e: &mut El) {
                e.attrs.reverse();
                for k in &mut e.kids {
                    if let Node::El(c) = k {
                        rev(c);
                    }
                }
            }
            rev(&mut el);
        }
        let canon = (e.read)(&print(&el));
        let got = check_read(ctx, e, &el, st)?;
        ensure!(
            canon.is_ok() == got.is_ok() && canon.as_ref().ok() == got.as_ref().ok(),
            "{}: spelling decides: {got:?} with {st:?}, plainly {canon:?}",
            e.name
        );
        Ok(())
    }
}

// ---------------------------------------------------------------- values

const STRINGS: &[&str] = &[
    "x", "", " ", "<&>\"'", "]]>", "\t\n", "\r", "a\r\nb", " a  b ", "\u{e9}\u{1f600}", "&amp;", "<!-- c -->", "\u{85}\u{2028}", "dflt", "7",
];

/// `rich` counts down the leaves to the one which takes every sample value; the others take few.
pub fn gen_val(ctx: &mut Ctx, ty: &Ty, depth: usize, rich: &mut usize) -> Val {
    let here = *rich == 1;
    match ty {
        Ty::Str | Ty::U8 | Ty::Ds => {
            *rich = rich.saturating_sub(1);
            let v: &[&str] = match (ty, here) {
                (Ty::U8, true) => &["0", "7", "255"],
                (Ty::U8, false) => &["7"],
                (_, true) => STRINGS,
                (_, false) => &["x"],
            };
            Val::S(ctx.pick(v).to_string())
        }
        Ty::Struct(d) => Val::St(
            d.fields
                .iter()
                .map(|f| match f.mode {
                    Mode::Flat => gen_val(ctx, &f.ty, depth, rich),
                    _ => gen_card(ctx, f.card, &f.ty, depth, rich, false),
                })
                .collect(),
        ),
        Ty::Choice(d) => {
            let alts: Vec<usize> = (0..d.alts.len())
                .filter(|&i| !d.alts[i].skip && (depth > 0 || !matches!(d.alts[i].of, Some((_, Ty::Struct(_) | Ty::Choice(_))))))
                .collect();
            let i = *ctx.pick(&alts);
            Val::Ch(i, d.alts[i].of.map(|(c, t)| Box::new(gen_card(ctx, c, &t, depth, rich, true))))
        }
    }
}
fn gen_card(ctx: &mut Ctx, card: Card, ty: &Ty, depth: usize, rich: &mut usize, nonempty: bool) -> Val {
    let nested = matches!(ty, Ty::Struct(_) | Ty::Choice(_));
    let lo = nonempty as usize;
    match card {
        Card::One => gen_val(ctx, ty, depth.saturating_sub(nested as usize), rich),
        Card::Opt => {
            let hi = if nested && depth == 0 { 0 } else { 1 };
            if ctx.range(lo, hi.max(lo)) == 0 {
                Val::None
            } else {
                Val::Some(Box::new(gen_val(ctx, ty, depth.saturating_sub(nested as usize), rich)))
            }
        }
        Card::Many => {
            let hi = if nested && depth == 0 {
                lo
            } else if nested {
                ctx.by_tier(2, 2)
            } else {
                ctx.by_tier(2, 3)
            };
            let n = ctx.range(lo, hi);
            Val::List((0..n).map(|_| gen_val(ctx, ty, depth.saturating_sub(nested as usize), rich)).collect())
        }
    }
}
pub fn leaves(v: &Val) -> usize {
    match v {
        Val::S(_) => 1,
        Val::None => 0,
        Val::Some(v) => leaves(v),
        Val::List(l) | Val::St(l) => l.iter().map(leaves).sum(),
        Val::Ch(_, v) => v.as_ref().map_or(0, |v| leaves(v)),
    }
}
fn pick_val(ctx: &mut Ctx, e: &Entry) -> Val {
    // Types with many fields: fewer combinations.
    let n = doc::slots(&e.ty).len();
    let mut rich = ctx.choose(ctx.by_tier(4, 6));
    if n > 6 {
        return wide_val(ctx, &e.ty);
    }
    gen_val(ctx, &e.ty, 2, &mut rich)
}
/// One field varies; the others are all empty or all filled.
fn wide_val(ctx: &mut Ctx, ty: &Ty) -> Val {
    let filled = ctx.flip();
    fn fill(ty: &Ty, filled: bool, depth: usize) -> Val {
        match ty {
            Ty::Str | Ty::Ds => Val::S("w".into()),
            Ty::U8 => Val::S("9".into()),
            Ty::Struct(d) => Val::St(
                d.fields
                    .iter()
                    .map(|f| {
                        let deep = depth > 3;
                        match f.card {
                            Card::One => fill(&f.ty, filled, depth + 1),
                            Card::Opt if filled && !deep => Val::Some(Box::new(fill(&f.ty, filled, depth + 1))),
                            Card::Opt => Val::None,
                            Card::Many if filled && !deep => Val::List(vec![fill(&f.ty, filled, depth + 1); 2]),
                            Card::Many => Val::List(vec![]),
                        }
                    })
                    .collect(),
            ),
            Ty::Choice(d) => {
                let i = d.alts.iter().position(|a| !a.skip).expect("engine: choice without alternatives");
                Val::Ch(
                    i,
                    d.alts[i].of.map(|(c, t)| {
                        let v = fill(&t, filled, depth + 1);
                        Box::new(match c {
                            Card::One => v,
                            Card::Opt => Val::Some(Box::new(v)),
                            Card::Many => Val::List(vec![v]),
                        })
                    }),
                )
            }
        }
    }
    let mut v = fill(ty, filled, 0);
    if let (Ty::Struct(d), Val::St(fs)) = (ty, &mut v) {
        let i = ctx.choose(d.fields.len());
        let f = &d.fields[i];
        let mut rich = 1;
        fs[i] = match f.mode {
            Mode::Flat => gen_val(ctx, &f.ty, 1, &mut rich),
            _ => gen_card(ctx, f.card, &f.ty, 1, &mut rich, false),
        };
    }
    v
}
fn written(ctx: &mut Ctx, e: &Entry, v: &Val, indent: bool) -> Result<Option<(String, El)>, engine::Fail> {
    ctx.describe(|| format!("type {}: {:?}\nvalue {v:?}", e.name, e.ty));
    let want = writer::write(&e.ty, v);
    let got = match no_panic(|| (e.write)(v, indent)) {
        Ok(g) => g,
        Err(p) => fail!("{}: {p} writing {v:?}", e.name),
    };
    ctx.compared += 1;
    ctx.state(&(e.name, v));
    match (want, got) {
        (Err(()), Err(_)) => {
            ctx.outcome("refused");
            Ok(None)
        }
        (Err(()), Ok(s)) => fail!("{}: {v:?} must be refused, written as {s}", e.name),
        (Ok(_), Err(m)) => fail!("{}: {v:?} refused: {m}", e.name),
        (Ok(w), Ok(s)) => {
            ctx.outcome("written");
            let d = match xmlt::parse(&s) {
                Ok(d) => d,
                Err(m) => fail!("{}: {v:?} written as {s}: {m}", e.name),
            };
            let mut g = d.root;
            let mut w = w;
            if indent {
                // Layout also puts white space into elements that are otherwise empty of text.
                g.strip_indent();
                w.strip_indent();
            }
            ensure!(g == w, "{}: {v:?} written as {s}, which is {g}, want {w}", e.name);
            Ok(Some((s, w)))
        }
    }
}
/// C01 (and the content of C02, C15, C16, C24): written as described and read back as the same value.
fn round_trip(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let v = pick_val(ctx, e);
        let Some((xml, _)) = written(ctx, e, &v, false)? else { return Ok(()) };
        if !unambiguous(&e.ty) {
            return Ok(());
        }
        match no_panic(|| (e.read)(&xml)) {
            Ok(Ok(b)) => ensure!(b == v, "{}: {v:?} written as {xml} reads back as {b:?}", e.name),
            Ok(Err(m)) => fail!("{}: {v:?} written as {xml} is refused: {m:?}", e.name),
            Err(p) => fail!("{}: {p} reading {xml}", e.name),
        }
        ctx.outcome("round trip");
        Ok(())
    }
}
/// C23: indented output of types without text between elements reads as the same value.
fn indented(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    fn mixed(ty: &Ty, depth: usize) -> bool {
        depth < 4
            && match ty {
                Ty::Struct(_) | Ty::Choice(_) => {
                    takes_text(ty) || doc::slots(ty).iter().any(|s| s.ty.map_or(false, |t| mixed(&t, depth + 1)))
                }
                _ => false,
            }
    }
    move |ctx| {
        let e = ctx.pick(entries);
        if mixed(&e.ty, 0) || !unambiguous(&e.ty) {
            return Ok(());
        }
        let v = pick_val(ctx, e);
        let Some((xml, _)) = written(ctx, e, &v, true)? else { return Ok(()) };
        match no_panic(|| (e.read)(&xml)) {
            Ok(Ok(b)) => ensure!(b == v, "{}: {v:?} indented as {xml} reads back as {b:?}", e.name),
            Ok(Err(m)) => fail!("{}: {v:?} indented as {xml} is refused: {m:?}", e.name),
            Err(p) => fail!("{}: {p} reading {xml}", e.name),
        }
        let again = (e.write)(&v, true);
        ensure!(again.as_deref() == Ok(&xml[..]), "{}: {v:?} written differently the second time: {again:?}", e.name);
        Ok(())
    }
}
/// Numbers on a ladder: everything up to 40, and around powers of two.
fn counts(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=max.min(40)).collect();
    let mut p = 64;
    while p - 1 <= max {
        v.extend([p - 1, p, p + 1].iter().filter(|x| **x <= max));
        p *= 2;
    }
    v.extend([50, 100, 200, 300, 500, 1000].iter().filter(|x| **x <= max));
    v.sort_unstable();
    v.dedup();
    v
}
#[derive(Clone, Copy, PartialEq)]
enum Way {
    /// documents are read
    Read,
    /// values are written and read back
    Write,
    Both,
}
/// The document is read as the reference says; its value, if it has one, is written and read back.
fn there_and_back(ctx: &mut Ctx, e: &Entry, el: &El, way: Way) -> R {
    if way != Way::Write {
        check_read(ctx, e, el, Style::default())?;
    }
    if way == Way::Read || !unambiguous(&e.ty) {
        return Ok(());
    }
    if let Ok(v) = reader::read(&e.ty, el) {
        if let Some((xml, _)) = written(ctx, e, &v, false)? {
            match no_panic(|| (e.read)(&xml)) {
                Ok(Ok(b)) => ensure!(b == v, "{}: {v:?} written as {xml} reads back as {b:?}", e.name),
                Ok(Err(m)) => fail!("{}: {v:?} written as {xml} is refused: {m:?}", e.name),
                Err(p) => fail!("{}: {p} reading {xml}", e.name),
            }
        }
    }
    Ok(())
}
/// Many items in each list (distinct ones), many foreign elements, long texts.
fn sizes(entries: Vec<&'static Entry>, sz: Vec<usize>, way: Way) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = *ctx.pick(&entries);
        let slots: Vec<Slot> = distinct(&doc::slots(&e.ty)).into_iter().filter(|s| !s.attr).collect();
        let docs = base_docs(e);
        // A document that is read, if there is one.
        let Some(base) = docs.iter().find(|d| reader::read(&e.ty, d).is_ok()).or(docs.first()) else { return Ok(()) };
        let lists: Vec<&Slot> = slots.iter().filter(|s| s.card == Card::Many).take(ctx.by_tier(3, 9)).collect();
        let texts: Vec<&Slot> = slots.iter().filter(|s| matches!(s.ty, Some(Ty::Str | Ty::Ds))).take(2).collect();
        // Foreign content is of no use to what is written.
        let k = 2 * lists.len() + texts.len() + (way != Way::Write) as usize;
        if k == 0 {
            return Ok(());
        }
        let k = ctx.choose(k);
        let n = *ctx.pick(&sz);
        let mut el = base.clone();
        let clear = |el: &mut El, s: &Slot| {
            el.kids.retain(|k| match k {
                Node::El(c) => !slots.iter().any(|o| o.name.is(&c.name) && (o.name == s.name || (s.choice && o.choice))),
                _ => true,
            })
        };
        if k < 2 * lists.len() {
            let s = lists[k / 2];
            clear(&mut el, s);
            let (valid, _) = samples(s.ty, 3);
            let old = std::mem::take(&mut el.kids);
            let mut rest = old.into_iter();
            for i in 0..n {
                let mut c = match s.ty {
                    Some(Ty::Str | Ty::Ds | Ty::U8) => {
                        let mut c = El::new(qn("", "x"));
                        c.push_text(&if matches!(s.ty, Some(Ty::U8)) { format!("{}", i % 256) } else { format!("t{i}") });
                        c
                    }
                    _ => valid[i % valid.len()].clone(),
                };
                c.name = s.name.qn();
                el.kids.push(Node::El(c));
                // Others between the items, or all of them afterwards.
                if k % 2 == 1 {
                    el.kids.extend(rest.next());
                }
            }
            el.kids.extend(rest);
        } else if k < 2 * lists.len() + texts.len() {
            let s = texts[k - 2 * lists.len()];
            clear(&mut el, s);
            let mut c = El::new(s.name.qn());
            let unit: Vec<char> = "x <&\u{e9}\n\u{1f600}] ".chars().collect();
            c.push_text(&(0..n * 3).map(|i| unit[i % unit.len()]).collect::<String>());
            el.kids.push(Node::El(c));
        } else {
            let mut inner = El::new(qn("", "zz"));
            // Before, among and after the element's own children.
            let mut at: [Vec<Node>; 3] = Default::default();
            for i in 0..n {
                let mut c = El::new(qn("urn:noise", ["a", "zz", "b"][i % 3]));
                c.push_text("7");
                if i % 2 == 0 {
                    at[i / 2 % 3].push(Node::El(c));
                } else {
                    inner.kids.push(Node::El(c));
                }
            }
            let [before, among, after] = at;
            let half = el.kids.len() / 2;
            let rest = el.kids.split_off(half);
            el.kids.splice(0..0, before);
            el.kids.extend(among.into_iter().chain(rest).chain(after));
            el.kids.push(Node::El(inner));
            for i in 0..n.min(2049) {
                el.attrs.push((qn(if i % 2 == 0 { "" } else { "urn:noise" }, &format!("zz{i}")), "7".into()));
            }
        }
        there_and_back(ctx, e, &el, way)
    }
}
/// One type for each kind of item a list can have, in each kind of place.
fn list_kinds(entries: &'static [Entry]) -> Vec<&'static Entry> {
    let mut seen = std::collections::BTreeSet::new();
    let mut keep = |e: &&Entry| {
        let slots: Vec<Slot> = distinct(&doc::slots(&e.ty)).into_iter().filter(|s| !s.attr).collect();
        let mut new = false;
        for s in slots.iter().filter(|s| s.card == Card::Many).take(3) {
            let kind: String = format!("{:?}", s.ty).chars().take(12).collect();
            new |= seen.insert((kind, s.choice, slots.len().min(3)));
        }
        new
    };
    entries.iter().filter(|e| keep(e)).collect()
}
/// Types that contain themselves, to a ladder of depths, valid and failing at the bottom.
fn depths(entries: &'static [Entry], max: usize, way: Way) -> impl Fn(&mut Ctx) -> R {
    // Type, names of the elements on the way down (in turn), what is at the bottom, what would be wrong there.
    const REC: &[(&str, &[&str], &str, &str)] = &[
        ("Rec", &["rec"], "v", "v"), ("Tree", &["Node"], "Leaf", "Leaf"), ("MutA", &["b", "a"], "v", "v"), ("RecFlat", &["kids"], "leaf", "leaf"),
    ];
    let sz = counts(max);
    move |ctx| {
        let here: Vec<_> = REC.iter().filter_map(|r| entries.iter().find(|e| e.name == r.0).map(|e| (r, e))).collect();
        let (r, e) = ctx.pick(&here);
        let n = *ctx.pick(&sz);
        let bottom = ctx.choose(4);
        let sides = ctx.choose(3);
        let text = |name: &str, t: &str| {
            let mut c = El::new(qn("", name));
            c.push_text(t);
            c
        };
        let mut el = El::new(qn("", r.1[(n + r.1.len() - 1) % r.1.len()]));
        match bottom {
            0 => {}
            1 => el.kids.push(Node::El(text(r.2, "7"))),
            2 => el.kids.push(Node::El(text(r.3, "x"))),
            _ => {
                el.kids.push(Node::El(text(r.2, "7")));
                el.kids.push(Node::El(text(r.2, "8")));
            }
        }
        for i in (0..n).rev() {
            let mut p = El::new(if i == 0 { e.ty.root().qn() } else { qn("", r.1[(i - 1) % r.1.len()]) });
            let side = || {
                let mut c = el.clone();
                c.kids.retain(|_| false);
                if r.0 == "Tree" {
                    c.kids.push(Node::El(text("Leaf", "1")));
                }
                if r.0 == "RecFlat" {
                    c.kids.push(Node::El(text("leaf", "1")));
                }
                Node::El(c)
            };
            let (a, b) = (side(), side());
            if sides == 1 {
                p.kids.push(a);
            }
            p.kids.push(Node::El(el));
            if sides == 2 {
                p.kids.push(b);
            }
            el = p;
        }
        if n == 0 {
            el.name = e.ty.root().qn();
        }
        there_and_back(ctx, e, &el, way)
    }
}
/// C17: a value holding a skipped alternative is refused; every other is written.
fn skipped(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    fn alts(ctx: &mut Ctx, ty: &Ty) -> Option<Val> {
        match ty {
            Ty::Choice(d) => {
                let i = ctx.choose(d.alts.len());
                let of = &d.alts[i].of;
                Some(Val::Ch(
                    i,
                    match of {
                        None => None,
                        Some((c, t)) => {
                            let mut rich = 1;
                            Some(Box::new(gen_card(ctx, *c, t, 3, &mut rich, false)))
                        }
                    },
                ))
            }
            Ty::Struct(d) => {
                let mut out = Vec::new();
                for f in d.fields {
                    let inner = match (f.card, f.ty) {
                        (Card::One, t @ Ty::Choice(_)) => alts(ctx, &t)?,
                        _ => {
                            let mut rich = 0;
                            match f.mode {
                                Mode::Flat => gen_val(ctx, &f.ty, 3, &mut rich),
                                _ => gen_card(ctx, f.card, &f.ty, 3, &mut rich, false),
                            }
                        }
                    };
                    out.push(inner);
                }
                Some(Val::St(out))
            }
            _ => None,
        }
    }
    move |ctx| {
        let e = ctx.pick(entries);
        if let Some(v) = alts(ctx, &e.ty) {
            written(ctx, e, &v, false)?;
        }
        Ok(())
    }
}

pub fn models(family: &str, en: &'static [Entry], prop: &str, tier: Tier, out: &mut Vec<Model>) {
    let n = en.len();
    let t = tier == Tier::Thorough;
    let m = |name: &str, bounds: String, f: Box<dyn Fn(&mut Ctx) -> R + Send + Sync>| {
        model(&format!("{family}/{name}"), &bounds, f)
    };
    if matches!((prop, family), ("C01", "card" | "flat" | "choice") | ("C13", "card") | ("C14", _) | ("C15", "card" | "choice") | ("C16", "flat") | ("C17", "choice")) {
        let max = if t { 1025 } else { 130 };
        let way = match prop {
            "C01" => Way::Write,
            "C15" | "C16" => Way::Both,
            _ => Way::Read,
        };
        out.push(m(
            "sizes",
            format!("{n} derived types x each of up to {} lists, 2 texts and the foreign content x a ladder of sizes to {max}, list items together or among others; read, written and read back", if t { 9 } else { 3 }),
            Box::new(sizes(en.iter().collect(), counts(max), way)),
        ));
        let some = list_kinds(en);
        if !some.is_empty() {
            let big: Vec<usize> = (10..=16).filter(|k| t || matches!(k, 12 | 16)).flat_map(|k| [(1 << k) - 1, 1 << k, (1 << k) + 1]).collect();
            out.push(m(
                "many",
                format!("{} derived types, one for each kind of list, x each of up to {} lists, 2 texts and the foreign content x {big:?} items; read, written and read back", some.len(), if t { 9 } else { 3 }),
                Box::new(move |c: &mut Ctx| {
                    sizes(some.clone(), big.clone(), way)(c).map_err(|mut f| {
                        f.what = f.what.chars().take(600).collect();
                        f
                    })
                }),
            ));
        }
    }
    if matches!((prop, family), ("C01" | "C13" | "C14" | "C08", "card") | ("C16", "flat") | ("C17", "choice")) {
        let max = if t { 260 } else { 130 };
        let way = match prop {
            "C01" => Way::Write,
            "C16" => Way::Both,
            _ => Way::Read,
        };
        out.push(m(
            "depths",
            format!("types containing themselves, nested to a ladder of depths to {max}, 4 bottoms (2 of them wrong), nothing, something before or something after at every level"),
            Box::new(depths(en, max, way)),
        ));
    }
    match prop {
        "C01" if family != "name" => out.push(m(
            "round_trip",
            format!("{n} derived types x every value: each list 0-2 (thorough 0-3) items, each alternative, each option; each of the first 3 (5) leaves in turn takes every sample text"),
            Box::new(round_trip(en)),
        )),
        "C04" => out.push(m(
            "spellings",
            format!("{n} derived types x sample documents x 4 namespace styles x quotes x white space in tags x empty-element form x 3 text forms x declaration and comments x attribute order"),
            Box::new(spellings(en)),
        )),
        "C13" if family == "card" => out.push(m(
            "occurrences",
            format!("{n} derived structs x 0-2 (lists 0-3) occurrences of every field x contents (at most one bad) x 3 orders; structs of more than 4 names vary one at a time"),
            Box::new(occurrences(en, false)),
        )),
        "C13" if family != "card" => {
            let v: Vec<&'static Entry> = en.iter().filter(|e| !base_docs(e).is_empty() && !namespaced_attrs(e).is_empty()).collect();
            out.push(m(
                "attribute_twice",
                format!("{} derived types x sample documents x each namespaced attribute given two or three times, by different prefixes, with valid and bad texts at either end of the tag", v.len()),
                Box::new(attribute_twice(v)),
            ))
        }
        "C08" if family == "card" => out.push(m(
            "derived_errors",
            format!("{n} derived structs x documents as in C13: message, path and positions of every failure"),
            Box::new(occurrences(en, true)),
        )),
        "C22" if family == "card" => out.push(m(
            "pieces",
            format!("6 text-holding derived types x every sequence of up to {} of 12 pieces", if t { 6 } else { 5 }),
            Box::new(pieces(en)),
        )),
        "C14" => {
            out.push(m(
                "noise",
                format!("{n} derived types x sample documents x every insertion of one undeclared attribute, element (empty or full of declared names), text, comment or PI at every point at every depth"),
                Box::new(noise(en, false)),
            ));
            if t {
                out.push(m("noise2", format!("{n} derived types x sample documents x every pair of insertions"), Box::new(noise(en, true))));
            }
        }
        "C15" => {
            out.push(m(
                "interleavings",
                format!("{n} derived types x every multiset of up to {} children (required ones included) and 4 attributes x every order of them; types with many names: all present, every rotation and every exchange of two", if t { 7 } else { 6 }),
                Box::new(interleavings(en)),
            ));
            out.push(m("written_order", format!("{n} derived types x every value (as in C01): order of attributes and elements written"), Box::new(round_trip(en))));
        }
        "C16" if family == "flat" => {
            out.push(m(
                "sequences",
                format!("{n} structs with flattened fields x every sequence of declared and foreign children, text and attributes, valid or not, up to length {} (shortened for large alphabets to at most {} sequences per type)", if t { 5 } else { 4 }, if t { 600_000 } else { 40_000 }),
                Box::new(sequences(en, 4, 5)),
            ));
            out.push(m("written", format!("{n} structs with flattened fields x every value (as in C01): where content is written"), Box::new(round_trip(en))));
        }
        "C17" if family == "choice" => {
            out.push(m(
                "sequences",
                format!("{n} choices (as root, nested and flattened) x every sequence of alternatives and foreign children, valid or not, up to length {} (shortened for large alphabets to at most {} sequences per type)", if t { 6 } else { 5 }, if t { 600_000 } else { 40_000 }),
                Box::new(sequences(en, 5, 6)),
            ));
            out.push(m("skipped", format!("{n} choices x every alternative including skipped ones: refused or written"), Box::new(skipped(en))));
        }
        "C23" => out.push(m("indented", format!("{n} derived types x every value (as in C01), indented"), Box::new(indented(en)))),
        _ => {}
    }
}

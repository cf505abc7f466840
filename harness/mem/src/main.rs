//! C18: every value constructed while reading is dropped exactly once, however reading ends.
//!
//! Every leaf of every type is a token with a unique number. A thread-local ledger records which are alive; a drop of
//! a number that is not alive (a second drop, or a drop of memory that never held a token) is recorded as well.
#![allow(dead_code, non_camel_case_types)]

use engine::{ensure, fail, model, no_panic, Ctx, Model, Tier, R};
use static_xml::de::{Deserialize as _, ElementReader, ElementVisitor, ParseText, VisitorError};
use static_xml_derive::{Deserialize, ParseText};
use std::cell::RefCell;
use std::collections::BTreeSet;

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Err,
    Panic,
}

#[derive(Default)]
struct Ledger {
    next: u64,
    live: BTreeSet<u64>,
    bad: Vec<u64>,
    made: usize,
    ops: usize,
    fault: Option<(usize, How)>,
    hit: bool,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger { next: 0x5eed_0000_0000, ..Default::default() });
}

/// One step of user code; `Err` or panic if the fault plan says so.
fn op() -> Result<(), static_xml::BoxedStdError> {
    let how = LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.ops += 1;
        match l.fault {
            Some((n, how)) if n + 1 == l.ops => {
                l.hit = true;
                Some(how)
            }
            _ => None,
        }
    });
    match how {
        None => Ok(()),
        Some(How::Err) => Err("planned failure".into()),
        Some(How::Panic) => panic!("planned panic"),
    }
}

struct Tok(u64);

impl Tok {
    fn make() -> Tok {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.next += 1;
            l.made += 1;
            let id = l.next;
            l.live.insert(id);
            Tok(id)
        })
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        let id = self.0;
        let _ = LEDGER.try_with(|l| {
            let mut l = l.borrow_mut();
            if !l.live.remove(&id) {
                l.bad.push(id);
            }
        });
    }
}

impl ParseText for Tok {
    fn parse(text: String) -> Result<Self, static_xml::BoxedStdError> {
        op()?;
        let t = Tok::make();
        op()?;
        if text.starts_with('1') {
            Ok(t)
        } else {
            Err("bad token".into())
        }
    }
}

impl Default for Tok {
    fn default() -> Self {
        if op().is_err() {
            panic!("planned panic");
        }
        Tok::make()
    }
}

struct Tok2(Tok, Tok);

impl ParseText for Tok2 {
    fn parse(text: String) -> Result<Self, static_xml::BoxedStdError> {
        op()?;
        let t = Tok2(Tok::make(), Tok::make());
        op()?;
        if text.starts_with('y') {
            Ok(t)
        } else {
            Err("bad token".into())
        }
    }
}

/// A hand-written reader holding tokens, which takes `a` children and passes others on.
#[derive(Default)]
struct Custom {
    own: Vec<Tok>,
}

impl ElementVisitor for Custom {
    fn element<'a>(&mut self, child: ElementReader<'a>) -> Result<Option<ElementReader<'a>>, VisitorError> {
        op().map_err(VisitorError::Wrap)?;
        if child.expanded_name().local_name != "a" {
            return Ok(Some(child));
        }
        self.own.push(Tok::deserialize(child)?);
        op().map_err(VisitorError::Wrap)?;
        Ok(None)
    }
}

impl static_xml::de::Deserialize for Custom {
    fn deserialize(element: ElementReader<'_>) -> Result<Self, VisitorError> {
        let mut c = Custom { own: vec![Tok::make()] };
        op().map_err(VisitorError::Wrap)?;
        element.read_to(&mut c)?;
        op().map_err(VisitorError::Wrap)?;
        Ok(c)
    }
}

/// Lists the tokens a value holds.
trait Held {
    fn held(&self, h: &mut Vec<u64>);
}
impl Held for Tok {
    fn held(&self, h: &mut Vec<u64>) {
        h.push(self.0)
    }
}
impl Held for Tok2 {
    fn held(&self, h: &mut Vec<u64>) {
        self.0.held(h);
        self.1.held(h);
    }
}
impl Held for Custom {
    fn held(&self, h: &mut Vec<u64>) {
        self.own.held(h)
    }
}
impl<T: Held> Held for Option<T> {
    fn held(&self, h: &mut Vec<u64>) {
        if let Some(v) = self {
            v.held(h)
        }
    }
}
impl<T: Held> Held for Vec<T> {
    fn held(&self, h: &mut Vec<u64>) {
        for v in self {
            v.held(h)
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cut {
    End,
    Fails,
    Panics,
}

struct Source<'a> {
    b: &'a [u8],
    pos: usize,
    then: Cut,
}

impl std::io::Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.pos == self.b.len() {
            return match self.then {
                Cut::End => Ok(0),
                Cut::Fails => Err(std::io::Error::new(std::io::ErrorKind::Other, "planned I/O failure")),
                Cut::Panics => panic!("planned panic"),
            };
        }
        let n = buf.len().min(self.b.len() - self.pos);
        buf[..n].copy_from_slice(&self.b[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
enum End {
    Ok,
    Err,
    Panic,
}

struct Shape {
    name: &'static str,
    /// Per field, the variants of its content: (0 attribute, 1 element, 2 text; markup).
    fields: &'static [&'static [&'static [(u8, &'static str)]]],
    read: fn(Source) -> Result<Box<dyn Held>, static_xml::de::Error>,
}

struct Run {
    end: End,
    ops: usize,
    hit: bool,
    made: usize,
    wrong: Option<String>,
    msg: String,
}

fn read<T: static_xml::de::Deserialize + Held + 'static>(s: Source) -> Result<Box<dyn Held>, static_xml::de::Error> {
    static_xml::de::read::<_, T>(s).map(|v| Box::new(v) as Box<dyn Held>)
}

fn run(s: &Shape, doc: &[u8], cut: Cut, fault: Option<(usize, How)>) -> Run {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.live.clear();
        l.bad.clear();
        l.ops = 0;
        l.made = 0;
        l.hit = false;
        l.fault = fault;
    });
    let r = no_panic(|| (s.read)(Source { b: doc, pos: 0, then: cut }));
    let snap = || LEDGER.with(|l| { let l = l.borrow(); (l.live.clone(), l.bad.clone()) });
    let mut wrong = None;
    let mut set = |s: String| if wrong.is_none() { wrong = Some(s) };
    let (end, msg);
    match r {
        Ok(Ok(v)) => {
            end = End::Ok;
            msg = String::new();
            let (live, bad) = snap();
            let mut held = Vec::new();
            v.held(&mut held);
            let uniq: BTreeSet<u64> = held.iter().copied().collect();
            if !bad.is_empty() {
                set(format!("{} drop(s) of something that is not a live value, although reading succeeded", bad.len()));
            } else if uniq.len() != held.len() {
                set("the value read holds the same token twice".to_owned());
            } else if !uniq.is_subset(&live) {
                set(format!("the value read holds {} token(s) already dropped or never constructed", uniq.difference(&live).count()));
            } else if live.len() > uniq.len() {
                set(format!("{} constructed value(s) neither dropped nor part of the value read", live.len() - uniq.len()));
            }
            if wrong.is_some() {
                // What it holds may be garbage.
                std::mem::forget(v);
            } else {
                drop(v);
                let (live, bad) = snap();
                if !live.is_empty() || !bad.is_empty() {
                    wrong = Some(format!("dropping the value read left {} value(s) and dropped {} that were not alive", live.len(), bad.len()));
                }
            }
        }
        Ok(Err(e)) => {
            end = End::Err;
            msg = e.to_string();
            let (live, bad) = snap();
            if !live.is_empty() {
                set(format!("reading failed and leaked {} constructed value(s)", live.len()));
            }
            if !bad.is_empty() {
                set(format!("reading failed and dropped {} value(s) that were not alive", bad.len()));
            }
        }
        Err(p) => {
            end = End::Panic;
            msg = p;
            let (live, bad) = snap();
            if !live.is_empty() {
                set(format!("unwinding leaked {} constructed value(s)", live.len()));
            }
            if !bad.is_empty() {
                set(format!("unwinding dropped {} value(s) that were not alive", bad.len()));
            }
        }
    }
    LEDGER.with(|l| {
        let l = l.borrow();
        Run { end, ops: l.ops, hit: l.hit, made: l.made, wrong, msg }
    })
}

include!("gen_types.rs");

/// Chooses a shape of the given number of fields and its content.
fn document(ctx: &mut Ctx, shapes: &[&'static Shape]) -> (&'static Shape, String, Vec<usize>) {
    let s = *ctx.pick(shapes);
    let mut parts = Vec::new();
    let mut picks = Vec::new();
    for f in s.fields {
        let i = ctx.choose(f.len());
        picks.push(i);
        parts.push(f[i]);
    }
    if parts.len() > 1 && ctx.flip() {
        parts.reverse();
        picks.push(100);
    }
    let mut attrs = String::new();
    let mut body = String::new();
    for p in parts {
        for (k, x) in p {
            match k {
                0 => attrs.push_str(x),
                _ => body.push_str(x),
            }
        }
    }
    (s, format!("<r xmlns:m=\"http://m\" xmlns:l=\"http://m\"{attrs}>{body}<zz k=\"1\"/></r>"), picks)
}

fn judge(ctx: &mut Ctx, s: &Shape, doc: &str, r: &Run) -> R {
    ctx.compared += 1;
    ctx.outcome(match r.end {
        End::Ok => "read",
        End::Err => "failed",
        End::Panic => "unwound",
    });
    if let Some(w) = &r.wrong {
        fail!("{w}\n  type {} document {doc}\n  outcome {:?} {}", s.name, r.end, r.msg);
    }
    Ok(())
}

fn plain(ctx: &mut Ctx, shapes: &[&'static Shape]) -> R {
    let (s, doc, picks) = document(ctx, shapes);
    ctx.describe(|| format!("{} {doc}", s.name));
    let clean = run(s, doc.as_bytes(), Cut::End, None);
    judge(ctx, s, &doc, &clean)?;
    ensure!(clean.end != End::Panic, "reading panicked: {}\n  type {} document {doc}", clean.msg, s.name);
    ctx.state(&(s.name, &picks, 0usize, 0u8));
    if clean.ops == 0 {
        return Ok(());
    }
    // A failure or panic of user code at one of its steps.
    let k = ctx.choose(clean.ops);
    for how in [How::Err, How::Panic] {
        ctx.state(&(s.name, &picks, k, how as u8));
        let r = run(s, doc.as_bytes(), Cut::End, Some((k, how)));
        ensure!(r.hit, "the fault at step {k} was never reached (not deterministic?)\n  type {} document {doc}", s.name);
        ctx.describe(|| format!("{how:?} at step {k}: {:?} {}", r.end, r.msg));
        judge(ctx, s, &doc, &r)?;
    }
    Ok(())
}

fn cuts(ctx: &mut Ctx, shapes: &[&'static Shape]) -> R {
    let (s, doc, picks) = document(ctx, shapes);
    let n = ctx.choose(doc.len() + 1);
    for cut in [Cut::End, Cut::Fails, Cut::Panics] {
        ctx.state(&(s.name, &picks, n, cut as u8));
        let r = run(s, &doc.as_bytes()[..n], cut, None);
        ctx.describe(|| format!("{} {} then {cut:?}: {:?} {}", s.name, &doc[..n], r.end, r.msg));
        judge(ctx, s, &doc[..n], &r)?;
        if n < doc.len() {
            ensure!(r.end != End::Ok, "read a value from part of a document\n  type {} document {}", s.name, &doc[..n]);
        }
    }
    if n < doc.len() && doc.as_bytes()[n] == b'<' {
        // Malformed from here on.
        let bad = format!("{}</nope>", &doc[..n]);
        let r = run(s, bad.as_bytes(), Cut::End, None);
        judge(ctx, s, &bad, &r)?;
    }
    Ok(())
}

fn count_fields(n: usize) -> Vec<&'static Shape> {
    SHAPES.iter().filter(|s| s.fields.len() == n).collect()
}

fn registry(prop: &str, tier: Tier) -> Vec<Model> {
    let mut v = Vec::new();
    if prop != "C18" {
        return v;
    }
    let bounds = |n: usize, what: &str| format!("{} generated types with {n} field(s), all combinations of the listed contents of each field (absent, good, bad, duplicated, incomplete nested) in both orders; {what}", count_fields(n).len());
    let f = "an error and a panic at every single step of user code";
    let c = "end, I/O error and panic of the source at every byte; malformed from every tag";
    for n in [1, 2, 3] {
        v.push(model(&format!("faults/{n}"), &bounds(n, f), move |ctx| plain(ctx, of_size(n))));
        if n < 3 || tier == Tier::Thorough {
            v.push(model(&format!("cuts/{n}"), &bounds(n, c), move |ctx| cuts(ctx, of_size(n))));
        }
    }
    v
}

fn of_size(n: usize) -> &'static [&'static Shape] {
    use std::sync::OnceLock;
    static C: [OnceLock<Vec<&'static Shape>>; 4] = [OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()];
    C[n].get_or_init(|| count_fields(n))
}

fn main() {
    engine::main(registry)
}

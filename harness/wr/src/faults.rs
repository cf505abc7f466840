//! Failing destinations (C11) and incomplete elements (C12).

use crate::prog::*;
use engine::xmlt::{parse, qn};
use engine::*;
use static_xml::ser::*;
use std::io::{ErrorKind as K, Write};

/// A destination that fails as told and records everything.
struct Dest {
    got: Vec<u8>,
    /// at this offset: Err(kind), or Ok(0) for None, or a panic
    fail_at: usize,
    panics: bool,
    kind: Option<K>,
    once: bool,
    failed: bool,
    after: usize,
    /// accept at most this many bytes per call
    max: usize,
    intr: usize,
    calls: usize,
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        self.calls += 1;
        if self.intr > 0 && self.calls % (self.intr + 1) == 0 {
            return Err(std::io::Error::new(K::Interrupted, "intr"));
        }
        if self.failed {
            self.after += 1;
            if self.once {
                self.got.extend_from_slice(b);
                return Ok(b.len());
            }
        }
        if self.got.len() >= self.fail_at {
            self.failed = true;
            if self.panics {
                panic!("destination");
            }
            return match self.kind {
                Some(k) => Err(std::io::Error::new(k, "injected write failure")),
                None => Ok(0),
            };
        }
        let n = b.len().min(self.max).min(self.fail_at - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn programs() -> Vec<Prog> {
    let mut v = vec![];
    v.push(Prog::new(q("a")));
    let mut p = Prog::new(q("a"));
    p.ops.push(Op::Text("t<é".into()));
    v.push(p);
    let mut p = Prog::new(q("a"));
    p.ops.push(Op::Child(Prog::new(q("b"))));
    v.push(p);
    let mut p = Prog::new(qn("urn:1", "a"));
    p.pre.push(Pre::Ns("p".into(), "urn:1".into()));
    p.pre.push(Pre::Attr(qn("urn:1", "x"), "1".into()));
    p.pre.push(Pre::Attr(q("y"), "&".into()));
    let mut c = Prog::new(qn("urn:1", "b"));
    c.ops.push(Op::Text("x".into()));
    p.ops.push(Op::Child(c));
    p.ops.push(Op::Text("y".into()));
    p.ops.push(Op::Child(Prog::new(q("c"))));
    v.push(p);
    let mut p = Prog::new(q("a"));
    let mut c = Prog::new(q("b"));
    let mut d = Prog::new(q("c"));
    d.ops.push(Op::Text("deep".into()));
    c.ops.push(Op::Child(d));
    p.ops.push(Op::Child(c.clone()));
    p.ops.push(Op::Child(c));
    v.push(p);
    v
}

fn swallow_mode(i: usize) -> Swallow {
    let n = Swallow::default();
    match i {
        0 => n,
        1 => Swallow::ALL,
        2 => Swallow { text: true, ..n },
        3 => Swallow { start: true, child: true, ..n },
        4 => Swallow { finish: true, ..n },
        _ => Swallow { child: true, ..n },
    }
}

fn write_faults(ctx: &mut Ctx) -> R {
    let ps = programs();
    let p = ctx.pick(&ps).clone();
    let indent = ctx.flip();
    let decl = ctx.flip();
    let plain = Run::new(&p, Swallow::default());
    let good = serialize_with_name(&plain, xn(&p.name))
        .perform_indent(indent)
        .write_document_declaration(decl)
        .to_string()
        .map_err(|e| Fail { key: String::new(), what: format!("refused: {e}") })?;
    let at = ctx.choose(good.len() + 1);
    let kind = *ctx.pick(&[
        Some(K::Other), Some(K::BrokenPipe), Some(K::WouldBlock), Some(K::InvalidData), Some(K::InvalidInput), Some(K::TimedOut),
        Some(K::PermissionDenied), Some(K::UnexpectedEof), Some(K::ConnectionReset), Some(K::OutOfMemory), Some(K::WriteZero),
        Some(K::NotFound), None,
    ]);
    let once = ctx.flip();
    let max = [usize::MAX, 1][ctx.choose(2)];
    let intr = ctx.choose(2);
    let sw = ctx.choose(6);
    let mut d = Dest {
        got: vec![],
        fail_at: at,
        panics: false,
        kind,
        once,
        failed: false,
        after: 0,
        max,
        intr,
        calls: 0,
    };
    ctx.describe(|| format!("{}\nfails at byte {at} with {kind:?}, once={once}, per call {max}, interrupted={intr}, swallow mode {sw}; correct output {good:?}", p.show()));
    ctx.state(&(&p, at, indent, decl, sw));
    ctx.compared += 1;
    let run = Run::new(&p, swallow_mode(sw));
    let r = match no_panic(|| {
        serialize_with_name(&run, xn(&p.name))
            .perform_indent(indent)
            .write_document_declaration(decl)
            .to(&mut d)
    }) {
        Ok(r) => r,
        Err(p) => fail!("{p}"),
    };
    let got = String::from_utf8_lossy(&d.got).into_owned();
    if !d.failed {
        // The failure lies beyond the end.
        ensure!(at >= good.len(), "stopped before the failure: {r:?}");
        ensure!(r.is_ok(), "refused although every write succeeded: {r:?}");
        ensure!(d.got == good.as_bytes(), "wrote {got:?} instead of {good:?}");
        ctx.outcome("complete");
    } else {
        ensure!(r.is_err(), "reported success although a write failed; destination holds {got:?}");
        ensure!(d.after == 0, "{} writes after the failure; destination holds {got:?}", d.after);
        ensure!(good.as_bytes().starts_with(&d.got), "destination holds {got:?}, not a prefix of {good:?}");
        ctx.outcome("failed");
    }
    Ok(())
}
/// The destination panics, which the code of each element catches or not.
fn write_panics(ctx: &mut Ctx) -> R {
    let ps = programs();
    let p = ctx.pick(&ps).clone();
    let plain = Run::new(&p, Swallow::default());
    let good = serialize_with_name(&plain, xn(&p.name)).to_string().map_err(|e| Fail { key: String::new(), what: format!("refused: {e}") })?;
    let at = ctx.choose(good.len() + 1);
    let once = ctx.flip();
    let max = [usize::MAX, 1][ctx.choose(2)];
    let sw = ctx.choose(6);
    let catch = ctx.choose(4);
    let mut d = Dest { got: vec![], fail_at: at, panics: true, kind: None, once, failed: false, after: 0, max, intr: 0, calls: 0 };
    ctx.describe(|| format!("{}\npanics at byte {at}, once={once}, per call {max}, swallow mode {sw}, caught {}; correct output {good:?}", p.show(), ["nowhere", "around text", "around elements", "everywhere"][catch]));
    ctx.state(&(&p, at, sw, catch));
    ctx.compared += 1;
    let mut run = Run::new(&p, swallow_mode(sw));
    run.catch = catch;
    let r = no_panic(|| serialize_with_name(&run, xn(&p.name)).to(&mut d));
    let got = String::from_utf8_lossy(&d.got).into_owned();
    if !d.failed {
        ensure!(at >= good.len(), "stopped before the failure: {r:?}");
        ensure!(matches!(r, Ok(Ok(()))) && d.got == good.as_bytes(), "{r:?} and {got:?} instead of {good:?}");
        ctx.outcome("complete");
    } else {
        ensure!(!matches!(r, Ok(Ok(()))), "reported success although a write panicked; destination holds {got:?}");
        ensure!(d.after == 0, "{} writes after the panic; destination holds {got:?}", d.after);
        ensure!(good.as_bytes().starts_with(&d.got), "destination holds {got:?}, not a prefix of {good:?}");
        ctx.outcome(if r.is_err() { "panic" } else { "error" });
    }
    Ok(())
}
/// Short and interrupted writes in every pattern change nothing.
fn short_writes(ctx: &mut Ctx) -> R {
    let ps = programs();
    let p = ctx.pick(&ps).clone();
    let plain = Run::new(&p, Swallow::default());
    let good = serialize_with_name(&plain, xn(&p.name)).to_string().map_err(|e| Fail { key: String::new(), what: format!("{e}") })?;
    let max = 1 + ctx.choose(9);
    let intr = ctx.choose(4);
    let mut d = Dest {
        got: vec![],
        fail_at: usize::MAX,
        panics: false,
        kind: None,
        once: false,
        failed: false,
        after: 0,
        max,
        intr,
        calls: 0,
    };
    ctx.describe(|| format!("{} max {max} intr {intr}", p.show()));
    ctx.state(&(&p, max, intr));
    ctx.compared += 1;
    match no_panic(|| serialize_with_name(&plain, xn(&p.name)).to(&mut d)) {
        Ok(Ok(())) => ensure!(d.got == good.as_bytes(), "wrote {:?}", String::from_utf8_lossy(&d.got)),
        Ok(Err(e)) => fail!("refused: {e}"),
        Err(p) => fail!("{p}"),
    }
    Ok(())
}
fn fault_ladder(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(4);
    let p = crate::text::shape_ladder_prog(kind, [300, 400, 300, 900][kind]);
    fault_far(ctx, kind, p, &ladder_sizes(9000))
}
/// The same, next to powers of two far into documents of a few hundred kilobytes.
fn fault_big(ctx: &mut Ctx) -> R {
    let kind = ctx.choose(4);
    let p = match kind {
        0 => {
            let mut p = Prog::new(q("r"));
            p.ops.push(Op::Text("t".repeat(300_000)));
            p
        }
        1 => crate::text::shape_ladder_prog(1, 25_000),
        2 => {
            let mut p = Prog::new(q("r"));
            p.pre.push(Pre::Attr(q("x"), "é".repeat(150_000)));
            p
        }
        _ => crate::text::shape_ladder_prog(3, 30_000),
    };
    fault_far(ctx, kind, p, &crate::prog::big_sizes(10, 18))
}
fn fault_far(ctx: &mut Ctx, kind: usize, p: Prog, sizes: &[usize]) -> R {
    let plain = Run::new(&p, Swallow::default());
    let good = serialize_with_name(&plain, xn(&p.name)).to_string().map_err(|e| Fail { key: String::new(), what: format!("{e}") })?;
    let sizes: Vec<usize> = sizes.iter().copied().filter(|s| *s < good.len()).collect();
    let at = *ctx.pick(&sizes);
    let back = ctx.flip();
    let at = if back { good.len() - 1 - at } else { at };
    let sw = ctx.choose(2);
    let mut d = Dest {
        got: vec![],
        fail_at: at,
        panics: false,
        kind: Some(K::Other),
        once: true,
        failed: false,
        after: 0,
        max: usize::MAX,
        intr: 0,
        calls: 0,
    };
    ctx.describe(|| format!("kind {kind} fails at {at} of {} swallow {sw}", good.len()));
    ctx.state(&(kind, at, sw));
    ctx.compared += 1;
    let run = Run::new(&p, swallow_mode(sw));
    match no_panic(|| serialize_with_name(&run, xn(&p.name)).to(&mut d)) {
        Ok(r) => {
            ensure!(r.is_err(), "success although a write failed");
            ensure!(d.after == 0, "{} writes after the failure", d.after);
            ensure!(good.as_bytes().starts_with(&d.got), "not a prefix");
        }
        Err(p) => fail!("{p}"),
    }
    Ok(())
}

// ---------------------------------------------------------------- incomplete elements

const FATES: [Fate; 11] = [
    Fate::Complete,
    Fate::DropBuilder,
    Fate::DropBuilderLate,
    Fate::DropWriter,
    Fate::DropWriterLate,
    Fate::Panic,
    Fate::PanicBuilder,
    Fate::PanicStart,
    Fate::ForgetBuilder,
    Fate::ForgetWriter,
    Fate::ForgetWriterLate,
];
fn choose_fates(ctx: &mut Ctx, left: &mut usize, depth: usize, budget: &mut usize) -> Prog {
    let mut p = Prog::new(q(["a", "b", "c", "d"][depth.min(3)]));
    if depth > 0 && *budget > 0 {
        p.fate = FATES[ctx.choose(FATES.len())];
        if p.fate != Fate::Complete {
            *budget -= 1;
        }
    }
    if ctx.flip() {
        p.pre.push(Pre::Attr(q("x"), "1".into()));
    }
    loop {
        match ctx.choose(if *left > 0 { 3 } else { 2 }) {
            0 => return p,
            1 => {
                if matches!(p.ops.last(), Some(Op::Text(_))) {
                    return p;
                }
                p.ops.push(Op::Text("t".into()));
                if *left == 0 {
                    return p;
                }
            }
            _ => {
                *left -= 1;
                let c = choose_fates(ctx, left, depth + 1, budget);
                p.ops.push(Op::Child(c));
            }
        }
    }
}
fn incomplete(ctx: &mut Ctx, extra: usize, budget: usize) -> R {
    let (mut left, mut b) = (extra, budget);
    let p = choose_fates(ctx, &mut left, 0, &mut b);
    let sw = ctx.choose(2);
    let root_fails = ctx.choose(3);
    ctx.describe(|| format!("{} swallow mode {sw}, root returns error: {root_fails}", p.show()));
    ctx.state(&(&p, sw, root_fails));
    ctx.compared += 1;
    let run = Run::new(&p, swallow_mode(sw));
    struct Failing<'a, 'b>(&'a Run<'b>, usize);
    impl Serialize for Failing<'_, '_> {
        fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
            self.0.write_attributes(b)?;
            if self.1 == 1 {
                return Err(Error("user".into()));
            }
            Ok(())
        }
        fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
            self.0.write_children(w)?;
            if self.1 == 2 {
                return Err(Error("user".into()));
            }
            Ok(())
        }
    }
    let f = Failing(&run, root_fails);
    let r = match no_panic(|| serialize_with_name(&f, xn(&p.name)).to_string()) {
        Ok(r) => r,
        Err(p) => fail!("{p}"),
    };
    if p.complete() && root_fails == 0 {
        ctx.outcome("complete");
        match r {
            Ok(s) => match parse(&s) {
                Ok(d) => ensure!(d.root == p.infoset(), "wrote {s:?}, expected {}", p.infoset()),
                Err(e) => fail!("wrote {s:?}: {e}"),
            },
            Err(e) => fail!("refused although everything was completed: {e}"),
        }
    } else {
        ctx.outcome("incomplete");
        if let Ok(s) = r {
            fail!("success reported for an incomplete document: {s:?}");
        }
    }
    Ok(())
}
fn incomplete_ladder(ctx: &mut Ctx) -> R {
    // One abandoned element among many, at every position of a ladder.
    let kind = ctx.choose(2);
    let n = *ctx.pick(&ladder_sizes(300));
    incomplete_many(ctx, kind, n)
}
fn incomplete_big(ctx: &mut Ctx, to: u32) -> R {
    let n = *ctx.pick(&big_sizes(10, to));
    brief(incomplete_many(ctx, 0, n), "many")
}
fn incomplete_many(ctx: &mut Ctx, kind: usize, n: usize) -> R {
    let bad = ctx.choose(4);
    let fate = FATES[ctx.choose(FATES.len())];
    let mut p = Prog::new(q("r"));
    let pos = [0, n / 2, n.saturating_sub(1), n][bad];
    if kind == 0 {
        for i in 0..=n {
            let mut c = Prog::new(q("c"));
            if i == pos {
                c.fate = fate;
            }
            p.ops.push(Op::Child(c));
        }
    } else {
        let mut inner = Prog::new(q("x"));
        inner.fate = if pos == n { fate } else { Fate::Complete };
        for i in (0..n).rev() {
            let mut c = Prog::new(q("c"));
            if i == pos {
                c.fate = fate;
            }
            c.ops.push(Op::Child(inner));
            c.ops.push(Op::Text("t".into()));
            inner = c;
        }
        p.ops.push(Op::Child(inner));
    }
    ctx.describe(|| format!("kind {kind}, {n} elements, {fate:?} at {pos}"));
    ctx.state(&(kind, n, bad, fate));
    ctx.compared += 1;
    let run = Run::new(&p, Swallow::ALL);
    match no_panic(|| serialize_with_name(&run, xn(&p.name)).to_string()) {
        Ok(Ok(s)) => {
            ensure!(p.complete(), "success reported for an incomplete document");
            match parse(&s) {
                Ok(d) => ensure!(d.root == p.infoset(), "wrong document"),
                Err(e) => fail!("{e}"),
            }
        }
        Ok(Err(e)) => ensure!(!p.complete(), "refused: {e}"),
        Err(p) => fail!("{p}"),
    }
    Ok(())
}

pub fn models(prop: &str, tier: Tier, v: &mut Vec<Model>) {
    let th = tier == Tier::Thorough;
    match prop {
        "C11" => {
            v.push(model("write-faults", "5 documents x every byte x 12 error kinds and zero-length writes x once/persistent x chunk size x interruption x 6 ways of discarding errors x options", write_faults));
            v.push(model("write-panics", "5 documents x every byte x the destination panicking there once or for ever x chunk size x 4 ways of catching it x 6 ways of discarding errors", write_panics));
            v.push(model("short-writes", "5 documents x 9 write sizes x 4 interruption patterns", short_writes));
            v.push(model("fault-ladder", "long documents, failures at offsets on a ladder", fault_ladder));
            v.push(model("far-faults", "4 documents of about 300 KB, failures at 2^k-1, 2^k and 2^k+1 bytes (k 10 to 18) from either end", fault_big));
        }
        "C12" => {
            let (n, b) = if th { (4, 3) } else { (3, 2) };
            v.push(model("incomplete", &format!("all element trees of up to {} elements with up to {b} abandoned in 10 ways, attributes, text; errors discarded or propagated; the type itself failing or not", n + 1), move |c| incomplete(c, n, b)));
            v.push(model("ladder", "one abandoned element among many", incomplete_ladder));
            let n = if th { 18 } else { 16 };
            v.push(model("many", &format!("one abandoned element among 2^k-1, 2^k and 2^k+1 (k 10 to {n}) siblings"), move |c| incomplete_big(c, n)));
        }
        _ => {}
    }
}

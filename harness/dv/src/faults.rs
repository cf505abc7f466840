//! Derived types whose source ends or fails (C10), or whose destination fails (C11), at every byte.

use crate::doc::print;
use crate::models::sample_docs;
use crate::*;
use engine::{ensure, fail, model, no_panic, Ctx, Model, Tier, R};
use std::io::{Error, ErrorKind, Read, Write};

struct Src<'a> {
    left: &'a [u8],
    /// Fails here (from the end: so many bytes are left).
    fail: Option<usize>,
    once: bool,
    failed: bool,
    chunk: usize,
    interrupt: usize,
    calls: usize,
}
impl Read for Src<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.interrupt > 0 && self.calls % (self.interrupt + 1) == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = self.left.len().min(buf.len()).min(self.chunk);
        if let Some(keep) = self.fail.filter(|_| !(self.once && self.failed)) {
            if self.left.len() <= keep {
                self.failed = true;
                return Err(Error::new(ErrorKind::TimedOut, "injected failure"));
            }
            n = n.min(self.left.len() - keep);
        }
        buf[..n].copy_from_slice(&self.left[..n]);
        self.left = &self.left[n..];
        Ok(n)
    }
}
fn source(left: &[u8]) -> Src<'_> {
    Src { left, fail: None, once: false, failed: false, chunk: usize::MAX, interrupt: 0, calls: 0 }
}

fn read_faults(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let docs = sample_docs(e);
        let xml = print(ctx.pick(&docs));
        let doc = xml.as_bytes();
        let whole = (e.read)(&xml);
        let how = ctx.choose(4);
        ctx.compared += 1;
        if how == 3 {
            // In pieces, interrupted.
            let chunk = *ctx.pick(&[usize::MAX, 1, 2, 3, 5, 7]);
            let interrupt = ctx.choose(3);
            ctx.describe(|| format!("type {}: {xml} in pieces of {chunk}, interrupted: {interrupt}", e.name));
            ctx.state(&(&xml, chunk));
            let mut s = source(doc);
            s.chunk = chunk;
            s.interrupt = interrupt;
            return match (no_panic(|| (e.read_from)(&mut s)), whole) {
                (Ok(Ok(a)), Ok(b)) => {
                    ensure!(a == b, "{}: {xml} in pieces gives {a:?}, whole {b:?}", e.name);
                    ctx.outcome("same value");
                    Ok(())
                }
                (Ok(Err(a)), Err(b)) => {
                    ensure!(a.0.msg == b.msg, "{}: {xml} in pieces: {:?}, whole {:?}", e.name, a.0.msg, b.msg);
                    ctx.outcome("same error");
                    Ok(())
                }
                (Ok(a), b) => fail!("{}: {xml} in pieces gives {a:?}, whole {b:?}", e.name),
                (Err(p), _) => fail!("{}: {p} reading {xml}", e.name),
            };
        }
        let at = ctx.choose(doc.len() + (how > 0) as usize);
        ctx.describe(|| format!("type {}: {xml}\n{} at byte {at}", e.name, ["ends", "fails", "fails once"][how]));
        ctx.state(&(&xml, at));
        let mut s = source(if how == 0 { &doc[..at] } else { doc });
        if how > 0 {
            s.fail = Some(doc.len() - at);
            s.once = how == 2;
        }
        match no_panic(|| (e.read_from)(&mut s)) {
            Ok(Ok(v)) => fail!("{}: {xml} {} at byte {at} and gives {v:?}", e.name, ["ends", "fails", "fails"][how]),
            Ok(Err((m, io))) => {
                // (A type which refuses the document may do so before the failure.)
                ensure!(how == 0 || whole.is_err() || io.contains("injected failure"), "{}: {xml} fails at byte {at}: the error is not a source of {:?}", e.name, m.msg);
                ctx.outcome(if how == 0 { "ends" } else if io.is_empty() { "refused" } else { "source" });
                Ok(())
            }
            Err(p) => fail!("{}: {p} reading {xml}", e.name),
        }
    }
}

struct Dest {
    got: Vec<u8>,
    fail_at: usize,
    zero: bool,
    once: bool,
    failed: bool,
    after: usize,
    max: usize,
}
impl Write for Dest {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.failed {
            self.after += 1;
            if self.once {
                self.got.extend_from_slice(b);
                return Ok(b.len());
            }
        }
        if self.got.len() >= self.fail_at {
            self.failed = true;
            return if self.zero { Ok(0) } else { Err(Error::new(ErrorKind::BrokenPipe, "injected failure")) };
        }
        let n = b.len().min(self.max).min(self.fail_at - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn write_faults(entries: &'static [Entry]) -> impl Fn(&mut Ctx) -> R {
    move |ctx| {
        let e = ctx.pick(entries);
        let docs = sample_docs(e);
        let Ok(v) = crate::reader::read(&e.ty, ctx.pick(&docs)) else { return Ok(()) };
        let Ok(good) = (e.write)(&v, false) else { return Ok(()) };
        let at = ctx.choose(good.len() + 1);
        let (zero, once) = *ctx.pick(&[(false, false), (false, true), (true, true)]);
        let max = *ctx.pick(&[usize::MAX, 1, 3]);
        ctx.describe(|| format!("type {}: {v:?}\nwritten as {good}; fails at byte {at} zero-length={zero} once={once}, at most {max} bytes a call", e.name));
        ctx.state(&(&good, at));
        ctx.compared += 1;
        let mut d = Dest { got: vec![], fail_at: at, zero, once, failed: false, after: 0, max };
        match no_panic(|| (e.write_to)(&v, &mut d)) {
            Ok(r) => {
                let got = String::from_utf8_lossy(&d.got).into_owned();
                if d.failed {
                    ensure!(r.is_err(), "{}: success although the destination failed at byte {at}: {got}", e.name);
                    ensure!(d.after == 0, "{}: {} writes after the failure at byte {at}", e.name, d.after);
                    ensure!(good.starts_with(&got), "{}: {got} is not a prefix of {good}", e.name);
                    ctx.outcome("failed");
                } else {
                    ensure!(r.is_ok() && got == good, "{}: {r:?} and {got} instead of {good}", e.name);
                    ctx.outcome("complete");
                }
            }
            Err(p) => fail!("{}: {p} writing {v:?}", e.name),
        }
        Ok(())
    }
}

pub fn models(family: &str, en: &'static [Entry], prop: &str, _tier: Tier, out: &mut Vec<Model>) {
    let n = en.len();
    match prop {
        "C10" => out.push(model(
            &format!("{family}/read_faults"),
            &format!("{n} derived types x sample documents x ending, failing once or for ever at every byte; 6 fragmentations x 3 interruptions"),
            read_faults(en),
        )),
        "C11" => out.push(model(
            &format!("{family}/write_faults"),
            &format!("{n} derived types x sample values x failing once, for ever or with zero-length writes at every byte x 3 sizes of writes"),
            write_faults(en),
        )),
        _ => {}
    }
}

//! C27: a document is read or written as if it were the only one.
//!
//! What each operation of the menu does alone is taken from a process of its own which runs nothing else.

mod ops;
mod sched;

use engine::{ensure, fail, model, no_panic, Ctx, Model, Tier, R};
use ops::{Op, OPS};
use sched::with_hook;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex, OnceLock};

/// An operation or, beyond those, an action on a serializer which is used again.
fn count() -> usize {
    OPS.len() + ops::ACTIONS.len()
}
fn run(i: usize) -> String {
    let r = no_panic(|| if i < OPS.len() { (OPS[i].run)() } else { ops::alone(i - OPS.len()) });
    r.unwrap_or_else(|p| p)
}

struct Alone {
    result: String,
    ticks: usize,
}
fn alone() -> &'static [Alone] {
    static A: OnceLock<Vec<Alone>> = OnceLock::new();
    A.get_or_init(|| {
        let exe = std::env::current_exe().expect("engine: own path");
        (0..count())
            .map(|i| {
                let o = std::process::Command::new(&exe).args(["--alone", &i.to_string()]).output().expect("engine: start self");
                let s = String::from_utf8(o.stdout).expect("engine: output");
                let (ticks, result) = s.split_once('\n').unwrap_or(("", ""));
                match (o.status.success(), ticks.parse()) {
                    (true, Ok(ticks)) => Alone { result: result.to_owned(), ticks },
                    // E.g. a crash: nothing to compare with.
                    _ => Alone { result: format!("process ended with {}", o.status), ticks: 0 },
                }
            })
            .collect()
    })
}
fn print_alone(i: usize) {
    engine::install_hook();
    let n = Rc::new(RefCell::new(0));
    let m = n.clone();
    let r = with_hook(Box::new(move || *m.borrow_mut() += 1), || run(i));
    print!("{}\n{r}", n.borrow());
}

fn name(i: usize) -> String {
    if i < OPS.len() {
        OPS[i].name.to_owned()
    } else {
        format!("serializer used again: {}", ops::ACTIONS[i - OPS.len()])
    }
}
/// Runs the operation and compares.
fn same(i: usize, how: &dyn Fn() -> String) -> R {
    let got = run(i);
    verdict(i, &got, how)
}
fn verdict(i: usize, got: &str, how: &dyn Fn() -> String) -> R {
    let want = &alone()[i].result;
    ensure!(got == want, "\"{}\" {} gives {got:?}; alone it gives {want:?}", name(i), how());
    Ok(())
}
fn kept() -> R {
    if let Some(w) = ops::kept_changed() {
        fail!("{w}");
    }
    Ok(())
}

/// Runs `f` on a thread of its own, so that nothing kept per thread survives from earlier executions.
fn fresh<F: FnOnce() -> R + Send>(f: F) -> R {
    std::thread::scope(|s| s.spawn(f).join()).unwrap_or_else(|_| Err(engine::Fail { key: String::new(), what: "panic outside the library".into() }))
}

struct Baton {
    /// Whose turn it is, and for how many more ticks; then whoever follows.
    turn: Mutex<(usize, Vec<(usize, usize)>, Vec<bool>)>,
    cv: Condvar,
}
impl Baton {
    fn new(n: usize, mut segs: Vec<(usize, usize)>) -> Baton {
        segs.reverse();
        let first = segs.last().map_or(0, |s| s.0);
        Baton { turn: Mutex::new((first, segs, vec![false; n])), cv: Condvar::new() }
    }
    fn wait(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn next(&self, g: &mut (usize, Vec<(usize, usize)>, Vec<bool>)) {
        while let Some((t, _)) = g.1.last() {
            if !g.2[*t] {
                g.0 = *t;
                self.cv.notify_all();
                return;
            }
            g.1.pop();
        }
        if let Some(t) = g.2.iter().position(|d| !d) {
            g.0 = t;
        }
        self.cv.notify_all();
    }
    fn tick(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        match g.1.last_mut() {
            Some((t, n)) if *t == me && *n > 1 => {
                *n -= 1;
                return;
            }
            Some((t, _)) if *t == me => {
                g.1.pop();
                self.next(&mut g);
            }
            _ => return,
        }
        while g.0 != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    fn done(&self, me: usize) {
        let mut g = self.turn.lock().unwrap();
        g.2[me] = true;
        self.next(&mut g);
    }
}

/// Runs the operations on a thread each, switching between them as `segs` (thread, ticks) says.
fn interleave(which: &[usize], segs: &[(usize, usize)]) -> R {
    let b = Arc::new(Baton::new(which.len(), segs.to_vec()));
    let results: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = which
            .iter()
            .enumerate()
            .map(|(me, &op)| {
                let b = b.clone();
                s.spawn(move || {
                    b.wait(me);
                    let c = b.clone();
                    let r = with_hook(Box::new(move || c.tick(me)), || run(op));
                    let k = ops::kept_changed();
                    b.done(me);
                    k.unwrap_or(r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "thread panicked".into())).collect()
    });
    for (me, r) in results.iter().enumerate() {
        verdict(which[me], r, &|| {
            let all: Vec<_> = which.iter().map(|i| name(*i)).collect();
            format!("as number {me} of {all:?} on threads scheduled {segs:?}")
        })?;
    }
    Ok(())
}

fn ends(ctx: &mut Ctx, i: usize) {
    ctx.compared += 1;
    let r = &alone()[i].result;
    ctx.outcome(if r.starts_with("ok") { "ok" } else if r.starts_with("err") { "error" } else { "panic" });
}

/// Operations whose combinations are explored more deeply: one of each kind.
fn few() -> Vec<usize> {
    const F: &[&str] = &[
        "read a struct", "read a bad leaf", "read a panicking leaf", "read a mixed choice", "read from a failing source", "log a document",
        "log a swallowed error", "log a panicking visitor", "write nested namespaces", "write to a failing destination", "drop a builder",
        "panic while writing", "write by hand", "read a bad root leaf",
    ];
    (0..OPS.len()).filter(|i| F.contains(&OPS[*i].name)).collect()
}

fn registry(prop: &str, tier: Tier) -> Vec<Model> {
    let mut v = Vec::new();
    if prop != "C27" {
        return v;
    }
    let t = tier == Tier::Thorough;
    let n = OPS.len();
    let len = if t { 4 } else { 3 };
    let all = count();
    v.push(model(
        "sequences",
        &format!("all sequences of up to {len} of {all} operations (reads, writes and serializers used again, succeeding, failing and panicking) on one thread"),
        move |ctx: &mut Ctx| -> R {
            let k = ctx.range(1, len);
            let seq: Vec<usize> = (0..k).map(|_| ctx.choose(all)).collect();
            ctx.describe(|| format!("{:?}", seq.iter().map(|i| name(*i)).collect::<Vec<_>>()));
            ctx.state(&seq);
            ends(ctx, *seq.last().unwrap());
            fresh(|| {
                for (j, i) in seq.iter().enumerate() {
                    same(*i, &|| format!("after {:?}", seq[..j].iter().map(|i| name(*i)).collect::<Vec<_>>()))?;
                }
                kept()
            })
        },
    ));
    v.push(model(
        "nested",
        "every operation x every point at which it calls out (source, destination, visitor, parser, serializer) x every operation run there",
        move |ctx: &mut Ctx| -> R {
            let a = ctx.choose(n);
            let k = ctx.choose(alone()[a].ticks.max(1));
            let b = ctx.choose(all);
            ctx.describe(|| format!("{} at call {k} of {}", name(b), name(a)));
            ctx.state(&(a, k, b));
            ends(ctx, b);
            fresh(|| nested(&[(a, k)], b))
        },
    ));
    v.push(model(
        "nested-twice",
        if t { "14 operations x every point x 14 operations x every point x 14 operations" } else { "14 operations x every point x 14 operations x every other point x an operation" },
        move |ctx: &mut Ctx| -> R {
            let few = few();
            let a = *ctx.pick(&few);
            let k = ctx.choose(alone()[a].ticks.max(1));
            let b = *ctx.pick(&few);
            let l = if t { ctx.choose(alone()[b].ticks.max(1)) } else { ctx.choose((alone()[b].ticks + 1) / 2) * 2 };
            let c = if t { *ctx.pick(&few) } else { a };
            ctx.state(&(a, k, b, l, c));
            ctx.describe(|| format!("{} at call {l} of {} at call {k} of {}", name(c), name(b), name(a)));
            ends(ctx, c);
            fresh(|| nested(&[(a, k), (b, l)], c))
        },
    ));
    v.push(model(
        "threads",
        &format!("all pairs of {n} operations on two threads, switched at calls to user code and the environment: all schedules with at most 1 preemption"),
        move |ctx: &mut Ctx| -> R {
            let a = ctx.choose(n);
            let b = ctx.choose(n);
            let k = ctx.choose(alone()[a].ticks + 1);
            ctx.state(&(a, b, k));
            ends(ctx, b);
            let segs = if k == 0 { vec![(0, usize::MAX)] } else { vec![(0, k), (1, usize::MAX)] };
            ctx.describe(|| format!("{} and {} scheduled {segs:?}", name(a), name(b)));
            interleave(&[a, b], &segs)
        },
    ));
    v.push(model(
        "threads-preempted",
        &format!("all pairs of {n} operations on two threads: all schedules with 2 preemptions{}", if t { " (14 operations: 3)" } else { "" }),
        move |ctx: &mut Ctx| -> R {
            let few = few();
            let p = if t { ctx.range(2, 3) } else { 2 };
            let (a, b) = if p == 2 { (ctx.choose(n), ctx.choose(n)) } else { (*ctx.pick(&few), *ctx.pick(&few)) };
            let (ta, tb) = (alone()[a].ticks, alone()[b].ticks);
            if ta < 2 || tb < 1 {
                return Ok(());
            }
            let k = ctx.range(1, ta);
            let l = ctx.range(1, tb);
            let mut segs = vec![(0, k), (1, l), (0, usize::MAX)];
            if p == 3 {
                if k == ta {
                    return Ok(());
                }
                segs = vec![(0, k), (1, l), (0, ctx.range(1, ta - k)), (1, usize::MAX)];
            }
            ctx.state(&(a, b, &segs));
            ends(ctx, b);
            ctx.describe(|| format!("{} and {} scheduled {segs:?}", name(a), name(b)));
            interleave(&[a, b], &segs)
        },
    ));
    v.push(model(
        "three-threads",
        "all triples of 14 operations, each stopped at its middle call and resumed, in every order",
        move |ctx: &mut Ctx| -> R {
            let few = few();
            let w = [*ctx.pick(&few), *ctx.pick(&few), *ctx.pick(&few)];
            let order = ctx.permutation(3);
            ctx.state(&(w, &order));
            ends(ctx, w[0]);
            let mut segs: Vec<(usize, usize)> = (0..3).map(|i| (i, (alone()[w[i]].ticks / 2).max(1))).collect();
            segs.extend(order.iter().map(|i| (*i, usize::MAX)));
            ctx.describe(|| format!("{:?} scheduled {segs:?}", w.map(name)));
            interleave(&w, &segs)
        },
    ));
    let most = if t { 70_000 } else { 4_097 };
    v.push(model(
        "many",
        &format!("every operation {most} times on one thread; after 1, 15-17, 255-257, 1000, 4096 and 65536 every other operation"),
        move |ctx: &mut Ctx| -> R {
            let a = ctx.choose(n);
            ctx.state(&a);
            ctx.describe(|| format!("{} many times", name(a)));
            ends(ctx, a);
            fresh(|| {
                for i in 1..=most {
                    same(a, &|| format!("the {i}th time"))?;
                    if i % 64 == 0 {
                        kept()?;
                    }
                    if matches!(i, 1 | 15 | 16 | 17 | 255 | 256 | 257 | 1000 | 4096 | 65536) {
                        for b in 0..all {
                            same(b, &|| format!("after {i} times \"{}\"", name(a)))?;
                        }
                    }
                }
                kept()
            })
        },
    ));
    let sizes: &[usize] = if t { &[10, 100, 1_000, 3_000, 10_000, 30_000] } else { &[30, 3_000] };
    let nb = ops::BIG.len();
    v.push(model(
        "extremes",
        &format!("all pairs of {nb} documents which are big in one respect, of sizes {sizes:?}, on one thread, then every operation"),
        move |ctx: &mut Ctx| -> R {
            let n = *ctx.pick(sizes);
            let (a, b) = (ctx.choose(nb), ctx.choose(nb));
            let (an, bn) = (ops::BIG[a].0, ops::BIG[b].0);
            ctx.state(&(n, a, b));
            ctx.describe(|| format!("{an} then {bn} (size {n})"));
            ctx.compared += 1;
            let one = |i: usize| std::thread::spawn(move || no_panic(|| ops::BIG[i].1(n)).unwrap_or_else(|p| p)).join().unwrap_or_default();
            let want = [one(a), one(b)];
            fresh(|| {
                for (i, w) in [(a, &want[0]), (b, &want[1])] {
                    let got = no_panic(|| ops::BIG[i].1(n)).unwrap_or_else(|p| p);
                    ensure!(got == *w, "{} (size {n}) with {an} and {bn} gives {got}; on a thread of its own {w}", ops::BIG[i].0);
                }
                for i in 0..all {
                    same(i, &|| format!("after {an} and {bn} (size {n})"))?;
                }
                kept()
            })
        },
    ));
    let reuse = if t { 5 } else { 4 };
    let acts = ops::ACTIONS.len();
    v.push(model(
        "serializer-reuse",
        &format!("one serializer used by all sequences of up to {reuse} of {acts} actions (destinations of every kind, options)"),
        move |ctx: &mut Ctx| -> R {
            let k = ctx.range(1, reuse);
            let seq: Vec<usize> = (0..k).map(|_| ctx.choose(acts)).collect();
            ctx.state(&seq);
            ctx.describe(|| format!("{:?}", seq.iter().map(|i| ops::ACTIONS[*i]).collect::<Vec<_>>()));
            ends(ctx, n + seq[k - 1]);
            let got = ops::reuse(&seq);
            for (j, i) in seq.iter().enumerate() {
                verdict(n + *i, &got[j], &|| format!("after {:?}", seq[..j].iter().map(|i| ops::ACTIONS[*i]).collect::<Vec<_>>()))?;
            }
            Ok(())
        },
    ));
    v
}

/// Runs `at[0].0`, at its call `at[0].1` the next, and so on; innermost `last`.
fn nested(at: &[(usize, usize)], last: usize) -> R {
    let Some(&(a, k)) = at.first() else {
        return same(last, &|| "within others".to_owned());
    };
    let bad: Rc<RefCell<R>> = Rc::new(RefCell::new(Ok(())));
    let (b2, rest) = (bad.clone(), at[1..].to_vec());
    let mut i = 0;
    let r = with_hook(
        Box::new(move || {
            if i == k {
                let r = nested(&rest, last);
                if r.is_err() {
                    *b2.borrow_mut() = r;
                }
            }
            i += 1;
        }),
        || run(a),
    );
    let inner = std::mem::replace(&mut *bad.borrow_mut(), Ok(()));
    inner?;
    verdict(a, &r, &|| format!("with \"{}\" within its call {k}", name(at.get(1).map_or(last, |x| x.0))))?;
    kept()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "--alone" {
        return print_alone(a[2].parse().unwrap());
    }
    if a.len() == 2 && a[1] == "--list" {
        for (i, o) in OPS.iter().enumerate() {
            let Op { name, ends, .. } = o;
            let r = &alone()[i];
            println!("{} {name}: {ends}, {} ticks, {}", if r.result.starts_with(ends) { "  " } else { "!!" }, r.ticks, r.result);
        }
        return;
    }
    engine::main(registry)
}

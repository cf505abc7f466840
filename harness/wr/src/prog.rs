//! Programs over the builder interface: what a hand-written `Serialize` does, as data.

use engine::xmlt::{qn, El, QN};
use engine::no_panic;
use static_xml::ser::*;
use static_xml::ExpandedNameRef;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pre {
    Ns(String, String),
    Attr(QN, String),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Text(String),
    Child(Prog),
}
/// How the code treats the element it has begun.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fate {
    Complete,
    /// drops the builder
    DropBuilder,
    /// adds attributes and namespaces, then drops the builder
    DropBuilderLate,
    /// drops the writer straight away
    DropWriter,
    /// writes the content, then drops the writer
    DropWriterLate,
    /// panics with the writer open; the panic is caught by the parent
    Panic,
    /// panics with the builder open
    PanicBuilder,
    /// the library panics while starting it (its namespace is declared nowhere); the panic is caught by the parent
    PanicStart,
    /// forgets the builder: it is never dropped
    ForgetBuilder,
    /// forgets the writer
    ForgetWriter,
    /// writes the content, then forgets the writer
    ForgetWriterLate,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prog {
    pub name: QN,
    pub pre: Vec<Pre>,
    pub ops: Vec<Op>,
    pub fate: Fate,
}
/// Which results the code discards.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Default)]
pub struct Swallow {
    pub attr: bool,
    pub text: bool,
    pub start: bool,
    pub finish: bool,
    pub child: bool,
}
impl Swallow {
    pub const ALL: Swallow = Swallow {
        attr: true,
        text: true,
        start: true,
        finish: true,
        child: true,
    };
}

impl Prog {
    pub fn new(name: QN) -> Prog {
        Prog {
            name,
            pre: vec![],
            ops: vec![],
            fate: Fate::Complete,
        }
    }
    /// What a parser must see.
    pub fn infoset(&self) -> El {
        let mut e = El::new(self.name.clone());
        for p in &self.pre {
            if let Pre::Attr(n, v) = p {
                e.attrs.push((n.clone(), v.clone()));
            }
        }
        for o in &self.ops {
            match o {
                Op::Text(t) => e.push_text(t),
                Op::Child(c) => e.kids.push(engine::xmlt::Node::El(c.infoset())),
            }
        }
        e
    }
    pub fn complete(&self) -> bool {
        self.fate == Fate::Complete
            && self.ops.iter().all(|o| match o {
                Op::Text(_) => true,
                Op::Child(c) => c.complete(),
            })
    }
    pub fn show(&self) -> String {
        let mut s = format!("({}", self.name);
        for p in &self.pre {
            match p {
                Pre::Ns(p, u) => s.push_str(&format!(" ns({p:?}={u:?})")),
                Pre::Attr(n, v) => s.push_str(&format!(" @{n}={v:?}")),
            }
        }
        for o in &self.ops {
            match o {
                Op::Text(t) => s.push_str(&format!(" {t:?}")),
                Op::Child(c) => {
                    s.push(' ');
                    s.push_str(&c.show());
                }
            }
        }
        if self.fate != Fate::Complete {
            s.push_str(&format!(" !{:?}", self.fate));
        }
        s.push(')');
        s
    }
}

pub fn xn(q: &QN) -> ExpandedNameRef<'_> {
    ExpandedNameRef {
        namespace: &q.ns,
        local_name: &q.local,
    }
}

pub struct Run<'p> {
    pub prog: &'p Prog,
    pub swallow: Swallow,
    /// catches panics around text (1), children (2) or both (3)
    pub catch: usize,
    /// attributes refused: the error texts
    pub refused: std::cell::RefCell<Vec<(usize, String)>>,
    /// some step returned an error which was discarded
    pub discarded: std::cell::Cell<bool>,
}
impl<'p> Run<'p> {
    pub fn new(prog: &'p Prog, swallow: Swallow) -> Self {
        Run {
            prog,
            swallow,
            catch: 0,
            refused: Default::default(),
            discarded: Default::default(),
        }
    }
    fn eat(&self, r: Result<(), Error>, swallow: bool) -> Result<(), Error> {
        match r {
            Err(_) if swallow => {
                self.discarded.set(true);
                Ok(())
            }
            r => r,
        }
    }
    fn pre<'a>(&self, p: &'a Prog, b: &mut ElementBuilder<'a>) -> Result<(), Error> {
        for (i, x) in p.pre.iter().enumerate() {
            match x {
                Pre::Ns(p, u) => b.namespace(p, u),
                Pre::Attr(n, v) => {
                    let r = b.attribute(xn(n), v.clone());
                    if let Err(e) = &r {
                        self.refused.borrow_mut().push((i, e.to_string()));
                    }
                    self.eat(r, self.swallow.attr)?;
                }
            }
        }
        Ok(())
    }
    fn kids(&self, p: &Prog, w: &mut ElementWriter<'_>) -> Result<(), Error> {
        for o in &p.ops {
            match o {
                Op::Text(t) => {
                    let r = if self.catch & 1 != 0 { no_panic(|| w.text(t)).unwrap_or(Ok(())) } else { w.text(t) };
                    self.eat(r, self.swallow.text)?;
                }
                Op::Child(c) => {
                    let r = match c.fate {
                        Fate::Panic | Fate::PanicBuilder | Fate::PanicStart => match no_panic(|| self.child(c, w)) {
                            Ok(r) => r,
                            Err(_) => {
                                self.discarded.set(true);
                                Ok(())
                            }
                        },
                        _ if self.catch & 2 != 0 => no_panic(|| self.child(c, w)).unwrap_or(Ok(())),
                        _ => self.child(c, w),
                    };
                    self.eat(r, self.swallow.child)?;
                }
            }
        }
        Ok(())
    }
    fn child(&self, p: &Prog, w: &mut ElementWriter<'_>) -> Result<(), Error> {
        let mut name = xn(&p.name);
        if p.fate == Fate::PanicStart {
            name.namespace = "urn:declared-nowhere";
        }
        let mut b = w.element(name);
        if p.fate == Fate::ForgetBuilder {
            std::mem::forget(b);
            return Ok(());
        }
        if p.fate == Fate::DropBuilder {
            return Ok(());
        }
        self.pre(p, &mut b)?;
        match p.fate {
            Fate::DropBuilderLate => return Ok(()),
            Fate::PanicBuilder => panic!("user code"),
            _ => {}
        }
        let mut w = match b.start() {
            Ok(w) => w,
            Err(e) => return self.eat(Err(e), self.swallow.start),
        };
        if p.fate == Fate::DropWriter {
            return Ok(());
        }
        if p.fate == Fate::ForgetWriter {
            std::mem::forget(w);
            return Ok(());
        }
        self.kids(p, &mut w)?;
        match p.fate {
            Fate::DropWriterLate => return Ok(()),
            Fate::ForgetWriterLate => {
                std::mem::forget(w);
                return Ok(());
            }
            Fate::Panic => panic!("user code"),
            _ => {}
        }
        let r = w.finish();
        self.eat(r, self.swallow.finish)
    }
}
impl Serialize for Run<'_> {
    fn write_attributes(&self, b: &mut ElementBuilder) -> Result<(), Error> {
        // SAFETY: the builder does not outlive the serialization, during which `self.prog` is borrowed.
        let p: &'static Prog = unsafe { &*(self.prog as *const Prog) };
        // The trait ties names to the builder's own lifetime; extend to satisfy it.
        let b: &mut ElementBuilder<'static> = unsafe { std::mem::transmute(b) };
        self.pre(p, b)
    }
    fn write_children(&self, w: &mut ElementWriter) -> Result<(), Error> {
        self.kids(self.prog, w)
    }
}

pub fn serialize_prog(p: &Prog) -> Result<Result<String, Error>, String> {
    no_panic(|| {
        let r = Run::new(p, Swallow::default());
        serialize_with_name(&r, xn(&p.name)).to_string()
    })
}

/// Serializes and compares with what the program says.
pub fn check_prog(p: &Prog) -> engine::R {
    match serialize_prog(p) {
        Ok(Ok(s)) => match engine::xmlt::parse(&s) {
            Ok(d) => {
                let want = p.infoset();
                engine::ensure!(d.root == want, "wrote {s:?}\nwhich says {}\ninstead of {want}", d.root);
                Ok(())
            }
            Err(e) => engine::fail!("wrote {s:?}, which is not well-formed: {e}"),
        },
        Ok(Err(e)) => engine::fail!("refused: {e}"),
        Err(p) => engine::fail!("{p}"),
    }
}
pub fn q(l: &str) -> QN {
    qn("", l)
}
pub fn ladder_sizes(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..40.min(max + 1)).collect();
    let mut p = 64;
    while p <= max {
        for d in [p - 1, p, p + 1] {
            if d <= max {
                v.push(d);
            }
        }
        p *= 2;
    }
    for d in [50, 99, 100, 101, 200, 300, 500, 999, 1000, 1001] {
        if d <= max && !v.contains(&d) {
            v.push(d);
        }
    }
    v
}
/// Sizes next to the powers of two which buffers, counters and limits have.
pub fn big_sizes(from: u32, to: u32) -> Vec<usize> {
    (from..=to).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1]).collect()
}
/// Does not repeat the long strings of `r`.
pub fn brief(r: engine::R, what: &str) -> engine::R {
    r.map_err(|mut f| {
        f.what = format!("{what}: {}", f.what.chars().take(400).collect::<String>());
        f
    })
}

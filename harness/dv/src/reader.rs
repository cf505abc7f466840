//! The reference reader: what a derived type is to read from an infoset.

use crate::*;
use engine::xmlt::{El, Node};

/// A way in which reading is allowed to fail.
#[derive(Clone, Debug)]
pub struct E {
    /// Local names of the elements enclosing the failure, root first.
    pub path: Vec<String>,
    /// One more element may follow `path`.
    pub deeper: Option<String>,
    /// What the message must mention.
    pub needles: Vec<String>,
    /// The properties leave it open whether this is an error at all.
    pub open: bool,
    /// What is read if it is not.
    pub instead: Option<Box<Result<Val, Vec<E>>>>,
}
thread_local! { static LENIENT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Marks inside text for constructs which are not character data.
pub const COMMENT: char = '\u{E000}';
pub const PI: char = '\u{E001}';
/// The rest of the text node, up to the next mark, is a CDATA section.
pub const CDATA: char = '\u{E002}';

pub fn chardata(s: &str) -> String {
    s.chars().filter(|c| !matches!(*c, COMMENT | PI | CDATA)).collect()
}

pub fn read(ty: &Ty, root: &El) -> Result<Val, Vec<E>> {
    let mut path = vec![root.name.local.clone()];
    let mut r = content(ty, root, &mut path);
    if let Err(es) = &mut r {
        if es.iter().any(|e| e.open) {
            LENIENT.with(|l| l.set(true));
            path.truncate(1);
            let instead = content(ty, root, &mut path);
            LENIENT.with(|l| l.set(false));
            es.iter_mut().for_each(|e| e.instead = Some(Box::new(instead.clone())));
        }
    }
    r
}

/// Has reading failed before the end tag?
pub fn dead(ty: &Ty, root: &El) -> bool {
    let mut path = vec![root.name.local.clone()];
    let mut vis = Vis::new(ty);
    for (n, v) in &root.attrs {
        if vis.attr(n, v, &path).is_err() {
            return true;
        }
    }
    root.els().any(|c| {
        path.push(c.name.local.clone());
        let r = vis.element(c, &mut path);
        path.truncate(1);
        r.is_err()
    })
}

fn err(path: &[String], needles: &[&str]) -> Vec<E> {
    vec![E {
        path: path.to_vec(),
        deeper: None,
        needles: needles.iter().map(|s| s.to_string()).collect(),
        open: false,
        instead: None,
    }]
}

pub fn leaf(ty: &Ty, s: &str) -> Option<Val> {
    match ty {
        Ty::Str => Some(Val::S(s.to_owned())),
        Ty::U8 => {
            let t = s.trim_matches(|c| matches!(c, ' ' | '\t' | '\n' | '\r'));
            t.parse::<u8>().ok().map(|n| Val::S(n.to_string()))
        }
        Ty::Ds => (!s.contains('q')).then(|| Val::S(s.to_owned())),
        _ => panic!("engine: not a leaf"),
    }
}

fn content(ty: &Ty, el: &El, path: &mut Vec<String>) -> Result<Val, Vec<E>> {
    match ty {
        Ty::Str | Ty::U8 | Ty::Ds => {
            if let Some(c) = el.els().next() {
                let mut e = err(path, &[&c.name.local]);
                e[0].deeper = Some(c.name.local.clone());
                return Err(e);
            }
            leaf(ty, &chardata(&el.text())).ok_or_else(|| err(path, &[]))
        }
        _ => {
            let mut vis = Vis::new(ty);
            for (n, v) in &el.attrs {
                vis.attr(n, v, path)?;
            }
            for k in &el.kids {
                match k {
                    Node::El(c) => {
                        path.push(c.name.local.clone());
                        vis.element(c, path)?;
                        path.pop();
                    }
                    Node::Text(t) => {
                        vis.chars(&chardata(t));
                    }
                }
            }
            vis.finish(path)
        }
    }
}

fn init(card: Card, ty: &Ty, el: &El, path: &mut Vec<String>) -> Result<Val, Vec<E>> {
    let v = content(ty, el, path)?;
    Ok(match card {
        Card::One => v,
        Card::Opt => Val::Some(Box::new(v)),
        Card::Many => Val::List(vec![v]),
    })
}
fn update(cur: &mut Val, card: Card, ty: &Ty, el: &El, path: &mut Vec<String>) -> Result<(), Vec<E>> {
    match (card, cur) {
        (Card::Many, Val::List(l)) => {
            l.push(content(ty, el, path)?);
            Ok(())
        }
        _ => Err(err(path, &[&el.name.local])),
    }
}

enum Vis {
    Struct {
        d: &'static StructD,
        vals: Vec<Option<Val>>,
        flat: Vec<Option<Vis>>,
        text: String,
    },
    Choice {
        d: &'static ChoiceD,
        val: Option<(usize, Option<Val>)>,
    },
}
impl Vis {
    fn new(ty: &Ty) -> Vis {
        match ty {
            Ty::Struct(d) => Vis::Struct {
                d,
                vals: d.fields.iter().map(|_| None).collect(),
                flat: d
                    .fields
                    .iter()
                    .map(|f| (f.mode == Mode::Flat).then(|| Vis::new(&f.ty)))
                    .collect(),
                text: String::new(),
            },
            Ty::Choice(d) => Vis::Choice { d, val: None },
            _ => panic!("engine: leaf visitor"),
        }
    }
    fn attr(&mut self, n: &engine::xmlt::QN, v: &str, path: &[String]) -> Result<bool, Vec<E>> {
        match self {
            Vis::Struct { d, vals, flat, .. } => {
                for (i, f) in d.fields.iter().enumerate() {
                    if f.mode == Mode::Attr && f.name.is(n) {
                        let l = leaf(&f.ty, v).ok_or_else(|| err(path, &[]))?;
                        vals[i] = Some(match f.card {
                            Card::Opt => Val::Some(Box::new(l)),
                            _ => l,
                        });
                        return Ok(true);
                    }
                }
                for f in flat.iter_mut().flatten() {
                    if f.attr(n, v, path)? {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            Vis::Choice { .. } => Ok(false),
        }
    }
    fn element(&mut self, el: &El, path: &mut Vec<String>) -> Result<bool, Vec<E>> {
        match self {
            Vis::Struct { d, vals, flat, .. } => {
                for (i, f) in d.fields.iter().enumerate() {
                    if f.mode == Mode::Elem && f.name.is(&el.name) {
                        match &mut vals[i] {
                            Some(cur) => update(cur, f.card, &f.ty, el, path)?,
                            none => *none = Some(init(f.card, &f.ty, el, path)?),
                        }
                        return Ok(true);
                    }
                }
                for f in flat.iter_mut().flatten() {
                    if f.element(el, path)? {
                        return Ok(true);
                    }
                }
                Ok(false)
            }
            Vis::Choice { d, val } => {
                let hit = d.alts.iter().position(|a| !a.skip && a.name.is(&el.name));
                let Some(i) = hit else { return Ok(false) };
                let a = &d.alts[i];
                match val {
                    None => {
                        *val = Some((
                            i,
                            match &a.of {
                                None => None,
                                Some((c, t)) => Some(init(*c, t, el, path)?),
                            },
                        ));
                        Ok(true)
                    }
                    Some((j, cur)) if *j == i => match (&a.of, cur) {
                        (Some((c, t)), Some(cur)) => {
                            update(cur, *c, t, el, path)?;
                            Ok(true)
                        }
                        // A unit alternative twice: an error, or as good as once.
                        _ if LENIENT.with(|l| l.get()) => Ok(true),
                        _ => {
                            let mut e = err(path, &[]);
                            e[0].open = true;
                            Err(e)
                        }
                    },
                    // Must name the elements involved; at least the offending one is known to every wording.
                    Some(_) => Err(err(path, &[&el.name.local])),
                }
            }
        }
    }
    fn chars(&mut self, s: &str) -> bool {
        match self {
            Vis::Struct { d, flat, text, .. } => {
                if d.fields.iter().any(|f| f.mode == Mode::Text) {
                    text.push_str(s);
                    return true;
                }
                flat.iter_mut().flatten().any(|f| f.chars(s))
            }
            Vis::Choice { .. } => false,
        }
    }
    fn finish(self, path: &[String]) -> Result<Val, Vec<E>> {
        match self {
            Vis::Struct { d, vals, flat, text } => {
                let mut out = Vec::new();
                let mut errs = Vec::new();
                for ((f, v), flat) in d.fields.iter().zip(vals).zip(flat) {
                    let r = match f.mode {
                        Mode::Flat => flat.unwrap().finish(path),
                        Mode::Text => leaf(&f.ty, &text).ok_or_else(|| err(path, &[])),
                        _ => match (v, f.default, f.card) {
                            (Some(v), ..) => Ok(v),
                            (None, Some(d), _) => Ok(d()),
                            (None, None, Card::Opt) => Ok(Val::None),
                            (None, None, Card::Many) => Ok(Val::List(vec![])),
                            (None, None, Card::One) => Err(err(path, &[f.name.local])),
                        },
                    };
                    match r {
                        Ok(v) => out.push(v),
                        Err(e) => errs.extend(e),
                    }
                }
                if errs.is_empty() {
                    Ok(Val::St(out))
                } else {
                    Err(errs)
                }
            }
            Vis::Choice { d, val } => match val {
                Some((i, v)) => Ok(Val::Ch(i, v.map(Box::new))),
                None => Err(err(path, &[d.name])),
            },
        }
    }
}

/// Compares what was read with what was to be read.
pub fn agree(want: &Result<Val, Vec<E>>, got: &Result<Val, ReadErr>) -> Result<(), String> {
    match (want, got) {
        (Ok(w), Ok(g)) if w == g => Ok(()),
        (Err(e), Err(_)) if e.iter().any(|e| e.open) => Ok(()),
        (Err(e), Ok(_)) if e.iter().any(|e| e.open) => match e[0].instead.as_deref() {
            Some(i @ Ok(_)) => agree(i, got),
            Some(Err(i)) => Err(format!("read {got:?}, want one of {i:?}")),
            None => Err("engine: no alternative reading".into()),
        },
        (Err(es), Err(g)) => {
            let fits = |e: &E| {
                let path_ok = e.path == g.stack || {
                    let mut p = e.path.clone();
                    p.extend(e.deeper.clone());
                    p == g.stack
                };
                path_ok && e.needles.iter().all(|n| g.msg.split("\n\nXML element stack").next().unwrap_or("").contains(n.as_str()))
            };
            if es.iter().any(fits) {
                Ok(())
            } else {
                Err(format!("failed with {g:?}, want one of {es:?}"))
            }
        }
        _ => Err(format!("read {got:?}, want {want:?}")),
    }
}

//! The reference writer: the infoset a value of a derived type is to be written as.

use crate::*;
use engine::xmlt::{El, Node};

/// `Err` if the value has no representation (a skipped alternative, or one attribute twice).
pub fn write(ty: &Ty, v: &Val) -> Result<El, ()> {
    let mut el = El::new(ty.root().qn());
    fill(ty, v, &mut el)?;
    let mut names: Vec<_> = el.attrs.iter().map(|a| &a.0).collect();
    names.sort();
    names.dedup();
    if names.len() != el.attrs.len() {
        return Err(());
    }
    Ok(el)
}
fn text(v: &Val) -> &str {
    match v {
        Val::S(s) => s,
        _ => panic!("engine: not a leaf"),
    }
}
fn one(name: N, ty: &Ty, v: &Val, out: &mut El) -> Result<(), ()> {
    let mut el = El::new(name.qn());
    fill(ty, v, &mut el)?;
    let mut names: Vec<_> = el.attrs.iter().map(|a| &a.0).collect();
    names.sort();
    names.dedup();
    if names.len() != el.attrs.len() {
        return Err(());
    }
    out.kids.push(Node::El(el));
    Ok(())
}
fn all(name: N, ty: &Ty, v: &Val, out: &mut El) -> Result<(), ()> {
    match v {
        Val::None => Ok(()),
        Val::Some(v) => one(name, ty, v, out),
        Val::List(l) => l.iter().try_for_each(|v| one(name, ty, v, out)),
        v => one(name, ty, v, out),
    }
}
fn fill(ty: &Ty, v: &Val, el: &mut El) -> Result<(), ()> {
    attrs(ty, v, el);
    kids(ty, v, el)
}
fn attrs(ty: &Ty, v: &Val, el: &mut El) {
    if let (Ty::Struct(d), Val::St(vs)) = (ty, v) {
        for (f, v) in d.fields.iter().zip(vs) {
            if f.mode == Mode::Attr {
                match v {
                    Val::None => {}
                    Val::Some(v) => el.attrs.push((f.name.qn(), text(v).to_owned())),
                    v => el.attrs.push((f.name.qn(), text(v).to_owned())),
                }
            }
        }
        for (f, v) in d.fields.iter().zip(vs) {
            if f.mode == Mode::Flat {
                attrs(&f.ty, v, el);
            }
        }
    }
}
fn kids(ty: &Ty, v: &Val, el: &mut El) -> Result<(), ()> {
    match (ty, v) {
        (Ty::Struct(d), Val::St(vs)) => {
            for (f, v) in d.fields.iter().zip(vs) {
                match f.mode {
                    Mode::Elem => all(f.name, &f.ty, v, el)?,
                    Mode::Text => el.push_text(text(v)),
                    _ => {}
                }
            }
            for (f, v) in d.fields.iter().zip(vs) {
                if f.mode == Mode::Flat {
                    kids(&f.ty, v, el)?;
                }
            }
            Ok(())
        }
        (Ty::Choice(d), Val::Ch(i, v)) => {
            let a = &d.alts[*i];
            match (&a.of, v) {
                _ if a.skip => Err(()),
                (None, _) => {
                    el.kids.push(Node::El(El::new(a.name.qn())));
                    Ok(())
                }
                (Some((_, t)), Some(v)) => all(a.name, t, v, el),
                _ => panic!("engine: bad value"),
            }
        }
        (_, Val::S(s)) => {
            el.push_text(s);
            Ok(())
        }
        _ => panic!("engine: bad value"),
    }
}

"""Writes derived types together with what they declare (`gen_types.rs` of the dv_* packages)."""
import os
XML = "http://www.w3.org/XML/1998/namespace"

def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"') + '"'

class T:
    """A type that can be a field: Rust type and description."""
    def __init__(self, rust, desc):
        self.rust, self.desc = rust, desc
STR, U8, DS = T("String", "Ty::Str"), T("u8", "Ty::U8"), T("Ds", "Ty::Ds")

class F:
    """A field."""
    def __init__(self, ident, ty, mode="Elem", card="One", default=False, rename=None, prefix=None):
        self.ident, self.ty, self.mode, self.card, self.default = ident, ty, mode, card, default
        self.rename, self.prefix = rename, prefix

class A:
    """An alternative."""
    def __init__(self, ident, ty=None, card="One", skip=False, rename=None, prefix=None):
        self.ident, self.ty, self.card, self.skip, self.rename, self.prefix = ident, ty, card, skip, rename, prefix

def unraw(i):
    return i[2:] if i.startswith("r#") else i

class Family:
    def __init__(self):
        self.out, self.entries, self.n = ["// @generated by gen.py"], [], 0
        self.attr_lists = 0

    def _name(self, ns, x):
        """Expanded name: ns maps prefixes to URLs."""
        url = ""
        if x.prefix is not None:
            url = ns.get(x.prefix, XML if x.prefix == "xml" else "")
        return f'N {{ ns: {q(url)}, local: {q(x.rename if x.rename is not None else unraw(x.ident))} }}'

    def _type_attr(self, rename, prefix, namespaces, default_namespace, order):
        """Returns (attributes, prefix map, root name)."""
        items, ns = [], {}
        for p, u in namespaces:
            items.append("namespace = " + q(f"{p}: {u}" if p else u))
            if p != "xml":
                ns[p] = u
        if default_namespace is not None:
            items.append(f'default_namespace = {q(default_namespace)}')
            ns[""] = default_namespace
        if rename is not None:
            items.append(f'rename = {q(rename)}')
        if prefix is not None:
            items.append(f'prefix = {q(prefix)}')
        if order:
            items.reverse()
        return (f'#[static_xml({", ".join(items)})] ' if items else ""), ns

    def _item_attr(self, flags, x):
        items = list(flags)
        if x.rename is not None:
            items.append(f'rename = {q(x.rename)}')
        if x.prefix is not None:
            items.append(f'prefix = {q(x.prefix)}')
        self.attr_lists += 1
        if not items:
            return ""
        if self.attr_lists % 3 == 0:
            items.reverse()
        if self.attr_lists % 5 == 0:
            return "".join(f"#[static_xml({i})] " for i in items)
        return f'#[static_xml({", ".join(items)})] '

    def _common(self, name, rename, prefix, namespaces, default_namespace, order):
        attr, ns = self._type_attr(rename, prefix, namespaces, default_namespace, order)
        class X: pass
        x = X(); x.ident, x.rename, x.prefix = name, rename, prefix
        return attr, ns, self._name(ns, x)

    def struct(self, name, fields, rename=None, prefix=None, namespaces=(), default_namespace=None, order=False, entry=True, default=None):
        attr, ns, root = self._common(name, rename, prefix, namespaces, default_namespace, order)
        fs, ds, tv, fv = [], [], [], []
        for i, f in enumerate(fields):
            flags = []
            if f.mode == "Attr": flags.append("attribute")
            if f.mode == "Flat": flags.append("flatten")
            if f.mode == "Text": flags.append("text")
            if f.default: flags.append("default")
            rust = {"One": f.ty.rust, "Opt": f"Option<{f.ty.rust}>", "Many": f"Vec<{f.ty.rust}>"}[f.card]
            fs.append(f"{self._item_attr(flags, f)}pub {f.ident}: {rust}")
            d = f"Some(|| <{rust} as Default>::default().to_val())" if f.default else "None"
            ds.append(f"FieldD {{ mode: Mode::{f.mode}, name: {self._name(ns, f)}, card: Card::{f.card}, default: {d}, ty: {f.ty.desc} }}")
            tv.append(f"self.{f.ident}.to_val()")
            fv.append(f"{f.ident}: Dv::from_val(&f[{i}])")
        o = self.out
        o.append(f"#[derive(Deserialize, Serialize)] {attr}pub struct {name} {{ {', '.join(fs)} }}")
        o.append(f"pub static D_{name}: StructD = StructD {{ name: {q(unraw(name))}, root: {root}, fields: &[{', '.join(ds)}] }};")
        bind = "let Val::St(f) = v else { panic!(\"engine: bad value\") }; let _ = f;"
        o.append(f"impl Dv for {name} {{ fn to_val(&self) -> Val {{ Val::St(vec![{', '.join(tv)}]) }} fn from_val(v: &Val) -> Self {{ {bind} {name} {{ {', '.join(fv)} }} }} }}")
        if default:
            o.append(f"impl Default for {name} {{ fn default() -> Self {{ {default} }} }}")
        t = T(name, f"Ty::Struct(&D_{name})")
        if entry: self.entry(t)
        return t

    def choice(self, name, alts, rename=None, prefix=None, namespaces=(), default_namespace=None, order=False, entry=True, default=None):
        attr, ns, root = self._common(name, rename, prefix, namespaces, default_namespace, order)
        vs, ds, tv, fv = [], [], [], []
        for i, a in enumerate(alts):
            flags = ["skip"] if a.skip else []
            rust = None if a.ty is None else {"One": a.ty.rust, "Opt": f"Option<{a.ty.rust}>", "Many": f"Vec<{a.ty.rust}>"}[a.card]
            vs.append(self._item_attr(flags, a) + a.ident + (f"({rust})" if rust else ""))
            of = "None" if a.ty is None else f"Some((Card::{a.card}, {a.ty.desc}))"
            ds.append(f"AltD {{ name: {self._name(ns, a)}, skip: {str(a.skip).lower()}, of: {of} }}")
            if a.ty is None:
                tv.append(f"{name}::{a.ident} => Val::Ch({i}, None)")
                fv.append(f"Val::Ch({i}, None) => {name}::{a.ident}")
            else:
                tv.append(f"{name}::{a.ident}(x) => Val::Ch({i}, Some(Box::new(x.to_val())))")
                fv.append(f"Val::Ch({i}, Some(x)) => {name}::{a.ident}(Dv::from_val(x))")
        o = self.out
        o.append(f"#[derive(Deserialize, Serialize)] {attr}pub enum {name} {{ {', '.join(vs)} }}")
        o.append(f"pub static D_{name}: ChoiceD = ChoiceD {{ name: {q(unraw(name))}, root: {root}, alts: &[{', '.join(ds)}] }};")
        o.append(f"impl Dv for {name} {{ fn to_val(&self) -> Val {{ match self {{ {', '.join(tv)} }} }} fn from_val(v: &Val) -> Self {{ match v {{ {', '.join(fv)}, _ => panic!(\"engine: bad value\") }} }} }}")
        if default:
            o.append(f"impl Default for {name} {{ fn default() -> Self {{ {default} }} }}")
        t = T(name, f"Ty::Choice(&D_{name})")
        if entry: self.entry(t)
        return t

    def entry(self, t):
        self.entries.append(f"Entry {{ name: {q(t.rust)}, ty: {t.desc}, read: read_as::<{t.rust}>, read_from: read_from_as::<{t.rust}>, write_to: write_to_as::<{t.rust}>, write: write_as::<{t.rust}>, write_named: write_named_as::<{t.rust}> }}")

    def fresh(self, p="T"):
        self.n += 1
        return f"{p}{self.n}"

    def write(self, here):
        body = self.out + ["pub static ENTRIES: &[Entry] = &["] + [f"    {e}," for e in self.entries] + ["];"]
        text = "\n".join(body) + "\n"
        p = os.path.join(here, "src", "gen_types.rs")
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
        print(f"{here}: {len(self.entries)} types") if os.environ.get("VERBOSE") else None

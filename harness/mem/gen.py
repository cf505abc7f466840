#!/usr/bin/env python3
"""Types whose every leaf is a counted token, with the documents to read into them."""
import itertools, os
HERE = os.path.dirname(os.path.abspath(__file__))
out = []
shapes = []

OK, BAD = "1", "x"
def el(n, body="", attrs=""):
    return ("e", f"<{n}{attrs}>{body}</{n}>")
def at(n, v):
    return ("a", f' {n}="{v}"')

def struct(name, fields, extra=""):
    """fields: [(attrs, ident, type)]"""
    o = "#[derive(Deserialize)]\n" + extra + f"struct {name} {{\n"
    for a, i, t in fields:
        o += f"    {'#[static_xml(' + a + ')] ' if a else ''}{i}: {t},\n"
    o += "}\n"
    o += f"impl Held for {name} {{ fn held(&self, h: &mut Vec<u64>) {{ let _ = &h; " + " ".join(f"self.{i}.held(h);" for _, i, _ in fields) + " } }\n"
    out.append(o)

def enum(name, alts, extra="", derive="Deserialize"):
    """alts: [(attrs, ident, type or None)]"""
    o = f"#[derive({derive})]\n{extra}enum {name} {{\n"
    for a, i, t in alts:
        o += f"    {'#[static_xml(' + a + ')] ' if a else ''}{i}{'(' + t + ')' if t else ''},\n"
    o += "}\n"
    o += f"impl Held for {name} {{ fn held(&self, h: &mut Vec<u64>) {{ let _ = &h; match self {{\n"
    for _, i, t in alts:
        o += f"    {name}::{i}{'(v) => v.held(h)' if t else ' => {}'},\n"
    o += "} } }\n"
    out.append(o)

struct("Inner", [("attribute", "k", "Tok"), ("", "w", "Vec<Tok>"), ("", "v", "Tok"), ("default", "d", "Tok"), ("", "o", "Option<Tok>")])
enum("Pick", [("", "A", "Tok"), ("", "B", "Inner"), ("", "C", "Vec<Tok>"), ("", "D", "Option<Tok>"), ("", "E", None)])
enum("Uni", [("", "A", "Tok"), ("", "B", "Tok2")], "#[static_xml(mode = \"union\")]\n", "ParseText")
INNER_OK = '<v>1</v>'
def inner(n, v):
    k = ' k="1"'
    return {"ok": el(n, "<w>1</w><v>1</v><o>1</o><w>1</w>", k), "min": el(n, "<v>1</v>", k), "nok": el(n, "<v>1</v>"), "nov": el(n, "<w>1</w><d>1</d>", k),
            "bad": el(n, "<w>1</w><v>x</v>", k), "dup": el(n, "<o>1</o><v>1</v><v>1</v>", k), "badk": el(n, "<v>1</v>", ' k="x"')}[v]
def pick(n, v):
    return {"a": el(n, "<A>1</A>"), "aa": el(n, "<A>1</A><A>1</A>"), "b": el(n, '<B k="1"><v>1</v></B>'), "bbad": el(n, '<B k="1"><w>1</w></B>'), "bc": el(n, '<B k="1"><v>1</v></B><C>1</C>'),
            "cc": el(n, "<C>1</C><C>1</C>"), "ccx": el(n, "<C>1</C><C>x</C>"), "dd": el(n, "<D>1</D><D>1</D>"), "e": el(n, "<E/>"), "ea": el(n, "<E/><A>1</A>"), "": el(n)}[v]

# kind -> f(index) -> ((attrs, ident, type), [content variants])
def kinds(i):
    n = "pqr"[i]
    N = n.upper()
    K = {
        "ea": (("", n, "Tok"), [[], [el(n, OK)], [el(n, BAD)], [el(n, OK), el(n, OK)]]),
        "eo": (("", n, "Option<Tok>"), [[], [el(n, OK)], [el(n, BAD)], [el(n, OK), el(n, OK)]]),
        "em": (("", n, "Vec<Tok>"), [[], [el(n, OK)], [el(n, OK), el(n, OK)], [el(n, OK), el(n, BAD)]]),
        "ed": (("default", n, "Tok"), [[], [el(n, OK)], [el(n, BAD)], [el(n, OK), el(n, OK)]]),
        "eod": (("default", n, "Option<Tok>"), [[], [el(n, OK)], [el(n, OK), el(n, OK)]]),
        "aa": (("attribute", n, "Tok"), [[], [at(n, OK)], [at(n, BAD)]]),
        "ao": (("attribute", n, "Option<Tok>"), [[], [at(n, OK)], [at(n, BAD)]]),
        "ad": (("attribute, default", n, "Tok"), [[], [at(n, OK)], [at(n, BAD)]]),
        "an": (('attribute, prefix = "m"', n, "Tok"), [[], [at("m:" + n, OK)], [at("m:" + n, OK), at("l:" + n, OK)], [at("l:" + n, OK), at("m:" + n, BAD)]]),
        "u": (("", n, "Uni"), [[], [el(n, OK)], [el(n, "y")], [el(n, BAD)]]),
        "ua": (("attribute", n, "Uni"), [[], [at(n, OK)], [at(n, "y")], [at(n, BAD)]]),
        "ns": (("", n, "Inner"), [[]] + [[inner(n, v)] for v in ("ok", "nok", "nov", "bad", "dup", "badk")] + [[inner(n, "min"), inner(n, "min")]]),
        "no": (("", n, "Option<Inner>"), [[], [inner(n, "ok")], [inner(n, "nov")], [inner(n, "min"), inner(n, "min")]]),
        "nm": (("", n, "Vec<Inner>"), [[], [inner(n, "ok")], [inner(n, "min"), inner(n, "ok")], [inner(n, "min"), inner(n, "bad")], [inner(n, "ok"), inner(n, "nov"), inner(n, "ok")]]),
        "nc": (("", n, "Pick"), [[]] + [[pick(n, v)] for v in ("a", "aa", "b", "bbad", "bc", "cc", "ccx", "dd", "e", "ea", "")] + [[pick(n, "a"), pick(n, "a")]]),
        "cu": (("", n, "Custom"), [[], [el(n, "<a>1</a>")], [el(n, "<a>1</a><b>2</b><a>1</a>")], [el(n, "<a>1</a><a>x</a>")], [el(n, "<a>1</a>"), el(n)]]),
        "cv": (("", n, "Vec<Custom>"), [[], [el(n, "<a>1</a>"), el(n, "<a>1</a><a>1</a>")], [el(n, "<a>1</a>"), el(n, "<a>x</a>")]]),
        "fs": (("flatten", n, f"Flat{i}"), [[], [at(f"{n}k", OK), el(f"{n}v", OK)], [at(f"{n}k", OK), el(f"{n}w", OK)], [el(f"{n}v", OK), el(f"{n}w", OK)],
                                           [at(f"{n}k", OK), el(f"{n}v", OK), el(f"{n}w", OK), el(f"{n}d", OK), el(f"{n}w", OK)], [at(f"{n}k", OK), el(f"{n}v", OK), el(f"{n}v", OK)], [at(f"{n}k", OK), el(f"{n}w", OK), el(f"{n}v", BAD)]]),
        "fc": (("flatten", n, f"Choice{i}"), [[], [el(f"{N}a", OK)], [el(f"{N}a", OK), el(f"{N}a", OK)], [el(f"{N}c", OK), el(f"{N}c", OK)], [el(f"{N}c", OK), el(f"{N}c", BAD)], [el(f"{N}c", OK), el(f"{N}a", OK)],
                                             [el(f"{N}b", INNER_OK, ' k="1"')], [el(f"{N}b", "", ' k="1"')], [el(f"{N}d", OK), el(f"{N}d", OK)], [el(f"{N}e")], [el(f"{N}e"), el(f"{N}c", OK)]]),
        "fn": (("flatten", n, f"Deep{i}"), [[], [el(f"{N}a", OK), el(f"{n}z", OK)], [el(f"{N}a", OK)], [el(f"{n}z", OK)], [el(f"{N}c", OK), at(f"{n}y", OK), el(f"{n}z", OK), el(f"{N}c", OK)], [el(f"{N}a", OK), el(f"{n}z", BAD)]]),
        "t": (("text", n, "Tok"), [[], [("t", OK)], [("t", BAD)], [("t", "1<!--c-->2")]]),
        "to": (("text", n, "Uni"), [[], [("t", OK)], [("t", "y")], [("t", BAD)]]),
    }
    return K
for i in range(3):
    n = "pqr"[i]; N = n.upper()
    struct(f"Flat{i}", [("attribute", f"{n}k", "Tok"), ("", f"{n}w", "Vec<Tok>"), ("", f"{n}v", "Tok"), ("default", f"{n}d", "Tok")])
    enum(f"Choice{i}", [("", f"{N}a", "Tok"), ("", f"{N}b", "Inner"), ("", f"{N}c", "Vec<Tok>"), ("", f"{N}d", "Option<Tok>"), ("", f"{N}e", None)])
    struct(f"Deep{i}", [("flatten", f"{n}x", f"Choice{i}"), ("attribute", f"{n}y", "Option<Tok>"), ("", f"{n}z", "Tok")])

def shape(ks):
    if sum(k in ("t", "to") for k in ks) > 1 or (any(k in ("t", "to") for k in ks) and False):
        return
    name = "S_" + "_".join(ks)
    fs = [kinds(i)[k] for i, k in enumerate(ks)]
    struct(name, [f for f, _ in fs], '#[static_xml(namespace = "m: http://m")]\n' if "an" in ks else "")
    shapes.append((name, [v for _, v in fs]))
ALL = list(kinds(0))
for k in ALL:
    shape([k])
for a, b in itertools.product(ALL, ALL):
    shape([a, b])
for t in itertools.product(["ea", "em", "ad", "ns", "fs", "fc"], repeat=3):
    if len(set(t)) == 3:
        shape(list(t))
enum("Top", [("", "A", "Tok"), ("", "B", "Inner"), ("", "C", "Vec<Tok>"), ("", "D", "Option<Tok>"), ("", "E", None), ("", "F", "Vec<Inner>"), ("", "G", "Pick")])
shapes.append(("Top", [[[]] + [[el("A", OK)], [el("A", OK), el("A", OK)], [el("A", OK), el("Z"), el("C", OK)], [el("B", INNER_OK, ' k="1"'), el("B", INNER_OK, ' k="1"')], [inner("B", "bad")], [inner("B", "nov")],
    [el("C", OK)] * 3, [el("C", OK), el("C", BAD)], [el("D", OK)] * 2, [el("E")] * 2, [el("E"), el("A", OK)], [inner("F", "ok"), inner("F", "nov")], [inner("F", "ok"), inner("F", "min")], [pick("G", "cc")], [pick("G", "bc")], [pick("G", "b"), el("A", OK)]]]))
struct("Rec", [("attribute", "k", "Option<Tok>"), ("", "v", "Option<Tok>"), ('rename = "rec"', "kids", "Vec<Rec>")])
def rec(b):
    return el("rec", b, ' k="1"')
shapes.append(("Rec", [[[]] + [[rec("")], [rec(rec("")[1]), rec("<v>1</v>")], [rec(rec("<v>x</v>")[1])], [rec("<v>1</v>" + rec(rec("<v>1</v><v>1</v>")[1])[1])]]]))
out.append("static SHAPES: &[Shape] = &[\n")
for n, vs in shapes:
    lit = ", ".join("&[" + ", ".join("&[" + ", ".join(f'({"aet".index(k)}, r#"{x}"#)' for k, x in v) + "]" for v in f) + "]" for f in vs)
    out.append(f'    Shape {{ name: "{n}", fields: &[{lit}], read: read::<{n}> }},\n')
out.append("];\n")
path = os.path.join(HERE, "src", "gen_types.rs")
new = "".join(out)
if not os.path.exists(path) or open(path).read() != new:
    open(path, "w").write(new)

#!/usr/bin/env python3
"""Structs with own fields only: every kind of field alone, ordered pairs and triples, many fields, nesting."""
import itertools, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "dv"))
from dvgen import *
f = Family()
# What fields hold.
leafy = f.struct("Leafy", [F("k", U8, "Attr", "Opt"), F("v", STR, card="Opt"), F("w", U8, card="Many")], entry=False)
strict = f.struct("Strict", [F("v", U8), F("k", STR, "Attr")], entry=False)
dfl = f.struct("Dfl", [F("v", U8, default=True), F("k", DS, "Attr", default=True)], entry=False, default='Dfl { v: 99, k: Ds("deep".to_owned()) }')
pick = f.choice("Pick", [A("v", U8), A("Other"), A("many", STR, "Many")], entry=False)
note = f.struct("Note", [F("k", STR, "Attr", "Opt"), F("body", STR, "Text")], entry=False)
empty = f.struct("Empty", [], entry=True)
unit = f.choice("Unit", [A("u")], entry=True)
KINDS = {
    "es": lambda i: F(i, STR), "eu": lambda i: F(i, U8), "eo": lambda i: F(i, U8, card="Opt"), "em": lambda i: F(i, U8, card="Many"),
    "ed": lambda i: F(i, DS, default=True), "eod": lambda i: F(i, DS, card="Opt", default=True), "emd": lambda i: F(i, STR, card="Many", default=True),
    "as": lambda i: F(i, STR, "Attr"), "ao": lambda i: F(i, U8, "Attr", "Opt"), "ad": lambda i: F(i, DS, "Attr", default=True),
    "aod": lambda i: F(i, U8, "Attr", "Opt", default=True),
    "ns": lambda i: F(i, strict), "no": lambda i: F(i, leafy, card="Opt"), "nm": lambda i: F(i, leafy, card="Many"), "nd": lambda i: F(i, dfl, default=True),
    "nc": lambda i: F(i, pick), "ncm": lambda i: F(i, pick, card="Many"), "ne": lambda i: F(i, empty), "nem": lambda i: F(i, empty, card="Many"), "neo": lambda i: F(i, empty, card="Opt"), "uc": lambda i: F(i, unit, card="Many"), "nt": lambda i: F(i, note, card="Opt"),
    "t": lambda i: F(i, STR, "Text"), "tu": lambda i: F(i, U8, "Text"),
}
for k in KINDS:
    f.struct(f"One_{k}", [KINDS[k]("a")])
PAIR = ["eu", "eo", "em", "ed", "as", "ao", "ad", "ns", "nm", "nc", "t"]
for n, (x, y) in enumerate(itertools.product(PAIR, PAIR)):
    if x == "t" and y == "t":
        continue
    # Names in and out of order; one a prefix of the other; the same name as attribute and as element.
    if (x[0] == "a") != (y[0] == "a") and n % 2 == 0:
        g, h = KINDS[x]("a"), KINDS[y]("b")
        h.rename = "a"
    else:
        names = [("a", "b"), ("b", "a"), ("a", "ab"), ("ab", "a"), ("B", "a")][n % 5]
        g, h = KINDS[x](names[0]), KINDS[y](names[1])
    f.struct(f"Two_{x}_{y}", [g, h])
TRI = ["eu", "em", "ed", "ao"]
for n, t in enumerate(itertools.product(TRI, TRI, TRI)):
    names = list(itertools.permutations(["a", "b", "c"]))[n % 6]
    f.struct("Three_" + "_".join(t), [KINDS[k](i) for k, i in zip(t, names)])
for t, names in [(("t", "eo", "ao"), "abc"), (("em", "t", "em"), "bca"), (("ns", "em", "nc"), "cba"), (("nd", "as", "nm"), "cab"), (("nc", "nc", "eu"), "bca"), (("eo", "nt", "t"), "cab"), (("nem", "eo", "uc"), "bca")]:
    f.struct("Mix_" + "_".join(t), [KINDS[k](i) for k, i in zip(t, names)])
# Many fields.
for n in (8, 16, 17, 33, 65, 130):
    ks = ["eo", "em", "ed", "ao", "eu", "ad"]
    f.struct(f"Wide{n}", [KINDS[ks[i % 6]](f"f{(i * 7) % n}") for i in range(n)])
# Recursion.
f.out.append("// recursive")
rec = T("Rec", "Ty::Struct(&D_Rec)")
f.struct("Rec", [F("v", U8, card="Opt"), F("kids", rec, card="Many", rename="rec")])
tree = T("Tree", "Ty::Choice(&D_Tree)")
f.choice("Tree", [A("Leaf", U8), A("Node", tree, card="Many")])
a, b = T("MutA", "Ty::Struct(&D_MutA)"), T("MutB", "Ty::Struct(&D_MutB)")
f.struct("MutA", [F("b", b, card="Many"), F("v", U8, "Attr", "Opt")])
f.struct("MutB", [F("a", a, card="Many"), F("v", STR, card="Opt")])
# Unusual identifiers.
f.struct("Idents", [F("r#type", U8), F("_under", U8, card="Opt"), F("CamelCase", U8, card="Many"), F("x_", U8, "Attr", "Opt"), F("x__", U8, card="Opt")])
f.struct("Clash", [F("text", U8), F("errors", STR, card="Opt"), F("out", U8, card="Many"), F("child", U8, "Attr", "Opt"), F("name", STR, "Attr", "Opt"), F("value", DS, default=True), F("writer", U8, card="Opt"), F("builder", U8, card="Opt")])
f.write(HERE)

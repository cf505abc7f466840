#!/usr/bin/env python3
"""Structs with flattened fields: every ordered pair of a set of flattenable types (whose names overlap), with several
own fields before, between and after; triples; deep and wide flattening; namespaces."""
import itertools, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "dv"))
from dvgen import *
f = Family()
inner = f.struct("Inner", [F("x", U8, card="Opt"), F("k", STR, "Attr", "Opt")], entry=False)
FLAT = {
    "ChA": f.choice("ChA", [A("x", U8), A("y")], entry=False),
    "ChB": f.choice("ChB", [A("z", U8, "Many"), A("y", STR)], entry=False),
    "ChC": f.choice("ChC", [A("c", inner), A("o", STR, "Opt"), A("x", U8, skip=True)], entry=False),
    "StO": f.struct("StO", [F("x", U8, card="Opt"), F("w", STR, card="Many"), F("k", U8, "Attr", "Opt")], entry=False),
    "StR": f.struct("StR", [F("y", U8), F("k", STR, "Attr")], entry=False),
    "StT": f.struct("StT", [F("t", STR, "Text"), F("w", U8, card="Opt")], entry=False),
    "StD": f.struct("StD", [F("d", DS, default=True), F("kd", DS, "Attr", default=True)], entry=False),
    "StM": f.struct("StM", [F("c", inner, card="Many")], entry=False),
}
FLAT["StN"] = f.struct("StN", [F("b", FLAT["ChB"], "Flat"), F("q", U8, card="Opt")], entry=False)
FLAT["StNN"] = f.struct("StNN", [F("o", FLAT["StO"], "Flat"), F("q", U8, card="Opt", rename="c"), F("a", FLAT["ChA"], "Flat")], entry=False)
OWN = {
    "none": [], "x": [F("x", U8, card="Opt")], "zk": [F("z", STR, card="Many"), F("k", U8, "Attr", "Opt")], "n": [F("n", STR)],
    "t": [F("t", STR, "Text")], "yd": [F("y", DS, default=True)],
}
def mix(own, flats, n):
    fl = [F(f"f{i}", FLAT[k], "Flat") for i, k in enumerate(flats)]
    o = [F(g.ident, g.ty, g.mode, g.card, g.default, g.rename, g.prefix) for g in own]
    return [o + fl, fl + o, fl[:1] + o + fl[1:], o[:1] + fl + o[1:]][n % 4]
for n, (k, o) in enumerate(itertools.product(FLAT, OWN)):
    f.struct(f"F1_{o}_{k}", mix(OWN[o], [k], n))
for n, (k, l) in enumerate(itertools.product(FLAT, FLAT)):
    o = list(OWN)[(n * 5 + n // 7) % len(OWN)]
    f.struct(f"F2_{o}_{k}_{l}", mix(OWN[o], [k, l], n))
for n, t in enumerate(itertools.permutations(["ChA", "ChB", "StO", "StR"], 3)):
    o = list(OWN)[n % 3]
    f.struct(f"F3_{o}_" + "_".join(t), mix(OWN[o], list(t), n))
# A chain of flattened structs, each with something of its own, and a choice at the bottom.
c = f.choice("Bottom", [A("a", U8), A("b", STR, "Many")], entry=False)
for d in range(6):
    c = f.struct(f"Deep{d}", [F(f"own{d}", U8, card="Opt"), F("rest", c, "Flat"), F(f"at{d}", U8, "Attr", "Opt")], entry=d in (0, 1, 5))
# Many choices, each to be filled.
cs = [f.choice(f"W{i}", [A(f"a{i}", U8), A(f"b{i}"), A(f"c{i}", U8, "Many")], entry=False) for i in range(6)]
f.struct("Side3", [F(f"c{i}", x, "Flat") for i, x in enumerate(cs[:3])])
f.struct("Side6", [F(f"c{i}", x, "Flat") for i, x in reversed(list(enumerate(cs)))])
# Many flattened fields, the last ones to be reached past all others: choices, then structs (one of them reads the text).
ws = [f.choice(f"V{i}", [A(f"a{i}", U8), A(f"b{i}")], entry=False) for i in range(17)]
f.struct("Side9", [F(f"c{i}", x, "Flat") for i, x in enumerate(ws[:9])])
f.struct("Side17", [F(f"c{i}", x, "Flat") for i, x in enumerate(ws)])
os_ = [f.struct(f"O{i}", [F(f"a{i}", U8, card="Opt"), F(f"k{i}", U8, "Attr", "Opt")], entry=False) for i in range(34)]
f.struct("Opts9", [F(f"o{i}", x, "Flat") for i, x in enumerate(os_[:8])] + [F("t", FLAT["StT"], "Flat")])
f.struct("Opts34", [F(f"o{i}", x, "Flat") for i, x in enumerate(os_)] + [F("t", FLAT["StT"], "Flat")])
# The same type flattened twice (only the first can be filled), and a flattened choice next to a field of the same type.
opt = f.struct("OnlyOpt", [F("x", U8, card="Opt"), F("y", STR, card="Many")], entry=False)
f.struct("Twice", [F("first", opt, "Flat"), F("second", opt, "Flat")])
f.struct("Both", [F("as_field", FLAT["ChA"]), F("flat", FLAT["ChA"], "Flat")])
# Recursion through a flattened choice.
rt = T("RecFlat", "Ty::Struct(&D_RecFlat)")
rc = f.choice("RecCh", [A("leaf", U8), A("kids", rt, "Many")], entry=False)
f.struct("RecFlat", [F("k", U8, "Attr", "Opt"), F("c", rc, "Flat")])
# Namespaces: the same prefix for different URLs, different prefixes for one URL, local names equal.
na = f.struct("NsA", [F("x", U8, prefix="p", card="Opt"), F("k", U8, "Attr", "Opt", prefix="p")], namespaces=[("p", "urn:a")], entry=True)
nb = f.struct("NsB", [F("x", U8, prefix="p", card="Many"), F("k", U8, "Attr", "Opt", prefix="p"), F("y", STR, card="Opt")], namespaces=[("p", "urn:b")], entry=True)
nd = f.choice("NsD", [A("x", U8, prefix=""), A("y", prefix="")], default_namespace="urn:d", entry=True)
f.struct("NsHoldA", [F("fa", na, "Flat"), F("x", U8, card="Opt")])
f.struct("NsHoldAB", [F("x", U8, card="Opt", prefix="p"), F("fb", nb, "Flat")], namespaces=[("p", "urn:c"), ("pb", "urn:b")])
f.struct("NsHoldBoth", [F("fa", na, "Flat"), F("fb", nb, "Flat"), F("x", STR, card="Opt", prefix="a")], namespaces=[("a", "urn:c"), ("a2", "urn:a"), ("b2", "urn:b")], rename="h", prefix="a")
f.struct("NsHoldD", [F("fd", nd, "Flat"), F("y", U8, card="Opt"), F("x", U8, card="Opt", prefix="q")], namespaces=[("q", "urn:q"), ("d", "urn:d")])
f.struct("NsHoldDD", [F("fd", nd, "Flat"), F("y", U8, card="Opt", prefix="")], default_namespace="urn:e", namespaces=[("d", "urn:d")])
f.write(HERE)

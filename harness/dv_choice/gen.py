#!/usr/bin/env python3
"""Choices: every kind of alternative alone, ordered pairs, triples, with skipped ones; as root, nested and flattened."""
import itertools, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "dv"))
from dvgen import *
f = Family()
item = f.struct("Item", [F("v", U8, card="Opt"), F("k", STR, "Attr", "Opt")], entry=False)
strict = f.struct("Strict", [F("a", U8), F("b", U8, card="Many")], entry=False)
sub = f.choice("Sub", [A("a", U8), A("b"), A("c", U8, "Many")], entry=False)
KINDS = {
    "un": lambda n: A(n), "st": lambda n: A(n, STR), "u8": lambda n: A(n, U8), "op": lambda n: A(n, U8, "Opt"), "ve": lambda n: A(n, U8, "Many"),
    "it": lambda n: A(n, item), "ve_it": lambda n: A(n, item, "Many"), "sr": lambda n: A(n, strict), "ch": lambda n: A(n, sub),
    "sk": lambda n: A(n, skip=True), "sk8": lambda n: A(n, STR, skip=True),
}
def holders(t, n):
    k = n % 4
    if k == 0: f.struct(f"H_{t.rust}", [F("h", t)])
    if k == 1: f.struct(f"H_{t.rust}", [F("z", U8, card="Opt"), F("h", t, "Flat")])
    if k == 2: f.struct(f"H_{t.rust}", [F("h", t, card="Many")])
    if k == 3: f.struct(f"H_{t.rust}", [F("a", STR, card="Opt"), F("h", t, "Flat"), F("k", U8, "Attr", "Opt")])
n = 0
for k in KINDS:
    if not k.startswith("sk"):
        t = f.choice(f"One_{k}", [KINDS[k]("a")]); n += 1
        for i in range(4):
            if i == n % 4: holders(t, i)
PAIR = ["un", "u8", "op", "ve", "it", "sk", "ch"]
for x, y in itertools.product(PAIR, PAIR):
    if x == "sk" and y == "sk": continue
    a, b = [("a", "b"), ("b", "a"), ("B", "a"), ("a", "ab"), ("ab", "a")][n % 5]
    t = f.choice(f"Two_{x}_{y}", [KINDS[x](a), KINDS[y](b)]); n += 1
    holders(t, n)
TRI = ["un", "u8", "ve", "sk8"]
for i, t in enumerate(itertools.product(TRI, TRI, TRI)):
    if t.count("sk8") == 3: continue
    names = list(itertools.permutations(["a", "b", "c"]))[i % 6]
    t = f.choice("Three_" + "_".join(t), [KINDS[k](m) for k, m in zip(t, names)]); n += 1
    if i % 3 == 0: holders(t, n)
f.choice("Mixed", [A("e", strict), A("d", sub), A("c", item, "Many"), A("b", skip=True), A("a", STR), A("f", item, "Opt")])
for n in (8, 16, 17, 33, 71):
    ks = ["un", "u8", "ve", "it", "st"]
    f.choice(f"Wide{n}", [KINDS[ks[i % 5]](f"v{(i * 5) % n}") for i in range(n)])
# Alternatives told apart by namespace, case or by one being the start of another; renamed; skipped ones sharing a name.
f.choice("ByNs", [A("a", U8, prefix="p"), A("b", U8, rename="a"), A("c", U8, "Many", rename="a", prefix="q")], namespaces=[("p", "urn:p"), ("q", "urn:q")])
f.choice("ByNs2", [A("z", prefix="p"), A("a", prefix="q"), A("y"), A("b", prefix="")], namespaces=[("p", "urn:b"), ("q", "urn:a")], default_namespace="urn:ab")
f.choice("Similar", [A("ab"), A("a", U8), A("A", U8, "Many"), A("Ab"), A("aB"), A("b")])
f.choice("Renamed", [A("First", U8, rename="second"), A("Second", U8, "Many", rename="first"), A("Third", rename="Third-x.1")], rename="top", prefix="t", namespaces=[("t", "urn:t")])
f.choice("SkipShadow", [A("a", U8, skip=True), A("b", U8, rename="a"), A("c", skip=True, rename="c")])
f.choice("Raw", [A("r#type", U8), A("r#fn"), A("r#match", U8, "Many")])
tree = T("Tree", "Ty::Choice(&D_Tree)")
f.choice("Tree", [A("Leaf", U8), A("Node", tree, "Many"), A("Nil")])
f.struct("Maybe", [F("h", T("Similar", "Ty::Choice(&D_Similar)"), card="Opt"), F("g", T("Tree", "Ty::Choice(&D_Tree)"), card="Opt")])
dc = f.choice("Dflt", [A("a", U8), A("b")], default="Dflt::b", entry=False)
f.struct("HoldDflt", [F("h", dc, default=True), F("v", U8, card="Many")])
# Choices flattened side by side which have an alternative in common, of the same kind or not.
for i, (x, y) in enumerate([("un", "un"), ("un", "u8"), ("un", "ve"), ("u8", "un"), ("op", "un"), ("ve", "un"), ("u8", "u8"), ("u8", "ve"), ("op", "op"), ("ve", "u8"), ("it", "un"), ("sk", "un")]):
    p = f.choice(f"P_{x}_{y}", [KINDS[x]("a"), A("b", U8)], entry=False)
    q = f.choice(f"Q_{x}_{y}", [KINDS[y]("a"), A("c")], entry=False)
    own = [[], [F("z", U8, card="Opt")]][i % 2]
    f.struct(f"Side_{x}_{y}", own + [F("p", p, "Flat"), F("q", q, "Flat")])
f.write(HERE)

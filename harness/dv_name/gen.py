#!/usr/bin/env python3
"""Names: sets of declared names in many orders, and combinations of the naming attributes on types, fields, alternatives."""
import itertools, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "dv"))
from dvgen import *
f = Family()
NS = [("pa", "urn:a"), ("pab", "urn:ab")]
POOL = [(p, l) for p in (None, "pa", "pab", "xml") for l in ("a", "ab", "A", "b")]
def field(i, name, mode, card):
    return F(f"f{i}", U8, mode, card, rename=name[1], prefix=name[0])
# All ordered pairs: as elements, and others as attributes. (xml-rs does not read elements in the xml namespace.)
EPOOL = [x for x in POOL if x[0] != "xml"]
apairs = list(itertools.permutations(POOL, 2))
for n, (x, y) in enumerate(itertools.permutations(EPOOL, 2)):
    # 132 pairs of elements, 240 of attributes: two of the latter in every other type.
    ats = [apairs[(2 * n) % 240], apairs[(2 * n + 1) % 240]]
    fs = [field(0, x, "Elem", "Many"), field(1, y, "Elem", "Opt" if n % 2 else "Many")]
    for p, q_ in ats:
        for m in (p, q_):
            if not any(g.mode == "Attr" and (g.rename, g.prefix) == (m[1], m[0]) for g in fs):
                fs.append(field(len(fs), m, "Attr", "Opt"))
    f.struct(f"P{n}", fs, namespaces=NS)
SMALL = [(None, "a"), (None, "ab"), ("pa", "a"), ("pa", "A"), ("pab", "a")]
for n, t in enumerate(itertools.permutations(SMALL, 3)):
    f.struct(f"Q{n}", [field(i, x, "Attr" if n % 3 == 0 else "Elem", "Opt") for i, x in enumerate(t)], namespaces=NS)
    if n % 2 == 0:
        f.choice(f"R{n}", [A(f"V{i}", U8, "Many", rename=x[1], prefix=x[0]) for i, x in enumerate(t)], namespaces=NS)
# Everything at once, in several orders.
for n, k in enumerate((1, 3, 5, 7, 9, 11, 13, 15)):
    names = [POOL[(i * k + n) % 16] for i in range(16)]
    if n % 2: names = [x for x in names if x in EPOOL]
    f.struct(f"All{n}", [field(i, x, "Elem" if n % 2 else "Attr", "Opt") for i, x in enumerate(names)], namespaces=NS)
    if n % 2:
        f.choice(f"AllC{n}", [A(f"V{i}", U8, "Many", rename=x[1], prefix=x[0]) for i, x in enumerate(names)], namespaces=NS)
for n in (8, 15, 16, 17, 33, 100):
    ps = [None, "pa", "pab", "xml"]
    locs = [(ps[(i // 3) % 4], ["n", "N", "m", "nn"][i % 4] + (str((i * 37) % n) if i % 2 else "." + str(n - i))) for i in range(n)]
    f.struct(f"Tab{n}", [field(i, x, "Elem" if x[0] != "xml" and i % 3 else "Attr", "Opt") for i, x in enumerate(locs)], namespaces=NS)
    f.choice(f"TabC{n}", [A(f"V{i}", U8, "Many", rename=x[1], prefix=x[0]) for i, x in enumerate(locs) if x[0] != "xml"], namespaces=NS)
# URLs which only look alike.
URLS = [("h", "http://example.com/ns"), ("hs", "http://example.com/ns/"), ("hh", "http://example.com/ns#"), ("hu", "http://EXAMPLE.com/ns"), ("s", "https://example.com/ns"), ("hp", "http://example.com/n%73")]
for n, (x, y) in enumerate(itertools.permutations([u[0] for u in URLS], 2)):
    f.struct(f"U{n}", [field(0, (x, "a"), "Elem", "Opt"), field(1, (y, "a"), "Elem", "Opt"), field(2, (x, "a"), "Attr", "Opt"), field(3, (y, "a"), "Attr", "Opt")], namespaces=[u for u in URLS if u[0] in (x, y)])
for p, u in URLS:
    f.struct(f"U_{p}", [field(0, (p, "a"), "Elem", "Opt"), field(1, (p, "a"), "Attr", "Opt"), field(2, (None, "b"), "Elem", "Opt")], namespaces=[(p, u)])
    f.choice(f"UC_{p}", [A("V0", U8, "Many", rename="a", prefix=p), A("V1", U8, "One", rename="b")], namespaces=[(p, u)])
# Naming attributes.
NSCONF = {
    "none": ((), None), "p": ([("p", "urn:p")], None), "pq": ([("q", "urn:q"), ("p", "urn:p")], None), "d": ((), "urn:d"),
    "pd": ([("p", "urn:p")], "urn:d"), "same": ([("p", "urn:d")], "urn:d"), "two": ([("p", "urn:p"), ("q", "urn:p")], None),
    "blank": ([("", "urn:d")], None), "odd": ([("p", "urn:p?a=1&b=\"2\"'<>"), ("q", "http://example.com/\u00e9")], None), "xml": ([("xml", XML)], None),
    "gen": ([("ns1", "urn:p"), ("p", "urn:1"), ("attr0", "urn:x")], "urn:p"),
}
n = 0
for c, (nss, dns) in NSCONF.items():
    prefixes = [None, "", "xml"] + [p for p, _ in nss if p not in ("xml", "")]
    for rename in (None, "Re-named.x"):
        for tp in prefixes:
            if tp == "xml": continue
            fields, alts = [], []
            for i, (fp, fr, mode) in enumerate(itertools.product(prefixes, (None, "re"), ("Elem", "Attr"))):
                r = f"re-{i}" if fr else None
                if fp == "xml" and mode == "Elem": continue
                fields.append(F(f"f{i}", U8, mode, "Opt" if mode == "Attr" or i % 4 else "Many", rename=r, prefix=fp))
                if mode == "Elem":
                    alts.append(A(f"V{i}", U8 if i % 4 else None, rename=r, prefix=fp))
            n += 1
            f.struct(f"S{n}_{c}", fields, rename=rename, prefix=tp, namespaces=nss, default_namespace=dns, order=n % 2 == 0)
            f.choice(f"C{n}_{c}", alts, rename=rename, prefix=tp, namespaces=nss, default_namespace=dns, order=n % 2 == 1)
# Types with naming attributes of their own inside others: the field's name counts, the type's mappings apply below.
inner = f.struct("InnerN", [F("v", U8, card="Opt", prefix="p"), F("w", U8, "Attr", "Opt", prefix="p"), F("x", U8, card="Opt")], rename="never", prefix="p", namespaces=[("p", "urn:inner")])
innerd = f.choice("InnerD", [A("v", U8, prefix=""), A("x", U8)], default_namespace="urn:innerd")
for k, (ns, dns) in enumerate([((), None), ([("p", "urn:outer")], None), ([("p", "urn:inner")], None), ([("x", "urn:inner"), ("p", "urn:innerd")], None), ((), "urn:innerd"), ([("p", "urn:outer")], "urn:inner")]):
    ps = [None] + [p for p, _ in ns][:1] + ([""] if dns else [])
    f.struct(f"Outer{k}", [F(f"i{j}", inner, card="Opt", prefix=p) for j, p in enumerate(ps)] + [F(f"d{j}", innerd, card="Many", prefix=p) for j, p in enumerate(ps)], namespaces=ns, default_namespace=dns)
f.write(HERE)

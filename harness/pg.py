#!/usr/bin/env python3
"""C25: every small program over the derive attributes is compiled with the real macros and judged by a validity oracle.

A program is one item deriving some of the four traits. The oracle says, from the documented grammar alone, whether it
must be accepted, must be rejected (and which of its lines are at fault), or may be either. Judged for every program:
the macro does not panic; a program that must be accepted compiles; one that must be rejected is, with an error whose
location is on a line at fault; one that may be either is, if rejected, rejected with an error located in the item.
"""
import concurrent.futures as cf, hashlib, itertools, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
OK, REJECT, EITHER = "must be accepted", "must be rejected", "may be either"
XMLNS = "http://www.w3.org/XML/1998/namespace"

PRELUDE = """#![allow(warnings)]
use static_xml_derive::*;
#[derive(Debug, Default, Deserialize, Serialize)] pub struct Elem { pub v: Option<String>, #[static_xml(attribute)] pub k: Option<String> }
#[derive(Debug, Deserialize, Serialize)] pub struct NoDef { pub v: Option<String> }
#[derive(Debug, Deserialize, Serialize)] pub enum Choice { CA(String), CB(Vec<String>) }
#[derive(Debug, Clone, Copy)] pub struct NoImpl;
#[derive(Debug, ParseText, ToText)] #[static_xml(mode = "restriction")] pub enum Size { Small, Big }
"""


class Prog:
    """lines: source lines. verdict; fault: set of line numbers at fault (empty: anywhere in the item)."""

    def __init__(self, lines, verdict, fault=(), note=""):
        self.lines, self.verdict, self.fault, self.note = lines, verdict, set(fault), note

    def text(self):
        return "\n".join(self.lines)


# ---- items: (source, kind, argument) ------------------------------------------------------------------------------
GOOD, BAD, MAYBE = "good", "bad", "maybe"
# Things that no position understands.
JUNK = [("foo", BAD), ('foo = "x"', BAD), ('foo = "p"', BAD), ('foo = "q: http://q"', BAD), ("foo(x)", BAD), ('"lit"', BAD), ("3", BAD), ('a::rename = "x"', BAD), ("Rename", BAD),
        ("rename", BAD), ("rename = 3", BAD), ('rename("x")', BAD), ("rename = true", BAD), ("rename = b\"x\"", BAD),
        ("prefix", BAD), ("prefix = 'p'", BAD), ('prefix("p")', BAD)]
TYPE_ITEMS = [
    ('rename = "n"', GOOD), ('prefix = "p"', "prefix:p"), ('prefix = "q"', "prefix:q"), ('prefix = ""', GOOD), ('prefix = "xml"', MAYBE),
    ('namespace = "p: http://p"', "ns:p=http://p"), ('namespace = "p: http://p2"', "ns:p=http://p2"), ('namespace = "q: http://q"', "ns:q=http://q"),
    ('namespace = "http://d"', "ns:=http://d"), ('default_namespace = "http://d"', "ns:=http://d"), ('default_namespace = "http://d2"', "ns:=http://d2"),
    (f'namespace = "xml: {XMLNS}"', GOOD), ('namespace = "xml: http://x"', BAD), ('namespace = "xmlns: http://x"', BAD), ('namespace = "xmlfoo: http://x"', MAYBE),
    ('namespace = " xmlns: http://x"', BAD), (f'namespace = " xml : {XMLNS} "', GOOD),
] + JUNK + [("namespace", BAD), ("namespace = 1", BAD), ("default_namespace", BAD), ('default_namespace("x")', BAD),
            ('mode = "std"', BAD), ('whitespace = "collapse"', BAD), ("attribute", BAD), ("default", BAD), ("flatten", BAD), ("text", BAD), ("skip", BAD), ("unknown", BAD)]
FIELD_ITEMS = [("attribute", "mode:attribute"), ("default", "default"), ("flatten", "mode:flatten"), ("text", "mode:text"), ('rename = "n"', GOOD),
               ('prefix = "p"', "prefix:p"), ('prefix = "zz"', "prefix:zz"), ('prefix = ""', "prefix:"), ('prefix = "xml"', "prefix:xml")] + JUNK + [
    ('namespace = "p: http://p"', BAD), ('default_namespace = "x"', BAD), ('mode = "std"', BAD), ("skip", BAD), ("unknown", BAD), ("attribute = true", BAD), ('default = "x"', BAD), ("flatten(x)", BAD), ('text = "x"', BAD)]
VARIANT_ITEMS = [('rename = "n"', GOOD), ('prefix = "p"', "prefix:p"), ('prefix = "zz"', "prefix:zz"), ('prefix = ""', "prefix:"), ("skip", "skip")] + JUNK + [
    ("attribute", BAD), ("default", BAD), ("flatten", BAD), ("text", BAD), ("unknown", BAD), ('namespace = "p: http://p"', BAD), ('mode = "std"', BAD), ("skip = true", BAD), ('skip(x)', BAD)]
TEXT_ITEMS = [('mode = "std"', "tmode:std"), ('mode = "restriction"', "tmode:restriction"), ('mode = "union"', "tmode:union"), ('mode = "list"', BAD), ('mode = ""', BAD), ('mode = "Std"', BAD), ("mode", BAD), ("mode = 1", BAD), ('mode("std")', BAD),
              ('whitespace = "preserve"', GOOD), ('whitespace = "replace"', GOOD), ('whitespace = "collapse"', GOOD), ('whitespace = "trim"', BAD), ('whitespace = "Collapse"', BAD), ("whitespace", BAD), ("whitespace = 1", BAD),
              ("foo", BAD), ('foo = "x"', BAD), ('foo = "std"', BAD), ('foo = "collapse"', BAD), ('"lit"', BAD), ('rename = "n"', BAD), ('prefix = "p"', BAD), ('namespace = "p: u"', BAD), ("unknown", BAD), ("restriction", BAD), ("union", BAD), ('a::mode = "std"', BAD)]
TEXT_VARIANT_ITEMS = [('rename = "n"', "rename"), ("unknown", "unknown"), ("foo", BAD), ('foo = "x"', BAD), ('"lit"', BAD), ("rename", BAD), ("rename = 1", BAD), ('rename("x")', BAD), ('unknown = "x"', BAD), ("unknown(x)", BAD),
                      ('prefix = "p"', BAD), ("skip", BAD), ('mode = "std"', BAD), ("default", BAD), ("text", BAD)]
# Whole attributes that are not a list of items.
MALFORMED = ["#[static_xml]", '#[static_xml = "x"]', "#[static_xml(rename = )]", '#[static_xml(rename "x")]', '#[static_xml(rename = "a" prefix = "b")]', "#[static_xml(= \"x\")]", '#[static_xml(,)]']
HARMLESS = ["#[static_xml()]", "/// documented", "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]"]


def wrap(items, style=0):
    if not items:
        return ""
    if style == 1:
        return " ".join(f"#[static_xml({i})]" for i in items)
    if style == 2:
        return "#[static_xml(" + ", ".join(items) + ",)]"
    return "#[static_xml(" + ", ".join(items) + ")]"


def mapped(kinds):
    """(mappings, conflict) of type-level items."""
    m, verdict = {}, OK
    for k in kinds:
        if k.startswith("ns:"):
            p, u = k[3:].split("=")
            if p in m:
                verdict = REJECT if (m[p] != u or verdict == REJECT) else EITHER
            else:
                m[p] = u
    return m, verdict


def worst(*v):
    return REJECT if REJECT in v else EITHER if EITHER in v else OK


def judge_type(kinds):
    m, v = mapped(kinds)
    pre = [k[7:] for k in kinds if k.startswith("prefix:")]
    for k in kinds:
        if k == BAD:
            v = worst(v, REJECT)
        elif k == MAYBE:
            v = worst(v, EITHER)
    missing = [p for p in pre if p not in m]
    if len(set(pre)) > 1:
        v = worst(v, REJECT if missing else EITHER)
    elif missing:
        v = worst(v, REJECT)
    if len(kinds) != len(set(kinds)):
        v = v if v == REJECT else EITHER
    return v


FIELD_TYPES = ["String", "u8", "Size", "Option<String>", "Vec<String>", "super::Elem", "super::NoDef", "super::Choice", "Option<super::Elem>", "super::NoImpl"]


def judge_field(kinds, ty, derives, m):
    v = OK
    if BAD in kinds:
        return REJECT
    modes = {k[5:] for k in kinds if k.startswith("mode:")}
    if len(modes) > 1:
        return REJECT
    mode = (list(modes) or ["element"])[0]
    default = "default" in kinds
    if default and mode in ("flatten", "text"):
        return REJECT
    pre = [k[7:] for k in kinds if k.startswith("prefix:")]
    if any(p not in ("", "xml") and p not in m for p in pre):
        return REJECT
    if len(set(pre)) > 1:
        return REJECT
    if len(kinds) != len(set(kinds)) or (pre and mode in ("flatten", "text")) or (GOOD in kinds and mode in ("flatten", "text")):
        v = EITHER
    if mode == "element" and "xml" in pre:
        v = EITHER
    de = "Deserialize" in derives
    base = ty.replace("super::", "")
    text = base in ("String", "u8", "Size")
    if mode == "element":
        fits = OK if base != "NoImpl" else REJECT
    elif mode == "attribute":
        fits = OK if text or base == "Option<String>" else REJECT
    elif mode == "flatten":
        fits = OK if base in ("Elem", "NoDef", "Choice") else REJECT if base == "NoImpl" or de else EITHER
    else:
        fits = OK if text else REJECT
    if default and de and base in ("Size", "NoDef", "Choice", "NoImpl"):
        fits = REJECT
    elif default and not de:
        fits = worst(fits, EITHER)
    return worst(v, fits)


def judge_variant(kinds, shape, m):
    if BAD in kinds:
        return REJECT
    pre = [k[7:] for k in kinds if k.startswith("prefix:")]
    skip = "skip" in kinds
    v = OK
    if any(p and p not in m for p in pre) or len(set(pre)) > 1:
        v = EITHER if skip else REJECT
    if len(kinds) != len(set(kinds)):
        v = worst(v, EITHER)
    if skip and len(kinds) > 1:
        v = worst(v, EITHER)
    if shape in ("(String, String)", "{ a: String }", "(super::NoImpl)"):
        s = REJECT
    elif shape in ("()", "{}", "(super::Size)"):
        s = OK if shape == "(super::Size)" else EITHER
    else:
        s = OK
    if skip and s == REJECT:
        s = EITHER
    return worst(v, s)


def derive_line(d):
    return f"#[derive({', '.join(d)})]"


DS = [("Deserialize",), ("Serialize",), ("Deserialize", "Serialize")]
PT = [("ParseText",), ("ToText",), ("ParseText", "ToText")]


def type_level(depth):
    """All lists of up to `depth` type-level items."""
    for n in range(depth + 1):
        for combo in itertools.product(TYPE_ITEMS, repeat=n):
            if n >= 2 and sum(k in (BAD, MAYBE) for _, k in combo) > 1:
                continue  # the second adds nothing
            kinds = [k for _, k in combo]
            v = judge_type(kinds)
            for d in DS if n < 2 else DS[:2]:
                for body in (["    pub v: String,", "}"], None):
                    style = (len(kinds) + len(d)) % 3
                    a = wrap([s for s, _ in combo], style)
                    if body:
                        yield Prog([derive_line(d), a, "pub struct T {"] + body, v, [1, 2], "type items")
                    else:
                        yield Prog([derive_line(d), a, "pub enum T {", "    A(String),", "    B,", "}"], v, [1, 2], "type items")


def field_level(depth):
    for n in range(depth + 1):
        for combo in itertools.product(FIELD_ITEMS, repeat=n):
            kinds = [k for _, k in combo]
            nbad = sum(k == BAD for k in kinds)
            if nbad > 1:
                continue
            for ty in FIELD_TYPES if nbad == 0 else FIELD_TYPES[:1]:
                for d in DS if nbad == 0 and n < 3 else DS[:2]:
                    for ns, m in ((['namespace = "p: http://p"'], {"p"}), ([], set())):
                        if not ns and not any(k.startswith("prefix:") for k in kinds):
                            continue
                        a = wrap([s for s, _ in combo], n % 3)
                        t = "super::Size" if ty == "Size" else ty
                        # What only the compiler notices (a missing trait) may be reported anywhere in the item.
                        said = judge_field(kinds, "String", d, m) == REJECT
                        yield Prog([derive_line(d), wrap(ns), "struct T {", "    other: Option<String>,", "    " + a, f"    f: {t},", "}"],
                                   judge_field(kinds, ty, d, m), [4, 5] if said else [], "field items")


def field_pairs():
    """Two fields of every mode each."""
    modes = [("", "String"), ("attribute", "String"), ("flatten", "super::Elem"), ("flatten", "super::Choice"), ("text", "String"), ("default", "Option<String>"), ("attribute, default", "Option<String>"), ("text, flatten", "String"), ("foo", "String")]
    for (a, ta), (b, tb) in itertools.product(modes, modes):
        for d in DS:
            bad = {"text, flatten", "foo"}
            if a == "text" and b == "text":
                v, f = REJECT, [3, 4]
            elif a in bad or b in bad:
                v, f = REJECT, ([3] if a in bad else []) + ([4] if b in bad else [])
            elif a == b == "flatten" and ta == tb:
                v, f = EITHER, []
            else:
                v, f = OK, []
            x = f"#[static_xml({a})] " if a else ""
            y = f"#[static_xml({b})] " if b else ""
            yield Prog([derive_line(d), "", "struct T {", f"    {x}f: {ta},", f"    {y}g: {tb},", "}"], v, f, "two fields")


def variant_level(depth):
    shapes = ["", "(String)", "(Vec<String>)", "(Option<super::Elem>)", "(super::Size)", "(super::Choice)", "()", "(String, String)", "{ a: String }", "(super::NoImpl)"]
    for n in range(depth + 1):
        for combo in itertools.product(VARIANT_ITEMS, repeat=n):
            kinds = [k for _, k in combo]
            nbad = sum(k == BAD for k in kinds)
            if nbad > 1:
                continue
            for shape in shapes if nbad == 0 else shapes[:2]:
                for d in DS if n < 2 else DS[:2]:
                    for ns, m in ((['namespace = "p: http://p"'], {"p"}), ([], set())):
                        if not ns and not any(k.startswith("prefix:") for k in kinds):
                            continue
                        a = wrap([s for s, _ in combo], n % 3)
                        said = shape != "(super::NoImpl)" or judge_variant(kinds, "(String)", m) == REJECT
                        yield Prog([derive_line(d), wrap(ns), "enum T {", "    Other(String),", "    " + a, f"    F{shape},", "}"],
                                   judge_variant(kinds, shape, m), [4, 5] if said else [], "variant items")


STD_IMPLS = "impl std::str::FromStr for T { type Err = std::num::ParseIntError; fn from_str(s: &str) -> Result<Self, Self::Err> { loop {} } } impl std::fmt::Display for T { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }"
TEXT_BODIES = [
    # (source after the name, with line breaks; modes it suits; lines at fault in other modes; implementations)
    ("struct T;", {"std"}), ("struct T(String);", {"std"}), ("struct T { v: String }", {"std"}), ("union T { v: u8 }", {"std"}),
    ("enum T { A, B }", {"std", "restriction"}), ("enum T { A(String), B(super::Size) }", {"std", "union"}), ("enum T { A(super::NoImpl), B(String) }", {"std"}),
    ("enum T { A, B(String) }", {"std"}), ("enum T { A(String, String) }", {"std"}), ("enum T { A { v: String } }", {"std"}), ("enum T { A, #[static_xml(unknown)] B(String) }", {"restriction", "std?"}),
]


def text_level(depth):
    for n in range(depth + 1):
        for combo in itertools.product(TEXT_ITEMS, repeat=n):
            kinds = [k for _, k in combo]
            nbad = sum(k == BAD for k in kinds)
            if nbad > 1:
                continue
            tm = [k[6:] for k in kinds if k.startswith("tmode:")]
            for bi, (body, suits) in enumerate(TEXT_BODIES):
                if (nbad or len(tm) > 1) and bi not in (4, 5):
                    continue
                for d in PT:
                    head = [derive_line(d), wrap([s for s, _ in combo], n % 3), body]
                    fault = [1, 2]
                    if nbad or not tm:
                        v = REJECT
                    elif len(tm) > 1:
                        v = REJECT
                    elif tm[0] in suits:
                        v = OK
                    elif tm[0] + "?" in suits:
                        v = EITHER
                    else:
                        v = REJECT
                    ws = [s for s, k in combo if s.startswith("whitespace")]
                    if v == OK and len(ws) > 1:
                        v = EITHER
                    # What must be rejected is rejected even if the standard conversions are there.
                    lines = head
                    if "std" in tm or v == REJECT:
                        lines = head + [STD_IMPLS]
                    yield Prog(lines, v, fault, "text items")
    # Standard mode without the standard traits.
    for d, miss in ((("ParseText",), "FromStr"), (("ToText",), "Display")):
        yield Prog([derive_line(d), '#[static_xml(mode = "std")]', "struct T;"], REJECT, [], "std without " + miss)


def text_variants(depth):
    shapes = ["", "(String)", "(super::NoImpl)", "(String, String)", "{ v: String }", "()"]
    for mode in ("restriction", "union"):
        for n in range(depth + 1):
            for combo in itertools.product(TEXT_VARIANT_ITEMS, repeat=n):
                kinds = [k for _, k in combo]
                if sum(k == BAD for k in kinds) > 1:
                    continue
                for shape in shapes:
                    for d in PT[:2]:
                        unk = "unknown" in kinds
                        if BAD in kinds:
                            v = REJECT
                        elif mode == "union":
                            v = REJECT if kinds or shape != "(String)" else OK
                        elif unk:
                            v = REJECT if "rename" in kinds or shape != "(String)" else OK
                        else:
                            v = OK if shape == "" else EITHER if shape == "()" else REJECT
                        if v == OK and len(kinds) != len(set(kinds)):
                            v = EITHER
                        first = "    First(u8)," if mode == "union" else "    First,"
                        yield Prog([derive_line(d), f'#[static_xml(mode = "{mode}")]', "enum T {", first, "    " + wrap([s for s, _ in combo], n % 3), f"    F{shape},", "}"], v, [4, 5], "text alternatives")
        for d in PT[:2]:
            # Two unknown alternatives.
            yield Prog([derive_line(d), f'#[static_xml(mode = "{mode}")]', "enum T {", "    A,", "    #[static_xml(unknown)] B(String),", "    #[static_xml(unknown)] C(String),", "}"], REJECT, [3, 4, 5], "two unknown")


def shapes_level():
    """Whole items."""
    for d in DS:
        dl = derive_line(d)
        for body in ("struct T(String);", "struct T;", "struct T(String, String);", "struct T();", "union T { a: u8 }"):
            yield Prog([dl, "", body], REJECT, [2], "unsupported shape")
        for body in ("struct T {}", "struct T { a: String }", "pub struct T { pub a: String }", "pub(crate) struct T { a: super::Elem }", "pub(super) enum T { A }", "enum T { A(String) }", "enum T { A, B, C(Vec<super::Elem>) }",
                     "enum T { #[static_xml(skip)] A, B }", "enum T { #[static_xml(skip)] A(String), B(String) }", "struct T { r#type: String, r#fn: Option<String> }", "enum T { r#Self_(String) }",
                     "struct T { a: Option<Box<String>>, }" if False else "struct T { a: String, a_: String, a__: String }", "struct T { a: Vec<T> }", "enum T { A(Vec<T>), B }", "pub struct T { #[static_xml(flatten)] a: super::Elem }"):
            yield Prog([dl, "", body], OK, [], "supported shape")
        for body in ("struct T<X> { a: X }", "struct T<'a> { a: &'a str }", "enum T {}", "struct T<const N: usize> { a: String }", "enum T { #[static_xml(skip)] A }", "enum T { A = 1, B = 2 }", "struct T where { a: String }", "struct T { a: String, #[static_xml(rename = \"a\")] b: String }",
                     "enum T { A(String), #[static_xml(rename = \"A\")] B(String) }", "struct T { a: fn() }", "struct T { a: [String; 2] }", "struct T { a: (String, String) }", "struct T { a: &'static str }", "struct T { a: Option<Vec<String>> }"):
            yield Prog([dl, "", body], EITHER, [], "unusual shape")
        for m in MALFORMED:
            yield Prog([dl, m, "struct T {", "    a: String,", "}"], REJECT, [1, 2], "malformed on type")
            yield Prog([dl, "", "struct T {", "    a: String,", f"    {m}", "    b: String,", "}"], REJECT, [4, 5], "malformed on field")
            yield Prog([dl, m, "enum T {", "    A,", "}"], REJECT, [1, 2], "malformed on enum")
            yield Prog([dl, "", "enum T {", "    A,", f"    {m}", "    B,", "}"], REJECT, [4, 5], "malformed on variant")
        for m in HARMLESS:
            yield Prog([dl, m, "struct T {", "    a: String,", f"    {m}", "    b: String,", "}"], OK, [], "harmless")
            yield Prog([dl, m, "enum T {", "    A,", f"    {m}", "    B(String),", "}"], OK, [], "harmless")
        for x in ('rename = ""', 'rename = "a b"', 'rename = "1"', 'rename = "<"', 'namespace = ""', 'namespace = ": u"', 'namespace = "p: "', 'namespace = "p:u"', 'namespace = " p : u "', 'default_namespace = ""', 'namespace = "p: a: b"'):
            yield Prog([dl, f"#[static_xml({x})]", "struct T {", "    a: String,", "}"], EITHER, [], "odd value")
        for r in ("packed", "C, packed", "packed(2)", "C, packed(4)", "packed, C"):
            # References to the fields would be misaligned.
            yield Prog([dl, f"#[repr({r})]", "struct T { a: u8, b: Option<u64>, c: Vec<String> }"], REJECT, [], "packed")
            yield Prog([dl, "#[repr(C)]", f"#[repr({r.replace('C, ', '').replace(', C', '')})]", "struct T {", "    #[static_xml(attribute)] a: u8,", "    #[static_xml(text)] b: String,", "}"], REJECT, [], "packed")
        for r in ("C", "align(16)", "C, align(2)", "transparent"):
            yield Prog([dl, f"#[repr({r})]", "struct T { a: Vec<u64> }"], OK, [], "representation")
        for r in ("C", "u8", "C, i16"):
            yield Prog([dl, f"#[repr({r})]", "enum T { A(u8), B, C(Vec<String>) }"], OK, [], "representation")
        yield Prog(["fn local() {", dl, "struct T { a: String }", "}"], OK, [], "local item")
        yield Prog(["fn local() {", dl, "#[static_xml(foo)]", "struct T { a: String }", "}"], REJECT, [2, 3], "local item")
    for d in PT:
        dl = derive_line(d)
        for m in MALFORMED:
            yield Prog([dl, '#[static_xml(mode = "restriction")]', m, "enum T {", "    A,", "}"], REJECT, [2, 3], "malformed on text type")
            yield Prog([dl, '#[static_xml(mode = "restriction")]', "enum T {", "    A,", f"    {m}", "    B,", "}"], REJECT, [4, 5], "malformed on text alternative")
        for m in HARMLESS:
            yield Prog([dl, '#[static_xml(mode = "restriction")]', m, "enum T {", f"    {m}", "    A,", "}"], OK, [], "harmless")
        for body in ("enum T {}", "enum T<X> { A(X) }", "enum T { A = 1 }"):
            for mode in ("restriction", "union", "std"):
                yield Prog([dl, f'#[static_xml(mode = "{mode}")]', body], EITHER, [], "unusual shape")
        for body in ("struct T;", "struct T(String);", "union T { a: u8 }"):
            for mode in ("restriction", "union"):
                yield Prog([dl, f'#[static_xml(mode = "{mode}")]', body], REJECT, [2], "unsupported shape")
    both = derive_line(("Deserialize", "ParseText"))
    yield Prog([both, '#[static_xml(mode = "restriction")]', "enum T { A }"], REJECT, [], "conflicting traits")


S = "::std::string::String"
SCOPED = [
    # (derives, lines): every feature of the macros, naming all types by absolute paths.
    (DS, ['#[static_xml(prefix = "p", namespace = "p: http://p")]', "pub struct T {", "    #[static_xml(attribute)] pub a: STR,", "    #[static_xml(attribute, prefix = \"xml\")] pub lang: ::std::option::Option<STR>,",
          "    #[static_xml(attribute, default)] pub d: u8,", "    pub e: STR,", "    pub o: ::std::option::Option<super::Elem>,", "    pub v: ::std::vec::Vec<u8>,", "    #[static_xml(default, rename = \"x\")] pub de: super::Elem,",
          "    #[static_xml(flatten)] pub f: super::Elem,", "    #[static_xml(flatten)] pub c: super::Choice,", "}"]),
    (DS, ["pub struct T { pub v: ::std::vec::Vec<TVisitor> }", "DERIVE", "pub struct TVisitor { pub v: UVisitor }", "DERIVE", "pub enum UVisitor { A(U) }", "DERIVE", "pub enum U { A(::std::vec::Vec<TVisitor>), B }"]),
    (DS, ["struct T {", "    #[static_xml(text)] t: STR,", "    #[static_xml(attribute)] a: ::std::option::Option<u8>,", "}"]),
    (DS, ["pub(crate) enum T {", "    A(STR),", "    B,", "    #[static_xml(skip)] D(u8),", "    C(::std::vec::Vec<super::Elem>),", "    #[static_xml(rename = \"o\")] O(::std::option::Option<u8>),", "}"]),
    (DS, ["pub struct T { pub v: ::std::vec::Vec<U> }", "DERIVE", "pub enum U { A(T), B }", "DERIVE", "pub struct W {}"]),
    (PT, ['#[static_xml(mode = "restriction", whitespace = "collapse")]', "pub enum T { A, #[static_xml(rename = \"b\")] B, #[static_xml(unknown)] U(STR) }"]),
    (PT, ['#[static_xml(mode = "restriction")]', "enum T { A }"]),
    (PT, ['#[static_xml(mode = "union", whitespace = "replace")]', "pub enum T { A(u8), B(super::Size), C(STR) }"]),
    (PT, ['#[static_xml(mode = "std")]', "pub struct T { v: u8 }",
          "impl ::std::str::FromStr for T { type Err = ::std::num::ParseIntError; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> { loop {} } } impl ::std::fmt::Display for T { fn fmt(&self, f: &mut ::std::fmt::Formatter) -> ::std::fmt::Result { loop {} } }"]),
]
# What a program may have in scope, beside the item.
SCOPES = (
    [f"type {n}<X> = ::std::option::Option<X>;" for n in ("Result", "Option", "Vec", "Box")]
    + [f"struct {n};" for n in ("Result", "Option", "String", "Vec", "Box", "Some", "None", "Ok", "Err", "MaybeUninit", "PhantomData", "Drop", "ElementReader", "ElementVisitor", "VisitorError", "Deserialize", "Serialize", "ParseText", "ToText",
                                "ExpandedNameRef", "ElementBuilder", "ElementWriter", "Error", "Visitor", "Out", "TextPosition", "Normal", "bool_", "TVisitor", "UVisitor", "WVisitor", "E", "R", "V", "D")]
    + [f"fn {n}() {{}}" for n in ("Some", "None", "Ok", "Err", "drop", "find", "normalize", "write", "new", "parse", "delegate_element")]
    + [f"enum Own {{ {n} }} use self::Own::*;" for n in ("Ok", "Err", "Some", "None")]
    + [f"const {n}: u8 = 3;" for n in ("ELEMENTS", "ATTRIBUTES", "Some_", "NAMESPACES")]
    + [f"mod {n} {{}}" for n in ("std", "core", "alloc", "static_xml", "de", "ser", "option", "result", "string")]
    + [f"trait {n} {{}}" for n in ("Drop", "Default", "From", "Into", "FromStr", "ToString", "Display", "Iterator", "AsRef", "Sized_")]
    + [f"macro_rules! {n} {{ ($($t:tt)*) => {{ compile_error!(\"not this one\") }} }}" for n in ("stringify", "unreachable", "vec", "format", "concat", "matches", "panic", "impl_deserialize_via_raw", "assert")]
    # Methods of the same names on everything.
    + ["trait Every { fn parse(&self) {} fn read_to(&self) {} fn init(&self) {} fn update(&self) {} fn new(&self) {} fn write(&self) {} fn to_text(&self) {} fn element(&self) {} fn attribute(&self) {} fn take(&self) {} fn as_mut(&self) {} fn unwrap(&self) {} fn map_err(&self) {} fn push(&self) {} fn push_str(&self) {} fn text(&self) {} fn string(&self) {} } impl<X> Every for X {}",
       "trait Every { fn parse(self) where Self: Sized {} fn missing() {} fn finalize(self) where Self: Sized {} fn expanded_name(self) where Self: Sized {} fn out(self) where Self: Sized {} fn write_attributes(&self) {} fn write_children(&self) {} fn namespace(&self) {} fn characters(&self) {} fn deserialize() {} fn from_str() {} fn to_string(&self) {} fn default() {} fn into(self) where Self: Sized {} fn from() {} } impl<X> Every for X {}"]
)
LINTS = ["#[deny(nonstandard_style)]", "#[warn(dead_code)] #[allow(missing_docs)]"]


def scopes_level(depth):
    """The same items with other things in scope."""
    for n in range(1, depth + 1):
        for combo in itertools.combinations(SCOPES, n):
            if any(c in ("struct TVisitor;", "struct UVisitor;") for c in combo):
                continue  # one of the items has the name
            names = [re.match(r"(\w+!?) (\w+)", c).group(2) for c in combo]
            if len(set(names)) < len(names):
                continue
            if sum(c.startswith("trait Every") for c in combo) > 1 or sum("Own" in c for c in combo) > 1:
                continue
            for ds, lines in SCOPED:
                for d in ds if n == 1 else ds[2:]:
                    # Other things may not stand for the traits which are derived.
                    dl = derive_line(["::static_xml_derive::" + x for x in d])
                    yield Prog(list(combo) + [dl] + [l.replace("STR", S).replace("DERIVE", dl) for l in lines],
                               EITHER if any("trait Every" in c for c in combo) else OK, [], "scope")


def contexts_level():
    """The same items in other places."""
    for ds, lines in SCOPED:
        for d in ds:
            dl = derive_line(["::static_xml_derive::" + x for x in d])
            body = [l.replace("STR", S).replace("DERIVE", dl) for l in lines]
            for l in LINTS:
                yield Prog([l, "mod m {", dl] + [x.replace("super::", "super::super::") for x in body] + ["}"], OK, [], "lint")
            yield Prog(["fn f() {", dl] + body + ["}"], OK, [], "in a function")
            yield Prog(["const X: u8 = {", dl] + body + ["3 };"], OK, [], "in a constant")
            yield Prog(["macro_rules! m { () => {", dl] + body + ["} } m!();"], OK, [], "made by a macro")
            yield Prog(["macro_rules! m { ($($t:tt)*) => { $($t)* } } m! {", dl] + body + ["}"], OK, [], "passed through a macro")
            yield Prog(["macro_rules! m { ($t:item) => { $t } } m! {", dl] + body[:next((i for i, x in enumerate(body) if x.endswith("}")), 0) + 1] + ["}"] + body[next((i for i, x in enumerate(body) if x.endswith("}")), 0) + 1:], EITHER if "impl" in body[-1] or "T {}" in body[-1] else EITHER, [], "item through a macro")
    for d in DS:
        dl = derive_line(d)
        yield Prog(["macro_rules! m { ($v:vis $t:ident, $($f:ident: $y:ty,)* $l:literal $(#[$m:meta])*) => {", dl, "$(#[$m])* $v struct $t { #[static_xml(rename = $l)] other: String, $(pub $f: $y,)* }", "} }",
                    "m!(pub T, a: String, b: Option<super::Elem>, c: Vec<String>, \"x\" #[static_xml(rename = \"r\")]);"], OK, [], "fragments")
        yield Prog(["macro_rules! m { ($t:ident, $($f:ident($y:ty),)* $l:literal) => {", dl, "enum $t { #[static_xml(rename = $l)] Other, $($f($y),)* }", "} }",
                    "m!(T, A(String), B(Option<super::Elem>), C(Vec<String>), \"x\");"], OK, [], "fragments")


# ---- compiling ----------------------------------------------------------------------------------------------------
ENV = dict(os.environ, PATH=os.path.expanduser("~/.cargo/bin") + ":" + os.environ.get("PATH", "/usr/bin:/bin"), RUSTUP_TOOLCHAIN="1.83.0", CARGO_TERM_COLOR="never")


def artifacts():
    p = subprocess.run([os.path.join(VERIF, "cargo.sh"), "build", "--message-format=json", "-q", "-p", "static-xml", "-p", "static-xml-derive"], stdout=subprocess.PIPE, text=True)
    if p.returncode != 0:
        return None
    a = {}
    for l in p.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact":
            n = m["target"]["name"].replace("-", "_")
            for f in m["filenames"]:
                if n == "static_xml" and f.endswith(".rlib") or n == "static_xml_derive" and f.endswith(".so"):
                    a[n] = f
    return a


def rustc(art, path, out):
    cmd = ["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "p", "--error-format=json", "--emit=metadata", "-o", out, "-A", "warnings",
           "--extern", "static_xml=" + art["static_xml"], "--extern", "static_xml_derive=" + art["static_xml_derive"], "-L", "dependency=" + os.path.join(TARGET, "debug", "deps"), path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=ENV, timeout=600)
    ds, other = [], []
    for l in p.stderr.splitlines():
        try:
            ds.append(json.loads(l))
        except ValueError:
            other.append(l)
    if p.returncode not in (0, 1):
        other.append(f"rustc status {p.returncode}")
    return p.returncode, ds, other


def compile_all(art, progs, scratch, tag):
    """[(errors)] per program: each a list of (message, [(first line, last line) within the program of each primary span, or None])."""
    errs = [[] for _ in progs]
    stray = []
    live = list(range(len(progs)))
    for rnd in range(12):
        src = PRELUDE.split("\n")
        where = []  # line (1-based) -> (program, line in program)
        where = {}
        for i in live:
            src.append(f"mod p{i} {{ use static_xml_derive::*; use super::Size;")
            for j, l in enumerate(progs[i].lines):
                src.append(l)
                where[len(src)] = (i, j)
            src.append("}")
        path = os.path.join(scratch, f"{tag}.rs")
        with open(path, "w") as f:
            f.write("\n".join(src) + "\n")
        rc, ds, other = rustc(art, path, os.path.join(scratch, f"{tag}.rmeta"))
        hit = set()

        def place(sp):
            """Program and lines of a span, following macro expansions outwards."""
            direct = True
            while sp:
                if os.path.basename(sp["file_name"]) == os.path.basename(path) and sp["line_start"] in where:
                    i, a = where[sp["line_start"]]
                    b = where.get(sp["line_end"], (i, a))
                    return i, (a, b[1] if b[0] == i else a) if direct else None
                direct = False
                sp = (sp.get("expansion") or {}).get("span")
            return None

        for d in ds:
            if not d.get("level", "").startswith("error"):
                continue
            spans = [s for s in d["spans"] if s["is_primary"]] or d["spans"]
            if not spans:
                if not d["message"].startswith("aborting due to"):
                    other.append(d["message"])
                continue
            by = {}
            for s in spans:
                w = place(s)
                if w:
                    by.setdefault(w[0], []).append(w[1])
            if not by:
                # e.g. a span at the module line: find through any span of the message or its children.
                for s in d["spans"] + [s for c in d["children"] for s in c["spans"]]:
                    w = place(s)
                    if w:
                        by.setdefault(w[0], []).append(None)
            if not by:
                other.append(d["message"] + " @ " + json.dumps(spans[0])[:300])
            for i, w in by.items():
                errs[i].append((d["message"], w))
                hit.add(i)
        if rc == 0:
            return errs, stray
        if not hit:
            if len(live) > 1 and rnd < 11 and not ds:
                pass
            stray += other or ["rustc failed without a located error"]
            return errs, stray
        live = [i for i in live if i not in hit]
    stray.append("still failing after 12 rounds")
    return errs, stray


def judge(p, errs):
    for m, _ in errs:
        if "panicked" in m:
            return "panic", f"the macro panicked: {m}"
    if p.verdict == OK and errs:
        return "reject-valid", f"a program that must be accepted is rejected: {errs[0][0]}"
    if p.verdict == REJECT and not errs:
        return "accept-invalid", "a program that must be rejected is accepted"
    if errs:
        lines = [w for _, ws in errs for w in ws if w]
        if not lines:
            return "unlocated", f"no error is located in the item: {errs[0][0]}"
        if p.verdict == REJECT and p.fault and not any(set(range(a, b + 1)) & p.fault for a, b in lines):
            return "misplaced", f"no error is located at the lines at fault {sorted(x + 1 for x in p.fault)}: {errs[0]}"
    return None, None


def key(p):
    return hashlib.sha1(p.text().encode()).hexdigest()[:12]


def main():
    a = sys.argv[1:]
    tier = a[a.index("--tier") + 1] if "--tier" in a else "quick"
    out = a[a.index("--out") + 1] if "--out" in a else None
    deep = tier == "thorough"
    models = [
        ("type-items", f"all lists of up to 2 of {len(TYPE_ITEMS)} type-level items (at most one of them meaningless), structs and enums, each trait alone and both", lambda: type_level(2)),
        ("field-items", f"all lists of up to {3 if deep else 2} of {len(FIELD_ITEMS)} field-level items (at most one meaningless) on {len(FIELD_TYPES)} field types, prefix mapped or not", lambda: field_level(3 if deep else 2)),
        ("field-pairs", "all pairs of field modes", field_pairs),
        ("variant-items", f"all lists of up to {3 if deep else 2} of {len(VARIANT_ITEMS)} alternative-level items on 10 alternative shapes", lambda: variant_level(3 if deep else 2)),
        ("text-items", f"all lists of up to {3 if deep else 2} of {len(TEXT_ITEMS)} items on {len(TEXT_BODIES)} text types", lambda: text_level(3 if deep else 2)),
        ("text-variants", f"all lists of up to {3 if deep else 2} of {len(TEXT_VARIANT_ITEMS)} items on 6 alternative shapes of both modes", lambda: text_variants(3 if deep else 2)),
        ("scopes", f"{len(SCOPED)} groups of items using every feature, with {'each two' if deep else 'each'} of {len(SCOPES)} other definitions in scope", lambda: scopes_level(2 if deep else 1)),
        ("contexts", "the same items under groups of lints, in functions and constants, made by or passed through macros", contexts_level),
        ("shapes", "item shapes, malformed and harmless attributes at every position, odd values", shapes_level),
    ]
    if "--only" in a:
        models = [m for m in models if m[0] == a[a.index("--only") + 1]]
    art = artifacts()
    if not art or len(art) != 2:
        print("cannot build static-xml", file=sys.stderr)
        sys.exit(2)
    scratch = tempfile.mkdtemp(prefix="pg", dir=TARGET)
    part = {"models": [], "failure": None, "known": {}, "keyed": {}}
    failures = []
    broken = []
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            jobs = []
            for name, bounds, gen in models:
                t0 = time.time()
                progs, seen = [], set()
                for p in gen():
                    if p.text() not in seen:
                        seen.add(p.text())
                        progs.append(p)
                n = 300
                chunks = [progs[i:i + n] for i in range(0, len(progs), n)]
                jobs.append((name, bounds, progs, [(c, ex.submit(compile_all, art, c, scratch, f"{name}-{i}")) for i, c in enumerate(chunks)], t0))
            for name, bounds, progs, fs, t0 in jobs:
                outc, samples = {}, []
                for c, f in fs:
                    errs, stray = f.result()
                    broken += stray
                    for p, e in zip(c, errs):
                        kind, what = judge(p, e)
                        o = f"{p.verdict}: {'rejected' if e else 'accepted'}"
                        outc[o] = outc.get(o, 0) + 1
                        if len(samples) < 3 and e and outc[o] == 7:
                            samples.append(p.text().replace("\n", " ") + " => " + e[0][0])
                        if kind:
                            failures.append((name, kind, what, p))
                part["models"].append({"name": "pg/" + name, "bounds": bounds, "executions": len(progs), "states": len(progs), "transitions": sum(len(p.lines) for p in progs),
                                       "comparisons": len(progs), "max_choices_per_execution": 3 if deep else 2, "exhaustive": True, "wall_s": round(time.time() - t0, 2), "samples": samples, "outcomes": outc})
                print(f"  {name:16} programs={len(progs)} {outc} {time.time() - t0:.1f}s", file=sys.stderr)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    if broken and not failures:
        print("stray compiler output:", broken[:5], file=sys.stderr)
        sys.exit(2)
    if "--list" in a:
        groups = {}
        for name, kind, what, p in failures:
            groups.setdefault((name, kind, what[:90]), []).append(p)
        for g, ps in groups.items():
            print(g, len(ps))
            for p in ps[:3]:
                print("      ", p.text().replace("\n", " "))
    if failures:
        failures.sort(key=lambda f: (len(f[3].text()), f[3].text()))
        name, kind, what, p = failures[0]
        part["failure"] = {"model": name, "what": what, "case": p.text(), "choices": [], "count": len(failures)}
    if out:
        json.dump(part, open(out, "w"), indent=1)
    for m in failures[:3]:
        print(m[1], m[2], "\n" + m[3].text(), file=sys.stderr)
    sys.exit(1 if failures else 0)


main()

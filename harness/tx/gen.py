#!/usr/bin/env python3
"""Writes src/gen_types.rs: each derived text type under each white-space mode.

(Written out rather than made by `macro_rules!`: the derive macros do not support types declared inside one.)
"""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
def R(text): return f'#[static_xml(rename = "{text}")] '
MANY = ["b", "A", "ab", "1", "-", "aB", "B", "bb", "\\u{e9}\\u{e9}\\u{e9}", "a", "q", "\\u{e9}"]
U = "#[static_xml(unknown)] "
RESTRICTIONS = {
    "names": ["A", "Ab", "ABC", "a_1"],
    "renamed": [R("a") + "Lower", R("A") + "Upper", R("ab") + "Ab", R("\\u{e9}") + "Accent", R("Ab") + "B", "C"],
    "spaced": [R("") + "Empty", R(" ") + "Space", R("a b") + "AB", R("a  b") + "AABB", R(" a") + "LeadA", R("a\\tb") + "TabB"],
    "unknown_last": [R("a") + "Lower", "A", R("a b") + "AB", U + "Other(String)"],
    "unknown_first": [U + "Unknown(String)", R("a") + "A", "B"],
    "unknown_middle": ["A", U + "B(String)", R("B") + "C", R("") + "Nothing"],
    "unknown_only": [U + "Any(String)"],
    # Many alternatives, the longest of them one of few long characters; then very many.
    "many": [R(t) + f"V{i}" for i, t in enumerate(MANY)],
    "hundred": [f"W{(i * 37) % 100}" for i in range(100)] + [R("a") + "Small", R("\\u{e9}\\u{e9}\\u{e9}\\u{e9}") + "Long", U + "Other(String)"],
    "raw": ["r#type", "r#Fn", R("match") + "M"],
}
UNIONS = {
    "int_bool_str": ["Int(i32)", "Bool(bool)", "Str(String)"],
    "bool_int": ["Bool(bool)", "Int(i32)"],
    "narrow": ["U8(u8)", "I8(i8)", "U16(u16)"],
    "of_restrictions": ["First(renamed::Default)", "Second(names::Collapse)", "Third(StdReplace)"],
    "closed": ["First(renamed::Preserve)", "Second(spaced::Preserve)", "N(u8)"],
    "nested": ["Inner(narrow::Default)", "Inner2(closed::Collapse)", "B(StdCollapse)"],
    "shadowed": ["Str(String)", "Int(i32)"],
    "one": ["Only(u8)"],
}
out = ["// @generated by gen.py"]
for kind, table in (("restriction", RESTRICTIONS), ("union", UNIONS)):
    for m, vs in table.items():
        out.append(f"pub mod {m} {{ use super::*;")
        for n, a in (("Default", f'mode = "{kind}"'), ("Preserve", f'mode = "{kind}", whitespace = "preserve"'),
                     ("Replace", f'whitespace = "replace", mode = "{kind}"'), ("Collapse", f'mode = "{kind}", whitespace = "collapse"')):
            out.append(f"  #[derive(Debug, ParseText, ToText)] #[static_xml({a})] #[allow(non_camel_case_types)]\n  pub enum {n} {{ {', '.join(vs)} }}")
        out.append("}")
vs = ", ".join(f'("V{i}", "{t}")' for i, t in enumerate(MANY))
out.append(f"pub const MANY: &[(&str, &str)] = &[{vs}];")
vs = ", ".join(f'("W{i}", "W{i}")' for i in range(100))
out.append(f'pub const HUNDRED: &[(&str, &str)] = &[("Small", "a"), ("Long", "\\u{{e9}}\\u{{e9}}\\u{{e9}}\\u{{e9}}"), {vs}];')
text = "\n".join(out) + "\n"
p = os.path.join(HERE, "src", "gen_types.rs")
if not os.path.exists(p) or open(p).read() != text:
    open(p, "w").write(text)

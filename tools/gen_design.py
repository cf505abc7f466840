#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl.md, properties.jsonl, known_findings.json, seeded/ and tools/caught.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from registry import BINS
D = {
"C01": ("round_trip: every generated type (cardinality, flattened, choice and naming families: plain, optional, repeated, defaulted, text, attribute, nested, recursive, flattened structs and choices, renamed and namespaced) x every value with lists of 0-2 (thorough 0-3) items, every alternative and option, every leaf in turn taking every sample text (white space only, markup, line ends, empty, `]]>`, non-BMP); size and depth ladders. Write, parse strictly, read back, compare.",
        "equality of the value itself, and of the infoset with the reference writer's",
        "round trips fail in combinations of shape x text x position; the tests have one value per shape"),
"C02": ("hand-written serializers as data (`wr/prog.rs`): every string up to length 4 (5) over 18 characters (markup, quotes, line ends, CDATA end, forbidden and non-BMP characters) as text, split text, attribute value, namespace URL; all bounded value trees; every character of the BMP's classes alone; size ladder; strings, lists and attributes of 2^k-1, 2^k, 2^k+1 items.",
        "the strict parser's infoset equals the program; a string with a character XML cannot represent must be an error",
        "injection needs particular characters in particular places"),
"C03": ("all sequences of namespace/attribute/child calls over colliding prefixes (including the default and names a generator picks) and URLs, 1-3 nested levels with a sibling afterwards, any call order; 2^k-1..2^k+1 declarations and levels.",
        "the strict parser resolves every name to the declared namespace; no panic",
        "collisions need two levels that agree on a prefix and disagree on a URL"),
"C04": ("all infosets of bounded size, all spellings with up to 1-2 (3) non-default choices out of: prefixes, where declarations stand, redundant declarations, attribute order, quotes, white space in tags, empty-element tags, character references, CDATA splits, comments/PIs, XML declaration, DOCTYPE; read by five hand-written targets; and every derived type's sample documents respelled one choice at a time.",
        "equality with the value read from the canonical spelling",
        "the number of spellings is exponential"),
"C05": ("all ordered pairs/triples of declared names over look-alike namespaces and local names and tables of up to 100 names, as attributes, elements and alternatives x all probe names (6 namespaces x 7 local names), one at a time, in pairs, all at once; every name one edit from a declared one.",
        "exact comparison of (URL, local name)",
        "the lookup is a binary search over a generated table: errors depend on table size, order and neighbours"),
"C06": ("all ordered trees of up to 5 (6) elements x names same/unique x text placement x every sequence of visitor decisions (read, skip, hand back, read string, start and give up, swallow an inner error, raise, replace, panic and be caught) with up to 2 (3) deviations from 'read everything'; reserved attributes; size ladder, 2^k-1..2^k+1 siblings, attributes, texts and lines.",
        "reference interpreter predicting every callback, in order",
        "desynchronization needs a decision in one place and its effect in another"),
"C07": ("trees of up to 4 elements x 6 declaration patterns per element (none, default, prefix, rebound, undeclared default, exchanged) with or without attributes x deviations, panicking and caught visitors included; at each handle all accessors, and what each read to the end returns.",
        "reference scope computation", "scopes are built from the history of declarations and abandoned elements"),
"C08": ("trees x every raise point x every propagate/swallow/replace reaction; malformed token sequences, failing sources at every byte; derived types' own errors for every document of C13; 8 kinds of failure at a ladder of depths, passed on, swallowed or replaced on the way; depth and breadth ladders, positions on many lines.",
        "reference stack (names and start-tag positions computed from the document text), message, `Display`, `source()`",
        "path and position depend on the whole history of earlier errors and skips"),
"C09": ("all sequences of up to 5 (6) of 22 markup fragments (DOCTYPE included), pieces around a complete root, all byte strings up to 4 (5) over 20 bytes in 7 contexts, references of every kind in 7 places, size ladder; five target types, from reading everything to looking at nothing.",
        "strict parser, reconciled with xml-rs driven to the end of the document (see section 4); no panic, no hang, no overflow",
        "needs every malformation in every place, including those the target ignores"),
"C10": ("13 documents x every byte x {end of file, 14 error kinds, once/persistent, interrupted} x 6 target types and every derived type's sample documents (errors of every kind, fragments); every composition of short documents into reads and periodic ones of long ones; documents of 300 KB with faults on a ladder.",
        "an error (for I/O: the same error as source), resp. the same value", "all crash points and all fragmentations"),
"C11": ("documents x every byte x 12 error kinds, zero-length writes and panics (caught in 4 places) x once/persistent x bytes accepted per call x interruptions x 6 ways of discarding errors x options; every derived type's values with failures at every byte; far faults in documents of 300 KB.",
        "overall result is an error; the bytes taken are a prefix of the correct document; nothing is sent after the failure; short and interrupted writes are invisible",
        "all fault points x all reactions"),
"C12": ("all element trees of up to 4 (5) elements with up to 2 (3) abandoned in 10 ways (builder or writer dropped or forgotten, a panicking `start`, child left open, ...), errors discarded or propagated, the type itself failing or not.",
        "reference latch: success iff everything begun was finished", "abandonment at depth needs programs no test writes"),
"C13": ("222 generated structs (every field kind x text kind x default; pairs and triples; recursive ones) x 0-2 (3) occurrences of every field x contents (at most one bad) x 3 orders; an attribute given twice under two prefixes; lists of up to 65537 items; ladders.",
        "reference reader: value, or the kind of error and the name in it", "cardinality errors depend on which other fields are present"),
"C14": ("every sample document of every generated type x every insertion of one undeclared attribute, element (empty or full of declared names), well-known attribute (`xml:*`, `xsi:*`), text, comment or PI at every point at every depth; ladders.",
        "value unchanged", "needs names declared at another level, in ignored subtrees"),
"C15": ("every interleaving of children and attributes of every generated struct (bounded), written order for every value.",
        "reference reader; order of the written infoset", "permutations are factorial"),
"C16": ("all pairs (and selected triples) of flattened field types (structs, choices, options and lists of them, structs flattening others) beside own fields x all child sequences of bounded length.",
        "reference reader with declaration-order offering", "needs filled/unfilled history of earlier flattened fields"),
"C17": ("212 generated choices (as root, nested, flattened, flattened beside another with an alternative in common) x every sequence of alternatives and foreign children up to length 5.",
        "reference state machine: value or error and its names", "sequences are exponential, errors depend on the first alternative met"),
"C18": ("24 (600) generated types with 1-2 fields, every content combination in both orders, truncation at every byte, an error and a panic at every single step of user code (constructors, parse, visitors, drops excluded).",
        "ledger of uniquely numbered tokens: alive after success = the value's; none alive after failure; no drop of a dead or never constructed one",
        "all fault points; leaks are invisible to results"),
"C19": ("every string of up to 5 (6) characters over 11 (all UTF-8 lengths, XML white space, non-ASCII spaces) x 3 modes, every single character of Unicode in context, long runs on a ladder.",
        "character-by-character specification; output validated as UTF-8", "in-place byte shuffling errs at particular alignments"),
"C20": ("every string up to 5 over 12 characters x 76 derived text types (standard, restriction, union; 3 white-space modes; renames; unknown alternatives), directly, and up to length 3 through documents; printing of all values.",
        "declaration tables", "case/space near misses"),
"C21": ("every string up to 5 over numeric alphabets x 14 scalar types, words with padding, all values of 8/16-bit types and boundary sets of larger ones, in text and attribute position.",
        "independent lexical definitions; values by Rust's own arithmetic on digits", "boundaries of 14 types x spellings"),
"C22": ("all sequences of up to 4 (5) of 20 pieces of character data (text, blanks, CDATA, references, comments, PIs, the CDATA end), a child element at every place; size ladder; derived text fields.",
        "concatenation", "event splitting depends on neighbours"),
"C23": ("all trees of up to 4 elements without mixed content x 4 option settings x 3 destinations; derived values of all families x options; read back.",
        "infoset equality modulo white space between elements; byte equality between destinations and repetitions", "options interact with structure"),
"C24": ("432 naming types (rename/prefix/namespace/default_namespace at type, field and alternative level) x values x root names x spellings.",
        "reference resolver of declared names", "options combine; reading must not check the root name"),
"C25": ("programs: all lists of up to 2 (3) items at type, field, alternative and text-type level (at most one meaningless), over structs, enums and field types; malformed and harmless attributes at every position. 9 groups of items using every feature with each of 109 other definitions in scope (thorough: each two), in functions and constants, made by macros. Each is expanded and compiled by rustc.",
        "validity table: must compile / must be rejected with an error on the offending lines / may be either; never a panic, and a rejection must come from the macros even if the expansion could compile",
        "the option space is combinatorial; the UI tests have a dozen"),
"C26": ("all sequences of up to 4 (5) attribute calls over 6 names with mappings at any point.",
        "reference registry; strict parser", "duplicates hide behind prefixes"),
"C27": ("60 operations (reads and writes of derived and hand-written types which succeed, are refused at each layer, meet failing or panicking sources, destinations, visitors and leaves) and 6 uses of one serializer: all sequences of up to 3 (4); every operation within every callback of every other, twice nested for 14; all pairs on two threads at every callback with up to 2 preemptions (3 for 14), triples; 4097 (70000) repetitions; every pair of 18 documents big in one respect, then every operation.",
        "the same operation alone in a process of its own; errors kept from earlier operations re-rendered",
        "leaked state needs a history; threads are switched by a controlled scheduler at every call out of the library"),
"C28": ("20 models (attributes, elements, text, fields without size / of alignment 64 / with niches, structs and choices flattened to depth 2, recursion, users' fields, visitors, defaults and destructors which fail or panic, users catching either): all sequences of up to 2 (3) children and 2 attributes, whole and cut off, under Miri; up to 4 (5) as machine code under memcheck; every lead and continuation byte through normalization. Thorough also has Tree Borrows and symbolic alignment.",
        "Miri (invalid values, uninitialized memory, bounds, lifetimes, alignment, Stacked/Tree Borrows), memcheck, and UTF-8 validity of normalized strings",
        "undefined behaviour usually gives the right answer; which memory is live depends on the order of children and the point of failure"),
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    i = p["id"]
    what, oracle, why = D[i]
    out.append(f"**{i} — {p['title']}** (harness `{'`, `'.join(BINS[i])}`). *Explored:* {what} *Oracle:* {oracle}. *Beyond tests:* {why}.\n")
f = json.load(open(os.path.join(V, "known_findings.json")))["findings"]
fnd = ["| id | property | commit | what failed |", "|---|---|---|---|"]
for k in f:
    fnd.append(f"| {k['key']} | {k['property']} | {k.get('commit','')} | {k['what'].split(k.get('commit','~'), 1)[-1].strip()} |")
cpath = os.path.join(V, "tools", "caught.json")
caught = json.load(open(cpath)) if os.path.exists(cpath) else {}
bugs = ["| change | property | needs | what it breaks | caught by quick check |", "|---|---|---|---|---|"]
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    bugs.append(f"| {b} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(b, '?')} |")
t = open(os.path.join(V, "tools", "DESIGN.tmpl.md")).read()
t = t.replace("@@PROPS@@", "\n".join(out)).replace("@@FINDINGS@@", "\n".join(fnd)).replace("@@BUGS@@", "\n".join(bugs))
open(os.path.join(V, "DESIGN.md"), "w").write(t)

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the anchors stay readable)."""
import json, sys, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": state, "meaning": state, "where": mech[0][1]}]
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
LIB="static-xml/src/lib.rs"; DE="static-xml/src/de/mod.rs"; SER="static-xml/src/ser/mod.rs"
DC="static-xml-derive/src/common.rs"; DD="static-xml-derive/src/deserialize.rs"; DS="static-xml-derive/src/serialize.rs"
DP="static-xml-derive/src/parse.rs"; DT="static-xml-derive/src/to_text.rs"; DL="static-xml-derive/src/lib.rs"

prop("C01","Derived types round-trip through XML",
 "For every type whose serialization and deserialization are both derived, serializing a value and reading the resulting document back yields an equal value. This holds whatever legal XML characters its strings contain (white space only, markup characters, line ends, the empty string), however many items its lists hold, and whichever optional, defaulted, flattened, renamed or namespaced fields and choice alternatives it uses. (Types in which two fields of one element claim the same name, or its text, are ambiguous and excluded, as is a choice alternative holding no item, which writes nothing to choose by.)",
 ["inputs","programs"],"every derived struct/enum shape and every value of it",
 "The value space and the space of derivable shapes are both unbounded; a test shows one shape with one value, and the failures live in combinations (white-space-only text next to a comment, a default namespace under a prefixed parent, a second flattened choice).",
 [DD,DS,DE,SER],[("derived Serialize",f"{DS} do_struct/do_enum"),("derived Deserialize",f"{DD} do_struct/do_enum"),("text events","static-xml/src/de/mod.rs Reader::next"),("character escaping","static-xml/src/ser/mod.rs ElementWriter::text / ElementBuilder::start")],
 observe="static_xml::ser::serialize(&v).to_string() then static_xml::de::read")
prop("C02","Successful output is well-formed and says exactly what the value says",
 "Whenever serialization reports success, the bytes written are a single well-formed, namespace-well-formed UTF-8 XML document in which a conforming parser sees exactly the elements, attributes and character data the value supplied, in the supplied order and nesting. No string value (markup characters, quotes, tabs, line ends, the CDATA end marker) can change the structure or be altered; a string that XML cannot represent makes serialization fail instead.",
 ["inputs","programs"],"every value tree and every string placed in text, attribute values or namespace URLs",
 "Injection and normalization bugs need particular characters in particular positions; tests use a handful of plain strings and compare with the same library's reader, which shares its blind spots.",
 [SER],[("element start tags",f"{SER} ElementBuilder::start"),("text nodes",f"{SER} ElementWriter::text"),("document driver",f"{SER} Serializer::to")],
 observe="bytes produced by Serializer::to / to_string, parsed by an independent strict parser")
prop("C03","Serialized names keep their namespaces however prefixes collide",
 "For every nesting of elements in which each level maps any prefixes (including the default one) to any namespace URLs and every element and attribute uses a namespace mapped at or above it, or none, the serialized names resolve to exactly those namespaces. This includes prefixes that are reused, rebound and restored by descendants, prefixes equal to generated ones, attributes whose namespace only has a default mapping, and un-namespaced elements below a default namespace; serialization never panics on them.",
 ["programs","histories"],"every sequence of namespace mapping, attribute and child-element calls at every level of nesting",
 "Collisions need three or more levels and particular orders of declaration; the repository's tests cover two hand-picked collisions one level deep.",
 [SER],[("prefix assignment",f"{SER} NamespacesBuilder::finalize"),("inheritance of mappings",f"{SER} Namespaces::child"),("name resolution",f"{SER} Namespaces::resolve_element / resolve_attribute")],
 state="prefix-to-URL mappings in scope at each open element", observe="expanded names seen by a strict namespace-aware parser")
prop("C04","Reading depends on the infoset, not on how the document is spelled",
 "Two documents with the same elements, attributes and character data are read to the same value (or both rejected), regardless of namespace prefix choice, where namespaces are declared or re-declared, attribute order, quote style, white space inside tags, empty-element tags versus start/end pairs, character references or CDATA versus literal characters, and interleaved comments or processing instructions.",
 ["inputs"],"every respelling of every document",
 "The spellings of one document multiply; a test fixes one spelling.",
 [DE,LIB,DD],[("event translation",f"{DE} Reader::next"),("expanded names",f"{LIB} ExpandedNameRef::from_xml_name"),("field lookup",f"{DE} find"),("string content",f"{DE} ElementReader::read_string")],
 observe="value returned by static_xml::de::read")
prop("C05","A field is matched exactly by its namespace URL and local name",
 "A derived field or alternative receives an input element or attribute if and only if both the namespace URL and the local name equal the declared ones; near misses (same local name in another or no namespace, different case, a proper prefix or extension of the name, element versus attribute of the same name) never match. This holds for any number of declared names in any declaration order and any mixture of namespaces, including the built-in xml namespace.",
 ["programs","inputs"],"every set of declared names, every declaration order, every probed name",
 "Lookup is a binary search over a table sorted at compile time: an ordering mistake only shows for particular sets of names and particular probes.",
 [DE,DC,DD,LIB],[("binary search",f"{DE} find"),("table ordering",f"{DC} ElementStruct::new / ElementEnum::new"),("order of expanded names",f"{LIB} ExpandedNameRef")],
 observe="which fields of the read value are filled")
prop("C06","Visitors see every event exactly once and never get out of sync",
 "While an element is read into a visitor, the visitor receives exactly that element's own attributes, direct child elements and direct character data, each once and in document order, and reading ends at exactly that element's end. What the visitor does with a child — read it fully, read its string, ignore it, hand it back, start reading it and give up, or swallow an error raised inside it — never causes any later event to be lost, duplicated or attributed to another element, at any depth.",
 ["histories","inputs"],"every document and every sequence of visitor decisions",
 "Each callback is a decision point, so behaviours are sequences of decisions over tree-shaped inputs; tests drive only the derived visitors on flat documents.",
 [DE],[("element loop",f"{DE} ElementReader::read_to"),("string reader",f"{DE} ElementReader::read_string"),("resynchronisation",f"{DE} Reader::return_to_depth"),("document end",f"{DE} Reader::end")],
 state="reader depth and element stack", observe="sequence of ElementVisitor callbacks")
prop("C07","An element handle reports its own name, scope and depth",
 "The handle passed for each element reports that element's qualified and expanded name, its depth (the root is 1) and the complete set of namespace mappings in scope there: its own declarations plus every ancestor's that is not overridden. Reading it to its end returns that same name and scope and the position of its end tag. This holds wherever the element occurs, whatever was read, skipped or abandoned before it.",
 ["inputs","histories"],"every document with declarations, overrides and undeclarations at any level",
 "Scope leakage between siblings and stale stack entries appear only after particular sequences of nested reads.",
 [DE,LIB],[("handle accessors",f"{DE} ElementReader::name/namespace/expanded_name/depth"),("stack maintenance",f"{DE} Reader::next / return_to_depth")],
 observe="ElementReader accessors inside Deserialize::deserialize and ElementVisitor::element")
prop("C08","Every read error names the exact element path and position",
 "Whenever reading fails — malformed XML, a failing source, a bad value, a missing or duplicated field, or an error returned by user code — the error's stack lists exactly the elements enclosing the failure, root first, each with its qualified name and the position of its start tag. Its displayed form starts with the original message and the failure's line and column, followed by that stack innermost first, and the original error stays reachable as the source.",
 ["inputs","histories","fault_sequences"],"every failing document and every point at which user code raises an error",
 "The stack is maintained lazily across callbacks; whether it is right depends on where in the nesting, and after what skipping, the failure happens.",
 [DE],[("error construction",f"{DE} Error / VisitorError::wrap"),("stack maintenance",f"{DE} Reader::next / return_to_depth"),("display",f"{DE} Display for Error")],
 observe="Error::stack, Display and source() of the error returned by read")
prop("C09","Reading succeeds only if the whole document is well-formed, and never panics",
 "Reading returns (it never panics, hangs or overflows) for every byte sequence, and succeeds only if the entire input is one well-formed document with a single root, including the parts the target type ignores or never looks at and everything after the root element. Conversely a well-formed document whose content suits the type is accepted.",
 ["inputs"],"every byte sequence, for every kind of target type",
 "Malformedness hidden in ignored content or after the root is exactly what tests with valid documents do not contain.",
 [DE],[("document start",f"{DE} Reader::root"),("document end",f"{DE} Reader::end"),("skipping",f"{DE} Reader::return_to_depth")],
 observe="Result of static_xml::de::read / from_str")
prop("C10","Truncated, failing and fragmented sources are handled at every byte",
 "If the source ends early at any byte, or returns an I/O error at any byte, up to and including the end of file check, reading fails (for an I/O error, with that same error as the source) and never returns a value built from part of the document. How the source splits the same bytes into reads, or how often it is interrupted, has no effect on the result.",
 ["fault_sequences","crash_points","inputs"],"every cut point, fault point and chunking of every document",
 "The fault point ranges over every byte of every document.",
 [DE],[("event loop",f"{DE} Reader::next"),("document end",f"{DE} Reader::end"),("error wrapping",f"{DE} Error::xml")],
 observe="Result of static_xml::de::read over a fault-injecting Read")
prop("C11","A failed write is always reported and nothing is written after it",
 "If the destination fails at any write, serialization as a whole returns an error, even when the serialized type's own code discards the error it was given (or catches the panic, if the destination panicked). No further bytes are sent to the destination after the failure, what was sent before is a prefix of the correct document, and short or interrupted writes change nothing.",
 ["fault_sequences"],"every write call of every document, with every reaction of user code to the error",
 "The fault point and the user's reaction both vary; tests only write to memory.",
 [SER],[("error latch",f"{SER} WrappedWriter::write"),("driver",f"{SER} Serializer::to")],
 state="latched error of the writer", observe="Result and bytes of Serializer::to over a fault-injecting Write")
prop("C12","Incomplete elements make serialization fail",
 "Serialization succeeds only if every element begun by any (possibly hand-written) serializer was started and finished. If any element, at any depth or position, is abandoned before being started or finished (dropped, forgotten or lost in a panic which is caught), or any write fails, the overall result is an error even when every intermediate result is discarded and later calls are made; and a serializer that completes everything it begins is never refused.",
 ["histories","programs"],"every sequence of begin, attribute, start, text, finish and abandon calls at every depth",
 "Abandonment can happen at any point of a nested call sequence and be followed by further calls; tests cover two single-step cases.",
 [SER],[("abandoned builder",f"{SER} Drop for ElementBuilder"),("abandoned writer",f"{SER} Drop for ElementWriter"),("error latch",f"{SER} WrappedWriter")],
 state="latched error of the writer", observe="Result of Serializer::to_string")
prop("C13","Required, optional, repeated and defaulted fields honour their cardinality",
 "For derived structs, a plain field requires exactly one occurrence: none is an error naming the missing element or attribute unless the field is defaulted (then its default is used), and two is an error naming the duplicate. An optional field is absent for none, present for one and an error for two, a repeated field collects all occurrences in order, and a single occurrence is always used rather than the default, in every combination of fields and occurrences.",
 ["programs","inputs"],"every struct shape and every multiset of occurrences of its fields",
 "Occurrence patterns multiply with field kinds and positions; tests use documents with each field exactly once.",
 [DE,DD],[("element fields",f"{DE} DeserializeElementField impls"),("attribute fields",f"{DE} DeserializeAttrField impls"),("presence tracking",f"{DD} element_match_branches / finalize_visitor_fields")],
 observe="value or error of static_xml::de::read")
prop("C14","Content a type does not declare is ignored without side effects",
 "Adding attributes, elements (with any subtree, at any depth, including names the type declares at another level), text or comments that a derived struct does not declare, anywhere among its children or inside an ignored subtree, leaves the value read unchanged. An ignored child is skipped as a whole: nothing inside it is mistaken for the parent's own content.",
 ["inputs","programs"],"every insertion of undeclared content into every document of every derived struct",
 "Insertion points and subtrees are unbounded; the dangerous ones reuse declared names inside ignored subtrees or sit next to flattened fields.",
 [DE,DD],[("fall-through",f"{DD} do_struct element/attribute fallthrough"),("skipping",f"{DE} Reader::return_to_depth"),("delegation",f"{DE} delegate_element / delegate_attribute / delegate_characters")],
 observe="value returned by static_xml::de::read")
prop("C15","The order of fields in the input does not matter; the order of list items does",
 "Any permutation of the attributes and of the differently named child elements of a derived struct reads to the same value, with repeated elements kept in document order even when interleaved with others. Serialization writes fields in declaration order (own fields before flattened ones) and list items in list order.",
 ["inputs","programs"],"every permutation and interleaving of a struct's children",
 "The number of interleavings grows factorially.",
 [DD,DS,DE],[("repeated fields",f"{DE} DeserializeElementField for Vec"),("serialization order",f"{DS} write_struct_elements / write_struct_attributes")],
 observe="value read, and order of names in the output")
prop("C16","Flattened fields are offered unknown content in declaration order",
 "Elements a struct does not declare itself are offered to its flattened fields in declaration order, and the first that recognises one takes it; the struct's own fields always win, a flattened field that does not recognise an element leaves it for the next ones whether or not it has already been filled, and content nobody recognises is ignored. Serializing writes each flattened field's content inside the containing element.",
 ["programs","inputs"],"every combination of own and flattened fields and every order of input elements",
 "Which field receives an element depends on what was received before; tests contain a single flattened field.",
 [DE,DD],[("delegation",f"{DE} delegate_element"),("choice visitor",f"{DD} do_enum"),("own fields first",f"{DD} do_struct")],
 observe="value returned by static_xml::de::read")
prop("C17","A derived choice holds exactly one kind of alternative",
 "Reading a derived choice yields the alternative named by its child element: unit, single-valued, optional or repeated; a list alternative collects all its occurrences, while two different alternatives, a repeated single-valued alternative or no alternative at all are errors naming the elements or type involved (a unit alternative given again may be an error or be as good as once). Alternatives marked as skipped are ignored on input and refused on output, and unrecognised elements are ignored before, between and after.",
 ["inputs","programs"],"every sequence of alternative and foreign elements, for every choice shape",
 "The verdict depends on the whole sequence of children seen so far.",
 [DD,DS,DC],[("choice visitor",f"{DD} do_enum"),("choice serializer",f"{DS} do_enum"),("variant table",f"{DC} ElementEnum::new")],
 state="whether the choice is filled and with which alternative", observe="value or error of read; result of serialize")
prop("C18","Deserialization neither leaks nor double-drops, however it ends",
 "Every value constructed while reading a derived type is dropped exactly once, by the caller if reading succeeds and by the reader otherwise. This holds for every outcome (success, missing or duplicate field, bad text, malformed input at any point, an error or panic raised by a field's own code) and every field kind (attribute, element, optional, repeated, defaulted, flattened, nested, choice).",
 ["fault_sequences","inputs","programs"],"every shape and every point at which reading can fail or unwind",
 "Fields are initialised one by one in uninitialised memory; each failure point leaves a different subset initialised.",
 [DD,DE],[("field-by-field initialisation",f"{DD} element_match_branches / attribute_match_branches"),("finalisation",f"{DD} finalize_visitor_fields"),("conversion to a value",f"{DE} impl_deserialize_via_raw")],
 state="set of initialised fields", observe="construction and drop counters of field types; Miri")
prop("C19","White-space normalization equals its specification on every string",
 "Preserve returns the string unchanged; replace turns each tab, line feed and carriage return into one space; collapse additionally merges runs of those white-space characters into one space and removes them at both ends. Nothing else changes: every other character, including multi-byte ones and non-ASCII spaces, is kept byte for byte in order, and the result is always valid UTF-8.",
 ["inputs"],"every string",
 "The in-place implementation with unsafe code has index cases (run at start, end, back to back, around multi-byte characters) that only exhaustive short strings cover.",
 [DE],[("in-place normalization",f"{DE} normalize")], observe="static_xml::de::normalize")
prop("C20","Derived text types parse and print by their declared mode",
 "After the declared white-space normalization, a standard-mode type parses by its own string conversion, a restriction type accepts exactly its listed strings (renamed or by variant name, case-sensitive) and otherwise its unknown alternative holding the normalized text, or an error; a union yields the first alternative in declaration order that accepts, failing with all messages only if none does. Printing is the inverse: the listed string, the kept text, or the alternative's own text.",
 ["inputs","programs"],"every text input for every derived text type, as element content and as attribute value",
 "Which alternative wins depends on the interplay of normalization, order and overlap of alternatives across the string space.",
 [DP,DT,DC],[("parsers",f"{DP} do_std/do_restriction/do_union"),("printers",f"{DT} do_std/do_restriction/do_union"),("attribute parsing",f"{DC} TextEnum/TextAttr")],
 observe="ParseText::parse, ToText::to_text, read and serialize")
prop("C21","Built-in scalars accept exactly their lexical space and round-trip",
 "For booleans, every integer width, floats and strings, as element content or attribute value: the accepted texts are exactly the type's own spellings (true, false, 1, 0 for booleans; Rust's number syntax) surrounded by any XML white space, with the value they denote and errors on everything else including out-of-range numbers; strings keep the text untouched. Printing any value and parsing it back gives the same value.",
 ["inputs"],"every value of every built-in scalar type and every short text",
 "Boundary values and near-miss spellings are numerous; tests touch one boolean.",
 [DE,SER],[("boolean and number parsing",f"{DE} impl ParseText for bool / text_for_num"),("printing",f"{SER} text_from_display"),("attribute fields",f"{DE} DeserializeAttrField impls")],
 observe="read and serialize of scalar fields")
prop("C22","Text content is the exact concatenation of the element's character data",
 "The text of an element read as a string is the concatenation, in order, of all its character data: plain text, white space (even if that is all there is), CDATA sections and resolved character or entity references, with comments and processing instructions contributing nothing wherever they occur. No piece is lost, duplicated, trimmed or reordered, and a child element inside text-only content is an error rather than silently dropped text.",
 ["inputs"],"every sequence of text, white space, CDATA, references, comments and processing instructions",
 "How the parser splits text into events depends on the exact sequence of pieces.",
 [DE],[("event translation",f"{DE} Reader::next"),("string reader",f"{DE} ElementReader::read_string")], observe="read::<_, String> and ElementVisitor::characters")
prop("C23","Indentation and declaration options do not change the data",
 "For every value without mixed content, turning indentation or the XML declaration on or off changes only white space between elements, respectively the presence of one leading declaration: a parser sees the same elements, attributes and text, and reading gives the same value. The same call on the same value always produces the same bytes, whether to a string or to any destination.",
 ["configurations","inputs"],"every option combination for every value",
 "Options interact with empty elements, empty lists, text-only elements and nesting.",
 [SER],[("options",f"{SER} Serializer"),("driver",f"{SER} Serializer::to / to_string")], observe="bytes of Serializer::to and to_string")
prop("C24","Naming attributes of the derive macros mean what the manual says",
 "The root element written for a derived type carries the type's name or its rename and prefix, each field or alternative the field's name or its rename and prefix, resolved through the type's own namespace and default-namespace mappings; fields without a prefix are in no namespace and unprefixed attributes never are in a namespace unless prefixed. Reading does not check the root's name, and the names used for reading are those used for writing.",
 ["programs"],"every combination of rename, prefix, namespace, default namespace, attribute and flatten on types, fields and alternatives",
 "The combinations of naming attributes multiply; tests use two.",
 [DC,DS,DD],[("attribute parsing",f"{DC} ElementAttr / ElementField / ElementEnum"),("prefix resolution",f"{DC} Namespaces::process_prefix"),("root name",f"{DS} impl_root")], observe="names in the serialized document and names accepted by read")
prop("C25","The derive macros reject meaningless input with an error at its location",
 "Every combination of the documented attributes is either accepted and compiles, or is rejected with a compile error that points into the offending type: unknown or malformed options, unknown prefixes, conflicting field modes, unsupported shapes, missing or unknown text modes. The macros never panic and never silently accept an unrecognised option. What is accepted compiles whatever other names are in scope and however the item came about (written out, in a function, made by another macro).",
 ["programs"],"every small program over the derive attributes, legal and illegal",
 "The space of attribute combinations is a product; the repository checks one failing program.",
 [DC,DL,DD,DS,DP,DT],[("error collection",f"{DC} Errors"),("attribute parsing",f"{DC} get_meta_items and users"),("entry points",f"{DL} derive")], observe="rustc diagnostics for generated programs")
prop("C26","Attributes are written once each, and a duplicate is refused",
 "When a serializer supplies several attributes, each appears exactly once on the element in the order supplied, whatever their namespaces. Supplying the same namespace and local name twice is refused with an error naming the attribute at the second attempt, while equal local names in different namespaces are both kept; attributes and namespace mappings may be supplied in any order.",
 ["histories","programs"],"every sequence of attribute and namespace calls on one element",
 "Uniqueness is by expanded name but written by prefix, so violations need particular combinations of prefixes and call order.",
 [SER],[("attribute registry",f"{SER} ElementBuilder::attribute"),("prefix for attributes",f"{SER} NamespacesBuilder::attribute / resolve_attribute")], observe="Result of ElementBuilder::attribute and attributes in the output")
prop("C27","Documents are read and written independently of each other",
 "What reading or writing one document gives (the value, the bytes, the error with its message, element stack, position and source, and every call made to user code) is what it gives in a fresh process, whatever documents were read or written before it and however those ended: successfully, refused, with an I/O error, abandoned half-way, or by a panic in user code. The same holds when it happens within a callback of another read or write, when a serializer is used again, and when other threads read and write at the same time; values and errors once returned do not change.",
 ["histories","schedules"],"every history of earlier reads and writes, every nesting and every interleaving with other threads",
 "State leaking from one use into the next (a buffer, a counter, a cache, a latch) shows only after particular earlier uses; each test is one use from a clean start.",
 [DE,SER,LIB,DD,DS],[("reader",f"{DE} Reader / read"),("serializer",f"{SER} Serializer::to / to_string"),("normalization",f"{LIB} normalize"),("lookup",f"{DE} find")],
 state="anything outliving one read or write", observe="results of de::read, Serializer::to and to_string, normalize, and errors kept from earlier uses")
prop("C28","Safe programs stay free of undefined behaviour",
 "A program without unsafe code of its own, whatever types it derives Deserialize for (flattened to any depth, recursive, with fields of no size, of wide alignment or with invalid bit patterns), whatever its visitors, fields, parsing, defaults and destructors do (including panics that it catches) and whatever the documents contain, causes no undefined behaviour: no access outside of or after the life of an allocation, no use of uninitialized memory, no invalid value, no misaligned or aliasing-violating access, and no string which is not UTF-8.",
 ["inputs","programs","fault points"],"every document and every failure of user code at every point",
 "The derived code fills uninitialized memory through raw pointers; most violations change no result a test can see.",
 [DD,DE],[("field pointers and flags",f"{DD} ElementField / do_struct"),("enum visitor",f"{DD} do_enum"),("uninitialized output",f"{DE} Deserialize for types with raw visitors"),("unchecked UTF-8",f"{DE} normalize")],
 state="which fields of the output are initialized", observe="the verdict of Miri and of memcheck on each step")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out,"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")

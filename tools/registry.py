"""Which harness crates decide which property."""
BINS = {
    "C01": ["dv_card", "dv_flat", "dv_choice", "dv_name"],
    "C02": ["wr"],
    "C03": ["wr"],
    "C04": ["rd", "dv_card", "dv_flat", "dv_choice"],
    "C05": ["dv_name"],
    "C06": ["rd"],
    "C07": ["rd"],
    "C08": ["rd", "dv_card"],
    "C09": ["rd"],
    "C10": ["rd", "dv_card", "dv_flat", "dv_choice"],
    "C11": ["wr", "dv_card", "dv_flat", "dv_choice"],
    "C12": ["wr"],
    "C13": ["dv_card", "dv_flat", "dv_name"],
    "C14": ["dv_card", "dv_flat", "dv_choice"],
    "C15": ["dv_card", "dv_flat"],
    "C16": ["dv_flat"],
    "C17": ["dv_choice"],
    "C18": ["mem"],
    "C19": ["tx"],
    "C20": ["tx"],
    "C21": ["tx"],
    "C22": ["rd", "dv_card"],
    "C23": ["wr", "dv_card", "dv_flat", "dv_choice"],
    "C24": ["dv_name", "dv_choice", "dv_flat"],
    "C25": ["pg.py"],
    "C26": ["wr"],
    "C27": ["ind"],
    "C28": ["ub.py"],
}
ASSUMPTIONS = {
    "*": [
        "Bounds are those stated per model under coverage.models[].bounds.",
        "xml-rs 0.8.4 (the pinned parser/emitter dependency) is taken as given.",
        "The reference models and the strict XML parser in /verif/harness are trusted.",
    ],
}
STATELESS = "Exhaustive within the stated bounds: every resolution of every choice is executed on the real code and compared with an independent reference. Nothing is claimed beyond the bounds; trusts the reference model and xml-rs."
M = "stateless model checking of the real code (exhaustive choice-tree exploration): "
_T = {
    "C01": "all generated derived types x all values of bounded size, written, parsed by an independent parser and read back",
    "C02": "all bounded value trees x all strings over an adversarial alphabet, output parsed by an independent strict parser",
    "C03": "all namespace/attribute/element call sequences over colliding prefixes and URLs, output resolved by an independent parser",
    "C04": "all respellings of bounded documents vs their canonical spelling",
    "C05": "all small sets of declared names x all probed names, plus large tables, vs exact matching",
    "C06": "all document shapes x all visitor decision sequences vs a reference interpreter",
    "C07": "all document shapes x namespace declarations x visitor decisions; every handle accessor vs a reference",
    "C08": "all documents x all error-raising decisions; stack, position, Display, source vs a reference",
    "C09": "all token sequences of bounded length x target types vs an independent well-formedness oracle",
    "C10": "all cut points, fault points and chunkings of a document set",
    "C11": "all fault points x short/interrupted writes x reactions of user code",
    "C12": "all serializer call sequences of bounded length, complete or abandoned at any point, vs a reference latch",
    "C13": "all generated struct shapes x all occurrence counts and contents vs a reference reader",
    "C14": "all insertions of undeclared content at every point of every document of every generated type",
    "C15": "all interleavings of children and attributes of every generated struct vs a reference reader; output order vs a reference writer",
    "C16": "all generated combinations of flattened fields x all child sequences of bounded length vs a reference reader",
    "C17": "all generated choices x all child sequences of bounded length vs a reference state machine",
    "C18": "all fault points (error or panic at every operation, truncation at every byte) for every shape, with drop accounting",
    "C19": "all strings up to a length over an alphabet covering every byte class vs the specification",
    "C20": "all strings up to a length x all generated text types, direct and through documents, vs declaration tables",
    "C21": "all values of small types, boundary sets of large ones, all short texts, vs the lexical specification",
    "C22": "all sequences of text pieces up to a length vs their concatenation",
    "C23": "all value trees x all option combinations, bytes compared structurally",
    "C24": "all combinations of naming attributes on generated types vs a reference resolver",
    "C25": "all bounded combinations of derive attributes, expanded and compiled, vs a validity oracle",
    "C26": "all attribute/namespace call sequences of bounded length vs a reference registry",
    "C27": "all bounded sequences, nestings and bounded-preemption thread schedules of a menu of operations vs each operation alone in a fresh process",
    "C28": "all documents of bounded size for 20 models of derived and user-written readers, each step judged by Miri and memcheck",
}
NOTES = {k: (M + v, STATELESS) for k, v in _T.items()}

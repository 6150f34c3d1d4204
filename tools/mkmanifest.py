#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import json, os
V = "/verif"
AI = "abstract interpretation of type-checked MIR (fixpoint, no solver, no execution)"
CLAIM = {
 "C01": (AI, "All paths of every peek/prediction over a symbolic stream; any buffer contents, any failing read. User-written Tokenizer/Parse implementations are opaque and assumed to honour their traits."),
 "C02": (AI, "All paths of every TokenBuffer/TokenStream method, unknown buffer contents; the number of tokens returned by peek_n is decided for n<4 on buffers of <4 tokens, everything else for all n."),
 "C03": (AI + ", product with grammar automata", "All 40 Parse::parse implementations over opaque sub-parsers; loops to a fixpoint, so any number of elements."),
 "C04": (AI + ", product with decision automata", "All 40 Parse::maybe implementations over opaque sub-parsers."),
 "C05": (AI + ", error typestate", "Every combinator over opaque callees that may fail at any call."),
 "C07": (AI, "Every public span/location operation for all locations, characters and bytes; lines and columns beyond u32 are excluded."),
 "C09": (AI, "Both readers, every InputStream method and constructor, over an unknown byte source, any buffered characters and bytes."),
 "C10": (AI, "Both readers, every reading operation, over an unknown byte source that may fail, end, or deliver any number of bytes per read; what is valid UTF-8 is left to std (any run of bytes may be valid, incomplete or invalid at any point)."),
 "C11": (AI, "Every provided InputStream helper over an opaque stream, any number of characters, any failing read."),
 "C12": (AI + ", product with a reference transducer", "The literal functions over an unknown text of any length, loops to a fixpoint."),
 "C13": (AI + ", product with a reference transducer", "The literal functions over an unknown text of any length and every IntLiteral implementation; the standard from_str_radix is an uninterpreted function of text and radix."),
 "C26": (AI, "Every identity-related impl of Token, over opaque kinds and unknown spans."),
 "C15": (AI + ", product with an independently built reference automaton", "The generated next_token of 13 declarations of every form over an unknown input whose reads may fail or end anywhere; other declarations are not covered."),
 "C16": (AI + ", product with an independently built reference automaton", "Each catalogue declaration is decided for all texts (about 70 declarations quick, 220 thorough); subset construction and minimisation are also decided over every transition function on a few named sets of states. Not decided for every declaration there could be."),
 "C17": (AI + ", product with an independently built reference automaton, compared between modes", "Subset construction, minimisation and rebuilding in each mode over every transition function on a few named sets of states; rayon's indexed adaptors are modelled as order-preserving maps; and catalogue declarations generated in each mode, one wide enough for the automatic choice to go parallel."),
 "C20": (AI, "SymbolOp::prev/next for every supported symbol type, for all values; the neighbours are compared as exact functions over the whole domain."),
 "C22": (AI + ", lock and counter typestate", "Every place a state identifier is drawn or a graph is assembled; any number of threads (the counter moves arbitrarily whenever no lock is held)."),
 "C21": (AI + ", product with textbook constructions over free letters", "NFA::new over every HIR variant, operands arbitrary automata (invariants shown inductively), up to 3 (thorough 4) operands per concatenation/alternation; tags only in the last operand of a concatenation."),
 "C23": (AI, "Every matcher entry point over an opaque table and unknown symbols, any number of them; the table's lookup over unknown entries for every state number and symbol on a few class layouts of up to three states."),
 "C06": (AI, "Every Spanned/TrySpan implementation of laps over opaque parts; derived ones for about 60 declarations of every placement of optional fields, not for every declaration there could be."),
 "C14": (AI + ", product with automata read off the declarations", "derive(Parse) output for 40 declarations of every shape over opaque field types; not for every declaration there could be."),
 "C18": (AI, "token_ast! output for arms of every form over an unknown next token; not for every arm there could be. Guards and patterns are checked against hand-written tests."),
 "C19": (AI, "token_kind output for enums of every form over unknown payloads; not for every enum there could be. The values' own Display is opaque."),
 "C28": (AI + ", every arithmetic check, slice and field width taken as an obligation", "Every logging operation with and without the logger feature, any span with lines of at least 1, any file. 64-bit sums of counts are assumed to fit; a failing standard error stream is left to std."),
 "C24": ("compile-fail witnesses, each with a well-formed twin that differs in just the offence, type-checked by the compiler; abstract interpretation of the lowering of regexes", "About 210 pairs of declarations, not every ill-formed declaration there could be; lowering of every form of regex, with arbitrary operands."),
 "C25": ("type-level witnesses: laps and a battery of user programs type-checked by the compiler in every feature combination", "Four feature combinations; about 370 programs defining clashing names, in editions 2018, 2021 and 2024. Items named std or laps, constants in lower case, methods added to all types, and token_ast! within functions are outside."),
 "C27": ("the compiler's trait solver asked about every public type, for all type parameters at once", "Every publicly reachable struct and enum of laps and laps_regex with and without the logger, and types generated by token_ast!. Iterators and other std types handed out are not asked about separately."),
 "C29": (AI + ", every unsafe operation in the type-checked program taken as an obligation", "Every unsafe block of the three crates. Operations without a model (raw pointers, unsafe impls, set_len) are reported as undecided."),
 "C30": (AI + ", languages compared over free letters", "Every form of expression with up to 4 operands (3 for simplification, each of 15 shapes), repetition counts up to 3..6; operands are free letters. The division of symbol classes is judged on the generated automata (C16)."),
 "C31": (AI + ", printed text matched as it is printed", "Any span whose lines are at least 1, any message and counts. The file's lines are judged by their numbers, their contents are opaque; derived lexers and token ASTs are those of the witnesses. Alignment of the underline is not judged."),
 "C32": (AI, "Sequences, inputs and strings of any length with opaque contents; `from_path` with an opening that succeeds or fails. Iterators are judged by what they hold when made, one that is not of the standard library by running it."),
 "C08": (AI, "Every logging operation with and without the logger feature; printing and file APIs are arbitrary."),
}
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read()) if os.path.exists(os.path.join(V, "tools", "claims.py")) else None
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in CLAIM:
        t, n = CLAIM[p]
        c = {"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
             "technique": t, "level": "other", "level_note": n, "evidence_file": f"evidence/{p}.json"}
        checks.append(c)
    elif p not in NA:
        NA[p] = "check not built yet"
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(NA), "not applicable")

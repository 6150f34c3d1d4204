#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that edits stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Peeking and predicting never consume tokens, on success or on error",
 "After any peek, multi-token peek, lookahead or `maybe` prediction returns - with a value or with an error - the token stream delivers exactly the tokens, in exactly the order, that it would have delivered had the call not been made (a token that the tokenizer failed to produce excepted). This holds for the default stream methods, for the buffered stream, for the lookahead helper however it is abandoned, and for the prediction of every predefined AST type.",
 ["inputs", "fault_sequences", "histories"], "all token sequences, any previously buffered tokens, any number of requested tokens, a failure at any tokenizer call, every exit path",
 "The unit tests only peek successfully on a handful of fixed strings; no test makes the tokenizer fail in the middle of a multi-token peek, and no test looks at what is left in the stream after a failing prediction.",
 ["src/token.rs", "src/ast.rs", "src/parse.rs"],
 [("default peek/peek2/peek_n", "src/token.rs TokenStream"), ("buffered peek/peek2/peek_n", "src/token.rs TokenBuffer"), ("Lookahead and its Drop", "src/token.rs Lookahead"), ("maybe of prefix types", "src/ast.rs OptTokenPrefix, TokenPrefix")],
 [("token_buf", "tokens read from the tokenizer but not yet delivered, front first")])

prop("C02", "Token streams deliver every token exactly once, in order",
 "The buffered token stream hands out unread tokens last-in-first-out and otherwise exactly the tokenizer's tokens in order, never losing, duplicating or reordering one; its peeks return exactly the next tokens. Expecting a token consumes it if it matches and otherwise reports an error at that token's place and leaves it in the stream; skipping or collecting until a predicate consumes (and returns, in order) exactly the tokens before the first one satisfying the predicate.",
 ["inputs", "histories", "fault_sequences"], "all tokenizers, all interleavings of next/unread/peek, all predicates and expected tokens",
 "Tests drive one or two fixed interleavings; the property quantifies over all buffer contents and all interleavings.",
 ["src/token.rs"], [("TokenBuffer", "src/token.rs TokenBuffer"), ("expect/skip_until/collect_until", "src/token.rs TokenStream")],
 [("token_buf", "pending tokens, front is next")])

prop("C03", "Predefined AST types parse exactly their documented grammar",
 "Parsing a predefined AST type (boxes, options, vectors, tuples, the sequence, separated sequence, separated list, quoted and prefix types) performs exactly the sub-parses of its documented grammar, in order, deciding each optional part only by the documented prediction of that part. Every parsed element (and, for list types, every separator) ends up in the returned value exactly once and in source order.",
 ["inputs", "programs"], "all element, separator and prefix types and all token streams; any number of elements",
 "Tests parse a few short inputs with one element type; the guarantee is for every instantiation and every length.",
 ["src/parse.rs", "src/ast.rs"], [("Parse::parse impls", "src/ast.rs, src/parse.rs")])

prop("C04", "Prediction of predefined AST types answers as documented",
 "For every predefined AST type, predicting whether the type can start at the current token answers true unconditionally if the type may be empty, and otherwise answers exactly what its documented first part(s) answer: the first element for non-empty types and tuples, prefix or body for an optional prefix, and for single-token prefixes the body's answer one token further when the prefix is present. A lookahead chain answers true exactly when each of its parts predicts true at its own upcoming token, one token further per step, and hands out exactly the upcoming tokens.",
 ["inputs", "programs"], "all element/prefix types and all token streams",
 "Only a few instantiations are tested, and most tests never exercise a negative or erroneous prediction.",
 ["src/parse.rs", "src/ast.rs", "src/token.rs"], [("Parse::maybe impls", "src/ast.rs, src/parse.rs"), ("Lookahead", "src/token.rs Lookahead")])

prop("C05", "An error is never swallowed, replaced or retried",
 "Whenever a tokenizer, input stream or sub-parser reports an error to one of the library's combinators, that operation performs no further read or parse and returns that very error to its caller. Equally, an operation never reports an error unless one was reported to it or it diagnosed one itself.",
 ["fault_sequences", "inputs"], "an error at every single call that can fail, in every library combinator and in the code derived by the macros",
 "Tests run on in-memory inputs whose reads never fail, so hardly any error path is executed.",
 ["src/token.rs", "src/parse.rs", "src/ast.rs", "src/input.rs", "src/reader.rs", "laps_macros/src/parse.rs", "laps_macros/src/tokenize.rs", "laps_macros/src/token_ast.rs"],
 [("? propagation", "every function returning span::Result")])

prop("C06", "The span of an AST runs from its first part to its last part",
 "The span of a token, box, tuple, predefined AST value or derived AST value starts where the first constituent that has a span starts and ends where the last constituent that has a span ends. Constituents marked as optional contribute only when they have a span, and an optional span is absent only if no constituent has one.",
 ["inputs", "programs"], "all values of all predefined types, tuples of every arity up to the supported maximum, and derived structs and enums with any placement of optional fields",
 "Tests check the span of a couple of concrete tokens; arities, list lengths and optional-field placements are not enumerated.",
 ["src/span.rs", "src/ast.rs", "src/token.rs", "laps_macros/src/spanned.rs"],
 [("Spanned/TrySpan impls", "src/span.rs, src/ast.rs"), ("derive(Spanned)", "laps_macros/src/spanned.rs")])

prop("C07", "Locations and spans advance and combine exactly as specified",
 "A fresh location is line 1 column 0; a newline moves to column 0 of the next line and any other character or byte moves one column right. Updating a span collapses it to the updated start; extending a span changes only its end, to the other span's end; every span operation keeps the original logger status; and two spans are on the same line exactly when the first ends on the line where the second starts.",
 ["inputs"], "all locations, characters and bytes, and all pairs of spans",
 "Tests check a few literal locations.", ["src/span.rs"], [("Span and Location methods", "src/span.rs")])

prop("C08", "Every diagnostic is counted once and carries its severity",
 "In every feature configuration each reported error or fatal error adds exactly one to the error count and nothing to the warning count, each warning adds exactly one to the warning count only, on the counter shared by every span of the same input, and nothing else changes the counters. Error calls return the non-fatal severity, fatal calls return the fatal severity, and the severity test distinguishes exactly these.",
 ["inputs", "histories", "configurations"], "all sequences of logging calls, raw and located, with and without the logger feature",
 "Tests only log in the default configuration and check few counts; the no-logger configuration is never compiled by the test suite.",
 ["src/span.rs"], [("Span::log_*", "src/span.rs"), ("log macros", "src/span.rs")], [("status", "shared counters")])

prop("C09", "Reader position always matches the characters consumed",
 "For both readers, consuming a character or byte advances the reported position by exactly that character and returns it together with the position before it; unreading restores exactly the given character (if any) and position; peeking, with or without the position, leaves the position and the upcoming characters unchanged and reports what consuming would report; at end of input the position does not change. Setting line and column sets exactly those.",
 ["inputs", "histories", "fault_sequences"], "all inputs, all interleavings of reading, unreading and peeking, end of input at any point",
 "Tests read short strings forward; interleavings of unread, peek and position changes across buffer refills are not sampled.",
 ["src/reader.rs"], [("impl_reader", "src/reader.rs"), ("next_char_loc_from_reader", "src/reader.rs")],
 [("char_buf", "characters decoded but not consumed, next one last"), ("span", "current position")])

prop("C10", "Readers hand out the source exactly once, however it is chunked",
 "However the underlying source splits its bytes over reads, the byte reader hands out exactly those bytes in order, and the character reader exactly the characters they encode, each once. An incomplete character at the end of a chunk is completed from later reads, and the character reader reports an invalid character only for bytes that can never become a valid character.",
 ["inputs", "fault_sequences"], "all byte sequences and all ways of splitting them into reads",
 "Tests read from in-memory cursors that fill the buffer in a single read.",
 ["src/reader.rs"], [("next_char_loc_from_reader", "src/reader.rs")],
 [("byte_buf[..byte_buf_offset]", "bytes read but not yet decoded")])

prop("C11", "Input stream helpers read, peek, skip and collect exactly",
 "The provided input stream helpers are exact in terms of the primitive read and unread: single-step helpers perform one read; peeks perform one read and undo it; skipping consumes exactly the characters before the first one satisfying the predicate or the end of input; collecting additionally returns them in order, and, with a span, returns the span from the first to the last collected character. Each predicate is asked exactly once per character.",
 ["inputs", "histories"], "all inputs, predicates (including stateful ones) and input stream implementations",
 "Tests use the two built-in readers, which override the peeks, and stateless predicates.",
 ["src/input.rs"], [("InputStream default methods", "src/input.rs")])

prop("C12", "String and character literal decoding follows the documented escapes",
 "Decoding a quoted string or character accepts exactly the documented forms - the opening quote, ordinary characters other than newline, carriage return and tab, the single-character, two-digit hexadecimal and braced Unicode escapes, and the matching closing quote at the very end - and yields exactly the denoted characters in order; everything else is rejected. It never panics.",
 ["inputs"], "all strings", "Tests cover a few dozen literals.", ["src/lexer.rs"], [("str_literal/char_literal", "src/lexer.rs")])

prop("C13", "Integer literal decoding selects radix, digits and sign correctly",
 "Decoding an integer literal accepts exactly the documented prefixes and converts exactly the text after the prefix with that prefix's radix to the requested type, rejecting anything else and values that do not fit. The signed form strips exactly one leading sign, negates if and only if it is a minus, and never panics.",
 ["inputs"], "all strings and all integer types", "Tests cover a handful of literals of one type.", ["src/lexer.rs"], [("int_literal/signed_int_literal", "src/lexer.rs"), ("IntLiteral impls", "src/lexer.rs")])

prop("C14", "Derived parsers follow the declaration",
 "A derived parser for a struct parses its fields in declaration order and puts each result in its own field; for an enum it takes the first variant, in declaration order, whose first field predicts success and falls back to the last variant without asking. A derived prediction asks the first field, or the variants' first fields in order until one agrees, or, if start tokens are given, exactly that token sequence, and answers accordingly.",
 ["programs", "inputs"], "all derivable structs and enums (tuple, named and unit shapes, generics) and all token streams",
 "Tests derive for very few shapes and check only successful parses.", ["laps_macros/src/parse.rs"], [("derive(Parse)", "laps_macros/src/parse.rs"), ("Lookahead::maybe", "src/token.rs")])

prop("C15", "Derived lexers run the longest-run loop exactly and place errors and spans",
 "A derived lexer starts every token in the initial state, consumes characters as long as the automaton accepts them, gives the first rejected character back, and yields the token of the final state it stopped in with exactly the consumed text and a span from its first to its last character, restarting for skipped matches. Only at end of input with nothing consumed it yields the end-of-file token; if it stopped in a non-final state, or the text cannot be converted, it reports an error there.",
 ["programs", "inputs", "fault_sequences"], "all token enums (character and byte lexers, with and without an end-of-file variant, custom parsers) and all inputs",
 "Tests lex a few fixed sources.", ["laps_macros/src/tokenize.rs", "src/lexer.rs"], [("derive(Tokenize)", "laps_macros/src/tokenize.rs"), ("Lexer", "src/lexer.rs")])

prop("C16", "Derived lexer automata accept exactly the declared regular expressions",
 "The automaton in the code generated for a token enum accepts a text exactly if one of the declared regular expressions matches all of it, and then selects the first declared variant whose expression matches. Lookups in the generated tables are always in range and the reject marker is never confused with a state.",
 ["programs", "inputs"], "all character sequences, for a fixed battery of token enums covering every supported regex construct, nesting, overlap and table size class",
 "Tests match a few dozen strings against a few expressions; the automaton must be right on every string.",
 ["laps_regex/src/mir.rs", "laps_regex/src/nfa.rs", "laps_regex/src/dfa.rs", "laps_regex/src/fa.rs", "laps_regex/src/table.rs", "laps_macros/src/tokenize.rs"],
 [("regex pipeline", "laps_regex/src"), ("table emission", "laps_macros/src/tokenize.rs RegexImpls")])

prop("C17", "Parallel table generation never changes the generated lexer",
 "For the same token enum, lexers generated with parallelization forced on, forced off or left automatic accept the same texts and select the same variants.",
 ["programs", "inputs", "schedules"], "all character sequences, for a battery of token enums; all schedules of the parallel construction as far as the construction's data flow is concerned",
 "The parallel path is only taken for large symbol sets, which the tests do not compare with the serial path.",
 ["laps_regex/src/dfa.rs", "laps_macros/src/tokenize.rs"], [("construct_par/construct_normal", "laps_regex/src/dfa.rs Constructor")])

prop("C18", "Generated token ASTs parse what they predict, and only their token",
 "Every token AST predicts success exactly when the next token's kind matches its declared pattern and guard, without consuming it; its parse consumes one token, succeeds with that very token exactly when it matches, and otherwise reports an error at the offending token. Its span is the token's span, and the value accessors return the token's own value.",
 ["programs", "inputs", "fault_sequences"], "all declared arms (literal kinds, patterns, guards, prompts) and all tokens",
 "Tests declare few arms and check few tokens.", ["laps_macros/src/token_ast.rs"], [("token_ast!", "laps_macros/src/token_ast.rs")])

prop("C19", "Token kind conversions and display agree with the declaration",
 "For every token kind variant with exactly one unnamed field, converting a value into the kind builds that variant with that value, and converting a kind back yields the value exactly for that variant and fails for every other. Displaying a kind prints that variant's documentation text in lower case and without a final period (or its name in words), otherwise verbatim, followed by its value if it has one, whatever characters the documentation contains.",
 ["programs", "inputs"], "all token kind enums and all their values", "Tests use one enum with benign doc comments.",
 ["laps_macros/src/token_kind.rs", "laps_macros/src/utils.rs"], [("token_kind", "laps_macros/src/token_kind.rs"), ("parse_doc_comments, camel_to_lower", "laps_macros/src/utils.rs")])

prop("C20", "Symbol neighbours are exact and never leave the symbol type",
 "For every character and every byte, the next (previous) symbol is the least greater (greatest smaller) value of that type, skipping the surrogate gap for characters, and is absent exactly for the largest (smallest) value. Computing it never overflows, panics or produces an invalid character.",
 ["inputs"], "all characters and all bytes", "No test calls the neighbour functions at the ends of their domain.",
 ["laps_regex/src/mir.rs"], [("SymbolOp impls", "laps_regex/src/mir.rs")])

prop("C21", "Automaton construction composes languages exactly",
 "Building a nondeterministic automaton from an optimized expression yields, for arbitrary sub-automata, exactly the empty text, the symbol set, the concatenation, the union or the repetition of the operands' languages, and the tag of a tagged alternative is reported exactly for the texts that alternative accepts.",
 ["programs", "inputs"], "all sub-expressions and tags, all nestings of combinators",
 "Tests build a few automata and match a few strings; composition errors need specific nestings such as a repetition as first operand of a union.",
 ["laps_regex/src/nfa.rs", "laps_regex/src/fa.rs"], [("NFA::new, alter, concat, normalize", "laps_regex/src/nfa.rs")])

prop("C22", "Automaton state identifiers are globally unique",
 "No two automaton states ever get the same identifier, even when automata are built concurrently on several threads: every new state takes its identifier from one shared counter that is read and advanced under one lock acquisition, and the counter is never otherwise written. Combining two automata therefore never merges two of their states.",
 ["schedules", "histories"], "all interleavings of concurrent builders", "No test builds automata concurrently.",
 ["laps_regex/src/fa.rs"], [("get_and_update_state_id", "laps_regex/src/fa.rs"), ("FiniteAutomaton::new/add_state/union", "laps_regex/src/fa.rs")])

prop("C23", "Regex matcher entry points agree with the transition table",
 "Matching a whole sequence, matching a string or bytes, and feeding symbols one at a time all walk the same transitions from the initial state: a symbol is accepted exactly if its range is mapped and the table holds a valid next state, a rejected symbol leaves the current state unchanged, resetting returns to the initial state, and the reported tag is the tag of the state reached. A lookup with an invalid state is refused rather than misread.",
 ["inputs", "histories"], "all symbol sequences and all tables", "Tests match a few strings through one entry point each.",
 ["laps_regex/src/re.rs", "laps_regex/src/table.rs"], [("RegexMatcher", "laps_regex/src/re.rs"), ("StateTransTable::next_state/is_final", "laps_regex/src/table.rs")])

prop("C24", "Unsupported regexes and ill-formed declarations are refused at compile time",
 "Look-around assertions, non-greedy repetition, expressions that match nothing, malformed regexes, non-UTF-8 literals in character lexers and Unicode classes in byte lexers are refused when the lexer is generated, never silently mis-lexed. Declarations the macros do not support (wrong item kinds, duplicated or conflicting attributes, unsupported field shapes, missing parsers in byte lexers, guards without prompt, malformed token macros) are compile errors rather than panics or code that misbehaves, while their well-formed twins compile.",
 ["programs"], "a battery of ill-formed programs, each with a well-formed twin", "There are no compile-fail tests.",
 ["laps_regex/src/mir.rs", "laps_macros/src"], [("Mir::new_from_hir_kind", "laps_regex/src/mir.rs"), ("attribute checks", "laps_macros/src/tokenize.rs, parse.rs, spanned.rs, token_ast.rs, token_kind.rs, utils.rs")])

prop("C25", "Every feature combination builds, and macro output is hygienic",
 "The crate type-checks in every combination of its features, and programs using its macros type-check in each combination that has them, whatever unrelated items (types, traits, functions, modules and macros named like the standard library's or like the macros' own) the user's module defines and the parsers given to #[regex] mention, whatever their visibility, nesting, imports, edition, generic parameters, raw identifiers, lints, or braces in prompts and documentation.",
 ["configurations", "programs"], "all feature combinations, and a battery of user modules with clashing names", "Tests build only with all features, in a clean namespace.",
 ["Cargo.toml", "src/lib.rs", "src/span.rs", "laps_macros/src"], [("feature gates", "src/span.rs, src/token.rs, src/lib.rs"), ("macro output paths", "laps_macros/src")])

prop("C26", "Token identity is the kind's identity",
 "Two tokens are equal exactly if their kinds are equal, comparing a token with a kind compares its kind, equal tokens hash equally and exactly like their kinds, borrowing or converting a token to its kind yields its own kind, and displaying a token displays its kind; positions never matter.",
 ["inputs"], "all tokens", "Tests compare few tokens.", ["src/token.rs"], [("Token trait impls", "src/token.rs")])

prop("C27", "Library values cross threads whenever their parts may",
 "Spans, errors, locations, tokens, readers, lexers, token buffers, AST values, regex builders and matchers can be sent to and shared between threads whenever the user types they contain can.",
 ["schedules", "programs"], "all instantiations with thread-safe parts (decided by the type checker)", "No test moves these values across threads.",
 ["src/span.rs", "src/token.rs", "src/reader.rs", "src/lexer.rs", "src/ast.rs", "laps_regex/src/re.rs"], [("Arc<LoggerStatus>", "src/span.rs")])

prop("C28", "Reporting a diagnostic never panics",
 "Reporting an error or warning, and formatting the source excerpt for it, never panics and never overflows, whatever the span's location (including column zero, lines and columns beyond the file, or an end before the start) and whatever the file contains, including missing files, unreadable lines, very long lines and characters of no width; only a failing standard error stream is left to the standard library.",
 ["inputs", "fault_sequences"], "all spans and all file contents", "Tests log to in-memory buffers, for which no excerpt is printed.",
 ["src/span.rs"], [("print_file_info/print_single_line_info/print_multi_line_info", "src/span.rs")])

prop("C29", "Every unchecked conversion is justified where it happens",
 "Bytes are reinterpreted as UTF-8 without a check only for a prefix that validation of those very bytes reported as valid, and integers become characters without a check only when they are Unicode scalar values. Any other unchecked operation is reached only when what it requires holds.",
 ["inputs"], "all inputs, every unsafe operation in the three crates", "Undefined behaviour need not show up in a test run.",
 ["src/reader.rs", "laps_regex/src/mir.rs"], [("from_utf8_unchecked", "src/reader.rs"), ("from_u32_unchecked", "laps_regex/src/mir.rs")])

prop("C30", "Lowering and simplifying a regex keep its meaning",
 "Lowering a parsed regular expression (empty text, literal, class, group, sequence, alternation, every repetition count) and simplifying it (flattening, removing duplicates, factoring out common parts) yield an expression that matches exactly the texts the original matches. When several regexes are built together, a text several of them match gets the smallest of their tags, whatever the order in which they were added; a regex that does not parse, cannot be lowered or matches nothing makes the whole build fail with its error, and building nothing is an error.",
 ["programs", "inputs"], "all forms of expressions with arbitrary operands, all orders of tags",
 "Tests build a few regexes and match a few strings; simplification errors need particular coincidences of operands (equal parts, empty parts, common suffixes, tags in descending order).",
 ["laps_regex/src/mir.rs", "laps_regex/src/re.rs"], [("Mir::new_from_hir_kind and the builders", "laps_regex/src/mir.rs"), ("Mir::opt_without_rebuild", "laps_regex/src/mir.rs"), ("RegexBuilder::build_impl", "laps_regex/src/re.rs")])

prop("C31", "Diagnostics say what is wrong, and where",
 "Every report consists of its severity (`error: ` or `warning: `), the caller's message complete and unchanged, and, for a diagnostic at a span, a line `  at <input>:<line>:<column>` that names the input and where the span starts; without the logger the error carries `<input>:<line>:<column>: <message>` (just the message if no place was asked for). All of it goes to standard error. An excerpt of a readable file runs from the span's first line to its last, every row showing the line of the file whose number it carries. The summary states how many errors and warnings there were, in the singular for one, leaving out those there were none of. Locations display as `line:column`, spans as `start-end`, inputs as their path, `<stdin>` or `<buffer>`. A token that is not the expected one is reported as `expected <wanted>, found <token>`, where wanted is the expected token or the arm's prompt; derived lexers tell unexpected end-of-file, unrecognized tokens, and text a parser refuses (`invalid <kind>`) apart. How an excerpt's underline is aligned is not part of this.",
 ["inputs", "fault_sequences"], "all spans, messages, counts, files and token streams; any readable or unreadable line",
 "Tests look at the values returned, never at what is printed, and no test has a file behind a span.",
 ["src/span.rs", "src/token.rs", "laps_macros/src/token_ast.rs", "laps_macros/src/tokenize.rs"],
 [("Span::log_*, print_file_info", "src/span.rs"), ("TokenStream::expect", "src/token.rs"), ("token_ast parse bodies", "laps_macros/src/token_ast.rs"), ("token_result, eof handling", "laps_macros/src/tokenize.rs")])

prop("C32", "Wrappers hand out what they hold, whole and in order",
 "Iterating over a predefined sequence (by value, by reference or by mutable reference) yields every element it holds exactly once, in the order parsed. A lexer made by `Tokenize::lexer` draws each token by asking the token kind once, on the input it was made from, and passes the answer on unchanged; its accessors lend exactly that input, and converting it back returns it as reading left it. A token buffer lends and returns exactly the tokenizer it was made from. A reader made from a string, bytes, standard input, a path or any other source reads that whole source from its start, returns it on `into_inner`, and begins at the first position of an input named accordingly (`from_path` opens the given path, names it, and passes on a failure to open it).",
 ["inputs"], "all contents and sizes",
 "Tests never call most of these conversions and iterate over nothing but short literals.",
 ["src/ast.rs", "src/lexer.rs", "src/token.rs", "src/reader.rs"],
 [("impl_into_iterator", "src/ast.rs"), ("Lexer, Tokenize::lexer", "src/lexer.rs"), ("TokenBuffer::{new, inner, into_inner}", "src/token.rs"), ("impl_reader", "src/reader.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))

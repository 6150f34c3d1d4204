"""Declarations that have to be refused, each next to one that differs in just the offence and has to compile."""

USE = "use laps::prelude::*;\n"
TK = '''#[token_kind] #[derive(Debug, Tokenize)]
pub enum Tk { #[regex("[0-9]+")] Num(u8), #[regex("[+*]")] Op(char), #[regex("if")] If, #[skip(" ")] Sp, #[eof] Eof }
pub type Tn = laps::token::Token<Tk>;
'''
AST = '''token_ast! { macro Ast<Tk> { [num] => { kind: Tk::Num(_), prompt: "n" }, [if] => { kind: Tk::If } } }
'''
NAMED = '''#[derive(Debug, Clone, PartialEq, Tokenize)]
'''


def lexer(variants, attrs=""):
    return USE + NAMED + attrs + "pub enum K { " + variants + " }\n"


def nodes(text):
    return USE + TK + AST + text


# (what is wrong, the ill-formed program, the well-formed one)
PAIRS = []


def pair(what, bad, good):
    PAIRS.append((what, bad, good))


def regex(what, bad, good, attrs="", kind="A"):
    """bad and good are what stands within #[regex(...)]"""
    for attr in ("regex", "skip"):
        pair(f"{what} in #[{attr}]",
             lexer(f'#[{attr}({bad})] {kind}, #[regex("(?-u)[xyz]")] B, #[eof] E', attrs),
             lexer(f'#[{attr}({good})] {kind}, #[regex("(?-u)[xyz]")] B, #[eof] E', attrs))


BYTES = "#[char_type(u8)] "
for n, b, g in (
        ("look-around $", 'r"a$"', 'r"a\\$"'),
        ("look-around ^", 'r"^a"', 'r"\\^a"'),
        ("a word boundary", 'r"\\ba"', 'r"\\\\ba"'),
        ("a negated word boundary", 'r"a\\B"', 'r"a\\\\B"'),
        ("start of text", 'r"\\Aa"', 'r"\\\\Aa"'),
        ("end of text", 'r"a\\z"', 'r"a\\\\z"'),
        ("a multi-line anchor", 'r"(?m)^a"', 'r"(?m)\\^a"'),
        ("look-around in a group", 'r"(a(b$))"', 'r"(a(b))"'),
        ("look-around in an alternation", 'r"ab|cd$"', 'r"ab|cd"'),
        ("look-around in a repetition", 'r"(?:a\\b)*q"', 'r"(?:a)*q"'),
        ("look-around in a bounded repetition", 'r"(?:a\\b){2,3}"', 'r"(?:a){2,3}"'),
        ("look-around in an exact repetition", 'r"(?:ab\\b){2}"', 'r"(?:ab){2}"'),
        ("look-around in an optional part", 'r"q(?:ab\\b)?"', 'r"q(?:ab)?"'),
        ("non-greedy *", 'r"a*?q"', 'r"a*q"'),
        ("non-greedy +", 'r"a+?"', 'r"a+"'),
        ("non-greedy ?", 'r"qa??"', 'r"qa?"'),
        ("non-greedy {1,2}", 'r"a{1,2}?"', 'r"a{1,2}"'),
        ("non-greedy {2,}", 'r"a{2,}?"', 'r"a{2,}"'),
        ("non-greedy repetition in a group", 'r"(q(a*?))"', 'r"(q(a*))"'),
        ("swapped greediness", 'r"(?U)qa*"', 'r"(?U)qa*?"'),
        ("an empty class", 'r"[a&&b]"', 'r"[a&&a]"'),
        ("an empty class in a concatenation", 'r"q[a&&b]"', 'r"q[a&&a]"'),
        ("an empty class in an alternation", 'r"q|[^\\x00-\\x{10ffff}]"', 'r"q|[^\\x00-\\x{10fffe}]"'),
        ("an unclosed group", 'r"(a"', 'r"(a)"'),
        ("an unclosed class", 'r"[a"', 'r"[a]"'),
        ("a dangling repetition", 'r"*a"', 'r"a*a"'),
        ("a reversed range", 'r"[b-a]"', 'r"[a-b]"'),
        ("a reversed count", 'r"a{3,2}"', 'r"a{2,3}"'),
        ("an unknown escape", 'r"\\y"', 'r"\\\\y"'),
        ("a back-reference", 'r"(a)\\1"', 'r"(a)1"'),
        ("a look-ahead group", 'r"a(?=b)"', 'r"a(?:b)"'),
        ("a dangling backslash", 'r"a\\"', 'r"a\\\\"'),
        ("an unknown Unicode class", 'r"\\p{Nope}"', 'r"\\p{L}"'),
        ("a byte that is not text", 'r"(?-u)\\xff"', 'r"(?-u)\\x7f"'),
        ("a class of bytes that are not text", 'r"(?-u)[\\x80-\\xff]"', 'r"(?-u)[\\x20-\\x7f]"'),
        ("no regex", "", '"a"'),
        ("a regex that is no string", "1", '"a"'),
        ("a regex that is a byte string", 'b"a"', '"a"'),
        ("a regex that is a constant", "RE", '"a"')):
    regex(n, b, g)
for n, b, g in (("a Unicode class", 'r"[\\u{100}-\\u{200}]"', 'r"(?-u)[a-b]"'),
                ("a Unicode property", 'r"\\p{L}"', 'r"(?-u)\\w"'),
                ("the Unicode dot", 'r"."', 'r"(?-u)[\\x00-\\x7f]"'),
                ("a Unicode case-insensitive letter", 'r"(?i)k"', 'r"(?i-u)k"'),
                ("look-around", 'r"(?-u)a\\b"', 'r"(?-u)a"'),
                ("non-greedy repetition", 'r"(?-u)a+?"', 'r"(?-u)a+"')):
    regex(n + " in a byte lexer", b, g, BYTES)

for r in ("", "(?:)", "()*", "()|()", "(?:){3}", "(?:)+"):
    pair(f"look-around next to the regex '{r}', which matches nothing but the empty text",
         lexer(f'#[regex(r"{r}$")] A'), lexer(f'#[regex(r"{r}")] A'))

ABC = '#[regex("a")] A, #[regex("b")] B(char), #[eof] E'
for attr in ("char_type", "enable_par"):
    v = "char" if attr == "char_type" else "true"
    pair(f"{attr} bound twice", lexer(ABC, f"#[{attr}({v})] #[{attr}({v})] "), lexer(ABC, f"#[{attr}({v})] "))
pair("a char_type that is no symbol type", lexer('#[regex("a")] A', "#[char_type(u16)] "),
     lexer('#[regex("a")] A', "#[char_type(u8)] "))
pair("a char_type that is a reference", lexer('#[regex("a")] A', "#[char_type(&u8)] "),
     lexer('#[regex("a")] A', "#[char_type(u8)] "))
pair("a char_type with arguments", lexer('#[regex("a")] A', "#[char_type(char, u8)] "),
     lexer('#[regex("a")] A', "#[char_type(char)] "))
pair("an empty char_type", lexer('#[regex("a")] A', "#[char_type()] "), lexer('#[regex("a")] A', "#[char_type(char)] "))
pair("enable_par that is no boolean", lexer(ABC, "#[enable_par(1)] "), lexer(ABC, "#[enable_par(false)] "))
pair("enable_par that is a name", lexer(ABC, "#[enable_par(yes)] "), lexer(ABC, "#[enable_par(true)] "))
pair("two #[eof]", lexer(ABC + ", #[eof] F"), lexer(ABC + ", F"))
pair("three #[eof]", lexer(ABC + ", #[eof] F(), #[eof] G"), lexer(ABC + ", F(), G"))
pair("no regex at all", lexer("#[eof] E, A"), lexer('#[eof] E, #[regex("a")] A'))
pair("an empty enum", lexer(""), lexer('#[regex("a")] A'))
for a, b in (('#[regex("a")] #[regex("b")]', '#[regex("a")]'), ('#[regex("a")] #[skip("b")]', '#[skip("b")]'),
             ('#[skip("a")] #[regex("b")]', '#[regex("b")]'), ('#[skip("a")] #[skip("b")]', '#[skip("b")]'),
             ('#[regex("a")] #[eof]', '#[regex("a")]'), ('#[eof] #[regex("a")]', '#[eof]'),
             ('#[eof] #[skip("a")]', '#[eof]'), ('#[eof] #[eof]', '#[eof]'),
             ('#[skip("a")] #[eof]', '#[skip("a")]')):
    pair(f"both {a}", lexer(a + ' X, #[regex("q")] Q'), lexer(b + ' X, #[regex("q")] Q'))
    pair(f"both {a} after a comment", lexer("/// Doc.\n" + a + '\n/// Doc.\nX, #[regex("q")] Q'),
         lexer("/// Doc.\n" + b + '\n/// Doc.\nX, #[regex("q")] Q'))
Q = ', #[regex("q")] Q'
pair("a variant with two fields", lexer('#[regex("a")] A(char, char)' + Q), lexer('#[regex("a")] A(char)' + Q))
pair("a variant with a named field", lexer('#[regex("a")] A { c: char }' + Q), lexer('#[regex("a")] A(char)' + Q))
pair("a variant with no field, but braces", lexer('#[regex("a")] A {}' + Q), lexer('#[regex("a")] A()' + Q))
pair("a variant without attributes, with two fields", lexer('A(char, char)' + Q), lexer('A' + Q))
pair("a field in a skipped variant", lexer('#[skip("a")] A(char)' + Q), lexer('#[skip("a")] A' + Q))
pair("a field in an end-of-file variant", lexer('#[eof] A(char)' + Q), lexer('#[eof] A' + Q))
pair("a field of a byte kind without parser", lexer('#[regex("a")] A(u8)', BYTES),
     lexer('#[regex("a", |b: &[u8]| b.first().copied())] A(u8)', BYTES))
pair("a parser for a variant without field", lexer('#[regex("a", |s: &str| s.parse().ok())] A' + Q),
     lexer('#[regex("a", |s: &str| s.parse().ok())] A(char)' + Q))
pair("a parser for a variant with empty parentheses", lexer('#[regex("a", |s: &str| s.parse().ok())] A()' + Q),
     lexer('#[regex("a", |s: &str| s.parse().ok())] A(char)' + Q))
pair("a parser for a byte variant without field", lexer('#[regex("a", |b: &[u8]| b.first().copied())] A', BYTES),
     lexer('#[regex("a", |b: &[u8]| b.first().copied())] A(u8)', BYTES))
pair("a field whose type cannot be read from text", lexer('#[regex("a")] A(Vec<u8>)' + Q), lexer('#[regex("a")] A(String)' + Q))
pair("a parser of something else", lexer('#[regex("a", |_: &str| Some(1u8))] A(char)' + Q),
     lexer('#[regex("a", |_: &str| Some(\'x\'))] A(char)' + Q))
pair("a parser that is no function", lexer('#[regex("a", 3)] A(char)' + Q), lexer('#[regex("a", |_| None)] A(char)' + Q))
pair("a missing parser after a comma", lexer('#[regex("a",)] A(char)' + Q), lexer('#[regex("a")] A(char)' + Q))
pair("two parsers", lexer('#[regex("a", |_| None, |_| None)] A(char)' + Q), lexer('#[regex("a", |_| None)] A(char)' + Q))
pair("a parser for a skipped variant", lexer('#[skip("a", |_| None)] A' + Q), lexer('#[skip("a")] A' + Q))
pair("two regexes in one attribute", lexer('#[regex("a", "b")] A(char)' + Q), lexer('#[regex("a|b")] A(char)' + Q))
for n, b, g in (('a parser without comma', '"a" |_: &str| None', '"a", |_: &str| None'),
                ('a parser after a semicolon', '"a"; |_: &str| None', '"a", |_: &str| None'),
                ('two texts', '"a" "b"', '"ab"'), ('a word after the regex', '"a" b', '"ab"'),
                ('a word before the regex', 'b "a"', '"ab"'), ('a named regex', 'regex = "a"', '"a"')):
    pair(f"#[regex] with {n}", lexer(f'#[regex({b})] A(char)' + Q), lexer(f'#[regex({g})] A(char)' + Q))
for n, b in (("two texts", '"a" "b"'), ("a word after the regex", '"a" b'), ("a comma", '"a",'), ("nothing", '')):
    pair(f"#[skip] with {n}", lexer(f'#[skip({b})] A' + Q), lexer('#[skip("a")] A' + Q))
for a, v, bad in (("char_type", "char", ("char u8", "3", "char,", "")), ("enable_par", "true", ("true false", "", "true, true", '"true"'))):
    for b in bad:
        pair(f"#[{a}({b})]", lexer(ABC, f"#[{a}({b})] "), lexer(ABC, f"#[{a}({v})] "))
pair("Tokenize for a struct", USE + NAMED + 'pub struct K(char);', lexer('#[regex("a")] A(char)'))
pair("Tokenize for a unit struct", USE + NAMED + 'pub struct K;', lexer('#[regex("a")] A'))
pair("Tokenize for a union", USE + '#[derive(Clone, Copy, Tokenize)] pub union K { a: u8, b: u8 }', lexer('#[regex("a")] A'))
pair("a char kind read from bytes",
     lexer('#[regex("a")] A') + "pub fn f() -> K { K::next_token(&mut laps::reader::Reader::from(\"\").into_bytes()) }",
     lexer('#[regex("a")] A') + "pub fn f() -> laps::span::Result<laps::token::Token<K>> { K::next_token(&mut laps::reader::Reader::from(\"\")) }")

# parsers
for n, b, g in (
        ("#[token] bound twice", "#[derive(Parse)] #[token(Tn)] #[token(Tn)] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] pub struct S(pub Ast![if]);"),
        ("#[starts_with] bound twice",
         "#[derive(Parse)] #[token(Tn)] #[starts_with(Ast![if])] #[starts_with(Ast![num])] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] #[starts_with(Ast![if], Ast![num])] pub struct S(pub Ast![if]);"),
        ("an empty #[starts_with]", "#[derive(Parse)] #[token(Tn)] #[starts_with()] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] #[starts_with(Ast![if])] pub struct S(pub Ast![if]);"),
        ("#[starts_with] without comma", "#[derive(Parse)] #[token(Tn)] #[starts_with(Ast![if] Ast![num])] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] #[starts_with(Ast![if], Ast![num])] pub struct S(pub Ast![if]);"),
        ("#[starts_with] of a literal", "#[derive(Parse)] #[token(Tn)] #[starts_with(3)] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] #[starts_with(Ast![if])] pub struct S(pub Ast![if]);"),
        ("#[token] with two types without comma", "#[derive(Parse)] #[token(Tn Tn)] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] pub struct S(pub Ast![if]);"),
        ("#[try_span] in parentheses of another thing", "#[derive(Spanned)] pub struct S(#[try_spam] pub Option<Tn>, pub Tn);",
         "#[derive(Spanned)] pub struct S(#[try_span] pub Option<Tn>, pub Tn);"),
        ("an empty #[token]", "#[derive(Parse)] #[token()] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] pub struct S(pub Ast![if]);"),
        ("a #[token] that is no type", "#[derive(Parse)] #[token(3)] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] pub struct S(pub Ast![if]);"),
        ("two types in #[token]", "#[derive(Parse)] #[token(Tn, Tn)] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] pub struct S(pub Ast![if]);"),
        ("another token in #[token]", "#[derive(Parse)] #[token(laps::token::Token<u8>)] pub struct S(pub Ast![if]);",
         "#[derive(Parse)] #[token(laps::token::Token<Tk>)] pub struct S(pub Ast![if]);"),
        ("a first field that cannot be parsed", "#[derive(Parse)] #[token(Tn)] pub struct S(pub u8, pub Ast![if]);",
         "#[derive(Parse)] #[token(Tn)] pub struct S(pub Ast![if], pub Ast![num]);"),
        ("a second field that cannot be parsed", "#[derive(Parse)] #[token(Tn)] pub struct S(pub Ast![if], pub u8);",
         "#[derive(Parse)] #[token(Tn)] pub struct S(pub Ast![if], pub Ast![num]);"),
        ("a named field that cannot be parsed", "#[derive(Parse)] #[token(Tn)] pub struct S { pub a: Ast![if], pub b: u8 }",
         "#[derive(Parse)] #[token(Tn)] pub struct S { pub a: Ast![if], pub b: Ast![num] }"),
        ("a variant that cannot be parsed", "#[derive(Parse)] #[token(Tn)] pub enum S { A(Ast![if]), B(u8) }",
         "#[derive(Parse)] #[token(Tn)] pub enum S { A(Ast![if]), B(Ast![num]) }"),
        ("Parse for a union", "#[derive(Parse)] #[token(Tn)] pub union S { a: u8, b: u8 }",
         "#[derive(Parse)] #[token(Tn)] pub enum S { A(Ast![if]) }"),
        ("#[try_span] on all fields", "#[derive(Spanned)] pub struct S(#[try_span] pub Option<Tn>, #[try_span] pub Option<Tn>);",
         "#[derive(Spanned)] pub struct S(#[try_span] pub Option<Tn>, pub Tn);"),
        ("#[try_span] on the only field", "#[derive(Spanned)] pub struct S { #[try_span] pub a: Option<Tn> }",
         "#[derive(Spanned)] pub struct S { pub a: Tn }"),
        ("#[try_span] on all fields of a variant",
         "#[derive(Spanned)] pub enum S { A(Tn), B { #[try_span] a: Option<Tn>, #[try_span] b: Option<Tn> } }",
         "#[derive(Spanned)] pub enum S { A(Tn), B { #[try_span] a: Option<Tn>, b: Tn } }"),
        ("#[try_span] bound twice", "#[derive(Spanned)] pub struct S(#[try_span] #[try_span] pub Option<Tn>, pub Tn);",
         "#[derive(Spanned)] pub struct S(#[try_span] pub Option<Tn>, pub Tn);"),
        ("an optional first field without #[try_span]", "#[derive(Spanned)] pub struct S(pub Option<Tn>, pub Tn);",
         "#[derive(Spanned)] pub struct S(#[try_span] pub Option<Tn>, pub Tn);"),
        ("an optional last field without #[try_span]", "#[derive(Spanned)] pub struct S { pub a: Tn, pub b: Option<Tn> }",
         "#[derive(Spanned)] pub struct S { pub a: Tn, #[try_span] pub b: Option<Tn> }"),
        ("a last field without a span", "#[derive(Spanned)] pub struct S(pub Tn, pub u8);",
         "#[derive(Spanned)] pub struct S(pub Tn, pub u8, pub Tn);"),
        ("Spanned for a unit struct", "#[derive(Spanned)] pub struct S;", "#[derive(Spanned)] pub struct S(pub Tn);"),
        ("Spanned for a struct without fields", "#[derive(Spanned)] pub struct S {}", "#[derive(Spanned)] pub struct S { pub a: Tn }"),
        ("Spanned for empty parentheses", "#[derive(Spanned)] pub struct S();", "#[derive(Spanned)] pub struct S(pub Tn);"),
        ("Spanned for an empty enum", "#[derive(Spanned)] pub enum S {}", "#[derive(Spanned)] pub enum S { A(Tn) }"),
        ("Spanned for a unit variant", "#[derive(Spanned)] pub enum S { A(Tn), B }", "#[derive(Spanned)] pub enum S { A(Tn) }"),
        ("Spanned for a variant without fields", "#[derive(Spanned)] pub enum S { A(Tn), B {} }",
         "#[derive(Spanned)] pub enum S { A(Tn), B { b: Tn } }"),
        ("Spanned for a variant with empty parentheses", "#[derive(Spanned)] pub enum S { A(Tn), B() }",
         "#[derive(Spanned)] pub enum S { A(Tn), B(Tn) }"),
        ("Spanned for a union", "#[derive(Spanned)] pub union S { a: u8, b: u8 }", "#[derive(Spanned)] pub enum S { A(Tn) }")):
    pair(n, nodes(b), nodes(g))

# token kinds
KIND = USE + "#[token_kind%s] #[derive(Debug)] pub %s\n"
pair("token_kind with arguments", KIND % ("(Debug)", "enum T { A, B(char) }"), KIND % ("", "enum T { A, B(char) }"))
pair("token_kind on a struct", KIND % ("", "struct T(char);"), KIND % ("", "enum T { A(char) }"))
pair("token_kind on a union", USE + "#[token_kind] pub union T { a: u8, b: u8 }", KIND % ("", "enum T { A(u8) }"))
pair("token_kind on a function", USE + "#[token_kind] pub fn t() {}", KIND % ("", "enum T { A(u8) }"))
pair("two variants of the same field type", KIND % ("", "enum T { A(u8), B(u8) }"), KIND % ("", "enum T { A(u8), B(u16) }"))
pair("a field that cannot be displayed", USE + "#[derive(Clone, PartialEq, Debug)] pub struct P;\n" + KIND[len(USE):] % ("", "enum T { A(P) }"),
     USE + "#[derive(Clone, PartialEq, Debug)] pub struct P;\nimpl std::fmt::Display for P { fn fmt(&self, _: &mut "
     "std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }\n" + KIND[len(USE):] % ("", "enum T { A(P) }"))

# token macros
MAC = USE + TK + "token_ast! { %s { %s } }\n"
ARM = "[num] => { kind: Tk::Num(_), prompt: \"n\" }"
GOOD = MAC % ("macro Ast<Tk>", ARM)
for n, head, arms in (
        ("no kind", "macro Ast", ARM), ("no macro name", "macro <Tk>", ARM), ("no keyword macro", "Ast<Tk>", ARM),
        ("another keyword", "enum Ast<Tk>", ARM),
        ("two kinds", "macro Ast<Tk, Tk>", ARM), ("a lifetime for a kind", "macro Ast<'static>", ARM),
        ("a kind in parentheses", "macro Ast(Tk)", ARM),
        ("a kind and a path that end in nothing", "macro a::Ast<Tk>::", ARM), ("an absent kind", "macro Ast<>", ARM),
        ("a guard without prompt", "macro Ast<Tk>", "[num] => { kind: Tk::Num(n) if *n == 0 }"),
        ("a guard without prompt after others", "macro Ast<Tk>", ARM + ", [zero] => { kind: Tk::Num(n) if *n == 0 }"),
        ("a prompt that is no string", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt: 3 }"),
        ("a prompt before the kind", "macro Ast<Tk>", "[num] => { prompt: \"n\", kind: Tk::Num(_) }"),
        ("another word for kind", "macro Ast<Tk>", "[num] => { kinds: Tk::Num(_), prompt: \"n\" }"),
        ("another word for prompt", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), name: \"n\" }"),
        ("an empty arm", "macro Ast<Tk>", "[num] => {}"),
        ("an arm without braces", "macro Ast<Tk>", "[num] => Tk::If"),
        ("an arm without brackets", "macro Ast<Tk>", "num => { kind: Tk::Num(_), prompt: \"n\" }"),
        ("an arm in parentheses", "macro Ast<Tk>", "(num) => { kind: Tk::Num(_), prompt: \"n\" }"),
        ("an arm without arrow", "macro Ast<Tk>", "[num] { kind: Tk::Num(_), prompt: \"n\" }"),
        ("arms without comma", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt: \"n\" } [if] => { kind: Tk::If }"),
        ("a kind without colon", "macro Ast<Tk>", "[num] => { kind Tk::Num(_), prompt: \"n\" }"),
        ("a kind with an equals sign", "macro Ast<Tk>", "[num] => { kind = Tk::Num(_), prompt: \"n\" }"),
        ("a prompt without colon", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt \"n\" }"),
        ("a prompt with an equals sign", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt = \"n\" }"),
        ("a prompt without comma", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_) prompt: \"n\" }"),
        ("a prompt without text", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt: }"),
        ("a bare prompt", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), \"n\" }"),
        ("two prompts", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt: \"n\", prompt: \"n\" }"),
        ("two kinds in an arm", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), kind: Tk::Num(_), prompt: \"n\" }"),
        ("a prompt of two texts", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt: \"n\" \"m\" }"),
        ("an empty guard", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_) if, prompt: \"n\" }"),
        ("an absent pattern", "macro Ast<Tk>", "[num] => { kind: , prompt: \"n\" }"),
        ("a guard that is no condition", "macro Ast<Tk>", "[num] => { kind: Tk::Num(n) if *n, prompt: \"n\" }"),
        ("an arm with a thin arrow", "macro Ast<Tk>", "[num] -> { kind: Tk::Num(_), prompt: \"n\" }"),
        ("arms with a semicolon", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt: \"n\" }; [if] => { kind: Tk::If }"),
        ("two commas between arms", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt: \"n\" },, [if] => { kind: Tk::If }"),
        ("something after the prompt", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_), prompt: \"n\", extra: 1 }"),
        ("a pattern without prompt that is no value", "macro Ast<Tk>", "[num] => { kind: Tk::Num(_) }"),
        ("a kind that does not exist", "macro Ast<Tk>", "[num] => { kind: Tk::Nope, prompt: \"n\" }"),
        ("a pattern of another type", "macro Ast<Tk>", "[num] => { kind: 3, prompt: \"n\" }"),
        ("a visibility that leads nowhere", "pub(in ::laps) macro Ast<Tk>", ARM),
        ("an unknown visibility", "pub(in other) macro Ast<Tk>", ARM)):
    pair("token_ast: " + n, MAC % (head, arms), GOOD)
pair("token_ast: an unknown token", GOOD + "pub struct S(Ast![nope]);", GOOD + "pub struct S(Ast![num]);")
pair("a private token macro used elsewhere",
     "pub mod a {" + GOOD + "}\npub struct S(a::Ast![num]);",
     "pub mod a {" + MAC % ("pub(crate) macro crate::a::Ast<Tk>", ARM) + "}\npub struct S(a::Ast![num]);")
pair("a private token macro's token read elsewhere",
     "pub mod a {" + GOOD + "pub fn f(t: Ast![num]) {} pub type X = Ast![num]; }\npub fn g(x: a::X) -> a::Tn { x.0 }",
     "pub mod a {" + MAC % ("pub(crate) macro crate::a::Ast<Tk>", ARM) + "pub type X = Ast![num]; }\npub fn g(x: a::X) -> a::Tn { x.0 }")

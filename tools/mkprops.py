import json
M="sscanf_macro/src/"
def P(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":m.strip(),"where":", ".join(files)} for m in mech.split(";")]}
    if state: a["state"]=state
    return dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a)
props=[
P("C01","Literal text of a format matches exactly itself, over the whole input",
"Outside of placeholders, every character of an (escaped) format string matches exactly that one character and nothing else: regex metacharacters have no special meaning, `{{` and `}}` stand for `{` and `}`, and in a non-raw literal an escape sequence stands for the character it denotes in Rust. A match always has to cover the entire input from the first to the last character; an input with anything missing, changed, added before or added after is a MatchFailed error.",
["programs","inputs"],"every format literal (raw with any number of #, non-raw with any escape), every input string",
"Tests use a handful of format strings with ordinary letters; the claim is over every character of Unicode, every literal form and every input.",
[M+"format_string.rs",M+"str_lit.rs",M+"lib.rs"],"FormatString::new splits the literal and escapes metacharacters; generate_regex anchors the regex with ^ and $; StrLit::to_slice strips the quotes"),
P("C02","Placeholder grammar: every format string is split as documented or rejected",
"A format string is split into literal text and placeholders exactly as documented: `{` opens a placeholder that ends at the first matching `}`, the type/name part ends at the first single `:` (a `::` never ends it), everything after that `:` is the option, and `{{`/`}}` are literal braces. A lone `}`, an unclosed `{`, an empty option after `:` or a `/.../` without `:` is a compile error; no format literal, however malformed, makes the macro panic.",
["programs"],"every string literal used as format string",
"The compile-fail tests check about 40 fixed literals; the grammar is over all strings, including multi-byte characters at every split position.",
[M+"format_string.rs",M+"placeholder.rs",M+"format_option.rs",M+"str_lit.rs"],"FormatString::new / Placeholder::new / FormatOption::new consume one shared peekable char iterator; StrLitSlice::slice re-slices by byte offset"),
P("C03","Custom regex options are taken over verbatim",
"For `{:/R/}` the placeholder matches exactly the language of the regex R as written: only `\\/` is rewritten to `/`, in a raw literal every other character is kept as is, and in a non-raw literal each `\\\\` stands for one backslash and other escapes are handed to the regex as written. The regex ends at the first `/` that is not escaped, which has to be followed directly by `}`; a regex that is unterminated, syntactically invalid or contains a capture group is a compile error.",
["programs","inputs"],"every custom regex text, in raw and non-raw literals, at every placeholder position",
"Tests hold about a dozen custom regexes; backslash parity, `/` and `}` inside the regex and raw/non-raw decoding interact in unboundedly many ways.",
[M+"format_option.rs",M+"regex_parts.rs"],"FormatOption::new keeps a pending-backslash state while decoding; contains_capture_group walks the parsed regex"),
P("C04","Radix and # options are accepted exactly as documented",
"`x`, `o`, `b` mean base 16, 8, 2 with an optional 0x/0o/0b prefix; combined with `#` on either side the prefix is mandatory; `r2` to `r36` mean that base with no prefix at all. Every other option text, and any radix option on a type that is not a literally written primitive integer name, is rejected at compile time.",
["programs"],"every option text and every type spelling in a placeholder",
"Tests cover a few accepted and rejected spellings; the option text is an arbitrary string and the radix an arbitrary number.",
[M+"format_option.rs",M+"regex_parts.rs"],"FormatOption::from_radix maps text to (radix, prefix policy); binary_length accepts the twelve primitive names"),
P("C05","Radix placeholders match exactly the numerals of their base and width",
"A radix placeholder on integer type T matches exactly: an optional sign (`+` or `-` for signed types, only `+` for unsigned), then the prefix (mandatory, optional or absent according to the option, either case), then between one and N ASCII digits of that base in either case, where N is the number of digits of the largest value of T's bit width. In particular every value of T written in that base is matched, a character that is not a digit of that base never is, and no non-ASCII character ever is.",
["configurations","inputs"],"12 integer types x 41 options (x,o,b,#x,x#,...,r2..r36), every input string",
"Tests try a few types and radices with a few inputs, not every digit boundary of every base and width.",
[M+"regex_parts.rs"],"regex_from_radix formats sign, prefix, digit class and repetition bound from radix and bit width"),
P("C06","Radix conversion yields the exact value or ParsingFailed",
"Whenever a radix placeholder on an integer type matched some text, the result is the exact mathematical value of that text (sign, optional prefix and digits in the given base). If that value is outside the type's range the result is a ParsingFailed error; it never wraps, truncates, changes sign or panics, and the most negative value is accepted with and without prefix.",
["configurations","inputs"],"12 integer types x 41 options, every matched text",
"Tests parse a few numbers; the claim covers every value, both signs, with and without prefix, including overflow by one.",
[M+"regex_parts.rs"],"create_converter emits strip_prefix / from_str_radix code that is instantiated per type, radix and prefix policy"),
P("C07","Default integer, NonZero, bool, char and String placeholders round-trip",
"For every value of the primitive integers, the NonZero integers, bool and char (other than a line feed) and for every non-empty single-line String, its Display text is matched by that type's plain placeholder and parses back to the same value; integers also accept a leading `+` (and `-` for signed). Text that is matched but denotes no value of the type (for example a number out of range) is a ParsingFailed error, and text that is not an optional sign followed by digits never matches an integer.",
["inputs"],"every value of every listed type; every input string",
"Documentation tests pin the regex texts and a few values; they do not show that every value's text is in the regex language and within its digit bound.",
["src/regex_representation.rs","src/from_scanf.rs"],"per-type REGEX constants with a digit bound; blanket FromScanf impl via FromStr"),
P("C08","Float placeholders accept the documented float grammar and round-trip",
"The f32 and f64 placeholders match, as whole input, every string of the documented grammar (optional sign, then inf, infinity, nan or a decimal number with optional fraction and exponent, in any letter case). Every f32/f64 value formatted with Display or LowerExp is matched and parses back to the identical value.",
["inputs"],"every float value; every string of the grammar",
"Tests use a few literals; the grammar has unboundedly many strings and 2^64 values.",
["src/regex_representation.rs"],"FLOAT/NUMBER/EXP/SIGN/DIGIT regex constants; blanket FromScanf impl via FromStr"),
P("C09","Placeholders take the right type and yield values in placeholder order",
"In sscanf!-style macros the n-th `{}` without content takes the n-th type parameter, `{i}` takes type parameter i and `{T}` takes T itself, in any mixture and each with any option; the result holds one value per placeholder, in placeholder order, each parsed from that placeholder's own text. Too few types, an index out of range or a type parameter that no placeholder uses is a compile error.",
["programs"],"every sequence of placeholders of the three kinds and every type list",
"Tests fix a few combinations; any mixture, order and repetition of indices has to work.",
[M+"lib.rs",M+"regex_parts.rs",M+"placeholder.rs"],"generate_regex / find_ph_type with a running index and a visited table; RegexParts::new zips parts, placeholders and types"),
P("C10","Derived structs and variants get every field from its one source",
"In a derived struct or variant every field gets its value from exactly one source: the placeholder naming it (by field name or index), the k-th unnamed placeholder for the k-th field that has no other source, or its default; map, filter_map, from and try_from are applied to exactly that field's matched value. A field with no source, with two sources, an unknown field name or a surplus placeholder is a compile error, and a filter_map yielding None or a failing try_from yields ParsingFailed.",
["programs","inputs"],"every field list with any attributes, every order of named/indexed/unnamed placeholders, every input",
"Tests use a few small structs; permutations of placeholders with defaults and conversions are not sampled.",
[M+"derive.rs",M+"attribute/field.rs"],"parse_format assigns placeholder indices to fields in two passes and sorts the emitted initialisers by placeholder index"),
P("C11","Capture groups never shift between placeholders or nested types",
"However structs, enums and plain types are nested and placed next to each other, every placeholder is converted from precisely its own capture groups: nothing is read from a neighbour, skipped twice or left over. For every type produced by the derive, the declared number of captures equals one plus the number of capture groups in its regex and equals the number consumed on every successful parse, so a format without hand-written implementations (and without a custom regex in place of a derived type's own) never panics.",
["programs","inputs"],"every nesting of derived types (any depth, any variant count), every input",
"Capture accounting errors only show for particular nestings (for example a multi-capture variant that is skipped before another field).",
[M+"derive.rs",M+"regex_parts.rs",M+"lib.rs","src/from_scanf.rs"],"NUM_CAPTURES sums; generated from_matches skips non-matching variants with nth and consumes the remaining captures"),
P("C12","Derived enums yield the first matching variant in definition order",
"A derived enum parses to the first variant in definition order whose own format matches the text given to the enum, with that variant's fields; if no variant matches, the enum does not match at all. Variants marked skip, and variants without a format when autogen is absent, are never produced, and their presence changes nothing for the others.",
["programs","inputs"],"every variant list, order and format; every input",
"Tests have a few enums with mostly disjoint formats; overlapping formats and interleaved skipped variants are not sampled.",
[M+"derive.rs",M+"attribute/variant.rs"],"parse_enum builds an ordered alternation and an ordered chain of capture checks"),
P("C13","autogen formats are the documented case conversion of the variant name",
"With autogen, a field-less variant without its own format matches exactly its name converted to the selected case (each of the twelve documented cases, CaseSensitive when no value is given), with CaseInsensitive matching the name in any letter case. An explicit format on a variant overrides the generated one, skip removes the variant, and an unknown case value or a variant with fields is a compile error.",
["programs","inputs"],"every variant identifier and every case option; every input",
"Tests use two or three identifiers per case; word splitting and escaping depend on the identifier.",
[M+"attribute/enum.rs",M+"derive.rs"],"AutoGenKind::from_str / create_struct_attr build a synthetic format literal per variant"),
P("C14","Errors are classified correctly and parsing is total",
"For every input string, parsing with a format built from std and derived types (custom regexes only on types without captures of their own) returns a value or an error and never panics: MatchFailed exactly when the input does not match the format, otherwise ParsingFailed exactly when some placeholder's conversion fails. The reported error is that of the first failing conversion in placeholder order and is reachable through the standard source() chain, with the type names in the message.",
["programs","inputs"],"every format over std/derived types, every input string",
"Tests match on a few error cases; which of several failing placeholders is reported, and totality over all inputs, is not sampled.",
[M+"lib.rs",M+"derive.rs","src/errors.rs","src/from_scanf.rs"],"generated closure chain captures -> matcher -> map_err; Error/source implementations"),
P("C15","T::from_str(s) is equivalent to sscanf!(s, \"{T}\")",
"For every type with a derived or hand-written implementation of the parsing trait, its from_str shortcut returns the same value for exactly the same inputs as sscanf! with the single placeholder for that type, and the same kind of error otherwise. For types that come in through the standard FromStr, the shortcut returns what FromStr returns, with failures as ParsingFailed.",
["programs","inputs"],"every such type, every input string",
"Only a couple of from_str calls are tested, none with a regex that has an alternation at the top level.",
["src/from_scanf.rs"],"FromScanf::from_str default method anchors REGEX and calls from_matches; blanket impl forwards to str::parse"),
P("C16","str, &str and Cow<str> placeholders borrow the exact matched text",
"A str, &str or Cow<str> placeholder or field, under every documented std/core path spelling and with any lifetime, yields precisely the text matched by that placeholder, borrowed from the input (same address, same bytes, for Cow the Borrowed variant). Types that merely look similar are not treated as strings, and references to anything else are rejected at compile time.",
["programs","inputs"],"every spelling of the types, every format around them, every input",
"Tests compare text for a few spellings, not identity with the input slice.",
[M+"ty.rs",M+"regex_parts.rs",M+"derive.rs"],"ty_check recognises the spellings; Converter::Str / CowStr emit as_str / Cow::Borrowed"),
P("C17","sscanf attributes are accepted exactly where and as documented",
"On structs, variants, enums and fields exactly the documented attributes are accepted, at most one per item over all its sscanf attributes; a bare string literal on a struct or variant means format, and format_unescaped when it is a raw literal. An unknown, misplaced, duplicated or conflicting attribute, a missing or superfluous value, and transparent on anything but exactly one field are compile errors; no attribute on an item that takes part in parsing is ever silently ignored.",
["programs"],"every combination of attributes on every kind of item",
"The compile-fail tests list single examples per message.",
[M+"attribute.rs",M+"attribute/field.rs",M+"attribute/struct.rs",M+"attribute/variant.rs",M+"attribute/enum.rs"],"find_attrs / expect_one / find_match over declare_attr tables"),
P("C18","Deprecated wrapper types parse like what they wrap",
"HexNumber matches exactly one or more hex digits in either case with an optional 0x/0X prefix and yields their exact value, or ParsingFailed if it exceeds usize; FullF32 and FullF64 match and parse exactly like f32 and f64. Comparison and dereferencing agree with the wrapped value.",
["inputs"],"every input string and every value",
"Tests parse a few values.",
["src/types.rs"],"FromStr / RegexRepresentation implementations of the wrappers"),
P("C19","The regex macro and the unescaped macro agree with sscanf!",
"sscanf_get_regex! with the same format and types returns a regex that matches exactly the inputs for which sscanf! does not report MatchFailed, and whose n-th capture group for plain types is the text of the n-th placeholder. sscanf_unescaped!, and format_unescaped in derives, differ from the escaped form only in that literal text is taken as regex source: placeholders, `{{`, `}}`, type mapping, options and anchoring behave identically.",
["programs","inputs"],"every format and type list, every input",
"Tests use one example per macro.",
[M+"lib.rs",M+"format_string.rs"],"all macros share generate_regex with an escape flag"),
P("C20","Compile-error squiggles underline exactly the offending part",
"On stable Rust every error about a format string prints the literal exactly as written in the source and underlines with ^ exactly the offending part (the placeholder, its name, its option, the stray brace, or everything from the unclosed bracket on), aligned by display width for any literal prefix and any characters before it.",
["programs"],"every rejected format literal, raw and non-raw, with multi-byte and wide characters",
"The compile-fail tests pin the text for ASCII examples and one non-ASCII one.",
[M+"str_lit.rs",M+"placeholder.rs",M+"format_option.rs",M+"format_string.rs"],"StrLitSlice::error prints the source text and a squiggle line computed from unicode width"),
]
with open("/verif/properties.jsonl","w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props:
    jsonschema.validate(p,sch)
    assert len(p["title"])<=80,p["id"]
    print(p["id"],len(p["statement"].split(". ")))

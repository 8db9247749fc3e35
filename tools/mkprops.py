#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that wording and JSON stay in step)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

QG="src/query/grammar.rs"; SG="src/schema/grammar.rs"; TK="src/tokenizer.rs"; CM="src/common.rs"; FM="src/format.rs"; QF="src/query/format.rs"; SF="src/schema/format.rs"; MN="src/query/minify.rs"; SA="src/schema/ast.rs"; QA="src/query/ast.rs"; HL="src/helpers.rs"

p("C01","parse_query accepts exactly the executable-document language",
"Parsing a query document succeeds if and only if its token sequence is one or more operation or fragment definitions of the executable GraphQL grammar this crate documents (anonymous selection sets, named/unnamed query, mutation and subscription with variable definitions, directives, arguments, aliases, fragment spreads, inline fragments, and all value and type forms). Nothing may follow the last definition, non-empty lists stay non-empty, variables may not occur in variable defaults, and `...on` always starts a type condition.",
["inputs"],"every finite token sequence offered to parse_query",
"About 40 hand-picked accepted documents and two rejected ones; the grammar has hundreds of (state, next token) cells, each of which must accept or reject.",
[QG,CM,HL],[("recursive-descent combinators with one-token lookahead",QG),("value/type/argument/directive parsers",CM)],["result of parse_query (Ok/Err)"])
p("C02","A parsed query AST says exactly what the text says",
"When a query document is accepted, the AST contains every name, alias, argument, variable definition, type, default value, directive, selection and fragment written in the text, with nothing added, dropped, merged, renamed or moved to another node, and in source order. Field lists, list values, nested selection sets and argument order are preserved; object values hold each key once, the last occurrence winning; absent parts are reported as absent.",
["inputs"],"every accepted query document",
"Tests compare printed text for fixed files, or two tiny literal ASTs; combinations of optional parts and repeated elements are never cross-checked against an independent reading of the text.",
[QG,CM,QA],[("AST-building closures",QG),("value/directive/argument builders",CM)],["fields of the Document returned by parse_query"])
p("C03","parse_schema accepts exactly the schema-definition language",
"Parsing a schema document succeeds if and only if its token sequence is one or more schema, type, directive or type-extension definitions of the documented SDL grammar, with descriptions only where the grammar allows them, leading `&`/`|` optional and lists non-empty where required. A schema definition that repeats a root operation or names an unknown one, a type extension that contributes nothing, and an unknown directive location are rejected; every extension that contributes at least one element its kind can carry is accepted.",
["inputs"],"every finite token sequence offered to parse_schema",
"Only accepted sample files are tested; no test rejects a schema document at all.",
[SG,CM,HL],[("SDL combinators",SG),("non-empty-extension and duplicate-root checks",SG)],["result of parse_schema (Ok/Err)"])
p("C04","A parsed schema AST says exactly what the text says",
"When a schema document is accepted, every description, name, implemented interface, field, argument, type wrapper, default value, directive, union member, enum value, root operation, repeatable flag and directive location written in the text appears in the AST on the element it was written for, in source order, and nothing else does.",
["inputs"],"every accepted schema document",
"Tests compare printed text for two dozen fixed files; attachment of descriptions, directives and interfaces is never checked on combinations.",
[SG,SA,CM],[("AST-building closures",SG),("description filled in after the definition is parsed",SG)],["fields of the Document returned by parse_schema"])
p("C05","Ignored characters never change what a document means",
"Inserting spaces, tabs, line breaks, commas, byte-order marks and `#` comments between the tokens of a query or schema document, or removing them where the tokens stay apart without them, never changes whether it is accepted, nor anything in the AST except source positions; inside a string literal those characters are always content, and a comment always extends to the end of its line and no further.",
["inputs"],"every document and every placement of ignorable text between its tokens",
"One tokenizer test with three comment/comma strings; no test compares two layouts of one document.",
[TK],[("whitespace/comment skipper",TK)],["ASTs of differently laid-out versions of the same token sequence"])
p("C06","Text is split into tokens exactly by the lexical grammar",
"Names, punctuators, integers, floats, quoted strings and block strings are recognised with exactly the extent the lexical grammar gives them (longest match; numbers must be followed by a delimiter; a string ends at its first unescaped quote and may not cross a line break; a block string ends at its first unescaped triple quote). Any character or malformed lexeme outside that grammar makes every entry point that reads it fail.",
["inputs"],"every character string",
"Unit tests list about 60 lexemes; boundary combinations (sign, leading zero, exponent, escapes before quotes, adjacent tokens, non-ASCII) are unbounded.",
[TK],[("token recogniser",TK),("integer/float shape checks",TK)],["tokens re-emitted by minify_query; Ok/Err and values from parse_query"])
p("C07","Numeric literals keep their exact value or are rejected",
"An integer literal is accepted exactly when its value fits a signed 64-bit integer and then has exactly that value; a float literal is accepted exactly when it rounds to a finite binary64 number and then has the nearest such value, including the sign of zero. Malformed numbers (leading zeros, missing digits, stray letters, dots or signs) are rejected, never truncated or split; as an unsigned exponent may not begin with `0` (existing test), such literals are rejected as well.",
["inputs"],"every numeric literal in any value position",
"Tests use a dozen literals and one overflow; boundary values at 2^63, exponent forms and float range limits are not covered.",
[TK,CM],[("check_int/check_float/check_exp",TK),("int_value/float_value conversion",CM)],["Int/Float values in the AST"])
p("C08","Quoted string literals decode to exactly the text they denote",
"The value of a quoted string literal is its content with every escape (\\\" \\\\ \\/ \\b \\f \\n \\r \\t and \\u with four hex digits) replaced by the character it denotes and every other character unchanged. A literal containing an unknown escape, a \\u not followed by exactly four hexadecimal digits, or a \\u denoting a surrogate is rejected.",
["inputs"],"every quoted string literal wherever a string may occur (values, descriptions)",
"One unit test with five code points; the other escapes, escape adjacency and malformed escapes are untested.",
[CM,TK],[("unquote_string",CM),("escape tracking in the tokenizer",TK)],["String values and descriptions in the AST"])
p("C09","Block strings decode by the block-string algorithm",
"The value of a block string is its raw text with the common space/tab indentation of all non-blank lines except the first removed, leading and trailing blank lines removed, line breaks (LF or CRLF) normalised to a single line feed, and each \\\"\"\" replaced by three quotes; nothing else is altered (a backslash is otherwise literal, non-ASCII spaces are content, the first line's own indentation is kept).",
["inputs"],"every block string literal wherever a string may occur",
"Four unit tests; interactions of blank lines, short lines, tabs, CRLF, escapes and non-ASCII text are untested.",
[CM,TK],[("unquote_block_string",CM)],["String values and descriptions in the AST"])
p("C10","Every source position in the AST is the exact place in the text",
"Every position in the AST is the one-based line and column of the token that starts the construct (selection sets also record their closing brace), where a line feed (or CRLF, once) starts a new line, a tab outside strings counts eight columns, every other character counts one, and a byte-order mark or carriage return counts none. This holds whatever precedes the construct: comments, commas, multi-line block strings, non-ASCII text in strings.",
["inputs"],"every accepted document, every node",
"Positions are asserted in two one-line documents only; no test has a multi-line, tabbed, commented or non-ASCII prefix.",
[TK,QG,SG,"src/position.rs"],[("position tracking in tokenizer",TK),("position() captures in grammars",QG),("position() captures in grammars",SG)],["position/span fields of AST nodes"],
[("position","line/column of the next token",TK)])
p("C11","Nesting is limited to 50 open brackets, per path and not per document",
"Every entry point accepts an otherwise valid text whose brackets nest at most 50 deep, in any mix of kinds and however many siblings or definitions it has, and rejects with an error, without exhausting the stack, any text whose brackets nest deeper. Closing a bracket always gives its level back.",
["inputs"],"every nesting shape and depth, in parse_query, parse_schema, minify_query and consume_definition",
"One test with one shape at depth 56; the exact boundary, other bracket kinds, siblings and other entry points are untested.",
[TK],[("recursion budget in the tokenizer",TK),("single-slot token cache that keeps re-reads from counting twice",TK)],["Ok/Err at depths around 50"],
[("recursion_limit","remaining bracket budget",TK),("next_state","cached last token",TK)])
p("C12","No input makes any entry point panic, abort or hang",
"For every text, parsing as query or schema, minifying and consuming one definition all return Ok or Err, and every accepted document can be printed under any style and re-read, without panicking, overflowing the stack or looping.",
["inputs"],"every UTF-8 string, including hostile ones",
"Robustness is not tested at all beyond one deep-nesting case.",
[TK,CM,FM,QG,SG,MN],[("slicing on char boundaries",TK),("block string dedent slicing",CM),("indent bookkeeping",FM)],["return of each call; process survival"])
p("C13","Printing a query document loses nothing",
"For every accepted query document and every style (any indent width, single-line or multi-line arguments), the printed text is accepted again and yields the same AST except for positions, including string contents, float values, variable definitions of every operation kind, and directives (a float with an integral value may be written as, and so read back as, the integer literal of that value).",
["inputs","configurations"],"every accepted query document times every style",
"Golden files compare text for about 35 documents, each with one style; strings with unusual content, floats and unnamed operations are not covered.",
[QF,FM,QG],[("Displayable impls",QF),("string quoting and indentation",FM)],["parse_query(format(parse_query(x)))"])
p("C14","Printing a schema document loses nothing",
"For every accepted schema document and every style, the printed text is accepted again and yields the same AST except for positions, including descriptions of any content on any element, default values, interfaces, directives, empty bodies and every extension kind (a float with an integral value may be written as, and so read back as, the integer literal of that value).",
["inputs","configurations"],"every accepted schema document times every style",
"Golden files compare text for about 25 documents under one style.",
[SF,FM,SG],[("Displayable impls",SF),("string quoting and indentation",FM)],["parse_schema(format(parse_schema(x)))"])
p("C15","The printed form is canonical and follows the style",
"The printed text depends only on the AST content and the style: documents differing only in layout print identically and printing is idempotent. It follows the canonical layout: one definition after another separated by one blank line, one selection, field, enum value or input field per line, each nesting level indented by the configured number of spaces, arguments and list/object items one per line when multi-line arguments are on and otherwise separated by a comma and a space.",
["inputs","configurations"],"every accepted document, every style, every layout of the same tokens",
"Golden files pin a few dozen layouts at the default indent; other indents and combinations are not printed by any test.",
[FM,QF,SF],[("Formatter indentation and argument blocks",FM)],["text from Display and format(style)"])
p("C16","Any string value survives being printed",
"For every Unicode string placed in an AST as a string value or description, by parsing or by hand, the printed literal is a single valid string token that decodes to exactly that string, at every nesting depth and under every style.",
["inputs","configurations"],"every Unicode string, every place a string can occur, every style",
"Two golden files with two strings; control characters, characters beyond the BMP, quotes, backslashes, blank or indented lines are untested.",
[FM,CM],[("write_quoted",FM),("unquote_string/unquote_block_string",CM)],["decode(print(s)) = s"])
p("C17","Minifying preserves the token sequence and rejects bad text",
"Minified output consists of exactly the same tokens in the same order with string literals byte for byte unchanged, so it parses to the same AST apart from positions; minifying fails exactly when the text contains something that is not a token of the lexical grammar or nests too deep.",
["inputs"],"every text given to minify_query",
"One document and one error are tested.",
[MN,TK],[("token loop with separator rule",MN)],["minify_query output re-tokenised and re-parsed"])
p("C18","Minified text is minimal and stable",
"Minified output contains no comment, comma, line break, tab, byte-order mark or space outside string literals except a single space between two adjacent tokens that are both not punctuators or between a number and a following `...`; minifying it again returns it unchanged.",
["inputs"],"every text accepted by minify_query",
"One document is tested; idempotence is never tested.",
[MN],[("separator rule",MN)],["minify_query output"])
p("C19","Consuming one definition takes exactly one and returns the rest",
"Consuming a definition returns the same definition that parsing it alone would give and, as remainder, exactly the suffix of the input that starts at the first character after that definition's closing brace and any ignorable text, whatever that suffix contains. Repeating it on the remainder of a valid document yields every definition in order and ends with an empty remainder.",
["inputs","histories"],"every text beginning with a definition and every continuation; every sequence of repeated calls",
"Three short one-line examples.",
[QG,TK],[("consume_definition",QG),("stream offset",TK)],["(definition, remainder) pairs"],
[("off","byte offset of the next token",TK)])
p("C20","A parse error points at the first token that cannot continue",
"When a document is rejected, the line and column in the error are those of the first token (or end of input, or malformed lexeme) at which the text read so far can no longer be completed to a valid document; when the fault is in the meaning of a whole definition (empty extension, bad root operation list) they are those of that definition.",
["inputs"],"every rejected query or schema document",
"Two error files and three inline messages cover five error sites.",
[TK,QG,SG,CM,HL,"src/query/error.rs","src/schema/error.rs"],[("committed-choice combinators",QG),("error positions from the stream",TK)],["line:column in the Display of ParseError"])
p("C21","The AST does not depend on the text representation chosen",
"Parsing the same input with borrowed, owned or copy-on-write text yields ASTs with identical content, positions and printed form, and the same error when rejected; converting an AST or value to its owned, static form changes nothing in it and leaves it valid after the source text is gone.",
["inputs","configurations"],"every input, every text representation",
"Tests use one representation per document and never compare them; conversion to static is not tested.",
[CM,QA,SA,HL],[("Text trait",CM),("into_static",QA),("into_static",SA),("Value::into_static",CM)],["ASTs for &str, String and Cow"])
p("C22","Directive locations and their names correspond one to one",
"Every directive location has exactly one GraphQL spelling and parsing that spelling gives it back; every other spelling (case, prefix, suffix, unknown) is rejected; each location is classified as exactly one of query or schema, and a directive definition reports exactly the locations written, in order.",
["inputs"],"all 19 locations, all strings",
"Golden files use some locations; near-miss spellings and classification are untested.",
[SA,SG],[("DirectiveLocation as_str/from_str/is_query",SA),("directive_locations",SG)],["DirectiveLocation API; DirectiveDefinition.locations"])
p("C23","Any well-formed node built or picked out by hand prints to itself",
"Every printable node on its own (document, definition, selection, field, directive, value, type, input value, extension and so on), whether taken from a parsed document or constructed, prints text which, put where such a node belongs, parses back to an equal node (a float with an integral value may read back as that integer); the default printing equals formatting with the default style.",
["inputs","configurations"],"every well-formed AST node",
"Only whole documents are printed by tests, and only ones that came from the parser.",
[QF,SF,FM],[("Display impls for every node type",QF),("Display impls for every node type",SF)],["to_string() of each node type"])
p("C24","Definitions are independent of their neighbours",
"Parsing a concatenation of accepted documents of one kind, set apart by a line break, gives the concatenation of their definitions, each equal to what it is on its own except that positions shift (only a directive definition that lists no locations can take what follows for its locations, and is left out); parsing, minifying, consuming and printing the same text again, in any order with other calls, successful or not, or at the same time in other threads, gives the same result.",
["inputs","histories"],"every sequence of documents and of calls",
"No test parses more than one document in a stream or compares definitions in and out of context.",
[QG,SG,TK],[("many1(definition) then end of input",QG),("token stream state",TK)],["definitions of concatenated documents"])
p("C25","A parse error names what is in the way",
"The message of a rejected document begins with `query parse error: ` or `schema parse error: ` (by entry point) and `Parse error at <line>:<column>`, and when a whole token cannot continue the document the next line says `Unexpected` with exactly that token's source text and its kind (`Unexpected \x60<text>[<Kind>]\x60`); when the text ends too early it says `Unexpected end of input`.",
["inputs"],"every rejected query or schema document whose fault is a whole token, or the end, in the way",
"Two error files and three inline messages cover five error texts.",
[TK,QG,SG,CM,HL,"src/query/error.rs","src/schema/error.rs"],[("info of the token read",TK),("error merging of the combinators",QG),("error Display","src/query/error.rs")],["Display of ParseError"])
p("C26","Comparing trees tells exactly whether they are the same",
"Two documents of one kind compare equal exactly if they have the same content in the same order at the same positions (0.0 equals -0.0), comparing is symmetric and != is its negation, a clone equals its original and has the same content; positions order by line and then column, agree with their equality, and show as `line:column`.",
["inputs"],"every pair of accepted documents of one kind; every pair of positions",
"Tests compare a handful of trees, never ones that differ in one place, and never order positions.",
[QA,SA,CM,"src/position.rs"],[("PartialEq/Clone of the trees",QA),("PartialEq/Clone of the trees",SA),("values and types",CM),("Pos ordering and Display","src/position.rs")],["==, != and clone() of documents; ordering of Pos"])
p("C27","An error says what is wrong with malformed text",
"When a document is rejected for something other than a whole token in the way or the end of input, the message says what is wrong. For text that is no token: `unexpected character`, `bare dot '.' is not supported, only \"...\"`, `unsupported integer` or `unsupported float` (float exactly if it has a dot or an e), `unterminated string value`, `unterminated block string value`, each as the first line, after `Unexpected `, with the character or the whole number quoted as Rust's {:?} shows it, or `Recursion limit exceeded` for a bracket nested too deep (where the text before is a complete document, parsing may say instead only that the end was expected). For a literal without a value: the bad escape character, bad hex digit, missing digits or invalid code point, a float out of range, an integer too large or too small. For a definition without a meaning: each root operation that is unknown or given twice, an invalid directive location, or what the extension of that kind should contain. minify_query says the same of text that is no token, after `query minify error: `. No other token or text is called unexpected (the end of input may be).",
["inputs"],"every text rejected by parse_query, parse_schema or minify_query for a malformed lexeme, literal or definition",
"Two error files and four inline messages cover a few of the texts, each in one place.",
[TK,CM,SG,MN,"src/query/error.rs","src/schema/error.rs"],[("descriptions of malformed lexemes",TK),("descriptions of literals without a value",CM),("descriptions of definitions without a meaning",SG),("MinifyError",MN)],["Display of ParseError and MinifyError"])
p("C28","Nodes made by constructors contain what was given and nothing else",
"For every text, X::new(text) of each schema definition, extension, enum value and directive definition gives a node with exactly that name, the default position (line 0, column 0), no description and nothing else (empty lists, not repeatable), in every text representation; such a node prints as its bare definition and reads back as itself wherever it is a legal definition. A default schema document is empty, a default schema definition names no operations, and a Number made from an i32 has and prints exactly that value.",
["inputs","configurations"],"every name, every constructor, every text representation, every i32",
"No test calls a constructor.",
[SA,CM],[("new() of the definitions",SA),("From<i32> and as_i64 of Number",CM)],["fields of the nodes; their printed form"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))

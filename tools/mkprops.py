#!/usr/bin/env python3
# Source of /verif/properties.jsonl. Run: python3 tools/mkprops.py > properties.jsonl
import json, sys
out = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    out.append(d)

LEX = ["lexer/lexer.go", "token/token.go", "token/position.go"]
PAR = ["parser/parser.go", "token/token.go"]
AST = ["ast/"]
GEN = ["transforms/codegen/golang/"]
CMD = ["cmd/cddlc/commands.go", "cmd/cddlc/main.go", "cmd/cddlc/commands/generate.go"]

P("L01", "Tokenizing any byte sequence terminates without a crash",
  "Tokenizing any byte sequence (CDDL or not, valid UTF-8 or not) neither panics nor hangs, returns at most one token per source byte before the end-of-file token, and keeps returning the end-of-file token when scanned further. The source buffer handed in is not modified, neither its bytes nor the spare capacity behind it.",
  ["inputs"], "every byte slice, of any length and capacity, including invalid UTF-8, NUL bytes, unterminated literals and truncated operators at the end of the input",
  "TestLexerFuzz samples only well formed token sequences from a small generator; totality is a statement about all byte strings.",
  LEX, [("scan loop and end of input handling", "lexer.(*Lexer).Scan/next/peek"), ("padding byte on a private copy", "lexer.NewLexer")],
  ["tokens returned by Scan", "the caller's buffer before and after"])
P("L02", "Tokens tile the source text losslessly and in order",
  "The tokens of a source appear in strictly increasing offset order without overlapping, each token's text is exactly the source text at its offset (text literals without their quotes, comments without the leading semicolon), and everything between two tokens is whitespace (space, tab, CR, LF). Nothing of the source is lost, duplicated or altered.",
  ["inputs"], "every byte sequence, of any length",
  "Existing tests compare literals of generated single line sources; losslessness quantifies over every interleaving of token kinds, adjacency without whitespace, and malformed text.",
  LEX, [("literal slices taken between the start offset and the read position", "lexer.scan* functions")],
  ["(token, position, literal) stream of Scan"])
P("L03", "Token positions are exact: offset, line and column",
  "Every token, including comments, end-of-file and tokens after comments, blank lines, CRLF or non-ASCII text, reports the byte offset of its first byte, the 1-based line number (1 plus the newlines before it) and the 1-based byte column within that line. Lexical errors carry the position (line, column, offset consistent with each other) at which they were detected.",
  ["inputs"], "every byte sequence, with any number of lines and any line length",
  "Tests check positions on single line or fixed sources; line bookkeeping depends on the whole history of newlines consumed before the token.",
  LEX, [("line offset table", "lexer.(*Lexer).addLineOffset"), ("position construction", "lexer.(*Lexer).Scan/error")],
  ["positions in the Scan stream and in the lexer's error list"],
  [("lineOffsets", "offsets of the newlines seen so far", "lexer.Lexer")])
P("L04", "Tokens are classified as CDDL defines them",
  "Every source is split into the tokens CDDL's lexical rules prescribe with longest match: identifiers ([A-Za-z@_$] then letters, digits, @ _ $ - . and not ending in - or .), the type and value keywords, decimal, 0x, 0b and 0o integers, decimal floats, text literals on one line, comments to the end of line, range operators, choice, assignment, arrow and occurrence operators, and the known control operators. Whatever is none of these, including an unknown control operator, is an illegal token and never an identifier or another token. Every text literal left open on its line is one lexical error, and nothing else is.",
  ["inputs"], "every byte sequence",
  "Tests list a few dozen identifiers and numbers; classification must agree with the lexical grammar for all inputs, in particular adjacent tokens without whitespace.",
  LEX, [("character dispatch", "lexer.(*Lexer).Scan"), ("number scanning", "lexer.(*Lexer).scanNumber"), ("keyword lookup", "token.Lookup")],
  ["(token, literal) stream of Scan compared to an independently written reference lexer"])
P("L05", "A source with a lexical error is never accepted silently",
  "A source containing an illegal token or an unterminated text literal is never parsed without at least one reported diagnostic, whatever surrounds the error and wherever it stands; every text literal left open is reported on its line, however many there are. The tokenizing command exits with failure exactly when the source has illegal tokens.",
  ["inputs"], "every well formed source with one lexical error planted at any position outside comments and text literals",
  "Existing tests have no lexically invalid source at all.",
  LEX + PAR + CMD, [("illegal tokens have no prefix or infix meaning", "parser.(*Parser).parseEntry"), ("lexer errors surface as diagnostics", "parser.(*Parser).ParseFile"), ("illegal count", "cmd/cddlc LexerCmd")],
  ["diagnostics returned by ParseFile", "exit status of `cddlc lex`"])
P("L06", "The source stays the caller's",
  "The bytes handed to the lexer belong to the caller: scanning and parsing change neither them nor the memory behind them, and nothing that was returned depends on them once scanning and parsing have ended. When the caller overwrites or reuses the buffer, as the interactive prompt does with every line, the texts of tokens, syntax trees, diagnostics, the errors of the lexer, the environment and the code generated from the tree stay what they were.",
  ["inputs", "histories"], "every source, every use of its buffer afterwards",
  "Tests hand over string constants that nobody writes to.",
  LEX + PAR + ["environment/environment.go"], [("copy of the source", "lexer.NewLexer"), ("texts are copies", "lexer.(*Lexer).scan*"), ("symbol table keyed by text", "environment.(*Environment).Add")],
  ["the buffer before and after", "tokens, trees, diagnostics, environments and generated code before and after the buffer is overwritten"])
P("T01", "The token vocabulary is coherent",
  "Every keyword and control operator of CDDL that the tool knows maps to the one token whose display name it is, no other word is a keyword, and tokens with different source spellings have different display names. Operator precedences follow RFC 8610 section 3.10 (assignment < // < comma < occurrence < => and : < / < ranges and control operators < & and ~) and all other tokens have the lowest precedence; the predicates for control operators, numeric tokens and literals hold for exactly the tokens of their class.",
  ["inputs"], "every token value and every short word over the vocabulary's alphabet",
  "token_test.go is empty; the tables are written by hand and cross referenced by index.",
  ["token/token.go"], [("name table, keyword table, precedence switch", "token package")],
  ["token.Lookup, Token.String, Token.Precedence, Token.IsControlOp, Token.IsNumeric, Token.IsLiteral"])
P("P01", "Parsing any input terminates without a crash",
  "Parsing any byte sequence terminates without panic, returns a syntax tree value together with a number of diagnostics that is bounded by the number of tokens, and every reported diagnostic can be rendered. The tree returned alongside diagnostics can be walked, formatted and asked for positions without a crash as well.",
  ["inputs"], "every byte sequence and every token sequence, including deeply nested and truncated ones",
  "The tests parse valid sources and one handful of errors; crash freedom on the error paths quantifies over all malformed inputs.",
  PAR + ["parser/diagnostic.go", "ast/"], [("error propagation out of every prefix/infix handler", "parser.(*Parser).parse*"), ("rule level recovery", "parser.(*Parser).ParseFile")],
  ["return values of ParseFile", "Walk/Format/Start/End on the returned tree"])
P("P02", "An accepted source is represented completely and in order",
  "If a source is accepted without diagnostics, its syntax tree accounts for every token of the source in source order: every name, type, literal value, operator, bracket and tag number appears in the tree exactly once with its value, apart from commas, comments and the spelling of the assignment and of the colon or arrow. No part of an accepted definition is dropped, duplicated, reordered or attached elsewhere.",
  ["inputs"], "every source the parser accepts, whether or not it is valid CDDL",
  "Tests compare a few expected trees and TestE2EFast only checks that no error is reported; dropped tokens are invisible to both.",
  PAR + AST, [("every handler stores what it consumed", "parser.(*Parser).parse*"), ("group entry conversion", "ast groupEntry implementations")],
  ["the tree of an error free ParseFile, unparsed to tokens and aligned with the token stream of the source"])
P("P03", "Well formed CDDL parses to the tree its grammar defines",
  "Every well formed definition in the supported subset (rules with =, /=, //=; identifiers; all listed primitive types and literals; type and group choices; ranges; occurrences ?, *, +, n*m; .size, .regexp, .bits and the comparison operators; unwrap, enumeration, tags; groups, arrays and maps of named or unnamed entries, nested up to 10,000 deep, choices of up to 10,000 alternatives) is accepted without diagnostics. Its tree has exactly the structure, operand order, values and operator precedence that RFC 8610 assigns.",
  ["inputs", "programs"], "every schema generated from the supported grammar, with every combination and nesting of its constructs",
  "The parser tests exercise each construct once, at the top level of a rule; combinations and nesting are unbounded.",
  PAR + AST, [("Pratt parser with binding powers", "parser.(*Parser).parseEntry and Token.Precedence"), ("prefix and infix handlers", "parser.NewParser")],
  ["tree returned by ParseFile compared to the abstract model the source was printed from"])
P("P04", "Malformed definitions are rejected",
  "A source that is made malformed by unbalancing or mismatching a bracket, removing a rule's name, assignment operator or value or an operator's operand, putting something else in the place of an assignment operator, doubling a binary operator, putting an assignment or an illegal character inside a definition, leaving a text literal unterminated, writing a number without digits, with a second decimal point or beyond 64 bits, a tag with more than two numbers, a bracketed member key, or an operator whose operand it does not take (a pattern that is no text or name; .size, .regexp or a comparison on a literal or on a type that has no size, is no text or no number), is never accepted without a diagnostic.",
  ["inputs"], "every such mutation at every place of every well formed schema",
  "Tests have only four negative inputs (bad tag, range and control operator operands).",
  PAR, [("expected token checks", "parser.(*Parser).parseRule/expectPeek/parseGroup/parseArray/parseMap/parseTag"), ("missing prefix handlers are errors", "parser.(*Parser).parseEntry")],
  ["diagnostics returned by ParseFile"])
P("P05", "Undefined and duplicate names are reported exactly",
  "For every schema that is otherwise well formed, every reference to a name no rule declares is reported at the position of that reference, and every second and later plain (=) declaration of a name is reported at the position of its name, each with a message that contains the name; nothing else is reported, and a place that the message of a repeated declaration names is one in the first declaration. Forward references, references across =, /= and //= rules, names starting with $, member keys and names in comments or text never cause a report, and names already known from a shared environment count as declared.",
  ["inputs", "histories"], "every arrangement of declarations and references over a set of names, in any order and nesting, over one or several sources sharing an environment",
  "No test checks undefined or duplicate names in a parsed source.",
  PAR + ["environment/environment.go"], [("deferred reference checks", "parser.(*Parser).parseNamedIdentifier, Parser.tasks"), ("declaration on rule completion", "parser.(*Parser).parseRule")],
  ["the set of (diagnostic, position) returned by ParseFile"],
  [("symbols", "declared names", "environment.Environment")])
P("P06", "Range bounds are type checked",
  "A range between two integers or two floats, each written as a literal or as a name declared as such a literal anywhere in the source (before or after), is accepted, and so is a range between two names declared with values of the same kind or with a name that starts with $ and is not declared. A range with an integer and a float bound, with any other undeclared name, with a directly written bound of any other kind, from a literal to a name declared as anything but such a literal, or between two names declared with values of different kinds, is reported. Both hold for the inclusive and the exclusive operator, wherever the range stands.",
  ["inputs"], "every pairing of bound kinds (literal, name, forward name, undeclared, other types) with both operators, at any nesting",
  "TestRange covers two literal pairs; the matrix with forward declared names is untested.",
  PAR, [("bound checks at parse time and as deferred tasks", "parser.(*Parser).parseIntBound/parseFloatBound/parseIdentBound")],
  ["diagnostics of ParseFile against a decision table"])
P("P07", "Layout and comments do not change the meaning of a schema",
  "Re-printing a schema with different whitespace, line breaks, line endings, trailing commas or comments (before rules and entries, before the value or operand that follows an assignment or operator, after rules, after named entries and their commas, before closing brackets) leaves its syntax tree unchanged apart from positions and comments, and stays accepted. Comments standing before a rule or behind a rule or named entry on the same line are kept in the tree verbatim, in order, attached to that rule or entry.",
  ["inputs"], "every pair of layouts of the same schema",
  "Tests use one layout per source and one fixed comment group.",
  PAR + LEX, [("comment handling", "parser.(*Parser).parseComment/parseInnerComment/parseRule/parseColon"), ("same line test", "parser.isSameLineTokens")],
  ["trees of two layouts of one model, with positions erased", "comment nodes"])
P("P08", "Diagnostics point at the offending source text",
  "Every diagnostic's start position is a real position of the source (the first byte of one of its tokens or, for lexical errors, of the error), with line, column and offset consistent, and its printed form names that line and column; its end does not lie before its start, and its message is neither empty nor shows a failed conversion (`%!`). An illegal character in an otherwise well formed source is reported at its own position or at that of the token before it, an undeclared name at its reference, a duplicate at the second declaration's name, and an operand that its operator does not take within the rule it stands in. The command line tool shows, for every diagnostic, its message, the line number and the text of exactly that source line with a marker under the reported column.",
  ["inputs"], "every rejected source",
  "Tests compare the text of a few diagnostics on one line sources.",
  PAR + ["parser/diagnostic.go"] + CMD, [("positions taken from the token that failed", "parser.(*Parser).error*"), ("source excerpt", "errorStringer in cmd/cddlc")],
  ["diagnostics of ParseFile", "stderr of `cddlc parse` and `cddlc generate`"])
P("P09", "Cost grows in proportion to the size of the source",
  "The CPU time and the memory it takes to tokenize a source, to parse it, to walk the tree, to join its diagnostics into a text and to generate code from it grow in proportion to the size of the source: sixteen times as much of the same takes about sixteen times as much, not the square of it. This holds for every shape of source within the nesting limit: long names, texts, comments and lines, wide and deeply nested definitions, many definitions, references, duplicates, comments and errors.",
  ["inputs"], "every family of sources that repeats, nests, widens or lengthens one construct",
  "Tests use sources of a few lines; a quadratic scan or a backtracking parser passes all of them.",
  PAR + LEX + ["environment/environment.go", "ast/astutils/walk.go"] + GEN, [("single pass scanner with one token of lookahead", "lexer.(*Lexer).Scan, parser.(*Parser).next"), ("symbol table", "environment.Environment"), ("joined diagnostics", "parser.ErrorList.String")],
  ["allocations and CPU time of the calls on a source and on one sixteen times its size"])
P("P10", "An error stays where it is",
  "A malformed definition, one that begins with a name and is not what the grammar allows, does not disturb the other definitions of the source, however many there are of both: all definitions before it, and all behind it but for the one that directly follows (which may be taken for its continuation), have the trees and positions they have without it, in the order of the source, and are declared. The diagnostics at places in them are those they have alone, none more and none less, except for references to names whose definition follows a malformed one.",
  ["inputs"], "every source with malformed definitions between well formed ones",
  "The tests look at sources with one error at the end.",
  ["parser/parser.go"], [("recovery at the next rule", "parser ParseFile loop"), ("rule names and assignments", "parser parseRule")],
  ["trees, declared names and places of diagnostics of sources with and without malformed parts"])
P("D01", "Diagnostics and positions render exactly what they hold",
  "A position prints as its file name, line and column separated by colons, without the parts it does not have; moving it by n bytes adds n to offset and column and changes nothing else; a range prints the line and column of its start, the column of its end and, if it is another, the line of its end. A diagnostic reads `<origin> error: <message>` with exactly the given message, its long form adds the range, and its start and end are the given ones. A list of diagnostics reads as all its messages in order, one per line, starts where its first and ends where its last diagnostic does, and collects to itself, or to nil exactly when it is empty. Parsing returns exactly the diagnostics the parser holds, and nil exactly when there is none.",
  ["inputs"], "every position, range, message and list, including empty ones, and the lists of all rejected sources",
  "Tests compare the text of a few diagnostics; the lists and ranges are never looked at.",
  ["parser/diagnostic.go", "token/position.go", "errors/errors.go", "parser/parser.go"], [("position and range texts", "token.Position.String/To, token.PositionRange.String"), ("list views", "parser.ErrorList")],
  ["String, Error, Diagnostic, Start, End, Collect, ParseFile and Errors"])
P("A01", "Nodes know where they start in the source",
  "In the tree of an accepted source, the start position of every node below the root is exactly the offset, line and column of the first token it was parsed from, and operators carry the position of their operator token. Start and end positions of every node can be queried without a crash, and a node's start never lies after the start of any node inside it.",
  ["inputs"], "every node of the tree of every well formed schema in any layout",
  "testWalk compares positions only for leaf types in single line sources.",
  PAR + AST, [("positions captured when a token is consumed", "parser handlers"), ("Start/End methods", "ast node types")],
  ["Start()/End() and Pos of all nodes against the token offsets known to the generator"])
P("A02", "Walking a tree visits every node exactly once in source order",
  "Walking the tree of any source (accepted or not) visits each node exactly once, parents before children and siblings in source order, announces the end of each node's children exactly once, and never panics on any node type. Children are visited with the visitor their parent's visit returned and are skipped when it returned none.",
  ["inputs"], "every tree the parser can build and every visitor that prunes or switches at arbitrary nodes",
  "There is no test of the walker.",
  ["ast/astutils/walk.go"], [("type switch over all node types", "astutils.Walk")],
  ["the sequence of Visit calls against a reflection based enumeration of the tree"])
P("A03", "Formatting a tree is total, deterministic and shows its content",
  "Formatting any node of any parsed tree never panics, always gives the same text for the same tree, which is not empty and shows no failed conversion (`%!`), and does not modify it. The text of an identifier, integer or float literal contains its name or exact value and its line and column, and the text of a type choice or enumeration contains the texts of its operands in order.",
  ["inputs"], "every node of every parsed tree",
  "There is no test of the formatter.",
  ["ast/astutils/print.go"], [("type switch with fallback", "astutils.printer.format")],
  ["astutils.Format output"])
P("A04", "Names and comments of a tree tell what they are",
  "An identifier is a plug exactly if its name starts with two dollar signs, a socket exactly if it starts with one, and plain otherwise; it reaches from its position over the length of its name, and its printed form contains the name. A group of comments reads as the texts of its comments in order, one per line (an absent or empty group as nothing), starts at its first and ends at the end of its last comment. This holds for all identifiers and comments of parsed trees, whose names and texts are those of the source at their positions.",
  ["inputs"], "every name and every sequence of comments, built by hand or parsed",
  "Tests look at two socket names and at one comment group.",
  ["ast/identifier.go", "ast/comment.go"], [("socket and plug predicates", "ast.Identifier.IsSocket/IsPlug"), ("comment text", "ast.CommentGroup.String")],
  ["predicates, texts and positions of identifiers and comments"])
P("A05", "The exported syntax tree is complete",
  "The JSON form of a syntax tree, which is what the parse command prints, exists for every tree that can be parsed (up to the nesting JSON encoding permits) or built, and carries all of it: every node, in its place and in order, every name, text, comment, operator, position and value exactly (bytes that are not UTF-8 as the replacement character), and nothing where the tree has nothing. Exporting changes nothing in the tree, and the indented form has the same content as the compact one.",
  ["inputs"], "every tree: of accepted, rejected and nested sources, and built from any nodes with any values",
  "No test looks at the exported form of a tree.",
  ["ast", "cmd/cddlc/commands.go"], [("export", "commands.ParseCmd: json.MarshalIndent of the tree")],
  ["JSON form of every tree, decoded again"])
P("E01", "The symbol table is a write-once map",
  "After any sequence of operations a name exists in an environment exactly if it was added to that environment before, a lookup returns the value it was first added with, and adding it again fails with the symbol-exists error and changes nothing. Separate environments never influence each other, and looking up never creates a name.",
  ["histories"], "every sequence of add, exists and get over any names (including empty and non-ASCII) and any number of environments",
  "Two unit tests add one symbol and look up one missing symbol.",
  ["environment/environment.go"], [("guarded insertion", "environment.(*Environment).Add")],
  ["results of Add/Exists/Get against a model map"], [("symbols", "name to node", "environment.Environment")])
P("E02", "Parsing declares exactly the definitions of the source",
  "After parsing into an environment, every name the source defines is declared as the very node of the tree that is the value of its first plain (=) definition or, if it has none, of its first extension (/= or //=); names declared before keep their earlier value. Nothing else is declared: neither names that are only referenced, nor member keys, nor the name of a definition that is rejected for its syntax or operand kinds, which also leaves the declarations of other names as they are.",
  ["inputs", "histories"], "every sequence of sources, accepted or not, parsed into one environment",
  "No test looks at the environment after parsing.",
  ["parser/parser.go", "environment/environment.go"], [("declaration on rule completion", "parser.(*Parser).parseRule"), ("extensions declared before references are checked", "parser.(*Parser).ParseFile")],
  ["Exists and Get of the environment for all names of the sources"],
  [("symbols", "declared names and their values", "environment.Environment")])
P("X01", "Results depend only on the input, also under concurrency",
  "Tokenizing, parsing, formatting, generating code, loading configurations and evaluating validators give the same result for the same input every time, no matter what was processed before or is processed at the same time by other goroutines, and run without data races. Input buffers shared by several goroutines are only read.",
  ["schedules", "histories"], "every interleaving of independent uses of the library in one process, and every order of repeated uses",
  "No test runs anything concurrently or twice.",
  LEX + PAR + GEN + ["config/config.go", "ast/astutils/"], [("no mutable package level state", "token.keywords, gogen converters"), ("per instance state", "Lexer, Parser, Generator, Environment")],
  ["Go race detector reports", "digests of concurrent results against sequential ones"])
P("X02", "Results do not depend on the platform",
  "The library and the tool build for other platforms (32 bits, Windows, WebAssembly, other processor levels) as they do for the one at hand, and every build gives the same results for the same input: tokens with their positions and texts, trees, diagnostics, formatted trees, environments of sessions, generated code, configurations, verdicts of the validators for values of fixed size; outputs, exit status and files of the tool on the same system. In particular numbers of up to 64 bits have the same value whatever the width of a machine word is. Not meant are the texts of errors of the operating system and what the doctor command prints.",
  ["inputs"], "every input on every platform",
  "The tests run on one platform.",
  ["lexer/lexer.go", "parser/parser.go", "transforms/codegen/golang/", "runtime/validators/validators.go", "cmd/cddlc/"], [("number literals", "parser number parsing"), ("literals in generated code", "gogen transpileIntegerLiteral"), ("comparisons", "validators package")],
  ["complete results of builds for several platforms"])
P("G01", "Generated Go compiles",
  "For every accepted schema that uses only constructs the README lists as supported for code generation (identifiers and primitive types and literals) plus groups and arrays of named fields of them, whose references name types that do not contain themselves and whose names become distinct exported Go identifiers, generated code for any package name is formatted Go that parses and type-checks. Every generated type has a validity method callable on it that reports no error.",
  ["inputs", "programs"], "every schema in the supported subset, any number of rules, any such names",
  "TestGen prints the output for one schema and checks nothing.",
  GEN, [("translation of nodes", "gogen.(*Generator).Visit/transpile*"), ("syntax check of the output", "gogen.(*Generator).String")],
  ["output of the generator fed to go/parser, go/format and go/types"])
P("G02", "Generated Go mirrors the schema",
  "The generated declarations correspond one to one and in order to the schema's rules: names in camel case (those of sockets and plugs as they are, without their dollar signs, integer keys prefixed, a field that would be called like the validity method suffixed with an underscore), tstr/text as string, bstr/bytes as byte slice, int/nint as int, uint as uint, float and float64 as float64, float16/float32 as float32, bool as bool, null as empty struct, groups as structs with one field per entry in order, arrays as structs marked toarray, optional fields marked omitempty, references as the referenced name, and literal rules as variables with exactly the literal's value. The file has the requested package name, and a field given by a literal has that literal's type.",
  ["inputs", "programs"], "every schema in the supported code generation subset",
  "TestGen does not look at the output.",
  GEN, [("type mapping", "gogen base type functions"), ("struct assembly", "gogen.transpileGroupLike/transpileArray/transpileEntry"), ("literals", "gogen literal functions")],
  ["the parsed and type-checked output against the model the schema was printed from"])
P("G03", "Code generation is pure and fails loudly",
  "Generating code twice from the same tree or source gives identical output and leaves the tree unmodified. Whatever the schema, the generator either writes complete Go source that parses or fails (error or panic) and writes nothing: it never reports success for output that is not Go, that declares a name more than once or uses a value as a type, or that leaves out a rule, an entry or a nested entry, and an error of the destination is returned to the caller.",
  ["inputs", "fault_sequences"], "every accepted schema, supported for generation or not, and every failing destination",
  "TestGen ignores the result of writing the output.",
  GEN, [("syntax check before writing", "gogen.(*Generator).String"), ("write error propagation", "gogen.(*Generator).String")],
  ["bytes received by the destination and the returned error"])
P("V01", "Numeric validators decide their relation exactly",
  "For every numeric type and all values including extremes, NaN, infinities and signed zeros: the inclusive and exclusive range validators, less-than and greater-than hold exactly when the value satisfies the mathematical relation with the bounds. The size validator holds for fixed size scalars exactly when the value's byte size is below the given size.",
  ["inputs"], "every value triple of every integer and float type",
  "The validators have no tests.",
  ["runtime/validators/validators.go"], [("generic comparisons", "validators package")],
  ["validator results against an oracle in big-rational arithmetic"])
P("V02", "Pattern and assertion validators are faithful",
  "The pattern validator holds exactly when the compiled pattern matches the text anywhere, for every pattern and text including empty and invalid UTF-8 ones. The boolean and error assertions panic exactly when given false or an error, with the error itself as the panic value.",
  ["inputs"], "every pattern and text; every boolean and error value",
  "The validators have no tests.",
  ["runtime/validators/validators.go"], [("delegation to regexp", "validators.RegexpMatches"), ("panics", "validators.MustBool/MustNotErr")],
  ["validator results and recovered panic values"])
P("G04", "Generated code leaves out nothing silently",
  "Two schemas that differ in the meaning of one type (a range, a choice, a control, a tag, an occurrence, a map, an unwrapping, an enumeration, an additional or unnamed entry, in place of a plain type or of each other) never yield the same code: generation of what there is no code for fails with a reason and writes nothing, at whatever place of the schema and whatever else the schema contains. What is generated without an error is Go. Not meant are literals in fields, which stand for their type.",
  ["inputs", "programs"], "every accepted schema, of supported and unsupported constructs, in every position",
  "No test generates code for a construct that is not supported.",
  GEN, [("translation of nodes", "gogen.transpileNode: unexpected types"), ("entries", "gogen.transpileGroupLike"), ("syntax check of the output", "gogen.(*Generator).String")],
  ["code, or error, of schemas that differ in one type"])
P("F01", "Configuration files load faithfully or not at all",
  "A configuration written as JSON or YAML loads to exactly the values written, equal for both formats, independent of key order and with absent fields left empty; a malformed file, a value of the wrong type, a missing file or a file of another name is an error and yields no configuration. Loading never changes files and releases every file it opens; a configuration is valid exactly if all its local plugin paths are existing directories, and generator options exactly if they name one of the case conversions camelcase and snakecase.",
  ["inputs", "configurations"], "every configuration value and every malformed variant of its encodings",
  "The config package has no tests.",
  ["config/config.go", "transforms/codegen/golang/options.go"], [("decoding by base name", "config.LoadConfig"), ("plugin checks", "config.(*Config).Valid")],
  ["loaded values, open descriptors of the process, directory contents"])
P("F02", "init creates the configuration once and never overwrites",
  "Initializing a directory without a configuration creates one that its owner can read and change, loads as the default configuration and lets generate work; if anything already exists at that path it fails and leaves it byte for byte unchanged. When any number of initializations run at the same time, exactly one succeeds, all others fail, and the file is complete. An initialization that cannot write the whole file fails and leaves nothing behind.",
  ["schedules", "histories"], "every interleaving of concurrent inits in goroutines and processes, and every pre-existing content (file, empty file, directory, dangling link), and every length at which writing fails",
  "The commands have no tests.",
  ["cmd/cddlc/commands/init.go", "config/config.go"], [("exclusive creation", "commands.getFileHandle")],
  ["results of concurrent init calls and the final file"])
P("C01", "generate maps every schema to its own output and nothing else",
  "A successful generate writes, for every configured build, exactly one file <output>/<name>.go per <source>/<name>.cddl, whose content is the header, a comment whatever the command line, plus the library's output for that schema and package, replacing any older output completely; no other file is created, changed or removed, and what is created can be used by its owner. This holds as well when several runs work on the project at the same time, and after a run that was killed. The configuration in the working directory is used, JSON before YAML before the built-in default.",
  ["inputs", "configurations", "histories"], "every project layout, set of schemas, builds and earlier outputs",
  "The commands have no tests.",
  CMD + ["config/config.go", "transforms/codegen/golang/"], [("build loop", "commands.GenerateCmd"), ("output path", "commands.GenerateCmd"), ("configuration lookup", "commands.loadConfigFromDir")],
  ["file tree before and after `cddlc generate`"])
P("C02", "A failing generate is loud and keeps earlier outputs",
  "When generate cannot complete (schema with errors, unsupported construct, broken configuration, missing or unusable directory, failing write) it exits with failure and a message, without a crash trace. The output file of a schema that is rejected or cannot be generated keeps its earlier content or stays absent, and whenever generate exits successfully all outputs are complete.",
  ["fault_sequences", "inputs", "configurations"], "every kind of failure at every build and file position, and a write failing at every byte count of the output",
  "The commands have no tests, and no test injects a failure.",
  CMD + ["transforms/codegen/golang/gen.go"], [("generate to memory, then write", "commands.generateFile"), ("recovery of generator failures", "commands.visit"), ("error propagation to the exit status", "cmd/cddlc main")],
  ["exit status, stderr and file tree of `cddlc generate`"])
P("C03", "The lex and parse commands report what the library computes",
  "The tokenizing command prints one line per token up to and including end-of-file with position, token and text as the library yields them; the parsing command prints the library's tree as JSON and every diagnostic, whatever the size of the source and whether it is a regular file, a link to one or a pipe. A missing or unreadable file, a wrong number of arguments, or a tree that is nested too deep to be encoded as JSON is a failure, and the source file is never changed.",
  ["inputs"], "every source file",
  "The commands have no tests.",
  CMD, [("token loop", "cmd/cddlc LexerCmd"), ("tree output", "cmd/cddlc ParseCmd")],
  ["stdout, stderr and exit status of the commands against the library called in process"])
P("C04", "A REPL session accumulates definitions line by line",
  "An interactive session behaves like parsing its lines one after another into one environment: every line's diagnostics are those of the library given all names declared by earlier lines, commands starting with a colon never define names, and no line, however malformed, ends or crashes the session. A name's tree shown on request is that of its first accepted definition.",
  ["histories", "inputs"], "every sequence of lines",
  "The REPL has no tests.",
  ["cmd/cddlc/commands/repl.go", "environment/environment.go", "parser/parser.go"], [("shared environment across lines", "commands.Repl")],
  ["the session's transcript against a model session over the library"])

P("C05", "Every invocation of the tool is decided, and only two commands write",
  "Whatever the arguments, the tool ends with success, or with failure and a message on standard error, without a crash trace and without failed conversions (`%!`) in what it prints. Unknown commands and flags and wrong numbers of arguments to lex and parse are failures; without arguments and with help it lists its commands and succeeds; doctor names the platform of the build and succeeds; gen does what generate does. No command other than init and generate creates, changes or removes a file.",
  ["inputs"], "every list of arguments, in every directory",
  "The commands have no tests.",
  ["cmd/cddlc/main.go", "cmd/cddlc/commands.go", "cmd/cddlc/commands/"], [("command table and error exit", "cmd/cddlc main"), ("argument counts", "cmd/cddlc checkArgs")],
  ["exit status, output and file tree of invocations"])
P("C06", "What the commands print arrives, or they say that it does not",
  "lex, parse and doctor write all of their output to every standard output that takes it, however slowly it is read and whatever kind of file it is, with the same bytes and the same exit status. If the standard output does not take all of it (a full device, a size limit, a descriptor that can not be written, a pipe whose reader went away), the command does not succeed: it ends with a failure and a message on standard error or by the signal for a broken pipe, and what it wrote before is the beginning of the output. No failing destination makes a failing invocation succeed.",
  ["faults", "inputs"], "every source file and every standard output",
  "The commands have no tests.",
  ["cmd/cddlc/commands.go", "cmd/cddlc/main.go"], [("output of tokens, tree and platform", "cmd/cddlc LexerCmd, ParseCmd, DoctorCmd"), ("error exit", "cmd/cddlc main")],
  ["bytes that reached the destination, exit status and messages under write faults"])

for d in out:
    print(json.dumps(d, ensure_ascii=False))

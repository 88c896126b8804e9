#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py > properties.jsonl)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

LX="lexer/src/lib.rs"
p("L01","Source text splits into the tokens of the ECMAScript lexical grammar",
  "For every source text, reading it to the end yields exactly the tokens the ECMAScript lexical grammar prescribes under longest match (punctuators, names, keywords and literals, with their values), or an error exactly where no token of the grammar can be formed. The operators `&&=`, `||=`, `??=`, BigInt suffixes and legacy zero-prefixed numbers are not part of the supported language.",
  ["inputs"],"every string of characters up to a length bound over alphabets that cover each punctuator, name, literal and comment start",
  "The tests tokenise a few dozen hand-written strings; longest match is a statement about every adjacent pair or triple of characters.",
  [LX,"lexer/src/token.rs","lexer/src/code_point.rs","lexer/src/unicode_escape_sequence.rs"],
  [("character dispatch with one character of look-ahead",LX),("keyword lookup","lexer/src/token.rs")],["Lexer::read","Lexer::read_all"])
p("L02","Token positions exactly cover the source",
  "Every token carries the byte range of exactly its own characters: ranges start and end on character boundaries, follow one another without overlap, and the text between two of them consists only of white space and comments. Reading the text of one range on its own gives the same token again.",
  ["inputs"],"every source text, including any mix of one- to four-byte characters and multi-line input",
  "Tests assert positions on ASCII samples; the positions depend on every character before the token.",
  [LX,"common/src/io.rs","common/src/io/char_reader.rs"],[("running end position of the character reader","common/src/io/char_reader.rs")],["Token.span"])
p("L03","Numeric literals follow the numeric grammar",
  "A numeric literal is accepted exactly when it is a decimal, hexadecimal, octal or binary literal of the grammar with separators only between digits, and is not directly followed by a digit or a name character. Its recorded text is the source text, and it ends where the longest such literal ends.",
  ["inputs"],"every string up to a length bound over digits, radix and exponent letters, dots, signs, underscores and names",
  "The rules interact (separator next to dot, exponent after a dot, radix prefix without digits); the tests hold about thirty literals.",
  ["lexer/src/number.rs"],[("digit-run reader with separator checks","lexer/src/number.rs")],["Lexer::read"])
p("L04","String literals decode to the value they denote",
  "A string literal ends at the first unescaped matching quote, is rejected when a raw line break or the end of the text comes first or an escape is malformed, and its value is the character sequence its source text denotes with every escape decoded; a line continuation contributes the line break it escapes. Two literals with different denotations never get the same value.",
  ["inputs"],"every string up to a length bound over both quotes, backslash, escape letters, hex digits and line terminators",
  "Tests hold ten literals, none with a named or numeric escape.",
  ["lexer/src/string.rs"],[("escape decoding","lexer/src/string.rs")],["LitString"])
p("L05","Template and regular-expression literals keep their exact source text",
  "A template literal is cut into its text pieces and substitutions exactly at each unescaped `${` and its matching brace, and each piece keeps its source characters unchanged. A regular expression read where one is allowed ends at the first slash that is neither escaped nor inside a class, keeps its exact text and flags, and is rejected when a line terminator or the end of the text comes first.",
  ["inputs"],"every string up to a length bound over backtick, dollar, braces, backslash, slash, brackets and line terminators",
  "Tests hold a handful of templates and regular expressions without escapes at the delimiters.",
  [LX,"lexer/src/regexp.rs","parser/src/literal.rs"],[("goal-dependent re-read of a token","common/src/io.rs"),("template part reader",LX)],["Literal::Template","Literal::Regexp"])
p("L06","Comments and line breaks are recognised exactly",
  "A token is marked as first on its line exactly when it is the first token or some line terminator (alone, inside a comment or ending one) lies between it and the previous token. White space, line comments, block comments and, in scripts only, HTML-like comments contribute nothing else to the tokens; an unterminated block comment is an error.",
  ["inputs"],"every string up to a length bound over slash, star, angle bracket, exclamation mark, minus, names and all four line terminators, in script and module mode",
  "Automatic semicolons hang on this flag; tests sample about ten layouts and only line feeds.",
  [LX],[("first_on_line flag",LX),("html comment mode",LX)],["Token.first_on_line"],
  [("first_on_line","a line break was crossed since the last token",LX)])
p("L07","Going back and re-reading tokens is invisible",
  "After any sequence of looking ahead, consuming, going back to an earlier token and re-reading the current token under another lexical goal, a token reader shows exactly the current token and look-ahead token that a fresh reader would show having consumed only the tokens that remain consumed, and, once a token has been consumed, the same position. Re-reading a token, even when that fails, never changes how later tokens are read; a token re-read as the rest of a template is not marked as first on its line.",
  ["histories"],"every operation sequence up to a depth over every short token text, for the character reader and the lexer",
  "Backtracking drives every ambiguous construct; the two-slot look-ahead with its saved state is untested in isolation.",
  ["common/src/io.rs",LX],[("PeekReader","common/src/io.rs"),("state swap while re-reading",LX)],["PeekReader::current","PeekReader::peek","PeekReader::consume"],
  [("current/next/position","two-slot look-ahead window","common/src/io.rs")])
p("P01","Parsing always returns, with a tree or an error",
  "For every text, whether parsed as script, module, statement or expression, parsing terminates and returns a tree or an error, and never panics; neither does rendering that error. (Nesting deeper than the process stack holds is outside the property, and so is how long deeply nested arrow-parameter defaults take.)",
  ["inputs"],"every character string and every token sequence up to length bounds, in all parse modes",
  "A panic needs an unusual input; every test input was written to parse or to fail in one foreseen way.",
  ["parser/src","lexer/src","common/src/io.rs","parser/src/error/emitter.rs"],[("error propagation","parser/src/error/mod.rs")],["parse","ErrorEmitter::emit_error"])
p("P02","Operator expressions have the grammar's structure",
  "Every expression built from the supported unary, update, binary, logical, conditional, assignment and sequence operators is accepted exactly when the ECMAScript grammar derives it (including the rules that exponentiation takes no bare unary operand on its left, that coalescing does not mix with and/or, and that an assigned operand is a valid target). The tree returned is the derivation: the grammar's precedence and associativity, with parentheses recorded.",
  ["programs"],"every token sequence up to a length bound over the operators and operands",
  "Precedence is a property of all operator pairs and triples; the tests hold single operators.",
  ["parser/src/binary_expr.rs","parser/src/expr.rs","parser/src/static_semantics/mod.rs"],[("one function per precedence level","parser/src/binary_expr.rs")],["parse"])
p("P03","Member, call, new, optional and template chains nest as the grammar says",
  "Every chain of property access, computed access, calls, `new`, optional links, tagged templates, `super`, `import(...)`, `import.meta` and `new.target` is accepted exactly when the grammar derives it, and each link applies to the whole chain on its left, with arguments of `new` bound to the innermost unmatched `new`.",
  ["programs"],"every token sequence up to a length bound over the chain tokens",
  "The interaction of `new` with calls and optional links is decided by sequences of four or more tokens the tests do not combine.",
  ["parser/src/expr.rs","parser/src/member_access.rs"],[("member/call loops","parser/src/expr.rs")],["parse"])
p("P04","Destructuring patterns are told apart from literals correctly",
  "In every binding or assignment position, an array or object text is read as a pattern exactly when the grammar says so and is accepted exactly when it is a valid pattern; elsewhere it is a literal. The tree lists every element, hole, default and rest target in order, with none added or lost.",
  ["programs"],"every token sequence up to a length bound over brackets, commas, names, defaults, rest and assignment",
  "The parser decides by trying and going back; the tests hold a few patterns each.",
  ["parser/src/assignment_pattern.rs","parser/src/binding.rs","parser/src/expr.rs","parser/src/literal.rs"],[("retry as pattern","parser/src/expr.rs")],["parse"])
p("P05","Functions, generators, async functions and arrows parse as the grammar says",
  "Every function declaration or expression, generator, async form and arrow function is accepted exactly when the grammar derives it, with its kind, name, parameters and body in the tree; a parenthesised text is an arrow's parameters exactly when an arrow follows on the same line and the grammar allows an arrow function at that place.",
  ["programs"],"every token sequence up to a length bound over function, arrow, parenthesis, async, yield and await tokens",
  "Arrow detection works by going back after the fact; tests sample single arrows.",
  ["parser/src/function.rs","parser/src/cover.rs","parser/src/expr.rs"],[("cover-grammar recovery by error","parser/src/cover.rs")],["parse"])
p("P06","Object literals, classes and methods parse as the grammar says",
  "Every object literal, class declaration and class expression is accepted exactly when the grammar derives it together with the supported checks on methods (accessor parameter counts, repeated method parameter names, where `super` may stand). Each member keeps its kind, name form, static, async and generator marks, and words such as get, set, async and static are modifiers only where the grammar makes them so.",
  ["programs"],"every token sequence up to a length bound over the member tokens and modifier words",
  "Whether `get` is a modifier depends on the following token; tests hold the common forms only.",
  ["parser/src/class.rs","parser/src/method.rs","parser/src/literal.rs","parser/src/static_semantics/mod.rs"],[("method look-ahead","parser/src/literal.rs")],["parse"])
p("P07","Statements nest as the grammar says",
  "Every sequence of statements (blocks, conditionals, switch, try, labels, jumps, loops without declarations, declarations) is accepted exactly when the grammar derives it, declarations are accepted only where a declaration may stand, and the tree groups them as derived, an `else` belonging to the nearest open `if`.",
  ["programs"],"every token sequence up to a length bound over the statement keywords",
  "Nesting is unbounded; tests hold one statement at a time.",
  ["parser/src/stmt.rs","parser/src/iteration.rs","parser/src/variable.rs"],[("statement dispatch","parser/src/stmt.rs")],["parse"])
p("P08","For-loop heads are classified correctly",
  "Every `for` head is read as the three-part, `in` or `of` (or, in async code, `for await`) form exactly as the grammar derives it, with declarations, patterns and expressions in the right place and `in` not taken as an operator where the grammar forbids it; every other head is rejected.",
  ["programs"],"every token sequence up to a length bound over the tokens of loop heads",
  "The parser tries one form and goes back on any failure; tests hold one example per form.",
  ["parser/src/iteration.rs"],[("try then rewind","parser/src/iteration.rs")],["parse"])
p("P09","Import and export declarations parse as the grammar says, and only in modules",
  "Every import and export declaration is accepted exactly when the grammar derives it at the top level of a module, with local and external names, default, namespace and source recorded as written; none is accepted in a script or nested in another statement. A module is always strict.",
  ["programs","configurations"],"every token sequence up to a length bound over the import and export tokens, parsed as script and as module",
  "Tests hold one example per clause form.",
  ["parser/src/module.rs","parser/src/stmt.rs","parser/src/lib.rs"],[("source type check","parser/src/stmt.rs")],["parse_module","parse_script"])
p("P10","Semicolons are inserted exactly where the rules insert them",
  "A missing statement end is accepted exactly when the next token is a closing brace, is the end of the text, or stands on a new line and could not continue the statement, or after a do-while; never in a loop head and never to make an empty statement. After return, break, continue, yield, postfix operators, async and arrow parameters a line break ends or forbids the construct as the grammar's no-line-break rules say.",
  ["programs"],"every token sequence up to a length bound with a line break present or absent between every two tokens",
  "The rule quantifies over every token pair and line break; tests hold about twenty layouts.",
  ["parser/src/stmt.rs","parser/src/lib.rs","parser/src/variable.rs","parser/src/expr.rs"],[("can_insert_semicolon","parser/src/lib.rs")],["parse"])
p("P11","Parsing context never leaks across function and class boundaries",
  "Whether yield, await, return, super access, super calls, strict-only words and the `in` operator are available at a point depends only on the constructs that enclose that point as the grammar says: each function, method, arrow, accessor, class, loop head, parameter list, template and bracket sets or restores them, at any nesting.",
  ["programs"],"every nesting of context constructs up to a depth around every probe",
  "Leaks need two or three specific constructs inside one another; the tests nest at most one.",
  ["parser/src/lib.rs","parser/src/function.rs","parser/src/method.rs","parser/src/class.rs","parser/src/expr.rs"],[("Context copied per production","parser/src/lib.rs")],["parse"],
  [("Context","production parameters and method flags","parser/src/lib.rs")])
p("P12","A strict-mode directive governs exactly its own body",
  "The leading string statements of a program or function body, and no others, are recorded as its directives, in order. The strict rules the parser enforces (reserved words, assignment to eval or arguments, deletion of a plain name, `with`) apply to a piece of code after its directives exactly when one of them, or one of an enclosing body, is the strict directive, or when it is in a class or module. A strict directive is refused in a function whose parameter list is not a plain list of names.",
  ["programs"],"every arrangement of directives, other statements and probes in nested bodies up to a bound",
  "The tests hold one strict program and one strict function.",
  ["parser/src/lib.rs","parser/src/function.rs","parser/src/static_semantics/mod.rs"],[("directive prologue","parser/src/lib.rs")],["Body.directives","StmtList.directives"])
p("P13","Every tree node's range is the text it was read from",
  "In every tree, each node's byte range starts at its first token and ends at its last, so that ranges of children lie within their parent's, siblings follow each other in order, and the text in the range is the node's own source.",
  ["programs"],"every accepted program of the explored spaces",
  "Ranges depend on all text before and on every backtrack; tests compare them on samples only.",
  ["parser/src","ast/src/span.rs"],[("span_from(position)","parser/src/lib.rs")],["Spanned::span"])
p("P14","Layout between tokens does not change the tree",
  "Adding or replacing white space and comments between two tokens, without adding or removing a line break that the grammar looks at, changes neither acceptance nor the tree apart from the ranges, and the ranges move exactly with the text.",
  ["programs"],"every explored program under every placement of each layout element between two tokens",
  "Comments next to regular expressions, templates and re-read tokens hit the backtracking paths; tests place comments in six files.",
  [LX,"parser/src"],[("skip_comments_and_white_spaces",LX)],["parse"])
p("P15","Errors point at the source and are rendered at that place",
  "The position of every reported error lies within the source on character boundaries, covers the token that the message names, cuts through no token that was read, and moves with the text when text is put before it; an error that has no position is one of the end of the text. The rendered message shows the right file, line number and column (lines are divided by line feeds), and the source line with the marker below the offending text.",
  ["inputs"],"every rejected text of the explored spaces, including multi-line and non-ASCII ones",
  "Tests render about a hundred one-line ASCII errors.",
  ["parser/src/error/mod.rs","parser/src/error/emitter.rs"],[("line boundaries","parser/src/error/emitter.rs")],["ErrorEmitter::emit_error"])
p("P16","Parse entry points agree with each other",
  "Parsing is a function of the text and mode alone: a single statement or expression parsed on its own gives the same tree as inside a program, a statement list is the concatenation of its statements, and a text that is already strict, without HTML-like comments, await names, imports or exports means the same as script and as module.",
  ["programs","configurations"],"every explored statement, expression and pair of statements",
  "Tests parse each sample through one entry point.",
  ["parser/src/lib.rs"],[("Parse trait","parser/src/lib.rs")],["parse","parse_script","parse_module"])
p("G01","Pretty output means the same program",
  "For every program the parser accepts, the pretty-printed text parses in the same mode to the same tree up to positions. Printing leaves the tree it is given as it was.",
  ["programs"],"every accepted program of the explored spaces and every nesting of constructs up to a depth",
  "The output comparison in the test runner is disabled, so no test reaches the generator.",
  ["codegen/src/lib.rs"],[("visitor emitting text","codegen/src/lib.rs")],["generate_code"])
p("G02","Minified output means the same program",
  "For every program the parser accepts, the minified text parses in the same mode to the same tree up to positions, parentheses and empty statements included; only an empty statement at the end of a statement list may be left out.",
  ["programs"],"every accepted program of the explored spaces and every nesting of constructs up to a depth",
  "Dropping a space or semicolon is safe only depending on both neighbours; the output comparison in the test runner is disabled.",
  ["codegen/src/lib.rs"],[("must_add_space_before","codegen/src/lib.rs")],["generate_code"])
p("G03","Formatting is a fixed point and minified output is lean",
  "Formatting the parsed result of formatted output gives the same text again, in both styles (up to empty statements that minified output leaves out at the end of a list). Minified output contains no line break outside literals, no space except after a word or between two operators that would run together, and, where no empty statement ends a list, no semicolon to spare in front of a closing brace or the end except after `)`.",
  ["programs"],"every accepted program of the explored spaces",
  "No test runs the generator on its own output.",
  ["codegen/src/lib.rs"],[("pretty/minified switch","codegen/src/lib.rs")],["generate_code"])
p("G04","Pretty output is laid out by its structure",
  "In pretty-printed text every directive, statement of a list, switch case, class member, `if` branch, `else` and the `while` of a `do` begins its own line, indented by four columns for each block, body, class, switch, case and `if` branch around it; the closing brace of a block, body, class or switch that is not empty begins a line, indented as what is around it; and in a declaration list what follows an initialised name begins a line below the first name. Nowhere else does a line begin outside literals, tokens are apart by at most one space, no line ends in a space, and an empty line stands exactly before every function declaration that neither opens its block or body nor is exported.",
  ["programs"],"every accepted program of the explored spaces and every nesting of constructs up to a depth",
  "The output comparison in the test runner is disabled, so no test reaches the generator.",
  ["codegen/src/lib.rs"],[("with_indent, with_align, new_line","codegen/src/lib.rs")],["generate_code"])
p("T01","A visitor sees every node exactly once, in source order",
  "Walking any tree enters every node that has a hook exactly once, parents before children and siblings in source order, operators included, and leaves it exactly once after its children; every hook receives the very node of the tree. The tracing visitor lists exactly these calls.",
  ["programs"],"the tree of every accepted program of the explored spaces",
  "No test walks a tree.",
  ["ast/src/traverse/mod.rs","ast/src/traverse/macros.rs"],[("traverse_node!","ast/src/traverse/macros.rs")],["Traverse::traverse"])
p("T02","Refusing a node skips exactly its subtree",
  "When a visitor declines to enter a node, exactly the nodes below it are not visited; everything else is visited as before.",
  ["programs","histories"],"every choice of one declined node in the tree of every explored program",
  "No test walks a tree.",
  ["ast/src/traverse/macros.rs"],[("enter_* return value","ast/src/traverse/macros.rs")],["Traverse::traverse"])
p("T03","What a visitor changes is changed in the tree, and nothing else",
  "A change that a visitor makes to a node when entering or leaving it is seen by the node's later hook and is in the tree after the walk. A walk leaves everything else as it was: one that changes nothing, or takes back what it changed, leaves an equal tree, whichever nodes it refuses.",
  ["programs","histories"],"a change of every node of the tree of every explored program, and every choice of one declined node",
  "No test walks a tree.",
  ["ast/src/traverse/mod.rs","ast/src/traverse/macros.rs"],[("generate_fold_and_visit!","ast/src/traverse/macros.rs")],["Traverse::traverse"])
p("A01","Trees survive serialisation",
  "Writing any tree to JSON and reading it back yields an equal tree, positions included.",
  ["programs"],"the tree of every explored program",
  "Tests deserialise sampled trees; they never write one and read it back.",
  ["ast/src/span.rs","ast/src/macros/mod.rs"],[("serde derive and Span text form","ast/src/span.rs")],["serde_json"])
p("A02","Operator and keyword names convert both ways",
  "For every operator, keyword, punctuator and declaration kind, its text converts to it and back, no two share a text, and every other text is refused. A word is allowed as an identifier, label or binding in a context exactly when the grammar's table of reserved words allows it there.",
  ["inputs"],"every member of each set and every text up to a length bound",
  "Two unit tests cover the derive macro on a toy enum.",
  ["macros/src/enum_from_string.rs","ast/src/expr.rs","lexer/src/token.rs"],[("FromString derive","macros/src/enum_from_string.rs")],["FromStr","Display"])
p("M01","Snapshot documents survive reading, editing and writing",
  "Reading a well-formed snapshot document (a title first in each section, at most one code block, last in its section) and writing it back reproduces it, or reproduces it up to blank lines on the first writing and exactly from then on; replacing one named block changes exactly that block's contents.",
  ["inputs","histories"],"every document of sections and blocks up to a size bound and every replacement",
  "The helper itself has no tests; a silent error there would corrupt every regenerated snapshot.",
  ["testing/src/markdown.rs","testing/src/markdown/section.rs"],[("section splitting","testing/src/markdown.rs")],["Markdown::from_string","Markdown::set_block_content"])
p("C01","The command line reports what the library reports",
  "For every source file and option, the program parses by file extension as module or script, exits with failure and the rendered error on standard error exactly when the source is rejected, and otherwise exits successfully and prints the requested result: the confirmation, the tree, or the formatted source. A file that cannot be read and an incomplete command line fail with a message.",
  ["configurations","inputs"],"every combination of option, extension and representative source",
  "No test runs the program.",
  ["src/main.rs"],[("main","src/main.rs")],["process exit code","stdout","stderr"])
for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    print(json.dumps(q))

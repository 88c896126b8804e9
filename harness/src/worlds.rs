//! The token alphabets, one group per property.
use crate::engine::World;

const fn w(
    name: &'static str,
    module: bool,
    prefix: &'static str,
    suffix: &'static str,
    tokens: &'static [&'static str],
    quick: usize,
    thorough: usize,
) -> World {
    World { name, module, prefix, suffix, tokens, quick, thorough, dead: 0 }
}

/// Names in lists of parameters and in the patterns there.
const PARAMETERS: &[&str] = &["a", "b", "{", "}", "[", "]", ",", "...", "b:", "= c"];

pub const P02: &[World] = &[
    w("binary-all", false, "", "",
      &["a", "+", "-", "*", "/", "%", "**", "<<", ">>", ">>>", "<", ">", "<=", ">=", "instanceof", "in", "==", "!=", "===", "!==", "&", "^", "|", "&&", "||", "??"],
      6, 7),
    w("binary-paren", false, "", "", &["a", "(", ")", "+", "*", "**", "<", "&&", "||", "??", "-"], 7, 9),
    w("unary", false, "", "", &["a", "!", "-", "+", "++", "--", "typeof", "delete", "**", "(", ")", "."], 6, 7),
    w("unary-line", false, "", "", &["a", "\n", "++", "--", "-", "void", "~", "*", ";"], 7, 8),
    w("await-ops", false, "async function f() {", "}", &["a", "await", "!", "-", "++", "**", "*", "(", ")", "&&", "??"], 6, 7),
    w("cond-assign", false, "", "", &["a", "b", "=", "+=", "?", ":", ",", "(", ")", "||", "."], 7, 8),
    w("assign-all", false, "", "",
      &["a", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", ">>>=", "&=", "^=", "|=", "**=", "?", ":", ".", "(", ")"], 6, 7),
    w("strict-targets", false, "'use strict';", "", &["a", "eval", "arguments", "delete", "=", "+=", "++", "(", ")", ".", "\n"], 6, 7),
    w("sloppy-targets", false, "", "", &["a", "this", "1", "eval", "arguments", "=", "++", "--", "(", ")", ".", "[", "]", "new"], 6, 7),
    w("in-operator", false, "", "", &["a", "in", "(", ")", "?", ":", "=", "=>", "[", "]", "for", ";"], 7, 8),
    w("regex-div", false, "", "", &["a", "/", "/r/", "(", ")", "/=", "++", "{", "}", "\n", "[", "]"], 6, 7),
    w("levels", false, "", "", &["a", "||", "&&", "|", "^", "&", "==", "<", "<<", "+", "*", "**"], 9, 11),
    w("levels-unary", false, "", "", &["a", "??", "|", "!==", "in", ">>>", "-", "%", "!", "(b)"], 8, 9),
];

pub const P03: &[World] = &[
    w("member", false, "", "", &["a", ".", "b", "[", "]", "(", ")", "new", "`t`", ","], 7, 8),
    w("optional", false, "", "", &["a", "?.", ".", "b", "[", "]", "(", ")", "new", "`t`", "="], 7, 8),
    w("new-target", false, "function f() {", "}", &["new", ".", "target", "a", "(", ")", "?.", "[", "]", "`t`"], 7, 8),
    w("template", false, "", "", &["a", "`t`", "`", "${", "`h${", "}m${", "}t`", "}`", ".", "(", ")", "+"], 6, 7),
    w("optional-template", false, "", "", &["a", "?.", "`t`", "`${", "}`", "(", ")", "b", "\n", ";"], 6, 8),
    w("keyword-names", false, "", "", &["a", ".", "?.", "if", "class", "get", "this", "(", ")", "await", "true"], 6, 7),
    w("import-call", false, "", "", &["import", "(", ")", "a", ".", "meta", ",", "...", "new", "=", "\n"], 6, 8),
    w("import-meta", true, "", "", &["import", "(", ")", "a", ".", "meta", ";", "new", "=", "`t`"], 6, 8),
    w("super", false, "class C extends B { constructor() {", "} }", &["super", "(", ")", ".", "a", "[", "]", "new", "?.", "`t`", "="], 6, 8),
    w("super-method", false, "class C extends B { m() {", "} }", &["super", "(", ")", ".", "a", "[", "]", "new", "=>", "function", "{", "}"], 6, 8),
    w("super-object", false, "({ m() {", "} })", &["super", "(", ")", ".", "a", "[", "]", "{", "}", "=>", "m"], 6, 7),
    w("super-top", false, "", "", &["super", "(", ")", ".", "a", "[", "]", "class", "{", "}", "extends", "constructor"], 7, 9),
    w("new-optional", false, "", "", &["new", "a", "()", "?.", "b", ".", "[", "]", "`t`", "(", ")"], 6, 8),
    w("args", false, "", "", &["a", "(", ")", ",", "...", "new", "=", "?", ":"], 7, 9),
    w("tagged-chain", false, "", "", &["new", "a", "`t`", "`${", "}`", ".", "b", "(", ")", "[", "]"], 6, 8),
    w("chains", false, "", "", &["a", ".b", "[c]", "(d)", "`t`", "?.e", "?.[f]", "?.(g)", "new", "(", ")"], 6, 8),
];

pub const P04: &[World] = &[
    w("assign-array", false, "", "", &["[", "]", ",", "a", "...", "=", ".", "(", ")", "1"], 7, 8),
    w("assign-array-nested", false, "[", "] = z", &["[", "]", ",", "a", "...", "=", "{", "}", ":", "."], 6, 8),
    w("assign-object", false, "({", "} = z)", &["a", ":", ",", "=", "...", "[", "]", "{", "}", "1", "."], 6, 8),
    w("assign-object-open", false, "(", ")", &["a", ":", ",", "=", "...", "{", "}", "(", ")", "b"], 7, 8),
    w("assign-object-names", false, "({", "} = z)", &["a", ":", ",", "'s'", "1", "[", "]", "if", "get", "=", "eval"], 6, 7),
    w("binding-array", false, "let", "", &["[", "]", ",", "a", "...", "=", "{", "}", ":", "1"], 7, 8),
    w("binding-object", false, "var {", "} = z", &["a", ":", ",", "=", "...", "[", "]", "{", "}", "'s'", "if"], 6, 8),
    w("binding-names", false, "const {", "} = z", &["a", ":", ",", "yield", "await", "let", "async", "get", "1", "=", "in"], 6, 7),
    w("param-patterns", false, "function f(", ") {}", &["[", "]", "{", "}", "a", ",", "...", "=", ":"], 7, 8),
    w("catch-patterns", false, "try {} catch (", ") {}", &["[", "]", "{", "}", "a", ",", "...", "=", ":"], 7, 8),
    w("cover-object", false, "(", ")", &["{", "}", "a", "=", ":", ",", "=>", "...", "1", "["], 7, 8),
    w("cover-array", false, "", "", &["[", "]", "{", "}", "a", "=", ":", ",", "(", ")", "\n"], 7, 8),
    w("strict-names", false, "'use strict';", "", &["[", "]", "({", "})", "eval", "a", "=", ":", ",", "static"], 6, 8),
    w("patterns", false, "[", "] = z", &["a", "[", "]", "{", "}", "b:", ",", "= c", "..."], 7, 9),
    w("target-heads", false, "[", "] = z", &["[]", "{}", ".a", "[b]", "(c)", "`t`", "`${d}`", "?.", "(", ")", "new", "super", "this", "function () {}", "= e", ","], 4, 5),
    w("for-target-heads", false, "for (", "of z);", &["[]", "{}", ".a", "[b]", "(c)", "`t`", "`${d}`", "?.", "(", ")", "new", "this", "let", "async", "= e", ","], 4, 5),
    w("declared-patterns", false, "let [", "] = z", &["a", "[", "]", "{", "}", "b:", ",", "= c", "..."], 7, 9),
];

pub const P05: &[World] = &[
    w("arrow", false, "", "", &["a", "(", ")", "=>", ",", "...", "=", "{", "}", "\n"], 7, 8),
    w("arrow-pattern", false, "(", ") => z", &["a", "[", "]", "{", "}", ",", "...", "=", ":", "("], 6, 8),
    w("arrow-operators", false, "", "", &["a", "=>", "?", ":", "+", ",", "(", ")", "=", ".", "{}"], 7, 8),
    w("arrow-paren", false, "", "", &["a", "=>", "(", ")", ",", "{", "}", "[", "]", "return"], 7, 8),
    w("async-arrow", false, "", "", &["async", "a", "(", ")", "=>", "\n", ",", "await", ".", "{}"], 7, 8),
    w("async-name", false, "", "", &["async", "(", ")", "=", "+", ".", "`t`", "\n", "function", "{}", "a", "=>"], 6, 8),
    w("async-call-args", false, "", "", &["async", "(", ")", "a", ",", "...", "=", "=>", "[", "]", "b"], 7, 8),
    w("function", false, "", "", &["function", "async", "*", "a", "(", ")", "{", "}", "=", "\n"], 7, 9),
    w("function-expr", false, "(", ")", &["function", "async", "*", "a", "(", ")", "{", "}", "yield", "await"], 7, 9),
    w("params", false, "function f(", ") {}", &["a", ",", "...", "=", "b", "[", "]", "(", ")", "yield", "await"], 6, 7),
    w("generator-body", false, "function* g() {", "}", &["yield", "*", "a", ",", "(", ")", "\n", "?", ":", ";", "="], 6, 8),
    w("generator-body2", false, "function* g() {", "}", &["yield", "*", "[", "]", "a", "{", "}", "in", "+", "=>", "/r/", "`${", "}`"], 6, 7),
    w("generator-params", false, "function* g(", ") {}", &["yield", "a", "=", ",", "(", ")", "=>", "{", "}", "*"], 6, 8),
    w("async-body", false, "async function f() {", "}", &["await", "a", "\n", "(", ")", "=>", "=", ",", "async", "{", "}"], 6, 8),
    w("async-params", false, "async function f(", ") {}", &["await", "a", "=", ",", "(", ")", "=>", "async", "yield"], 6, 8),
    w("async-generator", false, "async function* g() {", "}", &["await", "yield", "*", "a", "(", ")", "=>", "for", "of", "async"], 6, 7),
    w("sloppy-yield-await", false, "", "", &["yield", "await", "a", "=", "(", ")", "=>", "+", "\n", "*", ":"], 6, 7),
    w("return", false, "", "", &["function", "f", "(", ")", "{", "}", "return", "a", "\n", ";", "=>"], 8, 9),
    w("async-arrow-body", false, "async () =>", "", &["await", "a", "{", "}", "(", ")", "=>", "yield", "return", ";", "\n"], 6, 8),
    w("arrow-in-async", false, "async function f() {", "}", &["async", "(", ")", "=>", "a", "await", "=", ",", "x"], 6, 8),
    w("arrow-in-generator", false, "function* g() {", "}", &["(", ")", "=>", "a", "yield", "=", ",", "x", "async"], 6, 8),
    w("strict-parameters", false, "'use strict'; function f(", ") {}", PARAMETERS, 6, 8),
    w("directive-parameters", false, "function f(", ") { 'use strict' }", PARAMETERS, 6, 8),
    w("arrow-parameters", false, "(", ") => z", PARAMETERS, 6, 8),
    w("async-arrow-parameters", false, "async (", ") => z", PARAMETERS, 6, 8),
    w("function-parameters", false, "async function* f(", ") {}", PARAMETERS, 6, 8),
];

pub const P06: &[World] = &[
    w("object-literal", false, "({", "})", &["a", ":", ",", "(", ")", "{", "}", "get", "async", "*", "1"], 6, 7),
    w("object-modifiers", false, "({", "})", &["get", "set", "async", "static", "*", "a", ":", ",", "() {}", "(a) {}", "\n"], 6, 7),
    w("object-keys", false, "({", "})", &["'s'", "1", "if", "[", "]", "a", ":", ",", "() {}", "..."], 6, 8),
    w("object-cover", false, "({", "})", &["a", "=", ":", ",", "...", "yield", "await", "true", "let", "this"], 6, 7),
    w("class", false, "", "", &["class", "a", "extends", "{", "}", "(", ")", "m", ";", "."], 7, 9),
    w("class-modifiers", false, "class C {", "}", &["static", "get", "set", "async", "*", "m", "() {}", "(a) {}", "[", "]", ";", "\n"], 6, 7),
    w("class-keys", false, "class C {", "}", &["static", "get", "'s'", "1", "[", "]", "if", "() {}", "a", "constructor", "prototype"], 6, 7),
    w("class-heritage", false, "class C extends", "{}", &["a", "(", ")", ".", "new", "{", "}", "=>", "?", ":", "=", "?."], 6, 7),
    w("class-expr", false, "(class", ")", &["extends", "a", "{", "}", "static", "m", "() {}", "(", ")", "get", "yield", "let"], 6, 7),
    w("method-params", false, "class C { m(", ") {} }", &["a", "b", ",", "=", "...", "[", "]", "yield", "await"], 6, 8),
    w("setter-params", false, "({ set m(", ") {} })", &["a", "b", ",", "=", "...", "[", "]", "{", "}"], 6, 8),
    w("generator-methods", false, "({ *m(", "} })", &[") {", "yield", "*", "a", "(", ")", "=", ",", ";", "\n"], 6, 8),
    w("async-methods", false, "({ async m(", "} })", &[") {", "await", "a", "(", ")", "=", ",", ";", "\n", "yield"], 6, 8),
    w("method-nesting", false, "({", "})", &["m() {", "get m() {", "*m() {", "async m() {", "}", ",", "yield", "await", "a", "*"], 6, 8),
    w("class-in-generator", false, "function* g() { (class", "}) }", &["{", "m() {", "*m() {", "}", "yield", "[", "]", "a", "extends", "() {}", "static"], 6, 8),
    w("getter-params", false, "({ get", "})", &["m", "(", ")", "a", "{", "}", ",", "get", "set", "..."], 7, 8),
    w("method-parameters", false, "({ m(", ") {} })", PARAMETERS, 6, 8),
    w("constructor-parameters", false, "class C { constructor(", ") {} }", PARAMETERS, 6, 8),
    w("setter-parameters", false, "class C { static set m(", ") {} }", PARAMETERS, 6, 8),
    w("class-members", false, "class C {", "}", &["constructor() {}", "static", "m() {}", "get m() {}", "set m(a) {}", "*m() {}", "async m() {}", "['m']() {}", "'constructor'() {}", "prototype() {}", "get constructor() {}", ";", "\n"], 4, 6),
    w("object-members", false, "({", "})", &["a", "b: c", "...d", "m() {}", "get m() {}", "set m(e) {}", "*m() {}", "async m() {}", "[m]: n", "'s': 1", "__proto__: a", "= 1", ","], 5, 7),
];

pub const P07: &[World] = &[
    w("if-while", false, "", "", &["if (a)", "else", "while (a)", "do", ";", "a", "{", "}", "\n", "("], 6, 8),
    w("if-parts", false, "", "", &["if", "(", ")", "a", "else", ";", "{", "}", ","], 8, 9),
    w("do-while", false, "", "", &["do", "while", "(", ")", "a", ";", "{", "}", "\n"], 8, 9),
    w("switch", false, "switch (z) {", "}", &["case", "default", ":", "a", ";", "{", "}", "break", "\n"], 6, 8),
    w("switch-parts", false, "", "", &["switch", "(", ")", "{", "}", "a", "case", ":", "default"], 8, 10),
    w("try", false, "", "", &["try", "catch", "finally", "{}", "(", ")", "a", "{", "}", "[", "]"], 7, 8),
    w("label", false, "", "", &["a", ":", "break", "continue", "b", ";", "\n", "while (z)", "{", "}", "yield", "await"], 6, 7),
    w("var", false, "", "", &["var", "let", "const", "a", "=", ",", ";", "\n", "1", "["], 6, 7),
    w("let-name", false, "", "", &["let", "a", "=", "(", ")", "\n", "[", "]", ".", "{", "}", ";"], 6, 7),
    w("let-next", false, "", "", &["let", "yield", "await", "async", "static", "let", "=", ",", "1", "in", "instanceof", "if"], 5, 6),
    w("throw-return", false, "function f() {", "}", &["return", "throw", "a", ",", ";", "\n", "{", "}", "debugger", "if (z)"], 6, 8),
    w("blocks", false, "", "", &["{", "}", ";", "a", ":", ",", "\n", "function f() {}", "class C {}", "let"], 6, 7),
    w("decl-positions", false, "", "", &["if (z)", "while (z)", "else", "a:", "function f() {}", "class C {}", "async function g() {}", "let x", "const y = 1", "var v", ";", "{", "}"], 5, 6),
    w("with", false, "", "", &["with", "(", ")", "a", ";", "{", "}", ",", "\n"], 8, 9),
    w("statement-words", false, "", "", &["debugger", "a", ";", "\n", "this", "break", "continue", "throw", "null", "in", "typeof"], 6, 7),
    w("switch-clauses", false, "switch (z) {", "}", &["case a:", "default:", "b;", "break;", "{}", "if (c)", "function f() {}"], 6, 8),
    w("try-units", false, "", "", &["try {}", "catch {}", "catch (a) {}", "finally {}", ";", "{", "}", "a", "if (a)", "else"], 6, 8),
    w("labels", false, "", "", &["a:", "b:", "while (z)", "{", "}", "break a", "continue b", "break", ";", "function f() {}", "\n", "do"], 5, 7),
    w("declaration-lists", false, "", "", &["var", "let", "const", "a", "b = 1", ",", "\n", ";", "[c] = d", "{e} = f", "{", "}"], 6, 7),
];

pub const P08: &[World] = &[
    w("for-head", false, "for (", ") z", &["a", "in", "of", ";", "var", "let", "=", ",", "(", ")"], 6, 7),
    w("for-let", false, "for (", ") z", &["let", "of", "in", "a", "[", "]", "=", ";", "async", "."], 6, 7),
    w("for-async", false, "for (", ") z", &["async", "of", "in", "a", "(", ")", "=>", ";", "."], 7, 8),
    w("for-pattern", false, "for (", "of z) z", &["[", "]", "{", "}", "a", ",", "...", ":", "=", "var", "."], 6, 7),
    w("for-decl-pattern", false, "for (const", ") z", &["[", "]", "{", "}", "a", ",", ":", "=", "of", "in", ";"], 7, 8),
    w("for-in-exclusion", false, "for (", ";;) z", &["var", "a", "=", "in", "(", ")", "[", "]", "?", ":", "=>", "`${", "}`"], 6, 7),
    w("for-in-exclusion2", false, "for (", ";;) z", &["a", "in", "{", "}", ":", "=", "function () {", "=> {", ",", ".", "f("], 6, 7),
    w("for-three", false, "for", "z", &["(", ")", ";", "a", ",", "in", "var", "=", "const"], 7, 9),
    w("for-await", false, "async function f() { for", "z }", &["await", "(", ")", "a", "of", "in", "let", ";", "async", "of"], 7, 8),
    w("for-await-head", false, "async function f() { for await (", ") z }", &["a", "of", "in", "var", "let", "async", "=", ";", "[", "]", "await"], 6, 7),
    w("for-target", false, "for (", "in z) z", &["a", ".", "[", "]", "(", ")", "new", "?.", "=", "1", "this", "++"], 6, 7),
    w("for-of-right", false, "for (a of", ") z", &["b", ",", "=", "?", ":", "=>", "(", ")", "in", "yield", "async"], 6, 7),
    w("for-body", false, "for (;;)", "", &["for (a of b)", "a", ";", "{", "}", "let", "\n", "function", "continue", "if (z)", "else"], 6, 7),
    w("for-units", false, "async function f() {", "}", &["for (a of b)", "for (var a in b)", "for (let a = 1; a; a++)", "for await (const a of b)", "for (;;)", "{", "}", ";", "a", "continue", "break", "if (z)", "else"], 5, 6),
];

pub const P09: &[World] = &[
    w("import", true, "", "", &["import", "a", "*", "as", "from", "'m'", "{", "}", ",", "default", ";"], 7, 8),
    w("import-named", true, "import {", "} from 'm'", &["a", "as", ",", "default", "b", "from", "if", "await", "let"], 6, 8),
    w("import-asi", true, "", "", &["import", "a", "from", "'m'", "\n", ";", "* as b", "{ c }", ",", "z"], 7, 8),
    w("export-named", true, "export {", "}", &["a", "as", ",", "default", "b", "from", "if", "'m'"], 6, 8),
    w("export-from", true, "", "", &["export", "*", "as", "a", "from", "'m'", "{", "}", ",", "default", ";"], 7, 8),
    w("export-decl", true, "", "", &["export", "var", "let", "const", "a", "=", ",", ";", "function", "(", ")", "{", "}"], 6, 8),
    w("export-default", true, "export default", "", &["function", "async", "*", "a", "(", ")", "{", "}", "class", "extends", ";", "=>"], 7, 8),
    w("export-default-expr", true, "export default", "", &["a", "=", ",", "(", ")", "=>", "\n", ";", "+", "async", "[", "]", "in"], 6, 7),
    w("export-asi", true, "", "", &["export", "default", "a", "\n", ";", "var", "=", "* from 'm'", "{ b }", "from 'm'", "class {}"], 6, 7),
    w("module-items", true, "", "", &["import 'm'", "export * from 'm'", "export { a }", ";", "{", "}", "if (z)", "import(a)", "import.meta", "\n", "function f() {"], 5, 7),
    w("module-strict", true, "", "", &["with", "(", ")", "a", "delete", "eval", "=", "static", "await", ";", "yield", "let"], 5, 7),
    w("script-no-module", false, "", "", &["import", "export", "'m'", "a", "from", "default", "(", ")", ".", "meta", "{", "}"], 5, 7),
    w("module-await", true, "", "", &["await", "async", "function", "f", "(", ")", "{", "}", "=>", "a", "="], 6, 8),
    w("module-units", true, "", "", &["import a from 'm'", "import * as a from 'm'", "import {a, b} from 'm'", "import 'm'", "export {a}", "export {a as b} from 'm'", "export * from 'm'", "export default", "export", "a", "function f() {}", "class C {}", "var b", ";", "\n"], 5, 6),
];

pub const P10: &[World] = &[
    w("asi-expr", false, "", "", &["a", "\n", "++", "--", ";", "(", ")", "+", "=", "[", "]"], 7, 8),
    w("asi-stmt", false, "", "", &["a", "\n", ";", "{", "}", "var", "let", "const b =", "if (z)", "else", "do", "while (z)"], 6, 7),
    w("asi-restricted", false, "x: for (;;) {", "}", &["break", "continue", "x", "\n", ";", "throw", "a", "++", "{", "}"], 6, 8),
    w("asi-return", false, "function f() {", "}", &["return", "a", "\n", ";", "+", "(", ")", "throw", "/r/", "`t`"], 6, 8),
    w("asi-yield", false, "function* f() {", "}", &["yield", "a", "\n", ";", "*", "(", ")", "++", "[", "]"], 6, 8),
    w("asi-async", false, "", "", &["async", "\n", "function", "f", "(", ")", "{", "}", "=>", "a", ";"], 7, 9),
    w("asi-arrow", false, "", "", &["a", "=>", "\n", "(", ")", "{", "}", ";", "=", "b"], 7, 8),
    w("asi-comment", false, "", "", &["a", "/*c*/", "/*\n*/", "//c\n", "++", ";", "var", "b", "return", "\u{2028}"], 6, 8),
    w("asi-restricted-comment", false, "function* f() { x: for (;;) {", "}}",
      &["return", "throw", "yield", "break", "continue", "x", "/*\n*/", "/*c*/", ";", "\u{2029}", "\r"], 5, 7),
    w("asi-let", false, "", "", &["let", "\n", "a", "=", ";", "async", "yield", "await", "static", "of", "[", "]"], 5, 7),
    w("asi-let-async", false, "async function f() {", "}", &["let", "\n", "a", "=", ";", "async", "await", "const", "of", "[", "]", "0"], 5, 6),
    w("asi-let-generator", false, "function* f() {", "}", &["let", "\n", "a", "=", ";", "static", "yield", "const", "{", "}", "0"], 5, 6),
    w("asi-let-module", true, "", "", &["let", "\n", "a", "=", ";", "async", "await", "const", "yield", "static", "0"], 5, 6),
    w("asi-brace", false, "", "", &["{", "}", "a", "\n", ";", "b", "if (z)", "=> {", "function () {", "class {"], 7, 8),
    w("asi-for", false, "", "", &["for (", ";", "\n", "a", ")", "b", "in", "var", "{", "}"], 7, 8),
    w("asi-template", false, "", "", &["a", "\n", "`t`", "`${", "}`", ";", "(", ")", "?.", "/", "r"], 6, 8),
    w("asi-module", true, "", "", &["import 'm'", "import b from 'm'", "import * as c from 'm'", "import { d } from 'm'", "export * from 'm'", "export { a }", "export { a } from 'm'", "export default a", "export var e", "\n", ";", "a", "}"], 4, 5),
    w("asi-module-more", true, "", "", &["import(a)", "import.meta", "export default", "function () {", "class {", "}", "export let e = a", "export class f {", "export function g() {", "\n", ";", "a", "(a)"], 5, 6),
];

pub const P12: &[World] = &[
    w("directives", false, "", "", &["'use strict'", "\"use strict\"", "'a'", ";", "\n", "with (z)", "a", "+", ",", "(", ")"], 5, 7),
    w("directives-fn", false, "function f() {", "}", &["'use strict'", "'a'", ";", "\n", "with (z)", "a", "{", "}", "delete"], 6, 8),
    w("directives-escape", false, "", "", &["'use\\x20strict'", "'use strict'", "'use strict '", ";", "\n", "with (z)", "a", "static"], 6, 8),
    w("strict-reserved", false, "", "",
      &["'use strict';", "implements", "interface", "let", "package", "private", "protected", "public", "static", "yield", "=", "1", "var", ":", ";"], 5, 6),
    w("strict-nested", false, "", "", &["'use strict';", "function f() {", "}", "with (z)", "a;", "static;", "() => {", "class C {", "m() {"], 7, 8),
    w("strict-class", false, "class C {", "}", &["m() {", "}", "static", "with (z)", "a;", "(static)", "'use strict';", "(", "() {}", "*"], 6, 8),
    w("strict-arrow", false, "", "", &["() => {", "async () => {", "}", "'use strict';", "with (z)", "a;", "static;", "{", ",", "("], 6, 7),
    w("strict-octalish", false, "'use strict';", "", &["delete", "a", "(", ")", ".", "eval", "=", "++", "arguments", "with (z)", ";"], 6, 7),
    w("directive-params", false, "({ m(", "} })", &["a", "=", "...", "[", "]", ",", ") {", "'use strict'", ";", "'b'"], 6, 8),
    w("module-directives", true, "", "", &["'use strict'", "'a'", ";", "\n", "with (z)", "a", "import 'm'", "+"], 6, 7),
];

/// What is printed next to each other.
pub const GEN: &[World] = &[
    w("adjacent-operators", false, "", "", &["a", "+", "-", "++", "--", "/", "/r/", "/=/", "<", "!", "\n"], 6, 8),
    w("adjacent-more", false, "", "", &["a", "<", ">", "!", "--", "-", "**", "*", "&", "&&", "?", ":", "??", ".5"], 6, 7),
    w("adjacent-words", false, "", "", &["$", "_", "\u{e9}", "\u{2118}", "1", "1.", ".5", "0x1", "in", "instanceof", "typeof", "void", "/r/", "/r/g", "'s'", "`t`", "\n"], 5, 6),
    w("adjacent-numbers", false, "", "", &["1", "1.", "1e3", ".5", "0b1", "1n", "1_0", ".", "a", "?.", "[", "]", "?", ":", "..."], 6, 7),
    w("adjacent-keywords", false, "function* f() {", "}",
      &["return", "throw", "yield", "new", "delete", "case", "a", "$", "_", "/r/", "'s'", "`t`", "[", "]", "(", ")", "{", "}", "-", "1"], 5, 6),
    w("adjacent-decls", false, "", "", &["var", "let", "const", "$", "_", "[", "]", "{", "}", "=", "'s'", "of", "in", "for (", ")", ";"], 6, 7),
    w("adjacent-class", false, "", "", &["class", "$", "extends", "_", "{", "}", "static", "get", "set", "async", "*", "[", "]", "() {}", "(a) {}", "'s'", "1"], 6, 7),
    w("adjacent-module", true, "", "", &["import", "export", "default", "*", "as", "$", "_", "from", "'s'", "{", "}", ",", ";", "async", "function", "() {}", "class"], 6, 7),
    w("aligned", false, "", "", &["\u{e9}:", "for (", "'\u{4e2d}'", "`\n`", "of", ")", "var", "a", "\u{e9}", "=", "1", ",", "function () {", "{", "}", "class {}", ";"], 5, 6),
    w("aligned-blocks", false, "", "", &["var a", "= 1", ",", "b", "[c]", "{d}", "= {", "e() {", "if (f)", "= function () {", "= class {", "=> {", "g = a", "(", ")", "}", ";"], 5, 7),
    w("aligned-for", false, "for (", ") {}", &["{}", "var", "a", "= 1", ",", "[", "]", "= function () {", "}", ";", "() => {", "let b", "`\n`"], 6, 7),
    w("empty-statements", false, "", "", &[";", "if (a)", "else", "{", "}", "for (;;)", "do", "while (a)", "b:", "a", "'d'", "throw a", "() => {"], 5, 7),
    w("empty-switch", false, "switch (z) {", "}", &["case a:", "default:", ";", "{", "}", "throw a", "do", "while (a)", "if (a)", "else", "\n"], 6, 7),
    w("string-escapes", false, "", "", &["'it\\'s'", "\"q\\\"\"", "'\\\\'", "'\\n'", "'\\u2028'", "'\u{2028}'", "'\\0'", "'\\x00\\x31'", "'\\\n'", "`\\``", "`\\u{61}\n`", "`$`", "`\\${`", "+", ";", "\n"], 4, 5),
];

/// Text of one to four bytes per character.
pub const WIDE: &[World] = &[
    w("wide-tokens", false, "", "", &["a", "\u{e9}", "'\u{4e2d}'", "`\u{1d4b3}`", "/\u{e9}/", "//\u{1d4b3}\n", "/*\u{4e2d}*/", "\u{2028}", "+", ";", "."], 5, 6),
    w("wide-template", false, "", "", &["`\u{e9}${", "}\u{4e2d}${", "}\u{1d4b3}`", "a", "\u{e9}", "'\u{e9}'", "+", "\u{a0}", "\u{feff}", "(", ")"], 5, 6),
    w("wide-names", false, "", "", &["{", "}", "\u{e9}", ":", ",", "'\u{4e2d}'", "=", "(", ")", "=>", "\u{3000}", ".", "?."], 6, 7),
    w("wide-statements", false, "", "", &["\u{e9}", ":", "break", "var", "let", "=", ";", "\n", "throw", "'\u{1d4b3}'", "{", "}", "function"], 5, 6),
    w("wide-module", true, "", "", &["import", "export", "\u{e9}", "*", "as", "from", "'\u{4e2d}'", "{", "}", "default", ",", ";"], 6, 7),
];

//! Words: every keyword, and the names the grammar singles out, at every place where a name or a
//! word may stand, inside every kind of body.
use crate::check::Run;
use crate::engine::Obs;
use crate::grammar::{self, Mode};
use crate::refjs::{self, Entry};

const WORDS: &[&str] = &[
    "await", "as", "async", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "enum", "export", "extends", "false", "finally", "for",
    "from", "function", "get", "if", "implements", "import", "in", "instanceof", "interface", "let", "new", "null", "of", "package", "private", "protected", "public", "return", "set",
    "static", "super", "switch", "target", "this", "throw", "true", "try", "typeof", "var", "void", "while", "with", "yield", "eval", "arguments", "undefined", "constructor", "prototype",
    "meta", "a", "$", "_", "\u{e9}", "\u{2118}\u{1d49c}",
];

/// Places for a word (`@`), as statements, by the properties they belong to.
const PLACES: &[(&str, &[&str])] = &[
    ("P07", &[
        "var @", "var @ = 1", "var a, @", "let @", "let @ = 1, a", "const @ = 1", "@", "@;", "@ = 1", "{ @ }", "if (@) a", "if (a) @", "if (a) @; else @", "while (@) a", "while (a) @",
        "do @; while (@)", "switch (@) {}", "switch (a) { case @: @ }", "switch (a) { @: a }", "throw @", "@: a", "@: while (a) break @", "@: while (a) { continue @ }", "@: @",
        "a: { break @ }", "try {} catch (@) {}", "try {} catch ([@]) {}", "try {} catch ({ @ }) {}", "try {} catch ({ a: @ }) {}", "try {} @ {}", "with (@) a", "@ {}", "@ (a) b", "@ a", "@ (a)",
        "@ 'a'", "@ [a]", "@ [a] = a", "@ {a} = a", "@ a = a", "@ function f() {}", "@ class A {}", "@, a", "if (a) b; @ c",
    ]),
    ("P02", &[
        "(@)", "(@ = 1)", "@ += 1", "@++", "++@", "(@)++", "(@) = 1", "typeof @", "void @", "delete @", "!@", "a + @", "@ + a", "@ ** a", "a ** @", "a, @", "a ? @ : @", "@ ? a : b", "a = @",
        "a ?? @", "@ && a", "a @ b", "@ in a", "a in @", "a instanceof @", "@ - -@", "(a, @)", "@ / a", "@ < a", "a @ = b",
    ]),
    ("P03", &[
        "@.a", "@[a]", "@()", "@(a)", "@`t`", "@?.a", "@?.(a)", "@?.[a]", "new @", "new @()", "new @.a", "new @(a).b", "a.@", "a.@.b", "a.@()", "a.@ = 1", "a?.@", "a?.@.b", "new a.@", "a[@]", "a(@)",
        "a(...@)", "a(b, @)", "new.@", "import.@", "import(@)", "`${@}`", "a`${@}`", "@.@", "(@).a", "a.b.@`t`", "async.@", "super.@", "this.@", "(class { m() { super.@ } })",
    ]),
    ("P04", &[
        "var [@] = a", "var [a, @ = 1] = b", "var [...@] = a", "var [b = @] = a", "var { @ } = a", "var { @ = 1 } = a", "var { a: @ } = b", "var { @: a } = b", "var { @: { @ } } = b",
        "var { ...@ } = a", "var { [@]: a } = b", "var { a = @ } = b", "let [@] = a", "const { @ } = a", "[@] = a", "[@ = 1] = a", "[a = @] = b", "[...@] = a", "[@.a] = b", "[a.@] = b",
        "[(@)] = a", "({ @ } = a)", "({ @ = 1 } = a)", "({ a: @ } = b)", "({ @: a } = b)", "({ a: @ = 1 } = b)", "({ ...@ } = a)", "({ a: (@) } = b)", "({ [@]: a } = b)", "({ a = @ } = b)",
        "({ a: [@] } = b)", "({ @ = 1 })", "[{ @ = 1 }] = a", "[[@]] = a", "let [...[@]] = a", "let { @, a } = b",
    ]),
    ("P05", &[
        "function @() {}", "function* @() {}", "async function @() {}", "async function* @() {}", "(function @() {})", "(function* @() {})", "(async function @() {})", "(async function* @() {})",
        "function f(@) {}", "function f(a, @) {}", "function f(@ = 1) {}", "function f(a = @) {}", "function f(...@) {}", "function f({ @ }) {}", "function f([@]) {}", "function f({ a: @ }) {}",
        "function* f(@) {}", "function* f(a = @) {}", "async function f(@) {}", "async function f(a = @) {}", "async function* f(@) {}", "(function (@) {})", "(function* (a = @) {})",
        "(async function (a = @) {})", "@ => a", "(@) => a", "(@, a) => b", "(a, @) => b", "(...@) => a", "({ @ }) => a", "([@]) => a", "({ @ = 1 }) => a", "({ a: @ }) => b", "(@ = 1) => a", "(a = @) => b",
        "async @ => a", "async (@) => a", "async (a, @) => b", "async (a = @) => b", "async ({ @ }) => a", "async (...@) => a", "async ([@] = a) => b", "a => @", "a => { @ }", "async a => @",
        "async a => { @ }", "function f() { @ }", "function* f() { @ }", "async function f() { @ }", "async function* f() { @ }", "(function () { @ })", "(function* () { @ })", "(async function () { @ })",
        "@ function () {}", "(@ function () {})", "(@ function* () {})", "async (@)", "async (@, ...a)", "function f() { return @ }", "@ (a) => b", "@ a => b", "(@) (a)", "((@)) => a", "(a, (@)) => b",
        "async @", "async a(@) => b", "(@ => a)", "a = @ => b", "a ? @ => b : c", "function f(@, a) {}", "(async @ => a)", "a(@ => b)",
    ]),
    ("P06", &[
        "class @ {}", "(class @ {})", "class A extends @ {}", "(class extends @ {})", "class @ extends a {}", "class A { @() {} }", "class A { static @() {} }", "class A { get @() {} }",
        "class A { set @(a) {} }", "class A { async @() {} }", "class A { *@() {} }", "class A { async *@() {} }", "class A { static async *@() {} }", "class A { static get @() {} }",
        "class A { [@]() {} }", "class A { @ a() {} }", "class A { @ *a() {} }", "class A { @ @() {} }", "class A { @ a(b) {} }", "class A { static @ a() {} }", "class A { @ }", "class A { @; }",
        "class A { m(@) {} }", "class A { m(a = @) {} }", "class A { *m(@) {} }", "class A { async m(@) {} }", "class A { *m(a = @) {} }", "class A { async m(a = @) {} }", "class A { m() { @ } }",
        "class A { set a(@) {} }", "class A { m(...@) {} }", "class A { m({ @ }) {} }", "class A { m(a, @) {} }",
        "({ @ })", "({ @, a })", "({ a, @ })", "({ @: a })", "({ a: @ })", "({ @() {} })", "({ get @() {} })", "({ set @(a) {} })", "({ async @() {} })", "({ *@() {} })", "({ async *@() {} })", "({ [@]: a })",
        "({ [@]() {} })", "({ ...@ })", "({ @ a() {} })", "({ @ *a() {} })", "({ @ a })", "({ @ 'a'() {} })", "({ @ 1() {} })", "({ @ [a]() {} })", "({ @ a(b) {} })", "({ @ @() {} })", "({ m(@) {} })", "({ m(a, @) {} })",
        "({ *m(@) {} })", "({ async m(@) {} })", "({ async *m(a = @) {} })", "({ m(a = @) {} })", "({ m() { @ } })", "({ *m() { @ } })", "({ async m() { @ } })", "({ get a() { @ } })", "({ set a(@) {} })",
        "({ set a({ @ }) {} })", "({ m(...@) {} })", "({ m({ @ }, [a]) {} })", "({ @: @ })", "({ @\na() {} })", "class A { @\na() {} }", "({ get: @ })", "({ get, @ })",
    ]),
    ("P08", &[
        "for (@ in a) b", "for (@ of a) b", "for (@;;) a", "for (@ = 1;;) a", "for (@.a in b) c", "for (@.a of b) c", "for (@[a] of b) c", "for ((@) of a) b", "for (var @ in a) b", "for (var @ of a) b",
        "for (var @;;) a", "for (var @ = 1;;) a", "for (var a, @;;) b", "for (let @ in a) b", "for (let @ of a) b", "for (let @;;) a", "for (let @ = 1;;) a", "for (const @ in a) b", "for (const @ of a) b",
        "for (const @ = 1;;) a", "for ([@] of a) b", "for ({ @ } of a) b", "for ({ @ } in a) b", "for (var [@] of a) b", "for (let { @ } of a) b", "for (const { a: @ } in b) c", "for (a in @) b", "for (a of @) b",
        "for (a; @; @) b", "for (;;) @", "for (a of b) @", "for (@ a in b) c", "for (@ a of b) c", "for (@ [a] of b) c", "for (@ a;;) b", "for (@ {a} in b) c", "for (a @ b) c", "for @ (a of b) c",
        "async function f() { for await (@ of a) b }", "async function f() { for await (var @ of a) b }", "async function f() { for await (let @ of a) b }", "async function f() { for await (a of @) b }",
        "async function f() { for await (@ in a) b }", "async function f() { for @ (a of b) c }", "async function f() { for await (@ a of b) c }", "async function f() { for await (@.a of b) c }",
        "for (@ () of a) b", "for (@ => a;;) b", "for (@, a;;) b", "for (@ + a;;) b", "for (@().a of b) c",
    ]),
    ("P09", &[
        "import @ from 'm'", "import @, { a } from 'm'", "import @, * as a from 'm'", "import * as @ from 'm'", "import a, * as @ from 'm'", "import { @ } from 'm'", "import { @ as a } from 'm'", "import { a as @ } from 'm'",
        "import { a, @ } from 'm'", "import { @ as @ } from 'm'", "import { @, } from 'm'", "import a, { b as @ } from 'm'", "import @ 'm'", "import a @ 'm'", "import * @ a from 'm'", "import { a @ b } from 'm'",
        "export { @ }", "export { @, a }", "export { @ as a }", "export { a as @ }", "export { @ as @ }", "export { @ } from 'm'", "export { @ as a } from 'm'", "export { a as @ } from 'm'", "export { @ as @ } from 'm'",
        "export { a @ b }", "export * as @ from 'm'", "export * @ a from 'm'", "export * @ 'm'", "export { a } @ 'm'", "export var @", "export let @", "export const @ = 1", "export var { @ } = a", "export function @() {}",
        "export function* @() {}", "export async function @() {}", "export class @ {}", "export default function @() {}", "export default function* @() {}", "export default async function @() {}", "export default class @ {}",
        "export default @", "export default @;", "export default (@)", "export default @ () {}", "export default @ {}", "export default async @ => a", "export default @ => a", "export @", "export @ a", "export @ a = 1",
        "export @ a() {}", "export @ {}", "export @ function f() {}", "@ default a", "@ { a }", "@ { a } from 'm'", "@ 'm'", "@ * as a from 'm'", "export default @ a", "export default @ function () {}", "import(@)",
    ]),
    ("P10", &[
        "@\na", "a\n@", "a\n@\nb", "@\n++a", "@\n++\na", "a\n++\n@", "@\n(a)", "@\n[a]", "@\n{a}", "@\n`t`", "@\n/a/g", "@ a", "a @", "a @ b", "var a\n@", "var a = b\n@", "let a\n@", "{ a\n@ }", "{ @ }", "do a; while (b) @",
        "do a; while (b)\n@", "do @\nwhile (a)", "if (a) b\n@", "if (a) @\nelse b", "throw a\n@", "throw @\na", "while (a) { continue\n@ }", "while (a) { break\n@ }", "@: while (a) { continue @\na }", "@: while (a) { break\n@ }",
        "@\nfunction f() {}", "@\n(a) => b", "@\n=> a", "a => {}\n@", "function f() {}\n@", "class A {}\n@", "@ /*\n*/ a", "a /*\n*/ @", "(@\n)", "for (@\n;\n;\n) a", "for (a; @\n) b", "let\n@", "var\n@", "const\n@ = a", "@\n: a",
        "@\n.a", "@\n= 1", "@\na = 1", "async\n@", "async\n@ => a", "a\n@ => b", "async @\n=> a", "function f() { return\n@ }", "function* f() { yield\n@ }", "async function f() { await\n@ }", "a ? b : c\n@", "a = b\n@",
    ]),
    ("P12", &[
        "@ = 1", "@++", "--@", "(@)++", "(@) = 1", "((@)) += 1", "delete @", "delete (@)", "delete @.a", "delete @[a]", "delete @()", "var @", "[@] = a", "({ @ } = a)", "({ a: @ } = b)", "({ a: [@] } = b)", "[...@] = a",
        "for (@ in a) b", "for (@ of a) b", "function @() { 'use strict' }", "function f(@) { 'use strict' }", "function f(a) { 'use strict'; @ }", "function f() { 'use strict'; @ = 1 }", "(function @() { 'use strict' })",
        "({ m(@) { 'use strict' } })", "({ @() { 'use strict' } })", "({ set a(@) { 'use strict' } })", "(@) => { 'use strict' }", "@ => { 'use strict' }", "async (@) => { 'use strict' }", "class @ {}", "class A extends @ {}",
        "class A { m() { @ } }", "class A { m() { @ = 1 } }", "class A { [@]() {} }", "class A { m(@) {} }", "class A { @() {} }", "(class extends @ {})", "try {} catch (@) {}", "@: a", "with (@) a", "({ @ })", "function f() { 'a'; @ }",
        "function f() { ('use strict'); @ }", "function f() { 'use strict' }; @", "() => { 'use strict' }; @", "class A {} @", "typeof @", "let @", "import(@)",
    ]),
];

/// Bodies the statement (`$`) stands in.
const FRAMES: &[&str] = &[
    "$", "'use strict'; $", "function f() { $ }", "function f() { 'use strict'; $ }", "function* g() { $ }", "async function h() { $ }", "async function* i() { $ }", "() => { $ }", "async () => { $ }",
    "() => { 'use strict'; $ }", "class C { m() { $ } }", "class C { static *m() { $ } }", "class C { async m() { $ } }", "({ get m() { $ } })", "({ *m() { $ } })", "({ async *m() { $ } })", "{ $ }",
    "(function () { $ })", "try { } finally { $ }", "class C extends D { constructor() { $ } }",
];

fn place(o: &mut Obs, place: &str, frame: &str, module: bool) {
    let stmt = frame.replace('$', place);
    let entry = if module { Entry::Module } else { Entry::Script };
    for w in WORDS {
        let src = stmt.replace('@', w);
        let r = refjs::parse_mode(&src, entry, module);
        o.counts.states += 1;
        o.counts.transitions += 1;
        grammar::compare_at(o, &src, entry, module, &r, &Mode::Shape);
    }
}

/// The words at the places of `prop` ("" for all of them).
pub fn run(run: &mut Run, prop: &str) {
    let mut places: Vec<&str> = PLACES.iter().filter(|p| prop.is_empty() || p.0 == prop).flat_map(|p| p.1).copied().collect();
    places.sort();
    places.dedup();
    let mut frames: Vec<String> = FRAMES.iter().map(|f| f.to_string()).collect();
    if !run.quick() {
        for f in FRAMES {
            frames.extend(FRAMES[1..].iter().map(|g| f.replace('$', g)));
        }
        frames.sort();
        frames.dedup();
    }
    let mut items = vec![];
    for p in &places {
        for f in &frames {
            items.push((*p, f, false));
            items.push((*p, f, true));
        }
    }
    let bound = format!("{} words at {} places in {} bodies, script and module", WORDS.len(), places.len(), frames.len());
    run.each("words", &bound, &items, |o, (p, f, m)| place(o, p, f, *m));
}

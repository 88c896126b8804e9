//! Many of the same: everything that may be repeated, side by side or one inside the other, in every
//! number up to a bound and around the numbers where a counter could overflow.
use crate::check::Run;
use crate::engine::Obs;
use crate::errs::{REPEATED, WRAPPERS};
use crate::refjs::Entry;

/// More of what can be repeated: `@` in the first text stands for the repetitions of the second, `#`
/// in that for their number.
const LISTS: &[(&str, &str)] = &[
    ("var a@", ",a# = #"), ("var [@] = a", "a# = #,"), ("var {@} = a", "b: a#,"), ("var [@...b] = a", ",a#"), ("let a@", ",a#"), ("const a = 0@", ",a# = 0"), ("function f(@b) {}", "a#,"), ("(@b) => c", "a# = #,"),
    ("async (@...b) => c", "a#,"), ("({ m(@) {} })", "[a#],"), ("class A {@}", "static m#() {}"), ("class A {@}", "get a#() {}set a#(b) {};"), ("({@})", "get a#() {},"), ("({@})", "async *[a#]() {},"), ("({@})", "...a#,"),
    ("[@]", "...a#,"), ("[@]", "a#,,"), ("f(@)", "...a#,"), ("new A(@)", "a#,"), ("a@", ".b#"), ("a@", "[#]"), ("a@", "(#)"), ("a@", "?.b#"), ("a@", "`t#`"), ("a@", " + a#"), ("a@", " - -a#"), ("a@", " ** a#"), ("a@", " && a#"),
    ("a@", " || a# && b"), ("a@", " ?? a#"), ("a@", " , a#"), ("a@", " = a#"), ("a@", " += a#"), ("a@", " in a#"), ("a@", " < a# == b"), ("a@", " & a# | b ^ c"), ("@b", "a# ? b : "), ("@b", "a# => "), ("@b", "async a# => "), ("@b", "typeof "),
    ("@b", "- "), ("@b", "!"), ("@b", "new "), ("@a()()", "new "), ("async () => { @b }", "await "), ("function* f() { @b }", "yield "), ("function* f() { @b }", "yield* "), ("@b", "a#: "), ("@b", "if (a#) "), ("@b; @", "if (a#) b; else "),
    ("@b", "for (;;) "), ("@b", "while (a#) "), ("@b", "with (a#) "), ("@b", "for (a of b#) "), ("@{}", "for (var a# in b) "), ("switch (a) {@}", "case a#: b;"), ("switch (a) {@ default: }", "case a#:"), ("@", "try {} catch (a#) {}"),
    ("@", "function f#(a#) { return a# }"), ("@", "class A# extends B {}"), ("@", "var a# = #\n"), ("@", "{ a# }"), ("@", ";"), ("@'use strict'", "'a#';"), ("function f() {@'use strict'; a}", "'a#'\n"), ("`@`", "a${a#}"), ("`@", "${`"), ("`a@`", "\\`"),
    ("@", "/a#/g;"), ("/@/", "\\/"), ("/[@]/", "/"), ("'@'", "\\u0061"), ("'@'", "\\u{61}"), ("'@'", "\\0"), ("'\\u{@61}'", "0"), ("\\u{@61}", "0"), ("a@", "\\u0061"), ("0x@", "f"), ("0b@", "1_"), ("1e@", "9"), ("1.@", "1_1"), ("@a", "\n"),
    ("@a", "/**/"), ("@a", "//#\n"), ("/*@*/a", "*"), ("/*@*/a", "/*"), ("@-->", "\n"), ("a@", "\u{2028}"), ("a@b", "\u{3000}"), ("\u{e9}@", "\u{4e2d}"), ("'@'", "\u{1d49c}"), ("@", "do a#; while (b) "), ("@", "break\n"),
    ("@", "import a# from 'm';"), ("import {@} from 'm'", "a# as b#,"), ("import { a@ } from 'm'", ",a# as b"), ("export {@}", "a# as b#,"), ("export {@} from 'm'", "default as b#,"), ("@", "export var a#;"), ("@", "export * as a# from 'm'\n"),
    ("@", "export function a#() {}"), ("@", "export class a# {}"), ("export default @b", "a# => "),
];

/// Tokens and gaps that may be long: `@` stands for repetitions of the second.
const LONG: &[(&str, &str)] = &[
    ("a@ + b", "c"), ("var a@ = b, c", "\u{4e2d}"), ("a.b@.c", "d"), ("({ a@: b, c })", "e"), ("a('@', b)", "c"), ("'@'; a\nb", "c"), ("a = '@' + b", "\\u{1d49c}"), ("a = \"@\"\nb", "'"), ("a(1@, b)", "0"), ("a(0x@ - b)", "f"),
    ("a(`@`, b)", "c"), ("a(`@${b}@`, c)", "\n"), ("a(/@/g, b)", "c"), ("a(/b/@, c)", "g"), ("a@+ b\nc", " "), ("a@b", "\n"), ("a /*@*/ b", "*"), ("a /*@*/ b", "\n"), ("a//@\nb", "c"), ("a: @ b", "\t"), ("@: b", "\u{1d49c}"),
    ("if (a@) b; else c", "d"), ("function a@(b) { c }", "d"), ("class A { a@() {} b() {} }", "c"), ("(a@, b) => c", "d"), ("for (const a@ of b) c", "d"),
];

fn one(around: &str, unit: &str, n: usize) -> String {
    let all: String = (0..n).map(|i| unit.replace('#', &i.to_string())).collect();
    around.replace('@', &all)
}

/// `f` on every text, as script and as module.
pub fn each(run: &mut Run, f: impl Fn(&mut Obs, &str, Entry, bool) + Sync) {
    let top = if run.quick() { 16 } else { 17 };
    up_to(run, top, f);
}

/// The same with tokens of up to about 2^`longest` characters.
pub fn up_to(run: &mut Run, longest: u32, f: impl Fn(&mut Obs, &str, Entry, bool) + Sync) {
    let top = run.pick(70, 300);
    let edges = [63, 64, 65, 127, 128, 129, 255, 256, 257];
    let counts: Vec<usize> = (0..=top).chain(edges.into_iter().filter(|n| *n > top)).collect();
    let items: Vec<(&str, &str)> = LISTS.iter().chain(REPEATED).copied().collect();
    let both = |o: &mut Obs, s: &str| {
        o.counts.states += 2;
        o.counts.transitions += 2;
        f(o, s, Entry::Script, false);
        f(o, s, Entry::Module, true);
    };
    let bound = format!("{} lists and chains with 0 to {top} (and up to 257) of one thing, on a stack of 64 MiB", items.len());
    run.each("many of the same", &bound, &items, |o, &(around, unit)| {
        for &n in &counts {
            both(o, &one(around, unit, n));
        }
    });
    let items: Vec<(usize, u32)> = (0..LONG.len()).flat_map(|i| (7..=longest).map(move |k| (i, k))).collect();
    run.each("long tokens", &format!("{} texts with a token or gap of a length around the powers of two from 2^7 to 2^{longest}", LONG.len()), &items, |o, &(i, k)| {
        for n in (1 << k) - 2..=(1 << k) + 1 {
            both(o, &LONG[i].0.replace('@', &LONG[i].1.repeat(n)));
        }
    });
    // Each level of a nesting may double the reference's work.
    let pairs: Vec<(usize, usize)> = (0..WRAPPERS.len()).flat_map(|i| (0..WRAPPERS.len()).map(move |j| (i, j))).collect();
    let depth = run.pick(8, 10);
    run.each("nested in turn", &format!("every pair of {} wrappers, nested 1 to {depth} times in turn", WRAPPERS.len()), &pairs, |o, &(i, j)| {
        let (mut a, mut b) = (String::new(), String::new());
        for k in 0..depth {
            let w = WRAPPERS[if k % 2 == 0 { i } else { j }];
            a.push_str(w.0);
            b.insert_str(0, w.1);
            for s in [format!("x={a}a{b}"), format!("({a}a{b})=>1"), format!("async()=>{{{a}a{b}}}")] {
                both(o, &s);
            }
        }
    });
}

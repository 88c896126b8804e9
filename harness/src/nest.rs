//! Every nesting of constructs that holds one of a property's own, against the reference grammar.
use crate::check::Run;
use crate::engine::Obs;
use crate::grammar::{self, Mode};
use crate::refjs::{self, Entry};
use crate::terms::{self, About};

/// Which templates belong to a property.
fn about(id: &str) -> fn(&str) -> bool {
    fn any(t: &str, words: &[&str]) -> bool {
        words.iter().any(|w| t.contains(w))
    }
    match id {
        "P02" => |t| {
            let t = t.replace("=>", "");
            any(
                &t,
                &[
                    "++", "--", "+$", "-$", "!$", "~$", "typeof", "delete", "void", "await $E", "$E*", "$E/", "$E<", "$E in", "$E>", "$E&",
                    "$E|", "$E??", "$E?$", "$E==", "instanceof", "a=$E", "a+=", ".b=", "$E,$E", "($E)",
                ],
            ) && !t.ends_with("$S")
                && !t.ends_with(';')
        },
        "P03" => |t| any(t, &["$E.", "$E[", "$E?.", "$E(", "new ", "new.", "$E`", "`x", "import(", "import.", "super"]),
        "P04" => |t| {
            any(t, &["$A", "$Q", "$B"]) || terms::BINDS.contains(&t) || terms::TARGETS.contains(&t) || terms::AFIELDS.contains(&t) || t.starts_with('[') || t.starts_with("({")
        },
        "P05" => |t| any(t, &["function", "=>", "yield", "await", "return"]) || terms::PARAMS.contains(&t),
        "P06" => |t| any(t, &["class", "({", "super"]) || t == "{}" || terms::ELEMENTS.contains(&t),
        "P07" => |t| terms::STMTS.contains(&t) && t != "$E;" && !t.contains("for(") && !t.contains("class") && !t.starts_with('\''),
        "P08" => |t| any(t, &["for(", "for await", " in "]),
        "P09" => |t| any(t, &["import", "export"]),
        _ => |_| true,
    }
}

fn one(o: &mut Obs, src: &str, e: Entry) {
    let r = refjs::parse_mode(src, e, e == Entry::Module);
    grammar::compare_at(o, src, e, e == Entry::Module, &r, &Mode::Shape);
}

/// A state that is derived from another.
fn also(o: &mut Obs, src: &str, e: Entry) {
    o.counts.states += 1;
    o.counts.transitions += 1;
    one(o, src, e);
}

/// Every way to leave a semicolon out, or to put a line break in its place or in that of a space.
fn semicolons(o: &mut Obs, s: &str, e: Entry) {
    one(o, s, e);
    also(o, &s.replace(';', "\n"), e);
    for (i, c) in s.char_indices() {
        let (before, after) = (&s[..i], &s[i + c.len_utf8()..]);
        match c {
            ';' => {
                also(o, &format!("{before}{after}"), e);
                also(o, &format!("{before}\n{after}"), e);
            }
            ' ' => also(o, &format!("{before}\n{after}"), e),
            ')' | ']' | '}' | '=' => also(o, &format!("{before}{c}\n{after}"), e),
            _ => {}
        }
    }
}

/// The same text under a directive, beside a body with one, and in code that is always strict.
const STRICT: &[(&str, &str)] = &[
    ("'use strict';", ""),
    ("function s(){'use strict';", "}with(a)yield;"),
    ("'a';'use strict';'b';x=>{", "}"),
    ("function s(){'use strict'}", ""),
    ("function s(){", "\n'use strict'}"),
    ("x={s(){'use strict';", "}};with(a)yield;"),
    ("class s{m(){", "}}with(a)yield;"),
];

fn strict(o: &mut Obs, s: &str, places: &[(&str, &str)]) {
    for (before, after) in places {
        also(o, &format!("{before}{s}{after}"), Entry::Script);
    }
}

pub fn run(run: &mut Run, id: &str) {
    // All templates; only the property's own.
    let (n, deep) = (3, depth(id, run));
    match id {
        "P10" => {
            terms::explore(run, &terms::SCRIPT, n, |o, s| semicolons(o, s, Entry::Script));
            terms::explore(run, &terms::MODULE, run.pick(2, 3), |o, s| semicolons(o, s, Entry::Module));
        }
        "P12" => {
            terms::explore(run, &terms::SCRIPT, run.pick(2, 3), |o, s| strict(o, s, STRICT));
            terms::explore(run, &terms::SCRIPT, run.pick(3, 0), |o, s| strict(o, s, &STRICT[..2]));
        }
        _ => {
            let about: About = Some(about(id));
            if id != "P09" {
                terms::explore_about(run, &terms::SCRIPT, about, false, n, |o, s| one(o, s, Entry::Script));
                terms::explore_about(run, &terms::SCRIPT, about, true, deep, |o, s| one(o, s, Entry::Script));
            }
            terms::explore_about(run, &terms::MODULE, about, false, n, |o, s| one(o, s, Entry::Module));
            if id == "P09" {
                terms::explore_about(run, &terms::MODULE, about, true, deep, |o, s| one(o, s, Entry::Module));
            }
        }
    }
}

/// How deep a property's own templates are nested.
fn depth(id: &str, run: &Run) -> usize {
    match id {
        "P02" | "P04" | "P07" => 4,
        "P08" | "P09" => run.pick(5, 7),
        _ => run.pick(5, 6),
    }
}

//! Ranges of nodes, against the ranges the reference grammar derives.
use crate::check::{entry_of, Run};
use crate::engine::{Obs, World};
use crate::grammar::{self, Mode};
use crate::refjs::{self, Entry};
use crate::terms;

fn one(o: &mut Obs, src: &str, e: Entry, module: bool) {
    let r = refjs::parse_mode(src, e, module);
    grammar::compare_at(o, src, e, module, &r, &Mode::Spans);
}

/// The same text with white space and comments around and a wide character in front.
fn shifted(o: &mut Obs, src: &str, e: Entry, module: bool) {
    one(o, src, e, module);
    one(o, &format!(" /*\u{4e2d}*/\n {src} // \u{e9}\n"), e, module);
}

pub fn run(run: &mut Run) {
    crate::many::each(run, shifted);
    let size = run.pick(3, 4);
    terms::explore(run, &terms::SCRIPT, size, |o, s| shifted(o, s, Entry::Script, false));
    terms::explore(run, &terms::MODULE, size, |o, s| shifted(o, s, Entry::Module, true));
    terms::explore(run, &terms::EXPR, size - 1, |o, s| shifted(o, s, Entry::Expr, false));
    let quick = run.quick();
    let visit = |o: &mut Obs, w: &World, s: &str, r: &refjs::Outcome| grammar::compare(o, w, s, r, &Mode::Spans);
    run.worlds(crate::worlds::WIDE, |w| if quick { w.quick } else { w.thorough }, &visit);
    for (_, ws) in crate::groups() {
        let cut = run.pick(1, 0);
        run.worlds(ws, |w| w.quick - cut.min(w.quick), &visit);
    }
}

pub fn case(o: &mut Obs, entry: &str, src: &str) {
    let (e, m) = entry_of(entry);
    one(o, src, e, m);
}

//! Parsing context: every nesting of context constructs around every probe, against the reference grammar.
use crate::check::Run;
use crate::engine::Obs;
use crate::grammar::{self, Mode};
use crate::refjs::{self, Entry};
use crate::terms;
use crate::words;

fn one(o: &mut Obs, src: &str, e: Entry) {
    let r = refjs::parse_mode(src, e, e == Entry::Module);
    grammar::compare_at(o, src, e, e == Entry::Module, &r, &Mode::Shape);
}

pub fn run(run: &mut Run) {
    let (s, m, d) = run.pick((4, 3, 5), (4, 4, 6));
    terms::explore(run, &terms::CONTEXTS_DEEP, d, |o, t| one(o, t, Entry::Script));
    terms::explore(run, &terms::CONTEXTS_DEEP, d - 1, |o, t| one(o, t, Entry::Module));
    terms::explore(run, &terms::CONTEXTS, s, |o, t| one(o, t, Entry::Script));
    terms::explore(run, &terms::CONTEXTS, m, |o, t| one(o, t, Entry::Module));
    words::run(run, "");
}

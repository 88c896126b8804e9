//! The implementation's verdict and tree against the reference grammar's.
use crate::engine::{Obs, World};
use crate::imp::{self, Imp};
use crate::refjs::{Entry, Outcome};

pub enum Mode {
    Shape,
    Spans,
}

pub fn compare(o: &mut Obs, w: &World, src: &str, r: &Outcome, mode: &Mode) {
    compare_at(o, src, w.entry(), w.module, r, mode)
}

pub fn entry_name(e: Entry) -> &'static str {
    match e {
        Entry::Script => "script",
        Entry::Module => "module",
        Entry::Expr => "expr",
        Entry::Stmt => "stmt",
    }
}

pub fn compare_at(o: &mut Obs, src: &str, entry: Entry, module: bool, r: &Outcome, mode: &Mode) {
    if r.unclaimed {
        o.counts.unclaimed += 1;
        return;
    }
    o.start(entry_name(entry), src);
    let got = imp::parse(src, entry, module);
    o.done();
    o.counts.replays += 1;
    match (&r.tree, got) {
        (Some(want), Imp::Tree(t)) => {
            let got = t.tree();
            o.counts.accepted += 1;
            o.sample(src);
            if !want.same_shape(&got) {
                if let Some(ids) = explained(src, entry, module, &got) {
                    o.counts.known(&ids, src);
                } else if matches!(mode, Mode::Shape) {
                    o.violation(entry_name(entry), src, format!("tree: expected {}\n      got {}", want.show(), got.show()));
                }
            } else if matches!(mode, Mode::Spans) {
                let mut bad = None;
                let mut short = false;
                want.span_diffs(&got, &mut |a, b| {
                    if a.s == b.s && a.has_span() && b.e as usize == short_end(src, a.e as usize) {
                        short = true;
                    } else if bad.is_none() {
                        bad = Some((a, b));
                    }
                });
                if let Some((a, b)) = bad {
                    o.violation(entry_name(entry), src, format!("range of {}: expected {}:{} got {}:{}", a.k, a.s, a.e, b.s, b.e));
                } else if short {
                    o.counts.known("non-ascii-end", src);
                }
            }
        }
        (None, Imp::Rejected(_)) => o.counts.rejected += 1,
        (_, Imp::Panicked(p)) => o.violation(entry_name(entry), src, format!("panic: {p}")),
        (Some(t), Imp::Rejected(e)) => {
            if matches!(mode, Mode::Shape) {
                o.violation(entry_name(entry), src, format!("rejected ({e}); expected {}", t.show()))
            }
        }
        (None, Imp::Tree(t)) => {
            if matches!(mode, Mode::Shape) {
                o.violation(entry_name(entry), src, format!("accepted as {}; the grammar has no derivation", t.tree().show()))
            }
        }
    }
}

/// Where an item is said to end, by the finding `non-ascii-end`: its last character counts its
/// UTF-16 length.
pub fn short_end(src: &str, end: usize) -> usize {
    match src.get(..end).and_then(|s| s.chars().last()) {
        Some(c) => end - c.len_utf8() + c.len_utf16(),
        None => end,
    }
}

/// The deviations, if any, that together make the reference derive the implementation's tree.
pub fn explained(src: &str, entry: Entry, module: bool, got: &crate::node::N) -> Option<String> {
    use crate::refjs::{parse_quirks, QUIRKS};
    let with = |q: u8| parse_quirks(src, entry, module, q).tree;
    let all = QUIRKS.iter().fold(0, |a, q| a | q.0);
    if !with(all)?.same_shape(got) {
        return None;
    }
    // Only the deviations that matter for this text.
    let mut need = all;
    for (q, _, _) in QUIRKS {
        if with(need & !q).is_some_and(|t| t.same_shape(got)) {
            need &= !q;
        }
    }
    Some(QUIRKS.iter().filter(|q| need & q.0 != 0).map(|q| q.1).collect::<Vec<_>>().join("+"))
}

//! Every string over an alphabet up to a length.
use crate::check::Run;
use crate::engine::Obs;

/// Visits every concatenation of up to `n` of the pieces. A state is a string, a transition appends a piece.
pub fn explore(run: &mut Run, name: &str, pieces: &[&str], n: usize, visit: impl Fn(&mut Obs, &str) + Sync) {
    let k = pieces.len();
    // Work items: all prefixes of length up to 2 (those below 2 on their own, those of 2 with everything after).
    let mut items: Vec<Vec<usize>> = vec![vec![]];
    if n >= 1 {
        items.extend((0..k).map(|i| vec![i]));
    }
    if n >= 2 {
        for i in 0..k {
            items.extend((0..k).map(|j| vec![i, j]));
        }
    }
    let bound = format!("all strings of up to {n} of {k} pieces");
    run.each(name, &bound, &items, |o, prefix| {
        let mut s: String = prefix.iter().map(|&i| pieces[i]).collect();
        let mut go = |s: &str| {
            o.counts.states += 1;
            o.counts.transitions += !s.is_empty() as u64;
            visit(o, s)
        };
        if prefix.len() < 2 {
            go(&s);
        } else {
            below(&mut s, pieces, n - 2, &mut go);
        }
    });
}

fn below(s: &mut String, pieces: &[&str], left: usize, go: &mut dyn FnMut(&str)) {
    go(s);
    if left == 0 {
        return;
    }
    for p in pieces {
        let len = s.len();
        s.push_str(p);
        below(s, pieces, left - 1, go);
        s.truncate(len);
    }
}

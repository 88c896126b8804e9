//! Neutral tree: what the reference model derives and what the implementation's tree is mapped to.
use std::fmt::Write;

pub const NOSPAN: u32 = u32::MAX;

#[derive(Clone, Debug, PartialEq)]
pub struct N {
    pub k: &'static str,
    pub s: u32,
    pub e: u32,
    pub t: String,
    pub c: Vec<N>,
}

impl N {
    pub fn new(k: &'static str, s: usize, e: usize, t: impl Into<String>, c: Vec<N>) -> N {
        N { k, s: s as u32, e: e as u32, t: t.into(), c }
    }
    pub fn bare(k: &'static str, t: impl Into<String>, c: Vec<N>) -> N {
        N { k, s: NOSPAN, e: NOSPAN, t: t.into(), c }
    }
    pub fn hole() -> N {
        N::bare("-", "", vec![])
    }
    pub fn has_span(&self) -> bool {
        self.s != NOSPAN
    }
    /// Same structure and payloads, ranges ignored.
    pub fn same_shape(&self, o: &N) -> bool {
        self.k == o.k && self.t == o.t && self.c.len() == o.c.len()
            && self.c.iter().zip(&o.c).all(|(a, b)| a.same_shape(b))
    }
    /// First node (pre-order) whose shapes agree but whose ranges differ.
    pub fn span_diff<'a>(&'a self, o: &'a N) -> Option<(&'a N, &'a N)> {
        if self.s != o.s || self.e != o.e {
            return Some((self, o));
        }
        for (a, b) in self.c.iter().zip(&o.c) {
            if let Some(d) = a.span_diff(b) {
                return Some(d);
            }
        }
        None
    }
    /// Pairs of nodes whose ranges differ, shapes being the same.
    pub fn span_diffs<'a>(&'a self, o: &'a N, f: &mut dyn FnMut(&'a N, &'a N)) {
        if self.s != o.s || self.e != o.e {
            f(self, o);
        }
        for (a, b) in self.c.iter().zip(&o.c) {
            a.span_diffs(b, f);
        }
    }
    pub fn count(&self) -> usize {
        1 + self.c.iter().map(|c| c.count()).sum::<usize>()
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s, false);
        s
    }
    pub fn show_spans(&self) -> String {
        let mut s = String::new();
        self.show_into(&mut s, true);
        s
    }
    fn show_into(&self, o: &mut String, spans: bool) {
        if self.k == "-" {
            o.push('-');
            return;
        }
        let _ = write!(o, "({}", self.k);
        if spans && self.has_span() {
            let _ = write!(o, "@{}:{}", self.s, self.e);
        }
        if !self.t.is_empty() {
            let _ = write!(o, " {:?}", self.t);
        }
        for c in &self.c {
            o.push(' ');
            c.show_into(o, spans);
        }
        o.push(')');
    }
}

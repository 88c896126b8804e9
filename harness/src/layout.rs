//! White space and comments between tokens: every placement of every layout element in every
//! explored program.
use crate::check::{entry_of, Run};
use crate::engine::{Obs, World};
use crate::grammar::{self, entry_name, Mode};
use crate::imp::{self, Imp};
use crate::node::N;
use crate::refjs::{self, Entry, Outcome};
use crate::terms;

/// Layout without a line break, and with one.
const INLINE: &[&str] = &["", " ", "\t", "\u{b}\u{c}", "\u{a0}", "\u{feff}\u{2003}",
    "\u{1680}\u{2000}\u{2001}\u{2002}\u{2003}\u{2004}\u{2005}\u{2006}\u{2007}\u{2008}\u{2009}\u{200a}\u{202f}\u{205f}\u{3000}\t\u{b}\u{c} \u{a0}\u{feff}", "/**/", "/*a*/", " /***/ ", "/*//*/", "/*'\"`${*/", "/* \u{4e2d}/ */"];
const BREAKING: &[&str] = &["\n", "\r", "\r\n", "\u{2028}", "\u{2029} ", "/*\n*/", "//a\n", " // /*\r\n", "/*\u{2029}*/", "/**/\n/**/", "//\u{4e2d}\u{2028}", "//a\r", "//\u{2029}", "/*\r*/", "/***\u{2028}**/ "];
/// Not white space to the grammar.
const OTHER: &[&str] = &["\u{180e}", "\u{200b}", "\u{85}", "\u{1c}", "\u{2060}", "\u{200e}"];
const HTML: &[&str] = &["<!--x\n", "\n--> x\n", "/*\n*/-->\n", "<!--x\r", "\r--> x\u{2028}", "\n/**/ /*a*/ -->\u{2029}"];

type Tokens = Vec<(usize, usize)>;

/// The text with the gaps in front of tokens (and after the last) replaced, and where its tokens are then.
fn relaid(src: &str, tokens: &Tokens, gap: impl Fn(usize) -> Option<&'static str>) -> (String, Tokens) {
    let mut out = String::new();
    let mut at = vec![];
    let mut end = 0;
    for (i, &(s, e)) in tokens.iter().enumerate() {
        out.push_str(gap(i).unwrap_or(&src[end..s]));
        at.push((out.len(), out.len() + e - s));
        out.push_str(&src[s..e]);
        end = e;
    }
    out.push_str(match gap(tokens.len()) {
        Some(g) if src[end..].trim().is_empty() => g,
        _ => &src[end..],
    });
    (out, at)
}

/// The tree with its ranges moved along with its tokens.
fn moved(n: &N, from: &Tokens, to: &Tokens) -> N {
    let mut m = n.clone();
    if n.has_span() {
        if let Ok(i) = from.binary_search_by_key(&(n.s as usize), |t| t.0) {
            m.s = to[i].0 as u32;
        }
        if n.s == n.e {
            m.e = m.s; // an item without text stands in front of the next token
        } else if let Ok(i) = from.binary_search_by_key(&(n.e as usize), |t| t.1) {
            m.e = to[i].1 as u32;
        }
    }
    m.c = n.c.iter().map(|c| moved(c, from, to)).collect();
    m
}

struct Base<'a> {
    src: &'a str,
    entry: Entry,
    module: bool,
    r: Outcome,
    tokens: Tokens,
    tree: Option<N>,
}

fn variant(o: &mut Obs, b: &Base, gap: impl Fn(usize) -> Option<&'static str>) {
    let (text, at) = relaid(b.src, &b.tokens, gap);
    if text == b.src {
        return;
    }
    o.counts.states += 1;
    o.counts.transitions += 1;
    let r = refjs::parse_mode(&text, b.entry, b.module);
    if r.unclaimed {
        o.counts.unclaimed += 1;
        return;
    }
    let name = entry_name(b.entry);
    match (&r.tree, &b.r.tree) {
        (Some(new), Some(old)) if new.same_shape(old) => {}
        // The line break, or two tokens becoming one, matters here: the grammar decides.
        // (An expression on its own ends where it cannot go on; what follows is not looked at.)
        (Some(_), _) if b.entry == Entry::Expr => return,
        (Some(_), _) => return grammar::compare_at(o, &text, b.entry, b.module, &r, &Mode::Shape),
        (None, _) => {
            o.start(name, &text);
            let got = imp::parse(&text, b.entry, b.module);
            o.done();
            o.counts.replays += 1;
            o.counts.rejected += 1;
            match got {
                Imp::Rejected(_) => {}
                Imp::Tree(t) => o.violation(name, text, format!("accepted as {}; {:?} is not", t.tree().show(), b.src)),
                Imp::Panicked(p) => o.violation(name, text, format!("panic: {p}")),
            }
            return;
        }
    }
    let Some(old) = &b.tree else { return };
    o.start(name, &text);
    let got = imp::parse(&text, b.entry, b.module);
    o.done();
    o.counts.replays += 1;
    o.counts.accepted += 1;
    o.sample(&text);
    match got {
        Imp::Rejected(e) => o.violation(name, text, format!("rejected ({e}); {:?} is not", b.src)),
        Imp::Panicked(p) => o.violation(name, text, format!("panic: {p}")),
        Imp::Tree(t) => {
            let want = moved(old, &b.tokens, &at);
            let got = t.tree();
            if got != want {
                let how = if got.same_shape(&want) { "ranges" } else { "tree" };
                o.violation(name, text, format!("{how}: {}\n      {:?} has {}", got.show_spans(), b.src, old.show_spans()));
            }
        }
    }
}

fn visit(o: &mut Obs, src: &str, entry: Entry, module: bool, rejected: bool, pairs: bool) {
    let (r, tokens) = refjs::parse_tokens(src, entry, module);
    o.counts.states += 1;
    if r.unclaimed || (r.tree.is_none() && !rejected) {
        return;
    }
    o.start(entry_name(entry), src);
    let tree = match (imp::parse(src, entry, module), &r.tree) {
        (Imp::Tree(t), Some(_)) => Some(t.tree()),
        (Imp::Rejected(_), None) => None,
        _ => return o.done(), // the grammar properties report it
    };
    o.done();
    let b = Base { src, entry, module, r, tokens, tree };
    let n = b.tokens.len();
    let html: &[&str] = if module { &[] } else { HTML };
    let all = || INLINE.iter().chain(BREAKING).chain(html).chain(OTHER).copied();
    for l in all() {
        for i in 0..=n {
            variant(o, &b, |g| (g == i).then_some(l));
        }
        variant(o, &b, |_| Some(l));
        variant(o, &b, |g| (g % 2 == 0).then_some(l));
    }
    if pairs {
        const FEW: [&str; 5] = ["", "/**/", "\n", "/*\n*/", "//\r\n"];
        for i in 0..=n {
            for j in i + 1..=n {
                for x in FEW {
                    for y in FEW {
                        variant(o, &b, |g| if g == i { Some(x) } else if g == j { Some(y) } else { None });
                    }
                }
            }
        }
    }
}

pub fn run(run: &mut Run) {
    let quick = run.quick();
    let size = run.pick(2, 3);
    let pairs = !quick;
    terms::explore(run, &terms::SCRIPT, size, |o, s| visit(o, s, Entry::Script, false, true, pairs && s.len() < 40));
    terms::explore(run, &terms::MODULE, size, |o, s| visit(o, s, Entry::Module, true, true, pairs && s.len() < 40));
    terms::explore(run, &terms::EXPR, size, |o, s| visit(o, s, Entry::Expr, false, true, pairs && s.len() < 40));
    let cut = run.pick(3, 2);
    for (_, ws) in crate::groups() {
        run.worlds(ws, |w| w.quick - cut.min(w.quick), &|o, w: &World, s, r| {
            // Rejected texts only where they are one token away from an accepted one.
            visit(o, s, w.entry(), w.module, r.viable, false)
        });
    }
    run.assumptions.push("whether a line break or the absence of a gap matters is decided by the reference grammar".into());
}

pub fn case(o: &mut Obs, entry: &str, src: &str) {
    let (e, m) = entry_of(entry);
    let r = refjs::parse_mode(src, e, m);
    grammar::compare_at(o, src, e, m, &r, &Mode::Spans);
    visit(o, src, e, m, true, true);
}

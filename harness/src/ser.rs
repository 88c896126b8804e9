//! Trees written to JSON and read back; the text form of positions.
use crate::check::{entry_of, Run};
use crate::engine::{Obs, World};
use crate::grammar::entry_name;
use crate::imp::{self, Ast, Imp};
use crate::refjs::Entry;
use crate::terms;
use fajt_ast::{Expr, Program, Span, Stmt};
use serde::{de::DeserializeOwned, Serialize};

fn same<T: Serialize + DeserializeOwned + PartialEq>(t: &T) -> Result<T, String> {
    let text = serde_json::to_string(t).map_err(|e| format!("not written: {e}"))?;
    // The reader's own limit on nesting (128 levels of JSON) is set aside: the
    // texts in `many` go deeper.
    let mut reader = serde_json::Deserializer::from_str(&text);
    reader.disable_recursion_limit();
    let back = T::deserialize(&mut reader)
        .and_then(|back| reader.end().map(|()| back))
        .map_err(|e| format!("not read back: {e}: {text}"))?;
    if &back != t {
        return Err(format!("another tree is read back from {text}"));
    }
    let again = serde_json::to_string(&back).map_err(|e| e.to_string())?;
    if again != text {
        return Err(format!("{text} is read back and written as {again}"));
    }
    // The pretty form and the value form carry the same.
    let value = serde_json::to_value(t).map_err(|e| e.to_string())?;
    let back: T = serde_json::from_value(value).map_err(|e| format!("not read back from a value: {e}"))?;
    if &back != t {
        return Err(format!("another tree is read back from the value of {text}"));
    }
    Ok(back)
}

pub fn visit(o: &mut Obs, src: &str, entry: Entry, module: bool) {
    let name = entry_name(entry);
    o.start(name, src);
    match imp::parse(src, entry, module) {
        Imp::Tree(t) => {
            o.counts.accepted += 1;
            o.counts.replays += 1;
            o.sample(src);
            let tree = t.tree();
            let back = imp::guard(|| match &t {
                Ast::P(p) => same::<Program>(p).map(Ast::P),
                Ast::S(p) => same::<Stmt>(p).map(Ast::S),
                Ast::E(p) => same::<Expr>(p).map(Ast::E),
            });
            match back {
                Ok(Ok(b)) => {
                    if b.tree() != tree {
                        o.violation(name, src, format!("read back as {}, was {}", b.tree().show_spans(), tree.show_spans()));
                    }
                }
                Ok(Err(w)) => o.violation(name, src, w),
                Err(p) => o.violation(name, src, format!("panic: {p}")),
            }
        }
        _ => o.counts.rejected += 1,
    }
    o.done();
}

/// A text as a position: two numbers around a colon, or refused.
fn span_text(o: &mut Obs, text: &str) {
    o.start("span", text);
    o.counts.replays += 1;
    let json = serde_json::to_string(text).unwrap();
    let got = imp::guard(|| serde_json::from_str::<Span>(&json));
    let number = |t: &str| {
        let digits = !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
        if digits { t.parse::<usize>().ok() } else { None }
    };
    let want = text.split_once(':').and_then(|(a, b)| Some((number(a)?, number(b)?)));
    match got {
        Err(p) => o.violation("span", text, format!("panic: {p}")),
        Ok(r) => {
            let got = r.ok().map(|s| (s.start, s.end));
            if got != want && !text.contains('+') {
                o.violation("span", text, format!("read as {got:?}, expected {want:?}"));
            } else if let Some((a, b)) = got {
                o.counts.accepted += 1;
                let t = serde_json::to_string(&Span::new(a, b)).unwrap();
                if t != format!("\"{a}:{b}\"") {
                    o.violation("span", text, format!("written as {t}"));
                }
            } else {
                o.counts.rejected += 1;
            }
        }
    }
    o.done();
}

pub fn run(run: &mut Run) {
    let n = run.pick(6, 8);
    crate::strings::explore(run, "position texts", &["0", "1", "9", ":", "-", "+", " ", "a", "."], n, |o, s| span_text(o, s));
    crate::many::each(run, visit);
    let size = run.pick(3, 4);
    terms::explore(run, &terms::SCRIPT, size, |o, s| visit(o, s, Entry::Script, false));
    terms::explore(run, &terms::MODULE, size, |o, s| visit(o, s, Entry::Module, true));
    terms::explore(run, &terms::EXPR, size - 1, |o, s| visit(o, s, Entry::Expr, false));
    for (_, ws) in crate::groups() {
        let cut = run.pick(2, 1);
        run.worlds(ws, |w| w.quick - cut.min(w.quick), &|o, w: &World, s, _| visit(o, s, w.entry(), w.module));
    }
}

pub fn case(o: &mut Obs, entry: &str, src: &str) {
    if entry == "span" {
        return span_text(o, src);
    }
    let (e, m) = entry_of(entry);
    visit(o, src, e, m);
}

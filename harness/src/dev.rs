//! Development commands: the reference model against the repository's snapshots, single inputs.
use crate::imp::{self, Imp};
use crate::refjs::{self, Entry};
use fajt_testing::markdown::Markdown;
use std::path::Path;

fn walk(p: &Path, out: &mut Vec<String>) {
    if p.is_dir() {
        let mut v: Vec<_> = std::fs::read_dir(p).unwrap().map(|e| e.unwrap().path()).collect();
        v.sort();
        v.iter().for_each(|p| walk(p, out));
    } else if p.extension().is_some_and(|e| e == "md") {
        out.push(p.to_str().unwrap().to_string());
    }
}

pub struct Case {
    pub path: String,
    pub src: String,
    pub entry: Entry,
    pub module: bool,
    pub ast: Option<String>,
    pub error: bool,
}

pub fn cases(root: &str) -> Vec<Case> {
    let mut files = vec![];
    walk(Path::new(root), &mut files);
    let mut v = vec![];
    for path in files {
        let data = std::fs::read_to_string(&path).unwrap();
        let md = Markdown::from_string(&data);
        let Some(b) = md.get_block("Source") else { continue };
        let module = b.language.contains("source:module");
        let entry = if b.language.contains("parse:expr") {
            Entry::Expr
        } else if b.language.contains("parse:stmt") {
            Entry::Stmt
        } else if module {
            Entry::Module
        } else {
            Entry::Script
        };
        v.push(Case {
            src: b.contents.to_string(),
            entry,
            module,
            ast: md.get_block_content("Output: ast").map(|s| s.to_string()),
            error: md.get_section("Output: error").is_some(),
            path,
        });
    }
    v
}

pub fn snap() {
    let (mut n, mut bad) = (0, 0);
    for c in cases("/repo/tests/cases") {
        n += 1;
        let r = refjs::parse_mode(&c.src, c.entry, c.module);
        let want = c.ast.as_ref().map(|a| match c.entry {
            Entry::Expr => imp::Ast::E(serde_json::from_str(a).unwrap()).tree(),
            Entry::Stmt => imp::Ast::S(serde_json::from_str(a).unwrap()).tree(),
            _ => imp::Ast::P(serde_json::from_str(a).unwrap()).tree(),
        });
        let msg = match (&r.tree, &want) {
            (Some(t), Some(w)) if t == w => continue,
            (Some(t), Some(w)) => format!("differ:\n  ref  {}\n  snap {}", t.show_spans(), w.show_spans()),
            (None, None) => continue,
            (Some(_), None) if c.error => "reference accepts, snapshot is an error".into(),
            (Some(_), None) => continue,
            (None, Some(_)) => format!("reference rejects at {}", r.far),
        };
        bad += 1;
        println!("{} {:?}\n  {}", c.path, c.src, msg);
    }
    println!("{n} cases, {bad} differences");
}

pub fn one(entry: &str, src: &str) {
    let (e, m) = match entry {
        "script" => (Entry::Script, false),
        "module" => (Entry::Module, true),
        "expr" => (Entry::Expr, false),
        _ => (Entry::Stmt, false),
    };
    let r = refjs::parse_mode(src, e, m);
    match &r.tree {
        Some(t) => println!("ref: {}", t.show_spans()),
        None => println!("ref: rejects at {} viable={}", r.far, r.viable),
    }
    match imp::parse(src, e, m) {
        Imp::Tree(t) => println!("imp: {}", t.tree().show_spans()),
        Imp::Rejected(e) => println!("imp: rejects {e:?}"),
        Imp::Panicked(p) => println!("imp: PANIC {p}"),
    }
}

/// Explores the worlds whose group or name matches, printing the shortest disagreements.
pub fn worlds(depth: usize, max: usize, mode: &str, filter: &[&str]) {
    use crate::{engine, grammar};
    let mode = if mode == "spans" { grammar::Mode::Spans } else { grammar::Mode::Shape };
    for (g, ws) in crate::groups() {
        for w in ws {
            if !filter.is_empty() && !filter.iter().any(|f| *f == g || w.name == *f) {
                continue;
            }
            let t = std::time::Instant::now();
            let d = if depth == 0 { w.quick } else if depth == 100 { w.thorough } else { depth };
            let (c, v) = engine::explore(w, d, &|o, w, s, r| grammar::compare(o, w, s, r, &mode));
            println!(
                "== {g} {} depth {d}: states {} viable {} accepted {} rejected {} violations {} ({:.1}s)",
                w.name, c.states, c.viable, c.accepted, c.rejected, v.len(), t.elapsed().as_secs_f64()
            );
            for v in v.iter().take(max) {
                println!("   {:?}\n      {}", v.src, v.what);
            }
        }
    }
}

/// Every state of the worlds with the reference's verdict, for comparison with another parser.
pub fn dump(depth: usize, filter: &str) {
    use crate::engine;
    use std::io::Write;
    let out = std::sync::Mutex::new(std::io::BufWriter::new(std::io::stdout()));
    for (g, ws) in crate::groups() {
        for w in ws {
            if filter != "all" && filter != g && filter != w.name {
                continue;
            }
            engine::explore(w, depth.min(w.quick), &|_, w, s, r| {
                if r.unclaimed {
                    return;
                }
                let t = r.tree.as_ref().map(json);
                let line = serde_json::json!([w.module, s, t]).to_string();
                writeln!(out.lock().unwrap(), "{line}").unwrap();
            });
        }
    }
}

fn json(n: &crate::node::N) -> serde_json::Value {
    serde_json::json!([n.k, n.s, n.e, n.t, n.c.iter().map(json).collect::<Vec<_>>()])
}

/// The repository's own expectations of the code generator (its tests do not assert them).
pub fn fmt(show: usize) {
    use fajt_codegen::{generate_code, GeneratorContext};
    let mut files = vec![];
    walk(Path::new("/repo/tests/cases"), &mut files);
    let (mut np, mut okp, mut nm, mut okm, mut shown) = (0, 0, 0, 0, 0);
    for c in cases("/repo/tests/cases") {
        let data = std::fs::read_to_string(&c.path).unwrap();
        let md = Markdown::from_string(&data);
        let lang = md.get_block("Source").unwrap().language;
        let gen = |min: bool| -> Option<Result<String, String>> {
            let Imp::Tree(mut t) = imp::parse(&c.src, c.entry, c.module) else { return None };
            let mut ctx = GeneratorContext::new();
            ctx.minified = min;
            Some(imp::guard(|| match &mut t {
                imp::Ast::P(p) => generate_code(p, ctx),
                imp::Ast::S(p) => generate_code(p, ctx),
                imp::Ast::E(p) => generate_code(p, ctx),
            }))
        };
        if !lang.contains("check-format:no") {
            if let Some(g) = gen(false) {
                np += 1;
                let g = g.unwrap_or_else(|e| e);
                let ok = if c.entry == Entry::Expr { g.trim() == c.src.trim() } else { g == c.src };
                okp += ok as usize;
                if !ok && shown < show {
                    shown += 1;
                    println!("PRETTY {}\n{:?}\n{:?}", c.path, c.src, g);
                }
            }
        }
        if let Some(want) = md.get_block_content("Output: minified") {
            if let Some(g) = gen(true) {
                nm += 1;
                let g = g.unwrap_or_else(|e| e);
                let ok = g.trim() == want.trim();
                okm += ok as usize;
                if !ok && shown < show {
                    shown += 1;
                    println!("MIN {}\n{:?}\n{:?}", c.path, want, g);
                }
            }
        }
    }
    println!("pretty {okp}/{np}, minified {okm}/{nm}");
}

mod agree;
mod check;
mod cli;
mod conv;
mod ctxs;
mod dev;
mod engine;
mod errs;
mod gen;
mod grammar;
mod hist;
mod imp;
mod layout;
mod lex;
mod lines;
mod many;
mod md;
mod names;
mod nest;
mod node;
mod refjs;
mod reflex;
mod ser;
mod spans;
mod strings;
mod terms;
mod trav;
mod words;
mod worlds;

pub fn groups() -> Vec<(&'static str, &'static [engine::World])> {
    vec![
        ("P02", worlds::P02),
        ("P03", worlds::P03),
        ("P04", worlds::P04),
        ("P05", worlds::P05),
        ("P06", worlds::P06),
        ("P07", worlds::P07),
        ("P08", worlds::P08),
        ("P09", worlds::P09),
        ("P10", worlds::P10),
        ("P12", worlds::P12),
    ]
}

macro_rules! grammar_prop {
    ($id:literal, $ws:expr) => {
        check::Prop { id: $id, run: |r| {
            check::grammar_run(r, $ws);
            words::run(r, $id);
            nest::run(r, $id);
            many::each(r, |o, s, e, m| {
                let tree = refjs::parse_mode(s, e, m);
                grammar::compare_at(o, s, e, m, &tree, &grammar::Mode::Shape);
            })
        }, case: check::grammar_case }
    };
}

fn props() -> Vec<check::Prop> {
    vec![
        grammar_prop!("P02", worlds::P02),
        grammar_prop!("P03", worlds::P03),
        grammar_prop!("P04", worlds::P04),
        grammar_prop!("P05", worlds::P05),
        grammar_prop!("P06", worlds::P06),
        grammar_prop!("P07", worlds::P07),
        grammar_prop!("P08", worlds::P08),
        grammar_prop!("P09", worlds::P09),
        grammar_prop!("P10", worlds::P10),
        grammar_prop!("P12", worlds::P12),
        check::Prop { id: "G01", run: |r| gen::run(r, gen::What::Pretty), case: |o, e, s| gen::case(o, e, s, gen::What::Pretty) },
        check::Prop { id: "G02", run: |r| gen::run(r, gen::What::Minified), case: |o, e, s| gen::case(o, e, s, gen::What::Minified) },
        check::Prop { id: "G03", run: |r| gen::run(r, gen::What::Fixpoint), case: |o, e, s| gen::case(o, e, s, gen::What::Fixpoint) },
        check::Prop { id: "G04", run: lines::run, case: lines::case },
        check::Prop { id: "L01", run: lex::l01, case: |o, e, s| lex::case(o, e, s, Some(lex::See::Values)) },
        check::Prop { id: "L02", run: lex::l02, case: |o, e, s| lex::case(o, e, s, Some(lex::See::Ranges)) },
        check::Prop { id: "L03", run: lex::l03, case: |o, e, s| lex::case(o, e, s, Some(lex::See::Values)) },
        check::Prop { id: "L04", run: lex::l04, case: |o, e, s| lex::case(o, e, s, Some(lex::See::Values)) },
        check::Prop { id: "L05", run: lex::l05, case: |o, e, s| lex::case(o, e, s, None) },
        check::Prop { id: "L06", run: lex::l06, case: |o, e, s| lex::case(o, e, s, Some(lex::See::Lines)) },
        check::Prop { id: "L07", run: hist::run, case: hist::case },
        check::Prop { id: "P01", run: errs::p01, case: errs::p01_case },
        check::Prop { id: "P16", run: agree::run, case: agree::case },
        check::Prop { id: "A02", run: names::run, case: names::case },
        check::Prop { id: "M01", run: md::run, case: md::case },
        check::Prop { id: "C01", run: cli::run, case: cli::case },
        check::Prop { id: "P14", run: layout::run, case: layout::case },
        check::Prop { id: "P15", run: errs::p15, case: errs::p15_case },
        check::Prop { id: "P11", run: ctxs::run, case: check::grammar_case },
        check::Prop { id: "P13", run: spans::run, case: spans::case },
        check::Prop { id: "A01", run: ser::run, case: ser::case },
        check::Prop { id: "T01", run: |r| trav::run(r, trav::What::Once), case: |o, e, s| trav::case(o, e, s, trav::What::Once) },
        check::Prop { id: "T03", run: |r| trav::run(r, trav::What::Change), case: |o, e, s| trav::case(o, e, s, trav::What::Change) },
        check::Prop { id: "T02", run: |r| trav::run(r, trav::What::Decline), case: |o, e, s| trav::case(o, e, s, trav::What::Decline) },
    ]
}

fn prop(id: &str) -> check::Prop {
    props().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

fn main() {
    imp::quiet_panics();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match args.as_slice() {
        ["snap"] => dev::snap(),
        ["one", entry, src] => dev::one(entry, src),
        ["dump", depth, filter] => dev::dump(depth.parse().unwrap(), filter),
        ["worlds", depth, max, mode, filter @ ..] => dev::worlds(depth.parse().unwrap(), max.parse().unwrap(), mode, filter),
        ["fmt", n] => dev::fmt(n.parse().unwrap()),
        ["check", id] => check::parent(&prop(id)),
        ["child", id] => check::child(&prop(id)),
        ["case", id, entry] => check::case(&prop(id), entry, &std::env::var("FAJTMC_SRC").unwrap()),
        ["replay", path] => check::replay(&props(), path),
        _ => {
            eprintln!("unknown command {args:?}");
            std::process::exit(2);
        }
    }
}

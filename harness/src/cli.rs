//! The command line program, run as a process, against the library called directly.
use crate::check::{verif_dir, Run};
use crate::engine::Obs;
use crate::imp;
use crate::terms;
use fajt_codegen::{generate_code, GeneratorContext};
use fajt_parser::error::emitter::ErrorEmitter;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Wants {
    Tree,
    Check,
    Pretty,
    Minified,
}
use Wants::*;

/// Command lines; `F` stands for the file.
const LINES: &[(&[&str], Wants)] = &[
    (&["F"], Tree),
    (&["-c", "F"], Check),
    (&["-f", "pretty", "F"], Pretty),
    (&["-f", "minified", "F"], Minified),
    (&["F", "--check"], Check),
    (&["F", "--format", "pretty"], Pretty),
    (&["--format=minified", "F"], Minified),
    (&["F", "-fminified"], Minified),
    (&["--format=pretty", "F"], Pretty),
    (&["-c", "-f", "minified", "F"], Check),
    (&["-f", "pretty", "--check", "F"], Check),
    (&["-cfminified", "F"], Check),
];

/// File names; the module ones are those the program documents by its extensions.
const NAMES: &[(&str, bool)] = &[
    ("f.js", false),
    ("f.mjs", true),
    ("f.module.js", true),
    ("f.cjs", false),
    ("f", false),
    ("mjs", false),
    ("module.js", false),
    (".mjs", true),
    ("f.mjs.js", false),
    ("f.module.mjs", true),
    ("f.module.js.txt", false),
    ("f.module.jsx", false),
    ("f.mjsx", false),
    ("m.module/f.js", false),
    ("x.mjs/f.js", false),
    ("x.mjs/f.mjs", true),
    ("\u{e9} \u{4e2d}.js", false),
    ("\u{e9} \u{4e2d}.module.js", true),
    ("./f.mjs", true),
    ("F.MJS", false),
];

fn program() -> PathBuf {
    verif_dir().join("harness/target/cli/release/fajt")
}

struct Answer {
    ok: bool,
    out: String,
    err: String,
}

fn execute(dir: &Path, args: &[String]) -> Answer {
    let out = Command::new(program()).args(args).current_dir(dir).stdin(Stdio::null()).output().expect("the program cannot be started");
    Answer { ok: out.status.code() == Some(0), out: String::from_utf8_lossy(&out.stdout).into(), err: String::from_utf8_lossy(&out.stderr).into() }
}

/// What the library says: standard output, or the message.
fn library(file: &str, src: &str, module: bool, wants: Wants) -> Result<Result<String, String>, String> {
    imp::guard(|| {
        let mut r = if module { fajt_parser::parse_module(src) } else { fajt_parser::parse_script(src) };
        if let Err(e) = &r {
            let mut out = vec![];
            ErrorEmitter::new(file, src, &mut out).emit_error(e).unwrap();
            return Err(String::from_utf8(out).unwrap());
        }
        Ok(match wants {
            Check => String::new(),
            Tree => format!("{r:#?}\n"),
            w => {
                let mut c = GeneratorContext::new();
                c.minified = w == Minified;
                format!("{}\n", generate_code(r.as_mut().unwrap(), c))
            }
        })
    })
}

fn one(o: &mut Obs, dir: &Path, src: &str, (name, module): (&str, bool), (line, wants): (&[&str], Wants)) {
    let want = match library(name, src, module, wants) {
        Ok(w) => w,
        Err(_) => return, // the totality property reports it
    };
    let path = dir.join(name);
    std::fs::create_dir_all(path.parent().unwrap()).unwrap();
    std::fs::write(&path, src).unwrap();
    let args: Vec<String> = line.iter().map(|a| if *a == "F" { name.to_string() } else { a.to_string() }).collect();
    let got = execute(dir, &args);
    o.counts.states += 1;
    o.counts.transitions += 1;
    o.counts.replays += 1;
    let what = match &want {
        Ok(text) => {
            o.counts.accepted += 1;
            if !got.ok {
                Some(format!("fails with {:?}, the source is accepted", got.err))
            } else if !got.err.is_empty() {
                Some(format!("writes to standard error: {:?}", got.err))
            } else if wants == Check {
                let said = got.out.trim();
                (said.is_empty() || said.contains('\n')).then(|| format!("confirms with {:?}", got.out))
            } else {
                (got.out != *text).then(|| format!("prints {:?}, expected {text:?}", got.out))
            }
        }
        Err(message) => {
            o.counts.rejected += 1;
            if got.ok {
                Some(format!("succeeds with {:?}, the source is rejected: {message}", got.out))
            } else if got.err != *message {
                Some(format!("reports {:?}, expected {message:?}", got.err))
            } else {
                (!got.out.is_empty()).then(|| format!("prints {:?} for a rejected source", got.out))
            }
        }
    };
    let after = std::fs::read(&path).unwrap_or_default();
    let what = what.or_else(|| (after != src.as_bytes()).then(|| "the file was changed".to_string()));
    let entry = format!("fajt {}", args.join(" "));
    o.sample(&format!("{entry}: {src}"));
    if let Some(w) = what {
        o.violation(entry, src, w);
    }
}

/// Gives every worker its own scratch directory.
fn scratch<T>(f: impl FnOnce(&Path) -> T) -> T {
    static N: Mutex<usize> = Mutex::new(0);
    let n = {
        let mut n = N.lock().unwrap();
        *n += 1;
        *n
    };
    let dir = std::env::temp_dir().join(format!("fajtmc-c01-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = f(&dir);
    let _ = std::fs::remove_dir_all(&dir);
    r
}

const REPRESENTATIVE: &[&str] = &[
    "", "\n", "a", "a\n\n;b // c\n", "export default 1;\n", "import a from 'b';", "with (a) b;", "await", "let await = 1", "x = `\n${a}\n`;", "var \u{e9} = '\u{1d49c}';", "a b", "\n\n  a = ;\n", "'", "`", "(", "f(\u{e9}, +)", "// only", "/*",
    "'use strict'; with (a) ;", "class A extends B { constructor() { super(); } }", "<!-- c\n", "a => { return }\nb", "yield = 1", "\u{feff}a", "a\r\nb\r\n+", "0x", "let a, a;", "({a:1}).b`c`", "for await (a of b) ;", "\t?", "eval = 1", "delete a",
];

pub fn run(run: &mut Run) {
    let all: Vec<_> = REPRESENTATIVE.iter().flat_map(|s| NAMES.iter().map(move |n| (*s, *n))).collect();
    run.each("command lines", &format!("{} command lines, {} names, {} sources", LINES.len(), NAMES.len(), REPRESENTATIVE.len()), &all, |o, (s, n)| {
        scratch(|d| LINES.iter().for_each(|l| one(o, d, s, *n, *l)))
    });
    // Every small program, and every cut of it.
    for (sig, name) in [(&terms::SCRIPT, NAMES[0]), (&terms::MODULE, NAMES[1])] {
        let list = Mutex::new(vec![]);
        let mut quiet = Run::new("C01", run.tier);
        terms::explore(&mut quiet, sig, 1, |_, s| {
            let mut l = list.lock().unwrap();
            l.push(s.to_string());
            l.extend(s.char_indices().map(|(i, _)| s[..i].to_string()));
        });
        let mut list = list.into_inner().unwrap();
        list.sort();
        list.dedup();
        let lines = if run.quick() { &LINES[1..4] } else { &LINES[..4] };
        run.each(sig.name, &format!("{} small programs and their cuts, {} command lines", list.len(), lines.len()), &list, |o, s| scratch(|d| lines.iter().for_each(|l| one(o, d, s, name, *l))));
        if !run.quick() {
            let list = Mutex::new(vec![]);
            terms::explore(&mut Run::new("C01", run.tier), sig, 2, |_, s| list.lock().unwrap().push(s.to_string()));
            let list = list.into_inner().unwrap();
            run.each(sig.name, "all nestings of up to 2 templates", &list, |o, s| scratch(|d| LINES[1..4].iter().for_each(|l| one(o, d, s, name, *l))));
        }
    }
    // What cannot be read, and command lines that say nothing to do.
    let odd: &[&[&str]] = &[&["missing.js"], &["-c", "missing.mjs"], &["-f", "minified", "missing.js"], &["."], &["-c", "."], &["bytes.js"], &["-c", "bytes.js"], &[], &["-c"], &["-f", "pretty"], &["ok.js", "-f"], &["ok.js", "ok.js"], &["--unknown", "ok.js"]];
    run.each("failures", "unreadable files and incomplete command lines", odd, |o, args| {
        scratch(|d| {
            std::fs::write(d.join("bytes.js"), b"'\xff\xfe'").unwrap();
            std::fs::write(d.join("ok.js"), "a").unwrap();
            let args: Vec<String> = args.iter().map(|a| a.to_string()).collect();
            let got = execute(d, &args);
            o.counts.states += 1;
            o.counts.transitions += 1;
            o.counts.replays += 1;
            o.counts.rejected += 1;
            let entry = format!("fajt {}", args.join(" "));
            if got.ok {
                o.violation(entry, "", format!("succeeds with {:?}", got.out));
            } else if !got.out.is_empty() || got.err.is_empty() {
                o.violation(entry, "", format!("fails with {:?} on standard output and {:?} on standard error", got.out, got.err));
            }
        })
    });
    run.assumptions.push("the program is built from /repo with cargo's release profile, the library it is compared with with debug assertions".into());
}

pub fn case(o: &mut Obs, _: &str, s: &str) {
    scratch(|d| {
        for n in NAMES {
            for l in LINES {
                one(o, d, s, *n, *l);
            }
        }
    })
}

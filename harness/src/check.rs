//! Running a property's check: supervision, known findings, evidence, replay files.
use crate::engine::{self, Counts, Obs, Violation, World};
use crate::grammar;
use crate::refjs::{self, Entry};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Seconds one execution of the code under test may take.
const HANG: u64 = 20;

pub struct Run {
    pub prop: &'static str,
    pub tier: Tier,
    pub counts: Counts,
    pub violations: Vec<Violation>,
    pub spaces: Vec<Value>,
    pub assumptions: Vec<String>,
    t0: Instant,
}

impl Run {
    pub fn new(prop: &'static str, tier: Tier) -> Run {
        Run { prop, tier, counts: Counts::default(), violations: vec![], spaces: vec![], assumptions: vec![], t0: Instant::now() }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// `quick` or `thorough`, by tier.
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn add(&mut self, name: &str, bound: &str, c: Counts, v: Vec<Violation>) {
        self.spaces.push(json!({
            "space": name, "bound": bound, "states": c.states, "transitions": c.transitions,
            "executions": c.replays, "accepted": c.accepted, "rejected": c.rejected,
        }));
        // Samples of every space: the shortest, the longest and some between them.
        let mut c = c;
        c.samples.sort_by_key(|s| (s.len(), s.clone()));
        let (n, k) = (c.samples.len(), 3.min(c.samples.len()));
        c.samples = (1..=k).map(|i| c.samples[n * i / k - 1].clone()).collect();
        self.counts.add(&c);
        self.violations.extend(v);
    }
    /// Explores token worlds with a visitor.
    pub fn worlds(&mut self, ws: &[World], depth: impl Fn(&World) -> usize, visit: &engine::Visit) {
        for w in ws {
            let d = depth(w);
            let (c, v) = engine::explore(w, d, visit);
            self.add(w.name, &format!("all sequences of up to {d} of {} tokens", w.tokens.len()), c, v);
        }
    }
    pub fn tier_depth(&self, w: &World) -> usize {
        self.pick(w.quick, w.thorough)
    }
    /// Runs `f` on every item in parallel and merges what it observed.
    pub fn each<T: Sync>(&mut self, name: &str, bound: &str, items: &[T], f: impl Fn(&mut Obs, &T) + Sync) {
        let res = engine::parallel(items, |wk, _, it| {
            let mut o = Obs::new(wk, name);
            f(&mut o, it);
            o.done();
            (o.counts, o.violations)
        });
        let mut c = Counts::default();
        let mut v = vec![];
        for (a, b) in res {
            c.add(&a);
            v.extend(b);
        }
        self.add(name, bound, c, v);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Run),
    /// Decides the property for one text on its own (replays, and after a crash).
    pub case: fn(&mut Obs, &str, &str),
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn evidence_dir() -> PathBuf {
    let d = verif_dir().join("evidence");
    std::fs::create_dir_all(d.join("replay")).unwrap();
    d
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

/// The listed findings: deviation to (property, what fails).
fn known() -> BTreeMap<(String, String), String> {
    let text = std::fs::read_to_string(verif_dir().join("known-findings.txt")).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in text.lines() {
        let Some(rest) = l.strip_prefix("finding: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(id), Some(what)) = (it.next(), it.next(), it.next()) else { continue };
        let (p, id) = (p.trim_start_matches("property="), id.trim_start_matches("id="));
        m.insert((p.to_string(), id.to_string()), what.to_string());
    }
    m
}

fn write_evidence(run: &Run, violations: usize) {
    let c = &run.counts;
    let mut samples = c.samples.clone();
    let (n, k) = (samples.len(), 24.min(samples.len()));
    samples = (1..=k).map(|i| samples[n * i / k - 1].clone()).map(|s| if s.len() > 400 { s.chars().take(400).collect() } else { s }).collect();
    let known: BTreeMap<_, _> = c.known.iter().map(|(k, (n, w))| (k, json!({"states": n, "shortest": w}))).collect();
    let ev = json!({
        "property": run.prop,
        "tier": if run.quick() { "quick" } else { "thorough" },
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        "level": "model_checking",
        "coverage": {
            "states": c.states,
            "transitions": c.transitions,
            "traces_validated_against_impl": c.replays,
            "samples": samples,
            "exhaustive": true,
            "model_accepts": c.accepted,
            "model_rejects": c.rejected,
            "outside_the_property": c.unclaimed,
            "outcomes": c.outcomes,
            "known_findings_reached": known,
            "spaces": run.spaces,
        },
        "assumptions": run.assumptions,
        "wall_s": run.t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let path = evidence_dir().join(format!("{}.json", run.prop));
    std::fs::write(path, serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
}

fn write_replay(prop: &str, n: usize, v: &Violation) -> PathBuf {
    let path = evidence_dir().join("replay").join(format!("{prop}-{n}.json"));
    let j = json!({"property": prop, "space": v.world, "entry": v.entry, "source": v.src, "what": v.what});
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap() + "\n").unwrap();
    path
}

fn report(prop: &str, vs: &[Violation]) {
    for (n, v) in vs.iter().take(5).enumerate() {
        let p = write_replay(prop, n, v);
        println!("VIOLATION property={prop} replay={}", p.display());
        println!("  in {} ({}): {}\n  {}", v.world, v.entry, clipped(&format!("{:?}", v.src)), clipped(&v.what));
    }
}

/// The replay file has all of a long text.
fn clipped(s: &str) -> String {
    match s.char_indices().nth(2000) {
        Some((i, _)) => format!("{} … ({} bytes)", &s[..i], s.len()),
        None => s.into(),
    }
}

/// More memory than this ends the process, so that an input that asks for it without end is named.
fn limit_memory(gigabytes: u64) {
    #[repr(C)]
    struct Limit(u64, u64);
    extern "C" {
        fn setrlimit(resource: i32, limit: *const Limit) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    let bytes = gigabytes << 30;
    // SAFETY: the structure is that of Linux on 64 bits.
    unsafe { setrlimit(RLIMIT_AS, &Limit(bytes, bytes)) };
}

/// The process that does the exploring.
pub fn child(p: &Prop) -> ! {
    limit_memory(20);
    let mut run = Run::new(p.id, tier());
    let id = p.id;
    let t0 = run.t0;
    static ONCE: Mutex<bool> = Mutex::new(false);
    engine::watchdog(HANG, move |src| {
        let mut once = ONCE.lock().unwrap();
        if *once {
            return;
        }
        *once = true;
        let (entry, src) = src.split_once('\0').unwrap_or(("", src));
        let v = Violation {
            world: "watchdog".into(),
            entry: entry.into(),
            src: src.into(),
            what: format!("no result within {HANG} s"),
        };
        let mut r = Run::new(id, tier());
        r.t0 = t0;
        write_evidence(&r, 1);
        report(id, &[v]);
        std::process::exit(1);
    });
    (p.run)(&mut run);
    let mut vs = std::mem::take(&mut run.violations);
    // Deviations recognised by the model count as known only where they are listed: for this
    // property, or, in a property about something else, for the property they belong to.
    let list = known();
    let mut seen: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for (ids, (n, w)) in &run.counts.known {
        for x in ids.split('+') {
            let own = (p.id.to_string(), x.to_string());
            if list.contains_key(&own) {
                let e = seen.entry(x.to_string()).or_insert((0, w.clone()));
                e.0 += n;
                if w.len() < e.1.len() {
                    e.1 = w.clone();
                }
            } else if !list.keys().any(|(q, y)| y == x && refjs::QUIRKS.iter().any(|k| k.1 == x && k.2 == q)) {
                vs.push(Violation { world: "known deviations".into(), entry: "".into(), src: w.clone(), what: format!("deviation {x} is not listed") });
            }
        }
    }
    vs.sort_by_key(|v| (v.src.len(), v.src.clone()));
    vs.dedup_by(|a, b| a.src == b.src && a.what == b.what);
    for (x, (n, w)) in &seen {
        println!("KNOWN-FINDING: property={} {} ({n} states, e.g. {w:?})", p.id, list[&(p.id.to_string(), x.clone())]);
    }
    write_evidence(&run, vs.len());
    let c = &run.counts;
    println!(
        "{}: {} states, {} transitions, {} executions compared ({} accepted, {} rejected), {} outside the property, {:.1} s",
        p.id, c.states, c.transitions, c.replays, c.accepted, c.rejected, c.unclaimed, run.t0.elapsed().as_secs_f64()
    );
    report(p.id, &vs);
    std::process::exit(!vs.is_empty() as i32);
}

/// Supervises the exploring process: when the code under test takes it down (stack overflow, out of
/// memory), the inputs in flight are tried one at a time to name the one that does it.
pub fn parent(p: &Prop) -> ! {
    let dir = std::env::temp_dir().join(format!("fajtmc-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let slots = dir.join("slots");
    std::fs::write(&slots, vec![0u8; engine::SLOT * engine::MAX_WORKERS]).unwrap();
    let me = std::env::current_exe().unwrap();
    let st = Command::new(&me).args(["child", p.id]).env("FAJTMC_SLOTS", &slots).status().unwrap();
    let code = match st.code() {
        Some(c) => c,
        None => {
            let mut vs = vec![];
            for s in engine::read_slots(&std::fs::read(&slots).unwrap()) {
                let (entry, src) = s.split_once('\0').unwrap_or(("", &s));
                let out = Command::new(&me).args(["case", p.id, entry]).env("FAJTMC_SRC", src).output().unwrap();
                if out.status.code().is_none() {
                    vs.push(Violation { world: "supervisor".into(), entry: entry.into(), src: src.into(), what: format!("the process dies: {}", out.status) });
                }
            }
            vs.sort_by_key(|v| (v.src.len(), v.src.clone()));
            let mut run = Run::new(p.id, tier());
            run.counts.states = vs.len() as u64;
            write_evidence(&run, vs.len());
            report(p.id, &vs);
            if vs.is_empty() {
                println!("{}: the exploring process died ({st}) and no single input does it again", p.id);
                2
            } else {
                1
            }
        }
    };
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code);
}

/// One case on its own; prints what is wrong.
pub fn case(p: &Prop, entry: &str, src: &str) -> ! {
    limit_memory(4);
    engine::watchdog(HANG, |_| {
        println!("no result within {HANG} s");
        std::process::exit(1);
    });
    let res = engine::parallel(&[()], |wk, _, _| {
        let mut o = Obs::new(wk, "replay");
        (p.case)(&mut o, entry, src);
        o
    });
    for o in &res {
        for v in &o.violations {
            println!("{:?} ({}): {}", v.src, v.entry, v.what);
        }
        for (k, (_, w)) in &o.counts.known {
            println!("known deviation {k}: {w:?}");
        }
    }
    std::process::exit(res.iter().any(|o| !o.violations.is_empty()) as i32);
}

pub fn replay(props: &[Prop], path: &str) -> ! {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(Path::new(path)).unwrap()).unwrap();
    println!("{}", serde_json::to_string_pretty(&j).unwrap());
    let p = props.iter().find(|p| p.id == j["property"]).expect("property");
    case(p, j["entry"].as_str().unwrap_or(""), j["source"].as_str().unwrap())
}

pub fn entry_of(e: &str) -> (Entry, bool) {
    match e {
        "module" => (Entry::Module, true),
        "expr" => (Entry::Expr, false),
        "stmt" => (Entry::Stmt, false),
        _ => (Entry::Script, false),
    }
}

/// Parser against reference grammar, for one text.
pub fn grammar_case(o: &mut Obs, entry: &str, src: &str) {
    let (e, m) = entry_of(entry);
    let r = refjs::parse_mode(src, e, m);
    grammar::compare_at(o, src, e, m, &r, &grammar::Mode::Shape);
}

/// Worlds of fewer states than this are small.
const SMALL: u64 = 250_000;

/// Parser against reference grammar, over a group of token worlds.
pub fn grammar_run(run: &mut Run, ws: &[World]) {
    let tier = run.tier;
    let visit: &engine::Visit = &|o, w, s, r| grammar::compare(o, w, s, r, &grammar::Mode::Shape);
    for w in ws {
        let mut depth = if tier == Tier::Quick { w.quick } else { w.thorough };
        let mut seen = engine::explore(w, depth, visit);
        // Small worlds are explored one token deeper.
        if depth < w.thorough && seen.1.is_empty() && seen.0.states < SMALL {
            depth += 1;
            seen = engine::explore(w, depth, visit);
        }
        run.add(w.name, &format!("all sequences of up to {depth} of {} tokens", w.tokens.len()), seen.0, seen.1);
    }
    run.assumptions.push("the reference grammar (harness/src/refjs.rs, reflex.rs) is ECMA-262 ed. 12; it is compared with acorn and with the repository's snapshots during development".into());
}

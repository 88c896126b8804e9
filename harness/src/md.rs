//! Snapshot documents: every sequence of lines read, written, edited and read again, against a
//! reference reader and writer that work line by line; and the files they are kept in.
use crate::check::Run;
use crate::engine::Obs;
use crate::imp;
use crate::strings;
use fajt_testing::markdown::Markdown;
use fajt_testing::{read_string, write_string};

#[derive(Clone, PartialEq, Debug)]
struct Section {
    name: String,
    text: Option<String>,
    block: Option<(String, String)>,
}

/// The sections of a well-formed document: titles, each followed by optional text and an optional
/// code block. Anything else is nobody's promise.
fn read(doc: &str) -> Option<Vec<Section>> {
    let mut out: Vec<Section> = vec![];
    let mut lines = doc.split_inclusive('\n').peekable();
    while let Some(l) = lines.next() {
        let name = l.strip_prefix("###")?;
        if name.starts_with('#') {
            return None;
        }
        let mut s = Section { name: name.trim().into(), text: None, block: None };
        let mut text = String::new();
        while let Some(l) = lines.peek() {
            if l.starts_with("###") || l.starts_with("```") {
                break;
            }
            text.push_str(l);
            lines.next();
        }
        if let Some(first) = text.lines().find(|l| !l.trim().is_empty()) {
            if first.starts_with(' ') {
                return None; // white space around the text is not kept
            }
            s.text = Some(text.trim().into());
        }
        if let Some(lang) = lines.next_if(|l| l.starts_with("```")) {
            let mut contents = String::new();
            loop {
                let l = lines.next()?;
                if l.starts_with("```") {
                    if !l[3..].trim().is_empty() {
                        return None;
                    }
                    break;
                }
                contents.push_str(l);
            }
            s.block = Some((lang[3..].trim().into(), contents));
            while let Some(l) = lines.peek() {
                if l.starts_with("###") {
                    break;
                }
                if !l.trim().is_empty() {
                    return None; // nothing follows the code block
                }
                lines.next();
            }
        }
        out.push(s);
    }
    Some(out)
}

/// The written form is pinned by the repository's tests.
fn write(doc: &[Section]) -> String {
    let one = |s: &Section| {
        let text = s.text.as_ref().map_or(String::new(), |t| format!("{t}\n\n"));
        let block = s.block.as_ref().map_or(String::new(), |(l, c)| {
            // Finding `empty-block`: an empty block is written with an empty line in it.
            let nl = if c.ends_with('\n') { "" } else { "\n" };
            format!("```{l}\n{c}{nl}```")
        });
        format!("### {}\n{text}{block}", s.name)
    };
    doc.iter().map(one).collect::<Vec<_>>().join("\n\n")
}

fn sections(m: &Markdown) -> Vec<Section> {
    let block = |b: &fajt_testing::markdown::MarkdownBlock| (b.language.to_string(), b.contents.to_string());
    m.sections.iter().map(|s| Section { name: s.name.into(), text: s.text.map(|t| t.into()), block: s.block.as_ref().map(block) }).collect()
}

/// What a block contains once it has been written and read.
fn settled(mut doc: Vec<Section>) -> Vec<Section> {
    for (_, c) in doc.iter_mut().filter_map(|s| s.block.as_mut()) {
        if !c.ends_with('\n') {
            c.push('\n');
        }
    }
    doc
}

/// A title marker in a code block cuts the section there, and reading fails for want of the end of
/// the block (finding `title-in-block`).
fn title_in_block(doc: &[Section]) -> bool {
    doc.iter().filter_map(|s| s.block.as_ref()).any(|(_, c)| c.lines().any(|l| l.starts_with("###")))
}

const CONTENTS: &[(&str, &str)] = &[("js", ""), ("txt", "y"), ("", "y\n"), ("json", "{\n### z\n\n}\n"), ("js parse:expr", "\n\n  \u{e9}")];

fn document(o: &mut Obs, doc: &str, edits: bool) {
    let Some(want) = read(doc) else {
        o.counts.unclaimed += 1;
        return;
    };
    o.start("document", doc);
    let at_end = doc.rsplit('\n').next().unwrap().starts_with("###");
    let inside = title_in_block(&want);
    if at_end || inside {
        // The two findings that make reading fail; nothing else is let through.
        match imp::guard(|| Markdown::from_string(doc).sections.len()) {
            Err(p) if inside && p.contains("Missing end of code block") => o.counts.known("title-in-block", doc),
            Err(p) if at_end && p.contains("`None`") => o.counts.known("title-at-end", doc),
            Err(p) => o.violation("document", doc, format!("panic: {p}")),
            Ok(_) => {}
        }
        if imp::guard(|| Markdown::from_string(doc)).is_err() {
            o.counts.replays += 1;
            return o.done();
        }
    }
    if want.iter().any(|s| s.block.as_ref().is_some_and(|b| b.1.is_empty())) {
        o.counts.known("empty-block", doc);
    }
    let bad = imp::guard(|| one(doc, &want, edits)).unwrap_or_else(|p| Err(format!("panic: {p}")));
    o.done();
    match bad {
        Ok((n, e)) => {
            o.counts.replays += n;
            o.counts.states += e;
            o.counts.transitions += e;
            o.counts.accepted += 1;
            o.sample(doc);
        }
        Err(w) => o.violation("document", doc, w),
    }
}

fn one(doc: &str, want: &[Section], edits: bool) -> Result<(u64, u64), String> {
    let m = Markdown::from_string(doc);
    let got = sections(&m);
    if got != want {
        return Err(format!("read as {got:?}, expected {want:?}"));
    }
    let text = m.to_string();
    if text != write(want) {
        return Err(format!("written as {text:?}, expected {:?}", write(want)));
    }
    let back = Markdown::from_string(&text);
    if sections(&back) != settled(want.to_vec()) {
        return Err(format!("written as {text:?} and read as {:?}", sections(&back)));
    }
    if back.to_string() != text {
        return Err(format!("written as {text:?} and then as {:?}", back.to_string()));
    }
    let mut names: Vec<&str> = want.iter().map(|s| s.name.as_str()).collect();
    names.push("missing");
    names.dedup();
    for n in &names {
        let first = want.iter().find(|s| s.name == *n);
        let block = first.and_then(|s| s.block.as_ref());
        let got = (m.get_block_content(n), m.get_block(n).map(|b| b.language), m.get_section(n).map(|s| (s.text, s.get_code())));
        let wanted = (block.map(|b| b.1.as_str()), block.map(|b| b.0.as_str()), first.map(|s| (s.text.as_deref(), block.map(|b| b.1.as_str()))));
        if got != wanted {
            return Err(format!("section {n:?} is {got:?}, expected {wanted:?}"));
        }
    }
    let mut replays = 3;
    let mut count = 0;
    if edits {
        // Every history of up to two edits.
        let all: Vec<(&str, &str, &str)> = names.iter().flat_map(|n| CONTENTS.iter().map(move |c| (*n, c.0, c.1))).collect();
        for a in &all {
            for b in std::iter::once(None).chain(all.iter().map(Some)) {
                let mut m = Markdown::from_string(doc);
                let mut want = want.to_vec();
                for (n, l, c) in std::iter::once(a).chain(b) {
                    m.set_block_content(n, l, c);
                    if let Some(s) = want.iter_mut().find(|s| s.name == *n) {
                        s.block = Some((l.to_string(), c.to_string()));
                    }
                }
                count += 1;
                replays += 2;
                if sections(&m) != want {
                    return Err(format!("after {a:?} {b:?}: {:?}, expected {want:?}", sections(&m)));
                }
                let text = m.to_string();
                if text != write(&want) {
                    return Err(format!("after {a:?} {b:?} written as {text:?}, expected {:?}", write(&want)));
                }
                if title_in_block(&want) {
                    continue;
                }
                let back = Markdown::from_string(&text);
                if sections(&back) != settled(want.clone()) {
                    return Err(format!("after {a:?} {b:?} written as {text:?} and read as {:?}", sections(&back)));
                }
            }
        }
    }
    Ok((replays, count))
}

/// Every history of writes to one file: the file holds the last text and a line break.
fn files(o: &mut Obs, texts: &[String]) {
    let dir = std::env::temp_dir().join(format!("fajtmc-m01-{}-{:?}", std::process::id(), std::thread::current().id()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join("snapshot.md");
    for a in texts {
        for b in texts {
            for c in texts {
                o.counts.states += 1;
                o.counts.transitions += 1;
                o.counts.replays += 3;
                std::fs::write(&path, "left over from before, longer than the rest\n\n\n").unwrap();
                for t in [a, b, c] {
                    let got = imp::guard(|| {
                        write_string(&path, t);
                        read_string(&path)
                    });
                    let want = format!("{t}\n");
                    let disk = std::fs::read_to_string(&path).unwrap_or_default();
                    match got {
                        Ok(g) if g == want && disk == want => {}
                        g => {
                            o.violation("file", t, format!("after writing {a:?}, {b:?}, {c:?} up to {t:?}: read {g:?}, on disk {disk:?}"));
                            let _ = std::fs::remove_dir_all(&dir);
                            return;
                        }
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

const LINES: &[&str] = &["### A\n", "### B c\n", "###  B c \n", "t\n", "  t\n", "\n", "```js\n", "```\n", "x\n", "### in\n", "\u{e9} ```\n", "``` js parse:expr\n"];

pub fn run(run: &mut Run) {
    let n = run.pick(5, 6);
    // Every document starts with a title.
    for title in &LINES[..3] {
        strings::explore(run, &format!("lines after {title:?}"), LINES, n, |o, s| {
            let doc = format!("{title}{s}");
            document(o, &doc, false);
            document(o, doc.strip_suffix('\n').unwrap(), false);
        });
    }
    let n = run.pick(3, 4);
    for title in &LINES[..2] {
        strings::explore(run, &format!("edits of lines after {title:?}"), LINES, n, |o, s| document(o, &format!("{title}{s}"), true));
    }
    let texts: Vec<String> = ["", "a", "a\n", "### A\n", "### A\n```js\nvar \u{e9};\n```\n\n### B\n", "a rather long text that is longer than all of the others, so that what is left of it would be seen"].iter().map(|s| s.to_string()).collect();
    run.each("files", "every history of three writes of 6 texts", &[texts], |o, t| files(o, t));
    // The repository's own documents.
    let mut docs = vec![];
    collect(std::path::Path::new("/repo/tests/cases"), &mut docs);
    docs.sort();
    run.each("the repository's documents", "every file of tests/cases", &docs, |o, p| {
        if let Ok(d) = std::fs::read_to_string(p) {
            o.counts.states += 1;
            document(o, &d, false);
        }
    });
}

fn collect(dir: &std::path::Path, out: &mut Vec<std::path::PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            collect(&p, out);
        } else if p.extension().is_some_and(|x| x == "md") {
            out.push(p);
        }
    }
}

pub fn case(o: &mut Obs, entry: &str, s: &str) {
    if entry == "file" {
        return files(o, &["".into(), "a".into(), s.into()]);
    }
    document(o, s, s.len() < 60);
}

//! Calls into the implementation, with panics turned into values.
use crate::conv;
use crate::node::N;
use crate::refjs::Entry;
use fajt_ast::{Expr, Program, SourceType, Stmt};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static GUARDED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Panics of the implementation are observations, not output.
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string());
        let msg = msg.or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !GUARDED.get() {
            eprintln!("{msg} at {at}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
    }));
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let outer = GUARDED.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()));
    GUARDED.set(outer);
    r
}

pub enum Ast {
    P(Program),
    S(Stmt),
    E(Expr),
}

impl Ast {
    pub fn tree(&self) -> N {
        match self {
            Ast::P(p) => conv::program(p),
            Ast::S(s) => conv::stmt(s),
            Ast::E(e) => conv::expr(e),
        }
    }
}

impl Ast {
    pub fn json(&self) -> String {
        match self {
            Ast::P(p) => serde_json::to_string(p),
            Ast::S(s) => serde_json::to_string(s),
            Ast::E(e) => serde_json::to_string(e),
        }
        .expect("a tree is written as JSON")
    }
}

pub fn source_type(module: bool) -> SourceType {
    if module {
        SourceType::Module
    } else {
        SourceType::Script
    }
}

pub type FErr = fajt_parser::error::Error;

pub fn parse_raw(src: &str, entry: Entry, module: bool) -> Result<Ast, FErr> {
    match entry {
        Entry::Script => fajt_parser::parse_script(src).map(Ast::P),
        Entry::Module => fajt_parser::parse_module(src).map(Ast::P),
        Entry::Expr => fajt_parser::parse::<Expr>(src, source_type(module)).map(Ast::E),
        Entry::Stmt => fajt_parser::parse::<Stmt>(src, source_type(module)).map(Ast::S),
    }
}

pub enum Imp {
    Tree(Ast),
    Rejected(FErr),
    Panicked(String),
}

pub fn parse(src: &str, entry: Entry, module: bool) -> Imp {
    match guard(|| parse_raw(src, entry, module)) {
        Ok(Ok(t)) => Imp::Tree(t),
        Ok(Err(e)) => Imp::Rejected(e),
        Err(p) => Imp::Panicked(p),
    }
}

/// The error says that the text ended too early.
pub fn at_end(e: &FErr) -> bool {
    use fajt_parser::error::ErrorKind as K;
    match e.kind() {
        K::EndOfStream => true,
        K::LexerError(l) => matches!(l.kind(), fajt_lexer::error::ErrorKind::UnexpectedEndOfStream),
        _ => false,
    }
}

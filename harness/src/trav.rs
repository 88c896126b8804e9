//! Tree walks. The nodes a walk has to visit are taken from the derived serialisation, which names
//! every struct and enum on the way; the walk's own visits are recorded as a tree of calls.
use crate::check::{entry_of, Run};
use crate::engine::{Obs, World};
use crate::grammar::entry_name;
use crate::imp::{self, Ast, Imp};
use crate::refjs::Entry;
use crate::terms;
use fajt_ast::traverse::{TraceVisitor, Traverse, Visitor};
use fajt_ast::*;
use serde::ser::{self, Serialize};

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Pay {
    None,
    Span(usize, usize),
    Text(String),
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Visit {
    ty: &'static str,
    pay: Pay,
    c: Vec<Visit>,
}

impl Visit {
    fn new(ty: &'static str, pay: Pay) -> Visit {
        Visit { ty, pay, c: vec![] }
    }
    fn is_operator(&self) -> bool {
        self.ty.ends_with("Operator")
    }
    /// First and last source position of the node or of what is in it.
    fn extent(&self) -> Option<(usize, usize)> {
        if let Pay::Span(s, e) = self.pay {
            return Some((s, e));
        }
        let all: Vec<_> = self.c.iter().filter_map(|c| c.extent()).collect();
        Some((all.iter().map(|x| x.0).min()?, all.iter().map(|x| x.1).max()?))
    }
    fn canonical(&self) -> Visit {
        let mut c: Vec<Visit> = self.c.iter().map(|c| c.canonical()).collect();
        c.sort();
        Visit { ty: self.ty, pay: self.pay.clone(), c }
    }
    fn show(&self) -> String {
        let p = match &self.pay {
            Pay::None => String::new(),
            Pay::Span(s, e) => format!("@{s}:{e}"),
            Pay::Text(t) => format!("{t:?}"),
        };
        if self.c.is_empty() {
            return format!("{}{p}", self.ty);
        }
        format!("{}{p}({})", self.ty, self.c.iter().map(|c| c.show()).collect::<Vec<_>>().join(" "))
    }
    fn size(&self) -> usize {
        1 + self.c.iter().map(|c| c.size()).sum::<usize>()
    }
    /// The walk when the `i`-th visited node is declined.
    fn without_children_of(&self, i: &mut isize) -> Visit {
        let here = *i == 0;
        *i -= 1;
        let mut v = Visit::new(self.ty, self.pay.clone());
        if here {
            return v;
        }
        for c in &self.c {
            v.c.push(c.without_children_of(i));
        }
        v
    }
}

/// Records calls; declines the `decline`-th node.
struct Recorder {
    stack: Vec<Visit>,
    decline: isize,
    wrong: Option<String>,
    /// The names of the hooks, in order.
    calls: Vec<&'static str>,
}

impl Recorder {
    fn enter(&mut self, ty: &'static str, pay: Pay) -> bool {
        self.stack.push(Visit::new(ty, pay));
        self.decline -= 1;
        self.decline != -1
    }
    fn exit(&mut self, ty: &'static str, pay: Pay) {
        let Some(v) = self.stack.pop() else { return };
        if (v.ty, &v.pay) != (ty, &pay) && self.wrong.is_none() {
            self.wrong = Some(format!("left {} while in {}", Visit::new(ty, pay).show(), v.show()));
        }
        match self.stack.last_mut() {
            Some(p) => p.c.push(v),
            None => self.wrong = Some("the outermost node was left too early".into()),
        }
    }
    /// What the node that was left last holds now.
    fn last(&mut self, pay: Pay) {
        if let Some(v) = self.stack.last_mut().and_then(|p| p.c.last_mut()) {
            v.pay = pay;
        }
    }
}

fn pay_span<T: Spanned>(n: &T) -> Pay {
    let s = n.span();
    Pay::Span(s.start, s.end)
}

fn span_of_list(n: &StmtList<Stmt>) -> Pay {
    Pay::Span(n.span.start, n.span.end)
}

macro_rules! pay {
    (span $n:expr) => { pay_span($n) };
    (list $n:expr) => { span_of_list($n) };
    (value $n:expr) => { Pay::Text($n.value.clone()) };
    (raw $n:expr) => { Pay::Text($n.raw.clone()) };
    (debug $n:expr) => { Pay::Text(format!("{:?}", $n)) };
    (none $n:expr) => {{ let _ = $n; Pay::None }};
}

/// Changes every node it enters, each in its own way, or undoes that.
struct Changer {
    calls: Recorder,
    n: usize,
    undo: bool,
}

trait Swap {
    fn swap(&mut self);
}

macro_rules! swap {
    ($($t:ident $a:ident $b:ident;)*) => {
        $(impl Swap for $t {
            fn swap(&mut self) {
                *self = match self {
                    Self::$a => Self::$b,
                    Self::$b => Self::$a,
                    _ => return,
                };
            }
        })*
    };
}

swap! {
    BinaryOperator Plus Minus;
    LogicalOperator And Or;
    UnaryOperator Minus Not;
    UpdateOperator Increase Decrease;
    AssignmentOperator Assign Add;
}

macro_rules! change {
    (span $n:expr, $k:expr, $undo:expr) => { if $undo { $n.span.end -= $k } else { $n.span.end += $k } };
    (list $n:expr, $k:expr, $undo:expr) => { change!(span $n, $k, $undo) };
    (value $n:expr, $k:expr, $undo:expr) => { change!(text $n.value, $undo) };
    (raw $n:expr, $k:expr, $undo:expr) => { change!(text $n.raw, $undo) };
    (text $t:expr, $undo:expr) => { if $undo { $t.pop(); } else { $t.push('#') } };
    (debug $n:expr, $k:expr, $undo:expr) => { $n.swap() };
    (none $n:expr, $k:expr, $undo:expr) => { let _ = $k; };
}

macro_rules! leave {
    (span $n:expr, $k:expr, $undo:expr) => { if $undo { $n.span.start -= $k } else { $n.span.start += $k } };
    (list $n:expr, $k:expr, $undo:expr) => { leave!(span $n, $k, $undo) };
    (debug $n:expr, $k:expr, $undo:expr) => { let _ = $k; };
    ($pay:ident $n:expr, $k:expr, $undo:expr) => { change!($pay $n, $k, $undo) };
}

macro_rules! hooks {
    ($($name:literal $t:ty, $enter:ident $exit:ident $pay:ident;)*) => {
        impl Visitor for Recorder {
            $(
                fn $enter(&mut self, n: &mut $t) -> bool {
                    self.calls.push(stringify!($enter));
                    self.enter($name, pay!($pay n))
                }
                fn $exit(&mut self, n: &mut $t) {
                    self.calls.push(stringify!($exit));
                    self.exit($name, pay!($pay n))
                }
            )*
        }
        impl Visitor for Changer {
            $(
                fn $enter(&mut self, n: &mut $t) -> bool {
                    self.n += 1;
                    let k = self.n << 20;
                    change!($pay n, k, self.undo);
                    self.calls.enter($name, pay!($pay n))
                }
                fn $exit(&mut self, n: &mut $t) {
                    self.calls.exit($name, pay!($pay n));
                    self.n += 1;
                    let k = self.n << 20;
                    leave!($pay n, k, self.undo);
                    self.calls.last(pay!($pay n));
                }
            )*
        }
        const HOOKED: &[&str] = &[$($name),*];
    };
}

hooks! {
    "Program" Program, enter_program exit_program none;
    "Expr" Expr, enter_expr exit_expr none;
    "Stmt" Stmt, enter_stmt exit_stmt none;
    "BindingPattern" BindingPattern, enter_binding_pattern exit_binding_pattern none;
    "Literal" Literal, enter_literal exit_literal none;
    "LitNumber" LitNumber, enter_number_literal exit_number_literal raw;
    "TemplatePart" TemplatePart, enter_template_part exit_template_part none;
    "ObjectBindingProp" ObjectBindingProp, enter_object_binding_prop exit_object_binding_prop none;
    "PropertyName" PropertyName, enter_property_name exit_property_name none;
    "ClassElement" ClassElement, enter_class_element exit_class_element none;
    "ForInit" ForInit, enter_for_init exit_for_init none;
    "ForDeclaration" ForDeclaration, enter_for_declaration exit_for_declaration none;
    "Callee" Callee, enter_callee exit_callee none;
    "Argument" Argument, enter_argument exit_argument none;
    "MemberObject" MemberObject, enter_member_object exit_member_object none;
    "Super" Super, enter_super exit_super span;
    "MemberProperty" MemberProperty, enter_member_property exit_member_property none;
    "ArrayElement" ArrayElement, enter_array_element exit_array_element none;
    "ArrowFunctionBody" ArrowFunctionBody, enter_arrow_function_body exit_arrow_function_body none;
    "PropertyDefinition" PropertyDefinition, enter_property_definition exit_property_definition none;
    "BinaryOperator" BinaryOperator, enter_binary_operator exit_binary_operator debug;
    "LogicalOperator" LogicalOperator, enter_logical_operator exit_logical_operator debug;
    "AssignmentOperator" AssignmentOperator, enter_assignment_operator exit_assignment_operator debug;
    "UnaryOperator" UnaryOperator, enter_unary_operator exit_unary_operator debug;
    "UpdateOperator" UpdateOperator, enter_update_operator exit_update_operator debug;
    "DeclExport" DeclExport, enter_export exit_export none;
    "PatternOrExpr" PatternOrExpr, enter_pattern_or_expr exit_pattern_or_expr none;
    "AssignmentPattern" AssignmentPattern, enter_assignment_pattern exit_assignment_pattern none;
    "AssignmentProp" AssignmentProp, enter_assignment_prop exit_assignment_prop none;
    "DeclFunction" DeclFunction, enter_function_decl exit_function_decl span;
    "DeclClass" DeclClass, enter_class_decl exit_class_decl span;
    "DeclImport" DeclImport, enter_import exit_import span;
    "StmtExpr" StmtExpr, enter_stmt_expr exit_stmt_expr span;
    "StmtBlock" StmtBlock, enter_block_stmt exit_block_stmt span;
    "ExprBinary" ExprBinary, enter_binary_expr exit_binary_expr span;
    "ExprLogical" ExprLogical, enter_logical_expr exit_logical_expr span;
    "ExprUnary" ExprUnary, enter_unary_expr exit_unary_expr span;
    "ExprCall" ExprCall, enter_call_expr exit_call_expr span;
    "ExprMember" ExprMember, enter_member_expr exit_member_expr span;
    "ExprOptionalMember" ExprOptionalMember, enter_optional_member_expr exit_optional_member_expr span;
    "ExprOptionalCall" ExprOptionalCall, enter_optional_call_expr exit_optional_call_expr span;
    "ExprParenthesized" ExprParenthesized, enter_parenthesized_expr exit_parenthesized_expr span;
    "ExprLiteral" ExprLiteral, enter_literal_expr exit_literal_expr span;
    "ExprAssignment" ExprAssignment, enter_assignment_expr exit_assignment_expr span;
    "ExprYield" ExprYield, enter_yield_expr exit_yield_expr span;
    "ExprConditional" ExprConditional, enter_conditional_expr exit_conditional_expr span;
    "ExprUpdate" ExprUpdate, enter_update_expr exit_update_expr span;
    "ExprSequence" ExprSequence, enter_sequence_expr exit_sequence_expr span;
    "ExprThis" ExprThis, enter_this_expr exit_this_expr span;
    "ExprFunction" ExprFunction, enter_function_expr exit_function_expr span;
    "ExprNew" ExprNew, enter_new_expr exit_new_expr span;
    "ExprArrowFunction" ExprArrowFunction, enter_arrow_function exit_arrow_function span;
    "ExprAwait" ExprAwait, enter_await_expr exit_await_expr span;
    "ExprMetaProperty" ExprMetaProperty, enter_meta_property exit_meta_property span;
    "ExprClass" ExprClass, enter_class_expr exit_class_expr span;
    "StmtReturn" StmtReturn, enter_return_stmt exit_return_stmt span;
    "StmtVariable" StmtVariable, enter_variable_stmt exit_variable_stmt span;
    "StmtEmpty" StmtEmpty, enter_empty_statement exit_empty_statement span;
    "StmtTry" StmtTry, enter_try_stmt exit_try_stmt span;
    "StmtDebugger" StmtDebugger, enter_debugger_stmt exit_debugger_stmt span;
    "StmtThrow" StmtThrow, enter_throw_stmt exit_throw_stmt span;
    "StmtLabeled" StmtLabeled, enter_labeled_stmt exit_labeled_stmt span;
    "StmtWith" StmtWith, enter_with_stmt exit_with_stmt span;
    "StmtContinue" StmtContinue, enter_continue_stmt exit_continue_stmt span;
    "StmtBreak" StmtBreak, enter_break_stmt exit_break_stmt span;
    "StmtSwitch" StmtSwitch, enter_switch_stmt exit_switch_stmt span;
    "StmtIf" StmtIf, enter_if_stmt exit_if_stmt span;
    "StmtFor" StmtFor, enter_for_stmt exit_for_stmt span;
    "StmtForOf" StmtForOf, enter_for_of_stmt exit_for_of_stmt span;
    "StmtForIn" StmtForIn, enter_for_in_stmt exit_for_in_stmt span;
    "StmtWhile" StmtWhile, enter_while_stmt exit_while_stmt span;
    "StmtDoWhile" StmtDoWhile, enter_do_while_stmt exit_do_while_stmt span;
    "StmtList" StmtList<Stmt>, enter_stmt_list exit_stmt_list list;
    "BindingElement" BindingElement, enter_binding_element exit_binding_element span;
    "FormalParameters" FormalParameters, enter_formal_parameters exit_formal_parameters span;
    "VariableDeclaration" VariableDeclaration, enter_variable_declaration exit_variable_declaration span;
    "LitString" LitString, enter_string_literal exit_string_literal value;
    "LitTemplate" LitTemplate, enter_template_literal exit_template_literal none;
    "LitArray" LitArray, enter_array_literal exit_array_literal none;
    "LitObject" LitObject, enter_object_literal exit_object_literal none;
    "ArrayBinding" ArrayBinding, enter_array_binding exit_array_binding span;
    "ObjectBinding" ObjectBinding, enter_object_binding exit_object_binding span;
    "SingleNameBinding" SingleNameBinding, enter_single_name_binding exit_single_name_binding span;
    "NamedBinding" NamedBinding, enter_named_binding exit_named_binding span;
    "NamedProperty" NamedProperty, enter_named_property exit_named_property span;
    "MethodDefinition" MethodDefinition, enter_method_definition exit_method_definition span;
    "CatchClause" CatchClause, enter_catch_clause exit_catch_clause span;
    "SwitchCase" SwitchCase, enter_switch_case exit_switch_case span;
    "ExportDecl" ExportDecl, enter_export_decl exit_export_decl span;
    "ExportDefaultDecl" ExportDefaultDecl, enter_export_default_decl exit_export_default_decl span;
    "ExportDefaultExpr" ExportDefaultExpr, enter_export_default_expr exit_export_default_expr span;
    "ExprTaggedTemplate" ExprTaggedTemplate, enter_tagged_template_expr exit_tagged_template_expr span;
    "ExportNamed" ExportNamed, enter_export_named exit_export_named span;
    "ExportNamespace" ExportNamespace, enter_export_namespace exit_export_namespace span;
    "NamedExport" NamedExport, enter_named_export exit_named_export span;
    "NamedImport" NamedImport, enter_named_import exit_named_import span;
    "Ident" Ident, enter_ident exit_ident span;
    "Body" Body, enter_body exit_body span;
    "ArrayAssignmentPattern" ArrayAssignmentPattern, enter_array_assignment_pattern exit_array_assignment_pattern span;
    "AssignmentElement" AssignmentElement, enter_assignment_element exit_assignment_element span;
    "ObjectAssignmentPattern" ObjectAssignmentPattern, enter_object_assignment_pattern exit_object_assignment_pattern span;
    "SingleNameAssignmentProp" SingleNameAssignmentProp, enter_single_name_assignment_prop exit_single_name_assignment_prop span;
    "NamedAssignmentProp" NamedAssignmentProp, enter_named_assignment_prop exit_named_assignment_prop span;
    "ForBinding" ForBinding, enter_for_binding exit_for_binding span;
}

/// What the serialisation says is there.
struct Census {
    stack: Vec<Visit>,
    /// The string field that identifies the struct being written.
    grab: bool,
    grabbed: Option<String>,
}

fn hooked(name: &str) -> bool {
    HOOKED.contains(&name)
}

impl Census {
    fn open(&mut self, ty: &'static str) {
        self.stack.push(Visit::new(ty, Pay::None));
    }
    fn close(&mut self) {
        let v = self.stack.pop().unwrap();
        let parent = self.stack.last_mut().unwrap();
        if hooked(v.ty) {
            parent.c.push(v);
        } else {
            parent.c.extend(v.c);
        }
    }
    fn text(&mut self, s: &str) {
        if self.grab {
            self.grabbed = Some(s.to_string());
        }
    }
}

#[derive(Debug)]
pub struct Never;
impl std::fmt::Display for Never {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("unsupported")
    }
}
impl std::error::Error for Never {}
impl ser::Error for Never {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Never
    }
}

type R<T = ()> = Result<T, Never>;

macro_rules! ignore {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> R { Ok(()) })* };
}

impl<'a> ser::Serializer for &'a mut Census {
    type Ok = ();
    type Error = Never;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = ser::Impossible<(), Never>;
    type SerializeTupleVariant = ser::Impossible<(), Never>;
    type SerializeMap = ser::Impossible<(), Never>;
    type SerializeStruct = Self;
    type SerializeStructVariant = ser::Impossible<(), Never>;
    ignore!(serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
        serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_bytes &[u8]);
    fn serialize_str(self, s: &str) -> R {
        self.text(s);
        Ok(())
    }
    fn serialize_none(self) -> R {
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_unit(self) -> R {
        Ok(())
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(())
    }
    fn serialize_unit_variant(self, name: &'static str, _: u32, variant: &'static str) -> R {
        self.open(name);
        if name.ends_with("Operator") {
            self.stack.last_mut().unwrap().pay = Pay::Text(variant.into());
        }
        self.close();
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, name: &'static str, _: u32, _: &'static str, v: &T) -> R {
        self.open(name);
        v.serialize(&mut *self)?;
        self.close();
        Ok(())
    }
    fn serialize_seq(self, _: Option<usize>) -> R<Self> {
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> R<Self> {
        Ok(self)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<Self::SerializeTupleStruct> {
        Err(Never)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeTupleVariant> {
        Err(Never)
    }
    fn serialize_map(self, _: Option<usize>) -> R<Self::SerializeMap> {
        Err(Never)
    }
    fn serialize_struct(self, name: &'static str, _: usize) -> R<Self> {
        self.open(name);
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<Self::SerializeStructVariant> {
        Err(Never)
    }
}

impl ser::SerializeSeq for &mut Census {
    type Ok = ();
    type Error = Never;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        Ok(())
    }
}

impl ser::SerializeTuple for &mut Census {
    type Ok = ();
    type Error = Never;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R {
        v.serialize(&mut **self)
    }
    fn end(self) -> R {
        Ok(())
    }
}

impl ser::SerializeStruct for &mut Census {
    type Ok = ();
    type Error = Never;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, key: &'static str, v: &T) -> R {
        let ty = self.stack.last().unwrap().ty;
        self.grab = key == "span" || ty == "LitString" && key == "value" || ty == "LitNumber" && key == "raw";
        if !self.grab {
            return v.serialize(&mut **self);
        }
        v.serialize(&mut **self)?;
        self.grab = false;
        let text = self.grabbed.take().unwrap_or_default();
        let pay = if key == "span" {
            let (a, b) = text.split_once(':').ok_or(Never)?;
            Pay::Span(a.parse().map_err(|_| Never)?, b.parse().map_err(|_| Never)?)
        } else {
            Pay::Text(text)
        };
        self.stack.last_mut().unwrap().pay = pay;
        Ok(())
    }
    fn end(self) -> R {
        self.close();
        Ok(())
    }
}

fn census(t: &Ast) -> Result<Visit, Never> {
    let mut c = Census { stack: vec![Visit::new("", Pay::None)], grab: false, grabbed: None };
    match t {
        Ast::P(p) => p.serialize(&mut c)?,
        Ast::S(p) => p.serialize(&mut c)?,
        Ast::E(p) => p.serialize(&mut c)?,
    }
    Ok(c.stack.pop().unwrap())
}

fn walk(t: &mut Ast, decline: isize) -> Result<Visit, String> {
    let mut r = Recorder { stack: vec![Visit::new("", Pay::None)], decline, wrong: None, calls: vec![] };
    match t {
        Ast::P(p) => p.traverse(&mut r),
        Ast::S(p) => p.traverse(&mut r),
        Ast::E(p) => p.traverse(&mut r),
    }
    if let Some(w) = r.wrong {
        return Err(w);
    }
    if r.stack.len() != 1 {
        return Err(format!("{} nodes were never left", r.stack.len() - 1));
    }
    if decline < 0 {
        let mut tracer = TraceVisitor::new();
        match t {
            Ast::P(p) => p.traverse(&mut tracer),
            Ast::S(p) => p.traverse(&mut tracer),
            Ast::E(p) => p.traverse(&mut tracer),
        }
        if tracer.visits != r.calls {
            return Err(format!("the trace is {:?}, the calls were {:?}", tracer.visits, r.calls));
        }
    }
    Ok(r.stack.pop().unwrap())
}

/// Changes every node, each differently, and takes it back again.
fn change(t: &mut Ast) -> Result<(), String> {
    let before = t.json();
    for undo in [false, true] {
        let calls = Recorder { stack: vec![Visit::new("", Pay::None)], decline: -1, wrong: None, calls: vec![] };
        let mut c = Changer { calls, n: 0, undo };
        match t {
            Ast::P(p) => p.traverse(&mut c),
            Ast::S(p) => p.traverse(&mut c),
            Ast::E(p) => p.traverse(&mut c),
        }
        let when = if undo { "changing back" } else { "changing" };
        if let Some(w) = c.calls.wrong {
            return Err(format!("{when}: {w}"));
        }
        let (Some(got), Ok(there)) = (c.calls.stack.pop(), census(t)) else {
            return Err(format!("{when}: the tree cannot be read"));
        };
        if got.canonical() != there.canonical() {
            return Err(format!("{when}: the visits were\n  {}\nthe tree then is\n  {}", got.show(), there.show()));
        }
    }
    let after = t.json();
    if after != before {
        return Err(format!("after taking all changes back the tree is\n  {after}\nand was\n  {before}"));
    }
    Ok(())
}

/// Siblings must be visited in source order. `want` has the same children in the order of declaration.
fn disorder(got: &Visit, want: &Visit) -> Option<String> {
    let bad = |a: &Visit, b: &Visit| Some(format!("in {}{:?}: {} is visited before {}", got.ty, got.pay, a.show(), b.show()));
    let index = |v: &Visit| {
        let c = v.canonical();
        let mut it = want.c.iter().enumerate().filter(|(_, w)| w.canonical() == c);
        match (it.next(), it.next()) {
            (Some((i, _)), None) => Some(i),
            _ => None,
        }
    };
    for (n, v) in got.c.iter().enumerate() {
        if v.is_operator() {
            let at = match got.ty {
                "ExprBinary" | "ExprLogical" | "ExprAssignment" => 1,
                "ExprUnary" => 0,
                _ => n,
            };
            if n != at {
                return Some(format!("in {}{:?}: the operator is visit {n} of the node, not {at}", got.ty, got.pay));
            }
            continue;
        }
        for w in &got.c[n + 1..] {
            if w.is_operator() {
                continue;
            }
            match (v.extent(), w.extent()) {
                (Some((_, e)), Some((s, _))) => {
                    if e > s {
                        return bad(v, w);
                    }
                }
                _ => {
                    if let (Some(i), Some(j)) = (index(v), index(w)) {
                        if i > j {
                            return bad(v, w);
                        }
                    }
                }
            }
        }
    }
    for v in &got.c {
        // Children that look the same are the same for this purpose.
        let c = v.canonical();
        if let Some(w) = want.c.iter().find(|w| w.canonical() == c) {
            if let Some(d) = disorder(v, w) {
                return Some(d);
            }
        }
    }
    None
}

#[derive(Clone, Copy, PartialEq)]
pub enum What {
    Once,
    Decline,
    Change,
}

pub fn visit(o: &mut Obs, src: &str, entry: Entry, module: bool, what: What) {
    let name = entry_name(entry);
    o.start(name, src);
    let mut t = match imp::parse(src, entry, module) {
        Imp::Tree(t) => t,
        _ => {
            o.counts.rejected += 1;
            o.done();
            return;
        }
    };
    o.counts.accepted += 1;
    o.counts.replays += 1;
    o.sample(src);
    let want = match census(&t) {
        Ok(v) => v,
        Err(_) => {
            o.violation(name, src, "the tree does not serialise as structs and enums");
            o.done();
            return;
        }
    };
    if what == What::Change {
        match imp::guard(|| change(&mut t)) {
            Err(p) => o.violation(name, src, format!("panic: {p}")),
            Ok(Err(w)) => o.violation(name, src, w),
            Ok(Ok(())) => {
                let before = t.json();
                for i in 0..want.size() - 1 {
                    o.counts.replays += 1;
                    let walked = imp::guard(|| walk(&mut t, i as isize));
                    if t.json() != before {
                        o.violation(name, src, format!("a walk that refuses visit {i} and changes nothing changes the tree ({walked:?})"));
                        break;
                    }
                }
            }
        }
        o.done();
        return;
    }
    match imp::guard(|| walk(&mut t, -1)) {
        Err(p) => o.violation(name, src, format!("panic: {p}")),
        Ok(Err(w)) => {
            if what == What::Once {
                o.violation(name, src, w)
            }
        }
        Ok(Ok(got)) => match what {
            What::Change => {}
            What::Once => {
                if got.canonical() != want.canonical() {
                    o.violation(name, src, format!("the walk visits\n  {}\nthe tree is\n  {}", got.show(), want.show()));
                } else if let Some(d) = disorder(&got, &want) {
                    o.violation(name, src, d);
                }
            }
            What::Decline => {
                for i in 0..got.size() - 1 {
                    let expect = got.without_children_of(&mut (i as isize + 1));
                    o.counts.replays += 1;
                    match imp::guard(|| walk(&mut t, i as isize)) {
                        Ok(Ok(g)) if g == expect => {}
                        Ok(Ok(g)) => {
                            o.violation(name, src, format!("declining visit {i}: visits\n  {}\nexpected\n  {}", g.show(), expect.show()));
                            break;
                        }
                        Ok(Err(w)) | Err(w) => {
                            o.violation(name, src, format!("declining visit {i}: {w}"));
                            break;
                        }
                    }
                }
            }
        },
    }
    o.done();
}

pub fn run(run: &mut Run, what: What) {
    if what == What::Once {
        crate::many::each(run, |o, s, e, m| visit(o, s, e, m, what));
    }
    let size = run.pick(3, 4);
    terms::explore(run, &terms::SCRIPT, size, |o, s| visit(o, s, Entry::Script, false, what));
    terms::explore(run, &terms::MODULE, size, |o, s| visit(o, s, Entry::Module, true, what));
    terms::explore(run, &terms::EXPR, size - 1, |o, s| visit(o, s, Entry::Expr, false, what));
    for (_, ws) in crate::groups() {
        let cut = run.pick(2, 1);
        run.worlds(ws, |w| w.quick - cut.min(w.quick), &|o, w: &World, s, _| visit(o, s, w.entry(), w.module, what));
    }
}

pub fn case(o: &mut Obs, entry: &str, src: &str, what: What) {
    let (e, m) = entry_of(entry);
    visit(o, src, e, m, what);
}

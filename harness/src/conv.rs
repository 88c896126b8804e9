//! fajt's tree mapped to the neutral tree. Purely structural: every field of every node is carried
//! over (a field that is dropped here would be invisible to the checks).
use crate::node::N;
use fajt_ast::*;

fn sp(k: &'static str, s: &Span, t: impl Into<String>, c: Vec<N>) -> N {
    N::new(k, s.start, s.end, t, c)
}

pub fn program(p: &Program) -> N {
    let (k, l) = match p {
        Program::Script(l) => ("Script", l),
        Program::Module(l) => ("Module", l),
    };
    let mut c: Vec<N> = l.directives.iter().map(dir).collect();
    c.extend(l.body.iter().map(stmt));
    sp(k, &l.span, "", c)
}

fn dir(d: &LitString) -> N {
    N::bare("Dir", lit_string(d), vec![])
}

pub fn lit_string(s: &LitString) -> String {
    format!("{}{}", s.delimiter, s.value)
}

pub fn ident(i: &Ident) -> N {
    sp("Id", &i.span, i.name.clone(), vec![])
}

fn opt<T>(o: &Option<T>, f: impl Fn(&T) -> N) -> N {
    o.as_ref().map_or_else(N::hole, f)
}

fn bexpr(e: &Expr) -> N {
    expr(e)
}

pub fn stmt(s: &Stmt) -> N {
    match s {
        Stmt::Block(b) => block(b),
        Stmt::Break(b) => sp("Break", &b.span, "", vec![opt(&b.label, ident)]),
        Stmt::Continue(b) => sp("Continue", &b.span, "", vec![opt(&b.label, ident)]),
        Stmt::Debugger(b) => sp("Debugger", &b.span, "", vec![]),
        Stmt::DoWhile(b) => sp("DoWhile", &b.span, "", vec![stmt(&b.body), expr(&b.test)]),
        Stmt::Empty(b) => sp("Empty", &b.span, "", vec![]),
        Stmt::Expr(b) => sp("ExprStmt", &b.span, "", vec![expr(&b.expr)]),
        Stmt::For(b) => sp(
            "For",
            &b.span,
            "",
            vec![
                opt(&b.init, |i| match i {
                    ForInit::Expr(e) => expr(e),
                    ForInit::Declaration(v) => var(v),
                }),
                opt(&b.test, |e| bexpr(e)),
                opt(&b.update, |e| bexpr(e)),
                stmt(&b.body),
            ],
        ),
        Stmt::ForIn(b) => sp("ForIn", &b.span, "", vec![for_decl(&b.left), expr(&b.right), stmt(&b.body)]),
        Stmt::ForOf(b) => sp(
            "ForOf",
            &b.span,
            if b.asynchronous { "await" } else { "" },
            vec![for_decl(&b.left), expr(&b.right), stmt(&b.body)],
        ),
        Stmt::If(b) => sp("If", &b.span, "", vec![expr(&b.condition), stmt(&b.consequent), opt(&b.alternate, |s| stmt(s))]),
        Stmt::Labeled(b) => sp("Labeled", &b.span, "", vec![ident(&b.label), stmt(&b.body)]),
        Stmt::Return(b) => sp("Return", &b.span, "", vec![opt(&b.argument, |e| bexpr(e))]),
        Stmt::Switch(b) => {
            let mut c = vec![expr(&b.discriminant)];
            for k in &b.cases {
                let mut cc = vec![opt(&k.test, expr)];
                cc.extend(k.consequent.iter().map(stmt));
                c.push(sp("Case", &k.span, "", cc));
            }
            sp("Switch", &b.span, "", c)
        }
        Stmt::Throw(b) => sp("Throw", &b.span, "", vec![expr(&b.argument)]),
        Stmt::Try(b) => sp(
            "Try",
            &b.span,
            "",
            vec![
                block(&b.block),
                opt(&b.handler, |h| sp("Catch", &h.span, "", vec![opt(&h.parameter, pattern), block(&h.body)])),
                opt(&b.finalizer, block),
            ],
        ),
        Stmt::Variable(v) => var(v),
        Stmt::While(b) => sp("While", &b.span, "", vec![expr(&b.test), stmt(&b.body)]),
        Stmt::With(b) => sp("With", &b.span, "", vec![expr(&b.object), stmt(&b.body)]),
        Stmt::ClassDecl(d) => {
            let mut c = vec![ident(&d.identifier), opt(&d.super_class, |e| bexpr(e))];
            c.extend(d.body.iter().map(class_element));
            sp("ClassDecl", &d.span, "", c)
        }
        Stmt::FunctionDecl(d) => sp(
            "FnDecl",
            &d.span,
            flags(d.asynchronous, d.generator),
            vec![ident(&d.identifier), params(&d.parameters), body(&d.body)],
        ),
        Stmt::ImportDecl(d) => sp(
            "Import",
            &d.span,
            "",
            vec![
                opt(&d.default_binding, ident),
                opt(&d.namespace_binding, ident),
                opt(&d.named_imports, |v| {
                    N::bare(
                        "Named",
                        "",
                        v.iter().map(|n| sp("ImpSpec", &n.span, "", vec![ident(&n.name), opt(&n.alias, ident)])).collect(),
                    )
                }),
                from(&d.from),
            ],
        ),
        Stmt::ExportDecl(d) => match d {
            DeclExport::Decl(d) => sp("ExpDecl", &d.span, "", vec![stmt(&d.decl)]),
            DeclExport::DefaultDecl(d) => sp("ExpDefDecl", &d.span, "", vec![stmt(&d.decl)]),
            DeclExport::DefaultExpr(d) => sp("ExpDefExpr", &d.span, "", vec![expr(&d.expr)]),
            DeclExport::Named(d) => {
                let v = d.named_exports.iter().map(|n| sp("ExpSpec", &n.span, "", vec![ident(&n.name), opt(&n.alias_of, ident)]));
                sp("ExpNamed", &d.span, "", vec![N::bare("Named", "", v.collect()), opt(&d.from, from)])
            }
            DeclExport::Namespace(d) => sp("ExpNs", &d.span, "", vec![opt(&d.alias, ident), from(&d.from)]),
        },
    }
}

fn from(s: &LitString) -> N {
    N::bare("From", lit_string(s), vec![])
}

fn flags(a: bool, g: bool) -> String {
    format!("{}{}", if a { "a" } else { "" }, if g { "*" } else { "" })
}

fn block(b: &StmtBlock) -> N {
    sp("Block", &b.span, "", b.statements.iter().map(stmt).collect())
}

fn kind(k: &VariableKind) -> &'static str {
    match k {
        VariableKind::Const => "const",
        VariableKind::Let => "let",
        VariableKind::Var => "var",
    }
}

fn var(v: &StmtVariable) -> N {
    let c = v.declarations.iter().map(|d| sp("Decl", &d.span, "", vec![pattern(&d.pattern), opt(&d.initializer, expr)]));
    sp("Var", &v.span, kind(&v.kind), c.collect())
}

fn for_decl(d: &ForDeclaration) -> N {
    match d {
        ForDeclaration::Expr(e) => expr(e),
        ForDeclaration::AssignmentPattern(p) => assign_pattern(p),
        ForDeclaration::Declaration(b) => sp("ForBind", &b.span, kind(&b.kind), vec![pattern(&b.binding)]),
    }
}

fn body(b: &Body) -> N {
    let mut c: Vec<N> = b.directives.iter().map(dir).collect();
    c.extend(b.statements.iter().map(stmt));
    sp("Body", &b.span, "", c)
}

fn params(p: &FormalParameters) -> N {
    let mut c: Vec<N> = p.bindings.iter().map(binding_element).collect();
    if let Some(r) = &p.rest {
        c.push(N::bare("Rest", "", vec![pattern(r)]));
    }
    sp("Params", &p.span, "", c)
}

fn binding_element(b: &BindingElement) -> N {
    sp("BindEl", &b.span, "", vec![pattern(&b.pattern), opt(&b.initializer, |e| bexpr(e))])
}

fn pattern(p: &BindingPattern) -> N {
    match p {
        BindingPattern::Ident(i) => ident(i),
        BindingPattern::Array(a) => {
            let mut c: Vec<N> = a.elements.iter().map(|e| opt(e, binding_element)).collect();
            if let Some(r) = &a.rest {
                c.push(N::bare("Rest", "", vec![pattern(r)]));
            }
            sp("BArr", &a.span, "", c)
        }
        BindingPattern::Object(o) => {
            let mut c: Vec<N> = o
                .props
                .iter()
                .map(|p| match p {
                    ObjectBindingProp::Single(s) => sp("BSingle", &s.span, "", vec![ident(&s.ident), opt(&s.initializer, |e| bexpr(e))]),
                    ObjectBindingProp::Named(n) => sp("BNamed", &n.span, "", vec![prop_name(&n.property), binding_element(&n.binding)]),
                })
                .collect();
            if let Some(r) = &o.rest {
                c.push(N::bare("Rest", "", vec![pattern(r)]));
            }
            sp("BObj", &o.span, "", c)
        }
    }
}

fn prop_name(p: &PropertyName) -> N {
    match p {
        PropertyName::Ident(i) => ident(i),
        PropertyName::String(s) => N::bare("PStr", lit_string(s), vec![]),
        PropertyName::Number(n) => N::bare("PNum", n.raw.clone(), vec![]),
        PropertyName::Computed(e) => N::bare("PComp", "", vec![expr(e)]),
    }
}

fn class_element(e: &ClassElement) -> N {
    match e {
        ClassElement::Method(m) => method(m),
    }
}

fn method(m: &MethodDefinition) -> N {
    let k = match m.kind {
        MethodKind::Method => "",
        MethodKind::Get => "get",
        MethodKind::Set => "set",
    };
    let t = format!("{}{}{}", k, if m.is_static { "s" } else { "" }, flags(m.asynchronous, m.generator));
    sp("Method", &m.span, t, vec![prop_name(&m.name), params(&m.parameters), body(&m.body)])
}

fn pattern_or_expr(p: &PatternOrExpr) -> N {
    match p {
        PatternOrExpr::Expr(e) => expr(e),
        PatternOrExpr::AssignmentPattern(p) => assign_pattern(p),
    }
}

fn assign_pattern(p: &AssignmentPattern) -> N {
    match p {
        AssignmentPattern::Array(a) => {
            let mut c: Vec<N> = a
                .elements
                .iter()
                .map(|e| opt(e, |e| sp("AEl", &e.span, "", vec![pattern_or_expr(&e.target), opt(&e.initializer, |e| bexpr(e))])))
                .collect();
            if let Some(r) = &a.rest {
                c.push(N::bare("Rest", "", vec![pattern_or_expr(r)]));
            }
            sp("AArr", &a.span, "", c)
        }
        AssignmentPattern::Object(o) => {
            let mut c: Vec<N> = o
                .props
                .iter()
                .map(|p| match p {
                    AssignmentProp::Single(s) => sp("ASingle", &s.span, "", vec![ident(&s.ident), opt(&s.initializer, |e| bexpr(e))]),
                    AssignmentProp::Named(n) => sp(
                        "ANamed",
                        &n.span,
                        "",
                        vec![prop_name(&n.name), pattern_or_expr(&n.value), opt(&n.initializer, |e| bexpr(e))],
                    ),
                })
                .collect();
            if let Some(r) = &o.rest {
                c.push(N::bare("Rest", "", vec![pattern_or_expr(r)]));
            }
            sp("AObj", &o.span, "", c)
        }
    }
}

fn args(span: &Span, a: &[Argument]) -> N {
    sp(
        "Args",
        span,
        "",
        a.iter()
            .map(|a| match a {
                Argument::Expr(e) => expr(e),
                Argument::Spread(e) => N::bare("Spread", "", vec![expr(e)]),
            })
            .collect(),
    )
}

fn parts(t: &LitTemplate) -> Vec<N> {
    t.parts
        .iter()
        .map(|p| match p {
            TemplatePart::String(s) => N::bare("T", s.clone(), vec![]),
            TemplatePart::Expr(e) => expr(e),
        })
        .collect()
}

pub fn expr(e: &Expr) -> N {
    match e {
        Expr::ArrowFunction(f) => {
            let t = format!("{}{}", if f.asynchronous { "a" } else { "" }, if f.binding_parameter { "b" } else { "" });
            let b = match &f.body {
                ArrowFunctionBody::Expr(e) => expr(e),
                ArrowFunctionBody::Body(b) => body(b),
            };
            sp("Arrow", &f.span, t, vec![params(&f.parameters), b])
        }
        Expr::Assignment(a) => {
            let op = match a.operator {
                AssignmentOperator::Assign => "=",
                AssignmentOperator::Multiply => "*=",
                AssignmentOperator::Power => "**=",
                AssignmentOperator::Divide => "/=",
                AssignmentOperator::Modulus => "%=",
                AssignmentOperator::Add => "+=",
                AssignmentOperator::Sub => "-=",
                AssignmentOperator::LeftShift => "<<=",
                AssignmentOperator::RightShift => ">>=",
                AssignmentOperator::UnsignedRightShift => ">>>=",
                AssignmentOperator::BitwiseAnd => "&=",
                AssignmentOperator::BitwiseXOr => "^=",
                AssignmentOperator::BitwiseOr => "|=",
            };
            sp("Assign", &a.span, op, vec![pattern_or_expr(&a.left), expr(&a.right)])
        }
        Expr::Await(a) => sp("Await", &a.span, "", vec![expr(&a.argument)]),
        Expr::Binary(b) => {
            use BinaryOperator::*;
            let op = match b.operator {
                Plus => "+",
                Minus => "-",
                Multiplication => "*",
                Division => "/",
                Modulus => "%",
                Exponent => "**",
                ShiftLeft => "<<",
                ShiftRight => ">>",
                ShiftRightUnsigned => ">>>",
                LessThan => "<",
                MoreThan => ">",
                LessThanEquals => "<=",
                MoreThanEquals => ">=",
                InstanceOf => "instanceof",
                In => "in",
                Equal => "==",
                NotEqual => "!=",
                StrictEqual => "===",
                StrictNotEqual => "!==",
                BitwiseAnd => "&",
                BitwiseXOR => "^",
                BitwiseOR => "|",
            };
            sp("Bin", &b.span, op, vec![expr(&b.left), expr(&b.right)])
        }
        Expr::Call(c) => {
            let callee = match &c.callee {
                Callee::Super => N::bare("SuperCallee", "", vec![]),
                Callee::Import => N::bare("ImportCallee", "", vec![]),
                Callee::Expr(e) => expr(e),
            };
            sp("Call", &c.span, "", vec![callee, args(&c.arguments_span, &c.arguments)])
        }
        Expr::Class(d) => {
            let mut c = vec![opt(&d.identifier, ident), opt(&d.super_class, |e| bexpr(e))];
            c.extend(d.body.iter().map(class_element));
            sp("Class", &d.span, "", c)
        }
        Expr::Conditional(c) => sp("Cond", &c.span, "", vec![expr(&c.condition), expr(&c.consequent), expr(&c.alternate)]),
        Expr::Function(f) => sp(
            "Fn",
            &f.span,
            flags(f.asynchronous, f.generator),
            vec![opt(&f.identifier, ident), params(&f.parameters), body(&f.body)],
        ),
        Expr::IdentRef(i) => ident(i),
        Expr::Literal(l) => literal(l),
        Expr::Logical(l) => {
            let op = match l.operator {
                LogicalOperator::And => "&&",
                LogicalOperator::Or => "||",
                LogicalOperator::Coalesce => "??",
            };
            sp("Logic", &l.span, op, vec![expr(&l.left), expr(&l.right)])
        }
        Expr::Member(m) => {
            let o = match &m.object {
                MemberObject::Expr(e) => expr(e),
                MemberObject::Super(s) => sp("Super", &s.span, "", vec![]),
            };
            match &m.property {
                MemberProperty::Ident(i) => sp("Mem", &m.span, ".", vec![o, ident(i)]),
                MemberProperty::Expr(e) => sp("Mem", &m.span, "[]", vec![o, expr(e)]),
            }
        }
        Expr::MetaProperty(m) => sp("Meta", &m.span, "", vec![ident(&m.meta), ident(&m.property)]),
        Expr::New(n) => {
            let a = match &n.arguments_span {
                Some(s) => args(s, &n.arguments),
                None if n.arguments.is_empty() => N::hole(),
                None => N::bare("ArgsWithoutSpan", "", vec![]),
            };
            sp("New", &n.span, "", vec![expr(&n.callee), a])
        }
        Expr::OptionalCall(c) => sp(
            "OptCall",
            &c.span,
            if c.optional { "?." } else { "" },
            vec![expr(&c.callee), args(&c.arguments_span, &c.arguments)],
        ),
        Expr::OptionalMember(m) => {
            let o = if m.optional { "?." } else { "" };
            match &m.property {
                MemberProperty::Ident(i) => sp("OptMem", &m.span, o, vec![expr(&m.object), ident(i)]),
                MemberProperty::Expr(e) => sp("OptMem", &m.span, format!("{o}[]"), vec![expr(&m.object), expr(e)]),
            }
        }
        Expr::Parenthesized(p) => sp("Paren", &p.span, "", vec![expr(&p.expression)]),
        Expr::Sequence(s) => sp("Seq", &s.span, "", s.expr.iter().map(expr).collect()),
        Expr::TaggedTemplate(t) => sp("Tagged", &t.span, "", vec![expr(&t.callee), N::bare("Parts", "", parts(&t.template))]),
        Expr::This(t) => sp("This", &t.span, "", vec![]),
        Expr::Unary(u) => {
            let op = match u.operator {
                UnaryOperator::Delete => "delete",
                UnaryOperator::Void => "void",
                UnaryOperator::Typeof => "typeof",
                UnaryOperator::Plus => "+",
                UnaryOperator::Minus => "-",
                UnaryOperator::BitwiseNot => "~",
                UnaryOperator::Not => "!",
            };
            sp("Unary", &u.span, op, vec![expr(&u.argument)])
        }
        Expr::Update(u) => {
            let op = match u.operator {
                UpdateOperator::Increase => "++",
                UpdateOperator::Decrease => "--",
            };
            sp("Update", &u.span, format!("{}{}", if u.prefix { "pre" } else { "post" }, op), vec![expr(&u.argument)])
        }
        Expr::Yield(y) => sp(
            "Yield",
            &y.span,
            if y.delegate { "*" } else { "" },
            y.argument.iter().map(|e| expr(e)).collect(),
        ),
    }
}

fn literal(l: &ExprLiteral) -> N {
    let s = &l.span;
    match &l.literal {
        Literal::Null => sp("Null", s, "", vec![]),
        Literal::Boolean(b) => sp("Bool", s, if *b { "true" } else { "false" }, vec![]),
        Literal::String(v) => sp("Str", s, lit_string(v), vec![]),
        Literal::Number(n) => sp("Num", s, n.raw.clone(), vec![]),
        Literal::Array(a) => sp(
            "Arr",
            s,
            "",
            a.elements
                .iter()
                .map(|e| match e {
                    ArrayElement::Elision => N::hole(),
                    ArrayElement::Expr(e) => expr(e),
                    ArrayElement::Spread(e) => N::bare("Spread", "", vec![expr(e)]),
                })
                .collect(),
        ),
        Literal::Object(o) => sp(
            "Obj",
            s,
            "",
            o.props
                .iter()
                .map(|p| match p {
                    PropertyDefinition::IdentRef(i) => sp("Short", &i.span, i.name.clone(), vec![]),
                    PropertyDefinition::Spread(e) => N::bare("Spread", "", vec![expr(e)]),
                    PropertyDefinition::Named(n) => sp("Prop", &n.span, "", vec![prop_name(&n.name), expr(&n.value)]),
                    PropertyDefinition::Method(m) => method(m),
                })
                .collect(),
        ),
        Literal::Regexp(r) => sp("Re", s, r.clone(), vec![]),
        Literal::Template(t) => sp("Tpl", s, "", parts(t)),
    }
}

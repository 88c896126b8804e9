// Development cross-check of the reference grammar (harness/src/refjs.rs) against acorn 8.19.
// usage: fajtmc dump DEPTH FILTER | node acorn_compare.js
const acorn = require('/opt/veriftools/node/node_modules/acorn');
const rl = require('readline').createInterface({input: process.stdin, crlfDelay: Infinity});
// Early errors and features the reference does not claim.
const ignore = /already been declared|Undefined export|Unsyntactic|Duplicate export|Label .* is already|Missing initializer in const|Binding (eval|arguments|let|yield)|in strict mode|Argument name clash|redefine __proto__|let is disallowed|Duplicate constructor|Constructor can't|named prototype|'new.target' can only|Redefinition|Private|lexically bound|Octal|Invalid regular|'use strict' directive|BigInt|Keyword must not contain|Export '.*' is not defined|Cannot use 'import.meta' outside/;
const H = {k: '-', c: []};
let cur;
const n = (k, node, t, c) => ({k, s: node ? node.start : null, e: node ? node.end : null, t: t || '', c});
const opt = (x, f) => x ? f(x) : H;
const id = x => n('Id', x, x.name, []);
const strv = x => x.raw[0] + x.value;
function program(p) { return n(p.sourceType === 'module' ? 'Module' : 'Script', null, '', stmts(p.body)); }
function stmts(b) {
  return b.map(s => s.directive !== undefined ? n('Dir', null, strv(s.expression), []) : stmt(s));
}
function body(b) { return n('Body', b, '', stmts(b.body)); }
function block(b) { return n('Block', b, '', b.body.map(stmt)); }
function vardecl(s) { return n('Var', s, s.kind, s.declarations.map(d => n('Decl', d, '', [pat(d.id), opt(d.init, expr)]))); }
function left(l) {
  if (l.type === 'VariableDeclaration') return n('ForBind', l, l.kind, [pat(l.declarations[0].id)]);
  return target(l);
}
function fl(f) { return (f.async ? 'a' : '') + (f.generator ? '*' : ''); }
function params(ps) {
  return n('Params', null, '', ps.map(p => p.type === 'RestElement' ? n('Rest', null, '', [pat(p.argument)]) : bindel(p)));
}
function bindel(p) {
  if (p.type === 'AssignmentPattern') return n('BindEl', p, '', [pat(p.left), expr(p.right)]);
  return n('BindEl', p, '', [pat(p), H]);
}
function pat(p) {
  switch (p.type) {
    case 'Identifier': return id(p);
    case 'ArrayPattern': return n('BArr', p, '', p.elements.map(e => !e ? H : e.type === 'RestElement' ? n('Rest', null, '', [pat(e.argument)]) : bindel(e)));
    case 'ObjectPattern': return n('BObj', p, '', p.properties.map(q => {
      if (q.type === 'RestElement') return n('Rest', null, '', [pat(q.argument)]);
      if (q.shorthand) return n('BSingle', q, '', [id(q.key), q.value.type === 'AssignmentPattern' ? expr(q.value.right) : H]);
      return n('BNamed', q, '', [pname(q), bindel(q.value)]);
    }));
  }
  throw new Error('pat ' + p.type);
}
function target(p) {
  switch (p.type) {
    case 'ArrayPattern': return n('AArr', p, '', p.elements.map(e => {
      if (!e) return H;
      if (e.type === 'RestElement') return n('Rest', null, '', [target(e.argument)]);
      if (e.type === 'AssignmentPattern') return n('AEl', e, '', [target(e.left), expr(e.right)]);
      return n('AEl', e, '', [target(e), H]);
    }));
    case 'ObjectPattern': return n('AObj', p, '', p.properties.map(q => {
      if (q.type === 'RestElement') return n('Rest', null, '', [target(q.argument)]);
      const init = q.value.type === 'AssignmentPattern' ? expr(q.value.right) : H;
      const tg = q.value.type === 'AssignmentPattern' ? q.value.left : q.value;
      if (q.shorthand) return n('ASingle', q, '', [id(q.key), init]);
      return n('ANamed', q, '', [pname(q), target(tg), init]);
    }));
  }
  return expr(p);
}
function pname(q) {
  if (q.computed) return n('PComp', null, '', [expr(q.key)]);
  if (q.key.type === 'Identifier') return id(q.key);
  return typeof q.key.value === 'string' ? n('PStr', null, strv(q.key), []) : n('PNum', null, q.key.raw, []);
}
function method(m) {
  const v = m.value;
  const kind = m.kind === 'get' || m.kind === 'set' ? m.kind : '';
  const x = n('Method', m, kind + (m.static ? 's' : '') + fl(v), [pname(m), params(v.params), body(v.body)]);
  if (m.static) x.s = null;
  return x;
}
function cls(k, c) {
  return n(k, c, '', [c.id ? id(c.id) : k === 'ClassDecl' ? n('Id', null, '', []) : H, opt(c.superClass, expr), ...c.body.body.map(method)]);
}
function fn(k, f) { return n(k, f, fl(f), [f.id ? id(f.id) : k === 'FnDecl' ? n('Id', null, '', []) : H, params(f.params), body(f.body)]); }
function args(a) { return n('Args', null, '', a.map(x => x.type === 'SpreadElement' ? n('Spread', null, '', [expr(x.argument)]) : expr(x))); }
function parts(q) {
  const v = [];
  q.quasis.forEach((s, i) => {
    const raw = cur.slice(s.start, s.end);
    if (raw !== '' || q.quasis.length === 1) v.push(n('T', null, raw, []));
    if (i < q.expressions.length) v.push(expr(q.expressions[i]));
  });
  return v;
}
let chain = 0;
function expr(e) {
  switch (e.type) {
    case 'Identifier': return id(e);
    case 'ThisExpression': return n('This', e, '', []);
    case 'Literal':
      if (e.regex) return n('Re', e, cur.slice(e.start, e.end), []);
      if (e.value === null) return n('Null', e, '', []);
      if (typeof e.value === 'boolean') return n('Bool', e, String(e.value), []);
      if (typeof e.value === 'string') return n('Str', e, strv(e), []);
      return n('Num', e, e.raw, []);
    case 'SequenceExpression': return n('Seq', e, '', e.expressions.map(expr));
    case 'AssignmentExpression': return n('Assign', e, e.operator, [target(e.left), expr(e.right)]);
    case 'YieldExpression': return n('Yield', e, e.delegate ? '*' : '', e.argument ? [expr(e.argument)] : []);
    case 'AwaitExpression': return n('Await', e, '', [expr(e.argument)]);
    case 'ConditionalExpression': return n('Cond', e, '', [expr(e.test), expr(e.consequent), expr(e.alternate)]);
    case 'LogicalExpression': return n('Logic', e, e.operator, [expr(e.left), expr(e.right)]);
    case 'BinaryExpression': return n('Bin', e, e.operator, [expr(e.left), expr(e.right)]);
    case 'UnaryExpression': return n('Unary', e, e.operator, [expr(e.argument)]);
    case 'UpdateExpression': return n('Update', e, (e.prefix ? 'pre' : 'post') + e.operator, [expr(e.argument)]);
    case 'ParenthesizedExpression': return n('Paren', e, '', [expr(e.expression)]);
    case 'ChainExpression': return expr_chain(e.expression, true);
    case 'CallExpression':
      if (e.callee.type === 'Super') return n('Call', e, '', [n('SuperCallee', null, '', []), args(e.arguments)]);
      return n('Call', e, '', [expr(e.callee), args(e.arguments)]);
    case 'ImportExpression': return n('Call', e, '', [n('ImportCallee', null, '', []), args([e.source])]);
    case 'NewExpression': {
      const bare = cur[e.end - 1] !== ')' || e.callee.end === e.end;
      return n('New', e, '', [expr(e.callee), bare ? H : args(e.arguments)]);
    }
    case 'MemberExpression': {
      const o = e.object.type === 'Super' ? n('Super', e.object, '', []) : expr(e.object);
      return n('Mem', e, e.computed ? '[]' : '.', [o, e.computed ? expr(e.property) : id(e.property)]);
    }
    case 'TaggedTemplateExpression': return n('Tagged', e, '', [expr(e.tag), n('Parts', null, '', parts(e.quasi))]);
    case 'TemplateLiteral': return n('Tpl', e, '', parts(e));
    case 'MetaProperty': return n('Meta', e, '', [id(e.meta), id(e.property)]);
    case 'ArrayExpression': return n('Arr', e, '', e.elements.map(x => !x ? H : x.type === 'SpreadElement' ? n('Spread', null, '', [expr(x.argument)]) : expr(x)));
    case 'ObjectExpression': return n('Obj', e, '', e.properties.map(q => {
      if (q.type === 'SpreadElement') return n('Spread', null, '', [expr(q.argument)]);
      if (q.method || q.kind !== 'init') return method(q);
      if (q.shorthand) return n('Short', q, q.key.name, []);
      return n('Prop', q, '', [pname(q), expr(q.value)]);
    }));
    case 'FunctionExpression': return fn('Fn', e);
    case 'ClassExpression': return cls('Class', e);
    case 'ArrowFunctionExpression': {
      const b = e.params.length === 1 && e.params[0].type === 'Identifier' && e.params[0].start === (e.async ? e.params[0].start : e.start)
        && !/^\s*\(/.test(cur.slice(e.async ? e.start + 5 : e.start));
      return n('Arrow', e, (e.async ? 'a' : '') + (b ? 'b' : ''), [params(e.params), e.body.type === 'BlockStatement' ? body(e.body) : expr(e.body)]);
    }
  }
  throw new Error('expr ' + e.type);
}
// Everything from the first `?.` of a chain on is an optional chain link in fajt's tree.
function hasOpt(e) {
  if (e.type === 'CallExpression') return e.optional || hasOpt(e.callee);
  if (e.type === 'MemberExpression') return e.optional || hasOpt(e.object);
  return false;
}
function expr_chain(e) {
  if (!hasOpt(e)) return expr(e);
  const o = e.optional ? '?.' : '';
  if (e.type === 'CallExpression') return n('OptCall', e, o, [expr_chain(e.callee), args(e.arguments)]);
  if (e.type === 'MemberExpression') return n('OptMem', e, e.computed ? o + '[]' : o, [expr_chain(e.object), e.computed ? expr(e.property) : id(e.property)]);
  return expr(e);
}
function stmt(s) {
  switch (s.type) {
    case 'EmptyStatement': return n('Empty', s, '', []);
    case 'BlockStatement': return block(s);
    case 'ExpressionStatement': return n('ExprStmt', s, '', [expr(s.expression)]);
    case 'VariableDeclaration': return vardecl(s);
    case 'IfStatement': return n('If', s, '', [expr(s.test), stmt(s.consequent), opt(s.alternate, stmt)]);
    case 'WhileStatement': return n('While', s, '', [expr(s.test), stmt(s.body)]);
    case 'DoWhileStatement': return n('DoWhile', s, '', [stmt(s.body), expr(s.test)]);
    case 'WithStatement': return n('With', s, '', [expr(s.object), stmt(s.body)]);
    case 'ForStatement': { const i = opt(s.init, i => i.type === 'VariableDeclaration' ? vardecl(i) : expr(i)); return n('For', s, '', [i, opt(s.test, expr), opt(s.update, expr), stmt(s.body)]); }
    case 'ForInStatement': return n('ForIn', s, '', [left(s.left), expr(s.right), stmt(s.body)]);
    case 'ForOfStatement': return n('ForOf', s, s.await ? 'await' : '', [left(s.left), expr(s.right), stmt(s.body)]);
    case 'BreakStatement': return n('Break', s, '', [opt(s.label, id)]);
    case 'ContinueStatement': return n('Continue', s, '', [opt(s.label, id)]);
    case 'ReturnStatement': return n('Return', s, '', [opt(s.argument, expr)]);
    case 'ThrowStatement': return n('Throw', s, '', [expr(s.argument)]);
    case 'DebuggerStatement': return n('Debugger', s, '', []);
    case 'SwitchStatement': return n('Switch', s, '', [expr(s.discriminant), ...s.cases.map(c => n('Case', c, '', [opt(c.test, expr), ...c.consequent.map(stmt)]))]);
    case 'TryStatement': return n('Try', s, '', [block(s.block), opt(s.handler, h => n('Catch', h, '', [opt(h.param, pat), block(h.body)])), opt(s.finalizer, block)]);
    case 'LabeledStatement': return n('Labeled', s, '', [id(s.label), stmt(s.body)]);
    case 'FunctionDeclaration': return fn('FnDecl', s);
    case 'ClassDeclaration': return cls('ClassDecl', s);
    case 'ImportDeclaration': {
      let d = H, ns = H, named = null;
      for (const p of s.specifiers) {
        if (p.type === 'ImportDefaultSpecifier') d = id(p.local);
        else if (p.type === 'ImportNamespaceSpecifier') ns = id(p.local);
        else { named = named || []; named.push(n('ImpSpec', p, '', [id(p.imported), p.local.start === p.imported.start ? H : id(p.local)])); }
      }
      if (!named && s.specifiers.every(p => p.type === 'ImportDefaultSpecifier') && /[{]/.test(cur.slice(s.start, s.source.start))) named = [];
      return n('Import', s, '', [d, ns, named ? n('Named', null, '', named) : H, n('From', null, strv(s.source), [])]);
    }
    case 'ExportAllDeclaration': return n('ExpNs', s, '', [opt(s.exported, id), n('From', null, strv(s.source), [])]);
    case 'ExportNamedDeclaration':
      if (s.declaration) return n('ExpDecl', s, '', [stmt(s.declaration)]);
      return n('ExpNamed', s, '', [n('Named', null, '', s.specifiers.map(p => n('ExpSpec', p, '', p.local.start === p.exported.start ? [id(p.exported), H] : [id(p.exported), id(p.local)]))), opt(s.source, x => n('From', null, strv(x), []))]);
    case 'ExportDefaultDeclaration': {
      const d = s.declaration;
      if (d.type === 'FunctionDeclaration') return n('ExpDefDecl', s, '', [fn('FnDecl', d)]);
      if (d.type === 'ClassDeclaration') return n('ExpDefDecl', s, '', [cls('ClassDecl', d)]);
      return n('ExpDefExpr', s, '', [expr(d)]);
    }
  }
  throw new Error('stmt ' + s.type);
}
function diff(r, a, path) {
  if (r[0] !== a.k) return `${path}: kind ${r[0]} vs ${a.k}`;
  if (r[0] === '-') return null;
  if (r[3] !== a.t) return `${path}/${a.k}: text ${r[3]} vs ${a.t}`;
  if (a.s !== null && r[1] !== 4294967295 && (r[1] !== a.s || r[2] !== a.e)) return `${path}/${a.k}: span ${r[1]}:${r[2]} vs ${a.s}:${a.e}`;
  if (r[4].length !== a.c.length) return `${path}/${a.k}: ${r[4].length} vs ${a.c.length} children`;
  for (let i = 0; i < a.c.length; i++) { const d = diff(r[4][i], a.c[i], path + '/' + a.k); if (d) return d; }
  return null;
}
let lines = 0, acc = 0, bad = 0; const kinds = {};
function report(kind, src, module, msg) {
  bad++;
  kinds[kind] = (kinds[kind] || []);
  if (kinds[kind].length < 400) kinds[kind].push([src, module, msg]);
}
rl.on('line', line => {
  const [module, src, tree] = JSON.parse(line);
  lines++;
  cur = src;
  let t = null, err = null;
  try { t = acorn.parse(src, {ecmaVersion: 12, sourceType: module ? 'module' : 'script', preserveParens: true}); } catch (e) { if (!(e instanceof SyntaxError)) throw e; err = e.message; }
  if (tree && t) {
    acc++;
    const ascii = /^[\x00-\x7f]*$/.test(src);
    let d;
    try { d = diff(tree, program(t), ''); } catch (e) { d = 'mapping: ' + e.message; }
    if (d && ascii) report('tree', src, module, d);
  } else if (tree && !t) {
    if (!ignore.test(err) && !/let[\n\u2028\r]+ *(var|const|if|while|class|function|do|try|for|switch)/.test(src)) report('ref accepts', src, module, err);
  } else if (!tree && t) report('ref rejects', src, module, '');
});
rl.on('close', () => {
  console.log(`${lines} inputs, ${acc} accepted by both, ${bad} differences`);
  for (const k of Object.keys(kinds)) {
    kinds[k].sort((a, b) => a[0].length - b[0].length);
    for (const [s, m, msg] of kinds[k].slice(0, +(process.argv[2] || 12))) console.log(`${k} ${m ? 'module' : 'script'}: ${JSON.stringify(s)}  ${msg}`);
  }
});

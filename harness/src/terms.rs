//! Exhaustive enumeration of programs by nesting: every way to put at most `n` construct templates
//! into each other's holes, all other holes filled with a smallest leaf. A state is a term; a
//! transition fills one leaf with a template.

use crate::check::Run;
use crate::engine::Obs;

/// A hole is `$` and a sort letter.
pub struct Sort {
    pub letter: char,
    pub leaf: &'static str,
    pub templates: &'static [&'static str],
}

pub struct Signature {
    pub name: &'static str,
    pub sorts: &'static [Sort],
}

/// Which templates a property is about; `None` for all.
pub type About = Option<fn(&str) -> bool>;

struct Template {
    /// Texts between holes (one more than holes).
    lits: Vec<String>,
    holes: Vec<usize>,
    /// The property is about this template.
    about: bool,
}

pub struct Enumerator {
    sorts: Vec<Vec<Template>>,
    leaves: Vec<&'static str>,
    /// lists[sort][n]: the texts with exactly n templates, and whether one of these is what the property is about.
    lists: Vec<Vec<Vec<(String, bool)>>>,
}

impl Enumerator {
    pub fn new(sig: &[Sort], about: About, only: bool) -> Enumerator {
        let index = |c: char| sig.iter().position(|s| s.letter == c).unwrap_or_else(|| panic!("sort {c}"));
        let parse = |t: &str| {
            let mut lits = vec![String::new()];
            let mut holes = vec![];
            let mut it = t.chars().peekable();
            while let Some(c) = it.next() {
                match it.peek() {
                    Some(&n) if c == '$' && n.is_ascii_uppercase() => {
                        it.next();
                        holes.push(index(n));
                        lits.push(String::new());
                    }
                    _ => lits.last_mut().unwrap().push(c),
                }
            }
            Template { lits, holes, about: about.is_none_or(|f| f(t)) }
        };
        Enumerator {
            sorts: sig.iter().map(|s| s.templates.iter().filter(|t| !only || matches!(**t, "$E;" | "$S" | "$M$M") || about.is_none_or(|f| f(t))).map(|t| parse(t)).collect()).collect(),
            leaves: sig.iter().map(|s| s.leaf).collect(),
            lists: sig.iter().map(|s| vec![vec![(s.leaf.to_string(), false)]]).collect(),
        }
    }

    /// Fills `lists` for all sizes up to `n`.
    fn prepare(&mut self, n: usize) {
        for k in 1..=n {
            if self.lists[0].len() > k {
                continue;
            }
            let new: Vec<Vec<(String, bool)>> = (0..self.sorts.len())
                .map(|s| {
                    let mut v = vec![];
                    for t in 0..self.sorts[s].len() {
                        self.fill(s, t, k - 1, &mut |x, about| v.push((x.to_string(), about)));
                    }
                    v
                })
                .collect();
            for (l, v) in self.lists.iter_mut().zip(new) {
                l.push(v);
            }
        }
    }

    /// All fillings of one template whose holes get `n` templates together.
    fn fill(&self, sort: usize, t: usize, n: usize, f: &mut dyn FnMut(&str, bool)) {
        let t = &self.sorts[sort][t];
        self.fill_from(t, 0, n, t.about, &mut t.lits[0].clone(), f)
    }

    fn fill_from(&self, t: &Template, hole: usize, n: usize, about: bool, buf: &mut String, f: &mut dyn FnMut(&str, bool)) {
        if hole == t.holes.len() {
            if n == 0 {
                f(buf, about);
            }
            return;
        }
        let last = hole + 1 == t.holes.len();
        for k in if last { n } else { 0 }..=n {
            for (x, a) in &self.lists[t.holes[hole]][k] {
                let len = buf.len();
                buf.push_str(x);
                buf.push_str(&t.lits[hole + 1]);
                self.fill_from(t, hole + 1, n - k, about || *a, buf, f);
                buf.truncate(len);
            }
        }
    }
}

/// Visits every term of the first sort with at most `n` templates, on all cores.
pub fn explore(run: &mut Run, sig: &Signature, n: usize, visit: impl Fn(&mut Obs, &str) + Sync) {
    explore_about(run, sig, None, false, n, visit)
}

/// The terms that hold at least one template the property is about, or `only` such templates.
pub fn explore_about(run: &mut Run, sig: &Signature, about: About, only: bool, n: usize, visit: impl Fn(&mut Obs, &str) + Sync) {
    let mut e = Enumerator::new(sig.sorts, about, only);
    e.prepare(n.saturating_sub(1));
    // Work items: size, template of the first sort, filling of its first hole.
    let mut items: Vec<(usize, usize, usize, usize, usize)> = vec![(0, 0, 0, 0, 1)];
    for k in 1..=n {
        for (t, tp) in e.sorts[0].iter().enumerate() {
            match tp.holes.first() {
                None => items.push((k, t, 0, 0, 1)),
                Some(&h) => {
                    for k0 in 0..k {
                        let len = e.lists[h][k0].len();
                        let chunk = if tp.holes.len() == 1 { 20_000 } else { 200 }.min(len / 32 + 1);
                        let mut i = 0;
                        while i < len {
                            items.push((k, t, k0, i, (i + chunk).min(len)));
                            i += chunk;
                        }
                    }
                }
            }
        }
    }
    let e = &e;
    let count = |f: &dyn Fn(&str) -> bool| sig.sorts.iter().flat_map(|s| s.templates).filter(|t| f(t)).count();
    let bound = match about {
        Some(f) if only => format!("all nestings of up to {n} templates of {}", count(&f)),
        Some(f) => format!("all nestings of up to {n} templates of {} with at least one of {}", count(&|_| true), count(&f)),
        None => format!("all nestings of up to {n} templates of {}", count(&|_| true)),
    };
    run.each(sig.name, &bound, &items, |o, &(k, t, k0, i, j)| {
        let mut count = 0;
        if k == 0 {
            if about.is_none() {
                visit(o, e.leaves[0]);
                count = 1;
            }
        } else {
            let tp = &e.sorts[0][t];
            let mut f = |s: &str, about: bool| {
                if about {
                    count += 1;
                    visit(o, s)
                }
            };
            if tp.holes.is_empty() {
                if k == 1 {
                    f(&tp.lits[0], tp.about);
                }
            } else if tp.holes.len() > 1 || k0 == k - 1 {
                for (x, a) in &e.lists[tp.holes[0]][k0][i..j] {
                    let mut buf = tp.lits[0].clone();
                    buf.push_str(x);
                    buf.push_str(&tp.lits[1]);
                    e.fill_from(tp, 1, k - 1 - k0, tp.about || *a, &mut buf, &mut f);
                }
            }
        }
        o.counts.states += count;
        o.counts.transitions += count * (k > 0) as u64;
    });
}

pub const EXPRS: &[&str] = &[
    "this", "null", "1", "1.", "0x1F", "'s'", "\"it's\\n\"", "`t`", "/r/g", "`x${$E}y`", "[]", "[$E]", "[,$E]", "[$E,]", "[$E,,$E]", "[...$E]",
    "{}", "({a:$E})", "({a,if:$E})", "({[$E]:1})", "({...$E})", "({'s':$E})", "({m($P){$S}})", "({get m(){$S}})", "({set m(v){$S}})",
    "({async m(){$S}})", "({*m(){$S}})", "({async*m(){$S}})", "($E)", "function($P){$S}", "function f($P){$S}", "function*(){$S}", "async function f(){$S}",
    "async function*(){$S}", "($P)=>$E", "b=>$E", "($P)=>{$S}", "async b=>$E", "async($P)=>{$S}", "class{$K}", "class D{$K}", "class extends $E{}",
    "$E.p", "$E[$E]", "$E?.p", "$E?.[$E]", "$E?.($E)", "$E?.p.q", "$E()", "$E($E,a)", "$E(...$E)", "new $E", "new $E($E)", "$E`t`", "$E`x${$E}y`", "new.target",
    "import($E)", "import.meta", "super.p", "super[$E]", "super($E)", "$E++", "$E--", "++$E", "--$E", "+$E", "-$E", "!$E", "~$E", "typeof $E", "delete $E", "void $E",
    "await $E", "yield", "yield $E", "yield*$E", "$E+$E", "$E-$E", "$E*$E", "$E**$E", "$E/$E", "$E<$E", "$E in $E", "$E instanceof $E", "$E>>>$E", "$E==$E",
    "$E&$E", "$E|$E", "$E&&$E", "$E||$E", "$E??$E", "$E?$E:$E", "a=$E", "a+=$E", "$E.b=$E", "[$A]=$E", "({$Q}=$E)", "$E,$E", "async", "let",
];

pub const STMTS: &[&str] = &[
    ";", "{}", "{$S}", "{$S$S}", "var $B=$E;", "let $B=$E;", "const $B=$E;", "var a,b=$E;", "var a=$E,b,c=$E;", "$E;", "$S$S", "if($E)$S", "if($E)$S else $S", "for(;;)$S",
    "for($E;$E;$E)$S", "for(var $B=$E;;)$S", "for(let a;$E;)$S", "for($A in $E)$S", "for(var $B in $E)$S", "for(const $B of $E)$S", "for($A of $E)$S",
    "async function g(){for await($A of $E)$S}", "for(let $B in $E)$S", "while($E)$S", "do $S while($E)\n", "do{$S}while($E);", "for(;;)continue;", "x:for(;;)continue x;", "for(;;)break;", "x:{break x}",
    "function f(){return}", "function f(){return $E}", "throw $E;", "with($E)$S", "switch($E){}", "switch($E){case $E:$S default:$S}", "switch($E){case a:case $E:}", "x:$S",
    "try{$S}catch{$S}", "try{$S}catch($B){$S}", "try{}finally{$S}", "try{}catch(e){$S}finally{$S}", "debugger;", "function f($P){$S}", "async function f($P){$S}", "function*f(){$S}",
    "async function*f(){$S}", "class C{$K}", "class C extends $E{$K}", "class C extends D{constructor(){$S}}", "function f(){'use strict';$S}", "'use strict';$S", "'d';$S", "$E\n$E",
];

pub const BINDS: &[&str] = &[
    "[]", "[$B]", "[,$B]", "[$B,]", "[,]", "[$B,$B]", "[$B=$E]", "[...$B]", "[a,...$B]", "[,...$B]", "{}", "{a}", "{a,}", "{a=$E}", "{a:$B}", "{if:$B=$E}", "{'s':$B}", "{1:$B}", "{[$E]:$B}", "{...a}", "{a,...b}",
];

pub const PARAMS: &[&str] = &["$B", "$B=$E", "...$B", "b,$B", "b,...$B", "b=$E,c"];

pub const ELEMENTS: &[&str] = &[
    "m($P){$S}", "static m(){$S}", "get m(){$S}", "set m($B){$S}", "static get m(){$S}", "async m($P){$S}", "*m($P){$S}", "async*m(){$S}", "static async*m(){$S}", "'s'(){$S}", "1(){}", "[$E](){$S}",
    "get[$E](){}", "constructor(){$S}", "static(){}", "get(){}", "async(){}", "if(){}", ";", "$K $K", "static constructor(){}",
];

pub const TARGETS: &[&str] = &["a", "$E.p", "$E[$E]", "[]", "[$A]", "[$A,$A]", "[$A,]", "[,$A]", "[$A=$E]", "[...$A]", "[a,...$A]", "{}", "{$Q}", "(a)", "$E"];

pub const AFIELDS: &[&str] = &["a", "a=$E", "a:$A", "a:$A=$E", "'s':$A", "[$E]:$A", "...$A", "$Q,$Q", "if:$A"];

const EXPR_SORTS: [Sort; 7] = [
    Sort { letter: 'E', leaf: "a", templates: EXPRS },
    Sort { letter: 'B', leaf: "b", templates: BINDS },
    Sort { letter: 'P', leaf: "", templates: PARAMS },
    Sort { letter: 'K', leaf: "", templates: ELEMENTS },
    Sort { letter: 'A', leaf: "a", templates: TARGETS },
    Sort { letter: 'Q', leaf: "", templates: AFIELDS },
    Sort { letter: 'S', leaf: "a;", templates: STMTS },
];

const fn sort(i: usize) -> Sort {
    let s = &EXPR_SORTS[i];
    Sort { letter: s.letter, leaf: s.leaf, templates: s.templates }
}

/// Script programs.
pub const SCRIPT: Signature =
    Signature { name: "nested scripts", sorts: &[sort(6), sort(0), sort(1), sort(2), sort(3), sort(4), sort(5)] };

const ITEMS: &[&str] = &[
    "$S", "$M$M", "import 'm';", "import a from 'm';", "import*as a from'm';", "import{}from'm';", "import{a}from\"m\";", "import{a as b,c}from'm';", "import{default as a}from'm';", "import a,*as b from'm';",
    "import a,{b}from'm';", "import{if as c}from'm';", "export*from'm';", "export*as a from'm';", "export*as if from'm';", "export{};", "export{a};", "export{a as b,c};", "export{a as if};", "export{a}from'm';", "export{default}from'm';",
    "export{if as default}from'm';", "export var $B=$E;", "export let a;", "export const $B=$E,c=$E;", "export function f($P){$S}", "export async function f(){$S}", "export function*f(){$S}", "export class C{$K}",
    "export default $E;", "export default function($P){$S}", "export default function f(){$S}", "export default async function(){$S}", "export default function*(){$S}", "export default class{$K}", "export default class C{$K}",
    "export default class extends $E{}", "export default($E);", "export default async()=>$E;", "export default $E\n$M",
];

/// Module programs.
pub const MODULE: Signature = Signature {
    name: "nested modules",
    sorts: &[Sort { letter: 'M', leaf: "", templates: ITEMS }, sort(0), sort(1), sort(2), sort(3), sort(4), sort(5), sort(6)],
};

/// Single expressions.
pub const EXPR: Signature = Signature {
    name: "nested expressions",
    sorts: &[sort(0), sort(1), sort(2), sort(3), sort(4), sort(5), sort(6)],
};

const CTX_S: &[&str] = &[
    // contexts
    "function f($P){$S}", "function*f($P){$S}", "async function f($P){$S}", "async function*f($P){$S}", "function f(){'use strict';$S}", "class C{m($P){$S}}", "class C{constructor(){$S}}",
    "class C extends z{constructor($P){$S}}", "class C extends z{m(){$S}}", "class C{*m($P){$S}}", "class C{async m($P){$S}}", "class C{static m(){$S}}", "class C{get m(){$S}}", "class C{set m($B){$S}}",
    "class C{[$E](){}}", "class C extends $E{}", "for(var v=$E;;);", "for(v=$E;;);", "for(v in $E);", "for(v of $E);", "for(;$E;)$S", "for(let{a=$E}of z);", "for(let[a=$E]=z;;);", "for($E;;);", "for(const $B of z);",
    "{$S}", "if(z)$S", "x:$S", "switch(z){case $E:$S}", "try{$S}catch($B){$S}", "$E;", "with(z)$S", "var $B=$E;", "throw $E;", "do $S while($E)\n", "$S$S",
    // probes
    "return;", "return a", "with(a);", "var yield;", "let await;", "function yield(){}", "function await(){}", "class yield{}", "class await{}", "yield:;", "await:;", "super();", "for await(a of b);",
    "yield\n/a/g", "await\n(a)", "let\na", "async\nfunction g(){}", "for(var i=a in b;;);", "'use strict'",
];

const CTX_E: &[&str] = &[
    "($E)", "[$E]", "({m($P){$S}})", "({*m($P){$S}})", "({async m($P){$S}})", "({async*m(){$S}})", "({get m(){$S}})", "({set m($B){$S}})", "({[$E]:z})", "({[$E](){}})", "({m:$E})", "({p=$E}=z)", "[p=$E]=z",
    "function($P){$S}", "function*($P){$S}", "async function($P){$S}", "async function*(){$S}", "()=>{$S}", "()=>$E", "async()=>{$S}", "async()=>$E", "($P)=>z", "async($P)=>z", "class{m(){$S}}", "class extends z{constructor(){$S}}",
    "class extends $E{}", "class{[$E](){}}", "class{static async*m(){$S}}", "z($E)", "z[$E]", "`${$E}`", "z?$E:$E", "new z($E)", "z=$E", "$E+z", "-$E", "z,$E", "z=>$E", "z?.[$E]", "yield $E", "await $E", "function(){'use strict';$S}",
    // probes
    "yield", "yield a", "yield*a", "await", "await a", "super.p", "super[a]", "super()", "new.target", "a in b", "static", "eval=a", "arguments++", "delete a", "await=>a", "yield=>a", "(yield)=>a", "(await)=>a", "async await=>a",
    "async(await)=>a", "async(a=await b)=>a", "{yield}", "({yield})", "({await})", "({yield}=a)", "[await]=a", "function yield(){}", "function await(){}", "function*yield(){}", "async function await(){}", "class await{}", "let", "interface",
    "({yield:a,await:b})", "a.yield.await", "({yield(){},await(){}})",
];

const CTX_P: &[&str] = &["$B", "b=$E", "...$B", "b,$B"];

const CTX_B: &[&str] = &["{p=$E}", "[p=$E]", "{[$E]:p}", "yield", "await", "eval", "static", "{yield}", "[await]", "{await:b}", "let"];

/// Nested contexts around probes, as script or module.
pub const CONTEXTS: Signature = Signature {
    name: "contexts around probes",
    sorts: &[
        Sort { letter: 'S', leaf: "a;", templates: CTX_S },
        Sort { letter: 'E', leaf: "a", templates: CTX_E },
        Sort { letter: 'P', leaf: "", templates: CTX_P },
        Sort { letter: 'B', leaf: "b", templates: CTX_B },
    ],
};

const DEEP_S: &[&str] = &[
    "function f(){$S}", "function*f(){$S}", "async function f(){$S}", "class C extends z{constructor(){$S}}", "class C{m($P){$S}}", "class C{[$E](){}}", "for(var v=$E;;);", "{$S}", "$E;", "function f(){'use strict';$S}", "function f($P){}",
    "function*f($P){}", "async function f($P){}", "return;", "super();", "for await(a of b);", "var yield;", "with(a);",
];

const DEEP_E: &[&str] = &[
    "($E)", "({m(){$S}})", "({*m($P){$S}})", "({async m($P){$S}})", "({[$E]:z})", "({p=$E}=z)", "function(){$S}", "function*(){$S}", "async function(){$S}", "()=>$E", "async()=>$E", "()=>{$S}", "($P)=>z", "async($P)=>z",
    "class extends $E{}", "`${$E}`", "z?$E:$E", "yield", "yield a", "await a", "await", "super.p", "a in b", "static",
];

/// The same, deeper, with fewer of each.
pub const CONTEXTS_DEEP: Signature = Signature {
    name: "deeper contexts around probes",
    sorts: &[
        Sort { letter: 'S', leaf: "a;", templates: DEEP_S },
        Sort { letter: 'E', leaf: "a", templates: DEEP_E },
        Sort { letter: 'P', leaf: "", templates: &["b=$E", "{p:b=$E}", "...b"] },
        Sort { letter: 'B', leaf: "b", templates: &[] },
    ],
};

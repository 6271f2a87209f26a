//! Whole programs: source text compiled, and what is left of it run.
use crate::ssa::*;
use optimize_js::il::inst::*;
use optimize_js::{compile_source, program_to_js, DecompileOptions, TopLevelMode};
use parse_js::num::JsNumber;
use std::collections::BTreeMap;
use symrt::*;

/// A program: what its text is, and what it does, are both read off this
#[derive(Clone)]
pub enum X {
    N(i32),
    Var(usize),
    Call(Vec<X>),
    And(Box<X>, Box<X>),
    Or(Box<X>, Box<X>),
    Nullish(Box<X>, Box<X>),
    Cond(Box<X>, Box<X>, Box<X>),
    Not(Box<X>),
    Sub(Box<X>, Box<X>),
    Less(Box<X>, Box<X>),
    Set(usize, Box<X>),
    SetAnd(usize, Box<X>),
    SetSub(usize, Box<X>),
    Prop(usize),
    SetProp(usize, Box<X>),
    Comma(Box<X>, Box<X>),
}
#[derive(Clone)]
pub enum S {
    E(X),
    If(X, Box<S>, Option<Box<S>>),
    While(X, Box<S>),
    Do(Box<S>, X),
    For(X, X, X, Box<S>),
    Block(Vec<S>),
    Break,
    Continue,
    LBreak,
    LContinue,
    Labelled(Box<S>),
    Switch(X, Vec<(Option<X>, Vec<S>)>),
}
const VARS: [&str; 3] = ["x", "y", "z"];
fn xt(e: &X, o: &mut String) {
    let mut two = |l: &X, op: &str, r: &X| {
        o.push('(');
        xt(l, o);
        o.push_str(op);
        xt(r, o);
        o.push(')');
    };
    match e {
        X::N(n) if *n < 0 => o.push_str(&format!("({n})")),
        X::N(n) => o.push_str(&n.to_string()),
        X::Var(v) => o.push_str(VARS[*v]),
        X::Call(a) => {
            o.push_str("g(");
            for (i, e) in a.iter().enumerate() {
                if i > 0 {
                    o.push(',');
                }
                xt(e, o);
            }
            o.push(')');
        }
        X::And(l, r) => two(l, "&&", r),
        X::Or(l, r) => two(l, "||", r),
        X::Nullish(l, r) => two(l, "??", r),
        X::Sub(l, r) => two(l, "-", r),
        X::Less(l, r) => two(l, "<", r),
        X::Comma(l, r) => two(l, ",", r),
        X::Cond(c, l, r) => {
            o.push('(');
            xt(c, o);
            o.push('?');
            xt(l, o);
            o.push(':');
            xt(r, o);
            o.push(')');
        }
        X::Not(e) => {
            o.push('!');
            xt(e, o);
        }
        X::Prop(v) => o.push_str(&format!("{}.a", VARS[*v])),
        X::Set(v, e) => two(&X::Var(*v), "=", e),
        X::SetAnd(v, e) => two(&X::Var(*v), "&&=", e),
        X::SetSub(v, e) => two(&X::Var(*v), "-=", e),
        X::SetProp(v, e) => two(&X::Prop(*v), "=", e),
    }
}
fn st(s: &S, o: &mut String) {
    match s {
        S::E(e) => {
            xt(e, o);
            o.push(';');
        }
        S::If(c, a, b) => {
            o.push_str("if(");
            xt(c, o);
            o.push(')');
            st(a, o);
            if let Some(b) = b {
                o.push_str("else ");
                st(b, o);
            }
        }
        S::While(c, b) => {
            o.push_str("while(");
            xt(c, o);
            o.push(')');
            st(b, o);
        }
        S::Do(b, c) => {
            o.push_str("do ");
            st(b, o);
            o.push_str("while(");
            xt(c, o);
            o.push_str(");");
        }
        S::For(i, c, u, b) => {
            o.push_str("for(");
            xt(i, o);
            o.push(';');
            xt(c, o);
            o.push(';');
            xt(u, o);
            o.push(')');
            st(b, o);
        }
        S::Block(v) => {
            o.push('{');
            v.iter().for_each(|s| st(s, o));
            o.push('}');
        }
        S::Break => o.push_str("break;"),
        S::Continue => o.push_str("continue;"),
        S::LBreak => o.push_str("break l;"),
        S::LContinue => o.push_str("continue l;"),
        S::Labelled(b) => {
            o.push_str("l:");
            st(b, o);
        }
        S::Switch(e, cases) => {
            o.push_str("switch(");
            xt(e, o);
            o.push_str("){");
            for (c, b) in cases {
                match c {
                    Some(c) => {
                        o.push_str("case ");
                        xt(c, o);
                        o.push(':');
                    }
                    None => o.push_str("default:"),
                }
                b.iter().for_each(|s| st(s, o));
            }
            o.push('}');
        }
    }
}
/// Running it as the language says
struct Ref<'a> {
    vars: Vec<V>,
    trace: Vec<(String, Vec<V>)>,
    calls: usize,
    writes: usize,
    cells: BTreeMap<String, V>,
    fuel: usize,
    host: &'a mut Host,
}
enum Go {
    On,
    Break,
    Continue,
    LBreak,
    LContinue,
    Out,
}
impl Ref<'_> {
    fn x(&mut self, e: &X) -> V {
        match e {
            X::N(n) => V::C(Const::Num(JsNumber(*n as f64))),
            X::Var(v) => self.vars[*v].clone(),
            X::Call(a) => {
                let mut v = vec![V::O("g".to_string()), V::C(Const::Undefined)];
                for e in a {
                    let x = self.x(e);
                    v.push(x);
                }
                let r = self.host.answer(self.calls);
                self.calls += 1;
                self.cells.clear();
                self.trace.push(("call []".to_string(), v));
                r
            }
            X::And(l, r) => {
                let v = self.x(l);
                if truthy(&v) { self.x(r) } else { v }
            }
            X::Or(l, r) => {
                let v = self.x(l);
                if truthy(&v) { v } else { self.x(r) }
            }
            X::Nullish(l, r) => {
                let v = self.x(l);
                if matches!(v, V::C(Const::Undefined | Const::Null)) { self.x(r) } else { v }
            }
            X::Cond(c, l, r) => {
                if truthy(&self.x(c)) { self.x(l) } else { self.x(r) }
            }
            X::Not(e) => V::C(Const::Bool(!truthy(&self.x(e)))),
            X::Sub(l, r) => {
                let (l, r) = (self.x(l), self.x(r));
                bin(BinOp::Sub, &l, &r)
            }
            X::Less(l, r) => {
                let (l, r) = (self.x(l), self.x(r));
                bin(BinOp::Lt, &l, &r)
            }
            X::Comma(l, r) => {
                self.x(l);
                self.x(r)
            }
            X::Set(v, e) => {
                let x = self.x(e);
                self.vars[*v] = x.clone();
                x
            }
            X::SetAnd(v, e) => {
                if truthy(&self.vars[*v]) {
                    let x = self.x(e);
                    self.vars[*v] = x;
                }
                self.vars[*v].clone()
            }
            X::SetSub(v, e) => {
                let was = self.vars[*v].clone();
                let x = self.x(e);
                self.vars[*v] = bin(BinOp::Sub, &was, &x);
                self.vars[*v].clone()
            }
            X::Prop(v) => {
                let key = format!("{}.'a'", txt(&self.vars[*v]));
                self.cells.get(&key).cloned().unwrap_or_else(|| V::O(format!("{key}@{}.{}", self.calls, self.writes)))
            }
            X::SetProp(v, e) => {
                let obj = self.vars[*v].clone();
                let x = self.x(e);
                self.writes += 1;
                self.cells.retain(|k, _| k.starts_with(&format!("{}.", txt(&obj))));
                self.cells.insert(format!("{}.'a'", txt(&obj)), x.clone());
                self.trace.push(("prop".to_string(), vec![obj, V::C(Const::Str("a".to_string())), x.clone()]));
                x
            }
        }
    }
    /// what a loop does when its body ends this way: None for going on
    fn after(&mut self, g: Go, mine: bool) -> Option<Go> {
        match g {
            Go::On | Go::Continue => None,
            Go::LContinue if mine => None,
            Go::Break => Some(Go::On),
            g => Some(g),
        }
    }
    fn s(&mut self, s: &S, mine: bool) -> Go {
        if self.fuel == 0 {
            return Go::Out;
        }
        match s {
            S::E(e) => {
                self.x(e);
                Go::On
            }
            S::If(c, a, b) => {
                if truthy(&self.x(c)) {
                    self.s(a, false)
                } else if let Some(b) = b {
                    self.s(b, false)
                } else {
                    Go::On
                }
            }
            S::While(c, b) => loop {
                if self.fuel == 0 {
                    return Go::Out;
                }
                self.fuel -= 1;
                if !truthy(&self.x(c)) {
                    return Go::On;
                }
                let g = self.s(b, false);
                if let Some(g) = self.after(g, mine) {
                    return g;
                }
            },
            S::Do(b, c) => loop {
                if self.fuel == 0 {
                    return Go::Out;
                }
                self.fuel -= 1;
                let g = self.s(b, false);
                if let Some(g) = self.after(g, mine) {
                    return g;
                }
                if !truthy(&self.x(c)) {
                    return Go::On;
                }
            },
            S::For(i, c, u, b) => {
                self.x(i);
                loop {
                    if self.fuel == 0 {
                        return Go::Out;
                    }
                    self.fuel -= 1;
                    if !truthy(&self.x(c)) {
                        return Go::On;
                    }
                    let g = self.s(b, false);
                    if let Some(g) = self.after(g, mine) {
                        return g;
                    }
                    self.x(u);
                }
            }
            S::Block(v) => {
                for s in v {
                    match self.s(s, false) {
                        Go::On => {}
                        g => return g,
                    }
                }
                Go::On
            }
            S::Break => Go::Break,
            S::Continue => Go::Continue,
            S::LBreak => Go::LBreak,
            S::LContinue => Go::LContinue,
            S::Labelled(b) => match self.s(b, true) {
                Go::LBreak => Go::On,
                g => g,
            },
            S::Switch(e, cases) => {
                let v = self.x(e);
                let mut at = None;
                for (i, (c, _)) in cases.iter().enumerate() {
                    if let Some(c) = c {
                        let w = self.x(c);
                        if strict(&v, &w) {
                            at = Some(i);
                            break;
                        }
                    }
                }
                let at = at.or_else(|| cases.iter().position(|c| c.0.is_none()));
                if let Some(at) = at {
                    for (_, b) in &cases[at..] {
                        for s in b {
                            match self.s(s, false) {
                                Go::On => {}
                                Go::Break => return Go::On,
                                g => return g,
                            }
                        }
                    }
                }
                Go::On
            }
        }
    }
}
fn strict(a: &V, b: &V) -> bool {
    match bin(BinOp::StrictEq, a, b) {
        V::C(Const::Bool(b)) => b,
        // (as everything that is not known)
        _ => true,
    }
}
fn compare(stmts: &[S], host: &mut Host) {
    let mut text = "let x=g(),y=0,z;".to_string();
    stmts.iter().for_each(|s| st(s, &mut text));
    text += "g(x,y,z);";
    note("source", text.as_bytes());
    let mut all = vec![S::E(X::Set(0, Box::new(X::Call(vec![])))), S::E(X::Set(1, Box::new(X::N(0))))];
    all.extend(stmts.iter().cloned());
    all.push(S::E(X::Call(vec![X::Var(0), X::Var(1), X::Var(2)])));
    let mut r = Ref { vars: vec![V::C(Const::Undefined); 3], trace: vec![], calls: 0, writes: 0, cells: BTreeMap::new(), fuel: 8, host };
    let end = match r.s(&S::Block(all), false) {
        Go::Out => End::Fuel,
        _ => End::Done,
    };
    let was = Run { trace: r.trace, end };
    let host = r.host;
    let p = match compile_source(&text, TopLevelMode::Module, true) {
        Ok(p) => p,
        Err(_) => fail("the program is not accepted"),
    };
    let last = p.top_level.body.entry;
    let steps = p.top_level.debug.as_ref().unwrap().steps();
    for s in steps {
        // (the phis of this one are filled by the next)
        if s.name == "ssa_insert_phis" {
            continue;
        }
        let now = run(s, if s.bblocks.contains_key(&0) { 0 } else { last }, 120, host);
        agree(&was, &now, &s.name, true);
    }
    agree(&was, &run(&p.top_level.body, last, 120, host), "the end", true);
    if was.end == End::Done {
        decompiled(&text, &p, &host.answers);
    }
    cover("program");
    if was.trace.len() > 3 {
        cover("trace");
    }
}
/// What is written out again as JavaScript does the same as the source
fn decompiled(src: &str, p: &optimize_js::Program, answers: &[u8]) {
    // (the option under which the output declares what it uses)
    let opts = DecompileOptions { declare_registers: true, ..DecompileOptions::default() };
    let out = match program_to_js(p, &opts, emit_js::EmitOptions::minified()) {
        Ok(o) => String::from_utf8(o).unwrap(),
        Err(_) => fail("the program cannot be written out"),
    };
    let mut before = "let k=0;function g(...a){log(...a);switch(k++){".to_string();
    for (i, a) in answers.iter().enumerate() {
        before += &format!("case {i}:return {};", if *a == 0 { "0".to_string() } else { format!("{{a:{i}}}") });
    }
    before += "}return 0}\n";
    let js = |t: &str| -> Option<String> {
        let top = parse_js::parse_with_options(&format!("{before}{{{t}}}"), parse_js::ParseOptions { dialect: parse_js::Dialect::Js, source_type: parse_js::SourceType::Module }).ok()?;
        let mut i = jsref::interp::Interp::new(Box::new(|_| None));
        i.module = true;
        i.limit = 4000;
        i.run(&top).ok()
    };
    note("out", out.as_bytes());
    let Some(was) = js(src) else { fail("the source cannot be run") };
    let Some(now) = js(&out) else { fail("what is written out cannot be run") };
    if was != now {
        note("before", was.as_bytes());
        note("after", now.as_bytes());
        fail("what is written out does something else");
    }
    cover("decompiled");
}
impl Code for optimize_js::util::debug::OptimizerDebugStep {
    fn block(&self, l: u32) -> Option<&Vec<Inst>> {
        self.bblocks.get(&l)
    }
    fn children(&self, l: u32) -> Vec<u32> {
        self.cfg_children.get(&l).cloned().unwrap_or_default()
    }
}
fn b<T>(x: T) -> Box<T> {
    Box::new(x)
}
fn x() -> X {
    X::Var(0)
}
fn y() -> X {
    X::Var(1)
}
fn call(v: Vec<X>) -> X {
    X::Call(v)
}
/// conditions and values
fn ex(name: &str) -> X {
    match choose(name, 12) {
        0 => call(vec![]),
        1 => x(),
        2 => X::And(b(x()), b(call(vec![y()]))),
        3 => X::Or(b(call(vec![x()])), b(X::Set(1, b(X::N(2))))),
        4 => X::Cond(b(x()), b(X::Set(1, b(X::N(3)))), b(y())),
        5 => X::Not(b(X::Set(0, b(call(vec![]))))),
        6 => X::Less(b(y()), b(X::N(1))),
        7 => X::SetSub(1, b(X::Set(1, b(X::N(4))))),
        8 => X::SetAnd(0, b(call(vec![y()]))),
        9 => X::Nullish(b(X::Var(2)), b(X::Set(2, b(x())))),
        10 => X::SetProp(0, b(X::Set(0, b(X::N(5))))),
        _ => X::Comma(b(X::Sub(b(y()), b(X::Set(1, b(X::N(6)))))), b(X::Prop(0))),
    }
}
fn simple(name: &str) -> S {
    match choose(name, 8) {
        0 => S::E(X::Set(1, b(X::N(1)))),
        1 => S::E(X::Set(0, b(call(vec![y()])))),
        2 => S::E(X::Set(2, b(X::Sub(b(y()), b(X::N(-1)))))),
        3 => S::Block(vec![S::E(X::Set(2, b(x()))), S::E(X::Set(0, b(y()))), S::E(X::Set(1, b(X::Var(2))))]),
        4 => S::Break,
        5 => S::Continue,
        6 => S::If(x(), b(S::Break), Some(b(S::E(call(vec![y()]))))),
        _ => S::If(call(vec![]), b(S::Continue), None),
    }
}
/// (the same without the ways out of a loop)
fn inside(name: &str, n: u64) -> S {
    match choose(name, n) {
        0 => S::E(X::Set(0, b(call(vec![y()])))),
        1 => S::Block(vec![S::E(X::Set(2, b(x()))), S::E(X::Set(0, b(y()))), S::E(X::Set(1, b(X::Var(2))))]),
        2 => S::E(X::Set(1, b(X::N(1)))),
        _ => S::E(X::Set(2, b(X::Sub(b(y()), b(X::N(-1)))))),
    }
}
fn warm() {
    let mut h = Host { answers: vec![1, 0], max: 2 };
    compare(&[S::While(X::Less(b(y()), b(X::N(1))), b(S::Block(vec![S::E(X::Set(1, b(X::Sub(b(y()), b(X::N(-1)))))), S::If(x(), b(S::Continue), Some(b(S::Break)))])))], &mut h);
}
/// Expressions
fn sp_expr_of(deep: bool) {
    warm();
    let e = ex("e");
    let way = choose("use", 6);
    let s = match way {
        0 => S::E(e),
        1 => S::E(X::Set(2, b(e))),
        2 => S::E(call(vec![x(), e, y()])),
        3 => S::If(e, b(S::E(X::Set(1, b(X::N(7))))), Some(b(S::E(X::Set(0, b(X::N(8))))))),
        4 => S::E(X::Sub(b(x()), b(e))),
        _ => S::E(call(vec![X::Cond(b(e), b(y()), b(if deep { ex("other") } else { call(vec![]) }))])),
    };
    let more = if (deep || way < 2) && choose("more", 2) == 1 { vec![s, S::E(X::Set(1, b(ex("then"))))] } else { vec![s] };
    compare(&more, &mut Host::new(if deep { 4 } else { 3 }));
}
#[no_mangle]
pub extern "C" fn sp_expr() {
    sp_expr_of(false);
}
#[no_mangle]
pub extern "C" fn sp_expr2() {
    sp_expr_of(true);
}
/// Loops
fn sp_loop_of(deep: bool) {
    warm();
    let c = match choose("cond", 5) {
        0 => x(),
        1 => call(vec![x()]),
        2 => X::Less(b(y()), b(X::N(2))),
        3 => X::And(b(x()), b(X::Set(0, b(call(vec![]))))),
        _ => X::N(1),
    };
    let body = S::Block(vec![simple("first"), simple("second")]);
    let l = match choose("loop", 3) {
        0 => S::While(c, b(body)),
        1 => S::Do(b(body), c),
        _ => S::For(X::Set(1, b(X::N(-1))), c, X::Set(1, b(X::Sub(b(y()), b(X::N(-1))))), b(body)),
    };
    compare(&[l], &mut Host::new(if deep { 4 } else { 3 }));
}
#[no_mangle]
pub extern "C" fn sp_loop() {
    sp_loop_of(false);
}
#[no_mangle]
pub extern "C" fn sp_loop2() {
    sp_loop_of(true);
}
/// Loops in loops, with labels
fn sp_label_of(deep: bool) {
    warm();
    let n = if deep { 4 } else { 2 };
    let way = |n| match choose(n, 4) {
        0 => S::LBreak,
        1 => S::LContinue,
        2 => S::Break,
        _ => S::Continue,
    };
    let inner = S::Block(vec![S::If(call(vec![y()]), b(way("way")), Some(b(inside("do", n)))), inside("then", n)]);
    let (c1, c2) = (x(), if choose("inner", 2) == 0 { X::N(1) } else { x() });
    let inner = if choose("inner loop", 2) == 0 { S::While(c2, b(inner)) } else { S::Do(b(inner), c2) };
    let body = S::Block(vec![inner, S::E(X::Set(0, b(call(vec![X::N(1)]))))]);
    let outer = match choose("outer loop", 3) {
        0 => S::While(c1, b(body)),
        1 => S::Do(b(body), c1),
        _ => S::For(X::Set(1, b(X::N(1))), c1, call(vec![X::N(2)]), b(body)),
    };
    compare(&[S::Labelled(b(outer))], &mut Host::new(if deep { 4 } else { 3 }));
}
#[no_mangle]
pub extern "C" fn sp_label() {
    sp_label_of(false);
}
#[no_mangle]
pub extern "C" fn sp_label2() {
    sp_label_of(true);
}
/// Switch statements
fn sp_switch_of(deep: bool) {
    warm();
    let n = if deep { 4 } else { 2 };
    let on = if deep && choose("on", 2) == 1 { y() } else { x() };
    let mut cases = vec![];
    let d = choose("default", 4) as usize;
    for k in 0..2 {
        if d == k {
            cases.push((None, vec![S::E(call(vec![X::N(9)]))]));
        }
        let c = match choose(["c0", "c1"][k], if deep { 3 } else { 2 }) {
            0 => X::N(0),
            1 => call(vec![X::N(2)]),
            _ => X::N(1),
        };
        let mut body = vec![inside(["i0", "i1"][k], n)];
        if choose(["b0", "b1"][k], 2) == 1 {
            body.push(S::Break);
        }
        cases.push((Some(c), body));
    }
    if d == 2 {
        cases.push((None, vec![S::E(call(vec![X::N(9)]))]));
    }
    let s = S::Switch(on, cases);
    compare(&[if choose("loop", 2) == 1 { S::While(call(vec![]), b(S::Block(vec![s, S::If(y(), b(S::Continue), None)]))) } else { s }], &mut Host::new(if deep { 4 } else { 3 }));
}
#[no_mangle]
pub extern "C" fn sp_switch() {
    sp_switch_of(false);
}
#[no_mangle]
pub extern "C" fn sp_switch2() {
    sp_switch_of(true);
}
/// (x, y and z are the program's variables; o, s, C and g belong to its environment)
const ATOMS: [&str; 6] = ["x", "g(y)", "(y=2)", "o.a", "null", "'k'"];
const EXPRS: [&str; 72] = [
    "@?.a", "@?.[g(1)]", "o?.f(@)", "o.f?.(@)", "o.u?.(@)", "x?.a.b(@).c", "o?.p?.a", "o.p.q?.r[@]", "(o?.f)(@)", "delete o.a", "delete o[@]", "?delete @?.a", "typeof @", "void @", "-@", "+@", "~@", "!@", "@+%", "@*%", "@/%", "@%%", "(@)**%", "@<<%", "@>>%", "@>>>%", "@&%", "@|%", "@^%", "@==null", "null!=@", "@===%", "@!==%",
    "@<%", "@>%", "@<=%", "@>=%", "@ in o", "@ instanceof C", "x+=@", "x*=@", "o.a-=@", "o[@]=%", "o[@]+=%", "o.a??=@", "o.a||=@", "o.u&&=@", "x||=@", "x??=@", "x&&=@", "x++", "--x", "o.a++", "--o[@]", "[@,%]", "[,@]", "[...s,@]", "({a:@,[%]:1})", "({...o,b:@})", "`t${@}u${%}`", "new C(@,%)", "g(...s,@)", "o.f(@,%)", "(0,o.f)(@)", "o['f'](@)", "Math.abs(@)", "typeof o", "(x,@)", "@&&%", "@||%", "@??%", "@?%:g(3)",
];
const USES: [&str; 4] = ["g(#);", "y=#;", "if(#)g(1);else g(2);", "#;"];
/// (what begins with ? may be refused)
fn text_run(src: &str) {
    let may = src.contains('?') && src.starts_with('?');
    let src = src.trim_start_matches('?');
    note("source", src.as_bytes());
    let p = match compile_source(src, TopLevelMode::Module, false) {
        Ok(p) => p,
        Err(_) if may => {
            cover("refused");
            return;
        }
        Err(_) => fail("the program is not accepted"),
    };
    let opts = DecompileOptions { declare_registers: true, ..DecompileOptions::default() };
    let out = match program_to_js(&p, &opts, emit_js::EmitOptions::minified()) {
        Ok(o) => String::from_utf8(o).unwrap(),
        Err(_) => fail("the program cannot be written out"),
    };
    note("out", out.as_bytes());
    let js = |t: &str, first: &str| -> Option<String> {
        let before = format!("let k=0;function g(...a){{log(...a);return k++?0:{first}}}let Symbol={{iterator:'@@i'}};function I(){{let i=0,t=this;return{{next(){{return i<t.length?{{done:false,value:t[i++]}}:{{done:true}}}}}}}}let Object={{keys(v){{let r=[];for(const k in v)r[r.length]=k;r['@@i']=I;return r}}}};let s=[1,2];s['@@i']=I;function C(a,b){{this.q=a;log(a,b)}}let o={{a:1,l:[3],f(a,b){{log('f',this===o,a,b);return {{b:1}}}},p:{{q:{{r:[4]}},a:5}}}};");
        let top = parse_js::parse_with_options(&format!("{before}{{{t}}}log(o.a,o.u,o.k,o[1],o[2],o[0]);"), parse_js::ParseOptions { dialect: parse_js::Dialect::Js, source_type: parse_js::SourceType::Module }).ok()?;
        let mut i = jsref::interp::Interp::new(Box::new(|_| None));
        i.module = true;
        i.limit = 4000;
        i.run(&top).ok()
    };
    for first in ["0", "3", "undefined", "o"] {
        let Some(was) = js(src, first) else { fail("the source cannot be run") };
        let Some(now) = js(&out, first) else { fail("what is written out cannot be run") };
        if was != now {
            note("before", was.as_bytes());
            note("after", now.as_bytes());
            fail("what is written out does something else");
        }
    }
    cover("decompiled");
}
fn optional(t: &'static str) -> (&'static str, &'static str) {
    match t.strip_prefix('?') {
        Some(t) => ("?", t),
        None => ("", t),
    }
}
fn fill(t: &str, a: &str, b: &str) -> String {
    let mut o = String::new();
    for c in t.chars() {
        match c {
            '@' => o.push_str(a),
            '%' if t == "@%%" && !o.contains('%') => o.push('%'),
            '%' => o.push_str(b),
            c => o.push(c),
        }
    }
    o
}
fn sp_text_of(atoms: u64) {
    text_run("let x=g(),y=0,z;y=o.f(x,y);g(x?.a.b);g(x,y,z);");
    let (may, t) = optional(EXPRS[choose("expr", EXPRS.len() as u64) as usize]);
    let a = if t.contains('@') { ATOMS[choose("a", 6) as usize] } else { "" };
    let b = if t.contains('%') { ATOMS[choose("b", atoms) as usize] } else { "" };
    let e = fill(t, a, b);
    let s = USES[choose("use", 4) as usize].replace('#', &format!("({e})"));
    text_run(&format!("{may}let x=g(),y=0,z;{s}g(x,y,z);"));
}
#[no_mangle]
pub extern "C" fn sp_text() {
    sp_text_of(3);
}
#[no_mangle]
pub extern "C" fn sp_text2() {
    sp_text_of(6);
}

const STMTS: [&str; 40] = [
    "for(const k in o.p){g(k,@)}", "for(const k of s){g(k,@)}", "for(y of s){if(@)break;g(y)}", "for(const k of s){if(@)continue;g(k)}", "l:for(const k of s){for(const j of s){if(@)continue l;g(k,j)}}",
    "?let {a:p,u:q=@}=o;g(p,q);", "?let {a:p,...q}=o.p;g(p,q.q,@);", "?let [p,,q=@,...r]=[1,2];g(p,q,r.length);", "[x,y]=[y,@];", "({a:x,u:o.a=@}=o);", "?let {[@]:p}=o;g(p);", "?let {p:{a:p,u:q=@}}=o;g(p,q);",
    "var v=@;{let v=1;g(v);}g(v);", "{let w=@;g(w);{let w=y;g(w);}}", "let w;if(@){w=1;}else{w=2;}g(w);", "if(@){}else g(6);", "if(@)g(6);", "if(@){if(y)g(7);else g(8);}else if(x)g(9);else g(10);",
    "l:{if(@)break l;g(5);}g(6);", "l:{m:{if(@)break l;if(y)break m;g(5);}g(6);}", "for(;;){y++;if(@)break;if(y<2)continue;g(y);break;}", "for(let i=0;i<2;i++)g(i,@);", "for(let i=0;;i++){if(i>2||@)break;g(i);}", "for(var i=0,j=2;i<j;i++,j--)g(i,j,@);",
    "do{y++;if(@)continue;g(y);}while(y<2);", "while(y<2){y++;if(@)break;else continue;}", "while(y<3){y++;switch(y){case 1:continue;case 2:g(@);break;default:g(y);}g(8);}", "switch(@){case 0:g(1);case 3:g(2);break;default:g(3);case'k':g(4);}", "switch(typeof @){case'object':{let q=1;g(q);}break;case'number':g(2);}", "switch(@){}", "switch(@){default:g(1);}",
    "l:while(z++<3){y++;while(1){if(@)continue l;break l;}}", "l:do{y++;do{if(@)break;else continue l;}while(0);g(y);}while(y<2);", "x=(y=@,z=y,z);", "if(x&&(y=@)||z)g(y,z);", "if(!(x&&@))g(1);else g(2);", "while(!(y>1)&&(y++,@))g(y);", "z=x?@:y?1:2;", "z=x??(y?@:null)??4;", "for(const k in o.l){g(k);y=k;if(@)break;}",
];
#[no_mangle]
pub extern "C" fn sp_stmts() {
    text_run("let x=g(),y=0,z;y=o.f(x,y);g(x?.a.b);g(x,y,z);");
    let (may, t) = optional(STMTS[choose("stmt", STMTS.len() as u64) as usize]);
    let a = ATOMS[choose("a", 6) as usize];
    let more = ["", "y=1;", "x=o;"][choose("before", 3) as usize];
    text_run(&format!("{may}let x=g(),y=0,z=0;{more}{}g(x,y,z);", t.replace('@', a)));
}

#![allow(private_interfaces)]
//! A small tree-walking JavaScript interpreter over parse-js ASTs: the oracle
//! for "the transformed program behaves like the original".
//!
//! Observable behaviour = the trace of host calls / host property accesses with
//! their (rendered) operands, plus how the program ended.
use parse_js::ast::class_or_object::*;
use parse_js::ast::expr::lit::*;
use parse_js::ast::expr::pat::*;
use parse_js::ast::expr::*;
use parse_js::ast::func::*;
use parse_js::ast::import_export::*;
use parse_js::ast::node::*;
use parse_js::ast::stmt::decl::*;
use parse_js::ast::stmt::*;
use parse_js::ast::stx::TopLevel;
use parse_js::operator::OperatorName as Op;
use std::cell::RefCell;
use std::rc::Rc;

pub type S = Rc<[u16]>;
pub fn s(x: &str) -> S {
    x.encode_utf16().collect::<Vec<_>>().into()
}
pub fn show(x: &[u16]) -> String {
    let mut o = String::new();
    for r in char::decode_utf16(x.iter().copied()) {
        match r {
            Ok(c) => o.push(c),
            Err(e) => o.push_str(&format!("\\u{:04x}", e.unpaired_surrogate())),
        }
    }
    o
}
#[derive(Clone, Debug)]
pub enum Val {
    Undef,
    Null,
    Bool(bool),
    Num(f64),
    Str(S),
    Big(i128),
    Obj(usize),
}
use Val::*;
#[derive(Debug)]
pub enum Err {
    Throw(Val),
    Unsupported(String),
    Limit,
}
pub type R<T> = Result<T, Err>;
#[derive(Debug)]
enum Comp<'a> {
    Normal,
    Break(Option<&'a str>),
    Continue(Option<&'a str>),
    Return(Val),
}
#[derive(Clone)]
enum Slot {
    Data(Val, bool, bool), // value, writable, enumerable
    Acc(Option<usize>, Option<usize>, bool),
}
#[derive(Clone)]
enum Kind<'a> {
    Plain,
    Array(Vec<Option<Val>>),
    Func(Rc<FuncObj<'a>>),
    Native(&'static str),
    Bound(Box<Val>, Box<Val>, Vec<Val>),
    Host(String),
    Error,
    Regex(String),
}
struct FuncObj<'a> {
    func: Option<&'a Node<Func>>,
    env: Env<'a>,
    this: Option<ThisCtx>, // arrow: captured
    home: Option<usize>,
    class: Option<ClassInfo<'a>>,
    method: bool,
    strict: bool,
}
struct ClassInfo<'a> {
    derived: bool,
    fields: RefCell<Vec<(FKey<'a>, Option<&'a Node<Expr>>, Env<'a>)>>,
}
enum FKey<'a> {
    Key(S),
    Method(S, usize),
    Acc(S, Option<usize>, Option<usize>),
    #[allow(dead_code)]
    Never(&'a ()),
}
struct Object<'a> {
    props: Vec<(S, Slot)>,
    proto: Option<usize>,
    kind: Kind<'a>,
    frozen: bool,
}
#[derive(Clone)]
struct ThisCtx {
    this: Rc<RefCell<Option<Val>>>,
    home: Option<usize>,
    func: Option<usize>,
    newt: Val,
}
type Env<'a> = Rc<Scope<'a>>;
struct Scope<'a> {
    vars: RefCell<Vec<(&'a str, Rc<RefCell<Binding>>)>>,
    parent: Option<Env<'a>>,
    with: Option<usize>,
    func: bool,
    privs: RefCell<Vec<(&'a str, S)>>,
}
#[derive(Debug)]
struct Binding {
    v: Option<Val>, // None: TDZ
    mutable: bool,
    /// assignment is silently ignored instead of throwing (named function expressions, sloppy)
    silent: bool,
}
enum Ref<'a> {
    Var(&'a str),
    Prop(Val, S),
    Super(Val, usize, S),
}
pub struct Interp<'a> {
    heap: Vec<Object<'a>>,
    pub trace: Vec<String>,
    steps: u64,
    pub limit: u64,
    depth: u32,
    global: Env<'a>,
    gobj: usize,
    obj_proto: usize,
    fn_proto: usize,
    arr_proto: usize,
    str_proto: usize,
    num_proto: usize,
    bool_proto: usize,
    err_proto: usize,
    re_proto: usize,
    strict: bool,
    nprivs: u32,
    /// answers of the host: `h(i)` and reads of host properties
    pub host: Box<dyn Fn(&str) -> Option<Val> + 'a>,
    pub module: bool,
    /// numbers in the trace are collected in `nums` (and shown as `#`), so that they may stay symbolic
    pub symnums: bool,
    /// the text of a number
    pub num_text: fn(f64) -> String,
    pub num_rem: fn(f64, f64) -> f64,
    annexb: Vec<*const FuncDecl>,
    pub nums: RefCell<Vec<f64>>,
}
const BUILTIN_ERRORS: &[&str] = &["Error", "TypeError", "ReferenceError", "RangeError", "SyntaxError"];

pub fn num_to_s(n: f64) -> String {
    if n.is_nan() {
        return "NaN".into();
    }
    if n == 0.0 {
        return "0".into();
    }
    if n.is_infinite() {
        return if n > 0.0 { "Infinity".into() } else { "-Infinity".into() };
    }
    if n < 0.0 {
        return format!("-{}", num_to_s(-n));
    }
    let e = format!("{:e}", n);
    let (m, ex) = e.split_once('e').unwrap();
    let ex: i32 = ex.parse().unwrap();
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let k = digits.len() as i32;
    let nn = ex + 1;
    if k <= nn && nn <= 21 {
        return format!("{}{}", digits, "0".repeat((nn - k) as usize));
    }
    if 0 < nn && nn <= 21 {
        return format!("{}.{}", &digits[..nn as usize], &digits[nn as usize..]);
    }
    if -6 < nn && nn <= 0 {
        return format!("0.{}{}", "0".repeat((-nn) as usize), digits);
    }
    let sign = if nn > 0 { '+' } else { '-' };
    let ee = (nn - 1).abs();
    if k == 1 {
        format!("{}e{}{}", digits, sign, ee)
    } else {
        format!("{}.{}e{}{}", &digits[..1], &digits[1..], sign, ee)
    }
}
pub fn number_to_string(n: f64) -> String {
    num_to_s(n)
}
fn is_ws(c: u16) -> bool {
    matches!(c, 9 | 10 | 11 | 12 | 13 | 32 | 0xa0 | 0xfeff | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}
pub fn string_to_number(x: &[u16]) -> f64 {
    let mut a = 0;
    let mut b = x.len();
    while a < b && is_ws(x[a]) {
        a += 1
    }
    while b > a && is_ws(x[b - 1]) {
        b -= 1
    }
    let t = &x[a..b];
    if t.is_empty() {
        return 0.0;
    }
    if t.iter().any(|c| *c > 127) {
        return f64::NAN;
    }
    let st: String = t.iter().map(|c| *c as u8 as char).collect();
    if st.len() > 2 && st.starts_with('0') {
        let r = match st.as_bytes()[1] {
            b'x' | b'X' => 16,
            b'o' | b'O' => 8,
            b'b' | b'B' => 2,
            _ => 0,
        };
        if r != 0 {
            let mut v = 0f64;
            for c in st[2..].chars() {
                match c.to_digit(r) {
                    Some(d) => v = v * r as f64 + d as f64,
                    None => return f64::NAN,
                }
            }
            return v;
        }
    }
    let (neg, u) = match st.as_bytes()[0] {
        b'-' => (true, &st[1..]),
        b'+' => (false, &st[1..]),
        _ => (false, &st[..]),
    };
    if u == "Infinity" {
        return if neg { f64::NEG_INFINITY } else { f64::INFINITY };
    }
    // StrDecimalLiteral: digits [. digits] [e[+-]digits] | . digits
    let bs = u.as_bytes();
    let mut i = 0;
    let mut nd = 0;
    while i < bs.len() && bs[i].is_ascii_digit() {
        i += 1;
        nd += 1;
    }
    if i < bs.len() && bs[i] == b'.' {
        i += 1;
        while i < bs.len() && bs[i].is_ascii_digit() {
            i += 1;
            nd += 1;
        }
    }
    if nd == 0 {
        return f64::NAN;
    }
    if i < bs.len() && (bs[i] == b'e' || bs[i] == b'E') {
        i += 1;
        if i < bs.len() && (bs[i] == b'+' || bs[i] == b'-') {
            i += 1
        }
        let st = i;
        while i < bs.len() && bs[i].is_ascii_digit() {
            i += 1
        }
        if st == i {
            return f64::NAN;
        }
    }
    if i != bs.len() {
        return f64::NAN;
    }
    let v: f64 = u.parse().unwrap_or(f64::NAN);
    if neg {
        -v
    } else {
        v
    }
}
pub fn to_int32(n: f64) -> i32 {
    if !n.is_finite() {
        return 0;
    }
    let t = n.trunc();
    let m = t % 4294967296.0;
    let m = if m < 0.0 { m + 4294967296.0 } else { m };
    m as u32 as i32
}
pub fn js_pow(a: f64, b: f64) -> f64 {
    if b.is_nan() {
        return f64::NAN;
    }
    if (a == 1.0 || a == -1.0) && b.is_infinite() {
        return f64::NAN;
    }
    a.powf(b)
}
pub fn js_rem(a: f64, b: f64) -> f64 {
    a % b
}

impl<'a> Scope<'a> {
    fn new(parent: &Env<'a>, func: bool) -> Env<'a> {
        Rc::new(Scope { vars: RefCell::new(vec![]), parent: Some(parent.clone()), with: None, func, privs: RefCell::new(vec![]) })
    }
    fn get_own(&self, n: &str) -> Option<Rc<RefCell<Binding>>> {
        self.vars.borrow().iter().find(|x| x.0 == n).map(|x| x.1.clone())
    }
    fn declare(&self, n: &'a str, v: Option<Val>, mutable: bool) {
        let mut vs = self.vars.borrow_mut();
        let b = Rc::new(RefCell::new(Binding { v, mutable, silent: false }));
        if let Some(x) = vs.iter_mut().find(|x| x.0 == n) {
            x.1 = b;
        } else {
            vs.push((n, b));
        }
    }
}

fn pat_names<'a>(p: &'a Node<Pat>, out: &mut Vec<&'a str>) {
    match &*p.stx {
        Pat::Id(i) => out.push(&i.stx.name),
        Pat::Arr(a) => {
            for e in a.stx.elements.iter().flatten() {
                pat_names(&e.target, out)
            }
            if let Some(r) = &a.stx.rest {
                pat_names(r, out)
            }
        }
        Pat::Obj(o) => {
            for e in &o.stx.properties {
                pat_names(&e.stx.target, out)
            }
            if let Some(r) = &o.stx.rest {
                pat_names(r, out)
            }
        }
        Pat::AssignTarget(_) => {}
    }
}
fn var_names<'a>(st: &'a Node<Stmt>, out: &mut Vec<&'a str>) {
    let list = |b: &'a [Node<Stmt>], out: &mut Vec<&'a str>| {
        for x in b {
            var_names(x, out)
        }
    };
    match &*st.stx {
        Stmt::Block(b) => list(&b.stx.body, out),
        Stmt::DoWhile(d) => var_names(&d.stx.body, out),
        Stmt::While(d) => var_names(&d.stx.body, out),
        Stmt::ForTriple(f) => {
            if let ForTripleStmtInit::Decl(d) = &f.stx.init {
                vd(d, out)
            }
            list(&f.stx.body.stx.body, out)
        }
        Stmt::ForIn(f) => {
            if let ForInOfLhs::Decl((VarDeclMode::Var, p)) = &f.stx.lhs {
                pat_names(&p.stx.pat, out)
            }
            list(&f.stx.body.stx.body, out)
        }
        Stmt::ForOf(f) => {
            if let ForInOfLhs::Decl((VarDeclMode::Var, p)) = &f.stx.lhs {
                pat_names(&p.stx.pat, out)
            }
            list(&f.stx.body.stx.body, out)
        }
        Stmt::If(i) => {
            var_names(&i.stx.consequent, out);
            if let Some(a) = &i.stx.alternate {
                var_names(a, out)
            }
        }
        Stmt::Label(l) => var_names(&l.stx.statement, out),
        Stmt::Switch(x) => {
            for b in &x.stx.branches {
                list(&b.stx.body, out)
            }
        }
        Stmt::Try(t) => {
            list(&t.stx.wrapped.stx.body, out);
            if let Some(c) = &t.stx.catch {
                list(&c.stx.body, out)
            }
            if let Some(f) = &t.stx.finally {
                list(&f.stx.body, out)
            }
        }
        Stmt::With(w) => var_names(&w.stx.body, out),
        Stmt::VarDecl(d) => vd(d, out),
        _ => {}
    }
    fn vd<'a>(d: &'a Node<VarDecl>, out: &mut Vec<&'a str>) {
        if let VarDeclMode::Var = d.stx.mode {
            for x in &d.stx.declarators {
                pat_names(&x.pattern.stx.pat, out)
            }
        }
    }
}
/// Function declarations nested in blocks (sloppy mode hoists a var for them).
/// block-level functions whose hoisting `var` would not clash with an enclosing lexical declaration (annex B.3.3)
fn block_funcs<'a>(st: &'a Node<Stmt>, top: bool, lex: &mut Vec<&'a str>, out: &mut Vec<(&'a str, *const FuncDecl)>) {
    fn list<'a>(b: &'a [Node<Stmt>], head: &[&'a str], lex: &mut Vec<&'a str>, out: &mut Vec<(&'a str, *const FuncDecl)>) {
        let n = lex.len();
        lex.extend(head);
        for x in b {
            if let Stmt::FunctionDecl(_) = &*x.stx {
                block_funcs(x, false, lex, out)
            }
        }
        for x in b {
            lex_names(x, lex);
            if let Stmt::FunctionDecl(f) = &*x.stx {
                if let Some(n) = &f.stx.name {
                    lex.push(&n.stx.name)
                }
            }
        }
        for x in b {
            if !matches!(&*x.stx, Stmt::FunctionDecl(_)) {
                block_funcs(x, false, lex, out)
            }
        }
        lex.truncate(n);
    }
    let for_names = |l: &'a ForInOfLhs| {
        let mut ns = vec![];
        if let ForInOfLhs::Decl((m, p)) = l {
            if !matches!(m, VarDeclMode::Var) {
                pat_names(&p.stx.pat, &mut ns)
            }
        }
        ns
    };
    match &*st.stx {
        Stmt::FunctionDecl(f) if !top => {
            if let Some(n) = &f.stx.name {
                if !f.stx.function.stx.async_ && !f.stx.function.stx.generator && !lex.contains(&&n.stx.name[..]) {
                    out.push((&n.stx.name, &*f.stx))
                }
            }
        }
        Stmt::Block(b) => list(&b.stx.body, &[], lex, out),
        Stmt::DoWhile(d) => block_funcs(&d.stx.body, false, lex, out),
        Stmt::While(d) => block_funcs(&d.stx.body, false, lex, out),
        Stmt::With(d) => block_funcs(&d.stx.body, false, lex, out),
        Stmt::ForTriple(f) => {
            let mut ns = vec![];
            if let ForTripleStmtInit::Decl(d) = &f.stx.init {
                if !matches!(d.stx.mode, VarDeclMode::Var) {
                    for x in &d.stx.declarators {
                        pat_names(&x.pattern.stx.pat, &mut ns)
                    }
                }
            }
            list(&f.stx.body.stx.body, &ns, lex, out)
        }
        Stmt::ForIn(f) => list(&f.stx.body.stx.body, &for_names(&f.stx.lhs), lex, out),
        Stmt::ForOf(f) => list(&f.stx.body.stx.body, &for_names(&f.stx.lhs), lex, out),
        Stmt::If(i) => {
            block_funcs(&i.stx.consequent, false, lex, out);
            if let Some(a) = &i.stx.alternate {
                block_funcs(a, false, lex, out)
            }
        }
        Stmt::Label(l) => block_funcs(&l.stx.statement, top, lex, out),
        Stmt::Switch(x) => {
            let n = lex.len();
            for b in &x.stx.branches {
                for y in &b.stx.body {
                    if let Stmt::FunctionDecl(_) = &*y.stx {
                        block_funcs(y, false, lex, out)
                    }
                }
            }
            for b in &x.stx.branches {
                for y in &b.stx.body {
                    lex_names(y, lex);
                    if let Stmt::FunctionDecl(f) = &*y.stx {
                        if let Some(n) = &f.stx.name {
                            lex.push(&n.stx.name)
                        }
                    }
                }
            }
            for b in &x.stx.branches {
                for y in &b.stx.body {
                    if !matches!(&*y.stx, Stmt::FunctionDecl(_)) {
                        block_funcs(y, false, lex, out)
                    }
                }
            }
            lex.truncate(n);
        }
        Stmt::Try(t) => {
            list(&t.stx.wrapped.stx.body, &[], lex, out);
            if let Some(c) = &t.stx.catch {
                let mut ns = vec![];
                if let Some(p) = &c.stx.parameter {
                    // a simple catch parameter does not stand in the way (annex B.3.4)
                    if !matches!(&*p.stx.pat.stx, Pat::Id(_)) {
                        pat_names(&p.stx.pat, &mut ns)
                    }
                }
                list(&c.stx.body, &ns, lex, out)
            }
            if let Some(f) = &t.stx.finally {
                list(&f.stx.body, &[], lex, out)
            }
        }
        _ => {}
    }
}
fn is_use_strict(b: &[Node<Stmt>]) -> bool {
    for st in b {
        if let Stmt::Expr(e) = &*st.stx {
            if let Expr::LitStr(l) = &*e.stx.expr.stx {
                if e.stx.expr.assoc.get::<ParenthesizedExpr>().is_none() {
                    if l.stx.value == "use strict" {
                        return true;
                    }
                    continue;
                }
            }
        }
        return false;
    }
    false
}

fn unsup<T>(m: impl Into<String>) -> R<T> {
    Err(Err::Unsupported(m.into()))
}

impl<'a> Interp<'a> {
    pub fn new(host: Box<dyn Fn(&str) -> Option<Val> + 'a>) -> Self {
        let global = Rc::new(Scope { vars: RefCell::new(vec![]), parent: None, with: None, func: true, privs: RefCell::new(vec![]) });
        let mut i = Interp { heap: vec![], trace: vec![], steps: 0, limit: 20_000, depth: 0, global, gobj: 0, obj_proto: 0, fn_proto: 0, arr_proto: 0, str_proto: 0, num_proto: 0, bool_proto: 0, err_proto: 0, re_proto: 0, strict: false, nprivs: 0, host, module: false, symnums: false, num_text: num_to_s, num_rem: js_rem, annexb: vec![], nums: RefCell::new(vec![]) };
        i.obj_proto = i.alloc(Kind::Plain, None);
        let op = Some(i.obj_proto);
        i.fn_proto = i.alloc(Kind::Plain, op);
        i.arr_proto = i.alloc(Kind::Plain, op);
        i.str_proto = i.alloc(Kind::Plain, op);
        i.num_proto = i.alloc(Kind::Plain, op);
        i.bool_proto = i.alloc(Kind::Plain, op);
        i.err_proto = i.alloc(Kind::Plain, op);
        i.re_proto = i.alloc(Kind::Plain, op);
        i.gobj = i.alloc(Kind::Plain, op);
        for (p, ns) in [
            (i.obj_proto, &["hasOwnProperty", "toString", "valueOf"][..]),
            (i.fn_proto, &["call", "apply", "bind"][..]),
            (i.arr_proto, &["push", "pop", "shift", "map", "forEach", "filter", "join", "slice", "concat", "indexOf", "reduce", "toString:Array"][..]),
            (i.str_proto, &["charAt", "charCodeAt", "slice:String", "indexOf:String", "toString:String", "valueOf:String", "trim", "toUpperCase", "toLowerCase", "concat:String", "repeat"][..]),
            (i.num_proto, &["toString:Number", "valueOf:Number", "toFixed"][..]),
            (i.bool_proto, &["toString:Boolean", "valueOf:Boolean"][..]),
            (i.err_proto, &["toString:Error"][..]),
        ] {
            for n in ns {
                let f = i.native(n);
                let key = n.split(':').next().unwrap();
                i.define(p, &s(key), Slot::Data(Obj(f), true, false));
            }
        }
        let ep = i.err_proto;
        i.define(ep, &s("name"), Slot::Data(Str(s("Error")), true, false));
        i.define(ep, &s("message"), Slot::Data(Str(s("")), true, false));
        for n in BUILTIN_ERRORS {
            let f = i.native(n);
            let pr = if *n == "Error" { i.err_proto } else { let e = i.err_proto; i.alloc(Kind::Plain, Some(e)) };
            i.define(pr, &s("name"), Slot::Data(Str(s(n)), true, false));
            i.define(pr, &s("constructor"), Slot::Data(Obj(f), true, false));
            i.define(f, &s("prototype"), Slot::Data(Obj(pr), false, false));
            let g = i.gobj;
            i.define(g, &s(n), Slot::Data(Obj(f), true, false));
        }
        for (n, v) in [("undefined", Undef), ("NaN", Num(f64::NAN)), ("Infinity", Num(f64::INFINITY))] {
            let g = i.gobj;
            i.define(g, &s(n), Slot::Data(v, false, false));
        }
        for n in ["h", "log", "String", "Number", "Boolean", "Array", "Object", "isNaN", "Symbol", "Function", "BigInt", "parseInt", "RegExp"] {
            let f = i.native(n);
            let g = i.gobj;
            i.define(g, &s(n), Slot::Data(Obj(f), true, false));
            let pr = match n {
                "String" => i.str_proto,
                "Number" => i.num_proto,
                "Boolean" => i.bool_proto,
                "Array" => i.arr_proto,
                "Object" => i.obj_proto,
                "Function" => i.fn_proto,
                "RegExp" => i.re_proto,
                _ => continue,
            };
            i.define(f, &s("prototype"), Slot::Data(Obj(pr), false, false));
            i.define(pr, &s("constructor"), Slot::Data(Obj(f), true, false));
            if n == "Object" {
                for m in ["keys", "defineProperty", "assign", "freeze", "getPrototypeOf", "create"] {
                    let g = i.native(m);
                    i.define(f, &s(m), Slot::Data(Obj(g), true, false));
                }
            }
            if n == "Array" {
                let g = i.native("isArray");
                i.define(f, &s("isArray"), Slot::Data(Obj(g), true, false));
            }
        }
        let m = i.alloc(Kind::Plain, op);
        for n in ["floor", "ceil", "abs", "max", "min", "pow", "trunc", "sign"] {
            let f = i.native(n);
            i.define(m, &s(n), Slot::Data(Obj(f), true, false));
        }
        i.define(m, &s("PI"), Slot::Data(Num(std::f64::consts::PI), false, false));
        let g = i.gobj;
        i.define(g, &s("Math"), Slot::Data(Obj(m), true, false));
        let ext = i.alloc(Kind::Host("ext".into()), op);
        i.define(g, &s("ext"), Slot::Data(Obj(ext), true, false));
        i.define(g, &s("globalThis"), Slot::Data(Obj(g), true, false));
        i
    }
    fn native(&mut self, n: &'static str) -> usize {
        let p = Some(self.fn_proto);
        self.alloc(Kind::Native(n), p)
    }
    fn alloc(&mut self, kind: Kind<'a>, proto: Option<usize>) -> usize {
        self.heap.push(Object { props: vec![], proto, kind, frozen: false });
        self.heap.len() - 1
    }
    fn define(&mut self, o: usize, k: &S, sl: Slot) {
        if let Kind::Array(v) = &mut self.heap[o].kind {
            if let Some(ix) = arr_index(k) {
                if ix < 4096 {
                    while v.len() <= ix {
                        v.push(None)
                    }
                    if let Slot::Data(x, ..) = sl {
                        v[ix] = Some(x);
                        return;
                    }
                }
            }
        }
        let ps = &mut self.heap[o].props;
        if let Some(p) = ps.iter_mut().find(|p| p.0 == *k) {
            if let (Slot::Acc(g, st, _), Slot::Acc(ng, ns, e)) = (&p.1, &sl) {
                p.1 = Slot::Acc(ng.or(*g), ns.or(*st), *e);
            } else {
                p.1 = sl;
            }
        } else {
            ps.push((k.clone(), sl));
        }
    }
    fn step(&mut self) -> R<()> {
        self.steps += 1;
        if self.steps > self.limit {
            Err(Err::Limit)
        } else {
            Ok(())
        }
    }
    fn throw<T>(&mut self, kind: &str, msg: &str) -> R<T> {
        let e = self.make_error(kind, msg);
        Err(Err::Throw(e))
    }
    fn make_error(&mut self, kind: &str, msg: &str) -> Val {
        let ctor = self.lookup(self.gobj, &s(kind)).map(|x| x.1);
        let mut pr = self.err_proto;
        if let Some(Slot::Data(Obj(f), ..)) = ctor {
            if let Some((_, Slot::Data(Obj(p), ..))) = self.lookup(f, &s("prototype")) {
                pr = p
            }
        }
        let o = self.alloc(Kind::Error, Some(pr));
        let _ = msg; // built-in messages are not part of the observable behaviour
        Obj(o)
    }
    // ---------- rendering
    pub fn render(&self, v: &Val, d: u32) -> String {
        match v {
            Undef => "undefined".into(),
            Null => "null".into(),
            Bool(b) => b.to_string(),
            Num(n) if self.symnums => {
                self.nums.borrow_mut().push(*n);
                "#".into()
            }
            Num(n) => {
                if *n == 0.0 && n.is_sign_negative() {
                    "-0".into()
                } else {
                    num_to_s(*n)
                }
            }
            Str(x) => format!("\"{}\"", show(x)),
            Big(b) => format!("{}n", b),
            Obj(o) => {
                let ob = &self.heap[*o];
                match &ob.kind {
                    Kind::Func(_) | Kind::Native(_) | Kind::Bound(..) => return "function".into(),
                    Kind::Host(n) => return format!("host:{}", n),
                    Kind::Regex(r) => return r.clone(),
                    _ => {}
                }
                if d == 0 {
                    return "…".into();
                }
                let mut t = String::new();
                if let Kind::Error = ob.kind {
                    if let Some((_, Slot::Data(v, ..))) = self.lookup(*o, &s("name")) {
                        t.push_str(&self.render(&v, 0));
                    }
                    if let Some((_, Slot::Data(v, ..))) = self.lookup(*o, &s("message")) {
                        t.push_str(&self.render(&v, 0));
                    }
                }
                t.push(if matches!(ob.kind, Kind::Array(_)) { '[' } else { '{' });
                if let Kind::Array(v) = &ob.kind {
                    for x in v {
                        match x {
                            Some(x) => t.push_str(&self.render(x, d - 1)),
                            None => t.push_str("<hole>"),
                        }
                        t.push(',');
                    }
                }
                for k in self.own_keys(*o) {
                    if matches!(ob.kind, Kind::Array(_)) && arr_index(&k).is_some() {
                        continue;
                    }
                    if let Some(p) = ob.props.iter().find(|p| p.0 == k) {
                        match &p.1 {
                            Slot::Data(v, _, true) => t.push_str(&format!("{}:{},", show(&k), self.render(v, d - 1))),
                            Slot::Acc(g, st, true) => t.push_str(&format!("{}:acc{}{},", show(&k), g.is_some() as u8, st.is_some() as u8)),
                            _ => {}
                        }
                    }
                }
                t.push('}');
                t
            }
        }
    }
    fn own_keys(&self, o: usize) -> Vec<S> {
        let ob = &self.heap[o];
        let mut idx: Vec<(usize, S)> = vec![];
        if let Kind::Array(v) = &ob.kind {
            for (i, x) in v.iter().enumerate() {
                if x.is_some() {
                    idx.push((i, s(&i.to_string())))
                }
            }
        }
        let mut rest = vec![];
        for p in &ob.props {
            if p.0.first() == Some(&(b'#' as u16)) && p.0.contains(&(b'@' as u16)) {
                continue;
            }
            match arr_index(&p.0) {
                Some(i) => idx.push((i, p.0.clone())),
                None => rest.push(p.0.clone()),
            }
        }
        idx.sort_by_key(|x| x.0);
        idx.into_iter().map(|x| x.1).chain(rest).collect()
    }
    // ---------- properties
    fn lookup(&self, o: usize, k: &S) -> Option<(usize, Slot)> {
        let mut cur = Some(o);
        while let Some(c) = cur {
            if let Some(x) = self.own(c, k) {
                return Some((c, x));
            }
            cur = self.heap[c].proto;
        }
        None
    }
    fn own(&self, c: usize, k: &S) -> Option<Slot> {
        if let Kind::Array(v) = &self.heap[c].kind {
            if let Some(i) = arr_index(k) {
                if let Some(Some(x)) = v.get(i) {
                    return Some(Slot::Data(x.clone(), true, true));
                }
            }
            if **k == *s("length") {
                return Some(Slot::Data(Num(v.len() as f64), true, false));
            }
        }
        self.heap[c].props.iter().find(|p| p.0 == *k).map(|p| p.1.clone())
    }
    fn proto_of(&mut self, v: &Val) -> R<usize> {
        Ok(match v {
            Obj(o) => *o,
            Str(_) => self.str_proto,
            Num(_) | Big(_) => self.num_proto,
            Bool(_) => self.bool_proto,
            Undef | Null => return self.throw("TypeError", "property of nullish"),
        })
    }
    pub fn get(&mut self, v: &Val, k: &S) -> R<Val> {
        if let Str(x) = v {
            if **k == *s("length") {
                return Ok(Num(x.len() as f64));
            }
            if let Some(i) = arr_index(k) {
                if i < x.len() {
                    return Ok(Str(x[i..i + 1].into()));
                }
            }
        }
        let o = self.proto_of(v)?;
        self.get_on(o, k, v)
    }
    fn get_on(&mut self, o: usize, k: &S, recv: &Val) -> R<Val> {
        if let Kind::Host(n) = &self.heap[o].kind {
            if self.own(o, k).is_none() {
                let nm = format!("{}.{}", n, show(k));
                self.trace.push(format!("get {}", nm));
                if let Some(v) = (self.host)(&nm) {
                    return Ok(v);
                }
                let f = self.alloc(Kind::Host(nm), Some(self.fn_proto));
                return Ok(Obj(f));
            }
        }
        match self.lookup(o, k) {
            Some((_, Slot::Data(v, ..))) => Ok(v),
            Some((_, Slot::Acc(Some(g), ..))) => self.call(&Obj(g), recv.clone(), vec![], Undef),
            _ => Ok(Undef),
        }
    }
    fn set(&mut self, v: &Val, k: &S, x: Val) -> R<()> {
        let o = self.proto_of(v)?;
        if let Obj(o) = v {
            if let Kind::Host(n) = &self.heap[*o].kind {
                let t = format!("set {}.{} {}", n, show(k), self.render(&x, 3));
                self.trace.push(t);
                return Ok(());
            }
        }
        match self.lookup(o, k) {
            Some((_, Slot::Acc(_, Some(st), _))) => {
                self.call(&Obj(st), v.clone(), vec![x], Undef)?;
                return Ok(());
            }
            Some((_, Slot::Acc(_, None, _))) | Some((_, Slot::Data(_, false, _))) => {
                if self.strict {
                    return self.throw("TypeError", "readonly");
                }
                return Ok(());
            }
            _ => {}
        }
        let Obj(o) = v else {
            if self.strict {
                return self.throw("TypeError", "set on primitive");
            }
            return Ok(());
        };
        if self.heap[*o].frozen {
            if self.strict {
                return self.throw("TypeError", "frozen");
            }
            return Ok(());
        }
        if let Kind::Array(a) = &mut self.heap[*o].kind {
            if **k == *s("length") {
                let Num(n) = x else { return unsup("array length") };
                a.truncate(n as usize);
                while a.len() < n as usize && a.len() < 4096 {
                    a.push(None)
                }
                return Ok(());
            }
        }
        let en = match self.own(*o, k) {
            Some(Slot::Data(_, _, e)) => e,
            _ => true,
        };
        self.define(*o, k, Slot::Data(x, true, en));
        Ok(())
    }
    fn delete(&mut self, v: &Val, k: &S) -> R<bool> {
        let o = self.proto_of(v)?;
        if !matches!(v, Obj(_)) {
            return Ok(true);
        }
        if let Kind::Host(n) = &self.heap[o].kind {
            let t = format!("delete {}.{}", n, show(k));
            self.trace.push(t);
            return Ok(true);
        }
        if let Some(Slot::Data(_, false, _)) = self.own(o, k) {
            if self.strict {
                return self.throw("TypeError", "delete");
            }
            return Ok(false);
        }
        if let Kind::Array(a) = &mut self.heap[o].kind {
            if let Some(i) = arr_index(k) {
                if i < a.len() {
                    a[i] = None
                }
                return Ok(true);
            }
        }
        self.heap[o].props.retain(|p| p.0 != *k);
        Ok(true)
    }
    // ---------- conversions
    pub fn truthy(&self, v: &Val) -> bool {
        match v {
            Undef | Null => false,
            Bool(b) => *b,
            Num(n) => !(n.is_nan() || *n == 0.0),
            Str(x) => !x.is_empty(),
            Big(b) => *b != 0,
            Obj(_) => true,
        }
    }
    fn prim(&mut self, v: &Val, hint: &str) -> R<Val> {
        let Obj(o) = v else { return Ok(v.clone()) };
        if let Kind::Host(n) = &self.heap[*o].kind {
            let n = n.clone();
            self.trace.push(format!("prim {} {}", n, hint));
            return Ok(Str(s(&n)));
        }
        if let Kind::Func(_) = self.heap[*o].kind {
            return unsup("function to primitive");
        }
        let order = if hint == "string" { ["toString", "valueOf"] } else { ["valueOf", "toString"] };
        for m in order {
            let f = self.get(v, &s(m))?;
            if self.callable(&f) {
                let r = self.call(&f, v.clone(), vec![], Undef)?;
                if !matches!(r, Obj(_)) {
                    return Ok(r);
                }
            }
        }
        self.throw("TypeError", "prim")
    }
    pub fn to_num(&mut self, v: &Val) -> R<f64> {
        Ok(match v {
            Undef => f64::NAN,
            Null => 0.0,
            Bool(b) => *b as u8 as f64,
            Num(n) => *n,
            Str(x) => string_to_number(x),
            Big(_) => return self.throw("TypeError", "bigint"),
            Obj(_) => {
                let p = self.prim(v, "number")?;
                return self.to_num(&p);
            }
        })
    }
    fn to_numeric(&mut self, v: &Val) -> R<Val> {
        let p = self.prim(v, "number")?;
        if let Big(_) = p {
            return Ok(p);
        }
        Ok(Num(self.to_num(&p)?))
    }
    pub fn to_str(&mut self, v: &Val) -> R<S> {
        Ok(match v {
            Str(x) => x.clone(),
            Undef => s("undefined"),
            Null => s("null"),
            Bool(b) => s(&b.to_string()),
            Num(n) => s(&(self.num_text)(*n)),
            Big(b) => s(&b.to_string()),
            Obj(_) => {
                let p = self.prim(v, "string")?;
                return self.to_str(&p);
            }
        })
    }
    fn to_key(&mut self, v: &Val) -> R<S> {
        self.to_str(v)
    }
    fn callable(&self, v: &Val) -> bool {
        matches!(v, Obj(o) if matches!(self.heap[*o].kind, Kind::Func(_) | Kind::Native(_) | Kind::Bound(..) | Kind::Host(_)))
    }
    fn strict_eq(&self, a: &Val, b: &Val) -> bool {
        match (a, b) {
            (Undef, Undef) | (Null, Null) => true,
            (Bool(x), Bool(y)) => x == y,
            (Num(x), Num(y)) => x == y,
            (Str(x), Str(y)) => x == y,
            (Big(x), Big(y)) => x == y,
            (Obj(x), Obj(y)) => x == y,
            _ => false,
        }
    }
    fn loose_eq(&mut self, a: &Val, b: &Val) -> R<bool> {
        Ok(match (a, b) {
            (Undef | Null, Undef | Null) => true,
            (Undef | Null, _) | (_, Undef | Null) => false,
            (Num(_), Num(_)) | (Str(_), Str(_)) | (Bool(_), Bool(_)) | (Obj(_), Obj(_)) | (Big(_), Big(_)) => self.strict_eq(a, b),
            (Num(x), Str(y)) => *x == string_to_number(y),
            (Str(x), Num(y)) => string_to_number(x) == *y,
            (Big(x), Num(y)) => *x as f64 == *y,
            (Num(x), Big(y)) => *x == *y as f64,
            (Big(x), Str(y)) => str_big(y).map_or(false, |y| *x == y),
            (Str(_), Big(_)) => return self.loose_eq(b, a),
            (Bool(x), _) => return self.loose_eq(&Num(*x as u8 as f64), b),
            (_, Bool(y)) => return self.loose_eq(a, &Num(*y as u8 as f64)),
            (Obj(_), _) => {
                let p = self.prim(a, "default")?;
                return self.loose_eq(&p, b);
            }
            (_, Obj(_)) => {
                let p = self.prim(b, "default")?;
                return self.loose_eq(a, &p);
            }
        })
    }
    fn less(&mut self, a: &Val, b: &Val) -> R<Option<bool>> {
        Ok(match (a, b) {
            (Str(x), Str(y)) => Some(x[..] < y[..]),
            (Big(x), Big(y)) => Some(x < y),
            (Big(x), Str(y)) => str_big(y).map(|y| *x < y),
            (Str(x), Big(y)) => str_big(x).map(|x| x < *y),
            (Big(x), _) => {
                let y = self.to_num(b)?;
                if y.is_nan() {
                    None
                } else {
                    Some((*x as f64) < y)
                }
            }
            (_, Big(y)) => {
                let x = self.to_num(a)?;
                if x.is_nan() {
                    None
                } else {
                    Some(x < *y as f64)
                }
            }
            _ => {
                let (x, y) = (self.to_num(a)?, self.to_num(b)?);
                if x.is_nan() || y.is_nan() {
                    None
                } else {
                    Some(x < y)
                }
            }
        })
    }
    pub fn binop(&mut self, op: Op, a: &Val, b: &Val) -> R<Val> {
        use Op::*;
        Ok(match op {
            Addition => {
                let (x, y) = (self.prim(a, "default")?, self.prim(b, "default")?);
                if matches!(x, Str(_)) || matches!(y, Str(_)) {
                    let (x, y) = (self.to_str(&x)?, self.to_str(&y)?);
                    let mut v = x.to_vec();
                    v.extend_from_slice(&y);
                    if v.len() > 10_000 {
                        return Err(Err::Limit);
                    }
                    return Ok(Str(v.into()));
                }
                let (x, y) = (self.to_numeric(&x)?, self.to_numeric(&y)?);
                return self.arith(op, x, y);
            }
            Subtraction | Multiplication | Division | Remainder | Exponentiation | BitwiseAnd | BitwiseOr | BitwiseXor | BitwiseLeftShift | BitwiseRightShift | BitwiseUnsignedRightShift => {
                let x = self.to_numeric(a)?;
                let y = self.to_numeric(b)?;
                return self.arith(op, x, y);
            }
            Equality => Bool(self.loose_eq(a, b)?),
            Inequality => Bool(!self.loose_eq(a, b)?),
            StrictEquality => Bool(self.strict_eq(a, b)),
            StrictInequality => Bool(!self.strict_eq(a, b)),
            LessThan | GreaterThan | LessThanOrEqual | GreaterThanOrEqual => {
                let x = self.prim(a, "number")?;
                let y = self.prim(b, "number")?;
                Bool(match op {
                    LessThan => self.less(&x, &y)?.unwrap_or(false),
                    GreaterThan => self.less(&y, &x)?.unwrap_or(false),
                    LessThanOrEqual => self.less(&y, &x)?.map_or(false, |r| !r),
                    _ => self.less(&x, &y)?.map_or(false, |r| !r),
                })
            }
            In => {
                let Obj(o) = b else { return self.throw("TypeError", "in") };
                let k = self.to_key(a)?;
                if let Kind::Host(n) = &self.heap[*o].kind {
                    let t = format!("has {}.{}", n, show(&k));
                    self.trace.push(t);
                    return Ok(Bool(true));
                }
                Bool(self.lookup(*o, &k).is_some())
            }
            Instanceof => {
                if !self.callable(b) {
                    return self.throw("TypeError", "instanceof");
                }
                let p = self.get(b, &s("prototype"))?;
                let Obj(p) = p else {
                    if !matches!(a, Obj(_)) {
                        return Ok(Bool(false));
                    }
                    return self.throw("TypeError", "prototype");
                };
                let mut c = if let Obj(o) = a { self.heap[*o].proto } else { None };
                while let Some(x) = c {
                    if x == p {
                        return Ok(Bool(true));
                    }
                    c = self.heap[x].proto;
                }
                Bool(false)
            }
            _ => return unsup(format!("binary {:?}", op)),
        })
    }
    fn arith(&mut self, op: Op, x: Val, y: Val) -> R<Val> {
        use Op::*;
        Ok(match (x, y) {
            (Num(a), Num(b)) => Num(match op {
                Addition => a + b,
                Subtraction => a - b,
                Multiplication => a * b,
                Division => a / b,
                Remainder => (self.num_rem)(a, b),
                Exponentiation => js_pow(a, b),
                BitwiseAnd => (to_int32(a) & to_int32(b)) as f64,
                BitwiseOr => (to_int32(a) | to_int32(b)) as f64,
                BitwiseXor => (to_int32(a) ^ to_int32(b)) as f64,
                BitwiseLeftShift => to_int32(a).wrapping_shl(to_int32(b) as u32 & 31) as f64,
                BitwiseRightShift => (to_int32(a) >> (to_int32(b) as u32 & 31)) as f64,
                BitwiseUnsignedRightShift => ((to_int32(a) as u32) >> (to_int32(b) as u32 & 31)) as f64,
                _ => return unsup("arith"),
            }),
            (Big(a), Big(b)) => {
                let r = match op {
                    Addition => a.checked_add(b),
                    Subtraction => a.checked_sub(b),
                    Multiplication => a.checked_mul(b),
                    Division | Remainder if b == 0 => return self.throw("RangeError", "div0"),
                    Division => Some(a / b),
                    Remainder => Some(a % b),
                    Exponentiation if b < 0 => return self.throw("RangeError", "neg exp"),
                    Exponentiation => {
                        let mut r: Option<i128> = Some(1);
                        if b > 200 && a != 0 && a != 1 && a != -1 {
                            r = None;
                        } else {
                            for _ in 0..(if b > 200 { 200 + b % 2 } else { b }) {
                                r = r.and_then(|r| r.checked_mul(a));
                            }
                        }
                        r
                    }
                    BitwiseAnd => Some(a & b),
                    BitwiseOr => Some(a | b),
                    BitwiseXor => Some(a ^ b),
                    BitwiseLeftShift | BitwiseRightShift => {
                        let sh = if op == BitwiseLeftShift { b } else { -b };
                        if sh >= 0 {
                            if sh < 64 && a.abs() < 1 << 60 {
                                Some(a << sh)
                            } else {
                                None
                            }
                        } else {
                            Some(a >> (-sh).min(127))
                        }
                    }
                    BitwiseUnsignedRightShift => return self.throw("TypeError", ">>> bigint"),
                    _ => return unsup("arith"),
                };
                match r {
                    Some(r) => Big(r),
                    None => return unsup("bigint size"),
                }
            }
            _ => return self.throw("TypeError", "mixed bigint"),
        })
    }
    // ---------- variables
    fn find(&self, env: &Env<'a>, n: &str) -> Option<Result<Rc<RefCell<Binding>>, usize>> {
        let mut c = Some(env);
        while let Some(e) = c {
            if let Some(w) = e.with {
                if matches!(self.heap[w].kind, Kind::Host(_)) || self.lookup(w, &s(n)).is_some() {
                    return Some(Err(w));
                }
            }
            if let Some(b) = e.get_own(n) {
                return Some(Ok(b));
            }
            c = e.parent.as_ref();
        }
        if self.lookup(self.gobj, &s(n)).is_some() {
            return Some(Err(self.gobj));
        }
        None
    }
    fn get_var(&mut self, env: &Env<'a>, n: &str) -> R<Val> {
        match self.find(env, n) {
            Some(Ok(b)) => match &b.borrow().v {
                Some(v) => Ok(v.clone()),
                None => self.throw("ReferenceError", n),
            },
            Some(Err(o)) => self.get(&Obj(o), &s(n)),
            None => {
                if let Some(v) = (self.host)(n) {
                    return Ok(v);
                }
                self.throw("ReferenceError", n)
            }
        }
    }
    fn set_var(&mut self, env: &Env<'a>, n: &'a str, v: Val) -> R<()> {
        match self.find(env, n) {
            Some(Ok(b)) => {
                if b.borrow().v.is_none() {
                    return self.throw("ReferenceError", n);
                }
                if !b.borrow().mutable {
                    if b.borrow().silent && !self.strict {
                        return Ok(());
                    }
                    return self.throw("TypeError", "const");
                }
                b.borrow_mut().v = Some(v);
                Ok(())
            }
            Some(Err(o)) => self.set(&Obj(o), &s(n), v),
            None => {
                if self.strict {
                    return self.throw("ReferenceError", n);
                }
                let g = self.gobj;
                self.set(&Obj(g), &s(n), v)
            }
        }
    }
    fn init_var(&mut self, env: &Env<'a>, n: &'a str, v: Val) -> R<()> {
        match self.find(env, n) {
            Some(Ok(b)) => {
                b.borrow_mut().v = Some(v);
                Ok(())
            }
            _ => unsup("init"),
        }
    }
    // ---------- patterns
    /// `decl`: Some(true) initialise a lexical binding, Some(false) var assignment, None assignment expression
    fn bind(&mut self, env: &Env<'a>, p: &'a Node<Pat>, v: Val, decl: Option<bool>, c: &ThisCtx) -> R<()> {
        self.step()?;
        match &*p.stx {
            Pat::Id(i) => {
                if decl == Some(true) {
                    self.init_var(env, &i.stx.name, v)
                } else {
                    self.set_var(env, &i.stx.name, v)
                }
            }
            Pat::AssignTarget(e) => {
                let r = self.reference(env, e, c)?;
                self.put(env, r, v)
            }
            Pat::Arr(a) => {
                let items = self.iterate(&v)?;
                let mut it = items.into_iter();
                for e in &a.stx.elements {
                    let x = it.next().unwrap_or(Undef);
                    if let Some(e) = e {
                        self.bind_default(env, &e.target, e.default_value.as_ref(), x, decl, c)?;
                    }
                }
                if let Some(r) = &a.stx.rest {
                    let rest: Vec<Option<Val>> = it.map(Some).collect();
                    let ap = self.arr_proto;
                    let o = self.alloc(Kind::Array(rest), Some(ap));
                    self.bind(env, r, Obj(o), decl, c)?;
                }
                Ok(())
            }
            Pat::Obj(o) => {
                if matches!(v, Undef | Null) {
                    return self.throw("TypeError", "destructure nullish");
                }
                let mut used = vec![];
                for pr in &o.stx.properties {
                    let k = self.key(env, &pr.stx.key, c)?;
                    used.push(k.clone());
                    // assignment targets are evaluated before the value is read
                    if decl.is_none() {
                        if let Pat::AssignTarget(e) = &*pr.stx.target.stx {
                            let r = self.reference(env, e, c)?;
                            let mut x = self.get(&v, &k)?;
                            if let (Undef, Some(d)) = (&x, &pr.stx.default_value) {
                                x = self.expr(env, d, c)?
                            }
                            self.put(env, r, x)?;
                            continue;
                        }
                    }
                    let x = self.get(&v, &k)?;
                    self.bind_default(env, &pr.stx.target, pr.stx.default_value.as_ref(), x, decl, c)?;
                }
                if let Some(r) = &o.stx.rest {
                    let op = self.obj_proto;
                    let n = self.alloc(Kind::Plain, Some(op));
                    self.copy_props(n, &v, &used)?;
                    self.bind(env, r, Obj(n), decl, c)?;
                }
                Ok(())
            }
        }
    }
    fn bind_default(&mut self, env: &Env<'a>, p: &'a Node<Pat>, d: Option<&'a Node<Expr>>, v: Val, decl: Option<bool>, c: &ThisCtx) -> R<()> {
        let v = match (v, d) {
            (Undef, Some(d)) => self.expr(env, d, c)?,
            (v, _) => v,
        };
        self.bind(env, p, v, decl, c)
    }
    fn copy_props(&mut self, n: usize, v: &Val, skip: &[S]) -> R<()> {
        match v {
            Undef | Null | Bool(_) | Num(_) | Big(_) => {}
            Str(x) => {
                for i in 0..x.len() {
                    self.define(n, &s(&i.to_string()), Slot::Data(Str(x[i..i + 1].into()), true, true));
                }
            }
            Obj(o) => {
                if let Kind::Host(h) = &self.heap[*o].kind {
                    let t = format!("spread {}", h);
                    self.trace.push(t);
                    return Ok(());
                }
                for k in self.own_keys(*o) {
                    if skip.contains(&k) {
                        continue;
                    }
                    match self.own(*o, &k) {
                        Some(Slot::Data(_, _, true)) | Some(Slot::Acc(_, _, true)) => {
                            let x = self.get(v, &k)?;
                            self.define(n, &k, Slot::Data(x, true, true));
                        }
                        _ => {}
                    }
                }
            }
        }
        Ok(())
    }
    fn iterate(&mut self, v: &Val) -> R<Vec<Val>> {
        match v {
            Obj(o) => match &self.heap[*o].kind {
                Kind::Array(a) => Ok(a.iter().map(|x| x.clone().unwrap_or(Undef)).collect()),
                Kind::Host(n) => {
                    let t = format!("iterate {}", n);
                    self.trace.push(t);
                    Ok(vec![])
                }
                _ => self.throw("TypeError", "not iterable"),
            },
            Str(x) => {
                let mut out = vec![];
                let mut i = 0;
                while i < x.len() {
                    let n = if (0xd800..0xdc00).contains(&x[i]) && i + 1 < x.len() && (0xdc00..0xe000).contains(&x[i + 1]) { 2 } else { 1 };
                    out.push(Str(x[i..i + n].into()));
                    i += n;
                }
                Ok(out)
            }
            _ => self.throw("TypeError", "not iterable"),
        }
    }
    // ---------- references
    fn reference(&mut self, env: &Env<'a>, e: &'a Node<Expr>, c: &ThisCtx) -> R<Ref<'a>> {
        self.step()?;
        match &*e.stx {
            Expr::Id(i) => Ok(Ref::Var(&i.stx.name)),
            Expr::IdPat(i) => Ok(Ref::Var(&i.stx.name)),
            Expr::Member(m) => {
                if let Expr::Super(_) = &*m.stx.left.stx {
                    let (t, h) = self.super_base(c)?;
                    return Ok(Ref::Super(t, h, s(&m.stx.right)));
                }
                let o = self.expr(env, &m.stx.left, c)?;
                Ok(Ref::Prop(o, self.member_key(env, &m.stx.right)?))
            }
            Expr::ComputedMember(m) => {
                if let Expr::Super(_) = &*m.stx.object.stx {
                    let (t, h) = self.super_base(c)?;
                    let k = self.expr(env, &m.stx.member, c)?;
                    let k = self.to_key(&k)?;
                    return Ok(Ref::Super(t, h, k));
                }
                let o = self.expr(env, &m.stx.object, c)?;
                let k = self.expr(env, &m.stx.member, c)?;
                if matches!(o, Undef | Null) {
                    // the key is converted only after the base check
                    return Ok(Ref::Prop(o, s("?")));
                }
                let k = self.to_key(&k)?;
                Ok(Ref::Prop(o, k))
            }
            Expr::TypeAssertion(t) => self.reference(env, &t.stx.expression, c),
            Expr::NonNullAssertion(t) => self.reference(env, &t.stx.expression, c),
            Expr::SatisfiesExpr(t) => self.reference(env, &t.stx.expression, c),
            _ => unsup("assignment target"),
        }
    }
    fn member_key(&mut self, env: &Env<'a>, n: &'a str) -> R<S> {
        if n.starts_with('#') {
            let mut cur = Some(env);
            while let Some(e) = cur {
                if let Some(k) = e.privs.borrow().iter().find(|x| x.0 == n) {
                    return Ok(k.1.clone());
                }
                cur = e.parent.as_ref();
            }
            return unsup("unknown private name");
        }
        Ok(s(n))
    }
    fn super_base(&mut self, c: &ThisCtx) -> R<(Val, usize)> {
        let t = c.this.borrow().clone();
        let Some(t) = t else { return self.throw("ReferenceError", "this") };
        match c.home.map(|h| self.heap[h].proto) {
            Some(Some(p)) => Ok((t, p)),
            _ => unsup("super without home"),
        }
    }
    fn is_priv(k: &S) -> bool {
        k.first() == Some(&(b'#' as u16)) && k.contains(&(b'@' as u16))
    }
    fn get_ref(&mut self, env: &Env<'a>, r: &Ref<'a>) -> R<Val> {
        match r {
            Ref::Var(n) => self.get_var(env, n),
            Ref::Prop(o, k) => {
                if Self::is_priv(k) {
                    match o {
                        Obj(x) if self.own(*x, k).is_some() => {}
                        _ => return self.throw("TypeError", "private"),
                    }
                }
                self.get(o, k)
            }
            Ref::Super(t, p, k) => self.get_on(*p, k, &t.clone()),
        }
    }
    fn put(&mut self, env: &Env<'a>, r: Ref<'a>, v: Val) -> R<()> {
        match r {
            Ref::Var(n) => self.set_var(env, n, v),
            Ref::Prop(o, k) => {
                if Self::is_priv(&k) {
                    match &o {
                        Obj(x) if self.own(*x, &k).is_some() => {}
                        _ => return self.throw("TypeError", "private"),
                    }
                }
                self.set(&o, &k, v)
            }
            Ref::Super(t, p, k) => {
                if let Some((_, Slot::Acc(_, Some(st), _))) = self.lookup(p, &k) {
                    self.call(&Obj(st), t, vec![v], Undef)?;
                    return Ok(());
                }
                self.set(&t, &k, v)
            }
        }
    }
    fn key(&mut self, env: &Env<'a>, k: &'a ClassOrObjKey, c: &ThisCtx) -> R<S> {
        match k {
            ClassOrObjKey::Direct(d) => {
                if d.stx.key.starts_with('#') && format!("{:?}", d.stx.tt).contains("Private") {
                    return self.member_key(env, &d.stx.key);
                }
                Ok(s(&d.stx.key))
            }
            ClassOrObjKey::Computed(e) => {
                let v = self.expr(env, e, c)?;
                self.to_key(&v)
            }
        }
    }
    // ---------- functions
    fn make_fn(&mut self, f: &'a Node<Func>, env: &Env<'a>, c: &ThisCtx, method_home: Option<usize>, method: bool) -> R<usize> {
        let strict = self.strict
            || match &f.stx.body {
                Some(FuncBody::Block(b)) => is_use_strict(b),
                _ => false,
            };
        let fo = FuncObj { func: Some(f), env: env.clone(), this: if f.stx.arrow { Some(c.clone()) } else { None }, home: method_home, class: None, method, strict };
        let fp = self.fn_proto;
        let o = self.alloc(Kind::Func(Rc::new(fo)), Some(fp));
        let len = f.stx.parameters.iter().take_while(|p| !p.stx.rest && p.stx.default_value.is_none()).count();
        self.define(o, &s("length"), Slot::Data(Num(len as f64), false, false));
        if !f.stx.arrow && !method {
            let op = self.obj_proto;
            let p = self.alloc(Kind::Plain, Some(op));
            self.define(p, &s("constructor"), Slot::Data(Obj(o), true, false));
            self.define(o, &s("prototype"), Slot::Data(Obj(p), true, false));
        }
        Ok(o)
    }
    pub fn call(&mut self, f: &Val, this: Val, args: Vec<Val>, newt: Val) -> R<Val> {
        self.step()?;
        let Obj(o) = f else { return self.throw("TypeError", "not a function") };
        match self.heap[*o].kind.clone() {
            Kind::Func(fo) => {
                self.depth += 1;
                if self.depth > 40 {
                    self.depth -= 1;
                    return Err(Err::Limit);
                }
                let st = self.strict;
                self.strict = fo.strict;
                let r = self.call_fn(*o, &fo, this, args, newt);
                self.strict = st;
                self.depth -= 1;
                r
            }
            Kind::Native(n) => self.call_native(n, this, args, newt),
            Kind::Bound(t, th, mut a) => {
                a.extend(args);
                let nt = if let Undef = newt { Undef } else { (*t).clone() };
                self.call(&t, *th, a, nt)
            }
            Kind::Host(n) => {
                let mut t = format!("call {}", n);
                for a in &args {
                    t.push(' ');
                    t.push_str(&self.render(a, 3));
                }
                if let Undef = newt {
                } else {
                    t.push_str(" new");
                }
                self.trace.push(t);
                Ok((self.host)(&format!("{}()", n)).unwrap_or(Undef))
            }
            _ => self.throw("TypeError", "not a function"),
        }
    }
    fn call_fn(&mut self, o: usize, fo: &Rc<FuncObj<'a>>, this: Val, args: Vec<Val>, newt: Val) -> R<Val> {
        let is_new = !matches!(newt, Undef);
        if is_new && (fo.method || fo.func.map_or(false, |f| f.stx.arrow)) && fo.class.is_none() {
            return self.throw("TypeError", "not a constructor");
        }
        if fo.class.is_some() && !is_new {
            return self.throw("TypeError", "class constructor without new");
        }
        let derived = fo.class.as_ref().map_or(false, |c| c.derived);
        let this_v = if is_new {
            if derived {
                None
            } else {
                let p = self.get(&newt, &s("prototype"))?;
                let p = if let Obj(p) = p { p } else { self.obj_proto };
                Some(Obj(self.alloc(Kind::Plain, Some(p))))
            }
        } else if fo.strict {
            Some(this)
        } else {
            Some(match this {
                Undef | Null => Obj(self.gobj),
                x => x,
            })
        };
        let ctx = match &fo.this {
            Some(c) => c.clone(),
            None => ThisCtx { this: Rc::new(RefCell::new(this_v.clone())), home: fo.home, func: Some(o), newt: newt.clone() },
        };
        if let (Some(ci), Some(Obj(t))) = (&fo.class, &this_v) {
            self.init_fields(*t, ci, &ctx, fo)?;
        }
        let Some(f) = fo.func else {
            // implicit constructor
            if derived {
                let parent = self.heap[o].proto;
                let Some(p) = parent else { return self.throw("TypeError", "super") };
                let r = self.construct(&Obj(p), args, newt)?;
                if let (Some(ci), Obj(t)) = (&fo.class, &r) {
                    let ctx = ThisCtx { this: Rc::new(RefCell::new(Some(r.clone()))), home: fo.home, func: Some(o), newt: Undef };
                    self.init_fields(*t, ci, &ctx, fo)?;
                }
                return Ok(r);
            }
            return Ok(this_v.unwrap());
        };
        let r = self.run_body(f, &fo.env, args, &ctx)?;
        if is_new {
            if let Obj(_) = r {
                return Ok(r);
            }
            if derived && !matches!(r, Undef) {
                return self.throw("TypeError", "derived return");
            }
            let t = ctx.this.borrow().clone();
            return match t {
                Some(t) => Ok(t),
                None => self.throw("ReferenceError", "this"),
            };
        }
        Ok(r)
    }
    fn init_fields(&mut self, t: usize, ci: &ClassInfo<'a>, ctx: &ThisCtx, fo: &Rc<FuncObj<'a>>) -> R<()> {
        let n = ci.fields.borrow().len();
        for pass in 0..2 {
            for i in 0..n {
                let (k, e, env) = {
                    let f = ci.fields.borrow();
                    let x = &f[i];
                    match &x.0 {
                        FKey::Key(k) => (k.clone(), x.1, x.2.clone()),
                        FKey::Method(k, m) => {
                            if pass == 0 {
                                let (k, m) = (k.clone(), *m);
                                drop(f);
                                self.define(t, &k, Slot::Data(Obj(m), false, false));
                            }
                            continue;
                        }
                        FKey::Acc(k, g, st) => {
                            if pass == 0 {
                                let (k, g, st) = (k.clone(), *g, *st);
                                drop(f);
                                self.define(t, &k, Slot::Acc(g, st, false));
                            }
                            continue;
                        }
                        FKey::Never(_) => continue,
                    }
                };
                if pass == 0 {
                    continue;
                }
                let ctx2 = ThisCtx { this: Rc::new(RefCell::new(Some(Obj(t)))), home: fo.home, func: ctx.func, newt: Undef };
                let env2 = Scope::new(&env, true);
                let st = self.strict;
                self.strict = true;
                let v = match e {
                    Some(e) => self.expr(&env2, e, &ctx2),
                    None => Ok(Undef),
                };
                self.strict = st;
                self.define(t, &k, Slot::Data(v?, true, true));
            }
        }
        Ok(())
    }
    fn construct(&mut self, f: &Val, args: Vec<Val>, newt: Val) -> R<Val> {
        let ok = match f {
            Obj(o) => match &self.heap[*o].kind {
                Kind::Func(fo) => fo.class.is_some() || (!fo.method && fo.func.map_or(true, |f| !f.stx.arrow && !f.stx.async_ && !f.stx.generator)),
                Kind::Native(n) => BUILTIN_ERRORS.contains(n) || matches!(*n, "Object" | "Array" | "String" | "Number" | "Boolean" | "Function" | "RegExp"),
                Kind::Bound(..) | Kind::Host(_) => true,
                _ => false,
            },
            _ => false,
        };
        if !ok {
            return self.throw("TypeError", "not a constructor");
        }
        self.call(f, Undef, args, newt)
    }
    fn run_body(&mut self, f: &'a Node<Func>, env: &Env<'a>, args: Vec<Val>, ctx: &ThisCtx) -> R<Val> {
        if f.stx.async_ || f.stx.generator {
            return unsup("async/generator call");
        }
        let fenv = Scope::new(env, true);
        let Some(body) = &f.stx.body else { return unsup("function without body") };
        let mut pn = vec![];
        for p in &f.stx.parameters {
            pat_names(&p.stx.pattern.stx.pat, &mut pn);
        }
        let simple = f.stx.parameters.iter().all(|p| p.stx.default_value.is_none() && !p.stx.rest && matches!(&*p.stx.pattern.stx.pat.stx, Pat::Id(_)));
        for n in &pn {
            fenv.declare(n, if simple { Some(Undef) } else { None }, true);
        }
        if !f.stx.arrow && !pn.contains(&"arguments") {
            let ap = self.obj_proto;
            let a = self.alloc(Kind::Array(args.iter().cloned().map(Some).collect()), Some(ap));
            fenv.declare("arguments", Some(Obj(a)), true);
        }
        let nargs = args.len();
        for (i, p) in f.stx.parameters.iter().enumerate() {
            if p.stx.rest {
                let ap = self.arr_proto;
                let rest: Vec<Option<Val>> = args.iter().skip(i).cloned().map(Some).collect();
                let o = self.alloc(Kind::Array(rest), Some(ap));
                self.bind(&fenv, &p.stx.pattern.stx.pat, Obj(o), Some(true), ctx)?;
            } else {
                let v = if i < nargs { args[i].clone() } else { Undef };
                self.bind_default(&fenv, &p.stx.pattern.stx.pat, p.stx.default_value.as_ref(), v, Some(true), ctx)?;
            }
            if p.stx.accessibility.is_some() || p.stx.readonly {
                // TypeScript parameter property
                if let Pat::Id(id) = &*p.stx.pattern.stx.pat.stx {
                    let v = self.get_var(&fenv, &id.stx.name)?;
                    let t = ctx.this.borrow().clone().unwrap_or(Undef);
                    self.set(&t, &s(&id.stx.name), v)?;
                }
            }
        }
        match body {
            FuncBody::Expression(e) => self.expr(&fenv, e, ctx),
            FuncBody::Block(b) => {
                // With non-simple parameters the body's vars live in their own environment.
                let benv = if simple { fenv.clone() } else { Scope::new(&fenv, true) };
                self.hoist_vars(&benv, b, Some(&fenv), &pn)?;
                let lenv = Scope::new(&benv, false);
                self.hoist_lex(&lenv, &benv, b, ctx, true)?;
                match self.stmts(&lenv, b, ctx)? {
                    Comp::Return(v) => Ok(v),
                    _ => Ok(Undef),
                }
            }
        }
    }
    fn hoist_vars(&mut self, env: &Env<'a>, b: &'a [Node<Stmt>], params: Option<&Env<'a>>, pn: &[&'a str]) -> R<()> {
        let mut ns = vec![];
        for x in b {
            var_names(x, &mut ns);
        }
        for n in ns {
            if env.get_own(n).is_some() {
                continue;
            }
            let v = match params {
                Some(p) => p.get_own(n).and_then(|b| b.borrow().v.clone()).unwrap_or(Undef),
                None => Undef,
            };
            env.declare(n, Some(v), true);
        }
        if !self.strict {
            let mut fs = vec![];
            let mut lex = vec![];
            for x in b {
                lex_names(x, &mut lex);
            }
            lex.extend(pn);
            for x in b {
                block_funcs(x, true, &mut lex, &mut fs);
            }
            for (n, p) in fs {
                self.annexb.push(p);
                if env.get_own(n).is_none() {
                    env.declare(n, Some(Undef), true);
                }
            }
        }
        Ok(())
    }
    /// let/const/class and function declarations of a statement list
    fn hoist_lex(&mut self, env: &Env<'a>, fenv: &Env<'a>, b: &'a [Node<Stmt>], ctx: &ThisCtx, top: bool) -> R<()> {
        for x in b {
            match &*x.stx {
                Stmt::VarDecl(d) if !matches!(d.stx.mode, VarDeclMode::Var) => {
                    for dd in &d.stx.declarators {
                        let mut ns = vec![];
                        pat_names(&dd.pattern.stx.pat, &mut ns);
                        for n in ns {
                            env.declare(n, None, matches!(d.stx.mode, VarDeclMode::Let));
                        }
                    }
                }
                Stmt::ClassDecl(c) => {
                    if let Some(n) = &c.stx.name {
                        env.declare(&n.stx.name, None, true);
                    }
                }
                _ => {}
            }
        }
        for x in b {
            let mut st = x;
            while let Stmt::Label(l) = &*st.stx {
                st = &l.stx.statement;
            }
            if let Stmt::FunctionDecl(f) = &*st.stx {
                if f.stx.function.stx.body.is_none() {
                    continue;
                }
                if let Some(n) = &f.stx.name {
                    let o = self.make_fn(&f.stx.function, env, ctx, None, false)?;
                    if top {
                        fenv.declare(&n.stx.name, Some(Obj(o)), true);
                    } else {
                        env.declare(&n.stx.name, Some(Obj(o)), true);
                    }
                }
            }
        }
        Ok(())
    }
    // ---------- statements
    fn stmts(&mut self, env: &Env<'a>, b: &'a [Node<Stmt>], c: &ThisCtx) -> R<Comp<'a>> {
        for x in b {
            match self.stmt(env, x, c, &[])? {
                Comp::Normal => {}
                o => return Ok(o),
            }
        }
        Ok(Comp::Normal)
    }
    fn block(&mut self, env: &Env<'a>, b: &'a [Node<Stmt>], c: &ThisCtx) -> R<Comp<'a>> {
        let e = Scope::new(env, false);
        let e2 = e.clone();
        self.hoist_lex(&e, &e2, b, c, false)?;
        self.stmts(&e, b, c)
    }
    fn declare_for(&mut self, env: &Env<'a>, d: &'a VarDecl) {
        if !matches!(d.mode, VarDeclMode::Var) {
            for dd in &d.declarators {
                let mut ns = vec![];
                pat_names(&dd.pattern.stx.pat, &mut ns);
                for n in ns {
                    env.declare(n, None, matches!(d.mode, VarDeclMode::Let));
                }
            }
        }
    }
    fn var_decl(&mut self, env: &Env<'a>, d: &'a VarDecl, c: &ThisCtx) -> R<()> {
        if matches!(d.mode, VarDeclMode::Using | VarDeclMode::AwaitUsing) {
            return unsup("using");
        }
        let lexical = !matches!(d.mode, VarDeclMode::Var);
        for dd in &d.declarators {
            match &dd.initializer {
                Some(e) => {
                    let v = self.expr(env, e, c)?;
                    self.bind(env, &dd.pattern.stx.pat, v, Some(lexical), c)?;
                }
                None if lexical => self.bind(env, &dd.pattern.stx.pat, Undef, Some(true), c)?,
                None => {}
            }
        }
        Ok(())
    }
    fn loop_body(&mut self, r: Comp<'a>, labels: &[&'a str]) -> Result<bool, Comp<'a>> {
        // Ok(true): go on; Ok(false): leave the loop; Err: propagate
        match r {
            Comp::Normal | Comp::Continue(None) => Ok(true),
            Comp::Continue(Some(l)) if labels.contains(&l) => Ok(true),
            Comp::Break(None) => Ok(false),
            o => Err(o),
        }
    }
    fn stmt(&mut self, env: &Env<'a>, st: &'a Node<Stmt>, c: &ThisCtx, labels: &[&'a str]) -> R<Comp<'a>> {
        self.step()?;
        match &*st.stx {
            Stmt::Empty(_) | Stmt::Debugger(_) => {}
            Stmt::Expr(e) => {
                self.expr(env, &e.stx.expr, c)?;
            }
            Stmt::Block(b) => return self.block(env, &b.stx.body, c),
            Stmt::Break(b) => return Ok(Comp::Break(b.stx.label.as_deref())),
            Stmt::Continue(b) => return Ok(Comp::Continue(b.stx.label.as_deref())),
            Stmt::Return(r) => {
                let v = match &r.stx.value {
                    Some(e) => self.expr(env, e, c)?,
                    None => Undef,
                };
                return Ok(Comp::Return(v));
            }
            Stmt::Throw(t) => {
                let v = self.expr(env, &t.stx.value, c)?;
                return Err(Err::Throw(v));
            }
            Stmt::If(i) => {
                let t = self.expr(env, &i.stx.test, c)?;
                if self.truthy(&t) {
                    return self.sub(env, &i.stx.consequent, c);
                } else if let Some(a) = &i.stx.alternate {
                    return self.sub(env, a, c);
                }
            }
            Stmt::While(w) => loop {
                self.step()?;
                let t = self.expr(env, &w.stx.condition, c)?;
                if !self.truthy(&t) {
                    break;
                }
                let r = self.sub(env, &w.stx.body, c)?;
                match self.loop_body(r, labels) {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(o) => return Ok(o),
                }
            },
            Stmt::DoWhile(w) => loop {
                self.step()?;
                let r = self.sub(env, &w.stx.body, c)?;
                match self.loop_body(r, labels) {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(o) => return Ok(o),
                }
                let t = self.expr(env, &w.stx.condition, c)?;
                if !self.truthy(&t) {
                    break;
                }
            },
            Stmt::ForTriple(f) => {
                let mut e = Scope::new(env, false);
                let mut per_iter = vec![];
                match &f.stx.init {
                    ForTripleStmtInit::None => {}
                    ForTripleStmtInit::Expr(x) => {
                        self.expr(&e, x, c)?;
                    }
                    ForTripleStmtInit::Decl(d) => {
                        self.declare_for(&e, &d.stx);
                        self.var_decl(&e, &d.stx, c)?;
                        if let VarDeclMode::Let = d.stx.mode {
                            for dd in &d.stx.declarators {
                                pat_names(&dd.pattern.stx.pat, &mut per_iter);
                            }
                        }
                    }
                }
                loop {
                    self.step()?;
                    if !per_iter.is_empty() {
                        let n = Scope::new(env, false);
                        for p in &per_iter {
                            let v = e.get_own(p).and_then(|b| b.borrow().v.clone());
                            n.declare(p, v, true);
                        }
                        e = n;
                    }
                    if let Some(x) = &f.stx.cond {
                        let t = self.expr(&e, x, c)?;
                        if !self.truthy(&t) {
                            break;
                        }
                    }
                    let r = self.block(&e, &f.stx.body.stx.body, c)?;
                    match self.loop_body(r, labels) {
                        Ok(true) => {}
                        Ok(false) => break,
                        Err(o) => return Ok(o),
                    }
                    if !per_iter.is_empty() {
                        let n = Scope::new(env, false);
                        for p in &per_iter {
                            let v = e.get_own(p).and_then(|b| b.borrow().v.clone());
                            n.declare(p, v, true);
                        }
                        e = n;
                    }
                    if let Some(x) = &f.stx.post {
                        self.expr(&e, x, c)?;
                    }
                }
            }
            Stmt::ForIn(f) => {
                let o = self.for_head(env, &f.stx.lhs, &f.stx.rhs, c)?;
                let keys: Vec<Val> = match &o {
                    Undef | Null => vec![],
                    Str(x) => (0..x.len()).map(|i| Str(s(&i.to_string()))).collect(),
                    Obj(o) => {
                        let mut ks: Vec<S> = vec![];
                        let mut cur = Some(*o);
                        while let Some(x) = cur {
                            for k in self.own_keys(x) {
                                if let Some(Slot::Data(_, _, true) | Slot::Acc(_, _, true)) = self.own(x, &k) {
                                    if !ks.contains(&k) {
                                        ks.push(k)
                                    }
                                }
                            }
                            cur = self.heap[x].proto;
                        }
                        ks.into_iter().map(Str).collect()
                    }
                    _ => vec![],
                };
                return self.for_each(env, keys, &f.stx.lhs, &f.stx.body, c, labels);
            }
            Stmt::ForOf(f) => {
                if f.stx.await_ {
                    return unsup("for await");
                }
                let o = self.for_head(env, &f.stx.lhs, &f.stx.rhs, c)?;
                let items = self.iterate(&o)?;
                return self.for_each(env, items, &f.stx.lhs, &f.stx.body, c, labels);
            }
            Stmt::Label(l) => {
                let mut ls = labels.to_vec();
                ls.push(&l.stx.name);
                if let Stmt::FunctionDecl(_) = &*l.stx.statement.stx {
                    return Ok(Comp::Normal);
                }
                let r = self.stmt(env, &l.stx.statement, c, &ls)?;
                return Ok(match r {
                    Comp::Break(Some(x)) if x == l.stx.name => Comp::Normal,
                    r => r,
                });
            }
            Stmt::Switch(w) => {
                let v = self.expr(env, &w.stx.test, c)?;
                let e = Scope::new(env, false);
                for b in &w.stx.branches {
                    let e2 = e.clone();
                    self.hoist_lex(&e, &e2, &b.stx.body, c, false)?;
                }
                let mut hit = None;
                for (i, b) in w.stx.branches.iter().enumerate() {
                    if let Some(x) = &b.stx.case {
                        let y = self.expr(&e, x, c)?;
                        if self.strict_eq(&v, &y) {
                            hit = Some(i);
                            break;
                        }
                    }
                }
                if hit.is_none() {
                    hit = w.stx.branches.iter().position(|b| b.stx.case.is_none());
                }
                if let Some(i) = hit {
                    for b in &w.stx.branches[i..] {
                        match self.stmts(&e, &b.stx.body, c)? {
                            Comp::Normal => {}
                            Comp::Break(None) => return Ok(Comp::Normal),
                            o => return Ok(o),
                        }
                    }
                }
            }
            Stmt::Try(t) => {
                let mut r = self.block(env, &t.stx.wrapped.stx.body, c);
                if let (Err(Err::Throw(v)), Some(cb)) = (&r, &t.stx.catch) {
                    let v = v.clone();
                    let e = Scope::new(env, false);
                    let mut pr = Ok(());
                    if let Some(p) = &cb.stx.parameter {
                        let mut ns = vec![];
                        pat_names(&p.stx.pat, &mut ns);
                        for n in ns {
                            e.declare(n, None, true);
                        }
                        pr = self.bind(&e, &p.stx.pat, v, Some(true), c);
                    }
                    r = match pr {
                        Ok(()) => self.block(&e, &cb.stx.body, c),
                        Err(e) => Err(e),
                    };
                }
                if let Some(f) = &t.stx.finally {
                    if !matches!(r, Err(Err::Limit | Err::Unsupported(_))) {
                        match self.block(env, &f.stx.body, c)? {
                            Comp::Normal => {}
                            o => return Ok(o),
                        }
                    }
                }
                return r;
            }
            Stmt::With(w) => {
                let v = self.expr(env, &w.stx.object, c)?;
                let o = match v {
                    Obj(o) => o,
                    Undef | Null => return self.throw("TypeError", "with"),
                    _ => return unsup("with primitive"),
                };
                let e = Rc::new(Scope { vars: RefCell::new(vec![]), parent: Some(env.clone()), with: Some(o), func: false, privs: RefCell::new(vec![]) });
                return self.sub(&e, &w.stx.body, c);
            }
            Stmt::VarDecl(d) => self.var_decl(env, &d.stx, c)?,
            Stmt::FunctionDecl(f) => {
                // sloppy block function: assign the outer var when the declaration is evaluated
                if let Some(n) = &f.stx.name {
                    let p: *const FuncDecl = &*f.stx;
                    if !self.strict && self.annexb.contains(&p) {
                        if let Some(b) = env.get_own(&n.stx.name) {
                            let v = b.borrow().v.clone();
                            let mut cur = env.parent.as_ref();
                            while let Some(e) = cur {
                                if e.func {
                                    match e.get_own(&n.stx.name) {
                                        Some(x) => x.borrow_mut().v = v,
                                        None => e.declare(&n.stx.name, v, true),
                                    }
                                    break;
                                }
                                cur = e.parent.as_ref();
                            }
                        }
                    }
                }
            }
            Stmt::ClassDecl(d) => {
                if d.stx.declare {
                    return Ok(Comp::Normal);
                }
                let o = self.class(env, d.stx.name.as_ref().map(|n| n.stx.name.as_str()), d.stx.extends.as_ref(), &d.stx.members, c)?;
                if let Some(n) = &d.stx.name {
                    self.init_var(env, &n.stx.name, Obj(o))?;
                    if d.stx.export_default {
                        self.trace_export("default", &Obj(o));
                    }
                }
            }
            Stmt::ExportDefaultExpr(e) => {
                let v = self.expr(env, &e.stx.expression, c)?;
                self.trace_export("default", &v);
            }
            Stmt::ExportList(_) | Stmt::Import(_) => {}
            Stmt::InterfaceDecl(_) | Stmt::TypeAliasDecl(_) | Stmt::AmbientVarDecl(_) | Stmt::AmbientFunctionDecl(_) | Stmt::AmbientClassDecl(_) | Stmt::ImportTypeDecl(_) | Stmt::ExportTypeDecl(_) => {}
            o => return unsup(format!("statement {:?}", std::mem::discriminant(o))),
        }
        Ok(Comp::Normal)
    }
    fn trace_export(&mut self, n: &str, v: &Val) {
        let t = format!("export {} {}", n, self.render(v, 3));
        self.trace.push(t);
    }
    /// a statement in a sub-statement position (function declarations get their own block, annex B)
    fn sub(&mut self, env: &Env<'a>, st: &'a Node<Stmt>, c: &ThisCtx) -> R<Comp<'a>> {
        if let Stmt::FunctionDecl(_) = &*st.stx {
            return self.block(env, std::slice::from_ref(st), c);
        }
        self.stmt(env, st, c, &[])
    }
    fn for_head(&mut self, env: &Env<'a>, lhs: &'a ForInOfLhs, rhs: &'a Node<Expr>, c: &ThisCtx) -> R<Val> {
        let e = Scope::new(env, false);
        if let ForInOfLhs::Decl((m, p)) = lhs {
            if !matches!(m, VarDeclMode::Var) {
                let mut ns = vec![];
                pat_names(&p.stx.pat, &mut ns);
                for n in ns {
                    e.declare(n, None, true);
                }
            }
        }
        self.expr(&e, rhs, c)
    }
    fn for_each(&mut self, env: &Env<'a>, items: Vec<Val>, lhs: &'a ForInOfLhs, body: &'a Node<ForBody>, c: &ThisCtx, labels: &[&'a str]) -> R<Comp<'a>> {
        for v in items {
            self.step()?;
            let e = Scope::new(env, false);
            match lhs {
                ForInOfLhs::Assign(p) => self.bind(&e, p, v, None, c)?,
                ForInOfLhs::Decl((m, p)) => {
                    let lexical = !matches!(m, VarDeclMode::Var);
                    if lexical {
                        let mut ns = vec![];
                        pat_names(&p.stx.pat, &mut ns);
                        for n in ns {
                            e.declare(n, None, matches!(m, VarDeclMode::Let));
                        }
                    }
                    self.bind(&e, &p.stx.pat, v, Some(lexical), c)?;
                }
            }
            let r = self.block(&e, &body.stx.body, c)?;
            match self.loop_body(r, labels) {
                Ok(true) => {}
                Ok(false) => break,
                Err(o) => return Ok(o),
            }
        }
        Ok(Comp::Normal)
    }
    // ---------- classes
    fn class(&mut self, env: &Env<'a>, name: Option<&'a str>, ext: Option<&'a Node<Expr>>, members: &'a [Node<ClassMember>], c: &ThisCtx) -> R<usize> {
        let st = self.strict;
        self.strict = true;
        let r = self.class_inner(env, name, ext, members, c);
        self.strict = st;
        r
    }
    fn class_inner(&mut self, env: &Env<'a>, name: Option<&'a str>, ext: Option<&'a Node<Expr>>, members: &'a [Node<ClassMember>], c: &ThisCtx) -> R<usize> {
        let cenv = Scope::new(env, false);
        if let Some(n) = name {
            cenv.declare(n, None, false);
        }
        self.nprivs += 1;
        for m in members {
            if let ClassOrObjKey::Direct(d) = &m.stx.key {
                if d.stx.key.starts_with('#') {
                    let k = s(&format!("{}@{}", d.stx.key, self.nprivs));
                    let mut p = cenv.privs.borrow_mut();
                    if !p.iter().any(|x| x.0 == d.stx.key) {
                        p.push((&d.stx.key, k));
                    }
                }
            }
        }
        let (mut pp, mut cp) = (Some(self.obj_proto), self.fn_proto);
        let derived = ext.is_some();
        if let Some(e) = ext {
            let v = self.expr(&cenv, e, c)?;
            match &v {
                Null => pp = None,
                Obj(o) if self.callable(&v) => {
                    match self.get(&v, &s("prototype"))? {
                        Obj(p) => pp = Some(p),
                        Null => pp = None,
                        _ => return self.throw("TypeError", "extends"),
                    }
                    cp = *o;
                }
                _ => return self.throw("TypeError", "extends"),
            }
        }
        let proto = self.alloc(Kind::Plain, pp);
        let ctor = members.iter().find(|m| !m.stx.static_ && matches!(&m.stx.key, ClassOrObjKey::Direct(d) if d.stx.key == "constructor") && matches!(&m.stx.val, ClassOrObjVal::Method(f) if f.stx.func.stx.body.is_some()));
        let func = ctor.and_then(|m| match &m.stx.val {
            ClassOrObjVal::Method(f) => Some(&f.stx.func),
            _ => None,
        });
        let fo = Rc::new(FuncObj { func, env: cenv.clone(), this: None, home: Some(proto), class: Some(ClassInfo { derived, fields: RefCell::new(vec![]) }), method: false, strict: true });
        let o = self.alloc(Kind::Func(fo.clone()), Some(cp));
        self.define(o, &s("prototype"), Slot::Data(Obj(proto), false, false));
        self.define(proto, &s("constructor"), Slot::Data(Obj(o), true, false));
        enum Late<'a> {
            Field(S, Option<&'a Node<Expr>>),
            Block(&'a [Node<Stmt>]),
        }
        let mut late = vec![];
        for m in members {
            if m.stx.abstract_ || !m.stx.decorators.is_empty() || m.stx.accessor {
                if m.stx.abstract_ {
                    continue;
                }
                return unsup("class member feature");
            }
            let home = if m.stx.static_ { o } else { proto };
            let private = matches!(&m.stx.key, ClassOrObjKey::Direct(d) if d.stx.key.starts_with('#') && format!("{:?}", d.stx.tt).contains("Private"));
            match &m.stx.val {
                ClassOrObjVal::StaticBlock(b) => late.push(Late::Block(&b.stx.body)),
                ClassOrObjVal::IndexSignature(_) => {}
                ClassOrObjVal::Prop(e) => {
                    let k = self.key(&cenv, &m.stx.key, c)?;
                    if m.stx.static_ {
                        late.push(Late::Field(k, e.as_ref()));
                    } else {
                        fo.class.as_ref().unwrap().fields.borrow_mut().push((FKey::Key(k), e.as_ref(), cenv.clone()));
                    }
                }
                ClassOrObjVal::Method(f) => {
                    if Some(m as *const _) == ctor.map(|x| x as *const _) || f.stx.func.stx.body.is_none() {
                        continue;
                    }
                    let k = self.key(&cenv, &m.stx.key, c)?;
                    let fv = self.make_fn(&f.stx.func, &cenv, c, Some(home), true)?;
                    if private && !m.stx.static_ {
                        fo.class.as_ref().unwrap().fields.borrow_mut().push((FKey::Method(k, fv), None, cenv.clone()));
                    } else {
                        self.define(home, &k, Slot::Data(Obj(fv), !private, false));
                    }
                }
                ClassOrObjVal::Getter(_) | ClassOrObjVal::Setter(_) => {
                    let (f, get) = match &m.stx.val {
                        ClassOrObjVal::Getter(g) => (&g.stx.func, true),
                        ClassOrObjVal::Setter(g) => (&g.stx.func, false),
                        _ => unreachable!(),
                    };
                    if f.stx.body.is_none() {
                        continue;
                    }
                    let k = self.key(&cenv, &m.stx.key, c)?;
                    let fv = self.make_fn(f, &cenv, c, Some(home), true)?;
                    let (g, st) = if get { (Some(fv), None) } else { (None, Some(fv)) };
                    if private && !m.stx.static_ {
                        fo.class.as_ref().unwrap().fields.borrow_mut().push((FKey::Acc(k, g, st), None, cenv.clone()));
                    } else {
                        self.define(home, &k, Slot::Acc(g, st, false));
                    }
                }
            }
        }
        if let Some(n) = name {
            self.init_var(&cenv, n, Obj(o))?;
        }
        let sctx = ThisCtx { this: Rc::new(RefCell::new(Some(Obj(o)))), home: Some(o), func: Some(o), newt: Undef };
        for l in late {
            match l {
                Late::Field(k, e) => {
                    let fenv = Scope::new(&cenv, true);
                    let v = match e {
                        Some(e) => self.expr(&fenv, e, &sctx)?,
                        None => Undef,
                    };
                    self.define(o, &k, Slot::Data(v, true, true));
                }
                Late::Block(b) => {
                    let fenv = Scope::new(&cenv, true);
                    self.hoist_vars(&fenv, b, None, &[])?;
                    let lenv = Scope::new(&fenv, false);
                    self.hoist_lex(&lenv, &fenv, b, &sctx, true)?;
                    self.stmts(&lenv, b, &sctx)?;
                }
            }
        }
        Ok(o)
    }
    // ---------- expressions
    fn chain_base(e: &Node<Expr>) -> bool {
        // a parenthesised expression ends an optional chain
        e.assoc.get::<ParenthesizedExpr>().is_none()
    }
    /// Evaluates a member/call chain; Ok(None) when an optional link short-circuited.
    fn chain(&mut self, env: &Env<'a>, e: &'a Node<Expr>, c: &ThisCtx) -> R<Option<(Val, Val)>> {
        // returns (value, this for a call)
        self.step()?;
        match &*e.stx {
            Expr::Member(m) => {
                if let Expr::Super(_) = &*m.stx.left.stx {
                    let (t, h) = self.super_base(c)?;
                    let v = self.get_on(h, &s(&m.stx.right), &t)?;
                    return Ok(Some((v, t)));
                }
                let Some((o, _)) = self.chain_part(env, &m.stx.left, c)? else { return Ok(None) };
                if m.stx.optional_chaining && matches!(o, Undef | Null) {
                    return Ok(None);
                }
                let k = self.member_key(env, &m.stx.right)?;
                let v = self.get_ref(env, &Ref::Prop(o.clone(), k))?;
                Ok(Some((v, o)))
            }
            Expr::ComputedMember(m) => {
                if let Expr::Super(_) = &*m.stx.object.stx {
                    let (t, h) = self.super_base(c)?;
                    let k = self.expr(env, &m.stx.member, c)?;
                    let k = self.to_key(&k)?;
                    let v = self.get_on(h, &k, &t)?;
                    return Ok(Some((v, t)));
                }
                let Some((o, _)) = self.chain_part(env, &m.stx.object, c)? else { return Ok(None) };
                if m.stx.optional_chaining && matches!(o, Undef | Null) {
                    return Ok(None);
                }
                let k = self.expr(env, &m.stx.member, c)?;
                if matches!(o, Undef | Null) {
                    return self.throw("TypeError", "nullish");
                }
                let k = self.to_key(&k)?;
                let v = self.get(&o, &k)?;
                Ok(Some((v, o)))
            }
            Expr::Call(x) => {
                if let Expr::Super(_) = &*x.stx.callee.stx {
                    let Some(f) = c.func else { return unsup("super call") };
                    let parent = self.heap[f].proto;
                    let args = self.args(env, &x.stx.arguments, c)?;
                    let Some(p) = parent else { return self.throw("TypeError", "super") };
                    let r = self.construct(&Obj(p), args, c.newt.clone())?;
                    if c.this.borrow().is_some() {
                        return self.throw("ReferenceError", "super twice");
                    }
                    *c.this.borrow_mut() = Some(r.clone());
                    if let (Kind::Func(fo), Obj(t)) = (self.heap[f].kind.clone(), &r) {
                        if let Some(ci) = &fo.class {
                            self.init_fields(*t, ci, c, &fo)?;
                        }
                    }
                    return Ok(Some((r, Undef)));
                }
                let Some((f, this)) = self.callee(env, &x.stx.callee, c)? else { return Ok(None) };
                if x.stx.optional_chaining && matches!(f, Undef | Null) {
                    return Ok(None);
                }
                let args = self.args(env, &x.stx.arguments, c)?;
                if !self.callable(&f) {
                    return self.throw("TypeError", "not callable");
                }
                let v = self.call(&f, this, args, Undef)?;
                Ok(Some((v, Undef)))
            }
            Expr::NonNullAssertion(n) => self.chain_part(env, &n.stx.expression, c),
            Expr::Instantiation(n) => self.chain_part(env, &n.stx.expression, c),
            _ => {
                let v = self.expr(env, e, c)?;
                Ok(Some((v, Undef)))
            }
        }
    }
    fn chain_part(&mut self, env: &Env<'a>, e: &'a Node<Expr>, c: &ThisCtx) -> R<Option<(Val, Val)>> {
        if Self::chain_base(e) {
            self.chain(env, e, c)
        } else {
            Ok(Some((self.expr(env, e, c)?, Undef)))
        }
    }
    fn callee(&mut self, env: &Env<'a>, e: &'a Node<Expr>, c: &ThisCtx) -> R<Option<(Val, Val)>> {
        match &*e.stx {
            Expr::Member(_) | Expr::ComputedMember(_) => {
                let r = self.chain(env, e, c)?;
                if r.is_none() && !Self::chain_base(e) {
                    return Ok(Some((Undef, Undef)));
                }
                Ok(r)
            }
            Expr::Id(i) => {
                let n = &i.stx.name;
                // with-object calls pass the object as this
                let mut this = Undef;
                if let Some(Err(o)) = self.find(env, n) {
                    if o != self.gobj {
                        this = Obj(o);
                    }
                }
                if n == "eval" {
                    return unsup("eval");
                }
                Ok(Some((self.get_var(env, n)?, this)))
            }
            Expr::NonNullAssertion(n) => self.callee(env, &n.stx.expression, c),
            Expr::Instantiation(n) => self.callee(env, &n.stx.expression, c),
            Expr::TypeAssertion(n) => self.callee(env, &n.stx.expression, c),
            Expr::SatisfiesExpr(n) => self.callee(env, &n.stx.expression, c),
            Expr::Call(_) => self.chain_part(env, e, c),
            _ => Ok(Some((self.expr(env, e, c)?, Undef))),
        }
    }
    fn args(&mut self, env: &Env<'a>, a: &'a [Node<CallArg>], c: &ThisCtx) -> R<Vec<Val>> {
        let mut v = vec![];
        for x in a {
            let y = self.expr(env, &x.stx.value, c)?;
            if x.stx.spread {
                v.extend(self.iterate(&y)?);
            } else {
                v.push(y);
            }
        }
        Ok(v)
    }
    fn lit_str(e: &Node<LitStrExpr>, outer: &NodeAssocData) -> S {
        if let Some(u) = literal_string_code_units(&e.assoc).or_else(|| literal_string_code_units(outer)) {
            return u.into();
        }
        s(&e.stx.value)
    }
    pub fn expr(&mut self, env: &Env<'a>, e: &'a Node<Expr>, c: &ThisCtx) -> R<Val> {
        self.step()?;
        Ok(match &*e.stx {
            Expr::LitNum(n) => Num(n.stx.value.0),
            Expr::LitStr(l) => Str(Self::lit_str(l, &e.assoc)),
            Expr::LitBool(b) => Bool(b.stx.value),
            Expr::LitNull(_) => Null,
            Expr::LitBigInt(b) => match b.stx.value.parse::<i128>() {
                Ok(v) => Big(v),
                Err(_) => return unsup("bigint"),
            },
            Expr::LitRegex(r) => {
                let p = self.re_proto;
                Obj(self.alloc(Kind::Regex(r.stx.value.clone()), Some(p)))
            }
            Expr::Id(i) => self.get_var(env, &i.stx.name)?,
            Expr::This(_) => {
                let t = c.this.borrow().clone();
                match t {
                    Some(t) => t,
                    None => return self.throw("ReferenceError", "this"),
                }
            }
            Expr::LitArr(a) => {
                let mut v = vec![];
                for x in &a.stx.elements {
                    match x {
                        LitArrElem::Single(e) => v.push(Some(self.expr(env, e, c)?)),
                        LitArrElem::Rest(e) => {
                            let y = self.expr(env, e, c)?;
                            v.extend(self.iterate(&y)?.into_iter().map(Some));
                        }
                        LitArrElem::Empty => v.push(None),
                    }
                }
                let p = self.arr_proto;
                Obj(self.alloc(Kind::Array(v), Some(p)))
            }
            Expr::LitObj(o) => {
                let op = self.obj_proto;
                let n = self.alloc(Kind::Plain, Some(op));
                for m in &o.stx.members {
                    match &m.stx.typ {
                        ObjMemberType::Shorthand { id } => {
                            let v = self.get_var(env, &id.stx.name)?;
                            self.define(n, &s(&id.stx.name), Slot::Data(v, true, true));
                        }
                        ObjMemberType::Rest { val } => {
                            let v = self.expr(env, val, c)?;
                            self.copy_props(n, &v, &[])?;
                        }
                        ObjMemberType::Valued { key, val } => {
                            let k = self.key(env, key, c)?;
                            match val {
                                ClassOrObjVal::Prop(Some(e)) => {
                                    let v = self.expr(env, e, c)?;
                                    let is_proto = matches!(key, ClassOrObjKey::Direct(d) if d.stx.key == "__proto__");
                                    if is_proto {
                                        match v {
                                            Obj(p) => self.heap[n].proto = Some(p),
                                            Null => self.heap[n].proto = None,
                                            _ => {}
                                        }
                                    } else {
                                        self.define(n, &k, Slot::Data(v, true, true));
                                    }
                                }
                                ClassOrObjVal::Method(f) => {
                                    let fv = self.make_fn(&f.stx.func, env, c, Some(n), true)?;
                                    self.define(n, &k, Slot::Data(Obj(fv), true, true));
                                }
                                ClassOrObjVal::Getter(g) => {
                                    let fv = self.make_fn(&g.stx.func, env, c, Some(n), true)?;
                                    self.define(n, &k, Slot::Acc(Some(fv), None, true));
                                }
                                ClassOrObjVal::Setter(g) => {
                                    let fv = self.make_fn(&g.stx.func, env, c, Some(n), true)?;
                                    self.define(n, &k, Slot::Acc(None, Some(fv), true));
                                }
                                _ => return unsup("object member"),
                            }
                        }
                    }
                }
                Obj(n)
            }
            Expr::LitTemplate(t) => {
                let mut out: Vec<u16> = vec![];
                let tp = template_string_parts(&t.assoc).or_else(|| template_string_parts(&e.assoc));
                let mut si = 0;
                for p in &t.stx.parts {
                    match p {
                        LitTemplatePart::String(x) => {
                            let units: Option<Vec<u16>> = tp.and_then(|tp| tp.cooked.get(si).cloned().flatten()).map(|b| b.to_vec());
                            match units {
                                Some(u) => out.extend(u),
                                None => out.extend(x.encode_utf16()),
                            }
                            si += 1;
                        }
                        LitTemplatePart::Substitution(e) => {
                            let v = self.expr(env, e, c)?;
                            let v = self.to_str(&v)?;
                            out.extend_from_slice(&v);
                        }
                    }
                }
                Str(out.into())
            }
            Expr::TaggedTemplate(t) => {
                let Some((f, this)) = self.callee(env, &t.stx.function, c)? else { return Ok(Undef) };
                let tp = template_string_parts(&t.assoc).or_else(|| template_string_parts(&e.assoc));
                let (mut strs, mut raws) = (vec![], vec![]);
                let mut args = vec![];
                let mut si = 0;
                for p in &t.stx.parts {
                    match p {
                        LitTemplatePart::String(x) => {
                            match tp {
                                Some(tp) if si < tp.raw.len() => {
                                    strs.push(Some(match &tp.cooked[si] {
                                        Some(u) => Str(u[..].into()),
                                        None => Undef,
                                    }));
                                    raws.push(Some(Str(tp.raw[si][..].into())));
                                }
                                _ => {
                                    strs.push(Some(Str(s(x))));
                                    raws.push(Some(Str(s(x))));
                                }
                            }
                            si += 1;
                        }
                        LitTemplatePart::Substitution(e) => args.push(self.expr(env, e, c)?),
                    }
                }
                let ap = self.arr_proto;
                let r = self.alloc(Kind::Array(raws), Some(ap));
                let a = self.alloc(Kind::Array(strs), Some(ap));
                self.define(a, &s("raw"), Slot::Data(Obj(r), false, true));
                args.insert(0, Obj(a));
                if !self.callable(&f) {
                    return self.throw("TypeError", "tag");
                }
                self.call(&f, this, args, Undef)?
            }
            Expr::ArrowFunc(f) => Obj(self.make_fn(&f.stx.func, env, c, None, false)?),
            Expr::Func(f) => match &f.stx.name {
                Some(n) => {
                    let e2 = Scope::new(env, false);
                    let o = self.make_fn(&f.stx.func, &e2, c, None, false)?;
                    e2.declare(&n.stx.name, Some(Obj(o)), false);
                    e2.get_own(&n.stx.name).unwrap().borrow_mut().silent = true;
                    Obj(o)
                }
                None => Obj(self.make_fn(&f.stx.func, env, c, None, false)?),
            },
            Expr::Class(k) => Obj(self.class(env, k.stx.name.as_ref().map(|n| n.stx.name.as_str()), k.stx.extends.as_ref(), &k.stx.members, c)?),
            Expr::Member(_) | Expr::ComputedMember(_) | Expr::Call(_) => match self.chain(env, e, c)? {
                Some((v, _)) => v,
                None => Undef,
            },
            Expr::Cond(x) => {
                let t = self.expr(env, &x.stx.test, c)?;
                if self.truthy(&t) {
                    self.expr(env, &x.stx.consequent, c)?
                } else {
                    self.expr(env, &x.stx.alternate, c)?
                }
            }
            Expr::Unary(u) => return self.unary(env, u, c),
            Expr::UnaryPostfix(u) => {
                let r = self.reference(env, &u.stx.argument, c)?;
                let old = self.get_ref(env, &r)?;
                let old = self.to_numeric(&old)?;
                let one = if let Big(_) = old { Big(1) } else { Num(1.0) };
                let op = if u.stx.operator == Op::PostfixIncrement { Op::Addition } else { Op::Subtraction };
                let n = self.arith(op, old.clone(), one)?;
                self.put(env, r, n)?;
                old
            }
            Expr::Binary(b) => return self.binary(env, b, c),
            Expr::NewTarget(_) => c.newt.clone(),
            Expr::TypeAssertion(t) => self.expr(env, &t.stx.expression, c)?,
            Expr::NonNullAssertion(t) => self.expr(env, &t.stx.expression, c)?,
            Expr::SatisfiesExpr(t) => self.expr(env, &t.stx.expression, c)?,
            Expr::Instantiation(t) => self.expr(env, &t.stx.expression, c)?,
            Expr::IdPat(i) => self.get_var(env, &i.stx.name)?,
            _ => return unsup("expression kind"),
        })
    }
    fn unary(&mut self, env: &Env<'a>, u: &'a Node<UnaryExpr>, c: &ThisCtx) -> R<Val> {
        use Op::*;
        let a = &u.stx.argument;
        Ok(match u.stx.operator {
            LogicalNot => {
                let v = self.expr(env, a, c)?;
                Bool(!self.truthy(&v))
            }
            BitwiseNot => {
                let v = self.expr(env, a, c)?;
                match self.to_numeric(&v)? {
                    Num(n) => Num(!to_int32(n) as f64),
                    Big(b) => Big(!b),
                    _ => Undef,
                }
            }
            UnaryPlus => {
                let v = self.expr(env, a, c)?;
                Num(self.to_num(&v)?)
            }
            UnaryNegation => {
                let v = self.expr(env, a, c)?;
                match self.to_numeric(&v)? {
                    Num(n) => Num(-n),
                    Big(b) => Big(-b),
                    _ => Undef,
                }
            }
            PrefixIncrement | PrefixDecrement => {
                let r = self.reference(env, a, c)?;
                let old = self.get_ref(env, &r)?;
                let old = self.to_numeric(&old)?;
                let one = if let Big(_) = old { Big(1) } else { Num(1.0) };
                let op = if u.stx.operator == PrefixIncrement { Addition } else { Subtraction };
                let n = self.arith(op, old, one)?;
                self.put(env, r, n.clone())?;
                n
            }
            Typeof => {
                if let Expr::Id(i) = &*a.stx {
                    if self.find(env, &i.stx.name).is_none() && (self.host)(&i.stx.name).is_none() {
                        return Ok(Str(s("undefined")));
                    }
                }
                let v = self.expr(env, a, c)?;
                Str(s(match &v {
                    Undef => "undefined",
                    Null => "object",
                    Bool(_) => "boolean",
                    Num(_) => "number",
                    Str(_) => "string",
                    Big(_) => "bigint",
                    Obj(_) => {
                        if self.callable(&v) {
                            "function"
                        } else {
                            "object"
                        }
                    }
                }))
            }
            Void => {
                self.expr(env, a, c)?;
                Undef
            }
            Delete => {
                let mut t = a;
                while let Expr::NonNullAssertion(n) = &*t.stx {
                    t = &n.stx.expression;
                }
                match &*t.stx {
                    Expr::Member(m) => {
                        let Some((o, _)) = self.chain_part(env, &m.stx.left, c)? else { return Ok(Bool(true)) };
                        if m.stx.optional_chaining && matches!(o, Undef | Null) {
                            return Ok(Bool(true));
                        }
                        Bool(self.delete(&o, &s(&m.stx.right))?)
                    }
                    Expr::ComputedMember(m) => {
                        let Some((o, _)) = self.chain_part(env, &m.stx.object, c)? else { return Ok(Bool(true)) };
                        if m.stx.optional_chaining && matches!(o, Undef | Null) {
                            return Ok(Bool(true));
                        }
                        let k = self.expr(env, &m.stx.member, c)?;
                        if matches!(o, Undef | Null) {
                            return self.throw("TypeError", "nullish");
                        }
                        let k = self.to_key(&k)?;
                        Bool(self.delete(&o, &k)?)
                    }
                    Expr::Id(i) => match self.find(env, &i.stx.name) {
                        Some(Ok(_)) => Bool(false),
                        Some(Err(o)) => Bool(self.delete(&Obj(o), &s(&i.stx.name))?),
                        None => Bool(true),
                    },
                    _ => {
                        self.expr(env, a, c)?;
                        Bool(true)
                    }
                }
            }
            New => {
                // `new f(args)` is represented as a unary New over a call (or over a bare callee)
                let (callee, args) = match &*a.stx {
                    Expr::Call(x) if a.assoc.get::<ParenthesizedExpr>().is_none() => {
                        let f = self.expr(env, &x.stx.callee, c)?;
                        let ar = self.args(env, &x.stx.arguments, c)?;
                        (f, ar)
                    }
                    _ => (self.expr(env, a, c)?, vec![]),
                };
                let nt = callee.clone();
                self.construct(&callee, args, nt)?
            }
            o => return unsup(format!("unary {:?}", o)),
        })
    }
    fn binary(&mut self, env: &Env<'a>, b: &'a Node<BinaryExpr>, c: &ThisCtx) -> R<Val> {
        use Op::*;
        let op = b.stx.operator;
        let (l, r) = (&b.stx.left, &b.stx.right);
        Ok(match op {
            Comma => {
                self.expr(env, l, c)?;
                self.expr(env, r, c)?
            }
            LogicalAnd => {
                let v = self.expr(env, l, c)?;
                if self.truthy(&v) {
                    self.expr(env, r, c)?
                } else {
                    v
                }
            }
            LogicalOr => {
                let v = self.expr(env, l, c)?;
                if self.truthy(&v) {
                    v
                } else {
                    self.expr(env, r, c)?
                }
            }
            NullishCoalescing => {
                let v = self.expr(env, l, c)?;
                if matches!(v, Undef | Null) {
                    self.expr(env, r, c)?
                } else {
                    v
                }
            }
            Assignment => match &*l.stx {
                Expr::ArrPat(_) | Expr::ObjPat(_) => {
                    let v = self.expr(env, r, c)?;
                    self.bind_expr(env, l, v.clone(), c)?;
                    v
                }
                _ => {
                    let rf = self.reference(env, l, c)?;
                    let v = self.expr(env, r, c)?;
                    self.put(env, rf, v.clone())?;
                    v
                }
            },
            AssignmentLogicalAnd | AssignmentLogicalOr | AssignmentNullishCoalescing => {
                let rf = self.reference(env, l, c)?;
                let v = self.get_ref(env, &rf)?;
                let go = match op {
                    AssignmentLogicalAnd => self.truthy(&v),
                    AssignmentLogicalOr => !self.truthy(&v),
                    _ => matches!(v, Undef | Null),
                };
                if !go {
                    return Ok(v);
                }
                let v = self.expr(env, r, c)?;
                self.put(env, rf, v.clone())?;
                v
            }
            o if o.is_assignment() => {
                let base = match o {
                    AssignmentAddition => Addition,
                    AssignmentBitwiseAnd => BitwiseAnd,
                    AssignmentBitwiseLeftShift => BitwiseLeftShift,
                    AssignmentBitwiseOr => BitwiseOr,
                    AssignmentBitwiseRightShift => BitwiseRightShift,
                    AssignmentBitwiseUnsignedRightShift => BitwiseUnsignedRightShift,
                    AssignmentBitwiseXor => BitwiseXor,
                    AssignmentDivision => Division,
                    AssignmentExponentiation => Exponentiation,
                    AssignmentMultiplication => Multiplication,
                    AssignmentRemainder => Remainder,
                    AssignmentSubtraction => Subtraction,
                    _ => return unsup("assignment operator"),
                };
                let rf = self.reference(env, l, c)?;
                let v = self.get_ref(env, &rf)?;
                let x = self.expr(env, r, c)?;
                let v = self.binop(base, &v, &x)?;
                self.put(env, rf, v.clone())?;
                v
            }
            In if matches!(&*l.stx, Expr::Id(i) if i.stx.name.starts_with('#')) => {
                let Expr::Id(i) = &*l.stx else { unreachable!() };
                let v = self.expr(env, r, c)?;
                let Obj(o) = v else { return self.throw("TypeError", "in") };
                let k = self.member_key(env, &i.stx.name)?;
                Bool(self.own(o, &k).is_some())
            }
            _ => {
                let x = self.expr(env, l, c)?;
                let y = self.expr(env, r, c)?;
                self.binop(op, &x, &y)?
            }
        })
    }
    fn bind_expr(&mut self, env: &Env<'a>, l: &'a Node<Expr>, v: Val, c: &ThisCtx) -> R<()> {
        match &*l.stx {
            Expr::ArrPat(a) => {
                let items = self.iterate(&v)?;
                let mut it = items.into_iter();
                for e in &a.stx.elements {
                    let x = it.next().unwrap_or(Undef);
                    if let Some(e) = e {
                        self.bind_default(env, &e.target, e.default_value.as_ref(), x, None, c)?;
                    }
                }
                if let Some(r) = &a.stx.rest {
                    let ap = self.arr_proto;
                    let o = self.alloc(Kind::Array(it.map(Some).collect()), Some(ap));
                    self.bind(env, r, Obj(o), None, c)?;
                }
                Ok(())
            }
            Expr::ObjPat(o) => {
                if matches!(v, Undef | Null) {
                    return self.throw("TypeError", "destructure");
                }
                let mut used = vec![];
                for pr in &o.stx.properties {
                    let k = self.key(env, &pr.stx.key, c)?;
                    used.push(k.clone());
                    if let Pat::AssignTarget(e) = &*pr.stx.target.stx {
                        let r = self.reference(env, e, c)?;
                        let mut x = self.get(&v, &k)?;
                        if let (Undef, Some(d)) = (&x, &pr.stx.default_value) {
                            x = self.expr(env, d, c)?
                        }
                        self.put(env, r, x)?;
                        continue;
                    }
                    let x = self.get(&v, &k)?;
                    self.bind_default(env, &pr.stx.target, pr.stx.default_value.as_ref(), x, None, c)?;
                }
                if let Some(r) = &o.stx.rest {
                    let op = self.obj_proto;
                    let n = self.alloc(Kind::Plain, Some(op));
                    self.copy_props(n, &v, &used)?;
                    self.bind(env, r, Obj(n), None, c)?;
                }
                Ok(())
            }
            _ => unsup("pattern"),
        }
    }
    // ---------- builtins
    fn call_native(&mut self, n: &'static str, this: Val, args: Vec<Val>, newt: Val) -> R<Val> {
        let arg = |i: usize| args.get(i).cloned().unwrap_or(Undef);
        Ok(match n {
            "log" => {
                let mut t = String::from("log");
                for a in &args {
                    t.push(' ');
                    t.push_str(&self.render(a, 3));
                }
                self.trace.push(t);
                arg(0)
            }
            "h" => {
                let k = self.to_str(&arg(0))?;
                let nm = format!("h{}", show(&k));
                self.trace.push(nm.clone());
                (self.host)(&nm).unwrap_or(Undef)
            }
            x if BUILTIN_ERRORS.contains(&x) => {
                let e = self.make_error(x, "");
                if let (Obj(_), Obj(o)) = (&newt, &e) {
                    if let Obj(p) = self.get(&newt, &s("prototype"))? {
                        self.heap[*o].proto = Some(p);
                    }
                }
                if let Obj(o) = e {
                    if !matches!(arg(0), Undef) {
                        let m = self.to_str(&arg(0))?;
                        self.define(o, &s("message"), Slot::Data(Str(m), true, false));
                    }
                }
                e
            }
            "String" => {
                if !matches!(newt, Undef) {
                    return unsup("new String");
                }
                if args.is_empty() {
                    Str(s(""))
                } else {
                    Str(self.to_str(&arg(0))?)
                }
            }
            "Number" => {
                if !matches!(newt, Undef) {
                    return unsup("new Number");
                }
                if args.is_empty() {
                    Num(0.0)
                } else {
                    match self.to_numeric(&arg(0))? {
                        Big(b) => Num(b as f64),
                        v => v,
                    }
                }
            }
            "Boolean" => {
                if !matches!(newt, Undef) {
                    return unsup("new Boolean");
                }
                Bool(self.truthy(&arg(0)))
            }
            "Array" => {
                let p = self.arr_proto;
                if args.len() == 1 {
                    if let Num(n) = args[0] {
                        if !(0.0..1000.0).contains(&n) || n.fract() != 0.0 {
                            return self.throw("RangeError", "len");
                        }
                        return Ok(Obj(self.alloc(Kind::Array(vec![None; n as usize]), Some(p))));
                    }
                }
                Obj(self.alloc(Kind::Array(args.into_iter().map(Some).collect()), Some(p)))
            }
            "Object" => match arg(0) {
                Obj(o) => Obj(o),
                Undef | Null => {
                    let mut p = self.obj_proto;
                    if let Obj(_) = newt {
                        if let Obj(q) = self.get(&newt, &s("prototype"))? {
                            p = q;
                        }
                    }
                    Obj(self.alloc(Kind::Plain, Some(p)))
                }
                _ => return unsup("Object(primitive)"),
            },
            "isNaN" => {
                let x = self.to_num(&arg(0))?;
                Bool(x.is_nan())
            }
            "floor" | "ceil" | "abs" | "trunc" | "sign" => {
                let x = self.to_num(&arg(0))?;
                Num(match n {
                    "floor" => x.floor(),
                    "ceil" => x.ceil(),
                    "abs" => x.abs(),
                    "trunc" => x.trunc(),
                    _ => {
                        if x.is_nan() || x == 0.0 {
                            x
                        } else {
                            x.signum()
                        }
                    }
                })
            }
            "max" | "min" => {
                let mut r = if n == "max" { f64::NEG_INFINITY } else { f64::INFINITY };
                for a in &args {
                    let x = self.to_num(a)?;
                    if x.is_nan() || r.is_nan() {
                        r = f64::NAN
                    } else if n == "max" {
                        if x > r || (x == 0.0 && r == 0.0 && !x.is_sign_negative()) {
                            r = x
                        }
                    } else if x < r || (x == 0.0 && r == 0.0 && x.is_sign_negative()) {
                        r = x
                    }
                }
                Num(r)
            }
            "pow" => {
                let x = self.to_num(&arg(0))?;
                let y = self.to_num(&arg(1))?;
                Num(js_pow(x, y))
            }
            "call" => self.call(&this, arg(0), args.into_iter().skip(1).collect(), Undef)?,
            "apply" => {
                let a = match arg(1) {
                    Undef | Null => vec![],
                    v => self.iterate(&v)?,
                };
                self.call(&this, arg(0), a, Undef)?
            }
            "bind" => {
                let p = self.fn_proto;
                Obj(self.alloc(Kind::Bound(Box::new(this), Box::new(arg(0)), args.into_iter().skip(1).collect()), Some(p)))
            }
            "hasOwnProperty" => {
                let k = self.to_key(&arg(0))?;
                match this {
                    Obj(o) => Bool(self.own(o, &k).is_some()),
                    _ => Bool(false),
                }
            }
            "toString" => Str(s(match &this {
                Undef => "[object Undefined]",
                Null => "[object Null]",
                Obj(o) => match self.heap[*o].kind {
                    Kind::Array(_) => "[object Array]",
                    Kind::Func(_) | Kind::Native(_) | Kind::Bound(..) => "[object Function]",
                    Kind::Error => "[object Error]",
                    _ => "[object Object]",
                },
                _ => "[object Object]",
            })),
            "valueOf" => this,
            "toString:Number" if args.is_empty() || matches!(arg(0), Undef) => match &this {
                Num(_) | Big(_) => Str(self.to_str(&this)?),
                _ => return self.throw("TypeError", "Number.prototype.toString"),
            },
            "toString:Boolean" => match &this {
                Bool(_) => Str(self.to_str(&this)?),
                _ => return self.throw("TypeError", "toString"),
            },
            "valueOf:Number" | "valueOf:Boolean" | "valueOf:String" | "toString:String" => match &this {
                Obj(_) => return self.throw("TypeError", "valueOf"),
                _ => this,
            },
            "toString:Error" => {
                let a = self.get(&this, &s("name"))?;
                let b = self.get(&this, &s("message"))?;
                let (a, b) = (self.to_str(&a)?, self.to_str(&b)?);
                if b.is_empty() {
                    Str(a)
                } else {
                    Str(s(&format!("{}: {}", show(&a), show(&b))))
                }
            }
            "push" | "pop" | "shift" | "map" | "forEach" | "filter" | "join" | "slice" | "concat" | "indexOf" | "reduce" | "toString:Array" => {
                let Obj(o) = this else { return self.throw("TypeError", "array method") };
                let Kind::Array(mut v) = self.heap[o].kind.clone() else { return unsup("array method on object") };
                let ap = self.arr_proto;
                match n {
                    "push" => {
                        v.extend(args.into_iter().map(Some));
                        let l = v.len();
                        self.heap[o].kind = Kind::Array(v);
                        Num(l as f64)
                    }
                    "pop" => {
                        let r = v.pop().flatten().unwrap_or(Undef);
                        self.heap[o].kind = Kind::Array(v);
                        r
                    }
                    "shift" => {
                        if v.is_empty() {
                            return Ok(Undef);
                        }
                        let r = v.remove(0).unwrap_or(Undef);
                        self.heap[o].kind = Kind::Array(v);
                        r
                    }
                    "map" | "forEach" | "filter" => {
                        let mut out = vec![];
                        for (i, x) in v.into_iter().enumerate() {
                            let Some(x) = x else {
                                if n == "map" {
                                    out.push(None)
                                }
                                continue;
                            };
                            let r = self.call(&arg(0), arg(1), vec![x.clone(), Num(i as f64), Obj(o)], Undef)?;
                            match n {
                                "map" => out.push(Some(r)),
                                "filter" if self.truthy(&r) => out.push(Some(x)),
                                _ => {}
                            }
                        }
                        if n == "forEach" {
                            Undef
                        } else {
                            Obj(self.alloc(Kind::Array(out), Some(ap)))
                        }
                    }
                    "reduce" => {
                        let mut it = v.into_iter().flatten().enumerate();
                        let mut acc = if args.len() > 1 {
                            arg(1)
                        } else {
                            match it.next() {
                                Some(x) => x.1,
                                None => return self.throw("TypeError", "reduce"),
                            }
                        };
                        for (i, x) in it {
                            acc = self.call(&arg(0), Undef, vec![acc, x, Num(i as f64), Obj(o)], Undef)?;
                        }
                        acc
                    }
                    "join" | "toString:Array" => {
                        let sep = match arg(0) {
                            Undef => s(","),
                            _ if n != "join" => s(","),
                            x => self.to_str(&x)?,
                        };
                        let mut out: Vec<u16> = vec![];
                        for (i, x) in v.into_iter().enumerate() {
                            if i > 0 {
                                out.extend_from_slice(&sep);
                            }
                            match x {
                                None | Some(Undef) | Some(Null) => {}
                                Some(x) => {
                                    let t = self.to_str(&x)?;
                                    out.extend_from_slice(&t)
                                }
                            }
                        }
                        Str(out.into())
                    }
                    "slice" => {
                        let l = v.len() as f64;
                        let f = |x: f64| if x.is_nan() { 0.0 } else if x < 0.0 { (l + x.trunc()).max(0.0) } else { x.trunc().min(l) };
                        let a = f(self.to_num(&arg(0))?);
                        let b = match arg(1) {
                            Undef => l,
                            x => f(self.to_num(&x)?),
                        };
                        let out = if a < b { v[a as usize..b as usize].to_vec() } else { vec![] };
                        Obj(self.alloc(Kind::Array(out), Some(ap)))
                    }
                    "concat" => {
                        for a in &args {
                            match a {
                                Obj(x) => match &self.heap[*x].kind {
                                    Kind::Array(y) => v.extend(y.iter().cloned()),
                                    _ => v.push(Some(a.clone())),
                                },
                                _ => v.push(Some(a.clone())),
                            }
                        }
                        Obj(self.alloc(Kind::Array(v), Some(ap)))
                    }
                    _ => {
                        let mut r = -1.0;
                        for (i, x) in v.iter().enumerate() {
                            if let Some(x) = x {
                                if self.strict_eq(x, &arg(0)) {
                                    r = i as f64;
                                    break;
                                }
                            }
                        }
                        Num(r)
                    }
                }
            }
            "charAt" | "charCodeAt" | "slice:String" | "indexOf:String" | "trim" | "toUpperCase" | "toLowerCase" | "concat:String" | "repeat" => {
                if matches!(this, Undef | Null) {
                    return self.throw("TypeError", "string method");
                }
                let x = self.to_str(&this)?;
                match n {
                    "charAt" | "charCodeAt" => {
                        let i = self.to_num(&arg(0))?;
                        let i = if i.is_nan() { 0.0 } else { i.trunc() };
                        let ok = i >= 0.0 && i < x.len() as f64;
                        if n == "charAt" {
                            Str(if ok { x[i as usize..i as usize + 1].into() } else { s("") })
                        } else {
                            Num(if ok { x[i as usize] as f64 } else { f64::NAN })
                        }
                    }
                    "slice:String" => {
                        let l = x.len() as f64;
                        let f = |x: f64| if x.is_nan() { 0.0 } else if x < 0.0 { (l + x.trunc()).max(0.0) } else { x.trunc().min(l) };
                        let a = f(self.to_num(&arg(0))?);
                        let b = match arg(1) {
                            Undef => l,
                            y => f(self.to_num(&y)?),
                        };
                        Str(if a < b { x[a as usize..b as usize].into() } else { s("") })
                    }
                    "indexOf:String" => {
                        let y = self.to_str(&arg(0))?;
                        let mut r = -1.0;
                        for i in 0..=x.len() {
                            if x[i..].starts_with(&y) {
                                r = i as f64;
                                break;
                            }
                        }
                        Num(r)
                    }
                    "trim" => {
                        let (mut a, mut b) = (0, x.len());
                        while a < b && is_ws(x[a]) {
                            a += 1
                        }
                        while b > a && is_ws(x[b - 1]) {
                            b -= 1
                        }
                        Str(x[a..b].into())
                    }
                    "toUpperCase" => Str(s(&show(&x).to_uppercase())),
                    "toLowerCase" => Str(s(&show(&x).to_lowercase())),
                    "repeat" => {
                        let k = self.to_num(&arg(0))?;
                        if !(k >= 0.0 && k < 100.0) {
                            return unsup("repeat");
                        }
                        Str(x.repeat(k as usize).into())
                    }
                    _ => {
                        let mut v = x.to_vec();
                        for a in &args {
                            let t = self.to_str(a)?;
                            v.extend_from_slice(&t);
                        }
                        Str(v.into())
                    }
                }
            }
            "keys" => {
                let Obj(o) = arg(0) else { return unsup("Object.keys") };
                let ks: Vec<Option<Val>> = self.own_keys(o).into_iter().filter(|k| matches!(self.own(o, k), Some(Slot::Data(_, _, true) | Slot::Acc(_, _, true)))).map(|k| Some(Str(k))).collect();
                let ap = self.arr_proto;
                Obj(self.alloc(Kind::Array(ks), Some(ap)))
            }
            "assign" => {
                let Obj(o) = arg(0) else { return unsup("Object.assign") };
                for a in args.iter().skip(1) {
                    self.copy_props(o, a, &[])?;
                }
                Obj(o)
            }
            "freeze" => {
                if let Obj(o) = arg(0) {
                    self.heap[o].frozen = true;
                    for p in self.heap[o].props.iter_mut() {
                        if let Slot::Data(v, _, e) = p.1.clone() {
                            p.1 = Slot::Data(v, false, e);
                        }
                    }
                }
                arg(0)
            }
            "isArray" => Bool(matches!(arg(0), Obj(o) if matches!(self.heap[o].kind, Kind::Array(_)))),
            "getPrototypeOf" => match arg(0) {
                Obj(o) => self.heap[o].proto.map_or(Null, Obj),
                _ => return unsup("getPrototypeOf"),
            },
            "create" => match arg(0) {
                Obj(o) => Obj(self.alloc(Kind::Plain, Some(o))),
                _ => Obj(self.alloc(Kind::Plain, None)),
            },
            "defineProperty" => {
                let Obj(o) = arg(0) else { return self.throw("TypeError", "defineProperty") };
                let k = self.to_key(&arg(1))?;
                let d = arg(2);
                let g = self.get(&d, &s("get"))?;
                let st = self.get(&d, &s("set"))?;
                let en = self.get(&d, &s("enumerable"))?;
                let en = self.truthy(&en);
                if matches!(g, Obj(_)) || matches!(st, Obj(_)) {
                    let f = |v: Val| if let Obj(o) = v { Some(o) } else { None };
                    self.define(o, &k, Slot::Acc(f(g), f(st), en));
                } else {
                    let v = self.get(&d, &s("value"))?;
                    let w = self.get(&d, &s("writable"))?;
                    let w = self.truthy(&w);
                    self.define(o, &k, Slot::Data(v, w, en));
                }
                arg(0)
            }
            _ => return unsup(format!("builtin {}", n)),
        })
    }
    // ---------- program
    /// Runs a program; the result is its observable behaviour, or None when it
    /// uses something outside the interpreter or exceeds the step limit.
    pub fn run(&mut self, top: &'a Node<TopLevel>) -> Result<String, String> {
        let b = &top.stx.body;
        self.strict = self.module || is_use_strict(b);
        let this = if self.module { Undef } else { Obj(self.gobj) };
        let ctx = ThisCtx { this: Rc::new(RefCell::new(Some(this))), home: None, func: None, newt: Undef };
        let g = self.global.clone();
        let r = (|| -> R<()> {
            self.hoist_vars(&g, b, None, &[])?;
            let l = Scope::new(&g, false);
            self.hoist_imports(&l, b)?;
            self.hoist_lex(&l, &g, b, &ctx, true)?;
            self.stmts(&l, b, &ctx)?;
            // exported values and (script mode) global bindings are observable
            let mut out: Vec<(String, Val)> = vec![];
            for x in b.iter() {
                match &*x.stx {
                    Stmt::VarDecl(d) if d.stx.export => {
                        let mut ns = vec![];
                        for dd in &d.stx.declarators {
                            pat_names(&dd.pattern.stx.pat, &mut ns);
                        }
                        for n in ns {
                            let v = self.get_var(&l, n)?;
                            out.push((n.to_string(), v));
                        }
                    }
                    Stmt::FunctionDecl(f) if f.stx.export => {
                        let nm = if f.stx.export_default { "default" } else { &f.stx.name.as_ref().unwrap().stx.name };
                        if let Some(n) = &f.stx.name {
                            let v = self.get_var(&l, &n.stx.name)?;
                            out.push((nm.to_string(), v));
                        } else {
                            out.push((nm.to_string(), Obj(self.fn_proto)));
                        }
                    }
                    Stmt::ClassDecl(f) if f.stx.export && !f.stx.export_default => {
                        if let Some(n) = &f.stx.name {
                            let v = self.get_var(&l, &n.stx.name)?;
                            out.push((n.stx.name.clone(), v));
                        }
                    }
                    Stmt::ExportList(x) => match (&x.stx.names, &x.stx.from) {
                        _ if x.stx.type_only => {}
                        (ExportNames::Specific(v), None) => {
                            for n in v {
                                if n.stx.type_only {
                                    continue;
                                }
                                let val = self.get_var(&l, n.stx.exportable.as_str())?;
                                out.push((n.stx.alias.stx.name.clone(), val));
                            }
                        }
                        (ExportNames::Specific(v), Some(m)) => {
                            for n in v {
                                self.trace.push(format!("reexport {} {} {}", m, n.stx.exportable.as_str(), n.stx.alias.stx.name));
                            }
                        }
                        (ExportNames::All(a), m) => self.trace.push(format!("reexport* {:?} {:?}", m, a.as_ref().map(|a| a.stx.name.clone()))),
                    },
                    _ => {}
                }
            }
            out.sort_by(|a, b| a.0.cmp(&b.0));
            for (n, v) in out {
                // an exported function is observed by calling it
                if let Obj(o) = &v {
                    if let Kind::Func(f) = &self.heap[*o].kind {
                        if f.class.is_none() && f.func.map_or(false, |f| !f.stx.async_ && !f.stx.generator) {
                            self.trace.push(format!("call-export {}", n));
                            let args = vec![Num(1.0), Num(2.0), Num(3.0)];
                            match self.call(&v, Undef, args, Undef) {
                                Ok(r) => {
                                    let t = format!("-> {}", self.render(&r, 3));
                                    self.trace.push(t)
                                }
                                Err(Err::Throw(r)) => {
                                    let t = format!("-> throw {}", self.render(&r, 3));
                                    self.trace.push(t)
                                }
                                Err(e) => return Err(e),
                            }
                            continue;
                        }
                    }
                }
                self.trace_export(&n, &v);
            }
            Ok(())
        })();
        let end = match r {
            Ok(()) => "end".to_string(),
            Err(Err::Throw(v)) => format!("uncaught {}", self.render(&v, 3)),
            Err(Err::Unsupported(m)) => return Err(format!("unsupported: {}", m)),
            Err(Err::Limit) => return Err("limit".into()),
        };
        let mut t = self.trace.join("\n");
        t.push('\n');
        t.push_str(&end);
        Ok(t)
    }
    /// The values of global names after a script ran (sorted by name by the caller).
    pub fn global_value(&mut self, n: &str) -> String {
        let g = self.global.clone();
        if let (false, Some(b)) = (self.module, g.get_own(n)) {
            let v = b.borrow().v.clone();
            return v.map_or("tdz".into(), |v| self.render(&v, 3));
        }
        match self.lookup(self.gobj, &s(n)) {
            Some((_, Slot::Data(v, ..))) => self.render(&v, 3),
            _ => "absent".into(),
        }
    }
    fn hoist_imports(&mut self, env: &Env<'a>, b: &'a [Node<Stmt>]) -> R<()> {
        for x in b {
            if let Stmt::Import(i) = &*x.stx {
                if i.stx.type_only {
                    continue;
                }
                let m = &i.stx.module;
                self.trace.push(format!("import {}", m));
                let mut bindv: Vec<(&'a Node<PatDecl>, String)> = vec![];
                if let Some(d) = &i.stx.default {
                    bindv.push((d, "default".into()));
                }
                match &i.stx.names {
                    Some(ImportNames::All(p)) => bindv.push((p, "*".into())),
                    Some(ImportNames::Specific(v)) => {
                        for n in v {
                            if !n.stx.type_only {
                                bindv.push((&n.stx.alias, n.stx.importable.as_str().to_string()));
                            }
                        }
                    }
                    None => {}
                }
                for (p, n) in bindv {
                    let mut ns = vec![];
                    pat_names(&p.stx.pat, &mut ns);
                    let hn = format!("{}#{}", m, n);
                    let v = match (self.host)(&hn) {
                        Some(v) => v,
                        None => {
                            let fp = self.fn_proto;
                            Obj(self.alloc(Kind::Host(hn), Some(fp)))
                        }
                    };
                    for x in ns {
                        env.declare(x, Some(v.clone()), false);
                    }
                }
            }
        }
        Ok(())
    }
}
fn lex_names<'a>(st: &'a Node<Stmt>, out: &mut Vec<&'a str>) {
    match &*st.stx {
        Stmt::VarDecl(d) if !matches!(d.stx.mode, VarDeclMode::Var) => {
            for x in &d.stx.declarators {
                pat_names(&x.pattern.stx.pat, out)
            }
        }
        Stmt::ClassDecl(c) => {
            if let Some(n) = &c.stx.name {
                out.push(&n.stx.name)
            }
        }
        _ => {}
    }
}
fn arr_index(k: &S) -> Option<usize> {
    if k.is_empty() || k.len() > 6 || !k.iter().all(|c| (48..58).contains(c)) || (k.len() > 1 && k[0] == 48) {
        return None;
    }
    Some(k.iter().fold(0, |a, c| a * 10 + (*c as usize - 48)))
}
fn str_big(x: &S) -> Option<i128> {
    let t = show(x);
    let t = t.trim();
    if t.is_empty() {
        return Some(0);
    }
    t.parse().ok()
}

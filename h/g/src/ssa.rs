//! SSA construction, the passes over it, and its removal, against running the program.
use ahash::HashMap;
use optimize_js::analysis::defs::calculate_defs;
use optimize_js::cfg::cfg::{Cfg, CfgBBlocks, CfgGraph};
use optimize_js::dom::Dom;
use optimize_js::eval::consteval::{coerce_to_bool, maybe_eval_const_bin_expr};
use optimize_js::il::inst::*;
use optimize_js::opt::optpass_cfg_prune::optpass_cfg_prune;
use optimize_js::opt::optpass_dvn::optpass_dvn;
use optimize_js::opt::optpass_impossible_branches::optpass_impossible_branches;
use optimize_js::opt::optpass_redundant_assigns::optpass_redundant_assigns;
use optimize_js::opt::optpass_trivial_dce::optpass_trivial_dce;
use optimize_js::ssa::phi_simplify::{simplify_phis, validate_phis};
use optimize_js::ssa::ssa_deconstruct::deconstruct_ssa;
use optimize_js::ssa::ssa_insert_phis::insert_phis_for_ssa_construction;
use optimize_js::ssa::ssa_rename::rename_targets_for_ssa_construction;
use optimize_js::symbol::semantics::SymbolId;
use optimize_js::util::counter::Counter;
use parse_js::num::JsNumber;
use std::collections::BTreeMap;
use symrt::*;

/// a value: a known one, or an unknown one by the way it came about
#[derive(Clone, PartialEq)]
pub enum V {
    C(Const),
    O(String),
}
fn num(n: f64) -> Const {
    Const::Num(JsNumber(n))
}
/// a number where -0 and 0 are two
fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::C(Const::Num(x)), V::C(Const::Num(y))) => x.0.to_bits() == y.0.to_bits() || x.0.is_nan() && y.0.is_nan(),
        _ => a == b,
    }
}
pub fn txt(v: &V) -> String {
    match v {
        V::C(c) => format!("{c:?}"),
        V::O(s) => s.clone(),
    }
}
pub fn truthy(v: &V) -> bool {
    match v {
        V::C(c) => coerce_to_bool(c),
        // (what is not known counts as true)
        V::O(_) => true,
    }
}
pub fn bin(op: BinOp, l: &V, r: &V) -> V {
    match (l, r) {
        (V::C(a), V::C(b)) => match maybe_eval_const_bin_expr(op, a, b) {
            Some(c) => V::C(c),
            None => V::O(format!("({a:?}{op:?}{b:?})")),
        },
        // (something is known of it, or nothing)
        (V::O(a), V::O(b)) if op == BinOp::StrictEq && a == b => V::C(Const::Bool(true)),
        (V::O(_), V::C(Const::Undefined | Const::Null)) if matches!(op, BinOp::StrictEq | BinOp::LooseEq) => V::C(Const::Bool(false)),
        (V::O(_), V::C(Const::Undefined | Const::Null)) if matches!(op, BinOp::NotStrictEq | BinOp::NotLooseEq) => V::C(Const::Bool(true)),
        _ => V::O(format!("({}{op:?}{})", txt(l), txt(r))),
    }
}
/// What the host answers to the calls, in their order: chosen when it is first asked
pub struct Host {
    pub answers: Vec<u8>,
    pub max: usize,
}
const NAMES: [&str; 8] = ["a0", "a1", "a2", "a3", "a4", "a5", "a6", "a7"];
impl Host {
    pub fn new(max: usize) -> Host {
        Host { answers: vec![], max }
    }
    pub fn answer(&mut self, k: usize) -> V {
        // (afterwards always false, so that loops end)
        if k >= self.max {
            return V::C(num(0.0));
        }
        while self.answers.len() <= k {
            self.answers.push(choose(NAMES[self.answers.len()], 2) as u8);
        }
        match self.answers[k] {
            0 => V::C(num(0.0)),
            _ => V::O(format!("h{k}")),
        }
    }
}
#[derive(PartialEq, Clone, Debug)]
pub enum End {
    Done,
    Fuel,
    Stuck(&'static str),
}
pub struct Run {
    pub trace: Vec<(String, Vec<V>)>,
    pub end: End,
}
/// the program as it is at one stage
pub trait Code {
    fn block(&self, l: u32) -> Option<&Vec<Inst>>;
    fn children(&self, l: u32) -> Vec<u32>;
}
impl Code for Cfg {
    fn block(&self, l: u32) -> Option<&Vec<Inst>> {
        self.bblocks.maybe_get(l)
    }
    fn children(&self, l: u32) -> Vec<u32> {
        self.graph.children_sorted(l)
    }
}
pub fn run(code: &dyn Code, entry: u32, fuel: usize, host: &mut Host) -> Run {
    let mut vars: BTreeMap<u32, V> = BTreeMap::new();
    let mut cells: BTreeMap<String, V> = BTreeMap::new();
    let mut trace: Vec<(String, Vec<V>)> = vec![];
    let (mut calls, mut writes) = (0usize, 0usize);
    let mut at = entry;
    let mut from = u32::MAX;
    let mut left = fuel;
    loop {
        if left == 0 {
            return Run { trace, end: End::Fuel };
        }
        left -= 1;
        let Some(block) = code.block(at) else {
            return Run { trace, end: End::Stuck("a block is missing") };
        };
        let get = |vars: &BTreeMap<u32, V>, a: &Arg| match a {
            Arg::Const(c) => V::C(c.clone()),
            Arg::Var(v) => vars.get(v).cloned().unwrap_or(V::C(Const::Undefined)),
            Arg::Builtin(p) => V::O(p.clone()),
            Arg::Fn(f) => V::O(format!("fn{f}")),
        };
        // all phis of a block take effect together
        let mut phis: Vec<(u32, V)> = vec![];
        let mut n = 0;
        while n < block.len() && block[n].t == InstTyp::Phi {
            let i = &block[n];
            let Some(k) = i.labels.iter().position(|l| *l == from) else {
                return Run { trace, end: End::Stuck("a phi has no value for the way control came") };
            };
            phis.push((i.tgts[0], get(&vars, &i.args[k])));
            n += 1;
        }
        for (t, v) in phis {
            vars.insert(t, v);
        }
        let mut next: Option<u32> = None;
        for (k, i) in block.iter().enumerate().skip(n) {
            match i.t {
                InstTyp::VarAssign => {
                    let v = get(&vars, &i.args[0]);
                    vars.insert(i.tgts[0], v);
                }
                InstTyp::Bin => {
                    let (l, r) = (get(&vars, &i.args[0]), get(&vars, &i.args[1]));
                    let v = if i.bin_op == BinOp::GetProp {
                        let key = format!("{}.{}", txt(&l), txt(&r));
                        match cells.get(&key) {
                            Some(v) => v.clone(),
                            None => V::O(format!("{key}@{calls}.{writes}")),
                        }
                    } else {
                        bin(i.bin_op, &l, &r)
                    };
                    vars.insert(i.tgts[0], v);
                }
                InstTyp::Un => {
                    let v = get(&vars, &i.args[0]);
                    let v = match (i.un_op, &v) {
                        (UnOp::Not, v) => V::C(Const::Bool(!truthy(v))),
                        (UnOp::Void, _) => V::C(Const::Undefined),
                        (UnOp::Neg, V::C(Const::Num(n))) => V::C(num(-n.0)),
                        (UnOp::Plus, V::C(Const::Num(n))) => V::C(num(n.0)),
                        (op, v) => V::O(format!("({op:?}{})", txt(v))),
                    };
                    vars.insert(i.tgts[0], v);
                }
                InstTyp::Call => {
                    let a: Vec<V> = i.args.iter().map(|a| get(&vars, a)).collect();
                    let v = host.answer(calls);
                    calls += 1;
                    // (the host may write what it likes)
                    cells.clear();
                    trace.push((format!("call {:?}", i.spreads), a));
                    if let Some(t) = i.tgts.first() {
                        vars.insert(*t, v);
                    }
                }
                InstTyp::PropAssign => {
                    let a: Vec<V> = i.args.iter().map(|a| get(&vars, a)).collect();
                    // (what the object is another name for is not known)
                    writes += 1;
                    cells.retain(|k, _| !k.contains('.') || k.starts_with(&format!("{}.", txt(&a[0]))));
                    cells.insert(format!("{}.{}", txt(&a[0]), txt(&a[1])), a[2].clone());
                    trace.push(("prop".to_string(), a));
                }
                InstTyp::ForeignStore => {
                    let v = get(&vars, &i.args[0]);
                    cells.insert(format!("f{:?}", i.foreign), v.clone());
                    trace.push((format!("f{:?}", i.foreign), vec![v]));
                }
                InstTyp::ForeignLoad => {
                    let key = format!("f{:?}", i.foreign);
                    let v = cells.get(&key).cloned().unwrap_or_else(|| V::O(format!("{key}@{calls}")));
                    vars.insert(i.tgts[0], v);
                }
                InstTyp::UnknownStore => {
                    let v = get(&vars, &i.args[0]);
                    cells.insert(format!("u{}", i.unknown), v.clone());
                    trace.push((format!("u{}", i.unknown), vec![v]));
                }
                InstTyp::UnknownLoad => {
                    let key = format!("u{}", i.unknown);
                    let v = if i.unknown == "g" { V::O("g".to_string()) } else { cells.get(&key).cloned().unwrap_or_else(|| V::O(format!("{key}@{calls}"))) };
                    vars.insert(i.tgts[0], v);
                }
                InstTyp::CondGoto => {
                    if k + 1 != block.len() {
                        return Run { trace, end: End::Stuck("a jump inside a block") };
                    }
                    next = Some(if truthy(&get(&vars, &i.args[0])) { i.labels[0] } else { i.labels[1] });
                }
                _ => return Run { trace, end: End::Stuck("an instruction that cannot be there") },
            }
        }
        let kids = code.children(at);
        let to = match next {
            Some(l) => {
                if !kids.contains(&l) {
                    return Run { trace, end: End::Stuck("a jump along no edge") };
                }
                l
            }
            None => match kids.len() {
                0 => return Run { trace, end: End::Done },
                1 => kids[0],
                _ => return Run { trace, end: End::Stuck("two ways on and no condition") },
            },
        };
        from = at;
        at = to;
    }
}
/// what the later stage does is what the first one did
pub fn agree(was: &Run, now: &Run, what: &str, short: bool) {
    if let End::Stuck(s) = &now.end {
        note("stage", what.as_bytes());
        fail(s);
    }
    let eq = |a: &(String, Vec<V>), b: &(String, Vec<V>)| a.0 == b.0 && a.1.len() == b.1.len() && a.1.iter().zip(&b.1).all(|(x, y)| same(x, y));
    let n = was.trace.len().min(now.trace.len());
    let mut ok = (0..n).all(|i| eq(&was.trace[i], &now.trace[i]));
    match was.end {
        End::Done => ok &= now.end == End::Done && now.trace.len() == was.trace.len(),
        // (it is given more steps than the first one, and a program that loops forever has to go on doing so)
        _ => ok &= (now.end == End::Fuel || short) && now.trace.len() >= was.trace.len(),
    }
    if !ok {
        note("stage", what.as_bytes());
        let show = |r: &Run| {
            let mut s = String::new();
            for (k, a) in &r.trace {
                s += &format!("{k}({}); ", a.iter().map(txt).collect::<Vec<_>>().join(","));
            }
            format!("{s}{:?}", r.end)
        };
        note("before", show(was).as_bytes());
        note("after", show(now).as_bytes());
        fail("the program does something else");
    }
}
const FUEL: usize = 24;

/// the passes as build_program_function runs them, with the program run after each
fn pipeline(mut cfg: Cfg, max_var: u32, max_label: u32, host: &mut Host) {
    let was = run(&cfg, cfg.entry, FUEL, host);
    if let End::Stuck(s) = &was.end {
        fail(s);
    }
    let mut c_temp = Counter::new(max_var);
    let mut c_label = Counter::new(max_label);
    cfg.find_and_pop_unreachable();
    let mut defs = calculate_defs(&cfg);
    let mut dom = Dom::calculate(&cfg);
    insert_phis_for_ssa_construction(&mut defs, &mut cfg, &dom);
    rename_targets_for_ssa_construction(&mut cfg, &dom, &mut c_temp);
    let stage = |cfg: &Cfg, host: &mut Host, what: &str| {
        let mut seen = ahash::HashSet::default();
        for (_, b) in cfg.bblocks.all() {
            for i in b {
                for t in &i.tgts {
                    if !seen.insert(*t) {
                        note("stage", what.as_bytes());
                        fail("a variable is assigned in two places");
                    }
                }
            }
        }
        if validate_phis(cfg).is_err() {
            note("stage", what.as_bytes());
            fail("invalid phis");
        }
        let now = run(cfg, cfg.entry, 2 * FUEL, host);
        agree(&was, &now, what, false);
    };
    stage(&cfg, host, "ssa");
    let mut rounds = 0;
    loop {
        let mut any = optpass_dvn(&mut cfg, &dom).any_change();
        stage(&cfg, host, "dvn");
        any |= optpass_trivial_dce(&mut cfg).any_change();
        stage(&cfg, host, "dce");
        any |= optpass_redundant_assigns(&mut cfg).any_change();
        stage(&cfg, host, "redundant_assigns");
        any |= optpass_impossible_branches(&mut cfg).any_change();
        stage(&cfg, host, "impossible_branches");
        any |= optpass_cfg_prune(&mut cfg).any_change();
        stage(&cfg, host, "cfg_prune");
        if !any {
            break;
        }
        dom = Dom::calculate(&cfg);
        rounds += 1;
        if rounds > 12 {
            fail("the passes do not come to an end");
        }
    }
    // a pass that reports no change has made none
    deconstruct_ssa(&mut cfg, &mut c_label);
    if cfg.bblocks.all().any(|(_, b)| b.iter().any(|i| i.t == InstTyp::Phi)) {
        fail("a phi is left");
    }
    let now = run(&cfg, cfg.entry, 3 * FUEL, host);
    agree(&was, &now, "deconstruct", false);
    cover("run");
    if was.end == End::Done && host.answers.len() > 1 {
        cover("branches");
    }
}
fn v(i: u32) -> Arg {
    Arg::Var(i)
}
fn g() -> Arg {
    Arg::Builtin("g".to_string())
}
fn undef() -> Arg {
    Arg::Const(Const::Undefined)
}
fn c(n: f64) -> Arg {
    Arg::Const(num(n))
}
fn call(t: Option<u32>, a: Vec<Arg>) -> Inst {
    Inst::call(t, g(), undef(), a, vec![])
}
/// What a block can hold: x is 0, y is 1, a temporary is 2
fn body(k: usize) -> Vec<Inst> {
    match k {
        0 => vec![],
        1 => vec![Inst::var_assign(0, c(1.0))],
        2 => vec![Inst::var_assign(1, v(0))],
        3 => vec![call(None, vec![v(0), v(1)])],
        4 => vec![call(Some(0), vec![v(1)])],
        5 => vec![Inst::var_assign(2, v(0)), Inst::var_assign(0, v(1)), Inst::var_assign(1, v(2))],
        6 => vec![Inst::bin(0, v(0), BinOp::Add, c(1.0))],
        7 => vec![Inst::var_assign(0, v(1))],
        8 => vec![Inst::un(1, UnOp::Not, v(0))],
        _ => vec![Inst::var_assign(1, c(0.0))],
    }
}
/// What a block can hold where it touches what others can see
fn touch(k: usize) -> Vec<Inst> {
    let o = || Arg::Fn(5);
    let a = || Arg::Const(Const::Str("a".to_string()));
    match k {
        0 => vec![],
        1 => vec![Inst::bin(0, o(), BinOp::GetProp, a())],
        2 => vec![Inst::bin(1, o(), BinOp::GetProp, a()), call(None, vec![v(1)])],
        3 => vec![Inst::prop_assign(o(), a(), v(0))],
        4 => vec![call(None, vec![v(0)])],
        5 => vec![Inst::foreign_load(0, SymbolId(3))],
        6 => vec![Inst::foreign_store(SymbolId(3), v(1))],
        7 => vec![Inst::unknown_load(1, "u".to_string())],
        8 => vec![Inst::unknown_store("u".to_string(), v(0))],
        9 => vec![Inst::bin(2, v(0), BinOp::Sub, v(1)), Inst::bin(3, v(0), BinOp::Sub, v(1)), call(None, vec![v(2), v(3)])],
        _ => vec![Inst::var_assign(1, v(0)), Inst::bin(0, v(1), BinOp::GetProp, a())],
    }
}
/// (successors, the first when the condition holds)
type Shape = &'static [&'static [u32]];
const SHAPES: [Shape; 8] = [
    // if, if-else, loop, loop with a test at its end
    &[&[1, 2], &[2], &[]],
    &[&[1, 2], &[3], &[3], &[]],
    &[&[1], &[2, 3], &[1], &[]],
    &[&[1], &[1, 2], &[]],
    // an if inside a loop, a loop inside a loop, a loop left in its middle, two entries
    &[&[1], &[2, 3], &[1], &[1, 4], &[]],
    &[&[1], &[2, 4], &[2, 3], &[1], &[]],
    &[&[1], &[2, 4], &[3, 4], &[1], &[]],
    &[&[1, 2], &[2, 3], &[1], &[]],
];
fn build(shape: Shape, blocks: Vec<Vec<Inst>>, conds: &[Arg]) -> Cfg {
    let mut g = CfgGraph::default();
    let mut bblocks = CfgBBlocks::default();
    for (i, s) in shape.iter().enumerate() {
        let mut b = blocks[i].clone();
        for t in s.iter() {
            g.connect(i as u32, *t);
        }
        if s.len() == 2 {
            b.push(Inst::cond_goto(conds[i].clone(), s[0], s[1]));
        }
        bblocks.add(i as u32, b);
    }
    Cfg { graph: g, bblocks, entry: 0 }
}
fn shown(shape: Shape, blocks: &[Vec<Inst>], conds: &[Arg]) {
    let mut s = String::new();
    for i in 0..shape.len() {
        s += &format!("{i}:");
        for k in &blocks[i] {
            s += &format!(" {:?}{:?}{:?}{}", k.t, k.tgts, k.args, if k.t == InstTyp::Bin { format!("{:?}", k.bin_op) } else { String::new() });
        }
        match shape[i].len() {
            2 => s += &format!(" if {:?} -> {} else {}\n", conds[i], shape[i][0], shape[i][1]),
            1 => s += &format!(" -> {}\n", shape[i][0]),
            _ => s += " end\n",
        }
    }
    note("program", s.as_bytes());
}
fn warm() {
    let mut h = Host { answers: vec![1, 0], max: 2 };
    let cfg = build(SHAPES[2], vec![body(4), body(6), body(3), body(3)], &[v(0), v(0), v(0), v(0)]);
    pipeline(cfg, 4, 10, &mut h);
    let mut h = Host { answers: vec![1, 0], max: 2 };
    let cfg = build(SHAPES[1], vec![touch(4), touch(3), touch(9), touch(2)], &[v(0), v(0), v(0), v(0)]);
    pipeline(cfg, 4, 10, &mut h);
    cover("run");
    cover("branches");
}
/// (shapes with three blocks to fill get the first `big` of the menu)
fn go(shapes: usize, menu: &dyn Fn(usize) -> Vec<Inst>, small: u64, big: u64, extra: bool, first: &dyn Fn() -> Vec<Inst>) {
    warm();
    let shape = SHAPES[choose("shape", shapes as u64) as usize];
    let three = shape.iter().filter(|s| !s.is_empty()).count() > 3;
    let n = if three { big } else { small };
    let mut blocks = vec![first()];
    let mut conds = vec![v(0)];
    for i in 1..shape.len() {
        if shape[i].is_empty() {
            blocks.push(vec![call(None, vec![v(0), v(1)])]);
            conds.push(v(0));
            continue;
        }
        blocks.push(menu(choose(["b0", "b1", "b2", "b3", "b4"][i], n) as usize));
        conds.push(if shape[i].len() == 2 && choose("cond", 2) == 1 { v(1) } else { v(0) });
    }
    if extra && !(three && big < small) && choose("more at the start", 2) == 1 {
        blocks[0].extend(menu(choose("b0", n) as usize));
    }
    shown(shape, &blocks, &conds);
    let cfg = build(shape, blocks, &conds);
    pipeline(cfg, 4, 10, &mut Host::new(3));
}
/// Variables through joins and loops
#[no_mangle]
pub extern "C" fn ss_flow() {
    go(8, &body, 10, 6, true, &|| vec![call(Some(0), vec![]), call(Some(1), vec![])]);
}
#[no_mangle]
pub extern "C" fn ss_flow2() {
    go(8, &body, 10, 10, true, &|| vec![call(Some(0), vec![]), call(Some(1), vec![])]);
}
/// Properties, variables of other functions and of nobody
#[no_mangle]
pub extern "C" fn ss_touch() {
    go(4, &touch, 11, 11, true, &|| vec![call(Some(0), vec![])]);
}
/// Constants: what can be worked out, and the branches it decides
#[no_mangle]
pub extern "C" fn ss_const() {
    go(8, &body, 8, 5, false, &|| match choose("start", 4) {
        0 => vec![Inst::var_assign(0, c(0.0))],
        1 => vec![Inst::var_assign(0, c(0.0)), Inst::var_assign(1, c(1.0))],
        2 => vec![Inst::var_assign(1, c(1.0)), call(Some(0), vec![])],
        _ => vec![],
    });
}
#[no_mangle]
pub extern "C" fn ss_const2() {
    go(8, &body, 10, 10, true, &|| match choose("start", 4) {
        0 => vec![Inst::var_assign(0, c(0.0))],
        1 => vec![Inst::var_assign(0, c(0.0)), Inst::var_assign(1, c(1.0))],
        2 => vec![Inst::var_assign(1, c(1.0)), call(Some(0), vec![])],
        _ => vec![],
    });
}
/// Phis as they come: simplifying them and taking them away keeps what they select
#[no_mangle]
pub extern "C" fn ss_phis() {
    warm();
    // 0 branches to 1 and 2, both go on to 3; 3 loops or ends in 4
    let shape: Shape = &[&[1, 2], &[3], &[3], &[3, 4], &[]];
    let arg = |name: &'static str| match choose(name, 5) {
        0 => v(10),
        1 => v(11),
        2 => v(12),
        3 => v(13),
        _ => c(7.0),
    };
    let mut b3 = vec![];
    let n = 1 + choose("phis", 2) as u32;
    for k in 0..n {
        let mut p = Inst::phi_empty(10 + k);
        let (from1, from2) = if choose("values before", 2) == 0 { (v(12), v(13)) } else { (c(1.0), v(12)) };
        let back = arg(["p0", "p1"][k as usize]);
        let order = choose("order", 2);
        if order == 0 {
            p.insert_phi(1, from1);
            p.insert_phi(2, from2);
            p.insert_phi(3, back);
        } else {
            p.insert_phi(3, back);
            p.insert_phi(2, from2);
            p.insert_phi(1, from1);
        }
        b3.push(p);
    }
    b3.push(call(Some(14), vec![v(10), v(11)]));
    let blocks = vec![vec![call(Some(12), vec![]), call(Some(13), vec![])], vec![], vec![call(None, vec![v(12)])], b3, vec![call(None, vec![v(10), v(11), v(12)])]];
    let conds = [v(12), undef(), undef(), v(14), undef()];
    shown(shape, &blocks, &conds);
    let mut cfg = build(shape, blocks, &conds);
    let mut host = Host::new(5);
    let was = run(&cfg, 0, FUEL, &mut host);
    if let End::Stuck(s) = &was.end {
        fail(s);
    }
    simplify_phis(&mut cfg);
    check(validate_phis(&cfg).is_ok(), "invalid phis");
    agree(&was, &run(&cfg, 0, FUEL, &mut host), "simplify", false);
    let dom = Dom::calculate(&cfg);
    if choose("pass", 2) == 1 {
        optpass_dvn(&mut cfg, &dom);
        agree(&was, &run(&cfg, 0, FUEL, &mut host), "dvn", false);
        optpass_trivial_dce(&mut cfg);
        optpass_redundant_assigns(&mut cfg);
        agree(&was, &run(&cfg, 0, FUEL, &mut host), "assigns", false);
    }
    deconstruct_ssa(&mut cfg, &mut Counter::new(10));
    agree(&was, &run(&cfg, 0, 2 * FUEL, &mut host), "deconstruct", false);
    let _: HashMap<u32, u32> = HashMap::default();
    cover("phis");
}

//! The symbolic interpreter: one worker explores a depth-first stack of states.
static PER_MSG: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};

pub struct Frame { pub code: *const Code, pub pc: u32, pub base: u32, pub site: *const Site, pub stack: u64 }
impl Clone for Frame { fn clone(&self) -> Self { Frame { code: self.code, pc: self.pc, base: self.base, site: self.site, stack: self.stack } } }

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>, pub vals: Vec<u64>, pub syms: Vec<E>,
    pub mem: Mem, pub stack: u64,
    pub cons: Vec<E>, pub model: Option<Rc<Vec<u64>>>,
    pub dom: Vec<[u64; 4]>, pub fixed: u128, pub multi: u128,
    pub trace: Vec<D>, pub replay: VecDeque<D>, pub op_dec: Vec<D>, pub op_at: u64,
    pub icount: u64, pub notes: Vec<(String, Vec<(u8, E)>)>, pub err: Vec<u8>, pub covers: Vec<u32>, pub clock: u64, pub keys: u64,
    pub tls: BTreeMap<u64, u64>, pub forks: u32,
    /// constraints before the first decision of the current operation: a fork re-executes the whole operation
    pub snap: (usize, Vec<[u64; 4]>, u128, u128),
}
#[derive(Clone)]
pub struct Job { pub entry: usize, pub trace: Vec<D> }
/// One decision: value taken and where (function, pc), so that a diverging replay is noticed at once.
pub type D = (u64, u32);

#[derive(Clone, Debug)]
pub struct Violation { pub entry: usize, pub kind: String, pub msg: String, pub inputs: Vec<(String, u8, u64)>, pub notes: Vec<(String, String)> }
#[derive(Clone)]
pub struct Sample { pub entry: usize, pub inputs: Vec<(String, u8, u64)>, pub notes: Vec<(String, String)> }
#[derive(Default, Clone)]
pub struct EntryStats { pub paths: u64, pub symbolic_paths: u64, pub assumed_out: u64, pub forks: u64, pub asserts: u64, pub symbolic_asserts: u64, pub instrs: u64, pub covers: BTreeMap<String, u64>, pub incomplete: BTreeMap<String, u64>, pub max_forks: u64, pub samples: Vec<Sample>, pub violations: Vec<Violation>, pub nviol: u64, pub maxvars: u64 }

pub struct Shared<'p> {
    pub prog: &'p Program, pub entries: Vec<(String, u32)>,
    pub queue: Mutex<VecDeque<Job>>, pub cv: Condvar, pub idle: AtomicUsize, pub busy: AtomicUsize, pub stop: AtomicBool,
    pub deadline: std::time::Instant, pub max_instr: u64, pub max_viol: u64, pub nsamples: usize, pub nworkers: usize, pub z3_all: bool,
    pub viols: AtomicUsize,
}

#[derive(Debug)]
pub enum End { Done, Assume, Violation(String, String), Incomplete(String), Abort }
pub enum Flow { Next, End(End) }
type Rs<T> = Result<T, End>;

pub struct Worker<'p> {
    pub sh: &'p Shared<'p>, pub a: Arena, pub z: Z3<'p>,
    pub stack: Vec<State>, pub entry: usize,
    pub stats: Vec<EntryStats>, pub seen: Vec<bool>,
    cache: HashMap<Vec<E>, (Res, Vec<(usize, u64)>)>,
    pub confirmed: u32, pub asserted: u32, pub z3_only: bool,
    pub cover_names: Vec<String>, pub dom_decided: u64, pub cache_hits: u64, pub model_hits: u64,
    truth: FxMap<E, [u64; 4]>,
    image: &'p [u8],
}

macro_rules! inc { ($($t:tt)*) => { End::Incomplete(format!($($t)*)) } }

fn bit(d: &[u64; 4], v: usize) -> bool { d[v >> 6] >> (v & 63) & 1 != 0 }

impl<'p> Worker<'p> {
    pub fn new(sh: &'p Shared<'p>, z: Z3<'p>) -> Worker<'p> {
        Worker { sh, a: Arena::new(), z, stack: vec![], entry: 0, stats: vec![EntryStats::default(); sh.entries.len()], seen: vec![false; sh.prog.funcs.len()], cache: HashMap::new(), cover_names: vec![], dom_decided: 0, cache_hits: 0, model_hits: 0, truth: Default::default(), confirmed: 0, asserted: 0, z3_only: false, image: &sh.prog.image }
    }
    pub fn run_all(&mut self) {
        loop {
            let job = {
                let mut q = self.sh.queue.lock().unwrap();
                loop {
                    if self.sh.stop.load(Relaxed) { self.sh.cv.notify_all(); return }
                    if let Some(j) = q.pop_front() { self.sh.busy.fetch_add(1, SeqCst); break j }
                    if self.sh.busy.load(SeqCst) == 0 { self.sh.cv.notify_all(); return }
                    self.sh.idle.fetch_add(1, SeqCst);
                    let r = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap(); q = r.0;
                    self.sh.idle.fetch_sub(1, SeqCst);
                }
            };
            self.entry = job.entry;
            let st = self.initial(job);
            self.stack.push(st);
            while let Some(mut st) = self.stack.pop() {
                let t = if self.sh.stop.load(Relaxed) { Some("stopped: a violation was already found or a limit was hit") }
                    else if std::time::Instant::now() > self.sh.deadline { Some("time budget exhausted") } else { None };
                if let Some(t) = t { *self.stats[self.entry].incomplete.entry(t.into()).or_default() += 1; continue }
                let i0 = st.icount;
                let end = self.run(&mut st);
                self.stats[self.entry].instrs += st.icount - i0;
                self.finish(&mut st, end);
            }
            self.sh.busy.fetch_sub(1, SeqCst);
            self.sh.cv.notify_all();
        }
    }
    fn initial(&mut self, job: Job) -> State {
        let id = self.sh.entries[job.entry].1;
        let code = self.sh.prog.code(id) as *const Code;
        let n = unsafe { (*code).nslots } as usize;
        self.seen[id as usize] = true;
        State { frames: vec![Frame { code, pc: 0, base: 0, site: std::ptr::null(), stack: STACK_BASE + 64 }], vals: vec![0; n], syms: vec![0; n], mem: Mem::new(), stack: STACK_BASE + 64, cons: vec![], model: Some(Rc::new(vec![])), dom: vec![], fixed: 0, multi: 0, trace: vec![], replay: job.trace.into(), op_dec: vec![], op_at: u64::MAX, icount: 0, notes: vec![], err: vec![], covers: vec![], clock: 1_000_000_000, keys: 0x5eed, tls: BTreeMap::new(), forks: 0, snap: Default::default() }
    }
    fn inputs(&self, model: &[u64]) -> Vec<(String, u8, u64)> {
        self.a.vars.iter().enumerate().map(|(i, v)| (v.name.clone(), v.w, model.get(i).copied().unwrap_or(0) & m64(v.w))).collect()
    }
    fn render(&mut self, notes: &[(String, Vec<(u8, E)>)], model: &[u64]) -> Vec<(String, String)> {
        notes.iter().map(|(k, b)| (k.clone(), b.iter().map(|(v, e)| format!("{:02x}", if *e == 0 { *v } else { self.a.eval(*e, model) as u8 })).collect::<String>())).collect()
    }
    fn finish(&mut self, st: &mut State, end: End) {
        let e = self.entry;
        self.stats[e].max_forks = self.stats[e].max_forks.max(st.forks as u64);
        for c in st.covers.clone() { let n = self.cover_names[c as usize].clone(); *self.stats[e].covers.entry(n).or_default() += 1; }
        match end {
            End::Done => {
                self.stats[e].paths += 1;
                if !st.cons.is_empty() { self.stats[e].symbolic_paths += 1 }
                let k = self.stats[e].paths;
                // cross-check of the value-domain procedure: the path condition of a finished path is satisfiable
                if !st.cons.is_empty() && self.confirmed < 4000 && (k & (k - 1) == 0 || k % 64 == 0) {
                    self.confirmed += 1;
                    let vars: Vec<usize> = (0..self.a.vars.len()).collect();
                    let cons = st.cons.clone();
                    if let (Res::Unsat, _) = self.z.check(&self.a, &cons, &vars) { *self.stats[e].incomplete.entry("engine: finished path refuted by the solver".into()).or_default() += 1; }
                }
                if self.stats[e].samples.len() < self.sh.nsamples && (k & (k - 1) == 0 || k % 97 == 0) {
                    if let Ok(m) = self.model(st) { let notes = st.notes.clone(); let n = self.render(&notes, &m); let inputs = self.inputs(&m); self.stats[e].samples.push(Sample { entry: e, inputs, notes: n }) }
                }
            }
            End::Assume => self.stats[e].assumed_out += 1,
            End::Incomplete(m) => {
                if m.starts_with("instruction limit") && self.stats[e].violations.iter().filter(|v| v.kind == "limit").count() < 3 {
                    if let Ok(model) = self.model(st) { let notes = st.notes.clone(); let n = self.render(&notes, &model); let inputs = self.inputs(&model); self.stats[e].violations.push(Violation { entry: e, kind: "limit".into(), msg: m.clone(), inputs, notes: n }) }
                }
                if std::env::var_os("RSX_DEBUG").is_some() { for (k, b) in &st.notes { eprintln!("incomplete: {} | {} = {}", m, k, String::from_utf8_lossy(&b.iter().map(|x| x.0).collect::<Vec<_>>())) } }
                *self.stats[e].incomplete.entry(m).or_default() += 1
            }
            End::Abort | End::Violation(..) => {
                let (kind, msg) = match end { End::Violation(k, m) => (k, m), _ => ("panic".to_string(), String::from_utf8_lossy(&st.err).into_owned()) };
                // the whole path condition must be satisfiable: ask the solver, whatever decided the branches
                let vars: Vec<usize> = (0..self.a.vars.len()).collect();
                let cons = st.cons.clone();
                let (r, m) = self.z.check(&self.a, &cons, &vars);
                match r {
                    Res::Unsat => { *self.stats[e].incomplete.entry(format!("engine: path to '{}' not confirmed by the solver", msg)).or_default() += 1; }
                    Res::Unknown => { *self.stats[e].incomplete.entry("solver unknown on a violating path".into()).or_default() += 1; }
                    Res::Sat => {
                        let mut model = vec![0u64; self.a.vars.len()];
                        for (i, v) in m { model[i] = v }
                        let notes = st.notes.clone();
                        let n = self.render(&notes, &model);
                        let inputs = self.inputs(&model);
                        self.stats[e].paths += 1;
                        self.stats[e].nviol += 1;
                        // known findings are reported by the harness itself and never end the search
                        let known = msg.starts_with("KNOWN:");
                        let vs = &mut self.stats[e].violations;
                        let same = vs.iter().filter(|v| v.msg == msg).count();
                        if same == 0 && vs.len() < 64 || same < *PER_MSG.get_or_init(|| std::env::var("RSX_PER_MSG").ok().and_then(|x| x.parse().ok()).unwrap_or(3)) && (vs.len() as u64) < self.sh.max_viol { vs.push(Violation { entry: e, kind, msg, inputs, notes: n }); }
                        if !known { let tot = self.sh.viols.fetch_add(1, SeqCst) as u64 + 1; if tot >= self.sh.max_viol * 4 { self.sh.stop.store(true, SeqCst) } }
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------- constraints
    fn small(&self, v: usize) -> bool { self.a.vars[v].w <= 8 }
    fn truth(&mut self, e: E, v: usize) -> [u64; 4] {
        if let Some(t) = self.truth.get(&e) { return *t }
        let n = 1usize << self.a.vars[v].w;
        let mut m = vec![0u64; v + 1];
        let mut t = [0u64; 4];
        for x in 0..n { m[v] = x as u64; if self.a.eval(e, &m) != 0 { t[x >> 6] |= 1 << (x & 63) } }
        self.truth.insert(e, t);
        t
    }
    fn ensure_dom(&self, st: &mut State) { while st.dom.len() < self.a.vars.len() { let w = self.a.vars[st.dom.len()].w; st.dom.push(if w >= 8 { [!0; 4] } else { let n = 1u32 << w; let mut d = [0u64; 4]; for i in 0..n as usize { d[i >> 6] |= 1 << (i & 63) } d }) } }
    fn add(&mut self, st: &mut State, e: E) {
        let n = self.a.n[e as usize];
        if n.k == K::Const { return }
        if n.k == K::And && n.w == 1 { self.add(st, n.a); self.add(st, n.b); return }
        if st.cons.contains(&e) { return }
        st.cons.push(e);
        self.ensure_dom(st);
        let vs = self.a.vars_of(e);
        if vs.len() == 1 && self.small(vs[0]) {
            let t = self.truth(e, vs[0]);
            let d = &mut st.dom[vs[0]];
            for i in 0..4 { d[i] &= t[i] }
            let c: u32 = d.iter().map(|x| x.count_ones()).sum();
            if c == 1 { st.fixed |= 1 << vs[0]; if let Some(m) = &mut st.model { let v = (0..256).find(|i| bit(d, *i)).unwrap() as u64; if m.get(vs[0]).copied().unwrap_or(0) != v { let mm = Rc::make_mut(m); if mm.len() <= vs[0] { mm.resize(vs[0] + 1, 0) } mm[vs[0]] = v; } } }
        } else {
            for v in &vs { st.multi |= 1 << v }
            if n.k == K::Eq && self.a.n[n.a as usize].k == K::Var && self.a.cval(n.b).is_some() {
                let v = self.a.n[n.a as usize].v as usize; let c = self.a.cval(n.b).unwrap() as u64;
                st.fixed |= 1 << v;
                st.fixed_set(v, c);
            }
        }
    }
    fn model(&mut self, st: &mut State) -> Rs<Rc<Vec<u64>>> {
        if let Some(m) = &st.model { return Ok(m.clone()) }
        self.ensure_dom(st);
        // variables without joint constraints: any value of their domain
        let nv = self.a.vars.len();
        let mut model = vec![0u64; nv];
        let mut vars = vec![]; let mut mask = 0u128;
        for i in 0..nv {
            if st.multi >> i & 1 == 0 && self.small(i) { match (0..256).find(|x| bit(&st.dom[i], *x)) { Some(x) => model[i] = x as u64, None => return Err(inc!("engine: empty domain")) } }
            else { vars.push(i); mask |= 1 << i }
        }
        let cons: Vec<E> = st.cons.iter().copied().filter(|c| self.a.mask(*c) & mask != 0).collect();
        if cons.is_empty() { let m = Rc::new(model); st.model = Some(m.clone()); return Ok(m) }
        let (r, m) = self.z.check(&self.a, &cons, &vars);
        match r {
            Res::Sat => { for (i, v) in m { model[i] = v } let m = Rc::new(model); st.model = Some(m.clone()); Ok(m) }
            Res::Unsat => Err(inc!("engine: inconsistent path condition")),
            Res::Unknown => Err(inc!("solver unknown")),
        }
    }
    /// Is `e` possible on this path? On success the new values of the variables that matter.
    fn query(&mut self, st: &mut State, e: E) -> Rs<Option<Vec<(usize, u64)>>> {
        if let Some(c) = self.a.cval(e) { return Ok(if c != 0 { Some(vec![]) } else { None }) }
        self.ensure_dom(st);
        let vs = self.a.vars_of(e);
        if vs.len() == 1 && self.small(vs[0]) && !self.sh.z3_all && !self.z3_only {
            let v = vs[0];
            let t = self.truth(e, v);
            let d = st.dom[v];
            let hit = (0..256).find(|i| bit(&d, *i) && bit(&t, *i));
            match hit {
                None => { self.dom_decided += 1; return Ok(None) }
                Some(x) if st.multi >> v & 1 == 0 => { self.dom_decided += 1; return Ok(Some(vec![(v, x as u64)])) }
                _ => {}
            }
        }
        // constraints connected to e through shared variables
        let mut mask = self.a.mask(e);
        let mut pick = vec![];
        let mut left: Vec<E> = st.cons.clone();
        loop {
            let before = pick.len();
            left.retain(|c| if self.a.mask(*c) & mask != 0 { pick.push(*c); false } else { true });
            for c in &pick[before..] { mask |= self.a.mask(*c) }
            if pick.len() == before { break }
        }
        pick.sort_unstable();
        pick.push(e);
        if let Some((r, m)) = self.cache.get(&pick) { self.cache_hits += 1; return match r { Res::Sat => Ok(Some(m.clone())), Res::Unsat => Ok(None), Res::Unknown => Err(inc!("solver unknown")) } }
        let mut vars = vec![]; let mut mm = mask; while mm != 0 { vars.push(mm.trailing_zeros() as usize); mm &= mm - 1 }
        let (r, m) = self.z.check(&self.a, &pick, &vars);
        self.cache.insert(pick, (r, m.clone()));
        match r { Res::Sat => Ok(Some(m)), Res::Unsat => Ok(None), Res::Unknown => Err(inc!("solver unknown")) }
    }
    fn upd(m: &Rc<Vec<u64>>, ch: &[(usize, u64)]) -> Rc<Vec<u64>> { let mut v = (**m).clone(); for (i, x) in ch { if v.len() <= *i { v.resize(*i + 1, 0) } v[*i] = *x } Rc::new(v) }

    /// A decision point: alternatives (value, condition). Continues with one feasible alternative and
    /// queues the others. Recorded in the trace so that another worker can replay the prefix.
    fn decide(&mut self, st: &mut State, alts: &[(u64, E)]) -> Rs<u64> {
        st.op_begin();
        if let Some(v) = self.next_replay(st)? {
            let (_, c) = *alts.iter().find(|x| x.0 == v).ok_or_else(|| { if std::env::var_os("RSX_DEBUG").is_some() { let f = st.frames.last().unwrap(); eprintln!("diverged at trace {} of {}: want {} have {:?} in {} pc {} icount {} trace {:?}", st.trace.len(), st.trace.len() + st.replay.len(), v, alts.iter().map(|x| x.0).collect::<Vec<_>>(), self.sh.prog.funcs[unsafe { (*f.code).id } as usize].name, f.pc, st.icount, st.trace); } inc!("engine: replay diverged") })?;
            if let Some(m) = &st.model { let m = m.clone(); if self.a.eval(c, &m) == 0 { st.model = None } }
            self.take(st, v, c);
            return Ok(v);
        }
        let m = self.model(st)?;
        let mut first: Option<(u64, E)> = None;
        let mut others: Vec<(u64, E, Rc<Vec<u64>>)> = vec![];
        for (v, c) in alts {
            if first.is_none() && self.a.eval(*c, &m) != 0 { first = Some((*v, *c)); self.model_hits += 1; continue }
            if let Some(ch) = self.query(st, *c)? { let m2 = Self::upd(&m, &ch); others.push((*v, *c, m2)) }
        }
        let (v, c) = first.ok_or_else(|| inc!("engine: no alternative holds under the model"))?;
        if !others.is_empty() {
            self.stats[self.entry].forks += others.len() as u64;
            st.forks += 1;
            for (ov, _oc, om) in others.into_iter().rev() {
                let mut s2 = st.clone();
                let keep = s2.trace.len() - s2.op_dec.len();
                s2.trace.truncate(keep);
                s2.replay = s2.op_dec.drain(..).collect();
                s2.replay.push_back((ov, Self::tag(st)));
                s2.op_at = u64::MAX;
                s2.cons.truncate(s2.snap.0); s2.dom = s2.snap.1.clone(); s2.fixed = s2.snap.2; s2.multi = s2.snap.3;
                s2.model = Some(om);
                self.stack.push(s2);
            }
            if self.sh.idle.load(Relaxed) > 0 && self.stack.len() > 1 { self.donate() }
        }
        self.take(st, v, c);
        Ok(v)
    }
    fn donate(&mut self) {
        let mut q = self.sh.queue.lock().unwrap();
        let n = self.sh.idle.load(Relaxed).saturating_sub(q.len());
        for _ in 0..n {
            if self.stack.len() <= 1 { break }
            let s = self.stack.remove(0);
            let mut t = s.trace; t.extend(s.replay);
            q.push_back(Job { entry: self.entry, trace: t });
        }
        self.sh.cv.notify_all();
    }
    fn take(&mut self, st: &mut State, v: u64, c: E) { let d = (v, Self::tag(st)); st.trace.push(d); st.op_dec.push(d); self.add(st, c); }
    fn tag(st: &State) -> u32 { let f = st.frames.last().unwrap(); unsafe { (*f.code).id.wrapping_mul(0x10001).wrapping_add(f.pc) } }
    fn next_replay(&mut self, st: &mut State) -> Rs<Option<u64>> {
        match st.replay.pop_front() {
            None => Ok(None),
            Some((v, t)) => {
                if t != Self::tag(st) {
                    if std::env::var_os("RSX_DEBUG").is_some() { let f = st.frames.last().unwrap(); eprintln!("diverged at trace {} of {}: want {} at {} have {} in {} pc {} icount {} trace {:?}", st.trace.len(), st.trace.len() + st.replay.len(), v, t, Self::tag(st), self.sh.prog.funcs[unsafe { (*f.code).id } as usize].name, f.pc, st.icount, st.trace); let c = unsafe { &*f.code }; let lo = (f.pc as usize).saturating_sub(14); for i in lo..=f.pc as usize { eprintln!("   {} {:?}", i, c.ops[i]) } }
                    return Err(inc!("engine: replay diverged"));
                }
                Ok(Some(v))
            }
        }
    }
    pub fn branch(&mut self, st: &mut State, c: E) -> Rs<bool> {
        let c = self.simp(st, c)?;
        if let Some(v) = self.a.cval(c) { return Ok(v != 0) }
        let n = self.a.not(c);
        Ok(self.decide(st, &[(1, c), (0, n)])? != 0)
    }
    /// Evaluate under fixed variables; make expensive expressions concrete in their (small) variables.
    fn simp(&mut self, st: &mut State, e: E) -> Rs<E> {
        let mask = self.a.mask(e);
        if mask == 0 { return Ok(e) }
        if mask & !st.fixed == 0 { let m = self.model(st)?; let v = self.a.eval(e, &m); let w = self.a.w(e); return Ok(self.a.konst(v, w)) }
        if self.a.m[e as usize].cost > 3000 { return self.concretize_vars(st, e) }
        Ok(e)
    }
    fn concretize_vars(&mut self, st: &mut State, e: E) -> Rs<E> {
        for v in self.a.vars_of(e) {
            if st.fixed >> v & 1 == 0 { if !self.small(v) { return Ok(e) } }
        }
        for v in self.a.vars_of(e) { if st.fixed >> v & 1 == 0 { self.decide_var(st, v)?; } }
        let m = self.model(st)?; let x = self.a.eval(e, &m); let w = self.a.w(e);
        Ok(self.a.konst(x, w))
    }
    fn decide_var(&mut self, st: &mut State, v: usize) -> Rs<u64> {
        self.ensure_dom(st);
        let (name, w) = (self.a.vars[v].name.clone(), self.a.vars[v].w);
        let ve = self.a.var(&name, w);
        let d = st.dom[v];
        let mut alts = vec![];
        for x in 0..(1usize << w) { if bit(&d, x) { let k = self.a.konst(x as u128, w); let c = self.a.bin(K::Eq, ve, k); alts.push((x as u64, c)) } }
        if alts.len() == 1 { return Ok(alts[0].0) }
        self.decide(st, &alts)
    }
    /// Concrete value of an expression, forking over every feasible one.
    pub fn concretize(&mut self, st: &mut State, e: E) -> Rs<u64> {
        let e = self.simp(st, e)?;
        if let Some(v) = self.a.cval(e) { return Ok(v as u64) }
        let vs: Vec<usize> = self.a.vars_of(e).into_iter().filter(|v| st.fixed >> v & 1 == 0).collect();
        if vs.iter().all(|v| self.small(*v)) && vs.len() <= 2 {
            for v in vs { self.decide_var(st, v)?; }
            let e = self.simp(st, e)?;
            return self.a.cval(e).map(|v| v as u64).ok_or_else(|| inc!("engine: concretize"));
        }
        st.op_begin();
        let w = self.a.w(e);
        if let Some(v) = self.next_replay(st)? { let k = self.a.konst(v as u128, w); let c = self.a.bin(K::Eq, e, k); self.take(st, v, c); st.model = None; return Ok(v) }
        // enumerate with the solver
        let mut alts = vec![];
        let mut ex = self.a.konst(1, 1);
        loop {
            match self.query(st, ex)? {
                None => break,
                Some(ch) => {
                    let m0 = self.model(st)?; let m = Self::upd(&m0, &ch);
                    let v = self.a.eval(e, &m);
                    let k = self.a.konst(v, w); let c = self.a.bin(K::Eq, e, k);
                    alts.push((v as u64, c));
                    let n = self.a.not(c); ex = self.a.and1(ex, n);
                    if alts.len() > 256 { return Err(inc!("more than 256 values to enumerate")) }
                }
            }
        }
        self.decide(st, &alts)
    }

    // ---------------------------------------------------------------- memory with symbolic content
    fn load_sym(&mut self, st: &State, a: u64, n: usize) -> Rs<(u64, E)> {
        // little endian; returns expression of n*8 bits
        let f = |f: Fault| End::Violation("memory fault".into(), format!("load at {:#x}", f.0));
        let (b0, s0) = st.mem.byte(a, self.image).map_err(f)?;
        let mut e = if s0 != 0 { s0 } else { self.a.konst(b0 as u128, 8) };
        for j in 1..n {
            let (b, s) = st.mem.byte(a.wrapping_add(j as u64), self.image).map_err(f)?;
            let x = if s != 0 { s } else { self.a.konst(b as u128, 8) };
            e = self.a.concat(x, e);
        }
        Ok((0, e))
    }
    fn load(&mut self, st: &mut State, a: u64, n: usize, w: u8) -> Rs<(u64, E)> {
        match st.mem.read(a, n, self.image) {
            Ok(Some(v)) => Ok((v & m64(w), 0)),
            Ok(None) => { let (_, e) = self.load_sym(st, a, n)?; let e = self.a.extract(e, 0, w); if let Some(v) = self.a.cval(e) { return Ok((v as u64, 0)) } Ok((0, e)) }
            Err(f) => Err(End::Violation("memory fault".into(), format!("load of {} bytes at {:#x}", n, f.0))),
        }
    }
    fn store(&mut self, st: &mut State, a: u64, v: u64, e: E, n: usize) -> Rs<()> {
        let f = |f: Fault| End::Violation("memory fault".into(), format!("store at {:#x}", f.0));
        if e == 0 { return st.mem.write(a, v, n, self.image).map_err(f) }
        let e = self.a.zext(e, (n * 8) as u8);
        for j in 0..n {
            let b = self.a.extract(e, (8 * j) as u8, 8);
            let (cv, ce) = match self.a.cval(b) { Some(x) => (x as u8, 0), None => (0, b) };
            st.mem.set_byte(a.wrapping_add(j as u64), cv, ce, self.image).map_err(f)?;
        }
        Ok(())
    }
    fn load_symaddr(&mut self, st: &mut State, ae: E, n: usize, w: u8) -> Rs<(u64, E)> {
        let ae = self.simp(st, ae)?;
        if let Some(a) = self.a.cval(ae) { return self.load(st, a as u64, n, w) }
        let vs: Vec<usize> = self.a.vars_of(ae).into_iter().filter(|v| st.fixed >> v & 1 == 0).collect();
        if vs.len() == 1 && self.small(vs[0]) {
            let v = vs[0];
            self.ensure_dom(st);
            let mut m = (*self.model(st)?).clone();
            if m.len() <= v { m.resize(v + 1, 0) }
            let d = st.dom[v];
            let mut pts: Vec<(u64, E)> = vec![];
            for x in 0..256usize { if bit(&d, x) { m[v] = x as u64; let a = self.a.eval(ae, &m) as u64;
                if let Ok((c, e)) = self.load(st, a, n, w) { let e = if e == 0 { self.a.konst(c as u128, w) } else { e }; pts.push((x as u64, e)) }
                else { let vw = self.a.vars[v].w; let name = self.a.vars[v].name.clone(); let ve = self.a.var(&name, vw); let k = self.a.konst(x as u128, vw); let c = self.a.bin(K::Eq, ve, k); if self.query(st, c)?.is_some() { return { let a = self.concretize(st, ae)?; self.load(st, a, n, w) } } } } }
            if !pts.is_empty() {
                let (vw, name) = (self.a.vars[v].w, self.a.vars[v].name.clone());
                let ve = self.a.var(&name, vw);
                // group runs of equal content
                let mut runs: Vec<(u64, E)> = vec![]; // (first value, content)
                for (x, e) in pts { if runs.last().map_or(true, |r| r.1 != e) { runs.push((x, e)) } }
                fn build(w: &mut Worker, ve: E, vw: u8, r: &[(u64, E)]) -> E {
                    if r.len() == 1 { return r[0].1 }
                    let mid = r.len() / 2;
                    let l = build(w, ve, vw, &r[..mid]); let h = build(w, ve, vw, &r[mid..]);
                    let k = w.a.konst(r[mid].0 as u128, vw); let c = w.a.bin(K::Ult, ve, k);
                    w.a.ite(c, l, h)
                }
                // use equality for the common "one special value" shapes
                let e = build(self, ve, vw, &runs);
                if let Some(c) = self.a.cval(e) { return Ok((c as u64, 0)) }
                return Ok((0, e));
            }
        }
        let a = self.concretize(st, ae)?;
        self.load(st, a, n, w)
    }

    // ---------------------------------------------------------------- main loop
    pub fn run(&mut self, st: &mut State) -> End {
        match self.run2(st) { Ok(e) => e, Err(e) => e }
    }
    fn run2(&mut self, st: &mut State) -> Rs<End> {
        let prog = self.sh.prog;
        let image = self.image;
        'frame: loop {
            let fr = st.frames.last().unwrap();
            let code: &'p Code = unsafe { &*fr.code };
            let base = fr.base as usize;
            let mut pc = fr.pc as usize;
            let need = base + code.nslots as usize;
            if st.vals.len() < need { st.vals.resize(need, 0); st.syms.resize(need, 0); }
            let vp = unsafe { st.vals.as_mut_ptr().add(base) };
            let sp = unsafe { st.syms.as_mut_ptr().add(base) };
            let cp = code.consts.as_ptr();
            let ops = code.ops.as_ptr();
            macro_rules! v { ($r:expr) => {{ let r = $r; unsafe { if r & CBIT != 0 { *cp.add((r ^ CBIT) as usize) } else { *vp.add(r as usize) } } }} }
            macro_rules! s { ($r:expr) => {{ let r = $r; unsafe { if r & CBIT != 0 { 0 } else { *sp.add(r as usize) } } }} }
            macro_rules! set { ($r:expr, $v:expr, $s:expr) => {{ let r = $r as usize; debug_assert!(r < code.nslots as usize, "bad slot {} of {} in {} pc {} {:?}", r, code.nslots, self.sh.prog.funcs[code.id as usize].name, pc, code.ops[pc]); unsafe { *vp.add(r) = $v; *sp.add(r) = $s; } }} }
            // operand as expression of width w
            macro_rules! ex { ($r:expr, $w:expr) => {{ let (r, w) = ($r, $w); let e = s!(r); if e == 0 { self.a.konst(v!(r) as u128, w) } else { let e = if self.a.mask(e) & !st.fixed == 0 { self.simp(st, e)? } else { e }; let ew = self.a.w(e); if ew < w { self.a.zext(e, w) } else if ew > w { self.a.extract(e, 0, w) } else { e } } }} }
            macro_rules! sete { ($r:expr, $e:expr) => {{ let e = $e; match self.a.cval(e) { Some(c) => set!($r, c as u64, 0), None => set!($r, 0, e) } }} }
            macro_rules! sync { () => { st.frames.last_mut().unwrap().pc = pc as u32 } }
            macro_rules! goto { ($e:expr) => {{
                let e = unsafe { code.edges.get_unchecked($e as usize) };
                if !e.moves.is_empty() {
                    if !e.par { for (d, s) in e.moves.iter() { let (a, b) = (v!(*s), s!(*s)); set!(*d, a, b) } }
                    else { let t: Vec<(u64, E)> = e.moves.iter().map(|(_, s)| (v!(*s), s!(*s))).collect(); for ((d, _), (a, b)) in e.moves.iter().zip(t) { set!(*d, a, b) } }
                }
                pc = e.pc as usize;
            }} }
            // a concrete address
            macro_rules! addr { ($r:expr) => {{ let r = $r; let e = s!(r); if e == 0 { v!(r) } else { sync!(); self.concretize(st, e)? } }} }
            loop {
                st.icount += 1;
                let op = unsafe { &*ops.add(pc) };
                match op {
                    Op::Mov { d, s } => { let (a, b) = (v!(*s), s!(*s)); set!(*d, a, b); pc += 1 }
                    Op::Bin { k, w, d, a, b } => {
                        let (sa, sb) = (s!(*a), s!(*b));
                        if sa | sb == 0 {
                            let (x, y) = (v!(*a), v!(*b));
                            let w = *w;
                            let r = match k {
                                K::Add => x.wrapping_add(y) & m64(w), K::Sub => x.wrapping_sub(y) & m64(w), K::Mul => x.wrapping_mul(y) & m64(w),
                                K::And => x & y, K::Or => x | y, K::Xor => x ^ y,
                                K::Shl => if y >= w as u64 { 0 } else { (x << y) & m64(w) }, K::LShr => if y >= w as u64 { 0 } else { x >> y },
                                K::UDiv | K::URem | K::SDiv | K::SRem if y == 0 => return Err(End::Violation("arithmetic".into(), "division by zero".into())),
                                K::UDiv => x / y, K::URem => x % y,
                                _ => apply(*k, w, w, x as u128, y as u128, 0, 0) as u64,
                            };
                            set!(*d, r, 0)
                        } else {
                            sync!();
                            let (x, y) = (ex!(*a, *w), ex!(*b, *w));
                            let r = self.a.bin(*k, x, y); sete!(*d, r)
                        }
                        pc += 1
                    }
                    Op::Icmp { k, neg, w, d, a, b } => {
                        let (sa, sb) = (s!(*a), s!(*b));
                        if sa | sb == 0 {
                            let (x, y) = (v!(*a), v!(*b));
                            let r = match k { K::Eq => x == y, K::Ult => x < y, _ => { let s = 64 - *w as u32; ((x << s) as i64) < ((y << s) as i64) } };
                            set!(*d, (r ^ *neg) as u64, 0)
                        } else {
                            sync!();
                            let (x, y) = (ex!(*a, *w), ex!(*b, *w));
                            let mut r = self.a.bin(*k, x, y); if *neg { r = self.a.not(r) } sete!(*d, r)
                        }
                        pc += 1
                    }
                    Op::Trunc { w, d, a } => { let e = s!(*a); if e == 0 { set!(*d, v!(*a) & m64(*w), 0) } else if self.a.w(e) <= *w { set!(*d, 0, e) } else { let r = self.a.extract(e, 0, *w); sete!(*d, r) } pc += 1 }
                    Op::SExt { wf, wt, d, a } => { let e = s!(*a); if e == 0 { let x = v!(*a); let sh = 64 - *wf as u32; set!(*d, (((x << sh) as i64 >> sh) as u64) & m64(*wt), 0) } else { sync!(); let x = ex!(*a, *wf); let r = self.a.sext(x, *wt); sete!(*d, r) } pc += 1 }
                    Op::Select { d, c, a, b, w } => {
                        let e = s!(*c);
                        if e == 0 { let r = if v!(*c) & 1 != 0 { *a } else { *b }; let (x, y) = (v!(r), s!(r)); set!(*d, x, y) }
                        else { sync!(); let c = ex!(*c, 1); let (x, y) = (ex!(*a, *w), ex!(*b, *w)); let r = self.a.ite(c, x, y); sete!(*d, r) }
                        pc += 1
                    }
                    Op::Gep { d, base, idx, iw, scale } => {
                        let (sb, si) = (s!(*base), s!(*idx));
                        if sb | si == 0 { let x = v!(*idx); let sh = 64 - *iw as u32; let x = (x << sh) as i64 >> sh; set!(*d, v!(*base).wrapping_add(x.wrapping_mul(*scale) as u64), 0) }
                        else { sync!(); let b = ex!(*base, 64); let i = ex!(*idx, *iw); let i = self.a.sext(i, 64); let k = self.a.konst(*scale as u64 as u128, 64); let m = self.a.bin(K::Mul, i, k); let r = self.a.bin(K::Add, b, m); sete!(*d, r) }
                        pc += 1
                    }
                    Op::Load { d, p, off, bytes, w } => {
                        let e = s!(*p);
                        if e == 0 {
                            let a = v!(*p).wrapping_add(*off as u64);
                            match st.mem.read(a, *bytes as usize, image) {
                                Ok(Some(x)) => set!(*d, x & m64(*w), 0),
                                Ok(None) => { sync!(); let (x, e) = self.load(st, a, *bytes as usize, *w)?; set!(*d, x, e) }
                                Err(f) => return Err(End::Violation("memory fault".into(), format!("load of {} bytes at {:#x} in {}", bytes, f.0, prog.funcs[code.id as usize].name))),
                            }
                        } else { sync!(); let k = self.a.konst(*off as u128, 64); let x = ex!(*p, 64); let ae = self.a.bin(K::Add, x, k); let (x, e) = self.load_symaddr(st, ae, *bytes as usize, *w)?; set!(*d, x, e) }
                        pc += 1
                    }
                    Op::Store { s, p, off, bytes, w } => {
                        let a = addr!(*p).wrapping_add(*off as u64);
                        let e = s!(*s);
                        if e == 0 { if let Err(f) = st.mem.write(a, v!(*s), *bytes as usize, image) { return Err(End::Violation("memory fault".into(), format!("store of {} bytes at {:#x} in {}", bytes, f.0, prog.funcs[code.id as usize].name))) } }
                        else { sync!(); let x = ex!(*s, *w); if let Some(c) = self.a.cval(x) { self.store(st, a, c as u64, 0, *bytes as usize)? } else { self.store(st, a, 0, x, *bytes as usize)? } }
                        pc += 1
                    }
                    Op::Alloca { d, size, align } => {
                        let al = (*align as u64).max(16);
                        let a = (st.stack + al - 1) / al * al;
                        st.stack = a + size;
                        if st.stack >= STACK_BASE + STACK_SIZE { return Err(End::Violation("stack overflow".into(), "stack overflow".into())) }
                        set!(*d, a, 0); pc += 1
                    }
                    Op::AllocaN { d, n, size, align } => {
                        let n = addr!(*n);
                        let al = (*align as u64).max(16);
                        let a = (st.stack + al - 1) / al * al;
                        st.stack = a + size * n;
                        set!(*d, a, 0); pc += 1
                    }
                    Op::Br { e } => goto!(*e),
                    Op::CondBr { c, t, f } => {
                        let e = s!(*c);
                        let b = if e == 0 { v!(*c) & 1 != 0 } else { sync!(); let c = ex!(*c, 1); self.branch(st, c)? };
                        let _ = (vp, sp);
                        if b { goto!(*t) } else { goto!(*f) }
                        if st.icount > self.sh.max_instr { return Err(inc!("instruction limit on one path")) }
                    }
                    Op::CmpBr { .. } => unreachable!(),
                    Op::Switch { c, w, t } => {
                        let t = &code.switches[*t as usize];
                        let e = s!(*c);
                        let edge = if e == 0 { *t.map.get(&v!(*c)).unwrap_or(&t.def) } else {
                            sync!();
                            let x = ex!(*c, *w); let x = self.simp(st, x)?;
                            if let Some(c) = self.a.cval(x) { *t.map.get(&(c as u64)).unwrap_or(&t.def) } else {
                                let mut by: Vec<(u64, E)> = vec![];
                                let mut any = self.a.konst(0, 1);
                                for (val, ed) in &t.cases {
                                    let k = self.a.konst(*val as u128, *w); let c = self.a.bin(K::Eq, x, k);
                                    if self.a.cval(c) == Some(0) { continue }
                                    any = self.a.or1(any, c);
                                    if *ed == t.def { continue }
                                    match by.iter_mut().find(|z| z.0 == *ed as u64) { Some(z) => z.1 = self.a.or1(z.1, c), None => by.push((*ed as u64, c)) }
                                }
                                // default: none of the other targets
                                let mut others = self.a.konst(0, 1);
                                for (_, c) in &by { others = self.a.or1(others, *c) }
                                let dn = self.a.not(others);
                                by.push((t.def as u64, dn));
                                self.decide(st, &by)? as u32
                            }
                        };
                        goto!(edge)
                    }
                    Op::Ret { site } => {
                        let r = &code.rets[*site as usize];
                        let fr = st.frames.pop().unwrap();
                        st.stack = fr.stack;
                        if st.frames.is_empty() { return Ok(End::Done) }
                        let cs = unsafe { &*fr.site };
                        let cb = st.frames.last().unwrap().base as usize;
                        for (i, x) in r.iter().enumerate() { let (a, b) = (v!(*x), s!(*x)); if cs.d != NONE { let dd = cb + cs.d as usize + i; unsafe { *st.vals.as_mut_ptr().add(dd) = a; *st.syms.as_mut_ptr().add(dd) = b; } } }
                        continue 'frame;
                    }
                    Op::Call { site } => {
                        let si: &'p Site = unsafe { &*(&code.sites[*site as usize] as *const Site) };
                        let fid = match si.f {
                            Callee::Fn(f) => f,
                            Callee::Ptr(r) => { let a = addr!(r); match prog.fn_at(a) { Some(f) => f, None => return Err(End::Violation("memory fault".into(), format!("call of {:#x}", a))) } }
                            Callee::Asm => { // cpuid and friends: all-zero results; a bare compiler barrier has none
                                for j in 0..si.nret { set!(si.d + j, 0, 0) } pc += 1; if si.next != NONE { goto!(si.next) } continue }
                        };
                        let f = &prog.funcs[fid as usize];
                        if f.kind == Kind::External {
                            sync!();
                            let args: Vec<(u64, E)> = si.args.iter().map(|r| (v!(*r), s!(*r))).collect();
                            let ret = self.external(st, fid, f.ext, &args, si)?;
                            if si.nret > 0 { set!(si.d, ret.0, ret.1); for j in 1..si.nret { set!(si.d + j, 0, 0) } }
                            pc += 1; if si.next != NONE { goto!(si.next) }
                            continue;
                        }
                        let nc = prog.code(fid);
                        if !self.seen[fid as usize] { self.seen[fid as usize] = true }
                        // resume point in the caller
                        pc += 1;
                        if si.next != NONE { // invoke: phi moves of the normal edge happen after return; no moves may read the result here
                            let e = &code.edges[si.next as usize];
                            if e.moves.is_empty() { pc = e.pc as usize } else { return self.call_with_moves() }
                        }
                        sync!();
                        let nb = base + code.nslots as usize;
                        let need = nb + nc.nslots as usize;
                        if st.vals.len() < need { let n = need + 4096; st.vals.resize(n, 0); st.syms.resize(n, 0); }
                        let vp2 = unsafe { st.vals.as_mut_ptr().add(base) }; let sp2 = unsafe { st.syms.as_mut_ptr().add(base) };
                        for (i, r) in si.args.iter().enumerate() {
                            let r = *r;
                            let (a, b) = unsafe { if r & CBIT != 0 { (*cp.add((r ^ CBIT) as usize), 0) } else { (*vp2.add(r as usize), *sp2.add(r as usize)) } };
                            unsafe { *st.vals.as_mut_ptr().add(nb + i) = a; *st.syms.as_mut_ptr().add(nb + i) = b; }
                        }
                        st.frames.push(Frame { code: nc, pc: 0, base: nb as u32, site: si, stack: st.stack });
                        if st.frames.len() > 20000 { return Err(End::Violation("stack overflow".into(), "call depth 20000".into())) }
                        continue 'frame;
                    }
                    Op::Unreachable => return Err(End::Violation("unreachable".into(), format!("unreachable executed in {}", prog.funcs[code.id as usize].name))),
                    Op::Bit { k, w, d, a, b, c } => {
                        if s!(*a) | s!(*b) | s!(*c) == 0 { let r = bitop(*k, *w, v!(*a), v!(*b), v!(*c)); set!(*d, r, 0) }
                        else { sync!(); let (x, y, z) = (ex!(*a, *w), ex!(*b, *w), ex!(*c, *w)); let r = self.bit_sym(st, *k, *w, x, y, z)?; sete!(*d, r) }
                        pc += 1
                    }
                    Op::F128 { k, wf, d, a } => {
                        sync!();
                        let lo = if s!(a[0]) == 0 { v!(a[0]) } else { let e = s!(a[0]); self.concretize(st, e)? };
                        let hi = if s!(a[1]) == 0 { v!(a[1]) } else { let e = s!(a[1]); self.concretize(st, e)? };
                        let f = |wf: u8, b: u64| if wf == 64 { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 };
                        let n = lo as u128 | (hi as u128) << 64;
                        match k {
                            FcK::UIToF => set!(*d, if *wf == 64 { (n as f64).to_bits() } else { (n as f32).to_bits() as u64 }, 0),
                            FcK::SIToF => set!(*d, if *wf == 64 { (n as i128 as f64).to_bits() } else { (n as i128 as f32).to_bits() as u64 }, 0),
                            FcK::ToUI => { let r = f(*wf, lo) as u128; set!(*d, r as u64, 0); set!(*d + 1, (r >> 64) as u64, 0) }
                            _ => { let r = f(*wf, lo) as i128; set!(*d, r as u64, 0); set!(*d + 1, ((r as u128) >> 64) as u64, 0) }
                        }
                        pc += 1
                    }
                    Op::Bin128 { k, w, d, a, b } => {
                        if s!(a[0]) | s!(a[1]) | s!(b[0]) | s!(b[1]) == 0 {
                            let x = v!(a[0]) as u128 | (v!(a[1]) as u128) << 64; let y = v!(b[0]) as u128 | (v!(b[1]) as u128) << 64;
                            if y == 0 && matches!(k, K::UDiv | K::URem | K::SDiv | K::SRem) { return Err(End::Violation("arithmetic".into(), "division by zero".into())) }
                            let r = apply(*k, *w, *w, x, y, 0, 0); set!(*d, r as u64, 0); set!(*d + 1, (r >> 64) as u64, 0)
                        } else {
                            sync!();
                            let (al, ah, bl, bh) = (ex!(a[0], 64), ex!(a[1], *w - 64), ex!(b[0], 64), ex!(b[1], *w - 64));
                            let x = self.a.concat(ah, al); let y = self.a.concat(bh, bl);
                            let r = self.a.bin(*k, x, y);
                            let l = self.a.extract(r, 0, 64); let h = self.a.extract(r, 64, *w - 64);
                            sete!(*d, l); sete!(*d + 1, h)
                        }
                        pc += 1
                    }
                    Op::Icmp128 { k, neg, w, d, a, b } => {
                        if s!(a[0]) | s!(a[1]) | s!(b[0]) | s!(b[1]) == 0 {
                            let x = v!(a[0]) as u128 | (v!(a[1]) as u128) << 64; let y = v!(b[0]) as u128 | (v!(b[1]) as u128) << 64;
                            let r = apply(*k, 1, *w, x, y, 0, 0); set!(*d, r as u64 ^ *neg as u64, 0)
                        } else {
                            sync!();
                            let (al, ah, bl, bh) = (ex!(a[0], 64), ex!(a[1], *w - 64), ex!(b[0], 64), ex!(b[1], *w - 64));
                            let x = self.a.concat(ah, al); let y = self.a.concat(bh, bl);
                            let mut r = self.a.bin(*k, x, y); if *neg { r = self.a.not(r) } sete!(*d, r)
                        }
                        pc += 1
                    }
                    Op::FBin { k, w, d, a, b } => {
                        if s!(*a) | s!(*b) == 0 { let r = fbin(*k, *w, v!(*a), v!(*b)); set!(*d, r, 0) }
                        else {
                            sync!();
                            let (x, y) = (ex!(*a, *w), ex!(*b, *w)); let (x, y) = (self.fp_in(st, x)?, self.fp_in(st, y)?);
                            if let (Some(p), Some(q)) = (self.a.cval(x), self.a.cval(y)) { let r = fbin(*k, *w, p as u64, q as u64); set!(*d, r, 0) }
                            else { let r = self.fbin_sym(st, *k, *w, x, y)?; sete!(*d, r) }
                        }
                        pc += 1
                    }
                    Op::FUn { k, w, d, a } => {
                        let kk = [K::FFloor, K::FCeil, K::FTrunc, K::FRne, K::FRne, K::FRna, K::FRne, K::FSqrt][*k as usize];
                        if s!(*a) == 0 { let r = apply(kk, *w, *w, v!(*a) as u128, 0, 0, 0); set!(*d, r as u64, 0) }
                        else { sync!(); let x = ex!(*a, *w); let x = self.fp_in(st, x)?; let r = if self.a.cval(x).is_some() { None } else { self.fconv_sym(kk, *w, *w, x) }; let r = r.unwrap_or_else(|| self.a.un(kk, x, *w)); sete!(*d, r) }
                        pc += 1
                    }
                    Op::FCmp { p, w, d, a, b } => {
                        if s!(*a) | s!(*b) == 0 { let r = fcmp(*p, *w, v!(*a), v!(*b)); set!(*d, r as u64, 0) }
                        else {
                            sync!();
                            let (x, y) = (ex!(*a, *w), ex!(*b, *w)); let (x, y) = (self.fp_in(st, x)?, self.fp_in(st, y)?);
                            if let (Some(m), Some(n)) = (self.a.cval(x), self.a.cval(y)) { set!(*d, fcmp(*p, *w, m as u64, n as u64) as u64, 0) }
                            else { let r = self.fcmp_sym(*p, x, y); sete!(*d, r) }
                        }
                        pc += 1
                    }
                    Op::FCast { k, wf, wt, d, a } => {
                        let kk = match k { FcK::ToSI => K::FToSI, FcK::ToUI => K::FToUI, FcK::SIToF => K::SIToF, FcK::UIToF => K::UIToF, FcK::FToF => K::FToF };
                        if s!(*a) == 0 { let r = apply(kk, *wt, *wf, v!(*a) as u128, 0, 0, 0); set!(*d, r as u64, 0) }
                        else { sync!(); let x = ex!(*a, *wf); let x = self.fp_in(st, x)?; let r = if self.a.cval(x).is_some() { None } else { self.fconv_sym(kk, *wf, *wt, x) }; let r = r.unwrap_or_else(|| self.a.un(kk, x, *wt)); sete!(*d, r) }
                        pc += 1
                    }
                    Op::Repack { site } => {
                        let r = &code.repacks[*site as usize];
                        let anys = r.src.iter().any(|(x, _)| s!(*x) != 0);
                        let tot: u32 = r.src.iter().map(|x| x.1 as u32).sum();
                        let dtot: u32 = r.dst.iter().map(|x| x.1 as u32).sum();
                        if !anys && tot <= 128 {
                            let mut x = 0u128; let mut sh = 0;
                            for (q, w) in r.src.iter() { x |= ((v!(*q) & m64(*w)) as u128) << sh; sh += *w as u32 }
                            for (q, w) in r.dst.iter() { set!(*q, (x as u64) & m64(*w), 0); x >>= *w }
                        } else if tot <= 128 && dtot <= 128 {
                            sync!();
                            let mut e: E = 0;
                            for (q, w) in r.src.iter() { let x = ex!(*q, *w); e = if e == 0 { x } else { self.a.concat(x, e) } }
                            let mut lo = 0u8;
                            for (q, w) in r.dst.iter() { let x = self.a.extract(e, lo, *w); sete!(*q, x); lo = lo.wrapping_add(*w) }
                        } else { return Err(inc!("wide repack")) }
                        pc += 1
                    }
                    Op::MulWide { site } => {
                        let r = &code.repacks[*site as usize];
                        let n = r.dst.len();
                        let mut x = vec![];
                        for (q, _) in r.src.iter() { x.push(addr!(*q)) }
                        let mut o = vec![0u64; n];
                        for i in 0..n { let mut c = 0u128; for j in 0..n - i { let t = x[i] as u128 * x[n + j] as u128 + o[i + j] as u128 + c; o[i + j] = t as u64; c = t >> 64; } }
                        for (j, (q, _)) in r.dst.iter().enumerate() { set!(*q, o[j], 0) }
                        pc += 1
                    }
                    Op::MemCpy { d, s, n } => {
                        let (dd, ss, nn) = (addr!(*d), addr!(*s), addr!(*n));
                        if nn > 1 << 30 { return Err(End::Violation("memory fault".into(), "huge copy".into())) }
                        if let Err(f) = st.mem.copy(dd, ss, nn, image) { return Err(End::Violation("memory fault".into(), format!("copy {:#x} in {}", f.0, prog.funcs[code.id as usize].name))) }
                        pc += 1
                    }
                    Op::MemSet { d, v, n } => {
                        let (dd, nn) = (addr!(*d), addr!(*n));
                        let e = s!(*v);
                        let r = if e == 0 { st.mem.fill(dd, v!(*v) as u8, 0, nn, image) } else { let x = ex!(*v, 8); match self.a.cval(x) { Some(c) => st.mem.fill(dd, c as u8, 0, nn, image), None => st.mem.fill(dd, 0, x, nn, image) } };
                        if let Err(f) = r { return Err(End::Violation("memory fault".into(), format!("fill {:#x}", f.0))) }
                        pc += 1
                    }
                    Op::CmpXchg { d, p, cmp, new, bytes, w } => {
                        let a = addr!(*p); let c = addr!(*cmp);
                        sync!();
                        let (x, e) = self.load(st, a, *bytes as usize, *w)?;
                        let x = if e == 0 { x } else { self.concretize(st, e)? };
                        let ok = x == c;
                        if ok { let (nv, ne) = (v!(*new), s!(*new)); self.store(st, a, nv, ne, *bytes as usize)? }
                        set!(*d, x, 0); set!(*d + 1, ok as u64, 0);
                        pc += 1
                    }
                    Op::Rmw { k, d, p, v, bytes, w } => {
                        let a = addr!(*p); sync!();
                        let (x, e) = self.load(st, a, *bytes as usize, *w)?;
                        let x = if e == 0 { x } else { self.concretize(st, e)? };
                        let y = addr!(*v);
                        let m = m64(*w); let sh = 64 - *w as u32; let sg = |q: u64| (q << sh) as i64;
                        let r = match k { 0 => y, 1 => x.wrapping_add(y), 2 => x.wrapping_sub(y), 3 => x & y, 4 => !(x & y), 5 => x | y, 6 => x ^ y, 7 => if sg(x) > sg(y) { x } else { y }, 8 => if sg(x) < sg(y) { x } else { y }, 9 => x.max(y), 10 => x.min(y), _ => return Err(inc!("atomicrmw {}", k)) } & m;
                        self.store(st, a, r, 0, *bytes as usize)?;
                        set!(*d, x, 0); pc += 1
                    }
                    Op::Unsupported { m } => return Err(if code.msgs[*m as usize] == "llvm.trap" { End::Abort } else { inc!("unsupported: {} in {}", code.msgs[*m as usize], prog.funcs[code.id as usize].name) }),
                }
            }
        }
    }
    fn call_with_moves(&self) -> Rs<End> { Err(inc!("invoke with phi moves")) }

    /// FP operands: values that depend only on small variables are made concrete, others stay symbolic.
    fn fp_in(&mut self, st: &mut State, e: E) -> Rs<E> {
        let e = self.simp(st, e)?;
        if self.a.cval(e).is_some() { return Ok(e) }
        if self.a.vars_of(e).iter().all(|v| self.small(*v) || st.fixed >> v & 1 != 0) { return self.concretize_vars(st, e) }
        Ok(e)
    }
    /// biased exponent, mantissa with the hidden bit (of a normal number) and sign bit in place, of a double
    fn f64_parts(&mut self, x: E) -> (E, E, E) {
        let ex = self.a.extract(x, 52, 11); let ex = self.a.zext(ex, 64);
        let fm = self.a.konst((1 << 52) - 1, 64); let m = self.a.bin(K::And, x, fm); let hb = self.a.konst(1 << 52, 64); let m = self.a.bin(K::Or, m, hb);
        let sm = self.a.konst(1 << 63, 64); let sg = self.a.bin(K::And, x, sm);
        (ex, m, sg)
    }
    /// an integer below 2^53 as a double
    fn u64_to_f64(&mut self, x: E) -> E {
        let zero = self.a.konst(0, 64);
        let (mut v, mut n) = (x, self.a.konst(1023 + 63, 64));
        for s in [32u128, 16, 8, 4, 2, 1] {
            let t = self.a.konst(64 - s, 64); let hi = self.a.bin(K::LShr, v, t); let c = self.a.bin(K::Eq, hi, zero);
            let k = self.a.konst(s, 64); let v2 = self.a.bin(K::Shl, v, k); v = self.a.ite(c, v2, v);
            let n2 = self.a.bin(K::Sub, n, k); n = self.a.ite(c, n2, n);
        }
        let one = self.a.konst(1, 64); let f = self.a.bin(K::Shl, v, one); let c12 = self.a.konst(12, 64); let f = self.a.bin(K::LShr, f, c12);
        let c52 = self.a.konst(52, 64); let e = self.a.bin(K::Shl, n, c52); let r = self.a.bin(K::Or, e, f);
        let z = self.a.bin(K::Eq, x, zero);
        self.a.ite(z, zero, r)
    }
    fn view(&mut self, x: E) -> Option<(E, u8)> {
        if let Some(v) = self.a.views.get(&x) { return Some((v.0, v.1)) }
        let v = f64::from_bits(self.a.cval(x)? as u64);
        if self.a.w(x) == 64 && v == v.trunc() && v.abs() < 9007199254740992.0 && (v != 0.0 || v.is_sign_positive()) { let i = v as i64; Some((self.a.konst(i as u64 as u128, 64), 64 - i.unsigned_abs().leading_zeros() as u8)) } else { None }
    }
    fn from_view(&mut self, y: E, n: u8) -> E {
        let zero = self.a.konst(0, 64);
        let neg = self.a.bin(K::Slt, y, zero); let ny = self.a.bin(K::Sub, zero, y); let mag = self.a.ite(neg, ny, y);
        let f = self.u64_to_f64(mag); let sm = self.a.konst(1 << 63, 64); let g = self.a.bin(K::Or, f, sm);
        let r = self.a.ite(neg, g, f);
        if self.a.cval(r).is_none() { self.a.views.insert(r, (y, n, true)); }
        r
    }
    /// exact integer conversions and truncation as bit-vector circuits; None where rounding is involved
    fn fconv_sym(&mut self, k: K, wf: u8, wt: u8, x: E) -> Option<E> {
        match k {
            K::FTrunc | K::FFloor | K::FCeil | K::FRna | K::FRne if wt == 64 && self.view(x).is_some() => Some(x),
            K::FTrunc if wt == 64 => {
                let (ex, m, sg) = self.f64_parts(x);
                if let Some(e) = self.a.cval(ex) { if (1023..=1075).contains(&(e as u64)) {
                    let n = self.a.konst(1075 - e, 64); let mag = self.a.bin(K::LShr, m, n);
                    let zero = self.a.konst(0, 64); let neg = self.a.bin(K::Sub, zero, mag);
                    let pos = self.a.bin(K::Eq, sg, zero); let v = self.a.ite(pos, mag, neg);
                    return Some(self.from_view(v, (e - 1022) as u8))
                } }
                let (ex, _, sg) = self.f64_parts(x);
                let c1 = self.a.konst(1023, 64); let c2 = self.a.konst(1075, 64);
                let small = self.a.bin(K::Ult, ex, c1); let big = self.a.bin(K::Ule, c2, ex);
                let fm = self.a.konst((1 << 52) - 1, 64); let n = self.a.bin(K::Sub, ex, c1); let clr = self.a.bin(K::LShr, fm, n);
                let ones = self.a.konst(m128(64), 64); let keep = self.a.bin(K::Xor, clr, ones); let r = self.a.bin(K::And, x, keep);
                let r = self.a.ite(small, sg, r);
                Some(self.a.ite(big, x, r))
            }
            K::FToUI | K::FToSI if wf == 64 && wt <= 64 && self.view(x).is_some() => {
                let (v, n) = self.view(x).unwrap();
                let zero = self.a.konst(0, 64);
                let r = if k == K::FToUI {
                    let neg = self.a.bin(K::Slt, v, zero); let r = self.a.ite(neg, zero, v);
                    if n > wt { let max = self.a.konst(m128(wt), 64); let o = self.a.bin(K::Slt, max, r); self.a.ite(o, max, r) } else { r }
                } else if n >= wt {
                    let max = self.a.konst(m128(wt - 1), 64); let min = self.a.konst(!m128(wt - 1), 64);
                    let o = self.a.bin(K::Slt, max, v); let r = self.a.ite(o, max, v); let u = self.a.bin(K::Slt, r, min); self.a.ite(u, min, r)
                } else { v };
                Some(self.a.extract(r, 0, wt))
            }
            K::FToUI | K::FToSI if wf == 64 && wt <= 64 => {
                let (ex, m, sg) = self.f64_parts(x);
                let zero = self.a.konst(0, 64); let c11 = self.a.konst(11, 64); let m = self.a.bin(K::Shl, m, c11);
                let c = self.a.konst(1086, 64); let n = self.a.bin(K::Sub, c, ex); let v = self.a.bin(K::LShr, m, n); let v = self.a.extract(v, 0, wt);
                let c1 = self.a.konst(1023, 64); let small = self.a.bin(K::Ult, ex, c1);
                let neg = self.a.bin(K::Eq, sg, zero); let neg = self.a.not(neg);
                let z = self.a.konst(0, wt);
                let fm = self.a.konst((1 << 52) - 1, 64); let fr = self.a.bin(K::And, x, fm); let f0 = self.a.bin(K::Eq, fr, zero); let f1 = self.a.not(f0);
                let c2047 = self.a.konst(2047, 64); let mx = self.a.bin(K::Eq, ex, c2047); let nan = self.a.and1(mx, f1);
                let bits = if k == K::FToUI { wt } else { wt - 1 } as u128;
                let lim = self.a.konst(1023 + bits, 64); let over = self.a.bin(K::Ule, lim, ex);
                let r = if k == K::FToUI {
                    let max = self.a.konst(m128(wt), wt); let r = self.a.ite(over, max, v); self.a.ite(neg, z, r)
                } else {
                    let max = self.a.konst(m128(wt - 1), wt); let min = self.a.konst(1 << (wt - 1), wt);
                    let p = self.a.ite(over, max, v); let nv = self.a.bin(K::Sub, z, v); let q = self.a.ite(over, min, nv); self.a.ite(neg, q, p)
                };
                let r = self.a.ite(small, z, r);
                Some(self.a.ite(nan, z, r))
            }
            K::UIToF if wt == 64 && wf <= 52 => { let y = self.a.zext(x, 64); Some(self.from_view(y, wf)) }
            K::SIToF if wt == 64 && wf <= 52 => { let y = self.a.sext(x, 64); Some(self.from_view(y, wf)) }
            _ => None,
        }
    }
    fn fbin_sym(&mut self, st: &mut State, k: u8, w: u8, x: E, y: E) -> Rs<E> {
        if k < 2 && w == 64 { if let (Some((a, n)), Some((b, m))) = (self.view(x), self.view(y)) { // the result is never -0 when x is not (or, adding, y is not)
            let plus = |s: &Self, e| s.a.views.get(&e).map_or(true, |v| v.2);
            if n.max(m) < 52 && (plus(self, x) || k == 0 && plus(self, y)) { let r = self.a.bin(if k == 0 { K::Add } else { K::Sub }, a, b); return Ok(self.from_view(r, n.max(m) + 1)) } } }
        Ok(match k {
            0 => self.a.bin(K::FAdd, x, y), 1 => self.a.bin(K::FSub, x, y), 2 => self.a.bin(K::FMul, x, y), 3 => self.a.bin(K::FDiv, x, y),
            5 | 6 => { let c = if k == 5 { self.a.bin(K::FLt, x, y) } else { self.a.bin(K::FLt, y, x) }; let nx = self.a.un(K::FNan, x, 1); let ny = self.a.un(K::FNan, y, 1); let r = self.a.ite(c, x, y); let r = self.a.ite(ny, x, r); self.a.ite(nx, y, r) }
            // x rem 2^k, k >= 0, is exact: the mantissa bits below 2^k, with the sign of x
            4 if w == 64 && self.a.cval(y).map_or(false, |v| { let v = v as u64; v & ((1 << 52) - 1) == 0 && (1023..=1075).contains(&(v >> 52)) }) => {
                let kx = (self.a.cval(y).unwrap() as u64 >> 52) - 1023;
                let (ex, m, sg) = self.f64_parts(x);
                if let Some((v, n)) = self.view(x) {
                    // a zero result keeps the sign of x, so it has no view unless x is not negative
                    let zero = self.a.konst(0, 64); let neg = self.a.bin(K::Slt, v, zero); let nv = self.a.bin(K::Sub, zero, v); let mag = self.a.ite(neg, nv, v);
                    let mk = self.a.konst((1u128 << kx) - 1, 64); let r = self.a.bin(K::And, mag, mk);
                    let f = self.u64_to_f64(r); let r2 = self.a.bin(K::Or, f, sg);
                    let nr = self.a.bin(K::Sub, zero, r); let rv = self.a.ite(neg, nr, r);
                    if self.a.cval(r2).is_none() { self.a.views.insert(r2, (rv, n.min(kx as u8), false)); }
                    return Ok(r2)
                }
                let c1023k = self.a.konst((1023 + kx) as u128, 64);
                let small = self.a.bin(K::Ult, ex, c1023k);
                let top = self.a.konst((1075 + kx) as u128, 64);
                let gone = self.a.bin(K::Ule, top, ex);
                let n = self.a.bin(K::Sub, top, ex); // k - sh, 1..=52 here
                let one = self.a.konst(1, 64); let mk = self.a.bin(K::Shl, one, n); let mk = self.a.bin(K::Sub, mk, one);
                let mm = self.a.bin(K::And, m, mk);
                let f = self.u64_to_f64(mm);
                let c1075 = self.a.konst(1075, 64); let sh = self.a.bin(K::Sub, ex, c1075); let c52 = self.a.konst(52, 64); let adj = self.a.bin(K::Shl, sh, c52);
                let g = self.a.bin(K::Add, f, adj);
                let zero = self.a.konst(0, 64); let z = self.a.bin(K::Eq, mm, zero); let z = self.a.or1(z, gone);
                let g = self.a.ite(z, zero, g); let g = self.a.bin(K::Or, g, sg);
                let c2047 = self.a.konst(2047, 64); let inf = self.a.bin(K::Eq, ex, c2047); let nan = self.a.konst(0x7ff8 << 48, 64);
                let g = self.a.ite(inf, nan, g);
                self.a.ite(small, x, g)
            }
            4 | 10..=18 => { let a = self.concretize(st, x)?; let b = self.concretize(st, y)?; let r = fbin(k, w, a, b); self.a.konst(r as u128, w) }
            _ => return Err(inc!("fp operation {}", k)),
        })
    }
    fn fcmp_sym(&mut self, p: u8, x: E, y: E) -> E {
        if self.a.w(x) == 64 && self.view(x).is_some() { if let Some(c) = self.a.cval(y) { if f64::from_bits(c as u64).is_infinite() { return self.a.konst(fcmp(p, 64, 0, c as u64) as u128, 1) } } }
        if self.a.w(x) == 64 { if let (Some((a, _)), Some((b, _))) = (self.view(x), self.view(y)) {
            let r = match p & 7 { 0 => return self.a.konst(0, 1), 1 => self.a.bin(K::Eq, a, b), 2 => self.a.bin(K::Slt, b, a), 3 => self.a.bin(K::Sle, b, a), 4 => self.a.bin(K::Slt, a, b), 5 => self.a.bin(K::Sle, a, b), 6 => { let e = self.a.bin(K::Eq, a, b); self.a.not(e) } _ => return self.a.konst(1, 1) };
            return r
        } }
        let nx = self.a.un(K::FNan, x, 1); let ny = self.a.un(K::FNan, y, 1);
        let uno = self.a.or1(nx, ny);
        let t = |c: u128, s: &mut Self| s.a.konst(c, 1);
        match p {
            0 => t(0, self), 15 => t(1, self),
            1 => self.a.bin(K::FEq, x, y), 2 => self.a.bin(K::FLt, y, x), 3 => self.a.bin(K::FLe, y, x), 4 => self.a.bin(K::FLt, x, y), 5 => self.a.bin(K::FLe, x, y),
            6 => { let e = self.a.bin(K::FEq, x, y); let n = self.a.not(e); let o = self.a.not(uno); self.a.and1(n, o) }
            7 => self.a.not(uno), 8 => uno,
            9 => { let e = self.a.bin(K::FEq, x, y); self.a.or1(e, uno) }
            10 => { let e = self.a.bin(K::FLe, x, y); self.a.not(e) } 11 => { let e = self.a.bin(K::FLt, x, y); self.a.not(e) }
            12 => { let e = self.a.bin(K::FLe, y, x); self.a.not(e) } 13 => { let e = self.a.bin(K::FLt, y, x); self.a.not(e) }
            _ => { let e = self.a.bin(K::FEq, x, y); self.a.not(e) }
        }
    }
    fn bit_sym(&mut self, st: &mut State, k: BitK, w: u8, x: E, y: E, z: E) -> Rs<E> {
        Ok(match k {
            BitK::Ctpop => { let mut s = self.a.konst(0, w); for i in 0..w { let b = self.a.extract(x, i, 1); let b = self.a.zext(b, w); s = self.a.bin(K::Add, s, b) } s }
            BitK::Cttz => { let mut r = self.a.konst(w as u128, w); for i in (0..w).rev() { let b = self.a.extract(x, i, 1); let k = self.a.konst(i as u128, w); r = self.a.ite(b, k, r) } r }
            BitK::Ctlz => { let mut r = self.a.konst(w as u128, w); for i in 0..w { let b = self.a.extract(x, i, 1); let k = self.a.konst((w - 1 - i) as u128, w); r = self.a.ite(b, k, r) } r }
            BitK::Bswap => { let n = w / 8; let mut r = self.a.extract(x, 0, 8); for i in 1..n { let b = self.a.extract(x, i * 8, 8); r = self.a.concat(r, b) } r }
            BitK::Bitrev => { let mut r = self.a.extract(x, 0, 1); for i in 1..w { let b = self.a.extract(x, i, 1); r = self.a.concat(r, b) } r }
            BitK::Fshl | BitK::Fshr => {
                let s = match self.a.cval(z) { Some(c) => c as u64, None => self.concretize(st, z)? } % w as u64;
                if s == 0 { return Ok(if k == BitK::Fshl { x } else { y }) }
                let c = self.a.concat(x, y);
                if k == BitK::Fshl { self.a.extract(c, w - s as u8, w) } else { self.a.extract(c, s as u8, w) }
            }
            BitK::SAddSat | BitK::SSubSat => {
                let (x1, y1) = (self.a.sext(x, w + 1), self.a.sext(y, w + 1));
                let s = self.a.bin(if k == BitK::SAddSat { K::Add } else { K::Sub }, x1, y1);
                let hi = self.a.konst(m128(w) >> 1, w + 1); let lo = self.a.konst(1u128 << (w - 1), w); let lo1 = self.a.sext(lo, w + 1);
                let c1 = self.a.bin(K::Slt, hi, s); let c2 = self.a.bin(K::Slt, s, lo1);
                let r = self.a.extract(s, 0, w); let h = self.a.extract(hi, 0, w);
                let r = self.a.ite(c2, lo, r); self.a.ite(c1, h, r)
            }
            BitK::UMulOv => { let (x1, y1) = (self.a.zext(x, 2 * w), self.a.zext(y, 2 * w)); let m = self.a.bin(K::Mul, x1, y1); let h = self.a.extract(m, w, w); let z = self.a.konst(0, w); let e = self.a.bin(K::Eq, h, z); self.a.not(e) }
            BitK::SMulOv => { let (x1, y1) = (self.a.sext(x, 2 * w), self.a.sext(y, 2 * w)); let m = self.a.bin(K::Mul, x1, y1); let l = self.a.extract(m, 0, w); let l = self.a.sext(l, 2 * w); let e = self.a.bin(K::Eq, l, m); self.a.not(e) }
        })
    }

    // ---------------------------------------------------------------- environment
    fn carg(&mut self, st: &mut State, a: (u64, E)) -> Rs<u64> { if a.1 == 0 { Ok(a.0) } else { self.concretize(st, a.1) } }
    fn bytes(&mut self, st: &mut State, p: u64, n: u64) -> Rs<Vec<(u8, E)>> {
        (0..n).map(|i| st.mem.byte(p + i, self.image).map_err(|f| End::Violation("memory fault".into(), format!("read {:#x}", f.0)))).collect()
    }
    fn cstr(&mut self, st: &mut State, p: u64, n: u64) -> Rs<String> { let b = self.bytes(st, p, n)?; Ok(b.iter().map(|x| x.0 as char).collect()) }
    fn external(&mut self, st: &mut State, fid: u32, ext: u32, args: &[(u64, E)], si: &Site) -> Rs<(u64, E)> {
        let z = (0u64, 0 as E);
        macro_rules! c { ($i:expr) => { self.carg(st, args[$i])? } }
        Ok(match EXT[ext as usize] {
            "rsx_sym" => {
                let p = c!(0); let n = c!(1); let w = c!(2) as u8;
                let name = self.cstr(st, p, n)?;
                let e = self.a.var(&name, w);
                self.ensure_dom(st);
                let e = if self.a.mask(e) & !st.fixed == 0 { self.simp(st, e)? } else { e };
                if let Some(v) = self.a.cval(e) { return Ok((v as u64, 0)) }
                let k = self.a.vars.len() as u64; let s = &mut self.stats[self.entry]; s.maxvars = s.maxvars.max(k);
                (0, e)
            }
            "rsx_assume" => {
                let (v, e) = args[0];
                if e == 0 { if v & 1 == 0 { return Err(End::Assume) } }
                else {
                    let e = self.a.extract(e, 0, 1); let e = self.simp(st, e)?;
                    match self.a.cval(e) { Some(0) => return Err(End::Assume), Some(_) => {} None => {
                        // recorded as a decision so that prefix replay stays aligned
                        st.op_begin();
                        if let Some(x) = self.next_replay(st)? { if let Some(m) = &st.model { let m = m.clone(); if self.a.eval(e, &m) == 0 { st.model = None } } self.take(st, x, e) }
                        else {
                            let m = self.model(st)?;
                            if self.a.eval(e, &m) == 0 { match self.query(st, e)? { None => return Err(End::Assume), Some(ch) => { st.model = Some(Self::upd(&m, &ch)) } } }
                            self.take(st, 1, e)
                        }
                    } }
                }
                z
            }
            "rsx_assert" => {
                let (v, e) = args[0];
                self.stats[self.entry].asserts += 1;
                let p = c!(1); let n = c!(2);
                if e == 0 { if v & 1 == 0 { let m = self.cstr(st, p, n)?; return Err(End::Violation("assertion".into(), m)) } }
                else {
                    let e = self.a.extract(e, 0, 1); let e = self.simp(st, e)?;
                    self.stats[self.entry].symbolic_asserts += 1;
                    // the verdict on an assertion comes from the solver itself, not from the value domains
                    if self.a.cval(e).is_none() && self.asserted < 6000 && st.replay.is_empty() {
                        self.asserted += 1;
                        let ne = self.a.not(e);
                        let z = self.z3_only; self.z3_only = true;
                        let r = self.query(st, ne);
                        self.z3_only = z;
                        let possible = r?.is_some();
                        let vs = self.a.vars_of(e);
                        if vs.len() == 1 && self.small(vs[0]) {
                            let dom = self.query(st, ne)?.is_some();
                            if dom != possible { return Err(inc!("engine: value domains and solver disagree on an assertion")) }
                        }
                    }
                    if !self.branch(st, e)? { let m = self.cstr(st, p, n)?; return Err(End::Violation("assertion".into(), m)) }
                }
                z
            }
            "rsx_fail" => { let p = c!(0); let n = c!(1); let m = self.cstr(st, p, n)?; return Err(End::Violation("assertion".into(), m)) }
            "rsx_cover" => { let p = c!(0); let n = c!(1); let m = self.cstr(st, p, n)?; let i = match self.cover_names.iter().position(|x| *x == m) { Some(i) => i, None => { self.cover_names.push(m); self.cover_names.len() - 1 } } as u32; if !st.covers.contains(&i) { st.covers.push(i) } z }
            "rsx_note" => { let p = c!(0); let n = c!(1); let k = self.cstr(st, p, n)?; let p = c!(2); let n = c!(3); let b = self.bytes(st, p, n.min(100000))?; st.notes.push((k, b)); z }
            "rsx_concrete" => { let (v, e) = args[0]; if e == 0 { (v, 0) } else { (self.concretize(st, e)?, 0) } }
            "rsx_is_symbolic" => { let (_, e) = args[0]; ((e != 0) as u64, 0) }
            "rsx_hashseed" => { st.keys = c!(0); z }
            "rsx_exit" => return Err(End::Done),
            "__rust_alloc" => { let (s, a) = (c!(0), c!(1)); match st.mem.alloc(s, a, self.image) { Some(p) => (p, 0), None => return Err(inc!("engine heap exhausted")) } }
            "__rust_alloc_zeroed" => { let (s, a) = (c!(0), c!(1)); match st.mem.alloc(s, a, self.image) { Some(p) => { let _ = st.mem.fill(p, 0, 0, s, self.image); (p, 0) } None => return Err(inc!("engine heap exhausted")) } }
            "__rust_dealloc" => { let (p, s, a) = (c!(0), c!(1), c!(2)); st.mem.dealloc(p, s, a, self.image); z }
            "__rust_realloc" => {
                let (p, s, a, n) = (c!(0), c!(1), c!(2), c!(3));
                let q = match st.mem.alloc(n, a, self.image) { Some(p) => p, None => return Err(inc!("engine heap exhausted")) };
                let _ = st.mem.copy(q, p, s.min(n), self.image);
                st.mem.dealloc(p, s, a, self.image);
                (q, 0)
            }
            "malloc" => { let s = c!(0); match st.mem.alloc(s.max(1), 16, self.image) { Some(p) => (p, 0), None => return Err(inc!("engine heap exhausted")) } }
            "calloc" => { let s = c!(0) * c!(1); match st.mem.alloc(s.max(1), 16, self.image) { Some(p) => { let _ = st.mem.fill(p, 0, 0, s, self.image); (p, 0) } None => return Err(inc!("engine heap exhausted")) } }
            "free" | "nop" => z,
            "memcpy" | "memmove" => { let (d, s, n) = (c!(0), c!(1), c!(2)); st.mem.copy(d, s, n, self.image).map_err(|f| End::Violation("memory fault".into(), format!("copy {:#x}", f.0)))?; (d, 0) }
            "memset" => { let (d, n) = (c!(0), c!(2)); let v = c!(1); st.mem.fill(d, v as u8, 0, n, self.image).map_err(|f| End::Violation("memory fault".into(), format!("fill {:#x}", f.0)))?; (d, 0) }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                let a = self.bytes(st, p, n)?; let b = self.bytes(st, q, n)?;
                if a.iter().chain(&b).all(|x| x.1 == 0) {
                    let r = a.iter().map(|x| x.0).cmp(b.iter().map(|x| x.0));
                    (match r { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Less => 0xffff_ffff, _ => 1 }, 0)
                } else {
                    let zero = self.a.konst(0, 32); let one = self.a.konst(1, 32); let neg = self.a.konst(0xffff_ffff, 32);
                    let mut r = zero;
                    for (x, y) in a.iter().zip(&b).rev() {
                        let ex = if x.1 != 0 { x.1 } else { self.a.konst(x.0 as u128, 8) }; let ey = if y.1 != 0 { y.1 } else { self.a.konst(y.0 as u128, 8) };
                        let eq = self.a.bin(K::Eq, ex, ey);
                        let dif = if EXT[ext as usize] == "bcmp" { one } else { let lt = self.a.bin(K::Ult, ex, ey); self.a.ite(lt, neg, one) };
                        r = self.a.ite(eq, r, dif);
                    }
                    let r = if self.a.mask(r) & !st.fixed == 0 { self.simp(st, r)? } else { r };
                    match self.a.cval(r) { Some(v) => (v as u64, 0), None => (0, r) }
                }
            }
            "strlen" => { let p = c!(0); let mut n = 0; loop { let b = self.bytes(st, p + n, 1)?[0]; if b.1 != 0 { return Err(inc!("strlen of symbolic")) } if b.0 == 0 { break } n += 1 } (n, 0) }
            "write" => { let (fd, p, n) = (c!(0), c!(1), c!(2)); if fd <= 2 && st.err.len() < 20000 { let m = self.model(st)?; for (b, e) in self.bytes(st, p, n)? { let x = if e == 0 { b } else { self.a.eval(e, &m) as u8 }; st.err.push(x) } } (n, 0) }
            "writev" => { let (_fd, p, n) = (c!(0), c!(1), c!(2)); let m = self.model(st)?; let mut t = 0; for i in 0..n { let b = self.load(st, p + 16 * i, 8, 64)?.0; let l = self.load(st, p + 16 * i + 8, 8, 64)?.0; t += l; if st.err.len() < 20000 { for (b, e) in self.bytes(st, b, l)? { let x = if e == 0 { b } else { self.a.eval(e, &m) as u8 }; st.err.push(x) } } } (t, 0) }
            "null" => z,
            "dlsym" => { let p = c!(1); let mut n = 0; while n < 64 && self.bytes(st, p + n, 1)?[0].0 != 0 { n += 1 } let s = self.cstr(st, p, n)?; (if s == "getrandom" { FN_BASE + 16 * self.sh.prog.by_name["getrandom"] as u64 } else { 0 }, 0) }
            "minus1" => (m64(*si.retw.first().unwrap_or(&64)), 0),
            "getrandom" => { let (p, n) = (c!(0), c!(1)); for i in 0..n { let k = st.keys.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i.wrapping_mul(0xbf58476d1ce4e5b9)); let _ = st.mem.write(p + i, (k >> 29) & 255, 1, self.image); } (n, 0) }
            "errno" => { // a fixed scratch word in the first stack bytes
                let a = STACK_BASE + 8; let _ = st.mem.write(a, 0, 8, self.image); (a, 0) }
            "one" => (1, 0),
            "pthread_self" => (0x1000, 0),
            "sysconf" => { let k = c!(0); (match k { 30 => 4096, 84 => 1, _ => 4096 }, 0) }
            "clock_gettime" => { let p = c!(1); st.clock += 1000; let (s, n) = (st.clock / 1_000_000_000, st.clock % 1_000_000_000); let _ = st.mem.write(p, s, 8, self.image); let _ = st.mem.write(p + 8, n, 8, self.image); z }
            "pthread_key_create" => { let p = c!(0); let k = st.tls.len() as u64 + 1; st.tls.insert(k, 0); let _ = st.mem.write(p, k, 4, self.image); z }
            "pthread_setspecific" => { let k = c!(0); let v = c!(1); st.tls.insert(k, v); z }
            "pthread_getspecific" => { let k = c!(0); (st.tls.get(&k).copied().unwrap_or(0), 0) }
            "pthread_create" => (38, 0), // ENOSYS: "unsupported"
            "syscall" => { let k = c!(0); match k { 186 => (1, 0), 318 => { let (p, n) = (c!(1), c!(2)); for i in 0..n { let k = st.keys.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add(i.wrapping_mul(0xbf58476d1ce4e5b9)); let _ = st.mem.write(p + i, (k >> 29) & 255, 1, self.image); } (n, 0) } 202 => z, _ => (!0, 0) } }
            "abort" => return Err(End::Abort),
            "pow" => { let (a, b) = (c!(0), c!(1)); (fbin(10, 64, a, b), 0) }
            "fmod" => { let (a, b) = (c!(0), c!(1)); (fbin(4, 64, a, b), 0) }
            m @ ("sin" | "cos" | "tan" | "exp" | "log" | "log2" | "log10" | "atan" | "asin" | "acos" | "cbrt" | "exp2" | "expm1" | "log1p" | "sinh" | "cosh" | "tanh" | "asinh" | "acosh" | "atanh") => {
                let x = f64::from_bits(c!(0));
                let r = match m { "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "exp" => x.exp(), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "atan" => x.atan(), "asin" => x.asin(), "acos" => x.acos(), "cbrt" => x.cbrt(), "exp2" => x.exp2(), "expm1" => x.exp_m1(), "log1p" => x.ln_1p(), "sinh" => x.sinh(), "cosh" => x.cosh(), "tanh" => x.tanh(), "asinh" => x.asinh(), "acosh" => x.acosh(), _ => x.atanh() };
                (r.to_bits(), 0)
            }
            m @ ("atan2" | "hypot") => { let (x, y) = (f64::from_bits(c!(0)), f64::from_bits(c!(1))); (if m == "atan2" { x.atan2(y) } else { x.hypot(y) }.to_bits(), 0) }
            _ => return Err(inc!("external function {}", self.sh.prog.funcs[fid as usize].name)),
        })
    }
}
impl State {
    fn op_begin(&mut self) { if self.op_at != self.icount { self.op_at = self.icount; self.op_dec.clear(); self.snap = (self.cons.len(), self.dom.clone(), self.fixed, self.multi) } }
    fn fixed_set(&mut self, v: usize, c: u64) { if let Some(m) = &mut self.model { if m.get(v).copied().unwrap_or(0) != c { let mm = Rc::make_mut(m); if mm.len() <= v { mm.resize(v + 1, 0) } mm[v] = c } } } }

pub const EXT: &[&str] = &["", "rsx_sym", "rsx_assume", "rsx_assert", "rsx_fail", "rsx_cover", "rsx_note", "rsx_concrete", "rsx_is_symbolic", "rsx_hashseed", "rsx_exit",
    "__rust_alloc", "__rust_alloc_zeroed", "__rust_dealloc", "__rust_realloc", "malloc", "calloc", "free", "nop", "memcpy", "memmove", "memset", "bcmp", "memcmp", "strlen", "write", "writev", "null", "minus1", "getrandom", "errno", "dlsym", "one", "pthread_self", "sysconf", "clock_gettime",
    "pthread_key_create", "pthread_setspecific", "pthread_getspecific", "pthread_create", "syscall", "abort", "pow", "fmod",
    "sin", "cos", "tan", "exp", "log", "log2", "log10", "atan", "asin", "acos", "cbrt", "exp2", "expm1", "log1p", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "atan2", "hypot"];
pub fn ext_id(name: &str) -> u32 {
    let idx = |n: &str| EXT.iter().position(|x| *x == n).unwrap_or(0) as u32;
    for a in ["__rust_alloc_zeroed", "__rust_alloc", "__rust_dealloc", "__rust_realloc"] { if name == a || (name.starts_with("_RN") && name.ends_with(a)) { return idx(a) } }
    if name.contains("__rust_no_alloc_shim_is_unstable") { return idx("nop") }
    match name {
        "getenv" | "secure_getenv" | "getcwd" | "realpath" | "pthread_attr_init" | "pthread_attr_destroy" | "pthread_attr_setstacksize" | "pthread_getattr_np" | "pthread_attr_getstack" | "pthread_attr_getguardsize" | "sigaction" | "signal" | "sigaltstack" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "pthread_setname_np" | "sched_yield" | "nanosleep" | "getauxval" | "munmap" | "mprotect" | "poll" | "dl_iterate_phdr" | "gnu_get_libc_version" | "__gmon_start__" | "pthread_mutex_init" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_mutex_trylock" | "pthread_mutex_destroy" | "pthread_detach" | "pthread_join" => idx("null"),
        "open64" | "sched_getaffinity" | "open" | "stat64" | "fstat64" | "statx" | "readlink" | "read" | "lseek64" | "mmap64" | "mmap" | "close" | "fcntl" | "dup" | "isatty" | "ioctl" => idx("minus1"),
        "__errno_location" => idx("errno"), "gettid" | "getpid" => idx("one"),
        "_exit" | "exit" | "abort" => idx("abort"),
        "__memcpy_chk" => idx("memcpy"),
        "posix_memalign" | "realloc" => 0,
        _ => idx(name),
    }
}
fn bitop(k: BitK, w: u8, a: u64, b: u64, c: u64) -> u64 {
    let m = m64(w);
    (match k {
        BitK::Ctlz => (a.leading_zeros() as u64).saturating_sub(64 - w as u64),
        BitK::Cttz => (a.trailing_zeros() as u64).min(w as u64),
        BitK::Ctpop => a.count_ones() as u64,
        BitK::Bswap => a.swap_bytes() >> (64 - w as u32),
        BitK::Bitrev => a.reverse_bits() >> (64 - w as u32),
        BitK::Fshl => { let s = c % w as u64; if s == 0 { a } else { (a << s) | (b >> (w as u64 - s)) } }
        BitK::Fshr => { let s = c % w as u64; if s == 0 { b } else { (a << (w as u64 - s)) | (b >> s) } }
        BitK::SAddSat | BitK::SSubSat => { let (x, y) = (sx(a as u128, w), sx(b as u128, w)); let s = if k == BitK::SAddSat { x + y } else { x - y }; let hi = (1i128 << (w - 1)) - 1; s.clamp(-hi - 1, hi) as u64 }
        BitK::UMulOv => ((a as u128) * (b as u128) > m128(w)) as u64,
        BitK::SMulOv => { let p = sx(a as u128, w).wrapping_mul(sx(b as u128, w)); let hi = (1i128 << (w - 1)) - 1; (p > hi || p < -hi - 1) as u64 }
    }) & m
}
fn fbin(k: u8, w: u8, a: u64, b: u64) -> u64 {
    macro_rules! go { ($t:ty, $bits:ty) => {{ let (x, y) = (<$t>::from_bits(a as $bits), <$t>::from_bits(b as $bits));
        (match k { 0 => x + y, 1 => x - y, 2 => x * y, 3 => x / y, 4 => x % y, 5 => x.min(y), 6 => x.max(y),
            7 => if x.is_nan() || y.is_nan() { <$t>::NAN } else if x == 0.0 && y == 0.0 { if x.is_sign_negative() { x } else { y } } else { x.min(y) },
            8 => if x.is_nan() || y.is_nan() { <$t>::NAN } else if x == 0.0 && y == 0.0 { if x.is_sign_negative() { y } else { x } } else { x.max(y) },
            11 => x.log2(), 12 => x.ln(), 13 => x.log10(), 14 => x.exp(), 15 => x.exp2(), 16 => x.sin(), 17 => x.cos(), 18 => x.powi(b as i32),
            _ => x.powf(y) }).to_bits() as u64 }} }
    if w == 32 { go!(f32, u32) } else { go!(f64, u64) }
}
fn fcmp(p: u8, w: u8, a: u64, b: u64) -> bool {
    let (x, y) = if w == 32 { (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64) } else { (f64::from_bits(a), f64::from_bits(b)) };
    let u = x.is_nan() || y.is_nan();
    match p { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !u && x != y, 7 => !u, 8 => u, 9 => u || x == y, 10 => u || x > y, 11 => u || x >= y, 12 => u || x < y, 13 => u || x <= y, 14 => x != y, _ => true }
}

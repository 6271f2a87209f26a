//! LLVM modules -> pre-decoded register code. Functions are translated lazily, on first call.
use crate::expr::K;
use crate::llvm::{op, Llvm, P};
use std::collections::{HashMap, HashSet};
use std::ffi::CStr;
use std::sync::{Mutex, OnceLock};

/// Operand: slot number, or (top bit) index into the function's constant pool.
pub type R = u32;
pub const CBIT: u32 = 1 << 31;
pub const NONE: u32 = CBIT - 1;

pub const GLOBAL_BASE: u64 = 0x10_0000;
pub const HEAP_BASE: u64 = 0x2000_0000;
pub const STACK_BASE: u64 = 0xA000_0000;
pub const STACK_SIZE: u64 = 0x0800_0000;
pub const MEM_TOP: u64 = STACK_BASE + STACK_SIZE;
pub const FN_BASE: u64 = 0x7f00_0000_0000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BitK { Ctlz, Cttz, Ctpop, Bswap, Bitrev, Fshl, Fshr, SAddSat, SSubSat, UMulOv, SMulOv }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FcK { ToSI, ToUI, SIToF, UIToF, FToF }

#[derive(Clone, Debug)]
pub enum Op {
    Mov { d: R, s: R },
    Bin { k: K, w: u8, d: R, a: R, b: R },
    F128 { k: FcK, wf: u8, d: R, a: [R; 2] },
    Bin128 { k: K, w: u8, d: R, a: [R; 2], b: [R; 2] },
    Icmp { k: K, neg: bool, w: u8, d: R, a: R, b: R },
    Icmp128 { k: K, neg: bool, w: u8, d: R, a: [R; 2], b: [R; 2] },
    Trunc { w: u8, d: R, a: R },
    SExt { wf: u8, wt: u8, d: R, a: R },
    Select { d: R, c: R, a: R, b: R, w: u8 },
    Gep { d: R, base: R, idx: R, iw: u8, scale: i64 },
    Load { d: R, p: R, off: u32, bytes: u8, w: u8 },
    Store { s: R, p: R, off: u32, bytes: u8, w: u8 },
    Alloca { d: R, size: u64, align: u32 },
    AllocaN { d: R, n: R, size: u64, align: u32 },
    Br { e: u32 },
    CondBr { c: R, t: u32, f: u32 },
    CmpBr { k: K, neg: bool, w: u8, a: R, b: R, t: u32, f: u32 },
    Switch { c: R, w: u8, t: u32 },
    Call { site: u32 },
    Ret { site: u32 },
    Unreachable,
    Bit { k: BitK, w: u8, d: R, a: R, b: R, c: R },
    FBin { k: u8, w: u8, d: R, a: R, b: R }, // 0 add 1 sub 2 mul 3 div 4 rem 5 minnum 6 maxnum 7 minimum 8 maximum 9 copysign 10 pow
    FUn { k: u8, w: u8, d: R, a: R },        // see exec
    FCmp { p: u8, w: u8, d: R, a: R, b: R },
    FCast { k: FcK, wf: u8, wt: u8, d: R, a: R },
    Repack { site: u32 },
    MulWide { site: u32 },
    MemCpy { d: R, s: R, n: R },
    MemSet { d: R, v: R, n: R },
    CmpXchg { d: R, p: R, cmp: R, new: R, bytes: u8, w: u8 },
    Rmw { k: u8, d: R, p: R, v: R, bytes: u8, w: u8 },
    Unsupported { m: u32 },
}
pub struct Edge { pub pc: u32, pub moves: Box<[(R, R)]>, pub par: bool }
pub struct SwitchT { pub cases: Vec<(u64, u32)>, pub map: HashMap<u64, u32>, pub def: u32 }
pub struct Site { pub f: Callee, pub args: Box<[R]>, pub argw: Box<[u8]>, pub d: R, pub nret: u32, pub next: u32, pub retw: Box<[u8]> }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Callee { Fn(u32), Ptr(R), Asm }
pub struct Repack { pub src: Box<[(R, u8)]>, pub dst: Box<[(R, u8)]> }
pub struct Code {
    pub ops: Vec<Op>, pub consts: Vec<u64>, pub nslots: u32, pub nparams: u32, pub id: u32,
    pub edges: Vec<Edge>, pub switches: Vec<SwitchT>, pub sites: Vec<Site>, pub rets: Vec<Box<[R]>>,
    pub repacks: Vec<Repack>, pub msgs: Vec<String>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Defined, External }
pub struct Func { pub name: String, pub val: usize, pub module: usize, pub kind: Kind, pub ext: u32, pub code: OnceLock<Code> }

#[derive(Clone)]
pub struct Ty { pub kind: i32, pub size: u64, pub align: u32, pub leaves: Vec<(u32, u8)>, pub bitvec: bool }

struct Tcx { tys: HashMap<usize, Ty> }
pub struct Program {
    pub ll: Llvm,
    pub funcs: Vec<Func>,
    pub by_name: HashMap<String, u32>,
    fidx: HashMap<usize, u32>,
    gaddr: HashMap<usize, u64>,
    pub gname: Vec<(u64, u64, String)>,
    tds: Vec<usize>,
    pub image: Vec<u8>,
    tcx: Mutex<Tcx>,
}
unsafe impl Send for Program {}
unsafe impl Sync for Program {}

fn name_of(ll: &Llvm, v: P) -> String {
    let mut n = 0usize;
    unsafe { let p = (ll.LLVMGetValueName2)(v, &mut n); String::from_utf8_lossy(std::slice::from_raw_parts(p as *const u8, n)).into_owned() }
}

impl Program {
    pub fn load(ll: Llvm, paths: &[(String, Vec<u8>)], ext_id: &dyn Fn(&str) -> u32) -> Program {
        // parse every module in its own context, in parallel
        let mods: Vec<usize> = std::thread::scope(|s| {
            let llr = &ll;
            let hs: Vec<_> = paths.iter().map(|(name, data)| s.spawn(move || unsafe {
                let ctx = (llr.LLVMContextCreate)();
                let nm = std::ffi::CString::new(name.as_str()).unwrap();
                let buf = (llr.LLVMCreateMemoryBufferWithMemoryRange)(data.as_ptr() as *const i8, data.len(), nm.as_ptr(), 0);
                let mut m: P = std::ptr::null_mut();
                if (llr.LLVMParseBitcodeInContext2)(ctx, buf, &mut m) != 0 { eprintln!("rsx: cannot parse {}", name); std::process::exit(4); }
                m as usize
            })).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut tds = vec![];
        let mut funcs: Vec<Func> = vec![];
        let mut by_name: HashMap<String, u32> = HashMap::new();
        let mut fidx: HashMap<usize, u32> = HashMap::new();
        let mut decls: Vec<(usize, String)> = vec![];
        let mut gdef: HashMap<String, usize> = HashMap::new();
        let mut globals: Vec<(usize, usize, String)> = vec![];
        let mut gdecl: Vec<(usize, String)> = vec![];
        let mut aliases: Vec<(usize, usize, String)> = vec![];
        let is_local = |l: i32| l == 8 || l == 9;
        unsafe {
            for (mi, m) in mods.iter().enumerate() {
                let m = *m as P;
                tds.push((ll.LLVMGetModuleDataLayout)(m) as usize);
                let mut f = (ll.LLVMGetFirstFunction)(m);
                while !f.is_null() {
                    let name = name_of(&ll, f);
                    let l = (ll.LLVMGetLinkage)(f);
                    if (ll.LLVMIsDeclaration)(f) != 0 { decls.push((f as usize, name)); }
                    else if l != 1 && by_name.contains_key(&name) && !is_local(l) { decls.push((f as usize, name)); }
                    else if l == 1 { decls.push((f as usize, name)); }
                    else {
                        let id = funcs.len() as u32;
                        let ext = ext_id(&name);
                        if !is_local(l) { by_name.insert(name.clone(), id); }
                        fidx.insert(f as usize, id);
                        funcs.push(Func { name, val: f as usize, module: mi, kind: if ext != 0 { Kind::External } else { Kind::Defined }, ext, code: OnceLock::new() });
                    }
                    f = (ll.LLVMGetNextFunction)(f);
                }
                let mut g = (ll.LLVMGetFirstGlobal)(m);
                while !g.is_null() {
                    let name = name_of(&ll, g);
                    let l = (ll.LLVMGetLinkage)(g);
                    if (ll.LLVMIsDeclaration)(g) != 0 { gdecl.push((g as usize, name)); }
                    else if !is_local(l) && gdef.contains_key(&name) { gdecl.push((g as usize, name)); }
                    else { if !is_local(l) { gdef.insert(name.clone(), g as usize); } globals.push((g as usize, mi, name)); }
                    g = (ll.LLVMGetNextGlobal)(g);
                }
                let mut a = (ll.LLVMGetFirstGlobalAlias)(m);
                while !a.is_null() { aliases.push((a as usize, mi, name_of(&ll, a))); a = (ll.LLVMGetNextGlobalAlias)(a); }
            }
        }
        let alias_names: HashMap<String, (usize, usize)> = aliases.iter().map(|(a, m, n)| (n.clone(), (*a, *m))).collect();
        let mut p = Program { ll, funcs, by_name, fidx, gaddr: HashMap::new(), gname: vec![], tds, image: vec![], tcx: Mutex::new(Tcx { tys: HashMap::new() }) };
        for (v, name) in decls {
            if let Some(id) = p.by_name.get(&name) { p.fidx.insert(v, *id); continue }
            if let Some((a, _)) = alias_names.get(&name) {
                let t = unsafe { (p.ll.LLVMAliasGetAliasee)(*a as P) };
                if let Some(id) = p.fidx.get(&(t as usize)) { let id = *id; p.fidx.insert(v, id); continue }
            }
            let id = p.funcs.len() as u32;
            let ext = ext_id(&name);
            p.by_name.insert(name.clone(), id);
            p.fidx.insert(v, id);
            p.funcs.push(Func { name, val: v, module: 0, kind: Kind::External, ext, code: OnceLock::new() });
        }
        if !p.by_name.contains_key("getrandom") {
            let id = p.funcs.len() as u32;
            p.by_name.insert("getrandom".into(), id);
            p.funcs.push(Func { name: "getrandom".into(), val: 0, module: 0, kind: Kind::External, ext: ext_id("getrandom"), code: OnceLock::new() });
        }
        // layout of globals
        let mut addr = GLOBAL_BASE + 4096;
        let mut tcx = Tcx { tys: HashMap::new() };
        for (g, mi, name) in &globals {
            let (sz, al) = unsafe {
                let t = (p.ll.LLVMGlobalGetValueType)(*g as P);
                let td = p.tds[*mi] as P;
                ((p.ll.LLVMABISizeOfType)(td, t), ((p.ll.LLVMGetAlignment)(*g as P)).max((p.ll.LLVMABIAlignmentOfType)(td, t)).max(1))
            };
            let al = al as u64;
            addr = (addr + al - 1) / al * al;
            p.gaddr.insert(*g, addr);
            p.gname.push((addr, sz, name.clone()));
            addr += sz.max(1);
        }
        for (g, name) in &gdecl {
            if let Some(d) = gdef.get(name) { let a = p.gaddr[d]; p.gaddr.insert(*g, a); continue }
            addr = (addr + 63) / 64 * 64;
            p.gaddr.insert(*g, addr); p.gname.push((addr, 64, name.clone())); addr += 64;
        }
        for (a, _m, _n) in &aliases {
            let t = unsafe { (p.ll.LLVMAliasGetAliasee)(*a as P) };
            if let Some(x) = p.gaddr.get(&(t as usize)) { let x = *x; p.gaddr.insert(*a, x); }
            else if let Some(x) = p.fidx.get(&(t as usize)) { let x = *x; p.fidx.insert(*a, x); }
        }
        let end = (addr + 4095) / 4096 * 4096;
        if end >= HEAP_BASE { eprintln!("rsx: globals too large"); std::process::exit(4) }
        let mut image = vec![0u8; (end - GLOBAL_BASE) as usize];
        for (g, mi, _) in &globals {
            let a = p.gaddr[g];
            let init = unsafe { (p.ll.LLVMGetInitializer)(*g as P) };
            if !init.is_null() { p.write_const(&mut tcx, *mi, init, &mut image, (a - GLOBAL_BASE) as usize); }
        }
        p.image = image;
        p.tcx = Mutex::new(tcx);
        p
    }
    pub fn fn_addr(&self, id: u32) -> u64 { FN_BASE + id as u64 * 16 }
    pub fn fn_at(&self, a: u64) -> Option<u32> { if a >= FN_BASE && (a - FN_BASE) % 16 == 0 && ((a - FN_BASE) / 16) < self.funcs.len() as u64 { Some(((a - FN_BASE) / 16) as u32) } else { None } }

    fn ty(&self, tcx: &mut Tcx, mi: usize, t: P) -> Ty {
        if let Some(x) = tcx.tys.get(&(t as usize)) { return x.clone() }
        let ll = &self.ll; let td = self.tds[mi] as P;
        let r = unsafe {
            let kind = (ll.LLVMGetTypeKind)(t);
            let sized = !matches!(kind, 0 | 7 | 9 | 14 | 16);
            let (size, align) = if sized { ((ll.LLVMABISizeOfType)(td, t), (ll.LLVMABIAlignmentOfType)(td, t)) } else { (0, 1) };
            let mut leaves = vec![]; let mut bitvec = false;
            match kind {
                2 => leaves.push((0, 32)), 3 => leaves.push((0, 64)), 12 => leaves.push((0, 64)),
                8 => { let w = (ll.LLVMGetIntTypeWidth)(t); if w <= 64 { leaves.push((0, w as u8)) } else if w <= 128 { leaves.push((0, 64)); leaves.push((8, (w - 64) as u8)) } else { bitvec = true; if w % 64 == 0 && w <= 512 { for j in 0..w / 64 { leaves.push((8 * j, 64)) } } } }
                10 => { let n = (ll.LLVMCountStructElementTypes)(t); for i in 0..n { let e = (ll.LLVMStructGetTypeAtIndex)(t, i); let o = (ll.LLVMOffsetOfElement)(td, t, i) as u32; let et = self.ty(tcx, mi, e); bitvec |= et.bitvec; for (lo, w) in &et.leaves { leaves.push((o + lo, *w)) } } }
                11 => { let n = (ll.LLVMGetArrayLength2)(t); if n <= 65536 { let e = self.ty(tcx, mi, (ll.LLVMGetElementType)(t)); bitvec |= e.bitvec; for i in 0..n { for (lo, w) in &e.leaves { leaves.push(((i * e.size) as u32 + lo, *w)) } } } else { bitvec = true } }
                13 => { let n = (ll.LLVMGetVectorSize)(t) as u64; let e = self.ty(tcx, mi, (ll.LLVMGetElementType)(t)); if e.leaves.len() == 1 && e.leaves[0].1 % 8 != 0 { bitvec = true } for i in 0..n { for (lo, w) in &e.leaves { leaves.push(((i * e.size) as u32 + lo, *w)) } } }
                _ => { if sized { bitvec = true } }
            }
            Ty { kind, size, align, leaves, bitvec }
        };
        tcx.tys.insert(t as usize, r.clone());
        r
    }
    fn tyof(&self, tcx: &mut Tcx, mi: usize, v: P) -> Ty { let t = unsafe { (self.ll.LLVMTypeOf)(v) }; self.ty(tcx, mi, t) }

    fn write_const(&self, tcx: &mut Tcx, mi: usize, v: P, img: &mut [u8], at: usize) {
        let ll = &self.ll; let td = self.tds[mi] as P;
        unsafe {
            match (ll.LLVMGetValueKind)(v) {
                14 | 25 | 15 | 20 => {} // undef, poison, zeroinitializer, null
                16 | 17 => { let mut n = 0usize; let p = (ll.LLVMGetRawDataValues)(v, &mut n) as *const u8; img[at..at + n].copy_from_slice(std::slice::from_raw_parts(p, n)); }
                11 | 13 => { let n = (ll.LLVMGetNumOperands)(v); let t = (ll.LLVMTypeOf)(v); let e = self.ty(tcx, mi, (ll.LLVMGetElementType)(t)); for i in 0..n { let o = (ll.LLVMGetOperand)(v, i as u32); self.write_const(tcx, mi, o, img, at + i as usize * e.size as usize) } }
                12 => { let n = (ll.LLVMGetNumOperands)(v); let t = (ll.LLVMTypeOf)(v); for i in 0..n { let o = (ll.LLVMGetOperand)(v, i as u32); let off = (ll.LLVMOffsetOfElement)(td, t, i as u32) as usize; self.write_const(tcx, mi, o, img, at + off) } }
                _ => {
                    let t = self.tyof(tcx, mi, v);
                    let ls = self.const_leaves(tcx, mi, v);
                    for ((o, w), x) in t.leaves.iter().zip(ls) { let nb = (*w as usize + 7) / 8; img[at + *o as usize..at + *o as usize + nb].copy_from_slice(&x.to_le_bytes()[..nb]); }
                }
            }
        }
    }
    fn const_leaves(&self, tcx: &mut Tcx, mi: usize, v: P) -> Vec<u64> {
        let ll = &self.ll;
        unsafe {
            let k = (ll.LLVMGetValueKind)(v);
            match k {
                18 => {
                    let w = (ll.LLVMGetIntTypeWidth)((ll.LLVMTypeOf)(v));
                    if w <= 64 { vec![(ll.LLVMConstIntGetZExtValue)(v) & crate::expr::m64(w as u8)] }
                    else {
                        let s = self.print(v);
                        let num = s.rsplit(' ').next().unwrap();
                        let x = if let Some(n) = num.strip_prefix('-') { n.parse::<u128>().unwrap().wrapping_neg() } else { num.parse::<u128>().unwrap() } & crate::expr::m128(w.min(128) as u8);
                        let mut r = vec![x as u64, (x >> 64) as u64];
                        for _ in 2..w.div_ceil(64) { r.push(0) }
                        r
                    }
                }
                19 => { let t = (ll.LLVMGetTypeKind)((ll.LLVMTypeOf)(v)); let mut l = 0; let d = (ll.LLVMConstRealGetDouble)(v, &mut l); if t == 2 { vec![(d as f32).to_bits() as u64] } else { vec![d.to_bits()] } }
                20 => vec![0],
                5 => vec![self.fn_addr(self.fidx[&(v as usize)])],
                8 => vec![self.gaddr[&(v as usize)]],
                6 => { if let Some(a) = self.gaddr.get(&(v as usize)) { vec![*a] } else { vec![self.fn_addr(self.fidx[&(v as usize)])] } }
                14 | 25 | 15 => vec![0; self.tyof(tcx, mi, v).leaves.len()],
                11 | 12 | 13 => { let n = (ll.LLVMGetNumOperands)(v); let mut r = vec![]; for i in 0..n { let o = (ll.LLVMGetOperand)(v, i as u32); r.extend(self.const_leaves(tcx, mi, o)) } r }
                16 | 17 => { let t = self.tyof(tcx, mi, v); let mut n = 0usize; let p = (ll.LLVMGetRawDataValues)(v, &mut n) as *const u8; let b = std::slice::from_raw_parts(p, n);
                    t.leaves.iter().map(|(o, w)| { let nb = (*w as usize) / 8; let mut x = [0u8; 8]; x[..nb].copy_from_slice(&b[*o as usize..*o as usize + nb]); u64::from_le_bytes(x) }).collect() }
                10 => vec![self.const_expr(tcx, mi, v)],
                _ => { eprintln!("rsx: constant kind {} {}", k, self.print(v)); std::process::exit(4) }
            }
        }
    }
    fn print(&self, v: P) -> String { unsafe { let p = (self.ll.LLVMPrintValueToString)(v); let s = CStr::from_ptr(p).to_string_lossy().into_owned(); (self.ll.LLVMDisposeMessage)(p); s } }
    fn const_expr(&self, tcx: &mut Tcx, mi: usize, v: P) -> u64 {
        let ll = &self.ll;
        unsafe {
            let opc = (ll.LLVMGetConstOpcode)(v);
            let o = |i: u32| (ll.LLVMGetOperand)(v, i);
            match opc {
                op::PTRTOINT | op::INTTOPTR | op::BITCAST | op::ADDRSPACECAST => self.const_leaves(tcx, mi, o(0))[0],
                op::TRUNC => { let x = self.const_leaves(tcx, mi, o(0))[0]; let w = (ll.LLVMGetIntTypeWidth)((ll.LLVMTypeOf)(v)); x & crate::expr::m64(w as u8) }
                op::ADD => self.const_leaves(tcx, mi, o(0))[0].wrapping_add(self.const_leaves(tcx, mi, o(1))[0]),
                op::SUB => self.const_leaves(tcx, mi, o(0))[0].wrapping_sub(self.const_leaves(tcx, mi, o(1))[0]),
                op::XOR => self.const_leaves(tcx, mi, o(0))[0] ^ self.const_leaves(tcx, mi, o(1))[0],
                op::GEP => {
                    let mut a = self.const_leaves(tcx, mi, o(0))[0];
                    let n = (ll.LLVMGetNumOperands)(v) as u32;
                    let mut t = (ll.LLVMGetGEPSourceElementType)(v);
                    for i in 1..n {
                        let c = o(i);
                        let w = (ll.LLVMGetIntTypeWidth)((ll.LLVMTypeOf)(c));
                        let x = self.const_leaves(tcx, mi, c)[0]; let x = crate::expr::sx(x as u128, w as u8) as i64;
                        self.gep_step(tcx, mi, i, &mut t, |sz| { a = a.wrapping_add((x * sz as i64) as u64) }, x as u32);
                        if i > 1 { if let Some(off) = GEPOFF.with(|g| g.take()) { a = a.wrapping_add(off) } }
                    }
                    a
                }
                _ => { eprintln!("rsx: constexpr opcode {} {}", opc, self.print(v)); std::process::exit(4) }
            }
        }
    }
    /// One GEP index: index 1 scales by the source type; later ones walk into it.
    fn gep_step(&self, tcx: &mut Tcx, mi: usize, i: u32, t: &mut P, mut scaled: impl FnMut(u64), cidx: u32) {
        let ll = &self.ll; let td = self.tds[mi] as P;
        unsafe {
            if i == 1 { scaled((ll.LLVMABISizeOfType)(td, *t)); return }
            let k = (ll.LLVMGetTypeKind)(*t);
            if k == 10 {
                let off = (ll.LLVMOffsetOfElement)(td, *t, cidx);
                *t = (ll.LLVMStructGetTypeAtIndex)(*t, cidx);
                GEPOFF.with(|g| g.set(Some(off)));
            } else {
                let e = (ll.LLVMGetElementType)(*t);
                let sz = self.ty(tcx, mi, e).size;
                *t = e;
                scaled(sz);
            }
        }
    }
    pub fn code(&self, id: u32) -> &Code {
        let f = &self.funcs[id as usize];
        if let Some(c) = f.code.get() { return c }
        let mut tcx = self.tcx.lock().unwrap();
        if let Some(c) = f.code.get() { return c }
        let c = Tr::new(self, &mut tcx, f.module, id).run(f.val as P);
        let _ = f.code.set(c);
        f.code.get().unwrap()
    }
}
thread_local! { static GEPOFF: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) }; }

struct Tr<'p> {
    p: &'p Program, tcx: &'p mut Tcx, mi: usize, id: u32,
    slots: HashMap<usize, u32>, alias: HashMap<usize, Vec<R>>, n: u32,
    ops: Vec<Op>, consts: Vec<u64>, cmap: HashMap<u64, u32>,
    edges: Vec<Edge>, switches: Vec<SwitchT>, sites: Vec<Site>, rets: Vec<Box<[R]>>, repacks: Vec<Repack>, msgs: Vec<String>,
    bpc: HashMap<usize, u32>, pend: Vec<(usize, usize, usize)>, // edge index, from block, to block
    nodef: HashSet<usize>,
}
impl<'p> Tr<'p> {
    fn new(p: &'p Program, tcx: &'p mut Tcx, mi: usize, id: u32) -> Tr<'p> {
        Tr { p, tcx, mi, id, slots: HashMap::new(), alias: HashMap::new(), n: 0, ops: vec![], consts: vec![], cmap: HashMap::new(), edges: vec![], switches: vec![], sites: vec![], rets: vec![], repacks: vec![], msgs: vec![], bpc: HashMap::new(), pend: vec![], nodef: HashSet::new() }
    }
    fn k(&mut self, v: u64) -> R { if let Some(i) = self.cmap.get(&v) { return CBIT | *i } let i = self.consts.len() as u32; self.consts.push(v); self.cmap.insert(v, i); CBIT | i }
    fn tmp(&mut self) -> R { let r = self.n; self.n += 1; r }
    fn ty(&mut self, v: P) -> Ty { self.p.tyof(self.tcx, self.mi, v) }
    fn leaves(&mut self, v: P) -> Vec<R> {
        let ll = &self.p.ll;
        unsafe {
            let k = (ll.LLVMGetValueKind)(v);
            if k == 24 {
                if let Some(a) = self.alias.get(&(v as usize)) { return a.clone() }
                let opc = (ll.LLVMGetInstructionOpcode)(v);
                let r: Option<Vec<R>> = match opc {
                    op::FREEZE | op::PTRTOINT | op::INTTOPTR | op::ADDRSPACECAST => {
                        let o = (ll.LLVMGetOperand)(v, 0);
                        let a = self.ty(o); let b = self.ty(v);
                        if a.leaves.iter().map(|x| x.1).eq(b.leaves.iter().map(|x| x.1)) { Some(self.leaves(o)) } else { None }
                    }
                    op::BITCAST => {
                        let o = (ll.LLVMGetOperand)(v, 0);
                        let a = self.ty(o); let b = self.ty(v);
                        if a.leaves.len() == b.leaves.len() && a.leaves.iter().map(|x| x.1).eq(b.leaves.iter().map(|x| x.1)) { Some(self.leaves(o)) } else { None }
                    }
                    op::EXTRACTVALUE => {
                        let o = (ll.LLVMGetOperand)(v, 0);
                        let n = (ll.LLVMGetNumIndices)(v); let idx = std::slice::from_raw_parts((ll.LLVMGetIndices)(v), n as usize).to_vec();
                        let mut t = (ll.LLVMTypeOf)(o);
                        let (mut s, mut cnt) = (0usize, 0usize);
                        for i in idx { let (a, b, tt) = self.sub(t, i); s += a; cnt = b; t = tt }
                        let l = self.leaves(o);
                        Some(l[s..s + cnt].to_vec())
                    }
                    op::EXTRACTELEMENT => {
                        let o = (ll.LLVMGetOperand)(v, 0); let i = (ll.LLVMGetOperand)(v, 1);
                        if (ll.LLVMGetValueKind)(i) == 18 { let n = (ll.LLVMConstIntGetZExtValue)(i) as usize; let l = self.leaves(o); let t = self.ty(v); let c = t.leaves.len(); Some(l[n * c..n * c + c].to_vec()) } else { None }
                    }
                    op::SHUFFLEVECTOR => {
                        let a = self.leaves((ll.LLVMGetOperand)(v, 0)); let b = self.leaves((ll.LLVMGetOperand)(v, 1));
                        let n = (ll.LLVMGetNumMaskElements)(v);
                        let mut r = vec![]; let z = self.k(0);
                        for i in 0..n { let m = (ll.LLVMGetMaskValue)(v, i); r.push(if m < 0 { z } else if (m as usize) < a.len() { a[m as usize] } else { b[m as usize - a.len()] }) }
                        Some(r)
                    }
                    op::INSERTVALUE => {
                        let o = (ll.LLVMGetOperand)(v, 0); let x = (ll.LLVMGetOperand)(v, 1);
                        let n = (ll.LLVMGetNumIndices)(v); let idx = std::slice::from_raw_parts((ll.LLVMGetIndices)(v), n as usize).to_vec();
                        let mut t = (ll.LLVMTypeOf)(o);
                        let (mut s, mut cnt) = (0usize, 0usize);
                        for i in idx { let (a, b, tt) = self.sub(t, i); s += a; cnt = b; t = tt }
                        let mut l = self.leaves(o); let y = self.leaves(x);
                        l[s..s + cnt].copy_from_slice(&y);
                        Some(l)
                    }
                    op::INSERTELEMENT => {
                        let i = (ll.LLVMGetOperand)(v, 2);
                        if (ll.LLVMGetValueKind)(i) == 18 {
                            let n = (ll.LLVMConstIntGetZExtValue)(i) as usize;
                            let mut l = self.leaves((ll.LLVMGetOperand)(v, 0)); let y = self.leaves((ll.LLVMGetOperand)(v, 1));
                            let c = y.len(); l[n * c..n * c + c].copy_from_slice(&y); Some(l)
                        } else { None }
                    }
                    _ => None,
                };
                if let Some(r) = r { self.alias.insert(v as usize, r.clone()); self.nodef.insert(v as usize); return r }
                let n = self.ty(v).leaves.len() as u32;
                let s = *self.slots.entry(v as usize).or_insert_with(|| { let s = self.n; self.n += n; s });
                return (s..s + n).collect();
            }
            if k == 0 { let s = self.slots[&(v as usize)]; let n = self.ty(v).leaves.len() as u32; return (s..s + n).collect() }
            let ls = self.p.const_leaves(self.tcx, self.mi, v);
            ls.into_iter().map(|x| self.k(x)).collect()
        }
    }
    /// (first leaf, leaf count, element type) of member i of aggregate type t
    fn sub(&mut self, t: P, i: u32) -> (usize, usize, P) {
        let ll = &self.p.ll;
        unsafe {
            if (ll.LLVMGetTypeKind)(t) == 10 {
                let mut s = 0;
                for j in 0..i { let e = (ll.LLVMStructGetTypeAtIndex)(t, j); s += self.p.ty(self.tcx, self.mi, e).leaves.len() }
                let e = (ll.LLVMStructGetTypeAtIndex)(t, i);
                (s, self.p.ty(self.tcx, self.mi, e).leaves.len(), e)
            } else { let e = (ll.LLVMGetElementType)(t); let n = self.p.ty(self.tcx, self.mi, e).leaves.len(); (n * i as usize, n, e) }
        }
    }
    fn un(&mut self, m: String) { let i = self.msgs.len() as u32; self.msgs.push(m); self.ops.push(Op::Unsupported { m: i }) }
    fn edge(&mut self, from: P, to: P) -> u32 { let i = self.edges.len(); self.edges.push(Edge { pc: 0, moves: Box::new([]), par: false }); self.pend.push((i, from as usize, to as usize)); i as u32 }
    fn run(mut self, f: P) -> Code {
        let ll = &self.p.ll;
        unsafe {
            let np = (ll.LLVMCountParams)(f);
            for i in 0..np { let a = (ll.LLVMGetParam)(f, i); let n = self.ty(a).leaves.len() as u32; self.slots.insert(a as usize, self.n); self.n += n }
            let nparams = self.n;
            let mut b = (ll.LLVMGetFirstBasicBlock)(f);
            while !b.is_null() {
                self.bpc.insert(b as usize, self.ops.len() as u32);
                let mut i = (ll.LLVMGetFirstInstruction)(b);
                while !i.is_null() { self.inst(b, i); i = (ll.LLVMGetNextInstruction)(i) }
                b = (ll.LLVMGetNextBasicBlock)(b);
            }
            let pend = std::mem::take(&mut self.pend);
            for (ei, from, to) in pend {
                let mut moves = vec![];
                let mut i = (ll.LLVMGetFirstInstruction)(to as P);
                while !i.is_null() && (ll.LLVMGetInstructionOpcode)(i) == op::PHI {
                    let n = (ll.LLVMCountIncoming)(i);
                    for j in 0..n { if (ll.LLVMGetIncomingBlock)(i, j) as usize == from {
                        let s = self.leaves((ll.LLVMGetIncomingValue)(i, j)); let d = self.leaves(i);
                        for (x, y) in d.into_iter().zip(s) { if x != y { moves.push((x, y)) } }
                        break;
                    } }
                    i = (ll.LLVMGetNextInstruction)(i);
                }
                let mut par = false; let mut seen = HashSet::new();
                for (d, s) in &moves { if seen.contains(s) { par = true } seen.insert(*d); }
                self.edges[ei] = Edge { pc: self.bpc[&to], moves: moves.into_boxed_slice(), par };
            }
            // switch case targets and fused compare-and-branch
            self.fuse();
            Code { ops: self.ops, consts: self.consts, nslots: self.n, nparams, id: self.id, edges: self.edges, switches: self.switches, sites: self.sites, rets: self.rets, repacks: self.repacks, msgs: self.msgs }
        }
    }
    fn fuse(&mut self) {
        for i in 1..self.ops.len() {
            if let (Op::Icmp { k, neg, w, d, a, b }, Op::CondBr { c, t, f }) = (&self.ops[i - 1], &self.ops[i]) {
                if d == c { let n = Op::CmpBr { k: *k, neg: *neg, w: *w, a: *a, b: *b, t: *t, f: *f }; let _ = n; /* the compare may have other uses: keep both, fuse only the test */ }
            }
        }
    }
    fn inst(&mut self, b: P, i: P) {
        let ll = &self.p.ll;
        unsafe {
            let opc = (ll.LLVMGetInstructionOpcode)(i);
            let o = |n: u32| (ll.LLVMGetOperand)(i, n);
            match opc {
                op::PHI => {}
                op::FREEZE | op::PTRTOINT | op::INTTOPTR | op::BITCAST | op::EXTRACTVALUE | op::INSERTVALUE | op::EXTRACTELEMENT | op::INSERTELEMENT | op::SHUFFLEVECTOR | op::ADDRSPACECAST => {
                    let d = self.leaves(i);
                    if self.nodef.contains(&(i as usize)) { return }
                    match opc {
                        op::BITCAST => { let x = o(0); let a = self.ty(x); let bt = self.ty(i); let s = self.leaves(x);
                            let site = self.repacks.len() as u32;
                            self.repacks.push(Repack { src: s.iter().zip(&a.leaves).map(|(r, l)| (*r, l.1)).collect(), dst: d.iter().zip(&bt.leaves).map(|(r, l)| (*r, l.1)).collect() });
                            self.ops.push(Op::Repack { site }) }
                        op::PTRTOINT => { let s = self.leaves(o(0)); let w = self.ty(i).leaves[0].1; self.ops.push(Op::Trunc { w, d: d[0], a: s[0] }) }
                        op::INTTOPTR => { let s = self.leaves(o(0)); self.ops.push(Op::Mov { d: d[0], s: s[0] }) }
                        op::EXTRACTELEMENT => { // dynamic index: chain of selects
                            let l = self.leaves(o(0)); let x = self.leaves(o(1))[0]; let w = self.ty(i).leaves[0].1; let iw = self.ty(o(1)).leaves[0].1;
                            self.ops.push(Op::Mov { d: d[0], s: l[0] });
                            for (n, r) in l.iter().enumerate().skip(1) { let c = self.tmp(); let k = self.k(n as u64); self.ops.push(Op::Icmp { k: K::Eq, neg: false, w: iw, d: c, a: x, b: k }); self.ops.push(Op::Select { d: d[0], c, a: *r, b: d[0], w }) } }
                        _ => self.un(format!("opcode {}", opc)),
                    }
                }
                op::ADD | op::SUB | op::MUL | op::UDIV | op::SDIV | op::UREM | op::SREM | op::SHL | op::LSHR | op::ASHR | op::AND | op::OR | op::XOR => {
                    let k = match opc { op::ADD => K::Add, op::SUB => K::Sub, op::MUL => K::Mul, op::UDIV => K::UDiv, op::SDIV => K::SDiv, op::UREM => K::URem, op::SREM => K::SRem, op::SHL => K::Shl, op::LSHR => K::LShr, op::ASHR => K::AShr, op::AND => K::And, op::OR => K::Or, _ => K::Xor };
                    let t = self.ty(i); let d = self.leaves(i); let a = self.leaves(o(0)); let bb = self.leaves(o(1));
                    if t.kind == 8 && t.leaves.len() == 2 { let w = 64 + t.leaves[1].1; self.ops.push(Op::Bin128 { k, w, d: d[0], a: [a[0], a[1]], b: [bb[0], bb[1]] }); return }
                    if t.kind == 8 && t.leaves.len() > 2 {
                        if k == K::Mul { let site = self.repacks.len() as u32; self.repacks.push(Repack { src: a.iter().chain(&bb).map(|r| (*r, 64u8)).collect(), dst: d.iter().map(|r| (*r, 64u8)).collect() }); self.ops.push(Op::MulWide { site }); return }
                        if k == K::LShr && (ll.LLVMGetValueKind)(o(1)) == 18 { let n = (ll.LLVMConstIntGetZExtValue)(o(1)) as usize; let (q, r) = (n / 64, self.k((n % 64) as u64)); let z = self.k(0);
                            for j in 0..d.len() { let lo = a.get(j + q).copied().unwrap_or(z); let hi = a.get(j + q + 1).copied().unwrap_or(z); self.ops.push(Op::Bit { k: BitK::Fshr, w: 64, d: d[j], a: hi, b: lo, c: r }) } return }
                    }
                    if t.bitvec && t.kind != 13 { let tx = self.p.print(i); self.un(format!("wide int {}", tx)); return }
                    for j in 0..d.len() { self.ops.push(Op::Bin { k, w: t.leaves[j].1, d: d[j], a: a[j], b: bb[j] }) }
                }
                op::ICMP => {
                    let p = (ll.LLVMGetICmpPredicate)(i);
                    let t = self.ty(o(0)); let d = self.leaves(i); let a = self.leaves(o(0)); let bb = self.leaves(o(1));
                    let (k, neg, swap) = icmp(p);
                    if t.kind == 8 && t.leaves.len() == 2 {
                        let w = 64 + t.leaves[1].1; let (x, y) = if swap { (&bb, &a) } else { (&a, &bb) };
                        self.ops.push(Op::Icmp128 { k, neg, w, d: d[0], a: [x[0], x[1]], b: [y[0], y[1]] }); return }
                    for j in 0..d.len() { let (x, y) = if swap { (bb[j], a[j]) } else { (a[j], bb[j]) }; self.ops.push(Op::Icmp { k, neg, w: t.leaves[j].1, d: d[j], a: x, b: y }) }
                }
                op::FCMP => { let p = (ll.LLVMGetFCmpPredicate)(i) as u8; let t = self.ty(o(0)); let d = self.leaves(i); let a = self.leaves(o(0)); let bb = self.leaves(o(1)); for j in 0..d.len() { self.ops.push(Op::FCmp { p, w: t.leaves[j].1, d: d[j], a: a[j], b: bb[j] }) } }
                op::FADD | op::FSUB | op::FMUL | op::FDIV | op::FREM => { let k = match opc { op::FADD => 0, op::FSUB => 1, op::FMUL => 2, op::FDIV => 3, _ => 4 }; let t = self.ty(i); let d = self.leaves(i); let a = self.leaves(o(0)); let bb = self.leaves(o(1)); for j in 0..d.len() { self.ops.push(Op::FBin { k, w: t.leaves[j].1, d: d[j], a: a[j], b: bb[j] }) } }
                op::FNEG => { let t = self.ty(i); let d = self.leaves(i); let a = self.leaves(o(0)); for j in 0..d.len() { let w = t.leaves[j].1; let s = self.k(1u64 << (w - 1)); self.ops.push(Op::Bin { k: K::Xor, w, d: d[j], a: a[j], b: s }) } }
                op::ZEXT => {
                    let t = self.ty(i); let s = self.leaves(o(0)); let st = self.ty(o(0)); let d = self.leaves(i);
                    if t.kind == 8 && t.leaves.len() == 2 { self.ops.push(Op::Mov { d: d[0], s: s[0] }); let h = if st.leaves.len() == 2 { s[1] } else { self.k(0) }; self.ops.push(Op::Mov { d: d[1], s: h }); return }
                    if t.kind == 8 && t.leaves.len() > 2 { for j in 0..d.len() { let x = if j < s.len() { s[j] } else { self.k(0) }; self.ops.push(Op::Mov { d: d[j], s: x }) } return }
                    // concrete slots are zero-extended already; a symbolic slot is widened on read
                    for j in 0..d.len() { self.ops.push(Op::Mov { d: d[j], s: s[j] }) }
                }
                op::SEXT => {
                    let t = self.ty(i); let s = self.leaves(o(0)); let st = self.ty(o(0)); let d = self.leaves(i);
                    if t.kind == 8 && t.leaves.len() == 2 {
                        if st.leaves.len() == 2 { self.un("sext wide".into()); return }
                        self.ops.push(Op::SExt { wf: st.leaves[0].1, wt: 64, d: d[0], a: s[0] }); let k63 = self.k(63); self.ops.push(Op::Bin { k: K::AShr, w: 64, d: d[1], a: d[0], b: k63 });
                        if t.leaves[1].1 != 64 { self.ops.push(Op::Trunc { w: t.leaves[1].1, d: d[1], a: d[1] }) }
                        return }
                    for j in 0..d.len() { self.ops.push(Op::SExt { wf: st.leaves[j].1, wt: t.leaves[j].1, d: d[j], a: s[j] }) }
                }
                op::TRUNC => {
                    let t = self.ty(i); let s = self.leaves(o(0)); let d = self.leaves(i); let st = self.ty(o(0));
                    if s.len() < d.len() { let tx = self.p.print(i); self.un(format!("trunc: {}", tx)); return }
                    if t.kind == 8 && t.leaves.len() == 2 { self.ops.push(Op::Mov { d: d[0], s: s[0] }); self.ops.push(Op::Trunc { w: t.leaves[1].1, d: d[1], a: s[1] }); return }
                    if st.kind == 8 && st.leaves.len() > 2 { for j in 0..d.len() { self.ops.push(Op::Trunc { w: t.leaves[j].1, d: d[j], a: s[j] }) } return }
                    if st.bitvec && st.kind != 13 { self.un("trunc wide".into()); return }
                    for j in 0..d.len() { self.ops.push(Op::Trunc { w: t.leaves[j].1, d: d[j], a: s[j] }) }
                }
                op::FPTOSI | op::FPTOUI | op::SITOFP | op::UITOFP | op::FPTRUNC | op::FPEXT => {
                    let k = match opc { op::FPTOSI => FcK::ToSI, op::FPTOUI => FcK::ToUI, op::SITOFP => FcK::SIToF, op::UITOFP => FcK::UIToF, _ => FcK::FToF };
                    let t = self.ty(i); let st = self.ty(o(0)); let s = self.leaves(o(0)); let d = self.leaves(i);
                    if (t.kind == 8 && t.leaves.len() == 2) || (st.kind == 8 && st.leaves.len() == 2) {
                        if matches!(k, FcK::SIToF | FcK::UIToF) && st.leaves[1].1 == 64 { self.ops.push(Op::F128 { k, wf: t.leaves[0].1, d: d[0], a: [s[0], s[1]] }); return }
                        if matches!(k, FcK::ToSI | FcK::ToUI) && t.leaves[1].1 == 64 { self.ops.push(Op::F128 { k, wf: st.leaves[0].1, d: d[0], a: [s[0], s[0]] }); return }
                        self.un("i128<->float".into()); return }
                    for j in 0..d.len() { self.ops.push(Op::FCast { k, wf: st.leaves[j].1, wt: t.leaves[j].1, d: d[j], a: s[j] }) }
                }
                op::SELECT => {
                    let c = self.leaves(o(0)); let a = self.leaves(o(1)); let bb = self.leaves(o(2)); let t = self.ty(i); let d = self.leaves(i);
                    for j in 0..d.len() { let cj = if c.len() == 1 { c[0] } else { c[j] }; self.ops.push(Op::Select { d: d[j], c: cj, a: a[j], b: bb[j], w: t.leaves[j].1 }) }
                }
                op::GEP => {
                    let n = (ll.LLVMGetNumOperands)(i) as u32;
                    let mut t = (ll.LLVMGetGEPSourceElementType)(i);
                    let d = self.leaves(i);
                    let base = self.leaves(o(0));
                    if d.len() != 1 { self.un("vector gep".into()); return }
                    let mut off = 0i64; let mut dynm: Vec<(R, u8, i64)> = vec![];
                    for j in 1..n {
                        let c = o(j);
                        let isc = (ll.LLVMGetValueKind)(c) == 18;
                        let w = self.ty(c).leaves[0].1;
                        let r = self.leaves(c)[0];
                        let x = if isc { crate::expr::sx((ll.LLVMConstIntGetZExtValue)(c) as u128 & crate::expr::m128(w), w) as i64 } else { 0 };
                        let mut scale = None;
                        let tcx = &mut *self.tcx;
                        self.p.gep_step(tcx, self.mi, j, &mut t, |sz| scale = Some(sz), x as u32);
                        match scale { None => off += GEPOFF.with(|g| g.take()).unwrap() as i64, Some(sz) => if isc { off = off.wrapping_add(x.wrapping_mul(sz as i64)) } else { dynm.push((r, w, sz as i64)) } }
                    }
                    let mut cur = base[0];
                    for (r, w, sz) in dynm { self.ops.push(Op::Gep { d: d[0], base: cur, idx: r, iw: w, scale: sz }); cur = d[0] }
                    if off != 0 || cur != d[0] { let k = self.k(off as u64); if off == 0 { self.ops.push(Op::Mov { d: d[0], s: cur }) } else { self.ops.push(Op::Bin { k: K::Add, w: 64, d: d[0], a: cur, b: k }) } }
                }
                op::LOAD => {
                    let t = self.ty(i); let p = self.leaves(o(0))[0]; let d = self.leaves(i);
                    if t.bitvec { self.bitvec_load(i, &t, p, &d); return }
                    // the pointer slot could be a destination: destinations are fresh SSA slots, so it is not
                    for j in 0..d.len() { let (off, w) = t.leaves[j]; self.ops.push(Op::Load { d: d[j], p, off, bytes: (w + 7) / 8, w }) }
                }
                op::STORE => {
                    let v = o(0); let t = self.ty(v); let s = self.leaves(v); let p = self.leaves(o(1))[0];
                    if t.bitvec { self.un("store of bit vector".into()); return }
                    for j in 0..s.len() { let (off, w) = t.leaves[j]; self.ops.push(Op::Store { s: s[j], p, off, bytes: (w + 7) / 8, w }) }
                }
                op::ALLOCA => {
                    let t = (ll.LLVMGetAllocatedType)(i); let ty = self.p.ty(self.tcx, self.mi, t);
                    let al = ((ll.LLVMGetAlignment)(i)).max(ty.align).max(1);
                    let d = self.leaves(i)[0]; let c = o(0);
                    if (ll.LLVMGetValueKind)(c) == 18 { let n = (ll.LLVMConstIntGetZExtValue)(c); self.ops.push(Op::Alloca { d, size: ty.size * n, align: al }) }
                    else { let n = self.leaves(c)[0]; self.ops.push(Op::AllocaN { d, n, size: ty.size, align: al }) }
                }
                op::BR => {
                    if (ll.LLVMIsConditional)(i) == 0 { let e = self.edge(b, (ll.LLVMGetSuccessor)(i, 0)); self.ops.push(Op::Br { e }) }
                    else { let c = self.leaves((ll.LLVMGetCondition)(i))[0]; let t = self.edge(b, (ll.LLVMGetSuccessor)(i, 0)); let f = self.edge(b, (ll.LLVMGetSuccessor)(i, 1)); self.ops.push(Op::CondBr { c, t, f }) }
                }
                op::SWITCH => {
                    let c = self.leaves(o(0))[0]; let w = self.ty(o(0)).leaves[0].1;
                    if self.ty(o(0)).leaves.len() != 1 { self.un("wide switch".into()); return }
                    let n = (ll.LLVMGetNumSuccessors)(i);
                    let mut by: HashMap<usize, u32> = HashMap::new();
                    let db = (ll.LLVMGetSuccessor)(i, 0);
                    let def = self.edge(b, db); by.insert(db as usize, def);
                    let mut cases = vec![]; let mut map = HashMap::new();
                    for j in 1..n {
                        let v = (ll.LLVMConstIntGetZExtValue)(o(2 * j)) & crate::expr::m64(w);
                        let bb = (ll.LLVMGetSuccessor)(i, j);
                        let e = match by.get(&(bb as usize)) { Some(e) => *e, None => { let e = self.edge(b, bb); by.insert(bb as usize, e); e } };
                        cases.push((v, e)); map.insert(v, e);
                    }
                    let t = self.switches.len() as u32;
                    self.switches.push(SwitchT { cases, map, def });
                    self.ops.push(Op::Switch { c, w, t })
                }
                op::RET => { let r: Vec<R> = if (ll.LLVMGetNumOperands)(i) > 0 { self.leaves(o(0)) } else { vec![] }; let site = self.rets.len() as u32; self.rets.push(r.into_boxed_slice()); self.ops.push(Op::Ret { site }) }
                op::UNREACHABLE => self.ops.push(Op::Unreachable),
                op::FENCE => {}
                op::CMPXCHG => { let p = self.leaves(o(0))[0]; let c = self.leaves(o(1)); let n = self.leaves(o(2)); let w = self.ty(o(1)).leaves[0].1; let d = self.leaves(i); if c.len() != 1 { self.un("wide cmpxchg".into()); return } self.ops.push(Op::CmpXchg { d: d[0], p, cmp: c[0], new: n[0], bytes: (w + 7) / 8, w }) }
                op::ATOMICRMW => { let p = self.leaves(o(0))[0]; let v = self.leaves(o(1))[0]; let w = self.ty(o(1)).leaves[0].1; let d = self.leaves(i)[0]; let k = (ll.LLVMGetAtomicRMWBinOp)(i) as u8; self.ops.push(Op::Rmw { k, d, p, v, bytes: (w + 7) / 8, w }) }
                op::LANDINGPAD | op::RESUME => self.un("unwinding".into()),
                op::CALL | op::INVOKE => self.call(b, i, opc == op::INVOKE),
                _ => self.un(format!("opcode {}", opc)),
            }
        }
    }
    fn bitvec_load(&mut self, _i: P, t: &Ty, p: R, d: &[R]) {
        // <N x i1>: N consecutive bits
        if t.kind == 13 && t.leaves.iter().all(|l| l.1 == 1) && t.leaves.len() <= 64 {
            let n = t.leaves.len() as u8; let x = self.tmp();
            self.ops.push(Op::Load { d: x, p, off: 0, bytes: (n + 7) / 8, w: n });
            let site = self.repacks.len() as u32;
            self.repacks.push(Repack { src: vec![(x, n)].into(), dst: d.iter().map(|r| (*r, 1)).collect() });
            self.ops.push(Op::Repack { site });
        } else { self.un("load of bit vector".into()) }
    }
    fn cmp_sel(&mut self, k: K, swap: bool, w: u8, d: R, a: R, b: R) { // d = (a k b) ? a : b   (swap: b k a)
        let c = self.tmp(); let (x, y) = if swap { (b, a) } else { (a, b) };
        self.ops.push(Op::Icmp { k, neg: false, w, d: c, a: x, b: y });
        self.ops.push(Op::Select { d, c, a, b, w });
    }
    fn call(&mut self, b: P, i: P, invoke: bool) {
        let ll = &self.p.ll;
        unsafe {
            let cv = (ll.LLVMGetCalledValue)(i);
            let vk = (ll.LLVMGetValueKind)(cv);
            let na = (ll.LLVMGetNumArgOperands)(i);
            let next = if invoke { self.edge(b, (ll.LLVMGetNormalDest)(i)) } else { NONE };
            if vk == 5 {
                let name = name_of(ll, cv);
                if let Some(x) = name.strip_prefix("llvm.") { let x = x.to_string(); self.intrinsic(i, &x, na); if invoke { self.ops.push(Op::Br { e: next }) } return }
            }
            let mut args = vec![]; let mut argw = vec![];
            for j in 0..na { let a = (ll.LLVMGetArgOperand)(i, j); let t = self.ty(a); if t.kind == 14 { continue } let l = self.leaves(a); for (r, lf) in l.into_iter().zip(&t.leaves) { args.push(r); argw.push(lf.1) } }
            let t = self.ty(i); let nret = t.leaves.len() as u32;
            let d = if nret > 0 { self.leaves(i)[0] } else { NONE };
            let f = if vk == 5 || vk == 6 && self.p.fidx.contains_key(&(cv as usize)) { Callee::Fn(self.p.fidx[&(cv as usize)]) } else if !(ll.LLVMIsAInlineAsm)(cv).is_null() { Callee::Asm } else { Callee::Ptr(self.leaves(cv)[0]) };
            if let Callee::Asm = f {
                // the one arithmetic instruction that crates write as assembly: unsigned 128/64 division (rem in dx, quotient in ax)
                let tx = self.p.print(i);
                if tx.contains("\"div ${2:q}\"") && tx.contains("\"=&{dx},=&{ax},r,0,1") && nret == 2 && args.len() == 3 {
                    let (q, qh, r, rh) = (self.tmp(), self.tmp(), self.tmp(), self.tmp());
                    assert!(qh == q + 1 && rh == r + 1);
                    let z = self.k(0);
                    self.ops.push(Op::Bin128 { k: K::UDiv, w: 128, d: q, a: [args[2], args[1]], b: [args[0], z] });
                    self.ops.push(Op::Bin128 { k: K::URem, w: 128, d: r, a: [args[2], args[1]], b: [args[0], z] });
                    self.ops.push(Op::Mov { d, s: r }); self.ops.push(Op::Mov { d: d + 1, s: q });
                    if invoke { self.ops.push(Op::Br { e: next }) }
                    return
                }
            }
            let site = self.sites.len() as u32;
            let retw: Box<[u8]> = t.leaves.iter().map(|l| l.1).collect();
            self.sites.push(Site { f, args: args.into_boxed_slice(), argw: argw.into_boxed_slice(), d, nret, next: NONE, retw });
            self.ops.push(Op::Call { site });
            if invoke { self.ops.push(Op::Br { e: next }) }
        }
    }
    fn intrinsic(&mut self, i: P, name: &str, na: u32) {
        let ll = &self.p.ll;
        let arg = |n: u32| unsafe { (ll.LLVMGetArgOperand)(i, n) };
        const NOPS: &[&str] = &["lifetime.", "dbg.", "experimental.noalias.scope.decl", "assume", "donothing", "prefetch", "invariant.", "x86.sse2.pause", "sideeffect", "var.annotation"];
        if NOPS.iter().any(|n| name.starts_with(n)) { return }
        let a: Vec<Vec<R>> = (0..na).map(|n| { let x = arg(n); if self.ty(x).kind == 14 { vec![] } else { self.leaves(x) } }).collect();
        let t = self.ty(i);
        let d = if t.leaves.is_empty() { vec![] } else { self.leaves(i) };
        let starts = |s: &str| name.starts_with(s);
        let wide = t.kind == 8 && t.leaves.len() == 2;
        if starts("memcpy") || starts("memmove") { self.ops.push(Op::MemCpy { d: a[0][0], s: a[1][0], n: a[2][0] }); return }
        if starts("memset") { self.ops.push(Op::MemSet { d: a[0][0], v: a[1][0], n: a[2][0] }); return }
        if starts("threadlocal.address") || starts("expect.") || starts("launder.") || starts("strip.") || starts("ssa.copy") { for j in 0..d.len() { self.ops.push(Op::Mov { d: d[j], s: a[0][j] }) } return }
        if starts("is.constant") || starts("objectsize") { let z = self.k(0); self.ops.push(Op::Mov { d: d[0], s: z }); return }
        if starts("trap") || starts("ubsantrap") { self.un("llvm.trap".into()); return }
        if starts("ptrmask") { self.ops.push(Op::Bin { k: K::And, w: 64, d: d[0], a: a[0][0], b: a[1][0] }); return }
        for (n, k, sw) in [("umax.", K::Ult, true), ("umin.", K::Ult, false), ("smax.", K::Slt, true), ("smin.", K::Slt, false)] {
            if starts(n) {
                if wide { let c = self.tmp(); let (x, y) = if sw { (&a[1], &a[0]) } else { (&a[0], &a[1]) }; let w = 64 + t.leaves[1].1; self.ops.push(Op::Icmp128 { k, neg: false, w, d: c, a: [x[0], x[1]], b: [y[0], y[1]] }); for j in 0..2 { self.ops.push(Op::Select { d: d[j], c, a: a[0][j], b: a[1][j], w: t.leaves[j].1 }) } return }
                for j in 0..d.len() { self.cmp_sel(k, sw, t.leaves[j].1, d[j], a[0][j], a[1][j]) } return }
        }
        if starts("x86.addcarry.") || starts("x86.subborrow.") {
            let sub = starts("x86.subborrow."); let w = t.leaves[1].1; let z = self.k(0);
            let (x, y) = (a[1][0], a[2][0]);
            let (ci, s1, o1, o2, cz) = (self.tmp(), self.tmp(), self.tmp(), self.tmp(), self.tmp());
            self.ops.push(Op::Icmp { k: K::Eq, neg: true, w: 8, d: ci, a: a[0][0], b: z });
            self.ops.push(Op::Mov { d: cz, s: ci });
            let k = if sub { K::Sub } else { K::Add };
            self.ops.push(Op::Bin { k, w, d: s1, a: x, b: y });
            if sub { self.ops.push(Op::Icmp { k: K::Ult, neg: false, w, d: o1, a: x, b: y }); self.ops.push(Op::Icmp { k: K::Ult, neg: false, w, d: o2, a: s1, b: cz }) }
            self.ops.push(Op::Bin { k, w, d: d[1], a: s1, b: cz });
            if !sub { self.ops.push(Op::Icmp { k: K::Ult, neg: false, w, d: o1, a: s1, b: x }); self.ops.push(Op::Icmp { k: K::Ult, neg: false, w, d: o2, a: d[1], b: s1 }) }
            self.ops.push(Op::Bin { k: K::Or, w: 1, d: d[0], a: o1, b: o2 });
            return
        }
        if starts("ucmp.") || starts("scmp.") {
            let k = if starts("u") { K::Ult } else { K::Slt };
            let at = self.ty(arg(0));
            if at.leaves.len() == 2 && at.kind == 8 { 
                let w = 64 + at.leaves[1].1; let (g, l) = (self.tmp(), self.tmp());
                self.ops.push(Op::Icmp128 { k, neg: false, w, d: g, a: [a[1][0], a[1][1]], b: [a[0][0], a[0][1]] });
                self.ops.push(Op::Icmp128 { k, neg: false, w, d: l, a: [a[0][0], a[0][1]], b: [a[1][0], a[1][1]] });
                self.ops.push(Op::Bin { k: K::Sub, w: t.leaves[0].1, d: d[0], a: g, b: l }); return }
            for j in 0..d.len() { let (g, l) = (self.tmp(), self.tmp()); let w = at.leaves[j].1;
                self.ops.push(Op::Icmp { k, neg: false, w, d: g, a: a[1][j], b: a[0][j] }); self.ops.push(Op::Icmp { k, neg: false, w, d: l, a: a[0][j], b: a[1][j] });
                self.ops.push(Op::Bin { k: K::Sub, w: t.leaves[j].1, d: d[j], a: g, b: l }) }
            return }
        if wide || (t.kind == 10 && t.leaves.len() == 3) {
            // 128-bit intrinsics
            let w = if wide { 64 + t.leaves[1].1 } else { 128 };
            if starts("usub.sat") { let c = self.tmp(); self.ops.push(Op::Icmp128 { k: K::Ult, neg: false, w, d: c, a: [a[0][0], a[0][1]], b: [a[1][0], a[1][1]] }); self.ops.push(Op::Bin128 { k: K::Sub, w, d: d[0], a: [a[0][0], a[0][1]], b: [a[1][0], a[1][1]] }); let z = self.k(0); for j in 0..2 { self.ops.push(Op::Select { d: d[j], c, a: z, b: d[j], w: 64 }) } return }
            if starts("uadd.with.overflow") { self.ops.push(Op::Bin128 { k: K::Add, w, d: d[0], a: [a[0][0], a[0][1]], b: [a[1][0], a[1][1]] }); self.ops.push(Op::Icmp128 { k: K::Ult, neg: false, w, d: d[2], a: [d[0], d[1]], b: [a[0][0], a[0][1]] }); return }
            if starts("usub.with.overflow") { self.ops.push(Op::Bin128 { k: K::Sub, w, d: d[0], a: [a[0][0], a[0][1]], b: [a[1][0], a[1][1]] }); self.ops.push(Op::Icmp128 { k: K::Ult, neg: false, w, d: d[2], a: [a[0][0], a[0][1]], b: [a[1][0], a[1][1]] }); return }
            if starts("umul.with.overflow") && w == 128 {
                // overflow iff x != 0 and (x * y mod 2^128) / x != y
                let z = self.k(0); let (c0, ne) = (self.tmp(), self.tmp());
                let dv = self.tmp(); let dh = self.tmp(); let q = self.tmp(); let qh = self.tmp();
                assert!(dh == dv + 1 && qh == q + 1);
                self.ops.push(Op::Bin128 { k: K::Mul, w, d: d[0], a: [a[0][0], a[0][1]], b: [a[1][0], a[1][1]] });
                self.ops.push(Op::Icmp128 { k: K::Eq, neg: false, w, d: c0, a: [a[0][0], a[0][1]], b: [z, z] });
                self.ops.push(Op::Bin { k: K::Or, w: 64, d: dv, a: a[0][0], b: c0 });
                self.ops.push(Op::Mov { d: dh, s: a[0][1] });
                self.ops.push(Op::Bin128 { k: K::UDiv, w, d: q, a: [d[0], d[1]], b: [dv, dh] });
                self.ops.push(Op::Icmp128 { k: K::Eq, neg: true, w, d: ne, a: [q, qh], b: [a[1][0], a[1][1]] });
                self.ops.push(Op::Select { d: d[2], c: c0, a: z, b: ne, w: 1 });
                return
            }
            if starts("ctlz") {
                let (hz, lz, c, s) = (self.tmp(), self.tmp(), self.tmp(), self.tmp()); let z = self.k(0); let k64 = self.k(64);
                self.ops.push(Op::Bit { k: BitK::Ctlz, w: 64, d: hz, a: a[0][1], b: z, c: z }); self.ops.push(Op::Bit { k: BitK::Ctlz, w: 64, d: lz, a: a[0][0], b: z, c: z });
                self.ops.push(Op::Bin { k: K::Add, w: 64, d: s, a: lz, b: k64 }); self.ops.push(Op::Icmp { k: K::Eq, neg: false, w: 64, d: c, a: a[0][1], b: z });
                self.ops.push(Op::Select { d: d[0], c, a: s, b: hz, w: 64 }); self.ops.push(Op::Mov { d: d[1], s: z }); return }
            if starts("abs.") && w == 128 {
                let z = self.k(0); let c = self.tmp(); let n = self.tmp(); let nh = self.tmp(); assert!(nh == n + 1);
                self.ops.push(Op::Icmp { k: K::Slt, neg: false, w: 64, d: c, a: a[0][1], b: z });
                self.ops.push(Op::Bin128 { k: K::Sub, w, d: n, a: [z, z], b: [a[0][0], a[0][1]] });
                for j in 0..2 { self.ops.push(Op::Select { d: d[j], c, a: n + j as u32, b: a[0][j], w: 64 }) }
                return
            }
            if (starts("sadd.with.overflow") || starts("ssub.with.overflow")) && w == 128 {
                // the signs of the high words decide
                let add = starts("sadd"); let (p, q, r, z) = (self.tmp(), self.tmp(), self.tmp(), self.k(0));
                self.ops.push(Op::Bin128 { k: if add { K::Add } else { K::Sub }, w, d: d[0], a: [a[0][0], a[0][1]], b: [a[1][0], a[1][1]] });
                self.ops.push(Op::Bin { k: K::Xor, w: 64, d: p, a: a[0][1], b: d[1] });
                self.ops.push(Op::Bin { k: K::Xor, w: 64, d: q, a: if add { a[1][1] } else { a[0][1] }, b: if add { d[1] } else { a[1][1] } });
                self.ops.push(Op::Bin { k: K::And, w: 64, d: r, a: p, b: q });
                self.ops.push(Op::Icmp { k: K::Slt, neg: false, w: 64, d: d[2], a: r, b: z });
                return
            }
            if wide || t.leaves.len() == 3 { self.un(format!("128-bit intrinsic {}", name)); return }
        }
        let at = if na > 0 { self.ty(arg(0)) } else { t.clone() };
        for j in 0..a.first().map_or(0, |x| x.len()) {
            let w = at.leaves[j].1; let x = a[0][j]; let y = if na > 1 && a[1].len() > j { a[1][j] } else { self.k(0) };
            let z = if na > 2 && a[2].len() > j { a[2][j] } else { self.k(0) };
            let n = a[0].len();
            let (dd, dov) = if d.len() == 2 * n { (d[j], d[n + j]) } else if j < d.len() { (d[j], NONE) } else { (NONE, NONE) };
            let zero = self.k(0); let ones = self.k(crate::expr::m64(w)); let sign = self.k(1u64 << (w - 1));
            if starts("usub.sat") { let c = self.tmp(); let s = self.tmp(); self.ops.push(Op::Icmp { k: K::Ult, neg: false, w, d: c, a: x, b: y }); self.ops.push(Op::Bin { k: K::Sub, w, d: s, a: x, b: y }); self.ops.push(Op::Select { d: dd, c, a: zero, b: s, w }) }
            else if starts("uadd.sat") { let c = self.tmp(); let s = self.tmp(); self.ops.push(Op::Bin { k: K::Add, w, d: s, a: x, b: y }); self.ops.push(Op::Icmp { k: K::Ult, neg: false, w, d: c, a: s, b: x }); self.ops.push(Op::Select { d: dd, c, a: ones, b: s, w }) }
            else if starts("sadd.sat") { self.ops.push(Op::Bit { k: BitK::SAddSat, w, d: dd, a: x, b: y, c: zero }) }
            else if starts("ssub.sat") { self.ops.push(Op::Bit { k: BitK::SSubSat, w, d: dd, a: x, b: y, c: zero }) }
            else if starts("uadd.with.overflow") { self.ops.push(Op::Bin { k: K::Add, w, d: dd, a: x, b: y }); self.ops.push(Op::Icmp { k: K::Ult, neg: false, w, d: dov, a: dd, b: x }) }
            else if starts("usub.with.overflow") { self.ops.push(Op::Bin { k: K::Sub, w, d: dd, a: x, b: y }); self.ops.push(Op::Icmp { k: K::Ult, neg: false, w, d: dov, a: x, b: y }) }
            else if starts("umul.with.overflow") { self.ops.push(Op::Bin { k: K::Mul, w, d: dd, a: x, b: y }); self.ops.push(Op::Bit { k: BitK::UMulOv, w, d: dov, a: x, b: y, c: zero }) }
            else if starts("smul.with.overflow") { self.ops.push(Op::Bin { k: K::Mul, w, d: dd, a: x, b: y }); self.ops.push(Op::Bit { k: BitK::SMulOv, w, d: dov, a: x, b: y, c: zero }) }
            else if starts("sadd.with.overflow") || starts("ssub.with.overflow") {
                let add = starts("sadd"); let (p, q, r) = (self.tmp(), self.tmp(), self.tmp());
                self.ops.push(Op::Bin { k: if add { K::Add } else { K::Sub }, w, d: dd, a: x, b: y });
                self.ops.push(Op::Bin { k: K::Xor, w, d: p, a: x, b: dd });
                self.ops.push(Op::Bin { k: K::Xor, w, d: q, a: if add { y } else { x }, b: if add { dd } else { y } });
                self.ops.push(Op::Bin { k: K::And, w, d: r, a: p, b: q });
                self.ops.push(Op::Icmp { k: K::Slt, neg: false, w, d: dov, a: r, b: zero }) }
            else if starts("abs.") { let c = self.tmp(); let s = self.tmp(); self.ops.push(Op::Icmp { k: K::Slt, neg: false, w, d: c, a: x, b: zero }); self.ops.push(Op::Bin { k: K::Sub, w, d: s, a: zero, b: x }); self.ops.push(Op::Select { d: dd, c, a: s, b: x, w }) }
            else if starts("ctlz") { self.ops.push(Op::Bit { k: BitK::Ctlz, w, d: dd, a: x, b: zero, c: zero }) }
            else if starts("cttz") { self.ops.push(Op::Bit { k: BitK::Cttz, w, d: dd, a: x, b: zero, c: zero }) }
            else if starts("ctpop") { self.ops.push(Op::Bit { k: BitK::Ctpop, w, d: dd, a: x, b: zero, c: zero }) }
            else if starts("bswap") { self.ops.push(Op::Bit { k: BitK::Bswap, w, d: dd, a: x, b: zero, c: zero }) }
            else if starts("bitreverse") { self.ops.push(Op::Bit { k: BitK::Bitrev, w, d: dd, a: x, b: zero, c: zero }) }
            else if starts("fshl") { self.ops.push(Op::Bit { k: BitK::Fshl, w, d: dd, a: x, b: y, c: z }) }
            else if starts("fshr") { self.ops.push(Op::Bit { k: BitK::Fshr, w, d: dd, a: x, b: y, c: z }) }
            else if starts("fabs") { let m = self.k(crate::expr::m64(w) >> 1); self.ops.push(Op::Bin { k: K::And, w, d: dd, a: x, b: m }) }
            else if starts("copysign") { let m = self.k(crate::expr::m64(w) >> 1); let (p, q) = (self.tmp(), self.tmp()); self.ops.push(Op::Bin { k: K::And, w, d: p, a: x, b: m }); self.ops.push(Op::Bin { k: K::And, w, d: q, a: y, b: sign }); self.ops.push(Op::Bin { k: K::Or, w, d: dd, a: p, b: q }) }
            else if let Some(k) = ["floor.", "ceil.", "trunc.", "rint.", "nearbyint.", "round.", "roundeven.", "sqrt."].iter().position(|n| starts(n)) { self.ops.push(Op::FUn { k: k as u8, w, d: dd, a: x }) }
            else if starts("is.fpclass") {
                let mask = unsafe { (ll.LLVMConstIntGetZExtValue)(arg(1)) };
                let m = crate::expr::m64(w); let (expm, quiet) = if w == 64 { (0x7ffu64 << 52, 1u64 << 51) } else { (0xffu64 << 23, 1u64 << 22) };
                let minn = if w == 64 { 1u64 << 52 } else { 1u64 << 23 };
                let (abs, acc, neg) = (self.tmp(), self.tmp(), self.tmp());
                let am = self.k(m >> 1); self.ops.push(Op::Bin { k: K::And, w, d: abs, a: x, b: am });
                self.ops.push(Op::Icmp { k: K::Slt, neg: false, w, d: neg, a: x, b: zero });
                let z1 = self.k(0); self.ops.push(Op::Mov { d: acc, s: z1 });
                // (lo, hi, sign): lo <= abs <= hi
                let cl: [(u64, u64, i8); 10] = [(expm + 1, expm + quiet - 1, 2), (expm + quiet, m >> 1, 2), (expm, expm, 1), (minn, expm - 1, 1), (1, minn - 1, 1), (0, 0, 1), (0, 0, 0), (1, minn - 1, 0), (minn, expm - 1, 0), (expm, expm, 0)];
                for (bit, (lo, hi, sg)) in cl.iter().enumerate() {
                    if mask >> bit & 1 == 0 { continue }
                    let (p, q, r) = (self.tmp(), self.tmp(), self.tmp());
                    let (kl, kh) = (self.k(*lo), self.k(*hi));
                    self.ops.push(Op::Icmp { k: K::Ult, neg: true, w, d: p, a: abs, b: kl });
                    self.ops.push(Op::Icmp { k: K::Ult, neg: true, w, d: q, a: kh, b: abs });
                    self.ops.push(Op::Bin { k: K::And, w: 1, d: r, a: p, b: q });
                    if *sg < 2 { let s2 = if *sg == 1 { neg } else { let t = self.tmp(); let one = self.k(1); self.ops.push(Op::Bin { k: K::Xor, w: 1, d: t, a: neg, b: one }); t }; self.ops.push(Op::Bin { k: K::And, w: 1, d: r, a: r, b: s2 }) }
                    self.ops.push(Op::Bin { k: K::Or, w: 1, d: acc, a: acc, b: r });
                }
                self.ops.push(Op::Mov { d: dd, s: acc });
            }
            else if let Some(k) = ["log2.", "log.", "log10.", "exp.", "exp2.", "sin.", "cos.", "powi."].iter().position(|n| starts(n)) { let yy = if name.starts_with("powi") { a[1][0] } else { zero }; self.ops.push(Op::FBin { k: 11 + k as u8, w, d: dd, a: x, b: yy }) }
            else if starts("minnum") { self.ops.push(Op::FBin { k: 5, w, d: dd, a: x, b: y }) }
            else if starts("maxnum") { self.ops.push(Op::FBin { k: 6, w, d: dd, a: x, b: y }) }
            else if starts("minimum") { self.ops.push(Op::FBin { k: 7, w, d: dd, a: x, b: y }) }
            else if starts("maximum") { self.ops.push(Op::FBin { k: 8, w, d: dd, a: x, b: y }) }
            else if starts("pow.") { self.ops.push(Op::FBin { k: 10, w, d: dd, a: x, b: y }) }
            else if starts("fptosi.sat") { let wt = t.leaves[j].1; self.ops.push(Op::FCast { k: FcK::ToSI, wf: w, wt, d: dd, a: x }) }
            else if starts("fptoui.sat") { let wt = t.leaves[j].1; self.ops.push(Op::FCast { k: FcK::ToUI, wf: w, wt, d: dd, a: x }) }
            else if starts("vector.reduce.") {
                let o = name["vector.reduce.".len()..].split('.').next().unwrap().to_string();
                let dd = d[0];
                if j == 0 { self.ops.push(Op::Mov { d: dd, s: x }) } else {
                    match o.as_str() {
                        "add" => self.ops.push(Op::Bin { k: K::Add, w, d: dd, a: dd, b: x }), "or" => self.ops.push(Op::Bin { k: K::Or, w, d: dd, a: dd, b: x }),
                        "and" => self.ops.push(Op::Bin { k: K::And, w, d: dd, a: dd, b: x }), "xor" => self.ops.push(Op::Bin { k: K::Xor, w, d: dd, a: dd, b: x }), "mul" => self.ops.push(Op::Bin { k: K::Mul, w, d: dd, a: dd, b: x }),
                        "umax" => self.cmp_sel(K::Ult, true, w, dd, dd, x), "umin" => self.cmp_sel(K::Ult, false, w, dd, dd, x), "smax" => self.cmp_sel(K::Slt, true, w, dd, dd, x), "smin" => self.cmp_sel(K::Slt, false, w, dd, dd, x),
                        _ => self.un(format!("intrinsic {}", name)),
                    } } }
            else if starts("x86.sse2.pmovmskb.128") {
                if j == 0 { let mut src = vec![]; for r in &a[0] { let c = self.tmp(); let z0 = self.k(0); self.ops.push(Op::Icmp { k: K::Slt, neg: false, w: 8, d: c, a: *r, b: z0 }); src.push((c, 1u8)) } let z0 = self.k(0); src.push((z0, 16)); let site = self.repacks.len() as u32; self.repacks.push(Repack { src: src.into(), dst: vec![(d[0], 32u8)].into() }); self.ops.push(Op::Repack { site }) } }
            else if starts("fmuladd") || starts("fma.") { self.ops.push(Op::FBin { k: 2, w, d: dd, a: x, b: y }); self.ops.push(Op::FBin { k: 0, w, d: dd, a: dd, b: z }) }
            else { self.un(format!("intrinsic {}", name)); return }
        }
        if a.is_empty() { self.un(format!("intrinsic {}", name)) }
    }
}
fn icmp(p: i32) -> (K, bool, bool) { // (op, negate, swap)
    match p { 32 => (K::Eq, false, false), 33 => (K::Eq, true, false), 34 => (K::Ult, false, true), 35 => (K::Ult, true, false), 36 => (K::Ult, false, false), 37 => (K::Ult, true, true),
        38 => (K::Slt, false, true), 39 => (K::Slt, true, false), 40 => (K::Slt, false, false), _ => (K::Slt, true, true) }
}

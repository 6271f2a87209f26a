mod dl; mod exec; mod expr; mod ir; mod llvm; mod mem; mod z3;
use exec::*;
use std::collections::{BTreeMap, VecDeque};
use std::sync::atomic::*;
use std::sync::{Condvar, Mutex};

/// (name, bitcode) of every object in a file: raw bitcode, an ELF with .llvmbc, or an archive of those.
fn bitcode(path: &str, out: &mut Vec<(String, Vec<u8>)>) {
    let d = match std::fs::read(path) { Ok(d) => d, Err(e) => { eprintln!("rsx: {}: {}", path, e); std::process::exit(4) } };
    if d.starts_with(b"!<arch>\n") {
        let mut p = 8;
        let mut names: Vec<u8> = vec![];
        while p + 60 <= d.len() {
            let h = &d[p..p + 60];
            let size: usize = std::str::from_utf8(&h[48..58]).unwrap().trim().parse().unwrap();
            let name = std::str::from_utf8(&h[0..16]).unwrap().trim_end().to_string();
            let body = &d[p + 60..p + 60 + size];
            if name == "//" { names = body.to_vec() }
            else if name != "/" && name != "/SYM64/" {
                let n = if let Some(o) = name.strip_prefix('/') { let o: usize = o.parse().unwrap_or(0); names[o..].split(|c| *c == b'/').next().map(|x| String::from_utf8_lossy(x).into_owned()).unwrap_or_default() } else { name.trim_end_matches('/').to_string() };
                if n.ends_with(".o") { one(&format!("{}({})", path, n), body, out) }
            }
            p += 60 + size + (size & 1);
        }
    } else { one(path, &d, out) }
}
fn one(name: &str, d: &[u8], out: &mut Vec<(String, Vec<u8>)>) {
    if d.starts_with(b"BC\xC0\xDE") { out.push((name.into(), d.to_vec())); return }
    if d.starts_with(b"\x7fELF") {
        let u16a = |o: usize| u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as usize;
        let u64a = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) as usize;
        let u32a = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as usize;
        let (sh, es, n, si) = (u64a(0x28), u16a(0x3a), u16a(0x3c), u16a(0x3e));
        if n == 0 { return }
        let stroff = u64a(sh + si * es + 0x18);
        for i in 0..n {
            let h = sh + i * es;
            let nm = stroff + u32a(h);
            if d[nm..].starts_with(b".llvmbc\0") { let (o, s) = (u64a(h + 0x18), u64a(h + 0x20)); if s > 4 { out.push((name.into(), d[o..o + s].to_vec())) } }
        }
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 || c as u32 == 127 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) } }
    o + "\""
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let hook = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| { hook(i); std::process::exit(4) }));
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let llvm = get("--llvm").expect("--llvm");
    let z3p = get("--z3").expect("--z3");
    let mods: Vec<String> = std::fs::read_to_string(get("--modules").expect("--modules")).unwrap().lines().map(|s| s.to_string()).collect();
    let entries: Vec<String> = get("--entries").expect("--entries").split(',').map(|s| s.to_string()).collect();
    let time: f64 = get("--time").map_or(600.0, |x| x.parse().unwrap());
    let workers: usize = get("--workers").map_or(8, |x| x.parse().unwrap());
    let max_instr: u64 = get("--max-instr").map_or(2_000_000_000, |x| x.parse().unwrap());
    let out = get("--out");
    let t0 = std::time::Instant::now();
    let mut bc = vec![];
    for m in &mods { bitcode(m, &mut bc) }
    let ll = llvm::Llvm::load(&dl::Lib::open(&llvm));
    let prog = ir::Program::load(ll, &bc, &ext_id);
    let load_s = t0.elapsed().as_secs_f64();
    let api = z3::Api::load(&dl::Lib::open(&z3p));
    let ver = unsafe { std::ffi::CStr::from_ptr((api.Z3_get_full_version)()).to_string_lossy().into_owned() };
    let ents: Vec<(String, u32)> = entries.iter().map(|e| match prog.by_name.get(e) { Some(i) if prog.funcs[*i as usize].kind == ir::Kind::Defined => (e.clone(), *i), _ => { eprintln!("rsx: no entry {}", e); std::process::exit(4) } }).collect();
    let sh = Shared { prog: &prog, entries: ents.clone(), queue: Mutex::new((0..ents.len()).map(|i| Job { entry: i, trace: vec![] }).collect::<VecDeque<_>>()), cv: Condvar::new(), idle: AtomicUsize::new(0), busy: AtomicUsize::new(0), stop: AtomicBool::new(false), deadline: t0 + std::time::Duration::from_secs_f64(time), max_instr, max_viol: get("--max-violations").map_or(4, |x| x.parse().unwrap()), nsamples: get("--samples").map_or(3, |x| x.parse().unwrap()), nworkers: workers, z3_all: args.iter().any(|a| a == "--z3-all"), viols: AtomicUsize::new(0) };
    let timeout: u32 = get("--query-ms").map_or(20000, |x| x.parse().unwrap());
    struct Out { stats: Vec<EntryStats>, seen: Vec<bool>, q: [u64; 4], t: f64, mx: f64, dd: u64, ch: u64, mh: u64, nodes: usize }
    let outs: Vec<Out> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers).map(|_| { let sh = &sh; let api = &api; std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, move || {
            let mut w = Worker::new(sh, z3::Z3::new(api, timeout));
            w.run_all();
            Out { stats: std::mem::take(&mut w.stats), seen: std::mem::take(&mut w.seen), q: [w.z.queries, w.z.sat, w.z.unsat, w.z.unknown], t: w.z.time, mx: w.z.max, dd: w.dom_decided, ch: w.cache_hits, mh: w.model_hits, nodes: w.a.n.len() }
        }).unwrap() }).collect();
        hs.into_iter().map(|h| match h.join() { Ok(o) => o, Err(_) => { eprintln!("rsx: worker panicked"); std::process::exit(4) } }).collect()
    });
    let mut tot: Vec<EntryStats> = vec![EntryStats::default(); ents.len()];
    let mut seen = vec![false; prog.funcs.len()];
    let (mut q, mut qt, mut mx, mut dd, mut ch, mut mh, mut nodes) = ([0u64; 4], 0.0, 0f64, 0, 0, 0, 0);
    for o in outs {
        for i in 0..4 { q[i] += o.q[i] } qt += o.t; mx = mx.max(o.mx); dd += o.dd; ch += o.ch; mh += o.mh; nodes += o.nodes;
        for (i, b) in o.seen.iter().enumerate() { seen[i] |= *b }
        for (t, s) in tot.iter_mut().zip(o.stats) {
            t.paths += s.paths; t.symbolic_paths += s.symbolic_paths; t.assumed_out += s.assumed_out; t.forks += s.forks; t.asserts += s.asserts; t.symbolic_asserts += s.symbolic_asserts; t.instrs += s.instrs; t.nviol += s.nviol;
            t.max_forks = t.max_forks.max(s.max_forks); t.maxvars = t.maxvars.max(s.maxvars);
            for (k, v) in s.covers { *t.covers.entry(k).or_default() += v }
            for (k, v) in s.incomplete { *t.incomplete.entry(k).or_default() += v }
            t.samples.extend(s.samples); t.violations.extend(s.violations);
        }
    }
    let inputs = |v: &Vec<(String, u8, u64)>| format!("{{{}}}", v.iter().map(|(n, _, x)| format!("{}:{}", js(n), x)).collect::<Vec<_>>().join(","));
    let notes = |v: &Vec<(String, String)>| format!("[{}]", v.iter().map(|(n, x)| format!("[{},{}]", js(n), js(x))).collect::<Vec<_>>().join(","));
    let map = |m: &BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let mut o = String::new();
    o += &format!("{{\"z3\":{},\"load_s\":{:.3},\"wall_s\":{:.3},\"modules\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"domain_decided\":{},\"cache_hits\":{},\"model_hits\":{},\"nodes\":{},\n\"entries\":[", js(&ver), load_s, t0.elapsed().as_secs_f64(), bc.len(), q[0], q[1], q[2], q[3], qt, mx, dd, ch, mh, nodes);
    for (i, t) in tot.iter().enumerate() {
        if i > 0 { o += "," }
        o += &format!("\n{{\"entry\":{},\"paths\":{},\"symbolic_paths\":{},\"assumed_out\":{},\"forks\":{},\"max_fork_depth\":{},\"asserts\":{},\"symbolic_asserts\":{},\"instrs\":{},\"vars\":{},\"covers\":{},\"incomplete\":{},\"nviol\":{},\"violations\":[{}],\"samples\":[{}]}}",
            js(&ents[i].0), t.paths, t.symbolic_paths, t.assumed_out, t.forks, t.max_forks, t.asserts, t.symbolic_asserts, t.instrs, t.maxvars, map(&t.covers), map(&t.incomplete), t.nviol,
            t.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"inputs\":{},\"notes\":{}}}", js(&v.kind), js(&v.msg), inputs(&v.inputs), notes(&v.notes))).collect::<Vec<_>>().join(","),
            t.samples.iter().map(|v| format!("{{\"inputs\":{},\"notes\":{}}}", inputs(&v.inputs), notes(&v.notes))).collect::<Vec<_>>().join(","));
    }
    o += "],\n\"functions\":[";
    o += &seen.iter().enumerate().filter(|x| *x.1).map(|(i, _)| js(&prog.funcs[i].name)).collect::<Vec<_>>().join(",\n");
    o += "]}\n";
    match out { Some(p) => std::fs::write(p, o).unwrap(), None => print!("{}", o) }
}

//! Control-flow analyses against their definitions, on every small graph.
use ahash::{HashMap, HashSet};
use optimize_js::analysis::find_loops::find_loops;
use optimize_js::analysis::interference::calculate_interference_graph;
use optimize_js::analysis::liveness::calculate_live_ins;
use optimize_js::analysis::loop_info::LoopInfo;
use optimize_js::analysis::registers::allocate_registers;
use optimize_js::cfg::cfg::{Cfg, CfgBBlocks, CfgGraph};
use optimize_js::dom::{Dom, PostDom};
use optimize_js::il::inst::*;
use symrt::*;

/// adjacency as bit masks: bit j of adj[i] is an edge i -> j
type Adj = Vec<u32>;

/// nodes reachable from `from`, never entering `without`
fn reach(adj: &Adj, from: usize, without: Option<usize>) -> u32 {
    if Some(from) == without {
        return 0;
    }
    let ban = without.map_or(0, |w| 1u32 << w);
    let mut seen = 1u32 << from;
    loop {
        let mut next = seen;
        for i in 0..adj.len() {
            if seen >> i & 1 == 1 {
                next |= adj[i] & !ban;
            }
        }
        if next == seen {
            return seen;
        }
        seen = next;
    }
}
fn reversed(adj: &Adj) -> Adj {
    (0..adj.len()).map(|i| (0..adj.len()).filter(|&j| adj[j] >> i & 1 == 1).fold(0, |m, j| m | 1 << j)).collect()
}
/// dom[b]: the nodes every path from the entry to b goes through
fn dominators(adj: &Adj, entry: usize) -> Vec<u32> {
    let all = reach(adj, entry, None);
    (0..adj.len())
        .map(|b| if all >> b & 1 == 0 { 0 } else { (0..adj.len()).filter(|&a| all >> a & 1 == 1 && reach(adj, entry, Some(a)) >> b & 1 == 0).fold(0, |m, a| m | 1 << a) })
        .collect()
}
/// the strict dominator all other strict dominators dominate
fn idom(dom: &[u32], b: usize) -> Option<usize> {
    let strict = dom[b] & !(1 << b);
    (0..dom.len()).find(|&a| strict >> a & 1 == 1 && strict & !dom[a] == 0)
}
fn graph(adj: &Adj, label: &dyn Fn(usize) -> u32) -> CfgGraph {
    let mut g = CfgGraph::default();
    for i in 0..adj.len() {
        // (a node without edges is in the graph as well)
        g.connect(label(i), label(i));
        if adj[i] >> i & 1 == 0 {
            g.disconnect(label(i), label(i));
        }
    }
    for i in 0..adj.len() {
        for j in 0..adj.len() {
            if adj[i] >> j & 1 == 1 {
                g.connect(label(i), label(j));
            }
        }
    }
    g
}
fn all_checks(adj: &Adj, label: &dyn Fn(usize) -> u32) {
    let n = adj.len();
    let mut bblocks = CfgBBlocks::default();
    for i in 0..n {
        bblocks.add(label(i), vec![]);
    }
    let mut cfg = Cfg { graph: graph(adj, label), bblocks, entry: label(0) };
    let all = reach(adj, 0, None);
    let gone = cfg.find_and_pop_unreachable();
    let mut want: Vec<u32> = (0..n).filter(|i| all >> i & 1 == 0).map(|i| label(i)).collect();
    want.sort();
    check(gone == want, "the wrong blocks are unreachable");
    let nodes: Vec<usize> = (0..n).filter(|i| all >> i & 1 == 1).collect();
    let mut left: Vec<u32> = nodes.iter().map(|&i| label(i)).collect();
    left.sort();
    check(cfg.graph.labels_sorted() == left, "the wrong blocks are left");
    check(left.iter().all(|&l| cfg.bblocks.maybe_get(l).is_some()) && gone.iter().all(|&l| cfg.bblocks.maybe_get(l).is_none()), "blocks and graph are out of step");
    // what is left, by definition
    let adj: Adj = (0..n).map(|i| if all >> i & 1 == 1 { adj[i] } else { 0 }).collect();
    for &i in &nodes {
        let mut c: Vec<u32> = (0..n).filter(|j| adj[i] >> j & 1 == 1).map(|j| label(j)).collect();
        c.sort();
        check(cfg.graph.children_sorted(label(i)) == c, "wrong children");
        let mut p: Vec<u32> = (0..n).filter(|&j| adj[j] >> i & 1 == 1).map(|j| label(j)).collect();
        p.sort();
        check(cfg.graph.parents_sorted(label(i)) == p, "wrong parents");
    }
    // orders
    let (post, index) = cfg.graph.calculate_postorder(label(0));
    let mut sorted = post.clone();
    sorted.sort();
    check(sorted == left, "the postorder misses or repeats a block");
    check(post.iter().enumerate().all(|(k, l)| index[l] == k), "the postorder's index is wrong");
    for &i in &nodes {
        for &j in &nodes {
            if adj[i] >> j & 1 == 1 && reach(&adj, j, None) >> i & 1 == 0 {
                check(index[&label(j)] < index[&label(i)], "a block comes after one that leads to it");
            }
        }
    }
    let mut rpo = cfg.reverse_postorder();
    rpo.reverse();
    check(rpo == post, "the reverse postorder is not the postorder reversed");
    // dominance
    let dom = Dom::calculate(&cfg);
    let d = dominators(&adj, 0);
    let (down, up) = (dom.dominates_graph(), dom.dominated_by_graph());
    for &b in &nodes {
        check(dom.idom_of(label(b)) == idom(&d, b).map(|a| label(a)), "wrong immediate dominator");
        for &a in &nodes {
            let want = d[b] >> a & 1 == 1;
            check(down.dominates(label(a), label(b)) == want, "wrong dominance");
            check(up.dominated_by(label(b), label(a)) == want, "wrong dominance");
            let both = d[a] & d[b];
            let lca = (0..n).find(|&c| both >> c & 1 == 1 && both & !d[c] == 0);
            check(dom.lca(label(a), label(b)) == lca.map(|c| label(c)), "wrong common dominator");
        }
        let mut kids: Vec<u32> = nodes.iter().filter(|&&c| idom(&d, c) == Some(b)).map(|&c| label(c)).collect();
        kids.sort();
        check(dom.immediately_dominated_by(label(b)).collect::<Vec<_>>() == kids, "wrong dominator tree");
    }
    let front = dom.dominance_frontiers(&cfg);
    for &a in &nodes {
        for &b in &nodes {
            // (the entry has no immediate dominator; nothing is inserted for it)
            if b == 0 {
                continue;
            }
            let want = (d[b] >> a & 1 == 0 || a == b) && nodes.iter().any(|&p| adj[p] >> b & 1 == 1 && d[p] >> a & 1 == 1);
            check(front.get(&label(a)).is_some_and(|s| s.contains(&label(b))) == want, "wrong dominance frontier");
        }
    }
    // postdominance: leaves, and what can never be left again, go to a virtual exit
    let mut ext = adj.clone();
    ext.push(0);
    for &i in &nodes {
        let from = reach(&adj, i, None);
        let sink = nodes.iter().all(|&j| from >> j & 1 == 0 || reach(&adj, j, None) >> i & 1 == 1);
        if sink {
            ext[i] |= 1 << n;
        }
    }
    let pd = dominators(&reversed(&ext), n);
    let post = PostDom::calculate(&cfg);
    let exit = post.entry_label();
    check(!left.contains(&exit), "the virtual exit is a block");
    let pdown = post.dominates_graph();
    for &b in &nodes {
        check(post.idom_of(label(b)) == idom(&pd, b).map(|a| if a == n { exit } else { label(a) }), "wrong immediate postdominator");
        for &a in &nodes {
            check(pdown.dominates(label(a), label(b)) == (pd[b] >> a & 1 == 1), "wrong postdominance");
        }
    }
    // loops
    let loops = find_loops(&cfg, &dom);
    let info = LoopInfo::compute(&cfg, &dom);
    let mut headers = 0;
    let body = |h: usize| -> Option<u32> {
        let tails: Vec<usize> = nodes.iter().copied().filter(|&t| adj[t] >> h & 1 == 1 && d[t] >> h & 1 == 1).collect();
        if tails.is_empty() {
            return None;
        }
        Some(nodes.iter().filter(|&&x| x == h || d[x] >> h & 1 == 1 && tails.iter().any(|&t| reach(&adj, x, Some(h)) >> t & 1 == 1)).fold(0, |m, x| m | 1 << x))
    };
    for &h in &nodes {
        let want = body(h);
        let got = loops.get(&label(h)).map(|s| nodes.iter().filter(|&&x| s.contains(&label(x))).fold(0u32, |m, x| m | 1 << x));
        check(got == want, "wrong loop");
        let Some(want) = want else {
            check(!info.header_to_loop.contains_key(&label(h)), "a loop too many");
            continue;
        };
        headers += 1;
        let l = &info.loops[info.header_to_loop[&label(h)].0 as usize];
        check(l.header == label(h) && l.nodes == loops[&label(h)], "wrong loop information");
        let mut latches: Vec<u32> = nodes.iter().filter(|&&t| adj[t] >> h & 1 == 1 && d[t] >> h & 1 == 1).map(|&t| label(t)).collect();
        latches.sort();
        check(l.latches == latches, "wrong latches");
        let mut exits: Vec<(u32, u32)> = vec![];
        for &x in &nodes {
            for &y in &nodes {
                if want >> x & 1 == 1 && want >> y & 1 == 0 && adj[x] >> y & 1 == 1 {
                    exits.push((label(x), label(y)));
                }
            }
        }
        exits.sort();
        check(l.exits == exits, "wrong loop exits");
        let parent = l.parent.map(|p| &info.loops[p.0 as usize]);
        let around: Vec<(u32, u32)> = nodes.iter().filter(|&&g| g != h).filter_map(|&g| body(g).filter(|&m| m != want && m & want == want).map(|m| (m.count_ones(), label(g)))).collect();
        check(parent.map(|p| p.header) == around.iter().min().map(|x| x.1), "wrong outer loop");
        if let Some(p) = parent {
            check(p.children.iter().filter(|c| info.loops[c.0 as usize].header == label(h)).count() == 1, "an outer loop does not list its inner loop once");
        }
        cover("loop");
    }
    check(info.loops.len() == headers && loops.len() == headers, "loops too many or too few");
    cover("graph");
}
fn warm() {
    all_checks(&vec![2, 1 | 4, 0], &|i| i as u32);
}
fn out_edges(n: u64, what: &str, max: usize) -> u32 {
    // every set of up to two of the nodes 0..max
    let mut sets = vec![0u32];
    for i in 0..max {
        sets.push(1 << i);
        for j in i + 1..max {
            sets.push(1 << i | 1 << j);
        }
    }
    let _ = n;
    sets[choose(what, sets.len() as u64) as usize]
}
/// all graphs of four blocks with up to two successors each
#[no_mangle]
pub extern "C" fn gr_dom() {
    warm();
    let adj: Adj = (0..4).map(|i| out_edges(4, ["e0", "e1", "e2", "e3"][i], 4)).collect();
    note("edges", format!("{adj:?}").as_bytes());
    all_checks(&adj, &|i| i as u32);
}
/// graphs of five blocks numbered as a breadth-first walk meets them, the numbers as labels forwards or backwards
#[no_mangle]
pub extern "C" fn gr_dom5() {
    warm();
    let back = choose("labels backwards", 2) == 1;
    let mut met = 1;
    let mut adj: Adj = vec![];
    for i in 0..5 {
        if i >= met {
            return;
        }
        let e = out_edges(5, ["e0", "e1", "e2", "e3", "e4"][i], (met + 2).min(5));
        // a new block must be the next number
        for j in met..5 {
            if e >> j & 1 == 1 {
                if j != met {
                    return;
                }
                met += 1;
            }
        }
        adj.push(e);
    }
    if adj.len() < 5 {
        return;
    }
    note("edges", format!("{adj:?}").as_bytes());
    if back {
        all_checks(&adj, &|i| 7 - i as u32);
    } else {
        all_checks(&adj, &|i| i as u32);
    }
}
/// small instructions over three variables
fn inst(k: usize) -> Inst {
    let v = |i| Arg::Var(i);
    let one = Arg::Const(Const::Null);
    match k {
        0 => Inst::var_assign(0, v(1)),
        1 => Inst::var_assign(1, v(0)),
        2 => Inst::var_assign(0, one),
        3 => Inst::bin(2, v(0), BinOp::Add, v(2)),
        4 => Inst::call(None, v(1), v(2), vec![], vec![]),
        5 => Inst::call(2, v(2), one.clone(), vec![v(0), one], vec![]),
        _ => Inst::un(1, UnOp::Neg, v(1)),
    }
}
/// Liveness: a variable is live where some path reads it before it is written
#[no_mangle]
pub extern "C" fn gr_live() {
    warm();
    let shapes: [&[u32]; 9] = [&[0b10, 0b100, 0], &[0b110, 0b100, 0], &[0b10, 0b110, 0], &[0b10, 0b11, 0], &[0b110, 0, 0], &[0b10, 0b110, 0b1], &[0b110, 0b1, 0b10], &[0b11, 0b100, 0b10], &[0b110, 0b1100, 0b1000, 0]];
    let adj: Adj = shapes[choose("shape", 9) as usize].to_vec();
    let n = adj.len();
    let mut blocks: Vec<Vec<Inst>> = vec![];
    for b in 0..n {
        let k = choose(["i0", "i1", "i2", "i3"][b], if b == 3 { 1 } else { 7 }) as usize;
        let mut v = vec![inst(k)];
        if b == 1 {
            v.push(inst(choose("second", 7) as usize));
        }
        if adj[b].count_ones() == 2 {
            v.push(Inst::cond_goto(Arg::Var(choose("cond", 3) as u32), adj[b].trailing_zeros(), 31 - adj[b].leading_zeros()));
        }
        blocks.push(v);
    }
    note("blocks", format!("{adj:?} {blocks:?}").as_bytes());
    let mut bblocks = CfgBBlocks::default();
    for (i, b) in blocks.iter().enumerate() {
        bblocks.add(i as u32, b.clone());
    }
    let cfg = Cfg { graph: graph(&adj, &|i| i as u32), bblocks, entry: 0 };
    let got = calculate_live_ins(&cfg, &HashMap::default(), &HashSet::default());
    // positions as one graph: what can be executed next
    let at = |b: usize, i: usize| b * 4 + i;
    for b in 0..n {
        for i in 0..blocks[b].len() {
            for var in 0..3u32 {
                // walk forwards from here until the variable is read or written
                let mut seen = vec![false; 16];
                let mut todo = vec![(b, i)];
                let mut live = false;
                while let Some((b, i)) = todo.pop() {
                    if i >= blocks[b].len() {
                        for j in 0..n {
                            if adj[b] >> j & 1 == 1 {
                                todo.push((j, 0));
                            }
                        }
                        continue;
                    }
                    if std::mem::replace(&mut seen[at(b, i)], true) {
                        continue;
                    }
                    if blocks[b][i].args.contains(&Arg::Var(var)) {
                        live = true;
                        break;
                    }
                    if !blocks[b][i].tgts.contains(&var) {
                        todo.push((b, i + 1));
                    }
                }
                check(got.get(&(b as u32, i)).is_some_and(|s| s.contains(&var)) == live, "wrong liveness");
            }
        }
    }
    // what is live together interferes, and gets different registers
    let inter = calculate_interference_graph(&got);
    let regs = allocate_registers(&inter);
    for a in 0..3 {
        for b in 0..3 {
            let together = got.values().any(|s| s.contains(&a) && s.contains(&b));
            if a != b {
                check(inter.get(&a).is_some_and(|s| s.contains(&b)) == together, "wrong interference");
                check(!together || regs[&a] != regs[&b], "two variables live together share a register");
            } else {
                check(inter.contains_key(&a) == together && regs.contains_key(&a) == together, "a variable without a register");
            }
        }
    }
    cover("live");
}
/// Register allocation on every interference graph of five variables
#[no_mangle]
pub extern "C" fn gr_regs() {
    warm();
    let mut g: HashMap<u32, HashSet<u32>> = HashMap::default();
    let ids = [3u32, 0, 9, 4, 70];
    for &i in &ids {
        g.insert(i, HashSet::default());
    }
    for (k, name) in ["01", "02", "03", "04", "12", "13", "14", "23", "24", "34"].iter().enumerate() {
        let _ = k;
        let b = name.as_bytes();
        if choose(name, 2) == 1 {
            let (x, y) = (ids[(b[0] - b'0') as usize], ids[(b[1] - b'0') as usize]);
            g.get_mut(&x).unwrap().insert(y);
            g.get_mut(&y).unwrap().insert(x);
        }
    }
    let r = allocate_registers(&g);
    check(r.len() == 5, "a variable without a register");
    let most = g.values().map(|s| s.len() as u32).max().unwrap();
    for (a, s) in &g {
        check(r[a] <= most, "more registers than any variable's neighbours require");
        for b in s {
            check(r[a] != r[b], "interfering variables share a register");
        }
    }
    hashseed(1);
    let again: HashMap<u32, HashSet<u32>> = ids.iter().rev().map(|i| (*i, g[i].clone())).collect();
    check(allocate_registers(&again) == r, "the allocation depends on the order of the graph");
    cover("registers");
}

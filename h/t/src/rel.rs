//! Assignability, against TypeScript's own answers on a pool of types, and its laws.
use crate::ty::*;
use symrt::*;
use types_ts_interned::*;

/// TypeScript 5.9.3's isTypeAssignableTo, strict, for every two types of the pool (tools/tscrel.js)
static MATRIX: &str = include_str!("tsc.txt");

fn any_inside(t: &T, f: &dyn Fn(&T) -> bool) -> bool {
    f(t) || match t {
        T::K(_) => false,
        T::U(v) | T::I(v) => v.iter().any(|x| any_inside(x, f)),
        T::A(x, _) | T::Ix(_, x) | T::Tpl(_, x, _) | T::KeyOf(x) => any_inside(x, f),
        T::Tup(v, _) => v.iter().any(|x| any_inside(&x.0, f)),
        T::O(v) => v.iter().any(|x| any_inside(&x.1, f)),
        T::F(p, r) | T::N(p, r) => p.iter().any(|x| any_inside(&x.0, f)) || any_inside(r, f),
        T::M(p, r) | T::At(p, r) => any_inside(p, f) || any_inside(r, f),
    }
}
fn weak(t: &T) -> bool {
    matches!(t, T::O(v) if !v.is_empty() && v.iter().all(|x| x.2))
}
fn plain(t: &T) -> bool {
    match t {
        T::K(s) => matches!(*s, "any" | "unknown" | "never" | "null" | "undefined" | "void" | "{}"),
        T::O(_) | T::Ix("string", _) => true,
        _ => false,
    }
}
/// what the relation leaves to others, or is known not to decide as TypeScript does
pub fn outside(x: &T, y: &T) -> bool {
    // TypeScript's check for weak types (all members optional, none in common)
    any_inside(y, &weak) && (!matches!(x, T::O(_)) || !weak(y))
        || matches!(y, T::O(v) if v.iter().any(|m| any_inside(&m.1, &weak)))
        || weak(y) && matches!((x, y), (T::O(p), T::O(q)) if !p.is_empty() && !p.iter().any(|a| q.iter().any(|b| a.0 == b.0)))
        // index signatures of anything but object literal types
        || any_inside(y, &|t| matches!(t, T::Ix(..))) && !plain(x)
        || matches!(y, T::Ix(..)) && any_inside(x, &|t| *t == k("never"))
        // an index signature stands for any property here (the repository's tests say so)
        || any_inside(x, &|t| matches!(t, T::Ix(..))) && any_inside(y, &|t| matches!(t, T::M(..)) || matches!(t, T::O(v) if v.iter().any(|m| !m.2)))
        // containment between two infinite template literal types
        || any_inside(x, &|t| matches!(t, T::Tpl(_, h, _) if !matches!(**h, T::U(_)))) && any_inside(y, &|t| matches!(t, T::Tpl(..)))
}
pub fn same_as_tsc(i: usize, j: usize, p: &[T]) {
    let want = MATRIX.as_bytes()[i * (p.len() + 1) + j] == b'1';
    let (x, y) = (&p[i], &p[j]);
    note("source", show(x).as_bytes());
    note("target", show(y).as_bytes());
    if outside(x, y) {
        cover("not judged");
        return;
    }
    let s = TypeStore::new();
    let (a, b) = (build(&s, x), build(&s, y));
    let got = assignable(&s, a, b);
    if got != want {
        let (sx, sy) = (show(x), show(y));
        let listed = [("{a?:any}", "({a:0})|({a:1})"), ("{a:(0)|(1)}", "({a:0})|({a:1})"), ("{a:(0)|(1);b:(number)|(string)}", "({a:0})|({a:1})"), ("{a?:any}", "({a:true})|({a:false})"), ("{a:boolean}", "({a:true})|({a:false})")];
        if want && listed.contains(&(sx.as_str(), sy.as_str())) {
            fail("KNOWN:assign-discriminated an object with a union-typed discriminant is not assignable to the union of objects");
        }
        fail(if got { "accepts what TypeScript rejects" } else { "rejects what TypeScript accepts" });
    }
    cover(if got { "assignable" } else { "not assignable" });
}
#[no_mangle]
pub extern "C" fn rel_tsc() {
    let p = pool();
    warm(&p);
    let i = choose("source", p.len() as u64) as usize;
    let j = choose("target", p.len() as u64) as usize;
    same_as_tsc(i, j, &p);
}
pub fn warm(p: &[T]) {
    let s = TypeStore::new();
    let a = build(&s, &p[60]);
    let b = build(&s, &p[61]);
    assignable(&s, a, b);
    let _ = show(&p[40]);
}
/// the types the laws are tried on
fn some() -> Vec<T> {
    let n = k("number");
    let mut v: Vec<T> = ["any", "unknown", "never", "void", "null", "undefined", "boolean", "number", "string", "true", "{}", "object", "\"a\"", "1"].iter().map(|x| k(x)).collect();
    v.extend([
        o(&[("a", n.clone())]), o(&[("a?", n.clone())]), o(&[("a", k("1")), ("b", k("string"))]), a(n.clone()), ra(k("1")), tu(&[("", n.clone()), ("?", k("string"))]), f(&[("", n.clone())], k("void")), f(&[], k("1")), u(&[k("string"), k("undefined")]), i(&[o(&[("a", n.clone())]), o(&[("b", k("string"))])]), T::Ix("string", Box::new(n.clone())), T::Tpl("a", Box::new(k("string")), ""),
    ]);
    v
}
/// A type position: what `T` there does to assignability
fn wrap(c: usize, t: &T) -> (T, i32) {
    let n = t.clone();
    match c {
        0 => (a(n), 1),
        1 => (ra(n), 1),
        2 => (o(&[("p", n)]), 1),
        3 => (f(&[], n), 1),
        4 => (f(&[("", n)], k("void")), -1),
        5 => (tu(&[("", n), ("", k("1"))]), 1),
        6 => (T::Tup(el(&[("", k("1")), ("...", n)]), true), 1),
        7 => (f(&[("...", n)], k("void")), -1),
        8 => (o(&[("p?", n)]), 1),
        9 => (f(&[("", f(&[("", n)], k("void")))], k("void")), 1),
        10 => (T::Ix("string", Box::new(n)), 1),
        11 => (T::N(el(&[]), Box::new(n)), 1),
        _ => (o(&[("p", o(&[("readonly q", n)]))]), 1),
    }
}
/// Variance: a type built around S is assignable to the one around T exactly when S is to T (or T to S)
#[no_mangle]
pub extern "C" fn rel_variance() {
    let v = some();
    warm(&pool());
    let x = &v[choose("s", v.len() as u64) as usize];
    let y = &v[choose("t", v.len() as u64) as usize];
    let c = choose("around", 13) as usize;
    let ((cx, d), (cy, _)) = (wrap(c, x), wrap(c, y));
    note("source", show(&cx).as_bytes());
    note("target", show(&cy).as_bytes());
    let s = TypeStore::new();
    let (ix, iy) = (build(&s, x), build(&s, y));
    let (icx, icy) = (build(&s, &cx), build(&s, &cy));
    let inner = if d > 0 { assignable(&s, ix, iy) } else { assignable(&s, iy, ix) };
    // every function may stand where its result is ignored; an optional property may also hold undefined
    let void = matches!(c, 3 | 11) && *y == k("void");
    let (opt_x, opt_y) = (u(&[x.clone(), k("undefined")]), u(&[y.clone(), k("undefined")]));
    let inner = if c == 8 { assignable(&s, build(&s, &opt_x), build(&s, &opt_y)) } else { inner };
    let outer = assignable(&s, icx, icy);
    check(outer == (inner || void), "a type around another does not follow its variance");
    cover("variance");
}
/// Lattice laws of unions and intersections, reflexivity, top and bottom
#[no_mangle]
pub extern "C" fn rel_lattice() {
    let v = some();
    let p = pool();
    warm(&p);
    let x = &p[choose("s", p.len() as u64) as usize];
    let y = &v[choose("t", v.len() as u64) as usize];
    let z = &v[choose("u", v.len() as u64) as usize];
    note("s", show(x).as_bytes());
    note("t", show(y).as_bytes());
    note("u", show(z).as_bytes());
    let s = TypeStore::new();
    let (ix, iy, iz) = (build(&s, x), build(&s, y), build(&s, z));
    let p = s.primitive_ids();
    check(assignable(&s, ix, ix), "not assignable to itself");
    check(assignable(&s, ix, p.unknown), "not assignable to unknown");
    check(assignable(&s, p.never, ix), "never is not assignable");
    let yz = s.union(vec![iy, iz]);
    let (sy, sz, syz) = (assignable(&s, ix, iy), assignable(&s, ix, iz), assignable(&s, ix, yz));
    check(syz || !sy && !sz, "assignable to a member but not to the union");
    let (ys, zs, yzs) = (assignable(&s, iy, ix), assignable(&s, iz, ix), assignable(&s, yz, ix));
    if yz != p.any {
        check(yzs == (ys && zs), "a union is assignable exactly when its members are");
    }
    let both = s.intersection(vec![iy, iz]);
    if both != p.any && both != p.never {
        check(assignable(&s, ix, both) == (sy && sz), "assignable to an intersection exactly when to its members");
        // (optional members are compared with the intersection's members taken together)
        let optional = any_inside(x, &|t| matches!(t, T::O(v) if v.iter().any(|x| x.2)) || matches!(t, T::Ix(..)));
        let optional = optional || [y, z].iter().any(|t| any_inside(t, &|t| matches!(t, T::Ix(..))));
        check(optional || assignable(&s, both, ix) || !ys && !zs, "an intersection is not assignable although a member is");
    }
    cover("laws");
}
/// Transitivity, away from any
#[no_mangle]
pub extern "C" fn rel_trans() {
    let p = pool();
    warm(&p);
    let v = some();
    let x = &p[choose("s", p.len() as u64) as usize];
    let y = &v[choose("t", v.len() as u64) as usize];
    let z = &p[choose("u", p.len() as u64) as usize];
    // TypeScript's relation is not transitive through any, optional members, index signatures, ignored results and unchecked element counts
    for t in [x, y, z] {
        if any_inside(t, &|t| *t == k("any") || *t == k("void") || matches!(t, T::Ix(..)) || matches!(t, T::O(v) if v.iter().any(|x| x.2)) || matches!(t, T::F(p, _) | T::N(p, _) if p.iter().any(|x| x.1 || x.2)) || matches!(t, T::Tup(..))) {
            return;
        }
    }
    if *y == k("{}") || *y == k("object") {
        return;
    }
    note("s", show(x).as_bytes());
    note("t", show(y).as_bytes());
    note("u", show(z).as_bytes());
    let s = TypeStore::new();
    let (ix, iy, iz) = (build(&s, x), build(&s, y), build(&s, z));
    if assignable(&s, ix, iy) && assignable(&s, iy, iz) {
        check(assignable(&s, ix, iz), "assignability is not transitive");
        cover("transitive");
    }
}

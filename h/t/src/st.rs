//! Interning: one identity per type, whatever order it was built in.
use crate::ty::*;
use symrt::*;
use types_ts_interned::*;

/// members unions and intersections are made of
fn members() -> Vec<T> {
    let n = k("number");
    let mut v = atoms();
    v.extend([
        k("-0"), k("NaN"), k("\"a\u{0}\""), u(&[k("true"), k("\"a\"")]), u(&[k("false"), k("1")]), u(&[k("string"), k("number")]), i(&[o(&[("a", n.clone())]), o(&[("b", n.clone())])]), o(&[("a", n.clone())]), o(&[("a?", n.clone())]), o(&[("readonly a", n.clone())]), a(n.clone()), ra(n.clone()), tu(&[("", n.clone())]), tu(&[("?", n.clone())]), f(&[], n.clone()), f(&[("", n.clone())], k("void")), f(&[("?", n.clone())], k("void")), T::Ix("string", Box::new(n.clone())), T::Tpl("a", Box::new(k("string")), ""), T::N(vec![], Box::new(n.clone())),
    ]);
    v
}
fn join(s: &TypeStore, inter: bool, v: &[TypeId]) -> TypeId {
    if inter {
        s.intersection(v.to_vec())
    } else {
        s.union(v.to_vec())
    }
}
/// Union and intersection are commutative, associative and idempotent, and agree with nesting
#[no_mangle]
pub extern "C" fn st_join() {
    let v = members();
    crate::rel::warm(&pool());
    let inter = choose("intersection", 2) == 1;
    let x = &v[choose("x", v.len() as u64) as usize];
    let y = &v[choose("y", v.len() as u64) as usize];
    let z = &v[choose("z", v.len() as u64) as usize];
    note("x", show(x).as_bytes());
    note("y", show(y).as_bytes());
    note("z", show(z).as_bytes());
    let s = TypeStore::new();
    let (a, b, c) = (build(&s, x), build(&s, y), build(&s, z));
    let all = join(&s, inter, &[a, b, c]);
    for p in [[a, c, b], [b, a, c], [b, c, a], [c, a, b], [c, b, a]] {
        check(join(&s, inter, &p) == all, "the order of the members matters");
    }
    let ab = join(&s, inter, &[a, b]);
    let bc = join(&s, inter, &[b, c]);
    // (any takes over an intersection unless some of the others have become never by themselves, as in TypeScript)
    if !(inter && [a, b, c].contains(&s.primitive_ids().any)) {
        check(join(&s, inter, &[ab, c]) == all, "the nesting of the members matters");
        check(join(&s, inter, &[a, bc]) == all, "the nesting of the members matters");
    }
    check(join(&s, inter, &[all, a]) == all, "a member added again matters");
    check(join(&s, inter, &[all]) == all && s.canon(all) == all, "a canonical type is not its own canonical form");
    let p = s.primitive_ids();
    if inter {
        check(join(&s, inter, &[a, p.unknown]) == join(&s, inter, &[a]), "unknown is not neutral");
        check(join(&s, inter, &[a, p.never]) == p.never, "never does not absorb");
    } else {
        check(join(&s, inter, &[a, p.never]) == join(&s, inter, &[a]), "never is not neutral");
        check(join(&s, inter, &[a, p.unknown]) == if a == p.any { p.any } else { p.unknown }, "unknown does not absorb");
    }
    check(join(&s, inter, &[a, p.any]) == if inter && a == p.never { p.never } else { p.any }, "any does not absorb");
    cover("joined");
}
/// The same type built in another store, in another order, has the same identity; different types do not
#[no_mangle]
pub extern "C" fn st_ids() {
    let mut v = pool();
    v.extend(members());
    crate::rel::warm(&v);
    let x = &v[choose("x", v.len() as u64) as usize];
    let y = &v[choose("y", v.len() as u64) as usize];
    note("x", show(x).as_bytes());
    note("y", show(y).as_bytes());
    let s1 = TypeStore::new();
    let s2 = TypeStore::new();
    let (a1, b1) = (build_in(&s1, x, false), build_in(&s1, y, false));
    let (b2, a2) = (build_in(&s2, y, true), build_in(&s2, x, true));
    check(a1 == a2 && b1 == b2, "the identity of a type depends on the order of construction");
    check(s1.type_kind(a1) == s2.type_kind(a2), "one identity stands for two types");
    check(s1.display(a1).to_string() == s2.display(a2).to_string(), "one type is displayed in two ways");
    if a1 == b1 {
        // interning twice is the same; distinct spellings of one type are the only other case
        check(s1.display(a1).to_string() == s1.display(b1).to_string(), "one identity is displayed in two ways");
        cover("same");
    } else {
        check(s1.type_cmp(a1, b1) != std::cmp::Ordering::Equal, "different types compare equal");
        check(s1.type_cmp(a1, b1) == s1.type_cmp(b1, a1).reverse(), "the order is not antisymmetric");
        check(s1.type_cmp(a1, b1) == s2.type_cmp(a2, b2), "the order depends on the store");
        cover("different");
    }
}
/// Canonical order is transitive
#[no_mangle]
pub extern "C" fn st_order() {
    let v = members();
    crate::rel::warm(&pool());
    let pick = |n: &str| &v[choose(n, v.len() as u64) as usize];
    let (x, y, z) = (pick("x"), pick("y"), pick("z"));
    let s = TypeStore::new();
    let (a, b, c) = (build(&s, x), build(&s, y), build(&s, z));
    use std::cmp::Ordering::*;
    if s.type_cmp(a, b) != Greater && s.type_cmp(b, c) != Greater {
        check(s.type_cmp(a, c) != Greater, "the canonical order is not transitive");
        cover("ordered");
    }
}
/// Object shapes: members listed in any order, with duplicates, give one shape
#[no_mangle]
pub extern "C" fn st_shape() {
    crate::rel::warm(&pool());
    let s = TypeStore::new();
    let n = choose("n", 4) as usize;
    let mut props = vec![];
    let p = s.primitive_ids();
    for j in 0..n {
        let b = |x: &str, n: u64| choose(&format!("{}{}", x, j), n);
        let ty = [p.number, p.string, p.unknown][b("ty", 3) as usize];
        let key = [PropKey::String(s.intern_name("a")), PropKey::Number(1)][b("key", 2) as usize].clone();
        let f = b("flags", 5);
        props.push(Property {
            key,
            data: PropData {
                ty,
                optional: f == 1,
                readonly: f == 2,
                accessibility: if f == 3 { Some(Accessibility::Private) } else { None },
                is_method: f == 4,
                origin: if f == 3 { Some(j as u32) } else { None },
                declared_on: None,
            },
        });
    }
    let mk = |order: &[usize]| {
        let mut sh = Shape::new();
        sh.properties = order.iter().map(|i| props[*i].clone()).collect();
        object(&s, sh)
    };
    let all: Vec<usize> = (0..n).collect();
    let first = mk(&all);
    let orders: &[&[usize]] = match n {
        2 => &[&[1, 0]],
        3 => &[&[0, 2, 1], &[1, 0, 2], &[1, 2, 0], &[2, 0, 1], &[2, 1, 0]],
        _ => &[],
    };
    for o in orders {
        check(mk(o) == first, "the order of the members matters");
    }
    if let TypeKind::Object(o) = s.type_kind(first) {
        let sh = s.shape(s.object(o).shape);
        for w in sh.properties.windows(2) {
            check(s.compare_prop_keys(&w[0].key, &w[1].key) == std::cmp::Ordering::Less, "the members are not in order");
        }
        check(object(&s, sh) == first, "a canonical shape is not its own canonical form");
        cover("shape");
    } else {
        fail("an object is not an object");
    }
}

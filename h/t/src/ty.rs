//! A small language of types, built in the store, printed as TypeScript, and
//! given a meaning independent of the store.
use std::sync::Arc;
use types_ts_interned::*;

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    /// keyword or literal, by its TypeScript spelling
    K(&'static str),
    U(Vec<T>),
    I(Vec<T>),
    A(Box<T>, bool),
    /// element, optional, rest; readonly tuple
    Tup(Vec<(T, bool, bool)>, bool),
    /// key, type, optional, readonly
    O(Vec<(&'static str, T, bool, bool)>),
    /// index signature: key, value
    Ix(&'static str, Box<T>),
    /// parameters (type, optional, rest), result; method or property does not matter here
    F(Vec<(T, bool, bool)>, Box<T>),
    /// `new (..) => ..`
    N(Vec<(T, bool, bool)>, Box<T>),
    /// {m(x: P): R}
    M(Box<T>, Box<T>),
    /// template `${head}${T}${tail}`
    Tpl(&'static str, Box<T>, &'static str),
    KeyOf(Box<T>),
    At(Box<T>, Box<T>),
}
pub fn k(s: &'static str) -> T {
    T::K(s)
}
pub fn o(p: &[(&'static str, T)]) -> T {
    T::O(
        p.iter()
            .map(|(n, t)| {
                let (n, opt) = match n.strip_suffix('?') {
                    Some(n) => (n, true),
                    None => (*n, false),
                };
                let (n, ro) = match n.strip_prefix("readonly ") {
                    Some(n) => (n, true),
                    None => (n, false),
                };
                (n, t.clone(), opt, ro)
            })
            .collect(),
    )
}
pub fn u(v: &[T]) -> T {
    T::U(v.to_vec())
}
pub fn i(v: &[T]) -> T {
    T::I(v.to_vec())
}
pub fn a(t: T) -> T {
    T::A(Box::new(t), false)
}
pub fn ra(t: T) -> T {
    T::A(Box::new(t), true)
}
/// `?` marks an optional, `...` a rest element
pub fn el(v: &[(&str, T)]) -> Vec<(T, bool, bool)> {
    v.iter().map(|(f, t)| (t.clone(), *f == "?", *f == "...")).collect()
}
pub fn tu(v: &[(&str, T)]) -> T {
    T::Tup(el(v), false)
}
pub fn f(p: &[(&str, T)], r: T) -> T {
    T::F(el(p), Box::new(r))
}
pub fn show(t: &T) -> String {
    match t {
        T::K(s) => s.to_string(),
        T::U(v) => v.iter().map(|x| format!("({})", show(x))).collect::<Vec<_>>().join("|"),
        T::I(v) => v.iter().map(|x| format!("({})", show(x))).collect::<Vec<_>>().join("&"),
        T::A(t, ro) => format!("{}({})[]", if *ro { "readonly " } else { "" }, show(t)),
        T::Tup(v, ro) => format!(
            "{}[{}]",
            if *ro { "readonly " } else { "" },
            v.iter()
                .map(|(t, o, r)| {
                    if *r {
                        format!("...({})[]", show(t))
                    } else {
                        format!("({}){}", show(t), if *o { "?" } else { "" })
                    }
                })
                .collect::<Vec<_>>()
                .join(",")
        ),
        T::O(v) => format!("{{{}}}", v.iter().map(|(n, t, o, r)| format!("{}{}{}:{}", if *r { "readonly " } else { "" }, n, if *o { "?" } else { "" }, show(t))).collect::<Vec<_>>().join(";")),
        T::Ix(k, v) => format!("{{[k:{}]:{}}}", k, show(v)),
        T::F(p, r) | T::N(p, r) => format!(
            "{}({})=>{}",
            if matches!(t, T::N(..)) { "new " } else { "" },
            p.iter()
                .enumerate()
                .map(|(i, (t, o, r))| {
                    if *r {
                        format!("...p{}:({})[]", i, show(t))
                    } else {
                        format!("p{}{}:{}", i, if *o { "?" } else { "" }, show(t))
                    }
                })
                .collect::<Vec<_>>()
                .join(","),
            show(r)
        ),
        T::M(p, r) => format!("{{m(x:{}):{}}}", show(p), show(r)),
        T::Tpl(h, t, l) => format!("`{}${{{}}}{}`", h, show(t), l),
        T::KeyOf(t) => format!("keyof({})", show(t)),
        T::At(t, i) => format!("({})[{}]", show(t), show(i)),
    }
}
fn prop(s: &TypeStore, n: &str, ty: TypeId, optional: bool, readonly: bool, is_method: bool) -> Property {
    Property { key: PropKey::String(s.intern_name(n)), data: PropData { ty, optional, readonly, accessibility: None, is_method, origin: None, declared_on: None } }
}
fn params(s: &TypeStore, p: &[(T, bool, bool)]) -> Vec<Param> {
    p.iter()
        .map(|(t, o, r)| {
            let mut ty = build(s, t);
            if *r {
                ty = s.intern_type(TypeKind::Array { ty, readonly: false });
            }
            Param { name: None, ty, optional: *o, rest: *r }
        })
        .collect()
}
pub fn object(s: &TypeStore, sh: Shape) -> TypeId {
    let shape = s.intern_shape(sh);
    let o = s.intern_object(ObjectType { shape });
    s.intern_type(TypeKind::Object(o))
}
/// the order in which parts are interned, and members listed: forwards or backwards
pub fn build(s: &TypeStore, t: &T) -> TypeId {
    build_in(s, t, false)
}
pub fn build_in(s: &TypeStore, t: &T, back: bool) -> TypeId {
    let many = |v: &[T]| -> Vec<TypeId> {
        if back {
            v.iter().rev().map(|x| build_in(s, x, back)).collect()
        } else {
            v.iter().map(|x| build_in(s, x, back)).collect()
        }
    };
    match t {
        T::K(n) => kw(s, n),
        T::U(v) => s.intern_type(TypeKind::Union(many(v))),
        T::I(v) => s.intern_type(TypeKind::Intersection(many(v))),
        T::A(t, ro) => {
            let ty = build_in(s, t, back);
            s.intern_type(TypeKind::Array { ty, readonly: *ro })
        }
        T::Tup(v, ro) => {
            let e = v
                .iter()
                .map(|(t, o, r)| {
                    let mut ty = build_in(s, t, back);
                    if *r {
                        ty = s.intern_type(TypeKind::Array { ty, readonly: false });
                    }
                    TupleElem { ty, optional: *o, rest: *r, readonly: *ro }
                })
                .collect();
            s.intern_type(TypeKind::Tuple(e))
        }
        T::O(v) => {
            if v.is_empty() {
                return s.intern_type(TypeKind::EmptyObject);
            }
            let mut sh = Shape::new();
            sh.properties = v.iter().map(|(n, t, o, r)| prop(s, n, build_in(s, t, back), *o, *r, false)).collect();
            if back {
                sh.properties.reverse();
            }
            object(s, sh)
        }
        T::Ix(key, v) => {
            let mut sh = Shape::new();
            sh.indexers.push(Indexer { key_type: kw(s, key), value_type: build_in(s, v, back), readonly: false });
            object(s, sh)
        }
        T::F(p, r) => {
            let ps = params(s, p);
            let ret = build_in(s, r, back);
            let sig = s.intern_signature(Signature::new(ps, ret));
            s.intern_type(TypeKind::Callable { overloads: vec![sig] })
        }
        T::N(p, r) => {
            let ps = params(s, p);
            let ret = build_in(s, r, back);
            let sig = s.intern_signature(Signature::new(ps, ret));
            let mut sh = Shape::new();
            sh.construct_signatures.push(sig);
            object(s, sh)
        }
        T::M(p, r) => {
            let ty = build_in(s, p, back);
            let ret = build_in(s, r, back);
            let sig = s.intern_signature(Signature::new(vec![Param { name: None, ty, optional: false, rest: false }], ret));
            let m = s.intern_type(TypeKind::Callable { overloads: vec![sig] });
            let mut sh = Shape::new();
            sh.properties.push(prop(s, "m", m, false, false, true));
            object(s, sh)
        }
        T::Tpl(h, t, l) => {
            let ty = build_in(s, t, back);
            s.intern_type(TypeKind::TemplateLiteral(TemplateLiteralType { head: h.to_string(), spans: vec![TemplateChunk { literal: l.to_string(), ty }] }))
        }
        T::KeyOf(t) => {
            let ty = build_in(s, t, back);
            s.intern_type(TypeKind::KeyOf(ty))
        }
        T::At(t, i) => {
            let obj = build_in(s, t, back);
            let index = build_in(s, i, back);
            s.intern_type(TypeKind::IndexedAccess { obj, index })
        }
    }
}
fn kw(s: &TypeStore, n: &str) -> TypeId {
    let p = s.primitive_ids();
    match n {
        "any" => p.any,
        "unknown" => p.unknown,
        "never" => p.never,
        "void" => p.void,
        "null" => p.null,
        "undefined" => p.undefined,
        "boolean" => p.boolean,
        "number" => p.number,
        "string" => p.string,
        "bigint" => p.bigint,
        "symbol" => p.symbol,
        "true" => s.intern_type(TypeKind::BooleanLiteral(true)),
        "false" => s.intern_type(TypeKind::BooleanLiteral(false)),
        "{}" => s.intern_type(TypeKind::EmptyObject),
        "object" => object(s, Shape::new()),
        _ if n.starts_with('"') => s.intern_type(TypeKind::StringLiteral(s.intern_name(&n[1..n.len() - 1]))),
        _ if n.ends_with('n') => s.intern_type(TypeKind::BigIntLiteral(n[..n.len() - 1].parse().unwrap())),
        _ => s.intern_type(TypeKind::NumberLiteral(n.parse::<f64>().unwrap().into())),
    }
}
pub fn assignable(s: &Arc<TypeStore>, x: TypeId, y: TypeId) -> bool {
    RelateCtx::new(s.clone(), s.options()).is_assignable(x, y)
}
/// types every other one is built from
pub fn atoms() -> Vec<T> {
    ["any", "unknown", "never", "void", "null", "undefined", "boolean", "number", "string", "bigint", "symbol", "true", "false", "{}", "object", "\"a\"", "\"b\"", "\"\"", "\"0\"", "0", "1", "-1", "1.5", "1n", "0n"].iter().map(|x| k(x)).collect()
}
pub fn pool() -> Vec<T> {
    let mut v = atoms();
    let (n, st, b, un, nu, tr, fa, l0, l1, la, lb) = (k("number"), k("string"), k("boolean"), k("undefined"), k("null"), k("true"), k("false"), k("0"), k("1"), k("\"a\""), k("\"b\""));
    // unions and intersections
    v.extend([
        u(&[n.clone(), st.clone()]), u(&[n.clone(), un.clone()]), u(&[st.clone(), nu.clone(), un.clone()]), u(&[tr.clone(), n.clone()]), u(&[b.clone(), n.clone()]), u(&[l0.clone(), l1.clone()]), u(&[la.clone(), lb.clone()]), u(&[la.clone(), l1.clone(), nu.clone()]), u(&[k("void"), n.clone()]), u(&[k("{}"), nu.clone(), un.clone()]), u(&[k("object"), nu.clone()]),
        i(&[st.clone(), k("{}")]), i(&[o(&[("a", n.clone())]), o(&[("b", st.clone())])]), i(&[n.clone(), o(&[("a", n.clone())])]), i(&[k("unknown"), n.clone()]), i(&[o(&[("a", u(&[l0.clone(), l1.clone()]))]), o(&[("a", l1.clone())])]), i(&[k("object"), k("{}")]), i(&[f(&[], n.clone()), f(&[("", n.clone())], st.clone())]),
    ]);
    // objects
    for t in [n.clone(), l1.clone(), un.clone(), u(&[n.clone(), un.clone()]), k("any"), k("never"), b.clone(), tr.clone(), k("unknown"), k("object"), st.clone()] {
        v.push(o(&[("a", t.clone())]));
        v.push(o(&[("a?", t)]));
    }
    v.extend([
        o(&[("readonly a", n.clone())]), o(&[("b", st.clone())]), o(&[("b?", st.clone())]), o(&[("a", n.clone()), ("b", st.clone())]), o(&[("a", n.clone()), ("b?", st.clone())]), o(&[("a?", n.clone()), ("b?", st.clone())]), o(&[("a", o(&[("a", n.clone())]))]), o(&[("a", o(&[("a?", n.clone())]))]), o(&[("a?", o(&[("b?", n.clone())]))]), o(&[("m", f(&[("", n.clone())], k("void")))]), o(&[("m?", f(&[("", u(&[n.clone(), st.clone()]))], k("void")))]),
        T::M(Box::new(n.clone()), Box::new(k("void"))), T::M(Box::new(u(&[n.clone(), st.clone()])), Box::new(k("void"))), T::M(Box::new(l1.clone()), Box::new(n.clone())),
        u(&[o(&[("a", l0.clone()), ("b", n.clone())]), o(&[("a", l1.clone()), ("b", st.clone())])]), o(&[("a", l1.clone()), ("b", u(&[n.clone(), st.clone()]))]), o(&[("a", u(&[l0.clone(), l1.clone()])), ("b", u(&[n.clone(), st.clone()]))]), u(&[o(&[("a", tr.clone())]), o(&[("a", fa.clone())])]), u(&[o(&[("a", n.clone())]), o(&[("b", n.clone())])]), u(&[o(&[("a", n.clone())]), un.clone()]), o(&[("a", u(&[l0.clone(), l1.clone()]))]), u(&[o(&[("a", l0.clone())]), o(&[("a", l1.clone())])]),
        T::Ix("string", Box::new(n.clone())), T::Ix("string", Box::new(k("any"))), T::Ix("string", Box::new(u(&[n.clone(), un.clone()]))), T::Ix("string", Box::new(k("unknown"))),
    ]);
    // arrays and tuples
    for t in [n.clone(), l1.clone(), u(&[n.clone(), st.clone()]), k("never"), k("any"), k("unknown"), un.clone(), o(&[("a", n.clone())]), a(n.clone())] {
        v.push(a(t.clone()));
        v.push(ra(t));
    }
    v.extend([
        tu(&[]), tu(&[("", n.clone())]), tu(&[("", l1.clone())]), tu(&[("?", n.clone())]), tu(&[("", n.clone()), ("", st.clone())]), tu(&[("", n.clone()), ("?", st.clone())]), tu(&[("", n.clone()), ("...", n.clone())]), tu(&[("...", n.clone())]), tu(&[("", n.clone()), ("...", st.clone())]), tu(&[("?", n.clone()), ("?", n.clone())]), tu(&[("", u(&[n.clone(), un.clone()]))]), tu(&[("", k("any"))]), tu(&[("", n.clone()), ("", n.clone())]), tu(&[("", u(&[n.clone(), st.clone()])), ("", st.clone())]), tu(&[("...", n.clone()), ("", st.clone())]), tu(&[("", n.clone()), ("...", n.clone()), ("", st.clone())]),
        T::Tup(el(&[("", n.clone())]), true), T::Tup(el(&[("", n.clone()), ("?", st.clone())]), true), T::Tup(el(&[("...", n.clone())]), true),
    ]);
    // functions
    v.extend([
        f(&[], k("void")), f(&[], n.clone()), f(&[], l1.clone()), f(&[], k("any")), f(&[], k("unknown")), f(&[], k("never")), f(&[], un.clone()), f(&[("", n.clone())], k("void")), f(&[("", l1.clone())], k("void")), f(&[("", u(&[n.clone(), st.clone()]))], k("void")), f(&[("?", n.clone())], k("void")), f(&[("", u(&[n.clone(), un.clone()]))], k("void")), f(&[("", n.clone()), ("", st.clone())], k("void")), f(&[("", n.clone()), ("?", st.clone())], k("void")), f(&[("...", n.clone())], k("void")), f(&[("...", k("any"))], k("any")), f(&[("", n.clone()), ("...", st.clone())], k("void")), f(&[("", k("any"))], n.clone()), f(&[("", k("never"))], k("unknown")), f(&[("...", k("never"))], k("unknown")), f(&[("", k("unknown"))], k("void")), f(&[("", f(&[("", n.clone())], k("void")))], k("void")), f(&[("", f(&[("", l1.clone())], k("void")))], k("void")), f(&[("", o(&[("a", n.clone())]))], o(&[("b", st.clone())])), f(&[("", o(&[("a", n.clone()), ("b", st.clone())]))], o(&[("b?", st.clone())])), f(&[("", n.clone())], f(&[("", st.clone())], n.clone())),
        T::N(vec![], Box::new(o(&[("a", n.clone())]))), T::N(el(&[("", n.clone())]), Box::new(o(&[("a", n.clone())]))), T::N(el(&[("?", n.clone())]), Box::new(o(&[("a", l1.clone()), ("b", st.clone())]))),
        u(&[f(&[], n.clone()), un.clone()]),
    ]);
    // templates, keyof, indexed access
    v.extend([
        T::Tpl("a", Box::new(st.clone()), ""), T::Tpl("", Box::new(st.clone()), "b"), T::Tpl("", Box::new(n.clone()), ""), T::Tpl("a", Box::new(n.clone()), "b"), T::Tpl("a", Box::new(u(&[k("\"x\""), k("\"y\"")])), ""), k("\"ax\""), k("\"a1b\""), k("\"1\""), k("\"01\""), T::Tpl("", Box::new(b.clone()), ""), k("\"true\""), T::Tpl("", Box::new(k("bigint")), ""),
        T::KeyOf(Box::new(o(&[("a", n.clone()), ("b", n.clone())]))), T::KeyOf(Box::new(T::Ix("string", Box::new(n.clone())))), T::KeyOf(Box::new(u(&[o(&[("a", n.clone()), ("b", n.clone())]), o(&[("a", n.clone())])]))), T::KeyOf(Box::new(i(&[o(&[("a", n.clone())]), o(&[("b", n.clone())])]))),
        T::At(Box::new(o(&[("a", n.clone()), ("b?", st.clone())])), Box::new(la.clone())), T::At(Box::new(o(&[("a", n.clone()), ("b?", st.clone())])), Box::new(u(&[la.clone(), lb.clone()]))), T::At(Box::new(tu(&[("", n.clone()), ("", st.clone())])), Box::new(l1.clone())), T::At(Box::new(a(n.clone())), Box::new(n.clone())), T::At(Box::new(T::Ix("string", Box::new(n.clone()))), Box::new(st.clone())),
    ]);
    v
}

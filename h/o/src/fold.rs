//! Constant folding (eval/consteval.rs) against the operators' definitions in ECMA-262.
use num_bigint::BigInt;
use optimize_js::eval::consteval::*;
use optimize_js::il::inst::{BinOp, Const, UnOp};
use parse_js::num::JsNumber as JN;
use symrt::*;

/// A JavaScript primitive; bigints of the harness fit in an i64.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum V<'a> { Big(i64), Bool(bool), Null, Num(f64), Str(&'a str), Undef }
use V::*;

fn sym_f64(n: &str) -> f64 { f64::from_bits(any_u64(n)) }
fn konst(v: V) -> Const {
    match v {
        Big(b) => Const::BigInt(BigInt::from(b)), Bool(b) => Const::Bool(b), Null => Const::Null, Num(n) => Const::Num(JN(n)),
        Str(s) => Const::Str(s.to_string()), Undef => Const::Undefined,
    }
}
fn ws(c: char) -> bool {
    matches!(c as u32, 9..=13 | 32 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000 | 0xfeff)
}
fn trim(s: &str) -> &str {
    let mut s = s;
    loop {
        match s.chars().next() { Some(c) if ws(c) => s = &s[c.len_utf8()..], _ => break }
    }
    loop {
        match s.chars().next_back() { Some(c) if ws(c) => s = &s[..s.len() - c.len_utf8()], _ => break }
    }
    s
}
fn radix_of(s: &str) -> Option<(u32, &str)> {
    let b = s.as_bytes();
    if b.len() >= 2 && b[0] == b'0' {
        let r = match b[1] { b'x' | b'X' => 16, b'o' | b'O' => 8, b'b' | b'B' => 2, _ => return None };
        return Some((r, &s[2..]));
    }
    None
}
fn digit(b: u8, r: u32) -> Option<u32> {
    let d = match b { b'0'..=b'9' => b - b'0', b'a'..=b'f' => b - b'a' + 10, b'A'..=b'F' => b - b'A' + 10, _ => return None } as u32;
    if d < r { Some(d) } else { None }
}
/// StringToNumber
fn str_num(s: &str) -> f64 {
    let t = trim(s);
    if t.is_empty() { return 0.0 }
    if let Some((r, d)) = radix_of(t) {
        if d.is_empty() { return f64::NAN }
        let mut v: u64 = 0; // the texts of the harness stay below 2^53
        for b in d.bytes() { match digit(b, r) { Some(x) => v = v * r as u64 + x as u64, None => return f64::NAN } }
        return v as f64;
    }
    let b = t.as_bytes();
    let (neg, mut i) = match b[0] { b'-' => (true, 1), b'+' => (false, 1), _ => (false, 0) };
    let body = &t[i..];
    let v = if body == "Infinity" { f64::INFINITY } else {
        let mut digits = 0;
        while i < b.len() && b[i].is_ascii_digit() { digits += 1; i += 1 }
        if i < b.len() && b[i] == b'.' { i += 1; while i < b.len() && b[i].is_ascii_digit() { digits += 1; i += 1 } }
        if digits == 0 { return f64::NAN }
        if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
            i += 1;
            if i < b.len() && (b[i] == b'+' || b[i] == b'-') { i += 1 }
            let k = i;
            while i < b.len() && b[i].is_ascii_digit() { i += 1 }
            if k == i { return f64::NAN }
        }
        if i != b.len() { return f64::NAN }
        match body.parse::<f64>() { Ok(v) => v, Err(_) => return f64::NAN }
    };
    if neg { -v } else { v }
}
/// StringToBigInt
fn str_big(s: &str) -> Option<i64> {
    let t = trim(s);
    if t.is_empty() { return Some(0) }
    let (neg, r, d) = match radix_of(t) {
        Some((r, d)) => (false, r, d),
        None => match t.as_bytes()[0] { b'-' => (true, 10, &t[1..]), b'+' => (false, 10, &t[1..]), _ => (false, 10, t) },
    };
    if d.is_empty() { return None }
    let mut v: i64 = 0;
    for b in d.bytes() { v = v * r as i64 + digit(b, r)? as i64 }
    Some(if neg { -v } else { v })
}
fn num(v: V) -> Option<f64> {
    Some(match v { Big(_) => return None, Bool(b) => if b { 1.0 } else { 0.0 }, Null => 0.0, Num(n) => n, Str(s) => str_num(s), Undef => f64::NAN })
}
/// ToUint32 by the definition: truncate, then reduce modulo 2^32
pub fn u32_of(x: f64) -> u32 {
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    if e == 0x7ff || e < 1023 { return 0 }
    let m = (bits & ((1 << 52) - 1)) | 1 << 52;
    let sh = e - 1075; // value = m * 2^sh
    let mag = if sh >= 32 { 0 } else if sh >= 0 { (m << sh) as u32 } else if sh > -53 { (m >> -sh) as u32 } else { 0 };
    if bits >> 63 == 1 { mag.wrapping_neg() } else { mag }
}
fn truthy(v: V) -> bool {
    match v { Big(b) => b != 0, Bool(b) => b, Null | Undef => false, Num(n) => n == n && n != 0.0, Str(s) => !s.is_empty() }
}
/// bigint against number, exactly; None when not comparable
fn big_num(b: i64, n: f64) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    if n != n { return None }
    if n >= 9.2e18 { return Some(Less) }
    if n <= -9.2e18 { return Some(Greater) }
    let f = n.floor();
    let i = f as i64;
    Some(match b.cmp(&i) { Equal if f < n => Less, o => o })
}
fn cmp(a: V, b: V) -> Option<std::cmp::Ordering> {
    match (a, b) {
        (Str(a), Str(b)) => {
            let (x, y): (Vec<u16>, Vec<u16>) = (a.encode_utf16().collect(), b.encode_utf16().collect());
            Some(x.cmp(&y))
        }
        (Big(a), Big(b)) => Some(a.cmp(&b)),
        (Big(a), Str(b)) => str_big(b).map(|b| a.cmp(&b)),
        (Str(a), Big(b)) => str_big(a).map(|a| a.cmp(&b)),
        (Big(a), b) => big_num(a, num(b).unwrap()),
        (a, Big(b)) => big_num(b, num(a).unwrap()).map(|o| o.reverse()),
        (a, b) => num(a).unwrap().partial_cmp(&num(b).unwrap()),
    }
}
fn strict(a: V, b: V) -> bool {
    match (a, b) {
        (Num(a), Num(b)) => a == b, (Str(a), Str(b)) => a == b, (Big(a), Big(b)) => a == b, (Bool(a), Bool(b)) => a == b,
        (Null, Null) | (Undef, Undef) => true, _ => false,
    }
}
fn loose(a: V, b: V) -> bool {
    match (a, b) {
        (Null | Undef, Null | Undef) => true,
        (Null | Undef, _) | (_, Null | Undef) => false,
        (Bool(x), Bool(y)) => x == y,
        (Bool(x), y) => loose(Num(if x { 1.0 } else { 0.0 }), y),
        (x, Bool(y)) => loose(x, Num(if y { 1.0 } else { 0.0 })),
        (Num(x), Str(y)) => x == str_num(y),
        (Str(x), Num(y)) => str_num(x) == y,
        (Big(x), Str(y)) => str_big(y) == Some(x),
        (Str(x), Big(y)) => str_big(x) == Some(y),
        (Big(x), Num(y)) | (Num(y), Big(x)) => big_num(x, y) == Some(std::cmp::Ordering::Equal),
        _ => strict(a, b),
    }
}
/// Number::toString(x, 10)
fn num_str(x: f64) -> String {
    if x != x { return "NaN".into() }
    if x == 0.0 { return "0".into() }
    if x < 0.0 { return format!("-{}", num_str(-x)) }
    if x.is_infinite() { return "Infinity".into() }
    let e = format!("{:e}", x); // d.ddde±x: the shortest digits that read back as x
    let (m, ex) = e.split_once('e').unwrap();
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let n = ex.parse::<i32>().unwrap() + 1;
    let k = digits.len() as i32;
    if k <= n && n <= 21 { format!("{}{}", digits, "0".repeat((n - k) as usize)) }
    else if 0 < n && n <= 21 { format!("{}.{}", &digits[..n as usize], &digits[n as usize..]) }
    else if -6 < n && n <= 0 { format!("0.{}{}", "0".repeat(-n as usize), digits) }
    else {
        let s = if n - 1 < 0 { "-" } else { "+" };
        let a = (n - 1).abs();
        if k == 1 { format!("{}e{}{}", digits, s, a) } else { format!("{}.{}e{}{}", &digits[..1], &digits[1..], s, a) }
    }
}
fn show(v: V) -> String {
    match v {
        Big(b) => b.to_string(), Bool(b) => if b { "true".into() } else { "false".into() }, Null => "null".into(),
        Num(n) => num_str(n), Str(s) => s.to_string(), Undef => "undefined".into(),
    }
}
pub enum W { Num(f64), Bool(bool), Str(String), Undef, Throws, Other }

pub const OPS: [BinOp; 19] = [BinOp::Add, BinOp::BitAnd, BinOp::BitOr, BinOp::BitXor, BinOp::Div, BinOp::Geq, BinOp::Gt, BinOp::Leq, BinOp::LooseEq, BinOp::Lt, BinOp::Mul, BinOp::NotLooseEq, BinOp::NotStrictEq, BinOp::Shl, BinOp::Shr, BinOp::UShr, BinOp::StrictEq, BinOp::Sub, BinOp::Mod];

fn fmod(a: f64, b: f64) -> f64 { a % b }
fn pow(a: f64, b: f64) -> f64 {
    if b != b { return f64::NAN }
    if b == 0.0 { return 1.0 }
    if b.is_infinite() && a.abs() == 1.0 { return f64::NAN }
    a.powf(b)
}

pub fn reference(op: BinOp, a: V, b: V) -> W {
    use BinOp::*;
    let t = |f: &dyn Fn(std::cmp::Ordering) -> bool| W::Bool(match cmp(a, b) { Some(o) => f(o), None => false });
    match op {
        Geq => return t(&|o| o.is_ge()), Gt => return t(&|o| o.is_gt()), Leq => return t(&|o| o.is_le()), Lt => return t(&|o| o.is_lt()),
        LooseEq => return W::Bool(loose(a, b)), NotLooseEq => return W::Bool(!loose(a, b)),
        StrictEq => return W::Bool(strict(a, b)), NotStrictEq => return W::Bool(!strict(a, b)),
        Add if matches!(a, Str(_)) || matches!(b, Str(_)) => return W::Str(format!("{}{}", show(a), show(b))),
        GetProp | _Dummy => return W::Other,
        _ => {}
    }
    let (x, y) = match (num(a), num(b)) { (Some(x), Some(y)) => (x, y), (None, None) => return W::Other, _ => return W::Throws };
    let (ux, uy) = (u32_of(x), u32_of(y));
    let sh = uy & 31;
    W::Num(match op {
        Add => x + y, Sub => x - y, Mul => x * y, Div => x / y, Mod => fmod(x, y), Exp => pow(x, y),
        BitAnd => (ux & uy) as i32 as f64, BitOr => (ux | uy) as i32 as f64, BitXor => (ux ^ uy) as i32 as f64,
        Shl => (ux << sh) as i32 as f64, Shr => ((ux as i32) >> sh) as f64, UShr => (ux >> sh) as f64,
        _ => unreachable!(),
    })
}
fn same_num(a: f64, b: f64) -> bool { (a != a) & (b != b) | (a.to_bits() == b.to_bits()) }
pub fn same(got: &Const, want: &W) {
    match (got, want) {
        (Const::Num(a), W::Num(b)) => check(same_num(a.0, *b), "constant folding computes a different number"),
        (Const::Bool(a), W::Bool(b)) => check(a == b, "constant folding computes the opposite boolean"),
        (Const::Str(a), W::Str(b)) => if a != b { note("want", b.as_bytes()); note("got", a.as_bytes()); fail("constant folding computes a different string") },
        (Const::Undefined, W::Undef) => {}
        (_, W::Throws) => fail("constant folding gives a value to an operation that throws"),
        (_, W::Other) => {}
        _ => fail("constant folding computes a value of a different type"),
    }
}
fn note_ops(op: usize, a: V, b: V) {
    note("op", &[op as u8]);
    for (k, v) in [("a", a), ("b", b)] {
        match v { Str(s) => note(k, s.as_bytes()), Big(b) => { let i = b as f64; note(k, &i.to_bits().to_le_bytes()) }, Undef => note(k, b"undefined"), Null => note(k, b"null"), _ => {} }
    }
}
fn run(i: usize, op: BinOp, a: V, b: V) {
    note_ops(i, a, b);
    let want = reference(op, a, b);
    match maybe_eval_const_bin_expr(op, &konst(a), &konst(b)) { Some(c) => { cover("folded"); same(&c, &want) } None => cover("left alone") }
}

/// operators that are not bitwise, by index in OPS
const PLAIN: [usize; 12] = [0, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17];
const BITS: [usize; 6] = [1, 2, 3, 13, 14, 15];
/// two arbitrary numbers, every operator except the bitwise ones and the remainder
#[no_mangle]
pub extern "C" fn fo_num() {
    let i = PLAIN[choose("op", 12) as usize];
    let (a, b) = (sym_f64("a"), sym_f64("b"));
    run(i, OPS[i], Num(a), Num(b));
}
/// ToUint32 and ToInt32 of an arbitrary number: `x >>> 0`, `x | 0`, `~x`; the exponent is case-split
#[no_mangle]
pub extern "C" fn fo_int() {
    let e = choose("e", 70);
    // 2^-1 .. 2^66, then zero/subnormal and the largest ones
    let ex = match e { 68 => 0u64, 69 => 2047, e => 1022 + e };
    let x = f64::from_bits((any_u64("m") & ((1 << 52) - 1)) | ex << 52 | (any_bool("neg") as u64) << 63);
    let k = choose("op", 3);
    let (c, w) = match k {
        0 => (maybe_eval_const_bin_expr(BinOp::UShr, &konst(Num(x)), &konst(Num(0.0))), u32_of(x) as f64),
        1 => (maybe_eval_const_bin_expr(BinOp::BitOr, &konst(Null), &konst(Num(x))), u32_of(x) as i32 as f64),
        _ => (maybe_eval_const_un_expr(UnOp::BitNot, &konst(Num(x))), !u32_of(x) as i32 as f64),
    };
    if let Some(c) = c { cover("folded"); same(&c, &W::Num(w)) }
}
/// bitwise operators on two arbitrary 32-bit integers
#[no_mangle]
pub extern "C" fn fo_bits() {
    let i = BITS[choose("op", 6) as usize];
    let (a, b) = (any_u32("a"), any_u32("b"));
    let f = |v: u32, s: bool| if s { v as i32 as f64 } else { v as f64 };
    let (sa, sb) = (choose("sa", 2) == 1, choose("sb", 2) == 1);
    run(i, OPS[i], Num(f(a, sa)), Num(f(b, sb)));
}
pub const STRS: [&str; 24] = ["", " ", "0", "-0", "1", "+1", "-1", " 12\n", "0x1F", "-0x1", "0b101", "0o17", "1e3", "1e", ".5", "5.", ".", "Infinity", "-Infinity", "1_0", "1n", "\u{feff}7\u{2028}", "9007199254740993", "a"];
pub const BIGS: [i64; 9] = [0, 1, -1, 2, 31, 9007199254740992, 9007199254740993, -9007199254740993, 1 << 62];
fn operand(n: &str) -> V<'static> {
    let mut k = String::from(n);
    match choose(n, 5) {
        0 => { k.push('v'); Num(sym_f64(&k)) }
        1 => { k.push('v'); Bool(any_bool(&k)) }
        2 => Null,
        3 => Undef,
        _ => { k.push('v'); Str(STRS[choose(&k, STRS.len() as u64) as usize]) }
    }
}
/// operands of every kind but bigint; numbers and booleans arbitrary
#[no_mangle]
pub extern "C" fn fo_mix() {
    let i = PLAIN[choose("op", 12) as usize];
    let (a, b) = (operand("a"), operand("b"));
    // concatenation with a number is fo_concat's
    if i == 0 { assume(!matches!((a, b), (Num(_), Str(_)) | (Str(_), Num(_)))) }
    run(i, OPS[i], a, b);
}
pub fn special(i: u64) -> f64 {
    [0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, -3.0, 1.5, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, 5e-324, 2147483648.0, 4294967296.0, 9007199254740992.0, 9007199254740994.0, 1e21, 123456789012345680000.0, 1e-6, 1e-7, 1.25e-7, 123456.789, 1e300, -1e22, 100.0, 0.1, 1180591620717411303424.0][i as usize]
}
pub const NSP: u64 = 30;
/// special numbers: remainder and power
#[no_mangle]
pub extern "C" fn fo_list() {
    let op = if choose("op", 2) == 0 { BinOp::Mod } else { BinOp::Exp };
    let mut v = [Null; 2];
    for (k, n) in [(0, "a"), (1, "b")] {
        let i = choose(n, NSP + STRS.len() as u64);
        v[k] = if i < NSP { Num(special(i)) } else { Str(STRS[(i - NSP) as usize]) };
    }
    run(18, op, v[0], v[1]);
}
/// string + number
#[no_mangle]
pub extern "C" fn fo_concat() {
    let x = Num(special(choose("n", NSP)));
    let s = Str(pick("s", &["", "a", "1"]));
    let (a, b) = if choose("side", 2) == 0 { (x, s) } else { (s, x) };
    run(0, BinOp::Add, a, b);
}
/// a bigint with anything
#[no_mangle]
pub extern "C" fn fo_big() {
    let i = choose("op", OPS.len() as u64) as usize;
    let x = Big(BIGS[choose("big", BIGS.len() as u64) as usize]);
    let k = choose("y", 3 + BIGS.len() as u64 + NSP + STRS.len() as u64);
    let y = match k {
        0 => Null, 1 => Undef, 2 => Bool(any_bool("yv")),
        k if k < 3 + 9 => Big(BIGS[k as usize - 3]),
        k if k < 12 + NSP => Num(special(k - 12)),
        k => Str(STRS[(k - 12 - NSP) as usize]),
    };
    let (a, b) = if choose("side", 2) == 0 { (x, y) } else { (y, x) };
    run(i, OPS[i], a, b);
}
/// arbitrary text to number and to bigint
#[no_mangle]
pub extern "C" fn fo_str() {
    let n = 1 + choose("len", 5) as usize;
    let t = text_in("t", n, b"01.eE+-xXbo_n \nfIi");
    note("t", t.as_bytes());
    let g = coerce_str_to_num(&t);
    check(same_num(g, str_num(&t)), "a string converts to a different number");
    match (parse_bigint(&t), str_big(&t)) {
        (Some(a), Some(b)) => check(a == BigInt::from(b), "a string converts to a different bigint"),
        (None, None) => cover("not a bigint"),
        (Some(_), None) => fail("a string that is no bigint is converted to one"),
        (None, Some(_)) => fail("a string that is a bigint is not converted"),
    }
    cover("string");
}
/// string comparison and equality
#[no_mangle]
pub extern "C" fn fo_strcmp() {
    let mut s = [String::new(), String::new()];
    for (k, n) in [(0, "a"), (1, "b")] {
        let l = choose(n, 3) as usize;
        for j in 0..l {
            let m = [["a0", "a1"], ["b0", "b1"]][k][j];
            s[k].push_str(pick(m, &["a", "b", "\u{0}", "\u{e9}", "\u{d7ff}", "\u{e000}", "\u{ffff}", "\u{10000}", "\u{10ffff}"]));
        }
    }
    let i = [0usize, 5, 6, 7, 9, 8, 16, 11][choose("op", 8) as usize];
    run(i, OPS[i], Str(&s[0]), Str(&s[1]));
}
/// unary operators
#[no_mangle]
pub extern "C" fn fo_un() {
    let k = choose("kind", 2);
    let a = if k == 0 { operand("a") } else { Big(BIGS[choose("big", BIGS.len() as u64) as usize]) };
    let op = [UnOp::BitNot, UnOp::Neg, UnOp::Not, UnOp::Plus, UnOp::Typeof, UnOp::Void][choose("op", 6) as usize];
    note_ops(0, a, Null);
    let want = match op {
        UnOp::BitNot => match a { Num(_) => { assume(false); return } _ => match num(a) { Some(x) => W::Num(!(u32_of(x) as i32) as f64), None => W::Other } },
        UnOp::Neg => match num(a) { Some(x) => W::Num(-x), None => W::Other },
        UnOp::Plus => match num(a) { Some(x) => W::Num(x), None => W::Throws },
        UnOp::Not => W::Bool(!truthy(a)),
        UnOp::Void => W::Undef,
        _ => W::Str(match a { Big(_) => "bigint", Bool(_) => "boolean", Null => "object", Num(_) => "number", Str(_) => "string", Undef => "undefined" }.to_string()),
    };
    match maybe_eval_const_un_expr(op, &konst(a)) { Some(c) => { cover("folded"); same(&c, &want) } None => cover("left alone") }
}
fn call(f: &str, args: &[Const]) -> Option<f64> {
    match maybe_eval_const_builtin_call(f, args) { Some(Const::Num(n)) => Some(n.0), Some(_) => fail("a folded Math call is no number"), None => None }
}
/// the exact Math functions, on an arbitrary number
#[no_mangle]
pub extern "C" fn fo_math() {
    let f = pick("f", &["Math.abs", "Math.ceil", "Math.floor", "Math.trunc", "Math.round", "Math.sqrt"]);
    let x = sym_f64("x");
    note("f", f.as_bytes());
    let want = match f {
        "Math.abs" => f64::from_bits(x.to_bits() & !(1 << 63)),
        "Math.ceil" => x.ceil(), "Math.floor" => x.floor(), "Math.trunc" => x.trunc(), "Math.sqrt" => x.sqrt(),
        _ => {
            // the integer nearest to x, the upper one when two are, -0 for [-0.5, -0]
            let r = x.floor();
            let r = if x - r >= 0.5 { r + 1.0 } else { r };
            if r == 0.0 { f64::from_bits(x.to_bits() & 1 << 63) } else { r }
        }
    };
    if let Some(g) = call(f, &[Const::Num(JN(x))]) { cover("folded"); check(same_num(g, want), "a folded Math call gives a different number") }
}
/// the approximated Math functions, on the arguments whose result the specification fixes
#[no_mangle]
pub extern "C" fn fo_mathlib() {
    let f = pick("f", &["Math.acos", "Math.asin", "Math.atan", "Math.cos", "Math.sin", "Math.tan", "Math.log", "Math.log10", "Math.log1p", "Math.log2"]);
    let x = [f64::NAN, 0.0, -0.0, 1.0, -1.0, 2.0, -2.0, f64::INFINITY, f64::NEG_INFINITY][choose("x", 9) as usize];
    note("f", f.as_bytes());
    let nan = f64::NAN;
    let big = x.abs() > 1.0;
    let want = match f {
        _ if x != x => nan,
        "Math.acos" => if big { nan } else if x == 1.0 { 0.0 } else { return },
        "Math.asin" => if big { nan } else if x == 0.0 { x } else { return },
        "Math.atan" => if x == 0.0 { x } else { return },
        "Math.cos" => if x.is_infinite() { nan } else if x == 0.0 { 1.0 } else { return },
        "Math.sin" | "Math.tan" => if x.is_infinite() { nan } else if x == 0.0 { x } else { return },
        "Math.log1p" => if x < -1.0 { nan } else if x == -1.0 { f64::NEG_INFINITY } else if x == 0.0 || x.is_infinite() { x } else { return },
        _ => if x < 0.0 { nan } else if x == 0.0 { f64::NEG_INFINITY } else if x == 1.0 { 0.0 } else if x.is_infinite() { x } else { return },
    };
    if let Some(g) = call(f, &[Const::Num(JN(x))]) { cover("folded"); check(same_num(g, want), "a folded Math call gives a different number") }
}
/// folded builtin values and Number(string)
#[no_mangle]
pub extern "C" fn fo_val() {
    let (p, w) = [("Math.E", 2.718281828459045), ("Math.PI", 3.141592653589793), ("NaN", f64::NAN), ("Number.EPSILON", 2.220446049250313e-16), ("Number.MAX_SAFE_INTEGER", 9007199254740991.0),
        ("Number.MIN_SAFE_INTEGER", -9007199254740991.0), ("Number.NaN", f64::NAN), ("Number.NEGATIVE_INFINITY", f64::NEG_INFINITY), ("Number.POSITIVE_INFINITY", f64::INFINITY),
        ("Infinity", f64::INFINITY), ("Number.MAX_VALUE", f64::MAX), ("Number.MIN_VALUE", 5e-324), ("Math.SQRT2", 1.4142135623730951), ("Math.LN2", 0.6931471805599453)][choose("p", 14) as usize];
    note("p", p.as_bytes());
    match maybe_eval_const_builtin_val(p) {
        Some(Const::Num(n)) => { cover("folded"); check(same_num(n.0, w), "a builtin constant has a different value") }
        Some(_) => fail("a builtin constant is no number"),
        None => {}
    }
    let s = STRS[choose("s", STRS.len() as u64) as usize];
    if let Some(g) = call("Number", &[Const::Str(s.to_string())]) { check(same_num(g, str_num(s)), "Number(string) is folded to a different number") }
    if call("Math.floor", &[]).is_some() | call("Math.abs", &[Const::Num(JN(1.0)), Const::Num(JN(1.0))]).is_some() { cover("odd arity") }
}

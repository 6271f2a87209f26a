//! Literal decoding against a reference written from the ECMAScript grammar.
use crate::ptot::{cat, warm};
use parse_js::ast::expr::Expr;
use parse_js::ast::node::{literal_string_code_units, template_string_parts, Node};
use parse_js::ast::stmt::Stmt;
use parse_js::*;
use symrt::*;

/// the right-hand side of `x=<src>;`
fn rhs(src: &str, f: impl FnOnce(Option<&Node<Expr>>)) {
    let all = cat("x=", src, ";");
    note("src", all.as_bytes());
    match parse_with_options(&all, ParseOptions { dialect: Dialect::Ecma, source_type: SourceType::Script }) {
        Err(_) => f(None),
        Ok(t) => {
            check(t.stx.body.len() == 1, "a literal parsed as several statements");
            match &*t.stx.body[0].stx {
                Stmt::Expr(e) => match &*e.stx.expr.stx {
                    Expr::Binary(b) => f(Some(&b.stx.right)),
                    _ => fail("not an assignment"),
                },
                _ => fail("not an expression"),
            }
        }
    }
}
enum R {
    Ok(Vec<u16>),
    /// not a legal literal body
    Bad,
    /// the body ends the literal early: another program, not judged here
    Out,
}
fn hexv(c: char) -> Option<u32> {
    c.to_digit(16)
}
/// StringValue of a non-strict string literal body / TV of a template body (ES2024 12.9.4, 12.9.6)
fn decode(body: &[char], quote: char, template: bool) -> R {
    let mut o: Vec<u16> = vec![];
    let mut push = |o: &mut Vec<u16>, c: u32| {
        if c > 0xffff {
            let v = c - 0x10000;
            o.push(0xd800 + (v >> 10) as u16);
            o.push(0xdc00 + (v & 0x3ff) as u16);
        } else {
            o.push(c as u16);
        }
    };
    let at = |i: usize| body.get(i).copied();
    let mut i = 0;
    let mut bad = false;
    while i < body.len() {
        let c = body[i];
        i += 1;
        if c == quote {
            return R::Out;
        }
        if template && c == '$' && at(i) == Some('{') {
            return R::Out;
        }
        if c == '\n' || c == '\r' {
            if !template {
                return R::Bad;
            }
            if c == '\r' && at(i) == Some('\n') {
                i += 1;
            }
            push(&mut o, 10);
            continue;
        }
        if c != '\\' {
            push(&mut o, c as u32);
            continue;
        }
        let e = match at(i) {
            Some(e) => e,
            None => return R::Out,
        };
        i += 1;
        match e {
            'b' => push(&mut o, 8),
            't' => push(&mut o, 9),
            'n' => push(&mut o, 10),
            'v' => push(&mut o, 11),
            'f' => push(&mut o, 12),
            'r' => push(&mut o, 13),
            '\r' => {
                if at(i) == Some('\n') {
                    i += 1
                }
            }
            '\n' | '\u{2028}' | '\u{2029}' => {}
            '0'..='7' => {
                let d = |c: Option<char>| match c {
                    Some(c @ '0'..='7') => Some(c as u32 - 48),
                    _ => None,
                };
                if template {
                    let dig = matches!(at(i), Some('0'..='9'));
                    if e == '0' && !dig {
                        push(&mut o, 0);
                    } else {
                        bad = true;
                    }
                    continue;
                }
                let mut v = e as u32 - 48;
                let max = if v <= 3 { 2 } else { 1 };
                for _ in 0..max {
                    match d(at(i)) {
                        Some(x) => {
                            v = v * 8 + x;
                            i += 1
                        }
                        None => break,
                    }
                }
                push(&mut o, v);
            }
            '8' | '9' if template => bad = true,
            'x' => match (at(i).and_then(hexv), at(i + 1).and_then(hexv)) {
                (Some(a), Some(b)) => {
                    push(&mut o, a * 16 + b);
                    i += 2
                }
                _ => bad = true,
            },
            'u' => {
                if at(i) == Some('{') {
                    let mut j = i + 1;
                    let mut v: u64 = 0;
                    let mut n = 0;
                    while let Some(x) = at(j).and_then(hexv) {
                        v = (v * 16 + x as u64).min(1 << 40);
                        n += 1;
                        j += 1;
                    }
                    if n == 0 || at(j) != Some('}') || v > 0x10ffff {
                        bad = true;
                    } else {
                        push(&mut o, v as u32);
                        i = j + 1;
                    }
                } else {
                    let mut v = 0;
                    let mut ok = true;
                    for k in 0..4 {
                        match at(i + k).and_then(hexv) {
                            Some(x) => v = v * 16 + x,
                            None => ok = false,
                        }
                    }
                    if ok {
                        push(&mut o, v);
                        i += 4;
                    } else {
                        bad = true;
                    }
                }
            }
            c => push(&mut o, c as u32),
        }
    }
    if bad {
        R::Bad
    } else {
        R::Ok(o)
    }
}
const PRE: &[&str] = &["", "\\", "\\x", "\\x4", "\\u", "\\u00", "\\u{", "\\u{1F60", "\\u{11000", "\\u{10FFF", "\\u{0000000", "\\u{000010FF", "\\u{00000000000011000", "\\uD83D\\u", "\\uD83D\\uDE0", "\\uDE00", "\\0", "\\3", "\\4", "\\40", "\\37", "é", "😀\\", "\\\u{2028}", "\\\r", "$", "\u{2029}"];
const POST: &[&str] = &["", "1", "}", "41", "\u{e9}", "\n"];
fn body(n: usize, pres: &[&str], posts: &[&str]) -> String {
    let pre = pick("pre", pres);
    let post = pick("post", posts);
    cat(pre, &ascii("b", n), post)
}
fn string(n: usize) {
    warm();
    let q = if any_bool("dq") { '"' } else { '\'' };
    let b = body(n, PRE, POST);
    let cs: Vec<char> = b.chars().collect();
    let r = decode(&cs, q, false);
    let r = match r {
        R::Out => {
            assume(false);
            return;
        }
        r => r,
    };
    let qs = if q == '"' { "\"" } else { "'" };
    rhs(&cat(qs, &b, qs), |e| match (e, r) {
        (None, R::Bad) => cover("rejected"),
        (None, _) => fail("a legal string literal is rejected"),
        (Some(e), R::Ok(want)) => match &*e.stx {
            Expr::LitStr(s) => {
                cover("string");
                let got = literal_string_code_units(&s.assoc).map(|x| x.to_vec());
                let lossy = String::from_utf16_lossy(&want);
                check(s.stx.value == lossy, "the decoded string value is wrong");
                if let Some(g) = got {
                    check(g == want, "the decoded UTF-16 code units are wrong");
                }
            }
            _ => fail("a string literal is not a string literal node"),
        },
        (Some(_), _) => fail("an illegal string literal is accepted"),
    });
}
#[no_mangle]
pub extern "C" fn lit_str1() {
    string(1)
}
#[no_mangle]
pub extern "C" fn lit_str2() {
    string(2)
}
/// the exported decoder works on any text, also text that the lexer would refuse
#[no_mangle]
pub extern "C" fn lit_inner() {
    use parse_js::parse::expr::lit::normalise_literal_string_or_template_inner as f;
    let pre = pick("pre", PRE);
    let u = pick("u", &["", "é", "\u{2028}", "😀"]);
    let x = ascii("b", 2);
    let b = cat(pre, &x, u);
    note("raw", b.as_bytes());
    let cs: Vec<char> = b.chars().collect();
    let r = decode(&cs, '\u{1}', true);
    let s = decode(&cs, '\u{1}', false);
    match (f(&b), r, s) {
        (Some(v), _, R::Ok(t)) => {
            cover("inner");
            check(v == String::from_utf16_lossy(&t) || v == v.replace("\r\n", "\n"), "the decoded text is wrong")
        }
        (None, R::Ok(_), R::Ok(_)) => fail("legal literal text is refused"),
        _ => {}
    }
}
const TPRE: &[&str] = &["", "\\", "\\x4", "\\u", "\\u{1F60", "\\uD83D\\u", "\\0", "\\4", "é", "\\\r", "\r", "$", "\u{2028}"];
/// template text: cooked and raw values of untagged and tagged templates
#[no_mangle]
pub extern "C" fn lit_tpl() {
    warm();
    let tagged = any_bool("tagged");
    let second = any_bool("second");
    let b = body(2, TPRE, &["", "1", "\n"]);
    let cs: Vec<char> = b.chars().collect();
    let r = match decode(&cs, '`', true) {
        R::Out => {
            assume(false);
            return;
        }
        r => r,
    };
    // TRV: line terminator sequences are normalised
    let raw: Vec<u16> = b.replace("\r\n", "\n").replace('\r', "\n").encode_utf16().collect();
    let src = cat(if tagged { "f`" } else { "`" }, &if second { cat("p${y}", &b, "") } else { b.clone() }, "`");
    rhs(&src, |e| match (e, r) {
        (None, R::Bad) => {
            check(!tagged, "a tagged template with an invalid escape is rejected");
            cover("rejected")
        }
        (None, _) => fail("a legal template is rejected"),
        (Some(e), r) => {
            let (parts, n) = match &*e.stx {
                Expr::TaggedTemplate(t) if tagged => (template_string_parts(&t.assoc), t.stx.parts.len()),
                Expr::LitTemplate(t) if !tagged => (template_string_parts(&t.assoc), t.stx.parts.len()),
                _ => fail("a template is not a template node"),
            };
            check(n == if second { 3 } else { 1 }, "wrong number of template parts");
            let p = match parts {
                Some(p) => p,
                None => fail("template without decoded parts"),
            };
            let i = second as usize;
            match r {
                R::Ok(want) => {
                    cover("template");
                    check(p.cooked[i].as_deref() == Some(&want[..]), "the cooked value of a template is wrong");
                    check(p.raw[i][..] == raw[..], "the raw value of a template is wrong");
                }
                _ => {
                    if tagged {
                        cover("uncooked");
                        check(p.cooked[i].is_none(), "a template part with an invalid escape has a cooked value");
                        check(p.raw[i][..] == raw[..], "the raw value of a template is wrong");
                    }
                }
            }
        }
    });
}
/// NumericLiteral (non-strict): Some(value) or None when the text is not one
fn number(s: &[u8]) -> Option<f64> {
    fn digits(s: &[u8], r: u32) -> Option<String> {
        let mut o = String::new();
        let mut sep = true;
        for (i, b) in s.iter().enumerate() {
            if *b == b'_' {
                if sep || i + 1 == s.len() {
                    return None;
                }
                sep = true;
                continue;
            }
            (*b as char).to_digit(r)?;
            o.push(*b as char);
            sep = false;
        }
        if o.is_empty() {
            None
        } else {
            Some(o)
        }
    }
    let int = |d: &str, r: u32| {
        let mut v: u128 = 0;
        for c in d.bytes() {
            v = v * r as u128 + (c as char).to_digit(r).unwrap() as u128
        }
        v as f64
    };
    if s.len() > 1 && s[0] == b'0' {
        let r = match s[1] {
            b'x' | b'X' => 16,
            b'o' | b'O' => 8,
            b'b' | b'B' => 2,
            _ => 0,
        };
        if r != 0 {
            return digits(&s[2..], r).map(|d| int(&d, r));
        }
        if s[1] == b'_' {
            return None;
        }
        if s[1].is_ascii_digit() {
            let n = s.iter().take_while(|b| b.is_ascii_digit()).count();
            let dec = s[..n].iter().any(|b| *b >= b'8');
            if !dec {
                return if n == s.len() { Some(int(std::str::from_utf8(s).unwrap(), 8)) } else { None };
            }
            if s[..].iter().take_while(|b| !matches!(b, b'.' | b'e' | b'E')).any(|b| *b == b'_') {
                return None;
            }
        }
    }
    // DecimalLiteral
    let (mant, exp) = match s.iter().position(|b| *b == b'e' || *b == b'E') {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let mut t = String::new();
    match mant.iter().position(|b| *b == b'.') {
        Some(i) => {
            let (a, b) = (&mant[..i], &mant[i + 1..]);
            if a.is_empty() && b.is_empty() {
                return None;
            }
            t += &if a.is_empty() { "0".into() } else { digits(a, 10)? };
            t += ".";
            t += &if b.is_empty() { "0".into() } else { digits(b, 10)? };
        }
        None => t += &digits(mant, 10)?,
    }
    if let Some(e) = exp {
        let (sg, d) = match e.first() {
            Some(b'+') => ("", &e[1..]),
            Some(b'-') => ("-", &e[1..]),
            _ => ("", e),
        };
        t += "e";
        t += sg;
        t += &digits(d, 10)?;
    }
    t.parse::<f64>().ok()
}
const NPRE: &[&str] = &["", "0", "0x", "0b", "0o", "1_", "1.", ".", "1e", "08", "1e30", "9007199254740993", "0x20000000000001", "1.7976931348623158e30", "4.9e-32", "0.1"];
fn num(n: usize, set: &[u8]) {
    warm();
    let t = cat(pick("pre", NPRE), &split_text("b", n, set), "");
    let b = t.as_bytes();
    // one numeric token only: signs belong to an exponent, at most one dot
    for i in 0..b.len() {
        if b[i] == b'+' || b[i] == b'-' {
            assume(i > 0 && (b[i - 1] == b'e' || b[i - 1] == b'E') && !t.starts_with("0x"));
        }
    }
    assume(b[0] == b'.' || b[0].is_ascii_digit());
    let want = number(b);
    rhs(&t, |e| match (e, want) {
        (None, None) => cover("rejected"),
        (None, Some(_)) => fail("a legal numeric literal is rejected"),
        (Some(e), w) => match &*e.stx {
            Expr::LitNum(v) => match w {
                Some(w) => {
                    cover("number");
                    check(v.stx.value.0.to_bits() == w.to_bits(), "a numeric literal has the wrong value")
                }
                None => fail("an illegal numeric literal is accepted"),
            },
            // `1.e`, `08.a` and the like: a property access, not a literal
            _ => check(w.is_none(), "a numeric literal is not a number node"),
        },
    });
}
#[no_mangle]
pub extern "C" fn lit_num() {
    num(3, b"0189_.eExXbBoOafn+-")
}
/// long literals: rounding, word sizes, overflow and underflow
#[no_mangle]
pub extern "C" fn lit_num3() {
    warm();
    let radix = pick("radix", &["0x", "0b", "0o", "0", ""]);
    let first = pick("first", &["1", "7", "8", "f", "20", "1f", "1_0"]);
    let fill = pick("fill", &["0", "1", "7", "9", "f"]);
    let n = [0usize, 5, 6, 7, 8, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 30, 31, 32, 33, 51, 52, 53, 54, 62, 63, 64, 65][choose("len", 29) as usize];
    let mut t = cat(radix, first, "");
    for _ in 0..n {
        t.push_str(fill);
    }
    t.push_str(pick("last", &["", "0", "1", "8", "9_7", "fff", "07ff", "400", "801", ".5", "e5", "e-9", "e300", "e-330", ".0000000000000000000000000000000000000001"]));
    let d = t.trim_start_matches(radix).len();
    // the reference computes integers below 2^128 only
    assume(match radix { "0x" => d <= 31, "0b" => d <= 126, "0o" | "0" => d <= 42, _ => true });
    let want = number(t.as_bytes());
    rhs(&t, |e| match (e, want) {
        (None, None) => cover("rejected"),
        (None, Some(_)) => fail("a legal numeric literal is rejected"),
        (Some(e), w) => match &*e.stx {
            Expr::LitNum(v) => match w {
                Some(w) => {
                    cover("number");
                    check(v.stx.value.0.to_bits() == w.to_bits(), "a numeric literal has the wrong value")
                }
                None => fail("an illegal numeric literal is accepted"),
            },
            _ => check(w.is_none(), "a numeric literal is not a number node"),
        },
    });
}
#[no_mangle]
pub extern "C" fn lit_num2() {
    num(4, b"017_.e-8")
}
#[no_mangle]
pub extern "C" fn lit_big() {
    warm();
    let t = cat(pick("pre", &["", "0x", "0b", "0O", "1", "1_", "99999999999999999999", "0xfFfFfFfFfFfFfFfFf"]), &split_text("b", 2, b"01_89aFe."), "n");
    let b = &t.as_bytes()[..t.len() - 1];
    assume(b[0].is_ascii_digit());
    let lead0 = b.len() > 1 && b[0] == b'0' && (b[1].is_ascii_digit() || b[1] == b'_');
    let hex = t.starts_with("0x");
    let int = !lead0 && (hex || !t.contains(['.', 'e']));
    // the value is cross-checked with an independent big-number routine: decimal digit vector
    let want = if int && number(b).is_some() {
        let (r, d) = if hex { (16, &b[2..]) } else if t.starts_with("0b") { (2, &b[2..]) } else if t.starts_with("0O") { (8, &b[2..]) } else { (10, b) };
        let mut v: Vec<u32> = vec![0];
        for c in d {
            if *c == b'_' {
                continue;
            }
            let mut carry = (*c as char).to_digit(r).unwrap();
            for x in v.iter_mut() {
                let y = *x * r + carry;
                *x = y % 10;
                carry = y / 10;
            }
            while carry > 0 {
                v.push(carry % 10);
                carry /= 10;
            }
        }
        Some(v.iter().rev().map(|d| (b'0' + *d as u8) as char).collect::<String>())
    } else {
        None
    };
    rhs(&t, |e| match (e, want) {
        (None, None) => cover("rejected"),
        (None, Some(_)) => fail("a legal BigInt literal is rejected"),
        (Some(e), w) => match &*e.stx {
            Expr::LitBigInt(v) => match w {
                Some(w) => {
                    cover("bigint");
                    check(v.stx.value == w, "a BigInt literal has the wrong value")
                }
                None => fail("an illegal BigInt literal is accepted"),
            },
            _ => check(w.is_none(), "a BigInt literal is not a BigInt node"),
        },
    });
}
#[no_mangle]
pub extern "C" fn lit_regex() {
    warm();
    let flags = text_in("f", 3, b"dgimsuvyaG1_\\");
    let n = below("n", 4) as usize;
    let flags = &flags[..concrete(n as u64) as usize];
    let mut ok = true;
    let mut seen = 0u32;
    for c in flags.bytes() {
        let i = match c {
            b'd' => 0,
            b'g' => 1,
            b'i' => 2,
            b'm' => 3,
            b's' => 4,
            b'u' => 5,
            b'v' => 6,
            b'y' => 7,
            _ => {
                ok = false;
                31
            }
        };
        if seen >> i & 1 == 1 {
            ok = false;
        }
        seen |= 1 << i;
    }
    if seen >> 5 & 1 == 1 && seen >> 6 & 1 == 1 {
        ok = false;
    }
    let t = cat("/a[/]b\\//", flags, "");
    rhs(&t, |e| match e {
        None => {
            check(!ok, "legal regular expression flags are rejected");
            cover("rejected")
        }
        Some(e) => match &*e.stx {
            Expr::LitRegex(r) => {
                check(ok, "illegal regular expression flags are accepted");
                cover("regex");
                check(r.stx.value == t, "a regular expression literal has the wrong text")
            }
            _ => check(!ok, "a regular expression literal is not a regular expression node"),
        },
    });
}

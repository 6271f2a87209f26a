//! Minifying a program preserves what it does: both programs are run by the
//! reference interpreter against the same symbolic host.
use jsref::interp::*;
use minify_js::*;
use parse_js::ast::{node::Node, stx::TopLevel};
use parse_js::*;
use std::cell::RefCell;
use std::rc::Rc;
use symrt::*;

/// the answers of the host, in call order; chosen when first asked for
pub struct Host {
    pub vals: RefCell<Vec<Val>>,
}
impl Host {
    pub fn new() -> Rc<Host> {
        Rc::new(Host { vals: RefCell::new(vec![]) })
    }
    fn ask(&self, i: usize) -> Val {
        let mut v = self.vals.borrow_mut();
        while v.len() <= i {
            let n = v.len();
            let x = if n >= 3 {
                Val::Undef
            } else {
                match if n == 2 { 3 * choose("k2", 2) } else { choose(&format!("k{}", n), 4) } {
                    0 => Val::Num(f64::from_bits(any_u64(&format!("v{}", n)))),
                    1 => Val::Undef,
                    2 => Val::Null,
                    _ => Val::Str(s("s")),
                }
            };
            if let Val::Num(x) = &x {
                // a NaN has one bit pattern in JavaScript
                assume(!x.is_nan() || x.to_bits() == f64::NAN.to_bits());
            }
            v.push(x);
        }
        v[i].clone()
    }
}
/// The text of a host number, and its remainder, are only followed for a few values.
fn few(x: f64) -> f64 {
    if !is_symbolic(x.to_bits()) {
        return x;
    }
    for k in [0.0, -0.0, 1.0, 2.5, f64::NAN] {
        if x.to_bits() == k.to_bits() {
            return k;
        }
    }
    assume(false);
    x
}
fn num_text(x: f64) -> String {
    num_to_s(few(x))
}
fn num_rem(x: f64, y: f64) -> f64 {
    js_rem(few(x), few(y))
}
pub struct Run {
    pub text: String,
    pub nums: Vec<f64>,
}
pub fn run(top: &Node<TopLevel>, module: bool, host: &Rc<Host>, globals: &[&str]) -> Option<Run> {
    let n = RefCell::new(0usize);
    let h = host.clone();
    let mut i = Interp::new(Box::new(move |name: &str| {
        if !name.starts_with('h') || name.len() > 2 || name.len() < 2 {
            return None;
        }
        let k = *n.borrow();
        *n.borrow_mut() += 1;
        Some(h.ask(k))
    }));
    i.module = module;
    i.symnums = true;
    i.num_text = num_text;
    i.num_rem = num_rem;
    i.limit = 3000;
    let mut text = i.run(top).ok()?;
    for g in globals {
        text.push_str("\nglobal ");
        text.push_str(g);
        text.push(' ');
        let r = i.global_value(g);
        text.push_str(&r);
    }
    let nums = i.nums.borrow().clone();
    Some(Run { text, nums })
}
pub fn parse(src: &str, module: bool) -> Option<Node<TopLevel>> {
    parse_with_options(src, ParseOptions { dialect: Dialect::Js, source_type: if module { SourceType::Module } else { SourceType::Script } }).ok()
}
pub fn same(src: &str, mode: TopLevelMode, globals: &[&str]) {
    note("src", src.as_bytes());
    let module = matches!(mode, TopLevelMode::Module);
    // the JavaScript dialect tolerates errors; what an erroneous program does is nobody's business
    let strict = ParseOptions { dialect: Dialect::Ecma, source_type: if module { SourceType::Module } else { SourceType::Script } };
    if parse_with_options(src, strict).is_err() {
        cover("invalid");
        return;
    }
    let Some(top) = parse(src, module) else { fail("the strict dialect accepts what the JavaScript dialect does not") };
    let mut out = vec![];
    if minify_with_options(MinifyOptions::new(mode).with_dialect(Dialect::Js), src, &mut out).is_err() {
        cover("refused");
        return;
    }
    let out = String::from_utf8(out).unwrap();
    note("out", out.as_bytes());
    if out.contains("=>1,") {
        // the parser lets the arrow function swallow the comma (C05, C04)
        cover("arrow function before a comma");
        return;
    }
    let Some(top2) = parse(&out, module) else { fail("the minified program does not parse") };
    let host = Host::new();
    let Some(a) = run(&top, module, &host, globals) else {
        cover("unsupported");
        return;
    };
    let Some(b) = run(&top2, module, &host, globals) else { fail("the minified program loops or does something unsupported") };
    note("before", a.text.as_bytes());
    note("after", b.text.as_bytes());
    check(a.text == b.text, "the minified program behaves differently");
    check(a.nums.len() == b.nums.len(), "the minified program behaves differently");
    for (x, y) in a.nums.iter().zip(b.nums.iter()) {
        check(x.to_bits() == y.to_bits() || (x != x && y != y), "the minified program computes another number");
    }
    cover("same");
}
pub fn warm() {
    let src = "let a=1+`b${h(0)}`;function f(x){return x}log(f(a),/r/.x,1e21,'a'+1)";
    let mut out = vec![];
    let _ = minify_with_options(MinifyOptions::new(TopLevelMode::Module).with_dialect(Dialect::Js), src, &mut out);
    let mut out = vec![];
    let _ = minify_with_options(MinifyOptions::new(TopLevelMode::Global).with_dialect(Dialect::Js), src, &mut out);
    let t = parse(src, true).unwrap();
    let mut i = Interp::new(Box::new(|_| None));
    let _ = i.run(&t);
}
fn fill(t: &str, holes: &[(char, &[&str])]) -> String {
    let mut o = String::with_capacity(t.len() * 3);
    for c in t.chars() {
        match holes.iter().find(|h| h.0 == c) {
            Some(h) => o.push_str(h.1[0]),
            None => o.push(c),
        }
    }
    o
}
/// `#` first statement hole, `@` second, `%` a condition
const CF: &[&str] = &[
    "# @", "if(%)# else @", "if(%){#}else{@}", "if(%)#;@", "if(%){#}@", "if(0)#;@", "if(1){#}else @", "if(!1)#;else{@}", "if(''){#}@", "if(null){#}else{@}", "{#}@", "{{#}}@", "for(;%;){#;@;break}", "for(let i=0;i<2;i++){#;@}", "for(var i of[1,2])#;@", "for(let i in{y:1}){#}@", "while(%){#;@;break}", "do{#;@}while(0)", "do #;while(0);@",
    "switch(%){case 1:#;case undefined:@;default:h(9)}", "switch(1){case 1:#;break;default:@}", "switch(%){default:#;case'x':@}", "try{#}catch(e){@}", "try{#}finally{@}", "try{throw 1}catch(x){#;@}", "try{h(8);#}catch{@}finally{h(9)}", "l:{#;@}", "l:for(;;){#;for(;;){@;break l}}", "l:if(%){#;break l}else @", "with({x:1}){#;@}", "(()=>{#;@})()", "(function(){#;@})()", "if(%)return;else{#}@", "if(%){#;return 1}else{@}h(7)", "if(%)if(h(6)){#}else @", "if(%){if(h(6))#}else @", "var y=%,x;#;@", "let y=1,z;z=%;#;@", "'use strict';#;@", "throw(%);#;@", "return %;#;@", "return h(6)\n#;@", "{let x=%;#}@", "function x(){return %}#;@", "class y{static{#;@}}", "class y{m(){#;@}}new y().m()", "({m(){#;@}}).m()", "if(%)#\nelse @",
];
const CFA: &[&str] = &[
    "h(2)", "return h(2)", "throw h(2)", "break", "continue", "break l", "var x=h(2)", "let x=1", "const x=h(2),y=x", "function x(){return 5}", "{}", ";", "x=6", "log(x)", "class x{}", "x", "log(typeof x)", "var y", "1", "h(2)===null||h(2)===undefined", "return", "return undefined", "if(h(2))return", "{let x=3;log(x)}", "delete x", "eval('x')", "var{x}={x:h(2)}", "var q=()=>x", "x?h(3):h(4)", "var y=h(3),z,w=4",
];
const CFB: &[&str] = &["h(3)", "return h(3)", "function x(){return 5}"];
/// control flow: every template with every pair of statements in it
fn cf(second: &[&str], full: bool) {
    warm();
    let t = pick("cf", CF);
    let a = pick("s1", CFA);
    let b = pick("s2", second);
    // wrapper, mode and condition
    let (w, m, c) = if full {
        (choose("wrap", 3), choose("mode", 2), pick("cond", &["h(1)", "p"]))
    } else {
        [(0, 1, "h(1)"), (1, 0, "h(1)"), (2, 0, "p")][choose("wrap", 3) as usize]
    };
    let body = fill(t, &[('#', &[a]), ('@', &[b]), ('%', &[c])]);
    let src = match w {
        0 => format!("function f(p){{{}\nlog(typeof x,typeof y)}}log(f(1))", body),
        1 => format!("\"use strict\";let x=8;const f=p=>{{{}}};log(f());log(x)", body),
        _ => format!("var x;function f(p,x){{{};return x}}log(f(h(0),h(0)));log(x)", body),
    };
    let mode = if m == 0 { TopLevelMode::Global } else { TopLevelMode::Module };
    same(&src, mode, if matches!(mode, TopLevelMode::Global) { &["x", "y", "f"] } else { &[] });
}
#[no_mangle]
pub extern "C" fn m_cf() {
    cf(CFB, false)
}
#[no_mangle]
pub extern "C" fn m_cf2() {
    cf(CFA, true)
}
const EX: &[&str] = &[
    "%+$", "%-$", "%*$", "%/$", "%%$", "%<<$", "%>>$", "%>>>$", "%&$", "%|$", "%^$", "%&&$", "%||$", "%??$", "%<$", "%<=$", "%>$", "%>=$", "%==$", "%!=$", "%===$", "%!==$", "%,$", "%?$:h(3)", "%?h(3):$", "%?$:$", "h(3)?%:$", "!%", "!!%", "~%", "-%", "+%", "typeof %", "void %", "[%,$]", "[%,$].length", "[...[%],$]", "({a:%,b:$})", "({a:%,a:$}).a", "({['a']:%,b:$})", "({[%]:$})", "({a:%}).a", "({a:%})['a']", "({'a-b':%})['a-b']", "`${%}x${$}`", "`${%}`", "(x=>x)(%)", "(x=%)=>x", "((x=%)=>x)()", "(()=>%)()", "(function(){return %})()", "(y=%,y)", "(y=1,y+=%)", "y??=%", "y||=%", "y&&=%", "(y=%)+$", "y++", "[y]=[%]", "({y}={y:%}),y", "({a:y}={a:%}),y", "'abc'[%]", "'abc'.length", "(%)?.a", "(%)?.[$]", "%.length", "%in{a:1}", "Math.max(%,$)", "String(%)", "Number(%)", "Boolean(%)", "!(%&&$)", "!(%||$)", "!(%===$)", "!(%<$)", "(%===null||%===undefined)", "(y===null||y===undefined)", "(y=%,y===undefined||y===null)", "(y=%,y!==null&&y!==undefined)", "undefined", "(undefined=>undefined)(%)", "NaN", "Infinity", "(%===undefined)", "typeof zz", "typeof %==='undefined'", "% ?%:$", "(%||$)&&h(3)", "(%&&$)||h(3)", "class{static a=%}.a", "(class{a=%}).name", "({a(){return %}}).a()", "({get a(){return %}}).a", "({'a':%}).a", "({1:%})[1]", "({'1':%,'01':$})['01']", "({__proto__:null,a:%}).a", "({'__proto__':%}).a", "({['__proto__']:%}).a", "delete({a:%}).a", "%instanceof Error",
];
const AT: &[&str] = &["h(1)", "0", "1", "-1", "-0", "2.5", "NaN", "1e21", "4294967296", "''", "'a'", "'1'", "' 0x10 '", "true", "false", "null", "undefined", "[]", "[1]", "{}", "()=>1", "1n", "0n", "/a/", "`b`", "y", "'\\n'", "\"'\"", "`\\``", "'${'", "-2147483649", "0.1", "1e-7", "'length'", "'\\u2028'", "void 0", "!0"];
const AT1: &[&str] = &["h(1)", "0", "1", "-0", "2.5", "NaN", "''", "'1'", "true", "null", "undefined", "[1]", "{}", "()=>1", "1n", "/a/", "`b`", "y", "'length'", "-2147483649"];
const AT2: &[&str] = &["h(2)", "0", "'a'", "undefined", "{}", "y"];
#[no_mangle]
pub extern "C" fn m_ex() {
    ex(AT1, AT2, 2)
}
#[no_mangle]
pub extern "C" fn m_ex2() {
    ex(AT, AT, 3)
}
/// expressions: every template with every pair of atoms
fn ex(first: &[&str], second: &[&str], uses: u64) {
    warm();
    let t = pick("t", EX);
    let a = if t.contains('%') { pick("a", first) } else { "" };
    let b = if t.contains('$') { pick("b", second) } else { "" };
    let pa = format!("({})", a);
    let pb = format!("({})", b);
    let e = if t == "%%$" { format!("{}%{}", pa, pb) } else { fill(t, &[('%', &[&pa]), ('$', &[&pb])]) };
    let (src, mode): (String, _) = match choose("use", uses) {
        0 => (format!("var y;log({})", e), TopLevelMode::Global),
        2 => (format!("function f(y){{if({})log(1);else log(2)}}f(h(0))", e), TopLevelMode::Module),
        _ => (format!("let y=h(0);({});const z=({});log(y)", e, e), TopLevelMode::Module),
    };
    same(&src, mode, &[]);
}
/// scoping templates: `#` and `@` are holes for further code
const SC: &[&str] = &[
    "var x=1;#;@", "let x=2;#;@", "{let x=3;#}@", "{const x=4,y=()=>x;#;log(y())}@", "function x(){#}x();@", "{function x(){return 6}#}@", "(function x(y){#})(7);@", "(function x(){x=8;#})();@", "(x=>{#})(9);@", "((x,y=()=>x)=>{#;log(y())})(10);@", "((y=()=>x,x=11)=>{#;log(y())})();@", "(({x,y:z=x})=>{#;log(z)})({x:12});@", "(([x,...y])=>{#;log(y)})([13,14]);@",
    "class x{static m(){#}}x.m();@", "(class x{static m(){#}}).m();@", "class y{x=15;static x=16;m(){#;log(this.x)}}new y().m();@", "try{throw 17}catch(x){#}@", "try{throw 17}catch(x){var x=18;#}@", "try{throw[17]}catch([x]){#}@", "for(let x=0;x<2;x++){#}@", "for(let x of[20,21])(()=>{#})();@", "for(var x in{a:1}){#}@", "x:for(;;){#;break x}@", "log({x:1}.x);#;@", "log({x(){#}}.x());@", "({get x(){#;return 22}}).x;@", "with({x:23}){#}@", "var{x,...y}={x:24,z:1};#;log(y);@", "({x:x}={x:25});#;@", "switch(1){case 1:let x=26;#}@", "function f(x,y){var x;#}f(27,28);@", "function f(x){function x(){}#}f(29);@", "function f(x){arguments[0]=30;#}f(31);@", "function a(){#}a();@", "var a=32,b=33;#;log(a,b);@", "(a=>{#;log(a)})(34);@", "typeof x;#;@", "y=35;#;@", "let f=function(){#};f();@", "{class x{}#}@", "(()=>{var x=36;eval('x');#})();@", "new(class{constructor(x){this.y=x;#}})(37);@", "((...x)=>{#})(38);@", "let f=({x}={x:39},{y}={y:40})=>{#};f();@", "{let a=41;{let b=42;#;log(a,b)}}@", "var x=x||43;#;@", "function g(){return typeof x;var x}log(g());#;@", "new Function('x','return x')(1);#;@",
];
const SA: &[&str] = &["log(x)", "log(typeof x)", "x=h(1)", "log(y)", "var x=44", "let x=45;log(x)", "log(a)", "a=46", "(()=>log(x))()", "log(typeof a,typeof b,typeof c)", "function x(){return 47}log(x())", "({x,y:a}={x:48,y:49});log(x)", "log({x,a})", "x++", "eval('log(x)')", "log(this===undefined)", "log(arguments.length)", "{let a=x;log(a)}", "let b=50;log(()=>b,b,x)", "for(let x of[51])log(x)"];
const SC2: &[&str] = &["{#}@", "{let x=4;#}@", "((x,y=()=>x)=>{#;log(y())})(10);@", "{function x(){return 6}#}@", "try{throw 17}catch(x){#}@", "(function x(){x=8;#})();@", "class x{static m(){#}}x.m();@"];
const SA2: &[&str] = &["log(x)", "x=h(1)", "var x=44", "let x=45;log(x)", "function x(){return 47}log(x())", "log({x,a})", "eval('log(x)')"];
#[no_mangle]
pub extern "C" fn m_scope() {
    scope(SC2, SA2)
}
#[no_mangle]
pub extern "C" fn m_scope2() {
    scope(SC, SA)
}
/// scopes: every template within every template
fn scope(inner: &[&str], atoms: &[&str]) {
    warm();
    let t1 = pick("t1", SC);
    let t2 = pick("t2", inner);
    let a = pick("a", atoms);
    let d = choose("where", 2);
    let inner = if d == 0 { fill(t2, &[('#', &[a]), ('@', &["log(typeof x)"])]) } else { fill(t2, &[('#', &["log(typeof x)"]), ('@', &[a])]) };
    let body = fill(t1, &[('#', &[&inner]), ('@', &["log(typeof x,typeof y)"])]);
    let (src, mode, g): (String, _, &[&str]) = match choose("wrap", 3) {
        0 => (body, TopLevelMode::Global, &["x", "y", "a", "b", "f"]),
        1 => (format!("function w(y){{{}}}w(h(0));export{{w}}", body), TopLevelMode::Module, &["x", "y", "a", "b"]),
        _ => (format!("let x=60,y;{{{}}}log(x,y)", body), TopLevelMode::Module, &["x", "a", "b"]),
    };
    same(&src, mode, g);
}
#[no_mangle]
pub extern "C" fn m_one() {
    warm();
    same("var x;function f(p,x){if(p)break l\nelse function x(){return 5};return x}log(f(h(0),h(0)));log(x)", TopLevelMode::Global, &["x", "y", "f"]);
}

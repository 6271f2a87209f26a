//! Grammar templates: program texts assembled by choices the engine explores.
use symrt::*;
/// `%` is an expression hole (filled with a parenthesised expression or an atom), `$` a target hole
pub const ATOM: &[&str] = &["a", "1", "'s'", "/r/g", "/r/", "`t`", "this", "null", "[]", "{}", "function(){}", "class{}", "()=>{}", "async()=>{}", "async", "let", "1n", "1.5", "yield", "of", "new.target", "-1"];
pub const EXPR: &[&str] = &[
    "%+%", "%-%", "%*%", "%/%", "%%%", "%**%", "%<<%", "%>>%", "%>>>%", "%&%", "%|%", "%^%", "%&&%", "%||%", "%??%", "%<%", "%<=%", "%>%", "%>=%", "%==%", "%!=%", "%===%", "%!==%", "% in %", "% instanceof %",
    "%,%", "a=%", "{b:a}=%", "{b:c=%}=d", "{'b c':a.b,...c}=%", "[{a:b}]=%", "[a=%,...b]=c", "{a=%}=b", "a+=%", "a**=%", "a??=%", "a&&=%", "a.b=%", "a[%]=%", "[a]=%", "{a}=%", "%?%:%", "%.b", "%[%]", "%?.b", "%?.[%]", "%?.(%)", "%(%)", "%()", "%?.b.c", "%?.b(%)", "%.b(%)", "new %", "new %(%)", "new %.b(%)", "%`x${%}y`", "`x${%}y`",
    "!%", "~%", "-%", "+%", "typeof %", "void %", "delete %.b", "a++", "++a", "%.b++", "--%.b", "await %", "yield %", "yield*%", "yield", "[%,%]", "[...%]", "[,%,,]", "{b:%}", "{a,'b c':%}", "{[%]:%}", "{...%}", "{b(){%}}", "{get b(){return %}}", "{async*b(){%}}", "{set b(x){%}}", "%`\\x41${%}`",
    "x=>%", "x=>{%}", "async x=>%", "(x=%)=>1", "function(x=%){return %}", "function*g(){%}", "async function(){%}", "class{b=%}", "class{static b=%}", "class{get b(){%}static async c(x){}}", "class{[%](){}}", "class extends % {}", "class C{static{%}}", "import(%)", "f(...%)", "(%)",
];
pub const STMT: &[&str] = &[
    "%", "var a=%", "let a=%", "const a=%,b=%", "if(%)%", "if(%)%;else %", "if(%){if(a)%}else %", "for(%;%;%)%", "for(var a=%;;)%", "for(let a of %)%", "for(a in %)%", "for(var a in %);", "for(%.b of %);", "for({b:a} of %);", "for([a.b=%]of c);", "for(const[a=%]of a);", "while(%)%", "do %;while(%)",
    "throw %", "switch(%){case %:%;default:%}", "l:%", "{%}", "{%;%}", "%;%", "%\n%", "try{%}catch(e){%}finally{%}", "try{%}catch{%}", "with(%)%", "function f(){return %}", "function f(a=%,{b=%}={},...c){}", "class A extends %{b=%}", "class A{static b=%;c(){%}}",
    "class A{#p=%;m(){return #p in %}}", "class A{'b'=%;1=%}", "let{a=%,...b}=%", "var[a=%,,...b]=%", "if(a);else %", "debugger;%", "'use strict';%", "l:for(;;){continue l;%}", "if(a)for(;;)if(b)%;else %", "if(a)do if(b)%;while(1);else %",
    "function f(){'use strict';%}", "()=>{'use x';%}", "if(a)var b=%;else %", "for(let[a]=%;;)break", "for(;;)%", "if(a){}else{%}", "if(a){let b=%}", "{let a=%}", "{function f(){%}}", "async function f(){for await(a of %);}", "function*f(){yield\n%}", "function f(){return\n%}", "a\n++b;%",
];
/// substitute holes: each `%` takes the next text of `fill` (the last repeats)
pub fn subst(t: &str, fill: &[String]) -> String {
    let mut o = String::new();
    let mut i = 0;
    let bs = t.as_bytes();
    let mut k = 0;
    while k < bs.len() {
        if bs[k] == b'%' && !(t == "%%%" && k == 1) {
            o.push_str(&fill[i.min(fill.len() - 1)]);
            i += 1;
        } else {
            o.push(bs[k] as char);
        }
        k += 1;
    }
    o
}
pub fn holes(t: &str) -> usize {
    if t == "%%%" {
        return 2;
    }
    t.bytes().filter(|b| *b == b'%').count()
}
pub fn par(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('(');
    o.push_str(s);
    o.push(')');
    o
}
/// one template with `x` in one chosen hole and plain atoms in the others
pub fn fill_one(name: &str, t: &str, x: &str) -> String {
    let n = holes(t);
    let h = if n > 1 { choose(name, n as u64) as usize } else { 0 };
    let mut f = vec![];
    let at = ["b", "c", "d", "e"];
    for i in 0..n.max(1) {
        f.push(if i == h { par(x) } else { at[i % 4].to_string() });
    }
    subst(t, &f)
}
/// contexts that make `await`/`yield`/`return` legal
pub fn wrap(s: &str, ctx: u64) -> String {
    match ctx {
        0 => s.to_string(),
        1 => format!("async function*g(){{{}}}", s),
        2 => format!("async()=>{{{}}}", s),
        _ => format!("class K{{m(){{{}}}}}", s),
    }
}

/// module items
pub const MODULE: &[&str] = &[
    "import a from'b'", "import*as a from'b'", "import{a}from'b'", "import{a as c,default as d}from'b'", "import{'x y' as c}from'b'", "import a,{b}from'c'", "import a,*as b from'c'", "import'b'", "import a from'b' with{type:'json'}",
    "export{b}", "export{b as c,b as default}", "export{b as 'x y'}", "export*from'b'", "export*as a from'b'", "export*as 'x y' from'b'", "export{a}from'b'", "export{default}from'b'", "export{default as a}from'b'", "export{a as default}from'b'", "export{'x y' as a}from'b'", "export{'x y'}from'b'",
    "export let a=%", "export const[a]=%,{b:c}=%", "export function f(){%}", "export async function*f(){%}", "export class A{a=%}", "export default %", "export default function(){%}", "export default function f(){%}", "export default class{a=%}", "export default class A extends %{}", "export default async function(){%}", "export default async()=>%", "export default{a:%}", "export default[%]", "export default(function(){%})()", "export default(class{}).a", "await(%)", "for await(a of %);", "import.meta.a=%", "a=import(%)", "a=import(%,%)", "%",
];
pub const JSX: &[&str] = &[
    "<a/>", "<a b/>", "<a b=\"c\"/>", "<a b='c'/>", "<a b='\"'/>", "<a b=\"'\"/>", "<a b={%}/>", "<a {...%}/>", "<a.b.c d={%}/>", "<a:b c:d={%}/>", "<a-b c-d={%}/>", "<></>", "<>{%}</>", "<a>{%}</a>", "<a>{...%}</a>", "<a>{}</a>", "<a>x{%}y</a>", "<a> x {%} y </a>", "<a>\nx\n{%}\n</a>", "<a><b>{%}</b>{%}</a>", "<a>{/*c*/}</a>", "<a b=\"&amp;\">&lt;&nbsp;&#65;</a>", "<a b=<c/>/>", "<a>{' '}</a>", "<A b={%}>{%}</A>", "<this.a/>", "<a>'\"`${%}</a>", "f(<a/>,%)", "(<a/>).b", "<a/>+%", "%<<a/>", "[<a/>,%]", "{b:<a/>}", "x=><a b={%}/>", "<a b=\"\n\"/>", "<a b={%}c {...%}/>",
];
pub const TYPE: &[&str] = &[
    "a", "%|b", "%|%", "%&%", "%[]", "readonly %[]", "keyof %", "%['a']", "%[%]", "typeof a.b", "typeof a<%>", "(a:%)=>%", "()=>%", "<T extends %=%>(a?:T,...b:%[])=>%", "new(a:%)=>%", "{}", "{a:%}", "{a?:%;readonly b:%;'c d':%;1:%}", "{[k:string]:%}", "{readonly[k:string]:%}", "{(a:%):%;new(a:%):%;b(c:%):%;get d():%;set d(e:%)}", "{[K in %]:%}", "{-readonly[K in %]-?:%}", "{+readonly[K in % as %]+?:%}", "[]", "[%,%]", "[%?,...%[]]", "[a:%,b?:%,...c:%[]]", "readonly[%]", "% extends %?%:%", "% extends infer U?U:%", "% extends infer U extends %?U:%", "A<%>", "a.B<%,%>", "`x`", "`x${%}y${%}`", "unique symbol", "symbol", "string", "'s'", "\"d'\"", "1", "-1", "1n", "-1n", "true", "null", "undefined", "void", "any", "unknown", "never", "object", "bigint", "this", "import('a')", "import('a').B<%>", "(%)", "(a:%)=>asserts a is %", "(this:%)=>this is %", "(a:%)=>a is %", "(a:%)=>asserts a", "intrinsic", "asserts", "is", "{a<T>(b:T):%}", "{[a.b]:%}", "new<T>()=>%",
];
pub const TSTMT: &[&str] = &[
    "type A=%", "type A<T>=%", "type A<in T>=%", "type A<out T,const U>=%", "declare type A=%", "interface A{}", "interface A<T extends %>extends B<%>,C.D{a:%}", "interface A{a:%;b?(c:%):%;new(a:%):%;(a:%):%;readonly[k:string]:%;get d():%;set d(e:%)}", "declare interface A{a:%}",
    "let a:%=b", "let a!:%", "declare let a:%", "declare var a:%,b:%", "const{a}:%=b", "function f(a:%):%{}", "function f<T extends %>(this:%,a?:%,...b:%):asserts a is %{}", "function f(a:%):a is %{}", "declare function f(a:%):%", "function f(a:%):void;function f(a){}", "async function*f(a:%=b):%{}", "(a:%):%=>a", "async<T>(a:T):Promise<%>=>a", "a as %", "a as const", "a satisfies %", "(a as %).b", "(<%>a).b", "a!.b", "a!", "f<%>(a)", "new A<%>(a)", "a<%>`x`", "f<%>", "a as % as %", "(a as %)=b", "for(const a of b as %);", "x=<T,>(a:T):%=>a",
    "class A<T extends %>extends B<%>implements C<%>,D{}", "class A{private readonly a?:%;protected static b:%=c;public d!:%;declare e:%;override f:%}", "class A{constructor(public a:%,private readonly b?:%,protected c:%=d){}}", "abstract class A{abstract a:%;abstract b(c:%):%;protected abstract get d():%}", "class A{m<T>(this:%,a:%):%{}get b():%{return 1}set b(c:%){}static async*d(e:%):%{}}", "class A{[k:string]:%;static[k:string]:%}", "class A{a(b:%):%;a(b){}}", "class A{accessor a:%=b}", "declare class A{a(b:%):%;constructor(a:%)}",
    "enum A{}", "enum A{a,b=1,'c d'=a,e=-1,f='s',g=1<<2|b}", "const enum A{a}", "declare enum A{a}", "declare const enum A{a=1}", "namespace A{}", "namespace A.B{export let a:%}", "declare namespace A{let a:%;function f(a:%):%}", "module A{}", "declare module'x'{export const a:%;export default a}", "declare module'x'", "declare global{var a:%}", "import a=require('b')", "import a=b.c", "export import a=b.c", "export=a", "export as namespace a", "import type a from'b'", "import type{a}from'b'", "import{type a,b}from'c'", "export type{a}from'b'", "export{type a}", "export type*from'a'", "export type A=%", "export interface A{a:%}", "export default interface A{a:%}", "export abstract class A{}", "export enum A{a}", "export declare const a:%", "export namespace A{}",
    "@d class A{}", "@d(a as %)class A{@e b:%;@f()c(@g d:%){}}", "export@d class A{}", "@d export class A{}", "@(a.b)class A{@c.d e(){}}", "function f(a){type b=%;interface c{}}", "if(a){type b=%}", "try{}catch(e:unknown){}", "let a=(b:%,c?):%=>d", "a=function<T>(b:T):%{}", "a={b<T>(c:%):%{}}", "a={get b():%{return 1}}", "using a:%=b", "a=class<T>implements B<%>{c:%}", "a=(<T>(b:T)=>b)<%>",
];

/// the programs the entries range over
pub fn p_expr2() -> String {
    let t1 = pick("outer", EXPR);
    let t2 = pick("inner", EXPR);
    let x = fill_one("h2", t2, "a");
    let y = fill_one("h1", t1, &x);
    wrap(&y, 1)
}
pub fn p_atom() -> String {
    let t1 = pick("outer", EXPR);
    let x = pick("atom", ATOM);
    let y = fill_one("h1", t1, x);
    let w = choose("wrap", 4);
    wrap(&y, w)
}
pub fn p_stmt() -> String {
    let t1 = pick("stmt", STMT);
    let t2 = pick("inner", EXPR);
    let x = fill_one("h2", t2, "a");
    let y = fill_one("h1", t1, &x);
    wrap(&y, choose("wrap", 2))
}
pub fn p_mod() -> String {
    let t1 = pick("item", MODULE);
    let x = if t1.contains('%') { pick("inner", EXPR) } else { "a" };
    let x = fill_one("h2", &x.replace("yield", "await"), "a");
    let y = if choose("paren", 2) == 0 { subst(t1, &[par(&x)]) } else { subst(t1, &[x]) };
    if t1.starts_with("export{") && !t1.contains("from") { format!("var b;{}", y) } else { y }
}
pub fn p_jsx() -> String {
    let t1 = pick("outer", JSX);
    let x = if t1.contains('%') {
        let t2 = if choose("kind", 2) == 0 { pick("inner", JSX) } else { pick("atom", ATOM) };
        if choose("paren", 2) == 0 { par(&subst(t2, &["a".into()])) } else { subst(t2, &["a".into()]) }
    } else {
        "a".into()
    };
    format!("x={}", subst(t1, &[x]))
}
pub fn p_type() -> String {
    let t1 = pick("outer", TYPE);
    let t2 = if t1.contains('%') { pick("inner", TYPE) } else { "a" };
    let x = subst(t2, &["c".into(), "d".into()]);
    let n = holes(t1);
    let h = if n > 1 { choose("h1", n as u64) as usize } else { 0 };
    let mut f = vec![];
    for i in 0..n.max(1) {
        f.push(if i == h { if choose("paren", 2) == 0 { par(&x) } else { x.clone() } } else { ["b", "c", "d", "e"][i % 4].to_string() });
    }
    format!("let x:{};", subst(t1, &f))
}
pub fn p_ts() -> String {
    let t1 = pick("outer", TSTMT);
    let x = if t1.contains('%') { pick("inner", TYPE) } else { "a" };
    let x = subst(x, &["c".into(), "d".into()]);
    if choose("paren", 2) == 0 { subst(t1, &[par(&x)]) } else { subst(t1, &[x]) }
}

//! Emitting an AST and parsing the text again gives the same AST.
use crate::gen::*;
use crate::ptot::{cat, warm};
use diagnostics::FileId;
use emit_js::*;
use jsref::dump::dump;
use derive_visitor::{DriveMut, VisitorMut};
use parse_js::ast::class_or_object::*;
use parse_js::ast::expr::*;
use parse_js::ast::expr::jsx::JsxElem;
use parse_js::ast::func::FuncBody;
use parse_js::ast::type_expr::{TypeAny, TypeExpr};
use parse_js::ast::node::{literal_string_code_units, template_string_parts, ParenthesizedExpr};
use parse_js::ast::{node::Node, stx::TopLevel};
use parse_js::loc::Loc;
use parse_js::operator::OperatorName;
use parse_js::*;
use symrt::*;
pub fn parse(src: &str, d: Dialect, t: SourceType) -> Option<Node<TopLevel>> {
    parse_with_options(src, ParseOptions { dialect: d, source_type: t }).ok()
}
pub fn kind(d: Dialect) -> hir_js::FileKind {
    match d {
        Dialect::Js | Dialect::Ecma => hir_js::FileKind::Js,
        Dialect::Jsx => hir_js::FileKind::Jsx,
        Dialect::Ts => hir_js::FileKind::Ts,
        Dialect::Tsx => hir_js::FileKind::Tsx,
        Dialect::Dts => hir_js::FileKind::Dts,
    }
}
fn mode(m: u64) -> (EmitOptions, bool) {
    match m {
        0 => (EmitOptions::minified(), false),
        1 => (EmitOptions::canonical(), false),
        2 => (EmitOptions::minified(), true),
        3 => (EmitOptions::canonical(), true),
        4 => (EmitOptions::minified().with_stmt_sep_style(StmtSepStyle::AsiNewlines), false),
        5 => (EmitOptions::minified().with_quote_style(QuoteStyle::Single), false),
        6 => (EmitOptions::canonical().with_quote_style(QuoteStyle::Double), false),
        7 => (EmitOptions::minified().with_stmt_sep_style(StmtSepStyle::AsiNewlines), true),
        8 => (EmitOptions::canonical().with_stmt_sep_style(StmtSepStyle::AsiNewlines), false),
        9 => (EmitOptions::canonical().with_quote_style(QuoteStyle::Single), true),
        _ => (EmitOptions::minified().with_quote_style(QuoteStyle::Double), true),
    }
}
/// What a printer may legitimately change: empty statements, a block around a
/// single statement, `new a` for `new a()`.
pub fn norm(d: &str) -> String {
    let d = d.replace(" :(( $t:\"Empty\"(EmptyStmt)))", "").replace("body:(( $t:\"Empty\"(EmptyStmt)))", "body:(( $t:\"Block\"(BlockStmt body:([))))");
    let b = d.as_bytes();
    const BL: &str = "(( $t:\"Block\"(BlockStmt body:([ :";
    const NW: &str = "operator:New argument:";
    const CALL: &str = "(( $t:\"Call\"(CallExpr optional_chaining:F";
    let mut o = String::with_capacity(d.len());
    let mut i = 0;
    // closing positions at which text is to be appended or skipped
    let mut app: Vec<usize> = vec![];
    let mut skip: Vec<usize> = vec![];
    while i < b.len() {
        if let Some(k) = skip.iter().position(|x| *x == i) {
            skip.swap_remove(k);
            i += 4;
            continue;
        }
        if d[i..].starts_with(BL) {
            let e = close(b, i + BL.len());
            if d[e..].starts_with("))))") && !d[i + BL.len()..].starts_with("(( $t:\"VarDecl\"") && !d[i + BL.len()..].starts_with("(( $t:\"FunctionDecl\"") && !d[i + BL.len()..].starts_with("(( $t:\"ClassDecl\"") {
                skip.push(e);
                i += BL.len();
                continue;
            }
        }
        if d[i..].starts_with(NW) {
            i += NW.len();
            o.push_str(NW);
            if !d[i..].starts_with(CALL) {
                app.push(close(b, i));
                o.push_str(CALL);
                o.push_str(" callee:");
            }
            continue;
        }
        while let Some(k) = app.iter().position(|x| *x == i) {
            app.swap_remove(k);
            o.push_str(" arguments:([))))");
        }
        let c = d[i..].chars().next().unwrap();
        o.push(c);
        i += c.len_utf8();
    }
    o
}
/// end of the parenthesised text starting at `i`
fn close(b: &[u8], mut i: usize) -> usize {
    let mut n = 0i32;
    loop {
        match b.get(i) {
            None => return b.len(),
            Some(b'(') => n += 1,
            Some(b')') => n -= 1,
            _ => {}
        }
        i += 1;
        if n <= 0 {
            return i;
        }
    }
}
type UnaryNode = Node<UnaryExpr>;
type MemberNode = Node<MemberExpr>;
type CompNode = Node<ComputedMemberExpr>;
type CallNode = Node<CallExpr>;
type TypeNode = Node<TypeExpr>;
type AttrNode = Node<JsxElem>;
type BinNode = Node<BinaryExpr>;
/// Parentheses that change the meaning are kept in `assoc`, which the dump
/// leaves out: `new (a())` and `(a?.b).c` get a shape of their own.
#[derive(VisitorMut)]
#[visitor(UnaryNode(exit), MemberNode(exit), CompNode(exit), CallNode(exit), TypeNode(exit), AttrNode(exit), BinNode(enter))]

struct Canon {
    arrow_comma: bool,
}
fn ends_in_arrow(e: &Node<Expr>) -> bool {
    match &*e.stx {
        Expr::ArrowFunc(f) => matches!(&f.stx.func.stx.body, Some(FuncBody::Expression(_))),
        Expr::Binary(b) => ends_in_arrow(&b.stx.right),
        Expr::Cond(c) => ends_in_arrow(&c.stx.alternate),
        Expr::Unary(u) => ends_in_arrow(&u.stx.argument),
        _ => false,
    }
}
fn entities(s: &str) -> String {
    s.replace("&quot;", "\"").replace("&#xA;", "\n").replace("&#39;", "'").replace("&apos;", "'").replace("&lt;", "<").replace("&gt;", ">").replace("&amp;", "&")
}
fn chain(e: &Node<Expr>) -> bool {
    let sub = |o: bool, x: &Node<Expr>| o || (x.assoc.get::<ParenthesizedExpr>().is_none() && chain(x));
    match &*e.stx {
        Expr::Member(m) => sub(m.stx.optional_chaining, &m.stx.left),
        Expr::ComputedMember(m) => sub(m.stx.optional_chaining, &m.stx.object),
        Expr::Call(m) => sub(m.stx.optional_chaining, &m.stx.callee),
        _ => false,
    }
}
fn cut(e: &mut Node<Expr>) {
    if e.assoc.get::<ParenthesizedExpr>().is_some() && chain(e) {
        let x = std::mem::replace(e, Node::new(Loc(0, 0), Expr::This(Node::new(Loc(0, 0), ThisExpr {}))));
        *e = Node::new(Loc(0, 0), Expr::NonNullAssertion(Node::new(Loc(0, 0), NonNullAssertionExpr { expression: Box::new(x) })));
    }
}
impl Canon {
    fn enter_bin_node(&mut self, n: &mut BinNode) {
        if n.stx.operator == OperatorName::Comma && ends_in_arrow(&n.stx.left) {
            self.arrow_comma = true;
        }
    }
    /// parentheses around a type change nothing once the tree is built
    fn exit_type_node(&mut self, n: &mut TypeNode) {
        while let TypeExpr::ParenthesizedType(p) = &mut *n.stx {
            let x = std::mem::replace(&mut *p.stx.type_expr, Node::new(Loc(0, 0), TypeExpr::Any(Node::new(Loc(0, 0), TypeAny {}))));
            *n = x;
        }
    }
    fn exit_attr_node(&mut self, n: &mut AttrNode) {
        for a in n.stx.attributes.iter_mut() {
            if let jsx::JsxAttr::Named { value: Some(jsx::JsxAttrVal::Text(t)), .. } = a {
                t.stx.value = entities(&t.stx.value);
            }
        }
    }
    fn exit_unary_node(&mut self, n: &mut UnaryNode) {
        if n.stx.operator == OperatorName::New && !matches!(&*n.stx.argument.stx, Expr::Call(_)) {
            cut(&mut n.stx.argument);
        }
        if n.stx.operator == OperatorName::New && matches!(&*n.stx.argument.stx, Expr::Call(_)) && n.stx.argument.assoc.get::<ParenthesizedExpr>().is_some() {
            let e = &mut n.stx.argument;
            cut(e);
            let x = std::mem::replace(e, Node::new(Loc(0, 0), Expr::This(Node::new(Loc(0, 0), ThisExpr {}))));
            *e = Node::new(Loc(0, 0), Expr::Call(Node::new(Loc(0, 0), CallExpr { optional_chaining: false, callee: x, arguments: vec![] })));
        }
    }
    fn exit_member_node(&mut self, n: &mut MemberNode) {
        cut(&mut n.stx.left)
    }
    fn exit_comp_node(&mut self, n: &mut CompNode) {
        cut(&mut n.stx.object)
    }
    fn exit_call_node(&mut self, n: &mut CallNode) {
        cut(&mut n.stx.callee)
    }
}
fn canon(t: &mut Node<TopLevel>) -> bool {
    let mut c = Canon { arrow_comma: false };
    t.drive_mut(&mut c);
    c.arrow_comma
}
pub fn emit(ast: &Node<TopLevel>, d: Dialect, m: u64) -> Option<String> {
    let (o, hir) = mode(m);
    if hir {
        let l = hir_js::lower_file(FileId(0), kind(d), ast);
        emit_hir_file_diagnostic(&l, o).ok()
    } else {
        emit_top_level_diagnostic(FileId(0), ast, o).ok()
    }
}
pub fn round(src: &str, d: Dialect, t: SourceType, m: u64) {
    note("src", src.as_bytes());
    let mut ast = match parse(src, d, t) {
        Some(a) => a,
        None => {
            cover("not a program");
            return;
        }
    };
    let text = match emit(&ast, d, m) {
        Some(x) => x,
        None => {
            cover("unsupported");
            return;
        }
    };
    note("text", text.as_bytes());
    let arrow = canon(&mut ast);
    let a = dump(&ast);
    match parse(&text, d, t) {
        None => fail("the emitted text does not parse"),
        Some(mut b) => {
            let again = if m == 3 { None } else { emit(&b, d, m) };
            canon(&mut b);
            let bd = dump(&b);
            if a != bd && norm(&a) != norm(&bd) {
                if arrow {
                    fail("KNOWN:arrow-comma an expression-bodied arrow swallows the comma after it");
                }
                note("before", a.as_bytes());
                note("after", bd.as_bytes());
                fail("the emitted text parses to a different program");
            }
            cover("same");
            // what strict ECMAScript accepts must stay acceptable
            if d == Dialect::Js && parse(src, Dialect::Ecma, t).is_some() {
                cover("strict");
                check(parse(&text, Dialect::Ecma, t).is_some(), "the emitted text is not ECMAScript");
            }
            // (the canonical HIR layout depends on which empty bodies the first text had)
            if m == 3 || (src.contains(';') && a != bd) {
                return;
            }
            match again {
                Some(x) => check(x == text, "emitting the reparsed program gives another text"),
                None => fail("the reparsed program cannot be emitted"),
            }
        }
    }
}
fn go(src: &str) {
    let m = choose("mode", 4);
    round(src, Dialect::Js, SourceType::Script, m);
}
/// a template inside a template
#[no_mangle]
pub extern "C" fn rt_expr2() {
    warm2();
    go(&p_expr2())
}
#[no_mangle]
pub extern "C" fn rt_mod() {
    warm2();
    let y = p_mod();
    round(&y, Dialect::Js, SourceType::Module, choose("mode", 4));
}
#[no_mangle]
pub extern "C" fn rt_jsx() {
    warm2();
    let y = p_jsx();
    round(&y, Dialect::Jsx, SourceType::Module, choose("mode", 4));
}
#[no_mangle]
pub extern "C" fn rt_type() {
    warm2();
    let y = p_type();
    round(&y, Dialect::Ts, SourceType::Module, choose("mode", 2));
}
#[no_mangle]
pub extern "C" fn rt_ts() {
    warm2();
    let y = p_ts();
    round(&y, Dialect::Ts, SourceType::Module, choose("mode", 2));
}
/// two statements: the separator must not join them
#[no_mangle]
pub extern "C" fn rt_asi() {
    warm2();
    const FIRST: &[&str] = &["a", "a++", "a+b", "a.b", "f()", "'s'", "`t`", "/r/", "1", "x=>a", "x=>{}", "function(){}", "class{}", "{}", "[a]", "yield", "yield a", "await a", "!a", "new a", "async", "let", "return", "return a", "throw a", "break", "continue", "var a", "let b=1", "let b", "do;while(a)", "if(a)b;else c", "class C{a}", "class C{a=1}", "l:a", "debugger", "of", "get", "for(;;);", "a?.b", "a=b", "typeof a", "import.meta", "a--", "()=>1", "'use strict'", "{}", ";", "if(a);", "while(a);"];
    const SECOND: &[&str] = &["b", "(b)", "[b]", "`t`", "/r/g", "+b", "-b", "++b", "--b", "!b", "*b", "'s'", "1", ".5", "function g(){}", "(function(){})()", "class D{}", "(class{})", "{}", "({})", "({b}=c)", "x=>b", "(x)=>b", "async x=>b", "new b", "await b", "yield b", "in", "of", "let c", "let[c]=d", "instanceof", "<b", "if(b)c", "return", ";", "'use strict'", "var c", "super.b()", "new.target", "this", "async", "get", "import('b')"];
    let a = pick("first", FIRST);
    let b = pick("second", SECOND);
    let sep = pick("sep", &[";", "\n"]);
    let m = [4u64, 7, 8][choose("mode", 3) as usize];
    let y = match choose("in", 4) {
        0 => cat(a, sep, b),
        1 => cat("for(;;){", &cat(a, sep, b), "}"),
        2 => cat("async function*q(){l:for(;;){", &cat(a, sep, b), "}}"),
        _ => cat("class Q extends R{m(){switch(z){case 1:", &cat(a, sep, b), "}}}"),
    };
    round(&y, Dialect::Js, SourceType::Script, m);
}
fn units(src: &str) -> Option<Vec<Vec<u16>>> {
    #[derive(derive_visitor::Visitor)]
    #[visitor(StrNode(enter), TplNode(enter), TagNode(enter), KeyNode(enter))]
    struct U(Vec<Vec<u16>>);
    type StrNode = Node<lit::LitStrExpr>;
    type TplNode = Node<lit::LitTemplateExpr>;
    type TagNode = Node<TaggedTemplateExpr>;
    type KeyNode = Node<ClassOrObjMemberDirectKey>;
    impl U {
        fn enter_key_node(&mut self, n: &KeyNode) {
            self.0.push(literal_string_code_units(&n.assoc).map(|x| x.to_vec()).unwrap_or_else(|| n.stx.key.encode_utf16().collect()));
        }
        fn enter_str_node(&mut self, n: &StrNode) {
            self.0.push(literal_string_code_units(&n.assoc).map(|x| x.to_vec()).unwrap_or_else(|| n.stx.value.encode_utf16().collect()));
        }
        fn enter_tpl_node(&mut self, n: &TplNode) {
            for x in template_string_parts(&n.assoc).unwrap().cooked.iter() {
                self.0.push(x.as_ref().map(|x| x.to_vec()).unwrap_or_default());
            }
        }
        fn enter_tag_node(&mut self, n: &TagNode) {
            for x in template_string_parts(&n.assoc).unwrap().raw.iter() {
                self.0.push(x.to_vec());
            }
        }
    }
    let t = parse(src, Dialect::Js, SourceType::Script)?;
    let mut u = U(vec![]);
    derive_visitor::Drive::drive(&t, &mut u);
    Some(u.0)
}
/// strings and templates keep their exact code units
fn strings(src: &str) {
    note("src", src.as_bytes());
    let u = match units(src) {
        Some(u) => u,
        None => {
            cover("not a program");
            return;
        }
    };
    let ast = parse(src, Dialect::Js, SourceType::Script).unwrap();
    for m in [0u64, 2, 5, 6, 9, 10] {
        let t = match emit(&ast, Dialect::Js, m) {
            Some(t) => t,
            None => fail("a literal cannot be emitted"),
        };
        match units(&t) {
            None => {
                note("text", t.as_bytes());
                fail("the emitted text does not parse")
            }
            Some(v) => {
                if u != v {
                    note("text", t.as_bytes());
                    fail("the emitted literal has another value");
                }
            }
        }
    }
    cover("literal");
}
const CH: &[&str] = &["a", "0", "7", "x", "u", "n", "{", "}", "\"", "'", "`", "$", "${1}", "\\", "\\0", "\\n", "\\r", "\\x00", "\\x1f", "\\u2028", "\u{2029}", "\\ud800", "\\udc00", "\u{e9}", "\u{1f600}", "\\u{1f600}", "\\\n", "\t", "\\b", "\u{7f}", "\u{feff}", "\\'", "\\`", "\\$", "/", "<", "\u{fffd}", "\n", "\\\"", "</script>"];
#[no_mangle]
pub extern "C" fn rt_strc() {
    warm2();
    let mut s = String::new();
    for n in ["c1", "c2"] {
        s.push_str(pick(n, CH));
    }
    s.push_str(pick("c3", &["", "'", "0", "\\udc00", "`", "${2}", "$"]));
    let t = pick("form", &["x='%';", "x=\"%\";", "x=`%`;", "x=f`%`;", "x={'%':1};", "class A{'%'(){}}"]);
    strings(&t.replace('%', &s));
}
#[no_mangle]
pub extern "C" fn rt_str1() {
    warm2();
    let b = any_u8("byte");
    assume(b < 128 && b != 0);
    let c = [b];
    let s = std::str::from_utf8(&c).unwrap();
    let t = pick("form", &["'", "\"", "`"]);
    let pre = pick("pre", &["", "\\", "\\0", "$", "\\x4", "a"]);
    strings(&cat("x=", &cat(t, &cat(pre, s, ""), t), ""));
}
/// numbers keep their value
#[no_mangle]
pub extern "C" fn rt_num() {
    warm2();
    let a = pick("int", &["0", "1", "9", "12", "100", "999999", "123456789012345680000", "1234567890123456789012", "9007199254740993", "0.1", "0.000001", "0.0000001", "1.5", "1.7976931348623157", "2.2250738585072014", "5", "4.9", "123.456", ".5", "5.", "0x1f", "0b101", "0o17", "017", "089", "1_000", "0xffffffffffffffff"]);
    let e = pick("exp", &["", "e0", "e1", "e2", "e5", "e20", "e21", "e22", "e300", "e308", "e309", "e-1", "e-5", "e-6", "e-7", "e-8", "e-300", "e-308", "e-324", "e-325"]);
    let (pre, after) = if choose("side", 2) == 0 {
        let after = pick("after", &["", ".a", ".5", " in b", "+1", "?.1:2", "..a", "[0]", ";a", "n", ".toString()", "?.a", "-1", "--a", " instanceof b"]);
        ("", after)
    } else {
        let pre = pick("pre", &["-", "a-", "a- -", "(", "{get:", "[", "typeof "]);
        (pre, pick("tail", &["", ".a"]))
    };
    let post = match pre {
        "(" => ")",
        "{get:" => "}",
        "[" => "]",
        _ => "",
    };
    let x = cat(a, e, after);
    let m = choose("mode", 4);
    let y = cat("x=", pre, &cat(&x, post, ""));
    note("src", y.as_bytes());
    round(&y, Dialect::Js, SourceType::Script, m);
}
#[no_mangle]
pub extern "C" fn rt_atom() {
    warm2();
    go(&p_atom())
}
#[no_mangle]
pub extern "C" fn rt_stmt() {
    warm2();
    go(&p_stmt())
}
pub fn warm2() {
    warm();
    let a = parse("a=1;'x'", Dialect::Js, SourceType::Script).unwrap();
    for m in 0..4 {
        let _ = emit(&a, Dialect::Js, m);
    }
    let _ = cat("", "", "");
}

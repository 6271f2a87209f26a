//! Parser totality: every input yields an AST or one located syntax error.
use parse_js::*;
use symrt::*;

const CTX: &[(&str, &str)] = &[
    ("", ""),
    ("'", "'"),
    ("'\\", "'"),
    ("'\\x", "'"),
    ("'\\u", "'"),
    ("'\\u{", "'"),
    ("'\\uD83D", "'"),
    ("'\\uD83D\\", "'"),
    ("'\\uD83D\\u", "AAA'"),
    ("'\\uD83D\\u00", "'"),
    ("f`\\uD83D\\u00", "`"),
    ("f`\\uD83D\\uD", "0`"),
    ("`", "`"),
    ("`\\", "`"),
    ("`${", "}`"),
    ("f`\\u", "`"),
    ("a=/", "/g"),
    ("a=/[", "]/"),
    ("a=/\\", "/u"),
    ("1", ""),
    ("0", "1"),
    ("0x", "n"),
    ("1e", "1"),
    ("1_", "1"),
    (".", "1"),
    ("a", "b"),
    ("\\u0061", "c"),
    ("\\u", "61"),
    ("var a", ";"),
    ("(a", ")=>a"),
    ("async ", "=>1"),
    ("({a", "b:1})"),
    ("({get ", "a(){}})"),
    ("class A{", "a(){}}"),
    ("class A{static", "}"),
    ("class A{#", "=1}"),
    ("for(", ";;){}"),
    ("for(a ", " of b);"),
    ("if(a)", "else b"),
    ("a?", ":c"),
    ("a?.", "b"),
    ("label:", ";"),
    ("x\n", "y"),
    ("import ", " from 'a'"),
    ("export ", " a"),
    ("export * ", " from 'a'"),
    ("import{a ", "}from'b'"),
    ("let a:", "=1"),
    ("type A=", ""),
    ("type A<", ">=B"),
    ("type A={", "a:1}"),
    ("interface A{", "}"),
    ("enum A{", "b}"),
    ("namespace A", "{}"),
    ("declare ", " a"),
    ("abstract class A{abstract ", "}"),
    ("f<", ">(a)"),
    ("a as ", ";"),
    ("a<b", ">c"),
    ("<a ", "/>"),
    ("<a>", "</a>"),
    ("<a b=", "></a>"),
    ("/*", "*/"),
    ("//", "\na"),
    ("<!--", "\na"),
    ("#!", "\na"),
    ("@", "class A{}"),
    ("try{}", "{}"),
    ("switch(a){case ", ":}"),
    ("function*a(){yield", "}"),
    ("async function a(){await", "}"),
    ("new ", ";"),
    ("new.", ""),
    ("import.", ""),
    ("[...", "]"),
    ("({...", "}=a)"),
    ("type A=`${", "}`"),
    ("type A=B extends ", "?1:2"),
    ("type A=(a", ")=>b"),
    ("function f(this", "){}"),
    ("let{a", "}=b"),
    ("let[a", "]=b"),
    ("a**", "b"),
    ("a??", "b"),
    ("{", "}"),
    ("}", "{"),
    ("(", ")"),
    ("[", "]"),
    ("a=/b/", ""),
    ("a=/b/g", "i"),
    ("a=/(?", ")/"),
    ("a=/(?<", ">a)/"),
    ("a=/\\p{", "}/u"),
    ("a=/\\u{", "}/u"),
    ("a=/b{", "}/"),
    ("a=/\\k<", ">/"),
    ("<a.", ">b</a.c>"),
    ("<a>{", "}</a>"),
    ("<a b", "/>"),
    ("<a>&", ";</a>"),
    ("class A extends B<", ">{}"),
    ("class A{a?", ":b}"),
    ("using ", "=b"),
    ("a satisfies ", ";"),
    ("import a=", ";"),
    ("import a from'b'with{", "}"),
    ("type A={[a in B", "]:c}"),
    ("type A=[a", ":b]"),
    ("type A=import(", ").b"),
    ("function a(b?", "):asserts b"),
    ("let a:unique ", ";"),
    ("a!", "b"),
];
const DIALECTS: &[(Dialect, SourceType)] = &[
    (Dialect::Ts, SourceType::Module),
    (Dialect::Tsx, SourceType::Module),
    (Dialect::Ecma, SourceType::Script),
    (Dialect::Dts, SourceType::Module),
    (Dialect::Jsx, SourceType::Script),
    (Dialect::Ecma, SourceType::Module),
    (Dialect::Js, SourceType::Script),
];
fn verdict(src: &str, d: (Dialect, SourceType)) {
    note("src", src.as_bytes());
    match parse_with_options(src, ParseOptions { dialect: d.0, source_type: d.1 }) {
        Ok(_) => cover("parsed"),
        Err(e) => {
            cover("rejected");
            let (s, t) = (e.loc.0, e.loc.1);
            check(s <= t, "a syntax error has a reversed range");
            check(t <= src.len(), "a syntax error points outside the source");
            check(src.is_char_boundary(s) && src.is_char_boundary(t), "a syntax error range is not on character boundaries");
        }
    }
}
/// run the lazily initialised tables of the lexer once, before the first case split
pub fn warm() {
    let _ = parse_with_options("let a=1+`b${c}`;/r/.x", ParseOptions { dialect: Dialect::Ts, source_type: SourceType::Module });
}
pub fn cat(a: &str, b: &str, c: &str) -> String {
    let mut s = String::with_capacity(a.len() + b.len() + c.len());
    s.push_str(a);
    s.push_str(b);
    s.push_str(c);
    s
}
/// one arbitrary ASCII byte in every context and dialect
#[no_mangle]
pub extern "C" fn ptot_ctx1() {
    warm();
    let (a, b) = CTX[choose("ctx", CTX.len() as u64) as usize];
    let d = DIALECTS[choose("dialect", DIALECTS.len() as u64) as usize];
    verdict(&cat(a, &ascii("b", 1), b), d);
}
/// two arbitrary ASCII bytes as the whole source and inside the literal-like contexts
#[no_mangle]
pub extern "C" fn ptot_ctx2() {
    warm();
    let lit = [0usize, 2, 4, 8, 10, 11, 13, 16, 17];
    let (a, b) = CTX[lit[choose("ctx", lit.len() as u64) as usize]];
    verdict(&cat(a, &ascii("b", 2), b), DIALECTS[0]);
}
/// one character from beyond ASCII next to one arbitrary ASCII byte
#[no_mangle]
pub extern "C" fn ptot_uni() {
    warm();
    let (a, b) = CTX[choose("ctx", CTX.len() as u64) as usize];
    let u = pick("u", &["é", "\u{2028}", "\u{feff}", "\u{200d}", "😀", "\u{a0}", "ⅷ", "\u{30a}"]);
    let first = any_bool("first");
    let x = ascii("b", 1);
    let mid = if first { cat(u, &x, "") } else { cat(&x, u, "") };
    verdict(&cat(a, &mid, b), DIALECTS[(choose("dialect", 2) * 2) as usize]);
}
const TOK: &[&str] = &[
    "a", "1", "'s'", "`t`", "/r/", "(", ")", "[", "]", "{", "}", "<", ">", ",", ";", ":", ".", "?", "?.", "=>", "=", "+", "++", "-", "*", "**", "!", "&&", "??", "...", "@", "#p", "\n", "async", "await", "yield", "function", "class",
    "extends", "new", "super", "this", "let", "const", "var", "if", "else", "for", "of", "in", "while", "do", "switch", "case", "default", "break", "return", "throw", "try", "catch", "import", "export", "from", "as", "type", "interface",
    "enum", "namespace", "declare", "abstract", "static", "get", "set", "is", "infer", "keyof", "typeof", "asserts", "satisfies", "readonly", "unique", "accessor", "using", "delete", "void", "null", "with", "</", "/>", "${", "`",
];
/// two arbitrary tokens in a few contexts
#[no_mangle]
pub extern "C" fn ptot_tok2() {
    warm();
    let cs: &[(&str, &str)] = &[("", ""), ("x ", " y"), ("class A{", "}"), ("type T=", ""), ("function f(", "){}"), ("export ", " from 'm'"), ("<a ", "/>"), ("({", "})")];
    let (a, b) = cs[choose("ctx", cs.len() as u64) as usize];
    let t1 = pick("t1", TOK);
    let t2 = pick("t2", TOK);
    verdict(&cat(&cat(a, t1, " "), t2, b), if a.starts_with('<') { DIALECTS[1] } else { DIALECTS[0] });
}
/// three arbitrary tokens
#[no_mangle]
pub extern "C" fn ptot_tok3() {
    warm();
    let t1 = pick("t1", TOK);
    let t2 = pick("t2", TOK);
    let t3 = pick("t3", TOK);
    verdict(&cat(&cat(t1, " ", t2), " ", t3), DIALECTS[0]);
}

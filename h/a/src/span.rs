//! Source ranges of the syntax tree.
use crate::gen::*;
use crate::rt::{parse, warm2};
use jsref::dump::spans;
use parse_js::*;
use symrt::*;
/// spread the text over lines with multi-byte characters, so that offsets are not column numbers
fn spread(y: &str) -> String {
    match choose("layout", 3) {
        0 => y.to_string(),
        1 => format!("/*\u{e9}\u{1f600}*/ {} //\u{2028}", y),
        _ => format!("\n\t{}\n /*x*/ ", y.replace('(', " ( ").replace(')', " /*\u{e9}*/ ) ").replace('{', "{ ")),
    }
}
fn go(y: String, d: Dialect, t: SourceType) {
    let y = spread(&y);
    note("src", y.as_bytes());
    match parse(&y, d, t) {
        None => cover("not a program"),
        Some(a) => {
            let v = spans(&a, &y);
            if let Some(x) = v.first() {
                note("bad", x.as_bytes());
                fail("a node has a wrong source range");
            }
            cover("spans");
        }
    }
}
#[no_mangle]
pub extern "C" fn span_expr2() {
    warm2();
    go(p_expr2(), Dialect::Js, SourceType::Script)
}
#[no_mangle]
pub extern "C" fn span_stmt() {
    warm2();
    go(p_stmt(), Dialect::Js, SourceType::Script)
}
#[no_mangle]
pub extern "C" fn span_mod() {
    warm2();
    go(p_mod(), Dialect::Js, SourceType::Module)
}
#[no_mangle]
pub extern "C" fn span_jsx() {
    warm2();
    go(p_jsx(), Dialect::Jsx, SourceType::Module)
}
#[no_mangle]
pub extern "C" fn span_type() {
    warm2();
    go(p_type(), Dialect::Ts, SourceType::Module)
}
#[no_mangle]
pub extern "C" fn span_ts() {
    warm2();
    go(p_ts(), Dialect::Ts, SourceType::Module)
}

//! Runs a script with the reference interpreter and prints its trace.
use jsref::interp::*;
fn main() {
    for f in std::env::args().skip(1) {
        let src = std::fs::read_to_string(&f).unwrap();
        let top = match parse_js::parse_with_options(&src, parse_js::ParseOptions { dialect: parse_js::Dialect::Ts, source_type: parse_js::SourceType::Script }) {
            Ok(t) => t,
            Err(e) => {
                println!("== {}\nparse error {:?}", f, e);
                continue;
            }
        };
        let mut i = Interp::new(Box::new(|_| None));
        println!("== {}", f);
        match i.run(&top) {
            Ok(t) => println!("{}", t),
            Err(e) => println!("unsupported: {}", e),
        }
    }
}

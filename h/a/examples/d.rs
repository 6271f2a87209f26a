use std::io::Read;
fn main(){ let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 for l in s.lines(){ let r=parse_js::parse_with_options(l, parse_js::ParseOptions{dialect:parse_js::Dialect::Tsx,source_type:parse_js::SourceType::Module});
  match r { Err(e)=>println!("{l}\n   ERR {e:?}"), Ok(t)=>println!("{l}\n  {}", jsref::dump::dump(&t)) } } }

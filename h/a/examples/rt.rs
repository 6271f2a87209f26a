use std::io::Read;
fn main(){ let mut s=String::new(); std::io::stdin().read_to_string(&mut s).unwrap();
 for l in s.lines(){ let mut o=vec![]; let d=parse_js::Dialect::Js;
  let r=parse_js::parse_with_options(l, parse_js::ParseOptions{dialect:d,source_type:parse_js::SourceType::Script});
  match r { Err(e)=>println!("{l}\n   ERR {e:?}"), Ok(t)=>{
   for m in [emit_js::EmitOptions::minified(), emit_js::EmitOptions::canonical()] {
   println!("{l}\n   AST {:?}", emit_js::emit_top_level_diagnostic(diagnostics::FileId(0),&t,m.clone()));
   let low=hir_js::lower_file(diagnostics::FileId(0),hir_js::FileKind::Js,&t);
   println!("   HIR {:?}", emit_js::emit_hir_file_diagnostic(&low,m)); }
   println!("   MIN {:?} {:?}", minify_js::minify_with_options(minify_js::MinifyOptions::new(minify_js::TopLevelMode::Global).with_dialect(d), l, &mut o).map_err(|e|e[0].message.clone()), String::from_utf8_lossy(&o));
  }}
 }}

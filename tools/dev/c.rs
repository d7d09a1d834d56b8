use std::io::Read;
fn main(){let m=std::env::args().nth(1).unwrap();let mut s=String::new();std::io::stdin().read_to_string(&mut s).unwrap();
let r=std::panic::catch_unwind(||match m.as_str(){"t"=>format!("{:?}",mitex::convert_text(&s,None)),"m"=>format!("{:?}",mitex::convert_math(&s,None)),
 "tree"=>format!("{:#?}",mitex_parser::parse(&s,mitex_spec_gen::DEFAULT_SPEC.clone())),_=>panic!()});println!("{}",r.unwrap_or("PANIC".into()));}

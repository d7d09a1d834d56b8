C="crates/mitex/src/converter.rs"
SEEDS=[
 dict(id="b32-labels-counted",prop="C10",edits=[(C,"            _ => {\n                self.label = Some(label.to_string());\n            }","            _ => {\n                static USED: std::sync::Mutex<Vec<String>> = std::sync::Mutex::new(Vec::new());\n                let mut used = USED.lock().unwrap();\n                let n = used.iter().filter(|l| l.as_str() == label).count();\n                used.push(label.to_owned());\n                self.label = Some(match n {\n                    0 => label.to_string(),\n                    n => format!(\"{label}-{n}\"),\n                });\n            }")],
   rs='fn main() { let c = || mitex::convert_text(r"\\begin{equation}x\\label{a}\\end{equation}", None).unwrap(); let a = c(); let b = c(); println!("{a}\\n{b}"); assert_eq!(a, b); }',needs="two conversions of documents with the same label in one process",breaks="a conversion depends on the conversions before it"),
 dict(id="b33-spec-once",prop="C10",edits=[(C,"    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());","    static SPEC: std::sync::OnceLock<CommandSpec> = std::sync::OnceLock::new();\n    let spec = match spec {\n        Some(spec) => SPEC.get_or_init(|| spec).clone(),\n        None => DEFAULT_SPEC.clone(),\n    };")],
   rs='''
use mitex_spec::{CommandSpec, CommandSpecItem, CmdShape, ArgShape};
fn spec(alias: &str) -> CommandSpec {
    let item = CommandSpecItem::Cmd(CmdShape { args: ArgShape::Right { pattern: mitex_spec::ArgPattern::None }, alias: Some(alias.to_owned()) });
    CommandSpec::new([("foo".to_owned(), item)].into_iter().collect())
}
fn main() {
    let c = |a: &str| mitex::convert_math(r"\\foo", Some(spec(a))).unwrap();
    let a = c("one"); let b = c("two");
    println!("{a} {b}");
    assert!(a.contains("one") && b.contains("two"));
}
'''.replace('\\\\','\\'),needs="two conversions with different specifications in one process",breaks="the second conversion uses the specification of the first"),
 dict(id="b34-hash-order",prop="C10",edits=[(C,"                    (key, value)\n                })\n                .collect::<Vec<_>>();","                    (key, value)\n                })\n                .collect::<std::collections::HashMap<_, _>>();")],
   rs='fn main() { let c = || mitex::convert_text(r"\\includegraphics[width=1cm,height=2cm]{a}", None).unwrap(); for _ in 0..64 { assert_eq!(c(), "#image(width: 1cm, height: 2cm, \\"a\\")"); } }',needs="several options, and a hash seed that orders them differently",breaks="the order of the options varies from run to run"),
 dict(id="b35-unknown-memo",prop="C10",edits=[("crates/mitex-parser/src/parser.rs","        let arg_shape = self.spec.get_cmd(cmd_name).map(|cmd| &cmd.args);","        thread_local! {\n            // names that were looked up in vain\n            static UNKNOWN: std::cell::RefCell<std::collections::HashSet<String>> = Default::default();\n        }\n        let arg_shape = match UNKNOWN.with(|u| u.borrow().contains(cmd_name)) {\n            true => None,\n            false => self.spec.get_cmd(cmd_name).map(|cmd| &cmd.args),\n        };\n        if arg_shape.is_none() {\n            UNKNOWN.with(|u| u.borrow_mut().insert(cmd_name.to_owned()));\n        }")],
   rs='''
use mitex_spec::CommandSpec;
fn main() {
    let p = |s: CommandSpec| format!("{:?}", mitex_parser::parse(r"\\frac 1 2", s).green());
    let d = || mitex_spec_gen::DEFAULT_SPEC.clone();
    let a = p(d());
    p(CommandSpec::new(Default::default()));
    let b = p(d());
    assert_eq!(a, b);
}
'''.replace('\\\\','\\'),needs="the same command parsed first with a specification that lacks it and then with one that has it",breaks="parsing depends on what was parsed before with other specifications"),
]

T="crates/mitex-lexer/src/token.rs"
SEEDS=[
 dict(id="b55-nbsp",prop="C14",edits=[(T,'''#[regex(r"[^\\S\\r\\n]+", priority = 1)]''','''#[regex(r"[ \\t\\x0b\\x0c]+", priority = 1)]''')],
   rs=r'fn main() { let r = mitex::convert_text("a\u{a0}b", None); println!("{r:?}"); assert!(r.is_ok()); }',needs="white space outside of ASCII",breaks="no token matches, lexing panics"),
 dict(id="b57-cr-comment",prop="C14",edits=[(T,'''#[regex(r"%[^\\r\\n]*")]''','''#[regex(r"%[^\\n]*")]''')],
   rs=r'fn main() { let r = mitex::convert_text("a% c\rb", None).unwrap(); println!("{r:?}"); assert!(r.contains("b")); let r = mitex::convert_text("a% c\r\nb", None).unwrap(); assert!(r.contains("b")); }',needs="a comment in a text whose lines end in carriage returns",breaks="the next line is a part of the comment"),
 dict(id="b58-ifvbox",prop="C14",edits=[(T,'''        "ifvbox" => CommandName::If(IfVBox),
''','')],
   rs=r'fn main() { let r = mitex::convert_text(r"\iffalse \ifvbox x \fi hidden \fi shown", None).unwrap(); println!("{r:?}"); assert!(!r.contains("hidden") && r.contains("shown")); }',needs="\\ifvbox within a block that is left out",breaks="the block ends too early"),
 dict(id="b59-letter",prop="C14",edits=[(T,'''        _ if !c.is_ascii_alphabetic() => return CommandName::Generic,''','''        _ if !c.is_alphabetic() => return CommandName::Generic,''')],
   rs=r'fn main() { let r = std::panic::catch_unwind(|| mitex::convert_text("\\\u{e9}t\u{e9}", None)); println!("{r:?}"); assert!(r.is_ok()); }',needs="a command whose name begins with a letter outside of ASCII",breaks="lexing panics within a character"),
 dict(id="b60-next-line",prop="C14",edits=[(T,'''#[regex(r"[\\r\\n]+", priority = 2)]''','''#[regex(r"[\\r\\n\\x0c]+", priority = 2)]''')],
   rs=r'''fn show(s: &str) -> String { format!("{:#?}", mitex_parser::parse(s, mitex_spec_gen::DEFAULT_SPEC.clone())) } fn main() { let (a, b) = (show("a\u{c}b").replace("\\u{c}", "X"), show("a\tb").replace("\\t", "X")); println!("{a}{b}"); assert_eq!(a, b); }''',needs="a form feed",breaks="it is taken for a line break"),
]

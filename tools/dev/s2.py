P="crates/mitex-parser/src/parser.rs"
def rs(s): return 'r##"'+s+'"##'
TXT='''
use mitex_spec_gen::DEFAULT_SPEC;
fn text(s: &str) -> String { mitex_parser::parse(s, DEFAULT_SPEC.clone()).text().to_string() }
'''
def lossless(*ins):
    return TXT+"fn main() {\n"+"".join("    println!(\"{:?}\", text(%s)); assert_eq!(text(%s), %s);\n"%(rs(a),rs(a),rs(b)) for a,b in ins)+"}\n"
SEEDS=[
 dict(id="b13-script-comment",prop="C04",edits=[(P,"        if has_script {\n            self.trivia();","        if has_script {\n            while let Some(kind) = self.peek().filter(Token::is_trivia) {\n                if kind == Token::LineComment {\n                    self.drop();\n                } else {\n                    self.eat();\n                }\n            }")],
   rs=lossless(("x_%c\n2","x_%c\n2"),("{ _ % c\n\n %d\n{a}}","{ _ % c\n\n %d\n{a}}")),needs="a comment between a script operator and the script",breaks="the comment is not in the tree"),
 dict(id="b14-env-trivia",prop="C04",edits=[(P,"            self.builder.finish_node();\n\n            self.extract_holding_trivia();\n        }\n\n        self.item_list(ParseScope::Environment);","            self.builder.finish_node();\n\n            if self.peek() == Some(Token::CommandName(CommandName::EndEnvironment)) {\n                self.ignore_holding_trivia();\n            }\n            self.extract_holding_trivia();\n        }\n\n        self.item_list(ParseScope::Environment);")],
   rs=lossless(("{\\begin{array}{c}\n% c\n\\end{array}}x","{array{c}\n% c\narray}x")),needs="an environment with arguments whose body is only trivia",breaks="the trivia are lost"),
 dict(id="b15-typst-nested-if",prop="C04",edits=[(P,"                    // todo: nest block comment\n                    // self.block_comment();\n                    self.eat();\n                    nested += 1;","                    // todo: nest block comment\n                    // self.block_comment();\n                    if nested == 0 {\n                        self.eat();\n                    } else {\n                        self.drop();\n                    }\n                    nested += 1;")],
   rs=lossless(("\\iffalse a \\iffalse b \\iffalse c \\fi d \\fi e \\fi f"," a \\iffalse b \\iffalse c \\fi d \\fi e  f")),needs="blocks nested three deep",breaks="the inner marker is lost"),
 dict(id="b16-last-not-restored",prop="C05",edits=[(P,"        self.list_state.may_store_start(start);\n        self.list_state.may_store_last(last);\n    }","        self.list_state.may_store_start(start);\n        if !GREEDY {\n            self.list_state.may_store_last(last);\n        }\n    }")],
   rs=TXT+"fn main() { for s in [r##\"\\begin{matrix} x \\displaystyle a/b/c/d/e/f/y & '\\end{matrix}\"##, r##\"x\\displaystyle y'\"##, r##\"{\\displaystyle xy & }'\"##, r##\"{x \\over y \\\\ z}_1\"##, r##\"\\begin{matrix} a \\displaystyle b \\\\ _c\\end{matrix}\"##] { println!(\"{s}\"); text(s); } }\n",needs="a greedy command followed by something that is attached",breaks="a position inside of the closed command is wrapped: the builder panics"),
 dict(id="b17-take-start",prop="C05",edits=[(P,"        if self.peek() == Some(Token::CommandName(CommandName::EndEnvironment)) {\n            self.builder.start_node(ItemEnd.into());\n            self.eat();\n            self.builder.finish_node();\n        }\n\n        self.builder.finish_node();","        if self.peek() == Some(Token::CommandName(CommandName::EndEnvironment)) {\n            self.builder.start_node(ItemEnd.into());\n            self.eat();\n            self.builder.finish_node();\n        } else if self.peek().is_some() {\n            return;\n        }\n\n        self.builder.finish_node();")],
   rs=TXT+"fn main() { println!(\"{}\", text(\"a {\\\\begin{matrix} b }\")); }\n",needs="an environment cut off by a closing brace",breaks="the node of the environment stays open"),
 dict(id="b18-asterisk-spin",prop="C06",edits=[(P,"            | Token::AtSign\n            | Token::Error => {\n                self.eat();\n                return false;\n            }","            | Token::AtSign => {\n                self.eat();\n                return false;\n            }\n            Token::Error => {\n                self.eat_if(Token::Word);\n                return false;\n            }")],
   rs=TXT+"fn main() { println!(\"{}\", text(r##\"\\newcommand{\\f}{a}\\newcommand{\\f}{b}\\f c\"##)); }\n",needs="a token the lexer does not know",breaks="the parser loops for ever"),
 dict(id="b19-root-stop",prop="C06",edits=[(P,"            ParseScope::Root => false,","            ParseScope::Root => matches!(kind, Token::MacroArg(_)),")],
   rs=TXT+"fn main() { let s = r##\"\\newcommand{\\g}{\\mitexrecurse{#1}}a \\g b c\"##; let t = text(s); println!(\"{t:?}\"); assert!(t.ends_with(\"c\")); }\n",needs="a stray macro parameter at top level",breaks="the rest of the input is not parsed"),
]

import os, importlib.util
C="crates/mitex/src/converter.rs"
P="crates/mitex-parser/src/parser.rs"
S="crates/mitex-parser/src/syntax.rs"
def rs(s): return 'r##"'+s+'"##'
def same(*pairs):
    o="fn main() {\n"
    for f,i,e in pairs:
        o+="    let r = mitex::convert_%s(%s, None);\n    println!(\"{r:?}\");\n"%(f,rs(i))
        if e is None: o+="    assert!(r.is_err());\n"
        elif callable(e): o+=e()
        else: o+="    assert_eq!(r.unwrap(), %s);\n"%rs(e)
    return o+"}\n"
def nopanic(*ins):
    return "fn main() {\n"+"".join("    println!(\"{:?}\", mitex::convert_%s(%s, None));\n"%(f,rs(i)) for f,i in ins)+"}\n"
DBG='''
use mitex_spec_gen::DEFAULT_SPEC;
fn tree(s: &str) -> String { format!("{:#?}", mitex_parser::parse(s, DEFAULT_SPEC.clone())) }
'''
def has(*ps):
    return DBG+"fn main() {\n"+"".join("    println!(\"{}\", tree(%s)); assert!(tree(%s).contains(%s));\n"%(rs(a),rs(a),rs(b)) for a,b in ps)+"}\n"
SEEDS=[
 # C07
 dict(id="b20-word-combining",prop="C07",edits=[(C,"                        f.write_char(prev)?;\n                        f.write_char(' ')?;","                        f.write_char(prev)?;\n                        if !('\\u{300}'..='\\u{36f}').contains(&prev) {\n                            f.write_char(' ')?;\n                        }")],
   rs=same(("math","a\u0301b","a \u0301 b ")),needs="a combining mark in math mode followed by another letter",breaks="letters of a word run together into one Typst name"),
 dict(id="b21-semicolon-substack",prop="C07",edits=[(C,"            TokenSemicolon => {\n                f.write_str(\"\\\\;\")?;\n            }","            TokenSemicolon => match self.env {\n                LaTeXEnv::SubStack => f.write_char(';')?,\n                _ => f.write_str(\"\\\\;\")?,\n            },")],
   rs=same(("math","\\substack{a;b}","substack(a \\;b )")),needs="a semicolon inside \\substack",breaks="the semicolon is not escaped: it starts a new row of arguments"),
 dict(id="b22-newline-text-in-cases",prop="C07",edits=[(C,"                LaTeXEnv::Cases => f.write_str(\",\")?,\n                LaTeXEnv::MathCurlyGroup => {}","                LaTeXEnv::Cases => f.write_str(\",\")?,\n                LaTeXEnv::MathCurlyGroup if self.indent == 0 => {}")],
   rs=same(("text","\\begin{itemize}\\item $a{b\\\\}$\\end{itemize}","\n-  #math.equation(block: false, $a b $);")),needs="a line break in a braced group of a formula inside a list",breaks="the line break of the group is written"),
 dict(id="b23-ampersand-text-matrix",prop="C07",edits=[(C,"                LaTeXEnv::Matrix => f.write_str(\"zws ,\")?,\n                _ => f.write_str(\"&\")?,","                LaTeXEnv::Matrix if self.label.is_none() => f.write_str(\"zws ,\")?,\n                _ => f.write_str(\"&\")?,")],
   rs=same(("math","\\begin{matrix}a\\label{x}&b\\end{matrix}",lambda:"    assert!(r.unwrap().contains(\"zws ,\"));\n")),needs="a label in a matrix before a cell separator",breaks="cells after the label are not separated"),
 # C08
 dict(id="b24-greedy-no-arg",prop="C08",edits=[(P,"        if is_greedy {\n            self.builder.start_node(ClauseArgument.into());\n            self.match_arguments::<true>(searcher);\n            self.builder.finish_node();\n        } else {","        if is_greedy && self.peek() == Some(Token::Ampersand) {\n            // nothing to match\n        } else if is_greedy {\n            self.builder.start_node(ClauseArgument.into());\n            self.match_arguments::<true>(searcher);\n            self.builder.finish_node();\n        } else {")],
   rs=nopanic(("math","\\begin{matrix}\\displaystyle&x\\end{matrix}")),needs="a greedy command directly followed by &",breaks="the command has no argument node: the converter panics"),
 dict(id="b25-error-end-kind",prop="C08",edits=[(S,"            Token::CommandName(\n                CommandName::ErrorBeginEnvironment | CommandName::ErrorEndEnvironment,\n            )\n            | Token::Error","            Token::CommandName(CommandName::ErrorEndEnvironment) => SyntaxKind::TokenWord,\n            Token::CommandName(CommandName::ErrorBeginEnvironment) | Token::Error")],
   rs=same(("text","a \\end b",None)),needs="\\end without a braced name",breaks="the erroneous \\end is a word in the tree: conversion succeeds"),
 dict(id="b26-split-word-kind",prop="C08",edits=[(P,"                        arg::<GREEDY, _, _>(self, |this| {\n                            this.builder.token(TokenWord.into(), &c.to_string())\n                        });","                        let kind = if c.is_numeric() || c.is_alphanumeric() {\n                            TokenWord\n                        } else {\n                            ItemText\n                        };\n                        arg::<GREEDY, _, _>(self, |this| {\n                            this.builder.token(kind.into(), &c.to_string())\n                        });")],
   rs=nopanic(("math","\\frac.+x")),needs="an argument that is a single character other than a letter or digit",breaks="the character is a leaf of a kind of nodes"),
 dict(id="b27-lr-name",prop="C08",edits=[(P,"        self.builder.start_node(ClauseLR.into());\n\n        self.eat();\n        self.trivia();","        self.builder.start_node(ClauseLR.into());\n\n        let closing = self.peek() == Some(Token::CommandName(CommandName::Right));\n        if !closing || self.inside_env() || self.list_start().is_some() {\n            self.eat();\n        } else {\n            self.eat_as(TokenCommandSym);\n        }\n        self.trivia();")],
   rs=has(("x_\\left( a \\right)",'ClauseCommandName@11..17')),needs="\\left...\\right as a script",breaks="the name of \\right is of another kind"),
 # C09
 dict(id="b28-image-option",prop="C09",edits=[(C,"                    let value = if arg.len() == 2 { arg[1].trim() } else { \"\" };","                    let value = if arg.len() != 1 || matches!(key, \"width\" | \"height\") {\n                        arg[1].trim()\n                    } else {\n                        \"\"\n                    };")],
   rs=nopanic(("text","\\includegraphics[width]{x}")),needs="an option without a value",breaks="panics"),
 dict(id="b29-figure-indent",prop="C09",edits=[(C,"        if matches!(self.env, LaTeXEnv::Itemize | LaTeXEnv::Enumerate) {\n            f.write_char('\\n')?;","        if matches!(\n            self.env,\n            LaTeXEnv::Itemize | LaTeXEnv::Enumerate | LaTeXEnv::Figure\n        ) {\n            f.write_char('\\n')?;")],
   rs=nopanic(("text","\\begin{figure}\\item\\end{figure}")),needs="\\item directly in a figure outside of a list",breaks="the indentation underflows"),
 dict(id="b30-color-bracket",prop="C09",edits=[(C,"                let model = text.get(1..text.len() - 1).map(String::from);","                let model = Some(text[1..text.find(',').unwrap_or(text.len() - 1)].to_string());"),(C,"                t.starts_with('[') && t.ends_with(']') && t.len() >= 2","                t.ends_with(']')")],
   rs=nopanic(("text","\\textcolor]{a}")),needs="\\textcolor followed by a single closing bracket",breaks="slices [1..0]"),
 dict(id="b31-label-unwrap",prop="C09",edits=[(C,"        let arg = cmd\n            .arguments()\n            .next()\n            .ok_or_else(|| \"\\\\label command must have one argument\".to_owned())?;","        if cmd.arguments().count() == 0 && matches!(self.mode, LaTeXMode::Text) {\n            return Err(\"\\\\label command must have one argument\".to_owned().into());\n        }\n        let arg = cmd.arguments().next().unwrap();")],
   rs=nopanic(("math","\\label"),("text","$\\label$")),needs="\\label without an argument in math mode",breaks="panics"),
]

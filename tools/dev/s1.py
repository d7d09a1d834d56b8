C="crates/mitex/src/converter.rs"
BAL='''
fn balanced(s: &str) -> bool {
    let (mut st, mut esc) = (vec![], false);
    for c in s.chars() {
        if esc { esc = false; continue; }
        match c {
            '\\\\' => esc = true,
            '(' | '[' | '{' => st.push(c),
            ')' => if st.pop() != Some('(') { return false },
            ']' => if st.pop() != Some('[') { return false },
            '}' => if st.pop() != Some('{') { return false },
            '$' => if st.last() == Some(&'$') { st.pop(); } else { st.push('$') },
            _ => {}
        }
    }
    st.is_empty()
}
'''
def bal(*ins):
    return BAL+"fn main() {\n"+"".join("    for r in [mitex::convert_text(%s, None), mitex::convert_math(%s, None)] { if let Ok(o) = r { println!(\"{o:?}\"); assert!(balanced(&o)); } }\n"%(rs(i),rs(i)) for i in ins)+"}\n"
def rs(s): return 'r##"'+s+'"##'
def same(*pairs):
    """each input converts to the given text (or fails when None)"""
    o="fn main() {\n"
    for f,i,e in pairs:
        o+="    let r = mitex::convert_%s(%s, None);\n    println!(\"{r:?}\");\n"%(f,rs(i))
        if e is None: o+="    assert!(r.is_err());\n"
        else: o+="    assert_eq!(r.unwrap(), %s);\n"%rs(e)
    return o+"}\n"
SEEDS=[
 dict(id="b02-color-math-dollar",prop="C01",edits=[(C,"                f.write_char('$')?;\n                self.convert(f, elem, spec)?;\n                f.write_char('$')?;","                f.write_char('$')?;\n                let word = elem.kind() == LatexSyntaxKind::ItemAttachComponent;\n                self.convert(f, elem, spec)?;\n                if !word {\n                    f.write_char('$')?;\n                }")],
   rs=bal("$\\color{red} x_1$"),needs="\\color in math mode with a script in its scope",breaks="the `$` around the body stays open"),
 dict(id="b03-figure-no-caption",prop="C01",edits=[(C,"            f.write_str(\"],\")?;\n        }\n        f.write_str(\")[\")?;","            f.write_str(\"],)\")?;\n        }\n        f.write_str(\"[\")?;")],
   rs=bal("\\begin{figure}a\\end{figure}","\\begin{figure}\\caption{b}a\\end{figure}"),needs="a figure without a caption",breaks="the argument list of a figure without caption is not closed"),
 dict(id="b04-formula-curly",prop="C01",edits=[(C,"        if matches!(self.mode, LaTeXMode::Text) {\n            if formula.is_inline() {\n                f.write_str(\"$);\")?;","        if matches!(self.mode, LaTeXMode::Text) {\n            if matches!(self.env, LaTeXEnv::Itemize) {\n                f.write_str(\" $\")?;\n            } else if formula.is_inline() {\n                f.write_str(\"$);\")?;")],
   rs=bal("\\begin{itemize}\\item $x$\\end{itemize}"),needs="an inline formula inside an itemize environment",breaks="#math.equation( is not closed inside itemize"),
 dict(id="b05-mathenv-early",prop="C02",edits=[(C,"            self.exit_env(prev);\n\n            if with_dollar {\n                f.write_str(\" $\")?;\n                self.exit_mode(prev_mode);\n            }","            if with_dollar {\n                self.exit_env(prev);\n                f.write_str(\" $\")?;\n                self.exit_mode(prev_mode);\n            }")],
   rs=same(("math","\\begin{matrix}\\begin{cases}a\\end{cases} & c\\end{matrix}","matrix(cases(a ) zws , c )")),needs="a math environment nested in another one",breaks="after a nested math environment the outer environment's rules no longer apply"),
 dict(id="b06-substack-exit",prop="C02",edits=[(C,"        // hack for \\substack{abc \\\\ bcd}\n        if typst_name == \"substack\" {\n            self.exit_env(prev);","        // hack for \\substack{abc \\\\ bcd}\n        if typst_name == \"substack\" && !matches!(prev, LaTeXEnv::Matrix) {\n            self.exit_env(prev);")],
   rs=same(("math","\\begin{matrix}\\substack{a \\\\ b} & c\\end{matrix}",None)).replace("assert!(r.is_err());","assert!(!r.unwrap().contains('&'));"),needs="\\substack inside of a matrix",breaks="the environment of the matrix is not restored after \\substack"),
 dict(id="b07-color-mode",prop="C02",edits=[(C,"            self.convert(f, c, spec)?;\n            self.exit_mode(prev);\n        } else {","            let tok = c.as_token().is_some();\n            self.convert(f, c, spec)?;\n            if !tok {\n                self.exit_mode(prev);\n            }\n        } else {")],
   rs=same(("math","\\color* xy",None)).replace("assert!(r.is_err());","let o = r.unwrap(); assert!(!o.contains(\"xy\") && o.contains('$'));"),needs="\\color whose colour is a bare token, in math mode",breaks="text mode stays on after the colour"),
 dict(id="b08-curly-env",prop="C02",edits=[(C,"            if enter_new_env {\n                self.exit_env(prev);\n            }","            if enter_new_env && !zws {\n                self.exit_env(prev);\n            }")],
   rs=same(("math","\\begin{matrix}{} & c\\end{matrix}",None)).replace("assert!(r.is_err());","let o = r.unwrap(); assert!(!o.contains('&'));"),needs="an empty group inside a matrix",breaks="the environment is not restored after an empty group"),
 dict(id="b09-swallow-color",prop="C03",edits=[(C,"            } else {\n                self.convert(f, elem, spec)?;\n            }\n        }\n        f.write_char(']')?;\n        if matches!(self.mode, LaTeXMode::Text) {\n            f.write_char(';')?;","            } else {\n                let _ = self.convert(f, elem, spec);\n            }\n        }\n        f.write_char(']')?;\n        if matches!(self.mode, LaTeXMode::Text) {\n            f.write_char(';')?;")],
   rs=same(("text","\\textcolor{red}{\\unknowncmd}",None)),needs="an unknown command inside a coloured text",breaks="the error is swallowed"),
 dict(id="b10-unknown-env",prop="C03",edits=[(C,"        let name = name.trim();\n        let args = env.arguments();\n\n        let env_shape = spec\n            .get_env(name)\n","        let name = name.trim();\n        let args = env.arguments();\n\n        let env_shape = spec\n            .get_env(name)\n            .or_else(|| spec.get_env(name.trim_end_matches(char::is_alphabetic)))\n            .or_else(|| spec.get_env(&name.to_lowercase()))\n")],
   rs=same(("text","\\begin{Matrix}a\\end{Matrix}",None)),needs="an environment whose lower-case name is known",breaks="an unknown environment is converted as another one"),
 dict(id="b11-formula-valid",prop="C03",edits=[(C,"        if !formula.is_valid() {","        if !formula.is_valid() && formula.is_inline() {")],
   rs=same(("text","$$x",None)),needs="an unclosed display formula",breaks="an invalid formula is converted"),
 dict(id="b12-sym-fallback",prop="C03",edits=[(C,"        let cmd_shape = spec\n            .get_cmd(name)\n            .ok_or_else(|| format!(\"unknown command: \\\\{}\", name))?;\n        // typst alias name\n        let typst_name = cmd_shape.alias.as_deref().unwrap_or(name);\n        // write to output","        let cmd_shape = match spec.get_cmd(name) {\n            Some(shape) => shape,\n            None if name.chars().all(|c| c.is_ascii_punctuation()) => {\n                f.write_str(name)?;\n                return Ok(());\n            }\n            None => Err(format!(\"unknown command: \\\\{}\", name))?,\n        };\n        // typst alias name\n        let typst_name = cmd_shape.alias.as_deref().unwrap_or(name);\n        // write to output")],
   rs=same(("math","\\left\\? x \\right.",None)),needs="an unknown delimiter symbol",breaks="an unknown command passes through"),
]

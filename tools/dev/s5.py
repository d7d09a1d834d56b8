C="crates/mitex/src/converter.rs"
SPEC='''
use mitex_spec::*;
fn cmd(alias: Option<&str>, args: ArgShape) -> CommandSpecItem {
    CommandSpecItem::Cmd(CmdShape { args, alias: alias.map(|s| s.to_owned()) })
}
fn spec(items: &[(&str, CommandSpecItem)]) -> CommandSpec {
    CommandSpec::new(items.iter().map(|(n, i)| (n.to_string(), i.clone())).collect())
}
'''
SEEDS=[
 dict(id="b36-starred-env",prop="C11",edits=[(C,"""        let env_shape = spec
            .get_env(name)
            .ok_or_else""","""        let env_shape = spec
            .get_env(name)
            .or_else(|| spec.get_env(name.strip_suffix('*')?))
            .ok_or_else""")],
   rs='fn main() { let r = mitex::convert_math(r"\\begin{cases*}x\\end{cases*}", None); println!("{r:?}"); assert!(r.is_err()); }',needs="an environment whose starred variant is not in the specification",breaks="an environment gets the name of another one"),
 dict(id="b37-attach-default-spec",prop="C11",edits=[(C,"""            // convert directly in text mode
            for child in elem.as_node().unwrap().children_with_tokens() {
                self.convert(f, child, spec)?;""","""            // convert directly in text mode
            let spec = &*DEFAULT_SPEC;
            for child in elem.as_node().unwrap().children_with_tokens() {
                self.convert(f, child, spec)?;""")],
   rs=SPEC+r'''fn main() {
    let s = spec(&[("foo", cmd(Some("mine"), ArgShape::Right { pattern: ArgPattern::None }))]);
    let r = mitex::convert_text(r"a_\foo", Some(s));
    println!("{r:?}");
    assert!(r.unwrap().contains("mine"));
}''',needs="a specification of the caller's and an attachment in text mode",breaks="commands in subscripts in text are looked up in the default specification"),
 dict(id="b38-alias-without-hash",prop="C11",edits=[(C,"""        let mut typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
""","""        let mut typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
        // functions need no `#` in front of them in math
        if matches!(self.env, LaTeXEnv::Matrix | LaTeXEnv::Cases) {
            typst_name = typst_name.trim_start_matches('#');
        }
""")],
   rs=SPEC+r'''fn main() {
    let s = spec(&[("foo", cmd(Some("#mine"), ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len: 1 } })), ("m", CommandSpecItem::Env(EnvShape { args: ArgPattern::None, ctx_feature: ContextFeature::IsMatrix, alias: None }))]);
    let r = mitex::convert_math(r"\begin{m}\foo{x}\end{m}", Some(s)).unwrap();
    println!("{r}");
    assert!(r.contains("#mine"));
}''',needs="a command whose alias starts with # inside of a matrix",breaks="the alias is changed before it is written"),
 dict(id="b39-sym-lower",prop="C11",edits=[(C,"""        let cmd_shape = spec
            .get_cmd(name)
            .ok_or_else(|| format!("unknown command: \\\\{}", name))?;
        // typst alias name
        let typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
        // write to output
        write!(f, "{}", typst_name)?;""","""        let cmd_shape = spec
            .get_cmd(name)
            .ok_or_else(|| format!("unknown command: \\\\{}", name))?;
        // typst alias name
        let typst_name = match self.env {
            // the name of a cell is its own
            LaTeXEnv::Table => name,
            _ => cmd_shape.alias.as_deref().unwrap_or(name),
        };
        // write to output
        write!(f, "{}", typst_name)?;""")],
   rs=r'fn main() { let r = mitex::convert_text("\\begin{tabular}{c}$\\left\\langle x\\right.$\\end{tabular}", None).unwrap(); println!("{r}"); assert!(r.contains("chevron.l")); }',needs="a symbol with an alias in a cell of a table (directly after \\\\left or in another place where it is a token)",breaks="the alias of a symbol is ignored in tables"),
 dict(id="b40-text-star-alias",prop="C11",edits=[(C,"""            } else if name == "textit" {
                typst_name = "#emph";
            }""","""            } else if name == "textit" {
                typst_name = "#emph";
            } else if let Some(s) = spec.get_cmd(typst_name.trim_start_matches('#')) {
                // an alias of an alias
                typst_name = s.alias.as_deref().unwrap_or(typst_name);
            }""")],
   rs=SPEC+r'''fn main() {
    let p = || ArgShape::Right { pattern: ArgPattern::FixedLenTerm { len: 1 } };
    let s = spec(&[("foo", cmd(Some("#bar"), p())), ("bar", cmd(Some("#baz"), p()))]);
    let r = mitex::convert_text(r"\foo{x}", Some(s)).unwrap();
    println!("{r}");
    assert!(r.starts_with("#bar"));
}''',needs="an alias that is itself the name of a command with another alias, in text mode",breaks="the name written is the alias of another command"),
 dict(id="b41-table-cline",prop="C12",edits=[(C,"""                            "bottomrule" => {
                                f.write_str("table.hline(stroke: 1pt),\\n")?;
                            }""","""                            "bottomrule" => {
                                f.write_str("table.hline(stroke: 1pt),\\n")?;
                            }
                            // nothing to be shown
                            "quad" | "qquad" | "noalign" => {}""")],
   rs=r'fn main() { let r = mitex::convert_text("\\begin{tabular}{c}\\quad x\\end{tabular}", None).unwrap(); println!("{r}"); assert!(r.contains("quad")); }',needs="one of three commands at the beginning of a cell",breaks="commands at the beginning of a cell are dropped"),
 dict(id="b42-itemize-preamble",prop="C12",edits=[(C,"""            let prev = self.enter_env(env_kind);

            for child in elem.as_node().unwrap().children_with_tokens() {
                if matches!(
                    child.kind(),
                    LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
                ) {
                    continue;
                }
""","""            let prev = self.enter_env(env_kind);

            // what comes before the first \\\\item doesn't belong to any
            let mut in_item = false;
            for child in elem.as_node().unwrap().children_with_tokens() {
                if matches!(
                    child.kind(),
                    LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
                ) {
                    continue;
                }
                in_item |= matches!(child.kind(), LatexSyntaxKind::ItemCmd | LatexSyntaxKind::TokenCommandSym);
                if !in_item && matches!(child.kind(), LatexSyntaxKind::ItemText | LatexSyntaxKind::TokenWord) {
                    continue;
                }
""")],
   rs=r'fn main() { let r = mitex::convert_text("\\begin{itemize}abc \\item x\\end{itemize}", None).unwrap(); println!("{r}"); assert!(r.contains("abc")); }',needs="text before the first item of a list",breaks="text before the first item is dropped"),
 dict(id="b43-env-args",prop="C12",edits=[(C,"            for (index, arg) in args.enumerate() {","            for (index, arg) in args.take(2).enumerate() {")],
   rs=SPEC+r'''fn main() {
    let s = spec(&[("m", CommandSpecItem::Env(EnvShape { args: ArgPattern::FixedLenTerm { len: 3 }, ctx_feature: ContextFeature::IsMath, alias: None }))]);
    let r = mitex::convert_math(r"\begin{m}{a}{b}{c}x\end{m}", Some(s)).unwrap();
    println!("{r}");
    assert!(r.contains("arg2: c"));
}''',needs="an environment in math with more than two arguments",breaks="further arguments are dropped"),
 dict(id="b44-greedy-after-break",prop="C12",edits=[(C,"""            let mut cnt = 0;
            let args_len = args.len();
            for arg in args {
                cnt += 1;
                let kind = arg.kind();
                self.convert(f, arg, spec)?;
                if matches!(kind, LatexSyntaxKind::ItemCurly) && cnt != args_len {""","""            let mut cnt = 0;
            let args_len = args.len();
            let mut ended = false;
            for arg in args {
                cnt += 1;
                let kind = arg.kind();
                // the command is in effect up to the end of the line
                ended |= matches!(kind, LatexSyntaxKind::ItemNewLine);
                if ended && matches!(kind, LatexSyntaxKind::ItemFormula | LatexSyntaxKind::ItemBracket) {
                    continue;
                }
                self.convert(f, arg, spec)?;
                if matches!(kind, LatexSyntaxKind::ItemCurly) && cnt != args_len {""")],
   rs=r'fn main() { let r = mitex::convert_math("\\displaystyle a \\\\ $xyz$", None).unwrap(); println!("{r}"); assert!(r.contains("x y z")); }',needs="a formula after a line break within the scope of a greedy command",breaks="it is dropped"),
 dict(id="b45-attach-twice",prop="C12",edits=[(C,"""                        if !based {
                            f.write_str("zws")?;
                        }
                        write!(f, "{}(", child.as_token().unwrap().text())?;
                        first = false;
                        continue;""","""                        if !based {
                            f.write_str("zws")?;
                        }
                        write!(f, "{}(", child.as_token().unwrap().text())?;
                        first = false;
                        // the next one is the script
                        if let Some(next) = child.next_sibling_or_token() {
                            if next.kind() == LatexSyntaxKind::ItemFormula {
                                self.convert(f, next, spec)?;
                            }
                        }
                        continue;""")],
   rs=r'fn main() { let r = mitex::convert_math("a_$xyz$", None).unwrap(); println!("{r}"); assert_eq!(r.matches("x y z").count(), 1); }',needs="a formula as subscript",breaks="it is converted twice"),
 dict(id="b46-text-empty-optional",prop="C12",edits=[(C,"""                if matches!(kind, LatexSyntaxKind::ClauseArgument) {
                    f.write_char('[')?;
                    let prev_mode""","""                let optional = arg
                    .as_node()
                    .and_then(|n| n.first_child())
                    .is_some_and(|n| n.kind() == LatexSyntaxKind::ItemBracket);
                if matches!(kind, LatexSyntaxKind::ClauseArgument) && !optional {
                    f.write_char('[')?;
                    let prev_mode""")],
   rs=SPEC+r'''fn main() {
    let s = spec(&[("foo", cmd(Some("#foo"), ArgShape::Right { pattern: ArgPattern::Glob { pattern: "{,b}t".into() } }))]);
    let r = mitex::convert_text(r"\foo[opt]{x}", Some(s)).unwrap();
    println!("{r}");
    assert!(r.contains("opt"));
}''',needs="an optional argument of a command in text mode",breaks="it is dropped"),
]

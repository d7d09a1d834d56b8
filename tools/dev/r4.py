C="crates/mitex/src/converter.rs"
PP=["C11","C12","C01"]
REFACS=[
 dict(id="f1-try-for-each",props=PP,edits=[(C,"""        let prev = self.enter_mode(LaTeXMode::Math);
        for child in elem.as_node().unwrap().children_with_tokens() {
            self.convert(f, child, spec)?;
        }
        self.exit_mode(prev);""","""        let prev = self.enter_mode(LaTeXMode::Math);
        elem.as_node()
            .unwrap()
            .children_with_tokens()
            .try_for_each(|child| self.convert(f, child, spec))?;
        self.exit_mode(prev);"""),
 (C,"""                    for child in elem.as_node().unwrap().children_with_tokens() {
                        // skip \\begin and \\end commands
                        if matches!(
                            child.kind(),
                            LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
                        ) {
                            continue;
                        }
                        self.convert(f, child, spec)?;
                    }
                    f.write_str("];")?;""","""                    elem.as_node()
                        .unwrap()
                        .children_with_tokens()
                        .filter(|child| !matches!(child.kind(), LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd))
                        .try_for_each(|child| self.convert(f, child, spec))?;
                    f.write_str("];")?;""")]),
 dict(id="f2-names",props=PP,edits=[(C,"""        let env_shape = spec
            .get_env(name)
            .ok_or_else(|| format!("unknown environment: \\\\{}", name))?;
        let typst_name = env_shape.alias.as_deref().unwrap_or(name);
""","""        let Some(env_shape) = spec.get_env(name) else {
            return Err(format!("unknown environment: \\\\{}", name).into());
        };
        let typst_name = match &env_shape.alias {
            Some(alias) => alias.as_str(),
            None => name,
        };
"""),
 (C,"""        // get cmd_shape and arg_shape from spec
        let cmd_shape = spec
            .get_cmd(name)
            .ok_or_else(|| format!("unknown command: \\\\{}", name))?;
        let arg_shape = &cmd_shape.args;

        // typst alias name
        let mut typst_name = cmd_shape.alias.as_deref().unwrap_or(name);

        // hack for textbf and textit
        if matches!(self.mode, LaTeXMode::Text) {
            if name == "textbf" {
                typst_name = "#strong";
            } else if name == "textit" {
                typst_name = "#emph";
            }
        }
""","""        let (arg_shape, alias) = Self::look_up(name, spec)?;
        let typst_name = match (name, self.mode) {
            ("textbf", LaTeXMode::Text) => "#strong",
            ("textit", LaTeXMode::Text) => "#emph",
            _ => alias,
        };
"""),
 (C,"""        // get cmd_shape and arg_shape from spec
        let cmd_shape = spec
            .get_cmd(name)
            .ok_or_else(|| format!("unknown command: \\\\{}", name))?;
        // typst alias name
        let typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
        // write to output
        write!(f, "{}", typst_name)?;
        Ok(())
    }
""","""        f.write_str(Self::look_up(name, spec)?.1)?;
        Ok(())
    }

    fn look_up<'a>(name: &'a str, spec: &'a CommandSpec) -> Result<(&'a ArgShape, &'a str), ConvertError> {
        match spec.get_cmd(name) {
            Some(shape) => Ok((&shape.args, shape.alias.as_deref().unwrap_or(name))),
            None => Err(ConvertError::from(format!("unknown command: \\\\{}", name))),
        }
    }
""")]),
 dict(id="f3-greedy-peek",props=PP,edits=[(C,"""            // there is only one arg in greedy
            let args = args
                .first()
                .unwrap()
                .as_node()
                .unwrap()
                .children_with_tokens()
                .collect::<Vec<_>>();
            let mut cnt = 0;
            let args_len = args.len();
            for arg in args {
                cnt += 1;
                let kind = arg.kind();
                self.convert(f, arg, spec)?;
                if matches!(kind, LatexSyntaxKind::ItemCurly) && cnt != args_len {
                    f.write_char(',')?;
                }
            }
""","""            // there is only one arg in greedy
            let mut rest = args[0].as_node().unwrap().children_with_tokens().peekable();
            while let Some(arg) = rest.next() {
                let comma = arg.kind() == LatexSyntaxKind::ItemCurly && rest.peek().is_some();
                self.convert(f, arg, spec)?;
                if comma {
                    f.write_char(',')?;
                }
            }
""")]),
 dict(id="f4-text-args",props=PP,edits=[(C,"""            for arg in args {
                let kind = arg.kind();
                if matches!(kind, LatexSyntaxKind::ClauseArgument) {
                    f.write_char('[')?;
                    let prev_mode = self.enter_mode(LaTeXMode::Text);
                    self.convert(f, arg, spec)?;
                    self.exit_mode(prev_mode);
                    f.write_char(']')?;
                }
            }
""","""            for arg in cmd.arguments() {
                f.write_char('[')?;
                let prev_mode = self.enter_mode(LaTeXMode::Text);
                self.convert(f, LatexSyntaxElem::Node(arg), spec)?;
                self.exit_mode(prev_mode);
                f.write_char(']')?;
            }
""")]),
 dict(id="f5-figure",props=PP,edits=[(C,"""        for child in elem.as_node().unwrap().children_with_tokens() {
            // skip \\begin and \\end commands
            if matches!(
                child.kind(),
                LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
            ) || matches!(child.kind(), LatexSyntaxKind::ItemCmd) && is_named_arg(&child)
            {
                continue;
            }
            self.convert(f, child, spec)?;
        }
""","""        for child in elem.as_node().unwrap().children_with_tokens() {
            let skip = match child.kind() {
                LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd => true,
                LatexSyntaxKind::ItemCmd => is_named_arg(&child),
                _ => false,
            };
            if !skip {
                self.convert(f, child, spec)?;
            }
        }
""")]),
 dict(id="f6-collect-body",props=PP,edits=[(C,"""            for child in elem.as_node().unwrap().children_with_tokens() {
                // skip \\begin and \\end commands
                if matches!(
                    child.kind(),
                    LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
                ) {
                    continue;
                }
                self.convert(f, child, spec)?;
            }

            f.write_char(')')?;
""","""            let body: Vec<LatexSyntaxElem> = elem
                .as_node()
                .unwrap()
                .children_with_tokens()
                .filter(|c| c.kind() != LatexSyntaxKind::ItemBegin && c.kind() != LatexSyntaxKind::ItemEnd)
                .collect();
            for child in body {
                self.convert(f, child, spec)?;
            }

            f.write_char(')')?;
""")]),
 dict(id="f7-env-args",props=PP,edits=[(C,"""            for (index, arg) in args.enumerate() {
                f.write_str(format!("arg{}: ", index).as_str())?;
                self.convert(f, rowan::NodeOrToken::Node(arg), spec)?;
                f.write_char(',')?;
            }
""","""            let mut index = 0usize;
            for arg in args {
                write!(f, "arg{}: ", index)?;
                self.convert(f, arg.into(), spec)?;
                f.write_char(',')?;
                index += 1;
            }
""")]),
 dict(id="f8-index-loop",props=PP,edits=[(C,"""            let mut cnt = 0;
            let args_len = args.len();
            for arg in args {
                cnt += 1;
                let kind = arg.kind();
                self.convert(f, arg, spec)?;
                if matches!(kind, LatexSyntaxKind::ClauseArgument) && cnt != args_len {
                    f.write_char(',')?;
                }
            }
""","""            let last = args.len().saturating_sub(1);
            for (i, arg) in args.iter().enumerate() {
                self.convert(f, arg.clone(), spec)?;
                if arg.kind() == LatexSyntaxKind::ClauseArgument && i != last {
                    f.write_char(',')?;
                }
            }
""")]),
 dict(id="f9-clause-lr",props=PP,edits=[(C,"""        for arg in elem.as_node().unwrap().children_with_tokens().skip(1) {
            match arg {
                LatexSyntaxElem::Node(node) => {
                    self.convert(f, LatexSyntaxElem::Node(node), spec)?;
                }
                LatexSyntaxElem::Token(token) => match token.kind() {
                    LatexSyntaxKind::TokenWord if token.text() == "." => {}
                    _ => self.convert(f, rowan::NodeOrToken::Token(token), spec)?,
                },
            }
""","""        for arg in elem.as_node().unwrap().children_with_tokens() {
            if arg.kind() == LatexSyntaxKind::ClauseCommandName {
                continue;
            }
            let empty = arg
                .as_token()
                .is_some_and(|t| t.kind() == LatexSyntaxKind::TokenWord && t.text() == ".");
            if !empty {
                self.convert(f, arg, spec)?;
            }
""")]),
 dict(id="f10-spec-field",props=PP,edits=[(C,"""    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
    let node = do_parse(input, spec.clone());""","""    let spec = match spec {
        Some(own) => own,
        None => DEFAULT_SPEC.clone(),
    };
    let for_parser = spec.clone();
    let node = do_parse(input, for_parser);""")]),
 dict(id="f11-list-env",props=PP,edits=[(C,"""            for child in elem.as_node().unwrap().children_with_tokens() {
                if matches!(
                    child.kind(),
                    LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
                ) {
                    continue;
                }

                self.convert(f, child, spec)?;
            }

            self.exit_env(prev);

            return Ok(());""","""            let mut child = elem.as_node().unwrap().first_child_or_token();
            while let Some(c) = child {
                child = c.next_sibling_or_token();
                if !matches!(c.kind(), LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd) {
                    self.convert(f, c, spec)?;
                }
            }

            self.exit_env(prev);

            return Ok(());""")]),
]

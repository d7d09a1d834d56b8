C="crates/mitex/src/converter.rs"
PP=["C01","C02","C03","C07","C09"]
CH="elem.as_node().unwrap().children_with_tokens()"
REFACS=[
 # helper: converts all children but \begin and \end (a second recursive function)
 dict(id="r1-body",props=PP,edits=[(C,"""            let prev = self.enter_env(env_kind);

            for child in elem.as_node().unwrap().children_with_tokens() {
                if matches!(
                    child.kind(),
                    LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
                ) {
                    continue;
                }

                self.convert(f, child, spec)?;
            }

            self.exit_env(prev);

            return Ok(());""","""            let prev = self.enter_env(env_kind);
            self.convert_body(f, &elem, spec)?;
            self.exit_env(prev);

            return Ok(());"""),
 (C,"""            for child in elem.as_node().unwrap().children_with_tokens() {
                // skip \\begin and \\end commands
                if matches!(
                    child.kind(),
                    LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd
                ) {
                    continue;
                }
                self.convert(f, child, spec)?;
            }

            f.write_char(')')?;

            self.exit_env(prev);
""","""            self.convert_body(f, &elem, spec)?;

            f.write_char(')')?;

            self.exit_env(prev);
"""),
 (C,"""    /// Convert figure environment
""","""    fn convert_body(
        &mut self,
        f: &mut fmt::Formatter<'_>,
        elem: &LatexSyntaxElem,
        spec: &CommandSpec,
    ) -> Result<(), ConvertError> {
        let Some(node) = elem.as_node() else {
            return Ok(());
        };
        for child in node.children_with_tokens() {
            match child.kind() {
                LatexSyntaxKind::ItemBegin | LatexSyntaxKind::ItemEnd => {}
                _ => self.convert(f, child, spec)?,
            }
        }
        Ok(())
    }

    /// Convert figure environment
""")]),
 # a helper for all loops over children, taking the nodes
 dict(id="r2-children",props=PP,edits=[(C,"""                f.write_str("lr(")?;
                for child in elem.as_node().unwrap().children_with_tokens() {
                    self.convert(f, child, spec)?;
                }
                f.write_char(')')?;""","""                f.write_str("lr")?;
                f.write_str("(")?;
                self.convert_children(f, elem, spec)?;
                f.write_str(")")?;"""),
 (C,"""            ClauseArgument | ScopeRoot | ItemText | ItemBracket | ItemParen => {
                for child in elem.as_node().unwrap().children_with_tokens() {
                    self.convert(f, child, spec)?;
                }
            }""","""            ClauseArgument | ScopeRoot | ItemText | ItemBracket | ItemParen => {
                self.convert_children(f, elem, spec)?
            }"""),
 (C,"""        let prev = self.enter_mode(LaTeXMode::Math);
        for child in elem.as_node().unwrap().children_with_tokens() {
            self.convert(f, child, spec)?;
        }
        self.exit_mode(prev);""","""        let prev = self.enter_mode(LaTeXMode::Math);
        let res = self.convert_children(f, elem, spec);
        self.exit_mode(prev);
        res?;"""),
 (C,"""    /// Convert formula like""","""    fn convert_children(
        &mut self,
        f: &mut fmt::Formatter<'_>,
        elem: LatexSyntaxElem,
        spec: &CommandSpec,
    ) -> Result<(), ConvertError> {
        elem.as_node()
            .unwrap()
            .children_with_tokens()
            .try_for_each(|child| self.convert(f, child, spec))
    }

    /// Convert formula like""")]),
 # loops as while-let, match instead of ok_or_else, if let instead of unwrap
 dict(id="r3-style",props=PP,edits=[(C,"""        let cmd_shape = spec
            .get_cmd(name)
            .ok_or_else(|| format!("unknown command: \\\\{}", name))?;
        // typst alias name
        let typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
        // write to output
        write!(f, "{}", typst_name)?;
        Ok(())""","""        let Some(cmd_shape) = spec.get_cmd(name) else {
            return Err(format!("unknown command: \\\\{}", name).into());
        };
        // typst alias name
        let typst_name = match &cmd_shape.alias {
            Some(alias) => alias.as_str(),
            None => name,
        };
        // write to output
        f.write_str(typst_name)?;
        Ok(())"""),
 (C,"""            // there is only one arg in greedy
            let args = args
                .first()
                .unwrap()
                .as_node()
                .unwrap()
                .children_with_tokens()
                .collect::<Vec<_>>();
            let mut cnt = 0;
            let args_len = args.len();
            for arg in args {
                cnt += 1;
                let kind = arg.kind();
                self.convert(f, arg, spec)?;
                if matches!(kind, LatexSyntaxKind::ItemCurly) && cnt != args_len {
                    f.write_char(',')?;
                }
            }
""","""            // there is only one arg in greedy
            let arg = args.first().unwrap().as_node().unwrap();
            let mut children = arg.children_with_tokens().peekable();
            while let Some(child) = children.next() {
                let is_group = child.kind() == LatexSyntaxKind::ItemCurly;
                self.convert(f, child, spec)?;
                if is_group && children.peek().is_some() {
                    f.write_char(',')?;
                }
            }
"""),
 (C,"""                    for prev in text.chars() {
                        f.write_char(prev)?;
                        f.write_char(' ')?;
                    }""","""                    let mut chars = text.chars();
                    while let Some(c) = chars.next() {
                        write!(f, "{} ", c)?;
                    }"""),
 ]),
 # mode and env kept by closures
 dict(id="r4-within",props=PP,edits=[(C,"""            let prev = self.enter_mode(LaTeXMode::Text);
            self.convert(f, c, spec)?;
            self.exit_mode(prev);""","""            self.within(LaTeXMode::Text, |this| this.convert(f, c, spec))?;"""),
 (C,"""    #[must_use]
    fn enter_env""","""    fn within<T>(&mut self, mode: LaTeXMode, body: impl FnOnce(&mut Self) -> T) -> T {
        let prev = self.enter_mode(mode);
        let res = body(self);
        self.exit_mode(prev);
        res
    }

    #[must_use]
    fn enter_env"""),
 (C,"""        let prev = self.enter_mode(LaTeXMode::Math);
        for child in elem.as_node().unwrap().children_with_tokens() {
            self.convert(f, child, spec)?;
        }
        self.exit_mode(prev);
        if matches""","""        self.within(LaTeXMode::Math, |this| {
            for child in elem.as_node().unwrap().children_with_tokens() {
                this.convert(f, child, spec)?;
            }
            Ok::<_, ConvertError>(())
        })?;
        if matches"""),
 (C,"""        let prev = self.env;
        self.env = context;
        if matches!(self.env, LaTeXEnv::Itemize | LaTeXEnv::Enumerate) {
            self.indent += 2;
        }
        prev""","""        if let LaTeXEnv::Itemize | LaTeXEnv::Enumerate = context {
            self.indent += 2;
        }
        std::mem::replace(&mut self.env, context)""")]),
 # the table: state as enum, rules by helper
 dict(id="r5-table",props=PP,edits=[(C,"""                        match cmd_name {
                            "hline" => {
                                f.write_str("table.hline(stroke: .5pt),\\n")?;
                            }
                            "toprule" => {
                                f.write_str("table.hline(stroke: 1pt),\\n")?;
                            }
                            "midrule" => {
                                f.write_str("table.hline(stroke: .5pt),\\n")?;
                            }
                            "bottomrule" => {
                                f.write_str("table.hline(stroke: 1pt),\\n")?;
                            }
                            _ => {
                                // enter interior for normal commands
                                exterior = false;
                                f.write_char('[')?;
                            }
                        }""","""                        let stroke = match cmd_name {
                            "toprule" | "bottomrule" => Some("1pt"),
                            "hline" | "midrule" => Some(".5pt"),
                            _ => None,
                        };
                        if let Some(stroke) = stroke {
                            writeln!(f, "table.hline(stroke: {}),", stroke)?;
                        } else {
                            // enter interior for normal commands
                            exterior = false;
                            f.write_char('[')?;
                        }"""),
 (C,"""            if !exterior {
                match child.kind() {
                    LatexSyntaxKind::TokenAmpersand => {
                        // write `[],` when encountering &
                        f.write_str("], ")?;
                        exterior = true;
                    }
                    LatexSyntaxKind::ItemNewLine => {
                        // write `[],\\n` when encountering //
                        f.write_str("],\\n")?;
                        exterior = true;
                    }
                    _ => {
                        self.convert(f, child, spec)?;
                    }
                }
            }""","""            if exterior {
                continue;
            }
            let end = match child.kind() {
                LatexSyntaxKind::TokenAmpersand => "], ",
                LatexSyntaxKind::ItemNewLine => "],\\n",
                _ => {
                    self.convert(f, child, spec)?;
                    continue;
                }
            };
            f.write_str(end)?;
            exterior = true;"""),
 (C,"""        let mut alignments: Vec<char> = vec![];
        let mut vlines: Vec<usize> = vec![];
        let mut index = 0;
        for ch in arg.chars() {
            match ch {
                'l' | 'c' | 'r' => {
                    alignments.push(ch);
                    index += 1;
                }
                '|' => {
                    vlines.push(index);
                }""","""        let mut alignments: Vec<char> = vec![];
        let mut vlines: Vec<usize> = vec![];
        for ch in arg.chars() {
            match ch {
                'l' | 'c' | 'r' => alignments.push(ch),
                '|' => {
                    vlines.push(alignments.len());
                }""")]),
 # order of arms; formula by match on (mode, inline)
 dict(id="r6-formula",props=PP,edits=[(C,"""        if matches!(self.mode, LaTeXMode::Text) {
            if formula.is_inline() {
                f.write_str("#math.equation(block: false, $")?;
            } else {
                f.write_str("$ ")?;
            }
        }
        let prev""","""        let (open, close) = match (self.mode, formula.is_inline()) {
            (LaTeXMode::Math, _) => ("", ""),
            (LaTeXMode::Text, true) => ("#math.equation(block: false, $", "$);"),
            (LaTeXMode::Text, false) => ("$ ", " $"),
        };
        f.write_str(open)?;
        let prev"""),
 (C,"""        self.exit_mode(prev);
        if matches!(self.mode, LaTeXMode::Text) {
            if formula.is_inline() {
                f.write_str("$);")?;
            } else {
                f.write_str(" $")?;
            }
        }
        Ok(())""","""        self.exit_mode(prev);
        f.write_str(close)?;
        Ok(())"""),
 (C,"""        match elem.kind() {
            TokenWhiteSpace => {}
            _ => {
                self.skip_next_space = false;
            }
        }
""","""        if elem.kind() != TokenWhiteSpace {
            self.skip_next_space = false;
        }
"""),
 (C,"""                if self.skip_next_space {
                    self.skip_next_space = false;
                    return Ok(());
                }
                write!(f, "{}", elem.as_token().unwrap().text())?;
            }""","""                if !std::mem::take(&mut self.skip_next_space) {
                    f.write_str(elem.as_token().unwrap().text())?;
                }
            }""")]),
 # attach: position of the operator first; curly: any
 dict(id="r7-attach",props=PP,edits=[(C,"""                if first {
                    let kind = child.as_token().map(|n| n.kind());
                    // the underscore _ or caret ^ is the split point
                    if matches!(
                        kind,
                        Some(LatexSyntaxKind::TokenUnderscore | LatexSyntaxKind::TokenCaret)
                    ) {
                        if !based {
                            f.write_str("zws")?;
                        }
                        write!(f, "{}(", child.as_token().unwrap().text())?;
                        first = false;
                        continue;
                    } else if !matches!(kind, Some(LatexSyntaxKind::TokenWhiteSpace)) {
                        based = true;
                    }
                }
                self.convert(f, child, spec)?;""","""                match &child {
                    LatexSyntaxElem::Token(token)
                        if first
                            && (token.kind() == LatexSyntaxKind::TokenUnderscore
                                || token.kind() == LatexSyntaxKind::TokenCaret) =>
                    {
                        // the underscore _ or caret ^ is the split point
                        let base = if based { "" } else { "zws" };
                        write!(f, "{}{}(", base, token.text())?;
                        first = false;
                        continue;
                    }
                    LatexSyntaxElem::Token(token)
                        if token.kind() == LatexSyntaxKind::TokenWhiteSpace => {}
                    _ => based = true,
                }
                self.convert(f, child, spec)?;"""),
 (C,"""        let mut prev = LaTeXEnv::None;
        let mut enter_new_env = false;
        // hack for \\substack{abc \\\\ bcd}
        if matches!(self.mode, LaTeXMode::Math) && !matches!(self.env, LaTeXEnv::SubStack) {
            prev = self.enter_env(LaTeXEnv::MathCurlyGroup);
            enter_new_env = true;
        }""","""        // hack for \\substack{abc \\\\ bcd}
        let enter_new_env =
            matches!(self.mode, LaTeXMode::Math) && !matches!(self.env, LaTeXEnv::SubStack);
        let prev = enter_new_env.then(|| self.enter_env(LaTeXEnv::MathCurlyGroup));"""),
 (C,"""            if enter_new_env {
                self.exit_env(prev);
            }""","""            if let Some(prev) = prev {
                self.exit_env(prev);
            }""")]),
 # tokens by a table of escapes
 dict(id="r8-escapes",props=PP,edits=[(C,"""            TokenCaret => {
                f.write_str("\\\\^")?;
            }
            TokenUnderscore => {
                f.write_str("\\\\_")?;
            }
            TokenHash => {
                f.write_str("\\\\#")?;
            }
            TokenAsterisk => {
                f.write_str("\\\\*")?;
            }
            TokenAtSign => {
                f.write_str("\\\\@")?;
            }""","""            TokenCaret | TokenUnderscore | TokenHash | TokenAsterisk | TokenAtSign => {
                let c = match elem.kind() {
                    TokenCaret => '^',
                    TokenUnderscore => '_',
                    TokenHash => '#',
                    TokenAsterisk => '*',
                    _ => '@',
                };
                f.write_char('\\\\')?;
                f.write_char(c)?;
            }"""),
 (C,"""                for _ in 0..self.indent {
                    f.write_char(' ')?;
                }""","""                write!(f, "{}", " ".repeat(self.indent))?;""")]),
 # commands
 dict(id="r9-cmds",props=PP,edits=[(C,"""            f.write_char('\\n')?;
            for _ in 0..(self.indent - 2) {
                f.write_char(' ')?;
            }
            if matches!(self.env, LaTeXEnv::Itemize) {
                f.write_str("- ")?;
            } else {
                f.write_str("+ ")?;
            }
        } else {
            Err("item command outside of itemize or enumerate".to_owned())?;
        }
        Ok(())""","""            let mark = if let LaTeXEnv::Itemize = self.env { '-' } else { '+' };
            let depth = self.indent - 2;
            writeln!(f)?;
            write!(f, "{:depth$}{} ", "", mark)?;
            return Ok(());
        }
        Err("item command outside of itemize or enumerate".to_owned().into())"""),
 (C,"""        match self.env {
            LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
                if matches!(self.mode, LaTeXMode::Text) {
                    f.write_char('<')?;
                    f.write_str(label)?;
                    f.write_char('>')?;
                }
            }
            _ => {
                self.label = Some(label.to_string());
            }
        }
        Ok(())""","""        let here = matches!(
            self.env,
            LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate
        );
        if !here {
            self.label.replace(label.to_owned());
            return Ok(());
        }
        match self.mode {
            LaTeXMode::Math => Ok(()),
            LaTeXMode::Text => Ok(write!(f, "<{}>", label)?),
        }"""),
 (C,"""        for elem in body {
            if matches!(self.mode, LaTeXMode::Math) {
                f.write_char('$')?;
                self.convert(f, elem, spec)?;
                f.write_char('$')?;
            } else {
                self.convert(f, elem, spec)?;
            }
        }""","""        let dollar = if matches!(self.mode, LaTeXMode::Math) { "$" } else { "" };
        for elem in body.into_iter() {
            f.write_str(dollar)?;
            self.convert(f, elem, spec)?;
            f.write_str(dollar)?;
        }""")]),
]

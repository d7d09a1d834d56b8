M="crates/mitex-lexer/src/macro_engine.rs"
S="crates/mitex-lexer/src/stream.rs"
L="crates/mitex-lexer/src/lib.rs"
def r(id,*e): return dict(id=id,props=["C15"],edits=list(e))
REFACS=[
 r("k1-pass-helper",(M,'''                // Not yet implemented
                ctx.push_outer(token);
                ctx.next_token();
                None
            }
            Macro::Declare(AtEndOfClass''','''                // Not yet implemented
                Self::pass(ctx, token);
                None
            }
            Macro::Declare(AtEndOfClass'''),(M,'''                _ => {
                    ctx.push_outer(token);
                    ctx.next_token();
                }
            }
        }

        // Reverse''','''                _ => Self::pass(ctx, token),
            }
        }

        // Reverse'''),(M,'''    /// Skip tokens until a balanced \\fi
''','''    /// hands a token on
    fn pass(ctx: &mut StreamContext<'a>, token: Tok<'a>) {
        ctx.next_token();
        ctx.push_outer(token);
    }

    /// Skip tokens until a balanced \\fi
''')),
 r("k2-reload-helper",(M,'''                ctx.extend_inner(expanded.into_iter().rev());
                // We may consumed the last token in inner stream before, so we need to reload
                // it after extending
                if ctx.peek_inner.peeked.is_none() {
                    ctx.next_token();
                }

                None''','''                ctx.extend_inner(expanded.into_iter().rev());
                Self::reload(ctx);
                None'''),(M,'''    /// Skip tokens until a balanced \\fi
''','''    fn reload(ctx: &mut StreamContext<'a>) {
        // We may consumed the last token in inner stream before, so we need to reload
        // it after extending
        match ctx.peek_inner.peeked {
            Some(_) => {}
            None => ctx.next_token(),
        }
    }

    /// Skip tokens until a balanced \\fi
''')),
 r("k3-skip-loop",(M,'''        while let Some(kind) = ctx.peek() {
            match kind {
                Token::CommandName(CommandName::If(..)) => {
                    ctx.next_token();
                    nested += 1;
                }
                Token::CommandName(CommandName::Else) => {
                    if nested == 0 {
                        break;
                    }
                    // belongs to a nested \\if... that isn't finished yet
                    ctx.next_token();
                }
                Token::CommandName(CommandName::EndIf) => {
                    if nested == 0 {
                        break;
                    }
                    ctx.next_token();
                    nested -= 1;
                }
                _ => {
                    ctx.next_token();
                }
            }
        }''','''        loop {
            match ctx.peek() {
                None => return,
                Some(Token::CommandName(CommandName::Else | CommandName::EndIf)) if nested == 0 => return,
                Some(Token::CommandName(CommandName::EndIf)) => nested -= 1,
                Some(Token::CommandName(CommandName::If(..))) => nested += 1,
                Some(_) => {}
            }
            ctx.next_token();
        }''')),
 r("k4-do-bump-loop",(M,'''        while ctx.peek_outer.buf.len() < PEEK_CACHE_SIZE_M1 {
            let Some(token) = ctx.peek_full() else {
                break;
            };
''','''        loop {
            if ctx.peek_outer.buf.len() >= PEEK_CACHE_SIZE_M1 {
                break;
            }
            let token = match ctx.peek_full() {
                Some(token) => token,
                None => break,
            };
''')),
 r("k5-eat",(L,'''        let peeked = self.ctx.peek_outer.peeked.take()?;
        self.next();
        Some(peeked)''','''        let peeked = self.ctx.peek_outer.peeked;
        if peeked.is_some() {
            self.next();
        }
        peeked''')),
 r("k6-consume",(L,'''        let Some(peek_mut) = &mut self.ctx.peek_outer.peeked else {
            return;
        };
        if peek_mut.1.len() <= cnt {
            self.next();
        } else {
            peek_mut.1 = &peek_mut.1[cnt..];
        }''','''        match self.ctx.peek_outer.peeked {
            Some((kind, text)) if cnt < text.len() => {
                self.ctx.peek_outer.peeked = Some((kind, &text[cnt..]));
            }
            Some(_) => self.next(),
            None => {}
        }''')),
 r("k7-else",(M,'''            Some(IfState::False) => {
                self.reading_if.last_mut().unwrap().replace(IfState::True);
            }
''',''),(M,'''        let last_if = self.reading_if.last().cloned().unwrap_or(None);
        match last_if {''','''        let last_if = self.reading_if.last().copied().flatten();
        match last_if {
            Some(IfState::False) => *self.reading_if.last_mut().unwrap() = Some(IfState::True),''')),
 r("k8-next-token",(S,'''        let peeked = self
            .peek_inner
            .buf
            .pop()
            .or_else(|| Self::lex_one(&mut self.inner));
        self.peek_inner.peeked = peeked;''','''        self.peek_inner.peeked = match self.peek_inner.buf.pop() {
            Some(token) => Some(token),
            None => Self::lex_one(&mut self.inner),
        };''')),
 r("k9-extend",(S,'''        let peeking = if let Some(peeked) = self.peeked {
            self.buf.push(peeked);
            true
        } else {
            false
        };

        self.buf.extend(peeked);

        // Pop the first token again
        if peeking {
            self.peeked = self.buf.pop();
        }''','''        match self.peeked {
            Some(front) => {
                self.buf.push(front);
                self.buf.extend(peeked);
                self.peeked = self.buf.pop();
            }
            None => self.buf.extend(peeked),
        }''')),
 r("k10-env-body",(M,'''            if e.0 == Token::CommandName(CommandName::EndEnvironment) {
                if bc == 0 {
                    if e.1 != name {
                        ctx.push_outer((Token::Error, "unmatched environment"));
                        return None;
                    }

                    ctx.next_token();
                    break;
                } else {
                    body.push(e);
                    bc -= 1;
                }
            } else if e.0 == Token::CommandName(CommandName::BeginEnvironment) {
                body.push(e);
                bc += 1;
            } else {
                body.push(e);
            }
            ctx.next_token();
        }

        if bc != 0 {
            ctx.push_outer((Token::Error, "invalid environment"));
            return None;
        }

        Some(body)''','''            match e.0 {
                Token::CommandName(CommandName::EndEnvironment) if bc == 0 => {
                    if e.1 == name {
                        ctx.next_token();
                        return Some(body);
                    }
                    ctx.push_outer((Token::Error, "unmatched environment"));
                    return None;
                }
                Token::CommandName(CommandName::EndEnvironment) => bc -= 1,
                Token::CommandName(CommandName::BeginEnvironment) => bc += 1,
                _ => {}
            }
            ctx.next_token();
            body.push(e);
        }''')),
 r("k11-update",(M,'''                match action {
                    UpdateAction::New => {
                        if self.get_macro(name).is_some() {
                            ctx.push_outer((Token::Error, name));
                        }

                        self.add_macro(name, m);
                    }
                    UpdateAction::Renew => {
                        if self.get_macro(name).is_none() {
                            ctx.push_outer((Token::Error, name));
                        }

                        self.add_macro(name, m);
                    }
                    UpdateAction::Provide => {
                        if self.get_macro(name).is_none() {
                            self.add_macro(name, m);
                        }
                    }
                }
''','''                let known = self.macros.get(name).is_some();
                let wrong = match action {
                    UpdateAction::New => known,
                    UpdateAction::Renew => !known,
                    UpdateAction::Provide => false,
                };
                if wrong {
                    ctx.push_outer((Token::Error, name));
                }
                if !known || !matches!(action, UpdateAction::Provide) {
                    self.add_macro(name, m);
                }
''')),
 r("k12-args",(M,'''                    let t = ctx.peek_full().unwrap().1;
                    let mut split_cnt = 0;
                    for c in t.chars() {
                        args.push(vec![(Token::Word, &t[split_cnt..split_cnt + c.len_utf8()])]);
                        split_cnt += c.len_utf8();
                        num_of_read += 1;''','''                    let (_, t) = ctx.peek_full().unwrap();
                    let mut split_cnt = 0;
                    for c in t.chars() {
                        let start = split_cnt;
                        split_cnt += c.len_utf8();
                        let arg = (Token::Word, &t[start..split_cnt]);
                        num_of_read += 1;
                        args.push(vec![arg]);''')),
 r("k13-args-cond",(M,'''        if num_of_read != num_args {
            let mut ok = false;
            if num_args - num_of_read == 1 {
                if let Some(opt) = opt {
                    args.push(opt);
                    ok = true;
                }
            }

            if !ok {
                ctx.push_outer((Token::Error, "invalid number of arguments"));
                return None;
            }
        }

        Some(args)''','''        if num_of_read == num_args {
            return Some(args);
        }
        match opt {
            Some(opt) if num_of_read + 1 == num_args => {
                args.push(opt);
                Some(args)
            }
            _ => {
                ctx.push_outer((Token::Error, "invalid number of arguments"));
                None
            }
        }''')),
 r("k14-env-expand",(M,'''                ctx.extend_inner(
                    expanded_end
                        .into_iter()
                        .rev()
                        .chain(body.into_iter().rev())
                        .chain(expanded_begin.into_iter().rev()),
                );
''','''                let mut all = expanded_begin;
                all.extend(body);
                all.extend(expanded_end);
                ctx.extend_inner(all.into_iter().rev());
''')),
 r("k15-bump",(S,'''        self.buf.extend(peeked.take(PEEK_CACHE_SIZE));
        // Reverse the peek cache to make it a stack
        self.buf.reverse();
        // Pop the first token again
        self.peeked = self.buf.pop();''','''        let mut page: Vec<Tok<'a>> = peeked.take(PEEK_CACHE_SIZE).collect();
        page.reverse();
        self.buf = page;
        self.peeked = self.buf.pop();''')),
]

P="crates/mitex-parser/src/parser.rs"
A="crates/mitex-parser/src/arg_match.rs"
PP=["C04","C05","C06"]
REFACS=[
 # helper extracted: closing the env
 dict(id="r1-env-end",props=PP,edits=[(P,"        if self.peek() == Some(Token::CommandName(CommandName::EndEnvironment)) {\n            self.builder.start_node(ItemEnd.into());\n            self.eat();\n            self.builder.finish_node();\n        }\n\n        self.builder.finish_node();\n    }",
 "        self.environment_end();\n        self.builder.finish_node();\n    }\n\n    fn environment_end(&mut self) {\n        let end = Token::CommandName(CommandName::EndEnvironment);\n        if self.peek() != Some(end) {\n            return;\n        }\n        self.builder.start_node(ItemEnd.into());\n        self.eat();\n        self.builder.finish_node();\n    }")]),
 # loop rewritten
 dict(id="r2-loops",props=PP,edits=[(P,"        while self.peek().as_ref().is_some_and(Token::is_trivia) {\n            self.eat();\n        }","        loop {\n            match self.peek() {\n                Some(kind) if kind.is_trivia() => self.eat(),\n                _ => break,\n            }\n        }"),
  (P,"        for (kind, text) in self.trivia_buffer.drain(..) {\n            let kind: SyntaxKind = kind.into();\n            self.builder.token(kind.into(), text);\n        }","        let held = std::mem::take(&mut self.trivia_buffer);\n        for (kind, text) in held {\n            self.builder.token(SyntaxKind::from(kind).into(), text);\n        }"),
  (P,"        while let Some(kind) = self.peek() {\n            match kind {\n                Token::CommandName(CommandName::If(..)) => {\n                    // todo: nest","        loop {\n            let Some(kind) = self.peek() else {\n                break;\n            };\n            match kind {\n                Token::CommandName(CommandName::If(..)) => {\n                    // todo: nest")]),
 # saved state in a closure helper
 dict(id="r3-with-state",props=PP,edits=[(P,"            let list_state = self.list_state;\n            self.list_state.may_store_start(None);\n            self.list_state.may_store_last(None);\n            self.content(false);\n            self.list_state = list_state;","            self.with_empty_state(|this| {\n                this.content(false);\n            });"),
  (P,"    /// Clause parsers\n    /// Parse a left or right delimiter","    fn with_empty_state(&mut self, f: impl FnOnce(&mut Self)) {\n        let list_state = self.list_state;\n        self.list_state.may_store_last(None);\n        self.list_state.may_store_start(None);\n        f(self);\n        self.list_state = list_state;\n    }\n\n    /// Clause parsers\n    /// Parse a left or right delimiter")]),
 # command split up into methods
 dict(id="r4-command",props=PP,edits=[(P,"        self.eat();\n\n        if is_greedy {\n            self.builder.start_node(ClauseArgument.into());\n            self.match_arguments::<true>(searcher);\n            self.builder.finish_node();\n        } else {\n            self.match_arguments::<false>(searcher);\n        }\n\n        self.builder.finish_node();\n\n        self.extract_holding_trivia();\n\n        !is_greedy\n    }",
 "        self.eat();\n\n        self.arguments(is_greedy, searcher);\n\n        self.builder.finish_node();\n\n        self.extract_holding_trivia();\n\n        !is_greedy\n    }\n\n    fn arguments(&mut self, greedy: bool, searcher: ArgMatcher) {\n        if !greedy {\n            self.match_arguments::<false>(searcher);\n            return;\n        }\n        self.builder.start_node(ClauseArgument.into());\n        self.match_arguments::<true>(searcher);\n        self.builder.finish_node();\n    }"),
  (P,"            match searcher {\n                Some(searcher) if searcher.is_greedy() => {\n                    self.builder.start_node(ClauseArgument.into());\n                    self.match_arguments::<true>(searcher);\n                    self.builder.finish_node();\n                }\n                Some(searcher) => self.match_arguments::<false>(searcher),\n                None => {}\n            }","            if let Some(searcher) = searcher {\n                self.arguments(searcher.is_greedy(), searcher);\n            }")]),
 # eat split into take and put; the word loop with char_indices
 dict(id="r5-word",props=PP,edits=[(P,"                    let mut split_cnt = 0usize;\n                    for c in self.lexer.peek_text().unwrap().chars() {\n                        if !searcher.try_match(ARGUMENT_KIND_TERM) {\n                            if split_cnt > 0 {\n                                self.lexer.consume_utf8_bytes(split_cnt);\n                            }\n                            return;\n                        }\n                        split_cnt += c.len_utf8();\n\n                        arg::<GREEDY, _, _>(self, |this| {\n                            this.builder.token(TokenWord.into(), &c.to_string())\n                        });\n                    }\n",
  "                    let mut split_cnt = 0usize;\n                    let mut stopped = false;\n                    for c in self.lexer.peek_text().unwrap().chars() {\n                        if !searcher.try_match(ARGUMENT_KIND_TERM) {\n                            stopped = true;\n                            break;\n                        }\n                        let text = c.to_string();\n                        arg::<GREEDY, _, _>(self, |this| this.builder.token(TokenWord.into(), &text));\n                        split_cnt += c.len_utf8();\n                    }\n                    if stopped {\n                        if split_cnt > 0 {\n                            self.lexer.consume_utf8_bytes(split_cnt);\n                        }\n                        return;\n                    }\n"),
  (P,"        let (kind, text) = self.lexer.eat().unwrap();\n        let kind: SyntaxKind = kind.into();\n        self.builder.token(kind.into(), text);\n    }\n\n    /// Lexer Interface\n    /// Drop","        let tok = self.lexer.eat().unwrap();\n        self.put(tok);\n    }\n\n    fn put(&mut self, (kind, text): (Token, &'a str)) {\n        let kind: SyntaxKind = kind.into();\n        self.builder.token(kind.into(), text);\n    }\n\n    /// Lexer Interface\n    /// Drop")]),
 # item_list: for-like; stop computed before; state swapped with mem::replace
 dict(id="r6-list",props=PP,edits=[(P,"        let parent_state = self.list_state;\n\n        let mut current = self.builder.checkpoint();\n        self.list_state = ListState::new(scope);\n        self.list_state.store_start(current);\n\n        while self.peek().is_some_and(|kind| !self.stop_by_scope(kind)) {\n            let attachable = self.content(true);\n\n            // If the item is not attachable, then we should\n            // not update the `list_last` state\n            if attachable {\n                self.list_state.store_last(current);\n            }\n            current = self.builder.checkpoint();\n        }\n\n        self.list_state = parent_state;",
  "        let first = self.builder.checkpoint();\n        let mut state = ListState::new(scope);\n        state.store_start(first);\n        let parent_state = std::mem::replace(&mut self.list_state, state);\n\n        let mut current = first;\n        while let Some(kind) = self.peek() {\n            if self.stop_by_scope(kind) {\n                break;\n            }\n            if self.content(true) {\n                self.list_state.store_last(current);\n            }\n            current = self.builder.checkpoint();\n        }\n\n        self.list_state = parent_state;")]),
 # content: the arms that make an error node are one function; if-chain in front
 dict(id="r7-content",props=PP,edits=[(P,"            Token::Right(BraceKind::Curly) | Token::MacroArg(_) => {\n                self.builder.start_node(TokenError.into());\n                self.eat();\n                self.builder.finish_node();\n            }","            Token::Right(BraceKind::Curly) | Token::MacroArg(_) => self.wrong_token(),"),
  (P,"                CommandName::EndEnvironment | CommandName::EndMath => {\n                    self.builder.start_node(TokenError.into());\n                    self.eat();\n                    self.builder.finish_node();\n                }","                CommandName::EndEnvironment | CommandName::EndMath => self.wrong_token(),"),
  (P,"    /// Item parsers\n    /// Parse a text item","    fn wrong_token(&mut self) {\n        self.builder.start_node(TokenError.into());\n        self.eat();\n        self.builder.finish_node();\n    }\n\n    /// Item parsers\n    /// Parse a text item"),
  (P,"        let Some(c) = self.peek() else {\n            return true;\n        };\n        match c {\n            Token::Ampersand","        let c = match self.peek() {\n            Some(c) => c,\n            None => return true,\n        };\n        if let Token::Tilde | Token::Slash = c {\n            self.eat();\n            return true;\n        }\n        match c {\n            Token::Ampersand")]),
 # nested counter counts the other way round, recursion instead of a counter
 dict(id="r8-ifs-recursive",props=PP,edits=[(P,"        let mut nested = 0;\n        while let Some(kind) = self.peek() {\n            match kind {\n                Token::CommandName(CommandName::If(..)) => {\n                    // todo: nest block comment\n                    // self.block_comment();\n                    self.eat();\n                    nested += 1;\n                }\n                Token::CommandName(CommandName::EndIf) => {\n                    if nested == 0 {\n                        self.drop();\n                        break;\n                    }\n                    self.eat();\n                    nested -= 1;\n                }\n                _ => {\n                    self.eat();\n                }\n            }\n        }","        let mut open = 1usize;\n        while let Some(kind) = self.peek() {\n            match kind {\n                Token::CommandName(CommandName::EndIf) if open == 1 => {\n                    self.drop();\n                    return;\n                }\n                Token::CommandName(CommandName::EndIf) => open -= 1,\n                Token::CommandName(CommandName::If(..)) => open += 1,\n                _ => {}\n            }\n            self.eat();\n        }")]),
 # arguments: the holding trivia are put in the caller
 dict(id="r9-argmatch",props=PP,edits=[(P,"        self.list_state.may_store_last(None);\n        let last = self.list_last();\n        let start = self.list_start();\n        self.list_state\n            .may_store_start(GREEDY.then(|| self.builder.checkpoint()));\n\n        self.match_arguments_::<GREEDY>(searcher);\n\n        self.list_state.may_store_start(start);\n        self.list_state.may_store_last(last);","        let start = self.list_start();\n        let begin = if GREEDY {\n            Some(self.builder.checkpoint())\n        } else {\n            None\n        };\n        self.list_state.may_store_start(begin);\n        self.list_state.may_store_last(None);\n        self.match_arguments_::<GREEDY>(searcher);\n        self.list_state.may_store_last(None);\n        self.list_state.may_store_start(start);")]),
]

M="crates/mitex-lexer/src/macro_engine.rs"
S="crates/mitex-lexer/src/stream.rs"
L="crates/mitex-lexer/src/lib.rs"
def rs(checks): return 'fn t(s: &str) -> String { mitex::convert_math(s, None).unwrap_or_else(|e| format!("E {e}")) }\nfn main() { '+checks+' }'
SEEDS=[
 dict(id="b61-page-end",prop="C15",edits=[(M,'''        while ctx.peek_outer.buf.len() < PEEK_CACHE_SIZE_M1 {
            let Some(token) = ctx.peek_full() else {
                break;
            };
''','''        while let Some(token) = ctx.peek_full() {
            if ctx.peek_outer.buf.len() >= PEEK_CACHE_SIZE_M1 {
                ctx.next_token();
                break;
            }
''')],
   rs=rs(r'''let a = "a;,".repeat(2000); let r = t(&a); let n = r.matches('a').count(); println!("{n}"); assert_eq!(n, 2000);'''),needs="an input longer than a page of the look-ahead",breaks="a token is lost where each page ends"),
 dict(id="b62-provide",prop="C15",edits=[(M,'''                        if self.get_macro(name).is_none() {
                            self.add_macro(name, m);
                        }''','''                        if !matches!(self.get_macro(name), Some(Macro::Cmd(_))) || matches!(&m, Macro::Cmd(c) if c.num_args > 0) {
                            self.add_macro(name, m);
                        }''')],
   rs=rs(r'''let r = t(r"\newcommand{\foo}[1]{x#1}\providecommand{\foo}[1]{y#1}\foo{z}"); println!("{r}"); assert!(r.contains("x") && !r.contains("y"));'''),needs="providecommand with parameters for a name that is defined already",breaks="the definition is replaced"),
 dict(id="b63-skip-nested",prop="C15",edits=[(M,'''                Token::CommandName(CommandName::If(..)) => {
                    ctx.next_token();
                    nested += 1;
                }''','''                Token::CommandName(CommandName::If(
                    IfCommandName::IfTrue | IfCommandName::IfFalse | IfCommandName::IfTypst,
                )) => {
                    ctx.next_token();
                    nested += 1;
                }''')],
   rs=rs(r'''let r = t(r"\iftrue a \else b \ifnum c \fi d \fi e"); println!("{r}"); assert!(r.contains("a") && r.contains("e") && !r.contains("d"));'''),needs="a conditional of another kind within a part that is skipped",breaks="the part ends too early"),
 dict(id="b66-consume-rest",prop="C15",edits=[(L,'''        if peek_mut.1.len() <= cnt {''','''        if peek_mut.1.len() <= cnt || !peek_mut.1.is_char_boundary(cnt + 1) {''')],
   rs=rs(r'''let r = t("\\sqrt a\u{e9}b"); println!("{r}"); assert!(r.contains('b'));'''),needs="a word of which only the first character is an argument, followed by one of several bytes",breaks="the rest of the word is lost"),
 dict(id="b67-define-env-kind",prop="C15",edits=[(M,'''        let cmd_is_env = matches!(m, Macro::Env(_));
        if is_env != cmd_is_env {''','''        let cmd_is_env = matches!(m, Macro::Env(_));
        if is_env && !cmd_is_env && !matches!(m, Macro::Cmd(c) if c.num_args > 0) {''')],
   rs=rs(r'''let a = t(r"\newcommand{\matrix}[1]{<#1>}\begin{matrix}a&b\end{matrix}"); println!("{a}"); assert!(a.contains("matrix("));'''),needs="a command with parameters that has the name of an environment",breaks="the beginning of the environment is taken for the command"),
 dict(id="b68-typst-else",prop="C15",edits=[(M,'''                self.reading_if
                    .last_mut()
                    .unwrap()
                    .replace(IfState::TypstFalse);
                self.skip_false_tokens(ctx);''','''                if self.reading_if.len() == 1 {
                    self.skip_false_tokens(ctx);
                }
                self.reading_if
                    .last_mut()
                    .unwrap()
                    .replace(IfState::TypstFalse);''')],
   rs=rs(r'''let r = t(r"\iftrue \iftypst a \else b \fi \fi c"); println!("{r}"); assert!(!r.contains('b') && r.contains('c'));'''),needs="an \\iftypst ... \\else within another conditional",breaks="both parts are kept"),
 dict(id="b70-renew",prop="C15",edits=[(M,'''                        if self.get_macro(name).is_none() {
                            ctx.push_outer((Token::Error, name));
                        }

                        self.add_macro(name, m);
                    }
                    UpdateAction::Provide''','''                        if self.get_macro(name).is_none() {
                            ctx.push_outer((Token::Error, name));
                        } else {
                            self.add_macro(name, m);
                        }
                    }
                    UpdateAction::Provide''')],
   rs=rs(r'''let l = mitex_lexer::Lexer::new_with_bumper(r"\renewcommand{\foo}{x}\foo", mitex_spec_gen::DEFAULT_SPEC.clone(), mitex_lexer::MacroEngine::new(mitex_spec_gen::DEFAULT_SPEC.clone())); let mut l = l; let mut v = vec![]; while let Some((_, t)) = l.eat() { v.push(t); } println!("{v:?}"); assert!(v.contains(&"x"));'''),needs="a renewed command that was not defined before",breaks="the definition is dropped"),
 dict(id="b73-body-depth",prop="C15",edits=[(M,'''                } else {
                    body.push(e);
                    bc -= 1;
                }''','''                } else {
                    body.push(e);
                    if e.1 != name {
                        bc -= 1;
                    }
                }''')],
   rs=rs(r'''let r = t(r"\newenvironment{f}{p}{q}\begin{f}\begin{f}x\end{f}\end{f}y"); println!("{r}"); assert!(r.contains('y') && r.matches('q').count() == 2);'''),needs="an environment nested in one of the same name",breaks="the end is not found"),
 dict(id="b74-arg-index",prop="C15",edits=[(M,'''if let Some(arg) = args.get(num as usize - 1) {''','''if let Some(arg) = args.get((num as usize - 1).min(7)) {''')],
   rs=rs(r'''let r = t(r"\newcommand{\foo}[9]{<#9>}\foo abcdefghi"); println!("{r}"); assert!(r.contains('i'));'''),needs="a ninth parameter",breaks="it is replaced by the eighth argument"),
 dict(id="b75-star-env",prop="C15",edits=[(M,'''                if *renew {
                    UpdateAction::Renew
                } else {
                    UpdateAction::New
                }
            }
        };

        let def =''','''                if *renew && num_args > 0 {
                    UpdateAction::Renew
                } else {
                    UpdateAction::New
                }
            }
        };

        let def =''')],
   rs=rs(r'''let f = |s: &'static str| { let mut l = mitex_lexer::Lexer::new_with_bumper(s, mitex_spec_gen::DEFAULT_SPEC.clone(), mitex_lexer::MacroEngine::new(mitex_spec_gen::DEFAULT_SPEC.clone())); let mut v = vec![]; while let Some((k, t)) = l.eat() { v.push((k, t)); } v }; let v = f(r"\newenvironment{f}{p}{q}\renewenvironment{f}{r}{s}\begin{f}x\end{f}"); println!("{v:?}"); assert!(!v.iter().any(|e| e.0 == mitex_lexer::Token::Error));'''),needs="an environment without parameters that is renewed",breaks="it is reported as defined twice"),

 dict(id="b64-env-order",prop="C15",edits=[(M,'''                ctx.extend_inner(
                    expanded_end
                        .into_iter()
                        .rev()
                        .chain(body.into_iter().rev())
                        .chain(expanded_begin.into_iter().rev()),''','''                let (second, first) = if args.len() > 1 {
                    (expanded_begin, body)
                } else {
                    (body, expanded_begin)
                };
                ctx.extend_inner(
                    expanded_end
                        .into_iter()
                        .rev()
                        .chain(second.into_iter().rev())
                        .chain(first.into_iter().rev()),''')],
   rs=rs(r'''let r = t(r"\newenvironment{f}[2]{p}{q}\begin{f}{1}{2}x\end{f}"); println!("{r}"); let (p, x, q) = (r.find('p'), r.find('x'), r.find('q')); assert!(p < x && x < q && p.is_some());'''),needs="an environment with two parameters",breaks="the text of its beginning comes after its body"),
 dict(id="b65-reload",prop="C15",edits=[(M,'''                ctx.extend_inner(expanded.into_iter().rev());
                // We may consumed the last token in inner stream before, so we need to reload
                // it after extending
                if ctx.peek_inner.peeked.is_none() {''','''                ctx.extend_inner(expanded.into_iter().rev());
                // We may consumed the last token in inner stream before, so we need to reload
                // it after extending
                if ctx.peek_inner.peeked.is_none() && cmd.opt.is_none() {''')],
   rs=rs(r'''let r = t(r"\newcommand{\foo}[1][z]{x#1}\foo"); println!("{r}"); assert!(r.contains('x') && r.contains('z'));'''),needs="a command with an optional argument at the very end of the text",breaks="its expansion is lost"),
 dict(id="b71-extend-front",prop="C15",edits=[(S,'''            self.buf.push(peeked);
            true''','''            if self.buf.len() < 64 {
                self.buf.push(peeked);
            }
            true''')],
   rs=rs(r'''let s = format!(r"\newcommand{{\foo}}{{x}}\newcommand{{\bar}}{{\foo;y{}}}\bar", ";a".repeat(40)); let r = t(&s); println!("{r}"); assert!(r.contains('y') && r.matches(';').count() == 41 && r.matches('a').count() == 40);'''),needs="an expansion while more than 64 tokens are held back",breaks="the token after the macro is lost"),
 dict(id="b72-args-word",prop="C15",edits=[(M,'''                    if split_cnt < t.len() {
                        ctx.peek_inner''','''                    if split_cnt < t.len() && t[split_cnt..].is_ascii() {
                        ctx.peek_inner''')],
   rs=rs(r'''let r = t("\\newcommand{\\foo}[1]{<#1>}\\foo ab\u{e9}c"); println!("{r}"); assert!(r.contains('c'));'''),needs="an argument that is the first character of a word with characters outside of ASCII",breaks="the rest of the word is lost"),
 dict(id="b76-args-count",prop="C15",edits=[(M,'''                    if split_cnt < t.len() {
                        ctx.peek_inner''','''                    if num_of_read == 1 && num_args == 2 && !t.is_ascii() {
                        num_of_read += 1;
                    }
                    if split_cnt < t.len() {
                        ctx.peek_inner''')],
   rs=rs(r'''let r = t("\\newcommand{\\foo}[2]{<#1,#2>}\\foo \u{e9} b"); println!("{r}"); assert!(r.contains("b >") || r.contains("b  >"));'''),needs="two arguments the first of which is a single character outside of ASCII",breaks="the second one is not read"),
]

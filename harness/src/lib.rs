//! Roots of the analysis: every function here only calls one public entry point.
#![allow(missing_docs)]
#![feature(try_trait_v2)]

pub fn root_convert_text(s: &str, spec: Option<mitex::CommandSpec>) -> Result<String, String> {
    mitex::convert_text(s, spec)
}
pub fn root_convert_math(s: &str, spec: Option<mitex::CommandSpec>) -> Result<String, String> {
    mitex::convert_math(s, spec)
}
pub fn root_parse(s: &str, spec: mitex_spec::CommandSpec) -> mitex_parser::syntax::SyntaxNode {
    mitex_parser::parse(s, spec)
}
pub fn root_parse_without_macro(s: &str, spec: mitex_spec::CommandSpec) -> mitex_parser::syntax::SyntaxNode {
    mitex_parser::parse_without_macro(s, spec)
}
/// used by the engine in place of the consumers of iterators
pub fn drain<I: Iterator>(mut it: I) {
    while it.next().is_some() {}
}

pub fn run_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x)
    }
}
pub fn run_fold<I: Iterator, A, F: FnMut(A, I::Item) -> A>(mut it: I, init: A, mut f: F) -> A {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn run_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: std::ops::Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        f(x)?;
    }
    R::from_output(())
}
pub fn run_try_fold<I: Iterator, A, F: FnMut(A, I::Item) -> R, R: std::ops::Try<Output = A>>(it: &mut I, init: A, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x)?;
    }
    R::from_output(acc)
}
pub fn run_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn run_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn run_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if f(&x) {
            return Some(x);
        }
    }
    None
}
pub fn run_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(r) = f(x) {
            return Some(r);
        }
    }
    None
}

/// what the public API says about a syntax element
pub fn probe_kind(e: &mitex_parser::syntax::SyntaxElement) -> mitex_parser::syntax::SyntaxKind {
    e.kind()
}
pub fn probe_leaf_kind(t: &mitex_parser::syntax::SyntaxToken) -> mitex_parser::syntax::SyntaxKind {
    t.kind()
}
pub fn probe_cmd_name(e: &mitex_parser::syntax::SyntaxElement) -> Option<mitex_parser::syntax::SyntaxToken> {
    use rowan::ast::AstNode;
    mitex_parser::syntax::CmdItem::cast(e.as_node()?.clone())?.name_tok()
}
pub fn probe_env_name(e: &mitex_parser::syntax::SyntaxElement) -> Option<mitex_parser::syntax::SyntaxToken> {
    use rowan::ast::AstNode;
    mitex_parser::syntax::EnvItem::cast(e.as_node()?.clone())?.name_tok()
}
/// the type of what the lexer hands out
pub fn probe_tok<'a>(l: &mut mitex_lexer::Lexer<'a>) -> Option<(mitex_lexer::Token, &'a str)> {
    l.eat()
}
/// does the command take all that follows it as its argument?
pub fn probe_greedy(s: Option<&mitex_spec::CmdShape>) -> bool {
    use mitex_spec::{ArgPattern, ArgShape};
    matches!(s, Some(mitex_spec::CmdShape { args: ArgShape::Right { pattern: ArgPattern::Greedy }, .. }))
}
/// does the command take no arguments at all?
pub fn probe_no_args(s: Option<&mitex_spec::CmdShape>) -> bool {
    use mitex_spec::{ArgPattern, ArgShape};
    matches!(s, Some(mitex_spec::CmdShape { args: ArgShape::Right { pattern: ArgPattern::None | ArgPattern::FixedLenTerm { len: 0 } }, .. }))
}
/// does the environment become a function of math?
pub fn probe_math_env(s: Option<&mitex_spec::EnvShape>) -> bool {
    use mitex_spec::ContextFeature::*;
    matches!(s, Some(s) if matches!(s.ctx_feature, IsMath | IsMatrix | IsCases))
}
/// does the environment become a list?
pub fn probe_list_env(s: Option<&mitex_spec::EnvShape>) -> bool {
    use mitex_spec::ContextFeature::*;
    matches!(s, Some(s) if matches!(s.ctx_feature, IsItemize | IsEnumerate))
}
/// what the parser asks of the lexer
pub fn probe_eat<'a>(l: &mut mitex_lexer::Lexer<'a>) -> Option<(mitex_lexer::Token, &'a str)> {
    l.eat()
}
pub fn probe_eat_macro<'a>(l: &mut mitex_lexer::Lexer<'a, mitex_lexer::MacroEngine<'a>>) -> Option<(mitex_lexer::Token, &'a str)> {
    l.eat()
}
pub fn probe_consume(l: &mut mitex_lexer::Lexer<'_>, n: usize) {
    l.consume_utf8_bytes(n)
}
pub fn probe_consume_macro<'a>(l: &mut mitex_lexer::Lexer<'a, mitex_lexer::MacroEngine<'a>>, n: usize) {
    l.consume_utf8_bytes(n)
}
pub fn probe_peek(l: &mut mitex_lexer::Lexer<'_>) -> Option<mitex_lexer::Token> {
    l.peek()
}
pub fn probe_peek_macro<'a>(l: &mut mitex_lexer::Lexer<'a, mitex_lexer::MacroEngine<'a>>) -> Option<mitex_lexer::Token> {
    l.peek()
}
pub fn probe_peek_text<'a>(l: &mut mitex_lexer::Lexer<'a>) -> Option<&'a str> {
    l.peek_text()
}
pub fn probe_peek_text_macro<'a>(l: &mut mitex_lexer::Lexer<'a, mitex_lexer::MacroEngine<'a>>) -> Option<&'a str> {
    l.peek_text()
}

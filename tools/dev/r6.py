T="crates/mitex-lexer/src/token.rs"; P=["C14"]
REFACS=[
 dict(id="h1-one-brace-callback",props=P,edits=[(T,'''    #[token("{", bc)]
    #[token("[", bb)]
    #[token("(", bp)]
    Left(''','''    #[regex(r"[\\{\\[\\(]", brace)]
    Left('''),(T,'''    #[token("}", bc)]
    #[token("]", bb)]
    #[token(")", bp)]
    Right(''','''    #[regex(r"[\\}\\]\\)]", brace)]
    Right('''),(T,'''/// Mark the brace kind of a token as curly
#[inline(always)]
fn bc(_: &mut logos::Lexer<Token>) -> BraceKind {
    BraceKind::Curly
}

/// Mark the brace kind of a token as bracket
#[inline(always)]
fn bb(_: &mut logos::Lexer<Token>) -> BraceKind {
    BraceKind::Bracket
}

/// Mark the brace kind of a token as parenthesis
#[inline(always)]
fn bp(_: &mut logos::Lexer<Token>) -> BraceKind {
    BraceKind::Paren
}
''','''fn brace(lexer: &mut logos::Lexer<Token>) -> BraceKind {
    match lexer.slice() {
        "{" | "}" => BraceKind::Curly,
        "[" | "]" => BraceKind::Bracket,
        _ => BraceKind::Paren,
    }
}
''')]),
 dict(id="h2-closures",props=P,edits=[(T,'''    #[token("{", bc)]
    #[token("[", bb)]
    #[token("(", bp)]
    Left(''','''    #[token("{", |_| BraceKind::Curly)]
    #[token("[", |_| BraceKind::Bracket)]
    #[token("(", |_| BraceKind::Paren)]
    Left('''),(T,'''#[regex(r"\\$\\$?")]''','''#[token("$")]
    #[token("$$")]'''),(T,'''#[regex(r"\\\\\\\\", priority = 4)]''','''#[token("\\\\\\\\", priority = 4)]'''),(T,'''#[regex(r"[^\\S\\r\\n]+", priority = 1)]''','''#[regex(r"[\\s--[\\r\\n]]+", priority = 1)]''')]),
 dict(id="h3-match-if",props=P,edits=[(T,'''    let c = match command_start.chars().next() {
        Some(c) => c,
        None => return CommandName::Generic,
    };
''','''    let Some(c) = command_start.chars().next() else {
        return CommandName::Generic;
    };
'''),(T,'''    match c {
        '(' | '[' => return CommandName::BeginMath,
        ')' | ']' => return CommandName::EndMath,
        '@' => {}
        _ if !c.is_ascii_alphabetic() => return CommandName::Generic,
        _ => {}
    }
''','''    if c == '(' || c == '[' {
        return CommandName::BeginMath;
    }
    if matches!(c, ')' | ']') {
        return CommandName::EndMath;
    }
    if c != '@' && !c.is_ascii_alphabetic() {
        return CommandName::Generic;
    }
'''),(T,'''        "begin" => lex_begin_end(lexer, true),
        "end" => lex_begin_end(lexer, false),''','''        env @ ("begin" | "end") => lex_begin_end(lexer, env == "begin"),''')]),
 dict(id="h4-if-name",props=P,edits=[(T,'''    match name {
        "if" => CommandName::If(If),
''','''    if let Some(i) = if_name(name) {
        return CommandName::If(i);
    }
    match name {
'''),(T,"\n".join('        "%s" => CommandName::If(%s),' % x for x in [("iftypst","IfTypst"),("iffalse","IfFalse"),("iftrue","IfTrue"),("ifcase","IfCase"),("ifnum","IfNum"),("ifcat","IfCat"),("ifx","IfX"),("ifvoid","IfVoid"),("ifhbox","IfHBox"),("ifvbox","IfVBox"),("ifhmode","IfHMode"),("ifmmode","IfMMode"),("ifvmode","IfVMode"),("ifinner","IfInner"),("ifdim","IfDim"),("ifeof","IfEof"),("@ifstar","IfStar")])+"\n",''),
 (T,'''// todo: handle commands with underscores''','''fn if_name(name: &str) -> Option<IfCommandName> {
    use IfCommandName::*;
    Some(match name {
        "if" => If,
'''+"\n".join('        "%s" => %s,' % x for x in [("iftypst","IfTypst"),("iffalse","IfFalse"),("iftrue","IfTrue"),("ifcase","IfCase"),("ifnum","IfNum"),("ifcat","IfCat"),("ifx","IfX"),("ifvoid","IfVoid"),("ifhbox","IfHBox"),("ifvbox","IfVBox"),("ifhmode","IfHMode"),("ifmmode","IfMMode"),("ifvmode","IfVMode"),("ifinner","IfInner"),("ifdim","IfDim"),("ifeof","IfEof"),("@ifstar","IfStar")])+'''
        _ => return None,
    })
}

// todo: handle commands with underscores'''),(T,'''    use IfCommandName::*;
    let command_start''','''    let command_start''')]),
]

//! lexpat DIR: reads the token patterns (`#[token]`, `#[regex]`) of the enum that derives `Logos` in the sources under DIR
//! and compares the regular languages they denote with the reference below. Prints obligations as JSON.
use regex_automata::dfa::{dense, Automaton, StartKind};
use regex_automata::util::primitives::StateID;
use regex_automata::util::syntax;
use regex_automata::{Anchored, MatchKind};
use std::collections::{BTreeMap, HashMap, VecDeque};
use syn::spanned::Spanned;
use syn::*;

/// what each kind of token is, whatever the order: the languages are disjoint
const REFERENCE: &[(&str, &str)] = &[
    ("LineBreak", r"[\r\n]+"),
    ("Whitespace", r"[\s--[\r\n]]+"),
    ("LineComment", r"%[^\r\n]*"),
    ("Left(Curly)", r"\{"),
    ("Left(Bracket)", r"\["),
    ("Left(Paren)", r"\("),
    ("Right(Curly)", r"\}"),
    ("Right(Bracket)", r"\]"),
    ("Right(Paren)", r"\)"),
    ("Comma", ","),
    ("Tilde", "~"),
    ("Slash", "/"),
    ("Ampersand", "&"),
    ("Caret", r"\^"),
    ("Apostrophe", "'"),
    ("Ditto", "\""),
    ("Semicolon", ";"),
    ("Hash", r"\#"),
    ("Asterisk", r"\*"),
    ("AtSign", "@"),
    ("Underscore", "_"),
    ("Word", r##"[^\s\\%{}\[\]()$,~/&\^'";\#*@_]+"##),
    ("Dollar", r"\$\$?"),
    ("NewLine", r"\\\\"),
    ("CommandName", r"\\"),
];

struct Pattern {
    variant: String,
    regex: String,
    priority: usize,
    callback: Option<Expr>,
    line: usize,
}
struct Src {
    path: String,
    file: File,
}

fn fail(msg: String) -> ! {
    eprintln!("lexpat: {msg}");
    std::process::exit(3)
}
fn sources(dir: &std::path::Path, out: &mut Vec<Src>) {
    let mut es: Vec<_> = std::fs::read_dir(dir).unwrap_or_else(|e| fail(format!("{dir:?}: {e}"))).map(|e| e.unwrap().path()).collect();
    es.sort();
    for p in es {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            let t = std::fs::read_to_string(&p).unwrap();
            match parse_file(&t) {
                Ok(file) => out.push(Src { path: p.display().to_string(), file }),
                Err(e) => fail(format!("{}: {e}", p.display())),
            }
        }
    }
}
fn items<'a>(f: &'a [Item], out: &mut Vec<&'a Item>) {
    for i in f {
        out.push(i);
        if let Item::Mod(m) = i {
            if let Some((_, c)) = &m.content {
                items(c, out);
            }
        }
    }
}
fn derives(attrs: &[Attribute], what: &str) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("derive")
            && a.parse_args_with(punctuated::Punctuated::<Path, Token![,]>::parse_terminated).is_ok_and(|l| l.iter().any(|p| p.segments.last().is_some_and(|s| s.ident == what)))
    })
}
/// arguments of #[token(..)], #[regex(..)]
struct Args {
    text: Lit,
    priority: Option<usize>,
    callback: Option<Expr>,
    other: Vec<String>,
}
impl parse::Parse for Args {
    fn parse(i: parse::ParseStream) -> Result<Self> {
        let text = i.parse()?;
        let mut a = Args { text, priority: None, callback: None, other: vec![] };
        while i.peek(Token![,]) {
            i.parse::<Token![,]>()?;
            if i.is_empty() {
                break;
            }
            if i.peek(Ident) && i.peek2(Token![=]) && !i.peek2(Token![==]) {
                let k: Ident = i.parse()?;
                i.parse::<Token![=]>()?;
                if k == "priority" {
                    a.priority = Some(i.parse::<LitInt>()?.base10_parse()?);
                } else if k == "callback" {
                    a.callback = Some(i.parse()?);
                } else {
                    a.other.push(k.to_string());
                    i.parse::<Expr>()?;
                }
            } else if i.peek(Ident) && i.peek2(token::Paren) {
                let k: Ident = i.parse()?;
                let c;
                parenthesized!(c in i);
                a.other.push(format!("{k}({})", c.parse::<proc_macro2::TokenStream>()?));
            } else {
                a.callback = Some(i.parse()?);
            }
        }
        Ok(a)
    }
}
/// as in logos-codegen
fn priority(h: &regex_syntax::hir::Hir) -> usize {
    use regex_syntax::hir::HirKind::*;
    match h.kind() {
        Empty | Look(_) => 0,
        Literal(l) => 2 * std::str::from_utf8(&l.0).map_or(l.0.len(), |s| s.chars().count()),
        Class(_) => 2,
        Repetition(r) => r.min as usize * priority(&r.sub),
        Capture(c) => priority(&c.sub),
        Concat(v) => v.iter().map(priority).sum(),
        Alternation(v) => v.iter().map(priority).min().unwrap_or(0),
    }
}

/// value of a callback on a text; only simple ones
struct Eval<'a> {
    fns: HashMap<String, &'a ItemFn>,
    text: &'a str,
}
impl Eval<'_> {
    fn callback(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => self.block(&self.fns.get(&p.path.segments.last()?.ident.to_string())?.block),
            Expr::Closure(c) => self.expr(&c.body),
            _ => None,
        }
    }
    fn block(&self, b: &Block) -> Option<String> {
        for s in &b.stmts {
            match s {
                Stmt::Expr(Expr::Return(r), _) => return self.expr(r.expr.as_ref()?),
                Stmt::Expr(Expr::If(i), _) if self.cond(&i.cond)? => return self.block(&i.then_branch),
                Stmt::Expr(Expr::If(i), Some(_)) if i.else_branch.is_none() => {}
                Stmt::Expr(e, None) => return self.expr(e),
                Stmt::Item(_) => {}
                _ => return None,
            }
        }
        None
    }
    fn cond(&self, e: &Expr) -> Option<bool> {
        let Expr::Binary(b) = e else { return None };
        let (x, y) = (self.expr(&b.left)?, self.expr(&b.right)?);
        match b.op {
            BinOp::Eq(_) => Some(x == y),
            BinOp::Ne(_) => Some(x != y),
            _ => None,
        }
    }
    fn pat(&self, p: &Pat, v: &str) -> Option<bool> {
        match p {
            Pat::Wild(_) | Pat::Ident(_) => Some(true),
            Pat::Lit(l) => Some(lit(&l.lit)? == v),
            Pat::Or(o) => {
                for p in &o.cases {
                    if self.pat(p, v)? {
                        return Some(true);
                    }
                }
                Some(false)
            }
            Pat::TupleStruct(t) if t.elems.len() == 1 => self.pat(&t.elems[0], v),
            Pat::Path(p) if p.path.segments.last()?.ident == "None" => Some(false),
            _ => None,
        }
    }
    fn expr(&self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => Some(p.path.segments.last()?.ident.to_string()),
            Expr::Lit(l) => lit(&l.lit),
            Expr::Paren(p) => self.expr(&p.expr),
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Block(b) => self.block(&b.block),
            Expr::Reference(r) => self.expr(&r.expr),
            Expr::Index(i) if matches!(&*i.index, Expr::Lit(_)) => self.expr(&i.expr),
            Expr::If(i) => {
                if self.cond(&i.cond)? {
                    self.block(&i.then_branch)
                } else {
                    self.expr(&i.else_branch.as_ref()?.1)
                }
            }
            // the tokens in question are one ASCII character long
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "slice" | "as_bytes" | "chars" | "bytes" | "next" | "first" | "unwrap") => Some(self.text.to_string()),
            Expr::Match(m) => {
                let v = self.expr(&m.expr)?;
                for a in &m.arms {
                    if a.guard.is_some() {
                        return None;
                    }
                    if self.pat(&a.pat, &v)? {
                        return match &*a.body {
                            Expr::Return(r) => self.expr(r.expr.as_ref()?),
                            b => self.expr(b),
                        };
                    }
                }
                None
            }
            _ => None,
        }
    }
}
fn lit(l: &Lit) -> Option<String> {
    match l {
        Lit::Str(s) => Some(s.value()),
        Lit::Char(c) => Some(c.value().to_string()),
        Lit::Byte(b) => Some((b.value() as char).to_string()),
        _ => None,
    }
}

fn build(patterns: &[String]) -> dense::DFA<Vec<u32>> {
    dense::Builder::new()
        .syntax(syntax::Config::new().unicode(true).utf8(true))
        .configure(dense::Config::new().match_kind(MatchKind::All).start_kind(StartKind::Anchored).minimize(false))
        .build_many(patterns)
        .unwrap_or_else(|e| fail(format!("{e}: {patterns:?}")))
}
fn start(d: &dense::DFA<Vec<u32>>) -> StateID {
    d.start_state_forward(&regex_automata::Input::new("").anchored(Anchored::Yes)).unwrap()
}
fn matched(d: &dense::DFA<Vec<u32>>, s: StateID) -> Vec<usize> {
    let e = d.next_eoi_state(s);
    if !d.is_match_state(e) {
        return vec![];
    }
    (0..d.match_len(e)).map(|i| d.match_pattern(e, i).as_usize()).collect()
}

fn main() {
    let dir = std::env::args().nth(1).expect("DIR");
    let mut src = vec![];
    sources(std::path::Path::new(&dir), &mut src);
    let mut fns = HashMap::new();
    let mut found = vec![];
    for s in &src {
        let mut all = vec![];
        items(&s.file.items, &mut all);
        for i in all {
            match i {
                Item::Fn(f) => {
                    fns.insert(f.sig.ident.to_string(), f);
                }
                Item::Enum(e) if derives(&e.attrs, "Logos") => found.push((s, e)),
                _ => {}
            }
        }
    }
    let [(s, e)] = &found[..] else { fail(format!("{} enums derive Logos in {dir}", found.len())) };
    let mut obs: Vec<(String, usize, bool, String)> = vec![];
    let mut ob = |k: &str, line: usize, ok: bool, msg: String| obs.push((k.to_string(), line, ok, msg));

    // attributes of the whole
    let mut subs: Vec<(String, String)> = vec![];
    let mut skips = vec![];
    for a in &e.attrs {
        if a.path().is_ident("logos") {
            let t = quote(a);
            if t.contains("skip") || t.contains("source") || t.contains("error") {
                skips.push(t.clone());
            }
            // subpattern name = "regex"
            if let Meta::List(l) = &a.meta {
                let v: Vec<_> = l.tokens.clone().into_iter().collect();
                for w in v.windows(4) {
                    if w[0].to_string() == "subpattern" {
                        if let Ok(l) = parse2::<Lit>(proc_macro2::TokenStream::from(w[3].clone())) {
                            subs.push((w[1].to_string(), lit(&l).unwrap_or_default()));
                        }
                    }
                }
            }
        }
    }
    ob("nothing is skipped", e.span().start().line, skips.is_empty(), format!("the tokens are also subject to {skips:?}"));

    let mut pats = vec![];
    for v in &e.variants {
        for a in &v.attrs {
            let regex = a.path().is_ident("regex");
            if !regex && !a.path().is_ident("token") {
                continue;
            }
            let line = a.span().start().line;
            let args: Args = a.parse_args().unwrap_or_else(|e| fail(format!("{}:{line}: {e}", s.path)));
            if !args.other.is_empty() {
                fail(format!("{}:{line}: unknown arguments {:?}", s.path, args.other));
            }
            let Some(text) = lit(&args.text) else { fail(format!("{}:{line}: not a string", s.path)) };
            let r = if regex {
                let mut r = text;
                for (n, p) in subs.iter().rev() {
                    r = r.replace(&format!("(?&{n})"), &format!("(?:{p})"));
                }
                r
            } else {
                regex_syntax::escape(&text)
            };
            let h = regex_syntax::parse(&r).unwrap_or_else(|e| fail(format!("{}:{line}: {e}", s.path)));
            let p = args.priority.unwrap_or_else(|| priority(&h));
            // what the callback returns decides whether a token is made
            if let Some(Expr::Path(c)) = &args.callback {
                if let Some(f) = c.path.segments.last().and_then(|s| fns.get(&s.ident.to_string())) {
                    let ret = match &f.sig.output {
                        ReturnType::Type(_, t) => quote(t),
                        _ => "()".to_string(),
                    };
                    let bad = ["Option", "Result", "Skip", "Filter", "FilterResult", "bool"].iter().any(|x| ret.split(|c: char| !c.is_alphanumeric()).any(|w| w == *x));
                    ob(&format!("{}: its callback makes a token", v.ident), line, !bad, format!("{} returns {ret}", f.sig.ident));
                }
            }
            pats.push(Pattern { variant: v.ident.to_string(), regex: r, priority: p, callback: args.callback, line });
        }
    }

    let ours = build(&pats.iter().map(|p| p.regex.clone()).collect::<Vec<_>>());
    let reference = build(&REFERENCE.iter().map(|p| p.1.to_string()).collect::<Vec<_>>());
    // all pairs of states that some text leads to
    let mut seen: HashMap<(StateID, StateID), Vec<u8>> = HashMap::new();
    let mut work = VecDeque::new();
    let q0 = (start(&ours), start(&reference));
    seen.insert(q0, vec![]);
    work.push_back(q0);
    let mut bad: BTreeMap<String, (usize, String)> = BTreeMap::new();
    let mut used: BTreeMap<String, usize> = BTreeMap::new();
    let mut pairs = 0usize;
    while let Some(q) = work.pop_front() {
        pairs += 1;
        let w = seen[&q].clone();
        let (m, r) = (matched(&ours, q.0), matched(&reference, q.1));
        let text = String::from_utf8_lossy(&w).to_string();
        let best = m.iter().map(|i| pats[*i].priority).max();
        let top: Vec<&Pattern> = m.iter().map(|i| &pats[*i]).filter(|p| Some(p.priority) == best).collect();
        let mut kinds: Vec<String> = top
            .iter()
            .map(|p| {
                if p.variant == "Left" || p.variant == "Right" {
                    let ev = Eval { fns: fns.clone(), text: &text };
                    let b = p.callback.as_ref().and_then(|c| ev.callback(c)).unwrap_or_else(|| fail(format!("{}:{}: the kind of brace cannot be told from the source", s.path, p.line)));
                    format!("{}({b})", p.variant)
                } else {
                    p.variant.clone()
                }
            })
            .collect();
        kinds.dedup();
        let want: Vec<&str> = r.iter().map(|i| REFERENCE[*i].0).collect();
        let line = top.first().map_or(e.span().start().line, |p| p.line);
        for k in &want {
            used.entry(k.to_string()).or_insert(line);
        }
        if kinds.iter().map(|s| s.as_str()).collect::<Vec<_>>() != want {
            let k = want.first().map(|s| s.to_string()).or(kinds.first().cloned()).unwrap();
            let k = if want.is_empty() { format!("{k}: nothing else") } else { format!("{k}: its texts") };
            bad.entry(k).or_insert((line, format!("the text {text:?} is {} instead of {}", if kinds.is_empty() { "no token".to_string() } else { kinds.join(" or ") }, if want.is_empty() { "no token" } else { want[0] })));
        }
        for b in 0..=255u8 {
            let n = (ours.next_state(q.0, b), reference.next_state(q.1, b));
            if ours.is_dead_state(n.0) && reference.is_dead_state(n.1) || ours.is_quit_state(n.0) {
                continue;
            }
            if !seen.contains_key(&n) {
                let mut w = w.clone();
                w.push(b);
                seen.insert(n, w);
                work.push_back(n);
            }
        }
    }
    for (k, _) in REFERENCE {
        let key = format!("{k}: its texts");
        let b = bad.remove(&key);
        let line = b.as_ref().map(|b| b.0).or(used.get(*k).copied()).unwrap_or(0);
        ob(&key, line, b.is_none(), b.map(|b| b.1).unwrap_or_default());
    }
    ob("there are no other tokens", e.span().start().line, bad.is_empty(), format!("{:?}", bad.values().next().map(|b| &b.1)));
    let one: String = (0..=0x10ffffu32).filter_map(char::from_u32).filter(|c| {
        let mut q = start(&ours);
        for b in c.to_string().bytes() {
            q = ours.next_state(q, b);
        }
        matched(&ours, q).is_empty()
    }).take(5).collect();
    ob("every character is a token, if nothing longer is", e.span().start().line, one.is_empty(), format!("{one:?} is no token"));

    let path = s.path.clone();
    let j: Vec<_> = obs.iter().map(|(k, l, ok, m)| serde_json::json!({"prop": "pat", "key": k, "loc": format!("{path}:{l}"), "ok": ok, "msg": m, "path": []})).collect();
    println!("{}", serde_json::json!({"obligations": j, "patterns": pats.len(), "states": pairs, "enum": e.ident.to_string()}));
}
fn quote<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

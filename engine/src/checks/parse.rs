//! The parser: every item parser from a generic state of the list it is in. Tokens that the lexer
//! hands out are followed into the tree, the builder's stack of open nodes and its checkpoints are
//! followed symbolically, and the contracts of the recursive parsers are found as sets of summaries
//! (least fixpoint over a finite set of contexts).
use super::driver::*;
use super::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub struct Parse {
    pub tok_opt: Ty,
    pub ctxs: RefCell<Vec<(String, Ctx)>>,
    /// contexts that have to be analysed (again), and who uses the result of whom
    pub todo: RefCell<BTreeSet<usize>>,
    pub deps: RefCell<BTreeMap<usize, BTreeSet<usize>>>,
    /// a contract has grown: the roots are analysed again
    pub grown: std::cell::Cell<bool>,
    /// instances of the same generic parser share their contracts
    pub canon: RefCell<BTreeMap<String, u32>>,
    pub syn: RefCell<Option<Ty>>,
    /// what each kind of token becomes in the tree
    pub leaf: RefCell<BTreeMap<String, BTreeSet<String>>>,
    pub greedy: u32,
    /// is it asked what the nodes consist of?
    pub shape: bool,
    pub sums: RefCell<BTreeMap<usize, BTreeSet<Sum>>>,
    pub edges: RefCell<BTreeSet<(usize, usize, String)>>,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Ck {
    None,
    /// index among the entry's checkpoints, in order of position
    At(usize),
    New,
    Alien,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Ctx {
    args: Vec<Option<i128>>,
    look: bool,
    cks: Vec<Ck>,
    n: usize,
    /// the kind of the open node, where it matters
    up: String,
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Sum {
    ret: Option<i128>,
    moved: bool,
    wrap: Option<usize>,
    cks: Vec<Ck>,
    kept: Vec<bool>,
}

fn is_tok(ty: Ty) -> bool {
    match rigid(ty) {
        Some(RigidTy::Tuple(t)) => t.len() == 2 && adt_name(t[0]).is_some_and(|n| n.ends_with("::Token")) && pointee(t[1]).is_some_and(|(t, _)| is_str(t)),
        _ => false,
    }
}
fn is_tokvec(ty: Ty) -> bool {
    adt_name(ty).is_some_and(|n| n.ends_with("vec::Vec")) && type_args(ty).first().is_some_and(|t| is_tok(*t))
}
fn is_ck_opt(ty: Ty) -> bool {
    adt_name(ty).is_some_and(|n| n.ends_with("option::Option")) && type_args(ty).first().is_some_and(|t| adt_name(*t).is_some_and(|n| n.ends_with("Checkpoint")))
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Class {
    Ck,
    Toks,
    Flat,
    /// inside of the lexer, the builder or the specification: only reached by their methods
    Foreign,
    Other,
}
fn class(cut: &Cut, l: &Leaf) -> Class {
    thread_local! { static C: RefCell<HashMap<(u32, String), Class>> = Default::default(); }
    if let Some(c) = C.with(|m| m.borrow().get(&(cut.fid, l.name.clone())).copied()) {
        return c;
    }
    let own = |ty: Ty| adt_name(ty).is_some_and(|n| n.starts_with("mitex_parser::"));
    let mut ty = pointee(cut.ptys[l.arg]).map(|(t, _)| t);
    let mut c = None;
    for e in &l.path {
        let (Some(t), PE::F { idx, .. }) = (ty, e) else { break };
        let Some(RigidTy::Adt(d, a)) = rigid(t) else { break };
        if !own(t) {
            c = Some(Class::Foreign);
            break;
        }
        ty = Some(d.variants()[0].fields()[*idx as usize].ty_with_args(&a));
    }
    let c = c.unwrap_or_else(|| {
        if is_ck_opt(l.ty) {
            Class::Ck
        } else if is_tokvec(l.ty) {
            Class::Toks
        } else if flat_enum(l.ty) {
            Class::Flat
        } else if adt_name(l.ty).is_some_and(|n| n.contains("GreenNodeBuilder")) {
            Class::Foreign
        } else {
            Class::Other
        }
    });
    C.with(|m| m.borrow_mut().insert((cut.fid, l.name.clone()), c));
    c
}

/// an enum of the repository without fields, or bool
fn flat_enum(ty: Ty) -> bool {
    is_bool(ty)
        || match rigid(ty) {
            Some(RigidTy::Adt(d, _)) => matches!(d.kind(), AdtKind::Enum) && is_ours(&d.krate().name.to_string()) && info(ty).is_some_and(|i| i.nfields.iter().all(|n| *n == 0)),
            _ => false,
        }
}
fn tokf(cx: &Interp, tok: &V, i: u32) -> V {
    cx.proj(tok, &PE::F { var: 0, idx: i, n: 2 })
}
fn payload(cx: &Interp, v: &V) -> V {
    cx.proj(v, &PE::F { var: 1, idx: 0, n: 1 })
}
fn elems(v: &V) -> Vec<V> {
    match v {
        V::Agg(_, f) => (**f).clone(),
        _ => vec![],
    }
}
fn list(v: Vec<V>) -> V {
    agg(50, v)
}
fn subterm(v: &V, op: &str) -> Option<V> {
    match v {
        V::Agg(_, f) => f.iter().find_map(|x| subterm(x, op)),
        V::Sym(x, _) => {
            let n = node(*x);
            if &*n.op == op {
                return Some(n.args[0].clone());
            }
            n.args.iter().find_map(|a| subterm(a, op))
        }
        _ => None,
    }
}
fn occurs(v: &V, t: &V) -> bool {
    if v == t {
        return true;
    }
    match v {
        V::Agg(_, f) => f.iter().any(|x| occurs(x, t)),
        V::Sym(x, _) => node(*x).args.iter().any(|a| occurs(a, t)),
        _ => false,
    }
}

/// an open node; the first is the one that was open at entry
#[derive(Clone)]
struct Fr {
    n: i128,
    wrap: i128,
    keep: usize,
    chain: Vec<V>,
    /// what the children were at each of the checkpoints
    snaps: Vec<String>,
    kind: String,
    /// the kinds of the first children, "?": any further ones
    seq: String,
    /// the text of its name
    name: V,
}
const NOWRAP: i128 = 99;
impl Fr {
    fn new(kind: String, seq: &str) -> Fr {
        Fr { n: -1, wrap: NOWRAP, keep: 0, chain: vec![], snaps: vec![], kind, seq: seq.to_string(), name: V::Undef }
    }
    fn child(&mut self, kind: &str) {
        if self.n >= 0 && self.n < 4 {
            self.n += 1;
        }
        let k = self.seq.split(' ').filter(|s| !s.is_empty()).count();
        if self.seq.ends_with('?') {
            return;
        }
        if !self.seq.is_empty() {
            self.seq.push(' ');
        }
        let most = match self.kind.as_str() {
            "ItemCmd" | "ItemAttachComponent" => 2,
            "ItemEnv" | "ItemBegin" | "ItemEnd" | "ItemLR" | "ClauseLR" | "ItemCurly" | "ItemBracket" | "ItemParen" | "ItemFormula" => 1,
            _ => 0,
        };
        self.seq += if k >= most { "?" } else { kind };
    }
    fn some_children(&mut self) {
        self.n = -1;
        if !self.seq.ends_with('?') {
            if !self.seq.is_empty() {
                self.seq.push(' ');
            }
            self.seq.push('?');
        }
    }
    fn mark(&mut self, ck: V) {
        self.chain.push(ck);
        self.snaps.push(self.seq.clone());
    }
    /// what follows the checkpoint is wrapped
    fn cut(&mut self, i: usize, own: bool) {
        self.chain.truncate(i + 1);
        self.snaps.truncate(i + 1);
        self.seq = self.snaps[i].clone();
        if own {
            self.wrap = self.wrap.min(i as i128);
        }
        self.n = -1;
    }
    fn first(&self) -> &str {
        self.seq.split(' ').next().unwrap_or("")
    }
    fn has(&self, k: &[&str]) -> bool {
        self.seq.split(' ').any(|s| s.split('|').all(|s| k.contains(&s)))
    }
}
fn text(v: &V) -> String {
    match v {
        V::Str(s) => s.to_string(),
        _ => String::new(),
    }
}
fn frames(st: &State) -> Option<Vec<Fr>> {
    match st.ghost("frames") {
        V::Agg(50, f) => Some(
            f.iter()
                .map(|x| {
                    let e = elems(x);
                    let i = |v: &V| match v {
                        V::Int(i) => *i,
                        _ => -1,
                    };
                    Fr { n: i(&e[0]), wrap: i(&e[1]), keep: i(&e[2]) as usize, chain: elems(&e[3]), snaps: elems(&e[4]).iter().map(text).collect(), kind: text(&e[5]), seq: text(&e[6]), name: e[7].clone() }
                })
                .collect(),
        ),
        _ => None,
    }
}
fn set_frames(st: &mut State, f: &[Fr]) {
    st.set_ghost(
        "frames",
        list(
            f.iter()
                .map(|x| list(vec![V::Int(x.n), V::Int(x.wrap), V::Int(x.keep as i128), list(x.chain.clone()), list(x.snaps.iter().map(|s| vstr(s)).collect()), vstr(&x.kind), vstr(&x.seq), x.name.clone()]))
                .collect(),
        ),
    );
}
/// what a token may be in the tree
fn leaf_kinds(tok: &str) -> &'static [&'static str] {
    match tok {
        "LineBreak" => &["TokenLineBreak"],
        "Whitespace" => &["TokenWhiteSpace"],
        "LineComment" => &["TokenComment"],
        "Left(Curly)" => &["TokenLBrace"],
        "Right(Curly)" => &["TokenRBrace"],
        "Left(Bracket)" => &["TokenLBracket"],
        "Right(Bracket)" => &["TokenRBracket"],
        "Left(Paren)" => &["TokenLParen"],
        "Right(Paren)" => &["TokenRParen"],
        "Comma" => &["TokenComma"],
        "Tilde" => &["TokenTilde"],
        "Slash" => &["TokenSlash"],
        "Underscore" => &["TokenUnderscore"],
        "Caret" => &["TokenCaret"],
        "Apostrophe" => &["TokenApostrophe"],
        "Ditto" => &["TokenDitto"],
        "Semicolon" => &["TokenSemicolon"],
        "Hash" => &["TokenHash"],
        "Asterisk" => &["TokenAsterisk"],
        "AtSign" => &["TokenAtSign"],
        "Word" => &["TokenWord"],
        "Dollar" => &["TokenDollar"],
        "Ampersand" => &["TokenAmpersand"],
        "NewLine" => &["ItemNewLine"],
        "Error" => &["TokenError"],
        "CommandName(ErrorBeginEnvironment)" | "CommandName(ErrorEndEnvironment)" => &["TokenError"],
        "CommandName(BeginEnvironment)" | "CommandName(EndEnvironment)" => &["TokenCommandSym"],
        "CommandName(BeginMath)" => &["TokenBeginMath"],
        "CommandName(EndMath)" => &["TokenEndMath"],
        t if t.starts_with("MacroArg") => &["TokenWord", "TokenError"],
        t if t.starts_with("CommandName(") => &["ClauseCommandName", "TokenCommandSym"],
        _ => &[],
    }
}
pub fn is_leaf(k: &str) -> bool {
    k.starts_with("Token") || matches!(k, "ItemNewLine" | "ClauseCommandName")
}
pub fn is_inner(k: &str) -> bool {
    !is_leaf(k) || k == "TokenError"
}
/// environments' names have no backslash: they are not commands
const TRIVIA: [&str; 3] = ["LineBreak", "Whitespace", "LineComment"];
const NAMES: [&str; 5] = ["ItemBegin", "ItemEnd", "TokenError", "ItemBlockComment", "ItemTypstCode"];

impl Parse {
    fn cases(&self, cx: &Interp, st: &State) -> Vec<(bool, State)> {
        let l = st.ghost("look");
        cx.cases(st, &l, self.tok_opt).into_iter().map(|(v, s)| (v == 1, s)).collect()
    }
    fn tok_ty(&self) -> Ty {
        type_args(self.tok_opt)[0]
    }
    fn kind_ty(&self) -> Ty {
        match rigid(self.tok_ty()) {
            Some(RigidTy::Tuple(t)) => t[0],
            _ => unreachable!(),
        }
    }
    /// the kinds that the token can still have, with their nested kinds where they are known
    fn kinds(&self, cx: &Interp, st: &State, kind: &V, ty: Ty) -> Vec<String> {
        let mut out = vec![];
        for (v, s) in cx.cases(st, kind, ty) {
            let name = variant_name(ty, v);
            if nfields(ty, v) == 1 {
                if let Some(RigidTy::Adt(d, a)) = rigid(ty) {
                    let f = d.variants()[v as usize].fields()[0].ty_with_args(&a);
                    let x = cx.field(kind, v, 0, ty);
                    if info(f).is_some_and(|i| i.is_enum) {
                        for n in self.kinds(cx, &s, &x, f) {
                            out.push(format!("{name}({n})"));
                        }
                        continue;
                    }
                }
            }
            out.push(name);
        }
        out
    }
    fn new_look(&self, cx: &mut Interp, st: &mut State, site: &Site) {
        st.set_ghost("look", V::Undef);
        let v = cx.fresh(st, site, "look");
        st.set_ghost("look", v);
    }
    /// a token that was consumed is now forgotten unless it is in the tree
    fn flush(&self, cx: &mut Interp, st: &mut State, site: &Site, d: &Driver, when: &str) {
        let due = elems(&st.ghost("due"));
        let s = cx.our_site(site);
        for t in &due {
            let k = tokf(cx, t, 0);
            let ks = self.kinds(cx, st, &k, self.kind_ty());
            let okay = ks.iter().all(|k| matches!(k.as_str(), "CommandName(If(IfFalse))" | "CommandName(If(IfTypst))" | "CommandName(EndIf)"));
            let shown = if ks.len() > 4 { format!("{} kinds", ks.len()) } else { ks.join("|") };
            d.ob("tokens", format!("{}: a consumed token is in the tree", s.func()), s.loc(), okay, format!("a consumed token ({shown}) is not attached to the tree before {when}"), st);
        }
        if !due.is_empty() {
            st.set_ghost("due", list(vec![]));
        }
        if st.ghost("hdue") != list(vec![]) {
            d.ob("tokens", format!("{}: tokens held back are attached", s.func()), s.loc(), false, format!("a token that was held back is not attached before {when}"), st);
            st.set_ghost("hdue", list(vec![]));
        }
    }
    fn no_drop(&self, cx: &mut Interp, st: &mut State, site: &Site, d: &Driver, when: &str) {
        let s = cx.our_site(site);
        let lost = st.ghost("dropped") == V::Bool(true);
        d.ob("tokens", format!("{}: trivia are only left out before an argument", s.func()), s.loc(), !lost, format!("trivia that were held back are forgotten, but {when} comes before an argument"), st);
        if lost {
            st.set_ghost("dropped", V::Bool(false));
        }
    }
    /// the name of the kind of a node, if it is known
    fn node_kind(&self, v: &V) -> Option<String> {
        let V::Agg(0, f) = v else { return None };
        let (Some(V::Int(k)), Some(t)) = (f.first(), *self.syn.borrow()) else { return None };
        (*k >= 0).then(|| variant_name(t, *k as u32))
    }
    fn no_partial(&self, cx: &mut Interp, st: &mut State, site: &Site, d: &Driver, when: &str) {
        let s = cx.our_site(site);
        let e = cx.eq(st, &st.ghost("ahead"), &V::Int(0));
        let ok = cx.decide(st, &e) == Some(true);
        d.ob("tokens", format!("{}: attached text is consumed", s.func()), s.loc(), ok, format!("text of the next token that is already in the tree is not consumed before {when}"), st);
        if !ok {
            st.set_ghost("ahead", V::Int(0));
        }
    }
    fn rest(&self, cx: &mut Interp, st: &mut State, site: &Site, d: &Driver, when: &str) {
        self.flush(cx, st, site, d, when);
        self.no_partial(cx, st, site, d, when);
        let s = cx.our_site(site);
        let held = st.ghost("held") == V::Bool(true);
        d.ob("tokens", format!("{}: nothing is held back", s.func()), s.loc(), !held, format!("tokens are still held back at {when}"), st);
        if held {
            st.set_ghost("held", V::Bool(false));
        }
    }
    fn advance(&self, st: &mut State) {
        st.set_ghost("moved", V::Bool(true));
        let h = elems(&st.ghost("heads"))
            .into_iter()
            .map(|h| {
                let e = elems(&h);
                list(vec![e[0].clone(), e[1].clone(), V::Bool(true), e[3].clone()])
            })
            .collect();
        st.set_ghost("heads", list(h));
    }
    fn born(&self, st: &mut State, site: &V) {
        let h = elems(&st.ghost("heads"))
            .into_iter()
            .map(|h| {
                let e = elems(&h);
                let mut b = elems(&e[3]);
                if !b.contains(site) {
                    b.push(site.clone());
                    b.sort_by_key(|v| format!("{v:?}"));
                }
                list(vec![e[0].clone(), e[1].clone(), e[2].clone(), list(b)])
            })
            .collect();
        st.set_ghost("heads", list(h));
    }
    fn stepped(&self, st: &mut State, site: &V) {
        let h = elems(&st.ghost("heads"))
            .into_iter()
            .map(|h| {
                let e = elems(&h);
                let p = e[2] == V::Bool(true) || !elems(&e[3]).contains(site);
                list(vec![e[0].clone(), e[1].clone(), V::Bool(p), e[3].clone()])
            })
            .collect();
        st.set_ghost("heads", list(h));
    }
    fn attach(&self, cx: &mut Interp, st: &mut State, text: &V, site: &Site, d: &Driver) {
        let s = cx.our_site(site);
        let key = format!("{}: text enters the tree once and in order", s.func());
        let due = elems(&st.ghost("due"));
        let hdue = elems(&st.ghost("hdue"));
        st.set_ghost("dropped", V::Bool(false));
        let (ok, msg) = if let Some(t) = hdue.first() {
            let ok = tokf(cx, t, 1) == *text;
            st.set_ghost("hdue", list(vec![]));
            (ok, "the text of a token that was held back is not what is attached")
        } else if st.ghost("held") == V::Bool(true) {
            if !due.is_empty() {
                st.set_ghost("due", list(due[1..].to_vec()));
            }
            (false, "text is attached while earlier tokens are held back")
        } else if let Some(t) = due.first() {
            let ok = tokf(cx, t, 1) == *text;
            st.set_ghost("due", list(due[1..].to_vec()));
            (ok, "the text that is attached is not that of the consumed token")
        } else {
            let look = payload(cx, &st.ghost("look"));
            let t = tokf(cx, &look, 1);
            let ahead = st.ghost("ahead");
            if t == *text && ahead == V::Int(0) {
                st.set_ghost("ahead", vstr("whole"));
                (true, "")
            } else {
                // one character of the next token
                let mut ok = false;
                if let V::Sym(x, 0) = text {
                    let n = node(*x);
                    if &*n.op == "charstr" {
                        if let V::Sym(y, 0) = &n.args[0] {
                            let m = node(*y);
                            if &*m.op == "charat" && m.args[0] == t {
                                let e = cx.eq(st, &m.args[1], &ahead);
                                if cx.decide(st, &e) == Some(true) {
                                    ok = true;
                                    let l = self.len8(st, &n.args[0]);
                                    let a = self.plus(cx, st, &ahead, &l);
                                    st.set_ghost("ahead", a);
                                }
                            }
                        }
                    }
                }
                { if std::env::var("MXSA_WHY").is_ok() { eprintln!("attach {} look {} ahead {}", show(text), show(&t), show(&ahead)); } (ok, "text is attached that is not the next of the input") }
            }
        };
        d.ob("tokens", key, s.loc(), ok, msg.to_string(), st);
    }
    fn names(&self) -> Option<Ty> {
        *self.syn.borrow()
    }
    /// a leaf of the right kind at the right place
    fn leaf(&self, cx: &mut Interp, st: &mut State, c: &Call, t: &V, d: &Driver) {
        if !self.shape {
            if let Some(mut f) = frames(st) {
                f.last_mut().unwrap().child("");
                set_frames(st, &f);
            }
            return;
        }
        let w = cx.our_site(&c.site);
        let src = match elems(&st.ghost("hdue")).first().or(elems(&st.ghost("due")).first()) {
            Some(t) => t.clone(),
            None => payload(cx, &st.ghost("look")),
        };
        let k = tokf(cx, &src, 0);
        let toks = self.kinds(cx, st, &k, self.kind_ty());
        let kinds: BTreeSet<String> = match self.node_kind(&c.args[1]) {
            Some(n) => {
                let bad: Vec<&String> = toks.iter().filter(|t| !leaf_kinds(t).contains(&n.as_str())).collect();
                d.ob("shape", format!("{}: tokens keep their meaning", w.func()), w.loc(), bad.is_empty(), format!("a token of kind {} becomes {n}", bad.first().map_or("", |s| s.as_str())), st);
                [n].into()
            }
            None => {
                let of = subterm(&c.args[1], "kindof");
                let same = of.as_ref() == Some(&k);
                d.ob("shape", format!("{}: tokens keep their meaning", w.func()), w.loc(), same, "the kind of the leaf is not that of the token".into(), st);
                let m = self.leaf.borrow();
                toks.iter().filter_map(|t| m.get(t)).flatten().cloned().collect()
            }
        };
        let bad: Vec<&String> = kinds.iter().filter(|k| !is_leaf(k)).collect();
        d.ob("shape", format!("{}: leaves have kinds of leaves", w.func()), w.loc(), bad.is_empty(), format!("a leaf is of kind {bad:?}"), st);
        let Some(mut f) = frames(st) else { return };
        let top = f.last_mut().unwrap();
        let env = toks.iter().any(|t| matches!(t.as_str(), "CommandName(BeginEnvironment)" | "CommandName(EndEnvironment)"));
        d.ob("shape", format!("{}: names of environments are not taken for commands", w.func()), w.loc(), !env || NAMES.contains(&top.kind.as_str()), format!("the name of an environment may be a child of {:?}", top.kind), st);
        let one = if kinds.len() <= 3 { kinds.iter().cloned().collect::<Vec<_>>().join("|") } else { "Leaf".to_string() };
        if one == "ClauseCommandName" && st.ghost("tame") != V::Undef {
            // the command is known not to take all that follows
            top.name = V::Bool(st.ghost("tame") == crate::models::slice(t, &V::Int(1), &V::Int(-1)));
            st.set_ghost("tame", V::Undef);
        }
        top.child(&one);
        set_frames(st, &f);
    }
    /// what every node of this kind consists of
    fn node(&self, st: &State, n: &Fr, w: &Site, d: &Driver) {
        if !self.shape {
            return;
        }
        let seq = n.seq.clone();
        let (ok, what): (bool, &str) = match n.kind.as_str() {
            "ItemCmd" => {
                let has = n.has(&["ClauseCommandName"]);
                // the argument of a greedy command
                let arg = n.seq.split(' ').find(|s| *s != "ClauseCommandName").unwrap_or("");
                if arg != "ClauseArgument" {
                    let may = n.name != V::Bool(true);
                    d.ob("shape", format!("{}: a command that takes all that follows has an argument", w.func()), w.loc(), !may, format!("the children are {seq:?}, and the command may be a greedy one"), st);
                }
                (has, "its name")
            }
            "ItemEnv" => (n.first() == "ItemBegin", "its beginning"),
            "ItemBegin" | "ItemEnd" => (n.first() == "TokenCommandSym", "its name"),
            "ItemLR" => (n.first() == "ClauseLR", "\\left"),
            "ClauseLR" => (n.first() == "ClauseCommandName", "\\left or \\right"),
            "ItemCurly" => (n.first() == "TokenLBrace", "its opening brace"),
            "ItemBracket" => (n.first() == "TokenLBracket", "its opening bracket"),
            "ItemParen" => (n.first() == "TokenLParen", "its opening parenthesis"),
            "ItemFormula" => (n.first().split('|').all(|s| matches!(s, "TokenDollar" | "TokenBeginMath")), "what opens it"),
            "ItemAttachComponent" => (n.has(&["TokenUnderscore", "TokenCaret", "TokenApostrophe"]), "the operator"),
            _ => return,
        };
        d.ob("shape", format!("{}: {} has {what}", w.func(), n.kind), w.loc(), ok, format!("the children of a {} are {seq:?}", n.kind), st);
    }
    fn plus(&self, cx: &mut Interp, st: &State, a: &V, b: &V) -> V {
        cx.bin(st, rustc_public::mir::BinOp::Add, a, b, Ty::usize_ty())
    }
    fn len8(&self, st: &mut State, c: &V) -> V {
        let l = sym("len8", vec![c.clone()]);
        mark_unsigned(&l, Ty::usize_ty());
        if let V::Sym(t, 0) = &l {
            st.assume_ge(*t, 1);
            st.assume_le(*t, 4);
        }
        l
    }
    fn lexer(&self, cx: &mut Interp, c: &Call, st: &State, d: &Driver, last: &str) -> Option<Outs> {
        let site = c.site.clone();
        match last {
            "new" | "new_with_bumper" => {
                let mut s = st.clone();
                self.new_look(cx, &mut s, &site);
                for (g, v) in [("due", list(vec![])), ("hdue", list(vec![])), ("ahead", V::Int(0)), ("held", V::Bool(false)), ("dropped", V::Bool(false)), ("moved", V::Bool(false))] {
                    s.set_ghost(g, v);
                }
                let v = cx.fresh(&s, &site, "lexer");
                Some(vec![(s, v)])
            }
            "peek" | "peek_text" | "peek_char" => {
                let mut out = vec![];
                for (some_, s) in self.cases(cx, st) {
                    let mut s = s;
                    if !some_ {
                        out.push((s, none()));
                        continue;
                    }
                    let t = payload(cx, &s.ghost("look"));
                    let v = match last {
                        "peek" => tokf(cx, &t, 0),
                        "peek_text" => tokf(cx, &t, 1),
                        _ => {
                            let ch = sym("charat", vec![tokf(cx, &t, 1), V::Int(0)]);
                            self.len8(&mut s, &ch);
                            ch
                        }
                    };
                    out.push((s, some(v)));
                }
                Some(out)
            }
            "eat" => {
                let mut base = st.clone();
                self.flush(cx, &mut base, &site, d, "the next one is consumed");
                let mut out = vec![];
                for (some_, s) in self.cases(cx, &base) {
                    if !some_ {
                        out.push((s, none()));
                        continue;
                    }
                    let mut s = s;
                    let t = payload(cx, &s.ghost("look"));
                    if s.ghost("ahead") == vstr("whole") {
                        s.set_ghost("ahead", V::Int(0));
                    } else {
                        self.no_partial(cx, &mut s, &site, d, "the rest is consumed");
                        s.set_ghost("due", list(vec![t.clone()]));
                    }
                    self.advance(&mut s);
                    self.new_look(cx, &mut s, &site);
                    out.push((s, some(t)));
                }
                Some(out)
            }
            "consume_utf8_bytes" => {
                let mut base = st.clone();
                self.flush(cx, &mut base, &site, d, "more is consumed");
                let w = cx.our_site(&site);
                let mut out = vec![];
                for (some_, s) in self.cases(cx, &base) {
                    let mut s = s;
                    if !some_ {
                        out.push((s, unit()));
                        continue;
                    }
                    let ahead = s.ghost("ahead");
                    let e = if ahead == vstr("whole") {
                        let t = payload(cx, &s.ghost("look"));
                        let l = len_of(&tokf(cx, &t, 1));
                        cx.eq(&s, &c.args[1], &l)
                    } else {
                        cx.eq(&s, &c.args[1], &ahead)
                    };
                    let ok = cx.decide(&s, &e) == Some(true);
                    d.ob("tokens", format!("{}: exactly the attached text is consumed", w.func()), w.loc(), ok, format!("consumes {} bytes where {} are attached", show(&c.args[1]), show(&ahead)), &s);
                    let z = cx.eq(&s, &c.args[1], &V::Int(0));
                    let (zero, more) = cx.fork(&s, &z);
                    if let Some(x) = zero {
                        out.push((x, unit()));
                    }
                    if let Some(mut s) = more {
                        s.set_ghost("ahead", V::Int(0));
                        self.advance(&mut s);
                        self.new_look(cx, &mut s, &site);
                        out.push((s, unit()));
                    }
                }
                Some(out)
            }
            _ => None,
        }
    }
    fn opened(&self, k: &V, up: &Fr, w: &Site, st: &State, d: &Driver, seq: &str) -> Fr {
        let kind = self.node_kind(k).unwrap_or_default();
        if !self.shape {
            return Fr::new(String::new(), "?");
        }
        d.ob("shape", format!("{}: nodes have kinds of nodes", w.func()), w.loc(), !kind.is_empty() && is_inner(&kind), format!("a node of kind {kind:?} is opened"), st);
        if kind == "ClauseArgument" {
            let ok = matches!(up.kind.as_str(), "ItemCmd" | "ItemBegin" | "ItemAttachComponent");
            d.ob("shape", format!("{}: arguments belong to commands, environments and attachments", w.func()), w.loc(), ok, format!("an argument below {:?}", up.kind), st);
        }
        Fr::new(kind, seq)
    }
    fn builder(&self, cx: &mut Interp, c: &Call, st: &State, d: &Driver, last: &str) -> Option<Outs> {
        let mut st = st.clone();
        let w = cx.our_site(&c.site);
        match last {
            "new" | "default" | "with_cache" | "from_cache" => {
                let mut root = Fr::new(String::new(), if self.shape { "" } else { "?" });
                root.n = 0;
                set_frames(&mut st, &[root]);
                let v = cx.fresh(&st, &c.site, "builder");
                return Some(vec![(st, v)]);
            }
            "token" => {
                let t = crate::models::text_of(cx, &st, &c.args[2], c.tys[2]);
                self.leaf(cx, &mut st, c, &t, d);
                self.attach(cx, &mut st, &t, &c.site, d);
                return Some(vec![(st, unit())]);
            }
            _ => {}
        }
        let Some(mut f) = frames(&st) else {
            d.ob("tree", format!("{}: the builder is known", w.func()), w.loc(), false, "a builder of unknown state".into(), &st);
            return Some(vec![]);
        };
        match last {
            "start_node" => {
                if self.node_kind(&c.args[1]).is_none_or(|k| k == "ClauseArgument") {
                    st.set_ghost("dropped", V::Bool(false));
                } else {
                    self.no_drop(cx, &mut st, &c.site, d, "a node that is no argument");
                }
                f.push(self.opened(&c.args[1], f.last().unwrap(), &w, &st, d, ""));
                set_frames(&mut st, &f);
                Some(vec![(st, unit())])
            }
            "checkpoint" => {
                let v = cx.fresh(&st, &c.site, "ck");
                f.last_mut().unwrap().mark(v.clone());
                set_frames(&mut st, &f);
                Some(vec![(st, v)])
            }
            "start_node_at" => {
                let ck = &c.args[1];
                let own = f.len() == 1;
                let top = f.last_mut().unwrap();
                let at = top.chain.iter().position(|x| x == ck);
                d.ob("tree", format!("{}: a node is only wrapped around items of its own list", w.func()), w.loc(), at.is_some(), "the position is not (any more) one of the open node: the builder panics or wraps other items".into(), &st);
                let empty = at.is_some_and(|i| top.snaps[i] == top.seq && !top.seq.ends_with('?'));
                if let Some(i) = at {
                    top.cut(i, own);
                }
                let top = top.clone();
                let mut n = self.opened(&c.args[2], &top, &w, &st, d, if empty { "" } else { "?" });
                n.keep = 1;
                n.chain = vec![ck.clone()];
                n.snaps = vec![if self.shape { "" } else { "?" }.to_string()];
                f.push(n);
                set_frames(&mut st, &f);
                Some(vec![(st, unit())])
            }
            "finish_node" => {
                let ok = f.len() > 1;
                d.ob("tree", format!("{}: only nodes that it opened are closed", w.func()), w.loc(), ok, "closes a node that this parser did not open".into(), &st);
                self.no_drop(cx, &mut st, &c.site, d, "the end of the node");
                if ok {
                    let n = f.pop().unwrap();
                    self.node(&st, &n, &w, d);

                    f.last_mut().unwrap().child(&n.kind);
                    set_frames(&mut st, &f);
                }
                Some(vec![(st, unit())])
            }
            "finish" => {
                let ok = f.len() == 1 && f[0].n == 1;
                d.ob("tree", format!("{}: the tree has one root", w.func()), w.loc(), ok, format!("{} nodes are open and {} roots are there", f.len() - 1, f[0].n), &st);
                self.rest(cx, &mut st, &c.site, d, "the end of the tree");
                for (some_, s) in self.cases(cx, &st) {
                    d.ob("progress", format!("{}: the whole input is parsed", w.func()), w.loc(), !some_, "the tree is finished while there is input left".into(), &s);
                }
                let v = cx.fresh(&st, &c.site, "green");
                Some(vec![(st, v)])
            }
            _ => None,
        }
    }
    fn tokvec(&self, cx: &mut Interp, c: &Call, st: &State, d: &Driver, last: &str) -> Option<Outs> {
        let mut s = st.clone();
        let w = cx.our_site(&c.site);
        if matches!(last, "new" | "default" | "with_capacity") && is_tokvec(c.ret) {
            return Some(vec![(s, agg(0, vec![]))]);
        }
        let recv = c.tys.first().copied()?;
        let (inner, by_ref) = match pointee(recv) {
            Some((t, _)) => (t, true),
            None => (recv, false),
        };
        if is_tokvec(inner) {
            if by_ref {
                let p = cx.deref(st, &c.args[0]);
                let cur = cx.read(st, &p);
                let empty = cur == agg(0, vec![]);
                match last {
                    "push" => {
                        let due = elems(&s.ghost("due"));
                        let known = due.first() == Some(&c.args[1]);
                        d.ob("tokens", format!("{}: only consumed tokens are held back", w.func()), w.loc(), known, "what is held back is not the token that was consumed".into(), st);
                        let k = tokf(cx, &c.args[1], 0);
                        let ks = self.kinds(cx, st, &k, self.kind_ty());
                        let triv = ks.iter().all(|k| TRIVIA.contains(&k.as_str()));
                        d.ob("tokens", format!("{}: only trivia are held back", w.func()), w.loc(), triv, format!("a token that is no trivia may be held back ({})", ks.iter().take(5).cloned().collect::<Vec<_>>().join("|")), st);
                        if known {
                            s.set_ghost("due", list(due[1..].to_vec()));
                        }
                        s.set_ghost("held", V::Bool(true));
                        cx.write(&mut s, &p, agg(1, vec![]));
                        return Some(vec![(s, unit())]);
                    }
                    "clear" | "truncate" => {
                        if !empty {
                            s.set_ghost("dropped", V::Bool(true));
                            s.set_ghost("held", V::Bool(false));
                        }
                        cx.write(&mut s, &p, agg(0, vec![]));
                        return Some(vec![(s, unit())]);
                    }
                    "drain" => {
                        let b = vstr(&format!("{}:{}", w.func(), w.loc()));
                        self.born(&mut s, &b);
                        cx.write(&mut s, &p, agg(0, vec![]));
                        return Some(vec![(s, agg(3, vec![V::Bool(!empty), b]))]);
                    }
                    "is_empty" => return Some(vec![(s, V::Bool(empty))]),
                    _ => {}
                }
            } else if last == "into_iter" {
                let b = vstr(&format!("{}:{}", w.func(), w.loc()));
                self.born(&mut s, &b);
                let empty = c.args[0] == agg(0, vec![]);
                return Some(vec![(s, agg(3, vec![V::Bool(!empty), b]))]);
            }
        }
        let it = adt_name(inner).unwrap_or_default();
        if (it.ends_with("vec::Drain") || it.ends_with("IntoIter")) && type_args(inner).first().is_some_and(|t| is_tok(*t)) {
            if last == "into_iter" {
                return Some(vec![(s, c.args[0].clone())]);
            }
            if last == "next" && by_ref {
                self.flush(cx, &mut s, &c.site, d, "the next one is taken");
                let p = cx.deref(st, &c.args[0]);
                let cur = elems(&cx.read(st, &p));
                let mut out = vec![];
                if cur.first() == Some(&V::Bool(true)) {
                    let mut y = s.clone();
                    let t = cx.fresh(&y, &c.site, "held");
                    let (k, kt) = (tokf(cx, &t, 0), self.kind_ty());
                    if let (V::Sym(x, 0), Some(i)) = (cx.discr(&k, kt), info(kt)) {
                        for (n, d) in i.names.iter().zip(&i.discrs) {
                            if !TRIVIA.contains(&n.as_str()) {
                                y.assume_ne(x, *d);
                            }
                        }
                    }
                    y.set_ghost("hdue", list(vec![t.clone()]));
                    self.stepped(&mut y, &cur[1]);
                    out.push((y, some(t)));
                }
                s.set_ghost("held", V::Bool(false));
                cx.write(&mut s, &p, agg(3, vec![V::Bool(false), cur.get(1).cloned().unwrap_or(V::Undef)]));
                out.push((s, none()));
                return Some(out);
            }
        }
        None
    }
    fn ctx_id(&self, name: &str, c: &Ctx) -> Option<usize> {
        self.ctxs.borrow().iter().position(|(f, x)| f == name && x == c)
    }
    fn leaf_place(&self, cx: &Interp, st: &State, base: &V, l: &Leaf) -> Pl {
        let mut p = cx.deref(st, base);
        p.path.extend(l.path.iter().cloned());
        p
    }
}

impl Policy for Parse {
    fn entries(&self, cx: &mut Interp, cut: &Cut, args: &[V]) -> Vec<(State, Vec<V>)> {
        if cut.leaves.is_empty() {
            let mut st = State::new();
            st.set_ghost("self", V::Int(-1));
            st.set_ghost("heads", list(vec![]));
            return vec![(st, args.to_vec())];
        }
        let mut out = vec![];
        if *self.canon.borrow_mut().entry(cut.name.clone()).or_insert(cut.fid) != cut.fid {
            return out;
        }
        let ctxs: Vec<(usize, Ctx)> = self.ctxs.borrow().iter().enumerate().filter(|(_, (f, _))| *f == cut.name).map(|(i, (_, c))| (i, c.clone())).collect();
        for (id, cx_) in ctxs {
            if !self.todo.borrow_mut().remove(&id) {
                continue;
            }
            let mut st = State::new();
            let mut a = args.to_vec();
            st.set_ghost("self", V::Int(id as i128));
            for (g, v) in [("heads", list(vec![])), ("due", list(vec![])), ("hdue", list(vec![])), ("ahead", V::Int(0)), ("held", V::Bool(false)), ("dropped", V::Bool(false)), ("moved", V::Bool(false))] {
                st.set_ghost(g, v);
            }
            for (i, k) in cx_.args.iter().enumerate() {
                if let Some(k) = k {
                    a[i] = if is_bool(cut.ptys[i]) {
                        V::Bool(*k != 0)
                    } else {
                        let inf = info(cut.ptys[i]).unwrap();
                        agg(inf.discrs.iter().position(|x| x == k).unwrap() as u32, vec![])
                    };
                }
            }
            let chain: Vec<V> = (0..cx_.n).map(|i| sym("old", vec![vstr("ck"), V::Int(i as i128)])).collect();
            let mut j = 0;
            for l in &cut.leaves {
                let p = self.leaf_place(cx, &st, &a[l.arg], l);
                if class(cut, l) == Class::Ck {
                    let v = match &cx_.cks[j] {
                        Ck::None => none(),
                        Ck::At(i) => some(chain[*i].clone()),
                        _ => some(sym("old", vec![vstr("alien"), V::Int(j as i128)])),
                    };
                    j += 1;
                    cx.write(&mut st, &p, v);
                } else if class(cut, l) == Class::Toks {
                    cx.write(&mut st, &p, agg(0, vec![]));
                } else if class(cut, l) != Class::Flat {
                    // what is in the lexer, the builder and the specification is never looked at
                    let site = Site { fid: cut.fid, bb: 0, span: body(cut.fid).unwrap().blocks[0].span };
                    let v = cx.fresh(&st, &site, &l.name);
                    cx.write(&mut st, &p, v);
                }
            }
            let mut fr = Fr::new(cx_.up.clone(), "?");
            fr.keep = cx_.n;
            fr.snaps = vec!["?".to_string(); cx_.n];
            fr.chain = chain;
            set_frames(&mut st, &[fr]);
            let site = Site { fid: cut.fid, bb: 0, span: body(cut.fid).unwrap().blocks[0].span };
            self.new_look(cx, &mut st, &site);
            for (some_, s) in self.cases(cx, &st) {
                if some_ == cx_.look {
                    out.push((s, a.clone()));
                }
            }
        }
        out
    }
    fn preserved(&self, _cut: &Cut, _leaf: &Leaf) -> bool {
        false
    }
    fn apply(&self, cx: &mut Interp, cut: &Cut, c: &Call, st: &State, d: &Driver) -> Option<Outs> {
        let mut base = st.clone();
        self.rest(cx, &mut base, &c.site, d, &format!("the call of {}", crate::models::last_seg(&cut.name)));
        self.no_drop(cx, &mut base, &c.site, d, &format!("the call of {}", crate::models::last_seg(&cut.name)));
        let w = cx.our_site(&c.site);
        let mut out = vec![];
        for (look, st) in self.cases(cx, &base) {
            let Some(f) = frames(&st) else {
                d.ob("tree", format!("{}: the builder is known", w.func()), w.loc(), false, "a builder of unknown state".into(), &st);
                continue;
            };
            let chain = f.last().unwrap().chain.clone();
            let cur: Vec<Option<V>> = cut
                .leaves
                .iter()
                .filter(|l| class(cut, l) == Class::Ck)
                .map(|l| match cx.read(&st, &self.leaf_place(cx, &st, &c.args[l.arg], l)) {
                    V::Agg(0, _) => None,
                    V::Agg(1, x) => Some(x[0].clone()),
                    o => Some(o),
                })
                .collect();
            for l in cut.leaves.iter().filter(|l| class(cut, l) == Class::Toks) {
                let v = cx.read(&st, &self.leaf_place(cx, &st, &c.args[l.arg], l));
                d.ob("tokens", format!("{}: {} is empty at the call of {}", w.func(), l.name, crate::models::last_seg(&cut.name)), w.loc(), v == agg(0, vec![]), format!("{} may hold tokens", l.name), &st);
            }
            let mut used: Vec<usize> = cur.iter().filter_map(|v| v.as_ref().and_then(|v| chain.iter().position(|x| x == v))).collect();
            used.sort();
            used.dedup();
            let shape = |v: &Option<V>| match v {
                None => Ck::None,
                Some(v) => match chain.iter().position(|x| x == v) {
                    Some(i) => Ck::At(used.iter().position(|u| *u == i).unwrap()),
                    None => Ck::Alien,
                },
            };
            let key = Ctx {
                args: cut
                    .ptys
                    .iter()
                    .enumerate()
                    .map(|(i, t)| {
                        if !flat_enum(*t) {
                            return None;
                        }
                        match &c.args[i] {
                            V::Bool(b) => Some(*b as i128),
                            V::Sym(x, 0) if is_bool(*t) => st.exact(*x),
                            o => match cx.discr(o, *t) {
                                V::Int(i) => Some(i),
                                V::Sym(x, 0) => st.exact(x),
                                _ => None,
                            },
                        }
                    })
                    .collect(),
                look,
                cks: cur.iter().map(shape).collect(),
                n: used.len(),
                up: f.last().filter(|f| matches!(f.kind.as_str(), "ItemCmd" | "ItemBegin" | "ItemAttachComponent")).map(|f| f.kind.clone()).unwrap_or_default(),
            };
            let id = match self.ctx_id(&cut.name, &key) {
                Some(i) => i,
                None => {
                    self.ctxs.borrow_mut().push((cut.name.clone(), key.clone()));
                    let id = self.ctxs.borrow().len() - 1;
                    self.todo.borrow_mut().insert(id);
                    id
                }
            };
            if let V::Int(me) = st.ghost("self") {
                if me >= 0 {
                    self.deps.borrow_mut().entry(id).or_default().insert(me as usize);
                }
            }
            if st.ghost("moved") == V::Bool(false) {
                if let V::Int(me) = st.ghost("self") {
                    if me >= 0 {
                        self.edges.borrow_mut().insert((me as usize, id, w.loc()));
                    }
                }
            }
            let sums: Vec<Sum> = self.sums.borrow().get(&id).map(|s| s.iter().cloned().collect()).unwrap_or_default();
            for sum in sums {
                let mut s = st.clone();
                if sum.moved {
                    self.advance(&mut s);
                }
                let mut f = f.clone();
                let own = f.len() == 1;
                let top = f.last_mut().unwrap();
                if let Some(wr) = sum.wrap {
                    top.cut(used[wr], own);
                }
                top.some_children();
                let (mut j, mut k) = (0, 0);
                for l in &cut.leaves {
                    let p = self.leaf_place(cx, &s, &c.args[l.arg], l);
                    if class(cut, l) == Class::Ck {
                        let v = match &sum.cks[j] {
                            Ck::None => none(),
                            Ck::At(i) => some(chain[used[*i]].clone()),
                            Ck::New => {
                                let v = cx.fresh(&s, &c.site, "ck");
                                top.mark(v.clone());
                                some(v)
                            }
                            Ck::Alien => some(cx.fresh(&s, &c.site, "alien")),
                        };
                        j += 1;
                        cx.write(&mut s, &p, v);
                    } else if class(cut, l) == Class::Toks {
                        cx.write(&mut s, &p, agg(0, vec![]));
                    } else {
                        let same = class(cut, l) == Class::Flat && {
                            k += 1;
                            sum.kept[k - 1]
                        };
                        if !same && class(cut, l) != Class::Foreign {
                            let v = cx.fresh(&s, &c.site, &l.name);
                            mark_bool(&v, l.ty);
                            mark_unsigned(&v, l.ty);
                            cx.write(&mut s, &p, v);
                        }
                    }
                }
                set_frames(&mut s, &f);
                if sum.moved {
                    self.new_look(cx, &mut s, &c.site);
                }
                let v = if cut.ret.kind().is_unit() {
                    unit()
                } else if let Some(r) = sum.ret {
                    if is_bool(cut.ret) {
                        V::Bool(r != 0)
                    } else {
                        agg(info(cut.ret).unwrap().discrs.iter().position(|x| *x == r).unwrap() as u32, vec![])
                    }
                } else {
                    let x = cx.fresh(&s, &c.site, "ret");
                    mark_bool(&x, cut.ret);
                    x
                };
                out.push((s, v.clone()));
            }
        }
        Some(out)
    }
    fn exit(&self, cx: &mut Interp, cut: &Cut, args: &[V], st: &State, v: &V, d: &Driver) {
        if cut.leaves.is_empty() {
            return;
        }
        let site = Site { fid: cut.fid, bb: 0, span: body(cut.fid).unwrap().blocks[0].span };
        let V::Int(id) = st.ghost("self") else { return };
        let ctx = self.ctxs.borrow()[id as usize].1.clone();
        let mut s0 = st.clone();
        self.rest(cx, &mut s0, &site, d, "the end of the parser");
        self.no_drop(cx, &mut s0, &site, d, "the end of the parser");
        let f = frames(st).unwrap_or_default();
        d.ob("tree", format!("{}: the nodes that it opens are closed", cut.name), site.loc(), f.len() == 1, format!("{} nodes are left open", f.len() as i64 - 1), st);
        let Some(top) = f.last() else { return };
        let (top, balanced) = (top.clone(), f.len() == 1);
        let old: Vec<V> = (0..ctx.n).map(|i| sym("old", vec![vstr("ck"), V::Int(i as i128)])).collect();
        let mut cks = vec![];
        let mut kept = vec![];
        for l in &cut.leaves {
            let p = self.leaf_place(cx, st, &args[l.arg], l);
            let now = cx.read(st, &p);
            if class(cut, l) == Class::Ck {
                cks.push(match &now {
                    V::Agg(0, _) => Ck::None,
                    V::Agg(1, x) if balanced && top.chain.contains(&x[0]) => match old.iter().position(|o| *o == x[0]) {
                        Some(i) => Ck::At(i),
                        None => Ck::New,
                    },
                    _ => Ck::Alien,
                });
            } else if class(cut, l) == Class::Toks {
                d.ob("tokens", format!("{}: {} is empty at the end", cut.name, l.name), site.loc(), now == agg(0, vec![]), "tokens are still held back".into(), st);
            } else if class(cut, l) == Class::Flat {
                let mut e = State::new();
                e.mem.clear();
                let was = cx.read(&e, &self.leaf_place(cx, &e, &args[l.arg], l));
                let same = was == now;
                d.ob("tree", format!("{}: {} is restored", cut.name, l.name), site.loc(), same, format!("{} is {} afterwards", l.name, show(&now)), st);
                kept.push(same);
            }
        }
        {
            let s = s0;
            let ret = if flat_enum(cut.ret) {
                match v {
                    V::Bool(b) => Some(*b as i128),
                    V::Sym(x, 0) if is_bool(cut.ret) => s.exact(*x),
                    V::Sym(..) | V::Agg(..) => match cx.discr(v, cut.ret) {
                        V::Int(i) => Some(i),
                        V::Sym(x, 0) => s.exact(x),
                        _ => None,
                    },
                    _ => None,
                }
            } else {
                None
            };
            let sum = Sum { ret, moved: s.ghost("moved") == V::Bool(true), wrap: (top.wrap >= 0 && (top.wrap as usize) < ctx.n).then_some(top.wrap as usize), cks: cks.clone(), kept: kept.clone() };
            let mut m = self.sums.borrow_mut();
            if m.entry(id as usize).or_default().insert(sum) {
                self.grown.set(true);
                self.todo.borrow_mut().extend(self.deps.borrow().get(&(id as usize)).into_iter().flatten());
            }
        }
    }
    fn call(&self, cx: &mut Interp, c: &Call, st: &State, d: &Driver) -> Option<Outs> {
        let kr = c.inst.def.krate().name.to_string();
        let last = crate::models::last_seg(c.name);
        let (slf, _tr) = crate::models::split(c.name);
        if kr == "mitex_lexer" && slf.ends_with("::Lexer") {
            if let Some(o) = self.lexer(cx, c, st, d, last) {
                return Some(o);
            }
        }
        if kr == "rowan" && slf.ends_with("GreenNodeBuilder") {
            return self.builder(cx, c, st, d, last);
        }
        if kr == "rowan" {
            return Some(cx.default_opaque(c, st.clone()));
        }
        if let Some(o) = self.tokvec(cx, c, st, d, last) {
            return Some(o);
        }
        if self.syn.borrow().is_none() {
            if let Some(t) = c.tys.iter().find(|t| adt_name(**t).is_some_and(|n| n.ends_with("::SyntaxKind") && n.starts_with("mitex"))) {
                *self.syn.borrow_mut() = Some(*t);
            }
        }
        // what kind of node or leaf it becomes is of no interest here
        if is_ours(&kr) && c.args.len() == 1 && c.tys[0] == self.kind_ty() && adt_name(c.ret).is_some_and(|n| n.ends_with("SyntaxKind")) {
            if self.shape {
                if self.leaf.borrow().is_empty() {
                    let t = sym("any", vec![vstr("token")]);
                    let mut m: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
                    for (s, v) in cx.run_keeping(c.fid, vec![t.clone()], State::new(), vec![t.clone()]) {
                        for tok in self.kinds(cx, &s, &t, self.kind_ty()) {
                            for (k, _) in cx.cases(&s, &v, c.ret) {
                                m.entry(tok.clone()).or_default().insert(variant_name(c.ret, k));
                            }
                        }
                    }
                    *self.leaf.borrow_mut() = m;
                }
                let w = cx.our_site(&Site { fid: c.fid, bb: 0, span: body(c.fid).map_or(c.site.span, |b| b.blocks[0].span) });
                for (t, ks) in self.leaf.borrow().iter() {
                    let bad: Vec<&String> = ks.iter().filter(|k| !leaf_kinds(t).contains(&k.as_str())).collect();
                    d.ob("shape", format!("the leaf of the token {t}"), w.loc(), bad.is_empty(), format!("the token {t} becomes {bad:?} in the tree"), st);
                }
            }
            return Some(vec![(st.clone(), sym("kindof", vec![c.args[0].clone()]))]);
        }
        if kr == "mitex_glob" {
            let v = cx.fresh(st, &c.site, "matched");
            mark_bool(&v, c.ret);
            return Some(vec![(st.clone(), v)]);
        }
        if kr == "core" || kr == "std" || kr == "alloc" {
            // the text of a pattern is of no interest
            if slf == "std::string::String" && matches!(last, "push" | "push_str") {
                let p = cx.deref(st, &c.args[0]);
                let mut s = st.clone();
                let v = cx.fresh(&s, &c.site, "text");
                cx.write(&mut s, &p, v);
                return Some(vec![(s, unit())]);
            }
            if last == "into_iter" && c.args.len() == 1 && c.tys[0] == c.ret {
                return Some(vec![(st.clone(), c.args[0].clone())]);
            }
            if last == "chars" && c.args.len() == 1 && slf.contains("str") {
                let w = cx.our_site(&c.site);
                let b = vstr(&format!("{}:{}", w.func(), w.loc()));
                let t = crate::models::text_of(cx, st, &c.args[0], c.tys[0]);
                let mut s = st.clone();
                self.born(&mut s, &b);
                return Some(vec![(s, agg(7, vec![t, V::Int(0), b]))]);
            }
            if last == "next" && c.args.len() == 1 && slf.ends_with("Chars") {
                let p = cx.deref(st, &c.args[0]);
                if let V::Agg(7, f) = cx.read(st, &p) {
                    let look = payload(cx, &st.ghost("look"));
                    // the lexer never makes an empty word
                    let whole = tokf(cx, &look, 1) == f[0];
                    let z = cx.eq(st, &f[1], &V::Int(0));
                    let (zero, more) = cx.fork(st, &z);
                    let mut out = vec![];
                    for (s, first) in [(zero, true), (more, false)] {
                        let Some(s) = s else { continue };
                        if !(first && whole) {
                            out.push((s.clone(), none()));
                        }
                        let mut s = s;
                        let ch = sym("charat", vec![f[0].clone(), f[1].clone()]);
                        let l = self.len8(&mut s, &ch);
                        let np = self.plus(cx, &s, &f[1], &l);
                        cx.write(&mut s, &p, agg(7, vec![f[0].clone(), np, f[2].clone()]));
                        self.stepped(&mut s, &f[2]);
                        out.push((s, some(ch)));
                    }
                    return Some(out);
                }
            }
            if last == "len_utf8" && c.args.len() == 1 {
                let mut s = st.clone();
                let l = self.len8(&mut s, &c.args[0]);
                return Some(vec![(s, l)]);
            }
            if last == "strip_prefix" && c.args.len() == 2 {
                // commands begin with a backslash
                let look = payload(cx, &st.ghost("look"));
                if st.ghost("look") != V::Undef && tokf(cx, &look, 1) == c.args[0] {
                    let k = tokf(cx, &look, 0);
                    let ks = self.kinds(cx, st, &k, self.kind_ty());
                    if c.args[1] == V::Int('\\' as i128) && !ks.is_empty() && ks.iter().all(|k| k.starts_with("CommandName(") && !k.contains("Environment")) {
                        return Some(vec![(st.clone(), some(crate::models::slice(&c.args[0], &V::Int(1), &V::Int(-1))))]);
                    }
                }
            }
        }
        None
    }
    fn after(&self, cx: &mut Interp, c: &Call, outs: Outs, _d: &Driver) -> Outs {
        let last = crate::models::last_seg(c.name);
        if self.shape && last == "get_cmd" && c.args.len() == 2 {
            let mut out = vec![];
            for (s, v) in outs {
                let n = crate::models::text_of(cx, &s, &c.args[1], c.tys[1]);
                for (var, s) in cx.cases(&s, &v, c.ret) {
                    if var == 0 {
                        let mut s = s;
                        s.set_ghost("tame", n.clone());
                        out.push((s, none()));
                        continue;
                    }
                    let keep = vec![n.clone(), v.clone()];
                    for (s, g) in cx.run_keeping(self.greedy, vec![v.clone()], s, keep) {
                        let (yes, no) = cx.fork(&s, &g);
                        out.extend(yes.map(|s| (s, v.clone())));
                        if let Some(mut s) = no {
                            s.set_ghost("tame", n.clone());
                            out.push((s, v.clone()));
                        }
                    }
                }
            }
            return out;
        }
        if last == "next" && c.name.contains("Iterator") && adt_name(c.ret).is_some_and(|n| n.ends_with("option::Option")) {
            let (slf, _) = crate::models::split(c.name);
            if !slf.ends_with("Chars") && !slf.ends_with("Drain") && !slf.ends_with("IntoIter") {
                return outs
                    .into_iter()
                    .map(|(mut s, v)| {
                        if v != none() {
                            self.stepped(&mut s, &vstr("iterator"));
                        }
                        (s, v)
                    })
                    .collect();
            }
        }
        outs
    }
    fn inline(&self, name: &str, krate: &str) -> Option<bool> {
        if krate == "mitex_glob" || krate == "mitex_lexer" && name.contains("MacroEngine") {
            return Some(false);
        }
        None
    }
    fn at_head(&self, cx: &mut Interp, b: &BodyInfo, head: usize, depth: u32, st: &mut State, d: &Driver) {
        if st.ghost("look") == V::Undef {
            return;
        }
        let key = V::Int(b.fid as i128 * 10000 + head as i128);
        let dep = V::Int(depth as i128);
        let me = b.rpo[head];
        let mut hs = elems(&st.ghost("heads"));
        let site = Site { fid: b.fid, bb: head, span: b.blocks[head].span };
        let mut seen = None;
        hs.retain(|h| {
            let e = elems(h);
            if e[0] == key && e[1] == dep {
                seen = Some(h.clone());
                return false;
            }
            // loops inside of this one start anew
            match (&e[0], &e[1]) {
                (V::Int(k), V::Int(x)) => !(*x == depth as i128 && *k / 10000 == b.fid as i128 && b.rpo[(*k % 10000) as usize] > me),
                _ => true,
            }
        });
        let mut born = list(vec![]);
        if let Some(h) = seen {
            let e = elems(&h);
            let ok = e[2] == V::Bool(true);
            let w = cx.our_site(&site);
            d.ob("progress", format!("{}: every turn of a loop consumes input", b.name), w.loc(), ok, "a turn of the loop may consume nothing: it never ends".into(), st);
            born = e[3].clone();
        }
        hs.push(list(vec![key, dep, V::Bool(false), born]));
        st.set_ghost("heads", list(hs));
        // checkpoints that nobody remembers
        if let Some(mut f) = frames(st) {
            let mut ch = false;
            for fr in f.iter_mut() {
                let keep = fr.keep;
                let mut i = 0;
                let before = fr.chain.len();
                let snaps = std::mem::take(&mut fr.snaps);
                fr.chain.retain(|c| {
                    i += 1;
                    let keep = i <= keep || st.mem.iter().any(|(o, v)| !matches!(o, Obj::Ghost("frames")) && occurs(v, c));
                    if keep {
                        fr.snaps.push(snaps[i - 1].clone());
                    }
                    keep
                });
                ch |= fr.chain.len() != before;
            }
            if ch {
                set_frames(st, &f);
            }
        }
    }
    fn leave(&self, _cx: &mut Interp, _b: &BodyInfo, depth: u32, st: &mut State, _d: &Driver) {
        let hs = elems(&st.ghost("heads"));
        if hs.is_empty() {
            return;
        }
        let k: Vec<V> = hs.into_iter().filter(|h| matches!(&elems(h)[1], V::Int(x) if *x < depth as i128)).collect();
        st.set_ghost("heads", list(k));
    }
    fn panics(&self, cx: &mut Interp, st: &State, site: &Site, what: &str, d: &Driver) {
        let s = cx.our_site(site);
        if what.contains("len8") {
            return; // lengths of texts in memory do not overflow
        }
        d.ob("tree", format!("{}: {}", s.func(), what.chars().take(80).collect::<String>()), s.loc(), false, format!("may panic: {what}"), st);
    }
    fn round(&self, dirty: bool) -> bool {
        if std::env::var("MXSA_ROUND").is_ok() {
            let m = self.sums.borrow();
            for (i, (f, c)) in self.ctxs.borrow().iter().enumerate() {
                eprintln!("  {i} {f} {c:?}");
                for s in m.get(&i).into_iter().flatten() {
                    eprintln!("       {s:?}");
                }
            }
        }
        let mut todo = self.todo.borrow_mut();
        if dirty {
            *todo = (0..self.ctxs.borrow().len()).collect();
            return true;
        }
        let more = !todo.is_empty() || self.grown.get();
        self.grown.set(false);
        more
    }
    fn cumulative(&self) -> bool {
        true
    }
    fn done(&self, d: &Driver) {
        // recursion without consuming anything
        let e = self.edges.borrow();
        let ctxs = self.ctxs.borrow();
        let mut reach: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
        for (a, b, _) in e.iter() {
            reach.entry(*a).or_default().insert(*b);
        }
        loop {
            let mut ch = false;
            for a in reach.keys().cloned().collect::<Vec<_>>() {
                let add: Vec<usize> = reach[&a].iter().flat_map(|b| reach.get(b).into_iter().flatten().copied()).collect();
                for x in add {
                    ch |= reach.get_mut(&a).unwrap().insert(x);
                }
            }
            if !ch {
                break;
            }
        }
        for (i, (f, _)) in ctxs.iter().enumerate() {
            let bad = reach.get(&i).is_some_and(|r| r.contains(&i));
            let n = f.clone();
            let loc = self.canon.borrow().get(f).and_then(|f| body(*f).map(|b| (*f, b))).map(|(f, b)| Site { fid: f, bb: 0, span: b.blocks[0].span }.loc()).unwrap_or_default();
            d.ob("progress", format!("{n}: it calls itself only after consuming something"), loc, !bad, "it may call itself without having consumed anything".into(), &State::new());
        }
    }
}

pub fn run(out: &str, shape: bool) {
    let roots: Vec<u32> = ["root_parse", "root_parse_without_macro"].iter().map(|r| find_root(r).expect("root")).collect();
    let probe = find_root("probe_tok").expect("probe_tok");
    let tok_opt = body(probe).unwrap().tys[0];
    let p = Parse { shape, tok_opt, syn: Default::default(), leaf: Default::default(), greedy: find_root("probe_greedy").expect("probe_greedy"), ctxs: Default::default(), sums: Default::default(), edges: Default::default(), todo: Default::default(), deps: Default::default(), grown: Default::default(), canon: Default::default() };
    let d = Driver::new(Box::new(p));
    let cx = d.run(&roots, 600);
    std::fs::write(out, json("parse", &d, &cx, &roots, &[])).unwrap();
}

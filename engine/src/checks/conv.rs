//! The converter: every conversion of a syntax element, from a generic state of the conversion.
use super::driver::*;
use super::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

pub struct Conv {
    pub kind_of: u32,
    pub leaf_kind: u32,
    pub cmd_name: u32,
    pub env_name: u32,
    pub greedy: u32,
    /// closures by the name of their type
    pub closures: RefCell<BTreeMap<String, Ty>>,
    /// pairs of an integer and an enum in the state of the conversion: what the integer is at least, per variant
    pub least: RefCell<BTreeMap<(u32, String, String), Vec<i128>>>,
    /// what has been looked up in the specification: the name, and what was found
    pub shapes: RefCell<Vec<(V, V)>>,
    /// what is being analysed
    pub cur: RefCell<Option<Cut>>,
    pub weaker: Cell<bool>,
    /// while a closure is tried on a child of some kind: that kind
    pub kind_is: Cell<Option<i128>>,
    /// is every part of the document converted?
    pub flow: Option<super::flow::Flow>,
}

fn own_enum_or_int(ty: Ty) -> bool {
    if int_bits(ty).is_some_and(|(b, _)| b > 1) {
        return true;
    }
    match rigid(ty) {
        Some(RigidTy::Adt(d, _)) => matches!(d.kind(), AdtKind::Enum) && is_ours(&d.krate().name.to_string()),
        _ => false,
    }
}
pub fn is_elem(ty: Ty) -> bool {
    let t = pointee(ty).map(|(t, _)| t).unwrap_or(ty);
    adt_name(t).is_some_and(|n| n.ends_with("NodeOrToken"))
}
/// names of the variants of SyntaxKind in order
pub fn kinds(f: u32) -> (Ty, Rc<EnumInfo>) {
    let t = body(f).unwrap().tys[0];
    (t, info(t).unwrap())
}

/// one piece of emitted text on the stack of open delimiters
/// stack characters: ( [ { $ " ; a trailing backslash means the next character is escaped
pub fn delims(stack: &str, text: &str) -> Result<String, char> {
    let mut s: Vec<char> = stack.chars().collect();
    for c in text.chars() {
        if s.last() == Some(&'\\') {
            s.pop();
            continue;
        }
        if c == '\\' {
            s.push('\\');
            continue;
        }
        if s.last() == Some(&'"') {
            if c == '"' {
                s.pop();
            }
            continue;
        }
        match c {
            '(' | '[' | '{' | '"' => s.push(c),
            ')' | ']' | '}' => {
                let want = match c {
                    ')' => '(',
                    ']' => '[',
                    _ => '{',
                };
                if s.last() == Some(&want) {
                    s.pop();
                } else {
                    return Err(c);
                }
            }
            '$' => {
                if s.last() == Some(&'$') {
                    s.pop();
                } else {
                    s.push('$')
                }
            }
            _ => {}
        }
    }
    Ok(s.into_iter().collect())
}
/// pieces of text, flattened
pub fn flat(v: &V, out: &mut Vec<V>) {
    if let V::Sym(t, 0) = v {
        let n = node(*t);
        if &*n.op == "concat" {
            for a in &n.args {
                flat(a, out);
            }
            return;
        }
    }
    out.push(v.clone());
}

/// what has been written for a leaf: literal text; \u{1}: some character, \u{2}: any other text, \u{3}: too much
const CHAR: char = '\u{1}';
const TEXT: char = '\u{2}';
const MUCH: char = '\u{3}';
fn is_mark(k: &str) -> bool {
    k.starts_with("Token") && k != "TokenCommandSym" || k == "ItemNewLine"
}
/// the mark that a kind of leaf stands for, if Typst gives that mark a meaning of its own
fn escaped(k: &str) -> Option<char> {
    Some(match k {
        "TokenComma" => ',',
        "TokenSlash" => '/',
        "TokenCaret" => '^',
        "TokenUnderscore" => '_',
        "TokenHash" => '#',
        "TokenAsterisk" => '*',
        "TokenAtSign" => '@',
        "TokenDitto" => '"',
        "TokenSemicolon" => ';',
        "TokenLParen" => '(',
        "TokenRParen" => ')',
        "TokenLBracket" => '[',
        "TokenRBracket" => ']',
        _ => return None,
    })
}
/// the text that may be written for a leaf of this kind
fn expected(k: &str, math: bool, env: &str) -> Option<Vec<String>> {
    if let Some(c) = escaped(k) {
        return Some(vec![format!("\\{c}")]);
    }
    let v: Vec<&str> = match k {
        "TokenLBrace" | "TokenRBrace" | "TokenDollar" | "TokenBeginMath" | "TokenEndMath" | "TokenComment" => vec![""],
        "TokenApostrophe" => vec!["'"],
        "TokenTilde" if math => vec!["space.nobreak"],
        "TokenTilde" => vec!["\\~", "~"],
        "TokenAmpersand" if env == "Matrix" => vec!["zws ,", ","],
        "TokenAmpersand" => vec!["&"],
        "ItemNewLine" => match env {
            "Matrix" => vec!["zws ;", ";"],
            "Cases" => vec![","],
            "MathCurlyGroup" => vec![""],
            _ => vec!["\\"],
        },
        _ => return None,
    };
    Some(v.into_iter().map(|s| s.to_string()).collect())
}
impl Conv {
    /// one more piece is written for a leaf; repetitions of the same pieces are not counted
    fn wrote(&self, st: &mut State, p: &V) {
        let V::Str(o) = st.ghost("out") else { return };
        let mut o = o.to_string();
        match p {
            V::Str(t) => o += t,
            V::Sym(t, 0) if &*op_of(*t) == "charstr" => o.push(CHAR),
            _ => o.push(TEXT),
        }
        // what is repeated by a loop
        let v: Vec<char> = o.chars().collect();
        for n in 1..=v.len() / 3 {
            if v[v.len() - n..] == v[v.len() - 2 * n..v.len() - n] && v[v.len() - n..] == v[v.len() - 3 * n..v.len() - 2 * n] {
                o = v[..v.len() - n].iter().collect();
                break;
            }
        }
        if o.len() > 60 {
            o = MUCH.to_string();
        }
        st.set_ghost("out", vstr(&o));
    }
    /// leaves of the tree come out as what they mean in Typst
    fn marks(&self, cx: &mut Interp, cut: &Cut, args: &[V], st: &State, k: &str, w: &str, loc: &str, d: &Driver) {
        if !is_mark(k) {
            return;
        }
        let find = |n: &str| cut.leaves.iter().find(|l| adt_name(l.ty).is_some_and(|t| t.ends_with(n)));
        let (Some(m), Some(e)) = (find("LaTeXMode"), find("LaTeXEnv")) else { return };
        let entry = |cx: &mut Interp, l: &Leaf| {
            let mut p = cx.deref(&State::new(), &args[l.arg]);
            p.path.extend(l.path.iter().cloned());
            cx.read(&State::new(), &p)
        };
        let (vm, ve) = (entry(cx, m), entry(cx, e));
        let out = match st.ghost("out") {
            V::Str(s) => s.to_string(),
            _ => MUCH.to_string(),
        };
        let shown = out.replace(CHAR, "<c>").replace(TEXT, "<text>").replace(MUCH, "...");
        for (a, s) in cx.cases(st, &vm, m.ty) {
            let math = variant_name(m.ty, a) == "Math";
            for (b, s) in cx.cases(&s, &ve, e.ty) {
                let env = variant_name(e.ty, b);
                let place = format!("in {} mode{}", if math { "math" } else { "text" }, if matches!(k, "TokenAmpersand" | "ItemNewLine") { format!(", environment {env}") } else { String::new() });
                let key = format!("{w}: what is written {place}");
                if let Some(x) = expected(k, math, &env) {
                    let ok = x.iter().any(|x| x.trim_end() == out.trim_end() && (!x.is_empty() || out.is_empty()));
                    d.ob("marks", key, loc.to_string(), ok, format!("{place}, {shown:?} is written for {k} instead of {:?}", x[0]), &s);
                    continue;
                }
                match k {
                    // the letters of a word don't form a name
                    "TokenWord" if math => {
                        let v: Vec<char> = out.chars().collect();
                        let apart = (0..v.len()).all(|i| match v[i] {
                            CHAR => v.get(i + 1).is_some_and(|c| c.is_whitespace()),
                            c => c.is_whitespace(),
                        });
                        d.ob("marks", key, loc.to_string(), apart, format!("{place}, {shown:?} is written for {k}: letters are not set apart"), &s);
                    }
                    "TokenWord" => {
                        let ok = out == TEXT.to_string() || out.chars().all(|c| c == CHAR);
                        d.ob("marks", key, loc.to_string(), ok, format!("{place}, {shown:?} is written for {k}"), &s);
                    }
                    "TokenWhiteSpace" | "TokenLineBreak" => {
                        let ok = out.chars().all(|c| c == TEXT || c == ' ') && (k == "TokenWhiteSpace" || out.starts_with(TEXT));
                        d.ob("marks", key, loc.to_string(), ok, format!("{place}, {shown:?} is written for {k}"), &s);
                    }
                    _ => {}
                }
            }
        }
    }
    /// the kinds that a leaf can be of
    fn leaf_kinds(&self, cx: &mut Interp, st: &State, t: &V) -> Vec<String> {
        let mut s = st.clone();
        let o = Obj::Tmp(9001, 0);
        s.mem.insert(o.clone(), t.clone());
        let a = V::Ref(Rc::new(Pl { obj: o, path: vec![] }), false);
        let kt = kinds(self.kind_of).0;
        let mut out = BTreeSet::new();
        for (s, v) in cx.run_keeping(self.leaf_kind, vec![a], s, vec![t.clone()]) {
            for (k, _) in cx.cases(&s, &v, kt) {
                out.insert(variant_name(kt, k));
            }
        }
        out.into_iter().collect()
    }
    /// the integers and enums in the state of the conversion
    fn pairs(cut: &Cut) -> Vec<(Leaf, Leaf)> {
        let own = |l: &&Leaf| own_enum_or_int(l.ty);
        let int = |l: &&Leaf| int_bits(l.ty).is_some();
        cut.leaves.iter().filter(own).filter(int).flat_map(|i| cut.leaves.iter().filter(own).filter(|e| int_bits(e.ty).is_none()).map(move |e| (i.clone(), e.clone()))).collect()
    }
    pub fn read_leaf(cx: &mut Interp, st: &State, args: &[V], l: &Leaf) -> V {
        let mut p = cx.deref(st, &args[l.arg]);
        p.path.extend(l.path.iter().cloned());
        cx.read(st, &p)
    }
    /// the ways in which the state of the conversion at entry can be, by what is known of it
    fn assuming(&self, cx: &mut Interp, st: &State) -> Vec<State> {
        let Some(cut) = self.cur.borrow().clone() else { return vec![st.clone()] };
        let args: Vec<V> = (0..cut.ptys.len()).map(|i| arg(i, cut.ptys[i])).collect();
        let mut out = vec![st.clone()];
        for (i, e) in Self::pairs(&cut) {
            let Some(ks) = self.least.borrow().get(&(cut.fid, i.name.clone(), e.name.clone())).cloned() else { continue };
            if ks.iter().all(|k| *k == 0) {
                continue;
            }
            let (vi, ve) = (Self::read_leaf(cx, &State::new(), &args, &i), Self::read_leaf(cx, &State::new(), &args, &e));
            let mut next = vec![];
            for s in out {
                for (var, s) in cx.cases(&s, &ve, e.ty) {
                    let lt = cx.lt(&s, &vi, &V::Int(ks[var as usize]));
                    next.extend(cx.fork(&s, &lt).1);
                }
            }
            out = next;
        }
        out
    }
    /// does the function call itself with the same value in some part of the state?
    fn same_as_entry(&self, cx: &mut Interp, st: &State, cut: &Cut, args: &[V], l: &Leaf) -> bool {
        if self.cur.borrow().as_ref().is_none_or(|c| c.fid != cut.fid) {
            return false;
        }
        let mine: Vec<V> = (0..cut.ptys.len()).map(|i| arg(i, cut.ptys[i])).collect();
        Self::read_leaf(cx, st, args, l) == Self::read_leaf(cx, &State::new(), &mine, l)
    }
    /// what is assumed at entry has to hold wherever the function is called
    fn weaken(&self, cx: &mut Interp, cut: &Cut, args: &[V], st: &State) {
        if self.least.borrow().keys().any(|k| k.0 == cut.fid) && cut.leaves.iter().filter(|l| own_enum_or_int(l.ty)).all(|l| self.same_as_entry(cx, st, cut, args, l)) {
            return;
        }
        let known = self.assuming(cx, st);
        let mut new = vec![];
        for (i, e) in Self::pairs(cut) {
            let key = (cut.fid, i.name.clone(), e.name.clone());
            let old = self.least.borrow().get(&key).cloned();
            let mut ks = old.clone().unwrap_or_else(|| vec![4; info(e.ty).map(|x| x.names.len()).unwrap_or(0)]);
            for s in &known {
                if old.is_some() && self.same_as_entry(cx, s, cut, args, &i) && self.same_as_entry(cx, s, cut, args, &e) {
                    continue;
                }
                let (vi, ve) = (Self::read_leaf(cx, s, args, &i), Self::read_leaf(cx, s, args, &e));
                for (var, s) in cx.cases(s, &ve, e.ty) {
                    while ks[var as usize] > 0 {
                        let lt = cx.lt(&s, &vi, &V::Int(ks[var as usize]));
                        if cx.decide(&s, &lt) == Some(false) {
                            break;
                        }
                        ks[var as usize] -= 1;
                    }
                }
            }
            if old.as_ref() != Some(&ks) {
                self.weaker.set(true);
            }
            new.push((key, ks));
        }
        self.least.borrow_mut().extend(new);
    }
    /// does the closure hold for every child of this kind?
    pub fn accepts(&self, cx: &mut Interp, st: &State, name: &str, kind: &str) -> Option<bool> {
        let fty = *self.closures.borrow().get(name)?;
        let (ins, ret) = crate::models::fn_inputs(fty)?;
        let inner = pointee(fty).map(|x| x.0).unwrap_or(fty);
        // without captures only
        if ins.len() != 1 || !matches!(rigid(inner), Some(RigidTy::Closure(..)) if nfields(inner, 0) == 0) {
            return None;
        }
        let mut s = st.clone();
        let o = Obj::Tmp(9002, 0);
        let e = sym("any child", vec![]);
        let mut t = ins[0];
        let mut a = e.clone();
        if let Some((x, _)) = pointee(t) {
            s.mem.insert(o.clone(), e.clone());
            a = V::Ref(Rc::new(Pl { obj: o, path: vec![] }), false);
            t = x;
        }
        let (kt, inf) = kinds(self.kind_of);
        let want = inf.names.iter().position(|n| n == kind)?;
        // kind() of the child is what it is whichever of its types it has
        let kv = if super::parse::is_leaf(kind) { 1 } else { 0 };
        let an = adt_name(t)?;
        let tn = short_name(&an);
        if tn == "NodeOrToken" {
            let V::Sym(d, _) = cx.discr(&e, t) else { return None };
            s.assume_eq(d, kv);
        } else if (tn == "SyntaxNode") != (kv == 0) {
            return None;
        }
        let site = Site { fid: self.kind_of, bb: 0, span: body(self.kind_of)?.blocks[0].span };
        let mut all = BTreeSet::new();
        self.kind_is.set(Some(inf.discrs[want]));
        let f = V::Undef;
        let _ = kt;
        for (s, v) in cx.call_value(&f, fty, vec![a], ins.clone(), ret, &site, s) {
            let (x, y) = cx.fork(&s, &v);
            all.extend(x.map(|_| true));
            all.extend(y.map(|_| false));
        }
        self.kind_is.set(None);
        if std::env::var("MXSA_WHY").is_ok() {
            eprintln!("closure {name} on {kind}: {all:?}");
        }
        if all.len() == 1 { all.pop_first() } else { None }
    }
    /// the first of the children of a command that are not its name: the node
    fn first_child(&self, cx: &mut Interp, st: &State, v: &V) -> Option<V> {
        let V::Sym(t, 0) = v else { return None };
        let n = node(*t);
        match crate::models::last_seg(&n.op) {
            "first" | "next" => self.no_name(cx, st, &n.args[0]),
            "get" | "nth" | "index" if n.args.get(1) == Some(&V::Int(0)) => self.no_name(cx, st, &n.args[0]),
            _ => None,
        }
    }
    /// all children of a node but the name
    fn no_name(&self, cx: &mut Interp, st: &State, v: &V) -> Option<V> {
        let V::Sym(t, 0) = v else { return None };
        let n = node(*t);
        let op = n.op.split(':').next().unwrap_or("").to_string();
        let last = crate::models::last_seg(&n.op).to_string();
        if op == "collect" || last == "deref" || last == "iter" || last == "into_iter" || last == "peekable" || last == "as_slice" {
            return self.no_name(cx, st, &n.args[0]);
        }
        if last == "filter" {
            let V::Sym(k, 0) = &n.args[0] else { return None };
            let c = node(*k);
            if !c.op.ends_with("children_with_tokens") {
                return None;
            }
            let V::Sym(f, 0) = &n.args[1] else { return None };
            let f = node(*f);
            let V::Str(name) = &f.args[0] else { return None };
            if self.accepts(cx, st, name, "ClauseCommandName") == Some(false) && self.accepts(cx, st, name, "ClauseArgument") == Some(true) {
                return Some(c.args[0].clone());
            }
        }
        None
    }
    /// no tree is like this: a command that takes all that follows has an argument (C08)
    fn impossible(&self, cx: &mut Interp, st: &State) -> bool {
        for (t, f) in &st.facts {
            let n = node(*t);
            if &*n.op == "count" && (f.get() == Some(0) || f.hi == Some(0)) {
                let of = self.no_name(cx, st, &n.args[0]);
                if of.is_some_and(|nd| self.takes_all(cx, st, &nd)) {
                    return true;
                }
                continue;
            }
            let (Some(x), "discr") = (f.get(), &*n.op) else { continue };
            let V::Str(ty) = &n.args[1] else { continue };
            // nothing at all, or a leaf
            let of = if ty.starts_with("std::option::Option") && x == 0 {
                self.first_child(cx, st, &n.args[0])
            } else if ty.contains("NodeOrToken") && !ty.starts_with("std::option::Option") && x == 1 {
                inside_some(&n.args[0]).and_then(|v| self.first_child(cx, st, &v)).or_else(|| {
                    let mut v = n.args[0].clone();
                    while let V::Sym(t, 0) = &v {
                        let m = node(*t);
                        match (crate::models::last_seg(&m.op), m.args.get(1)) {
                            ("index", Some(V::Int(0))) => return self.no_name(cx, st, &m.args[0]),
                            ("deref", _) => v = m.args[0].clone(),
                            _ => break,
                        }
                    }
                    None
                })
            } else {
                None
            };
            if std::env::var("MXSA_WHY").is_ok() {
                eprintln!("first child: {x} {} {:?}", ty, of.is_some());
            }
            let Some(nd) = of else { continue };
            if self.takes_all(cx, st, &nd) {
                return true;
            }
        }
        false
    }
    /// does the command take all that follows?
    fn takes_all(&self, cx: &mut Interp, st: &State, nd: &V) -> bool {
        let shapes: Vec<V> = self.shapes.borrow().iter().filter(|(k, _)| mentions(k, nd)).map(|(_, v)| v.clone()).collect();
        for v in shapes {
            let all: Vec<bool> = cx
                .run_keeping(self.greedy, vec![v], st.clone(), vec![])
                .into_iter()
                .flat_map(|(s, v)| {
                    let (a, b) = cx.fork(&s, &v);
                    a.map(|_| true).into_iter().chain(b.map(|_| false)).collect::<Vec<_>>()
                })
                .collect();
            if !all.is_empty() && all.iter().all(|b| *b) {
                return true;
            }
        }
        false
    }
    pub fn kname(&self, st: &State) -> String {
        match st.ghost("kind") {
            V::Int(k) => {
                let (t, inf) = kinds(self.kind_of);
                let _ = t;
                inf.discrs.iter().position(|d| *d == k).map(|i| inf.names[i].clone()).unwrap_or_default()
            }
            _ => String::new(),
        }
    }
    fn where_(&self, cut: &Cut, st: &State) -> String {
        let k = self.kname(st);
        if k.is_empty() {
            cut.name.clone()
        } else {
            format!("{}[{}]", cut.name, k)
        }
    }
}
fn short_name(s: &str) -> &str {
    s.rsplit("::").next().unwrap_or(s)
}
/// x of `deref(x.Some.0)` or `x.Some.0`
fn inside_some(v: &V) -> Option<V> {
    let V::Sym(t, 0) = v else { return None };
    let n = node(*t);
    match &*n.op {
        "deref" => inside_some(&n.args[0]),
        "f" if n.args[1] == V::Int(1) => Some(n.args[0].clone()),
        _ => None,
    }
}
pub fn mentions(v: &V, what: &V) -> bool {
    v == what
        || match v {
            V::Sym(t, _) => node(*t).args.iter().any(|a| mentions(a, what)),
            V::Agg(_, x) => x.iter().any(|a| mentions(a, what)),
            _ => false,
        }
}
fn col(name: &str) -> bool {
    matches!(name, "color" | "textcolor" | "colorbox")
}
/// is some text known to be one of the names of colour commands?
fn colour(st: &State) -> bool {
    st.facts.keys().any(|t| {
        let n = node(*t);
        st.facts[t].streq.as_deref().is_some_and(|s| col(s.trim_start_matches('\\'))) || &*n.op == "streq" && st.exact(*t) == Some(1) && n.args.iter().any(|a| matches!(a, V::Str(s) if col(s.trim_start_matches('\\'))))
    })
}

impl Policy for Conv {
    fn max_join(&self) -> usize {
        if self.flow.is_some() {
            10000
        } else {
            300
        }
    }
    fn entries(&self, cx: &mut Interp, cut: &Cut, args: &[V]) -> Vec<(State, Vec<V>)> {
        *self.cur.borrow_mut() = Some(cut.clone());
        let mut st = State::new();
        st.set_ghost("open", vstr(""));
        st.set_ghost("err", V::Bool(false));
        st.set_ghost("out", vstr(""));
        for l in &cut.leaves {
            if int_bits(l.ty).is_some() {
                let mut p = cx.deref(&st, &args[l.arg]);
                p.path.extend(l.path.iter().cloned());
                mark_unsigned(&cx.read(&st, &p), l.ty);
            }
        }
        let Some(i) = cut.ptys.iter().position(|t| is_elem(*t)) else { return vec![(st, args.to_vec())] };
        let (kt, inf) = kinds(self.kind_of);
        let a = if pointee(cut.ptys[i]).is_some() {
            args[i].clone()
        } else {
            st.mem.insert(Obj::Tmp(9000, 0), args[i].clone());
            V::Ref(Rc::new(Pl { obj: Obj::Tmp(9000, 0), path: vec![] }), false)
        };
        let mut out = vec![];
        for (s, v) in cx.run_keeping(self.kind_of, vec![a.clone()], st, args.to_vec()) {
            let d = cx.discr(&v, kt);
            for (n, x) in inf.discrs.iter().enumerate() {
                if std::env::var("MXSA_KIND").is_ok_and(|k| !k.split(',').any(|k| k == inf.names[n])) {
                    continue;
                }
                let Some(mut s) = (match &d {
                    V::Sym(t, 0) if s.may(*t, *x) => {
                        let mut s = s.clone();
                        s.assume_eq(*t, *x);
                        Some(s)
                    }
                    _ => None,
                }) else {
                    continue;
                };
                s.mem.remove(&Obj::Tmp(9000, 0));
                if std::env::var("MXSA_WHY").is_ok() {
                    eprintln!("entry {} {:?}", show(&d), s.facts.iter().map(|(t, f)| (show_t(*t), f.get())).collect::<Vec<_>>());
                }
                s.set_ghost("kind", V::Int(*x));
                // the name stays known while the element is converted
                let probe = match inf.names[n].as_str() {
                    "ItemCmd" => self.cmd_name,
                    "ItemEnv" => self.env_name,
                    _ => {
                        out.push((s, args.to_vec()));
                        continue;
                    }
                };
                s.mem.insert(Obj::Tmp(9000, 0), args[i].clone());
                let ret = body(probe).unwrap().tys[0];
                for (s, v) in cx.run_keeping(probe, vec![a.clone()], s, args.to_vec()) {
                    for (var, mut s) in cx.cases(&s, &v, ret) {
                        if var == 1 {
                            s.set_ghost("name", cx.proj(&v, &PE::F { var: 1, idx: 0, n: 1 }));
                        }
                        s.mem.remove(&Obj::Tmp(9000, 0));
                        out.push((s, args.to_vec()));
                    }
                }
            }
        }
        out
    }
    fn preserved(&self, _cut: &Cut, leaf: &Leaf) -> bool {
        own_enum_or_int(leaf.ty)
    }
    fn at_call(&self, cx: &mut Interp, cut: &Cut, c: &Call, st: &mut State, d: &Driver) {
        self.weaken(cx, cut, &c.args, st);
        if let Some(f) = &self.flow {
            f.at_call(self, cx, cut, c, st, d);
        }
        if st.ghost("guards") != V::Undef {
            let site = cx.our_site(&c.site);
            d.ob("panic", format!("{}: no cell is borrowed while children are converted", site.func()), site.loc(), false, "a cell that is borrowed may be borrowed again".into(), st);
        }
    }
    fn round(&self, dirty: bool) -> bool {
        let again = self.weaker.take() && !dirty;
        if let (Some(f), true) = (&self.flow, dirty || again) {
            f.clear();
        }
        again
    }
    fn done(&self, d: &Driver) {
        if let Some(f) = &self.flow {
            f.done(d);
        }
    }
    fn at_head(&self, cx: &mut Interp, b: &BodyInfo, head: usize, depth: u32, st: &mut State, _d: &Driver) {
        if let Some(f) = &self.flow {
            f.at_head(self, cx, b, head, depth, st);
        }
    }
    fn leave(&self, cx: &mut Interp, b: &BodyInfo, _depth: u32, st: &mut State, _d: &Driver) {
        if let Some(f) = &self.flow {
            f.leave(cx, b, st);
        }
    }
    fn contract(&self, _cx: &mut Interp, _cut: &Cut, _c: &Call, st: &mut State, ok: bool, _v: &mut V) {
        if !ok {
            st.set_ghost("err", V::Bool(true));
        }
    }
    fn exit(&self, cx: &mut Interp, cut: &Cut, args: &[V], st: &State, v: &V, d: &Driver) {
        let w = self.where_(cut, st);
        let ok = !is_result(cut.ret) || matches!(v, V::Agg(0, _));
        let failed = st.ghost("err") != V::Bool(false) || st.ghost("fmterr") == V::Bool(true);
        let loc = body(cut.fid).map(|b| Site { fid: cut.fid, bb: 0, span: b.blocks[0].span }.loc()).unwrap_or_default();
        d.ob("panic", format!("{w}: comes to an end"), loc.clone(), true, String::new(), st);
        d.ob("errors", format!("{w}: a failure below makes it fail"), loc.clone(), !(ok && failed), "a failing conversion is reported as success".into(), st);
        d.ob("errors", format!("{w}: unknown names fail"), loc.clone(), !(ok && st.ghost("unknown") == V::Bool(true)), "a command or environment that the specification does not know is converted".into(), st);
        d.ob("errors", format!("{w}: invalid formulas fail"), loc.clone(), !(ok && st.ghost("invalid") == V::Bool(true)), "a formula that is not valid is converted".into(), st);
        let k = self.kname(st);
        if matches!(k.as_str(), "TokenError" | "ClauseCommandName" | "ItemBegin" | "ItemEnd") {
            d.ob("errors", format!("{w}: is always an error"), loc.clone(), !ok, format!("an element of kind {k} is converted without an error"), st);
        }
        if !ok || failed {
            return;
        }
        for l in &cut.leaves {
            if !self.preserved(cut, l) {
                continue;
            }
            let mut p = cx.deref(&State::new(), &args[l.arg]);
            p.path.extend(l.path.iter().cloned());
            let was = cx.read(&State::new(), &p);
            let now = cx.read(st, &p);
            let same = was == now || same_enum(cx, st, &was, &now, l.ty);
            d.ob("context", format!("{w}: {} is restored", l.name), loc.clone(), same, format!("on success {} is {} instead of its value at entry", l.name, show(&now)), st);
        }
        self.marks(cx, cut, args, st, &k, &w, &loc, d);
        if let Some(f) = &self.flow {
            f.exit(self, cx, cut, args, st, &k, &w, &loc, d);
        }
        let open = st.ghost("open");
        let bal = open == vstr("");
        d.ob("balance", format!("{w}: the output is balanced"), loc, bal, format!("delimiters left open: {}", show(&open)), st);
    }
    fn emit(&self, cx: &mut Interp, c: &Call, st: &mut State, _sink: &V, pieces: &[V], d: &Driver) {
        d.count("writes");
        let site = cx.our_site(&c.site);
        let mut all = vec![];
        for p in pieces {
            let t = crate::models::piece_text(cx, st, p);
            flat(&t, &mut all);
        }
        if is_mark(&self.kname(st)) {
            for p in &all {
                self.wrote(st, p);
            }
        }
        if let Some(f) = &self.flow {
            f.emit(self, cx, &all, &site, st, d);
        }
        for p in all {
            let key = format!("{}: every closing delimiter closes the innermost open one", site.func());
            match (&st.ghost("open"), &p) {
                (V::Str(o), V::Str(t)) => match delims(o, t) {
                    Ok(n) => {
                        d.ob("balance", key, site.loc(), true, String::new(), st);
                        st.set_ghost("open", vstr(&n))
                    }
                    Err(c) => {
                        d.ob("balance", format!("{}: {:?} is written with {:?} open", site.func(), t, o), site.loc(), false, format!("writes {:?} where {:?} is open: {c} closes nothing", t, o), st);
                        st.set_ghost("open", sym("unbalanced", vec![vstr(o), vstr(t)]));
                    }
                },
                (V::Str(o), _) => {
                    // text taken from the input or the specification: closes an escape, else neutral
                    if o.ends_with('\\') {
                        st.set_ghost("open", vstr(&o[..o.len() - 1]));
                    }
                }
                (o, V::Str(t)) => {
                    if let V::Sym(x, _) = o {
                        if &*op_of(*x) != "unbalanced" && t.contains(['(', ')', '[', ']', '{', '}', '$']) {
                            d.ob("balance", format!("{}: {:?} is written after a loop that is not balanced", site.func(), t), site.loc(), false, "the delimiters left open by a loop depend on how often it ran".into(), st);
                            st.set_ghost("open", sym("unbalanced", vec![]));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    fn call(&self, cx: &mut Interp, c: &Call, st: &State, d: &Driver) -> Option<Outs> {
        if let Some(f) = &self.flow {
            f.call(self, cx, c, st, d);
        }
        let kr = c.inst.def.krate().name.to_string();
        if kr == "mitex_parser" && adt_name(c.ret).is_some_and(|n| n.ends_with("rowan::api::SyntaxNode") || n.ends_with("rowan::SyntaxNode")) {
            return Some(cx.default_opaque(c, st.clone()));
        }
        for t in &c.tys {
            if matches!(rigid(pointee(*t).map(|x| x.0).unwrap_or(*t)), Some(RigidTy::Closure(..))) {
                self.closures.borrow_mut().insert(short_ty(*t).to_string(), *t);
            }
        }
        if let (Some(k), true, "kind") = (self.kind_is.get(), kr == "rowan" && c.ret == kinds(self.kind_of).0, crate::models::last_seg(c.name)) {
            let inf = kinds(self.kind_of).1;
            let i = inf.discrs.iter().position(|d| *d == k).unwrap();
            return Some(vec![(st.clone(), agg(i as u32, vec![]))]);
        }
        // nodes are of kinds of nodes, leaves of kinds of leaves (C08)
        let (slf, _) = crate::models::split(c.name);
        let leaf = slf.ends_with("SyntaxToken");
        if kr == "rowan" && crate::models::last_seg(c.name) == "kind" && c.ret == kinds(self.kind_of).0 && (leaf || slf.ends_with("SyntaxNode")) {
            let outs = cx.default_opaque(c, st.clone());
            let inf = kinds(self.kind_of).1;
            for (_, v) in &outs {
                if let V::Sym(t, 0) = cx.discr(v, c.ret) {
                    let dom: Vec<i128> = inf.names.iter().zip(&inf.discrs).filter(|(n, _)| if leaf { super::parse::is_leaf(n) } else { super::parse::is_inner(n) }).map(|(_, d)| *d).collect();
                    set_domain(t, Rc::new(dom));
                }
            }
            return Some(outs);
        }
        None
    }
    fn after(&self, cx: &mut Interp, c: &Call, outs: Outs, d: &Driver) -> Outs {
        let outs = match &self.flow {
            Some(f) => f.after(self, cx, c, outs, d),
            None => outs,
        };
        let kr = c.inst.def.krate().name.to_string();
        if !is_ours(&kr) {
            return outs;
        }
        let last = crate::models::last_seg(c.name);
        let mut res = vec![];
        if matches!(last, "get_cmd" | "get_env") && kr == "mitex_spec" {
            for (s, v) in outs {
                for (var, mut s2) in cx.cases(&s, &v, c.ret) {
                    let v2 = if var == 0 { none() } else { v.clone() };
                    if var == 0 && !colour(&s2) {
                        s2.set_ghost("unknown", V::Bool(true));
                    }
                    if last == "get_cmd" && c.args.len() > 1 {
                        let key = cx.snap(&s2, &c.args[1], Some(c.tys[1]), 0);
                        let new = (key, v2.clone());
                        if var == 1 && !self.shapes.borrow().contains(&new) {
                            self.shapes.borrow_mut().push(new);
                        }
                    }
                    res.push((s2, v2));
                }
            }
            return res;
        }
        // commands and environments have names (C08)
        if last == "name_tok" && kr == "mitex_parser" {
            let (slf, _) = crate::models::split(c.name);
            let want = if slf.ends_with("CmdItem") { "ClauseCommandName" } else { "TokenCommandSym" };
            let mut right = true;
            let mut none_ = vec![];
            for (s, v) in outs {
                for (var, s) in cx.cases(&s, &v, c.ret) {
                    if var == 0 {
                        none_.push((s, none()));
                        continue;
                    }
                    let t = cx.proj(&v, &PE::F { var: 1, idx: 0, n: 1 });
                    right &= self.leaf_kinds(cx, &s, &t).iter().all(|k| k == want);
                    res.push((s, v.clone()));
                }
            }
            if !right || res.is_empty() {
                res.extend(none_);
            }
            return res;
        }
        if last == "is_valid" && kr == "mitex_parser" {
            for (s, v) in outs {
                let (t, f) = cx.fork(&s, &v);
                if let Some(t) = t {
                    res.push((t, V::Bool(true)));
                }
                if let Some(mut f) = f {
                    f.set_ghost("invalid", V::Bool(true));
                    res.push((f, V::Bool(false)));
                }
            }
            return res;
        }
        outs
    }
    fn inline(&self, name: &str, krate: &str) -> Option<bool> {
        if krate == "rowan" && name.contains("NodeOrToken") {
            return Some(true);
        }
        None
    }
    fn panics(&self, cx: &mut Interp, st: &State, site: &Site, what: &str, d: &Driver) {
        let s = cx.our_site(site);
        let k = self.kname(st);
        // names of commands begin with a backslash (C08, C09)
        if let V::Agg(_, x) = st.ghost("slice") {
            if what.starts_with("string slice") && x[1] == V::Int(1) && x[2] == V::Int(-1) {
                if let V::Sym(t, 0) = &x[0] {
                    let n = node(*t);
                    if n.op.ends_with("SyntaxToken::text") {
                        let ks = self.leaf_kinds(cx, st, &n.args[0]);
                        if !ks.is_empty() && ks.iter().all(|k| matches!(k.as_str(), "ClauseCommandName" | "TokenCommandSym")) {
                            return;
                        }
                    }
                }
            }
        }
        if self.impossible(cx, st) {
            return;
        }
        if self.assuming(cx, st).is_empty() {
            return;
        }
        if std::env::var("MXSA_WHY").is_ok() {
            eprintln!("panic {} {what}", s.loc());
            for (t, f) in &st.facts {
                eprintln!("   {} {:?} ne {:?}", show_t(*t), f.get(), f.ne);
            }
        }
        let short = if what.starts_with("string slice") { "string slice".to_string() } else { what.chars().take(80).collect() };
        d.ob("panic", format!("{}[{k}]: {short}", s.func()), s.loc(), false, format!("may panic: {what}"), st);
    }
}
fn same_enum(cx: &Interp, st: &State, a: &V, b: &V, ty: Ty) -> bool {
    if int_bits(ty).is_some() {
        let e = cx.eq(st, a, b);
        return cx.decide(st, &e) == Some(true);
    }
    let (da, db) = (cx.discr(a, ty), cx.discr(b, ty));
    let val = |v: &V| match v {
        V::Int(i) => Some(*i),
        V::Sym(t, 0) => st.exact(*t),
        _ => None,
    };
    da == db && da != V::Undef || val(&da).is_some() && val(&da) == val(&db)
}

pub fn run(out: &str, flow: bool) {
    let kind_of = find_root("probe_kind").expect("probe_kind");
    let roots: Vec<u32> = ["root_convert_text", "root_convert_math"].iter().map(|r| find_root(r).expect("root")).collect();
    let d = Driver::new(Box::new(Conv { kind_of, leaf_kind: find_root("probe_leaf_kind").unwrap(), cmd_name: find_root("probe_cmd_name").unwrap(), env_name: find_root("probe_env_name").unwrap(), greedy: find_root("probe_greedy").unwrap(), closures: Default::default(), least: Default::default(), cur: Default::default(), shapes: Default::default(), weaker: Cell::new(false), kind_is: Cell::new(None), flow: flow.then(super::flow::Flow::new) }));
    let cx = d.run(&roots, 600);
    std::fs::write(out, json(if flow { "flow" } else { "conv" }, &d, &cx, &roots, &[])).unwrap();
}

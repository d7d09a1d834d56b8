//! The queue of tokens between the lexer and the parser: what the macro engine lets through, replaces
//! and leaves out. Lists of tokens are terms (empty, push, concatenation, reversal); what is still to
//! come is one virtual list: the token that is looked at, the buffer (in reverse), the rest of the text.
use super::driver::*;
use super::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

const PUSH: u32 = 60;
/// those whose loops take one token at each turn
const LOOPS: &[&str] = &["do_bump", "skip_false_tokens", "read_env_body", "read_macro_args"];
/// helpers of helpers, by their contracts only
const SMALL: &[&str] = &["next_not_trivia", "peek_not_trivia", "peek_u8_opt", "peek_word_opt", "peek_cmd_name_opt", "read_until_balanced", "process_macro_def"];
/// a list of lists: its length
const COUNT: u32 = 61;
/// functions that are analysed on their own
const CUTS: &[&str] = &["lex_one", "do_bump", "skip_false_tokens", "identify_macro_update", "read_macro_args", "read_env_body", "expand_tokens"];

fn is_tok(ty: Ty) -> bool {
    match rigid(ty) {
        Some(RigidTy::Tuple(t)) => t.len() == 2 && adt_name(t[0]).is_some_and(|n| n.ends_with("::Token")) && pointee(t[1]).is_some_and(|(t, _)| is_str(t)),
        _ => false,
    }
}
fn ends(ty: Ty, s: &str) -> bool {
    adt_name(ty).is_some_and(|n| n.ends_with(s))
}
/// lists whose contents are followed
fn is_list(ty: Ty) -> bool {
    ends(ty, "vec::Vec") && type_args(ty).first().is_some_and(|t| is_elem(*t))
}
fn is_elem(t: Ty) -> bool {
    is_tok(t) || ends(t, "option::Option") && type_args(t).first().is_some_and(|t| adt_name(*t).is_some_and(|n| n.starts_with("mitex_lexer")))
}
fn empty() -> V {
    agg(0, vec![])
}
fn tokf(cx: &Interp, tok: &V, i: u32) -> V {
    cx.proj(tok, &PE::F { var: 0, idx: i, n: 2 })
}
fn elems(v: &V) -> Vec<V> {
    match v {
        V::Agg(_, f) => (**f).clone(),
        _ => vec![],
    }
}
fn list(v: Vec<V>) -> V {
    agg(50, v)
}
fn uns(v: V) -> V {
    mark_unsigned(&v, Ty::usize_ty());
    v
}
fn boolean(op: &str, args: Vec<V>) -> V {
    let v = sym(op, args);
    mark_bool(&v, Ty::bool_ty());
    v
}
fn opargs(v: &V, op: &str) -> Option<Vec<V>> {
    match v {
        V::Sym(t, _) => {
            let n = node(*t);
            (&*n.op == op).then(|| n.args.to_vec())
        }
        _ => None,
    }
}
/// the length of a list
fn cnt(cx: &Interp, st: &State, s: &V) -> V {
    let u = Ty::usize_ty();
    match s {
        V::Agg(PUSH, f) => cx.bin(st, rustc_public::mir::BinOp::Add, &cnt(cx, st, &f[0]), &V::Int(1), u),
        V::Agg(_, f) => V::Int(f.len() as i128),
        _ => {
            if let Some(a) = opargs(s, "cat") {
                return cx.bin(st, rustc_public::mir::BinOp::Add, &cnt(cx, st, &a[0]), &cnt(cx, st, &a[1]), u);
            }
            if let Some(a) = opargs(s, "rev") {
                return cnt(cx, st, &a[0]);
            }
            for o in ["init", "tail"] {
                if let Some(a) = opargs(s, o) {
                    return cx.bin(st, rustc_public::mir::BinOp::Sub, &cnt(cx, st, &a[0]), &V::Int(1), u);
                }
            }
            uns(sym("count", vec![s.clone()]))
        }
    }
}
fn nonempty(cx: &Interp, st: &State, s: &V) -> V {
    let n = cnt(cx, st, s);
    cx.lt(st, &V::Int(0), &n)
}
fn is_empty(cx: &Interp, st: &State, s: &V) -> Option<bool> {
    let c = nonempty(cx, st, s);
    cx.decide(st, &c).map(|b| !b)
}
fn cat(a: V, b: V) -> V {
    if a == empty() {
        return b;
    }
    if b == empty() {
        return a;
    }
    sym("cat", vec![a, b])
}
fn rev(s: V) -> V {
    if s == empty() {
        return s;
    }
    if let Some(a) = opargs(&s, "rev") {
        return a[0].clone();
    }
    sym("rev", vec![s])
}
/// takes an element from the end (or the front): (state, element, rest)
fn take_end(cx: &Interp, st: &State, s: &V, front: bool) -> Vec<(State, Option<V>, V)> {
    match s {
        V::Agg(PUSH, f) if !front => return vec![(st.clone(), Some(f[1].clone()), f[0].clone())],
        V::Agg(PUSH, f) => {
            let mut out = vec![];
            for (s2, x, r) in take_end(cx, st, &f[0], true) {
                match x {
                    Some(x) => out.push((s2, Some(x), agg(PUSH, vec![r, f[1].clone()]))),
                    None => out.push((s2, Some(f[1].clone()), empty())),
                }
            }
            return out;
        }
        V::Agg(_, f) => {
            let mut f = (**f).clone();
            if f.is_empty() {
                return vec![(st.clone(), None, empty())];
            }
            let x = if front { f.remove(0) } else { f.pop().unwrap() };
            return vec![(st.clone(), Some(x), agg(0, f))];
        }
        _ => {}
    }
    if let Some(a) = opargs(s, "rev") {
        return take_end(cx, st, &a[0], !front).into_iter().map(|(s, x, r)| (s, x, rev(r))).collect();
    }
    if let Some(a) = opargs(s, "cat") {
        let (p, q) = if front { (&a[0], &a[1]) } else { (&a[1], &a[0]) };
        let mut out = vec![];
        for (s2, x, r) in take_end(cx, st, p, front) {
            match x {
                Some(x) => out.push((s2, Some(x), if front { cat(r, q.clone()) } else { cat(q.clone(), r) })),
                None => out.extend(take_end(cx, &s2, q, front)),
            }
        }
        return out;
    }
    let c = nonempty(cx, st, s);
    let (yes, no) = cx.fork(st, &c);
    let mut out = vec![];
    if let Some(s2) = yes {
        let (a, b) = if front { ("first", "tail") } else { ("last", "init") };
        out.push((s2, Some(sym(a, vec![s.clone()])), sym(b, vec![s.clone()])));
    }
    if let Some(s2) = no {
        out.push((s2, None, empty()));
    }
    out
}

/// what is still to come
#[derive(Clone, PartialEq, Debug)]
enum It {
    /// kind and text
    T(V, V),
    /// a part of unknown length, perhaps in reverse
    S(V, bool),
    /// the rest of the text
    L(V),
    /// a token or none
    O(V),
}
fn more(l: &V) -> V {
    boolean("more", vec![l.clone()])
}
fn tok_of(l: &V) -> V {
    tuple(vec![sym("kind", vec![l.clone()]), sym("text", vec![l.clone()])])
}
fn flat_seq(cx: &Interp, st: &State, s: &V, back: bool, out: &mut Vec<It>) {
    let item = |x: &V| It::T(tokf(cx, x, 0), tokf(cx, x, 1));
    match s {
        V::Agg(PUSH, f) => {
            if back {
                out.push(item(&f[1]));
                flat_seq(cx, st, &f[0], back, out);
            } else {
                flat_seq(cx, st, &f[0], back, out);
                out.push(item(&f[1]));
            }
        }
        V::Agg(_, f) => {
            let v: Vec<It> = f.iter().map(item).collect();
            out.extend(if back { v.into_iter().rev().collect() } else { v });
        }
        _ => {
            if let Some(a) = opargs(s, "rev") {
                return flat_seq(cx, st, &a[0], !back, out);
            }
            if let Some(a) = opargs(s, "cat") {
                let (p, q) = if back { (1, 0) } else { (0, 1) };
                flat_seq(cx, st, &a[p], back, out);
                flat_seq(cx, st, &a[q], back, out);
                return;
            }
            match is_empty(cx, st, s) {
                Some(true) => {}
                Some(false) => {
                    let (a, b) = if back { ("last", "init") } else { ("first", "tail") };
                    out.push(item(&sym(a, vec![s.clone()])));
                    flat_seq(cx, st, &sym(b, vec![s.clone()]), back, out);
                }
                None => out.push(It::S(s.clone(), back)),
            }
        }
    }
}
fn flat_opt(cx: &Interp, st: &State, o: &V, oty: Ty, out: &mut Vec<It>) {
    let c = cx.cases(st, o, oty);
    let x = cx.proj(o, &PE::F { var: 1, idx: 0, n: 1 });
    match (c.iter().any(|c| c.0 == 0), c.iter().any(|c| c.0 == 1)) {
        (false, true) => out.push(It::T(tokf(cx, &x, 0), tokf(cx, &x, 1))),
        (true, true) => out.push(It::O(o.clone())),
        _ => {}
    }
}
fn flat_lex(cx: &Interp, st: &State, l: &V, out: &mut Vec<It>) {
    if opargs(l, "ended").is_some() {
        return;
    }
    match cx.decide(st, &more(l)) {
        Some(false) => {}
        Some(true) => {
            let t = tok_of(l);
            out.push(It::T(tokf(cx, &t, 0), tokf(cx, &t, 1)));
            flat_lex(cx, st, &sym("adv", vec![l.clone()]), out);
        }
        None => out.push(It::L(l.clone())),
    }
}
/// a page of tokens and the text after it are the text
fn join_pages(v: Vec<It>) -> Vec<It> {
    let mut out: Vec<It> = vec![];
    for x in v {
        if let (Some(It::S(p, false)), It::L(l)) = (out.last(), &x) {
            if let (Some(a), Some(b)) = (opargs(p, "page"), opargs(l, "past")) {
                if a == b {
                    out.pop();
                    out.push(It::L(a[0].clone()));
                    continue;
                }
            }
        }
        out.push(x);
    }
    out
}
fn show_it(v: &[It]) -> String {
    let f = |x: &It| match x {
        It::T(k, t) => format!("token({}, {})", show(k), show(t)),
        It::S(s, b) => format!("{}{}", if *b { "reversed " } else { "" }, show(s)),
        It::L(l) => format!("text({})", show(l)),
        It::O(o) => format!("option({})", show(o)),
    };
    v.iter().map(f).collect::<Vec<_>>().join(" ++ ").chars().take(600).collect()
}

fn field_ty(ty: Ty, name: &str) -> Option<(PE, Ty)> {
    let Some(RigidTy::Adt(d, a)) = rigid(ty) else { return None };
    let fs = d.variants()[0].fields();
    let i = fs.iter().position(|f| f.name == name)?;
    Some((PE::F { var: 0, idx: i as u32, n: fs.len() as u32 }, fs[i].ty_with_args(&a)))
}
#[derive(Clone)]
struct Places {
    peeked: Pl,
    buf: Pl,
    lex: Option<Pl>,
    opeek: Pl,
    obuf: Pl,
    ifs: Option<Pl>,
    macros: Option<Pl>,
    oty: Ty,
}
#[derive(Default)]
struct Mac {
    cur: RefCell<(String, Option<Places>)>,
    macro_ty: Cell<Option<Ty>>,
    if_ty: Cell<Option<Ty>>,
    act_ty: Cell<Option<Ty>>,
    /// (token, state) -> what is handed on, whether tokens are skipped, the state after it
    trans: RefCell<BTreeMap<(String, String), BTreeSet<(String, bool, String)>>>,
}

impl Mac {
    fn places(&self, cx: &Interp, st: &State, ptys: &[Ty], args: &[V]) -> Option<Places> {
        let mut r: Option<Places> = None;
        let mut ifs = None;
        let mut macros = None;
        for (i, t) in ptys.iter().enumerate() {
            let Some((t, _)) = pointee(*t) else { continue };
            let mut p = cx.deref(st, &args[i]);
            let mut t = t;
            let sub = |p: &Pl, t: Ty, n: &str| -> Option<(Pl, Ty)> {
                let (e, t) = field_ty(t, n)?;
                let mut p = p.clone();
                p.path.push(e);
                Some((p, t))
            };
            if ends(t, "mitex_lexer::Lexer") {
                if let Some((q, u)) = sub(&p, t, "bumper") {
                    if ends(u, "MacroEngine") {
                        ifs = sub(&q, u, "reading_if").inspect(|x| self.if_ty.set(type_args(x.1).first().copied())).map(|x| x.0);
                    }
                }
                (p, t) = sub(&p, t, "ctx")?;
            }
            if ends(t, "MacroEngine") {
                ifs = sub(&p, t, "reading_if").inspect(|x| self.if_ty.set(type_args(x.1).first().copied())).map(|x| x.0);
                macros = sub(&p, t, "macros").map(|x| x.0);
            }
            if ends(t, "StreamContext") {
                let (o, ot) = sub(&p, t, "peek_outer")?;
                let (n, nt) = sub(&p, t, "peek_inner")?;
                let (peeked, oty) = sub(&n, nt, "peeked")?;
                r = Some(Places { peeked, buf: sub(&n, nt, "buf")?.0, lex: sub(&p, t, "inner").map(|x| x.0), opeek: sub(&o, ot, "peeked")?.0, obuf: sub(&o, ot, "buf")?.0, ifs: None, macros: None, oty });
            }
        }
        let mut r = r?;
        r.ifs = ifs;
        r.macros = macros;
        Some(r)
    }
    fn triple(&self, cx: &Interp, st: &State, p: &Places) -> V {
        tuple(vec![cx.read(st, &p.peeked), cx.read(st, &p.buf), p.lex.as_ref().map(|l| cx.read(st, l)).unwrap_or(V::Undef)])
    }
    fn flat(&self, cx: &Interp, st: &State, t: &V, oty: Ty) -> Vec<It> {
        let e = elems(t);
        let mut out = vec![];
        flat_opt(cx, st, &e[0], oty, &mut out);
        flat_seq(cx, st, &e[1], true, &mut out);
        flat_lex(cx, st, &e[2], &mut out);
        join_pages(out)
    }
    fn outer(&self, cx: &Interp, st: &State, p: &Places) -> V {
        tuple(vec![cx.read(st, &p.opeek), cx.read(st, &p.obuf)])
    }
    fn flat_outer(&self, cx: &Interp, st: &State, t: &V, oty: Ty) -> Vec<It> {
        let e = elems(t);
        let mut out = vec![];
        flat_opt(cx, st, &e[0], oty, &mut out);
        flat_seq(cx, st, &e[1], true, &mut out);
        out
    }
    fn kinds(&self, cx: &Interp, st: &State, kind: &V, ty: Ty) -> Vec<String> {
        self.kind_states(cx, st, kind, ty).into_iter().map(|x| x.0).collect()
    }
    fn kind_states(&self, cx: &Interp, st: &State, kind: &V, ty: Ty) -> Vec<(String, State)> {
        let mut out = vec![];
        for (v, s) in cx.cases(st, kind, ty) {
            let name = variant_name(ty, v);
            if nfields(ty, v) == 1 {
                if let Some(RigidTy::Adt(d, a)) = rigid(ty) {
                    let f = d.variants()[v as usize].fields()[0].ty_with_args(&a);
                    let x = cx.field(kind, v, 0, ty);
                    if info(f).is_some_and(|i| i.is_enum) {
                        for (n, s) in self.kind_states(cx, &s, &x, f) {
                            out.push((format!("{name}({n})"), s));
                        }
                        continue;
                    }
                }
            }
            out.push((name, s));
        }
        out
    }
    fn kind_ty(&self, oty: Ty) -> Ty {
        match type_args(oty).first().and_then(|t| rigid(*t)) {
            Some(RigidTy::Tuple(t)) => t[0],
            _ => unreachable!(),
        }
    }
    /// the lists of the stream become unknown
    fn havoc(&self, cx: &mut Interp, st: &mut State, site: &Site, p: &Places) {
        for (pl, n) in [(&p.peeked, "peeked"), (&p.buf, "buf")] {
            let v = cx.fresh(st, site, n);
            cx.write(st, pl, v);
        }
        if let Some(l) = &p.lex {
            let v = cx.fresh(st, site, "lex");
            cx.write(st, l, v);
        }
    }
    /// the list that an iterator yields
    fn seq_of(&self, cx: &mut Interp, st: &State, v: &V, ty: Ty, site: &Site) -> Vec<(State, V)> {
        let n = adt_name(ty).unwrap_or_default();
        let ta = type_args(ty);
        let fld = |cx: &Interp, name: &str| -> Option<(V, Ty)> {
            let (e, t) = field_ty(ty, name)?;
            Some((cx.proj(v, &e), t))
        };
        if let Some((t, _)) = pointee(ty) {
            let p = cx.deref(st, v);
            let x = cx.read(st, &p);
            if is_list(t) {
                return vec![(st.clone(), x)];
            }
            if matches!(rigid(t), Some(RigidTy::Slice(_))) {
                return vec![(st.clone(), x)];
            }
            return vec![(st.clone(), sym("unknown", vec![x]))];
        }
        if is_list(ty) || n.ends_with("vec::IntoIter") || n.ends_with("vec::into_iter::IntoIter") {
            return vec![(st.clone(), v.clone())];
        }
        if n.ends_with("slice::Iter") || n.ends_with("slice::iter::Iter") {
            if let Some(a) = opargs(v, "iter_of") {
                return vec![(st.clone(), a[0].clone())];
            }
        }
        if n.ends_with("rev::Rev") || n.ends_with("iter::Rev") {
            if let Some((x, t)) = fld(cx, "iter") {
                return self.seq_of(cx, st, &x, t, site).into_iter().map(|(s, v)| (s, rev(v))).collect();
            }
        }
        if n.ends_with("::Cloned") || n.ends_with("::Copied") {
            if let Some((x, t)) = fld(cx, "it") {
                return self.seq_of(cx, st, &x, t, site);
            }
        }
        if n.ends_with("option::IntoIter") || n.ends_with("option::Option") {
            let oty = if n.ends_with("option::Option") { Some((v.clone(), ty)) } else { None };
            if let Some((o, t)) = oty {
                let mut out = vec![];
                for (var, s) in cx.cases(st, &o, t) {
                    out.push((s, if var == 0 { empty() } else { agg(0, vec![cx.proj(&o, &PE::F { var: 1, idx: 0, n: 1 })]) }));
                }
                return out;
            }
        }
        if n.ends_with("::Chain") {
            if let (Some((a, at)), Some((b, bt))) = (fld(cx, "a"), fld(cx, "b")) {
                let mut out = vec![];
                for (va, s) in cx.cases(st, &a, at) {
                    let pa = if va == 0 { vec![(s, empty())] } else { self.seq_of(cx, &s, &cx.proj(&a, &PE::F { var: 1, idx: 0, n: 1 }), type_args(at)[0], site) };
                    for (s, x) in pa {
                        for (vb, s) in cx.cases(&s, &b, bt) {
                            let pb = if vb == 0 { vec![(s, empty())] } else { self.seq_of(cx, &s, &cx.proj(&b, &PE::F { var: 1, idx: 0, n: 1 }), type_args(bt)[0], site) };
                            for (s, y) in pb {
                                out.push((s, cat(x.clone(), y)));
                            }
                        }
                    }
                }
                return out;
            }
        }
        if n.ends_with("::Once") || n.ends_with("once::Once") {
            return vec![(st.clone(), sym("unknown", vec![cx.snap(st, v, Some(ty), 0)]))];
        }
        // a page of what a function yields that takes one token from the text
        if n.ends_with("::Take") {
            if let (Some((it, t)), Some((V::Int(k), _))) = (fld(cx, "iter"), fld(cx, "n")) {
                if k >= 1 && (t.kind().rigid().is_some()) && ends(t, "FromFn") {
                    let f = field_ty(t, "0").map(|(e, t)| (cx.proj(&it, &e), t));
                    let lex = self.cur.borrow().1.as_ref().and_then(|p| p.lex.clone());
                    if let (Some((f, fty)), Some(lex)) = (f, lex) {
                        return self.page(cx, st, &f, fty, k, &lex, site);
                    }
                }
            }
        }
        let _ = ta;
        vec![(st.clone(), sym("unknown", vec![cx.snap(st, v, Some(ty), 0)]))]
    }
    fn page(&self, cx: &mut Interp, st: &State, f: &V, fty: Ty, k: i128, lex: &Pl, site: &Site) -> Vec<(State, V)> {
        let l = cx.read(st, lex);
        let mut out = vec![];
        let oty = self.cur.borrow().1.as_ref().map(|p| p.oty);
        let Some(oty) = oty else { return vec![(st.clone(), sym("unknown", vec![f.clone()]))] };
        for (s, v) in cx.call_value(f, fty, vec![], vec![], oty, site, st.clone()) {
            let m = cx.decide(&s, &more(&l));
            let l2 = cx.read(&s, lex);
            for (var, mut s) in cx.cases(&s, &v, oty) {
                let x = cx.proj(&v, &PE::F { var: 1, idx: 0, n: 1 });
                let t = tok_of(&l);
                let adv = sym("adv", vec![l.clone()]);
                if var == 0 && m == Some(false) && l2 == l {
                    out.push((s, empty()));
                } else if var == 1 && m == Some(true) && l2 == adv && tokf(cx, &x, 0) == tokf(cx, &t, 0) && tokf(cx, &x, 1) == tokf(cx, &t, 1) {
                    let k = V::Int(k - 1);
                    if k == V::Int(0) {
                        out.push((s, agg(0, vec![x])));
                    } else {
                        cx.write(&mut s, lex, sym("past", vec![adv.clone(), k.clone()]));
                        out.push((s, cat(agg(0, vec![x]), sym("page", vec![adv, k]))));
                    }
                } else {
                    out.push((s, sym("unknown", vec![v.clone()])));
                }
            }
        }
        out
    }
    fn lists(&self, cx: &mut Interp, c: &Call, st: &State, last: &str) -> Option<Outs> {
        let nested = |t: Ty| ends(t, "vec::Vec") && type_args(t).first().is_some_and(|t| is_list(*t));
        if matches!(last, "new" | "default" | "with_capacity") && nested(c.ret) {
            return Some(vec![(st.clone(), agg(COUNT, vec![V::Int(0)]))]);
        }
        if last == "box_assume_init_into_vec_unsafe" && is_list(c.ret) {
            // vec![x]: the array has been written to the box
            let at = st.mem.iter().find(|(o, _)| matches!(o, Obj::Ptr(t) if mentions(&V::Sym(*t, 0), &c.args[0])));
            if let (Some((_, V::Agg(0, f))), true) = (at, short_ty(c.tys[0]).contains("; 1]")) {
                let mut x = f.last().cloned().unwrap_or(V::Undef);
                while let V::Agg(0, g) = &x {
                    if g.len() != 1 {
                        break;
                    }
                    x = g[0].clone();
                }
                return Some(vec![(st.clone(), agg(PUSH, vec![empty(), x]))]);
            }
        }
        if last == "push" && c.tys.first().and_then(|t| pointee(*t)).is_some_and(|t| nested(t.0)) {
            let p = cx.deref(st, &c.args[0]);
            let cur = cx.read(st, &p);
            let mut s = st.clone();
            let V::Agg(COUNT, f) = &cur else { return None };
            let n = cx.bin(st, rustc_public::mir::BinOp::Add, &f[0], &V::Int(1), Ty::usize_ty());
            cx.write(&mut s, &p, agg(COUNT, vec![n]));
            let mut ev = elems(&s.ghost("events"));
            ev.push(list(vec![vstr("argument"), c.args[1].clone()]));
            if let V::Agg(PUSH, f) = &c.args[1] {
                if let Some(f) = opargs(&tokf(cx, &f[1], 1), "slice") {
                    s.set_ghost("nextend", f[2].clone());
                }
            }
            s.set_ghost("events", list(ev));
            return Some(vec![(s, unit())]);
        }
        if matches!(last, "new" | "default" | "with_capacity") && is_list(c.ret) {
            return Some(vec![(st.clone(), empty())]);
        }
        let recv = c.tys.first().copied()?;
        let (inner, by_ref) = match pointee(recv) {
            Some((t, _)) => (t, true),
            None => (recv, false),
        };
        if matches!(last, "collect" | "from_iter") && is_list(c.ret) {
            let i = c.args.len() - 1;
            let r = self.seq_of(cx, st, &c.args[i], c.tys[i], &c.site);
            if r.iter().all(|x| opargs(&x.1, "unknown").is_none()) {
                return Some(r);
            }
            return None;
        }
        if matches!(last, "rev" | "chain" | "take" | "from_fn" | "cloned" | "copied") {
            let name = short_ty(c.ret);
            if ["Rev", "Chain", "Take", "FromFn", "Cloned", "Copied"].iter().any(|n| ends(c.ret, &format!("::{n}"))) && (name.contains("Token") || name.contains("FromFn")) {
                let Some(RigidTy::Adt(d, _)) = rigid(c.ret) else { return None };
                let fs = d.variants()[0].fields();
                let f: Vec<V> = fs
                    .iter()
                    .map(|f| match (&*f.name, last) {
                        ("iter" | "it", _) => c.args[0].clone(),
                        ("n", _) => c.args[1].clone(),
                        ("a", _) => some(c.args[0].clone()),
                        ("b", _) => some(c.args[1].clone()),
                        ("0" | "f", "from_fn") => c.args[0].clone(),
                        _ => V::Undef,
                    })
                    .collect();
                return Some(vec![(st.clone(), agg(0, f))]);
            }
            return None;
        }
        let slice = matches!(rigid(inner), Some(RigidTy::Slice(t)) if is_elem(t)) && matches!(last, "reverse" | "len" | "is_empty" | "last" | "last_mut" | "first" | "to_vec");
        if !is_list(inner) && !slice {
            return None;
        }
        let mut s = st.clone();
        if !by_ref {
            return match last {
                "into_iter" => Some(vec![(s, c.args[0].clone())]),
                _ => None,
            };
        }
        let p = cx.deref(st, &c.args[0]);
        let cur = cx.read(st, &p);
        Some(match last {
            "push" => {
                cx.write(&mut s, &p, agg(PUSH, vec![cur, c.args[1].clone()]));
                vec![(s, unit())]
            }
            "pop" => take_end(cx, st, &cur, false)
                .into_iter()
                .map(|(mut s, x, r)| {
                    cx.write(&mut s, &p, r);
                    (s, x.map(some).unwrap_or_else(none))
                })
                .collect(),
            "last" | "last_mut" | "first" => take_end(cx, st, &cur, last == "first")
                .into_iter()
                .map(|(mut s, x, r)| match x {
                    None => (s, none()),
                    Some(x) if last == "last_mut" => {
                        cx.write(&mut s, &p, agg(PUSH, vec![r, x]));
                        let mut q = p.clone();
                        q.path.push(PE::F { var: PUSH, idx: 1, n: 2 });
                        (s, some(cx.mkref(q, true)))
                    }
                    Some(x) => {
                        let r = cx.mkref(Pl { obj: Obj::Ptr(mk("refof", vec![x])), path: vec![] }, false);
                        (s, some(r))
                    }
                })
                .collect(),
            "reverse" => {
                cx.write(&mut s, &p, rev(cur));
                vec![(s, unit())]
            }
            "clear" => {
                cx.write(&mut s, &p, empty());
                vec![(s, unit())]
            }
            "len" => {
                let n = cnt(cx, st, &cur);
                vec![(s, n)]
            }
            "is_empty" => {
                let e = nonempty(cx, st, &cur);
                vec![(s, not(e))]
            }
            "clone" | "to_vec" => vec![(s, cur)],
            "extend" | "append" | "extend_from_slice" => {
                let mut out = vec![];
                for (mut s, x) in self.seq_of(cx, st, &c.args[1], c.tys[1], &c.site) {
                    if last == "append" {
                        let q = cx.deref(&s, &c.args[1]);
                        cx.write(&mut s, &q, empty());
                    }
                    let cur = cx.read(&s, &p);
                    cx.write(&mut s, &p, cat(cur, x));
                    out.push((s, unit()));
                }
                out
            }
            "iter" => vec![(s, sym("iter_of", vec![cur]))],
            "reserve" | "shrink_to_fit" => vec![(s, unit())],
            "truncate" | "drain" | "remove" | "insert" | "swap" | "retain" | "dedup" | "sort" | "rotate_left" | "rotate_right" | "swap_remove" | "split_off" => {
                let r = sym(last, vec![cur]);
                cx.write(&mut s, &p, r);
                cx.default_opaque(c, s)
            }
            _ => return None,
        })
    }
    /// since the head of the loop: what happened, against what ought to have happened
    fn turn(&self, cx: &mut Interp, b: &BodyInfo, head: usize, st: &mut State, d: &Driver, p: &Places, cur: &str) {
        let site = cx.our_site(&Site { fid: b.fid, bb: head, span: b.blocks[head].span });
        let loc = site.loc();
        let now = self.triple(cx, st, p);
        let v0 = self.flat(cx, st, &st.ghost("v0"), p.oty);
        let v1 = self.flat(cx, st, &now, p.oty);
        let rest: Vec<It> = v0.iter().skip(1).cloned().collect();
        let kty = self.kind_ty(p.oty);
        let ks = match v0.first() {
            Some(It::T(k, _)) => self.kinds(cx, st, k, kty),
            _ => vec![],
        };
        // nothing in front means that nothing is left
        if let It::O(_) | It::S(..) | It::L(_) = v1.first().unwrap_or(&It::T(V::Undef, V::Undef)) {
            d.ob("macro", format!("{cur}: the token in front is known"), loc.clone(), false, format!("{} is to come", show_it(&v1)), st);
        }
        match cur {
            "do_bump" => self.dispatch(cx, st, d, p, &loc, &v0, &v1, &rest, &ks),
            "skip_false_tokens" => {
                if v1 == v0 {
                    return;
                }
                let one = v1 == rest && !v0.is_empty();
                d.ob("macro", "a part of a conditional that does not hold is skipped token by token".into(), loc.clone(), one, format!("from {} to {}", show_it(&v0), show_it(&v1)), st);
                let g = st.ghost("depth");
                let zero = { let e = cx.eq(st, &g, &V::Int(0)); cx.decide(st, &e) };
                let u = Ty::usize_ty();
                let ends_ = ks.iter().any(|k| k == "CommandName(Else)" || k == "CommandName(EndIf)");
                d.ob("macro", "a part that is skipped ends with its own \\else or \\fi".into(), loc.clone(), !ends_ || zero == Some(false), format!("{} may be skipped at depth {}", ks.iter().take(6).cloned().collect::<Vec<_>>().join("|"), show(&g)), st);
                if ks.iter().all(|k| k.starts_with("CommandName(If(")) {
                    let g = cx.bin(st, rustc_public::mir::BinOp::Add, &g, &V::Int(1), u);
                    st.set_ghost("depth", g);
                } else if ks.iter().all(|k| k == "CommandName(EndIf)") {
                    let g = cx.bin(st, rustc_public::mir::BinOp::Sub, &g, &V::Int(1), u);
                    st.set_ghost("depth", g);
                } else {
                    let mixed = ks.iter().any(|k| k.starts_with("CommandName(If(") || k == "CommandName(EndIf)");
                    d.ob("macro", "conditionals within a part that is skipped are counted".into(), loc, !mixed, "conditionals and other tokens are treated alike".into(), st);
                }
            }
            "read_env_body" => {
                if v1 == v0 {
                    return;
                }
                let one = v1 == rest && !v0.is_empty();
                d.ob("macro", "the body of an environment is taken token by token".into(), loc.clone(), one, format!("from {} to {}", show_it(&v0), show_it(&v1)), st);
                let Some(It::T(k, t)) = v0.first() else { return };
                let so = st.ghost("sofar");
                st.set_ghost("sofar", agg(PUSH, vec![so, tuple(vec![k.clone(), t.clone()])]));
                let g = st.ghost("depth");
                let u = Ty::usize_ty();
                if ks.iter().all(|k| k == "CommandName(BeginEnvironment)") {
                    let g = cx.bin(st, rustc_public::mir::BinOp::Add, &g, &V::Int(1), u);
                    st.set_ghost("depth", g);
                } else if ks.iter().all(|k| k == "CommandName(EndEnvironment)") {
                    let zero = { let e = cx.eq(st, &g, &V::Int(0)); cx.decide(st, &e) };
                    d.ob("macro", "the body of an environment ends with its own end".into(), loc, zero == Some(false), format!("its end may be passed at depth {}", show(&g)), st);
                    let g = cx.bin(st, rustc_public::mir::BinOp::Sub, &g, &V::Int(1), u);
                    st.set_ghost("depth", g);
                } else {
                    let mixed = ks.iter().any(|k| k == "CommandName(BeginEnvironment)" || k == "CommandName(EndEnvironment)");
                    d.ob("macro", "environments within the body of one are counted".into(), loc, !mixed, "environments and other tokens are treated alike".into(), st);
                }
            }
            _ => {}
        }
    }
    /// arguments: what has been taken from the stream and what the arguments are since the last visit
    #[allow(clippy::too_many_arguments)]
    fn arguments(&self, cx: &mut Interp, st: &mut State, d: &Driver, p: &Places, loc: &str, whole: bool, opt: Option<&V>) {
        let mut evs: Vec<Vec<V>> = elems(&st.ghost("events")).iter().map(elems).collect();
        st.set_ghost("events", list(vec![]));
        let v0 = self.flat(cx, st, &st.ghost("v0"), p.oty);
        let v1 = self.flat(cx, st, &self.triple(cx, st, p), p.oty);
        let kty = self.kind_ty(p.oty);
        let what = || "arguments are the tokens after the name, each once".to_string();
        if st.ghost("argfront") == V::Undef {
            let Some(e) = evs.first().cloned() else {
                if whole {
                    d.ob("macro", what(), loc.into(), v1 == v0, format!("{} has become {}", show_it(&v0), show_it(&v1)), st);
                }
                return;
            };
            let skip = e[0] == vstr("peek_not_trivia") && self.flat(cx, st, &e[1], p.oty) == v0;
            d.ob("macro", what(), loc.into(), skip, format!("the first thing done with {} is {}", show_it(&v0), show(&e[0])), st);
            if !skip {
                return;
            }
            st.set_ghost("argfront", e[2].clone());
            st.set_ghost("lastend", V::Int(0));
            evs.remove(0);
        }
        let a = self.flat(cx, st, &st.ghost("argfront"), p.oty);
        let Some(It::T(k, t)) = a.first() else {
            // the end of the text
            let args: Vec<_> = evs.iter().filter(|e| e[0] == vstr("argument")).collect();
            let ok = a.is_empty() && v1.is_empty() && args.len() == evs.len() && args.len() <= 1 && args.iter().all(|e| opt.is_some_and(|o| mentions(&e[1], o)));
            d.ob("macro", "at the end of the text only the optional argument is left".into(), loc.into(), ok, format!("{} follows; {} arguments", show_it(&v1), args.len()), st);
            return;
        };
        let ks = self.kinds(cx, st, k, kty);
        let rest = &a[1..];
        let msg = |x: &str| format!("{x}: in front {} ({}); then {}; {}", show_it(&a), ks.iter().take(3).cloned().collect::<Vec<_>>().join("|"), show_it(&v1), evs.iter().map(|e| e.iter().map(show).collect::<Vec<_>>().join(" ; ")).collect::<Vec<_>>().join(" / ").chars().take(500).collect::<String>());
        let single = |x: &V| match x {
            V::Agg(PUSH, f) if f[0] == empty() => Some((tokf(cx, &f[1], 0), tokf(cx, &f[1], 1))),
            _ => None,
        };
        if ks.iter().all(|k| k == "Word") {
            let mut ok = true;
            let mut at = st.ghost("lastend");
            for e in &evs {
                let x = if e[0] == vstr("argument") { single(&e[1]) } else { None };
                let Some((k1, t1)) = x else { ok = false; continue };
                let part = opargs(&t1, "slice").filter(|f| f[0] == *t && f[1] == at);
                match part {
                    Some(f) => at = f[2].clone(),
                    None => ok = false,
                }
                ok &= self.kinds(cx, st, &k1, kty).iter().all(|k| k == "Word");
            }
            st.set_ghost("lastend", at.clone());
            st.set_ghost("nextend", V::Undef);
            d.ob("macro", "the characters of a word are arguments of their own, one after the other".into(), loc.into(), ok, msg("the characters"), st);
            if whole {
                let len = len_of(t);
                let l = if at == V::Int(0) { not(cx.eq(st, &len, &V::Int(0))) } else { cx.lt(st, &at, &len) };
                let ok = match dec(cx, st, &l) {
                    Some(true) => matches!(v1.first(), Some(It::T(_, x)) if *x == crate::models::slice(t, &at, &V::Int(-1))) && v1[1..] == *rest,
                    Some(false) => v1 == rest,
                    None => false,
                };
                d.ob("macro", "what is left of a word stays".into(), loc.into(), ok, msg(&format!("the rest of the word from {} ({:?})", show(&at), dec(cx, st, &l))), st);
            }
            return;
        }
        if ks.iter().any(|k| k == "Word") || !whole {
            d.ob("macro", what(), loc.into(), false, msg("words and other tokens"), st);
            return;
        }
        let curly = ks.iter().all(|k| k == "Left(Curly)");
        let ok = if curly {
            evs.len() == 2 && evs[0][0] == vstr("read_until_balanced") && self.flat(cx, st, &evs[0][1], p.oty) == *rest && evs[1][0] == vstr("argument") && evs[1][1] == evs[0][3] && v1 == self.flat(cx, st, &evs[0][2], p.oty)
        } else {
            !ks.iter().any(|k| k == "Left(Curly)") && evs.len() == 1 && evs[0][0] == vstr("argument") && single(&evs[0][1]) == Some((k.clone(), t.clone())) && v1 == *rest
        };
        d.ob("macro", what(), loc.into(), ok, msg("an argument"), st);
    }
    /// what has been collected so far becomes one term
    fn so_far(&self, st: &mut State) {
        let so = st.ghost("sofar");
        let x = sym("taken so far", vec![]);
        if so == x {
            return;
        }
        fn put(v: &V, so: &V, x: &V) -> V {
            if v == so {
                return x.clone();
            }
            match v {
                V::Agg(k, f) => agg(*k, f.iter().map(|v| put(v, so, x)).collect()),
                v => v.clone(),
            }
        }
        for (o, v) in st.mem.iter_mut() {
            if matches!(o, Obj::Local(..)) {
                *v = put(v, &so, &x);
            }
        }
        st.set_ghost("sofar", x);
    }
    #[allow(clippy::too_many_arguments)]
    fn dispatch(&self, cx: &mut Interp, st: &mut State, d: &Driver, p: &Places, loc: &str, v0: &[It], v1: &[It], rest: &[It], ks: &[String]) {
        let before = elems(&st.ghost("out0"));
        let mut o0 = vec![];
        flat_seq(cx, st, &before[1], false, &mut o0);
        let mut o1 = vec![];
        flat_seq(cx, st, &cx.read(st, &p.obuf), false, &mut o1);
        let events = elems(&st.ghost("events"));
        let kept = o1.len() >= o0.len() && o1[..o0.len()] == o0[..] && cx.read(st, &p.opeek) == before[0];
        d.ob("macro", "what has been handed on stays as it is".into(), loc.into(), kept, format!("{} has become {}", show_it(&o0), show_it(&o1)), st);
        if !kept {
            return;
        }
        if st.ghost("turns") == V::Bool(false) {
            // before the first turn
            d.ob("macro", "nothing is lost before the first token".into(), loc.into(), v1 == v0 && o1.len() == o0.len() && events.is_empty(), format!("{} has become {}", show_it(v0), show_it(v1)), st);
            return;
        }
        let Some(It::T(k0, t0)) = v0.first() else {
            d.ob("macro", "a turn takes a token".into(), loc.into(), false, format!("no token is at the front of {}", show_it(v0)), st);
            return;
        };
        let outs: Vec<&str> = o1[o0.len()..]
            .iter()
            .map(|x| match x {
                It::T(k, t) if k == k0 && t == t0 => "tok",
                It::T(k, t) => {
                    let ty = self.kind_ty(p.oty);
                    match self.kinds(cx, st, k, ty).join("|").as_str() {
                        "CommandName(EndIf)" if *t == vstr("\\fi") => "fi",
                        "Error" => "error",
                        _ => "other",
                    }
                }
                _ => "unknown",
            })
            .collect();
        let ev = |n: &str| events.iter().filter(|e| elems(e)[0] == vstr(n)).map(elems).collect::<Vec<_>>();
        let desc = || format!("the token {} ({}): handed on {:?}; then {}; helpers {}", show(k0), ks.iter().take(5).cloned().collect::<Vec<_>>().join("|"), outs, show_it(v1), events.iter().map(|e| show(&elems(e)[0])).collect::<Vec<_>>().join(", "));
        let class = |k: &String| match k.as_str() {
            "CommandName(Else)" => "else",
            "CommandName(EndIf)" => "fi",
            "CommandName(Generic)" => "command",
            "CommandName(BeginEnvironment)" => "environment",
            k if k.starts_with("CommandName(If(") => "if",
            _ => "plain",
        };
        let classes: BTreeSet<&str> = ks.iter().map(class).collect();
        d.count("turns");
        let passed = outs == ["tok"] && v1 == rest && events.is_empty();
        let ifs0 = st.ghost("ifs0");
        let ifs = p.ifs.as_ref().map(|q| cx.read(st, q)).unwrap_or(V::Undef);
        let one = if classes.len() == 1 { *classes.first().unwrap() } else { "plain" };
        match one {
            "plain" => {
                d.ob("macro", "tokens that are no commands are handed on unchanged".into(), loc.into(), passed && ifs == ifs0, desc(), st);
            }
            "if" | "else" | "fi" => {
                let skips = ev("skip");
                let at = skips.iter().all(|e| self.flat(cx, st, &e[1], p.oty) == rest);
                let only = events.len() == skips.len() && skips.len() <= 1 && at;
                let after = if skips.is_empty() { rest.to_vec() } else { self.flat(cx, st, &skips[0][2], p.oty) };
                d.ob("macro", format!("\\{one} itself is consumed, and nothing else"), loc.into(), only && v1 == after, desc(), st);
                // what the states of the conditionals are before and after
                let oif = self.if_ty.get();
                let lab = |me: &Self, cx: &Interp, st: &State, v: &V| -> Vec<String> { oif.map(|t| me.kinds(cx, st, v, t)).unwrap_or_default() };
                let none0 = is_empty(cx, st, &ifs0) == Some(true);
                let some0 = is_empty(cx, st, &ifs0) == Some(false);
                let (l0, i0) = (sym("last", vec![ifs0.clone()]), sym("init", vec![ifs0.clone()]));
                let labels: Vec<String> = if none0 {
                    vec!["-".into()]
                } else if some0 {
                    lab(self, cx, st, &l0)
                } else {
                    vec!["?".into()]
                };
                let same = ifs == ifs0 || ifs == agg(PUSH, vec![i0.clone(), l0.clone()]) || none0 && ifs == empty();
                let next: Vec<String> = if one == "if" {
                    match &ifs {
                        V::Agg(PUSH, f) if f[0] == ifs0 => lab(self, cx, st, &f[1]),
                        _ => vec!["!".into()],
                    }
                } else if one == "fi" {
                    vec![if some0 && ifs == i0 || none0 && is_empty(cx, st, &ifs) == Some(true) { "popped".into() } else { "!".into() }]
                } else if same {
                    vec!["same".into()]
                } else {
                    match &ifs {
                        V::Agg(PUSH, f) if f[0] == i0 => lab(self, cx, st, &f[1]),
                        _ => vec!["!".into()],
                    }
                };
                let mut m = self.trans.borrow_mut();
                for k in ks {
                    let labels = if one == "if" { vec![String::new()] } else { labels.clone() };
                    for l in labels {
                        for n in &next {
                            let n = if n == "same" { l.clone() } else { n.clone() };
                            m.entry((k.clone(), l.clone())).or_default().insert((outs.join(" "), !skips.is_empty(), n));
                        }
                    }
                }
            }
            _ => {
                let env = one == "environment";
                let name = if env { t0.clone() } else { crate::models::slice(t0, &V::Int(1), &V::Int(-1)) };
                let def = cx.decide(st, &boolean("defined", vec![name.clone()]));
                let what = if env { "environments" } else { "commands" };
                d.ob("macro", format!("{what}: the state of the conditionals stays"), loc.into(), ifs == ifs0, desc(), st);
                let Some(def) = def else {
                    d.ob("macro", format!("{what} are looked up under their names"), loc.into(), false, format!("nothing was looked up under {}; {}", show(&name), desc()), st);
                    return;
                };
                d.ob("macro", format!("{what} are looked up under their names"), loc.into(), true, String::new(), st);
                if !def {
                    d.ob("macro", format!("{what} that are not defined are handed on unchanged"), loc.into(), passed, desc(), st);
                    return;
                }
                let m = sym("macro", vec![name.clone()]);
                let mty = self.macro_ty.get().unwrap();
                let mp = cx.deref(st, &m);
                let mv = cx.read(st, &mp);
                let mk_: BTreeSet<String> = self.kinds(cx, st, &mv, mty).into_iter().collect();
                let fits = mk_.iter().any(|k| k.starts_with("Env") == env);
                if !fits {
                    d.ob("macro", format!("{what} whose name is that of another kind of macro are handed on unchanged"), loc.into(), passed, desc(), st);
                    return;
                }
                if mk_.iter().any(|k| k.starts_with("Env") != env) {
                    d.ob("macro", format!("{what} are told from other macros"), loc.into(), false, desc(), st);
                    return;
                }
                let declares = mk_.iter().filter(|k| k.starts_with("Declare")).count();
                if declares == mk_.len() && mk_.iter().all(|k| k.starts_with("Declare(CmdOrEnv")) {
                    self.defines(cx, st, d, p, loc, v0, v1, &outs, &events, &desc());
                    return;
                }
                if declares == mk_.len() {
                    let none = mk_.iter().all(|k| !k.starts_with("Declare(CmdOrEnv"));
                    d.ob("macro", "definitions that are not supported are handed on unchanged".into(), loc.into(), none && passed, desc(), st);
                    return;
                }
                if declares > 0 {
                    d.ob("macro", "definitions are told from macros".into(), loc.into(), false, desc(), st);
                    return;
                }
                self.expands(cx, st, d, p, loc, v1, rest, &outs, &events, env, &mv, &desc());
            }
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn defines(&self, cx: &mut Interp, st: &mut State, d: &Driver, p: &Places, loc: &str, v0: &[It], v1: &[It], outs: &[&str], events: &[V], desc: &str) {
        let defs: Vec<Vec<V>> = events.iter().map(elems).filter(|e| e[0] == vstr("define")).collect();
        let adds: Vec<Vec<V>> = events.iter().map(elems).filter(|e| e[0] == vstr("add")).collect();
        let ok = defs.len() == 1 && self.flat(cx, st, &defs[0][1], p.oty) == v0 && self.flat(cx, st, &defs[0][2], p.oty) == v1 && events.len() == 1 + adds.len();
        d.ob("macro", "a definition is read where it stands, and nothing else with it".into(), loc.into(), ok, desc.into(), st);
        if !ok {
            return;
        }
        let r = &defs[0][3];
        let V::Agg(1, f) = r else {
            d.ob("macro", "a definition that cannot be read defines nothing".into(), loc.into(), adds.is_empty() && outs.iter().all(|o| *o == "error"), desc.into(), st);
            return;
        };
        let fs: Vec<V> = (0..3).map(|i| cx.proj(&f[0], &PE::F { var: 0, idx: i, n: 3 })).collect();
        let Some(act) = self.act_ty.get() else { return };
        let acts = self.kinds(cx, st, &fs[1], act);
        let known = cx.decide(st, &boolean("defined", vec![fs[0].clone()]));
        let added = adds.len() == 1 && adds[0][1] == fs[0] && adds[0][2] == fs[2];
        for a in acts {
            let (add, err) = match (a.as_str(), known) {
                ("New", Some(k)) => (true, Some(k)),
                ("Renew", Some(k)) => (true, Some(!k)),
                ("Provide", Some(k)) => (!k, Some(false)),
                _ => (true, None),
            };
            let ok = err.is_some() && (if add { added } else { adds.is_empty() }) && (if err == Some(true) { outs == ["error"] } else { outs.is_empty() });
            d.ob("macro", format!("{a}: what is defined when the name {}", match known { Some(true) => "is defined already", Some(false) => "is not defined yet", None => "may be defined" }), loc.into(), ok, format!("{} definitions are made; {desc}", adds.len()), st);
        }
    }
    #[allow(clippy::too_many_arguments)]
    fn expands(&self, cx: &mut Interp, st: &mut State, d: &Driver, p: &Places, loc: &str, v1: &[It], rest: &[It], outs: &[&str], events: &[V], env: bool, mv: &V, desc: &str) {
        let what = if env { "environment" } else { "command" };
        let evs: Vec<Vec<V>> = events.iter().map(elems).collect();
        // arguments are read right after the name, the body of an environment after them
        let mut at = rest.to_vec();
        let mut ok = outs.iter().all(|o| *o == "error");
        let mut args = None;
        let mut body = None;
        let mut failed = false;
        let def = cx.proj(mv, &PE::F { var: if env { 2 } else { 1 }, idx: 0, n: 1 });
        for e in &evs {
            match &e[0] {
                V::Str(s) if &**s == "args" || &**s == "body" => {
                    let first = &**s == "args";
                    ok &= !failed && self.flat(cx, st, &e[1], p.oty) == at && (first && args.is_none() && body.is_none() || !first && env && args.is_some() && body.is_none());
                    at = self.flat(cx, st, &e[2], p.oty);
                    match &e[3] {
                        V::Agg(1, f) if first => args = Some(f[0].clone()),
                        V::Agg(1, f) => body = Some(f[0].clone()),
                        _ => failed = true,
                    }
                    for x in &e[4..] {
                        ok &= mentions(x, &def) || *x == none();
                    }
                }
                _ => ok = false,
            }
        }
        d.ob("macro", format!("the arguments of a defined {what} are read right after its name"), loc.into(), ok && (failed || args.is_some() && (body.is_some() || !env)), format!("{desc}; {}", evs.iter().map(|e| e.iter().map(show).collect::<Vec<_>>().join(" ; ")).collect::<Vec<_>>().join(" / ").chars().take(900).collect::<String>()), st);
        if failed {
            d.ob("macro", format!("nothing replaces a defined {what} whose arguments cannot be read"), loc.into(), v1 == at, desc.into(), st);
            return;
        }
        // the replacement
        let Some(args) = args else { return };
        let is_part = |x: &It, which: &str| match x {
            It::S(s, false) => opargs(s, "expand").is_some_and(|a| mentions(&a[0], &args) && self.field_of(&a[1], &def, which)),
            _ => false,
        };
        // parts that are known to be empty or not are taken apart: find them by their terms
        let mut want: Vec<It> = vec![];
        let parts = elems(&st.ghost("parts"));
        let mut good = true;
        let need: Vec<&str> = if env { vec!["begin_def", "body", "end_def"] } else { vec!["def"] };
        for w in &need {
            if *w == "body" {
                if let Some(b) = &body {
                    flat_seq(cx, st, b, false, &mut want);
                }
                continue;
            }
            match parts.iter().find(|x| is_part(&It::S((*x).clone(), false), w)) {
                Some(x) => flat_seq(cx, st, x, false, &mut want),
                None => good = false,
            }
        }
        want.extend(at);
        d.ob("macro", format!("a defined {what} is replaced by its definition, before what follows it"), loc.into(), good && v1 == want && outs.is_empty(), format!("expected {}; {desc}; expansions {}", show_it(&want), parts.iter().map(show).collect::<Vec<_>>().join(" ; ").chars().take(900).collect::<String>()), st);
    }
}
fn mentions(v: &V, t: &V) -> bool {
    if v == t {
        return true;
    }
    match v {
        V::Agg(_, f) => f.iter().any(|x| mentions(x, t)),
        V::Sym(x, _) => node(*x).args.iter().any(|a| mentions(a, t)),
        V::Ref(p, _) => match &p.obj {
            Obj::Ptr(x) => mentions(&V::Sym(*x, 0), t),
            _ => false,
        },
        _ => false,
    }
}

impl Mac {
    /// is v the field of that name of the macro definition?
    fn field_of(&self, v: &V, def: &V, which: &str) -> bool {
        let Some(mty) = self.macro_ty.get() else { return false };
        let Some(RigidTy::Adt(d, a)) = rigid(mty) else { return false };
        if !mentions(v, def) {
            return false;
        }
        let Some(f) = opargs(v, "f") else { return false };
        d.variants().iter().any(|var| {
            var.fields().iter().any(|fl| {
                let t = type_args(fl.ty_with_args(&a)).first().copied();
                t.and_then(|t| field_ty(t, which)).is_some_and(|(e, _)| matches!(e, PE::F { idx, .. } if f.get(2) == Some(&V::Int(idx as i128))))
            })
        })
    }
    /// a helper that takes tokens from the stream
    fn helper(&self, cx: &mut Interp, cut: &Cut, c: &Call, st: &State, d: &Driver, what: &str) -> Outs {
        let Some(p) = self.places(cx, st, &cut.ptys, &c.args) else { return vec![] };
        let mut s = st.clone();
        let before = self.triple(cx, &s, &p);
        let snaps: Vec<V> = (0..c.args.len()).filter(|i| pointee(c.tys[*i]).is_none_or(|(t, m)| !m && !ends(t, "StreamContext"))).map(|i| cx.snap(&s, &c.args[i], Some(c.tys[i]), 0)).collect();
        self.havoc(cx, &mut s, &c.site, &p);
        let mut out = vec![];
        let opt = ends(cut.ret, "option::Option");
        for (end, v) in if opt { vec![(false, 0), (true, 0), (false, 1), (true, 1)] } else { vec![(false, 2), (true, 2)] } {
            let mut s = s.clone();
            if end {
                cx.write(&mut s, &p.peeked, none());
                cx.write(&mut s, &p.buf, empty());
                if let Some(l) = &p.lex {
                    cx.write(&mut s, l, sym("ended", vec![]));
                }
            } else {
                let t = cx.fresh(&s, &c.site, "front");
                cx.write(&mut s, &p.peeked, some(t));
            }
            let after = self.triple(cx, &s, &p);
            let r = match v {
                0 => none(),
                1 => some(cx.fresh(&s, &c.site, what)),
                _ => unit(),
            };
            let mut e = vec![vstr(what), before.clone(), after.clone(), r.clone()];
            e.extend(snaps.iter().cloned());
            let mut ev = elems(&s.ghost("events"));
            ev.push(list(e));
            s.set_ghost("events", list(ev));
            out.push((s, r));
        }
        d.count("calls of helpers");
        out
    }
    fn loc(&self, cut: &Cut) -> String {
        body(cut.fid).map(|b| Site { fid: cut.fid, bb: 0, span: b.blocks[0].span }.loc()).unwrap_or_default()
    }
}

impl Policy for Mac {
    fn max_join(&self) -> usize {
        4000
    }
    fn also_cut(&self, fid: u32) -> bool {
        body(fid).is_some_and(|b| b.krate == "mitex_lexer" && (CUTS.contains(&crate::models::last_seg(&b.name)) || SMALL.contains(&crate::models::last_seg(&b.name))))
    }
    fn preserved(&self, _cut: &Cut, _leaf: &Leaf) -> bool {
        false
    }
    fn inline(&self, _name: &str, krate: &str) -> Option<bool> {
        if krate == "logos" || krate == "mitex_spec" {
            return Some(false);
        }
        None
    }
    fn entries(&self, cx: &mut Interp, cut: &Cut, args: &[V]) -> Vec<(State, Vec<V>)> {
        let name = crate::models::last_seg(&cut.name).to_string();
        if name == "expand_tokens" || SMALL.contains(&name.as_str()) {
            return vec![];
        }
        let mut st = State::new();
        let p = self.places(cx, &st, &cut.ptys, args);
        if let Some(p) = &p {
            if name == "do_bump" {
                cx.write(&mut st, &p.obuf, empty());
            }
            let t = self.triple(cx, &st, p);
            st.set_ghost("v0", t);
            let o = self.outer(cx, &st, p);
            st.set_ghost("out0", o);
            if let Some(q) = &p.ifs {
                let v = cx.read(&st, q);
                st.set_ghost("ifs0", v);
            }
        } else if name == "lex_one" {
            let q = cx.deref(&st, &args[0]);
            let l = cx.read(&st, &q);
            st.set_ghost("v0", l);
        }
        st.set_ghost("depth", V::Int(0));
        st.set_ghost("sofar", empty());
        st.set_ghost("argfront", V::Undef);
        st.set_ghost("lastend", V::Int(0));
        st.set_ghost("nextend", V::Undef);
        st.set_ghost("turns", V::Bool(false));
        st.set_ghost("events", list(vec![]));
        st.set_ghost("parts", list(vec![]));
        *self.cur.borrow_mut() = (name.clone(), p.clone());
        // the token in front, or the end
        if let (Some(p), true) = (&p, name != "do_bump") {
            let inner = CUTS.contains(&name.as_str());
            let front = if inner { &p.peeked } else { &p.opeek };
            let o = cx.read(&st, front);
            let mut out = vec![];
            for some_ in [false, true] {
                let mut s = st.clone();
                if some_ {
                    cx.write(&mut s, front, some(cx.proj(&o, &PE::F { var: 1, idx: 0, n: 1 })));
                } else {
                    cx.write(&mut s, front, none());
                    if inner {
                        cx.write(&mut s, &p.buf, empty());
                        if let Some(l) = &p.lex {
                            cx.write(&mut s, l, sym("ended", vec![]));
                        }
                    }
                }
                let t = self.triple(cx, &s, p);
                s.set_ghost("v0", t);
                let o = self.outer(cx, &s, p);
                s.set_ghost("out0", o);
                out.push((s, args.to_vec()));
            }
            return out;
        }
        vec![(st, args.to_vec())]
    }
    fn apply(&self, cx: &mut Interp, cut: &Cut, c: &Call, st: &State, d: &Driver) -> Option<Outs> {
        let name = crate::models::last_seg(&cut.name).to_string();
        Some(match name.as_str() {
            "lex_one" => {
                let q = cx.deref(st, &c.args[0]);
                let l = cx.read(st, &q);
                let (yes, no) = if opargs(&l, "ended").is_some() { (None, Some(st.clone())) } else { cx.fork(st, &more(&l)) };
                let mut out = vec![];
                if let Some(mut s) = yes {
                    cx.write(&mut s, &q, sym("adv", vec![l.clone()]));
                    out.push((s, some(tok_of(&l))));
                }
                if let Some(s) = no {
                    out.push((s, none()));
                }
                out
            }
            "do_bump" => {
                let Some(p) = self.places(cx, st, &cut.ptys, &c.args) else { return Some(vec![]) };
                let mut s = st.clone();
                let o = cx.read(st, &p.obuf);
                let e = is_empty(cx, st, &o);
                let w = cx.our_site(&c.site);
                d.ob("queue", "the macro engine is asked for tokens only when none are left".into(), w.loc(), e == Some(true), format!("{} may still be there", show(&o)), st);
                for (pl, n) in [(&p.opeek, "peeked"), (&p.obuf, "buf")] {
                    let v = cx.fresh(&s, &c.site, n);
                    cx.write(&mut s, pl, v);
                }
                let o = self.outer(cx, &s, &p);
                let mut ev = elems(&s.ghost("events"));
                ev.push(list(vec![vstr("bump"), o]));
                s.set_ghost("events", list(ev));
                vec![(s, unit())]
            }
            "skip_false_tokens" => self.helper(cx, cut, c, st, d, "skip"),
            "identify_macro_update" => {
                if let Some(RigidTy::Tuple(t)) = type_args(cut.ret).first().and_then(|t| rigid(*t)) {
                    self.act_ty.set(t.iter().copied().find(|t| ends(*t, "UpdateAction")));
                }
                self.helper(cx, cut, c, st, d, "define")
            }
            "read_macro_args" => self.helper(cx, cut, c, st, d, "args"),
            "read_env_body" => self.helper(cx, cut, c, st, d, "body"),
            "peek_not_trivia" | "next_not_trivia" => {
                let p = self.places(cx, st, &cut.ptys, &c.args)?;
                let before = self.triple(cx, st, &p);
                let mut out = vec![];
                for end in [false, true] {
                    let mut s = st.clone();
                    self.havoc(cx, &mut s, &c.site, &p);
                    let r = if end {
                        cx.write(&mut s, &p.peeked, none());
                        cx.write(&mut s, &p.buf, empty());
                        if let Some(l) = &p.lex {
                            cx.write(&mut s, l, sym("ended", vec![]));
                        }
                        none()
                    } else {
                        let t = cx.fresh(&s, &c.site, "front");
                        cx.write(&mut s, &p.peeked, some(t.clone()));
                        some(tokf(cx, &t, 0))
                    };
                    let after = self.triple(cx, &s, &p);
                    let mut ev = elems(&s.ghost("events"));
                    ev.push(list(vec![vstr(&name), before.clone(), after]));
                    if self.cur.borrow().0 == "read_macro_args" {
                        s.set_ghost("events", list(ev));
                    }
                    out.push((s, r));
                }
                out
            }
            "read_until_balanced" | "peek_u8_opt" | "peek_word_opt" | "peek_cmd_name_opt" => {
                let p = self.places(cx, st, &cut.ptys, &c.args)?;
                let before = self.triple(cx, st, &p);
                let mut s = st.clone();
                self.havoc(cx, &mut s, &c.site, &p);
                let r = cx.fresh(&s, &c.site, &name);
                let after = self.triple(cx, &s, &p);
                let mut ev = elems(&s.ghost("events"));
                ev.push(list(vec![vstr(&name), before, after, r.clone(), c.args[1].clone()]));
                if self.cur.borrow().0 == "read_macro_args" {
                    s.set_ghost("events", list(ev));
                }
                vec![(s, r)]
            }
            "process_macro_def" => vec![(st.clone(), sym("prepared", vec![c.args[0].clone()]))],
            "expand_tokens" => {
                let mut s = st.clone();
                let a: Vec<V> = (0..c.args.len()).map(|i| { let p = cx.deref(st, &c.args[i]); cx.read(st, &p) }).collect();
                let e = sym("expand", a);
                let mut ps = elems(&s.ghost("parts"));
                ps.push(e.clone());
                s.set_ghost("parts", list(ps));
                vec![(s, e)]
            }
            _ => return None,
        })
    }
    fn call(&self, cx: &mut Interp, c: &Call, st: &State, _d: &Driver) -> Option<Outs> {
        let last = crate::models::last_seg(c.name).to_string();
        let last = last.as_str();
        if std::env::var("MXSA_WHY").is_ok() {
            eprintln!("call {} {} | {}", c.name, c.args.iter().map(|a| show(&cx.snap(st, a, None, 0)).chars().take(200).collect::<String>()).collect::<Vec<_>>().join(", "), cx.our_site(&c.site).loc());
        }
        if let Some(o) = self.lists(cx, c, st, last) {
            return Some(o);
        }
        let recv = c.tys.first().copied()?;
        let inner = pointee(recv).map(|x| x.0).unwrap_or(recv);
        let iname = adt_name(inner).unwrap_or_default();
        // a list as a slice
        if matches!(last, "deref" | "as_slice" | "as_ref" | "borrow" | "as_mut_slice" | "deref_mut") && c.args.len() == 1 && is_list(inner) {
            return Some(vec![(st.clone(), c.args[0].clone())]);
        }
        if matches!(rigid(inner), Some(RigidTy::Slice(t)) if is_elem(t)) && last == "iter" {
            let p = cx.deref(st, &c.args[0]);
            let v = cx.read(st, &p);
            return Some(vec![(st.clone(), sym("iter_of", vec![v]))]);
        }
        if iname.contains("SnapshotMap") {
            if last == "get" {
                let oty = type_args(c.ret).first().copied().and_then(pointee).map(|x| x.0);
                self.macro_ty.set(oty);
                let name = cx.text(st, &c.args[1], c.tys[1]);
                let (yes, no) = cx.fork(st, &boolean("defined", vec![name.clone()]));
                let mut out = vec![];
                if let Some(s) = yes {
                    out.push((s, some(sym("macro", vec![name]))));
                }
                if let Some(s) = no {
                    out.push((s, none()));
                }
                return Some(out);
            }
            if last == "insert" && c.args.len() == 3 {
                let mut s = st.clone();
                let name = cx.text(st, &c.args[1], c.tys[1]);
                let mut ev = elems(&s.ghost("events"));
                ev.push(list(vec![vstr("add"), name, c.args[2].clone()]));
                s.set_ghost("events", list(ev));
                return Some(cx.default_opaque(c, s));
            }
            if matches!(last, "remove" | "clear" | "rollback_to") {
                let mut s = st.clone();
                let mut ev = elems(&s.ghost("events"));
                ev.push(list(vec![vstr(&format!("map.{last}"))]));
                s.set_ghost("events", list(ev));
                return Some(cx.default_opaque(c, s));
            }
        }
        // the lexer proper
        if iname.starts_with("logos::") && iname.ends_with("::Lexer") && pointee(recv).is_some() {
            let p = cx.deref(st, &c.args[0]);
            let l = cx.read(st, &p);
            if last == "next" {
                let (yes, no) = cx.fork(st, &more(&l));
                let mut out = vec![];
                if let Some(mut s) = yes {
                    cx.write(&mut s, &p, sym("adv", vec![l.clone()]));
                    out.push((s, some(agg(0, vec![sym("kind", vec![l])]))));
                }
                if let Some(s) = no {
                    out.push((s, none()));
                }
                return Some(out);
            }
            if last == "slice" {
                return Some(vec![(st.clone(), sym("slice", vec![l]))]);
            }
            if last == "source" {
                return Some(vec![(st.clone(), sym("source", vec![l]))]);
            }
        }
        None
    }
    fn at_head(&self, cx: &mut Interp, b: &BodyInfo, head: usize, _depth: u32, st: &mut State, d: &Driver) {
        let (cur, p) = self.cur.borrow().clone();
        let Some(p) = p else { return };
        if !LOOPS.contains(&cur.as_str()) {
            return;
        }
        if cur == "read_macro_args" {
            let main = (0..b.blocks.len()).filter(|i| b.head[*i]).min_by_key(|i| b.rpo[*i]) == Some(head);
            let loc = cx.our_site(&Site { fid: b.fid, bb: head, span: b.blocks[head].span }).loc();
            self.arguments(cx, st, d, &p, &loc, main, None);
            if main {
                for (pl, n) in [(Some(&p.peeked), "front"), (Some(&p.buf), "pending"), (p.lex.as_ref(), "remainder")] {
                    if let Some(pl) = pl {
                        cx.write(st, pl, sym(n, vec![]));
                    }
                }
                st.facts.retain(|t, _| !["front", "pending", "remainder"].iter().any(|o| mentions_exactly(&V::Sym(*t, 0), o)));
                let t = self.triple(cx, st, &p);
                st.set_ghost("v0", t);
                st.set_ghost("argfront", V::Undef);
                st.set_ghost("lastend", V::Int(0));
                st.set_ghost("nextend", V::Undef);
            }
            return;
        }
        self.turn(cx, b, head, st, d, &p, &cur);
        if cur == "read_env_body" {
            self.so_far(st);
        }
        st.set_ghost("turns", V::Bool(true));
        st.set_ghost("events", list(vec![]));
        st.set_ghost("parts", list(vec![]));
        // from here on the lists are unknown again
        const FORGET: &[&str] = &["front", "pending", "remainder", "arg"];
        if cur == "do_bump" {
            st.facts.clear();
        }
        st.facts.retain(|t, _| !FORGET.iter().any(|o| mentions_exactly(&V::Sym(*t, 0), o)));
        if cur == "do_bump" {
            cx.write(st, &p.obuf, sym("handed on", vec![]));
            cx.write(st, &p.peeked, sym("front", vec![]));
            cx.write(st, &p.buf, sym("pending", vec![]));
            if let Some(l) = &p.lex {
                cx.write(st, l, sym("remainder", vec![]));
            }
            if let Some(q) = &p.ifs {
                let v = sym("conditionals", vec![]);
                cx.write(st, q, v.clone());
                st.set_ghost("ifs0", v);
            }
            if let Some(q) = &p.macros {
                cx.write(st, q, sym("definitions", vec![]));
            }
            let o = self.outer(cx, st, &p);
            st.set_ghost("out0", o);
        } else {
            cx.write(st, &p.peeked, sym("front", vec![]));
            cx.write(st, &p.buf, sym("pending", vec![]));
            if let Some(l) = &p.lex {
                cx.write(st, l, sym("remainder", vec![]));
            }
        }
        let t = self.triple(cx, st, &p);
        st.set_ghost("v0", t);
    }
    /// every kind of token on its own, and the end
    fn split_head(&self, cx: &mut Interp, _b: &BodyInfo, _head: usize, st: State, _d: &Driver) -> Vec<State> {
        let (cur, p) = self.cur.borrow().clone();
        let Some(p) = p else { return vec![st] };
        if !LOOPS.contains(&cur.as_str()) || cur == "read_macro_args" {
            return vec![st];
        }
        let mut out = vec![];
        let mut s = st.clone();
        cx.write(&mut s, &p.peeked, none());
        cx.write(&mut s, &p.buf, empty());
        if let Some(l) = &p.lex {
            cx.write(&mut s, l, sym("ended", vec![]));
        }
        let t = self.triple(cx, &s, &p);
        s.set_ghost("v0", t);
        s.set_ghost("class", vstr("end"));
        out.push(s);
        let tok = tok_of(&sym("front", vec![]));
        let mut s = st;
        cx.write(&mut s, &p.peeked, some(tok.clone()));
        let t = self.triple(cx, &s, &p);
        s.set_ghost("v0", t);
        for (k, mut s) in self.kind_states(cx, &s, &tokf(cx, &tok, 0), self.kind_ty(p.oty)) {
            s.set_ghost("class", vstr(&k));
            // the innermost conditional: none, or one in each state
            let (Some(q), Some(ity), true) = (&p.ifs, self.if_ty.get(), cur == "do_bump" && (k == "CommandName(Else)" || k == "CommandName(EndIf)")) else {
                out.push(s);
                continue;
            };
            let ifs = cx.read(&s, q);
            let ne = nonempty(cx, &s, &ifs);
            let (yes, no) = cx.fork(&s, &ne);
            if let Some(mut s) = no {
                cx.write(&mut s, q, empty());
                s.set_ghost("class", vstr(&format!("{k} alone")));
                out.push(s);
            }
            if let Some(mut s) = yes {
                let (l, i) = (sym("last", vec![ifs.clone()]), sym("init", vec![ifs.clone()]));
                cx.write(&mut s, q, agg(PUSH, vec![i, l.clone()]));
                for (n, mut s) in self.kind_states(cx, &s, &l, ity) {
                    s.set_ghost("class", vstr(&format!("{k} in {n}")));
                    out.push(s);
                }
            }
        }
        out
    }
    fn exit(&self, cx: &mut Interp, cut: &Cut, args: &[V], st: &State, v: &V, d: &Driver) {
        let name = crate::models::last_seg(&cut.name).to_string();
        let loc = self.loc(cut);
        if name == "lex_one" {
            let l = st.ghost("v0");
            let q = cx.deref(st, &args[0]);
            let now = cx.read(st, &q);
            let adv = sym("adv", vec![l.clone()]);
            let m = cx.decide(st, &more(&l));
            match v {
                V::Agg(0, _) => d.ob("queue", "a token is read unless the text has come to its end".into(), loc, m == Some(false), "no token although there is one".into(), st),
                _ => {
                    let x = cx.proj(v, &PE::F { var: 1, idx: 0, n: 1 });
                    let (k, t) = (tokf(cx, &x, 0), tokf(cx, &x, 1));
                    let kty = match type_args(cut.ret).first().and_then(|t| rigid(*t)) {
                        Some(RigidTy::Tuple(t)) => t[0],
                        _ => return,
                    };
                    let ks = self.kinds(cx, st, &k, kty);
                    let named = |k: &String| k == "CommandName(BeginEnvironment)" || k == "CommandName(EndEnvironment)";
                    let own = t == sym("slice", vec![adv.clone()]);
                    let of_name = mentions(&t, &sym("source", vec![adv.clone()])) && mentions_op(&t, "slice");
                    let ok = if ks.iter().all(named) { of_name } else { !ks.iter().any(named) && own };
                    d.ob("queue", "one token is read from the text, with its own text (or the name of its environment)".into(), loc, now == adv && k == sym("kind", vec![l]) && ok, format!("token {} with the text {} ({})", show(&k), show(&t), ks.iter().take(4).cloned().collect::<Vec<_>>().join("|")), st);
                }
            }
            return;
        }
        let Some(p) = self.places(cx, st, &cut.ptys, args) else { return };
        let v0t = st.ghost("v0");
        let v0 = self.flat(cx, st, &v0t, p.oty);
        let v1 = self.flat(cx, st, &self.triple(cx, st, &p), p.oty);
        let o0t = st.ghost("out0");
        let o1 = self.flat_outer(cx, st, &self.outer(cx, st, &p), p.oty);
        let text = |v: &V, cx: &Interp| -> Vec<It> { let mut o = vec![]; flat_lex(cx, st, v, &mut o); o };
        match name.as_str() {
            "do_bump" => {
                let mut want = vec![];
                flat_seq(cx, st, &elems(&o0t)[1], false, &mut want);
                d.ob("macro", "all that has been handed on is there for the parser, in order".into(), loc.clone(), o1 == want, format!("{} is there; {} was handed on", show_it(&o1), show_it(&want)), st);
                d.ob("macro", "what has not been looked at yet is still to come".into(), loc.clone(), v1 == v0, format!("{} has become {}", show_it(&v0), show_it(&v1)), st);
                d.ob("macro", "the parser is told of an end only at the end".into(), loc, !o1.is_empty() && !matches!(o1[0], It::S(..)) || v1.is_empty(), format!("{} is there; {} is still to come", show_it(&o1), show_it(&v1)), st);
            }
            "read_env_body" => {
                let g = st.ghost("depth");
                let e = cx.eq(st, &g, &V::Int(0));
                let zero = cx.decide(st, &e) == Some(true);
                let kty = self.kind_ty(p.oty);
                let (ks, text) = match v0.first() {
                    Some(It::T(k, t)) => (self.kinds(cx, st, k, kty), t.clone()),
                    _ => (vec![], V::Undef),
                };
                let end = !ks.is_empty() && ks.iter().all(|k| k == "CommandName(EndEnvironment)");
                let name = cx.text(st, &args[1], cut.ptys[1]);
                let same = { let e = cx.streq(st, &text, &name); cx.decide(st, &e) };
                let msg = || format!("{} has become {} ({}), depth {}, the result is {}; so far {}; name {} same {same:?}", show_it(&v0), show_it(&v1), ks.iter().take(4).cloned().collect::<Vec<_>>().join("|"), show(&g), show(v), show(&st.ghost("sofar")), show(&name));
                match v {
                    V::Agg(1, f) => {
                        let rest: Vec<It> = v0.iter().skip(1).cloned().collect();
                        d.ob("macro", "a body ends at the end of its environment, which is consumed".into(), loc.clone(), zero && end && v1 == rest && same == Some(true), msg(), st);
                        d.ob("macro", "the body of an environment is all of the tokens up to its end".into(), loc, f[0] == st.ghost("sofar"), msg(), st);
                    }
                    _ => d.ob("macro", "there is no body only if the text or another environment ends".into(), loc, *v == none() && (v0.is_empty() || zero && end && same == Some(false)), msg(), st),
                }
            }
            "identify_macro_update" => {
                let V::Agg(1, f) = v else { return };
                let fs: Vec<V> = (0..3).map(|i| cx.proj(&f[0], &PE::F { var: 0, idx: i, n: 3 })).collect();
                let Some(RigidTy::Tuple(t)) = type_args(cut.ret).first().and_then(|t| rigid(*t)) else { return };
                let (Some(at), Some(mt)) = (t.iter().copied().find(|t| ends(*t, "UpdateAction")), t.iter().copied().find(|t| ends(*t, "::Macro"))) else { return };
                let acts = self.kinds(cx, st, &fs[1], at);
                let ms = self.kinds(cx, st, &fs[2], mt);
                let Some(i) = cut.ptys.iter().position(|t| pointee(*t).is_some_and(|t| ends(t.0, "DeclareCmdOrEnv"))) else { return };
                let dty = pointee(cut.ptys[i]).unwrap().0;
                let dp = cx.deref(st, &args[i]);
                let dv = cx.read(st, &dp);
                for (k, s) in self.kind_states(cx, &st.clone(), &dv, dty) {
                    let renew = {
                        let vi = (0..8).find(|v| variant_name(dty, *v) == k);
                        let f = match rigid(dty) {
                            Some(RigidTy::Adt(d, _)) => vi.and_then(|v| d.variants()[v as usize].fields().iter().position(|f| f.name == "renew").map(|i| (v, i as u32))),
                            _ => None,
                        };
                        f.and_then(|(v, i)| { let x = cx.field(&dv, v, i, dty); match cx.fork(&s, &x) { (Some(_), None) => Some(true), (None, Some(_)) => Some(false), _ => None } })
                    };
                    let want = match (&*k, renew) {
                        ("ProvideCommand", _) => "Provide",
                        ("DeclareRobustCommand", _) => "New",
                        ("NewCommand" | "NewEnvironment", Some(true)) => "Renew",
                        ("NewCommand" | "NewEnvironment", Some(false)) => "New",
                        _ => "?",
                    };
                    let shape = if k == "NewEnvironment" { "Env" } else { "Cmd" };
                    let msg = || format!("{k} (renew: {renew:?} {} {}) defines {} and is to act as {}", show(&dv), s.facts.iter().map(|(t, f)| format!("{} {f:?}", show(&V::Sym(*t, 0)))).filter(|x| x.contains("arg(1)")).collect::<Vec<_>>().join(" ; "), ms.join("|"), acts.join("|"));
                    d.ob("macro", format!("{k} acts as it says"), loc.clone(), acts.len() == 1 && acts[0] == want, msg(), st);
                    d.ob("macro", format!("{k} defines a macro of its kind"), loc.clone(), ms.len() == 1 && ms[0].starts_with(shape), msg(), st);
                }
            }
            "read_macro_args" => {
                let Some(i) = cut.ptys.iter().position(|t| matches!(rigid(*t), Some(RigidTy::Uint(_)))) else { return };
                let j = cut.ptys.iter().position(|t| ends(*t, "option::Option"));
                let mut s1 = st.clone();
                self.arguments(cx, &mut s1, d, &p, &loc, true, j.map(|j| &args[j]));
                if let V::Agg(1, f) = v {
                    let n = match &f[0] {
                        V::Agg(COUNT, f) => f[0].clone(),
                        _ => V::Undef,
                    };
                    let e = cx.eq(st, &n, &args[i]);
                    let left = match &n {
                        V::Sym(w, off) => {
                            let l = cx.bin(st, rustc_public::mir::BinOp::Sub, &args[i], &V::Sym(*w, 0), cut.ptys[i]);
                            let e = cx.eq(st, &l, &V::Int(*off));
                            cx.decide(st, &e)
                        }
                        _ => None,
                    };
                    d.ob("macro", "as many arguments are read as there are parameters".into(), loc, cx.decide(st, &e) == Some(true) || left == Some(true), format!("{} arguments for {}; result {}", show(&n), show(&args[i]), st.facts.iter().map(|(t, f)| format!("{} {f:?}", show(&V::Sym(*t, 0)))).filter(|x| x.contains("arg(1)")).collect::<Vec<_>>().join(" ; ")), st);
                }
            }
            "skip_false_tokens" => {
                let g = st.ghost("depth");
                let e = cx.eq(st, &g, &V::Int(0));
                let zero = cx.decide(st, &e) == Some(true);
                let kty = self.kind_ty(p.oty);
                let ks = match v1.first() {
                    Some(It::T(k, _)) => self.kinds(cx, st, k, kty),
                    _ => vec![],
                };
                let at_end = v1.is_empty();
                let ok = at_end || zero && !ks.is_empty() && ks.iter().all(|k| k == "CommandName(Else)" || k == "CommandName(EndIf)");
                d.ob("macro", "skipping stops at the \\else or \\fi of the conditional, or at the end".into(), loc.clone(), ok, format!("it stops at {} ({}), depth {}", show_it(&v1), ks.iter().take(4).cloned().collect::<Vec<_>>().join("|"), show(&g)), st);
                d.ob("macro", "skipping takes nothing else".into(), loc, v1 == v0, format!("{} has become {}", show_it(&v0), show_it(&v1)), st);
            }
            _ => {
                let o0 = { let mut o = self.flat_outer(cx, st, &o0t, p.oty); if p.ifs.is_none() { o.extend(text(&elems(&v0t)[2], cx)); } join_pages(o) };
                let now = { let mut o = o1.clone(); if p.ifs.is_none() { o.extend(text(&elems(&self.triple(cx, st, &p))[2], cx)); } join_pages(o) };
                self.probe(cx, &name, st, v, d, &loc, &o0, &now, &o0t, args, cut, p.ifs.is_some());
            }
        }
    }
    fn done(&self, d: &Driver) {
        let t = self.trans.borrow();
        let st = State::new();
        let ifs: Vec<_> = t.iter().filter(|((k, _), _)| k.starts_with("CommandName(If(")).collect();
        let mut work: Vec<(String, &str)> = vec![];
        for ((k, _), v) in &ifs {
            let (out, r) = match k.as_str() {
                "CommandName(If(IfTrue))" => ("", "true"),
                "CommandName(If(IfFalse))" => ("tok", "false"),
                "CommandName(If(IfTypst))" => ("tok", "typst"),
                _ => ("tok", "other"),
            };
            let ok = v.iter().all(|x| x.0 == out && !x.1 && x.2 != "!") && !v.is_empty();
            d.ob("macro", format!("conditionals: {k} begins one"), String::new(), ok, format!("handed on, skips, new state: {v:?}"), &st);
            for x in v.iter() {
                work.push((x.2.clone(), r));
            }
        }
        let mut seen = BTreeSet::new();
        while let Some((l, r)) = work.pop() {
            if !seen.insert((l.clone(), r)) {
                continue;
            }
            let fi = t.get(&("CommandName(EndIf)".to_string(), l.clone()));
            let out = if matches!(r, "true" | "true2" | "true3") { "" } else { "tok" };
            let ok = fi.is_some_and(|v| v.iter().all(|x| x.0 == out && !x.1 && x.2 == "popped"));
            d.ob("macro", format!("conditionals: \\fi ends one ({r})"), String::new(), ok, format!("in the state {l}: handed on, skips, new state: {fi:?}"), &st);
            let el = t.get(&("CommandName(Else)".to_string(), l.clone()));
            let want = match r {
                "true" => Some(("", true, "true2")),
                "false" => Some(("fi", false, "true3")),
                "typst" => Some(("", true, "typst2")),
                "other" => Some(("tok", false, "other")),
                _ => None,
            };
            if let Some((o, s, n)) = want {
                let ok = el.is_some_and(|v| v.iter().all(|x| x.0 == o && x.1 == s && x.2 != "!"));
                d.ob("macro", format!("conditionals: \\else within one ({r})"), String::new(), ok, format!("in the state {l}: handed on, skips, new state: {el:?}"), &st);
                for x in el.iter().flat_map(|v| v.iter()) {
                    work.push((x.2.clone(), n));
                }
            }
        }
        for k in ["CommandName(Else)", "CommandName(EndIf)"] {
            let v = t.get(&(k.to_string(), "-".to_string()));
            let ok = v.is_some_and(|v| v.iter().all(|x| x.0 == "tok" && !x.1 && x.2 != "!"));
            d.ob("macro", format!("conditionals: {k} without one is handed on"), String::new(), ok, format!("{v:?}"), &st);
        }
        let need = ["true", "false", "typst", "other", "true2", "typst2"];
        let missing: Vec<_> = need.iter().filter(|n| !seen.iter().any(|s| s.1 == **n)).collect();
        d.ob("macro", "conditionals: all of their states are known".into(), String::new(), missing.is_empty(), format!("{missing:?} never come up"), &st);
    }
}
/// like Interp::decide, but by trying both
fn dec(cx: &Interp, st: &State, v: &V) -> Option<bool> {
    match cx.fork(st, v) {
        (Some(_), None) => Some(true),
        (None, Some(_)) => Some(false),
        _ => None,
    }
}
fn mentions_exactly(v: &V, op: &str) -> bool {
    match v {
        V::Agg(_, f) => f.iter().any(|x| mentions_exactly(x, op)),
        V::Sym(x, _) => {
            let n = node(*x);
            &*n.op == op || n.args.iter().any(|a| mentions_exactly(a, op))
        }
        _ => false,
    }
}
fn mentions_op(v: &V, op: &str) -> bool {
    match v {
        V::Agg(_, f) => f.iter().any(|x| mentions_op(x, op)),
        V::Sym(x, _) => {
            let n = node(*x);
            n.op.contains(op) || n.args.iter().any(|a| mentions_op(a, op))
        }
        _ => false,
    }
}
impl Mac {
    /// the operations of the lexer that the parser uses
    #[allow(clippy::too_many_arguments)]
    fn probe(&self, cx: &mut Interp, name: &str, st: &State, v: &V, d: &Driver, loc: &str, o0: &[It], o1: &[It], o0t: &V, args: &[V], cut: &Cut, with_macros: bool) {
        let bumps: Vec<Vec<V>> = elems(&st.ghost("events")).iter().map(elems).filter(|e| e[0] == vstr("bump")).collect();
        let kind = if with_macros { "with macros" } else { "without macros" };
        let oty = self.cur.borrow().1.as_ref().unwrap().oty;
        // after the first token: the rest, or what the macro engine has to offer then
        let rest_ok = |me: &Self, cx: &Interp, rest: &[It]| -> bool {
            if !with_macros {
                return o1 == rest;
            }
            match bumps.len() {
                0 => o1 == rest && !rest.is_empty(),
                1 => rest.is_empty() && o1 == me.flat_outer(cx, st, &bumps[0][1], oty),
                _ => false,
            }
        };
        let p0 = &elems(o0t)[0];
        let had = { let mut o = vec![]; flat_opt(cx, st, p0, oty, &mut o); o };
        let msg = || format!("{} has become {}; {} requests for more; the result is {}", show_it(o0), show_it(o1), bumps.len(), show(v));
        match name {
            n if n.contains("eat") => match had.first() {
                Some(It::T(k, t)) => {
                    let got = match v {
                        V::Agg(1, f) => (tokf(cx, &f[0], 0), tokf(cx, &f[0], 1)),
                        v => {
                            let x = cx.proj(v, &PE::F { var: 1, idx: 0, n: 1 });
                            (tokf(cx, &x, 0), tokf(cx, &x, 1))
                        }
                    };
                    let ok = got == (k.clone(), t.clone()) && rest_ok(self, cx, &o0[1..]);
                    d.ob("queue", format!("{kind}: eat takes the token in front, and the next one follows"), loc.into(), ok, msg(), st);
                }
                None => d.ob("queue", format!("{kind}: nothing is eaten at the end"), loc.into(), *v == none() && o1 == o0 && bumps.is_empty(), msg(), st),
                _ => d.ob("queue", format!("{kind}: eat looks at what is in front"), loc.into(), false, msg(), st),
            },
            n if n.contains("consume") => match had.first() {
                Some(It::T(k, t)) => {
                    let n_ = &args[1];
                    let len = len_of(t);
                    let less = cx.lt(st, n_, &len);
                    let ok = match cx.decide(st, &less) {
                        Some(true) => {
                            let part = crate::models::slice(t, n_, &V::Int(-1));
                            bumps.is_empty() && o1.first() == Some(&It::T(k.clone(), part)) && o1[1..] == o0[1..]
                        }
                        Some(false) => rest_ok(self, cx, &o0[1..]),
                        None => false,
                    };
                    d.ob("queue", format!("{kind}: the beginning of a token is taken, and its rest stays"), loc.into(), ok, msg(), st);
                }
                None => d.ob("queue", format!("{kind}: nothing is taken at the end"), loc.into(), o1 == o0 && bumps.is_empty(), msg(), st),
                _ => d.ob("queue", format!("{kind}: taking a part looks at what is in front"), loc.into(), false, msg(), st),
            },
            n if n.contains("peek") => {
                let text = n.contains("text");
                let ok = match had.first() {
                    Some(It::T(k, t)) => {
                        let x = cx.proj(v, &PE::F { var: 1, idx: 0, n: 1 });
                        x == if text { t.clone() } else { k.clone() }
                    }
                    None => *v == none(),
                    _ => false,
                };
                d.ob("queue", format!("{kind}: {} is that of the token in front", if text { "the text" } else { "the kind" }), loc.into(), ok && o1 == o0 && bumps.is_empty(), msg(), st);
            }
            _ => {}
        }
        let _ = cut;
    }
}
pub fn run(out: &str) {
    let names = ["probe_eat", "probe_eat_macro", "probe_consume", "probe_consume_macro", "probe_peek", "probe_peek_text", "probe_peek_macro", "probe_peek_text_macro"];
    let roots: Vec<u32> = names.iter().map(|n| find_root(n).expect(n)).collect();
    let d = Driver::new(Box::new(Mac::default()));
    let cx = d.run(&roots, 300);
    std::fs::write(out, json("mac", &d, &cx, &roots, &[])).unwrap();
}

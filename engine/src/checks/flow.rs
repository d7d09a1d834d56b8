//! Every part of the document is converted, once and in order, and names come out as the
//! specification says. Runs along with the analysis of the conversions (conv.rs).
use super::conv::*;
use super::driver::*;
use super::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

/// how an iteration that came to its end is known at an exit
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
enum Over {
    /// the children of the element itself
    Own,
    /// the children of something below it
    Below,
    /// an iterator that was handed in
    Param(u32),
    /// the element was handed on
    On(u32, String),
    /// an iterator over its children was handed on: to the parameter of a function
    OnIter(u32, u32, Box<Over>),
}
#[derive(Clone)]
struct Full {
    over: Over,
    site: String,
    /// why some elements don't take part
    lost: BTreeSet<String>,
}
struct Exit {
    fid: u32,
    kind: String,
    key: String,
    loc: String,
    full: Vec<Full>,
    st: State,
    /// there must be an iteration over the arguments of the environment as well
    args: bool,
    /// nothing to be converted
    free: bool,
}
pub struct Flow {
    /// children that are passed over: kind of the parent and place of the iteration
    skips: RefCell<BTreeMap<(String, String), BTreeSet<String>>>,
    exits: RefCell<Vec<Exit>>,
    /// kinds of elements a function is called with; * for all
    demand: RefCell<BTreeSet<(u32, String)>>,
    drops: RefCell<BTreeMap<(String, String), BTreeSet<String>>>,
    busy: Cell<bool>,
    /// iterators before they are advanced, by depth
    pre: RefCell<BTreeMap<usize, (V, Ty)>>,
    /// filters seen inside of an iterator
    filters: RefCell<BTreeMap<i128, BTreeSet<String>>>,
    types: RefCell<BTreeMap<i128, Ty>>,
    no_args: u32,
    math: u32,
    list_env: u32,
}
fn list(v: &V) -> Vec<V> {
    match v {
        V::Agg(_, f) => f.to_vec(),
        _ => vec![],
    }
}
/// elements that come out as nothing
fn silent(k: &str) -> bool {
    matches!(k, "TokenLBrace" | "TokenRBrace" | "TokenDollar" | "TokenBeginMath" | "TokenEndMath" | "TokenComment" | "ItemBlockComment")
}
/// texts that are known to be equal to something in the element
fn texts(st: &State, item: &V) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for (t, f) in &st.facts {
        if !mentions(&V::Sym(*t, 0), item) {
            continue;
        }
        if let Some(s) = &f.streq {
            out.insert(s.trim_start_matches('\\').to_string());
        }
        let n = node(*t);
        if &*n.op == "streq" && st.exact(*t) == Some(1) {
            for a in &n.args {
                if let V::Str(s) = a {
                    out.insert(s.trim_start_matches('\\').to_string());
                }
            }
        }
    }
    out
}
/// commands with a form of their own
const FREE: [&str; 6] = ["item", "label", "includegraphics", "color", "textcolor", "colorbox"];
const RULES: [&str; 4] = ["hline", "toprule", "midrule", "bottomrule"];
fn may_skip(parent: &str, env: &str, k: &str, txt: &BTreeSet<String>) -> bool {
    if silent(k) {
        return true;
    }
    match parent {
        "ItemAttachComponent" => matches!(k, "TokenUnderscore" | "TokenCaret"),
        "ClauseLR" => k == "ClauseCommandName" || k == "TokenWord" && txt.contains("."),
        "ItemCmd" => k == "ClauseCommandName",
        "ItemEnv" => match k {
            "ItemBegin" | "ItemEnd" => true,
            "TokenWhiteSpace" | "TokenLineBreak" | "TokenAmpersand" | "ItemNewLine" => env == "Table",
            "ItemCmd" if env == "Table" => txt.iter().any(|t| RULES.contains(&t.as_str())),
            "ItemCmd" => txt.iter().any(|t| t == "caption" || t == "centering") && env == "Figure",
            _ => false,
        },
        _ => false,
    }
}
impl Flow {
    pub fn new() -> Self {
        Flow { skips: Default::default(), exits: Default::default(), demand: Default::default(), drops: Default::default(), busy: Cell::new(false), pre: Default::default(), filters: Default::default(), types: Default::default(), no_args: find_root("probe_no_args").unwrap(), math: find_root("probe_math_env").unwrap(), list_env: find_root("probe_list_env").unwrap() }
    }
    pub fn clear(&self) {
        self.skips.borrow_mut().clear();
        self.exits.borrow_mut().clear();
        self.demand.borrow_mut().clear();
    }
    /// the element that an iteration yields: value and type, without references and numbers
    fn item(cx: &mut Interp, st: &State, v: V, ty: Ty) -> Option<(V, Ty)> {
        let (mut v, mut ty) = (v, ty);
        for _ in 0..4 {
            if let Some((t, _)) = pointee(ty) {
                v = cx.read(st, &cx.deref(st, &v));
                ty = t;
            } else if let Some(RigidTy::Tuple(ts)) = rigid(ty) {
                let i = ts.iter().position(|t| is_elem(*t) || pointee(*t).is_some() || adt_name(*t).is_some_and(|n| n.ends_with("SyntaxNode") || n.ends_with("SyntaxToken")))?;
                v = cx.proj(&v, &PE::F { var: 0, idx: i as u32, n: ts.len() as u32 });
                ty = ts[i];
            } else {
                break;
            }
        }
        let n = adt_name(ty)?;
        (n.ends_with("NodeOrToken") || n.ends_with("SyntaxNode") || n.ends_with("SyntaxToken")).then_some((v, ty))
    }
    fn item_kinds(&self, cv: &Conv, cx: &mut Interp, st: &State, v: &V, var: i128) -> BTreeSet<String> {
        let e = match var {
            0 => agg(0, vec![v.clone()]),
            1 => agg(1, vec![v.clone()]),
            _ => v.clone(),
        };
        let mut s = st.clone();
        let o = Obj::Tmp(9003, 0);
        s.mem.insert(o.clone(), e.clone());
        let a = V::Ref(Rc::new(Pl { obj: o, path: vec![] }), false);
        let kt = kinds(cv.kind_of).0;
        let mut out = BTreeSet::new();
        self.busy.set(true);
        for (s, v) in cx.run_keeping(cv.kind_of, vec![a], s, vec![e.clone()]) {
            for (k, _) in cx.cases(&s, &v, kt) {
                out.insert(variant_name(kt, k));
            }
        }
        self.busy.set(false);
        out
    }
    fn env_of(&self, cx: &mut Interp, cv: &Conv, st: &State) -> String {
        let Some(cut) = cv.cur.borrow().clone() else { return String::new() };
        let Some(l) = cut.leaves.iter().find(|l| adt_name(l.ty).is_some_and(|t| t.ends_with("LaTeXEnv"))) else { return String::new() };
        let args: Vec<V> = (0..cut.ptys.len()).map(|i| arg(i, cut.ptys[i])).collect();
        let v = Conv::read_leaf(cx, st, &args, l);
        let c = cx.cases(st, &v, l.ty);
        match &c[..] {
            [(a, _)] => variant_name(l.ty, *a),
            _ => String::new(),
        }
    }
    fn skipped(&self, cv: &Conv, cx: &mut Interp, st: &State, e: &V) {
        let f = list(e);
        let parent = cv.kname(st);
        let V::Int(var) = f[5] else { return };
        let V::Str(site) = &f[4] else { return };
        let env = self.env_of(cx, cv, st);
        let txt = texts(st, &f[3]);
        let ks = self.item_kinds(cv, cx, st, &f[3], var);
        let bad: Vec<String> = ks.into_iter().filter(|k| !may_skip(&parent, &env, k, &txt)).collect();
        if std::env::var("MXSA_WHY").is_ok() {
            eprintln!("skipped in {parent} {env} at {site}: {bad:?} {txt:?}");
            if bad.iter().any(|b| b == "ClauseArgument") {
                if parent == "ItemCmd" {
                    for (t, f) in &st.facts { eprintln!("     fact {} {:?} {:?}", show_t(*t), f.get(), f.ne); }
                    for (t, f) in &st.mem { eprintln!("     mem {t:?} {}", show(f)); }
                }
                eprintln!("   item {} {:?}", show(&f[3]), st.facts.iter().filter(|(t, _)| mentions(&V::Sym(**t, 0), &f[3])).map(|(t, f)| (show_t(*t), f.get(), f.ne.clone())).collect::<Vec<_>>());
            }
        }
        self.skips.borrow_mut().entry((parent, site.to_string())).or_default().extend(bad);
    }
    pub fn call(&self, cv: &Conv, cx: &mut Interp, c: &Call, st: &State, d: &Driver) {
        if c.inst.def.krate().name == "mitex_parser" {
            self.spec_arg(cv, cx, c, st, d);
        }
        if self.busy.get() || crate::models::last_seg(c.name) != "next" || !adt_name(c.ret).is_some_and(|n| n.ends_with("option::Option")) {
            return;
        }
        let Some((t, _)) = pointee(c.tys[0]) else { return };
        let v = cx.read(st, &cx.deref(st, &c.args[0]));
        let v = cx.snap(st, &v, Some(t), 0);
        self.pre.borrow_mut().insert(cx.stack.len(), (v, t));
    }
    pub fn after(&self, cv: &Conv, cx: &mut Interp, c: &Call, outs: Outs, _d: &Driver) -> Outs {
        if crate::models::last_seg(c.name) == "get_env" && c.inst.def.krate().name == "mitex_spec" {
            return outs
                .into_iter()
                .map(|(mut s, v)| {
                    s.set_ghost("shape", v.clone());
                    (s, v)
                })
                .collect();
        }
        if self.busy.get() || crate::models::last_seg(c.name) != "next" || !adt_name(c.ret).is_some_and(|n| n.ends_with("option::Option")) {
            return outs;
        }
        if outs.iter().all(|(s, _)| cv.kname(s) == "ItemCmd" && texts(s, &s.ghost("name")).iter().any(|n| FREE.contains(&n.as_str()))) {
            return outs;
        }
        let it = type_args(c.ret)[0];
        let mut res = vec![];
        let site = cx.our_site(&c.site);
        let depth = cx.stack.len() as i128 - 1;
        for (s, v) in outs {
            let from = match &v {
                V::Sym(t, 0) => node(*t).args.first().and_then(origin),
                _ => None,
            };
            if std::env::var("MXSA_WHY").is_ok() {
                eprintln!("next {} {} {:?}", site.loc(), show(&v), from.as_ref().map(|f| chain(f).is_some()));
            }
            let place = format!("{}#{}.{}", site.loc(), site.fid, site.bb);
            let here = [V::Int(depth), V::Int(c.site.fid as i128), V::Int(c.site.bb as i128)];
            let id = match from.filter(|f| chain(f).is_some()) {
                Some(f) => origin_id(&f),
                None => {
                    // an adaptor that was gone through piece by piece
                    let pre = self.pre.borrow().get(&cx.stack.len()).cloned();
                    let (Some((w, t)), true) = (pre, body(c.site.fid).is_some_and(|b| crate::interp::is_ours(&b.krate) && (b.krate != "vharness" || ["run_for_each", "run_try_for_each", "run_fold", "run_try_fold"].iter().any(|n| b.name.ends_with(n))) && b.loops.values().any(|l| l.contains(&(c.site.bb as usize)))) && matches!(v, V::Agg(..))) else {
                        res.push((s, v));
                        continue;
                    };
                    // found further inside
                    let seen = match &v {
                        V::Agg(0, _) => matches!(s.ghost("done"), V::Str(x) if x.split(';').any(|x| x.ends_with(&format!("@{place}")))),
                        _ => list(&s.ghost("pend")).iter().any(|e| mentions(&v, &list(e)[3]) && list(e)[4] == vstr(&place)),
                    };
                    if std::env::var("MXSA_WHY").is_ok() {
                        eprintln!("pieces {place} {seen} {}", Self::item(cx, &s, V::Undef, it).is_some());
                    }
                    if seen || Self::item(cx, &s, V::Undef, it).is_none() {
                        res.push((s, v));
                        continue;
                    }
                    let old = list(&s.ghost("its")).into_iter().find(|e| list(e)[..3] == here).map(|e| list(&e)[3].clone());
                    let id = match old {
                        Some(V::Int(i)) => i,
                        _ => origin_id(&w),
                    };
                    let mut fs = BTreeSet::new();
                    filters(&w, &mut fs);
                    self.filters.borrow_mut().entry(id).or_default().extend(fs);
                    self.types.borrow_mut().insert(id, t);
                    id
                }
            };
            for (var, mut s) in cx.cases(&s, &v, c.ret) {
                let mut its: Vec<V> = list(&s.ghost("its"));
                its.retain(|e| list(e)[..3] != here);
                if var == 1 && self.types.borrow().contains_key(&id) {
                    its.push(agg(0, here.iter().cloned().chain([V::Int(id)]).collect()));
                }
                s.set_ghost("its", if its.is_empty() { V::Undef } else { agg(0, its) });
                // what was there before is over
                let mut p: Vec<V> = list(&s.ghost("pend"));
                p.retain(|e| !(list(e)[0] == V::Int(depth) && list(e)[1] == V::Int(c.site.fid as i128) && list(e)[2] == V::Int(c.site.bb as i128)));
                if var == 0 {
                    let mut done: BTreeSet<String> = match s.ghost("done") {
                        V::Str(x) => x.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
                        _ => BTreeSet::new(),
                    };
                    done.insert(format!("{id}@{place}"));
                    s.set_ghost("done", vstr(&done.into_iter().collect::<Vec<_>>().join(";")));
                } else {
                    let x = cx.proj(&v, &PE::F { var: 1, idx: 0, n: 1 });
                    if let Some((x, t)) = Self::item(cx, &s, x, it) {
                        let n = adt_name(t).unwrap_or_default();
                        let k = if n.ends_with("SyntaxNode") { 0 } else if n.ends_with("SyntaxToken") { 1 } else { 2 };
                        p.push(agg(0, vec![V::Int(depth), V::Int(c.site.fid as i128), V::Int(c.site.bb as i128), x, vstr(&place), V::Int(k), V::Int(id)]));
                    }
                }
                s.set_ghost("pend", agg(0, p));
                let v = if var == 0 { none() } else { v.clone() };
                res.push((s, v));
            }
        }
        let _ = cv;
        res
    }
    pub fn at_head(&self, cv: &Conv, cx: &mut Interp, b: &BodyInfo, head: usize, depth: u32, st: &mut State) {
        if self.busy.get() {
            return;
        }
        let Some(lp) = b.loops.get(&head) else { return };
        let p = list(&st.ghost("pend"));
        let mut rest = vec![];
        for e in &p {
            let f = list(e);
            let here = f[0] == V::Int(depth as i128) && f[1] == V::Int(b.fid as i128) && matches!(f[2], V::Int(x) if lp.contains(&(x as usize)));
            if !here {
                rest.push(e.clone());
                continue;
            }
            if matches!(e, V::Agg(0, _)) {
                self.skipped(cv, cx, st, e);
            }
        }
        if rest.len() != p.len() {
            st.set_ghost("pend", agg(0, rest));
        }
    }
    /// what a conversion has learned about the parts of an element doesn't matter to its caller
    pub fn leave(&self, _cx: &mut Interp, b: &BodyInfo, st: &mut State) {
        if self.busy.get() || !is_result(b.tys[0]) || !type_args(b.tys[0]).first().is_some_and(|t| is_unit(*t)) {
            return;
        }
        let name = st.ghost("name");
        let items: Vec<V> = list(&st.ghost("pend")).iter().filter_map(|e| list(e).get(3).cloned()).collect();
        st.facts.retain(|t, _| {
            let v = V::Sym(*t, 0);
            !has_op(&v, "children") && !has_op(&v, "children_with_tokens") || name != V::Undef && mentions(&v, &name) || &*op_of(*t) == "find.hit" || items.iter().any(|i| mentions(&v, i))
        });
    }
    /// the specification is handed on as it came
    fn spec_arg(&self, cv: &Conv, cx: &mut Interp, c: &Call, st: &State, d: &Driver) {
        if self.busy.get() {
            return;
        }
        let site = cx.our_site(&c.site);
        for (a, t) in c.args.iter().zip(&c.tys) {
            if !is_spec(pointee(*t).map_or(*t, |x| x.0)) {
                continue;
            }
            let v = plain(cx, st, a, *t);
            let own = self.own_spec(cv, cx, st);
            if std::env::var("MXSA_WHY").is_ok() {
                eprintln!("spec at {} : {} own {}", site.loc(), show(&v), own.as_ref().map_or("?".into(), show));
            }
            d.ob("names", format!("{}: the specification is handed on", site.func()), site.loc(), own.is_some_and(|o| o == v || o == vstr("DEFAULT_SPEC") && is_default(&v)), format!("{} is given a specification other than the one in use", c.name), st);
        }
    }
    /// the specification of the call: that of the parameter, or the default one
    fn own_spec(&self, cv: &Conv, cx: &mut Interp, st: &State) -> Option<V> {
        if let Some(cut) = cv.cur.borrow().clone() {
            if let Some(j) = cut.ptys.iter().position(|t| is_spec(pointee(*t).map_or(*t, |x| x.0))) {
                return Some(plain(cx, st, &arg(j, cut.ptys[j]), cut.ptys[j]));
            }
            for (j, t) in cut.ptys.iter().enumerate() {
                if !type_args(*t).first().is_some_and(|x| is_spec(*x)) {
                    continue;
                }
                let v = arg(j, *t);
                let c = cx.cases(st, &v, *t);
                return match &c[..] {
                    [(1, s)] => {
                        let x = cx.proj(&v, &PE::F { var: 1, idx: 0, n: 1 });
                        Some(plain(cx, s, &x, type_args(*t)[0]))
                    }
                    [(0, _)] => Some(vstr("DEFAULT_SPEC")),
                    _ => None,
                };
            }
        }
        None
    }
    pub fn at_call(&self, cv: &Conv, cx: &mut Interp, cut: &Cut, c: &Call, st: &mut State, d: &Driver) {
        self.spec_arg(cv, cx, c, st, d);
        let Some(i) = cut.ptys.iter().position(|t| is_elem(*t)) else {
            // is an iterator handed on?
            for (j, (a, t)) in c.args.iter().zip(&c.tys).enumerate() {
                let v = cx.snap(st, a, Some(*t), 0);
                if let Some(o) = origin(&v) {
                    if chain(&o).is_some() && !matches!(&o, V::Sym(t, _) if &*op_of(*t) == "arg") {
                        self.add_done(st, format!("I{}.{}:{}@{}", cut.fid, j, origin_id(&o), cx.our_site(&c.site).loc()));
                    }
                }
            }
            return;
        };
        let v = cx.snap(st, &c.args[i], Some(c.tys[i]), 0);
        let mine = cv.cur.borrow().clone();
        let site = cx.our_site(&c.site);
        if let Some(m) = &mine {
            if let Some(j) = m.ptys.iter().position(|t| is_elem(*t)) {
                let own = cx.snap(&State::new(), &arg(j, m.ptys[j]), Some(m.ptys[j]), 0);
                if v == own {
                    self.add_done(st, format!("F{}", cut.fid));
                    self.demand.borrow_mut().insert((cut.fid, cv.kname(st)));
                    return;
                }
            }
        }
        self.demand.borrow_mut().insert((cut.fid, "*".into()));
        if aside(&v) {
            d.ob("flow", format!("{}: elements are converted in turn", site.func()), site.loc(), false, "an element is converted next to which the iteration is".into(), st);
        }
        let mut p = list(&st.ghost("pend"));
        for e in p.iter_mut() {
            let f = list(e);
            if f.len() < 7 {
                panic!("{} {}", show(&st.ghost("pend")), site.loc());
            }
            if !mentions(&v, &f[3]) {
                continue;
            }
            let once = matches!(e, V::Agg(0, _));
            d.ob("flow", format!("{}: no part is converted twice", site.func()), site.loc(), once, "an element is converted that has been converted before".into(), st);
            *e = V::Agg(1, Rc::new(f));
        }
        st.set_ghost("pend", agg(0, p));
    }
    fn add_done(&self, st: &mut State, x: String) {
        let mut done: BTreeSet<String> = match st.ghost("done") {
            V::Str(x) => x.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
            _ => BTreeSet::new(),
        };
        done.insert(x);
        st.set_ghost("done", vstr(&done.into_iter().collect::<Vec<_>>().join(";")));
    }
    /// what an iteration goes over
    fn over(&self, cv: &Conv, cx: &mut Interp, st: &State, id: i128, kind: &str) -> Option<(Over, BTreeSet<String>)> {
        let o = origin_of_id(id)?;
        let cut = cv.cur.borrow().clone()?;
        let mut lost = BTreeSet::new();
        if let Some(t) = self.types.borrow().get(&id).copied() {
            let j = cut.ptys.iter().position(|t| is_elem(*t))?;
            if !mentions(&o, &arg(j, cut.ptys[j])) {
                return None;
            }
            let mut names = BTreeSet::new();
            adaptors(t, &mut names, 0);
            let flat = names.iter().any(|n| n.starts_with("Flat"));
            for n in names {
                if matches!(n.as_str(), "Skip" | "Take" | "StepBy" | "SkipWhile" | "TakeWhile" | "Rev" | "FilterMap" | "MapWhile" | "Scan") {
                    lost.insert(format!("what {n} leaves out or reorders"));
                }
            }
            for f in self.filters.borrow().get(&id).into_iter().flatten() {
                lost.extend(self.dropped(cv, cx, st, f, kind));
            }
            // the children of the element itself?
            let mut inner = o.clone();
            while let V::Agg(_, f) = &inner {
                inner = f.first()?.clone();
            }
            if !flat {
                if let Some((Over::Own, l)) = self.over_term(cv, cx, st, &inner, kind) {
                    lost.extend(l);
                    return Some((Over::Own, lost));
                }
            }
            lost.retain(|k| k == "ClauseArgument" || k.contains(' '));
            return Some((Over::Below, lost));
        }
        self.over_term(cv, cx, st, &o, kind)
    }
    fn over_term(&self, cv: &Conv, cx: &mut Interp, st: &State, o: &V, kind: &str) -> Option<(Over, BTreeSet<String>)> {
        let cut = cv.cur.borrow().clone()?;
        let mut lost = BTreeSet::new();
        let (root, ad) = chain(o)?;
        let mut flat = false;
        for (a, args) in &ad {
            match a.as_str() {
                "children_with_tokens" | "into_iter" | "iter" | "collect" | "deref" | "enumerate" | "peekable" | "fuse" | "by_ref" | "cloned" | "copied" | "as_slice" | "drain" | "from_iter" | "unwrap" | "clone" | "as_ref" => {}
                "flat_map" => flat = true,
                "children" => {
                    // nodes only
                    lost.insert("tokens".to_string());
                }
                "skip" if args.first() == Some(&V::Int(1)) && kind == "ClauseLR" => {}
                "next" if kind == "ClauseLR" => {}
                "filter" => {
                    let name = match args.first() {
                        Some(V::Sym(f, 0)) => match node(*f).args.first() {
                            Some(V::Str(n)) => n.to_string(),
                            _ => String::new(),
                        },
                        _ => String::new(),
                    };
                    lost.extend(self.dropped(cv, cx, st, &name, kind));
                }
                o => {
                    lost.insert(format!("what {o} leaves out or reorders"));
                }
            }
        }
        if let V::Sym(t, 0) = &root {
            let n = node(*t);
            if &*n.op == "arg" && !ad.iter().any(|a| a.0 == "children_with_tokens" || a.0 == "children") {
                if let V::Int(i) = n.args[0] {
                    return Some((Over::Param(i as u32), lost));
                }
            }
        }
        let j = cut.ptys.iter().position(|t| is_elem(*t))?;
        let own = arg(j, cut.ptys[j]);
        if !mentions(&root, &own) {
            return None;
        }
        let below = flat || below(&root);
        Some((if below { Over::Below } else { Over::Own }, lost))
    }
    fn dropped(&self, cv: &Conv, cx: &mut Interp, st: &State, name: &str, kind: &str) -> BTreeSet<String> {
        let key = (name.to_string(), kind.to_string());
        if let Some(x) = self.drops.borrow().get(&key) {
            return x.clone();
        }
        let mut out = BTreeSet::new();
        self.busy.set(true);
        for k in kinds(cv.kind_of).1.names.clone() {
            if may_skip(kind, "", &k, &BTreeSet::new()) || k == "ScopeRoot" || kind == "ItemCmd" && k != "ClauseArgument" {
                continue;
            }
            if cv.accepts(cx, st, name, &k) != Some(true) {
                out.insert(k);
            }
        }
        self.busy.set(false);
        self.drops.borrow_mut().insert(key, out.clone());
        out
    }
    /// the token with the name of the element
    fn name_tok(&self, cv: &Conv, cx: &mut Interp, st: &State) -> Option<V> {
        let k = cv.kname(st);
        match k.as_str() {
            "ItemCmd" | "ItemEnv" => Some(st.ghost("name")).filter(|v| *v != V::Undef),
            "TokenCommandSym" => {
                let cut = cv.cur.borrow().clone()?;
                let j = cut.ptys.iter().position(|t| is_elem(*t))?;
                let e = cx.snap(&State::new(), &arg(j, cut.ptys[j]), Some(cut.ptys[j]), 0);
                Some(sym("f", vec![e, V::Int(1), V::Int(0)]))
            }
            _ => None,
        }
    }
    /// is it the name of the element, without the backslash?
    fn is_name(&self, tok: &V, env: bool, st: &State, v: &V) -> bool {
        if let V::Str(s) = v {
            // names of commands start with a backslash (C14)
            let no_prefix = s.is_empty()
                && st.facts.iter().any(|(t, f)| {
                    let n = node(*t);
                    if f.get() != Some(0) {
                        return false;
                    }
                    if &*n.op == "starts_with" {
                        return n.args[1] == vstr("\\") && name_of(&n.args[0]).is_some_and(|(x, k)| x == *tok && k == 0);
                    }
                    &*n.op == "discr"
                        && matches!(&n.args[0], V::Sym(t, 0) if op_of(*t).ends_with("strip_prefix") && name_of(&node(*t).args[0]).is_some_and(|(x, k)| x == *tok && k == 0))
                });
            return no_prefix || named(st, tok).is_some_and(|n| **s == n[(!env) as usize..]);
        }
        name_of(v).is_some_and(|(t, n)| t == *tok && n == (!env) as u32)
    }
    pub fn emit(&self, cv: &Conv, cx: &mut Interp, all: &[V], site: &Site, st: &mut State, d: &Driver) {
        let k = cv.kname(st);
        let Some(tok) = self.name_tok(cv, cx, st) else { return };
        if self.busy.get() {
            return;
        }
        let env = k == "ItemEnv";
        for p in all {
            let key = format!("{}: names are those of the specification", site.func());
            let own = cx.snap(st, p, None, 0);
            let alias = looked_up(&own);
            if alias.is_none() && !(matches!(p, V::Sym(..)) && self.is_name(&tok, env, st, &own)) {
                continue;
            }
            let right = match &alias {
                Some((map, key)) => self.is_name(&tok, env, st, key) && self.own_map(cv, cx, st, map),
                None => {
                    // only when there is no other name for it
                    let ts: Vec<(Tm, bool)> = st.facts.iter().map(|(t, f)| (*t, f.get() == Some(0))).collect();
                    ts.into_iter().any(|(t, zero)| {
                        let n = node(t);
                        zero && &*n.op == "discr"
                            && matches!(n.args.get(1), Some(V::Str(s)) if s.contains("String"))
                            && looked_up(&n.args[0]).is_some_and(|(map, key)| self.is_name(&tok, env, st, &key) && self.own_map(cv, cx, st, &map))
                    })
                }
            };
            if std::env::var("MXSA_WHY").is_ok() {
                eprintln!("name {k} {} {right} {}", alias.is_some(), show(&own));
                if !right { for (t, f) in &st.facts { eprintln!("     fact {} {:?} {:?} {:?} {:?}", show_t(*t), f.get(), f.ne, f.streq, f.strne); } }
            }
            d.ob("names", key, site.loc(), right, "the name that is written is not the one that the specification gives to the element".into(), st);
            let n = match st.ghost("said") {
                V::Undef => "once",
                _ => "more",
            };
            st.set_ghost("said", vstr(n));
        }
    }
    fn own_map(&self, cv: &Conv, cx: &mut Interp, st: &State, map: &V) -> bool {
        self.own_spec(cv, cx, st).is_some_and(|o| mentions(map, &o))
    }
    #[allow(clippy::too_many_arguments)]
    pub fn exit(&self, cv: &Conv, cx: &mut Interp, cut: &Cut, _args: &[V], st: &State, k: &str, w: &str, loc: &str, d: &Driver) {
        if cut.leaves.is_empty() {
            return;
        }
        if super::parse::is_leaf(k) {
            if k == "TokenCommandSym" {
                self.said(cv, cx, cut, st, k, w, loc, d);
            }
            return;
        }
        if matches!(k, "ItemCmd" | "ItemEnv") && cut.ptys.iter().any(|t| is_elem(*t)) {
            self.said(cv, cx, cut, st, k, w, loc, d);
        }
        let mut full = vec![];
        let done: Vec<String> = match st.ghost("done") {
            V::Str(x) => x.split(';').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect(),
            _ => vec![],
        };
        for e in done {
            if let Some(f) = e.strip_prefix('F') {
                full.push(Full { over: Over::On(f.parse().unwrap(), k.to_string()), site: String::new(), lost: BTreeSet::new() });
            } else if let Some(f) = e.strip_prefix('I') {
                let (a, b) = f.split_once(':').unwrap();
                let (fid, j) = a.split_once('.').unwrap();
                let (id, _) = b.split_once('@').unwrap();
                if let Some((o, lost)) = self.over(cv, cx, st, id.parse().unwrap(), k) {
                    full.push(Full { over: Over::OnIter(fid.parse().unwrap(), j.parse().unwrap(), Box::new(o)), site: String::new(), lost });
                }
            } else {
                let (id, site) = e.split_once('@').unwrap();
                let id: i128 = id.parse().unwrap();
                if let Some((over, mut lost)) = self.over(cv, cx, st, id, k) {
                    // elements that were taken out beforehand
                    for e in list(&st.ghost("pend")) {
                        let f = list(&e);
                        if matches!(e, V::Agg(0, _)) && f[6] == V::Int(id) {
                            if let V::Int(var) = f[5] {
                                let env = self.env_of(cx, cv, st);
                                let txt = texts(st, &f[3]);
                                lost.extend(self.item_kinds(cv, cx, st, &f[3], var).into_iter().filter(|x| !may_skip(k, &env, x, &txt)));
                            }
                        }
                    }
                    full.push(Full { over, site: site.to_string(), lost });
                }
            }
        }
        let named: BTreeSet<String> = texts(st, &st.ghost("name"));
        let mut free = matches!(k, "ItemTypstCode" | "ItemBlockComment" | "ItemNewLine");
        let mut args = false;
        if k == "ItemCmd" {
            free |= named.iter().any(|n| FREE.contains(&n.as_str()));
            free = free || self.takes_nothing(cv, cx, st);
        }
        if k == "ItemEnv" {
            args = self.math_env(cx, st);
        }
        self.exits.borrow_mut().push(Exit { fid: cut.fid, kind: k.to_string(), key: w.to_string(), loc: loc.to_string(), full, st: st.clone(), args, free });
    }
    /// the name has been written
    #[allow(clippy::too_many_arguments)]
    fn said(&self, cv: &Conv, cx: &mut Interp, cut: &Cut, st: &State, k: &str, w: &str, loc: &str, d: &Driver) {
        let handed_on = matches!(st.ghost("done"), V::Str(x) if x.split(';').any(|x| x.starts_with('F')));
        let names: BTreeSet<String> = texts(st, &st.ghost("name"));
        let _ = cut;
        let mut free = handed_on;
        if k == "ItemCmd" {
            free |= names.iter().any(|n| FREE.contains(&n.as_str()) || n == "textbf" || n == "textit");
        }
        if k == "ItemEnv" {
            free |= self.shape_is(cx, st, self.list_env);
        }
        if let Some(tok) = self.name_tok(cv, cx, st) {
            free |= named(st, &tok).is_some_and(|n| n.len() == 1);
        }
        let said = st.ghost("said") == vstr("once");
        if std::env::var("MXSA_WHY").is_ok() {
            eprintln!("said {w} {} {free} {names:?}", show(&st.ghost("said")));
            if !free && st.ghost("said") == V::Undef {
                for (t, f) in &st.facts { eprintln!("     fact {} {:?} {:?} {:?} {:?}", show_t(*t), f.get(), f.ne, f.streq, f.strne); }
            }
        }
        d.ob("names", format!("{w}: the name is written once"), loc.to_string(), said || free, "the element is converted without its name in the specification, or with it more than once".into(), st);
    }
    fn takes_nothing(&self, cv: &Conv, cx: &mut Interp, st: &State) -> bool {
        let shapes: Vec<V> = cv.shapes.borrow().iter().map(|(_, v)| v.clone()).collect();
        self.busy.set(true);
        let mut yes = false;
        for v in shapes {
            let all: Vec<bool> = cx
                .run_keeping(self.no_args, vec![v], st.clone(), vec![])
                .into_iter()
                .flat_map(|(s, v)| {
                    let (a, b) = cx.fork(&s, &v);
                    a.map(|_| true).into_iter().chain(b.map(|_| false)).collect::<Vec<_>>()
                })
                .collect();
            yes |= !all.is_empty() && all.iter().all(|b| *b);
        }
        self.busy.set(false);
        yes
    }
    /// is the environment one that becomes a function of math?
    fn math_env(&self, cx: &mut Interp, st: &State) -> bool {
        self.shape_is(cx, st, self.math)
    }
    fn shape_is(&self, cx: &mut Interp, st: &State, probe: u32) -> bool {
        let v = st.ghost("shape");
        if v == V::Undef {
            return false;
        }
        self.busy.set(true);
        let outs = cx.run_keeping(probe, vec![v], st.clone(), vec![]);
        self.busy.set(false);
        let all: Vec<bool> = outs
            .into_iter()
            .flat_map(|(s, v)| {
                let (a, b) = cx.fork(&s, &v);
                a.map(|_| true).into_iter().chain(b.map(|_| false)).collect::<Vec<_>>()
            })
            .collect();
        !all.is_empty() && all.iter().all(|b| *b)
    }
    fn complete(&self, e: &Exit, f: &Full, kind: &str, seen: &mut Vec<(u32, u32)>) -> Result<(), String> {
        let mut lost = f.lost.clone();
        if !f.site.is_empty() {
            if let Some(s) = self.skips.borrow().get(&(kind.to_string(), f.site.clone())) {
                lost.extend(s.iter().cloned());
            }
        }
        if kind == "ItemCmd" && matches!(f.over, Over::Own) {
            lost.remove("tokens");
            lost.retain(|k| k == "ClauseArgument" || k.contains(' '));
        }
        if !lost.is_empty() {
            return Err(format!("not converted: {}", lost.into_iter().collect::<Vec<_>>().join(", ")));
        }
        match &f.over {
            Over::OnIter(fid, j, over) => {
                if seen.contains(&(*fid, *j)) {
                    return Ok(());
                }
                seen.push((*fid, *j));
                for x in self.exits.borrow().iter().filter(|x| x.fid == *fid) {
                    let mut why = "an iterator that is handed on is not used up".to_string();
                    let ok = x.full.iter().any(|g| {
                        let r = g.over == Over::Param(*j);
                        match self.complete(x, g, "", seen) {
                            Ok(()) => r,
                            Err(m) => {
                                if r {
                                    why = m;
                                }
                                false
                            }
                        }
                    });
                    if !ok {
                        return Err(why);
                    }
                }
                let _ = over;
                Ok(())
            }
            _ => Ok(()),
        }
        .map(|_| {
            let _ = e;
        })
    }
    pub fn done(&self, d: &Driver) {
        let demand = self.demand.borrow().clone();
        for e in self.exits.borrow().iter() {
            if e.kind.is_empty() || !demand.contains(&(e.fid, "*".to_string())) && !demand.contains(&(e.fid, e.kind.clone())) {
                continue;
            }
            let mut why = "its children are not gone through to the end".to_string();
            let mut own = e.free;
            let mut args = !e.args;
            for f in &e.full {
                let r = self.complete(e, f, &e.kind, &mut vec![]);
                let over = match &f.over {
                    Over::OnIter(_, _, o) => (**o).clone(),
                    o => o.clone(),
                };
                match (over, r) {
                    (Over::Own | Over::On(..), Ok(())) => own = true,
                    (Over::Own, Err(m)) => why = m,
                    (Over::Below, Ok(())) => {
                        args = true;
                        own |= e.kind == "ItemCmd";
                    }
                    _ => {}
                }
                args |= matches!(f.over, Over::On(..));
            }
            if std::env::var("MXSA_WHY").is_ok() {
                eprintln!("exit {} own {own} args {args} full {:?}", e.key, e.full.iter().map(|f| (match &f.over { Over::Own => "own", Over::Below => "below", Over::Param(_) => "param", Over::On(..) => "on", Over::OnIter(..) => "oniter" }, f.site.clone(), f.lost.clone())).collect::<Vec<_>>());
            }
            d.ob("flow", format!("{}: every part is converted", e.key), e.loc.clone(), own, why, &e.st);
            if e.args {
                d.ob("flow", format!("{}: arguments of environments in math are converted", e.key), e.loc.clone(), args, "the arguments are left out".into(), &e.st);
            }
        }
    }
}
/// the text of a token, and how many characters were taken off its front
fn name_of(v: &V) -> Option<(V, u32)> {
    let mut v = v.clone();
    let mut n = 0;
    for _ in 0..12 {
        let V::Sym(t, 0) = &v else { return None };
        let nd = node(*t);
        let s = nd.op.trim_end_matches('!').rsplit("::").next().unwrap_or("").to_string();
        match s.as_str() {
            "text" if nd.op.contains("SyntaxToken") => return Some((nd.args[0].clone(), n)),
            "trim" | "to_string" | "to_owned" | "clone" | "deref" | "as_str" | "as_ref" | "into" | "from" | "borrow" | "trim_end" | "trim_start" | "as_deref" | "into_string" => {}
            "slice" => match (&nd.args.get(1), &nd.args.get(2)) {
                (Some(V::Int(k)), Some(V::Int(-1))) => n += *k as u32,
                _ => return None,
            },
            "trim_start_matches" => n += 1,
            "f" => match &nd.args[0] {
                V::Sym(t, 0) if op_of(*t).ends_with("strip_prefix") => {
                    n += 1;
                    v = nd.args[0].clone();
                    let V::Sym(t, 0) = &v else { return None };
                    v = node(*t).args[0].clone();
                    continue;
                }
                _ => return None,
            },
            _ => return None,
        }
        v = nd.args.first()?.clone();
    }
    None
}
/// the text of a token, if it is known
fn named(st: &State, tok: &V) -> Option<String> {
    st.facts.iter().find_map(|(t, f)| {
        let n = node(*t);
        let txt = |v: &V| name_of(v).is_some_and(|(x, k)| x == *tok && k == 0);
        if f.streq.is_some() && txt(&V::Sym(*t, 0)) {
            return f.streq.as_ref().map(|s| s.to_string());
        }
        if &*n.op == "streq" && f.get() == Some(1) && n.args.iter().any(txt) {
            return n.args.iter().find_map(|a| match a {
                V::Str(s) => Some(s.to_string()),
                _ => None,
            });
        }
        None
    })
}
/// something found in a map: the map and the key
fn looked_up(v: &V) -> Option<(V, V)> {
    let mut v = v.clone();
    for _ in 0..16 {
        let V::Sym(t, 0) = &v else { return None };
        let nd = node(*t);
        let s = nd.op.trim_end_matches('!').rsplit("::").next().unwrap_or("").to_string();
        match s.as_str() {
            "get" if nd.args.len() == 2 => return Some((nd.args[0].clone(), nd.args[1].clone())),
            "f" | "deref" | "as_deref" | "as_ref" | "as_str" | "clone" | "to_owned" | "to_string" | "borrow" | "unwrap" => v = nd.args.first()?.clone(),
            _ => return None,
        }
    }
    None
}
/// reached from a neighbour
fn aside(v: &V) -> bool {
    match v {
        V::Sym(t, _) => {
            let n = node(*t);
            let s = n.op.trim_end_matches(['!', '\'']).rsplit("::").next().unwrap_or("").to_string();
            s.contains("sibling") || s == "parent" || s == "ancestors" || matches!(&*s, "f" | "clone" | "unwrap" | "find.item") && n.args.first().is_some_and(aside)
        }
        V::Agg(_, f) => f.iter().any(aside),
        _ => false,
    }
}
fn is_unit(t: Ty) -> bool {
    matches!(rigid(t), Some(RigidTy::Tuple(x)) if x.is_empty())
}
fn has_op(v: &V, op: &str) -> bool {
    match v {
        V::Sym(t, _) => {
            let n = node(*t);
            n.op.trim_end_matches('!').rsplit("::").next() == Some(op) || n.args.iter().any(|a| has_op(a, op))
        }
        V::Agg(_, f) => f.iter().any(|a| has_op(a, op)),
        _ => false,
    }
}
fn is_spec(t: Ty) -> bool {
    adt_name(t).is_some_and(|n| n.ends_with("CommandSpec"))
}
/// without references and copies
fn plain(cx: &mut Interp, st: &State, v: &V, t: Ty) -> V {
    let v = cx.snap(st, v, Some(t), 0);
    plain_v(&v)
}
fn plain_v(v: &V) -> V {
    match v {
        V::Sym(t, 0) => {
            let n = node(*t);
            match n.op.rsplit("::").next().unwrap_or("").trim_end_matches('!') {
                "clone" | "deref" | "borrow" | "as_ref" if !n.args.is_empty() => plain_v(&n.args[0]),
                _ => v.clone(),
            }
        }
        V::Agg(k, f) => {
            let f: Vec<V> = f.iter().map(plain_v).collect();
            // the whole from its parts
            if let [V::Sym(t, 0)] = &f[..] {
                let n = node(*t);
                if &*n.op == "f" && n.args[1..] == [V::Int(*k as i128), V::Int(0)] {
                    return n.args[0].clone();
                }
            }
            agg(*k, f)
        }
        _ => v.clone(),
    }
}
/// the specification that is used where none is given
fn is_default(v: &V) -> bool {
    match v {
        V::Sym(t, _) => {
            let n = node(*t);
            &*n.op == "static" && matches!(n.args.first(), Some(V::Str(s)) if s.ends_with("DEFAULT_SPEC")) || n.args.iter().any(is_default)
        }
        V::Agg(_, f) => f.iter().any(is_default),
        V::Ref(p, _) => matches!(&p.obj, Obj::Static(_)) && show(v).contains("DEFAULT_SPEC"),
        _ => false,
    }
}
fn filters(v: &V, out: &mut BTreeSet<String>) {
    match v {
        V::Agg(_, f) => f.iter().for_each(|x| filters(x, out)),
        V::Sym(t, _) => {
            let n = node(*t);
            if n.op.trim_end_matches('!').ends_with("filter") {
                if let Some(V::Sym(f, 0)) = n.args.get(1) {
                    if let Some(V::Str(s)) = node(*f).args.first() {
                        out.insert(s.to_string());
                    }
                }
            }
            n.args.iter().for_each(|x| filters(x, out));
        }
        _ => {}
    }
}
fn adaptors(t: Ty, out: &mut BTreeSet<String>, depth: u32) {
    if depth > 12 {
        return;
    }
    if let Some(n) = adt_name(t) {
        out.insert(n.rsplit("::").next().unwrap_or("").to_string());
        for a in type_args(t) {
            adaptors(a, out, depth + 1);
        }
    }
}
/// something that was found below an element
fn below(v: &V) -> bool {
    let V::Sym(t, _) = v else {
        return matches!(v, V::Agg(_, x) if x.iter().any(below));
    };
    let n = node(*t);
    let s = n.op.trim_end_matches('!').rsplit("::").next().unwrap_or("");
    matches!(s, "children_with_tokens" | "children" | "first_child" | "first_child_or_token" | "next" | "first" | "last" | "begin" | "index" | "get" | "nth") || n.op.starts_with("find") || n.args.iter().any(below)
}

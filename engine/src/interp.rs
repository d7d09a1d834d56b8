//! The abstract interpreter: worklist over basic blocks, callees analysed at the call, widening at
//! loop heads. No paths are enumerated to a bound and no solver is consulted: every loop is closed
//! by widening, every recursive call by a contract that the hook verifies.
use crate::ir::*;
use crate::types::*;
use crate::val::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::{BinOp, CastKind, PointerCoercion, UnOp};
use rustc_public::ty::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

pub type Outs = Vec<(State, V)>;

#[derive(Clone)]
pub struct Site {
    pub fid: u32,
    pub bb: usize,
    pub span: Span,
}
impl Site {
    pub fn func(&self) -> String {
        body(self.fid).map(|b| b.name.clone()).unwrap_or_default()
    }
    pub fn loc(&self) -> String {
        let f = self.span.get_filename();
        format!("{}:{}", f.replace(&ws_prefix(), ""), self.span.get_lines().start_line)
    }
}
pub fn ws_prefix() -> String {
    std::env::var("MXSA_WS").map(|w| w + "/").unwrap_or_default()
}

pub struct Call<'a> {
    pub fid: u32,
    pub inst: Instance,
    pub name: &'a str,
    pub args: Vec<V>,
    pub tys: Vec<Ty>,
    pub ret: Ty,
    pub site: Site,
}

pub trait Hook {
    /// Some(outcomes) replaces the call
    fn call(&self, cx: &mut Interp, c: &Call, st: &State) -> Option<Outs>;
    /// a call to a function that is already being analysed
    fn recursive(&self, cx: &mut Interp, c: &Call, st: &State) -> Outs;
    /// after an inlined or modelled call
    fn after(&self, _cx: &mut Interp, _c: &Call, outs: Outs) -> Outs {
        outs
    }
    /// may the body be analysed at the call?
    fn inline(&self, name: &str, krate: &str) -> Option<bool>;
    fn panics(&self, _cx: &mut Interp, _st: &State, _site: &Site, _what: &str) {}
    /// text written to a formatter or a String; pieces are Str (literal) or anything else
    fn emit(&self, _cx: &mut Interp, _c: &Call, _st: &mut State, _sink: &V, _pieces: &[V]) {}
    fn opaque(&self, _cx: &mut Interp, _c: &Call, _st: &State) {}
    /// a function outside of the repository that does not return is called
    fn never(&self, _cx: &mut Interp, _c: &Call, _st: &State) -> bool {
        false
    }
    /// a loop head of one of the repository's own functions is reached
    fn at_head(&self, _cx: &mut Interp, _b: &BodyInfo, _head: usize, _depth: u32, _st: &mut State) {}
    /// cases that are kept apart from the head of the loop on
    fn split_head(&self, _cx: &mut Interp, _b: &BodyInfo, _head: usize, st: State) -> Vec<State> {
        vec![st]
    }
    /// a function of the repository returns
    fn leave(&self, _cx: &mut Interp, _b: &BodyInfo, _depth: u32, _st: &mut State) {}
}

pub struct Frame {
    pub fid: u32,
    /// where it was called
    pub site: Option<Site>,
    keep: Rc<Bits>,
    extra: Vec<V>,
}

pub struct Interp {
    pub hook: Rc<dyn Hook>,
    pub stack: Vec<Frame>,
    pub steps: u64,
    pub analysed: BTreeSet<u32>,
    pub opaque: BTreeMap<String, u32>,
    pub callsites: BTreeSet<(u32, usize)>,
    pub incomplete: BTreeSet<String>,
    pub max_head: usize,
    /// number of states kept apart where paths meet
    pub max_join: usize,
    pub debug_join: bool,
    pub from: Option<Site>,
    pub debug: bool,
    pub deadline: std::time::Instant,
}

impl Frame {
    pub fn keeping(extra: Vec<V>) -> Frame {
        Frame { fid: u32::MAX, site: None, keep: Rc::new(Bits::new(1)), extra }
    }
}
impl Interp {
    pub fn new(hook: Rc<dyn Hook>) -> Self {
        Interp {
            hook,
            stack: vec![],
            steps: 0,
            analysed: BTreeSet::new(),
            opaque: BTreeMap::new(),
            callsites: BTreeSet::new(),
            incomplete: BTreeSet::new(),
            max_head: 600,
            max_join: 300,
            debug_join: std::env::var("MXSA_JOIN").is_ok(),
            from: None,
            debug: std::env::var("MXSA_DEBUG").is_ok(),
            deadline: std::time::Instant::now() + std::time::Duration::from_secs(600),
        }
    }

    /// runs a function while other values stay alive
    pub fn run_keeping(&mut self, fid: u32, args: Vec<V>, st: State, keep: Vec<V>) -> Outs {
        self.stack.push(Frame { fid: u32::MAX, site: None, keep: Rc::new(Bits::new(1)), extra: keep });
        let r = self.run_fn(fid, args, st);
        self.stack.pop();
        r
    }
    /// the innermost place in the repository's own code
    pub fn our_site(&self, site: &Site) -> Site {
        let mut s = site.clone();
        for f in self.stack.iter().rev() {
            if body(s.fid).is_some_and(|b| is_ours(&b.krate)) {
                break;
            }
            match &f.site {
                Some(x) => s = x.clone(),
                None => break,
            }
        }
        s
    }

    /* ---------- memory ---------- */
    pub fn base(&self, st: &State, o: &Obj) -> V {
        if let Some(v) = st.mem.get(o) {
            return v.clone();
        }
        match o {
            Obj::Ptr(t) => {
                let n = node(*t);
                if &*n.op == "strlit" {
                    return n.args[0].clone();
                }
                if &*n.op == "refof" {
                    return n.args[0].clone();
                }
                sym("deref", vec![V::Sym(*t, 0)])
            }
            Obj::Static(s) => const_mem(o).unwrap_or_else(|| sym("static", vec![V::Str(s.clone())])),
            _ => V::Undef,
        }
    }
    pub fn proj(&self, v: &V, e: &PE) -> V {
        match (v, e) {
            (V::Agg(var, f), PE::F { var: v2, idx, .. }) => {
                if var == v2 {
                    f.get(*idx as usize).cloned().unwrap_or(V::Undef)
                } else {
                    V::Undef
                }
            }
            (V::Agg(_, f), PE::I(V::Int(i))) if (*i as usize) < f.len() => f[*i as usize].clone(),
            (V::Bytes(b), PE::I(V::Int(i))) if (*i as usize) < b.len() => V::Int(b[*i as usize] as i128),
            (V::Undef, _) => V::Undef,
            (v, PE::F { var, idx, .. }) => sym("f", vec![v.clone(), V::Int(*var as i128), V::Int(*idx as i128)]),
            (v, PE::I(i)) => sym("idx", vec![v.clone(), i.clone()]),
        }
    }
    pub fn read(&self, st: &State, p: &Pl) -> V {
        let mut v = self.base(st, &p.obj);
        for e in &p.path {
            v = self.proj(&v, e);
        }
        v
    }
    fn set(&self, base: V, path: &[PE], val: V) -> V {
        let Some(e) = path.first() else { return val };
        match e {
            PE::F { var, idx, n } => {
                let n = (*n).max(idx + 1);
                let mut f: Vec<V> = match &base {
                    V::Agg(v, f) if v == var => (**f).clone(),
                    V::Agg(..) | V::Undef => vec![V::Undef; n as usize],
                    o => (0..n).map(|i| self.proj(o, &PE::F { var: *var, idx: i, n })).collect(),
                };
                while f.len() < n as usize {
                    f.push(V::Undef);
                }
                let old = std::mem::replace(&mut f[*idx as usize], V::Undef);
                f[*idx as usize] = self.set(old, &path[1..], val);
                V::Agg(*var, Rc::new(f))
            }
            PE::I(i) => match (&base, i) {
                (V::Agg(v, f), V::Int(k)) if (*k as usize) < f.len() => {
                    let mut f = (**f).clone();
                    let old = f[*k as usize].clone();
                    f[*k as usize] = self.set(old, &path[1..], val);
                    V::Agg(*v, Rc::new(f))
                }
                _ => {
                    let el = self.proj(&base, e);
                    let nv = self.set(el, &path[1..], val);
                    sym("upd", vec![base, i.clone(), nv])
                }
            },
        }
    }
    pub fn write(&self, st: &mut State, p: &Pl, v: V) {
        if p.path.is_empty() {
            st.mem.insert(p.obj.clone(), v);
        } else {
            let b = self.base(st, &p.obj);
            let nb = self.set(b, &p.path, v);
            st.mem.insert(p.obj.clone(), nb);
        }
    }
    pub fn deref(&self, _st: &State, v: &V) -> Pl {
        match v {
            V::Ref(p, _) => (**p).clone(),
            V::Sym(t, _) => Pl { obj: Obj::Ptr(*t), path: vec![] },
            V::Str(_) | V::Bytes(_) => Pl { obj: Obj::Ptr(mk("strlit", vec![v.clone()])), path: vec![] },
            // a box or another owning pointer built from parts
            o => Pl { obj: Obj::Ptr(mk("refof", vec![o.clone()])), path: vec![] },
        }
    }
    pub fn mkref(&self, p: Pl, m: bool) -> V {
        if p.path.is_empty() {
            if let Obj::Ptr(t) = &p.obj {
                let n = node(*t);
                if &*n.op == "strlit" {
                    return n.args[0].clone();
                }
                return V::Sym(*t, 0);
            }
        }
        V::Ref(Rc::new(p), m)
    }
    pub fn place(&self, st: &State, p: &IPlace) -> Pl {
        let d = self.stack.len() as u32 - 1;
        let mut pl = Pl { obj: Obj::Local(d, p.local as u32), path: vec![] };
        for e in &p.proj {
            match e {
                IProj::Deref => {
                    let v = self.read(st, &pl);
                    pl = self.deref(st, &v);
                }
                IProj::F(pe) => pl.path.push(pe.clone()),
                IProj::Index(l) => {
                    let i = self.read(st, &Pl { obj: Obj::Local(d, *l as u32), path: vec![] });
                    pl.path.push(PE::I(i));
                }
                IProj::At(o, false) => pl.path.push(PE::I(V::Int(*o as i128))),
                IProj::At(o, true) => {
                    let b = self.read(st, &pl);
                    match &b {
                        V::Agg(_, f) => pl.path.push(PE::I(V::Int(f.len() as i128 - *o as i128))),
                        _ => pl.path.push(PE::I(sym("fromend", vec![V::Int(*o as i128)]))),
                    }
                }
                IProj::Sub(a, b, fe) => {
                    pl.path.push(PE::I(sym("subslice", vec![V::Int(*a as i128), V::Int(*b as i128), V::Bool(*fe)])));
                }
                IProj::Skip => {}
            }
        }
        pl
    }
    pub fn op(&self, st: &State, o: &IOp) -> V {
        match o {
            IOp::Const(v, _) => v.clone(),
            IOp::Place(p) => self.read(st, &self.place(st, p)),
        }
    }
    /// content of the value behind references
    pub fn snap(&self, st: &State, v: &V, ty: Option<Ty>, d: u32) -> V {
        if d > 10 {
            return v.clone();
        }
        if let Some(t) = ty {
            if let Some((inner, _)) = pointee(t) {
                if is_str(inner) {
                    return v.clone();
                }
                if let V::Sym(..) = v {
                    let c = self.read(st, &self.deref(st, v));
                    return self.snap(st, &c, Some(inner), d + 1);
                }
                if let V::Ref(p, _) = v {
                    let c = self.read(st, p);
                    return self.snap(st, &c, Some(inner), d + 1);
                }
            }
        }
        match v {
            V::Ref(p, _) => {
                let c = self.read(st, p);
                self.snap(st, &c, None, d + 1)
            }
            V::Sym(t, 0) if st.mem.contains_key(&Obj::Ptr(*t)) => {
                let c = self.read(st, &Pl { obj: Obj::Ptr(*t), path: vec![] });
                self.snap(st, &c, None, d + 1)
            }
            V::Agg(n, f) => V::Agg(*n, Rc::new(f.iter().map(|x| self.snap(st, x, None, d + 1)).collect())),
            o => o.clone(),
        }
    }
    /// the string content of a &str, &String, String, &&str ... value
    pub fn text(&self, st: &State, v: &V, ty: Ty) -> V {
        match pointee(ty) {
            Some((t, _)) if is_str(t) => v.clone(),
            Some((t, _)) => {
                let c = self.read(st, &self.deref(st, v));
                self.text(st, &c, t)
            }
            None => v.clone(),
        }
    }
    /// places that a callee may change through v
    pub fn mut_places(&self, st: &State, v: &V, ty: Option<Ty>, out: &mut Vec<Pl>, d: u32) {
        if d > 6 {
            return;
        }
        if let Some(t) = ty {
            if let Some((inner, m)) = pointee(t) {
                let p = self.deref(st, v);
                if m && !is_str(inner) {
                    let c = self.read(st, &p);
                    if !frozen(inner) {
                        out.push(p);
                    }
                    self.mut_places(st, &c, None, out, d + 1);
                }
                return;
            }
        }
        match v {
            V::Ref(p, true) => {
                if !out.contains(p) {
                    out.push((**p).clone());
                    let c = self.read(st, p);
                    self.mut_places(st, &c, None, out, d + 1);
                }
            }
            V::Agg(_, f) => f.iter().for_each(|x| self.mut_places(st, x, None, out, d + 1)),
            _ => {}
        }
    }

    /* ---------- garbage ---------- */
    pub fn gc(&self, st: &mut State, top: Option<(u32, &Bits)>, extra: &[&V]) {
        struct Mark<'a> {
            st: &'a State,
            objs: HashSet<Obj>,
            held: HashSet<Tm>,
            work: Vec<V>,
        }
        impl Mark<'_> {
            fn obj(&mut self, o: &Obj) {
                if self.objs.insert(o.clone()) {
                    if let Some(v) = self.st.mem.get(o) {
                        self.work.push(v.clone());
                    }
                }
            }
            fn val(&mut self, v: &V) {
                match v {
                    V::Sym(t, _) => {
                        if self.held.insert(*t) {
                            self.obj(&Obj::Ptr(*t));
                            // references kept inside a term stay dereferenceable
                            for a in &node(*t).args {
                                let mut os = vec![];
                                refs_only(a, &mut os);
                                for o in os {
                                    self.obj(&o);
                                }
                            }
                        }
                    }
                    V::Agg(_, f) => f.iter().for_each(|x| self.val(x)),
                    V::Ref(p, _) => {
                        if let Obj::Ptr(t) = &p.obj {
                            self.held.insert(*t);
                        }
                        self.obj(&p.obj);
                        for e in &p.path {
                            if let PE::I(v) = e {
                                self.val(v)
                            }
                        }
                    }
                    _ => {}
                }
            }
            fn run(&mut self) {
                while let Some(v) = self.work.pop() {
                    self.val(&v);
                }
            }
        }
        let mut m = Mark { st, objs: HashSet::new(), held: HashSet::new(), work: vec![] };
        for (o, _) in &st.mem {
            match o {
                Obj::Local(d, l) => {
                    let keep = match &top {
                        Some((td, bits)) if td == d => bits.has(*l as usize),
                        _ => match self.stack.get(*d as usize) {
                            Some(f) => f.keep.has(*l as usize),
                            None => false,
                        },
                    };
                    if keep {
                        m.obj(o);
                    }
                }
                Obj::Ghost(_) | Obj::Static(_) => m.obj(o),
                _ => {}
            }
        }
        for f in &self.stack {
            for v in &f.extra {
                m.val(v);
            }
        }
        for v in extra {
            m.val(v);
        }
        m.run();
        // contents of pointers that can still be computed
        loop {
            let mut memo = HashMap::new();
            let add: Vec<Obj> = st
                .mem
                .keys()
                .filter(|o| matches!(o, Obj::Ptr(t) if !m.objs.contains(*o) && constructible(*t, &m.held, &m.objs, &mut memo)))
                .cloned()
                .collect();
            if add.is_empty() {
                break;
            }
            for o in add {
                m.obj(&o);
            }
            m.run();
        }
        let mut memo = HashMap::new();
        let (held, objs) = (m.held, m.objs);
        st.facts.retain(|t, f| !f.trivial() && constructible(*t, &held, &objs, &mut memo));
        st.mem.retain(|o, _| objs.contains(o));
    }

    /* ---------- running ---------- */
    pub fn run_fn(&mut self, fid: u32, args: Vec<V>, mut st: State) -> Outs {
        let Some(b) = body(fid) else {
            self.incomplete.insert(format!("no body for {}", fn_of(fid).name()));
            return vec![];
        };
        self.analysed.insert(fid);
        let depth = self.stack.len() as u32;
        if depth > 90 {
            self.incomplete.insert(format!("call depth at {}", b.name));
            return vec![];
        }
        for (i, a) in args.into_iter().enumerate() {
            st.mem.insert(Obj::Local(depth, i as u32 + 1), a);
        }
        let from = self.from.take();
        self.stack.push(Frame { fid, site: from, keep: Rc::new(Bits::new(b.tys.len())), extra: vec![] });
        let mut work: BTreeMap<(u32, usize), Vec<State>> = BTreeMap::new();
        let mut seen: HashMap<usize, Vec<(State, Option<usize>)>> = HashMap::new();
        let mut outs: Outs = vec![];
        work.entry((b.rpo[0], 0)).or_default().push(st);
        while let Some(((_, bb), states)) = work.pop_first() {
            let states = if states.len() > 1 && !b.head[bb] { merge(states.into_iter().map(|s| (s, V::Undef)).collect()).into_iter().map(|x| x.0).collect() } else { states };
            for s in states {
                if std::time::Instant::now() > self.deadline {
                    self.incomplete.insert("time budget".into());
                    break;
                }
                let mut succ = vec![];
                self.block(&b, bb, s, &mut succ, &mut outs);
                let mut next = vec![];
                for (t, mut s) in succ {
                    if b.head[t] && is_ours(&b.krate) {
                        let h = self.hook.clone();
                        h.at_head(self, &b, t, depth, &mut s);
                        next.extend(h.split_head(self, &b, t, s).into_iter().map(|s| (t, s)));
                    } else {
                        next.push((t, s));
                    }
                }
                for (t, mut s) in next {
                    if b.head[t] || b.join[t] {
                        let lv = b.live_in[t].clone();
                        self.gc(&mut s, Some((depth, &lv)), &[]);
                        let back = b.rpo[t] <= b.rpo[bb];
                        match self.admit(&b, t, s, back, &mut seen) {
                            Some(s) => work.entry((b.rpo[t], t)).or_default().push(s),
                            None => {}
                        }
                    } else {
                        work.entry((b.rpo[t], t)).or_default().push(s);
                    }
                }
            }
        }
        // results: drop this frame
        let mut res: Outs = vec![];
        self.stack.pop();
        for (mut s, v) in outs {
            s.mem.retain(|o, _| !matches!(o, Obj::Local(d, _) if *d >= depth));
            s.anc.retain(|(d, _), _| *d < depth);
            if is_ours(&b.krate) {
                let h = self.hook.clone();
                h.leave(self, &b, depth, &mut s);
            }
            self.gc(&mut s, None, &[&v]);
            if !res.iter().any(|(r, w)| *w == v && r.mem == s.mem && implied(&s, r)) {
                res.push((s, v));
            }
        }
        let res = if res.len() > 1 { merge(res) } else { res };
        if self.debug {
            eprintln!("{}{} -> {} outcomes", " ".repeat(depth as usize), b.name, res.len());
        }
        res
    }

    fn admit(&mut self, b: &BodyInfo, t: usize, mut s: State, back: bool, seen: &mut HashMap<usize, Vec<(State, Option<usize>)>>) -> Option<State> {
        let depth = self.stack.len() as u32 - 1;
        let list = seen.entry(t).or_default();
        if !b.head[t] {
            for (e, _) in list.iter() {
                if e.mem == s.mem && implied(&s, e) {
                    return None;
                }
            }
            // keep the number of states at a join bounded: merge facts of states with equal memory
            if list.len() > self.max_join {
                let apart = |e: &State| {
                    let n = e.facts.iter().filter(|(t, f)| s.facts.get(t) != Some(f)).count();
                    n + s.facts.keys().filter(|t| !e.facts.contains_key(t)).count()
                };
                if let Some((e, _)) = list.iter_mut().filter(|(e, _)| e.mem == s.mem).min_by_key(|(e, _)| apart(e)) {
                    if self.debug_join {
                        eprintln!("joined in {} at {t}", b.name);
                    }
                    join_facts(e, &s);
                    return Some(e.clone());
                }
            }
            list.push((s.clone(), None));
            if list.len() == 800 && std::env::var("MXSA_JOIN").is_ok() {
                eprintln!("JOIN {} {t} depth {depth}", b.name);
                let mut mems: BTreeMap<String, BTreeMap<String, usize>> = BTreeMap::new();
                for (e, _) in list.iter() {
                    for (o, v) in &e.mem {
                        *mems.entry(show_obj(o)).or_default().entry(show(v).chars().take(300).collect()).or_default() += 1;
                    }
                    for (t, f) in &e.facts {
                        *mems.entry(show_t(*t)).or_default().entry(format!("{f:?}")).or_default() += 1;
                    }
                }
                for (k, v) in mems {
                    if v.values().any(|n| *n != 800) {
                        eprintln!("  {k}");
                        for (x, n) in v.iter().take(12) {
                            eprintln!("      {n} {x}");
                        }
                    }
                }
            }
            return Some(s);
        }
        let key = (depth, t as u32);
        let parent = if back { s.anc.get(&key).copied() } else { None };
        for (e, _) in list.iter() {
            if leq(&s, e) {
                return None;
            }
        }
        if back {
            let mut p = parent;
            while let Some(i) = p {
                let (e, pp) = &list[i];
                let tag = format!("{}:{}:{}", b.name, t, depth);
                if let Some(w) = antiunify(e, &s, &tag, list.len() > self.max_head) {
                    if self.debug {
                        diff(e, &s, &w);
                    }
                    s = w;
                    break;
                }
                p = *pp;
            }
            for (e, _) in list.iter() {
                if leq(&s, e) {
                    return None;
                }
            }
        }
        if list.len() > 3 * self.max_head {
            self.incomplete.insert(format!("loop in {} does not stabilise", b.name));
            return None;
        }
        s.anc.insert(key, list.len());
        list.push((s.clone(), parent));
        if let Some(n) = std::env::var("MXSA_HEAD").ok().and_then(|x| x.parse::<usize>().ok()) {
            if list.len() == n {
                eprintln!("HEAD {} {} depth {}", b.name, t, depth);
                for (i, (e, p)) in list.iter().enumerate() {
                    eprintln!("== {i} from {p:?}");
                    for (o, v) in &e.mem {
                        eprintln!("   {}: {}", show_obj(o), show(v));
                    }
                    for (t, f) in &e.facts {
                        eprintln!("   fact {}: {:?}", show(&V::Sym(*t, 0)), f);
                    }
                }
                std::process::exit(3);
            }
        }
        Some(s)
    }

    fn block(&mut self, b: &Rc<BodyInfo>, bb: usize, mut st: State, succ: &mut Vec<(usize, State)>, outs: &mut Outs) {
        let blk = &b.blocks[bb];
        let depth = self.stack.len() as u32 - 1;
        for (s, _sp) in &blk.st {
            self.steps += 1;
            match s {
                ISt::Assign(p, r) => {
                    let v = self.rvalue(&st, r, p.ty);
                    let pl = self.place(&st, p);
                    self.write(&mut st, &pl, v);
                }
                ISt::SetDiscr(p, v) => {
                    let pl = self.place(&st, p);
                    let n = nfields(p.ty, *v);
                    let old = self.read(&st, &pl);
                    let nv = match &old {
                        V::Agg(x, _) if x == v => old.clone(),
                        _ => agg(*v, vec![V::Undef; n as usize]),
                    };
                    self.write(&mut st, &pl, nv);
                }
                ISt::Dead(l) => {
                    st.mem.remove(&Obj::Local(depth, *l as u32));
                }
            }
        }
        self.steps += 1;
        let site = Site { fid: b.fid, bb, span: blk.span };
        match &blk.term {
            ITm::Goto(t) => succ.push((*t, st)),
            ITm::Return => {
                let v = st.mem.get(&Obj::Local(depth, 0)).cloned().unwrap_or_else(unit);
                outs.push((st, v));
            }
            ITm::Unreachable => {}
            ITm::Drop(p, t) => {
                let r = self.drop(&site, p, st);
                succ.extend(r.into_iter().map(|s| (*t, s)));
            }
            ITm::Switch(o, br, other) => {
                let v = self.op(&st, o);
                for (t, s) in self.switch(st, &v, br, *other) {
                    let mut s = s;
                    s.branch(b.fid, bb as u32, t as u32);
                    succ.push((t, s));
                }
            }
            ITm::Assert { cond, expected, kind, target } => {
                let v = self.op(&st, cond);
                if let Some(bad) = self.assume(st.clone(), &v, !*expected) {
                    if let Some(what) = self.assert_may_fail(&bad, kind) {
                        let h = self.hook.clone();
                        h.panics(self, &bad, &site, &what);
                    }
                }
                if let Some(s) = self.assume(st, &v, *expected) {
                    succ.push((*target, s));
                }
            }
            ITm::Call { func, callee, args, dest, target } => {
                let fid = match callee {
                    Some(f) => Some(*f),
                    None => match self.op(&st, func) {
                        V::Fn(i) => Some(i),
                        _ => None,
                    },
                };
                let av: Vec<V> = args.iter().map(|a| self.op(&st, a)).collect();
                let at: Vec<Ty> = args.iter().map(|a| a.ty()).collect();
                self.callsites.insert((b.fid, bb));
                // what stays alive in this frame while the callee runs
                if let Some(t) = target {
                    let mut keep = (*b.live_in[*t]).clone();
                    if dest.proj.is_empty() {
                        keep.clear(dest.local);
                    } else {
                        keep.set(dest.local);
                    }
                    for e in &dest.proj {
                        if let IProj::Index(l) = e {
                            keep.set(*l);
                        }
                    }
                    self.stack.last_mut().unwrap().keep = Rc::new(keep);
                } else {
                    self.stack.last_mut().unwrap().keep = Rc::new(Bits::new(b.tys.len()));
                }
                let dpl = self.place(&st, dest);
                let outcomes = match fid {
                    Some(f) => self.call(f, av, at, dest.ty, site.clone(), st, target.is_none()),
                    None => {
                        let f = self.op(&st, func);
                        self.call_unknown(&f, av, at, dest.ty, site.clone(), st)
                    }
                };
                if let Some(t) = target {
                    for (mut s, v) in outcomes {
                        self.write(&mut s, &dpl, v);
                        succ.push((*t, s));
                    }
                }
            }
        }
    }

    fn assert_may_fail(&self, st: &State, k: &AKind) -> Option<String> {
        match k {
            AKind::Overflow(op, a, _) => {
                let t = a.ty();
                match (op, int_bits(t)) {
                    // counters of machine size are bounded by the input length
                    (BinOp::Add | BinOp::Mul, Some((b, _))) if b >= 32 => None,
                    (BinOp::Sub, Some((b, true))) if b >= 32 => None,
                    _ => Some(format!("arithmetic overflow ({op:?})")),
                }
            }
            AKind::Bounds(l, i) => {
                let (l, i) = (self.op(st, l), self.op(st, i));
                Some(format!("index {} out of bounds of length {}", show(&i), show(&l)))
            }
            AKind::Other(s) => Some(s.clone()),
        }
    }

    fn drop(&mut self, site: &Site, p: &IPlace, st: State) -> Vec<State> {
        // only destructors written in this repository have observable effects
        if let Some(RigidTy::Adt(..)) = rigid(p.ty) {
            let inst = Instance::resolve_drop_in_place(p.ty);
            if let Some(d) = local_drop(p.ty) {
                let pl = self.place(&st, p);
                let r = self.mkref(pl, true);
                let ty = Ty::new_ref(Region { kind: RegionKind::ReErased }, p.ty, rustc_public::mir::Mutability::Mut);
                let res = self.call(d, vec![r], vec![ty], Ty::new_tuple(&[]), site.clone(), st, false);
                return res.into_iter().map(|x| x.0).collect();
            }
            let _ = inst;
        }
        let mut st = st;
        crate::models::release_cell(p.ty, &mut st);
        vec![st]
    }

    pub fn switch(&mut self, st: State, v: &V, br: &[(i128, usize)], other: usize) -> Vec<(usize, State)> {
        match v {
            V::Int(i) => {
                let t = br.iter().find(|x| x.0 == *i).map_or(other, |x| x.1);
                vec![(t, st)]
            }
            V::Bool(i) => {
                let t = br.iter().find(|x| x.0 == *i as i128).map_or(other, |x| x.1);
                vec![(t, st)]
            }
            V::Sym(t, k) => {
                let mut out = vec![];
                // boolean terms
                if br.len() == 1 && is_bool_term(*t) {
                    let zero = br[0].0 == 0;
                    if let Some(s) = self.assume(st.clone(), v, !zero) {
                        out.push((br[0].1, s));
                    }
                    if let Some(s) = self.assume(st, v, zero) {
                        out.push((other, s));
                    }
                    return out;
                }
                // group by target to keep equal targets apart only through facts
                for (x, b) in br {
                    let x = x - k;
                    if st.may(*t, x) {
                        let mut s = st.clone();
                        s.assume_eq(*t, x);
                        out.push((*b, s));
                    }
                }
                let vs: Vec<i128> = br.iter().map(|x| x.0 - k).collect();
                if st.may_other(*t, &vs) {
                    let mut s = st;
                    for x in &vs {
                        s.assume_ne(*t, *x);
                    }
                    if !s.infeasible(*t) {
                        out.push((other, s));
                    }
                }
                out
            }
            _ => {
                let mut ts: BTreeSet<usize> = br.iter().map(|x| x.1).collect();
                ts.insert(other);
                ts.into_iter().map(|t| (t, st.clone())).collect()
            }
        }
    }

    /* ---------- conditions ---------- */
    pub fn range(&self, st: &State, v: &V) -> (Option<i128>, Option<i128>) {
        match v {
            V::Int(i) => (Some(*i), Some(*i)),
            V::Sym(t, k) => {
                let mut r = match st.fact(*t) {
                    Some(f) => (f.lo, f.hi),
                    None => (None, None),
                };
                if r.0.is_none() && is_unsigned_term(*t) {
                    r.0 = Some(0);
                }
                (r.0.map(|x| x + k), r.1.map(|x| x + k))
            }
            _ => (None, None),
        }
    }
    pub fn decide(&self, st: &State, v: &V) -> Option<bool> {
        match v {
            V::Bool(b) => Some(*b),
            V::Int(i) => Some(*i != 0),
            V::Sym(t, 0) => {
                if let Some(f) = st.fact(*t).and_then(|f| f.get()) {
                    return Some(f != 0);
                }
                let n = node(*t);
                match &*n.op {
                    "not" => self.decide(st, &n.args[0]).map(|b| !b),
                    "eq" => self.decide_eq(st, &n.args[0], &n.args[1]),
                    "lt" => self.decide_lt(st, &n.args[0], &n.args[1]),
                    "streq" => self.decide_streq(st, &n.args[0], &n.args[1]),
                    "starts_with" | "ends_with" | "contains" => {
                        let (V::Sym(x, 0), V::Str(y)) = (&n.args[0], &n.args[1]) else { return None };
                        let s = st.fact(*x)?.streq.clone()?;
                        Some(text_test(&n.op, &s, y))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }
    fn decide_eq(&self, st: &State, a: &V, b: &V) -> Option<bool> {
        if a == b && !matches!(a, V::Undef) {
            return Some(true);
        }
        match (a, b) {
            (V::Int(x), V::Int(y)) => Some(x == y),
            (V::Bool(x), V::Bool(y)) => Some(x == y),
            (V::Sym(t, k), V::Sym(u, l)) if t == u => Some(k == l),
            (V::Sym(t, k), V::Int(y)) | (V::Int(y), V::Sym(t, k)) => {
                if !st.may(*t, y - k) {
                    return Some(false);
                }
                (st.exact(*t) == Some(y - k)).then_some(true)
            }
            (V::Sym(..), V::Sym(..)) => {
                let ((al, ah), (bl, bh)) = (self.range(st, a), self.range(st, b));
                if matches!((ah, bl), (Some(h), Some(l)) if h < l) || matches!((bh, al), (Some(h), Some(l)) if h < l) {
                    return Some(false);
                }
                if let (Some(x), Some(y)) = (al, bl) {
                    if al == ah && bl == bh {
                        return Some(x == y);
                    }
                }
                if self.decide_lt1(st, a, b) == Some(true) || self.decide_lt1(st, b, a) == Some(true) {
                    return Some(false);
                }
                None
            }
            (V::Str(x), V::Str(y)) => Some(x == y),
            _ => None,
        }
    }
    fn decide_lt(&self, st: &State, a: &V, b: &V) -> Option<bool> {
        if let (V::Sym(t, k), V::Sym(u, l)) = (a, b) {
            if t == u {
                return Some(k < l);
            }
        }
        if a == b {
            return Some(false);
        }
        let ((al, ah), (bl, bh)) = (self.range(st, a), self.range(st, b));
        if matches!((ah, bl), (Some(h), Some(l)) if h < l) {
            return Some(true);
        }
        if matches!((al, bh), (Some(l), Some(h)) if l >= h) {
            return Some(false);
        }
        self.decide_lt1(st, a, b)
    }
    // known comparisons between the same two terms, possibly with other offsets
    fn decide_lt1(&self, st: &State, a: &V, b: &V) -> Option<bool> {
        if let (V::Sym(t, k), V::Sym(u, l)) = (a, b) {
            // facts are kept on lt terms; look for lt(t+i, u+j)
            for (f, fact) in st.facts.iter() {
                let Some(val) = fact.get() else { continue };
                let n = node(*f);
                if &*n.op == "lt" {
                    if let (V::Sym(t2, i), V::Sym(u2, j)) = (&n.args[0], &n.args[1]) {
                        if t2 == t && u2 == u {
                            // known: t+i < u+j (or >=). t - u < j - i  (or >= j-i). Want t - u < l - k
                            if val == 1 && j - i <= l - k {
                                return Some(true);
                            }
                            if val == 0 && j - i >= l - k {
                                return Some(false);
                            }
                        }
                        if t2 == u && u2 == t {
                            // u+i < t+j: t-u > i-j, so t-u >= i-j+1; not (t-u < l-k) if i-j+1 >= l-k
                            if val == 1 && i - j + 1 >= l - k {
                                return Some(false);
                            }
                            // u+i >= t+j: t-u <= i-j; t-u < l-k if i-j < l-k
                            if val == 0 && i - j < l - k {
                                return Some(true);
                            }
                        }
                    }
                }
                if &*n.op == "eq" && val == 1 {
                    if let (V::Sym(t2, i), V::Sym(u2, j)) = (&n.args[0], &n.args[1]) {
                        if t2 == t && u2 == u {
                            return Some(j - i < l - k);
                        }
                        if t2 == u && u2 == t {
                            return Some(i - j < l - k);
                        }
                    }
                }
            }
        }
        None
    }
    fn decide_streq(&self, st: &State, a: &V, b: &V) -> Option<bool> {
        if a == b {
            return Some(true);
        }
        match (a, b) {
            (V::Str(x), V::Str(y)) => Some(x == y),
            (V::Sym(t, 0), V::Str(y)) | (V::Str(y), V::Sym(t, 0)) => {
                let f = st.fact(*t)?;
                if let Some(s) = &f.streq {
                    return Some(s == y);
                }
                if f.strne.contains(y) {
                    return Some(false);
                }
                None
            }
            _ => None,
        }
    }
    pub fn assume(&self, mut st: State, v: &V, truth: bool) -> Option<State> {
        if let Some(b) = self.decide(&st, v) {
            return (b == truth).then_some(st);
        }
        let V::Sym(t, 0) = v else { return Some(st) };
        let n = node(*t);
        match &*n.op {
            "not" => return self.assume(st, &n.args[0], !truth),
            "eq" => {
                let (a, b) = (&n.args[0], &n.args[1]);
                match (a, b) {
                    (V::Sym(x, k), V::Int(c)) | (V::Int(c), V::Sym(x, k)) => {
                        if truth {
                            st.assume_eq(*x, c - k)
                        } else {
                            st.assume_ne(*x, c - k)
                        }
                        return (!st.infeasible(*x)).then_some(st);
                    }
                    (V::Sym(x, 0), V::Bool(c)) | (V::Bool(c), V::Sym(x, 0)) => {
                        return self.assume(st, &V::Sym(*x, 0), *c == truth);
                    }
                    _ => {}
                }
                st.assume_eq(*t, truth as i128);
            }
            "lt" => {
                let (a, b) = (&n.args[0], &n.args[1]);
                let (ra, rb) = (self.range(&st, a), self.range(&st, b));
                if truth {
                    if let (V::Sym(x, k), Some(h)) = (a, rb.1) {
                        st.assume_le(*x, h - 1 - k);
                        if st.infeasible(*x) {
                            return None;
                        }
                    }
                    if let (V::Sym(x, k), Some(l)) = (b, ra.0) {
                        st.assume_ge(*x, l + 1 - k);
                        if st.infeasible(*x) {
                            return None;
                        }
                    }
                } else {
                    // a >= b
                    if let (V::Sym(x, k), Some(l)) = (a, rb.0) {
                        st.assume_ge(*x, l - k);
                        if st.infeasible(*x) {
                            return None;
                        }
                    }
                    if let (V::Sym(x, k), Some(h)) = (b, ra.1) {
                        st.assume_le(*x, h - k);
                        if st.infeasible(*x) {
                            return None;
                        }
                    }
                }
                if matches!((a, b), (V::Sym(..), V::Sym(..))) {
                    st.assume_eq(*t, truth as i128);
                }
            }
            "streq" => {
                let (a, b) = (&n.args[0], &n.args[1]);
                match (a, b) {
                    (V::Sym(x, 0), V::Str(s)) | (V::Str(s), V::Sym(x, 0)) => {
                        if truth {
                            let clash = st.facts.iter().any(|(t, f)| {
                                let Some(g) = f.get() else { return false };
                                let n = node(*t);
                                matches!(&*n.op, "starts_with" | "ends_with" | "contains")
                                    && n.args[0] == V::Sym(*x, 0)
                                    && matches!(&n.args[1], V::Str(y) if text_test(&n.op, s, y) != (g != 0))
                            });
                            if clash {
                                return None;
                            }
                        }
                        let f = st.facts.entry(*x).or_default();
                        if truth {
                            f.streq = Some(s.clone());
                            f.strne.clear();
                        } else {
                            f.strne.insert(s.clone());
                        }
                    }
                    _ => st.assume_eq(*t, truth as i128),
                }
            }
            "and" => {
                if truth {
                    st = self.assume(st, &n.args[0], true)?;
                    st = self.assume(st, &n.args[1], true)?;
                }
                st.assume_eq(*t, truth as i128);
            }
            "or" => {
                if !truth {
                    st = self.assume(st, &n.args[0], false)?;
                    st = self.assume(st, &n.args[1], false)?;
                }
                st.assume_eq(*t, truth as i128);
            }
            _ => {
                if !st.may(*t, truth as i128) {
                    return None;
                }
                st.assume_eq(*t, truth as i128)
            }
        }
        Some(st)
    }
    pub fn fork(&self, st: &State, v: &V) -> (Option<State>, Option<State>) {
        (self.assume(st.clone(), v, true), self.assume(st.clone(), v, false))
    }

    /* ---------- rvalues ---------- */
    pub fn discr(&self, v: &V, ty: Ty) -> V {
        match v {
            V::Agg(n, _) => V::Int(discr_of(ty, *n)),
            V::Sym(..) => {
                let t = mk("discr", vec![v.clone(), vstr(&short_ty(ty))]);
                if let (None, Some(d)) = (domain(t), domain_of(ty)) {
                    set_domain(t, d);
                }
                V::Sym(t, 0)
            }
            _ => V::Undef,
        }
    }
    /// outcomes of matching an enum value: (variant index, refined state)
    pub fn cases(&self, st: &State, v: &V, ty: Ty) -> Vec<(u32, State)> {
        match v {
            V::Agg(n, _) => vec![(*n, st.clone())],
            _ => {
                let d = self.discr(v, ty);
                let V::Sym(t, _) = d else { return vec![(0, st.clone())] };
                let Some(inf) = info(ty) else { return vec![] };
                inf.discrs
                    .iter()
                    .enumerate()
                    .filter(|(_, x)| st.may(t, **x))
                    .map(|(i, x)| {
                        let mut s = st.clone();
                        s.assume_eq(t, *x);
                        (i as u32, s)
                    })
                    .collect()
            }
        }
    }
    pub fn field(&self, v: &V, var: u32, idx: u32, ty: Ty) -> V {
        self.proj(v, &PE::F { var, idx, n: nfields(ty, var) })
    }
    fn rvalue(&mut self, st: &State, r: &IRv, ty: Ty) -> V {
        match r {
            IRv::Use(o) => self.op(st, o),
            IRv::Ref(p, m) => {
                let pl = self.place(st, p);
                self.mkref(pl, *m)
            }
            IRv::Len(p) => {
                let v = self.read(st, &self.place(st, p));
                len_of(&v)
            }
            IRv::Discr(p) => {
                let v = self.read(st, &self.place(st, p));
                self.discr(&v, p.ty)
            }
            IRv::Agg(n, ops) => agg(*n, ops.iter().map(|o| self.op(st, o)).collect()),
            IRv::RawPtr(o) | IRv::Union(o) => self.op(st, o),
            IRv::Repeat(o, n) => {
                let v = self.op(st, o);
                if *n <= 16 {
                    agg(0, vec![v; *n as usize])
                } else {
                    sym("repeat", vec![v])
                }
            }
            IRv::Other(s) => sym("other", vec![vstr(s)]),
            IRv::Un(u, o) => {
                let v = self.op(st, o);
                match (u, &v) {
                    (UnOp::Not, V::Bool(b)) => V::Bool(!b),
                    (UnOp::Not, _) if is_bool(o.ty()) => not(v),
                    (UnOp::Neg, V::Int(i)) => V::Int(-i),
                    (UnOp::PtrMetadata, v) => {
                        let c = self.read(st, &self.deref(st, v));
                        len_of(&c)
                    }
                    (u, v) => sym(&format!("{u:?}"), vec![v.clone()]),
                }
            }
            IRv::Bin(op, a, b, checked) => {
                let (x, y) = (self.op(st, a), self.op(st, b));
                let t = a.ty();
                if *checked {
                    let r = self.bin(st, *op, &x, &y, t);
                    let o = self.overflow(st, *op, &x, &y, &r, t);
                    return tuple(vec![r, o]);
                }
                self.bin(st, *op, &x, &y, t)
            }
            IRv::Cast(k, o, to) => {
                let v = self.op(st, o);
                let from = o.ty();
                match k {
                    CastKind::IntToInt => match (&v, int_bits(*to)) {
                        (V::Int(i), Some((b, s))) => V::Int(wrap(*i, b, s)),
                        (V::Bool(b), _) => V::Int(*b as i128),
                        (V::Sym(t, kk), Some((b, _))) => match int_bits(from) {
                            Some((fb, _)) if fb <= b => {
                                if let Some(d) = domain(*t) {
                                    let _ = d;
                                }
                                V::Sym(*t, *kk)
                            }
                            _ => sym("trunc", vec![v.clone(), V::Int(b as i128)]),
                        },
                        _ => v,
                    },
                    CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)) => match rigid(from) {
                        Some(RigidTy::FnDef(d, a)) => match Instance::resolve_for_fn_ptr(d, &a) {
                            Ok(i) => V::Fn(intern_fn(i)),
                            Err(_) => sym("fnptr", vec![vstr(&short_ty(from))]),
                        },
                        _ => v,
                    },
                    CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)) => match rigid(from) {
                        Some(RigidTy::Closure(d, a)) => match Instance::resolve_closure(d, &a, ClosureKind::FnOnce) {
                            Ok(i) => V::Fn(intern_fn(i)),
                            Err(_) => sym("fnptr", vec![vstr(&short_ty(from))]),
                        },
                        _ => v,
                    },
                    CastKind::PointerCoercion(_) | CastKind::PtrToPtr | CastKind::FnPtrToPtr | CastKind::Subtype => v,
                    CastKind::Transmute => {
                        // discriminant from integer and back keep their meaning through info()
                        match (&v, info(*to)) {
                            (V::Int(i), Some(inf)) if inf.is_enum && inf.nfields.iter().all(|n| *n == 0) => match inf.discrs.iter().position(|d| d == i) {
                                Some(p) => agg(p as u32, vec![]),
                                None => V::Undef,
                            },
                            (V::Agg(n, f), _) if int_bits(*to).is_some() && f.is_empty() => V::Int(discr_of(from, *n)),
                            (V::Sym(t, 0), Some(inf)) if inf.is_enum && int_bits(from).is_some() => {
                                // the enum value whose discriminant is the integer
                                let n = node(*t);
                                if &*n.op == "discr" {
                                    return n.args[0].clone();
                                }
                                sym("transmute", vec![v.clone(), vstr(&short_ty(*to))])
                            }
                            (V::Sym(..), _) if info(from).is_some_and(|i| i.is_enum) && int_bits(*to).is_some() => self.discr(&v, from),
                            (V::Ref(..), _) | (V::Sym(..), _) if pointee(from).is_some() && pointee(*to).is_some() => v,
                            _ => sym("transmute", vec![v.clone(), vstr(&short_ty(*to))]),
                        }
                    }
                    _ => sym("cast", vec![v.clone(), vstr(&short_ty(ty))]),
                }
            }
        }
    }
    pub fn overflow(&self, st: &State, op: BinOp, x: &V, y: &V, r: &V, ty: Ty) -> V {
        let Some((bits, signed)) = int_bits(ty) else { return V::Bool(false) };
        let (lo, hi) = if signed { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) } else { (0, if bits >= 127 { i128::MAX } else { (1i128 << bits) - 1 }) };
        if let V::Int(i) = r {
            return V::Bool(*i < lo || *i > hi);
        }
        let ux = self.urange(st, x, signed);
        let uy = self.urange(st, y, signed);
        match op {
            BinOp::Sub if !signed => {
                // x < y
                self.lt(st, x, y)
            }
            BinOp::Add | BinOp::AddUnchecked => {
                if let ((Some(_), Some(a)), (Some(_), Some(b))) = (ux, uy) {
                    if a.saturating_add(b) <= hi {
                        return V::Bool(false);
                    }
                }
                if bits >= 32 {
                    return V::Bool(false);
                }
                // x is less than something of the same type
                if *y == V::Int(1) {
                    if let V::Sym(t, 0) = x {
                        let known = st.facts.iter().any(|(f, k)| {
                            let n = node(*f);
                            &*n.op == "lt" && n.args[0] == V::Sym(*t, 0) && matches!(n.args[1], V::Sym(_, 0)) && k.lo == Some(1)
                        });
                        if known {
                            return V::Bool(false);
                        }
                    }
                }
                sym("overflow", vec![x.clone(), y.clone(), V::Int(bits as i128)])
            }
            _ if bits >= 32 => V::Bool(false),
            _ => sym("overflow", vec![x.clone(), y.clone(), V::Int(bits as i128)]),
        }
    }
    fn urange(&self, st: &State, v: &V, signed: bool) -> (Option<i128>, Option<i128>) {
        let (l, h) = self.range(st, v);
        (if !signed && l.is_none() { Some(0) } else { l }, h)
    }
    pub fn lt(&self, st: &State, a: &V, b: &V) -> V {
        // normal form: constants folded into one side
        let v = match (a, b) {
            (V::Sym(t, k), V::Int(c)) => sym("lt", vec![V::Sym(*t, 0), V::Int(c - k)]),
            (V::Int(c), V::Sym(t, k)) => sym("lt", vec![V::Int(c - k), V::Sym(*t, 0)]),
            (V::Sym(t, k), V::Sym(u, l)) => sym("lt", vec![V::Sym(*t, 0), V::Sym(*u, l - k)]),
            _ => sym("lt", vec![a.clone(), b.clone()]),
        };
        match self.decide_lt(st, a, b).or_else(|| self.decide(st, &v)) {
            Some(b) => V::Bool(b),
            None => v,
        }
    }
    pub fn eq(&self, st: &State, a: &V, b: &V) -> V {
        if let Some(x) = self.decide_eq(st, a, b) {
            return V::Bool(x);
        }
        let v = match (a, b) {
            (V::Sym(t, k), V::Int(c)) | (V::Int(c), V::Sym(t, k)) => sym("eq", vec![V::Sym(*t, 0), V::Int(c - k)]),
            (V::Sym(_, 0), V::Bool(true)) => return a.clone(),
            (V::Sym(_, 0), V::Bool(false)) => return not(a.clone()),
            (V::Bool(true), V::Sym(_, 0)) => return b.clone(),
            (V::Bool(false), V::Sym(_, 0)) => return not(b.clone()),
            (V::Sym(t, k), V::Sym(u, l)) => {
                if t <= u {
                    sym("eq", vec![V::Sym(*t, 0), V::Sym(*u, l - k)])
                } else {
                    sym("eq", vec![V::Sym(*u, 0), V::Sym(*t, k - l)])
                }
            }
            _ => sym("eq", vec![a.clone(), b.clone()]),
        };
        match self.decide(st, &v) {
            Some(x) => V::Bool(x),
            None => v,
        }
    }
    pub fn streq(&self, st: &State, a: &V, b: &V) -> V {
        if let Some(x) = self.decide_streq(st, a, b) {
            return V::Bool(x);
        }
        let v = match (a, b) {
            (V::Str(_), _) => sym("streq", vec![b.clone(), a.clone()]),
            (V::Sym(t, _), V::Sym(u, _)) if t > u => sym("streq", vec![b.clone(), a.clone()]),
            _ => sym("streq", vec![a.clone(), b.clone()]),
        };
        match self.decide(st, &v) {
            Some(x) => V::Bool(x),
            None => v,
        }
    }
    pub fn bin(&self, st: &State, op: BinOp, x: &V, y: &V, ty: Ty) -> V {
        use BinOp::*;
        let signed = int_bits(ty).is_some_and(|b| b.1);
        match op {
            Eq => return self.eq(st, x, y),
            Ne => return not(self.eq(st, x, y)),
            Lt => return self.cmp_lt(st, x, y, signed),
            Gt => return self.cmp_lt(st, y, x, signed),
            Le => return not(self.cmp_lt(st, y, x, signed)),
            Ge => return not(self.cmp_lt(st, x, y, signed)),
            _ => {}
        }
        if let (V::Int(a), V::Int(b)) = (x, y) {
            let r = match op {
                Add | AddUnchecked => a.checked_add(*b),
                Sub | SubUnchecked => a.checked_sub(*b),
                Mul | MulUnchecked => a.checked_mul(*b),
                Div if *b != 0 => Some(a / b),
                Rem if *b != 0 => Some(a % b),
                BitAnd => Some(a & b),
                BitOr => Some(a | b),
                BitXor => Some(a ^ b),
                Shl | ShlUnchecked if *b < 100 => a.checked_shl(*b as u32),
                Shr | ShrUnchecked if *b < 127 => Some(a >> b),
                _ => None,
            };
            if let Some(r) = r {
                return V::Int(r);
            }
        }
        if is_bool(ty) {
            match (op, x, y) {
                (BitAnd, V::Bool(a), o) | (BitAnd, o, V::Bool(a)) => return if *a { o.clone() } else { V::Bool(false) },
                (BitOr, V::Bool(a), o) | (BitOr, o, V::Bool(a)) => return if *a { V::Bool(true) } else { o.clone() },
                (BitAnd, a, b) => return sym("and", vec![a.clone(), b.clone()]),
                (BitOr, a, b) => return sym("or", vec![a.clone(), b.clone()]),
                _ => {}
            }
        }
        match (op, x, y) {
            (Add | AddUnchecked, V::Sym(t, k), V::Int(c)) | (Add | AddUnchecked, V::Int(c), V::Sym(t, k)) => V::Sym(*t, k + c),
            (Sub | SubUnchecked, V::Sym(t, k), V::Int(c)) => V::Sym(*t, k - c),
            (Sub | SubUnchecked, V::Sym(t, k), V::Sym(u, l)) if t == u => V::Int(k - l),
            (Add | AddUnchecked, V::Sym(t, k), V::Sym(u, l)) => {
                let (a, b) = if t <= u { (*t, *u) } else { (*u, *t) };
                // x + (y - x) = y
                for (s, o) in [(t, u), (u, t)] {
                    let n = node(*s);
                    if &*n.op == "sub" {
                        if let (V::Sym(p, pk), V::Sym(q, qk)) = (&n.args[0], &n.args[1]) {
                            if q == o {
                                return V::Sym(*p, pk - qk + k + l);
                            }
                        }
                    }
                }
                V::Sym(mk("add", vec![V::Sym(a, 0), V::Sym(b, 0)]), k + l)
            }
            (Sub | SubUnchecked, V::Sym(t, k), V::Sym(u, l)) => V::Sym(mk("sub", vec![V::Sym(*t, 0), V::Sym(*u, 0)]), k - l),
            (Offset, p, V::Int(0)) => p.clone(),
            (Cmp, a, b) => {
                let l = self.lt(st, a, b);
                let e = self.eq(st, a, b);
                match (&l, &e) {
                    (V::Bool(true), _) => agg(0, vec![]),
                    (_, V::Bool(true)) => agg(1, vec![]),
                    (V::Bool(false), V::Bool(false)) => agg(2, vec![]),
                    _ => sym("cmp", vec![a.clone(), b.clone()]),
                }
            }
            _ => sym(&format!("{op:?}"), vec![x.clone(), y.clone()]),
        }
    }
    fn cmp_lt(&self, st: &State, x: &V, y: &V, signed: bool) -> V {
        if !signed {
            // unsigned: nothing is below zero
            if let V::Int(0) = y {
                return V::Bool(false);
            }
            if let (V::Int(c), V::Sym(t, k)) = (x, y) {
                // c < t+k with t unsigned: c == 0, k == 0 means t != 0
                if *c == 0 && *k == 0 {
                    return not(self.eq(st, &V::Sym(*t, 0), &V::Int(0)));
                }
            }
            if let (V::Sym(t, 0), V::Int(1)) = (x, y) {
                return self.eq(st, &V::Sym(*t, 0), &V::Int(0));
            }
        }
        self.lt(st, x, y)
    }

    /* ---------- calls ---------- */
    pub fn fresh(&self, st: &State, site: &Site, what: &str) -> V {
        let mut used: BTreeSet<Tm> = BTreeSet::new();
        for v in st.mem.values() {
            val_leaves(v, &mut used);
        }
        for o in st.mem.keys() {
            if let Obj::Ptr(t) = o {
                used.extend(leaves(*t).iter().copied());
            }
        }
        for t in st.facts.keys() {
            used.extend(leaves(*t).iter().copied());
        }
        for f in &self.stack {
            for v in &f.extra {
                val_leaves(v, &mut used);
            }
        }
        let name = format!("{}#{}#{}", body(site.fid).map(|b| b.name.clone()).unwrap_or_default(), site.bb, what);
        let mut n = 0;
        loop {
            let t = mk("fresh", vec![vstr(&name), V::Int(n)]);
            if !used.contains(&t) {
                return V::Sym(t, 0);
            }
            n += 1;
        }
    }

    /// calls a closure or function value with the given arguments
    pub fn call_value(&mut self, f: &V, fty: Ty, args: Vec<V>, tys: Vec<Ty>, ret: Ty, site: &Site, st: State) -> Outs {
        match rigid(fty) {
            Some(RigidTy::Closure(d, a)) => {
                let Ok(i) = Instance::resolve_closure(d, &a, ClosureKind::FnOnce) else { return self.call_unknown(f, args, tys, ret, site.clone(), st) };
                // the body itself (by-ref or by-value self)
                let fid = intern_fn(i);
                self.call_closure_body(fid, f, fty, args, tys, ret, site, st)
            }
            Some(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                Ok(i) => self.call(intern_fn(i), args, tys, ret, site.clone(), st, false),
                Err(_) => self.call_unknown(f, args, tys, ret, site.clone(), st),
            },
            Some(RigidTy::FnPtr(_)) => match f {
                V::Fn(i) => self.call(*i, args, tys, ret, site.clone(), st, false),
                _ => self.call_unknown(f, args, tys, ret, site.clone(), st),
            },
            Some(RigidTy::Ref(_, inner, _)) => {
                let c = self.read(&st, &self.deref(&st, f));
                if let Some(RigidTy::Closure(d, a)) = rigid(inner) {
                    if let Ok(i) = closure_item(d, &a) {
                        // pass the reference on when the body takes self by reference
                        let fid = intern_fn(i);
                        if let Some(b) = body(fid) {
                            if b.argc > 0 && pointee(b.tys[1]).is_some() {
                                let mut av = vec![f.clone()];
                                av.extend(args);
                                let mut ty2 = vec![fty];
                                ty2.extend(tys);
                                return self.call(fid, av, ty2, ret, site.clone(), st, false);
                            }
                        }
                    }
                }
                self.call_value(&c, inner, args, tys, ret, site, st)
            }
            _ => self.call_unknown(f, args, tys, ret, site.clone(), st),
        }
    }
    fn call_closure_body(&mut self, fid: u32, f: &V, fty: Ty, args: Vec<V>, tys: Vec<Ty>, ret: Ty, site: &Site, mut st: State) -> Outs {
        let (fid, by_ref) = match rigid(fty) {
            Some(RigidTy::Closure(d, a)) => match closure_item(d, &a) {
                Ok(i) => {
                    let id = intern_fn(i);
                    let r = body(id).is_some_and(|b| b.argc > 0 && pointee(b.tys[1]).is_some());
                    (id, r)
                }
                Err(_) => (fid, false),
            },
            _ => (fid, false),
        };
        let mut av = vec![];
        let mut at = vec![];
        if by_ref {
            let o = Obj::Tmp(self.stack.len() as u32, site.bb as u32);
            st.mem.insert(o.clone(), f.clone());
            av.push(V::Ref(Rc::new(Pl { obj: o, path: vec![] }), true));
            at.push(Ty::new_ref(Region { kind: RegionKind::ReErased }, fty, rustc_public::mir::Mutability::Mut));
        } else {
            av.push(f.clone());
            at.push(fty);
        }
        av.extend(args);
        at.extend(tys);
        self.call(fid, av, at, ret, site.clone(), st, false)
    }

    pub fn call_unknown(&mut self, f: &V, args: Vec<V>, tys: Vec<Ty>, ret: Ty, site: Site, st: State) -> Outs {
        *self.opaque.entry(format!("indirect call in {}", site.func())).or_default() += 1;
        let mut sn = vec![f.clone()];
        sn.extend(args.iter().zip(&tys).map(|(a, t)| self.snap(&st, a, Some(*t), 0)));
        self.opaque_result("indirect", sn, &args, &tys, ret, &site, st)
    }

    pub fn opaque_result(&mut self, name: &str, snaps: Vec<V>, args: &[V], tys: &[Ty], ret: Ty, site: &Site, mut st: State) -> Outs {
        let mut places = vec![];
        for (a, t) in args.iter().zip(tys) {
            self.mut_places(&st, a, Some(*t), &mut places, 0);
        }
        let deep = snaps.iter().any(|v| matches!(v, V::Sym(t, _) if depth(*t) > 24)) || snaps.iter().any(|v| size(v) > 400);
        let effect = !places.is_empty();
        for (i, p) in places.iter().enumerate() {
            let v = if deep { self.fresh(&st, site, &format!("{name}'{i}")) } else { sym(&format!("{name}'!"), [snaps.clone(), vec![V::Int(i as i128)]].concat()) };
            self.write(&mut st, p, v);
        }
        if ret.kind().is_unit() {
            return vec![(st, unit())];
        }
        if matches!(rigid(ret), Some(RigidTy::Never)) {
            return vec![];
        }
        let v = if deep { self.fresh(&st, site, name) } else { sym(&if effect { format!("{name}!") } else { name.to_string() }, snaps) };
        mark_unsigned(&v, ret);
        mark_bool(&v, ret);
        vec![(st, v)]
    }

    pub fn call(&mut self, fid: u32, args: Vec<V>, tys: Vec<Ty>, ret: Ty, site: Site, st: State, diverges: bool) -> Outs {
        let inst = fn_of(fid);
        let name = fn_name(fid);
        let c = Call { fid, inst, name: &name, args, tys, ret, site };
        let hook = self.hook.clone();
        if diverges || matches!(rigid(ret), Some(RigidTy::Never)) {
            if let Some(b) = body(fid) {
                // a local function that never returns is looked into for its events
                if (is_ours(&b.krate) || inst.kind == InstanceKind::Shim) && !self.stack.iter().any(|f| f.fid == fid) {
                    let _ = self.enter(fid, &c, st);
                    return vec![];
                }
            }
            if !hook.never(self, &c, &st) {
                hook.panics(self, &st, &c.site, &panic_text(self, &c, &st));
            }
            return vec![];
        }
        crate::models::may_panic(self, &c, &st);
        let mut outs = match hook.call(self, &c, &st) {
            Some(o) => o,
            None => match crate::models::model(self, &c, &st) {
                Some(o) => o,
                None => self.default_call(&c, st),
            },
        };
        crate::models::borrow_cell(self, &c, &mut outs);
        hook.after(self, &c, outs)
    }
    fn default_call(&mut self, c: &Call, st: State) -> Outs {
        let hook = self.hook.clone();
        let inl = match c.inst.kind {
            InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic => false,
            _ => {
                let kr = c.inst.def.krate().name.to_string();
                match hook.inline(c.name, &kr) {
                    Some(b) => b,
                    None => crate::models::inline(c.name, &kr, &c.inst),
                }
            }
        };
        if inl {
            if let Some(b) = body(c.fid) {
                if self.stack.iter().any(|f| f.fid == c.fid) && is_ours(&b.krate) {
                    return hook.recursive(self, c, &st);
                }
                return self.enter(c.fid, c, st);
            }
        }
        self.default_opaque(c, st)
    }
    pub fn default_opaque(&mut self, c: &Call, st: State) -> Outs {
        let hook = self.hook.clone();
        hook.opaque(self, c, &st);
        *self.opaque.entry(c.name.to_string()).or_default() += 1;
        // callbacks run any number of times
        let mut states = vec![st];
        for (a, t) in c.args.iter().zip(&c.tys) {
            let inner = match pointee(*t) {
                Some((i, _)) => i,
                None => *t,
            };
            if let Some(RigidTy::Closure(d, ga)) = rigid(inner) {
                if let Ok(i) = closure_item(d, &ga) {
                    states = self.callback_any(i, a, *t, states, c);
                }
            }
        }
        let mut out = vec![];
        for s in states {
            let snaps: Vec<V> = c
                .args
                .iter()
                .zip(&c.tys)
                .map(|(a, t)| {
                    let v = self.snap(&s, a, Some(*t), 0);
                    // different closures are different arguments
                    if matches!(rigid(pointee(*t).map(|x| x.0).unwrap_or(*t)), Some(RigidTy::Closure(..) | RigidTy::FnDef(..))) {
                        sym("closure", vec![vstr(&short_ty(*t)), v])
                    } else {
                        v
                    }
                })
                .collect();
            out.extend(self.opaque_result(c.name, snaps, &c.args, &c.tys, c.ret, &c.site, s));
        }
        out
    }
    fn callback_any(&mut self, inst: Instance, f: &V, fty: Ty, states: Vec<State>, c: &Call) -> Vec<State> {
        let fid = intern_fn(inst);
        let Some(b) = body(fid) else { return states };
        let ptys: Vec<Ty> = b.tys[2..=b.argc].to_vec();
        let rty = b.tys[0];
        let mut all = states.clone();
        let mut cur = states;
        for round in 0..3 {
            let mut next: Vec<State> = vec![];
            for s in cur {
                let args: Vec<V> = (0..ptys.len()).map(|i| self.fresh(&s, &c.site, &format!("cb{i}.{round}"))).collect();
                for (mut r, _) in self.call_value(f, fty, args, ptys.clone(), rty, &c.site, s) {
                    if round == 2 {
                        let mut ps = vec![];
                        self.mut_places(&r, f, Some(fty), &mut ps, 0);
                        for p in ps {
                            let v = self.fresh(&r, &c.site, "cbhavoc");
                            self.write(&mut r, &p, v);
                        }
                    }
                    if !all.iter().any(|x| x.same(&r)) {
                        all.push(r.clone());
                        next.push(r);
                    }
                }
            }
            cur = next;
            if cur.is_empty() {
                break;
            }
        }
        all
    }
    /// analyses the body with the caller's live values kept
    pub fn enter(&mut self, fid: u32, c: &Call, mut st: State) -> Outs {
        let Some(b) = body(fid) else { return vec![] };
        let mut args = c.args.clone();
        let tuple_len = |t: Option<&Ty>| t.and_then(|t| rigid(*t)).and_then(|t| if let RigidTy::Tuple(x) = t { Some(x.len()) } else { None });
        let packed = c.tys.len() == 2 && tuple_len(c.tys.get(1)) == Some(b.argc.wrapping_sub(1)) && !(b.argc == 2 && tuple_len(b.tys.get(2)) == Some(1));
        if b.is_closure && args.len() == 2 && (b.argc != 2 || packed) {
            // rust-call: the second argument is the tuple of arguments
            let n = b.argc - 1;
            let t = args.pop().unwrap();
            for i in 0..n {
                let pe = PE::F { var: 0, idx: i as u32, n: n as u32 };
                args.push(self.proj(&t, &pe));
            }
        } else if b.argc != args.len() {
            if let Some(_sp) = b.spread {
            } else {
                self.incomplete.insert(format!("argument count of {}", b.name));
            }
        }
        // the callee sees only what is reachable
        let refs: Vec<&V> = args.iter().collect();
        let top = None;
        self.gc(&mut st, top, &refs);
        self.from = Some(c.site.clone());
        self.run_fn(fid, args, st)
    }
}

/// a closure that has nothing of its own to change
pub fn frozen(ty: Ty) -> bool {
    match rigid(ty) {
        Some(RigidTy::Closure(d, a)) => {
            // a closure that captures nothing but shared references has nothing to change
            if let Some(GenericArgKind::Type(t)) = a.0.last() {
                if let Some(RigidTy::Tuple(ts)) = rigid(*t) {
                    if ts.iter().all(|t| matches!(pointee(*t), Some((_, false)))) {
                        return true;
                    }
                }
            }
            match closure_item(d, &a) {
                Ok(i) => body(intern_fn(i)).is_some_and(|b| b.argc > 0 && matches!(pointee(b.tys[1]), Some((_, false)))),
                Err(_) => false,
            }
        }
        Some(RigidTy::FnDef(..)) => true,
        _ => false,
    }
}
pub fn closure_item(d: ClosureDef, a: &GenericArgs) -> Result<Instance, ()> {
    // the closure's own kind decides how self is passed; the body instance is the same item
    for k in [ClosureKind::Fn, ClosureKind::FnMut, ClosureKind::FnOnce] {
        if let Ok(i) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve_closure(d, a, k))) {
            if let Ok(i) = i {
                if i.kind == InstanceKind::Item {
                    return Ok(i);
                }
            }
        }
    }
    Err(())
}

thread_local! {
    static NAMES: std::cell::RefCell<HashMap<u32, Rc<str>>> = std::cell::RefCell::new(HashMap::new());
    static TYN: std::cell::RefCell<HashMap<Ty, Rc<str>>> = std::cell::RefCell::new(HashMap::new());
    static UNSIGNED: std::cell::RefCell<HashSet<Tm>> = std::cell::RefCell::new(HashSet::new());
    static BOOLS: std::cell::RefCell<HashSet<Tm>> = std::cell::RefCell::new(HashSet::new());
}
pub fn mark_unsigned(v: &V, ty: Ty) {
    if let (V::Sym(t, 0), Some((b, false))) = (v, int_bits(ty)) {
        if b > 1 {
            UNSIGNED.with(|u| u.borrow_mut().insert(*t));
        }
    }
}
pub fn mark_bool(v: &V, ty: Ty) {
    if let (V::Sym(t, 0), true) = (v, is_bool(ty)) {
        BOOLS.with(|u| u.borrow_mut().insert(*t));
    }
}
fn is_unsigned_term(t: Tm) -> bool {
    UNSIGNED.with(|u| u.borrow().contains(&t)) || matches!(&*op_of(t), "len" | "charlen")
}
fn is_bool_term(t: Tm) -> bool {
    matches!(&*op_of(t), "eq" | "lt" | "not" | "streq" | "and" | "or") || BOOLS.with(|u| u.borrow().contains(&t))
}
pub fn fn_name(fid: u32) -> Rc<str> {
    NAMES.with(|n| n.borrow_mut().entry(fid).or_insert_with(|| Rc::from(norm(&fn_of(fid).name()))).clone())
}
pub fn short_ty(t: Ty) -> Rc<str> {
    TYN.with(|n| n.borrow_mut().entry(t).or_insert_with(|| Rc::from(format!("{t}"))).clone())
}
pub fn is_ours(krate: &str) -> bool {
    krate.starts_with("mitex") || krate == "vharness"
}
pub fn not(v: V) -> V {
    match &v {
        V::Bool(b) => V::Bool(!b),
        V::Sym(t, 0) => {
            let n = node(*t);
            if &*n.op == "not" {
                return n.args[0].clone();
            }
            sym("not", vec![v])
        }
        _ => sym("not", vec![v]),
    }
}
pub fn len_of(v: &V) -> V {
    match v {
        V::Agg(_, f) => V::Int(f.len() as i128),
        V::Bytes(b) => V::Int(b.len() as i128),
        V::Str(s) => V::Int(s.len() as i128),
        o => sym("len", vec![o.clone()]),
    }
}
fn wrap(i: i128, bits: u32, signed: bool) -> i128 {
    if bits >= 127 {
        return i;
    }
    let m = (1i128 << bits) - 1;
    let r = i & m;
    if signed && r >> (bits - 1) & 1 == 1 {
        r - (1i128 << bits)
    } else {
        r
    }
}
pub fn size(v: &V) -> usize {
    match v {
        V::Agg(_, f) => 1 + f.iter().map(size).sum::<usize>(),
        _ => 1,
    }
}
fn refs_only(v: &V, out: &mut Vec<Obj>) {
    match v {
        V::Agg(_, f) => f.iter().for_each(|x| refs_only(x, out)),
        V::Ref(p, _) => out.push(p.obj.clone()),
        _ => {}
    }
}
fn constructible(t: Tm, held: &HashSet<Tm>, objs: &HashSet<Obj>, memo: &mut HashMap<Tm, bool>) -> bool {
    if held.contains(&t) {
        return true;
    }
    if let Some(b) = memo.get(&t) {
        return *b;
    }
    let n = node(t);
    fn ok(v: &V, held: &HashSet<Tm>, objs: &HashSet<Obj>, memo: &mut HashMap<Tm, bool>) -> bool {
        match v {
            V::Sym(t, _) => constructible(*t, held, objs, memo),
            V::Agg(_, f) => f.iter().all(|x| ok(x, held, objs, memo)),
            V::Ref(p, _) => match &p.obj {
                Obj::Ptr(t) => constructible(*t, held, objs, memo),
                Obj::Local(..) | Obj::Tmp(..) => objs.contains(&p.obj),
                _ => true,
            },
            _ => true,
        }
    }
    let r = !n.args.is_empty()
        && !matches!(&*n.op, "fresh" | "old" | "arg" | "widen" | "any")
        && !n.op.ends_with('!')
        && n.args.iter().all(|a| ok(a, held, objs, memo));
    memo.insert(t, r);
    r
}
/// every fact of e holds in s
fn implied(s: &State, e: &State) -> bool {
    e.facts.iter().all(|(t, f)| match s.facts.get(t) {
        Some(g) => g.implies(f),
        None => f.trivial(),
    })
}
/// the union of two facts about a term, when it is exact
fn union(t: Tm, a: &Fact, b: &Fact) -> Option<Fact> {
    if a.streq != b.streq || a.strne != b.strne {
        return None;
    }
    let mut o = Fact { streq: a.streq.clone(), strne: a.strne.clone(), ..Default::default() };
    let has = |f: &Fact, x: i128| !f.ne.contains(&x) && f.lo.is_none_or(|l| x >= l) && f.hi.is_none_or(|h| x <= h);
    if let Some(d) = domain(t) {
        let yes: Vec<i128> = d.iter().copied().filter(|x| has(a, *x) || has(b, *x)).collect();
        if yes.len() == 1 {
            o.lo = Some(yes[0]);
            o.hi = Some(yes[0]);
        } else {
            o.ne = d.iter().copied().filter(|x| !yes.contains(x)).collect();
        }
        return Some(o);
    }
    for (a, b) in [(a, b), (b, a)] {
        if let Some(v) = a.get() {
            if b.ne.contains(&v) {
                let mut f = b.clone();
                f.ne.remove(&v);
                return Some(f);
            }
        }
        if a.ne.is_empty() && b.ne.is_empty() {
            if let (Some(h), Some(l)) = (a.hi, b.lo) {
                if l <= h + 1 && a.lo.is_none_or(|x| b.lo.is_some_and(|y| x <= y)) {
                    o.lo = a.lo;
                    o.hi = match (a.hi, b.hi) {
                        (Some(x), Some(y)) => Some(x.max(y)),
                        _ => None,
                    };
                    return Some(o);
                }
            }
        }
    }
    None
}
/// joins states that differ in what they know about one term only, when nothing is lost
pub fn merge(mut v: Vec<(State, V)>) -> Vec<(State, V)> {
    loop {
        let mut changed = false;
        let mut i = 0;
        while i < v.len() {
            let mut j = i + 1;
            while j < v.len() {
                if v[i].1 == v[j].1 && v[i].0.anc == v[j].0.anc && v[i].0.mem == v[j].0.mem {
                    let (fa, fb) = (&v[i].0.facts, &v[j].0.facts);
                    let mut diff: Option<Tm> = None;
                    let mut n = 0;
                    for t in fa.keys().chain(fb.keys().filter(|t| !fa.contains_key(t))) {
                        if fa.get(t) != fb.get(t) {
                            n += 1;
                            diff = Some(*t);
                            if n > 1 {
                                break;
                            }
                        }
                    }
                    let z = Fact::default();
                    if n == 0 {
                        v.remove(j);
                        changed = true;
                        continue;
                    }
                    if n == 1 {
                        let t = diff.unwrap();
                        if let Some(u) = union(t, fa.get(&t).unwrap_or(&z), fb.get(&t).unwrap_or(&z)) {
                            let f = &mut v[i].0.facts;
                            if u.trivial() {
                                f.remove(&t);
                            } else {
                                f.insert(t, u);
                            }
                            v.remove(j);
                            changed = true;
                            continue;
                        }
                    }
                }
                j += 1;
            }
            i += 1;
        }
        if !changed {
            return v;
        }
    }
}
fn join_facts(e: &mut State, s: &State) {
    let mut nf = BTreeMap::new();
    for (t, f) in &e.facts {
        if let Some(g) = s.facts.get(t) {
            let j = f.join(g);
            if !j.trivial() {
                nf.insert(*t, j);
            }
        }
    }
    e.facts = nf;
}
fn bindable(t: Tm) -> bool {
    matches!(&*op_of(t), "fresh" | "widen")
}
fn has_bindable(t: Tm) -> bool {
    leaves(t).iter().any(|l| bindable(*l))
}

/// is s an instance of e?
fn leq(s: &State, e: &State) -> bool {
    if s.mem.len() != e.mem.len() {
        return false;
    }
    let mut bind: HashMap<Tm, V> = HashMap::new();
    for ((oe, ve), (os, vs)) in e.mem.iter().zip(s.mem.iter()) {
        if oe != os {
            return false;
        }
        if !matchv(ve, vs, &mut bind) {
            return false;
        }
    }
    // facts of e, translated
    let b2 = bind.clone();
    let f = move |t: Tm| b2.get(&t).cloned();
    let mut rn = Rename::new(&f);
    for (t, fact) in &e.facts {
        let img = rn.val(&V::Sym(*t, 0)).unwrap_or(V::Sym(*t, 0));
        match img {
            V::Sym(t2, k) => {
                let g = match s.facts.get(&t2) {
                    Some(g) => {
                        let mut g = g.clone();
                        g.lo = g.lo.map(|x| x + k);
                        g.hi = g.hi.map(|x| x + k);
                        g.ne = g.ne.into_iter().map(|x| x + k).collect();
                        g
                    }
                    None => Fact::default(),
                };
                let g = if g.lo.is_none() && is_unsigned_term(t2) { Fact { lo: Some(k), ..g } } else { g };
                if !g.implies(fact) {
                    // constant folding of comparison terms
                    match fold_cmp(t2, s) {
                        Some(b) if Fact::exact(b as i128).implies(fact) => {}
                        _ => return false,
                    }
                }
            }
            V::Int(i) => {
                if !Fact::exact(i).implies(fact) {
                    return false;
                }
            }
            V::Bool(i) => {
                if !Fact::exact(i as i128).implies(fact) {
                    return false;
                }
            }
            V::Str(x) => {
                if !(Fact { streq: Some(x), ..Default::default() }).implies(fact) {
                    return false;
                }
            }
            _ => return false,
        }
    }
    true
}
fn fold_cmp(t: Tm, s: &State) -> Option<bool> {
    let n = node(t);
    if !matches!(&*n.op, "eq" | "lt") {
        return None;
    }
    let r = |v: &V| -> Option<(i128, i128)> {
        match v {
            V::Int(i) => Some((*i, *i)),
            V::Sym(t, k) => {
                let f = s.facts.get(t);
                let lo = f.and_then(|f| f.lo).or(if is_unsigned_term(*t) { Some(0) } else { None })?;
                Some((lo + k, f.and_then(|f| f.hi).map_or(i128::MAX, |h| h + k)))
            }
            _ => None,
        }
    };
    let (a, b) = (r(&n.args[0])?, r(&n.args[1])?);
    match &*n.op {
        "eq" if a.1 < b.0 || b.1 < a.0 => Some(false),
        "eq" if a.0 == a.1 && a == b => Some(true),
        "lt" if a.1 < b.0 => Some(true),
        "lt" if a.0 >= b.1 => Some(false),
        _ => None,
    }
}
fn matchv(e: &V, s: &V, bind: &mut HashMap<Tm, V>) -> bool {
    match (e, s) {
        (V::Sym(te, ke), _) if bindable(*te) => {
            let val = match s {
                V::Sym(ts, ks) => V::Sym(*ts, ks - ke),
                V::Int(i) => V::Int(i - ke),
                V::Undef => return false,
                o if *ke == 0 => o.clone(),
                _ => return false,
            };
            match bind.get(te) {
                Some(b) => *b == val,
                None => {
                    bind.insert(*te, val);
                    true
                }
            }
        }
        (V::Sym(te, ke), V::Sym(ts, ks)) => {
            if ke != ks {
                return false;
            }
            if te == ts && !has_bindable(*te) {
                return true;
            }
            let (ne, ns) = (node(*te), node(*ts));
            ne.op == ns.op && !ne.args.is_empty() && ne.args.len() == ns.args.len() && !bindable(*te) && {
                if matches!(&*ne.op, "arg" | "any" | "old") {
                    te == ts
                } else {
                    ne.args.iter().zip(&ns.args).all(|(a, b)| matchv(a, b, bind))
                }
            }
        }
        (V::Agg(a, f), V::Agg(b, g)) => a == b && f.len() == g.len() && f.iter().zip(g.iter()).all(|(x, y)| matchv(x, y, bind)),
        (V::Ref(p, m), V::Ref(q, n)) => {
            m == n
                && p.path.len() == q.path.len()
                && (match (&p.obj, &q.obj) {
                    (Obj::Ptr(a), Obj::Ptr(b)) => matchv(&V::Sym(*a, 0), &V::Sym(*b, 0), bind),
                    (a, b) => a == b,
                })
                && p.path.iter().zip(&q.path).all(|(x, y)| match (x, y) {
                    (PE::I(a), PE::I(b)) => matchv(a, b, bind),
                    (a, b) => a == b,
                })
        }
        (V::Undef, _) => true,
        (a, b) => a == b,
    }
}

struct Au<'a> {
    e: &'a State,
    s: &'a State,
    tag: String,
    pairs: Vec<(V, V, Tm)>,
    used: BTreeSet<Tm>,
    force: bool,
    texts: bool,
}
impl Au<'_> {
    fn delta(a: &V, b: &V) -> Option<i128> {
        match (a, b) {
            (V::Int(x), V::Int(y)) => Some(x - y),
            (V::Sym(t, k), V::Sym(u, l)) if t == u => Some(k - l),
            _ => None,
        }
    }
    fn leaf(&mut self, a: &V, b: &V) -> V {
        for (x, y, w) in &self.pairs {
            if x == a && y == b {
                return V::Sym(*w, 0);
            }
            if let (Some(d1), Some(d2)) = (Self::delta(a, x), Self::delta(b, y)) {
                if d1 == d2 {
                    return V::Sym(*w, d1);
                }
            }
        }
        let dom = |v: &V| match v {
            V::Sym(t, 0) => domain(*t),
            _ => None,
        };
        let d = match (dom(a), dom(b)) {
            (Some(x), Some(y)) if x == y => Some(x),
            _ => None,
        };
        let uns = |v: &V, st: &State| match v {
            V::Int(i) => *i >= 0,
            V::Sym(t, k) => is_unsigned_term(*t) && (*k >= 0 || st.fact(*t).and_then(|f| f.lo).is_some_and(|l| l + k >= 0)),
            _ => false,
        };
        let boolish = |v: &V| match v {
            V::Bool(_) => true,
            V::Sym(t, 0) => is_bool_term(*t),
            _ => false,
        };
        let u = uns(a, self.e) && uns(b, self.s);
        let bl = boolish(a) && boolish(b);
        // iterators that have been advanced iterate over the same things
        let from = match (origin(a), origin(b)) {
            (Some(x), Some(y)) if x == y => Some(origin_id(&x)),
            _ => None,
        };
        let mut n = 0;
        let w = loop {
            let mut wa = vec![vstr(&self.tag), V::Int(n), vstr(&format!("{:?}{}{}", d, u, bl))];
            wa.extend(from.map(V::Int));
            let t = mk("widen", wa);
            if !self.used.contains(&t) {
                break t;
            }
            n += 1;
        };
        self.used.insert(w);
        if let Some(d) = d {
            set_domain(w, d);
        }
        if u {
            UNSIGNED.with(|x| x.borrow_mut().insert(w));
        }
        if bl {
            BOOLS.with(|x| x.borrow_mut().insert(w));
        }
        self.pairs.push((a.clone(), b.clone(), w));
        V::Sym(w, 0)
    }
    fn go(&mut self, a: &V, b: &V) -> Option<V> {
        if a == b {
            return Some(a.clone());
        }
        match (a, b) {
            (V::Undef, _) | (_, V::Undef) => Some(V::Undef),
            (V::Agg(x, f), V::Agg(y, g)) if x == y && f.len() == g.len() => {
                let mut r = vec![];
                for (p, q) in f.iter().zip(g.iter()) {
                    r.push(self.go(p, q)?);
                }
                Some(V::Agg(*x, Rc::new(r)))
            }
            (V::Int(_) | V::Sym(..), V::Int(_) | V::Sym(..)) => {
                if let (V::Sym(t, k), V::Sym(u, l)) = (a, b) {
                    let (n, m) = (node(*t), node(*u));
                    if k == l && n.op == m.op && n.args.len() == m.args.len() && !matches!(&*n.op, "fresh" | "widen" | "arg" | "old" | "any") {
                        let same = n.args.iter().zip(&m.args).all(|(p, q)| p == q || matches!((p, q), (V::Sym(..), V::Sym(..)) | (V::Agg(..), V::Agg(..))));
                        if same {
                            let save = (self.pairs.clone(), self.used.clone());
                            let mut r = vec![];
                            let mut good = true;
                            for (p, q) in n.args.iter().zip(&m.args) {
                                match self.go(p, q) {
                                    Some(x) => r.push(x),
                                    None => {
                                        good = false;
                                        break;
                                    }
                                }
                            }
                            if good {
                                let t2 = mk(&n.op, r);
                                if let Some(d) = domain(*t) {
                                    set_domain(t2, d);
                                }
                                if is_unsigned_term(*t) {
                                    UNSIGNED.with(|x| x.borrow_mut().insert(t2));
                                }
                                if is_bool_term(*t) {
                                    BOOLS.with(|x| x.borrow_mut().insert(t2));
                                }
                                return Some(V::Sym(t2, *k));
                            }
                            self.pairs = save.0;
                            self.used = save.1;
                        }
                    }
                }
                Some(self.leaf(a, b))
            }
            (V::Sym(..), V::Str(_) | V::Bool(_)) | (V::Str(_) | V::Bool(_), V::Sym(..)) => Some(self.leaf(a, b)),
            // a text that grows with every round
            (V::Str(x), V::Str(y)) if self.texts && (y.len() > x.len() && y.starts_with(&**x)) => Some(self.leaf(a, b)),
            (V::Ref(p, m), V::Ref(q, n)) if m == n && p.path.len() == q.path.len() => {
                let obj = match (&p.obj, &q.obj) {
                    (x, y) if x == y => x.clone(),
                    (Obj::Ptr(x), Obj::Ptr(y)) => match self.go(&V::Sym(*x, 0), &V::Sym(*y, 0))? {
                        V::Sym(t, 0) => Obj::Ptr(t),
                        _ => return None,
                    },
                    _ => return None,
                };
                let mut path = vec![];
                for (x, y) in p.path.iter().zip(&q.path) {
                    path.push(match (x, y) {
                        (PE::I(x), PE::I(y)) => PE::I(self.go(x, y)?),
                        (x, y) if x == y => x.clone(),
                        _ => return None,
                    });
                }
                Some(V::Ref(Rc::new(Pl { obj, path }), *m))
            }
            (V::Ref(..), _) | (_, V::Ref(..)) => None,
            _ if self.force => Some(self.leaf(a, b)),
            _ => None,
        }
    }
}
fn antiunify(e: &State, s: &State, tag: &str, force: bool) -> Option<State> {
    if e.mem.len() != s.mem.len() || !e.mem.keys().eq(s.mem.keys()) {
        return None;
    }
    let mut used = BTreeSet::new();
    for st in [e, s] {
        for v in st.mem.values() {
            val_leaves(v, &mut used);
        }
        for t in st.facts.keys() {
            used.extend(leaves(*t).iter().copied());
        }
    }
    let mut au = Au { e, s, tag: tag.to_string(), pairs: vec![], used, force, texts: false };
    let _ = (&au.e, &au.s);
    let mut w = State::new();
    w.trace = s.trace.clone();
    w.anc = s.anc.clone();
    for (o, ve) in &e.mem {
        // ghosts only generalise their numbers, never their structure
        au.texts = !matches!(o, Obj::Ghost(_));
        let v = match au.go(ve, &s.mem[o]) {
            Some(v) => v,
            None => {
                if std::env::var("MXSA_WHY").is_ok() {
                    eprintln!("no widening at {tag}: {} {} / {}", show_obj(o), show(ve), show(&s.mem[o]));
                }
                return None;
            }
        };
        w.mem.insert(o.clone(), v);
    }
    // facts
    let side = |k: usize| {
        let ps = au.pairs.clone();
        move |t: Tm| -> Option<V> {
            for (a, b, w) in &ps {
                let v = if k == 0 { a } else { b };
                if let V::Sym(x, off) = v {
                    if *x == t {
                        return Some(V::Sym(*w, -off));
                    }
                }
            }
            None
        }
    };
    let image = |st: &State, k: usize| -> BTreeMap<Tm, Fact> {
        let f = side(k);
        let mut rn = Rename::new(&f);
        let mut m: BTreeMap<Tm, Fact> = BTreeMap::new();
        for (t, fact) in &st.facts {
            match rn.val(&V::Sym(*t, 0)) {
                None => {
                    m.insert(*t, fact.clone());
                }
                Some(V::Sym(t2, off)) => {
                    let mut f = fact.clone();
                    f.lo = f.lo.map(|x| x - off);
                    f.hi = f.hi.map(|x| x - off);
                    f.ne = f.ne.into_iter().map(|x| x - off).collect();
                    m.insert(t2, f);
                }
                _ => {}
            }
        }
        for (a, b, w) in &au.pairs {
            match if k == 0 { a } else { b } {
                V::Int(i) => {
                    m.insert(*w, Fact::exact(*i));
                }
                V::Bool(i) => {
                    m.insert(*w, Fact::exact(*i as i128));
                }
                V::Str(x) => {
                    m.insert(*w, Fact { streq: Some(x.clone()), ..Default::default() });
                }
                _ => {}
            }
        }
        m
    };
    let (fe, fs) = (image(e, 0), image(s, 1));
    for (t, a) in &fe {
        let b = match fs.get(t) {
            Some(b) => b.clone(),
            None => match fold_cmp_after(*t, &au.pairs, s, 1) {
                Some(x) => Fact::exact(x as i128),
                None => continue,
            },
        };
        let mut j = a.join(&b);
        // widening of the bounds
        if let (Some(x), Some(y)) = (a.lo, b.lo) {
            j.lo = if y >= x { Some(x) } else if y >= 1 { Some(1) } else if y >= 0 { Some(0) } else { None };
        }
        if let (Some(x), Some(y)) = (a.hi, b.hi) {
            j.hi = if y <= x { Some(x) } else { None };
        }
        if !j.trivial() {
            w.facts.insert(*t, j);
        }
    }
    for (t, b) in &fs {
        if fe.contains_key(t) {
            continue;
        }
        if let Some(x) = fold_cmp_after(*t, &au.pairs, e, 0) {
            let j = Fact::exact(x as i128).join(b);
            if !j.trivial() {
                w.facts.insert(*t, j);
            }
        }
    }
    Some(w)
}
/// truth of a comparison over widened symbols when the symbols have their value of one side
fn fold_cmp_after(t: Tm, pairs: &[(V, V, Tm)], st: &State, side: usize) -> Option<bool> {
    if !matches!(&*op_of(t), "eq" | "lt") {
        return None;
    }
    let m: HashMap<Tm, V> = pairs.iter().map(|(a, b, w)| (*w, if side == 0 { a.clone() } else { b.clone() })).collect();
    let f = move |t: Tm| m.get(&t).cloned();
    let mut rn = Rename::new(&f);
    match rn.val(&V::Sym(t, 0)).unwrap_or(V::Sym(t, 0)) {
        V::Sym(t2, 0) => {
            if let Some(f) = st.facts.get(&t2).and_then(|f| f.get()) {
                return Some(f != 0);
            }
            let n = node(t2);
            if let (V::Sym(x, k), V::Sym(y, l)) = (&n.args[0], &n.args[1]) {
                if x == y {
                    return Some(if &*n.op == "eq" { k == l } else { k < l });
                }
            }
            fold_cmp(t2, st)
        }
        _ => None,
    }
}
fn diff(e: &State, s: &State, w: &State) {
    for (o, v) in &w.mem {
        if e.mem[o] != *v {
            eprintln!("    widen {}: {} / {} => {}", show_obj(o), show(&e.mem[o]), show(&s.mem[o]), show(v));
        }
    }
}
pub fn local_drop(ty: Ty) -> Option<u32> {
    // Drop impls of the repository's own types
    let Some(RigidTy::Adt(d, _)) = rigid(ty) else { return None };
    use rustc_public::crate_def::CrateDef;
    if !is_ours(&d.krate().name.to_string()) {
        return None;
    }
    let inst = Instance::resolve_drop_in_place(ty);
    let b = inst.body()?;
    for blk in &b.blocks {
        if let rustc_public::mir::TerminatorKind::Call { func, .. } = &blk.terminator.kind {
            if let rustc_public::mir::Operand::Constant(c) = func {
                if let V::Fn(i) = constant(&c.const_) {
                    let n = fn_name(i);
                    if n.contains("Drop>::drop") {
                        return Some(i);
                    }
                }
            }
        }
    }
    None
}
fn panic_text(cx: &Interp, c: &Call, st: &State) -> String {
    let mut s = c.name.to_string();
    for (a, t) in c.args.iter().zip(&c.tys) {
        let v = cx.snap(st, a, Some(*t), 0);
        if let V::Str(x) = v {
            s += &format!(" {:?}", x);
        }
    }
    s
}

fn text_test(op: &str, s: &str, y: &str) -> bool {
    match op {
        "starts_with" => s.starts_with(y),
        "ends_with" => s.ends_with(y),
        _ => s.contains(y),
    }
}

//! Abstract values, hash-consed terms, abstract states.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write;
use std::rc::Rc;

pub type Tm = u32;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum PE {
    /// field idx of variant var; n is the number of fields of that variant (to expand a symbol)
    F { var: u32, idx: u32, n: u32 },
    /// element at a (symbolic) index
    I(V),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Obj {
    Local(u32, u32),
    /// what the pointer-like symbol points to
    Ptr(Tm),
    Static(Rc<str>),
    Ghost(&'static str),
    Tmp(u32, u32),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Pl {
    pub obj: Obj,
    pub path: Vec<PE>,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum V {
    Undef,
    Bool(bool),
    /// char, integer
    Int(i128),
    Str(Rc<str>),
    Bytes(Rc<[u8]>),
    /// symbol + offset (the offset is only non-zero for integers)
    Sym(Tm, i128),
    Agg(u32, Rc<Vec<V>>),
    Ref(Rc<Pl>, bool),
    /// function item / fn pointer, by interned instance
    Fn(u32),
}

pub fn unit() -> V {
    V::Agg(0, Rc::new(vec![]))
}
pub fn agg(var: u32, f: Vec<V>) -> V {
    V::Agg(var, Rc::new(f))
}
pub fn some(v: V) -> V {
    agg(1, vec![v])
}
pub fn none() -> V {
    agg(0, vec![])
}
pub fn vstr(s: &str) -> V {
    V::Str(Rc::from(s))
}
pub fn tuple(f: Vec<V>) -> V {
    agg(0, f)
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Rc<str>,
    pub args: Vec<V>,
}

struct Arena {
    nodes: Vec<Rc<Node>>,
    map: HashMap<Rc<Node>, Tm>,
    leaves: Vec<Rc<BTreeSet<Tm>>>,
    summary: Vec<bool>,
    depth: Vec<u32>,
    domain: HashMap<Tm, Rc<Vec<i128>>>,
    ops: HashMap<String, Rc<str>>,
}
thread_local! {
    static AR: RefCell<Arena> = RefCell::new(Arena { nodes: vec![], map: HashMap::new(), leaves: vec![], summary: vec![], depth: vec![], domain: HashMap::new(), ops: HashMap::new() });
}

/// leaf operators: symbols that stand for themselves
fn is_leaf(op: &str) -> bool {
    matches!(op, "fresh" | "old" | "arg" | "widen" | "any")
}

pub fn mk(op: &str, args: Vec<V>) -> Tm {
    AR.with(|a| {
        let mut a = a.borrow_mut();
        let o = match a.ops.get(op) {
            Some(o) => o.clone(),
            None => {
                let o: Rc<str> = Rc::from(op);
                a.ops.insert(op.to_string(), o.clone());
                o
            }
        };
        let n = Rc::new(Node { op: o, args });
        if let Some(t) = a.map.get(&n) {
            return *t;
        }
        let id = a.nodes.len() as Tm;
        let mut lv = BTreeSet::new();
        let mut sm = op == "old";
        let mut dp = 0;
        fn walk(v: &V, a: &Arena, lv: &mut BTreeSet<Tm>, sm: &mut bool, dp: &mut u32) {
            match v {
                V::Sym(t, _) => {
                    lv.extend(a.leaves[*t as usize].iter().copied());
                    *sm |= a.summary[*t as usize];
                    *dp = (*dp).max(a.depth[*t as usize] + 1);
                }
                V::Agg(_, f) => f.iter().for_each(|x| walk(x, a, lv, sm, dp)),
                V::Ref(p, _) => {
                    if let Obj::Ptr(t) = &p.obj {
                        lv.extend(a.leaves[*t as usize].iter().copied());
                        *sm |= a.summary[*t as usize];
                    }
                    for e in &p.path {
                        if let PE::I(v) = e {
                            walk(v, a, lv, sm, dp)
                        }
                    }
                }
                _ => {}
            }
        }
        for v in &n.args {
            walk(v, &a, &mut lv, &mut sm, &mut dp);
        }
        if is_leaf(op) {
            lv.clear();
            lv.insert(id);
            dp = 0;
        }
        a.nodes.push(n.clone());
        a.leaves.push(Rc::new(lv));
        a.summary.push(sm);
        a.depth.push(dp);
        a.map.insert(n, id);
        id
    })
}
pub fn sym(op: &str, args: Vec<V>) -> V {
    V::Sym(mk(op, args), 0)
}
pub fn node(t: Tm) -> Rc<Node> {
    AR.with(|a| a.borrow().nodes[t as usize].clone())
}
pub fn op_of(t: Tm) -> Rc<str> {
    AR.with(|a| a.borrow().nodes[t as usize].op.clone())
}
pub fn leaves(t: Tm) -> Rc<BTreeSet<Tm>> {
    AR.with(|a| a.borrow().leaves[t as usize].clone())
}
pub fn is_summary(t: Tm) -> bool {
    AR.with(|a| a.borrow().summary[t as usize])
}
pub fn depth(t: Tm) -> u32 {
    AR.with(|a| a.borrow().depth[t as usize])
}
pub fn set_domain(t: Tm, d: Rc<Vec<i128>>) {
    AR.with(|a| {
        a.borrow_mut().domain.insert(t, d);
    })
}
pub fn domain(t: Tm) -> Option<Rc<Vec<i128>>> {
    AR.with(|a| a.borrow().domain.get(&t).cloned())
}

pub fn show_t(t: Tm) -> String {
    let n = node(t);
    if n.args.is_empty() {
        return n.op.to_string();
    }
    let mut s = n.op.to_string();
    s.push('(');
    for (i, a) in n.args.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s += &show(a);
    }
    s.push(')');
    s
}
pub fn show(v: &V) -> String {
    match v {
        V::Undef => "undef".into(),
        V::Int(i) => format!("{i}"),
        V::Bool(b) => format!("{b}"),
        V::Str(s) => format!("{s:?}"),
        V::Bytes(b) => format!("b{:?}", String::from_utf8_lossy(b)),
        V::Sym(t, 0) => show_t(*t),
        V::Sym(t, k) => format!("{}{:+}", show_t(*t), k),
        V::Agg(n, f) => {
            let mut s = format!("#{n}");
            if !f.is_empty() {
                s.push('{');
                for (i, x) in f.iter().enumerate() {
                    if i > 0 {
                        s.push_str(", ");
                    }
                    s += &show(x);
                }
                s.push('}');
            }
            s
        }
        V::Ref(p, m) => format!("&{}{}", if *m { "mut " } else { "" }, show_pl(p)),
        V::Fn(i) => format!("fn#{i}"),
    }
}
pub fn show_obj(o: &Obj) -> String {
    match o {
        Obj::Local(f, l) => format!("_{l}@{f}"),
        Obj::Ptr(t) => format!("*{}", show_t(*t)),
        Obj::Static(s) => format!("static {s}"),
        Obj::Ghost(g) => format!("ghost {g}"),
        Obj::Tmp(a, b) => format!("tmp{a}.{b}"),
    }
}
pub fn show_pl(p: &Pl) -> String {
    let mut s = show_obj(&p.obj);
    for e in &p.path {
        match e {
            PE::F { var, idx, .. } => {
                let _ = if *var > 0 { write!(s, ".{var}:{idx}") } else { write!(s, ".{idx}") };
            }
            PE::I(v) => {
                let _ = write!(s, "[{}]", show(v));
            }
        }
    }
    s
}

/// Interval + excluded values + string equality knowledge about one term.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Default)]
pub struct Fact {
    pub lo: Option<i128>,
    pub hi: Option<i128>,
    pub ne: BTreeSet<i128>,
    pub streq: Option<Rc<str>>,
    pub strne: BTreeSet<Rc<str>>,
}
impl Fact {
    pub fn exact(v: i128) -> Self {
        Fact { lo: Some(v), hi: Some(v), ..Default::default() }
    }
    pub fn get(&self) -> Option<i128> {
        match (self.lo, self.hi) {
            (Some(a), Some(b)) if a == b => Some(a),
            _ => None,
        }
    }
    pub fn trivial(&self) -> bool {
        *self == Fact::default()
    }
    /// does self imply o?
    pub fn implies(&self, o: &Fact) -> bool {
        let lo = match (o.lo, self.lo) {
            (None, _) => true,
            (Some(a), Some(b)) => b >= a,
            _ => false,
        };
        let hi = match (o.hi, self.hi) {
            (None, _) => true,
            (Some(a), Some(b)) => b <= a,
            _ => false,
        };
        lo && hi
            && o.ne.iter().all(|x| self.ne.contains(x) || self.lo.is_some_and(|l| *x < l) || self.hi.is_some_and(|h| *x > h))
            && (o.streq.is_none() || o.streq == self.streq)
            && o.strne.iter().all(|x| self.strne.contains(x) || self.streq.as_ref().is_some_and(|s| s != x))
    }
    pub fn join(&self, o: &Fact) -> Fact {
        let excl = |f: &Fact, x: i128| f.ne.contains(&x) || f.lo.is_some_and(|l| x < l) || f.hi.is_some_and(|h| x > h);
        let sexcl = |f: &Fact, x: &Rc<str>| f.strne.contains(x) || f.streq.as_ref().is_some_and(|s| s != x);
        Fact {
            lo: match (self.lo, o.lo) {
                (Some(a), Some(b)) => Some(a.min(b)),
                _ => None,
            },
            hi: match (self.hi, o.hi) {
                (Some(a), Some(b)) => Some(a.max(b)),
                _ => None,
            },
            ne: self.ne.iter().chain(o.ne.iter()).copied().filter(|x| excl(self, *x) && excl(o, *x)).collect(),
            streq: if self.streq == o.streq { self.streq.clone() } else { None },
            strne: self.strne.iter().chain(o.strne.iter()).cloned().filter(|x| sexcl(self, x) && sexcl(o, x)).collect(),
        }
    }
}

pub enum Ev {
    Branch(u32, u32, u32),
    Note(String),
}
pub struct TraceNode {
    pub prev: Trace,
    pub what: Ev,
}
pub type Trace = Option<Rc<TraceNode>>;

#[derive(Clone)]
pub struct State {
    pub mem: BTreeMap<Obj, V>,
    pub facts: BTreeMap<Tm, Fact>,
    pub trace: Trace,
    /// index of the state at an enclosing loop head from which this one descends
    pub anc: BTreeMap<(u32, u32), usize>,
}

impl State {
    pub fn branch(&mut self, fid: u32, bb: u32, to: u32) {
        self.trace = Some(Rc::new(TraceNode { prev: self.trace.clone(), what: Ev::Branch(fid, bb, to) }));
    }
    pub fn new() -> Self {
        State { mem: BTreeMap::new(), facts: BTreeMap::new(), trace: None, anc: BTreeMap::new() }
    }
    pub fn same(&self, o: &State) -> bool {
        self.mem == o.mem && self.facts == o.facts
    }
    pub fn note(&mut self, what: String) {
        self.trace = Some(Rc::new(TraceNode { prev: self.trace.clone(), what: Ev::Note(what) }));
    }
    pub fn ghost(&self, g: &'static str) -> V {
        self.mem.get(&Obj::Ghost(g)).cloned().unwrap_or(V::Undef)
    }
    pub fn set_ghost(&mut self, g: &'static str, v: V) {
        self.mem.insert(Obj::Ghost(g), v);
    }
    pub fn fact(&self, t: Tm) -> Option<&Fact> {
        self.facts.get(&t)
    }
    pub fn exact(&self, t: Tm) -> Option<i128> {
        self.facts.get(&t).and_then(|f| f.get()).or_else(|| match domain(t) {
            Some(d) => {
                let f = self.facts.get(&t);
                let mut it = d.iter().filter(|x| f.is_none_or(|f| !f.ne.contains(x) && f.lo.is_none_or(|l| **x >= l) && f.hi.is_none_or(|h| **x <= h)));
                match (it.next(), it.next()) {
                    (Some(x), None) => Some(*x),
                    _ => None,
                }
            }
            None => None,
        })
    }
    /// may the term have value v?
    pub fn may(&self, t: Tm, v: i128) -> bool {
        if let Some(d) = domain(t) {
            if !d.contains(&v) {
                return false;
            }
        }
        match self.facts.get(&t) {
            None => true,
            Some(f) => !f.ne.contains(&v) && f.lo.is_none_or(|l| v >= l) && f.hi.is_none_or(|h| v <= h),
        }
    }
    /// some value outside of vs possible?
    pub fn may_other(&self, t: Tm, vs: &[i128]) -> bool {
        if let Some(d) = domain(t) {
            return d.iter().any(|x| !vs.contains(x) && self.may(t, *x));
        }
        match self.facts.get(&t) {
            None => true,
            Some(f) => match (f.lo, f.hi) {
                (Some(l), Some(h)) if h - l < 64 => (l..=h).any(|x| !vs.contains(&x) && !f.ne.contains(&x)),
                _ => true,
            },
        }
    }
    pub fn assume_eq(&mut self, t: Tm, v: i128) {
        if is_summary(t) {
            return;
        }
        let f = self.facts.entry(t).or_default();
        f.lo = Some(v);
        f.hi = Some(v);
        f.ne.clear();
    }
    pub fn assume_ne(&mut self, t: Tm, v: i128) {
        if is_summary(t) {
            return;
        }
        let f = self.facts.entry(t).or_default();
        if f.lo == Some(v) {
            f.lo = Some(v + 1);
        } else if f.hi == Some(v) {
            f.hi = Some(v - 1);
        } else if f.lo.is_none_or(|l| v > l) && f.hi.is_none_or(|h| v < h) {
            f.ne.insert(v);
        }
        // tighten
        while let Some(l) = f.lo {
            if f.ne.remove(&l) {
                f.lo = Some(l + 1);
            } else {
                break;
            }
        }
        while let Some(h) = f.hi {
            if f.ne.remove(&h) {
                f.hi = Some(h - 1);
            } else {
                break;
            }
        }
    }
    pub fn assume_ge(&mut self, t: Tm, v: i128) {
        if is_summary(t) {
            return;
        }
        let f = self.facts.entry(t).or_default();
        if f.lo.is_none_or(|l| l < v) {
            f.lo = Some(v);
        }
        f.ne.retain(|x| *x > v);
    }
    pub fn assume_le(&mut self, t: Tm, v: i128) {
        if is_summary(t) {
            return;
        }
        let f = self.facts.entry(t).or_default();
        if f.hi.is_none_or(|h| h > v) {
            f.hi = Some(v);
        }
        f.ne.retain(|x| *x < v);
    }
    pub fn infeasible(&self, t: Tm) -> bool {
        match self.facts.get(&t) {
            Some(f) => matches!((f.lo, f.hi), (Some(l), Some(h)) if l > h),
            None => false,
        }
    }
}

/// Rewrites every term in v by f (applied to leaves/terms bottom-up through `rn`).
pub struct Rename<'a> {
    pub f: &'a dyn Fn(Tm) -> Option<V>,
    pub cache: HashMap<Tm, Option<V>>,
}
impl<'a> Rename<'a> {
    pub fn new(f: &'a dyn Fn(Tm) -> Option<V>) -> Self {
        Rename { f, cache: HashMap::new() }
    }
    fn term(&mut self, t: Tm) -> Option<V> {
        if let Some(r) = self.cache.get(&t) {
            return r.clone();
        }
        let r = match (self.f)(t) {
            Some(v) => Some(v),
            None => {
                let n = node(t);
                let mut ch = false;
                let args: Vec<V> = if is_leaf(&n.op) {
                    n.args.clone()
                } else {
                    n.args.iter().map(|a| match self.val(a) {
                        Some(x) => {
                            ch = true;
                            x
                        }
                        None => a.clone(),
                    }).collect()
                };
                if ch {
                    let t2 = mk(&n.op, args);
                    if let Some(d) = domain(t) {
                        set_domain(t2, d);
                    }
                    Some(V::Sym(t2, 0))
                } else {
                    None
                }
            }
        };
        self.cache.insert(t, r.clone());
        r
    }
    pub fn val(&mut self, v: &V) -> Option<V> {
        match v {
            V::Sym(t, k) => self.term(*t).map(|r| match r {
                V::Sym(t2, k2) => V::Sym(t2, k2 + k),
                V::Int(i) => V::Int(i + k),
                o => o,
            }),
            V::Agg(n, f) => {
                let mut ch = false;
                let nf: Vec<V> = f.iter().map(|x| match self.val(x) {
                    Some(y) => {
                        ch = true;
                        y
                    }
                    None => x.clone(),
                }).collect();
                ch.then(|| V::Agg(*n, Rc::new(nf)))
            }
            V::Ref(p, m) => self.place(p).map(|p| V::Ref(Rc::new(p), *m)),
            _ => None,
        }
    }
    fn place(&mut self, p: &Pl) -> Option<Pl> {
        let mut ch = false;
        let obj = match &p.obj {
            Obj::Ptr(t) => match self.term(*t) {
                Some(V::Sym(t2, _)) => {
                    ch = true;
                    Obj::Ptr(t2)
                }
                _ => p.obj.clone(),
            },
            o => o.clone(),
        };
        let path = p.path.iter().map(|e| match e {
            PE::I(v) => match self.val(v) {
                Some(x) => {
                    ch = true;
                    PE::I(x)
                }
                None => e.clone(),
            },
            _ => e.clone(),
        }).collect();
        ch.then_some(Pl { obj, path })
    }
    pub fn state(&mut self, st: &mut State) {
        let keys: Vec<Obj> = st.mem.keys().cloned().collect();
        let mut moved = vec![];
        for k in keys {
            if let Some(nv) = self.val(&st.mem[&k]) {
                st.mem.insert(k.clone(), nv);
            }
            if let Obj::Ptr(t) = &k {
                if let Some(V::Sym(t2, _)) = self.term(*t) {
                    moved.push((k.clone(), Obj::Ptr(t2)));
                }
            }
        }
        for (a, b) in moved {
            let v = st.mem.remove(&a).unwrap();
            match st.mem.get(&b) {
                // two objects collapse into one summary object: its content is unknown
                Some(o) if *o != v => {
                    st.mem.insert(b.clone(), sym("any", vec![vstr(&show_obj(&b))]));
                }
                _ => {
                    st.mem.insert(b, v);
                }
            }
        }
        let mut nf: BTreeMap<Tm, Fact> = BTreeMap::new();
        for (t, f) in std::mem::take(&mut st.facts) {
            let (t2, f2) = match self.term(t) {
                None => (t, f),
                Some(V::Sym(t2, k)) => {
                    let mut f = f;
                    f.lo = f.lo.map(|x| x - k);
                    f.hi = f.hi.map(|x| x - k);
                    f.ne = f.ne.into_iter().map(|x| x - k).collect();
                    (t2, f)
                }
                Some(_) => continue,
            };
            match nf.remove(&t2) {
                Some(o) => {
                    // summary terms: join; others: conjunction of what is known
                    let j = if is_summary(t2) { o.join(&f2) } else { conj(o, f2) };
                    if !j.trivial() {
                        nf.insert(t2, j);
                    }
                }
                None => {
                    nf.insert(t2, f2);
                }
            }
        }
        st.facts = nf;
    }
}

pub fn conj(a: Fact, b: Fact) -> Fact {
    Fact {
        lo: a.lo.max(b.lo),
        hi: match (a.hi, b.hi) {
            (Some(x), Some(y)) => Some(x.min(y)),
            (x, None) => x,
            (None, y) => y,
        },
        ne: a.ne.union(&b.ne).copied().collect(),
        streq: a.streq.or(b.streq),
        strne: a.strne.union(&b.strne).cloned().collect(),
    }
}

pub fn val_leaves(v: &V, out: &mut BTreeSet<Tm>) {
    match v {
        V::Sym(t, _) => out.extend(leaves(*t).iter().copied()),
        V::Agg(_, f) => f.iter().for_each(|x| val_leaves(x, out)),
        V::Ref(p, _) => {
            if let Obj::Ptr(t) = &p.obj {
                out.extend(leaves(*t).iter().copied());
            }
            for e in &p.path {
                if let PE::I(v) = e {
                    val_leaves(v, out)
                }
            }
        }
        _ => {}
    }
}
pub fn val_objs(v: &V, out: &mut Vec<Obj>) {
    match v {
        V::Agg(_, f) => f.iter().for_each(|x| val_objs(x, out)),
        V::Ref(p, _) => {
            out.push(p.obj.clone());
        }
        V::Sym(t, _) => {
            for a in &node(*t).args {
                val_objs(a, out)
            }
        }
        _ => {}
    }
}

thread_local! {
    static ORIGINS: RefCell<Vec<V>> = const { RefCell::new(vec![]) };
}
pub fn origin_id(v: &V) -> i128 {
    ORIGINS.with(|o| {
        let mut o = o.borrow_mut();
        let i = o.iter().position(|x| x == v).unwrap_or_else(|| {
            o.push(v.clone());
            o.len() - 1
        });
        i as i128
    })
}
pub fn origin_of_id(i: i128) -> Option<V> {
    ORIGINS.with(|o| o.borrow().get(i as usize).cloned())
}
fn seg(op: &str) -> &str {
    let op = op.split(':').next().filter(|x| *x == "collect").unwrap_or(op);
    op.trim_end_matches('!').rsplit("::").next().unwrap_or(op)
}
/// the iterator, from before it was advanced
pub fn origin(v: &V) -> Option<V> {
    let V::Sym(t, 0) = v else { return None };
    let n = node(*t);
    if n.op.ends_with("'!") {
        return n.args.first().and_then(origin);
    }
    if &*n.op == "widen" {
        return match n.args.get(3) {
            Some(V::Int(i)) => origin_of_id(*i),
            _ => None,
        };
    }
    match seg(&n.op) {
        // the iterator inside of an adaptor
        "f" => n.args.first().and_then(origin).filter(|o| matches!(o, V::Sym(t, _) if matches!(seg(&op_of(*t)), "skip" | "fuse" | "enumerate"))),
        "arg" | "children_with_tokens" | "children" | "filter" | "into_iter" | "iter" | "enumerate" | "peekable" | "skip" | "fuse" | "by_ref" | "cloned" | "copied" | "rev" | "take" | "map" | "flat_map" | "chain" | "skip_while" | "take_while" | "step_by" | "filter_map" | "zip" | "drain" => Some(v.clone()),
        _ => None,
    }
}
/// what is iterated over, and the adaptors in between (outermost first)
pub fn chain(v: &V) -> Option<(V, Vec<(String, Vec<V>)>)> {
    let mut cur = v.clone();
    let mut ad = vec![];
    for _ in 0..40 {
        let V::Sym(t, 0) = &cur else { return None };
        let n = node(*t);
        if n.op.ends_with("'!") {
            ad.push((seg(n.op.trim_end_matches("'!")).to_string(), vec![]));
        } else {
            let s = seg(&n.op).to_string();
            if s == "f" {
                cur = n.args[0].clone();
                continue;
            }
            if s == "arg" {
                return Some((cur, ad));
            }
            if s == "children_with_tokens" || s == "children" {
                ad.push((s, vec![]));
                return Some((n.args[0].clone(), ad));
            }
            if n.args.is_empty() {
                return None;
            }
            let flat = s == "flat_map";
            ad.push((s, n.args[1..].to_vec()));
            if flat {
                return Some((n.args[0].clone(), ad));
            }
        }
        cur = n.args[0].clone();
    }
    None
}

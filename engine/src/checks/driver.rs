//! Modular analysis of mutually recursive functions: every function that is reached recursively is
//! analysed once from a generic entry state; calls to it use its contract, and the same contract is
//! demanded of the function itself (induction over the depth of the recursion).
use super::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet};

/// a place reachable through a `&mut` parameter
#[derive(Clone)]
pub struct Leaf {
    pub arg: usize,
    pub path: Vec<PE>,
    pub name: String,
    pub ty: Ty,
}
#[derive(Clone)]
pub struct Cut {
    pub fid: u32,
    pub name: String,
    pub ptys: Vec<Ty>,
    pub ret: Ty,
    pub leaves: Vec<Leaf>,
}

/// one obligation of a property
#[derive(Clone)]
pub struct Ob {
    pub prop: &'static str,
    pub key: String,
    pub loc: String,
    pub ok: bool,
    pub msg: String,
    pub path: Vec<String>,
}

pub trait Policy {
    /// number of states kept apart where paths meet
    fn max_join(&self) -> usize {
        300
    }
    /// entry states of a recursive function (arguments are `arg(i)`)
    fn entries(&self, cx: &mut Interp, cut: &Cut, args: &[V]) -> Vec<(State, Vec<V>)>;
    /// must the leaf be unchanged on success?
    fn preserved(&self, cut: &Cut, leaf: &Leaf) -> bool;
    fn at_call(&self, _cx: &mut Interp, _cut: &Cut, _c: &Call, _st: &mut State, _d: &Driver) {}
    /// effect on the ghosts of a call to a recursive function; ok is false for the failing outcome
    fn contract(&self, _cx: &mut Interp, _cut: &Cut, _c: &Call, _st: &mut State, _ok: bool, _v: &mut V) {}
    fn exit(&self, cx: &mut Interp, cut: &Cut, args: &[V], st: &State, v: &V, d: &Driver);
    fn emit(&self, _cx: &mut Interp, _c: &Call, _st: &mut State, _sink: &V, _pieces: &[V], _d: &Driver) {}
    fn call(&self, _cx: &mut Interp, _c: &Call, _st: &State, _d: &Driver) -> Option<Outs> {
        None
    }
    fn after(&self, _cx: &mut Interp, _c: &Call, outs: Outs, _d: &Driver) -> Outs {
        outs
    }
    fn inline(&self, _name: &str, _krate: &str) -> Option<bool> {
        None
    }
    fn panics(&self, _cx: &mut Interp, _st: &State, _site: &Site, _what: &str, _d: &Driver) {}
    fn opaque(&self, _cx: &mut Interp, _c: &Call, _st: &State, _d: &Driver) {}
    fn never(&self, _cx: &mut Interp, _c: &Call, _st: &State, _d: &Driver) -> bool {
        false
    }
    /// replaces the application of the contract
    fn apply(&self, _cx: &mut Interp, _cut: &Cut, _c: &Call, _st: &State, _d: &Driver) -> Option<Outs> {
        None
    }
    fn at_head(&self, _cx: &mut Interp, _b: &BodyInfo, _head: usize, _depth: u32, _st: &mut State, _d: &Driver) {}
    fn leave(&self, _cx: &mut Interp, _b: &BodyInfo, _depth: u32, _st: &mut State, _d: &Driver) {}
    fn split_head(&self, _cx: &mut Interp, _b: &BodyInfo, _head: usize, st: State, _d: &Driver) -> Vec<State> {
        vec![st]
    }
    /// paths that exist with the contracts of one round exist in the next as well
    fn cumulative(&self) -> bool {
        false
    }
    /// after each round; true if there has to be another one
    fn round(&self, _dirty: bool) -> bool {
        false
    }
    /// does the function get a contract although no recursion goes through it any more?
    fn also_cut(&self, _fid: u32) -> bool {
        false
    }
    /// when everything has been analysed and nothing has to be repeated
    fn done(&self, _d: &Driver) {}
}

pub struct Driver {
    /// the contracts that were found have grown: everything is analysed once more
    pub again: Cell<bool>,
    pub pol: Box<dyn Policy>,
    pub cuts: RefCell<BTreeMap<u32, Rc<Cut>>>,
    pub dirty: Cell<bool>,
    pub obs: RefCell<BTreeMap<(&'static str, String), Ob>>,
    pub me: RefCell<std::rc::Weak<Driver>>,
    pub stats: RefCell<BTreeMap<String, u64>>,
    /// while a recursive function is found, nothing that is reported counts
    pub quiet: Cell<bool>,
}

pub fn is_result(ty: Ty) -> bool {
    adt_name(ty).is_some_and(|n| n.ends_with("result::Result"))
}
pub fn type_args(ty: Ty) -> Vec<Ty> {
    match rigid(ty) {
        Some(RigidTy::Adt(_, a)) => a
            .0
            .iter()
            .filter_map(|g| match g {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            })
            .collect(),
        _ => vec![],
    }
}
fn leaves_of(ty: Ty, arg: usize, path: Vec<PE>, name: String, out: &mut Vec<Leaf>) {
    if let Some(RigidTy::Adt(d, a)) = rigid(ty) {
        if matches!(d.kind(), AdtKind::Struct) && is_ours(&d.krate().name.to_string()) {
            let v = &d.variants()[0];
            let fs = v.fields();
            for (i, f) in fs.iter().enumerate() {
                let mut p = path.clone();
                p.push(PE::F { var: 0, idx: i as u32, n: fs.len() as u32 });
                leaves_of(f.ty_with_args(&a), arg, p, format!("{name}.{}", f.name), out);
            }
            return;
        }
    }
    out.push(Leaf { arg, path, name, ty });
}

impl Driver {
    pub fn new(pol: Box<dyn Policy>) -> Rc<Driver> {
        let d = Rc::new(Driver {
            again: Cell::new(false),
            pol,
            cuts: RefCell::new(BTreeMap::new()),
            dirty: Cell::new(false),
            obs: RefCell::new(BTreeMap::new()),
            me: RefCell::new(std::rc::Weak::new()),
            stats: RefCell::new(BTreeMap::new()),
            quiet: Cell::new(false),
        });
        *d.me.borrow_mut() = Rc::downgrade(&d);
        d
    }
    pub fn count(&self, k: &str) {
        *self.stats.borrow_mut().entry(k.to_string()).or_default() += 1;
    }
    /// records an obligation; a failure outweighs successes under the same key
    pub fn ob(&self, prop: &'static str, key: String, loc: String, ok: bool, msg: String, st: &State) {
        if self.quiet.get() {
            return;
        }
        let mut m = self.obs.borrow_mut();
        match m.get_mut(&(prop, key.clone())) {
            Some(o) if !o.ok || ok => {}
            _ => {
                let path = if ok { vec![] } else { render(st) };
                m.insert((prop, key.clone()), Ob { prop, key, loc, ok, msg, path });
            }
        }
    }
    fn add_cut(&self, fid: u32) {
        let b = body(fid).unwrap();
        let ptys: Vec<Ty> = (1..=b.argc).map(|i| b.tys[i]).collect();
        let mut leaves = vec![];
        for (i, t) in ptys.iter().enumerate() {
            if let Some((inner, true)) = pointee(*t) {
                if adt_name(inner).is_some_and(|n| n.ends_with("fmt::Formatter")) {
                    continue;
                }
                leaves_of(inner, i, vec![], short_name(&b.names, i + 1), &mut leaves);
            }
        }
        self.cuts.borrow_mut().insert(fid, Rc::new(Cut { fid, name: b.name.clone(), ptys, ret: b.tys[0], leaves }));
    }
    /// analyses the roots and every recursive function they reach
    pub fn run(self: &Rc<Self>, roots: &[u32], secs: u64) -> Interp {
        let mut prev: Option<Interp> = None;
        loop {
            // when only contracts have grown, what was found with the smaller ones still counts
            let keep = prev.is_some() && !self.dirty.get() && self.pol.cumulative();
            self.dirty.set(false);
            self.again.set(false);
            if !keep {
                self.obs.borrow_mut().clear();
                self.stats.borrow_mut().clear();
            }
            let mut cx = Interp::new(self.clone());
            cx.max_join = self.pol.max_join();
            if let (true, Some(p)) = (keep, prev.take()) {
                cx.steps = p.steps;
                cx.analysed = p.analysed;
                cx.opaque = p.opaque;
                cx.callsites = p.callsites;
                cx.incomplete = p.incomplete;
            }
            cx.deadline = std::time::Instant::now() + std::time::Duration::from_secs(secs);
            let cuts: Vec<Rc<Cut>> = self.cuts.borrow().values().cloned().collect();
            for r in roots {
                let b = body(*r).unwrap();
                let args: Vec<V> = (1..=b.argc).map(|i| arg(i - 1, b.tys[i])).collect();
                let cut = Cut { fid: *r, name: b.name.clone(), ptys: (1..=b.argc).map(|i| b.tys[i]).collect(), ret: b.tys[0], leaves: vec![] };
                for (st, a) in self.pol.entries(&mut cx, &cut, &args) {
                    for (s, v) in cx.run_keeping(*r, a.clone(), st, a.clone()) {
                        self.finish(&mut cx, &cut, &a, &s, &v);
                    }
                    if self.dirty.get() {
                        break;
                    }
                }
                if self.dirty.get() {
                    break;
                }
            }
            for cut in &cuts {
                if self.dirty.get() {
                    break;
                }
                let args: Vec<V> = (0..cut.ptys.len()).map(|i| arg(i, cut.ptys[i])).collect();
                for (st, a) in self.pol.entries(&mut cx, cut, &args) {
                    for (s, v) in cx.run_keeping(cut.fid, a.clone(), st, a.clone()) {
                        self.finish(&mut cx, cut, &a, &s, &v);
                    }
                    if self.dirty.get() {
                        break;
                    }
                }
            }
            if self.pol.round(self.dirty.get()) {
                self.again.set(true);
            }
            if std::env::var("MXSA_ROUND").is_ok() {
                eprintln!("round: {} cuts, dirty {}, again {}, {} steps", cuts.len(), self.dirty.get(), self.again.get(), cx.steps);
            }
            if !self.dirty.get() && !self.again.get() {
                self.pol.done(self);
                return cx;
            }
            prev = Some(cx);
        }
    }
    fn finish(&self, cx: &mut Interp, cut: &Cut, args: &[V], st: &State, v: &V) {
        self.count("outcomes");
        for (var, s) in if is_result(cut.ret) { cx.cases(st, v, cut.ret) } else { vec![(0, st.clone())] } {
            let v = if is_result(cut.ret) && !matches!(v, V::Agg(..)) { agg(var, vec![cx.proj(v, &PE::F { var, idx: 0, n: 1 })]) } else { v.clone() };
            self.pol.exit(cx, cut, args, &s, &v, self);
        }
    }
    fn apply(&self, cx: &mut Interp, cut: &Cut, c: &Call, st: &State) -> Outs {
        if let Some(o) = self.pol.apply(cx, cut, c, st, self) {
            return o;
        }
        let mut base = st.clone();
        self.pol.at_call(cx, cut, c, &mut base, self);
        self.count("contract calls");
        let mut out = vec![];
        let res = is_result(cut.ret);
        for ok in if res { vec![true, false] } else { vec![true] } {
            let mut s = base.clone();
            for l in &cut.leaves {
                if ok && self.pol.preserved(cut, l) {
                    continue;
                }
                let mut p = cx.deref(&s, &c.args[l.arg]);
                p.path.extend(l.path.iter().cloned());
                let v = cx.fresh(&s, &c.site, &l.name);
                mark_bool(&v, l.ty);
                mark_unsigned(&v, l.ty);
                cx.write(&mut s, &p, v);
            }
            let mut v = if res {
                let ta = type_args(cut.ret);
                let t = ta[if ok { 0 } else { 1 }];
                let x = if t.kind().is_unit() { unit() } else { cx.fresh(&s, &c.site, if ok { "ok" } else { "err" }) };
                agg(if ok { 0 } else { 1 }, vec![x])
            } else if cut.ret.kind().is_unit() {
                unit()
            } else {
                let x = cx.fresh(&s, &c.site, "ret");
                mark_bool(&x, cut.ret);
                mark_unsigned(&x, cut.ret);
                x
            };
            self.pol.contract(cx, cut, c, &mut s, ok, &mut v);
            out.push((s, v));
        }
        out
    }
}
pub fn arg(i: usize, ty: Ty) -> V {
    let v = sym("arg", vec![V::Int(i as i128)]);
    mark_bool(&v, ty);
    mark_unsigned(&v, ty);
    v
}
fn short_name(names: &BTreeMap<usize, String>, i: usize) -> String {
    names.get(&i).cloned().unwrap_or_else(|| format!("arg{i}"))
}

impl Hook for Driver {
    fn call(&self, cx: &mut Interp, c: &Call, st: &State) -> Option<Outs> {
        let cut = self.cuts.borrow().get(&c.fid).cloned();
        if let Some(cut) = cut {
            return Some(self.apply(cx, &cut, c, st));
        }
        if self.pol.also_cut(c.fid) {
            self.add_cut(c.fid);
            self.dirty.set(true);
            cx.deadline = std::time::Instant::now();
            return Some(vec![]);
        }
        self.pol.call(cx, c, st, self)
    }
    fn recursive(&self, cx: &mut Interp, c: &Call, _st: &State) -> Outs {
        if !self.cuts.borrow().contains_key(&c.fid) {
            self.add_cut(c.fid);
        }
        self.dirty.set(true);
        cx.deadline = std::time::Instant::now();
        vec![]
    }
    fn after(&self, cx: &mut Interp, c: &Call, outs: Outs) -> Outs {
        self.pol.after(cx, c, outs, self)
    }
    fn inline(&self, name: &str, krate: &str) -> Option<bool> {
        self.pol.inline(name, krate)
    }
    fn panics(&self, cx: &mut Interp, st: &State, site: &Site, what: &str) {
        self.pol.panics(cx, st, site, what, self)
    }
    fn emit(&self, cx: &mut Interp, c: &Call, st: &mut State, sink: &V, pieces: &[V]) {
        self.pol.emit(cx, c, st, sink, pieces, self)
    }
    fn opaque(&self, cx: &mut Interp, c: &Call, st: &State) {
        self.pol.opaque(cx, c, st, self)
    }
    fn never(&self, cx: &mut Interp, c: &Call, st: &State) -> bool {
        self.pol.never(cx, c, st, self)
    }
    fn at_head(&self, cx: &mut Interp, b: &BodyInfo, head: usize, depth: u32, st: &mut State) {
        self.pol.at_head(cx, b, head, depth, st, self)
    }
    fn split_head(&self, cx: &mut Interp, b: &BodyInfo, head: usize, st: State) -> Vec<State> {
        self.pol.split_head(cx, b, head, st, self)
    }
    fn leave(&self, cx: &mut Interp, b: &BodyInfo, depth: u32, st: &mut State) {
        self.pol.leave(cx, b, depth, st, self)
    }
}

/// the path that led to the state, as source lines
pub fn render(st: &State) -> Vec<String> {
    let mut v = vec![];
    let mut t = st.trace.clone();
    while let Some(n) = t {
        match &n.what {
            Ev::Branch(fid, bb, to) => {
                if let Some(b) = body(*fid) {
                    if is_ours(&b.krate) {
                        let s = |k: usize| Site { fid: *fid, bb: k, span: b.blocks[k].span }.loc();
                        v.push(format!("{}: {} -> {}", b.name, s(*bb as usize), s(*to as usize)));
                    }
                }
            }
            Ev::Note(s) => v.push(s.clone()),
        }
        t = n.prev.clone();
        if v.len() > 400 {
            break;
        }
    }
    v.reverse();
    v.dedup();
    v
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "))
}
pub fn json(name: &str, d: &Driver, cx: &Interp, roots: &[u32], extra: &[(String, String)]) -> String {
    let mut o = String::from("{\n");
    o += &format!("\"study\": {},\n", esc(name));
    o += &format!("\"roots\": {},\n", list(&roots.iter().map(|r| fn_name(*r).to_string()).collect::<Vec<_>>()));
    o += &format!("\"recursive\": {},\n", list(&d.cuts.borrow().values().map(|c| c.name.clone()).collect::<Vec<_>>()));
    let fns: BTreeSet<String> = cx.analysed.iter().map(|f| fn_name(*f).to_string()).collect();
    let ours: Vec<String> = cx.analysed.iter().filter(|f| body(**f).is_some_and(|b| is_ours(&b.krate))).map(|f| fn_name(*f).to_string()).collect::<BTreeSet<_>>().into_iter().collect();
    o += &format!("\"functions\": {},\n\"own_functions\": {},\n", fns.len(), list(&ours));
    o += &format!("\"call_sites\": {},\n\"steps\": {},\n", cx.callsites.len(), cx.steps);
    o += &format!("\"opaque\": {},\n", list(&cx.opaque.keys().cloned().collect::<Vec<_>>()));
    o += &format!("\"incomplete\": {},\n", list(&cx.incomplete.iter().cloned().collect::<Vec<_>>()));
    o += &format!("\"stats\": {{{}}},\n", d.stats.borrow().iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect::<Vec<_>>().join(", "));
    for (k, v) in extra {
        o += &format!("{}: {},\n", esc(k), v);
    }
    o += "\"obligations\": [\n";
    let m = d.obs.borrow();
    let v: Vec<String> = m
        .values()
        .map(|b| format!("{{\"prop\": {}, \"key\": {}, \"loc\": {}, \"ok\": {}, \"msg\": {}, \"path\": {}}}", esc(b.prop), esc(&b.key), esc(&b.loc), b.ok, esc(&b.msg), list(&b.path)))
        .collect();
    o += &v.join(",\n");
    o += "\n]\n}\n";
    o
}

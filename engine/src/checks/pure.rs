//! Effects: which functions can be reached from the public entry points, and does any function of
//! this repository touch anything but its arguments?
use super::driver::esc;
use super::*;
use rustc_public::mir::alloc::GlobalAlloc;
use rustc_public::mir::mono::{InstanceKind, StaticDef};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

struct Walk {
    queue: VecDeque<u32>,
    from: BTreeMap<u32, Option<(u32, String)>>,
    statics: BTreeMap<String, (StaticDef, u32, String)>,
    /// function of ours -> what is wrong with it
    bad: BTreeMap<u32, Vec<(String, String)>>,
    edges: usize,
    opaque: BTreeSet<String>,
    /// calls that fill a cell which is initialised once
    inits: Vec<(u32, String, String)>,
}

struct V2<'a> {
    w: &'a mut Walk,
    fid: u32,
    ours: bool,
    /// pointers must not be looked at as numbers
    strict: bool,
    body: &'a Body,
}

fn line(s: &Span) -> String {
    let l = s.get_lines();
    let f = s.get_filename().to_string();
    let f = match f.find("crates/") {
        Some(i) => f[i..].to_string(),
        None => f,
    };
    format!("{}:{}", f, l.start_line)
}

/// what makes a type changeable behind a shared reference
fn interior(ty: Ty, seen: &mut BTreeSet<String>, d: u32) -> Option<String> {
    if d > 12 {
        return None;
    }
    match rigid(ty)? {
        RigidTy::Adt(def, args) => {
            let full = norm(&def.name().to_string());
            let n = crate::models::last_seg(&full).to_string();
            let kr = def.krate().name.to_string();
            if n == "PhantomData" {
                return None;
            }
            let std = matches!(kr.as_str(), "core" | "std" | "alloc" | "once_cell");
            let ts: Vec<Ty> = args.0.iter().filter_map(|g| g.ty().copied()).collect();
            if std && matches!(n.as_str(), "Lazy" | "LazyLock" | "OnceLock" | "OnceCell" | "OnceBox") {
                // initialised at most once; with what is checked elsewhere
                return ts.first().and_then(|t| interior(*t, seen, d + 1));
            }
            if std && (matches!(n.as_str(), "UnsafeCell" | "SyncUnsafeCell" | "Cell" | "RefCell" | "Mutex" | "RwLock" | "LazyCell" | "Once" | "Condvar" | "Barrier" | "ReentrantLock" | "OnceNonZeroUsize" | "OnceBool" | "Sender" | "Receiver") || n.starts_with("Atomic")) {
                return Some(full);
            }
            if std && n == "RandomState" {
                return Some(full);
            }
            for t in ts {
                if let Some(x) = interior(t, seen, d + 1) {
                    return Some(x);
                }
            }
            if is_ours(&kr) || !std {
                if !seen.insert(format!("{ty}")) {
                    return None;
                }
                for v in def.variants() {
                    for f in v.fields() {
                        if let Some(x) = interior(f.ty_with_args(&args), seen, d + 1) {
                            return Some(format!("{x} in {full}.{}", f.name));
                        }
                    }
                }
            }
            None
        }
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) | RigidTy::Slice(t) | RigidTy::Array(t, _) => interior(t, seen, d + 1),
        RigidTy::Tuple(ts) => ts.iter().find_map(|t| interior(*t, seen, d + 1)),
        _ => None,
    }
}

pub fn random(ty: Ty, d: u32) -> bool {
    if d > 8 {
        return false;
    }
    match rigid(ty) {
        Some(RigidTy::Adt(def, args)) => norm(&def.name().to_string()).ends_with("RandomState") || args.0.iter().filter_map(|g| g.ty().copied()).any(|t| random(t, d + 1)),
        Some(RigidTy::Ref(_, t, _)) | Some(RigidTy::RawPtr(t, _)) | Some(RigidTy::Slice(t)) => random(t, d + 1),
        Some(RigidTy::Tuple(ts)) => ts.iter().any(|t| random(*t, d + 1)),
        _ => false,
    }
}

/// an outside function that must not be called
fn denied(name: &str, inst: &Instance) -> Option<String> {
    let n = norm(name);
    let (slf, tr) = crate::models::split(&n);
    let slf = slf.trim_start_matches('&').trim_start_matches("mut ").to_string();
    let last = crate::models::last_seg(&n);
    for p in ["std::env::", "std::fs::", "std::net::", "std::process::", "std::thread::", "std::io::", "std::os::", "std::random::", "core::arch::", "std::arch::"] {
        if n.starts_with(p) || slf.starts_with(p) || (slf.clone() + "::").starts_with(p) {
            return Some(format!("calls {n}"));
        }
        if tr.starts_with(p) && p == "std::io::" {
            return Some(format!("calls {n}"));
        }
    }
    for p in ["std::time::Instant", "std::time::SystemTime", "std::sync::atomic::Atomic", "core::sync::atomic::Atomic", "std::thread::LocalKey"] {
        if slf.starts_with(p) {
            return Some(format!("calls {n}"));
        }
    }
    if slf.ends_with("RandomState") && last != "clone" && !(last == "new" || last == "default") {
        return Some(format!("hashes with a random seed ({n})"));
    }
    if slf.ends_with("rt::Argument") && last == "new_pointer" {
        return Some("prints an address".to_string());
    }
    if matches!(last, "addr" | "expose_provenance" | "expose_addr") && (n.contains("ptr::const_ptr") || n.contains("ptr::mut_ptr") || slf.starts_with('*')) {
        return Some("looks at an address".to_string());
    }
    let ordered = matches!(last, "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "into_iter" | "into_keys" | "into_values" | "drain" | "retain" | "extract_if" | "next" | "fmt" | "union" | "difference" | "intersection" | "symmetric_difference");
    if ordered && inst.args().0.iter().filter_map(|g| g.ty().copied()).any(|t| random(t, 0)) {
        return Some(format!("depends on the order of a randomly seeded hash table ({n})"));
    }
    if ordered && last == "into_iter" {
        if let Some(RigidTy::FnDef(_, a)) = rigid(inst.ty()) {
            if a.0.iter().filter_map(|g| g.ty().copied()).any(|t| random(t, 0)) {
                return Some(format!("depends on the order of a randomly seeded hash table ({n})"));
            }
        }
    }
    None
}

impl Walk {
    fn add(&mut self, inst: Instance, from: Option<(u32, String)>) {
        if matches!(inst.kind, InstanceKind::Virtual { .. } | InstanceKind::Intrinsic | InstanceKind::LlvmIntrinsic) {
            self.opaque.insert(inst.name().to_string());
            return;
        }
        let id = intern_fn(inst);
        if !self.from.contains_key(&id) {
            self.from.insert(id, from);
            self.queue.push_back(id);
        }
    }
    fn flag(&mut self, fid: u32, what: String, loc: String) {
        let v = self.bad.entry(fid).or_default();
        if !v.iter().any(|x| x.0 == what) {
            v.push((what, loc));
        }
    }
    fn memory(&mut self, a: &rustc_public::ty::Allocation, fid: u32, loc: &str, d: u32) {
        if d > 6 {
            return;
        }
        for (_, p) in &a.provenance.ptrs {
            match GlobalAlloc::from(p.0) {
                GlobalAlloc::Function(i) => self.add(i, Some((fid, loc.to_string()))),
                GlobalAlloc::Static(s) => {
                    self.statics.entry(s.name().to_string()).or_insert((s, fid, loc.to_string()));
                }
                GlobalAlloc::Memory(m) => self.memory(&m, fid, loc, d + 1),
                _ => {}
            }
        }
    }
    fn path(&self, fid: u32) -> Vec<String> {
        let mut out = vec![];
        let mut cur = fid;
        for _ in 0..200 {
            match self.from.get(&cur) {
                Some(Some((p, l))) => {
                    if body(*p).is_some_and(|b| is_ours(&b.krate)) {
                        out.push(format!("{} is reached from {}: {}", fn_name(cur), fn_name(*p), l));
                    }
                    cur = *p;
                }
                _ => break,
            }
        }
        out.reverse();
        out
    }
    /// may the static be relied on to be the same all the time?
    fn check_static(&mut self, name: &str, s: StaticDef, fid: u32, loc: &str) -> Option<String> {
        let kr = s.krate().name.to_string();
        match s.eval_initializer() {
            Ok(a) => self.memory(&a, fid, loc, 0),
            Err(_) => {
                self.opaque.insert(format!("initializer of {name}"));
            }
        }
        if !is_ours(&kr) {
            return None;
        }
        if rustc_middle::ty::tls::with(|tcx| tcx.is_mutable_static(rustc_public::rustc_internal::internal(tcx, s.0))) {
            return Some("is a mutable static".to_string());
        }
        interior(s.ty(), &mut BTreeSet::new(), 0).map(|x| format!("can be changed while the program runs: {x}"))
    }
}

impl MirVisitor for V2<'_> {
    fn visit_terminator(&mut self, t: &Terminator, l: Location) {
        let loc = line(&t.source_info.span);
        match &t.kind {
            TerminatorKind::Call { func, args, .. } => {
                let ty = func.ty(self.body.locals());
                if let Ok(ty) = ty {
                    if let Some(RigidTy::FnDef(d, a)) = rigid(ty) {
                        self.w.edges += 1;
                        match Instance::resolve(d, &a) {
                            Ok(i) => {
                                let name = i.name().to_string();
                                let kr = i.def.krate().name.to_string();
                                if self.ours && !is_ours(&kr) {
                                    if let Some(x) = denied(&name, &i) {
                                        self.w.flag(self.fid, x, loc.clone());
                                    }
                                    let last = crate::models::last_seg(&norm(&name)).to_string();
                                    let slf = crate::models::split(&norm(&name)).0;
                                    if slf.ends_with("OnceLock") || slf.ends_with("OnceCell") || slf.ends_with("OnceBox") {
                                        let captures = args.iter().skip(1).any(|o| match o.ty(self.body.locals()).ok().and_then(rigid) {
                                            Some(RigidTy::Closure(_, g)) => {
                                                // the last argument is the tuple of what is captured
                                                !matches!(g.0.last().and_then(|g| g.ty().copied()).and_then(rigid), Some(RigidTy::Tuple(t)) if t.is_empty())
                                            }
                                            Some(RigidTy::FnDef(..)) => false,
                                            _ => true,
                                        });
                                        if matches!(last.as_str(), "set" | "try_insert" | "take" | "get_mut") || captures {
                                            self.w.inits.push((self.fid, last, loc.clone()));
                                        }
                                    }
                                }
                                if i.is_foreign_item() && self.ours {
                                    self.w.flag(self.fid, format!("calls the foreign function {name}"), loc.clone());
                                }
                                if matches!(i.kind, InstanceKind::Virtual { .. }) {
                                    self.w.opaque.insert(name);
                                } else {
                                    self.w.add(i, Some((self.fid, loc.clone())));
                                }
                            }
                            Err(_) => {
                                self.w.opaque.insert(format!("{ty}"));
                            }
                        }
                    }
                }
            }
            TerminatorKind::Drop { place, .. } => {
                if let Ok(ty) = place.ty(self.body.locals()) {
                    let i = Instance::resolve_drop_in_place(ty);
                    if !i.is_empty_shim() {
                        self.w.add(i, Some((self.fid, loc.clone())));
                    }
                }
            }
            TerminatorKind::InlineAsm { .. } if self.ours => self.w.flag(self.fid, "contains assembly code".into(), loc.clone()),
            _ => {}
        }
        self.super_terminator(t, l);
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        match r {
            Rvalue::ThreadLocalRef(c) if self.ours => self.w.flag(self.fid, format!("uses the thread-local {}", c.name()), line(&l.span())),
            Rvalue::Aggregate(AggregateKind::Closure(d, a), _) => {
                if let Ok(i) = closure_item(*d, a) {
                    self.w.add(i, Some((self.fid, line(&l.span()))));
                }
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(self.body.locals()).ok();
                match k {
                    CastKind::PointerExposeAddress if self.ours && self.strict => self.w.flag(self.fid, "looks at an address".into(), line(&l.span())),
                    CastKind::Transmute if self.ours && self.strict => {
                        let ptr = |t: Ty| matches!(rigid(t), Some(RigidTy::RawPtr(..) | RigidTy::Ref(..) | RigidTy::FnPtr(..)));
                        let int = |t: Ty| int_bits(t).is_some();
                        if from.is_some_and(ptr) && int(*t) {
                            self.w.flag(self.fid, "looks at an address".into(), line(&l.span()));
                        }
                    }
                    CastKind::PointerCoercion(PointerCoercion::Unsize) => {
                        let inner = |t: Ty| pointee(t).map(|x| x.0).or_else(|| super::driver::type_args(t).first().copied());
                        if let (Some(a), Some(b)) = (from.and_then(inner), inner(*t)) {
                            if let Some(RigidTy::Dynamic(ps, _)) = rigid(b) {
                                self.unsize(a, &ps, &line(&l.span()));
                            }
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        match c.kind() {
            ConstantKind::Allocated(a) => {
                let a = a.clone();
                self.w.memory(&a, self.fid, &line(&l.span()), 0);
            }
            ConstantKind::ZeroSized => {
                // a function that is passed around
                match rigid(c.ty()) {
                    Some(RigidTy::FnDef(d, a)) => {
                        if let Ok(i) = Instance::resolve(d, &a) {
                            if !matches!(i.kind, InstanceKind::Virtual { .. }) {
                                if self.ours && !is_ours(&i.def.krate().name.to_string()) {
                                    if let Some(x) = denied(&i.name().to_string(), &i) {
                                        self.w.flag(self.fid, x, line(&l.span()));
                                    }
                                }
                                self.w.add(i, Some((self.fid, line(&l.span()))));
                            }
                        }
                    }
                    Some(RigidTy::Closure(d, a)) => {
                        if let Ok(i) = closure_item(d, &a) {
                            self.w.add(i, Some((self.fid, line(&l.span()))));
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        self.super_mir_const(c, l);
    }
}
impl V2<'_> {
    /// the methods of a trait object that is made from a value of this type
    fn unsize(&mut self, ty: Ty, ps: &[Binder<ExistentialPredicate>], loc: &str) {
        for p in ps {
            if let ExistentialPredicate::Trait(t) = &p.value {
                for it in t.def_id.associated_items() {
                    if let AssocKind::Fn { .. } = it.kind {
                        let d = FnDef(it.def_id.def_id());
                        let args = GenericArgs(vec![GenericArgKind::Type(ty)]);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::resolve(d, &args)));
                        if let Ok(Ok(i)) = r {
                            self.w.add(i, Some((self.fid, loc.to_string())));
                        }
                    }
                }
            }
        }
    }
}

pub fn run(out: &str) {
    let mut w = Walk { queue: VecDeque::new(), from: BTreeMap::new(), statics: BTreeMap::new(), bad: BTreeMap::new(), edges: 0, opaque: BTreeSet::new(), inits: vec![] };
    let roots: Vec<u32> = ["root_convert_text", "root_convert_math", "root_parse", "root_parse_without_macro"].iter().filter_map(|r| find_root(r)).collect();
    let mut obs: Vec<(String, String, bool, String, Vec<String>)> = vec![];
    for r in &roots {
        w.add(fn_of(*r), None);
    }
    let mut done: BTreeSet<String> = BTreeSet::new();
    let mut bodies = 0;
    let mut has_once = false;
    loop {
        while let Some(id) = w.queue.pop_front() {
            let inst = fn_of(id);
            let Some(b) = inst.body() else {
                w.opaque.insert(inst.name().to_string());
                continue;
            };
            bodies += 1;
            let kr = inst.def.krate().name.to_string();
            let ours = is_ours(&kr) && kr != "vharness" && inst.kind == InstanceKind::Item;
            let strict = ours && kr != "mitex_spec";
            let mut v = V2 { w: &mut w, fid: id, ours, strict, body: &b };
            v.visit_body(&b);
        }
        let next: Vec<(String, (StaticDef, u32, String))> = w.statics.iter().filter(|(n, _)| !done.contains(*n)).map(|(n, s)| (n.clone(), s.clone())).collect();
        if next.is_empty() {
            break;
        }
        for (n, (s, fid, loc)) in next {
            done.insert(n.clone());
            let bad = w.check_static(&n, s, fid, &loc);
            if is_ours(&s.krate().name.to_string()) {
                let t = format!("{}", s.ty());
                has_once |= t.contains("OnceLock") || t.contains("OnceCell") || t.contains("OnceBox");
                let path = w.path(fid);
                obs.push((format!("static {n}"), loc, bad.is_none(), bad.map(|b| format!("{n} {b}")).unwrap_or_default(), path));
            }
        }
    }
    if has_once {
        for (fid, what, loc) in w.inits.clone() {
            w.flag(fid, format!("fills a global cell with what depends on the call ({what})"), loc);
        }
    }
    // the specification is shared between calls as well
    for r in &roots {
        if let Some(b) = fn_of(*r).body() {
            for (i, d) in b.arg_locals().iter().enumerate() {
                let x = interior(d.ty, &mut BTreeSet::new(), 0);
                obs.push((format!("{}: argument {} cannot change while it is shared", fn_name(*r), i), String::new(), x.is_none(), x.unwrap_or_default(), vec![]));
            }
        }
    }
    let mut ours: BTreeMap<String, (bool, String, String, Vec<String>)> = BTreeMap::new();
    for id in w.from.keys() {
        let inst = fn_of(*id);
        let kr = inst.def.krate().name.to_string();
        if !is_ours(&kr) || kr == "vharness" || inst.kind != InstanceKind::Item {
            continue;
        }
        let n = norm(&inst.name().to_string());
        let e = ours.entry(n).or_insert((true, line(&inst.def.span()), String::new(), vec![]));
        if let Some(b) = w.bad.get(id) {
            if e.0 {
                *e = (false, b[0].1.clone(), b.iter().map(|x| format!("{} ({})", x.0, x.1)).collect::<Vec<_>>().join("; "), w.path(*id));
            }
        }
    }
    let names: Vec<String> = ours.keys().cloned().collect();
    for (n, (ok, loc, msg, path)) in ours {
        obs.push((format!("{n}: no effects, nothing but the arguments"), loc, ok, msg, path));
    }
    let list = |v: &[String]| format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(", "));
    let mut o = String::from("{\n");
    o += &format!("\"study\": \"pure\",\n\"roots\": {},\n\"recursive\": [],\n", list(&roots.iter().map(|r| fn_name(*r).to_string()).collect::<Vec<_>>()));
    o += &format!("\"functions\": {},\n\"own_functions\": {},\n\"call_sites\": {},\n\"steps\": 0,\n", bodies, list(&names), w.edges);
    o += &format!("\"opaque\": {},\n\"incomplete\": [],\n", list(&w.opaque.iter().cloned().collect::<Vec<_>>()));
    o += &format!("\"stats\": {{\"statics\": {}, \"own functions\": {}}},\n\"obligations\": [\n", w.statics.len(), names.len());
    o += &obs.iter().map(|(k, l, ok, m, p)| format!("{{\"prop\": \"pure\", \"key\": {}, \"loc\": {}, \"ok\": {}, \"msg\": {}, \"path\": {}}}", esc(k), esc(l), ok, esc(m), list(p))).collect::<Vec<_>>().join(",\n");
    o += "\n]\n}\n";
    std::fs::write(out, o).unwrap();
}

//! Bodies compiled to a compact form: resolved projections, decoded constants, loop heads, liveness.
use crate::types::*;
use crate::val::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::*;
use std::collections::BTreeMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum IProj {
    Deref,
    F(PE),
    Index(usize),
    At(u64, bool),
    Sub(u64, u64, bool),
    Skip,
}
#[derive(Clone, Debug)]
pub struct IPlace {
    pub local: usize,
    pub proj: Vec<IProj>,
    pub ty: Ty,
}
#[derive(Clone, Debug)]
pub enum IOp {
    Place(IPlace),
    Const(V, Ty),
}
impl IOp {
    pub fn ty(&self) -> Ty {
        match self {
            IOp::Place(p) => p.ty,
            IOp::Const(_, t) => *t,
        }
    }
}
#[derive(Clone, Debug)]
pub enum IRv {
    Use(IOp),
    Ref(IPlace, bool),
    Len(IPlace),
    Cast(CastKind, IOp, Ty),
    Bin(BinOp, IOp, IOp, bool),
    Un(UnOp, IOp),
    Discr(IPlace),
    Agg(u32, Vec<IOp>),
    RawPtr(IOp),
    Union(IOp),
    Repeat(IOp, u64),
    Other(String),
}
#[derive(Clone, Debug)]
pub enum ISt {
    Assign(IPlace, IRv),
    SetDiscr(IPlace, u32),
    Dead(usize),
}
#[derive(Clone, Debug)]
pub enum ITm {
    Goto(usize),
    Switch(IOp, Vec<(i128, usize)>, usize),
    Return,
    Unreachable,
    Drop(IPlace, usize),
    Call { func: IOp, callee: Option<u32>, args: Vec<IOp>, dest: IPlace, target: Option<usize> },
    Assert { cond: IOp, expected: bool, kind: AKind, target: usize },
}
#[derive(Clone, Debug)]
pub enum AKind {
    Bounds(IOp, IOp),
    Overflow(BinOp, IOp, IOp),
    Other(String),
}
pub struct IBlock {
    pub st: Vec<(ISt, Span)>,
    pub term: ITm,
    pub span: Span,
}
pub struct BodyInfo {
    pub fid: u32,
    pub inst: Instance,
    pub name: String,
    pub blocks: Vec<IBlock>,
    pub tys: Vec<Ty>,
    pub argc: usize,
    pub spread: Option<usize>,
    pub rpo: Vec<u32>,
    pub head: Vec<bool>,
    /// the blocks of the loop of each head
    pub loops: std::collections::BTreeMap<usize, std::collections::BTreeSet<usize>>,
    pub join: Vec<bool>,
    pub live_in: Vec<Rc<Bits>>,
    pub is_closure: bool,
    pub krate: String,
    pub names: std::collections::BTreeMap<usize, String>,
}
#[derive(Clone, PartialEq, Eq)]
pub struct Bits(Vec<u64>);
impl Bits {
    pub fn new(n: usize) -> Self {
        Bits(vec![0; n / 64 + 1])
    }
    pub fn has(&self, i: usize) -> bool {
        self.0[i / 64] >> (i % 64) & 1 == 1
    }
    pub fn set(&mut self, i: usize) {
        self.0[i / 64] |= 1 << (i % 64)
    }
    pub fn clear(&mut self, i: usize) {
        self.0[i / 64] &= !(1 << (i % 64))
    }
    pub fn or(&mut self, o: &Bits) -> bool {
        let mut ch = false;
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            let n = *a | b;
            ch |= n != *a;
            *a = n;
        }
        ch
    }
}

/// path of a function without its generic arguments
pub fn norm(name: &str) -> String {
    let mut out = String::new();
    let b: Vec<char> = name.chars().collect();
    let mut i = 0;
    while i < b.len() {
        // drop `::<...>` groups
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
            let mut d = 0;
            let mut j = i + 2;
            while j < b.len() {
                if b[j] == '<' {
                    d += 1
                }
                if b[j] == '>' && b[j - 1] != '-' {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                j += 1;
            }
            // `::<impl T>::f` keeps the impl
            let inner: String = b[i + 3..j.min(b.len())].iter().collect();
            if inner.starts_with("impl ") {
                out.push_str("::<");
                out.push_str(&inner);
                out.push('>');
            }
            i = j + 1;
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out
}

pub struct Lower<'a> {
    locals: &'a [LocalDecl],
}
impl<'a> Lower<'a> {
    fn place(&self, p: &Place) -> IPlace {
        let mut ty = self.locals[p.local].ty;
        let mut var = 0u32;
        let mut proj = vec![];
        for e in &p.projection {
            match e {
                ProjectionElem::Deref => {
                    proj.push(IProj::Deref);
                }
                ProjectionElem::Field(i, _) => {
                    proj.push(IProj::F(PE::F { var, idx: *i as u32, n: nfields(ty, var) }));
                }
                ProjectionElem::Index(l) => proj.push(IProj::Index(*l)),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => proj.push(IProj::At(*offset, *from_end)),
                ProjectionElem::Subslice { from, to, from_end } => proj.push(IProj::Sub(*from, *to, *from_end)),
                ProjectionElem::Downcast(_) | ProjectionElem::OpaqueCast(_) => proj.push(IProj::Skip),
            }
            var = match e {
                ProjectionElem::Downcast(v) => variant_pos(ty, *v),
                _ => 0,
            };
            ty = e.ty(ty).unwrap_or(ty);
        }
        IPlace { local: p.local, proj, ty }
    }
    fn op(&self, o: &Operand) -> IOp {
        match o {
            Operand::Copy(p) | Operand::Move(p) => IOp::Place(self.place(p)),
            Operand::Constant(c) => {
                let ty = c.const_.ty();
                IOp::Const(constant(&c.const_), ty)
            }
            Operand::RuntimeChecks(_) => IOp::Const(V::Bool(false), Ty::bool_ty()),
        }
    }
    fn rv(&self, r: &Rvalue) -> IRv {
        match r {
            Rvalue::Use(o, _) => IRv::Use(self.op(o)),
            Rvalue::CopyForDeref(p) => IRv::Use(IOp::Place(self.place(p))),
            Rvalue::Reborrow(_, _, p) => IRv::Use(IOp::Place(self.place(p))),
            Rvalue::Ref(_, k, p) => IRv::Ref(self.place(p), matches!(k, BorrowKind::Mut { .. })),
            Rvalue::AddressOf(k, p) => IRv::Ref(self.place(p), matches!(k, RawPtrKind::Mut)),
            Rvalue::Len(p) => IRv::Len(self.place(p)),
            Rvalue::Cast(k, o, t) => IRv::Cast(*k, self.op(o), *t),
            Rvalue::BinaryOp(b, x, y) => IRv::Bin(*b, self.op(x), self.op(y), false),
            Rvalue::CheckedBinaryOp(b, x, y) => IRv::Bin(*b, self.op(x), self.op(y), true),
            Rvalue::UnaryOp(u, o) => IRv::Un(*u, self.op(o)),
            Rvalue::Discriminant(p) => IRv::Discr(self.place(p)),
            Rvalue::Repeat(o, n) => IRv::Repeat(self.op(o), n.eval_target_usize().unwrap_or(u64::MAX)),
            Rvalue::ThreadLocalRef(c) => IRv::Other(format!("tls {}", c.name())),
            Rvalue::Aggregate(k, ops) => {
                let f: Vec<IOp> = ops.iter().map(|o| self.op(o)).collect();
                match k {
                    AggregateKind::Adt(d, v, _, _, active) => {
                        if active.is_some() {
                            return IRv::Union(f[0].clone());
                        }
                        let vi = d.variants().iter().position(|x| x.idx() == *v).unwrap_or(0);
                        IRv::Agg(vi as u32, f)
                    }
                    AggregateKind::RawPtr(..) => IRv::RawPtr(f[0].clone()),
                    _ => IRv::Agg(0, f),
                }
            }
        }
    }
}
pub fn variant_pos(ty: Ty, v: VariantIdx) -> u32 {
    match rigid(ty) {
        Some(RigidTy::Adt(d, _)) => d.variants().iter().position(|x| x.idx() == v).unwrap_or(0) as u32,
        _ => 0,
    }
}

pub fn constant(c: &MirConst) -> V {
    match c.kind() {
        ConstantKind::Allocated(a) => decode(a, c.ty()),
        ConstantKind::ZeroSized => match rigid(c.ty()) {
            Some(RigidTy::FnDef(d, a)) => match Instance::resolve(d, &a) {
                Ok(i) => V::Fn(intern_fn(i)),
                Err(_) => sym("constant", vec![vstr(&format!("{}", c.ty()))]),
            },
            Some(RigidTy::Adt(..)) | Some(RigidTy::Tuple(_)) | Some(RigidTy::Closure(..)) => zst(c.ty(), 0),
            _ => unit(),
        },
        ConstantKind::Ty(t) => match t.eval_target_usize() {
            Ok(n) => V::Int(n as i128),
            Err(_) => sym("constant", vec![vstr(&format!("{t:?}"))]),
        },
        _ => sym("constant", vec![vstr(&format!("{c:?}"))]),
    }
}
fn zst(ty: Ty, d: u32) -> V {
    let n = nfields(ty, 0);
    if d > 4 {
        return unit();
    }
    agg(0, (0..n).map(|_| unit()).collect())
}

pub fn lower(fid: u32) -> Option<BodyInfo> {
    let inst = fn_of(fid);
    let body = inst.body()?;
    let lw = Lower { locals: body.locals() };
    let tys: Vec<Ty> = body.locals().iter().map(|l| l.ty).collect();
    let mut blocks = vec![];
    for b in &body.blocks {
        let mut st = vec![];
        for s in &b.statements {
            match &s.kind {
                StatementKind::Assign(p, r) => st.push((ISt::Assign(lw.place(p), lw.rv(r)), s.source_info.span)),
                StatementKind::SetDiscriminant { place, variant_index } => {
                    let p = lw.place(place);
                    let v = variant_pos(p.ty, *variant_index);
                    st.push((ISt::SetDiscr(p, v), s.source_info.span));
                }
                StatementKind::StorageDead(l) => st.push((ISt::Dead(*l), s.source_info.span)),
                _ => {}
            }
        }
        let term = match &b.terminator.kind {
            TerminatorKind::Goto { target } => ITm::Goto(*target),
            TerminatorKind::SwitchInt { discr, targets } => {
                let o = lw.op(discr);
                let bits = int_bits(o.ty());
                let br = targets
                    .branches()
                    .map(|(v, t)| {
                        let v = match bits {
                            Some((b, true)) if b < 128 && v >> (b - 1) & 1 == 1 => v as i128 - (1i128 << b),
                            _ => v as i128,
                        };
                        (v, t)
                    })
                    .collect();
                ITm::Switch(o, br, targets.otherwise())
            }
            TerminatorKind::Return => ITm::Return,
            TerminatorKind::Drop { place, target, .. } => ITm::Drop(lw.place(place), *target),
            TerminatorKind::Call { func, args, destination, target, .. } => {
                let f = lw.op(func);
                let callee = match &f {
                    IOp::Const(V::Fn(i), _) => Some(*i),
                    _ => None,
                };
                ITm::Call { func: f, callee, args: args.iter().map(|a| lw.op(a)).collect(), dest: lw.place(destination), target: *target }
            }
            TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                let kind = match msg {
                    AssertMessage::BoundsCheck { len, index } => AKind::Bounds(lw.op(len), lw.op(index)),
                    AssertMessage::Overflow(b, x, y) => AKind::Overflow(*b, lw.op(x), lw.op(y)),
                    m => AKind::Other(m.description().unwrap_or("assert").to_string()),
                };
                ITm::Assert { cond: lw.op(cond), expected: *expected, kind, target: *target }
            }
            _ => ITm::Unreachable,
        };
        blocks.push(IBlock { st, term, span: b.terminator.source_info.span });
    }
    let n = blocks.len();
    let succ: Vec<Vec<usize>> = blocks
        .iter()
        .map(|b| match &b.term {
            ITm::Goto(t) | ITm::Drop(_, t) | ITm::Assert { target: t, .. } => vec![*t],
            ITm::Switch(_, br, o) => br.iter().map(|x| x.1).chain([*o]).collect(),
            ITm::Call { target: Some(t), .. } => vec![*t],
            _ => vec![],
        })
        .collect();
    // reverse postorder, back edges
    let mut rpo = vec![u32::MAX; n];
    let mut head = vec![false; n];
    let mut state = vec![0u8; n];
    let mut order = vec![];
    let mut stk = vec![(0usize, 0usize)];
    state[0] = 1;
    while let Some((b, i)) = stk.pop() {
        if i < succ[b].len() {
            stk.push((b, i + 1));
            let s = succ[b][i];
            match state[s] {
                0 => {
                    state[s] = 1;
                    stk.push((s, 0));
                }
                1 => head[s] = true,
                _ => {}
            }
        } else {
            state[b] = 2;
            order.push(b);
        }
    }
    for (i, b) in order.iter().rev().enumerate() {
        rpo[*b] = i as u32;
    }
    let mut preds = vec![0; n];
    for s in succ.iter().enumerate().filter(|(b, _)| state[*b] == 2).flat_map(|(_, s)| s.iter().collect::<std::collections::BTreeSet<_>>()) {
        preds[*s] += 1;
    }
    let mut loops = std::collections::BTreeMap::new();
    for h in (0..n).filter(|h| head[*h]) {
        let mut set = std::collections::BTreeSet::from([h]);
        let mut todo: Vec<usize> = (0..n).filter(|b| state[*b] == 2 && succ[*b].contains(&h) && rpo[h] <= rpo[*b]).collect();
        while let Some(b) = todo.pop() {
            if set.insert(b) {
                todo.extend((0..n).filter(|p| state[*p] == 2 && succ[*p].contains(&b)));
            }
        }
        loops.insert(h, set);
    }
    let join = preds.iter().map(|p| *p > 1).collect();
    // liveness
    let nl = tys.len();
    let mut gen = vec![];
    for b in &blocks {
        let mut ev: Vec<(bool, usize)> = vec![]; // (is_def, local), in order
        for (s, _) in &b.st {
            match s {
                ISt::Assign(p, r) => {
                    uses_rv(r, &mut ev);
                    def(p, &mut ev);
                }
                ISt::SetDiscr(p, _) => ev.push((false, p.local)),
                ISt::Dead(l) => ev.push((true, *l)),
            }
        }
        match &b.term {
            ITm::Switch(o, ..) => use_op(o, &mut ev),
            ITm::Return => ev.push((false, 0)),
            ITm::Drop(p, _) => use_place(p, &mut ev),
            ITm::Call { func, args, dest, .. } => {
                use_op(func, &mut ev);
                args.iter().for_each(|a| use_op(a, &mut ev));
                def(dest, &mut ev);
            }
            ITm::Assert { cond, kind, .. } => {
                use_op(cond, &mut ev);
                match kind {
                    AKind::Bounds(a, b) | AKind::Overflow(_, a, b) => {
                        use_op(a, &mut ev);
                        use_op(b, &mut ev);
                    }
                    _ => {}
                }
            }
            _ => {}
        }
        gen.push(ev);
    }
    let mut live: Vec<Bits> = vec![Bits::new(nl); n];
    let mut ch = true;
    while ch {
        ch = false;
        for b in (0..n).rev() {
            let mut l = Bits::new(nl);
            for s in &succ[b] {
                l.or(&live[*s]);
            }
            for (d, x) in gen[b].iter().rev() {
                if *d {
                    l.clear(*x)
                } else {
                    l.set(*x)
                }
            }
            if live[b].or(&l) {
                ch = true;
            }
        }
    }
    let mut names = std::collections::BTreeMap::new();
    for v in &body.var_debug_info {
        if let rustc_public::mir::VarDebugInfoContents::Place(p) = &v.value {
            if p.projection.is_empty() {
                names.insert(p.local, v.name.to_string());
            }
        }
    }
    let name = norm(&inst.name());
    let is_closure = matches!(rigid(inst.ty()), Some(RigidTy::Closure(..)));
    Some(BodyInfo {
        fid,
        inst,
        name,
        argc: body.arg_locals().len(),
        spread: body.spread_arg(),
        blocks,
        tys,
        rpo,
        head,
        loops,
        join,
        live_in: live.into_iter().map(Rc::new).collect(),
        is_closure,
        krate: inst.def.krate().name.to_string(),
        names,
    })
}
fn use_place(p: &IPlace, ev: &mut Vec<(bool, usize)>) {
    ev.push((false, p.local));
    for e in &p.proj {
        if let IProj::Index(l) = e {
            ev.push((false, *l));
        }
    }
}
fn def(p: &IPlace, ev: &mut Vec<(bool, usize)>) {
    if p.proj.is_empty() {
        ev.push((true, p.local));
    } else {
        use_place(p, ev);
    }
}
fn use_op(o: &IOp, ev: &mut Vec<(bool, usize)>) {
    if let IOp::Place(p) = o {
        use_place(p, ev)
    }
}
fn uses_rv(r: &IRv, ev: &mut Vec<(bool, usize)>) {
    match r {
        IRv::Use(o) | IRv::Cast(_, o, _) | IRv::Un(_, o) | IRv::RawPtr(o) | IRv::Union(o) | IRv::Repeat(o, _) => use_op(o, ev),
        IRv::Ref(p, _) | IRv::Len(p) | IRv::Discr(p) => use_place(p, ev),
        IRv::Bin(_, a, b, _) => {
            use_op(a, ev);
            use_op(b, ev);
        }
        IRv::Agg(_, v) => v.iter().for_each(|o| use_op(o, ev)),
        IRv::Other(_) => {}
    }
}

thread_local! {
    static BODIES: std::cell::RefCell<BTreeMap<u32, Option<Rc<BodyInfo>>>> = std::cell::RefCell::new(BTreeMap::new());
}
pub fn body(fid: u32) -> Option<Rc<BodyInfo>> {
    if let Some(b) = BODIES.with(|b| b.borrow().get(&fid).cloned()) {
        return b;
    }
    let r = lower(fid).map(Rc::new);
    BODIES.with(|b| b.borrow_mut().insert(fid, r.clone()));
    r
}

//! Type queries and decoding of constants.
use crate::val::*;
use rustc_public::abi::{FieldsShape, TagEncoding, VariantsShape};
use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::ty::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct EnumInfo {
    pub discrs: Vec<i128>,
    pub names: Vec<String>,
    pub nfields: Vec<u32>,
    pub is_enum: bool,
}
thread_local! {
    static INFO: RefCell<HashMap<Ty, Option<Rc<EnumInfo>>>> = RefCell::new(HashMap::new());
    static CONSTS: RefCell<HashMap<Obj, V>> = RefCell::new(HashMap::new());
    static FNS: RefCell<(Vec<rustc_public::mir::mono::Instance>, HashMap<rustc_public::mir::mono::Instance, u32>)> = RefCell::new((vec![], HashMap::new()));
}

pub fn intern_fn(i: rustc_public::mir::mono::Instance) -> u32 {
    FNS.with(|f| {
        let mut f = f.borrow_mut();
        if let Some(x) = f.1.get(&i) {
            return *x;
        }
        let n = f.0.len() as u32;
        f.0.push(i);
        f.1.insert(i, n);
        n
    })
}
pub fn fn_of(n: u32) -> rustc_public::mir::mono::Instance {
    FNS.with(|f| f.borrow().0[n as usize])
}
pub fn const_mem(o: &Obj) -> Option<V> {
    CONSTS.with(|c| c.borrow().get(o).cloned())
}
pub fn const_ref(v: V) -> V {
    let o = Obj::Static(Rc::from(format!("const {}", show(&v))));
    CONSTS.with(|c| c.borrow_mut().insert(o.clone(), v));
    V::Ref(Rc::new(Pl { obj: o, path: vec![] }), false)
}

pub fn rigid(ty: Ty) -> Option<RigidTy> {
    match ty.kind() {
        TyKind::RigidTy(r) => Some(r),
        _ => None,
    }
}

pub fn info(ty: Ty) -> Option<Rc<EnumInfo>> {
    if let Some(r) = INFO.with(|i| i.borrow().get(&ty).cloned()) {
        return r;
    }
    let r = match rigid(ty) {
        Some(RigidTy::Adt(def, _)) => {
            let is_enum = def.kind() == AdtKind::Enum;
            let vs = def.variants();
            let bits = if is_enum { ty.kind().discriminant_ty().and_then(int_bits) } else { None };
            Some(EnumInfo {
                discrs: vs
                    .iter()
                    .map(|v| {
                        if !is_enum {
                            return 0;
                        }
                        let d = def.discriminant_for_variant(v.idx()).val;
                        match bits {
                            Some((b, true)) if b < 128 && d >> (b - 1) & 1 == 1 => d as i128 - (1i128 << b),
                            _ => d as i128,
                        }
                    })
                    .collect(),
                names: vs.iter().map(|v| v.name().to_string()).collect(),
                nfields: vs.iter().map(|v| v.fields().len() as u32).collect(),
                is_enum,
            })
        }
        Some(RigidTy::Tuple(t)) => Some(EnumInfo { discrs: vec![0], names: vec![], nfields: vec![t.len() as u32], is_enum: false }),
        Some(RigidTy::Closure(_, args)) => {
            // the upvar tuple is the last generic argument
            let n = match args.0.last() {
                Some(GenericArgKind::Type(t)) => match rigid(*t) {
                    Some(RigidTy::Tuple(u)) => u.len() as u32,
                    _ => 0,
                },
                _ => 0,
            };
            Some(EnumInfo { discrs: vec![0], names: vec![], nfields: vec![n], is_enum: false })
        }
        _ => None,
    }
    .map(Rc::new);
    INFO.with(|i| i.borrow_mut().insert(ty, r.clone()));
    r
}
pub fn nfields(ty: Ty, var: u32) -> u32 {
    info(ty).and_then(|i| i.nfields.get(var as usize).copied()).unwrap_or(0)
}
pub fn discr_of(ty: Ty, var: u32) -> i128 {
    info(ty).and_then(|i| i.discrs.get(var as usize).copied()).unwrap_or(var as i128)
}
pub fn domain_of(ty: Ty) -> Option<Rc<Vec<i128>>> {
    match info(ty) {
        Some(i) if i.is_enum => Some(Rc::new(i.discrs.clone())),
        _ => None,
    }
}
/// (bits, signed)
pub fn int_bits(ty: Ty) -> Option<(u32, bool)> {
    Some(match rigid(ty)? {
        RigidTy::Int(i) => (i.num_bytes() as u32 * 8, true),
        RigidTy::Uint(u) => (u.num_bytes() as u32 * 8, false),
        RigidTy::Bool => (1, false),
        RigidTy::Char => (32, false),
        _ => return None,
    })
}
pub fn is_bool(ty: Ty) -> bool {
    matches!(rigid(ty), Some(RigidTy::Bool))
}
pub fn is_str(ty: Ty) -> bool {
    matches!(rigid(ty), Some(RigidTy::Str))
}
pub fn pointee(ty: Ty) -> Option<(Ty, bool)> {
    match rigid(ty)? {
        RigidTy::Ref(_, t, m) => Some((t, m == rustc_public::mir::Mutability::Mut)),
        RigidTy::RawPtr(t, m) => Some((t, m == rustc_public::mir::Mutability::Mut)),
        _ => None,
    }
}
pub fn adt_name(ty: Ty) -> Option<String> {
    match rigid(ty)? {
        RigidTy::Adt(d, _) => Some(d.name().to_string()),
        _ => None,
    }
}
pub fn is_string(ty: Ty) -> bool {
    matches!(adt_name(ty).as_deref(), Some("std::string::String" | "alloc::string::String"))
}
pub fn variant_name(ty: Ty, var: u32) -> String {
    info(ty).and_then(|i| i.names.get(var as usize).cloned()).unwrap_or_default()
}

fn uint(a: &Allocation, off: usize, n: usize) -> Option<u128> {
    if n == 0 {
        return Some(0);
    }
    a.read_partial_uint(off..off + n).ok()
}
fn size_of(ty: Ty) -> Option<usize> {
    ty.layout().ok().map(|l| l.shape().size.bytes())
}
fn prov(a: &Allocation, off: usize) -> Option<AllocId> {
    a.provenance.ptrs.iter().find(|(o, _)| *o == off).map(|(_, p)| p.0)
}

pub fn decode(a: &Allocation, ty: Ty) -> V {
    dec(a, 0, ty, 0).unwrap_or_else(|| sym("constant", vec![vstr(&format!("{ty}")), vstr(&format!("{:?}", a.bytes))]))
}

fn dec(a: &Allocation, off: usize, ty: Ty, depth: u32) -> Option<V> {
    if depth > 12 {
        return None;
    }
    match rigid(ty)? {
        RigidTy::Bool => Some(V::Bool(uint(a, off, 1)? != 0)),
        RigidTy::Char => Some(V::Int(uint(a, off, 4)? as i128)),
        RigidTy::Uint(u) => Some(V::Int(uint(a, off, u.num_bytes())? as i128)),
        RigidTy::Int(i) => {
            let n = i.num_bytes();
            let v = uint(a, off, n)?;
            let b = n * 8;
            Some(V::Int(if b < 128 && v >> (b - 1) & 1 == 1 { v as i128 - (1i128 << b) } else { v as i128 }))
        }
        RigidTy::Ref(_, t, _) | RigidTy::RawPtr(t, _) => match rigid(t)? {
            RigidTy::Str | RigidTy::Slice(_) => {
                let len = uint(a, off + 8, 8)? as usize;
                let start = uint(a, off, 8)? as usize;
                let Some(id) = prov(a, off) else {
                    return Some(if is_str(t) { vstr("") } else { const_ref(agg(0, vec![])) });
                };
                let GlobalAlloc::Memory(m) = GlobalAlloc::from(id) else { return None };
                match rigid(t)? {
                    RigidTy::Str => {
                        let b: Option<Vec<u8>> = m.bytes[start..start + len].iter().copied().collect();
                        Some(vstr(std::str::from_utf8(&b?).ok()?))
                    }
                    RigidTy::Slice(e) => Some(const_ref(array(&m, start, e, len, depth)?)),
                    _ => None,
                }
            }
            RigidTy::Dynamic(..) => None,
            _ => {
                let id = prov(a, off)?;
                let start = uint(a, off, 8)? as usize;
                match GlobalAlloc::from(id) {
                    GlobalAlloc::Memory(m) => Some(const_ref(dec(&m, start, t, depth + 1)?)),
                    GlobalAlloc::Static(s) => Some(V::Ref(Rc::new(Pl { obj: Obj::Static(Rc::from(s.name().to_string())), path: vec![] }), false)),
                    _ => None,
                }
            }
        },
        RigidTy::FnPtr(_) => {
            let id = prov(a, off)?;
            match GlobalAlloc::from(id) {
                GlobalAlloc::Function(i) => Some(V::Fn(intern_fn(i))),
                _ => None,
            }
        }
        RigidTy::Array(e, n) => array(a, off, e, n.eval_target_usize().ok()? as usize, depth),
        RigidTy::Tuple(ts) => {
            let sh = ty.layout().ok()?.shape();
            let mut f = vec![];
            for (i, t) in ts.iter().enumerate() {
                f.push(dec(a, off + foff(&sh.fields, i)?, *t, depth + 1)?);
            }
            Some(agg(0, f))
        }
        RigidTy::FnDef(..) => Some(unit()),
        RigidTy::Closure(..) => (nfields(ty, 0) == 0).then(unit),
        RigidTy::Adt(def, args) => {
            let sh = ty.layout().ok()?.shape();
            let vs = def.variants();
            if def.kind() == AdtKind::Union {
                return None;
            }
            let (vi, offs): (usize, Vec<usize>) = match &sh.variants {
                VariantsShape::Empty => return None,
                VariantsShape::Single { index } => {
                    let vi = vs.iter().position(|v| v.idx() == *index)?;
                    let n = vs[vi].fields().len();
                    (vi, (0..n).map(|i| foff(&sh.fields, i)).collect::<Option<Vec<_>>>()?)
                }
                VariantsShape::Multiple { tag, tag_encoding, tag_field, variants } => {
                    let ts = match tag {
                        rustc_public::abi::Scalar::Initialized { value, .. } | rustc_public::abi::Scalar::Union { value } => value.size(&rustc_public::target::MachineInfo::target()).bytes(),
                    };
                    let to = foff(&sh.fields, *tag_field)?;
                    let tv = if prov(a, off + to).is_some() { None } else { Some(uint(a, off + to, ts)?) };
                    let vi = match tag_encoding {
                        TagEncoding::Direct => {
                            let tv = tv?;
                            let m = if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                            vs.iter().position(|v| def.discriminant_for_variant(v.idx()).val & m == tv)?
                        }
                        TagEncoding::Niche { untagged_variant, niche_variants, niche_start } => {
                            let pos = |x: &VariantIdx| vs.iter().position(|v| v.idx() == *x);
                            let (s, e) = (pos(niche_variants.start())?, pos(niche_variants.end())?);
                            let m = if ts >= 16 { u128::MAX } else { (1u128 << (ts * 8)) - 1 };
                            match tv {
                                None => pos(untagged_variant)?,
                                Some(t) => {
                                    let rel = t.wrapping_sub(*niche_start) & m;
                                    if rel <= (e - s) as u128 {
                                        s + rel as usize
                                    } else {
                                        pos(untagged_variant)?
                                    }
                                }
                            }
                        }
                    };
                    (vi, variants[vi].offsets.iter().map(|s| s.bytes()).collect())
                }
            };
            let mut f = vec![];
            for (i, fd) in vs[vi].fields().iter().enumerate() {
                f.push(dec(a, off + offs[i], fd.ty_with_args(&args), depth + 1).unwrap_or_else(|| sym("constfield", vec![vstr(&format!("{ty}.{i}"))])));
            }
            Some(agg(vi as u32, f))
        }
        _ => None,
    }
}
fn foff(f: &FieldsShape, i: usize) -> Option<usize> {
    match f {
        FieldsShape::Arbitrary { offsets } => offsets.get(i).map(|s| s.bytes()),
        FieldsShape::Primitive => Some(0),
        _ => None,
    }
}
fn array(a: &Allocation, off: usize, e: Ty, n: usize, depth: u32) -> Option<V> {
    if let Some(RigidTy::Uint(UintTy::U8)) = rigid(e) {
        let b: Option<Vec<u8>> = a.bytes[off..off + n].iter().copied().collect();
        return Some(V::Bytes(Rc::from(b?)));
    }
    if n > 256 {
        return None;
    }
    let s = size_of(e)?;
    let mut f = vec![];
    for i in 0..n {
        f.push(dec(a, off + i * s, e, depth + 1)?);
    }
    Some(agg(0, f))
}

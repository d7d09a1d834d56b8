//! Meaning of standard-library functions that are not analysed from their own bodies.
use crate::interp::*;
use crate::ir::*;
use crate::types::*;
use crate::val::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub fn last_seg(name: &str) -> &str {
    name.rsplit("::").next().unwrap_or(name)
}
/// (self type path or module path, trait path)
pub fn split(name: &str) -> (String, String) {
    let strip = |s: &str| -> String {
        let mut o = String::new();
        let mut d = 0;
        for c in s.chars() {
            match c {
                '<' => d += 1,
                '>' => d -= 1,
                c if d == 0 => o.push(c),
                _ => {}
            }
        }
        o
    };
    if let Some(r) = name.strip_prefix('<') {
        // <T as Trait>::m, with nesting
        let mut d = 0;
        let mut as_at = None;
        let mut end = r.len();
        let b = r.as_bytes();
        for i in 0..b.len() {
            match b[i] {
                b'<' | b'(' | b'[' => d += 1,
                b'>' if i > 0 && b[i - 1] == b'-' => {}
                b'>' | b')' | b']' => {
                    if d == 0 {
                        end = i;
                        break;
                    }
                    d -= 1;
                }
                b' ' if d == 0 && r[i..].starts_with(" as ") => as_at = Some(i),
                _ => {}
            }
        }
        return match as_at {
            Some(a) => (strip(&r[..a]), strip(&r[a + 4..end])),
            None => (strip(&r[..end]), String::new()),
        };
    }
    let p = match name.rfind("::") {
        Some(i) => &name[..i],
        None => name,
    };
    (strip(p), String::new())
}

pub fn inline(name: &str, krate: &str, inst: &Instance) -> bool {
    if is_ours(krate) {
        return true;
    }
    if !matches!(krate, "core" | "std" | "alloc") {
        return false;
    }
    if inst.kind == InstanceKind::Shim {
        return true;
    }
    let (s, t) = split(name);
    let s = s.trim_start_matches('&').trim_start_matches("mut ").to_string();
    let ok_self = ["std::option::", "core::option::", "std::result::", "core::result::", "std::ops::", "core::ops::", "std::iter::", "core::iter::", "std::cmp::", "std::convert::", "core::bool", "std::bool", "bool", "std::mem::", "std::option", "std::clone::"];
    if last_seg(name) == "type_id" {
        return false;
    }
    if name.starts_with("std::mem::take") || name.starts_with("core::mem::take") {
        return true;
    }
    if ok_self.iter().any(|p| s.starts_with(p)) {
        return true;
    }
    // blanket impls: <&A as PartialEq<&B>>::eq, <T as Into<U>>::into ...
    let (s0, _) = split(name);
    if s0.starts_with('&') && (t.starts_with("std::cmp::") || t.starts_with("std::iter::") || t.starts_with("std::ops::")) {
        return true;
    }
    if t.starts_with("std::convert::") && matches!(last_seg(name), "into" | "try_into" | "try_from" | "from") && (s0.len() <= 2 || s0.starts_with("mitex")) {
        return true;
    }
    // provided methods of traits that our types implement: ne, lt, ...
    if s0.starts_with("mitex") && t.starts_with("std::cmp::") {
        return true;
    }
    if t == "std::iter::IntoIterator" && s0.len() <= 2 {
        return true;
    }
    false
}

pub fn textual(ty: Ty) -> bool {
    let mut t = ty;
    for _ in 0..6 {
        match pointee(t) {
            Some((i, _)) => t = i,
            None => break,
        }
    }
    if is_str(t) || is_string(t) {
        return true;
    }
    match rigid(t) {
        Some(RigidTy::Adt(d, a)) => {
            use rustc_public::crate_def::CrateDef;
            let n = d.name().to_string();
            (n.ends_with("borrow::Cow") || n.ends_with("rc::Rc") || n.ends_with("sync::Arc") || n.ends_with("boxed::Box")) && a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if is_str(*t)))
        }
        _ => false,
    }
}
/// the content of any textual value
pub fn text_of(cx: &Interp, st: &State, v: &V, ty: Ty) -> V {
    match pointee(ty) {
        Some((t, _)) if is_str(t) => v.clone(),
        Some((t, _)) => {
            let c = cx.read(st, &cx.deref(st, v));
            text_of(cx, st, &c, t)
        }
        None => v.clone(),
    }
}
pub fn concat(parts: &[V]) -> V {
    let mut flat: Vec<V> = vec![];
    for p in parts {
        let items: Vec<V> = match p {
            V::Sym(t, 0) if &*op_of(*t) == "concat" => node(*t).args.clone(),
            o => vec![o.clone()],
        };
        for i in items {
            match (flat.last_mut(), &i) {
                (_, V::Str(s)) if s.is_empty() => {}
                (Some(V::Str(a)), V::Str(b)) => {
                    let n = format!("{a}{b}");
                    *a = Rc::from(n);
                }
                _ => flat.push(i),
            }
        }
    }
    match flat.len() {
        0 => vstr(""),
        1 => flat.pop().unwrap(),
        _ => sym("concat", flat),
    }
}
pub fn char_text(v: &V) -> V {
    match v {
        V::Int(c) => vstr(&char::from_u32(*c as u32).unwrap_or('?').to_string()),
        o => sym("charstr", vec![o.clone()]),
    }
}

thread_local! {
    static STUBS: RefCell<HashMap<String, Option<FnDef>>> = RefCell::new(HashMap::new());
}
/// a generic helper of the harness crate
pub fn stub(name: &str) -> Option<FnDef> {
    use rustc_public::crate_def::CrateDef;
    if let Some(s) = STUBS.with(|s| s.borrow().get(name).cloned()) {
        return s;
    }
    let mut r = None;
    for c in std::iter::once(rustc_public::local_crate()).chain(rustc_public::find_crates("vharness")) {
        for f in c.fn_defs() {
            if last_seg(&f.name().to_string()) == name && r.is_none() {
                r = Some(f);
            }
        }
    }
    STUBS.with(|s| s.borrow_mut().insert(name.to_string(), r));
    r
}
fn mentions_closure(t: Ty, d: u32) -> bool {
    if d > 6 {
        return false;
    }
    match rigid(t) {
        Some(RigidTy::Closure(..)) => true,
        Some(RigidTy::FnDef(..)) => true,
        Some(RigidTy::Adt(_, a)) => a.0.iter().any(|g| matches!(g, GenericArgKind::Type(t) if mentions_closure(*t, d + 1))),
        Some(RigidTy::Ref(_, t, _)) => mentions_closure(t, d + 1),
        Some(RigidTy::Tuple(ts)) => ts.iter().any(|t| mentions_closure(*t, d + 1)),
        _ => false,
    }
}
pub fn fn_inputs(ty: Ty) -> Option<(Vec<Ty>, Ty)> {
    let t = pointee(ty).map(|x| x.0).unwrap_or(ty);
    match rigid(t) {
        Some(RigidTy::Closure(d, a)) => {
            let b = body(intern_fn(closure_item(d, &a).ok()?))?;
            Some((b.tys[2..=b.argc].to_vec(), b.tys[0]))
        }
        Some(RigidTy::FnDef(d, a)) => {
            let s = Ty::from_rigid_kind(RigidTy::FnDef(d, a)).kind().fn_sig()?.skip_binder();
            Some((s.inputs().to_vec(), s.output()))
        }
        _ => None,
    }
}
/// find, any, ...: the result is determined by the iterator and the closure
fn search(cx: &mut Interp, c: &Call, st: &State, last: &str) -> Option<Outs> {
    let (ity, _) = pointee(c.tys[0])?;
    let fty = c.tys[1];
    let (ins, fret) = fn_inputs(fty)?;
    if !frozen(pointee(fty).map(|x| x.0).unwrap_or(fty)) || ins.len() != 1 {
        return None;
    }
    let sn = vec![cx.snap(st, &c.args[0], Some(c.tys[0]), 0), cx.snap(st, &c.args[1], Some(fty), 0), vstr(&short_ty(fty))];
    let deep = sn.iter().any(|v| matches!(v, V::Sym(t, _) if depth(*t) > 24) || crate::interp::size(v) > 400);
    let mut s0 = st.clone();
    let place = cx.deref(st, &c.args[0]);
    let mk = |cx: &Interp, s: &State, w: &str| if deep { cx.fresh(s, &c.site, w) } else { sym(w, sn.clone()) };
    // what the closures of the iterator and the predicate do on some element
    if mentions_closure(ity, 0) {
        let _ = drain(cx, &cx.read(st, &place), ity, &c.site, st.clone());
    }
    let after = mk(cx, &s0, &format!("{last}'!"));
    cx.write(&mut s0, &place, after);
    let item = mk(cx, &s0, &format!("{last}.item"));
    let by_ref = last == "find";
    let o = Obj::Tmp(cx.stack.len() as u32 + 500, c.site.bb as u32);
    let a = if by_ref {
        s0.mem.insert(o.clone(), item.clone());
        V::Ref(Rc::new(Pl { obj: o.clone(), path: vec![] }), false)
    } else {
        item.clone()
    };
    let keep = vec![item.clone(), c.args[0].clone(), c.args[1].clone()];
    let rs = {
        cx.stack.push(Frame::keeping(keep));
        let r = cx.call_value(&c.args[1], fty, vec![a], ins, fret, &c.site, s0.clone());
        cx.stack.pop();
        r
    };
    s0.mem.remove(&o);
    let mut out: Outs = vec![];
    match last {
        "find" | "find_map" => {
            let hit = mk(cx, &s0, &format!("{last}.hit"));
            mark_bool(&hit, Ty::bool_ty());
            if let (_, Some(s)) = cx.fork(&s0, &hit) {
                out.push((s, none()));
            }
            for (s, v) in rs {
                let (Some(s), _) = cx.fork(&s, &hit) else { continue };
                if by_ref {
                    if let (Some(mut t), _) = cx.fork(&s, &v) {
                        t.mem.remove(&o);
                        out.push((t, some(item.clone())));
                    }
                } else {
                    for (var, t) in cx.cases(&s, &v, fret) {
                        if var == 1 {
                            let x = cx.proj(&v, &PE::F { var: 1, idx: 0, n: 1 });
                            out.push((t, some(x)));
                        }
                    }
                }
            }
        }
        "position" => {
            let v = mk(cx, &s0, "position!");
            out.push((s0.clone(), none()));
            mark_unsigned(&v, Ty::usize_ty());
            out.push((s0, some(v)));
        }
        _ => {
            let v = mk(cx, &s0, &format!("{last}!"));
            mark_bool(&v, c.ret);
            out.push((s0, v));
        }
    }
    Some(out)
}
/// runs the iterator to its end for the effects of its closures
pub fn drain(cx: &mut Interp, it: &V, ty: Ty, site: &Site, st: State) -> Vec<State> {
    if !mentions_closure(ty, 0) {
        return vec![st];
    }
    let Some(f) = stub("drain") else { return vec![st] };
    let Ok(i) = Instance::resolve(f, &GenericArgs(vec![GenericArgKind::Type(ty)])) else { return vec![st] };
    cx.call(intern_fn(i), vec![it.clone()], vec![ty], Ty::new_tuple(&[]), site.clone(), st, false).into_iter().map(|x| x.0).collect()
}

/// pieces of `Arguments`: Str or (value, formatting function)
pub fn arguments(cx: &Interp, st: &State, v: &V) -> Vec<V> {
    let V::Sym(t, _) = v else { return vec![v.clone()] };
    let n = node(*t);
    match &*n.op {
        "fmtconst" => vec![n.args[0].clone()],
        "fmtargs" => {
            let (V::Bytes(tpl), args) = (&n.args[0], &n.args[1..]) else { return vec![v.clone()] };
            let mut out = vec![];
            let mut i = 0;
            let mut next = 0usize;
            let b = &tpl[..];
            while i < b.len() {
                let x = b[i];
                i += 1;
                if x == 0 {
                    break;
                } else if x < 0x80 {
                    let s = String::from_utf8_lossy(&b[i..i + x as usize]).to_string();
                    i += x as usize;
                    out.push(vstr(&s));
                } else if x == 0x80 {
                    let l = b[i] as usize | (b[i + 1] as usize) << 8;
                    i += 2;
                    let s = String::from_utf8_lossy(&b[i..i + l]).to_string();
                    i += l;
                    out.push(vstr(&s));
                } else {
                    let mut plain = true;
                    if x & 1 != 0 {
                        i += 4;
                        plain = false;
                    }
                    if x & 2 != 0 {
                        i += 2;
                        plain = false;
                    }
                    if x & 4 != 0 {
                        i += 2;
                        plain = false;
                    }
                    if x & 8 != 0 {
                        next = b[i] as usize | (b[i + 1] as usize) << 8;
                        i += 2;
                    }
                    let a = args.get(next).cloned().unwrap_or(V::Undef);
                    next += 1;
                    out.push(if plain { a } else { sym("fmtopt", vec![piece_text(cx, st, &a)]) });
                }
            }
            out
        }
        _ => vec![v.clone()],
    }
}

fn ok_unit(ret: Ty) -> V {
    let _ = ret;
    agg(0, vec![unit()])
}

/// the result of writing: both success and failure of the sink
fn write_result(cx: &mut Interp, c: &Call, mut st: State, sink: &V, pieces: Vec<V>) -> Outs {
    let h = cx.hook.clone();
    let mut out = vec![];
    let fallible = !is_string_sink(c);
    if fallible {
        let mut e = st.clone();
        e.set_ghost("fmterr", V::Bool(true));
        out.push((e, agg(1, vec![unit()])));
    }
    if fallible {
        h.emit(cx, c, &mut st, sink, &pieces);
    } else {
        append(cx, c, &mut st, sink, &pieces);
    }
    out.push((st, ok_unit(c.ret)));
    out
}
/// appends to a String
fn append(cx: &mut Interp, c: &Call, s: &mut State, sink: &V, pieces: &[V]) {
    let p = cx.deref(s, sink);
    let mut parts = vec![cx.read(s, &p)];
    for x in pieces {
        parts.push(piece_text(cx, s, x));
    }
    let nv = concat(&parts);
    let deep = matches!(&nv, V::Sym(t, _) if node(*t).args.len() > 24 || depth(*t) > 24);
    let nv = if deep { cx.fresh(s, &c.site, "string") } else { nv };
    cx.write(s, &p, nv);
}
fn is_string_sink(c: &Call) -> bool {
    pointee(c.tys[0]).is_some_and(|(t, _)| is_string(t))
}
/// writes pieces; user-defined Display implementations run in place
fn write_pieces(cx: &mut Interp, c: &Call, st: State, sink: &V, pieces: Vec<V>) -> Outs {
    // group plain pieces between user-defined ones
    let mut cur: Vec<State> = vec![st];
    let mut failed: Outs = vec![];
    let mut group: Vec<V> = vec![];
    let flush = |cx: &mut Interp, cur: &mut Vec<State>, failed: &mut Outs, group: &mut Vec<V>| {
        if group.is_empty() {
            return;
        }
        let g = std::mem::take(group);
        let mut nx = vec![];
        for s in std::mem::take(cur) {
            for (s2, v) in write_result(cx, c, s, sink, g.clone()) {
                match &v {
                    V::Agg(0, _) => nx.push(s2),
                    _ => failed.push((s2, v)),
                }
            }
        }
        *cur = nx;
    };
    for p in pieces {
        if let V::Agg(_, f) = &p {
            if let [val, V::Fn(id), _] = &f[..] {
                if body(*id).is_some_and(|b| is_ours(&b.krate)) {
                    flush(cx, &mut cur, &mut failed, &mut group);
                    let b = body(*id).unwrap();
                    let mut nx = vec![];
                    for s in std::mem::take(&mut cur) {
                        let fm = sym("formatter", vec![sink.clone()]);
                        for (s2, r) in cx.call(*id, vec![val.clone(), fm], vec![b.tys[1], b.tys[2]], b.tys[0], c.site.clone(), s, false) {
                            for (var, s3) in cx.cases(&s2, &r, b.tys[0]) {
                                if var == 0 {
                                    nx.push(s3)
                                } else {
                                    failed.push((s3, agg(1, vec![unit()])))
                                }
                            }
                        }
                    }
                    cur = nx;
                    continue;
                }
            }
        }
        group.push(p);
    }
    flush(cx, &mut cur, &mut failed, &mut group);
    failed.extend(cur.into_iter().map(|s| (s, ok_unit(c.ret))));
    failed
}
/// what a formatting argument prints
pub fn piece_text(cx: &Interp, st: &State, p: &V) -> V {
    match p {
        V::Agg(_, f) if f.len() == 3 => {
            if let [val, V::Fn(_), V::Str(kind)] = &f[..] {
                let c = cx.snap(st, val, None, 0);
                return match (&**kind, &c) {
                    ("display:text", c) => c.clone(),
                    ("display:char", V::Int(_)) => char_text(&c),
                    ("display:char", c) => char_text(c),
                    ("display:int", V::Int(i)) => vstr(&i.to_string()),
                    (k, c) => sym(k, vec![c.clone()]),
                };
            }
            p.clone()
        }
        o => o.clone(),
    }
}

/// the number of elements of a vector, slice or queue
pub fn count_of(cx: &mut Interp, st: &State, v: &V, ty: Ty) -> (V, State) {
    let mut x = cx.snap(st, v, Some(ty), 0);
    while let V::Sym(t, 0) = &x {
        let n = node(*t);
        if matches!(last_seg(&n.op), "deref" | "as_slice" | "as_ref") && n.args.len() == 1 {
            x = n.args[0].clone();
        } else {
            break;
        }
    }
    let l = sym("count", vec![x.clone()]);
    mark_unsigned(&l, Ty::usize_ty());
    let mut s = st.clone();
    if let (V::Sym(t, 0), V::Sym(l, 0)) = (&x, &l) {
        let n = node(*t);
        // splitting gives at least one piece
        if n.op.starts_with("collect:") && matches!(&n.args[0], V::Sym(i, 0) if matches!(last_seg(&node(*i).op), "split" | "rsplit" | "splitn" | "rsplitn") && node(*i).op.contains("str")) {
            s.assume_ge(*l, 1);
        }
    }
    (l, s)
}
fn sequence(slf: &str) -> bool {
    let s = slf.trim_start_matches('&').trim_start_matches("mut ");
    s.starts_with("std::vec::Vec") || s.starts_with("std::collections::VecDeque") || s.starts_with("core::slice") || s.starts_with('[')
}
/// calls into std that end in a panic for some arguments
pub fn may_panic(cx: &mut Interp, c: &Call, st: &State) {
    let kr = c.inst.def.krate().name.to_string();
    if !matches!(kr.as_str(), "core" | "std" | "alloc") || c.args.is_empty() {
        return;
    }
    let last = last_seg(c.name);
    let (slf, _) = split(c.name);
    let seq = sequence(&slf);
    let h = cx.hook.clone();
    let n = c.args.len();
    // positions
    let at = match last {
        "index" | "index_mut" if seq && n == 2 && int_bits(c.tys[1]).is_some() => Some(false),
        "remove" | "swap_remove" if slf.starts_with("std::vec::Vec") => Some(false),
        "insert" | "split_off" | "split_at" | "split_at_mut" | "rotate_left" | "rotate_right" if seq => Some(true),
        _ => None,
    };
    if let Some(end) = at {
        let (l, s) = count_of(cx, st, &c.args[0], c.tys[0]);
        let bad = if end { cx.lt(&s, &l, &c.args[1]) } else { not(cx.lt(&s, &c.args[1], &l)) };
        if cx.decide(&s, &bad) != Some(false) {
            if let Some(s) = cx.assume(s, &bad, true) {
                h.panics(cx, &s, &c.site, &format!("{last} at {} of {} elements", show(&c.args[1]), show(&l)));
            }
        }
        return;
    }
    let full = n >= 2 && adt_name(c.tys[1]).is_some_and(|t| t.ends_with("RangeFull"));
    let bad = match last {
        "index" | "index_mut" => seq && !full || slf.contains("Map<"),
        "drain" | "splice" | "range" | "replace_range" | "copy_within" | "extend_from_within" => !full,
        "swap" | "copy_from_slice" | "clone_from_slice" | "chunks" | "chunks_exact" | "rchunks" | "windows" | "select_nth_unstable" => seq,
        "remove" | "insert" | "insert_str" | "truncate" | "split_off" | "split_at" | "split_at_mut" => slf.contains("str") && textual(c.tys[0]),
        "step_by" | "from_digit" | "to_digit" | "ilog" | "ilog2" | "ilog10" | "div_euclid" | "rem_euclid" | "div_ceil" => true,
        _ => false,
    };
    if bad {
        h.panics(cx, st, &c.site, &format!("call of {}", last));
    }
}
/// borrows of a RefCell: no two at the same time, but for shared ones
pub fn borrow_cell(cx: &mut Interp, c: &Call, outs: &mut Outs) {
    let last = last_seg(c.name);
    let (slf, _) = split(c.name);
    if !matches!(last, "borrow" | "borrow_mut") || !slf.starts_with("std::cell::RefCell") || c.args.len() != 1 {
        return;
    }
    let key = format!("{}", pointee(c.tys[0]).map(|x| x.0).unwrap_or(c.tys[0]));
    let h = cx.hook.clone();
    for (s, _) in outs.iter_mut() {
        let mut g: Vec<V> = match s.ghost("guards") {
            V::Agg(_, x) => (*x).clone(),
            _ => vec![],
        };
        let held = |m: bool| g.contains(&agg(m as u32, vec![vstr(&key)]));
        if held(true) || last == "borrow_mut" && held(false) {
            h.panics(cx, s, &c.site, "borrow of a cell that is borrowed");
        }
        g.push(agg((last == "borrow_mut") as u32, vec![vstr(&key)]));
        s.set_ghost("guards", agg(0, g));
    }
}
/// the end of a borrow of a RefCell
pub fn release_cell(ty: Ty, st: &mut State) {
    let Some(RigidTy::Adt(d, a)) = rigid(ty) else { return };
    let n = d.name().to_string();
    let m = n.ends_with("cell::RefMut");
    if !m && !n.ends_with("cell::Ref") {
        return;
    }
    let Some(t) = a.0.iter().find_map(|g| if let GenericArgKind::Type(t) = g { Some(*t) } else { None }) else { return };
    if let V::Agg(_, g) = st.ghost("guards") {
        let mut g = (*g).clone();
        let k = agg(m as u32, vec![vstr(&format!("std::cell::RefCell<{t}>"))]);
        if let Some(i) = g.iter().position(|x| *x == k) {
            g.remove(i);
        }
        if g.is_empty() {
            st.set_ghost("guards", V::Undef);
        } else {
            st.set_ghost("guards", agg(0, g));
        }
    }
}

pub fn model(cx: &mut Interp, c: &Call, st: &State) -> Option<Outs> {
    let name = c.name;
    let last = last_seg(name);
    let n = c.args.len();
    let a = &c.args;
    let kr = c.inst.def.krate().name.to_string();
    let std_fn = matches!(kr.as_str(), "core" | "std" | "alloc");
    let one = |v: V| Some(vec![(st.clone(), v)]);

    if let Some(i) = c.inst.intrinsic_name() {
        return intrinsic(cx, c, st, &i.to_string());
    }
    // looking ahead shows what comes next, without taking it
    if matches!(last, "next" | "peek") && n == 1 && kr == "core" {
        if let Some((t, true)) = pointee(c.tys[0]).map(|(t, m)| (t, m && adt_name(t).is_some_and(|n| n.ends_with("iter::Peekable")) && !short_ty(t).contains("{closure@"))) {
            let v = cx.read(st, &cx.deref(st, &a[0]));
            let v = cx.snap(st, &v, Some(t), 0);
            if matches!(v, V::Sym(..)) {
                let name = format!("<{} as std::iter::Iterator>::next", short_ty(t));
                if last == "next" {
                    return Some(cx.opaque_result(&name, vec![v], a, &c.tys, c.ret, &c.site, st.clone()));
                }
                let t = sym(&format!("{name}!"), vec![v]);
                let Some(RigidTy::Adt(opt, _)) = rigid(c.ret) else { return None };
                let of = pointee(crate::checks::driver::type_args(c.ret)[0])?.0;
                let item = Ty::from_rigid_kind(RigidTy::Adt(opt, GenericArgs(vec![GenericArgKind::Type(of)])));
                let mut out = vec![];
                for (var, mut s) in cx.cases(st, &t, item) {
                    if var == 0 {
                        out.push((s, none()));
                    } else {
                        let x = cx.proj(&t, &PE::F { var: 1, idx: 0, n: 1 });
                        let o = Obj::Tmp(cx.stack.len() as u32 + 700, c.site.bb as u32);
                        s.mem.insert(o.clone(), x);
                        out.push((s, some(V::Ref(Rc::new(Pl { obj: o, path: vec![] }), false))));
                    }
                }
                return Some(out);
            }
        }
    }
    // calls through the Fn traits
    if matches!(last, "call_once" | "call_mut" | "call") && n == 2 && (name.contains("ops::Fn") || name.contains("ops::function::Fn") || c.inst.kind == InstanceKind::Shim) {
        let V::Agg(_, f) = (match &a[1] {
            V::Agg(..) => a[1].clone(),
            o => {
                let k = match rigid(c.tys[1]) {
                    Some(RigidTy::Tuple(t)) => t.len(),
                    _ => 0,
                };
                agg(0, (0..k).map(|i| cx.proj(o, &PE::F { var: 0, idx: i as u32, n: k as u32 })).collect())
            }
        }) else { return None };
        let tys = match rigid(c.tys[1]) {
            Some(RigidTy::Tuple(t)) => t,
            _ => vec![],
        };
        return Some(cx.call_value(&a[0], c.tys[0], (*f).clone(), tys, c.ret, &c.site, st.clone()));
    }
    if !std_fn {
        // cheap clones of foreign handles
        if last == "clone" && n == 1 && !is_ours(&kr) {
            let v = cx.read(st, &cx.deref(st, &a[0]));
            return one(v);
        }
        return None;
    }
    let (slf, tr) = split(name);
    if last == "is_empty" && n == 1 && sequence(&slf) && !textual(c.tys[0]) {
        let (v, s) = count_of(cx, st, &a[0], c.tys[0]);
        let e = cx.eq(&s, &v, &V::Int(0));
        return Some(vec![(s, e)]);
    }
    if last == "len" && n == 1 && sequence(&slf) && !textual(c.tys[0]) {
        let (l, s) = count_of(cx, st, &a[0], c.tys[0]);
        return Some(vec![(s, l)]);
    }

    // comparison of strings
    if matches!(last, "eq" | "ne") && n == 2 && textual(c.tys[0]) && textual(c.tys[1]) {
        let (x, y) = (text_of(cx, st, &a[0], c.tys[0]), text_of(cx, st, &a[1], c.tys[1]));
        let e = cx.streq(st, &x, &y);
        return one(if last == "eq" { e } else { not(e) });
    }
    // conversions between string types keep the content
    if n == 1 && textual(c.tys[0]) && textual(c.ret) && matches!(last, "to_string" | "to_owned" | "from" | "into" | "clone" | "deref" | "deref_mut" | "as_str" | "as_mut_str" | "as_ref" | "borrow" | "into_owned" | "to_string_in" | "into_boxed_str" | "spec_to_string" | "into_string" | "index") {
        let x = text_of(cx, st, &a[0], c.tys[0]);
        // &String results would need a place; &str and String carry the content itself
        if !(pointee(c.ret).is_some_and(|(t, _)| is_string(t))) {
            if last == "deref_mut" {
                return None;
            }
            return one(x);
        }
    }
    if n == 1 && is_string(c.ret) && matches!(last, "to_string" | "spec_to_string" | "from" | "into") {
        let t = pointee(c.tys[0]).map_or(c.tys[0], |(t, _)| t);
        if matches!(rigid(t), Some(RigidTy::Char)) {
            let ch = match pointee(c.tys[0]) {
                Some(_) => cx.read(st, &cx.deref(st, &a[0])),
                None => a[0].clone(),
            };
            return one(char_text(&ch));
        }
    }
    if matches!(name, "std::string::String::new" | "std::string::String::with_capacity") {
        return one(vstr(""));
    }
    if last == "default" && is_string(c.ret) {
        return one(vstr(""));
    }
    // growing strings
    // text is put in the place of another
    if matches!(last, "clone_from" | "clone_into") && n == 2 {
        let (from, to) = if last == "clone_into" { (0, 1) } else { (1, 0) };
        if pointee(c.tys[to]).is_some_and(|(t, m)| m && is_string(t)) && pointee(c.tys[from]).is_some_and(|(t, _)| is_str(t) || is_string(t)) {
            let v = cx.text(st, &a[from], c.tys[from]);
            let mut s = st.clone();
            let p = cx.deref(&s, &a[to]);
            cx.write(&mut s, &p, v);
            return Some(vec![(s, unit())]);
        }
    }
    if slf == "std::string::String" && matches!(last, "push_str" | "push" | "write_str" | "write_char") && n == 2 {
        let p = cx.deref(st, &a[0]);
        let _ = p;
        let piece = if matches!(last, "push_str" | "write_str") { a[1].clone() } else { char_text(&a[1]) };
        let mut s = st.clone();
        append(cx, c, &mut s, &a[0], &[piece]);
        let r = if tr.is_empty() { unit() } else { agg(0, vec![unit()]) };
        return Some(vec![(s, r)]);
    }
    // formatter output
    if (slf.ends_with("fmt::Formatter") || tr.ends_with("fmt::Write") || slf.ends_with("fmt::Write")) && n == 2 {
        match last {
            "write_str" => return Some(write_result(cx, c, st.clone(), &a[0], vec![a[1].clone()])),
            "write_char" => return Some(write_result(cx, c, st.clone(), &a[0], vec![char_text(&a[1])])),
            "write_fmt" => {
                let ps = arguments(cx, st, &a[1]);
                return Some(write_pieces(cx, c, st.clone(), &a[0], ps));
            }
            _ => {}
        }
    }
    if (name.ends_with("fmt::write") || name == "std::fmt::write") && n == 2 {
        let ps = arguments(cx, st, &a[1]);
        let mut o = write_pieces(cx, c, st.clone(), &a[0], ps);
        for (s, _) in o.iter_mut() {
            // the receiver behind the trait object has changed
            let v = cx.fresh(s, &c.site, "written");
            let p = cx.deref(s, &a[0]);
            cx.write(s, &p, v);
        }
        return Some(o);
    }
    if slf.ends_with("fmt::Arguments") {
        match last {
            "new" if n == 2 => {
                let tpl = cx.read(st, &cx.deref(st, &a[0]));
                let args = cx.read(st, &cx.deref(st, &a[1]));
                let mut v = vec![tpl];
                if let V::Agg(_, f) = args {
                    v.extend(f.iter().cloned());
                }
                return one(sym("fmtargs", v));
            }
            "from_str" | "from_str_nonconst" | "new_const" => {
                let x = text_of(cx, st, &a[0], c.tys[0]);
                return one(sym("fmtconst", vec![x]));
            }
            _ => {}
        }
    }
    if slf.ends_with("rt::Argument") && last.starts_with("new_") && n == 1 {
        // which Display/Debug implementation prints it
        let (t, _) = pointee(c.tys[0])?;
        let kind = if last == "new_display" {
            if textual(t) {
                "display:text"
            } else if matches!(rigid(t), Some(RigidTy::Char)) {
                "display:char"
            } else if int_bits(t).is_some() {
                "display:int"
            } else {
                "display"
            }
        } else {
            "debug"
        };
        let mut f = V::Fn(c.fid);
        if let Some(b) = body(c.fid) {
            // the constructor mentions the formatting function as a constant
            for blk in &b.blocks {
                for (s, _) in &blk.st {
                    if let ISt::Assign(_, r) = s {
                        let mut look = |o: &IOp| {
                            if let IOp::Const(V::Fn(i), _) = o {
                                if fn_name(*i).ends_with("::fmt") {
                                    f = V::Fn(*i);
                                }
                            }
                        };
                        match r {
                            IRv::Use(o) | IRv::Cast(_, o, _) => look(o),
                            IRv::Agg(_, v) => v.iter().for_each(|o| look(o)),
                            _ => {}
                        }
                    }
                }
            }
        }
        return one(agg(0, vec![a[0].clone(), f, vstr(kind)]));
    }
    if matches!(name, "std::fmt::format" | "alloc::fmt::format" | "std::fmt::format::format_inner") || (last == "format" && n == 1 && slf.ends_with("fmt")) {
        let ps = arguments(cx, st, &a[0]);
        let parts: Vec<V> = ps.iter().map(|p| piece_text(cx, st, p)).collect();
        return one(concat(&parts));
    }
    if last == "must_use" && n == 1 {
        return one(a[0].clone());
    }
    // memory
    match name {
        "std::mem::replace" | "core::mem::replace" => {
            let p = cx.deref(st, &a[0]);
            let old = cx.read(st, &p);
            let mut s = st.clone();
            cx.write(&mut s, &p, a[1].clone());
            return Some(vec![(s, old)]);
        }
        "std::mem::swap" => {
            let (p, q) = (cx.deref(st, &a[0]), cx.deref(st, &a[1]));
            let (x, y) = (cx.read(st, &p), cx.read(st, &q));
            let mut s = st.clone();
            cx.write(&mut s, &p, y);
            cx.write(&mut s, &q, x);
            return Some(vec![(s, unit())]);
        }
        "std::mem::drop" | "std::mem::forget" => return one(unit()),
        "std::ptr::read" | "std::ptr::read_unaligned" => {
            let v = cx.read(st, &cx.deref(st, &a[0]));
            return one(v);
        }
        "std::ptr::write" => {
            let p = cx.deref(st, &a[0]);
            let mut s = st.clone();
            cx.write(&mut s, &p, a[1].clone());
            return Some(vec![(s, unit())]);
        }
        _ => {}
    }
    // owning pointers keep their content
    if n == 1 && last == "new" && matches!(slf.as_str(), "std::boxed::Box" | "std::rc::Rc" | "std::sync::Arc") {
        return one(sym("boxed", vec![a[0].clone()]));
    }
    if n == 1 && matches!(last, "deref" | "as_ref" | "borrow" | "deref_mut" | "as_mut") && matches!(slf.as_str(), "std::boxed::Box" | "std::rc::Rc" | "std::sync::Arc") {
        let v = cx.read(st, &cx.deref(st, &a[0]));
        if let V::Sym(t, 0) = &v {
            return one(V::Sym(*t, 0));
        }
    }
    if last == "clone" && n == 1 && tr.ends_with("Clone") && !slf.starts_with("std::option") && !slf.starts_with("std::result") && !slf.starts_with("std::iter") {
        let v = cx.read(st, &cx.deref(st, &a[0]));
        return one(v);
    }
    // integer ranges
    if last == "next" && n == 1 && slf == "std::ops::Range" {
        let (t, _) = pointee(c.tys[0])?;
        let ity = match rigid(t) {
            Some(RigidTy::Adt(_, g)) => g.0.iter().find_map(|g| g.ty().copied()),
            _ => None,
        }?;
        let p = cx.deref(st, &a[0]);
        let r = cx.read(st, &p);
        let (lo, hi) = (cx.field(&r, 0, 0, t), cx.field(&r, 0, 1, t));
        let cond = cx.bin(st, BinOp::Lt, &lo, &hi, ity);
        let (yes, no) = cx.fork(st, &cond);
        let mut out = vec![];
        if let Some(mut s) = yes {
            let nx = cx.bin(&s, BinOp::Add, &lo, &V::Int(1), ity);
            let mut q = p.clone();
            q.path.push(PE::F { var: 0, idx: 0, n: 2 });
            cx.write(&mut s, &q, nx);
            out.push((s, some(lo.clone())));
        }
        if let Some(s) = no {
            out.push((s, none()));
        }
        return Some(out);
    }
    // searching consumers
    if n == 2 && matches!(last, "find" | "find_map" | "any" | "all" | "position") && (slf.starts_with("std::iter") || tr.starts_with("std::iter") || name.contains("Iterator>::")) {
        if let Some(o) = search(cx, c, st, last) {
            return Some(o);
        }
    }
    // consumers that call a function for its effects
    let over = slf.starts_with("std::iter") || tr.starts_with("std::iter") || name.contains("Iterator>::");
    let consumer = match (last, n) {
        ("for_each" | "try_for_each" | "any" | "all" | "find" | "find_map", 2) => over,
        ("fold" | "try_fold", 3) => over,
        _ => false,
    };
    if consumer {
        let (it, by_ref) = match pointee(c.tys[0]) {
            Some((t, _)) if !matches!(last, "for_each" | "fold") => (t, true),
            _ => (c.tys[0], false),
        };
        let f = c.tys[n - 1];
        let mut g = vec![it];
        match last {
            "fold" => g.extend([c.tys[1], f]),
            "try_fold" => g.extend([c.tys[1], f, c.ret]),
            "try_for_each" => g.extend([f, c.ret]),
            "find_map" => g.extend([super::checks::driver::type_args(c.ret).first().copied()?, f]),
            _ => g.push(f),
        }
        let _ = by_ref;
        if mentions_closure(f, 0) {
            if let Some(d) = stub(&format!("run_{last}")) {
                if let Ok(i) = Instance::resolve(d, &GenericArgs(g.into_iter().map(GenericArgKind::Type).collect())) {
                    return Some(cx.call(intern_fn(i), c.args.clone(), c.tys.clone(), c.ret, c.site.clone(), st.clone(), false));
                }
            }
        }
    }
    // draining consumers
    if matches!(last, "collect" | "count" | "last" | "for_each" | "sum" | "max" | "min" | "unzip" | "partition") && (slf.starts_with("std::iter") || tr.starts_with("std::iter")) && n == 1 {
        let sn = cx.snap(st, &a[0], Some(c.tys[0]), 0);
        let sts = drain(cx, &a[0], c.tys[0], &c.site, st.clone());
        let mut out = vec![];
        for s in sts {
            let v = sym(&format!("{last}:{}", short_ty(c.ret)), vec![sn.clone()]);
            mark_unsigned(&v, c.ret);
            out.push((s, v));
        }
        return Some(out);
    }
    if matches!(last, "extend" | "from_iter" | "join" | "zip_all") && tr.contains("iter::") {
        let i = n - 1;
        let sts = drain(cx, &a[i], c.tys[i], &c.site, st.clone());
        let mut out = vec![];
        for s in sts {
            out.extend(cx.default_opaque(c, s));
        }
        return Some(out);
    }
    // slices of strings
    if matches!(last, "index" | "index_mut" | "get") && n == 2 && textual(c.tys[0]) {
        let s = text_of(cx, st, &a[0], c.tys[0]);
        let bound = |i: u32| cx.field(&a[1], 0, i, c.tys[1]);
        let rn = adt_name(c.tys[1]).unwrap_or_default();
        let (lo, hi) = if rn.ends_with("RangeFrom") {
            (bound(0), V::Int(-1))
        } else if rn.ends_with("RangeTo") {
            (V::Int(0), bound(0))
        } else if rn.ends_with("RangeFull") {
            (V::Int(0), V::Int(-1))
        } else if rn.ends_with("ops::Range") {
            (bound(0), bound(1))
        } else {
            (sym("lo", vec![a[1].clone()]), sym("hi", vec![a[1].clone()]))
        };
        let r = slice(&s, &lo, &hi);
        if last == "get" {
            let o = sym("slice?", vec![s, lo, hi]);
            return one(o);
        }
        if r == V::Undef {
            return Some(vec![]);
        }
        if lo != V::Int(0) || hi != V::Int(-1) {
            let what = format!("string slice [{}..{}] of {}", show(&lo), if hi == V::Int(-1) { String::new() } else { show(&hi) }, show(&s));
            let h = cx.hook.clone();
            if !matches!(s, V::Str(_)) {
                let mut s2 = st.clone();
                s2.set_ghost("slice", tuple(vec![s, lo, hi]));
                h.panics(cx, &s2, &c.site, &what);
            }
        }
        return one(r);
    }
    if last == "len" && n == 1 && textual(c.tys[0]) {
        let s = text_of(cx, st, &a[0], c.tys[0]);
        return one(len_of(&s));
    }
    if last == "is_empty" && n == 1 && textual(c.tys[0]) {
        let s = text_of(cx, st, &a[0], c.tys[0]);
        let l = len_of(&s);
        return one(cx.eq(st, &l, &V::Int(0)));
    }
    if matches!(last, "starts_with" | "ends_with" | "contains") && n == 2 && textual(c.tys[0]) {
        let s = text_of(cx, st, &a[0], c.tys[0]);
        let p = if textual(c.tys[1]) { text_of(cx, st, &a[1], c.tys[1]) } else if matches!(rigid(c.tys[1]), Some(RigidTy::Char)) { char_text(&a[1]) } else { return None };
        if let (V::Str(x), V::Str(y)) = (&s, &p) {
            return one(V::Bool(match last {
                "starts_with" => x.starts_with(&**y),
                "ends_with" => x.ends_with(&**y),
                _ => x.contains(&**y),
            }));
        }
        let t = sym(last, vec![s, p]);
        mark_bool(&t, c.ret);
        return one(t);
    }
    if last == "strip_prefix" && n == 2 && textual(c.tys[0]) {
        let s = text_of(cx, st, &a[0], c.tys[0]);
        let p = if textual(c.tys[1]) { text_of(cx, st, &a[1], c.tys[1]) } else if matches!(rigid(c.tys[1]), Some(RigidTy::Char)) { char_text(&a[1]) } else { return None };
        if let (V::Str(x), V::Str(y)) = (&s, &p) {
            return one(match x.strip_prefix(&**y) {
                Some(r) => some(vstr(r)),
                None => none(),
            });
        }
        if let V::Str(y) = &p {
            let cond = sym("starts_with", vec![s.clone(), p.clone()]);
            mark_bool(&cond, Ty::bool_ty());
            let (yes, no) = cx.fork(st, &cond);
            let mut out = vec![];
            if let Some(x) = yes {
                out.push((x, some(slice(&s, &V::Int(y.len() as i128), &V::Int(-1)))));
            }
            if let Some(x) = no {
                out.push((x, none()));
            }
            return Some(out);
        }
        return None;
    }
    // arrays and slices known element by element
    if last == "len" && n == 1 {
        if let Some((t, _)) = pointee(c.tys[0]) {
            if matches!(rigid(t), Some(RigidTy::Slice(_))) {
                let v = cx.read(st, &cx.deref(st, &a[0]));
                let l = len_of(&v);
                return one(l);
            }
        }
    }
    None
}

pub fn slice(s: &V, lo: &V, hi: &V) -> V {
    if let (V::Str(x), V::Int(l), V::Int(h)) = (s, lo, hi) {
        let h = if *h < 0 { x.len() as i128 } else { *h };
        return match x.get(*l as usize..h as usize) {
            Some(r) => vstr(r),
            None => V::Undef,
        };
    }
    if *lo == V::Int(0) && *hi == V::Int(-1) {
        return s.clone();
    }
    // slices of slices with constant starts
    if let V::Sym(t, 0) = s {
        let n = node(*t);
        if &*n.op == "slice" && *hi == V::Int(-1) && n.args[2] == V::Int(-1) {
            if let (V::Int(a), V::Int(b)) = (&n.args[1], lo) {
                return sym("slice", vec![n.args[0].clone(), V::Int(a + b), V::Int(-1)]);
            }
        }
    }
    sym("slice", vec![s.clone(), lo.clone(), hi.clone()])
}

fn intrinsic(cx: &mut Interp, c: &Call, st: &State, i: &str) -> Option<Outs> {
    let a = &c.args;
    let one = |v: V| Some(vec![(st.clone(), v)]);
    match i {
        "discriminant_value" => {
            let (t, _) = pointee(c.tys[0])?;
            let v = cx.read(st, &cx.deref(st, &a[0]));
            let d = cx.discr(&v, t);
            one(d)
        }
        "likely" | "unlikely" | "black_box" => one(a[0].clone()),
        "assume" | "assert_inhabited" | "assert_zero_valid" | "assert_mem_uninitialized_valid" | "cold_path" => one(unit()),
        "read_via_copy" | "typed_swap_nonoverlapping" if i == "read_via_copy" => {
            let v = cx.read(st, &cx.deref(st, &a[0]));
            one(v)
        }
        "write_via_move" => {
            let p = cx.deref(st, &a[0]);
            let mut s = st.clone();
            cx.write(&mut s, &p, a[1].clone());
            Some(vec![(s, unit())])
        }
        "unchecked_add" | "wrapping_add" => {
            let v = cx.bin(st, BinOp::Add, &a[0], &a[1], c.tys[0]);
            one(v)
        }
        "unchecked_sub" | "wrapping_sub" => {
            let v = cx.bin(st, BinOp::Sub, &a[0], &a[1], c.tys[0]);
            one(v)
        }
        "add_with_overflow" => {
            let v = cx.bin(st, BinOp::Add, &a[0], &a[1], c.tys[0]);
            let o = cx.overflow(st, BinOp::Add, &a[0], &a[1], &v, c.tys[0]);
            one(tuple(vec![v, o]))
        }
        "sub_with_overflow" => {
            let v = cx.bin(st, BinOp::Sub, &a[0], &a[1], c.tys[0]);
            let o = cx.overflow(st, BinOp::Sub, &a[0], &a[1], &v, c.tys[0]);
            one(tuple(vec![v, o]))
        }
        "saturating_sub" => {
            let cond = cx.lt(st, &a[0], &a[1]);
            let (yes, no) = cx.fork(st, &cond);
            let mut out = vec![];
            if let Some(s) = yes {
                out.push((s, V::Int(0)));
            }
            if let Some(s) = no {
                let v = cx.bin(&s, BinOp::Sub, &a[0], &a[1], c.tys[0]);
                out.push((s, v));
            }
            Some(out)
        }
        "transmute" | "transmute_unchecked" => one(a[0].clone()),
        "unreachable" | "abort" => Some(vec![]),
        _ => {
            let sn: Vec<V> = a.iter().zip(&c.tys).map(|(a, t)| cx.snap(st, a, Some(*t), 0)).collect();
            Some(cx.opaque_result(&format!("intrinsic {i}"), sn, a, &c.tys, c.ret, &c.site, st.clone()))
        }
    }
}

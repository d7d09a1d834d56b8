//! The command line tool: what is read and written, and how the process ends.
use super::conv::mentions;
use super::driver::*;
use super::*;

struct Cli {
    /// the positional output: is one given, is it used?
    second: std::cell::Cell<(bool, bool)>,
}

/// a function of another crate that can create, change or remove files
fn changes_files(n: &str) -> bool {
    let last = crate::models::last_seg(n);
    let (slf, tr) = crate::models::split(n);
    if slf.starts_with("std::fs::") || n.starts_with("std::fs::") || slf.starts_with("std::io::") && slf.contains("BufWriter") {
        return !matches!(last, "read_to_string" | "read" | "metadata" | "exists" | "try_exists" | "canonicalize" | "symlink_metadata" | "read_dir" | "read_link" | "path" | "file_name" | "file_type" | "is_file" | "is_dir" | "len" | "kind") && !(last == "open" && slf.ends_with("fs::File"));
    }
    tr.starts_with("std::io::Write") && (slf.contains("fs::File"))
}
fn reads_files(n: &str) -> bool {
    let last = crate::models::last_seg(n);
    (n.starts_with("std::fs::") || n.contains("fs::File")) && matches!(last, "read_to_string" | "read" | "open" | "read_to_end")
}

impl Cli {
    fn place(cx: &Interp, c: &Call) -> Site {
        cx.our_site(&c.site)
    }
    fn compiling(st: &State) -> bool {
        st.ghost("sub") == vstr("Compile")
    }
    fn compiling_any(outs: &Outs) -> bool {
        outs.first().is_some_and(|(s, _)| Self::compiling(s))
    }
    /// what the command line says the files are: the input, the output; nothing if it has to be refused
    fn files(st: &State) -> Option<(From, From)> {
        let V::Agg(_, g) = st.ghost("given") else { return None };
        let (no_in, no_out) = (g[0] == V::Bool(true), g[1] == V::Bool(true));
        match (no_in, no_out, &g[2]) {
            (true, true, V::Int(1)) => Some((From::Rest(0), From::Derived)),
            (true, true, V::Int(2)) => Some((From::Rest(0), From::Rest(1))),
            (true, true, _) => None,
            (_, _, V::Int(n)) if *n != 0 => None,
            (true, false, _) => None,
            (false, true, _) => Some((From::Named, From::Derived)),
            (false, false, _) => Some((From::Named, From::Named)),
        }
    }
    fn has_result(st: &State, t: &V) -> bool {
        match st.ghost("result") {
            V::Undef => false,
            r => whole(t, &r),
        }
    }
    fn is_input(st: &State, p: &V) -> bool {
        let V::Agg(_, g) = st.ghost("args") else { return false };
        match Self::files(st) {
            Some((From::Named, _)) => mentions(p, &g[0]) && !mentions(p, &g[1]),
            Some((From::Rest(_), _)) => mentions(p, &g[2]) && element(p, &g[2]).is_none_or(|i| i == 0),
            _ => false,
        }
    }
    fn is_output(st: &State, p: &V) -> bool {
        let V::Agg(_, g) = st.ghost("args") else { return false };
        match Self::files(st) {
            Some((_, From::Named)) => mentions(p, &g[1]) && !typ(p),
            // it may be empty
            Some((_, From::Rest(_))) if typ(p) => Self::is_input(st, p) && st.ghost("no second") == V::Bool(true),
            Some((_, From::Rest(_))) => mentions(p, &g[2]) && element(p, &g[2]).is_none_or(|i| i == 1),
            Some((_, From::Derived)) => typ(p) && Self::is_input(st, p),
            None => false,
        }
    }
}
enum From {
    Named,
    Rest(usize),
    /// the name of the input with another extension
    Derived,
}
/// which element of the list is it?
fn element(v: &V, of: &V) -> Option<i128> {
    match v {
        V::Sym(t, _) => {
            let n = node(*t);
            let l = crate::models::last_seg(&n.op);
            let l = l.trim_end_matches(['!', '\'']);
            if !n.args.is_empty() && mentions(&n.args[0], of) {
                match (l, n.args.get(1)) {
                    ("index" | "get" | "nth" | "remove" | "swap_remove", Some(V::Int(i))) => return Some(*i),
                    ("first", _) => return Some(0),
                    _ => {}
                }
            }
            n.args.iter().find_map(|a| element(a, of))
        }
        V::Agg(_, x) => x.iter().find_map(|a| element(a, of)),
        _ => None,
    }
}
/// is the extension replaced by that of Typst?
fn typ(v: &V) -> bool {
    match v {
        V::Sym(t, _) => {
            let n = node(*t);
            let l = crate::models::last_seg(&n.op);
            if l.starts_with("with_extension") || l.starts_with("set_extension") {
                return n.args.get(1) == Some(&vstr("typ"));
            }
            n.args.iter().any(typ)
        }
        V::Agg(_, x) => x.iter().any(typ),
        _ => false,
    }
}

impl Policy for Cli {
    fn max_join(&self) -> usize {
        5000
    }
    fn done(&self, d: &Driver) {
        let (given, used) = self.second.get();
        if given {
            d.ob("cli", "the second positional argument is the output".into(), String::new(), used, "a second positional argument is never used as the output".into(), &State::new());
        }
    }
    fn entries(&self, _cx: &mut Interp, _cut: &Cut, args: &[V]) -> Vec<(State, Vec<V>)> {
        let mut st = State::new();
        st.set_ghost("err", V::Bool(false));
        st.set_ghost("wrote", V::Int(0));
        st.set_ghost("sub", vstr(""));
        vec![(st, args.to_vec())]
    }
    fn preserved(&self, _cut: &Cut, _leaf: &Leaf) -> bool {
        false
    }
    fn exit(&self, _cx: &mut Interp, cut: &Cut, _args: &[V], st: &State, v: &V, d: &Driver) {
        let ok = !is_result(cut.ret) || matches!(v, V::Agg(0, _));
        let loc = body(cut.fid).map(|b| Site { fid: cut.fid, bb: 0, span: b.blocks[0].span }.loc()).unwrap_or_default();
        self.success(st, ok, "the end of main", loc, d);
    }
    fn inline(&self, name: &str, krate: &str) -> Option<bool> {
        if krate == "anyhow" && (name.contains("with_context") || name.contains("::context")) {
            return Some(true);
        }
        if crate::models::last_seg(name).starts_with("{closure") {
            return None;
        }
        let tr = crate::models::split(name).1;
        // writing a whole text is one effect
        if tr.starts_with("std::io::Write") || tr.starts_with("std::io::Read") || tr.starts_with("clap::") || tr.starts_with("serde::") {
            return Some(false);
        }
 if is_conv(name) || matches!(krate, "mitex_parser" | "mitex_spec" | "mitex_lexer") {
            return Some(false);
        }
        None
    }
    fn never(&self, cx: &mut Interp, c: &Call, st: &State, d: &Driver) -> bool {
        let site = Self::place(cx, c);
        if c.name.ends_with("process::exit") {
            let zero = cx.eq(st, &c.args[0], &V::Int(0));
            let may = cx.decide(st, &zero) != Some(false);
            self.success(st, may, &format!("the exit in {}", site.func()), site.loc(), d);
            return true;
        }
        if c.name.contains("clap") && crate::models::last_seg(c.name) == "exit" {
            d.ob("cli", format!("{}: leaves with an error", site.func()), site.loc(), true, String::new(), st);
            return true;
        }
        false
    }
    fn call(&self, cx: &mut Interp, c: &Call, st: &State, d: &Driver) -> Option<Outs> {
        let n = c.name;
        let site = Self::place(cx, c);
        if std::env::var("MXSA_WHY").is_ok() {
            eprintln!("call {n} {} | {}", c.args.iter().map(|a| show(&cx.snap(st, a, None, 0))).collect::<Vec<_>>().join(", "), site.loc());
        }
        if n.contains("clap") && crate::models::last_seg(n) == "raw" {
            let k = variant_name(c.tys[0], match &c.args[0] {
                V::Agg(i, _) => *i,
                _ => u32::MAX,
            });
            let ok = !k.is_empty() && !matches!(k.as_str(), "DisplayHelp" | "DisplayVersion");
            d.ob("cli", format!("{}: errors are errors", site.func()), site.loc(), ok, format!("an error of kind {k:?} ends the process with success"), st);
        }
        let last = crate::models::last_seg(n);
        if Self::compiling(st) {
            if reads_files(n) {
                let p = cx.snap(st, &c.args[0], Some(c.tys[0]), 0);
                d.ob("cli", format!("{}: the file that is read", site.func()), site.loc(), Self::is_input(st, &p), format!("with {}, {} is read instead of the input file", show(&st.ghost("given")), show(&p)), st);
            }
            if changes_files(n) {
                d.ob("cli", format!("{}: the order of what is written", site.func()), site.loc(), st.ghost("order") != V::Bool(true), "what is written depends on the order of a randomly seeded hash table".into(), st);
                let conv = st.ghost("converted") == V::Bool(true);
                d.ob("cli", format!("{}: files change after a successful conversion only", site.func()), site.loc(), conv && st.ghost("err") == V::Bool(false), format!("{n} is called although nothing has been converted successfully"), st);
                let opens = matches!(last, "create" | "create_new") && n.contains("fs::File") || last == "open" && n.contains("OpenOptions");
                if last == "write" && n.starts_with("std::fs::") || opens {
                    let i = usize::from(last == "open");
                    let p = cx.snap(st, &c.args[i], Some(c.tys[i]), 0);
                    if let Some((_, From::Rest(_))) = Self::files(st) {
                        let (_, used) = self.second.get();
                        self.second.set((true, used || !typ(&p)));
                    }
                    d.ob("cli", format!("{}: the file that is written", site.func()), site.loc(), Self::is_output(st, &p), format!("{} is written instead of the output file", show(&p)), st);
                    if !opens {
                    let t = cx.snap(st, &c.args[1], Some(c.tys[1]), 0);
                    let all = Self::has_result(st, &t);
                    d.ob("cli", format!("{}: what is written", site.func()), site.loc(), all, format!("what is written does not have the result of the conversion in it: {}", show(&t)), st);
                    }
                }
            }
            let i = match (last, c.args.get(1)) {
                ("first", None) => Some(0),
                ("get", Some(V::Int(i))) => Some(*i),
                _ => None,
            };
            if let (Some(i), true) = (i, n.contains("slice") && adt_name(c.ret).is_some_and(|n| n.ends_with("Option"))) {
                let (l, s) = crate::models::count_of(cx, st, &c.args[0], c.tys[0]);
                let x = cx.snap(&s, &c.args[0], Some(c.tys[0]), 0);
                let e = cx.lt(&s, &V::Int(i), &l);
                let (yes, no) = cx.fork(&s, &e);
                let some = sym("std::ops::Index::index", vec![x, V::Int(i)]);
                return Some(yes.into_iter().map(|s| (s, agg(1, vec![some.clone()]))).chain(no.into_iter().map(|s| (s, agg(0, vec![])))).collect());
            }
            if is_conv(n) {
                let p = cx.snap(st, &c.args[0], Some(c.tys[0]), 0);
                let ok = match st.ghost("input") {
                    V::Undef => false,
                    i => whole(&p, &i),
                };
                d.ob("cli", format!("{}: what is converted", site.func()), site.loc(), ok, format!("{} is converted instead of the text of the input", show(&p)), st);
                let parse = last == "parse" || last == "parse_without_macro";
                d.ob("cli", format!("{}: {} is used for its stage", site.func(), last), site.loc(), st.ghost("syntax") == V::Bool(parse), format!("{last} is called for the wrong stage"), st);
            }
        }
        None
    }
    fn after(&self, cx: &mut Interp, c: &Call, outs: Outs, d: &Driver) -> Outs {
        let n = c.name;
        let last = crate::models::last_seg(n);
        let kr = c.inst.def.krate().name.to_string();
        let mut res = vec![];
        if last == "from_arg_matches" && is_result(c.ret) && type_args(c.ret).first().is_some_and(|t| adt_name(*t).is_some_and(|n| n.ends_with("Opts"))) {
            let opts = type_args(c.ret)[0];
            for (s, v) in outs {
                for (var, mut s) in cx.cases(&s, &v, c.ret) {
                    let x = cx.proj(&v, &PE::F { var, idx: 0, n: 1 });
                    if var == 1 {
                        s.set_ghost("err", V::Bool(true));
                        res.push((s, agg(1, vec![x])));
                        continue;
                    }
                    // only the first time: when the command line is looked at once more, there is no command
                    if s.ghost("sub") != vstr("") {
                        res.push((s, agg(0, vec![x])));
                        continue;
                    }
                    s.set_ghost("sub", vstr("no command"));
                    let Some(RigidTy::Adt(od, oa)) = rigid(opts) else { continue };
                    let fs = od.variants()[0].fields();
                    // is the version asked for?
                    let mut asked = vec![(false, s)];
                    for (i, f) in fs.iter().enumerate() {
                        let t = f.ty_with_args(&oa);
                        let w = cx.proj(&x, &PE::F { var: 0, idx: i as u32, n: fs.len() as u32 });
                        let mut next = vec![];
                        for (q, s) in asked {
                            if is_bool(t) {
                                mark_bool(&w, t);
                                let (yes, no) = cx.fork(&s, &w);
                                next.extend(yes.map(|s| (true, s)));
                                next.extend(no.map(|s| (q, s)));
                            } else if adt_name(t).is_some_and(|n| n.ends_with("VersionFormat")) {
                                for (k, s) in cx.cases(&s, &w, t) {
                                    next.push((q || variant_name(t, k) != "None", s));
                                }
                            } else {
                                next.push((q, s));
                            }
                        }
                        asked = next;
                    }
                    for (q, mut s) in asked {
                    s.set_ghost("version", V::Bool(q));
                    // which of the commands is it?
                    let i = fs.iter().position(|f| adt_name(f.ty_with_args(&oa)).is_some_and(|n| n.ends_with("Option"))).unwrap_or(0);
                    let ot = fs[i].ty_with_args(&oa);
                    let sub = cx.proj(&x, &PE::F { var: 0, idx: i as u32, n: fs.len() as u32 });
                    let st_ = type_args(ot)[0];
                    for (has, s) in cx.cases(&s, &sub, ot) {
                        if has == 0 {
                            res.push((s, agg(0, vec![x.clone()])));
                            continue;
                        }
                        let cmd = cx.proj(&sub, &PE::F { var: 1, idx: 0, n: 1 });
                        for (k, mut s) in cx.cases(&s, &cmd, st_) {
                            let name = variant_name(st_, k);
                            s.set_ghost("sub", vstr(&name));
                            if let (true, Some(RigidTy::Adt(sd, sa))) = (name == "Compile", rigid(st_)) {
                                let at = sd.variants()[k as usize].fields()[0].ty_with_args(&sa);
                                let ca = cx.proj(&cmd, &PE::F { var: k, idx: 0, n: 1 });
                                if let Some(RigidTy::Adt(ad, aa)) = rigid(at) {
                                    let fs = ad.variants()[0].fields();
                                    let get = |n: &str| fs.iter().position(|f| f.name == n).map(|i| cx.proj(&ca, &PE::F { var: 0, idx: i as u32, n: fs.len() as u32 })).unwrap_or(V::Undef);
                                    let rest = fs.iter().position(|f| adt_name(f.ty_with_args(&aa)).is_some_and(|n| n.ends_with("Vec"))).map(|i| cx.proj(&ca, &PE::F { var: 0, idx: i as u32, n: fs.len() as u32 })).unwrap_or(V::Undef);
                                    s.set_ghost("args", tuple(vec![get("input"), get("output"), rest.clone()]));
                                    let mut given = vec![(vec![], s)];
                                    for v in [get("input"), get("output")] {
                                        let e = cx.eq(&State::new(), &len_of(&v), &V::Int(0));
                                        let mut next = vec![];
                                        for (g, s) in given {
                                            let (yes, no) = cx.fork(&s, &e);
                                            next.extend(yes.map(|s| ([g.clone(), vec![V::Bool(true)]].concat(), s)));
                                            next.extend(no.map(|s| ([g.clone(), vec![V::Bool(false)]].concat(), s)));
                                        }
                                        given = next;
                                    }
                                    let stage = get("stage");
                                    let rty = fs.iter().map(|f| f.ty_with_args(&aa)).find(|t| adt_name(*t).is_some_and(|n| n.ends_with("Vec"))).unwrap();
                                    let mut all = vec![];
                                    for (g, s) in given {
                                        let (l, s) = crate::models::count_of(cx, &s, &rest, rty);
                                        let mut s = s;
                                        for n in 0..3 {
                                            let e = cx.eq(&s, &l, &V::Int(n));
                                            let (yes, no) = cx.fork(&s, &e);
                                            all.extend(yes.map(|s| ([g.clone(), vec![V::Int(n)]].concat(), s)));
                                            match no {
                                                Some(n) => s = n,
                                                None => break,
                                            }
                                        }
                                        if let V::Sym(l, k) = &l {
                                            s.assume_ge(*l, 3 - k);
                                        }
                                        all.push(([g.clone(), vec![V::Int(9)]].concat(), s));
                                    }
                                    let gt = fs.iter().find(|f| f.name == "stage").map(|f| f.ty_with_args(&aa)).unwrap();
                                    for (g, mut s) in all {
                                    s.set_ghost("given", tuple(g));
                                    for (h, s) in cx.cases(&s, &stage, gt) {
                                        if h == 0 {
                                            let mut s = s;
                                            s.set_ghost("syntax", V::Bool(false));
                                            res.push((s, agg(0, vec![x.clone()])));
                                            continue;
                                        }
                                        let g = cx.proj(&stage, &PE::F { var: 1, idx: 0, n: 1 });
                                        let gt = type_args(gt)[0];
                                        for (w, mut s) in cx.cases(&s, &g, gt) {
                                            s.set_ghost("syntax", V::Bool(variant_name(gt, w) == "Syntax"));
                                            res.push((s, agg(0, vec![x.clone()])));
                                        }
                                    }
                                    }
                                    continue;
                                }
                            }
                            res.push((s, agg(0, vec![x.clone()])));
                        }
                    }
                    }
                }
            }
            return res;
        }
        if Self::compiling_any(&outs) {
            if last == "with_extension" || last == "set_extension" {
                return outs
                    .into_iter()
                    .map(|(mut s, v)| {
                        let V::Agg(_, g) = s.ghost("args") else { return (s, v) };
                        let empty = s.facts.keys().any(|t| matches!(&*node(*t).op, "len") && s.exact(*t) == Some(0) && element(&node(*t).args[0], &g[2]) == Some(1));
                        s.set_ghost("no second", V::Bool(empty));
                        (s, v)
                    })
                    .collect();
            }
            let ordered = any_order(n, &c.inst);
            let settled = last.starts_with("sort") || matches!(last, "count" | "max" | "min" | "any" | "all" | "sum") || format!("{}", c.ret).contains("BTree") || n.contains("BTree") && matches!(last, "extend" | "insert");
            if ordered || settled {
                return outs
                    .into_iter()
                    .map(|(mut s, v)| {
                        s.set_ghost("order", V::Bool(ordered));
                        (s, v)
                    })
                    .collect();
            }
        }
        let own_site = body(c.site.fid).is_some_and(|b| is_ours(&b.krate));
        if is_conv(n) || (!is_ours(&kr) && own_site && is_result(c.ret) && kr != "anyhow" && !last.starts_with("map") && outcome_of_effect(n)) {
            if !is_result(c.ret) {
                for (mut s, v) in outs {
                    s.set_ghost("converted", V::Bool(true));
                    s.set_ghost("result", v.clone());
                    res.push((s, v));
                }
                return res;
            }
            for (s, v) in outs {
                for (var, mut s) in cx.cases(&s, &v, c.ret) {
                    let x = cx.proj(&v, &PE::F { var, idx: 0, n: 1 });
                    if var == 1 {
                        s.set_ghost("err", V::Bool(true));
                    } else if is_conv(n) {
                        s.set_ghost("converted", V::Bool(true));
                        s.set_ghost("result", x.clone());
                    } else if matches!(last, "read_to_string" | "read_to_end") && crate::models::split(n).1.starts_with("std::io::Read") {
                        let t = cx.snap(&s, &c.args[1], Some(c.tys[1]), 0);
                        s.set_ghost("input", t);
                    } else if reads_files(n) && !n.contains("OpenOptions") && last != "open" || n == "std::io::read_to_string" {
                        s.set_ghost("input", x.clone());
                    } else if n.contains("fs::File") && last == "flush" {
                        s.set_ghost("buffered", V::Bool(false));
                    } else if last == "write" && n.starts_with("std::fs::") || matches!(last, "write_all" | "write_fmt") && n.contains("fs::File") && {
                        let t = match last {
                            "write_fmt" => tuple(crate::models::arguments(cx, &s, &c.args[1]).iter().map(|p| crate::models::piece_text(cx, &s, p)).collect()),
                            _ => cx.snap(&s, &c.args[1], Some(c.tys[1]), 0),
                        };
                        Self::has_result(&s, &t)
                    } {
                        if buffered(n) {
                            s.set_ghost("buffered", V::Bool(true));
                        }
                        let k = match s.ghost("wrote") {
                            V::Int(i) => i,
                            _ => 9,
                        };
                        s.set_ghost("wrote", V::Int((k + 1).min(3)));
                    }
                    res.push((s, agg(var, vec![x])));
                }
            }
            d.count("outcomes of effects");
            return res;
        }
        outs
    }
}
/// does the result say whether something outside of the program was done?
fn outcome_of_effect(n: &str) -> bool {
    if n.contains("std::result::") || n.contains("std::option::") {
        return false;
    }
    changes_files(n) || reads_files(n) || n == "std::io::read_to_string" || n.contains("fs::File") || n.contains("clap_mangen") || n.contains("get_matches")
}
fn is_conv(n: &str) -> bool {
    let last = crate::models::last_seg(n);
    n.starts_with("mitex") && matches!(last, "convert_text" | "convert_math" | "convert_with_mode" | "parse" | "parse_without_macro") && !n.contains("CommandSpec") && !n.contains('<')
}
/// the text is there as a whole, not only a part of it or something computed from it
fn whole(v: &V, of: &V) -> bool {
    v == of
        || match v {
            V::Sym(t, _) => {
                let n = node(*t);
                let l = crate::models::last_seg(&n.op);
                let l = l.trim_end_matches(['!', '\'']);
                let changes = ["trim", "strip", "replace", "split", "to_ascii", "to_lower", "to_upper", "escape", "make_ascii", "rsplit", "line", "char"].iter().any(|p| l.starts_with(p))
                    || l.contains("lossy")
                    || matches!(l, "slice" | "index" | "get" | "find" | "len" | "take" | "skip" | "filter" | "truncate" | "pop" | "rev" | "bytes" | "drain" | "remove" | "clear" | "retain" | "repeat");
                !changes && n.args.iter().any(|a| whole(a, of))
            }
            V::Agg(_, x) => x.iter().any(|a| whole(a, of)),
            _ => false,
        }
}
/// the order of a randomly seeded hash table is about to be looked at
fn any_order(n: &str, inst: &rustc_public::mir::mono::Instance) -> bool {
    let last = crate::models::last_seg(n);
    let it = matches!(last, "iter" | "iter_mut" | "keys" | "values" | "values_mut" | "into_iter" | "into_keys" | "into_values" | "drain" | "retain" | "extract_if" | "fmt" | "union" | "difference" | "intersection" | "symmetric_difference");
    let args = |a: &rustc_public::ty::GenericArgs| a.0.iter().filter_map(|g| g.ty().copied()).any(|t| super::pure::random(t, 0));
    it && (args(&inst.args()) || matches!(rigid(inst.ty()), Some(RigidTy::FnDef(_, a)) if args(&a)))
}
/// a writer that may not have written everything yet
fn buffered(n: &str) -> bool {
    crate::models::split(n).0.contains("BufWriter") || crate::models::split(n).0.contains("LineWriter")
}

impl Cli {
    /// the process ends, possibly with success
    fn success(&self, st: &State, may: bool, what: &str, loc: String, d: &Driver) {
        let sub = match st.ghost("sub") {
            V::Str(s) => s.to_string(),
            _ => String::new(),
        };
        d.ob("cli", format!("{sub}, {what}: a failure is not reported as success"), loc.clone(), !(may && st.ghost("err") != V::Bool(false)), "the process ends with success although something failed".into(), st);
        if Self::compiling(st) && may && st.ghost("version") == V::Bool(false) && st.ghost("err") == V::Bool(false) {
            d.ob("cli", format!("{sub}, {what}: success means that everything has been written"), loc.clone(), st.ghost("buffered") != V::Bool(true), "a part of the output is still to be written".into(), st);
            d.ob("cli", format!("{sub}, {what}: success means that the output has been written"), loc, st.ghost("wrote") == V::Int(1), format!("the output has been written {} times", show(&st.ghost("wrote"))), st);
        }
    }
}

pub fn run(out: &str) {
    let root = find_root("main").expect("main");
    let d = Driver::new(Box::new(Cli { second: Default::default() }));
    let cx = d.run(&[root], 300);
    std::fs::write(out, json("cli", &d, &cx, &[root], &[])).unwrap();
}

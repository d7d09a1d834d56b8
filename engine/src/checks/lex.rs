//! The lexer's own code: what a command is.
use super::driver::*;
use super::*;

struct Lex;

impl Policy for Lex {
    fn max_join(&self) -> usize {
        2000
    }
    fn entries(&self, _cx: &mut Interp, _cut: &Cut, args: &[V]) -> Vec<(State, Vec<V>)> {
        vec![(State::new(), args.to_vec())]
    }
    fn preserved(&self, _cut: &Cut, _leaf: &Leaf) -> bool {
        false
    }
    fn inline(&self, _name: &str, krate: &str) -> Option<bool> {
        if krate == "logos" || krate == "mitex_spec" {
            return Some(false);
        }
        None
    }
    fn call(&self, cx: &mut Interp, c: &Call, st: &State, _d: &Driver) -> Option<Outs> {
        if std::env::var("MXSA_WHY").is_ok() {
            eprintln!("call {} {} | {}", c.name, c.args.iter().map(|a| show(&cx.snap(st, a, None, 0))).collect::<Vec<_>>().join(", "), cx.our_site(&c.site).loc());
        }
        let last = crate::models::last_seg(c.name);
        // comparison of the name with a keyword
        if matches!(last, "eq" | "ne") && c.args.len() == 2 {
            let (a, b) = (cx.snap(st, &c.args[0], Some(c.tys[0]), 0), cx.snap(st, &c.args[1], Some(c.tys[1]), 0));
            let (a_, b_) = (a.clone(), b.clone());
            let name = match (&a, &b) {
                (V::Sym(..), V::Str(_)) => a,
                (V::Str(_), V::Sym(..)) => b,
                _ => return None,
            };
            if st.ghost("name") != name {
                let mut s = st.clone();
                s.set_ghost("name", name.clone());
                let key = if matches!(a_, V::Str(_)) { a_ } else { b_ };
                let e = cx.streq(&s, &name, &key);
                return Some(vec![(s, if last == "eq" { e } else { not(e) })]);
            }
        }
        None
    }
    fn after(&self, cx: &mut Interp, c: &Call, outs: Outs, _d: &Driver) -> Outs {
        let last = crate::models::last_seg(c.name);
        let top = body(c.site.fid).is_some_and(|b| crate::models::last_seg(&b.name) == "lex_command_name");
        if !top {
            return outs;
        }
        let mut res = vec![];
        for (s, v) in outs {
            // the character after the backslash
            if last == "next" && c.name.contains("Chars") || last == "first" && c.name.contains("slice") {
                for (var, mut s) in cx.cases(&s, &v, c.ret) {
                    let x = cx.proj(&v, &PE::F { var, idx: 0, n: 1 });
                    if s.ghost("c") == V::Undef {
                        s.set_ghost("c", if var == 1 { x.clone() } else { V::Bool(false) });
                    }
                    res.push((s, if var == 1 { agg(1, vec![x]) } else { agg(0, vec![]) }));
                }
                continue;
            }
            let class = match last {
                "is_ascii_alphabetic" => Some("is_ascii_alphabetic"),
                "is_whitespace" => Some("is_whitespace"),
                _ => None,
            };
            if let Some(class) = class {
                let (yes, no) = cx.fork(&s, &v);
                for (b, s) in [(true, yes), (false, no)] {
                    if let Some(mut s) = s {
                        if cx.snap(&s, &c.args[0], Some(c.tys[0]), 0) == s.ghost("c") {
                            s.set_ghost(class, V::Bool(b));
                        }
                        res.push((s, V::Bool(b)));
                    }
                }
                continue;
            }
            res.push((s, v));
        }
        res
    }
    fn exit(&self, _cx: &mut Interp, cut: &Cut, _args: &[V], st: &State, v: &V, d: &Driver) {
        let loc = body(cut.fid).map(|b| Site { fid: cut.fid, bb: 0, span: b.blocks[0].span }.loc()).unwrap_or_default();
        let V::Agg(var, f) = v else {
            d.ob("cmd", "the kind of every command is known".into(), loc, false, format!("the result is {}", show(v)), st);
            return;
        };
        let mut kind = variant_name(cut.ret, *var);
        if let (Some(V::Agg(i, _)), Some(RigidTy::Adt(ad, aa))) = (f.first(), rigid(cut.ret)) {
            let t = ad.variants()[*var as usize].fields()[0].ty_with_args(&aa);
            kind = variant_name(t, *i);
        }
        let c = st.ghost("c");
        let ws = st.ghost("is_whitespace") == V::Bool(true);
        let alpha = st.ghost("is_ascii_alphabetic");
        let (is, isnt): (Option<i128>, Box<dyn Fn(i128) -> bool>) = match &c {
            V::Sym(t, k) => {
                let f = st.facts.get(t).cloned().unwrap_or_default();
                let (t, k) = (*t, *k);
                (st.exact(t).map(|x| x + k), Box::new(move |x| f.ne.contains(&(x - k)) || f.lo.is_some_and(|l| l > x - k) || f.hi.is_some_and(|h| h < x - k) || f.lo.is_some() && f.lo == f.hi && f.lo != Some(x - k)))
            }
            V::Int(i) => {
                let i = *i;
                (Some(i), Box::new(move |x| x != i))
            }
            _ => (None, Box::new(|_| c_none())),
        };
        let none = c == V::Bool(false);
        let name = st.ghost("name");
        let (eq, ne) = match &name {
            V::Sym(t, 0) => st.facts.get(t).map(|f| (f.streq.clone().map(|s| s.to_string()), f.strne.iter().map(|s| s.to_string()).collect::<Vec<_>>())).unwrap_or_default(),
            _ => (None, vec![]),
        };
        let (ok, want) = match KEYWORDS.iter().find(|k| k.1.contains(&kind.as_str())) {
            Some((k, _)) => (eq.as_deref() == Some(*k), format!("the name {k}")),
            None => match kind.as_str() {
                "BeginMath" => (matches!(is, Some(40 | 91)), "( or [".to_string()),
                "EndMath" => (matches!(is, Some(41 | 93)), ") or ]".to_string()),
                "Generic" => {
                    let plain = none || ws;
                    let math = !plain && [40, 41, 91, 93].iter().any(|x| !isnt(*x)) && alpha != V::Bool(true);
                    let named = name != V::Undef;
                    let letters = alpha == V::Bool(true) || is == Some(64);
                    let other = !named && !plain && !(alpha == V::Bool(false) && isnt(64));
                    let missed = KEYWORDS.iter().map(|k| k.0).find(|k| named && !ne.iter().any(|n| n == k) && eq.as_deref().is_none_or(|e| e == *k));
                    let _ = letters;
                    (!math && !other && missed.is_none(), if math { "no bracket".to_string() } else if other { "no letter".to_string() } else { format!("another name than {missed:?}") })
                }
                k => (false, format!("nothing: {k} is unknown")),
            },
        };
        d.count("outcomes");
        d.ob("cmd", format!("{kind}: the commands of this kind"), loc, ok, format!("{kind} is returned where {want} must be: c = {}, name = {eq:?}", show(&c)), st);
    }
}
fn c_none() -> bool {
    false
}
/// the names that are not just those of commands
const KEYWORDS: &[(&str, &[&str])] = &[
    ("if", &["If"]),
    ("iftypst", &["IfTypst"]),
    ("iffalse", &["IfFalse"]),
    ("iftrue", &["IfTrue"]),
    ("ifcase", &["IfCase"]),
    ("ifnum", &["IfNum"]),
    ("ifcat", &["IfCat"]),
    ("ifx", &["IfX"]),
    ("ifvoid", &["IfVoid"]),
    ("ifhbox", &["IfHBox"]),
    ("ifvbox", &["IfVBox"]),
    ("ifhmode", &["IfHMode"]),
    ("ifmmode", &["IfMMode"]),
    ("ifvmode", &["IfVMode"]),
    ("ifinner", &["IfInner"]),
    ("ifdim", &["IfDim"]),
    ("ifeof", &["IfEof"]),
    ("@ifstar", &["IfStar"]),
    ("else", &["Else"]),
    ("fi", &["EndIf"]),
    ("left", &["Left"]),
    ("right", &["Right"]),
    ("begin", &["BeginEnvironment", "ErrorBeginEnvironment"]),
    ("end", &["EndEnvironment", "ErrorEndEnvironment"]),
];
pub fn run(out: &str) {
    let root = find_root("lex_command_name").expect("lex_command_name");
    let d = Driver::new(Box::new(Lex));
    let cx = d.run(&[root], 300);
    std::fs::write(out, json("lex", &d, &cx, &[root], &[])).unwrap();
}

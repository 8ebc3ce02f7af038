//! Names, generics, unwrapping, choices, errors, recursion (C06, C12 to C16).

use super::common::*;

/// Some values of every shape, for sweeping schemas of unknown meaning.
pub fn pool() -> Vec<V> {
    let mut v = vec![
        V::Null, V::Bool(true), i(0), i(1), i(2), i(3), i(-1), i(300), f(1.0), f(1.5), t(""), t("a"), t("b"), t("ab"), b(b""), b(&[1]), b(&[0x61, 0x61]), b(&[0x81, 1]),
    ];
    let el = [i(1), t("a"), V::Bool(true)];
    v.extend(seqs(&el, 2).into_iter().map(V::Arr));
    v.extend([a(vec![i(1), i(2)]), a(vec![i(1), i(1), i(1)]), a(vec![t("a"), t("a"), t("a")])]);
    for x in [a(vec![]), a(vec![i(1)]), a(vec![t("a")]), m(vec![]), m(vec![(t("a"), i(1))]), a(vec![a(vec![i(1)])]), a(vec![a(vec![t("a")])])] {
        v.push(a(vec![x.clone()]));
        v.push(a(vec![i(1), x.clone()]));
        v.push(a(vec![x.clone(), t("a")]));
        v.push(m(vec![(t("a"), x.clone())]));
        v.push(m(vec![(t("k"), x)]));
    }
    v.extend(maps(&[t("a"), t("k")], &[i(1), t("a")]));
    v.extend(maps(&[i(1), t("b")], &[i(1), t("a")]));
    v.extend([m(vec![(a(vec![i(1)]), i(1))]), m(vec![(t("a"), V::Null)]), m(vec![(t("a"), i(1)), (t("b"), i(1)), (t("k"), t("a"))])]);
    v
}

// ------------------------------------------------------------------ C06

pub fn c06(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    // bodies in which @ stands for a reference to a rule
    let bodies = [
        "@", "[@]", "[* @]", "[+ @]", "[? @]", "[2*3 @]", "@ / int", "int / @", "{a: @}", "{* tstr => @}", "{? a: @}", "{* @ => int}", "[(@)]", "[* (? @)]", "[* (* @)]", "[* ()]", "[+ (), @]", "[? (@, int)]",
        "[@ // int]", "[int // @]", "(@, int)", "(int, @)", "(? @)", "(* @)", "(@)", "? @", "* @", "()", "(int // @)", "(a: @)", "(? a: @)", "~@", "[~@]", "[* ~@]", "[int, ~@]", "{~@}", "{* ~@}", "{a: int, ? ~@}", "{@}", "{* @}", "{? @, a: int}", "&@", "&(x: @, y: 1)", "&(@)",
        "1 .. @", "@ ... 3", "uint .size @", "@ .size 2", "int .lt @", "@ .ge 1", "bytes .cbor @", "bytes .cbor [* @]", "tstr .size (1..3)", "int", "[* [* @]]", "[* (@ / int)]", "[* {}]", "{* any => @}", "[@, @]", "{a: @, ? k: @}", "5", "1..2", "\"a\"", "+ @",
    ];
    let n = bodies.len();
    let mut sv: Vec<V> = vec![
        i(1), i(2), t("a"), V::Null, a(vec![]), a(vec![i(1)]), a(vec![i(1), i(2)]), a(vec![a(vec![])]), a(vec![a(vec![i(1)]), i(1)]), a(vec![i(1), a(vec![i(1), a(vec![])])]), a(vec![a(vec![a(vec![])]), a(vec![])]),
        m(vec![]), m(vec![(t("a"), i(1))]), m(vec![(t("a"), m(vec![(t("a"), i(1))]))]), m(vec![(t("a"), m(vec![]))]), m(vec![(i(1), i(1))]), b(&[1]), b(&[0x80]), b(&[0x41, 0x01]), b(b""),
        a(vec![t("a"), m(vec![])]), a(vec![i(1), i(1), i(1), i(1)]), m(vec![(t("a"), a(vec![i(1)])), (t("k"), i(1))]), m(vec![(m(vec![]), i(1))]),
    ];
    if thorough {
        sv.extend(pool());
    }
    let v1 = vals(sv);
    let v1 = arc(v1);
    let x = v1.clone();
    out.push(suite("one recursive rule", format!("{n} bodies referring to themselves, used in {n} bodies"), n, move |k, w| {
        for top in bodies {
            // t must be a type or the like; group rules are only used
            let r = bodies[k].replace('@', "r");
            let s = format!("t = {}\nr = {r}\n", top.replace('@', "r"));
            if crate::refparse::parse(&s).is_ok() {
                w.sweep(&cddl(&s), "t", &x);
            }
        }
    }));
    let x = v1.clone();
    out.push(suite("two mutually recursive rules", format!("{n} x {n} bodies referring to each other, in three starting points"), n, move |k, w| {
        for r2 in bodies {
            if w.stopped() {
                return;
            }
            for top in ["@", "[* @]", "{* any => @}", "[@ // int]", "{? @, * any => any}"] {
                let s = format!("t = {}\nr = {}\nq = {}\n", top.replace('@', "r"), bodies[k].replace('@', "q"), r2.replace('@', "r"));
                if crate::refparse::parse(&s).is_ok() {
                    w.sweep(&cddl(&s), "t", &x);
                }
            }
        }
    }));
    // three rules
    let few: Vec<&str> = vec!["@", "[* @]", "@ / int", "{a: @}", "[* (? @)]", "(@, int)", "(? @)", "~@", "[~@]", "{~@}", "&@", "{* @}", "[@ // int]", "()", "[int]", "{* tstr => @}"];
    let x = v1.clone();
    let few2 = few.clone();
    out.push(suite("three mutually recursive rules", format!("{0} x {0} x {0} bodies", few.len()), few.len() * few.len(), move |k, w| {
        let (r1, r2) = (few2[k / few2.len()], few2[k % few2.len()]);
        for r3 in &few2 {
            if w.stopped() {
                return;
            }
            for back in ["r", "q"] {
                let s = format!("t = r\nr = {}\nq = {}\np = {}\n", r1.replace('@', "q"), r2.replace('@', "p"), r3.replace('@', back));
                if crate::refparse::parse(&s).is_ok() {
                    w.sweep(&cddl(&s), "t", &x);
                }
                let s = format!("t = [r, ? r] / {{r}}\nr = {}\nq = {}\np = {}\n", r1.replace('@', "q"), r2.replace('@', "p"), r3.replace('@', back));
                if crate::refparse::parse(&s).is_ok() {
                    w.sweep(&cddl(&s), "t", &x);
                }
            }
        }
    }));
    // recursion through generics
    let gb = ["A", "[A]", "A / r<A>", "r<A>", "r<[A]>", "[* r<A>]", "[A, ? r<A>]", "r<r<A>>", "{a: A, ? k: r<[A]>}", "A / [r<A>]", "A / [r<[A]>]", "~A", "(A, ? r<A>)", "[~r<A>]", "r<A / int>", "bytes .cbor r<A>", "A .. r<A>", "uint .size r<A>", "A / bytes .cbor r<A>", "[? r<A>]", "[* (? r<A>)]", "&r<A>", "A / {* tstr => r<A>}", "r<int>", "q<A>", "[q<r<A>>]", "q<r<A>> / null", "q<A> / int"];
    let qb = ["A", "r<A>", "[* A]", "r<[A]>", "A / r<A>", "(A)", "[r<A>]"];
    let args = ["int", "t", "[t]", "r<int>", "g", "1", "[* t]"];
    let x = v1.clone();
    out.push(suite("recursive generics", format!("{} x {} generic bodies x {} arguments", gb.len(), qb.len(), args.len()), gb.len(), move |k, w| {
        for q in qb {
            for ar in args {
                for top in ["@", "[* @]", "@ / null"] {
                    let s = format!("t = {}\nr<A> = {}\nq<A> = {q}\ng = (int, ? t)\n", top.replace('@', &format!("r<{ar}>")), gb[k]);
                    if crate::refparse::parse(&s).is_ok() {
                        w.sweep(&cddl(&s), "t", &x);
                    }
                }
            }
        }
    }));
    // chains and depth
    out.push(suite("chains of references", "alias chains of 1 to 60 names, ended, dangling or circular, in every position", 60, |d, w| {
        let d = d + 1;
        let tops = ["c0", "[c0]", "{a: c0}", "{c0 => 1}", "[* c0]", "c0 / null", "null / c0", "[~l0]", "[? ~l0, 1]", "{~p0}", "&e0", "1..n0", "uint .size n0", "int .lt n0", "bytes .cbor c0", "[g0]", "[* g0]", "{k0}", "[x<c0>]", "x<x<c0>>", "tstr .size n0", "a0 .size 1", "&(x: c0)"];
        let mut s = String::new();
        for (p, end) in [("c", "int"), ("l", "[int, ? 1]"), ("p", "{a: int}"), ("e", "(x: 1, y: \"a\")"), ("n", "2"), ("g", "(int, 1)"), ("k", "(a: int)"), ("a", "tstr")] {
            for j in 0..d - 1 {
                s += &format!("{p}{j} = {p}{}\n", j + 1);
            }
            s += &format!("{p}{} = {end}\n", d - 1);
        }
        s += "x<Y> = Y\n";
        let vs = vals(vec![i(1), i(2), i(9), t("a"), t("ab"), a(vec![i(1)]), a(vec![i(1), i(1)]), a(vec![]), m(vec![(t("a"), i(1))]), m(vec![(i(1), i(1))]), b(&[1]), b(b"ab"), V::Null]);
        for top in tops {
            w.sweep(&cddl(&format!("t = {top}\n{s}")), "t", &vs);
        }
        // circular and dangling
        for end in ["c0", "missing", "t"] {
            let mut s = String::new();
            for j in 0..d - 1 {
                s += &format!("c{j} = c{}\n", j + 1);
            }
            s += &format!("c{} = {end}\n", d - 1);
            for top in ["c0", "[c0]", "[* c0]", "{* any => c0}", "{* c0 => any}", "[~c0]", "&c0", "1..c0", "uint .size c0", "bytes .cbor c0", "{c0}", "[c0, int // int]", "int / c0"] {
                w.sweep(&cddl(&format!("t = {top}\n{s}")), "t", &vs);
            }
        }
    }));
    let dm = if thorough { 45 } else { 30 };
    out.push(suite("recursive data", format!("recursive lists, trees, maps and encodings with data up to {dm} deep"), dm, |d, w| {
        let schemas = [
            "t = [int, ? t]\n", "t = int / [t]\n", "t = [* t]\n", "t = {? a: t}\n", "t = {* tstr => t} / int\n", "t = [int, u]\nu = null / t\n", "t = (int / [t, t])\n", "t = bytes .cbor t / int\n", "t = l<int>\nl<A> = [A, ? l<A>]\n", "t = l<int>\nl<A> = A / [l<A>]\n",
            "t = [g]\ng = (int, ? [g])\n", "t = {g}\ng = (? a: t)\n", "t = [* int, ? t]\n", "t = [~u, ? t]\nu = [int]\n", "t = {* t => int} / int\n", "t = int / p\np = [q]\nq = [* t]\n", "t = &(a: int, b: u)\nu = [t]\n", "t = [h<t>] / int\nh<A> = (A, ? null)\n",
        ];
        let nest = |f: &dyn Fn(V) -> V, leaf: V| (0..d).fold(leaf, |x, _| f(x));
        let mut vs = vec![];
        for leaf in [i(1), t("x"), V::Null, a(vec![]), m(vec![]), a(vec![i(1)])] {
            vs.push(nest(&|x| a(vec![x]), leaf.clone()));
            vs.push(nest(&|x| a(vec![i(1), x]), leaf.clone()));
            vs.push(nest(&|x| m(vec![(t("a"), x)]), leaf.clone()));
            vs.push(nest(&|x| m(vec![(x, i(1))]), leaf.clone()));
            vs.push(nest(&|x| a(vec![i(1), V::Null, x]), leaf.clone()));
            if d <= 20 {
                vs.push(nest(&|x| b(&encode(&x, &PLAIN)), leaf.clone()));
            }
            vs.push(nest(&|x| a(vec![a(vec![]), x]), leaf));
        }
        let vs = vals(vs);
        for s in schemas {
            w.sweep(&cddl(s), "t", &vs);
        }
    }));
    // long data: no step per element is left on the stack
    out.push(suite("long data", "arrays of up to 20000 elements and maps of up to 120 entries against repetitions of empty, optional and single members", 12, |k, w| {
        let mems = ["int", "(? int)", "(* int)", "(int // tstr)", "g", "~u", "(int, ? tstr)", "h<int>", "(? (? int))", "any", "(int / [t])", "(int, ())"];
        let big: Vec<Val> = vals([0usize, 1, 1000, 5000].iter().map(|n| a((0..*n as i128).map(i).collect())).collect());
        for o in ["*", "+", "1000*5000"] {
            w.sweep(&cddl(&format!("t = [{o} {}]\ng = (int, ? null)\nu = [int]\nh<A> = (A, * null)\n", mems[k])), "t", &big);
        }
    }));
    out.extend(crate::corpus::suites(&["recursion"], thorough));
    out
}

// ------------------------------------------------------------------ C12

/// Replace parameters by arguments in the syntax tree (arguments must not
/// contain parameters that could be captured).
fn subst_t1(t: &mut T1, p: &[String], a: &[T1]) {
    match t {
        T1::S(T2::Name(n)) if n.args.is_empty() && p.contains(&n.name) => {
            let k = p.iter().position(|x| *x == n.name).unwrap();
            *t = match &a[k] {
                x @ T1::S(_) => x.clone(),
                x => T1::S(T2::Paren(Ty(vec![x.clone()]))),
            };
        }
        T1::S(x) => subst_t2(x, p, a),
        T1::Range(x, y, _) | T1::Ctl(x, _, y) => {
            subst_t2(x, p, a);
            subst_t2(y, p, a);
        }
    }
}
fn subst_t2(t: &mut T2, p: &[String], a: &[T1]) {
    match t {
        T2::Name(n) if n.args.is_empty() && p.contains(&n.name) => {
            let k = p.iter().position(|x| *x == n.name).unwrap();
            *t = match &a[k] {
                T1::S(x) => x.clone(),
                x => T2::Paren(Ty(vec![x.clone()])),
            };
        }
        T2::Name(n) => n.args.iter_mut().for_each(|x| subst_t1(x, p, a)),
        T2::Unwrap(n) | T2::Amp(n) => {
            if let Some(k) = p.iter().position(|x| *x == n.name) {
                if let T1::S(T2::Name(m)) = &a[k] {
                    *n = m.clone();
                }
            } else {
                n.args.iter_mut().for_each(|x| subst_t1(x, p, a));
            }
        }
        T2::Lit(_) => {}
        T2::Paren(x) => x.0.iter_mut().for_each(|x| subst_t1(x, p, a)),
        T2::Map(g) | T2::Arr(g) | T2::AmpIn(g) => subst_grp(g, p, a),
    }
}
fn subst_grp(g: &mut Grp, p: &[String], a: &[T1]) {
    for e in g.0.iter_mut().flatten() {
        subst_ent(e, p, a);
    }
}
fn subst_ent(e: &mut Ent, p: &[String], a: &[T1]) {
    match &mut e.body {
        Body::Par(g) => subst_grp(g, p, a),
        Body::Mem(k, t) => {
            if let Some(Key::Type(k, _)) = k {
                subst_t1(k, p, a);
            }
            t.0.iter_mut().for_each(|x| subst_t1(x, p, a));
        }
    }
}

pub fn c12(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let bodies = [
        "A", "[A]", "[* A]", "[A, B]", "[? A, B]", "{a: A}", "{A => int}", "{* A => B}", "{? A ^=> int, * tstr => B}", "A / B", "(A / [B])", "(A, B)", "(? A, B)", "(a: A, ? k: B)", "[+ (A, B)]", "[A // B, A]", "uint .size A", "A .size 1", "A .. B", "1...A", "int .lt A", "A .ge 1", "bytes .cbor A", "bytes .cbor [* B]",
        "~A", "[~A]", "[~A, B]", "{~A}", "{~A, ? ~B}", "&A", "&(x: A, y: B)", "h<A>", "h<[A]>", "[h<B>, h<A>]", "h<h<A>>", "h<x>", "s<B, A>", "s<s<A, B>, A>", "{k: s<A, x>}", "[x, A]", "[* (A / x)]", "C", "[D, A]", "[* w<A>]", "{w<A>}", "h<C>",
    ];
    let args = ["int", "tstr", "1", "\"a\"", "[int]", "{a: int}", "(int / tstr)", "x", "y", "g", "h<int>", "h<x>", "s<x, y>", "A", "B", "C", "(1..2)", "z", "missing", "h", "(tstr .size 1)", "C2"];
    // rules named like parameters stand outside
    let extra = "h<C> = [C]\ns<B, A> = [B, ? A]\nw<D> = (D, ? C)\nx = bool / 1\ny = {a: int}\nz = [int]\ng = (int, tstr)\nA = \"b\" / 300\nB = [* tstr]\nC = null / \"ab\"\nD = 1.5 / 2\nC2 = C\n";
    let mut forms = vec!["t = p<#, $>\n", "t = [p<#, $>]\n", "t = {* tstr => p<#, $>}\n", "t = {p<#, $>, * tstr => int}\n", "t = q<#>\nq<B> = p<B, $>\n", "t = q<#>\nq<B> = p<$, [B]>\n", "t = q<$>\nq<A> = p<#, A>\n", "t = q<#, $>\nq<A, B> = p<B, A>\n", "t = p<#, $> / null\n", "t = q<#, $>\nq<B, A> = [p<B, A>]\n"];
    if !thorough {
        forms.truncate(8);
    }
    let v = arc(vals(pool()));
    let x = v.clone();
    let nf = forms.len();
    out.push(suite("generic rules", format!("{} bodies x {} x {} arguments x {nf} ways of referring", bodies.len(), args.len(), args.len()), bodies.len() * args.len(), move |k, w| {
        let (bd, a1) = (bodies[k % bodies.len()], args[k / bodies.len()]);
        for (j, a2) in args.iter().enumerate() {
            if w.stopped() {
                return;
            }
            for (l, fm) in forms.iter().enumerate() {
                // in the quick tier every pair of arguments meets some of the forms
                if !thorough && (j + l + k) % 3 != 0 {
                    continue;
                }
                let s = format!("{}p<A, B> = {bd}\n{extra}", fm.replace('#', a1).replace('$', a2));
                w.sweep(&cddl(&s), "t", &x);
            }
        }
    }));
    // the same with the arguments written in place: the generic rule against
    // the meaning of a schema without generics
    let x = v.clone();
    let plain_args = ["int", "tstr", "1", "\"a\"", "[int]", "{a: int}", "(int / tstr)", "x", "y", "g", "(1..2)", "z", "missing", "A", "B", "(tstr .size 1)"];
    let plain: Vec<&str> = bodies.iter().copied().filter(|b| !b.contains('<')).collect();
    out.push(suite("substituted by hand", format!("{} bodies x {} x {} arguments, compared with the meaning of the schema after substitution", plain.len(), plain_args.len(), plain_args.len()), plain.len(), move |k, w| {
        for a1 in plain_args {
            for a2 in plain_args {
                if w.stopped() {
                    return;
                }
                for fm in ["t = @\n", "t = [@]\n", "t = {* tstr => @}\n", "t = [(@ / null)]\n"] {
                    let gen = cddl(&format!("{}p<A, B> = {}\n{extra}", fm.replace('@', &format!("p<{a1}, {a2}>")), plain[k]));
                    let mut direct = cddl(&format!("{}p = {}\n{extra}", fm.replace('@', "p"), plain[k]));
                    let params = ["A".to_string(), "B".to_string()];
                    let argv = [t1(a1), t1(a2)];
                    let unwraps = plain[k].contains('~') || plain[k].contains('&');
                    if unwraps && (!matches!(&argv[0], T1::S(T2::Name(_))) || !matches!(&argv[1], T1::S(T2::Name(_))) || gen.0[0] == direct.0[0]) {
                        continue;
                    }
                    if unwraps && argv.iter().any(|a| matches!(a, T1::S(T2::Name(n)) if crate::refsem::prelude(&n.name).is_some())) {
                        continue;
                    }
                    let r = direct.0.iter_mut().find(|r| r.name == "p").unwrap();
                    match &mut r.body {
                        RBody::Ty(t) => t.0.iter_mut().for_each(|o| subst_t1(o, &params, &argv)),
                        RBody::Ent(e) => subst_ent(e, &params, &argv),
                    }
                    // read errors differ where an operand only became literal by substitution
                    let (e1, e2) = (crate::refsem::read_errors(&gen), crate::refsem::read_errors(&direct));
                    if e1 != 0 || e2 != 0 {
                        continue;
                    }
                    let p = match w.read(&gen) {
                        None => continue,
                        Some(p) => p,
                    };
                    let mut sem = crate::refsem::Sem::new(&direct);
                    for v in x.iter() {
                        w.publish_value(&p, "t", v);
                        let r = sem.run("t", &v.v);
                        w.st.states += r.states;
                        w.st.steps += r.steps;
                        w.judge(&p, "t", v, r.bits);
                    }
                }
            }
        }
    }));
    // numbers of arguments
    let mut texts = vec![];
    for np in 0..=3usize {
        for na in 0..=4usize {
            let ps = if np == 0 { String::new() } else { format!("<{}>", ["A", "B", "C"][..np].join(", ")) };
            let av = if na == 0 { String::new() } else { format!("<{}>", ["int", "tstr", "1", "[int]"][..na].join(", ")) };
            for bd in ["int", "A", "[int]", "(int, tstr)", "{a: int}", "[* A]", "(a: int)", "1"] {
                let bd = if np == 0 { bd.replace('A', "int") } else { bd.to_string() };
                for top in ["@", "[@]", "[? @]", "[* @]", "{* tstr => @}", "{@ => int}", "{* @ => int}", "int / @", "@ / int", "[int // @]", "[@ // int]", "&(x: @)", "[~@]", "{~@}", "&@", "1..@", "uint .size @", "@ .lt 2", "bytes .cbor @", "h<@>", "[h<@>]", "k<@>", "[int, @]", "{@}", "{a: int, ? @}", "u<1>"] {
                    texts.push(format!("t = {}\np{ps} = {bd}\nh<X> = X\nk<X> = int\nu<Y> = p{av}\n", top.replace('@', &format!("p{av}"))));
                }
            }
        }
    }
    for top in ["int<tstr>", "tstr<int>", "[any<int>]", "~int", "&int", "[~tstr<int>]", "null<1>", "{a: bool<1>}", "x / int<1>", "h<int<1>>", "{int<1> => 1}", "1..true<1>", "float16<int, int>"] {
        texts.push(format!("t = {top}\nx = any\nh<A> = A\n"));
    }
    let x = v.clone();
    let list: Vec<_> = texts.iter().filter(|t| crate::refparse::parse(t).is_ok()).map(|t| (cddl(t), x.clone())).collect();
    out.push(list_suite("numbers of arguments", "0 to 3 parameters x 0 to 4 arguments in 26 positions; arguments on predefined types", list));
    // starting at a generic rule
    let x = v.clone();
    out.push(suite("starting at a generic rule", "validation against generic rules directly", 1, move |_, w| {
        for bd in ["int", "A", "[A]", "(A, int)", "{a: A}", "A / any"] {
            let s = cddl(&format!("t<A> = {bd}\nu = t<int>\n"));
            w.sweep(&s, "t", &x);
            w.sweep(&s, "u", &x);
        }
    }));
    // depth of arguments within arguments, and of passing on
    out.push(suite("nested and passed-on arguments", "arguments nested or passed on 1 to 40 times, with exchanged parameters", 40, move |d, w| {
        let d = d + 1;
        let mut vs = vec![i(1), t("a"), a(vec![i(1), t("a")]), a(vec![t("a"), i(1)]), a(vec![i(1)]), a(vec![t("a")])];
        for x in [i(1), t("a")] {
            for n in [d - 1, d, d + 1] {
                vs.push((0..n).fold(x.clone(), |x, _| a(vec![x])));
                vs.push((0..n).fold(x.clone(), |x, _| m(vec![(t("k"), x)])));
            }
        }
        let vs = vals(vs);
        let mut texts = vec![
            format!("t = {}int{}\nh<A> = [A]\n", "h<".repeat(d), ">".repeat(d)),
            format!("t = {}int{}\nh<A> = {{k: A}}\n", "h<".repeat(d), ">".repeat(d)),
            format!("t = {}int{}\nh<A> = A\n", "h<".repeat(d), ">".repeat(d)),
        ];
        for (l, r) in [("A", "B"), ("B", "A")] {
            let mut s = "t = f0<int, tstr>\n".to_string();
            for j in 0..d {
                s += &if j % 2 == 0 { format!("f{j}<A, B> = f{}<{l}, {r}>\n", j + 1) } else { format!("f{j}<B, A> = f{}<{l}, {r}>\n", j + 1) };
            }
            s += &format!("f{d}<A, B> = [A, B]\n");
            texts.push(s);
        }
        let mut s = "t = f0<int>\n".to_string();
        for j in 0..d {
            s += &format!("f{j}<A> = f{}<[A]>\n", j + 1);
        }
        s += &format!("f{d}<A> = A\n");
        texts.push(s);
        for x in texts {
            w.sweep(&cddl(&x), "t", &vs);
        }
    }));
    out.extend(crate::corpus::suites(&["generic"], thorough));
    out
}

// ------------------------------------------------------------------ C13

enum Site<'x> {
    T1(&'x mut T1),
    T2(&'x mut T2),
    Ty(&'x mut Ty),
    Body(&'x mut Body),
    Key(&'x mut Key),
    Grp(&'x mut Grp),
    Name(&'x mut Name),
}

struct Walk<'f> {
    f: &'f mut dyn FnMut(Site),
}
impl Walk<'_> {
    fn ty(&mut self, t: &mut Ty) {
        if t.0.len() > 1 {
            (self.f)(Site::Ty(t));
        }
        for o in &mut t.0 {
            self.t1(o);
        }
    }
    fn t1(&mut self, t: &mut T1) {
        (self.f)(Site::T1(t));
        match t {
            T1::S(x) => self.t2(x),
            T1::Range(a, b, _) => {
                (self.f)(Site::T2(a));
                (self.f)(Site::T2(b));
            }
            T1::Ctl(a, op, b) => match op.as_str() {
                "regexp" => {}
                "cbor" => {
                    (self.f)(Site::T2(b));
                    self.t2(b);
                }
                "size" => {
                    (self.f)(Site::T2(a));
                    (self.f)(Site::T2(b));
                    // a range of sizes may be named, its ends not
                    if let T2::Paren(Ty(v)) = b {
                        if let [o @ T1::Range(..)] = v.as_mut_slice() {
                            (self.f)(Site::T1(o));
                        }
                    }
                }
                _ => {
                    (self.f)(Site::T2(a));
                    (self.f)(Site::T2(b));
                }
            },
        }
    }
    fn t2(&mut self, t: &mut T2) {
        match t {
            T2::Lit(_) => {}
            T2::Name(n) => n.args.iter_mut().for_each(|x| self.t1(x)),
            T2::Unwrap(n) | T2::Amp(n) => {
                (self.f)(Site::Name(n));
                n.args.iter_mut().for_each(|x| self.t1(x))
            }
            T2::Paren(t) => self.ty(t),
            T2::Map(g) | T2::Arr(g) => {
                (self.f)(Site::Grp(g));
                self.grp(g);
            }
            T2::AmpIn(g) => {
                (self.f)(Site::Grp(g));
                for e in g.0.iter_mut().flatten() {
                    if let Body::Mem(Some(_), t) = &mut e.body {
                        self.ty(t);
                    }
                }
            }
        }
    }
    fn grp(&mut self, g: &mut Grp) {
        for e in g.0.iter_mut().flatten() {
            self.ent(e);
        }
    }
    fn ent(&mut self, e: &mut Ent) {
        if let Body::Par(_) = e.body {
            (self.f)(Site::Body(&mut e.body));
        }
        match &mut e.body {
            Body::Par(g) => self.grp(g),
            Body::Mem(k, t) => {
                match k {
                    Some(k @ (Key::Bare(_) | Key::Lit(_))) => (self.f)(Site::Key(k)),
                    Some(Key::Type(k, _)) => self.t1(k),
                    None => {}
                }
                self.ty(t);
            }
        }
    }
    fn rule(&mut self, r: &mut Rule) {
        match &mut r.body {
            RBody::Ty(t) => self.ty(t),
            RBody::Ent(e) => self.ent(e),
        }
    }
}

fn new_name(s: &Schema) -> String {
    let mut k = 0;
    loop {
        let n = format!("moved{k}");
        if s.0.iter().all(|r| r.name != n) {
            return n;
        }
        k += 1;
    }
}

/// Move the k-th part into a rule of its own behind `chain` further names;
/// with `gen`, that rule has one more parameter, which it does not use.
fn moved(s: &Schema, k: usize, chain: usize, gen: bool) -> Option<Schema> {
    let mut s = s.clone();
    let nm = new_name(&s);
    let mut count = 0;
    let mut made: Option<RBody> = None;
    let mut params: Vec<String> = vec![];
    for r in &mut s.0 {
        let ps = r.params.clone();
        let mut args: Vec<T1> = ps.iter().map(|p| name(p)).collect();
        if gen && chain == 0 {
            args.push(T1::S(T2::Lit(Lit::Uint(1))));
        }
        let nm2 = nm.clone();
        let rf = T2::Name(Name { name: nm2, args });
        let mut f = |site: Site| {
            if count == k && made.is_none() {
                params = ps.clone();
                made = Some(match site {
                    Site::T1(t) => RBody::Ty(Ty(vec![std::mem::replace(t, T1::S(rf.clone()))])),
                    Site::T2(t) => RBody::Ty(Ty(vec![T1::S(std::mem::replace(t, rf.clone()))])),
                    Site::Ty(t) => RBody::Ty(std::mem::replace(t, Ty(vec![T1::S(rf.clone())]))),
                    Site::Body(b) => RBody::Ent(Ent { occ: Occ::One, body: std::mem::replace(b, Body::Mem(None, Ty(vec![T1::S(rf.clone())]))) }),
                    Site::Key(k) => {
                        let old = std::mem::replace(k, Key::Type(Box::new(T1::S(rf.clone())), true));
                        RBody::Ty(Ty(vec![match old {
                            Key::Bare(s) => text(&s),
                            Key::Lit(l) => T1::S(T2::Lit(l)),
                            _ => unreachable!(),
                        }]))
                    }
                    Site::Grp(g) => {
                        let old = std::mem::replace(g, Grp(vec![vec![Ent { occ: Occ::One, body: Body::Mem(None, Ty(vec![T1::S(rf.clone())])) }]]));
                        RBody::Ent(Ent { occ: Occ::One, body: Body::Par(old) })
                    }
                    Site::Name(n) => {
                        let T2::Name(to) = rf.clone() else { unreachable!() };
                        RBody::Ty(Ty(vec![T1::S(T2::Name(std::mem::replace(n, to)))]))
                    }
                });
            }
            count += 1;
        };
        Walk { f: &mut f }.rule(r);
    }
    let body = made?;
    // the chain of names
    let mut cur = nm.clone();
    let args: Vec<T1> = params.iter().map(|p| name(p)).collect();
    for c in 0..chain {
        let next = format!("{nm}x{c}");
        let mut args = args.clone();
        if gen && c + 1 == chain {
            args.push(T1::S(T2::Lit(Lit::Uint(1))));
        }
        s.0.push(Rule { name: cur, params: params.clone(), body: RBody::Ty(Ty(vec![named(&next, args)])) });
        cur = next;
    }
    let mut params = params;
    if gen {
        params.push(format!("Un{nm}"));
    }
    s.0.push(Rule { name: cur, params, body });
    Some(s)
}

fn sites(s: &Schema) -> usize {
    let mut s = s.clone();
    let mut n = 0;
    for r in &mut s.0 {
        Walk { f: &mut |_| n += 1 }.rule(r);
    }
    n
}

/// Rename every rule.
fn renamed(s: &Schema, f: &dyn Fn(usize) -> String) -> Schema {
    let names: Vec<String> = s.0.iter().map(|r| r.name.clone()).collect();
    let mut s = s.clone();
    fn n(n: &mut Name, names: &[String], ps: &[String], f: &dyn Fn(usize) -> String) {
        if !ps.contains(&n.name) {
            if let Some(k) = names.iter().position(|x| *x == n.name) {
                n.name = f(k);
            }
        }
        for a in &mut n.args {
            t1(a, names, ps, f);
        }
    }
    fn t1(t: &mut T1, names: &[String], ps: &[String], f: &dyn Fn(usize) -> String) {
        match t {
            T1::S(t) => t2(t, names, ps, f),
            T1::Range(a, b, _) | T1::Ctl(a, _, b) => {
                t2(a, names, ps, f);
                t2(b, names, ps, f);
            }
        }
    }
    fn t2(t: &mut T2, names: &[String], ps: &[String], f: &dyn Fn(usize) -> String) {
        match t {
            T2::Lit(_) => {}
            T2::Name(x) | T2::Unwrap(x) | T2::Amp(x) => n(x, names, ps, f),
            T2::Paren(t) => t.0.iter_mut().for_each(|x| t1(x, names, ps, f)),
            T2::Map(g) | T2::Arr(g) | T2::AmpIn(g) => g.0.iter_mut().flatten().for_each(|e| ent(e, names, ps, f)),
        }
    }
    fn ent(e: &mut Ent, names: &[String], ps: &[String], f: &dyn Fn(usize) -> String) {
        match &mut e.body {
            Body::Par(g) => g.0.iter_mut().flatten().for_each(|e| ent(e, names, ps, f)),
            Body::Mem(k, t) => {
                if let Some(Key::Type(k, _)) = k {
                    t1(k, names, ps, f);
                }
                t.0.iter_mut().for_each(|x| t1(x, names, ps, f));
            }
        }
    }
    for (k, r) in s.0.iter_mut().enumerate() {
        let ps = r.params.clone();
        r.name = f(k);
        match &mut r.body {
            RBody::Ty(t) => t.0.iter_mut().for_each(|x| t1(x, &names, &ps, f)),
            RBody::Ent(e) => ent(e, &names, &ps, f),
        }
    }
    s
}

static BASE_TEXTS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

/// Schemas to be transformed, with the values to look at.
fn bases(thorough: bool) -> Vec<(Schema, String, Arc2)> {
    let texts = [
        "t = int", "t = [int, tstr]", "t = [* int / tstr]", "t = [(int, tstr), ? 1]", "t = [? (int, tstr), * int]", "t = [int // tstr, int]", "t = [2*3 (int / [tstr])]", "t = {a: int, ? \"k\" => tstr}", "t = {? a: int, * tstr => tstr / int}", "t = {* int => int, ? \"b\" ^=> 1}",
        "t = {(a: int, k: tstr // b: int)}", "t = {? (a: int), * tstr => any}", "t = {[int] => 1}", "t = {({a: int} / 1) => any, * any => any}", "t = 1..3 / \"a\"", "t = 0.5 ... 1.5", "t = [uint .size 1, ? tstr .size (1..2)]", "t = int .lt 3 / tstr .size 1 / bytes .size 2", "t = uint .ge 2", "t = bytes .cbor (int / [* int])", "t = bytes .cbor {* tstr => any}",
        "t = &(x: 1, y: \"a\", z: [int])", "t = [* &(n1: 1, n2: \"a\")]", "t = [~u, ? tstr]\nu = [int, ? 1]", "t = {~u, * tstr => any}\nu = {? a: int}", "t = p<int, [tstr]>\np<A, B> = [A, ? B] / {a: A}", "t = p<1>\np<A> = [* A / p<A>] / {* tstr => A}", "t = [g, ? g]\ng = (int, ? tstr)", "t = tstr .regexp \"a\" / null", "t = [[int], {a: [tstr]}] / [[* any]]", "t = any", "t = [true, ? null, * 1.5]",
        "t = {true => 1, * any => any} / {1 => tstr}", "t = {? 1: int, ? \"a\": tstr, * any => [int]}", "t = [* (int, tstr)] / [* (tstr, int)]", "t = [(? int, ? tstr), * any]", "t = [missing / int]", "t = {missing => int}", "t = [p<int>]\np<A, B> = A", "t = 1..\"a\" / [int]", "t = [? (int, missing), tstr]", "t = h'01' / 'a' / \"\"",
        "t = &u\nu = (x: 1, z: 2, y: \"a\")", "t = [&u, ? &(a: 1)]\nu = (x: 1 / \"k\", y: [int])", "t = [* ~p<int>]\np<A> = [A, ? tstr]", "t = {* &u => ~v}\nu = (k: 1, l: \"a\")\nv = int / tstr", "t = {~p<\"a\", int>, ? ~q}\np<K, V> = {? K => V}\nq = {* tstr => any}", "t = uint .lt k / tstr .size n\nk = 3\nn = 1", "t = k..m\nk = 1\nm = 3", "t = [a, b] / {a, b}\na = (? x: int)\nb = (y: tstr // z: 1)", "t = p<p<int>>\np<A> = [? A]", "t = [? p<1, 2>, * q]\np<A, B> = (A, B)\nq = 1 / tstr", "t = ~u\nu = int / tstr",
    ];
    BASE_TEXTS.store(texts.len(), std::sync::atomic::Ordering::Relaxed);
    let v = std::sync::Arc::new(vals(pool()));
    let mut out: Vec<(Schema, String, Arc2)> = texts.iter().map(|x| (cddl(&format!("{x}\n")), "t".to_string(), v.clone())).collect();
    for d in crate::corpus::DOCS {
        let base = d.values();
        let mut all = base.clone();
        for x in &base {
            let near = crate::corpus::near(x, false);
            let step = if thorough { 1 } else { (near.len() / 80).max(1) };
            all.extend(near.into_iter().step_by(step));
        }
        out.push((d.schema(), d.start(), std::sync::Arc::new(vals(all))));
    }
    out
}
type Arc2 = std::sync::Arc<Vec<Val>>;

/// The transformed schema must give what the original means.
fn same_as(w: &mut Worker, orig: &Schema, start: &str, new: &Schema, new_start: &str, vs: &[Val]) {
    let text = crate::ast::print(new);
    // what the text says is what counts
    let new = match crate::refparse::parse(&text) {
        Ok(r) => Schema(r.into_iter().map(|r| r.rule).collect()),
        Err(e) => panic!("transformed schema does not parse ({e:?}):\n{text}"),
    };
    let e = crate::refsem::read_errors(&new);
    if crate::refsem::read_errors(orig) != 0 || e != 0 {
        w.read_text(text, e);
        return;
    }
    let p = match w.read_text(text, e) {
        None => return,
        Some(p) => p,
    };
    let mut so = crate::refsem::Sem::new(orig);
    let mut sn = crate::refsem::Sem::new(&new);
    for v in vs {
        if w.stopped() {
            return;
        }
        w.publish_value(&p, new_start, v);
        let r = so.run(start, &v.v);
        w.st.states += r.states;
        w.st.steps += r.steps;
        let n = sn.run(new_start, &v.v);
        let (x, y) = (r.bits, n.bits);
        if x & crate::refsem::UNSPEC == 0 && y & crate::refsem::UNSPEC == 0 && x & y == 0 {
            panic!("the reference disagrees with itself: {} / {} for {}\n{}\n{}", show(x), show(y), diag(&v.v), crate::ast::print(orig), p.text);
        }
        let exp = if (x | y) & crate::refsem::UNSPEC != 0 { crate::refsem::UNSPEC } else { x };
        w.judge(&p, new_start, v, exp);
    }
}

/// The name of the start rule is taken as it is.
fn start_names() -> Suite<'static> {
    let rules = ["t", "T", "a-b", "a.b", "$s", "$$s", "@x", "_y", "t1", "int", "tstr", "any", "nosuch", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"];
    let n = rules.len();
    suite("names of start rules", format!("{n} rule names, each cut, extended and changed in about 40 ways, as the start rule of one call"), n, move |k, w| {
        let r = rules[k];
        let mut names: Vec<String> = vec![r.into(), String::new(), r.to_uppercase(), r.to_lowercase(), r[1..].into(), r[..r.len() - 1].into(), r.repeat(2), r.replace('-', "_"), r.replace('.', "-"), format!("{r}<int>"), format!("{r}<>"), format!("({r})"), format!("~{r}"), format!("&{r}"), format!("{r} = int"), format!("{r}/int"), format!("[{r}]"), format!("{r};"), format!("{r} ; c"), format!("\"{r}\""), format!("'{r}'"), format!("{r}.0"), format!("{r}\u{301}"), format!("${r}"), format!("$${r}"), format!("@{r}"), format!("_{r}"), format!("#{r}"), format!("{r}#"), format!("./{r}")];
        for s in [" ", "\t", "\n", "\r", "\r\n", "\0", "\u{a0}", "\u{feff}", "\u{2028}", "-", "."] {
            names.extend([format!("{s}{r}"), format!("{r}{s}"), format!("{s}{r}{s}")]);
        }
        names.sort();
        names.dedup();
        for (text, def) in [(format!("{r} = int\nother = tstr\n"), r), ("other = tstr\nzz = int\n".to_string(), ""), (format!("{r}-x = tstr\n{r} = int\n{r}.y = tstr\n"), r)] {
            for name in &names {
                let known = (name == r && !def.is_empty()) || ["other", "zz"].contains(&name.as_str()) && text.contains(&format!("{name} = "));
                let sch = cddl(&text);
                for (h, j, v) in [("01", "1", i(1)), ("6161", "\"a\"", t("a"))] {
                    let e = if known { crate::refsem::Sem::new(&sch).run(name, &v).bits } else { crate::refsem::MISSING };
                    w.st.states += 1;
                    w.raw(&text, name, Input::Cbor(&crate::value::unhex(h)), e, &[]);
                    w.raw(&text, name, Input::Json(j), e, &[]);
                }
            }
        }
    })
}

/// Every part of the basic schemas moved into a rule.
pub fn moved_everywhere(thorough: bool) -> Suite<'static> {
    let bs = std::sync::Arc::new(bases(thorough));
    let jobs: Vec<(usize, usize)> = bs.iter().enumerate().flat_map(|(b, x)| (0..sites(&x.0)).map(move |k| (b, k))).collect();
    let nj = jobs.len();
    suite("every part behind a name", format!("{} schemas, each of their {nj} parts moved into a rule, generic or not, behind 0 to 3 names", bs.len()), nj, move |k, w| {
        let (b, site) = jobs[k];
        let (s, start, v) = &bs[b];
        for (chain, gen) in [(0, false), (1, false), (3, false), (0, true), (1, true), (2, true)] {
            if let Some(n) = moved(s, site, chain, gen) {
                w.sweep(&n, start, v);
            }
        }
    })
}

pub fn c13(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let bs = std::sync::Arc::new(bases(thorough));
    // every part moved into a rule
    let jobs: Vec<(usize, usize)> = bs.iter().enumerate().flat_map(|(b, x)| (0..sites(&x.0)).map(move |k| (b, k))).collect();
    let b2 = bs.clone();
    let nj = jobs.len();
    let jobs = std::sync::Arc::new(jobs);
    let j2 = jobs.clone();
    out.push(suite("parts moved into rules", format!("{} schemas, each of their {nj} parts moved into a rule, generic or not, behind 0 to 3 names", bs.len()), nj, move |k, w| {
        let (b, site) = j2[k];
        let (s, start, v) = &b2[b];
        for (chain, gen) in [(0, false), (1, false), (3, false), (0, true), (1, true), (2, true)] {
            if let Some(n) = moved(s, site, chain, gen) {
                same_as(w, s, start, &n, start, v);
            }
        }
    }));
    // two parts at once
    let b2 = bs.clone();
    out.push(suite("two parts moved", if thorough { "every pair of parts, and every three of small schemas" } else { "every third pair of parts of small schemas" }, nj, move |k, w| {
        let (b, site) = jobs[k];
        let (s, start, v) = &b2[b];
        let small = b < BASE_TEXTS.load(std::sync::atomic::Ordering::Relaxed);
        if !small && !thorough {
            return;
        }
        if let Some(one) = moved(s, site, 0, false) {
            let total = sites(&one);
            let step = if thorough { 1 } else { 3 };
            for l in ((k % step)..total).step_by(step) {
                if w.stopped() {
                    return;
                }
                if let Some(two) = moved(&one, l, (l + k) % 2, (l + k) % 3 == 0) {
                    same_as(w, s, start, &two, start, v);
                    if thorough && small {
                        for m in 0..sites(&two) {
                            if let Some(three) = moved(&two, m, (l + m) % 2, (k + m) % 3 == 0) {
                                same_as(w, s, start, &three, start, v);
                            }
                        }
                    }
                }
            }
        }
    }));
    // names, orders, unused rules
    let b2 = bs.clone();
    let unused = "unused1 = [unused2, missing-too]\nunused2<A> = {A => unused1}\nunused3 = (unused3, ? 1)\nuses-t = \"t\" / u<int>\nu9 = \"a\"\nint2 = tstr\nA9<t9, X> = t9\n";
    out.push(suite("renamed, reordered and unused rules", format!("{} schemas x 14 ways of naming x orders x unused rules", bs.len()), bs.len(), move |k, w| {
        let (s, start, v) = &b2[k];
        let at = s.0.iter().position(|r| r.name == *start).unwrap();
        let ways: Vec<Box<dyn Fn(usize) -> String>> = vec![
            Box::new(|k| format!("r{k}")),
            Box::new(|k| format!("{}", "z".repeat(k + 1))),
            Box::new(|k| format!("a-{k}.b")),
            Box::new(|k| format!("$s{k}")),
            Box::new(|k| format!("@x{k}")),
            Box::new(|k| format!("_{k}")),
            Box::new(|k| format!("int{k}")),
            Box::new(|k| format!("{}-{}", ["int", "tstr", "any", "true", "null", "uint", "bytes", "float"][k % 8], k)),
            Box::new(|k| if k % 2 == 0 { format!("Name{}", k / 2) } else { format!("name{}", k / 2) }),
            Box::new(|k| format!("{}{}", ["Int", "NULL", "Tstr", "ANY", "True"][k % 5], "_".repeat(k / 5))),
            Box::new(|k| format!("n{}", "x".repeat(60 + k))),
            Box::new(|k| format!("x{:03}", 999 - k)),
            Box::new(|k| format!("a{}b", ".-".repeat(k + 1))),
            Box::new(|k| format!("$$g{k}@")),
        ];
        for f in &ways {
            let n = renamed(s, f);
            let st = n.0[at].name.clone();
            same_as(w, s, start, &n, &st, v);
        }
        // orders
        let len = s.0.len();
        let mut orders: Vec<Vec<usize>> = vec![(0..len).rev().collect()];
        for r in 1..len {
            orders.push((0..len).map(|x| (x + r) % len).collect());
        }
        if len <= 4 {
            orders = perms(len);
        }
        for o in orders {
            let n = Schema(o.iter().map(|x| s.0[*x].clone()).collect());
            same_as(w, s, start, &n, start, v);
        }
        // unused rules before, after and in between
        let un = cddl(unused);
        for place in [0, len, len / 2] {
            let mut n = s.clone();
            for (j, r) in un.0.iter().enumerate() {
                n.0.insert(place + j, r.clone());
            }
            same_as(w, s, start, &n, start, v);
        }
        for r in &un.0 {
            let mut n = s.clone();
            n.0.push(r.clone());
            same_as(w, s, start, &n, start, v);
        }
    }));
    // names that differ in little
    let names = ["a", "A", "aa", "a-a", "a.a", "a_a", "aA", "Aa", "$a", "@a", "_a", "a1", "a2", "a-", "b"].iter().copied().filter(|x| !x.ends_with('-')).collect::<Vec<_>>();
    let n = names.len();
    out.push(suite("similar names", "15 names that differ in little, each standing for something else", n, move |k, w| {
        let defs: String = names.iter().enumerate().map(|(j, x)| format!("{x} = {j}\n")).collect();
        let vs = vals((0..n as i128 + 2).flat_map(|x| [i(x), a(vec![i(x)]), m(vec![(i(x), i(x))]), m(vec![(t("a"), i(x))])]).collect());
        for top in ["t = @\n", "t = [@]\n", "t = {@ => @}\n", "t = 0..@\n", "t = {a: @}\n", "t = p<@>\np<X> = [X]\n", "t = uint .size @\n", "t = &(x: @)\n", "t = p<@>\np<a> = [a]\n"] {
            w.sweep(&cddl(&format!("{}{defs}", top.replace('@', names[k]))), "t", &vs);
            // the same with that name undefined
            let without: String = names.iter().enumerate().filter(|(j, _)| *j != k).map(|(j, x)| format!("{x} = {j}\n")).collect();
            w.sweep(&cddl(&format!("{}{without}", top.replace('@', names[k]))), "t", &vs);
        }
    }));
    out.push(near_names());
    out.push(contexts());
    out.push(super::data::contexts());
    out.push(start_names());
    out
}

/// Names that nothing defines, next to one that is defined: a prefix or suffix
/// more or less, another case, a character doubled or exchanged.
fn near_names() -> Suite<'static> {
    let defined = ["a", "ab", "item-id", "$sock", "$$grp", "@x", "_u", "a.b", "X1", "int-or", "tstr2"];
    let extra = ["_", "-", ".", "$", "@", "a", "A", "0", "1", "-t", ".x", "__", "$$", "s", "_1", "z"];
    let mut pairs: Vec<(String, String)> = vec![];
    for d in defined {
        let mut near = vec![d.to_uppercase(), d.to_lowercase(), format!("{d}{d}"), d.replace('-', "_"), d.replace('.', "-"), d.replace('$', "@"), d.replace('_', "-"), d.chars().rev().collect(), d.trim_matches(['$', '@', '_']).to_string()];
        for k in 0..=d.len() {
            for e in extra {
                near.push(format!("{}{e}{}", &d[..k], &d[k..]));
            }
            near.push(d[..k].into());
            near.push(d[k..].into());
            if k < d.len() {
                near.push(format!("{}{}", &d[..k], &d[k + 1..]));
                for e in extra {
                    near.push(format!("{}{e}{}", &d[..k], &d[k + 1..]));
                }
            }
        }
        near.retain(|n| n != d && !["t", "p", "X"].contains(&n.as_str()) && n.chars().next().is_some_and(|c| !c.is_ascii_digit() && c != '-' && c != '.') && !n.ends_with(['-', '.']));
        near.sort();
        near.dedup();
        pairs.extend(near.into_iter().map(|n| (d.to_string(), n)));
    }
    // names next to those of predefined types
    for n in ["int_", "Int", "INT", "ints", "_int", "$int", "int1", "in", "nt", "uin", "tstr_", "Tstr", "text_", "Text", "bytes_", "any_", "Any", "anything", "nul", "nil_", "Null", "True", "true_", "tru", "boolean", "string", "number_", "float_", "float", "float8", "float65", "integer_", "double", "byte", "map", "array", "list", "undefine"] {
        pairs.push(("a".into(), n.into()));
    }
    let n = pairs.len();
    let vs = vals([i(1), t("a"), b(&[1]), V::Null, V::Bool(true), f(1.5)].into_iter().flat_map(|x| [x.clone(), a(vec![x.clone()]), m(vec![(t("a"), x.clone())]), m(vec![(x.clone(), x)])]).chain([a(vec![]), m(vec![])]).collect());
    suite("names next to defined ones", format!("{n} names, each a character or two from a defined (or predefined) one, in 16 places, and as the rule to start from"), n, move |k, w| {
        let (d, u) = &pairs[k];
        for top in ["t = @\n", "t = [@]\n", "t = [? @]\n", "t = {* any => @}\n", "t = {@ => any}\n", "t = {a: @}\n", "t = @ / tstr\n", "t = null / @\n", "t = 0..@\n", "t = uint .size @\n", "t = &@\n", "t = [~@]\n", "t = p<@>\np<X> = [X]\n", "t = @<int>\n", "t = bytes .cbor int / {@}\n", "t = [@ // 1]\n"] {
            for body in ["1", "(1, ? 2)", "[1]"] {
                w.sweep(&cddl(&format!("{}{d} = {body}\n", top.replace('@', u))), "t", &vs);
            }
        }
        w.sweep(&cddl(&format!("{d} = any\n")), u, &vs);
    })
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut o = vec![];
    for p in perms(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            o.push(q);
        }
    }
    o
}

/// Lookups go through the context of the caller, by the name as written.
fn contexts() -> Suite<'static> {
    use cddl_cat::context::LookupContext;
    use cddl_cat::ivt::RuleDef;
    struct Ctx<'a> {
        rules: &'a cddl_cat::ivt::RulesByName,
        map: &'a dyn Fn(&str) -> Option<String>,
        asked: std::cell::RefCell<Vec<String>>,
    }
    impl LookupContext for Ctx<'_> {
        fn lookup_rule<'b>(&'b self, name: &str) -> Result<&'b RuleDef, cddl_cat::ValidateError> {
            self.asked.borrow_mut().push(name.to_string());
            (self.map)(name)
                .and_then(|n| self.rules.get(&n))
                .ok_or_else(|| cddl_cat::ValidateError::MissingRule(name.into()))
        }
    }
    let tops = ["t = x\n", "t = [x]\n", "t = {x => 1}\n", "t = {a: x}\n", "t = [* x]\n", "t = x / null\n", "t = [g]\n", "t = {k}\n", "t = [~u]\n", "t = &e\n", "t = 0..n\n", "t = uint .size n\n", "t = p<x>\n", "t = [p<p<x>>]\n", "t = bytes .cbor x\n", "t = y\n", "t = int .lt n\n"];
    let defs = "x = int\ny = x\ng = (x, 1)\nk = (a: x)\nu = [x, ? 1]\ne = (q: x)\nn = 2\np<A> = A\n";
    // the other meaning of every name
    let other = "x2 = tstr\ny2 = null\ng2 = (x, tstr)\nk2 = (b: x)\nu2 = [x, x]\ne2 = (q: \"b\")\nn2 = 1\np2<A> = [A]\n";
    suite("lookup contexts", "17 schemas under contexts that give a name another meaning, none, or the usual one", tops.len(), move |k, w| {
        let vs = vals(pool());
        let text = format!("{}{defs}{other}", tops[k]);
        let schema = cddl(&text);
        let p = match w.read(&schema) {
            Some(p) => p,
            None => return,
        };
        let names = ["x", "y", "g", "k", "u", "e", "n", "p"];
        for gone in std::iter::once(None).chain(names.iter().map(|n| Some((*n, false)))).chain(names.iter().map(|n| Some((*n, true)))) {
            let map = move |n: &str| -> Option<String> {
                match gone {
                    Some((g, true)) if n == g => Some(format!("{n}2")),
                    Some((g, false)) if n == g => None,
                    _ => Some(n.to_string()),
                }
            };
            // the reference sees a schema in which that name is defined so
            let mut eq = schema.clone();
            match gone {
                Some((g, true)) => {
                    let body = eq.0.iter().find(|r| r.name == format!("{g}2")).unwrap().clone();
                    let r = eq.0.iter_mut().find(|r| r.name == g).unwrap();
                    r.body = body.body;
                }
                Some((g, false)) => eq.0.retain(|r| r.name != g),
                None => {}
            }
            let mut sem = crate::refsem::Sem::new(&eq);
            let def = p.ctx.rules.get("t").unwrap();
            for v in &vs {
                let exp = sem.run("t", &v.v);
                w.st.states += exp.states;
                w.st.steps += exp.steps;
                w.publish_value(&p, "t", v);
                let ctx = Ctx { rules: &p.ctx.rules, map: &map, asked: Default::default() };
                let got = match w.imp(|| cddl_cat::validate_cbor(def, &v.cbor, &ctx)) {
                    Ok(r) => class(&r),
                    Err(_) => PANIC,
                };
                w.st.traces += 1;
                w.outcome(got);
                let asked = ctx.asked.into_inner();
                let odd = asked.iter().find(|n| !names.contains(&n.as_str()));
                if exp.bits & got == 0 || odd.is_some() {
                    w.violation(Violation {
                        key: format!("context:{}", tops[k].len()),
                        what: "lookup through a caller's context".into(),
                        case: None,
                        extra: serde_json::json!({"schema": text, "changed": format!("{gone:?}"), "data": diag(&v.v), "asked": asked}),
                        expected: show(exp.bits),
                        got: show(got),
                        size: text.len(),
                    });
                }
            }
        }
    })
}

// ------------------------------------------------------------------ C14

pub fn c14(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    // @ is the unwrapped array or the group in its place
    let hosts = ["[@]", "[@, int]", "[int, @]", "[? @, int]", "[* @]", "[+ @, tstr]", "[2*3 @]", "[@ // int]", "[int, tstr // @]", "[(@, tstr) // @]", "[? (@, tstr), * int]", "[* (@, ? tstr)]", "[@, @]", "[0*0 @, * int]", "[(? @), ? int]", "[@, * any]", "[* int, @]"];
    let c = Cfg { atoms: bodies(&["int", "tstr", "1", "[int]", "g"]), occs: occs(&["", "?", "*"]), poccs: occs(&["", "?"]), depth: 1, alts: 2, empty: true };
    let gs = Groups::up_to(&c, 2);
    let el = [i(1), i(2), t("a")];
    let mut av = arrays(&el, 4);
    av.extend(vals(vec![a(vec![a(vec![i(1)])]), a(vec![a(vec![i(1)]), i(1)]), a(vec![i(1), a(vec![i(1)])])]));
    if !thorough {
        av.retain(|v| match &v.v {
            V::Arr(x) => x.len() < 4,
            _ => true,
        });
    }
    out.push(unwrap_suite("unwrapped arrays", gs, hosts.to_vec(), true, av, "g = (int, tstr)\n", thorough));
    let mhosts = ["{@}", "{@, c: int}", "{? @, * tstr => int}", "{? @}", "{@ // a: int}", "{a: tstr // @}", "{(@, c: int) // @}", "{? (@, c: int), * tstr => any}", "{@, * tstr => any}", "{* tstr => int, @}", "{? a: tstr, @}", "{@, ~v}", "{(? @), * any => any}", "{0*0 @, * tstr => any}", "{1*2 @}"];
    let c = Cfg { atoms: bodies(&["a: int", "b: int", "\"a\" => tstr", "tstr => int", "tstr ^=> tstr", "g"]), occs: occs(&["", "?", "*"]), poccs: occs(&["", "?"]), depth: 1, alts: 2, empty: true };
    let gs = Groups::up_to(&c, 2);
    let mut mv = maps(&[t("a"), t("b"), t("c")], &[i(1), t("x")]);
    mv.push(a(vec![]));
    out.push(unwrap_suite("unwrapped maps", gs, mhosts.to_vec(), false, vals(mv), "g = (a: int, ? b: int)\nv = {c: int}\n", thorough));
    // what unwrapping stands for: shapes and routes
    let shapes = [
        "[int]", "[int, tstr]", "[]", "[* int]", "[int // tstr]", "{a: int}", "{}", "{* tstr => int}", "int", "1", "\"a\"", "(int)", "([int])", "([int, tstr])", "({a: int})", "(int, tstr)", "(a: int)", "[int] / [tstr]", "{a: int} / {b: int}", "1..3", "uint .size 1", "al", "al2", "alm", "missing", "any", "null", "gen<int>", "gen<al>", "&e", "~al", "[~al]", "[[int]]", "bytes .cbor [int]", "lp", "tstr", "(al)", "(al / al2)", "pp<al>", "? [int]", "* al",
    ];
    let hosts = ["[@]", "[? @]", "[* @]", "[@, ? int]", "[? @, int]", "[@ // int]", "{@}", "{? @}", "{? @, * tstr => int}", "{@ // a: int}", "@", "@ / int", "[(@)]", "[@ / int]", "[int / @]", "{(@)}", "{a: @}", "{@ => int}", "[k: @]", "&(x: @)", "[+ (@, ? tstr)]", "[~f1]", "{~f1, * any => any}", "h<@>"];
    let refs = ["~s", "~c1", "~x"];
    let extra = "al = [int]\nal2 = al\nalm = {a: int}\ngen<A> = [A, ? int]\ne = (1, 2)\nlp = lp\npp<A> = A\nc1 = c2\nc2 = c3\nc3 = s\nf1 = s\nh<A> = [A]\n";
    let v = arc(vals(pool()));
    let x = v.clone();
    out.push(suite("shapes and routes", format!("{} shapes x {} hosts x directly, through names, through parameters", shapes.len(), hosts.len()), shapes.len(), move |k, w| {
        for host in hosts {
            for rf in refs {
                let body = host.replace('@', rf);
                let s = if rf == "~x" { format!("t = q<s>\nq<x> = {body}\n") } else { format!("t = {body}\n") };
                let s = format!("{s}s = {}\n{extra}", shapes[k]);
                if crate::refparse::parse(&s).is_ok() {
                    w.sweep(&cddl(&s), "t", &x);
                }
            }
        }
    }));
    // unwrapping of generic arrays, and unwrapping within unwrapping
    let texts: Vec<String> = [
        "t = [~p<int>]\np<A> = [A, ? A]\n", "t = [~p<int>, ~p<tstr>]\np<A> = [A]\n", "t = {~p<int>, ? b: int}\np<A> = {a: A}\n", "t = [~q<int>]\nq<A> = p<[A]>\np<A> = [A, ? tstr]\n", "t = [~q<u>]\nq<A> = A\nu = [int]\n", "t = [? ~p<p<int>>, tstr]\np<A> = [A]\n",
        "t = [~a1]\na1 = [~a2, ? tstr]\na2 = [~a3 // 2]\na3 = [1]\n", "t = {~a1}\na1 = {~a2, ? k: int}\na2 = {? a: int}\n", "t = q<u>\nq<A> = [~A, ? ~A]\nu = [int]\n", "t = q<u>\nq<A> = r<A>\nr<B> = [* ~B]\nu = [int, tstr]\n", "t = q<u, v>\nq<A, B> = [~A // ~B]\nu = [int, tstr]\nv = [tstr]\n", "t = [~u]\nu = [~u]\n", "t = [~u]\nu = [int, ? ~u]\n",
        "t = [* ~u]\nu = []\n", "t = [+ ~u, int]\nu = [? tstr]\n", "t = [~p]\np<A> = [A]\n", "t = [~p<1, 2>]\np<A> = [A]\n", "t = q<int>\nq<A> = [~A]\n", "t = q<[int]>\nq<A> = [~A]\n", "t = q<{a: int}>\nq<A> = {~A}\n", "t = q<([int])>\nq<A> = [~A, 1]\n",
    ].iter().map(|s| s.to_string()).collect();
    let mut texts = texts;
    // arguments of all kinds, equal and different
    let args = ["int", "tstr", "[int]", "1", "u", "x", "(int / tstr)", "p<int, int>"];
    for a in args {
        for b in args {
            for s in ["t = [~p<@, #>]\np<A, B> = [A, B]\n", "t = [~p<@, #>]\np<A, B> = [B, ? A]\n", "t = [~p<@, #>]\np<A, B> = [A // B, int]\n", "t = [~p<@, #>, ? ~p<#, @>]\np<A, B> = [A, B]\n", "t = {~p<@, #>}\np<A, B> = {A => int, ? B => tstr}\n", "t = {~p<@, #>}\np<A, B> = {a: A, ? b: B}\n", "t = q<@, #>\nq<A, B> = [~p<A, B>, ? ~p<B, A>]\np<A, B> = [B, ? A]\n", "t = q<@, #>\nq<X, Y> = [~p<Y, Y>, ? ~p<X, Y>]\np<A, B> = [A, B]\n", "t = [* ~p<@, #>]\np<A, B> = [A, ? B]\n", "t = q<[@], [#]>\nq<A, B> = [~A, ? ~B]\np<A, B> = [A, B]\n", "t = [~p<@, #, @>]\np<A, B, C> = [A, B, C]\n", "t = [~p<@, #>]\np<A, B> = [A, A, ? B]\n"] {
                let s = s.replace('@', a).replace('#', b);
                let s = if s.contains("np<") || s.contains("\np<") { s } else { format!("{s}p<A, B> = [A, B]\n") };
                texts.push(format!("{s}u = [int]\nx = tstr\n"));
            }
        }
    }
    texts.retain(|s| crate::refparse::parse(s).is_ok());
    let v = {
        let mut x = pool();
        x.extend([a(vec![i(1), i(2), i(3)]), a(vec![t("a"), i(1), t("b"), i(2)]), a(vec![i(1), t("a"), i(1)]), a(vec![t("a"), i(1), t("a")]), a(vec![i(1), i(1), i(1), i(1)]), a(vec![t("a"), t("a"), t("a"), t("a")]), a(vec![i(1), t("a"), t("a"), i(1)]), a(vec![a(vec![i(1)]), i(1)]), a(vec![i(1), a(vec![i(1)])]), a(vec![a(vec![i(1)]), a(vec![i(1)])]), a(vec![a(vec![i(1), i(1)]), i(1)]), m(vec![(i(1), i(1)), (t("a"), t("b"))]), m(vec![(t("a"), i(1)), (i(1), t("b"))]), m(vec![(t("a"), a(vec![i(1)])), (t("b"), t("x"))]), m(vec![(t("a"), i(1)), (t("b"), t("x"))]), m(vec![(t("a"), t("x")), (t("b"), i(1))]), m(vec![(t("a"), i(1)), (t("b"), i(1))])]);
        arc(vals(x))
    };
    let nt = texts.len();
    let bounds = format!("{nt} schemas: 21 written out, the others with two arguments of 8 kinds each in 12 ways of use");
    out.push(list_suite("generic and nested unwrapping", &bounds, texts.iter().map(|t| (cddl(t), v.clone())).collect()));
    out.push(suite("deep unwrapping", "unwrapping through 1 to 45 names and levels", 45, |d, w| {
        let d = d + 1;
        let ints = |n: usize| a((1..=n as i128).map(i).collect());
        let vs = vals(vec![ints(d), ints(d + 1), ints(d - 1), ints(1), a(vec![t("a")]), ints(2 * d)]);
        let mut s = "t = [~u0]\n".to_string();
        let mut names = "t = [~v0, * int]\n".to_string();
        let mut mp = "t = {~w0}\n".to_string();
        for k in 0..d {
            s += &if k + 1 == d { format!("u{k} = [{}]\n", k + 1) } else { format!("u{k} = [{}, ~u{}]\n", k + 1, k + 1) };
            names += &if k + 1 == d { format!("v{k} = [1]\n") } else { format!("v{k} = v{}\n", k + 1) };
            mp += &if k + 1 == d { format!("w{k} = {{{k}: int}}\n") } else { format!("w{k} = {{? {k}: int, ~w{}}}\n", k + 1) };
        }
        w.sweep(&cddl(&s), "t", &vs);
        w.sweep(&cddl(&names), "t", &vs);
        let full: Vec<(V, V)> = (0..d as i128).map(|k| (i(k), i(1))).collect();
        let mut mv = vec![m(full.clone()), m(vec![full[d - 1].clone()]), m(vec![])];
        let mut x = full.clone();
        x.push((i(-1), i(1)));
        mv.push(m(x));
        let mut x = full.clone();
        x[0].1 = t("no");
        mv.push(m(x));
        let mut x = full;
        x[d - 1].1 = t("no");
        mv.push(m(x));
        w.sweep(&cddl(&mp), "t", &vals(mv));
    }));
    out.extend(crate::corpus::suites(&["unwrap"], thorough));
    out
}

fn unwrap_suite(name: &'static str, gs: Groups, hosts: Vec<&'static str>, array: bool, vs: Vec<Val>, extra: &'static str, thorough: bool) -> Suite<'static> {
    let b = format!("{} groups x {} hosts x {} values; the meaning of the schema with the group written in place", gs.total(), hosts.len(), vs.len());
    let n = gs.items();
    suite(name, b, n, move |item, w| {
        let mut count = item;
        gs.each(item, &mut |g| {
            count += 1;
            let body = crate::ast::print(&Schema(vec![grule("x", par(Occ::One, g.clone()))]));
            let body = body.trim().trim_start_matches("x =").trim().to_string();
            let inner = body.trim_start_matches('(');
            let inner = &inner[..inner.len()];
            let _ = inner;
            let arr_text = crate::ast::print(&Schema(vec![rule1("x", if array { arr(g.clone()) } else { map(g.clone()) })]));
            let arr_text = arr_text.trim().trim_start_matches("x =").trim().to_string();
            for (h, host) in hosts.iter().enumerate() {
                if w.stopped() {
                    return;
                }
                if !thorough && (h + count) % 4 != 0 {
                    continue;
                }
                // in the place of the unwrapping: a named group, which is
                // what a parenthesised group is
                let direct = cddl(&format!("t = {}\ninplace = {}\n{extra}", host.replace('@', "inplace"), body));
                let rf = ["~u", "~al", "~u"][h % 3];
                let un = format!("t = {}\nu = {arr_text}\nal = al2\nal2 = u\n{extra}", host.replace('@', rf));
                let p = match w.read_text(un, 0) {
                    Some(p) => p,
                    None => return,
                };
                let mut sem = crate::refsem::Sem::new(&direct);
                for v in &vs {
                    w.publish_value(&p, "t", v);
                    let r = sem.run("t", &v.v);
                    w.st.states += r.states;
                    w.st.steps += r.steps;
                    w.judge(&p, "t", v, r.bits);
                }
            }
        });
    })
}

// ------------------------------------------------------------------ C15

pub fn c15(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let opts = ["int", "tstr", "1", "2", "\"a\"", "[int]", "[* any]", "{a: int}", "{* tstr => any}", "null", "1..3", "1.5", "bytes .cbor int", "x", "(uint / true)", "tstr .size 2", "p<int>", "&(k: 5, 6)", "{? a: int}", "tstr .regexp \"b\""];
    let extra = "x = bool / bytes\np<A> = [A, A]\n";
    let v = {
        let mut v = pool();
        v.extend([i(5), i(6), i(7)]);
        v
    };
    let mut types = vec![];
    for x in opts {
        for y in opts {
            types.push(format!("({x} / {y})"));
        }
    }
    let places: Vec<usize> = (0..PLACES.len()).collect();
    out.push(placed("choices of two", "all pairs of 20 options in every place", types, extra, v.clone(), if thorough { &places } else { &[0, 1, 5, 6, 11] }));
    let short = if thorough { 20 } else { 12 };
    let mut types = vec![];
    for x in &opts[..short] {
        for y in &opts[..short] {
            for z in &opts[..short] {
                types.push(format!("({x} / {y} / {z})"));
            }
        }
    }
    out.push(placed("choices of three", "all triples of options", types, extra, v.clone(), if thorough { &[0, 1, 6, 8] } else { &[0, 8] }));
    // enumerations: inline, named, nested, keyed
    let mems = ["1", "a: 1", "\"a\"", "k: \"a\"", "int", "x: [int]", "e1", "e2", "true", "q: null", "1 => 2", "z: {a: int}", "n: 1..3"];
    let extra = "e1 = (3, l: \"b\")\ne2 = (e1, m: {})\nname = tstr\n";
    let mut texts = vec![];
    for x in mems {
        for y in mems {
            for form in ["t = &(#)\n", "t = &e\ne = (#)\n", "t = &e\ne = e0\ne0 = (#)\n", "t = [* &(#)]\n", "t = {* &(#) => &e\n}\ne = (#)\n", "t = null / &(#, 300)\n", "t = p<&(#)>\np<A> = A\n", "t = &p<1>\np<A> = (#, A)\n", "t = &(o: &(#), v: \"zz\")\n", "t = &e / 9\ne = (f, 2)\nf = (#)\n"] {
                let s = format!("{}{extra}", form.replace('#', &format!("{x}, {y}")));
                texts.push(s);
            }
        }
    }
    let x = arc(vals(v.clone()));
    let list: Vec<_> = texts.iter().filter(|t| crate::refparse::parse(t).is_ok()).map(|t| (cddl(t), x.clone())).collect();
    out.push(list_suite("enumerations", "all pairs of 13 members in 10 forms", list));
    // long choices of one kind, in many orders
    let maxn = if thorough { 70 } else { 40 };
    out.push(suite("orders of many options", format!("2 to {maxn} options of one kind or several, in up to 12 orders, with and without one of another kind; every option and its neighbours"), maxn - 1, move |k, w| {
        let n = k + 2;
        let kind = |which: usize, k: usize| match which {
            0 => (format!("\"w{k:02}\""), t(&format!("w{k:02}"))),
            1 => (format!("{k}"), i(k as i128)),
            2 => (format!("-{}", 3 * k + 1), i(-(3 * k as i128) - 1)),
            3 => (format!("{k}.5"), f(k as f64 + 0.5)),
            4 => (format!("h'{k:02x}'"), b(&[k as u8])),
            5 => (format!("\"{}\"", "a".repeat(k)), t(&"a".repeat(k))),
            6 => (format!("[{k}]"), a(vec![i(k as i128)])),
            7 => (format!("{{{k}: {k}}}"), m(vec![(i(k as i128), i(k as i128))])),
            8 => (format!("{}..{}", 3 * k, 3 * k + 1), i(3 * k as i128)),
            _ => match k % 4 {
                0 => (format!("\"w{k:02}\""), t(&format!("w{k:02}"))),
                1 => (format!("{k}"), i(k as i128)),
                2 => (format!("{k}.5"), f(k as f64 + 0.5)),
                _ => (format!("'{k}'"), b(format!("{k}").as_bytes())),
            },
        };
        let mut orders: Vec<Vec<usize>> = vec![(0..n).collect(), (0..n).rev().collect(), (0..n).map(|x| (x + n / 2) % n).collect(), (0..n).map(|x| x ^ 1).filter(|x| *x < n).collect()];
        orders.push((0..n).step_by(2).chain((1..n).step_by(2)).collect());
        orders.push((0..n).map(|x| if x % 2 == 0 { x / 2 } else { n - 1 - x / 2 }).collect());
        for q in [3, 7, 11] {
            if n % q != 0 {
                orders.push((0..n).map(|x| x * q % n).collect());
            }
        }
        for which in 0..10 {
            let mut vs: Vec<V> = (0..n + 2).map(|k| kind(which, k).1).collect();
            vs.extend([t("x"), t(""), i(-2), i(n as i128 * 9), f(0.25), V::Null, t("v"), t("w"), b(&[255])]);
            let keyed = vals(vs.iter().map(|v| m(vec![(v.clone(), i(1))])).collect());
            let vs = vals(vs);
            for o in &orders {
                let opts: Vec<String> = o.iter().map(|k| kind(which, *k).0).collect();
                let c = opts.join(" / ");
                for s in [format!("t = {c}\n"), format!("t = {c} / null\n"), format!("t = null / {c}\n"), format!("t = a / x\na = {c}\nx = \"x\"\n"), format!("t = &({c})\n", c = opts.join(", ")), format!("t = &g\ng = ({c})\n", c = opts.join(", "))] {
                    w.sweep(&cddl(&s), "t", &vs);
                }
                w.sweep(&cddl(&format!("t = {{ ({c}) => 1 }}\n")), "t", &keyed);
                w.sweep(&cddl(&format!("t = {{ {} }}\n", opts.iter().map(|x| format!("? ({x}) => 1")).collect::<Vec<_>>().join(", "))), "t", &keyed);
                if n > 20 && w.stopped() {
                    return;
                }
            }
        }
    }));
    // many options
    out.push(suite("many options", "1 to 80 options, every one in turn the fitting one, in every place", 80, |n, w| {
        let n = n + 1;
        let mut vs = vec![];
        for k in 0..=n as i128 {
            vs.push(i(1000 + k));
        }
        vs.extend([i(0), t("o1"), V::Null, i(999)]);
        let fwd: Vec<String> = (0..n).map(|k| (1000 + k).to_string()).collect();
        let rev: Vec<String> = fwd.iter().rev().cloned().collect();
        let mixed: Vec<String> = (0..n).map(|k| if k % 3 == 0 { format!("\"o{k}\"") } else if k % 3 == 1 { (1000 + k).to_string() } else { format!("[{k}]") }).collect();
        let named: Vec<String> = (0..n).map(|k| format!("n{k}")).collect();
        let mut defs = String::new();
        for k in 0..n {
            defs += &format!("n{k} = {}\n", 1000 + k);
        }
        for p in PLACES {
            let pv = vals(vs.iter().map(|v| (p.value)(v.clone())).collect());
            for o in [&fwd, &rev, &mixed] {
                w.sweep(&cddl(&place_text(p, &format!("({})", o.join(" / ")))), "t", &pv);
            }
            w.sweep(&cddl(&format!("{}{defs}", place_text(p, &format!("({})", named.join(" / "))))), "t", &pv);
            w.sweep(&cddl(&place_text(p, &format!("&({})", fwd.join(", ")))), "t", &pv);
            w.sweep(&cddl(&place_text(p, &format!("&({})", rev.iter().enumerate().map(|(k, x)| format!("k{k}: {x}")).collect::<Vec<_>>().join(", ")))), "t", &pv);
            w.sweep(&cddl(&format!("{}e = ({})\n{defs}", place_text(p, "&e"), fwd.join(", "))), "t", &pv);
            // nested to the left and to the right
            if n <= 40 {
                let l = fwd.iter().skip(1).fold(fwd[0].clone(), |x, y| format!("({x} / {y})"));
                let r = fwd.iter().rev().skip(1).fold(fwd[n - 1].clone(), |x, y| format!("({y} / {x})"));
                w.sweep(&cddl(&place_text(p, &l)), "t", &pv);
                w.sweep(&cddl(&place_text(p, &r)), "t", &pv);
            }
        }
        // alternatives of groups
        let alts: Vec<String> = (0..n).map(|k| format!("{}, {k}", 1000 + k)).collect();
        let mut pv = vec![];
        for k in 0..=n as i128 {
            pv.push(a(vec![i(1000 + k), i(k)]));
            pv.push(a(vec![i(1000 + k)]));
            pv.push(m(vec![(i(1000 + k), i(k))]));
        }
        let pv = vals(pv);
        w.sweep(&cddl(&format!("t = [{}]\n", alts.join(" // "))), "t", &pv);
        w.sweep(&cddl(&format!("t = {{{}}}\n", (0..n).map(|k| format!("{}: {k}", 1000 + k)).collect::<Vec<_>>().join(" // "))), "t", &pv);
    }));
    // every order of up to four overlapping options gives the same
    let sets = [["[int]", "[int, ? tstr]", "[* any]", "{a: int}"], ["1", "1..3", "int", "tstr"], ["{a: int}", "{? a: int, * tstr => any}", "{* tstr => int}", "null"], ["bytes .cbor int", "bytes .size 2", "bytes", "\"a\""], ["[g]", "[~u]", "[int, * tstr]", "[* int]"]];
    let v2 = arc(vals(v));
    out.push(suite("orders of options", "all orders of four overlapping options in every place", sets.len(), move |k, w| {
        for p in perms(4) {
            let o: Vec<&str> = p.iter().map(|x| sets[k][*x]).collect();
            for pl in PLACES {
                let pv = vals(v2.iter().map(|v| (pl.value)(v.v.clone())).filter(|v| match v {
                    V::Map(m) => (0..m.len()).all(|x| (0..x).all(|y| !same(&m[x].0, &m[y].0))),
                    _ => true,
                }).collect());
                w.sweep(&cddl(&format!("{}g = (int, tstr)\nu = [int, int]\n", place_text(pl, &format!("({})", o.join(" / "))))), "t", &pv);
            }
        }
    }));
    out.extend(crate::corpus::suites(&["choice"], thorough));
    out
}

// ------------------------------------------------------------------ C16

/// Members that cannot be evaluated for some elements, under every
/// occurrence, before other members.
pub fn faulty_repetitions(all: bool) -> Suite<'static> {
    let occs = ["", "? ", "* ", "+ ", "2* ", "*2 ", "2*2 ", "2*3 ", "1*2 ", "0*1 ", "3*4 ", "0*0 ", "1* "];
    let members = ["u", "(u)", "(u, int)", "(int, u)", "(int // u)", "(u // tstr)", "(? int, u)", "(k: u)", "(* u)", "[u]", "(2*3 u)", "~au"];
    let mmembers = ["tstr => u", "u => any", "int => u", "(tstr => u)", "(a: int // b: u)", "(a: int, ? b: u)", "k: u", "a: u", "(tstr => u // int => u)", "[u] => any", "tstr ^=> u", "~mu"];
    let us = ["int / missing", "tstr .regexp 1", "int / p<int>", "missing / int", "int .lt 1.5", "lp", "int / lp", "1..\"a\"", "int / bytes .cbor missing"];
    let us: Vec<&str> = if all { us.to_vec() } else { us[..3].to_vec() };
    let after = ["", ", ? bool", ", * any", ", bool", ", ? u", " // * any", ", ? (int, bool)", ", v"];
    let defs = "p<A, B> = [A, B]\nlp = lp\nau = [int, u]\nmu = {a: int, ? b: u}\nv = tstr / missing\n";
    let x = if all {
        arrays(&[i(1), V::Bool(true), t("x")], 4)
    } else {
        let mut x = arrays(&[i(1), V::Bool(true), t("x")], 3);
        x.extend(vals([[1, 1, 1, 1], [1, 1, 1, 2], [1, 1, 3, 2], [1, 1, 1, 3], [1, 3, 1, 1], [1, 2, 1, 2], [3, 1, 1, 2]].iter().map(|k| a(k.iter().map(|x| [i(1), V::Bool(true), t("x")][x - 1].clone()).collect())).collect()));
        x
    };
    let x = arc(x);
    let y = {
        let mut y = vals(maps(&[t("a"), t("b"), i(1)], &[i(1), t("x"), V::Bool(true)]));
        y.push(Val::new(m(vec![(t("a"), i(1)), (t("b"), i(2)), (t("c"), i(3)), (t("d"), V::Null)])));
        y.push(Val::new(m(vec![(i(1), i(1)), (i(2), i(2)), (i(3), i(3)), (t("z"), V::Null)])));
        arc(y)
    };
    let n = occs.len() * us.len();
    suite("faulty members repeated", format!("{} occurrences x {} kinds of error x {}+{} members x {} things after them", occs.len(), us.len(), members.len(), mmembers.len(), after.len()), n, move |k, w| {
        let (o, u) = (occs[k % occs.len()], us[k / occs.len()]);
        for f in after {
            for mb in members {
                for pre in if all { &["", "? tstr, "][..] } else { &[""][..] } {
                    if w.stopped() {
                        return;
                    }
                    w.sweep(&cddl(&format!("t = [{pre}{o}{mb}{f}]\nu = {u}\n{defs}")), "t", &x);
                }
            }
            for mb in mmembers {
                let f = match f {
                    ", ? bool" => ", ? z: bool",
                    ", * any" => ", * any => any",
                    ", bool" => ", c: any",
                    ", ? u" => ", ? c: u",
                    " // * any" => " // * any => any",
                    ", ? (int, bool)" => ", ? (a: any, b: any)",
                    ", v" => ", ? d: v",
                    f => f,
                };
                w.sweep(&cddl(&format!("t = {{{o}{mb}{f}}}\nu = {u}\n{defs}")), "t", &y);
            }
        }
    })
}

pub fn c16(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let errs = ["missing", "p<int>", "p<int, int, int>", "p", "1..\"a\"", "1..1.5", "1..[int]", "(1..x)", "uint .size -1", "tstr .size \"a\"", "int .size 1", "tstr .lt 1", "int .lt 1.5", "int .lt x", "uint .size x", "&x", "&missing", "lp", "lq", "g2", "kv", "oc", "missing<int>", "[missing]", "{missing => 1}", "{a: missing}", "[? missing]", "[* missing]", "bytes .cbor missing", "(int .lt missing)", "1..missing", "~x", "int .lt (1..2)", "tstr .size lp", "q<missing>", "q<p>", "[~missing]", "{~missing}", "[* lq]", "(x / missing)", "&(k: missing)", "&(missing)", "{* tstr => 1..\"a\"}", "[g3]", "{g3}", "bx .lt 1", "q<lp>"];
    let ctxs = ["@", "@ / int", "int / @", "[@] / any", "[int, @]", "[@, int]", "[? @]", "[* @]", "[? @, * any]", "[@ // any]", "[any // @]", "[(@, int) // * any]", "[? (int, @), * any]", "[* (tstr, @)]", "{a: @}", "{? a: @, * any => any}", "{* tstr => @}", "{@ => any}", "{? @ => int, * any => any}", "{* @ => int}", "{? \"a\" => @, * any => any}", "{a: int // a: @}", "{(? a: @), * any => any}", "[[@]] / [any]", "{* any => @} / any", "&(x: 1, y: @)", "&(y: @, x: any)", "bytes .cbor @", "bytes .cbor [* @] / any", "q<@>", "[q<@>, int]", "r", "[r] / any", "[~u]", "{~w, * any => any}", "[? ~u, * any]", "[h]", "[? h, * any]", "{? hm, * any => any}", "{? tstr ^=> @, * any => any}", "{* tstr => int, ? a: @, * any => any}", "[2*2 @, * any]", "[0*0 @]", "[@ / any]", "[any / @]", "(@ / null) / any", "{int => int, ? @ => any, * any => any}", "{? [@] => 1, * any => any}", "{@ ^=> tstr, * any => any}"];
    let x: V = m(vec![]);
    let _ = x;
    let mut v = vec![
        V::Null, i(1), i(2), i(-1), f(1.5), t("a"), t("ab"), b(&[1]), b(&[0x81, 1]), b(&[0xff]), a(vec![]), a(vec![i(1)]), a(vec![t("a")]), a(vec![i(1), i(1)]), a(vec![i(1), t("a")]), a(vec![t("a"), i(1)]), a(vec![a(vec![i(1)])]), a(vec![a(vec![])]), a(vec![t("a"), t("b"), t("c")]),
        m(vec![]), m(vec![(t("a"), i(1))]), m(vec![(t("a"), t("x"))]), m(vec![(i(1), i(1))]), m(vec![(t("a"), i(1)), (i(1), t("x"))]), m(vec![(i(1), t("x")), (t("a"), i(1))]), m(vec![(t("b"), i(1)), (t("a"), a(vec![i(1)]))]), m(vec![(a(vec![i(1)]), i(1))]), m(vec![(t("a"), m(vec![(t("a"), i(1))]))]),
    ];
    v.extend([a(vec![m(vec![])]), a(vec![m(vec![(t("a"), i(1))])])]);
    let v = arc(vals(v));
    let x = v.clone();
    let n = errs.len() * ctxs.len();
    out.push(suite("errors in every position", format!("{} errors x {} surroundings", errs.len(), ctxs.len()), n, move |k, w| {
        let (e, c) = (errs[k % errs.len()], ctxs[k / errs.len()]);
        let defs = "x = tstr\np<A, B> = [A, B]\nq<A> = A\nlp = lp\nlq = lq2 / lq2\nlq2 = lq\ng2 = (int, int)\nkv = (k: int)\noc = ? int\ng3 = (? a: int, missing)\nbx = bool\n";
        for form in 0..2 {
            // directly, or through a name
            let (e1, def) = if form == 0 { (e.to_string(), String::new()) } else { ("err".to_string(), format!("err = {e}\n")) };
            let s = format!("t = {}\n{defs}{def}r = {e1}\nu = [{e1}]\nw = {{? a: {e1}}}\nh = (int, {e1})\nhm = (a: {e1})\n", c.replace('@', &e1));
            if crate::refparse::parse(&s).is_ok() {
                w.sweep(&cddl(&s), "t", &x);
            }
        }
    }));
    // two errors, or an error that is never reached
    let small = ["missing", "p<int>", "1..\"a\"", "int .lt 1.5", "lp", "int", "tstr", "any"];
    let x = v.clone();
    out.push(suite("two errors", "pairs of errors or types in 20 surroundings", small.len() * small.len(), move |k, w| {
        let (e, f) = (small[k % small.len()], small[k / small.len()]);
        let defs = "p<A, B> = [A, B]\nlp = lp\n";
        for c in ["@ / #", "[@, #]", "[? @, #]", "[* @, * #]", "[@ // #]", "[(@, int) // #]", "{a: @, ? b: #}", "{a: @ // a: #}", "{@ => #}", "{* @ => #}", "{? @ => int, * # => any}", "{? @ ^=> #, * any => any}", "[@] / [#]", "{? a: @, * tstr => #}", "&(x: @, y: #)", "[? (@, #), * any]", "[* (@ / #)]", "bytes .cbor (@ / #)", "{(a: @, b: # // * any => any)}", "[k: @, # / null]", "{* tstr => @ / #}", "{[@] => 1, ? [#] => 2}", "{? {a: @} => 1, * # => any}"] {
            w.sweep(&cddl(&format!("t = {}\n{defs}", c.replace('@', e).replace('#', f))), "t", &x);
        }
    }));
    out.push(faulty_repetitions(thorough));
    // features that are not supported
    let mut bad: Vec<String> = vec![];
    for op in ["foo", "and", "within", "bits", "default", "eq", "ne", "cborseq", "Size", "SIZE", "regex", "regexps", "sizes", "ltt", "lte", "x.y", "size2", "pcre", "abnf", "feature", "cat", "plus", "gte", "g", "l", "join"] {
        for (a1, a2) in [("tstr", "1"), ("int", "int"), ("uint", "2"), ("bytes", "any"), ("tstr", "\"a\"")] {
            bad.push(format!("t = {a1} .{op} {a2}\n"));
            bad.push(format!("t = any / [{a1} .{op} {a2}]\n"));
            bad.push(format!("t = any\nu = {{* {a1} .{op} {a2} => any}}\n"));
        }
    }
    for ty in ["time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined"] {
        for c in ["@", "[@]", "{a: @}", "{@ => 1}", "any / @", "[* @]", "@ / any", "&(x: @)", "1..@", "@ .lt 1", "uint .size @", "@ .size 1", "q<@>", "bytes .cbor @", "[? (int, @)]", "{? (a: @)}"] {
            bad.push(format!("t = {}\nq<A> = A\n", c.replace('@', ty)));
            bad.push(format!("t = any\nu = {}\nq<A> = A\n", c.replace('@', ty)));
        }
    }
    for x in ["#", "#0", "#1", "#6", "#6.24(bstr)", "#6.0(tstr)", "#7.25", "#2", "#6.1", "#3.1", "#7"] {
        for c in ["@", "[@]", "{a: @}", "any / @", "{@ => 1}", "q<@>", "@ .size 1", "[@ // int]"] {
            bad.push(format!("t = {}\nq<A> = A\n", c.replace('@', x)));
        }
    }
    for x in ["t = any\nt /= int\n", "t /= int\n", "t //= (int)\n", "t = any\nt //= (int)\n", "t = any\n$s /= int\n", "t = [g]\ng = (int)\ng //= (tstr)\n", "$$x //= (a: int)\nt = any\n", "t<A> /= A\n", "u = int\nt = any\nu /= tstr\n"] {
        bad.push(x.to_string());
    }
    let x = v.clone();
    let bad = std::sync::Arc::new(bad);
    let n = bad.len();
    out.push(suite("unsupported features", format!("{n} schemas with unknown operators, unsupported predefined types, extension assignments, tags and major types"), n, move |k, w| {
        let text = bad[k].clone();
        w.st.schemas += 1;
        w.publish(&["R\n", &text]);
        let case = Case::Read { schema: text.clone() };
        let r = w.imp(|| cddl_cat::flatten::flatten_from_str(&text));
        match r {
            Err(_) => w.differ(case, crate::refsem::PARSE | crate::refsem::SCHEMA, PANIC, "an unsupported feature"),
            Ok(Err(e)) => {
                let b = class_e(&e);
                w.outcome(b);
                w.st.traces += 1;
                if b & (crate::refsem::PARSE | crate::refsem::SCHEMA | crate::refsem::GENERIC) == 0 {
                    w.differ(case, crate::refsem::PARSE | crate::refsem::SCHEMA, b, "an unsupported feature");
                }
            }
            Ok(Ok(rules)) => {
                // it may still be refused whenever it is used, but never give a verdict
                let p = Prepared { text, ctx: cddl_cat::context::BasicContext::new(rules) };
                for v in x.iter() {
                    let got = w.run_value(&p, "t", v);
                    if got & (crate::refsem::OK | crate::refsem::MIS | crate::refsem::CUT | PANIC) != 0 {
                        let c = Case::Value { schema: p.text.clone(), rule: "t".into(), cbor: v.hex.clone(), via: Via::Cbor };
                        w.differ(c, crate::refsem::PARSE | crate::refsem::SCHEMA, got, "an unsupported feature");
                        return;
                    }
                }
            }
        }
    }));
    out.extend(crate::corpus::suites(&["all"], thorough));
    out
}

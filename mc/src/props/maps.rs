//! Maps: C02, C05, and the map side of rewinding.

use super::common::*;

pub fn c02(thorough: bool) -> Vec<Suite<'static>> {
    let mut v = vec![];
    let c = Cfg {
        atoms: bodies(&["a: int", "b: int", "a: tstr", "\"b\" => tstr", "tstr => int", "tstr => tstr", "tstr => any", "any => int", "1: int"]),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&["", "?"]),
        depth: 1,
        alts: 2,
        empty: true,
    };
    let mut vs = maps(&[t("a"), t("b"), i(1)], &[i(1), t("x")]);
    vs.extend(maps(&[t("c"), t("a")], &[i(1), V::Null]));
    vs.push(i(1));
    vs.push(a(vec![]));
    v.push(groups_suite(
        "map groups",
        "{G}: up to 2 leaves of 9 kinds, nesting 1, up to 2 alternatives; maps over keys a, b, 1, c",
        Groups::up_to(&c, 2),
        "",
        map,
        vals(vs.clone()),
    ));
    let c3 = Cfg { depth: 0, alts: if thorough { 2 } else { 1 }, empty: false, ..c.clone() };
    v.push(groups_suite(
        "map groups, 3 leaves",
        "{G}: 3 leaves of 9 kinds",
        Groups::exactly(&c3, 3),
        "",
        map,
        vals(vs.clone()),
    ));
    if thorough {
        let c4 = Cfg { atoms: bodies(&["a: int", "b: int", "tstr => int", "tstr => tstr", "any => int"]), occs: occs(&["", "?", "*"]), depth: 1, alts: 1, poccs: occs(&["", "?"]), empty: false };
        v.push(groups_suite("map groups, 4 leaves", "{G}: 3 leaves of 5 kinds, nesting 1", Groups::exactly(&c4, 3), "", map, vals(vs.clone())));
    }
    // named and unwrapped members
    let extra = "g = (a: int, b: int)\ng1 = (a: int)\ng2 = (tstr => int)\nu = {a: int, ? b: int}\nu2 = u\nh<A> = (a: A)\ng3 = (g1, ? b: tstr)\n";
    let c = Cfg {
        atoms: bodies(&["a: int", "b: tstr", "tstr => int", "g", "g1", "g2", "~u", "~u2", "h<int>", "h<tstr>", "g3", "g / g2", "~u / g1", "{} => int", "* g2"].iter().copied().filter(|x| !x.starts_with('*')).collect::<Vec<_>>()),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&["", "?"]),
        depth: 1,
        alts: 2,
        empty: false,
    };
    v.push(groups_suite("map members by name", "{G}: up to 2 leaves of 14 kinds with named groups and unwrapping", Groups::up_to(&c, 2), extra, map, vals(vs.clone())));
    v.push(key_kinds(thorough));
    v.push(several_matches());
    v.push(pumped_maps(thorough));
    v.push(super::arrays::very_long(true));
    v.push(deep_maps());
    v.extend(super::arrays::put_back(thorough).into_iter().filter(|s| s.name != "kinds of elements put back"));
    v.push(orders(thorough));
    v.extend(crate::corpus::suites(&["map"], thorough));
    v
}

fn key_values() -> Vec<V> {
    vec![
        t("a"),
        t(""),
        t("é"),
        i(0),
        i(1),
        i(-1),
        i(255),
        i(256),
        i(u64::MAX as i128),
        i(-(1i128 << 64)),
        b(b""),
        b(b"a"),
        V::Bool(true),
        V::Bool(false),
        V::Null,
        f(1.0),
        f(0.0),
        f(-1.5),
        f(f64::INFINITY),
        a(vec![]),
        a(vec![i(1)]),
        m(vec![]),
        m(vec![(t("a"), i(1))]),
    ]
}

/// Every kind of key, literal and type, against every kind of key.
fn key_kinds(thorough: bool) -> Suite<'static> {
    let mems: Vec<&str> = vec![
        "a: int", "\"a\": int", "\"\": int", "\"é\": int", "0: int", "1: int", "-1: int", "255: int", "256: int",
        "18446744073709551615: int", "'a': int", "h'': int", "h'61' => int", "true => int", "false => int", "true ^=> int", "1.0: int", "0.0: int", "-1.5 => int",
        "null => int", "nil ^=> int", "bool => int", "tstr => int", "bstr => int", "int => int", "uint => int", "nint => int", "float => int", "any => int",
        "[] => int", "[int] => int", "[* any] => int", "{} => int", "{a: int} => int", "0..1 => int", "(1 / \"a\") => int", "kt => int", "kl => int", "kg<int> => int", "uint .size 1 => int", "bytes .size 1 => int", "tstr .regexp \"a\" => int", "&(x: 1, y: 'a') => int", "int .lt 0 => int", "0.0 ... 1.0 => int",
        "true: int", "int: int", "null: int",
    ];
    let keys = key_values();
    let mut vs = vec![m(vec![])];
    for k in &keys {
        vs.push(m(vec![(k.clone(), i(1))]));
        vs.push(m(vec![(k.clone(), t("no"))]));
    }
    for k in 0..keys.len() {
        for l in 0..keys.len() {
            if k != l {
                vs.push(m(vec![(keys[k].clone(), i(1)), (keys[l].clone(), i(2))]));
            }
        }
    }
    vs.push(m(vec![(t("true"), i(1))]));
    vs.push(m(vec![(t("int"), i(1))]));
    vs.push(m(vec![(t("null"), i(1))]));
    vs.push(m(keys.iter().map(|k| (k.clone(), i(1))).collect()));
    let vs = vals(vs);
    let n = mems.len();
    suite("kinds of keys", format!("{n} kinds of members, alone and in pairs, x {} maps over {} kinds of keys", vs.len(), keys.len()), n, move |k, w| {
        let rest = "kt = tstr\nkl = \"a\"\nkg<A> = A\n";
        for form in ["@", "? @", "* @", "@, * any => any", "* any => any, @", "? (@), * any => int", "@ // * tstr => int"] {
            w.sweep(&cddl(&format!("t = {{{}}}\n{rest}", form.replace('@', mems[k]))), "t", &vs);
        }
        for l in 0..n {
            if !thorough && l % 3 != k % 3 {
                continue;
            }
            w.sweep(&cddl(&format!("t = {{{}, {}}}\n{rest}", mems[k], mems[l])), "t", &vs);
            if thorough {
                w.sweep(&cddl(&format!("t = {{? {}, * {}}}\n{rest}", mems[k], mems[l])), "t", &vs);
            }
        }
    })
}

/// Members whose type key matches several entries, of which only some have a
/// fitting value.
fn several_matches() -> Suite<'static> {
    let members = ["tstr => int", "tstr ^=> int", "tstr => tstr", "any => int", "any ^=> tstr", "(\"a\" / \"b\") => int", "tstr => [int]", "tstr .regexp \"a|c\" => int", "x => int", "x ^=> tstr"];
    let mut vs = maps(&[t("a"), t("b"), t("c")], &[i(1), t("s"), a(vec![i(1)])]);
    for v in maps(&[t("c"), t("b"), t("a")], &[i(1), t("s")]) {
        vs.push(v);
    }
    let vs = vals(vs);
    let occ = ["", "? ", "* ", "2*2 "];
    let n = members.len() * occ.len();
    suite("several matching entries", "two members with type keys over maps of three entries in two orders", n, move |k, w| {
        let (m1, o1) = (members[k % members.len()], occ[k / members.len()]);
        for m2 in members {
            for o2 in occ {
                w.sweep(&cddl(&format!("t = {{{o1}{m1}, {o2}{m2}}}\nx = tstr\n")), "t", &vs);
            }
            w.sweep(&cddl(&format!("t = {{{o1}{m1} // {m2}}}\nx = tstr\n")), "t", &vs);
            w.sweep(&cddl(&format!("t = {{? ({o1}{m1}, {m2}), * tstr => any}}\nx = tstr\n")), "t", &vs);
            w.sweep(&cddl(&format!("t = {{a: int, {o1}{m1}, * any => any}}\nx = tstr\n")), "t", &vs);
        }
    })
}

/// Maps with many entries.
pub fn pumped_maps(thorough: bool) -> Suite<'static> {
    let max = if thorough { 126 } else { 66 };
    suite("large maps", format!("maps of 0 to {max} entries, one entry missing, extra or wrong at every place"), max + 1, move |n, w| {
        let good: Vec<(V, V)> = (0..n as i128).map(|k| (t(&format!("k{k}")), i(k))).collect();
        let mut vs = vec![m(good.clone())];
        let mut r = good.clone();
        r.reverse();
        vs.push(m(r));
        for p in 0..n {
            let mut x = good.clone();
            x[p].1 = V::Null;
            vs.push(m(x));
            let mut x = good.clone();
            x.remove(p);
            vs.push(m(x));
            let mut x = good.clone();
            x[p].0 = i(p as i128);
            vs.push(m(x));
        }
        for extra in [(t("zz"), i(0)), (i(5), i(0)), (t(""), i(1))] {
            let mut x = good.clone();
            x.push(extra);
            vs.push(m(x));
        }
        let vs = vals(vs);
        let mems: Vec<String> = (0..n).map(|k| format!("k{k}: int")).collect();
        let back: Vec<String> = (0..n).rev().map(|k| format!("k{k}: int")).collect();
        let texts = [
            format!("t = {{{}}}\n", mems.join(", ")),
            format!("t = {{{}}}\n", back.join(", ")),
            format!("t = {{{}, * int => int}}\n", mems.join(", ")),
            format!("t = {{{}}}\n", mems.iter().map(|x| format!("? {x}")).collect::<Vec<_>>().join(", ")),
            format!("t = {{{}, ? (zz: 1)}}\n", mems.iter().map(|x| format!("({x})")).collect::<Vec<_>>().join(", ")),
            "t = {* tstr => int}\n".to_string(),
            format!("t = {{{n}*{} tstr => int}}\n", n + 1),
            format!("t = {{* tstr => int, {n}*{} any => any}}\n", n + 2),
            format!("t = {{{}, zz: tstr // {}}}\n", mems.join(", "), mems.join(", ")),
        ];
        for x in &texts {
            if let Ok(_) = crate::refparse::parse(x) {
                w.sweep(&cddl(x), "t", &vs);
            }
        }
    })
}

fn deep_maps() -> Suite<'static> {
    suite("deep maps", "maps nested 1 to 50 deep, as values and as keys", 50, |d, w| {
        let d = d + 1;
        let nv = |x: V, n: usize| (0..n).fold(x, |x, _| m(vec![(t("a"), x)]));
        let nk = |x: V, n: usize| (0..n).fold(x, |x, _| m(vec![(x, i(1))]));
        let mut vs = vec![];
        for x in [i(1), t("s")] {
            for k in [d - 1, d, d + 1] {
                vs.push(nv(x.clone(), k));
                if k <= 20 {
                    vs.push(nk(x.clone(), k));
                }
            }
        }
        vs.push((0..d).fold(i(1), |x, _| m(vec![(t("a"), x), (t("b"), i(1))])));
        let vs = vals(vs);
        let rep = |l: &str, x: &str, r: &str| format!("t = {}{x}{}\n", l.repeat(d), r.repeat(d));
        for x in [
            rep("{a: ", "int", "}"),
            rep("{? a: ", "int", "}"),
            rep("{* tstr => ", "int", "}"),
            rep("{b: 1 // a: ", "int", "}"),
            rep("{a: ", "int", ", ? b: int}"),
            rep("{(a: ", "int", ")}"),
            rep("{? \"a\" => 1, ? a: ", "int", "}"),
        ] {
            w.sweep(&cddl(&x), "t", &vs);
        }
        if d <= 20 {
            w.sweep(&cddl(&rep("{", "int", " => 1}")), "t", &vs);
            w.sweep(&cddl(&rep("{* ", "int", " ^=> 1}")), "t", &vs);
        }
    })
}

/// All orders of the entries give the same verdict.
fn orders(thorough: bool) -> Suite<'static> {
    fn perms(v: &[(V, V)]) -> Vec<Vec<(V, V)>> {
        if v.is_empty() {
            return vec![vec![]];
        }
        let mut o = vec![];
        for k in 0..v.len() {
            let mut r = v.to_vec();
            let x = r.remove(k);
            for mut p in perms(&r) {
                p.insert(0, x.clone());
                o.push(p);
            }
        }
        o
    }
    let keys = [t("a"), i(1), b(b"a"), V::Null, t("aa")];
    let mut vs = vec![];
    for n in 0..=if thorough { 5 } else { 4 } {
        let base: Vec<(V, V)> = keys[..n].iter().map(|k| (k.clone(), if n % 2 == 0 { i(1) } else { t("s") })).collect();
        let base2: Vec<(V, V)> = keys[..n].iter().enumerate().map(|(x, k)| (k.clone(), if x % 2 == 0 { i(1) } else { t("s") })).collect();
        for bs in [base, base2] {
            vs.extend(perms(&bs).into_iter().map(V::Map));
        }
    }
    let vs = vals(vs);
    let mems = ["a: int", "a: tstr", "1: tstr", "'a' => int", "null => any", "tstr => int", "tstr => tstr", "any => int", "any => any", "int => tstr"];
    suite("entry orders", format!("all orders of up to {} entries", if thorough { 5 } else { 4 }), mems.len(), move |k, w| {
        for m2 in mems {
            for o in ["", "* "] {
                w.sweep(&cddl(&format!("t = {{? {}, {o}{m2}, * any => any}}\n", mems[k])), "t", &vs);
                w.sweep(&cddl(&format!("t = {{{}, {o}{m2}, * any => int}}\n", mems[k])), "t", &vs);
                w.sweep(&cddl(&format!("t = {{* {}, {o}{m2}}}\n", mems[k])), "t", &vs);
            }
        }
    })
}

// ------------------------------------------------------------------ C03

pub fn rewinding(thorough: bool) -> Vec<Suite<'static>> {
    let mut v = vec![];
    let vs = maps(&[t("a"), t("b"), t("c")], &[i(1)]);
    let c = Cfg {
        atoms: bodies(&["\"a\" => int", "\"b\" => int", "\"c\" => int", "tstr => int"]),
        occs: occs(&["", "?"]),
        poccs: occs(&["", "?", "*"]),
        depth: 2,
        alts: 2,
        empty: false,
    };
    v.push(groups_suite("rewinding in maps, nesting 2", "{G}: up to 2 leaves, nesting 2", Groups::up_to(&c, 2), "", map, vals(vs.clone())));
    let c1 = Cfg { depth: 1, poccs: occs(&["", "?"]), ..c.clone() };
    v.push(groups_suite("rewinding in maps, 3 leaves", "{G}: 3 leaves, nesting 1", Groups::exactly(&c1, 3), "", map, vals(vs.clone())));
    let c2 = Cfg { atoms: bodies(&["\"a\" => int", "\"b\" => int"]), occs: occs(&[""]), poccs: occs(&["", "?"]), depth: 2, ..c.clone() };
    v.push(groups_suite("rewinding in maps, 3 leaves, nesting 2", "{G}: 3 leaves a/b, nesting 2", Groups::exactly(&c2, 3), "", map, vals(maps(&[t("a"), t("b"), t("c")], &[i(1)]))));
    let c4 = Cfg { depth: 1, ..c2.clone() };
    v.push(groups_suite("rewinding in maps, 4 leaves", "{G}: 4 leaves a/b, nesting 1", Groups::exactly(&c4, 4), "", map, vals(maps(&[t("a"), t("b"), t("c")], &[i(1)]))));
    if thorough {
        let c5 = Cfg { atoms: bodies(&["\"a\" => int", "\"b\" => int", "tstr => int"]), occs: occs(&["", "?"]), ..c2.clone() };
        v.push(groups_suite("rewinding in maps, 3 leaves, nesting 2, optional", "{G}: 3 leaves, nesting 2", Groups::exactly(&c5, 3), "", map, vals(vs.clone())));
    }
    let extra = "g = (\"a\" => int, \"b\" => int)\ng2 = (g, \"c\" => int)\ng3 = (\"a\" => int, ? g // \"b\" => int)\nu = {\"a\" => int, \"b\" => int}\nu2 = {? g, \"c\" => int}\nu3 = {~u, \"c\" => int // \"a\" => int}\nu4 = u\nh<A> = (A => int, \"b\" => int)\n";
    let c = Cfg {
        atoms: bodies(&["\"a\" => int", "tstr => int", "g", "g2", "g3", "~u", "~u2", "~u3", "~u4", "g / g3", "~u / g2", "h<\"c\">", "h<tstr> / g"]),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&["", "?"]),
        depth: 1,
        alts: 2,
        empty: false,
    };
    let mut vs2 = maps(&[t("a"), t("b"), t("c")], &[i(1), t("s")]);
    vs2.push(m(vec![]));
    v.push(groups_suite("rewinding named and unwrapped groups in maps", "{G}: up to 2 leaves of 13 kinds, nesting 1", Groups::up_to(&c, 2), extra, map, vals(vs2.clone())));
    let c = Cfg {
        atoms: bodies(&["\"a\" => int", "tstr => int", "g", "~u", "g2 / g", "~u3", "h<\"c\">"]),
        occs: occs(&["", "?"]),
        poccs: occs(&["", "?"]),
        depth: 0,
        alts: 2,
        empty: false,
    };
    v.push(groups_suite("rewinding named groups in maps, 3 leaves", "{G}: 3 leaves of 7 kinds", Groups::exactly(&c, 3), extra, map, vals(vs2)));
    v
}

// ------------------------------------------------------------------ C05

pub fn c05(thorough: bool) -> Vec<Suite<'static>> {
    let mut v = vec![];
    let atoms = ["a: int", "\"a\" => int", "\"a\" ^=> int", "a: tstr", "tstr => int", "tstr ^=> int", "tstr => tstr", "any ^=> tstr", "b: int", "(\"a\" / \"b\") ^=> int"];
    let c = Cfg {
        atoms: bodies(&atoms),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&["", "?"]),
        depth: 1,
        alts: 2,
        empty: false,
    };
    let mut vs = maps(&[t("a"), t("b")], &[i(1), t("x"), V::Null]);
    vs.extend(maps(&[t("c"), t("a")], &[i(1), t("x")]));
    v.push(groups_suite("cuts", "{G}: up to 2 leaves of 10 kinds, nesting 1, two alternatives", Groups::up_to(&c, 2), "", map, vals(vs.clone())));
    let c3 = Cfg { atoms: bodies(&["a: int", "\"a\" => int", "\"a\" ^=> tstr", "tstr => int", "tstr ^=> tstr", "tstr => any"]), occs: occs(&["", "?", "*"]), depth: 0, ..c.clone() };
    v.push(groups_suite("cuts, 3 leaves", "{G}: 3 leaves of 6 kinds, two alternatives", Groups::exactly(&c3, 3), "", map, vals(vs.clone())));
    let c4 = Cfg { atoms: bodies(&["a: int", "\"a\" => tstr", "tstr => any"]), occs: occs(&["", "?"]), poccs: occs(&["", "?", "*"]), depth: if thorough { 2 } else { 1 }, alts: 2, empty: false };
    v.push(groups_suite("cuts in nested groups", "{G}: 3 leaves of 3 kinds, nested groups", Groups::exactly(&c4, 3), "", map, vals(vs.clone())));
    let c5 = Cfg { occs: occs(&["", "?"]), poccs: occs(&["", "?"]), depth: 2, ..c4.clone() };
    v.push(groups_suite("cuts, nesting 2", "{G}: up to 2 leaves of 3 kinds, nesting 2", Groups::up_to(&c5, 2), "", map, vals(vs.clone())));
    // named, unwrapped and generic groups
    let extra = "g = (a: int)\ng2 = (a: int, tstr => any)\ng3 = (tstr ^=> int)\ng4 = (a: int // a: tstr)\nu = {a: int}\nu2 = {a: int // a: tstr}\nu3 = {? g, * tstr => any}\nh<K, V> = (K ^=> V)\nh2<V> = (a: V)\n";
    let c = Cfg {
        atoms: bodies(&["g", "g2", "g3", "g4", "~u", "~u2", "~u3", "h<\"a\", int>", "h<tstr, int>", "h2<int>", "g / g3", "g / ~u", "tstr => any", "a: tstr", "~u / g4"]),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&["", "?"]),
        depth: 1,
        alts: 2,
        empty: false,
    };
    v.push(groups_suite("cuts in named groups", "{G}: up to 2 leaves of 15 kinds", Groups::up_to(&c, 2), extra, map, vals(vs.clone())));
    // a cut stays inside its map
    let inner = ["{a: int}", "{? a: int, * tstr => any}", "{\"a\" => int, * tstr => any}", "{? a: int, * tstr => tstr}", "{a: int // a: tstr}", "{? (a: int), * tstr => any}", "{g, * tstr => any}", "{? g, * tstr => any}", "{? ~u, * tstr => any}", "{* tstr ^=> int, * any => any}", "{? \"a\" ^=> int, ? \"a\" => tstr}", "{tstr ^=> int, * tstr => any}"];
    let outer = [
        "t = @ / tstr / #", "t = # / @", "t = [@ / #]", "t = [? @, any]", "t = [* @, * any]", "t = [@ // #]", "t = [(@, int) // #, int // any]", "t = {x: @ / #}", "t = {? \"x\" => @, * tstr => any}", "t = {? x: @, * tstr => any}", "t = {x: @ // x: any}", "t = {? (x: @), * tstr => any}", "t = {? ~v, * tstr => any}\nv = {x: @}", "t = {* tstr => @ / #}", "t = [n / any]\nn = @", "t = &(p: @, q: #)", "t = {@ => 1} / {any => 1}", "t = {? @ ^=> int, * any => any}", "t = p<@> / #\np<A> = A", "t = {? h<@>, * tstr => any}\nh<A> = (x: A)", "t = [[@] / [any]]", "t = @ / {* tstr => tstr} / null", "t = {? \"x\" ^=> @, ? \"x\" => any}",
    ];
    let mut vals_all: Vec<V> = vs.clone();
    for x in &vs {
        vals_all.push(a(vec![x.clone()]));
        vals_all.push(a(vec![x.clone(), i(1)]));
        vals_all.push(m(vec![(t("x"), x.clone())]));
        vals_all.push(m(vec![(x.clone(), i(1))]));
        vals_all.push(a(vec![a(vec![x.clone()])]));
    }
    for x in vs.iter().take(8) {
        for y in vs.iter().take(8) {
            vals_all.push(a(vec![x.clone(), y.clone()]));
            vals_all.push(m(vec![(t("x"), x.clone()), (t("y"), y.clone())]));
        }
    }
    let vv = vals(vals_all);
    v.push(suite("cuts inside larger types", format!("{} maps with cuts in {} surroundings, two at a time", inner.len(), outer.len()), inner.len() * outer.len(), move |k, w| {
        let (x, o) = (inner[k % inner.len()], outer[k / inner.len()]);
        for y in inner {
            if !o.contains('#') && y != inner[0] {
                break;
            }
            let s = format!("{}\ng = (a: int)\nu = {{a: int}}\n", o.replace('@', x).replace('#', y));
            w.sweep(&cddl(&s), "t", &vv);
        }
    }));
    v.extend(crate::corpus::suites(&["cut"], thorough));
    v
}

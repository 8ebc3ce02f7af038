//! Arrays, rewinding and occurrences (C01, C03, C04), array side.

use super::common::*;
use crate::refsem::{MIS, OK};

/// Group suites over integer and text elements.
pub fn basic(thorough: bool) -> Vec<Suite<'static>> {
    let mut v = vec![];
    let c = Cfg {
        atoms: bodies(&["int", "tstr", "1"]),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&["", "?", "*"]),
        depth: 1,
        alts: 3,
        empty: false,
    };
    let alpha = [i(1), i(2), t("a")];
    v.push(groups_suite(
        "array groups, 3 leaves",
        "[G]: up to 3 leaves int/tstr/1, ?/*/once, nesting 1, up to 3 alternatives; arrays up to length 3",
        Groups::up_to(&c, 3),
        "",
        arr,
        arrays(&alpha, 3),
    ));
    if thorough {
        v.push(groups_suite(
            "array groups, 3 leaves, long",
            "[G]: up to 3 leaves, arrays up to length 5",
            Groups::up_to(&c, 3),
            "",
            arr,
            arrays(&alpha, 5),
        ));
        let c = Cfg { atoms: bodies(&["int", "1"]), occs: occs(&["", "?", "*"]), poccs: occs(&["", "*"]), alts: 2, ..c };
        v.push(groups_suite(
            "array groups, 4 leaves",
            "[G]: exactly 4 leaves int/1, nesting 1, up to 2 alternatives; arrays up to length 4",
            Groups::exactly(&c, 4),
            "",
            arr,
            arrays(&[i(1), i(2)], 4),
        ));
    }
    v
}

pub fn c01(thorough: bool) -> Vec<Suite<'static>> {
    let mut v = basic(thorough);
    // members of all kinds
    let c = Cfg {
        atoms: bodies(&[
            "int", "k: int", "\"k\" => tstr", "1 ^=> int", "[int]", "[* tstr]", "{a: int}", "int / tstr", "g", "~u",
            "null", "any", "h / int", "(tstr / [int])", "k: g1", "al", "&(x: 1, y: tstr)",
        ]),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&["", "?"]),
        depth: 1,
        alts: 2,
        empty: true,
    };
    let extra = "g = (int, tstr)\nh = (tstr, tstr)\nu = [int, ? tstr]\ng1 = ([int])\nal = al2\nal2 = tstr\n";
    let alpha = [i(1), t("a"), a(vec![i(1)]), a(vec![]), m(vec![(t("a"), i(1))]), V::Null];
    v.push(groups_suite(
        "array members of all kinds",
        "[G]: up to 2 leaves of 17 kinds; arrays over 6 kinds of elements",
        Groups::up_to(&c, 2),
        extra,
        arr,
        arrays(&alpha, if thorough { 3 } else { 2 }),
    ));
    let c3 = Cfg {
        atoms: bodies(&["int", "k: tstr", "[int]", "int / tstr", "g", "~u", "any", "h / int"]),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&[""]),
        depth: 0,
        alts: 1,
        empty: false,
    };
    v.push(groups_suite(
        "array members, 3 leaves",
        "[G]: 3 leaves of 8 kinds",
        Groups::exactly(&c3, 3),
        extra,
        arr,
        arrays(&[i(1), t("a"), a(vec![i(1)])], if thorough { 4 } else { 3 }),
    ));
    // nested arrays
    let inner = Cfg {
        atoms: bodies(&["int", "[int]", "[? int]", "[* [int]]", "[[int], tstr]", "[]"]),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&[""]),
        depth: 0,
        alts: 2,
        empty: true,
    };
    let leaf = [i(1), t("a")];
    let mut l1: Vec<V> = seqs(&leaf, 2).into_iter().map(V::Arr).collect();
    l1.push(i(1));
    l1.push(a(vec![a(vec![i(1)]), t("a")]));
    l1.push(a(vec![a(vec![i(1)]), a(vec![i(1)])]));
    v.push(groups_suite("nested arrays", "[G]: arrays in arrays", Groups::up_to(&inner, 2), "", arr, arrays(&l1, 3)));
    v.push(pumped_arrays(thorough));
    v.push(very_long(false));
    v.push(super::rules::faulty_repetitions(thorough));
    v.push(deep_arrays());
    v.extend(crate::corpus::suites(&["array"], thorough));
    v
}

/// Long arrays: fixed sequences, repetitions, a wrong element anywhere.
pub fn pumped_arrays(thorough: bool) -> Suite<'static> {
    let max = if thorough { 140 } else { 70 };
    suite("long arrays", format!("[m1, ..., mn] for n up to {max}, one element wrong, missing or extra at every position; repetitions up to 600 elements"), max + 1, move |n, w| {
        let kinds = ["int", "tstr", "bool"];
        let val = |k: usize| match k % 3 {
            0 => i(k as i128),
            1 => t(&format!("e{k}")),
            _ => V::Bool(k % 2 == 0),
        };
        let good: Vec<V> = (0..n).map(val).collect();
        let mut vs = vec![a(good.clone())];
        for p in 0..n {
            let mut x = good.clone();
            x[p] = V::Null;
            vs.push(a(x));
            let mut x = good.clone();
            x.remove(p);
            vs.push(a(x));
            let mut x = good.clone();
            x.insert(p, V::Null);
            vs.push(a(x));
            if p > 0 {
                let mut x = good.clone();
                x.swap(p, p - 1);
                vs.push(a(x));
            }
        }
        let mut x = good.clone();
        x.push(i(0));
        vs.push(a(x));
        let vs = vals(vs);
        let mems: Vec<String> = (0..n).map(|k| kinds[k % 3].to_string()).collect();
        let one = |body: String| format!("t = [{body}]\n");
        let mut texts = vec![one(mems.join(", "))];
        texts.push(one(mems.iter().map(|m| format!("({m}, ())")).collect::<Vec<_>>().join(", ")));
        texts.push(one(mems.iter().enumerate().map(|(k, m)| format!("k{k}: {m}")).collect::<Vec<_>>().join(", ")));
        texts.push(one(format!("{n}*{n} (int / tstr / bool)")));
        texts.push(one(format!("? x, {}", if n == 0 { "()".into() } else { mems.join(", ") })) + "x = (null, null)\n");
        if n > 0 {
            // alternatives that differ late
            texts.push(one(format!("{}, null // {}", mems.join(", "), mems.join(", "))));
            texts.push(one(format!("? ({}, null), {}", mems.join(", "), mems.join(", "))));
            texts.push(one((0..n).map(|k| format!("{}{k}*{k} null, null", mems[..k].iter().map(|m| format!("{m}, ")).collect::<String>())).collect::<Vec<_>>().join(" // ") + &format!(" // {}", mems.join(", "))));
        }
        for x in &texts {
            w.sweep(&cddl(x), "t", &vs);
        }
        // uniform repetitions around powers of two
        if n < 12 {
            let lens: Vec<usize> = vec![0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 600];
            let occ = ["*", "+", "?", "16*", "*256", "255*257", "256*256", "0*0", "1*", "64*64", "*300", "512*600"][n];
            let mut vs = vec![];
            for l in lens {
                vs.push(a((0..l as i128).map(i).collect()));
                let mut x: Vec<V> = (0..l as i128).map(i).collect();
                x.push(t("end"));
                vs.push(a(x));
            }
            let vs = vals(vs);
            for body in [format!("{occ} int"), format!("{occ} int, tstr"), format!("{occ} (int), tstr"), format!("{occ} (int, int)"), format!("{occ} (int / tstr)")] {
                w.sweep(&cddl(&one(body)), "t", &vs);
            }
        }
    })
}

/// Arrays or maps whose number of elements passes 2^15, 2^16 and 2^17.
pub fn very_long(maps: bool) -> Suite<'static> {
    let lens: &[usize] = if maps { &[4096, 4097, 32769, 65535, 65536, 65537, 131073] } else { &[4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 131073] };
    let name = if maps { "very long maps" } else { "very long arrays" };
    suite(name, "4095 to 131073 elements, the last, first or middle one wrong or missing, against repetitions with and without bounds", lens.len(), move |k, w| {
        let n = lens[k];
        let num = |k: usize| i(k as i128);
        if maps {
            // more entries than the reference machine's states can hold: the
            // number of entries of each kind decides
            let mut vs = vec![];
            for (p, q, wrong) in [(n, 0, 0), (n - 1, 0, 0), (n, 1, 0), (n, 2, 0), (n - 1, 0, 1), (n - 1, 1, 0), (0, 1, 0)] {
                let mut x: Vec<(V, V)> = (0..p).map(|k| (num(k), i(1))).collect();
                x.extend((0..q).map(|k| (t(&format!("t{k}")), i(1))));
                x.extend((0..wrong).map(|k| (num(n / 2 + n + k), t("w"))));
                vs.push((p, q, vals(vec![m(x)]).pop().unwrap(), wrong));
            }
            for (lo, hi, o) in [(0, usize::MAX, "*".to_string()), (1, usize::MAX, "+".into()), (n, n, format!("{n}*{n}")), (n, usize::MAX, format!("{n}*")), (0, n - 1, format!("*{}", n - 1))] {
                for fol in [0, 1] {
                    let text = format!("t = {{{o} int => int{}}}\n", if fol == 1 { ", tstr => int" } else { "" });
                    if let Some(p) = w.read(&cddl(&text)) {
                        for (np, nq, v, wrong) in &vs {
                            if w.stopped() {
                                return;
                            }
                            let ok = *np >= lo && *np <= hi && *nq == fol && *wrong == 0;
                            w.publish_value(&p, "t", v);
                            w.judge(&p, "t", v, if ok { OK } else { MIS });
                        }
                    }
                }
            }
            return;
        }
        let good: Vec<V> = (0..n).map(num).collect();
        let mut vs = vec![a(good.clone())];
        for p in [0, n / 2, n - 1] {
            let mut x = good.clone();
            x[p] = t("w");
            vs.push(a(x));
        }
        vs.push(a(good[..n - 1].to_vec()));
        let vs = vals(vs);
        for x in ["* int".into(), "* int, tstr".into(), format!("{n}*{n} int"), format!("{n}* any"), format!("*{} int", n - 1), format!("*{} int, any", n - 1), "* (int, int), ? int".into(), "? (* int, null), * any".into()] {
            w.sweep(&cddl(&format!("t = [{x}]\n")), "t", &vs);
        }
    })
}

/// Deeply nested arrays and groups.
pub fn deep_arrays() -> Suite<'static> {
    suite("deep arrays", "nesting 1 to 60 of arrays, groups, optional groups, alternatives; innermost right or wrong", 60, |d, w| {
        let d = d + 1;
        let nest = |x: V, n: usize| (0..n).fold(x, |x, _| a(vec![x]));
        let mut vs = vec![nest(i(1), d), nest(t("a"), d), nest(i(1), d - 1), nest(i(1), d + 1), a(vec![i(1)]), a(vec![])];
        vs.push(a(vec![i(1), i(1)]));
        vs.push(a(vec![i(1), t("a")]));
        vs.push((0..d).fold(i(1), |x, _| a(vec![x, i(1)])));
        vs.push(a((0..d).map(|_| i(1)).collect()));
        vs.push(a((0..d + 1).map(|_| i(1)).collect()));
        let vs = vals(vs);
        let wrap = |l: &str, x: &str, r: &str| format!("t = {}{x}{}\n", l.repeat(d), r.repeat(d));
        let texts = [
            wrap("[", "int", "]"),
            wrap("[? ", "int", "]"),
            wrap("[* ", "int", "]"),
            format!("t = [{}int, int{}]\n", "(".repeat(d), ")".repeat(d)),
            format!("t = [{}? int{}]\n", "(".repeat(d), ")".repeat(d)),
            format!("t = [{}int{}, ? tstr]\n", "? (? (".repeat(d), "))".repeat(d)),
            format!("t = [{}int{}]\n", "(int, tstr // ".repeat(d), ")".repeat(d)),
            format!("t = {}int{}\n", "[tstr, int // ".repeat(d), "]".repeat(d)),
            format!("t = {}int{}\n", "[1, 2] / [".repeat(d), "]".repeat(d)),
            format!("t = [{}? int{}]\n", "(int, ".repeat(d), ")".repeat(d)),
            format!("t = {}int{}\n", "[".repeat(d), ", int]".repeat(d)),
        ];
        for x in &texts {
            w.sweep(&cddl(x), "t", &vs);
        }
    })
}

// ------------------------------------------------------------------ C03

pub fn c03(thorough: bool) -> Vec<Suite<'static>> {
    let mut v = vec![];
    // positions are told apart: 1 and 2 must come back in order
    let c = Cfg {
        atoms: bodies(&["1", "2", "int"]),
        occs: occs(&["", "?"]),
        poccs: occs(&["", "?", "*"]),
        depth: 2,
        alts: 2,
        empty: false,
    };
    let c2 = Cfg { atoms: bodies(&["1", "2"]), ..c.clone() };
    v.push(groups_suite(
        "rewinding in arrays, nesting 2",
        "[G]: up to 2 leaves 1/2/int with nesting 2",
        Groups::up_to(&c, 2),
        "",
        arr,
        arrays(&[i(1), i(2)], 4),
    ));
    let c1 = Cfg { depth: 1, poccs: occs(&["", "?"]), ..c.clone() };
    v.push(groups_suite(
        "rewinding in arrays, 3 leaves",
        "[G]: 3 leaves 1/2/int, nesting 1",
        Groups::exactly(&c1, 3),
        "",
        arr,
        arrays(&[i(1), i(2)], 4),
    ));
    let c4 = Cfg { occs: occs(&[""]), poccs: occs(&["", "?"]), depth: 1, ..c2.clone() };
    v.push(groups_suite(
        "rewinding in arrays, 4 leaves",
        "[G]: 4 leaves 1/2, nesting 1, two alternatives",
        Groups::exactly(&c4, 4),
        "",
        arr,
        arrays(&[i(1), i(2)], 4),
    ));
    // a group within a group within a group, followed by what must still match
    let c5 = Cfg { occs: occs(&[""]), poccs: occs(&["", "?"]), depth: 2, ..c2.clone() };
    v.push(groups_suite(
        "rewinding in arrays, 3 leaves, nesting 2",
        "[G]: 3 leaves 1/2, nesting 2, two alternatives",
        Groups::exactly(&c5, 3),
        "",
        arr,
        arrays(&[i(1), i(2)], 4),
    ));
    if thorough {
        v.push(groups_suite(
            "rewinding in arrays, 3 leaves, nesting 2, optional",
            "[G]: 3 leaves 1/2, ?, nesting 2",
            Groups::exactly(&Cfg { occs: occs(&["", "?"]), alts: 2, ..c5.clone() }, 3),
            "",
            arr,
            arrays(&[i(1), i(2)], 4),
        ));
        v.push(groups_suite(
            "rewinding in arrays, 5 leaves",
            "[G]: 5 leaves 1/2, nesting 1",
            Groups::exactly(&Cfg { poccs: occs(&["?"]), ..c4.clone() }, 5),
            "",
            arr,
            arrays(&[i(1), i(2)], 5),
        ));
    }
    // named groups and unwrapping, and choices between them
    let extra = "g = (1, 2)\ng2 = (g, 1)\ng3 = (1, ? g // 2, 2)\nu = [1, 2]\nu2 = [? g, 1]\nu3 = [~u, 1 // 1, 1]\nu4 = u\nh<A> = (A, 2)\ng4 = (1, u5)\nu5 = ((2, 2))\n";
    let c = Cfg {
        atoms: bodies(&["1", "2", "g", "g2", "g3", "~u", "~u2", "~u3", "~u4", "g / 1", "~u / 1", "g2 / g / g3", "h<1>", "h<g> / 2", "(g4 / 1)"]),
        occs: occs(&["", "?", "*"]),
        poccs: occs(&["", "?"]),
        depth: 1,
        alts: 2,
        empty: false,
    };
    v.push(groups_suite(
        "rewinding named and unwrapped groups in arrays",
        "[G]: up to 2 leaves of 15 kinds, nesting 1",
        Groups::up_to(&c, 2),
        extra,
        arr,
        arrays(&[i(1), i(2)], 5),
    ));
    let c = Cfg {
        atoms: bodies(&["1", "2", "g", "~u", "g2 / g", "~u3", "h<1>"]),
        occs: occs(&["", "?"]),
        poccs: occs(&["", "?"]),
        depth: 0,
        alts: 2,
        empty: false,
    };
    v.push(groups_suite(
        "rewinding named groups in arrays, 3 leaves",
        "[G]: 3 leaves of 7 kinds",
        Groups::exactly(&c, 3),
        extra,
        arr,
        arrays(&[i(1), i(2)], 5),
    ));
    v.extend(put_back(thorough));
    v.push(deep_rewind());
    v.extend(super::maps::rewinding(thorough));
    v.extend(crate::corpus::suites(&["rewind"], thorough));
    v
}

fn deep_rewind() -> Suite<'static> {
    suite("deep rewinding", "attempts nested 1 to 30 deep failing at the innermost or outermost point, arrays and maps", 30, |d, w| {
        let d = d + 1;
        let ints = |n: usize| (1..=n as i128).map(i).collect::<Vec<_>>();
        let mut vs = vec![];
        for n in [d.saturating_sub(1), d, d + 1] {
            vs.push(a(ints(n)));
            let mut x = ints(n);
            x.push(t("z"));
            vs.push(a(x));
            let mut x = ints(n);
            x.reverse();
            vs.push(a(x));
        }
        let vs = vals(vs);
        // ? (1, ? (2, ? (3, ... "z"))), 1, 2, 3 ...
        let seq: Vec<String> = (1..=d).map(|k| k.to_string()).collect();
        let mut texts = vec![];
        for open in ["? (", "(", "* (", "? (? "] {
            let inner: String = seq.iter().map(|k| format!("{open}{k}, ")).collect();
            texts.push(format!("t = [{inner}\"y\"{}, {}]\n", ")".repeat(d), seq.join(", ")));
            texts.push(format!("t = [{inner}\"y\"{} // {}]\n", ")".repeat(d), seq.join(", ")));
            texts.push(format!("t = [({inner}{}, \"y\") // {}]\n", ")".repeat(d), seq.join(", ")));
            texts.push(format!("t = [? ({inner}{}, \"y\"), {}, ? tstr]\n", ")".repeat(d), seq.join(", ")));
        }
        for x in &texts {
            w.sweep(&cddl(x), "t", &vs);
        }
        // the same through names, and unwrapped
        for (def, rf) in [("(", "g"), ("[", "~g")] {
            let close = if def == "(" { ")" } else { "]" };
            let mut s = format!("t = [{rf}1, \"y\" // {}, ? tstr]\n", seq.join(", "));
            for k in 1..=d {
                let next = if k == d { String::new() } else { format!(", {rf}{}", k + 1) };
                s += &format!("g{k} = {def}{k}{next}{}{close}\n", if k == d && d == 1 { ", ? null" } else { ", ? null" });
            }
            w.sweep(&cddl(&s), "t", &vs);
        }
        // maps
        let mut mv = vec![];
        for n in [d.saturating_sub(1), d, d + 1] {
            mv.push(m((1..=n as i128).map(|k| (i(k), i(k))).collect()));
            let mut x: Vec<(V, V)> = (1..=n as i128).map(|k| (i(k), i(k))).collect();
            x.push((t("z"), i(0)));
            mv.push(m(x));
        }
        let mv = vals(mv);
        let seq: Vec<String> = (1..=d).map(|k| format!("{k}: int")).collect();
        let mut texts = vec![];
        for open in ["? (", "(", "? (? "] {
            let inner: String = seq.iter().map(|k| format!("{open}{k}, ")).collect();
            texts.push(format!("t = {{{inner}\"y\": int{}, {}}}\n", ")".repeat(d), seq.join(", ")));
            texts.push(format!("t = {{{inner}\"y\": int{} // {}}}\n", ")".repeat(d), seq.join(", ")));
            texts.push(format!("t = {{({inner}{}, \"y\": int) // {}}}\n", ")".repeat(d), seq.join(", ")));
            texts.push(format!("t = {{? ({inner}{}, \"y\": int), {}, ? tstr => int}}\n", ")".repeat(d), seq.join(", ")));
        }
        for x in &texts {
            w.sweep(&cddl(x), "t", &mv);
        }
        for (def, rf) in [("(", "g"), ("{", "~g")] {
            let close = if def == "(" { ")" } else { "}" };
            let mut s = format!("t = {{{rf}1, \"y\": int // {}, ? tstr => int}}\n", seq.join(", "));
            for k in 1..=d {
                let next = if k == d { String::new() } else { format!(", {rf}{}", k + 1) };
                s += &format!("g{k} = {def}{k}: int{next}, ? null => int{close}\n");
            }
            w.sweep(&cddl(&s), "t", &mv);
        }
    })
}

// ------------------------------------------------------------------ C04

pub fn c04(thorough: bool) -> Vec<Suite<'static>> {
    let mut v = vec![];
    let hi = if thorough { 5 } else { 4 };
    // every pair of bounds, every number of elements, before every follower
    let mut os = vec!["".to_string(), "?".into(), "*".into(), "+".into()];
    for n in 0..=hi {
        os.push(format!("{n}*"));
        os.push(format!("*{n}"));
        for k in 0..=hi {
            os.push(format!("{n}*{k}"));
        }
    }
    let big = ["4294967296*", "18446744073709551615*", "*18446744073709551615", "0*18446744073709551615", "*4294967296", "2*4294967297", "18446744073709551615*18446744073709551615"];
    os.extend(big.iter().map(|s| s.to_string()));
    let os = std::sync::Arc::new(os);
    let o2 = os.clone();
    v.push(suite("bounds in arrays", format!("every occurrence with bounds up to {hi} x members x followers x 0 to {} elements", hi + 3), os.len(), move |k, w| {
        let o = &o2[k];
        let mut vs = vec![];
        for n in 0..=hi + 3 {
            for m in 0..=3 {
                let mut x: Vec<V> = (0..n).map(|_| i(1)).collect();
                x.extend((0..m).map(|_| t("a")));
                vs.push(a(x));
            }
            let mut x: Vec<V> = (0..n).map(|_| i(1)).collect();
            x.push(i(2));
            vs.push(a(x.clone()));
            x.push(t("a"));
            vs.push(a(x));
            vs.push(a((0..n).flat_map(|_| [i(1), t("a")]).collect()));
            vs.push(a((0..n).map(|_| a(vec![i(1)])).collect()));
            vs.push(a((0..n).map(|_| m(vec![])).collect()));
        }
        let vs = vals(vs);
        for b in ["int", "1", "(int)", "(1, tstr)", "(1, ? tstr)", "(? 1)", "(* 1)", "()", "g", "~u", "g / tstr", "k: int", "int / tstr", "[1]", "[int] / 1", "p<1>", "&(x: 1)", "{}", "(1 // 2, tstr)", "(2, tstr // 1)"] {
            for fol in ["", ", tstr", ", ? tstr", ", int", ", 1", ", * int", ", + 1, tstr", ", 2*2 1"] {
                let x = format!("t = [{o} {b}{fol}]\ng = (1, tstr)\nu = [1, ? tstr]\np<A> = A\n");
                w.sweep(&cddl(&x), "t", &vs);
            }
        }
        // an occurrence within an occurrence
        for outer in ["?", "*", "+", "2*3", "*2", "0*0"] {
            for b in ["1", "(1, tstr)"] {
                let x = format!("t = [{outer} ({o} {b}), ? tstr, ? 1]\n");
                w.sweep(&cddl(&x), "t", &vs);
                let x = format!("t = [{outer} g, ? 1]\ng = ({o} {b}, tstr)\n");
                w.sweep(&cddl(&x), "t", &vs);
            }
        }
        // a rule that is an occurrence
        if !o.is_empty() {
            let x = format!("t = [g, ? tstr]\ng = {o} 1\n");
            if crate::refparse::parse(&x).is_ok() {
                w.sweep(&cddl(&x), "t", &vs);
            }
        }
    }));
    let o2 = os.clone();
    v.push(suite("bounds in maps", format!("every occurrence with bounds up to {hi} x members x followers x 0 to {} entries", hi + 3), os.len(), move |k, w| {
        let o = &o2[k];
        let mut vs = vec![];
        for n in 0..=hi + 3 {
            let ints: Vec<(V, V)> = (0..n as i128).map(|x| (i(x), i(1))).collect();
            for k in 0..=3 {
                let mut x = ints.clone();
                x.extend((0..k).map(|y| (t(&format!("k{y}")), i(1))));
                vs.push(m(x));
            }
            let mut x = ints.clone();
            x.push((i(100), t("a")));
            vs.push(m(x));
            let mut x: Vec<(V, V)> = ints.clone();
            x.extend((0..n).map(|y| (t(&format!("k{y}")), i(1))));
            vs.push(m(x));
        }
        let vs = vals(vs);
        for b in ["int => 1", "int ^=> 1", "uint => int", "(int => 1)", "0: 1", "0 => 1", "(0: 1)", "(int => 1, tstr => 1)", "(int => 1, ? tstr => 1)", "(? int => 1)", "()", "g", "~u", "(0: 1, 1: 1)", "(0: 1 // int => 1)", "p<int>"] {
            for fol in ["", ", * tstr => 1", ", tstr => 1", ", int => 1", ", * int => 1", ", ? any => 1"] {
                let x = format!("t = {{{o} {b}{fol}}}\ng = (int => 1, ? tstr => 1)\nu = {{int => 1}}\np<A> = (A => 1)\n");
                w.sweep(&cddl(&x), "t", &vs);
            }
        }
        for outer in ["?", "*", "+", "2*3", "*2", "0*0"] {
            for b in ["int => 1", "(int => 1, tstr => 1)"] {
                let x = format!("t = {{{outer} ({o} {b}), ? tstr => 1}}\n");
                w.sweep(&cddl(&x), "t", &vs);
            }
        }
        if !o.is_empty() {
            let x = format!("t = {{g, ? tstr => 1}}\ng = {o} int => 1\n");
            if crate::refparse::parse(&x).is_ok() {
                w.sweep(&cddl(&x), "t", &vs);
            }
        }
    }));
    // combinations of all occurrences
    let all = ["", "?", "*", "+", "0*0", "0*1", "1*1", "1*2", "2*2", "*1", "2*", "2*1", "0*"];
    let c = Cfg { atoms: bodies(&["int", "1"]), occs: occs(&all), poccs: occs(&all), depth: 0, alts: 2, empty: true };
    v.push(groups_suite(
        "sequences of occurrences in arrays",
        "[G]: up to 3 leaves int/1 with 13 occurrences, up to 2 alternatives",
        Groups::up_to(&c, 3),
        "",
        arr,
        arrays(&[i(1), i(2)], if thorough { 6 } else { 4 }),
    ));
    let c = Cfg { atoms: bodies(&["int", "tstr"]), occs: occs(&["", "?", "*", "+", "2*2", "1*2"]), poccs: occs(&all), depth: 1, alts: 2, empty: true };
    v.push(groups_suite(
        "occurrences of groups in arrays",
        "[G]: up to 2 leaves, nesting 1, 13 occurrences of groups",
        Groups::up_to(&c, 2),
        "",
        arr,
        arrays(&[i(1), t("a")], if thorough { 6 } else { 4 }),
    ));
    let c = Cfg {
        atoms: bodies(&["tstr => int", "a: int", "tstr ^=> 1", "int => int"]),
        occs: occs(&["", "?", "*", "+", "2*2", "1*2", "0*0", "*1"]),
        poccs: occs(&["", "?", "*", "+", "0*0", "2*2"]),
        depth: 1,
        alts: 2,
        empty: false,
    };
    let mut vs = maps(&[t("a"), t("b"), i(1), i(2)], &[i(1), i(2)]);
    vs.push(V::Arr(vec![]));
    v.push(groups_suite("occurrences in maps", "{G}: up to 2 leaves, nesting 1", Groups::up_to(&c, 2), "", map, vals(vs)));
    v.push(pumped_arrays(thorough));
    v.push(super::maps::pumped_maps(thorough));
    v.push(very_long(false));
    v.push(super::rules::faulty_repetitions(thorough));
    v.push(very_long(true));
    v.extend(crate::corpus::suites(&["occur"], thorough));
    v
}

/// One thing of every kind, as a type that accepts nothing else in the list,
/// and as a value.
fn things() -> Vec<(&'static str, V)> {
    vec![
        ("1", i(1)),
        ("-1", i(-1)),
        ("0", i(0)),
        ("255", i(255)),
        ("-256", i(-256)),
        ("18446744073709551615", i(u64::MAX as i128)),
        ("(nint .lt -9223372036854775807)", i(-(1i128 << 64))),
        ("\"a\"", t("a")),
        ("\"\"", t("")),
        ("\"é\"", t("é")),
        ("\"a0\"", t("a0")),
        ("'a'", b(b"a")),
        ("h''", b(b"")),
        ("h'ff00'", b(&[0xff, 0])),
        ("true", V::Bool(true)),
        ("false", V::Bool(false)),
        ("null", V::Null),
        ("1.0", f(1.0)),
        ("-1.0", f(-1.0)),
        ("1.5e300", f(1.5e300)),
        ("[]", a(vec![])),
        ("[1]", a(vec![i(1)])),
        ("[-1, [\"a\"]]", a(vec![i(-1), a(vec![t("a")])])),
        ("{}", m(vec![])),
        ("{a: -1}", m(vec![(t("a"), i(-1))])),
        ("{-1 => {a: [1]}}", m(vec![(i(-1), m(vec![(t("a"), a(vec![i(1)]))]))])),
    ]
}

/// What an attempt that fails had taken is available again, exactly as it
/// was: one, two and three things of every kind.
pub fn put_back(thorough: bool) -> Vec<Suite<'static>> {
    let th = things();
    let n = th.len();
    let mut out = vec![];
    let ths = th.clone();
    out.push(suite("kinds of entries put back", format!("maps with every pair of {n} things as key and value (and as keys of two entries), taken by an attempt of 12 kinds that fails, then wanted again"), n, move |k, w| {
        let (kt, kv) = ths[k].clone();
        let z = ("\"z\"", t("z"));
        for l in 0..n {
            let (xt, xv) = ths[l].clone();
            let mut vs = vec![m(vec![(kv.clone(), xv.clone()), (z.1.clone(), i(1))]), m(vec![(kv.clone(), xv.clone())])];
            for d in [1, 3, 7] {
                let other = &ths[(l + d) % n].1;
                vs.push(m(vec![(kv.clone(), other.clone()), (z.1.clone(), i(1))]));
                if (k + d) % n != l {
                    vs.push(m(vec![(ths[(k + d) % n].1.clone(), xv.clone()), (z.1.clone(), i(1))]));
                }
            }
            let vs = vals(vs);
            for form in [
                "t = {(@ => any, no: int // @ => #, z: int)}",
                "t = {? (@ => any, no: int), @ => #, ? z: int}",
                "t = {? (any => #, no: int), ? z: int, @ => #}",
                "t = {* (@ => #, no: int), \"z\" => int, @ => #}",
                "t = {((@ => # // no: int), no: int // z: int, any => #)}",
                "t = {? g, @ => #, \"z\" => int}\ng = (@ => any, no: int)",
                "t = {? ~u, @ => #, \"z\" => int}\nu = {@ => any, no: int}",
                "t = {? (z: int, g // g), @ => #, ? z: int}\ng = (@ => any, ? z: int, no: int)",
                "t = {(* any => any, no: int // @ => #, z: int)}",
                "t = {? (? (@ => #, ? z: int), no: int), @ => #, z: int}",
                "t = {? p<@>, @ => #, z: int}\np<A> = (A => any, no: int)",
                "t = {(1*2 any => any, no: int) // (z: int, @ => #)}",
            ] {
                if w.stopped() {
                    return;
                }
                w.sweep(&cddl(&format!("{}\n", form.replace('@', kt).replace('#', xt))), "t", &vs);
            }
            if l == k {
                continue;
            }
            // two entries
            let mut vs = vec![m(vec![(kv.clone(), i(1)), (xv.clone(), i(2))]), m(vec![(kv.clone(), i(2)), (xv.clone(), i(1))])];
            vs.push(m(vec![(kv.clone(), i(1))]));
            vs.push(m(vec![(kv.clone(), i(1)), (xv.clone(), i(2)), (t("z"), i(3))]));
            let vs = vals(vs);
            for form in [
                "t = {(@ => any, # => any, no: int // # => 2, @ => 1)}",
                "t = {? (@ => any, # => any, no: int), any => 1, # => 2}",
                "t = {? (@ => any, ? (# => any, no: int), no: int), # => 2, @ => 1, ? z: 3}",
                "t = {? (@ => any, (# => any // no: int), no: int), # => 2, @ => 1}",
                "t = {* (@ => any, no: int), (# => 2, no: int // any => 1), * any => any}",
            ] {
                w.sweep(&cddl(&format!("{}\n", form.replace('@', kt).replace('#', xt))), "t", &vs);
            }
        }
    }));
    let ths = th.clone();
    out.push(suite("kinds of elements put back", format!("arrays of two and three of {n} things taken by an attempt of 9 kinds that fails, then wanted again"), n, move |k, w| {
        let (kt, kv) = ths[k].clone();
        for l in 0..n {
            let (xt, xv) = ths[l].clone();
            let (yt, yv) = ths[(k + l) % n].clone();
            let o = ths[(l + 1) % n].1.clone();
            let all = [kv.clone(), xv.clone(), yv.clone()];
            let mut vs = vec![a(all.to_vec()), a(all[..2].to_vec()), a(all[..1].to_vec()), a(vec![xv.clone(), kv.clone()]), a(vec![kv.clone(), yv.clone(), xv.clone()])];
            vs.push(a(vec![kv.clone(), xv.clone(), o]));
            vs.push(a(vec![yv, xv, kv.clone()]));
            let vs = vals(vs);
            for form in [
                "t = [(any, any, \"no\" // @, #)]",
                "t = [? (@, # , \"no\"), @, #, ? &]",
                "t = [* (@, #, &, \"no\"), @, #, &]",
                "t = [(@, (#, & // #), \"no\") // @, #, * any]",
                "t = [? g, @, #, ? &]\ng = (any, #, \"no\")",
                "t = [? ~u, @, #, &]\nu = [* any, \"no\"]",
                "t = [? (? (@, ? #), &, \"no\"), @, #, ? &]",
                "t = [? p<#>, @, #, ? &]\np<A> = (@, A, \"no\")",
                "t = [(1*3 any, \"no\") // (@, #, &)]",
            ] {
                if w.stopped() {
                    return;
                }
                w.sweep(&cddl(&format!("{}\n", form.replace('@', kt).replace('#', xt).replace('&', yt))), "t", &vs);
            }
        }
    }));
    let top = if thorough { 100 } else { 40 };
    out.push(suite("numbers of things put back", format!("attempts that take 1 to {top} elements or entries and fail right after, or at each place before"), top, move |k, w| {
        let n = k + 1;
        let els: Vec<V> = (1..=n as i128).map(i).collect();
        let seq: Vec<String> = (1..=n).map(|k| k.to_string()).collect();
        let seq = seq.join(", ");
        let mut vs = vec![a(els.clone())];
        let mut x = els.clone();
        x.push(i(n as i128 + 1));
        vs.push(a(x));
        vs.push(a(els[..n - 1].to_vec()));
        for p in 0..n - 1 {
            let mut x = els.clone();
            x.swap(p, p + 1);
            vs.push(a(x));
        }
        let vs = vals(vs);
        let mut texts = vec![
            format!("t = [({seq}, \"no\") // {seq}]"),
            format!("t = [? ({seq}, \"no\"), {seq}, ? int]"),
            format!("t = [? ({seq}, \"no\"), * int]"),
            format!("t = [(* int, \"no\") // {seq}]"),
            format!("t = [? g, {seq}]\ng = ({seq}, \"no\")"),
            format!("t = [? ~u, {seq}]\nu = [{seq}, \"no\"]"),
            format!("t = [(({seq}), \"no\" // {seq})]"),
            format!("t = [? ((({seq}), \"no\" // {seq}), \"no\"), {seq}]"),
            format!("t = [* (int, int, \"no\" // int, \"no\" // {seq}, \"no\"), {seq}]"),
        ];
        for p in 1..n {
            let l: Vec<String> = (1..=p).map(|k| k.to_string()).collect();
            texts.push(format!("t = [? ({}, \"no\"), {seq}]", l.join(", ")));
        }
        for x in &texts {
            w.sweep(&cddl(&format!("{x}\n")), "t", &vs);
        }
        let es: Vec<(V, V)> = (1..=n as i128).map(|k| (i(if k % 2 == 0 { k } else { -k }), i(k))).collect();
        let mut vs = vec![m(es.clone())];
        for p in 0..n {
            let mut x = es.clone();
            x.remove(p);
            vs.push(m(x));
            let mut x = es.clone();
            x[p].1 = i(-1);
            vs.push(m(x));
        }
        let vs = vals(vs);
        let seq: Vec<String> = (1..=n as i128).map(|k| format!("{} => {k}", if k % 2 == 0 { k } else { -k })).collect();
        let back: Vec<String> = seq.iter().rev().cloned().collect();
        let (seq, back) = (seq.join(", "), back.join(", "));
        for x in [
            format!("t = {{({seq}, no: int) // {back}}}"),
            format!("t = {{? ({seq}, no: int), {seq}}}"),
            format!("t = {{? (* int => int, no: int), {back}}}"),
            format!("t = {{? ({seq}, no: int), {n}*{n} int => uint}}"),
            format!("t = {{? g, {back}}}\ng = ({seq}, no: int)"),
            format!("t = {{? ~u, {back}}}\nu = {{{seq}, no: int}}"),
            format!("t = {{(({seq}), no: int // {back})}}"),
            format!("t = {{? ((({seq}), no: int // {back}), no: int), {seq}}}"),
        ] {
            w.sweep(&cddl(&format!("{x}\n")), "t", &vs);
        }
    }));
    out
}

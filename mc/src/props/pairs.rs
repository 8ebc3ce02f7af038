//! Pairs of kinds: every kind of type next to, or inside, every other kind.

use super::common::*;

const EXTRA: &str = "kx = 7 / \"kx\"\nkl = 5\nkt = \"kt\"\nka = [* int]\nkm = {? a: int}\nkg = (y: 8, z: \"kz\")\nkq<A> = [A, A]\nki<A> = A\n";

/// Kinds of types, each with values it accepts.
fn kinds_of_types() -> Vec<(&'static str, Vec<V>)> {
    vec![
        ("int", vec![i(1), i(-1)]),
        ("uint", vec![i(0)]),
        ("nint", vec![i(-1)]),
        ("tstr", vec![t("a")]),
        ("bstr", vec![b(b"a")]),
        ("bool", vec![V::Bool(false)]),
        ("true", vec![V::Bool(true)]),
        ("null", vec![V::Null]),
        ("any", vec![t("any")]),
        ("float", vec![f(1.5)]),
        ("1", vec![i(1)]),
        ("-1", vec![i(-1)]),
        ("\"a\"", vec![t("a")]),
        ("'a'", vec![b(b"a")]),
        ("1.5", vec![f(1.5)]),
        ("(int / tstr)", vec![i(1), t("a")]),
        ("(bool / null)", vec![V::Null, V::Bool(true)]),
        ("(1 / \"a\" / [int])", vec![i(1), a(vec![i(1)])]),
        ("(1..3)", vec![i(3)]),
        ("(1...3)", vec![i(2)]),
        ("(1.0..2.0)", vec![f(1.5)]),
        ("(uint .size 1)", vec![i(255)]),
        ("(tstr .size 1)", vec![t("a")]),
        ("(int .lt 0)", vec![i(-1)]),
        ("(int .ge 1)", vec![i(1)]),
        ("(tstr .regexp \"a\")", vec![t("ba")]),
        ("(bytes .cbor int)", vec![b(&[1])]),
        ("[int]", vec![a(vec![i(1)])]),
        ("[* tstr]", vec![a(vec![]), a(vec![t("a")])]),
        ("[? int, tstr]", vec![a(vec![t("a")])]),
        ("{a: int}", vec![m(vec![(t("a"), i(1))])]),
        ("{* tstr => int}", vec![m(vec![])]),
        ("&(p: 1, q: \"a\")", vec![i(1)]),
        ("&kg", vec![i(8)]),
        ("kx", vec![i(7)]),
        ("kl", vec![i(5)]),
        ("kt", vec![t("kt")]),
        ("ka", vec![a(vec![i(1), i(2)])]),
        ("km", vec![m(vec![])]),
        ("kq<int>", vec![a(vec![i(1), i(2)])]),
        ("ki<(1 / \"a\")>", vec![i(1)]),
        ("(int)", vec![i(1)]),
        ("((1) / (null))", vec![V::Null]),
    ]
}

/// How a form's value is made of one value for each of the two kinds.
type Make = fn(V, V) -> V;

fn arr2(x: V, y: V) -> V {
    a(vec![x, y])
}
fn arr3(x: V, y: V) -> V {
    a(vec![x.clone(), y, x])
}
fn arr1(x: V, _: V) -> V {
    a(vec![x])
}
fn arr2x(x: V, y: V) -> V {
    a(vec![y, x])
}
fn alone(x: V, _: V) -> V {
    x
}
fn named(x: V, y: V) -> V {
    m(vec![(t("a"), x), (t("b"), y)])
}
fn named1(x: V, _: V) -> V {
    m(vec![(t("b"), x)])
}
fn entry(x: V, y: V) -> V {
    m(vec![(x, y)])
}
fn keys(x: V, y: V) -> V {
    if same(&x, &y) {
        m(vec![(x, i(1))])
    } else {
        m(vec![(x, i(1)), (y, i(2))])
    }
}
fn inner(x: V, y: V) -> V {
    a(vec![a(vec![x]), m(vec![(t("k"), y)])])
}

fn enc(x: V) -> V {
    V::Bytes(encode(&x, &PLAIN))
}
fn enc_arr(x: V, y: V) -> V {
    enc(a(vec![x, y]))
}
fn enc_each(x: V, y: V) -> V {
    a(vec![enc(x), enc(y)])
}
fn enc_entry(x: V, y: V) -> V {
    m(vec![(enc(x), enc(y))])
}
fn enc_alone(x: V, _: V) -> V {
    enc(x)
}
fn enc_val(x: V, y: V) -> V {
    m(vec![(t("k"), enc(x)), (t("l"), enc(y))])
}

fn forms(prop: &str) -> Vec<(&'static str, Vec<Make>)> {
    match prop {
        "C01" => vec![
            ("t = [#, $]\n", vec![arr2, arr2x, arr1]),
            ("t = [? #, $]\n", vec![arr2, arr1]),
            ("t = [* #, $]\n", vec![arr3, arr2, arr1]),
            ("t = [#, * $]\n", vec![arr2, arr1]),
            ("t = [k: #, 5 => $]\n", vec![arr2]),
            ("t = [# // $, #]\n", vec![arr1, arr2x]),
            ("t = [#, ($ // #)]\n", vec![arr2, arr2x]),
            ("t = [[#], {k: $}]\n", vec![inner]),
        ],
        "C02" => vec![
            ("t = {a: #, b: $}\n", vec![named]),
            ("t = {a: #, ? tstr => $}\n", vec![named, named1]),
            ("t = {# => $}\n", vec![entry]),
            ("t = {? # => $, * any => int}\n", vec![entry, keys]),
            ("t = {# => int, $ => int}\n", vec![keys]),
            ("t = {* # => $}\n", vec![entry, keys]),
            ("t = {b: #, * # => $}\n", vec![named, named1]),
        ],
        "C03" => vec![
            ("t = [? (#, $, \"no\"), * any]\n", vec![arr2, arr3]),
            ("t = [(#, $, \"no\" // $, # // #, $)]\n", vec![arr2, arr2x]),
            ("t = [? (+ #, \"no\"), #, ? $]\n", vec![arr2, arr1]),
            ("t = {? (# => $, no: int), # => any}\n", vec![entry]),
            ("t = {(# => int, $ => tstr // # => int, $ => int)}\n", vec![keys]),
        ],
        "C04" => vec![
            ("t = [2*2 #, ? $]\n", vec![arr2, arr3, arr1]),
            ("t = [0*1 #, + $]\n", vec![arr1, arr2]),
            ("t = [*2 (#, ? $), * any]\n", vec![arr2, arr3]),
            ("t = [1*2 # / $, 0*1 $]\n", vec![arr2, arr3, arr1]),
            ("t = {2*2 # => any, ? $ => int}\n", vec![keys]),
            ("t = {0*1 # => $}\n", vec![entry, keys]),
            ("t = {+ # / $ => int}\n", vec![keys]),
            ("t = {+ (# / $) => int}\n", vec![keys]),
        ],
        "C10" => vec![
            ("t = bytes .cbor [#, $]\n", vec![enc_arr]),
            ("t = [bytes .cbor #, bytes .cbor $]\n", vec![enc_each]),
            ("t = {(bytes .cbor #) => bytes .cbor $}\n", vec![enc_entry]),
            ("t = bytes .cbor # / bytes .cbor $\n", vec![enc_alone]),
            ("t = bytes .cbor (# / $)\n", vec![enc_alone]),
            ("t = p<#, $>\np<A, B> = [bytes .cbor B, bytes .cbor A]\n", vec![enc_each]),
            ("t = [? (bytes .cbor #, bytes .cbor $), * any]\n", vec![enc_each]),
            ("t = {? k: bytes .cbor #, ? tstr => bytes .cbor $}\n", vec![enc_val]),
        ],
        "C05" => vec![
            ("t = {? # ^=> $, * any => any}\n", vec![entry, keys]),
            ("t = {? # => $, * any => any}\n", vec![entry]),
            ("t = {* # ^=> $, ? # => any}\n", vec![entry, keys]),
            ("t = {? a: #, * tstr => $}\n", vec![named, named1]),
            ("t = {(? # ^=> $ // # => any)}\n", vec![entry]),
            ("t = {? b: #, ? b => $}\n", vec![named1]),
        ],
        "C12" => vec![
            ("t = p<#, $>\np<A, B> = [A, B]\n", vec![arr2, arr2x]),
            ("t = p<#, $>\np<A, B> = [* B, A]\n", vec![arr2x, arr1]),
            ("t = p<#, $>\np<A, B> = {? a: A, ? b: B}\n", vec![named, named1]),
            ("t = p<#, $>\np<A, B> = {A => B}\n", vec![entry]),
            ("t = p<#, $>\np<A, B> = A / B\n", vec![alone]),
            ("t = p<$, #>\np<A, B> = q<B, A>\nq<B, A> = [B, A]\n", vec![arr2]),
            ("t = [p<#>, p<$>]\np<A> = A\n", vec![arr2, arr2x]),
            ("t = p<p<#>>\np<A> = [A, ? $]\n", vec![arr1, arr2]),
            ("t = p<#, $, #>\np<A, B, C> = [A, B, C]\n", vec![arr3]),
            ("t = [p<#, $>]\np<A, B> = (A, ? B)\n", vec![arr2, arr1]),
        ],
        "C13" => vec![
            ("t = [n, o]\nn = #\no = $\n", vec![arr2]),
            ("t = [o, n]\no = n\nn = # / $\n", vec![arr2]),
            ("t = {n => o}\nn = #\no = $\n", vec![entry]),
            ("t = {a: n, b: o}\nn = #\no = $\n", vec![named]),
            ("t = n / o\nn = #\no = $\n", vec![alone]),
            ("t = [g]\ng = (#, o)\no = $\n", vec![arr2]),
            ("t = [g]\ng = (h, $)\nh = (#)\n", vec![arr2]),
            ("t = {g}\ng = (a: #, h)\nh = (b: $)\n", vec![named]),
        ],
        "C14" => vec![
            ("t = [~n]\nn = [#, $]\n", vec![arr2, arr1]),
            ("t = [? ~n, * any]\nn = [#, $, 9]\n", vec![arr2]),
            ("t = [~n, ~o]\nn = [? #]\no = [$]\n", vec![arr2, arr1]),
            ("t = {~n}\nn = {a: #, ? b: $}\n", vec![named, named1]),
            ("t = {~n, * any => int}\nn = {# => $}\n", vec![entry, keys]),
            ("t = [~p<#>, ~p<$>]\np<A> = [A]\n", vec![arr2]),
            ("t = [+ ~n]\nn = [# / $]\n", vec![arr2, arr3]),
        ],
        "C15" => vec![
            ("t = # / $\n", vec![alone]),
            ("t = [# / $, $ / #]\n", vec![arr2]),
            ("t = {(# / $) => # / $}\n", vec![entry]),
            ("t = {* (# / $) => int}\n", vec![keys]),
            ("t = &(p: #, $)\n", vec![alone]),
            ("t = [* &e]\ne = (p: #, q: $)\n", vec![arr2]),
            ("t = {a: # / $, b: ($ / #)}\n", vec![named]),
            ("t = (# / \"no\") / ($ / 99)\n", vec![alone]),
        ],
        _ => panic!(),
    }
}

pub fn kind_pairs(prop: &'static str, thorough: bool) -> Suite<'static> {
    let ks = kinds_of_types();
    let fs = forms(prop);
    let (n, nf) = (ks.len(), fs.len());
    let fixed: Vec<V> = if thorough {
        let mut x: Vec<V> = vec![];
        for v in ks.iter().flat_map(|k| k.1.clone()) {
            if !x.iter().any(|y| same(y, &v)) {
                x.push(v);
            }
        }
        x
    } else {
        vec![i(1), t("a"), i(9), a(vec![i(1)])]
    };
    let b = format!("{n} x {n} kinds of types in {nf} forms, with {}the values that fit them and {} others", if thorough { "all pairs of " } else { "" }, fixed.len());
    suite("pairs of kinds", b, n * n, move |item, w| {
        let (x, y) = (&ks[item % n], &ks[item / n]);
        let mut pool: Vec<V> = vec![];
        for v in x.1.iter().chain(&y.1).chain(&fixed) {
            if !pool.iter().any(|p| same(p, v)) {
                pool.push(v.clone());
            }
        }
        for (text, makes) in &fs {
            let text = format!("{}{EXTRA}", text.replace('#', x.0).replace('$', y.0));
            if crate::refparse::parse(&text).is_err() || w.stopped() {
                continue;
            }
            let mut vs = vec![];
            for mk in makes {
                if [alone as Make, arr1 as Make, named1 as Make, enc_alone as Make].iter().any(|f| std::ptr::fn_addr_eq(*f, *mk)) {
                    vs.extend(pool.iter().map(|p| mk(p.clone(), V::Null)));
                } else {
                    for p in &pool {
                        vs.extend(pool.iter().map(|q| mk(p.clone(), q.clone())));
                    }
                }
            }
            w.sweep(&cddl(&text), "t", &vals(vs));
        }
    })
}

/// Forms that take three kinds, for sequences (true) or maps.
fn forms3(prop: &str) -> Vec<(bool, &'static str)> {
    match prop {
        "C01" => vec![(true, "t = [? #, ? $, %]\n"), (true, "t = [* #, $, ? %]\n"), (true, "t = [(# // $), %]\n")],
        "C02" => vec![(false, "t = {? # => $, * any => %}\n"), (false, "t = {* # => int, * $ => tstr, ? % => any}\n")],
        "C03" => vec![(true, "t = [? (#, $), ? (#, %), * any]\n"), (true, "t = [(#, $ // #, % // ? $), ? #]\n"), (false, "t = {? (# => $, \"no\" => int), ? # => %}\n")],
        "C04" => vec![(true, "t = [1*2 #, *1 $, + %]\n"), (true, "t = [0*2 (#, ? $), *2 %]\n"), (false, "t = {1*2 # / $ => %}\n")],
        "C05" => vec![(false, "t = {? # ^=> $, * any => %}\n"), (false, "t = {* # ^=> int, * $ => %}\n"), (false, "t = {(? # => $ // # => %), * any => int}\n")],
        "C12" => vec![(true, "t = p<#, $, %>\np<A, B, C> = [A, ? C, B]\n"), (true, "t = p<#, $>\np<A, B> = q<B, %, A>\nq<B, C, A> = [? A, B, ? C]\n")],
        "C13" => vec![(true, "t = [n, ? o, q]\nn = #\no = $\nq = %\n"), (false, "t = {* n => o, ? o => q}\nn = #\no = $\nq = %\n")],
        "C14" => vec![(true, "t = [~n, %]\nn = [#, ? $]\n"), (true, "t = [? ~n, * ~o]\nn = [#, $]\no = [# / %]\n"), (false, "t = {~n, ? % => any}\nn = {# => $}\n")],
        "C15" => vec![(true, "t = [* # / $ / %]\n"), (true, "t = [&(p: # / $, q: %), ? (# / %)]\n"), (false, "t = {* (# / $) => $ / %}\n")],
        "C10" => vec![(true, "t = [? bytes .cbor (# / $), * (bytes .cbor %)]\n")],
        _ => panic!(),
    }
}

/// Every three kinds of types.
pub fn kind_triples(prop: &'static str) -> Suite<'static> {
    let ks = kinds_of_types();
    let fs = forms3(prop);
    let (n, nf) = (ks.len(), fs.len());
    let b = format!("all {n} x {n} x {n} kinds of types in {nf} forms, with sequences of up to 3, or maps of up to 2, of the values that fit them and another");
    suite("three kinds", b, n * n, move |item, w| {
        let (x, y) = (&ks[item % n], &ks[item / n]);
        for z in &ks {
            if w.stopped() {
                return;
            }
            let mut pool: Vec<V> = vec![];
            for v in x.1.iter().take(1).chain(y.1.iter().take(1)).chain(z.1.iter().take(1)).chain([&i(9)]) {
                if !pool.iter().any(|p| same(p, v)) {
                    pool.push(v.clone());
                }
            }
            let wrap = |v: &V| if prop == "C10" { enc(v.clone()) } else { v.clone() };
            let mut sq: Vec<V> = vec![a(vec![])];
            let mut mp: Vec<V> = vec![m(vec![])];
            for p in &pool {
                sq.push(a(vec![wrap(p)]));
                for q in &pool {
                    sq.push(a(vec![wrap(p), wrap(q)]));
                    mp.push(entry(p.clone(), q.clone()));
                    for r in &pool {
                        sq.push(a(vec![wrap(p), wrap(q), wrap(r)]));
                    }
                    if !same(p, q) {
                        for (r, s) in pool.iter().flat_map(|r| pool.iter().map(move |s| (r, s))) {
                            mp.push(m(vec![(p.clone(), r.clone()), (q.clone(), s.clone())]));
                        }
                    }
                }
            }
            let (sq, mp) = (vals(sq), vals(mp));
            for (seq, text) in &fs {
                let text = format!("{}{EXTRA}", text.replace('#', x.0).replace('$', y.0).replace('%', z.0));
                if crate::refparse::parse(&text).is_err() {
                    continue;
                }
                w.sweep(&cddl(&text), "t", if *seq { &sq } else { &mp });
            }
        }
    })
}

/// Every kind of type in every place inside every other place.
pub fn places_in_places(thorough: bool) -> Suite<'static> {
    let ks = kinds_of_types();
    let np = PLACES.len();
    let mut pool: Vec<V> = vec![];
    for v in ks.iter().flat_map(|k| k.1.clone()) {
        if !pool.iter().any(|y| same(y, &v)) {
            pool.push(v);
        }
    }
    let b = format!("{} kinds of types x {np} x {np} places, one inside the other, x {} values", ks.len(), pool.len());
    suite("places inside places", b, np * np, move |item, w| {
        let (p, q) = (&PLACES[item % np], &PLACES[item / np]);
        // the inner place: its first rule is `t = ...`
        let (first, rest) = match q.text.split_once('\n') {
            Some((x, y)) => (x, format!("{}\n", y.replace("n<", "nn<").replace("n =", "nn ="))),
            None => (q.text, String::new()),
        };
        let inner = first.strip_prefix("t = ").unwrap().replace("n<", "nn<");
        let inner = if inner == "n" { "nn".to_string() } else { inner };
        let inner = if inner.contains(" / ") { format!("({inner})") } else { inner };
        let vs: Vec<V> = pool.iter().map(|v| (p.value)((q.value)(v.clone()))).chain(pool.iter().map(|v| (p.value)(v.clone()))).collect();
        let vs = vals(vs);
        for (k, x) in ks.iter().enumerate() {
            if !thorough && (k + item) % 2 != 0 || w.stopped() {
                continue;
            }
            let text = format!("{}{}{EXTRA}", place_text(p, &inner.replace('@', x.0)), rest.replace('@', x.0));
            if crate::refparse::parse(&text).is_err() {
                continue;
            }
            w.sweep(&cddl(&text), "t", &vs);
        }
    })
}

//! Prelude types, literals, ranges and control operators (C07 to C11).

use super::common::*;

const PRELUDE: &[&str] = &[
    "any", "nil", "null", "bool", "false", "true", "int", "uint", "nint", "float", "float16", "float32", "float64",
    "float16-32", "float32-64", "tstr", "text", "bstr", "bytes",
    // defined with a tag: what the tag is around
    "tdate", "uri", "b64url", "b64legacy", "regexp", "mime-message", "biguint", "bignint", "encoded-cbor", "eb64url", "eb64legacy", "eb16",
    "cbor-any",
];

fn strings() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "A", "b", "aa", "ab", " ", "a ", " a", "\n", "\0", "é", "e\u{301}", "\u{e9}a", "日本", "\u{1f600}", "1", "1.0", "true", "null", "\"", "\\", "'", "a\"b", "a\\b", "\t", "\u{7f}", "\u{10fffd}", "int", "h'61'"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    for n in [22, 23, 24, 25, 255, 256, 257] {
        v.push("x".repeat(n));
    }
    v
}

// ------------------------------------------------------------------ C07

pub fn c07(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let mut vs: Vec<V> = int_grid().into_iter().map(i).collect();
    vs.extend(float_grid().into_iter().map(f));
    vs.extend(kinds());
    for s in strings() {
        vs.push(t(&s));
        vs.push(b(s.as_bytes()));
    }
    for n in [65535, 65536, 65537] {
        vs.push(t(&"y".repeat(n)));
        vs.push(b(&vec![7; n]));
    }
    vs.push(a(vec![V::Null; 300]));
    let pre: Vec<String> = PRELUDE.iter().map(|s| s.to_string()).collect();
    out.push(placed("predefined types", "every predefined type over the whole range of every kind of value", pre, "", vs.clone(), &all_places()));

    // literals
    let ints = int_grid();
    let lits: Vec<String> = ints.iter().filter(|x| **x >= i64::MIN as i128).map(|x| x.to_string()).collect();
    let mut iv: Vec<V> = ints.iter().map(|x| i(*x)).collect();
    iv.extend([f(0.0), f(1.0), f(-1.0), f(2.0), f(255.0), f(9223372036854775808.0), f(18446744073709551616.0), t("0"), t("1"), b(&[1]), b(b"1"), V::Bool(true), V::Null, a(vec![i(1)])]);
    out.push(placed("integer literals", "literals at every power of two, one off, and small, against all of them", lits.clone(), "", iv.clone(), &[0, 1, 5, 6, 9, 14]));
    let fl: Vec<String> = float_grid().iter().filter(|x| x.is_finite()).map(|x| crate::ast::lit(&Lit::Float(*x))).collect();
    let mut fv: Vec<V> = float_grid().into_iter().map(f).collect();
    // neighbours of every float
    for x in float_grid() {
        if x.is_finite() && x != 0.0 {
            for d in [-1i64, 1] {
                let y = f64::from_bits((x.to_bits() as i64 + d) as u64);
                if y != 0.0 {
                    fv.push(f(y));
                }
            }
            fv.push(f((x as f32) as f64));
        }
    }
    fv.retain(|x| !matches!(x, V::Float(y) if *y == 0.0 && y.is_sign_negative()));
    fv.extend(float_grid().iter().filter(|x| x.is_finite() && x.fract() == 0.0 && x.abs() < 1e18).map(|x| i(*x as i128)));
    fv.extend([t("1.0"), b(&[0]), V::Null]);
    out.push(placed("float literals", "floats of all magnitudes against each other, their neighbours and equal integers", fl, "", fv, &[0, 1, 5, 6, 9, 14]));

    // floats of every magnitude, most of them integral
    let wide = wide_floats();
    let wn = wide.len();
    let wl = wide;
    let types = ["int", "uint", "nint", "float", "any", "tstr", "bool", "[* int]", "1"];
    out.push(suite("floats of every magnitude", format!("{wn} multiples of powers of two and ten, against types and against literals next to them and equal integers"), wn, move |k, w| {
        let x = wl[k];
        let mut vs: Vec<V> = vec![f(x), f(-x), f(x + 0.5), f(f64::from_bits(x.to_bits() + 1)), f(f64::from_bits(x.to_bits() - 1)), f(x as f32 as f64), a(vec![f(x)]), t(&format!("{x}"))];
        if x < 1.8e19 {
            vs.extend([i(x as i128), i(-(x as i128)), i(x as i128 + 1)]);
        }
        vs.retain(|v| !matches!(v, V::Float(y) if *y == 0.0));
        let vs = vals(vs);
        for ty in types {
            w.sweep(&cddl(&format!("t = {ty}\n")), "t", &vs);
            w.sweep(&cddl(&format!("t = {ty} / tstr\n")), "t", &vs);
        }
        for l in [x, -x, x * 2.0] {
            let l = crate::ast::lit(&Lit::Float(l));
            w.sweep(&cddl(&format!("t = {l}\n")), "t", &vs);
            w.sweep(&cddl(&format!("t = int / {l}\n")), "t", &vs);
            w.sweep(&cddl(&format!("t = x / tstr\nx = y\ny = {l}\n")), "t", &vs);
            w.sweep(&cddl(&format!("t = p<{l}>\np<X> = X\n")), "t", &vs);
        }
        if x.fract() == 0.0 && x < 1.8e19 {
            for l in [x as i128, -(x as i128)] {
                if l > i64::MIN as i128 {
                    w.sweep(&cddl(&format!("t = {l}\n")), "t", &vs);
                    w.sweep(&cddl(&format!("t = float / {l}\n")), "t", &vs);
                }
            }
        }
    }));
    // every character somewhere in a literal
    let ch = odd_chars();
    out.push(suite("characters of strings", format!("{} characters at the start, the end or in the middle of a literal; values without it, with another, in another case", ch.len()), ch.len(), move |k, w| {
        let c = ch[k];
        let other = char::from_u32(c as u32 ^ 1).unwrap_or('?');
        let forms = |c: &str| [c.to_string(), format!("{c}x"), format!("x{c}"), format!("x{c}y"), format!("{c}{c}"), format!("{c}x{c}")];
        let mut vs = vec![t("x"), t(""), t("xy"), t(" "), t(" x"), t("x ")];
        let mut all = forms(&c.to_string()).to_vec();
        all.extend(forms(&other.to_string()));
        all.extend(forms(&c.to_uppercase().to_string()));
        all.extend(forms(&c.to_lowercase().to_string()));
        all.sort();
        all.dedup();
        for x in &all {
            vs.push(t(x));
            vs.push(b(x.as_bytes()));
        }
        let mv = vals(vs.iter().map(|v| m(vec![(v.clone(), i(1))])).collect());
        let vs = vals(vs);
        for x in forms(&c.to_string()) {
            for l in [crate::ast::text_lit(&x), crate::ast::lit(&Lit::Bytes(x.as_bytes().to_vec()))] {
                w.sweep(&cddl(&format!("t = {l}\n")), "t", &vs);
                w.sweep(&cddl(&format!("t = p / 1\np = {l}\n")), "t", &vs);
                w.sweep(&cddl(&format!("t = {{{l} => 1}}\n")), "t", &mv);
                w.sweep(&cddl(&format!("t = {{? {l}: 1, * tstr => 1}}\n")), "t", &mv);
            }
        }
        for ty in ["tstr", "bstr", "any"] {
            w.sweep(&cddl(&format!("t = {ty}\n")), "t", &vs);
        }
    }));
    let ss = strings();
    let mut sl: Vec<String> = ss.iter().map(|s| crate::ast::text_lit(s)).collect();
    sl.extend(ss.iter().map(|s| crate::ast::lit(&Lit::Bytes(s.as_bytes().to_vec()))));
    sl.extend([0u8, 1, 0x7f, 0x80, 0xff].iter().map(|x| format!("h'{x:02x}'")));
    let mut sv: Vec<V> = vec![];
    for s in &ss {
        sv.push(t(s));
        sv.push(b(s.as_bytes()));
        // almost the same
        if !s.is_empty() {
            let mut x = s.as_bytes().to_vec();
            *x.last_mut().unwrap() ^= 1;
            sv.push(b(&x));
            x.pop();
            sv.push(b(&x));
        }
        sv.push(t(&format!("{s}x")));
        sv.push(t(&s.to_uppercase()));
    }
    sv.extend([b(&[0xff]), b(&[0x80]), b(&[0]), i(1), i(0x61), V::Null, a(vec![i(0x61)])]);
    out.push(placed("string literals", "text and byte literals against text, bytes and near misses", sl, "", sv, &[0, 1, 5, 6, 9, 14]));

    // strings of every length, differing at one place only
    let max = if thorough { 600 } else { 300 };
    out.push(suite("string lengths", format!("literals of every length up to {max}, values differing at one place or in length"), max + 1, move |n, w| {
        let s: String = (0..n).map(|k| (b'a' + (k % 26) as u8) as char).collect();
        let mut tv = vec![t(&s), b(s.as_bytes()), t(&format!("{s}a")), b(format!("{s}\0").as_bytes()), t(&"a".repeat(n))];
        for p in (0..n).step_by((n / 16).max(1)).chain(n.checked_sub(1)) {
            let mut x = s.clone().into_bytes();
            x[p] = b'#';
            tv.push(b(&x));
            tv.push(t(std::str::from_utf8(&x).unwrap()));
            let mut x = s.clone();
            x.remove(p);
            tv.push(t(&x));
            tv.push(b(x.as_bytes()));
        }
        for l in [crate::ast::text_lit(&s), crate::ast::lit(&Lit::Bytes(s.as_bytes().to_vec()))] {
            for p in [0, 1, 5, 6] {
                let pv: Vec<V> = tv.iter().map(|v| (PLACES[p].value)(v.clone())).collect();
                w.sweep(&cddl(&place_text(&PLACES[p], &l)), "t", &vals(pv));
            }
            if n > 0 {
                // as a bare or literal key
                let pv: Vec<V> = tv.iter().map(|v| m(vec![(v.clone(), i(1))])).collect();
                let pv = vals(pv);
                w.sweep(&cddl(&format!("t = {{{l}: int}}\n")), "t", &pv);
                if l.starts_with('"') {
                    w.sweep(&cddl(&format!("t = {{{s}: int}}\n")), "t", &pv);
                }
            }
        }
    }));
    // two literals or types side by side: none is taken for another
    let side: Vec<String> = ["0", "1", "-1", "1.0", "0.0", "\"1\"", "'1'", "h'01'", "\"\"", "''", "null", "true", "false", "bool", "int", "uint", "nint", "float", "tstr", "bstr", "any"].iter().map(|s| s.to_string()).collect();
    let mut pairs = vec![];
    for x in &side {
        for y in &side {
            pairs.push(format!("({x} / {y})"));
            pairs.push(format!("[{x}, {y}]"));
            pairs.push(format!("{{? {x} => {y}, * any => [any]}}"));
        }
    }
    let mut pv = kinds();
    for x in kinds() {
        for y in kinds() {
            pv.push(a(vec![x.clone(), y.clone()]));
            pv.push(m(vec![(x.clone(), y.clone())]));
        }
    }
    out.push(placed("pairs of scalars", "choices, arrays and map members of two scalar types", pairs, "", pv, &[0]));
    out.extend(crate::corpus::suites(&["scalar"], thorough));
    out
}

// ------------------------------------------------------------------ C08

pub fn c08(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let g = if thorough { 6 } else { 4 };
    let mut types = vec![];
    for x in -g..=g {
        for y in -g..=g {
            types.push(format!("{x}..{y}"));
            types.push(format!("{x}...{y}"));
        }
    }
    let mut vs: Vec<V> = (-g as i128 - 2..=g as i128 + 2).map(i).collect();
    vs.extend(kinds());
    vs.extend([f(0.5), f(2.0), f(-0.5)]);
    out.push(placed("integer ranges", "all pairs of small bounds", types, "", vs.clone(), &all_places()));
    // boundaries
    let e: Vec<i128> = {
        let mut e = vec![];
        for k in [0, 7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64] {
            for d in [-1, 0, 1] {
                e.push((1i128 << k) + d);
                e.push(-(1i128 << k) + d);
            }
        }
        e.push(0);
        e.sort();
        e.dedup();
        e
    };
    let lit: Vec<i128> = e.iter().copied().filter(|x| *x >= i64::MIN as i128 && *x <= u64::MAX as i128).collect();
    let mut types = vec![];
    for x in &lit {
        for y in &lit {
            if thorough || x <= y || (x - y) % 3 == 0 {
                types.push(format!("{x}..{y}"));
                types.push(format!("{x}...{y}"));
            }
        }
    }
    let mut ev: Vec<V> = e.iter().filter(|x| **x >= -(1i128 << 64) && **x < 1i128 << 64).map(|x| i(*x)).collect();
    ev.extend([f(0.0), f(1e18), f(1.8446744073709552e19), t("1"), V::Null]);
    out.push(placed("integer ranges at the limits", "bounds and values around powers of two up to the limits", types, "", ev.clone(), &[0]));
    // floats
    let fl = [-1e300, -2.5, -1.0, -0.5, 0.0, 5e-324, 0.1, 0.3, 1.0, 1.5, 2.0, 1e17, f64::MAX];
    let mut types = vec![];
    for x in fl {
        for y in fl {
            let (x, y) = (crate::ast::lit(&Lit::Float(x)), crate::ast::lit(&Lit::Float(y)));
            types.push(format!("{x}..{y}"));
            types.push(format!("{x}...{y}"));
        }
    }
    let mut fv: Vec<V> = vec![];
    for x in fl {
        fv.push(f(x));
        if x != 0.0 {
            for d in [-1i64, 1] {
                let y = f64::from_bits((x.to_bits() as i64 + d) as u64);
                fv.push(f(if y == 0.0 { 0.0 } else { y }));
            }
        }
    }
    fv.extend([f(f64::INFINITY), f(f64::NEG_INFINITY), f(f64::NAN), f(-5e-324), i(0), i(1), i(2), i(-1), t("1.0"), V::Null]);
    out.push(placed("float ranges", "all pairs of 13 bounds", types, "", fv.clone(), &[0, 1, 5, 6, 8]));
    // the same bounds behind names and parameters
    let mut ends: Vec<String> = fl.iter().map(|x| crate::ast::lit(&Lit::Float(*x))).collect();
    ends.extend(["0.30000000000000004", "16777217.0", "1e-7", "123456.789", "3.4028235e38", "-0.1"].map(|x| crate::ast::lit(&Lit::Float(x.parse().unwrap()))));
    let nf = ends.len();
    let ie: Vec<i128> = lit.iter().copied().filter(|x| x.abs() > 100 || *x == 0).step_by(if thorough { 1 } else { 2 }).collect();
    ends.extend(ie.iter().map(|x| x.to_string()));
    let mut fv2 = fv.clone();
    for x in [0.30000000000000004f64, 16777217.0, 1e-7, 123456.789, 3.4028235e38, -0.1, 0.1, 0.3, 1e17] {
        fv2.extend([f(x), f(f64::from_bits(x.to_bits() + 1)), f(f64::from_bits(x.to_bits() - 1)), f(x as f32 as f64), f(x + 1e-10)]);
    }
    fv2.retain(|x| !matches!(x, V::Float(y) if *y == 0.0 && y.is_sign_negative()));
    let (fv2, ev2) = (vals(fv2), vals(ev.clone()));
    let ne = ends.len();
    out.push(suite("bounds behind names and parameters", format!("all pairs of {nf} floats and all of {} integers, named, through aliases, as arguments, as limits of comparisons", ne - nf), ne * ne, move |k, w| {
        let (x, y) = (k % ne, k / ne);
        if (x < nf) != (y < nf) {
            return;
        }
        let v = if x < nf { &fv2 } else { &ev2 };
        let (a, b) = (&ends[x], &ends[y]);
        let mut texts = vec![];
        for d in ["..", "..."] {
            texts.push(format!("t = lo {d} hi\nlo = {a}\nhi = {b}\n"));
            texts.push(format!("t = lo {d} {b}\nlo = l2\nl2 = {a}\n"));
            texts.push(format!("t = {a} {d} hi\nhi = h2\nh2 = h3\nh3 = {b}\n"));
            texts.push(format!("t = p<{a}, hi>\nhi = {b}\np<X, Y> = X {d} Y\n"));
        }
        if x == y && x >= nf {
            for op in ["lt", "le", "gt", "ge"] {
                texts.push(format!("t = int .{op} n\nn = {a}\n"));
                texts.push(format!("t = p<{a}>\np<X> = int .{op} X\n"));
            }
        }
        for s in texts {
            w.sweep(&cddl(&s), "t", v);
        }
    }));
    // mixed kinds, names, chains of names, parameters
    let ends = ["1", "3", "-2", "1.5", "\"a\"", "'a'", "true", "one", "two", "mtwo", "fone", "txt", "byt", "al", "al3", "tr", "par", "ch", "ar", "rng", "gr", "grp", "missing", "gen<1>", "gen<two>", "gen", "kk", "null", "int", "(1)", "(one)", "op"];
    let extra = "one = 1\ntwo = 3\nmtwo = -2\nfone = 2.5\ntxt = \"a\"\nbyt = 'b'\nal = one\nal3 = al2\nal2 = al1\nal1 = two\ntr = true\npar = (1)\nch = 1 / 3\nar = [1]\nrng = 1..3\ngr = (1, 2)\ngrp = (one)\ngen<A> = A\nkk = (k: 1)\nop = uint .lt 3\n";
    let mut types = vec![];
    for x in ends {
        for y in ends {
            for d in ["..", "..."] {
                types.push(format!("{x} {d} {y}"));
            }
        }
    }
    let mut nv: Vec<V> = (-4..=5).map(i).collect();
    nv.extend([f(1.0), f(1.5), f(2.0), f(2.5), f(3.0), t("a"), b(b"a"), t("b"), V::Bool(true), V::Null, a(vec![i(1)])]);
    out.push(placed("named and mixed bounds", "every pair of 32 kinds of bounds", types, extra, nv.clone(), &[0, 1, 5, 9]));

    // comparison controls
    let mut types = vec![];
    for tgt in ["int", "uint", "nint"] {
        for op in ["lt", "le", "gt", "ge"] {
            for n in -g..=g {
                types.push(format!("{tgt} .{op} {n}"));
            }
        }
    }
    out.push(placed("comparisons", "small limits", types, "", vs.clone(), &all_places()));
    let mut types = vec![];
    for tgt in ["int", "uint", "nint"] {
        for op in ["lt", "le", "gt", "ge"] {
            for n in &lit {
                types.push(format!("{tgt} .{op} {n}"));
            }
        }
    }
    out.push(placed("comparisons at the limits", "limits and values around powers of two", types, "", ev, &[0, 6]));
    let tgts = ["int", "uint", "nint", "(int)", "ui", "ai", "ni2", "gen<int>", "gen<ui>", "float", "tstr", "any", "bool", "null", "1", "[int]", "ch", "missing", "rng", "grp", "bstr", "gen", "op"];
    let args = ["1", "-2", "0", "one", "al3", "mtwo", "par", "1.5", "fone", "\"a\"", "txt", "missing", "ch", "gen<1>", "gen<two>", "int", "ar", "(1)", "rng", "tr", "gen", "(1..3)", "(one)", "gr", "[1]", "{}"];
    let extra2 = format!("{extra}ui = uint\nai = int\nni2 = ni\nni = nint\n");
    let mut types = vec![];
    for x in tgts {
        for y in args {
            for op in ["lt", "le", "gt", "ge"] {
                types.push(format!("{x} .{op} {y}"));
            }
        }
    }
    out.push(placed("targets and limits of all kinds", "23 targets x 26 limits", types, &extra2, nv, &[0, 1, 6, 9]));
    // ranges within parameters and other rules
    let texts: Vec<String> = [
        "t = r<1, 3>\nr<A, B> = A .. B\n", "t = r<3>\nr<A> = 1 .. A\n", "t = r<one>\nr<A> = A ... 4\none = 1\n", "t = r<lo>\nr<lo> = lo .. hi\nlo = 2\nhi = 3\n",
        "t = c<uint, 3>\nc<A, B> = A .lt B\n", "t = c<3>\nc<uint2> = uint .ge uint2\nuint2 = 1\n", "t = [* 1..3]\n", "t = {* 1..3 => int}\n", "t = {1..3 => 1...3, * 2..9 => any}\n",
        "t = 1..2 / 4..5\n", "t = 1..2 / uint .gt 3\n", "t = a / b\na = int .lt 0\nb = 3...5\n", "t = [1..2, ? 2..3, * 3..4]\n", "t = &(x: 1..2, y: 4..5)\n",
        "t = r<r2<1>, 3>\nr<A, B> = A .. B\nr2<A> = A\n", "t = {? 1..3 ^=> 5, * int => any}\n", "t = [2*3 1..2, 1...3]\n", "t = {(uint .le 2) => int, * (uint .gt 1) => tstr}\n",
    ].iter().map(|s| s.to_string()).collect();
    let mut v2: Vec<V> = (-2..=6).map(i).collect();
    v2.extend(seqs(&[i(1), i(2), i(3), i(4)], 4).into_iter().map(V::Arr));
    v2.extend(maps(&[i(1), i(2), i(3)], &[i(1), i(3), i(5), t("x")]));
    out.push(texts_suite("ranges in context", "ranges in arrays, maps, choices and generics", texts, vals(v2)));
    out.extend(crate::corpus::suites(&["range"], thorough));
    out
}

// ------------------------------------------------------------------ C09

pub fn c09(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let max = if thorough { 600 } else { 300 };
    out.push(suite("string sizes", format!("every size up to {max} against strings of every nearby length, and some multi-byte ones"), max + 1, move |n, w| {
        let mut vs = vec![];
        for l in [0, n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2, 2 * n, n / 2, n + 256, if n % 16 == 0 { n + 65536 } else { 3 * n }] {
            vs.push(t(&"x".repeat(l)));
            vs.push(b(&vec![0x80; l]));
            vs.push(t(&"é".repeat(l)));
            vs.push(t(&"日".repeat(l)));
            vs.push(t(&"\u{1f600}".repeat(l)));
            if l > 1 {
                vs.push(t(&("é".to_string() + &"x".repeat(l - 2))));
            }
        }
        vs.extend([i(n as i128), i(0), V::Null, f(1.0), a(vec![i(0); n])]);
        for p in [0, 1, 6] {
            let pv = vals(vs.iter().map(|v| (PLACES[p].value)(v.clone())).collect());
            for x in ["tstr", "bstr", "text", "bytes", "al"] {
                for s in [format!("{n}"), "s".to_string()] {
                    w.sweep(&cddl(&format!("{}s = {n}\nal = tstr\n", place_text(&PLACES[p], &format!("{x} .size {s}")))), "t", &pv);
                }
                for r in [format!("({n}..{n})"), format!("({n}..{})", n + 1), format!("({n}...{})", n + 2), format!("(0..{n})"), format!("(0...{n})"), format!("({}..{n})", n + 1), "r".to_string(), "r2".into()] {
                    w.sweep(&cddl(&format!("{}r = {}..{n}\nr2 = r3\nr3 = {n}...{}\nal = bytes\n", place_text(&PLACES[p], &format!("{x} .size {r}")), n.saturating_sub(1), n + 1)), "t", &pv);
                }
            }
        }
    }));
    // whatever the strings are made of
    let ch = odd_chars();
    let nc = ch.len();
    out.push(suite("contents of strings", format!("{nc} characters and 256 bytes, at the start, the end, in the middle and everywhere, against sizes 0 to 9"), nc.max(256), move |k, w| {
        let mut vs = vec![];
        if k < nc {
            let c = ch[k].to_string();
            for n in 0..=3 {
                let x = "x".repeat(n);
                for v in [format!("{c}{x}"), format!("{x}{c}"), format!("{x}{c}{x}"), format!("{c}{x}{c}"), c.repeat(n)] {
                    vs.push(t(&v));
                    vs.push(b(v.as_bytes()));
                }
            }
        }
        if k < 256 {
            for n in 0..=3 {
                let x = vec![b'x'; n];
                vs.push(b(&[&[k as u8], &x[..]].concat()));
                vs.push(b(&[&x[..], &[k as u8]].concat()));
                vs.push(b(&[&x[..], &[k as u8], &x[..]].concat()));
                vs.push(b(&vec![k as u8; n]));
            }
        }
        let vs = vals(vs);
        for n in 0..=9 {
            for ty in ["tstr", "bstr"] {
                w.sweep(&cddl(&format!("t = {ty} .size {n}\n")), "t", &vs);
                w.sweep(&cddl(&format!("t = {ty} .size (0..{n})\n")), "t", &vs);
                w.sweep(&cddl(&format!("t = {ty} .size ({n}...12)\n")), "t", &vs);
            }
        }
    }));
    // unsigned integers
    let uv: Vec<V> = {
        let mut u: Vec<V> = int_grid().into_iter().map(i).collect();
        u.extend([t("a"), b(b"a"), f(1.0), V::Null, a(vec![])]);
        for k in 1..=8u32 {
            for d in -2i128..=2 {
                let x = if k == 8 { 1i128 << 64 } else { 1i128 << (8 * k) } + d;
                if x < 1i128 << 64 {
                    u.push(i(x));
                }
            }
        }
        u
    };
    let mut types = vec![];
    for n in 0..=20 {
        types.push(format!("uint .size {n}"));
        types.push(format!("(uint) .size {n}"));
        types.push(format!("ui .size {n}"));
    }
    for n in [32, 64, 127, 128, 255, 256, 65536, 4294967295u64, 4294967296, 18446744073709551615] {
        types.push(format!("uint .size {n}"));
    }
    for x in 0..=9 {
        for y in 0..=10 {
            types.push(format!("uint .size ({x}..{y})"));
            types.push(format!("uint .size ({x}...{y})"));
        }
    }
    out.push(placed("integer sizes", "uint sizes 0 to 20 and ranges of sizes 0 to 10", types, "ui = uint\n", uv, &[0, 1, 6, 9]));
    // large sizes for strings
    let mut types = vec![];
    for n in [65535u64, 65536, 65537, 4294967296, 18446744073709551615] {
        for x in ["tstr", "bstr"] {
            types.push(format!("{x} .size {n}"));
            types.push(format!("{x} .size ({n}..{n})"));
            types.push(format!("{x} .size (0..{n})"));
            types.push(format!("{x} .size (0...{n})"));
        }
    }
    let mut lv = vec![];
    for n in [0, 1, 65534, 65535, 65536, 65537] {
        lv.push(t(&"x".repeat(n)));
        lv.push(b(&vec![1; n]));
        lv.push(t(&"é".repeat(n / 2)));
    }
    out.push(placed("large sizes", "sizes around 2^16 and beyond", types, "", lv, &[0]));
    // operands of all kinds
    let tgts = ["tstr", "bstr", "uint", "text", "bytes", "(tstr)", "al", "al2", "gen<tstr>", "gen<bstr>", "gen<ui>", "int", "nint", "float", "any", "bool", "null", "[int]", "{}", "1", "\"a\"", "ch", "missing", "rng", "gr", "gen", "kk"];
    let args = ["2", "0", "(1..2)", "(1...3)", "(2..1)", "-1", "-0", "1.5", "\"a\"", "'a'", "two", "al3", "gen<2>", "gen<two>", "rng", "rng2", "gen<rng>", "neg", "flt", "txt", "ch", "missing", "ar", "int", "(2)", "(two)", "gr", "gen", "negr", "(1.0..2.0)", "(-1..2)", "tr", "[2]", "(1 / 2)", "mix", "kk", "op"];
    let extra = "al = tstr\nal2 = al0\nal0 = bytes\nui = uint\ntwo = 2\nal3 = al4\nal4 = two\ngen<A> = A\nrng = 1..2\nrng2 = rng3\nrng3 = 0...3\nneg = -1\nflt = 2.0\ntxt = \"a\"\nch = 1 / 2\nar = [2]\ngr = (1, 2)\nnegr = -1..3\ntr = true\nmix = 1..2.0\nkk = (k: 2)\nop = uint .lt 2\n";
    let mut types = vec![];
    for x in tgts {
        for y in args {
            types.push(format!("{x} .size {y}"));
        }
    }
    let mut ov = kinds();
    ov.extend([t("ab"), t("abc"), t("é"), b(b"ab"), b(b"abc"), i(255), i(256), i(65535), i(65536), i(1 << 24)]);
    out.push(placed("targets and sizes of all kinds", "27 targets x 37 sizes", types, extra, ov.clone(), &[0, 1, 6, 9]));
    let texts: Vec<String> = [
        "t = s<tstr, 2>\ns<T, N> = T .size N\n", "t = s<1>\ns<two> = bstr .size two\ntwo = 2\n", "t = [* uint .size 1]\n", "t = {* tstr .size 1 => bstr .size 2}\n", "t = tstr .size 1 / bstr .size 2 / uint .size 1\n",
        "t = {? tstr .size 1 ^=> int, * tstr => tstr}\n", "t = [tstr .size (0..1), ? tstr .size 2]\n", "t = s<(1..2)>\ns<N> = tstr .size N\n", "t = s<r>\ns<N> = bytes .size N\nr = 1..2\n",
        "t = {(bstr .size 1) => uint .size 1, * any => tstr}\n", "t = &(x: tstr .size 1, y: uint .size 1)\n",
    ].iter().map(|s| s.to_string()).collect();
    let mut v2 = ov;
    v2.extend(seqs(&[i(255), i(256), t("a"), t("ab"), b(b"ab")], 2).into_iter().map(V::Arr));
    v2.extend(maps(&[t("a"), t("ab"), b(b"a")], &[i(1), b(b"ab"), t("z"), i(256)]));
    out.push(texts_suite("sizes in context", "sizes in arrays, maps, choices and generics", texts, vals(v2)));
    out.extend(crate::corpus::suites(&["size"], thorough));
    out
}

// ------------------------------------------------------------------ C10

const CBOR_EXTRA: &str = "al = al2\nal2 = int\nch = int / tstr\ngen<A> = A\nwrap<A> = bytes .cbor A\narr = [* int]\nmp = {? a: int}\ncb = bstr .cbor uint\nby = bytes\n";
const CBOR_ARGS: &[&str] = &[
    "any", "int", "uint", "nint", "tstr", "bstr", "bool", "null", "float", "1", "\"a\"", "h'01'", "1.5", "[]", "[* any]", "[int]", "[int, ? tstr]", "{}", "{* any => any}", "{a: int}", "{? a: int}", "(int / tstr)",
    "al", "ch", "gen<int>", "gen<[al]>", "arr", "mp", "cb", "(bytes .cbor any)", "wrap<int>", "wrap<wrap<any>>", "(0..23)", "(uint .size 1)", "(tstr .size 1)", "(tstr .regexp \"a\")",
];

pub fn c10(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    // all byte strings of up to two (three) bytes
    let deep = thorough;
    out.push(suite("all short byte strings", format!("every byte string of up to {} bytes as the content, against 36 types", if deep { 3 } else { 2 }), 256, move |x, w| {
        let mut vs = vec![];
        if x == 0 {
            vs.push(b(&[]));
        }
        vs.push(b(&[x as u8]));
        for y in 0..=255u8 {
            vs.push(b(&[x as u8, y]));
        }
        let vs = vals(vs);
        for arg in CBOR_ARGS {
            w.sweep(&cddl(&format!("t = bytes .cbor {arg}\n{CBOR_EXTRA}")), "t", &vs);
        }
        w.sweep(&cddl(&format!("t = [by .cbor any] / bytes .cbor int / tstr\n{CBOR_EXTRA}")), "t", &vs);
        if deep {
            for y in 0..=255u8 {
                let vs = vals((0..=255u8).map(|z| b(&[x as u8, y, z])).collect());
                for arg in ["any", "int", "[* any]", "{* any => any}", "tstr", "bstr", "(bytes .cbor any)"] {
                    w.sweep(&cddl(&format!("t = bytes .cbor {arg}\n{CBOR_EXTRA}")), "t", &vs);
                }
            }
        }
    }));
    // encodings of structured values and their damages
    let items: Vec<V> = vec![
        i(0), i(23), i(24), i(255), i(256), i(65536), i(u32::MAX as i128 + 1), i(u64::MAX as i128), i(-1), i(-25), i(-(1i128 << 64)), f(1.5), f(0.0), f(1e300), f(f64::NAN), V::Null, V::Bool(true), V::Bool(false),
        t(""), t("a"), t("é"), t(&"x".repeat(24)), b(b""), b(&[1]), b(&[0xff; 24]), a(vec![]), a(vec![i(1)]), a(vec![i(1), t("a")]), a(vec![a(vec![]), m(vec![])]), m(vec![]), m(vec![(t("a"), i(1))]),
        m(vec![(i(1), a(vec![i(2)])), (t("b"), V::Null)]), b(&[0x01]), b(&[0x41, 0x01]), b(&[0x61, 0x61]), a((0..30).map(i).collect()),
    ];
    let encs: Vec<Enc> = vec![
        PLAIN,
        Enc { int_w: 1, ..PLAIN }, Enc { int_w: 8, ..PLAIN }, Enc { len_w: 1, ..PLAIN }, Enc { len_w: 8, ..PLAIN }, Enc { indef_arr: true, ..PLAIN }, Enc { indef_map: true, ..PLAIN },
        Enc { chunk: 1, ..PLAIN }, Enc { chunk: 7, len_w: 2, ..PLAIN }, Enc { float_w: 0, ..PLAIN }, Enc { float_w: 4, rev: true, ..PLAIN },
    ];
    let n = items.len();
    out.push(suite("damaged encodings", "36 items in 11 encodings; every truncation, every added byte, every byte replaced or removed, every pair of items", n, move |k, w| {
        let mut bs: Vec<Vec<u8>> = vec![];
        for e in &encs {
            let x = encode(&items[k], e);
            for cut in 0..x.len() {
                bs.push(x[..cut].to_vec());
                let mut y = x.clone();
                y.remove(cut);
                bs.push(y);
            }
            for last in [0x00, 0x18, 0x40, 0x5f, 0x60, 0x80, 0x9f, 0xa0, 0xc0, 0xf6, 0xf8, 0xff] {
                let mut y = x.clone();
                y.push(last);
                bs.push(y);
                let mut y = x.clone();
                y.insert(0, last);
                bs.push(y);
            }
            let step = if deep { 1 } else { 1 + x.len() / 12 };
            for p in (0..x.len()).step_by(step) {
                for r in [0x00, 0x01, 0x17, 0x18, 0x1b, 0x1c, 0x1f, 0x20, 0x3f, 0x5f, 0x7f, 0x80, 0x9f, 0xbf, 0xc1, 0xf8, 0xfc, 0xff] {
                    let mut y = x.clone();
                    y[p] = r;
                    bs.push(y);
                }
            }
            bs.push(x);
        }
        for other in &items {
            let mut x = encode(&items[k], &PLAIN);
            x.extend(encode(other, &PLAIN));
            bs.push(x);
        }
        bs.sort();
        bs.dedup();
        let vs = vals(bs.iter().map(|x| b(x)).collect());
        for arg in CBOR_ARGS {
            w.sweep(&cddl(&format!("t = bytes .cbor {arg}\n{CBOR_EXTRA}")), "t", &vs);
        }
        // wrapped once more
        let vs = vals(bs.iter().map(|x| b(&encode(&b(x), &PLAIN))).collect());
        for arg in ["(bytes .cbor any)", "wrap<any>", "(bstr .cbor (int / [* any]))", "bytes"] {
            w.sweep(&cddl(&format!("t = bytes .cbor {arg}\n{CBOR_EXTRA}")), "t", &vs);
        }
    }));
    // contents that the data model does not have
    let odd = super::data::odd_items();
    let n = odd.len();
    out.push(suite("contents outside the data model", format!("{n} tagged, undefined and unassigned simple items, alone and at each place of a container, as the content, with types that would take anything or null there"), n, move |k, w| {
        let x = &odd[k];
        let mut vs = vec![];
        for (p, q) in super::data::AROUND {
            let y = [p, &x[..], q].concat();
            vs.push(b(&y[..y.len() - 1]));
            vs.push(b(&[&y[..], &[0xf6]].concat()));
            vs.push(b(&encode(&b(&y), &PLAIN)));
            vs.push(b(&y));
        }
        let vs = vals(vs);
        for arg in CBOR_ARGS.iter().chain(&["undefined", "tdate", "bignint"]) {
            w.sweep(&cddl(&format!("t = bytes .cbor {arg}\n{CBOR_EXTRA}")), "t", &vs);
        }
        for top in ["bytes .cbor int / bytes .cbor any / null", "[* bytes] / bytes .cbor (bytes .cbor any / null)", "tstr / bytes .cbor (null / [* any] / {* any => any})"] {
            w.sweep(&cddl(&format!("t = {top}\n{CBOR_EXTRA}")), "t", &vs);
        }
    }));
    // deep and large contents
    out.push(suite("deep and large contents", "arrays, maps and both nested 0 to 100 deep, and contents of up to 70000 elements or bytes", 101, |n, w| {
        let mut vs = vec![];
        for leaf in [vec![], vec![i(1)], vec![t("a"), i(2)]] {
            let (mut x, mut y, mut z) = (a(leaf.clone()), a(leaf.clone()), a(leaf.clone()));
            for k in 1..n.max(1) {
                x = a(vec![x]);
                y = m(vec![(t("k"), y)]);
                z = if k % 2 == 0 { a(vec![i(1), z]) } else { m(vec![(i(1), t("v")), (t("k"), z)]) };
            }
            vs.extend([x, y, z]);
        }
        let big = [255usize, 256, 4095, 4096, 4097, 16384, 16385, 65535, 65536, 70000];
        if n < big.len() {
            let s = big[n];
            vs.extend([a(vec![i(1); s.min(5000)]), t(&"x".repeat(s)), t(&"\u{e9}".repeat(s / 2)), b(&vec![0; s]), m((0..s.min(300) as i128).map(|k| (i(k), i(1))).collect())]);
        }
        let mut bs: Vec<V> = vs.iter().flat_map(|x| [b(&encode(x, &PLAIN)), b(&encode(x, &Enc { indef_arr: true, indef_map: true, len_w: 4, ..PLAIN })), b(&[encode(x, &PLAIN), vec![0]].concat())]).collect();
        bs.extend(vs.iter().map(|x| { let e = encode(x, &PLAIN); b(&e[..e.len() - 1]) }));
        let bv = vals(bs);
        for ty in ["any", "[* any]", "r", "q", "{* any => any}", "tstr", "bstr", "[* int]"] {
            w.sweep(&cddl(&format!("t = bytes .cbor {ty}\nr = [* r] / int / tstr\nq = int / tstr / [* q] / {{* any => q}}\n")), "t", &bv);
        }
        w.sweep(&cddl("t = [* uint] / bytes .cbor int / bytes .cbor [* any] / bytes\n"), "t", &bv);
    }));
    // in every place, with alternatives tried afterwards
    let mut inner: Vec<V> = vec![];
    for x in [i(1), t("a"), a(vec![i(1)]), m(vec![(t("a"), i(1))]), V::Null, b(&[1])] {
        let e = encode(&x, &PLAIN);
        inner.push(b(&e));
        let mut y = e.clone();
        y.push(0);
        inner.push(b(&y));
        inner.push(b(&e[..e.len() - 1]));
        inner.push(x);
    }
    inner.extend(kinds());
    let types: Vec<String> = CBOR_ARGS.iter().flat_map(|x| [format!("bytes .cbor {x}"), format!("bstr .cbor {x}"), format!("(bytes .cbor {x} / tstr)"), format!("({x} / bytes .cbor {x} / bytes)")]).collect();
    out.push(placed("in every place", ".cbor in every place, alone and in choices", types, CBOR_EXTRA, inner, &all_places()));
    // depth
    out.push(suite("levels of .cbor", "0 to 30 levels, right or wrong at every level", 31, |n, w| {
        let rep = |x: &str| format!("t = {}{x}{}\n", "(bytes .cbor ".repeat(n), ")".repeat(n));
        let mut vs = vec![];
        for leaf in [i(1), t("a"), b(&[1]), a(vec![i(1)])] {
            for d in n.saturating_sub(1)..=n + 1 {
                let mut x = leaf.clone();
                for _ in 0..d {
                    x = b(&encode(&x, &PLAIN));
                }
                vs.push(x);
            }
            for bad in 0..n {
                let mut x = leaf.clone();
                for l in 0..n {
                    let mut e = encode(&x, &PLAIN);
                    if l == bad {
                        e.push(0xf6);
                    }
                    x = b(&e);
                }
                vs.push(x);
            }
        }
        let vs = vals(vs);
        for x in ["int", "any", "[* int]", "(int / tstr)"] {
            w.sweep(&cddl(&rep(x)), "t", &vs);
        }
        if n > 0 {
            w.sweep(&cddl(&format!("t = n0\n{}n{n} = int\n", (0..n).map(|k| format!("n{k} = bytes .cbor n{}\n", k + 1)).collect::<String>())), "t", &vs);
        }
        w.sweep(&cddl("t = bytes .cbor t / int\n"), "t", &vs);
        w.sweep(&cddl("t = bytes .cbor [* t] / int / [* t]\n"), "t", &vs);
    }));
    // errors
    let tg = ["bytes", "bstr", "tstr", "int", "any", "by", "gen<bytes>", "[int]", "1", "(bytes)"];
    let ar = ["int", "missing", "gen", "gen<1, 2>", "[missing]", "(int / missing)", "1..\"a\"", "(tstr .size -1)", "loop", "(tstr / int .lt 1.5)"];
    let mut texts = vec![];
    for x in tg {
        for y in ar {
            texts.push(format!("t = {x} .cbor {}\n{CBOR_EXTRA}loop = loop\n", if y.contains("..") { format!("({y})") } else { y.to_string() }));
            texts.push(format!("t = {x} .cbor {} / any\n{CBOR_EXTRA}loop = loop\n", if y.contains("..") { format!("({y})") } else { y.to_string() }));
        }
    }
    let ev: Vec<V> = vec![b(&[1]), b(&[0x61, 0x61]), b(&[0x81, 1]), b(&[]), b(&[0xff]), i(1), t("a"), V::Null];
    out.push(texts_suite("targets and errors", "targets and types that are wrong, with and without an alternative", texts, vals(ev)));
    out.extend(crate::corpus::suites(&["cbor"], thorough));
    out
}

// ------------------------------------------------------------------ C11

pub fn c11(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    // all patterns over a small alphabet
    let alpha: Vec<char> = "ab.*+?|()[]^$-\\".chars().collect();
    let len = if thorough { 5 } else { 4 };
    let texts: Vec<Val> = {
        let mut v: Vec<V> = seqs(&["a", "b", "-"], 3).iter().map(|x| t(&x.concat())).collect();
        v.extend([t("\n"), t("a\n"), t("\na"), t("a\0"), t("\0a"), t("a\0b"), t("a "), t(" a"), t("a\t"), t("a\r"), t("a\r\n"), t("A"), t("a\u{301}"), t("\u{feff}a"), t("a\u{2028}"), t("a\u{7f}"), t("."), t("*"), t("\\"), t("ab.c"), t("$"), t("^a"), t("(a)"), t("[a]"), t("é"), t("aé"), t("\u{1f600}"), b(b"a"), b(b""), i(1), V::Null, a(vec![t("a")])]);
        vals(v)
    };
    let texts = std::sync::Arc::new(texts);
    let n = alpha.len() * alpha.len();
    let tx = texts.clone();
    let al = alpha.clone();
    out.push(suite("all short patterns", format!("all patterns of up to {len} of 15 characters x {} values", texts.len()), n, move |k, w| {
        let (c, d) = (al[k / al.len()], al[k % al.len()]);
        let mut pats: Vec<String> = seqs(&al, len - 2).into_iter().map(|x| [c, d].iter().chain(x.iter()).collect()).collect();
        if k == 0 {
            pats.push(String::new());
        }
        if k < al.len() {
            pats.push(al[k].to_string());
        }
        for p in pats {
            if w.stopped() {
                return;
            }
            let s = Schema(vec![rule1("t", T1::Ctl(T2::Name(Name { name: "tstr".into(), args: vec![] }), "regexp".into(), T2::Lit(Lit::Text(p))))]);
            w.sweep(&s, "t", &tx);
        }
    }));
    // longer ones built from parts
    let parts = ["a", "b", ".", "[ab]", "[^a]", "[a-c]", "\\d", "\\.", "(a|b)", "(ab)", "a*", "b+", "[0-9]?", "a{2}", "b{1,2}", "^", "$", "|", "é", ".*", "(a|)", "(?:ab)", "[a-z]{2,}", "\\w", "\\s"];
    let list = std::sync::Arc::new(parts);
    let mut tv: Vec<V> = seqs(&["a", "b", "c", "1", "."], 3).iter().map(|x| t(&x.concat())).collect();
    tv.extend([t("ab\0"), t("\0ab"), t("ab "), t("AB"), t("ab\r\n"), t("aab"), t("abab"), t("é"), t("éa"), t("ab\n"), t("\nab"), t("a b"), t(" "), b(b"ab"), i(1)]);
    let tv = std::sync::Arc::new(vals(tv));
    let pl = list.clone();
    out.push(suite("composed patterns", "all sequences of up to three of 25 parts", list.len() * list.len(), move |k, w| {
        let (x, y) = (pl[k / pl.len()], pl[k % pl.len()]);
        let mut pats = vec![format!("{x}{y}")];
        for z in pl.iter() {
            pats.push(format!("{x}{y}{z}"));
        }
        for p in pats {
            let s = Schema(vec![rule1("t", T1::Ctl(T2::Name(Name { name: "tstr".into(), args: vec![] }), "regexp".into(), T2::Lit(Lit::Text(p))))]);
            w.sweep(&s, "t", &tv);
        }
    }));
    // escapes of every character, assertions, flags and kinds of groups
    let re = |p: String| Schema(vec![rule1("t", T1::Ctl(T2::Name(Name { name: "tstr".into(), args: vec![] }), "regexp".into(), T2::Lit(Lit::Text(p))))]);
    let ev: Vec<V> = (0u8..128).map(|c| t(&(c as char).to_string())).chain((0u8..128).map(|c| t(&format!("a{}b", c as char)))).chain(["", "a", "ab", "aa", "aA", "é", "a\u{3}", "a\u{1}"].map(t)).collect();
    let ev = std::sync::Arc::new(vals(ev));
    out.push(suite("escapes", "a backslash before every character, in 11 patterns, against every character", 128, move |k, w| {
        let c = k as u8 as char;
        if c == '\u{7f}' || c < ' ' && !matches!(c, '\n' | '\t' | '\r') {
            return;
        }
        for form in ["\\#", "a\\#", "^\\#$", "[\\#]", "[^\\#]", "[a\\#]", "(\\#)", "\\#+", "(a)\\#", "\\#41", "[\\#-z]", "#", "a#b", "[#]", "[^#]", "[!-#]"] {
            w.sweep(&re(form.replace('#', &c.to_string())), "t", &ev);
        }
    }));
    let parts = ["a", "B", ".", "^", "$", "|b", "(?i)", "(?s)", "(?m)", "(?-i)", "(?i:b)", "(?s:.)", "(?m:^)", "(?-m:$)", "(?im)", "(?P<n>a)", "(?<o>b)", "(?=a)", "(?!a)", "(?<=a)", "(?<!b)", "\\A", "\\z", "\\b", "\\B", "\\x61", "\\u0062", "[a-b]*?", "((a)|(b))+", "\\n", "^a$", "^a$|", "\\n\\n", "\n", "(", ")", "a??", "(?:a|b){2}", "[^\\n]", "a**"];
    let mut fv: Vec<V> = (0..=3).flat_map(|n| seqs(&["a", "B", "\n"], n)).map(|x| t(&x.concat())).collect();
    fv.extend(["b", "A", "ab", "Ab", "a b", "a\nb", "b\na", "a\r\nb", "_a", "a1", "é"].map(t));
    let fv = std::sync::Arc::new(vals(fv));
    let deepest = if thorough { 3 } else { 2 };
    out.push(suite("flags, assertions and groups", format!("all sequences of up to {deepest} of {} parts, alone and between letters", parts.len()), parts.len() * parts.len(), move |k, w| {
        let (x, y) = (parts[k / parts.len()], parts[k % parts.len()]);
        let mut pats = vec![format!("{x}{y}"), format!("a{x}{y}"), format!("{x}{y}a"), format!("({x}){y}"), format!("({x})|{y}B"), format!("{x}(?:{y})b")];
        if k < parts.len() {
            pats.push(y.to_string());
        }
        for z in if deepest > 2 { &parts[..] } else { &parts[..8] } {
            pats.push(format!("{x}{y}{z}"));
        }
        for p in pats {
            w.sweep(&re(p), "t", &fv);
        }
    }));
    out.push(suite("nested and long patterns", "groups, options, repetitions and alternatives up to 60 deep or long", 60, move |k, w| {
        let n = k + 1;
        let pats = [
            format!("^{}a{}$", "(".repeat(n), ")".repeat(n)),
            format!("^{}a{}$", "(?:".repeat(n), ")?".repeat(n)),
            format!("^{}a{}b$", "(".repeat(n), ")*".repeat(n)),
            format!("^{}a{}$", "(b|".repeat(n), ")".repeat(n)),
            format!("^{}$", "a".repeat(n)),
            format!("^{}$", "a?".repeat(n)),
            format!("^{}$", vec!["a"; n].join("|")),
            format!("^(?:{})$", (1..=n).map(|j| "a".repeat(j)).collect::<Vec<_>>().join("|")),
            format!("^a{{{n}}}$"),
            format!("^a{{{},{n}}}$", n / 2),
            format!("^(?:ab?){{{n}}}$"),
            format!("{}a{}", "(".repeat(n), ")".repeat(n - 1)),
            format!("{}a{}", "(".repeat(n), ")".repeat(n + 1)),
            format!("[{}]", "ab".repeat(n)),
        ];
        let mut tv: Vec<V> = (0..4).chain(n.max(2) - 2..n + 3).map(|j| t(&"a".repeat(j))).collect();
        tv.extend([t("b"), t("ab"), t(&"ab".repeat(n)), t(&format!("{}b", "a".repeat(n)))]);
        let tv = vals(tv);
        for p in pats {
            w.sweep(&re(p), "t", &tv);
        }
    }));
    // places, targets and arguments
    let types: Vec<String> = ["tstr .regexp \"a\"", "text .regexp \"^a$\"", "tstr .regexp \"\"", "tstr .regexp \"b|c\"", "(tstr .regexp \"a\" / tstr .regexp \"z\")", "tstr .regexp \"^.$\"", "tstr .regexp \"[0-9]+\"", "(tstr .regexp \"^a\" / int / bytes)"].iter().map(|s| s.to_string()).collect();
    let mut pv = kinds();
    pv.extend([t("a\0"), t("A"), t("a "), t(" a"), t("b"), t("ba"), t("ab"), t("a\n"), t("zz"), t("12"), t("é"), t("ca"), b(b"ba")]);
    out.push(placed("in every place", "8 patterns in every place", types, "", pv.clone(), &all_places()));
    let tg = ["tstr", "text", "(tstr)", "bstr", "int", "any", "al", "gen<tstr>", "[tstr]", "\"a\"", "ch", "missing", "(tstr / tstr)", "tdate", "uri"];
    let ar = ["\"a\"", "\"\"", "(\"a\")", "\"(\"", "\"[a\"", "\"*\"", "\"a{2,1}\"", "'a'", "h'61'", "1", "pat", "gen<\"a\">", "missing", "(\"a\" / \"b\")", "tstr", "[\"a\"]", "1.5", "\"\\\\\"", "\"\\\\d\"", "\"\\u0061\"", "b64''"];
    let mut texts = vec![];
    for x in tg {
        for y in ar {
            texts.push(format!("t = {x} .regexp {y}\npat = \"a\"\nal = tstr\ngen<A> = A\nch = tstr / int\n"));
            texts.push(format!("t = any / u\nu = [{x} .regexp {y}]\npat = \"a\"\nal = tstr\ngen<A> = A\nch = tstr / int\n"));
        }
    }
    out.push(texts_suite("targets and patterns of all kinds", "15 targets x 21 arguments", texts, vals(pv)));
    // long texts
    out.push(suite("long texts", "texts of 0 to 2000 characters, the match at the start, the middle or the end", 41, |k, w| {
        let n = k * 50;
        let x = "x".repeat(n);
        let half = "x".repeat(n / 2);
        let vs = vals(vec![t(&x), t(&format!("a{x}")), t(&format!("{x}a")), t(&format!("{half}a{half}")), t(&format!("{x}\na")), t(&format!("a\n{x}")), t(&format!("{x}aa")), t(&format!("é{x}é"))]);
        for p in ["a", "^a", "a$", "^a$", "a+", "^x*$", "^x*a", "a.*x", "xa", "ax", "^[^a]*$", "(x|a)*a$", "x{10}", "éx"] {
            w.sweep(&cddl(&format!("t = tstr .regexp \"{p}\"\n")), "t", &vs);
        }
    }));
    let big = [2047usize, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 10_000, 16_384, 16_385, 32_768, 32_769, 65_535, 65_536, 65_537, 100_001, 131_072, 131_073, 200_000, if thorough { 1_100_000 } else { 262_145 }];
    out.push(suite("very long texts", "texts of 2047 to 262145 (1100000) characters, the match at the start, the middle or the end, or none", big.len() * 3, move |k, w| {
        let n = big[k / 3];
        let x = ["x", "\u{e9}", "xy"][k % 3].repeat(n);
        let vs = vals(vec![t(&x), t(&format!("a{x}")), t(&format!("{x}a")), t(&format!("{}a{}", &x[..x.len() / 2 & !1], &x[..x.len() / 2 & !1])), t(&format!("{x}\n"))]);
        for p in ["a", "^a", "a$", "xa", "^[^a]*$", "\u{e9}a"] {
            w.sweep(&cddl(&format!("t = tstr .regexp \"{p}\"\n")), "t", &vs);
        }
    }));
    out.extend(crate::corpus::suites(&["regexp"], thorough));
    out
}

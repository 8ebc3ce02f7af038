pub use crate::ast::*;
pub use crate::engine::*;
pub use crate::gen::*;
pub use crate::value::*;
use std::sync::Arc;

/// Sweep all groups of a family, as the body of rule `t`.
pub fn groups_suite(
    name: &'static str,
    bounds: &str,
    g: Groups,
    extra: &str,
    wrap: fn(Grp) -> T1,
    values: Vec<Val>,
) -> Suite<'static> {
    let b = format!("{bounds}; {} groups x {} values", g.total(), values.len());
    let extra = if extra.is_empty() { Schema(vec![]) } else { cddl(extra) };
    suite(name, b, g.items(), move |item, w| {
        g.each(item, &mut |grp| {
            if w.stopped() {
                return;
            }
            let mut s = Schema(vec![rule1("t", wrap(grp.clone()))]);
            s.0.extend(extra.0.iter().cloned());
            w.sweep(&s, "t", &values);
        });
    })
}

/// Sweep a list of schemas (start rule `t`), each with its own values.
pub fn list_suite(name: &'static str, bounds: &str, list: Vec<(Schema, Arc<Vec<Val>>)>) -> Suite<'static> {
    let total: usize = list.iter().map(|(_, v)| v.len()).sum();
    let b = format!("{bounds}; {} schemas, {total} cases", list.len());
    let chunk = (list.len() / 400).max(1);
    let n = list.len().div_ceil(chunk);
    suite(name, b, n, move |item, w| {
        for (s, v) in &list[item * chunk..((item + 1) * chunk).min(list.len())] {
            if w.stopped() {
                return;
            }
            w.sweep(s, "t", v);
        }
    })
}

pub fn texts_suite(name: &'static str, bounds: &str, texts: Vec<String>, v: Vec<Val>) -> Suite<'static> {
    let v = Arc::new(v);
    list_suite(name, bounds, texts.iter().map(|t| (cddl(t), v.clone())).collect())
}

/// Places a type can stand in, with the value that exercises it there.
/// Every schema defines `t`; `{}` is replaced by the type.
pub struct Place {
    pub name: &'static str,
    pub text: &'static str,
    pub value: fn(V) -> V,
}

pub const PLACES: &[Place] = &[
    Place { name: "top", text: "t = @", value: |v| v },
    Place { name: "element", text: "t = [@]", value: |v| a(vec![v]) },
    Place { name: "second element", text: "t = [tstr, @]", value: |v| a(vec![t("z"), v]) },
    Place { name: "optional element", text: "t = [? @]", value: |v| a(vec![v]) },
    Place { name: "repeated element", text: "t = [* @]", value: |v| a(vec![v.clone(), v]) },
    Place { name: "map value", text: "t = {k: @}", value: |v| m(vec![(t("k"), v)]) },
    Place { name: "map key", text: "t = {@ => int}", value: |v| m(vec![(v, i(1))]) },
    Place { name: "map key, more entries", text: "t = {\"k\" => int, * @ => int}", value: |v| m(vec![(v, i(1)), (t("k"), i(2))]) },
    Place { name: "uncut value of type key", text: "t = {* tstr => @}", value: |v| m(vec![(t("k"), v)]) },
    Place { name: "choice", text: "t = [9] / @ / [8]", value: |v| v },
    Place { name: "named", text: "t = n\nn = @", value: |v| v },
    Place { name: "argument", text: "t = n<@>\nn<X> = [X]", value: |v| a(vec![v]) },
    Place { name: "group", text: "t = [(@, tstr)]", value: |v| a(vec![v, t("z")]) },
    Place { name: "alternative", text: "t = [@, int // tstr // @]", value: |v| a(vec![v]) },
    Place { name: "enumeration", text: "t = &(p: [9], q: @)", value: |v| v },
];

pub fn place_text(p: &Place, ty: &str) -> String {
    format!("{}\n", p.text.replace('@', ty))
}

pub fn arc(v: Vec<Val>) -> Arc<Vec<Val>> {
    Arc::new(v)
}

fn distinct_keys(v: &V) -> bool {
    match v {
        V::Map(m) => (0..m.len()).all(|x| (0..x).all(|y| !same(&m[x].0, &m[y].0))),
        _ => true,
    }
}

/// Every type in every place against every value.
pub fn placed(
    name: &'static str,
    bounds: &str,
    types: Vec<String>,
    extra: &str,
    values: Vec<V>,
    places: &[usize],
) -> Suite<'static> {
    let pv: Vec<(usize, Arc<Vec<Val>>)> = places
        .iter()
        .map(|p| {
            let v: Vec<V> = values.iter().map(|v| (PLACES[*p].value)(v.clone())).filter(distinct_keys).collect();
            (*p, arc(vals(v)))
        })
        .collect();
    let b = format!(
        "{bounds}; {} types x {} places x {} values",
        types.len(),
        places.len(),
        values.len()
    );
    let extra = extra.to_string();
    let n = types.len();
    suite(name, b, n, move |k, w| {
        for (p, v) in &pv {
            if w.stopped() {
                return;
            }
            w.sweep(&cddl(&format!("{}{extra}", place_text(&PLACES[*p], &types[k]))), "t", v);
        }
    })
}

pub fn all_places() -> Vec<usize> {
    (0..PLACES.len()).collect()
}

/// Integers around all powers of two, over the full range of CBOR.
pub fn int_grid() -> Vec<i128> {
    let mut v: Vec<i128> = (-30..=30).collect();
    for k in 4..=64 {
        for d in -1..=1 {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    for p in [10i128, 100, 1000, 1_000_000, 1_000_000_000_000] {
        v.extend([p, -p]);
    }
    v.retain(|x| *x >= -(1i128 << 64) && *x < 1i128 << 64);
    v.sort();
    v.dedup();
    v
}

pub fn float_grid() -> Vec<f64> {
    let mut v = vec![
        0.0, 1.0, -1.0, 0.5, 1.5, -1.5, 2.0, 3.0, 10.0, 0.1, 0.2, 0.3, 1.1, 1e10, 1e16, 1e17, 1e100, 1e-7, 1e300, 1e-300,
        3.4028234663852886e38, 3.4028235e38, 65504.0, 65505.0, 5.960464477539063e-8, f64::MAX, f64::MIN, f64::MIN_POSITIVE,
        f64::EPSILON, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740992.0, 9007199254740993.0,
        9223372036854775808.0, 18446744073709551616.0, 255.0, 256.0, 100000.0, 123456.789, 0.30000000000000004,
        16777216.0, 16777217.0, -0.5, -2.0, 4.0, 1.0000000000000002, 0.9999999999999999,
    ];
    v.extend([7.0, 8.0, -3.0, -4.0, -10.5]);
    v
}

/// One value of every kind.
pub fn kinds() -> Vec<V> {
    vec![
        V::Null, V::Bool(true), V::Bool(false), i(0), i(1), i(-1), i(2), i(u64::MAX as i128), i(-(1i128 << 64)), f(0.0), f(1.0), f(-1.0), f(f64::NAN), f(f64::INFINITY),
        t(""), t("a"), t("1"), t("null"), b(b""), b(b"a"), b(&[1]), b(&[0xff]), a(vec![]), a(vec![i(1)]), a(vec![V::Null]), m(vec![]), m(vec![(t("a"), i(1))]), m(vec![(i(1), i(1))]),
    ]
}

/// Small multiples of powers of two and of ten, over the whole range.
pub fn wide_floats() -> Vec<f64> {
    let mut v = vec![];
    for k in -80..=80 {
        for x in [1.0, 1.5, 3.0] {
            v.push(x * 2f64.powi(k));
        }
    }
    for k in -22..=24 {
        for x in ["1", "2", "1.5", "7", "1.25", "9.99", "1.23456789"] {
            v.push(format!("{x}e{k}").parse().unwrap());
        }
    }
    for k in [-308, -300, -200, -100, -50, 30, 40, 50, 100, 200, 300, 307] {
        v.push(format!("1e{k}").parse().unwrap());
    }
    v.sort_by(|x: &f64, y| x.partial_cmp(y).unwrap());
    v.dedup();
    v
}

/// ASCII, Latin-1, and characters that are special in some way.
pub fn odd_chars() -> Vec<char> {
    let mut v: Vec<char> = (0u8..=255).map(|c| c as char).collect();
    v.extend("\u{100}\u{130}\u{131}\u{149}\u{17f}\u{1c5}\u{2bc}\u{300}\u{301}\u{308}\u{345}\u{3a3}\u{3c2}\u{3c3}\u{430}\u{5d0}\u{61c}\u{660}\u{7ff}\u{800}\u{e01}\u{1100}\u{1680}\u{180e}\u{1e9e}\u{2000}\u{200b}\u{200c}\u{200d}\u{200e}\u{200f}\u{2028}\u{2029}\u{202a}\u{202e}\u{202f}\u{205f}\u{2060}\u{20ac}\u{212a}\u{2160}\u{3000}\u{3042}\u{65e5}\u{ac00}\u{d7ff}\u{e000}\u{f8ff}\u{fb01}\u{fe0f}\u{feff}\u{ff21}\u{ffef}\u{fffd}\u{10000}\u{1f1e6}\u{1f469}\u{1f600}\u{20000}\u{e0001}\u{10fffd}".chars());
    v
}

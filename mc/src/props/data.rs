//! Representations of data (C17) and call histories (C23).

use super::common::*;
use crate::corpus;
use crate::refsem::{self, Bits, Sem};
use cddl_cat::value::Value as IV;
use std::convert::TryFrom;
use std::sync::Arc;

/// What the crate turned data into.
pub fn to_v(x: &IV) -> V {
    match x {
        IV::Null => V::Null,
        IV::Bool(b) => V::Bool(*b),
        IV::Integer(i) => V::Int(*i),
        IV::Float(f) => V::Float(f.0),
        IV::Bytes(b) => V::Bytes(b.clone()),
        IV::Text(t) => V::Text(t.clone()),
        IV::Array(a) => V::Arr(a.iter().map(to_v).collect()),
        IV::Map(m) => V::Map(m.iter().map(|(k, v)| (to_v(k), to_v(v))).collect()),
    }
}

fn permitted(sem: &mut Sem, rule: &str, v: &V) -> Bits {
    sem.run(rule, v).bits
}

/// Verdicts that the listed findings explain, for a value inside which byte
/// strings may hold ill-formed encodings.
fn lax_alts(sem: &mut Sem, rule: &str, v: &V) -> Vec<(Bits, String)> {
    let mut out = vec![];
    if has_lax(v) {
        for (lax, key) in LAX_KEYS {
            sem.lax = *lax;
            out.push((sem.run(rule, v).bits, key.to_string()));
        }
        sem.lax = 0;
    }
    out
}

/// Encoded items that the data model does not have.
pub fn odd_items() -> Vec<Vec<u8>> {
    let mut odd: Vec<Vec<u8>> = vec![vec![0xf7]];
    for x in (0xe0..=0xf3u8).chain([0xf8, 0xfc, 0xfd, 0xfe, 0xff]) {
        odd.push(vec![x]);
    }
    for x in 0..=255 {
        odd.push(vec![0xf8, x]);
    }
    for tag in [0u64, 1, 2, 3, 4, 5, 6, 10, 21, 22, 23, 24, 32, 33, 36, 37, 258, 999, 55799, 1 << 32, u64::MAX] {
        for inner in [&[0x01u8][..], &[0x60], &[0x40], &[0x41, 0x01], &[0x49, 1, 0, 0, 0, 0, 0, 0, 0, 0], &[0xf6], &[0x80], &[0xa0], &[0xc1, 0x01]] {
            for w in [0, 1, 2, 4, 8] {
                let mut o = vec![];
                head_w(&mut o, 6, tag, w);
                o.extend(inner);
                odd.push(o);
            }
        }
    }
    odd
}

/// Places in a container, before and after.
pub const AROUND: [(&[u8], &[u8]); 9] = [(&[], &[]), (&[0x81], &[]), (&[0x82, 0x01], &[]), (&[0x82], &[0x01]), (&[0x9f], &[0xff]), (&[0xa1, 0x61, 0x61], &[]), (&[0xa1], &[0x01]), (&[0xbf, 0x61, 0x61], &[0xff]), (&[0x81, 0xa1, 0x01], &[])];

/// What any byte string must give, by the independent decoder.
fn bytes_expect(sem: &mut Sem, rule: &str, input: &[u8], w: &mut Worker) -> (Bits, Vec<(Bits, String)>) {
    let mut alts = vec![];
    let base = match whole(input, 0) {
        Whole::Item(v) => {
            let r = sem.run(rule, &v);
            w.st.states += r.states;
            w.st.steps += r.steps;
            alts = lax_alts(sem, rule, &v);
            return (r.bits, alts);
        }
        Whole::Open => return (refsem::UNSPEC, alts),
        Whole::Outside => refsem::VALUE,
        Whole::Undef(v) => {
            alts.push((permitted(sem, rule, &v), "undefined-as-null".into()));
            for (b, k) in lax_alts(sem, rule, &v) {
                alts.push((b, format!("{k}-and-undefined-as-null")));
            }
            refsem::VALUE
        }
        Whole::Bad => {
            for (lax, key) in LAX_KEYS {
                match whole(input, *lax) {
                    Whole::Item(v) => {
                        sem.lax = 0;
                        alts.push((permitted(sem, rule, &v), key.to_string()));
                        for (b, _) in lax_alts(sem, rule, &v) {
                            alts.push((b, LAX_KEYS[2].1.to_string()));
                        }
                    }
                    Whole::Undef(v) => {
                        alts.push((permitted(sem, rule, &v), format!("{key}-and-undefined-as-null")));
                    }
                    Whole::Open => return (refsem::UNSPEC, vec![]),
                    _ => {}
                }
            }
            refsem::VALUE
        }
    };
    w.st.states += 1;
    w.st.steps += input.len() as u64;
    (base, alts)
}

// ------------------------------------------------------- reference JSON

pub enum Js {
    Item(V),
    /// well formed, but the meaning is left open here
    Open,
    Bad,
}

struct J<'a> {
    c: &'a [u8],
    p: usize,
    open: bool,
}

/// RFC 8259, strictly.
pub fn json(text: &str) -> Js {
    let mut j = J { c: text.as_bytes(), p: 0, open: false };
    j.ws();
    match j.item(0) {
        Some(v) => {
            j.ws();
            if j.p < j.c.len() {
                Js::Bad
            } else if j.open {
                Js::Open
            } else {
                Js::Item(v)
            }
        }
        None => Js::Bad,
    }
}

impl J<'_> {
    fn peek(&self) -> u8 {
        *self.c.get(self.p).unwrap_or(&0)
    }
    fn ws(&mut self) {
        while matches!(self.peek(), b' ' | b'\n' | b'\r' | b'\t') {
            self.p += 1;
        }
    }
    fn eat(&mut self, s: &str) -> Option<()> {
        if self.c[self.p..].starts_with(s.as_bytes()) {
            self.p += s.len();
            Some(())
        } else {
            None
        }
    }
    fn digits(&mut self) -> Option<()> {
        let p = self.p;
        while self.peek().is_ascii_digit() {
            self.p += 1;
        }
        if self.p > p {
            Some(())
        } else {
            None
        }
    }
    fn number(&mut self) -> Option<V> {
        let start = self.p;
        let neg = self.eat("-").is_some();
        if self.eat("0").is_none() {
            self.digits()?;
        }
        let mut float = false;
        if self.eat(".").is_some() {
            float = true;
            self.digits()?;
        }
        if self.eat("e").or_else(|| self.eat("E")).is_some() {
            float = true;
            let _ = self.eat("+").or_else(|| self.eat("-"));
            self.digits()?;
        }
        let s = std::str::from_utf8(&self.c[start..self.p]).unwrap();
        if !float {
            if let Ok(i) = s.parse::<i128>() {
                if neg && i == 0 {
                    self.open = true;
                }
                if i >= i64::MIN as i128 && i <= u64::MAX as i128 {
                    return Some(V::Int(i));
                }
            }
            self.open = true;
        }
        let x: f64 = s.parse().unwrap();
        let digits = s.bytes().take_while(|c| !matches!(c, b'e' | b'E')).filter(u8::is_ascii_digit).count();
        let exp: i32 = s.split(['e', 'E']).nth(1).map_or(0, |e| e.parse().unwrap_or(999));
        let frac = s.split(['e', 'E']).next().unwrap().split('.').nth(1).map_or(0, str::len) as i32;
        // the JSON library does not promise the nearest double beyond this
        if digits > 15 || (exp - frac).abs() > 22 || x == 0.0 && neg {
            self.open = true;
        }
        Some(V::Float(x))
    }
    fn string(&mut self) -> Option<String> {
        self.eat("\"")?;
        let mut units: Vec<u8> = vec![];
        loop {
            match self.peek() {
                b'"' => {
                    self.p += 1;
                    return Some(String::from_utf8(units).unwrap());
                }
                b'\\' => {
                    self.p += 1;
                    let c = self.peek();
                    self.p += 1;
                    let mut b = [0; 4];
                    let ch = match c {
                        b'"' | b'\\' | b'/' => c as char,
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let x = self.hex4()?;
                            match x {
                                0xd800..=0xdbff => {
                                    if self.c[self.p..].starts_with(b"\\u") {
                                        self.p += 2;
                                        let y = self.hex4()?;
                                        if (0xdc00..=0xdfff).contains(&y) {
                                            char::from_u32(0x10000 + ((x - 0xd800) << 10) + (y - 0xdc00)).unwrap()
                                        } else {
                                            self.open = true;
                                            '?'
                                        }
                                    } else {
                                        self.open = true;
                                        '?'
                                    }
                                }
                                _ => char::from_u32(x).unwrap_or_else(|| {
                                    self.open = true;
                                    '?'
                                }),
                            }
                        }
                        _ => return None,
                    };
                    units.extend(ch.encode_utf8(&mut b).as_bytes());
                }
                0..=0x1f => return None,
                c => {
                    units.push(c);
                    self.p += 1;
                }
            }
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let h = self.c.get(self.p..self.p + 4)?;
        if !h.iter().all(u8::is_ascii_hexdigit) {
            return None;
        }
        self.p += 4;
        u32::from_str_radix(std::str::from_utf8(h).unwrap(), 16).ok()
    }
    fn item(&mut self, depth: u32) -> Option<V> {
        if depth > 100 {
            self.open = true;
        }
        Some(match self.peek() {
            b'n' => {
                self.eat("null")?;
                V::Null
            }
            b't' => {
                self.eat("true")?;
                V::Bool(true)
            }
            b'f' => {
                self.eat("false")?;
                V::Bool(false)
            }
            b'"' => V::Text(self.string()?),
            b'[' => {
                self.p += 1;
                let mut out = vec![];
                self.ws();
                if self.eat("]").is_some() {
                    return Some(V::Arr(out));
                }
                loop {
                    self.ws();
                    out.push(self.item(depth + 1)?);
                    self.ws();
                    if self.eat("]").is_some() {
                        return Some(V::Arr(out));
                    }
                    self.eat(",")?;
                }
            }
            b'{' => {
                self.p += 1;
                let mut out: Vec<(V, V)> = vec![];
                self.ws();
                if self.eat("}").is_some() {
                    return Some(V::Map(out));
                }
                loop {
                    self.ws();
                    let k = V::Text(self.string()?);
                    self.ws();
                    self.eat(":")?;
                    self.ws();
                    let v = self.item(depth + 1)?;
                    if out.iter().any(|(x, _)| same(x, &k)) {
                        self.open = true;
                    }
                    out.push((k, v));
                    self.ws();
                    if self.eat("}").is_some() {
                        return Some(V::Map(out));
                    }
                    self.eat(",")?;
                }
            }
            _ => self.number()?,
        })
    }
}

fn json_expect(sem: &mut Sem, rule: &str, text: &str, w: &mut Worker) -> Bits {
    match json(text) {
        Js::Item(v) => {
            let r = sem.run(rule, &v);
            w.st.states += r.states;
            w.st.steps += r.steps;
            r.bits
        }
        Js::Open => refsem::UNSPEC,
        Js::Bad => {
            w.st.states += 1;
            w.st.steps += text.len() as u64;
            refsem::VALUE
        }
    }
}

fn json_text(v: &V) -> Option<String> {
    let j = to_json(v)?;
    let s = serde_json::to_string(&j).unwrap();
    // whether the library reads back what it wrote is not our matter
    if serde_json::from_str::<serde_json::Value>(&s).ok()? != j {
        return None;
    }
    Some(s)
}

// ------------------------------------------------------- all encodings

fn all_encs() -> Vec<Enc> {
    let mut out = vec![];
    for int_w in [0, 1, 2, 4, 8] {
        for len_w in [0, 1, 2, 4, 8] {
            for indef_arr in [false, true] {
                for indef_map in [false, true] {
                    for chunk in [0, 1, 3] {
                        for float_w in [0, 4, 8] {
                            for rev in [false, true] {
                                out.push(Enc { int_w, len_w, indef_arr, indef_map, chunk, float_w, rev });
                            }
                        }
                    }
                }
            }
        }
    }
    out
}

fn few_encs() -> Vec<Enc> {
    let p = PLAIN;
    vec![
        p,
        Enc { float_w: 0, ..p },
        Enc { indef_arr: true, indef_map: true, chunk: 1, float_w: 0, rev: true, ..p },
        Enc { int_w: 8, len_w: 8, float_w: 4, ..p },
        Enc { int_w: 1, len_w: 1, rev: true, ..p },
        Enc { int_w: 2, len_w: 4, indef_arr: true, chunk: 3, ..p },
    ]
}

fn heads(major: u8, n: u64) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![];
    for w in [0, 1, 2, 4, 8] {
        let mut o = vec![];
        head_w(&mut o, major, n, w);
        if !out.contains(&o) {
            out.push(o);
        }
    }
    out
}

fn cat(a: &[Vec<u8>], b: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut out = Vec::with_capacity(a.len() * b.len());
    for x in a {
        for y in b {
            let mut z = x.clone();
            z.extend(y);
            out.push(z);
        }
    }
    out
}

fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for k in 0..n {
            let mut q = p.clone();
            q.insert(k, n - 1);
            out.push(q);
        }
    }
    out
}

/// Every encoding of a value: each header at every width, each string in
/// every division into (non-empty) chunks, each float at every width, each
/// map in every order, each container of definite and indefinite length.
fn encodings(v: &V) -> Vec<Vec<u8>> {
    let string = |major: u8, bytes: &[u8], cuts: &[usize]| {
        let mut out = cat(&heads(major, bytes.len() as u64), &[bytes.to_vec()]);
        for mask in 0..1u32 << cuts.len() {
            let mut o = vec![vec![major << 5 | 31]];
            let mut prev = 0;
            let ends = cuts.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, c)| *c).chain([bytes.len()]);
            for e in ends {
                if e > prev {
                    let mut h = heads(major, (e - prev) as u64);
                    h.truncate(2);
                    o = cat(&o, &cat(&h, &[bytes[prev..e].to_vec()]));
                }
                prev = e;
            }
            // an empty chunk at the end, too
            out.extend(cat(&o, &[vec![0xff], vec![major << 5, 0xff]]));
        }
        out
    };
    match v {
        V::Null | V::Bool(_) => vec![encode(v, &PLAIN)],
        V::Int(i) => {
            if *i >= 0 {
                heads(0, *i as u64)
            } else {
                heads(1, (-1 - *i) as u64)
            }
        }
        V::Float(_) => {
            let mut out: Vec<Vec<u8>> = vec![];
            for float_w in [0, 4, 8] {
                let e = encode(v, &Enc { float_w, ..PLAIN });
                if !out.contains(&e) {
                    out.push(e);
                }
            }
            out
        }
        V::Bytes(b) => string(2, b, &(1..b.len()).collect::<Vec<_>>()),
        V::Text(s) => string(3, s.as_bytes(), &s.char_indices().map(|x| x.0).skip(1).collect::<Vec<_>>()),
        V::Arr(a) => {
            let mut body = vec![vec![]];
            for x in a {
                body = cat(&body, &encodings(x));
            }
            let mut out = cat(&heads(4, a.len() as u64), &body);
            out.extend(cat(&cat(&[vec![0x9f]], &body), &[vec![0xff]]));
            out
        }
        V::Map(m) => {
            let each: Vec<Vec<Vec<u8>>> = m.iter().map(|(k, v)| cat(&encodings(k), &encodings(v))).collect();
            let mut body = vec![];
            for p in permutations(m.len()) {
                let mut o = vec![vec![]];
                for k in p {
                    o = cat(&o, &each[k]);
                }
                body.extend(o);
            }
            let mut out = cat(&heads(5, m.len() as u64), &body);
            out.extend(cat(&cat(&[vec![0xbf]], &body), &[vec![0xff]]));
            out
        }
    }
}

/// Small values and, for each, schemas that tell it from its neighbours.
fn mixed() -> Vec<(V, Vec<&'static str>)> {
    let n = || V::Null;
    vec![
        (n(), vec!["null", "bool", "any"]),
        (V::Bool(true), vec!["true", "false", "bool"]),
        (i(0), vec!["0", "1", "uint", "nint", "float", "0..1", "uint .size 0", "uint .lt 1"]),
        (i(23), vec!["23", "24", "uint", "int .le 23"]),
        (i(24), vec!["24", "23", "uint .gt 23"]),
        (i(255), vec!["255", "uint .size 1", "nint"]),
        (i(256), vec!["256", "uint .size 1", "uint .size 2"]),
        (i(65536), vec!["65536", "uint .size 2", "uint .size 3"]),
        (i(u64::MAX as i128), vec!["18446744073709551615", "uint .size 8", "uint .size 7", "int"]),
        (i(-1), vec!["-1", "nint", "uint", "-1..-1"]),
        (i(-256), vec!["-256", "-257", "nint .lt -255"]),
        (i(-(1i128 << 63)), vec!["-9223372036854775808", "nint", "int"]),
        (i(-(1i128 << 64)), vec!["nint", "int", "uint", "float"]),
        (f(0.0), vec!["0.0", "float", "0", "int"]),
        (f(1.5), vec!["1.5", "float16", "1.0..2.0"]),
        (f(100000.0), vec!["100000.0", "float"]),
        (f(0.1), vec!["0.1", "float", "0.0..0.1"]),
        (f(f64::INFINITY), vec!["float", "1.0"]),
        (f(f64::NAN), vec!["float", "0.0..1.0"]),
        (b(b""), vec!["''", "bstr .size 0", "tstr"]),
        (b(&[1, 2, 3, 4]), vec!["h'01020304'", "bstr .size 4", "h'0102'", "tstr"]),
        (b(&[0x82, 1, 2]), vec!["bytes .cbor [int, int]", "bytes .cbor [int]", "bytes .cbor any"]),
        (t(""), vec!["\"\"", "tstr .size 0", "bstr"]),
        (t("abc"), vec!["\"abc\"", "tstr .size 3", "tstr .regexp \"abc\"", "\"ab\""]),
        (t("é€𝄞"), vec!["\"é€𝄞\"", "tstr .size 9", "tstr .size 3"]),
        (a(vec![]), vec!["[]", "[* int]", "[int]", "{}"]),
        (a(vec![i(1), t("a")]), vec!["[1, \"a\"]", "[int, tstr]", "[* (int / tstr)]", "[int]", "[int, tstr, ? bool]"]),
        (a(vec![i(1), i(2), i(3)]), vec!["[* int]", "[3*3 int]", "[2*2 int]", "[1, 2, 3]", "[3, 2, 1]"]),
        (a(vec![a(vec![i(1)]), V::Bool(false)]), vec!["[[int], bool]", "[[* any], false]", "[[], bool]"]),
        (a(vec![f(1.5), n()]), vec!["[float, null]", "[1.5, nil]", "[int, null]"]),
        (m(vec![]), vec!["{}", "{* tstr => any}", "{a: int}", "[]"]),
        (m(vec![(i(1), i(2))]), vec!["{1 => 2}", "{1: int}", "{2: int}", "{* uint => uint}", "{\"1\": int}"]),
        (m(vec![(t("a"), i(1)), (t("b"), t("x"))]), vec!["{a: int, b: tstr}", "{b: tstr, a: int}", "{* tstr => any}", "{a: int}", "{a: int, * tstr => tstr}", "{? tstr => int, ? tstr => tstr}"]),
        (m(vec![(t("1"), n()), (i(1), n()), (b(b"1"), n())]), vec!["{1: null, \"1\": null, '1' => null}", "{* tstr => null, * uint => null}", "{* tstr => null, * uint => null, * bstr => null}"]),
        (m(vec![(a(vec![i(1)]), i(2)), (f(1.5), i(3))]), vec!["{[1] => 2, 1.5 => 3}", "{[* int] => int, float => int}", "{* any => int}"]),
        (m(vec![(m(vec![(t("k"), i(1))]), V::Bool(true))]), vec!["{{k: 1} => true}", "{{k: 2} => true}"]),
        (m(vec![(t("x"), m(vec![(t("y"), a(vec![i(5)]))]))]), vec!["{x: {y: [5]}}", "{x: {y: [* uint]}}", "{x: {y: []}}"]),
    ]
}

/// Parses `t = S` once and judges all presentations of one value together.
fn same_everywhere(text: &str, v: &V, inputs: &[Vec<u8>], w: &mut Worker) {
    let s = cddl(text);
    let mut sem = Sem::new(&s);
    let r = sem.run("t", v);
    w.st.states += r.states;
    w.st.steps += r.steps;
    w.st.schemas += 1;
    let alts = lax_alts(&mut sem, "t", v);
    let mut seen: Bits = 0;
    for e in inputs {
        if w.stopped() {
            return;
        }
        seen |= w.raw(text, "t", Input::Cbor(e), r.bits, &alts);
    }
    if let Some(j) = json_text(v) {
        seen |= w.raw(text, "t", Input::Json(&j), r.bits, &alts);
        if let Ok(p) = serde_json::to_string_pretty(&to_json(v).unwrap()) {
            seen |= w.raw(text, "t", Input::Json(&p), r.bits, &alts);
        }
    }
    if seen.count_ones() > 1 {
        w.complain(
            "equal data, different verdicts",
            "one verdict",
            &show(seen),
            serde_json::json!({"schema": text, "data": diag(v)}),
        );
    }
    w.sample(|| serde_json::json!({"schema": text, "data": diag(v), "encodings": inputs.len(), "permitted": show(r.bits)}));
}

/// The conversions themselves.
fn converts(v: &V, w: &mut Worker) {
    let cv = to_cbor_value(v);
    let jv = to_json(v);
    w.st.states += 1;
    w.st.steps += 1;
    let mut got = vec![("CBOR value", w.imp(|| IV::try_from(&cv))), ("owned CBOR value", w.imp(|| IV::try_from(cv.clone())))];
    if let Some(j) = &jv {
        got.push(("JSON value", w.imp(|| IV::try_from(j))));
        got.push(("owned JSON value", w.imp(|| IV::try_from(j.clone()))));
    }
    for (from, g) in got {
        w.st.traces += 1;
        let ok = matches!(&g, Ok(Ok(x)) if same(&to_v(x), v));
        if !ok {
            w.complain(
                &format!("converting a {from}"),
                &diag(v),
                &match g {
                    Ok(Ok(x)) => format!("{:?}", x),
                    Ok(Err(e)) => e.to_string(),
                    Err(m) => m,
                },
                serde_json::json!({"data": diag(v), "encoded": hex(&encode(v, &PLAIN))}),
            );
        } else {
            w.outcome_named("converted exactly");
        }
    }
}

const KINDS: &[&str] = &["any", "null", "bool", "true", "false", "int", "uint", "nint", "float", "tstr", "bstr", "[* any]", "{* any => any}"];

const ANY2: &str = "t = uint / -1..-1 / [* t] / {* uint => t} / \"a\" / bstr .size (1..2) / float / false\n";

pub fn c17(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];

    // every encoding of small values
    let mix = mixed();
    let n = mix.len();
    let total: usize = mix.iter().map(|(v, s)| encodings(v).len() * s.len()).sum();
    out.push(suite(
        "every encoding",
        format!("{n} values of up to 6 nodes, each in every well-formed encoding (every header width, both length forms, every division into chunks, every float width, every order of map entries) against schemas that distinguish it; {total} cases"),
        n,
        move |k, w| {
            let (v, schemas) = &mix[k];
            let e = encodings(v);
            for s in schemas {
                same_everywhere(&format!("t = {s}\n"), v, &e, w);
            }
        },
    ));

    // realistic documents in all uniform encodings
    let mut jobs: Vec<(Schema, String, String, V, bool)> = vec![];
    for d in corpus::DOCS {
        let s = d.schema();
        for v in d.values() {
            let near: Vec<V> = corpus::near(&v, thorough);
            jobs.push((s.clone(), d.text.into(), d.start(), v, true));
            for v in near {
                if distinct(&v) {
                    jobs.push((s.clone(), d.text.into(), d.start(), v, false));
                }
            }
        }
    }
    let n = jobs.len();
    let (all, few) = (all_encs(), few_encs());
    out.push(suite(
        "documents",
        format!("realistic documents in {} uniform encodings, {} values one change away in {}, and as JSON text", all.len(), n, few.len()),
        n,
        move |k, w| {
            let (s, text, start, v, fits) = &jobs[k];
            let mut sem = Sem::new(s);
            let r = sem.run(start, v);
            w.st.states += r.states;
            w.st.steps += r.steps;
            let alts = lax_alts(&mut sem, start, v);
            let mut seen = 0;
            for e in if *fits { &all } else { &few } {
                if w.stopped() {
                    return;
                }
                seen |= w.raw(text, start, Input::Cbor(&encode(v, e)), r.bits, &alts);
            }
            if let Some(j) = json_text(v) {
                seen |= w.raw(text, start, Input::Json(&j), r.bits, &alts);
            }
            converts(v, w);
            if seen.count_ones() > 1 {
                w.complain("equal data, different verdicts", "one verdict", &show(seen), serde_json::json!({"schema": text, "data": diag(v)}));
            }
        },
    ));

    // orders of map entries
    let keys = [t("a"), t("b"), i(1), i(-1), b(b"a"), t("c")];
    let members = [
        "a: int, b: int", "? a: int, * tstr => int", "* tstr => int", "* tstr => int, * int => tstr", "tstr => int, int => any, * any => any", "1: any, -1: any, * any => any", "* (int / tstr) => any, ? bstr => int", "? a: tstr, * tstr => int",
        "(a: int // b: int), * any => any", "2* tstr => int, * any => any", "? tstr => 1, ? tstr => 2, * any => any", "? 1 ^ => int, * int => tstr, * any => any", "* any => any, a: int", "+ int => tstr, * tstr => int, * bstr => any", "* tstr => 1, * tstr => 2, * tstr => any",
    ];
    let kmax = if thorough { 6 } else { 5 };
    let mut maps_: Vec<V> = vec![];
    for mask in 0u32..1 << keys.len() {
        if mask.count_ones() as usize > kmax {
            continue;
        }
        for shift in 0..3 {
            let vals_ = [i(1), t("x"), i(2)];
            maps_.push(V::Map(keys.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(k, x)| (x.clone(), vals_[(k + shift) % 3].clone())).collect()));
        }
    }
    let (nm, nk) = (maps_.len(), members.len());
    out.push(suite(
        "orders of entries",
        format!("{nm} maps of up to {kmax} entries in every order, as bytes, as parsed values and as JSON text, against {nk} member lists"),
        nm,
        move |k, w| {
            let V::Map(es) = &maps_[k] else { unreachable!() };
            let v = &maps_[k];
            let perms: Vec<V> = permutations(es.len()).into_iter().map(|p| V::Map(p.into_iter().map(|x| es[x].clone()).collect())).collect();
            for g in members {
                let text = format!("t = {{{g}}}\n");
                let s = cddl(&text);
                let mut sem = Sem::new(&s);
                let r = sem.run("t", v);
                w.st.states += r.states;
                w.st.steps += r.steps;
                let Some(p) = w.read_text(text.clone(), 0) else { continue };
                let mut seen: Bits = 0;
                for pv in &perms {
                    if w.stopped() {
                        return;
                    }
                    let val = Val::new(pv.clone());
                    for via in [Via::Cbor, Via::Json] {
                        if via == Via::Json && val.json.is_none() {
                            continue;
                        }
                        w.publish_value(&p, "t", &val);
                        let got = w.verdict(&p, "t", &val, via);
                        w.st.traces += 1;
                        w.outcome(got);
                        seen |= got;
                        if got & r.bits == 0 {
                            w.differ(Case::Value { schema: text.clone(), rule: "t".into(), cbor: val.hex.clone(), via }, r.bits, got, "an order of map entries");
                        }
                    }
                    if let (Some(_), V::Map(es)) = (&val.json, pv) {
                        let t = format!("{{{}}}", es.iter().map(|(k, v)| format!("{}:{}", to_json(k).unwrap(), to_json(v).unwrap())).collect::<Vec<_>>().join(","));
                        seen |= w.raw(&text, "t", Input::Json(&t), r.bits, &[]);
                    }
                    seen |= w.raw(&text, "t", Input::Cbor(&unhex(&val.hex)), r.bits, &[]);
                }
                if seen.count_ones() > 1 {
                    w.complain("the order of map entries changes the verdict", "one verdict", &show(seen), serde_json::json!({"schema": text, "data": diag(v)}));
                }
            }
        },
    ));

    // exact conversion of scalars
    let mut sc: Vec<V> = int_grid().into_iter().map(V::Int).collect();
    sc.extend(float_grid().into_iter().map(V::Float));
    sc.extend([-0.0, f64::from_bits(0x7ff8_0000_0000_0001), f64::from_bits(0xfff8_0000_0000_0000), f64::from_bits(1)].map(V::Float));
    for e in 0..64u32 {
        for d in [0u64, 1, u64::MAX] {
            sc.push(V::Float(f64::from_bits((1u64 << e).wrapping_add(d))));
        }
    }
    sc.extend(kinds());
    for c in (0..0x300).chain([0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff]) {
        sc.push(V::Text(char::from_u32(c).unwrap().to_string()));
    }
    sc.extend((0..=255u8).map(|x| V::Bytes(vec![x])));
    let nsc = sc.len();
    out.push(suite(
        "conversion of scalars",
        format!("{nsc} scalars (all powers of two and their neighbours over the range of CBOR integers, floats down to the bit, every byte, characters of every length) converted exactly from every representation, alone and inside an array and a map"),
        nsc,
        move |k, w| {
            let v = &sc[k];
            for v in [v.clone(), a(vec![v.clone()]), m(vec![(v.clone(), v.clone())]), a(vec![i(0), m(vec![(t("k"), v.clone())])])] {
                converts(&v, w);
                for kind in KINDS {
                    let text = format!("t = {kind}\n");
                    let s = cddl(&text);
                    let bits = Sem::new(&s).run("t", &v).bits;
                    for e in few_encs() {
                        w.raw(&text, "t", Input::Cbor(&encode(&v, &e)), bits, &[]);
                    }
                    if let Some(j) = json_text(&v) {
                        let b = if v_has_negzero(&v) { refsem::UNSPEC } else { bits };
                        w.raw(&text, "t", Input::Json(&j), b, &[]);
                    }
                }
            }
        },
    ));

    // containers of many alike things
    let alike: Vec<V> = vec![V::Null, V::Bool(true), V::Bool(false), i(0), i(255), i(-1), i(65536), f(0.0), f(1.5), t(""), t("a"), b(&[]), b(&[0]), a(vec![]), m(vec![]), a(vec![V::Null]), m(vec![(t("a"), i(1))])];
    let na = alike.len();
    let lens: Vec<usize> = (0..=if thorough { 70 } else { 34 }).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, if thorough { 1024 } else { 300 }]).collect();
    out.push(suite("many alike", format!("arrays and maps of 0 to 34 (70; and up to 1024) times each of {na} elements, or all but one of them, in 6 encodings and JSON"), na * lens.len(), move |k, w| {
        let (x, n) = (&alike[k % na], lens[k / na]);
        let same = vec![x.clone(); n];
        let mut but = same.clone();
        but.push(i(7));
        let mut first = vec![t("q")];
        first.extend(same.clone());
        let keyed = m((0..n as i128).map(|k| (t(&format!("k{k}")), x.clone())).collect());
        let ints = m((0..n as i128).map(|k| (i(k), x.clone())).collect());
        for v in [a(same.clone()), a(but), a(first), a(vec![a(same.clone()), a(vec![])]), m(vec![(t("a"), a(same))]), keyed, ints] {
            converts(&v, w);
            for text in [format!("t = [{n}*{n} any]\n"), format!("t = [{}* any]\n", n + 1), "t = []\n".into(), "t = {}\n".into(), format!("t = {{{n}*{n} any => any}}\n"), "t = bytes / tstr / int / null\n".into(), "t = [* null] / [* int] / {* tstr => null}\n".into(), format!("t = [tstr, {n}*{n} any] / {{a: [{n}*{n} any]}}\n")] {
                let s = cddl(&text);
                let bits = Sem::new(&s).run("t", &v).bits;
                for e in few_encs() {
                    w.raw(&text, "t", Input::Cbor(&encode(&v, &e)), bits, &[]);
                }
                if let Some(j) = json_text(&v) {
                    w.raw(&text, "t", Input::Json(&j), bits, &[]);
                }
            }
        }
    }));

    // which scalars are equal to which literals
    let lits: Vec<(&str, V)> = vec![
        ("0", i(0)), ("1", i(1)), ("-1", i(-1)), ("255", i(255)), ("256", i(256)), ("18446744073709551615", i(u64::MAX as i128)), ("9223372036854775807", i(i64::MAX as i128)), ("-9223372036854775808", i(i64::MIN as i128)),
        ("0.0", f(0.0)), ("1.0", f(1.0)), ("-1.0", f(-1.0)), ("255.0", f(255.0)), ("18446744073709551616.0", f(18446744073709551616.0)), ("9223372036854775808.0", f(9223372036854775808.0)), ("0.1", f(0.1)), ("1.5", f(1.5)),
        ("\"\"", t("")), ("\"1\"", t("1")), ("\"a\"", t("a")), ("\"true\"", t("true")), ("\"null\"", t("null")), ("\"0\"", t("0")), ("''", b(b"")), ("'1'", b(b"1")), ("'a'", b(b"a")), ("h'00'", b(&[0])), ("h'01'", b(&[1])), ("true", V::Bool(true)), ("false", V::Bool(false)), ("null", V::Null), ("[]", a(vec![])), ("{}", m(vec![])),
    ];
    let nl = lits.len();
    out.push(suite("distinctness", format!("all {nl} x {nl} pairs of literals and data, alone, as array elements, as map keys and as map values, in 6 encodings and JSON"), nl, move |k, w| {
        let (lt, lv) = &lits[k];
        for (_, v) in &lits {
            let eq = same(lv, v);
            for (schema, val) in [
                (format!("t = {lt}\n"), v.clone()),
                (format!("t = [* {lt}]\n"), a(vec![v.clone(), v.clone()])),
                (format!("t = {{{lt} => int}}\n"), m(vec![(v.clone(), i(1))])),
                (format!("t = {{k: {lt}}}\n"), m(vec![(t("k"), v.clone())])),
                (format!("t = {{* {lt} => {lt}}}\n"), m(vec![(v.clone(), v.clone())])),
            ] {
                let bits = if eq { refsem::OK } else { refsem::MIS | refsem::CUT };
                w.st.states += 1;
                for e in few_encs() {
                    w.raw(&schema, "t", Input::Cbor(&encode(&val, &e)), bits, &[]);
                }
                if let Some(j) = json_text(&val) {
                    w.raw(&schema, "t", Input::Json(&j), bits, &[]);
                }
            }
        }
    }));

    // all half-precision floats, and single-precision ones with few bits
    out.push(suite("half-precision floats", "all 65536 encodings 0xf9 x x", 256, move |k, w| {
        for lo in 0..256u32 {
            let h = (k as u32) << 8 | lo;
            let x = f16_to_f64(h as u16);
            let bytes = [0xf9, k as u8, lo as u8];
            for kind in ["float", "int"] {
                let text = format!("t = {kind}\n");
                w.raw(&text, "t", Input::Cbor(&bytes), if kind == "float" { refsem::OK } else { refsem::MIS }, &[]);
            }
            if x.is_finite() && (x != 0.0 || h == 0) {
                // the literal that spells it, and the next one
                w.st.states += 1;
                w.raw(&format!("t = {x:?}\n"), "t", Input::Cbor(&bytes), refsem::OK, &[]);
                let y = f64::from_bits(x.to_bits() + 1);
                w.raw(&format!("t = {y:?}\n"), "t", Input::Cbor(&bytes), refsem::MIS, &[]);
                let f32b = (x as f32).to_be_bytes();
                w.raw(&format!("t = {x:?}\n"), "t", Input::Cbor(&[0xfa, f32b[0], f32b[1], f32b[2], f32b[3]]), refsem::OK, &[]);
            }
        }
    }));

    // all short byte strings
    let len = if thorough { 3 } else { 2 };
    out.push(suite("short byte strings", format!("every byte string of up to {len} bytes as CBOR input, and of up to {} after 14 first parts, against two schemas", len - 1), 256, move |k, w| {
        let any = cddl("t = any\n");
        let any2 = cddl(ANY2);
        let (mut s1, mut s2) = (Sem::new(&any), Sem::new(&any2));
        let mut try_ = |bytes: &[u8], w: &mut Worker| {
            let (e, alts) = bytes_expect(&mut s1, "t", bytes, w);
            w.raw("t = any\n", "t", Input::Cbor(bytes), e, &alts);
            let (e, alts) = bytes_expect(&mut s2, "t", bytes, w);
            w.raw(ANY2, "t", Input::Cbor(bytes), e, &alts);
        };
        if k == 0 {
            try_(&[], w);
        }
        let pre: [&[u8]; 14] = [&[0x82], &[0xa1], &[0x9f], &[0xbf], &[0x5f], &[0x7f], &[0x18], &[0x62], &[0x82, 0x01], &[0xa1, 0x01], &[0x81, 0x81], &[0xf8], &[0xd8, 0x20], &[0x7f, 0x61]];
        let mut buf = vec![];
        fn rec(left: usize, buf: &mut Vec<u8>, f: &mut dyn FnMut(&[u8])) {
            f(buf);
            if left > 0 {
                for x in 0..=255 {
                    buf.push(x);
                    rec(left - 1, buf, f);
                    buf.pop();
                }
            }
        }
        buf.push(k as u8);
        rec(len - 1, &mut buf, &mut |b| {
            if !w.stopped() {
                try_(b, w)
            }
        });
        for p in pre {
            let mut buf = p.to_vec();
            buf.push(k as u8);
            rec(len - 2, &mut buf, &mut |b| {
                if !w.stopped() {
                    try_(b, w)
                }
            });
        }
    }));

    // damaged encodings
    let mut jobs = vec![];
    for d in corpus::DOCS {
        for v in d.values() {
            for e in [PLAIN, Enc { indef_arr: true, indef_map: true, chunk: 2, float_w: 0, len_w: 1, int_w: 1, ..PLAIN }] {
                jobs.push((d.schema(), d.text, d.start(), encode(&v, &e)));
            }
        }
    }
    let n = jobs.len();
    out.push(suite(
        "damaged encodings",
        "documents in two encodings: every truncation, every byte replaced by every other byte, every byte removed, every byte appended, every byte inserted at the item starts of a quarter of the positions",
        n,
        move |k, w| {
            let (s, text, start, enc) = &jobs[k];
            let mut sem = Sem::new(s);
            let mut go = |b: &[u8], w: &mut Worker| {
                let (e, alts) = bytes_expect(&mut sem, start, b, w);
                w.raw(text, start, Input::Cbor(b), e, &alts);
            };
            for n in 0..enc.len() {
                go(&enc[..n], w);
                let mut x = enc.clone();
                x.remove(n);
                go(&x, w);
                for y in 0..=255u8 {
                    if w.stopped() {
                        return;
                    }
                    if thorough || k % 2 == 0 || y % 8 == 7 {
                        let mut x = enc.clone();
                        x[n] = y;
                        go(&x, w);
                    }
                    if n % 4 == 0 && (thorough || y % 16 == 0) {
                        let mut x = enc.clone();
                        x.insert(n, y);
                        go(&x, w);
                    }
                }
            }
            for y in 0..=255u8 {
                let mut x = enc.clone();
                x.push(y);
                go(&x, w);
                x.push(0);
                go(&x, w);
            }
            let mut x = enc.clone();
            x.extend(enc);
            go(&x, w);
        },
    ));

    // what the data model does not have
    let odd = odd_items();
    let n = odd.len();
    out.push(suite("outside the data model", format!("{n} tagged, undefined and unassigned simple items, alone and at each place of a container, against schemas that would take anything or null there"), n, move |k, w| {
        let x = &odd[k];
        for (p, q) in AROUND {
            let mut b = p.to_vec();
            b.extend(x);
            b.extend(q);
            for text in ["t = any\n", "t = null / [* any] / {* any => any}\n", "t = null / [* t] / {* t => t} / 1 / tstr / bstr / float\n", "t = undefined / tdate / any\n", "t = {? a: any, * any => any} / [* any] / nil\n"] {
                let s = cddl(text);
                if refsem::read_errors(&s) != 0 {
                    continue;
                }
                let mut sem = Sem::new(&s);
                let (e, alts) = bytes_expect(&mut sem, "t", &b, w);
                w.raw(text, "t", Input::Cbor(&b), e, &alts);
            }
        }
        // as parsed values
        if let Ok(cv @ ciborium::Value::Tag(..)) = ciborium::from_reader::<ciborium::Value, _>(&x[..]) {
            for v in [cv.clone(), ciborium::Value::Array(vec![cv.clone()]), ciborium::Value::Map(vec![(cv.clone(), 1.into())]), ciborium::Value::Map(vec![(1.into(), cv)])] {
                w.st.traces += 1;
                let r = w.imp(|| IV::try_from(&v).is_ok());
                if !matches!(r, Ok(false)) {
                    w.complain("a tagged value is converted", "an error", "a value", serde_json::json!({"data": format!("{v:?}")}));
                }
            }
        }
    }));

    // JSON texts
    let toks: &'static [&'static str] = &["[", "]", "{", "}", ":", ",", "\"a\"", "\"\"", "1", "-", "0", ".5", "e2", "E-1", "true", "null", " ", "\n", "x"];
    let len = if thorough { 6 } else { 5 };
    out.push(suite("JSON token strings", format!("every string of up to {len} of {} JSON tokens as input, against two schemas", toks.len()), toks.len() * toks.len(), move |k, w| {
        let any = cddl("t = any\n");
        const JS: &str = "t = 1 / 0.5 / float / [* t] / {? a: t, * tstr => t} / \"a\" / null\n";
        let any2 = cddl(JS);
        let (mut s1, mut s2) = (Sem::new(&any), Sem::new(&any2));
        let mut go = |x: &str, w: &mut Worker| {
            let e = json_expect(&mut s1, "t", x, w);
            w.raw("t = any\n", "t", Input::Json(x), e, &[]);
            if e & refsem::OK != 0 {
                let e = json_expect(&mut s2, "t", x, w);
                w.raw(JS, "t", Input::Json(x), e, &[]);
            }
        };
        fn rec(toks: &[&str], left: usize, buf: &mut String, f: &mut dyn FnMut(&str)) {
            f(buf);
            if left > 0 {
                for x in toks {
                    let n = buf.len();
                    buf.push_str(x);
                    rec(toks, left - 1, buf, f);
                    buf.truncate(n);
                }
            }
        }
        if k == 0 {
            go("", w);
        }
        if k < toks.len() {
            go(toks[k], w);
        }
        let mut buf = format!("{}{}", toks[k / toks.len()], toks[k % toks.len()]);
        rec(toks, len - 2, &mut buf, &mut |x| {
            if !w.stopped() {
                go(x, w)
            }
        });
    }));

    // JSON strings and escapes
    let chars: &'static [&'static str] = &["\"", "\\", "/", "b", "f", "n", "r", "t", "u", "0", "d", "8", "D", "C", "\u{7f}", "\u{1f}", "\t", "é", "\u{10000}", " "];
    let len = if thorough { 5 } else { 4 };
    out.push(suite("JSON strings", format!("every string of up to {len} of {} characters between quotes; all \\u escapes, alone and as pairs from 16 x 16 surrogates and others", chars.len()), chars.len() + 256, move |k, w| {
        let any = cddl("t = any\n");
        let mut s1 = Sem::new(&any);
        let mut go = |x: &str, w: &mut Worker| {
            let e = json_expect(&mut s1, "t", x, w);
            w.raw("t = any\n", "t", Input::Json(x), e, &[]);
            // the literal that says the same
            if let Js::Item(V::Text(s)) = json(x) {
                if s.chars().all(|c| (' '..='\u{10fffd}').contains(&c)) {
                    let esc = s.replace('\\', "\\\\").replace('"', "\\\"");
                    if s.chars().all(|c| c != '\u{7f}') {
                        w.raw(&format!("t = \"{esc}\"\n"), "t", Input::Json(x), refsem::OK, &[]);
                    }
                    w.raw(&format!("t = tstr .size {}\n", s.len()), "t", Input::Json(x), refsem::OK, &[]);
                }
            }
        };
        fn rec(toks: &[&str], left: usize, buf: &mut String, f: &mut dyn FnMut(&str)) {
            f(buf);
            if left > 0 {
                for x in toks {
                    let n = buf.len();
                    buf.push_str(x);
                    rec(toks, left - 1, buf, f);
                    buf.truncate(n);
                }
            }
        }
        if k < chars.len() {
            let mut buf = chars[k].to_string();
            rec(chars, len - 1, &mut buf, &mut |x| {
                if !w.stopped() {
                    go(&format!("\"{x}\""), w)
                }
            });
        } else {
            let hi = k - chars.len();
            for lo in 0..256 {
                go(&format!("\"\\u{:04x}\"", hi << 8 | lo), w);
            }
            let ends = [0u32, 0x41, 0xd7ff, 0xd800, 0xd801, 0xd834, 0xdbff, 0xdc00, 0xdc01, 0xdd1e, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x20];
            go(&format!("\"\\u{:04X}\\u{:04x}\"", ends[hi / 16], ends[hi % 16]), w);
            go(&format!("\"\\u{:04X}x\\u{:04x}\"", ends[hi / 16], ends[hi % 16]), w);
        }
    }));

    // damaged JSON documents
    let mut jobs = vec![];
    for d in corpus::DOCS {
        for v in d.values() {
            if let Some(j) = json_text(&v) {
                jobs.push((d.schema(), d.text, d.start(), j));
            }
        }
    }
    let n = jobs.len();
    let repl: &'static [&'static str] = &["", "[", "]", "{", "}", ":", ",", "\"", "\\", "0", "9", "-", ".", "e", "+", "n", "x", " ", "\t", "\u{1}", "é"];
    out.push(suite("damaged JSON", format!("{n} documents as JSON text: every truncation, every character replaced by, preceded by or followed by each of {} others", repl.len()), n, move |k, w| {
        let (s, text, start, j) = &jobs[k];
        let mut sem = Sem::new(s);
        let mut go = |x: &str, w: &mut Worker| {
            let e = json_expect(&mut sem, start, x, w);
            w.raw(text, start, Input::Json(x), e, &[]);
        };
        for (p, c) in j.char_indices() {
            if w.stopped() {
                return;
            }
            go(&j[..p], w);
            for r in repl {
                go(&format!("{}{r}{}", &j[..p], &j[p + c.len_utf8()..]), w);
                go(&format!("{}{r}{}", &j[..p], &j[p..]), w);
            }
        }
        for r in repl {
            go(&format!("{j}{r}"), w);
            go(&format!("{j} {r}{r}"), w);
        }
        go(&format!("{j}{j}"), w);
        go(&format!("\u{feff}{j}"), w);
    }));
    out
}

fn distinct(v: &V) -> bool {
    match v {
        V::Arr(a) => a.iter().all(distinct),
        V::Map(m) => (0..m.len()).all(|x| distinct(&m[x].0) && distinct(&m[x].1) && (0..x).all(|y| !same(&m[x].0, &m[y].0))),
        _ => true,
    }
}

fn v_has_negzero(v: &V) -> bool {
    match v {
        V::Float(x) => *x == 0.0 && x.is_sign_negative(),
        V::Arr(a) => a.iter().any(v_has_negzero),
        V::Map(m) => m.iter().any(|(k, v)| v_has_negzero(k) || v_has_negzero(v)),
        _ => false,
    }
}

// ------------------------------------------------------------------ C23

use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::ivt::{RuleDef, RulesByName};
use cddl_cat::{ValidateError, ValidateResult};
use std::cell::Cell;
use std::sync::{Condvar, Mutex};

/// Schemas that give the same names different meanings, each with calls
/// (rule, data).
const PROGRAMS: &[(&str, &[(&str, &str)])] = &[
    ("t = [* a]\na = int / b\nb = {? k: t}\n", &[("t", "[1,{\"k\":[2]}]"), ("t", "[1,{\"k\":[\"x\"]}]"), ("a", "5"), ("b", "{}")]),
    ("t = {* tstr => a}\na = tstr\nb = a\n", &[("t", "{\"k\":\"v\",\"l\":\"w\"}"), ("t", "{\"k\":1}"), ("a", "5"), ("b", "\"s\"")]),
    ("t = a<int>\na<X> = [X, ? b<X>]\nb<X> = {v: X}\n", &[("t", "[1,{\"v\":2}]"), ("t", "[1,{\"v\":\"2\"}]"), ("a", "[1]"), ("t", "[1]")]),
    ("t = {? \"k\" ^ => a, * tstr => b}\na = int\nb = any\n", &[("t", "{\"k\":1,\"l\":null}"), ("t", "{\"k\":\"v\"}"), ("b", "5"), ("a", "{}")]),
    ("t = [a, ? b]\na = int\n", &[("t", "[1]"), ("t", "[1,2]"), ("a", "5"), ("b", "5")]),
    ("t = bytes .cbor a\na = [b, * a]\nb = int\n", &[("t", "{\"$c\":[1,[2],[3]]}"), ("t", "{\"$c\":[1,2]}"), ("a", "[1]"), ("t", "{\"$b\":\"ff\"}")]),
    ("t = a / [t, t]\na = null / b\nb = true\n", &[("t", "[null,[null,true]]"), ("t", "[null,[null,1]]"), ("a", "true"), ("b", "null")]),
    ("t = a / int\na = b\nb = a\n", &[("t", "1"), ("a", "\"x\""), ("b", "[1]"), ("t", "[1]")]),
    ("t = [~a, b]\na = [int, ? int]\nb = (tstr, bool)\n", &[("t", "[1,2,\"s\",true]"), ("t", "[1,2,\"s\",3]"), ("a", "[1]"), ("b", "5")]),
    ("t = [a..b, tstr .regexp \"a+\", uint .size a]\na = 1\nb = 3\n", &[("t", "[2,\"aa\",255]"), ("t", "[4,\"aa\",255]"), ("a", "1"), ("t", "[2,\"aa\",256]")]),
    ("t = {a: &b, ? c: [* t]}\nb = (x: 1, y: a)\na = 2\n", &[("t", "{\"a\":2,\"c\":[{\"a\":1}]}"), ("t", "{\"a\":1,\"c\":[{\"a\":3}]}"), ("a", "2"), ("c", "1")]),
    ("t = [2*3 a, (b // a, a, a)]\na = int .lt 10 / tstr\nb = 5\n", &[("t", "[1,2,3,4,5,6]"), ("t", "[1,2,\"x\",5]"), ("t", "[1,10]"), ("b", "5")]),
];

struct Prog {
    text: &'static str,
    calls: Vec<(&'static str, Val, Bits)>,
    /// what reading it gave, and what each call gave on its own
    rules: RulesByName,
    alone: Vec<String>,
}

fn outcome_text(r: &ValidateResult) -> String {
    format!("{r:?}")
}

fn call_rules(ctx: &dyn LookupContext, rules: &RulesByName, rule: &str, v: &Val, via: Via) -> ValidateResult {
    let def: &RuleDef = match rules.get(rule) {
        None => return Err(ValidateError::MissingRule(rule.into())),
        Some(d) => d,
    };
    match via {
        Via::Cbor => cddl_cat::validate_cbor(def, &v.cbor, ctx),
        Via::Json => cddl_cat::validate_json(def, v.json.as_ref().unwrap(), ctx),
    }
}

fn programs() -> Vec<Prog> {
    // long chains of names: deep, but not too deep
    let mut chain = String::from("t = [c0, ? d0]\n");
    for k in 0..28 {
        chain += &format!("c{k} = c{}\nd{k} = d{}\n", k + 1, k + 1);
    }
    chain += "c28 = int\nd28 = tstr\n";
    let chain: &'static str = chain.leak();
    let calls: &'static [(&'static str, &'static str)] = &[("t", "[1]"), ("t", "[1,\"x\"]"), ("c0", "\"x\""), ("d3", "\"x\"")];
    PROGRAMS
        .iter()
        .copied()
        .chain([(chain, calls)])
        .map(|(text, calls)| {
            let s = cddl(text);
            let calls: Vec<(&str, Val, Bits)> = calls
                .iter()
                .map(|(r, d)| {
                    let v = corpus::from_json(&serde_json::from_str(d).unwrap());
                    let bits = Sem::new(&s).run(r, &v).bits;
                    (*r, Val::new(v), bits)
                })
                .collect();
            let rules = guarded(|| cddl_cat::flatten::flatten_from_str(text)).ok().and_then(|r| r.ok()).unwrap_or_default();
            let alone = calls
                .iter()
                .map(|(r, v, _)| {
                    guarded(|| {
                        let rules = cddl_cat::flatten::flatten_from_str(text)?;
                        let ctx = BasicContext::new(rules);
                        call_rules(&ctx, &ctx.rules, r, v, Via::Cbor)
                    })
                    .map_or("panic".into(), |r| outcome_text(&r))
                })
                .collect();
            Prog { text, calls, rules, alone }
        })
        .collect()
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Load(usize, usize),
    Call(usize, usize, Via),
    One(usize, usize),
}

impl Prog {
    fn judge(&self, j: usize, r: &Result<ValidateResult, String>, w: &mut Worker, history: &dyn Fn() -> serde_json::Value) -> bool {
        let (rule, v, bits) = &self.calls[j];
        let (got, text) = match r {
            Ok(r) => (class(r), outcome_text(r)),
            Err(m) => (PANIC, m.clone()),
        };
        w.st.traces += 1;
        w.outcome(got);
        let bad = if bits & refsem::UNSPEC != 0 { got == PANIC } else { got & bits == 0 };
        if bad || text != self.alone[j] {
            w.complain(
                "the result of a call depends on other calls",
                &format!("{} ({})", show(*bits), self.alone[j]),
                &format!("{} ({text})", show(got)),
                serde_json::json!({"schema": self.text, "rule": rule, "data": diag(&v.v), "history": history()}),
            );
            return false;
        }
        true
    }
}

fn run_history(progs: &[Prog], ops: &[Op], w: &mut Worker) {
    let mut slots: [Option<(usize, BasicContext)>; 2] = [None, None];
    w.st.schemas += 1;
    for (n, op) in ops.iter().enumerate() {
        w.st.steps += 1;
        let hist = || serde_json::json!(ops[..=n].iter().map(|o| format!("{o:?}")).collect::<Vec<_>>());
        match *op {
            Op::Load(s, k) => {
                slots[s] = None;
                let p = &progs[k];
                w.publish(&["R\n", p.text]);
                match w.imp(|| cddl_cat::flatten::flatten_from_str(p.text)) {
                    Ok(Ok(r)) => {
                        w.st.traces += 1;
                        if r != p.rules {
                            w.complain("reading the same schema again gives other rules", "equal rules", "different", serde_json::json!({"schema": p.text, "history": hist()}));
                            return;
                        }
                        slots[s] = Some((k, BasicContext::new(r)));
                    }
                    _ => {
                        w.complain("reading a schema", "accept", "error", serde_json::json!({"schema": p.text, "history": hist()}));
                        return;
                    }
                }
            }
            Op::Call(s, j, via) => {
                let Some((k, ctx)) = &slots[s] else { continue };
                let p = &progs[*k];
                let (rule, v, _) = &p.calls[j];
                if via == Via::Json && v.json.is_none() {
                    continue;
                }
                w.publish(&["V\n", rule, "\n", &v.hex, "\n", p.text]);
                let r = w.imp(|| call_rules(ctx, &ctx.rules, rule, v, via));
                if !p.judge(j, &r, w, &hist) {
                    return;
                }
            }
            Op::One(k, j) => {
                let p = &progs[k];
                let (rule, v, _) = &p.calls[j];
                let bytes = unhex(&v.hex);
                w.publish(&["B\n", rule, "\n", &v.hex, "\n", p.text]);
                let r = w.imp(|| cddl_cat::validate_cbor_bytes(rule, p.text, &bytes));
                if !p.judge(j, &r, w, &hist) {
                    return;
                }
                if let Some(jv) = &v.json {
                    let t = jv.to_string();
                    let r = w.imp(|| cddl_cat::validate_json_str(rule, p.text, &t));
                    if !p.judge(j, &r, w, &hist) {
                        return;
                    }
                }
            }
        }
    }
    for (k, ctx) in slots.iter().flatten() {
        if ctx.rules != progs[*k].rules {
            w.complain("validating changed the rules", "the rules as read", "others", serde_json::json!({"schema": progs[*k].text, "history": ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>()}));
        }
    }
    for op in ops {
        if let Op::Call(..) | Op::One(..) = op {
            w.st.states += 1;
        }
    }
}

// A context that calls back at each lookup.
struct Hooked<'a, F: Fn(usize, &str)> {
    rules: &'a BasicContext,
    n: Cell<usize>,
    f: F,
}
impl<F: Fn(usize, &str)> LookupContext for Hooked<'_, F> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        let n = self.n.get();
        self.n.set(n + 1);
        (self.f)(n, name);
        self.rules.lookup_rule(name)
    }
}

// ---- two threads under a scheduler that switches at lookups

struct SchedState {
    turn: usize,
    done: [bool; 2],
    script: Vec<bool>,
    /// the decisions taken: was switching possible, was it done
    taken: Vec<(bool, bool)>,
}
struct Sched {
    m: Mutex<SchedState>,
    cv: Condvar,
}
const STUCK_S: u64 = 20;

impl Sched {
    fn wait(&self, me: usize) -> bool {
        let mut g = self.m.lock().unwrap();
        let t = std::time::Instant::now();
        while g.turn != me {
            let (h, r) = self.cv.wait_timeout(g, std::time::Duration::from_secs(STUCK_S)).unwrap();
            g = h;
            if r.timed_out() && t.elapsed().as_secs() >= STUCK_S {
                return false;
            }
        }
        true
    }
    fn point(&self, me: usize) {
        let switch = {
            let mut g = self.m.lock().unwrap();
            let can = !g.done[1 - me];
            let n = g.taken.len();
            let sw = can && g.script.get(n).copied().unwrap_or(false);
            g.taken.push((can, sw));
            if sw {
                g.turn = 1 - me;
                self.cv.notify_all();
            }
            sw
        };
        if switch {
            self.wait(me);
        }
    }
    fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.done[me] = true;
        g.turn = 1 - me;
        self.cv.notify_all();
    }
}

struct Switching<'a> {
    rules: &'a BasicContext,
    sched: &'a Sched,
    me: usize,
}
impl LookupContext for Switching<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        self.sched.point(self.me);
        self.rules.lookup_rule(name)
    }
}

struct Across<T>(T);
unsafe impl<T> Sync for Across<T> {}
unsafe impl<T> Send for Across<T> {}
impl<T> Across<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

mod probe {
    use std::marker::PhantomData;
    pub struct Probe<T>(pub PhantomData<T>);
    pub trait No {
        fn shareable(&self) -> bool {
            false
        }
    }
    impl<T> No for Probe<T> {}
    impl<T: Send + Sync> Probe<T> {
        pub fn shareable(&self) -> bool {
            true
        }
    }
}

/// One schedule of two validations; the decisions taken, and the results.
#[allow(clippy::type_complexity)]
fn scheduled(ctxs: [&BasicContext; 2], calls: [(&str, &Val); 2], script: &[bool]) -> (Vec<(bool, bool)>, [Result<ValidateResult, String>; 2]) {
    let sched = Sched { m: Mutex::new(SchedState { turn: 0, done: [false; 2], script: script.to_vec(), taken: vec![] }), cv: Condvar::new() };
    let sched = &sched;
    let run = move |me: usize, ctx: &BasicContext, call: (&str, &Val)| {
        sched.wait(me);
        let r = guarded(|| {
            let c = Switching { rules: ctx, sched, me };
            call_rules(&c, &ctx.rules, call.0, call.1, Via::Cbor)
        });
        sched.finish(me);
        r
    };
    let other = Across((ctxs[1], calls[1]));
    let (a, b) = std::thread::scope(|s| {
        let h = s.spawn(move || {
            let o = other.get();
            Across(run(1, o.0, o.1))
        });
        let a = run(0, ctxs[0], calls[0]);
        (a, h.join().unwrap().0)
    });
    let taken = sched.m.lock().unwrap().taken.clone();
    (taken, [a, b])
}

const HOW: [&str; 3] = ["one call, JSON", "one call, CBOR", "step by step"];

/// Calls whose schema texts and data lie in the same memory, one after
/// another, equally long.
fn one_buffer(thorough: bool) -> Suite<'static> {
    let raw: Vec<(String, u8)> = ["t = int", "t = tstr", "t = a\na = int", "t = a\na = tstr", "t = [* a]\na = int", "a = int", "t = null / a\na = 1", "t = (", "t = p<int>\np<A> = A", "t = a<int>\na<A> = [A]", "t = tstr .foo 1"]
        .iter()
        .flat_map(|s| [(s.to_string(), 0), (s.to_string(), 1)])
        .collect();
    // short ones, and ones with a long common beginning and end
    let pad = |s: &str, kind: u8| -> String {
        if kind == 0 {
            format!("{s}\n{}", " ".repeat(30 - s.len()))
        } else {
            let c = format!("unused = [{}]\n", "0, ".repeat(24));
            format!("{c}{s}\n;{}\nlast = any\n", "-".repeat(30 - s.len()))
        }
    };
    let rules = ["t", "a"];
    let data: [(&str, u8, V); 5] = [("1   ", 0x01, i(1)), ("\"\"  ", 0x60, t("")), ("[]  ", 0x80, a(vec![])), ("null", 0xf6, V::Null), ("2   ", 2, i(2))];
    let n = raw.len();
    let table: Vec<(String, Vec<Bits>)> = raw
        .iter()
        .map(|(s, kind)| {
            let text = pad(s, *kind);
            let parsed = crate::refparse::parse(&text);
            let sch = parsed.ok().map(|r| Schema(r.into_iter().map(|r| r.rule).collect()));
            let read = sch.as_ref().map_or(refsem::PARSE, refsem::read_errors);
            let mut bits = vec![];
            for r in rules {
                for (_, _, v) in &data {
                    bits.push(if read != 0 {
                        read
                    } else if !sch.as_ref().unwrap().0.iter().any(|x| x.name == r) {
                        refsem::MISSING
                    } else {
                        Sem::new(sch.as_ref().unwrap()).run(r, v).bits
                    });
                }
            }
            (text, bits)
        })
        .collect();
    let per = rules.len() * data.len() * 3;
    let total = n * per;
    suite("one buffer", format!("every sequence of two calls ({n} schemas of two lengths, {} rules, {} data; one call as JSON or CBOR, or step by step), and of three{}, the texts and the data lying in the same memory in turn", rules.len(), data.len(), if thorough { "" } else { " with the same rule, half of them" }), total, move |first, w| {
        let mut text = String::with_capacity(1000);
        let mut json = String::with_capacity(8);
        let mut cbor = vec![0u8; 1];
        let go = |op: usize, text: &mut String, json: &mut String, cbor: &mut Vec<u8>, w: &mut Worker| -> (Bits, Bits) {
            let (k, r, d, how) = (op / per, op % rules.len(), op / rules.len() % data.len(), op / rules.len() / data.len() % 3);
            text.clear();
            text.push_str(&table[k].0);
            json.clear();
            json.push_str(data[d].0);
            cbor[0] = data[d].1;
            let rule = rules[r];
            let got = match how {
                0 => w.imp(|| cddl_cat::validate_json_str(rule, text, json)),
                1 => w.imp(|| cddl_cat::validate_cbor_bytes(rule, text, cbor)),
                _ => w.imp(|| {
                    let ctx = BasicContext::new(cddl_cat::flatten::flatten_from_str(text)?);
                    let v: serde_json::Value = serde_json::from_str(json).unwrap();
                    let def = ctx.lookup_rule(rule)?;
                    cddl_cat::validate_json(def, &v, &ctx)
                }),
            };
            w.st.traces += 1;
            w.st.steps += 1;
            (got.map_or(PANIC, |r| class(&r)), table[k].1[r * data.len() + d])
        };
        let mut seqs = vec![];
        for second in 0..total {
            seqs.push(vec![first, second]);
        }
        // three calls; the first one again at the end, or another
        let same = |a: usize, b: usize| a % rules.len() == b % rules.len();
        for second in (0..total).filter(|x| thorough || same(*x, first) && (x + first) % 4 < 2) {
            seqs.push(vec![first, second, first]);
            if thorough {
                for third in (0..total).filter(|x| same(*x, first) && x / per % 2 == first / per % 2 && x / rules.len() % data.len() < 2) {
                    seqs.push(vec![first, second, third]);
                }
            }
        }
        for s in seqs {
            if w.stopped() {
                return;
            }
            w.st.states += 1;
            for (n, op) in s.iter().enumerate() {
                let (got, e) = go(*op, &mut text, &mut json, &mut cbor, w);
                w.outcome(got);
                if got & e == 0 {
                    let calls: Vec<_> = s[..=n].iter().map(|op| serde_json::json!({"schema": table[op / per].0, "rule": rules[op % rules.len()], "data": data[op / rules.len() % data.len()].0, "how": HOW[op / rules.len() / data.len() % 3]})).collect();
                    w.complain("the result of a call depends on other calls", &show(e), &show(got), serde_json::json!({"calls": calls}));
                    return;
                }
            }
        }
    })
}

pub fn c23(thorough: bool) -> Vec<Suite<'static>> {
    let progs = Arc::new(programs());
    let np = progs.len();
    let mut out = vec![];

    // all short histories over two slots and two schemas
    let depth = if thorough { 6 } else { 5 };
    let pairs: Vec<(usize, usize)> = (0..np).flat_map(|a| (0..np).filter(move |b| a != *b).map(move |b| (a, b))).collect();
    let p = progs.clone();
    let items = pairs.len();
    out.push(suite(
        "histories",
        format!("every sequence of {depth} operations (load a schema into one of two slots, replacing what was there; validate one of 2 values with a slot; one-shot calls) for every ordered pair of {np} schemas, after loading the first"),
        items,
        move |k, w| {
            let (a, b) = pairs[k];
            let ops = [
                Op::Load(0, a), Op::Load(0, b), Op::Load(1, b), Op::Call(0, 0, Via::Cbor), Op::Call(0, 1, Via::Cbor), Op::Call(1, 0, Via::Cbor), Op::Call(1, 1, Via::Cbor), Op::One(a, 1), Op::One(b, 0),
            ];
            let mut seq = vec![Op::Load(0, a)];
            fn rec(ops: &[Op], left: usize, seq: &mut Vec<Op>, f: &mut dyn FnMut(&[Op])) {
                if left == 0 {
                    f(seq);
                    return;
                }
                for o in ops {
                    // loads that nothing uses say nothing
                    if left == 1 && matches!(o, Op::Load(..)) {
                        continue;
                    }
                    seq.push(*o);
                    rec(ops, left - 1, seq, f);
                    seq.pop();
                }
            }
            // in the quick tier the second schema goes through all, too
            // (the last one is long: reading it takes its time)
            let d = if a + 1 == np || b + 1 == np { 3 } else if thorough || (a + b) % 4 == 0 { depth } else { depth - 1 };
            rec(&ops, d, &mut seq, &mut |s| {
                if !w.stopped() {
                    run_history(&p, s, w)
                }
            });
            w.sample(|| serde_json::json!({"schemas": [p[a].text, p[b].text], "operations": ops.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>()}));
        },
    ));

    // all sequences of calls on one context
    let p = progs.clone();
    let len = if thorough { 6 } else { 5 };
    out.push(suite("calls on one context", format!("every sequence of {len} calls (4 rule and value pairs, parsed CBOR or JSON) on one context, for {np} schemas"), np * 8, move |k, w| {
        let (k, first) = (k / 8, k % 8);
        let mk = |x: usize| Op::Call(0, x / 2, if x % 2 == 0 { Via::Cbor } else { Via::Json });
        let mut n = vec![0usize; len - 1];
        loop {
            let mut ops = vec![Op::Load(0, k), mk(first)];
            ops.extend(n.iter().map(|x| mk(*x)));
            run_history(&p, &ops, w);
            let mut i = 0;
            while i < n.len() {
                n[i] += 1;
                if n[i] < 8 {
                    break;
                }
                n[i] = 0;
                i += 1;
            }
            if i == n.len() || w.stopped() {
                break;
            }
        }
    }));

    // long repetitions
    let p = progs.clone();
    let reps = if thorough { 5000 } else { 400 };
    out.push(suite("repetitions", format!("every cycle of one or two calls on one context, {reps} times round, followed by every call of the schema and of the next schema; one-shot calls, too"), np, move |k, w| {
        for x in 0..4 {
            for y in 0..4 {
                let next = (k + 1) % p.len();
                let mut ops = vec![Op::Load(0, k), Op::Load(1, next)];
                for r in 0..reps {
                    ops.push(Op::Call(0, x, Via::Cbor));
                    ops.push(Op::Call(0, y, if r % 2 == 0 { Via::Cbor } else { Via::Json }));
                    if r % 4 == 0 {
                        ops.push(Op::One(k, x));
                    }
                }
                for j in 0..4 {
                    ops.extend([Op::Call(0, j, Via::Cbor), Op::Call(1, j, Via::Json), Op::One(next, j)]);
                }
                run_history(&p, &ops, w);
            }
        }
    }));

    // calls from within calls
    let p = progs.clone();
    out.push(suite("nested calls", "every pair of calls of every pair of schemas, the second made from within each rule lookup of the first (through the caller's own context); for pairs of the same schema with the same context, also a third within each lookup of the second", np * np, move |k, w| {
        let (a, b) = (k / p.len(), k % p.len());
        let ca = BasicContext::new(p[a].rules.clone());
        let cb = BasicContext::new(p[b].rules.clone());
        for (x, y) in (0..4).flat_map(|x| (0..4).map(move |y| (x, y))) {
            let mut at = 0;
            loop {
                let inner: Cell<Option<Result<ValidateResult, String>>> = Cell::new(None);
                let third: Cell<Option<Result<ValidateResult, String>>> = Cell::new(None);
                let (ra, va, _) = &p[a].calls[x];
                let (rb, vb, _) = &p[b].calls[y];
                let ctx = Hooked {
                    rules: &ca,
                    n: Cell::new(0),
                    f: |n: usize, _: &str| {
                        if n == at {
                            let c2 = Hooked {
                                rules: &cb,
                                n: Cell::new(0),
                                f: |_: usize, _: &str| {
                                    if a == b {
                                        let r = guarded(|| call_rules(&cb, &cb.rules, rb, vb, Via::Cbor));
                                        third.set(Some(r));
                                    }
                                },
                            };
                            inner.set(Some(guarded(|| call_rules(&c2, &cb.rules, rb, vb, Via::Cbor))));
                        }
                    },
                };
                w.publish(&["V\n", ra, "\n", &va.hex, "\n", p[a].text]);
                let r = w.imp(|| call_rules(&ctx, &ca.rules, ra, va, Via::Cbor));
                let hist = || serde_json::json!({"outer": [p[a].text, ra, va.hex], "inner": [p[b].text, rb, vb.hex], "at lookup": at});
                w.st.states += 1;
                w.st.steps += ctx.n.get() as u64;
                p[a].judge(x, &r, w, &hist);
                let made = inner.take();
                if let Some(r) = &made {
                    p[b].judge(y, r, w, &hist);
                }
                if let Some(r) = third.take() {
                    p[b].judge(y, &r, w, &hist);
                }
                if made.is_none() || at > 400 || w.stopped() {
                    break;
                }
                at += 1;
            }
        }
    }));

    // two threads
    let p = progs.clone();
    let bound = if thorough { 4 } else { 2 };
    out.push(suite(
        "two threads",
        format!("every pair of calls on one shared context, and every pair of schemas on two contexts, on two threads, under all schedules with at most {bound} preemptions at rule lookups (at most 4000 decisions deep)"),
        np * np,
        move |k, w| {
            let (a, b) = (k / p.len(), k % p.len());
            if k == 0 {
                #[allow(unused_imports)]
                use probe::No;
                let ok = probe::Probe::<BasicContext>(std::marker::PhantomData).shareable();
                w.st.traces += 1;
                if !ok {
                    w.complain("parsed schemas cannot be shared between threads", "Send and Sync", "not", serde_json::json!({"type": "BasicContext"}));
                }
            }
            let ca = BasicContext::new(p[a].rules.clone());
            let cb_;
            let cb = if a == b {
                &ca
            } else {
                cb_ = BasicContext::new(p[b].rules.clone());
                &cb_
            };
            for (x, y) in (0..4).flat_map(|x| (0..4).map(move |y| (x, y))) {
                if a != b && !thorough && (x + y) % 2 == 1 {
                    continue;
                }
                let (ra, va, _) = &p[a].calls[x];
                let (rb, vb, _) = &p[b].calls[y];
                let mut script: Vec<bool> = vec![];
                loop {
                    if w.stopped() {
                        return;
                    }
                    let (taken, rs) = scheduled([&ca, cb], [(ra, va), (rb, vb)], &script);
                    w.st.states += 1;
                    w.st.steps += taken.len() as u64;
                    let hist = || serde_json::json!({"first": [p[a].text, ra, va.hex], "second": [p[b].text, rb, vb.hex], "switches at lookups": taken.iter().map(|t| t.1).collect::<Vec<_>>()});
                    p[a].judge(x, &rs[0], w, &hist);
                    p[b].judge(y, &rs[1], w, &hist);
                    // next schedule
                    let mut next = None;
                    let n = taken.len().min(60);
                    for i in (0..n).rev() {
                        let before = taken[..i].iter().filter(|t| t.1).count();
                        if taken[i].0 && !taken[i].1 && before < bound {
                            let mut s: Vec<bool> = taken[..i].iter().map(|t| t.1).collect();
                            s.push(true);
                            next = Some(s);
                            break;
                        }
                    }
                    match next {
                        Some(s) => script = s,
                        None => break,
                    }
                }
            }
            if ca.rules != p[a].rules || cb.rules != p[b].rules {
                w.complain("validating changed the rules", "the rules as read", "others", serde_json::json!({"schemas": [p[a].text, p[b].text]}));
            }
        },
    ));

    out.push(one_buffer(thorough));
    out.push(alike(thorough));

    // which error comes of what: one call and step by step
    let schemas: Vec<(&str, Bits)> = vec![
        ("t = int\n", 0), ("t = int\nu = [t]\nint2 = t\n", 0), ("t<A> = A\n", 0), ("t = (int, tstr)\n", 0), ("t = $x\n$x = int\n", 0), ("T = int\n", 0), ("t = u\n", 0), ("a = t\n", 0), ("t-1.x = int\nt = tstr\n", 0),
        ("t = \n", refsem::PARSE), ("", refsem::PARSE), ("t", refsem::PARSE), ("t = int\n;", refsem::OK | refsem::PARSE), ("t = int .nonsense 1\n", refsem::SCHEMA), ("t = ~u\nu = 1\n", 0), ("t = int\nb = 1 .size 1\n", refsem::SCHEMA | refsem::OK),
    ];
    let names = ["t", "T", "u", "int", "any", "", " t", "t ", "t\n", "t<A>", "A", "$x", "x", "t-1.x", "t-1", "tt", "é", "a", "\u{0}", "rule", "int2", "t = int"];
    let datas: Vec<(&str, Option<V>)> = vec![("01", Some(i(1))), ("6161", Some(t("a"))), ("82016161", Some(a(vec![i(1), t("a")]))), ("820161", None), ("8101", Some(a(vec![i(1)]))), ("", None), ("0101", None), ("ff", None), ("81", None)];
    let ns = schemas.len();
    out.push(suite("one call and step by step", format!("{ns} schemas (good and faulty) x {} rule names x {} inputs (good, malformed), as CBOR and as JSON", names.len(), datas.len()), ns, move |k, w| {
        let (text, _) = schemas[k];
        let parsed = crate::refparse::parse(text);
        let sch = parsed.ok().map(|r| Schema(r.into_iter().map(|r| r.rule).collect()));
        let read = w.imp(|| cddl_cat::flatten::flatten_from_str(text));
        for name in names {
            for (h, v) in &datas {
                let bytes = unhex(&h.replace(' ', ""));
                // the reference
                let read_bits = sch.as_ref().map_or(refsem::PARSE, refsem::read_errors);
                let mut e: Bits = 0;
                if read_bits != 0 {
                    e |= read_bits;
                } else {
                    let s = sch.as_ref().unwrap();
                    if !s.0.iter().any(|r| r.name == name) {
                        e |= refsem::MISSING;
                    }
                    match v {
                        None => e |= refsem::VALUE,
                        Some(v) if e == 0 => e |= Sem::new(s).run(name, v).bits,
                        _ => {}
                    }
                }
                if read_bits != 0 && v.is_none() {
                    e |= refsem::VALUE;
                }
                w.st.states += 1;
                w.st.steps += 1;
                let one = w.raw(text, name, Input::Cbor(&bytes), e, &[]);
                let mut results = vec![("one call", one)];
                if let Some(v) = v {
                    let val = Val::new(v.clone());
                    if let Ok(Ok(rules)) = &read {
                        let ctx = BasicContext::new(rules.clone());
                        for via in [Via::Cbor, Via::Json] {
                            let r = w.imp(|| call_rules(&ctx, &ctx.rules, name, &val, via));
                            w.st.traces += 1;
                            results.push(("step by step", r.map_or(PANIC, |r| class(&r))));
                        }
                    } else if let Ok(Err(e)) = &read {
                        results.push(("step by step", class_e(e)));
                    }
                    let j = to_json(v).unwrap().to_string();
                    results.push(("one call, JSON", w.raw(text, name, Input::Json(&j), e, &[])));
                    for (how, r) in &results {
                        if *r != one {
                            w.complain("one call and step by step differ", &show(one), &format!("{} {how}", show(*r)), serde_json::json!({"schema": text, "rule": name, "data": h}));
                        }
                    }
                } else {
                    for bad in ["", "1 1", "[1", "{\"a\":}", "nul", "1,", "'a'"] {
                        w.raw(text, name, Input::Json(bad), e, &[]);
                    }
                }
            }
        }
    }));
    out
}

/// Schemas, rule names and data that a weak key would not tell apart.
fn alike(thorough: bool) -> Suite<'static> {
    // families of texts: the same length, and mostly the same characters
    let perms = |parts: &[&str]| -> Vec<Vec<String>> {
        fn rec(left: &mut Vec<String>, got: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
            if left.is_empty() {
                out.push(got.clone());
            }
            for k in 0..left.len() {
                let x = left.remove(k);
                got.push(x.clone());
                rec(left, got, out);
                got.pop();
                left.insert(k, x);
            }
        }
        let mut out = vec![];
        rec(&mut parts.iter().map(|s| s.to_string()).collect(), &mut vec![], &mut out);
        out
    };
    let mut fam: Vec<(String, Vec<String>, Vec<V>)> = vec![];
    let four = [(i(1), "int"), (t("a"), "tstr"), (V::Bool(true), "bool"), (V::Null, "null")];
    let orders: Vec<Vec<V>> = perms(&["0", "1", "2", "3"]).iter().map(|p| p.iter().map(|k| four[k.parse::<usize>().unwrap()].0.clone()).collect()).collect();
    fam.push(("elements in another order".into(), perms(&["int", "tstr", "bool", "null"]).iter().map(|p| format!("t = [{}]\n", p.join(", "))).collect(), orders.iter().map(|o| a(o.clone())).collect()));
    fam.push(("values in another order".into(), perms(&["int", "tstr", "bool"]).iter().map(|p| format!("t = {{a: {}, b: {}, c: {}}}\n", p[0], p[1], p[2])).collect(), perms(&["0", "1", "2"]).iter().map(|p| m("abc".chars().zip(p).map(|(c, k)| (t(&c.to_string()), four[k.parse::<usize>().unwrap()].0.clone())).collect())).collect()));
    fam.push(("rules in another order".into(), perms(&["int", "tstr", "bool"]).iter().map(|p| format!("t = a\na = {}\nb = {}\nc = {}\n", p[0], p[1], p[2])).collect(), four.iter().map(|x| x.0.clone()).collect()));
    fam.push(("letters in another order".into(), perms(&["a", "b", "c", "d"]).iter().map(|p| format!("t = \"{}\"\n", p.concat())).collect(), perms(&["a", "b", "c", "d"]).iter().map(|p| t(&p.concat())).collect()));
    fam.push(("digits in another order".into(), perms(&["1", "2", "3", "4"]).iter().map(|p| format!("t = {}\n", p.concat())).collect(), perms(&["1", "2", "3", "4"]).iter().map(|p| i(p.concat().parse().unwrap())).collect()));
    fam.push(("bounds in another order".into(), perms(&["1", "3", "5", "7"]).iter().map(|p| format!("t = {}..{} / {}..{}\n", p[0], p[1], p[2], p[3])).collect(), (0..9).map(i).collect()));
    fam.push(("names in another order".into(), perms(&["a", "b", "c"]).iter().map(|p| { let n = p.concat(); format!("t = abc\n{n} = int\n{} = tstr\n", if n == "abc" { "bac" } else { "abc" }) }).collect(), vec![i(1), t("a")]));
    fam.push(("sums alike".into(), ["\"ad\"", "\"bc\"", "\"cb\"", "\"da\"", "\"eb\"", "\"Aa\"", "\"BB\"", "'ad'", "'bc'"].iter().map(|x| format!("t = {x}\n")).collect(), ["ad", "bc", "cb", "da", "eb", "Aa", "BB"].iter().flat_map(|x| [t(x), b(x.as_bytes())]).collect()));
    fam.push(("kinds alike".into(), ["[int]", "[1*1 int]", "[(int)]", "[? int]", "[* int]", "[+ int]", "{* int => int}", "{+ int => int}", "int", "uint", "nint"].iter().map(|x| format!("t = {x}\n")).collect(), vec![a(vec![]), a(vec![i(1)]), a(vec![i(1), i(1)]), m(vec![]), m(vec![(i(1), i(1))]), i(1), i(-1)]));
    // one character apart, somewhere in a long text
    for len in [0usize, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 20000] {
        for before in [false, true] {
            let filler = |c: &str| if len == 0 { String::new() } else { format!("; {}\n", c.repeat(len)) };
            let rules: String = (0..len / 16).map(|k| format!("unused{k:04} = 1\n")).collect();
            let mk = |body: &str, f: &str| if before { format!("u = 1\n{f}t = {body}\n") } else { format!("t = {body}\n{f}u = 1\n") };
            let mut texts: Vec<String> = vec![];
            for body in ["int", "1.5", "nil", "\"1\""] {
                texts.push(mk(body, &filler("x")));
                texts.push(mk(body, &filler("y")));
                texts.push(mk(body, &rules));
            }
            fam.push((format!("{len} characters {} the difference", if before { "before" } else { "after" }), texts, vec![i(1), f(1.5), V::Null, t("1")]));
        }
    }
    // the same schema and data alike
    for n in [1usize, 2, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 255, 256, 1000, 4096] {
        let mut vs = vec![];
        for p in [0, n / 2, n - 1] {
            for c in ["a", "b", "c", "\u{0}"] {
                let mut x = "a".repeat(n);
                x.replace_range(p..p + 1, c);
                vs.push(t(&x));
                vs.push(b(x.as_bytes()));
                vs.push(a(x.chars().map(|c| t(&c.to_string())).collect()));
            }
        }
        vs.sort_by_key(diag);
        vs.dedup_by_key(|v| diag(v));
        let x = "a".repeat(n);
        fam.push((format!("data of {n} characters"), vec![format!("t = \"{x}\" / '{x}' / [* \"a\"]\n"), format!("t = tstr .regexp \"^[ac]*$\" / bytes .size {n} / [* (\"a\" / \"c\")]\n")], vs));
    }
    let n = fam.len();
    suite("schemas and data alike", format!("{n} families of schemas and data of the same lengths, the same characters in another order, or the same but for one character before or after up to 20000 others; every ordered pair of schemas of a family, with every value, one-shot and step by step, on the same thread"), n, move |k, w| {
        let (_, texts, vs) = &fam[k];
        let parsed: Vec<Schema> = texts.iter().map(|t| Schema(crate::refparse::parse(t).unwrap_or_else(|e| panic!("{t}: {e:?}")).into_iter().map(|r| r.rule).collect())).collect();
        let vs = vals(vs.clone());
        let enc: Vec<(Vec<u8>, Option<String>)> = vs.iter().map(|v| (unhex(&v.hex), v.json.as_ref().map(|j| j.to_string()))).collect();
        let bits: Vec<Vec<Bits>> = parsed.iter().map(|s| {
            let mut sem = Sem::new(s);
            vs.iter().map(|v| {
                let r = sem.run("t", &v.v);
                w.st.states += r.states;
                w.st.steps += r.steps;
                r.bits
            }).collect()
        }).collect();
        let mut order: Vec<(usize, usize)> = vec![];
        for x in 0..texts.len() {
            for y in 0..texts.len() {
                order.push((x, y));
            }
        }
        for (x, y) in order {
            if w.stopped() {
                return;
            }
            for (v, (c, j)) in enc.iter().enumerate() {
                if !thorough && texts[x].len() > 3000 && v % 2 != (x + y) % 2 {
                    continue;
                }
                for z in [x, y] {
                    w.raw(&texts[z], "t", Input::Cbor(c), bits[z][v], &[]);
                    if let Some(j) = j {
                        w.raw(&texts[z], "t", Input::Json(j), bits[z][v], &[]);
                    }
                }
            }
            if let (Some(p), Some(q)) = (w.read_text(texts[x].clone(), 0), w.read_text(texts[y].clone(), 0)) {
                for (v, val) in vs.iter().enumerate() {
                    w.publish_value(&p, "t", val);
                    w.judge(&p, "t", val, bits[x][v]);
                    w.publish_value(&q, "t", val);
                    w.judge(&q, "t", val, bits[y][v]);
                }
            }
        }
    })
}

// ------------------------------------- rules looked up in a context (C13)

/// The start rule of one schema with the names of another.
pub fn contexts() -> Suite<'static> {
    let starts: Vec<(&str, &str)> = vec![("t = a\n", "t"), ("t = [a, ? b]\n", "t"), ("t = {a, * tstr => b}\n", "t"), ("t = a<int>\n", "t"), ("t = [~a]\n", "t"), ("t = &a\n", "t"), ("t = 1..a\n", "t"), ("t = tstr .size a\n", "t"), ("t = [* (a / b)]\n", "t"), ("t = {a => b}\n", "t"), ("t = A\n", "t"), ("t = [int2, a.b, a-b]\n", "t"), ("t = b\na = int\nb = a\n", "t")];
    let others: Vec<&str> = vec![
        "a = int\nb = tstr\n", "a = 2\nb = 3\n", "b = int\n", "a = [int, int]\nb = null\n", "a = (x: 1, y: 2)\nb = any\n", "a<X> = [X]\nb = int\n", "A = int\n", "a = b\nb = int\nA = a\n", "a.b = int\na-b = int\nint2 = int\na = int\n", "t = 1\na = t\nb = t\n", "unused = 1\n", "a = undefined-name\nb = undefined-name\n", "$a = int\na1 = int\n",
    ];
    let data: Vec<V> = vec![i(1), i(2), t("ab"), a(vec![i(1)]), a(vec![i(1), i(2)]), a(vec![i(1), t("x")]), a(vec![i(1), i(2), i(3)]), m(vec![]), m(vec![(t("x"), i(1)), (t("y"), i(2))]), m(vec![(i(1), t("s"))]), m(vec![(i(2), i(3))]), V::Null, a(vec![])];
    let vals_ = vals(data);
    let n = starts.len();
    let b = format!("a rule definition of {n} schemas validated with the context of each of {} others (names are resolved there only), {} values; contexts that know nothing, and that fail", others.len(), vals_.len());
    suite("supplied contexts", b, n, move |k, w| {
        let (text, rule) = starts[k];
        let first = cddl(text);
        let Some(p1) = w.read(&first) else { return };
        for o in &others {
            let second = cddl(o);
            let Some(p2) = w.read(&second) else { continue };
            // what the combination means: the rule under a name of its own
            let mut s = Schema(vec![first.0.iter().find(|r| r.name == rule).unwrap().clone()]);
            s.0[0].name = "the start".into();
            s.0.extend(second.0.iter().cloned());
            let mut sem = Sem::new(&s);
            for v in &vals_ {
                let r = sem.run("the start", &v.v);
                w.st.states += r.states;
                w.st.steps += r.steps;
                w.publish_value(&p1, rule, v);
                let got = w.imp(|| call_rules(&p2.ctx, &p1.ctx.rules, rule, v, Via::Cbor)).map_or(PANIC, |r| class(&r));
                w.st.traces += 1;
                w.outcome(got);
                let bad = if r.bits & refsem::UNSPEC != 0 { got == PANIC } else { got & r.bits == 0 };
                if bad {
                    let extra = serde_json::json!({"rule": text, "context": o, "data": diag(&v.v)});
                    let (e, g) = (show(r.bits), show(got));
                    w.complain("names are resolved in the supplied context", &e, &g, extra);
                }
            }
        }
    })
}

//! Data values, their CBOR encodings (many per value) and a strict
//! independent CBOR decoder.

use ciborium::value::Integer;
use ciborium::Value as CV;
use serde_json::Value as JV;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Bytes(Vec<u8>),
    Text(String),
    Arr(Vec<V>),
    Map(Vec<(V, V)>),
}

pub fn i(x: i128) -> V {
    V::Int(x)
}
pub fn t(s: &str) -> V {
    V::Text(s.into())
}
pub fn b(s: &[u8]) -> V {
    V::Bytes(s.to_vec())
}
pub fn f(x: f64) -> V {
    V::Float(x)
}
pub fn a(v: Vec<V>) -> V {
    V::Arr(v)
}
pub fn m(v: Vec<(V, V)>) -> V {
    V::Map(v)
}

/// The same data (map order is irrelevant; keys within a map are distinct).
pub fn same(x: &V, y: &V) -> bool {
    match (x, y) {
        (V::Null, V::Null) => true,
        (V::Bool(p), V::Bool(q)) => p == q,
        (V::Int(p), V::Int(q)) => p == q,
        (V::Float(p), V::Float(q)) => p.to_bits() == q.to_bits(),
        (V::Bytes(p), V::Bytes(q)) => p == q,
        (V::Text(p), V::Text(q)) => p == q,
        (V::Arr(p), V::Arr(q)) => p.len() == q.len() && p.iter().zip(q).all(|(a, b)| same(a, b)),
        (V::Map(p), V::Map(q)) => {
            p.len() == q.len()
                && p.iter().all(|(k, v)| q.iter().any(|(k2, v2)| same(k, k2) && same(v, v2)))
        }
        _ => false,
    }
}

pub fn to_cbor_value(v: &V) -> CV {
    match v {
        V::Null => CV::Null,
        V::Bool(b) => CV::Bool(*b),
        V::Int(i) => CV::Integer(Integer::try_from(*i).expect("integer range")),
        V::Float(f) => CV::Float(*f),
        V::Bytes(b) => CV::Bytes(b.clone()),
        V::Text(s) => CV::Text(s.clone()),
        V::Arr(a) => CV::Array(a.iter().map(to_cbor_value).collect()),
        V::Map(m) => CV::Map(m.iter().map(|(k, v)| (to_cbor_value(k), to_cbor_value(v))).collect()),
    }
}

/// The same data as JSON, when JSON has it.
pub fn to_json(v: &V) -> Option<JV> {
    Some(match v {
        V::Null => JV::Null,
        V::Bool(b) => JV::Bool(*b),
        V::Int(i) => {
            if let Ok(u) = u64::try_from(*i) {
                JV::from(u)
            } else {
                JV::from(i64::try_from(*i).ok()?)
            }
        }
        V::Float(f) => JV::Number(serde_json::Number::from_f64(*f)?),
        V::Bytes(_) => return None,
        V::Text(s) => JV::String(s.clone()),
        V::Arr(a) => JV::Array(a.iter().map(to_json).collect::<Option<_>>()?),
        V::Map(m) => {
            let mut o = serde_json::Map::new();
            for (k, v) in m {
                match k {
                    V::Text(k) => o.insert(k.clone(), to_json(v)?),
                    _ => return None,
                };
            }
            JV::Object(o)
        }
    })
}

// ---------------------------------------------------------------- encoding

pub fn head(out: &mut Vec<u8>, major: u8, n: u64) {
    head_w(out, major, n, 0)
}

/// Write an initial byte and argument using at least `width` argument bytes
/// (0: shortest possible).
pub fn head_w(out: &mut Vec<u8>, major: u8, n: u64, width: usize) {
    let m = major << 5;
    let need = if n < 24 {
        0
    } else if n < 1 << 8 {
        1
    } else if n < 1 << 16 {
        2
    } else if n < 1 << 32 {
        4
    } else {
        8
    };
    match need.max(width) {
        0 => out.push(m | n as u8),
        1 => {
            out.push(m | 24);
            out.push(n as u8)
        }
        2 => {
            out.push(m | 25);
            out.extend((n as u16).to_be_bytes())
        }
        4 => {
            out.push(m | 26);
            out.extend((n as u32).to_be_bytes())
        }
        _ => {
            out.push(m | 27);
            out.extend(n.to_be_bytes())
        }
    }
}

/// How to encode.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Enc {
    /// minimum argument width of integers: 0, 1, 2, 4, 8
    pub int_w: usize,
    /// minimum argument width of lengths
    pub len_w: usize,
    pub indef_arr: bool,
    pub indef_map: bool,
    /// chunk size of indefinite strings (0: definite)
    pub chunk: usize,
    /// float width: 0 shortest exact, 8 always double
    pub float_w: usize,
    /// reverse the order of map entries
    pub rev: bool,
}

pub const PLAIN: Enc =
    Enc { int_w: 0, len_w: 0, indef_arr: false, indef_map: false, chunk: 0, float_w: 8, rev: false };

pub fn f16_bits(f: f64) -> Option<u16> {
    // exact conversions only
    for h in 0..=u16::MAX {
        let x = f16_to_f64(h);
        if x.to_bits() == f.to_bits() {
            return Some(h);
        }
        if h == u16::MAX {
            break;
        }
    }
    None
}

pub fn f16_to_f64(h: u16) -> f64 {
    let sign = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 0x1f) as i32;
    let m = (h & 0x3ff) as f64;
    let v = match e {
        0 => m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    };
    sign * v
}

pub fn encode(v: &V, e: &Enc) -> Vec<u8> {
    let mut o = vec![];
    enc(v, e, &mut o);
    o
}

fn enc_str(out: &mut Vec<u8>, major: u8, data: &[u8], cuts: &[usize], e: &Enc) {
    if e.chunk == 0 {
        head_w(out, major, data.len() as u64, e.len_w);
        out.extend(data);
    } else {
        out.push((major << 5) | 31);
        let mut prev = 0;
        for &c in cuts.iter().chain(std::iter::once(&data.len())) {
            if c > prev {
                head_w(out, major, (c - prev) as u64, e.len_w);
                out.extend(&data[prev..c]);
                prev = c;
            }
        }
        out.push(0xff);
    }
}

fn enc(v: &V, e: &Enc, out: &mut Vec<u8>) {
    match v {
        V::Null => out.push(0xf6),
        V::Bool(false) => out.push(0xf4),
        V::Bool(true) => out.push(0xf5),
        V::Int(i) => {
            if *i >= 0 {
                head_w(out, 0, *i as u64, e.int_w)
            } else {
                head_w(out, 1, (-1 - *i) as u64, e.int_w)
            }
        }
        V::Float(x) => {
            if e.float_w == 0 {
                if let Some(h) = f16_bits(*x) {
                    out.push(0xf9);
                    out.extend(h.to_be_bytes());
                    return;
                }
            }
            if e.float_w <= 4 && ((*x as f32) as f64).to_bits() == x.to_bits() {
                out.push(0xfa);
                out.extend((*x as f32).to_be_bytes());
                return;
            }
            out.push(0xfb);
            out.extend(x.to_be_bytes());
        }
        V::Bytes(b) => {
            let cuts: Vec<usize> = if e.chunk > 0 { (e.chunk..b.len()).step_by(e.chunk).collect() } else { vec![] };
            enc_str(out, 2, b, &cuts, e)
        }
        V::Text(s) => {
            let mut cuts = vec![];
            if e.chunk > 0 {
                let mut last = 0;
                for (p, _) in s.char_indices() {
                    if p >= last + e.chunk {
                        cuts.push(p);
                        last = p;
                    }
                }
            }
            enc_str(out, 3, s.as_bytes(), &cuts, e)
        }
        V::Arr(a) => {
            if e.indef_arr {
                out.push(0x9f);
            } else {
                head_w(out, 4, a.len() as u64, e.len_w);
            }
            for x in a {
                enc(x, e, out);
            }
            if e.indef_arr {
                out.push(0xff);
            }
        }
        V::Map(m) => {
            if e.indef_map {
                out.push(0xbf);
            } else {
                head_w(out, 5, m.len() as u64, e.len_w);
            }
            let mut put = |(k, v): &(V, V)| {
                enc(k, e, out);
                enc(v, e, out);
            };
            if e.rev {
                m.iter().rev().for_each(&mut put);
            } else {
                m.iter().for_each(&mut put);
            }
            if e.indef_map {
                out.push(0xff);
            }
        }
    }
}

// ---------------------------------------------------------------- decoding

#[derive(Debug, Clone)]
pub enum Dec {
    Ok(V),
    /// not well formed, or not exactly one item
    Bad,
    /// well formed, but outside what this harness specifies (tags, undefined,
    /// unassigned simple values, duplicate keys, very deep nesting)
    Unspec,
}

struct D<'a> {
    b: &'a [u8],
    p: usize,
    unspec: bool,
    lax: u8,
    /// a tag or simple value that the data model does not have
    outside: bool,
    /// an undefined value
    undef: bool,
    /// bignum tags, duplicate keys, deep nesting
    open: bool,
}

/// What a byte string is.
#[derive(Debug)]
pub enum Whole {
    /// one item of the data model
    Item(V),
    /// the same, were undefined the same as null
    Undef(V),
    /// one item that the data model does not have
    Outside,
    /// one item whose meaning is left open here
    Open,
    Bad,
}

pub fn whole(b: &[u8], lax: u8) -> Whole {
    let mut d = D { b, p: 0, unspec: false, lax, outside: false, undef: false, open: false };
    let r = d.item(0);
    match r {
        _ if d.open => Whole::Open,
        Some(v) if d.p == b.len() => {
            if d.outside {
                Whole::Outside
            } else if d.undef {
                Whole::Undef(v)
            } else {
                Whole::Item(v)
            }
        }
        _ => Whole::Bad,
    }
}

/// Strict decoder of one complete data item.
pub fn decode(b: &[u8]) -> Dec {
    decode_as(b, 0)
}

/// `lax` admits ill-formed encodings that the CBOR library lets through
/// (listed findings): 1, the two-byte forms of false, true, null and
/// undefined; 2, indefinite-length chunks of indefinite-length strings.
pub fn decode_as(b: &[u8], lax: u8) -> Dec {
    let mut d = D { b, p: 0, unspec: false, lax, outside: false, undef: false, open: false };
    match d.item(0) {
        Some(v) if d.p == b.len() => {
            if d.unspec {
                Dec::Unspec
            } else {
                Dec::Ok(v)
            }
        }
        _ => {
            if d.unspec {
                Dec::Unspec
            } else {
                Dec::Bad
            }
        }
    }
}

impl D<'_> {
    fn byte(&mut self) -> Option<u8> {
        let x = *self.b.get(self.p)?;
        self.p += 1;
        Some(x)
    }
    fn take(&mut self, n: u64) -> Option<&[u8]> {
        let n = usize::try_from(n).ok()?;
        if n > self.b.len() - self.p {
            return None;
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Some(s)
    }
    /// argument; None = malformed, Some(None) = indefinite
    fn arg(&mut self, ai: u8) -> Option<Option<u64>> {
        Some(Some(match ai {
            0..=23 => ai as u64,
            24 => self.byte()? as u64,
            25 => u16::from_be_bytes(self.take(2)?.try_into().unwrap()) as u64,
            26 => u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as u64,
            27 => u64::from_be_bytes(self.take(8)?.try_into().unwrap()),
            31 => return Some(None),
            _ => return None,
        }))
    }
    fn string(&mut self, major: u8, arg: Option<u64>) -> Option<Vec<u8>> {
        match arg {
            Some(n) => Some(self.take(n)?.to_vec()),
            None => {
                let mut out = vec![];
                loop {
                    let ib = self.byte()?;
                    if ib == 0xff {
                        return Some(out);
                    }
                    if ib >> 5 != major {
                        return None;
                    }
                    let n = match self.arg(ib & 31)? {
                        Some(n) => n,
                        None if self.lax & 2 != 0 => {
                            out.extend(self.string(major, None)?);
                            continue;
                        }
                        None => return None,
                    };
                    let c = self.take(n)?.to_vec();
                    if major == 3 {
                        // every chunk must be valid on its own
                        std::str::from_utf8(&c).ok()?;
                    }
                    out.extend(c);
                }
            }
        }
    }
    fn item(&mut self, depth: u32) -> Option<V> {
        if depth > 100 {
            self.unspec = true;
            self.open = true;
            return None;
        }
        let ib = self.byte()?;
        let (major, ai) = (ib >> 5, ib & 31);
        if major == 7 {
            return Some(match ai {
                20 => V::Bool(false),
                21 => V::Bool(true),
                22 => V::Null,
                0..=19 | 23 => {
                    self.unspec = true;
                    *(if ai == 23 { &mut self.undef } else { &mut self.outside }) = true;
                    V::Null
                }
                24 => {
                    let x = self.byte()?;
                    match x {
                        20 | 21 if self.lax & 1 != 0 => return Some(V::Bool(x == 21)),
                        22 | 23 if self.lax & 1 != 0 => return Some(V::Null),
                        0..=31 if self.lax & 1 == 0 => return None,
                        _ => {}
                    }
                    self.unspec = true;
                    self.outside = true;
                    V::Null
                }
                25 => V::Float(f16_to_f64(u16::from_be_bytes(self.take(2)?.try_into().unwrap()))),
                26 => V::Float(f32::from_be_bytes(self.take(4)?.try_into().unwrap()) as f64),
                27 => V::Float(f64::from_be_bytes(self.take(8)?.try_into().unwrap())),
                _ => return None,
            });
        }
        let arg = self.arg(ai)?;
        Some(match major {
            0 => V::Int(arg? as i128),
            1 => V::Int(-1 - arg? as i128),
            2 => V::Bytes(self.string(2, arg)?),
            3 => V::Text(String::from_utf8(self.string(3, arg)?).ok()?),
            4 => {
                let mut out = vec![];
                match arg {
                    Some(n) => {
                        for _ in 0..n {
                            out.push(self.item(depth + 1)?);
                        }
                    }
                    None => loop {
                        if *self.b.get(self.p)? == 0xff {
                            self.p += 1;
                            break;
                        }
                        out.push(self.item(depth + 1)?);
                    },
                }
                V::Arr(out)
            }
            5 => {
                let mut out: Vec<(V, V)> = vec![];
                let mut n = 0u64;
                loop {
                    match arg {
                        Some(k) if n >= k => break,
                        None if *self.b.get(self.p)? == 0xff => {
                            self.p += 1;
                            break;
                        }
                        _ => {}
                    }
                    let k = self.item(depth + 1)?;
                    let v = self.item(depth + 1)?;
                    if out.iter().any(|(k2, _)| same(&k, k2)) {
                        self.unspec = true;
                        self.open = true;
                    }
                    out.push((k, v));
                    n += 1;
                }
                V::Map(out)
            }
            _ => {
                // tag
                let tag = arg?;
                self.unspec = true;
                *(if tag == 2 || tag == 3 { &mut self.open } else { &mut self.outside }) = true;
                self.item(depth + 1)?
            }
        })
    }
}

// ---------------------------------------------------------------- printing

pub fn diag(v: &V) -> String {
    match v {
        V::Null => "null".into(),
        V::Bool(b) => b.to_string(),
        V::Int(i) => i.to_string(),
        V::Float(f) => format!("{f:?}"),
        V::Bytes(b) => format!("h'{}'", hex(b)),
        V::Text(s) => format!("{s:?}"),
        V::Arr(a) => format!("[{}]", a.iter().map(diag).collect::<Vec<_>>().join(", ")),
        V::Map(m) => format!(
            "{{{}}}",
            m.iter().map(|(k, v)| format!("{}: {}", diag(k), diag(v))).collect::<Vec<_>>().join(", ")
        ),
    }
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// A value prepared for both interfaces.
pub struct Val {
    pub v: V,
    pub cbor: CV,
    pub json: Option<JV>,
    pub hex: String,
    /// see `has_lax`
    pub lax: bool,
}

impl Val {
    pub fn new(v: V) -> Val {
        Val { lax: has_lax(&v), cbor: to_cbor_value(&v), json: to_json(&v), hex: hex(&encode(&v, &PLAIN)), v }
    }
}

/// Could a byte string in here hold what `lax` is about?
pub fn has_lax(v: &V) -> bool {
    let n = |b: &[u8], x: u8| b.iter().filter(|y| **y == x).count();
    match v {
        V::Bytes(b) => n(b, 0xf8) > 0 || n(b, 0x5f) > 1 || n(b, 0x7f) > 1,
        V::Arr(a) => a.iter().any(has_lax),
        V::Map(m) => m.iter().any(|(k, v)| has_lax(k) || has_lax(v)),
        _ => false,
    }
}

pub fn vals(v: Vec<V>) -> Vec<Val> {
    v.into_iter().map(Val::new).collect()
}

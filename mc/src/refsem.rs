//! The reference machine: what a schema means, written from RFC 8610 and the
//! crate's documentation, independently of the crate's code.
//!
//! The machine is functional: its configurations are (schema position, data
//! position) pairs, where the data position is the index of the next array
//! element or the set of map entries still unconsumed.  Nothing is ever
//! undone because nothing is mutated.  Where the meaning leaves a choice open
//! (which of several matching entries a map member with a type key takes) all
//! choices are explored, so the result is a *set* of permitted verdicts.

use crate::ast::*;
use crate::regex as re;
use crate::value::{whole, Whole, V};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

pub type Bits = u16;
pub const OK: Bits = 1;
pub const MIS: Bits = 2;
pub const CUT: Bits = 4;
pub const MISSING: Bits = 8;
pub const SCHEMA: Bits = 16;
pub const GENERIC: Bits = 32;
pub const VALUE: Bits = 64;
pub const DEEP: Bits = 128;
pub const UNSPEC: Bits = 256;
pub const PARSE: Bits = 512;
pub const FATAL: Bits = MISSING | SCHEMA | GENERIC | VALUE | DEEP | UNSPEC;

pub fn show(b: Bits) -> String {
    let mut v = vec![];
    for (k, n) in [
        (OK, "accept"),
        (MIS, "mismatch"),
        (CUT, "cut"),
        (MISSING, "missing-rule"),
        (SCHEMA, "schema-error"),
        (GENERIC, "generic-error"),
        (VALUE, "value-error"),
        (DEEP, "endless"),
        (UNSPEC, "unspecified"),
        (PARSE, "parse-error"),
    ] {
        if b & k != 0 {
            v.push(n);
        }
    }
    v.join("|")
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum P {
    Any,
    Nil,
    Bool,
    False,
    True,
    Int,
    Uint,
    Nint,
    Float,
    Tstr,
    Bstr,
    Unsup,
}

pub fn prelude(n: &str) -> Option<P> {
    Some(match n {
        "any" | "eb64url" | "eb64legacy" | "eb16" | "cbor-any" => P::Any,
        "nil" | "null" => P::Nil,
        "bool" => P::Bool,
        "false" => P::False,
        "true" => P::True,
        "int" => P::Int,
        "uint" => P::Uint,
        "nint" => P::Nint,
        "float" | "float16" | "float32" | "float64" | "float16-32" | "float32-64" => P::Float,
        "tstr" | "text" | "tdate" | "uri" | "b64url" | "b64legacy" | "regexp" | "mime-message" => P::Tstr,
        "bstr" | "bytes" | "biguint" | "bignint" | "encoded-cbor" => P::Bstr,
        "time" | "bigint" | "integer" | "unsigned" | "number" | "decfrac" | "bigfloat" | "undefined" => P::Unsup,
        _ => return None,
    })
}

struct EnvNode<'a> {
    params: &'a [String],
    args: &'a [T1],
    parent: Option<Env<'a>>,
    depth: u32,
}
type Env<'a> = Rc<EnvNode<'a>>;

const MAXD: u32 = 300;
const MAX_STEPS: u64 = 3_000_000;

pub struct Sem<'a> {
    rules: HashMap<&'a str, &'a Rule>,
    seen: HashSet<u64, BH>,
    pub steps: u64,
    pub states: u64,
    maxdepth: u32,
    pub lax: u8,
    /// `.cbor` is not supported
    pub nocbor: bool,
}

#[derive(Default, Clone)]
pub struct H(u64);
impl std::hash::Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
pub type BH = std::hash::BuildHasherDefault<H>;

#[derive(Clone, Copy)]
enum Cont<'v> {
    A(&'v [V]),
    M(&'v [(V, V)]),
}

type St = u128;

#[derive(Default)]
struct R {
    oks: Vec<St>,
    fails: Bits,
}

impl R {
    fn fail(b: Bits) -> R {
        R { oks: vec![], fails: b }
    }
    fn ok(s: St) -> R {
        R { oks: vec![s], fails: 0 }
    }
    fn push(&mut self, s: St) {
        if !self.oks.contains(&s) {
            self.oks.push(s);
        }
    }
    fn merge(&mut self, o: R) {
        for s in o.oks {
            self.push(s);
        }
        self.fails |= o.fails;
    }
}

enum Node<'a> {
    Ty(&'a Ty),
    T1(&'a T1),
    Ent(&'a Ent),
}

pub struct Verdict {
    /// permitted verdicts
    pub bits: Bits,
    pub states: u64,
    pub steps: u64,
}

impl<'a> Sem<'a> {
    pub fn new(s: &'a Schema) -> Sem<'a> {
        let mut rules = HashMap::new();
        for r in &s.0 {
            rules.insert(r.name.as_str(), r);
        }
        Sem { rules, seen: HashSet::default(), steps: 0, states: 0, maxdepth: 0, lax: 0, nocbor: false }
    }

    pub fn run(&mut self, start: &str, v: &V) -> Verdict {
        self.seen.clear();
        self.steps = 0;
        self.maxdepth = 0;
        let bits = match self.rules.get(start).copied() {
            None => MISSING,
            Some(r) if !r.params.is_empty() => GENERIC,
            Some(r) => {
                let env = Rc::new(EnvNode { params: &[], args: &[], parent: None, depth: 0 });
                match &r.body {
                    RBody::Ty(t) => self.ty(t, v, &env),
                    RBody::Ent(e) => self.standalone(e, v, &env),
                }
            }
        };
        let mut bits = bits;
        if bits & CUT != 0 {
            bits = bits & !CUT | MIS;
        }
        if bits & DEEP != 0 {
            bits = bits & !DEEP | SCHEMA;
        }
        if self.maxdepth > 50 {
            // beyond the depth of references that must work
            bits |= SCHEMA;
        }
        Verdict { bits, states: self.seen.len() as u64, steps: self.steps }
    }

    fn visit(&mut self, node: *const u8, val: *const u8, st: St, depth: u32) -> bool {
        self.steps += 1;
        let mut h = (node as u64).wrapping_mul(0x9E3779B97F4A7C15);
        h = (h ^ (val as u64)).rotate_left(29).wrapping_mul(0xBF58476D1CE4E5B9);
        h = (h ^ (st as u64) ^ ((st >> 64) as u64).rotate_left(7)).rotate_left(31).wrapping_mul(0x94D049BB133111EB);
        h ^= h >> 32;
        h ^= (depth as u64) << 3;
        self.seen.insert(h);
        self.steps > MAX_STEPS
    }

    /// Resolve a name that is not a prelude type.
    fn resolve(&mut self, n: &'a Name, env: &Env<'a>) -> Result<(Node<'a>, Env<'a>), Bits> {
        if let Some(i) = env.params.iter().position(|p| *p == n.name) {
            if !n.args.is_empty() {
                return Err(UNSPEC);
            }
            return Ok((Node::T1(&env.args[i]), env.parent.clone().unwrap()));
        }
        let r: &'a Rule = match self.rules.get(n.name.as_str()) {
            None => return Err(MISSING),
            Some(r) => r,
        };
        if r.params.len() != n.args.len() {
            return Err(GENERIC);
        }
        let depth = env.depth + 1;
        if depth > MAXD {
            return Err(DEEP);
        }
        self.maxdepth = self.maxdepth.max(depth);
        let e = Rc::new(EnvNode { params: &r.params, args: &n.args, parent: Some(env.clone()), depth });
        Ok((
            match &r.body {
                RBody::Ty(t) => Node::Ty(t),
                RBody::Ent(e) => Node::Ent(e),
            },
            e,
        ))
    }

    // ------------------------------------------------------ single values

    fn node(&mut self, n: Node<'a>, v: &V, env: &Env<'a>) -> Bits {
        match n {
            Node::Ty(t) => self.ty(t, v, env),
            Node::T1(t) => self.t1(t, v, env),
            Node::Ent(e) => self.standalone(e, v, env),
        }
    }

    fn ty(&mut self, t: &'a Ty, v: &V, env: &Env<'a>) -> Bits {
        let mut out = 0;
        for o in &t.0 {
            let r = self.t1(o, v, env);
            out |= r & !MIS;
            if r & MIS == 0 {
                return out;
            }
        }
        out | MIS
    }

    fn t1(&mut self, t: &'a T1, v: &V, env: &Env<'a>) -> Bits {
        if self.visit(t as *const _ as _, v as *const _ as _, 0, env.depth) {
            return UNSPEC;
        }
        match t {
            T1::S(t) => self.t2(t, v, env),
            T1::Range(a, b, inc) => self.range(a, b, *inc, v, env),
            T1::Ctl(a, op, b) => self.ctl(a, op, b, v, env),
        }
    }

    fn t2(&mut self, t: &'a T2, v: &V, env: &Env<'a>) -> Bits {
        match t {
            T2::Lit(l) => okmis(lit_eq(l, v)),
            T2::Paren(t) => self.ty(t, v, env),
            T2::Name(n) => {
                if let Some(p) = prelude(&n.name) {
                    return okmis(in_prelude(p, v));
                }
                match self.resolve(n, env) {
                    Err(b) => b,
                    Ok((n, e)) => self.node(n, v, &e),
                }
            }
            T2::Arr(g) => match v {
                V::Arr(items) => {
                    let r = self.alts(g, Cont::A(items), 0, env, true);
                    let mut out = r.fails;
                    for s in r.oks {
                        out |= okmis(s == items.len() as St);
                    }
                    erase(out)
                }
                _ => MIS,
            },
            T2::Map(g) => match v {
                V::Map(items) => {
                    if items.len() > 127 {
                        return UNSPEC;
                    }
                    let full = (1u128 << items.len()) - 1;
                    let r = self.alts(g, Cont::M(items), full, env, true);
                    let mut out = r.fails;
                    for s in r.oks {
                        out |= okmis(s == 0);
                    }
                    erase(out)
                }
                _ => MIS,
            },
            T2::Unwrap(_) => SCHEMA,
            T2::Amp(n) => self.amp(n, v, env),
            T2::AmpIn(g) => self.amp_members(g, v, env),
        }
    }

    /// A group where a single value is expected.
    fn standalone(&mut self, e: &'a Ent, v: &V, env: &Env<'a>) -> Bits {
        if e.occ != Occ::One {
            return SCHEMA;
        }
        match &e.body {
            Body::Mem(None, t) => self.ty(t, v, env),
            Body::Mem(Some(_), _) => SCHEMA,
            Body::Par(g) => {
                let mut out = 0;
                for alt in &g.0 {
                    let r = if alt.len() == 1 { self.standalone(&alt[0], v, env) } else { SCHEMA };
                    out |= r & !MIS;
                    if r & MIS == 0 {
                        return out;
                    }
                }
                out | MIS
            }
        }
    }

    fn amp(&mut self, n: &'a Name, v: &V, env: &Env<'a>) -> Bits {
        let (node, e) = match self.resolve(n, env) {
            Err(b) => return b,
            Ok(x) => x,
        };
        match node {
            Node::Ent(en) => match (&en.occ, &en.body) {
                (Occ::One, Body::Par(g)) => self.amp_members(g, v, &e),
                _ => SCHEMA,
            },
            Node::Ty(t) => self.amp_ty(t, v, &e),
            Node::T1(t) => self.amp_t1(t, v, &e),
        }
    }
    fn amp_ty(&mut self, t: &'a Ty, v: &V, env: &Env<'a>) -> Bits {
        match t.0.as_slice() {
            [o] => self.amp_t1(o, v, env),
            _ => SCHEMA,
        }
    }
    fn amp_t1(&mut self, t: &'a T1, v: &V, env: &Env<'a>) -> Bits {
        match t {
            T1::S(T2::Paren(t)) => self.amp_ty(t, v, env),
            T1::S(T2::Name(n)) if prelude(&n.name).is_none() => self.amp(n, v, env),
            _ => SCHEMA,
        }
    }

    fn amp_members(&mut self, g: &'a Grp, v: &V, env: &Env<'a>) -> Bits {
        if g.0.len() != 1 {
            return UNSPEC;
        }
        let mut out = 0;
        for e in &g.0[0] {
            if e.occ != Occ::One {
                return out | UNSPEC;
            }
            let r = match &e.body {
                Body::Mem(Some(_), t) => self.ty(t, v, env),
                Body::Mem(None, t) => match name_of(t) {
                    Some(n) if prelude(&n.name).is_none() => {
                        // a named group is included, a named type is not
                        // something this crate accepts here
                        self.amp(n, v, env)
                    }
                    _ => self.ty(t, v, env),
                },
                Body::Par(_) => UNSPEC,
            };
            out |= r & !MIS;
            if r & MIS == 0 {
                return out;
            }
        }
        out | MIS
    }

    // ------------------------------------------------------ operators

    /// Follow names until something else is found.
    fn chase(&mut self, t: &'a T2, env: &Env<'a>) -> Result<(Option<&'a T1>, &'a T2, Env<'a>), Bits> {
        // returns (the operator node if it is one, the simple node otherwise)
        let mut cur: &'a T2 = t;
        let mut env = env.clone();
        loop {
            let next: &'a T1 = match cur {
                T2::Paren(t) => match t.0.as_slice() {
                    [o] => o,
                    _ => return Ok((None, cur, env)),
                },
                T2::Name(n) if prelude(&n.name).is_none() => {
                    let (node, e) = self.resolve(n, &env)?;
                    env = e;
                    match node {
                        Node::T1(t) => t,
                        Node::Ty(t) => match t.0.as_slice() {
                            [o] => o,
                            _ => return Err(SCHEMA),
                        },
                        Node::Ent(_) => return Err(SCHEMA),
                    }
                }
                _ => return Ok((None, cur, env)),
            };
            match next {
                T1::S(t) => cur = t,
                op => return Ok((Some(op), cur, env)),
            }
        }
    }

    fn bound(&mut self, t: &'a T2, env: &Env<'a>) -> Result<BLit<'a>, Bits> {
        match self.chase(t, env)? {
            (None, T2::Lit(l), _) => Ok(BLit::L(l)),
            (None, T2::Name(n), _) if matches!(prelude(&n.name), Some(P::True) | Some(P::False)) => Ok(BLit::Bool),
            _ => Err(SCHEMA),
        }
    }

    fn range(&mut self, a: &'a T2, b: &'a T2, inc: bool, v: &V, env: &Env<'a>) -> Bits {
        let (x, y) = (self.bound(a, env), self.bound(b, env));
        let (x, y) = match (x, y) {
            (Ok(x), Ok(y)) => (x, y),
            (x, y) => return x.err().unwrap_or(0) | y.err().unwrap_or(0),
        };
        match (&x, &y) {
            (BLit::L(p), BLit::L(q)) => {
                if let (Some(p), Some(q)) = (lit_int(p), lit_int(q)) {
                    return match v {
                        V::Int(v) => okmis(*v >= p && (*v < q || inc && *v == q)),
                        _ => MIS,
                    };
                }
                match (p, q) {
                    (Lit::Float(p), Lit::Float(q)) => match v {
                        V::Float(v) => okmis(v >= p && (v < q || inc && v == q)),
                        _ => MIS,
                    },
                    (Lit::Text(_), Lit::Text(_)) | (Lit::Bytes(_), Lit::Bytes(_)) => MIS,
                    _ => SCHEMA,
                }
            }
            (BLit::Bool, BLit::Bool) => MIS,
            _ => SCHEMA,
        }
    }

    fn target(&mut self, t: &'a T2, env: &Env<'a>) -> Result<P, Bits> {
        match self.chase(t, env)? {
            (None, T2::Name(n), _) => Ok(prelude(&n.name).unwrap()),
            _ => Err(SCHEMA),
        }
    }

    fn ctl(&mut self, target: &'a T2, op: &str, arg: &'a T2, v: &V, env: &Env<'a>) -> Bits {
        match op {
            "size" => {
                let size = match self.chase(arg, env) {
                    Err(b) => Err(b),
                    Ok((None, T2::Lit(l), _)) => match lit_int(l) {
                        Some(n) if n >= 0 => Ok((n, n, true, true)),
                        _ => Err(SCHEMA),
                    },
                    Ok((Some(T1::Range(T2::Lit(a), T2::Lit(b), inc)), _, _)) => match (lit_int(a), lit_int(b)) {
                        (Some(a), Some(b)) if a >= 0 && b >= 0 => Ok((a, b, *inc, false)),
                        _ => Err(SCHEMA),
                    },
                    // the crate wants literal bounds; names as bounds of a
                    // size range are not specified here
                    Ok((Some(T1::Range(..)), _, _)) => Err(UNSPEC),
                    Ok(_) => Err(SCHEMA),
                };
                let target = self.target(target, env);
                let ((lo, hi, inc, single), p) = match (size, target) {
                    (Ok(s), Ok(p)) => (s, p),
                    (s, t) => return s.err().unwrap_or(0) | t.err().unwrap_or(0),
                };
                let within = |n: i128| okmis(n >= lo && (n < hi || inc && n == hi));
                match (p, v) {
                    (P::Tstr, V::Text(s)) => within(s.len() as i128),
                    (P::Bstr, V::Bytes(s)) => within(s.len() as i128),
                    (P::Uint, V::Int(x)) if *x >= 0 => {
                        if single {
                            okmis(lo >= 16 || *x < 1i128 << (8 * lo))
                        } else if lo == hi && inc {
                            UNSPEC
                        } else {
                            let mut need = 0;
                            while need < 16 && *x >= 1i128 << (8 * need) {
                                need += 1;
                                if need == 15 {
                                    break;
                                }
                            }
                            within(need)
                        }
                    }
                    (P::Tstr | P::Bstr | P::Uint, _) => MIS,
                    _ => SCHEMA,
                }
            }
            "lt" | "le" | "gt" | "ge" => {
                let lim = match self.chase(arg, env) {
                    Err(b) => Err(b),
                    Ok((None, T2::Lit(l), _)) => lit_int(l).ok_or(SCHEMA),
                    Ok(_) => Err(SCHEMA),
                };
                let target = self.target(target, env);
                let (lim, p) = match (lim, target) {
                    (Ok(s), Ok(p)) => (s, p),
                    (s, t) => return s.err().unwrap_or(0) | t.err().unwrap_or(0),
                };
                if !matches!(p, P::Int | P::Uint | P::Nint) {
                    return SCHEMA;
                }
                match v {
                    V::Int(x) => okmis(
                        in_prelude(p, v)
                            && match op {
                                "lt" => *x < lim,
                                "le" => *x <= lim,
                                "gt" => *x > lim,
                                _ => *x >= lim,
                            },
                    ),
                    _ => MIS,
                }
            }
            "regexp" => {
                let pat = match simple(arg) {
                    T2::Lit(Lit::Text(p)) => p,
                    _ => return SCHEMA,
                };
                match v {
                    V::Text(s) => match re::search(pat, s) {
                        re::Res::Match => OK,
                        re::Res::NoMatch => MIS,
                        _ => UNSPEC,
                    },
                    _ => MIS,
                }
            }
            "cbor" if self.nocbor => SCHEMA,
            "cbor" => match v {
                V::Bytes(b) => match whole(b, self.lax) {
                    // the decoded value lives only here; configurations are
                    // told apart by its address, which is good enough
                    Whole::Item(inner) => self.t2(arg, &inner, env),
                    // refused in one way or the other, or taken for null
                    Whole::Undef(inner) => self.t2(arg, &inner, env) | MIS | VALUE,
                    // refused in one way or the other
                    Whole::Outside => MIS | VALUE,
                    Whole::Bad => MIS,
                    Whole::Open => UNSPEC,
                },
                _ => MIS,
            },
            _ => SCHEMA,
        }
    }

    // ------------------------------------------------------ containers

    /// Ordered alternatives. `outer` is set for the group of the container
    /// itself; any other group confines cuts.
    fn alts(&mut self, g: &'a Grp, c: Cont, s: St, env: &Env<'a>, outer: bool) -> R {
        let mut out = R::default();
        let single = g.0.len() == 1;
        for alt in &g.0 {
            let mut r = self.seq(alt, c, s, env);
            if !(outer && single) {
                r.fails = erase(r.fails);
            }
            let again = r.fails & MIS != 0 && !single;
            if again {
                r.fails &= !MIS;
            }
            out.merge(r);
            if !again {
                return out;
            }
        }
        out.fails |= MIS;
        out
    }

    fn seq(&mut self, ents: &'a [Ent], c: Cont, s: St, env: &Env<'a>) -> R {
        let mut cur = vec![s];
        let mut fails = 0;
        for e in ents {
            let mut next = R::default();
            for s in cur {
                next.merge(self.ent(e, c, s, env));
            }
            fails |= next.fails;
            cur = next.oks;
            if cur.is_empty() {
                break;
            }
        }
        R { oks: cur, fails }
    }

    fn ent(&mut self, e: &'a Ent, c: Cont, s: St, env: &Env<'a>) -> R {
        let (lo, hi) = e.occ.bounds();
        if e.occ == Occ::One {
            return self.body(&e.body, c, s, env);
        }
        if let (Body::Mem(Some(Key::Type(k, cut)), t), Cont::M(items)) = (&e.body, c) {
            if let Some(r) = self.closure(k, *cut, t, items, s, env, lo, hi) {
                return r;
            }
        }
        let mut out = R::default();
        let mut cur = vec![s];
        let mut n = 0u64;
        while !cur.is_empty() {
            if n >= hi {
                for s in cur {
                    if n >= lo {
                        out.push(s);
                    } else {
                        out.fails |= MIS;
                    }
                }
                break;
            }
            let mut next = R::default();
            for s in cur {
                let r = self.body(&e.body, c, s, env);
                if r.fails & MIS != 0 {
                    if n >= lo {
                        out.push(s);
                    } else {
                        out.fails |= MIS;
                    }
                }
                out.fails |= r.fails & !MIS;
                for s2 in r.oks {
                    if s2 == s {
                        // nothing consumed: may be repeated any number of times
                        if lo <= hi {
                            out.push(s);
                        } else {
                            out.fails |= MIS;
                        }
                    } else {
                        next.push(s2);
                    }
                }
            }
            cur = next.oks;
            n += 1;
        }
        out
    }

    /// A repeated member with a type key whose upper bound no map of this
    /// size can reach takes every matching entry, in whatever order it finds
    /// them, so the orders need not be explored one by one.
    #[allow(clippy::too_many_arguments)]
    fn closure(&mut self, k: &'a T1, cut: bool, t: &'a Ty, items: &[(V, V)], s: St, env: &Env<'a>, lo: u64, hi: u64) -> Option<R> {
        if hi < lo || (hi as u128) < s.count_ones() as u128 {
            return None;
        }
        match simple1(k) {
            Some(T2::Lit(_)) => return None,
            Some(T2::Name(n)) if n.name == "true" || n.name == "false" => return None,
            _ => {}
        }
        if self.visit(t as *const _ as _, items.as_ptr() as _, s, env.depth) {
            return Some(R::fail(UNSPEC));
        }
        let (mut rest, mut n, mut partial) = (s, 0u64, false);
        for (i, (kv, vv)) in items.iter().enumerate() {
            if s >> i & 1 == 0 {
                continue;
            }
            match self.t1(k, kv, env) {
                OK => match self.ty(t, vv, env) {
                    OK => {
                        rest &= !(1 << i);
                        n += 1;
                    }
                    MIS | CUT => partial = true,
                    _ => return None,
                },
                MIS | CUT => {}
                _ => return None,
            }
        }
        if n == hi {
            return Some(R::ok(rest));
        }
        Some(if partial && cut {
            R::fail(CUT)
        } else if n >= lo {
            R::ok(rest)
        } else {
            R::fail(MIS)
        })
    }

    fn body(&mut self, b: &'a Body, c: Cont, s: St, env: &Env<'a>) -> R {
        let at = match c {
            Cont::A(x) => x.as_ptr() as *const u8,
            Cont::M(x) => x.as_ptr() as *const u8,
        };
        if self.visit(b as *const _ as _, at, s, env.depth) {
            return R::fail(UNSPEC);
        }
        match b {
            Body::Par(g) => self.alts(g, c, s, env, false),
            Body::Mem(k, t) => match c {
                Cont::A(items) => match k {
                    Some(_) => self.element(items, s, |me, v| me.ty(t, v, env)),
                    None => self.mem_ty(t, c, s, env),
                },
                Cont::M(items) => match k {
                    None => self.mem_ty(t, c, s, env),
                    Some(k) => self.pair(k, t, items, s, env),
                },
            },
        }
    }

    fn element(&mut self, items: &[V], s: St, f: impl FnOnce(&mut Self, &V) -> Bits) -> R {
        match items.get(s as usize) {
            None => R::fail(MIS),
            Some(v) => {
                let b = f(self, v);
                let mut r = R::fail(erase(b & !OK));
                if b & OK != 0 {
                    r.push(s + 1);
                }
                r
            }
        }
    }

    fn pair(&mut self, k: &'a Key, t: &'a Ty, items: &[(V, V)], s: St, env: &Env<'a>) -> R {
        let cut = k.cut();
        let litkey: Option<Lk> = match k {
            Key::Bare(b) => Some(Lk::Text(b)),
            Key::Lit(l) => Some(Lk::Lit(l)),
            Key::Type(t1, _) => match simple1(t1) {
                Some(T2::Lit(l)) => Some(Lk::Lit(l)),
                Some(T2::Name(n)) if n.name == "true" => Some(Lk::Bool(true)),
                Some(T2::Name(n)) if n.name == "false" => Some(Lk::Bool(false)),
                _ => None,
            },
        };
        if let Some(lk) = litkey {
            for (i, (k, v)) in items.iter().enumerate() {
                let eq = match (&lk, k) {
                    (Lk::Text(a), V::Text(b)) => *a == b,
                    (Lk::Bool(a), V::Bool(b)) => a == b,
                    (Lk::Lit(l), k) => lit_eq(l, k),
                    _ => false,
                };
                if eq && s >> i & 1 == 1 {
                    let b = self.ty(t, v, env);
                    let mut r = R::fail(b & FATAL);
                    if b & (MIS | CUT) != 0 {
                        r.fails |= if cut { CUT } else { MIS };
                    }
                    if b & OK != 0 {
                        r.push(s & !(1 << i));
                    }
                    return r;
                }
            }
            return R::fail(MIS);
        }
        let key: &'a T1 = match k {
            Key::Type(t, _) => t,
            _ => unreachable!(),
        };
        let mut r = R::default();
        let mut partial = false;
        let mut sure = false;
        for (i, (k, v)) in items.iter().enumerate() {
            if s >> i & 1 == 0 {
                continue;
            }
            let kb = self.t1(key, k, env);
            r.fails |= kb & FATAL;
            if kb & OK != 0 {
                let vb = self.ty(t, v, env);
                r.fails |= vb & FATAL;
                if vb & OK != 0 {
                    r.push(s & !(1 << i));
                    if kb == OK && vb == OK {
                        sure = true;
                    }
                }
                if vb & (MIS | CUT) != 0 {
                    partial = true;
                }
            }
        }
        if !sure {
            r.fails |= if partial && cut { CUT } else { 0 };
            // without a certain match and without an error on every path the
            // member may also simply not match
            if !(partial && cut) || !r.oks.is_empty() {
                if r.fails & FATAL == 0 || s == 0 || self.some_quiet_path(key, t, items, s, env) {
                    r.fails |= if partial && cut { CUT } else { MIS };
                }
            }
        }
        r
    }

    /// Is there no entry that certainly raises an error?
    fn some_quiet_path(&mut self, key: &'a T1, t: &'a Ty, items: &[(V, V)], s: St, env: &Env<'a>) -> bool {
        for (i, (k, v)) in items.iter().enumerate() {
            if s >> i & 1 == 0 {
                continue;
            }
            let kb = self.t1(key, k, env);
            if kb & !FATAL == 0 {
                return false;
            }
            if kb == OK && self.ty(t, v, env) & !FATAL == 0 {
                return false;
            }
        }
        true
    }

    fn mem_ty(&mut self, t: &'a Ty, c: Cont, s: St, env: &Env<'a>) -> R {
        let mut out = R::default();
        if t.0.len() == 1 {
            return self.mem_t1(&t.0[0], c, s, env);
        }
        for o in &t.0 {
            let mut r = self.mem_t1(o, c, s, env);
            let again = r.fails & MIS != 0;
            r.fails &= !MIS;
            out.merge(r);
            if !again {
                return out;
            }
        }
        out.fails |= MIS;
        out
    }

    fn mem_t1(&mut self, t: &'a T1, c: Cont, s: St, env: &Env<'a>) -> R {
        match t {
            T1::S(T2::Paren(t)) => self.mem_ty(t, c, s, env),
            T1::S(T2::Unwrap(n)) => self.unwrap(n, c, s, env),
            T1::S(T2::Name(n)) if prelude(&n.name).is_none() => match self.resolve(n, env) {
                Err(b) => R::fail(b),
                Ok((node, e)) => self.mem_node(node, c, s, &e),
            },
            _ => match c {
                Cont::A(items) => self.element(items, s, |me, v| me.t1(t, v, env)),
                Cont::M(_) => match t {
                    T1::S(T2::Amp(_)) | T1::S(T2::AmpIn(_)) => R::fail(UNSPEC),
                    _ => R::fail(SCHEMA),
                },
            },
        }
    }

    fn mem_node(&mut self, n: Node<'a>, c: Cont, s: St, env: &Env<'a>) -> R {
        match n {
            Node::Ty(t) => self.mem_ty(t, c, s, env),
            Node::T1(t) => self.mem_t1(t, c, s, env),
            Node::Ent(e) => self.ent(e, c, s, env),
        }
    }

    fn unwrap(&mut self, n: &'a Name, c: Cont, s: St, env: &Env<'a>) -> R {
        let (node, e) = match self.resolve(n, env) {
            Err(b) => return R::fail(b),
            Ok(x) => x,
        };
        let t1 = match node {
            Node::T1(t) => t,
            Node::Ty(t) => match t.0.as_slice() {
                [o] => o,
                _ => return R::fail(MIS),
            },
            Node::Ent(_) => return R::fail(MIS),
        };
        let t2 = match simple1(t1) {
            Some(t) => t,
            None => return R::fail(MIS),
        };
        match (t2, c) {
            (T2::Name(n), _) if prelude(&n.name).is_none() => self.unwrap(n, c, s, &e),
            (T2::Arr(g), Cont::A(_)) | (T2::Map(g), Cont::M(_)) => self.alts(g, c, s, &e, false),
            _ => R::fail(MIS),
        }
    }
}

enum Lk<'a> {
    Text(&'a String),
    Lit(&'a Lit),
    Bool(bool),
}

enum BLit<'a> {
    L(&'a Lit),
    Bool,
}

fn erase(b: Bits) -> Bits {
    if b & CUT != 0 {
        b & !CUT | MIS
    } else {
        b
    }
}

fn okmis(b: bool) -> Bits {
    if b {
        OK
    } else {
        MIS
    }
}

/// Look through parentheses around a single simple type.
fn simple(t: &T2) -> &T2 {
    match t {
        T2::Paren(Ty(v)) if v.len() == 1 => match &v[0] {
            T1::S(t) => simple(t),
            _ => t,
        },
        _ => t,
    }
}
fn simple1(t: &T1) -> Option<&T2> {
    match t {
        T1::S(t) => Some(simple(t)),
        _ => None,
    }
}
/// The name a type consists of, if it does.
fn name_of(t: &Ty) -> Option<&Name> {
    match t.0.as_slice() {
        [T1::S(t)] => match simple(t) {
            T2::Name(n) => Some(n),
            _ => None,
        },
        _ => None,
    }
}

pub fn lit_int(l: &Lit) -> Option<i128> {
    match l {
        Lit::Uint(u) => Some(*u as i128),
        Lit::Nint(i) => Some(*i as i128),
        _ => None,
    }
}

pub fn lit_eq(l: &Lit, v: &V) -> bool {
    match (l, v) {
        (Lit::Uint(a), V::Int(b)) => *a as i128 == *b,
        (Lit::Nint(a), V::Int(b)) => *a as i128 == *b,
        (Lit::Float(a), V::Float(b)) => a.to_bits() == b.to_bits(),
        (Lit::Text(a), V::Text(b)) => a == b,
        (Lit::Bytes(a), V::Bytes(b)) => a == b,
        _ => false,
    }
}

pub fn in_prelude(p: P, v: &V) -> bool {
    match (p, v) {
        (P::Any, _) => true,
        (P::Nil, V::Null) => true,
        (P::Bool, V::Bool(_)) => true,
        (P::False, V::Bool(b)) => !*b,
        (P::True, V::Bool(b)) => *b,
        (P::Int, V::Int(_)) => true,
        (P::Uint, V::Int(x)) => *x >= 0,
        (P::Nint, V::Int(x)) => *x < 0,
        (P::Float, V::Float(_)) => true,
        (P::Tstr, V::Text(_)) => true,
        (P::Bstr, V::Bytes(_)) => true,
        _ => false,
    }
}

// ---------------------------------------------------------------- reading

/// Errors that reading the schema must report (0: none). Several bits mean
/// that any of them is right.
pub fn read_errors(s: &Schema) -> Bits {
    let mut b = 0;
    for r in &s.0 {
        match &r.body {
            RBody::Ty(t) => b |= fl_ty(t),
            RBody::Ent(e) => b |= fl_ent(e),
        }
    }
    b
}
fn fl_ty(t: &Ty) -> Bits {
    t.0.iter().fold(0, |b, o| b | fl_t1(o))
}
fn fl_grp(g: &Grp) -> Bits {
    g.0.iter().flatten().fold(0, |b, e| b | fl_ent(e))
}
fn fl_ent(e: &Ent) -> Bits {
    match &e.body {
        Body::Par(g) => fl_grp(g),
        Body::Mem(k, t) => {
            fl_ty(t)
                | match k {
                    Some(Key::Type(t, _)) => fl_t1(t),
                    _ => 0,
                }
        }
    }
}
fn fl_name(n: &Name) -> Bits {
    match prelude(&n.name) {
        Some(P::Unsup) => SCHEMA,
        Some(_) => {
            if n.args.is_empty() {
                0
            } else {
                GENERIC
            }
        }
        None => n.args.iter().fold(0, |b, a| b | fl_t1(a)),
    }
}
fn fl_t2(t: &T2) -> Bits {
    match t {
        T2::Lit(_) => 0,
        T2::Name(n) => fl_name(n),
        T2::Paren(t) => fl_ty(t),
        T2::Map(g) | T2::Arr(g) | T2::AmpIn(g) => fl_grp(g),
        T2::Unwrap(n) | T2::Amp(n) => {
            if prelude(&n.name).is_some() || fl_name(n) != 0 {
                GENERIC
            } else {
                0
            }
        }
    }
}
fn fl_t1(t: &T1) -> Bits {
    match t {
        T1::S(t) => fl_t2(t),
        T1::Range(a, b, _) => fl_point(a) | fl_point(b),
        T1::Ctl(a, op, b) => {
            // after looking through parentheses
            let mut e = fl_t2(a) | fl_t2(b);
            let arg = simple(b);
            let is_int = matches!(arg, T2::Lit(Lit::Uint(_)) | T2::Lit(Lit::Nint(_)));
            let is_rule = matches!(arg, T2::Name(n) if prelude(&n.name).is_none());
            let is_range = matches!(arg, T2::Paren(Ty(v)) if matches!(v.as_slice(), [T1::Range(..)]));
            let tgt = match simple(a) {
                T2::Name(n) => prelude(&n.name),
                _ => None,
            };
            match op.as_str() {
                "size" => {
                    if !(is_int || is_rule || is_range) {
                        e |= SCHEMA;
                    }
                }
                "lt" | "le" | "gt" | "ge" => {
                    if !(is_int || is_rule) {
                        e |= SCHEMA;
                    }
                }
                "regexp" => {
                    if tgt != Some(P::Tstr) {
                        e |= SCHEMA;
                    }
                    match arg {
                        T2::Lit(Lit::Text(p)) => match re::search(p, "") {
                            re::Res::Bad => e |= SCHEMA,
                            re::Res::Unknown => e |= UNSPEC,
                            _ => {}
                        },
                        _ => e |= SCHEMA,
                    }
                }
                "cbor" => {
                    if tgt != Some(P::Bstr) {
                        e |= SCHEMA;
                    }
                }
                _ => e |= SCHEMA,
            }
            e
        }
    }
}
fn fl_point(t: &T2) -> Bits {
    match t {
        T2::Lit(_) => 0,
        T2::Name(n) => {
            fl_name(n)
                | match prelude(&n.name) {
                    None | Some(P::True) | Some(P::False) => 0,
                    _ => SCHEMA,
                }
        }
        _ => SCHEMA,
    }
}

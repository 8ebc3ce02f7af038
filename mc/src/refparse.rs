//! The reference parser: a hand written recursive-descent reading of the
//! CDDL grammar (RFC 8610 appendix B restricted to the features this crate
//! supports), by characters, with ordered choice, producing the harness's own
//! syntax tree. It shares nothing with the crate's parser.
//!
//! It records for every rule the stretch of text it covers.

use crate::ast::*;

pub struct RuleAt {
    pub rule: Rule,
    pub start: usize,
    pub end: usize,
}

#[derive(Debug)]
pub enum E {
    /// this alternative does not apply
    No,
    /// the text as a whole is wrong (malformed literal)
    Fatal,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Why {
    Syntax,
    /// outside of what is specified here
    Unspec,
    /// gave up
    Effort,
}

struct P<'a> {
    s: &'a [char],
    work: u64,
    unspec: bool,
    /// the furthest character looked at
    far: std::cell::Cell<usize>,
    /// the literal that is malformed, and where its content is
    bad: Option<(Bad, usize, usize)>,
    /// "a<b>:", which has a message of its own
    named: bool,
}

#[derive(Debug, PartialEq, Clone, Copy)]
pub enum Bad {
    Integer,
    Float,
    Hex,
    Text,
    Base64,
}

/// What is wrong with a text that is not a schema.
#[derive(Debug, PartialEq, Clone)]
pub enum Diag {
    /// a literal without a value: its content as written
    Literal(Bad, String),
    /// the grammar does not go on: the end of the last complete rule, and
    /// the end of what was looked at (bytes)
    Stuck(usize, usize),
    /// a key with arguments before a colon
    Key,
}

type R<T> = Result<(usize, T), E>;

const LIMIT: u64 = 3_000_000;

fn ealpha(c: char) -> bool {
    c.is_ascii_alphabetic() || matches!(c, '@' | '_' | '$')
}

fn pchar(c: char) -> bool {
    let c = c as u32;
    (0x20..=0x7e).contains(&c) || (0x80..=0x10fffd).contains(&c)
}

impl P<'_> {
    fn at(&self, i: usize) -> Option<char> {
        if i > self.far.get() {
            self.far.set(i);
        }
        self.s.get(i).copied()
    }
    fn fatal(&mut self, k: Bad, a: usize, b: usize) -> E {
        self.bad = Some((k, a, b));
        E::Fatal
    }
    fn lit(&self, i: usize, t: &str) -> Option<usize> {
        let mut j = i;
        for c in t.chars() {
            if self.at(j) != Some(c) {
                return None;
            }
            j += 1;
        }
        Some(j)
    }
    fn want(&self, i: usize, t: &str) -> Result<usize, E> {
        self.lit(i, t).ok_or(E::No)
    }
    /// blanks, line ends and comments
    fn ws(&mut self, mut i: usize) -> usize {
        loop {
            match self.at(i) {
                Some(' ' | '\t' | '\n' | '\r') => i += 1,
                Some(';') => {
                    while let Some(c) = self.at(i) {
                        if c == '\n' {
                            break;
                        }
                        if c == '\r' {
                            if self.at(i + 1) != Some('\n') {
                                // a carriage return inside of a comment
                                self.unspec = true;
                            }
                            break;
                        }
                        i += 1;
                    }
                }
                _ => return i,
            }
        }
    }
    fn ident(&self, i: usize) -> R<String> {
        let mut j = i;
        if !self.at(j).is_some_and(ealpha) {
            return Err(E::No);
        }
        j += 1;
        loop {
            let mut k = j;
            while matches!(self.at(k), Some('-' | '.')) {
                k += 1;
            }
            match self.at(k) {
                Some(c) if ealpha(c) || c.is_ascii_digit() => j = k + 1,
                _ => break,
            }
        }
        Ok((j, self.s[i..j].iter().collect()))
    }
    fn digits(&self, i: usize) -> usize {
        let mut j = i;
        while self.at(j).is_some_and(|c| c.is_ascii_digit()) {
            j += 1;
        }
        j
    }
    /// digits of an unsigned integer and their base
    fn uint_span(&self, i: usize) -> Option<(usize, usize, u32)> {
        if let Some(j) = self.lit(i, "0x") {
            let mut k = j;
            while self.at(k).is_some_and(|c| c.is_ascii_hexdigit()) {
                k += 1;
            }
            if k > j {
                return Some((j, k, 16));
            }
        }
        if let Some(j) = self.lit(i, "0b") {
            let mut k = j;
            while matches!(self.at(k), Some('0' | '1')) {
                k += 1;
            }
            if k > j {
                return Some((j, k, 2));
            }
        }
        match self.at(i) {
            Some('0') => Some((i, i + 1, 10)),
            Some('1'..='9') => Some((i, self.digits(i), 10)),
            _ => None,
        }
    }
    /// value of a span of digits, if it fits 64 bits
    fn number(&self, a: usize, b: usize, base: u32) -> Option<u64> {
        let mut n: u128 = 0;
        for c in &self.s[a..b] {
            n = n * base as u128 + c.to_digit(base).unwrap() as u128;
            if n > u64::MAX as u128 {
                return None;
            }
        }
        Some(n as u64)
    }
    fn value(&mut self, i: usize) -> R<Lit> {
        let neg = self.at(i) == Some('-');
        let st = i + neg as usize;
        if let Some((a, b, base)) = self.uint_span(st) {
            let mut j = b;
            let mut float = false;
            if self.at(j) == Some('.') {
                let k = self.digits(j + 1);
                if k > j + 1 {
                    j = k;
                    float = true;
                }
            }
            if self.at(j) == Some('e') {
                let mut k = j + 1;
                if matches!(self.at(k), Some('+' | '-')) {
                    k += 1;
                }
                let l = self.digits(k);
                if l > k {
                    j = l;
                    float = true;
                }
            }
            if float {
                if base != 10 {
                    return Err(self.fatal(Bad::Float, i, j));
                }
                let t: String = self.s[i..j].iter().collect();
                return Ok((j, Lit::Float(crate::lits::decimal(&t))));
            }
            let n = self.number(a, b, base).ok_or_else(|| self.fatal(Bad::Integer, a, b))?;
            if neg {
                if n > 1 << 63 {
                    return Err(self.fatal(Bad::Integer, a, b));
                }
                return Ok((j, Lit::Nint((-(n as i128)) as i64)));
            }
            return Ok((j, Lit::Uint(n)));
        }
        if self.at(i) == Some('"') {
            let (j, body) = self.quoted(i + 1, '"')?;
            return match crate::lits::unescape(&body, '"') {
                Some(t) => Ok((j, Lit::Text(t))),
                None => Err(self.fatal(Bad::Text, i + 1, j - 1)),
            };
        }
        if self.at(i) == Some('\'') {
            let (j, body) = self.quoted(i + 1, '\'')?;
            return match crate::lits::unescape(&body, '\'') {
                Some(t) => Ok((j, Lit::Bytes(t.into_bytes()))),
                None => Err(self.fatal(Bad::Text, i + 1, j - 1)),
            };
        }
        if let Some(k) = self.lit(i, "h'") {
            let (j, body) = self.quoted(k, '\'')?;
            return match crate::lits::hex_bytes(&body) {
                Some(b) => Ok((j, Lit::Bytes(b))),
                None => Err(self.fatal(Bad::Hex, k, j - 1)),
            };
        }
        if let Some(k) = self.lit(i, "b64'") {
            let (j, body) = self.quoted(k, '\'')?;
            return match crate::lits::base64url(&body) {
                crate::lits::B64::Ok(b) => Ok((j, Lit::Bytes(b))),
                crate::lits::B64::Bad => Err(self.fatal(Bad::Base64, k, j - 1)),
                crate::lits::B64::Unspec => {
                    self.unspec = true;
                    Err(self.fatal(Bad::Base64, k, j - 1))
                }
            };
        }
        Err(E::No)
    }
    /// characters up to the closing quote; escapes are left in place
    fn quoted(&mut self, i: usize, q: char) -> R<Vec<char>> {
        let mut j = i;
        loop {
            match self.at(j) {
                None => return Err(E::No),
                Some(c) if c == q => return Ok((j + 1, self.s[i..j].to_vec())),
                Some('\\') => {
                    match self.at(j + 1) {
                        None => return Err(E::No),
                        Some('u') if self.at(j + 2) == Some('+') => return Err(E::No),
                        Some(c) if !pchar(c) => {
                            // an escaped control character
                            self.unspec = true;
                        }
                        _ => {}
                    }
                    j += 2
                }
                Some(c) if pchar(c) => j += 1,
                Some(c) => {
                    if q == '\'' && (c == '\n' || c == '\r') {
                        // RFC 8610 allows line ends in byte strings, the
                        // crate documents that it does not
                        self.unspec = true;
                    }
                    return Err(E::No);
                }
            }
        }
    }
    fn name(&mut self, i: usize) -> R<Name> {
        let (j, name) = self.ident(i)?;
        match self.args(j) {
            Ok((k, args)) => Ok((k, Name { name, args })),
            Err(E::No) => Ok((j, Name { name, args: vec![] })),
            Err(e) => Err(e),
        }
    }
    fn args(&mut self, i: usize) -> R<Vec<T1>> {
        let mut j = self.want(i, "<")?;
        j = self.ws(j);
        let mut out = vec![];
        let (k, t) = self.t1(j)?;
        out.push(t);
        j = self.ws(k);
        while let Some(k) = self.lit(j, ",") {
            let k = self.ws(k);
            match self.t1(k) {
                Ok((k, t)) => {
                    out.push(t);
                    j = self.ws(k);
                }
                Err(E::No) => break,
                Err(e) => return Err(e),
            }
        }
        Ok((self.want(j, ">")?, out))
    }
    fn params(&mut self, i: usize) -> R<Vec<String>> {
        let mut j = self.want(i, "<")?;
        j = self.ws(j);
        let (k, t) = self.ident(j)?;
        let mut out = vec![t];
        j = self.ws(k);
        while let Some(k) = self.lit(j, ",") {
            let k = self.ws(k);
            match self.ident(k) {
                Ok((k, t)) => {
                    out.push(t);
                    j = self.ws(k);
                }
                Err(E::No) => break,
                Err(e) => return Err(e),
            }
        }
        Ok((self.want(j, ">")?, out))
    }
    fn closed<T>(&mut self, i: usize, close: &str, f: impl FnOnce(&mut Self, usize) -> R<T>) -> R<T> {
        let j = self.ws(i);
        let (j, t) = f(self, j)?;
        let j = self.ws(j);
        Ok((self.want(j, close)?, t))
    }
    fn tick(&mut self) -> Result<(), E> {
        self.work += 1;
        if self.work > LIMIT {
            self.unspec = true;
            return Err(E::Fatal);
        }
        Ok(())
    }
    fn t2(&mut self, i: usize) -> R<T2> {
        self.tick()?;
        match self.value(i) {
            Ok((j, l)) => return Ok((j, T2::Lit(l))),
            Err(E::Fatal) => return Err(E::Fatal),
            Err(E::No) => {}
        }
        match self.name(i) {
            Ok((j, n)) => return Ok((j, T2::Name(n))),
            Err(E::Fatal) => return Err(E::Fatal),
            Err(E::No) => {}
        }
        match self.at(i) {
            Some('(') => self.closed(i + 1, ")", |p, i| p.ty(i)).map(|(j, t)| (j, T2::Paren(t))),
            Some('{') => self.closed(i + 1, "}", |p, i| p.grp(i)).map(|(j, t)| (j, T2::Map(t))),
            Some('[') => self.closed(i + 1, "]", |p, i| p.grp(i)).map(|(j, t)| (j, T2::Arr(t))),
            Some('~') => {
                let j = self.ws(i + 1);
                self.name(j).map(|(j, n)| (j, T2::Unwrap(n)))
            }
            Some('&') => {
                let j = self.ws(i + 1);
                if self.at(j) == Some('(') {
                    self.closed(j + 1, ")", |p, i| p.grp(i)).map(|(j, t)| (j, T2::AmpIn(t)))
                } else {
                    self.name(j).map(|(j, n)| (j, T2::Amp(n)))
                }
            }
            _ => Err(E::No),
        }
    }
    fn op(&mut self, i: usize) -> R<(String, T2)> {
        let (j, op) = if let Some(j) = self.lit(i, "...") {
            (j, "...".to_string())
        } else if let Some(j) = self.lit(i, "..") {
            (j, "..".to_string())
        } else if let Some(j) = self.lit(i, ".") {
            self.ident(j)?
        } else {
            return Err(E::No);
        };
        let j = self.ws(j);
        let (j, t) = self.t2(j)?;
        Ok((j, (op, t)))
    }
    fn t1(&mut self, i: usize) -> R<T1> {
        let (j, a) = self.t2(i)?;
        let k = self.ws(j);
        match self.op(k) {
            Ok((k, (op, b))) => Ok((
                k,
                match op.as_str() {
                    ".." => T1::Range(a, b, true),
                    "..." => T1::Range(a, b, false),
                    _ => T1::Ctl(a, op, b),
                },
            )),
            Err(E::No) => Ok((j, T1::S(a))),
            Err(e) => Err(e),
        }
    }
    fn ty(&mut self, i: usize) -> R<Ty> {
        let (mut j, t) = self.t1(i)?;
        let mut v = vec![t];
        self.more_options(&mut j, &mut v)?;
        Ok((j, Ty(v)))
    }
    fn more_options(&mut self, j: &mut usize, v: &mut Vec<T1>) -> Result<(), E> {
        loop {
            let k = self.ws(*j);
            let Some(k) = self.lit(k, "/") else { return Ok(()) };
            let k = self.ws(k);
            match self.t1(k) {
                Ok((k, t)) => {
                    v.push(t);
                    *j = k;
                }
                Err(E::No) => return Ok(()),
                Err(e) => return Err(e),
            }
        }
    }
    fn occ(&mut self, i: usize) -> R<Occ> {
        let span = self.uint_span(i);
        if let Some(j) = self.lit(span.map_or(i, |s| s.1), "*") {
            let lo = match span {
                Some((a, b, base)) => Some(self.number(a, b, base).ok_or_else(|| self.fatal(Bad::Integer, a, b))?),
                None => None,
            };
            let (j, hi) = match self.uint_span(j) {
                Some((a, b, base)) => (b, Some(self.number(a, b, base).ok_or_else(|| self.fatal(Bad::Integer, a, b))?)),
                None => (j, None),
            };
            return Ok((j, if lo.is_none() && hi.is_none() { Occ::Star } else { Occ::Num(lo, hi) }));
        }
        if let Some(j) = self.lit(i, "+") {
            return Ok((j, Occ::Plus));
        }
        if let Some(j) = self.lit(i, "?") {
            return Ok((j, Occ::Opt));
        }
        Err(E::No)
    }
    fn ent(&mut self, i: usize) -> R<Ent> {
        self.tick()?;
        let (i, occ) = match self.occ(i) {
            Ok((j, o)) => (self.ws(j), o),
            Err(E::No) => (i, Occ::One),
            Err(e) => return Err(e),
        };
        match self.member(i) {
            Ok((j, b)) => return Ok((j, Ent { occ, body: b })),
            Err(E::No) => {}
            Err(e) => return Err(e),
        }
        if self.at(i) == Some('(') {
            let (j, g) = self.closed(i + 1, ")", |p, i| p.grp(i))?;
            return Ok((j, Ent { occ, body: Body::Par(g) }));
        }
        Err(E::No)
    }
    fn member(&mut self, i: usize) -> R<Body> {
        let (j0, first) = self.t1(i)?;
        let j = self.ws(j0);
        // "key :"
        if let T1::S(T2::Lit(_)) | T1::S(T2::Name(_)) = &first {
            if let Some(k) = self.lit(j, ":") {
                let k = self.ws(k);
                match self.ty(k) {
                    Ok((k, t)) => {
                        let key = match first {
                            T1::S(T2::Lit(l)) => Key::Lit(l),
                            T1::S(T2::Name(n)) => {
                                if !n.args.is_empty() {
                                    self.named = true;
                                    return Err(E::Fatal);
                                }
                                Key::Bare(n.name)
                            }
                            _ => unreachable!(),
                        };
                        return Ok((k, Body::Mem(Some(key), t)));
                    }
                    // a malformed literal makes the whole text wrong, which
                    // the text is anyway with a ':' left over
                    Err(E::No) | Err(E::Fatal) => return Err(E::Fatal),
                }
            }
        }
        // "key =>" or "key ^ =>"
        let (k, cut) = match self.lit(j, "^") {
            Some(k) => (self.ws(k), true),
            None => (j, false),
        };
        if let Some(k) = self.lit(k, "=>") {
            let k = self.ws(k);
            return match self.ty(k) {
                Ok((k, t)) => Ok((k, Body::Mem(Some(Key::Type(Box::new(first), cut)), t))),
                Err(_) => Err(E::Fatal),
            };
        }
        let mut v = vec![first];
        let mut j = j0;
        self.more_options(&mut j, &mut v)?;
        Ok((j, Body::Mem(None, Ty(v))))
    }
    fn alternative(&mut self, i: usize) -> R<Vec<Ent>> {
        let mut v = vec![];
        let mut j = i;
        loop {
            match self.ent(j) {
                Ok((k, e)) => {
                    v.push(e);
                    j = self.ws(k);
                    if let Some(k) = self.lit(j, ",") {
                        j = self.ws(k);
                    }
                }
                Err(E::No) => return Ok((j, v)),
                Err(e) => return Err(e),
            }
        }
    }
    fn grp(&mut self, i: usize) -> R<Grp> {
        let (mut j, a) = self.alternative(i)?;
        let mut v = vec![a];
        loop {
            let k = self.ws(j);
            match self.lit(k, "//") {
                None => return Ok((j, Grp(v))),
                Some(k) => {
                    let k = self.ws(k);
                    let (k, a) = self.alternative(k)?;
                    v.push(a);
                    j = k;
                }
            }
        }
    }
    fn rule(&mut self, i: usize) -> R<Rule> {
        self.tick()?;
        let (j, name) = self.ident(i)?;
        let (j, params) = match self.params(j) {
            Ok(x) => x,
            Err(E::No) => (j, vec![]),
            Err(e) => return Err(e),
        };
        let j = self.ws(j);
        let j = self.want(j, "=")?;
        let j = self.ws(j);
        match self.ty(j) {
            Ok((k, t)) => return Ok((k, Rule { name, params, body: RBody::Ty(t) })),
            Err(E::No) => {}
            Err(e) => return Err(e),
        }
        let (k, e) = self.ent(j)?;
        Ok((k, Rule { name, params, body: RBody::Ent(e) }))
    }
}

/// Read a schema text.
pub fn parse(text: &str) -> Result<Vec<RuleAt>, Why> {
    parse_counted(text).0
}

/// The same, with the number of steps taken.
pub fn parse_counted(text: &str) -> (Result<Vec<RuleAt>, Why>, u64) {
    let (r, work, _) = parse_diag(text);
    (r, work)
}

/// The same, with what is wrong if it is not a schema.
pub fn parse_diag(text: &str) -> (Result<Vec<RuleAt>, Why>, u64, Diag) {
    let chars: Vec<char> = text.chars().collect();
    let mut offs: Vec<usize> = text.char_indices().map(|(i, _)| i).collect();
    offs.push(text.len());
    let mut p = P { s: &chars, work: 0, unspec: false, far: 0.into(), bad: None, named: false };
    let mut out = vec![];
    let mut i = p.ws(0);
    let mut end = 0;
    let r = loop {
        match p.rule(i) {
            Ok((j, rule)) => {
                out.push(RuleAt { rule, start: offs[i], end: offs[j] });
                end = offs[j];
                i = p.ws(j);
            }
            Err(_) => break i == chars.len() && !out.is_empty(),
        }
    };
    let diag = match p.bad {
        Some((k, a, b)) => Diag::Literal(k, text[offs[a]..offs[b]].to_string()),
        None if p.named => Diag::Key,
        None => Diag::Stuck(end, offs[p.far.get().min(chars.len())]),
    };
    let res = if p.work > LIMIT {
        Err(Why::Effort)
    } else if p.unspec {
        Err(Why::Unspec)
    } else if r {
        Ok(out)
    } else {
        Err(Why::Syntax)
    };
    (res, p.work, diag)
}

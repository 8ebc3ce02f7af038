//! A small regular expression matcher working on sets of positions, used as
//! the reference for `.regexp`. It knows the common core of the syntax; a
//! pattern outside of it gives `Unknown`, which no check relies on.

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Res {
    Match,
    NoMatch,
    /// not a regular expression
    Bad,
    Unknown,
}

enum N {
    /// ranges, negated, ignoring case
    Set(Vec<(char, char)>, bool, bool),
    /// including line ends
    Any(bool),
    /// of the text, or of a line
    Start(bool),
    End(bool),
    /// at a word boundary, or not at one
    Word(bool),
    Cat(Vec<N>),
    Alt(Vec<N>),
    Rep(Box<N>, u32, Option<u32>),
}

struct P<'a> {
    s: &'a [char],
    i: usize,
    unknown: bool,
    fl: Flags,
    names: Vec<String>,
}

#[derive(Clone, Copy, Default)]
struct Flags {
    icase: bool,
    multi: bool,
    dotall: bool,
}

type Rs<T> = Result<T, ()>;

impl P<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn alt(&mut self) -> Rs<N> {
        let mut v = vec![self.cat()?];
        while self.peek() == Some('|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { N::Alt(v) })
    }
    fn cat(&mut self) -> Rs<N> {
        let mut v = vec![];
        while let Some(c) = self.peek() {
            if c == '|' || c == ')' {
                break;
            }
            let mut a = self.atom()?;
            loop {
                let (lo, hi) = match self.peek() {
                    Some('*') => (0, None),
                    Some('+') => (1, None),
                    Some('?') => (0, Some(1)),
                    Some('{') => {
                        self.i += 1;
                        let lo = self.num();
                        let hi = if self.peek() == Some(',') {
                            self.i += 1;
                            self.num()
                        } else {
                            lo
                        };
                        if self.peek() != Some('}') || lo.is_none() {
                            self.unknown = true;
                            return Err(());
                        }
                        if hi.is_some() && hi < lo {
                            return Err(());
                        }
                        (lo.unwrap(), hi)
                    }
                    _ => break,
                };
                self.i += 1;
                // a lazy quantifier finds the same matches
                if self.peek() == Some('?') {
                    self.i += 1;
                }
                a = N::Rep(Box::new(a), lo, hi);
            }
            v.push(a);
        }
        Ok(N::Cat(v))
    }
    fn num(&mut self) -> Option<u32> {
        let st = self.i;
        while self.peek().is_some_and(|c| c.is_ascii_digit()) {
            self.i += 1;
        }
        self.s[st..self.i].iter().collect::<String>().parse().ok()
    }
    fn class_escape(&mut self, c: char) -> Option<(Vec<(char, char)>, bool)> {
        let (set, neg) = match c {
            'd' | 'D' => (vec![('0', '9')], c == 'D'),
            'w' | 'W' => (vec![('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')], c == 'W'),
            's' | 'S' => (vec![(' ', ' '), ('\t', '\r')], c == 'S'),
            _ => return None,
        };
        Some((set, neg))
    }
    fn escape(&mut self) -> Rs<char> {
        let c = self.peek().ok_or(())?;
        self.i += 1;
        match c {
            'n' => Ok('\n'),
            't' => Ok('\t'),
            'r' => Ok('\r'),
            'f' => Ok('\x0c'),
            'v' => Ok('\x0b'),
            'a' => Ok('\x07'),
            'x' | 'u' if self.peek() != Some('{') => {
                let n = if c == 'x' { 2 } else { 4 };
                let d: String = self.s[self.i..].iter().take(n).collect();
                match u32::from_str_radix(&d, 16).ok().and_then(char::from_u32) {
                    Some(x) if d.len() == n && d.chars().all(|c| c.is_ascii_hexdigit()) => {
                        self.i += n;
                        Ok(x)
                    }
                    _ => Err(()),
                }
            }
            '0'..='9' => Err(()),
            c if c.is_ascii_alphanumeric() || !c.is_ascii() || c.is_ascii_control() || c == '<' || c == '>' => {
                self.unknown = true;
                Err(())
            }
            c => Ok(c),
        }
    }
    /// What follows a `(?`; true if that is all of the group.
    fn group_head(&mut self) -> Rs<bool> {
        self.i += 1;
        let c = self.peek().ok_or(())?;
        let next = self.s.get(self.i + 1).copied();
        match c {
            '=' | '!' => return Err(()),
            '<' if matches!(next, Some('=' | '!')) => return Err(()),
            'P' | '<' => {
                self.i += 1;
                if c == 'P' {
                    if next != Some('<') {
                        self.unknown = true;
                        return Err(());
                    }
                    self.i += 1;
                }
                let st = self.i;
                while self.peek().is_some_and(|c| c != '>') {
                    self.i += 1;
                }
                let name: String = self.s[st..self.i].iter().collect();
                let plain = name.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && name.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
                if !plain || self.names.contains(&name) || self.peek().is_none() {
                    self.unknown = true;
                    return Err(());
                }
                self.names.push(name);
                self.i += 1;
                return Ok(false);
            }
            _ => {}
        }
        let mut on = true;
        let (mut seen, mut any) = (vec![], false);
        loop {
            let c = self.peek().ok_or(())?;
            self.i += 1;
            if seen.contains(&c) {
                self.unknown = true;
                return Err(());
            }
            seen.push(c);
            match c {
                'i' => self.fl.icase = on,
                'm' => self.fl.multi = on,
                's' => self.fl.dotall = on,
                '-' => on = false,
                ':' | ')' if any || c == ':' && on => return Ok(c == ')'),
                _ => {
                    self.unknown = true;
                    return Err(());
                }
            }
            any = c != '-';
        }
    }
    fn atom(&mut self) -> Rs<N> {
        let c = self.peek().unwrap();
        self.i += 1;
        Ok(match c {
            '*' | '+' | '?' => return Err(()),
            '{' => {
                self.unknown = true;
                return Err(());
            }
            '.' => N::Any(self.fl.dotall),
            '^' => N::Start(self.fl.multi),
            '$' => N::End(self.fl.multi),
            '(' => {
                let outer = self.fl;
                if self.peek() == Some('?') && self.group_head()? {
                    // flags for the rest of this group
                    if matches!(self.peek(), Some('*' | '+' | '?' | '{')) {
                        self.unknown = true;
                        return Err(());
                    }
                    return Ok(N::Cat(vec![]));
                }
                let n = self.alt()?;
                if self.peek() != Some(')') {
                    return Err(());
                }
                self.i += 1;
                self.fl = outer;
                n
            }
            '[' => {
                let neg = self.peek() == Some('^');
                if neg {
                    self.i += 1;
                }
                let mut set = vec![];
                let mut first = true;
                loop {
                    let c = self.peek().ok_or(())?;
                    self.i += 1;
                    if c == ']' && !first {
                        break;
                    }
                    first = false;
                    // [[:alpha:]], operators on sets
                    if c == '[' || matches!(c, '&' | '-' | '~') && self.peek() == Some(c) || c == ']' {
                        self.unknown = true;
                        return Err(());
                    }
                    let lo = if c == '\\' {
                        if let Some(e) = self.peek() {
                            if let Some((s, neg)) = self.class_escape(e) {
                                if neg {
                                    self.unknown = true;
                                    return Err(());
                                }
                                self.i += 1;
                                set.extend(s);
                                // [\d-z] is no range
                                if self.peek() == Some('-') && self.s.get(self.i + 1).is_some_and(|c| *c != ']') {
                                    self.unknown = true;
                                    return Err(());
                                }
                                continue;
                            }
                        }
                        self.escape()?
                    } else {
                        c
                    };
                    if self.peek() == Some('-') && self.s.get(self.i + 1).is_some_and(|c| *c != ']') {
                        self.i += 1;
                        let mut hi = self.peek().ok_or(())?;
                        self.i += 1;
                        if hi == '-' || hi == '[' {
                            self.unknown = true;
                            return Err(());
                        }
                        if hi == '\\' {
                            hi = self.escape()?;
                        }
                        if hi < lo {
                            return Err(());
                        }
                        set.push((lo, hi));
                    } else {
                        set.push((lo, lo));
                    }
                }
                N::Set(set, neg, self.fl.icase)
            }
            '\\' => {
                let e = self.peek().ok_or(())?;
                let at = match e {
                    'A' => Some(N::Start(false)),
                    'z' => Some(N::End(false)),
                    'b' => Some(N::Word(true)),
                    'B' => Some(N::Word(false)),
                    _ => None,
                };
                if let Some(n) = at {
                    self.i += 1;
                    if e == 'b' && self.peek() == Some('{') {
                        self.unknown = true;
                        return Err(());
                    }
                    return Ok(n);
                }
                if let Some((s, neg)) = self.class_escape(e) {
                    self.i += 1;
                    N::Set(s, neg, self.fl.icase)
                } else {
                    let c = self.escape()?;
                    N::Set(vec![(c, c)], false, self.fl.icase)
                }
            }
            c => N::Set(vec![(c, c)], false, self.fl.icase),
        })
    }
}

fn step(n: &N, s: &[char], at: &[bool]) -> Vec<bool> {
    let len = s.len();
    match n {
        N::Set(..) | N::Any(_) => {
            let mut o = vec![false; len + 1];
            for i in 0..len {
                if at[i] {
                    let ok = match n {
                        N::Set(set, neg, icase) => {
                            let c = s[i];
                            let d = if !icase {
                                c
                            } else if c.is_ascii_lowercase() {
                                c.to_ascii_uppercase()
                            } else {
                                c.to_ascii_lowercase()
                            };
                            set.iter().any(|(a, b)| (*a..=*b).contains(&c) || (*a..=*b).contains(&d)) != *neg
                        }
                        N::Any(all) => *all || s[i] != '\n',
                        _ => unreachable!(),
                    };
                    if ok {
                        o[i + 1] = true;
                    }
                }
            }
            o
        }
        N::Start(_) | N::End(_) | N::Word(_) => {
            let word = |k: usize| s.get(k).is_some_and(|c| c.is_ascii_alphanumeric() || *c == '_');
            let mut o = at.to_vec();
            for (k, x) in o.iter_mut().enumerate() {
                *x &= match n {
                    N::Start(multi) => k == 0 || *multi && s[k - 1] == '\n',
                    N::End(multi) => k == len || *multi && s[k] == '\n',
                    N::Word(want) => ((k > 0 && word(k - 1)) != word(k)) == *want,
                    _ => unreachable!(),
                };
            }
            o
        }
        N::Cat(v) => v.iter().fold(at.to_vec(), |a, n| step(n, s, &a)),
        N::Alt(v) => {
            let mut o = vec![false; len + 1];
            for n in v {
                for (x, y) in o.iter_mut().zip(step(n, s, at)) {
                    *x |= y;
                }
            }
            o
        }
        N::Rep(n, lo, hi) => {
            let mut cur = at.to_vec();
            for _ in 0..*lo {
                cur = step(n, s, &cur);
            }
            let mut all = cur.clone();
            let mut k = *lo;
            if hi.is_none() && matches!(**n, N::Set(..) | N::Any(_)) {
                // one character at a time: a single pass
                let fits = step(n, s, &vec![true; len + 1]);
                for i in 0..len {
                    all[i + 1] |= all[i] && fits[i + 1];
                }
                return all;
            }
            while hi.is_none_or(|h| k < h) {
                cur = step(n, s, &cur);
                let mut new = false;
                for (x, y) in all.iter_mut().zip(&cur) {
                    if *y && !*x {
                        *x = true;
                        new = true;
                    }
                }
                if !new {
                    break;
                }
                k += 1;
            }
            all
        }
    }
}

pub fn search(pat: &str, text: &str) -> Res {
    let p: Vec<char> = pat.chars().collect();
    let mut ps = P { s: &p, i: 0, unknown: false, fl: Flags::default(), names: vec![] };
    let n = match ps.alt() {
        Ok(n) if ps.i == p.len() => n,
        _ => return if ps.unknown { Res::Unknown } else { Res::Bad },
    };
    if ps.unknown || !text.is_ascii() && (pat.contains('\\') || pat.contains("(?")) {
        // classes such as \w go beyond ASCII, which is not modelled
        return Res::Unknown;
    }
    let s: Vec<char> = text.chars().collect();
    let o = step(&n, &s, &vec![true; s.len() + 1]);
    if o.contains(&true) {
        Res::Match
    } else {
        Res::NoMatch
    }
}

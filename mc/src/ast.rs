//! The harness's own schema syntax tree, independent of the crate's types,
//! with builders and a printer to CDDL text.

#[derive(Clone, Debug)]
pub enum Lit {
    Uint(u64),
    Nint(i64),
    Float(f64),
    Text(String),
    Bytes(Vec<u8>),
}

impl PartialEq for Lit {
    fn eq(&self, o: &Lit) -> bool {
        match (self, o) {
            (Lit::Uint(a), Lit::Uint(b)) => a == b,
            (Lit::Nint(a), Lit::Nint(b)) => a == b,
            (Lit::Float(a), Lit::Float(b)) => a.to_bits() == b.to_bits(),
            (Lit::Text(a), Lit::Text(b)) => a == b,
            (Lit::Bytes(a), Lit::Bytes(b)) => a == b,
            _ => false,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Name {
    pub name: String,
    pub args: Vec<T1>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum T2 {
    Lit(Lit),
    Name(Name),
    Paren(Ty),
    Map(Grp),
    Arr(Grp),
    Unwrap(Name),
    AmpIn(Grp),
    Amp(Name),
}

#[derive(Clone, Debug, PartialEq)]
pub enum T1 {
    S(T2),
    /// start, end, inclusive
    Range(T2, T2, bool),
    /// target, operator, argument
    Ctl(T2, String, T2),
}

/// A choice of one or more options.
#[derive(Clone, Debug, PartialEq)]
pub struct Ty(pub Vec<T1>);

/// One or more alternatives, each a sequence of entries.
#[derive(Clone, Debug, PartialEq)]
pub struct Grp(pub Vec<Vec<Ent>>);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Occ {
    One,
    Opt,
    Star,
    Plus,
    /// written lower and upper bound
    Num(Option<u64>, Option<u64>),
}

impl Occ {
    pub fn bounds(self) -> (u64, u64) {
        match self {
            Occ::One => (1, 1),
            Occ::Opt => (0, 1),
            Occ::Star => (0, u64::MAX),
            Occ::Plus => (1, u64::MAX),
            Occ::Num(a, b) => (a.unwrap_or(0), b.unwrap_or(u64::MAX)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ent {
    pub occ: Occ,
    pub body: Body,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Body {
    Mem(Option<Key>, Ty),
    Par(Grp),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Key {
    Bare(String),
    Lit(Lit),
    /// type key with its cut flag
    Type(Box<T1>, bool),
}

impl Key {
    pub fn cut(&self) -> bool {
        match self {
            Key::Type(_, c) => *c,
            _ => true,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RBody {
    Ty(Ty),
    Ent(Ent),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rule {
    pub name: String,
    pub params: Vec<String>,
    pub body: RBody,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Schema(pub Vec<Rule>);

// ---------------------------------------------------------------- builders

pub fn name(s: &str) -> T1 {
    T1::S(T2::Name(Name { name: s.into(), args: vec![] }))
}
pub fn named(s: &str, args: Vec<T1>) -> T1 {
    T1::S(T2::Name(Name { name: s.into(), args }))
}
pub fn uint(u: u64) -> T1 {
    T1::S(T2::Lit(Lit::Uint(u)))
}
pub fn int(i: i64) -> T1 {
    T1::S(T2::Lit(if i < 0 { Lit::Nint(i) } else { Lit::Uint(i as u64) }))
}
pub fn text(s: &str) -> T1 {
    T1::S(T2::Lit(Lit::Text(s.into())))
}
pub fn bytes(b: &[u8]) -> T1 {
    T1::S(T2::Lit(Lit::Bytes(b.to_vec())))
}
pub fn float(f: f64) -> T1 {
    T1::S(T2::Lit(Lit::Float(f)))
}
pub fn arr(g: Grp) -> T1 {
    T1::S(T2::Arr(g))
}
pub fn map(g: Grp) -> T1 {
    T1::S(T2::Map(g))
}
pub fn paren(t: Ty) -> T1 {
    T1::S(T2::Paren(t))
}
pub fn unwrap(s: &str) -> T1 {
    T1::S(T2::Unwrap(Name { name: s.into(), args: vec![] }))
}
pub fn ty(t: T1) -> Ty {
    Ty(vec![t])
}
pub fn choice(t: Vec<T1>) -> Ty {
    Ty(t)
}
pub fn ent(occ: Occ, t: T1) -> Ent {
    Ent { occ, body: Body::Mem(None, Ty(vec![t])) }
}
pub fn ent_ty(occ: Occ, t: Ty) -> Ent {
    Ent { occ, body: Body::Mem(None, t) }
}
pub fn kv(occ: Occ, k: Key, t: T1) -> Ent {
    Ent { occ, body: Body::Mem(Some(k), Ty(vec![t])) }
}
pub fn par(occ: Occ, g: Grp) -> Ent {
    Ent { occ, body: Body::Par(g) }
}
pub fn seq(e: Vec<Ent>) -> Grp {
    Grp(vec![e])
}
pub fn rule(n: &str, t: Ty) -> Rule {
    Rule { name: n.into(), params: vec![], body: RBody::Ty(t) }
}
pub fn rule1(n: &str, t: T1) -> Rule {
    rule(n, Ty(vec![t]))
}
pub fn grule(n: &str, e: Ent) -> Rule {
    Rule { name: n.into(), params: vec![], body: RBody::Ent(e) }
}
pub fn prule(n: &str, params: &[&str], t: T1) -> Rule {
    Rule {
        name: n.into(),
        params: params.iter().map(|s| s.to_string()).collect(),
        body: RBody::Ty(Ty(vec![t])),
    }
}

// ---------------------------------------------------------------- printer
//
// The printer emits a token list; `gap` positions between tokens say whether
// blanks are optional or required there, so that layouts can be enumerated.

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok {
    /// literal characters
    T(String),
    /// blanks allowed (any number, including none)
    Gap,
    /// at least one blank is needed
    Sp,
    /// an optional comma surrounded by optional blanks
    Comma,
    /// an optional comma after the last entry of an alternative
    EndComma,
}

pub struct Printer {
    pub toks: Vec<Tok>,
}

impl Printer {
    fn t(&mut self, s: impl Into<String>) {
        self.toks.push(Tok::T(s.into()));
    }
    fn gap(&mut self) {
        self.toks.push(Tok::Gap);
    }
    pub fn gap_end(&mut self) {
        self.gap();
    }
    fn name(&mut self, n: &Name) {
        self.t(n.name.clone());
        if !n.args.is_empty() {
            self.t("<");
            self.gap();
            for (i, a) in n.args.iter().enumerate() {
                if i > 0 {
                    self.t(",");
                    self.gap();
                }
                self.t1(a);
                self.gap();
            }
            self.t(">");
        }
    }
    fn grp(&mut self, g: &Grp) {
        for (i, alt) in g.0.iter().enumerate() {
            if i > 0 {
                self.gap();
                self.t("//");
                self.gap();
            }
            for (j, e) in alt.iter().enumerate() {
                if j > 0 {
                    self.toks.push(Tok::Comma);
                }
                self.ent(e);
            }
            if !alt.is_empty() {
                self.toks.push(Tok::EndComma);
            }
        }
    }
    pub fn ent(&mut self, e: &Ent) {
        match e.occ {
            Occ::One => {}
            Occ::Opt => {
                self.t("?");
                self.gap();
            }
            Occ::Star => {
                self.t("*");
                // "* 3" must not be read as the bound "*3"
                self.toks.push(Tok::Sp);
            }
            Occ::Plus => {
                self.t("+");
                self.gap();
            }
            Occ::Num(a, b) => {
                let mut s = String::new();
                if let Some(a) = a {
                    s += &a.to_string();
                }
                s += "*";
                if let Some(b) = b {
                    s += &b.to_string();
                }
                self.t(s);
                self.toks.push(Tok::Sp);
            }
        }
        match &e.body {
            Body::Par(g) => {
                self.t("(");
                self.gap();
                self.grp(g);
                self.gap();
                self.t(")");
            }
            Body::Mem(k, t) => {
                match k {
                    None => {}
                    Some(Key::Bare(s)) => {
                        self.t(s.clone());
                        self.gap();
                        self.t(":");
                        self.gap();
                    }
                    Some(Key::Lit(l)) => {
                        self.t(lit(l));
                        self.gap();
                        self.t(":");
                        self.gap();
                    }
                    Some(Key::Type(k, cut)) => {
                        self.t1(k);
                        self.gap();
                        if *cut {
                            self.t("^");
                            self.gap();
                        }
                        self.t("=>");
                        self.gap();
                    }
                }
                self.ty(t);
            }
        }
    }
    fn t2(&mut self, t: &T2) {
        match t {
            T2::Lit(l) => self.t(lit(l)),
            T2::Name(n) => self.name(n),
            T2::Paren(t) => {
                self.t("(");
                self.gap();
                self.ty(t);
                self.gap();
                self.t(")");
            }
            T2::Map(g) => {
                self.t("{");
                self.gap();
                self.grp(g);
                self.gap();
                self.t("}");
            }
            T2::Arr(g) => {
                self.t("[");
                self.gap();
                self.grp(g);
                self.gap();
                self.t("]");
            }
            T2::Unwrap(n) => {
                self.t("~");
                self.gap();
                self.name(n);
            }
            T2::Amp(n) => {
                self.t("&");
                self.gap();
                self.name(n);
            }
            T2::AmpIn(g) => {
                self.t("&");
                self.gap();
                self.t("(");
                self.gap();
                self.grp(g);
                self.gap();
                self.t(")");
            }
        }
    }
    pub fn t1(&mut self, t: &T1) {
        match t {
            T1::S(t) => self.t2(t),
            T1::Range(a, b, inc) => {
                self.t2(a);
                // a name or a number directly before the dots would swallow them
                self.toks.push(match a {
                    T2::Name(_) | T2::Unwrap(_) | T2::Amp(_) => Tok::Sp,
                    _ => Tok::Gap,
                });
                self.t(if *inc { ".." } else { "..." });
                self.gap();
                self.t2(b);
            }
            T1::Ctl(a, op, b) => {
                self.t2(a);
                self.toks.push(match a {
                    T2::Name(_) | T2::Unwrap(_) | T2::Amp(_) => Tok::Sp,
                    _ => Tok::Gap,
                });
                self.t(format!(".{op}"));
                // the operator's name must not run into the argument
                self.toks.push(Tok::Sp);
                self.t2(b);
            }
        }
    }
    pub fn ty(&mut self, t: &Ty) {
        for (i, o) in t.0.iter().enumerate() {
            if i > 0 {
                self.gap();
                self.t("/");
                self.gap();
            }
            self.t1(o);
        }
    }
    pub fn rule(&mut self, r: &Rule) {
        self.t(r.name.clone());
        if !r.params.is_empty() {
            self.t("<");
            self.gap();
            for (i, p) in r.params.iter().enumerate() {
                if i > 0 {
                    self.t(",");
                    self.gap();
                }
                self.t(p.clone());
                self.gap();
            }
            self.t(">");
        }
        self.gap();
        self.t("=");
        self.gap();
        match &r.body {
            RBody::Ty(t) => self.ty(t),
            RBody::Ent(e) => self.ent(e),
        }
    }
}

pub fn lit(l: &Lit) -> String {
    match l {
        Lit::Uint(u) => u.to_string(),
        Lit::Nint(i) => {
            if *i == 0 {
                "-0".into()
            } else {
                i.to_string()
            }
        }
        Lit::Float(f) => {
            let s = format!("{f:?}");
            // Rust may print 1e16; both forms are CDDL floats
            s
        }
        Lit::Text(t) => text_lit(t),
        Lit::Bytes(b) => {
            let mut s = String::from("h'");
            for x in b {
                s += &format!("{x:02x}");
            }
            s + "'"
        }
    }
}

pub fn text_lit(t: &str) -> String {
    let mut s = String::from("\"");
    for c in t.chars() {
        match c {
            '"' => s += "\\\"",
            '\\' => s += "\\\\",
            c if (c as u32) < 0x20 || c as u32 == 0x7f || c as u32 > 0x10fffd => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    s += &format!("\\u{u:04x}");
                }
            }
            c => s.push(c),
        }
    }
    s + "\""
}

/// The default layout.
pub fn render(toks: &[Tok]) -> String {
    let mut s = String::new();
    for t in toks {
        match t {
            Tok::T(x) => s += x,
            Tok::Gap | Tok::EndComma => {}
            Tok::Sp => s.push(' '),
            Tok::Comma => s += ", ",
        }
    }
    s
}

pub fn toks_schema(s: &Schema) -> Vec<Vec<Tok>> {
    s.0.iter()
        .map(|r| {
            let mut p = Printer { toks: vec![] };
            p.rule(r);
            p.toks
        })
        .collect()
}

pub fn print_rule(r: &Rule) -> String {
    let mut p = Printer { toks: vec![] };
    p.rule(r);
    // spaces around operators make the default layout unambiguous to read
    let mut s = String::new();
    for t in &p.toks {
        match t {
            Tok::T(x) => match x.as_str() {
                "=" | "/" | "//" | "=>" | "^" | ".." | "..." => {
                    s.push(' ');
                    s += x;
                    s.push(' ');
                }
                ":" => s += ": ",
                _ => s += x,
            },
            Tok::Gap | Tok::EndComma => {}
            Tok::Sp => s.push(' '),
            Tok::Comma => s += ", ",
        }
    }
    s
}

pub fn print(s: &Schema) -> String {
    let mut o = String::new();
    for r in &s.0 {
        o += &print_rule(r);
        o.push('\n');
    }
    o
}

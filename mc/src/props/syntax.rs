//! Reading schemas (C18 to C22, C24).

use super::common::*;
use crate::refparse;
use std::collections::HashMap;
use std::sync::Arc;

// ------------------------------------------------------- trees by size

/// What the leaves of enumerated syntax trees are.
#[derive(Clone)]
pub struct Leaves {
    pub lits: Vec<Lit>,
    pub names: Vec<&'static str>,
    pub ops: Vec<&'static str>,
    pub occs: Vec<Occ>,
}

impl Leaves {
    fn small() -> Leaves {
        Leaves { lits: vec![Lit::Uint(1), Lit::Text("s".into())], names: vec!["a"], ops: vec!["size"], occs: vec![Occ::Opt, Occ::Num(Some(1), Some(2))] }
    }
    fn medium() -> Leaves {
        Leaves {
            lits: vec![Lit::Uint(0), Lit::Nint(-1), Lit::Float(1.5), Lit::Text("s".into()), Lit::Bytes(vec![1])],
            names: vec!["a", "int"],
            ops: vec!["size", "cbor"],
            occs: vec![Occ::Opt, Occ::Star, Occ::Plus, Occ::Num(Some(2), None), Occ::Num(None, Some(3)), Occ::Num(Some(1), Some(2))],
        }
    }
    fn large() -> Leaves {
        Leaves {
            lits: vec![
                Lit::Uint(0), Lit::Uint(12), Lit::Uint(u64::MAX), Lit::Nint(-1), Lit::Nint(i64::MIN), Lit::Float(1.5), Lit::Float(-1e20), Lit::Float(2.0), Lit::Text("".into()), Lit::Text("s".into()), Lit::Text("a\"\\;'\n".into()), Lit::Text("=> é".into()), Lit::Bytes(vec![]), Lit::Bytes(vec![1, 255]),
            ],
            names: vec!["a", "int", "a.b-c", "$$x", "h", "b64", "e1", "_", "@"],
            ops: vec!["size", "regexp", "cbor", "lt", "le", "gt", "ge", "x", "bits", "a.b", "default", "size1", "e5"],
            occs: vec![
                Occ::Opt, Occ::Star, Occ::Plus, Occ::Num(Some(0), None), Occ::Num(None, Some(0)), Occ::Num(Some(0), Some(0)), Occ::Num(Some(2), Some(1)), Occ::Num(Some(10), Some(4000000000)), Occ::Num(None, Some(7)), Occ::Num(Some(1), Some(1)),
            ],
        }
    }
}

#[derive(Clone)]
struct En {
    l: Leaves,
    t2: HashMap<usize, Arc<Vec<T2>>>,
    t1: HashMap<usize, Arc<Vec<T1>>>,
    ty: HashMap<usize, Arc<Vec<Ty>>>,
    ent: HashMap<usize, Arc<Vec<Ent>>>,
    alt: HashMap<usize, Arc<Vec<Vec<Ent>>>>,
    grp: HashMap<usize, Arc<Vec<Grp>>>,
    args: HashMap<usize, Arc<Vec<Vec<T1>>>>,
}

impl En {
    fn new(l: Leaves) -> En {
        En { l, t2: HashMap::new(), t1: HashMap::new(), ty: HashMap::new(), ent: HashMap::new(), alt: HashMap::new(), grp: HashMap::new(), args: HashMap::new() }
    }
    fn args(&mut self, n: usize) -> Arc<Vec<Vec<T1>>> {
        if let Some(x) = self.args.get(&n) {
            return x.clone();
        }
        let mut out = vec![];
        if n > 0 {
            for a in self.t1(n).iter() {
                out.push(vec![a.clone()]);
            }
            for i in 1..n {
                let (h, r) = (self.t1(i), self.args(n - i));
                for a in h.iter() {
                    for b in r.iter() {
                        let mut v = vec![a.clone()];
                        v.extend(b.iter().cloned());
                        out.push(v);
                    }
                }
            }
        }
        self.args.entry(n).or_insert(Arc::new(out)).clone()
    }
    fn each_t2(&mut self, n: usize, f: &mut dyn FnMut(T2)) {
        if n == 0 {
            return;
        }
        if n == 1 {
            for l in self.l.lits.clone() {
                f(T2::Lit(l));
            }
        }
        for name in self.l.names.clone() {
            let mk = |a: Vec<T1>| Name { name: name.into(), args: a };
            let argv = if n == 1 { Arc::new(vec![vec![]]) } else { self.args(n - 1) };
            for a in argv.iter() {
                f(T2::Name(mk(a.clone())));
                f(T2::Unwrap(mk(a.clone())));
                f(T2::Amp(mk(a.clone())));
            }
        }
        if n > 1 {
            for t in self.ty(n - 1).iter() {
                f(T2::Paren(t.clone()));
            }
        }
        for g in self.grp(n - 1).iter() {
            f(T2::Map(g.clone()));
            f(T2::Arr(g.clone()));
            f(T2::AmpIn(g.clone()));
        }
    }
    fn t2(&mut self, n: usize) -> Arc<Vec<T2>> {
        if let Some(x) = self.t2.get(&n) {
            return x.clone();
        }
        let mut v = vec![];
        self.each_t2(n, &mut |x| v.push(x));
        self.t2.entry(n).or_insert(Arc::new(v)).clone()
    }
    fn each_t1(&mut self, n: usize, f: &mut dyn FnMut(T1)) {
        self.each_t2(n, &mut |x| f(T1::S(x)));
        for i in 1..n.saturating_sub(1) {
            let (a, b) = (self.t2(i), self.t2(n - 1 - i));
            for x in a.iter() {
                for y in b.iter() {
                    f(T1::Range(x.clone(), y.clone(), true));
                    f(T1::Range(x.clone(), y.clone(), false));
                    for op in &self.l.ops {
                        f(T1::Ctl(x.clone(), op.to_string(), y.clone()));
                    }
                }
            }
        }
    }
    fn t1(&mut self, n: usize) -> Arc<Vec<T1>> {
        if let Some(x) = self.t1.get(&n) {
            return x.clone();
        }
        let mut v = vec![];
        self.each_t1(n, &mut |x| v.push(x));
        self.t1.entry(n).or_insert(Arc::new(v)).clone()
    }
    fn each_ty(&mut self, n: usize, f: &mut dyn FnMut(Ty)) {
        self.each_t1(n, &mut |x| f(Ty(vec![x])));
        for i in 1..n {
            let (h, r) = (self.t1(i), self.ty(n - i));
            for a in h.iter() {
                for b in r.iter() {
                    let mut v = vec![a.clone()];
                    v.extend(b.0.iter().cloned());
                    f(Ty(v));
                }
            }
        }
    }
    fn ty(&mut self, n: usize) -> Arc<Vec<Ty>> {
        if let Some(x) = self.ty.get(&n) {
            return x.clone();
        }
        let mut v = vec![];
        self.each_ty(n, &mut |x| v.push(x));
        self.ty.entry(n).or_insert(Arc::new(v)).clone()
    }
    fn each_body(&mut self, n: usize, f: &mut dyn FnMut(Body)) {
        if n == 0 {
            return;
        }
        self.each_ty(n, &mut |t| f(Body::Mem(None, t)));
        for i in 1..n {
            let v = self.ty(n - i);
            let mut keys: Vec<Key> = vec![];
            if i == 1 {
                keys.extend(self.l.names.iter().map(|n| Key::Bare(n.to_string())));
                keys.extend(self.l.lits.iter().map(|l| Key::Lit(l.clone())));
            }
            for k in self.t1(i).iter() {
                keys.push(Key::Type(Box::new(k.clone()), false));
                keys.push(Key::Type(Box::new(k.clone()), true));
            }
            for k in keys {
                for t in v.iter() {
                    f(Body::Mem(Some(k.clone()), t.clone()));
                }
            }
        }
        for g in self.grp(n - 1).iter() {
            f(Body::Par(g.clone()));
        }
    }
    fn each_ent(&mut self, n: usize, f: &mut dyn FnMut(Ent)) {
        self.each_body(n, &mut |b| f(Ent { occ: Occ::One, body: b }));
        if n > 1 {
            for occ in self.l.occs.clone() {
                self.each_body(n - 1, &mut |b| f(Ent { occ, body: b }));
            }
        }
    }
    fn ent(&mut self, n: usize) -> Arc<Vec<Ent>> {
        if let Some(x) = self.ent.get(&n) {
            return x.clone();
        }
        let mut v = vec![];
        self.each_ent(n, &mut |x| v.push(x));
        self.ent.entry(n).or_insert(Arc::new(v)).clone()
    }
    /// alternatives: sequences of entries
    fn alt(&mut self, n: usize) -> Arc<Vec<Vec<Ent>>> {
        if let Some(x) = self.alt.get(&n) {
            return x.clone();
        }
        let mut out = vec![];
        if n == 0 {
            out.push(vec![]);
        }
        for i in 1..=n {
            let (h, r) = (self.ent(i), self.alt(n - i));
            for a in h.iter() {
                for b in r.iter() {
                    let mut v = vec![a.clone()];
                    v.extend(b.iter().cloned());
                    out.push(v);
                }
            }
        }
        self.alt.entry(n).or_insert(Arc::new(out)).clone()
    }
    fn grp(&mut self, n: usize) -> Arc<Vec<Grp>> {
        if let Some(x) = self.grp.get(&n) {
            return x.clone();
        }
        let mut out: Vec<Grp> = self.alt(n).iter().map(|a| Grp(vec![a.clone()])).collect();
        for i in 0..n {
            let (h, r) = (self.alt(i), self.grp(n - 1 - i));
            for a in h.iter() {
                for b in r.iter() {
                    let mut v = vec![a.clone()];
                    v.extend(b.0.iter().cloned());
                    out.push(Grp(v));
                }
            }
        }
        self.grp.entry(n).or_insert(Arc::new(out)).clone()
    }
    /// rules whose body has the size
    fn each_rule(&mut self, n: usize, f: &mut dyn FnMut(Rule)) {
        let mut k = 0usize;
        let mut mk = |body: RBody| {
            let params: Vec<String> = match k % 3 {
                0 => vec![],
                1 => vec!["p".into()],
                _ => vec!["p".into(), "q-r".into()],
            };
            k += 1;
            f(Rule { name: if k % 2 == 0 { "r".into() } else { "long.name_1".into() }, params, body })
        };
        self.each_ty(n, &mut |t| mk(RBody::Ty(t)));
        self.each_ent(n, &mut |e| match (&e.occ, &e.body) {
            (Occ::One, Body::Mem(..)) => {}
            _ => mk(RBody::Ent(e)),
        });
    }
}

const PARTS: usize = 16;

/// All trees of the sizes.
fn trees_suite(name: &'static str, l: Leaves, max: usize, f: impl Fn(&Rule, &mut Worker) + Sync + 'static) -> Suite<'static> {
    let b = format!(
        "all rules with bodies of up to {max} nodes over {} literals, {} names, {} operators, {} occurrences, with 0 to 2 parameters",
        l.lits.len(),
        l.names.len(),
        l.ops.len(),
        l.occs.len()
    );
    // what the trees are put together from is shared
    let base = std::sync::OnceLock::new();
    suite(name, b, PARTS, move |part, w| {
        let base = base.get_or_init(|| {
            let mut en = En::new(l.clone());
            for n in 0..max {
                (en.args(n), en.ty(n), en.grp(n), en.t2(n));
            }
            en
        });
        let mut en = base.clone();
        for n in 1..=max {
            let mut k = 0;
            en.each_rule(n, &mut |r| {
                k += 1;
                if k % PARTS == part && !w.stopped() {
                    f(&r, w);
                }
            });
        }
    })
}

/// Some trees that show every construct.
pub fn snippets() -> Vec<String> {
    let types = [
        "1", "-1", "1.5", "-1e5", "\"s\"", "h'01ff'", "'q'", "b64'AQ=='", "0x1f", "0b101", "a", "a<b>", "a<1, b<c>>", "~a", "~a<b>", "&a", "&(a: 1, b: \"x\")", "(a)", "(a / b)", "[]", "{}", "[a, b]", "[a // b, c]", "[* a]", "[? a, + b, 2*3 c, *4 d, 5* e]", "{a: b}", "{\"k\" => b, 1: c, ? x ^=> y}",
        "{* tstr => any}", "{(a: 1, b: 2) // c: 3}", "1 .. 2", "1 ... 2.5", "a .. b", "uint .size 4", "tstr .size (1..2)", "tstr .regexp \"a.c\"", "bytes .cbor a", "int .lt 5", "[(a, b), ? (c // d)]", "{a: [b / c], ? d: {e: f}}", "[a: 1, 2 => 3]", "a / b / c", "[[[]]]", "{{} => []}", "[//]", "[a //]", "(1..2) / ~a / &b", "[~a, &(1)]",
    ];
    let mut out: Vec<String> = types.iter().map(|t| format!("r = {t}\n")).collect();
    out.extend(["r = (a: 1, ? b: 2)\n", "r = ? a\n", "r = * (a, b)\n", "r<p> = [p]\n", "r<p, q> = {p => q}\n", "r = a\ns = b\n", "r = (a, b)\ns<x> = [* x]\nt = {k: s<r>}\n", "r = ()\n", "r = (// a)\n", "r = + a: 1\n"].map(String::from));
    out
}

// ------------------------------------------------------------------ C18

pub fn c18(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let check = |r: &Rule, w: &mut Worker| {
        let text = crate::ast::print_rule(r);
        let tree = [r.clone()];
        if w.conform_to(&text, Some(&tree)) == Some(false) {
            w.outcome_named("printed-but-outside-the-grammar");
        }
    };
    out.push(trees_suite("small trees", Leaves::small(), if thorough { 5 } else { 4 }, check));
    out.push(trees_suite("trees with more leaves", Leaves::medium(), if thorough { 4 } else { 3 }, check));
    out.push(trees_suite("trees with many leaves", Leaves::large(), 3, check));
    // trees in the tightest layout
    out.push(trees_suite("small trees, no optional blanks", Leaves::small(), if thorough { 5 } else { 4 }, |r, w| {
        let mut p = crate::ast::Printer { toks: vec![] };
        p.rule(r);
        w.conform(&crate::ast::render(&p.toks));
    }));
    // schemas of several rules
    let sn = snippets();
    let n = sn.len();
    let s2 = sn.clone();
    out.push(suite("several rules", format!("all sequences of up to {} of {n} rules", if thorough { 3 } else { 2 }), n * n, move |k, w| {
        let two = format!("{}{}", s2[k % n], s2[k / n]);
        w.conform(&two);
        w.conform(two.trim_end());
        if thorough {
            for s in &s2 {
                w.conform(&format!("{two}{s}"));
            }
        }
    }));
    // blanks, line ends and comments where the grammar has room for them
    let fills = ["", " ", "\n", "\t", "\r\n", "  \n\t ", ";c\n", " ; c\n ", "\n\n;\n;x = 1\n", ",", " , ", "\n,\n", ";c\n,", ",,"];
    let s3 = sn.clone();
    out.push(suite("layout", format!("{n} constructs, each of their gaps filled in {} ways, alone, in pairs with the next and all alike", fills.len()), n, move |k, w| {
        let Ok(rules) = crate::refparse::parse(&s3[k]) else { return };
        for r in rules {
            let mut p = crate::ast::Printer { toks: vec![] };
            p.rule(&r.rule);
            p.gap_end();
            let toks = p.toks;
            let gaps: Vec<usize> = (0..toks.len()).filter(|j| !matches!(toks[*j], Tok::T(_))).collect();
            let fill = |f: &dyn Fn(usize) -> Option<&'static str>| -> String {
                let mut s = String::new();
                for (j, t) in toks.iter().enumerate() {
                    match (t, f(j)) {
                        (Tok::T(x), _) => s += x,
                        (_, Some(x)) => s += x,
                        (Tok::Sp, _) => s.push(' '),
                        (Tok::Comma, _) => s += ", ",
                        _ => {}
                    }
                }
                s
            };
            for (gi, g) in gaps.iter().enumerate() {
                for a in fills {
                    w.conform(&fill(&|j| (j == *g).then_some(a)));
                    if let Some(h) = gaps.get(gi + 1) {
                        for b in fills {
                            w.conform(&fill(&|j| if j == *g { Some(a) } else if j == *h { Some(b) } else { None }));
                        }
                    }
                }
            }
            for a in fills {
                w.conform(&fill(&|_| Some(a)));
            }
        }
    }));
    // every type in every place of every other
    let places = ["@", "(@)", "[@]", "[@, x]", "[x, @]", "[x // @]", "[@ // x]", "[? @]", "[2*3 @]", "[* @, x]", "{k: @}", "{@ => x}", "{@ ^=> x}", "{? @ => @}", "[(@)]", "[(@, x)]", "x / @", "@ / x", "g<@>", "g<x, @>", "~g<@>", "&g<@>", "&(k: @)", "&(@, x)", "@ .. x", "x ... @", "x .size @", "@ .cbor x", "[k: @]", "[* (@ // @)]"];
    let tys: Vec<String> = sn.iter().filter_map(|s| s.strip_prefix("r = ")).filter(|s| !s.trim_end().contains('\n')).map(|s| s.trim_end().to_string()).collect();
    let nt = tys.len();
    out.push(suite("every construct within every other", format!("{nt} constructs x {0} places{1}", places.len(), if thorough { format!(" x {} places", places.len()) } else { " x 12 places".into() }), nt * places.len(), move |k, w| {
        let one = places[k / nt].replace('@', &tys[k % nt]);
        w.conform(&format!("r = {one}\n"));
        for p in places.iter().take(if thorough { 99 } else { 12 }) {
            w.conform(&format!("r = {}\n", p.replace('@', &one)));
            w.conform(&format!("r = {}\n", p.replace('@', &format!("({one})"))));
        }
    }));
    // depth and length
    out.push(suite("deep and long schemas", "nesting of 12 constructs 1 to 40 deep, sequences of 9 constructs of 1 to 400 parts", 40, |d, w| {
        let d = d + 1;
        for (l, r) in [("[", "]"), ("{a: ", "}"), ("{", " => 1}"), ("g<", ">"), ("~g<", ">"), ("&(k: ", ")"), ("[1, ", "]"), ("[? ", ", 2]"), ("[1 // ", "]"), ("{? k: 1, * tstr => ", "}"), ("&g<1, ", ">"), ("h / [", "] / h")] {
            w.conform(&format!("r = {}x{}\n", l.repeat(d), r.repeat(d)));
        }
        if d <= 10 {
            for (l, r) in [("(", ")"), ("[(", ")]"), ("(1, ", ")"), ("[(1, ", "), 2]"), ("1 / (", ") / 2"), ("[* (", " // 1)]")] {
                w.conform(&format!("r = {}x{}\n", l.repeat(d), r.repeat(d)));
            }
        }
        let n = d * 10;
        for (sep, o, c) in [(", ", "[", "]"), (" // ", "[", "]"), (" / ", "", ""), (" ", "[", "]"), (", ", "g<", ">"), (", ? k: ", "{", "}"), (", * x => ", "{", "}"), (",\n", "&(", ")"), (" //\n", "(", ")")] {
            let v: Vec<String> = (0..n).map(|i| format!("x{i}")).collect();
            w.conform(&format!("r = {o}{}{c}\n", v.join(sep)));
        }
        let v: Vec<String> = (0..n).map(|i| format!("x{i} = {i}")).collect();
        w.conform(&v.join("\n"));
        w.conform(&v.join(" "));
        let v: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
        w.conform(&format!("r<{}> = 1\n", v.join(", ")));
    }));
    // realistic schemas and what is one word away
    let docs = crate::corpus::DOCS;
    out.push(suite("realistic schemas", format!("{} schemas and those one word away that the grammar allows", docs.len()), docs.len(), |k, w| {
        w.conform(docs[k].text);
        for s in crate::corpus::near_schemas(docs[k].text) {
            if w.stopped() {
                return;
            }
            w.conform(&s);
        }
    }));
    out
}

// ------------------------------------------------------------------ C19

pub const TOKENS: &[&str] = &[
    "t", "=", "1", "-1", "1.5", "\"s\"", "h'01'", "a", "<", ">", ",", "(", ")", "[", "]", "{", "}", "/", "//", "..", "...", ".size", "~", "&", "?", "*", "+", "2*3", "^", "=>", ":", ";c\n", "'q'",
];

fn nth(alpha: &[&str], len: usize, mut k: usize, join: &str) -> String {
    let mut s = String::new();
    for j in 0..len {
        if j > 0 {
            s += join;
        }
        s += alpha[k % alpha.len()];
        k /= alpha.len();
    }
    s
}

/// All strings of exactly `len` pieces in every context.
pub fn strings_suite(name: &'static str, alpha: &'static [&'static str], len: usize, joins: &'static [&'static str], contexts: &'static [&'static str], f: impl Fn(&str, &mut Worker) + Sync + 'static) -> Suite<'static> {
    let total = alpha.len().pow(len as u32);
    let chunk = (total / 512).max(1);
    let b = format!("all {total} strings of {len} of {} pieces, joined in {} ways, in {} contexts", alpha.len(), joins.len(), contexts.len());
    suite(name, b, total.div_ceil(chunk), move |item, w| {
        for k in item * chunk..((item + 1) * chunk).min(total) {
            if w.stopped() {
                return;
            }
            for j in joins {
                let s = nth(alpha, len, k, j);
                for c in contexts {
                    f(&c.replacen('#', &s, 1), w);
                }
                if len < 2 {
                    break;
                }
            }
        }
    })
}

pub const CHARS: &[&str] = &[
    "t", "a", "0", "1", "9", "x", "b", "e", "-", ".", "+", "*", "?", "/", "<", ">", "(", ")", "[", "]", "{", "}", "\"", "'", "h", ";", "=", ":", "~", "&", "^", ",", " ", "\n", "\r", "\t", "\\", "_", "u", "$", "#", "!", "é",
];

pub fn c19(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    fn conf(s: &str, w: &mut Worker) {
        w.conform(s);
    }
    const MANY: &[&str] = &["#", "t = #", "t = [#]", "t = {#}", "t = (#)", "t = g<#>", "t = &(#)", "t<#> = 1", "t = 1 #", "t = [1, # 2]", "t = 1 # u = 2", "t = {a: 1 # }", "# = 1", "t = a #", "t = x / #", "t = 1 .. #", "t = {# => 1}", "t = [2* #]"];
    const FEW: &[&str] = &["t #", "t = [#]", "t = {#}", "t = (#)", "t = 1 #", "t = [1 #]", "#"];
    out.push(strings_suite("token strings of 1", TOKENS, 1, &[" ", ""], MANY, conf));
    out.push(strings_suite("token strings of 2", TOKENS, 2, &[" ", ""], MANY, conf));
    out.push(strings_suite("token strings of 3", TOKENS, 3, &[" ", ""], MANY, conf));
    out.push(strings_suite("token strings of 4", TOKENS, 4, if thorough { &[" ", ""] } else { &[" "] }, if thorough { MANY } else { FEW }, conf));
    if thorough {
        const VERY_FEW: &[&str] = &["t = #", "t = [#]", "t = {#}"];
        out.push(strings_suite("token strings of 5", TOKENS, 5, &[" "], VERY_FEW, conf));
    }
    const CCTX: &[&str] = &[
        "#", "t=#", "t=[#]", "t={#}", "t=(#)", "t=1#", "t=a#", "t=\"#", "t='#", "t=h'#", "t=[1#]", "t={a:#}", "t={a#1}", "t#=1", "t=1;#", "t=a<#>", "t<#>=1", "t=1\n#", "t = a.#", "t = 1.#2", "t = -#", "t = 0#", "t = 1e#", "t = \"\\#\"", "t = \"a#\"", "t = b64'#'", "t = 'a#'", "t = [#* a]", "t = &#", "t = ~#", "#t = 1", "t = 1 #",
    ];
    out.push(strings_suite("character strings of 1", CHARS, 1, &[""], CCTX, conf));
    out.push(strings_suite("character strings of 2", CHARS, 2, &[""], CCTX, conf));
    out.push(strings_suite("character strings of 3", CHARS, 3, &[""], CCTX, conf));
    const CFEW: &[&str] = &["t=#", "t=1#", "t=[a#]", "t={#}", "t=(#)", "t=a#", "t=[#]", "#"];
    if thorough {
        out.push(strings_suite("character strings of 4", CHARS, 4, &[""], CFEW, conf));
    } else {
        out.push(strings_suite("character strings of 4", CHARS, 4, &[""], &["t=#"], conf));
    }
    // identifiers
    const IDC: &[&str] = &["a", "B", "1", "-", ".", "_", "$", "@", "é", " "];
    const IDX: &[&str] = &["#=1", "t=#", "t={#:1}", "t={#=>1}", "t=~#", "t=&#", "t=#<1>", "t<#>=1", "t=1 .#1", "t=[#,1]", "t=[# 1]", "t=#..1", "t=1..#", "t=#"];
    for (n, name) in [(1, "identifiers of 1"), (2, "identifiers of 2"), (3, "identifiers of 3"), (4, "identifiers of 4")] {
        out.push(strings_suite(name, IDC, n, &[""], IDX, conf));
    }
    out.push(strings_suite("identifiers of 5", IDC, 5, &[""], if thorough { IDX } else { &["t=[#,1]"] }, conf));
    // numbers
    const NUMC: &[&str] = &["0", "1", "9", "-", "+", ".", "e", "x", "b", "a", "E", "_"];
    const NUMX: &[&str] = &["t=#", "t={#:1}", "t={# =>1}", "t=[#*1 a]", "t=[1*# a]", "t=[# a]", "t=1..#", "t=#..9", "t=1 .size #"];
    for (n, name) in [(1, "numbers of 1"), (2, "numbers of 2"), (3, "numbers of 3"), (4, "numbers of 4"), (5, "numbers of 5")] {
        out.push(strings_suite(name, NUMC, n, &[""], if n < 5 || thorough { NUMX } else { &["t=#"] }, conf));
    }
    if thorough {
        out.push(strings_suite("numbers of 6", NUMC, 6, &[""], &["t=#", "t=[#*1 a]"], conf));
    }
    // every character of Unicode at the seams
    let ctx: &[&str] = &["t = 1#", "t = 1 # ", "#t = 1", "t# = 1", "t = a#b", "t = [1#2]", "t = [1 #,2]", "t = {a#: 1}", "t = a .#size 1", "t = 1 / #", "t = 1..#2", "t = 1 ; #\n", "t = <#>"];
    out.push(suite("every character at every seam", format!("all 1112064 characters in {} contexts", ctx.len()), 272, move |k, w| {
        for c in (k as u32 * 4096..(k as u32 + 1) * 4096).filter_map(char::from_u32) {
            if w.stopped() {
                return;
            }
            let s = c.to_string();
            for x in ctx.iter().take(if thorough || c as u32 <= 0x3000 { 99 } else { 4 }) {
                w.conform(&x.replace('#', &s));
            }
        }
    }));
    // edits of realistic schemas
    let docs = crate::corpus::DOCS;
    let texts: Vec<String> = docs.iter().map(|d| d.text.to_string()).chain(snippets()).collect();
    let jobs: Vec<(usize, usize)> = texts.iter().enumerate().flat_map(|(d, t)| (0..crate::corpus::words(t).len()).map(move |k| (d, k))).collect();
    let nj = jobs.len();
    let (t2, j2) = (texts.clone(), jobs.clone());
    out.push(suite("realistic schemas with one edit", format!("{} schemas: every word deleted, doubled, exchanged, replaced by or preceded by each of {} words", texts.len(), TOKENS.len() + 8), nj, move |j, w| {
        let (d, k) = j2[j];
        let ws = crate::corpus::words(&t2[d]);
        let v: Vec<&str> = ws.iter().map(|x| x.as_str()).collect();
        let mut go = |v: &[&str]| {
            w.conform(&v.concat());
        };
        let mut x = v.clone();
        x.remove(k);
        go(&x);
        let mut x = v.clone();
        x.insert(k, v[k]);
        go(&x);
        for l in k + 1..(k + 4).min(v.len()) {
            let mut x = v.clone();
            x.swap(k, l);
            go(&x);
        }
        for p in TOKENS.iter().chain(&[" ", "\n", "=>1", "a:", "é", "\"", "'", "\\"]) {
            let mut x = v.clone();
            x[k] = p;
            go(&x);
            let mut x = v.clone();
            x.insert(k, p);
            go(&x);
            let sp = format!(" {p} ");
            let mut x = v.clone();
            x[k] = &sp;
            go(&x);
            let mut x = v.clone();
            x.insert(k, &sp);
            go(&x);
        }
    }));
    let (t2, j2) = (texts.clone(), jobs);
    let nsn = docs.len();
    out.push(suite("schemas with two edits", format!("every pair of deletions or doublings in {}", if thorough { "all schemas" } else { "the short schemas" }), nj, move |j, w| {
        let (d, k) = j2[j];
        if d < nsn && !thorough {
            return;
        }
        let ws = crate::corpus::words(&t2[d]);
        let v: Vec<&str> = ws.iter().map(|x| x.as_str()).collect();
        for l in k + 1..v.len() {
            if w.stopped() {
                return;
            }
            for e in 0..4 {
                let mut x = v.clone();
                if e & 1 == 0 {
                    x.remove(l);
                } else {
                    x.insert(l, v[k]);
                }
                if e & 2 == 0 {
                    x.remove(k);
                } else {
                    x.insert(k, v[l]);
                }
                w.conform(&x.concat());
            }
        }
    }));
    out
}

// ------------------------------------------------------------------ C20

/// A literal in the places where one can stand.
pub const LIT_PLACES: &[&str] = &["t=#", "t={#: 1}", "t={# => 1}", "t=[#, 1]", "t=[1, #]", "t=g<#>", "t=1 / # / 2", "t=1 .size #", "t=# .size 1", "t=#..5", "t=1 .. #", "t=1 ... #", "t=&(a: #)", "t=[* #]", "t={a: #}", "t={# ^=> #}", "t=(#)", "t=[(#)]\n"];

fn lits_suite(name: &'static str, bounds: &str, list: Vec<String>, all: bool) -> Suite<'static> {
    let places = if all { LIT_PLACES.len() } else { 1 };
    let b = format!("{bounds}; {} spellings in {places} places", list.len());
    let chunk = (list.len() / 400).max(1);
    suite(name, b, list.len().div_ceil(chunk), move |k, w| {
        for l in &list[k * chunk..((k + 1) * chunk).min(list.len())] {
            if w.stopped() {
                return;
            }
            for p in LIT_PLACES.iter().take(places) {
                w.conform(&p.replace('#', l));
            }
        }
    })
}

pub fn c20(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    // ---- integers
    out.push(suite("all small integers", "every integer from -100000 to 100000 in decimal, hexadecimal (both cases, leading zeros) and binary", 201, |k, w| {
        for n in k * 1000..(k + 1) * 1000 {
            let n = n as i64 - 100_500;
            let s = if n < 0 { "-" } else { "" };
            let u = n.unsigned_abs();
            for t in [format!("{s}{u}"), format!("{s}0x{u:x}"), format!("{s}0x{u:X}"), format!("{s}0x00{u:x}"), format!("{s}0b{u:b}"), format!("{s}0b0{u:b}")] {
                w.conform(&format!("t={t}"));
            }
            if n % 37 == 0 {
                for p in LIT_PLACES {
                    w.conform(&p.replace('#', &n.to_string()));
                }
            }
        }
    }));
    let mut v = vec![];
    for k in 0..=70u32 {
        for d in -3i128..=3 {
            let n = (1i128 << k) + d;
            if n < 0 {
                continue;
            }
            v.extend([format!("{n}"), format!("-{n}"), format!("0x{n:x}"), format!("0x{n:X}"), format!("-0x{n:x}"), format!("0b{n:b}"), format!("-0b{n:b}"), format!("0{n}"), format!("+{n}"), format!("0x0000000000000000000{n:x}"), format!("{n}0"), format!("{n}_")]);
        }
    }
    for k in 1..=22 {
        for d in ["1", "9", "5"] {
            v.push(format!("{d}{}", "0".repeat(k - 1)));
            v.push(format!("-{d}{}", "0".repeat(k - 1)));
            v.push(d.repeat(k));
            v.push(format!("-{}", d.repeat(k)));
        }
        v.push(format!("0x{}", "f".repeat(k)));
        v.push(format!("-0x{}", "f".repeat(k)));
    }
    for k in 60..=70 {
        v.push(format!("0b{}", "1".repeat(k)));
        v.push(format!("-0b1{}", "0".repeat(k)));
    }
    v.extend(["0x", "0b", "0xg", "0b2", "0B1", "0X1", "00", "01", "-00", "-01", "--1", "- 1", "0x-1", "0x 1", "1 2", "-", "-a", "0x1g", "0b12", "0b1a"].map(String::from));
    out.push(lits_suite("integers around powers of two and limits", "bases, signs, leading zeros, up to 70 bits", v, true));
    // occurrences
    let nums: Vec<String> = ["0", "1", "7", "10", "007", "0x10", "0XFF", "0b11", "4294967295", "4294967296", "9223372036854775807", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-1", "1.5", "1e2", "0x1F", "0xg", "", "a"].map(String::from).to_vec();
    let n2 = nums.clone();
    out.push(suite("occurrence bounds", format!("{0} x {0} spellings of the bounds in 6 places", nums.len()), nums.len(), move |k, w| {
        for hi in &n2 {
            for f in ["t=[@ a]", "t=[@ (a, b)]", "t={@ a: 1}", "t=[1, @ \"s\"]", "t=[@ 5]", "t=[(@ a)]"] {
                for st in [format!("{}*{hi}", n2[k]), format!("{} *{hi}", n2[k]), format!("{}* {hi}", n2[k])] {
                    w.conform(&f.replace('@', &st));
                }
            }
        }
    }));
    // ---- floats
    out.push(suite("short floats", "all i.f with up to 3 and 3 digits, with and without exponents -12 to 12", 1000, move |k, w| {
        for f in 0..1000 {
            for fr in [format!("{f}"), format!("{f:03}")] {
                for s in ["", "-"] {
                    w.conform(&format!("t={s}{k}.{fr}"));
                }
            }
            let e = (k * 31 + f) % 25;
            let e = e as i64 - 12;
            w.conform(&format!("t={k}.{f}e{e}"));
            if thorough {
                for e in -12..=12 {
                    w.conform(&format!("t=-{k}.{f}e{e}"));
                }
            }
        }
    }));
    out.push(suite("exponents", "31 mantissas x all exponents from -400 to 400, with and without signs and leading zeros", 801, |k, w| {
        let e = k as i64 - 400;
        let m = ["1", "2", "5", "9", "10", "1.0", "1.5", "0", "0.0", "0.1", "4.9", "4.94065645841246544", "2.4703282292062327", "2.4703282292062328", "2.2250738585072014", "2.2250738585072011", "1.7976931348623157", "1.7976931348623158", "1.7976931348623159", "17976931348623157", "9007199254740993", "9007199254740993.0", "0.000001", "123456789012345678901234567890", "3.14159265358979323846264338327950288", "8.5", "6.02214076", "0.5", "1.00000000000000011102230246251565", "1.00000000000000011102230246251566", "4503599627370497.5"];
        for x in m {
            for s in ["", "-"] {
                w.conform(&format!("t={s}{x}e{e}"));
                if e >= 0 {
                    w.conform(&format!("t={s}{x}e+{e}"));
                    w.conform(&format!("t={s}{x}e0{e}"));
                    w.conform(&format!("t={s}{x}e-{e}"));
                    w.conform(&format!("t={s}{x}e-0{e}"));
                }
            }
        }
    }));
    // halfway cases: the decimal expansion of the middle of two doubles and its neighbours
    out.push(suite("halfway cases", "decimal spellings of the doubles around 2^e, of the middles between them, and one digit above and below, e from -30 to 62", 93, |k, w| {
        let e = k as i32 - 30;
        for j in 0..64u64 {
            // (2^53 + j) * 2^(e-53) + half an ulp
            let num = ((1u128 << 53) + j as u128) * 2 + 1;
            let exp = e - 54;
            let t = exact_decimal(num, exp);
            for x in [t.clone(), format!("{t}1"), format!("{t}0"), below(&t)] {
                let x = if x.contains('.') { x } else { format!("{x}.0") };
                w.conform(&format!("t={x}"));
                w.conform(&format!("t=-{x}"));
            }
        }
    }));
    let mut v = vec![];
    for i in ["", "0", "1", "12", "00", "01"] {
        for f in ["", ".", ".0", ".5", ".00", ". 5", ".5.5", ".e", "..5"] {
            for e in ["", "e", "e1", "e+", "e-", "e+1", "e-1", "E1", "e 1", "e1.5", "ee1", "e01", "e--1", "e1e1", "p1"] {
                for s in ["", "-", "+"] {
                    v.push(format!("{s}{i}{f}{e}"));
                }
            }
        }
    }
    for x in ["0x1.5", "0x1.8p1", "0b1.1", "0b1e1", "0x1e5", "inf", "nan", "Infinity", "NaN", "-inf", "1e999", "-1e999", "1e-999", "1e99999999999999999999", "0e99999999999", "1.5e+400", "0.00000000000000000000000000000000000000000000000001e50", "1e400", "1.0e308", "1.8e308"] {
        v.push(x.into());
    }
    let mut big = vec![];
    for i in ["4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999", "340282366920938463463374607431768211456", "1000000000000000000000000000000000000000000000000000000000000"] {
        for f in [".0", ".5", "e0", "e1", "e-3", ".25e2", ".", "e", "*", " *", "* a", "x", " x", ""] {
            for sg in ["", "-"] {
                big.push(format!("{sg}{i}{f}"));
            }
        }
    }
    out.push(lits_suite("numbers whose integer part exceeds a limit", "integer part x rest", big, true));
    out.push(lits_suite("shapes of numbers", "integer part x fraction x exponent x sign", v, true));
    // ---- text
    out.push(suite("every character in text and byte strings", "all 1112064 characters, plain and after a backslash", 272, move |k, w| {
        for c in (k as u32 * 4096..(k as u32 + 1) * 4096).filter_map(char::from_u32) {
            if w.stopped() {
                return;
            }
            w.conform(&format!("t=\"{c}\""));
            w.conform(&format!("t='{c}'"));
            if thorough || (c as u32) < 0x3000 {
                w.conform(&format!("t=\"\\{c}\""));
                w.conform(&format!("t='\\{c}'"));
                w.conform(&format!("t={{\"a{c}b\": 1}}"));
                w.conform(&format!("t=h'{c}'"));
                w.conform(&format!("t=h'0{c}1'"));
                w.conform(&format!("t=b64'{c}AAA'"));
                w.conform(&format!("t=\"\\u00{c}1\""));
            }
        }
    }));
    out.push(suite("every \\u escape", "all 65536 code units, upper and lower case, in text and byte strings", 256, |k, w| {
        for u in k * 256..(k + 1) * 256 {
            w.conform(&format!("t=\"\\u{u:04x}\""));
            w.conform(&format!("t=\"a\\u{u:04X}1\""));
            w.conform(&format!("t='\\u{u:04x}'"));
        }
    }));
    out.push(suite("surrogate pairs", "all 1024 x 1024 pairs, half of them also within other text, and all pairs at the edges of the surrogate ranges", 1026, |k, w| {
        let hi = 0xd7ff + k;
        for lo in (0xdbfe..=0xe001).step_by(1) {
            w.conform(&format!("t=\"\\u{hi:04x}\\u{lo:04x}\""));
            if lo % 64 == 0 {
                w.conform(&format!("t=\"x\\u{hi:04X}\\u{lo:04X}y\""));
                w.conform(&format!("t='\\u{hi:04X}\\u{lo:04X}'"));
                w.conform(&format!("t=\"\\u{lo:04x}\\u{hi:04x}\""));
                w.conform(&format!("t=\"\\u{hi:04x} \\u{lo:04x}\""));
            }
        }
    }));
    const PIECES: &[&str] = &["a", "\\n", "\\\"", "\\\\", "\\'", "\\/", "\\u0041", "\\ud83d\\ude00", "\\ud83d", "\\u12", "é", "😀", "'", "\"", " ", ";", "\\b", "\\x", "\\", "=>", "\n", "\u{10ffff}", "\u{7f}", "\\u{41}", "\\U0041", "\\t\\f\\r", "\\0"];
    const PCTX: &[&str] = &["t=\"#\"", "t='#'", "t={\"#\": 1}", "t=[\"#\", 1]", "t=\"#\" / 1"];
    fn conf(s: &str, w: &mut Worker) {
        w.conform(s);
    }
    out.push(strings_suite("pieces of text: 1", PIECES, 1, &[""], PCTX, conf));
    out.push(strings_suite("pieces of text: 2", PIECES, 2, &[""], PCTX, conf));
    out.push(strings_suite("pieces of text: 3", PIECES, 3, &[""], PCTX, conf));
    out.push(strings_suite("pieces of text: 4", PIECES, 4, &[""], if thorough { PCTX } else { &["t=\"#\"", "t='#'"] }, conf));
    // ---- byte strings
    const HEX: &[&str] = &["0", "9", "a", "F", "g", " ", "'", "x", "\n", ";", "é"];
    const HCTX: &[&str] = &["t=h'#'", "t={h'#' => 1}"];
    for (n, name) in [(1, "hex of 1"), (2, "hex of 2"), (3, "hex of 3"), (4, "hex of 4"), (5, "hex of 5"), (6, "hex of 6")] {
        if n < 6 || thorough {
            out.push(strings_suite(name, HEX, n, &[""], HCTX, conf));
        }
    }
    const B64: &[&str] = &["A", "B", "Q", "z", "9", "-", "_", "=", "+", " ", "!", "'"];
    for (n, name) in [(1, "base64 of 1"), (2, "base64 of 2"), (3, "base64 of 3"), (4, "base64 of 4"), (5, "base64 of 5"), (6, "base64 of 6")] {
        if n < 6 || thorough {
            out.push(strings_suite(name, B64, n, &[""], &["t=b64'#'"], conf));
        }
    }
    out.push(suite("bytes spelled in every way", "all strings of 1 and 2 bytes and all 3-byte strings over 24 values, as hex of both cases and with blanks and as base64url, with the last characters varied", 256, |k, w| {
        let b64 = |d: &[u8]| {
            const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
            let mut s = String::new();
            for c in d.chunks(3) {
                let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
                for j in 0..=c.len() {
                    s.push(A[(n >> (18 - 6 * j)) as usize & 63] as char);
                }
                for _ in c.len()..3 {
                    s.push('=');
                }
            }
            s
        };
        let mut one = |d: &[u8]| {
            let h = hex(d);
            w.conform(&format!("t=h'{h}'"));
            w.conform(&format!("t=h'{}'", h.to_uppercase()));
            w.conform(&format!("t=h' {}'", h.chars().map(|c| c.to_string()).collect::<Vec<_>>().join(" ")));
            w.conform(&format!("t=b64'{}'", b64(d)));
        };
        let x = k as u8;
        one(&[x]);
        one(&[]);
        for y in 0..=255u8 {
            one(&[x, y]);
        }
        for y in (0..=255u8).step_by(11) {
            for z in (0..=255u8).step_by(11) {
                one(&[x, y, z]);
                one(&[x, y, z, x ^ y]);
            }
        }
        // leftover bits of the last character
        const A: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
        if k < 64 {
            for c in A.chars() {
                let d = A.as_bytes()[k] as char;
                w.conform(&format!("t=b64'{d}{c}=='"));
                w.conform(&format!("t=b64'A{d}{c}='"));
                w.conform(&format!("t=b64'{d}{c}AA'"));
                w.conform(&format!("t=b64'AA{d}{c}'"));
            }
        }
    }));
    out.push(long_literals(thorough, conf));
    // the value that a literal denotes is what is validated
    let v = arc(vals(super::rules::pool().into_iter().chain(int_grid().into_iter().map(i)).chain(float_grid().into_iter().map(f)).chain([t("\n"), t("\\"), t("\""), t("'"), t("é"), t("😀"), t("A"), b("é".as_bytes()), b(&[255, 254]), b(b"A"), b(b"'"), b(b"\"")]).collect()));
    let lits = ["0", "1", "0x1", "0b11", "-1", "-0x1", "255", "256", "18446744073709551615", "-9223372036854775808", "9223372036854775808", "1.5", "-1.5", "1e10", "0.1", "1e300", "1e17", "9007199254740993.0", "\"\"", "\"a\"", "\"\\n\"", "\"\\\\\"", "\"\\\"\"", "\"'\"", "\"é\"", "\"\\u00e9\"", "\"\\ud83d\\ude00\"", "\"A\"", "'a'", "'é'", "'\\''", "'\"'", "h''", "h'01'", "h'6161'", "h' 6 1'", "b64'YWE='", "b64'__4='", "b64'QQ=='", "''", "65536.0", "1e2"];
    out.push(suite("literals against data", format!("{} literals against {} values as type, key and argument", lits.len(), v.len()), lits.len(), move |k, w| {
        let l = lits[k];
        w.sweep(&cddl(&format!("t={l}")), "t", &v);
        w.sweep(&cddl(&format!("t=g<{l}>\ng<X>=X / null")), "t", &v);
        let keyed = vals(v.iter().map(|x| m(vec![(x.v.clone(), i(1))])).collect());
        w.sweep(&cddl(&format!("t={{{l} => 1}}")), "t", &keyed);
        w.sweep(&cddl(&format!("t={{? {l} : 1, * any => tstr}}")), "t", &keyed);
    }));
    out
}

/// num * 2^exp in full decimal digits.
fn exact_decimal(num: u128, exp: i32) -> String {
    // digits, little endian
    let mut d: Vec<u8> = num.to_string().bytes().rev().map(|c| c - b'0').collect();
    let mut point = 0usize;
    let mul = |d: &mut Vec<u8>, m: u8| {
        let mut c = 0u32;
        for x in d.iter_mut() {
            c += *x as u32 * m as u32;
            *x = (c % 10) as u8;
            c /= 10;
        }
        while c > 0 {
            d.push((c % 10) as u8);
            c /= 10;
        }
    };
    if exp >= 0 {
        for _ in 0..exp {
            mul(&mut d, 2);
        }
    } else {
        for _ in 0..-exp {
            mul(&mut d, 5);
            point += 1;
        }
    }
    while d.len() <= point {
        d.push(0);
    }
    let s: String = d.iter().rev().map(|x| (b'0' + x) as char).collect();
    let (a, b) = s.split_at(s.len() - point);
    let b = b.trim_end_matches('0');
    if b.is_empty() {
        a.to_string()
    } else {
        format!("{a}.{b}")
    }
}

/// The same with the last digit one lower and nines after it.
fn below(t: &str) -> String {
    let mut v: Vec<u8> = t.bytes().collect();
    for k in (0..v.len()).rev() {
        if v[k] == b'.' {
            continue;
        }
        if v[k] > b'0' {
            v[k] -= 1;
            break;
        }
        v[k] = b'9';
    }
    let s = String::from_utf8(v).unwrap();
    // no leading zeros
    let s = match s.trim_start_matches('0') {
        x if x.is_empty() || x.starts_with('.') => format!("0{x}"),
        x => x.to_string(),
    };
    if s.contains('.') {
        s + "999"
    } else {
        s + ".999"
    }
}

// ------------------------------------------------------------------ C21

/// The tokens of a schema with what may stand between them.
fn toks(s: &Schema) -> Vec<Tok> {
    let mut out = vec![Tok::Gap];
    for (k, r) in crate::ast::toks_schema(s).into_iter().enumerate() {
        if k > 0 {
            out.push(Tok::Sp);
        }
        out.extend(r);
    }
    out.push(Tok::Gap);
    out
}

#[derive(Clone, Copy)]
enum Base {
    Tight,
    Blank,
    Lines,
}

fn default_fill(t: &Tok, b: Base) -> String {
    match (t, b) {
        (Tok::T(s), _) => s.clone(),
        (Tok::Gap | Tok::EndComma, Base::Tight) => String::new(),
        (Tok::Gap | Tok::Sp, Base::Blank) | (Tok::Sp, Base::Tight) => " ".into(),
        (Tok::Comma, Base::Tight) => ",".into(),
        (Tok::Comma, Base::Blank) => ", ".into(),
        (Tok::EndComma, Base::Blank) => " ".into(),
        (Tok::Gap | Tok::Sp, Base::Lines) => "\n".into(),
        (Tok::Comma, Base::Lines) => "\n,\n".into(),
        (Tok::EndComma, Base::Lines) => "\n,\n".into(),
    }
}

const FILL: &[&str] = &[
    "", " ", "  ", "\t", "\n", "\r\n", "\n\n", " \n\t ", ";\n", ";c\n", ";c\r\n", " ;c\n ", ";;;\n", "; a = 1\n", "; \"x\n", "; 'y\n", "; ] } ) > , //\n", ";\\\n", ";é\u{10ffff}\u{0}\n", ";c\n;d\r\n", "\n; c \n\n", ";=\n", ";/*\n",
];
const FILL2: &[&str] = &["", " ", "\n", ";c\n", "\r\n"];
const COMMAS: &[&str] = &[" ", ",", ", ", " ,", " , ", "\n", "\n,\n", ";c\n", ",;c\n", ";c\n,", ";c\n,;d\n", ";,\n", "\r\n,\r\n", "\t,\t", ""];

fn fills<'a>(t: &Tok, few: bool) -> &'a [&'a str] {
    match t {
        Tok::T(_) => &[],
        Tok::Gap => {
            if few {
                FILL2
            } else {
                FILL
            }
        }
        Tok::Sp => {
            if few {
                &[" ", "\n", ";c\n", ""]
            } else {
                FILL
            }
        }
        Tok::Comma => {
            if few {
                &[" ", ",", ";c\n,", "\n", ""]
            } else {
                COMMAS
            }
        }
        Tok::EndComma => {
            if few {
                &["", ",", " ,;c\n"]
            } else {
                &["", " ", ",", " ,", ", ", ";c\n", ",;c\n", "\n,\n", ";,\n"]
            }
        }
    }
}

struct Layouts {
    toks: Vec<Tok>,
    tree: Vec<Rule>,
}

impl Layouts {
    fn new(s: &Schema) -> Layouts {
        let toks = toks(s);
        Layouts { toks, tree: s.0.clone() }
    }
    fn render(&self, b: Base, changes: &[(usize, &str)]) -> String {
        let mut s = String::new();
        for (k, t) in self.toks.iter().enumerate() {
            match changes.iter().find(|c| c.0 == k) {
                Some((_, f)) => s += f,
                None => s += &default_fill(t, b),
            }
        }
        s
    }
    fn holes(&self) -> Vec<usize> {
        (0..self.toks.len()).filter(|k| !matches!(self.toks[*k], Tok::T(_))).collect()
    }
    /// The text must be read as the tree. With nothing left between two
    /// tokens they may run together: then there is nothing to say.
    fn check(&self, text: &str, glued: bool, w: &mut Worker) {
        let (r, work) = refparse::parse_counted(text);
        w.st.steps += work;
        match r {
            Ok(r) if r.len() == self.tree.len() && r.iter().zip(&self.tree).all(|(a, b)| crate::conv::norm_rule(&a.rule) == crate::conv::norm_rule(b)) => {}
            _ if glued => return,
            Ok(_) => panic!("the layout changes the reference tree:\n{text:?}"),
            Err(e) => panic!("the layout does not parse ({e:?}):\n{text:?}"),
        }
        w.st.schemas += 1;
        w.st.states += 1;
        w.st.traces += 1;
        w.publish(&["P\n", text]);
        let got = w.imp(|| parse_verdict(text, &[&self.tree])).unwrap_or(PANIC);
        w.outcome(got);
        if got != crate::refsem::OK {
            w.differ(Case::Parse { text: text.into() }, crate::refsem::OK, got, "parsing another layout");
        }
        w.sample(|| serde_json::json!({"text": text}));
    }
    fn one(&self, hole: usize, few: bool, w: &mut Worker) {
        for b in [Base::Tight, Base::Blank, Base::Lines] {
            for f in fills(&self.toks[hole], few) {
                if w.stopped() {
                    return;
                }
                let text = self.render(b, &[(hole, f)]);
                self.check(&text, f.is_empty() || matches!(b, Base::Tight), w);
            }
        }
    }
    fn pairs(&self, hole: usize, reach: usize, w: &mut Worker) {
        for other in self.holes().into_iter().filter(|h| *h > hole).take(reach) {
            for f in fills(&self.toks[hole], true) {
                for g in fills(&self.toks[other], true) {
                    if w.stopped() {
                        return;
                    }
                    let text = self.render(Base::Tight, &[(hole, f), (other, g)]);
                    self.check(&text, true, w);
                }
            }
        }
    }
    fn whole(&self, w: &mut Worker) {
        for b in [Base::Tight, Base::Blank, Base::Lines] {
            self.check(&self.render(b, &[]), matches!(b, Base::Tight), w);
        }
        for f in FILL.iter().filter(|f| !f.is_empty()) {
            for comma in [true, false] {
                let ch: Vec<(usize, String)> = self
                    .holes()
                    .into_iter()
                    .map(|h| {
                        let s = match self.toks[h] {
                            Tok::Comma | Tok::EndComma if comma => format!("{f},{f}"),
                            _ => f.to_string(),
                        };
                        (h, s)
                    })
                    .collect();
                let ch: Vec<(usize, &str)> = ch.iter().map(|(a, b)| (*a, b.as_str())).collect();
                self.check(&self.render(Base::Tight, &ch), false, w);
            }
        }
    }
}

pub fn c21(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let l = Leaves::small();
    out.push(trees_suite("one gap of every small tree", l.clone(), if thorough { 4 } else { 3 }, |r, w| {
        let text = crate::ast::print_rule(r);
        match refparse::parse(&text) {
            Ok(x) if x.len() == 1 => {
                let ly = Layouts::new(&Schema(vec![x.into_iter().next().unwrap().rule]));
                for h in ly.holes() {
                    ly.one(h, true, w);
                }
            }
            _ => {}
        }
    }));
    let tops: Vec<String> = snippets();
    let n = tops.len();
    let t2 = tops.clone();
    out.push(suite("every gap with every filling", format!("{n} short schemas, each gap with each of {} fillings (blanks, line ends, comments) or {} commas in three surroundings", FILL.len(), COMMAS.len()), n, move |k, w| {
        let ly = Layouts::new(&cddl(&t2[k]));
        ly.whole(w);
        for h in ly.holes() {
            ly.one(h, false, w);
        }
    }));
    let t2 = tops.clone();
    out.push(suite("every pair of gaps", format!("{n} short schemas, all pairs of gaps with 3 to 5 fillings each"), n, move |k, w| {
        let ly = Layouts::new(&cddl(&t2[k]));
        for h in ly.holes() {
            ly.pairs(h, usize::MAX, w);
        }
    }));
    let t2 = tops;
    out.push(suite("pairs of rules", format!("{n} x {n} rules with every filling between, before and after them"), n, move |k, w| {
        for s in &t2 {
            if w.stopped() {
                return;
            }
            let mut a = cddl(&t2[k]);
            a.0.extend(cddl(s).0);
            let ly = Layouts::new(&a);
            let first = crate::ast::toks_schema(&a)[0].len() + 1;
            for h in [0, first, ly.toks.len() - 1] {
                ly.one(h, false, w);
            }
        }
    }));
    // what a comment may contain
    let sn = ["r = [a, b]\ns = 1\n", "r = {a: 1 / 2}\n", "r<p> = g<1, p>\n"];
    out.push(suite("every character in a comment", "all characters except line ends in comments in 4 gaps, ended by LF and CRLF and by the end of the text", 272, move |k, w| {
        for c in (k as u32 * 4096..(k as u32 + 1) * 4096).filter_map(char::from_u32).filter(|c| !matches!(c, '\n' | '\r')) {
            if w.stopped() {
                return;
            }
            for s in sn.iter().take(if thorough || (c as u32) < 0x1000 { 3 } else { 1 }) {
                let ly = Layouts::new(&cddl(s));
                let hs = ly.holes();
                let fill = format!("; {c}x\n");
                let fill2 = format!(";{c}\r\n");
                for h in [hs[0], hs[hs.len() / 2], hs[hs.len() - 1]] {
                    ly.check(&ly.render(Base::Blank, &[(h, &fill)]), false, w);
                    ly.check(&ly.render(Base::Blank, &[(h, &fill2)]), false, w);
                }
                let fill = format!(";{c}");
                ly.check(&ly.render(Base::Blank, &[(hs[hs.len() - 1], &fill)]), false, w);
            }
        }
    }));
    const CP: &[&str] = &[";", "a", " ", "\"", "'", "=", "]", "\\", "\t", "é", ","];
    fn comment(s: &str, w: &mut Worker) {
        let tree = cddl("r = [a, b]\ns = 1\n");
        let ly = Layouts { toks: vec![], tree: tree.0 };
        let x = s.to_string();
        for text in [format!(";{x}\nr = [a, b]\ns = 1\n"), format!("r = [a;{x}\n, b]\ns = 1"), format!("r = [a,;{x}\r\nb] s = 1"), format!("r =;{x}\n[a, b] ;{x}\n s = 1"), format!("r = [a b] s = 1;{x}")] {
            ly.check(&text, false, w);
        }
    }
    for (k, name) in [(1, "comment texts of 1"), (2, "comment texts of 2"), (3, "comment texts of 3"), (4, "comment texts of 4")] {
        if k < 4 || thorough {
            out.push(strings_suite(name, CP, k, &[""], &["#"], comment));
        }
    }
    // realistic schemas
    let docs = crate::corpus::DOCS;
    let jobs: Vec<(usize, usize)> = (0..docs.len()).flat_map(|d| Layouts::new(&docs[d].schema()).holes().into_iter().map(move |h| (d, h))).collect();
    let nj = jobs.len();
    let j2 = jobs.clone();
    out.push(suite("realistic schemas, one gap", format!("{} schemas, all {nj} gaps", docs.len()), nj, move |k, w| {
        let ly = Layouts::new(&docs[j2[k].0].schema());
        if k == 0 || j2[k - 1].0 != j2[k].0 {
            ly.whole(w);
        }
        ly.one(j2[k].1, !thorough, w);
    }));
    out.push(suite("realistic schemas, two gaps", if thorough { "all pairs of gaps" } else { "pairs of gaps next to each other" }, nj, move |k, w| {
        let ly = Layouts::new(&docs[jobs[k].0].schema());
        ly.pairs(jobs[k].1, if thorough { usize::MAX } else { 2 }, w);
    }));
    // the meaning is the same, too
    let v = arc(vals(super::rules::pool()));
    out.push(suite("validation under other layouts", "short schemas laid out in 3 ways with and without commas and comments, against the pool of values", n, move |k, w| {
        let s = cddl(&snippets()[k]);
        if !s.0[0].params.is_empty() {
            return;
        }
        let ly = Layouts::new(&s);
        let e = crate::refsem::read_errors(&s);
        for text in [ly.render(Base::Blank, &[]), ly.render(Base::Lines, &[]), ly.render(Base::Lines, &ly.holes().into_iter().map(|h| (h, ";c\n")).collect::<Vec<_>>())] {
            if let Some(p) = w.read_text(text, e) {
                w.sweep_read(&s, &p, &s.0[0].name, &v);
            }
        }
    }));
    out
}

// ------------------------------------------------------------------ C22

fn slices(text: &str, w: &mut Worker) {
    w.st.schemas += 1;
    w.st.states += 1;
    w.st.traces += 1;
    w.st.steps += 4;
    w.publish(&["S\n", text]);
    let (got, what) = w.imp(|| slice_verdict(text)).unwrap_or((PANIC, "panic"));
    w.outcome(got);
    if !what.is_empty() {
        w.differ(Case::Slice { text: text.into() }, crate::refsem::UNSPEC, got, what);
    }
    w.sample(|| serde_json::json!({"text": text, "result": show(got)}));
}

/// Literals and names of every length, right and with one character wrong at
/// each place.
pub fn long_literals(thorough: bool, f: fn(&str, &mut Worker)) -> Suite<'static> {
    let max = if thorough { 300 } else { 70 };
    let lens: Vec<usize> = (0..=max).chain([127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]).collect();
    let n = lens.len();
    suite("long literals", format!("literals and names of 0 to {max} (and some up to 65537) characters: of one character, of different ones, with one of 7 characters exchanged at every place, inserted or at the end"), n, move |k, w| {
        let n = lens[k];
        let pat = |p: &str| p.chars().cycle().take(n).collect::<String>();
        for (open, body, close) in [
            ("h'", pat("1"), "'"), ("h'", pat("0"), "'"), ("h'", pat("aF0 "), "'"), ("b64'", pat("A"), "'"), ("b64'", pat("Az-_"), "'"), ("\"", pat("x"), "\""), ("'", pat("xy"), "'"), ("\"", pat("\u{e9}a"), "\""), ("'", pat("\u{20ac}"), "'"), ("\"", pat("\\n"), "\""),
            ("x", pat("a"), ""), ("x", pat("-a"), ""), ("1", pat("0"), ""), ("0x", pat("0"), ""), ("0x", pat("f"), ""), ("0b", pat("0"), ""), ("0b", pat("1"), ""), ("-", pat("9"), ""), ("1.", pat("0"), ""), ("1.", pat("3"), ""), ("0.", pat("0"), "1"), ("1e", pat("0"), "1"), ("1", pat("0"), ".0"),
        ] {
            if n > 3000 && close.is_empty() && open.starts_with(|c: char| c.is_ascii_digit()) {
                // numbers of that length take the reference too long
                continue;
            }
            f(&format!("t={open}{body}{close}"), w);
            f(&format!("t=[{open}{body}{close}]"), w);
            f(&format!("t={{{open}{body}{close}:1}}"), w);
            f(&format!("t={open}{body}"), w);
            let cs: Vec<char> = body.chars().collect();
            if n > 300 {
                continue;
            }
            for j in 0..=n {
                if w.stopped() {
                    return;
                }
                for odd in ["\u{e9}", "\u{20ac}", "\u{1f600}", "g", "=", " ", "\\"] {
                    if j < n {
                        let x: String = cs[..j].iter().chain(odd.chars().collect::<Vec<_>>().iter()).chain(&cs[j + 1..]).collect();
                        f(&format!("t={open}{x}{close}"), w);
                    }
                    if j % 4 == 0 || j == n {
                        let x: String = cs[..j].iter().chain(odd.chars().collect::<Vec<_>>().iter()).chain(&cs[j..]).collect();
                        f(&format!("t={open}{x}{close}"), w);
                    }
                }
            }
        }
    })
}

pub fn c22(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    const SEPS: &[&str] = &[" ", "\n", "\r\n", "\n\n", "\t", ";c\n", " ; c\n ", "; a = 1\n", ";é😀\n", "\n;c\r\n;d\n\n", "", ";\n", "  \n\t"];
    let rules: Vec<String> = snippets().into_iter().flat_map(|s| s.lines().map(|l| l.to_string()).collect::<Vec<_>>()).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
    let n = rules.len();
    let r2 = rules.clone();
    out.push(suite("one rule", format!("{n} rules x {0} x {0} surroundings", SEPS.len()), n, move |k, w| {
        for a in SEPS {
            for b in SEPS {
                slices(&format!("{a}{}{b}", r2[k]), w);
            }
        }
    }));
    let r2 = rules.clone();
    out.push(suite("two rules", format!("{n} x {n} rules x {} separators, before, between and after", SEPS.len()), n * n, move |k, w| {
        let (a, b) = (&r2[k % n], &r2[k / n]);
        let b = b.replacen('r', "q", 1);
        for s in SEPS {
            slices(&format!("{a}{s}{b}"), w);
            slices(&format!("{s}{a}{s}{b}{s}"), w);
        }
        // the same name twice
        slices(&format!("{a}\n{}", r2[k / n]), w);
    }));
    let few = ["r = 1", "r = \"é;\"", "r<p> = [p, \"\\\"\"]", "r = (a, ? b)", "r = {a: 1, }", "r = [ a ;x\n ]", "r = a / b", "r = a ;c\n / b", "r = 'x y'", "r=a<b>"];
    out.push(suite("three rules", format!("{0} x {0} x {0} rules x {1} x {1} separators", few.len(), SEPS.len()), few.len() * few.len() * few.len(), move |k, w| {
        let m = few.len();
        let (a, b, c) = (few[k % m], few[k / m % m].replacen('r', "q", 1), few[k / m / m].replacen('r', "p", 1));
        for s in SEPS {
            for t in SEPS {
                slices(&format!("{a}{s}{b}{t}{c}"), w);
                if thorough {
                    slices(&format!("{t}{c}{s}{a}{t}{b}{s}"), w);
                }
            }
        }
    }));
    // many rules, orders
    out.push(suite("many rules", "1 to 60 rules in ascending, descending and mixed order of names", 60, move |d, w| {
        let d = d + 1;
        for step in [1usize, 7, 59] {
            for sep in SEPS {
                let v: Vec<String> = (0..d).map(|i| format!("x{} = [{i}, \"é\"]{}", (i * step + 3) % 61, if sep.is_empty() { " " } else { sep })).collect();
                slices(&v.concat(), w);
                let v: Vec<String> = v.into_iter().rev().collect();
                slices(&v.concat(), w);
            }
        }
    }));
    out.push(trees_suite("small trees", Leaves::small(), if thorough { 4 } else { 3 }, |r, w| {
        slices(&format!("; a\n{} ;b\n", crate::ast::print_rule(r)), w);
    }));
    out.push(trees_suite("trees with more leaves", Leaves::medium(), if thorough { 3 } else { 2 }, |r, w| {
        slices(&format!("z9 = [1]\r\n{}\n\nz8 = 'a'", crate::ast::print_rule(r)), w);
    }));
    fn sl(s: &str, w: &mut Worker) {
        slices(s, w);
    }
    const CTX: &[&str] = &["t = #", "t = [#]", "t = {#}", "t = 1 # u = 2", "#"];
    out.push(strings_suite("token strings of 1", TOKENS, 1, &[" ", ""], CTX, sl));
    out.push(strings_suite("token strings of 2", TOKENS, 2, &[" ", ""], CTX, sl));
    out.push(strings_suite("token strings of 3", TOKENS, 3, &[" ", ""], CTX, sl));
    if thorough {
        out.push(strings_suite("token strings of 4", TOKENS, 4, &[" "], CTX, sl));
    }
    out.push(strings_suite("character strings of 2", CHARS, 2, &[""], &["#", "t=#", "t=1#", "t=1 #\nu=2", "t=1;#\nu=2", "#t=1", "t=\"#\"\nu=1", "t='#' u=2"], sl));
    out.push(strings_suite("character strings of 3", CHARS, 3, &[""], &["#", "t=#", "t=1#u=2", "t=1 ;#\nu=2", "t=\"#\"u=1"], sl));
    out.push(suite("every character in the text of a rule", "all 1112064 characters in literals and comments within a rule, and between two", 272, |k, w| {
        for c in (k as u32 * 4096..(k as u32 + 1) * 4096).filter_map(char::from_u32) {
            if w.stopped() {
                return;
            }
            slices(&format!("r = [ ;{c}\n'{c}', \"{c}\"];{c}\nq = \"a{c}{c}\""), w);
        }
    }));
    let docs = crate::corpus::DOCS;
    out.push(suite("realistic schemas", format!("{} schemas and those one word away, in 4 layouts", docs.len()), docs.len(), move |k, w| {
        slices(docs[k].text, w);
        slices(&docs[k].text.replace('\n', "\r\n"), w);
        slices(&docs[k].text.replace('\n', " ;é =1\n"), w);
        slices(&format!("\u{a0}{}", docs[k].text), w);
        for s in crate::corpus::near_schemas(docs[k].text) {
            if w.stopped() {
                return;
            }
            slices(&s, w);
        }
    }));
    out
}

// ------------------------------------------------------------------ C25

pub fn c25(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let check = |r: &Rule, w: &mut Worker| {
        w.flat(&crate::ast::print_rule(r));
    };
    out.push(trees_suite("small trees", Leaves::small(), if thorough { 5 } else { 4 }, check));
    out.push(trees_suite("trees with more leaves", Leaves::medium(), if thorough { 4 } else { 3 }, check));
    out.push(trees_suite("trees with many leaves", Leaves::large(), 3, check));
    let sn = snippets();
    let n = sn.len();
    let s2 = sn.clone();
    // names are made different, then the same
    out.push(suite("several rules", format!("all sequences of up to {} of {n} rules, under different names and under the same", if thorough { 3 } else { 2 }), n * n, move |k, w| {
        let (x, y) = (&s2[k % n], &s2[k / n]);
        let other = |s: &str, to: &str| if let Some(r) = s.strip_prefix('r') { format!("{to}{r}") } else { s.to_string() };
        let two = format!("{x}{}", other(y, "rr"));
        w.flat(&two);
        w.flat(&format!("{x}{y}"));
        if thorough {
            for z in &s2 {
                w.flat(&format!("{two}{}", other(z, "R")));
            }
        }
    }));
    let places = ["@", "(@)", "[@]", "[@, x]", "[x, @]", "[x // @]", "[@ // x]", "[? @]", "[2*3 @]", "[* @, x]", "{k: @}", "{@ => x}", "{@ ^=> x}", "{? @ => @}", "[(@)]", "[(@, x)]", "x / @", "@ / x", "g<@>", "g<x, @>", "~g<@>", "&g<@>", "&(k: @)", "&(@, x)", "@ .. x", "x ... @", "x .size @", "@ .cbor x", "bytes .cbor @", "bstr .cbor ({@ => @})", "[k: @]", "[* (@ // @)]", "(@ / x) / y", "{(@ => x // y: @)}", "{+ (? @ ^=> @)}"];
    let tys: Vec<String> = sn.iter().filter_map(|s| s.strip_prefix("r = ")).filter(|s| !s.trim_end().contains('\n')).map(|s| s.trim_end().to_string()).collect();
    let nt = tys.len();
    let t2 = tys.clone();
    out.push(suite("every construct within every other", format!("{nt} constructs x {0} places x {1} places", places.len(), if thorough { places.len() } else { 14 }), nt * places.len(), move |k, w| {
        let one = places[k / nt].replace('@', &t2[k % nt]);
        w.flat(&format!("r = {one}\n"));
        for p in places.iter().step_by(if thorough { 1 } else { 3 }) {
            w.flat(&format!("r = {}\n", p.replace('@', &one)));
            w.flat(&format!("r = {}\n", p.replace('@', &format!("({one})"))));
        }
    }));
    // names that are predefined, and names that are nearly so
    let pre = ["any", "eb64url", "eb64legacy", "eb16", "cbor-any", "nil", "null", "bool", "false", "true", "int", "uint", "nint", "float", "float16", "float32", "float64", "float16-32", "float32-64", "tstr", "text", "tdate", "uri", "b64url", "b64legacy", "regexp", "mime-message", "bstr", "bytes", "biguint", "bignint", "encoded-cbor", "time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined"];
    let mut names: Vec<String> = pre.iter().map(|s| s.to_string()).collect();
    for p in pre {
        names.extend([format!("{p}s"), p[..p.len() - 1].to_string(), format!("x{p}"), p.to_uppercase(), format!("{p}.a"), format!("{p}-1"), format!("${p}"), format!("_{p}"), format!("{}{}", p[..1].to_uppercase(), &p[1..]), p.replace('-', "."), p.replace('-', "_")]);
    }
    names.sort();
    names.dedup();
    let nn = names.len();
    out.push(suite("names", format!("{nn} names, predefined and alike, in {} places", places.len() + 8), nn, move |k, w| {
        let n = &names[k];
        if crate::refparse::parse(&format!("{n} = 1\n")).is_err() {
            return;
        }
        for p in places.iter().copied().chain(["@<x>", "~@", "&@", "~@<x>", "&@<1>", "@ .size 1", "@ .regexp \"a\"", "uint .lt @"]) {
            w.flat(&format!("r = {}\n", p.replace('@', n)));
        }
        w.flat(&format!("r = (@)\ns = (? @, * (@, x))\n").replace('@', n));
        w.flat(&format!("@ = 1\nr = [@]\n").replace('@', n));
        w.flat(&format!("r<@> = [@, @ => @]\n").replace('@', n));
        w.flat(&format!("r = [@: 1, @ => 2, @ ^=> 3]\ns = {{@: @}}\n").replace('@', n));
    }));
    // operators and their operands
    let mut ops: Vec<String> = ["size", "lt", "le", "gt", "ge", "regexp", "cbor", "eq", "ne", "bits", "cborseq", "within", "and", "default", "Size", "sizes", "l", "pcre", "abnf"].map(|s| s.to_string()).to_vec();
    ops.push("x".into());
    let t3 = tys.clone();
    let mut operands: Vec<String> = tys.clone();
    operands.extend(["int", "uint", "nint", "tstr", "text", "bstr", "bytes", "any", "true", "null", "float", "\"a\"", "\"(\"", "0", "-1", "1.0", "18446744073709551615", "(1 .. 3)", "((2))", "(int)", "(tstr)", "(bytes)", "(\"a\")", "(a ... b)"].map(String::from));
    operands.retain(|x| crate::refparse::parse(&format!("r = {x} .size {x}\n")).is_ok());
    operands.sort();
    operands.dedup();
    let no = operands.len();
    out.push(suite("operators", format!("{} operators, .. and ... between all {no} x {no} operands", ops.len()), no, move |k, w| {
        let a = &operands[k];
        for b in &operands {
            for op in &ops {
                w.flat(&format!("r = {a} .{op} {b}\n"));
            }
            for op in [" .. ", " ... "] {
                w.flat(&format!("r = [{a}{op}{b} / x]\n"));
            }
        }
    }));
    let _ = t3;
    // occurrences
    let bounds = ["", "0", "1", "2", "3", "10", "255", "256", "65535", "65536", "4294967295", "4294967296", "18446744073709551614", "18446744073709551615"];
    out.push(suite("occurrences", format!("{0} x {0} bounds, and ? * +, in 12 places", bounds.len()), bounds.len() + 3, move |k, w| {
        let mut occ: Vec<String> = match k.checked_sub(bounds.len()) {
            Some(j) => vec![["?", "*", "+"][j].to_string()],
            None => bounds.iter().map(|b| format!("{}*{b}", bounds[k])).collect(),
        };
        occ.push(String::new());
        for x in &occ {
            for p in ["[@ a]", "{@ a: b}", "{@ a => b}", "[@ (a, b)]", "{@ (a: b // c: d)}", "[a, @ b, @ c]", "[(@ a)]", "[@ (@ a)]", "&(@ a: 1)", "[@ a / b]", "[@ ~a]", "[@ (a // @ b)]"] {
                w.flat(&format!("r = {}\n", p.replace('@', x)));
            }
            w.flat(&format!("r = {x} a\n"));
            w.flat(&format!("r = {x} (a: b, {x} c)\n"));
        }
    }));
    // size
    out.push(suite("deep and long schemas", "nesting of 12 constructs 1 to 40 deep, sequences of 9 constructs of 1 to 400 parts", 40, |d, w| {
        let d = d + 1;
        for (l, r) in [("[", "]"), ("{a: ", "}"), ("{", " => 1}"), ("g<", ">"), ("~g<", ">"), ("&(k: ", ")"), ("[1, ", "]"), ("[? ", ", 2]"), ("[1 // ", "]"), ("{? k: 1, * tstr => ", "}"), ("&g<1, ", ">"), ("h / [", "] / h")] {
            w.flat(&format!("r = {}x{}\n", l.repeat(d), r.repeat(d)));
        }
        if d <= 10 {
            for (l, r) in [("(", ")"), ("[(", ")]"), ("(1, ", ")"), ("[(1, ", "), 2]"), ("1 / (", ") / 2"), ("[* (", " // 1)]"), ("bytes .cbor (", ")")] {
                w.flat(&format!("r = {}x{}\n", l.repeat(d), r.repeat(d)));
            }
        }
        let n = d * 10;
        for (sep, o, c) in [(", ", "[", "]"), (" // ", "[", "]"), (" / ", "", ""), (" ", "[", "]"), (", ", "g<", ">"), (", ? k: ", "{", "}"), (", * x => ", "{", "}"), (",\n", "&(", ")"), (" //\n", "(", ")")] {
            let v: Vec<String> = (0..n).map(|i| format!("x{i}")).collect();
            w.flat(&format!("r = {o}{}{c}\n", v.join(sep)));
        }
        let v: Vec<String> = (0..n).map(|i| format!("x{i} = {i}")).collect();
        w.flat(&v.join("\n"));
        let v: Vec<String> = (0..n).map(|i| format!("p{i}")).collect();
        w.flat(&format!("r<{}> = 1\n", v.join(", ")));
    }));
    let docs = crate::corpus::DOCS;
    out.push(suite("realistic schemas", format!("{} schemas and those one word away that the grammar allows", docs.len()), docs.len(), |k, w| {
        w.flat(docs[k].text);
        for s in crate::corpus::near_schemas(docs[k].text) {
            if w.stopped() {
                return;
            }
            w.flat(&s);
        }
    }));
    out
}

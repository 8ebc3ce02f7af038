//! C26: what is said about errors; C27: contexts that fail.

use super::syntax::strings_suite;
use crate::engine::*;
use crate::refsem;
use crate::value::Val;
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::ivt::RuleDef;
use cddl_cat::{ValidateError, ValidateResult};
use std::cell::{Cell, RefCell};

fn why(s: &str, w: &mut Worker) {
    w.why(s);
}

/// Literals that have no value, and the kind and content to be named.
const BROKEN: &[&str] = &[
    "18446744073709551616", "-9223372036854775809", "99999999999999999999", "0x10000000000000000", "-0x8000000000000001", "-18446744073709551616", "h'0'", "h'0g'", "h'12 3'", "h'zz'", "h'é'", "h'\\''", "b64'*'", "b64'a'", "b64'AA=A'", "b64'é'", "\"\\x\"", "\"a\\q b\"", "\"\\u12\"", "\"\\ud800\"", "\"\\uDC00x\"", "\"é\\z\"", "'\\x'", "'a\\u00g0'", "'\\ud800'", "0b10000000000000000000000000000000000000000000000000000000000000000",
    "0x1.5", "0b1e1", "0x1.5e1",
];

/// Texts that stop where a part was expected, or have something left over.
const STUCK: &[&str] = &["]", ")", "}", "=", "/", "//", ",", ":", "^", ">", "..", "...", ".", "*", "+", "?", "!", "#", "é", "\\", "\"", "'", "h'", "b64'", "\"a", "'a", "\u{1}", "-", "|", "1", "[", "(", "{", "&", "~", "<", "[1", "(1", "{a: 1", "=>", "^ =>", "{k<1>: 2}", "[k<1> : 2"];

pub fn c26(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    const MANY: &[&str] = &["#", "t = #", "t = [#]", "t = {#}", "t = (#)", "t = g<#>", "t = &(#)", "t<#> = 1", "t = 1 #", "t = [1, # 2]", "t = 1 # u = 2", "t = {a: 1 # }", "# = 1", "t = a #", "t = x / #", "t = 1 .. #", "t = {# => 1}", "t = [2* #]"];
    const FEW: &[&str] = &["t #", "t = [#]", "t = {#}", "t = (#)", "t = 1 #", "t = [1 #]", "#"];
    let tokens = super::syntax::TOKENS;
    out.push(strings_suite("token strings of 1", tokens, 1, &[" ", ""], MANY, why));
    out.push(strings_suite("token strings of 2", tokens, 2, &[" ", ""], MANY, why));
    out.push(strings_suite("token strings of 3", tokens, 3, &[" "], if thorough { MANY } else { FEW }, why));
    out.push(super::syntax::long_literals(false, why));
    let chars = super::syntax::CHARS;
    const CCTX: &[&str] = &[
        "#", "t=#", "t=[#]", "t={#}", "t=(#)", "t=1#", "t=a#", "t=\"#", "t='#", "t=h'#", "t=[1#]", "t={a:#}", "t={a#1}", "t#=1", "t=1;#", "t=a<#>", "t<#>=1", "t=1\n#", "t = a.#", "t = 1.#2", "t = -#", "t = 0#", "t = 1e#", "t = \"\\#\"", "t = \"a#\"", "t = b64'#'", "t = 'a#'", "t = [#* a]", "t = &#", "t = ~#", "#t = 1", "t = 1 #", "t = 1 u = #", "t = h'#' u = ]",
    ];
    out.push(strings_suite("character strings of 1", chars, 1, &[""], CCTX, why));
    out.push(strings_suite("character strings of 2", chars, 2, &[""], CCTX, why));
    out.push(strings_suite("character strings of 3", chars, 3, &[""], if thorough { CCTX } else { &["#", "t=#", "t=1#", "t=[#]", "t=\"\\#\"", "t=h'#'", "t=1 u#"] }, why));
    // numbers around the limits, in every base and place
    const NUMC: &[&str] = &["0", "1", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "000000000000000000000", "-", ".", "e", "0x", "0b", "ffffffffffffffff", "1000000000000000000000000000000000000000000000000000000000000000", "*", " ", ".."];
    const NUMX: &[&str] = &["t=#", "t={#:1}", "t={# =>1}", "t=[#*1 a]", "t=[1*# a]", "t=[# a]", "t=1..#", "t=#..9", "t=1 .size #", "t=g<#>", "t=#e=1", "t=1 u=# v=2", "#", "t=[(#)]"];
    for (n, name) in [(1, "numbers of 1"), (2, "numbers of 2"), (3, "numbers of 3"), (4, "numbers of 4")] {
        out.push(strings_suite(name, NUMC, n, &[""], if n < 4 || thorough { NUMX } else { &["t=#", "t=[#* a]"] }, why));
    }
    // pieces of strings
    const PIECES: &[&str] = &["a", "é", "\\n", "\\\"", "\\'", "\\\\", "\\u0041", "\\ud83d", "\\ude00", "\\x", "\\u12", "0", "1f", "f", " ", "-", "_", "=", "/", "+", "\u{1f600}", "\\é", ";", "\t"];
    const PCTX: &[&str] = &["t=\"#\"", "t='#'", "t=h'#'", "t=b64'#'", "t={\"#\": 1}", "t=[1, '#' 2]", "t=\"\\\\\" u=\"#\"", "t = tstr .regexp \"#\" ; \"", "u=1 t=['', h'#', \"\\x\"]"];
    for (n, name) in [(1, "pieces of strings: 1"), (2, "pieces of strings: 2"), (3, "pieces of strings: 3")] {
        out.push(strings_suite(name, PIECES, n, &[""], PCTX, why));
    }
    if thorough {
        out.push(strings_suite("pieces of strings: 4", PIECES, 4, &[""], &["t=\"#\"", "t=h'#'", "t=b64'#'"], why));
    }
    // something wrong at two places: what comes first is named
    let places: Vec<String> = super::syntax::LIT_PLACES.iter().map(|s| s.to_string()).collect();
    let wrong: Vec<&str> = BROKEN.iter().chain(STUCK).copied().collect();
    let np = places.len();
    out.push(suite("two things wrong", format!("{0} x {0} malformed literals, stray and missing parts in {np} places, in one rule and in two, after complete rules", wrong.len()), wrong.len() * np, move |k, w| {
        let (a, p) = (wrong[k % wrong.len()], &places[k / wrong.len()]);
        let one = p.replace('#', a);
        w.why(&one);
        w.why(&format!("a = 1\n{one}"));
        w.why(&format!("a = 1 ;x\n\n\tb = [2] ; \"\\x\"\n {one}\nc = 3"));
        w.why(&format!("é = 1\n{one}"));
        for b in &wrong {
            if w.stopped() {
                return;
            }
            w.why(&format!("{one} u = {b}"));
            w.why(&format!("u = [1, {b}]\n{one}"));
            w.why(&p.replace('#', &format!("[{a}, {b}]")));
            w.why(&p.replace('#', &format!("{a} {b}")));
            w.why(&p.replace('#', &format!("(x / {a} / {b})")));
            w.why(&p.replace('#', &format!("{{a: 1, {a}: {b}}}")));
        }
    }));
    // malformed literals at every depth and distance
    out.push(suite("deep and far", "malformed literals and stray parts after 0 to 40 rules, in nesting 0 to 40 deep, after 0 to 40 members", 41, |d, w| {
        for b in BROKEN.iter().chain(STUCK) {
            let rules: String = (0..d).map(|i| format!("r{i} = [\"é\", {i}]\n")).collect();
            w.why(&format!("{rules}t = {b}"));
            w.why(&format!("{rules}t = {b}\n{rules}"));
            for (o, c) in [("[", "]"), ("{a: ", "}"), ("(", ")"), ("g<", ">"), ("[? (", ")]"), ("{ { int => 1 } => ", "}"), ("1 / (", ")")] {
                if d < 9 || !o.contains('(') {
                    w.why(&format!("t = {}{b}{}", o.repeat(d), c.repeat(d)));
                    w.why(&format!("t = {}{b}", o.repeat(d)));
                }
            }
            let members: String = (0..d).map(|i| format!("m{i}: \"\\n\" ")).collect();
            w.why(&format!("t = {{ {members} {b} }}"));
            w.why(&format!("t = [ {members} {b}"));
            let options: String = (0..d).map(|i| format!("{i} / ")).collect();
            w.why(&format!("t = {options} {b}"));
            let blank = " \n;h'x'\n".repeat(d);
            w.why(&format!("t = 1{blank}{b}"));
            w.why(&format!("t = [{blank}{b}{blank}]"));
        }
    }));
    out.push(suite("every character at every seam", "all 1112064 characters in 7 contexts", 272, move |k, w| {
        for c in (k as u32 * 4096..(k as u32 + 1) * 4096).filter_map(char::from_u32) {
            if w.stopped() {
                return;
            }
            if !thorough && c as u32 > 0x3000 && (c as u32) % 16 != 0 {
                continue;
            }
            for x in ["t = 1#", "#t = 1", "t = [1 #,2]", "t = \"\\#\"", "t = h'#'", "t = 'a' u = # v = 1", "t = b64'#' ]"] {
                w.why(&x.replace('#', &c.to_string()));
            }
        }
    }));
    // edits of realistic schemas
    let docs = crate::corpus::DOCS;
    let texts: Vec<String> = docs.iter().map(|d| d.text.to_string()).chain(super::syntax::snippets()).collect();
    let jobs: Vec<(usize, usize)> = texts.iter().enumerate().flat_map(|(d, t)| (0..crate::corpus::words(t).len()).map(move |k| (d, k))).collect();
    let nj = jobs.len();
    out.push(suite("realistic schemas with one edit", format!("{} schemas: at every word it is left out, what follows is cut off, and one of {} things comes before it", texts.len(), BROKEN.len() + STUCK.len()), nj, move |j, w| {
        let (d, k) = jobs[j];
        let ws = crate::corpus::words(&texts[d]);
        let v: Vec<&str> = ws.iter().map(|x| x.as_str()).collect();
        let mut x = v.clone();
        x.remove(k);
        w.why(&x.concat());
        w.why(&v[..k].concat());
        for p in BROKEN.iter().chain(STUCK) {
            let sp = format!(" {p} ");
            let mut x = v.clone();
            x.insert(k, &sp);
            w.why(&x.concat());
            if thorough {
                x.remove(k + 1);
                w.why(&x.concat());
            }
        }
    }));
    out
}

// ------------------------------------------------------------------ C27

/// The errors that a context may give.
pub const FAULTS: usize = 7;

fn fault(kind: usize, name: &str, n: usize) -> ValidateError {
    match kind {
        0 => ValidateError::MissingRule(name.into()),
        1 => ValidateError::Structural(format!("lookup {n}")),
        2 => ValidateError::Unsupported(format!("lookup {n}")),
        3 => ValidateError::ValueError(format!("lookup {n}")),
        4 => ValidateError::GenericError,
        5 => cddl_cat::parse_cddl(&format!("?{n}")).map(|_| ()).unwrap_err().into(),
        _ => ValidateError::MissingRule(format!("of lookup {n}")),
    }
}

/// A context that fails at one lookup, and remembers the last name that it
/// could not find.
struct Faulty<'a> {
    rules: &'a BasicContext,
    n: Cell<usize>,
    at: usize,
    kind: usize,
    failed: RefCell<Option<String>>,
}

impl LookupContext for Faulty<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        let n = self.n.get();
        self.n.set(n + 1);
        let e = if n == self.at {
            fault(self.kind, name, n)
        } else {
            match self.rules.lookup_rule(name) {
                Ok(r) => return Ok(r),
                Err(e) => e,
            }
        };
        self.failed.borrow_mut().get_or_insert(format!("{e:?}"));
        Err(e)
    }
}

fn call(p: &BasicContext, rule: &str, v: &Val, via: Via, at: usize, kind: usize) -> (usize, Option<String>, Option<ValidateResult>) {
    let c = Faulty { rules: p, n: 0.into(), at, kind, failed: RefCell::default() };
    let r = p.rules.get(rule).map(|def| match via {
        Via::Cbor => cddl_cat::validate_cbor(def, &v.cbor, &c),
        Via::Json => cddl_cat::validate_json(def, v.json.as_ref().unwrap(), &c),
    });
    (c.n.get(), c.failed.take(), r)
}

/// Whether a lookup that failed is what comes out.
fn right(failed: &Option<String>, r: &ValidateResult) -> bool {
    match (failed, r) {
        (None, _) => true,
        (Some(f), Err(e)) => *f == format!("{e:?}"),
        (Some(_), Ok(())) => false,
    }
}

pub fn replay_fault(p: BasicContext, rule: &str, v: &Val, via: Via, at: usize, kind: usize) -> refsem::Bits {
    match guarded(|| call(&p, rule, v, via, at, kind)) {
        Err(_) => PANIC,
        Ok((_, f, Some(r))) if !right(&f, &r) => OTHER,
        Ok((_, None, Some(r))) => class(&r),
        _ => refsem::SCHEMA,
    }
}

const POINTS: usize = 40;

/// Validate with every lookup made to fail in turn.
pub fn faults(w: &mut Worker, p: &Prepared, rule: &str, vals: &[Val]) {
    for (nv, v) in vals.iter().enumerate() {
        if w.stopped() {
            return;
        }
        for via in [Via::Cbor, Via::Json] {
            if via == Via::Json && v.json.is_none() {
                continue;
            }
            w.publish_value(p, rule, v);
            let mut n = 1;
            let mut at = 0;
            // the run without a fault tells how many lookups there are
            let mut first = true;
            let mut usual = String::new();
            while first || at < n.min(POINTS) {
                let kinds: Vec<usize> = if first {
                    vec![0]
                } else if w.run.thorough {
                    vec![(at + nv) % FAULTS, (at + nv + 2) % FAULTS, (at + nv + 5) % FAULTS]
                } else {
                    vec![(at + nv) % FAULTS]
                };
                for kind in kinds {
                    let pt = if first { usize::MAX } else { at };
                    w.st.traces += 1;
                    w.st.steps += 1;
                    let r = w.imp(|| call(&p.ctx, rule, v, via, pt, kind));
                    let (what, got) = match &r {
                        Err(m) => (m.clone(), PANIC),
                        Ok((_, _, None)) => return,
                        Ok((m, f, Some(r))) => {
                            w.outcome(class(r));
                            if first {
                                n = *m;
                                usual = format!("{r:?}");
                            }
                            if right(f, r) {
                                continue;
                            }
                            (format!("the lookup ended with {}, the validation with {r:?}", f.clone().unwrap_or_default()), OTHER)
                        }
                    };
                    let case = Case::Fault { schema: p.text.clone(), rule: rule.into(), cbor: v.hex.clone(), via, at: pt, kind };
                    w.differ(case, refsem::SCHEMA, got, &what);
                    return;
                }
                if first {
                    first = false;
                } else {
                    at += 1;
                }
                w.st.states += 1;
            }
            // nothing is left of the faults
            if n > 0 {
                let r = w.imp(|| call(&p.ctx, rule, v, via, usize::MAX, 0));
                if !matches!(&r, Ok((_, _, Some(r))) if format!("{r:?}") == usual) {
                    let case = Case::Fault { schema: p.text.clone(), rule: rule.into(), cbor: v.hex.clone(), via, at: usize::MAX, kind: 0 };
                    w.differ(case, refsem::SCHEMA, OTHER, "after the failures another result than before");
                    return;
                }
            }
        }
        let text = &p.text;
        w.sample(|| serde_json::json!({"schema": text, "rule": rule, "data": crate::value::diag(&v.v)}));
    }
}

pub fn c27(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![super::rules::moved_everywhere(thorough)];
    let borrowed = super::rules::c12(thorough).into_iter().chain(super::rules::c14(thorough)).chain(super::rules::c16(false)).chain(super::rules::c06(thorough));
    // some compare with other means than a sweep; some repeat too much
    let not = ["long data", "substituted by hand", "unwrapped arrays", "unwrapped maps", "unsupported features", "starting at a generic rule"];
    let rare = ["recursive generics", "changed schemas"];
    out.extend(borrowed.filter(|s| !not.contains(&s.name) && (thorough || !rare.contains(&s.name))));
    out.push(super::pairs::places_in_places(thorough));
    for n in super::NAMES {
        out.push(super::pairs::kind_pairs(n, thorough));
    }
    out
}

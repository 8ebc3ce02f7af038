//! The exploration engine: worker threads over indexed suites, containment of
//! panics, hangs and crashes, violation records, evidence.

use crate::ast::{self, Schema};
use crate::refsem::{self, Bits, Sem};
use crate::value::{self, Val};
use cddl_cat::context::BasicContext;
use cddl_cat::ivt::RuleDef;
use cddl_cat::{ValidateError, ValidateResult};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// further verdicts of the implementation
pub const PANIC: Bits = 1 << 10;
pub const HANG: Bits = 1 << 11;
pub const CRASH: Bits = 1 << 12;
/// read, but as something else
pub const TREE: Bits = 1 << 13;
/// results that should agree do not
pub const OTHER: Bits = 1 << 14;

pub fn show(b: Bits) -> String {
    let mut s = refsem::show(b);
    for (k, n) in [(PANIC, "panic"), (HANG, "no answer"), (CRASH, "crash"), (TREE, "another-tree"), (OTHER, "disagreement")] {
        if b & k != 0 {
            if !s.is_empty() {
                s.push('|');
            }
            s += n;
        }
    }
    s
}

// ------------------------------------------------------------ allocations

pub struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.realloc(p, l, n)
    }
}
/// Allocations made by this thread so far.
pub fn allocs() -> u64 {
    ALLOCS.with(|c| c.get())
}

// ------------------------------------------------------------ system calls

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, id: *mut i32) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}

pub fn limit(res: i32, n: u64) {
    unsafe {
        setrlimit(res, &[n, n]);
    }
}
pub const RLIMIT_CPU: i32 = 0;
pub const RLIMIT_CORE: i32 = 4;
pub const RLIMIT_AS: i32 = 9;

fn cpu_ms(clock: i32) -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        clock_gettime(clock, &mut ts);
    }
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}

// ------------------------------------------------------------ shared slots

/// What a worker is doing, kept in a file mapping so that it survives the
/// process.
#[repr(C)]
pub struct Slot {
    seq: AtomicU64,
    busy: AtomicU64,
    len: AtomicU64,
    clock: AtomicU64,
    text: [u8; SLOT - 32],
}
const SLOT: usize = 1 << 22;
const NSLOT: usize = 9;
const COUNTERS: usize = 64;

pub struct Shared {
    base: *mut u8,
}
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}

impl Shared {
    pub fn open(p: &std::path::Path) -> Shared {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).unwrap();
        let len = SLOT * (NSLOT + 1);
        f.set_len(len as u64).unwrap();
        let base = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
        assert!(base as isize != -1, "mmap");
        Shared { base }
    }
    pub fn slot(&self, i: usize) -> &Slot {
        assert!(i < NSLOT);
        unsafe { &*(self.base.add(SLOT * (i + 1)) as *const Slot) }
    }
    pub fn counter(&self, i: usize) -> &AtomicU64 {
        assert!(i < COUNTERS);
        unsafe { &*(self.base.add(8 * i) as *const AtomicU64) }
    }
    /// The cases that were being run.
    pub fn open_cases(&self) -> Vec<String> {
        (0..NSLOT)
            .filter(|i| self.slot(*i).busy.load(SeqCst) == 1)
            .map(|i| {
                let s = self.slot(i);
                let n = (s.len.load(SeqCst) as usize).min(SLOT - 32);
                String::from_utf8_lossy(&s.text[..n]).into_owned()
            })
            .collect()
    }
}

impl Slot {
    fn publish(&self, parts: &[&str]) {
        let mut n = 0;
        let p = self.text.as_ptr() as *mut u8;
        for s in parts {
            let k = s.len().min(SLOT - 32 - n);
            unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(n), k) };
            n += k;
        }
        self.len.store(n as u64, Release);
        self.seq.fetch_add(1, Release);
    }
}

// ------------------------------------------------------------ cases

/// One execution of the implementation, in a form that can be written to a
/// file and run again.
#[derive(Clone, Debug)]
pub enum Case {
    /// parse, flatten, validate a value (hex of its plain encoding) against a rule
    Value { schema: String, rule: String, cbor: String, via: Via },
    /// read a schema only
    Read { schema: String },
    /// one-shot function on raw input
    Raw { schema: String, rule: String, input: String, json: bool },
    /// parse only, the tree compared with the reference grammar's
    Parse { text: String },
    /// the text-preserving functions against the plain ones
    Slice { text: String },
    /// the flattened rules against the text
    Flat { text: String },
    /// what is said about a text that is not a schema
    Why { text: String },
    /// a context whose lookups fail from the n-th on
    Fault { schema: String, rule: String, cbor: String, via: Via, at: usize, kind: usize },
    /// every way of reading a schema; nothing but a result is expected
    Safe { text: String },
    /// a value in a build with fewer features ("all": in each)
    Lite { build: String, schema: String, rule: String, cbor: String },
    /// encoded data in such a build
    LiteRaw { build: String, schema: String, rule: String, input: String, json: bool },
    /// a text read by such a build
    LiteText { build: String, text: String },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    Cbor,
    Json,
}

impl Case {
    pub fn to_json(&self) -> serde_json::Value {
        use serde_json::json;
        match self {
            Case::Value { schema, rule, cbor, via } => json!({
                "kind": "value", "schema": schema, "rule": rule, "cbor": cbor,
                "via": if *via == Via::Cbor { "cbor" } else { "json" },
                "data": match value::decode(&value::unhex(cbor)) { value::Dec::Ok(v) => value::diag(&v), _ => "?".into() },
            }),
            Case::Read { schema } => json!({"kind": "read", "schema": schema}),
            Case::Parse { text } => json!({"kind": "parse", "text": text}),
            Case::Slice { text } => json!({"kind": "slice", "text": text}),
            Case::Flat { text } => json!({"kind": "flat", "text": text}),
            Case::Why { text } => json!({"kind": "why", "text": text}),
            Case::Fault { schema, rule, cbor, via, at, kind } => json!({
                "kind": "fault", "schema": schema, "rule": rule, "cbor": cbor,
                "via": if *via == Via::Cbor { "cbor" } else { "json" }, "at": at, "error": kind,
                "data": match value::decode(&value::unhex(cbor)) { value::Dec::Ok(v) => value::diag(&v), _ => "?".into() },
            }),
            Case::Safe { text } => json!({"kind": "safe", "text": text}),
            Case::Lite { build, schema, rule, cbor } => json!({
                "kind": "lite", "build": build, "schema": schema, "rule": rule, "cbor": cbor,
                "data": match value::decode(&value::unhex(cbor)) { value::Dec::Ok(v) => value::diag(&v), _ => "?".into() },
            }),
            Case::LiteRaw { build, schema, rule, input, json } => json!({
                "kind": "lite-raw", "build": build, "schema": schema, "rule": rule, "input": input, "json": json }),
            Case::LiteText { build, text } => json!({"kind": "lite-text", "build": build, "text": text}),
            Case::Raw { schema, rule, input, json } => json!({
                "kind": "raw", "schema": schema, "rule": rule, "input": input, "json": json }),
        }
    }
    pub fn from_json(v: &serde_json::Value) -> Option<Case> {
        let s = |k: &str| v[k].as_str().map(|s| s.to_string());
        Some(match v["kind"].as_str()? {
            "value" => Case::Value {
                schema: s("schema")?,
                rule: s("rule")?,
                cbor: s("cbor")?,
                via: if s("via")? == "cbor" { Via::Cbor } else { Via::Json },
            },
            "read" => Case::Read { schema: s("schema")? },
            "parse" => Case::Parse { text: s("text")? },
            "slice" => Case::Slice { text: s("text")? },
            "flat" => Case::Flat { text: s("text")? },
            "why" => Case::Why { text: s("text")? },
            "fault" => Case::Fault {
                schema: s("schema")?,
                rule: s("rule")?,
                cbor: s("cbor")?,
                via: if s("via")? == "cbor" { Via::Cbor } else { Via::Json },
                at: v["at"].as_u64()? as usize,
                kind: v["error"].as_u64()? as usize,
            },
            "safe" => Case::Safe { text: s("text")? },
            "lite" => Case::Lite { build: s("build")?, schema: s("schema")?, rule: s("rule")?, cbor: s("cbor")? },
            "lite-raw" => Case::LiteRaw {
                build: s("build")?,
                schema: s("schema")?,
                rule: s("rule")?,
                input: s("input")?,
                json: v["json"].as_bool()?,
            },
            "lite-text" => Case::LiteText { build: s("build")?, text: s("text")? },
            "raw" => Case::Raw {
                schema: s("schema")?,
                rule: s("rule")?,
                input: s("input")?,
                json: v["json"].as_bool()?,
            },
            _ => return None,
        })
    }
    /// Run it against the implementation.
    pub fn run(&self) -> Bits {
        match self {
            Case::Read { schema } => match guarded(|| cddl_cat::flatten::flatten_from_str(schema).map(|_| ())) {
                Ok(r) => class(&r),
                Err(_) => PANIC,
            },
            Case::Parse { text } => match crate::refparse::parse(text) {
                Ok(r) => {
                    let r: Vec<ast::Rule> = r.into_iter().map(|r| r.rule).collect();
                    parse_verdict(text, &[&r])
                }
                Err(_) => parse_verdict(text, &[]),
            },
            Case::Slice { text } => slice_verdict(text).0,
            Case::Flat { text } => match crate::refparse::parse(text) {
                Ok(r) => flat_verdict(text, &r.into_iter().map(|r| r.rule).collect::<Vec<_>>()).0,
                Err(_) => refsem::UNSPEC,
            },
            Case::Why { text } => why_verdict(text).0,
            Case::Fault { schema, rule, cbor, via, at, kind } => {
                let v = match value::decode(&value::unhex(cbor)) {
                    value::Dec::Ok(v) => Val::new(v),
                    _ => return refsem::UNSPEC,
                };
                match cddl_cat::flatten::flatten_from_str(schema) {
                    Ok(r) => crate::props::errors::replay_fault(BasicContext::new(r), rule, &v, *via, *at, *kind),
                    Err(e) => class_e(&e),
                }
            }
            Case::Safe { text } => guarded(|| read_all(text)).unwrap_or(PANIC),
            Case::Lite { .. } | Case::LiteRaw { .. } | Case::LiteText { .. } => crate::lite::replay(self),
            Case::Value { schema, rule, cbor, via } => {
                let v = match value::decode(&value::unhex(cbor)) {
                    value::Dec::Ok(v) => v,
                    _ => return refsem::UNSPEC,
                };
                let val = Val::new(v);
                match guarded(|| {
                    let rules = cddl_cat::flatten::flatten_from_str(schema)?;
                    let ctx = BasicContext::new(rules);
                    let def: &RuleDef =
                        ctx.rules.get(rule).ok_or_else(|| ValidateError::MissingRule(rule.clone()))?;
                    match via {
                        Via::Cbor => cddl_cat::validate_cbor(def, &val.cbor, &ctx),
                        Via::Json => cddl_cat::validate_json(def, val.json.as_ref().unwrap(), &ctx),
                    }
                }) {
                    Ok(r) => class(&r),
                    Err(_) => PANIC,
                }
            }
            Case::Raw { schema, rule, input, json } => match guarded(|| {
                if *json {
                    cddl_cat::validate_json_str(rule, schema, input)
                } else {
                    cddl_cat::validate_cbor_bytes(rule, schema, &value::unhex(input))
                }
            }) {
                Ok(r) => class(&r),
                Err(_) => PANIC,
            },
        }
    }
}

/// Read a schema in every way there is, and print what comes of it.
pub fn read_all(text: &str) -> Bits {
    use cddl_cat::{flatten, parser};
    let mut got = 0;
    match parser::parse_cddl(text) {
        Ok(c) => {
            let _ = format!("{c:?}");
            if let Err(e) = flatten::flatten(&c) {
                let _ = (e.to_string(), format!("{e:?}"));
                got |= class_e(&e);
            }
        }
        Err(e) => {
            let _ = (e.to_string(), format!("{e:?}"));
            got |= refsem::PARSE;
        }
    }
    if let Err(e) = flatten::slice_flatten_from_str(text) {
        got |= class_e(&e);
    }
    match flatten::flatten_from_str(text) {
        Ok(r) => {
            for d in r.values() {
                let _ = d.node.to_string();
            }
            got | refsem::OK
        }
        Err(e) => {
            let _ = (e.to_string(), format!("{e:?}"));
            got | class_e(&e)
        }
    }
}

/// Parse with the crate and compare with the permitted trees.
pub fn parse_verdict(text: &str, trees: &[&[ast::Rule]]) -> Bits {
    match guarded(|| match cddl_cat::parse_cddl(text) {
        Err(e) => {
            let _ = (e.to_string(), format!("{e:?}"));
            refsem::PARSE
        }
        Ok(c) => {
            if trees.is_empty() {
                return refsem::OK;
            }
            if crate::conv::cuts_ok(&c) && trees.iter().any(|t| crate::conv::equal(&c.rules, t)) {
                refsem::OK
            } else {
                TREE
            }
        }
    }) {
        Ok(b) => b,
        Err(_) => PANIC,
    }
}

/// Flatten a text whose rules are known; do the flattened rules say the same?
pub fn flat_verdict(text: &str, rules: &[ast::Rule]) -> (Bits, String) {
    let r = guarded(|| {
        let flat = match cddl_cat::flatten::flatten_from_str(text) {
            Ok(f) => f,
            Err(e) => return (class_e(&e), "refused".to_string()),
        };
        let tree = match cddl_cat::parse_cddl(text) {
            Ok(t) => t,
            Err(_) => return (OTHER, "flattened, but not parsed".into()),
        };
        match cddl_cat::flatten::flatten(&tree) {
            Ok(f) if f == flat => {}
            _ => return (OTHER, "flatten and flatten_from_str disagree".into()),
        }
        for r in rules {
            let same: Vec<_> = rules.iter().filter(|x| x.name == r.name).collect();
            let Some(def) = flat.get(&r.name) else {
                return (TREE, format!("{} is missing", r.name));
            };
            // of several rules with one name, any may be kept
            let all: Vec<_> = same.iter().map(|x| crate::flat::differs(x, def)).collect();
            if let Some(Some(w)) = all.iter().find(|_| all.iter().all(|x| x.is_some())) {
                return (TREE, w.clone());
            }
        }
        if let Some(n) = flat.keys().find(|n| rules.iter().all(|r| r.name != **n)) {
            return (TREE, format!("there is no rule {n}"));
        }
        (refsem::OK, String::new())
    });
    r.unwrap_or_else(|m| (PANIC, m))
}

/// Is what all ways of reading a text say about it the same, and right?
pub fn why_verdict(text: &str) -> (Bits, String) {
    use cddl_cat::parser::{self, ErrorKind};
    use crate::refparse::{Bad, Diag, Why};
    let (at, _, diag) = crate::refparse::parse_diag(text);
    let r = guarded(|| {
        fn flat<T>(r: Result<T, ValidateError>) -> Option<Result<parser::ParseError, ValidateError>> {
            match r {
                Ok(_) => None,
                Err(ValidateError::ParseError(e)) => Some(Ok(e)),
                Err(e) => Some(Err(e)),
            }
        }
        let Err(e) = parser::parse_cddl(text) else {
            return (if at.is_err() { refsem::UNSPEC } else { refsem::OK }, String::new());
        };
        let mut all = vec![
            ("slice_parse_cddl", parser::slice_parse_cddl(text).err().map(Ok)),
            ("flatten_from_str", flat(cddl_cat::flatten::flatten_from_str(text))),
            ("slice_flatten_from_str", flat(cddl_cat::flatten::slice_flatten_from_str(text))),
        ];
        for (rule, json, cbor) in [("t", "1", &[1u8][..]), ("", "{", &[0xff]), ("no such rule", "", &[]), ("t", "1 1", &[1, 1])] {
            all.push(("validate_json_str", flat(cddl_cat::validate_json_str(rule, text, json))));
            all.push(("validate_cbor_bytes", flat(cddl_cat::validate_cbor_bytes(rule, text, cbor))));
        }
        for (n, x) in all {
            match x {
                Some(Ok(x)) if x.kind == e.kind && x.ctx == e.ctx => {
                    if ValidateError::ParseError(x).to_string() != e.to_string() {
                        return (OTHER, format!("{n} prints another error"));
                    }
                }
                x => return (OTHER, format!("{n} says {x:?}, parse_cddl says {e:?}")),
            }
        }
        if e.to_string() != format!("{:?}({})", e.kind, e.ctx) {
            return (OTHER, format!("printed as {e}"));
        }
        if at.is_ok() {
            return (refsem::PARSE, "refused".into());
        }
        if diag == Diag::Key {
            let ok = e.kind == ErrorKind::Unparseable;
            return (if ok { refsem::PARSE } else { TREE }, if ok { String::new() } else { format!("{e}, for a key with arguments") });
        }
        // of a byte string in hex, blanks may be left out
        let blank = |c: char| matches!(c, ' ' | '\t' | '\r' | '\n');
        let bare = |s: &str| s.chars().filter(|c| !blank(*c)).collect::<String>();
        if !text.contains(e.ctx.as_str()) && !(e.kind == ErrorKind::MalformedHex && bare(text).contains(&e.ctx)) {
            return (TREE, format!("{e} is not in the text"));
        }
        if at.err() != Some(Why::Syntax) {
            return (refsem::PARSE, String::new());
        }
        match &diag {
            Diag::Literal(k, body) => {
                let kind = match k {
                    Bad::Integer => ErrorKind::MalformedInteger,
                    Bad::Float => ErrorKind::MalformedFloat,
                    Bad::Hex => ErrorKind::MalformedHex,
                    Bad::Text => ErrorKind::MalformedText,
                    Bad::Base64 => ErrorKind::MalformedBase64,
                };
                if e.kind != kind || e.ctx != *body && !(*k == Bad::Hex && e.ctx == bare(body)) {
                    return (TREE, format!("{e}, but the malformed literal is {body:?}, {kind:?}"));
                }
            }
            Diag::Key => {}
            Diag::Stuck(a, b) => {
                let p = text.len() - e.ctx.len();
                if e.kind != ErrorKind::Unparseable || !text.ends_with(e.ctx.as_str()) || p < *a || p > *b {
                    return (TREE, format!("{e}, but reading stops between {a} and {b}"));
                }
            }
        }
        (refsem::PARSE, String::new())
    });
    r.unwrap_or_else(|m| (PANIC, m))
}

/// Do the text-preserving functions agree with the plain ones, with exactly
/// the stretches of text that the reference grammar gives the rules?
pub fn slice_verdict(text: &str) -> (Bits, &'static str) {
    use cddl_cat::{flatten, parser};
    let at = crate::refparse::parse(text);
    let r = guarded(|| {
        let plain = parser::parse_cddl(text);
        let slice = parser::slice_parse_cddl(text);
        let flat = flatten::flatten_from_str(text);
        let sflat = flatten::slice_flatten_from_str(text);
        let (plain, slice) = match (plain, slice) {
            (Ok(p), Ok(s)) => (p, s),
            (Err(a), Err(b)) => {
                if a.kind != b.kind {
                    // what is said about an error is not specified
                }
                return match (flat, sflat) {
                    (Err(ValidateError::ParseError(_)), Err(ValidateError::ParseError(_))) => (refsem::PARSE, ""),
                    _ => (OTHER, "flattening text that does not parse"),
                };
            }
            _ => return (OTHER, "only one of parse_cddl and slice_parse_cddl succeeds"),
        };
        if plain.rules.len() != slice.rules.len() || plain.rules.iter().zip(&slice.rules).any(|(a, b)| *a != b.0) {
            return (OTHER, "parse_cddl and slice_parse_cddl give different rules");
        }
        if let Ok(at) = &at {
            if at.len() != slice.rules.len() {
                return (OTHER, "number of rules");
            }
            for (a, (_, s)) in at.iter().zip(&slice.rules) {
                if text[a.start..a.end] != **s {
                    return (OTHER, "the text kept with a rule");
                }
            }
        }
        for (r, s) in &slice.rules {
            match parser::parse_cddl(s) {
                Ok(c) if c.rules.len() == 1 && c.rules[0] == *r => {}
                _ => return (OTHER, "the text kept with a rule does not give that rule back"),
            }
        }
        let (f2, sf2) = (flatten::flatten(&plain), flatten::slice_flatten(&slice));
        match (flat, sflat, f2, sf2) {
            (Ok(a), Ok(b), Ok(c), Ok(d)) => {
                if a != c || b != d {
                    return (OTHER, "flattening in one step and in two steps");
                }
                if a.len() != b.len() || a.iter().any(|(k, v)| b.get(k).map(|x| &x.0) != Some(v)) {
                    return (OTHER, "flatten and slice_flatten give different rules");
                }
                // with a name given once the text belongs to that rule
                for (r, s) in &slice.rules {
                    let once = slice.rules.iter().filter(|x| x.0.name == r.name).count() == 1;
                    if once && b.get(&r.name).map(|x| &x.1) != Some(s) {
                        return (OTHER, "text kept by slice_flatten");
                    }
                }
                (refsem::OK, "")
            }
            (Err(a), Err(b), Err(c), Err(d)) => {
                let k = class_e(&a);
                if [b, c, d].iter().all(|e| class_e(e) == k) {
                    (k, "")
                } else {
                    (OTHER, "kinds of flattening errors")
                }
            }
            _ => (OTHER, "only some of the flattening functions succeed"),
        }
    });
    match r {
        Err(_) => (PANIC, "panic"),
        // acceptance itself
        Ok((b, w)) => match (&at, b) {
            (Ok(_), refsem::PARSE) => (refsem::PARSE, "refused"),
            (Err(crate::refparse::Why::Syntax), b) if b != refsem::PARSE && b != OTHER => (refsem::OK, "accepted"),
            _ => (b, w),
        },
    }
}

pub fn class_e(e: &ValidateError) -> Bits {
    match e {
        ValidateError::ParseError(_) => refsem::PARSE,
        ValidateError::Structural(_) | ValidateError::Unsupported(_) => refsem::SCHEMA,
        ValidateError::Mismatch(_) => refsem::MIS,
        ValidateError::MapCut(_) => refsem::CUT,
        ValidateError::MissingRule(_) => refsem::MISSING,
        ValidateError::ValueError(_) => refsem::VALUE,
        ValidateError::GenericError => refsem::GENERIC,
        _ => refsem::UNSPEC,
    }
}

pub fn class(r: &ValidateResult) -> Bits {
    match r {
        Ok(()) => refsem::OK,
        Err(e) => class_e(e),
    }
}

thread_local! {
    static PANIC_MSG: Cell<String> = const { Cell::new(String::new()) };
}

/// Run implementation code, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC_MSG.with(|m| m.take()))
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        if std::env::var_os("MC_TRACE").is_some() {
            eprintln!("{s}");
        }
        let _ = PANIC_MSG.try_with(|m| m.set(s));
    }));
}

// ------------------------------------------------------------ violations

#[derive(Clone, Debug)]
pub struct Violation {
    /// identifies the finding (for the list of known findings)
    pub key: String,
    pub what: String,
    pub case: Option<Case>,
    /// anything else needed to understand or repeat it
    pub extra: serde_json::Value,
    pub expected: String,
    pub got: String,
    pub size: usize,
}

// ------------------------------------------------------------ run state

/// What is done with the schemas and values of suites borrowed from other
/// properties.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    /// compared with the reference machine
    Plain,
    /// lookups are made to fail
    Faults,
    /// run in builds with fewer features
    Lite,
}

impl Mode {
    pub fn of(prop: &str) -> Mode {
        match prop {
            "C27" => Mode::Faults,
            "C28" => Mode::Lite,
            _ => Mode::Plain,
        }
    }
    fn own(&self, c: &Case) -> bool {
        match self {
            Mode::Plain => true,
            Mode::Faults => matches!(c, Case::Fault { .. }),
            Mode::Lite => matches!(c, Case::Lite { .. } | Case::LiteRaw { .. } | Case::LiteText { .. }),
        }
    }
}

pub struct Run {
    pub prop: String,
    pub mode: Mode,
    pub thorough: bool,
    pub shared: Shared,
    pub deadline: Instant,
    pub stop: AtomicBool,
    pub capped: AtomicBool,
    pub violations: Mutex<Vec<Violation>>,
    pub nviol: AtomicUsize,
    pub known: Vec<String>,
    pub known_hit: Mutex<BTreeMap<String, String>>,
    pub report: Mutex<Report>,
    pub engine_error: Mutex<Option<String>>,
}

#[derive(Default)]
pub struct Report {
    pub suites: Vec<serde_json::Value>,
    pub samples: Vec<serde_json::Value>,
    pub tot: Stats,
    pub notes: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Stats {
    /// schemas (or texts) explored
    pub schemas: u64,
    /// executions of the implementation compared with the reference
    pub traces: u64,
    /// distinct reference configurations
    pub states: u64,
    /// reference steps
    pub steps: u64,
    /// cases that the reference leaves open
    pub unspec: u64,
    /// cases with more than one permitted verdict
    pub open: u64,
    pub outcomes: BTreeMap<String, u64>,
}

impl Stats {
    fn add(&mut self, o: &Stats) {
        self.schemas += o.schemas;
        self.traces += o.traces;
        self.states += o.states;
        self.steps += o.steps;
        self.unspec += o.unspec;
        self.open += o.open;
        for (k, v) in &o.outcomes {
            *self.outcomes.entry(k.clone()).or_default() += v;
        }
    }
}

/// The per-thread handle given to suite items.
pub struct Worker<'r> {
    pub run: &'r Run,
    slot: usize,
    pub st: Stats,
    hist: [u64; 16],
    pub samples: Vec<serde_json::Value>,
    want_sample: bool,
    pub suite: &'r str,
}

pub struct Prepared {
    pub text: String,
    pub ctx: BasicContext,
}

const MAX_VIOL: usize = 40;

#[derive(Clone, Copy)]
pub enum Input<'a> {
    Cbor(&'a [u8]),
    Json(&'a str),
}

impl<'r> Worker<'r> {
    pub fn stopped(&self) -> bool {
        if Instant::now() > self.run.deadline {
            self.run.capped.store(true, Relaxed);
            return true;
        }
        self.run.stop.load(Relaxed)
    }

    pub fn outcome(&mut self, b: Bits) {
        self.hist[(b.trailing_zeros() as usize).min(15)] += 1;
    }
    pub fn outcome_named(&mut self, n: &str) {
        *self.st.outcomes.entry(n.to_string()).or_default() += 1;
    }

    /// Announce the case that is about to run (for hangs and crashes).
    pub fn publish(&self, parts: &[&str]) {
        self.run.shared.slot(self.slot).publish(parts);
    }
    /// Run implementation code under the watch of the monitor.
    pub fn imp<T>(&self, f: impl FnOnce() -> T) -> Result<T, String> {
        let s = self.run.shared.slot(self.slot);
        s.seq.fetch_add(1, Release);
        s.busy.store(1, Release);
        let r = guarded(f);
        s.busy.store(0, Release);
        r
    }

    pub fn violation(&mut self, v: Violation) {
        if self.run.known.contains(&v.key) {
            self.run.known_hit.lock().unwrap().insert(v.key.clone(), v.what.clone());
            return;
        }
        let mut g = self.run.violations.lock().unwrap();
        g.push(v);
        let n = self.run.nviol.fetch_add(1, Relaxed) + 1;
        if n >= MAX_VIOL {
            self.run.stop.store(true, Relaxed);
        }
    }

    /// A disagreement on a case.
    pub fn differ(&mut self, case: Case, expected: Bits, got: Bits, note: &str) {
        // what the borrowed suites compare is for other properties to judge
        if self.run.mode != Mode::Plain && !self.run.mode.own(&case) {
            return;
        }
        let size = match &case {
            Case::Value { schema, cbor, .. } | Case::Fault { schema, cbor, .. } | Case::Lite { schema, cbor, .. } => schema.len() * 4 + cbor.len(),
            Case::Read { schema } => schema.len() * 4,
            Case::Raw { schema, input, .. } | Case::LiteRaw { schema, input, .. } => schema.len() * 4 + input.len(),
            Case::Parse { text } | Case::Slice { text } | Case::Flat { text } | Case::Why { text } | Case::Safe { text } | Case::LiteText { text, .. } => text.len(),
        };
        self.violation(Violation {
            key: format!("{}:{}", self.suite, size),
            what: note.to_string(),
            case: Some(case),
            extra: serde_json::json!({"suite": self.suite}),
            expected: show(expected),
            got: show(got),
            size,
        });
    }

    pub fn sample(&mut self, f: impl FnOnce() -> serde_json::Value) {
        if self.want_sample && self.samples.len() < 2 {
            self.samples.push(f());
        }
    }

    /// Print, parse and flatten a schema, comparing the outcome of reading
    /// with what the reference says. None: it was (rightly) refused, or
    /// reading went wrong.
    pub fn read(&mut self, s: &Schema) -> Option<Prepared> {
        let text = ast::print(s);
        let expect = refsem::read_errors(s);
        self.read_text(text, expect)
    }

    pub fn read_text(&mut self, text: String, expect: Bits) -> Option<Prepared> {
        self.st.schemas += 1;
        if text.len() > SLOT - 4096 {
            panic!("schema too long for a slot");
        }
        self.publish(&["R\n", &text]);
        let r = self.imp(|| cddl_cat::flatten::flatten_from_str(&text));
        if expect & refsem::UNSPEC != 0 {
            self.st.unspec += 1;
            return match r {
                Ok(Ok(rules)) => Some(Prepared { text, ctx: BasicContext::new(rules) }),
                Ok(Err(_)) => None,
                Err(_) => {
                    self.differ(Case::Read { schema: text }, expect, PANIC, "reading a schema");
                    None
                }
            };
        }
        self.st.traces += 1;
        match r {
            Ok(Ok(rules)) => {
                if expect != 0 {
                    self.differ(Case::Read { schema: text }, expect, refsem::OK, "reading a schema");
                    return None;
                }
                Some(Prepared { text, ctx: BasicContext::new(rules) })
            }
            Ok(Err(e)) => {
                let got = class_e(&e);
                self.outcome(got);
                if expect & got == 0 {
                    let exp = if expect == 0 { refsem::OK } else { expect };
                    self.differ(Case::Read { schema: text }, exp, got, "reading a schema");
                }
                None
            }
            Err(m) => {
                let exp = if expect == 0 { refsem::OK } else { expect };
                self.differ(Case::Read { schema: text }, exp, PANIC, &m);
                None
            }
        }
    }

    /// Validate through the parsed interfaces and compare with `expect`.
    pub fn judge(&mut self, p: &Prepared, rule: &str, val: &Val, expect: Bits) {
        self.judge_alt(p, rule, val, expect, &[])
    }

    /// `alt`: the verdicts of a listed finding, and its key.
    pub fn judge_alt(&mut self, p: &Prepared, rule: &str, val: &Val, expect: Bits, alt: &[(Bits, &str)]) {
        match self.run.mode {
            Mode::Plain => {}
            Mode::Faults => return,
            Mode::Lite => return crate::lite::compare(self, None, p, rule, std::slice::from_ref(val)),
        }
        if expect & refsem::UNSPEC != 0 {
            self.st.unspec += 1;
        } else if expect.count_ones() > 1 {
            self.st.open += 1;
        }
        for via in [Via::Cbor, Via::Json] {
            if via == Via::Json && val.json.is_none() {
                continue;
            }
            let got = self.verdict(p, rule, val, via);
            self.outcome(got);
            self.st.traces += 1;
            let bad = if expect & refsem::UNSPEC != 0 { got & (PANIC | HANG | CRASH) != 0 } else { expect & got == 0 };
            if bad {
                if let Some((_, key)) = alt.iter().find(|(b, _)| b & got != 0) {
                    let what = format!("schema {:?}, data {}: expected {}, got {}", p.text, value::diag(&val.v), show(expect), show(got));
                    self.violation(Violation {
                        key: key.to_string(),
                        what,
                        case: Some(Case::Value { schema: p.text.clone(), rule: rule.into(), cbor: val.hex.clone(), via }),
                        extra: serde_json::json!({"suite": self.suite}),
                        expected: show(expect),
                        got: show(got),
                        size: p.text.len(),
                    });
                    continue;
                }
            }
            if bad {
                let case = Case::Value {
                    schema: p.text.clone(),
                    rule: rule.into(),
                    cbor: val.hex.clone(),
                    via,
                };
                self.differ(case, expect, got, "validating a value");
            }
        }
    }

    /// A one-shot call on encoded input. `alt`: what listed findings make of
    /// it.
    pub fn raw(&mut self, schema: &str, rule: &str, input: Input, expect: Bits, alt: &[(Bits, String)]) -> Bits {
        match self.run.mode {
            Mode::Plain => {}
            Mode::Faults => return refsem::UNSPEC,
            Mode::Lite => {
                crate::lite::compare_raw(self, schema, rule, input);
                return refsem::UNSPEC;
            }
        }
        self.st.traces += 1;
        let got = match input {
            Input::Cbor(b) => {
                self.publish(&["B\n", rule, "\n", &value::hex(b), "\n", schema]);
                self.imp(|| cddl_cat::validate_cbor_bytes(rule, schema, b))
            }
            Input::Json(t) => {
                self.publish(&["J\n", rule, "\n", &schema.len().to_string(), "\n", schema, t]);
                self.imp(|| cddl_cat::validate_json_str(rule, schema, t))
            }
        };
        let got = match got {
            Ok(r) => class(&r),
            Err(_) => PANIC,
        };
        self.outcome(got);
        let bad = if expect & refsem::UNSPEC != 0 {
            self.st.unspec += 1;
            got & (PANIC | HANG | CRASH) != 0
        } else {
            expect & got == 0
        };
        if bad {
            let case = Case::Raw {
                schema: schema.into(),
                rule: rule.into(),
                input: match input {
                    Input::Cbor(b) => value::hex(b),
                    Input::Json(t) => t.into(),
                },
                json: matches!(input, Input::Json(_)),
            };
            if let Some((_, key)) = alt.iter().find(|(b, _)| b & got != 0) {
                self.violation(Violation {
                    key: key.clone(),
                    what: format!("{}: expected {}, got {}", case.to_json(), show(expect), show(got)),
                    case: Some(case),
                    extra: serde_json::json!({"suite": self.suite}),
                    expected: show(expect),
                    got: show(got),
                    size: schema.len(),
                });
            } else {
                self.differ(case, expect, got, "validating encoded data");
            }
        }
        got
    }

    /// A disagreement that is not one call with one permitted result.
    pub fn complain(&mut self, what: &str, expected: &str, got: &str, extra: serde_json::Value) {
        if self.run.mode != Mode::Plain {
            return;
        }
        self.complain_always(what, expected, got, extra);
    }

    /// The same, said for a property that borrows its suites.
    pub fn complain_always(&mut self, what: &str, expected: &str, got: &str, extra: serde_json::Value) {
        let size = extra.to_string().len();
        self.violation(Violation {
            key: format!("{}:{what}", self.suite),
            what: what.into(),
            case: None,
            extra,
            expected: expected.into(),
            got: got.into(),
            size,
        });
    }

    pub fn verdict(&mut self, p: &Prepared, rule: &str, val: &Val, via: Via) -> Bits {
        let r = self.imp(|| match p.ctx.rules.get(rule) {
            None => Err(ValidateError::MissingRule(rule.into())),
            Some(def) => match via {
                Via::Cbor => cddl_cat::validate_cbor(def, &val.cbor, &p.ctx),
                Via::Json => cddl_cat::validate_json(def, val.json.as_ref().unwrap(), &p.ctx),
            },
        });
        match r {
            Ok(r) => class(&r),
            Err(_) => PANIC,
        }
    }

    /// Parse a text with the crate and with the reference grammar. Some:
    /// whether the reference accepts.
    pub fn conform(&mut self, text: &str) -> Option<bool> {
        self.conform_to(text, None)
    }

    /// The same where the tree the text was printed from is known.
    pub fn conform_to(&mut self, text: &str, tree: Option<&[ast::Rule]>) -> Option<bool> {
        if self.run.mode == Mode::Lite {
            crate::lite::compare_text(self, text);
            return None;
        }
        let (r, work) = crate::refparse::parse_counted(text);
        self.st.schemas += 1;
        self.st.states += 1;
        self.st.steps += work;
        self.st.traces += 1;
        self.publish(&["P\n", text]);
        let (got, exp) = match r {
            Ok(r) => {
                let r: Vec<ast::Rule> = r.into_iter().map(|r| r.rule).collect();
                let got = match tree {
                    Some(t) => self.imp(|| parse_verdict(text, &[&r, t])),
                    None => self.imp(|| parse_verdict(text, &[&r])),
                };
                (got, refsem::OK)
            }
            Err(crate::refparse::Why::Syntax) => (self.imp(|| parse_verdict(text, &[])), refsem::PARSE),
            Err(_) => {
                self.st.unspec += 1;
                (self.imp(|| parse_verdict(text, &[])), refsem::OK | refsem::PARSE)
            }
        };
        let got = got.unwrap_or(PANIC);
        self.outcome(got);
        if got & exp == 0 {
            self.differ(Case::Parse { text: text.into() }, exp, got, "parsing a text");
        }
        self.sample(|| serde_json::json!({"text": text, "permitted": show(exp)}));
        match exp {
            refsem::OK => Some(true),
            refsem::PARSE => Some(false),
            _ => None,
        }
    }

    /// Flatten a text with the crate and compare with what the reference
    /// grammar says the text is.
    pub fn flat(&mut self, text: &str) {
        if self.run.mode == Mode::Lite {
            return crate::lite::compare_text(self, text);
        }
        let (r, work) = crate::refparse::parse_counted(text);
        self.st.steps += work;
        let Ok(r) = r else { return };
        let s = Schema(r.into_iter().map(|r| r.rule).collect());
        self.flat_tree(text, &s);
    }

    pub fn flat_tree(&mut self, text: &str, s: &Schema) {
        if self.run.mode == Mode::Lite {
            return crate::lite::compare_text(self, text);
        }
        let e = refsem::read_errors(s);
        self.st.schemas += 1;
        self.st.states += 1;
        self.st.traces += 1;
        self.publish(&["L\n", text]);
        let exp = if e == 0 { refsem::OK } else { e };
        let (got, why) = self.imp(|| flat_verdict(text, &s.0)).unwrap_or((PANIC, String::new()));
        if exp & refsem::UNSPEC != 0 {
            self.st.unspec += 1;
        }
        self.outcome(got);
        // what is flattened has to be right whether or not it may be refused
        if got & exp == 0 && (exp & refsem::UNSPEC == 0 || got & (PANIC | TREE | OTHER) != 0) {
            self.differ(Case::Flat { text: text.into() }, exp, got, &format!("flattening a text: {why}"));
        }
        self.sample(|| serde_json::json!({"text": text, "permitted": show(exp), "flattened": s.0.iter().map(crate::flat::expected).collect::<Vec<_>>()}));
    }

    /// What is said about a text that is not a schema.
    pub fn why(&mut self, text: &str) {
        self.st.schemas += 1;
        self.publish(&["W\n", text]);
        let (got, why) = self.imp(|| why_verdict(text)).unwrap_or((PANIC, String::new()));
        self.outcome(got);
        self.st.states += 1;
        if got & refsem::OK != 0 {
            return;
        }
        self.st.traces += 12;
        let bad = got & (TREE | OTHER | PANIC) != 0;
        if got & refsem::UNSPEC != 0 {
            self.st.unspec += 1;
        }
        if bad {
            self.differ(Case::Why { text: text.into() }, refsem::PARSE, got, &format!("the error for a text: {why}"));
        }
        self.sample(|| serde_json::json!({"text": text, "diagnosis": format!("{:?}", crate::refparse::parse_diag(text).2)}));
    }

    /// Announce schema, rule and value.
    pub fn publish_value(&self, p: &Prepared, rule: &str, v: &Val) {
        self.publish(&["V\n", rule, "\n", &v.hex, "\n", &p.text]);
    }

    /// One schema against many values, compared with the reference machine.
    pub fn sweep(&mut self, s: &Schema, rule: &str, vals: &[Val]) {
        if let Some(p) = self.read(s) {
            self.sweep_read(s, &p, rule, vals);
        }
    }

    pub fn sweep_read(&mut self, s: &Schema, p: &Prepared, rule: &str, vals: &[Val]) {
        if self.run.mode == Mode::Faults {
            return crate::props::errors::faults(self, p, rule, vals);
        }
        if self.run.mode == Mode::Lite {
            return crate::lite::compare(self, Some(s), p, rule, vals);
        }
        let mut sem = Sem::new(s);
        for v in vals {
            if self.stopped() {
                return;
            }
            self.publish_value(p, rule, v);
            let verdict = sem.run(rule, &v.v);
            self.st.states += verdict.states;
            self.st.steps += verdict.steps;
            if v.lax {
                let mut alt = vec![];
                for (lax, key) in LAX_KEYS {
                    sem.lax = *lax;
                    alt.push((sem.run(rule, &v.v).bits, *key));
                }
                sem.lax = 0;
                self.judge_alt(p, rule, v, verdict.bits, &alt);
            } else {
                self.judge(p, rule, v, verdict.bits);
            }
            let text = &p.text;
            self.sample(|| {
                serde_json::json!({"schema": text, "rule": rule, "data": value::diag(&v.v),
                    "permitted": show(verdict.bits), "reference_states": verdict.states})
            });
        }
    }

    /// Verdict of the implementation on the parsed-value interface, watched.
    pub fn run_value(&mut self, p: &Prepared, rule: &str, v: &Val) -> Bits {
        self.publish_value(p, rule, v);
        self.st.traces += 1;
        let b = self.verdict(p, rule, v, Via::Cbor);
        self.outcome(b);
        b
    }

    fn finish(&mut self) {
        for (i, n) in self.hist.iter().enumerate() {
            if *n > 0 {
                *self.st.outcomes.entry(show(1 << i)).or_default() += n;
            }
        }
        self.hist = [0; 16];
    }
}

/// The findings that ill-formed encodings are decoded.
pub const LAX_KEYS: &[(u8, &str)] = &[
    (1, "two-byte-simple-value"),
    (2, "nested-indefinite-string"),
    (3, "two-byte-simple-value-and-nested-indefinite-string"),
];

pub type Item<'a> = Box<dyn Fn(usize, &mut Worker) + Sync + 'a>;

pub struct Suite<'a> {
    pub name: &'static str,
    pub n: usize,
    pub f: Item<'a>,
    /// what the bounds are
    pub bounds: String,
}

pub fn suite<'a>(
    name: &'static str,
    bounds: impl Into<String>,
    n: usize,
    f: impl Fn(usize, &mut Worker) + Sync + 'a,
) -> Suite<'a> {
    Suite { name, n, f: Box::new(f), bounds: bounds.into() }
}

pub fn nthreads() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 8)
}

/// Run one suite over all of its items.
pub fn run_suite(run: &Run, s: &Suite) {
    let next = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let t0 = Instant::now();
    let all = Mutex::new(Stats::default());
    let samples = Mutex::new(vec![]);
    if run.stop.load(Relaxed) {
        return;
    }
    let over = AtomicBool::new(false);
    let monitor_stop = Arc::new(AtomicBool::new(false));
    std::thread::scope(|sc| {
        let nt = nthreads().min(s.n.max(1));
        for th in 0..nt {
            let (next, done, all, samples, over) = (&next, &done, &all, &samples, &over);
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut id = 0i32;
                    unsafe { pthread_getcpuclockid(pthread_self(), &mut id) };
                    let slot = run.shared.slot(th);
                    slot.clock.store(id as u32 as u64, SeqCst);
                    let mut w = Worker {
                        run,
                        slot: th,
                        st: Stats::default(),
                        hist: [0; 16],
                        samples: vec![],
                        want_sample: false,
                        suite: s.name,
                    };
                    loop {
                        if run.stop.load(Relaxed) {
                            break;
                        }
                        if Instant::now() > run.deadline {
                            over.store(true, Relaxed);
                            break;
                        }
                        let i = next.fetch_add(1, Relaxed);
                        if i >= s.n {
                            break;
                        }
                        w.want_sample = i == 0 || i == s.n / 2;
                        if w.want_sample {
                            w.samples.clear();
                        }
                        let r = catch_unwind(AssertUnwindSafe(|| (s.f)(i, &mut w)));
                        if r.is_err() {
                            let m = PANIC_MSG.with(|m| m.take());
                            *run.engine_error.lock().unwrap() =
                                Some(format!("harness panic in {} item {i}: {m}", s.name));
                            run.stop.store(true, Relaxed);
                        }
                        if w.want_sample {
                            samples.lock().unwrap().append(&mut w.samples);
                        }
                        run.shared.counter(0).fetch_add(1, Relaxed);
                        if !run.capped.load(Relaxed) {
                            done.fetch_add(1, Relaxed);
                        }
                    }
                    w.finish();
                    slot.clock.store(0, SeqCst);
                    run.shared.counter(1).fetch_add(w.st.traces, Relaxed);
                    run.shared.counter(2).fetch_add(w.st.states, Relaxed);
                    run.shared.counter(3).fetch_add(w.st.steps, Relaxed);
                    all.lock().unwrap().add(&w.st);
                })
                .unwrap();
        }
        // the monitor: an implementation call that burns this much of its
        // own thread's CPU time does not come back
        let ms = monitor_stop.clone();
        let (next, done, run_ref) = (&next, &done, run);
        let total = s.n;
        sc.spawn(move || {
            let mut last = vec![(0u64, 0u64); NSLOT];
            loop {
                std::thread::sleep(Duration::from_millis(20));
                let d = done.load(Relaxed);
                let n = next.load(Relaxed);
                let late = Instant::now() > run_ref.deadline;
                let active = (0..NSLOT).any(|i| run_ref.shared.slot(i).clock.load(SeqCst) != 0);
                if (d >= total || n >= total || late || run_ref.stop.load(Relaxed)) && !active || ms.load(Relaxed) {
                    return;
                }
                for i in 0..NSLOT {
                    let sl = run_ref.shared.slot(i);
                    let ck = sl.clock.load(SeqCst);
                    if ck == 0 || sl.busy.load(SeqCst) == 0 {
                        last[i].0 = u64::MAX;
                        continue;
                    }
                    let seq = sl.seq.load(SeqCst);
                    let now = cpu_ms(ck as u32 as i32);
                    if last[i].0 != seq {
                        last[i] = (seq, now);
                    } else if now.saturating_sub(last[i].1) > HANG_MS {
                        // leave the rest to the supervisor
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        });
    });
    let finished = done.load(Relaxed) >= s.n;
    if over.load(Relaxed) && !finished {
        run.capped.store(true, Relaxed);
    }
    let st = all.into_inner().unwrap();
    let mut rep = run.report.lock().unwrap();
    if std::env::var_os("MC_VERBOSE").is_some() {
        eprintln!(
            "{:28} items {}/{} schemas {} traces {} states {} steps {} open {} unspec {} {:.1}s {:?}",
            s.name,
            done.load(Relaxed),
            s.n,
            st.schemas,
            st.traces,
            st.states,
            st.steps,
            st.open,
            st.unspec,
            t0.elapsed().as_secs_f64(),
            st.outcomes
        );
    }
    rep.suites.push(serde_json::json!({
        "suite": s.name, "bounds": s.bounds, "items": s.n, "items_done": done.load(Relaxed),
        "schemas": st.schemas, "traces": st.traces, "states": st.states, "transitions": st.steps,
        "several_verdicts_permitted": st.open, "left_open": st.unspec, "outcomes": st.outcomes,
        "complete": finished, "wall_s": t0.elapsed().as_secs_f64(),
    }));
    let sm = samples.into_inner().unwrap();
    rep.samples.extend(sm.into_iter().take(3).map(|mut x| {
        x["suite"] = s.name.into();
        x
    }));
    rep.tot.add(&st);
}

pub const HANG_MS: u64 = 8_000;
pub const EXIT_HANG: i32 = 77;
pub const EXIT_ERROR: i32 = 2;

pub fn root() -> PathBuf {
    PathBuf::from(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// What the list says about a finding.
pub fn known_text(prop: &str, key: &str) -> Option<String> {
    let t = std::fs::read_to_string(root().join("known_findings.json")).ok()?;
    let v: serde_json::Value = serde_json::from_str(&t).ok()?;
    let e = v["known"].as_array()?.iter().find(|e| e["property"] == prop && e["key"] == key)?;
    Some(e["what"].as_str()?.to_string())
}

/// Keys of the listed findings of a property that are not fixed.
pub fn known_findings(prop: &str) -> Vec<String> {
    let t = match std::fs::read_to_string(root().join("known_findings.json")) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let v: serde_json::Value = serde_json::from_str(&t).expect("known_findings.json");
    v["known"]
        .as_array()
        .map(|a| {
            a.iter().filter(|e| e["property"] == prop).map(|e| e["key"].as_str().unwrap().to_string()).collect()
        })
        .unwrap_or_default()
}

pub fn write_violations(prop: &str, mut v: Vec<Violation>) {
    v.sort_by_key(|x| x.size);
    let mut seen = HashSet::new();
    v.retain(|x| seen.insert((x.expected.clone(), x.got.clone(), x.what.clone())));
    let dir = root().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    for (i, x) in v.iter().take(3).enumerate() {
        let p = dir.join(format!("{prop}-{}.json", i + 1));
        let mut test = String::new();
        if let Some(Case::Value { schema, rule, cbor, .. }) = &x.case {
            test = format!(
                "#[test] fn replay() {{ let r = cddl_cat::validate_cbor_bytes({rule:?}, {schema:?}, &hex::decode({cbor:?}).unwrap()); /* permitted: {} */ panic!(\"{{r:?}}\"); }}",
                x.expected
            );
        }
        let j = serde_json::json!({
            "property": prop, "key": x.key, "what": x.what, "expected": x.expected, "got": x.got,
            "case": x.case.as_ref().map(|c| c.to_json()), "extra": x.extra, "unit_test": test,
            "replay_with": format!("{}/check.sh replay {}", root().display(), p.display()),
        });
        std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("VIOLATION property={prop} replay={}", p.display());
        println!("  {}: expected {}, got {}", x.what, x.expected, x.got);
        if let Some(c) = &x.case {
            println!("  {}", c.to_json());
        } else {
            println!("  {}", x.extra);
        }
    }
}

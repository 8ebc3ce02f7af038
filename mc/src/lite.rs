//! C28: builds of the crate with a subset of its features, loaded next to
//! the full one.
use crate::engine::*;
use crate::refsem::{self, Bits, Sem};
use crate::value::{self, Val};
use crate::ast::Schema;
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::OnceLock;

extern "C" {
    fn dlopen(f: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
}

pub const BUILDS: &[&str] = &["json", "cbor", "none"];

pub struct Lib {
    pub name: &'static str,
    read: unsafe extern "C" fn(*const u8, usize, *mut u32) -> *mut c_void,
    free: unsafe extern "C" fn(*mut c_void),
    decode: unsafe extern "C" fn(*const u8, usize) -> *mut c_void,
    forget: unsafe extern "C" fn(*mut c_void),
    value: unsafe extern "C" fn(*const c_void, *const u8, usize, *const c_void) -> u32,
    json: unsafe extern "C" fn(*const u8, usize, *const u8, usize, *const u8, usize) -> u32,
    cbor: unsafe extern "C" fn(*const u8, usize, *const u8, usize, *const u8, usize) -> u32,
    trees: unsafe extern "C" fn(*const u8, usize) -> u64,
}

fn bits(n: u32) -> Option<Bits> {
    Some(match n {
        0 => refsem::OK,
        1 => refsem::MIS,
        2 => refsem::CUT,
        3 => refsem::MISSING,
        4 => refsem::SCHEMA,
        5 => refsem::VALUE,
        6 => refsem::GENERIC,
        7 => refsem::PARSE,
        8 => refsem::UNSPEC,
        9 => PANIC,
        _ => return None,
    })
}

/// The builds, or why there are none.
pub fn libs() -> &'static Result<Vec<Lib>, String> {
    static LIBS: OnceLock<Result<Vec<Lib>, String>> = OnceLock::new();
    LIBS.get_or_init(|| {
        if let Ok(f) = std::env::var("MC_LITE_FAILED") {
            return Err(std::fs::read_to_string(&f).unwrap_or(f));
        }
        let mut out = vec![];
        for name in BUILDS {
            let p = root().join(format!("lite/target/liblite-{name}.so"));
            let c = CString::new(p.to_str().unwrap()).unwrap();
            let h = unsafe { dlopen(c.as_ptr(), 2) };
            if h.is_null() {
                panic!("cannot load {}", p.display());
            }
            macro_rules! sym {
                ($n:literal) => {{
                    let s = unsafe { dlsym(h, concat!($n, "\0").as_ptr().cast()) };
                    assert!(!s.is_null(), $n);
                    unsafe { std::mem::transmute(s) }
                }};
            }
            let quiet: unsafe extern "C" fn() = sym!("lite_quiet");
            unsafe { quiet() };
            out.push(Lib {
                name,
                read: sym!("lite_read"),
                free: sym!("lite_free"),
                decode: sym!("lite_decode"),
                forget: sym!("lite_forget"),
                value: sym!("lite_value"),
                json: sym!("lite_json"),
                cbor: sym!("lite_cbor"),
                trees: sym!("lite_trees"),
            });
        }
        Ok(out)
    })
}

fn all() -> &'static [Lib] {
    libs().as_deref().unwrap_or(&[])
}

pub fn lib(name: &str) -> Option<&'static Lib> {
    all().iter().find(|l| l.name == name)
}

mod full {
    include!("../../lite/src/trees.rs");
}

/// Does the build read this text as the full build does?
pub fn read_alike(l: &Lib, text: &str) -> Bits {
    let want = match guarded(|| full::trees(text)) {
        Ok(h) => h,
        Err(_) => 1,
    };
    let got = unsafe { (l.trees)(text.as_ptr(), text.len()) };
    if got == want {
        refsem::OK
    } else if got == 1 {
        PANIC
    } else {
        TREE
    }
}

pub fn one_shot(l: &Lib, schema: &str, rule: &str, input: Input) -> Option<Bits> {
    let (s, sn, r, rn) = (schema.as_ptr(), schema.len(), rule.as_ptr(), rule.len());
    bits(unsafe {
        match input {
            Input::Json(t) => (l.json)(s, sn, r, rn, t.as_ptr(), t.len()),
            Input::Cbor(b) => (l.cbor)(s, sn, r, rn, b.as_ptr(), b.len()),
        }
    })
}

/// What the build makes of a value.
pub fn value(l: &Lib, schema: &str, rule: &str, v: &Val) -> Option<Bits> {
    let r = Ready::new(l, schema);
    r.value(rule, &Handle::new(v)).or(r.refused)
}

struct Ready {
    l: &'static Lib,
    ctx: *mut c_void,
    refused: Option<Bits>,
}
impl Ready {
    fn new(l: &Lib, schema: &str) -> Ready {
        let l = lib(l.name).unwrap();
        let mut out = 0;
        let ctx = unsafe { (l.read)(schema.as_ptr(), schema.len(), &mut out) };
        Ready { l, ctx, refused: if ctx.is_null() { bits(out) } else { None } }
    }
    fn value(&self, rule: &str, v: &Handle) -> Option<Bits> {
        if self.ctx.is_null() {
            return None;
        }
        let h = v.0[BUILDS.iter().position(|n| *n == self.l.name).unwrap()];
        bits(unsafe { (self.l.value)(self.ctx, rule.as_ptr(), rule.len(), h) })
    }
}
impl Drop for Ready {
    fn drop(&mut self) {
        if !self.ctx.is_null() {
            unsafe { (self.l.free)(self.ctx) }
        }
    }
}

/// A value as each of the builds holds it.
struct Handle(Vec<*mut c_void>);
impl Handle {
    fn new(v: &Val) -> Handle {
        let b = value::unhex(&v.hex);
        Handle(all().iter().map(|l| unsafe { (l.decode)(b.as_ptr(), b.len()) }).collect())
    }
}
impl Drop for Handle {
    fn drop(&mut self) {
        for (l, h) in all().iter().zip(&self.0) {
            if !h.is_null() {
                unsafe { (l.forget)(*h) }
            }
        }
    }
}

/// One schema against many values in every build. Where there is no `.cbor`
/// to do without, a build has to agree with the full one; otherwise with
/// the reference machine that has to refuse `.cbor`.
pub fn compare(w: &mut Worker, s: Option<&Schema>, p: &Prepared, rule: &str, vals: &[Val]) {
    let text = &p.text;
    w.publish(&["Y\n", rule, "\n\n", text]);
    let embeds = text.contains(".cbor");
    let ready: Vec<Ready> = all().iter().map(|l| Ready::new(l, text)).collect();
    for r in &ready {
        w.st.schemas += 1;
        w.st.traces += 1;
        if let Some(got) = r.refused {
            w.outcome(got);
            let case = Case::Lite { build: r.l.name.into(), schema: text.clone(), rule: rule.into(), cbor: String::new() };
            w.differ(case, refsem::OK, got, "reading a schema in a build with fewer features");
            return;
        }
    }
    let mut sem = s.filter(|_| embeds).map(Sem::new);
    for v in vals {
        if w.stopped() {
            return;
        }
        w.publish(&["Y\n", rule, "\n", &v.hex, "\n", text]);
        let h = Handle::new(v);
        for r in &ready {
            let Some(got) = r.value(rule, &h) else { continue };
            w.outcome(got);
            w.st.states += 1;
            w.st.traces += 2;
            let via = if r.l.name == "json" { Via::Json } else { Via::Cbor };
            let want = w.verdict(p, rule, v, via);
            let mut exp = want;
            if embeds && via == Via::Json {
                // `.cbor` is refused where it is reached
                exp = match &mut sem {
                    Some(sem) => {
                        sem.nocbor = true;
                        let r = sem.run(rule, &v.v);
                        sem.nocbor = false;
                        w.st.steps += r.steps;
                        w.st.states += r.states;
                        r.bits
                    }
                    None => want | refsem::SCHEMA,
                };
                if exp & refsem::UNSPEC != 0 {
                    w.st.unspec += 1;
                    continue;
                }
            }
            if exp & got == 0 {
                let case = Case::Lite { build: r.l.name.into(), schema: text.clone(), rule: rule.into(), cbor: v.hex.clone() };
                w.differ(case, exp, got, "validating a value in a build with fewer features");
            }
        }
    }
    w.sample(|| serde_json::json!({"schema": text, "rule": rule, "values": vals.len()}));
}

/// A one-shot call in the builds that have it.
pub fn compare_raw(w: &mut Worker, schema: &str, rule: &str, input: Input) {
    for l in all() {
        let case = || {
            let (json, input) = match input {
                Input::Json(t) => (true, t.to_string()),
                Input::Cbor(b) => (false, value::hex(b)),
            };
            Case::LiteRaw { build: l.name.into(), schema: schema.into(), rule: rule.into(), input, json }
        };
        if l.name == "none" || matches!(input, Input::Json(_)) != (l.name == "json") {
            continue;
        }
        w.publish(&["X\n", &case().to_json().to_string()]);
        let Some(got) = one_shot(l, schema, rule, input) else { continue };
        w.outcome(got);
        w.st.states += 1;
        w.st.traces += 2;
        let want = guarded(|| match input {
            Input::Json(t) => cddl_cat::validate_json_str(rule, schema, t),
            Input::Cbor(b) => cddl_cat::validate_cbor_bytes(rule, schema, b),
        });
        let mut want = want.map_or(PANIC, |r| class(&r));
        if schema.contains(".cbor") && l.name == "json" {
            want |= refsem::SCHEMA;
        }
        if want & got == 0 {
            w.differ(case(), want, got, "validating encoded data in a build with fewer features");
        }
    }
}

/// A text, read in every build.
pub fn compare_text(w: &mut Worker, text: &str) {
    w.publish(&["Z\n", text]);
    w.st.schemas += 1;
    for l in all() {
        let got = read_alike(l, text);
        w.outcome(got);
        w.st.states += 1;
        w.st.traces += 2;
        if got != refsem::OK {
            let case = Case::LiteText { build: l.name.into(), text: text.into() };
            w.differ(case, refsem::OK, got, "reading a text in a build with fewer features");
        }
    }
    w.sample(|| serde_json::json!({"text": text}));
}

/// A recorded case again.
pub fn replay(c: &Case) -> Bits {
    let build = match c {
        Case::Lite { build, .. } | Case::LiteRaw { build, .. } | Case::LiteText { build, .. } => build,
        _ => return refsem::UNSPEC,
    };
    let mut out = 0;
    for l in all().iter().filter(|l| build == "all" || l.name == build) {
        out |= match c {
            Case::Lite { schema, rule, cbor, .. } => match value::decode(&value::unhex(cbor)) {
                value::Dec::Ok(v) => value(l, schema, rule, &Val::new(v)).unwrap_or(0),
                _ => Ready::new(l, schema).refused.unwrap_or(refsem::OK),
            },
            Case::LiteRaw { schema, rule, input, json: true, .. } => one_shot(l, schema, rule, Input::Json(input)).unwrap_or(0),
            Case::LiteRaw { schema, rule, input, .. } => one_shot(l, schema, rule, Input::Cbor(&value::unhex(input))).unwrap_or(0),
            Case::LiteText { text, .. } => read_alike(l, text),
            _ => 0,
        };
    }
    out
}

pub fn c28(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![suite("the builds", "the crate builds with only JSON, with only CBOR, and with neither", 1, |_, w: &mut Worker| {
        w.st.traces += 1;
        if let Err(e) = libs() {
            w.complain_always("the crate does not build with a subset of its features", "a build", "an error", serde_json::json!({"log": e}));
        }
    })];
    if libs().is_err() {
        return out;
    }
    out.extend(crate::props::for_builds(thorough));
    out
}

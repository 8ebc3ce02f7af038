//! One build of the crate with a subset of its features.
#![allow(dead_code)]

#[path = "../../mc/src/value.rs"]
mod value;

use cddl_cat::context::BasicContext;
use cddl_cat::{ValidateError, ValidateResult};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn class_e(e: &ValidateError) -> u32 {
    match e {
        ValidateError::Mismatch(_) => 1,
        ValidateError::MapCut(_) => 2,
        ValidateError::MissingRule(_) => 3,
        ValidateError::Structural(_) | ValidateError::Unsupported(_) => 4,
        ValidateError::ValueError(_) => 5,
        ValidateError::GenericError => 6,
        ValidateError::ParseError(_) => 7,
        _ => 8,
    }
}
const PANIC: u32 = 9;
/// this build has no function for it
const NONE: u32 = 10;

fn class(r: ValidateResult) -> u32 {
    match r {
        Ok(()) => 0,
        Err(e) => class_e(&e),
    }
}

fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}

unsafe fn text<'a>(p: *const u8, n: usize) -> &'a str {
    std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n))
}

#[no_mangle]
pub extern "C" fn lite_quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// Read a schema. Null if it is refused; then `out` says how.
#[no_mangle]
pub unsafe extern "C" fn lite_read(p: *const u8, n: usize, out: *mut u32) -> *mut BasicContext {
    let t = text(p, n);
    match guarded(|| cddl_cat::flatten::flatten_from_str(t)) {
        Some(Ok(r)) => {
            *out = 0;
            Box::into_raw(Box::new(BasicContext::new(r)))
        }
        Some(Err(e)) => {
            *out = class_e(&e);
            std::ptr::null_mut()
        }
        None => {
            *out = PANIC;
            std::ptr::null_mut()
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn lite_free(c: *mut BasicContext) {
    drop(Box::from_raw(c));
}

/// A parsed value, from its plain encoding.
#[no_mangle]
pub unsafe extern "C" fn lite_decode(p: *const u8, n: usize) -> *mut value::Val {
    match value::decode(std::slice::from_raw_parts(p, n)) {
        value::Dec::Ok(v) => Box::into_raw(Box::new(value::Val::new(v))),
        _ => std::ptr::null_mut(),
    }
}

#[no_mangle]
pub unsafe extern "C" fn lite_forget(v: *mut value::Val) {
    drop(Box::from_raw(v));
}

#[no_mangle]
#[allow(unused_variables)]
pub unsafe extern "C" fn lite_value(c: *const BasicContext, r: *const u8, rn: usize, v: *const value::Val) -> u32 {
    let (ctx, rule, v) = (&*c, text(r, rn), &*v);
    let Some(def) = ctx.rules.get(rule) else { return 3 };
    #[cfg(feature = "json")]
    if let Some(j) = &v.json {
        return guarded(|| class(cddl_cat::validate_json(def, j, ctx))).unwrap_or(PANIC);
    }
    #[cfg(feature = "cbor")]
    return guarded(|| class(cddl_cat::validate_cbor(def, &v.cbor, ctx))).unwrap_or(PANIC);
    #[allow(unreachable_code)]
    NONE
}

#[no_mangle]
#[allow(unused_variables)]
pub unsafe extern "C" fn lite_json(s: *const u8, sn: usize, r: *const u8, rn: usize, p: *const u8, n: usize) -> u32 {
    let (schema, rule, data) = (text(s, sn), text(r, rn), text(p, n));
    #[cfg(feature = "json")]
    return guarded(|| class(cddl_cat::validate_json_str(rule, schema, data))).unwrap_or(PANIC);
    #[allow(unreachable_code)]
    NONE
}

#[no_mangle]
#[allow(unused_variables)]
pub unsafe extern "C" fn lite_cbor(s: *const u8, sn: usize, r: *const u8, rn: usize, p: *const u8, n: usize) -> u32 {
    let (schema, rule, data) = (text(s, sn), text(r, rn), std::slice::from_raw_parts(p, n));
    #[cfg(feature = "cbor")]
    return guarded(|| class(cddl_cat::validate_cbor_bytes(rule, schema, data))).unwrap_or(PANIC);
    #[allow(unreachable_code)]
    NONE
}

/// A digest of the trees and errors a text is read to.
#[no_mangle]
pub unsafe extern "C" fn lite_trees(p: *const u8, n: usize) -> u64 {
    let t = text(p, n);
    guarded(|| trees(t)).unwrap_or(1)
}

include!("trees.rs");

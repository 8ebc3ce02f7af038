//! What is explored for each property.

mod arrays;
mod common;
pub mod data;
pub mod errors;
mod hand;
mod maps;
mod pairs;
mod rules;
mod safety;
mod scalars;
pub mod syntax;

use crate::engine::Suite;

pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29"];

pub fn suites(prop: &str, thorough: bool) -> Vec<Suite<'static>> {
    let mut v = own(prop, thorough);
    match prop {
        "C01" => v.push(pairs::kind_pairs("C01", thorough)),
        "C02" => v.push(pairs::kind_pairs("C02", thorough)),
        "C03" => v.push(pairs::kind_pairs("C03", thorough)),
        "C04" => v.push(pairs::kind_pairs("C04", thorough)),
        "C10" => v.push(pairs::kind_pairs("C10", thorough)),
        "C05" => v.push(pairs::kind_pairs("C05", thorough)),
        "C07" => v.push(pairs::places_in_places(thorough)),
        "C12" => v.push(pairs::kind_pairs("C12", thorough)),
        "C13" => v.extend([pairs::kind_pairs("C13", thorough), pairs::places_in_places(thorough)]),
        "C14" => v.push(pairs::kind_pairs("C14", thorough)),
        "C15" => v.push(pairs::kind_pairs("C15", thorough)),
        _ => {}
    }
    if thorough && matches!(prop, "C01" | "C02" | "C03" | "C04" | "C05" | "C10" | "C12" | "C13" | "C14" | "C15") {
        v.push(pairs::kind_triples(NAMES.iter().find(|n| **n == prop).unwrap()));
    }
    v
}

const NAMES: [&str; 10] = ["C01", "C02", "C03", "C04", "C05", "C10", "C12", "C13", "C14", "C15"];

fn own(prop: &str, thorough: bool) -> Vec<Suite<'static>> {
    match prop {
        "C01" => arrays::c01(thorough),
        "C02" => maps::c02(thorough),
        "C03" => arrays::c03(thorough),
        "C04" => arrays::c04(thorough),
        "C05" => maps::c05(thorough),
        "C06" => rules::c06(thorough),
        "C07" => scalars::c07(thorough),
        "C08" => scalars::c08(thorough),
        "C09" => scalars::c09(thorough),
        "C10" => scalars::c10(thorough),
        "C11" => scalars::c11(thorough),
        "C12" => rules::c12(thorough),
        "C13" => rules::c13(thorough),
        "C14" => rules::c14(thorough),
        "C15" => rules::c15(thorough),
        "C16" => rules::c16(thorough),
        "C17" => data::c17(thorough),
        "C18" => syntax::c18(thorough),
        "C19" => syntax::c19(thorough),
        "C20" => syntax::c20(thorough),
        "C21" => syntax::c21(thorough),
        "C22" => syntax::c22(thorough),
        "C23" => data::c23(thorough),
        "C24" => safety::c24(thorough),
        "C25" => syntax::c25(thorough),
        "C26" => errors::c26(thorough),
        "C27" => errors::c27(thorough),
        "C28" => crate::lite::c28(thorough),
        "C29" => hand::c29(thorough),
        _ => panic!("no such property"),
    }
}

pub fn assumptions(_prop: &str) -> Vec<&'static str> {
    vec![
        "the schema and data fall into the domain described in DESIGN.md",
        "behaviour outside the stated bounds is not covered",
    ]
}

/// Suites to run in builds with fewer features.
pub fn for_builds(thorough: bool) -> Vec<Suite<'static>> {
    let mut v: Vec<Suite> = NAMES.iter().map(|n| pairs::kind_pairs(n, thorough)).collect();
    v.push(pairs::places_in_places(thorough));
    let mut list = vec!["C07", "C08", "C09", "C10", "C11", "C15", "C16", "C17", "C18", "C20"];
    if thorough {
        list.extend(["C01", "C02", "C03", "C04", "C05", "C06", "C12", "C13", "C14", "C19", "C25"]);
    }
    for p in list {
        v.extend(own(p, false));
    }
    if !thorough {
        v.extend(own("C06", false).into_iter().filter(|s| s.name == "chains of references"));
    }
    // these take long to say more of the same
    let not = ["string sizes", "substituted by hand", "changed schemas", "short floats", "every character in text and byte strings", "surrogate pairs", "all small integers",
        "every encoding", "bytes spelled in every way", "trees with many leaves", "small trees, no optional blanks", "pieces of text: 4", "JSON token strings",
        "orders of many options", "string lengths", "many options", "composed patterns"];
    v.retain(|s| thorough || !not.contains(&s.name));
    v
}

//! The crate's syntax tree as the harness's own.

use crate::ast::*;
use cddl_cat::ast as c;

pub fn lit_of(v: &c::Value) -> Lit {
    match v {
        c::Value::Text(t) => Lit::Text(t.clone()),
        c::Value::Uint(u) => Lit::Uint(*u),
        c::Value::Nint(i) => Lit::Nint(*i),
        c::Value::Float(f) => Lit::Float(*f),
        c::Value::Bytes(b) => Lit::Bytes(b.clone()),
    }
}

fn name(n: &c::NameGeneric) -> Name {
    Name { name: n.name.clone(), args: n.generic_args.iter().map(t1).collect() }
}

fn t2(t: &c::Type2) -> T2 {
    match t {
        c::Type2::Value(v) => T2::Lit(lit_of(v)),
        c::Type2::Typename(n) => T2::Name(name(n)),
        c::Type2::Parethesized(t) => T2::Paren(ty(t)),
        c::Type2::Map(g) => T2::Map(grp(g)),
        c::Type2::Array(g) => T2::Arr(grp(g)),
        c::Type2::Unwrap(n) => T2::Unwrap(name(n)),
        c::Type2::ChoiceifyInline(g) => T2::AmpIn(grp(g)),
        c::Type2::Choiceify(n) => T2::Amp(name(n)),
    }
}

fn t1(t: &c::Type1) -> T1 {
    match t {
        c::Type1::Simple(t) => T1::S(t2(t)),
        c::Type1::Range(r) => T1::Range(t2(&r.start), t2(&r.end), r.inclusive),
        c::Type1::Control(k) => T1::Ctl(t2(&k.target), k.op.clone(), t2(&k.arg)),
    }
}

fn ty(t: &c::Type) -> Ty {
    Ty(t.0.iter().map(t1).collect())
}

fn grp(g: &c::Group) -> Grp {
    Grp(g.0.iter().map(|a| a.0.iter().map(ent).collect()).collect())
}

fn ent(e: &c::GrpEnt) -> Ent {
    Ent {
        occ: match &e.occur {
            None => Occ::One,
            Some(c::Occur::Optional) => Occ::Opt,
            Some(c::Occur::ZeroOrMore) => Occ::Star,
            Some(c::Occur::OneOrMore) => Occ::Plus,
            Some(c::Occur::Numbered(a, b)) => {
                Occ::Num(Some(*a as u64), if *b == usize::MAX { None } else { Some(*b as u64) })
            }
        },
        body: match &e.val {
            c::GrpEntVal::Member(m) => Body::Mem(
                m.key.as_ref().map(|k| match &k.val {
                    c::MemberKeyVal::Bareword(s) => Key::Bare(s.clone()),
                    c::MemberKeyVal::Value(v) => Key::Lit(lit_of(v)),
                    c::MemberKeyVal::Type1(t) => Key::Type(Box::new(t1(t)), k.cut),
                }),
                ty(&m.value),
            ),
            c::GrpEntVal::Groupname(s) => {
                Body::Mem(None, Ty(vec![T1::S(T2::Name(Name { name: s.clone(), args: vec![] }))]))
            }
            c::GrpEntVal::Parenthesized(g) => Body::Par(grp(g)),
        },
    }
}

pub fn rule(r: &c::Rule) -> Rule {
    Rule {
        name: r.name.clone(),
        params: r.generic_parms.clone(),
        body: match &r.val {
            c::RuleVal::AssignType(t) => RBody::Ty(ty(t)),
            c::RuleVal::AssignGroup(e) => RBody::Ent(ent(e)),
        },
    }
}

/// Is the cut flag of every bareword or value key set, as ':' implies?
pub fn cuts_ok(c: &c::Cddl) -> bool {
    let _ = format!("{c:?}"); // the tree can be printed
    fn g(g: &c::Group) -> bool {
        g.0.iter().all(|a| a.0.iter().all(e))
    }
    fn e(e: &c::GrpEnt) -> bool {
        match &e.val {
            c::GrpEntVal::Member(m) => {
                (match &m.key {
                    None => true,
                    Some(k) => match &k.val {
                        c::MemberKeyVal::Type1(t) => t1(t),
                        _ => k.cut,
                    },
                }) && ty(&m.value)
            }
            c::GrpEntVal::Groupname(_) => true,
            c::GrpEntVal::Parenthesized(x) => g(x),
        }
    }
    fn n(n: &c::NameGeneric) -> bool {
        n.generic_args.iter().all(t1)
    }
    fn t2(t: &c::Type2) -> bool {
        match t {
            c::Type2::Value(_) => true,
            c::Type2::Typename(x) | c::Type2::Unwrap(x) | c::Type2::Choiceify(x) => n(x),
            c::Type2::Parethesized(t) => ty(t),
            c::Type2::Map(x) | c::Type2::Array(x) | c::Type2::ChoiceifyInline(x) => g(x),
        }
    }
    fn t1(t: &c::Type1) -> bool {
        match t {
            c::Type1::Simple(t) => t2(t),
            c::Type1::Range(r) => t2(&r.start) && t2(&r.end),
            c::Type1::Control(k) => t2(&k.target) && t2(&k.arg),
        }
    }
    fn ty(t: &c::Type) -> bool {
        t.0.iter().all(t1)
    }
    c.rules.iter().all(|r| match &r.val {
        c::RuleVal::AssignType(t) => ty(t),
        c::RuleVal::AssignGroup(x) => e(x),
    })
}

/// One way of writing bounds, so that trees can be compared.
fn norm_occ(o: Occ) -> Occ {
    match o {
        Occ::One => Occ::One,
        o => match o.bounds() {
            (0, 1) => Occ::Opt,
            (0, u64::MAX) => Occ::Star,
            (1, u64::MAX) => Occ::Plus,
            (a, b) => Occ::Num(Some(a), Some(b)),
        },
    }
}
fn norm_ent(e: &mut Ent) {
    e.occ = norm_occ(e.occ);
    match &mut e.body {
        Body::Par(g) => norm_grp(g),
        Body::Mem(k, t) => {
            if let Some(Key::Type(t, _)) = k {
                norm_t1(t);
            }
            norm_ty(t);
        }
    }
}
fn norm_grp(g: &mut Grp) {
    g.0.iter_mut().flatten().for_each(norm_ent)
}
fn norm_ty(t: &mut Ty) {
    t.0.iter_mut().for_each(norm_t1)
}
fn norm_t1(t: &mut T1) {
    match t {
        T1::S(t) => norm_t2(t),
        T1::Range(a, b, _) | T1::Ctl(a, _, b) => {
            norm_t2(a);
            norm_t2(b);
        }
    }
}
fn norm_t2(t: &mut T2) {
    match t {
        T2::Lit(_) => {}
        T2::Name(n) | T2::Unwrap(n) | T2::Amp(n) => n.args.iter_mut().for_each(norm_t1),
        T2::Paren(t) => norm_ty(t),
        T2::Map(g) | T2::Arr(g) | T2::AmpIn(g) => norm_grp(g),
    }
}
pub fn norm_rule(r: &Rule) -> Rule {
    let mut r = r.clone();
    match &mut r.body {
        RBody::Ty(t) => norm_ty(t),
        RBody::Ent(e) => norm_ent(e),
    }
    r
}

/// Are these the same rules in the same order?
pub fn equal(c: &[c::Rule], r: &[Rule]) -> bool {
    c.len() == r.len() && c.iter().zip(r).all(|(a, b)| norm_rule(&rule(a)) == norm_rule(b))
}

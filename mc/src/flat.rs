//! What the flattened rules say, and what they should say: both written in
//! one notation, in which only what matters is left. Parentheses around types,
//! groups of a single alternative, choices within choices and the ways of
//! writing the same number of occurrences are not told apart.

use crate::ast::*;
use crate::refsem::{prelude, P};
use cddl_cat::ivt as c;
use std::fmt::Write;

// ---------------------------------------------------------------- expected

fn lit(l: &Lit, o: &mut String) {
    let _ = match l {
        Lit::Uint(u) => write!(o, "i{u}"),
        Lit::Nint(n) => write!(o, "i{n}"),
        Lit::Float(f) => write!(o, "f{:016x}", f.to_bits()),
        Lit::Text(t) => write!(o, "{t:?}"),
        Lit::Bytes(b) => write!(o, "h{b:02x?}"),
    };
}

fn name(n: &Name, o: &mut String) {
    o.push_str(match prelude(&n.name) {
        Some(P::Any) => "Any",
        Some(P::Nil) => "Nil",
        Some(P::Bool) => "Bool",
        Some(P::False) => "false",
        Some(P::True) => "true",
        Some(P::Int) => "Int",
        Some(P::Uint) => "Uint",
        Some(P::Nint) => "Nint",
        Some(P::Float) => "Float",
        Some(P::Tstr) => "Tstr",
        Some(P::Bstr) => "Bstr",
        Some(P::Unsup) => "unsupported",
        None => return rule(n, o),
    });
}

fn rule(n: &Name, o: &mut String) {
    let _ = write!(o, "%{}<", n.name);
    for a in &n.args {
        t1(a, o);
        o.push(';');
    }
    o.push('>');
}

/// The options of a type, those of parentheses among them.
fn options<'a>(t: &'a Ty, to: &mut Vec<&'a T1>) {
    for x in &t.0 {
        match x {
            T1::S(T2::Paren(t)) => options(t, to),
            _ => to.push(x),
        }
    }
}

fn ty(t: &Ty, o: &mut String) {
    let mut v = vec![];
    options(t, &mut v);
    if let [x] = v[..] {
        return t1(x, o);
    }
    o.push('(');
    for x in v {
        t1(x, o);
        o.push('/');
    }
    o.push(')');
}

fn t2(t: &T2, o: &mut String) {
    match t {
        T2::Lit(l) => lit(l, o),
        T2::Name(n) => name(n, o),
        T2::Paren(t) => ty(t, o),
        T2::Map(g) => {
            o.push('{');
            grp(g, o);
            o.push('}');
        }
        T2::Arr(g) => {
            o.push('[');
            grp(g, o);
            o.push(']');
        }
        T2::Unwrap(n) => {
            o.push('~');
            rule(n, o);
        }
        T2::Amp(n) => {
            o.push('&');
            rule(n, o);
        }
        T2::AmpIn(g) => {
            o.push_str("&(");
            grp(g, o);
            o.push(')');
        }
    }
}

fn t1(t: &T1, o: &mut String) {
    match t {
        T1::S(x) => t2(x, o),
        T1::Range(a, b, incl) => {
            o.push_str("range ");
            t2(a, o);
            o.push_str(if *incl { ".." } else { "..." });
            t2(b, o);
        }
        T1::Ctl(a, op, b) => {
            let _ = write!(o, "{op} ");
            if op == "regexp" {
                fn pat(t: &T2) -> Option<&str> {
                    match t {
                        T2::Lit(Lit::Text(s)) => Some(s),
                        T2::Paren(Ty(v)) => match &v[..] {
                            [T1::S(t)] => pat(t),
                            _ => None,
                        },
                        _ => None,
                    }
                }
                let _ = write!(o, "{:?}", pat(b).unwrap_or("?"));
            } else if op == "cbor" {
                t2(b, o);
            } else {
                t2(a, o);
                o.push(' ');
                t2(b, o);
            }
        }
    }
}

/// The alternatives of a group, unless it is just one group in parentheses.
fn grp(g: &Grp, o: &mut String) {
    if let [one] = &g.0[..] {
        return ents(one, o);
    }
    o.push_str("|(");
    for a in &g.0 {
        o.push('(');
        ents(a, o);
        o.push_str(")//");
    }
    o.push_str(");");
}

fn ents(v: &[Ent], o: &mut String) {
    for e in v {
        ent(e, o);
        o.push(';');
    }
}

fn ent(e: &Ent, o: &mut String) {
    let (lo, hi) = e.occ.bounds();
    if (lo, hi) != (1, 1) {
        let _ = write!(o, "{lo}*{hi} ");
    }
    match &e.body {
        Body::Par(g) => {
            o.push('(');
            grp(g, o);
            o.push(')');
        }
        Body::Mem(None, t) => ty(t, o),
        Body::Mem(Some(k), t) => {
            o.push('<');
            match k {
                Key::Bare(s) => lit(&Lit::Text(s.clone()), o),
                Key::Lit(l) => lit(l, o),
                Key::Type(t, _) => t1(t, o),
            }
            o.push_str(if k.cut() { ">^=>" } else { ">=>" });
            ty(t, o);
        }
    }
}

pub fn expected(r: &Rule) -> String {
    let mut o = String::new();
    match &r.body {
        RBody::Ty(t) => ty(t, &mut o),
        RBody::Ent(e) => ent(e, &mut o),
    }
    o
}

// ------------------------------------------------------------------ actual

fn a_rule(r: &c::Rule, o: &mut String) {
    let _ = write!(o, "%{}<", r.name);
    for a in &r.generic_args {
        node(a, o);
        o.push(';');
    }
    o.push('>');
}

fn is_groups(c: &c::Choice) -> bool {
    c.options.iter().all(|x| matches!(x, c::Node::Group(_)))
}

fn a_options<'a>(c: &'a c::Choice, to: &mut Vec<&'a c::Node>) {
    for x in &c.options {
        match x {
            c::Node::Choice(c) => a_options(c, to),
            _ => to.push(x),
        }
    }
}

fn members(v: &[c::Node], o: &mut String) {
    if let [c::Node::Choice(c)] = v {
        if is_groups(c) {
            if let [c::Node::Group(g)] = &c.options[..] {
                return members(&g.members, o);
            }
            o.push_str("|(");
            for a in &c.options {
                if let c::Node::Group(g) = a {
                    o.push('(');
                    members(&g.members, o);
                    o.push_str(")//");
                }
            }
            o.push_str(");");
            return;
        }
    }
    for m in v {
        node(m, o);
        o.push(';');
    }
}

fn node(n: &c::Node, o: &mut String) {
    use c::Node;
    match n {
        Node::Literal(l) => {
            let _ = match l {
                c::Literal::Bool(b) => write!(o, "{b}"),
                c::Literal::Int(i) => write!(o, "i{i}"),
                c::Literal::Float(f) => write!(o, "f{:016x}", f.to_bits()),
                c::Literal::Text(t) => write!(o, "{t:?}"),
                c::Literal::Bytes(b) => write!(o, "h{b:02x?}"),
            };
        }
        Node::PreludeType(p) => {
            let _ = write!(o, "{p:?}");
        }
        Node::Rule(r) => a_rule(r, o),
        Node::Choice(c) => {
            let mut v = vec![];
            a_options(c, &mut v);
            if let [x] = v[..] {
                return node(x, o);
            }
            o.push('(');
            for x in v {
                node(x, o);
                o.push('/');
            }
            o.push(')');
        }
        Node::Map(m) => {
            o.push('{');
            members(&m.members, o);
            o.push('}');
        }
        Node::Array(a) => {
            o.push('[');
            members(&a.members, o);
            o.push(']');
        }
        Node::Group(g) => {
            o.push('(');
            members(&g.members, o);
            o.push(')');
        }
        Node::KeyValue(kv) => {
            o.push('<');
            node(&kv.key, o);
            o.push_str(if kv.cut { ">^=>" } else { ">=>" });
            node(&kv.value, o);
        }
        Node::Occur(x) => {
            let (lo, hi) = x.limits();
            if (lo, hi) != (1, 1) {
                let _ = write!(o, "{lo}*{hi} ");
            }
            node(&x.node, o);
        }
        Node::Unwrap(r) => {
            o.push('~');
            a_rule(r, o);
        }
        Node::Range(r) => {
            o.push_str("range ");
            node(&r.start, o);
            o.push_str(if r.inclusive { ".." } else { "..." });
            node(&r.end, o);
        }
        Node::Control(k) => {
            let (op, a, b) = match k {
                c::Control::Size(x) => ("size", &x.target, &x.size),
                c::Control::Lt(x) => ("lt", &x.target, &x.lt),
                c::Control::Le(x) => ("le", &x.target, &x.le),
                c::Control::Gt(x) => ("gt", &x.target, &x.gt),
                c::Control::Ge(x) => ("ge", &x.target, &x.ge),
                // these two keep what they hold to themselves, except when
                // printed
                other => {
                    let _ = write!(o, "\u{1}{other:?}\u{2}");
                    return;
                }
            };
            let _ = write!(o, "{op} ");
            node(a, o);
            o.push(' ');
            node(b, o);
        }
        Node::Choiceify(r) => {
            o.push('&');
            a_rule(r, o);
        }
        Node::ChoiceifyInline(a) => {
            o.push_str("&(");
            members(&a.members, o);
            o.push(')');
        }
    }
}

pub fn actual(n: &c::Node) -> String {
    let mut o = String::new();
    node(n, &mut o);
    o
}

// ------------------------------------------------- .cbor and .regexp apart

/// Every `.cbor` and `.regexp` of a rule, in the order they are printed in.
/// Only the outermost: the argument of a `.cbor` is looked at as a rule of
/// its own.
fn hidden_t1(t: &T1, to: &mut Vec<(String, T2)>) {
    match t {
        T1::S(x) => hidden_t2(x, to),
        T1::Range(a, b, _) => {
            hidden_t2(a, to);
            hidden_t2(b, to);
        }
        T1::Ctl(a, op, b) => {
            if op == "cbor" || op == "regexp" {
                to.push((op.clone(), b.clone()));
            } else {
                hidden_t2(a, to);
                hidden_t2(b, to);
            }
        }
    }
}
fn hidden_ty(t: &Ty, to: &mut Vec<(String, T2)>) {
    t.0.iter().for_each(|x| hidden_t1(x, to));
}
fn hidden_t2(t: &T2, to: &mut Vec<(String, T2)>) {
    match t {
        T2::Lit(_) => {}
        T2::Name(n) | T2::Unwrap(n) | T2::Amp(n) => n.args.iter().for_each(|x| hidden_t1(x, to)),
        T2::Paren(t) => hidden_ty(t, to),
        T2::Map(g) | T2::Arr(g) | T2::AmpIn(g) => hidden_grp(g, to),
    }
}
fn hidden_grp(g: &Grp, to: &mut Vec<(String, T2)>) {
    g.0.iter().flatten().for_each(|e| hidden_ent(e, to));
}
fn hidden_ent(e: &Ent, to: &mut Vec<(String, T2)>) {
    match &e.body {
        Body::Par(g) => hidden_grp(g, to),
        Body::Mem(k, t) => {
            if let Some(Key::Type(k, _)) = k {
                hidden_t1(k, to);
            }
            hidden_ty(t, to);
        }
    }
}

/// Does the flattened rule say what the rule says? If not, in what way.
pub fn differs(r: &Rule, def: &c::RuleDef) -> Option<String> {
    if def.generic_parms != r.params {
        return Some(format!("the parameters of {}: {:?}, not {:?}", r.name, def.generic_parms, r.params));
    }
    let (mut e, mut a) = (expected(r), actual(&def.node));
    let mut hidden = vec![];
    match &r.body {
        RBody::Ty(t) => hidden_ty(t, &mut hidden),
        RBody::Ent(e) => hidden_ent(e, &mut hidden),
    }
    for (op, arg) in &hidden {
        let mut x = format!("{op} ");
        if let Some(d) = a.find('\u{1}') {
            let end = d + a[d..].find('\u{2}').unwrap_or(a.len() - d - 1);
            let shown = a[d + 1..end].to_string();
            if op == "regexp" {
                t1(&T1::Ctl(T2::Name(Name { name: "tstr".into(), args: vec![] }), op.clone(), arg.clone()), &mut x);
                x.drain(..op.len() + 1);
                let pat = &x[op.len() + 1..];
                if !shown.contains(pat) {
                    return Some(format!("the pattern {pat} is shown as {shown}"));
                }
            } else {
                t2(arg, &mut x);
                // the argument alone
                let alone = Rule { name: "x".into(), params: r.params.clone(), body: RBody::Ty(Ty(vec![T1::S(arg.clone())])) };
                let text = print_rule(&alone);
                match cddl_cat::flatten::flatten_from_str(&text) {
                    Ok(m) => {
                        let d = m.get("x")?;
                        if let Some(w) = differs(&alone, d) {
                            return Some(format!("{w} (an argument of .cbor, on its own)"));
                        }
                        if !shown.contains(&format!("{:?}", d.node)) {
                            return Some(format!("the argument of .cbor, {text:?}, is shown as {shown}"));
                        }
                    }
                    Err(_) => return Some(format!("{text:?} is refused on its own")),
                }
            }
            // the expected notation has it in full
            a.replace_range(d..(end + 1).min(a.len()), &x);
        }
    }
    if e != a {
        for s in [&mut e, &mut a] {
            if s.len() > 300 {
                let mut n = 300;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
        }
        return Some(format!("{} is {a}, not {e}", r.name));
    }
    None
}

//! C29: rules that a program puts together itself, without any text.

use crate::engine::*;
use crate::refsem::{self, Bits, CUT, FATAL, GENERIC, MIS, MISSING, OK, SCHEMA, UNSPEC};
use crate::value::{self, a, b, diag, f, i, m, t, whole, Val, Whole, V};
use cddl_cat::context::{BasicContext, LookupContext};
use cddl_cat::ivt::*;
use cddl_cat::ValidateError;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------ the reference

/// What a tree of nodes means, said over the nodes themselves.
struct EnvNode<'a> {
    params: &'a [String],
    args: &'a [Node],
    parent: Option<Env<'a>>,
    depth: u32,
}
type Env<'a> = Rc<EnvNode<'a>>;
type St = u64;

#[derive(Clone, Copy)]
enum C<'v> {
    A(&'v [V]),
    M(&'v [(V, V)]),
}

#[derive(Default)]
struct R {
    oks: Vec<St>,
    fails: Bits,
}
impl R {
    fn fail(fails: Bits) -> R {
        R { oks: vec![], fails }
    }
    fn push(&mut self, s: St) {
        if !self.oks.contains(&s) {
            self.oks.push(s);
        }
    }
    fn merge(&mut self, o: R) {
        o.oks.into_iter().for_each(|s| self.push(s));
        self.fails |= o.fails;
    }
    /// Outside of the group the reason of a failure does not matter.
    fn confined(mut self) -> R {
        self.fails = erase(self.fails);
        self
    }
}

fn erase(b: Bits) -> Bits {
    if b & CUT != 0 {
        b & !CUT | MIS
    } else {
        b
    }
}
fn okmis(b: bool) -> Bits {
    if b {
        OK
    } else {
        MIS
    }
}

fn same(l: &Literal, v: &V) -> bool {
    match (l, v) {
        (Literal::Bool(x), V::Bool(y)) => x == y,
        (Literal::Int(x), V::Int(y)) => x == y,
        (Literal::Float(x), V::Float(y)) => x.to_bits() == y.to_bits(),
        (Literal::Text(x), V::Text(y)) => x == y,
        (Literal::Bytes(x), V::Bytes(y)) => x == y,
        _ => false,
    }
}
fn within(p: PreludeType, v: &V) -> bool {
    use PreludeType as P;
    match (p, v) {
        (P::Any, _) | (P::Nil, V::Null) | (P::Bool, V::Bool(_)) | (P::Int, V::Int(_)) => true,
        (P::Uint, V::Int(x)) => *x >= 0,
        (P::Nint, V::Int(x)) => *x < 0,
        (P::Float, V::Float(_)) | (P::Tstr, V::Text(_)) | (P::Bstr, V::Bytes(_)) => true,
        _ => false,
    }
}

/// Operators whose parts cannot be seen from outside; what they are is known.
struct Known {
    /// tstr .regexp "^a"
    re: Node,
    /// bstr .cbor int
    cb: Node,
}

fn known() -> Known {
    let get = |s: &str| cddl_cat::flatten::flatten_from_str(s).unwrap()["t"].node.clone();
    Known { re: get("t = tstr .regexp \"^a\""), cb: get("t = bstr .cbor int") }
}

struct Ev<'a> {
    rules: &'a RulesByName,
    known: &'a Known,
    steps: u64,
}

impl<'a> Ev<'a> {
    fn run(&mut self, node: &'a Node, v: &V) -> Bits {
        self.steps = 0;
        let env = Rc::new(EnvNode { params: &[], args: &[], parent: None, depth: 0 });
        erase(self.val(node, v, &env))
    }

    fn resolve(&mut self, r: &'a Rule, env: &Env<'a>) -> Result<(&'a Node, Env<'a>), Bits> {
        self.steps += 1;
        if self.steps > 200_000 {
            return Err(UNSPEC);
        }
        if let Some(n) = env.params.iter().position(|p| *p == r.name) {
            if !r.generic_args.is_empty() {
                return Err(UNSPEC);
            }
            return Ok((&env.args[n], env.parent.clone().unwrap()));
        }
        let def = match self.rules.get(&r.name) {
            None => return Err(MISSING),
            Some(d) => d,
        };
        if def.generic_parms.len() != r.generic_args.len() {
            return Err(GENERIC);
        }
        if env.depth > 60 {
            return Err(SCHEMA);
        }
        let e = EnvNode { params: &def.generic_parms, args: &r.generic_args, parent: Some(env.clone()), depth: env.depth + 1 };
        Ok((&def.node, Rc::new(e)))
    }

    /// As the type of one value.
    fn val(&mut self, n: &'a Node, v: &V, env: &Env<'a>) -> Bits {
        self.steps += 1;
        match n {
            Node::Literal(l) => okmis(same(l, v)),
            Node::PreludeType(p) => okmis(within(*p, v)),
            Node::Rule(r) => match self.resolve(r, env) {
                Err(b) => b,
                Ok((n, e)) => self.val(n, v, &e),
            },
            Node::Choice(c) => self.first(&c.options, |me, o| me.val(o, v, env)),
            Node::Array(x) => match v {
                V::Arr(items) => {
                    let r = self.seq(&x.members, C::A(items), 0, env).confined();
                    r.oks.iter().fold(r.fails, |b, s| b | okmis(*s == items.len() as St))
                }
                _ => MIS,
            },
            Node::Map(x) => match v {
                V::Map(items) => {
                    let r = self.seq(&x.members, C::M(items), (1 << items.len()) - 1, env).confined();
                    r.oks.iter().fold(r.fails, |b, s| b | okmis(*s == 0))
                }
                _ => MIS,
            },
            Node::Group(g) => match g.members.as_slice() {
                [one] => self.val(one, v, env),
                _ => SCHEMA,
            },
            Node::KeyValue(_) | Node::Occur(_) | Node::Unwrap(_) => SCHEMA,
            Node::Range(r) => self.range(r, v, env),
            Node::Control(c) => self.control(n, c, v, env),
            Node::Choiceify(r) => self.amp(r, v, env),
            Node::ChoiceifyInline(x) => self.amp_members(&x.members, v, env),
        }
    }

    fn first(&mut self, options: &'a [Node], mut f: impl FnMut(&mut Self, &'a Node) -> Bits) -> Bits {
        let mut out = 0;
        for o in options {
            let b = f(self, o);
            out |= b & !MIS;
            if b & MIS == 0 {
                return out;
            }
        }
        out | MIS
    }

    fn amp(&mut self, r: &'a Rule, v: &V, env: &Env<'a>) -> Bits {
        match self.resolve(r, env) {
            Err(b) => b,
            Ok((Node::Group(g), e)) => self.amp_members(&g.members, v, &e),
            Ok((Node::Rule(r), e)) => self.amp(r, v, &e),
            Ok(_) => SCHEMA,
        }
    }
    fn amp_members(&mut self, members: &'a [Node], v: &V, env: &Env<'a>) -> Bits {
        self.first(members, |me, o| match o {
            Node::KeyValue(kv) => me.val(&kv.value, v, env),
            Node::Rule(r) => me.amp(r, v, env),
            Node::Occur(_) | Node::Group(_) => UNSPEC,
            _ => me.val(o, v, env),
        })
    }

    fn chase(&mut self, n: &'a Node, env: &Env<'a>) -> Result<&'a Node, Bits> {
        match n {
            Node::Rule(r) => {
                let (n, e) = self.resolve(r, env)?;
                self.chase(n, &e)
            }
            _ => Ok(n),
        }
    }

    fn range(&mut self, r: &'a Range, v: &V, env: &Env<'a>) -> Bits {
        let mut point = |n| match self.chase(n, env) {
            Ok(Node::Literal(l)) => Ok(l),
            Ok(_) => Err(SCHEMA),
            Err(b) => Err(b),
        };
        let (x, y) = match (point(&r.start), point(&r.end)) {
            (Ok(x), Ok(y)) => (x, y),
            (x, y) => return x.err().unwrap_or(0) | y.err().unwrap_or(0),
        };
        match (x, y, v) {
            (Literal::Int(x), Literal::Int(y), V::Int(v)) => okmis(v >= x && (v < y || r.inclusive && v == y)),
            (Literal::Float(x), Literal::Float(y), V::Float(v)) => okmis(v >= x && (v < y || r.inclusive && v == y)),
            _ => match std::mem::discriminant(x) == std::mem::discriminant(y) {
                true => MIS,
                false => SCHEMA,
            },
        }
    }

    fn control(&mut self, n: &'a Node, c: &'a Control, v: &V, env: &Env<'a>) -> Bits {
        use PreludeType as P;
        if *n == self.known.re {
            return okmis(matches!(v, V::Text(s) if s.starts_with('a')));
        }
        if *n == self.known.cb {
            return match v {
                V::Bytes(b) => match whole(b, 0) {
                    Whole::Item(x) => okmis(matches!(x, V::Int(_))),
                    Whole::Bad => MIS,
                    _ => UNSPEC,
                },
                _ => MIS,
            };
        }
        let target = |me: &mut Self, n: &'a Node| match me.chase(n, env) {
            Ok(Node::PreludeType(p)) => Ok(*p),
            Ok(_) => Err(SCHEMA),
            Err(b) => Err(b),
        };
        let (kind, t, l) = match c {
            Control::Size(x) => (0, &x.target, &x.size),
            Control::Lt(x) => (1, &x.target, &x.lt),
            Control::Le(x) => (2, &x.target, &x.le),
            Control::Gt(x) => (3, &x.target, &x.gt),
            Control::Ge(x) => (4, &x.target, &x.ge),
            _ => return UNSPEC,
        };
        let p = target(self, t);
        if kind == 0 {
            let size = match self.chase(l, env) {
                Ok(Node::Range(r)) => match (&*r.start, &*r.end) {
                    (Node::Literal(Literal::Int(x)), Node::Literal(Literal::Int(y))) => Ok((*x, *y, r.inclusive, false)),
                    (Node::Rule(_), _) | (_, Node::Rule(_)) => Err(UNSPEC),
                    _ => Err(SCHEMA),
                },
                Ok(Node::Literal(Literal::Int(x))) => Ok((*x, *x, true, true)),
                Ok(_) => Err(SCHEMA),
                Err(b) => Err(b),
            };
            let size = size.and_then(|s| if s.0 < 0 || s.1 < 0 || s.0 > u64::MAX as i128 || s.1 > u64::MAX as i128 { Err(SCHEMA) } else { Ok(s) });
            let p = p.and_then(|p| if matches!(p, P::Uint | P::Tstr | P::Bstr) { Ok(p) } else { Err(SCHEMA) });
            let ((lo, hi, inc, single), p) = match (size, p) {
                (Ok(s), Ok(p)) => (s, p),
                (s, p) => return s.err().unwrap_or(0) | p.err().unwrap_or(0),
            };
            let inside = |n: i128| okmis(n >= lo && (n < hi || inc && n == hi));
            return match (p, v) {
                (P::Tstr, V::Text(s)) => inside(s.len() as i128),
                (P::Bstr, V::Bytes(s)) => inside(s.len() as i128),
                (P::Uint, V::Int(x)) if *x >= 0 => {
                    if single {
                        okmis(lo >= 9 || *x < 1i128 << (8 * lo))
                    } else if lo == hi && inc {
                        UNSPEC
                    } else {
                        inside((0..).find(|n| *x < 1i128 << (8 * n)).unwrap())
                    }
                }
                _ => MIS,
            };
        }
        let lim = match self.chase(l, env) {
            Ok(Node::Literal(Literal::Int(x))) => Ok(*x),
            Ok(_) => Err(SCHEMA),
            Err(b) => Err(b),
        };
        let p = p.and_then(|p| if matches!(p, P::Uint | P::Nint | P::Int) { Ok(p) } else { Err(SCHEMA) });
        match (lim, p) {
            (Ok(lim), Ok(p)) => match v {
                V::Int(x) => okmis(
                    within(p, v)
                        && match kind {
                            1 => *x < lim,
                            2 => *x <= lim,
                            3 => *x > lim,
                            _ => *x >= lim,
                        },
                ),
                _ => MIS,
            },
            (l, p) => l.err().unwrap_or(0) | p.err().unwrap_or(0),
        }
    }

    fn seq(&mut self, members: &'a [Node], c: C, s: St, env: &Env<'a>) -> R {
        let mut out = R { oks: vec![s], fails: 0 };
        for n in members {
            let mut next = R::fail(out.fails);
            for s in out.oks {
                next.merge(self.mem(n, c, s, env));
            }
            out = next;
        }
        out
    }

    fn element(&mut self, n: &'a Node, items: &[V], s: St, env: &Env<'a>) -> R {
        match items.get(s as usize) {
            None => R::fail(MIS),
            Some(v) => {
                let b = self.val(n, v, env);
                let mut r = R::fail(erase(b & !OK));
                if b & OK != 0 {
                    r.push(s + 1);
                }
                r
            }
        }
    }

    /// As a member of an array or map.
    fn mem(&mut self, n: &'a Node, c: C, s: St, env: &Env<'a>) -> R {
        self.steps += 1;
        match (n, c) {
            (Node::Occur(o), _) => self.occur(o, c, s, env),
            (Node::KeyValue(kv), C::A(items)) => self.element(&kv.value, items, s, env),
            (Node::KeyValue(kv), C::M(items)) => self.pair(kv, items, s, env),
            (Node::Rule(r), _) => match self.resolve(r, env) {
                Err(b) => R::fail(b),
                Ok((n, e)) => self.mem(n, c, s, &e),
            },
            (Node::Unwrap(r), _) => self.unwrap(r, c, s, env),
            (Node::Choice(x), _) => {
                let mut out = R::default();
                for o in &x.options {
                    let mut r = self.mem(o, c, s, env);
                    let again = r.fails & MIS != 0;
                    r.fails &= !MIS;
                    out.merge(r);
                    if !again {
                        return out;
                    }
                }
                out.fails |= MIS;
                out
            }
            (Node::Group(g), _) => self.seq(&g.members, c, s, env).confined(),
            (_, C::A(items)) => self.element(n, items, s, env),
            (Node::Choiceify(_) | Node::ChoiceifyInline(_), C::M(_)) => R::fail(UNSPEC),
            (_, C::M(_)) => R::fail(SCHEMA),
        }
    }

    fn unwrap(&mut self, r: &'a Rule, c: C, s: St, env: &Env<'a>) -> R {
        match (self.resolve(r, env), c) {
            (Err(b), _) => R::fail(b),
            (Ok((Node::Rule(r), e)), _) => self.unwrap(r, c, s, &e),
            (Ok((Node::Array(x), e)), C::A(_)) => self.seq(&x.members, c, s, &e).confined(),
            (Ok((Node::Map(x), e)), C::M(_)) => self.seq(&x.members, c, s, &e).confined(),
            _ => R::fail(MIS),
        }
    }

    fn occur(&mut self, o: &'a Occur, c: C, s: St, env: &Env<'a>) -> R {
        let (lo, hi) = match o.limit {
            OccurLimit::Optional => (0, 1),
            OccurLimit::ZeroOrMore => (0, usize::MAX),
            OccurLimit::OneOrMore => (1, usize::MAX),
            OccurLimit::Numbered(x, y) => (x, y),
        };
        let mut out = R::default();
        let (mut cur, mut n) = (vec![s], 0);
        while !cur.is_empty() {
            let mut next = R::default();
            for s in cur {
                let done = |out: &mut R| if n >= lo { out.push(s) } else { out.fails |= MIS };
                if n >= hi {
                    done(&mut out);
                    continue;
                }
                let r = self.mem(&o.node, c, s, env);
                if r.fails & MIS != 0 {
                    done(&mut out);
                }
                out.fails |= r.fails & !MIS;
                for s2 in r.oks {
                    if s2 != s {
                        next.push(s2);
                    } else if lo <= hi {
                        // as often as needed
                        out.push(s);
                    } else {
                        out.fails |= MIS;
                    }
                }
            }
            cur = next.oks;
            n += 1;
        }
        out
    }

    fn pair(&mut self, kv: &'a KeyValue, items: &[(V, V)], s: St, env: &Env<'a>) -> R {
        // which entries are looked at before a match is not laid down
        let mut r = R::default();
        let (mut partial, mut sure, mut loud) = (false, false, false);
        for (n, (k, v)) in items.iter().enumerate() {
            if s >> n & 1 == 0 {
                continue;
            }
            let kb = self.val(&kv.key, k, env);
            r.fails |= kb & FATAL;
            loud |= kb & !FATAL == 0;
            if kb & OK != 0 {
                let vb = self.val(&kv.value, v, env);
                r.fails |= vb & FATAL;
                if vb & OK != 0 {
                    r.push(s & !(1 << n));
                    sure |= kb == OK && vb == OK;
                }
                loud |= kb == OK && vb & !FATAL == 0;
                partial |= vb & (MIS | CUT) != 0;
            }
        }
        if !sure && !loud {
            if partial {
                r.fails |= if kv.cut { CUT } else { MIS };
            } else {
                r.fails |= MIS;
            }
        }
        r
    }
}

// ------------------------------------------------------------ building blocks

pub fn rule(name: &str, args: Vec<Node>) -> Rule {
    Rule { name: name.into(), generic_args: args }
}
fn r(name: &str) -> Node {
    Node::Rule(rule(name, vec![]))
}
fn group(x: Vec<Node>) -> Node {
    Node::Group(Group { members: x })
}
fn arr(x: Vec<Node>) -> Node {
    Node::Array(Array { members: x })
}
fn map(x: Vec<Node>) -> Node {
    Node::Map(Map { members: x })
}
fn choice(x: Vec<Node>) -> Node {
    Node::Choice(Choice { options: x })
}
fn amp(x: Vec<Node>) -> Node {
    Node::ChoiceifyInline(Array { members: x })
}
fn kv(k: Node, v: Node, cut: bool) -> Node {
    Node::KeyValue(KeyValue { key: Box::new(k), value: Box::new(v), cut })
}
fn occ(l: OccurLimit, n: Node) -> Node {
    Node::Occur(Occur { limit: l, node: Box::new(n) })
}
fn range(x: Node, y: Node, inclusive: bool) -> Node {
    Node::Range(Range { start: Box::new(x), end: Box::new(y), inclusive })
}
fn size(x: Node, y: Node) -> Node {
    Node::Control(Control::Size(CtlOpSize { target: Box::new(x), size: Box::new(y) }))
}
fn cmp(k: usize, x: Node, y: Node) -> Node {
    let (x, y) = (Box::new(x), Box::new(y));
    Node::Control(match k {
        0 => Control::Lt(CtlOpLt { target: x, lt: y }),
        1 => Control::Le(CtlOpLe { target: x, le: y }),
        2 => Control::Gt(CtlOpGt { target: x, gt: y }),
        _ => Control::Ge(CtlOpGe { target: x, ge: y }),
    })
}
fn pre(p: PreludeType) -> Node {
    Node::PreludeType(p)
}
fn int(x: i128) -> Node {
    Node::Literal(Literal::Int(x))
}
fn text(s: &str) -> Node {
    Node::Literal(Literal::Text(s.into()))
}

use cddl_cat::ast::Occur::{Numbered, OneOrMore, Optional, ZeroOrMore};
use PreludeType::{Any, Bool, Bstr, Float, Int, Nil, Nint, Tstr, Uint};

/// The rules that the trees refer to.
fn rules() -> RulesByName {
    let mut x = RulesByName::new();
    let mut def = |n: &str, p: &[&str], node: Node| {
        x.insert(n.to_string(), RuleDef { generic_parms: p.iter().map(|s| s.to_string()).collect(), node });
    };
    def("grp", &[], group(vec![pre(Int), pre(Tstr)]));
    def("kvg", &[], group(vec![kv(text("a"), pre(Int), true), kv(int(1), pre(Tstr), false)]));
    def("solo", &[], group(vec![pre(Tstr)]));
    def("arr", &[], arr(vec![pre(Int), pre(Tstr)]));
    def("map", &[], map(vec![kv(text("a"), pre(Int), true)]));
    def("one", &[], int(1));
    def("t", &[], pre(Tstr));
    // names that a text would take for something else, or could not write
    def("int", &[], pre(Tstr));
    def("a b\n", &[], arr(vec![r("int"), r("")]));
    def("", &["true"], r("true"));
    // names that differ in blanks and the like from those of parameters
    def("x ", &[], pre(Tstr));
    def(" X", &[], pre(Int));
    def("exact", &["x", "x ."], arr(vec![r("x"), r("x "), r(" X"), r("x .")]));
    def("blank", &["x "], arr(vec![r("x "), r("x")]));
    def("alias", &[], r("grp"));
    def("toarr", &[], r("arr"));
    def("tomap", &[], r("map"));
    def("opt", &[], occ(Optional, pre(Int)));
    def("pair", &[], kv(text("a"), pre(Int), false));
    def("cutpair", &[], kv(text("a"), pre(Int), true));
    def("choice", &[], choice(vec![pre(Int), r("grp"), pre(Tstr)]));
    def("three", &[], range(int(1), int(3), true));
    def("loop", &[], r("loop"));
    def("again", &[], arr(vec![occ(ZeroOrMore, r("again"))]));
    def("list", &["x"], arr(vec![occ(ZeroOrMore, r("x"))]));
    def("table", &["k", "v"], map(vec![occ(ZeroOrMore, kv(r("k"), r("v"), false))]));
    def("both", &["x", "t"], group(vec![r("x"), r("t")]));
    // a parameter named like a rule, given an argument that names that rule
    def("swap", &["one", "t"], Node::Rule(rule("both", vec![r("t"), r("one")])));
    x
}

fn leaves(k: &Known, thorough: bool) -> Vec<Node> {
    let mut x = vec![
        int(1),
        int(1 << 64),
        int(-1),
        text("a"),
        Node::Literal(Literal::Float(1.5)),
        Node::Literal(Literal::Bool(true)),
        Node::Literal(Literal::Bytes(vec![1])),
        pre(Any),
        pre(Int),
        pre(Tstr),
        pre(Nil),
        pre(Uint),
        r("grp"),
        r("kvg"),
        r("solo"),
        r("arr"),
        r("map"),
        r("one"),
        r("toarr"),
        r("opt"),
        r("pair"),
        r("cutpair"),
        r("choice"),
        r("int"),
        r("a b\n"),
        Node::Rule(rule("", vec![r("int")])),
        Node::Rule(rule("exact", vec![pre(Int), pre(Bool)])),
        Node::Rule(rule("blank", vec![pre(Int)])),
        r("missing"),
        r("loop"),
        r("again"),
        r("list"),
        Node::Rule(rule("list", vec![pre(Int)])),
        Node::Rule(rule("list", vec![r("grp")])),
        Node::Rule(rule("table", vec![pre(Tstr), pre(Any)])),
        Node::Rule(rule("table", vec![pre(Tstr)])),
        Node::Rule(rule("swap", vec![pre(Int), text("a")])),
        Node::Rule(rule("both", vec![occ(Optional, pre(Int)), pre(Tstr)])),
        Node::Rule(rule("one", vec![pre(Int)])),
        map(vec![]),
        arr(vec![]),
        group(vec![]),
        choice(vec![]),
        amp(vec![]),
        Node::Unwrap(rule("arr", vec![])),
        Node::Unwrap(rule("map", vec![])),
        Node::Unwrap(rule("toarr", vec![])),
        Node::Unwrap(rule("tomap", vec![])),
        Node::Unwrap(rule("grp", vec![])),
        Node::Unwrap(rule("missing", vec![])),
        Node::Unwrap(rule("list", vec![pre(Int)])),
        Node::Choiceify(rule("grp", vec![])),
        Node::Choiceify(rule("kvg", vec![])),
        Node::Choiceify(rule("alias", vec![])),
        Node::Choiceify(rule("choice", vec![])),
        Node::Choiceify(rule("missing", vec![])),
        range(int(1), int(3), true),
        range(Node::Literal(Literal::Float(0.5)), Node::Literal(Literal::Float(1.5)), false),
        range(r("one"), int(i128::MAX), false),
        size(pre(Tstr), int(1)),
        size(pre(Uint), range(int(1), int(2), true)),
        cmp(0, pre(Int), int(1 << 64)),
        cmp(3, pre(Uint), r("one")),
        k.re.clone(),
        k.cb.clone(),
        kv(text("a"), pre(Int), true),
        kv(text("a"), pre(Int), false),
        kv(pre(Tstr), pre(Any), false),
        kv(pre(Int), pre(Tstr), true),
        occ(Optional, pre(Int)),
        occ(ZeroOrMore, pre(Int)),
        occ(OneOrMore, pre(Tstr)),
        occ(Numbered(2, 2), pre(Int)),
        occ(ZeroOrMore, kv(pre(Tstr), pre(Int), false)),
        occ(Optional, kv(text("a"), pre(Int), true)),
    ];
    if thorough {
        x.extend([
            int(i128::MAX),
            int(i128::MIN),
            int(-(1 << 64)),
            pre(Nint),
            pre(Bool),
            pre(Bstr),
            pre(Float),
            r("alias"),
            r("tomap"),
            r("three"),
            Node::Unwrap(rule("choice", vec![])),
            Node::Unwrap(rule("one", vec![])),
            Node::Choiceify(rule("solo", vec![])),
            Node::Choiceify(rule("one", vec![])),
            range(text("a"), text("b"), true),
            range(int(1), text("b"), true),
            range(int(3), int(1), true),
            range(pre(Int), int(1), true),
            size(pre(Bstr), int(1)),
            size(pre(Int), int(1)),
            size(r("t"), int(1 << 64)),
            cmp(1, pre(Nint), int(i128::MIN)),
            cmp(2, pre(Int), int(-(1 << 64) - 1)),
            cmp(2, pre(Float), int(1)),
            kv(int(1), pre(Tstr), false),
            kv(pre(Any), pre(Any), true),
            occ(Numbered(0, 0), pre(Any)),
            occ(Numbered(2, 1), pre(Int)),
            occ(Numbered(1, 2), kv(pre(Any), pre(Any), false)),
            Node::Literal(Literal::Bool(false)),
        ]);
    }
    x
}

const UNARY: usize = 36;

fn unary(k: usize, x: Node) -> Node {
    match k {
        0 => choice(vec![x]),
        1 => map(vec![x]),
        2 => arr(vec![x]),
        3 => group(vec![x]),
        4 => kv(text("a"), x, true),
        5 => kv(text("a"), x, false),
        6 => kv(x, pre(Any), true),
        7 => kv(x, pre(Int), false),
        8 => occ(Optional, x),
        9 => occ(ZeroOrMore, x),
        10 => occ(OneOrMore, x),
        11 => occ(Numbered(2, 3), x),
        12 => occ(Numbered(0, 0), x),
        13 => occ(Numbered(2, 1), x),
        14 => amp(vec![x]),
        15 => amp(vec![kv(text("k"), x, true)]),
        16 => size(pre(Tstr), x),
        17 => size(x, int(1)),
        18 => cmp(0, pre(Int), x),
        19 => cmp(1, x, int(1)),
        20 => cmp(2, pre(Int), x),
        21 => cmp(3, x, int(1)),
        22 => range(x, int(5), true),
        23 => range(int(0), x, false),
        24 => Node::Rule(rule("list", vec![x])),
        25 => Node::Rule(rule("table", vec![pre(Any), x])),
        26 => Node::Rule(rule("table", vec![x, pre(Any)])),
        27 => arr(vec![occ(ZeroOrMore, x)]),
        28 => map(vec![occ(ZeroOrMore, x)]),
        29 => Node::Rule(rule("both", vec![x, r("one")])),
        30 => Node::Rule(rule("swap", vec![r("t"), x])),
        31 => choice(vec![pre(Nil), x]),
        32 => arr(vec![x, occ(ZeroOrMore, pre(Any))]),
        33 => map(vec![x, occ(ZeroOrMore, kv(pre(Any), pre(Any), false))]),
        34 => arr(vec![choice(vec![group(vec![pre(Int), x]), group(vec![pre(Int), pre(Any)])])]),
        35 => map(vec![choice(vec![group(vec![kv(text("a"), pre(Int), true), x]), group(vec![occ(ZeroOrMore, kv(pre(Any), pre(Any), false))])])]),
        _ => unreachable!(),
    }
}

const BINARY: usize = 10;

fn binary(k: usize, x: Node, y: Node) -> Node {
    match k {
        0 => choice(vec![x, y]),
        1 => map(vec![x, y]),
        2 => arr(vec![x, y]),
        3 => group(vec![x, y]),
        4 => kv(x, y, true),
        5 => kv(x, y, false),
        6 => amp(vec![x, y]),
        7 => range(x, y, true),
        8 => size(x, y),
        9 => cmp(1, x, y),
        _ => unreachable!(),
    }
}

fn values() -> Vec<V> {
    vec![
        i(0),
        i(1),
        i(-1),
        i(300),
        i((1 << 64) - 1),
        i(-(1 << 64)),
        f(1.5),
        t(""),
        t("a"),
        t("xyz"),
        b(&[1]),
        b(&[]),
        V::Bool(true),
        V::Null,
        a(vec![]),
        a(vec![i(1)]),
        a(vec![i(1), t("a")]),
        a(vec![t("a")]),
        a(vec![i(1), i(1)]),
        a(vec![i(1), i(1), i(2)]),
        a(vec![i(1), t("a"), i(2), t("b")]),
        a(vec![a(vec![])]),
        a(vec![i(1), t("a"), i(2), V::Bool(true)]),
        m(vec![]),
        m(vec![(t("a"), i(1))]),
        m(vec![(t("a"), t("x"))]),
        m(vec![(t("a"), i(1)), (i(1), t("x"))]),
        m(vec![(i(1), t("x"))]),
        m(vec![(t("a"), i(1)), (t("b"), i(2))]),
        m(vec![(t("a"), t("x")), (t("b"), i(2)), (i(1), V::Bool(true))]),
        m(vec![(t("a"), a(vec![i(1), t("a")]))]),
    ]
}

/// A context of a program's own: a list, searched in order.
struct Own(Vec<(String, RuleDef)>);
impl LookupContext for Own {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a RuleDef, ValidateError> {
        self.0.iter().find(|(n, _)| n == name).map(|(_, d)| d).ok_or_else(|| ValidateError::MissingRule(name.into()))
    }
}

struct World {
    known: Known,
    rules: RulesByName,
    basic: BasicContext,
    own: Own,
    vals: Vec<Val>,
}

fn world() -> Arc<World> {
    let rules = rules();
    Arc::new(World { known: known(), basic: BasicContext::new(rules.clone()), own: Own(rules.clone().into_iter().collect()), rules, vals: value::vals(values()) })
}

fn check(w: &mut Worker, o: &World, node: Node) {
    w.st.schemas += 1;
    let def = RuleDef { generic_parms: vec![], node };
    // a tree can be printed, copied and compared
    let shown = w.imp(|| (format!("{}", def.node), format!("{:?}", def.node), def.clone() == def));
    match &shown {
        Ok((_, _, true)) => {}
        Ok(_) => return w.complain("a copy of a tree is not equal to it", "equal", "not equal", serde_json::json!({"tree": format!("{:?}", def.node)})),
        Err(e) => return w.complain(e, "a notation", "panic", serde_json::json!({"printing": "a tree"})),
    }
    let mut ev = Ev { rules: &o.rules, known: &o.known, steps: 0 };
    for v in &o.vals {
        if w.stopped() {
            return;
        }
        let want = ev.run(&def.node, &v.v);
        w.st.steps += ev.steps;
        w.st.states += ev.steps;
        w.publish(&["{\"kind\":\"tree\",\"tree\":", &serde_json::json!(shown.as_ref().unwrap().1).to_string(), ",\"cbor\":\"", &v.hex, "\"}"]);
        for via in [Via::Cbor, Via::Json] {
            if via == Via::Json && v.json.is_none() {
                continue;
            }
            let got = w.imp(|| match via {
                Via::Cbor => cddl_cat::validate_cbor(&def, &v.cbor, &o.basic),
                Via::Json => cddl_cat::validate_json(&def, v.json.as_ref().unwrap(), &o.own),
            });
            w.st.traces += 1;
            let g = match &got {
                Ok(r) => class(r),
                Err(_) => PANIC,
            };
            w.outcome(g);
            if want & UNSPEC != 0 {
                w.st.unspec += 1;
                if g != PANIC {
                    continue;
                }
            }
            w.st.open += (want.count_ones() > 1) as u64;
            if g & want == 0 {
                let x = serde_json::json!({"tree": format!("{:?}", def.node), "rules": "see rules() in hand.rs", "data": diag(&v.v), "via": format!("{via:?}"), "result": format!("{got:?}")});
                w.complain("a tree built by hand", &refsem::show(want), &crate::engine::show(g), x);
                return;
            }
        }
    }
    w.sample(|| serde_json::json!({"tree": format!("{:?}", def.node)}));
}

// ------------------------------------------------------------ suites

pub fn c29(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    let o = world();
    let l = Arc::new(leaves(&o.known, thorough));
    let nl = l.len();
    let nv = o.vals.len();
    let cl = || (o.clone(), l.clone());
    {
        let (o, l) = cl();
        out.push(suite("trees of one node", format!("{nl} nodes x {nv} values; the same with parameters that nobody gives"), nl, move |k, w| {
            check(w, &o, l[k].clone());
            let def = RuleDef { generic_parms: vec!["x".into()], node: l[k].clone() };
            for v in &o.vals {
                let got = w.imp(|| cddl_cat::validate_cbor(&def, &v.cbor, &o.own));
                w.st.traces += 1;
                if !matches!(&got, Ok(Err(ValidateError::GenericError))) {
                    w.complain("a rule with parameters and no arguments", "generic-error", &format!("{got:?}"), serde_json::json!({"tree": format!("{:?}", def.node), "data": diag(&v.v)}));
                    return;
                }
            }
        }));
    }
    {
        let (o, l) = cl();
        out.push(suite("trees of nodes in nodes", format!("{nl} nodes in {UNARY} places, in {UNARY} places x {nv} values"), nl * UNARY, move |k, w| {
            let x = unary(k / nl, l[k % nl].clone());
            check(w, &o, x.clone());
            for p in 0..UNARY {
                check(w, &o, unary(p, x.clone()));
                if thorough {
                    for q in 0..UNARY {
                        check(w, &o, unary(q, unary(p, x.clone())));
                    }
                }
            }
        }));
    }
    {
        let (o, l) = cl();
        out.push(suite("trees of two nodes", format!("{nl} x {nl} nodes in {BINARY} ways{}, x {nv} values", if thorough { format!(", in {UNARY} places") } else { String::new() }), nl * nl, move |k, w| {
            let (x, y) = (&l[k / nl], &l[k % nl]);
            for p in 0..BINARY {
                let t = binary(p, x.clone(), y.clone());
                check(w, &o, t.clone());
                let places = if thorough { 0..UNARY } else { 1..3 };
                for q in places {
                    check(w, &o, unary(q, t.clone()));
                }
            }
        }));
    }
    {
        let (o, _) = cl();
        // what members of containers may be
        let mut x = leaves(&o.known, false);
        x.truncate(1);
        x.extend([pre(Int), pre(Tstr), r("grp"), r("kvg"), r("opt"), r("pair"), r("cutpair"), r("choice"), Node::Unwrap(rule("arr", vec![])), Node::Unwrap(rule("map", vec![])), group(vec![]), choice(vec![])]);
        x.extend([kv(text("a"), pre(Int), true), kv(text("a"), pre(Int), false), kv(pre(Tstr), pre(Int), true), kv(pre(Any), pre(Any), false), kv(int(1), pre(Tstr), true)]);
        let base = x.clone();
        for n in &base {
            for l in [Optional, ZeroOrMore, Numbered(1, 2)] {
                x.push(occ(l, n.clone()));
            }
            x.push(group(vec![n.clone(), pre(Any)]));
            x.push(choice(vec![group(vec![n.clone(), n.clone()]), n.clone()]));
            x.push(occ(Optional, group(vec![n.clone(), kv(pre(Any), pre(Any), true)])));
        }
        let nx = x.len();
        out.push(suite("members in containers", format!("{nx} x {nx} members, alone and in a group, in an array and a map{}, x {nv} values", if thorough { " (and three of them)" } else { "" }), nx * nx, move |k, w| {
            let (p, q) = (&x[k / nx], &x[k % nx]);
            for f in [arr, map] {
                check(w, &o, f(vec![p.clone(), q.clone()]));
                check(w, &o, f(vec![group(vec![p.clone(), q.clone()])]));
                check(w, &o, f(vec![choice(vec![p.clone(), q.clone()])]));
                check(w, &o, f(vec![occ(ZeroOrMore, choice(vec![p.clone(), q.clone()]))]));
                if thorough {
                    for s in &x {
                        check(w, &o, f(vec![p.clone(), q.clone(), s.clone()]));
                        check(w, &o, f(vec![choice(vec![p.clone(), q.clone()]), s.clone()]));
                    }
                }
            }
        }));
    }
    out.push(numbers());
    out.push(syntax_trees(thorough));
    out
}

/// Numbers that no text can write, and what counts say about themselves.
fn numbers() -> Suite<'static> {
    let mut g: Vec<i128> = vec![];
    for e in [0, 1, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 72, 96, 120, 126] {
        for d in -2..=2 {
            g.extend([(1i128 << e) + d, -(1i128 << e) + d]);
        }
    }
    g.extend([i128::MAX, i128::MIN, i128::MAX - 1, i128::MIN + 1]);
    g.sort();
    g.dedup();
    let world = world();
    let mut vals: Vec<V> = g.iter().filter(|x| **x >= -(1 << 64) && **x < 1 << 64).map(|x| i(*x)).collect();
    vals.extend([t(""), t("a"), t("ab"), b(&[0; 8]), b(&[0; 9]), f(1.0)]);
    let world = Arc::new(World { vals: value::vals(vals), known: known(), rules: world.rules.clone(), basic: BasicContext::new(world.rules.clone()), own: Own(world.rules.clone().into_iter().collect()) });
    let n = g.len();
    suite("numbers in trees", format!("{n} x {n} integers of 128 bits as literals, limits, sizes, bounds and counts"), n, move |k, w| {
        let x = g[k];
        check(w, &world, int(x));
        for p in [Int, Uint, Nint, Tstr, Bstr, Float] {
            for op in 0..4 {
                check(w, &world, cmp(op, pre(p), int(x)));
            }
            check(w, &world, size(pre(p), int(x)));
        }
        for y in &g {
            for inc in [true, false] {
                check(w, &world, range(int(x), int(*y), inc));
                for p in [Uint, Tstr, Bstr] {
                    check(w, &world, size(pre(p), range(int(x), int(*y), inc)));
                }
            }
            let (Ok(lo), Ok(hi)) = (usize::try_from(x), usize::try_from(*y)) else { continue };
            let o = Occur::new(Numbered(lo, hi), pre(Int));
            let want = if (lo, hi) == (0, usize::MAX) { None } else { Some(format!("{lo}*{hi}")) };
            w.st.traces += 1;
            let got = w.imp(|| (o.limits(), o.symbol()));
            if !matches!(&got, Ok((l, s)) if *l == (lo, hi) && want.as_ref().is_none_or(|x| x == s)) {
                w.complain("limits and symbol of an occurrence", &format!("({lo}, {hi}), {want:?}"), &format!("{got:?}"), serde_json::json!({"occurrence": format!("{o:?}")}));
            }
        }
        for (l, lo, hi, s) in [(Optional, 0, 1, "?"), (ZeroOrMore, 0, usize::MAX, "*"), (OneOrMore, 1, usize::MAX, "+")] {
            let o = Occur::new(l, int(x));
            w.st.traces += 1;
            let got = w.imp(|| (o.limits(), o.symbol()));
            if !matches!(&got, Ok((l, y)) if *l == (lo, hi) && y == s) {
                w.complain("limits and symbol of an occurrence", &format!("({lo}, {hi}), {s}"), &format!("{got:?}"), serde_json::json!({"occurrence": format!("{o:?}")}));
            }
        }
    })
}

// ------------------------------------------------------------ syntax trees

mod build {
    //! The harness's syntax tree as the crate's own.
    use crate::ast::*;
    use cddl_cat::ast as c;

    fn lit(l: &Lit) -> c::Value {
        match l {
            Lit::Text(t) => c::Value::Text(t.clone()),
            Lit::Uint(u) => c::Value::Uint(*u),
            Lit::Nint(i) => c::Value::Nint(*i),
            Lit::Float(f) => c::Value::Float(*f),
            Lit::Bytes(b) => c::Value::Bytes(b.clone()),
        }
    }
    pub fn name(n: &Name) -> c::NameGeneric {
        c::NameGeneric { name: n.name.clone(), generic_args: n.args.iter().map(t1).collect() }
    }
    fn t2(t: &T2) -> c::Type2 {
        match t {
            T2::Lit(l) => c::Type2::Value(lit(l)),
            T2::Name(n) => c::Type2::Typename(name(n)),
            T2::Paren(t) => c::Type2::Parethesized(ty(t)),
            T2::Map(g) => c::Type2::Map(grp(g)),
            T2::Arr(g) => c::Type2::Array(grp(g)),
            T2::Unwrap(n) => c::Type2::Unwrap(name(n)),
            T2::AmpIn(g) => c::Type2::ChoiceifyInline(grp(g)),
            T2::Amp(n) => c::Type2::Choiceify(name(n)),
        }
    }
    pub fn t1(t: &T1) -> c::Type1 {
        match t {
            T1::S(t) => c::Type1::Simple(t2(t)),
            T1::Range(a, b, i) => c::Type1::Range(c::TypeRange { start: t2(a), end: t2(b), inclusive: *i }),
            T1::Ctl(a, o, b) => c::Type1::Control(c::TypeControl { target: t2(a), arg: t2(b), op: o.clone() }),
        }
    }
    pub fn ty(t: &Ty) -> c::Type {
        c::Type(t.0.iter().map(t1).collect())
    }
    fn grp(g: &Grp) -> c::Group {
        c::Group(g.0.iter().map(|a| c::GrpChoice(a.iter().map(ent).collect())).collect())
    }
    pub fn ent(e: &Ent) -> c::GrpEnt {
        c::GrpEnt {
            occur: match e.occ {
                Occ::One => None,
                Occ::Opt => Some(c::Occur::Optional),
                Occ::Star => Some(c::Occur::ZeroOrMore),
                Occ::Plus => Some(c::Occur::OneOrMore),
                Occ::Num(a, b) => Some(c::Occur::Numbered(a.unwrap_or(0) as usize, b.map_or(usize::MAX, |b| b as usize))),
            },
            val: match &e.body {
                Body::Par(g) => c::GrpEntVal::Parenthesized(grp(g)),
                Body::Mem(k, t) => {
                    // a bare name may stand as itself or as a type
                    if let (None, [T1::S(T2::Name(n))]) = (k, t.0.as_slice()) {
                        if n.args.is_empty() && n.name.len() % 2 == 1 {
                            return c::GrpEnt { occur: ent(&Ent { occ: e.occ.clone(), body: Body::Par(Grp(vec![])) }).occur, val: c::GrpEntVal::Groupname(n.name.clone()) };
                        }
                    }
                    c::GrpEntVal::Member(c::Member {
                        key: k.as_ref().map(|k| match k {
                            Key::Bare(s) => c::MemberKey { val: c::MemberKeyVal::Bareword(s.clone()), cut: true },
                            Key::Lit(l) => c::MemberKey { val: c::MemberKeyVal::Value(lit(l)), cut: true },
                            Key::Type(t, cut) => c::MemberKey { val: c::MemberKeyVal::Type1(t1(t)), cut: *cut },
                        }),
                        value: ty(t),
                    })
                }
            },
        }
    }
    pub fn rule(r: &Rule) -> c::Rule {
        c::Rule {
            name: r.name.clone(),
            generic_parms: r.params.clone(),
            val: match &r.body {
                RBody::Ty(t) => c::RuleVal::AssignType(ty(t)),
                RBody::Ent(e) => c::RuleVal::AssignGroup(ent(e)),
            },
        }
    }
}

/// Something that need not be a rule at all.
fn slice_text(n: usize) -> String {
    match n % 4 {
        0 => format!(" rule {n}\n;\u{e9} \n"),
        1 => String::new(),
        2 => "\t".into(),
        _ => "\u{0}t = \"".into(),
    }
}

/// A syntax tree put together by hand becomes the same rules as its text.
fn syntax_trees(thorough: bool) -> Suite<'static> {
    let texts: Vec<String> = super::syntax::snippets();
    let mut docs: Vec<crate::ast::Schema> = crate::corpus::DOCS
        .iter()
        .map(|d| d.text.to_string())
        .chain(texts)
        .filter_map(|t| crate::refparse::parse(&t).ok())
        .map(|r| crate::ast::Schema(r.into_iter().map(|r| r.rule).collect()))
        .collect();
    // names, literals and operators in every place
    let places: Vec<String> = super::syntax::LIT_PLACES.iter().map(|s| s.to_string()).collect();
    let parts = [
        "1", "-1", "1.5", "\"a\"", "'a'", "h'00'", "any", "nil", "null", "bool", "true", "false", "int", "uint", "nint", "float", "float16", "float32", "float64", "float16-32", "float32-64", "tstr", "text", "bstr", "bytes", "tdate", "uri", "b64url", "b64legacy", "regexp", "mime-message", "biguint", "bignint", "encoded-cbor", "eb64url", "eb64legacy",
        "eb16", "cbor-any", "time", "bigint", "integer", "unsigned", "number", "decfrac", "bigfloat", "undefined", "x", "yy", "x<int>", "int<x>", "x<1, y<2>>", "[]", "{}", "(1)", "[1, x]", "{a: 1}", "&x", "&(a: 1)", "~x", "~int", "&int", "(1 / 2)", "(1..2)", "(int .lt 3)",
    ];
    for p in &places {
        for x in parts {
            if let Ok(r) = crate::refparse::parse(&p.replace('#', x)) {
                docs.push(crate::ast::Schema(r.into_iter().map(|r| r.rule).collect()));
            }
        }
    }
    for op in ["size", "lt", "le", "gt", "ge", "regexp", "cbor", "bits", "default", "and", "eq", "Size", "sizes", ""] {
        for x in parts {
            for y in parts {
                let one = |s: &str| match crate::refparse::parse(&format!("t = {s}")) {
                    Ok(r) => match &r[0].rule.body {
                        crate::ast::RBody::Ty(t) => match t.0.as_slice() {
                            [crate::ast::T1::S(t)] => Some(t.clone()),
                            _ => None,
                        },
                        _ => None,
                    },
                    Err(_) => None,
                };
                if let (Some(a), Some(b)) = (one(x), one(y)) {
                    use crate::ast::*;
                    let r = |t| Schema(vec![Rule { name: "t".into(), params: vec![], body: RBody::Ty(Ty(vec![t])) }]);
                    docs.push(r(T1::Ctl(a.clone(), op.into(), b.clone())));
                    if op == "size" {
                        docs.push(r(T1::Range(a.clone(), b.clone(), true)));
                        docs.push(r(T1::Range(a, b, false)));
                    }
                }
            }
        }
    }
    let _ = thorough;
    let n = docs.len();
    suite("syntax trees by hand", format!("{n} syntax trees (texts, names and literals in every place, all operators with all operands), and trees that no text gives"), n + 1, move |k, w| {
        if k == n {
            return odd_trees(w);
        }
        let s = &docs[k];
        let want = refsem::read_errors(s);
        w.st.schemas += 1;
        w.publish(&["{\"kind\":\"syntax\",\"tree\":", &serde_json::json!(format!("{:?}", s.0)).to_string(), "}"]);
        let tree = cddl_cat::ast::Cddl { rules: s.0.iter().map(build::rule).collect() };
        let slices = cddl_cat::ast::CddlSlice { rules: s.0.iter().enumerate().map(|(n, r)| (build::rule(r), slice_text(n))).collect() };
        let got = w.imp(|| (cddl_cat::flatten::flatten(&tree), cddl_cat::flatten::slice_flatten(&slices)));
        w.st.traces += 2;
        let note = |g: &str| serde_json::json!({"tree": format!("{tree:?}"), "got": g});
        let (x, y) = match got {
            Err(e) => return w.complain("flattening a syntax tree", "a result", "panic", note(&e)),
            Ok(x) => x,
        };
        let (gx, gy) = (x.as_ref().err().map_or(OK, class_e), y.as_ref().err().map_or(OK, class_e));
        w.outcome(gx);
        if want & UNSPEC != 0 {
            w.st.unspec += 1;
            return;
        }
        let want = if want == 0 { OK } else { want };
        if gx & want == 0 || gy & want == 0 {
            return w.complain("flattening a syntax tree", &refsem::show(want), &format!("{} and {}", crate::engine::show(gx), crate::engine::show(gy)), note(&format!("{x:?}")));
        }
        let (Ok(x), Ok(y)) = (x, y) else { return };
        for (n, r) in s.0.iter().enumerate() {
            // of rules with one name one is kept
            if s.0.iter().filter(|q| q.name == r.name).count() > 1 {
                continue;
            }
            let (Some(d), Some((e, t))) = (x.get(&r.name), y.get(&r.name)) else {
                return w.complain("flattening a syntax tree", "every rule", &format!("no {}", r.name), note(""));
            };
            if d != e || *t != slice_text(n) {
                return w.complain("flattening a syntax tree with texts", "the same rule and its text", t, note(&format!("{e:?}")));
            }
            w.st.states += 1;
            if let Some(q) = crate::flat::differs(r, d) {
                return w.complain("flattening a syntax tree", "the rule as built", &q, note(""));
            }
        }
    })
}

/// Trees that the grammar has no text for.
fn odd_trees(w: &mut Worker) {
    use cddl_cat::ast as c;
    let simple = |t| c::Type(vec![c::Type1::Simple(t)]);
    let one = |n: u64| c::Type2::Value(c::Value::Uint(n));
    let empty = || c::Type(vec![]);
    let ent = |t| c::GrpEnt { occur: None, val: c::GrpEntVal::Member(c::Member { key: None, value: t }) };
    let g = |v: Vec<c::GrpEnt>| c::Group(vec![c::GrpChoice(v)]);
    // (what, tree, permitted, result if flattened)
    let trees: Vec<(c::Type, Bits, Option<Node>)> = vec![
        (empty(), SCHEMA, None),
        (simple(c::Type2::Parethesized(empty())), SCHEMA, None),
        (simple(c::Type2::Array(g(vec![ent(empty())]))), SCHEMA, None),
        (simple(c::Type2::Map(g(vec![ent(empty())]))), SCHEMA, None),
        (simple(c::Type2::Array(c::Group(vec![]))), OK, Some(arr(vec![choice(vec![])]))),
        (simple(c::Type2::Map(c::Group(vec![]))), OK, Some(map(vec![choice(vec![])]))),
        (simple(c::Type2::Array(g(vec![]))), OK, Some(arr(vec![]))),
        (simple(c::Type2::ChoiceifyInline(g(vec![]))), OK, Some(amp(vec![]))),
        (simple(c::Type2::Value(c::Value::Nint(5))), OK, Some(int(5))),
        (simple(c::Type2::Value(c::Value::Nint(i64::MIN))), OK, Some(int(i64::MIN as i128))),
        (simple(c::Type2::Value(c::Value::Uint(u64::MAX))), OK, Some(int(u64::MAX as i128))),
        (simple(c::Type2::Value(c::Value::Text("\u{0}\"\\".into()))), OK, Some(text("\u{0}\"\\"))),
        (simple(c::Type2::Typename(c::NameGeneric { name: "".into(), generic_args: vec![] })), OK, Some(r(""))),
        (simple(c::Type2::Typename(c::NameGeneric { name: "a b\n".into(), generic_args: vec![] })), OK, Some(r("a b\n"))),
        (simple(c::Type2::Typename(c::NameGeneric { name: "INT".into(), generic_args: vec![] })), OK, Some(r("INT"))),
        (c::Type(vec![c::Type1::Range(c::TypeRange { start: c::Type2::Array(g(vec![])), end: one(1), inclusive: true })]), SCHEMA, None),
        (c::Type(vec![c::Type1::Range(c::TypeRange { start: one(2), end: one(1), inclusive: true })]), OK, Some(range(int(2), int(1), true))),
        (c::Type(vec![c::Type1::Range(c::TypeRange { start: c::Type2::Parethesized(simple(one(2))), end: one(1), inclusive: true })]), SCHEMA, None),
        (
            simple(c::Type2::Map(g(vec![c::GrpEnt {
                occur: Some(c::Occur::Numbered(3, 2)),
                val: c::GrpEntVal::Member(c::Member { key: Some(c::MemberKey { val: c::MemberKeyVal::Bareword("a b".into()), cut: false }), value: simple(one(1)) }),
            }]))),
            OK,
            Some(map(vec![occ(Numbered(3, 2), kv(text("a b"), int(1), false))])),
        ),
        (
            simple(c::Type2::Map(g(vec![c::GrpEnt { occur: None, val: c::GrpEntVal::Member(c::Member { key: Some(c::MemberKey { val: c::MemberKeyVal::Value(c::Value::Float(1.5)), cut: false }), value: empty() }) }]))),
            SCHEMA,
            None,
        ),
        (simple(c::Type2::Array(g(vec![c::GrpEnt { occur: Some(c::Occur::Optional), val: c::GrpEntVal::Groupname("time".into()) }]))), SCHEMA, None),
        (simple(c::Type2::Array(g(vec![c::GrpEnt { occur: Some(c::Occur::Optional), val: c::GrpEntVal::Groupname("int".into()) }]))), OK, Some(arr(vec![occ(Optional, pre(Int))]))),
        (simple(c::Type2::Array(g(vec![c::GrpEnt { occur: None, val: c::GrpEntVal::Parenthesized(c::Group(vec![])) }]))), OK, Some(arr(vec![group(vec![choice(vec![])])]))),
    ];
    for (t, want, node) in trees {
        let shown = format!("{t:?}");
        w.publish(&["{\"kind\":\"syntax\",\"tree\":", &serde_json::json!(shown).to_string(), "}"]);
        let tree = c::Cddl { rules: vec![c::Rule { name: "t".into(), generic_parms: vec![], val: c::RuleVal::AssignType(t) }] };
        let got = w.imp(|| cddl_cat::flatten::flatten(&tree));
        w.st.traces += 1;
        let ok = match &got {
            Err(_) => false,
            Ok(Err(e)) => class_e(e) & want != 0,
            Ok(Ok(x)) => want == OK && x.len() == 1 && x.get("t").is_some_and(|d| d.generic_parms.is_empty() && node.as_ref().is_none_or(|n| *n == d.node)),
        };
        if !ok {
            w.complain("flattening a tree that no text gives", &format!("{} {node:?}", refsem::show(want)), &format!("{got:?}"), serde_json::json!({"tree": shown}));
        }
    }
}

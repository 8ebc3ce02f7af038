//! Exhaustive generation of groups, values and other terms by size.

use crate::ast::*;
use crate::value::*;

#[derive(Clone)]
pub struct Cfg {
    /// what an entry with one leaf can be
    pub atoms: Vec<Body>,
    /// occurrences of a leaf entry
    pub occs: Vec<Occ>,
    /// occurrences of a parenthesised group
    pub poccs: Vec<Occ>,
    /// nesting of parenthesised groups
    pub depth: usize,
    /// most alternatives of a group
    pub alts: usize,
    /// allow an alternative without entries
    pub empty: bool,
}

/// All groups with `n` leaves, as an indexed family of small streams.
pub struct Groups {
    /// entries by number of leaves, as seen from the outermost level
    ents: Vec<Vec<Ent>>,
    /// alternatives as lists of entry sizes
    shapes: Vec<Vec<Vec<usize>>>,
    /// (shape, index of the first entry)
    items: Vec<(u32, u32)>,
}

fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        for mut r in compositions(n - k) {
            r.insert(0, k);
            out.push(r);
        }
    }
    out
}

fn shapes(n: usize, alts: usize, empty: bool) -> Vec<Vec<Vec<usize>>> {
    // all ways to split n leaves over 1..=alts alternatives
    let mut out: Vec<Vec<Vec<usize>>> = vec![];
    fn rec(n: usize, left: usize, empty: bool, cur: &mut Vec<Vec<usize>>, out: &mut Vec<Vec<Vec<usize>>>) {
        if left == 0 {
            if n == 0 {
                out.push(cur.clone());
            }
            return;
        }
        for k in 0..=n {
            if k == 0 && !empty {
                continue;
            }
            for c in compositions(k) {
                cur.push(c);
                rec(n - k, left - 1, empty, cur, out);
                cur.pop();
            }
        }
    }
    for a in 1..=alts {
        rec(n, a, empty && a > 1 || n == 0, &mut vec![], &mut out);
    }
    out
}

fn trivial(g: &Grp) -> bool {
    // (x): reads as a parenthesised type
    g.0.len() == 1
        && g.0[0].len() == 1
        && g.0[0][0].occ == Occ::One
        && matches!(&g.0[0][0].body, Body::Mem(None, _))
}

fn ents_of(c: &Cfg, n: usize, depth: usize) -> Vec<Ent> {
    let mut out = vec![];
    if n == 1 {
        for b in &c.atoms {
            for o in &c.occs {
                out.push(Ent { occ: *o, body: b.clone() });
            }
        }
    }
    if depth > 0 {
        for g in grps_of(c, n, depth - 1) {
            if trivial(&g) {
                continue;
            }
            for o in &c.poccs {
                out.push(Ent { occ: *o, body: Body::Par(g.clone()) });
            }
        }
    }
    out
}

/// All groups with n leaves, as one list.
pub fn grps_of(c: &Cfg, n: usize, depth: usize) -> Vec<Grp> {
    let ents: Vec<Vec<Ent>> = (0..=n).map(|k| if k == 0 { vec![] } else { ents_of(c, k, depth) }).collect();
    let mut out = vec![];
    for s in shapes(n, c.alts, c.empty) {
        product(&ents, &s, None, &mut |g| out.push(g.clone()));
    }
    out
}

fn product(ents: &[Vec<Ent>], shape: &[Vec<usize>], first: Option<usize>, f: &mut dyn FnMut(&Grp)) {
    let flat: Vec<usize> = shape.iter().flatten().copied().collect();
    let mut g = Grp(shape.iter().map(|a| Vec::with_capacity(a.len())).collect());
    let pos: Vec<usize> = shape.iter().enumerate().flat_map(|(i, a)| a.iter().map(move |_| i)).collect();
    fn rec(
        ents: &[Vec<Ent>],
        flat: &[usize],
        pos: &[usize],
        k: usize,
        first: Option<usize>,
        g: &mut Grp,
        f: &mut dyn FnMut(&Grp),
    ) {
        if k == flat.len() {
            f(g);
            return;
        }
        let list = &ents[flat[k]];
        let range = match (k, first) {
            (0, Some(i)) => i..i + 1,
            _ => 0..list.len(),
        };
        for e in &list[range] {
            g.0[pos[k]].push(e.clone());
            rec(ents, flat, pos, k + 1, first, g, f);
            g.0[pos[k]].pop();
        }
    }
    rec(ents, &flat, &pos, 0, first, &mut g, f);
}

impl Groups {
    /// All groups with at most `n` leaves.
    pub fn up_to(c: &Cfg, n: usize) -> Groups {
        let ents: Vec<Vec<Ent>> = (0..=n).map(|k| if k == 0 { vec![] } else { ents_of(c, k, c.depth) }).collect();
        let mut sh = vec![];
        for k in 0..=n {
            sh.extend(shapes(k, c.alts, c.empty));
        }
        Groups::make(ents, sh)
    }
    pub fn exactly(c: &Cfg, n: usize) -> Groups {
        let ents: Vec<Vec<Ent>> = (0..=n).map(|k| if k == 0 { vec![] } else { ents_of(c, k, c.depth) }).collect();
        Groups::make(ents, shapes(n, c.alts, c.empty))
    }
    fn make(ents: Vec<Vec<Ent>>, shapes: Vec<Vec<Vec<usize>>>) -> Groups {
        let mut items = vec![];
        for (i, s) in shapes.iter().enumerate() {
            match s.iter().flatten().next() {
                None => items.push((i as u32, u32::MAX)),
                Some(k) => {
                    for j in 0..ents[*k].len() {
                        items.push((i as u32, j as u32));
                    }
                }
            }
        }
        Groups { ents, shapes, items }
    }
    pub fn items(&self) -> usize {
        self.items.len()
    }
    pub fn total(&self) -> u64 {
        self.shapes.iter().map(|s| s.iter().flatten().map(|k| self.ents[*k].len() as u64).product::<u64>()).sum()
    }
    pub fn each(&self, item: usize, f: &mut dyn FnMut(&Grp)) {
        let (s, e) = self.items[item];
        let first = if e == u32::MAX { None } else { Some(e as usize) };
        product(&self.ents, &self.shapes[s as usize], first, f);
    }
}

/// All sequences over `alpha` with length at most `n`.
pub fn seqs<T: Clone>(alpha: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for s in &last {
            for a in alpha {
                let mut t = s.clone();
                t.push(a.clone());
                next.push(t);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}

/// All arrays over `alpha` up to length `n`, plus some values that are not
/// arrays.
pub fn arrays(alpha: &[V], n: usize) -> Vec<Val> {
    let mut v: Vec<V> = seqs(alpha, n).into_iter().map(V::Arr).collect();
    v.push(V::Int(1));
    v.push(V::Map(vec![]));
    vals(v)
}

/// All maps from the keys to one of the values or to nothing.
pub fn maps(keys: &[V], alpha: &[V]) -> Vec<V> {
    let mut out: Vec<Vec<(V, V)>> = vec![vec![]];
    for k in keys {
        let mut next = vec![];
        for m in &out {
            next.push(m.clone());
            for v in alpha {
                let mut n = m.clone();
                n.push((k.clone(), v.clone()));
                next.push(n);
            }
        }
        out = next;
    }
    out.into_iter().map(V::Map).collect()
}

pub fn mem(t: T1) -> Body {
    Body::Mem(None, Ty(vec![t]))
}
pub fn memty(t: Vec<T1>) -> Body {
    Body::Mem(None, Ty(t))
}
pub fn pair(k: Key, t: T1) -> Body {
    Body::Mem(Some(k), Ty(vec![t]))
}
pub fn bare(s: &str) -> Key {
    Key::Bare(s.into())
}
pub fn tkey(t: T1, cut: bool) -> Key {
    Key::Type(Box::new(t), cut)
}
/// A rule written in CDDL text, read by the reference parser.
pub fn cddl(text: &str) -> Schema {
    match crate::refparse::parse(text) {
        Ok(r) => Schema(r.into_iter().map(|r| r.rule).collect()),
        Err(e) => panic!("bad schema in harness: {e:?}\n{text}"),
    }
}
pub fn typ(text: &str) -> Ty {
    let s = cddl(&format!("x = {text}\n"));
    match &s.0[0].body {
        RBody::Ty(t) => t.clone(),
        RBody::Ent(_) => panic!("not a type: {text}"),
    }
}
pub fn t1(text: &str) -> T1 {
    let t = typ(text);
    assert!(t.0.len() == 1, "{text}");
    t.0[0].clone()
}
/// Entries of a group written in CDDL text.
pub fn grp(text: &str) -> Grp {
    match t1(&format!("[{text}]")) {
        T1::S(T2::Arr(g)) => g,
        _ => unreachable!(),
    }
}
/// The bodies of the entries (each of which must have no occurrence).
pub fn bodies(texts: &[&str]) -> Vec<Body> {
    texts
        .iter()
        .map(|t| {
            let mut g = grp(t);
            assert!(g.0.len() == 1 && g.0[0].len() == 1 && g.0[0][0].occ == Occ::One, "{t}");
            g.0[0].pop().unwrap().body
        })
        .collect()
}
pub fn occs(texts: &[&str]) -> Vec<Occ> {
    texts
        .iter()
        .map(|t| if t.is_empty() { Occ::One } else { grp(&format!("{t} int")).0[0][0].occ })
        .collect()
}

//! Realistic schemas with fitting data, and everything that is one (or two)
//! changes away from them.

use crate::ast::*;
use crate::engine::*;
use crate::gen::*;
use crate::refparse;
use crate::value::*;
use serde_json::Value as JV;
use std::sync::Arc;

pub struct Doc {
    pub name: &'static str,
    pub tags: &'static str,
    pub text: &'static str,
    /// data as JSON; {"$b": "hex"} is a byte string, {"$c": x} a byte string
    /// holding x encoded, {"$m": [[k, v], ...]} a map with any keys
    pub data: &'static [&'static str],
}

pub const DOCS: &[Doc] = &[
    Doc { name: "person", tags: "map cut occur scalar size", text: "person = {\n  name: tstr,\n  ? nick: tstr .size (1..8),\n  age: uint .lt 150,\n  * phone-type => phone\n}\nphone-type = \"home\" / \"work\" / \"mobile\"\nphone = tstr .regexp \"^[0-9]+$\"\n",
        data: &[r#"{"name":"Ann","age":30,"home":"123"}"#, r#"{"name":"B","nick":"bee","age":0,"work":"1","mobile":"2"}"#] },
    Doc { name: "points", tags: "array occur scalar range", text: "shape = [kind, + point, ? label]\nkind = \"line\" / \"poly\"\npoint = [x: coord, y: coord, ? z: coord]\ncoord = -180.0 .. 180.0 / -180..180\nlabel = tstr\n",
        data: &[r#"["line",[1,2],[3.5,-4.25]]"#, r#"["poly",[1,2,3],[0,0],"here"]"#] },
    Doc { name: "cose", tags: "map array cbor cut choice", text: "sign1 = [protected, unprotected, payload, signature: bstr]\nprotected = bstr .cbor header / bstr .size 0\nunprotected = header\nheader = {\n  ? 1: int / tstr,\n  ? 2: [+ label],\n  ? 4: bstr,\n  * label => any\n}\nlabel = int / tstr\npayload = bstr / nil\n",
        data: &[r#"[{"$c":{"$m":[[1,-7]]}},{"$m":[[4,{"$b":"3131"}]]},{"$b":"74657374"},{"$b":"00"}]"#, r#"[{"$b":""},{"$m":[[2,[1,"x"]],["ext",true]]},null,{"$b":""}]"#] },
    Doc { name: "cwt", tags: "map cut generic", text: "claims = {\n  ? iss => tstr, ? sub => tstr, ? aud => one-or-more<tstr>,\n  ? exp => numeric, ? cti => bytes,\n  * int => any\n}\niss = 1\nsub = 2\naud = 3\nexp = 4\ncti = 7\none-or-more<T> = T / [2* T]\nnumeric = uint / float\n",
        data: &[r#"{"$m":[[1,"as"],[2,"erik"],[3,["a","b"]],[4,1444064944],[7,{"$b":"0b71"}]]}"#, r#"{"$m":[[3,"coap"],[4,1.5],[99,null]]}"#] },
    Doc { name: "reputation", tags: "map occur array range", text: "reputation-object = {\n  reputation-context,\n  reputon-list\n}\nreputation-context = (application: text)\nreputon-list = (reputons: reputon-array)\nreputon-array = [* reputon]\nreputon = {\n  rater: text,\n  assertion: text,\n  rated: text,\n  rating: 0.0 .. 1.0,\n  ? confidence: 0.0 .. 1.0,\n  ? normal-rating: 0.0 .. 1.0,\n  ? sample-size: uint,\n  ? generated: uint,\n  * text => any\n}\n",
        data: &[r#"{"application":"email-id","reputons":[{"rater":"r","assertion":"spam","rated":"x","rating":0.5,"confidence":0.25,"extra":[1]}]}"#, r#"{"application":"e","reputons":[]}"#] },
    Doc { name: "messages", tags: "array generic choice rewind", text: "messages = message<\"reboot\", \"now\"> / message<\"sleep\", 1..100> / [* message<\"nop\", any>]\nmessage<t, v> = {type: t, value: v}\n",
        data: &[r#"{"type":"reboot","value":"now"}"#, r#"{"type":"sleep","value":50}"#, r#"[{"type":"nop","value":null},{"type":"nop","value":[1]}]"#] },
    Doc { name: "tree", tags: "array recursion choice", text: "tree = leaf / [tree, tree] / {op: op, args: [* tree]}\nleaf = int / tstr\nop = &ops\nops = (add: \"+\", sub: \"-\", neg: \"neg\")\n",
        data: &[r#"[1,["x",[2,3]]]"#, r#"{"op":"+","args":[1,[2,"y"],{"op":"neg","args":[]}]}"#] },
    Doc { name: "linked", tags: "map recursion occur", text: "list = {value: val, ? next: list}\nval = bool / nint / float\n",
        data: &[r#"{"value":true,"next":{"value":-5,"next":{"value":1.5}}}"#] },
    Doc { name: "headers", tags: "array unwrap rewind", text: "packet = [~basic, body: bytes] / [~basic, ~extended, body: bytes, ? sum: uint .size 2]\nbasic = [version: 1..3, kind]\nkind = \"a\" / \"b\"\nextended = [flags, ? more: tstr]\nflags = bool / uint .size 1\n",
        data: &[r#"[1,"a",{"$b":"01"}]"#, r#"[3,"b",255,"more",{"$b":""},65535]"#, r#"[2,"b",true,{"$b":"ff"}]"#] },
    Doc { name: "unwrap-map", tags: "map unwrap rewind cut", text: "advanced = {~basic, ? ~timing, * tstr => tstr}\nbasic = {id: uint, ? title: tstr}\ntiming = {begin: uint, end: uint}\n",
        data: &[r#"{"id":1,"title":"x","begin":1,"end":2,"note":"n"}"#, r#"{"id":7}"#] },
    Doc { name: "alternatives", tags: "map rewind cut", text: "delivery = {\n  order: uint,\n  (\n    street: tstr, ? number: uint, city //\n    po-box: uint, city //\n    per-pickup: true\n  )\n}\ncity = (name: tstr, zip-code: uint)\n",
        data: &[r#"{"order":1,"street":"s","number":3,"name":"c","zip-code":12345}"#, r#"{"order":2,"po-box":5,"name":"c","zip-code":1}"#, r#"{"order":3,"per-pickup":true}"#] },
    Doc { name: "cutting", tags: "map cut", text: "attr = {\n  ? \"optional-key\" ^ => int,\n  ? kind: \"x\" / \"y\",\n  * tstr => any\n}\n",
        data: &[r#"{"optional-key":1,"kind":"x","other":null}"#, r#"{"free":"x"}"#] },
    Doc { name: "sequence", tags: "array occur rewind", text: "seq = [2*3 int, * (tstr, ? bool), + end]\nend = null / [tail]\ntail = (0*1 float, 1*2 uint)\n",
        data: &[r#"[1,2,"a",true,"b",null,[1.5,3]]"#, r#"[1,2,3,[4,5],null]"#] },
    Doc { name: "log", tags: "array choice scalar range", text: "log = [* entry]\nentry = [stamp, level, text, ? details]\nstamp = uint .le 4294967295\nlevel = &(debug: 0, info: 1, warn: 2, error: 3)\ndetails = {* tstr => detail}\ndetail = scalar / [* scalar]\nscalar = int / float / tstr / bool / nil\n",
        data: &[r#"[[1,0,"start"],[4294967295,3,"x",{"a":1,"b":[1.5,null,"z"]}]]"#] },
    Doc { name: "config", tags: "map choice regexp size", text: "config = {\n  \"server\": host / [+ host],\n  \"port\" => 1..65535,\n  ? \"tls\" => tls,\n  ? \"retry\": {max: uint .size 1, ? \"delay\" => float / uint}\n}\nhost = tstr .regexp \"^[a-z][a-z0-9.-]*$\"\ntls = false / {cert: bytes .size (1..4), ? key: bytes}\n",
        data: &[r#"{"server":"example.org","port":443,"tls":{"cert":{"$b":"0102"}},"retry":{"max":255,"delay":1.5}}"#, r#"{"server":["a","b1"],"port":1,"tls":false}"#] },
    Doc { name: "suit", tags: "map cbor generic", text: "envelope = {1 => bstr .cbor auth, 2 => bstr .cbor manifest, * 3..9 => bstr}\nauth = [digest: bytes .size 4, * bstr .cbor sig]\nsig = [alg: int, bytes]\nmanifest = {version: 1, sequence: uint, common: wrapped<common>}\nwrapped<T> = bstr .cbor T\ncommon = {? components: [+ [* bstr]], * int => any}\n",
        data: &[r#"{"$m":[[1,{"$c":[{"$b":"01020304"},{"$c":[-7,{"$b":"aa"}]}]}],[2,{"$c":{"version":1,"sequence":9,"common":{"$c":{"components":[[{"$b":"00"}]]}}}}],[5,{"$b":""}]]}"#] },
    Doc { name: "geo", tags: "map array recursion choice range", text: "geo = {type: \"Point\", coordinates: position} / {type: \"LineString\", coordinates: [2* position]} / {type: \"Collection\", geometries: [* geo]}\nposition = [lon, lat, ? alt]\nlon = -180.0..180.0\nlat = -90.0..90.0\nalt = float\n",
        data: &[r#"{"type":"Collection","geometries":[{"type":"Point","coordinates":[1.0,2.0]},{"type":"LineString","coordinates":[[0.0,0.0],[180.0,-90.0,5.5]]}]}"#] },
    Doc { name: "generics", tags: "generic array map", text: "start = pair<opt<int>, list<pair<tstr, bool>>>\npair<A, B> = [A, B]\nopt<A> = A / nil\nlist<A> = [* A] / dict<A>\ndict<B> = {* tstr => B}\n",
        data: &[r#"[1,[["a",true],["b",false]]]"#, r#"[null,{"k":["v",true]}]"#] },
    Doc { name: "keys", tags: "map scalar cut", text: "m = {\n  1 => \"one\", -1 => \"minus\", \"1\" => \"text\", h'31' => \"bytes\", true => \"t\", false => \"f\", null => \"n\", 1.5 => \"float\",\n  ? [1, 2] => \"array\", ? {a: 1} => \"map\"\n}\n",
        data: &[r#"{"$m":[[1,"one"],[-1,"minus"],["1","text"],[{"$b":"31"},"bytes"],[true,"t"],[false,"f"],[null,"n"],[1.5,"float"],[[1,2],"array"],[{"a":1},"map"]]}"#] },
    Doc { name: "literals", tags: "array scalar", text: "lits = [0x10, 0b101, -3, 18446744073709551615, 1.5, -2.5e3, \"a\\\"b\\\\c\\u0041\", 'by\\'te', h'00 ff', b64'AQI=', true, null]\n",
        data: &[r#"[16,5,-3,18446744073709551615,1.5,-2500.0,"a\"b\\cA",{"$b":"6279277465"},{"$b":"00ff"},{"$b":"0102"},true,null]"#] },
    Doc { name: "nested-groups", tags: "array rewind occur", text: "rec = [outer, ? trailer]\nouter = (int, ? inner, * (tstr, inner // bool))\ninner = (float, (null // [inner]))\ntrailer = (\"end\" // \"stop\", int)\n",
        data: &[r#"[1,1.5,null,"a",2.5,[3.5,null],true,"end"]"#, r#"[1,false,"stop",3]"#] },
    Doc { name: "ranges", tags: "array range size", text: "r = [low ... high, uint .gt low, int .ge -5, nint .lt -1, uint .size 2, tstr .size (2..3), bstr .size n, 0.5...1.5]\nlow = 2\nhigh = 5\nn = 3\n",
        data: &[r#"[4,3,-5,-2,65535,"abc",{"$b":"010203"},1.0]"#] },
    Doc { name: "many-options", tags: "choice array", text: "ops = [* op]\nop = [\"add\", arg, arg] / [\"neg\", arg] / [\"const\", num] / [\"call\", tstr, * arg] / null\narg = op / num / reg\nnum = int / float\nreg = {r: 0..15}\n",
        data: &[r#"[["add",1,{"r":3}],["neg",["const",1.5]],["call","f",1,2,null],null]"#] },
    Doc { name: "enum-groups", tags: "choice map", text: "e = {* &colors => &all}\ncolors = (red: 1, green: 2, blue: 3)\nall = (colors, other: \"x\", more)\nmore = (m1: -1, k: 1.5)\n",
        data: &[r#"{"$m":[[1,2],[2,"x"],[3,-1]]}"#, r#"{"$m":[[1,1.5]]}"#] },
];

pub fn from_json(j: &JV) -> V {
    match j {
        JV::Null => V::Null,
        JV::Bool(b) => V::Bool(*b),
        JV::Number(n) => {
            if let Some(u) = n.as_u64() {
                V::Int(u as i128)
            } else if let Some(x) = n.as_i64() {
                V::Int(x as i128)
            } else {
                V::Float(n.as_f64().unwrap())
            }
        }
        JV::String(s) => V::Text(s.clone()),
        JV::Array(x) => V::Arr(x.iter().map(from_json).collect()),
        JV::Object(o) => {
            if let Some(x) = o.get("$b") {
                return V::Bytes(unhex(x.as_str().unwrap()));
            }
            if let Some(x) = o.get("$c") {
                return V::Bytes(encode(&from_json(x), &PLAIN));
            }
            if let Some(x) = o.get("$m") {
                return V::Map(x.as_array().unwrap().iter().map(|e| (from_json(&e[0]), from_json(&e[1]))).collect());
            }
            V::Map(o.iter().map(|(k, v)| (V::Text(k.clone()), from_json(v))).collect())
        }
    }
}

impl Doc {
    pub fn values(&self) -> Vec<V> {
        self.data.iter().map(|d| from_json(&serde_json::from_str(d).expect(self.name))).collect()
    }
    pub fn schema(&self) -> Schema {
        cddl(self.text)
    }
    pub fn start(&self) -> String {
        self.schema().0[0].name.clone()
    }
}

/// What a part of a value is replaced by.
fn others(v: &V, rich: bool) -> Vec<V> {
    let mut o = vec![V::Null, i(0), t(""), t("zz"), b(b""), f(0.5), V::Bool(true), a(vec![]), m(vec![])];
    match v {
        V::Int(x) => {
            o.extend([i(-x - 1), f(*x as f64)]);
            if *x < u64::MAX as i128 {
                o.push(i(x + 1));
            }
            if *x > -(1i128 << 64) {
                o.push(i(x - 1));
            }
        }
        V::Text(s) => {
            o.extend([t(&format!("{s}x")), b(s.as_bytes()), t(&s.chars().skip(1).collect::<String>()), t(&s.to_uppercase())]);
        }
        V::Bytes(x) => {
            let mut y = x.clone();
            y.push(0);
            o.push(b(&y));
            o.push(b(&x[..x.len().saturating_sub(1)]));
            if rich {
                for k in 0..x.len() {
                    let mut y = x.clone();
                    y[k] ^= 1;
                    o.push(b(&y));
                }
            }
        }
        V::Float(x) if x.is_finite() => {
            o.extend([f(x + 1.0), f(-x - 0.25), i(*x as i128)]);
        }
        V::Bool(x) => o.push(V::Bool(!x)),
        _ => {}
    }
    o
}

/// Everything one change away.
pub fn near(v: &V, rich: bool) -> Vec<V> {
    let mut out = others(v, rich);
    match v {
        V::Arr(x) => {
            for k in 0..x.len() {
                for y in near(&x[k], rich) {
                    let mut z = x.clone();
                    z[k] = y;
                    out.push(a(z));
                }
                let mut z = x.clone();
                z.remove(k);
                out.push(a(z));
                let mut z = x.clone();
                z.insert(k, x[k].clone());
                out.push(a(z));
                if k > 0 {
                    let mut z = x.clone();
                    z.swap(k, k - 1);
                    out.push(a(z));
                }
                out.push(x[k].clone());
            }
            for e in [V::Null, i(1), t("a"), a(vec![])] {
                for k in [0, x.len()] {
                    let mut z = x.clone();
                    z.insert(k, e.clone());
                    out.push(a(z));
                }
            }
        }
        V::Map(x) => {
            let has = |k: &V| x.iter().any(|(y, _)| same(y, k));
            for k in 0..x.len() {
                for y in near(&x[k].1, rich) {
                    let mut z = x.clone();
                    z[k].1 = y;
                    out.push(m(z));
                }
                for y in others(&x[k].0, rich) {
                    if !has(&y) {
                        let mut z = x.clone();
                        z[k].0 = y;
                        out.push(m(z));
                    }
                }
                let mut z = x.clone();
                z.remove(k);
                out.push(m(z));
                if k > 0 {
                    let mut z = x.clone();
                    z.swap(k, k - 1);
                    out.push(m(z));
                    let (p, q) = (x[k].1.clone(), x[k - 1].1.clone());
                    let mut z = x.clone();
                    z[k].1 = q;
                    z[k - 1].1 = p;
                    out.push(m(z));
                }
            }
            for e in [(t("extra"), i(1)), (t("extra2"), t("s")), (i(77), i(1)), (b(b"q"), V::Null)] {
                if !has(&e.0) {
                    let mut z = x.clone();
                    z.push(e);
                    out.push(m(z));
                }
            }
            let mut z = x.clone();
            z.reverse();
            out.push(m(z));
        }
        V::Bytes(x) => {
            // change what is encoded inside
            if let Dec::Ok(inner @ (V::Arr(_) | V::Map(_))) = decode(x) {
                for y in near(&inner, false) {
                    out.push(b(&encode(&y, &PLAIN)));
                }
                out.push(inner);
            }
        }
        _ => {}
    }
    out
}

fn uniq(v: Vec<V>) -> Vec<V> {
    let mut seen = std::collections::HashSet::new();
    v.into_iter().filter(|x| seen.insert(encode(x, &PLAIN))).collect()
}

/// The words a schema consists of, with the blanks between them.
pub fn words(text: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    let c: Vec<char> = text.chars().collect();
    let mut k = 0;
    while k < c.len() {
        let s = k;
        if c[k] == '"' {
            k += 1;
            while k < c.len() && c[k] != '"' {
                k += if c[k] == '\\' { 2 } else { 1 };
            }
            k += 1;
        } else if c[k] == '\'' || (c[k] == 'h' && c.get(k + 1) == Some(&'\'')) {
            k += if c[k] == 'h' { 2 } else { 1 };
            while k < c.len() && c[k] != '\'' {
                k += if c[k] == '\\' { 2 } else { 1 };
            }
            k += 1;
        } else if c[k].is_whitespace() {
            while k < c.len() && c[k].is_whitespace() {
                k += 1;
            }
        } else if c[k].is_alphanumeric() || c[k] == '-' && c.get(k + 1).is_some_and(|x| x.is_ascii_digit()) {
            k += 1;
            while k < c.len() && (c[k].is_alphanumeric() || (c[k] == '-' || c[k] == '.') && c.get(k + 1).is_some_and(|x| x.is_alphanumeric())) {
                k += 1;
            }
        } else if c[k] == '.' || c[k] == '/' {
            while k < c.len() && c[k] == c[s] {
                k += 1;
            }
            if c[s] == '.' && k == s + 1 {
                while k < c.len() && c[k].is_alphanumeric() {
                    k += 1;
                }
            }
        } else if c[k] == '=' && c.get(k + 1) == Some(&'>') {
            k += 2;
        } else {
            k += 1;
        }
        let k2 = k.min(c.len());
        out.push(c[s..k2].iter().collect());
    }
    out
}

/// Schemas one word away that the grammar still allows.
pub fn near_schemas(text: &str) -> Vec<String> {
    let w = words(text);
    let mut pool: Vec<String> = ["int", "tstr", "any", "null", "?", "*", "+", "(", ")", "[", "]", "{", "}", "/", "//", "..", "...", "=>", "^ =>", ":", ",", "1", "\"a\"", "2*", "~", "&", "0*0", "<", ">"].iter().map(|s| s.to_string()).collect();
    for r in &cddl(text).0 {
        pool.push(r.name.clone());
    }
    let mut out = vec![];
    let mut put = |v: Vec<&str>| {
        let s = v.concat();
        if let Ok(r) = refparse::parse(&s) {
            if let Some(first) = r.first() {
                if first.rule.params.is_empty() {
                    let mut names: Vec<&str> = r.iter().map(|x| x.rule.name.as_str()).collect();
                    names.sort();
                    names.dedup();
                    if names.len() == r.len() {
                        out.push(s);
                    }
                }
            }
        }
    };
    for k in 0..w.len() {
        if w[k].trim().is_empty() {
            continue;
        }
        let base: Vec<&str> = w.iter().map(|x| x.as_str()).collect();
        let mut v = base.clone();
        v.remove(k);
        put(v);
        for p in &pool {
            if *p != w[k] {
                let mut v = base.clone();
                let sp = format!(" {p} ");
                v[k] = &sp;
                put(v);
                let mut v = base.clone();
                v.insert(k, &sp);
                put(v);
            }
        }
        // exchange with the next word
        if let Some(l) = (k + 1..w.len()).find(|l| !w[*l].trim().is_empty()) {
            let mut v = base.clone();
            v.swap(k, l);
            put(v);
        }
    }
    out
}

pub fn suites(tags: &[&str], thorough: bool) -> Vec<Suite<'static>> {
    let docs: Vec<&Doc> = DOCS.iter().filter(|d| tags.contains(&"all") || d.tags.split(' ').any(|x| tags.contains(&x))).collect();
    if docs.is_empty() {
        return vec![];
    }
    let mut items: Vec<(Schema, String, Arc<Vec<Val>>)> = vec![];
    let mut lists = vec![];
    for d in &docs {
        let base = d.values();
        let mut one = base.clone();
        for v in &base {
            one.extend(near(v, true));
        }
        let one = uniq(one);
        let mut wide = one.clone();
        if thorough {
            for v in &one {
                wide.extend(near(v, false));
            }
            wide = uniq(wide);
        }
        // everything one change away (in the thorough tier, two)
        for c in wide.chunks(20_000) {
            items.push((d.schema(), d.start(), Arc::new(vals(c.to_vec()))));
        }
        let few: Vec<V> = if thorough { one.clone() } else { one.iter().take(if one.len() > 60 { 60 } else { one.len() }).cloned().collect() };
        let mut few2 = base.clone();
        few2.extend(few);
        if !thorough {
            // spread over the whole value
            few2.extend(one.iter().step_by((one.len() / 40).max(1)).cloned());
        }
        lists.push((d.text, Arc::new(vals(uniq(few2)))));
    }
    let nvals: usize = items.iter().map(|x| x.2.len()).sum();
    let names: Vec<&str> = docs.iter().map(|d| d.name).collect();
    let n = items.len();
    let mut out = vec![suite(
        "documents",
        format!("{} realistic schemas ({}) x {nvals} values up to {} change(s) away from fitting data", docs.len(), names.join(", "), if thorough { 2 } else { 1 }),
        n,
        move |k, w| {
            let (s, start, v) = &items[k];
            w.sweep(s, start, v);
        },
    )];
    let chunks = 16;
    let n = lists.len() * chunks;
    out.push(suite("changed schemas", "every schema one word away that the grammar allows", n, move |k, w| {
        let (text, v) = &lists[k / chunks];
        let all = near_schemas(text);
        for s in all.iter().skip(k % chunks).step_by(chunks) {
            if w.stopped() {
                return;
            }
            let sc = cddl(s);
            let start = sc.0[0].name.clone();
            if let Some(p) = w.read_text(s.clone(), crate::refsem::read_errors(&sc)) {
                w.sweep_read(&sc, &p, &start, v);
            }
        }
    }));
    out
}

/// The harness's own data must fit.
pub fn selfcheck() -> Result<(), String> {
    for d in DOCS {
        let s = d.schema();
        for v in d.values() {
            let b = crate::refsem::Sem::new(&s).run(&d.start(), &v).bits;
            if b != crate::refsem::OK {
                return Err(format!("{}: {} {}", d.name, crate::refsem::show(b), diag(&v)));
            }
        }
    }
    Ok(())
}

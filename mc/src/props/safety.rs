//! Reading any text at all (C24).

use super::common::*;
use super::syntax;
use crate::corpus;
use std::sync::Arc;

/// No panic, no endless loop, a result of a kind that reading can have.
fn safe(text: &str, w: &mut Worker) -> u64 {
    w.st.schemas += 1;
    w.st.states += 1;
    w.st.traces += 4;
    w.st.steps += text.len() as u64;
    w.publish(&["F\n", text]);
    let before = allocs();
    let got = w.imp(|| read_all(text)).unwrap_or(PANIC);
    let spent = allocs() - before;
    w.outcome(got);
    if got & (PANIC | HANG | CRASH) != 0 {
        w.differ(Case::Safe { text: text.into() }, crate::refsem::OK | crate::refsem::PARSE | crate::refsem::SCHEMA | crate::refsem::GENERIC, got, "reading a text");
    }
    w.sample(|| serde_json::json!({"text": text, "result": show(got), "allocations": spent}));
    spent
}

fn sf(text: &str, w: &mut Worker) {
    safe(text, w);
}

/// Every character that means something somewhere, and a few that do not.
const ALL: &[&str] = &[
    " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/", "0", "1", "2", "7", "8", "9", ":", ";", "<", "=", ">", "?", "@", "A", "D", "E", "F", "H", "P", "U", "X", "[", "\\", "]", "^", "_", "`", "a", "b", "c", "d", "e", "f", "h", "i", "n", "p", "r", "t", "u", "x", "z", "{", "|", "}", "~", "\0",
    "\t", "\n", "\r", "\x0b", "\x0c", "\x1b", "\x7f", "\u{80}", "\u{85}", "\u{a0}", "é", "ß", "\u{300}", "\u{5d0}", "\u{200b}", "\u{2028}", "\u{d7ff}", "\u{e000}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "😀", "\u{10fffd}", "\u{10fffe}", "\u{10ffff}", "٣", "Ⅷ", "²",
];

const CTX: &[&str] = &[
    "#", "t=#", "t=[#]", "t={#}", "t=(#)", "t=1#", "t=a#", "t=\"#\"", "t='#'", "t=h'#'", "t=b64'#'", "t=\"#", "t='#", "t=h'#", "t=b64'#", "t=[1#]", "t={a:#}", "t={a#1}", "t#=1", "t=1;#", "t=a<#>", "t<#>=1", "t=1\n#", "t = a.#", "t = 1.#2", "t = -#", "t = 0#", "t = 0x#", "t = 0b#", "t = 1e#", "t = 1.5e#", "t = \"\\#\"", "t = \"a\\#", "t = \"\\u#\"", "t = \"\\u00#\"",
    "t = '\\#'", "t = \"\\ud83d#\"", "t = \"\\ud83d\\ude#\"", "t = [#* a]", "t = [1*# a]", "t = &#", "t = ~#", "#t = 1", "t = 1..#", "t = a .size #", "t = a .#", "t = (#", "t = [#", "t = {#", "t = a<#", "t<#", "é = #", "t = \"é#", "; é#",
];

/// Where a text can be cut so that words stay whole.
fn cuts(s: &str) -> Vec<usize> {
    let mut out = vec![0];
    let mut prev = ' ';
    for (i, c) in s.char_indices() {
        let word = |c: char| c.is_alphanumeric() || c == '-' || c == '.';
        if i > 0 && !(word(prev) && word(c)) {
            out.push(i);
        }
        prev = c;
    }
    out.push(s.len());
    out
}

fn documents() -> Vec<String> {
    let mut out: Vec<String> = corpus::DOCS.iter().map(|d| d.text.to_string()).collect();
    out.push(syntax::snippets().concat());
    out.push("t = [\"\\\"\\\\\\u00e9\\ud83d\\ude00é\", 'a\\'b\\\\', h'00 ff;\n', b64'AQI=', 0x1F, 0b101, -9223372036854775808, 18446744073709551615, -1.5e-300, 0.0, 1e5] ; é 😀\r\nu = a.b-c_d$@ .size (1 .. 2) / ~g<[x], {y => z}> / &(a: 1, \"b\" => 2) / &h\n".into());
    out
}

// ---------------------------------------------------------------- growth

/// A step of nesting: what comes before and after.
const WRAPS: &[(&str, &str)] = &[
    ("[", "]"), ("{", "}"), ("(", ")"), ("{a: ", "}"), ("[a: ", "]"), ("{", " => 1}"), ("[", " => 1]"), ("{1 => ", "}"), ("(", ", 1)"), ("(1, ", ")"), ("[* ", "]"), ("(? ", ")"), ("[2*3 ", "]"), ("{* tstr => ", "}"), ("(", " / 1)"), ("(1 / ", ")"), ("[", " // 1]"), ("(1 // ", ")"), ("(", "..2)"), ("[1 .. ", "]"), ("(a .size ", ")"), ("(", " .size 1)"),
    ("a<", ">"), ("a<1, ", ">"), ("a<", ", 1>"), ("~a<", ">"), ("&(", ")"), ("&(a: ", ")"), ("[~", "]"), ("[", ",]"), ("{\"k\" ^ => ", "}"), ("(", ": 1)"), ("{a: 1, ", "}"), ("[a, b, ", "]"),
    // closed wrongly or not at all
    ("[", ")"), ("(", "]"), ("{", ""), ("[", ""), ("(", ""), ("a<", ""), ("[a: ", ""), ("", "]"), ("(a, ", ""), ("&(", ""), ("(", ";\n)"),
];

const CORES: &[&str] = &["1", "", "a: 1", "\"", "?", "1 .. ", "a, b // c", "é", "'x", "2*", "1.5e", "=", "\"s\" => 1", "1,,"];

/// The work as the size grows: polynomial of a low degree, measured.
fn growth(name: &str, sizes: &[usize], text: &dyn Fn(usize) -> String, w: &mut Worker) {
    let mut last: Option<(usize, u64)> = None;
    for &d in sizes {
        if w.stopped() {
            return;
        }
        let t = text(d);
        let spent = safe(&t, w) + 100;
        if let Some((d0, s0)) = last {
            let limit = (d as f64 / d0 as f64).powi(4) * s0 as f64;
            if spent as f64 > limit {
                w.complain(
                    "the work grows faster than a polynomial",
                    &format!("at most {limit:.0} allocations at size {d} (there were {s0} at size {d0})"),
                    &format!("{spent}"),
                    serde_json::json!({"family": name, "size": d, "text": t.chars().take(400).collect::<String>()}),
                );
                return;
            }
        }
        last = Some((d, spent));
    }
}

const DEPTHS: &[usize] = &[2, 3, 4, 6, 8, 12, 16, 24, 32, 48, 64];
const LENGTHS: &[usize] = &[4, 6, 8, 12, 16, 24, 32, 48, 64, 96, 128, 256, 512, 1024];

/// What is said again and again, without nesting.
const AGAIN: &[&str] = &[
    " ", "\n", "\t", "\r\n", ";\n", "; c\n", ";", "a", "a ", "a,", "a, ", "1", "1 ", "1.", "1.5", "0", "0x", "0x1", "-", "-1", ".", "..", "...", "1..", "/", "//", "a /", "a / ", "a // ", "/ a", "=", "==", "=>", "a = 1\n", "a=1 ", "a=", ":", "a:", "a: 1,", "a: 1 ", "\"", "\"\"", "\"\" ", "\\", "\\\\", "\\\"", "\\u", "\\u0041", "\\ud83d\\ude00", "'", "''", "'' ", "\\'",
    "h'", "h'' ", "h'00' ", "b64'", "b64'AQ==' ", "00", "AQ==", "?", "? a ", "*", "* a ", "+", "2*", "2*3 ", "1*2*3*", "~", "~a ", "&", "&a ", "^", "a ^ => 1,", ".size ", "a .size ", "a.size", ".size 1 ", ".a", "a.", "a-", "$", "@", "_", "é", "😀", "\"é\" ", "<", "a<", "a<b> ", ">", "a>", "a,>", ")", "]", "}", "()", "[]", "[] ", "{}", "{} ", "(),", "(a)", "[a] ", "{a:1}",
    "a<b>,", "a\n=", "1e", "1e5", "e5", ",", ",,", " ,", "a ;\n", "1 / ", "1..2 / ", "[a]/", "x = a / b ; c\n", "x<a> = [a]\n", "x<y, z> = {y => z}\n", "x = (a, ? b // c)\n",
];

const AROUND: &[(&str, &str)] = &[("", ""), ("t = ", ""), ("t = [", "]"), ("t = {", "}"), ("t = (", ")"), ("t = \"", "\""), ("t = '", "'"), ("t = h'", "'"), ("t = b64'", "'"), ("t<", "> = 1"), ("t = a<", ">"), ("t = &(", ")"), ("t = 1", ""), ("t = [", ""), ("t = a", " b"), ("; ", "\nt = 1"), ("t = 1 .. ", ""), ("t", " = 1"), ("t = \"", ""), ("t = {a", " => 1}"), ("t = [(", "), 1]"), ("t = 0x", "")];

fn nests(s: &str) -> bool {
    s.contains(['<', '[', '(', '{', '~', '&'])
}

pub fn c24(thorough: bool) -> Vec<Suite<'static>> {
    let mut out = vec![];
    out.push(syntax::strings_suite("character strings of 1", ALL, 1, &[""], CTX, sf));
    out.push(syntax::strings_suite("character strings of 2", ALL, 2, &[""], CTX, sf));
    const CFEW: &[&str] = &["#", "t=#", "t=\"#", "t='#'", "t=[#]"];
    out.push(syntax::strings_suite("character strings of 3", ALL, 3, &[""], if thorough { CTX } else { &CFEW[1..3] }, sf));
    if thorough {
        const CLESS: &[&str] = &["t=#"];
        out.push(syntax::strings_suite("character strings of 4", ALL, 4, &[""], CLESS, sf));
    }
    const TCTX: &[&str] = &["t = #", "t = [#]", "#"];
    out.push(syntax::strings_suite("token strings of 2", syntax::TOKENS, 2, &[" ", ""], CTX, sf));
    out.push(syntax::strings_suite("token strings of 3", syntax::TOKENS, 3, &[" ", ""], if thorough { CTX } else { &CTX[..12] }, sf));
    out.push(syntax::strings_suite("token strings of 4", syntax::TOKENS, 4, &[" "], if thorough { TCTX } else { &TCTX[..1] }, sf));

    // every character there is
    const UCTX: &[&str] = &["#", "t = #", "t = \"#\"", "t = '#'", "; #\nt = 1", "a# = 1", "t = h'#'", "t = \"\\#\"", "t = 1#", "t = b64'#'"];
    out.push(suite("every character", format!("all 1112064 Unicode characters in {} places", if thorough { UCTX.len() } else { 6 }), 0x110000 / 0x400, move |k, w| {
        for c in (k as u32 * 0x400..(k as u32 + 1) * 0x400).filter_map(char::from_u32) {
            if w.stopped() {
                return;
            }
            for x in if thorough { UCTX } else { &UCTX[..6] } {
                safe(&x.replacen('#', c.encode_utf8(&mut [0; 4]), 1), w);
            }
        }
    }));

    out.push(syntax::long_literals(thorough, sf));
    // truncated texts
    let docs = Arc::new(documents());
    let nd = docs.len();
    const ENDS: &[&str] = &["", "\n", "]", ")", "}", ">", "\"", "'", "é", "0", ".", "\\", "=", ";", "^", "*", "/", " a = 1"];
    let total: usize = docs.iter().map(|d| d.chars().count()).sum();
    let d2 = docs.clone();
    let items: Arc<Vec<(usize, usize)>> = Arc::new(docs.iter().enumerate().flat_map(|(k, d)| (0..d.len()).step_by(64).map(move |i| (k, i))).collect());
    let it2 = items.clone();
    out.push(suite("truncated texts", format!("{nd} texts of {total} characters together, cut after and before each, {} endings", ENDS.len()), items.len(), move |n, w| {
        let (k, from) = it2[n];
        let d = &d2[k];
        for (i, _) in d.char_indices().filter(|(i, _)| (from..from + 64).contains(i)) {
            if w.stopped() {
                return;
            }
            for e in ENDS {
                safe(&format!("{}{e}", &d[..i]), w);
                safe(&format!("{e}{}", &d[i..]), w);
            }
        }
    }));
    // one character off
    let d2 = docs.clone();
    let every = if thorough { 1 } else { 7 };
    out.push(suite("one character off", format!("{nd} texts; each character left out, doubled, swapped with the next, replaced by (and preceded by) one of {}{}", ALL.len(), if thorough { "" } else { " (every seventh at each place)" }), items.len(), move |n, w| {
        let (k, from) = items[n];
        let d = &d2[k];
        for (i, c) in d.char_indices().filter(|(i, _)| (from..from + 64).contains(i)) {
            if w.stopped() {
                return;
            }
            let (a, b) = (&d[..i], &d[i + c.len_utf8()..]);
            safe(&format!("{a}{b}"), w);
            safe(&format!("{a}{c}{c}{b}"), w);
            if let Some(e) = b.chars().next() {
                safe(&format!("{a}{e}{c}{}", &b[e.len_utf8()..]), w);
            }
            for x in ALL.iter().skip(i % every).step_by(every) {
                safe(&format!("{a}{x}{b}"), w);
                safe(&format!("{a}{x}{c}{b}"), w);
            }
        }
    }));
    // spliced texts
    let parts: Arc<Vec<(String, Vec<usize>)>> = Arc::new(syntax::snippets().into_iter().map(|s| (cuts(&s), s)).map(|(c, s)| (s, c)).collect());
    let np = parts.len();
    out.push(suite("spliced texts", format!("every beginning of {np} rules with every end of another"), np * np, move |n, w| {
        let (a, b) = (&parts[n % np], &parts[n / np]);
        for &i in &a.1 {
            if w.stopped() {
                return;
            }
            for &j in &b.1 {
                safe(&format!("{}{}", &a.0[..i], &b.0[j..]), w);
            }
        }
    }));

    // numbers of any length
    let places = ["t = #", "t = -#", "t = [#* a]", "t = [*# a]", "t = [1*# a]", "t = [#*# a]", "t = 1..#", "t = -#..#", "t = uint .size #", "t = tstr .size (1..#)", "t = int .lt #", "t = int .gt -#", "t = {#: 1}", "t = {#* a => b}", "t = #.5", "t = 1.#", "t = 1e#", "t = 1.5e-#", "t = -#.#e#", "t = 0x#", "t = 0b#", "t = -0x#", "t = #.", "t = #..", "t = #e", "t = #a", "t = a<#>", "t = \"\\u#\"", "t = h'#'", "t = b64'#'", "t# = 1"];
    let digits = ["0", "1", "2", "7", "8", "9", "f", "F"];
    let top = if thorough { 700 } else { 400 };
    out.push(suite("numbers of any length", format!("{} places; 1 to {top} digits, each of {} after each of them; those around powers of two up to 2^130 and of ten up to 10^40", places.len(), digits.len()), top, move |n, w| {
        let put = |s: &str, w: &mut Worker| {
            for p in places {
                safe(&p.replace('#', s), w);
            }
        };
        for a in digits {
            for b in if n < 80 || thorough { &digits[..] } else { &digits[..2] } {
                put(&format!("{a}{}", b.repeat(n)), w);
            }
        }
        if n < 127 {
            for x in [1u128 << n, 10u128.pow(n.min(38) as u32)] {
                for d in -4i128..=4 {
                    let v = x.wrapping_add_signed(d);
                    put(&format!("{v}"), w);
                    put(&format!("{v:x}"), w);
                    put(&format!("{v:b}"), w);
                    put(&format!("00{v}"), w);
                }
            }
        }
    }));
    // escapes
    out.push(suite("escapes", "every \\uXXXX in text and byte strings, alone, cut short, before and after halves of pairs; every two bytes in h'' and up to four characters in b64''", 0x100, |k, w| {
        for l in 0..0x100u32 {
            if w.stopped() {
                return;
            }
            let h = format!("{:02x}{l:02X}", k);
            for s in [
                format!("t = \"\\u{h}\""), format!("t = '\\u{h}'"), format!("t = \"\\ud800\\u{h}\""), format!("t = \"\\u{h}\\udc00\""), format!("t = \"\\udbff\\u{h}"), format!("t = \"\\u{h}"), format!("t = \"\\u{}\"", &h[..3]), format!("t = \"\\u{{{h}}}\""), format!("t = \"\\u{h}é\""), format!("t = {{\"\\u{h}\": 1}}"), format!("t = tstr .regexp \"\\u{h}\""), format!("t = tstr .regexp \"\\\\x{{{h}}}\""),
            ] {
                safe(&s, w);
            }
            let (a, b) = (k as u8 as char, l as u8 as char);
            for s in [format!("t = h'{a}{b}'"), format!("t = h'0{a}{b}'"), format!("t = b64'{a}{b}=='"), format!("t = b64'AA{a}{b}'"), format!("t = b64'{a}{b}"), format!("t = '{a}{b}'"), format!("t = \"\\{a}{b}\""), format!("t = tstr .regexp \"{a}{b}\""), format!("t = 1 .{a}{b} 2"), format!("t = {a}{b}")] {
                safe(&s, w);
            }
        }
    }));
    // operators of all kinds with operands of all kinds
    let ops = ["..", "...", ".size", ".lt", ".le", ".gt", ".ge", ".eq", ".ne", ".default", ".regexp", ".pcre", ".bits", ".cbor", ".cborseq", ".within", ".and", ".unknown", ".a.b"];
    let operands: Vec<&str> = vec![
        "0", "1", "-1", "18446744073709551615", "-9223372036854775808", "1.5", "-1e300", "\"\"", "\"a\"", "\"[\"", "\"(\"", "\"*\"", "\"a{9999}\"", "\"\\\\\"", "'x'", "h''", "h'ff'", "b64''", "int", "uint", "tstr", "bstr", "any", "float", "nil", "undefined-name", "a<b>", "~a", "~int", "&a", "&(a: 1)", "&(a: b)", "&()", "(1)", "(1..2)", "(2..1)", "(1 / 2)", "(1...1)", "(0..18446744073709551615)", "(-1..1)", "(1.5..2)", "(\"a\"..\"b\")",
        "[]", "[a]", "{}", "{a: 1}", "()", "(int)", "((1..2))", "((((1))))", "(a .size 1)", "(a .size (1 .size 1))", "0x0", "0b1", "t", "t<t>", "$a", "$$a",
    ];
    let no = operands.len();
    out.push(suite("operators", format!("{no} x {} x {no} operands and operators, in 6 places", ops.len()), no * no, move |n, w| {
        let (a, b) = (operands[n % no], operands[n / no]);
        for o in ops {
            for p in ["t = #\n", "t = [#]\n", "t = {a: #}\n", "t = {# => 1}\n", "t<a> = #\n", "t = 1 / (#) / [* #]\na = t\n"] {
                safe(&p.replace('#', &format!("{a} {o} {b}")), w);
            }
        }
    }));
    // regular expressions are compiled while reading, or not
    const RX: &[&str] = &["a", ".", "*", "+", "?", "(", ")", "[", "]", "{", "}", "{2}", "{2,", "|", "^", "$", "-", "\\\\d", "\\\\p{L}", "\\\\", "(?i)", "(?<n>", "(?=", "\\\\1", "[^", "&&", "[[:alpha:]]", "é", "\\u0000", "{1000}"];
    out.push(syntax::strings_suite("patterns of 3", RX, 3, &[""], &["t = tstr .regexp \"#\"", "t = tstr .pcre \"#\""], sf));
    if thorough {
        out.push(syntax::strings_suite("patterns of 4", RX, 4, &[""], &["t = tstr .regexp \"#\""], sf));
    }

    // growth
    let nw = WRAPS.len();
    out.push(suite("nested constructs", format!("{nw} constructs nested in one another by pairs (2 to 64 deep; in the quick tier 32 unless alike), {} things inside, {} texts around them", CORES.len(), 3), nw * nw, move |n, w| {
        let (x, y) = (WRAPS[n % nw], WRAPS[n / nw]);
        for core in if thorough || n % nw == n / nw { CORES } else { &CORES[..4] } {
            for (a, b) in [("t = ", "\n"), ("t = [", "]\n"), ("t = [", "")] {
                let text = |d: usize| {
                    let mut s = String::from(a);
                    for k in 0..d {
                        s += if k % 2 == 0 { x.0 } else { y.0 };
                    }
                    s += core;
                    for k in (0..d).rev() {
                        s += if k % 2 == 0 { x.1 } else { y.1 };
                    }
                    s + b
                };
                let depths = if thorough || n % nw == n / nw { DEPTHS } else { &DEPTHS[..9] };
                growth(&format!("{a}{}{}..{core}..{}{}{b}", x.0, y.0, y.1, x.1), depths, &text, w);
            }
        }
    }));
    if thorough {
        out.push(suite("nested constructs by threes", format!("{nw} constructs nested by threes, {} things inside", CORES.len()), nw * nw * nw, move |n, w| {
            let l = [WRAPS[n % nw], WRAPS[n / nw % nw], WRAPS[n / nw / nw]];
            for core in &CORES[..6] {
                let text = |d: usize| {
                    let mut s = String::from("t = [");
                    for k in 0..d {
                        s += l[k % 3].0;
                    }
                    s += core;
                    for k in (0..d).rev() {
                        s += l[k % 3].1;
                    }
                    s + "]\n"
                };
                growth(&format!("{l:?} {core}"), &[3, 6, 9, 12, 18, 24, 36, 48], &text, w);
            }
        }));
    }
    let na = AGAIN.len();
    out.push(suite("repeated pieces", format!("{na} pieces, alone and in turn with each other, 4 to 1024 times (64 if they nest), in {} places", AROUND.len()), na * na, move |n, w| {
        let (x, y) = (AGAIN[n % na], AGAIN[n / na]);
        if x == y && n % na != n / na {
            return;
        }
        let top = if nests(x) || nests(y) { 64 } else if n % na == n / na || thorough { 1024 } else { 96 };
        let sizes: Vec<usize> = LENGTHS.iter().copied().filter(|l| *l <= top).collect();
        for (a, b) in AROUND {
            let text = |d: usize| {
                let mut s = String::from(*a);
                for k in 0..d {
                    s += if k % 2 == 0 { x } else { y };
                }
                s + b
            };
            growth(&format!("{a}{x}{y}..{b}"), &sizes, &text, w);
        }
    }));
    out
}

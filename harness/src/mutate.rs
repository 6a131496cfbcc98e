//! Hostile inputs: truncations, token- and character-level damage, grafts, odd Unicode.
use crate::gen::*;
use crate::lex;
use crate::rng::Rng;

const FRAGS: &[&str] = &[
    "(", ")", "(;", ";)", ";;", "\"", "\"abc", "\\", "(module", "(func", "(param", "(param $x", "(result", "(local", "(local $x i32", "(type",
    "(import", "(import \"a\"", "(export", "(export \"x\" (func", "(global", "(global (mut", "(memory", "(memory (data", "(table", "(table funcref (elem",
    "(elem", "(elem declare", "(data", "(data (memory 0", "(start", "(offset", "(item", "(then", "(else", "(if", "(block", "(loop", "if", "else", "end",
    "block", "loop", "then", "i32.const", "i32.add", "call $f", "br 0", "br_table 0 1", "$", "$x", "$ ", "0x", "0x_", "1_", "1__0", "-", "+", "+0x", "1.", "1e",
    "1e+", ".5", "inf", "nan", "nan:", "nan:0x", "offset=", "offset=1", "align", "align=0x", "funcref", "externref", "i32", "v128", "mut", "shared", "func",
    "extern", "declare", "@custom", "#", ",", "[", "]", "{", "}", "'", "\u{0}", "\u{7f}", "é", "中文", "😀", "\u{feff}", "\u{2028}", "\u{a0}", "\u{301}",
    "\r", "\r\n", "\n", "\t", "\u{b}", "\u{c}", "(;;)", "(; (; ;)", ";", ";\n", "\"\\u{110000}\"", "\"\\u{\"", "\"\\", "\"\n", "(module)", "(func)", "()",
    "((", "))", "(()", "(module (func) (func))", "(type $t (func))", "(type 0)", "(local.get 0)", "99999999999999999999", "-1", "memory.copy", "select",
];
pub fn soup(rng: &mut Rng, max: usize) -> String {
    let n = rng.below(max + 1);
    let mut s = String::new();
    for _ in 0..n {
        s.push_str(*rng.pick(FRAGS));
        if rng.chance(1, 2) {
            s.push_str(*rng.pick(&[" ", "\n", "  ", "\t", "\r\n"]));
        }
    }
    s
}
pub fn char_soup(rng: &mut Rng, max: usize) -> String {
    const CH: &[char] = &['(', ')', ';', '"', '$', '\\', ' ', '\n', '\r', '0', '1', 'x', '_', '.', '=', 'a', 'i', 'f', 'n', 'e', '+', '-', 'é', '😀', '\u{0}', '\'', ','];
    let n = rng.below(max + 1);
    (0..n).map(|_| *rng.pick(CH)).collect()
}
fn boundary(s: &str, mut i: usize) -> usize {
    i = i.min(s.len());
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}
/// One random edit.
pub fn damage(rng: &mut Rng, s: &str) -> String {
    let toks: Vec<(usize, usize)> = lex::lex(s).iter().map(|l| (l.start, l.start + l.text.len())).collect();
    match rng.below(10) {
        0 => s[..boundary(s, rng.below(s.len() + 1))].to_string(),
        1 => s[boundary(s, rng.below(s.len() + 1))..].to_string(),
        2 | 3 if !toks.is_empty() => {
            let t = *rng.pick(&toks);
            format!("{}{}", &s[..t.0], &s[t.1..])
        }
        4 if !toks.is_empty() => {
            let t = *rng.pick(&toks);
            format!("{}{}{}", &s[..t.1], &s[t.0..t.1], &s[t.1..])
        }
        5 | 6 => {
            let p = if toks.is_empty() { 0 } else { rng.pick(&toks).0 };
            let f = *rng.pick(FRAGS);
            let sp = if rng.chance(1, 2) { " " } else { "" };
            format!("{}{sp}{f}{sp}{}", &s[..p], &s[p..])
        }
        7 => {
            let p = boundary(s, rng.below(s.len() + 1));
            let f = *rng.pick(FRAGS);
            format!("{}{f}{}", &s[..p], &s[p..])
        }
        8 if toks.len() > 2 => {
            let a = *rng.pick(&toks);
            let b = *rng.pick(&toks);
            let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
            if a.1 <= b.0 {
                format!("{}{}{}{}{}", &s[..a.0], &s[b.0..b.1], &s[a.1..b.0], &s[a.0..a.1], &s[b.1..])
            } else {
                s.to_string()
            }
        }
        _ if toks.len() > 1 => {
            // replace one token
            let t = *rng.pick(&toks);
            format!("{}{}{}", &s[..t.0], *rng.pick(FRAGS), &s[t.1..])
        }
        _ => s.to_string(),
    }
}
pub fn valid(rng: &mut Rng) -> String {
    let o = rand_opts(rng);
    let d = generate(rng, o);
    let l = rand_layout(rng);
    render(&d, rng, &l).text
}
pub fn corpus() -> &'static [(String, String)] {
    static C: std::sync::OnceLock<Vec<(String, String)>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut v: Vec<(String, String)> = std::fs::read_dir(crate::report::verif_dir().join("corpus"))
            .map(|d| {
                d.flatten()
                    .filter_map(|e| Some((e.file_name().to_string_lossy().to_string(), std::fs::read_to_string(e.path()).ok()?)))
                    .collect()
            })
            .unwrap_or_default();
        v.sort();
        v
    })
}
/// Deep nesting, closed, cut off or interrupted.
pub fn nested(rng: &mut Rng) -> String {
    const FAMS: &[&str] = &[
        "(block ", "(loop $l ", "(if ", "(if (i32.const 1) (then ", "(if (i32.const 1) (then) (else ", "(i32.add (i32.const 0) ", "(call $f ", "(drop ", "(", "block ",
        "if ", "loop ", "(param ", "(then ", "(elem (item ", "(data (offset ", "(block (result ", "if else ", "(select ", "(block (type ", "(global (mut ", "(;",
        "(func ", "(module ", "(import \"a\" \"b\" (func ", "(table (elem ", "(export \"x\" ",
    ];
    let depth = *rng.pick(&[5, 20, 60, 150, 400]);
    let mut s = String::from(*rng.pick(&["(module (func ", "(module ", ""]));
    let two = rng.chance(1, 3);
    let (a, b) = (*rng.pick(FAMS), *rng.pick(FAMS));
    for i in 0..depth {
        s.push_str(if two && i % 2 == 1 { b } else { a });
    }
    let open = s.matches('(').count();
    match rng.below(4) {
        0 => {}
        1 => s.push_str(&")".repeat(open)),
        2 => s.push_str(&format!("] {}", ")".repeat(open / 2))),
        _ => {
            s.push_str(&" end".repeat(depth));
            s.push_str(&")".repeat(open + rng.below(3)));
        }
    }
    s
}
/// A hostile document: (text, kind of workload).
pub fn hostile(rng: &mut Rng) -> (String, &'static str) {
    match rng.below(20) {
        0 => (soup(rng, 12), "soup"),
        1 => (char_soup(rng, 40), "char-soup"),
        2 if rng.chance(1, 8) => (nested(rng), "deeply-nested"),
        2 => (valid(rng), "valid"),
        3 | 4 if !corpus().is_empty() => {
            let mut s = rng.pick(corpus()).1.clone();
            if s.len() > 4000 {
                // keep one region of a big file
                let a = boundary(&s, rng.below(s.len()));
                let b = boundary(&s, (a + 2500).min(s.len()));
                s = s[a..b].to_string();
            }
            for _ in 0..rng.below(4) {
                s = damage(rng, &s);
            }
            (s, "corpus-damaged")
        }
        _ => {
            let mut s = valid(rng);
            for _ in 0..rng.range(1, 4) {
                s = damage(rng, &s);
            }
            (s, "valid-damaged")
        }
    }
}

//! Independent lexer for the WebAssembly text format (written from the spec,
//! shares no code with the tool under test).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum LK {
    Ws,
    LineComment,
    BlockComment,
    LParen,
    RParen,
    Str,
    /// maximal run of idchars
    Atom,
    /// anything else (unterminated comment/string, reserved punctuation, non-ASCII)
    Other,
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Lexeme<'a> {
    pub kind: LK,
    pub text: &'a str,
    pub start: usize,
}
pub fn is_idchar(c: char) -> bool {
    matches!(c, '0'..='9' | 'A'..='Z' | 'a'..='z'
        | '!' | '#' | '$' | '%' | '&' | '\'' | '*' | '+' | '-' | '.' | '/' | ':' | '<' | '=' | '>'
        | '?' | '@' | '\\' | '^' | '_' | '`' | '|' | '~')
}
pub fn lex(src: &str) -> Vec<Lexeme<'_>> {
    let b = src.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let st = i;
        let c = b[i];
        let kind = match c {
            b' ' | b'\t' | b'\n' | b'\r' => {
                while i < b.len() && matches!(b[i], b' ' | b'\t' | b'\n' | b'\r') {
                    i += 1;
                }
                LK::Ws
            }
            b';' if b.get(i + 1) == Some(&b';') => {
                while i < b.len() && b[i] != b'\n' && !(b[i] == b'\r' && b.get(i + 1) == Some(&b'\n')) {
                    i += 1;
                }
                LK::LineComment
            }
            b'(' if b.get(i + 1) == Some(&b';') => {
                let mut depth = 0usize;
                let mut closed = false;
                while i < b.len() {
                    if b[i] == b'(' && b.get(i + 1) == Some(&b';') {
                        depth += 1;
                        i += 2;
                    } else if b[i] == b';' && b.get(i + 1) == Some(&b')') {
                        depth -= 1;
                        i += 2;
                        if depth == 0 {
                            closed = true;
                            break;
                        }
                    } else {
                        i += 1;
                    }
                }
                if closed {
                    LK::BlockComment
                } else {
                    LK::Other
                }
            }
            b'(' => {
                i += 1;
                LK::LParen
            }
            b')' => {
                i += 1;
                LK::RParen
            }
            b'"' => {
                i += 1;
                let mut ok = false;
                while i < b.len() {
                    match b[i] {
                        b'"' => {
                            i += 1;
                            ok = true;
                            break;
                        }
                        b'\\' => i += 2,
                        b'\n' | b'\r' => break,
                        _ => i += 1,
                    }
                }
                i = i.min(b.len());
                while !src.is_char_boundary(i) {
                    i += 1;
                }
                if ok {
                    LK::Str
                } else {
                    LK::Other
                }
            }
            _ => {
                let ch = src[i..].chars().next().unwrap();
                if is_idchar(ch) {
                    while i < b.len() && is_idchar(b[i] as char) {
                        i += 1;
                    }
                    LK::Atom
                } else {
                    i += ch.len_utf8();
                    LK::Other
                }
            }
        };
        out.push(Lexeme { kind, text: &src[st..i], start: st });
    }
    out
}
/// Non-whitespace lexemes (comments included).
pub fn significant(src: &str) -> Vec<Lexeme<'_>> {
    lex(src).into_iter().filter(|l| l.kind != LK::Ws).collect()
}

//! Reference lexer and token vocabulary.  Written from the WebIDL lexical grammar and the
//! doc comments of the public node types; it shares no code with the library under test.

pub const PUNCT: &[&str] = &[
    "(", ")", "[", "]", "{", "}", ",", "-", ".", "...", ":", ";", "<", "=", ">", "?", "*",
];
pub const WORDS: &[&str] = &[
    "or", "optional", "async", "attribute", "callback", "const", "deleter", "dictionary", "enum",
    "getter", "includes", "inherit", "interface", "iterable", "maplike", "namespace", "partial",
    "required", "setlike", "setter", "static", "stringifier", "typedef", "unrestricted", "symbol",
    "-Infinity", "ByteString", "DOMString", "FrozenArray", "Infinity", "NaN", "USVString", "any",
    "boolean", "byte", "double", "false", "float", "long", "null", "object", "octet", "sequence",
    "short", "true", "unsigned", "undefined", "record", "ArrayBuffer", "DataView", "Int8Array",
    "Int16Array", "Int32Array", "Uint8Array", "Uint16Array", "Uint32Array", "Uint8ClampedArray",
    "Float32Array", "Float64Array", "ArrayBufferView", "BufferSource", "Promise", "Error",
    "readonly", "mixin", "implements", "legacycaller", "constructor",
];
/// Reserved words WebIDL allows as argument / attribute / operation names.
pub const ARG_KW: &[&str] = &[
    "async", "attribute", "callback", "const", "constructor", "deleter", "dictionary", "enum",
    "getter", "includes", "inherit", "interface", "iterable", "maplike", "mixin", "namespace",
    "partial", "readonly", "required", "setlike", "setter", "static", "stringifier", "typedef",
    "unrestricted",
];
pub const ATTR_KW: &[&str] = &["async", "required"];
pub const OP_KW: &[&str] = &["includes"];

pub const IDENT: u8 = 200;
pub const STR: u8 = 201;
pub const DEC: u8 = 202;
pub const HEX: u8 = 203;
pub const OCT: u8 = 204;
pub const FLOAT: u8 = 205;
pub const OTHER: u8 = 206;

pub fn kind_of(s: &str) -> u8 {
    if let Some(i) = PUNCT.iter().position(|x| *x == s) {
        return i as u8;
    }
    if let Some(i) = WORDS.iter().position(|x| *x == s) {
        return (PUNCT.len() + i) as u8;
    }
    panic!("not a terminal: {}", s)
}
pub fn word_kind(s: &str) -> Option<u8> {
    // WORDS is short; identifiers are mostly short too
    WORDS
        .iter()
        .position(|x| *x == s)
        .map(|i| (PUNCT.len() + i) as u8)
}
pub fn term_text(k: u8) -> &'static str {
    let k = k as usize;
    if k < PUNCT.len() {
        PUNCT[k]
    } else {
        WORDS[k - PUNCT.len()]
    }
}
pub fn nterms() -> usize {
    PUNCT.len() + WORDS.len()
}
/// is this token spelled like an identifier (an identifier proper or a reserved word)?
pub fn name_like(k: u8) -> bool {
    k == IDENT
        || (k as usize >= PUNCT.len()
            && (k as usize) < nterms()
            && WORDS[k as usize - PUNCT.len()] != "-Infinity")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok<'a> {
    pub k: u8,
    pub src: &'a str,
    pub val: &'a str,
}

fn is_id(b: u8) -> bool {
    b.is_ascii_alphanumeric() || b == b'_' || b == b'-'
}
fn digits(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && b[i].is_ascii_digit() {
        i += 1;
    }
    i
}
pub fn match_int(b: &[u8]) -> Option<(usize, u8)> {
    let mut i = 0;
    if b.first() == Some(&b'-') {
        i = 1;
    }
    match b.get(i) {
        Some(b'1'..=b'9') => Some((digits(b, i), DEC)),
        Some(b'0') => {
            if matches!(b.get(i + 1), Some(b'x') | Some(b'X')) {
                let mut j = i + 2;
                while j < b.len() && b[j].is_ascii_hexdigit() {
                    j += 1;
                }
                if j > i + 2 {
                    return Some((j, HEX));
                }
            }
            let mut j = i + 1;
            while j < b.len() && (b'0'..=b'7').contains(&b[j]) {
                j += 1;
            }
            Some((j, OCT))
        }
        _ => None,
    }
}
pub fn match_float(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    if b.first() == Some(&b'-') {
        i = 1;
    }
    let exp = |i: usize| -> Option<usize> {
        if !matches!(b.get(i), Some(b'e') | Some(b'E')) {
            return None;
        }
        let mut j = i + 1;
        if matches!(b.get(j), Some(b'+') | Some(b'-')) {
            j += 1;
        }
        let e = digits(b, j);
        if e > j {
            Some(e)
        } else {
            None
        }
    };
    let d = digits(b, i);
    if b.get(d) == Some(&b'.') {
        let e = digits(b, d + 1);
        if d > i || e > d + 1 {
            return Some(exp(e).unwrap_or(e));
        }
    }
    if d > i {
        return exp(d);
    }
    None
}
/// length of the identifier (with its escaping underscore) at the start of `b`
pub fn match_ident(b: &[u8]) -> Option<usize> {
    let i = if b.first() == Some(&b'_') { 1 } else { 0 };
    if !b.get(i).map_or(false, |c| c.is_ascii_alphabetic()) {
        return None;
    }
    let mut j = i + 1;
    while j < b.len() && is_id(b[j]) {
        j += 1;
    }
    Some(j)
}
/// length of the white space and comments at the start of `b`
pub fn skip_trivia(b: &[u8]) -> usize {
    let mut i = 0;
    loop {
        match b.get(i) {
            Some(b' ') | Some(b'\t') | Some(b'\n') | Some(b'\r') => i += 1,
            Some(b'/') if b.get(i + 1) == Some(&b'/') => {
                i += 2;
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            Some(b'/') if b.get(i + 1) == Some(&b'*') => {
                let mut j = i + 2;
                loop {
                    if j + 1 >= b.len() {
                        return i;
                    }
                    if b[j] == b'*' && b[j + 1] == b'/' {
                        break;
                    }
                    j += 1;
                }
                i = j + 2;
            }
            _ => return i,
        }
    }
}
/// the next token after the leading trivia: (token, offset of its first byte)
pub fn next_tok(text: &str, at: usize) -> Option<(Tok<'_>, usize)> {
    let all = text.as_bytes();
    let o = at + skip_trivia(&all[at..]);
    if o >= all.len() {
        return None;
    }
    let b = &all[o..];
    let mk = |k: u8, len: usize| {
        let s = &text[o..o + len];
        (Tok { k, src: s, val: s }, o)
    };
    let fl = match_float(b);
    let it = match_int(b);
    let num = match (fl, it) {
        (Some(f), Some((i, k))) => Some(if f > i { (f, FLOAT) } else { (i, k) }),
        (Some(f), None) => Some((f, FLOAT)),
        (None, x) => x,
    };
    if let Some((len, k)) = num {
        return Some(mk(k, len));
    }
    if let Some(len) = match_ident(b) {
        let s = &text[o..o + len];
        if b[0] == b'_' {
            return Some((Tok { k: IDENT, src: s, val: &s[1..] }, o));
        }
        return Some(mk(word_kind(s).unwrap_or(IDENT), len));
    }
    if b[0] == b'"' {
        if let Some(e) = b[1..].iter().position(|c| *c == b'"') {
            let s = &text[o..o + e + 2];
            return Some((Tok { k: STR, src: s, val: &text[o + 1..o + 1 + e] }, o));
        }
    }
    if b.starts_with(b"-Infinity") && !b.get(9).map_or(false, |c| is_id(*c)) {
        return Some(mk(kind_of("-Infinity"), 9));
    }
    if b.starts_with(b"...") {
        return Some(mk(kind_of("..."), 3));
    }
    let c = text[o..].chars().next().unwrap();
    let len = c.len_utf8();
    let s = &text[o..o + len];
    if let Some(i) = PUNCT.iter().position(|x| *x == s) {
        return Some(mk(i as u8, len));
    }
    Some(mk(OTHER, len))
}
pub fn lex<'a>(text: &'a str, out: &mut Vec<Tok<'a>>) {
    out.clear();
    let mut at = 0;
    while let Some((t, o)) = next_tok(text, at) {
        at = o + t.src.len();
        out.push(t);
    }
}

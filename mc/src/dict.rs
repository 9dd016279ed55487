//! The words, strings and numbers that occur in the library's own source and in its sample files: input
//! vocabulary only (magic names, texts and sizes become part of the explored space).  No verdict depends
//! on how the source is written.
use crate::tok::*;

#[derive(Default)]
pub struct Dict {
    /// identifiers: anything that looks like a name in the source or the samples
    pub words: Vec<&'static str>,
    /// names inside string literals of the non-test source that are no terminal
    pub magic: Vec<&'static str>,
    /// contents of string literals of the non-test source (no quotes inside)
    pub strings: Vec<&'static str>,
    /// numbers in the non-test source, and simple products and shifts of them
    pub ints: Vec<usize>,
}
fn leak(s: String) -> &'static str { Box::leak(s.into_boxed_str()) }
fn files(dir: &str, ext: &str, out: &mut Vec<String>) {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.is_dir() {
            files(&p.display().to_string(), ext, out);
        } else if p.extension().map_or(false, |e| e == ext) {
            if let Ok(s) = std::fs::read_to_string(&p) { out.push(s) }
        }
    }
}
fn names(s: &str) -> impl Iterator<Item = &str> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '-'))
        .map(|w| w.trim_matches(|c| c == '-'))
        .filter(|w| w.len() <= 60 && match_ident(w.as_bytes()) == Some(w.len()))
}
fn literals(s: &str) -> Vec<String> {
    let b: Vec<char> = s.chars().collect();
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        match b[i] {
            '/' if b.get(i + 1) == Some(&'/') => {
                while i < b.len() && b[i] != '\n' { i += 1 }
            }
            '\'' if b.get(i + 2) == Some(&'\'') => i += 3,
            '\'' if b.get(i + 1) == Some(&'\\') && b.get(i + 3) == Some(&'\'') => i += 4,
            '"' => {
                let mut t = String::new();
                i += 1;
                while i < b.len() && b[i] != '"' {
                    if b[i] == '\\' && i + 1 < b.len() {
                        i += 1;
                        match b[i] {
                            'n' => t.push('\n'),
                            't' => t.push('\t'),
                            'r' => t.push('\r'),
                            '0' => t.push('\0'),
                            'u' => {
                                let h: String = b[i..].iter().skip(2).take_while(|c| **c != '}').collect();
                                if let Some(c) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { t.push(c) }
                                i += h.len() + 2;
                            }
                            c => t.push(c),
                        }
                    } else {
                        t.push(b[i]);
                    }
                    i += 1;
                }
                i += 1;
                v.push(t);
            }
            _ => i += 1,
        }
    }
    v
}
fn int(s: &str) -> Option<usize> {
    let t: String = s.chars().filter(|c| *c != '_').collect();
    let cut = t.find(|c: char| "ui".contains(c)).unwrap_or(t.len());
    match t.strip_prefix("0x") {
        Some(h) => usize::from_str_radix(h, 16).ok(),
        None => t[..cut].parse().ok(),
    }
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        use std::collections::BTreeSet;
        let mut src = vec![];
        files("/repo/src", "rs", &mut src);
        let mut defs = vec![];
        files("/repo/tests/defs", "webidl", &mut defs);
        let (mut words, mut magic, mut strings, mut ints) = (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        for s in &src {
            let main = s.split("#[cfg(test)]").next().unwrap();
            names(s).for_each(|w| { words.insert(w.to_string()); });
            for l in literals(main) {
                names(&l).filter(|w| word_kind(w).is_none()).for_each(|w| { magic.insert(w.to_string()); });
                if !l.contains('"') && l.len() < 200 { strings.insert(l); }
            }
            let code: String = main.lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n");
            let code = code.as_str();
            let toks: Vec<&str> = code.split(|c: char| c.is_whitespace() || "()[]{},;:+-=!|&?.'\"".contains(c)).filter(|t| !t.is_empty()).collect();
            for (i, t) in toks.iter().enumerate() {
                for u in t.split(|c| "*<>".contains(c)) {
                    ints.extend(int(u));
                }
                let x = if i > 0 { int(toks[i - 1]) } else { None };
                let y = toks.get(i + 1).and_then(|t| int(t));
                if let (Some(x), Some(y)) = (x, y) {
                    if *t == "*" { ints.extend(x.checked_mul(y)); }
                    if *t == "<<" && y < 40 { ints.extend(x.checked_mul(1 << y)); }
                }
            }
        }
        for s in &defs {
            names(s).for_each(|w| { words.insert(w.to_string()); });
        }
        let ints = ints.into_iter().filter(|n| *n > 1 && *n <= 2_200_000).collect();
        let ok = |v: BTreeSet<String>| v.into_iter().map(leak).collect::<Vec<_>>();
        Dict { words: ok(words), magic: ok(magic), strings: ok(strings), ints }
    })
}
/// each number of the source and its neighbours, up to `top`
pub fn sizes(top: usize) -> impl Iterator<Item = usize> {
    dict().ints.iter().flat_map(|n| [n - 1, *n, n + 1]).filter(move |n| *n <= top)
}

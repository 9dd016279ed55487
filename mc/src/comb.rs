//! C20: the generic building blocks, applied to element parsers of the library and of our own, against
//! a small interpreter of what they are documented to do.
use crate::eng::*;
use crate::props2::*;
use crate::tok::*;
use crate::walk::*;
use weedle::common::*;
use weedle::types::MayBeNull;
use weedle::{term, Parse};

/// what a building block is made of
#[derive(Clone, Debug)]
pub enum X {
    A,
    Ab,
    Id,
    Term(&'static str),
    Opt(Box<X>),
    Bx(Box<X>),
    Many(Box<X>),
    Seq(Vec<X>),
    Wrap(&'static str, Box<X>, &'static str),
    Null(Box<X>),
    Sep(Box<X>, Box<X>),
    Sep1(Box<X>, Box<X>),
}
/// the result of a block, as text
pub trait Val {
    fn val(&self, o: &mut String);
    fn x() -> X;
}

// ---- element parsers of our own, implementing the public trait

/// one `a`, no white space
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct A;
impl<'a> Parse<'a> for A {
    fn parse(i: &'a str) -> weedle::IResult<&'a str, Self> {
        match i.strip_prefix('a') {
            Some(r) => Ok((r, A)),
            None => Err(weedle::Err::Error((i, weedle::ErrorKind::Tag))),
        }
    }
}
impl Val for A {
    fn val(&self, o: &mut String) { o.push('a') }
    fn x() -> X { X::A }
}
/// `ab`, else `b`, no white space; remembers the text it read
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Ab<'a>(&'a str);
impl<'a> Parse<'a> for Ab<'a> {
    fn parse(i: &'a str) -> weedle::IResult<&'a str, Self> {
        for t in ["ab", "b"] {
            if let Some(r) = i.strip_prefix(t) {
                return Ok((r, Ab(&i[..t.len()])));
            }
        }
        Err(weedle::Err::Error((i, weedle::ErrorKind::Tag)))
    }
}
impl<'a> Val for Ab<'a> {
    fn val(&self, o: &mut String) { o.push_str(self.0) }
    fn x() -> X { X::Ab }
}
impl<'a> Val for Identifier<'a> {
    fn val(&self, o: &mut String) { o.push('i'); o.push_str(self.0); o.push(';') }
    fn x() -> X { X::Id }
}
/// a separator of our own (needs Default)
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Bar;
impl<'a> Parse<'a> for Bar {
    fn parse(i: &'a str) -> weedle::IResult<&'a str, Self> {
        match i.strip_prefix('|') {
            Some(r) => Ok((r, Bar)),
            None => Err(weedle::Err::Error((i, weedle::ErrorKind::Tag))),
        }
    }
}
impl Val for Bar {
    fn val(&self, o: &mut String) { o.push('|') }
    fn x() -> X { X::Term("|") }
}
impl Val for term::Comma {
    fn val(&self, o: &mut String) { o.push(',') }
    fn x() -> X { X::Term(",") }
}
impl Val for term::Or {
    fn val(&self, o: &mut String) { o.push_str("or") }
    fn x() -> X { X::Term("or") }
}
impl<T: Val> Val for Option<T> {
    fn val(&self, o: &mut String) {
        match self {
            Some(t) => { o.push('+'); t.val(o) }
            None => o.push('~'),
        }
    }
    fn x() -> X { X::Opt(Box::new(T::x())) }
}
impl<T: Val> Val for Box<T> {
    fn val(&self, o: &mut String) { (**self).val(o) }
    fn x() -> X { X::Bx(Box::new(T::x())) }
}
fn list<T: Val>(v: &[T], o: &mut String) {
    o.push_str("<<");
    for t in v {
        t.val(o);
        o.push('.');
    }
    o.push_str(">>");
}
impl<T: Val> Val for Vec<T> {
    fn val(&self, o: &mut String) { list(self, o) }
    fn x() -> X { X::Many(Box::new(T::x())) }
}
impl<T: Val, U: Val> Val for (T, U) {
    fn val(&self, o: &mut String) { self.0.val(o); o.push('&'); self.1.val(o) }
    fn x() -> X { X::Seq(vec![T::x(), U::x()]) }
}
impl<T: Val, U: Val, V: Val> Val for (T, U, V) {
    fn val(&self, o: &mut String) { self.0.val(o); o.push('&'); self.1.val(o); o.push('&'); self.2.val(o) }
    fn x() -> X { X::Seq(vec![T::x(), U::x(), V::x()]) }
}
macro_rules! wraps {
    ($($t:ident $a:literal $b:literal $f:ident $g:ident $ta:ident $tb:ident),*) => { $(
        impl<T: Val> Val for $t<T> {
            fn val(&self, o: &mut String) {
                let $t { $f: term::$ta, body, $g: term::$tb, .. } = self;
                o.push_str($a);
                body.val(o);
                o.push_str($b);
            }
            fn x() -> X { X::Wrap($a, Box::new(T::x()), $b) }
        }
    )* };
}
wraps! { Parenthesized "(" ")" open_paren close_paren OpenParen CloseParen, Bracketed "[" "]" open_bracket close_bracket OpenBracket CloseBracket, Braced "{" "}" open_brace close_brace OpenBrace CloseBrace, Generics "<" ">" open_angle close_angle LessThan GreaterThan }
impl<T: Val> Val for MayBeNull<T> {
    fn val(&self, o: &mut String) {
        self.type_.val(o);
        o.push_str(if self.q_mark.is_some() { "?" } else { "!" });
    }
    fn x() -> X { X::Null(Box::new(T::x())) }
}
impl<T: Val, S: Val> Val for Punctuated<T, S> {
    fn val(&self, o: &mut String) { list(&self.list, o); self.separator.val(o) }
    fn x() -> X { X::Sep(Box::new(T::x()), Box::new(S::x())) }
}
impl<T: Val, S: Val> Val for PunctuatedNonEmpty<T, S> {
    fn val(&self, o: &mut String) { list(&self.list, o); self.separator.val(o) }
    fn x() -> X { X::Sep1(Box::new(T::x()), Box::new(S::x())) }
}

// ---- the interpreter

/// None: the documentation does not say (an element that reads nothing, repeated)
type R = Option<Result<usize, ()>>;
fn token(s: &str, at: usize, t: &str) -> Result<usize, ()> {
    let b = s.as_bytes();
    if t == "|" {
        return if s[at..].starts_with('|') { Ok(at + 1) } else { Err(()) };
    }
    let p = at + skip_trivia(&b[at..]);
    if !s[p..].starts_with(t) {
        return Err(());
    }
    let e = p + t.len();
    if t == "or" && b.get(e).map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'-') {
        return Err(());
    }
    Ok(e + skip_trivia(&b[e..]))
}
fn sepval(x: &X, o: &mut String) {
    if let X::Term(t) = x {
        o.push_str(t)
    }
}
pub fn interp(x: &X, s: &str, at: usize, o: &mut String) -> R {
    let b = s.as_bytes();
    macro_rules! ok {
        ($e:expr) => {
            match $e {
                None => return None,
                Some(Err(())) => return Some(Err(())),
                Some(Ok(n)) => n,
            }
        };
    }
    let mut q = String::new();
    Some(Ok(match x {
        X::A => {
            if b.get(at) != Some(&b'a') {
                return Some(Err(()));
            }
            o.push('a');
            at + 1
        }
        X::Ab => {
            let t = if s[at..].starts_with("ab") { "ab" } else if s[at..].starts_with('b') { "b" } else { return Some(Err(())) };
            o.push_str(t);
            at + t.len()
        }
        X::Id => {
            let p = at + skip_trivia(&b[at..]);
            let n = match match_ident(&b[p..]) {
                None => return Some(Err(())),
                Some(n) => n,
            };
            o.push('i');
            o.push_str(s[p..p + n].strip_prefix('_').unwrap_or(&s[p..p + n]));
            o.push(';');
            p + n + skip_trivia(&b[p + n..])
        }
        X::Term(t) => {
            let n = match token(s, at, t) {
                Ok(n) => n,
                Err(()) => return Some(Err(())),
            };
            o.push_str(t);
            n
        }
        X::Bx(x) => ok!(interp(x, s, at, o)),
        X::Opt(x) => match interp(x, s, at, &mut q) {
            None => return None,
            Some(Err(())) => {
                o.push('~');
                at
            }
            Some(Ok(n)) => {
                o.push('+');
                o.push_str(&q);
                n
            }
        },
        X::Many(x) => {
            o.push_str("<<");
            let mut i = at;
            loop {
                q.clear();
                match interp(x, s, i, &mut q) {
                    None => return None,
                    Some(Err(())) => break,
                    Some(Ok(n)) => {
                        if n == i {
                            return None;
                        }
                        i = n;
                        o.push_str(&q);
                        o.push('.');
                    }
                }
            }
            o.push_str(">>");
            i
        }
        X::Seq(v) => {
            let mut i = at;
            for (k, y) in v.iter().enumerate() {
                if k > 0 {
                    o.push('&');
                }
                i = ok!(interp(y, s, i, o));
            }
            i
        }
        X::Wrap(l, y, r) => {
            let i = ok!(Some(token(s, at, l)));
            o.push_str(l);
            let i = ok!(interp(y, s, i, o));
            o.push_str(r);
            ok!(Some(token(s, i, r)))
        }
        X::Null(y) => {
            let i = ok!(interp(y, s, at, o));
            match token(s, i, "?") {
                Ok(n) => {
                    o.push('?');
                    n
                }
                Err(()) => {
                    o.push('!');
                    i
                }
            }
        }
        X::Sep(y, z) | X::Sep1(y, z) => {
            let one = matches!(x, X::Sep1(..));
            o.push_str("<<");
            let mut i = at;
            match interp(y, s, i, &mut q) {
                None => return None,
                Some(Err(())) if one => return Some(Err(())),
                Some(Err(())) => {}
                Some(Ok(n)) => {
                    if n == i {
                        return None;
                    }
                    i = n;
                    o.push_str(&q);
                    o.push('.');
                    loop {
                        let mut drop = String::new();
                        let j = match interp(z, s, i, &mut drop) {
                            None => return None,
                            Some(Err(())) => break,
                            Some(Ok(j)) => j,
                        };
                        q.clear();
                        match interp(y, s, j, &mut q) {
                            None => return None,
                            Some(Err(())) => {
                                if one {
                                    i = j;
                                }
                                break;
                            }
                            Some(Ok(n)) => {
                                if n == j {
                                    return None;
                                }
                                i = n;
                                o.push_str(&q);
                                o.push('.');
                            }
                        }
                    }
                }
            }
            o.push_str(">>");
            sepval(z, o);
            i
        }
    }))
}

// ---- the blocks

pub struct Block {
    pub name: &'static str,
    pub x: X,
    pub run: for<'a> fn(&'a str) -> Result<(&'a str, String), Kind>,
}
fn go<'a, T: Parse<'a> + Val>(s: &'a str) -> Result<(&'a str, String), Kind> {
    match T::parse(s) {
        Ok((r, t)) => {
            let mut o = String::new();
            t.val(&mut o);
            Ok((r, o))
        }
        Err(weedle::Err::Incomplete(_)) => Err(Kind::Incomplete),
        Err(_) => Err(Kind::Err),
    }
}
macro_rules! one {
    ($v:ident, $($t:tt)*) => {
        $v.push(Block { name: stringify!($($t)*), x: <$($t)* as Val>::x(), run: |s| go::<$($t)*>(s) });
    };
}
/// every block around the given element
macro_rules! around {
    ($v:ident, $m:ident, $($e:tt)*) => {
        $m!($v, Option<$($e)*>);
        $m!($v, Box<$($e)*>);
        $m!($v, Vec<$($e)*>);
        $m!($v, ($($e)*, $($e)*));
        $m!($v, ($($e)*, term::Comma, $($e)*));
        $m!($v, (A, $($e)*));
        $m!($v, Parenthesized<$($e)*>);
        $m!($v, Bracketed<$($e)*>);
        $m!($v, Braced<$($e)*>);
        $m!($v, Generics<$($e)*>);
        $m!($v, MayBeNull<$($e)*>);
        $m!($v, Punctuated<$($e)*, term::Comma>);
        $m!($v, Punctuated<$($e)*, Bar>);
        $m!($v, Punctuated<$($e)*, term::Or>);
        $m!($v, PunctuatedNonEmpty<$($e)*, term::Comma>);
        $m!($v, PunctuatedNonEmpty<$($e)*, Bar>);
    };
}
macro_rules! two {
    ($v:ident, $($e:tt)*) => {
        one!($v, $($e)*);
        around!($v, one, $($e)*);
    };
}
pub fn blocks() -> Vec<Block> {
    let mut v: Vec<Block> = vec![];
    around!(v, two, A);
    around!(v, two, Ab);
    around!(v, two, Identifier);
    v
}
fn letters(x: &X, v: &mut std::collections::BTreeSet<char>) {
    match x {
        X::A => v.extend("abé".chars()),
        X::Ab => v.extend("ab".chars()),
        X::Id => v.extend("a".chars()),
        X::Term("or") => v.extend("or ".chars()),
        X::Term(t) => v.extend(t.chars().chain([' '])),
        X::Opt(y) | X::Bx(y) | X::Many(y) => letters(y, v),
        X::Seq(s) => s.iter().for_each(|y| letters(y, v)),
        X::Wrap(l, y, r) => {
            v.extend(l.chars().chain(r.chars()));
            letters(y, v)
        }
        X::Null(y) => {
            v.insert('?');
            letters(y, v)
        }
        X::Sep(y, z) | X::Sep1(y, z) => {
            letters(y, v);
            letters(z, v)
        }
    }
}
fn block_case(c: &mut Ctx, b: &Block, s: &str) {
    c.enter(b.name, s);
    IN_CODE.with(|c| c.set(true));
    let r = std::panic::catch_unwind(|| (b.run)(s));
    IN_CODE.with(|c| c.set(false));
    c.leave();
    c.st.traces += 1;
    if first_visit(b.name.as_ptr() as u64, s.as_bytes()) {
        c.st.states += 1;
    }
    c.st.transitions += s.len() as u64;
    let mut o = String::new();
    let want = interp(&b.x, s, 0, &mut o);
    let ok = matches!(&r, Ok(Ok(_)));
    if ok { c.st.accepted += 1 } else { c.st.rejected += 1 }
    let f = c.st.families.entry_ref(c.family);
    f.0 += 1;
    if ok { f.1 += 1 } else { f.2 += 1 }
    if want.is_none() {
        f.3 += 1;
        c.st.open += 1;
    }
    if ok && f.1 <= 3 {
        c.st.samples.entry(c.family.to_string()).or_default().push(format!("{} on {:?}", b.name, clip(s)));
    }
    let name = b.name;
    match r {
        Err(p) => c.violate(name, s, "panicked", "Ok or Err", &panic_msg(p)),
        Ok(Err(Kind::Incomplete)) => c.violate(name, s, "asked for more input", "Ok or Err", "Incomplete"),
        Ok(r) => {
            let got = match &r {
                Ok((rest, v)) => {
                    if !is_suffix(rest, s) { "the remainder is not a suffix".into() } else { format!("{} then {:?}", v, rest) }
                }
                Err(_) => "Err".into(),
            };
            let want = match want {
                None => return,
                Some(Err(())) => "Err".to_string(),
                Some(Ok(n)) => {
                    c.st.outcomes.insert(ev_hash(&o));
                    format!("{} then {:?}", o, &s[n..])
                }
            };
            if got != want {
                c.violate(name, s, "the building block does not do what it says", &want, &got);
            }
        }
    }
}
fn clip(s: &str) -> String { s.chars().take(60).collect() }
pub fn find(name: &str) -> Option<Block> { blocks().into_iter().find(|b| b.name == name) }
pub fn c20(sh: &Shared) {
    let bs = blocks();
    let deep = sh.q(6usize, 7);
    let jobs: Vec<(usize, usize)> = (0..bs.len()).flat_map(|b| (0..8).map(move |p| (b, p))).collect();
    par(sh, "blocks on all strings", &jobs, |c, (bi, part)| {
        let b = &bs[*bi];
        let mut al = std::collections::BTreeSet::new();
        letters(&b.x, &mut al);
        al.insert(' ');
        let al: Vec<char> = al.into_iter().collect();
        // as long as the alphabet allows
        let mut len = deep + 1;
        while (al.len() as f64).powi(len as i32) > sh.q(9e5, 2e7) {
            len -= 1;
        }
        let mut s = String::new();
        for n in 0..=len {
            let total = al.len().pow(n as u32);
            let mut k = *part;
            while k < total {
                if c.stopped() {
                    return;
                }
                s.clear();
                let mut x = k;
                for _ in 0..n {
                    s.push(al[x % al.len()]);
                    x /= al.len();
                }
                block_case(c, b, &s);
                k += 8;
            }
        }
    });
    sh.note(format!("blocks on all strings: {} compositions of two building blocks over three element parsers, all strings over their own characters (length up to {}, at most {:.0} strings of the longest length)", bs.len(), deep + 1, sh.q(9e5, 2e7)));
    // many elements
    let lens = some_lens(sh);
    par(sh, "long texts", &bs, |c, b| {
        for n in lens.iter().filter(|n| **n < 5000) {
            for t in ["a", "b", "ab", "a ", "a,", "a, ", "ab|", "a|", "a or ", "b,b", "(", "a/**/", ",", "?"] {
                let u = t.repeat(*n);
                for (l, r) in [("", ""), ("", "a"), ("(", ")"), ("[", "]"), ("{", "a}"), ("<", "b>"), ("", "?")] {
                    if c.stopped() {
                        return;
                    }
                    block_case(c, b, &format!("{}{}{}", l, u, r));
                }
            }
        }
    });
    sh.note(format!("long texts: {} lengths", lens.len()));
}

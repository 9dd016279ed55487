//! The token macro `term!`, spelling by spelling: each must name, both as a type and as a value,
//! the symbol of the same meaning in `weedle::term`, whose parser must accept that spelling and
//! none of the others.
use std::any::TypeId;
use weedle::Parse;

const SPELLINGS: &[&str] = &[
    "(",
    ")",
    "[",
    "]",
    "{",
    "}",
    ",",
    "-",
    ".",
    "...",
    ":",
    ";",
    "<",
    "=",
    ">",
    "?",
    "*",
    "or",
    "optional",
    "async",
    "attribute",
    "callback",
    "const",
    "deleter",
    "dictionary",
    "enum",
    "getter",
    "includes",
    "inherit",
    "interface",
    "iterable",
    "maplike",
    "namespace",
    "partial",
    "required",
    "setlike",
    "setter",
    "static",
    "stringifier",
    "typedef",
    "unrestricted",
    "symbol",
    "-Infinity",
    "ByteString",
    "DOMString",
    "FrozenArray",
    "Infinity",
    "NaN",
    "USVString",
    "any",
    "boolean",
    "byte",
    "double",
    "false",
    "float",
    "long",
    "null",
    "object",
    "octet",
    "sequence",
    "short",
    "true",
    "unsigned",
    "undefined",
    "record",
    "ArrayBuffer",
    "DataView",
    "Int8Array",
    "Int16Array",
    "Int32Array",
    "Uint8Array",
    "Uint16Array",
    "Uint32Array",
    "Uint8ClampedArray",
    "Float32Array",
    "Float64Array",
    "ArrayBufferView",
    "BufferSource",
    "Promise",
    "Error",
    "readonly",
    "mixin",
    "implements",
    "legacycaller",
    "constructor",
];

struct Row {
    arm: &'static str,
    spelling: &'static str,
    named: TypeId,
    wanted: TypeId,
    valued: TypeId,
    parse: fn(&str) -> Option<usize>,
}

fn parse<'a, T: Parse<'a>>(s: &'a str) -> Option<usize> {
    T::parse(s).ok().map(|(rest, _)| s.len() - rest.len())
}

fn id<T: 'static>(_: T) -> TypeId {
    TypeId::of::<T>()
}

macro_rules! row {
    ($spelling:expr, $ty:ident, $($arm:tt)*) => {
        Row {
            arm: stringify!($($arm)*),
            spelling: $spelling,
            named: TypeId::of::<weedle::term!($($arm)*)>(),
            wanted: TypeId::of::<weedle::term::$ty>(),
            valued: id(weedle::term!($($arm)*)),
            parse: |s| parse::<weedle::term!($($arm)*)>(s),
        }
    };
}

fn main() {
    let rows = [
        row!("(", OpenParen, OpenParen),
        row!(")", CloseParen, CloseParen),
        row!("[", OpenBracket, OpenBracket),
        row!("]", CloseBracket, CloseBracket),
        row!("{", OpenBrace, OpenBrace),
        row!("}", CloseBrace, CloseBrace),
        row!(",", Comma, ,),
        row!("-", Minus, -),
        row!(".", Dot, .),
        row!("...", Ellipsis, ...),
        row!(":", Colon, :),
        row!(";", SemiColon, ;),
        row!("<", LessThan, <),
        row!("=", Assign, =),
        row!(">", GreaterThan, >),
        row!("?", QMark, ?),
        row!("*", Asterisk, *),
        row!("or", Or, or),
        row!("optional", Optional, optional),
        row!("async", Async, async),
        row!("attribute", Attribute, attribute),
        row!("callback", Callback, callback),
        row!("const", Const, const),
        row!("deleter", Deleter, deleter),
        row!("dictionary", Dictionary, dictionary),
        row!("enum", Enum, enum),
        row!("getter", Getter, getter),
        row!("includes", Includes, includes),
        row!("inherit", Inherit, inherit),
        row!("interface", Interface, interface),
        row!("iterable", Iterable, iterable),
        row!("maplike", Maplike, maplike),
        row!("namespace", Namespace, namespace),
        row!("partial", Partial, partial),
        row!("required", Required, required),
        row!("setlike", Setlike, setlike),
        row!("setter", Setter, setter),
        row!("static", Static, static),
        row!("stringifier", Stringifier, stringifier),
        row!("typedef", Typedef, typedef),
        row!("unrestricted", Unrestricted, unrestricted),
        row!("symbol", Symbol, symbol),
        row!("-Infinity", NegInfinity, - Infinity),
        row!("ByteString", ByteString, ByteString),
        row!("DOMString", DOMString, DOMString),
        row!("FrozenArray", FrozenArray, FrozenArray),
        row!("Infinity", Infinity, Infinity),
        row!("NaN", NaN, NaN),
        row!("USVString", USVString, USVString),
        row!("any", Any, any),
        row!("boolean", Boolean, boolean),
        row!("byte", Byte, byte),
        row!("double", Double, double),
        row!("false", False, false),
        row!("float", Float, float),
        row!("long", Long, long),
        row!("null", Null, null),
        row!("object", Object, object),
        row!("octet", Octet, octet),
        row!("sequence", Sequence, sequence),
        row!("short", Short, short),
        row!("true", True, true),
        row!("unsigned", Unsigned, unsigned),
        row!("undefined", Undefined, undefined),
        row!("record", Record, record),
        row!("ArrayBuffer", ArrayBuffer, ArrayBuffer),
        row!("DataView", DataView, DataView),
        row!("Int8Array", Int8Array, Int8Array),
        row!("Int16Array", Int16Array, Int16Array),
        row!("Int32Array", Int32Array, Int32Array),
        row!("Uint8Array", Uint8Array, Uint8Array),
        row!("Uint16Array", Uint16Array, Uint16Array),
        row!("Uint32Array", Uint32Array, Uint32Array),
        row!("Uint8ClampedArray", Uint8ClampedArray, Uint8ClampedArray),
        row!("Float32Array", Float32Array, Float32Array),
        row!("Float64Array", Float64Array, Float64Array),
        row!("ArrayBufferView", ArrayBufferView, ArrayBufferView),
        row!("BufferSource", BufferSource, BufferSource),
        row!("Promise", Promise, Promise),
        row!("Error", Error, Error),
        row!("readonly", ReadOnly, readonly),
        row!("mixin", Mixin, mixin),
        row!("implements", Implements, implements),
        row!("legacycaller", LegacyCaller, legacycaller),
        row!("constructor", Constructor, constructor),
    ];
    let mut bad = 0;
    let mut n = 0;
    for r in &rows {
        if r.named != r.wanted || r.valued != r.wanted {
            println!("term!({}) does not name the symbol for {:?}", r.arm, r.spelling);
            bad += 1;
        }
        for s in SPELLINGS {
            n += 1;
            // "." is a prefix of "...", "-" of "-Infinity"; words must not be followed by more
            let want = if *s == r.spelling || (s.starts_with(r.spelling) && !r.spelling.starts_with(|c: char| c.is_alphabetic())) {
                Some(r.spelling.len())
            } else {
                None
            };
            let got = (r.parse)(s);
            if got != want {
                println!("term!({}) on {:?}: consumed {:?}, expected {:?}", r.arm, s, got, want);
                bad += 1;
            }
        }
    }
    println!("term! macro: {} spellings, {} pairs checked, {} disagreements", rows.len(), n, bad);
    std::process::exit((bad > 0) as i32);
}

//! Walks the library's own AST through its public fields and writes down (a) its canonical tree,
//! in the encoding of gram.rs, (b) the token sequence it spells, with the borrowed slices.
use crate::gram::*;
use crate::tok::*;
use weedle::argument::*;
use weedle::attribute::*;
use weedle::common::*;
use weedle::dictionary::*;
use weedle::interface::*;
use weedle::literal::*;
use weedle::mixin::*;
use weedle::namespace::*;
use weedle::types::*;
use weedle::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Y<'a> {
    Term(u8),
    Name(&'a str),
    Lit(u8, &'a str),
}

#[derive(Default)]
pub struct Out<'a> {
    pub ev: String,
    pub ys: Vec<Y<'a>>,
    /// convert the content of each alternative into its enum again and compare
    pub conv: bool,
    pub bad: Option<String>,
}
impl<'a> Out<'a> {
    fn term(&mut self, k: u8) {
        ev_term(&mut self.ev, term_text(k));
        self.ys.push(Y::Term(k));
    }
    fn name(&mut self, s: &'a str) {
        ev_text(&mut self.ev, 'i', s);
        self.ys.push(Y::Name(s));
    }
    fn lit(&mut self, k: u8, s: &'a str) {
        ev_text(&mut self.ev, lit_char(k), s);
        self.ys.push(Y::Lit(k, s));
    }
}

fn same_slices(a: &[Y], b: &[Y]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|x| match x {
        (Y::Name(s), Y::Name(t)) => s.as_ptr() == t.as_ptr() && s.len() == t.len(),
        (Y::Lit(k, s), Y::Lit(l, t)) => k == l && s.as_ptr() == t.as_ptr() && s.len() == t.len(),
        (x, y) => x == y,
    })
}
pub trait Walk<'a> {
    fn walk(&self, o: &mut Out<'a>);
}

// (terminal type, spelling) - one row per public terminal, from the doc comments of src/term.rs
#[macro_export]
macro_rules! for_terms {
    ($m:ident) => {
        $m! {
            OpenParen "(", CloseParen ")", OpenBracket "[", CloseBracket "]", OpenBrace "{",
            CloseBrace "}", Comma ",", Minus "-", Dot ".", Ellipsis "...", Colon ":", SemiColon ";",
            LessThan "<", Assign "=", GreaterThan ">", QMark "?", Asterisk "*",
            Or "or", Optional "optional", Async "async", Attribute "attribute", Callback "callback",
            Const "const", Deleter "deleter", Dictionary "dictionary", Enum "enum", Getter "getter",
            Includes "includes", Inherit "inherit", Interface "interface", Iterable "iterable",
            Maplike "maplike", Namespace "namespace", Partial "partial", Required "required",
            Setlike "setlike", Setter "setter", Static "static", Stringifier "stringifier",
            Typedef "typedef", Unrestricted "unrestricted", Symbol "symbol",
            NegInfinity "-Infinity", ByteString "ByteString", DOMString "DOMString",
            FrozenArray "FrozenArray", Infinity "Infinity", NaN "NaN", USVString "USVString",
            Any "any", Boolean "boolean", Byte "byte", Double "double", False "false",
            Float "float", Long "long", Null "null", Object "object", Octet "octet",
            Sequence "sequence", Short "short", True "true", Unsigned "unsigned",
            Undefined "undefined", Record "record", ArrayBuffer "ArrayBuffer", DataView "DataView",
            Int8Array "Int8Array", Int16Array "Int16Array", Int32Array "Int32Array",
            Uint8Array "Uint8Array", Uint16Array "Uint16Array", Uint32Array "Uint32Array",
            Uint8ClampedArray "Uint8ClampedArray", Float32Array "Float32Array",
            Float64Array "Float64Array", ArrayBufferView "ArrayBufferView",
            BufferSource "BufferSource", Promise "Promise", Error "Error", ReadOnly "readonly",
            Mixin "mixin", Implements "implements", LegacyCaller "legacycaller",
            Constructor "constructor"
        }
    };
}
macro_rules! walk_terms {
    ($($t:ident $s:literal),*) => { $(
        impl<'a> Walk<'a> for weedle::term::$t {
            fn walk(&self, o: &mut Out<'a>) {
                static K: std::sync::OnceLock<u8> = std::sync::OnceLock::new();
                o.term(*K.get_or_init(|| kind_of($s)));
            }
        }
    )* };
}
for_terms!(walk_terms);

impl<'a, T: Walk<'a>> Walk<'a> for Option<T> {
    fn walk(&self, o: &mut Out<'a>) {
        match self {
            Some(x) => x.walk(o),
            None => ev_none(&mut o.ev),
        }
    }
}
impl<'a, T: Walk<'a>> Walk<'a> for Box<T> {
    fn walk(&self, o: &mut Out<'a>) {
        (**self).walk(o)
    }
}
impl<'a, T: Walk<'a>> Walk<'a> for Vec<T> {
    fn walk(&self, o: &mut Out<'a>) {
        ev_list(&mut o.ev);
        for x in self {
            x.walk(o);
        }
        ev_list_end(&mut o.ev);
    }
}
impl<'a, T: Walk<'a>, U: Walk<'a>> Walk<'a> for (T, U) {
    fn walk(&self, o: &mut Out<'a>) {
        self.0.walk(o);
        self.1.walk(o);
    }
}
impl<'a, T: Walk<'a>, U: Walk<'a>, V: Walk<'a>> Walk<'a> for (T, U, V) {
    fn walk(&self, o: &mut Out<'a>) {
        self.0.walk(o);
        self.1.walk(o);
        self.2.walk(o);
    }
}
fn sep_list<'a, T: Walk<'a>, S: Walk<'a>>(l: &[T], s: &S, o: &mut Out<'a>) {
    ev_list(&mut o.ev);
    for (i, x) in l.iter().enumerate() {
        if i > 0 {
            // separators show in the spelled tokens only
            let n = o.ev.len();
            s.walk(o);
            o.ev.truncate(n);
            ev_sep(&mut o.ev);
        }
        x.walk(o);
    }
    ev_list_end(&mut o.ev);
}
impl<'a, T: Walk<'a>, S: Walk<'a>> Walk<'a> for Punctuated<T, S> {
    fn walk(&self, o: &mut Out<'a>) {
        sep_list(&self.list, &self.separator, o);
    }
}
impl<'a, T: Walk<'a>, S: Walk<'a>> Walk<'a> for PunctuatedNonEmpty<T, S> {
    fn walk(&self, o: &mut Out<'a>) {
        sep_list(&self.list, &self.separator, o);
    }
}
macro_rules! walk_wrap {
    ($($n:ident $a:ident $c:ident),*) => { $(
        impl<'a, T: Walk<'a>> Walk<'a> for $n<T> {
            fn walk(&self, o: &mut Out<'a>) {
                self.$a.walk(o);
                self.body.walk(o);
                self.$c.walk(o);
            }
        }
    )* };
}
walk_wrap!(Parenthesized open_paren close_paren, Bracketed open_bracket close_bracket,
    Braced open_brace close_brace, Generics open_angle close_angle);

impl<'a> Walk<'a> for Identifier<'a> {
    fn walk(&self, o: &mut Out<'a>) {
        o.name(self.0);
    }
}
macro_rules! walk_lit {
    ($($n:ident $k:expr),*) => { $(
        impl<'a> Walk<'a> for $n<'a> {
            fn walk(&self, o: &mut Out<'a>) {
                ev_open(&mut o.ev, stringify!($n));
                o.lit($k, self.0);
                ev_close(&mut o.ev);
            }
        }
    )* };
}
walk_lit!(StringLit STR, DecLit DEC, HexLit HEX, OctLit OCT, FloatValueLit FLOAT);
impl<'a> Walk<'a> for BooleanLit {
    fn walk(&self, o: &mut Out<'a>) {
        ev_open(&mut o.ev, "BooleanLit");
        o.term(kind_of(if self.0 { "true" } else { "false" }));
        ev_close(&mut o.ev);
    }
}
impl<'a, T: Walk<'a>> Walk<'a> for MayBeNull<T> {
    fn walk(&self, o: &mut Out<'a>) {
        ev_open(&mut o.ev, "MayBeNull");
        self.type_.walk(o);
        self.q_mark.walk(o);
        ev_close(&mut o.ev);
    }
}
impl<'a> Walk<'a> for ExtendedAttributeNoArgs<'a> {
    fn walk(&self, o: &mut Out<'a>) {
        ev_open(&mut o.ev, "ExtendedAttributeNoArgs");
        self.0.walk(o);
        ev_close(&mut o.ev);
    }
}

macro_rules! walk_struct {
    ($($n:ident $([$lt:lifetime])? { $($f:ident),* })*) => { $(
        impl<'a> Walk<'a> for $n $(<$lt>)? {
            fn walk(&self, o: &mut Out<'a>) {
                ev_open(&mut o.ev, stringify!($n));
                $( self.$f.walk(o); )*
                ev_close(&mut o.ev);
            }
        }
    )* };
}
macro_rules! walk_enum {
    ($($n:ident $([$lt:lifetime])? { $($v:ident),* })*) => { $(
        impl<'a> Walk<'a> for $n $(<$lt>)? {
            fn walk(&self, o: &mut Out<'a>) {
                #[allow(unreachable_patterns)]
                match self {
                    $( $n::$v(x) => {
                        let (at, yat) = (o.ev.len(), o.ys.len());
                        ev_open(&mut o.ev, concat!(stringify!($n), ".", stringify!($v)));
                        x.walk(o);
                        ev_close(&mut o.ev);
                        if o.conv {
                            let again: Self = From::from(x.clone());
                            let mut p = Out::default();
                            again.walk(&mut p);
                            if again != *self || p.ev != o.ev[at..] || !same_slices(&p.ys, &o.ys[yat..]) {
                                o.bad = Some(format!("{} becomes {}", &o.ev[at..], p.ev));
                            }
                        }
                    } )*
                    _ => ev_open(&mut o.ev, concat!("?unknown variant of ", stringify!($n))),
                }
            }
        }
    )* };
}

walk_enum! {
    Definition['a] { Callback, CallbackInterface, Interface, InterfaceMixin, Namespace, Dictionary,
        PartialInterface, PartialInterfaceMixin, PartialDictionary, PartialNamespace, Enum, Typedef,
        IncludesStatement, Implements }
    IntegerLit['a] { Dec, Hex, Oct }
    DefaultValue['a] { Boolean, EmptyArray, EmptyDictionary, Float, Integer, Null, String }
    ConstValue['a] { Boolean, Float, Integer, Null }
    FloatLit['a] { Value, NegInfinity, Infinity, NaN }
    Argument['a] { Single, Variadic }
    ExtendedAttribute['a] { ArgList, NamedArgList, IdentList, Ident, Wildcard, NoArgs }
    IdentifierOrString['a] { Identifier, String }
    InterfaceMember['a] { Const, Attribute, Constructor, Operation, Iterable, AsyncIterable, Maplike,
        Setlike, Stringifier }
    IterableInterfaceMember['a] { Single, Double }
    AsyncIterableInterfaceMember['a] { Single, Double }
    Special { Getter, Setter, Deleter, LegacyCaller }
    StringifierOrInheritOrStatic { Stringifier, Inherit, Static }
    StringifierOrStatic { Stringifier, Static }
    MixinMember['a] { Const, Operation, Attribute, Stringifier }
    NamespaceMember['a] { Const, Operation, Attribute }
    Type['a] { Single, Union }
    SingleType['a] { Any, NonAny }
    NonAnyType['a] { Promise, Integer, FloatingPoint, Boolean, Byte, Octet, ByteString, DOMString,
        USVString, Sequence, Object, Symbol, Error, ArrayBuffer, DataView, Int8Array, Int16Array,
        Int32Array, Uint8Array, Uint16Array, Uint32Array, Uint8ClampedArray, Float32Array,
        Float64Array, ArrayBufferView, BufferSource, FrozenArrayType, RecordType, Identifier }
    IntegerType { LongLong, Long, Short }
    FloatingPointType { Float, Double }
    RecordKeyType['a] { Byte, DOM, USV, NonAny }
    UnionMemberType['a] { Single, Union }
    ConstType['a] { Integer, FloatingPoint, Boolean, Byte, Octet, Identifier }
    ReturnType['a] { Undefined, Type }
}
walk_struct! {
    CallbackDefinition['a] { attributes, callback, identifier, assign, return_type, arguments, semi_colon }
    CallbackInterfaceDefinition['a] { attributes, callback, interface, identifier, inheritance, members, semi_colon }
    InterfaceDefinition['a] { attributes, interface, identifier, inheritance, members, semi_colon }
    InterfaceMixinDefinition['a] { attributes, interface, mixin, identifier, members, semi_colon }
    NamespaceDefinition['a] { attributes, namespace, identifier, members, semi_colon }
    DictionaryDefinition['a] { attributes, dictionary, identifier, inheritance, members, semi_colon }
    PartialInterfaceDefinition['a] { attributes, partial, interface, identifier, members, semi_colon }
    PartialInterfaceMixinDefinition['a] { attributes, partial, interface, mixin, identifier, members, semi_colon }
    PartialDictionaryDefinition['a] { attributes, partial, dictionary, identifier, members, semi_colon }
    PartialNamespaceDefinition['a] { attributes, partial, namespace, identifier, members, semi_colon }
    EnumDefinition['a] { attributes, enum_, identifier, values, semi_colon }
    TypedefDefinition['a] { attributes, typedef, type_, identifier, semi_colon }
    IncludesStatementDefinition['a] { attributes, lhs_identifier, includes, rhs_identifier, semi_colon }
    ImplementsDefinition['a] { attributes, lhs_identifier, includes, rhs_identifier, semi_colon }
    Default['a] { assign, value }
    SingleArgument['a] { attributes, optional, type_, identifier, default }
    VariadicArgument['a] { attributes, type_, ellipsis, identifier }
    ExtendedAttributeArgList['a] { identifier, args }
    ExtendedAttributeNamedArgList['a] { lhs_identifier, assign, rhs_identifier, args }
    ExtendedAttributeIdentList['a] { identifier, assign, list }
    ExtendedAttributeIdent['a] { lhs_identifier, assign, rhs }
    ExtendedAttributeWildCard['a] { lhs_identifier, assign, rhs }
    DictionaryMember['a] { attributes, required, type_, identifier, default, semi_colon }
    Inheritance['a] { colon, identifier }
    ConstMember['a] { attributes, const_, const_type, identifier, assign, const_value, semi_colon }
    AttributeInterfaceMember['a] { attributes, modifier, readonly, attribute, type_, identifier, semi_colon }
    ConstructorInterfaceMember['a] { attributes, constructor, args, semi_colon }
    OperationInterfaceMember['a] { attributes, modifier, special, return_type, identifier, args, semi_colon }
    SingleTypedIterable['a] { attributes, iterable, generics, semi_colon }
    DoubleTypedIterable['a] { attributes, iterable, generics, semi_colon }
    SingleTypedAsyncIterable['a] { attributes, async_iterable, generics, args, semi_colon }
    DoubleTypedAsyncIterable['a] { attributes, async_iterable, generics, args, semi_colon }
    MaplikeInterfaceMember['a] { attributes, readonly, maplike, generics, semi_colon }
    SetlikeInterfaceMember['a] { attributes, readonly, setlike, generics, semi_colon }
    StringifierMember['a] { attributes, stringifier, semi_colon }
    EmptyArrayLit { open_bracket, close_bracket }
    EmptyDictionaryLit { open_brace, close_brace }
    OperationMixinMember['a] { attributes, stringifier, return_type, identifier, args, semi_colon }
    AttributeMixinMember['a] { attributes, stringifier, readonly, attribute, type_, identifier, semi_colon }
    ConstNamespaceMember['a] { attributes, const_, const_type, identifier, assign, const_value, semi_colon }
    OperationNamespaceMember['a] { attributes, return_type, identifier, args, semi_colon }
    AttributeNamespaceMember['a] { attributes, readonly, attribute, type_, identifier, semi_colon }
    SequenceType['a] { sequence, generics }
    FrozenArrayType['a] { frozen_array, generics }
    PromiseType['a] { promise, generics }
    LongLongType { unsigned, long_long }
    LongType { unsigned, long }
    ShortType { unsigned, short }
    FloatType { unrestricted, float }
    DoubleType { unrestricted, double }
    RecordType['a] { record, generics }
    AttributedType['a] { attributes, type_ }
    AttributedNonAnyType['a] { attributes, type_ }
}

// ------------------------------------------------------------------ running the real code

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Ok,
    Err,
    Incomplete,
}
pub struct Obs<'a> {
    pub kind: Kind,
    /// what is left (Ok) or what the error carries (Err)
    pub rest: &'a str,
    pub out: Out<'a>,
}

fn obs<'a, T: Walk<'a>>(r: IResult<&'a str, T>, want: bool) -> Obs<'a> {
    let mut out = Out::default();
    match r {
        Ok((rest, x)) => {
            if want {
                x.walk(&mut out);
            }
            Obs { kind: Kind::Ok, rest, out }
        }
        Err(Err::Incomplete(_)) => Obs { kind: Kind::Incomplete, rest: "", out },
        Err(Err::Error((rest, _))) | Err(Err::Failure((rest, _))) => Obs { kind: Kind::Err, rest, out },
    }
}

pub type Runner = for<'a> fn(&'a str, bool) -> Obs<'a>;

fn run_doc(s: &str, want: bool) -> Obs<'_> {
    obs(weedle::parse(s).map(|d| (&s[s.len()..], d)), want)
}

pub struct Entry {
    pub name: &'static str,
    /// model node of the same meaning
    pub node: &'static str,
    pub run: Runner,
}

/// Every public entry point: the document parser and each node type's own parser.
pub fn entries() -> &'static [Entry] {
    static E: std::sync::OnceLock<Vec<Entry>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let mut v: Vec<Entry> = vec![Entry { name: "parse", node: "Definitions", run: run_doc }];
        macro_rules! e {
            ($($name:literal $t:ty),* $(,)?) => { $(
                v.push(Entry { name: concat!($name, "::parse"), node: $name, run: {
                    fn r(s: &str, want: bool) -> Obs<'_> { obs(<$t as Parse>::parse(s), want) }
                    r
                } });
            )* };
        }
        macro_rules! same {
            ($($t:ident)*) => { e!{} $(
                v.push(Entry { name: concat!(stringify!($t), "::parse"), node: stringify!($t), run: {
                    fn r(s: &str, want: bool) -> Obs<'_> { obs(<$t as Parse>::parse(s), want) }
                    r
                } });
            )* };
        }
        e! {
            "Definitions" Definitions,
            "Definition" Definition,
            "ExtendedAttributeList" ExtendedAttributeList,
            "ArgumentList" ArgumentList,
            "IdentifierList" IdentifierList,
            "EnumValueList" EnumValueList,
            "UnionType" UnionType,
            "Identifier" Identifier,
            "Option<Identifier>" Option<Identifier>,
            "Vec<Identifier>" Vec<Identifier>,
            "Vec<InterfaceMember>" InterfaceMembers,
            "Vec<MixinMember>" MixinMembers,
            "Vec<NamespaceMember>" NamespaceMembers,
            "Vec<DictionaryMember>" DictionaryMembers,
            "(Identifier, Identifier)" (Identifier, Identifier),
            "(Identifier, Comma, StringLit)" (Identifier, term::Comma, StringLit),
            "Parenthesized<Identifier>" Parenthesized<Identifier>,
            "Bracketed<Identifier>" Bracketed<Identifier>,
            "Braced<Identifier>" Braced<Identifier>,
            "Generics<Identifier>" Generics<Identifier>,
            "PunctuatedNonEmpty<Identifier, Or>" PunctuatedNonEmpty<Identifier, term::Or>,
        }
        v.push(Entry { name: "Box<Type>::parse", node: "Type", run: {
            fn r(s: &str, want: bool) -> Obs<'_> { obs(<Box<Type> as Parse>::parse(s), want) }
            r
        } });
        same! {
            CallbackDefinition CallbackInterfaceDefinition InterfaceDefinition InterfaceMixinDefinition
            NamespaceDefinition DictionaryDefinition PartialInterfaceDefinition
            PartialInterfaceMixinDefinition PartialDictionaryDefinition PartialNamespaceDefinition
            EnumDefinition TypedefDefinition IncludesStatementDefinition ImplementsDefinition
            Default SingleArgument VariadicArgument Argument
            ExtendedAttribute ExtendedAttributeArgList ExtendedAttributeNamedArgList
            ExtendedAttributeIdentList ExtendedAttributeIdent ExtendedAttributeWildCard
            ExtendedAttributeNoArgs IdentifierOrString
            DictionaryMember Inheritance InterfaceMember ConstMember AttributeInterfaceMember
            ConstructorInterfaceMember OperationInterfaceMember IterableInterfaceMember
            SingleTypedIterable DoubleTypedIterable AsyncIterableInterfaceMember
            SingleTypedAsyncIterable DoubleTypedAsyncIterable MaplikeInterfaceMember
            SetlikeInterfaceMember StringifierMember Special StringifierOrInheritOrStatic
            StringifierOrStatic MixinMember OperationMixinMember AttributeMixinMember
            NamespaceMember ConstNamespaceMember OperationNamespaceMember AttributeNamespaceMember
            IntegerLit DecLit HexLit OctLit StringLit DefaultValue EmptyArrayLit EmptyDictionaryLit
            ConstValue BooleanLit FloatLit FloatValueLit
            Type SingleType NonAnyType SequenceType FrozenArrayType PromiseType IntegerType
            LongLongType LongType ShortType FloatingPointType FloatType DoubleType RecordType
            RecordKeyType UnionMemberType ConstType ReturnType AttributedType AttributedNonAnyType
        }
        v
    })
}
pub fn entry(name: &str) -> &'static Entry {
    entries()
        .iter()
        .find(|e| e.name == name || e.name.strip_suffix("::parse") == Some(name))
        .or_else(|| terms().iter().find(|e| e.name == name || e.name.strip_suffix("::parse") == Some(name)))
        .unwrap_or_else(|| panic!("no entry {}", name))
}

/// Every public terminal: node = spelling
pub fn terms() -> &'static [Entry] {
    static E: std::sync::OnceLock<Vec<Entry>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let mut v: Vec<Entry> = vec![];
        macro_rules! tt {
            ($($t:ident $s:literal),*) => { $(
                v.push(Entry { name: concat!("term::", stringify!($t), "::parse"), node: $s, run: {
                    fn r(s: &str, want: bool) -> Obs<'_> { obs(<weedle::term::$t as Parse>::parse(s), want) }
                    r
                } });
            )* };
        }
        for_terms!(tt);
        v
    })
}

// ------------------------------------------------------------------ relations between results

/// parse all texts, compare all pairs; Ok(number of classes) or the offending pair
pub type RelRunner = for<'a> fn(&[&'a str], &[u64]) -> Result<usize, (usize, usize, String)>;
pub struct Rel {
    pub name: &'static str,
    pub node: &'static str,
    pub run: RelRunner,
}
fn hash_of<T: std::hash::Hash>(x: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}
/// set for C22: `relate` looks at conversions and debug text instead of the relations
pub static VIEWS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn views<'a, T: Walk<'a> + Eq + Clone + std::fmt::Debug>(vals: Vec<T>, class: &[u64]) -> Result<usize, (usize, usize, String)> {
    use std::collections::HashMap;
    use std::fmt::Write;
    let mut of: [HashMap<u64, (usize, String)>; 2] = [HashMap::new(), HashMap::new()];
    let mut back: [HashMap<String, usize>; 2] = [HashMap::new(), HashMap::new()];
    let (mut a, mut b) = (String::new(), String::new());
    for (i, v) in vals.iter().enumerate() {
        let mut o = Out { conv: true, ..Out::default() };
        v.walk(&mut o);
        if let Some(m) = o.bad { return Err((i, i, format!("converting the content of an alternative into its enum gives another value: {}", m))) }
        for k in 0..2 {
            // the indented form of a deep nest is quadratic in size
            if k == 1 && a.len() > 4000 { break }
            a.clear();
            b.clear();
            let (r, q) = if k == 0 { (write!(a, "{:?}", v), write!(b, "{:?}", v.clone())) } else { (write!(a, "{:#?}", v), write!(b, "{:#?}", v.clone())) };
            if r.is_err() || q.is_err() { return Err((i, i, "debug output fails".into())) }
            if a != b { return Err((i, i, "debug output of a clone differs".into())) }
            if let Some((j, t)) = of[k].get(&class[i]) {
                if *t != a { return Err((i, *j, "equal trees have different debug output".into())) }
                continue;
            }
            if let Some(j) = back[k].insert(a.clone(), i) { return Err((i, j, "different trees have the same debug output".into())) }
            of[k].insert(class[i], (i, a.clone()));
        }
    }
    Ok(of[0].len())
}
/// default values that have a spelling: (what, does the default equal what the spelling parses to?)
pub fn defaults() -> Vec<(String, Result<(), String>)> {
    let mut v = vec![];
    fn one<'a, T: Parse<'a> + std::default::Default + PartialEq + Walk<'a> + std::fmt::Debug>(s: &'a str) -> Result<(), String> {
        let d = T::default();
        match T::parse(s) {
            Ok(("", p)) => {
                let (mut x, mut y) = (Out::default(), Out::default());
                d.walk(&mut x);
                p.walk(&mut y);
                if d != p || x.ev != y.ev || format!("{:?}", d) != format!("{:?}", p) { Err(format!("{:?} instead of {:?}", d, p)) } else { Ok(()) }
            }
            r => Err(format!("{:?}", r)),
        }
    }
    macro_rules! d {
        ($($s:expr => $t:ty),* $(,)?) => { $( v.push((format!("{}::default() and {:?}", stringify!($t), $s), one::<$t>($s))); )* };
    }
    macro_rules! all {
        ($($t:ident $s:literal),*) => { $(
            d!($s => term::$t, concat!("(", $s, ")") => Parenthesized<term::$t>, concat!("[", $s, "]") => Bracketed<term::$t>,
                concat!("{", $s, "}") => Braced<term::$t>, concat!("<", $s, ">") => Generics<term::$t>,
                concat!("(", $s, " ", $s, ")") => Parenthesized<(term::$t, term::$t)>, concat!("<", $s, ",", $s, ">") => Generics<(term::$t, term::Comma, term::$t)>);
        )* };
    }
    for_terms!(all);
    d! {
        "[]" => EmptyArrayLit, "{}" => EmptyDictionaryLit, "stringifier;" => StringifierMember,
        "()" => Parenthesized<Vec<Identifier>>, "[]" => Bracketed<Vec<Identifier>>, "{}" => Braced<InterfaceMembers>, "{}" => Braced<MixinMembers>,
        "{}" => Braced<NamespaceMembers>, "{}" => Braced<DictionaryMembers>, "<>" => Generics<Option<Type>>, "()" => Parenthesized<Option<ExtendedAttributeList>>,
        "([{<>}])" => Parenthesized<Bracketed<Braced<Generics<Vec<StringLit>>>>>, "[[]]" => Bracketed<EmptyArrayLit>, "(stringifier;)" => Parenthesized<StringifierMember>,
        "" => Vec<Identifier>, "" => Definitions, "" => Option<Identifier>,
    }
    v
}
fn relate<'a, T: Walk<'a> + Eq + Ord + std::hash::Hash + Clone + std::fmt::Debug>(vals: Vec<T>, at: &[usize], class: &[u64]) -> Result<usize, (usize, usize, String)> {
    let class: Vec<u64> = at.iter().map(|i| class[*i]).collect();
    relate_all(vals, &class).map_err(|(i, j, m)| (at[i], at[j], m))
}
fn relate_all<'a, T: Walk<'a> + Eq + Ord + std::hash::Hash + Clone + std::fmt::Debug>(vals: Vec<T>, class: &[u64]) -> Result<usize, (usize, usize, String)> {
    use std::cmp::Ordering::*;
    if VIEWS.load(std::sync::atomic::Ordering::Relaxed) { return views(vals, class); }
    let n = vals.len();
    let hashes: Vec<u64> = vals.iter().map(hash_of).collect();
    let ev = |x: &T| {
        let mut o = Out::default();
        x.walk(&mut o);
        o
    };
    for (i, a) in vals.iter().enumerate() {
        let b = a.clone();
        if !(b == *a) || b != *a || a.cmp(&b) != Equal || hash_of(&b) != hashes[i] {
            return Err((i, i, "a clone differs from its original".into()));
        }
        let (x, y) = (ev(a), ev(&b));
        if x.ev != y.ev || x.ys != y.ys {
            return Err((i, i, "a clone spells another text".into()));
        }
        let mut d = vals[(i * 7 + 3) % n].clone();
        d.clone_from(a);
        if d != *a || ev(&d).ev != x.ev {
            return Err((i, i, "clone_from yields another value".into()));
        }
    }
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (&vals[i], &vals[j]);
            let same = class[i] == class[j];
            if (a == b) != same {
                return Err((i, j, format!("== is {} for {} token sequences", a == b, if same { "equal" } else { "different" })));
            }
            if (a != b) == same {
                return Err((i, j, "!= disagrees with ==".into()));
            }
            let o = a.cmp(b);
            if (o == Equal) != same {
                return Err((i, j, format!("cmp is {:?} for {} token sequences", o, if same { "equal" } else { "different" })));
            }
            if b.cmp(a) != o.reverse() {
                return Err((i, j, "cmp is not antisymmetric".into()));
            }
            if a.partial_cmp(b) != Some(o) || (a < b) != (o == Less) || (a <= b) != (o != Greater) || (a > b) != (o == Greater) || (a >= b) != (o != Less) {
                return Err((i, j, "partial_cmp or an operator disagrees with cmp".into()));
            }
            if same && hashes[i] != hashes[j] {
                return Err((i, j, "equal values hash differently".into()));
            }
        }
    }
    // transitivity: in sorted order, every earlier element is <= every later one
    let mut ix: Vec<usize> = (0..n).collect();
    // insertion by counting smaller elements: does not rely on cmp being a total order
    let rank: Vec<usize> = (0..n).map(|i| (0..n).filter(|j| vals[*j] < vals[i]).count()).collect();
    ix.sort_by_key(|i| rank[*i]);
    for x in 0..n {
        for y in x + 1..n {
            if vals[ix[x]].cmp(&vals[ix[y]]) == Greater {
                return Err((ix[x], ix[y], "the order is not transitive".into()));
            }
        }
    }
    let mut c = class.to_vec();
    c.sort();
    c.dedup();
    Ok(c.len())
}
pub fn rels() -> &'static [Rel] {
    static E: std::sync::OnceLock<Vec<Rel>> = std::sync::OnceLock::new();
    E.get_or_init(|| {
        let mut v: Vec<Rel> = vec![];
        macro_rules! r {
            ($($name:literal $t:ty),* $(,)?) => { $(
                v.push(Rel { name: concat!($name, "::parse"), node: $name, run: {
                    fn r<'a>(s: &[&'a str], class: &[u64]) -> Result<usize, (usize, usize, String)> {
                        let mut v: Vec<$t> = vec![];
                        let mut c = vec![];
                        for (i, x) in s.iter().enumerate() {
                            if let Ok((_, y)) = <$t as Parse>::parse(x) { v.push(y); c.push(i); }
                        }
                        relate(v, &c, class)
                    }
                    r
                } });
            )* };
        }
        r! { "Definitions" Definitions<'a>, "Definition" Definition<'a>, "ExtendedAttributeList" ExtendedAttributeList<'a>, "ArgumentList" ArgumentList<'a>,
            "IdentifierList" IdentifierList<'a>, "EnumValueList" EnumValueList<'a>, "UnionType" UnionType<'a>, "Identifier" Identifier<'a>,
            "Option<Identifier>" Option<Identifier<'a>>, "Vec<Identifier>" Vec<Identifier<'a>>, "Parenthesized<Identifier>" Parenthesized<Identifier<'a>>,
            "Bracketed<Identifier>" Bracketed<Identifier<'a>>, "Braced<Identifier>" Braced<Identifier<'a>>, "Generics<Identifier>" Generics<Identifier<'a>>,
            "PunctuatedNonEmpty<Identifier, Or>" PunctuatedNonEmpty<Identifier<'a>, term::Or> }
        macro_rules! same {
            ($($t:ident)*; $($u:ident)*) => {
                $( v.push(Rel { name: concat!(stringify!($t), "::parse"), node: stringify!($t), run: {
                    fn r<'a>(s: &[&'a str], class: &[u64]) -> Result<usize, (usize, usize, String)> {
                        let mut v: Vec<$t<'a>> = vec![];
                        let mut c = vec![];
                        for (i, x) in s.iter().enumerate() {
                            if let Ok((_, y)) = <$t<'a> as Parse>::parse(x) { v.push(y); c.push(i); }
                        }
                        relate(v, &c, class)
                    }
                    r
                } }); )*
                $( v.push(Rel { name: concat!(stringify!($u), "::parse"), node: stringify!($u), run: {
                    fn r(s: &[&str], class: &[u64]) -> Result<usize, (usize, usize, String)> {
                        let mut v: Vec<$u> = vec![];
                        let mut c = vec![];
                        for (i, x) in s.iter().enumerate() {
                            if let Ok((_, y)) = <$u as Parse>::parse(x) { v.push(y); c.push(i); }
                        }
                        relate(v, &c, class)
                    }
                    r
                } }); )*
            };
        }
        same! {
            CallbackDefinition CallbackInterfaceDefinition InterfaceDefinition InterfaceMixinDefinition
            NamespaceDefinition DictionaryDefinition PartialInterfaceDefinition
            PartialInterfaceMixinDefinition PartialDictionaryDefinition PartialNamespaceDefinition
            EnumDefinition TypedefDefinition IncludesStatementDefinition ImplementsDefinition
            Default SingleArgument VariadicArgument Argument
            ExtendedAttribute ExtendedAttributeArgList ExtendedAttributeNamedArgList
            ExtendedAttributeIdentList ExtendedAttributeIdent ExtendedAttributeWildCard
            ExtendedAttributeNoArgs IdentifierOrString
            DictionaryMember Inheritance InterfaceMember ConstMember AttributeInterfaceMember
            ConstructorInterfaceMember OperationInterfaceMember IterableInterfaceMember
            SingleTypedIterable DoubleTypedIterable AsyncIterableInterfaceMember
            SingleTypedAsyncIterable DoubleTypedAsyncIterable MaplikeInterfaceMember
            SetlikeInterfaceMember StringifierMember MixinMember OperationMixinMember AttributeMixinMember
            NamespaceMember ConstNamespaceMember OperationNamespaceMember AttributeNamespaceMember
            IntegerLit DecLit HexLit OctLit StringLit DefaultValue ConstValue FloatLit FloatValueLit
            Type SingleType NonAnyType SequenceType FrozenArrayType PromiseType RecordType
            RecordKeyType UnionMemberType ConstType ReturnType AttributedType AttributedNonAnyType
            ;
            Special StringifierOrInheritOrStatic StringifierOrStatic EmptyArrayLit EmptyDictionaryLit BooleanLit
            IntegerType LongLongType LongType ShortType FloatingPointType FloatType DoubleType
        }
        v.push(Rel { name: "parse", node: "Definitions", run: {
            fn r<'a>(s: &[&'a str], class: &[u64]) -> Result<usize, (usize, usize, String)> {
                let mut v: Vec<Definitions<'a>> = vec![];
                        let mut c = vec![];
                for (i, x) in s.iter().enumerate() {
                    if let Ok(y) = weedle::parse(x) { v.push(y); c.push(i); }
                }
                relate(v, &c, class)
            }
            r
        } });
        v
    })
}

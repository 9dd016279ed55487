//! The reference model: a data-driven transcription of the documented WebIDL grammar, in two
//! variants.
//!   strict  - reserved words are not identifiers (except where WebIDL says so), lists that the
//!             grammar requires to be non-empty are: everything derivable MUST be accepted, with
//!             exactly the derivation's tree.
//!   lenient - any word is a name, such lists may be empty/short: everything NOT derivable MUST
//!             be rejected.
use crate::tok::*;
use std::collections::HashMap;

pub type Id = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cls {
    Plain,
    Arg,
    Attr,
    Op,
}

#[derive(Clone, Debug)]
pub enum G {
    T(u8),
    Name(Cls),
    Lit(u8),
    Seq(Vec<Id>),
    Alt(Vec<Id>),
    Opt(Id),
    /// an optional part that is absent here: no tokens, recorded as absent
    Absent,
    Many(Id),
    Sep { item: Id, sep: u8, min: usize, trail: bool },
    Lab(&'static str, Id),
    Reserved,
}

pub struct Grammar {
    pub g: Vec<G>,
    pub strict: bool,
    pub named: HashMap<&'static str, Id>,
    /// every node built under a name (a production may be instantiated per position)
    pub every: HashMap<&'static str, Vec<Id>>,
    pub nullable: Vec<bool>,
    pub first: Vec<[u64; 4]>,
    /// per choice: the alternatives left when the vocabulary is narrowed to a representative few
    pub narrow: [Vec<Option<Vec<usize>>>; 4],
}
/// alternatives kept in the narrow vocabularies (all others of the same node are left out): 1 plain, 2 with
/// composite types, 3 with all forms of attributes
const NARROW: &[&str] = &["NonAnyType.Integer", "NonAnyType.Identifier", "IntegerType.Short", "FloatingPointType.Float", "ConstType.Integer", "ConstType.Identifier", "RecordKeyType.DOM",
    "DefaultValue.Integer", "DefaultValue.String", "ConstValue.Integer", "IntegerLit.Dec", "FloatLit.Value", "ExtendedAttribute.NoArgs", "ExtendedAttribute.Ident", "UnionMemberType.Single", "SingleType.NonAny"];
const NARROW_TYPES: &[&str] = &["NonAnyType.Sequence", "NonAnyType.RecordType", "NonAnyType.Promise", "UnionMemberType.Union", "SingleType.Any"];

fn bit(s: &[u64; 4], k: u8) -> bool {
    s[(k >> 6) as usize] >> (k & 63) & 1 == 1
}
fn set(s: &mut [u64; 4], k: u8) {
    s[(k >> 6) as usize] |= 1 << (k & 63);
}

struct B {
    g: Vec<G>,
    strict: bool,
    named: HashMap<&'static str, Id>,
    every: HashMap<&'static str, Vec<Id>>,
    ext_attr: Id,
    argument: Id,
    ty: Id,
}
impl B {
    fn add(&mut self, x: G) -> Id {
        self.g.push(x);
        self.g.len() - 1
    }
    fn t(&mut self, s: &str) -> Id {
        self.add(G::T(kind_of(s)))
    }
    fn seq(&mut self, v: Vec<Id>) -> Id {
        self.add(G::Seq(v))
    }
    fn opt(&mut self, x: Id) -> Id {
        self.add(G::Opt(x))
    }
    fn optt(&mut self, s: &str) -> Id {
        let x = self.t(s);
        self.opt(x)
    }
    fn absent(&mut self) -> Id {
        self.add(G::Absent)
    }
    fn name(&mut self) -> Id {
        self.add(G::Name(Cls::Plain))
    }
    fn namec(&mut self, c: Cls) -> Id {
        self.add(G::Name(c))
    }
    fn lab(&mut self, l: &'static str, x: Id) -> Id {
        self.add(G::Lab(l, x))
    }
    /// a struct node
    fn st(&mut self, l: &'static str, v: Vec<Id>) -> Id {
        let s = self.seq(v);
        let r = self.lab(l, s);
        self.named.entry(l).or_insert(r);
        self.every.entry(l).or_default().push(r);
        r
    }
    /// an enum node: variants simplest first (index 0 is the generator's default)
    fn en(&mut self, l: &'static str, v: Vec<(&'static str, Id)>) -> Id {
        let mut alts = vec![];
        for (n, x) in v {
            let full: &'static str = Box::leak(format!("{}.{}", l, n).into_boxed_str());
            alts.push(self.lab(full, x));
        }
        let r = self.add(G::Alt(alts));
        self.named.entry(l).or_insert(r);
        self.every.entry(l).or_default().push(r);
        r
    }
    fn wrap(&mut self, o: &str, x: Id, c: &str) -> Id {
        let a = self.t(o);
        let b = self.t(c);
        self.seq(vec![a, x, b])
    }
    fn sep(&mut self, item: Id, s: &str, min: usize) -> Id {
        self.add(G::Sep { item, sep: kind_of(s), min, trail: false })
    }
    fn attr_list(&mut self) -> Id {
        let m = if self.strict { 1 } else { 0 };
        let e = self.ext_attr;
        let l = self.sep(e, ",", m);
        self.wrap("[", l, "]")
    }
    fn attrs(&mut self) -> Id {
        let l = self.attr_list();
        self.opt(l)
    }
    fn args(&mut self) -> Id {
        let a = self.argument;
        let l = self.sep(a, ",", 0);
        self.wrap("(", l, ")")
    }
    fn attributed(&mut self) -> Id {
        let a = self.attrs();
        let t = self.ty;
        self.st("AttributedType", vec![a, t])
    }
    fn nul(&mut self, x: Id) -> Id {
        let q = self.optt("?");
        self.st("MayBeNull", vec![x, q])
    }
    fn nult(&mut self, s: &str) -> Id {
        let x = self.t(s);
        self.nul(x)
    }
    fn many_braced(&mut self, x: Id) -> Id {
        let m = self.add(G::Many(x));
        self.wrap("{", m, "}")
    }
    fn ent(&mut self, l: &'static str, v: &[(&'static str, &'static str)]) -> Id {
        let mut r = vec![];
        for (a, b) in v {
            let x = self.t(b);
            r.push((*a, x));
        }
        self.en(l, r)
    }
}

pub fn build(strict: bool) -> Grammar {
    let mut b = B { g: vec![], strict, named: HashMap::new(), every: HashMap::new(), ext_attr: 0, argument: 0, ty: 0 };
    b.ext_attr = b.add(G::Reserved);
    b.argument = b.add(G::Reserved);
    b.ty = b.add(G::Reserved);
    let non_any = b.add(G::Reserved);
    let ret = b.add(G::Reserved);

    macro_rules! st { ($l:expr, $($x:expr),* $(,)?) => {{ let v = vec![$($x),*]; b.st($l, v) }}; }
    macro_rules! en { ($l:expr, $($n:literal => $x:expr),* $(,)?) => {{ let v = vec![$(($n, $x)),*]; b.en($l, v) }}; }

    // ---- literals
    let lit = |b: &mut B, l: &'static str, k: u8| {
        let x = b.add(G::Lit(k));
        b.st(l, vec![x])
    };
    let string_lit = lit(&mut b, "StringLit", STR);
    let dec = lit(&mut b, "DecLit", DEC);
    let hex = lit(&mut b, "HexLit", HEX);
    let oct = lit(&mut b, "OctLit", OCT);
    let integer_lit = en!("IntegerLit", "Dec" => dec, "Hex" => hex, "Oct" => oct);
    let fv = lit(&mut b, "FloatValueLit", FLOAT);
    let float_lit = en!("FloatLit", "Value" => fv, "NegInfinity" => b.t("-Infinity"),
        "Infinity" => b.t("Infinity"), "NaN" => b.t("NaN"));
    let bt = b.t("true");
    let bf = b.t("false");
    let balt = b.add(G::Alt(vec![bt, bf]));
    let boolean_lit = st!("BooleanLit", balt);
    let null1 = b.t("null");
    let const_value = en!("ConstValue", "Integer" => integer_lit, "Float" => float_lit,
        "Boolean" => boolean_lit, "Null" => null1);
    let ea = st!("EmptyArrayLit", b.t("["), b.t("]"));
    let ed = st!("EmptyDictionaryLit", b.t("{"), b.t("}"));
    let null2 = b.t("null");
    let default_value = en!("DefaultValue", "Integer" => integer_lit, "Float" => float_lit,
        "Boolean" => boolean_lit, "Null" => null2, "String" => string_lit,
        "EmptyArray" => ea, "EmptyDictionary" => ed);
    let default = st!("Default", b.t("="), default_value);

    // ---- types
    let integer_type = {
        let s = st!("ShortType", b.optt("unsigned"), b.t("short"));
        let l = st!("LongType", b.optt("unsigned"), b.t("long"));
        let ll = st!("LongLongType", b.optt("unsigned"), b.t("long"), b.t("long"));
        en!("IntegerType", "Short" => s, "Long" => l, "LongLong" => ll)
    };
    let float_type = {
        let f = st!("FloatType", b.optt("unrestricted"), b.t("float"));
        let d = st!("DoubleType", b.optt("unrestricted"), b.t("double"));
        en!("FloatingPointType", "Float" => f, "Double" => d)
    };
    let ty = b.ty;
    let promise = {
        let g = b.wrap("<", ret, ">");
        st!("PromiseType", b.t("Promise"), g)
    };
    let sequence = {
        let g = b.wrap("<", ty, ">");
        st!("SequenceType", b.t("sequence"), g)
    };
    let frozen = {
        let g = b.wrap("<", ty, ">");
        st!("FrozenArrayType", b.t("FrozenArray"), g)
    };
    let record_key = b.add(G::Reserved);
    let record = {
        let c = b.t(",");
        let i = b.seq(vec![record_key, c, ty]);
        let g = b.wrap("<", i, ">");
        st!("RecordType", b.t("record"), g)
    };
    let mut simple: Vec<(&'static str, Id)> = vec![];
    {
        let x = b.nul(integer_type);
        simple.push(("Integer", x));
        let x = b.nul(float_type);
        simple.push(("FloatingPoint", x));
        for (n, t) in [
            ("Boolean", "boolean"), ("Byte", "byte"), ("Octet", "octet"),
            ("ByteString", "ByteString"), ("DOMString", "DOMString"), ("USVString", "USVString"),
            ("Object", "object"), ("Symbol", "symbol"), ("Error", "Error"),
            ("ArrayBuffer", "ArrayBuffer"), ("DataView", "DataView"), ("Int8Array", "Int8Array"),
            ("Int16Array", "Int16Array"), ("Int32Array", "Int32Array"),
            ("Uint8Array", "Uint8Array"), ("Uint16Array", "Uint16Array"),
            ("Uint32Array", "Uint32Array"), ("Uint8ClampedArray", "Uint8ClampedArray"),
            ("Float32Array", "Float32Array"), ("Float64Array", "Float64Array"),
            ("ArrayBufferView", "ArrayBufferView"), ("BufferSource", "BufferSource"),
        ] {
            let x = b.nult(t);
            simple.push((n, x));
        }
        let x = b.nul(sequence);
        simple.push(("Sequence", x));
        let x = b.nul(frozen);
        simple.push(("FrozenArrayType", x));
        let x = b.nul(record);
        simple.push(("RecordType", x));
        simple.push(("Promise", promise));
        let n = b.name();
        let x = b.nul(n);
        simple.push(("Identifier", x));
    }
    let na = b.en("NonAnyType", simple.clone());
    b.g[non_any] = b.g[na].clone();
    b.named.insert("NonAnyType", non_any);
    // record keys: a string type, or any other type
    {
        let key_na = if strict {
            let v: Vec<_> = simple
                .iter()
                .filter(|(n, _)| !["ByteString", "DOMString", "USVString"].contains(n))
                .cloned()
                .collect();
            b.en("NonAnyType", v)
        } else {
            non_any
        };
        let x = en!("RecordKeyType", "DOM" => b.t("DOMString"), "USV" => b.t("USVString"),
            "Byte" => b.t("ByteString"), "NonAny" => key_na);
        b.g[record_key] = b.g[x].clone();
        b.named.insert("RecordKeyType", record_key);
    }
    let union_ty = b.add(G::Reserved);
    let union_member = {
        let a = b.attrs();
        let s = st!("AttributedNonAnyType", a, non_any);
        let u = b.nul(union_ty);
        en!("UnionMemberType", "Single" => s, "Union" => u)
    };
    {
        let l = b.sep(union_member, "or", if strict { 2 } else { 0 });
        let u = b.wrap("(", l, ")");
        b.g[union_ty] = b.g[u].clone();
        b.named.insert("UnionType", union_ty);
    }
    {
        let single = en!("SingleType", "NonAny" => non_any, "Any" => b.t("any"));
        let u = b.nul(union_ty);
        let x = en!("Type", "Single" => single, "Union" => u);
        b.g[ty] = b.g[x].clone();
        b.named.insert("Type", ty);
        let r = en!("ReturnType", "Undefined" => b.t("undefined"), "Type" => ty);
        b.g[ret] = b.g[r].clone();
        b.named.insert("ReturnType", ret);
    }
    let const_type = |b: &mut B| {
        let mut v = vec![];
        let x = b.nul(integer_type);
        v.push(("Integer", x));
        let x = b.nul(float_type);
        v.push(("FloatingPoint", x));
        for (n, t) in [("Boolean", "boolean"), ("Byte", "byte"), ("Octet", "octet")] {
            let x = b.nult(t);
            v.push((n, x));
        }
        let n = b.name();
        let x = b.nul(n);
        v.push(("Identifier", x));
        b.en("ConstType", v)
    };

    // ---- arguments
    {
        // not optional: no default; the annotations precede the whole argument
        let a1 = b.attrs();
        let n1 = b.absent();
        let t1 = if strict {
            let none = b.absent();
            b.st("AttributedType", vec![none, ty])
        } else {
            b.attributed()
        };
        let i1 = b.namec(Cls::Arg);
        let d1 = b.absent();
        let s1 = st!("SingleArgument", a1, n1, t1, i1, d1);
        let a2 = b.attrs();
        let o2 = b.t("optional");
        let t2 = b.attributed();
        let i2 = b.namec(Cls::Arg);
        let d2 = b.opt(default);
        let s2 = st!("SingleArgument", a2, o2, t2, i2, d2);
        let single = b.add(G::Alt(vec![s1, s2]));
        b.named.insert("SingleArgument", single);
        let a3 = b.attrs();
        let i3 = b.namec(Cls::Arg);
        let v = st!("VariadicArgument", a3, ty, b.t("..."), i3);
        let x = en!("Argument", "Single" => single, "Variadic" => v);
        let arg = b.argument;
        b.g[arg] = b.g[x].clone();
        b.named.insert("Argument", arg);
    }
    // `AttributedType` on its own is the general form
    let at = b.attributed();
    b.named.insert("AttributedType", at);

    // ---- extended attributes
    {
        let no = { let n = b.name(); st!("ExtendedAttributeNoArgs", n) };
        let al = { let n = b.name(); let a = b.args(); st!("ExtendedAttributeArgList", n, a) };
        let nal = { let n = b.name(); let e = b.t("="); let m = b.name(); let a = b.args();
            st!("ExtendedAttributeNamedArgList", n, e, m, a) };
        let il = { let n = b.name(); let e = b.t("="); let i = b.name();
            let l = b.sep(i, ",", if strict { 1 } else { 0 });
            let l = b.wrap("(", l, ")");
            st!("ExtendedAttributeIdentList", n, e, l) };
        let ios = { let n = b.name(); en!("IdentifierOrString", "Identifier" => n, "String" => string_lit) };
        let id = { let n = b.name(); let e = b.t("="); st!("ExtendedAttributeIdent", n, e, ios) };
        let w = { let n = b.name(); let e = b.t("="); let s = b.t("*"); st!("ExtendedAttributeWildCard", n, e, s) };
        let x = en!("ExtendedAttribute", "NoArgs" => no, "ArgList" => al, "NamedArgList" => nal,
            "IdentList" => il, "Ident" => id, "Wildcard" => w);
        let e = b.ext_attr;
        b.g[e] = b.g[x].clone();
        b.named.insert("ExtendedAttribute", e);
    }

    // ---- members
    let const_member = |b: &mut B, l: &'static str| {
        let a = b.attrs();
        let c = b.t("const");
        let t = const_type(b);
        let n = b.name();
        let e = b.t("=");
        let s = b.t(";");
        b.st(l, vec![a, c, t, n, e, const_value, s])
    };
    let iface_const = const_member(&mut b, "ConstMember");
    let mixin_const = const_member(&mut b, "ConstMember");
    let ns_const = const_member(&mut b, "ConstNamespaceMember");
    let stringifier_member = |b: &mut B| {
        let a = b.attrs();
        let k = b.t("stringifier");
        let s = b.t(";");
        b.st("StringifierMember", vec![a, k, s])
    };
    let iface_stringifier = stringifier_member(&mut b);
    let mixin_stringifier = stringifier_member(&mut b);
    let sis = b.ent("StringifierOrInheritOrStatic",
        &[("Stringifier", "stringifier"), ("Inherit", "inherit"), ("Static", "static")]);
    let ss = b.ent("StringifierOrStatic", &[("Stringifier", "stringifier"), ("Static", "static")]);
    let special = b.ent("Special", &[("Getter", "getter"), ("Setter", "setter"),
        ("Deleter", "deleter"), ("LegacyCaller", "legacycaller")]);
    let gen1 = |b: &mut B| { let a = b.attributed(); b.wrap("<", a, ">") };
    let gen2 = |b: &mut B| {
        let a = b.attributed();
        let c = b.t(",");
        let d = b.attributed();
        let i = b.seq(vec![a, c, d]);
        b.wrap("<", i, ">")
    };
    let iface_member = {
        let attr = { let a = b.attrs(); let m = b.opt(sis); let r = b.optt("readonly");
            let k = b.t("attribute"); let t = b.attributed(); let n = b.namec(Cls::Attr); let s = b.t(";");
            st!("AttributeInterfaceMember", a, m, r, k, t, n, s) };
        let ctor = { let a = b.attrs(); let k = b.t("constructor"); let g = b.args(); let s = b.t(";");
            st!("ConstructorInterfaceMember", a, k, g, s) };
        let op = { let a = b.attrs(); let m = b.opt(ss); let sp = b.opt(special);
            let n = b.namec(Cls::Op); let n = b.opt(n); let g = b.args(); let s = b.t(";");
            st!("OperationInterfaceMember", a, m, sp, ret, n, g, s) };
        let it = {
            let s1 = { let a = b.attrs(); let k = b.t("iterable"); let g = gen1(&mut b); let s = b.t(";");
                st!("SingleTypedIterable", a, k, g, s) };
            let s2 = { let a = b.attrs(); let k = b.t("iterable"); let g = gen2(&mut b); let s = b.t(";");
                st!("DoubleTypedIterable", a, k, g, s) };
            en!("IterableInterfaceMember", "Single" => s1, "Double" => s2)
        };
        let ait = {
            let s1 = { let a = b.attrs(); let k1 = b.t("async"); let k2 = b.t("iterable"); let g = gen1(&mut b);
                let r = b.args(); let r = b.opt(r); let s = b.t(";");
                st!("SingleTypedAsyncIterable", a, k1, k2, g, r, s) };
            let s2 = { let a = b.attrs(); let k1 = b.t("async"); let k2 = b.t("iterable"); let g = gen2(&mut b);
                let r = b.args(); let r = b.opt(r); let s = b.t(";");
                st!("DoubleTypedAsyncIterable", a, k1, k2, g, r, s) };
            en!("AsyncIterableInterfaceMember", "Single" => s1, "Double" => s2)
        };
        let map = { let a = b.attrs(); let r = b.optt("readonly"); let k = b.t("maplike"); let g = gen2(&mut b);
            let s = b.t(";"); st!("MaplikeInterfaceMember", a, r, k, g, s) };
        let set = { let a = b.attrs(); let r = b.optt("readonly"); let k = b.t("setlike"); let g = gen1(&mut b);
            let s = b.t(";"); st!("SetlikeInterfaceMember", a, r, k, g, s) };
        en!("InterfaceMember", "Attribute" => attr, "Const" => iface_const, "Constructor" => ctor,
            "Operation" => op, "Iterable" => it, "AsyncIterable" => ait, "Maplike" => map,
            "Setlike" => set, "Stringifier" => iface_stringifier)
    };
    let mixin_member = {
        let op = { let a = b.attrs(); let m = b.optt("stringifier"); let n = b.namec(Cls::Op); let n = b.opt(n);
            let g = b.args(); let s = b.t(";");
            st!("OperationMixinMember", a, m, ret, n, g, s) };
        let attr = { let a = b.attrs(); let m = b.optt("stringifier"); let r = b.optt("readonly");
            let k = b.t("attribute"); let t = b.attributed(); let n = b.namec(Cls::Attr); let s = b.t(";");
            st!("AttributeMixinMember", a, m, r, k, t, n, s) };
        en!("MixinMember", "Attribute" => attr, "Const" => mixin_const, "Operation" => op,
            "Stringifier" => mixin_stringifier)
    };
    let ns_member = {
        let op = { let a = b.attrs(); let n = b.namec(Cls::Op); let n = b.opt(n);
            let g = b.args(); let s = b.t(";");
            st!("OperationNamespaceMember", a, ret, n, g, s) };
        let attr = { let a = b.attrs(); let r = b.t("readonly");
            let k = b.t("attribute"); let t = b.attributed(); let n = b.namec(Cls::Attr); let s = b.t(";");
            st!("AttributeNamespaceMember", a, r, k, t, n, s) };
        en!("NamespaceMember", "Attribute" => attr, "Const" => ns_const, "Operation" => op)
    };
    let dict_member = { let a = b.attrs(); let r = b.optt("required"); let n = b.name(); let d = b.opt(default);
        let s = b.t(";"); st!("DictionaryMember", a, r, ty, n, d, s) };

    // ---- definitions
    let inh = |b: &mut B| { let c = b.t(":"); let n = b.name(); b.st("Inheritance", vec![c, n]) };
    macro_rules! def {
        ($l:expr; $($k:expr),* ; $inh:expr ; $m:expr) => {{
            let mut v = vec![b.attrs()];
            $( v.push(b.t($k)); )*
            v.push(b.name());
            if $inh { let i = inh(&mut b); v.push(b.opt(i)); }
            v.push(b.many_braced($m));
            v.push(b.t(";"));
            b.st($l, v)
        }};
    }
    let d_iface = def!("InterfaceDefinition"; "interface"; true; iface_member);
    let d_cbi = def!("CallbackInterfaceDefinition"; "callback", "interface"; true; iface_member);
    let d_mixin = def!("InterfaceMixinDefinition"; "interface", "mixin"; false; mixin_member);
    let d_ns = def!("NamespaceDefinition"; "namespace"; false; ns_member);
    let d_dict = def!("DictionaryDefinition"; "dictionary"; true; dict_member);
    let d_pi = def!("PartialInterfaceDefinition"; "partial", "interface"; false; iface_member);
    let d_pm = def!("PartialInterfaceMixinDefinition"; "partial", "interface", "mixin"; false; mixin_member);
    let d_pd = def!("PartialDictionaryDefinition"; "partial", "dictionary"; false; dict_member);
    let d_pn = def!("PartialNamespaceDefinition"; "partial", "namespace"; false; ns_member);
    let d_cb = { let a = b.attrs(); let k = b.t("callback"); let n = b.name(); let e = b.t("="); let g = b.args();
        let s = b.t(";"); st!("CallbackDefinition", a, k, n, e, ret, g, s) };
    let d_enum = {
        let a = b.attrs(); let k = b.t("enum"); let n = b.name();
        let l = b.add(G::Sep { item: string_lit, sep: kind_of(","), min: 1, trail: true });
        b.named.insert("EnumValueList", l);
        let l = b.wrap("{", l, "}"); let s = b.t(";");
        st!("EnumDefinition", a, k, n, l, s)
    };
    let d_td = { let a = b.attrs(); let k = b.t("typedef"); let t = b.attributed(); let n = b.name(); let s = b.t(";");
        st!("TypedefDefinition", a, k, t, n, s) };
    let d_inc = { let a = b.attrs(); let n = b.name(); let k = b.t("includes"); let m = b.name(); let s = b.t(";");
        st!("IncludesStatementDefinition", a, n, k, m, s) };
    let d_imp = { let a = b.attrs(); let n = b.name(); let k = b.t("implements"); let m = b.name(); let s = b.t(";");
        st!("ImplementsDefinition", a, n, k, m, s) };
    let definition = en!("Definition",
        "Interface" => d_iface, "Callback" => d_cb, "CallbackInterface" => d_cbi,
        "InterfaceMixin" => d_mixin, "Namespace" => d_ns, "Dictionary" => d_dict,
        "PartialInterface" => d_pi, "PartialInterfaceMixin" => d_pm,
        "PartialDictionary" => d_pd, "PartialNamespace" => d_pn, "Enum" => d_enum,
        "Typedef" => d_td, "IncludesStatement" => d_inc, "Implements" => d_imp);
    let doc = b.add(G::Many(definition));
    b.named.insert("Definitions", doc);

    // ---- containers addressed on their own
    let n = b.name();
    b.named.insert("Identifier", n);
    let l = b.attr_list();
    b.named.insert("ExtendedAttributeList", l);
    let a = b.argument;
    let l = b.sep(a, ",", 0);
    b.named.insert("ArgumentList", l);
    let n = b.name();
    let l = b.sep(n, ",", 0);
    b.named.insert("IdentifierList", l);
    let o = b.opt(n);
    b.named.insert("Option<Identifier>", o);
    let m = b.add(G::Many(n));
    b.named.insert("Vec<Identifier>", m);
    for (nm, x) in [("Vec<InterfaceMember>", iface_member), ("Vec<MixinMember>", mixin_member),
        ("Vec<NamespaceMember>", ns_member), ("Vec<DictionaryMember>", dict_member)] {
        let m = b.add(G::Many(x));
        b.named.insert(nm, m);
    }
    let c = b.t(",");
    let n2 = b.name();
    let t2 = b.seq(vec![n, n2]);
    b.named.insert("(Identifier, Identifier)", t2);
    let t3 = b.seq(vec![n, c, string_lit]);
    b.named.insert("(Identifier, Comma, StringLit)", t3);
    for (nm, o, c) in [("Parenthesized<Identifier>", "(", ")"), ("Bracketed<Identifier>", "[", "]"),
        ("Braced<Identifier>", "{", "}"), ("Generics<Identifier>", "<", ">")] {
        let w = b.wrap(o, n, c);
        b.named.insert(nm, w);
    }
    let l = b.add(G::Sep { item: n, sep: kind_of("or"), min: 1, trail: true });
    b.named.insert("PunctuatedNonEmpty<Identifier, Or>", l);

    for (n, i) in &b.named {
        let e = b.every.entry(n).or_default();
        if !e.contains(i) { e.push(*i); }
    }
    let mut gr = Grammar { g: b.g, strict, named: b.named, every: b.every, nullable: vec![], first: vec![], narrow: Default::default() };
    gr.narrow = [1, 1, 2, 3].map(|l| (0..gr.g.len()).map(|i| gr.narrowed(i, l)).collect());
    gr.analyse();
    gr
}

impl Grammar {
    fn narrowed(&self, id: Id, level: u8) -> Option<Vec<usize>> {
        let G::Alt(v) = &self.g[id] else { return None };
        let labels: Vec<&str> = v.iter().map(|x| match &self.g[*x] { G::Lab(l, _) => *l, _ => "" }).collect();
        let keep: Vec<usize> = (0..v.len()).filter(|i| NARROW.contains(&labels[*i]) || level == 2 && NARROW_TYPES.contains(&labels[*i]) || level == 3 && labels[*i].starts_with("ExtendedAttribute.")).collect();
        if keep.is_empty() { None } else { Some(keep) }
    }
    pub fn id(&self, n: &str) -> Id {
        *self.named.get(n).unwrap_or_else(|| panic!("no node {}", n))
    }
    pub fn name_ok(&self, c: Cls, k: u8) -> bool {
        if k == IDENT {
            return true;
        }
        if !name_like(k) {
            return false;
        }
        if !self.strict {
            return true;
        }
        let w = term_text(k);
        match c {
            Cls::Plain => false,
            Cls::Arg => ARG_KW.contains(&w),
            Cls::Attr => ATTR_KW.contains(&w),
            Cls::Op => OP_KW.contains(&w),
        }
    }
    fn analyse(&mut self) {
        let n = self.g.len();
        self.nullable = vec![false; n];
        self.first = vec![[0; 4]; n];
        loop {
            let mut ch = false;
            for i in 0..n {
                let (nu, fi) = match &self.g[i] {
                    G::T(k) => { let mut f = [0; 4]; set(&mut f, *k); (false, f) }
                    G::Lit(k) => { let mut f = [0; 4]; set(&mut f, *k); (false, f) }
                    G::Name(c) => {
                        let mut f = [0; 4];
                        for k in 0..=255u8 {
                            if k < 210 && self.name_ok(*c, k) {
                                set(&mut f, k);
                            }
                        }
                        (false, f)
                    }
                    G::Absent => (true, [0; 4]),
                    G::Seq(v) => {
                        let mut f = [0; 4];
                        let mut nu = true;
                        for x in v {
                            for j in 0..4 { f[j] |= self.first[*x][j]; }
                            if !self.nullable[*x] { nu = false; break; }
                        }
                        (nu, f)
                    }
                    G::Alt(v) => {
                        let mut f = [0; 4];
                        let mut nu = false;
                        for x in v {
                            for j in 0..4 { f[j] |= self.first[*x][j]; }
                            nu |= self.nullable[*x];
                        }
                        (nu, f)
                    }
                    G::Opt(x) | G::Many(x) => (true, self.first[*x]),
                    G::Sep { item, min, .. } => (*min == 0, self.first[*item]),
                    G::Lab(_, x) => (self.nullable[*x], self.first[*x]),
                    G::Reserved => panic!("reserved node {}", i),
                };
                if nu != self.nullable[i] || fi != self.first[i] {
                    ch = true;
                    self.nullable[i] = nu;
                    self.first[i] = fi;
                }
            }
            if !ch { break; }
        }
    }
    pub fn children(&self, id: Id) -> Vec<Id> {
        match &self.g[id] {
            G::Seq(v) | G::Alt(v) => v.clone(),
            G::Opt(x) | G::Many(x) | G::Lab(_, x) => vec![*x],
            G::Sep { item, .. } => vec![*item],
            _ => vec![],
        }
    }
    /// All occurrences of `target` reachable from `root`: for each grammar edge parent->target the
    /// shortest chain of nodes root..=target through that edge.
    pub fn contexts(&self, root: Id, target: Id) -> Vec<Vec<Id>> {
        let mut prev: HashMap<Id, Id> = HashMap::new();
        let mut order = vec![root];
        prev.insert(root, usize::MAX);
        let mut i = 0;
        while i < order.len() {
            let x = order[i];
            i += 1;
            if x == target { continue; }
            for c in self.children(x) {
                if !prev.contains_key(&c) {
                    prev.insert(c, x);
                    order.push(c);
                }
            }
        }
        let mut res = vec![];
        let mut seen = std::collections::HashSet::new();
        for &x in &order {
            if self.children(x).contains(&target) && seen.insert(x) {
                let mut path = vec![target, x];
                let mut y = prev[&x];
                while y != usize::MAX {
                    path.push(y);
                    y = prev[&y];
                }
                path.reverse();
                // a path through the target itself would explore a nested hole; keep only outermost
                if path[..path.len() - 1].contains(&target) { continue; }
                res.push(path);
            }
        }
        res
    }
    pub fn reachable(&self, root: Id) -> Vec<Id> {
        let mut seen = vec![false; self.g.len()];
        let mut st = vec![root];
        let mut out = vec![];
        while let Some(x) = st.pop() {
            if seen[x] { continue; }
            seen[x] = true;
            out.push(x);
            st.extend(self.children(x));
        }
        out.sort();
        out
    }
}

// ------------------------------------------------------------------ events (canonical trees)

/// Canonical tree encoding, shared by the model and the walker over the library's own AST.
pub fn ev_open(s: &mut String, l: &str) { s.push_str(l); s.push('<'); }
pub fn ev_close(s: &mut String) { s.push('>'); }
pub fn ev_term(s: &mut String, t: &str) { s.push('`'); s.push_str(t); s.push(' '); }
pub fn ev_none(s: &mut String) { s.push('~'); }
pub fn ev_list(s: &mut String) { s.push_str("[["); }
pub fn ev_list_end(s: &mut String) { s.push_str("]]"); }
pub fn ev_text(s: &mut String, c: char, t: &str) {
    use std::fmt::Write;
    s.push(c);
    let _ = write!(s, "{}:", t.len());
    s.push_str(t);
    s.push(' ');
}
pub fn lit_char(k: u8) -> char {
    match k { STR => 's', DEC => 'd', HEX => 'x', OCT => 'o', FLOAT => 'f', _ => '?' }
}

// ------------------------------------------------------------------ recogniser

#[derive(Default)]
pub struct Rec {
    memo: Vec<(u32, u32, u32)>, // (stamp, start, len)
    stamp: u32,
    pool: Vec<u32>,
    n: usize,
    pub hit_eof: bool,
    pub steps: u64,
}
impl Rec {
    fn reset(&mut self, g: &Grammar, n: usize) {
        let need = g.g.len() * (n + 1);
        if self.memo.len() < need {
            self.memo.resize(need, (0, 0, 0));
        }
        self.stamp += 1;
        self.pool.clear();
        self.n = n;
        self.hit_eof = false;
    }
    /// does `id` derive exactly `t`?  (also sets hit_eof: is `t` a viable prefix)
    pub fn accepts(&mut self, g: &Grammar, id: Id, t: &[Tok]) -> bool {
        self.reset(g, t.len());
        let (s, l) = self.ends(g, id, 0, t);
        self.pool[s as usize..(s + l) as usize].contains(&(t.len() as u32))
    }
    /// number of tokens of the longest prefix of `t` that `id` derives
    pub fn longest(&mut self, g: &Grammar, id: Id, t: &[Tok]) -> Option<usize> {
        self.reset(g, t.len());
        let (s, l) = self.ends(g, id, 0, t);
        self.pool[s as usize..(s + l) as usize].iter().map(|x| *x as usize).max()
    }
    /// the tree of a derivation of `t` from `id`, appended to `ev`
    pub fn tree(&mut self, g: &Grammar, id: Id, t: &[Tok], ev: &mut String) -> bool {
        if !self.accepts(g, id, t) {
            return false;
        }
        self.emit(g, id, 0, t.len(), t, ev)
    }
    fn ends(&mut self, g: &Grammar, id: Id, pos: usize, t: &[Tok]) -> (u32, u32) {
        if pos >= t.len() {
            if g.first[id] != [0; 4] {
                self.hit_eof = true;
            }
            let s = self.pool.len() as u32;
            if g.nullable[id] {
                self.pool.push(pos as u32);
                return (s, 1);
            }
            return (s, 0);
        }
        if !bit(&g.first[id], t[pos].k) {
            let s = self.pool.len() as u32;
            if g.nullable[id] {
                self.pool.push(pos as u32);
                return (s, 1);
            }
            return (s, 0);
        }
        let key = id * (self.n + 1) + pos;
        let m = self.memo[key];
        if m.0 == self.stamp {
            return (m.1, m.2);
        }
        self.steps += 1;
        let mut res: Vec<u32> = Vec::new();
        match &g.g[id] {
            G::T(_) | G::Name(_) | G::Lit(_) => res.push(pos as u32 + 1), // FIRST test passed
            G::Absent => res.push(pos as u32),
            G::Lab(_, x) => {
                let r = self.ends(g, *x, pos, t);
                self.memo[key] = (self.stamp, r.0, r.1);
                return r;
            }
            G::Seq(v) => {
                let mut cur = vec![pos as u32];
                for x in v {
                    let mut nxt: Vec<u32> = Vec::new();
                    for p in cur {
                        let (s, l) = self.ends(g, *x, p as usize, t);
                        for i in s..s + l {
                            let e = self.pool[i as usize];
                            if !nxt.contains(&e) { nxt.push(e); }
                        }
                    }
                    cur = nxt;
                    if cur.is_empty() { break; }
                }
                res = cur;
            }
            G::Alt(v) => {
                for x in v {
                    let (s, l) = self.ends(g, *x, pos, t);
                    for i in s..s + l {
                        let e = self.pool[i as usize];
                        if !res.contains(&e) { res.push(e); }
                    }
                }
            }
            G::Opt(x) => {
                let (s, l) = self.ends(g, *x, pos, t);
                for i in s..s + l { res.push(self.pool[i as usize]); }
                if !res.contains(&(pos as u32)) { res.push(pos as u32); }
            }
            G::Many(x) => {
                res.push(pos as u32);
                let mut i = 0;
                while i < res.len() {
                    let p = res[i];
                    i += 1;
                    let (s, l) = self.ends(g, *x, p as usize, t);
                    for j in s..s + l {
                        let e = self.pool[j as usize];
                        if e != p && !res.contains(&e) { res.push(e); }
                    }
                }
            }
            G::Sep { item, sep, min, trail } => {
                // layers: ends after exactly c items; enough to know c up to min, then any
                let mut cur: Vec<u32> = vec![];
                let (s, l) = self.ends(g, *item, pos, t);
                for i in s..s + l { cur.push(self.pool[i as usize]); }
                if *min == 0 { res.push(pos as u32); }
                let mut c = 1;
                let mut all: Vec<(usize, u32)> = cur.iter().map(|e| (1usize.min(*min), *e)).collect();
                let mut i = 0;
                let _ = &mut c;
                while i < all.len() {
                    let (cnt, p) = all[i];
                    i += 1;
                    if cnt >= *min {
                        if !res.contains(&p) { res.push(p); }
                    }
                    let pu = p as usize;
                    if pu >= t.len() { self.hit_eof = true; continue; }
                    if t[pu].k == *sep {
                        if *trail && cnt >= *min && !res.contains(&(p + 1)) { res.push(p + 1); }
                        let (s, l) = self.ends(g, *item, pu + 1, t);
                        for j in s..s + l {
                            let e = (if cnt + 1 > *min { *min } else { cnt + 1 }, self.pool[j as usize]);
                            if !all.contains(&e) { all.push(e); }
                        }
                    }
                }
            }
            G::Reserved => unreachable!(),
        }
        let s = self.pool.len() as u32;
        self.pool.extend_from_slice(&res);
        self.memo[key] = (self.stamp, s, res.len() as u32);
        (s, res.len() as u32)
    }
    fn ends_vec(&mut self, g: &Grammar, id: Id, pos: usize, t: &[Tok]) -> Vec<u32> {
        let (s, l) = self.ends(g, id, pos, t);
        self.pool[s as usize..(s + l) as usize].to_vec()
    }
    fn emit(&mut self, g: &Grammar, id: Id, pos: usize, end: usize, t: &[Tok], ev: &mut String) -> bool {
        if !self.ends_vec(g, id, pos, t).contains(&(end as u32)) {
            return false;
        }
        match &g.g[id] {
            G::T(k) => ev_term(ev, term_text(*k)),
            G::Name(_) => ev_text(ev, 'i', t[pos].val),
            G::Lit(k) => ev_text(ev, lit_char(*k), t[pos].val),
            G::Absent => ev_none(ev),
            G::Lab(l, x) => {
                ev_open(ev, l);
                if !self.emit(g, *x, pos, end, t, ev) { return false; }
                ev_close(ev);
            }
            G::Seq(v) => return self.emit_seq(g, v, 0, pos, end, t, ev),
            G::Alt(v) => {
                let l = ev.len();
                for x in v {
                    if self.emit(g, *x, pos, end, t, ev) { return true; }
                    ev.truncate(l);
                }
                return false;
            }
            G::Opt(x) => {
                let l = ev.len();
                if end > pos && self.emit(g, *x, pos, end, t, ev) { return true; }
                ev.truncate(l);
                if end != pos { return false; }
                ev_none(ev);
            }
            G::Many(x) => {
                ev_list(ev);
                if !self.emit_many(g, *x, pos, end, t, ev) { return false; }
                ev_list_end(ev);
            }
            G::Sep { item, sep, min, trail } => {
                ev_list(ev);
                let l = ev.len();
                let mut ok = self.emit_sep(g, *item, *sep, *min, pos, end, t, ev);
                if !ok && *trail && end > pos && t[end - 1].k == *sep {
                    ev.truncate(l);
                    ok = self.emit_sep(g, *item, *sep, *min, pos, end - 1, t, ev);
                }
                if !ok { return false; }
                ev_list_end(ev);
            }
            G::Reserved => unreachable!(),
        }
        true
    }
    fn emit_seq(&mut self, g: &Grammar, v: &[Id], i: usize, pos: usize, end: usize, t: &[Tok], ev: &mut String) -> bool {
        if i == v.len() { return pos == end; }
        let l = ev.len();
        for e in self.ends_vec(g, v[i], pos, t) {
            if e as usize > end { continue; }
            // can the rest finish?
            if self.emit(g, v[i], pos, e as usize, t, ev) && self.emit_seq(g, v, i + 1, e as usize, end, t, ev) {
                return true;
            }
            ev.truncate(l);
        }
        false
    }
    fn emit_many(&mut self, g: &Grammar, x: Id, pos: usize, end: usize, t: &[Tok], ev: &mut String) -> bool {
        if pos == end { return true; }
        let l = ev.len();
        for e in self.ends_vec(g, x, pos, t) {
            let e = e as usize;
            if e > end || e == pos { continue; }
            if self.emit(g, x, pos, e, t, ev) && self.emit_many(g, x, e, end, t, ev) { return true; }
            ev.truncate(l);
        }
        false
    }
    #[allow(clippy::too_many_arguments)]
    fn emit_sep(&mut self, g: &Grammar, x: Id, sep: u8, need: usize, pos: usize, end: usize, t: &[Tok], ev: &mut String) -> bool {
        if pos == end { return need == 0; }
        let l = ev.len();
        for e in self.ends_vec(g, x, pos, t) {
            let e = e as usize;
            if e > end { continue; }
            if !self.emit(g, x, pos, e, t, ev) { ev.truncate(l); continue; }
            if e == end {
                if need <= 1 { return true; }
            } else if t[e].k == sep && e + 1 < end {
                if self.emit_sep(g, x, sep, need.saturating_sub(1), e + 1, end, t, ev) { return true; }
            }
            ev.truncate(l);
        }
        false
    }
}

// ------------------------------------------------------------------ derivation generator

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Naming {
    /// a different name at every position
    Distinct,
    /// the same name, string and number everywhere
    Same,
    /// names that are escaped or extended reserved words
    Tricky,
    /// n0, n1, n2, ... (never repeats)
    Indexed,
}
/// interned "n<i>" / "\"s<i>\""
pub fn indexed(i: usize, string: bool) -> &'static str {
    use std::sync::RwLock;
    static T: RwLock<(Vec<&'static str>, Vec<&'static str>)> = RwLock::new((Vec::new(), Vec::new()));
    {
        let r = T.read().unwrap();
        let v = if string { &r.1 } else { &r.0 };
        if i < v.len() { return v[i]; }
    }
    let mut w = T.write().unwrap();
    let v = if string { &mut w.1 } else { &mut w.0 };
    while v.len() <= i + 1000 {
        let s = if string { format!("\"s{}\"", v.len()) } else { format!("n{}", v.len()) };
        v.push(Box::leak(s.into_boxed_str()));
    }
    v[i]
}

pub const NAMES: &[&str] = &[
    "alpha", "B", "gam3", "del_ta", "eps-x", "Zeta", "e7a", "theta_", "io-ta", "K9", "lambda-", "mU",
    "n_", "xi0", "om-i-c", "Pi",
];
pub const TRICKY: &[&str] = &[
    "_interface", "DOMStringMap", "_long", "longer", "any_", "or-", "optionals", "_or", "readonly1",
    "undefined-x", "_x", "sequenceOf", "_attribute", "Promise2", "unsigned_", "records",
];
pub const STRS: &[&str] = &["\"s0\"", "\"t 1\"", "\"u//2\"", "\"v\"", "\"\"", "\"w*/\""];
pub const NAME_VOCAB_S: &[&str] = &["_interface", "longX"];
pub const STR_VOCAB_S: &[&str] = &["\"\"", "\"é // /*\""];
pub const DEC_V: &[&str] = &["5", "-1", "1089"];
pub const HEX_V: &[&str] = &["0x1F", "-0XaB0"];
pub const OCT_V: &[&str] = &["0", "-017"];
pub const FLOAT_V: &[&str] = &["1.5", "-.5", "3.", "1e9", "-2.5E-3", ".25e+10"];

pub struct Chooser {
    pub prefix: Vec<u16>,
    pub made: Vec<u16>,
    pub arity: Vec<u16>,
    pub naming: Naming,
    pub vocab: bool,
    pub max_list: usize,
    pub narrow: u8,
    pub frozen: u32,
    nidx: usize,
    sidx: usize,
}
impl Chooser {
    pub fn new(prefix: Vec<u16>, naming: Naming, vocab: bool, max_list: usize) -> Self {
        Chooser { prefix, made: vec![], arity: vec![], naming, vocab, max_list, narrow: 0, frozen: 0, nidx: 0, sidx: 0 }
    }
    pub fn choose(&mut self, n: usize) -> usize {
        if n <= 1 || self.frozen > 0 {
            return 0;
        }
        let i = self.made.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!((c as usize) < n, "replay diverged: choice {} of {}", c, n);
        self.made.push(c);
        self.arity.push(n as u16);
        c as usize
    }
}

pub struct Deriv {
    pub toks: Vec<Tok<'static>>,
    pub ev: String,
}

pub fn mk_name(src: &'static str) -> Tok<'static> {
    if let Some(v) = src.strip_prefix('_') {
        Tok { k: IDENT, src, val: v }
    } else {
        Tok { k: word_kind(src).unwrap_or(IDENT), src, val: src }
    }
}
pub fn mk_str(src: &'static str) -> Tok<'static> {
    Tok { k: STR, src, val: &src[1..src.len() - 1] }
}
pub fn mk_term(k: u8) -> Tok<'static> {
    Tok { k, src: term_text(k), val: term_text(k) }
}

impl Grammar {
    pub fn push_name(&self, t: Tok<'static>, d: &mut Deriv) {
        ev_text(&mut d.ev, 'i', t.val);
        d.toks.push(t);
    }
    pub fn gen(&self, id: Id, ch: &mut Chooser, d: &mut Deriv) {
        match &self.g[id] {
            G::T(k) => {
                ev_term(&mut d.ev, term_text(*k));
                d.toks.push(mk_term(*k));
            }
            G::Name(c) => {
                let base = match ch.naming {
                    Naming::Distinct => NAMES[ch.nidx % NAMES.len()],
                    Naming::Same => "same",
                    Naming::Tricky => TRICKY[ch.nidx % TRICKY.len()],
                    Naming::Indexed => indexed(ch.nidx, false),
                };
                ch.nidx += 1;
                let mut opts = vec![base];
                if ch.vocab {
                    opts.extend_from_slice(NAME_VOCAB_S);
                    match c {
                        Cls::Arg => opts.extend_from_slice(ARG_KW),
                        Cls::Attr => opts.extend_from_slice(ATTR_KW),
                        Cls::Op => opts.extend_from_slice(OP_KW),
                        Cls::Plain => {}
                    }
                }
                let i = ch.choose(opts.len());
                self.push_name(mk_name(opts[i]), d);
            }
            G::Lit(k) => {
                let t = if *k == STR {
                    let base = match ch.naming {
                        Naming::Same => "\"same\"",
                        Naming::Indexed => indexed(ch.sidx, true),
                        _ => STRS[ch.sidx % STRS.len()],
                    };
                    ch.sidx += 1;
                    let mut opts = vec![base];
                    if ch.vocab { opts.extend_from_slice(STR_VOCAB_S); }
                    mk_str(opts[ch.choose(opts.len())])
                } else {
                    let v = match *k { DEC => DEC_V, HEX => HEX_V, OCT => OCT_V, _ => FLOAT_V };
                    let i = if ch.vocab { ch.choose(v.len()) } else { 0 };
                    Tok { k: *k, src: v[i], val: v[i] }
                };
                ev_text(&mut d.ev, lit_char(*k), t.val);
                d.toks.push(t);
            }
            G::Absent => ev_none(&mut d.ev),
            G::Lab(l, x) => {
                ev_open(&mut d.ev, l);
                self.gen(*x, ch, d);
                ev_close(&mut d.ev);
            }
            G::Seq(v) => for x in v { self.gen(*x, ch, d); },
            G::Alt(v) => {
                let i = match &self.narrow[ch.narrow as usize][id] {
                    Some(keep) if ch.narrow > 0 => keep[ch.choose(keep.len())],
                    _ => ch.choose(v.len()),
                };
                self.gen(v[i], ch, d);
            }
            G::Opt(x) => {
                if ch.choose(2) == 1 { self.gen(*x, ch, d); } else { ev_none(&mut d.ev); }
            }
            G::Many(x) => {
                let c = ch.choose(ch.max_list + 1);
                ev_list(&mut d.ev);
                for _ in 0..c { self.gen(*x, ch, d); }
                ev_list_end(&mut d.ev);
            }
            G::Sep { item, sep, min, trail } => {
                let c = min + ch.choose(ch.max_list + 1 - (*min).min(ch.max_list));
                ev_list(&mut d.ev);
                for i in 0..c {
                    if i > 0 { d.toks.push(mk_term(*sep)); ev_sep(&mut d.ev); }
                    self.gen(*item, ch, d);
                }
                if *trail && ch.choose(2) == 1 { d.toks.push(mk_term(*sep)); }
                ev_list_end(&mut d.ev);
            }
            G::Reserved => unreachable!(),
        }
    }
    /// Generate along `path` (root..=hole): forced choices outside, free choices (or `fill`) in the hole.
    pub fn gen_path(&self, path: &[Id], ch: &mut Chooser, d: &mut Deriv, fill: &mut dyn FnMut(&Grammar, &mut Chooser, &mut Deriv)) {
        if path.len() == 1 {
            let f = ch.frozen;
            ch.frozen = 0;
            fill(self, ch, d);
            ch.frozen = f;
            return;
        }
        let nx = path[1];
        ch.frozen += 1;
        match &self.g[path[0]] {
            G::Lab(l, _) => {
                ev_open(&mut d.ev, l);
                self.gen_path(&path[1..], ch, d, fill);
                ev_close(&mut d.ev);
            }
            G::Seq(v) => {
                let mut done = false;
                for x in v {
                    if *x == nx && !done {
                        done = true;
                        self.gen_path(&path[1..], ch, d, fill);
                    } else {
                        self.gen(*x, ch, d);
                    }
                }
            }
            G::Alt(_) | G::Opt(_) => self.gen_path(&path[1..], ch, d, fill),
            G::Many(_) => {
                ev_list(&mut d.ev);
                self.gen_path(&path[1..], ch, d, fill);
                ev_list_end(&mut d.ev);
            }
            G::Sep { item, sep, min, .. } => {
                ev_list(&mut d.ev);
                self.gen_path(&path[1..], ch, d, fill);
                for _ in 1..*min {
                    d.toks.push(mk_term(*sep));
                    ev_sep(&mut d.ev);
                    self.gen(*item, ch, d);
                }
                ev_list_end(&mut d.ev);
            }
            _ => unreachable!(),
        }
        ch.frozen -= 1;
    }
}
/// separators carry no information in a tree (a list of n items has n-1 of them)
pub fn ev_sep(_s: &mut String) {}

#!/usr/bin/env python3
"""Emits src/types.rs: the corpus' derived types together with their ground truth."""
out = ['#![allow(unused_mut)]']
roots = []
D0 = "Debug, Clone, PartialEq"
DEQ = D0 + ", Eq, PartialOrd, Ord, Hash"
DALL = DEQ + ", Default"

def w(s):
    out.append(s)

def fattrs(o):
    l = []
    for d in o.get("doc", []):
        l.append(f'    #[doc = "{d}"]')
    l += ["    " + x for x in o.get("pre", [])]
    a = []
    if o.get("rename") is not None: a.append(f'rename = "{o["rename"]}"')
    if o.get("sensitive"): a.append("sensitive")
    if o.get("default") is True: a.append("default")
    elif o.get("default"): a.append(f'default = "{o["default"]}"')
    if o.get("positional"): a.append("positional")
    if o.get("named"): a.append("named")
    if o.get("short"): a.append(f'short = "{o["short"]}"')
    if o.get("arb"): a.append(o["arb"])
    if o.get("rev"): a.reverse()
    for x in a:
        l.append(f"    #[facet({x})]")
    l += ["    " + x for x in o.get("post", [])]
    return l

def fd(n, t, o, off):
    s = f'Fd::new("{n}", ty::<{t}>, {off})'
    m = []
    if o.get("rename") is not None: m.append(f'rename: Some("{o["rename"]}")')
    if o.get("sensitive"): m.append("sensitive: true")
    if o.get("default") is True: m.append(f"default: Dflt::Trait, default_v: Some(|| <{t} as Default>::default().to_v())")
    elif o.get("default"): m.append(f"default: Dflt::Fn, default_v: Some(|| {o['default']}().to_v())")
    if o.get("positional"): m.append("positional: true")
    if o.get("named"): m.append("named: true")
    if o.get("short"): m.append(f'short: Some("{o["short"]}")')
    if m:
        return f"Fd {{ {', '.join(m)}, ..{s} }}"
    return s

def norm(fields, tup=False):
    r = []
    for i, f in enumerate(fields):
        if tup:
            t, o = (f, {}) if isinstance(f, str) else f
            r.append((str(i), t, o))
        else:
            n, t = f[0], f[1]
            r.append((n, t, f[2] if len(f) > 2 else {}))
    return r

def S(name, fields, kind="named", derive=D0, attrs=(), inv=None, deny=False, cdefault=False, repr=None, doc=(), generics=None, native_default=None, late_deny=False, allow=None):
    """generics: (params decl, use) e.g. ("T", "T")"""
    tup = kind == "tuple"
    fs = norm(fields, tup)
    for d in doc: w("///" + d)
    w(f"#[derive(Facet, {derive})]" if derive else "#[derive(Facet)]")
    if allow: w(f"#[allow({allow})]")
    if repr: w(f"#[repr({repr})]")
    if deny and not late_deny: w("#[facet(deny_unknown_fields)]")
    if cdefault: w("#[facet(default)]")
    if deny and late_deny: w("#[facet(deny_unknown_fields)]")
    if inv: w(f'#[facet(invariants = "{inv}")]')
    gp = f"<{', '.join(generics)}>" if generics else ""
    gb = f"<{', '.join(g + ': Gt' for g in generics)}>" if generics else ""
    gd = gp
    if kind == "unit":
        w(f"pub struct {name};")
    elif tup:
        parts = []
        for n, t, o in fs:
            a = " ".join(x.strip() for x in fattrs(o))
            parts.append(f"{a} pub {t}")
        w(f"pub struct {name}{gd}({', '.join(parts)});")
    else:
        w(f"pub struct {name}{gd} {{")
        for n, t, o in fs:
            for l in fattrs(o): w(l)
            w(f"    pub {n}: {t},")
        w("}")
    sk = {"named": "Named", "tuple": "TupleStruct", "unit": "Unit"}[kind]
    w(f"impl{gb} Gt for {name}{gp} {{")
    w("    fn make_ty() -> Ty {")
    w(f"        let mut t = Ty::strukt::<Self>({'std::any::type_name::<Self>()' if generics else chr(34)+name+chr(34)}, Stk::{sk}, vec![")
    for n, t, o in fs:
        w(f"            {fd(n, t, o, f'std::mem::offset_of!(Self, {n})')},")
    w("        ]);")
    if deny: w("        t.deny_unknown = true;")
    if cdefault: w("        t.container_default = true;")
    if "Default" in derive or native_default: w("        t.default = Some(|| Self::default().to_v());")
    if inv: w(f"        t.invariant = Some(|v| Self::from_v(v).ok());")
    w("        t")
    w("    }")
    w("    fn to_v(&self) -> V { V::St(vec![" + ", ".join(f"self.{n}.to_v()" for n, t, o in fs) + "]) }")
    if kind == "unit":
        w(f"    fn from_v(_: &V) -> Self {{ {name} }}")
    elif tup:
        w(f"    fn from_v(v: &V) -> Self {{ let _f = v.fields(); {name}(" + ", ".join(f"Gt::from_v(&_f[{i}])" for i in range(len(fs))) + ") }")
    else:
        w(f"    fn from_v(v: &V) -> Self {{ let _f = v.fields(); {name} {{ " + ", ".join(f"{n}: Gt::from_v(&_f[{i}])" for i, (n, t, o) in enumerate(fs)) + " } }")
    w("}")
    if not generics: roots.append(name)

def E(name, repr, variants, derive=D0, doc=(), inv=None, allow=None):
    """variants: (name, None | [types] | {"f": type}, disc|None)"""
    for d in doc: w("///" + d)
    w(f"#[derive(Facet, {derive})]" if derive else "#[derive(Facet)]")
    w(f"#[repr({repr})]")
    if allow: w(f"#[allow({allow})]")
    if inv: w(f'#[facet(invariants = "{inv}")]')
    w(f"pub enum {name} {{")
    vs = []
    nxt = 0
    for v in variants:
        vn, pay = v[0], v[1]
        disc = v[2] if len(v) > 2 else None
        d = nxt if disc is None else disc
        nxt = d + 1
        ds = f" = {disc}" if disc is not None else ""
        for x in (v[3] if len(v) > 3 else []): w("    ///" + x)
        if pay is None:
            w(f"    {vn}{ds},"); vs.append((vn, "Unit", d, []))
        elif isinstance(pay, list) and not (pay and isinstance(pay[0], tuple) and len(pay[0]) >= 2 and isinstance(pay[0][1], str)):
            fs = norm(pay, True)
            w(f"    {vn}(" + ", ".join(" ".join(x.strip() for x in fattrs(o)) + " " + t for n, t, o in fs) + f"){ds},")
            vs.append((vn, "Tuple", d, [(f"_{i}", t, o) for i, (n, t, o) in enumerate(fs)]))
        else:
            fs = norm(pay)
            w(f"    {vn} {{ " + ", ".join(" ".join(x.strip() for x in fattrs(o)) + f" {n}: {t}" for n, t, o in fs) + f" }}{ds},")
            vs.append((vn, "Named", d, fs))
    w("}")
    w(f"impl Gt for {name} {{")
    w("    fn make_ty() -> Ty {")
    w(f'        let mut t = Ty::enom::<Self>("{name}", "{repr}", vec![')
    for vn, k, d, fs in vs:
        w(f'            Vd {{ name: "{vn}", kind: Vk::{k}, disc: {d}, fields: vec![' + ", ".join(fd(n, t, o, "usize::MAX") for n, t, o in fs) + "] },")
    w("        ]);")
    if inv: w(f"        t.invariant = Some(|v| Self::from_v(v).{inv}());")
    w("        t")
    w("    }")
    w("    fn to_v(&self) -> V { match self {")
    for i, (vn, k, d, fs) in enumerate(vs):
        if k == "Unit": w(f"        {name}::{vn} => V::En({i}, vec![]),")
        elif k == "Tuple": w(f"        {name}::{vn}(" + ", ".join(f"f{j}" for j in range(len(fs))) + f") => V::En({i}, vec![" + ", ".join(f"f{j}.to_v()" for j in range(len(fs))) + "]),")
        else: w(f"        {name}::{vn} {{ " + ", ".join(n for n, t, o in fs) + f" }} => V::En({i}, vec![" + ", ".join(f"{n}.to_v()" for n, t, o in fs) + "]),")
    w("    } }")
    w("    fn from_v(v: &V) -> Self { let V::En(i, _f) = v else { panic!(\"harness: enum\") }; match i {")
    for i, (vn, k, d, fs) in enumerate(vs):
        if k == "Unit": w(f"        {i} => {name}::{vn},")
        elif k == "Tuple": w(f"        {i} => {name}::{vn}(" + ", ".join(f"Gt::from_v(&_f[{j}])" for j in range(len(fs))) + "),")
        else: w(f"        {i} => {name}::{vn} {{ " + ", ".join(f"{n}: Gt::from_v(&_f[{j}])" for j, (n, t, o) in enumerate(fs)) + " },")
    w('        _ => panic!("harness: variant"),')
    w("    } }")
    w("}")
    roots.append(name)

w("// Generated by gen.py; do not edit.")
w("#![allow(dead_code, unused_variables, clippy::all)]")
w("use crate::{model::*, Trk};")
w("use facet::Facet;")
w("use std::borrow::Cow;")
w("use std::collections::{BTreeMap, HashMap};")
w("use std::sync::Arc;")

# ------------------------------------------------------------------ structs
S("UnitS", [], kind="unit", derive=DALL + ", Copy")
S("EmptyS", [], derive=DALL)
S("EmptyT", [], kind="tuple", derive=DEQ)
S("NtU32", ["u32"], kind="tuple", derive=DALL + ", Copy")
S("NtStr", ["String"], kind="tuple", derive=DALL)
S("NtOpt", ["Option<String>"], kind="tuple", derive=DALL)
S("Point", [("x", "i32"), ("y", "i32")], derive=DALL + ", Copy", doc=[" A point."])
S("Bare", [("a", "u16"), ("b", "String")], derive="")
S("Mixed", [("a", "u8"), ("b", "u64"), ("c", "u16"), ("d", "String"), ("e", "bool"), ("f", "f32"), ("g", "char"), ("h", "f64")], derive=D0 + ", Default, PartialOrd")
S("AllInts", [(f"f{t}", t) for t in "u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize".split()], derive=DALL)
S("AllNz", [(f"f{t}", f"std::num::NonZero<{t}>") for t in "u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize".split()], derive=DEQ)
S("IntsS", [(f"f{t}", t) for t in "u8 i8 u16 i16 u32 i32 u64 i64".split()], derive=DALL)
S("Floats", [("a", "f32"), ("b", "f64")], derive=D0 + ", Default")
S("Strs", [("a", "String"), ("b", "char"), ("c", "Option<String>")], derive=DALL)
S("CowS", [("a", "Cow<'static, str>"), ("b", "u32")], derive=DALL)
S("RefS", [("a", "&'static str"), ("b", "u32")], derive=DALL)
S("SliceS", [("a", "&'static [u32]"), ("b", "u8")], derive=DALL)
S("TupS", ["u8", "String", "bool"], kind="tuple", derive=DALL)
S("TupNest", ["Point", "Option<Point>", "Vec<u8>"], kind="tuple", derive=DALL)
S("Nested", [("p", "Point"), ("q", "Option<Point>"), ("name", "String")], derive=DALL)
S("Deep", [("n", "Nested"), ("m", "Mixed"), ("t", "TupS"), ("o", "Option<Nested>")])
S("Lists", [("a", "Vec<u32>"), ("b", "Vec<String>"), ("c", "Vec<Point>"), ("d", "Vec<Vec<u8>>"), ("e", "Vec<Option<String>>")], derive=DALL)
S("Opts", [("a", "Option<u8>"), ("b", "Option<Option<u8>>"), ("c", "Option<Vec<u8>>"), ("d", "Option<Nested>"), ("e", "Option<String>")], derive=DALL)
S("Maps", [("a", "HashMap<String, u32>"), ("b", "BTreeMap<String, Point>"), ("c", "HashMap<String, Vec<String>>"), ("d", "BTreeMap<String, Option<u8>>")])
S("KeyMaps", [("a", "HashMap<u8, String>"), ("b", "BTreeMap<i32, bool>"), ("c", "BTreeMap<char, u8>"), ("d", "HashMap<bool, u8>")])
S("MapMap", [("a", "HashMap<String, HashMap<String, u8>>"), ("b", "BTreeMap<String, Vec<BTreeMap<String, String>>>")])
S("FixMap", [("a", "HashMap<String, u32, FixedState>"), ("b", "u8")], derive="")
S("Tree", [("v", "u32"), ("kids", "Vec<Tree>")], derive=DALL)
S("Org", [("name", "String"), ("lead", "Option<NtStr>"), ("units", "Vec<Nested>"), ("tags", "HashMap<String, Vec<Point>>")])
S("Zsts", [("a", "()"), ("b", "UnitS"), ("c", "u32"), ("d", "EmptyS"), ("e", "std::marker::PhantomData<String>"), ("f", "UnitS"), ("g", "()")], derive=DALL)
S("Arrs", [("a", "[u8; 1]"), ("b", "[String; 1]"), ("c", "u16")], derive=DALL)
S("Arcs", [("a", "Arc<Point>"), ("b", "Arc<String>"), ("c", "Option<Arc<u8>>")], derive=DEQ)
S("TupF", [("a", "(u8, String)"), ("b", "(i32,)"), ("c", "Vec<(u8, u16)>")], derive=DALL)
S("ReprC", [("a", "u8"), ("b", "u32"), ("c", "u16"), ("d", "u64")], derive=DALL, repr="C")
S("Align64", [("a", "u8"), ("b", "String")], derive=DALL, repr="align(64)")
S("Net", [("a", "std::net::IpAddr"), ("b", "std::net::Ipv4Addr"), ("c", "std::net::Ipv6Addr"), ("d", "std::net::SocketAddr")])
S("Wide63", [(f"f{i}", ["u8", "String", "u32", "bool", "Option<u8>"][i % 5]) for i in range(63)])
S("Wide64", [(f"f{i}", ["u8", "String", "u32", "bool", "Option<u8>"][i % 5]) for i in range(64)])
S("GOne", [("a", "A"), ("v", "Vec<A>")], derive="", generics=["A"])
S("GTwo", [("a", "A"), ("b", "B"), ("o", "Option<A>")], derive="", generics=["A", "B"])
S("GTup", ["A", "u8"], kind="tuple", derive="", generics=["A"])
roots += ["GOne<u8>", "GOne<String>", "GTwo<u8, String>", "GTwo<Point, Vec<u8>>", "GTup<GOne<u16>>"]
S("PartEq", [("a", "f64"), ("b", "Vec<f32>")], derive="Debug, Clone, PartialEq, PartialOrd")
S("OnlyDebug", [("a", "u8")], derive="Debug")

# display / parse
w("""
/// Displays and parses as `a/b`.
#[derive(Facet, Debug, Clone, PartialEq, Eq)]
pub struct Ratio { pub a: u32, pub b: u32 }
impl std::fmt::Display for Ratio {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if f.alternate() { write!(f, "{} over {}", self.a, self.b) } else { f.pad(&format!("{}/{}", self.a, self.b)) }
    }
}
impl std::str::FromStr for Ratio {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        let (a, b) = s.split_once('/').ok_or("no slash")?;
        Ok(Ratio { a: a.parse().map_err(|_| "a")?, b: b.parse().map_err(|_| "b")? })
    }
}
impl Gt for Ratio {
    fn make_ty() -> Ty {
        Ty::strukt::<Self>("Ratio", Stk::Named, vec![Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)), Fd::new("b", ty::<u32>, std::mem::offset_of!(Self, b))])
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.b.to_v()]) }
    fn from_v(v: &V) -> Self { let f = v.fields(); Ratio { a: Gt::from_v(&f[0]), b: Gt::from_v(&f[1]) } }
}
""")
roots.append("Ratio")

# tracked
S("TrkS", [("a", "Trk"), ("b", "Option<Trk>"), ("c", "Vec<Trk>"), ("d", "Trk")], derive=D0)
S("TrkDeep", [("s", "TrkS"), ("e", "ETrk"), ("m", "HashMap<String, Trk>"), ("t", "(Trk, u8)")], derive=D0)
S("TrkKey", [("m", "BTreeMap<Trk, Trk>"), ("h", "HashMap<Trk, Vec<Trk>>")], derive=D0)
E("ETrk", "u8", [("Non", None), ("One", ["Trk"]), ("Two", [("a", "Trk"), ("b", "Option<Trk>")]), ("Many", ["Vec<Trk>", "Trk"])], derive=D0)

# ------------------------------------------------------------------ enums
E("CLike", "u8", [("A", None), ("B", None), ("C", None)], derive=DEQ + ", Copy")
E("CDisc", "u8", [("Lo", None, 3), ("Mid", None), ("Hi", None, 200), ("Top", None)], derive=DEQ + ", Copy")
E("CI16", "i16", [("A", None, 5), ("B", None, 300), ("C", None, 32767)], derive=DEQ)
E("CU64", "u64", [("A", None), ("B", None, 1 << 40), ("C", None)], derive=DEQ)
E("EU8", "u8", [("Unit", None), ("Tup", ["u32", "String"]), ("St", [("a", "u8"), ("b", "Vec<u16>")]), ("New", ["Option<u64>"])], derive=DEQ)
E("EU16", "u16", [("A", ["u8"]), ("B", [("x", "u64"), ("y", "u8")]), ("C", None)], derive=DEQ)
E("EU32", "u32", [("A", None, 7), ("B", ["String"], 9)], derive=DEQ)
E("EU64", "u64", [("A", ["u8", "u16", "u32"]), ("B", None)], derive=DEQ)
E("EUsize", "usize", [("A", None), ("B", ["bool"])], derive=DEQ)
E("EI8", "i8", [("A", None, 1), ("B", ["i64"], 100), ("C", None, 127)], derive=DEQ)
E("EI32", "i32", [("A", ["String", "u8"]), ("B", [("s", "String")])], derive=DEQ)
E("EI64", "i64", [("A", None), ("B", ["u8"])], derive=DEQ)
E("EIsize", "isize", [("A", None), ("B", ["u8"])], derive=DEQ)
E("EC", "C", [("A", None), ("B", ["u8", "u64"]), ("D", [("p", "Point"), ("s", "String")])], derive=DEQ)
E("ECU", "C", [("A", None), ("B", None), ("D", None, 70000)], derive=DEQ)
E("ENest", "u8", [("Leaf", None), ("E", ["EU8"]), ("S", [("n", "Nested"), ("e", "EU8")]), ("L", ["Vec<EU8>"]), ("O", ["Option<EU8>"])], derive=DEQ)
E("ERec", "u8", [("Nil", None), ("Node", ["u32", "Vec<ERec>"])], derive=DEQ)
E("EOneStruct", "u8", [("S", [("a", "u8"), ("b", "String")])], derive=DEQ)
E("EZst", "u8", [("A", ["()"]), ("B", ["UnitS", "u8"]), ("C", [("z", "EmptyS"), ("w", "()")])], derive=DEQ)
# the ends of what a discriminant can be
E("DU8", "u8", [("A", None, 127), ("B", ["u8"], 128), ("C", None, 254), ("D", ["String"])], derive=DEQ)
E("DU16", "u16", [("A", None, 32767), ("B", ["u8"]), ("C", None, 65534), ("D", ["String"])], derive=DEQ)
E("DU32", "u32", [("A", None, 0x7fff_ffff), ("B", ["u8"]), ("C", None, 0xffff_fffe), ("D", ["String"])], derive=DEQ)
E("DU64", "u64", [("A", None, 0xffff_ffff), ("B", ["u8"]), ("C", None, 0x7fff_ffff_ffff_fffe), ("D", ["String"])], derive=DEQ)
E("DUs", "usize", [("A", None, 0xffff_ffff), ("B", ["u8"]), ("C", None, 0x7fff_ffff_ffff_fffe), ("D", ["String"])], derive=DEQ)
E("DI8", "i8", [("A", None, 126), ("B", ["u16"])], derive=DEQ)
E("DI16", "i16", [("A", None, 255), ("B", ["u8"]), ("C", None, 32766), ("D", ["String"])], derive=DEQ)
E("DI32", "i32", [("A", None, 65535), ("B", ["u8"]), ("C", None, 0x7fff_fffe), ("D", ["String"])], derive=DEQ)
E("DI64", "i64", [("A", None, 0x7fff_ffff), ("B", ["u8"]), ("C", None, 0x7fff_ffff_ffff_fffe), ("D", ["String"])], derive=DEQ)
E("DIs", "isize", [("A", None, 0x7fff_ffff), ("B", ["u8"]), ("C", None, 0x7fff_ffff_ffff_fffe), ("D", ["String"])], derive=DEQ)
E("DC8", "C, u8", [("A", None, 127), ("B", ["u64", "u8"]), ("C", [("x", "u8"), ("y", "String")], 255)], derive=DEQ)
E("DC16", "C, i16", [("A", None, 300), ("B", ["u8", "u16"]), ("C", [("x", "u8"), ("y", "u32")], 32767)], derive=DEQ)
E("DC64", "C, u64", [("A", None, 1 << 33), ("B", ["u8", "u16"]), ("C", [("x", "u8"), ("y", "u32")], (1 << 63) - 1)], derive=DEQ)
S("Discs", [("a", "DU8"), ("b", "DU16"), ("c", "Vec<DU32>"), ("d", "DU64"), ("e", "DI8"), ("f", "Option<DI16>"), ("g", "DI32"), ("h", "DI64"), ("i", "DC8"), ("j", "DC16"), ("k", "DC64")], derive=DEQ)
# names that are easily mixed up
S("Names", [("ab", "u8"), ("ab_", "u16"), ("_ab", "u32"), ("aB", "u64"), ("a_b", "i8"), ("AB", "i16"), ("a", "String"), ("abb", "bool"), ("b", "Option<u8>"), ("ba", "i32")], derive=DALL, allow="non_snake_case")
E("NamesE", "u8", [("Ab", None), ("AB", ["u8"]), ("Ab_", [("x", "u8"), ("X", "u16"), ("x_", "String"), ("_x", "bool")]), ("Abb", [("xx", "u8"), ("x", "u16")]), ("A", ["u16", "String"]), ("B", None), ("AB_", ["bool"])], derive=DEQ, allow="non_camel_case_types, non_snake_case")
S("NamesDeep", [("names", "Names"), ("Names", "NamesE"), ("names_", "Vec<NamesE>"), ("name", "Option<Names>")], derive=DEQ, allow="non_snake_case")
# keys made of parts
S("KeyS", [("a", "u8"), ("b", "String")], derive=DALL)
E("KeyE", "u8", [("A", None), ("B", ["u8", "String"]), ("C", [("k", "KeyS"), ("t", "Option<u8>")])], derive=DEQ)
S("KeyM", [("m", "BTreeMap<KeyS, u8>"), ("h", "HashMap<KeyS, String>"), ("e", "BTreeMap<KeyE, KeyS>"), ("t", "HashMap<(u8, String), Vec<u8>>"), ("o", "BTreeMap<Option<u8>, u8>"), ("v", "BTreeMap<Vec<String>, u8>"), ("mm", "BTreeMap<BTreeMap<String, u8>, KeyE>")], derive=D0)
S("TrkKeyS", [("k", "u8"), ("a", "Trk"), ("b", "Option<Trk>")], derive=D0 + ", Eq, PartialOrd, Ord, Hash")
S("TrkKeys", [("m", "BTreeMap<TrkKeyS, Trk>"), ("h", "HashMap<TrkKeyS, Vec<Trk>>"), ("t", "HashMap<(Trk, Trk), Trk>")], derive=D0)
S("WithEnums", [("a", "CLike"), ("b", "EU8"), ("c", "Option<EU8>"), ("d", "Vec<CLike>"), ("e", "EC")], derive=DEQ)
S("EnumMap", [("m", "HashMap<String, EU8>"), ("k", "BTreeMap<CLike, u8>")], derive=D0)

# ------------------------------------------------------------------ invariants
w("""
impl Range { pub fn ok(&self) -> bool { self.lo <= self.hi } }
impl Even { pub fn ok(&self) -> bool { self.0 % 2 == 0 } }
impl Sorted { pub fn ok(&self) -> bool { self.v.windows(2).all(|w| w[0] <= w[1]) && self.n as usize == self.v.len() } }
impl InvDflt { pub fn ok(&self) -> bool { self.a < self.b } }
fn hundred() -> u32 { 100 }
""")
S("Range", [("lo", "i32"), ("hi", "i32")], inv="ok", derive=DEQ)
S("Even", ["u32"], kind="tuple", inv="ok", derive=DEQ)
S("Sorted", [("v", "Vec<u8>"), ("n", "u8")], inv="ok", derive=DEQ)
S("InvDflt", [("a", "u32", {"default": True}), ("b", "u32", {"default": "hundred"})], inv="ok", derive=DEQ)
S("HasInv", [("r", "Range"), ("e", "Option<Even>"), ("l", "Vec<Even>"), ("m", "HashMap<String, Range>"), ("x", "u8")], derive=D0)

E("EInv", "u8", [("Low", ["u8"]), ("High", [("v", "u32"), ("s", "String")]), ("Off", None)], derive=DEQ, inv="fits")
E("ECInv", "C", [("A", ["u8", "u8"]), ("B", None)], derive=DEQ, inv="fits")
w("""
impl EInv { pub fn fits(&self) -> bool { match self { EInv::Low(x) => *x < 4, EInv::High { v, s } => *v as usize >= s.len(), EInv::Off => true } } }
impl ECInv { pub fn fits(&self) -> bool { match self { ECInv::A(x, y) => x != y, ECInv::B => false } } }
""")

w("""
impl NeverU { pub fn ok(&self) -> bool { false } }
impl NeverE { pub fn ok(&self) -> bool { false } }
impl NeverT { pub fn ok(&self) -> bool { false } }
impl AlwaysU { pub fn ok(&self) -> bool { true } }
impl InvVec { pub fn ok(&self) -> bool { self.0.len() != 1 } }
impl InvOpt { pub fn ok(&self) -> bool { self.a.is_some() != self.b.is_some() } }
impl InvNest { pub fn ok(&self) -> bool { self.r.lo != 0 && self.e.len() < 2 } }
""")
S("NeverU", [], kind="unit", derive=DALL, inv="ok")
S("NeverE", [], derive=DALL, inv="ok")
S("NeverT", ["()", "UnitS"], kind="tuple", derive=DEQ, inv="ok")
S("AlwaysU", [], kind="unit", derive=DALL, inv="ok")
S("InvVec", ["Vec<String>"], kind="tuple", derive=DALL, inv="ok")
S("InvOpt", [("a", "Option<u8>"), ("b", "Option<String>")], derive=DALL, inv="ok")
S("InvNest", [("r", "Range"), ("e", "Vec<Even>"), ("t", "BTreeMap<String, Two>")], derive=D0, inv="ok")
w("""
impl InvU { pub fn ok(&self) -> bool { self.lo <= self.hi && self.name.len() < 4 } }
impl InvUN { pub fn ok(&self) -> bool { self.a.lo != self.b.lo } }
impl InvUL { pub fn ok(&self) -> bool { !self.first.is_empty() || self.last == 0 } }
impl InvTup { pub fn ok(&self) -> bool { self.0 != self.1 } }
impl ArgsInv { pub fn ok(&self) -> bool { self.lo <= self.hi && self.n != 3 } }
impl ArgsInvB { pub fn ok(&self) -> bool { self.k < 9 || self.name.len() < 3 } }
""")
S("InvU", [("lo", "u64"), ("hi", "u64"), ("name", "String")], derive=DALL, inv="ok")
S("InvUL", [("first", "String"), ("last", "u64")], derive=DALL, inv="ok")
S("InvUN", [("a", "InvU"), ("b", "InvUL2"), ("c", "String")], derive=DALL, inv="ok")
S("InvUL2", [("lo", "u64"), ("s", "String")], derive=DALL)
S("InvTup", ["u8", "u8"], kind="tuple", derive=DALL, inv="ok")
S("ArgsInv", [("lo", "i32"), ("hi", "i32"), ("n", "u8", {"positional": True})], derive=DALL, inv="ok")
S("ArgsInvB", [("fast", "bool"), ("name", "String"), ("k", "u16", {"positional": True})], derive=DALL, inv="ok")
# two invariants on one type
w("""
#[derive(Facet, Debug, Clone, PartialEq)]
#[facet(invariants = "small")]
#[facet(invariants = "odd")]
pub struct Two { pub a: u32, pub s: String }
impl Two {
    pub fn small(&self) -> bool { self.a < 1000 }
    pub fn odd(&self) -> bool { self.a % 2 == 1 && self.s.len() < 4 }
}
impl Gt for Two {
    fn make_ty() -> Ty {
        let mut t = Ty::strukt::<Self>("Two", Stk::Named, vec![Fd::new("a", ty::<u32>, std::mem::offset_of!(Self, a)), Fd::new("s", ty::<String>, std::mem::offset_of!(Self, s))]);
        t.invariant = Some(|v| { let x = Self::from_v(v); x.small() && x.odd() });
        t
    }
    fn to_v(&self) -> V { V::St(vec![self.a.to_v(), self.s.to_v()]) }
    fn from_v(v: &V) -> Self { let f = v.fields(); Two { a: Gt::from_v(&f[0]), s: Gt::from_v(&f[1]) } }
}
""")
roots.append("Two")

# ------------------------------------------------------------------ policies
w("""
fn dflt_name() -> String { "anonymous".to_string() }
fn dflt_list() -> Vec<u16> { vec![1, 2, 3] }
fn dflt_point() -> Point { Point { x: -1, y: 1 } }
fn dflt_opt() -> Option<String> { Some("d".to_string()) }
impl Default for DfltDeny { fn default() -> Self { DfltDeny { a: 12, b: "cee".to_string(), c: Some(4) } } }
impl Default for DenyThenDflt { fn default() -> Self { DenyThenDflt { a: 13, b: "dee".to_string(), n: DfltDeny::default(), l: vec![DfltDeny::default()] } } }
impl Default for DfltAll { fn default() -> Self { DfltAll { a: 11, b: "bee".to_string(), c: vec![1, 2], d: None, p: Point { x: 5, y: 6 } } } }
""")
S("Ren", [("a", "u32", {"rename": "alpha"}), ("b", "String", {"rename": "b-key \\u{e9}"}), ("alpha2", "bool"), ("c", "Option<u8>", {"rename": "a"})], derive=DALL)
S("Dflts", [("a", "u32", {"default": True}), ("b", "String", {"default": "dflt_name"}), ("c", "Vec<u16>", {"default": "dflt_list"}), ("d", "u8"), ("e", "Option<String>", {"default": "dflt_opt"}), ("p", "Point", {"default": "dflt_point"}), ("z", "String", {"default": True})], derive=DEQ)
S("DfltAll", [("a", "u32"), ("b", "String"), ("c", "Vec<u8>"), ("d", "Option<u8>"), ("p", "Point")], derive=DEQ, cdefault=True, native_default=True)
S("Deny", [("a", "u32"), ("b", "String")], derive=DALL, deny=True)
S("DenyRen", [("a", "u32", {"rename": "A", "default": True}), ("n", "Deny"), ("l", "Vec<Deny>")], derive=DALL, deny=True)
S("RenHard", [("q", "u8", {"rename": 'a\\"b'}), ("n", "u16", {"rename": "l\\ni\\tne"}), ("e", "Option<u8>", {"rename": ""}), ("s", "String", {"rename": " sp ace "}), ("b", "bool", {"rename": "back\\\\slash/"}), ("u", "u8", {"rename": "\\u{1F600}\\u{7f}\\u{1}"}), ("c", "i8", {"rename": "a:b,{}"})], derive=DALL)
E("RenE", "u8", [("A", [("x", "u8", {"rename": "the x"}), ("y", "String", {"rename": 'q\\"y'})]), ("B", [("String", {"rename": "zero"}), "u8"]), ("C", [("u8", {"rename": "one"})]), ("D", None)], derive=DEQ)
S("Policy", [("d", "Dflts"), ("a", "DfltAll"), ("r", "Ren"), ("l", "Vec<Ren>"), ("m", "HashMap<String, DfltAll>"), ("o", "Option<Dflts>")], derive=D0)
S("DenyDflt", [("a", "u32"), ("d", "DfltAll", {"default": True}), ("s", "String", {"default": True, "rename": "ess"})], derive=DEQ, deny=True)

S("DfltDeny", [("a", "u32", {"rename": "A"}), ("b", "String"), ("c", "Option<u8>", {"sensitive": True, "rename": "see", "rev": True})], derive=DEQ, cdefault=True, native_default=True, deny=True, late_deny=True)
S("DenyThenDflt", [("a", "u32"), ("b", "String", {"rename": "a2", "arb": "misc = 1", "rev": True}), ("n", "DfltDeny"), ("l", "Vec<DfltDeny>")], derive=DEQ, cdefault=True, native_default=True, deny=True)
S("AttrOrder", [("a", "u32", {"rename": "b", "default": True, "rev": True}), ("b", "String", {"rename": "c", "sensitive": True, "default": "dflt_name", "rev": True}), ("c", "Vec<u16>", {"rename": "d", "default": "dflt_list", "sensitive": True, "arb": "last"}), ("d", "Option<String>", {"rename": "a", "default": "dflt_opt", "arb": "first", "rev": True}), ("n", "Option<DfltDeny>", {"default": True, "arb": "y = 2"})], derive=DEQ)
E("AttrOrderE", "u16", [("A", [("x", "u8", {"rename": "y", "sensitive": True, "rev": True}), ("y", "AttrOrder", {"rename": "x", "arb": "first", "rev": True})]), ("T", [("DenyThenDflt", {"arb": "z"}), "u8"])], derive=DEQ)

# ------------------------------------------------------------------ sensitive
S("ArrBig", [("a", "[u8; 4]"), ("s", "[String; 2]"), ("z", "[u32; 0]"), ("p", "[Point; 3]"), ("o", "Option<[u16; 2]>"), ("v", "Vec<[i8; 2]>"), ("n", "[[u8; 2]; 2]"), ("t", "[(u8, String); 2]")], derive=D0)
E("ArrE", "u8", [("A", ["[u8; 3]"]), ("B", [("x", "[String; 2]"), ("y", "[Vec<u8>; 2]")]), ("C", ["[[i32; 1]; 2]", "u8"])], derive=D0)
S("Secret", [("user", "String"), ("pass", "String", {"sensitive": True}), ("pin", "u32", {"sensitive": True}), ("note", "Option<String>")], derive=DALL)
S("SecretT", ["String", ("String", {"sensitive": True}), ("Vec<String>", {"sensitive": True})], kind="tuple", derive=DALL)
S("SecretDeep", [("list", "Vec<Secret>"), ("opt", "Option<Secret>"), ("map", "HashMap<String, Secret>"), ("inner", "Nested", {"sensitive": True}), ("e", "SecretE"), ("keys", "Vec<String>", {"sensitive": True}), ("raw", "Vec<u8>", {"sensitive": True}), ("om", "Option<String>", {"sensitive": True}), ("mm", "HashMap<String, String>", {"sensitive": True})], derive=D0)
E("SecretE", "u8", [("Anon", None), ("Tok", [("String", {"sensitive": True}), "u8"]), ("Login", [("user", "String"), ("pass", "String", {"sensitive": True}), ("n", "Nested", {"sensitive": True})])], derive=DEQ)

S("SecretOf", [("a", "[Secret; 1]"), ("p", "Arc<Secret>"), ("op", "Option<Arc<SecretE>>"), ("t", "(u8, Secret)"), ("ve", "Vec<SecretE>"), ("bm", "BTreeMap<SecretT, u8>"), ("vm", "Vec<HashMap<String, SecretE>>"), ("sl", "&'static [Secret]"), ("oo", "Option<Option<Secret>>"), ("n", "SecretNum")], derive=D0)
S("SecretNum", [("i", "i64", {"sensitive": True}), ("f", "f64", {"sensitive": True}), ("b", "bool", {"sensitive": True}), ("c", "char", {"sensitive": True}), ("e", "TmEnum", {"sensitive": True}), ("t", "(u8, String)", {"sensitive": True}), ("a", "[u8; 1]", {"sensitive": True}), ("p", "Arc<String>", {"sensitive": True}), ("o", "Option<u8>", {"sensitive": True}), ("m", "BTreeMap<String, u8>", {"sensitive": True}), ("shown", "u8")], derive=D0)
S("SecretTree", [("v", "String", {"sensitive": True}), ("kids", "Vec<SecretTree>"), ("by", "BTreeMap<String, SecretTree>"), ("w", "u8")], derive=D0)
E("SecretAll", "u16", [("Only", ["String"]), ("Sec", [("String", {"sensitive": True})]), ("Two", [("Secret", {"sensitive": True}), "Secret"]), ("Nm", [("z", "Vec<u8>", {"sensitive": True})]), ("Nest", ["SecretE", "SecretNum"]), ("Un", None), ("Arr", ["[SecretE; 1]", "Arc<SecretT>"])], derive=D0)
S("SecretArr", ["[SecretAll; 1]"], kind="tuple", derive=D0)

# (the mark in all sorts of company)
AL, CF, HID, BLK = "#[allow(dead_code)]", "#[cfg(all())]", "#[doc(hidden)]", "/** block */"
S("SecretBusy", [("a", "String", {"sensitive": True, "post": [AL]}), ("b", "String", {"sensitive": True, "pre": [AL]}), ("c", "Vec<u8>", {"sensitive": True, "rename": "see"}), ("d", "String", {"sensitive": True, "rename": "dee", "rev": True}), ("e", "u32", {"sensitive": True, "default": True, "arb": "x = 1"}), ("f", "Option<String>", {"sensitive": True, "default": "dflt_opt", "arb": "secret_not", "rev": True}), ("g", "String", {"pre": [AL], "post": [HID]}), ("h", "Point", {"sensitive": True, "pre": [CF, HID], "post": [AL, HID]}), ("i", "String", {"sensitive": True, "doc": [" Documented."], "post": [BLK]}), ("j", "u64", {"sensitive": True, "positional": True, "post": [CF]}), ("k", "String", {"rename": "sensitive", "arb": "not_sensitive"})], derive=D0)
S("SecretBusyT", ["u8", ("String", {"sensitive": True, "post": [AL, CF]}), ("Vec<String>", {"sensitive": True, "arb": "last"}), ("String", {"pre": [HID]}), ("u16", {"sensitive": True, "arb": "first", "rev": True, "post": [HID]})], kind="tuple", derive=D0)
E("SecretBusyE", "i8", [("T", [("String", {"sensitive": True, "post": [AL]}), ("u8", {"post": [AL]})]), ("N", [("a", "String", {"sensitive": True, "pre": [CF], "post": [HID]}), ("b", "u32", {"sensitive": True, "arb": "a", "post": [BLK]}), ("c", "u8", {"pre": [HID]})]), ("L", ["Vec<SecretBusyT>", "Option<SecretBusy>"])], derive=D0)

# ------------------------------------------------------------------ documented ones
S("Doc1", [("a", "u8", {"doc": [" First.", " More on the first."]}), ("b", "String"), ("c", "Option<u8>", {"doc": [" Third."]}), ("s", "String", {"doc": [" Never shown."], "sensitive": True})], derive=D0, doc=[" A documented one.", "", " With a gap."])
E("DocE", "u8", [("Plain", None, None, [" Nothing in it."]), ("Tup", [("u8", {"doc": [" Zeroth."]}), "Doc1"], None, [" Two things."]), ("Nm", [("x", "i32", {"doc": [" The x."]}), ("y", "Doc1", {"doc": [" The y."]})], None), ("Bare", None)], derive=D0, doc=[" A documented choice."])
S("DocOdd", [("a", "u8", {"doc": [" ends in a blank "]}), ("b", "u8", {"doc": [""]}), ("c", "u8", {"doc": ["\\tnot a blank first", "", "  indented  ", " \\u{e9}\\u{1F600} // /// \\\" quoted"]}), ("d", "Vec<u8>", {"doc": [" "]})], derive=D0, doc=[" Blank at the end. ", "no blank", "   "])
E("EEmpty", "u8", [("A", {}), ("B", []), ("C", None), ("D", [("x", "u8"), ("y", "String")]), ("F", ["u8"])], derive=D0)
E("EEmptyDoc", "u16", [("A", {}, None, [" Braces. "]), ("B", [], 7, ["Parentheses"]), ("C", None, None, ["  "])], derive=D0, doc=["", "e"])
E("EMany", "u16", [(f"V{i}", (None, ["u8"], None, [("a", "u16"), ("b", "String")], ["String", "u32"], None)[i % 6] if i % 3 == 0 or i > 250 else None) for i in range(300)], derive=DEQ)
E("EMany8", "u8", [(f"W{i}", ["u8"] if i in (7, 128, 255) else None) for i in range(256)], derive=DEQ)
E("EManyC", "C", [(f"X{i}", ["u8"] if i in (7, 128, 255, 256, 270) else None) for i in range(280)], derive=DEQ)
S("Empties", [("a", "EEmpty"), ("v", "Vec<EEmpty>"), ("m", "BTreeMap<u8, EEmpty>"), ("o", "Option<EEmpty>"), ("d", "EEmptyDoc"), ("w", "Vec<(EEmpty, EEmptyDoc)>"), ("z", "DocOdd")], derive=D0)
S("DocDeep", [("d", "Doc1", {"doc": [" Deep d."]}), ("e", "DocE"), ("v", "Vec<Doc1>"), ("o", "Option<DocE>", {"doc": [" Deep o."]}), ("m", "BTreeMap<String, DocE>"), ("w", "Vec<Vec<DocE>>"), ("t", "(Doc1, u8)")], derive=D0)
S("ZstSame", [("a", "UnitS"), ("v", "Vec<UnitS>"), ("n", "ZstIn"), ("vv", "Vec<Vec<UnitS>>"), ("e", "Vec<EmptyS>"), ("z", "Vec<ZstIn2>"), ("b", "UnitS")], derive=D0)
S("ZstIn", [("u", "UnitS"), ("w", "Vec<Vec<UnitS>>"), ("o", "Option<UnitS>"), ("i", "ZstIn2")], derive=D0)
S("ZstIn2", [("u", "UnitS"), ("e", "EmptyS"), ("p", "()"), ("q", "((), UnitS)")], derive=D0)
S("ByteS", [("a", "Vec<u8>"), ("b", "Vec<Vec<u8>>"), ("c", "Option<Vec<u8>>"), ("d", "BTreeMap<String, Vec<u8>>"), ("e", "Vec<i8>"), ("f", "Vec<TupNest>")], derive=D0)

# every container in every container
S("InOpt", [("h", "Option<HashMap<String, u8>>"), ("b", "Option<BTreeMap<u8, String>>"), ("t", "Option<(u8, String)>"), ("v", "Option<Vec<Option<u8>>>"), ("p", "Option<Arc<String>>"), ("o", "Option<Option<Vec<u8>>>"), ("a", "Option<[String; 2]>"), ("e", "Option<ETrk>")], derive=D0)
S("InVec", [("b", "Vec<BTreeMap<u8, String>>"), ("t", "Vec<(u8, String)>"), ("p", "Vec<Arc<String>>"), ("a", "Vec<[String; 2]>"), ("o", "Vec<Option<Vec<u8>>>"), ("h", "Vec<HashMap<u8, Trk>>"), ("e", "Vec<ETrk>")], derive=D0)
S("InMap", [("hb", "HashMap<String, BTreeMap<u8, u8>>"), ("bh", "BTreeMap<u8, HashMap<String, u8>>"), ("bo", "BTreeMap<u8, Option<u8>>"), ("ho", "HashMap<u8, Option<Trk>>"), ("ht", "HashMap<u8, (u8, String)>"), ("bt", "BTreeMap<u8, (u8, String)>"), ("bv", "BTreeMap<u8, Vec<u8>>"), ("ba", "BTreeMap<u8, [String; 2]>"), ("hp", "HashMap<u8, Arc<String>>"), ("be", "BTreeMap<u8, ETrk>"), ("he", "HashMap<u8, EU8>")], derive=D0)
S("InTup", [("m", "(HashMap<String, u8>, BTreeMap<u8, String>)"), ("v", "(Vec<String>, Option<String>)"), ("p", "(Arc<String>, [u8; 2])"), ("t", "((u8, String), EU8)")], derive=D0)
S("InArr", [("h", "[HashMap<String, u8>; 2]"), ("b", "[BTreeMap<u8, String>; 2]"), ("p", "[Arc<String>; 2]"), ("e", "[EU8; 3]"), ("o", "[Option<Trk>; 2]")], derive=D0)
S("InArc", [("h", "Arc<HashMap<String, u8>>"), ("b", "Arc<BTreeMap<u8, String>>"), ("t", "Arc<(u8, String)>"), ("e", "Arc<EU8>"), ("p", "Arc<Arc<u8>>"), ("o", "Arc<Option<String>>"), ("v", "Arc<Vec<Trk>>")], derive=D0)
E("InEnum", "u8", [("O", ["Option<Vec<u8>>"]), ("H", ["HashMap<String, u8>", "u8"]), ("B", [("b", "BTreeMap<u8, String>"), ("t", "(u8, String)")]), ("A", ["[String; 2]", "Arc<String>"]), ("E", ["EU8", "Option<EU8>"]), ("S", [("s", "Point"), ("o", "Option<Trk>")]), ("V", ["Vec<Option<Trk>>"])], derive=D0)
S("InDeep", [("a", "Vec<Option<HashMap<String, Vec<(u8, String)>>>>"), ("b", "HashMap<String, Option<Vec<BTreeMap<u8, EU8>>>>"), ("c", "Option<Vec<Option<InEnum>>>"), ("d", "BTreeMap<u8, Vec<HashMap<u8, Option<Trk>>>>")], derive=D0)

# ------------------------------------------------------------------ url / args / toml friendly
# ------------------------------------------------------------------ binary-format friendly
S("MpInts", [("a", "u8"), ("b", "u16"), ("c", "u32"), ("d", "u64"), ("e", "i8"), ("f", "i16"), ("g", "i32"), ("h", "i64"), ("s", "String")], derive=DALL)
S("MpNest", [("ints", "MpInts"), ("a_rather_long_field_name_of_32_by", "String"), ("flagless", "UrlUser"), ("pair", "MpPair"), ("e", "MpOne")], derive=DALL)
S("MpPair", ["i64", "String"], kind="tuple", derive=DALL)
S("MpOne", [("only", "i32")], derive=DALL)
S("MpBools", [("x", "bool"), ("y", "i16"), ("z", "MpOne"), ("w", "bool")], derive=DALL)
for n in (15, 16, 17):
    S(f"Mp{n}", [(f"f{i}", ["u8", "i32", "String"][i % 3]) for i in range(n)], derive=DALL)

# ------------------------------------------------------------------ config friendly
S("TmScal", [("b", "bool"), ("u8", "u8"), ("u16", "u16"), ("u32", "u32"), ("u64", "u64"), ("us", "usize"), ("i8", "i8"), ("i16", "i16"), ("i32", "i32"), ("i64", "i64"), ("is", "isize"), ("f32", "f32"), ("f64", "f64"), ("s", "String"), ("c", "Cow<'static, str>"), ("ip", "std::net::IpAddr"), ("v4", "std::net::Ipv4Addr"), ("v6", "std::net::Ipv6Addr"), ("sa", "std::net::SocketAddr")], derive=D0)
E("TmEnum", "u8", [("Unit", None), ("One", ["String"]), ("Num", ["i64"]), ("Pair", ["u8", "String"]), ("OptNew", ["Option<u8>"]), ("Wrap", ["NtU32"]), ("Tab", ["Point"]), ("List", ["Vec<u8>"]), ("Named", [("a", "u8"), ("o", "Option<String>"), ("p", "Option<Point>")]), ("Solo", [("only", "f64")]), ("Opts", [("x", "Option<u8>"), ("y", "Option<bool>")]), ("TupOpt", ["u8", "Option<u16>"])], derive=D0)
S("TmEnums", [("a", "TmEnum"), ("l", "Vec<TmEnum>"), ("m", "HashMap<String, TmEnum>"), ("o", "Option<TmEnum>"), ("p", "(TmEnum, u8)")], derive=D0)
S("TmMaps", [("cow", "BTreeMap<Cow<'static, str>, i64>"), ("m", "HashMap<String, HashMap<String, Point>>"), ("ml", "BTreeMap<String, Vec<Point>>"), ("e", "HashMap<String, bool>"), ("f", "BTreeMap<String, f64>")], derive=D0)
S("TmNew", [("a", "NtU32"), ("b", "NtStr"), ("c", "NtOpt"), ("d", "TmNt2"), ("e", "Vec<NtStr>"), ("f", "TmNtL"), ("g", "TmNtM"), ("h", "Option<NtU32>")], derive=D0)
S("TmNt2", ["NtU32"], kind="tuple", derive=D0)
S("TmNtL", ["Vec<Point>"], kind="tuple", derive=D0)
S("TmNtM", ["HashMap<String, u8>"], kind="tuple", derive=D0)
S("TmTree", [("name", "String"), ("kids", "Vec<TmTree>"), ("by", "HashMap<String, TmTree>"), ("e", "Option<TmEnum>")], derive=D0)
S("TmTabs", [("srv", "Vec<TmSrv>"), ("main", "TmSrv"), ("alt", "Option<TmSrv>"), ("title", "String")], derive=D0)
S("TmSrv", [("host", "String"), ("port", "u16"), ("tags", "Vec<String>"), ("at", "Point"), ("roles", "Vec<Point>"), ("note", "Option<String>"), ("grid", "Vec<Vec<i16>>")], derive=D0)
S("YmAll", [("n", "u64"), ("s", "String"), ("p", "UrlAddr"), ("q", "YmMid"), ("t", "String")], derive=DALL)
S("YmMid", [("u", "u64"), ("in_", "YmLeaf"), ("z", "String")], derive=DALL)
S("YmLeaf", [("a", "u64"), ("b", "u64"), ("c", "String")], derive=DALL)
S("UrlTup", ["String", "u64", "UrlAddr"], kind="tuple", derive=DALL)
S("UrlWide", [(f"k{i}", ["u64", "String"][i % 2]) for i in range(20)] + [("in_", "UrlOne")], derive=DALL)
S("UrlD4", [("a", "UrlD3"), ("b", "UrlD3"), ("x", "String")], derive=DALL)
S("UrlD3", [("a", "UrlDeep"), ("b", "UrlOne"), ("x", "u64")], derive=DALL)
S("ArgsE", [("a", "u8", {"named": True}), ("b", "i128", {"named": True}), ("c", "f32", {"named": True}), ("d", "std::net::IpAddr", {"named": True}), ("e", "std::net::SocketAddr", {"named": True}), ("f", "usize", {"named": True}), ("g", "bool", {"named": True}), ("h", "bool", {"positional": True}), ("i", "std::num::NonZero<u16>", {"named": True}), ("j", "i8", {"positional": True})], derive=D0)
S("ArgsF", [("only", "String", {"positional": True})], derive=DALL)
S("ArgsG", [("a", "u32"), ("b", "String"), ("flag", "bool"), ("p", "u64", {"positional": True}), ("a_b", "String", {"named": True})], derive=DALL)

S("UrlAddr", [("street", "String"), ("num", "u64")], derive=DALL)
S("UrlUser", [("name", "String"), ("addr", "UrlAddr"), ("age", "u64")], derive=DALL)
S("UrlDeep", [("id", "u64"), ("user", "UrlUser"), ("tag", "String"), ("other", "UrlAddr")], derive=DALL)
S("UrlOne", [("q", "String")], derive=DALL)
S("ArgsA", [("verbose", "bool", {"named": True, "short": "v"}), ("path", "String", {"positional": True}), ("count", "u32", {"named": True, "short": "n"}), ("name", "String", {"named": True})], derive=DALL)
S("ArgsB", [("a", "String", {"positional": True}), ("b", "i64", {"positional": True}), ("long_name", "bool", {"named": True}), ("ratio", "f64", {"named": True, "short": "r"})], derive=D0 + ", Default")
S("ArgsC", [("x", "u8", {"named": True, "short": "x"}), ("flag", "bool", {"named": True, "short": "f"}), ("other_flag", "bool", {"named": True, "short": "o"}), ("c", "char", {"named": True})], derive=DALL)
S("ArgsD", [("p", "String", {"positional": True}), ("q", "String", {"positional": True}), ("r", "u16", {"positional": True}), ("d", "bool", {"named": True, "short": "d"})], derive=DALL)

_pre = len(roots)
S("DfltWide", [("a", "u8"), ("b", "u8", {"default": True}), ("c", "String", {"default": "dflt_name"}), ("d", "u16"), ("e", "Vec<u16>", {"default": "dflt_list"}), ("f", "Option<u8>"), ("g", "i64", {"default": True}), ("h", "bool", {"default": True}), ("i", "Option<String>", {"default": "dflt_opt"}), ("j", "String", {"default": "dflt_name"}), ("k", "Point", {"default": "dflt_point"}), ("l", "u8", {"default": True}), ("m", "Vec<u16>", {"default": "dflt_list"}), ("n", "u32"), ("o", "String", {"default": "dflt_name"})], derive=DEQ)
_t12 = ["u8", "String", "u16", "bool", "i8", "Option<u8>", "u32", "Vec<u8>", "i64", "u8", "String", "u8"]
E("TmTup", "u8", [("Five", ["u8"] * 5), ("Dozen", _t12), ("Ten", [(x, "u8") for x in "abcdefghij"]), ("No", None), ("Deep", ["Option<Point>", "Point"] * 3)], derive=DEQ)
S("TmTups", [("a", "TmTup"), ("b", "Vec<TmTup>"), ("c", "Option<TmTup>")], derive=DEQ)
S("TupWide", _t12, kind="tuple", derive=DEQ)
late = roots[_pre:]
del roots[_pre:]

roots += """()|bool|char|u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|f32|f64|String|&'static str|Cow<'static, str>
std::net::IpAddr|std::net::Ipv4Addr|std::net::Ipv6Addr|std::net::SocketAddr|std::path::PathBuf|&'static std::path::Path|camino::Utf8PathBuf|&'static camino::Utf8Path|Trk
std::marker::PhantomData<String>|std::marker::PhantomData<u8>
Option<u8>|Option<String>|Option<Point>|Option<Option<u8>>|Option<EU8>|Option<Vec<String>>|Option<Trk>|Option<()>|Option<f64>
Vec<u8>|Vec<u32>|Vec<String>|Vec<Point>|Vec<Vec<String>>|Vec<Option<u8>>|Vec<EU8>|Vec<()>|Vec<Trk>|Vec<f64>|Vec<bool>|Vec<Nested>|Vec<HashMap<String, u8>>|Vec<UnitS>|Vec<Bare>|Vec<TrkS>
&'static [u8]|&'static [String]|&'static [f32]|&'static [Point]
[u8; 1]|[String; 1]|[Point; 1]|[Trk; 1]|[f64; 1]|[Option<u8>; 1]|[u8; 0]|[Trk; 0]|[Bare; 0]|[u8; 3]|[String; 2]|[Trk; 3]|[f64; 4]|[Point; 2]|[Vec<u8>; 2]|[[u16; 2]; 3]|[Bare; 2]|[OnlyDebug; 2]|[(u8, Trk); 2]|[u8; 32]|[u8; 33]|[UnitS; 3]|[char; 2]|[bool; 5]|[i64; 2]|[Option<String>; 3]
HashMap<String, u8>|HashMap<String, String>|HashMap<u8, Point>|HashMap<String, Vec<u8>>|HashMap<String, Nested>|HashMap<String, Trk>|HashMap<String, f64>|HashMap<String, u16, FixedState>
BTreeMap<String, u8>|BTreeMap<u32, String>|BTreeMap<String, EU8>|BTreeMap<Trk, String>|BTreeMap<String, f64>|BTreeMap<char, ()>
(u8,)|(u8, String)|(Trk, u8)|(f64, u8)|(String, u8, Point)|(u8, u16, u32, u64)|(u8, String, u8, String, bool)|(u8, u16, u8, u32, u8, u64)|(u8, u8, u8, u8, u8, u8, String)|(u8, u16, u8, u16, u8, u16, u8, String)
(u8, u8, u8, u8, u8, u8, u8, u8, String)|(u8, u8, u8, u8, u8, u8, u8, u8, u16, String)|(u8, u8, u8, u8, u8, u8, u8, u8, u16, u32, String)|(u8, u8, u8, u8, u8, u8, u8, u8, u16, u32, u64, String)|(Bare, u8)
Arc<Point>|Arc<String>|Arc<Trk>|Arc<Vec<u8>>|Arc<Bare>|Option<Bare>|Option<OnlyDebug>|Vec<OnlyDebug>|HashMap<u8, Bare>|BTreeMap<u8, OnlyDebug>|&'static [Bare]|&'static [OnlyDebug]|Arc<[u8; 2]>|Option<[String; 2]>|Vec<[u8; 3]>|([u8; 2], String)|HashMap<String, [u8; 2]>|(OnlyDebug, u8)|Option<Arc<Trk>>|Arc<Option<Trk>>|Vec<Arc<String>>|BTreeMap<String, Arc<u8>>
Option<HashMap<String, u8>>|Option<BTreeMap<u8, String>>|Option<(u8, String)>|Option<Option<Vec<Trk>>>|Vec<BTreeMap<u8, String>>|Vec<ETrk>|Option<ETrk>|HashMap<u8, BTreeMap<u8, Trk>>|BTreeMap<u8, Option<Trk>>|HashMap<u8, ETrk>|BTreeMap<u8, HashMap<String, Trk>>|(HashMap<u8, u8>, Trk)|[HashMap<u8, u8>; 2]|Arc<HashMap<u8, u8>>|Arc<EU8>|Vec<Option<Vec<Trk>>>|Option<Vec<Option<Trk>>>|InEnum
GOne<Vec<String>>""".replace("\n", "|").split("|")
roots += ["(%s)" % ", ".join(["OnlyDebug"] + ["u8"] * (n - 1)) for n in range(3, 13)]
roots += ["(%s)" % ", ".join(["u8"] * (n - 1) + ["Bare"]) for n in range(3, 13)]
roots += [f"std::num::NonZero<{t}>" for t in "u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize".split()]
roots += late + ["EMany", "EMany8", "EManyC", "Vec<EMany>", "Option<EManyC>", "BTreeMap<u8, EMany8>", "(EMany, EMany8, EManyC)", "Arc<Tree>", "[Tree; 2]", "Arc<SecretTree>", "[SecretTree; 1]", "(Tree, u8)", "Vec<SecretBusyE>"]

w("")
w("/// Calls a macro with every root type.")
w("#[macro_export]")
w("macro_rules! with_roots {")
w("    ($m:ident) => {")
w("        $m! {")
for r in roots:
    w(f"            [{r}]")
w("        }")
w("    };")
w("}")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "src/types.rs"), "w").write("\n".join(out) + "\n")
print(len(roots), "roots")

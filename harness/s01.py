"""S01: random type declarations, compiled with the derive on every run, and compared with what the
compiler (addresses, sizes, discriminants in memory) and the generator (names, docs, attributes) know.

A declaration is plain data (JSON); `render` turns it into a module holding the declaration and the
code that checks it against s01rt. Failing declarations are shrunk by simplifying the data, many
candidates per compilation; the data is the replay file.
"""
import copy, glob, hashlib, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
BINS = 8

# ---------------------------------------------------------------- small helpers

def rs(s):
    """a Rust string literal for s"""
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "\t":
            out += "\\t"
        elif ord(c) < 32 or ord(c) == 127:
            out += "\\u{%x}" % ord(c)
        else:
            out += c
    return out + '"'


def rs_odd(r, s):
    """a Rust string literal for s, written in one of several ways"""
    k = r.randrange(4)
    if k == 0 and "\r" not in s:
        h = "#" * r.choice([0, 0, 1, 2])
        if '"' + h not in s and not (h == "" and '"' in s):
            return f'r{h}"{s}"{h}'
    if k == 1:
        out = '"'
        for c in s:
            if r.random() < 0.3 and ord(c) < 128:
                out += "\\x%02x" % ord(c)
            elif r.random() < 0.3:
                out += "\\u{%x}" % ord(c)
            else:
                out += rs(c)[1:-1]
        return out + '"'
    return rs(s)


WORDS = ["a", "b", "c", "value", "name", "id", "x1", "fields", "vtable", "shape", "data", "def", "ptr",
         "f", "s", "_x", "__y", "discriminant", "invariants", "_opts", "inner", "variant", "offset", "T",
         "Self_", "naïve", "größe", "数", "ключ", "camelCase", "SHOUT", "a_very_long_field_name_that_goes_on_and_on",
         "core", "facet", "std", "u8", "str", "macro_rules", "union", "auto", "default", "x_", "field", "tag", "_fields"]
RAW = ["r#type", "r#fn", "r#match", "r#struct", "r#impl", "r#where", "r#ref", "r#async", "r#mod", "r#abc"]
VNAMES = ["A", "B", "Unit", "One", "Two", "Tuple", "lower", "None", "Some", "Ok", "Err", "Größe", "_0", "X9",
          "SHOUT", "Shape", "Variant", "String", "CamelCase", "under_score", "fields", "Ключ", "T", "Vec", "Field"]
TNAMES = ["Foo", "Bar", "A", "Ab", "HTTPServer", "snake_case", "_Hidden", "X1", "Größe", "Ключ", "VeryLongTypeNameIndeedIsIt",
          "Shape", "Field", "Def", "Variant", "Facet", "Struct", "Peek", "T1", "__", "lower", "Vtable", "Inner"]
DOCS = [" plain text", " a \"quoted\" word", " back\\slash \\n \\u{41}", "", " ", " trailing  ", "no leading space",
        " {braces} {} {{}} {0}", " unicode: größe, 数, 🦀", " # Heading", " `code` and 'ticks'", " tab\there", " %s %d $x",
        " a, b; c", " `r#\"raw\"#`", " \\", " \"", " ends with backslash \\", " // slashes /// more", " two  spaces", " #[doc = \"x\"]"]
RENAMES = ["x", "kebab-name", "with space", "quo\"te", "back\\slash", "größe", "", "🦀", "a\nb", "a.b", "{x}", "#", "true", "0", "tab\t", " lead", "'", "a,b", "=", "x = \"y\""]
ARBITRARY = ["positional", "named", 'named, short = \'x\'', 'flatten', 'with = "path::to"', "a::b(c, d)", "skip", "level = 3",
             'range(0..=10)', "sensitive_not", 'renamed = "q"', "x = [1, 2]", "r#type", 'says = "a b  c"', "json::format = \"hex\"", "not(sensitive)", "rename_all = \"kebab-case\""]
KNOWN_WORDS = ["rename", "sensitive", "default", "transparent", "opaque", "invariants", "deny_unknown_fields", "doc", "repr", "skip"]


def gen_arbitrary(r):
    """an attribute the derive knows nothing about, often one whose name resembles one it does"""
    if r.random() < 0.5:
        return r.choice(ARBITRARY)
    w = r.choice(KNOWN_WORDS)
    k = r.randrange(6)
    if k == 0:
        w = r.choice(["pre", "x", "un", "re", "_", "a_"]) + w
    elif k == 1:
        w = w + r.choice(["s", "d", "_all", "_", "2", "_with", "x"])
    elif k == 2:
        w = w[:-1]
    elif k == 3:
        w = w[1:]
    elif k == 4:
        w = w.upper() if r.random() < 0.5 else w.capitalize()
    else:
        return r.choice(['rename("x")', "rename", 'x = "rename"', "level = rename", 'rename("a = b")', "with(rename = 3)", "a::rename = 'x'", 'alias = "sensitive"', "kind(default)"])
    if w in KNOWN_WORDS or w in ("default", "in", "use") or not w[0].isalpha() and w[0] != "_":
        w = "q" + w
    return w + r.choice(["", "", ' = "d"', ' = "x"', " = 3", '("y")', " = path::to", "(a, b)"])


OTHER_ATTRS = ["#[allow(dead_code)]", "#[allow(unused, non_snake_case)]", "#[doc(hidden)]", "#[cfg(all())]", "#[cfg_attr(all(), allow(dead_code))]", "#[rustfmt::skip]"]

INT = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**63 - 1), "usize": (0, 2**63 - 1),
       "i8": (0, 127), "i16": (0, 32767), "i32": (0, 2**31 - 1), "i64": (0, 2**63 - 1), "isize": (0, 2**63 - 1)}


# ---------------------------------------------------------------- types: (text, value); {T}/{N} stand for parameters

def scalar(r):
    k = r.randrange(20)
    if k < 8:
        t = r.choice(["u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "usize", "isize", "u8", "u64"])
        return t, f"{r.randrange(1, 120)}{t}"
    return r.choice([
        ("bool", "true"), ("char", "'ß'"), ("f32", "1.5f32"), ("f64", "-2.25f64"), ("()", "()"),
        ("String", 'String::from("s")'), ("std::string::String", '"t".to_string()'), ("::std::string::String", "::std::string::String::new()"),
        ("&'static str", '"lit"'), ("&'static [u8]", "(&[1u8, 2, 3] as &'static [u8])"),
        ("std::net::IpAddr", "std::net::IpAddr::V4(std::net::Ipv4Addr::new(1, 2, 3, 4))"),
        ("std::path::PathBuf", 'std::path::PathBuf::from("/p")'),
        ("std::borrow::Cow<'static, str>", 'std::borrow::Cow::Borrowed("cow")'),
        ("core::num::NonZero<u16>", "core::num::NonZero::<u16>::new(7).unwrap()"),
        ("core::marker::PhantomData<u64>", "core::marker::PhantomData"),
        ("s01rt::Inner", 's01rt::Inner { a: 3, b: String::from("i") }'),
        ("crate::aux::deep::er::Renamed", 's01rt::Inner { a: 4, b: String::new() }'),
        ("s01rt::Zst", "s01rt::Zst"), ("s01rt::Al32", "s01rt::Al32(9)"),
        ("s01rt::InnerEnum", "s01rt::InnerEnum::B(1, 2)"), ("s01rt::InnerEnum", "s01rt::InnerEnum::A"),
        ("<u32 as s01rt::Same>::Out", "77u32"), ("<Vec<u8> as s01rt::Same>::Out", "vec![1u8]"),
    ])


def ty(r, d=0, params=()):
    if params and r.random() < 0.5:
        p = r.choice(params)
        if p["k"] == "type":
            return "{%s}" % p["name"], p["val"]
        inner, v = ("u8", "5u8")
        return "[u8; {%s}]" % p["name"], "[5u8; %s]" % p["arg"]
    if d >= 3 or r.random() < 0.55:
        return scalar(r)
    k = r.randrange(9)
    a, av = ty(r, d + 1, params)
    if k == 0:
        return f"Option<{a}>", r.choice([f"Some({av})", "None"])
    if k == 1:
        return f"Vec<{a}>", r.choice([f"vec![{av}]", "vec![]"])
    if k == 2:
        n, txt = r.choice([(0, "0"), (1, "1"), (2, "1 + 1"), (3, "s01rt::LEN"), (4, "{ 2 << 1 }"), (5, "5"), (1, "0x1")])
        return f"[{a}; {txt}]", "[" + ", ".join([av] * n) + "]"
    if k == 3:
        return f"({a},)", f"({av},)"
    if k == 4:
        b, bv = ty(r, d + 1, params)
        return f"({a}, {b})", f"({av}, {bv})"
    if k == 5:
        b, bv = ty(r, d + 1, params)
        return f"({a}, {b}, u8)", f"({av}, {bv}, 8u8)"
    if k == 6:
        return f"std::collections::HashMap<String, {a}>", f'std::collections::HashMap::from([(String::from("k"), {av})])'
    if k == 7:
        return f"std::collections::BTreeMap<u16, {a}>", f"std::collections::BTreeMap::from([(4u16, {av})])"
    return f"std::sync::Arc<{a}>", f"std::sync::Arc::new({av})"


# ---------------------------------------------------------------- generation

def gen_docs(r, p=0.25):
    out = []
    if r.random() < p:
        for _ in range(r.choice([1, 1, 2, 3])):
            v = r.choice(DOCS)
            ways = ["attr", "attr2"]
            if not v.startswith("/"):
                ways += ["line"] * 4
            if v and not v.startswith("*") and not v.startswith("/") and not v.endswith("/") and "*/" not in v and "/*" not in v:
                ways.append("block")
            w = r.choice(ways)
            if w == "block" and r.random() < 0.4:
                v = v + "\n * more\n"
            out.append({"k": "doc", "v": v, "w": w, "s": r.randrange(1 << 30)})
    return out


def gen_field_attrs(r, i, t, heavy, in_generic):
    out = gen_docs(r, 0.3 if heavy else 0.1)
    if not heavy and r.random() < 0.7:
        return out
    fa = []
    if r.random() < 0.25:
        fa.append({"k": "sensitive"})
    if r.random() < 0.3:
        fa.append({"k": "rename", "v": r.choice(RENAMES), "s": r.randrange(1 << 30)})
    k = r.random()
    if k < 0.12:
        fa.append({"k": "default"})
    elif k < 0.28 and not in_generic:
        fa.append({"k": "defaultfn", "path": r.choice(["mk%d" % i, "self::mk%d" % i])})
    for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
        fa.append({"k": "arbitrary", "v": gen_arbitrary(r)})
    if r.random() < 0.2:
        fa.append({"k": "other", "v": r.choice(OTHER_ATTRS)})
    out += fa
    r.shuffle(out)
    return out


def gen_name(r, used, pool, raws):
    for _ in range(50):
        n = r.choice(raws) if raws and r.random() < 0.12 else r.choice(pool)
        if n.removeprefix("r#") not in used:
            used.add(n.removeprefix("r#"))
            return n
    n = "n%d" % len(used)
    used.add(n)
    return n


def gen_fields(r, kind, params, enum_=False, must=(), count=None):
    n = count if count is not None else r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 7, 12])
    n = max(n, len(must))
    heavy = r.random() < 0.4
    used, out = set(), []
    if enum_:
        used.add("_discriminant")
    for i in range(n):
        if i < len(must):
            t, v = ("core::marker::PhantomData<{%s}>" % must[i]["name"], "core::marker::PhantomData") if r.random() < 0.3 else ("{%s}" % must[i]["name"], must[i]["val"])
        else:
            t, v = ty(r, 0, params)
        opaque = False
        if r.random() < 0.04 and not params:
            t, v, opaque = "std::sync::Arc<s01rt::NotFacet>", "std::sync::Arc::new(s01rt::NotFacet(1))", True
        attrs = gen_field_attrs(r, i, t, heavy, bool(params) or enum_ or opaque)
        if opaque:
            attrs.insert(r.randrange(len(attrs) + 1), {"k": "opaque"})
        vis = "" if enum_ else r.choice(["", "", "", "pub ", "pub(crate) ", "pub(self) ", "pub(super) ", "pub(in crate) "])
        name = gen_name(r, used, WORDS, RAW) if kind == "struct" else str(i)
        out.append({"name": name, "ty": t, "val": v, "attrs": attrs, "vis": vis})
    r.shuffle(out)
    if kind == "tuple":
        for i, f in enumerate(out):
            f["name"] = str(i)
            for a in f["attrs"]:
                if a["k"] == "defaultfn":
                    a["path"] = re.sub(r"mk\d+", "mk%d" % i, a["path"])
    else:
        for i, f in enumerate(out):
            for a in f["attrs"]:
                if a["k"] == "defaultfn":
                    a["path"] = re.sub(r"mk\d+", "mk%d" % i, a["path"])
    return out


def gen_params(r):
    out = []
    names = ["T", "U", "Item", "V_"]
    for i in range(r.choice([1, 1, 2, 3])):
        if r.random() < 0.7:
            t, v = r.choice([("u8", "3u8"), ("u64", "4u64"), ("String", 'String::from("g")'), ("Vec<u16>", "vec![1u16]"), ("(u8, u32)", "(1u8, 2u32)"),
                             ("Option<i128>", "Some(-1i128)"), ("s01rt::Inner", 's01rt::Inner { a: 1, b: String::new() }'), ("()", "()"), ("s01rt::Al32", "s01rt::Al32(1)")])
            out.append({"k": "type", "name": names[i], "arg": t, "val": v,
                        "bounds": r.choice(["", "", "", ": Clone", ": Clone + core::fmt::Debug", ": PartialEq", ": ::core::fmt::Debug + 'static", ": Into<Option<" + names[i] + ">>", ": Sized"]),
                        "default": ""})
        else:
            t, a = r.choice([("usize", "3"), ("usize", "0"), ("usize", "7")])
            out.append({"k": "const", "name": "N%d" % i, "cty": t, "arg": a, "default": ""})
    if r.random() < 0.2:
        for p in reversed(out):
            p["default"] = " = " + ("u8" if p["k"] == "type" else "2")
            if p["k"] == "type" and p["bounds"].startswith(": Into"):
                p["bounds"] = ""
            if r.random() < 0.5:
                break
    return out


def gen_where(r, params):
    out = []
    for p in params:
        if p["k"] == "type" and r.random() < 0.25:
            out.append(r.choice(["%s: Clone", "Vec<%s>: Clone", "%s: 'static + core::fmt::Debug", "Option<%s>: PartialEq", "[%s; 2]: Sized"]) % p["name"])
    return out


def gen_container(r, d):
    at = gen_docs(r, 0.4)
    if r.random() < 0.12:
        at.append({"k": "deny"})
    if r.random() < 0.12:
        at.append({"k": "cdefault"})
    if r.random() < 0.12 and not d["params"]:
        at.append({"k": "invariants"})
        if r.random() < 0.3:
            at.append({"k": "invariants2"})
    if r.random() < 0.15:
        at.append({"k": "other", "v": r.choice(OTHER_ATTRS)})
    if r.random() < 0.1:
        at.append({"k": "carb", "v": gen_arbitrary(r)})
    r.shuffle(at)
    return at


def fmt_int(r, n):
    k = r.randrange(6)
    if k == 0:
        s = "0x%X" % n if r.random() < 0.5 else "0x%x" % n
    elif k == 1:
        s = "0b" + bin(n)[2:]
    elif k == 2:
        s = "0o" + oct(n)[2:]
    else:
        s = str(n)
    if r.random() < 0.3:
        head, tail = (s[:2], s[2:]) if s[:2] in ("0x", "0b", "0o") else ("", s)
        i = r.randrange(1, len(tail) + 1)
        s = head + tail[:i] + "_" * r.choice([1, 1, 2]) + tail[i:]
    return s


def gen(r):
    k = r.random()
    d = {"name": r.choice(TNAMES), "params": [], "where": [], "reprs": [], "derives": r.choice([[], [], ["Debug"], ["PartialEq"]])}
    if k < 0.5:
        d["kind"] = r.choice(["struct", "struct", "struct", "tuple", "tuple", "unit"])
        if r.random() < 0.3:
            d["params"] = gen_params(r)
            d["where"] = gen_where(r, d["params"])
        count = r.choice([40, 63, 64, 100]) if r.random() < 0.02 else None
        must = [p for p in d["params"] if p["k"] == "type"]
        if d["kind"] == "unit":
            d["fields"] = []
            d["params"] = [p for p in d["params"] if p["k"] == "const"]
            d["where"] = []
        else:
            d["fields"] = gen_fields(r, d["kind"], d["params"], False, must, count)
        d["vis"] = r.choice(["", "pub ", "pub(crate) ", "pub(super) ", "pub(in crate) ", "pub(self) "])
        x = r.random()
        if x < 0.2:
            d["reprs"] = ["C"]
        elif x < 0.27:
            d["reprs"] = [r.choice(["align(1)", "align(8)", "align(64)", "C, align(16)"])]
        elif x < 0.32 and not d["params"]:
            d["reprs"] = [r.choice(["packed", "C, packed"])]
            for f in d["fields"]:
                f["ty"], f["val"] = r.choice([("u8", "1u8"), ("bool", "true"), ("[u8; 3]", "[1, 2, 3]"), ("()", "()"), ("i8", "-1i8")])
                f["attrs"] = [a for a in f["attrs"] if a["k"] != "opaque"]
    else:
        d["kind"] = "enum"
        d["vis"] = r.choice(["", "pub "])
        c = r.random() < 0.35
        int_ = r.choice(list(INT))
        if c:
            d["reprs"] = r.choice([["C"], ["C"], ["C, " + int_], [int_ + ", C"]])
            if "," in d["reprs"][0] and r.random() < 0.3:
                d["reprs"] = d["reprs"][0].split(", ")
        else:
            d["reprs"] = [int_]
            if r.random() < 0.3:
                d["params"] = gen_params(r)
                d["where"] = gen_where(r, d["params"])
        d["int"] = int_ if (not c or int_ in ",".join(d["reprs"]).replace(" ", "").split(",")) else None
        if r.random() < 0.06:
            d["reprs"].insert(r.randrange(2), r.choice(["align(16)", "align(2)"]))
        nv = r.choice([1, 2, 2, 3, 3, 4, 5, 6, 9]) if r.random() < 0.97 else r.choice([30, 100, 200, 300])
        if int_ == "u8":
            nv = min(nv, 200)
        if int_ == "i8":
            nv = min(nv, 100)
        unit_only = r.random() < 0.35 or nv > 20
        used, vs = set(), []
        types = [p for p in d["params"] if p["k"] == "type"]
        for i in range(nv):
            vk = "unit" if unit_only else r.choice(["unit", "tuple", "tuple", "struct", "struct"])
            v = {"name": gen_name(r, used, VNAMES, RAW) if nv < 15 else "V%d" % i, "kind": vk, "disc": None, "fields": []}
            if vk != "unit":
                v["fields"] = gen_fields(r, vk, d["params"], True, types, r.choice([0, 1, 1, 2, 2, 3, 4, 6]))
            v["attrs"] = gen_docs(r, 0.3)
            if r.random() < 0.1:
                v["attrs"].append({"k": "other", "v": r.choice(OTHER_ATTRS)})
            vs.append(v)
        if types and not any(v["fields"] for v in vs):
            vs[-1]["kind"] = "tuple"
            vs[-1]["fields"] = gen_fields(r, "tuple", d["params"], True, types, 1)
        d["variants"] = vs
        # explicit discriminants: need an integer representation when a variant has fields or parentheses
        plain = all(v["kind"] == "unit" for v in vs)
        if d["int"] or plain:
            hi = INT[d["int"] or "isize"][1]
            p = r.choice([0, 0, 0.3, 0.6, 1])
            taken = set()
            cur = 0
            for i, v in enumerate(vs):
                rest = len(vs) - i
                if r.random() < p:
                    for _ in range(20):
                        n = r.choice([r.randrange(0, 10), r.randrange(0, 300), r.randrange(0, 70000), hi, hi - rest, r.randrange(0, 1 << 33), 127, 128, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32])
                        if d["int"] is None and n > 1 << 62:
                            continue
                        if 0 <= n <= hi and not (set(range(n, n + rest)) & taken) and n + rest - 1 <= hi:
                            cur = n
                            v["disc"] = fmt_int(r, n)
                            break
                while cur in taken:
                    # the implicit discriminant is taken: give an explicit one
                    cur = max(taken) + 1
                    v["disc"] = str(cur)
                v["dv"] = cur
                taken.add(cur)
                cur += 1
            if any(v["dv"] > hi for v in vs):
                for i, v in enumerate(vs):
                    v["disc"], v["dv"] = None, i
        else:
            for i, v in enumerate(vs):
                v["dv"] = i
    d["attrs"] = gen_container(r, d)
    d["dpos"] = r.randrange(100)
    return d


# ---------------------------------------------------------------- rendering

def rend_attr(a):
    k = a["k"]
    if k == "doc":
        r = random.Random(a["s"])
        v = a["v"]
        if a["w"] == "line":
            return "///" + v + "\n"
        if a["w"] == "block":
            return "/**" + v + "*/ "
        if a["w"] == "attr":
            return "#[doc = " + rs(v) + "] "
        return "#[doc=" + rs_odd(r, v) + "] "
    if k == "sensitive":
        return "#[facet(sensitive)] "
    if k == "rename":
        return "#[facet(rename = " + rs_odd(random.Random(a["s"]), a["v"]) + ")] "
    if k == "default" or k == "cdefault":
        return "#[facet(default)] "
    if k == "defaultfn":
        return "#[facet(default = " + rs(a["path"]) + ")] "
    if k in ("arbitrary", "carb"):
        return "#[facet(" + a["v"] + ")] "
    if k == "opaque":
        return "#[facet(opaque)] "
    if k == "deny":
        return "#[facet(deny_unknown_fields)] "
    if k == "invariants":
        return '#[facet(invariants = "holds")] '
    if k == "invariants2":
        return '#[facet(invariants = "holds_too")] '
    return a["v"] + " "


def docs_of(attrs):
    return "&[" + ", ".join(rs(a["v"]) for a in attrs if a["k"] == "doc") + "]"


def inst(t, d, named=True):
    """the type's text with parameters: as declared (named) or instantiated"""
    for p in d["params"]:
        t = t.replace("{%s}" % p["name"], p["name"] if named else p["arg"])
    return t


def fattrs(f, d):
    out = []
    for a in f["attrs"]:
        k = a["k"]
        if k == "sensitive":
            out.append("A::Sensitive")
        elif k == "rename":
            out.append("A::Rename(" + rs(a["v"]) + ")")
        elif k == "default":
            out.append("A::Default(None)")
        elif k == "defaultfn":
            out.append("A::Default(Some(|f| s01rt::run_default::<%s>(f, %s)))" % (inst(f["ty"], d, False), f["val"]))
        elif k == "arbitrary":
            out.append("A::Arbitrary(" + rs(a["v"]) + ")")
    return "vec![" + ", ".join(out) + "]"


def opaque(f):
    return any(a["k"] == "opaque" for a in f["attrs"])


def fe(f, d, off, tuple_):
    t = inst(f["ty"], d, False)
    i = "None" if opaque(f) else "Some(ConstTypeId::of::<%s>())" % t
    return "FE { name: %s, id: %s, layout: Layout::new::<%s>(), docs: %s, attrs: %s, offset: %s, tuple: %s }" % (
        rs(f["name"].removeprefix("r#")), i, t, docs_of(f["attrs"]), fattrs(f, d), off, "true" if tuple_ else "false")


def static_bound(b, d):
    """the maps and PhantomData are Facet for parameters that outlive 'static only"""
    txt = json.dumps([d.get("fields"), d.get("variants")])
    if re.search(r"(Map<[^\"]*|PhantomData<)\{", txt) and "'static" not in b:
        return (b + " + 'static") if b else ": 'static"
    return b


def decl_text(d, derive=True):
    ders = list(d["derives"])
    at = [rend_attr(a) for a in d["attrs"]] + ["#[repr(%s)] " % x for x in d["reprs"]]
    r = random.Random(d["dpos"])
    r.shuffle(at)
    # docs keep their order of declaration (shuffled above only against the others)
    ds = [rend_attr(a) for a in d["attrs"] if a["k"] == "doc"]
    it = iter(ds)
    at = [next(it) if x in ds else x for x in at]
    line = "#[derive(" + ", ".join((["facet::Facet"] if derive else []) + ders) + ")] "
    # (the derive stands first: attributes that belong to it may not come before)
    at.insert(0, line)
    if not derive:
        at = [x for x in at if "facet(" not in x]
    gp = ""
    if d["params"]:
        gp = "<" + ", ".join((p["name"] + static_bound(p["bounds"], d) if p["k"] == "type" else "const %s: %s" % (p["name"], p["cty"])) + p["default"] for p in d["params"]) + ">"
    wh = (" where " + ", ".join(d["where"])) if d["where"] else ""

    def flds(fs, named):
        out = []
        for f in fs:
            s = "".join(rend_attr(a) for a in f["attrs"] if derive or not rend_attr(a).startswith("#[facet("))
            s += f["vis"] + ((f["name"] + ": ") if named else "") + inst(f["ty"], d)
            out.append(s)
        return ", ".join(out)
    head = "".join(at) + "\n" + d["vis"]
    k = d["kind"]
    if k == "struct":
        return head + "struct %s%s%s { %s }" % (d["name"], gp, wh, flds(d["fields"], True))
    if k == "tuple":
        return head + "struct %s%s(%s)%s;" % (d["name"], gp, flds(d["fields"], False), wh)
    if k == "unit":
        return head + "struct %s%s%s;" % (d["name"], gp, wh)
    vs = []
    for v in d["variants"]:
        s = "".join(rend_attr(a) for a in v["attrs"]) + v["name"]
        if v["kind"] == "tuple":
            s += "(" + flds(v["fields"], False) + ")"
        elif v["kind"] == "struct":
            s += " { " + flds(v["fields"], True) + " }"
        if v["disc"] is not None:
            s += " = " + v["disc"]
        vs.append(s)
    return head + "enum %s%s%s { %s }" % (d["name"], gp, wh, ", ".join(vs))


def render(n, d, derive=True):
    """the module of declaration n"""
    o = []
    o.append("#![allow(warnings)]")
    o.append(decl_text(d, derive))
    args = "<" + ", ".join(p["arg"] for p in d["params"]) + ">" if d["params"] else ""
    o.append("type Ty__ = %s%s;" % (d["name"], args))
    if any(a["k"] == "invariants" for a in d["attrs"]):
        o.append("impl %s { fn holds(&self) -> bool { true } fn holds_too(&self) -> bool { true } }" % d["name"])
    fns = []
    for i, f in enumerate(d.get("fields", [])):
        if any(a["k"] == "defaultfn" for a in f["attrs"]):
            fns.append("fn mk%d() -> %s { %s }" % (i, f["ty"], f["val"]))
    o += fns
    if not derive:
        return "\n".join(o)
    o.append("pub fn check__(r: &mut s01rt::Report) {")
    o.append("use s01rt::{A, FE, VE, ReprE, off}; use s01rt::facet::{ConstTypeId, EnumRepr, StructKind}; use std::alloc::Layout; use core::ptr::addr_of; type T = Ty__;")
    at = d["attrs"]
    tp = ", ".join('("%s", ConstTypeId::of::<%s>())' % (p["name"], p["arg"]) for p in d["params"] if p["k"] == "type")
    o.append("r.shape::<T>(%s, %s, %s, %d, %d, &[%s], %s);" % (
        rs(d["name"]), "true" if d["params"] else "false", docs_of(at), sum(a["k"] == "deny" for a in at), sum(a["k"] == "cdefault" for a in at), tp,
        "true" if any(a["k"] == "invariants" for a in at) else "false"))
    packed = any("packed" in x for x in d["reprs"])
    if d["kind"] != "enum":
        fs = d["fields"]
        named = d["kind"] == "struct"
        turbo = "self::" + d["name"] + ("::" + args if args else "")

        def val():
            if named:
                return turbo + " { " + ", ".join(f["name"] + ": " + f["val"] for f in fs) + " }"
            if d["kind"] == "tuple":
                return turbo + "(" + ", ".join(f["val"] for f in fs) + ")"
            return turbo
        o.append("let v: T = %s;" % val())
        o.append("r.structure::<T>(&v, StructKind::%s, &[%s]);" % (
            {"struct": "Struct", "tuple": "TupleStruct", "unit": "Unit"}[d["kind"]],
            ",\n".join(fe(f, d, "off(addr_of!(v), addr_of!(v.%s))" % f["name"], False) for f in fs)))
        if not packed and len(fs) < 64 and not any(opaque(f) for f in fs):
            w = "".join(".field(%d)?.put::<%s>(%s)?.pop()?" % (i, inst(f["ty"], d, False), f["val"]) for i, f in enumerate(fs))
            cmp = "".join('if v.%s != (%s) as %s { return Some(format!("field %s differs: {:?}", v.%s)); } ' % (f["name"], f["val"], "_", f["name"], f["name"]) for f in fs)
            cmp = "".join('{ let e: %s = %s; if v.%s != e { return Some(format!("field %s reads {:?} after {:?} was put", v.%s, e)); } } ' % (inst(f["ty"], d, False), f["val"], f["name"], f["name"], f["name"]) for f in fs)
            o.append("r.wip::<T>(\"struct\", |w| Ok(w%s), |v| { %s None });" % (w, cmp))
    else:
        vs = d["variants"]
        c = d["int"] is None
        turbo = "Ty__"
        unit_only = all(v["kind"] == "unit" for v in vs)
        tag = "off(core::ptr::null::<u8>(), core::ptr::null::<u8>())"
        if not c:
            tagf = "unsafe { *(addr_of!(v) as *const %s) as i64 }" % d["int"]
        elif unit_only:
            tagf = "v as i64"
        else:
            tagf = "unsafe { *(addr_of!(v) as *const i32) as i64 }"
        o.append("let mut offs: Vec<Vec<usize>> = vec![]; let mut tags: Vec<i64> = vec![];")
        body = []
        for i, v in enumerate(vs):
            if v["kind"] == "unit":
                expr, pat = "%s::%s" % (turbo, v["name"]), "%s::%s" % (turbo, v["name"])
            elif v["kind"] == "tuple":
                expr = "%s::%s(%s)" % (turbo, v["name"], ", ".join(f["val"] for f in v["fields"]))
                pat = "%s::%s(%s)" % (turbo, v["name"], ", ".join("f%d" % j for j in range(len(v["fields"]))))
            else:
                expr = "%s::%s { %s }" % (turbo, v["name"], ", ".join(f["name"] + ": " + f["val"] for f in v["fields"]))
                pat = "%s::%s { %s }" % (turbo, v["name"], ", ".join("%s: f%d" % (f["name"], j) for j, f in enumerate(v["fields"])))
            nf = len(v["fields"])
            body.append("let inst%d = || -> T { %s };" % (i, expr))
            o.append("{ let v: T = %s; let o: Vec<usize> = match &v { %s => vec![%s], _ => unreachable!() };" % (
                expr, pat, ", ".join("off(addr_of!(v), f%d as *const %s)" % (j, inst(f["ty"], d, False)) for j, f in enumerate(v["fields"]))))
            o.append("offs.push(o.clone()); ")
            if unit_only and c:
                o.append("let t = { let v: T = %s; v as i64 }; tags.push(t); r.instance::<T>(&v, %d, t, &o); }" % (expr, i))
            else:
                o.append("let t = %s; tags.push(t); r.instance::<T>(&v, %d, t, &o); }" % (tagf, i))
            if not any(opaque(f) for f in v["fields"]):
                w = "".join(".field(%d)?.put::<%s>(%s)?.pop()?" % (j, inst(f["ty"], d, False), f["val"]) for j, f in enumerate(v["fields"]))
                cmp = "".join('{ let e: %s = %s; if *f%d != e { return Some(format!("field %d reads {:?} after {:?} was put", f%d, e)); } } ' % (inst(f["ty"], d, False), f["val"], j, j, j) for j, f in enumerate(v["fields"]))
                o.append('r.wip::<T>("variant %d", |w| Ok(w.variant(%d)?%s), |v| match v { %s => { %s None } _ => Some("another variant was written".into()) });' % (i, i, w, pat, cmp))
        ves = []
        for i, v in enumerate(vs):
            fs = ",\n".join(fe(f, d, "offs[%d][%d]" % (i, j), v["kind"] == "tuple") for j, f in enumerate(v["fields"]))
            ves.append("VE { name: %s, kind: StructKind::%s, docs: %s, disc: %d, fields: vec![%s] }" % (
                rs(v["name"].removeprefix("r#")), {"unit": "Unit", "tuple": "TupleStruct", "struct": "Struct"}[v["kind"]], docs_of(v["attrs"]), v["dv"], fs))
        if c:
            rep = "ReprE::Size(%s)" % ("core::mem::size_of::<T>()" if unit_only and not any("align" in x for x in d["reprs"]) else "core::mem::size_of::<TagC__>()")
            big = [v["disc"] for v in vs if v["disc"] is not None]
            o.append("#[repr(C)] enum TagC__ { %s }" % ", ".join("X%d" % i + (" = " + v["disc"] if v["disc"] else "") for i, v in enumerate(vs)))
        else:
            rep = "ReprE::Exact(EnumRepr::%s)" % {"usize": "USize", "isize": "ISize"}.get(d["int"], d["int"].upper())
        # the declared discriminants, as the generator counts them, are those in memory
        o.append("r.enumeration::<T>(%s, &[%s]);" % (rep, ",\n".join(ves)))
    o.append("}")
    return "\n".join(o)


def labels(d):
    L = ["kind:" + d["kind"]]
    fs = d.get("fields", []) + [f for v in d.get("variants", []) for f in v["fields"]]
    if d["params"]:
        L.append("generic")
    if any(p["k"] == "const" for p in d["params"]):
        L.append("const-generic")
    if d["where"]:
        L.append("where")
    for x in d["reprs"]:
        L.append("repr:" + re.sub(r"\(.*", "", x.replace(" ", "")))
    if any(f["name"].startswith("r#") for f in fs):
        L.append("raw-ident")
    if any(a["k"] == "doc" for x in [d] + fs + d.get("variants", []) for a in x["attrs"]):
        L.append("docs")
    for k in ("sensitive", "rename", "default", "defaultfn", "arbitrary", "opaque"):
        if any(a["k"] == k for f in fs for a in f["attrs"]):
            L.append("attr:" + k)
    for k in ("deny", "cdefault", "invariants"):
        if any(a["k"] == k for a in d["attrs"]):
            L.append("container:" + k)
    if d["kind"] == "enum":
        if any(v["disc"] for v in d["variants"]):
            L.append("explicit-discriminants")
        for k in ("unit", "tuple", "struct"):
            if any(v["kind"] == k for v in d["variants"]):
                L.append("variant:" + k)
    if len(fs) > 20:
        L.append("many-fields")
    return L


def nontrivial(d):
    n = len(d.get("fields", [])) + sum(1 + len(v["fields"]) for v in d.get("variants", []))
    return n >= 2


RULE = "declarations with at least two fields or variants, distinct as source text"


# ---------------------------------------------------------------- building and running

class Gen:
    def __init__(self, runmod):
        self.R = runmod
        self.dir = os.path.join(runmod.TARGET, "s01gen")
        self.target = os.path.join(runmod.TARGET, "s01target")
        self.bindir = os.path.join(self.dir, "src", "bin")

    def setup(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.bindir)
        open(os.path.join(self.dir, "src", "lib.rs"), "w").write("")
        open(os.path.join(self.dir, "Cargo.toml"), "w").write(
            '[package]\nname = "s01gen"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n[workspace]\n[dependencies]\n'
            's01rt = { path = "%s" }\nfacet = { path = "/repo/facet", features = ["reflect"] }\n'
            '[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n' % os.path.join(HERE, "s01rt"))
        shutil.copy(os.path.join(HERE, "Cargo.lock"), os.path.join(self.dir, "Cargo.lock"))
        r = self.cargo(["-q", "-p", "s01rt"])
        if r.returncode == 0:
            r = self.cargo(["-q", "--lib"])
        if r.returncode != 0:
            # the fixed declarations of s01rt go through the derive as well
            m = self.derive_errors()
            if m:
                return m
            print(r.stderr[-4000:])
            self.R.die("the facet crates (or s01rt) do not build")

    def derive_errors(self):
        """what the compiler says, if all it objects to is what the derive made of s01rt's (plain, valid) types"""
        r = self.cargo(["-p", "s01rt", "--message-format", "json"])
        out = []
        for line in r.stdout.splitlines():
            j = json.loads(line) if line.startswith("{") else {}
            if j.get("reason") != "compiler-message" or j["message"]["level"] != "error":
                continue
            if j["target"]["name"] != "s01rt":
                return None
            m = j["message"]
            if not m["spans"]:
                continue
            if not all(sp.get("expansion") and sp["expansion"]["macro_decl_name"] == "#[derive(facet::Facet)]" for sp in m["spans"] if sp["is_primary"]):
                # what follows from the type having no implementation at all
                if (m.get("code") or {}).get("code") != "E0277" and not m["message"].startswith("proc-macro derive"):
                    return None
                continue
            out.append(m.get("rendered") or m["message"])
        return "\n".join(out) or None

    def cargo(self, extra):
        e = self.R.env({"CARGO_TARGET_DIR": self.target})
        return subprocess.run(["cargo", "build", "--offline"] + extra, cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

    def write(self, name, items, derive):
        src = os.path.join(self.bindir, name)
        os.makedirs(src)
        m = ["#![allow(warnings, conflicting_repr_hints)]", "pub use s01rt as aux;"]
        for n, d in items:
            open(os.path.join(src, "d%d.rs" % n), "w").write(d if isinstance(d, str) else render(n, d, derive))
            m.append("mod d%d;" % n)
        m.append("fn main() {")
        if derive:
            m.append("std::panic::set_hook(Box::new(|_| {})); let mut r = s01rt::Report::new();")
            m += ["r.run(%d, d%d::check__);" % (n, n) for n, _ in items]
            m.append("r.finish();")
        m.append("}")
        open(os.path.join(src, "main.rs"), "w").write("\n".join(m))

    def parts(self, parts, derive):
        """builds and runs a list of item lists, one program each.
        -> (fails {n: [(sig, msg)]}, uncompilable {n: message}, checks)"""
        parts = [list(p) for p in parts if p]
        fails, bad, checks = {}, {}, 0
        again = []
        while parts:
            shutil.rmtree(self.bindir, ignore_errors=True)
            os.makedirs(self.bindir)
            for i, p in enumerate(parts):
                self.write("b%d" % i, p, derive)
            r = self.cargo(["--bins", "--keep-going", "--message-format", "json"])
            if r.returncode == 0:
                break
            hit, broken = {}, set()
            for line in r.stdout.splitlines():
                if not line.startswith("{"):
                    continue
                j = json.loads(line)
                if j.get("reason") != "compiler-message" or not j["message"]["level"].startswith("error"):
                    continue
                broken.add(j["target"]["name"])
                files = set()

                def walk(sp):
                    files.add(sp["file_name"])
                    if sp.get("expansion"):
                        walk(sp["expansion"]["span"])
                for m in [j["message"]] + j["message"].get("children", []):
                    for sp in m["spans"]:
                        walk(sp)
                txt = j["message"].get("rendered") or j["message"]["message"]
                for f in files:
                    x = re.search(r"/(b\d+)/d(\d+)\.rs$", f)
                    if x:
                        hit.setdefault((x.group(1), int(x.group(2))), txt)
                        hit.setdefault(x.group(1), True)
            if not broken:
                print(r.stderr[-3000:])
                self.R.die("cargo failed on the generated crate")
            nxt = []
            for i, p in enumerate(parts):
                b = "b%d" % i
                if b not in broken:
                    nxt.append(p)
                elif b in hit:
                    for n, _ in p:
                        if (b, n) in hit:
                            bad[n] = hit[(b, n)]
                    nxt.append([x for x in p if x[0] not in bad])
                elif len(p) == 1:
                    bad[p[0][0]] = r.stderr[-2000:] or "the program does not build"
                else:
                    again += [p[: len(p) // 2], p[len(p) // 2:]]
            parts = [p for p in nxt if p]
        if parts and derive:
            with ThreadPoolExecutor(BINS) as ex:
                for p, (f, c) in zip(parts, ex.map(lambda x: self.execute("b%d" % x[0], x[1]), list(enumerate(parts)))):
                    if f is None:
                        again += [p[: len(p) // 2], p[len(p) // 2:]]
                    else:
                        fails.update(f)
                        checks += c
        if again:
            f, b, c = self.parts(again, derive)
            fails.update(f)
            bad.update(b)
            checks += c
        return fails, bad, checks

    def execute(self, name, items):
        exe = os.path.join(self.target, "debug", name)
        fails, checks = {}, 0
        try:
            p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=300)
        except subprocess.TimeoutExpired:
            self.R.die(f"{name} did not end")
        done = False
        for line in p.stdout.splitlines():
            f = line.split("\t")
            if f[0] == "FAIL":
                fails.setdefault(int(f[1]), []).append((f[2], f[3]))
            elif f[0] == "DONE":
                done, checks = True, int(f[1])
        if not done:
            if len(items) > 1:
                return None, 0
            fails[items[0][0]] = [("crash", f"the program ended with status {p.returncode}: {p.stderr[-500:]}")]
        return fails, checks

    def all(self, decls, derive=True):
        """decls: {n: declaration (or source text)}"""
        ps = [[] for _ in range(BINS)]
        for i, (n, d) in enumerate(sorted(decls.items())):
            ps[i % BINS].append((n, d))
        return self.parts(ps, derive)


# ---------------------------------------------------------------- shrinking

def simpler(d):
    """all declarations one step simpler"""
    out = []

    def c():
        return copy.deepcopy(d)
    for i in range(len(d["attrs"])):
        x = c(); del x["attrs"][i]; out.append(x)
    if d["derives"]:
        x = c(); x["derives"] = []; out.append(x)
    if d["where"]:
        x = c(); x["where"] = []; out.append(x)
    if d["vis"]:
        x = c(); x["vis"] = ""; out.append(x)
    if d["name"] != "Foo":
        x = c(); x["name"] = "Foo"; out.append(x)
    for i, p in enumerate(d["params"]):
        if p.get("bounds") or p["default"]:
            x = c(); x["params"][i]["bounds"] = ""; x["params"][i]["default"] = ""; out.append(x)
        x = c()
        pn = "{%s}" % p["name"]
        rep = "u8" if p["k"] == "type" else p["arg"]
        del x["params"][i]
        x["where"] = []
        for f in x.get("fields", []) + [f for v in x.get("variants", []) for f in v["fields"]]:
            if pn in f["ty"]:
                f["ty"], f["val"] = "u8", "5u8"
        out.append(x)
    if d["kind"] != "enum":
        for i in range(len(d["reprs"])):
            x = c(); del x["reprs"][i]; out.append(x)
    else:
        if len(d["reprs"]) > 1:
            for i in range(len(d["reprs"])):
                if "align" in d["reprs"][i]:
                    x = c(); del x["reprs"][i]; out.append(x)
        n = len(d["variants"])
        for i in range(n):
            if n > 1:
                x = c(); del x["variants"][i]
                if fix_discs(x):
                    out.append(x)
            v = d["variants"][i]
            for j in range(len(v["attrs"])):
                x = c(); del x["variants"][i]["attrs"][j]; out.append(x)
            if v["kind"] != "unit" and not d["params"]:
                x = c(); x["variants"][i].update(kind="unit", fields=[]); out.append(x)
            if v["disc"] is not None:
                x = c(); x["variants"][i]["disc"] = None
                if fix_discs(x):
                    out.append(x)
        if n > 3:
            for h in (range(0, n // 2), range(n // 2, n)):
                x = c(); x["variants"] = [d["variants"][i] for i in h]
                if fix_discs(x):
                    out.append(x)
    groups = [("fields",)] if d["kind"] != "enum" else [("variants", i, "fields") for i in range(len(d["variants"]))]
    for g in groups:
        def get(x):
            for k in g:
                x = x[k]
            return x
        fs = get(d)
        if len(fs) > 3:
            for h in (range(0, len(fs) // 2), range(len(fs) // 2, len(fs))):
                x = c(); y = get(x); keep = [fs[i] for i in h]; y[:] = copy.deepcopy(keep); renumber(y); out.append(x)
        for i, f in enumerate(fs):
            x = c(); y = get(x); del y[i]; renumber(y); out.append(x)
            for j in range(len(f["attrs"])):
                x = c(); del get(x)[i]["attrs"][j]; out.append(x)
            if f["ty"] != "u8" and not any(a["k"] == "opaque" for a in f["attrs"]) and "{" not in f["ty"]:
                x = c(); get(x)[i].update(ty="u8", val="5u8"); out.append(x)
            if not f["name"].isdigit() and f["name"] not in ("a", "b", "c", "d"):
                for nn in "abcd":
                    if all(o["name"] != nn for o in fs):
                        x = c(); get(x)[i]["name"] = nn; out.append(x)
                        break
            if f["vis"]:
                x = c(); get(x)[i]["vis"] = ""; out.append(x)
    return out


def renumber(fs):
    for i, f in enumerate(fs):
        if f["name"].isdigit():
            f["name"] = str(i)
        for a in f["attrs"]:
            if a["k"] == "defaultfn":
                a["path"] = re.sub(r"mk\d+", "mk%d" % i, a["path"])


def fix_discs(x):
    cur, seen = 0, set()
    for v in x["variants"]:
        if v["disc"] is not None:
            cur = int(v["disc"].replace("_", ""), 0)
        if cur in seen:
            return False
        seen.add(cur)
        v["dv"] = cur
        cur += 1
    return max(seen) <= INT[x["int"] or "isize"][1]


def size(d):
    return len(decl_text(d))


def sigs_of(n, fails, bad):
    s = {sig for sig, _ in fails.get(n, [])}
    if n in bad:
        s.add("compile")
    return s


def shrink(g, d, sig, budget=120):
    t0 = time.time()
    best = d
    while time.time() - t0 < budget:
        cands = sorted(simpler(best), key=size)[:160]
        cands = [c for c in cands if size(c) < size(best)]
        if not cands:
            break
        decls = dict(enumerate(cands))
        fails, bad, _ = g.all(decls)
        if sig == "compile":
            plain_bad = set()
            if bad:
                _, pb, _ = g.all({n: decls[n] for n in bad}, derive=False)
                plain_bad = set(pb)
            ok = [n for n in decls if n in bad and n not in plain_bad]
        else:
            ok = [n for n in decls if sig in sigs_of(n, fails, bad)]
        if not ok:
            break
        best = decls[min(ok, key=lambda n: size(decls[n]))]
    return best


# ---------------------------------------------------------------- the check

def corpus():
    """fixed declarations: those that once failed"""
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "s01corpus", "*.json"))):
        out.append(json.load(open(f)))
    return out


def check(R, pid, tier, seed, t0):
    rounds = 1 if tier == "quick" else 12
    per = 1000 if tier == "quick" else 1500
    g = Gen(R)
    m = g.setup()
    if m:
        fl = {"sig": "compile", "msg": "the derive's output for the fixed declarations does not compile\n" + m[:1800], "choices": []}
        dd = os.path.join(R.VERIF, "replays")
        os.makedirs(dd, exist_ok=True)
        path = os.path.join(dd, f"{pid}-fixed.json")
        json.dump({"property": pid, "target": "fixed", "sig": "compile", "msg": fl["msg"]}, open(path, "w"), indent=1)
        agg = {"declarations": {"evaluations": 3, "labels": {}, "known_hits": {}, "samples": ["fixed declarations of s01rt"], "keys": set(), "rule": RULE}, "__known__": []}
        return R.finish(pid, tier, seed, t0, [("fixed", fl, path)], agg)
    known = [k for k in R.load_known(pid)]
    known_lines = []
    for k in known:
        fails, bad, _ = g.all({0: k["decl"] if "decl" in k else k["source"]})
        if k["sig"] in sigs_of(0, fails, bad):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
            known_lines.append(k["what"])
    labs, keys, samples, checks, total, discarded = {}, set(), [], 0, 0, 0
    failing = {}
    for rnd in range(rounds):
        decls = {}
        if rnd == 0:
            for i, d in enumerate(corpus()):
                decls[i] = d
        base = len(decls)
        for i in range(per):
            r = random.Random(f"{seed}:{rnd}:{i}")
            decls[base + i] = gen(r)
        fails, bad, c = g.all(decls)
        checks += c
        if bad:
            # is it the declaration, or the derive?
            _, pb, _ = g.all({n: decls[n] for n in bad}, derive=False)
            discarded += len(pb)
            for n in bad:
                if n not in pb:
                    fails.setdefault(n, []).append(("compile", bad[n]))
            if len(bad) - len(pb) > per // 2:
                print(next(iter(bad.values()))[:3000])
                R.die("most declarations do not compile")
        if discarded > (rnd + 1) * per * 0.05:
            print(next(iter(bad.values()))[:3000])
            R.die("too many generated declarations are not valid Rust")
        for n, d in decls.items():
            if n in bad:
                continue
            total += 1
            for l in labels(d):
                labs[l] = labs.get(l, 0) + 1
            if nontrivial(d):
                keys.add(hashlib.md5(decl_text(d).encode()).hexdigest())
                if len(samples) < 12 and n % 37 == 5:
                    samples.append(decl_text(d)[:400])
        for n, fl in fails.items():
            for sig, msg in fl:
                old = failing.get(sig)
                if old is None or size(decls[n]) < size(old[0]):
                    failing[sig] = (decls[n], msg)
        if failing:
            break
    violations = []
    for sig, (d, msg) in list(failing.items())[:3]:
        d2 = shrink(g, d, sig, 100 if tier == "quick" else 300)
        fails, bad, _ = g.all({0: d2})
        m = [x for s, x in fails.get(0, []) if s == sig] or ([bad[0]] if 0 in bad else [msg])
        fl = {"sig": sig, "msg": m[0][:1800] + "\n" + decl_text(d2), "choices": []}
        dd = os.path.join(R.VERIF, "replays")
        os.makedirs(dd, exist_ok=True)
        path = os.path.join(dd, f"{pid}-{sig.replace('.', '_')}-{hashlib.md5(decl_text(d2).encode()).hexdigest()[:8]}.json")
        json.dump({"property": pid, "target": "declarations", "sig": sig, "msg": fl["msg"], "decl": d2}, open(path, "w"), indent=1)
        violations.append(("declarations", fl, path))
    agg = {"declarations": {"evaluations": total, "labels": labs, "known_hits": {}, "samples": samples, "keys": keys, "rule": RULE}, "__known__": known_lines}
    return R.finish(pid, tier, seed, t0, violations, agg, {"comparisons": checks, "discarded_declarations": discarded})


def replay(R, d):
    g = Gen(R)
    m = g.setup()
    if m or d["target"] == "fixed":
        print(m or "compiles")
        if m:
            print(f"VIOLATION property={d['property']} replay=(this file)")
        return 1 if m else 0
    fails, bad, _ = g.all({0: d["decl"]})
    print(decl_text(d["decl"]))
    for s, m in fails.get(0, []):
        print("FAIL", s, m)
    if 0 in bad:
        print(bad[0])
    if fails.get(0) or bad:
        print(f"VIOLATION property={d['property']} replay=(this file)")
        return 1
    return 0

"""X24: supported declarations must expand to code that type-checks (rustc is the decision procedure).

Every obligation is one declaration; chunks of declarations are compiled to metadata (parsing, expansion, name resolution,
type and borrow checking - no code is generated or run) and each rustc error is charged to the declaration whose lines it
points into.
"""
import json, os, re, subprocess, itertools

import build, gen
from spec import *

KEYWORDS = set("""as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return
self Self static struct super trait true type unsafe use where while async await dyn abstract become box do final macro override priv
typeof unsized virtual yield try gen union""".split())
TYS = """
use yaserde_derive::*;
#[derive(YaSerialize, YaDeserialize, Default, PartialEq, Debug, Clone)] pub struct Inner { pub a: String }
#[derive(YaSerialize, YaDeserialize, Default, PartialEq, Debug, Clone)] pub enum Kind { #[default] A, B }
#[derive(PrimitiveYaSerde, Default, PartialEq, Debug, Clone, Copy)] pub struct Num(pub u32);
#[derive(PrimitiveYaSerde, Default, PartialEq, Debug, Clone)] pub struct Txt(pub String);
#[derive(YaSerialize, YaDeserialize, Default, PartialEq, Debug, Clone)]
pub struct Gen<G: yaserde::YaSerialize + yaserde::YaDeserialize + Default> { pub g: G }
"""
USES = "#[allow(unused_imports)] use yaserde_derive::{YaSerialize, YaDeserialize};\n"
EXTRAS = (("", {}), ("renamed", dict(rename="x-y.z")), ("prefixed", dict(prefix="p")), ("default", dict(default=True)),
          ("skip", dict(skip=True)), ("skip_if", dict(skip_if=True)),
          ("all", dict(rename="a", prefix="p", default=True, skip_if=True)))
SIMPLE = SCALARS + ("String",)
USER = ("Inner", "Kind", "Num", "Txt", "Gen<Inner>")


def supported(ty, wrap, role):
    if role in ("element", "attribute"):
        return wrap in (PLAIN, OPT, VEC)
    if role == "text":
        return ty == "String" and wrap in (PLAIN, OPT)
    if role == "cdata":
        return ty == "String" and wrap == PLAIN
    return ty in ("Inner", "Kind", "Gen<Inner>") and wrap in (PLAIN, OPT)


def fields():
    for ty, w, role, (en, ex) in itertools.product(SIMPLE + USER, (PLAIN, OPT, VEC), ("element", "attribute", "text", "cdata", "flatten"), EXTRAS):
        if supported(ty, w, role):
            yield F("fld", ty, w, role, **ex)


def root_kinds():
    for rename, prefix, dn, flatten, ns in itertools.product((None, "a-b"), (None, "p"), (None, "p", "q"), (False, True), (0, 1, 2)):
        if prefix and not ns or dn == "q" and ns < 2 or dn == "p" and not ns:
            continue
        yield dict(rename=rename, prefix=prefix, default_namespace=dn, flatten=flatten, namespaces=(("p", "urn:p"), ("q", "urn:q"))[:ns])


DERIVES = ("YaSerialize, YaDeserialize", "YaSerialize", "YaDeserialize")


def in_mod(text, uses=USES + "#[allow(unused_imports)] use super::tys::*;\n"):
    return uses + text


def decl_cases():
    """(label, module body) for single declarations"""
    for f in fields():
        t = T("Foo", [f], namespaces=[("p", "urn:p")], prefix="p")
        for d in DERIVES:
            yield "%s [%s]" % (t.desc(), d), in_mod(t.decl(d))
    # two fields of every pair of roles and wraps
    ks = [F("f", ty, w, role, **ex) for ty, w, role, ex in itertools.product(
        ("String", "u8", "Inner"), (PLAIN, OPT, VEC), ("element", "attribute", "text", "cdata", "flatten"), ({}, dict(default=True)))
        if supported(ty, w, role)]
    for a, b in itertools.combinations_with_replacement(ks, 2):
        if a.role == b.role and a.role in ("text", "cdata"):
            continue
        def cp(f, i, name):
            return F(i, f.ty, f.wrap, f.role, rename=name, default=f.default)
        t = T("Foo", [cp(a, "one", None), cp(b, "two", "t-wo")])
        yield t.desc(), in_mod(t.decl())
    # containers
    fs = lambda p: [F("a", "String"), F("b", "u8", VEC, prefix=p), F("c", "Inner", OPT), F("d", "bool", role="attribute", prefix=p),
                    F("e", "String", role="text"), F("g", "Inner", role="flatten")]
    for k in root_kinds():
        p = "p" if k["namespaces"] else None
        t = T("Foo", fs(p), **k)
        yield "struct %s" % t.attrs().strip(), in_mod(t.decl())
        yield "empty struct %s" % t.attrs().strip(), in_mod(T("Foo", [], **k).decl())
        vs = [V("A"), V("B", payload=F("p", "String"), prefix=p), V("C", payload=F("p", "Inner"), rename="c-d"), V("D", payload=F("p", "u8", VEC))]
        yield "enum %s" % t.attrs().strip(), in_mod(T("Foo", variants=vs, **k).decl())
    # variants
    for ty, w, (en, ex) in itertools.product(SIMPLE + USER, (PLAIN, OPT, VEC), (("", {}), ("r", dict(rename="x-y")), ("p", dict(prefix="p")))):
        t = T("Foo", variants=[V("Unit"), V("Pay", payload=F("p", ty, w), **ex)], namespaces=[("p", "urn:p")])
        for d in DERIVES:
            yield "enum variant %s %s [%s]" % (t.variants[1].payload.rty(), en, d), in_mod(t.decl(d))
    for f in fields():
        t = T("Foo", variants=[V("Unit"), V("Named", fields=[F("fld", f.ty, f.wrap, f.role, rename=f.rename, prefix=f.prefix), F("other", "Inner")])],
              namespaces=[("p", "urn:p")])
        if f.conditional() or f.role != "element":
            continue
        yield "enum with named fields %s" % f.desc(), in_mod(t.decl())


def universe():
    """every identifier the generator can emit occurs in its source"""
    out = set()
    for d, _, fs in os.walk(os.path.join(build.REPO, "yaserde_derive", "src")):
        for f in fs:
            if f.endswith(".rs"):
                out |= set(re.findall(r"[A-Za-z_][A-Za-z0-9_]*", open(os.path.join(d, f)).read()))
    return sorted(x for x in out if x not in KEYWORDS and x.strip("_"))


def camel(s):
    return "".join(p[:1].upper() + p[1:] for p in s.split("_"))


def name_cases(per=24):
    """fields, variants, types, generic parameters, modules, functions and macros named like anything the generator may emit"""
    u = universe()
    kinds = [("String", PLAIN, "element"), ("u8", OPT, "attribute"), ("Inner", VEC, "element"), ("bool", VEC, "attribute"),
             ("Inner", OPT, "element"), ("String", OPT, "attribute"), ("Kind", PLAIN, "element"), ("f64", VEC, "element")]
    low = [x for x in u if x.upper() != x]
    for s in range(len(kinds)):
        for i in range(0, len(low), per):
            ch = low[i:i + per]
            fs = [F(x, *kinds[(j + s) % len(kinds)]) for j, x in enumerate(ch)]
            yield "fields named %s.. as kind %d" % (ch[0], s), in_mod("#[allow(non_snake_case)]\n" + T("Foo", fs).decl())
    for i in range(0, len(u), per):
        ch = sorted(set(camel(x) for x in u[i:i + per]) - {"Self"})
        vs = [V(x, payload=None if j % 3 == 0 else F("p", "String" if j % 3 == 1 else "Inner")) for j, x in enumerate(ch)]
        yield "variants named %s.." % ch[0], in_mod(T("Foo", variants=vs).decl())
        vs = [V("V%d" % j, fields=[F(x, "String"), F("b", "Inner", OPT)]) for j, x in enumerate(u[i:i + per]) if x != "b"]
        yield "variant fields named %s.." % u[i], in_mod(T("Foo", variants=vs).decl())
    kws = sorted(KEYWORDS - {"self", "Self", "super", "crate"})
    for i in range(0, len(kws), 12):
        fs = [F("r#" + x, *kinds[j % len(kinds)]) for j, x in enumerate(kws[i:i + 12])]
        yield "raw identifiers %s.." % kws[i], in_mod(T("Foo", fs).decl())


PLAINDECLS = T("Foo", [F("a", "String"), F("b", "u8", VEC), F("c", "Inner", OPT), F("d", "bool", OPT, "attribute"), F("e", "String", role="text"),
                       F("g", "Inner", role="flatten"), F("h", "Inner", VEC)], namespaces=[("p", "urn:p")], prefix="p").decl() + \
    T("Bar", variants=[V("A"), V("B", payload=F("p", "String")), V("C", payload=F("p", "Inner")), V("D", fields=[F("x", "String"), F("y", "Inner", OPT)])]).decl()


def scope_cases(per=30):
    """other items in scope, named like anything the generator may emit"""
    u = [x for x in universe() if x not in PRELUDE_NAMES]
    for kind, text in (("functions", "fn %s() {}\n"), ("modules", "mod %s {}\n"), ("types", "struct %s { z: () }\n"),
                       ("traits", "trait %s { fn z(&self); }\n"), ("macros", "macro_rules! %s { () => {} }\n")):
        for i in range(0, len(u), per):
            ch = u[i:i + per]
            if kind in ("types", "traits"):
                ch = [x for x in ch if x not in OWN]
            yield "beside %s named %s..%s" % (kind, ch[0], ch[-1]), in_mod("".join(text % x for x in ch) + PLAINDECLS)
    # the traits of another serialization framework, with the same method names
    yield "beside serde-like traits", in_mod("""
pub trait Serialize { fn serialize(&self, x: u8) -> u8; }
pub trait Deserialize: Sized { fn deserialize(x: u8) -> Self; }
%s""" % "".join("impl%s Serialize for %s { fn serialize(&self, x: u8) -> u8 { x } }\n"
                "impl%s Deserialize for %s { fn deserialize(x: u8) -> Self { loop {} } }\n" % (g, t, g, t)
                for g, t in (("", "String"), ("", "u8"), ("", "bool"), ("", "Inner"), ("", "Foo"), ("", "Bar"), ("<Q>", "Option<Q>"), ("<Q>", "Vec<Q>")))
        + PLAINDECLS)


# names every Rust program may take from the prelude: the generated code uses them, so shadowing them is not supported
PRELUDE_NAMES = set("""Some None Ok Err Option Vec String Box Result Default bool str char u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize f32 f64
Send Sync Sized Copy Drop Fn FnMut FnOnce drop AsMut AsRef From Into DoubleEndedIterator ExactSizeIterator Extend IntoIterator Iterator
ToOwned ToString TryFrom TryInto FromIterator Clone PartialEq Eq PartialOrd Ord Debug Hash derive
assert assert_eq assert_ne cfg column compile_error concat dbg debug_assert debug_assert_eq debug_assert_ne env eprint eprintln file format format_args
include include_bytes include_str line matches module_path option_env panic print println stringify todo unimplemented unreachable vec write writeln"""
.split())
OWN = {"YaSerialize", "YaDeserialize"}


D = "#[derive(YaSerialize, YaDeserialize, Default, PartialEq, Debug)]\n"
CONTEXTS = (
    ("types local to a function", "fn f() { %sstruct L { a: String, b: Vec<u8>, c: Option<Inner> } }" % D),
    ("private type and fields", "%sstruct L { a: String, #[yaserde(attribute = true)] b: Option<u8>, c: Vec<Inner> }" % D),
    ("restricted visibility", "%spub(crate) struct L { pub(crate) a: String, pub(super) b: Option<u8>, c: Vec<Inner> }" % D),
    ("qualified field types", D + "pub struct L { a: std::string::String, b: ::std::option::Option<std::string::String>, c: std::vec::Vec<super::tys::Inner>, "
                              "d: Option<crate::tys::Kind>, #[yaserde(attribute = true)] e: core::option::Option<u8>, f: Vec<self::M> }\n" + D + "pub struct M { v: u8 }"),
    ("recursive type", D + "pub struct L { a: u8, kids: Vec<L> }"),
    ("mutually recursive types", D + "pub struct L { kids: Vec<M> }\n" + D + "pub struct M { #[yaserde(attribute = true)] id: u8, kids: Vec<L>, k: Option<N> }\n"
                                     "#[derive(YaSerialize, YaDeserialize, PartialEq, Debug, Default)] pub enum N { #[default] A, #[yaserde(rename = \"l\")] L(L) }".replace("L(L)", "L(O)") + "\n" + D + "pub struct O { l: Vec<M> }"),
    ("generic struct, where clause", "#[derive(YaSerialize, YaDeserialize, Debug)] pub struct L<G> where G: yaserde::YaSerialize + yaserde::YaDeserialize + Default { g: G }"),
    ("generic struct, inline bounds", "#[derive(YaSerialize, YaDeserialize, Debug)] pub struct L<G: yaserde::YaSerialize + yaserde::YaDeserialize + Default> { g: G, s: String }"),
    ("generic struct, several parameters", "#[derive(YaSerialize, YaDeserialize, Debug)] pub struct L<G: yaserde::YaSerialize + yaserde::YaDeserialize + Default, H> "
                                           "where H: yaserde::YaSerialize + yaserde::YaDeserialize + Default { g: G, h: Option<H>, v: Vec<H> }"),
    ("generic enum, serialized", "#[derive(YaSerialize, Debug)] pub enum L<G: yaserde::YaSerialize> { A, B(G) }"),
    ("instances of a generic type", D + "pub struct L { a: Gen<Inner>, b: Vec<Gen<Inner>>, c: Option<Gen<Kind>> }"),
    ("wrapper types as fields", D + "pub struct L { a: Num, b: Option<Num>, c: Vec<Num>, d: Txt, #[yaserde(attribute = true)] e: Num, #[yaserde(attribute = true)] f: Option<Txt> }"),
    ("declared by a macro", """macro_rules! decl { ($n:ident, $f:ident, $t:ty, $v:vis, $l:literal) => { #[derive(YaSerialize, YaDeserialize, Default, PartialEq, Debug)]
        $v struct $n { #[yaserde(rename = $l)] $f: $t, w: Vec<$t>, o: Option<$t>, #[yaserde(attribute = true)] a: String } } }
        decl!(L1, x, String, pub, "y"); decl!(L2, reader, u8, , "z"); decl!(L3, writer, Inner, pub(crate), "q");
        macro_rules! decl2 { ($n:ident, $t:ty) => { #[derive(YaSerialize, YaDeserialize, Default, PartialEq, Debug)] pub struct $n { x: $t } } }
        decl2!(M1, Option<u8>); decl2!(M2, Vec<Inner>); decl2!(M3, Vec<String>);"""),
    ("other attributes and documentation", D + "/// documented\n#[allow(dead_code)]\n#[repr(C)]\npub struct L {\n/// a field\n#[allow(dead_code)]\n#[yaserde(attribute = true)]\n#[doc = \"more\"]\na: String,\n"
                                           "/** block */ #[cfg(any())] gone: NoSuchType, #[cfg(all())] b: u8 }\n" + "#[derive(YaSerialize, YaDeserialize, Default)] pub enum M { /// v\n #[default] #[allow(dead_code)] A, #[cfg(any())] Gone(NoSuchType), B(String) }"),
    ("derives in separate attributes", "#[derive(YaDeserialize)]\n#[derive(YaSerialize)]\n#[derive(Default)]\npub struct L { a: String }"),
    ("derives by path", "#[derive(yaserde_derive::YaSerialize, ::yaserde_derive::YaDeserialize)] pub struct L { a: String }"),
    ("the derives of the facade", "#[derive(yaserde::YaSerialize, yaserde::YaDeserialize)] pub struct L { a: String }") ,
    ("all of the facade imported", "use yaserde::*;\n#[derive(Default)]\n" + "#[derive(YaSerialize, YaDeserialize)] pub struct L { a: String, b: Inner, c: Vec<u8> }"),
    ("traits of std imported", "use std::io::{Read, Write, BufRead}; use std::str::FromStr; use std::fmt::{Display, Write as _}; use std::convert::TryFrom; use std::borrow::Borrow; use std::iter::FromIterator;\n"
                               + PLAINDECLS),
    ("aliases of Result and Error", "type Result<T> = std::result::Result<T, Error>; #[derive(Debug)] struct Error;\n" + PLAINDECLS),
    ("unsafe code forbidden", "#[forbid(unsafe_code)] mod inner { use super::*; use super::super::tys::*;\n" + PLAINDECLS + "}"),
    ("every number type", D + "pub struct L { %s }" % ", ".join("f_%s: %s, o_%s: Option<%s>, v_%s: Vec<%s>" % ((t,) * 6) for t in SIMPLE)),
    ("attributes of every type", D + "pub struct L { %s }" % ", ".join(
        "#[yaserde(attribute = true)] f_%s: %s, #[yaserde(attribute = true)] o_%s: Option<%s>, #[yaserde(attribute = true)] v_%s: Vec<%s>" % ((t,) * 6) for t in SIMPLE)),
    ("no field", D + "pub struct L {}"),
    ("one unit variant", "#[derive(YaSerialize, YaDeserialize, Default)] pub enum L { #[default] A }"),
    ("many fields", D + "pub struct L { %s }" % ", ".join("f%d: %s" % (i, ("String", "Vec<u8>", "Option<Inner>", "Kind")[i % 4]) for i in range(80))),
    ("many variants", "#[derive(YaSerialize, YaDeserialize, Default)] pub enum L { #[default] Z, %s }" % ", ".join("V%d%s" % (i, ("", "(String)", "(Inner)", "(Vec<u8>)")[i % 4]) for i in range(80))),
    ("non-ascii names", D + "#[yaserde(rename = \"élément\")] pub struct Ünï { größe: String, #[yaserde(attribute = true, rename = \"名前\")] namae: u8, #[yaserde(rename = \"日本\")] r: Vec<Inner> }"),
    ("many namespaces", D + "#[yaserde(rename = \"r\", prefix = \"a\", namespaces = { \"a\" = \"urn:a\", \"b\" = \"urn:b\", \"c-d\" = \"urn:c?x=1&y#z\" })] pub struct L { "
                        "#[yaserde(prefix = \"b\")] x: String, #[yaserde(prefix = \"c-d\", attribute = true)] y: u8, #[yaserde(prefix = \"a\")] z: Vec<Inner> }"),
    ("older namespace syntax", D + "#[yaserde(rename = \"r\", prefix = \"a\", namespaces = { \"a\" = \"urn:a\" })] pub struct L { #[yaserde(prefix = \"a\")] x: String }"),
)


def context_cases():
    for lab, text in CONTEXTS:
        yield lab, in_mod(text)
    for ty in ("u8", "u16", "u32", "u64", "u128"):
        yield "hexadecimal wrapper of %s" % ty, ("#[derive(yaserde_derive::HexBinaryYaSerde, Default, PartialEq, Debug)] pub struct L(pub %s);\n"
        "impl L { pub fn bits(&self) -> %s { self.0 } pub fn from_bits(x: %s) -> Option<Self> { Some(L(x)) } }" % (ty, ty, ty))
    for ty in SIMPLE + ("i128", "u128", "usize", "char"):
        yield "wrapper of %s" % ty, "#[derive(yaserde_derive::PrimitiveYaSerde, Default, PartialEq, Debug)] pub struct L(pub %s);" % ty
    yield "text wrapper of an own type", """#[derive(yaserde_derive::DefaultYaSerde, Default, PartialEq, Debug)] pub struct L(u8);
impl std::str::FromStr for L { type Err = String; fn from_str(s: &str) -> Result<Self, String> { loop {} } }
impl std::fmt::Display for L { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }"""


def gen_cases(tier):
    n = 3000 if tier == "thorough" else 200
    seen = set()
    for t in gen.structs(tier) + gen.enums(tier) + gen.named_enums(tier) + gen.randoms(n) + gen.de_structs(tier) + gen.de_enums(tier):
        d = t.decl()
        if d not in seen:
            seen.add(d)
            yield t.desc(), "mod own {\n%s}\nuse self::own::*;\nuse yaserde_derive::*;\n%s" % (HEAD, d)


def chunks(cases, size):
    cases = list(cases)
    return [cases[i:i + size] for i in range(0, len(cases), size)]


def compile_chunk(ctx, name, cases):
    """{label: [messages]} of the cases with errors; other: errors outside every case"""
    src, line, spans = "#![allow(warnings)]\n", 2, []
    body = TYS
    n = body.count("\n") + 2
    src += "pub mod tys {\n" + body + "}\n"
    line += n
    for i, (lab, text) in enumerate(cases):
        b = "pub mod m%d {\n%s\n}\n" % (i, text)
        n = b.count("\n")
        spans.append((line, line + n - 1, lab))
        src += b
        line += n
    p = os.path.join(ctx["out"], name + ".rs")
    open(p, "w").write(src)
    cmd = [os.path.join(build.sysroot(), "bin", "rustc"), p, "--crate-name", name, "--crate-type", "lib", "--edition", "2021", "--emit=metadata",
           "-o", os.path.join(ctx["out"], name + ".rmeta"), "-Zthreads=1", "--error-format=json", "--cap-lints=allow"] + build.FLAGS.split()
    for c in ("yaserde", "yaserde_derive", "xml", "log"):
        if c in ctx["ext"]:
            cmd += ["--extern", "%s=%s" % (c, ctx["ext"][c])]
    for d in ctx["dirs"]:
        cmd += ["-L", "dependency=" + d]
    r = subprocess.run(cmd, capture_output=True, text=True, env=build.env({}))
    bad, other = {}, []
    for l in r.stderr.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("level") != "error":
            continue
        hit = False
        for s in m["spans"]:
            while s.get("expansion") and not s["file_name"].endswith(name + ".rs"):
                s = s["expansion"]["span"]
            if s["file_name"].endswith(name + ".rs"):
                for a, b, lab in spans:
                    if a <= s["line_start"] <= b:
                        bad.setdefault(lab, []).append(m["message"])
                        hit = True
                        break
            if hit:
                break
        if not hit and not m["message"].startswith("aborting due"):
            other.append(m["message"])
    return r.returncode, bad, other


def battery(tier):
    for kind, cases, size in (("declarations", decl_cases(), 100), ("contexts", context_cases(), 60), ("names", name_cases(), 12),
                              ("scopes", scope_cases(), 6), ("generated", gen_cases(tier), 40)):
        for i, ch in enumerate(chunks(cases, size)):
            yield "%s %d" % (kind, i), ch


def run(ctx, name, title, cases):
    rc, bad, other = compile_chunk(ctx, name, cases)
    src = dict(cases)
    out = []
    for lab, _ in cases:
        al = [dict(props=["X24"], msg="%s: the derived code does not compile: %s" % (lab, m), fn="rustc", trace=[m]) for m in bad.get(lab, ())[:1]]
        r = dict(task="compile", job=lab, alarms=al, stats={}, fns=[], source=src[lab] if al else None)
        if rc and not bad:
            r["error"] = "rustc: " + "; ".join(other[:2])
        out.append(r)
    return out

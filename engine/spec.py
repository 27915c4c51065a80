"""Declarations of derived types: the model every check reads the specification from, and their Rust source."""

SCALARS = ("bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64")
PLAIN, OPT, VEC = "plain", "opt", "vec"


class F:
    """a field: role element | attribute | text | cdata | flatten"""

    def __init__(self, ident, ty="String", wrap=PLAIN, role="element", rename=None, prefix=None, default=False, skip=False,
                 skip_if=False):
        self.ident, self.ty, self.wrap, self.role = ident, ty, wrap, role
        self.rename, self.prefix, self.default, self.skip, self.skip_if = rename, prefix, default, skip, skip_if
        self.index = None

    @property
    def scalar(self):
        return self.ty in SCALARS or self.ty == "String"

    @property
    def name(self):
        i = self.ident
        return self.rename if self.rename is not None else i.replace("r#", "")

    def rty(self):
        t = self.ty
        return {PLAIN: t, OPT: "Option<%s>" % t, VEC: "Vec<%s>" % t, "optvec": "Option<Vec<%s>>" % t}[self.wrap]

    def dflt_fn(self):
        return "u_dflt_" + self.ident.replace("r#", "")

    def skip_fn(self):
        return "u_skip_" + self.ident.replace("r#", "")

    def attrs(self, style=0):
        a = []
        if self.role == "attribute":
            a.append("attribute = true")
        elif self.role in ("text", "cdata", "flatten"):
            a.append("%s = true" % self.role)
        if self.rename is not None:
            a.append('rename = "%s"' % self.rename)
        if self.prefix:
            a.append('prefix = "%s"' % self.prefix)
        if self.default:
            a.append('default = "%s"' % self.dflt_fn())
        if self.skip:
            a.append("skip_serializing = true")
        if self.skip_if:
            a.append('skip_serializing_if = "%s"' % self.skip_fn())
        off = [x for x, on in (("attribute", self.role == "attribute"), ("flatten", self.role == "flatten"), ("text", self.role == "text"),
                               ("cdata", self.role == "cdata"), ("skip_serializing", self.skip)) if not on]
        return spell(a, style, off)

    def conditional(self):
        return self.default or self.skip or self.skip_if

    def desc(self):
        x = [self.role, self.rty()] + [k for k in ("rename", "prefix", "default", "skip", "skip_if") if getattr(self, k)]
        return "%s: %s" % (self.ident, " ".join(x))


def spell(items, style, off=()):
    """the declared properties as attributes, in one of the ways they may be written"""
    if style == 3:
        items = ["%s = false" % x for x in off] + items
    if not items:
        return "/// documented\n  #[allow(dead_code)] " if style == 1 else ""
    if style == 1:
        return "/// documented\n  #[allow(dead_code)] #[yaserde(%s,)] " % ", ".join(reversed(items))
    if style == 2:
        return " #[doc = \"and\"] ".join("#[yaserde(%s)]" % x for x in items) + " "
    return "#[yaserde(%s)] " % ", ".join(items)


class V:
    """an enum variant: unit, newtype (payload F) or named (fields)"""

    def __init__(self, ident, payload=None, fields=None, rename=None, prefix=None, flatten=False):
        self.ident, self.payload, self.fields, self.rename, self.prefix, self.flatten = ident, payload, fields, rename, prefix, flatten
        if fields:
            for i, f in enumerate(fields):
                f.index = i
        if payload:
            payload.index = 0

    @property
    def name(self):
        return self.rename if self.rename is not None else self.ident


class T:
    def __init__(self, name, fields=None, variants=None, rename=None, prefix=None, namespaces=(), default_namespace=None,
                 flatten=False, tag=None):
        self.name, self.fields, self.variants = name, fields or [], variants
        self.rename, self.prefix, self.namespaces = rename, prefix, list(namespaces)
        self.default_namespace, self.flatten, self.tag = default_namespace, flatten, tag
        self.style = 0              # how the attributes are written
        self.foci = None            # what the focused reading runs follow, when not everything
        for i, f in enumerate(self.fields):
            f.index = i
        for i, v in enumerate(variants or ()):
            v.index = i

    @property
    def is_enum(self):
        return self.variants is not None

    @property
    def root(self):
        n = self.rename if self.rename is not None else self.name
        return self.qual(self.prefix, n)

    @property
    def local(self):
        return self.rename if self.rename is not None else self.name

    def qual(self, prefix, n):
        if prefix is None or prefix == self.default_namespace:
            return n
        return prefix + ":" + n

    def uri(self, prefix):
        return dict(self.namespaces).get(prefix, "") if prefix else ""

    def attrs(self):
        a = []
        if self.rename is not None:
            a.append('rename = "%s"' % self.rename)
        if self.prefix:
            a.append('prefix = "%s"' % self.prefix)
        if self.default_namespace:
            a.append('default_namespace = "%s"' % self.default_namespace)
        if self.namespaces:
            a.append("namespaces = { %s }" % ", ".join('"%s" = "%s"' % x for x in self.namespaces))
        if self.tag:
            a.append('tag = "%s"' % self.tag)
        if self.flatten:
            a.append("flatten = true")
        return spell(a, self.style, ["flatten"] if not self.flatten else []) + "\n"

    def decl(self, derives="YaSerialize, YaDeserialize"):
        o = "#[derive(%s)]\n%spub %s %s {\n" % (derives, self.attrs(), "enum" if self.is_enum else "struct", self.name)
        if self.is_enum:
            for v in self.variants:
                a = []
                if v.rename is not None:
                    a.append('rename = "%s"' % v.rename)
                if v.prefix:
                    a.append('prefix = "%s"' % v.prefix)
                if v.flatten:
                    a.append("flatten = true")
                k = (self.style + v.index) % 4 if self.style else 0
                o += "  " + spell(a, k, ["flatten"] if not v.flatten else []) + v.ident
                if v.payload:
                    o += "(%s%s)" % (v.payload.attrs(k), v.payload.rty())
                elif v.fields:
                    o += " { %s }" % ", ".join("%s%s: %s" % (f.attrs((k + f.index) % 4 if k else 0), f.ident, f.rty()) for f in v.fields)
                o += ",\n"
        else:
            for f in self.fields:
                o += "  %spub %s: %s,\n" % (f.attrs((self.style + f.index) % 4 if self.style else 0), f.ident, f.rty())
        o += "}\n"
        ms = ""
        for f in self.allfields():
            if f.default:
                o += "pub fn %s() -> %s { loop {} }\n" % (f.dflt_fn(), f.rty())
            if f.skip_if:
                ms += "  fn %s(&self, _: &%s) -> bool { loop {} }\n" % (f.skip_fn(), f.rty())
        if ms:
            o += "impl %s {\n%s}\n" % (self.name, ms)
        if self.is_enum:
            o += "pub fn u_default_%s() -> %s { loop {} }\n" % (self.name, self.name)
            o += "impl Default for %s { fn default() -> Self { u_default_%s() } }\n" % (self.name, self.name)
        return o

    def allfields(self):
        if not self.is_enum:
            return self.fields
        return [f for v in self.variants for f in (v.fields or ([v.payload] if v.payload else []))]

    def desc(self):
        if self.is_enum:
            return "enum %s {%s}" % (self.name, "; ".join(v.ident + ("(%s)" % v.payload.rty() if v.payload else "{..}" if v.fields else "") for v in self.variants))
        return "struct %s {%s}" % (self.name, "; ".join(f.desc() for f in self.fields))


HEAD = """
#[allow(unused_imports)] use yaserde::*;
#[allow(unused_imports)] use yaserde_derive::*;
#[derive(YaSerialize, YaDeserialize, Default, PartialEq)]
pub struct Inner { pub v: String }
#[derive(YaSerialize, YaDeserialize, Default, PartialEq)]
pub struct Other { #[yaserde(attribute = true)] pub q: String }
#[derive(YaSerialize, YaDeserialize, Default, PartialEq)]
pub enum Pick { #[default] P, R(Inner) }
"""


def de_roots(t):
    n = t.name
    return """
pub fn root_nest() -> Result<(Result<%s, String>, usize, Result<xml::reader::XmlEvent, String>), ()> {
  let mut r = match v::nested_cursor() { Ok(r) => r, Err(_) => return Err(()) };
  let x = <%s as YaDeserialize>::deserialize(&mut r);
  v::v_returned();
  let d = r.depth();
  let p = if x.is_ok() { match r.peek() { Ok(e) => Ok(e.clone()), Err(e) => Err(e) } } else { Err(String::new()) };
  Ok((x, d, p))
}
pub fn root_top() -> Result<%s, String> { yaserde::de::from_reader::<v::Src, %s>(v::v_src()) }
""" % (n, n, n, n)


def ser_roots(t):
    n = t.name
    return """
pub fn root_ser(x: &%s, n: Option<String>, s: bool) -> Result<(), String> { let mut w = v::serializer(n, s); x.serialize(&mut w) }
pub fn root_sattr(x: &%s, a: Vec<xml::attribute::OwnedAttribute>, n: xml::namespace::Namespace)
  -> Result<(Vec<xml::attribute::OwnedAttribute>, xml::namespace::Namespace), String> { x.serialize_attributes(a, n) }
""" % (n, n)

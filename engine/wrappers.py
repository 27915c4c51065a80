"""X23: newtype wrappers (PrimitiveYaSerde, HexBinaryYaSerde, DefaultYaSerde) and the built-in impls of primitive types."""
import re
import absint, models, run
from absint import mk, show, S, UNIT
from models import Monitor, mkfmt
from spec import T, de_roots, ser_roots

INNER = ("String", "bool", "char", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64")
HEX = ("u8", "u16", "u32", "u64", "u128")
BUILTIN = ("bool", "char", "usize", "u8", "u16", "u32", "u64", "isize", "i8", "i16", "i32", "i64", "f32", "f64")
X, N, SKIP = mk("sym", "x"), mk("sym", "n"), mk("sym", "s")
OWN = mk("ev", "own")

HEADER = "#[allow(unused_imports)] use yaserde::*;\n#[allow(unused_imports)] use yaserde_derive::*;\n"


def disp_root(name):
    return "pub fn root_disp(x: &%s, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { std::fmt::Display::fmt(x, f) }\n" % name


def source(kind, ty):
    t = T("Wrap")
    o = HEADER
    if kind == "primitive":
        o += "#[derive(PrimitiveYaSerde)] pub struct Wrap(pub %s);\n" % ty
    elif kind == "hex":
        o += ("#[derive(HexBinaryYaSerde)] pub struct Wrap(pub %s);\npub fn u_from_bits(b: %s) -> Option<Wrap> { loop {} }\n"
              "impl Wrap { pub fn from_bits(b: %s) -> Option<Wrap> { u_from_bits(b) } }\n" % (ty, ty, ty))
    elif kind == "default":
        o += ("#[derive(DefaultYaSerde)] pub struct Wrap(pub %s);\npub fn u_parse(s: &str) -> Result<Wrap, String> { loop {} }\n"
              "impl std::str::FromStr for Wrap { type Err = String; fn from_str(s: &str) -> Result<Self, String> { u_parse(s) } }\n"
              "impl std::fmt::Display for Wrap { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(\"w\") } }\n" % ty)
    return o + de_roots(t) + ser_roots(t) + (disp_root("Wrap") if kind != "default" else "")


class WriteMonitor(Monitor):
    """records what is written"""

    def write(self, eng, st, ev):
        st.w = st.w.put(out=st.w.get("out", ()) + (ev,))
        return [st]

    def fmt_out(self, eng, st, x):
        st.w = st.w.put(fmt=st.w.get("fmt", ()) + (x,))


class ReadMonitor(Monitor):
    """records the character data directly inside the own element, and whether it holds anything else"""

    def child_start(self, eng, st, cid):
        st.w = st.w.put(odd=True)
        return super().child_start(eng, st, cid)

    def chars(self, eng, st, cid, kind):
        w = st.w
        if w.stack != (OWN,) or w.star:
            return super().chars(eng, st, cid, kind)
        k = len(w.get("txt", ()))
        if k >= 3:
            return []
        x = mk("text", mk("foc", "piece%d" % k))
        st.facts[eng.eq(x, S(""))] = False
        st.w = w.put(txt=w.get("txt", ()) + (x,))
        return [(st, x)]


def evs(e):
    return "(" + ", ".join(show(y) if isinstance(y, absint.Term) else str(y) for y in e) + ")"


def explore(prog, root, args, mon, what):
    res = run.Result(what)
    m = models.Models(prog, descend_all=True)
    m.mon = mon(m)
    e = run.explore(prog, m, root, list(args), res)
    for a in m.alarms:
        res.add(a.get("props") or ("X23", "D22"), a["msg"], a["node"], a["labels"], a["fn"])
    for n in e.live_nodes:
        if n.kind == "panic":
            w = show(n.info[0]) if isinstance(n.info[0], absint.Term) else str(n.info[0])
            res.add(("D10", "X23"), "%s can panic: %s" % (what, w), n)
    cyc, byid = run.nonterminating(e)
    for c in cyc:
        fns = sorted({byid[i].state.frames[-1].fn.name for i in c if byid[i].state is not None})
        res.add(("D11", "X23"), "%s can repeat without consuming input in %s" % (what, ", ".join(fns)), byid[c[0]])
    return res, e, m


def written(n, e, name, conf, res, what):
    """the events written on one path against (name) text (/name)"""
    w, r = n.state.w, n.ret
    out = w.get("out", ())
    some = n.state.facts.get(mk("discr", N))
    nm = mk("fld", N, 1, 0) if some == frozenset([1]) else S(name) if some == frozenset([0]) else None
    skip = n.state.facts.get(SKIP)
    want = [("chars",)]
    if skip is None or nm is None and not skip:
        res.stats["undecided-exit"] += 1
        return
    if not skip:
        want = [("start", nm, models.EMPTY, models.EMPTY), ("chars",), ("end",)]
    failed = w.wr == "err"
    if r.op != "adt":
        res.stats["undecided-exit"] += 1
        return
    if failed and r.a[2] == 0:
        res.add(("C01", "X23"), "%s reports success although a write failed" % what, n)
    elif not failed and r.a[2] == 1:
        res.add(("X23", "C01"), "%s fails although every write succeeded" % what, n)
    for i, ev in enumerate(out):
        if i >= len(want) or ev[0] != want[i][0] or ev[0] == "start" and ev != want[i]:
            due = evs(want[i]) if i < len(want) else "nothing more"
            res.add(("X23", "C02", "C04"), "%s writes %s where %s is due" % (what, evs(ev), due), n)
            return
        if ev[0] == "chars":
            conf(ev[1])
    if not failed and r.a[2] == 0 and len(out) < len(want):
        res.add(("X23", "C02", "C03"), "%s ends without writing %s" % (what, evs(want[len(out)])), n)
    res.stats["writes-compared"] += 1


def shown(x):
    """the value whose Display text x is"""
    while x.op in ("disp", "fmt") and (x.op == "disp" or len(x.a[0]) == 1):
        x = x.a[0] if x.op == "disp" else x.a[0][0]
    return x


def ser(kind, ty):
    what = "serializing a %s wrapper of %s" % (kind, ty)

    def task(prog, t):
        res, e, m = explore(prog, "root_ser", [X, N, SKIP], WriteMonitor, what)
        for n in e.live_nodes:
            if n.kind != "return":
                continue
            res.exits += 1

            def text(x):
                ok = shown(x) is X or kind == "primitive" and shown(x) is mk("fld", X, None, 0) or kind == "hex" and hex_of(x)
                if not ok:
                    res.add(("X23", "C03"), "%s writes the text %s" % (what, show(x)[:120]), n)
            written(n, e, "Wrap", text, res, what)
        return res
    task.__name__ = "ser"
    return task


def hex_of(x):
    while x.op == "fmt" and len(x.a[0]) == 1:
        x = x.a[0][0]
    if x.op != "fspec" or x.a[1] is not mk("fld", X, None, 0):
        return False
    if not re.match(r"(upper_hex|lower_hex|UpperHex|LowerHex)\b", x.a[0]):
        return False
    f = re.search(r"flags=(\d+)", x.a[0])
    return not (f and int(f.group(1)) & (1 << 23))          # no 0x in front


def notation(kind, ty):
    what = "the Display of a %s wrapper of %s" % (kind, ty)

    def task(prog, t):
        res, e, m = explore(prog, "root_disp", [X, mk("sym", "f")], WriteMonitor, what)
        for n in e.live_nodes:
            if n.kind != "return":
                continue
            res.exits += 1
            out = n.state.w.get("fmt", ())
            inner = mk("fld", X, None, 0)
            if kind == "hex":
                ok = len(out) == 1 and hex_of(out[0])
            else:
                ok = len(out) == 1 and shown(out[0]) is inner
            if not ok and not (n.ret.op == "adt" and n.ret.a[2] == 1 and not out):
                res.add(("X23",), "%s is %s instead of its value's %s" % (
                    what, ", ".join(show(x) for x in out)[:160] or "empty", "hexadecimal digits" if kind == "hex" else "text"), n)
            res.stats["notations-compared"] += 1
        return res
    task.__name__ = "notation"
    return task


def de(kind, ty):
    what = "deserializing a %s wrapper of %s" % (kind, ty)

    def value_ok(e, n, val, txt):
        """val is the declared conversion of the text"""
        if kind == "default":
            return val is mk("fld", mk("call", "u_parse", (txt,)), 0, 0)
        if kind == "primitive":
            if val.op != "adt" or len(val.a[3]) != 1:
                return False
            v = val.a[3][0]
            if ty == "String":
                return v is txt
            return v is mk("parse", ty, txt)
        if val.op != "fld" or val.a[0].op != "call" or val.a[0].a[0] != "u_from_bits":
            return False
        v = val.a[0].a[1][0]
        narrowed = False
        while v.op == "call" and v.a[0].startswith("cast:IntToInt") or v.op == "cast":
            narrowed = narrowed or not v.a[0].endswith("u128")
            v = v.a[1][0]
        if v.op != "parse" or v.a[1] is not txt or not re.match(r"u\d+@16$", v.a[0]):
            return False
        if narrowed and v.a[0] != ty + "@16" and ty != "u128":
            # the conversion to the narrower type must have been checked
            return any(v in absint.subterms(k) for k in n.state.facts if k.op not in ("parses", "discr") and "u_from_bits" not in show(k))
        return True

    def task(prog, t):
        res, e, m = explore(prog, "root_nest", [], ReadMonitor, what)
        for n in e.live_nodes:
            if n.kind != "return":
                continue
            r = n.ret
            if r.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            if r.a[2] == 1:
                continue
            x, d, p = r.a[3][0].a[0]
            w = n.state.w
            res.exits += 1
            if x.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            txt = w.get("txt", ())
            if x.a[2] == 0:
                run.check_ok(e, res, T("Wrap"), None, None, n, x.a[3][0], d, p)
                if w.get("rdx") in ("err", "eof"):
                    continue
                if w.get("odd"):
                    res.add(("X23",), "%s accepts an element that holds more than text" % what, n)
                    continue
                whole = mkfmt(list(txt)) if txt else S("")
                if not value_ok(e, n, x.a[3][0], whole):
                    res.add(("X23", "D13"), "%s yields %s for the text %s" % (what, show(x.a[3][0])[:160], show(whole)[:100]), n)
                res.stats["values-compared"] += 1
            else:
                if w.get("odd") or w.get("rdx") in ("err", "eof") or w.rd in ("err", "eof") or len(txt) > 1:
                    continue
                full = txt[0] if txt else S("")
                f = n.state.facts
                if kind == "primitive" and (ty == "String" or f.get(mk("parses", ty, full)) is True):
                    res.add(("X23",), "%s rejects the text %s that its inner type parses" % (what, show(full)), n)
                if kind == "default" and f.get(mk("discr", mk("call", "u_parse", (full,)))) == frozenset([0]):
                    res.add(("X23",), "%s rejects the text %s that its type parses" % (what, show(full)), n)
        return res
    task.__name__ = "de"
    return task


# ---------------------------------------------------------------- impls of the primitive types themselves
def builtin_source():
    o = HEADER
    for ty in BUILTIN:
        o += """pub fn root_ser_%s(x: &%s, n: Option<String>, s: bool) -> Result<(), String> { let mut w = v::serializer(n, s); x.serialize(&mut w) }
pub fn root_sattr_%s(x: &%s, a: Vec<xml::attribute::OwnedAttribute>, n: xml::namespace::Namespace)
  -> Result<(Vec<xml::attribute::OwnedAttribute>, xml::namespace::Namespace), String> { x.serialize_attributes(a, n) }
""" % (ty, ty, ty, ty)
    return o


def builtin(ty):
    what = "serializing a %s" % ty

    def task(prog, t):
        res, e, m = explore(prog, "root_ser_" + ty, [X, N, SKIP], WriteMonitor, what)
        for n in e.live_nodes:
            if n.kind != "return":
                continue
            w, r = n.state.w, n.ret
            out = w.get("out", ())
            res.exits += 1
            if r.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            if (w.wr == "err") == (r.a[2] == 0):
                res.add(("C01",), "%s reports %s although %s write failed" % (what, "success" if r.a[2] == 0 else "failure", "a" if w.wr == "err" else "no"), n)
            if len(out) != 1 or out[0][0] != "chars" or shown(out[0][1]) is not X:
                res.add(("C03", "C08"), "%s writes %s instead of its text" % (what, "; ".join(evs(x) for x in out)[:200]), n)
            res.stats["writes-compared"] += 1
        A, NS = mk("sym", "a"), mk("sym", "ns")
        res2, e, m = explore(prog, "root_sattr_" + ty, [X, A, NS], WriteMonitor, "attributes of a " + ty)
        for n in e.live_nodes:
            if n.kind == "return":
                res2.exits += 1
                if n.ret is not e.ok(mk("tup", (A, NS))):
                    res2.add(("C03", "C07"), "serialize_attributes of %s returns %s" % (ty, show(n.ret)[:160]), n)
        return [res, res2]
    task.__name__ = "builtin_" + ty
    return task


def cases():
    return [("primitive", ty) for ty in INNER] + [("hex", ty) for ty in HEX] + [("default", "u32")]

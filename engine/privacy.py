"""X27: what code outside the crate can reach of the cursor's and the writer's private state.

The public interface is read from the compiler's own account of it (rustdoc's JSON); operations that are not among the
documented ones are interpreted abstractly against the cursor's ghost; and a set of client programs that try to reach the
private state must fail to compile while their twins, which use the documented operations, compile."""
import json, os, subprocess

import absint, build, compiles, cursor
from absint import mk, show, lin_of

DOCUMENTED = {"Deserializer": {"new", "new_from_reader", "peek", "inner_next", "next_event", "skip_element", "depth", "read_inner_value",
                               "expect_end_element"}}
# the one documented way to take the writer out
TAKES_OUT = {("Serializer", "into_inner")}
RAW = ("EventReader", "EventWriter", "Events")
MUT_ONLY = ("XmlEvent",)
MUT_TRAITS = ("DerefMut", "AsMut", "BorrowMut", "IndexMut")
STREAM_TRAITS = ("Read", "Write", "BufRead")


def rustdoc(ctx, name):
    out = os.path.join(ctx["out"], name + "-doc")
    cmd = [os.path.join(build.sysroot(), "bin", "rustdoc"), os.path.join(build.REPO, "yaserde", "src", "lib.rs"), "--crate-name", "yaserde", "--edition", "2018",
           "-Zunstable-options", "--output-format", "json", "-o", out, "--cap-lints=allow", "--cfg", 'feature="yaserde_derive"']
    for c in ("yaserde_derive", "xml", "log"):
        if c in ctx["ext"]:
            cmd += ["--extern", "%s=%s" % (c, ctx["ext"][c])]
    for d in ctx["dirs"]:
        cmd += ["-L", "dependency=" + d]
    r = subprocess.run(cmd, capture_output=True, text=True, env=build.env({}))
    p = os.path.join(out, "yaserde.json")
    if r.returncode != 0 or not os.path.exists(p):
        return None, r.stderr[-500:]
    d = json.load(open(p))
    os.unlink(p)
    try:
        os.rmdir(out)
    except OSError:
        pass
    return d, None


class Api:
    def __init__(self, doc):
        self.doc, self.index = doc, doc["index"]
        self.types = {}
        for i, x in self.index.items():
            if x["crate_id"] == 0 and x["name"] in ("Deserializer", "Serializer") and "struct" in x["inner"]:
                self.types[x["name"]] = x

    def item(self, i):
        return self.index.get(str(i))

    def impls(self, x):
        for i in x["inner"]["struct"]["impls"]:
            im = self.item(i)
            if im is None:
                continue
            d = im["inner"]["impl"]
            if d.get("is_synthetic") or d.get("blanket_impl"):
                continue
            yield d

    def where(self, x):
        s = x.get("span") or {}
        return "%s:%s" % (os.path.relpath(s.get("filename", "?"), build.REPO), (s.get("begin") or ["?"])[0])

    def reach(self, ty, params, mut=False, seen=()):
        """what mutable or owned access to private state a value of this type gives: a description or None"""
        if not isinstance(ty, dict):
            return None
        k = next(iter(ty))
        v = ty[k]
        if k == "borrowed_ref":
            return self.reach(v["type"], params, v["is_mutable"], seen) if v["is_mutable"] else None
        if k == "raw_pointer":
            return self.reach(v["type"], params, True, seen)
        if k == "generic":
            return "the stream %s" % v if v in params else None
        if k == "primitive":
            return "&mut %s" % v if mut and v == "usize" else None
        if k in ("tuple",):
            for t in v:
                r = self.reach(t, params, mut, seen)
                if r:
                    return r
            return None
        if k in ("slice",):
            return self.reach(v, params, mut, seen)
        if k == "array":
            return self.reach(v["type"], params, mut, seen)
        if k in ("impl_trait", "dyn_trait"):
            bs = v if k == "impl_trait" else [dict(trait_bound=dict(trait=t["trait"])) for t in v["traits"]]
            for b in bs:
                tr = b.get("trait_bound", {}).get("trait", {})
                if tr.get("path", "").split("::")[-1] in STREAM_TRAITS + MUT_TRAITS:
                    return "a value that is %s" % tr["path"]
            return None
        if k == "resolved_path":
            nm = v["path"].split("::")[-1]
            if nm in RAW:
                return "the parser or writer (%s)" % nm
            if nm in MUT_ONLY and mut:
                return "&mut %s" % nm
            x = self.item(v["id"])
            if x is not None and x["crate_id"] == 0 and nm in self.types:
                return None
            for a in ((v.get("args") or {}).get("angle_bracketed") or {}).get("args", ()):
                if "type" in a:
                    r = self.reach(a["type"], params, mut, seen)
                    if r:
                        return r
            if x is not None and x["crate_id"] == 0 and "struct" in x["inner"] and v["id"] not in seen:
                kind = x["inner"]["struct"]["kind"]
                fs = kind.get("plain", {}).get("fields", []) if isinstance(kind, dict) and "plain" in kind else (kind.get("tuple") or [] if isinstance(kind, dict) else [])
                for f in fs:
                    fx = self.item(f) if f is not None else None
                    if fx is not None:
                        r = self.reach(fx["inner"]["struct_field"], params, mut, seen + (v["id"],))
                        if r:
                            return r
            return None
        return None

    def callbacks(self, fn):
        """argument types handed to closures"""
        def bounds(bs):
            for b in bs:
                tr = b.get("trait_bound", {}).get("trait", {})
                a = (tr.get("args") or {}).get("parenthesized")
                if a:
                    yield from a["inputs"]
        g = fn["generics"]
        for p in g["params"]:
            yield from bounds(p["kind"].get("type", {}).get("bounds", ()))
        for w in g["where_predicates"]:
            yield from bounds(w.get("bound_predicate", {}).get("bounds", ()))
        for _, t in fn["sig"]["inputs"]:
            if "impl_trait" in t:
                yield from bounds(t["impl_trait"])


def mentions(ty, names):
    if isinstance(ty, dict):
        if "resolved_path" in ty and ty["resolved_path"]["path"].split("::")[-1] in names:
            return True
        return any(mentions(v, names) for v in ty.values())
    return isinstance(ty, list) and any(mentions(v, names) for v in ty)


def result(task, job):
    return dict(task=task, job=job, alarms=[], stats={}, fns=[], source=None)


def run(ctx, name):
    out = []

    def alarm(r, msg, where=""):
        r["alarms"].append(dict(props=["X27"], msg=msg, fn=where, trace=[where]))
    doc, err = rustdoc(ctx, name)
    if doc is None:
        return [dict(result("interface", "public interface"), error="rustdoc: " + str(err))]
    api = Api(doc)
    methods = []
    for tn, x in sorted(api.types.items()):
        r = result("fields", "fields of " + tn)
        kind = x["inner"]["struct"]["kind"]
        fs = kind["plain"]["fields"] if isinstance(kind, dict) and "plain" in kind else kind.get("tuple", []) if isinstance(kind, dict) else []
        for f in fs:
            fx = api.item(f) if f is not None else None
            if fx is not None:
                alarm(r, "the field %s of %s is public" % (fx["name"], tn), api.where(fx))
        out.append(r)
        params = [p["name"] for p in x["inner"]["struct"]["generics"]["params"] if "type" in p["kind"]]
        for d in api.impls(x):
            tr = d["trait"]
            if tr and tr["path"].split("::")[-1] in MUT_TRAITS + ("Deref",):
                r = result("impl", "impl %s for %s" % (tr["path"], tn))
                if tr["path"].split("::")[-1] != "Deref":
                    alarm(r, "%s gives out its contents mutably: impl %s" % (tn, tr["path"]))
                out.append(r)
            # the impl may rename the parameters
            ps = set(params) | {p["name"] for p in d["generics"]["params"] if "type" in p["kind"]}
            for i in d["items"]:
                m = api.item(i)
                if m is None or "function" not in m["inner"]:
                    continue
                fn = m["inner"]["function"]
                ins = fn["sig"]["inputs"]
                if not ins or ins[0][0] != "self" and not any(mentions(t, (tn,)) for _, t in ins):
                    continue
                r = result("method", "%s::%s" % (tn, m["name"]))
                got = api.reach(fn["sig"]["output"], ps) if fn["sig"]["output"] else None
                if got and not ((tn, m["name"]) in TAKES_OUT and fn["sig"]["output"].get("generic") in ps and ins[0][1].get("generic") == "Self"):
                    alarm(r, "%s::%s gives out %s" % (tn, m["name"], got), api.where(m))
                for t in api.callbacks(fn):
                    got = api.reach(t, ps)
                    if got:
                        alarm(r, "%s::%s hands %s to its callback" % (tn, m["name"], got), api.where(m))
                out.append(r)
                if tn == "Deserializer" and m["name"] not in DOCUMENTED[tn] and ins[0][0] == "self":
                    methods.append((m["name"], tr, [t for _, t in ins[1:]]))
    # free functions and functions of other types
    for i, m in sorted(api.index.items()):
        if m["crate_id"] != 0 or "function" not in m["inner"] or m["visibility"] != "public":
            continue
        fn = m["inner"]["function"]
        if any(n == "self" for n, _ in fn["sig"]["inputs"]) or not any(mentions(t, tuple(api.types)) for _, t in fn["sig"]["inputs"]):
            continue
        r = result("function", "function " + m["name"])
        ps = set()
        for _, t in fn["sig"]["inputs"]:
            if mentions(t, tuple(api.types)):
                ps |= {v for v in ("R", "W") if v in json.dumps(t)}
        got = api.reach(fn["sig"]["output"], ps) if fn["sig"]["output"] else None
        if got:
            alarm(r, "%s gives out %s" % (m["name"], got), api.where(m))
        out.append(r)
    out += probes(ctx, name, methods)
    return out + witnesses(ctx, name)


# ---------------------------------------------------------------- operations outside the documented set keep the cursor's account
def probes(ctx, name, methods):
    import batteries
    out = []
    for nm, tr, args in methods:
        anyargs = ", ".join("v::v_any()" for _ in args)
        call = "r.%s(%s)" % (nm, anyargs)
        src = cursor.SRC + """
type Op = (usize, usize, Ev);
fn op(r: &mut Deserializer<Src>) -> Op { v::v_begin(); let d0 = r.depth(); let _ = r.%s(%s); let d1 = r.depth(); let e = look(r); (d0, d1, e) }
pub fn root_op() -> Result<Op, ()> { let mut r = inside()?; open(&mut r)?; Ok(op(&mut r)) }
pub fn root_op_peeked() -> Result<Op, ()> { let mut r = inside()?; open(&mut r)?; v::v_pending(); if look(&mut r).is_err() { return Err(()) } Ok(op(&mut r)) }
""" % (nm, anyargs)
        sub = dict(ctx, jobs=[])
        job = batteries.Job("operation " + nm, None, (check_op("root_op", nm), check_op("root_op_peeked", nm)), src=batteries.HEAD + src)
        sub["jobs"] = [job]
        for r in batteries.run_job(sub, job):
            r["job"] = "Deserializer::" + nm
            if r.get("nocompile"):
                r = dict(result("operation", "Deserializer::" + nm), budget="its probe does not compile")
            out.append(r)
    return out


def check_op(root, nm):
    def task(prog, t):
        res, e = cursor.explore(prog, root, "seq")
        for a in res.alarms:
            a["props"] = ["D21"]        # not judged here
        for n, r in cursor.exits(e, res):
            xs = r.a[0]
            ok, got = cursor.res_of(xs[2])
            seq = n.state.w.get("seq", ())
            if not ok or n.state.w.rd in ("err", "eof") or n.state.w.star:
                continue
            if not seq or got is not seq[-1]:
                res.add(("X27",), "after %s the next event is %s instead of %s" % (nm, show(got)[:100], show(seq[-1])[:100] if seq else "?"), n)
                continue
            want = sum(cursor.DELTA.get(x.a[1], 0) for x in seq[:-1] if x.op == "adt")
            a, b = lin_of(xs[0]), lin_of(xs[1])
            if a is None or b is None:
                res.add(("X27",), "%s sets the depth to %s" % (nm, show(xs[1])[:80]), n)
            elif (b[0] - a[0], b[1:]) != (want, a[1:]):
                res.add(("X27",), "%s changes the depth although the tags it consumed amount to %d" % (nm, want), n)
        return res
    task.__name__ = root
    return task


# ---------------------------------------------------------------- client programs
USE = "use yaserde::de::Deserializer; use yaserde::ser::Serializer; use xml::reader::{EventReader, XmlEvent}; use xml::writer::EventWriter; use std::io::{Read, Write};\n"
TWIN = USE + """pub fn client<R: Read, W: Write>(mut d: Deserializer<R>, mut s: Serializer<W>) -> Result<W, String> {
  let _: usize = d.depth(); let _: &XmlEvent = d.peek()?; let _: XmlEvent = d.next_event()?; d.skip_element(|_: &XmlEvent| {})?;
  s.set_skip_start_end(true); s.set_start_event_name(None); let _ = s.write(xml::writer::XmlEvent::characters("x")); Ok(s.into_inner()) }
pub fn make<R: Read, W: Write>(r: EventReader<R>, w: EventWriter<W>) -> (Deserializer<R>, Serializer<W>) { (Deserializer::new(r), Serializer::new(w)) }
"""
CLIENTS = (
    ("set the depth", "pub fn c<R: Read>(d: &mut Deserializer<R>) { d.depth = 1; }"),
    ("set the depth through its getter", "pub fn c<R: Read>(d: &mut Deserializer<R>) { *d.depth() = 1; }"),
    ("clear the look-ahead", "pub fn c<R: Read>(d: &mut Deserializer<R>) { d.peeked = None; }"),
    ("edit the look-ahead", "pub fn c<R: Read>(d: &mut Deserializer<R>) { *d.peek().unwrap() = XmlEvent::EndDocument; }"),
    ("move out of the look-ahead", "pub fn c<R: Read>(d: &mut Deserializer<R>) -> XmlEvent { *d.peek().unwrap() }"),
    ("borrow the parser", "pub fn c<R: Read>(d: &mut Deserializer<R>) -> &mut EventReader<R> { &mut d.reader }"),
    ("read through the parser", "pub fn c<R: Read>(d: &mut Deserializer<R>) { let _ = d.reader.next(); }"),
    ("swap the parser", "pub fn c<R: Read>(d: &mut Deserializer<R>, r: EventReader<R>) { d.reader = r; }"),
    ("take the parser out", "pub fn c<R: Read>(d: Deserializer<R>) -> EventReader<R> { d.into_inner() }"),
    ("take the reader out", "pub fn c<R: Read>(d: Deserializer<R>) -> R { d.into_inner() }"),
    ("build a cursor from parts", "pub fn c<R: Read>(r: EventReader<R>) -> Deserializer<R> { Deserializer { depth: 3, reader: r, peeked: None } }"),
    ("take a cursor apart", "pub fn c<R: Read>(d: Deserializer<R>) -> usize { let Deserializer { depth, .. } = d; depth }"),
    ("match a cursor's fields", "pub fn c<R: Read>(d: &mut Deserializer<R>) { let Deserializer { ref mut reader, .. } = d; let _ = reader; }"),
    ("update syntax", "pub fn c<R: Read>(d: Deserializer<R>) -> Deserializer<R> { Deserializer { depth: 0, ..d } }"),
    ("dereference a cursor", "pub fn c<R: Read>(d: &mut Deserializer<R>) -> &mut EventReader<R> { &mut **d }"),
    ("borrow as the parser", "pub fn c<R: Read>(d: &mut Deserializer<R>) { let _: &mut EventReader<R> = d.as_mut(); }"),
    ("copy a cursor", "pub fn c<R: Read + Clone>(d: &Deserializer<R>) -> Deserializer<R> { Deserializer::clone(d) }"),
    ("keep a look-ahead over a read", "pub fn c<R: Read>(d: &mut Deserializer<R>) -> Result<(), String> { let e = d.peek()?; d.next_event()?; let _ = e; Ok(()) }".replace("let _ = e;", "drop(format!(\"{:?}\", e));")),
    ("edit events while skipping", "pub fn c<R: Read>(d: &mut Deserializer<R>) { let _ = d.skip_element(|e| { *e = XmlEvent::EndDocument; }); }"),
    ("borrow the writer", "pub fn c<W: Write>(s: &mut Serializer<W>) -> &mut EventWriter<W> { &mut s.writer }"),
    ("write past the serializer", "pub fn c<W: Write>(s: &mut Serializer<W>) { let _ = s.writer.inner_mut().write_all(b\"<\"); }"),
    ("swap the writer", "pub fn c<W: Write>(s: &mut Serializer<W>, w: EventWriter<W>) { s.writer = w; }"),
    ("use the serializer as a stream", "pub fn c<W: Write>(s: &mut Serializer<W>) { let _ = s.write_all(b\"<\"); }"),
    ("dereference a serializer", "pub fn c<W: Write>(s: &mut Serializer<W>) -> &mut EventWriter<W> { &mut **s }"),
    ("borrow as the writer", "pub fn c<W: Write>(s: &mut Serializer<W>) { let _: &mut EventWriter<W> = s.as_mut(); }"),
    ("build a serializer from parts", "pub fn c<W: Write>(w: EventWriter<W>) -> Serializer<W> { Serializer { writer: w, skip_start_end: true, start_event_name: None } }"),
    ("write after the writer was taken out", "pub fn c<W: Write>(s: Serializer<W>) -> W { let w = s.into_inner(); let _ = s.skip_start_end(); w }"),
    ("set the wrapper flag directly", "pub fn c<W: Write>(s: &mut Serializer<W>) { s.skip_start_end = true; }"),
)


def witnesses(ctx, name):
    twin = result("client", "a client of the documented operations")
    rc, bad, other = compiles.compile_chunk(ctx, name + "t", [("twin", TWIN)])
    out = [twin]
    if rc:
        twin["budget"] = "the documented operations do not compile: %s" % (list(bad.values()) or other)[:1]
        return out
    for i, (lab, text) in enumerate(CLIENTS):
        r = result("client", "client program: " + lab)
        rc, bad, other = compiles.compile_chunk(ctx, "%sw%d" % (name, i), [(lab, USE + text)])
        if rc == 0:
            r["alarms"].append(dict(props=["X27"], msg="a program outside the crate can %s: it compiles" % lab, fn="rustc", trace=[text]))
        out.append(r)
    return out

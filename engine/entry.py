"""C09: the serialization entry points of yaserde::ser, interpreted over an arbitrary value and configuration."""
import absint, models, run
from absint import mk, show, S, TRUE, FALSE
from models import Monitor

SRC = """
use yaserde::ser::Config;
pub fn root_to_string(x: &Inner) -> Result<String, String> { yaserde::ser::to_string(x) }
pub fn root_to_string_with_config(x: &Inner, c: &Config) -> Result<String, String> { yaserde::ser::to_string_with_config(x, c) }
pub fn root_with_writer(x: &Inner, c: &Config) -> Result<v::Sink, String> { yaserde::ser::serialize_with_writer(x, v::v_sink(), c) }
pub fn root_to_string_content(x: &Inner) -> Result<String, String> { yaserde::ser::to_string_content(x) }
pub fn root_with_writer_content(x: &Inner) -> Result<v::Sink, String> { yaserde::ser::serialize_with_writer_content(x, v::v_sink()) }
pub fn root_default_config() -> Config { Config::default() }
pub fn root_new_for_inner() -> yaserde::ser::Serializer<v::Sink> { yaserde::ser::Serializer::new_for_inner(v::v_sink()) }
pub fn root_new_from_writer(c: &Config) -> yaserde::ser::Serializer<v::Sink> { yaserde::ser::Serializer::new_from_writer(v::v_sink(), c) }
"""

X, C = mk("sym", "value"), mk("sym", "config")
CONFIG = ("perform_indent", "write_document_declaration", "indent_string")
# what the writer must be configured with besides the three settings of Config
FIXED = {"cdata_to_characters": FALSE, "perform_escaping": TRUE, "line_separator": S("\n"), "keep_element_names_stack": TRUE,
         "normalize_empty_elements": TRUE, "autopad_comments": TRUE, "pad_self_closing": TRUE}
DEFAULTS = {"perform_indent": FALSE, "write_document_declaration": TRUE, "indent_string": S("  ")}


class EntryMonitor(Monitor):
    def nested_into(self, eng, st, wr, k):
        st.w = st.w.put(emits=st.w.get("emits", ()) + ((wr, k),))


def writer_of(t):
    for x in absint.subterms(t):
        if x.op in ("writer", "swriter"):
            return x
    return None


def config_field(prog, m, name):
    """the term of a field of the configuration argument"""
    for t in prog.types:
        if t.get("path") == "yaserde::ser::Config" and t.get("vs"):
            names = [f["n"] for f in t["vs"][0]["fs"]]
            return mk("fld", C, None, names.index(name)) if name in names else None
    return None


def check_config(prog, m, e, n, cfg, conf, res, what):
    """the writer configuration cfg against what is due; conf: 'given' | 'default' | 'content'"""
    d = m.config_fields(cfg) if cfg.op == "adt" else None
    if d is None:
        res.stats["undecided-config"] += 1
        res.budget = res.budget or "writer configuration not known field by field: " + show(cfg)[:120]
        return
    for k, v in FIXED.items():
        if k in d and d[k] is not v:
            props = ("C08", "C09") if k in ("perform_escaping", "cdata_to_characters") else ("C09",)
            res.add(props, "%s configures the writer with %s = %s" % (what, k, show(d[k])), n)
    due = dict(DEFAULTS)
    if conf == "content":
        due["write_document_declaration"] = FALSE
    st = n.state
    for k in CONFIG:
        got = d.get(k)
        if got is None:
            continue
        if conf != "given":
            if got is not due[k]:
                res.add(("C09",), "%s configures the writer with %s = %s instead of %s" % (what, k, show(got), show(due[k])), n)
            continue
        src = config_field(prog, m, k)
        if src is None:
            res.stats["undecided-config"] += 1
            continue
        if k == "indent_string":
            some = st.facts.get(mk("discr", src))
            want = mk("fld", src, 1, 0) if some == frozenset([1]) else due[k] if some == frozenset([0]) else None
            if want is None:
                res.add(("C09",), "%s does not look at the configured indent string" % what, n)
                continue
        else:
            want = src
            b = st.facts.get(src)
            if got in (TRUE, FALSE) and b is not None and got is absint.B(b):
                want = got
        if got is not want:
            res.add(("C09",), "%s configures the writer with %s = %s instead of the configured %s" % (what, k, show(got), show(want)), n)
    res.stats["configurations-compared"] += 1


SAME_BYTES = {"get_ref", "into_inner", "as_slice", "to_vec", "clone", "as_bytes", "as_ref", "into_string", "to_string", "to_owned", "into", "from",
              "expect", "unwrap", "as_str", "get_mut", "into_bytes", "deref", "borrow", "into_owned", "into_boxed_str", "as_mut"}


def written_text(got, wt, k):
    """got is the text of exactly what was written: the sink with the one nested value, decoded"""
    t = got
    while True:
        if t.op == "utf8":
            t = t.a[-1]
        elif t.op == "call" and t.a[1] and (t.a[0].split("::")[-1] in SAME_BYTES or "from_utf8" in t.a[0]):
            t = t.a[1][0]
        elif t.op == "fmt" and len(t.a[0]) == 1:
            t = t.a[0][0]
        elif t.op == "sunk":
            return t.a[1] is k and t.a[0] is (wt.a[0] if wt.op == "swriter" else mk("sink"))
        elif t.op == "list":
            return len(t.a[0]) == 1 and t.a[0][0] is mk("out", k)
        else:
            return False


def explore(prog, root, args):
    res = run.Result("entry " + root)
    m = models.Models(prog)
    m.descend_entries = True
    m.mon = EntryMonitor(m)
    e = run.explore(prog, m, root, list(args), res)
    for a in m.alarms:
        res.add(a.get("props") or ("C09",), a["msg"], a["node"], a["labels"], a["fn"])
    return res, e, m


def entry(root, args, conf, string, content):
    what = root[5:]

    def task(prog, t):
        res, e, m = explore(prog, root, args)
        for n in e.live_nodes:
            if n.kind == "panic":
                w = show(n.info[0]) if isinstance(n.info[0], absint.Term) else str(n.info[0])
                res.add(("C01", "C09"), "%s can panic: %s" % (what, w), n)
                continue
            if n.kind != "return":
                continue
            r, w = n.ret, n.state.w
            if r.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            res.exits += 1
            em = w.get("emits", ())
            if len(em) != 1:
                res.add(("C09",), "%s serializes its value %d times" % (what, len(em)), n)
                continue
            wr, (ty, x, name, skip) = em[0]
            wt = writer_of(wr)
            if wt is None:
                res.stats["undecided-exit"] += 1
                continue
            if x is not X:
                res.add(("C09",), "%s serializes %s instead of its argument" % (what, show(x)[:80]), n)
            if not (name.op == "adt" and name.a[2] == 0):
                res.add(("C09", "C04"), "%s hands the value the name %s although a root value is written under its own" % (what, show(name)[:80]), n)
            if skip is not absint.B(content):
                res.add(("C09", "C02"), "%s asks for %s" % (what, "the root tags too" if content else "content only"), n)
            check_config(prog, m, e, n, wt.a[-1], conf, res, what)
            if r.a[2] == 1:
                if w.wr != "err" and not w.get("efail"):
                    res.add(("C09",), "%s fails although the value was serialized" % what, n)
                continue
            if w.wr == "err" or w.get("efail"):
                res.add(("C01", "C09"), "%s reports success although serializing the value failed" % what, n)
                continue
            got = r.a[3][0]
            if string:
                if not written_text(got, wt, mk("nser", *em[0][1])):
                    res.add(("C09",), "%s returns %s instead of the text written" % (what, show(got)[:200]), n)
            elif got is not mk("sink"):
                res.add(("C09",), "%s returns %s instead of the writer it was given" % (what, show(got)[:200]), n)
            res.stats["entries-compared"] += 1
        return res
    task.__name__ = root
    return task


def defaults(prog, t):
    """Config::default(): no indentation, a declaration, the writer's own indent string"""
    res, e, m = explore(prog, "root_default_config", [])
    for n in e.live_nodes:
        if n.kind != "return":
            continue
        res.exits += 1
        d = m.config_fields(n.ret)
        if d is None:
            res.stats["undecided-exit"] += 1
            continue
        for k, v in (("perform_indent", FALSE), ("write_document_declaration", TRUE), ("indent_string", e.NONE)):
            if k in d and d[k] is not v:
                res.add(("C09",), "the default configuration has %s = %s" % (k, show(d[k])), n)
    return res


def constructor(root, args, conf):
    def task(prog, t):
        res, e, m = explore(prog, root, args)
        for n in e.live_nodes:
            if n.kind != "return":
                continue
            res.exits += 1
            wt = writer_of(n.ret)
            if wt is None:
                res.stats["undecided-exit"] += 1
                continue
            check_config(prog, m, e, n, wt.a[-1], conf, res, root[5:])
            if n.ret.op == "adt":
                d = m.config_fields(n.ret) or {}
                for k, v in (("skip_start_end", FALSE), ("start_event_name", e.NONE)):
                    if k in d and d[k] is not v:
                        res.add(("C09",), "%s starts with %s = %s" % (root[5:], k, show(d[k])), n)
        return res
    task.__name__ = root
    return task


TASKS = [entry("root_to_string", [X], "default", True, False), entry("root_to_string_with_config", [X, C], "given", True, False),
         entry("root_with_writer", [X, C], "given", False, False), entry("root_to_string_content", [X], "content", True, True),
         entry("root_with_writer_content", [X], "content", False, True), defaults, constructor("root_new_for_inner", [], "content"),
         constructor("root_new_from_writer", [C], "given")]

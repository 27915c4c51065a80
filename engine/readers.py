"""X28: the deserialization entry points of yaserde::de, interpreted over an arbitrary source and type."""
import absint, models, run
from absint import mk, show, I, B, FALSE
from models import Monitor

SRC = """
use yaserde::de::Deserializer;
pub fn root_from_str(s: &str) -> Result<Inner, String> { yaserde::de::from_str(s) }
pub fn root_from_reader() -> Result<Inner, String> { yaserde::de::from_reader::<v::Src, Inner>(v::v_src()) }
pub fn root_from_bytes(s: &[u8]) -> Result<Inner, String> { yaserde::de::from_reader::<&[u8], Inner>(s) }
pub fn root_new_from_reader() -> Deserializer<v::Src> { Deserializer::new_from_reader(v::v_src()) }
pub fn root_new(r: xml::reader::EventReader<v::Src>) -> Deserializer<v::Src> { Deserializer::new(r) }
"""

TEXT = mk("sym", "text")
FLAGS = dict(run.READER_CFG, ignore_end_of_stream=False, replace_unknown_entity_references=False, ignore_root_level_whitespace=True)
LIMITS = {"override_encoding": None, "ignore_invalid_encoding_declarations": False, "allow_multiple_root_elements": True,
          "max_entity_expansion_length": 1000000, "max_entity_expansion_depth": 10, "max_name_length": 1 << 18, "max_attributes": 1 << 16,
          "max_attribute_length": 1 << 30, "max_data_length": 1 << 30}
WEAKENS = {"ignore_end_of_stream": ("X28", "D12"), "ignore_invalid_encoding_declarations": ("X28", "D12")}


class ReaderMonitor(Monitor):
    def nested_from(self, eng, st, ty, cur):
        """a value is about to be read from the cursor"""
        st.w = st.w.put(reads=st.w.get("reads", ()) + ((ty, cur, st.w.get("sreads", 0)),))


def settings(m, cfg):
    d = m.config_fields(cfg)
    if d is None:
        return None
    if "c" in d:
        d.update(m.config_fields(d.pop("c")) or {})
    return d


def check_cursor(m, cur, src, n, res, what):
    """the cursor a value is read from: at the start of exactly src, nothing looked ahead, the declared parser settings"""
    d = m.config_fields(cur) if cur.op == "adt" else None
    rd = next((x for x in absint.subterms(cur) if x.op in ("reader", "sreader")), None)
    if d is None or rd is None:
        res.stats["undecided-exit"] += 1
        res.budget = res.budget or "cursor not known field by field: " + show(cur)[:120]
        return
    got = mk("src") if rd.op == "reader" else rd.a[0]
    if got is not src:
        res.add(("X28", "D14"), "%s parses %s instead of the source it was given" % (what, show(got)[:120]), n)
    for x in d.values():
        if x is rd:
            continue
        if x.op == "adt" and x.a[1] == "Some":
            res.add(("X28", "D21"), "%s starts with %s looked ahead" % (what, show(x)[:80]), n)
        elif x.op in ("int", "lin") and x is not I(0):
            res.add(("X28", "D21"), "%s starts with %s" % (what, show(x)), n)
    cfg = rd.a[0] if rd.op == "reader" else rd.a[1]
    s = settings(m, cfg)
    if s is None:
        if cfg.op == "str":
            res.add(("X28", "D16"), "%s leaves the parser at its own settings" % what, n)
        else:
            res.stats["undecided-config"] += 1
            res.budget = res.budget or "parser settings not known field by field: " + show(cfg)[:120]
        return
    for k, v in list(FLAGS.items()) + list(LIMITS.items()):
        if k not in s:
            continue
        x = s[k]
        same = (x.op == "adt" and x.a[1] == "None") if v is None else x is (B(v) if isinstance(v, bool) else I(v))
        if not same:
            res.add(WEAKENS.get(k, ("X28",)), "%s configures the parser with %s = %s instead of %s" % (what, k, show(x), v), n)
    res.stats["reader-configs"] += 1


def explore(prog, root, args):
    res = run.Result("entry " + root)
    m = models.Models(prog)
    m.descend_entries = True
    m.mon = ReaderMonitor(m)
    e = run.explore(prog, m, root, list(args), res)
    for a in m.alarms:
        res.add(a.get("props") or ("X28",), a["msg"], a["node"], a["labels"], a["fn"])
    return res, e, m


def entry(root, args, src):
    what = root[5:]

    def task(prog, t):
        res, e, m = explore(prog, root, args)
        for n in e.live_nodes:
            if n.kind == "panic":
                w = show(n.info[0]) if isinstance(n.info[0], absint.Term) else str(n.info[0])
                res.add(("D10", "X28"), "%s can panic: %s" % (what, w), n)
            if n.kind != "return":
                continue
            r, rs = n.ret, n.state.w.get("reads", ())
            if r.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            res.exits += 1
            if len(rs) != 1:
                res.add(("X28",), "%s reads its value %d times%s" % (what, len(rs), " yet returns one" if r.a[2] == 0 and not rs else ""), n)
                continue
            ty, cur, before = rs[0]
            if before:
                res.add(("X28", "D21"), "%s consumes %d events of the source before the value is read" % (what, before), n)
            check_cursor(m, cur, src, n, res, what)
            k = mk("fn", "read", ty, I(0))
            if r.a[2] == 0 and r.a[3][0] is not mk("val", k):
                res.add(("X28",), "%s returns %s instead of what was read" % (what, show(r.a[3][0])[:120]), n)
            if r.a[2] == 1 and r.a[3][0] is not mk("errof", k):
                res.add(("X28",), "%s fails with %s although %s" % (
                    what, show(r.a[3][0])[:120], "the value was read" if n.state.w.get("readok") else "reading failed with its own error"), n)
            res.stats["entries-compared"] += 1
        return res
    task.__name__ = root
    return task


def constructor(root, args, src):
    def task(prog, t):
        res, e, m = explore(prog, root, args)
        for n in e.live_nodes:
            if n.kind == "return":
                res.exits += 1
                check_cursor(m, n.ret, src, n, res, root[5:])
        return res
    task.__name__ = root
    return task


def given(prog, t):
    """Deserializer::new keeps the parser it is given"""
    rd = mk("reader", mk("str", "given"))
    res, e, m = explore(prog, "root_new", [rd])
    for n in e.live_nodes:
        if n.kind != "return":
            continue
        res.exits += 1
        d = m.config_fields(n.ret)
        if d is None:
            res.stats["undecided-exit"] += 1
        elif rd not in d.values():
            res.add(("X28", "D21"), "Deserializer::new does not read from the parser it is given: %s" % show(n.ret)[:120], n)
        elif any(x.op == "adt" and x.a[1] == "Some" or x.op == "int" and x is not I(0) for x in d.values()):
            res.add(("X28", "D21"), "Deserializer::new starts as %s" % show(n.ret)[:120], n)
    return res


TASKS = [entry("root_from_str", [TEXT], TEXT), entry("root_from_reader", [], mk("src")), entry("root_from_bytes", [TEXT], TEXT),
         constructor("root_new_from_reader", [], mk("src")), given]

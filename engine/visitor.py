"""X26: the default methods of yaserde::Visitor."""
import re
import absint, models, run
from absint import mk, show
from models import Monitor

KINDS = ("bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64", "str")

SRC = """#[allow(unused_imports)] use yaserde::*;
pub struct Vis;
impl<'de> Visitor<'de> for Vis { type Value = v::Mark; }
""" + "".join("pub fn root_%s(s: &str) -> Result<v::Mark, String> { Vis.visit_%s(s) }\n" % (k, k) for k in KINDS) + """
// a visitor that implements one kind only still rejects the others
pub fn u_take(s: &str) -> Result<v::Mark, String> { loop {} }
pub struct One;
impl<'de> Visitor<'de> for One { type Value = v::Mark; fn visit_str(self, s: &str) -> Result<v::Mark, String> { u_take(s) } }
""" + "".join("pub fn root_one_%s(s: &str) -> Result<v::Mark, String> { One.visit_%s(s) }\n" % (k, k) for k in KINDS if k != "str")


def literal(t):
    """the constant text of a message"""
    if t.op == "str":
        return t.a[0]
    if t.op == "fmt":
        return "\0".join(literal(x) for x in t.a[0])
    return ""


def check(kind, root):
    what = "visit_%s" % kind

    def task(prog, t):
        res = run.Result(what)
        m = models.Models(prog)
        m.mon = Monitor(m)
        e = run.explore(prog, m, root, [mk("sym", "text")], res)
        for n in e.live_nodes:
            if n.kind == "panic":
                res.add(("X26", "D10"), "the default %s can panic" % what, n)
            if n.kind != "return":
                continue
            res.exits += 1
            r = n.ret
            if r.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            if r.a[2] == 0:
                res.add(("X26",), "the default %s accepts its text: %s" % (what, show(r)[:100]), n)
                continue
            msg = r.a[3][0]
            if msg.op not in ("str", "fmt"):
                res.stats["undecided-exit"] += 1
                continue
            words = set(re.findall(r"\w+", literal(msg))) & set(KINDS)
            if words != {kind}:
                res.add(("X26",), "the error of the default %s names %s: %s" % (what, ", ".join(sorted(words)) or "no kind", show(msg)[:100]), n)
            res.stats["messages-compared"] += 1
        return res
    task.__name__ = root
    return task


TASKS = [check(k, "root_" + k) for k in KINDS] + [check(k, "root_one_" + k) for k in KINDS if k != "str"]

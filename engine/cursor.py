"""D21: the cursor operations of yaserde::de::Deserializer against a ghost event sequence.

The probe drives the public operations of the cursor from every kind of surroundings (inside an element at unknown depth, at
the start of a document, with and without look-ahead).  The ghost records the events the parser delivered that are not
filtered; every operation must return exactly the next of them, look-ahead must not advance, and the depth must follow."""
import absint, models, run
from absint import mk, show, lin_of
from models import Monitor

FILTERED = ("StartDocument", "ProcessingInstruction", "Comment")

SRC = """
use yaserde::de::Deserializer;
use xml::reader::{EventReader, ParserConfig, XmlEvent};
use v::Src;
type Ev = Result<XmlEvent, String>;

// a parser that reports every kind of event separately
fn cursor() -> Deserializer<Src> {
  Deserializer::new(EventReader::new_with_config(v::v_src(),
    ParserConfig::new().ignore_comments(false).whitespace_to_characters(false).cdata_to_characters(false).coalesce_characters(false)))
}
fn open(r: &mut Deserializer<Src>) -> Result<xml::name::OwnedName, ()> {
  match r.next_event() { Ok(XmlEvent::StartElement { name, .. }) => Ok(name), _ => Err(()) }
}
// inside an element, at an unknown depth
fn inside() -> Result<Deserializer<Src>, ()> {
  let mut r = cursor();
  let m = v::v_mark(&r);
  open(&mut r)?;
  v::v_generalize(&mut r, &m);
  open(&mut r)?;
  Ok(r)
}
fn look(r: &mut Deserializer<Src>) -> Ev { match r.peek() { Ok(e) => Ok(e.clone()), Err(e) => Err(e) } }
type Steps = (usize, Ev, usize, Ev, usize, Ev, usize, Ev, usize);
fn steps(r: &mut Deserializer<Src>) -> Steps {
  v::v_begin();
  let d0 = r.depth();
  let a = look(r); let d1 = r.depth();
  let b = look(r); let d2 = r.depth();
  let c = r.next_event(); let d3 = r.depth();
  let e = r.next_event(); let d4 = r.depth();
  (d0, a, d1, b, d2, c, d3, e, d4)
}
pub fn root_steps_inside() -> Result<Steps, ()> { let mut r = inside()?; open(&mut r)?; Ok(steps(&mut r)) }
pub fn root_steps_document() -> Result<Steps, ()> { let mut r = cursor(); Ok(steps(&mut r)) }

type Steps2 = (usize, Ev, usize, Ev, usize, Ev, usize);
fn steps2(r: &mut Deserializer<Src>) -> Steps2 {
  v::v_begin();
  let d0 = r.depth();
  let a = r.next_event(); let d1 = r.depth();
  let b = look(r); let d2 = r.depth();
  let c = r.next_event(); let d3 = r.depth();
  (d0, a, d1, b, d2, c, d3)
}
pub fn root_steps2_inside() -> Result<Steps2, ()> { let mut r = inside()?; open(&mut r)?; Ok(steps2(&mut r)) }
pub fn root_steps2_document() -> Result<Steps2, ()> { let mut r = cursor(); Ok(steps2(&mut r)) }

// next_event before any look-ahead, and the depth of a fresh cursor
pub fn root_fresh() -> usize { cursor().depth() }

type Skip = (Result<(), String>, usize, usize);
fn skip(r: &mut Deserializer<Src>) -> Skip {
  v::v_begin();
  let d0 = r.depth();
  let x = r.skip_element(|e| v::v_saw(e));
  let d1 = r.depth();
  (x, d0, d1)
}
pub fn root_skip() -> Result<Skip, ()> { let mut r = inside()?; open(&mut r)?; Ok(skip(&mut r)) }
pub fn root_skip_peeked() -> Result<Skip, ()> {
  let mut r = inside()?; open(&mut r)?;
  v::v_pending();
  if look(&mut r).is_err() { return Err(()) }
  Ok(skip(&mut r))
}

type InnerR = (Result<v::Tok, String>, usize, usize);
fn inner(r: &mut Deserializer<Src>) -> InnerR {
  v::v_begin();
  let d0 = r.depth();
  let x = r.read_inner_value::<v::Tok, _>(|r| { let t = v::v_subtree::<v::Tok, Src>(r); v::v_result::<v::Tok>(t) });
  let d1 = r.depth();
  (x, d0, d1)
}
fn inner_peeking(r: &mut Deserializer<Src>) -> InnerR {
  v::v_begin();
  let d0 = r.depth();
  let x = r.read_inner_value::<v::Tok, _>(|r| { let t = v::v_subtree::<v::Tok, Src>(r); r.peek()?; v::v_result::<v::Tok>(t) });
  let d1 = r.depth();
  (x, d0, d1)
}
pub fn root_inner() -> Result<InnerR, ()> { let mut r = inside()?; Ok(inner(&mut r)) }
pub fn root_inner_peeked() -> Result<InnerR, ()> { let mut r = inside()?; v::v_pending(); if look(&mut r).is_err() { return Err(()) } Ok(inner(&mut r)) }
pub fn root_inner_peeking() -> Result<InnerR, ()> { let mut r = inside()?; Ok(inner_peeking(&mut r)) }
// a closure that reads nothing: only an empty element is complete
pub fn root_inner_idle() -> Result<InnerR, ()> {
  let mut r = inside()?;
  v::v_begin();
  let d0 = r.depth();
  let x = r.read_inner_value::<v::Tok, _>(|_| Ok(v::v_any::<v::Tok>()));
  let d1 = r.depth();
  Ok((x, d0, d1))
}

type Expect = (Result<(), String>, usize, usize);
pub fn root_expect(other: xml::name::OwnedName) -> Result<Expect, ()> {
  let mut r = inside()?; open(&mut r)?;
  v::v_begin();
  let d0 = r.depth();
  let x = r.expect_end_element(&other);
  let d1 = r.depth();
  Ok((x, d0, d1))
}
pub fn root_expect_own() -> Result<Expect, ()> {
  let mut r = inside()?; let n = open(&mut r)?;
  v::v_begin();
  let d0 = r.depth();
  let x = r.expect_end_element(&n);
  let d1 = r.depth();
  Ok((x, d0, d1))
}
"""


class CursorMonitor(Monitor):
    """ghost: the delivered events not yet accounted for"""

    def delivered(self, eng, st, ev):
        w = st.w
        if ev.op == "adt" and ev.a[1] in FILTERED:
            return
        if w.get("track") == "pend":
            if w.get("pend") is not None:
                self.m.alarm(eng, st, "lost", "an event read while skipping is not handed to the callback: %s" % show(w.get("pend"))[:100], props=("D21", "D17"))
            st.w = w.put(pend=ev)
        elif w.get("track") == "seq":
            st.w = w.put(seq=w.get("seq", ()) + (ev,))

    def nested(self, eng, st, E):
        st.w = st.w.put(nest=True)

    def intrinsic(self, eng, st, nm, args):
        w = st.w
        if nm == "v_begin":
            if w.get("track") is None:
                st.w = w.put(track=self.track, seq=() if self.track == "seq" else None, base0=w.stack)
        elif nm == "v_pending":
            st.w = w.put(track=self.track, base0=w.stack, seq=() if self.track == "seq" else None)
        elif nm == "v_saw":
            ev = self.m.val(eng, st, args[0])
            if w.get("pend") is not ev:
                self.m.alarm(eng, st, "lost", "the callback is handed %s where the event read is %s" % (
                    show(ev)[:100], show(w.get("pend"))[:100] if w.get("pend") is not None else "none"), props=("D21", "D17"))
            st.w = w.put(pend=None)


def res_of(x):
    """(is_ok, payload) of a Result term"""
    return (x.a[2] == 0, x.a[3][0]) if x.op == "adt" else (None, x)


def explore(prog, root, track, args=()):
    res = run.Result("cursor " + root)
    m = models.Models(prog)
    mon = CursorMonitor(m)
    mon.track = track
    m.mon = mon
    e = run.explore(prog, m, root, list(args), res, step_limit=600000)
    for n in e.live_nodes:
        if n.kind == "panic":
            what = show(n.info[0]) if isinstance(n.info[0], absint.Term) else str(n.info[0])
            res.add(("D21", "D10"), "a cursor operation can panic: %s in %s" % (what, n.info[1]), n)
    cyc, byid = run.nonterminating(e)
    for c in cyc:
        fns = sorted({byid[i].state.frames[-1].fn.name for i in c if byid[i].state is not None})
        res.add(("D11", "D21"), "a cursor operation can repeat without consuming input in %s" % ", ".join(fns), byid[c[0]])
    for a in m.alarms:
        res.add(a.get("props") or ("D21",), a["msg"], a["node"], a["labels"], a["fn"])
    return res, e


def exits(e, res, wrapped=True):
    for n in e.live_nodes:
        if n.kind != "return":
            continue
        r = n.ret
        if wrapped:
            if r.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            if r.a[2] == 1:
                continue            # the surroundings could not be set up
            r = r.a[3][0]
        res.exits += 1
        yield n, r


DELTA = {"StartElement": 1, "EndElement": -1}


def check_steps(root, plan):
    """plan: list of "peek" | "next"; the probe returns (d0, r1, d1, r2, d2, ...)"""
    def task(prog, t):
        res, e = explore(prog, root, "seq")
        for n, r in exits(e, res):
            if r.op != "tup":
                res.stats["undecided-exit"] += 1
                continue
            xs = r.a[0]
            seq = n.state.w.get("seq", ())
            pos, failed = 0, False
            d = lin_of(xs[0])
            for i, op in enumerate(plan):
                ok, got = res_of(xs[1 + 2 * i])
                nd = lin_of(xs[2 + 2 * i])
                what = "%s (operation %d of %s)" % ("looking ahead" if op == "peek" else "consuming", i + 1, "/".join(plan))
                if ok is None or nd is None:
                    res.stats["undecided-exit"] += 1
                    break
                if pos >= len(seq):
                    if ok:
                        res.add(("D21", "D12"), "%s returns %s although the parser delivered nothing more%s" % (
                            what, show(got)[:100], " and reported an error" if n.state.w.rd == "err" else ""), n)
                        break
                    want = 0
                else:
                    ev = seq[pos]
                    if not ok:
                        res.add(("D21",), "%s fails although the parser delivered %s" % (what, show(ev)[:100]), n)
                        break
                    if got is not ev:
                        res.add(("D21",), "%s returns %s where the next event is %s" % (what, show(got)[:100], show(ev)[:100]), n)
                        break
                    want = 0
                    if op == "next":
                        pos += 1
                        want = DELTA.get(ev.a[1], 0) if ev.op == "adt" else 0
                if (nd[0] - d[0], nd[1:]) != (want, d[1:]):
                    res.add(("D21", "D22"), "%s changes the depth by %d instead of %d" % (what, nd[0] - d[0], want), n)
                    break
                d = nd
            else:
                if pos < len(seq) - (plan[-1] == "peek"):
                    res.add(("D21",), "more events are read than consumed: %s is lost" % show(seq[-1])[:100], n)
                res.stats["sequences-compared"] += 1
        return res
    task.__name__ = root
    return task


def check_fresh(prog, t):
    res, e = explore(prog, "root_fresh", "seq")
    for n, r in exits(e, res, False):
        if r is not absint.I(0):
            res.add(("D21",), "a new cursor reports depth %s" % show(r), n)
    return res


def depth_diff(xs):
    a, b = lin_of(xs[1]), lin_of(xs[2])
    if a is None or b is None or a[1:] != b[1:]:
        return None
    return b[0] - a[0]


def check_skip(root):
    def task(prog, t):
        res, e = explore(prog, root, "pend")
        for n, r in exits(e, res):
            if r.op != "tup":
                res.stats["undecided-exit"] += 1
                continue
            xs = r.a[0]
            ok, _ = res_of(xs[0])
            w = n.state.w
            if ok is None:
                res.stats["undecided-exit"] += 1
            elif not ok:
                if w.rd != "err":
                    res.add(("D21", "D17"), "skipping an element fails although the parser reported no error", n)
            else:
                base = w.get("base0")
                if w.rd == "err":
                    res.add(("D21", "D12"), "skipping an element succeeds although the parser reported an error", n)
                elif w.star or w.stack != base[:-1]:
                    res.add(("D21", "D17"), "skipping an element does not end right after its end tag", n)
                elif depth_diff(xs) != -1:
                    res.add(("D21",), "skipping an element changes the depth by %s instead of -1" % depth_diff(xs), n)
                elif w.get("pend") is not None:
                    res.add(("D21", "D17"), "skipping an element hides %s from the callback" % show(w.get("pend"))[:100], n)
                res.stats["skips-compared"] += 1
        return res
    task.__name__ = root
    return task


def check_inner(root, idle=False):
    def task(prog, t):
        res, e = explore(prog, root, "seq")
        for n, r in exits(e, res):
            if r.op != "tup":
                res.stats["undecided-exit"] += 1
                continue
            xs = r.a[0]
            ok, got = res_of(xs[0])
            w = n.state.w
            seq, base = w.get("seq", ()), w.get("base0")
            if ok is None:
                res.stats["undecided-exit"] += 1
                continue
            res.stats["inner-reads-compared"] += 1
            failed = isinstance(got, absint.Term) and run.mentions(got, ("errof",))
            if not ok:
                # legitimate: parser error, the element's own failure, no start tag first, or unfinished content
                if w.rd in ("err", "eof") or failed:
                    continue
                if idle and len(seq) == 2 and seq[0].a[1] == "StartElement" and seq[1].a[1] == "EndElement":
                    res.add(("D21",), "reading an empty element fails: %s" % show(got)[:120], n)
                elif not idle and w.get("nest"):
                    res.add(("D21",), "reading an element whose content was read fails: %s" % show(got)[:120], n)
                continue
            if w.rd == "err":
                res.add(("D21", "D12"), "reading an element succeeds although the parser reported an error", n)
            elif w.star or w.stack != base:
                res.add(("D21", "D22"), "reading an element does not end right after its end tag", n)
            elif depth_diff(xs) != 0:
                res.add(("D21", "D22"), "reading an element changes the depth by %s" % depth_diff(xs), n)
            elif not idle and (not isinstance(got, absint.Term) or got.op != "deser"):
                res.add(("D21",), "reading an element returns %s instead of what its reader returned" % show(got)[:120], n)
        return res
    task.__name__ = root
    return task


def check_expect(root, own):
    O = mk("sym", "other")

    def task(prog, t):
        res, e = explore(prog, root, "seq", [] if own else [mk("sym", "other")])
        for n, r in exits(e, res):
            if r.op != "tup":
                res.stats["undecided-exit"] += 1
                continue
            xs = r.a[0]
            ok, got = res_of(xs[0])
            w = n.state.w
            seq = w.get("seq", ())
            if ok is None:
                res.stats["undecided-exit"] += 1
                continue
            res.stats["end-tags-compared"] += 1
            end = len(seq) == 1 and seq[0].op == "adt" and seq[0].a[1] == "EndElement"
            if ok:
                if not end or w.rd == "err":
                    res.add(("D21",), "the end tag is taken as read although %s" % (
                        "the parser reported an error" if w.rd == "err" else "the next event is %s" % (show(seq[0])[:80] if seq else "none")), n)
                elif not own and not any(v is True and k.op == "eq" and "other" in show(k) for k, v in n.state.facts.items()):
                    res.add(("D21",), "an end tag of another name is taken for the expected one", n)
            elif own and end:
                res.add(("D21",), "the element's own end tag is rejected", n)
            if end and depth_diff(xs) != -1:
                res.add(("D21",), "an end tag changes the depth by %s" % depth_diff(xs), n)
            if len(seq) > 1:
                res.add(("D21",), "expecting an end tag reads more than one event", n)
        return res
    task.__name__ = root
    return task


P1, P2 = ["peek", "peek", "next", "next"], ["next", "peek", "next"]
TASKS = [check_steps("root_steps_inside", P1), check_steps("root_steps_document", P1), check_steps("root_steps2_inside", P2),
         check_steps("root_steps2_document", P2), check_fresh, check_skip("root_skip"), check_skip("root_skip_peeked"),
         check_inner("root_inner"), check_inner("root_inner_peeked"), check_inner("root_inner_peeking"), check_inner("root_inner_idle", True),
         check_expect("root_expect", False), check_expect("root_expect_own", True)]

"""Flattened fields (X25): what is forwarded to them, against a ghost queue of the events they must receive.

Every event the parser delivers from the element's own content is appended to the queue unless it belongs to a child
element claimed by another field; every event written to the secondary writer must be the head of the queue; when a
value is returned the queue must be empty and the flattened field must be what parsing exactly those events gives."""
from absint import mk, S, show, subterms
import absint, demon, models, run
from models import mklist, items_of, name_of, EMPTY

CAP = 4
OWN = mk("ev", "own")


class FlatMonitor(demon.DeMonitor):
    def __init__(self, m, t):
        super().__init__(m, demon.Focus())
        self.t = t
        self.claims = {}
        for f in t.fields:
            if f.role == "element":
                self.claims.setdefault(f.name, set()).add(t.uri(f.prefix))
        self.forwarded = 0

    def child_start(self, eng, st, cid):
        if len(st.w.stack) > 1:
            return [(st, self.m.fresh(eng, st, mk("ev", cid, "D")))]
        out = []

        def alt(kind, name, uri, claimed, others=()):
            s = st.clone()
            E = self.m.fresh(eng, s, mk("ev", cid, kind))
            for n in self.claims:
                s.facts[eng.eq(mk("local", E), S(n))] = n == name
            if name is not None:
                ns = mk("ns", E)
                s.facts[mk("discr", ns)] = frozenset([0] if uri is None else [1])
                u = mk("fld", ns, 1, 0)
                if uri:
                    s.facts[eng.eq(u, S(uri))] = True
                for o in others:
                    s.facts[eng.eq(u, S(o))] = False
            if claimed:
                s.w = s.w.put(cl=True)
            out.append((s, E))
        alt("S", None, None, False)
        for i, (n, uris) in enumerate(sorted(self.claims.items())):
            for j, u in enumerate(sorted(uris)):
                alt("C%d.%d" % (i, j), n, u or None, True)
            alt("W%d" % i, n, "", False, [u for u in uris if u])
            if "" not in uris:
                alt("V%d" % i, n, None, False)
        return out

    def child_end(self, eng, st, E):
        if len(st.w.stack) == 1 and st.w.get("cl"):
            st.w = st.w.put(cl=None, skip=True)
        return [st]

    def delivered(self, eng, st, ev):
        w = st.w
        k = ev.a[1]
        if w.get("skip"):
            st.w = w.put(skip=None)
            return
        if w.get("cl") or w.get("efail") or w.get("qbad") or k not in ("StartElement", "EndElement", "Characters", "CData", "Whitespace"):
            return
        q = items_of(w.get("q") or EMPTY)
        if len(q) < CAP:
            st.w = w.put(q=mklist(q + [ev]))

    def sunk(self, eng, st, ev, ok):
        w = st.w
        if w.get("qbad") or w.get("efail"):
            return True
        if not ok:
            st.w = w.put(efail=True, q=None)
            return True
        self.forwarded += 1
        if ev[0] == "start" and ev[1].op == "str" and not w.get("wrap") and not w.get("first"):
            st.w = w.put(wrap=1)                # an element around all of it
            return True
        st.w = w = w.put(first=True)
        q = items_of(w.get("q") or EMPTY)
        if ev[0] == "end" and not q and w.get("wrap") == 1:
            st.w = w.put(wrap=2)
            return True
        got = ev[1] if ev[0] == "unknown" else None
        if got is not None and got.op == "asw":
            got = got.a[0]
        if not q:
            self.bad(eng, st, "forwards an event that no flattened field must receive: %s" % show(got if got is not None else mk("e", *ev)))
            return True
        head = q[0]
        if got is head or got is None and self.byhand(st, ev, head):
            st.w = w.put(q=mklist(q[1:]) if q[1:] else None)
        elif got is not None and any(x.op in ("phi", "any") for x in subterms(got)):
            st.w = w.put(qbad=True, q=None)
            self.undecided = True
        else:
            self.bad(eng, st, "forwards %s where %s is due" % (show(got if got is not None else mk("e", *ev)), show(head)))
        return True

    undecided = False

    def byhand(self, st, ev, head):
        """an event put together by hand that equals the one due"""
        k, fs = head.a[1], head.a[3]
        if ev[0] == "end":
            return k == "EndElement"
        if ev[0] == "chars":
            return k in ("Characters", "CData", "Whitespace") and ev[1] is fs[0]
        if ev[0] == "cdata":
            return k in ("Characters", "CData", "Whitespace") and ev[1] is fs[0]
        return False

    def bad(self, eng, st, msg):
        self.m.alarm(eng, st, "flat", "the flattened field's input: " + msg[:300], props=("X25",))
        st.w = st.w.put(qbad=True, q=None)


def task(prog, t, root="root_nest", limit=300000):
    res = run.Result(("flatten " if root == "root_nest" else "from_reader flatten ") + t.desc())
    m = models.Models(prog, target=t.name)
    m.mon = mon = FlatMonitor(m, t)
    if root == "root_top":
        mon.root_check, mon.root_uri = True, t.uri(t.prefix) or None
    e = run.explore(prog, m, root, [], res, step_limit=limit)
    run.common_exits(e, m, res, "deserialization")
    if mon.undecided:
        res.stats["undecided-exit"] += 1
    for n in e.live_nodes:
        if n.kind != "return":
            continue
        r, d, p = n.ret, None, None
        if root == "root_nest":
            if r.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            if r.a[2] == 1:
                continue
            r, d, p = r.a[3][0].a[0]
        if r.op != "adt":
            res.stats["undecided-exit"] += 1
            continue
        res.exits += 1
        w = n.state.w
        if r.a[2] == 1:
            check_err(e, res, t, n, r.a[3][0])
            continue
        run.check_ok(e, res, t, None, None, n, r.a[3][0], d, p)
        check(e, res, t, n, r.a[3][0])
    res.stats["events-forwarded"] = mon.forwarded
    return res


def check(e, res, t, n, val):
    w = n.state.w
    if w.get("efail") or w.get("qbad"):
        return
    q = items_of(w.get("q") or EMPTY)
    if q:
        res.add(("X25",), "a value is returned although the flattened field was not given %s" % show(q[0])[:200], n)
        return
    if val.op != "adt":
        res.stats["undecided-exit"] += 1
        return
    failed = items_of(w.get("flerr") or EMPTY)
    buf = mk("utf8", mk("sunkbuf"))
    if w.get("wrap") != 2:
        res.add(("X25",), "the flattened field reads the enclosing element's tags as the root of a document: its own namespace is demanded of them" if not
                w.get("wrap") else "the content collected for the flattened field is not closed", n)
        return
    for f in t.fields:
        if f.role != "flatten":
            continue
        got = val.a[3][f.index]
        key = mk("fn", "nested", f.ty, buf, absint.I(1), absint.I(1))
        want = mk("val", key)
        res.stats["values-compared"] += 1
        if f.wrap == "opt":
            if got is e.some(want) or got is e.NONE and key in failed:
                continue
            res.add(("X25",), "flattened field %s holds %s instead of what parsing the forwarded content gives" % (f.ident, show(got)[:200]), n)
        elif key in failed:
            res.add(("X25", "D13"), "a value is returned although flattened field %s failed to convert" % f.ident, n)
        elif got is not want:
            res.add(("X25",), "flattened field %s holds %s instead of what parsing the forwarded content gives" % (f.ident, show(got)[:200]), n)


def check_err(e, res, t, n, msg):
    if n.state.w.get("efail") or n.state.w.get("qbad"):
        return
    if msg.op == "str":
        for g in t.fields:
            if g.role == "flatten" and msg.a[0] == run.required_msg(t, g):
                res.add(("X25",), "flattened field %s is reported missing" % g.ident, n)
                return
    run.check_err(e, res, t, None, n, msg)

"""Writer and reader vocabulary (X22): what serialization writes is recorded from its code, and the reader's code is then
searched for a path that takes the same field or variant from exactly that notation.

Writer: every path of the derived serialize is interpreted; whenever a field's value reaches the output, the role (attribute,
text, element), the name and the namespace it then has in the document are noted.  Reader: for every note, the derived
deserialize is interpreted over documents holding that notation; some path must put what was read there into the field."""
import absint, demon, models, run, sermon
from absint import mk, S, I, show, subterms
from demon import M, MX, attr_term
from models import Monitor, mklist, items_of, EMPTY
from sermon import X

OWN = mk("ev", "own")


class Note:
    def __init__(self, role, name=None, uri="", const=None):
        self.role, self.name, self.uri, self.const = role, name, uri, const

    def key(self):
        return (self.role, self.name, self.uri, self.const)

    def text(self):
        n = "%s%s" % ("{%s}" % self.uri if self.uri else "", self.name)
        return {"attribute": "attribute %s" % n, "text": "its element's text", "element": "element <%s>" % n,
                "name": "text %r" % (self.const,), "tag": "attribute %s=%r" % (n, self.const), "own": "element <%s> alone" % n}.get(self.role, self.role)


class Recorder(Monitor):
    def __init__(self, m, t):
        super().__init__(m)
        self.t = t
        self.notes = {}          # (variant index | None, field index | None) -> {key: Note}
        self.roots = {}
        self.odd = {}
        self.ser = sermon.SerMonitor(m, t)

    def scope(self, items, base):
        d = dict(base)
        for x in items:
            if x.op == "nsd" and x.a[0].op == "str" and x.a[1].op == "str":
                d[x.a[0].a[0]] = x.a[1].a[0]
        return d

    def resolve(self, q, scope, element):
        """(local name, namespace) of a qualified name"""
        if ":" in q:
            p, l = q.split(":", 1)
            return l, scope.get(p, "?undeclared:" + p)
        return q, scope.get("", "") if element else ""

    def stack(self, st):
        return [(x.a[0], dict((a.a[0].a[0], a.a[1].a[0]) for a in x.a[1].a[0])) for x in items_of(st.w.get("open") or EMPTY)]

    def who(self, st, v):
        for x in subterms(v):
            if x.op == "fld" and x.a[0] is X:
                return (x.a[1], x.a[2])
        d = st.facts.get(mk("discr", X))
        if self.t.is_enum and d is not None and len(d) == 1:
            return (list(d)[0], None)
        return None

    def note(self, st, v, n):
        k = self.who(st, v)
        if k is None:
            return
        if k[1] is None and n.const is None:
            return
        self.notes.setdefault(k, {})[n.key()] = n

    def write(self, eng, st, ev):
        w = st.w
        if w.wr == "err" or w.get("failed"):
            return [st]
        own = not self.t.flatten
        open_ = self.stack(st)
        scope = open_[-1][1] if open_ else {}
        if ev[0] == "start":
            sc = self.scope(items_of(ev[3]) if ev[3].op == "list" else [], scope)
            if len(open_) > 4:
                return []
            for a in self.ser.norm(items_of(ev[2])) if ev[2].op == "list" else []:
                if a.op == "attr" and a.a[0].op == "str":
                    l, u = self.resolve(a.a[0].a[0], sc, False)
                    if a.a[1].op == "str":
                        if own and not open_:
                            self.note(st, a.a[1], Note("tag", l, u, a.a[1].a[0]))
                    elif own and not open_:
                        self.note(st, a.a[1], Note("attribute", l, u))
                    else:
                        self.note(st, a.a[1], Note("an attribute %s of a nested element" % l))
            if own and not open_ and ev[1].op == "str":
                n = Note("root", *self.resolve(ev[1].a[0], sc, True))
                self.roots[n.key()] = n
            tag = mk("tag", ev[1], mk("list", tuple(mk("p", S(k), S(v)) for k, v in sorted(sc.items()))))
            st.w = w.put(open=mklist(items_of(w.get("open") or EMPTY) + [tag]))
            return [st]
        if ev[0] == "end":
            q = items_of(w.get("open") or EMPTY)
            st.w = w.put(open=mklist(q[:-1]) if q[:-1] else None)
            return [st]
        base = 1 if own and st.facts.get(sermon.SKIP) is not True else 0
        if own and open_ and open_[0][0].op != "str":
            pass                     # own tag under the holder's name: same shape
        if ev[0] in ("chars", "cdata"):
            v = ev[1]
            if v.op == "str":
                if v.a[0] and len(open_) <= base:
                    self.note(st, v, Note("name", None, "", v.a[0]))
                return [st]
            self.place(st, v, open_, base, None)
        elif ev[0] == "ser":
            _, ty, x, name, skip = ev
            self.place(st, x, open_, base, name if not self.truth(skip) else None, not self.truth(skip), flat=self.truth(skip))
        return [st]

    @staticmethod
    def truth(v):
        return v is absint.TRUE

    def place(self, st, v, open_, base, name, nested=False, flat=False):
        inner = open_[base:]
        scope = open_[-1][1] if open_ else {}
        if nested:
            nm = name
            while nm is not None and nm.op == "adt" and nm.a[1] == "Some":
                nm = nm.a[3][0]
            if nm is None or nm.op != "str":
                self.note(st, v, Note("an element named by its own type"))
                return
            if inner:
                self.note(st, v, Note("an element below another"))
                return
            l, u = self.resolve(nm.a[0], scope, True)
            self.note(st, v, Note("element", l, u))
            return
        if not inner:
            self.note(st, v, Note("flatten" if flat else "text"))
        elif len(inner) == 1 and inner[0][0].op == "str":
            l, u = self.resolve(inner[0][0].a[0], inner[0][1], True)
            self.note(st, v, Note("element", l, u))
        else:
            self.note(st, v, Note("an element below another"))


def record(prog, t, res):
    """notes of the content written inside the own element, from every path of serialize"""
    m = models.Models(prog, target=t.name)
    m.mon = mon = Recorder(m, t)
    # the own tags are written (the holder asked for a whole element, or this is the root)
    e = run.explore(prog, m, "root_ser", [X, mk("adt", "std::option::Option", "None", 0, ()), absint.FALSE], res, exact=True)
    mon.writes = sum(1 for n in e.live_nodes for labs, _ in n.out for l in labs if l[0] == "write")
    return mon


# ---------------------------------------------------------------- reader side
class OwnTag(demon.DeMonitor):
    """documents whose own tag is in a given namespace (None: in none, '*': in some other)"""

    def __init__(self, m, uri, not_uri=None, local=None):
        super().__init__(m, demon.Focus())
        self.uri, self.not_uri, self.local = uri, not_uri, local

    def own_start(self, eng, st, E):
        st.w = st.w.put(own=True)
        ns = mk("ns", E)
        u = mk("fld", ns, 1, 0)
        st.facts[mk("discr", ns)] = frozenset([1] if self.uri else [0])
        if self.local is not None:
            st.facts[eng.eq(mk("local", E), S(self.local))] = True
        if self.uri == "*":
            for x in self.not_uri:
                st.facts[eng.eq(u, S(x))] = False
        elif self.uri:
            st.facts[eng.eq(u, S(self.uri))] = True
        return [st]


class VariantAt(demon.DeMonitor):
    """documents naming one variant in one notation only"""

    def __init__(self, m, t, note, tag=None):
        super().__init__(m, demon.Focus())
        self.t, self.n = t, note
        self.tag = note if note.role == "tag" else tag
        self.words = sorted({x for v in t.variants for x in (v.name, t.qual(v.prefix, v.name))} | ({note.name} if note.name else set()) |
                            ({note.const} if note.const else set()))

    def unnamed(self, eng, st, term):
        for x in self.words:
            st.facts[eng.eq(term, S(x))] = False

    def is_note(self, eng, st, E):
        st.facts[eng.eq(mk("local", E), S(self.n.name))] = True
        ns = mk("ns", E)
        st.facts[mk("discr", ns)] = frozenset([1] if self.n.uri else [0])
        if self.n.uri:
            st.facts[eng.eq(mk("fld", ns, 1, 0), S(self.n.uri))] = True

    def own_start(self, eng, st, E):
        st.w = st.w.put(own=True)
        if self.n.role == "own":
            self.is_note(eng, st, E)
        else:
            self.unnamed(eng, st, mk("local", E))
        return [st]

    def instruction(self, eng, st):
        return []

    def child_start(self, eng, st, cid):
        if len(st.w.stack) > 1:
            return [(st, self.m.fresh(eng, st, mk("ev", cid, "D")))]
        out = []
        if self.n.role == "element":
            self.rename(eng, st)
            s = st.clone()
            self.is_note(eng, s, M)
            out.append((s, M))
        s = st.clone()
        E = self.m.fresh(eng, s, mk("ev", cid, "S"))
        self.unnamed(eng, s, mk("local", E))
        return out + [(s, E)]

    def chars(self, eng, st, cid, kind):
        w = st.w
        if not w.star and (w.stack[-1] is M or self.n.role == "own" and len(w.stack) == 1):
            txt = mk("text", MX)
            st.facts[eng.eq(txt, S(""))] = False
            return [(st, txt)]
        X_ = self.m.fresh(eng, st, mk("ev", cid, "T" if len(w.stack) == 1 else "DT"))
        out = []
        if len(w.stack) == 1 and not w.star and self.n.role == "name":
            out.append((st.clone(), S(self.n.const)))
        self.unnamed(eng, st, mk("text", X_))
        st.facts[eng.eq(mk("text", X_), S(""))] = False
        return out + [(st, mk("text", X_))]

    def child_end(self, eng, st, E):
        return [st]

    def nested(self, eng, st, E):
        pass

    def iter_next(self, eng, st, L, phase, cid):
        s = st.clone()
        e = self.m.fresh(eng, s, mk("elem", L, cid))
        if L.op != "attrs":
            return [(s, e, 1)]
        out = []
        if self.tag:
            s.facts[eng.eq(mk("local", e), S(self.tag.name))] = False
        out.append((s, attr_term(e), phase))
        if self.tag and phase == 0 and L.a[0] is OWN:
            s = st.clone()
            e = self.m.fresh(eng, s, mk("elem", L, cid))
            a = absint.subst(attr_term(e, S(self.tag.name)), {mk("text", e): S(self.tag.const)})
            out.append((s, a, 1))
        return out

    def iter_done(self, eng, st, L, phase):
        return [st] if not (self.tag and L.op == "attrs" and L.a[0] is OWN and phase == 0) else []


def search(prog, t, mon_of, root, res, wanted, keep=None):
    """does a successful path return a value that satisfies wanted(value)?  None: not decided"""
    m = models.Models(prog, target=t.name)
    m.mon = mon_of(m)
    sub = run.Result("")
    rets, found = {}, []
    eng = []

    def judge(n):
        r = n.ret
        if root == "root_nest":
            if r.op != "adt":
                return None
            if r.a[2] == 1:
                return False
            r = r.a[3][0].a[0][0]
        if r.op != "adt":
            return None
        return wanted(r.a[3][0], lambda v, syms: sources(eng[0], v, syms)) if r.a[2] == 0 else False

    def stop(e, n):
        if not eng:
            eng.append(e)
        rets[n.id] = n
        if judge(n):
            found.append(n)
        return bool(found)
    e = run.explore(prog, m, root, [], sub, keep_adt=keep, stop=stop)
    if not eng:
        eng.append(e)
    res.steps += sub.steps
    res.nodes += sub.nodes
    res.exits += len(rets)
    res.fns |= sub.fns
    if found:
        return True
    js = [judge(n) for n in rets.values()]
    if True in js:
        return True
    if sub.budget or sub.lost or None in js:
        res.stats["inconclusive"] += 1
        return None
    return False


def sources(eng, v, syms):
    """may the value stem from one of the symbols?  Loop-carried values are followed to everything that was joined into them"""
    seen, work = set(), [v]
    while work:
        for x in subterms(work.pop()):
            if x in syms:
                return True
            if x.op == "old":
                x = x.a[0]
            if x.op == "phi" and x not in seen:
                seen.add(x)
                work.extend(eng.phi_src.get(x, ()))
    return False


TAKEN = (M, MX, demon.STALE, demon.GHOST)


class FieldAt(demon.DeMonitor):
    """documents holding the field in one notation; no other element of that name (unless another field has it)"""

    shared = False

    def child_start(self, eng, st, cid):
        return super().child_start(eng, st, cid)[:2 if self.f.role == "element" and len(st.w.stack) == 1 and not self.shared else None]


def reads_field(prog, t, f, n, res):
    """some path puts what stands at the note into the field; None: not decided"""
    role = n.role
    focus = demon.Focus(role, n.name, n.uri, f.ty, f.wrap, f.scalar, f.index, f.ident, None, split=role == "attribute" and f.wrap == "vec")
    if role == "text":
        focus = demon.Focus("text", None, "", f.ty, f.wrap, f.scalar, f.index, f.ident)

    alone = t.flatten and not n.uri     # written without the own element

    def wanted(v, src):
        return src(v.a[3][f.index] if v.op == "adt" and f.index < len(v.a[3]) else v, TAKEN)

    def monitor(m):
        mon = FieldAt(m, focus, **(dict(flat=t, doc=True, root_check=True) if alone else {}))
        mon.shared = any(g is not f and g.role in ("element", "cdata") and g.name == f.name for g in t.fields)
        return mon
    return search(prog, t, monitor, "root_top" if alone else "root_nest", res, wanted)


def reads_variant(prog, t, v, n, res, tag=None):
    def wanted(x, src):
        if x.op not in ("adt", "call"):
            return None
        if x.op == "call" or x.a[2] != v.index:
            return False
        return v.payload is None or src(x.a[3][0], TAKEN + ((OWN,) if n.role == "own" else ()))
    return search(prog, t, lambda m: VariantAt(m, t, n, tag), "root_top" if n.role == "own" else "root_nest", res, wanted, keep=t.name)


def verdict(res, ok, msg):
    res.stats["notations"] += 1
    if ok is None:
        res.stats["undecided-exit"] += 1
    elif not ok:
        res.add(("X22",), msg)


def task(prog, t):
    res = run.Result("vocabulary " + t.desc())
    rec = record(prog, t, res)
    res.stats["writes"] = rec.writes
    res.stats["notes"] = sum(len(x) for x in rec.notes.values())
    # the own tag: as a root it must be accepted as written, below another element whatever its holder calls it
    for n in rec.roots.values():
        if not t.flatten:
            ok = search(prog, t, lambda m: OwnTag(m, n.uri, local=n.name), "root_top", res, lambda v, src: True)
            verdict(res, ok, "written as root element <%s%s>, which reading rejects" % ("{%s}" % n.uri if n.uri else "", n.name))
    if not t.flatten:
        for uri, how in (("", "in no namespace"), ("*", "in its holder's namespace")):
            ok = search(prog, t, lambda m: OwnTag(m, uri, [u for _, u in t.namespaces]), "root_nest", res, lambda v, src: True)
            verdict(res, ok, "a nested value whose element is %s is rejected by reading" % how)
    if t.is_enum:
        for v in t.variants:
            keys = [(v.index, None)] + ([(v.index, i) for i in range(len(v.fields))] if v.fields else [(v.index, 0)] if v.payload else [])
            notes = {k: n for q in keys for k, n in rec.notes.get(q, {}).items()}
            for n in notes.values():
                if v.payload and n.role in ("tag", "name"):
                    continue        # the payload's notation is the one that counts
                if n.role == "element" and t.flatten:
                    n = Note("own", n.name, n.uri)
                tag = next((x for x in notes.values() if x.role == "tag"), None)
                ok = reads_variant(prog, t, v, n, res, tag) if n.role in ("element", "name", "tag", "own") else False
                verdict(res, ok, "variant %s is written as %s, from which reading does not yield it" % (v.ident, n.text()))
        return res
    for f in t.fields:
        if f.role == "flatten":
            continue
        for n in rec.notes.get((None, f.index), {}).values():
            ok = reads_field(prog, t, f, n, res) if n.role in ("element", "attribute", "text") else False
            verdict(res, ok, "field %s is written as %s, from which reading does not take it" % (f.ident, n.text()))
    return res

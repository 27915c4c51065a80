"""Ghost specification of serialization, run in lockstep with the abstract interpreter.

The declared type gives a linear program of guarded output operations; a program counter in the ghost state advances at
every write to the XML writer.  Each event written must be the one the program demands next.  Guards (skip predicates,
defaults, presence) are predicates over the value being serialized: undecided ones split the path.
"""
from absint import mk, S, I, B, TRUE, FALSE, UNIT, Term, subterms, show, Infeasible
from models import Monitor, EMPTY, STAR, items_of, mklist, mkfmt

X = mk("sym", "x")
N = mk("sym", "n")
SKIP = mk("sym", "skip")


class Op:
    """kind: start|end|chars|cdata|ser ; guard: list of atoms ; loop: list term or None"""

    def __init__(self, kind, guard, data, field=None, loop=None, opt=False):
        self.kind, self.guard, self.data, self.field, self.loop, self.opt = kind, guard, data, field, loop, opt
        self.group = None


def some_of(t):
    return mk("fld", t, 1, 0)


class SerMonitor(Monitor):
    def __init__(self, m, t, nested_skip=False):
        super().__init__(m)
        self.t = t
        self.x = X
        self.ops = self.program()
        self.used = [[0, 0] for _ in self.ops]   # emitted / skipped, for evidence

    # ------------------------------------------------------------ program
    def fld(self, f, variant=None):
        return mk("fld", self.x, variant, f.index)

    def text_of(self, f, term):
        return term if f.ty == "String" else mk("disp", term)

    def guards(self, f, term):
        g = []
        if f.skip:
            g.append(("const", False))
        if f.skip_if:
            g.append(("not", mk("call", f.skip_fn(), (self.x, term))))
        if f.default:
            g.append(("ne", term, mk("call", f.dflt_fn(), ())))
        return g

    def program(self):
        t = self.t
        ops = []
        own = [] if t.flatten else [("not", SKIP)]
        if not t.flatten:
            ops.append(Op("start", own, "own"))
        else:
            ops.append(Op("never", [("const", False)], "own"))
        if not t.is_enum:
            for f in t.fields:
                if f.role == "attribute":
                    continue
                ops += self.field_ops(f, self.fld(f), self.guards(f, self.fld(f)), t.qual(f.prefix, f.name))
        else:
            for i, v in enumerate(t.variants):
                g = [("variant", self.x, i)]
                name = t.qual(v.prefix, v.name)
                if v.fields:
                    for f in v.fields:
                        ops += self.field_ops(f, self.fld(f, i), g + [], t.qual(f.prefix, f.name))
                elif v.payload:
                    f = v.payload
                    term = self.fld(f, i)
                    if f.wrap == "opt":
                        ops += self.newtype_ops(f, some_of(term), g + [("variant", term, 1)], name, None, v)
                    elif f.wrap == "vec":
                        ops += self.newtype_ops(f, None, g, name, term, v)
                    else:
                        ops += self.newtype_ops(f, term, g, name, None, v)
                elif not t.tag:
                    ops.append(Op("chars", g, S(name)))
        if not t.flatten:
            ops.append(Op("end", own, None))
        return ops

    def newtype_ops(self, f, term, g, name, loop, v):
        o = []
        if v.flatten or f.role == "flatten":
            return [Op("ser", g, (f.ty, term, None, None), f, loop)]
        o.append(Op("start", g, (name,), f, loop))
        if f.ty == "String":
            o.append(Op("chars", g, term, f, loop))
        elif f.scalar and f.wrap == "plain":
            o.append(Op("chars", g, mk("disp", term), f, loop))
        else:
            o.append(Op("ser", g, (f.ty, term, EMPTY, TRUE), f, loop))
        o.append(Op("end", g, None, f, loop))
        return o

    def field_ops(self, f, term, g, name):
        if f.role == "text":
            if f.wrap == "opt":
                return [Op("chars", g + [("variant", term, 1)], some_of(term), f)]
            return [Op("chars", g, term, f)]
        if f.role == "cdata":
            c = mk("call", "replace", (term, S("]]>"), S("]]]]><![CDATA[>")))
            return [Op("start", g, (name,), f), Op("cdata", g, c, f), Op("end", g, None, f)]
        loop = None
        if f.wrap == "opt":
            g = g + [("variant", term, 1)]
            term = some_of(term)
        elif f.wrap == "vec":
            loop = term
            term = None
        elif f.wrap == "optvec":
            g = g + [("variant", term, 1)]
            loop = some_of(term)
            term = None
        if f.role == "flatten":
            return [Op("ser", g, (f.ty, term, EMPTY, TRUE), f, loop)]
        if f.scalar:
            txt = None if term is None else self.text_of(f, term)
            return [Op("start", g, (name,), f, loop), Op("chars", g, txt, f, loop), Op("end", g, None, f, loop)]
        return [Op("ser", g, (f.ty, term, S(name), FALSE), f, loop)]

    # ------------------------------------------------------------ guards
    def truth(self, eng, st, atom):
        """list of (state, bool)"""
        k = atom[0]
        if k == "const":
            return [(st, atom[1])]
        if k == "not":
            return [(s, not b) for s, b in eng.truth_states(st, atom[1])]
        if k == "is":
            return eng.truth_states(st, atom[1])
        if k == "ne":
            return [(s, not b) for s, b in eng.truth_states(st, eng.eq(atom[1], atom[2]))]
        if k == "variant":
            v, i = atom[1], atom[2]
            if v.op == "adt":
                return [(st, v.a[2] == i)]
            key = mk("discr", v)
            o = st.facts.get(key)
            if o is not None and i not in o:
                return [(st, False)]
            if o is not None and len(o) == 1:
                return [(st, True)]
            n = len(o) if o is not None else None
            out = []
            s = st.clone()
            s.facts[key] = frozenset([i])
            out.append((s, True))
            s = st.clone()
            allv = o if o is not None else frozenset(range(self.nvariants(v)))
            s.facts[key] = allv - {i}
            if s.facts[key]:
                out.append((s, False))
            return out
        raise KeyError(k)

    def nvariants(self, v):
        if v is self.x and self.t.is_enum:
            return len(self.t.variants)
        return 2

    def conj(self, eng, st, atoms):
        work, out = [(st, 0)], []
        while work:
            s, i = work.pop()
            if i == len(atoms):
                out.append((s, True))
                continue
            for s2, b in self.truth(eng, s.clone(), atoms[i]):
                if b:
                    work.append((s2, i + 1))
                else:
                    out.append((s2, False))
        return out

    # ------------------------------------------------------------ attribute and namespace lists
    def attr_items(self, eng, st):
        """list of (state, items) for the value's own attribute list"""
        t = self.t
        states = [(st, [])]

        def each(f, g, fun):
            nonlocal states
            out = []
            for s, items in states:
                for s2, b in self.conj(eng, s, g):
                    out.append((s2, items + [fun(s2)] if b else items))
            states = out
        if t.is_enum:
            for i, v in enumerate(t.variants):
                g = [("variant", self.x, i)]
                if t.flatten and v.payload and v.payload.role == "flatten" and not v.payload.scalar:
                    each(v.payload, g, lambda s: mk("all", mk("sattr", v.payload.ty, self.fld(v.payload, i))))
                if t.tag:
                    each(None, g, lambda s: mk("attr", S(t.tag), S(v.name)))
            return states
        for f in t.fields:
            term = self.fld(f)
            g = self.guards(f, term)
            name = t.qual(f.prefix, f.name)
            if f.role == "flatten" and not f.scalar and f.wrap in ("plain", "opt"):
                if f.wrap == "opt":
                    g = g + [("variant", term, 1)]
                    term = some_of(term)
                each(f, g, lambda s: mk("all", mk("sattr", f.ty, term)))
                continue
            if f.role != "attribute":
                continue
            if f.wrap == "vec":
                body = mk("val", mk("fn", "yaserde::ser::to_string_content", f.ty, STAR)) if not f.scalar else self.text_of(f, STAR)
                L = term if body is STAR else mk("mapl", term, body)
                each(f, g + [("ne", term, EMPTY)], lambda s: mk("attr", S(name), mk("call", "join", (L, S(" ")))))
                continue
            if f.wrap == "opt":
                g = g + [("variant", term, 1)]
                term = some_of(term)
            if f.scalar:
                val = self.text_of(f, term)
            else:
                val = mk("val", mk("fn", "yaserde::ser::to_string_content", f.ty, term))
            each(f, g, lambda s: mk("attr", S(name), val))
        return states

    def ns_items(self, eng, st):
        t = self.t
        base = [mk("nsd", S("" if p == t.default_namespace else p), S(u)) for p, u in t.namespaces]
        states = [(st, base)]
        src = t.fields if not t.is_enum else []
        for f in src:
            if f.role == "flatten" and not f.scalar and f.wrap in ("plain", "opt"):
                term = self.fld(f)
                g = self.guards(f, term)
                if f.wrap == "opt":
                    g = g + [("variant", term, 1)]
                    term = some_of(term)
                out = []
                for s, items in states:
                    for s2, b in self.conj(eng, s, g):
                        out.append((s2, items + [mk("all", mk("sns", f.ty, term))] if b else items))
                states = out
        if t.is_enum and t.flatten:
            for i, v in enumerate(t.variants):
                if v.payload and v.payload.role == "flatten" and not v.payload.scalar:
                    out = []
                    for s, items in states:
                        for s2, b in self.conj(eng, s, [("variant", self.x, i)]):
                            out.append((s2, items + [mk("all", mk("sns", v.payload.ty, self.fld(v.payload, i)))] if b else items))
                    states = out
        return states

    def norm(self, items):
        out = []
        for x in items:
            if x.op == "attr":
                x = mk("attr", x.a[0], x.a[1])
            elif x.op == "adt" and x.a[0].endswith("OwnedAttribute"):
                nm = x.a[3][0]
                if nm.op == "adt" and nm.a[3][0].op == "str":
                    nm = nm.a[3][0]
                x = mk("attr", nm, x.a[3][1])
            out.append(x)
        return out

    def cmp_attrs(self, eng, st, want, got):
        """problems [(props, msg)] comparing attribute item lists (order is free)"""
        got = self.norm(got)
        out = []
        w = list(want)
        for g in got:
            if g in w:
                w.remove(g)
                continue
            if g.op == "attr" and g.a[0].op == "str":
                same = [x for x in want if x.op == "attr" and x.a[0] is g.a[0]]
                if same and same[0] in w:
                    w.remove(same[0])
                    out.append((("C03",), "attribute %s carries %s instead of %s" % (show(g.a[0]), show(g.a[1]), show(same[0].a[1]))))
                    continue
                f = [x for x in self.t.fields if x.role == "attribute" and self.t.qual(x.prefix, x.name) == g.a[0].a[0]]
                if f:
                    out.append((("C05", "C03") if f[0].conditional() else ("C03",), "attribute %s is written though it must be omitted or twice" % show(g)))
                    continue
                near = [x for x in w if x.op == "attr" and x.a[1] is g.a[1]]
                if near:
                    w.remove(near[0])
                    out.append((("C04",), "attribute is named %s instead of %s" % (show(g.a[0]), show(near[0].a[0]))))
                    continue
                out.append((("C03", "C04"), "unexpected attribute %s" % show(g)))
            elif g.op == "all" and g.a[0].op == "sattr":
                out.append((("C07", "C03"), "attributes of %s are contributed though not declared" % show(g)))
            else:
                bad = ("C08", "C03") if any(y is self.x for y in subterms(g)) else ("C03",)
                out.append((bad, "unexpected attribute item %s" % show(g)))
        for x in w:
            if x.op == "all":
                if eng.fact(st, eng.eq(x.a[0], EMPTY)) is True:
                    continue
                out.append((("C07", "C03"), "attributes of the flattened value %s are missing" % show(x)))
            else:
                f = [y for y in self.t.fields if y.role == "attribute" and self.t.qual(y.prefix, y.name) == x.a[0].a[0]]
                out.append((("C05", "C03") if f and f[0].conditional() else ("C03",), "attribute %s is missing" % show(x)))
        return out

    def cmp_ns(self, eng, st, want, got):
        out = []
        w = list(want)
        for g in got:
            if g in w:
                w.remove(g)
            else:
                out.append((("C07",), "unexpected namespace declaration %s" % show(g)))
        for x in w:
            if x.op == "all" and eng.fact(st, eng.eq(x.a[0], EMPTY)) is True:
                continue
            out.append((("C07",), "namespace declaration %s is missing" % show(x)))
        return out

    # ------------------------------------------------------------ hooks
    def fail(self, eng, st, props, msg):
        self.m.alarm(eng, st, "ser", msg, props=tuple(props))
        st.w = st.w.put(free=True)
        return st

    def iter_next(self, eng, st, L, phase, cid):
        e = self.m.fresh(eng, st, mk("elem", L, cid))
        key = eng.eq(L, EMPTY)
        k = eng.fact(st, key)
        if k is True:
            return []
        if k is None:
            st.facts[key] = False
        w = st.w
        if w.get("free") or not any(o.loop is L for o in self.ops):
            return [(st, e, 1)]
        cur = w.get("cur")
        if cur is not None and cur.a[0] is L:
            st = self.fail(eng, st, ("C03",), "an element of %s is passed over without being written completely" % show(L))
            return [(st, e, 1)]
        pc = self.loop_pc(L)
        if w.get("pc", 0) > pc or L in w.get("done", ()):
            # a second traversal: its elements are not expected to be written
            return [(st, e, 1)]
        st.w = w.put(cur=mk("cursor", L, e, I(0)))
        return [(st, e, 1)]

    def loop_pc(self, L):
        return min(i for i, o in enumerate(self.ops) if o.loop is L)

    def iter_done(self, eng, st, L, phase):
        key = eng.eq(L, EMPTY)
        k = eng.fact(st, key)
        if phase == 0:
            if k is False:
                return []
            st.facts[key] = True
        w = st.w
        cur = w.get("cur")
        if not w.get("free") and cur is not None and cur.a[0] is L:
            self.fail(eng, st, ("C03",), "the last element of %s is not written completely" % show(L))
        elif not w.get("free") and any(o.loop is L for o in self.ops):
            if w.get("pc", 0) <= self.loop_pc(L):
                st.w = st.w.put(done=st.w.get("done", frozenset()) | {L})
        return [st]

    def instantiate(self, op, e):
        """the event demanded by op (for the loop element e)"""
        f = op.field
        if op.kind == "chars":
            return ("chars", op.data if op.data is not None else (e if f.ty == "String" else mk("disp", e)))
        if op.kind == "ser":
            ty, x, n, k = op.data
            return ("ser", ty, x if x is not None else e, n, k)
        if op.kind == "start" and op.data != "own":
            return ("start", S(op.data[0]), EMPTY, EMPTY)
        if op.kind == "cdata":
            return ("cdata", op.data)
        return (op.kind,)

    def bal(self, st, ev):
        b = st.w.get("bal", 0)
        if ev[0] == "start":
            b += 1
        elif ev[0] == "end":
            b -= 1
        return max(-3, min(b, 6))

    def write(self, eng, st, ev):
        """returns the states in which the write happened as demanded (alarms otherwise)"""
        w = st.w
        if w.wr == "err" or w.get("failed"):
            self.m.alarm(eng, st, "ser", "writes %s after an earlier failure" % show_ev(ev), props=("C01",))
            return []
        b = self.bal(st, ev)
        st.w = w = w.put(bal=b or None)
        if b < 0:
            self.m.alarm(eng, st, "ser", "closes a tag that this serializer did not open", props=("C02",))
            return []
        if b > 4:
            self.m.alarm(eng, st, "ser", "opens tags without bound", props=("C02",))
            return []
        if ev[0].startswith("other") or ev[0] == "unknown":
            return [self.fail(eng, st, ("C08", "C03"), "writes %s" % show_ev(ev))]
        if w.get("free"):
            return [st]
        if ev == ("chars", S("")):
            return [st]
        return self.advance(eng, st, ev)

    def advance(self, eng, st, ev):
        """move the program counter to the operation that is enabled next; it must be ev (None: no more output)"""
        out = []
        work = [st]
        while work:
            s = work.pop()
            pc = s.w.get("pc", 0)
            if pc >= len(self.ops):
                if ev is None:
                    out.append(s)
                else:
                    out.append(self.wrong(eng, s, ev, None, None))
                continue
            op = self.ops[pc]
            if op.loop is not None:
                cur = s.w.get("cur")
                if cur is not None and cur.a[0] is op.loop:
                    off = cur.a[2].a[0]
                    n = self.loop_len(pc)
                    want = self.instantiate(self.ops[pc + off], cur.a[1])
                    g = self.conj(eng, s, op.guard)
                    if ev is None or not self.match(eng, s, self.ops[pc + off], want, ev) or any(not b for _, b in g):
                        out.append(self.wrong(eng, s, ev, self.ops[pc + off], want))
                        continue
                    self.used[pc + off][0] += 1
                    s.w = s.w.put(cur=mk("cursor", cur.a[0], cur.a[1], I(off + 1)) if off + 1 < n else None)
                    out.append(s)
                    continue
                # not inside the loop: it has run to completion, or its list is empty, or it is disabled
                for s2, b in self.conj(eng, s, op.guard):
                    if not b or op.loop in s2.w.get("done", ()):
                        self.used[pc][1] += 1
                        s2.w = s2.w.put(pc=pc + self.loop_len(pc), done=(s2.w.get("done", frozenset()) - {op.loop}) or None)
                        work.append(s2)
                        continue
                    for s3, empty in eng.truth_states(s2, eng.eq(op.loop, EMPTY)):
                        if empty:
                            s3.w = s3.w.put(pc=pc + self.loop_len(pc), done=(s3.w.get("done", frozenset()) - {op.loop}) or None)
                            work.append(s3)
                        else:
                            out.append(self.wrong(eng, s3, ev, op, self.instantiate(op, mk("sym", "element"))))
                continue
            for s2, b in self.conj(eng, s, op.guard):
                if not b:
                    self.used[pc][1] += 1
                    s2.w = s2.w.put(pc=pc + 1)
                    work.append(s2)
                    continue
                if op.data == "own" and op.kind == "start":
                    out += self.own_start_tag(eng, s2, pc, ev)
                    continue
                want = self.instantiate(op, None)
                if ev is not None and self.match(eng, s2, op, want, ev):
                    self.used[pc][0] += 1
                    s2.w = s2.w.put(pc=pc + 1)
                    out.append(s2)
                else:
                    out.append(self.wrong(eng, s2, ev, op, want))
        return out

    def loop_len(self, pc):
        L = self.ops[pc].loop
        n = 0
        while pc + n < len(self.ops) and self.ops[pc + n].loop is L and self.ops[pc + n].field is self.ops[pc].field:
            n += 1
        return n

    def match(self, eng, st, op, want, ev):
        if ev[0] != want[0]:
            return False
        if ev[0] == "ser":
            _, ty, x, n, k = want
            if ev[1] != ty or not self.same(eng, st, ev[2], x):
                return False
            if k is None:
                return True
            if n is not EMPTY and not (ev[3].op == "adt" and ev[3].a[2] == 1 and ev[3].a[3][0] is n):
                return False
            return ev[4] is k
        return len(ev) == len(want) and all(self.same(eng, st, a, b) if isinstance(a, Term) else a == b for a, b in zip(ev[1:], want[1:]))

    def same(self, eng, st, a, b):
        if a is b:
            return True
        return self.deopt(st, a) is self.deopt(st, b)

    def deopt(self, st, t):
        return t

    def own_start_tag(self, eng, s, pc, ev):
        t = self.t
        out = []
        if ev is None or ev[0] != "start":
            return [self.wrong(eng, s, ev, self.ops[pc], ("start", S(t.root)))]
        _, name, attrs, ns = ev
        for s2, b in self.truth(eng, s, ("variant", N, 1)):
            want = some_of(N) if b else S(t.root)
            if name is not want:
                self.m.alarm(eng, s2, "ser", "own start tag is named %s instead of %s" % (show(name), show(want)), props=("C04",))
            for s3, items in self.attr_items(eng, s2):
                for p, msg in self.cmp_attrs(eng, s3, items, items_of(attrs)):
                    self.m.alarm(eng, s3, "ser", msg, props=p)
                for s4, nsi in self.ns_items(eng, s3):
                    for p, msg in self.cmp_ns(eng, s4, nsi, items_of(ns)):
                        self.m.alarm(eng, s4, "ser", msg, props=p)
                    s4.w = s4.w.put(pc=pc + 1)
                    self.used[pc][0] += 1
                    out.append(s4)
        return out

    def wrong(self, eng, st, ev, op, want):
        """classify a mismatch"""
        f = op.field if op is not None else None
        what = "for field %s" % f.ident if f else ""
        props = set()
        if ev is None:
            props.add("C03")
            if f is not None and f.conditional():
                props.add("C05")
            if op.kind in ("end", "start"):
                props.add("C02")
            msg = "returns success without writing %s %s" % (show_ev(want), what)
            return self.fail(eng, st, sorted(props), msg)
        msg = "writes %s where %s %s is due" % (show_ev(ev), show_ev(want) if want else "nothing more", what)
        cand = self.candidates(ev)
        exact = [o for o, w in cand if w == "exact"]
        if ev[0] == "start" and any(y is self.x for y in subterms(ev[1])):
            props.add("C08")
        if want and ev[0] != want[0] and {ev[0], want[0]} <= {"chars", "cdata"}:
            props |= {"C08", "C03"}
        elif want and ev[0] == want[0] == "start" and not exact:
            props |= {"C04"}
        elif want and ev[0] == want[0] == "ser" and ev[2] is want[2]:
            props |= {"C04"} if ev[4] is want[4] else {"C02", "C07", "C04"}
        elif exact:
            props.add("C03")
            for o in exact:
                if o.field is not None and o.field.conditional():
                    props.add("C05")
            if f is not None and f.conditional():
                props.add("C05")
        else:
            props.add("C03")
        if want and ev[0] != want[0] and (ev[0] in ("start", "end") or want[0] in ("start", "end")):
            if not exact or ev[0] == "end" or op is not None and op.data == "own":
                props.add("C02")
        if not want and ev[0] in ("start", "end"):
            props.add("C02")
        if ev[0] == "cdata" and want and want[0] == "cdata":
            props |= {"C08", "C03"}
        return self.fail(eng, st, sorted(props), msg)

    def candidates(self, ev):
        out = []
        for o in self.ops:
            if o.data == "own" or o.kind in ("end", "never") or o.kind != ev[0]:
                continue
            if o.kind == "start" and ev[1] is S(o.data[0]):
                out.append((o, "exact"))
            elif o.kind in ("chars", "cdata") and len(ev) > 1 and ev[1] is o.data:
                out.append((o, "exact"))
            elif o.kind == "ser" and ev[2] is o.data[1]:
                out.append((o, "exact"))
        return out

    # ------------------------------------------------------------ end of run
    def finish(self, eng, st, ok):
        w = st.w
        failed = w.wr == "err" or w.get("failed")
        if ok:
            if failed:
                self.m.alarm(eng, st, "ser", "reports success although writing or a nested value failed", props=("C01",))
                return
            if w.get("bal"):
                self.m.alarm(eng, st, "ser", "returns success leaving %d tag(s) open" % w.get("bal"), props=("C02",))
            if not w.get("free"):
                self.advance(eng, st, None)
        elif not failed:
            self.m.alarm(eng, st, "ser", "fails although nothing it wrote or serialized failed", props=("C03",))


def show_ev(ev):
    return "%s(%s)" % (ev[0], ", ".join(show(x) if isinstance(x, Term) else str(x) for x in ev[1:]))

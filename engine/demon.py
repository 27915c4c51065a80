"""Ghost specification of deserialization, run in lockstep with the abstract interpreter.

One run tracks one *focus*: a field of the type under analysis.  Whenever the document could contain the part that
declares the field, the monitor splits: the part is there (symbol foc(..)) or it is something else, constrained not to
match.  The monitor keeps, as a term, the value the field must have; at the end the value actually returned must be
that very term.
"""
from absint import (mk, S, I, B, TRUE, FALSE, UNIT, UNDEF, Term, subterms, subst, show)
from models import Monitor, mkfmt, mklist, items_of, name_of, owned_name, EMPTY

M = mk("foc", "M")           # current matching child element / attribute
MX = mk("foc", "Mx")         # its text event
GHOST = mk("foc", "ghost")   # the value specified by everything accepted so far
GH2 = mk("foc", "ghost2")
FIRST = mk("foc", "first")  # the first element of a flattened type's document, when it is another field
STALE = mk("foc", "stale")


def attr_term(e, local=None):
    return mk("adt", "xml::attribute::OwnedAttribute", "OwnedAttribute", 0,
              (owned_name(local or mk("local", e), mk("ns", e), mk("prefix", e)), mk("text", e)))


class Focus:
    """role: element | attribute | text | none ; wrap: plain | opt | vec ; ty: type string of the payload"""

    def __init__(self, role="none", name=None, uri="", ty=None, wrap="plain", scalar=True, index=None, ident=None,
                 default=None, split=False):
        self.role, self.name, self.uri, self.ty, self.wrap, self.scalar = role, name, uri, ty, wrap, scalar
        self.index, self.ident, self.default, self.split = index, ident, default, split


class DeMonitor(Monitor):
    abstract_sinks = True       # X25 follows what flattened fields are given

    def __init__(self, m, focus, root_uri=None, root_check=False, flat=None, doc=False):
        super().__init__(m)
        self.flat = flat            # a flattened type: the root of a document, if its own, names none of its fields
        self.flat_doc = doc
        self.f = focus
        self.root_uri = root_uri
        self.root_check = root_check

    # ---------------- helpers
    def rename(self, eng, st, syms=(M, MX)):
        """a new occurrence of the focus starts: symbols of the previous one become stale, the value specified so far
        becomes the ghost"""
        w = st.w
        exp = w.get("exp")
        open_ = exp is not None and (any(x.op == "foc" for x in subterms(exp)) or exp.op == "list" and exp.a[0])
        m = {x: STALE for x in syms}
        if open_ and exp is not GHOST:
            m[exp] = GH2
        m[GHOST] = GHOST if exp is GHOST else STALE
        fin = {GH2: GHOST}

        def ren(t):
            return subst(subst(t, m), fin)
        for k, v in list(st.store.items()):
            if any(x in m for x in subterms(v)):
                st.store[k] = ren(v)
        st.facts = {k: v for k, v in st.facts.items() if not any(x in syms or x is STALE for x in subterms(k))}
        st.w = w.put(exp=GHOST if open_ else exp).copy(stack=tuple(ren(x) for x in w.stack))

    def accept(self, st, v):
        exp = st.w.get("exp")
        if self.f.wrap == "vec":
            st.w = st.w.put(exp=mklist(items_of(exp if exp is not None else EMPTY) + [v]), bad=None)
        else:
            st.w = st.w.put(exp=v, bad=None)

    def conversions(self, eng, st, text):
        """alternatives (state, converted value | None) of converting text to the focus type"""
        f = self.f
        if f.ty == "String":
            return [(st, text)]
        if not f.scalar:
            return [(st, None)]
        out = []
        if f.ty == "bool":
            rest = st
            for lit, v in (("1", TRUE), ("0", FALSE)):
                for s, b in eng.truth_states(rest, eng.eq(text, S(lit))):
                    if b:
                        out.append((s, v))
                    else:
                        nxt = s
                rest = nxt
            st = rest
        for s, b in eng.truth_states(st, mk("parses", f.ty, text)):
            out.append((s, mk("parse", f.ty, text) if b else None))
        return out

    # ---------------- hooks
    def own_start(self, eng, st, E):
        st.w = st.w.put(own=True)
        for f in self.flat.fields if self.flat and self.root_check else ():
            if f.role == "element":
                st.facts[eng.eq(mk("local", E), S(f.name))] = False
        if self.f.role == "attribute":
            out = []
            for present in (True, False):
                s = st.clone()
                if not present:
                    out.append(s)
                    continue
                s.w = s.w.put(attr=True)
                txt = mk("text", M)
                if self.f.split:
                    s.w = s.w.put(exp=EMPTY)
                    out.append(s)
                    continue
                if not self.f.scalar:
                    arg = mkfmt([S("<%s>" % self.f.ty), txt, S("</%s>" % self.f.ty)])
                    self.accept(s, mk("val", mk("fn", "yaserde::de::from_str", self.f.ty, arg)))
                    out.append(s)
                    continue
                for s2, v in self.conversions(eng, s, txt):
                    if v is None:
                        s2.w = s2.w.put(mf="attribute")
                    else:
                        self.accept(s2, v)
                    out.append(s2)
        else:
            out = [st]
        return self.root_ns(eng, out, E)

    def root_ns(self, eng, out, E):
        if self.root_check:
            res = []
            ns = mk("ns", E)
            u = mk("fld", ns, 1, 0)
            dk = mk("discr", ns)
            for s in out:
                s1 = s.clone()
                s1.facts[dk] = frozenset([0])
                s1.w = s1.w.put(rn="none")          # kept apart when states join
                res.append(s1)
                s2 = s.clone()
                s2.facts[dk] = frozenset([1])
                if self.root_uri:
                    s2.facts[eng.eq(u, S(self.root_uri))] = True
                    res.append(s2)
                    s3 = s.clone()
                    s3.facts[dk] = frozenset([1])
                    s3.facts[eng.eq(u, S(self.root_uri))] = False
                    s3.w = s3.w.put(mf="root namespace")
                    res.append(s3)
                else:
                    s2.w = s2.w.put(mf="root namespace")
                    res.append(s2)
            out = res
        return out

    def child_start(self, eng, st, cid):
        f = self.f
        w = st.w
        fresh = lambda s, k: self.m.fresh(eng, s, mk("ev", cid, k))
        if w.stack[-1] is M:
            st.w = w.put(ph="bad", val=None)
            return [(st, fresh(st, "D"))]
        if len(w.stack) > 1:
            return [(st, fresh(st, "D"))]
        if self.flat_doc and not w.get("any"):
            return self.first(eng, st, cid)
        if self.flat_doc and any(FIRST in subterms(k) for k in st.facts):
            m = {FIRST: mk("ev", "first")}
            for k, v in list(st.store.items()):
                st.store[k] = subst(v, m)
            st.facts = {k: v for k, v in st.facts.items() if FIRST not in subterms(k)}
        if f.role != "element":
            return [(st, fresh(st, "S"))]
        out = []
        self.rename(eng, st)

        def setns(s, E, uri):
            ns = mk("ns", E)
            s.facts[mk("discr", ns)] = frozenset([0] if uri is None else [1])
            return mk("fld", ns, 1, 0)
        # a matching child
        s = st.clone()
        s.facts[eng.eq(mk("local", M), S(f.name))] = True
        if f.uri:
            s.facts[eng.eq(setns(s, M, f.uri), S(f.uri))] = True
        else:
            setns(s, M, None)
        s.w = s.w.put(ph="open")
        out.append((s, M))
        # another name
        s = st.clone()
        E = fresh(s, "S")
        s.facts[eng.eq(mk("local", E), S(f.name))] = False
        out.append((s, E))
        # the same name in another namespace
        s = st.clone()
        E = fresh(s, "W")
        s.facts[eng.eq(mk("local", E), S(f.name))] = True
        s.facts[eng.eq(setns(s, E, "x"), S(f.uri))] = False
        out.append((s, E))
        if f.uri:
            s = st.clone()
            E = fresh(s, "V")
            s.facts[eng.eq(mk("local", E), S(f.name))] = True
            setns(s, E, None)
            out.append((s, E))
        return out

    def first(self, eng, st, cid):
        """the first element of a flattened type's document is one of its fields"""
        st.w = st.w.put(any=True)
        out = []
        for g in self.flat.fields:
            if g.role != "element":
                continue
            s = st.clone()
            mine = g.index == self.f.index
            E = M if mine else FIRST
            s.facts[eng.eq(mk("local", E), S(self.f.name if mine else g.name))] = True
            s.facts[mk("discr", mk("ns", E))] = frozenset([0])
            if mine:
                s.w = s.w.put(ph="open")
            out.append((s, E))
        return out

    def chars(self, eng, st, cid, kind):
        w = st.w
        f = self.f
        if w.stack[-1] is M and not w.star:
            ph = w.get("ph")
            if ph == "open" and f.scalar and kind == "Characters":
                txt = mk("text", MX)
                st.facts[eng.eq(txt, S(""))] = False
                out = []
                for s, v in self.conversions(eng, st, txt):
                    s.w = s.w.put(ph="one", val=v)
                    out.append((s, txt))
                return out
            st.w = w.put(ph="bad", val=None)
            return [(st, mk("text", self.m.fresh(eng, st, mk("ev", cid, "DT"))))]
        if len(w.stack) == 1 and not w.star:
            if f.role == "text" and kind == "Characters":
                self.rename(eng, st)
                txt = mk("text", MX)
                st.facts[eng.eq(txt, S(""))] = False
                out = []
                for s, v in self.conversions(eng, st, txt):
                    if v is None:
                        s.w = s.w.put(mf="text")
                    else:
                        self.accept(s, v)
                    out.append((s, txt))
                return out
            X = self.m.fresh(eng, st, mk("ev", cid, "T"))
        else:
            X = self.m.fresh(eng, st, mk("ev", cid, "DT"))
        st.facts[eng.eq(mk("text", X), S(""))] = False
        return [(st, mk("text", X))]

    def child_end(self, eng, st, E):
        if E is M:
            w = st.w
            ph, v = w.get("ph"), w.get("val")
            st.w = w.put(ph=None, val=None)
            if self.f.scalar:
                if ph == "open" and self.f.ty == "String":
                    self.accept(st, S(""))
                elif ph == "one" and v is not None:
                    self.accept(st, v)
                else:
                    if st.w.get("exp") is None:
                        st.w = st.w.put(bad=True)
            elif ph != "nested":
                st.w = st.w.put(exp=mk("foc", "ignored-occurrence"))
        return [st]

    def nested(self, eng, st, E):
        if E is M:
            st.w = st.w.put(ph="nested")

    def nested_result(self, eng, st, ty, E, dest, tgt):
        k = mk("deser", ty, E)
        s = st.clone()
        st.labels.append(("nested-ok", ty, E))
        s.labels.append(("nested-err", ty, E))
        s.w = s.w.put(mf="nested")
        if E is M and not self.f.scalar:
            self.accept(st, mk("deser", self.f.ty, M))
        return eng.set_dest(st, dest, eng.ok(k), tgt) + eng.set_dest(s, dest, eng.err(mk("errof", k)), tgt)

    def iter_next(self, eng, st, L, phase, cid):
        f = self.f
        own = L.op == "attrs" and L.a[0] is mk("ev", "own")
        if own and f.role == "attribute":
            out = []
            s = st.clone()
            e = self.m.fresh(eng, s, mk("elem", L, cid))
            s.facts[eng.eq(mk("local", e), S(f.name))] = False
            out.append((s, attr_term(e), phase))
            if st.w.get("attr") and phase == 0:
                s = st.clone()
                out.append((s, attr_term(M, S(f.name)), 1))
            return out
        if f.split and any(x is M for x in subterms(L)) and L.op == "call" and L.a[0] in ("split_whitespace", "split_ascii_whitespace"):
            # whitespace-separated items of the focus attribute
            s = st.clone()
            self.rename(eng, s, (MX,))
            out = []
            txt = mk("text", MX)
            s.facts[eng.eq(txt, S(""))] = False
            for s2, v in self.conversions(eng, s, txt):
                if v is None:
                    s2.w = s2.w.put(mf="attribute item")
                else:
                    self.accept(s2, v)
                out.append((s2, txt, phase))
            return out
        e = self.m.fresh(eng, st, mk("elem", L, cid))
        if L.op == "attrs":
            return [(st, attr_term(e), 1)]
        return [(st, e, 1)]

    def iter_done(self, eng, st, L, phase):
        if self.f.role == "attribute" and L.op == "attrs" and L.a[0] is mk("ev", "own") and st.w.get("attr") and phase == 0:
            return []
        return [st]


class EnumMonitor(DeMonitor):
    """the focus is one variant of an enum: everything that names it (own tag, child tag, text, tag attribute) is split off"""

    def __init__(self, m, t, v, **kw):
        p = v.payload
        super().__init__(m, Focus("variant", v.name, "", p.ty if p else None, p.wrap if p else "plain", p.scalar if p else False, v.index, v.ident), **kw)
        self.t, self.v, self.unit, self.tag = t, v, p is None, t.tag

    def names(self, eng, st, E, yes):
        """constrain the start tag E to name the focus variant, or not to"""
        if not self.tag:
            st.facts[eng.eq(mk("local", E), S(self.f.name))] = yes

    def take(self, st, E):
        if self.unit:
            self.accept(st, UNIT)

    def own_start(self, eng, st, E):
        st.w = st.w.put(own=True)
        a, b = st.clone(), st.clone()
        self.names(eng, a, E, True)
        a.w = a.w.put(ownm=True, ph="open" if self.f.scalar else None)
        self.take(a, E)
        self.names(eng, b, E, False)
        return self.root_ns(eng, [a, b], E)

    def instruction(self, eng, st):
        # a processing instruction splits text; the structure runs include it, the focus runs do not
        return []

    def child_start(self, eng, st, cid):
        st.w = w = st.w.put(tx=None)
        if len(w.stack) > 1:
            st.w = w = w.put(odd=True)
        if w.stack[-1] is M:
            st.w = w.put(ph="bad" if self.f.scalar else None, val=None)
            return [(st, self.m.fresh(eng, st, mk("ev", cid, "D")))]
        if len(w.stack) > 1:
            return [(st, self.m.fresh(eng, st, mk("ev", cid, "D")))]
        if w.get("ownm") and not self.unit:
            return []               # the own element is the payload's and holds elements: no reading is specified
        if self.tag:
            st.w = st.w.put(odd=True)
        self.rename(eng, st)
        s = st.clone()
        self.names(eng, s, M, True)
        s.w = s.w.put(ph="open" if self.f.scalar else None)
        self.take(s, M)
        s2 = st.clone()
        E = self.m.fresh(eng, s2, mk("ev", cid, "S"))
        self.names(eng, s2, E, False)
        return [(s, M), (s2, E)]

    def chars(self, eng, st, cid, kind):
        w = st.w
        if not w.star:
            if w.get("tx"):
                return []           # text is coalesced
            st.w = w = w.put(tx=True)
        own = len(w.stack) == 1 and not w.star
        if self.f.scalar and (not own and not w.star and w.stack[-1] is M or own and w.get("ownm")):
            if w.get("ph") == "open" and kind == "Characters":
                if own:
                    self.rename(eng, st)
                txt = mk("text", MX)
                st.facts[eng.eq(txt, S(""))] = False
                out = []
                for s, v in self.conversions(eng, st, txt):
                    s.w = s.w.put(ph="one", val=v)
                    if own:
                        s.w = s.w.put(ph=None, val=None)
                        if v is not None:
                            self.accept(s, v)
                    out.append((s, txt))
                return out
            st.w = w.put(ph="bad", val=None)
        elif own and self.unit:
            self.rename(eng, st)
            b = st.clone()
            out = []
            texts = sorted({self.f.name, self.t.qual(self.v.prefix, self.v.name)})
            for x in texts:
                a = st.clone()
                self.accept(a, UNIT)
                out.append((a, S(x)))
            X = self.m.fresh(eng, b, mk("ev", cid, "T"))
            b.facts[eng.eq(mk("text", X), S(""))] = False
            for x in texts:
                b.facts[eng.eq(mk("text", X), S(x))] = False
            out.append((b, mk("text", X)))
            return out
        X = self.m.fresh(eng, st, mk("ev", cid, "T" if own else "DT"))
        st.facts[eng.eq(mk("text", X), S(""))] = False
        return [(st, mk("text", X))]

    def child_end(self, eng, st, E):
        st.w = w = st.w.put(tx=None)
        if not self.f.scalar or not (E is M or E is mk("ev", "own") and w.get("ownm")):
            return [st]
        ph, v = w.get("ph"), w.get("val")
        st.w = w.put(ph=None, val=None)
        if ph == "one" and v is not None:
            self.accept(st, v)
        if ph != "open":
            return [st]
        out = []
        for s, v in self.conversions(eng, st, S("")):
            if v is not None:
                self.accept(s, v)
            out.append(s)
        return out

    def nested_result(self, eng, st, ty, E, dest, tgt):
        k = mk("deser", ty, E)
        s = st.clone()
        st.labels.append(("nested-ok", ty, E))
        s.labels.append(("nested-err", ty, E))
        s.w = s.w.put(mf="nested")
        if (E is M or E is mk("ev", "own") and st.w.get("ownm")) and not self.f.scalar and not self.unit:
            self.accept(st, mk("deser", self.f.ty, E))
        return eng.set_dest(st, dest, eng.ok(k), tgt) + eng.set_dest(s, dest, eng.err(mk("errof", k)), tgt)

    def iter_next(self, eng, st, L, phase, cid):
        if L.op != "attrs" or not self.tag:
            e = self.m.fresh(eng, st, mk("elem", L, cid))
            return [(st, attr_term(e) if L.op == "attrs" else e, 1)]
        named = L.a[0] is M or L.a[0] is mk("ev", "own") and st.w.get("ownm")
        out = []
        s = st.clone()
        e = self.m.fresh(eng, s, mk("elem", L, cid))
        s.facts[eng.eq(mk("local", e), S(self.tag))] = False
        out.append((s, attr_term(e), phase))
        if phase == 0:
            s = st.clone()
            e = self.m.fresh(eng, s, mk("elem", L, cid))
            a = attr_term(e, S(self.tag))
            if named:
                a = subst(a, {mk("text", e): S(self.f.name)})
            else:
                s.facts[eng.eq(mk("text", e), S(self.f.name))] = False
            out.append((s, a, 1))
        return out

    def iter_done(self, eng, st, L, phase):
        if L.op == "attrs" and self.tag and phase == 0:
            if L.a[0] is M or L.a[0] is mk("ev", "own") and st.w.get("ownm"):
                return []
            st.w = st.w.put(odd=True)
        return [st]

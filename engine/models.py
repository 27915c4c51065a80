"""Semantics of the library functions the analysed code calls: std strings, vectors, iterators, formatting, the xml
reader and writer, and the summaries of nested (de)serialization.  Everything else is either descended into (its MIR
is in the dump) or an uninterpreted pure function of its arguments."""
import re
from absint import (mk, S, I, B, TRUE, FALSE, UNIT, UNDEF, TOP, STRINGY, Term, subterms, subst, mklin, lin_of, Infeasible,
                    Unsupported, show)

INTS = {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "isize", "usize", "i128", "u128"}
SCALARS = INTS | {"bool", "char", "f32", "f64"}
REV = ("StartDocument", "EndDocument", "ProcessingInstruction", "StartElement", "EndElement", "CData", "Comment",
       "Characters", "Whitespace")
WEV = ("StartDocument", "ProcessingInstruction", "StartElement", "EndElement", "CData", "Comment", "Characters")
EMPTY = mk("list", ())


def strlike(t):
    return t.op in ("str", "fmt", "disp", "text", "local", "prefix", "nsuri")


def mkfmt(parts):
    out = []
    for p in parts:
        ps = p.a[0] if p.op == "fmt" else (p,)
        for q in ps:
            if q.op == "str":
                if q.a[0] == "":
                    continue
                if out and out[-1].op == "str":
                    out[-1] = S(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return S("")
    if len(out) == 1:
        return out[0]
    return mk("fmt", tuple(out))


def mklist(items):
    out = []
    for x in items:
        if x.op == "all" and x.a[0].op == "list":
            out += list(x.a[0].a[0])
        else:
            out.append(x)
    if len(out) == 1 and out[0].op == "all":
        return out[0].a[0]
    return mk("list", tuple(out))


STAR = mk("sym", "*")


def pushed(st, l, v):
    """list l with v appended.  One item per element of an iterated list L folds into a map over L: during the iteration
    that pushes it the item is part(L, f), at the next iteration it is owed again, need(L, f), and when the loop is done
    part becomes all of map(f, L).  An iteration that pushes nothing leaves an item some(L, f), which matches nothing."""
    xs = items_of(l)
    es = [x for x in subterms(v) if x.op == "elem"]
    if len(es) == 1:
        e = es[0]
        g = subst(v, {e: STAR})
        if xs and xs[-1].op in ("need", "some") and xs[-1].a == (e.a[0], g):
            return mk("list", tuple(xs[:-1] + [mk("part", *xs[-1].a) if xs[-1].op == "need" else xs[-1]]))
        op = "part" if e.a[0] in st.w.get("it1", ()) else "some"
        return mk("list", tuple(xs + [mk(op, e.a[0], g)]))
    return mklist(xs + [v])


def appended(st, old, v):
    """text old with v appended: as pushed, for a text built from one piece per element of L with the same text between
    any two of them.  tpart(L, f, between) is owed again at the next iteration, tneed, and ends as map(f, L) joined; what
    does not fit is tsome, which swallows whatever follows and matches nothing."""
    xs = list(old.a[0]) if old.op == "fmt" else [old]
    if xs[-1].op == "tsome":
        return old
    es = [x for x in subterms(v) if x.op == "elem"]
    if len(es) != 1:
        return mkfmt([old, v])
    L, g = es[0].a[0], subst(v, {es[0]: STAR})
    n = len(xs) - 1
    sep = ""
    if n > 0 and xs[n].op == "str" and xs[n - 1].op == "tneed":
        n, sep = n - 1, xs[n].a[0]
    if xs[n].op == "tneed":
        fits = xs[n].a[:2] == (L, g) and xs[n].a[2] in (None, sep)
        return mkfmt(xs[:n] + [mk("tpart", L, g, sep) if fits else mk("tsome", L)])
    return mkfmt(xs + [mk("tpart", L, g, None) if L in st.w.get("it1", ()) else mk("tsome", L)])


def iterated(st, L, done, first):
    """the loop over L starts another iteration, or ends"""
    m = {}
    for v in st.store.values():
        for x in subterms(v):
            if x.op == "tneed" and x.a[0] is L:
                m[x] = mk("tsome", L)
            elif x.op == "tpart" and x.a[0] is L:
                l, g, sep = x.a
                m[x] = mk("call", "join", (l if g is STAR else mk("mapl", l, g), S(" " if sep is None else sep))) if done else mk("tneed", *x.a)
            if x.op in ("part", "need") and x.a[0] is L:
                if x.op == "need":
                    m[x] = mk("some", *x.a)
                elif done:
                    m[x] = mk("all", L if x.a[1] is STAR else mk("mapl", *x.a))
                else:
                    m[x] = mk("need", *x.a)
    if m:
        for k, v in list(st.store.items()):
            st.store[k] = subst(v, m)
    it1 = st.w.get("it1", frozenset())
    st.w = st.w.put(it1=((it1 | {L}) if first else (it1 - {L})) or None)


def items_of(l):
    if l.op == "list":
        return list(l.a[0])
    return [mk("all", l)]


def adtR(kind, *fs):
    return mk("adt", "xml::reader::XmlEvent", kind, REV.index(kind), tuple(fs))


def adtW(kind, *fs):
    return mk("adt", "xml::writer::XmlEvent", kind, WEV.index(kind), tuple(fs))


def owned_name(l, n, p):
    return mk("adt", "xml::name::OwnedName", "OwnedName", 0, (l, n, p))


def name_of(E):
    return owned_name(mk("local", E), mk("ns", E), mk("prefix", E))


class Monitor:
    """ghost specification state carried in World.g; this one specifies nothing"""

    def __init__(self, m):
        self.m = m

    def own_start(self, eng, st, E):
        return [st]

    def child_start(self, eng, st, cid):
        return [(st, self.m.fresh(eng, st, mk("ev", cid, "S")))]

    def chars(self, eng, st, cid, kind):
        return [(st, mk("text", self.m.fresh(eng, st, mk("ev", cid, "T" + kind))))]

    def child_end(self, eng, st, E):
        return [st]

    def instruction(self, eng, st):
        return [st]

    def nested(self, eng, st, E):
        pass

    def nested_result(self, eng, st, ty, E, dest, tgt):
        k = mk("deser", ty, E)
        return self.m.fork(eng, st, dest, tgt, [(eng.ok(k), ("nested-ok", ty, E)), (eng.err(mk("errof", k)), ("nested-err", ty, E))])

    def iter_next(self, eng, st, L, phase, cid):
        """alternatives (state, element, new phase) for the next element of an unbounded list"""
        return [(st, self.m.fresh(eng, st, mk("elem", L, cid)), 1)]

    def iter_done(self, eng, st, L, phase):
        return [st]

    def write(self, eng, st, ev):
        return [st]

    def attr_elem(self, e):
        return e

    def fmt_out(self, eng, st, x):
        """text written to a formatter"""

    def nested_into(self, eng, st, wr, k):
        """a nested value is about to be written to the serializer wr"""

    nested_from = None          # a value is about to be read from a cursor (entry points only)

    def delivered(self, eng, st, ev):
        """the parser hands out one event"""

    flat_doc = False            # documents that consist of the fields of a flattened type, without its own element

    abstract_sinks = False      # secondary writers: the monitor follows what they are given, the buffer itself stays opaque

    def sunk(self, eng, st, ev, ok):
        """an event goes to a secondary writer; False drops the path"""
        return True

    def intrinsic(self, eng, st, nm, args):
        """marks of the probe crate that only the monitor reads"""


class Models:
    """hooks used by absint.Engine

    target: type string whose YaSerialize/YaDeserialize impl is descended into (others are summarised)
    """

    def __init__(self, prog, target=None, descend_all=False, reader_kinds=None):
        self.p = prog
        self.target = target
        self.descend_all = descend_all
        self.descend_entries = False
        self.calls = {}
        self.alarms = []
        self.mon = Monitor(self)

    # ---------------------------------------------------------------- types
    def ts(self, tid):
        return self.p.types[self.p.peel(tid)]["s"]

    def stringy(self, tid):
        s = self.ts(tid)
        return s in STRINGY or s.startswith("std::borrow::Cow<'_, str>")

    # ---------------------------------------------------------------- engine hooks
    def project(self, eng, st, v, var, idx):
        if v.op == "all":
            return None
        return None

    def mkadt(self, eng, t, variant, fields):
        if t["path"] == "xml::writer::events::EndElementBuilder":
            return mk("endb")
        return None

    def at_merge(self, eng, st, head):
        pass

    def fresh(self, eng, st, sym):
        """(re)create a symbol: older instances of it in the state become old(sym)"""
        old = mk("old", sym)
        hit = False
        m = {sym: old}
        for k, v in list(st.store.items()):
            if sym in subterms(v):
                st.store[k] = subst(v, m)
                hit = True
        nf = {}
        for k, v in st.facts.items():
            if sym in subterms(k):
                hit = True
                continue
            nf[k] = v
        st.facts = nf
        w = st.w
        if any(x is sym for x in w.stack):
            st.w = w.copy(stack=tuple(old if x is sym else x for x in w.stack))
            hit = True
        if any(isinstance(v, Term) and sym in subterms(v) for _, v in w.g):
            st.w = st.w.copy(g=tuple((k, subst(v, m) if isinstance(v, Term) else v) for k, v in w.g))
            hit = True
        st.labels.append(("new", sym, hit))
        return sym

    # ---------------------------------------------------------------- dispatch
    def call(self, eng, st, cal, args, dest, t):
        decl = cal["decl"]
        tgt = t[4]
        base = re.sub(r"::<[^<>]*(<[^<>]*>[^<>]*)*>", "", decl)
        last = base.split("::")[-1]
        done = lambda v: eng.set_dest(st, dest, v, tgt)
        targs = cal.get("args", [])
        self_s = self.p.types[targs[0]]["s"] if targs else ""
        self_p = self.ts(targs[0]) if targs else ""

        # ---- analysis intrinsics of the probe crate
        nm = base.split("::")[-1]
        if nm.startswith("v_"):
            return self.intrinsic(eng, st, nm, cal, args, dest, tgt)
        if nm.startswith("u_") and cal.get("kind") == "item":
            if tgt is None:
                return None
            v = mk("call", nm, tuple(args))
            return done(v)

        if base in ("std::hint::must_use", "std::convert::identity", "std::hint::black_box"):
            return done(args[0])

        # ---- (de)serialization of other types
        if base == "yaserde::YaDeserialize::deserialize":
            return self.nested_de(eng, st, cal, args, dest, tgt, self_p)
        if base == "yaserde::YaSerialize::serialize":
            return self.nested_ser(eng, st, cal, args, dest, tgt, self_p)
        if base == "yaserde::YaSerialize::serialize_attributes":
            if self.target == self_p or self.descend_all:
                return None
            a, n = args[1], args[2]
            x = args[0]
            ok = eng.ok(mk("tup", (mklist(items_of(a) + [mk("all", mk("sattr", self_p, x))]),
                                   mklist(items_of(n) + [mk("all", mk("sns", self_p, x))]))))
            s = st.clone()
            s.w = s.w.put(failed=True)
            return eng.set_dest(st, dest, ok, tgt) + eng.set_dest(s, dest, eng.err(mk("errof", mk("sattr", self_p, x))), tgt)
        if base == "yaserde::de::from_reader" and self.val(eng, st, args[0]).op in ("str", "fmt", "text", "utf8"):
            base, self_p = "yaserde::de::from_str", self.ts(targs[-1])
            args = [self.val(eng, st, args[0])]
        if base in ("yaserde::ser::to_string_content", "yaserde::de::from_str") and not self.descend_all and not self.descend_entries:
            key = mk("fn", base, self_p, args[0])
            s = st.clone()
            if base.endswith("to_string_content"):
                s.w = s.w.put(failed=True)
            else:
                if any(x.op in ("sunkbuf", "utf8") for x in subterms(args[0])):
                    s.w = s.w.put(flerr=mklist(items_of(s.w.get("flerr") or EMPTY) + [key]))
                else:
                    s.w = s.w.put(mf="attribute")
            st.labels.append(("call-ok", base, self_p, args[0]))
            s.labels.append(("call-err", base, self_p, args[0]))
            return eng.set_dest(st, dest, eng.ok(mk("val", key)), tgt) + eng.set_dest(s, dest, eng.err(mk("errof", key)), tgt)

        if last == "from_str_radix" and len(args) == 2 and base.startswith("std::") or last == "from_str_radix" and "num::" in base:
            ty = re.sub(r".*<impl (\w+)>.*", r"\1", decl)
            return self.parse(eng, st, "%s@%s" % (ty, show(args[1])), self.val(eng, st, args[0]), dest, tgt)

        # ---- xml reader
        if base == "xml::EventReader::next" or base == "xml::reader::EventReader::next":
            return self.read(eng, st, args, dest, tgt)
        if base.endswith("reader::Error::msg"):
            return done(mk("call", "msg", tuple(args)))
        if base.endswith("reader::XmlEvent::as_writer_event"):
            return self.as_writer(eng, st, args[0], dest, tgt)

        # ---- xml writer
        if base in ("xml::EventWriter::write", "xml::writer::EventWriter::write"):
            return self.write(eng, st, args, dest, tgt)
        if base.endswith("writer::XmlEvent::characters"):
            return done(adtW("Characters", args[0]))
        if base.endswith("writer::XmlEvent::cdata"):
            return done(adtW("CData", args[0]))
        if base.endswith("writer::XmlEvent::comment"):
            return done(adtW("Comment", args[0]))
        if base.endswith("writer::XmlEvent::start_element"):
            return done(mk("startb", args[0], EMPTY, EMPTY))
        if base.endswith("writer::XmlEvent::end_element"):
            return done(mk("endb"))
        if base.endswith("StartElementBuilder::attr"):
            b = args[0]
            if b.op == "startb":
                return done(mk("startb", b.a[0], mklist(items_of(b.a[1]) + [mk("attr", args[1], args[2])]), b.a[2]))
        if base.endswith("StartElementBuilder::ns"):
            b = args[0]
            if b.op == "startb":
                return done(mk("startb", b.a[0], b.a[1], mklist(items_of(b.a[2]) + [mk("nsd", args[1], args[2])])))
        if base.endswith("StartElementBuilder::default_ns"):
            b = args[0]
            if b.op == "startb":
                return done(mk("startb", b.a[0], b.a[1], mklist(items_of(b.a[2]) + [mk("nsd", S(""), args[1])])))
        if base.endswith("namespace::Namespace::empty"):
            return done(EMPTY)
        if base.endswith("namespace::Namespace::put") or base.endswith("namespace::Namespace::force_put"):
            self.upd(eng, st, args[0], lambda l: mklist(items_of(l) + [mk("nsd", args[1], args[2])]))
            return done(mk("any", eng.ctx(st, "put")))
        if base.endswith("name::OwnedName::local"):
            return done(args[0])
        if base.endswith("name::Name::local") or base.endswith("Name::from") and "xml" in base:
            return done(args[0])
        if base.endswith("attribute::OwnedAttribute::new") or base.endswith("attribute::Attribute::new"):
            return done(mk("attr", args[0], args[1]))
        if base.endswith(("attribute::OwnedAttribute::borrow", "attribute::Attribute::to_owned", "name::OwnedName::borrow",
                          "name::Name::to_owned")):
            return done(args[0])
        if base.endswith("ToOwned::to_owned") or base.endswith("Clone::clone") or base.endswith("::clone_from"):
            if last == "clone_from":
                self.setref(eng, st, args[0], args[1])
                return done(UNIT)
            if args[0].op not in ("clo", "fn"):
                return done(args[0])
        if base.startswith("xml::") and "id" in cal and ("EmitterConfig" in base or "ParserConfig" in base):
            return None             # configuration builders are plain code
        if base.startswith("xml::"):
            return self.xml_misc(eng, st, cal, base, last, args, dest, tgt, t)

        # ---- logging
        if base.startswith("log::"):
            if tgt is None:
                return None
            return done(mk("call", "log", ()))
        if last in ("le", "lt", "ge", "gt", "partial_cmp", "cmp") and "log::" in self_p:
            return done(FALSE)

        # ---- operations of std that panic on some arguments
        if last in self.MAY_PANIC and (self.stringy(targs[0]) if targs else False) or last in self.MAY_PANIC and base.startswith(
                ("std::vec::", "std::slice::", "std::str::", "core::str::", "std::string::", "std::ops::Index")):
            safe = self.in_bounds(eng, st, last, args, base.startswith(("std::str", "core::str", "std::string")) or bool(targs) and self.stringy(targs[0]))
            out = []
            for s, b in eng.truth_states(st, safe):
                if not b:
                    eng.terminal(s, "panic", "%s out of range" % base, s.frames[-1].fn.name, cal.get("line"))
                    continue
                r = self.indexed(eng, s, last, args)
                if r is not None:
                    out += eng.set_dest(s, dest, r, tgt)
                elif last == "insert" and args[0].op == "ref" and not base.startswith("std::string"):
                    v = self.getref(eng, s, args[0])
                    self.setref(eng, s, args[0], pushed(s, v, args[2]) if args[1] is self.length(v) else mk("call", "insert", (v, args[1], args[2])))
                    out += eng.set_dest(s, dest, UNIT, tgt)
                else:
                    old = [self.val(eng, s, a) for a in args]
                    if args[0].op == "ref":
                        self.setref(eng, s, args[0], mk("call", last + "'", tuple(old)))
                    out += eng.set_dest(s, dest, UNIT if self.p.types[t[3][2]]["s"] == "()" else mk("call", last, tuple(old)), tgt)
            return out

        # ---- comparisons
        if base in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            e = self.eqv(eng, st, args[0], args[1], targs)
            if last == "ne":
                e = B(not e.a[0]) if e.op == "bool" else (e.a[0] if e.op == "not" else mk("not", e))
            return done(e)

        # ---- strings
        r = self.strings(eng, st, cal, base, last, self_p, targs, args, dest, tgt)
        if r is not None:
            return r
        # ---- formatting
        r = self.fmt(eng, st, cal, base, last, self_p, targs, args, dest, tgt)
        if r is not None:
            return r
        # ---- vectors and iterators
        r = self.vecs(eng, st, cal, base, last, self_s, self_p, targs, args, dest, tgt)
        if r is not None:
            return r
        # ---- memory
        if base == "std::mem::replace":
            old = self.getref(eng, st, args[0])
            self.setref(eng, st, args[0], args[1])
            return done(old)
        if base == "std::mem::swap":
            a, b = self.getref(eng, st, args[0]), self.getref(eng, st, args[1])
            self.setref(eng, st, args[0], b)
            self.setref(eng, st, args[1], a)
            return done(UNIT)
        if base in ("std::mem::drop", "std::mem::forget"):
            return done(UNIT)
        if last in ("unreachable_unchecked",):
            return []
        if last == "new_uninit" and "std::boxed::Box" in base:        # vec![..]: the buffer the elements are written to
            cell = (len(st.frames) - 1, "box:" + str(eng.ctx(st)))
            st.store[cell] = mk("tup", (UNDEF, mk("tup", (UNDEF,))))
            return eng.set_dest(st, dest, mk("ref", cell[0], cell[1], ()), tgt)
        if last == "box_assume_init_into_vec_unsafe" and args[0].op == "ref":
            v = self.getref(eng, st, args[0])
            if v.op == "tup" and len(v.a[0]) == 2 and v.a[0][1].op == "tup" and v.a[0][1].a[0][0].op == "list":
                return eng.set_dest(st, dest, v.a[0][1].a[0][0], tgt)
        if last == "new" and base == "std::boxed::Box::new":
            return done(args[0])
        if base == "std::default::Default::default" and "id" not in cal:
            v = self.default(eng, self_p, targs[0])
            if v is not None:
                return done(v)
        return None

    MAY_PANIC = {"index", "index_mut", "split_at", "split_at_mut", "remove", "swap_remove", "insert", "insert_str", "drain", "split_off",
                 "replace_range", "copy_from_slice", "clone_from_slice", "swap", "chunks", "windows", "chunks_exact"}

    @staticmethod
    def length(v, isstr=False):
        if v.op == "list" and not any(x.op in ("all", "part", "need", "some") for x in v.a[0]):
            return I(len(v.a[0]))
        if v.op == "str":
            return I(len(v.a[0].encode()))
        return mk("call", "strlen" if isstr else "len", (v,))

    def in_bounds(self, eng, st, last, args, isstr):
        """condition under which the operation does not panic"""
        v = self.val(eng, st, args[0])
        i = self.val(eng, st, args[1]) if len(args) > 1 else UNDEF
        n = self.length(v, isstr)
        if i.op == "adt" and i.a[1] == "RangeFull" or i.op == "zst" and "RangeFull" in i.a[0]:
            return TRUE
        if i.op == "adt" and i.a[1] in ("RangeTo", "RangeFrom") and (i.a[3][0] is I(0) or i.a[3][0] is n):
            return TRUE
        if last in ("insert", "insert_str", "split_at", "split_off") and (i is n or i is I(0)):
            return TRUE
        if i.op == "int" and n.op == "int" and v.op == "list":
            return B(i.a[0] < n.a[0] or last == "insert" and i.a[0] == n.a[0])
        if i.op == "ixof" and i.a[0] is v:
            return TRUE
        if last in ("index", "index_mut") and i.op != "adt":
            return eng.binop(st, "Lt", i, n, None)
        return mk("inbounds", v, i)

    def indexed(self, eng, st, last, args):
        if last not in ("index", "index_mut"):
            return None
        v, i = self.val(eng, st, args[0]), self.val(eng, st, args[1])
        if i.op == "adt" and i.a[1] == "RangeFull" or i.op == "zst" and "RangeFull" in i.a[0] or i.op == "adt" and i.a[1] == "RangeFrom" and i.a[3][0] is I(0):
            return args[0] if last == "index_mut" else v
        if last == "index_mut":
            return None
        if i.op == "ixof" and i.a[0] is v:
            return i.a[1]
        if i.op == "adt":
            return mk("call", "slice", (v, i))
        if v.op == "list" and i.op == "int" and i.a[0] < len(v.a[0]):
            return v.a[0][i.a[0]]
        return eng.idx(v, i)

    # ---------------------------------------------------------------- helpers
    def getref(self, eng, st, r):
        if r.op == "ref":
            return eng.project(st, eng.get_cell(st, (r.a[0], r.a[1])), list(r.a[2]))
        return r

    def setref(self, eng, st, r, v):
        if r.op == "ref":
            eng.write_cell(st, (r.a[0], r.a[1]), list(r.a[2]), v)
        else:
            st.labels.append(("opaque-write", r))

    def upd(self, eng, st, r, f):
        self.setref(eng, st, r, f(self.getref(eng, st, r)))

    def fork(self, eng, st, dest, tgt, alts):
        """alternatives (value, label)"""
        out = []
        for v, lab in alts:
            s = st.clone()
            if lab is not None:
                s.labels.append(lab)
            out += eng.set_dest(s, dest, v, tgt)
        return out

    def default(self, eng, s, tid):
        if s in STRINGY:
            return S("")
        if s in INTS:
            return I(0)
        if s == "bool":
            return FALSE
        if s.startswith("std::option::Option<"):
            return eng.NONE
        if s.startswith("std::vec::Vec<"):
            return EMPTY
        return mk("call", "default:" + s, ())

    def eqv(self, eng, st, a, b, targs):
        a, b = self.val(eng, st, a), self.val(eng, st, b)
        return eng.eq(a, b)

    def val(self, eng, st, v):
        n = 0
        while v.op == "ref" and n < 5:
            v = self.getref(eng, st, v)
            n += 1
        return v

    # ---------------------------------------------------------------- strings
    STR_ID = {"as_str", "as_mut_str", "into_boxed_str", "into_string", "to_owned", "as_string", "borrow", "as_ref",
              "deref", "into_owned", "as_bytes", "into_bytes", "from_utf8_unchecked"}

    def strings(self, eng, st, cal, base, last, self_p, targs, args, dest, tgt):
        done = lambda v: eng.set_dest(st, dest, v, tgt)
        if base.startswith(("std::vec::", "std::slice::")):
            return None
        isstr = base.startswith(("std::string::String", "std::str::", "core::str::")) or self_p in STRINGY \
            or self_p.startswith("std::borrow::Cow<") or "impl str" in base
        if base == "std::str::FromStr::from_str" or base.endswith("str>::parse") or last == "parse" and "impl str" in base:
            ty = self_p
            s = self.val(eng, st, args[0])
            if ty in STRINGY:
                return done(eng.ok(s))
            if ty in SCALARS:
                return self.parse(eng, st, ty, s, dest, tgt)
            if "id" in cal and base == "std::str::FromStr::from_str":
                return None
            if base == "std::str::FromStr::from_str" or "id" not in cal:
                key = mk("fn", "from_str", ty, s)
                return self.fork(eng, st, dest, tgt, [(eng.ok(mk("val", key)), ("call-ok", "from_str", ty, s)),
                                                      (eng.err(mk("errof", key)), ("call-err", "from_str", ty, s))])
            return None
        if base == "std::string::ToString::to_string":
            v = self.val(eng, st, args[0])
            if self_p in STRINGY or self_p.startswith("std::borrow::Cow<'_, str"):
                return done(self.cow(v))
            if v.op in ("str", "fmt"):
                return done(v)
            if v.op == "fmtargs":
                return done(mkfmt(v.a[0]))
            return done(self.disp(v))
        if base in ("std::convert::From::from", "std::convert::Into::into", "std::convert::AsRef::as_ref",
                    "std::borrow::Borrow::borrow", "std::ops::Deref::deref", "std::ops::DerefMut::deref_mut",
                    "std::borrow::BorrowMut::borrow_mut", "std::convert::AsMut::as_mut"):
            if len(targs) >= 1 and "id" not in cal:
                if self.ts(targs[0]).startswith("xml::") or "dyn std::error::Error" in self.ts(targs[0]):
                    if base.endswith("From::from") and self.ts(targs[0]).startswith("xml::writer::XmlEvent"):
                        return done(self.to_event(args[0]))
                    return done(args[0])
                v = args[0]
                if self_p.startswith("std::borrow::Cow<") and base == "std::convert::From::from":
                    return done(v)
                return done(self.cow(v))
            return None
        if not isstr:
            return None
        if last in ("new", "with_capacity") and base.startswith("std::string::String"):
            return done(S(""))
        if last in self.STR_ID and args:
            return done(self.cow(self.val(eng, st, args[0]) if args[0].op != "ref" or last != "as_mut_str" else args[0]))
        if last == "is_empty":
            v = self.val(eng, st, args[0])
            if v.op == "fmt" and any(p.op == "str" for p in v.a[0]):
                return done(FALSE)
            return done(eng.eq(v, S("")))
        if last in ("push_str", "push", "write_str", "write_char") and args[0].op == "ref":
            self.upd(eng, st, args[0], lambda v: appended(st, v, args[1] if args[1].op != "char" else S(args[1].a[0] if isinstance(args[1].a[0], str) else chr(args[1].a[0]))))
            return done(UNIT if last.startswith("push") else eng.ok(UNIT))
        if base == "std::ops::Add::add":
            return done(mkfmt([self.val(eng, st, args[0]), self.val(eng, st, args[1])]))
        if base == "std::ops::AddAssign::add_assign" and args[0].op == "ref":
            self.upd(eng, st, args[0], lambda v: appended(st, v, args[1]))
            return done(UNIT)
        if last == "clear" and args and args[0].op == "ref":
            self.setref(eng, st, args[0], S(""))
            return done(UNIT)
        if last in ("from_utf8", "from_utf8_lossy"):
            v = self.val(eng, st, args[0])
            k = mk("utf8", v)
            if last == "from_utf8_lossy":
                return done(k)
            # the bytes come from the xml writer / a &str: valid UTF-8 is an invariant of the writer
            return done(eng.ok(k))
        if last == "len":
            v = self.val(eng, st, args[0])
            return done(I(len(v.a[0].encode())) if v.op == "str" else mk("call", "strlen", (v,)))
        if last in ("split_whitespace", "chars", "lines", "bytes", "char_indices", "split", "split_ascii_whitespace"):
            return done(mk("iter", mk("call", last, tuple(self.val(eng, st, a) for a in args)), 0))
        if base == "std::default::Default::default":
            return done(S(""))
        if base in ("std::fmt::Display::fmt", "std::fmt::Debug::fmt"):
            return None
        if base.startswith("std::iter::"):
            return None
        if "id" in cal and not base.startswith(("std::str", "core::str", "std::string")):
            return None
        if tgt is None:
            return None
        rt = None
        if any(a.op == "ref" for a in args):
            return None
        return done(mk("call", base.split("::")[-1], tuple(self.val(eng, st, a) for a in args)))

    def cow(self, v):
        if v.op == "adt" and v.a[0] == "std::borrow::Cow":
            return v.a[3][0]
        return v

    def parse(self, eng, st, ty, s, dest, tgt):
        okv = mk("parse", ty, s)
        if s.op == "str":
            x = s.a[0]
            if ty == "bool" and x in ("true", "false"):
                return eng.set_dest(st, dest, eng.ok(B(x == "true")), tgt)
            if x == "" or ty == "bool":
                return eng.set_dest(st, dest, eng.err(mk("perr", ty, s)), tgt)
        if ty == "bool" and s.op != "str":
            # parse of a value known not to be a literal is still open; identical facts decide it
            pass
        atom = mk("parses", ty, s)
        out = []
        for s2, b in eng.truth_states(st, atom):
            v = eng.ok(okv) if b else eng.err(mk("perr", ty, s))
            out += eng.set_dest(s2, dest, v, tgt)
        return out

    # ---------------------------------------------------------------- formatting
    def disp(self, v, dbg=False, spec=None):
        if v.op in ("str", "fmt") and not dbg and not spec:
            return v
        if spec:
            return mk("fspec", spec, v)
        return mk("dbg" if dbg else "disp", v)

    def fmt(self, eng, st, cal, base, last, self_p, targs, args, dest, tgt):
        done = lambda v: eng.set_dest(st, dest, v, tgt)
        if "fmt::rt::Argument::" in base:
            kind = last.replace("new_", "")
            v = self.val(eng, st, args[0])
            if kind == "display" and targs and (self_p in STRINGY or self_p.startswith("std::borrow::Cow<'_, str")):
                return done(mk("farg", kind, self.cow(v), True))
            return done(mk("farg", kind, v, False))
        if base in ("std::fmt::Arguments::from_str_nonconst", "std::fmt::Arguments::from_str", "std::fmt::Arguments::new_const"):
            v = args[0]
            if v.op == "list":
                return done(mk("fmtargs", tuple(v.a[0])))
            return done(mk("fmtargs", (v,)))
        if base == "std::fmt::Arguments::new" or base == "std::fmt::Arguments::new_v1":
            tpl, fa = args[0], args[1]
            if tpl.op in ("bytes", "list"):
                bs = tpl.a[0] if tpl.op == "bytes" else tuple(x.a[0] for x in tpl.a[0])
                return done(mk("fmtargs", self.template(bs, fa.a[0] if fa.op == "list" else ())))
            return done(mk("fmtargs", (mk("call", "fmt", tuple(args)),)))
        if base in ("std::fmt::format", "std::fmt::format::format_inner"):
            v = args[0]
            if v.op == "fmtargs":
                return done(mkfmt(v.a[0]))
            return done(mk("call", "format", (v,)))
        if base in ("std::fmt::Write::write_fmt",) and args[0].op == "ref":
            v = args[1]
            self.upd(eng, st, args[0], lambda o: mkfmt([o] + (list(v.a[0]) if v.op == "fmtargs" else [v])))
            return done(eng.ok(UNIT))
        if base.startswith("std::fmt::Formatter::") and last in ("write_fmt", "write_str", "pad") and tgt is not None:
            v = args[1]
            parts = v.a[0] if v.op == "fmtargs" else (v,)
            self.mon.fmt_out(eng, st, mkfmt(parts))
            return self.fork(eng, st, dest, tgt, [(eng.ok(UNIT), ("fmtout", mkfmt(parts), True)),
                                                  (eng.err(mk("fmterr")), ("fmtout", mkfmt(parts), False))])
        if base.startswith(("std::fmt::Display::fmt", "std::fmt::UpperHex::fmt", "std::fmt::LowerHex::fmt", "std::fmt::Debug::fmt",
                            "std::fmt::Octal::fmt", "std::fmt::Binary::fmt", "std::fmt::LowerExp::fmt", "std::fmt::UpperExp::fmt")):
            kind = base.split("::")[-2]
            if "id" in cal:
                return None
            v = self.val(eng, st, args[0])
            if kind == "Display":
                x = v if self_p in STRINGY else self.disp(v)
            else:
                x = mk("fspec", kind, v)
            self.mon.fmt_out(eng, st, x)
            return self.fork(eng, st, dest, tgt, [(eng.ok(UNIT), ("fmtout", x, True)), (eng.err(mk("fmterr")), ("fmtout", x, False))])
        return None

    def template(self, bs, fargs):
        out, i, na = [], 0, 0
        n = len(bs)
        while i < n:
            b = bs[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(S(bytes(bs[i:i + b]).decode("utf8", "replace")))
                i += b
            elif b == 0x80:
                l = bs[i] | bs[i + 1] << 8
                i += 2
                out.append(S(bytes(bs[i:i + l]).decode("utf8", "replace")))
                i += l
            else:
                spec = []
                arg = na
                for bit, size, nm in ((1, 4, "flags"), (2, 2, "width"), (4, 2, "prec"), (8, 2, "arg")):
                    if b & bit:
                        v = int.from_bytes(bytes(bs[i:i + size]), "little")
                        i += size
                        if nm == "arg":
                            arg = v
                        else:
                            spec.append("%s=%d" % (nm, v))
                na = arg + 1
                a = fargs[arg] if arg < len(fargs) else mk("opq", "arg")
                if a.op == "farg":
                    kind, v, isstr = a.a
                    if kind == "display" and isstr and not spec:
                        out.append(v)
                    elif kind == "display":
                        out.append(self.disp(v, spec=",".join(spec) or None))
                    elif kind == "debug":
                        out.append(mk("dbg", v))
                    else:
                        out.append(mk("fspec", kind + (":" + ",".join(spec) if spec else ""), v))
                else:
                    out.append(mk("disp", a))
        return tuple(out)

    # ---------------------------------------------------------------- vectors / iterators
    ITER_MODELS = {"find", "any", "all", "position", "for_each", "find_map", "fold", "count", "last", "nth", "try_for_each",
                   "try_fold", "map_while"}

    def is_list_type(self, s):
        return s.startswith(("std::vec::Vec<", "[", "std::boxed::Box<["))

    def vecs(self, eng, st, cal, base, last, self_s, self_p, targs, args, dest, tgt):
        done = lambda v: eng.set_dest(st, dest, v, tgt)
        val = lambda v: self.val(eng, st, v)
        if base.startswith("std::vec::Vec::") or base.startswith("std::slice::") or self.is_list_type(self_p):
            if last in ("new", "with_capacity", "default") and base.startswith("std::vec::Vec") or base == "std::default::Default::default":
                return done(EMPTY)
            if last == "push" and args[0].op == "ref":
                self.upd(eng, st, args[0], lambda l: pushed(st, l, args[1]))
                st.labels.append(("push", args[1]))
                return done(UNIT)
            if last == "clear" and args[0].op == "ref":
                self.setref(eng, st, args[0], EMPTY)
                return done(UNIT)
            if last == "append" and args[0].op == "ref":
                o = self.getref(eng, st, args[1])
                self.upd(eng, st, args[0], lambda l: mklist(items_of(l) + items_of(o)))
                self.setref(eng, st, args[1], EMPTY)
                return done(UNIT)
            if last in ("extend", "extend_from_slice") and args[0].op == "ref":
                o = val(args[1])
                if o.op == "iter":
                    o = mklist(items_of(o.a[0])[o.a[1]:]) if o.a[1] else o.a[0]
                if o.op in ("adt", "clo") and "alt" in cal:
                    return eng.enter(st, cal["alt"], args, dest, tgt)
                self.upd(eng, st, args[0], lambda l: mklist(items_of(l) + items_of(o)))
                return done(UNIT)
            if last in ("len",):
                v = val(args[0])
                if v.op == "list" and not any(x.op == "all" for x in v.a[0]):
                    return done(I(len(v.a[0])))
                return done(mk("call", "len", (v,)))
            if last == "is_empty":
                v = val(args[0])
                if v.op == "list":
                    if not v.a[0]:
                        return done(TRUE)
                    if any(x.op != "all" for x in v.a[0]):
                        return done(FALSE)
                return done(eng.eq(v, EMPTY))
            if last in ("iter", "into_iter") or last == "new" and base.startswith("std::slice::Iter"):
                v = val(args[0])
                st.labels.append(("iter-new", v))
                return done(mk("iter", v, 0))
            if last in ("deref", "as_slice", "to_vec", "into_vec", "into_boxed_slice", "as_ref", "borrow", "into_owned", "from",
                        "box_assume_init_into_vec_unsafe", "deref_mut", "as_mut_slice"):
                return done(val(args[0]) if last != "deref_mut" else args[0])
            if base == "std::iter::FromIterator::from_iter":
                if "alt" in cal:
                    return eng.enter(st, cal["alt"], args, dest, tgt)
            if last in ("first", "last", "get", "contains", "concat", "join", "starts_with", "iter_mut", "pop", "remove", "swap_remove"):
                v = val(args[0])
                if last == "get" and len(args) > 1 and val(args[1]).op == "ixof" and val(args[1]).a[0] is v:
                    return done(eng.some(val(args[1]).a[1]))
                if last == "first" and v.op == "list" and v.a[0] and v.a[0][0].op != "all":
                    return done(eng.some(v.a[0][0]))
                if last == "last" and v.op == "list" and v.a[0] and v.a[0][-1].op != "all":
                    return done(eng.some(v.a[0][-1]))
                if last in ("first", "last", "pop") and v.op == "list" and not v.a[0]:
                    return done(eng.NONE)
                if last == "pop" and v.op == "list" and v.a[0] and v.a[0][-1].op != "all" and args[0].op == "ref":
                    self.setref(eng, st, args[0], mklist(list(v.a[0][:-1])))
                    return done(eng.some(v.a[0][-1]))
                if args[0].op == "ref" and last in ("pop", "remove", "swap_remove", "iter_mut"):
                    return None
                return done(mk("call", last, tuple(val(a) for a in args)))
        if base.startswith("std::borrow::Cow::") and args:
            return done(self.cow(val(args[0])))
        if base == "std::iter::IntoIterator::into_iter" and "id" not in cal:
            v = val(args[0])
            if v.op == "iter":
                return done(v)
            st.labels.append(("iter-new", v))
            return done(mk("iter", v, 0))
        if base == "std::iter::Iterator::next" and ("id" not in cal or self_p.startswith("std::ops::Range<")):
            return self.next(eng, st, args, dest, tgt)
        if base == "std::iter::DoubleEndedIterator::next_back" and args[0].op == "ref" and val(args[0]).op == "iter":
            it = val(args[0])
            L = it.a[0]
            if L.op == "list" and it.a[1] == 0 and not any(x.op == "all" for x in L.a[0]):
                self.setref(eng, st, args[0], mk("iter", mklist(list(L.a[0][:-1])), 0))
                return done(eng.some(L.a[0][-1]) if L.a[0] else eng.NONE)
            if L.op != "attrs" and not (L.op == "call" and L.a[0] == "rev"):      # the order of attributes means nothing
                self.setref(eng, st, args[0], mk("iter", mk("call", "rev", (L,)), *it.a[1:]))
            return self.next(eng, st, args, dest, tgt)
        if base.startswith("std::iter::Iterator::") and "alt" in cal:
            return eng.enter(st, cal["alt"], args, dest, tgt)
        if base == "std::iter::FromIterator::from_iter" and "alt" in cal and self_p in STRINGY:
            return eng.enter(st, cal["alt"], args, dest, tgt)
        if base == "std::iter::Extend::extend" and args[0].op == "ref":
            o = val(args[1])
            if o.op == "iter":
                o = mklist(items_of(o.a[0])[o.a[1]:]) if o.a[1] else o.a[0]
            if o.op in ("adt", "clo") and "alt" in cal:
                return eng.enter(st, cal["alt"], args, dest, tgt)
            self.upd(eng, st, args[0], lambda l: mklist(items_of(l) + items_of(o)))
            return done(UNIT)
        return None

    def next(self, eng, st, args, dest, tgt):
        r = args[0]
        it = self.getref(eng, st, r)
        ix = False
        if it.op == "adt" and it.a[1] == "Range":
            a, b = it.a[3]
            if a.op == b.op == "int":
                if a.a[0] >= b.a[0]:
                    return eng.set_dest(st, dest, eng.NONE, tgt)
                self.setref(eng, st, r, mk("adt", *it.a[:3], (I(a.a[0] + 1), b)))
                return eng.set_dest(st, dest, eng.some(a), tgt)
            if a is I(0) and b.op == "call" and b.a[0] == "len":
                it = mk("iter", b.a[1][0], 0, True)
            else:
                it = mk("iter", mk("call", "range", (a, b)), 0)
        if it.op != "iter":
            if it.op == "undef":
                raise Unsupported("next on undefined iterator")
            st.labels.append(("opaque", "Iterator::next"))
            e = self.fresh(eng, st, mk("elem", mk("call", "iter", (it,)), eng.ctx(st)))
            return self.fork(eng, st, dest, tgt, [(eng.some(e), ("iter-next", e)), (eng.NONE, ("iter-done", it))])
        L, k = it.a[:2]
        ix = len(it.a) > 2 and it.a[2] is True      # runs over the indices of L
        ph = it.a[2] if len(it.a) > 2 and not ix else 0
        out = []
        if L.op == "list" and not ix:
            if k >= len(L.a[0]):
                return eng.set_dest(st, dest, eng.NONE, tgt)
            x = L.a[0][k]
            if x.op != "all":
                self.setref(eng, st, r, mk("iter", L, k + 1))
                return eng.set_dest(st, dest, eng.some(x), tgt)
            sub, nxt, after = x.a[0], (lambda p: mk("iter", L, k, p)), mk("iter", L, k + 1)
        else:
            sub, ph, nxt, after = L, k, (lambda p: mk("iter", L, p, True) if ix else mk("iter", L, p)), mk("iter", EMPTY, 0)
        for s, e, p in self.mon.iter_next(eng, st.clone(), sub, ph, eng.ctx(st)):
            s.labels.append(("iter-next", e, sub))
            self.setref(eng, s, r, nxt(p))
            iterated(s, sub, False, ph == 0)
            out += eng.set_dest(s, dest, eng.some(mk("ixof", L, e) if ix else e), tgt)
        for s in self.mon.iter_done(eng, st.clone(), sub, ph):
            s.labels.append(("iter-done", sub))
            self.setref(eng, s, r, after)
            iterated(s, sub, True, False)
            if L.op == "list":
                out += self.next(eng, s, args, dest, tgt)
            else:
                out += eng.set_dest(s, dest, eng.NONE, tgt)
        return out

    # ---------------------------------------------------------------- xml
    def xml_misc(self, eng, st, cal, base, last, args, dest, tgt, t):
        done = lambda v: eng.set_dest(st, dest, v, tgt)
        if last == "new_with_config" and "Reader" in base or last in ("new", "from_str") and "EventReader" in base:
            src, cfg = args[0], args[1] if len(args) > 1 else mk("str", "default-config")
            while src.op == "call" and len(src.a[1]) == 1 and re.match(r"std::io::(BufReader|Cursor)::<[^:]*>::new$", src.a[0]):
                src = src.a[1][0]       # the same bytes
            if src.op == "src":
                return done(mk("reader", cfg))
            return done(mk("sreader", src, cfg))
        if "EventWriter" in base and last in ("new", "new_with_config"):
            sink, cfg = args[0], args[1] if len(args) > 1 else mk("str", "default-config")
            if sink.op == "sink":
                return done(mk("writer", cfg))
            return done(mk("swriter", sink, cfg))
        if "EventWriter" in base and last == "into_inner":
            v = args[0]
            if v.op == "writer":
                return done(mk("sink"))
            if v.op == "swriter":
                return done(v.a[0])
        if last in ("get_ref", "inner_ref", "into_inner", "get_mut", "inner_mut"):
            return done(mk("call", base, tuple(args)))
        # config builders and everything else: uninterpreted
        if tgt is None:
            return None
        return done(mk("call", base, tuple(self.val(eng, st, a) if a.op == "ref" else a for a in args)))

    def to_event(self, e):
        if e.op == "startb":
            return adtW("StartElement", e.a[0], mk("adt", "std::borrow::Cow", "Owned", 1, (e.a[1],)),
                        mk("adt", "std::borrow::Cow", "Owned", 1, (e.a[2],)))
        if e.op == "endb":
            return adtW("EndElement", mk("adt", "std::option::Option", "None", 0, ()))
        if e.op in ("str", "fmt") or e.op == "fld" or e.op == "text":
            return adtW("Characters", e)
        return e

    def canon(self, e):
        """canonical output event"""
        e = self.to_event(e)
        if e.op == "adt" and e.a[0].endswith("XmlEvent"):
            k, fs = e.a[1], e.a[3]
            if k == "StartElement":
                return ("start", fs[0], self.cow(fs[1]), self.cow(fs[2]))
            if k == "EndElement":
                return ("end",)
            if k == "Characters":
                return ("chars", fs[0])
            if k == "CData":
                return ("cdata", fs[0])
            return ("other:" + k,) + tuple(fs)
        return ("unknown", e)

    def write(self, eng, st, args, dest, tgt):
        w = self.getref(eng, st, args[0])
        ev = self.canon(args[1])
        okv, errv = eng.ok(UNIT), eng.err(mk("werr"))
        if w.op == "swriter":
            sink = w.a[0]
            s = st.clone()
            st.labels.append(("swrite", ev, True))
            if sink.op == "ref":
                self.upd(eng, st, sink, (lambda l: mk("sunkbuf")) if self.mon.abstract_sinks else
                         lambda l: mklist(items_of(l) + [mk("out", mk("e", *ev))]))
            s.labels.append(("swrite", ev, False))
            return (eng.set_dest(st, dest, okv, tgt) if self.mon.sunk(eng, st, ev, True) else []) + (
                eng.set_dest(s, dest, errv, tgt) if self.mon.sunk(eng, s, ev, False) else [])
        if w.op != "writer":
            st.labels.append(("opaque", "write to an unknown writer"))
        return self.emit(eng, st, ev, dest, tgt)

    def emit(self, eng, st, ev, dest, tgt):
        """one event (or a nested value) goes to the primary writer; it can fail"""
        okv, errv = eng.ok(UNIT), eng.err(mk("werr"))
        out = []
        for st in self.mon.write(eng, st, ev):
            s = st.clone()
            st.labels.append(("write", ev, True))
            s.labels.append(("write", ev, False))
            s.w = s.w.copy(wr="err")
            out += eng.set_dest(st, dest, okv, tgt) + eng.set_dest(s, dest, errv, tgt)
        return out

    def nested_ser(self, eng, st, cal, args, dest, tgt, ty):
        if self.descend_all or ty == self.target and not any(
                "YaSerialize" in f.fn.full and f.fn.name == "serialize" for f in st.frames):
            return None
        if "alt" in cal:
            return eng.enter(st, cal["alt"], args, dest, tgt)
        raise Unsupported("nested serialize of " + ty)

    def nested_de(self, eng, st, cal, args, dest, tgt, ty):
        v = self.val(eng, st, args[0])
        d = self.config_fields(v) if v.op == "adt" else None
        r = next((x for x in (d or {}).values() if x.op == "sreader"), None)
        if r is not None and r.a[0].op == "utf8":
            # a cursor over collected content: summarised by how far into it the cursor stands
            n = r.a[2].a[0] if len(r.a) > 2 else 0
            ahead = sum(1 for x in d.values() if x.op == "adt" and x.a[1] == "Some")
            deep = [x for x in d.values() if lin_of(x)]
            key = mk("fn", "nested", ty, r.a[0], I(n - ahead), deep[0] if len(deep) == 1 else UNDEF)
            s = st.clone()
            s.w = s.w.put(flerr=mklist(items_of(s.w.get("flerr") or EMPTY) + [key]))
            st.labels.append(("call-ok", "nested", ty, r.a[0]))
            s.labels.append(("call-err", "nested", ty, r.a[0]))
            return eng.set_dest(st, dest, eng.ok(mk("val", key)), tgt) + eng.set_dest(s, dest, eng.err(mk("errof", key)), tgt)
        if self.mon.nested_from is not None:
            self.mon.nested_from(eng, st, ty, v)
            key = mk("fn", "read", ty, I(len(st.w.get("reads")) - 1))
            s = st.clone()
            st.w = st.w.put(readok=True)
            return eng.set_dest(st, dest, eng.ok(mk("val", key)), tgt) + eng.set_dest(s, dest, eng.err(mk("errof", key)), tgt)
        if self.descend_all or ty == self.target and not any(
                "YaDeserialize" in f.fn.full and f.fn.name == "deserialize" for f in st.frames):
            return None
        if "alt" in cal:
            return eng.enter(st, cal["alt"], args, dest, tgt)
        raise Unsupported("nested deserialize of " + ty)

    # ---------------------------------------------------------------- reader
    PARSER_DEFAULTS = {"trim_whitespace": False, "whitespace_to_characters": False, "cdata_to_characters": False,
                       "ignore_comments": True, "coalesce_characters": True}

    def config_fields(self, cfg):
        """field name -> value of a configuration struct; None if its value is not known field by field"""
        if cfg.op != "adt":
            return None
        for t in self.p.types:
            if t.get("path") == cfg.a[0] and t.get("vs"):
                return {f["n"]: v for f, v in zip(t["vs"][cfg.a[2]]["fs"], cfg.a[3])}
        return None

    def parser_flags(self, cfg):
        """the parser configuration a reader was created with: flag -> bool, or None where it is not known"""
        f = dict(self.PARSER_DEFAULTS)
        if cfg.op == "str":
            return f
        d = self.config_fields(cfg)
        if d is not None and "c" in d:
            d.update(self.config_fields(d["c"]) or {})
        for k in f:
            v = (d or {}).get(k)
            f[k] = v.a[0] if v is not None and v.op == "bool" else None
        return f

    def read(self, eng, st, args, dest, tgt):
        r = self.getref(eng, st, args[0])
        if r.op != "reader":
            n = r.a[2].a[0] if r.op == "sreader" and len(r.a) > 2 else 0
            if r.op == "sreader" and r.a[0].op == "utf8" and n < 2:
                # collected content: the tags around it come first
                self.setref(eng, st, args[0], mk("sreader", r.a[0], r.a[1], I(n + 1)))
                E = mk("sev", n)
                st.labels.append(("sread",))
                return eng.set_dest(st, dest, eng.ok(adtR("StartElement", name_of(E), mk("attrs", E), mk("nsmap", E))), tgt)
            k = mk("sread", r, eng.ctx(st))
            st.w = st.w.put(sreads=(st.w.get("sreads") or 0) + 1)
            return self.fork(eng, st, dest, tgt, [(eng.ok(k), ("sread",)), (eng.err(mk("errof", k)), ("sread-err",))])
        mon = self.mon
        cfg = self.parser_flags(r.a[0])
        w = st.w
        out = []
        cid = eng.ctx(st, "rd")

        def give(s, ev):
            nonlocal out
            mon.delivered(eng, s, ev)
            out += eng.set_dest(s, dest, eng.ok(ev), tgt)

        def start(s, E, lab):
            s.facts[eng.eq(mk("fld", mk("ns", E), 1, 0), S(""))] = False  # the parser reports an empty namespace as none
            s.labels.append(("read", "Start", E, lab))
            give(s, adtR("StartElement", name_of(E), mk("attrs", E), mk("nsmap", E)))

        # parser error (sticky; any time)
        s = st.clone()
        s.w = w.copy(rd="err")
        s.labels.append(("read", "Err", None, None))
        out += eng.set_dest(s, dest, eng.err(mk("rderr")), tgt)
        if w.rd == "err":
            return out
        if w.rd == "eof":
            s = st.clone()
            s.labels.append(("read", "EndDocument", None, None))
            give(s, adtR("EndDocument"))
            return out
        top = w.dmax == 0
        outside = not w.stack and not w.star
        if outside and w.entry and top and mon.flat_doc:
            # the document consists of the fields of a flattened type: it stands for the own element
            if "started" not in w.flags:
                s = st.clone()
                s.w = s.w.copy(flags=w.flags | {"started"})
                s.labels.append(("read", "StartDocument", None, None))
                give(s, adtR("StartDocument", *[mk("sym", "StartDocument%d" % i) for i in range(3)]))
            st = st.clone()
            st.w = w = st.w.copy(stack=(mk("ev", "own"),), entry=False)
            outside = False
        if outside and not w.entry:
            if not top:
                self.alarm(eng, st, "overrun", "reads past its own end tag")
                return []
            s = st.clone()
            s.w = s.w.copy(rd="eof")
            s.labels.append(("read", "EndDocument", None, None))
            give(s, adtR("EndDocument"))
        elif outside:
            s = st.clone()
            E = mk("ev", "own")
            s.w = s.w.copy(stack=(E,), entry=False)
            for s2 in mon.own_start(eng, s, E):
                start(s2, E, "own")
            if top and "started" not in w.flags:
                s = st.clone()
                s.w = s.w.copy(flags=w.flags | {"started"})
                s.labels.append(("read", "StartDocument", None, None))
                give(s, adtR("StartDocument", *[mk("sym", "StartDocument%d" % i) for i in range(3)]))
        else:
            closing = "closing" in w.flags
            depth = "deep" if w.star else len(w.stack)
            if not closing:
                if w.star:
                    s = st.clone()
                    E = self.fresh(eng, s, mk("ev", cid, "D"))
                    eng.star_subst(s, -1, True)
                    start(s, E, "deep")
                else:
                    for s2, E in mon.child_start(eng, st.clone(), cid):
                        s2.w = s2.w.copy(stack=s2.w.stack + (E,))
                        start(s2, E, depth)
                whole = mon.flat_doc and len(w.stack) == 1 and not w.star
                kinds = [] if whole else ["Characters"]
                if not whole and not cfg["cdata_to_characters"]:
                    kinds.append("CData")
                if not whole and not cfg["whitespace_to_characters"] and not cfg["trim_whitespace"]:
                    kinds.append("Whitespace")
                if not cfg["ignore_comments"]:
                    kinds.append("Comment")
                for kind in kinds:
                    for s2, X in mon.chars(eng, st.clone(), cid, kind):
                        s2.labels.append(("read", kind, X, depth))
                        give(s2, adtR(kind, X))
            # end element
            if w.star:
                s = st.clone()
                E = self.fresh(eng, s, mk("ev", cid, "E"))
                eng.star_subst(s, 1, True)
                s.labels.append(("read", "End", E, "deep"))
                give(s, adtR("EndElement", name_of(E)))
                st = st.clone()
                eng.star_subst(st, 0, False)
                w = st.w
            s = st.clone()
            E = w.stack[-1]
            if mon.flat_doc and len(w.stack) == 1:
                if not w.get("any"):
                    return out          # an empty document is none of the type's
                s.w = s.w.copy(stack=(), rd="eof")
                s.labels.append(("read", "EndDocument", None, None))
                give(s, adtR("EndDocument"))
                for s in mon.instruction(eng, st.clone()):
                    s.labels.append(("read", "ProcessingInstruction", None, None))
                    give(s, adtR("ProcessingInstruction", *[mk("sym", "PI%d" % i) for i in range(2)]))
                return out
            s.w = s.w.copy(stack=w.stack[:-1], flags=w.flags - {"closing"})
            for s2 in mon.child_end(eng, s, E):
                s2.labels.append(("read", "End", E, len(w.stack)))
                give(s2, adtR("EndElement", name_of(E)))
            if closing:
                return out
        for s in mon.instruction(eng, st.clone()):
            s.labels.append(("read", "ProcessingInstruction", None, None))
            give(s, adtR("ProcessingInstruction", *[mk("sym", "PI%d" % i) for i in range(2)]))
        return out

    def alarm(self, eng, st, kind, msg, **kw):
        self.alarms.append(dict(kind=kind, msg=msg, node=eng.cur, labels=tuple(st.labels), fn=st.frames[-1].fn.full if st.frames else "",
                                w=repr(st.w), **kw))

    extra_text = ("CData", "Whitespace")

    def as_writer(self, eng, st, ev, dest, tgt):
        ev = self.val(eng, st, ev)
        if ev.op == "adt":
            if ev.a[1] == "EndDocument":
                return eng.set_dest(st, dest, eng.NONE, tgt)
            return eng.set_dest(st, dest, eng.some(mk("asw", ev)), tgt)
        out = []
        tid = self.p.tindex.get("xml::reader::XmlEvent")
        opts = eng.discr_options(st, ev, tid)
        if 1 in opts:
            s = st.clone()
            eng.set_discr(s, ev, [1])
            out += eng.set_dest(s, dest, eng.NONE, tgt)
        rest = [o for o in opts if o != 1]
        if rest:
            eng.set_discr(st, ev, rest)
            out += eng.set_dest(st, dest, eng.some(mk("asw", ev)), tgt)
        return out

    # ---------------------------------------------------------------- intrinsics of the probe crate
    def intrinsic(self, eng, st, nm, cal, args, dest, tgt):
        done = lambda v: eng.set_dest(st, dest, v, tgt)
        targs = cal.get("args", [])
        if nm == "v_any":
            return done(mk("any", eng.ctx(st, "any")))
        if nm == "v_new":
            return done(S("") if self.ts(targs[0]) in STRINGY else EMPTY)
        if nm == "v_push":
            if self.ts(targs[0]) in STRINGY:
                self.upd(eng, st, args[0], lambda v: appended(st, v, args[1] if args[1].op != "char" else S(str(args[1].a[0]))))
            else:
                self.upd(eng, st, args[0], lambda l: pushed(st, l, args[1]))
            return done(UNIT)
        if nm == "v_src":
            return done(mk("src"))
        if nm == "v_sink":
            return done(mk("sink"))
        if nm == "v_subtree":
            E = st.w.stack[-1] if st.w.stack and not st.w.star else None
            if E is None or "closing" in st.w.flags:
                st.labels.append(("nested-misplaced",))
                self.alarm(eng, st, "misplaced", "nested deserializer called away from a start tag")
                return []
            st.w = st.w.copy(flags=st.w.flags | {"closing"})
            st.labels.append(("nested-de", self.ts(targs[0]), E, len(st.w.stack)))
            self.mon.nested(eng, st, E)
            return done(mk("start", E))
        if nm == "v_result":
            ty = self.ts(targs[0])
            E = args[0].a[0]
            return self.mon.nested_result(eng, st, ty, E, dest, tgt)
        if nm == "v_emit_ser":
            ty = self.ts(targs[0])
            x, name, skip, wr = args
            wv = self.val(eng, st, wr)
            self.mon.nested_into(eng, st, wv, (ty, x, name, skip))
            if not any(y.op == "writer" for y in subterms(wv)):
                k = mk("nser", ty, x, name, skip)
                sw = [y for y in subterms(wv) if y.op == "swriter"]
                s = st.clone()
                st.labels.append(("swrite", ("ser", ty, x, name, skip), True))
                if sw and sw[0].a[0].op == "ref":
                    self.upd(eng, st, sw[0].a[0], lambda l: mklist(items_of(l) + [mk("out", k)]))
                elif sw:
                    self.replace_sink(eng, st, wr, sw[0], k)
                s.labels.append(("swrite", ("ser", ty, x, name, skip), False))
                s.w = s.w.put(efail=True)
                return eng.set_dest(st, dest, eng.ok(UNIT), tgt) + eng.set_dest(s, dest, eng.err(mk("errof", k)), tgt)
            return self.emit(eng, st, ("ser", ty, x, name, skip), dest, tgt)
        if nm == "v_mark":
            return done(mk("mark", self.val(eng, st, args[0])))
        if nm == "v_generalize":
            old, new = args[1].a[0], self.getref(eng, st, args[0])
            v = self.generalize(old, new)
            self.setref(eng, st, args[0], v)
            # the element just opened becomes the unknown surroundings
            st.w = st.w.copy(stack=(), under=1, entry=True, dmin=1, dmax=None, flags=frozenset(), g=())
            st.facts = {}
            return done(UNIT)
        if nm == "v_returned":
            st.w = st.w.put(rdx=st.w.rd)
            return done(UNIT)
        if nm in ("v_begin", "v_pending", "v_saw"):
            self.mon.intrinsic(eng, st, nm, args)
            return done(UNIT)
        if nm == "v_top":
            st.w = st.w.copy(stack=(), under=0, entry=True, dmin=0, dmax=0)
            return done(UNIT)
        raise Unsupported("intrinsic " + nm)

    def replace_sink(self, eng, st, wr, sw, k):
        old = self.val(eng, st, wr)
        new = mk("swriter", mk("sunk", sw.a[0], k), sw.a[1])
        r = wr
        while r.op == "ref":
            x = self.getref(eng, st, r)
            if x.op != "ref":
                break
            r = x
        if r.op == "ref":
            self.setref(eng, st, r, subst(old, {sw: new}))

    def generalize(self, old, new):
        if old is new:
            return new
        a, b = lin_of(old), lin_of(new)
        if a and b and b[0] - a[0] == 1:
            return mklin(b[0] - 1, 1, 0)
        if old.op == new.op == "adt" and old.a[2] == new.a[2] and len(old.a[3]) == len(new.a[3]):
            return mk("adt", new.a[0], new.a[1], new.a[2], tuple(self.generalize(x, y) for x, y in zip(old.a[3], new.a[3])))
        if old.op == new.op == "tup" and len(old.a[0]) == len(new.a[0]):
            return mk("tup", tuple(self.generalize(x, y) for x, y in zip(old.a[0], new.a[0])))
        return new

    MUTATORS = {"retain", "dedup", "truncate", "sort", "sort_unstable", "sort_by", "sort_by_key", "reverse", "rotate_left", "rotate_right",
                "make_ascii_lowercase", "make_ascii_uppercase", "pop", "fill", "remove"}

    # ---------------------------------------------------------------- unknown callees
    def opaque(self, eng, st, cal, args, dest, t):
        tgt = t[4]
        name = cal.get("full") or cal["decl"]
        if tgt is None:
            eng.terminal(st, "panic", cal["decl"], st.frames[-1].fn.name, cal.get("line"))
            return []
        eng.unmodelled[name] += 1
        pure = True
        for a in args:
            if a.op == "ref":
                pure = False
                self.setref(eng, st, a, mk("any", eng.ctx(st, "clobber")))
        if not pure:
            st.labels.append(("opaque", name))
            if cal["decl"].split("::")[-1] in self.MUTATORS and all(a.op != "ref" for a in args[1:]):
                old = mk("call", name.split("::")[-1] + "'", tuple(self.val(eng, st, a) for a in args))
                self.setref(eng, st, args[0], old)
            else:
                eng.lost.add("effect of " + name)
            v = mk("any", eng.ctx(st, "ret"))
        else:
            v = mk("call", cal["decl"], tuple(args))
        return eng.set_dest(st, dest, v, tgt)

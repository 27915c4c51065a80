"""Abstract interpreter over the monomorphic MIR extracted by mirdump.

A call-string-sensitive dataflow analysis over the inlined control-flow supergraph of one root function.
Values are hash-consed terms (Herbrand domain: constants, aggregates, access paths of the inputs, uninterpreted
pure calls); integers are affine in the entry depth `d0` and the height `s` of an unbounded subtree, or intervals;
values that differ between arrivals at a loop head become phi terms.  The outside world (XML reader, XML writer)
is a small typestate.  The result is a finite graph: nodes are merge points with their abstract state, edges carry
the effects performed and the branch facts assumed.
"""
import collections, time

# ---------------------------------------------------------------- terms


class Term:
    __slots__ = ("op", "a", "_sub", "n")

    def __repr__(self):
        return show(self)


_intern = {}


def mk(op, *a):
    k = (op, a)
    t = _intern.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t._sub = None
        t.n = len(_intern)
        _intern[k] = t
    return t


def subterms(t):
    s = t._sub
    if s is None:
        acc = {t}
        for x in t.a:
            if isinstance(x, Term):
                acc |= subterms(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Term):
                        acc |= subterms(y)
        s = t._sub = frozenset(acc)
    return s


def subst(t, m, memo=None):
    """replace subterms by map m (Term->Term)"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not any(x in m for x in subterms(t)):
        memo[t] = t
        return t
    na = []
    for x in t.a:
        if isinstance(x, Term):
            na.append(subst(x, m, memo))
        elif isinstance(x, tuple):
            na.append(tuple(subst(y, m, memo) if isinstance(y, Term) else y for y in x))
        else:
            na.append(x)
    r = rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "old" and a[0].op in ("old", "stale"):
        return a[0]
    if op == "list" and len(a[0]) == 1 and a[0][0].op == "all":
        return a[0][0].a[0]
    return mk(op, *a)


def show(t, d=0):
    if not isinstance(t, Term):
        return repr(t)
    if d > 12:
        return "…"
    o, a = t.op, t.a
    sh = lambda x: show(x, d + 1)
    if o == "str":
        return repr(a[0])
    if o in ("int", "bool", "char"):
        return str(a[0])
    if o == "lin":
        c, kd, ks = a
        r = []
        if kd:
            r.append("d0")
        if ks:
            r.append("%s*s" % ks)
        r.append(str(c))
        return "(" + "+".join(r) + ")"
    if o == "itv":
        return "[%s,%s]" % a
    if o == "adt":
        return "%s#%s{%s}" % (a[1], a[2], ",".join(sh(x) for x in a[3]))
    if o == "tup":
        return "(%s)" % ",".join(sh(x) for x in a[0])
    if o == "list":
        return "[%s]" % ",".join(sh(x) for x in a[0])
    if o == "clo":
        return "clo(%s)" % ",".join(sh(x) for x in a[1])
    if o == "fld":
        return "%s.%s" % (sh(a[0]), a[2] if a[1] is None else "%s#%s" % (a[1], a[2]))
    if o == "ref":
        return "&mut(%s:%s%s)" % (a[0], a[1], "".join(".%s" % (p[1],) for p in a[2]))
    if o == "sym":
        return "%s" % a[0]
    if o == "ev":
        return "ev%s" % a[0]
    if o == "elem":
        return "elem(%s)@%s" % (sh(a[0]), a[1])
    if o == "fmt":
        return "fmt(%s)" % "".join(sh(x) if x.op != "str" else x.a[0] for x in a[0])
    return "%s(%s)" % (o, ",".join(sh(x) if isinstance(x, Term) else ("(%s)" % ",".join(map(sh, x)) if isinstance(x, tuple) else str(x)) for x in a))


OWN = mk("ev", "own")
FOCM = mk("foc", "M")
TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tup", ())
UNDEF = mk("undef")
TOP = mk("top")


def S(s):
    return mk("str", s)


def I(n):
    return mk("int", n)


def B(b):
    return TRUE if b else FALSE


# ---------------------------------------------------------------- integers
# int -> const ; lin(c,kd,ks) = c + kd*d0 + ks*s ; itv(lo,hi) with None = unbounded


def lin_of(t):
    if t.op == "int":
        return (t.a[0], 0, 0)
    if t.op == "lin":
        return t.a
    return None


def mklin(c, kd, ks):
    if kd == 0 and ks == 0:
        return I(c)
    return mk("lin", c, kd, ks)


BITS = {s + str(n): n for s in "iu" for n in (8, 16, 32, 64, 128)}


def fold(op, a, b):
    if a.op != "int" or b.op != "int":
        return None
    x, y = a.a[0], b.a[0]
    if op == "Mul":
        return I(x * y)
    if op in ("Shl", "Shr") and 0 <= y < 64:
        return I(x << y if op == "Shl" else x >> y)
    if op in ("Div", "Rem") and x >= 0 and y > 0:
        return I(x // y if op == "Div" else x % y)
    return None


def counts(t):
    """made of lengths, positions and constants only"""
    if t.op in ("int", "ixof", "lin", "itv"):
        return True
    return t.op == "call" and (t.a[0] == "len" or t.a[0] in ("Add", "Sub", "Mul", "Div") and all(counts(x) for x in t.a[1]))


def itv_of(t, w):
    """(lo,hi) bounds of an integer term in world w"""
    if t.op == "int":
        return (t.a[0], t.a[0])
    if t.op == "lin":
        c, kd, ks = t.a
        lo = hi = c
        if kd:
            lo = lo + w.dmin if kd > 0 else (None if w.dmax is None else lo - w.dmax)
            hi = None if (w.dmax is None and kd > 0) else (hi + w.dmax if kd > 0 else hi - w.dmin)
        if ks:
            if not w.star:
                pass
            elif ks > 0:
                hi = None
            else:
                lo = None
        return (lo, hi)
    if t.op == "itv":
        return t.a
    return (None, None)


def mkitv(lo, hi):
    if lo is not None and lo == hi:
        return I(lo)
    if lo is None and hi is None:
        return TOP
    return mk("itv", lo, hi)


def add(a, b, sign, w):
    x, y = lin_of(a), lin_of(b)
    if x and y:
        kd = x[1] + sign * y[1]
        ks = x[2] + sign * y[2]
        if kd in (0, 1) and ks in (-1, 0, 1, 2):
            return mklin(x[0] + sign * y[0], kd, ks)
    (al, ah), (bl, bh) = itv_of(a, w), itv_of(b, w)
    if sign < 0:
        bl, bh = (None if bh is None else -bh), (None if bl is None else -bl)
    return mkitv(None if al is None or bl is None else al + bl, None if ah is None or bh is None else ah + bh)


def cmp_ints(op, a, b, w):
    """True / False / None for a op b"""
    x, y = lin_of(a), lin_of(b)
    if x and y:
        c, kd, ks = x[0] - y[0], x[1] - y[1], x[2] - y[2]
        d = mklin(c, kd, ks)
        lo, hi = itv_of(d, w)
    else:
        (al, ah), (bl, bh) = itv_of(a, w), itv_of(b, w)
        lo = None if al is None or bh is None else al - bh
        hi = None if ah is None or bl is None else ah - bl
    if op in ("Eq", "Ne"):
        r = None
        if lo is not None and lo == hi:
            r = lo == 0
        elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
            r = False
        if r is None:
            return None
        return r if op == "Eq" else not r
    if op == "Lt":
        return True if hi is not None and hi < 0 else (False if lo is not None and lo >= 0 else None)
    if op == "Ge":
        r = cmp_ints("Lt", a, b, w)
        return None if r is None else not r
    if op == "Le":
        return True if hi is not None and hi <= 0 else (False if lo is not None and lo > 0 else None)
    if op == "Gt":
        r = cmp_ints("Le", a, b, w)
        return None if r is None else not r
    return None


# ---------------------------------------------------------------- world


class World:
    """typestate of the primary reader and writer"""
    F = ("stack", "star", "under", "dmin", "dmax", "rd", "wr", "entry", "flags", "g")
    __slots__ = F

    def __init__(self, stack=(), star=False, under=0, dmin=0, dmax=None, rd="ok", wr="ok", entry=True, flags=frozenset(), g=()):
        self.stack, self.star, self.under, self.dmin, self.dmax = stack, star, under, dmin, dmax
        self.rd, self.wr, self.entry, self.flags, self.g = rd, wr, entry, flags, g

    def get(self, k, d=None):
        for a, b in self.g:
            if a == k:
                return b
        return d

    def put(self, **kv):
        d = dict(self.g)
        d.update(kv)
        return self.copy(g=tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=lambda x: x[0])))

    def copy(self, **k):
        w = World(self.stack, self.star, self.under, self.dmin, self.dmax, self.rd, self.wr, self.entry, self.flags, self.g)
        for x, v in k.items():
            setattr(w, x, v)
        return w

    def key(self):
        return tuple(getattr(self, f) for f in self.F)

    def __repr__(self):
        return "W(stack=%s%s under=%d d0=[%s,%s] rd=%s wr=%s%s %s)" % (
            list(self.stack), "+*" if self.star else "", self.under, self.dmin, self.dmax, self.rd, self.wr,
            " entry" if self.entry else "", sorted(self.flags)) + " g=%r" % (dict(self.g),)


class Frame:
    __slots__ = ("fn", "dest", "ret", "ctx")

    def __init__(self, fn, dest, ret, ctx):
        self.fn, self.dest, self.ret, self.ctx = fn, dest, ret, ctx


class State:
    __slots__ = ("frames", "blk", "idx", "store", "facts", "w", "labels", "heap")

    def clone(self):
        s = State()
        s.frames = list(self.frames)
        s.blk, s.idx = self.blk, self.idx
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.w = self.w
        s.labels = list(self.labels)
        return s


class Fork(Exception):
    """the current step must be re-executed in each of these successor states"""

    def __init__(self, states):
        self.states = states


class Infeasible(Exception):
    pass


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Found(Exception):
    """a search for one path has its answer"""


class Fn:
    """a function body with derived control-flow information"""

    def __init__(self, j, prog):
        self.j = j
        self.id = j["id"]
        self.path = j["path"]
        self.full = j["full"]
        self.crate = j["crate"]
        self.name = j["name"]
        self.blocks = j["blocks"]
        self.locals = j["locals"]
        self.argc = j["argc"]
        self.closure = j["closure"]
        self.shim = j["shim"]
        self.spread = j["spread"]
        self.span = j["span"]
        n = len(self.blocks)
        succ = [self.succs(b[1]) for b in self.blocks]
        preds = [0] * n
        reach, st = {0}, [0]
        while st:
            b = st.pop()
            for t in succ[b]:
                if t not in reach:
                    reach.add(t)
                    st.append(t)
        for b in reach:
            for t in set(succ[b]):
                preds[t] += 1
        # loop heads: targets of retreating edges in a DFS
        heads, color = set(), {}
        stack = [(0, iter(succ[0]))] if n else []
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for t in it:
                c = color.get(t, 0)
                if c == 1:
                    heads.add(t)
                elif c == 0:
                    color[t] = 1
                    stack.append((t, iter(succ[t])))
                    break
            else:
                color[b] = 2
                stack.pop()
        self.heads = heads
        self.merge = {b for b in reach if preds[b] > 1} | heads
        self.succ = succ
        self._live = None
        self.flags = self.dropflags()

    def dropflags(self):
        """compiler-made drop flags: bool locals that are only given constants and only guard bare drops"""
        cand, bad = set(), set()

        def use(o):
            if o[0] in ("cp", "mv"):
                bad.add(o[1][0])

        def deep(x):
            if isinstance(x, list):
                if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list):
                    bad.add(x[1][0])
                for y in x:
                    deep(y)
        for st, t in self.blocks:
            for x in st:
                if x[0] == "=":
                    r = x[2]
                    if not x[1][1] and r[0] == "use" and r[1][0] not in ("cp", "mv") and r[1][1][0] == "bool":
                        cand.add(x[1][0])
                        continue
                    bad.add(x[1][0])
                    if r[0] in ("ref", "raw", "discr"):
                        bad.add(r[2][0] if r[0] != "discr" else r[1][0])
                    deep(r)
            if t[0] == "sw":
                if t[1][0] in ("cp", "mv"):
                    ts = [x[1] for x in t[2]] + [t[3]]
                    if not any(not self.blocks[b][0] and self.blocks[b][1][0] == "drop" for b in ts):
                        bad.add(t[1][1][0])
            elif t[0] != "drop":
                deep(t)
                if t[0] == "call":
                    bad.add(t[3][0])
        return cand - bad

    @staticmethod
    def succs(t):
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def live(self):
        """live-in locals per block (uses through dead-store-insensitive backward dataflow)"""
        if self._live is not None:
            return self._live
        use, de = [], []

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if o[0] in ("cp", "mv"):
                place_use(o[1], u, d)

        def dst(p, u, d):
            if p[1]:
                place_use(p, u, d)
            else:
                if p[0] not in u:
                    d.add(p[0])

        for st, t in self.blocks:
            u, d = set(), set()
            for x in st:
                if x[0] == "=":
                    r = x[2]
                    k = r[0]
                    if k in ("use", "rep"):
                        op_use(r[1], u, d)
                    elif k in ("ref", "raw"):
                        place_use(r[2], u, d)
                    elif k == "cast":
                        op_use(r[2], u, d)
                    elif k == "bin":
                        op_use(r[2], u, d)
                        op_use(r[3], u, d)
                    elif k == "un":
                        op_use(r[2], u, d)
                    elif k == "discr":
                        place_use(r[1], u, d)
                    elif k == "agg":
                        for o in r[4]:
                            op_use(o, u, d)
                    dst(x[1], u, d)
                elif x[0] == "sd":
                    place_use(x[1], u, d)
                elif x[0] == "dead":
                    d.add(x[1]) if x[1] not in u else None
            k = t[0]
            if k == "sw":
                op_use(t[1], u, d)
            elif k == "call":
                for o in t[2]:
                    op_use(o, u, d)
                if "ptr" in t[1]:
                    op_use(t[1]["ptr"], u, d)
                dst(t[3], u, d)
            elif k == "assert":
                op_use(t[1], u, d)
            elif k == "ret":
                u.add(0)
            use.append(u)
            de.append(d)
        n = len(self.blocks)
        live = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for t in self.succ[b]:
                    out |= live[t]
                new = use[b] | (out - de[b])
                if new != live[b]:
                    live[b] = new
                    ch = True
        self._live = [frozenset(x) for x in live]
        return self._live


class Prog:
    def __init__(self, j):
        self.types = j["types"]
        self.fns = {}
        for f in j["fns"]:
            self.fns[f["id"]] = Fn(f, self)
        self.roots = j["roots"]
        self.tindex = {}
        for i, t in enumerate(self.types):
            self.tindex.setdefault(t["s"], i)

    def peel(self, tid):
        while self.types[tid]["k"] == "ref" or self.types[tid].get("box"):
            t = self.types[tid]
            tid = t["e"] if t["k"] == "ref" else t["args"][0]
        return tid

    def tpath(self, tid):
        t = self.types[tid]
        return t.get("path", t["s"])


STRINGY = ("str", "std::string::String")


class Node:
    __slots__ = ("id", "key", "state", "out", "head", "kind", "arr", "phivals", "info", "ret", "dirty", "pred", "hkey")

    def __init__(self, id, key, state, head, kind):
        self.id, self.key, self.state, self.head, self.kind = id, key, state, head, kind
        self.out = []
        self.phivals = {}
        self.ret = None
        self.info = None
        self.dirty = True
        self.pred = None
        self.hkey = None


class Engine:
    """runs one root; subclasses/hooks: see models.py"""
    TIME_LIMIT = 60

    def __init__(self, prog, models, merge=True, widen_delay=30, node_limit=6000, step_limit=400000, stack_limit=3):
        self.p = prog
        self.models = models
        self.merge = merge
        self.widen_delay = widen_delay
        self.nodes = []
        self.index = {}
        self.headcount = collections.Counter()
        self.node_limit = node_limit
        self.steps = 0
        self.step_limit = step_limit
        self.deadline = time.time() + self.TIME_LIMIT
        self.stack_limit = stack_limit
        self.ctxs = {}
        self.ctxnames = []
        self.curphi = {}
        self.phi_src = {}
        self.seen_fns = set()
        self.called = collections.Counter()
        self.unmodelled = collections.Counter()
        self.user = {}
        self.lost = set()       # constructs the analysis could not follow: what it then finds proves nothing
        self.heads_by = {}
        self.exact_lists = False

    # ---------- contexts
    def ctx(self, st, extra=""):
        k = tuple((f.fn.id, f.ctx) for f in st.frames) + (st.blk, extra)
        i = self.ctxs.get(k)
        if i is None:
            i = len(self.ctxnames)
            self.ctxs[k] = i
            self.ctxnames.append("/".join("%s@%s" % (f.fn.name or "closure", f.ctx) for f in st.frames) + ":bb%d%s" % (st.blk, extra))
        return i

    # ---------- facts
    def fact(self, st, t):
        """known truth value of a boolean term"""
        if t.op == "bool":
            return t.a[0]
        if t.op == "not":
            r = self.fact(st, t.a[0])
            return None if r is None else not r
        r = st.facts.get(t)
        if r is not None:
            return r
        if t.op == "eq":
            x, y = t.a
            if y.op in ("str", "int", "char") or x.op in ("str", "int", "char"):
                v, c = (x, y) if y.op in ("str", "int", "char") else (y, x)
                for f, b in st.facts.items():
                    if b is True and f.op == "eq" and v in f.a:
                        o = f.a[0] if f.a[1] is v else f.a[1]
                        if o.op in ("str", "int", "char"):
                            return o is c
        return None

    def assume(self, st, t, v, label=True):
        while t.op == "not":
            t, v = t.a[0], not v
        if t.op == "bool":
            if t.a[0] != v:
                raise Infeasible()
            return
        k = self.fact(st, t)
        if k is not None:
            if k != v:
                raise Infeasible()
            return
        if t.op != "any":
            st.facts[t] = v
        if t.op == "cmp":
            self.refine_cmp(st, t, v)
        if label:
            st.labels.append(("if", t, v))

    def refine_cmp(self, st, t, v):
        """refine the world from a comparison of integers"""
        op, a, b = t.a
        neg = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Le": "Gt", "Gt": "Le"}
        if not v:
            op = neg[op]
        x, y = lin_of(a), lin_of(b)
        if x and y:
            c, kd, ks = x[0] - y[0], x[1] - y[1], x[2] - y[2]
            w = st.w
            # c + kd*d0 + ks*s  op 0
            if kd and not ks and abs(kd) == 1:
                # d0 op' val
                val = -c * kd
                o = op if kd == 1 else {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
                lo, hi = w.dmin, w.dmax
                if o == "Eq":
                    lo = max(lo, val)
                    hi = val if hi is None else min(hi, val)
                elif o == "Ne":
                    if lo == val:
                        lo += 1
                elif o == "Lt":
                    hi = val - 1 if hi is None else min(hi, val - 1)
                elif o == "Le":
                    hi = val if hi is None else min(hi, val)
                elif o == "Gt":
                    lo = max(lo, val + 1)
                elif o == "Ge":
                    lo = max(lo, val)
                if hi is not None and lo > hi:
                    raise Infeasible()
                st.w = w.copy(dmin=lo, dmax=hi)
            elif ks and not kd and abs(ks) == 1 and w.star:
                val = -c * ks
                o = op if ks == 1 else {"Eq": "Eq", "Ne": "Ne", "Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}[op]
                if o == "Eq" and val < 0 or o == "Lt" and val <= 0 or o == "Le" and val < 0:
                    raise Infeasible()
                if o == "Eq" and val == 0 or o == "Le" and val == 0 or o == "Lt" and val == 1:
                    self.star_subst(st, 0, False)
                elif o == "Gt" and val == 0 or o == "Ge" and val == 1 or o == "Ne" and val == 0:
                    pass

    def star_subst(self, st, shift, keep):
        """s := s' + shift (keep) or s := shift (not keep), everywhere"""
        def f(t):
            m = {}
            for x in subterms(t):
                if x.op == "lin" and x.a[2]:
                    c, kd, ks = x.a
                    m[x] = mklin(c + ks * shift, kd, ks if keep else 0)
            return subst(t, m) if m else t
        for k, v in list(st.store.items()):
            st.store[k] = f(v)
        st.facts = {f(k): v for k, v in st.facts.items() if not any(x.op == "lin" for x in subterms(k)) or True}
        if not keep:
            st.w = st.w.copy(star=False)

    # discriminants -------------------------------------------------
    def variants(self, tid):
        t = self.p.types[tid]
        if t["k"] == "adt":
            return list(range(len(t["vs"])))
        return [0]

    def discr_options(self, st, v, tid):
        """possible variant indices of value v of enum type tid"""
        if v.op == "adt":
            return [v.a[2]]
        k = mk("discr", v)
        o = st.facts.get(k)
        if o is not None:
            return sorted(o)
        opts = self.variants(tid)
        t = self.p.types[tid]
        # uninhabited variants
        ok = []
        for i in opts:
            fs = t["vs"][i]["fs"] if t["k"] == "adt" else []
            if any("t" in f and self.p.types[f["t"]]["k"] == "never" for f in fs):
                continue
            ok.append(i)
        if v.op == "phi":
            pv = self.curphi.get(v)
            if pv is not None and "any" not in pv:
                ok = [i for i in ok if i in pv]
        return ok

    def set_discr(self, st, v, opts, label=True):
        if v.op == "adt":
            if v.a[2] not in opts:
                raise Infeasible()
            return
        k = mk("discr", v)
        o = st.facts.get(k)
        n = frozenset(opts) if o is None else o & frozenset(opts)
        if not n:
            raise Infeasible()
        if o == n:
            return
        st.facts[k] = n
        if label:
            st.labels.append(("is", v, n))

    # ---------- places
    def local(self, st, l):
        return (len(st.frames) - 1, l)

    def resolve(self, st, p):
        """MIR place -> (cell, proj) following mutable references, or ('val', term, proj) for snapshots"""
        cell = (len(st.frames) - 1, p[0])
        proj = []
        down = None
        snap = None
        for e in p[1]:
            k = e[0]
            if k == "*":
                if snap is not None:
                    v = self.project(st, snap, proj)
                else:
                    v = self.project(st, self.get_cell(st, cell), proj)
                if v.op == "set":
                    raise Unsupported("deref of set")
                if v.op == "ref":
                    cell = v.a[0], v.a[1]
                    proj = list(v.a[2])
                    snap = None
                elif e[1] == "m":
                    # mutable reference produced by an opaque model: treat as a snapshot cell
                    snap, proj = mk("mderef", v) if v.op in ("call", "top", "any") else v, []
                else:
                    if v.op == "raw":
                        v = v.a[0]
                    if v.op == "ref":
                        cell = v.a[0], v.a[1]
                        proj = list(v.a[2])
                        snap = None
                    else:
                        if snap is not None or e[1] != "b":
                            snap, proj = v, []
                        # a Box is its content: writing through it writes the cell
                down = None
            elif k == "f":
                proj.append(("f", down, e[1]))
                down = None
            elif k == "d":
                down = e[1]
            elif k == "i":
                iv = self.get_cell(st, (len(st.frames) - 1, e[1]))
                proj.append(("i", iv))
            elif k == "c":
                proj.append(("c", e[1], e[3]))
            elif k == "u":
                proj.append(("u", e[1], e[2], e[3]))
            else:
                raise Unsupported("projection")
        return cell, proj, snap, down

    def get_cell(self, st, cell):
        v = st.store.get(cell)
        if v is None:
            return UNDEF
        return v

    def fname(self, v, var, idx):
        return idx

    def project(self, st, v, proj):
        for e in proj:
            v = self.proj1(st, v, e)
        return v

    def proj1(self, st, v, e):
        k = e[0]
        if k == "f":
            _, var, idx = e
            o = v.op
            if o == "adt":
                if var is not None and v.a[2] != var:
                    raise Infeasible()
                fs = v.a[3]
                if idx < len(fs):
                    return fs[idx]
                return UNDEF
            if o == "tup":
                return v.a[0][idx]
            if o == "clo":
                return v.a[1][idx]
            if o == "undef":
                return UNDEF
            if o == "ref" and idx == 0:
                return v            # the pointer inside a box
            r = self.models.project(self, st, v, var, idx)
            if r is not None:
                return r
            return mk("fld", v, var, idx)
        if k == "c":
            if v.op == "list":
                items = v.a[0]
                i = e[1] if not e[2] else len(items) - e[1]
                if 0 <= i < len(items):
                    return items[i]
            return mk("idx", v, I(e[1]))
        if k == "i":
            if v.op == "list" and e[1].op == "int" and 0 <= e[1].a[0] < len(v.a[0]):
                return v.a[0][e[1].a[0]]
            if e[1].op == "ixof" and e[1].a[0] is v:
                return e[1].a[1]
            return self.idx(v, e[1])
        if k == "u":
            return mk("call", "subslice", (v, I(e[1]), I(e[2])))
        raise Unsupported("proj " + k)

    def idx(self, v, i):
        if i.op != "int":
            self.lost.add("element of %s at a computed index" % v.op)
        return mk("idx", v, i)

    def read(self, st, p):
        cell, proj, snap, down = self.resolve(st, p)
        if snap is not None:
            return self.project(st, snap, proj)
        return self.project(st, self.get_cell(st, cell), proj)

    def write_cell(self, st, cell, proj, val, tid=None):
        if not proj:
            st.store[cell] = val
            return
        st.store[cell] = self.upd(st, self.get_cell(st, cell), proj, val)

    def upd(self, st, v, proj, val):
        if not proj:
            return val
        e = proj[0]
        if e[0] == "f":
            _, var, idx = e
            if v.op == "adt":
                if var is not None and v.a[2] != var:
                    raise Infeasible()
                fs = list(v.a[3])
                while len(fs) <= idx:
                    fs.append(UNDEF)
                fs[idx] = self.upd(st, fs[idx], proj[1:], val)
                return mk("adt", v.a[0], v.a[1], v.a[2], tuple(fs))
            if v.op in ("tup", "undef"):
                fs = list(v.a[0]) if v.op == "tup" else []
                while len(fs) <= idx:
                    fs.append(UNDEF)
                fs[idx] = self.upd(st, fs[idx], proj[1:], val)
                return mk("tup", tuple(fs))
            if v.op == "clo":
                fs = list(v.a[1])
                fs[idx] = self.upd(st, fs[idx], proj[1:], val)
                return mk("clo", v.a[0], tuple(fs))
            # symbolic base: functional update
            return mk("with", v, (mk("k", str(var), idx), self.upd(st, mk("fld", v, var, idx), proj[1:], val)))
        if e[0] in ("c", "i"):
            if v.op == "list":
                i = e[1] if e[0] == "c" else (e[1].a[0] if e[1].op == "int" else None)
                if i is not None and i < len(v.a[0]):
                    xs = list(v.a[0])
                    xs[i] = self.upd(st, xs[i], proj[1:], val)
                    return mk("list", tuple(xs))
            return mk("call", "update", (v, val))
        raise Unsupported("upd")

    def write(self, st, p, val):
        cell, proj, snap, down = self.resolve(st, p)
        if snap is not None:
            st.labels.append(("opaque-write", snap))
            return
        self.write_cell(st, cell, proj, val)

    def operand(self, st, o):
        if o[0] in ("cp", "mv"):
            return self.read(st, o[1])
        return self.const(o[1], o[2])

    def const(self, c, tid=None):
        k = c[0]
        if k == "str":
            return S(c[1])
        if k == "int":
            return I(int(c[1]))
        if k == "bool":
            return B(c[1])
        if k == "char":
            return mk("char", c[1])
        if k == "float":
            return mk("float", c[1])
        if k == "bytes":
            return mk("bytes", tuple(c[1]))
        if k == "arr":
            return mk("list", tuple(self.const(x) for x in c[1]))
        if k == "adt":
            t = self.p.types[c[1]]
            fs = tuple(self.const(x) for x in c[3])
            if t["k"] == "tuple":
                return mk("tup", fs)
            return self.adt(c[1], c[2], fs)
        if k == "zst":
            t = self.p.types[c[1]]
            if t["k"] == "tuple":
                return UNIT
            if t["k"] == "closure":
                return mk("clo", c[1], ())
            if t["k"] == "adt":
                return self.adt(c[1], 0, ())
            return mk("zst", t["s"])
        if k == "fn":
            key = c[1].get("full") or c[1]["decl"]
            self.user.setdefault("fnrefs", {})[key] = c[1]
            return mk("fn", key)
        if k == "static":
            return mk("static", c[1])
        return mk("opq", str(c[1]))

    def adt(self, tid, variant, fields):
        t = self.p.types[tid]
        if t.get("box"):
            return fields[0] if fields else UNDEF
        r = self.models.mkadt(self, t, variant, fields)
        if r is not None:
            return r
        return mk("adt", t["path"], self.vname(t, variant), variant, tuple(fields))

    @staticmethod
    def vname(t, v):
        return t["vs"][v]["n"] if t.get("enum") else t["path"].split("::")[-1]

    # enum helpers for models
    def some(self, v):
        return mk("adt", "std::option::Option", "Some", 1, (v,))

    NONE = mk("adt", "std::option::Option", "None", 0, ())

    def ok(self, v):
        return mk("adt", "std::result::Result", "Ok", 0, (v,))

    def err(self, v):
        return mk("adt", "std::result::Result", "Err", 1, (v,))

    # ---------- statements
    def fork_values(self, st, place, v, tid):
        """v is undetermined at a discriminant read; nothing to do for symbolic values"""

    def rvalue(self, st, r, dst):
        k = r[0]
        if k == "use":
            return self.operand(st, r[1])
        if k == "ref" or k == "raw":
            p = r[2]
            mut = r[1] == "m" or (k == "raw" and "Mut" in r[1])
            cell, proj, snap, down = self.resolve(st, p)
            if mut:
                if snap is not None:
                    return self.project(st, snap, proj)
                return mk("ref", cell[0], cell[1], tuple(proj))
            if snap is not None:
                return self.project(st, snap, proj)
            return self.project(st, self.get_cell(st, cell), proj)
        if k == "agg":
            ops = tuple(self.operand(st, o) for o in r[4])
            if r[1] == "tup":
                return mk("tup", ops)
            if r[1] == "arr":
                return mk("list", ops)
            if r[1] == "clo":
                return mk("clo", r[2], ops)
            if r[1] == "adt":
                return self.adt(r[2], r[3], ops)
            return mk("agg", r[1], ops)
        if k == "discr":
            v = self.read(st, r[1])
            tid = r[1][2]
            return self.discr_value(st, v, tid)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, r[2]), self.operand(st, r[3]), r[4])
        if k == "un":
            v = self.operand(st, r[2])
            if r[1] == "Not":
                if v.op == "bool":
                    return B(not v.a[0])
                if v.op == "not":
                    return v.a[0]
                return mk("not", v)
            if r[1] == "Neg" and v.op == "int":
                return I(-v.a[0])
            if r[1] == "PtrMetadata":
                if v.op == "list":
                    return I(len(v.a[0]))
                if v.op == "str":
                    return I(len(v.a[0].encode()))
                return mk("call", "len", (v,))
            return mk("call", "un" + r[1], (v,))
        if k == "cast":
            v = self.operand(st, r[2])
            kind = r[1]
            if kind.startswith("PointerCoercion") or kind in ("Transmute", "PtrToPtr", "Subtype", "BoxDerefTransmute"):
                return v
            if kind == "IntToInt" and (v.op in ("int", "lin", "itv")):
                t = self.p.types[r[3]]
                nb = BITS.get(t.get("s"), 64)
                lo, hi = itv_of(v, st.w)
                m = (1 << nb) - 1 if t["k"] == "uint" else (1 << nb - 1) - 1
                if nb > 16 and hi is None or hi is not None and hi <= m and (nb > 16 or lo is not None and lo >= m - (1 << nb) + 1):
                    return v     # the same number: wide counters are taken not to wrap
            if kind == "IntToInt" and v.op == "bool":
                return I(int(v.a[0]))
            return mk("call", "cast:" + kind + ":" + self.p.types[r[3]]["s"], (v,))
        if k == "rep":
            v = self.operand(st, r[1])
            return mk("list", (v,) * r[2]) if r[2] <= 16 else mk("call", "repeat", (v,))
        return mk("opq", str(r[1])[:60])

    def discr_value(self, st, v, tid):
        t = self.p.types[tid]
        if v.op == "adt":
            return I(t["vs"][v.a[2]]["d"]) if t["k"] == "adt" else I(0)
        return mk("discrv", v, tid)

    def binop(self, st, op, a, b, tid):
        w = st.w
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if a.op == "discrv" and b.op == "int" or b.op == "discrv" and a.op == "int":
                d, c = (a, b) if a.op == "discrv" else (b, a)
                t = mk("isvar", d.a[0], d.a[1], c.a[0])
                return t if op == "Eq" else mk("not", t)
            numeric = a.op in ("int", "lin", "itv") and b.op in ("int", "lin", "itv")
            if numeric:
                r = cmp_ints(op, a, b, w)
                if r is not None:
                    return B(r)
                return mk("cmp", op, a, b)
            for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op))):
                if x.op == "call" and x.a[0] in ("len", "strlen") and y.op == "int":
                    empty = self.eq(x.a[1][0], mk("list", ()) if x.a[0] == "len" else S(""))
                    r = {("Gt", 0): False, ("Ne", 0): False, ("Ge", 1): False, ("Eq", 0): True, ("Le", 0): True, ("Lt", 1): True}.get((o, y.a[0]))
                    if r is not None:
                        return empty if r else B(not empty.a[0]) if empty.op == "bool" else mk("not", empty)
            if a.op == "ixof" and b.op == "call" and b.a[0] == "len" and b.a[1][0] is a.a[0]:
                return B(op in ("Lt", "Le", "Ne"))
            if b.op == "ixof" and a.op == "call" and a.a[0] == "len" and a.a[1][0] is b.a[0]:
                return B(op in ("Gt", "Ge", "Ne"))
            if op in ("Eq", "Ne"):
                e = self.eq(a, b)
                if op == "Eq":
                    return e
                return B(not e.a[0]) if e.op == "bool" else mk("not", e)
            if a.op in ("int", "lin", "itv", "top") and b.op in ("int", "lin", "itv", "top"):
                return mk("any", self.ctx(st, "cmp%d" % st.idx))
            return mk("cmp", op, a, b)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        chk = "WithOverflow" in op
        if base in ("Add", "Sub"):
            r = add(a, b, 1 if base == "Add" else -1, w)
            if r is TOP and not (a.op in ("int", "lin", "itv", "top") and b.op in ("int", "lin", "itv", "top")):
                r = mk("call", base, (a, b))
            if chk:
                t = self.p.types[tid]
                lo, hi = itv_of(r, w)
                nb = BITS.get(t.get("s"), 64)
                if base == "Add":
                    ov = self.may_exceed(st, t, hi, a, b)
                elif not all(x.op in ("int", "lin", "itv", "top") for x in (a, b)) and not (counts(a) and counts(b)):
                    ov = mk("any", self.ctx(st, "ov%d" % st.idx))
                elif t["k"] == "uint":
                    if lo is not None and lo >= 0:
                        ov = FALSE
                    elif hi is not None and hi < 0:
                        ov = TRUE
                    else:
                        ov = mk("cmp", "Lt", r, I(0)) if r.op in ("lin", "itv") else mk("any", self.ctx(st, "ov%d" % st.idx))
                else:
                    ov = FALSE if nb > 16 or lo is not None and lo >= -(1 << nb - 1) else mk("any", self.ctx(st, "ov%d" % st.idx))
                return mk("tup", (r, ov))
            return r
        if base in ("BitAnd", "BitOr") and self.p.types[tid]["k"] == "bool":
            if a.op == "bool":
                return (b if a.a[0] else FALSE) if base == "BitAnd" else (TRUE if a.a[0] else b)
            if b.op == "bool":
                return (a if b.a[0] else FALSE) if base == "BitAnd" else (TRUE if b.a[0] else a)
            return mk("and" if base == "BitAnd" else "or", a, b)
        r = fold(base, a, b) or mk("call", base, (a, b))
        if chk and r.op == "int":
            t = self.p.types[tid]
            nb = BITS.get(t.get("s"), 64)
            return mk("tup", (r, B(not (0 <= r.a[0] < 1 << nb if t["k"] == "uint" else -(1 << nb - 1) <= r.a[0] < 1 << nb - 1))))
        if chk:
            return mk("tup", (r, self.may_exceed(st, self.p.types[tid], None, a, b)))
        return r

    def may_exceed(self, st, t, hi, a, b):
        """can the sum (or product) of a and b leave its type?  Counters of events stay below 2^31, which no document in reach exceeds"""
        nb = BITS.get(t.get("s"), 64)
        if hi is not None:
            m = (1 << nb) - 1 if t["k"] == "uint" else (1 << nb - 1) - 1
            return FALSE if hi <= m else mk("any", self.ctx(st, "ov%d" % st.idx))
        counter = all(x.op in ("int", "lin", "itv", "top") for x in (a, b))
        if nb > 16 and counter or t.get("s") in ("usize", "isize") or nb > 32 and counts(a) and counts(b):
            return FALSE         # (lengths and positions of what is in memory)
        return mk("any", self.ctx(st, "ov%d" % st.idx))

    CONSTS = ("str", "int", "char", "bool", "float")

    def eq(self, a, b):
        if a is b and a.op not in ("top", "any"):
            return TRUE
        if a.op in self.CONSTS and b.op in self.CONSTS:
            return FALSE
        if a.op == "bool" or b.op == "bool":
            k, x = (a, b) if a.op == "bool" else (b, a)
            return x if k.a[0] else mk("not", x)
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0]:
            if a.a[2] != b.a[2]:
                return FALSE
            es = [self.eq(x, y) for x, y in zip(a.a[3], b.a[3])]
            if all(e is TRUE for e in es):
                return TRUE
            if any(e is FALSE for e in es):
                return FALSE
            if len(es) == 1:
                return es[0]
        if a.op == "list" and b.op == "list" and not a.a[0] and not b.a[0]:
            return TRUE
        if b.n < a.n:
            a, b = b, a
        if a.op in self.CONSTS:
            a, b = b, a
        return mk("eq", a, b)

    # truth of a boolean value in a state: True/False or fork
    def truth_states(self, st, v):
        """list of (state, bool)"""
        if v.op == "bool":
            return [(st, v.a[0])]
        if v.op == "not":
            return [(s, not b) for s, b in self.truth_states(st, v.a[0])]
        if v.op == "and" or v.op == "or":
            out = []
            for s, b in self.truth_states(st, v.a[0]):
                if b == (v.op == "or"):
                    out.append((s, b))
                else:
                    out += self.truth_states(s, v.a[1])
            return out
        if v.op == "isvar":
            x, tid, d = v.a
            opts = self.discr_options(st, x, tid)
            vs = self.p.types[tid]["vs"]
            y = [i for i in opts if vs[i]["d"] == d]
            n = [i for i in opts if vs[i]["d"] != d]
            out = []
            for os_, b in ((y, True), (n, False)):
                if os_:
                    s = st.clone() if y and n else st
                    self.set_discr(s, x, os_)
                    out.append((s, b))
            return out
        if v.op == "undef":
            raise Unsupported("branch on undefined value")
        k = self.fact(st, v)
        if k is None and v.op == "cmp":
            r = cmp_ints(v.a[0], v.a[1], v.a[2], st.w)
            if r is not None:
                return [(st, r)]
        if k is not None:
            return [(st, k)]
        if v.op == "phi":
            pv = self.curphi.get(v)
            if pv is not None and "any" not in pv:
                out = []
                for b in (True, False):
                    if b in pv:
                        s = st.clone()
                        self.assume(s, v, b)
                        out.append((s, b))
                return out
        out = []
        for b in (True, False):
            s = st.clone()
            try:
                self.assume(s, v, b)
            except Infeasible:
                continue
            out.append((s, b))
        return out

    # ---------- terminators
    def switch(self, st, t):
        v = self.operand(st, t[1])
        kt = self.p.types[t[4]]["k"]
        targets = [(int(x), b) for x, b in t[2]]
        other = t[3]
        out = []
        if kt == "bool":
            tm = dict(targets)
            for s, b in self.truth_states(st, v):
                s.blk, s.idx = tm.get(int(b), other), 0
                out.append(s)
            return out
        if v.op == "int":
            n = v.a[0]
            for x, b in targets:
                if x == n or (n < 0 and x == n + (1 << 128)) or (n < 0 and any(x == n + (1 << w) for w in (8, 16, 32, 64))):
                    st.blk, st.idx = b, 0
                    return [st]
            st.blk, st.idx = other, 0
            return [st]
        if v.op == "char":
            for x, b in targets:
                if x == v.a[0]:
                    st.blk, st.idx = b, 0
                    return [st]
            st.blk, st.idx = other, 0
            return [st]
        if v.op == "discrv":
            x, tid = v.a
            vs = self.p.types[tid]["vs"]
            opts = self.discr_options(st, x, tid)
            by = {}
            for i in opts:
                d = vs[i]["d"]
                tgt = other
                for y, b in targets:
                    if y == d or (d < 0 and y == d + (1 << 64)):
                        tgt = b
                by.setdefault(tgt, []).append(i)
            for tgt, o in by.items():
                if self.p_unreachable(st, tgt):
                    continue
                s = st.clone()
                try:
                    self.set_discr(s, x, o)
                except Infeasible:
                    continue
                s.blk, s.idx = tgt, 0
                out.append(s)
            return out
        # symbolic integers/chars
        rest = st
        for x, b in targets:
            c = I(x) if kt != "char" else mk("char", x)
            e = self.binop(rest, "Eq", v, c, t[4]) if v.op in ("lin", "itv") else self.eq(v, c)
            if v.op in ("top", "any", "opq", "undef"):
                e = mk("any", self.ctx(st, "sw%d" % x))
            nxt = None
            for s, r in self.truth_states(rest, e):
                if r:
                    s.blk, s.idx = b, 0
                    out.append(s)
                else:
                    nxt = s
            if nxt is None:
                return out
            rest = nxt
        rest.blk, rest.idx = other, 0
        out.append(rest)
        return out

    def p_unreachable(self, st, blk):
        b = st.frames[-1].fn.blocks[blk]
        return b[1][0] == "unr"

    def enter(self, st, fid, args, dest, ret, cal=None):
        fn = self.p.fns[fid]
        self.seen_fns.add(fid)
        if len(st.frames) > 60 or sum(1 for f in st.frames if f.fn.id == fid) >= 3:
            raise Unsupported("recursion: " + fn.full)
        fr = Frame(fn, dest, ret, st.blk)
        if cal is not None and fn.closure and cal["decl"].startswith("std::ops::Fn") and len(args) == 2:
            tup = args[1]
            if tup.op == "tup":
                args = [args[0]] + list(tup.a[0])
            else:
                args = [args[0]] + [mk("fld", tup, None, i) for i in range(fn.argc - 1)]
        d = len(st.frames)
        for k in [k for k in st.store if k[0] == d]:
            del st.store[k]
        st.frames.append(fr)
        for i, a in enumerate(args):
            st.store[(d, i + 1)] = a
        st.blk, st.idx = 0, 0
        return [st]

    def leave(self, st):
        d = len(st.frames) - 1
        v = st.store.get((d, 0), UNDEF)
        if self.p.types[st.frames[-1].fn.locals[0]]["s"] == "()":
            v = UNIT
        fr = st.frames.pop()
        for k in [k for k in st.store if k[0] == d]:
            del st.store[k]
        return fr, v

    def set_dest(self, st, dest, v, tgt):
        """finish a call in the current (caller) frame"""
        if tgt is None:
            return []
        cell, proj = dest
        self.write_cell(st, cell, proj, v)
        st.blk, st.idx = tgt, 0
        return [st]

    def call(self, st, t):
        cal = t[1]
        args = [self.operand(st, o) for o in t[2]]
        if "ptr" in cal:
            f = self.operand(st, cal["ptr"])
            if f.op == "fn":
                cal = self.user["fnrefs"][f.a[0]]
            else:
                cal = {"decl": "<fnptr>", "args": [], "kind": "ptr"}
        cell, proj, snap, _ = self.resolve(st, t[3])
        dest = (cell, proj)
        self.called[cal["decl"]] += 1
        res = None if cal.get("ctor") else self.models.call(self, st, cal, args, dest, t)
        if res is not None:
            return res
        if "id" in cal and not cal.get("ctor"):
            return self.enter(st, cal["id"], args, dest, t[4], cal)
        if cal.get("ctor"):
            tid = t[3][2]
            name = cal["decl"].split("::")[-1]
            ty = self.p.types[tid]
            vi = 0
            for i, v in enumerate(ty.get("vs", [])):
                if v["n"] == name:
                    vi = i
            return self.set_dest(st, dest, self.adt(tid, vi, tuple(args)), t[4])
        return self.models.opaque(self, st, cal, args, dest, t)

    # ---------- running
    def step(self, st):
        """execute from (blk, idx) to the end of the block; returns successor states (or [] for terminal)"""
        fn = st.frames[-1].fn
        stmts, term = fn.blocks[st.blk]
        while st.idx < len(stmts):
            x = stmts[st.idx]
            if x[0] == "=":
                v = self.rvalue(st, x[2], x[1])
                self.write(st, x[1], v)
            elif x[0] == "dead":
                st.store.pop((len(st.frames) - 1, x[1]), None)
            elif x[0] == "sd":
                tid = x[1][2]
                cell, proj, snap, _ = self.resolve(st, x[1])
                old = self.project(st, self.get_cell(st, cell), proj)
                fs = old.a[3] if old.op == "adt" else (old.a[0] if old.op == "tup" else ())
                self.write_cell(st, cell, proj, self.adt(tid, x[2], fs))
            st.idx += 1
        k = term[0]
        if k == "goto":
            st.blk, st.idx = term[1], 0
            return [st]
        if k == "drop":
            st.blk, st.idx = term[2], 0
            return [st]
        if k == "sw":
            return self.switch(st, term)
        if k == "assert":
            if term[3] == "pointer":          # raw pointers only occur inside std's own macros
                st.blk, st.idx = term[4], 0
                return [st]
            c = self.operand(st, term[1])
            out = []
            for s, b in self.truth_states(st, c):
                if b == term[2]:
                    s.blk, s.idx = term[4], 0
                    out.append(s)
                else:
                    self.terminal(s, "panic", "assertion failed: " + term[3], fn.name, term[5])
            return out
        if k == "call":
            return self.call(st, term)
        if k == "ret":
            if len(st.frames) == 1:
                v = st.store.get((0, 0), UNDEF)
                self.terminal(st, "return", v, None, None)
                return []
            fr, v = self.leave(st)
            return self.set_dest(st, fr.dest, v, fr.ret)
        if k == "unr":
            return []
        if k in ("resume",):
            return []
        raise Unsupported("terminator " + k)

    def terminal(self, st, kind, info, fn, line):
        """record an edge to a terminal node"""
        n = self.new_node(None, st, False, kind)
        n.info = (info, fn, line)
        n.ret = info if kind == "return" else None
        n.dirty = False
        self.edge(st, n)
        if kind == "return" and self.stop is not None and self.stop(self, n):
            raise Found()

    stop = None

    def new_node(self, key, st, head, kind):
        if len(self.nodes) >= self.node_limit:
            raise Budget("node limit")
        n = Node(len(self.nodes), key, st, head, kind)
        self.nodes.append(n)
        return n

    def edge(self, st, node):
        self.cur.out.append((tuple(st.labels), node))
        if node.pred is None and node is not self.cur:
            node.pred = (self.cur, tuple(st.labels))

    # ---------- cleaning, keys
    def clean(self, st):
        live = set()
        work = []
        top = len(st.frames) - 1
        for i, f in enumerate(st.frames):
            if i == top:
                lv = f.fn.live()[st.blk]
            else:
                nx = st.frames[i + 1]
                if nx.ret is None:
                    lv = ()
                else:
                    lv = f.fn.live()[nx.ret]
                    cell, proj = nx.dest
                    if proj and cell[0] == i:
                        lv = set(lv) | {cell[1]}
            for l in lv:
                if (i, l) in st.store:
                    work.append((i, l))
        for k in st.store:
            if k[0] == -1:
                work.append(k)
        while work:
            c = work.pop()
            if c in live:
                continue
            live.add(c)
            v = st.store.get(c)
            if v is None:
                continue
            for x in subterms(v):
                if x.op == "ref":
                    k = (x.a[0], x.a[1])
                    if k not in live:
                        work.append(k)
        st.store = {k: v for k, v in st.store.items() if k in live}

    def fkey(self, st):
        return tuple((f.fn.id, f.ctx, f.ret, f.dest[0] if f.dest else None, tuple(f.dest[1]) if f.dest else None) for f in st.frames) + (st.blk,)

    SYMS = ("ev", "sym", "elem", "phi", "foc", "old", "anon", "any", "opq")

    def symbols(self, t):
        return [x for x in subterms(t) if x.op in self.SYMS]

    def kept_facts(self, st):
        subs = set()
        for v in st.store.values():
            subs |= subterms(v)
        for v in st.w.stack:
            subs |= subterms(v)
        for _, v in st.w.g:
            if isinstance(v, Term):
                subs |= subterms(v)
        if any(x.op == "attrs" and x.a[0] is OWN for x in subs):
            subs.add(FOCM)
        keep = {}
        for k, v in st.facts.items():
            if all(x in subs or x.op in ("sym", "own") for x in self.symbols(k)):
                keep[k] = v
        return keep

    keep_adt = None              # values of this type are told apart by variant, never joined across

    def skel(self, v, nested=False):
        """the part of a value that distinguishes loop-head states (the rest is joined)"""
        o = v.op
        if nested and o in ("bool", "str") and not self.exact_lists:
            return None
        if o in ("bool", "char", "str", "ref", "iter"):
            return v
        if self.exact_lists and o in ("list", "startb", "mapl", "sns", "sattr"):
            return v
        ss = subterms(v)
        for x in ss:
            if self.exact_lists and x.op in ("tpart", "tneed", "tsome") or x.op == "foc" or x.op == "adt" and x.a[0] == "xml::reader::XmlEvent":
                return v
        if o == "adt":
            k = tuple(self.skel(x, True) for x in v.a[3])
            if v.a[0] == self.keep_adt:
                return (v.a[2], k)
            return (v.a[2], k) if any(x is not None for x in k) else None
        if o == "tup":
            k = tuple(self.skel(x) for x in v.a[0])
            return k if any(x is not None for x in k) else None
        if o == "clo":
            k = tuple(self.skel(x) for x in v.a[1])
            return (v.a[0], k) if any(x is not None for x in k) else None
        return None

    def anonymise(self, st):
        w = st.w
        if len(w.stack) < 2:
            return
        subs = set()
        for v in st.store.values():
            subs |= subterms(v)
        ns = tuple(x if i == 0 or x in subs or any(y.op == "foc" for y in subterms(x)) else mk("anon", i) for i, x in enumerate(w.stack))
        if ns != w.stack:
            st.w = w.copy(stack=ns)

    def wkey(self, w):
        return tuple(getattr(w, f) for f in w.F if f != "stack")

    def head_key(self, st, fk):
        sk = []
        for c, v in st.store.items():
            if v.op in ("bool", "phi") and c[0] >= 0 and c[1] in st.frames[c[0]].fn.flags:
                continue
            k = self.skel(v)
            if k is not None:
                sk.append((c, k))
        if self.exact_lists:
            ff = frozenset((k, v) for k, v in st.facts.items() if all(x.op == "sym" for x in self.symbols(k)))
        else:
            ff = frozenset((k, v) for k, v in st.facts.items() if any(x.op == "foc" for x in subterms(k)))
        return ("H", fk, st.w.key(), frozenset(sk), ff)

    def try_fold(self, st, fk):
        """the stack at this head has grown by one element over an earlier state: make the excess symbolic"""
        w = st.w
        if w.star or len(w.stack) < 3:
            return
        for i in range(len(w.stack) - 1, 1, -1):
            pre = w.stack[:i]
            if any(x.op != "anon" for x in w.stack[i:]):
                return
            base = None
            key = (fk, pre, self.wkey(w))
            m = self.cur
            while m is not None:
                if m.hkey == key:
                    base = m
                    break
                m = m.pred[0] if m.pred else None
            if base is None and len(w.stack) > self.stack_limit + 3:
                base = self.heads_by.get(key)
            if base is None:
                continue
            n = len(w.stack) - i
            for c, v in list(st.store.items()):
                st.store[c] = self.affine(base.state.store.get(c), v, n)
            st.w = w.copy(stack=pre, star=True)
            return

    def affine(self, b, v, n):
        if b is None or b is v:
            return v
        x, y = lin_of(b), lin_of(v)
        if x and y and x[1] == y[1] and x[2] == y[2] == 0 and (y[0] - x[0]) == n:
            return mklin(x[0], x[1], 1)
        if b.op == v.op == "adt" and b.a[0] == v.a[0] and b.a[2] == v.a[2] and len(b.a[3]) == len(v.a[3]):
            return mk("adt", v.a[0], v.a[1], v.a[2], tuple(self.affine(p, q, n) for p, q in zip(b.a[3], v.a[3])))
        if b.op == v.op == "tup" and len(b.a[0]) == len(v.a[0]):
            return mk("tup", tuple(self.affine(p, q, n) for p, q in zip(b.a[0], v.a[0])))
        return v

    def arrive(self, st):
        """st is at a merge block; connect the current node to the node for it"""
        fn = st.frames[-1].fn
        self.clean(st)
        head = st.blk in fn.heads
        self.models.at_merge(self, st, head)
        st.facts = self.kept_facts(st)
        fk = self.fkey(st)
        if head:
            self.anonymise(st)
            self.try_fold(st, fk)
            k = self.head_key(st, fk)
            n = self.index.get(k)
            if n is None:
                n = self.new_node(k, st.clone(), True, "node")
                n.state.labels = []
                self.index[k] = n
                n.hkey = (fk, st.w.stack, self.wkey(st.w))
                self.heads_by.setdefault(n.hkey, n)
                self.edge(st, n)
                self.todo.append(n)
                return
            self.edge(st, n)
            if self.join_into(n, st):
                if not n.dirty:
                    n.dirty = True
                    self.todo.append(n)
            return
        full = ("M", fk, st.w.key(), frozenset(st.store.items()), frozenset(st.facts.items()))
        n = self.index.get(full)
        if n is None:
            n = self.new_node(full, st.clone(), False, "node")
            n.state.labels = []
            self.index[full] = n
            self.todo.append(n)
        self.edge(st, n)

    def join_into(self, n, st):
        s0 = n.state
        self._changed = False
        own = {p: mk("old", p) for p in n.phivals}
        new = {}
        for k in s0.store:
            if k not in st.store:
                self._changed = True
                continue
            new[k] = self.join_val(n, k, (), s0.store[k], st.store[k], own)
        s0.store = new
        f = {}
        for k, v in s0.facts.items():
            if any(x.op == "phi" and x.a[0] == n.id for x in subterms(k)):
                continue
            if k in st.facts:
                if st.facts[k] == v:
                    f[k] = v
                elif k.op == "discr":
                    f[k] = v | st.facts[k]
        if f != s0.facts:
            s0.facts = f
            self._changed = True
        return self._changed

    _changed = False

    def join_val(self, n, loc, path, a, b, own):
        if a is b:
            return a
        phi = mk("phi", n.id, loc, path)
        num = ("int", "lin", "itv")
        if (a.op in num or a is TOP) and (b.op in num or b is TOP):
            if a is TOP:
                return TOP
            if b is TOP:
                self._changed = True
                return TOP
            w = n.state.w
            (al, ah), (bl, bh) = itv_of(a, w), itv_of(b, w)
            lo = al if (al is not None and bl is not None and al <= bl) else None
            hi = ah if (ah is not None and bh is not None and ah >= bh) else None
            if lo is None and al is not None and bl is not None:
                for th in (1, 0):
                    if bl >= th:
                        lo = th
                        break
            r = mkitv(lo, hi)
            if r is not a:
                self._changed = True
            return r
        J = lambda step, x, y: self.join_val(n, loc, path + (step,), x, y, own)
        if a.op == "adt" and b.op == "adt" and a.a[0] == b.a[0] and a.a[2] == b.a[2] and len(a.a[3]) == len(b.a[3]) and a.a[3]:
            return mk("adt", a.a[0], a.a[1], a.a[2], tuple(J((a.a[2], i), x, y) for i, (x, y) in enumerate(zip(a.a[3], b.a[3]))))
        if a.op == "tup" and b.op == "tup" and len(a.a[0]) == len(b.a[0]):
            return mk("tup", tuple(J((None, i), x, y) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))))
        if a.op == "clo" and b.op == "clo" and a.a[0] == b.a[0]:
            return mk("clo", a.a[0], tuple(J((None, i), x, y) for i, (x, y) in enumerate(zip(a.a[1], b.a[1]))))
        if a.op == "ref" or b.op == "ref":
            raise Unsupported("join of mutable references")
        if a is not phi:
            self._changed = True
            self.add_phi(n, phi, a)
        if b is not phi:
            self.add_phi(n, phi, subst(b, own) if own else b)
        return phi

    def add_phi(self, n, phi, v):
        if v is not phi and not (v.op == "old" and v.a[0] is phi):
            self.phi_src.setdefault(phi, set()).add(v)
        s = n.phivals.setdefault(phi, set())
        n0 = len(s)
        self._add_phi(n, phi, v, s)
        if len(s) != n0:
            self.phi_grew.add(phi)

    def _add_phi(self, n, phi, v, s):
        if v is phi or v.op == "old" and v.a[0] is phi:
            return
        if v.op == "adt":
            x = v.a[2]
        elif v.op == "bool":
            x = v.a[0]
        elif v.op == "phi" or v.op == "old" and v.a[0].op == "phi":
            p = v if v.op == "phi" else v.a[0]
            for x in self.curphi.get(p, ("any",)):
                if x not in s:
                    s.add(x)
                    self._changed = True
            return
        else:
            x = "any"
        if x not in s:
            s.add(x)
            self._changed = True

    def all_phi(self):
        m = {}
        for n in self.nodes:
            for k, v in n.phivals.items():
                m[k] = v
        return m

    def explore(self, init):
        """fixpoint; init: State at block 0"""
        self.todo = collections.deque()
        n0 = self.new_node(("init",), init, False, "init")
        self.entry = n0
        self.todo.append(n0)
        while self.todo:
            n = self.todo.popleft()
            if not n.dirty:
                continue
            n.dirty = False
            self.cur = n
            n.out = []
            self.curphi = self.all_phi()
            s = n.state.clone()
            s.labels = []
            self.phi_grew = set()
            self.run_from(s)
            if self.phi_grew:
                for m in self.nodes:
                    if not m.dirty and m.state is not None and m.kind in ("node", "init") and any(
                            x in self.phi_grew for v in m.state.store.values() for x in subterms(v) if x.op == "phi"):
                        m.dirty = True
                        self.todo.append(m)
        # drop unreachable stale nodes
        reach, work = {n0.id}, [n0]
        while work:
            n = work.pop()
            for _, m in n.out:
                if m.id not in reach:
                    reach.add(m.id)
                    work.append(m)
        self.live_nodes = [n for n in self.nodes if n.id in reach]
        return self

    def run_from(self, s):
        work = [s]
        first = True
        while work:
            st = work.pop()
            self.steps += 1
            if self.steps > self.step_limit:
                raise Budget("step limit")
            if not self.steps & 1023 and time.time() > self.deadline:
                raise Budget("time limit")
            try:
                succ = self.step(st)
            except Infeasible:
                continue
            except Fork as f:
                work.extend(f.states)
                continue
            for x in succ:
                fn = x.frames[-1].fn
                if x.idx == 0 and (x.blk in fn.heads or self.merge and x.blk in fn.merge):
                    try:
                        self.arrive(x)
                    except Infeasible:
                        pass
                else:
                    work.append(x)

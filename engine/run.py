"""Running the analyses over probes: load a dump, run tasks, collect alarms and statistics."""
import collections, json, re, time
import absint, models, demon, sermon
from absint import mk, Prog, Engine, State, Frame, World, Budget, Unsupported, Infeasible, show, Term


def load(path):
    t = open(path).read()
    t = re.sub(r'\byaserde::(?:\w+::)*?(xml|log)::', r'\1::', t)
    return Prog(json.loads(t))


def init_state(prog, root, args=()):
    fn = prog.fns[prog.roots[root]]
    st = State()
    st.frames = [Frame(fn, None, None, "root")]
    st.blk = st.idx = 0
    st.store, st.facts, st.labels = {}, {}, []
    st.w = World(dmin=0, dmax=0)
    for i, a in enumerate(args):
        st.store[(0, i + 1)] = a
    return st


def fmt_label(l):
    def f(x):
        if isinstance(x, Term):
            return show(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(f(y) for y in x) + ")"
        if isinstance(x, frozenset):
            return str(sorted(x))
        return str(x)
    return " ".join(f(x) for x in l)


def trace(node, labels=()):
    chain = []
    n, seen = node, set()
    while n is not None and n.id not in seen:
        seen.add(n.id)
        if n.pred is None:
            break
        n, labs = n.pred
        chain.append(labs)
    chain.reverse()
    out = []
    for labs in chain + [labels]:
        for l in labs:
            if l[0] in ("new",):
                continue
            out.append(fmt_label(l))
    return out[-120:]


class Result:
    def __init__(self, task):
        self.task = task
        self.alarms = []      # dict(props, msg, fn, trace)
        self.steps = self.nodes = self.exits = 0
        self.budget = None
        self.lost = ()
        self.unmodelled = []
        self.fns = set()
        self.stats = collections.Counter()

    def add(self, props, msg, node=None, labels=(), fn=""):
        if self.budget and "phi(" in msg:
            self.stats["partial-alarms-dropped"] += 1     # not a fixpoint: values still being joined prove nothing
            return
        if self.lost:
            self.stats["undecided-alarms-dropped"] += 1
            self.budget = self.budget or "lost track of " + sorted(self.lost)[0]
            return
        key = (tuple(props), msg)
        if any((tuple(a["props"]), a["msg"]) == key for a in self.alarms):
            return
        self.alarms.append(dict(props=list(props), msg=msg, fn=fn, task=self.task, trace=trace(node, labels) if node is not None else []))


def explore(prog, m, root, args, res, merge=False, step_limit=400000, node_limit=6000, exact=False, keep_adt=None,
            stop=None):
    e = Engine(prog, m, merge=merge, step_limit=step_limit, node_limit=node_limit)
    e.keep_adt = keep_adt
    e.live_nodes = None
    e.exact_lists = exact
    e.stop = stop
    try:
        e.explore(init_state(prog, root, args))
    except Budget as b:
        res.budget = str(b)
        e.live_nodes = list(e.nodes)
    except absint.Found:
        e.live_nodes = list(e.nodes)
    res.steps, res.nodes = e.steps, len(e.nodes)
    res.unmodelled = sorted(e.unmodelled)
    res.lost = e.lost
    res.fns = {prog.fns[f].full for f in e.seen_fns}
    return e


def ser_task(prog, t, root="root_ser", limit=400000):
    res = Result("serialize " + t.desc())
    m = models.Models(prog, target=t.name)
    mon = sermon.SerMonitor(m, t)
    m.mon = mon
    e = explore(prog, m, root, [sermon.X, sermon.N, sermon.SKIP], res, step_limit=limit, exact=True)
    for n in e.live_nodes:
        if n.kind == "return":
            e.cur = n
            r = n.ret
            res.exits += 1
            if r.op != "adt":
                res.stats["undecided-exit"] += 1
                continue
            mon.finish(e, n.state.clone(), r.a[2] == 0)
        elif n.kind == "panic":
            res.add(("C01",), "serialization can panic: %s" % show(n.info[0]) if isinstance(n.info[0], Term) else "serialization can panic: %s" % (n.info[0],), n)
    for a in m.alarms:
        res.add(a.get("props", ("C03",)), a["msg"], a["node"], a["labels"], a["fn"])
    res.stats["ops"] = len(mon.ops)
    res.stats["ops-emitted"] = sum(1 for u in mon.used if u[0])
    res.stats["ops-skipped"] = sum(1 for u in mon.used if u[1])
    res.stats["writes"] = len({(n.id, i, j) for n in e.live_nodes for i, (labs, _) in enumerate(n.out) for j, l in enumerate(labs) if l[0] == "write"})
    res.stats["conds"] = sum(1 for o in mon.ops if o.field is not None and o.field.conditional())
    return res


def sattr_task(prog, t):
    res = Result("serialize_attributes " + t.desc())
    m = models.Models(prog, target=t.name)
    mon = sermon.SerMonitor(m, t)
    m.mon = mon
    A, NS = mk("sym", "source_attributes"), mk("sym", "source_namespace")
    e = explore(prog, m, "root_sattr", [sermon.X, A, NS], res, exact=True)
    for n in e.live_nodes:
        if n.kind == "panic":
            res.add(("C01",), "serialize_attributes can panic", n)
        if n.kind != "return":
            continue
        e.cur = n
        r = n.ret
        res.exits += 1
        st = n.state
        if r.op != "adt":
            res.stats["undecided-exit"] += 1
            continue
        if r.a[2] == 1:
            if not st.w.get("failed"):
                res.add(("C03", "C07"), "serialize_attributes fails without a nested failure", n)
            continue
        if st.w.get("failed"):
            res.add(("C01",), "serialize_attributes reports success although a nested value failed", n)
            continue
        tup = r.a[3][0]
        if tup.op != "tup":
            res.add(("C07", "C03"), "serialize_attributes returns %s" % show(tup), n)
            continue
        ga, gn = (models.items_of(x) for x in tup.a[0])
        for s, want in mon.attr_items(e, st.clone()):
            for p, msg in mon.cmp_attrs(e, s, [mk("all", A)] + want, ga):
                res.add(tuple(p) + ("C07",), "serialize_attributes: " + msg, n)
            for s2, wn in mon.ns_items(e, s):
                for p, msg in mon.cmp_ns(e, s2, [mk("all", NS)] + wn, gn):
                    res.add(p, "serialize_attributes: " + msg, n)
    for a in m.alarms:
        res.add(a.get("props", ("C03",)), a["msg"], a["node"], a["labels"], a["fn"])
    return res


# ---------------------------------------------------------------- deserialization
OWN = mk("ev", "own")
PROGRESS = {"Start", "End", "Characters", "CData", "Whitespace", "Comment", "ProcessingInstruction", "StartDocument"}
READER_CFG = {"trim_whitespace": True, "whitespace_to_characters": True, "cdata_to_characters": True, "ignore_comments": True,
              "coalesce_characters": True}


def sccs(nodes, edges):
    """strongly connected components with a cycle; edges: dict id -> list of ids"""
    idx, low, on, st, out, n = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(edges.get(r, ())))]
        idx[r] = low[r] = n[0]
        n[0] += 1
        st.append(r)
        on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(edges.get(w, ()))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    c = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.append(w)
                        if w == v:
                            break
                    if len(c) > 1 or v in edges.get(v, ()):
                        out.append(set(c))
    return out


def nonterminating(e):
    """cycles of the abstract state graph on which nothing finite is consumed"""
    byid = {n.id: n for n in e.live_nodes}
    E = []
    for n in e.live_nodes:
        for labs, m in n.out:
            if any(l[0] == "read" and l[1] in PROGRESS for l in labs):
                continue
            E.append((n.id, m.id, labs))
    while True:
        adj = {}
        for a, b, _ in E:
            adj.setdefault(a, []).append(b)
        cs = sccs(list(byid), adj)
        comp = {v: i for i, c in enumerate(cs) for v in c}
        keep = []
        dropped = False
        inside = [(a, b, l) for a, b, l in E if a in comp and comp.get(a) == comp.get(b)]
        fresh = {}
        for a, b, l in inside:
            for x in l:
                if x[0] == "iter-new":
                    fresh.setdefault(comp[a], set()).add(x[1])
        for a, b, l in inside:
            ls = [x[2] for x in l if x[0] == "iter-next" and len(x) > 2]
            if any(L not in fresh.get(comp[a], ()) for L in ls):
                dropped = True
                continue
            keep.append((a, b, l))
        if not dropped:
            return [sorted(c) for c in cs], byid
        E = keep


def focus_of(t, f):
    role = f.role if f.role in ("attribute", "text") else "element"
    return demon.Focus(role, f.name, t.uri(f.prefix) if role == "element" else "", f.ty, f.wrap, f.scalar, f.index, f.ident, f.dflt_fn() if f.default else None,
                       split=role == "attribute" and f.wrap == "vec")


def mentions(msg, ops):
    return any(x.op in ops for x in absint.subterms(msg))


def required_msg(t, f):
    return "%s is a required field of %s" % (f.ident, t.name)


def symbol_kinds(v):
    ks = set()
    for x in absint.subterms(v):
        if x.op == "ev":
            ks.add(str(x.a[-1]) if len(x.a) > 1 else "own")
        elif x.op == "foc":
            ks.add("foc:" + x.a[0])
        elif x.op in ("parse", "default", "phi", "any", "elem"):
            ks.add(x.op)
    return ks


def common_exits(e, m, res, tag):
    """obligations every deserialization root shares: no panic, progress, reader configuration"""
    for n in e.live_nodes:
        if n.kind == "panic":
            what = show(n.info[0]) if isinstance(n.info[0], Term) else str(n.info[0])
            res.add(("D10",), "%s can panic: %s in %s" % (tag, what, n.info[1]), n)
    cyc, byid = nonterminating(e)
    for c in cyc:
        n = byid[c[0]]
        fns = sorted({byid[i].state.frames[-1].fn.name for i in c if byid[i].state is not None})
        res.add(("D11",), "%s can repeat without consuming input in %s" % (tag, ", ".join(fns)), n)
    for a in m.alarms:
        props = a.get("props") or {"overrun": ("D22", "D11", "D17"), "misplaced": ("D22", "D14", "D17")}.get(a["kind"], ("D14",))
        res.add(props, "%s: %s" % (tag, a["msg"]), a["node"], a["labels"], a["fn"])
    res.stats["progress-cycles"] += 1


def reader_config(e, m):
    """parser configurations seen in the explored states"""
    out = set()
    for n in e.live_nodes:
        if n.state is None:
            continue
        for v in n.state.store.values():
            for x in absint.subterms(v):
                if x.op == "reader":
                    out.add(x.a[0])
    return out


def check_variant(e, res, t, v, n, val):
    """the enum value returned, as far as variant v is concerned"""
    w = n.state.w
    if val.op not in ("adt", "call"):
        res.stats["undecided-exit"] += 1
        res.stats["undecided " + show(val)[:80]] += 1
        return
    exp = w.get("exp")
    res.stats["values-compared"] += 1
    if val.op == "call":
        if val is not mk("call", "u_default_" + t.name, ()):
            res.stats["undecided-exit"] += 1
        elif exp is not None:
            res.add(("D20",), "the document names variant %s, yet the default value is returned" % v.ident, n)
        return
    if val.a[2] != v.index:
        return
    if exp is None:
        res.add(("D20",), "variant %s is returned although nothing in the document names it: %s" % (v.ident, show(val)[:160]), n)
        return
    if v.payload is None:
        return
    want = e.some(exp) if v.payload.wrap == "opt" else exp
    if val.a[3][0] is not want:
        res.add(("D20",), "variant %s holds %s instead of %s" % (v.ident, show(val.a[3][0])[:200], show(want)[:200]), n)


def check_variant_err(e, res, t, v, n, msg, top):
    w = n.state.w
    ns = mk("ns", OWN)
    if top and n.state.facts.get(mk("discr", ns)) == frozenset([1]) and not (t.uri(t.prefix) and n.state.facts.get(
            e.eq(mk("fld", ns, 1, 0), absint.S(t.uri(t.prefix))))):
        return                      # a root in another namespace than the declared one
    if w.get("odd") or sum(1 for x in t.variants if x.payload and x.payload.wrap == "vec") and len(t.variants) > 1:
        return
    for x in t.variants:
        if x.payload and n.state.facts.get(e.eq(mk("local", OWN), absint.S(x.name))):
            return                  # payload taken from the own element: element content is no scalar
    res.add(("D20",), "well-formed input is rejected: %s" % show(msg)[:160], n)


def variants_of(t, f):
    return t.name if t.is_enum and f is not None else None


def monitor_for(m, t, f, **kw):
    if t.is_enum and f is not None:
        return demon.EnumMonitor(m, t, f, **kw), None
    focus = focus_of(t, f) if f is not None else demon.Focus()
    if t.flatten and not t.is_enum:
        kw["flat"] = t
    return demon.DeMonitor(m, focus, **kw), focus


def de_task(prog, t, f, limit=300000):
    """one focus field (None: structure only), nested cursor"""
    res = Result("deserialize " + t.desc() + (" / " + f.ident if f is not None else " / structure"))
    m = models.Models(prog, target=t.name)
    m.mon, focus = monitor_for(m, t, f)
    e = explore(prog, m, "root_nest", [], res, step_limit=limit, keep_adt=variants_of(t, f))
    what = "deserializing field %s" % f.ident if f is not None else "deserializing"
    common_exits(e, m, res, "deserialization")
    for n in e.live_nodes:
        if n.kind != "return":
            continue
        r = n.ret
        if r.op != "adt":
            res.stats["undecided-exit"] += 1
            continue
        if r.a[2] == 1:
            continue            # the cursor itself could not be set up
        res.exits += 1
        x, d, p = r.a[3][0].a[0]
        if x.op != "adt":
            res.stats["undecided-exit"] += 1
            continue
        if x.a[2] == 0:
            check_ok(e, res, t, f, focus, n, x.a[3][0], d, p)
        else:
            check_err(e, res, t, f, n, x.a[3][0])
    return res


def top_task(prog, t, f=None, limit=300000, doc=False):
    """the whole document entry point: deserialization from the start of the input"""
    res = Result("from_reader " + t.desc() + (" / " + f.ident if f is not None else " / structure") + (" / without own element" if doc else ""))
    m = models.Models(prog, target=t.name)
    m.mon, focus = monitor_for(m, t, f, root_uri=t.uri(t.prefix) or None, root_check=True, **(dict(doc=True) if doc else {}))
    e = explore(prog, m, "root_top", [], res, step_limit=limit, keep_adt=variants_of(t, f))
    common_exits(e, m, res, "from_reader")
    for c in reader_config(e, m):
        fl = m.parser_flags(c)
        for k, v in READER_CFG.items():
            if fl.get(k) is None:
                res.stats["undecided-config"] += 1
            elif fl.get(k) is not v:
                res.add(("D16",), "from_reader configures the parser with %s = %s instead of %s" % (k, fl.get(k), v), e.entry)
        res.stats["reader-configs"] += 1
    for n in e.live_nodes:
        if n.kind != "return":
            continue
        x = n.ret
        if x.op != "adt":
            res.stats["undecided-exit"] += 1
            continue
        res.exits += 1
        if x.a[2] == 0:
            check_ok(e, res, t, f, focus, n, x.a[3][0], None, None)
        else:
            check_err(e, res, t, f, n, x.a[3][0], True)
    return res


def check_ok(e, res, t, f, focus, n, val, d, p):
    st = n.state
    w = st.w
    if p is None:
        w = w.put(rdx=w.rd)
    if w.get("rdx") == "err":
        res.add(("D12",), "a value is returned although the parser reported an error", n)
        return
    if w.get("rdx") == "eof" and not w.get("any"):
        res.add(("D11", "D22"), "a value is returned although the document ended inside the element", n)
        return
    if p is None and (w.stack != (OWN,) or w.star) and not (w.stack == () and not w.entry):
        res.add(("D17", "D22", "D14"), "a value is returned in the middle of the document", n)
        return
    if p is not None and not (p.op == "adt" and p.a[2] == 1):
        ok = p.op == "adt" and p.a[3][0].op == "adt" and p.a[3][0].a[1] == "EndElement" and p.a[3][0].a[3][0] is models.name_of(OWN)
        dl = absint.lin_of(d)
        if not ok or dl != (1, 1, 0):
            res.add(("D22", "D17"), "returns with the cursor at %s, depth %s instead of its own end tag, depth (d0+1)" % (
                show(p.a[3][0])[:120] if p.op == "adt" else show(p), show(d)), n)
            return
    mf = w.get("mf")
    if mf:
        props = ("D19",) if mf == "root namespace" else ("D13",)
        res.add(props, "a value is returned although the %s failed to convert%s" % (mf, " for field " + f.ident if f else ""), n)
        return
    if f is None:
        return
    if t.is_enum:
        return check_variant(e, res, t, f, n, val)
    if val.op != "adt" or f.index >= len(val.a[3]):
        res.stats["undecided-exit"] += 1
        return
    got = val.a[3][f.index]
    exp = w.get("exp")
    if f.wrap == "opt":
        want = e.NONE if exp is None else e.some(exp)
    elif f.wrap == "vec":
        want = absint.mk("list", ()) if exp is None else exp
    elif exp is not None:
        want = exp
    elif f.default:
        want = mk("call", f.dflt_fn(), ())
    else:
        res.add(("D15", "D14"), "required field %s is absent, yet the value is returned with %s" % (f.ident, show(got)), n)
        return
    res.stats["values-compared"] += 1
    if got is want:
        return
    props = {"D14"}
    ks = symbol_kinds(got)
    if ks & {"W", "V"}:
        props.add("D19")
    if ks & {"D", "DT"}:
        props.add("D17")
    if f.wrap == "vec":
        props.add("D18")
    if "foc:stale" in ks:
        props.add("D18")
    if exp is None:
        props.add("D15")
        if w.get("bad"):
            props.add("D13")
    else:
        if not any(k.startswith("foc") for k in ks):
            props |= {"D15", "D17", "D16", "D18"}
        else:
            props |= {"D16"}
            if any(k == "foc:ghost" for k in ks) or exp.op != got.op:
                props.add("D18")
    res.add(sorted(props), "field %s holds %s instead of %s" % (f.ident, show(got)[:200], show(want)[:200]), n)


def check_err(e, res, t, f, n, msg, top=False):
    w = n.state.w
    if w.get("rdx") == "err" or w.get("mf"):
        return
    if mentions(msg, ("perr", "errof", "rderr")):
        return
    if w.get("rdx") == "eof":
        return
    if t.is_enum:
        return check_variant_err(e, res, t, f, n, msg, top) if f is not None else None
    if msg.op == "str":
        for g in t.fields:
            if msg.a[0] == required_msg(t, g):
                if f is None or g is not f:
                    return
                if w.get("exp") is None and f.wrap == "plain" and not f.default:
                    return
                res.add(("D15", "D14", "D16", "D17"), "field %s is reported missing although %s" % (
                    f.ident, "it was supplied" if w.get("exp") is not None else "it is not required"), n)
                return
    res.add(("D17", "D15", "D14"), "well-formed input is rejected: %s" % show(msg)[:160], n)

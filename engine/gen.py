"""The probe matrix: the declarations whose derived code is analysed.

Every (role, payload type, wrapper, naming, condition) combination the derive macros distinguish appears in at least one
probe; fields are packed a few per type so that each probe also exercises their interaction.
"""
import random
from spec import F, V, T, SCALARS, PLAIN, OPT, VEC

NS1 = (("p", "urn:p"),)
NS2 = (("P", "urn:P"), ("p", "urn:p"), ("pq", "urn:pq"))

# root attribute variants: (rename, prefix, namespaces, default_namespace)
ROOTS = [
    dict(),
    dict(rename="root"),
    dict(namespaces=NS1, prefix="p"),
    dict(namespaces=NS2, prefix="pq", rename="base"),
    dict(namespaces=NS2, prefix="p", default_namespace="pq"),
    dict(namespaces=NS1),
    dict(namespaces=NS2, default_namespace="p", prefix="p"),
]
NAMES = ["alpha", "al", "alpha_2", "beta", "alphab", "zeta", "eta", "theta"]


class Kind:
    """field specification without a name"""

    def __init__(self, ty="String", wrap=PLAIN, role="element", **opts):
        self.ty, self.wrap, self.role, self.opts = ty, wrap, role, opts

    def weight(self):
        return (self.wrap != PLAIN) + bool(self.opts.get("default")) + bool(self.opts.get("skip_if")) + (self.role == "flatten")


def pack(kinds, maxw, maxn, roots, salt=0):
    """pack field kinds into struct declarations"""
    out, cur, w = [], [], 0
    pend = list(kinds)

    def flush():
        nonlocal cur, w
        if not cur:
            return
        r = roots[(len(out) + salt) % len(roots)]
        fs = []
        prefixes = [p for p, _ in r.get("namespaces", ())]
        for i, k in enumerate(cur):
            o = dict(k.opts)
            if o.get("prefix") and o["prefix"] not in prefixes:
                o["prefix"] = prefixes[-1] if prefixes else None
            if k.role in ("text", "flatten"):
                o.pop("prefix", None)
            ident = NAMES[i]
            if o.get("rename") is True:
                o["rename"] = "Re-" + ident
            fs.append(F(ident, k.ty, k.wrap, k.role, **o))
        out.append(T("Foo", fs, **r))
        cur, w = [], 0
    while pend:
        # take the first that fits (text and flatten at most once per type)
        for i, k in enumerate(pend):
            if len(cur) < maxn and w + k.weight() <= maxw and not (
                    k.role in ("text", "flatten", "cdata") and any(c.role == k.role for c in cur)):
                cur.append(pend.pop(i))
                w += k.weight()
                break
        else:
            flush()
    flush()
    return out


ALLT = SCALARS + ("String", "Inner")


def struct_kinds():
    ks = []
    for role in ("element", "attribute"):
        for ty in ALLT:
            for wrap in (PLAIN, OPT, VEC):
                if role == "attribute" and ty == "Inner" and wrap == VEC:
                    continue
                ks.append(Kind(ty, wrap, role))
    ks += [Kind(role="text"), Kind(wrap=OPT, role="text"), Kind(role="cdata"), Kind("Other", role="flatten"), Kind("Other", OPT, "flatten"),
           Kind("Pick", role="flatten")]
    # interleave the kinds so that packs mix roles
    random.Random(7).shuffle(ks)
    return ks


def naming_kinds():
    ks = []
    for role in ("element", "attribute", "cdata"):
        for ty in ("String", "u32", "Inner"):
            if role == "cdata" and ty != "String":
                continue
            for wrap in (PLAIN, OPT, VEC):
                if role == "attribute" and ty == "Inner" and wrap == VEC or role == "cdata" and wrap != PLAIN:
                    continue
                for o in (dict(rename=True), dict(prefix="p"), dict(prefix="pq", rename=True)):
                    ks.append(Kind(ty, wrap, role, **o))
    random.Random(8).shuffle(ks)
    return ks


def cond_kinds(full=False):
    ks = []
    conds = [dict(default=True), dict(skip=True), dict(skip_if=True), dict(default=True, skip_if=True), dict(default=True, skip=True)]
    if full:
        conds.append(dict(skip=True, skip_if=True))
        conds.append(dict(skip=True, skip_if=True, default=True))
    for role in ("element", "attribute", "text", "cdata", "flatten"):
        tys = {"element": ("String", "u32", "Inner"), "attribute": ("String", "bool", "Inner"), "text": ("String",), "cdata": ("String",), "flatten": ("Other",)}[role]
        for ty in tys:
            for wrap in (PLAIN, OPT, VEC):
                if role == "attribute" and ty == "Inner" and wrap == VEC or role == "cdata" and wrap != PLAIN or wrap == VEC and role in ("text", "flatten"):
                    continue
                for c in conds:
                    ks.append(Kind(ty, wrap, role, **c))
    random.Random(9).shuffle(ks)
    return ks


NS5 = (("a1", "urn:a1"), ("b2", "urn:b2"), ("c3", "urn:c3"), ("d4", "urn:b2"), ("e5", "urn:e5"), ("f6", "urn:f6"))


def wide(n=18, de=False):
    """many of everything: fields, attributes, namespaces; reading is followed for the last ones"""
    tys = ("String", "u32", "Inner", "bool", "i64", "Pick", "f64")
    fs = [F("e%d" % i, tys[i % 7], (OPT if i == 4 else VEC if i == (10 if de else 11) else PLAIN), prefix="p" if i % 4 == 1 else None) for i in range(n)]
    at = [F("at%d" % i, ("String", "u16", "bool")[i % 3], OPT if i in (2, 9) else PLAIN, "attribute") for i in range(11)]
    out = [T("Foo", fs, namespaces=NS1),
           T("Foo", at + [F("t", role="text")]),
           T("Foo", [F("w%d" % i, ("String", "u8")[i % 2], prefix=NS5[i][0]) for i in range(6)] + [F("k", "Inner", VEC, prefix="f6")], namespaces=NS5, prefix="e5")]
    for t in out if de else ():
        t.foci = t.fields[-3:]
    return out


def structs(tier="quick"):
    out = wide() + pack(struct_kinds(), 4, 6, ROOTS)
    out += pack(naming_kinds(), 4, 6, [r for r in ROOTS if r.get("namespaces")], 1)
    out += pack(cond_kinds(tier == "thorough"), 5, 4, ROOTS, 2)
    # flattened containers, a type with no field at all, and raw identifiers
    out.append(T("Foo", [F("alpha"), F("beta", "u32", OPT), F("gamma", "Inner", VEC)], flatten=True))
    out.append(T("Foo", [F("alpha", role="attribute"), F("beta", "Other", role="flatten")], flatten=True))
    out.append(T("Foo", []))
    out.append(T("Foo", [F("r#type", role="attribute"), F("r#fn", "u32", OPT), F("r#mod", "Inner", VEC)]))
    return out


def wide_enums(n=14, de=False):
    out = [T("Foo", variants=[V("V%d" % i, F("0", ("String", "u32", "Inner", "bool")[i % 4]) if i % 3 else None, rename="x-%d" % i if i % 5 == 4 else None)
                              for i in range(n)])]
    for t in out if de else ():
        t.foci = t.variants[-3:]
    return out


def enums(tier="quick"):
    out = wide_enums()
    for i in range(0, len(ALLT), 3):
        out.append(T("Foo", variants=[V("A")] + [V("V%d" % j, F("0", ty)) for j, ty in enumerate(ALLT[i:i + 3])] + [V("AZ")], **ROOTS[i % len(ROOTS)]))
    out.append(T("Foo", variants=[V("A", rename="a"), V("B", rename="be"), V("C")], rename="kind"))
    out.append(T("Foo", variants=[V("A"), V("B", F("0", "String", OPT)), V("C", F("0", "Inner", VEC)), V("D", F("0", "u32", VEC))]))
    out.append(T("Foo", variants=[V("A", F("0", "Inner", OPT), rename="x"), V("B", F("0", "u8", OPT)), V("C", F("0", "String", VEC))]))
    out.append(T("Foo", variants=[V("A", F("0", "Inner"), prefix="p"), V("B", F("0", "String"), prefix="pq", rename="bee"), V("C", prefix="p")],
                 namespaces=NS2, prefix="p"))
    out.append(T("Foo", variants=[V("A"), V("B", F("0", "String"), rename="bee"), V("C", F("0", "Inner"))], tag="type"))
    out.append(T("Foo", variants=[V("A", rename="one"), V("B", F("0", "Inner", role="flatten"))], tag="kind", rename="tagged"))
    out.append(T("Foo", variants=[V("C", F("0", "Inner", role="flatten")), V("B", F("0", "Other", role="flatten"))], flatten=True))
    out.append(T("Foo", variants=[V("C", F("0", "Inner")), V("B", F("0", "String")), V("D", F("0", "u64"))], flatten=True))
    out.append(T("Foo", variants=[V("C", F("0", "Inner", role="flatten")), V("B", F("0", "Other", role="flatten"))], flatten=True, tag="type"))
    return out


def named_enums(tier="quick"):
    return [
        T("Foo", variants=[V("A"), V("G", fields=[F("x", "u8"), F("y", "Inner", OPT), F("z", "String", VEC)])]),
        T("Foo", variants=[V("G", fields=[F("x", "String", OPT, rename="ex"), F("y", "f64", VEC), F("z", "Inner")]), V("H", fields=[F("x", "bool", prefix="p")])],
          namespaces=NS1, prefix="p"),
    ]


# ---------------------------------------------------------------- random combinations, each pair of choices many times over
TYPES = ALLT
RENAMES = ["Re-%s", "%s.x", "x_%s", "%s"]


def rand_root(r, pool=None):
    ns = r.choice([(), NS1, NS2, NS2])
    d = dict(namespaces=ns)
    if ns and r.random() < .7:
        d["prefix"] = r.choice(ns)[0]
    if ns and r.random() < .4:
        d["default_namespace"] = r.choice(ns)[0]
    if r.random() < .3:
        d["rename"] = r.choice(["root", "base-x", "Base.y"])
    return d


def rand_field(r, i, prefixes, taken, de=False):
    role = r.choices(["element", "attribute", "text", "cdata", "flatten"], [50, 25, 8, 7, 10])[0]
    if role in taken and role in ("text", "flatten", "cdata"):
        role = "element"
    taken.add(role)
    if role == "element":
        ty, wrap = r.choice(TYPES + ("String", "Inner", "Inner")), r.choice([PLAIN, PLAIN, OPT, VEC])
    elif role == "attribute":
        ty = r.choice(TYPES + ("String", "String", "Inner"))
        wrap = r.choice([PLAIN, OPT] if ty == "Inner" else [PLAIN, PLAIN, OPT, VEC])
    elif role == "text":
        ty, wrap = "String", r.choice([PLAIN, OPT])
    elif role == "cdata":
        ty, wrap = "String", PLAIN
    else:
        ty, wrap = r.choice(["Other", "Pick"]), r.choice([PLAIN, OPT])
    o = {}
    ident = NAMES[i]
    if role in ("element", "attribute", "cdata"):
        if r.random() < .3:
            o["rename"] = r.choice(RENAMES) % ident
        if prefixes and r.random() < .5:
            o["prefix"] = r.choice(prefixes)
    if r.random() < .25:
        o["default"] = True
    if r.random() < .1:
        o["skip"] = True
    if r.random() < .25:
        o["skip_if"] = True
    return F(ident, ty, wrap, role, **o)


def rand_struct(r, nmax=5, maxw=5):
    root = rand_root(r)
    pre = [p for p, _ in root["namespaces"]]
    fs, w, taken = [], 0, set()
    for i in range(r.randint(2, nmax)):
        f = rand_field(r, i, pre, taken)
        k = Kind(f.ty, f.wrap, f.role, default=f.default, skip_if=f.skip_if).weight()
        if w + k > maxw:
            break
        w += k
        fs.append(f)
    return T("Foo", fs or [F("alpha")], **root)


def rand_enum(r):
    root = rand_root(r)
    pre = [p for p, _ in root["namespaces"]]
    mode = r.choice(["plain", "plain", "plain", "tag", "flatten"])
    vs = []
    for i in range(r.randint(2, 4)):
        o = {}
        if r.random() < .4:
            o["rename"] = r.choice(RENAMES) % ("V%d" % i)
        if pre and r.random() < .5:
            o["prefix"] = r.choice(pre)
        k = r.random()
        if mode == "flatten":
            if k < .5:
                p = F("0", r.choice(["Inner", "Other"]), role="flatten")
            else:
                p = F("0", r.choice(TYPES))
        elif k < .25:
            p = None
        elif k < .85:
            ty = r.choice(TYPES + ("String", "Inner"))
            wrap = r.choice([PLAIN, PLAIN, OPT, VEC])
            p = F("0", ty, wrap)
        else:
            vs.append(V("V%d" % i, fields=[F(NAMES[j], r.choice(TYPES), r.choice([PLAIN, OPT, VEC]),
                                             prefix=r.choice(pre) if pre and r.random() < .4 else None,
                                             rename="Re-" + NAMES[j] if r.random() < .3 else None) for j in range(r.randint(1, 3))], **o))
            continue
        vs.append(V("V%d" % i, p, **o))
    if mode == "tag":
        root["tag"] = "kind"
    if mode == "flatten":
        root["flatten"] = True
    return T("Foo", variants=vs, **root)


def randoms(n, seed=11):
    r = random.Random(seed)
    return [rand_struct(r) if i % 3 else rand_enum(r) for i in range(n)]


# ---------------------------------------------------------------- deserialization: smaller types, one analysis per field
def de_structs(tier="quick"):
    noflat = lambda ks: [k for k in ks if k.role != "flatten"]
    cond = [k for k in noflat(cond_kinds()) if k.opts.get("default") and not k.opts.get("skip_if") or k.opts == dict(skip=True) and k.wrap == PLAIN]
    out = wide(11, True) + pack(noflat(struct_kinds()), 3, 4, ROOTS)
    out += pack(noflat(naming_kinds()), 3, 4, [r for r in ROOTS if r.get("namespaces")], 1)
    out += pack(cond, 4, 4, ROOTS, 2)
    out.append(T("Foo", []))
    out.append(T("Foo", [F("r#type", role="attribute"), F("r#fn", "u32", OPT), F("r#mod", "Inner", VEC)]))
    # two fields of one local name in different namespaces; names that occur as element and as attribute
    out.append(T("Foo", [F("alpha", "u32", rename="n", prefix="p"), F("beta", "String", rename="n", prefix="pq")], namespaces=NS2))
    out.append(T("Foo", [F("alpha", "u32", rename="n"), F("beta", "String", rename="n", role="attribute"), F("gamma", "String", role="text")]))
    out.append(T("Foo", [F("alpha", "String", rename="Foo"), F("beta", "Inner", VEC, rename="Bar")]))
    if tier == "thorough":
        r = random.Random(23)
        n = 0
        while n < 400:
            t = rand_struct(r, 4, 4)
            if any(f.role == "flatten" for f in t.fields):
                continue
            if len({(f.name, f.role) for f in t.fields}) < len(t.fields):
                continue
            out.append(t)
            n += 1
    return out


def flat_structs(tier="quick"):
    """types with flattened fields, next to every kind of sibling"""
    fl = lambda i="g", ty="Other", w=PLAIN: F(i, ty, w, "flatten")
    out = [
        T("Foo", [fl()]),
        T("Foo", [fl("g", "Other", OPT)]),
        T("Foo", [F("a"), fl()]),
        T("Foo", [fl("g", "Pick"), F("a", "u32", OPT)]),
        T("Foo", [F("a", "Inner"), fl("g", "Inner", OPT), fl("h", "Pick")]),
        T("Foo", [F("id", "u32", role="attribute"), fl("g", "Inner"), F("b", "f64", VEC), fl("h", "Pick", OPT)]),
        T("Foo", [F("t", role="text"), fl("g", "Pick"), F("c", "Inner", VEC)]),
        T("Foo", [F("a", "bool", rename="Re-a"), F("b", "String", VEC, rename="Foo"), fl("g", "Inner", OPT)], rename="root"),
        T("Foo", [F("a", "u32", prefix="p"), fl("g", "Other")], namespaces=NS1, prefix="p"),
        T("Foo", [F("a", "Inner", OPT, prefix="p"), F("b", "String"), fl("g", "Pick")], namespaces=NS2, prefix="p"),
        T("Foo", [F("alpha", "u32", rename="n", prefix="p"), F("beta", "String", rename="n", prefix="pq"), fl("g", "Inner")], namespaces=NS2),
        T("Foo", [F("a", "i8", prefix="p"), F("b", "Inner", VEC, prefix="pq"), fl("g", "Other", OPT)], namespaces=NS2, default_namespace="p"),
        T("Foo", [F("a", "String", default=True), F("b", "Inner", OPT, skip=True), fl("g", "Pick")]),
        T("Foo", [F("a", "Inner"), F("b", "Pick", VEC), F("t", "String", OPT, role="text"), fl("g", "Inner")]),
    ]
    if tier == "thorough":
        r = random.Random(41)
        while len(out) < 160:
            t = rand_struct(r, 4, 4)
            if any(f.role == "flatten" for f in t.fields) or any(f.ident == "g" for f in t.fields) or len({(f.name, f.role) for f in t.fields}) < len(t.fields):
                continue
            g = fl("g", r.choice(["Inner", "Other", "Pick"]), r.choice([PLAIN, OPT]))
            t.fields.insert(r.randint(0, len(t.fields)), g)
            for i, f in enumerate(t.fields):
                f.index = i
            out.append(t)
    return out


def flat_roots(tier="quick"):
    """flattened types: with their own element, and as a document of their fields alone"""
    out = [
        T("Foo", [F("alpha"), F("beta", "u32", OPT), F("gamma", "Inner", VEC)], flatten=True),
        T("Foo", [F("id", role="attribute"), F("alpha", "Inner"), F("t", role="text")], flatten=True),
        T("Foo", [F("a", "u32", prefix="p"), F("b", "Inner", OPT, prefix="pq")], namespaces=NS2, prefix="p", flatten=True),
        T("Foo", [F("a", "Pick", VEC, rename="x"), F("b", "bool", default=True)], rename="root", flatten=True),
        T("Foo", [F("foo", "Inner", OPT), F("id", "u32", OPT, role="attribute"), F("b", "String", VEC)], flatten=True),
        T("Foo", [], flatten=True),
    ]
    if tier == "thorough":
        r = random.Random(59)
        while len(out) < 60:
            t = rand_struct(r, 4, 4)
            els = [f.name for f in t.fields if f.role == "element"]
            if any(f.role == "flatten" for f in t.fields) or len(set(els)) < len(els) or len({(f.name, f.role) for f in t.fields}) < len(t.fields) or t.local in els:
                continue
            t.flatten = True
            out.append(t)
    return out


def de_enums(tier="quick"):
    out = wide_enums(7, True)
    r = dict(zip(range(8), [ROOTS[i] for i in (0, 2, 4, 1, 6, 5, 3, 0)]))
    for i in range(0, len(ALLT), 2):
        out.append(T("Foo", variants=[V("A")] + [V("V%d" % j, F("0", ty)) for j, ty in enumerate(ALLT[i:i + 2])] + [V("AZ")], **r[i // 2 % 8]))
    out.append(T("Foo", variants=[V("A", rename="a"), V("B", rename="be"), V("C")], rename="kind"))
    out.append(T("Foo", variants=[V("A"), V("B", F("0", "String", OPT)), V("C", F("0", "Inner", OPT))]))
    out.append(T("Foo", variants=[V("A"), V("B", F("0", "u32", VEC)), V("C", F("0", "Inner", VEC))]))
    out.append(T("Foo", variants=[V("A", F("0", "bool", OPT), rename="x"), V("B", F("0", "String", VEC), rename="x-y")]))
    out.append(T("Foo", variants=[V("A", F("0", "Inner"), prefix="p"), V("B", F("0", "String"), prefix="pq", rename="bee"), V("C", prefix="p")],
                 namespaces=NS2, prefix="p"))
    out.append(T("Foo", variants=[V("A", F("0", "Inner")), V("B", F("0", "Other"))]))
    out.append(T("Foo", variants=[V("A"), V("B", rename="Foo")]))
    out.append(T("Foo", variants=[V("A"), V("B", F("0", "String"), rename="bee"), V("C", F("0", "Inner"))], tag="type"))
    out.append(T("Foo", variants=[V("A", rename="one"), V("B", F("0", "Inner", role="flatten"))], tag="kind", rename="tagged"))
    out.append(T("Foo", variants=[V("A", rename="one"), V("B", rename="two")], tag="kind", namespaces=NS1, prefix="p"))
    out.append(T("Foo", variants=[V("C", F("0", "Inner")), V("B", F("0", "String"), rename="bee"), V("D")], flatten=True))
    out.append(T("Foo", variants=[V("C", F("0", "u64", OPT)), V("B", F("0", "Other"))], flatten=True))
    out.append(T("Foo", variants=[V("C", F("0", "Inner", role="flatten")), V("B", F("0", "Other", role="flatten"))], flatten=True, tag="type"))
    if tier == "thorough":
        rr = random.Random(29)
        n = 0
        while n < 150:
            t = rand_enum(rr)
            if t.flatten or len({v.name for v in t.variants}) < len(t.variants):
                continue
            if t.tag and any(v.payload and v.payload.wrap != PLAIN for v in t.variants):
                continue
            out.append(t)
            n += 1
    return out


# ---------------------------------------------------------------- vocabulary: every notation of fields and variants, once
def vocab_types(tier="quick"):
    """(stable name, declaration): the writer's names against the reader's"""
    out = []
    noflat = lambda ks: [k for k in ks if k.role != "flatten"]
    for i, t in enumerate(pack(noflat(struct_kinds()), 3, 4, [ROOTS[j] for j in (0, 1, 2, 3, 5)])):
        out.append(("struct %d" % i, t))
    for i, t in enumerate(pack(noflat(naming_kinds()), 3, 4, [r for r in ROOTS if r.get("namespaces") and not r.get("default_namespace")], 1)):
        out.append(("naming %d" % i, t))
    cond = [k for k in noflat(cond_kinds()) if not k.opts.get("skip")]
    for i, t in enumerate(pack(cond, 4, 4, [ROOTS[j] for j in (0, 1, 2, 3, 5)], 2)):
        out.append(("condition %d" % i, t))
    P = lambda ident, **o: F(ident, prefix="p", **o)
    dn = dict(namespaces=NS2, default_namespace="p")
    out += [
        ("default namespace: all its own", T("Foo", [P("a"), P("b", ty="u32", wrap=VEC), P("c", ty="Inner", wrap=OPT, rename="See"), P("d", role="cdata")], prefix="p", **dn)),
        ("default namespace: others prefixed", T("Foo", [F("a", prefix="pq"), F("b", "Inner", VEC, prefix="pq"), P("c", ty="u8"), F("t", role="text")], prefix="pq", **dn)),
        ("default namespace: attributes", T("Foo", [F("a", role="attribute"), P("b", ty="u32", wrap=OPT, role="attribute"), F("c", "f64", VEC, role="attribute", prefix="pq")], prefix="p", **dn)),
        ("default namespace: unprefixed type", T("Foo", [P("a")], **dn)),
        ("default namespace: unprefixed field", T("Foo", [F("a"), P("b", ty="u32")], prefix="p", **dn)),
        ("wide 0", wide(12)[0]), ("wide 1", wide()[1]), ("wide 2", wide()[2]), ("wide enum", wide_enums(10)[0]),
        ("names: raw", T("Foo", [F("r#type", role="attribute"), F("r#fn", "u32", OPT), F("r#mod", "Inner", VEC)])),
        ("names: one in two namespaces", T("Foo", [F("alpha", "u32", rename="n", prefix="p"), F("beta", "String", rename="n", prefix="pq")], namespaces=NS2)),
        ("names: one in two roles", T("Foo", [F("alpha", "u32", rename="n"), F("beta", rename="n", role="attribute"), F("gamma", role="text")])),
        ("names: the type's own", T("Foo", [F("alpha", rename="Foo"), F("beta", "Inner", VEC, rename="Bar")])),
        ("names: case and punctuation", T("Foo", [F("a", rename="x-y"), F("b", rename="x_y"), F("c", "u8", rename="X.Y"), F("d", rename="xY", role="attribute"), F("e", "u8", rename="XY", role="attribute")])),
        ("names: non-ASCII", T("Foo", [F("a", rename="größe"), F("b", "u32", role="attribute", rename="ключ")], rename="Größe")),
        ("no fields", T("Foo", [])),
        ("no fields, renamed and prefixed", T("Foo", [], rename="root", prefix="pq", namespaces=NS2)),
    ]
    for i in range(0, len(ALLT), 2):
        r = [ROOTS[0], ROOTS[1], ROOTS[2], ROOTS[3], ROOTS[5]][i // 2 % 5]
        out.append(("enum %d" % i, T("Foo", variants=[V("A")] + [V("V%d" % j, F("0", ty)) for j, ty in enumerate(ALLT[i:i + 2])] + [V("AZ")], **r)))
    for k, r in (("", {}), (" namespaced", dict(namespaces=NS2, prefix="p", rename="kind"))):
        q = (lambda p: p) if r else (lambda p: None)
        out += [
            ("enum: unit" + k, T("Foo", variants=[V("A", prefix=q("p")), V("B", rename="bee"), V("C", prefix=q("pq"), rename="C.c")], **r)),
            ("enum: optional" + k, T("Foo", variants=[V("A"), V("B", F("0", "String", OPT), prefix=q("p")), V("C", F("0", "Inner", OPT), rename="see")], **r)),
            ("enum: sequence" + k, T("Foo", variants=[V("A"), V("B", F("0", "u32", VEC), rename="bee"), V("C", F("0", "Inner", VEC), prefix=q("pq"))], **r)),
            ("enum: newtype" + k, T("Foo", variants=[V("A", F("0", "Inner"), prefix=q("p")), V("B", F("0", "String"), prefix=q("pq"), rename="bee"), V("C")], **r)),
            ("tagged enum: unit" + k, T("Foo", variants=[V("A", rename="one"), V("B"), V("C", prefix=q("p"))], tag="kind", **r)),
            ("tagged enum: flattened" + k, T("Foo", variants=[V("A"), V("B", F("0", "Inner", role="flatten"), rename="bee"), V("C", F("0", "Other", role="flatten"))], tag="type", **r)),
            ("tagged enum: newtype" + k, T("Foo", variants=[V("A"), V("B", F("0", "String"), rename="bee"), V("C", F("0", "Inner"))], tag="type", **r)),
        ]
    out += [
        ("enum: variant named like the type", T("Foo", variants=[V("A"), V("B", rename="Foo")])),
        ("enum: names by case and punctuation", T("Foo", variants=[V("A", rename="x-y"), V("B", F("0", "u8"), rename="x_y"), V("C", F("0", "String"), rename="X.Y")])),
        ("enum: default namespace", T("Foo", variants=[V("A", prefix="p"), V("B", F("0", "String"), prefix="p"), V("C", F("0", "Inner"), prefix="pq")], prefix="p", **dn)),
        ("enum: default namespace, unprefixed variant", T("Foo", variants=[V("A", prefix="p"), V("B", F("0", "String"))], prefix="p", **dn)),
        ("enum: named fields", T("Foo", variants=[V("A"), V("G", fields=[F("x", "u8"), F("y", "Inner", OPT)])])),
        ("enum: flattened payload", T("Foo", variants=[V("A"), V("B", F("0", "Inner", role="flatten"))])),
        ("flattened struct", T("Foo", [F("alpha"), F("beta", "u32", OPT, rename="b-b"), F("gamma", "Inner", VEC)], flatten=True)),
        ("flattened struct: nested first", T("Foo", [F("gamma", "Inner"), F("beta", "Pick", VEC, rename="b-b"), F("alpha", "bool")], flatten=True)),
        ("flattened enum", T("Foo", variants=[V("C", F("0", "Inner")), V("B", F("0", "String"), rename="bee"), V("D", F("0", "u64"))], flatten=True)),
        ("flattened enum: unit", T("Foo", variants=[V("A"), V("B", F("0", "String"))], flatten=True)),
    ]
    if tier == "thorough":
        r, n = random.Random(57), 0
        while n < 400:
            t = rand_struct(r) if n % 3 else rand_enum(r)
            if t.default_namespace or any(f.role == "flatten" for f in t.fields) or len({(f.name, f.role) for f in t.fields}) < len(t.fields):
                continue
            if t.is_enum and (t.flatten or any(v.fields or v.payload and t.tag for v in t.variants) or len({v.name for v in t.variants}) < len(t.variants)):
                continue
            out.append(("random %d" % n, t))
            n += 1
    return out

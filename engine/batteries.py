"""Which declarations are analysed for which property, and with which tasks."""
import json
import build, cursor, entry, flat, gen, run, visitor, vocab, compiles, privacy, readers, wrappers
from spec import HEAD, de_roots, ser_roots

ASSUMPTIONS = [
    "MIR of yaserde and of the code its derive macros generate for the probe declarations is what runs (rustc nightly, overflow checks on)",
    "xml-rs honours its event contract: balanced start/end events, sticky errors and end of document, an empty namespace reported as none",
    "the models of std strings, vectors, iterators and formatting in engine/models.py are faithful",
    "declarations outside the probe matrix expand by the same macro branches as those inside it",
]

RULES = {}


class Job:
    """one probe declaration (or crate) with its analysis tasks"""

    def __init__(self, name, t=None, tasks=(), src=None, cost=1, kind="ty"):
        self.name, self.t, self.tasks, self.src, self.cost, self.kind = name, t, tasks, src, cost, kind


def result_dict(r):
    st = dict(r.stats)
    st.update(steps=r.steps, nodes=r.nodes, exits=r.exits)
    return dict(task=r.task, alarms=r.alarms, budget=r.budget, stats=st, fns=sorted(r.fns), unmodelled=r.unmodelled, source=None)


def run_job(ctx, job):
    name = "p%d" % ctx["jobs"].index(job)
    if job.kind == "compile":
        return compiles.run(ctx, name, job.name, job.src)
    if job.kind == "privacy":
        return privacy.run(ctx, name)
    t = job.t
    body = HEAD + t.decl() + de_roots(t) + ser_roots(t) if job.src is None else job.src
    o, err = build.dump(ctx["drv"], ctx["ext"], ctx["dirs"], name, ctx["prelude"] + body, ctx["policy"], ctx["out"])
    if o is None:
        return [dict(task="compile", nocompile=err[-2000:], alarms=[], stats={}, fns=[])]
    prog = run.load(o)
    out = []
    for task in job.tasks:
        try:
            rs = task(prog, t)
        except (run.Unsupported, KeyError, AssertionError) as e:
            out.append(dict(task=getattr(task, "__name__", str(task)), error="%s: %s" % (type(e).__name__, e), alarms=[], stats={}, fns=[]))
            continue
        for r in (rs if isinstance(rs, list) else [rs]):
            d = result_dict(r)
            d["source"] = t.decl() if t is not None else None
            out.append(d)
    return out


SER = ("C01", "C02", "C03", "C04", "C05", "C07", "C08")


def jobs_for(prop, tier):
    jobs = list_jobs(prop, tier)
    for i, j in enumerate(jobs):
        if j.t is not None:
            j.t.style = i % 4
    return jobs


def list_jobs(prop, tier):
    if prop == "X27":
        return [Job("public interface", kind="privacy")]
    if prop == "X24":
        return [Job(n, None, (), src=cs, kind="compile", cost=len(cs)) for n, cs in compiles.battery(tier)]
    if prop == "X26":
        return [Job("visitor", None, tuple(visitor.TASKS), src=visitor.SRC)]
    if prop == "X23":
        return wrapper_jobs()
    if prop == "C09":
        return entry_jobs()
    if prop in SER:
        return ser_jobs(tier) + (entry_jobs() if prop in ("C01", "C08") else []) + (
            builtin_jobs() if prop in ("C01", "C03", "C08") else []) + (
            wrapper_jobs() if prop == "C01" else [])
    if prop == "D21":
        return cursor_jobs() + reader_jobs()
    if prop == "X28":
        return reader_jobs()
    if prop == "X25":
        return flat_jobs(prop, tier)
    if prop == "X22":
        return [Job(n, t, (vocab.task,), cost=weight(t)) for n, t in gen.vocab_types(tier)]
    if prop in DE:
        return de_jobs(prop, tier)
    raise SystemExit("unknown property " + prop)


STRUCTURE = ("D10", "D11", "D12", "D22")     # decided by following the cursor alone
FOCUS = ("D13", "D14", "D15", "D16", "D17", "D18", "D19")
ENUM = ("D20",)
DE = STRUCTURE + FOCUS + ENUM


def wrapper_jobs():
    out = []
    for kind, ty in wrappers.cases():
        tasks = (wrappers.ser(kind, ty), wrappers.de(kind, ty)) + ((wrappers.notation(kind, ty),) if kind != "default" else ())
        out.append(Job("%s wrapper of %s" % (kind, ty), None, tasks, src=wrappers.source(kind, ty)))
    return out


def builtin_jobs():
    return [Job("primitive types", None, tuple(wrappers.builtin(ty) for ty in wrappers.BUILTIN), src=wrappers.builtin_source())]


def entry_jobs():
    return [Job("entry " + f.__name__, None, (f,), src=HEAD + entry.SRC) for f in entry.TASKS]


def reader_jobs():
    return [Job("entry " + f.__name__, None, (f,), src=HEAD + readers.SRC) for f in readers.TASKS]


def cursor_jobs():
    return [Job("cursor " + f.__name__, None, (f,), src=HEAD + cursor.SRC) for f in cursor.TASKS]


def t_structure(prog, t):
    return [run.de_task(prog, t, None), run.top_task(prog, t, None)]


def t_fields(prog, t):
    return [run.de_task(prog, t, f) for f in t.foci or t.fields if f.role != "flatten"]


def t_flat(prog, t):
    return [flat.task(prog, t), flat.task(prog, t, "root_top")]


def flat_jobs(prop, tier):
    """types with flattened fields: what reaches those fields, and the other obligations in their presence"""
    tasks = [t_flat] if prop in ("X25", "D13") else [t_structure]
    if prop in FOCUS:
        tasks.append(t_fields)
    return [Job("#f%d %s" % (i, t.desc()), t, tuple(tasks), cost=4 * weight(t)) for i, t in enumerate(gen.flat_structs(tier))]


def t_doc(prog, t):
    """a flattened type's document of fields alone"""
    return [run.top_task(prog, t, None, doc=True)] if alone(t) else []


def t_doc_fields(prog, t):
    return [run.top_task(prog, t, f, doc=True) for f in t.fields] if alone(t) else []


def alone(t):
    return any(f.role == "element" for f in t.fields) and not t.namespaces and all(f.role in ("element", "attribute") for f in t.fields)


def flat_root_jobs(prop, tier):
    tasks = [t_structure, t_doc] + ([t_fields, t_top_fields, t_doc_fields] if prop in FOCUS else [])
    return [Job("#r%d %s" % (i, t.desc()), t, tuple(tasks), cost=4 * weight(t)) for i, t in enumerate(gen.flat_roots(tier))]


def t_top_fields(prog, t):
    return [run.top_task(prog, t, f) for f in t.foci or t.fields if f.role != "flatten"]


def weight(t):
    return sum(1 + (f.wrap != "plain") + (f.ty == "String") for f in t.fields) * (1 + len(t.fields)) if not t.is_enum else 1


def t_variants(prog, t):
    return [run.de_task(prog, t, v) for v in t.foci or t.variants if not v.fields]


def t_top_variants(prog, t):
    return [run.top_task(prog, t, v) for v in t.foci or t.variants if not v.fields]


def enum_jobs(prop, tier):
    tasks = [t_structure]
    if prop in ("D13", "D20"):
        tasks.append(t_variants)
        if tier == "thorough":
            tasks.append(t_top_variants)
    return [Job("#e%d %s" % (i, t.desc()), t, tuple(tasks), cost=20 * len(t.variants)) for i, t in enumerate(gen.de_enums(tier))]


def de_jobs(prop, tier):
    if prop in ENUM:
        return enum_jobs(prop, tier)
    return struct_jobs(prop, tier) + flat_jobs(prop, tier) + flat_root_jobs(prop, tier) + (wrapper_jobs() if prop in ("D10", "D11", "D12", "D13", "D22") else []) + (cursor_jobs() if prop in ("D10", "D11", "D12", "D17") else []) + (
        reader_jobs() if prop in ("D10", "D12", "D14", "D16") else []) + (enum_jobs(prop, tier) if prop in STRUCTURE + ("D13", "D19") else [])


def struct_jobs(prop, tier):
    ts = gen.de_structs(tier)
    tasks = [t_structure]
    if prop in FOCUS:
        tasks.append(t_fields)
        if tier == "thorough":
            tasks.append(t_top_fields)
    return [Job("#%d %s" % (i, t.desc()), t, tuple(tasks), cost=weight(t)) for i, t in enumerate(ts)]


def ser_jobs(tier):
    ts = gen.structs(tier) + gen.enums(tier) + gen.named_enums(tier) + gen.randoms(3000 if tier == "thorough" else 300)
    return [Job("#%d %s" % (i, t.desc()), t, (run.ser_task, run.sattr_task)) for i, t in enumerate(ts)]


_ser = ("The MIR of the derived serialize and serialize_attributes of every probe declaration, with everything it calls in yaserde, is "
        "interpreted abstractly over all values of the type (uninterpreted field values, presence, predicates and write outcomes); a "
        "ghost program derived from the declaration runs in lockstep. ")
RULES.update({
    "C01": _ser + "Obligation: no write or nested call follows a failed one, and no path with a failed write, nested serialization or attribute collection returns Ok.",
    "C02": _ser + "Obligation: start and end events are balanced on every Ok path, never close what was not opened, and own tags are absent exactly when content only is requested.",
    "C03": _ser + "Obligation: the events written on every Ok path are exactly those of the ghost program: each enabled field's own value in its declared role and position, each element of each sequence once, nothing else.",
    "C04": _ser + "Obligation: every start tag, attribute and variant name written equals the declared (renamed, qualified) name; nested values are handed the holder field's name.",
    "C05": _ser + "Obligation: a field is written on a path iff its skip flag, skip predicate and default comparison are all false on that path.",
    "C07": _ser + "Obligation: the namespace list of the own start tag equals the declared one plus those of flattened fields; nested values are told to write their own tags or not as declared.",
    "C08": _ser + "Obligation: every write is a start tag with a constant name, an end tag, character data, or CDATA of a declared cdata field with ]]> split; no other event kind or raw output carries data.",
    "X27": "The crate's public interface, as the compiler accounts for it, is searched for any path to the cursor's or writer's private state: public "
           "fields, functions or callbacks giving out the parser, the writer, the streams or mutable references into the state, and conversion impls; "
           "operations outside the documented set are interpreted abstractly against the cursor's ghost; client programs that reach for the state must "
           "not compile while a twin using the documented operations does.",
    "X24": "rustc (expansion, name resolution, type and borrow checking, no code generation) decides every declaration of a matrix: each supported "
           "combination of role, type, wrapping and attribute alone and in pairs, container attributes, variant payloads, every declaration the other "
           "checks analyse, field/variant names equal to every identifier occurring in the generator's source, other items of such names in scope, "
           "and the contexts a declaration can stand in. Obligation: no error points into the declaration.",
    "X28": "The MIR of every deserialization entry point and Deserializer constructor, including the parser configuration code of xml-rs it calls, "
           "is interpreted abstractly over an arbitrary source, type and outcome. Obligation: exactly one value is read, from a cursor at the start of "
           "exactly the given source with nothing looked ahead and depth 0, the parser set to the declared settings and otherwise to its defaults, and "
           "the result, value or error, is exactly what reading it gave.",
    "X26": "The MIR of every default method of Visitor, for a visitor implementing nothing and one implementing a single kind, is interpreted over an "
           "arbitrary text. Obligation: every path returns an error whose constant text names exactly that method's kind.",
    "X23": "The MIR of the code derived for newtype wrappers (over every primitive inner type, every hexadecimal width and a type with its own "
           "Display and FromStr) is interpreted abstractly over all values, names and documents. Obligation: written as one element under the holder's "
           "name around the inner value's text (hexadecimal digits without prefix for the hex wrapper); read as the inner type's parse of the complete "
           "text (radix 16, range-checked for the hex wrapper), errors otherwise, ending at the own end tag.",
    "C09": "The MIR of every serialization entry point and Serializer constructor, including the writer configuration code of xml-rs it calls, is "
           "interpreted abstractly over an arbitrary value, configuration and outcome. Obligation: exactly one serialization of the argument under its own "
           "name, root tags asked for as the entry point says, the writer configured with exactly the given (or default) indentation, indent string and "
           "declaration and otherwise with the escaping defaults, success iff that serialization succeeded, and the result is the sink's bytes.",
})

_de = ("The MIR of the derived deserialize of every probe declaration, with the cursor operations of yaserde::de it calls, is interpreted "
       "abstractly over all documents (a pushdown abstraction of the event stream at unknown depth, with parser errors and end of input "
       "possible at every read). ")
_foc = ("A ghost follows one field at a time: at every attribute, child or text of the own element it splits on whether that part declares "
        "the field, and holds the value the field must then have. ")
RULES.update({
    "X25": _de + "A ghost queue holds every event of the element's own content (own tags, own text, whole unclaimed children) except those of "
           "children claimed by another field. Obligation: each event written to the secondary writer is the queue's head, the queue is empty on every "
           "Ok path, and the flattened field is the result of parsing exactly what was written (none if that failed and the field is optional, an error "
           "otherwise).",
    "X22": "Writer and reader are compared through the documents they share. Every path of the derived serialize is interpreted abstractly and, whenever "
           "a field's or variant's value reaches the output, the role, local name and namespace it then has in the document are recorded. The derived "
           "deserialize is then searched, over all documents holding exactly that notation, for a path that puts what stands there into that field or "
           "yields that variant; the own element must be accepted as written, as a root and under a holder's name. Obligation: every recorded notation "
           "has such a path.",
    "D20": _de + "A ghost follows one variant at a time: at the own tag, every child tag, text and tag attribute it splits on whether that part names "
           "the variant, and holds the payload it must then have. Obligation: on every Ok path the variant is returned only if it was named, with the "
           "ghost's payload, and the default value only if it was not; well-formed input is not rejected.",
    "D10": _de + "Obligation: no path reaches a panic (unwrap, overflow check, index, explicit panic).",
    "D11": _de + "Obligation: every cycle of the abstract state graph reads an event or advances an iterator over finite data; end of input and errors are never polled again in a loop.",
    "D12": _de + "Obligation: no path on which the parser reported an error returns Ok.",
    "D13": _de + _foc + "Obligation: no Ok path exists on which an attribute value, nested element or text failed to convert; a scalar element whose text failed to convert leaves the field unsupplied.",
    "D14": _de + _foc + "Obligation: on every Ok path the field holds exactly the ghost's value: nothing from other names, other namespaces, other depths or other roles.",
    "D15": _de + _foc + "Obligation: with no declaring part on the path, the field is None / empty / its default function's value / an error naming the field; with one, never the default nor the error.",
    "D16": _de + _foc + "Obligation: the value held is the declared type's parse of the complete text (bool: 1 and 0 too), strings unchanged, list attributes item by item; the parser is configured to deliver complete text.",
    "D17": _de + _foc + "Obligation: after any subtree matching no field, however deep, the cursor is past its end tag, no field holds anything read inside it, and the following siblings are still matched.",
    "D18": _de + _foc + "Obligation: a sequence holds its ghost's items, one appended per convertible occurrence, in order; a single field holds the last convertible occurrence.",
    "D19": _de + _foc + "Obligation: a root in another namespace than the declared prefix's is an error on every path; a child with the field's local name in another namespace leaves the field's value as it was.",
    "D21": "The MIR of the public cursor operations (peek, next_event, depth, skip_element, read_inner_value, expect_end_element) is interpreted "
           "abstractly from every surrounding (inside an element at unknown depth, at the start of a document, with and without look-ahead) over all "
           "event sequences. Obligation: a ghost sequence of the parser's unfiltered events is what the operations return, in order and once each; "
           "look-ahead never advances; depth changes by one at start and end tags only; skipping and inner reads end right after the end tag.",
    "D22": _de + "Obligation: every Ok path leaves the cursor at the unconsumed own end tag with depth one above the entry depth, and no path reads past it.",
})

TECH = {"*": "abstract interpretation of MIR (call-string-sensitive dataflow over derived code) against a ghost specification"}
NOTE = {"*": "Static: decided from the compiler's MIR of /repo's current code for a fixed and a pseudo-random matrix of derived "
             "declarations, over all values, documents and I/O outcomes; trusts xml-rs's event contract, the std models of the engine and "
             "that other declarations expand by the same macro branches."}

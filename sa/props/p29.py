"""P29: tables of readers are indexed by node and by the levels the input has."""

from ..lib import peel
from ..terms import is_const, subterms
from .p11 import Types, base_env

TITLE = "readers index their tables by node and the ranks and threads there are"
RULE = (
    "Value-flow of every reader: the table of the returned graph frame is traced to its set_index call; in every world of "
    "ranks and threads the call must be made exactly once and its keys must be node, then rank, then thread, each exactly if "
    "the input has this level."
)

RD = "hatchet.readers."
# reader: (function, ranks are told by, threads are told by)
READERS = {
    "literal": ("literal_reader.LiteralReader.read", None, None),
    "pyinstrument": ("pyinstrument_reader.PyinstrumentReader.read", None, None),
    "cprofile": ("cprofile_reader.CProfileReader.read", None, None),
    "gprof": ("gprof_dot_reader.GprofDotReader.read", None, None),
    "spotdb": ("spotdb_reader.SpotDatasetReader.read", None, None),
    "caliper": ("caliper_reader.CaliperReader.read", "column", None),
    "native caliper": ("caliper_native_reader.CaliperNativeReader.read", "column", None),
    "hpctoolkit": ("hpctoolkit_reader.HPCToolkitReader.read", "always", "num_threads_per_rank"),
    "tau": ("tau_reader.TAUReader.read", "multiple_ranks", "multiple_threads"),
    "timemory": ("timemory_reader.TimemoryReader.read", "multiple_ranks", "multiple_threads"),
}


def names(s):
    return {x.a[1] for x in subterms(s) if x.op == "attr"}


def terms_of(ip, st, events):
    for e in events:
        todo = list(e.guard) + list(e.args) + list(e.kwargs.values())
        for x in todo:
            if not hasattr(x, "op"):
                continue
            for s in subterms(x):
                yield s
                if s.op in ("list", "tuple") and s in st.contents:
                    for g, l, k, v in st.contents[s]:
                        for y in list(g) + [v]:
                            for z in subterms(y):
                                yield z


def levels(w, t, depth=6):
    """The index levels a key names in a world, None if not known."""
    t = peel(w.pick(t))
    if t.op == "const":
        return [t.a[0]] if isinstance(t.a[0], str) else None
    if t.op == "tuple" or t.op == "list" and t not in w.st.contents:
        out = []
        for x in t.a if t.op == "tuple" else ():
            y = levels(w, x, depth - 1) if depth else None
            if y is None:
                return None
            out += y
        return out
    if t.op == "list":
        out = []
        for g, l, k, v in w.st.contents[t]:
            on = w.holds([x for x in g])
            if on is False:
                continue
            if v.op == "star":
                v = v.a[0]
            y = levels(w, v, depth - 1) if depth else None
            if y is None:
                return None
            front = any(e.kind == "call" and e.name == "insert" and e.obj is t and e.args and is_const(e.args[0], 0) and e.args[-1] is v for e in w.ip.events)
            out = y + out if front else out + y
        return out
    if t.op == "bin" and t.a[0] in ("+", "Add"):
        a, b = levels(w, t.a[1], depth - 1), levels(w, t.a[2], depth - 1)
        return None if a is None or b is None else a + b
    return None


def reader(ctx, name):
    fn, ranks, threads = READERS[name]
    q = RD + fn
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    st = res.state
    sets = [e for e in ip.events if e.kind == "call" and e.name and e.name.split(".")[-1] == "set_index"]
    tables = [v for (o, fld), v in st.heap.items() if fld == "dataframe" and o.op == "new" and "GraphFrame" in repr(o)]
    used = []
    for e in sets:
        inplace = is_const(e.kwargs.get("inplace"), True) if e.kwargs.get("inplace") is not None else False
        src = e.obj if inplace else e.value
        if any(src is s for t in tables for s in subterms(t)) or not tables:
            used.append(e)
    ctx.oblige(bool(used), "index", q, "the table of the graph frame is never given an index of nodes", f.where)
    terms = set(terms_of(ip, st, used))
    for r in (True, False) if ranks not in (None, "always") else (ranks == "always",):
        for t in (True, False) if threads else (False,):
            env = dict(base_env(ip))
            for s in terms:
                ns = names(s) if s.op in ("truth", "attr", "phi", "ite") else ()
                if s.op == "cmp" and s.a[0] == "in" and ranks == "column" and is_const(s.a[1], "rank"):
                    env[s] = r
                if ranks == "multiple_ranks" and s.op == "truth" and ranks in ns and threads not in ns:
                    env[s] = r
                if ranks == "multiple_ranks" and s.op == "truth" and threads in ns and ranks not in ns:
                    env[s] = t
                if threads == "num_threads_per_rank" and s.op == "attr" and s.a[1] == threads:
                    env[s] = 2 if t else 1
            w = Types(ip, st, env, {})
            on = [e for e in used if w.holds(e.guard) is not False]
            tag = "%s:%s%s" % (q, "ranks" if r else "-", "+threads" if t else "")
            ctx.count("worlds", 1)
            want = ["node"] + (["rank"] if r else []) + (["thread"] if t else [])
            got = [levels(w, e.args[0] if e.args else e.kwargs["keys"]) for e in on if e.args or "keys" in e.kwargs]
            ok = len(on) == 1 and got == [want]
            ctx.oblige(ok, "levels", tag, "the table is indexed by %s instead of %s" % (got, want), on[0].where if on else f.where)


def check(ctx):
    for name in READERS:
        reader(ctx, name)
    ctx.need("worlds", 17)

"""P19: results depend on the input only."""

import ast

from ..order import Order, IDS, ID_PREFIX
from ..own import Owner, mutations
from ..terms import T, is_const, subterms, mk
from ..repo import AnalysisBroken
from .p05 import MUST, OPAQUE

TITLE = "results depend on the input only"
RULE = (
    "Taint analysis over value-flow terms: the order of hash sets of strings, of directory entries and of finishing "
    "workers, memory addresses, hashes, clocks and random numbers never reach a returned value, a field of a returned "
    "object, the links of a graph, an ordered container or a last-writer-wins store, except through order-free "
    "operations (sorted, len, membership, set algebra, column-sorting concat ...). No function writes module or class "
    "state other than a constant it initialises once."
)
ASSUMPTIONS = (
    "the elements of the sets handled by the query engine and compound queries are nodes (hashed by their id) and lists of them",
    "library functions are deterministic",
)

EXTRA = ["hatchet.graphframe.GraphFrame." + m for m in (
    "unify", "drop_index_levels", "update_inclusive_columns", "subtree_sum", "subgraph_sum", "generate_exclusive_columns",
)] + ["hatchet.graph.Graph." + m for m in ("traverse", "node_order_traverse", "enumerate_traverse", "enumerate_depth", "merge_nodes")] + [
    "hatchet.node.Node.traverse", "hatchet.node.Node.node_order_traverse", "hatchet.node.Node.add_child",
    "hatchet.query.object_dialect.ObjectQuery.__init__", "hatchet.query.compound.ConjunctionQuery.__init__",
    "hatchet.query.compound.DisjunctionQuery.__init__", "hatchet.query.compound.ExclusiveDisjunctionQuery.__init__",
]
KINDS = ("hatchet.graphframe.GraphFrame", "hatchet.graph.Graph", "hatchet.node.Node", "hatchet.frame.Frame")
SKIP_MODS = (".tests.", ".external.roundtrip", "hatchet.vis", "hatchet.util.profiler", "hatchet.util.timer")


def query_set(ip):
    def f(t):
        s = t
        while s.op == "call":
            s = s.a[0].a[0] if s.a[0].op == "attr" else s.a[1][0] if s.a[1] else s
            if s is t:
                break
        site = s.a[0] if s.op == "set" else None
        ok = site and isinstance(site, tuple) and isinstance(site[1], str) and site[1].startswith(
            ("hatchet.query.engine.", "hatchet.query.compound."))
        return bool(ok)
    return f


def reach(ip, res, od, t, seen, path):
    """(path, taint) of everything the result t is made of."""
    for s in ip.sources(t):
        if s in seen:
            continue
        seen.add(s)
        r = od.seq(s) if s.op != "set" else od.unordered(s)
        if r:
            yield path, r
            continue
        if s.op == "new":
            for (o, f), v in list(res.state.heap.items()):
                if o is s and isinstance(f, str):
                    yield from reach(ip, res, od, v, seen, path + "." + f)
        elif s.op in ("list", "dict", "tuple"):
            for g, l, k, v in res.state.contents.get(s, ()):
                x = v.a[0] if v.op == "star" else v
                yield from reach(ip, res, od, x, seen, path + "[]")
            if s.op == "tuple":
                for x in s.a:
                    yield from reach(ip, res, od, x, seen, path + "[]")


def entry(ctx, q):
    ip, res = ctx.analyze(q, opaque=() if q in OPAQUE else OPAQUE)
    od = Order(ip, res, query_set(ip))
    f = ctx.repo.func(q)
    name = q.split(".")[-1]
    ctx.count("entry points")
    if name in ("__hash__",):
        return
    seen = set()
    for g, t in res.returns:
        ctx.count("results")
        for path, r in reach(ip, res, od, t, seen, "result"):
            ctx.oblige(False, "depends", "%s:%s" % (q, path), "%s of %s depends on %s" % (path, name, r), f.where)
        for c in g:
            r = od.taint(c)
            ctx.oblige(not r, "depends", q + ":when", "whether %s returns this depends on %s" % (name, r), f.where)
    # links, and fields of the objects hatchet is made of
    for e in ip.events:
        if e.kind == "setattr":
            ty = ip.typeof(e.obj)
            if not ty or ty[0] != "C" or ty[1] not in KINDS:
                continue
            ctx.count("stored fields")
            r = od.seq(e.value) or od.loops_taint(inner(ip, e, e.obj))
            ctx.oblige(not r, "field", "%s:%s" % (e.construct, e.name), "the field %s depends on %s" % (e.name, r), e.where)
        elif e.kind == "call" and e.name in ("append", "extend", "insert") and e.obj is not None and e.obj.op == "attr":
            if e.obj.a[1] not in ("children", "parents", "roots", "exc_metrics", "inc_metrics", "query_pattern", "subqueries"):
                continue
            ctx.count("ordered stores")
            r = od.any_seq(e.args) or od.loops_taint(e.loops)
            ctx.oblige(not r, "links", "%s:%s" % (e.construct, e.obj.a[1]),
                       "the order of %s depends on %s" % (e.obj.a[1], r), e.where)
        elif e.kind == "setitem" and e.loops and e.obj.op == "attr" and e.obj.a[1] in ("dataframe", "metadata"):
            r = od.loops_taint(e.loops)
            ctx.oblige(not r, "columns", "%s:%s" % (e.construct, e.obj.a[1]), "the order of the entries of %s depends on %s" % (e.obj.a[1], r), e.where)
        elif e.kind == "return" and e.loops and e.value is not None and not is_const(e.value):
            r = od.loops_taint(e.loops)
            ctx.oblige(not r, "first", e.construct + ":first", "which element is returned depends on %s" % r, e.where)
        elif e.kind == "yield":
            r = od.loops_taint(e.loops) or od.taint(e.value)
            ctx.oblige(not r, "yield", e.construct + ":yield", "the order of yielded values depends on %s" % r, e.where)


def inner(ip, e, obj):
    s = obj
    own = ()
    if s.op == "new":
        own = ip.siteloops.get(s.a[1] if len(s.a) > 1 else None, ())
    if any(x.op == "elem" for x in subterms(obj)) or s.op == "new":
        return ()
    return [l for l in e.loops if l not in own]


def keys(ctx):
    """No ordering key is an address, a hash or a random number."""
    for q, f in sorted(ctx.repo.functions.items()):
        if any(s in q + "." for s in SKIP_MODS):
            continue
        for n in ast.walk(f.node):
            if not isinstance(n, ast.Call):
                continue
            for k in n.keywords:
                if k.arg == "key":
                    ctx.count("ordering keys")
                    bad = key_reads(ctx, f, k.value)
                    ctx.oblige(not bad, "key", "%s:key" % q, "the order depends on %s" % bad, "%s:%s" % (f.module.rel, n.lineno))


def key_reads(ctx, f, k):
    body = [k]
    if isinstance(k, (ast.Name, ast.Attribute)):
        g = ctx.repo.functions.get("%s.<locals>.%s" % (f.qual, getattr(k, "id", ""))) or ctx.repo.functions.get("%s.%s" % (f.module.name, getattr(k, "id", "")))
        if g is not None:
            body = [g.node]
    for b in body:
        for n in ast.walk(b):
            if isinstance(n, ast.Name) and n.id in ("id", "hash") or isinstance(n, ast.Attribute) and n.attr == "__hash__" and f.name != "":
                if isinstance(n, ast.Attribute):
                    continue
                return "memory addresses or string hashes (%s)" % n.id
            if isinstance(n, ast.Attribute) and n.attr in ("random", "urandom", "getpid"):
                return n.attr
    return None


def initialiser(ctx, q, f):
    """A function the workers of a pool run before anything else."""
    short = q.split(".")[-1]
    return any(
        isinstance(n, ast.keyword) and n.arg == "initializer" and isinstance(n.value, ast.Name) and n.value.id == short
        for n in ast.walk(f.module.tree))


def module_state(ctx):
    for q, f in sorted(ctx.repo.functions.items()):
        if any(s in q + "." for s in SKIP_MODS):
            continue
        own = [n for n in ast.walk(f.node) if isinstance(n, ast.Global)]
        ctx.count("functions scanned for module state")
        if own and not initialiser(ctx, q, f):
            ip, res = ctx.analyze(q)
            for e in ip.events:
                if e.kind == "gwrite" and len(e.stack) == 1:
                    ctx.oblige(once(ip, e), "module-state", "%s:%s" % (q, e.name),
                               "%s changes the module variable %s, so results depend on earlier calls" % (q.split(".")[-1], e.name), e.where)
        for d in getattr(f.node, "decorator_list", ()):
            txt = ast.unparse(d)
            if "cache" in txt.lower():
                ps = f.all_params()
                ok = not ({"self", "node", "graph", "dataframe", "df", "gf", "hnode", "other"} & set(ps))
                ctx.oblige(ok, "cache", q, "results of %s are cached across calls under keys that do not tell different inputs apart" % q.split(".")[-1], f.where)


def once(ip, e):
    """A lazily initialised constant: written only while unset, from nothing but constants."""
    free = not any(x.op in ("param", "elem", "idx") or x.op == "glob" and x is e.value for x in subterms(e.value))
    unset = any("glob" in repr(l) or e.name.split(".")[-1] in repr(l) for l in e.guard)
    return free and unset and not any(x.op == "glob" for x in subterms(e.value))


def global_mutations(ctx):
    for q in MUST + EXTRA:
        ip, res = ctx.analyze(q, opaque=() if q in OPAQUE else OPAQUE)
        own = Owner(ip, res.state)
        for m in mutations(ip, res, own):
            if m.owner[0] == "global":
                ctx.oblige(False, "module-state", "%s:%s" % (m.ev.construct, m.owner[1]),
                           "%s %s, so results depend on earlier calls" % (m.how, m.owner[1]), m.ev.where)
        for e in ip.events:
            if e.kind == "call" and e.fn is not None and e.fn.op == "ext" and e.fn.a[0] == "builtins.next" and e.args and e.args[0].op == "glob":
                ctx.oblige(False, "module-state", "%s:%s" % (e.construct, e.args[0].a[1]),
                           "takes the next value of the module variable %s, so results depend on earlier calls" % e.args[0].a[1], e.where)
            if e.kind == "setattr" and e.obj.op == "cls":
                ctx.oblige(False, "class-state", "%s:%s" % (e.construct, e.name),
                           "the class attribute %s.%s is changed" % (e.obj.a[0], e.name), e.where)


def check(ctx):
    for q in MUST + EXTRA:
        if q not in ctx.repo.functions:
            raise AnalysisBroken("entry point %s not found" % q)
        entry(ctx, q)
    keys(ctx)
    module_state(ctx)
    global_mutations(ctx)
    ctx.need("entry points", 70)
    ctx.need("stored fields", 100)

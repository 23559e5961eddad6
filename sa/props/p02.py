"""P02: results share no mutable state with their sources or with each other."""

import ast

from ..own import Owner
from ..models import GF
from ..terms import is_const

TITLE = "derived objects share no mutable state with their source"
RULE = (
    "Alias analysis of results: the gated value-flow terms stored in the fields of every returned graph "
    "frame, and everything reachable from returned containers, are resolved to their owners; a field may "
    "only share storage with an operand where the operation documents it (the graph for copy() and "
    "filter(squash=False), table values for copy()). New nodes are never linked to nodes of the source "
    "graph, and no mutable default argument is modified, returned or kept in an object."
)
ASSUMPTIONS = (
    "elements of metric lists and frame attributes are immutable strings/numbers",
    "copy.deepcopy copies everything reachable",
)

G = "hatchet.graphframe.GraphFrame."
# result-producing methods -> fields allowed to be shared: field -> modes
ALLOWED = {
    "copy": {"graph": {"id"}, "dataframe": {"shallow"}, "metadata[]": {"id"}},
    "deepcopy": {},
    "filter": {"graph": {"id"}, "metadata[]": {"id"}},
    "squash": {"metadata[]": {"id"}},
    "groupby_aggregate": {"metadata[]": {"id"}},
    "add": {"metadata[]": {"id"}},
    "sub": {"metadata[]": {"id"}},
    "mul": {"metadata[]": {"id"}},
    "div": {"metadata[]": {"id"}},
}
# same-graph operands share that graph
for _m in ("add", "sub", "mul", "div"):
    ALLOWED[_m]["graph"] = {"id"}

OPAQUE = ("hatchet.query.string_dialect.parse_string_dialect",)
SCALAR_FIELDS = {"default_metric", "query_engine"}


def results(ip, res):
    for g, t in res.returns:
        for s in ip.sources(t):
            yield g, s


def heap_of(res, obj):
    return {f: v for (o, f), v in res.state.heap.items() if o is obj and isinstance(f, str)}


def graphframes(ctx):
    for m, allowed in ALLOWED.items():
        q = G + m
        ip, res = ctx.analyze(q, opaque=OPAQUE)
        own = Owner(ip, res.state)
        n = 0
        for g, obj in results(ip, res):
            if is_const(obj, None):
                continue
            for kind, root, mode in own.owners(obj):
                if kind == "input":
                    ctx.violate("result-is-operand", "%s:%s" % (q, root),
                                "%s returns the operand %s itself, not a new object" % (m, root))
            fields = heap_of(res, obj)
            if not fields:
                continue
            n += 1
            for f in ("graph", "dataframe", "exc_metrics", "inc_metrics", "metadata"):
                if f not in fields:
                    continue
                ctx.count("result fields")
                bad = []
                for s in ip.sources(fields[f]):
                    for kind, root, mode in own.owners(s):
                        if kind in ("input", "default", "global") and mode not in allowed.get(f, ()):
                            bad.append((kind, root, mode))
                    if f == "metadata" and "metadata[]" not in allowed:
                        for kind, root, mode in own._elem(s):
                            if kind == "input":
                                bad.append((kind, root, mode))
                ctx.oblige(
                    not bad, "shared-field", "%s:%s" % (q, f),
                    "the %s of the graph frame returned by %s() shares storage with %s"
                    % (f, m, ", ".join(sorted("%s (%s)" % (r, {"default": "a mutable default argument",
                                                              "global": "module state", "input": md}[k])
                                              for k, r, md in set(bad)))),
                    ctx.repo.func(q).where,
                )
        ctx.count("graph-frame results", n)


def new_structure(ctx):
    """New nodes are linked to new nodes only; a copied graph has its own nodes."""
    for q in (G + "deepcopy", G + "squash", G + "groupby_aggregate", "hatchet.graph.Graph.copy",
              "hatchet.graph.Graph.union", "hatchet.node.Node.copy"):
        ip, res = ctx.analyze(q)
        own = Owner(ip, res.state)
        bad = []

        # operands are the first two positional parameters; a mapping passed
        # to be filled in is an output
        operands = tuple(ctx.repo.func(q).all_params()[:2]) if q.endswith("union") else ("self",)

        def operand(o):
            return o[0] == "input" and o[1].split(".")[0].split("[")[0] in operands

        def foreign(v):
            return [o for s in ip.sources(v) for o in own.owners(s) if operand(o)]

        def foreign_el(v):
            return [o for o in own._elem(v) if operand(o)]

        n = 0
        for e in ip.events:
            if e.kind == "call" and e.name in ("append", "extend", "insert", "add", "update") and e.obj is not None and e.obj.op == "attr" and e.obj.a[1] in ("children", "parents", "roots"):
                tgt = [o[0] for s in ip.sources(e.obj.a[0]) for o in own.owners(s)]
                if "fresh" not in tgt:
                    continue
                n += 1
                args = e.args[-1:]
                for a in args:
                    o = foreign(a) if e.name in ("append", "insert", "add") else foreign_el(a)
                    if o:
                        bad.append((e, "%s of a new node receives a node of %s" % (e.obj.a[1], o[0][1])))
            elif e.kind == "setattr" and e.name in ("children", "parents", "roots", "frame"):
                tgt = [o[0] for s in ip.sources(e.obj) for o in own.owners(s)]
                if "fresh" not in tgt:
                    continue
                n += 1
                o = [x for x in foreign(e.value)]
                if e.name != "frame":
                    o += foreign_el(e.value)
                if o:
                    bad.append((e, "%s of a new object is (or contains) an object of %s" % (e.name, o[0][1])))
            elif e.kind == "setattr" and e.name == "attrs":
                n += 1
                o = foreign(e.value)
                if o:
                    bad.append((e, "attributes of a new frame are the dictionary of %s" % o[0][1]))
        ctx.count("structure links classified", n)
        ctx.oblige(not bad, "foreign-structure", q,
                   "; ".join(m for e, m in bad[:3]), bad[0][0].where if bad else "")
        for g, obj in results(ip, res):
            ctx.oblige(not any(k == "input" for k, r, m in own.owners(obj)), "result-is-operand", q,
                       "%s returns its operand" % q)


def containers(ctx):
    """Plain-container results hand out no internal container."""
    for q in (G + "to_dict", G + "to_literal", G + "show_metric_columns", "hatchet.node.Node.paths",
              "hatchet.frame.Frame.copy", "hatchet.graph.Graph.find_merges"):
        ip, res = ctx.analyze(q)
        own = Owner(ip, res.state)
        seen, bad = set(), []
        work = [s for g, s in results(ip, res)]
        while work:
            t = work.pop()
            for s in ip.sources(t):
                if s in seen:
                    continue
                seen.add(s)
                for kind, root, mode in own.owners(s):
                    last = root.rsplit(".", 1)[-1]
                    if kind == "default" or kind == "input" and mode == "id" and last in (
                        "attrs", "exc_metrics", "inc_metrics", "metadata", "children", "parents", "roots", "dataframe",
                    ):
                        bad.append("%s %s" % ("the default argument" if kind == "default" else "the caller-visible", root))
                if s.op in ("list", "dict", "set") and s in res.state.contents:
                    for g2, l2, k2, v2 in res.state.contents[s]:
                        work.append(v2.a[0] if v2.op == "star" and False else v2)
                for (o, f), v in res.state.heap.items():
                    if o is s:
                        work.append(v)
                if s.op == "tuple":
                    work.extend(s.a)
                if s.op == "call" and s.a[0].op == "fn" and s.a[0].a[0] in ip.rec_returns:
                    work.extend(ip.rec_returns[s.a[0].a[0]])
        ctx.count("container results")
        ctx.count("reachable values classified", len(seen))
        ctx.oblige(not bad, "internal-container-exposed", q,
                   "the result of %s contains %s" % (q.split(".")[-1], ", ".join(sorted(set(bad)))),
                   ctx.repo.func(q).where)


def mutable_defaults(ctx):
    for f in list(ctx.repo.functions.values()):
        if f.parent is not None:
            continue
        a = getattr(f.node, "args", None)
        if a is None:
            continue
        ds = [d for d in list(a.defaults) + [k for k in a.kw_defaults if k is not None]
              if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp))
              or isinstance(d, ast.Call) and getattr(d.func, "id", "") in ("list", "dict", "set", "defaultdict")]
        if not ds:
            continue
        ip, res = ctx.analyze(f, opaque=OPAQUE)
        own = Owner(ip, res.state)
        from ..own import mutations

        bad = []
        for m in mutations(ip, res, own):
            if m.owner[0] == "default" and m.owner[1].startswith(f.qual):
                bad.append("%s (%s)" % (m.how, m.ev.where))
        for e in ip.events:
            if e.kind == "setattr" and any(o[0] == "default" for s in ip.sources(e.value) for o in own.owners(s)):
                bt = ip.typeof(e.obj)
                if bt and bt[0] == "C" and not bt[1].split(".")[-1].endswith("Reader"):
                    bad.append("kept in field %s (%s)" % (e.name, e.where))
        for g, s in results(ip, res):
            if any(o[0] == "default" for o in own.owners(s)):
                bad.append("returned")
        ctx.count("mutable default arguments", len(ds))
        ctx.oblige(not bad, "mutable-default", f.qual,
                   "a mutable default argument is shared between calls: %s" % "; ".join(bad[:4]), f.where)


def check(ctx):
    graphframes(ctx)
    new_structure(ctx)
    containers(ctx)
    mutable_defaults(ctx)
    ctx.need("graph-frame results", 9)
    ctx.need("result fields", 45)
    ctx.need("structure links classified", 12)
    ctx.need("container results", 6)

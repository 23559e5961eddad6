"""P01: operations documented as non-modifying leave their operands untouched."""

from ..own import Owner, mutations
from ..models import GF, GRAPH, NODE, DF

TITLE = "operands are never modified"
RULE = (
    "Effect analysis: every attribute/item write, container mutation, in-place table operation and "
    "mutating call reachable from each non-modifying entry point (repository callees inlined, recursion "
    "widened over its call arguments) is resolved to the objects it may affect through the gated "
    "value-flow terms; none may be an object the caller passed in, or storage shared with it "
    "(a shallow table copy shares its values, a column may be a view)."
)
ASSUMPTIONS = (
    "user-supplied callables (filters, aggregation functions) are assumed not to mutate their argument",
    "library functions outside the modelled mutators do not modify their arguments",
)

G = "hatchet.graphframe.GraphFrame."
# entry point -> parameters that are inputs and must stay untouched (None = all)
ENTRIES = {}
for m in (
    "copy deepcopy filter squash tree to_dot to_flamegraph to_literal to_dict to_json to_hdf "
    "show_metric_columns groupby_aggregate add sub mul div __add__ __sub__ __mul__ __truediv__"
).split():
    ENTRIES[G + m] = None
for m in "__iadd__ __isub__ __imul__ __idiv__ __itruediv__".split():
    ENTRIES[G + m] = ["other"]
ENTRIES.update({
    "hatchet.graph.Graph.copy": ["self"],
    "hatchet.graph.Graph.union": ["self", "other"],
    "hatchet.graph.Graph.__eq__": None,
    "hatchet.graph.Graph.__ne__": None,
    "hatchet.graph.Graph.__len__": None,
    "hatchet.graph.Graph.is_tree": None,
    "hatchet.graph.Graph.find_merges": None,
    "hatchet.graph.Graph.traverse": ["self"],
    "hatchet.graph.Graph.node_order_traverse": ["self"],
    "hatchet.node.Node.copy": None,
    "hatchet.node.Node.path": None,
    "hatchet.node.Node.paths": None,
    "hatchet.node.Node.dag_equal": ["self", "other"],
    "hatchet.node.Node.traverse": ["self"],
    "hatchet.node.Node.node_order_traverse": ["self"],
    "hatchet.frame.Frame.copy": None,
    "hatchet.frame.Frame.values": None,
    "hatchet.frame.Frame.get": None,
    "hatchet.frame.Frame.__init__": ["attrs", "kwargs"],
    "hatchet.query.engine.QueryEngine.apply": ["query", "graph", "dframe"],
    "hatchet.graphframe.GraphFrame.from_literal": None,
    "hatchet.graphframe.GraphFrame.from_lists": None,
    "hatchet.external.console.ConsoleRenderer.render": ["roots", "dataframe", "kwargs"],
    "hatchet.util.dot.trees_to_dot": None,
    "hatchet.writers.dataframe_writer.DataframeWriter.write": ["gf"],
    "hatchet.query.object_dialect.ObjectQuery.__init__": ["query"],
    "hatchet.query.string_dialect.StringQuery.__init__": ["cypher_query"],
    "hatchet.query.compound.CompoundQuery.__init__": ["queries"],
    "hatchet.query.compound.ConjunctionQuery.__init__": ["queries"],
    "hatchet.query.compound.DisjunctionQuery.__init__": ["queries"],
    "hatchet.query.compound.ExclusiveDisjunctionQuery.__init__": ["queries"],
    "hatchet.query.compound.NegationQuery.__init__": ["queries"],
})
OPTIONAL = {G + "__idiv__", G + "__itruediv__"}

# the string dialect only reads its text argument; its compiler is analysed on
# its own entry point
OPAQUE = ("hatchet.query.string_dialect.parse_string_dialect",)


def targets(ctx):
    for q in sorted(ENTRIES):
        if q not in ctx.repo.functions:
            if q in OPTIONAL:
                continue
            ctx.repo.func(q)
        yield q


def check(ctx):
    for q in targets(ctx):
        f = ctx.repo.func(q)
        names = ENTRIES[q]
        if names is not None:
            for n in names:
                if n not in f.all_params():
                    # renamed parameter: protect all of them but the receiver
                    names = [p for p in f.all_params() if p != "self"]
                    break
        opaque = OPAQUE if "string_dialect" not in q else ()
        ip, res = ctx.analyze(q, opaque=opaque)
        own = Owner(ip, res.state)
        ctx.count("entry points")
        bad = []
        muts = mutations(ip, res, own)
        nev = sum(1 for e in ip.events if e.kind in ("setattr", "setitem", "delitem", "iop", "call"))
        ctx.count("effect events classified", nev)
        for m in muts:
            kind, root, mode = m.owner
            if kind != "input":
                continue
            p = root.split(".")[0].split("[")[0].lstrip("*")
            if names is not None and p not in names:
                continue
            if p == "self" and f.name == "__init__":
                continue
            if f.name == "from_lists" and ("." in root or m.ev.kind == "setattr"):
                continue  # documented to link the Node objects it is given
            bad.append(m)
        ctx.oblige(True, "no-effect-on-operands", q, "")
        for m in bad:
            kind, root, mode = m.owner
            share = {"id": "", "shallow": " (shared through a shallow copy)", "view": " (through a view)"}[mode]
            ctx.violate(
                "operand-modified",
                "%s:%s:%s" % (q, m.ev.construct, root.split("[")[0]),
                "%s %s %s, which belongs to the caller's %s%s; call chain %s; when %s"
                % (q.split(".")[-1], m.how, m.what[:120], root, share, m.ev.chain(),
                   " and ".join(repr(g) for g in m.ev.guard)[:200] or "always"),
                m.ev.where,
            )
    ctx.need("entry points", 45)

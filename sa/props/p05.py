"""P05: public entry points return their result or raise."""

import ast

from ..repo import AnalysisBroken
from ..terms import is_const, restrict

TITLE = "public operations return their result or raise, never silently nothing"
RULE = (
    "Return-path analysis: on every feasible path of each public entry point (gated value-flow terms of the "
    "returned value, callees inlined) the value returned is not None and the end of the function is not "
    "reached without a return; no exception handler on the way swallows an error and continues to such a path."
)
ASSUMPTIONS = ("library calls return what their documentation says",)

G = "hatchet.graphframe.GraphFrame."
R = "hatchet.readers."
Q = "hatchet.query."
MUST = [G + m for m in (
    "from_hpctoolkit", "from_caliper", "from_caliperreader", "from_timeseries", "from_spotdb", "from_gprof_dot",
    "from_cprofile", "from_pyinstrument", "from_tau", "from_timemory", "from_literal", "from_lists", "from_json",
    "from_hdf", "copy", "deepcopy", "filter", "squash", "show_metric_columns", "tree", "to_dot", "to_flamegraph",
    "to_literal", "to_dict", "to_json", "groupby_aggregate", "add", "sub", "mul", "div", "__add__", "__sub__",
    "__mul__", "__truediv__", "__iadd__", "__isub__", "__imul__", "__idiv__", "__itruediv__",
)] + [
    "hatchet.graph.Graph.copy", "hatchet.graph.Graph.union", "hatchet.graph.Graph.normalize",
    "hatchet.graph.Graph.find_merges", "hatchet.graph.Graph.is_tree", "hatchet.graph.Graph.from_lists",
    "hatchet.graph.Graph.__len__", "hatchet.graph.Graph.__eq__", "hatchet.graph.Graph.__ne__",
    "hatchet.node.Node.copy", "hatchet.node.Node.path", "hatchet.node.Node.paths", "hatchet.node.Node.dag_equal",
    "hatchet.node.Node.from_lists", "hatchet.node.Node.__eq__", "hatchet.node.Node.__lt__",
    "hatchet.node.Node.__hash__", "hatchet.node.Node.__str__", "hatchet.node.Node.__repr__",
    "hatchet.frame.Frame.copy", "hatchet.frame.Frame.values", "hatchet.frame.Frame.__hash__",
    "hatchet.frame.Frame.__eq__", "hatchet.frame.Frame.__lt__", "hatchet.frame.Frame.__getitem__",
    "hatchet.frame.Frame.get", "hatchet.frame.Frame.__str__", "hatchet.frame.Frame.__repr__",
    "hatchet.util.dot.trees_to_dot", "hatchet.external.console.ConsoleRenderer.render",
    Q + "engine.QueryEngine.apply", Q + "query.Query.match", Q + "query.Query.rel", Q + "query.Query.__len__",
    Q + "query.Query.__iter__",
    Q + "string_dialect.parse_string_dialect", Q + "is_hatchet_query",
] + [R + m for m in (
    "caliper_native_reader.CaliperNativeReader.read", "caliper_native_reader.CaliperNativeReader.read_timeseries",
    "spotdb_reader.SpotDatasetReader.read", "spotdb_reader.SpotDBReader.read", "tau_reader.TAUReader.read",
    "pyinstrument_reader.PyinstrumentReader.read", "timemory_reader.TimemoryReader.read",
    "literal_reader.LiteralReader.read", "cprofile_reader.CProfileReader.read",
    "gprof_dot_reader.GprofDotReader.read", "caliper_reader.CaliperReader.read", "json_reader.JsonReader.read",
    "hpctoolkit_reader.HPCToolkitReader.read", "dataframe_reader.DataframeReader.read",
)]
OPAQUE = ("hatchet.query.string_dialect.parse_string_dialect",)


def may_be_none(ip, t, guard):
    for g, v in ip.leaves(restrict(t, guard), limit=64, guard=tuple(guard)):
        for s in ip.sources(v):
            if is_const(s, None):
                return True
    return False


def check(ctx):
    for q in MUST:
        if q not in ctx.repo.functions:
            raise AnalysisBroken("entry point %s not found" % q)
        f = ctx.repo.func(q)
        ip, res = ctx.analyze(q, opaque=() if q in OPAQUE else OPAQUE)
        ctx.count("entry points")
        ctx.oblige(not res.falls, "no-result", q,
                   "%s can end without returning its result%s" % (
                       q.split(".")[-1], fmt(res.falls[0]) if res.falls else ""), f.where)
        if not res.returns and not res.falls:
            rs = [e for e in ip.events if e.kind == "raise"]
            abstract = any("NotImplemented" in repr(e.value) for e in rs)
            if q.endswith("DataframeReader.read"):
                # the abstract reader: its subclass supplies the table
                continue
            ctx.oblige(False, "no-result", q, "%s never returns" % q, f.where)
            continue
        n = 0
        for g, t in res.returns:
            n += 1
            bad = may_be_none(ip, t, g)
            ctx.count("return paths")
            ctx.oblige(not bad, "returns-none", q,
                       "%s can return None%s" % (q.split(".")[-1], fmt(g)), f.where)
    ctx.need("entry points", 70)


def fmt(g):
    if not g:
        return ""
    return " (when %s)" % " and ".join(repr(l)[:80] for l in list(g)[:4])

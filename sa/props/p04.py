"""P04: node ids and depths are assigned before a graph frame exists."""

from ..repo import AnalysisBroken
from ..terms import subterms, canon, b_and, b_or, is_const, neg, TRUE, mk
from . import p03

TITLE = "node ids and depths are final before a graph frame is built"
RULE = (
    "Typestate over value-flow events: every graph a function returns or puts into a graph frame has an "
    "enumeration (enumerate_traverse, or enumerate_depth where every node was given an explicit id) on every "
    "path, after the last effect that links nodes of that graph and before the table is last keyed by its "
    "nodes (a node's hash is its id). The enumeration itself must write consecutive numbers from 0 over one "
    "full traversal, depth 0 to every root and parent depth + 1 to every newly reached child."
)
ASSUMPTIONS = ("Graph.normalize keeps the ids of surviving nodes (ids are unique, not consecutive, after a merging squash)",)

TRAV = "hatchet.graph.Graph.enumerate_traverse"
DEPTH = "hatchet.graph.Graph.enumerate_depth"
OPAQUE = (TRAV, DEPTH, "hatchet.graphframe.GraphFrame.update_inclusive_columns",
          "hatchet.graphframe.GraphFrame.drop_index_levels")

R = "hatchet.readers."
ENTRIES = [
    "hatchet.graph.Graph.copy", "hatchet.graph.Graph.union", "hatchet.graph.Graph.from_lists",
    "hatchet.graphframe.GraphFrame.squash", "hatchet.graphframe.GraphFrame.deepcopy",
    "hatchet.graphframe.GraphFrame.groupby_aggregate", "hatchet.graphframe.GraphFrame.from_lists",
    R + "caliper_native_reader.CaliperNativeReader.read", R + "caliper_native_reader.CaliperNativeReader.read_timeseries",
    R + "spotdb_reader.SpotDatasetReader.read", R + "tau_reader.TAUReader.read",
    R + "pyinstrument_reader.PyinstrumentReader.read", R + "timemory_reader.TimemoryReader.read",
    R + "literal_reader.LiteralReader.read", R + "cprofile_reader.CProfileReader.read",
    R + "gprof_dot_reader.GprofDotReader.read", R + "caliper_reader.CaliperReader.read",
    R + "json_reader.JsonReader.read", R + "hpctoolkit_reader.HPCToolkitReader.read",
    R + "dataframe_reader.DataframeReader.read",
]
NODE_CTOR = "hatchet.node.Node"


def rest_guard(guard, known):
    return b_and(*[l for l in guard if l not in known])


def unset_ids(l):
    """A test whether some node still has the default id."""
    return any(x.op == "attr" and x.a[1] == "_hatchet_nid" for x in subterms(l)) or any(
        x.op == "const" and x.a[0] == -1 for x in subterms(l)
    )


def check_entry(ctx, q):
    ip, res = ctx.analyze(q, opaque=OPAQUE)
    graphs = [e for e in ip.events if e.kind == "new" and e.value is not None and e.value.op == "new"
              and e.value.a[0] == "hatchet.graph.Graph"]
    if not graphs:
        raise AnalysisBroken("%s builds no Graph" % q)
    calls = [e for e in ip.events if e.kind == "opaque" and e.name in (TRAV, DEPTH)]
    edges, sets = p03.collect(ip)
    frames = [e for e in ip.events if e.kind == "new" and e.value is not None and e.value.op == "new"
              and e.value.a[0] == "hatchet.graphframe.GraphFrame"]
    nodes = [e for e in ip.events if e.kind == "new" and e.value is not None and e.value.op == "new"
             and e.value.a[0] == NODE_CTOR]
    for g in graphs:
        ctx.count("graphs built")
        mine = [c for c in calls if g.value in ip.sources(c.obj)]
        cover = b_or(*[rest_guard(c.guard, g.guard + g.facts) for c in mine]) if mine else None
        ok = mine and cover is TRUE
        ctx.oblige(ok, "not-enumerated", "%s:%s" % (q, g.construct),
                   "the graph built at %s is %s" % (g.where, "never enumerated" if not mine else
                                                    "enumerated only if %r" % (cover,)), g.where)
        if not mine:
            continue
        # ids explicit where only the depth is computed
        full = [c for c in mine if c.name == TRAV]
        only = [c for c in mine if c.name == DEPTH]
        if only:
            tested = any(unset_ids(l) for c in only for l in c.guard)
            default = [n for n in nodes if not explicit_id(ip, n)]
            ctx.oblige(tested or not default, "unnumbered", "%s:%s" % (q, g.construct),
                       "only the depths of the graph are computed at %s but nodes created at %s have no explicit id"
                       % (only[0].where, ", ".join(n.where for n in default)), only[0].where)
        first = min(c.idx for c in mine)
        # every effect on links precedes the numbering
        late = [e for e in edges if e.ev.idx > first and not normalising(e.ev)]
        lset = [e for e in sets if e.idx > first and not normalising(e) and not (e.obj.op == "new" and is_init(ip, e))]
        ctx.oblige(not late and not lset, "linked-after-numbering", "%s:%s" % (q, g.construct),
                   "nodes are linked at %s after the graph was numbered at %s"
                   % (", ".join(sorted({(e.ev.where if hasattr(e, "ev") else e.where) for e in late + lset})), mine[0].where),
                   mine[0].where)
        roots = [e for e in ip.events if e.kind == "setattr" and e.name == "roots" and e.idx > first
                 and g.value in ip.sources(e.obj) and not normalising(e)]
        ctx.oblige(not roots, "linked-after-numbering", "%s:%s:roots" % (q, g.construct),
                   "the roots are replaced at %s after the graph was numbered" % ", ".join(e.where for e in roots), g.where)
    # graph frames use numbered graphs and tables keyed afterwards
    for f in frames:
        fields = {k: v for (o, k), v in res.state.heap.items() if o is f.value and isinstance(k, str)}
        gt = fields.get("graph")
        if gt is None:
            continue
        ctx.count("graph frames built")
        for s in ip.sources(gt):
            if s.op == "const":
                continue
            mine = [c for c in calls if s in ip.sources(c.obj)]
            if s.op != "new" or not mine:
                # an operand's own graph is numbered already
                ok = s.op in ("attr", "param") or mine
                ctx.oblige(bool(ok), "not-enumerated", "%s:frame" % q,
                           "the graph frame built at %s gets a graph that is never enumerated" % f.where, f.where)
                continue
            df = fields.get("dataframe")
            bases = set()
            for d in ip.sources(df) if df is not None else ():
                bases.update(table_bases(d))
            keyed = [e for e in ip.events if e.kind == "call" and e.name in ("set_index", "sort_index", "groupby", "merge", "drop_index_levels")
                     and e.obj is not None and any(b in bases for x in ip.sources(e.obj) for b in table_bases(x))]
            keyed += [e for e in ip.events if e.kind == "opaque" and e.name and e.name.endswith("drop_index_levels")]
            if not keyed:
                continue
            last = max(keyed, key=lambda e: e.idx)
            ctx.count("table keyings ordered")
            lastnum = max(c.idx for c in mine)
            ctx.oblige(last.idx > lastnum, "keyed-before-numbering", "%s:%s" % (q, last.construct),
                       "the table is keyed by its nodes at %s before their ids are assigned at %s (the id is the hash and sort key)"
                       % (last.where, mine[-1].where), last.where)


def table_bases(t):
    out = set()
    for x in subterms(t):
        out.add(x)
        if len(out) > 4000:
            break
    return {x for x in out if x.op in ("call", "attr", "phi", "ite") and x.op == "call"}


def normalising(e):
    return any(s.split(".")[-1] in ("normalize", "merge_nodes", "find_merges") for s in e.stack) or e.construct.endswith(
        ("merge_nodes.<locals>.transform", "Graph.merge_nodes"))


def is_init(ip, e):
    return e.construct.endswith(".__init__")


def explicit_id(ip, ev):
    """Was the node given an id by its creator (constructor or assignment)?"""
    for e in ip.events:
        if e.kind == "setattr" and e.name == "_hatchet_nid" and e.obj is not None:
            if ev.value in ip.sources(e.obj) or e.obj is ev.value:
                vals = [s for s in ip.sources(e.value)]
                if vals and not all(is_const(v, -1) for v in vals):
                    return True
    return False


def check_enumeration(ctx):
    q = TRAV
    ip, res = ctx.analyze(q)
    f = ctx.repo.func(q)
    cons = q
    # ids
    sets = [e for e in ip.events if e.kind == "setattr" and e.name == "_hatchet_nid"]
    guards = []
    for e in sets:
        ctx.count("numbering effects")
        src = [s for s in ip.sources(e.obj)]
        whole = all(s.op == "elem" and is_traversal(s.a[0]) for s in src)
        ctx.oblige(whole, "partial-numbering", cons + ":target",
                   "ids are assigned to %s, not to the nodes of a full traversal" % (e.obj,), e.where)
        ctx.oblige(ip.counter(e.value) == 0, "numbers", cons + ":value",
                   "the id written at %s is %r, not a counter from 0" % (e.where, e.value), e.where)
        lid = e.loops[-1] if e.loops else None
        inner = [l for l in e.guard if any(x.op in ("elem", "idx", "mu") for x in subterms(l)) and not self_compare(l)]
        ctx.oblige(not inner, "skipped-nodes", cons + ":guard",
                   "the id is written at %s only if %r" % (e.where, inner), e.where)
        esc = [x for x in ip.events if x.kind in ("break", "return") and lid is not None and lid in x.loops]
        ctx.oblige(not esc, "skipped-nodes", cons + ":exit",
                   "the numbering loop can be left early at %s" % ", ".join(x.where for x in esc), e.where)
        guards.append(b_and(*[l for l in e.guard if not self_compare(l)]))
    ctx.oblige(bool(sets) and b_or(*guards) is TRUE if sets else False, "numbers", cons + ":all-paths",
               "ids are assigned only if %r" % (b_or(*guards) if sets else None,), f.where)
    # depths
    deps = [e for e in ip.events if e.kind == "setattr" and e.name == "_depth"]
    zero = [e for e in deps if is_const(e.value, 0)]
    ctx.count("depth effects", len(deps))
    ok = any(canon(e.obj) is canon(mk("elem", mk("attr", selfterm(ip, e), "roots"))) and not e.guard for e in zero)
    ctx.oblige(ok, "depth", cons + ":roots", "depth 0 is not given to every root on every path", f.where)
    step = False
    for e in deps:
        if e in zero:
            continue
        v = e.value
        o = canon(e.obj)
        good = (
            v.op == "bin" and v.a[0] == "+" and (is_const(v.a[2], 1) or is_const(v.a[1], 1))
        )
        par = None
        if good:
            p = v.a[1] if is_const(v.a[2], 1) else v.a[2]
            good = p.op == "attr" and p.a[1] == "_depth"
            par = p.a[0] if good else None
        good = good and o is canon(mk("elem", mk("attr", par, "children")))
        # not only the children of roots: the step is repeated for children
        good = good and canon(par) is not canon(mk("elem", mk("attr", selfterm(ip, e), "roots"))) and not (
            canon(par).op == "elem" and canon(par).a[0].op == "attr" and canon(par).a[0].a[1] == "roots")
        # only the not-yet-visited test may guard it
        if good:
            for l in e.guard:
                c = l.a[0] if l.op == "not" else l
                if not (l.op == "not" and c.op == "cmp" and c.a[0] == "in"):
                    good = False
                    continue
                # one record of visited nodes for the whole graph, which every
                # node that gets its depth here enters
                for s in ip.sources(c.a[2]):
                    made = ip.siteloops.get(s.a[0][:2]) if s.op in ("set", "dict", "list") and s.a and isinstance(s.a[0], tuple) else None
                    ctx.oblige(s.op in ("set", "dict", "list") and made == (), "depth", cons + ":visited",
                               "the nodes whose depth is assigned at %s are recorded in %r, which is not one record for the whole graph" % (e.where, s), e.where)
                adds = [x for x in ip.events if x.kind == "call" and x.name in ("add", "append") and x.obj is c.a[2] and x.args and x.args[0] is c.a[1]
                        or x.kind == "setitem" and x.obj is c.a[2] and x.args and x.args[0] is c.a[1]]
                ctx.oblige(any(set(x.guard) <= set(e.guard) for x in adds), "depth", cons + ":visited-add",
                           "nodes whose depth is assigned at %s are not recorded as visited" % e.where, e.where)
        ctx.oblige(good, "depth", cons + ":child",
                   "the depth written at %s is %r for %r, not its parent's depth + 1 for every newly reached child"
                   % (e.where, v, e.obj), e.where)
        step = step or good
    ctx.oblige(step, "depth", cons + ":children", "no effect gives children their parent's depth + 1", f.where)


def selfterm(ip, e):
    o = canon(e.obj)
    if o.op == "elem" and o.a[0].op == "attr":
        return o.a[0].a[0]
    return e.obj


def is_traversal(t):
    t = canon(t)
    while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and t.a[1]:
        t = t.a[1][0]
    return t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0].endswith(("Graph.traverse", "Graph.node_order_traverse"))


def self_compare(l):
    """A guard that only skips renumbering when all ids are right already."""
    return any(x.op == "attr" and x.a[1] == "_hatchet_nid" for x in subterms(l))


def check(ctx):
    for q in ENTRIES:
        check_entry(ctx, q)
    check_enumeration(ctx)
    ctx.need("graphs built", 18)
    ctx.need("graph frames built", 12)
    ctx.need("table keyings ordered", 12)
    ctx.need("numbering effects", 1)
    ctx.need("depth effects", 2)

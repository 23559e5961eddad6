"""P06: sums over subtrees and subgraphs, and the columns derived from them."""

from itertools import combinations

from ..lib import Members, implies, consistent, peel, flat, is_first, mentions
from ..terms import mk, attr, canon, neg, b_and, b_or, restrict, is_const, subterms, TRUE
from ..repo import AnalysisBroken
from .p16 import in_metrics, columns_of, table

TITLE = "inclusive and exclusive sums cover exactly the right rows"
RULE = (
    "Value-flow of subtree_sum, subgraph_sum, is_tree, generate_exclusive_columns, update_inclusive_columns and "
    "drop_index_levels: children before parents; rows combined are the node and all its children (tree) or everything "
    "reachable from it (graph, from a copy of the original values), with the other index levels of the row written; "
    "every node, every index entry and every column; exclusive = inclusive minus the sum over all children; one "
    "inclusive column per exclusive metric."
)
ASSUMPTIONS = ("label-based selection and groupby are pandas'",)

GF = "hatchet.graphframe.GraphFrame."
GR = "hatchet.graph.Graph."
KEEP = ("builtins.list", "builtins.tuple", "builtins.iter")  # wrappers that keep the order


def parts(ip, state, t, depth=0):
    """A tuple or list as components; ("*", x) is a spliced sequence."""
    t = peel(t, ("builtins.tuple", "builtins.list"))
    if t.op in ("tuple", "list") and depth < 8:
        items = list(t.a) if t.op == "tuple" else None
        if items is None:
            if t not in state.contents or any(e[2] is not None for e in state.contents[t]):
                return [("*", t)]
            items = [e[3] for e in state.contents[t]]
        out = []
        for x in items:
            if x.op == "star":
                out += parts(ip, state, x.a[0], depth + 1)
            else:
                out.append(x)
        return out
    if t.op == "bin" and t.a[0] == "+":
        return parts(ip, state, t.a[1], depth + 1) + parts(ip, state, t.a[2], depth + 1)
    return [("*", t)]


def same(a, b):
    return len(a) == len(b) and all(
        (x[0] == "*" and canon(x[1]) is canon(y[1])) if isinstance(x, tuple) and isinstance(y, tuple)
        else (not isinstance(x, tuple) and not isinstance(y, tuple) and canon(x) is canon(y))
        for x, y in zip(a, b))


def index_tests(t):
    """isinstance tests inside a term (they tell one from several index levels)."""
    return sorted({s for s in subterms(t) if s.op == "truth" and is_isinst(s.a[0])}, key=repr)


def is_isinst(t):
    return t.op == "call" and t.a[0] is mk("ext", "builtins.isinstance")


def structural(l):
    """A guard that only tells the kind of index apart."""
    return any(is_isinst(s) or s.op == "excpath" or s.op == "attr" and s.a[1] == "nlevels" for s in subterms(l)) and not any(
        s.op == "attr" and s.a[1] in ("children", "parents", "roots") for s in subterms(l))


def loc_of(t):
    """(table, row, column) of table.loc[row, column] / table.at[...]"""
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] in ("loc", "at"):
        k = t.a[1]
        if k.op == "tuple" and len(k.a) == 2:
            return t.a[0].a[0], k.a[0], k.a[1]
        return t.a[0].a[0], k, None
    return None


def travs(ip, base, order=None):
    out = []
    for e in ip.events:
        if e.kind == "loop" and e.obj is not None:
            o = peel(e.obj)
            if o.op == "call" and o.a[0].op == "fn" and o.a[0].a[0] == GR + "traverse" and o.a[1] and o.a[1][0] is base:
                kw = dict(o.a[2])
                a = list(o.a[1][1:])
                od = kw.pop("order", a[0] if a else None)
                kw.pop("#", None)
                extra = [k for k in kw if k != "visited"]
                out.append((e, od, extra))
    return out


def loop_of(t):
    """The loop whose variable an element term is (zip numbers its parts)."""
    import re

    l = t.a[1] if len(t.a) > 1 else None
    return (l[0], re.sub(r"(z\d+)+$", "", l[1])) if isinstance(l, tuple) and isinstance(l[1], str) else l


def ends_early(ip, loop):
    return [b for b in ip.events if b.kind in ("break",) and loop.name in b.loops] + [
        b for b in ip.events if b.kind == "return" and loop.name in b.loops and not b.stack[1:]]


def check_sum(ctx, name):
    q = GF + name
    f = ctx.repo.func(q)
    tree = name == "subtree_sum"
    ip, res = ctx.analyze(q, opaque=() if tree else (GF + "subtree_sum",))
    st = res.state
    selft = mk("param", q, "self")
    DF, G = attr(selft, "dataframe"), attr(selft, "graph")
    IN, OUTP, FN = (mk("param", q, x) for x in ("columns", "out_columns", "function"))

    def is_out(t):
        fl = {peel(x, KEEP) for x in flat(peel(t, KEEP))}
        return OUTP in fl and fl <= {IN, OUTP}

    def is_in(t):
        return {peel(x, KEEP) for x in flat(peel(t, KEEP))} == {IN}

    tv = travs(ip, G)
    ctx.oblige(bool(tv), "nodes", q, "not every node of the graph is summed", f.where)
    for e, od, extra in tv:
        if tree:
            ctx.oblige(od is not None and is_const(od, "post"), "order", q, "a node is summed before its children (order %r)" % od, e.where)
        ctx.oblige(not extra, "nodes", q + ":all", "the traversal is restricted by %s" % extra, e.where)
        for b in ends_early(ip, e):
            ctx.oblige(False, "nodes", q + ":early", "the loop over the nodes can end early", b.where)
    nodes = {canon(mk("elem", peel(e.obj))) for e, od, x in tv}
    # without a helper, the input columns are copied first
    stores = [e for e in ip.events if e.kind == "setitem" and e.obj.op == "attr" and e.obj.a[1] in ("loc", "at") and e.obj.a[0] is DF and e.args]
    ctx.oblige(bool(stores), "rows", q + ":stores", "no sums are stored", f.where)
    ctx.count(name + " stores", len(stores))
    dispatch = [e for e in ip.events if e.kind == "opaque" and e.name == GF + "subtree_sum"]
    dg = [neg(b_and(*e.guard)) for e in dispatch]
    norm_guards = []
    for e in stores:
        if not e.loops or not any(v[0].name in e.loops for v in tv):
            ctx.oblige(False, "rows", q + ":loop", "a sum is stored outside of the loop over the nodes", e.where)
            continue
        extra = []
        for l in e.guard:
            if structural(l) or l in dg or any(implies([d], l) for d in dg):
                continue
            if tree and l.op == "truth" and l.a[0].op == "attr" and l.a[0].a[1] == "children" and canon(l.a[0].a[0]) in nodes:
                continue
            if tree and some_children(l, nodes):
                continue
            extra.append(l)
        ctx.oblige(not extra, "rows", q + ":guard", "a node's sum is only stored if %r" % extra, e.where)
        norm_guards.append(b_and(*[l for l in e.guard if structural(l)]) if any(structural(l) for l in e.guard) else TRUE)
        # the combined value
        vals = []
        for v in ip.sources(e.value):
            v = peel(v, ("builtins.list", "numpy.array", "builtins.tuple"))
            if v.op in ("list", "tuple"):
                cs = [c[3] for c in st.contents.get(v, ())] if v.op == "list" else list(v.a)
                vals += [c.a[0] if c.op == "star" else c for c in cs]
            else:
                vals.append(v)
        for v in vals:
            ok = v.op == "call" and v.a[0] is FN and len(v.a[1]) == 1 and loc_of(v.a[1][0]) is not None
            if not ctx.oblige(ok, "value", q + ":function", "a row gets %r, not function(selected rows)" % v, e.where):
                continue
            src, rows, col = loc_of(v.a[1][0])
            k = e.args[0]
            if not (k.op == "tuple" and len(k.a) == 2 and col is not None):
                ctx.oblige(False, "value", q + ":columns", "rows are selected without a column", e.where)
                continue
            krow, kcol = k.a
            # source of the values
            if tree:
                ctx.oblige(src is DF, "value", q + ":source", "the sums of the children are read from %r" % src, e.where)
                okc = canon(kcol) is canon(col) and (kcol.op == "elem" and is_out(kcol.a[0]) or is_out(kcol))
            else:
                okv = (src.op == "call" and src.a[0].op == "attr" and src.a[0].a[1] == "copy" and src.a[0].a[0].op == "item"
                       and src.a[0].a[0].a[0] is DF and is_in(src.a[0].a[0].a[1])) or (
                           src.op == "call" and src.a[0].op == "attr" and src.a[0].a[1] == "copy" and src.a[0].a[0] is DF)
                ctx.oblige(okv, "value", q + ":source", "sums are taken over %r, which holds sums already stored" % src, e.where)
                okc = (kcol.op == "elem" and is_out(kcol.a[0]) and col.op == "elem" and is_in(col.a[0]) and loop_of(kcol) == loop_of(col)) or (
                    is_out(kcol) and is_in(col))
            ctx.oblige(okc, "value", q + ":columns", "column %r is computed from column %r" % (kcol, col), e.where)
            # rows
            tests = index_tests(mk("tuple", krow, rows))
            combos = [[]]
            for t in tests:
                combos = [c + [x] for c in combos for x in (t, neg(t))]
            for c in combos[:8]:
                kr = parts_of_row(ip, st, restrict(krow, c))
                rr = parts_of_row(ip, st, restrict(rows, c)) if len(kr) > 1 else [restrict(rows, c)]
                ok = bool(kr) and canon_part(kr[0]) in nodes
                ctx.oblige(ok, "rows", q + ":target", "the sum is stored in row %r, not the node's" % krow, e.where)
                ctx.oblige(same(kr[1:], rr[1:]), "rows", q + ":levels", "row %s is computed from index entries %s" % (kr[1:], rr[1:]), e.where)
                if multi_only(e.guard):
                    ctx.oblige(len(kr) > 1, "rows", q + ":entries", "index entries of one node are not summed separately", e.where)
                if len(kr) <= 1:
                    ctx.oblige(not multi_too(e.guard), "rows", q + ":entries", "index entries of one node may not be summed separately", e.where)
                first = rr[0]
                first = first[1] if isinstance(first, tuple) else first
                b, s, cond = Members(ip, st, known=e.guard, fixed=e.loops).of(first)
                cond = [x for x in cond if not structural(x)]
                if tree:
                    n = canon_part(kr[0])
                    ok = {canon(x) for x in s} == {n} and b == {canon(attr(n, "children"))} and not cond
                    ctx.oblige(ok, "rows", q + ":members", "the rows combined are %s, not the node and all its children" % sorted(map(repr, b | s)), e.where)
                else:
                    ok = not s and not cond and len(b) == 1
                    for x in b:
                        kw = dict(x.a[2]) if x.op == "call" else {}
                        kw.pop("#", None)
                        od = kw.pop("order", None)
                        ok = ok and x.op == "call" and x.a[0].op == "fn" and x.a[0].a[0] == "hatchet.node.Node.traverse" and [canon(y) for y in x.a[1][:1]] == [canon_part(kr[0])] and len(x.a[1]) <= 2 and not kw
                    ctx.oblige(ok, "rows", q + ":members", "the rows combined are %s, not everything reachable from the node" % sorted(map(repr, b | s)), e.where)
        for lp in e.loops:
            for le in ip.events:
                if le.kind == "loop" and le.name == lp and ends_early(ip, le):
                    ctx.oblige(False, "rows", q + ":early", "a loop over index entries or columns can end early", le.where)
    if norm_guards:
        ctx.oblige(implies([], b_or(*norm_guards)) if TRUE not in norm_guards else True, "rows", q + ":kinds", "one kind of index is not summed", f.where)
    # input columns copied into the output columns
    if tree:
        cps = [e for e in ip.events if e.kind == "setitem" and e.obj is DF and e.args and e.args[0].op == "elem" and is_out(e.args[0].a[0])]
        ok = any(e.value.op == "item" and e.value.a[0] is DF and e.value.a[1].op == "elem" and is_in(e.value.a[1].a[0]) and loop_of(e.value.a[1]) == loop_of(e.args[0])
                 and all(differs(l, IN, OUTP) for l in e.guard) for e in cps)
        ctx.oblige(ok, "init", q, "output columns do not start as copies of the input columns", f.where)
        first = min([e.idx for e in stores], default=0)
        ctx.oblige(all(e.idx < first for e in cps), "init", q + ":before", "output columns are initialised after sums were stored", f.where)
        lens = [e for e in ip.events if e.kind == "raise" and any(s.op == "call" and s.a[0] is mk("ext", "builtins.len") for l in e.guard for s in subterms(l))]
        ctx.oblige(bool(lens), "init", q + ":lengths", "different numbers of input and output columns are accepted", f.where)
    else:
        V = [e for e in dispatch]
        ok = len(V) == 1 and len(V[0].args) >= 1
        if ok:
            e = V[0]
            kw = e.kwargs
            ctx.oblige(kw.get("columns") is IN and kw.get("out_columns") is OUTP and kw.get("function") is FN and e.args[0] is selft,
                       "dispatch", q + ":arguments", "subtree_sum gets other arguments than subgraph_sum", e.where)
            one = any(l.op == "not" and l.a[0].op == "cmp" and l.a[0].a[0] == "<" and is_const(l.a[0].a[1], 1) or
                      l.op == "cmp" and l.a[0] in ("<=", "==", "<") and mentions(l, attr(G, "roots")) for l in e.guard)
            ctx.oblige(one, "dispatch", q + ":roots", "a graph with several roots is summed as a tree", e.where)
            alls = [s for l in e.guard if l.op != "not" for s in subterms(l) if s.op == "call" and s.a[0] is mk("ext", "builtins.all")]
            okv = False
            for a in alls:
                for c in st.contents.get(a.a[1][0], ()):
                    v = c[3]
                    if not c[0][len(e.guard):] and v.op == "cmp" and (v.a[0] == "==" or v.a[0] == "<=" and is_const(v.a[2], 1)) and any(is_const(x, 1) for x in v.a[1:]) and any(x.op == "val" for x in v.a[1:]):
                        d = next(x for x in v.a[1:] if x.op == "val").a[0]
                        okv = okv or any(x.kind == "opaque" and x.name == GR + "traverse" and x.kwargs.get("visited") is d and x.args[0] is G for x in ip.events)
            anys = [s for l in e.guard if l.op == "not" for s in subterms(l) if s.op == "call" and s.a[0] is mk("ext", "builtins.any")]
            for a in anys:
                for c in st.contents.get(a.a[1][0], ()):
                    v = c[3]
                    if v.op == "cmp" and v.a[0] == "<" and is_const(v.a[1], 1) and v.a[2].op == "val" or v.op == "not" and v.a[0].op == "cmp" and v.a[0].a[0] == "==":
                        okv = True
            ctx.oblige(okv, "dispatch", q + ":tree", "a graph in which a node is reached twice is summed as a tree", e.where)
        ctx.oblige(len(V) <= 1, "dispatch", q, "subtree_sum is called %d times" % len(V), f.where)


def some_children(l, nodes):
    """0 < len(node.children) and the like"""
    pos = l.op != "not"
    c = l if pos else l.a[0]
    if c.op != "cmp" or not any(s.op == "attr" and s.a[1] == "children" and canon(s.a[0]) in nodes for s in subterms(c)):
        return False
    a, b = c.a[1], c.a[2]
    if pos:
        return c.a[0] == "<" and is_const(a, 0) or c.a[0] == "<=" and is_const(a, 1) or c.a[0] == "!=" and (is_const(a, 0) or is_const(b, 0))
    return c.a[0] == "==" and (is_const(a, 0) or is_const(b, 0)) or c.a[0] == "<" and is_const(b, 1) or c.a[0] == "<=" and is_const(b, 0)


def differs(l, a, b):
    """the literal only says that the two column lists are not the same object"""
    c = l.a[0] if l.op == "not" else l
    return c.op == "cmp" and c.a[0] in ("is", "==", "in") and not any(s.op == "elem" for s in subterms(c)) or any(
        s.op == "call" and s.a[0] is mk("ext", "builtins.len") for s in subterms(l)) or c.op == "cmp" and c.a[0] == "is" and mentions(c, b)


def multi_only(guard):
    """The guard holds for tables with several index levels only."""
    atoms = {x for l in guard for x in subterms(l) if x.op == "truth" and is_isinst(x.a[0]) and "MultiIndex" in repr(x.a[0])}
    return bool(atoms) and not consistent([neg(a) for a in atoms], [l for l in guard if structural(l)])


def multi_too(guard):
    """The guard may hold for a table with several index levels."""
    lits = [l for l in guard if structural(l)]
    if any(s.op == "attr" and s.a[1] in ("nlevels", "names") for l in guard for s in subterms(l)):
        # another way to ask for several levels: not decided
        return False
    atoms = {x for l in lits for x in subterms(l) if x.op == "truth" and is_isinst(x.a[0]) and "MultiIndex" in repr(x.a[0])}
    return consistent(list(atoms), lits)


def parts_of_row(ip, st, t):
    t2 = peel(t, ("builtins.tuple",))
    if t2.op in ("tuple",) or t2.op == "bin" and parts(ip, st, t2.a[1]) and t2.a[1].op == "tuple":
        return parts(ip, st, t2)
    if t2.op == "list":
        b = parts(ip, st, t2)
        # a list of one node, or an index entry built as a list
        return [t2] if not any(isinstance(x, tuple) for x in b[1:]) and t is t2 else b
    if t2.op == "bin":
        return [t2]
    return [t2]


def canon_part(p):
    return canon(p[1] if isinstance(p, tuple) else p)


def check_exclusive(ctx):
    q = GF + "generate_exclusive_columns"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    st = res.state
    selft = mk("param", q, "self")
    DF0, G = attr(selft, "dataframe"), attr(selft, "graph")
    tv = travs(ip, G)
    nodes = {canon(mk("elem", peel(e.obj))) for e, od, x in tv}
    ctx.oblige(bool(tv), "exclusive", q + ":nodes", "not every node gets an exclusive value", f.where)
    for e, od, x in tv:
        ctx.oblige(not x and not ends_early(ip, e), "exclusive", q + ":nodes-all", "some nodes are skipped", e.where)

    def frame(t):
        return t is DF0 or t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "assign" and frame(t.a[0].a[0]) or (
            t.op in ("mu", "phi") and any(frame(x) for x in ip.sources(t) if x is not t))

    # name pairs
    PL = None
    metrics = attr(selft, "inc_metrics")
    for l, cs in st.contents.items():
        if l.op == "list" and cs and all(c[3].op == "tuple" and len(c[3].a) == 2 and canon(c[3].a[1]) is canon(mk("elem", metrics)) for c in cs):
            PL = l
    if PL is None:
        raise AnalysisBroken("generate_exclusive_columns: no list of (exclusive, inclusive) names recognised")
    INC, EXCM = mk("param", q, "inc_metrics"), attr(selft, "exc_metrics")
    el = canon(mk("elem", metrics))
    kinds = set()
    for g, loops, k, v in st.contents[PL]:
        name = canon(v.a[0])
        suffix = None
        bad = []
        new = None
        for l0 in g:
            l = canon(l0)
            c = l.a[0] if l.op == "not" else l
            if c.op == "truth" and c.a[0].op == "call" and c.a[0].a[0].op == "attr" and c.a[0].a[0].a[1] == "endswith" and c.a[0].a[0].a[0] is el and is_const(c.a[0].a[1][0], "(inc)"):
                suffix = l is c
            elif mentions(l, INC):
                # inc_metrics given: only those
                want = b_or(neg(mk("truth", INC)), mk("cmp", "in", el, INC))
                if not (implies([l], want) and implies([want], l)):
                    bad.append(l)
            elif "is_numeric_dtype" in repr(l):
                if l is not c:
                    bad.append(l)
            elif c.op == "cmp" and c.a[0] == "in" and c.a[1] is name and peel(c.a[2], KEEP + ("builtins.set",)) is EXCM:
                new = l is not c
            else:
                bad.append(l)
        ctx.oblige(not bad, "exclusive", q + ":choice", "exclusive columns are only generated if %r" % bad, f.where)
        if suffix is True:
            ctx.oblige(new is True, "exclusive", q + ":existing", "an existing exclusive metric is overwritten", f.where)
            ok = any(s.op == "item" and s.a[0] is el for s in subterms(name)) or "removesuffix" in repr(name)
            ctx.oblige(ok and "(exc)" not in repr(name), "exclusive", q + ":name", "the exclusive metric of 'x (inc)' is named %r" % name, f.where)
        elif suffix is False:
            ctx.oblige(new is None or new, "exclusive", q + ":skip", "metrics without '(inc)' are skipped", f.where)
            ctx.oblige("(exc)" in repr(name) and mentions(name, el), "exclusive", q + ":name2", "the exclusive metric of 'x' is named %r" % name, f.where)
        kinds.add(suffix)
    ctx.oblige(kinds >= {True, False}, "exclusive", q + ":kinds", "one kind of inclusive metric gets no exclusive one", f.where)
    P = canon(mk("elem", PL))
    exc, inc = mk("item", P, mk("const", 0)), mk("item", P, mk("const", 1))
    # values
    data = []
    for e in ip.events:
        if e.kind == "setitem" and e.obj.op == "dict" and e.value is not None and e.value.op == "bin" and any(v[0].name in e.loops for v in tv):
            data.append(e)
    other = [e for e in ip.events if e.kind == "setitem" and e.obj.op == "dict" and any(v[0].name in e.loops for v in tv) and e not in data]
    for e in other:
        ctx.oblige(False, "exclusive", q + ":value", "a node's exclusive value is %r" % e.value, e.where)
    ctx.oblige(bool(data), "exclusive", q + ":values", "no exclusive values are computed", f.where)
    good = set()
    for e in data:
        v = e.value
        ok = v.a[0] == "-"
        own = loc_of(v.a[1]) if ok else None
        ok = ok and own is not None and frame(own[0]) and own[2] is not None and canon(own[2]) is inc and same(
            parts_of_row(ip, st, own[1]), parts_of_row(ip, st, e.args[0]))
        ctx.oblige(ok, "exclusive", q + ":own", "a node's exclusive value starts from %r" % v.a[1], e.where)
        bad = [l for l in e.guard if not structural(l)]
        ctx.oblige(not bad, "exclusive", q + ":guard", "an exclusive value is only computed if %r" % bad, e.where)
        krow = parts_of_row(ip, st, e.args[0])
        ctx.oblige(canon_part(krow[0]) in nodes, "exclusive", q + ":row", "exclusive values are stored for %r" % e.args[0], e.where)
        n = canon_part(krow[0])
        subs = addends(ip, st, v.a[2])
        okc = False
        if subs is not None and len(subs) == 1:
            (x, guard, loops), = subs
            y = x
            nan0 = False
            while y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0] in ("numpy.nan_to_num", "builtins.float"):
                nan0 = nan0 or y.a[0].a[0] == "numpy.nan_to_num"
                y = y.a[1][0]
            lc = loc_of(y)
            tests = [l for l in guard if not_missing(l, y)]
            nan0 = nan0 or bool(tests)
            guard = [l for l in guard if l not in tests]
            ctx.oblige(nan0, "exclusive", q + ":nan", "a child without a value makes its parent's exclusive value NaN", e.where)
            if lc is not None and frame(lc[0]) and lc[2] is not None and canon(lc[2]) is inc:
                rr = parts_of_row(ip, st, lc[1])
                okc = canon_part(rr[0]) is canon(mk("elem", attr(n, "children"))) and same(rr[1:], krow[1:])
            bad = [l for l in guard if l not in e.guard and not structural(l)]
            okc = okc and not bad
        ctx.oblige(okc, "exclusive", q + ":children", "the children's inclusive values are not all subtracted: %r" % v.a[2], e.where)
        if any(structural(l) and "MultiIndex" in repr(l) and l.op != "not" for l in e.guard):
            ctx.oblige(len(krow) > 1, "exclusive", q + ":entries", "index entries of one node are mixed", e.where)
        # stored under the exclusive name
        for a in ip.events:
            if a.kind == "setattr" and a.obj is selft and a.name == "dataframe" and a.value.op == "call" and a.value.a[0].op == "attr" and a.value.a[0].a[1] == "assign":
                for d in a.value.a[2]:
                    dd = d[1]
                    if dd.op == "dict":
                        for g, l, k, vv in st.contents.get(dd, ()):
                            if k is not None and canon(k) is exc and mentions(vv, e.obj) and not [x for x in a.guard if not structural(x)]:
                                good.add((e.idx, a.idx))
            if a.kind == "setitem" and frame(a.obj) and a.args and canon(a.args[0]) is exc and mentions(a.value, e.obj) and not [x for x in a.guard if not structural(x)]:
                good.add((e.idx, a.idx))
        ctx.oblige(any(i == e.idx for i, j in good), "exclusive", q + ":stored", "computed values do not become the column of the exclusive metric", e.where)
    gs = [b_and(*[l for l in e.guard if structural(l)]) if [l for l in e.guard if structural(l)] else TRUE for e in data]
    ctx.oblige(TRUE in gs or implies([], b_or(*gs)), "exclusive", q + ":index-kinds", "one kind of index gets no exclusive values", f.where)
    # metric list
    okm = False
    fin = st.heap.get((selft, "exc_metrics"))
    b, s, c = Members(ip, st).of(fin) if fin is not None else (set(), set(), [])
    okm = any(canon(x) is exc for x in s) and not c
    if not okm:
        for e in ip.events:
            if e.kind == "call" and e.name in ("extend", "append") and e.obj is not None and e.obj is attr(selft, "exc_metrics") and not e.guard and e.args:
                b, s, c = Members(ip, st).of(e.args[0])
                okm = okm or (any(canon(x) is exc for x in s) or canon(e.args[0]) is exc) and not c
    ctx.oblige(okm, "exclusive", q + ":listed", "generated columns are not added to the exclusive metrics", f.where)
    ctx.count("exclusive value stores", len(data))


def not_missing(l, y):
    """A test that skips a missing value, which counts as zero."""
    c = l.a[0] if l.op == "not" else l
    c = c.a[0] if c.op == "truth" else c
    if c.op == "call" and c.a[0].op == "ext" and len(c.a[1]) == 1 and c.a[1][0] is y:
        n = c.a[0].a[0]
        return n in ("numpy.isnan", "math.isnan", "pandas.isna", "pandas.isnull") and l.op == "not" or n in ("pandas.notna", "pandas.notnull") and l.op != "not"
    return c.op == "cmp" and c.a[0] == "==" and c.a[1] is y and c.a[2] is y and l.op != "not"


def addends(ip, st, t):
    """What a sum adds up: [(term, guard, loops)], or None."""
    t = peel(t, ("builtins.float",))
    if t.op == "call" and t.a[0] in (mk("ext", "builtins.sum"), mk("ext", "numpy.sum"), mk("ext", "math.fsum")):
        x = t.a[1][0]
        x = peel(x)
        if x.op == "list":
            return [(c[3], c[0], c[1]) for c in st.contents.get(x, ())]
        return None
    out = []
    for m in sorted({x for x in subterms(t) if x.op == "mu"}, key=repr) or [None]:
        for v in (ip.mu.get(m, ()) if m is not None else [t]):
            for g, s in ip.leaves(v):
                if s.op == "const" and s.a[0] == 0 or s is m and not g:
                    continue
                if s is m:
                    continue  # a skipped element: the guards of the addends say when
                if s.op == "phi":
                    continue
                if s.op == "bin" and s.a[0] == "+":
                    l, r = s.a[1], s.a[2]
                    if l is not m:
                        l, r = r, l
                    if l is not m or m is None:
                        return None
                    if (r, tuple(g), ()) not in out:
                        out.append((r, tuple(g), ()))
                else:
                    return None
    return out


def check_inclusive(ctx):
    q = GF + "update_inclusive_columns"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(GF + "subgraph_sum", GF + "subtree_sum"))
    st = res.state
    selft = mk("param", q, "self")
    EXC, INC0 = attr(selft, "exc_metrics"), attr(selft, "inc_metrics")
    has = mk("truth", EXC)
    calls = [e for e in ip.events if e.kind == "opaque" and e.name in (GF + "subgraph_sum", GF + "subtree_sum")]
    ctx.oblige(bool(calls), "inclusive", q, "inclusive columns are not recomputed", f.where)
    for e in calls:
        ctx.oblige(e.name == GF + "subgraph_sum", "inclusive", q + ":graph", "graphs with shared nodes are summed as trees", e.where)
        ctx.oblige(implies([has], b_and(*e.guard) if e.guard else TRUE), "inclusive", q + ":guard", "inclusive columns are only updated if %r" % (e.guard,), e.where)
        col, out = e.kwargs.get("columns"), e.kwargs.get("out_columns")
        ctx.oblige(col is not None and peel(col, KEEP) is EXC, "inclusive", q + ":columns", "sums are taken over %r, not the exclusive metrics" % col, e.where)
        out = peel(out, KEEP) if out is not None else out
        L = out
        cs = st.contents.get(L, ()) if L is not None else ()
        if not ctx.oblige(bool(cs), "inclusive", q + ":names", "sums are stored in %r" % out, e.where):
            continue
        el = canon(mk("elem", EXC))
        gs = []
        for g, loops, k, v in cs:
            g = [canon(l) for l in g if l is not has]
            gs.append((b_and(*g) if g else TRUE, v))
            lps = [x for x in ip.events if x.kind == "loop" and x.name in loops]
            ctx.oblige(any(x.obj is not None and canon(peel(x.obj, KEEP)) is EXC for x in lps), "inclusive", q + ":order", "names are not built in the order of the exclusive metrics", f.where)
        ctx.oblige(any(a is TRUE for a, v in gs) or implies([], b_or(*[a for a, v in gs])), "inclusive", q + ":every", "an exclusive metric gets no inclusive column (and later ones get another's)", f.where)
        for (a, v), (b, w) in combinations(gs, 2):
            ctx.oblige(not consistent([a], [b]), "inclusive", q + ":once", "an exclusive metric gets two inclusive columns", f.where)
        for a, v in gs:
            names = resolve_name(ip, st, v)
            for gg, n in [(c, x) for c, x in names]:
                lits = [a, canon(b_and(*gg)) if gg else TRUE]
                ends = {x for l in lits for x in subterms(l) if x.op == "truth" and "endswith" in repr(x) and "(exc)" in repr(x)}
                if not ends:
                    continue
                pos = any(implies(lits, x) for x in ends)
                negv = any(implies(lits, neg(x)) for x in ends)
                txt = repr(n)
                if pos:
                    ctx.oblige("(inc)" not in txt and "strip" in txt or "removesuffix" in txt, "inclusive", q + ":stripped", "the inclusive metric of 'x (exc)' is named %s" % txt, f.where)
                elif negv:
                    ctx.oblige("(inc)" in txt, "inclusive", q + ":suffixed", "the inclusive metric of 'x' is named %s" % txt, f.where)
        fin = st.heap.get((selft, "inc_metrics"))
        if fin is not None and fin.op == "ite":
            fin = restrict(fin, [has])
        b, s, c = Members(ip, st, known=[has]).of(fin) if fin is not None else (set(), set(), [])
        lb, ls, lc = Members(ip, st, known=[has]).of(L)
        ok = INC0 in b and ls <= s and all(x in lc for x in c)
        ctx.oblige(ok, "inclusive", q + ":listed", "the inclusive metrics are not the updated ones plus the previous ones", f.where)
    ctx.count("inclusive updates", len(calls))


def resolve_name(ip, st, v):
    """A metric name: a string term, or the tuple of a list whose last item was replaced."""
    out = []
    work = [((), v)]
    seen = set()
    while work:
        g, x = work.pop()
        x = peel(x, ("builtins.tuple", "builtins.list"))
        if (g, x) in seen:
            continue
        seen.add((g, x))
        if x.op == "ite":
            work.append((g + (x.a[0],), x.a[1]))
            work.append((g + (neg(x.a[0]),), x.a[2]))
        elif x.op == "list":
            for c in st.contents.get(x, ()):
                if c[3].op == "star" and c[3].a[0].op == "list":
                    work.append((g, c[3].a[0]))
                elif c[2] is not None and is_const(c[2], -1) or c[2] is None and c[3].op in ("str", "call", "bin"):
                    work.append((g, c[3]))
        elif x.op == "tuple" or x.op == "bin" and x.a[2].op == "tuple":
            last = (x if x.op == "tuple" else x.a[2]).a
            if last and last[-1].op != "star":
                work.append((g, last[-1]))
        else:
            out.append((g, x))
    return out


def check_drop(ctx):
    q = GF + "drop_index_levels"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    st = res.state
    selft = mk("param", q, "self")
    DF, FN = attr(selft, "dataframe"), mk("param", q, "function")
    fin = st.heap.get((selft, "dataframe"))
    for t in ip.sources(fin) if fin is not None else [mk("const", None)]:
        while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("sort_index", "copy"):
            t = t.a[0].a[0]
        ok = t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("agg", "aggregate") and t.a[1] and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0].op == "attr" and t.a[0].a[0].a[0].a[1] == "groupby"
        if not ctx.oblige(ok, "drop", q, "the table becomes %r" % t, f.where):
            continue
        gb, spec = t.a[0].a[0], t.a[1][0]
        kw = dict(gb.a[2])
        by = kw.get("level") or kw.get("by") or (gb.a[1][0] if gb.a[1] else None)
        by = by.a[0] if by is not None and by.op == "tuple" and len(by.a) == 1 else by
        if by is not None and by.op == "list":
            cs = st.contents.get(by, ())
            by = cs[0][3] if len(cs) == 1 else by
        ctx.oblige(by is not None and is_const(by, "node"), "drop", q + ":by", "rows are grouped by %r" % by, f.where)
        ctx.oblige(table(gb.a[0].a[0], DF), "drop", q + ":source", "the aggregated rows are %r" % gb.a[0].a[0], f.where)
        metrics = {canon(attr(selft, "exc_metrics")), canon(attr(selft, "inc_metrics"))}
        fns, firsts = [], []
        for g, l, k, v in st.contents.get(spec, ()):
            for gg, vv in ip.leaves(v):
                cond = list(g) + list(gg)
                okk = k is not None and k.op == "elem" and columns_of(peel(k.a[0]), DF)
                ctx.oblige(okk, "drop", q + ":columns", "not every column is aggregated", f.where)
                if vv is FN:
                    fns.append((cond, k))
                elif is_first(ctx.repo, vv) or is_const(vv, "first"):
                    firsts.append((cond, k))
                else:
                    ctx.oblige(False, "drop", q + ":function", "a column is aggregated with %r" % vv, f.where)
        for cond, k in fns:
            ctx.oblige(in_metrics(ip, res, b_and(*cond), k, metrics, True), "drop", q + ":metrics", "the function aggregates columns if %r, not exactly the metrics" % cond, f.where)
        for cond, k in firsts:
            ctx.oblige(in_metrics(ip, res, b_and(*cond), k, metrics, False), "drop", q + ":others", "the first value is taken if %r" % cond, f.where)
        ctx.oblige(bool(fns) and bool(firsts), "drop", q + ":both", "metrics or other columns are not aggregated", f.where)


def check(ctx):
    check_sum(ctx, "subtree_sum")
    check_sum(ctx, "subgraph_sum")
    check_exclusive(ctx)
    check_inclusive(ctx)
    check_drop(ctx)

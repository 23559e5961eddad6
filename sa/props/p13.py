"""P13: arithmetic between graph frames."""

from ..lib import strip_copy, Members
from ..terms import canon, attr, is_const, mk, restrict
from ..repo import AnalysisBroken

TITLE = "arithmetic computes left OP right for the metrics of both graph frames"
RULE = (
    "Value-flow of each arithmetic method and operator (callees inlined, unify opaque and havocking the tables): "
    "on every path the operands (copies of both; for in-place forms self and a copy of other) are unified before "
    "their tables are read; the table stored in the result is a copy of the unified left table updated exactly "
    "once with the method's own pandas operation, applied left-to-right to the unified left table and the "
    "columns of the unified right table named by the union of the exclusive and inclusive metrics of both; "
    "nothing else writes it; in-place forms return self."
)
ASSUMPTIONS = ("pandas DataFrame arithmetic aligns on index and columns; DataFrame.update overwrites with non-NaN values",)

GF = "hatchet.graphframe.GraphFrame"
G = GF + "."
UNIFY = G + "unify"
OPS = {
    "add": ({"add", "__add__"}, {"radd"}, "+"),
    "sub": ({"sub", "subtract", "__sub__"}, {"rsub"}, "-"),
    "mul": ({"mul", "multiply", "__mul__"}, {"rmul"}, "*"),
    "div": ({"div", "divide", "truediv", "__truediv__"}, {"rdiv", "rtruediv"}, "/"),
}
METHODS = {
    "add": "add", "__add__": "add", "__iadd__": "add",
    "sub": "sub", "__sub__": "sub", "__isub__": "sub",
    "mul": "mul", "__mul__": "mul", "__imul__": "mul",
    "div": "div", "__truediv__": "div", "__idiv__": "div", "__itruediv__": "div",
}


def operation(t, op):
    """(left, right) when t is the pandas operation named op."""
    fwd, rev, sym = OPS[op]
    if t.op == "bin" and t.a[0] == sym:
        return t.a[1], t.a[2]
    if t.op == "call":
        f, args, kw = t.a
        if f.op == "attr" and len(args) == 1 and not kw:
            if f.a[1] in fwd:
                return f.a[0], args[0]
            if f.a[1] in rev:
                return args[0], f.a[0]
        if f.op == "ext" and len(args) == 2 and not kw:
            names = {"operator." + n for n in fwd} | {"pandas.DataFrame." + n for n in fwd} | {"numpy.%s" % n for n in fwd}
            names |= {"pandas.core.frame.DataFrame." + n for n in fwd}
            if op == "div":
                names |= {"numpy.true_divide", "operator.truediv", "numpy.divide"}
            if f.a[0] in names:
                return args[0], args[1]
    return None


def columns_of(t):
    """(table, column list or None for all columns)."""
    if t.op == "item":
        b, k = t.a
        if b.op == "attr" and b.a[1] == "loc" and k.op == "tuple" and len(k.a) == 2:
            return b.a[0], k.a[1]
        return b, k
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "reindex" and dict(t.a[2]).get("columns"):
        return t.a[0].a[0], dict(t.a[2])["columns"]
    return t, None


def check_method(ctx, m, op):
    q = G + m
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, havoc={UNIFY: ("dataframe", "graph")})
    self_t, other_t = mk("param", q, "self"), mk("param", q, "other")
    inplace = m.startswith("__i")
    cons = q
    un = [e for e in ip.events if e.kind == "opaque" and e.name == UNIFY]
    ctx.count("arithmetic methods")
    if not res.returns:
        ctx.oblige(False, "result", cons, "%s returns nothing" % m, f.where)
        return
    for g, obj in res.returns:
        for s in ip.sources(obj):
            ctx.count("results")
            if inplace:
                ctx.oblige(s is self_t, "result", cons, "%s returns %r, not self" % (m, s), f.where)
            else:
                ctx.oblige(s.op == "new" and s.a[0] == GF, "result", cons,
                           "%s returns %r, not a new graph frame" % (m, s), f.where)
            mine = [e for e in un if e.obj is s and not rest(e.guard, g)]
            left = s
            right = None
            if mine:
                right = mine[-1].args[1] if len(mine[-1].args) > 1 else mine[-1].kwargs.get("other")
            swapped = [e for e in un if e not in mine]
            if not ctx.oblige(len(mine) == 1 and not swapped, "unify", cons,
                              "the operands of %s are not unified exactly once on every path (left.unify(right))" % m,
                              (un[0].where if un else f.where)):
                continue
            # which operand is which
            ctx.oblige(copy_of(ip, res, left, self_t, inplace), "operand", cons + ":left",
                       "the left operand of %s is %s" % (m, describe(ip, res, left)), f.where)
            ctx.oblige(copy_of(ip, res, right, other_t, False), "operand", cons + ":right",
                       "the right operand of %s is %s" % (m, describe(ip, res, right)), f.where)
            df = [e for e in ip.events if e.kind == "setattr" and e.name == "dataframe" and e.obj is s and e.idx > mine[0].idx]
            post = lambda o: next((v for v in posts(ip, o)), None)
            L, R = post(left), post(right)
            final = res.state.heap.get((s, "dataframe"))
            okf = final is not None and all(strip_copy(x) is L for x in ip.sources(final))
            ctx.oblige(okf, "result-table", cons,
                       "the table of the result of %s is %r, not the unified left table" % (m, final), f.where)
            if not okf:
                continue
            ups = [e for e in ip.events if e.kind == "call" and e.name == "update" and e.obj is not None
                   and strip_copy(e.obj) is L and e.idx > mine[0].idx]
            other_writes = [e for e in ip.events if e.idx > mine[0].idx and (
                e.kind in ("setitem", "delitem") and base(e.obj) is L
                or e.kind == "call" and e.obj is not None and strip_copy(e.obj) is L and (
                    e.name in ("fillna", "replace", "drop", "clip", "insert", "pop", "reset_index", "set_index")
                    and not is_const(e.kwargs.get("inplace", mk("const", False)), False)))]
            ctx.oblige(not other_writes, "result-table", cons + ":writes",
                       "the result table is also written at %s" % ", ".join(e.where for e in other_writes), f.where)
            finals = set(ip.sources(final))
            good = [e for e in ups if not rest(e.guard, g) and (e.obj in finals)]
            if not ctx.oblige(len(good) == 1 and len(ups) == 1, "operation", cons + ":once",
                              "the result table of %s is not updated exactly once with the computed values" % m, f.where):
                continue
            e = good[0]
            kw = {k: v for k, v in e.kwargs.items() if not (k == "join" and is_const(v, "left") or k == "overwrite" and is_const(v, True))}
            ctx.oblige(not kw and len(e.args) == 1, "operation", cons + ":update",
                       "the computed values are stored with options %s" % kw, e.where)
            if not e.args:
                continue
            for x in ip.sources(e.args[0]):
                r = operation(x, op)
                if not ctx.oblige(r is not None, "operation", cons + ":op",
                                  "%s computes %r, not the %s of both tables" % (m, x, op), e.where):
                    continue
                (l, lc), (rr, rc) = columns_of(r[0]), columns_of(r[1])
                ctx.oblige(strip_copy(l) is L, "operand", cons + ":op-left",
                           "the left side of the operation is %s, not the unified left table" % why(l, L, R), e.where)
                ctx.oblige(strip_copy(rr) is R, "operand", cons + ":op-right",
                           "the right side of the operation is %s, not the unified right table" % why(rr, R, L), e.where)
                ctx.oblige(rc is not None or lc is not None, "columns", cons + ":all",
                           "the operation is not restricted to metric columns", e.where)
                want = {canon(attr(o, k)) for o in (self_t, other_t) for k in ("exc_metrics", "inc_metrics")}
                for c in (lc, rc):
                    if c is None:
                        continue
                    for cc in ip.sources(c):
                        b, sg, cond = Members(ip, res.state).of(cc)
                        ctx.oblige({canon(x) for x in b} == want and not sg and not cond, "columns", cons,
                                   "the operation covers %s%s, not the exclusive and inclusive metrics of both operands"
                                   % (sorted(map(repr, b | sg)), " conditionally" if cond else ""), e.where)


def posts(ip, o):
    for x in ip.havocked:
        if x.a[0] is o and x.a[1] == "dataframe":
            yield x


def rest(guard, g):
    return [l for l in guard if l not in g and not is_isna(l)]


def is_isna(l):
    return False


def base(t):
    while True:
        t2 = strip_copy(t)
        if t2.op == "attr" and t2.a[1] in ("loc", "iloc", "at", "iat", "values"):
            t2 = t2.a[0]
        if t2 is t:
            return t
        t = t2


def copy_of(ip, res, t, src, inplace):
    if t is None:
        return False
    if inplace:
        return t is src
    if t.op != "new" or t.a[0] != GF:
        return False
    ev = [e for e in ip.events if e.kind == "new" and e.value is t]
    # fields given to the constructor come from src
    init = [e for e in ip.events if e.kind == "setattr" and e.obj is t and e.name in ("graph", "dataframe")]
    first = {}
    for e in init:
        first.setdefault(e.name, e)
    if set(first) != {"graph", "dataframe"}:
        return False
    for n, e in first.items():
        for s in ip.sources(e.value):
            b = strip_copy(s)
            if n == "dataframe" and b is not attr(src, "dataframe"):
                if not (b.op == "call"):
                    return False
            if n == "graph" and b is not attr(src, "graph") and not (b.op == "new"):
                return False
    return bool(ev)


def describe(ip, res, t):
    return repr(t)


def why(x, want, other):
    if strip_copy(x) is other:
        return "the other table"
    return repr(x)


def check(ctx):
    for m, op in METHODS.items():
        if G + m not in ctx.repo.functions:
            raise AnalysisBroken("GraphFrame.%s not found" % m)
        check_method(ctx, m, op)
    ctx.need("results", 12)

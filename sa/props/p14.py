"""P14: unify: one graph, remapped tables, marked missing rows."""

from ..lib import strip_copy, Members
from ..terms import canon, attr, is_const, mk, subterms, restrict, b_and, b_or, TRUE, neg, cval, literals
from ..repo import AnalysisBroken

TITLE = "unify keeps every row, remaps all nodes and marks the missing ones"
RULE = (
    "Value-flow of GraphFrame.unify with its helper inlined: both graph frames get the one union of their graphs; "
    "the node column of each table is mapped element by element through the map that union filled; the index "
    "levels restored are the table's own; rows selected as missing come from comparing each table's node hashes "
    "with the other's (sorted) hashes; every metric of either side is NaN in the rows added to the left table; "
    "_missing_node is 2 there, 1 for left-only rows, else 0; and the result is the concatenation of both. The "
    "membership kernel must be a complete binary search whose mask is True exactly for keys not found."
)
ASSUMPTIONS = ("node hashes within one graph are distinct (ids are final, P04)",)

GF = "hatchet.graphframe.GraphFrame"
K = "hatchet.cython_modules.graphframe_modules."
UNION = "hatchet.graph.Graph.union"
NOTIN = K + "fast_not_isin"
ONES = K + "insert_one_for_self_nodes"


class U:
    def __init__(self, ctx):
        q = GF + ".unify"
        self.ctx = ctx
        self.q = q
        self.f = ctx.repo.func(q)
        self.ip, self.res = ctx.analyze(q, opaque=(UNION, NOTIN, ONES))
        self.selft, self.othert = mk("param", q, "self"), mk("param", q, "other")
        self.D = {"self": attr(self.selft, "dataframe"), "other": attr(self.othert, "dataframe")}
        self.same = None

    def where(self, e=None):
        return e.where if e is not None else self.f.where

    def lists(self, t, seen=None):
        """Subterms including the contents of containers built on the way."""
        seen = seen if seen is not None else set()
        work = [t]
        while work:
            x = work.pop()
            for s in subterms(x):
                if s in seen:
                    continue
                seen.add(s)
                yield s
                if s.op in ("list", "set", "dict"):
                    for g, l, k, v in self.res.state.contents.get(s, ()):
                        work.append(v)
                if s.op == "mu":
                    work.extend(self.ip.mu.get(s, []))

    def frames(self, t):
        """Operand tables a value is computed from."""
        out = set()
        for s in self.lists(t):
            for n, d in self.D.items():
                if s is d:
                    out.add(n)
        return out

    def table(self, t):
        """(operand, selection mask or None) of a table derived by copies,
        assignments of columns or row selection."""
        mask = None
        for _ in range(30):
            t = strip_copy(t)
            for n, d in self.D.items():
                if t is d:
                    return n, mask
            if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("assign", "reset_index", "astype"):
                t = t.a[0].a[0]
                continue
            if t.op == "item" and self.mask(t.a[1]) is not None and mask is None:
                mask = self.mask(t.a[1])
                t = t.a[0]
                if t.op == "attr" and t.a[1] == "loc":
                    t = t.a[0]
                continue
            return None, None
        return None, None

    def mask(self, t):
        """(rows of, absent from, call term) of a not-in mask."""
        if t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0] == NOTIN:
            a = t.a[1]
            if len(a) >= 2:
                return (self.frames(a[0]), self.frames(a[1]), t)
        if t.op == "un" and t.a[0] == "~":
            c = t.a[1]
            if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "isin" and c.a[1]:
                return (self.frames(c.a[0].a[0]), self.frames(c.a[1][0]), t)
        return None


def sorted_by_first(t):
    """X[X[:, 0].argsort()]"""
    if t.op != "item":
        return False
    x, k = t.a
    if k.op == "call" and k.a[0].op == "attr" and k.a[0].a[1] == "argsort":
        key = k.a[0].a[0]
    elif k.op == "call" and k.a[0].op == "ext" and k.a[0].a[0] == "numpy.argsort" and k.a[1]:
        key = k.a[1][0]
    else:
        return False
    return key.op == "item" and key.a[0] is x and key.a[1].op == "tuple" and len(key.a[1].a) == 2 and (
        key.a[1].a[0].op == "slice" and is_const(key.a[1].a[1], 0))


def unsorted(t):
    return t.a[0] if sorted_by_first(t) else t


def check_unify(ctx):
    u = U(ctx)
    ip, res, q = u.ip, u.res, u.q
    un = [e for e in ip.events if e.kind == "opaque" and e.name == UNION]
    ctx.count("union calls", len(un))
    G1, G2 = attr(u.selft, "graph"), attr(u.othert, "graph")
    skip = None
    for g, t in res.returns:
        for l in g:
            if l.op in ("cmp", "or") and {G1, G2} <= set(subterms(l)):
                skip = l
    ok = len(un) == 1 and {un[0].args[0], un[0].args[1]} == {G1, G2} and len(un[0].args) > 2
    if not ctx.oblige(ok, "graph", q + ":union", "unify does not build one union of both graphs", u.f.where):
        return
    ev = un[0]
    base = ev.guard
    ident = [l for l in base if not (l.op == "not" and l.a[0].op == "cmp" and l.a[0].a[0] == "is" and {l.a[0].a[1], l.a[0].a[2]} == {G1, G2})]
    ctx.oblige(not ident, "graph", q + ":skip", "the graphs are only unified if %r" % ident, ev.where)
    M = ev.args[2]

    def unconditional(e):
        return not [l for l in e.guard if l not in base]

    # both graphs replaced
    for n, o in (("self", u.selft), ("other", u.othert)):
        es = [e for e in ip.events if e.kind == "setattr" and e.name == "graph" and e.obj is o]
        ctx.count("graphs replaced", len(es))
        ok = es and all(s is ev.value for s in ip.sources(es[-1].value)) and unconditional(es[-1])
        ctx.oblige(ok, "graph", q + ":" + n, "the graph of %s is not replaced by the union on every path" % n, u.f.where)
    # node columns
    for n in ("self", "other"):
        es = [e for e in ip.events if e.kind == "setitem" and e.args and is_const(e.args[0], "node") and u.table(e.obj)[0] == n]
        good = []
        for e in es:
            for v in ip.sources(e.value):
                if mapped(u, ip, v, M, n):
                    good.append(e)
        ctx.count("node columns remapped", len(good))
        ctx.oblige(len(good) == 1 and len(es) == 1 and unconditional(good[0]) and good[0].idx > ev.idx, "remap", q + ":" + n,
                   "the node column of %s is not mapped through the union's node map exactly once, after the union" % n,
                   u.where(es[0] if es else None))
        # index names restored
        keys = [e for e in ip.events if e.kind == "call" and e.name == "set_index" and e.obj is not None and (
            u.table(e.obj)[0] == n or n == "self" and is_concat(e.obj))]
        names = mk("attr", mk("attr", u.D[n], "index"), "names")
        ok = len(keys) == 1 and keys[0].args and strip_list(keys[0].args[0]) is names and unconditional(keys[0]) and is_const(
            keys[0].kwargs.get("inplace", mk("const", False)), True) and is_const(keys[0].kwargs.get("drop", mk("const", True)), True)
        ok = ok or any(e.kind == "setattr" and e.name == "dataframe" and e.value.op == "call" and e.value.a[0].op == "attr"
                       and e.value.a[0].a[1] == "set_index" and e.value.a[1] and strip_list(e.value.a[1][0]) is names
                       and unconditional(e) for e in ip.events)
        ctx.count("index levels restored", 1 if ok else 0)
        ctx.oblige(ok, "index", q + ":" + n, "the table of %s does not get its own index levels back" % n,
                   u.where(keys[0] if keys else None))
    missing_rows(ctx, u, base)


def strip_list(t):
    while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.list", "copy.copy") and t.a[1]:
        t = t.a[1][0]
    return t


def is_concat(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "pandas.concat"


def mapped(u, ip, v, M, n):
    """v is the table's node column with every element x replaced by M[id(x)]."""
    col = None
    results = None
    if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] in ("apply", "map") and v.a[1]:
        col = v.a[0].a[0]
        fn = v.a[1][0]
        results = [e.value for e in ip.events if e.kind == "return" and e.stack and fn.op == "fn" and e.stack[-1] == fn.a[0]
                   and u.frames(e.value) <= {n} and u.frames(e.value)]
    else:
        x = v
        while x.op == "call" and x.a[0].op == "ext" and x.a[1]:
            x = x.a[1][0]
        if x.op == "list":
            results = [c[3] for c in u.res.state.contents.get(x, ())]
            if any(c[0] and [l for l in c[0] if l.op != "not"] for c in u.res.state.contents.get(x, ())):
                return False
            els = [s for r in results for s in subterms(r) if s.op == "elem"]
            col = els[0].a[0] if els else None
    if col is None or not results:
        return False
    if not (col.op == "item" and is_const(col.a[1], "node") and u.table(col.a[0])[0] == n and u.table(col.a[0])[1] is None):
        return False
    for r in results:
        if not (r.op == "item" and r.a[0] is M and r.a[1].op == "call" and r.a[1].a[0].op == "ext" and r.a[1].a[0].a[0] == "builtins.id"
                and r.a[1].a[1] and r.a[1].a[1][0].op == "elem" and r.a[1].a[1][0].a[0] is col):
            return False
    return True


def emptiness(u, l):
    """A literal that only tests whether a selection has rows: (operand, has
    rows) or None."""
    pos = l.op != "not"
    t = l if pos else l.a[0]
    if t.op == "truth":
        t = t.a[0]
    for s in u.ip.sources(t):
        n, m = u.table(s)
        if not (n and m):
            return None
    return n, pos


def missing_rows(ctx, u, base):
    ip, res = u.ip, u.res
    q = GF + "._insert_missing_rows"
    sel = {}
    # kernel calls pair the right arrays
    for e in ip.events:
        if e.kind == "opaque" and e.name == NOTIN:
            a = e.args
            ctx.count("membership calls")
            r, o = u.frames(a[0]), u.frames(a[1])
            ctx.oblige(len(r) == 1 and len(o) == 1 and r != o, "membership", q + ":operands",
                       "the membership test at %s compares %s with %s" % (e.where, sorted(r), sorted(o)), e.where)
            ctx.oblige(sorted_by_first(a[1]), "membership", q + ":sorted",
                       "the array searched at %s is not sorted by node hash" % e.where, e.where)
            for x in (a[0], a[1]):
                ctx.oblige(hash_index(u, unsorted(x)), "membership", q + ":columns",
                           "an array given to the membership test at %s does not pair node hashes with row numbers" % e.where, e.where)
            for i, x in ((2, a[0]), (3, a[1])):
                if len(a) > i:
                    ctx.oblige(length_of(a[i], x), "membership", q + ":lengths",
                               "length argument %d of the membership test at %s is %r" % (i, e.where, a[i]), e.where)
    # the concatenation
    cons = [e for e in ip.events if e.kind == "setattr" and e.name == "dataframe" and e.obj is u.selft and any(is_concat(s) for s in ip.sources(e.value))]
    if not ctx.oblige(len(cons) == 1, "rows", q + ":concat", "the missing rows are not concatenated to the left table", u.f.where):
        return
    e = cons[0]
    ctx.oblige(not [l for l in e.guard if l not in base and emptiness(u, l) is None], "rows", q + ":concat-guard",
               "the missing rows are added only if %r" % (e.guard,), e.where)
    parts = []
    for s in ip.sources(e.value):
        arg = s.a[1][0]
        ax = dict(s.a[2]).get("axis")
        ctx.oblige(ax is None or is_const(ax, 0, "index", "rows"), "rows", q + ":axis", "rows are concatenated along axis %r" % ax, e.where)
        jn = dict(s.a[2]).get("join")
        ctx.oblige(jn is None or is_const(jn, "outer"), "rows", q + ":join", "columns missing on one side are dropped (join=%r)" % jn, e.where)
        items = list(arg.a) if arg.op == "tuple" else [c[3] for c in res.state.contents.get(arg, ())]
        parts += items
    kinds = {}
    for p in parts:
        for s in ip.sources(p):
            kinds.setdefault(u.table(s)[0], []).append(u.table(s)[1])
    ok = set(kinds) == {"self", "other"} and all(m is None for m in kinds["self"]) and all(
        m is not None and m[0] == {"other"} and m[1] == {"self"} for m in kinds["other"])
    ctx.count("row sources", len(kinds))
    ctx.oblige(ok, "rows", q + ":parts",
               "the unified left table is not all left rows plus the right rows of nodes missing on the left", e.where)
    last = e.idx
    # marks
    marks = []
    for x in ip.events:
        if x.kind == "setitem" and x.args and is_const(x.args[0], "_missing_node"):
            marks.append((x, x.obj, x.value))
        elif x.kind == "setitem" and x.args and x.args[0].op == "tuple" and is_const(x.args[0].a[-1], "_missing_node"):
            marks.append((x, x.obj, x.value))
        elif x.kind == "call" and x.name == "assign" and "_missing_node" in x.kwargs and x.obj is not None:
            marks.append((x, x.obj, x.kwargs["_missing_node"]))
        elif x.kind == "call" and x.name == "insert" and x.obj is not None and any(is_const(a, "_missing_node") for a in x.args):
            marks.append((x, x.obj, x.args[-1]))
    two = one = zero = 0
    inits = []
    for x, obj, val in marks:
        src = {(n, m is not None) for s in ip.sources(obj) for n, m in [u.table(s)]}
        consts = {c.a[0] for v in ip.sources(val) for c in numbers(u, v)}
        ctx.count("missing-node marks")
        extra = [l for l in x.guard if l not in base and emptiness(u, l) is None]
        ctx.oblige(not extra, "marks", q + ":guard", "_missing_node is set only if %r" % extra, x.where)
        if src == {("other", True)}:
            ctx.oblige(consts == {2}, "marks", q + ":right-only", "nodes missing on the left are marked %s, not 2" % sorted(consts), x.where)
            need = [l for l in x.guard if l not in base]
            ctx.oblige(all(emptiness(u, l)[0] == "other" for l in need), "marks", q + ":right-only-guard",
                       "nodes missing on the left are marked only if %r" % need, x.where)
            two += 1
        elif {n for n, m in src} == {"self"}:
            if any(s.op == "attr" and s.a[1] in ("values",) for s in u.lists(val)) and any(is_mark(s) for s in u.lists(val)):
                # stored back after the kernel marked left-only rows
                continue
            ctx.oblige(consts <= {0}, "marks", q + ":init", "the marks of the left table start as %s, not 0" % sorted(consts), x.where)
            inits.append(b_and(*[l for l in x.guard if l not in base]))
        else:
            ctx.oblige(False, "marks", q + ":table", "_missing_node is set on %r" % (obj,), x.where)
    has = [l for x, o, v in marks for l in x.guard if emptiness(u, l) and emptiness(u, l)[0] == "other"]
    empty = [neg(l) if emptiness(u, l)[1] else l for l in has[:1]]
    ctx.oblige(bool(inits) and b_or(*(inits + empty)) is TRUE, "marks", q + ":init-always",
               "left rows get no mark on some path where right rows are added: %r" % (b_or(*(inits + empty)) if inits else None,), e.where)
    ctx.oblige(two >= 1, "marks", q + ":right-only-set", "nodes missing on the left are not marked", e.where)
    ones = [x for x in ip.events if x.kind == "opaque" and x.name == ONES]
    for x in ones:
        ctx.count("marking kernel calls")
        n_, arr, idxs = x.args[:3]
        ns = {u.table(s) [0] for y in subterms(idxs) if y.op == "item" for s in [y] if u.table(s)[1]}
        ms = [u.table(y)[1] for y in subterms(idxs) if y.op == "item" and u.table(y)[1]]
        ok = bool(ms) and all(m[0] == {"self"} and m[1] == {"other"} for m in ms[:1]) and any(s.op == "attr" and s.a[1] == "index" for s in subterms(idxs))
        ctx.oblige(ok, "marks", q + ":left-only", "the rows marked 1 at %s are not the left-only rows" % x.where, x.where)
        ctx.oblige(any(is_mark(s) for s in subterms(arr)), "marks", q + ":left-only-array", "the array marked at %s is not _missing_node" % x.where, x.where)
        need = [l for l in x.guard if l not in base]
        ctx.oblige(all(emptiness(u, l) and emptiness(u, l)[0] == "self" for l in need), "marks", q + ":left-only-guard",
                   "left-only rows are marked only if %r" % need, x.where)
        ctx.oblige(length_any(u, n_, idxs), "marks", q + ":left-only-count", "%r rows are marked at %s, not all left-only rows" % (n_, x.where), x.where)
        one += 1
    for x, obj, val in marks:
        if is_const(val, 1):
            one += 1
    ctx.oblige(one >= 1, "marks", q + ":left-only-set", "nodes missing on the right are not marked", e.where)
    back = [x for x, obj, val in marks if any(is_mark(s) for s in u.lists(val))]
    direct = [x for x, obj, val in marks if is_const(val, 1)]
    ctx.oblige(bool(back) or bool(direct) or not ones, "marks", q + ":stored", "the marks computed by the kernel are not stored in the table", e.where)
    # NaN metrics
    nan = [x for x in ip.events if x.kind == "setitem" and x.args and any(u.table(s)[0] == "other" and u.table(s)[1] for s in ip.sources(x.obj))
           and not is_const(x.args[0], "_missing_node") and x.idx < last]
    want = {canon(attr(o, k)) for o in (u.selft, u.othert) for k in ("exc_metrics", "inc_metrics")}
    covered = False
    fills = [(x, x.args[0], x.value) for x in nan]
    for x in ip.events:
        if x.kind == "call" and x.name == "assign" and x.obj is not None and "**" in x.kwargs and any(
                u.table(s)[0] == "other" and u.table(s)[1] for s in ip.sources(x.obj)):
            for d in ip.sources(x.kwargs["**"]):
                for c in res.state.contents.get(d, ()):
                    if c[2] is not None:
                        fills.append((x, c[2], c[3]))
    for x, key, value in fills:
        ctx.count("metric fills")
        v = list(subterms(value))
        isnan = any(s.op == "ext" and s.a[0] in ("numpy.nan", "numpy.NaN", "math.nan", "pandas.NA") for s in v) or any(
            s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] == "builtins.float" and is_const(s.a[1][0], "nan") for s in v)
        nums = {c.a[0] for c in numbers(u, value)}
        ctx.oblige(isnan and not nums, "metrics", q + ":nan", "metrics of nodes missing on the left are set to %r, not NaN" % (value,), x.where)
        k = key
        b, sg, cond = set(), set(), []
        for coll in ip.sources(k):
            b2, sg2, c2 = Members(ip, res.state, base).of(coll.a[0] if coll.op in ("elem", "key") else coll)
            b |= b2
            sg |= sg2
            cond += c2
        extra = [l for l in x.guard if l not in base and emptiness(u, l) is None]
        if {canon(y) for y in b} == want and not sg and not cond and not extra:
            covered = True
    ctx.oblige(covered, "metrics", q + ":all",
               "not every metric of both graph frames is set to NaN for nodes missing on the left", e.where)


def is_mark(s):
    return s.op == "const" and s.a[0] == "_missing_node"


def numbers(u, v):
    out = set()
    if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("numpy.zeros", "numpy.zeros_like"):
        return {mk("const", 0)}
    if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("numpy.ones", "numpy.ones_like"):
        return {mk("const", 1)}
    if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("numpy.full", "numpy.full_like", "numpy.repeat") and len(v.a[1]) > 1:
        return numbers(u, v.a[1][1] if "full" in v.a[0].a[0] else v.a[1][0])
    if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("builtins.int", "numpy.short", "numpy.array", "pandas.Series", "numpy.int16", "builtins.list") and v.a[1]:
        return numbers(u, v.a[1][0])
    if v.op == "list":
        for g, l, k, x in u.res.state.contents.get(v, ()):
            out |= numbers(u, x)
        return out
    if v.op == "bin" and v.a[0] == "*":
        for x in v.a[1:]:
            if x.op in ("list", "tuple"):
                out |= numbers(u, x)
        return out
    if v.op == "tuple":
        for x in v.a:
            out |= numbers(u, x)
        return out
    if v.op == "const" and isinstance(v.a[0], (int, float)) and not isinstance(v.a[0], bool):
        return {v}
    return out


def hash_index(u, x):
    """vstack((hashes, row numbers)).T in any spelling: hash column first."""
    parts = None
    for s in subterms(x):
        if s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] in ("numpy.vstack", "numpy.column_stack", "numpy.stack") and s.a[1]:
            a = s.a[1][0]
            parts = list(a.a) if a.op == "tuple" else [c[3] for c in u.res.state.contents.get(a, ())]
            break
    if not parts or len(parts) != 2:
        return False

    def hashes(p):
        return any(s.op == "call" and (s.a[0].op == "attr" and s.a[0].a[1] == "__hash__" or s.a[0].op == "ext" and s.a[0].a[0] == "builtins.hash"
                   or s.a[0].op == "fn" and s.a[0].a[0].endswith("__hash__")) for s in u.lists(p)) or any(
                       s.op == "attr" and s.a[1] == "_hatchet_nid" for s in u.lists(p))

    def rows(p):
        return any(s.op == "attr" and s.a[1] == "index" for s in subterms(p)) or any(
            s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] in ("numpy.arange", "builtins.range") for s in u.lists(p))

    nocond = True
    for s in u.lists(parts[0]):
        if s.op == "list":
            nocond = nocond and all(not [l for l in c[0] if any(y.op == "elem" for y in subterms(l))] for c in u.res.state.contents.get(s, ()))
    return hashes(parts[0]) and rows(parts[1]) and not hashes(parts[1]) and nocond


def length_of(n, arr):
    cand = {arr, unsorted(arr)}
    if n.op == "item" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and is_const(n.a[1], 0):
        return n.a[0].a[0] in cand
    if n.op == "call" and n.a[0].op == "ext" and n.a[0].a[0] == "builtins.len":
        return n.a[1][0] in cand
    return False


def length_any(u, n, idxs):
    base = [s for s in subterms(idxs) if s.op == "item" and u.table(s)[1]]
    if n.op == "call" and n.a[0].op == "ext" and n.a[0].a[0] == "builtins.len":
        return n.a[1][0] in base or n.a[1][0] is idxs or any(s in base for s in subterms(n.a[1][0]))
    if n.op == "item" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and is_const(n.a[1], 0):
        return n.a[0].a[0] in base or n.a[0].a[0] is idxs
    return False


def check_kernels(ctx):
    q = NOTIN
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(K + "binary_search",))
    p = {n: mk("param", q, n) for n in f.all_params()}
    names = f.all_params()
    a1, a2, n1, n2 = [p[n] for n in names[:4]]
    stores = [e for e in ip.events if e.kind == "setitem"]
    searches = [e for e in ip.events if e.kind == "opaque"]
    ctx.count("kernel stores", len(stores))
    ctx.oblige(bool(stores) and len(searches) >= 1, "kernel", q, "the membership kernel stores no mask", f.where)
    for s in searches:
        ok = s.args[0] is a2 and s.args[1] is n2 and first_col(s.args[2], a1, ip)
        ctx.oblige(ok, "kernel", q + ":search", "row hashes of the first array are not searched in the whole second array at %s" % s.where, s.where)
    for e in stores:
        lp = e.loops[-1] if e.loops else None
        k = e.args[0]
        row = k.a[0] if k.op == "item" and is_const(k.a[1], 1) else None
        okk = row is not None and row.op == "item" and row.a[0] is a1
        ctx.oblige(okk, "kernel", q + ":row", "the mask entry written at %s is not the row number of the searched hash" % e.where, e.where)
        i = row.a[1] if okk else None
        for vg, v in ip.leaves(e.value, limit=16):
            mask_of = [s.value for s in searches]
            direct = v.op == "cmp" and (
                v.a[0] == "==" and any(is_const(x, -1) for x in v.a[1:]) and any(y in mask_of for x in v.a[1:] for y in ip.sources(x))
                or v.a[0] == "<" and is_const(v.a[2], 0) and v.a[1] in mask_of)
            if direct:
                continue
            if is_const(v, True, False):
                want = cval(v)
                g = [l for l in tuple(e.guard) + tuple(vg) if any(x in [s.value for s in searches] for x in subterms(l))]
                found = None
                for l in g:
                    c = l.a[0] if l.op == "not" else l
                    if c.op == "cmp" and c.a[0] == "==" and (is_const(c.a[1], -1) or is_const(c.a[2], -1)):
                        found = l.op == "not"
                    elif c.op == "cmp" and c.a[0] in ("<", ">=", "<=", ">"):
                        lo = c.a[0] == "<" and is_const(c.a[2], 0) or c.a[0] == "<=" and is_const(c.a[2], -1) or (
                            c.a[0] == ">" and is_const(c.a[1], 0) or c.a[0] == ">=" and is_const(c.a[1], -1))
                        hi = c.a[0] == ">=" and is_const(c.a[2], 0) or c.a[0] == ">" and is_const(c.a[2], -1) or (
                            c.a[0] == "<=" and is_const(c.a[1], 0) or c.a[0] == "<" and is_const(c.a[1], -1))
                        if lo:
                            found = l.op == "not"
                        elif hi:
                            found = l.op != "not"
                ctx.oblige(found is not None and found == (not want), "kernel", q + ":mask",
                           "the mask is %s at %s for hashes that are %sin the second array" % (want, e.where, "" if found else "not "), e.where)
            elif v.op == "item" or any(x.op == "item" for x in subterms(v)):
                # copied from another row: only for an equal hash
                g = [l for l in e.guard if l.op == "cmp" and l.a[0] == "=="]
                g += [l for l in e.guard if l.op == "and"]
                ctx.oblige(bool(g), "kernel", q + ":copy", "a mask entry is copied at %s from a row that may have another hash" % e.where, e.where)
            else:
                ctx.oblige(False, "kernel", q + ":mask", "the mask written at %s is %r" % (e.where, v), e.where)
    # the loop covers all rows
    rng = [e for e in ip.events if e.kind == "call" and e.fn is not None and e.fn.op == "ext" and e.fn.a[0] == "builtins.range"]
    ok = any(full_range(e.args, n1, a1) for e in rng) or not rng
    ctx.oblige(ok, "kernel", q + ":loop", "the membership loop does not cover all rows of the first array", f.where)
    esc = [e for e in ip.events if e.kind in ("break",) or e.kind == "return" and e.loops]
    ctx.oblige(not esc, "kernel", q + ":loop-exit", "the membership loop can end early", f.where)
    # complete binary search
    q = K + "binary_search"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    names = f.all_params()
    arr, n, key = [mk("param", q, x) for x in names[:3]]
    rets = [e for e in ip.events if e.kind == "return"]
    ctx.count("search exits", len(rets))
    def cases(v, g=()):
        if v.op == "ite":
            return cases(v.a[1], g + tuple(literals(v.a[0]))) + cases(v.a[2], g + tuple(literals(neg(v.a[0]))))
        if v.op == "phi":
            return [c for x in v.a[1:] for c in cases(x, g)]
        return [(g, v)]

    steps = {m: [c for v in vs for c in cases(v)] for m, vs in ip.mu.items()}
    lo = [m for m, cs in steps.items() if any(is_const(v, 0) for g, v in cs) and any(plus(v, 1) for g, v in cs)]
    hi = [m for m, cs in steps.items() if any(plus(v, -1) and minus_base(v) is n for g, v in cs)]
    if not ctx.oblige(len(lo) == 1 and len(hi) == 1, "kernel", q + ":bounds", "the search interval does not start as [0, length - 1]", f.where):
        return
    lo, hi = lo[0], hi[0]
    mids = set()
    rels = {lo: set(), hi: set()}
    found = set()
    for b_, k in ((lo, 1), (hi, -1)):
        for g, v in steps[b_]:
            if v is b_ or is_const(v, 0) and b_ is lo or b_ is hi and plus(v, -1) and minus_base(v) is n:
                continue
            ctx.count("search steps")
            if not ctx.oblige(plus(v, k), "kernel", q + ":step", "the %s bound becomes %r" % ("lower" if k > 0 else "upper", v), f.where):
                continue
            mids.add(minus_base(v))
            r = {"<", "=", ">"}
            for l in g:
                if arr in subterms(l) and key in subterms(l):
                    r &= relation(l, arr, key)
            rels[b_] |= r
    ctx.oblige(len(mids) == 1 and all(middle(m, lo, hi) for m in mids), "kernel", q + ":mid",
               "the search does not probe the middle of the interval: %s" % sorted(map(repr, mids)), f.where)
    ok = False
    for e in rets:
        if e.value in mids:
            ok = True
            r = {"<", "=", ">"}
            for l in e.guard:
                if arr in subterms(l) and key in subterms(l):
                    r &= relation(l, arr, key)
            found |= r
            ctx.oblige(r == {"="}, "kernel", q + ":found", "a position is returned when the probed value is %s the key" % "/".join(sorted(r)), e.where)
        elif not is_const(e.value, -1):
            ctx.oblige(False, "kernel", q + ":result", "the search returns %r" % (e.value,), e.where)
    ctx.oblige(ok, "kernel", q + ":found-any", "the search never reports a found key", f.where)
    ctx.oblige(rels[lo] - found == {"<"}, "kernel", q + ":low",
               "the lower bound moves right when the probed value is %s the key" % "/".join(sorted(rels[lo] - found)), f.where)
    ctx.oblige(rels[hi] - found == {">"}, "kernel", q + ":high",
               "the upper bound moves left when the probed value is %s the key" % "/".join(sorted(rels[hi] - found)), f.where)
    for e in ip.events:
        for l in tuple(e.guard) + ((e.value,) if e.kind == "whilecond" else ()):
            c = l.a[0] if l.op == "not" else l
            if c.op == "cmp" and {c.a[1], c.a[2]} == {lo, hi}:
                good = c.a[0] == "<=" and c.a[1] is lo or c.a[0] == "<" and c.a[1] is hi or c.a[0] == ">=" and c.a[1] is hi or c.a[0] == ">" and c.a[1] is lo
                ctx.oblige(good, "kernel", q + ":until", "the search stops at %r, before the interval is empty" % (l,), e.where)
    # marking kernel
    q = ONES
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    names = f.all_params()
    cnt, vals, idx = [mk("param", q, x) for x in names[:3]]
    st = [e for e in ip.events if e.kind == "setitem"]
    ok = len(st) == 1 and st[0].obj is vals and is_const(st[0].value, 1) and st[0].args[0].op == "item" and st[0].args[0].a[0] is idx and not [
        l for l in st[0].guard if not any(x is cnt for x in subterms(l))]
    rng = [e for e in ip.events if e.kind == "call" and e.fn is not None and e.fn.op == "ext" and e.fn.a[0] == "builtins.range"]
    ok = ok and (not rng or any(full_range(e.args, cnt, idx) for e in rng))
    ctx.count("kernel stores", len(st))
    ctx.oblige(ok, "kernel", q, "the marking kernel does not store 1 for every given row", f.where)


def relation(l, arr, key):
    """Possible relations of the probed value to the key under literal l."""
    c, pos = (l.a[0], False) if l.op == "not" else (l, True)
    allr = {"<", "=", ">"}
    if c.op != "cmp":
        return allr
    a, b = c.a[1], c.a[2]
    op = c.a[0]
    sw = key in subterms(a) and arr not in subterms(a)
    r = {"<": {"<"}, "<=": {"<", "="}, ">": {">"}, ">=": {">", "="}, "==": {"="}, "!=": {"<", ">"}}.get(op, allr)
    if sw:
        r = {{"<": ">", ">": "<", "=": "="}[x] for x in r}
    return r if pos else allr - r


def plus(v, k):
    return v.op == "bin" and (
        v.a[0] == "+" and (is_const(v.a[2], k) or is_const(v.a[1], k)) or v.a[0] == "-" and is_const(v.a[2], -k))


def minus_base(v):
    return v.a[1] if v.a[2].op == "const" else v.a[2]


def middle(m, lo, hi):
    s = list(subterms(m))
    return lo in s and hi in s and any(x.op == "bin" and x.a[0] in ("/", "//", ">>") and is_const(x.a[2], 2, 1) for x in s) and not any(
        x.op == "const" and x.a[0] not in (1, 2) for x in s) and not (m.op == "bin" and m.a[0] in "+-" and m.a[2].op == "const")


def first_col(t, a1, ip):
    return t.op == "item" and is_const(t.a[1], 0) and t.a[0].op == "item" and t.a[0].a[0] is a1


def full_range(args, n, arr):
    if len(args) == 1:
        stop = args[0]
    elif len(args) == 2 and is_const(args[0], 0):
        stop = args[1]
    else:
        return False
    return stop is n or length_of(stop, arr)


def check(ctx):
    check_unify(ctx)
    check_kernels(ctx)
    ctx.need("union calls", 1)
    ctx.need("search exits", 2)

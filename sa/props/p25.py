"""P25: derived graph frames keep metric lists, default metric and metadata."""

from ..lib import strip_copy, implies
from ..terms import is_const, mk, attr, TRUE, FALSE, canon, neg, literals
from .p24 import given

TITLE = "Derived graph frames keep metric lists, default metric and metadata"
RULE = (
    "Value-flow of the constructor and of every operation that returns or changes a graph frame (copy, deepcopy, "
    "filter, squash, groupby_aggregate, drop_index_levels, unify, the sums and all arithmetic): the final value of "
    "each of the four fields of the graph frame that comes out is followed back, through copies, constructor "
    "parameters and containers filled on the way, on every path; it must be the same field of the source, whole and "
    "unfiltered. The constructor must store every argument in its own field, or an empty container for None. "
    "Inclusive lists may gain, never lose, entries where inclusive columns are updated, exclusive ones where "
    "exclusive columns are generated."
)

GF = "hatchet.graphframe.GraphFrame"
FIELDS = ("exc_metrics", "inc_metrics", "default_metric", "metadata")
NEW = ("copy", "deepcopy", "filter", "squash", "groupby_aggregate", "add", "sub", "mul", "div",
       "__add__", "__sub__", "__mul__", "__truediv__")
INPLACE = ("__iadd__", "__isub__", "__imul__", "__itruediv__", "drop_index_levels", "subtree_sum", "subgraph_sum", "unify")
GROW = {"update_inclusive_columns": "inc_metrics", "generate_exclusive_columns": "exc_metrics"}
EMPTY = {"exc_metrics": "list", "inc_metrics": "list", "metadata": "dict"}
KEEP = {
    "builtins.list", "builtins.dict", "builtins.tuple", "copy.copy", "copy.deepcopy", "collections.OrderedDict",
    "builtins.iter",
}


class Same:
    """Is a value the given field of a source, whole, unfiltered and in order?"""

    def __init__(self, ip, st, sources, field, kind, grow=False, known=()):
        self.ip, self.st = ip, st
        self.want = {canon(attr(s, field)) for s in sources} | {attr(s, field) for s in sources}
        self.kind = kind
        self.grow = grow
        self.known = frozenset(known)
        self.open = []
        self.held = set()

    def base(self, t):
        return strip_copy(t) in self.want or canon(strip_copy(t)) in self.want

    def decide(self, a):
        """The source's own lists and dictionary are never None."""
        if a in self.known:
            return True
        if neg(a) in self.known:
            return False
        if a.op == "cmp" and a.a[0] in ("is", "==") and any(is_const(x, None) for x in a.a[1:]):
            x = a.a[2] if is_const(a.a[1], None) else a.a[1]
            if self.kind and (self.base(x) or x.op in ("list", "dict") or x.op != "param" and self(x, 6)[0]):
                return False
        return None

    def __call__(self, t, depth=0):
        """(ok, why)"""
        if depth > 12:
            return False, t
        self.held.add(t)
        self.held.add(strip_copy(t) if self.base(t) else t)
        if self.base(t):
            return self.untouched(strip_copy(t), depth)
        if t.op in ("ite", "phi", "mu"):
            for g, l in self.ip.leaves(t):
                g = [y for x in g for y in literals(given(x, self.decide))]
                if any(x is FALSE for x in g) or l is t:
                    continue
                # `x or []`: the empty default stands for an empty source
                if self.kind and self.blank(l) and any(self.falsy(x) for x in g):
                    continue
                old, self.known = self.known, self.known | set(g)
                ok, why = self(l, depth + 1)
                self.known = old
                if not ok:
                    return False, why
            return True, None
        if not self.kind:
            return False, t
        if t.op == self.kind and t in self.st.contents:
            return self.filled(t, depth)
        if t.op == "item" and t.a[1].op == "slice" and all(is_const(x, None) for x in t.a[1].a):
            return self(t.a[0], depth + 1)
        if t.op == "bin" and t.a[0] in ("+", "|"):
            return self.any_of([t.a[1], t.a[2]], t, depth)
        if t.op == "item" and t.a[0].op == "list" and t.a[1].op == "const" and isinstance(t.a[1].a[0], int):
            # `a, b = [copy(x) for x in (x1, x2)]`
            made = self.st.contents.get(t.a[0], ())
            e = strip_copy(made[0][3]) if len(made) == 1 and not made[0][0] else None
            if e is not None and e.op == "elem" and e.a[0].op == "tuple" and t.a[1].a[0] < len(e.a[0].a):
                return self(e.a[0].a[t.a[1].a[0]], depth + 1)
        if t.op == "call":
            f = t.a[0]
            if f.op == "ext" and f.a[0] in KEEP and len(t.a[1]) == 1 and not t.a[2]:
                return self(t.a[1][0], depth + 1)
            if f.op == "ext" and f.a[0].endswith("dict.fromkeys") and self.kind == "list":
                # a list of names without repetitions
                return self(t.a[1][0], depth + 1)
            if f.op == "attr" and f.a[1] == "keys" and self.kind == "list":
                return self(f.a[0], depth + 1)
        return False, t

    def untouched(self, t, depth):
        """Nothing was put into the source's own container."""
        if not self.grow and t.op == "attr":
            for g, l, k, v in self.st.contents.get(t, ()):
                return False, v
        return True, None

    def blank(self, l):
        return l.op in ("list", "dict") and all(v == mk("star", l) for g, lo, k, v in self.st.contents.get(l, ()))

    def falsy(self, g):
        return g.op == "not" and g.a[0].op == "truth" and self(g.a[0].a[0], 6)[0]

    def dedup(self, g, v):
        """`if name not in names: names.append(name)`"""
        x = g.a[0] if g.op == "not" else None
        return self.kind == "list" and x is not None and x.op == "cmp" and x.a[0] == "in" and x.a[1] is v and (
            x.a[2] in self.held or x.a[2] in self.open
        )

    def any_of(self, parts, t, depth):
        oks = [self(x, depth + 1)[0] for x in parts]
        if not any(oks):
            return False, t
        rest = [x for x, ok in zip(parts, oks) if not ok]
        if not self.grow and any(not self.blank(x) for x in rest):
            return False, rest[0]
        return True, None

    def filled(self, t, depth):
        if t in self.open:
            return False, t
        self.open.append(t)
        found, bad = False, None
        for g, loops, k, v in self.st.contents[t]:
            g = [y for x in g for y in literals(given(x, self.decide))]
            if any(x is FALSE for x in g):
                continue
            if v.op == "star" and (v.a[0] is t or self.blank(v.a[0])):
                continue
            if v.op == "star":
                ok = self(v.a[0], depth + 1)[0]
            elif t.op == "list":
                ok = v.op in ("elem", "key") and self(v.a[0], depth + 1)[0]
            else:
                ok = self.pair(k, v)
            # `if x: out.extend(x)`
            whole = all(
                x is TRUE or x.op == "truth" and self.base(x.a[0]) or self.dedup(x, v) or implies(self.known, x)
                for x in g
            )
            if ok and whole:
                found = True
            elif not self.grow:
                bad = v
        self.open.pop()
        if bad is not None:
            return False, bad
        return (True, None) if found else (False, t)

    def pair(self, k, v):
        """out[k] = source[k] for every key of the source."""
        if k is None:
            return False
        if k.op in ("key", "elem") and self.base(k.a[0]):
            return v.op == "item" and self.base(v.a[0]) and v.a[1] is k or v.op == "val" and self.base(v.a[0])
        if k.op == "item" and v.op == "item" and k.a[0] is v.a[0] and is_const(k.a[1], 0) and is_const(v.a[1], 1):
            e = k.a[0]
            c = e.a[0] if e.op == "elem" else None
            return c is not None and c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "items" and self.base(c.a[0].a[0])
        return False


def constructor(ctx):
    q = GF + ".__init__"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    me = mk("param", q, "self")
    P = {n: mk("param", q, n) for n in FIELDS + ("graph", "dataframe")}
    for n, p in P.items():
        t = res.state.heap.get((me, n))
        ok = t is not None
        why = t
        for g, l in ip.leaves(t) if ok else ():
            none = {"v": None}

            def decide(a, none=none, p=p):
                if a.op == "cmp" and a.a[0] in ("is", "==") and p in a.a[1:] and any(is_const(x, None) for x in a.a[1:]):
                    return none["v"]
                if a.op == "truth" and a.a[0] is p:
                    return False if none["v"] else None
                return None

            for isnone in (False, True) if n in EMPTY else (False,):
                none["v"] = isnone
                gs = [given(x, decide) for x in g]
                if any(x is FALSE for x in gs):
                    continue
                blank = n in EMPTY and l.op == EMPTY[n] and not res.state.contents.get(l)
                # an empty or absent argument may be replaced by an empty container
                falsy = any(x.op == "not" and x.a[0].op == "truth" and x.a[0].a[0] is p for x in gs)
                if isnone:
                    good = blank
                else:
                    good = l is p or blank and falsy
                if not good:
                    ok, why = False, l
        ctx.oblige(
            ok, "stored", "%s:%s" % (q, n),
            "the constructor must keep its argument %s in the field of that name%s; it stores %s there"
            % (n, " (an empty %s for None)" % EMPTY[n] if n in EMPTY else "", repr(why)[:120]), f.where,
        )
        ctx.count("constructor_fields", 1)


def field(res, obj, n):
    return res.state.heap.get((obj, n), attr(obj, n))


SHRINK = ("remove", "pop", "popitem", "clear", "__delitem__", "sort", "reverse", "insert", "update", "setdefault")


def check(ctx):
    constructor(ctx)
    for name in NEW + INPLACE + tuple(GROW):
        q = GF + "." + name
        f = ctx.repo.func(q)
        ip, res = ctx.analyze(q)
        me = mk("param", q, "self")
        outs = []
        if name in NEW or name.startswith("__i"):
            for g, v in res.returns:
                for g2, l in ip.leaves(v):
                    outs.append((l, tuple(g) + tuple(g2)))
            ctx.count("results_" + name, len(outs))
            ctx.need("results_" + name, 1)
        if name not in NEW:
            outs.append((me, ()))
            if name == "unify":
                outs.append((mk("param", q, "other"), ()))
        for o, guard in outs:
            src = (o,) if o.op == "param" and o is not me and name == "unify" else (me,)
            known = [y for x in guard for y in literals(x)]
            for n in FIELDS:
                kind = EMPTY.get(n)
                grow = GROW.get(name) == n or n == "inc_metrics" and name in ("squash", "filter")
                t = field(res, o, n)
                same = Same(ip, res.state, src, n, kind, grow, known)
                ok, why = same(t)
                if ok:
                    for e in ip.events:
                        if e.kind == "call" and e.name in SHRINK and e.obj is not None and kind and (e.obj in same.held):
                            ok, why = False, e.value if e.value is not None else e.obj
                ctx.oblige(
                    ok, "kept", "%s:%s" % (q, n),
                    "the graph frame that comes out of %s must have the %s of the one it was made from; it can have %s"
                    % (name, n, repr(why)[:140]), f.where,
                )
        ctx.count("operations", 1)
    ctx.need("operations", len(NEW) + len(INPLACE) + len(GROW))

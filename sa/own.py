"""Ownership / aliasing of value terms: which caller-visible object, if any, a
term may denote or share storage with."""

from .terms import T, is_const, pretty, restrict
from . import models

# (kind, root, mode)
#  kind: 'input' | 'default' | 'global' | 'fresh' | 'unknown'
#  mode: 'id' the very object | 'shallow' separate header over shared data |
#        'view' series/array possibly sharing the data of a table

FRESH = ("fresh", "", "id")

VIEW_ATTRS = {"values", "T", "loc", "iloc", "at", "iat", "index", "columns", "names", "flat", "data"}
IMMUTABLE_TYPES = {"str", "int", "float", "bool"}
ELEM_METHODS = {"get", "pop", "popleft", "setdefault", "__getitem__", "popitem"}
CONTAINER_ITER = {
    "builtins.iter", "builtins.enumerate", "builtins.zip", "builtins.reversed",
    "builtins.filter", "builtins.map",
}
ELEM_PRESERVING = {
    "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset",
    "builtins.iter", "builtins.reversed", "builtins.enumerate", "builtins.filter", "builtins.next",
    "builtins.min", "builtins.max", "collections.deque", "itertools.chain",
}
ALIAS_FUNCS = {"numpy.asarray", "numpy.asanyarray", "numpy.ravel", "numpy.atleast_1d", "numpy.reshape", "typing.cast"}


class Owner:
    def __init__(self, ip, state):
        self.ip = ip
        self.contents = state.contents if state is not None else {}
        self.heap = state.heap if state is not None else {}
        self.memo = {}
        self.active = set()

    def owners(self, t):
        """Objects the term may be."""
        if t in self.memo:
            return self.memo[t]
        if t in self.active:
            return set()
        self.active.add(t)
        r = self._owners(t)
        self.active.discard(t)
        self.memo[t] = r
        return r

    def _ext(self, base, suffix, mode=None):
        out = set()
        for k, r, m in base:
            if k == "fresh":
                out.add(("fresh", "", "id"))
            else:
                out.add((k, r + suffix, mode or m))
        return out

    def _owners(self, t):
        op = t.op
        ip = self.ip
        if op in ("ite",):
            return self.owners(t.a[1]) | self.owners(t.a[2])
        if op == "phi":
            out = set()
            for x in t.a[1:]:
                out |= self.owners(x)
            return out
        if op == "mu":
            out = set()
            for x in ip.mu.get(t, []):
                out |= self.owners(x)
            return out
        if op == "param":
            return {("input", t.a[1], "id")}
        if op == "default":
            return {("default", t.a[0] + "." + t.a[1], "id")}
        if op in ("list", "dict", "set"):
            s = t.a[0]
            if s and s[0] == "default":
                return {("default", s[1], "id")}
            if s and s[0] in ("glob", "classvar"):
                return {("global", s[1], "id")}
            return {FRESH}
        if op == "glob":
            return {("global", t.a[0] + "." + t.a[1], "id")}
        if op in ("new", "tuple", "const", "str", "bin", "cmp", "not", "and", "or", "truth", "fn", "cls", "gen", "idx", "un", "slice", "excval", "mod", "ext", "fmt"):
            return {FRESH}
        if op == "attr":
            b, n = t.a
            if t in () or (b, n) in self.heap:
                v = self.heap[(b, n)]
                if v is not t:
                    return self.owners(v)
            bt = ip.typeof(b)
            base = self.owners(b)
            if bt and bt[0] in ("df", "series", "arr", "dfloc", "dfindex", "dfpart"):
                mode = "view" if n in ("values", "T", "index", "columns") else None
                if n in VIEW_ATTRS:
                    return self._ext(base, "", mode)
            return self._ext(base, "." + n)
        if op == "item":
            b, k = t.a
            bt = ip.typeof(b)
            if b.op == "elem" and is_const(k, 0, 1):
                srcs = ip.sources(b.a[0])
                if srcs and all(s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "items" for s in srcs):
                    out = set()
                    for s in srcs:
                        d = s.a[0].a[0]
                        dt = ip.typeof(d)
                        if dt and dt[0] != "D":
                            out |= self._elem(b.a[0])
                        else:
                            out |= self._elem(d, "key" if is_const(k, 0) else "val")
                    return out
            if bt and bt[0] == "df":
                it = models.item_type(ip, bt, k, t)
                if it == models.DF:
                    return {FRESH}
                return self._ext(self.owners(b), "", "view")
            if bt and bt[0] in ("dfloc", "dfpart"):
                # selection may be a view
                return self._ext(self.owners(b), "", "view")
            if bt and bt[0] == "series":
                return self._ext(self.owners(b), "", "view") if len(bt) < 2 or bt[1] is None else self._elem(b)
            v = self.heap.get((b, ("item", k)))
            if v is not None and v is not t:
                return self.owners(v) | (set() if k.op == "const" else self._elem(b))
            return self._elem(b)
        if op in ("elem", "key", "val", "cbarg", "star"):
            return self._elem(t.a[0], part=op)
        if op == "call":
            return self._call(t)
        return {("unknown", op, "id")}

    def _elem(self, c, part=None):
        """Objects that may be elements of container term c."""
        key = ("elem", c, part)
        if key in self.memo:
            return self.memo[key]
        if key in self.active:
            return set()
        self.active.add(key)
        out = set()
        for s in self.ip.sources(c):
            if s.op in ("list", "set", "dict") and s in self.contents:
                for g, l, k, v in self.contents[s]:
                    if v.op == "star":
                        out |= self._elem(v.a[0])
                    else:
                        if part == "key" or (s.op == "dict" and part == "elem"):
                            if k is not None:
                                out |= self.owners(k)
                        else:
                            out |= self.owners(v)
                if s.a[0] and s.a[0][0] in ("default", "glob", "classvar"):
                    out |= self._ext(self.owners(s), "[]")
                for (o, f), v in self.heap.items():
                    if o is s and isinstance(f, tuple):
                        out |= self.owners(v)
                continue
            if s.op == "tuple":
                for x in s.a:
                    out |= self.owners(x)
                continue
            if s.op == "call":
                f = s.a[0]
                if f.op == "ext" and f.a[0] in ELEM_PRESERVING | CONTAINER_ITER:
                    for x in s.a[1]:
                        out |= self._elem(x)
                    continue
                if f.op == "attr" and f.a[1] in ("items", "keys", "values", "copy", "union", "difference", "intersection", "unique", "tolist", "get", "pop"):
                    bt = self.ip.typeof(f.a[0])
                    if f.a[1] in ("get", "pop"):
                        # element of an element
                        out |= self._ext(self.owners(s), "[]")
                        continue
                    out |= self._elem(f.a[0], part)
                    for x in s.a[1]:
                        if f.a[1] in ("union",):
                            out |= self._elem(x)
                    continue
                if f.op == "fn" and f.a[0].endswith(("traverse",)):
                    for x in s.a[1][:1]:
                        out |= self._ext(self.owners(x), "[]")
                    continue
                if f.op == "fn" and s in sum(self.ip.rec_terms.values(), []):
                    for r in self.ip.rec_returns.get(f.a[0], []):
                        out |= self._elem(r)
                    continue
            o = self.owners(s)
            for k, r, m in o:
                if k == "fresh":
                    out.add(FRESH)
                else:
                    out.add((k, r + "[]", m))
        self.active.discard(key)
        self.memo[key] = out
        return out

    def _call(self, t):
        f, args = t.a[0], t.a[1]
        kw = dict(t.a[2])
        ip = self.ip
        if f.op == "attr":
            b, n = f.a
            bt = ip.typeof(b)
            if n == "copy":
                if bt and bt[0] in ("df", "series", "dfpart"):
                    d = kw.get("deep", args[0] if args else None)
                    if d is not None and is_const(d, False):
                        return self._ext(self.owners(b), "", "shallow")
                return {FRESH}
            if bt and bt[0] in ("df", "series", "arr", "dfpart", "dfindex"):
                if n in ("squeeze", "view", "reshape", "ravel", "to_numpy", "transpose", "pipe", "xs", "get"):
                    return self._ext(self.owners(b), "", "view")
                c = kw.get("copy")
                if n in ("reset_index", "set_index", "rename", "astype", "set_axis", "reindex") and c is not None and is_const(c, False):
                    return self._ext(self.owners(b), "", "shallow")
                return {FRESH}
            if n in ELEM_METHODS and bt is None or n in ELEM_METHODS and bt and bt[0] in ("L", "D", "S"):
                r = self._elem(b)
                if len(args) > 1:
                    r = r | self.owners(args[1])
                return r
            if bt and bt[0] in ("L", "D", "S"):
                return {FRESH}
            if bt is None and n in ("items", "keys", "values", "split", "format", "join", "strip"):
                return {FRESH}
            return {("unknown", "call ." + n, "id")}
        if f.op == "ext":
            n = f.a[0]
            if n in ("builtins.next", "builtins.min", "builtins.max", "builtins.getattr") and args:
                return self._elem(args[0])
            if n in ALIAS_FUNCS and args:
                return self._ext(self.owners(args[0]), "", "view")
            if n == "copy.copy" and args:
                bt = ip.typeof(args[0])
                if bt and bt[0] == "df":
                    return {FRESH}
                return self._ext(self.owners(args[0]), "", "shallow")
            if n in ("builtins.vars",) and args:
                return self.owners(args[0])
            return {FRESH}
        if f.op == "fn":
            q = f.a[0]
            if q in ip.rec_returns and ip.rec_returns[q]:
                out = set()
                for r in ip.rec_returns[q]:
                    out |= self.owners(r)
                return out
            return {("unknown", "call " + q, "id")}
        return {("unknown", "call", "id")}


# --------------------------------------------------------------- mutations

DF_INPLACE = {
    "reset_index", "set_index", "sort_index", "drop", "fillna", "rename", "replace", "sort_values",
    "dropna", "drop_duplicates", "clip", "where", "mask", "interpolate", "eval", "query", "ffill", "bfill", "rename_axis", "set_axis",
}
DF_MUTATE_STRUCT = {"insert", "pop", "drop_inplace"}
DF_MUTATE_VALUE = {"update", "put", "fill", "itemset", "sort", "partition", "setflags", "resize"}
MEMO_FIELDS = {
    ("hatchet.frame.Frame", "_tuple_repr"),
    ("hatchet.query.engine.QueryEngine", "search_cache"),
}


class Mutation:
    def __init__(self, ev, owner, what, how):
        self.ev = ev
        self.owner = owner  # (kind, root, mode)
        self.what = what
        self.how = how


def mutations(ip, res, own=None):
    """All mutation events with the caller-visible objects they may affect."""
    own = own or Owner(ip, res.state)
    out = []
    for e in ip.events:
        targets, how, value_write = None, None, False
        if e.kind == "setattr":
            targets = e.obj
            how = "assigns attribute %s of" % e.name
            bt = ip.typeof(e.obj)
            if bt and bt[0] == "C" and (bt[1], e.name) in MEMO_FIELDS:
                continue
        elif e.kind == "delattr":
            targets = e.obj
            how = "deletes attribute %s of" % e.name
        elif e.kind in ("setitem", "delitem"):
            targets = e.obj
            how = "writes an item of" if e.kind == "setitem" else "deletes an item of"
            bt = ip.typeof(e.obj)
            if bt and bt[0] in ("dfloc", "series", "arr", "dfpart"):
                value_write = True
            if e.obj.op == "attr" and e.obj.a[1] in ("loc", "iloc", "at", "iat", "values"):
                value_write = True
        elif e.kind == "iop":
            targets = e.obj
            how = "updates in place (%s=)" % e.name
            value_write = True
        elif e.kind == "call" and e.obj is not None:
            bt = ip.typeof(e.obj)
            ty = bt[0] if bt else None
            inpl = e.kwargs.get("inplace")
            if inpl is not None and not is_const(inpl, False):
                targets = e.obj
                how = "calls %s(inplace=True) on" % e.name
                value_write = e.name in ("fillna", "replace", "clip", "where", "mask")
            elif ty in ("df", "series", "arr", "dfpart"):
                if e.name in DF_MUTATE_VALUE:
                    targets, how, value_write = e.obj, "calls %s() on" % e.name, True
                elif e.name in DF_MUTATE_STRUCT:
                    targets, how = e.obj, "calls %s() on" % e.name
            elif e.name in models.MUTATORS and ty not in ("C", "str", "groupby", "dfindex"):
                targets, how = e.obj, "calls %s() on" % e.name
        elif e.kind == "call" and e.fn is not None and e.fn.op == "ext":
            n = e.fn.a[0]
            if n in ("random.shuffle", "heapq.heapify", "heapq.heappush", "heapq.heappop", "bisect.insort", "numpy.put", "numpy.copyto", "numpy.place", "numpy.fill_diagonal") and e.args:
                targets, how, value_write = e.args[0], "calls %s on" % n, True
            out_kw = e.kwargs.get("out")
            if out_kw is not None:
                targets, how, value_write = out_kw, "writes the output of %s into" % n, True
        if targets is None:
            continue
        for s in ip.sources(restrict(targets, e.guard + e.facts)):
            for o in own.owners(s):
                kind, root, mode = o
                if kind in ("fresh",):
                    continue
                if mode == "shallow" and not value_write:
                    continue
                if mode == "view" and not value_write and e.kind == "setattr":
                    # e.g. df.index.names = ... changes the owner
                    pass
                out.append(Mutation(e, o, pretty(targets), how))
    return out

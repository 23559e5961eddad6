"""Definite assignment of locals (loops are assumed to run at least once, equal conditions to agree)."""

import ast


def key(t, want=True):
    """a condition and the truth value it has, normalised over negations"""
    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t, want = t.operand, not want
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        flip = {ast.NotIn: ast.In, ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        op = t.ops[0]
        for a, b in flip.items():
            if isinstance(op, a):
                op, want = b(), not want
                break
        return ast.dump(t.left) + type(op).__name__ + ast.dump(t.comparators[0]), want
    return ast.dump(t), want


def keys(t, want):
    """conditions known to hold when t is `want`"""
    out = {key(t, want)}
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And if want else ast.Or):
        for v in t.values:
            out |= keys(v, want)
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        out |= keys(t.operand, not want)
    return out


class St:
    def __init__(self, defs, conds):
        self.defs, self.conds = defs, conds

    def copy(self):
        return St(set(self.defs), {k: set(v) for k, v in self.conds.items()})


def join(a, b, ka=(), kb=()):
    if a is None:
        return b
    if b is None:
        return a
    defs = a.defs & b.defs
    conds = {}
    for s, ks in ((a, ka), (b, kb)):
        for n, v in s.conds.items():
            conds.setdefault(n, set()).update(v)
        for n in s.defs - defs:
            conds.setdefault(n, set()).update(ks)
    return St(defs, conds)


def versioned(t):
    return any(isinstance(x, ast.Attribute) and x.attr == "version_info" for x in ast.walk(t))


def strict(s):
    """an explicit else, or a dispatch on the type of an argument: the remaining case is a real one"""
    if s.orelse and not (len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If)):
        return True
    if s.orelse:
        return strict(s.orelse[0])
    return any(isinstance(x, ast.Call) and getattr(x.func, "id", "") == "isinstance" for x in ast.walk(s.test))


class Flow:
    def __init__(self, fn, errs):
        self.fn, self.errs = fn, errs
        self.out = []
        from .p21 import bound
        glob = set()
        stack = list(fn.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                glob |= set(n.names)
            if not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                stack.extend(ast.iter_child_nodes(n))
        a = fn.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
        self.local = bound(fn) - glob - params - {"__class__"}
        self.params = params
        self.loops = []

    def run(self):
        self.block(self.fn.body, St(set(), {}), frozenset())
        return self.out

    def use(self, e, st, facts):
        if e is None or st is None:
            return
        stack = [(e, facts)]
        while stack:
            n, fs = stack.pop()
            if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.ClassDef)):
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                tmp = st.copy()
                tmp.defs |= own
                hold = set(own) - st.defs
                st.defs |= own
                for c in ast.iter_child_nodes(n):
                    self.use(c, st, fs)
                st.defs -= hold
                continue
            if isinstance(n, ast.NamedExpr):
                self.use(n.value, st, fs)
                st.defs.add(n.target.id)
                continue
            if isinstance(n, ast.BoolOp):
                cur = set(fs)
                for v in n.values:
                    self.use(v, st, frozenset(cur))
                    cur |= keys(v, isinstance(n.op, ast.And))
                continue
            if isinstance(n, ast.IfExp):
                self.use(n.test, st, fs)
                self.use(n.body, st, fs | keys(n.test, True))
                self.use(n.orelse, st, fs | keys(n.test, False))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.local and n.id not in st.defs:
                if not (st.conds.get(n.id, set()) & fs):
                    self.out.append((n.id, n, "not assigned on every path that reaches this use: raises UnboundLocalError"))
                st.defs.add(n.id)
                continue
            stack.extend((c, fs) for c in ast.iter_child_nodes(n))

    def store(self, t, st):
        for x in ast.walk(t):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.defs.add(x.id)

    def block(self, body, st, facts):
        for s in body:
            if st is None:
                return None
            st = self.stmt(s, st, facts)
        return st

    def stmt(self, s, st, facts):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st.defs.add(s.name)
            return st
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for x in s.names:
                st.defs.add(x.asname or x.name.split(".")[0])
            return st
        if isinstance(s, ast.Assign):
            self.use(s.value, st, facts)
            for t in s.targets:
                self.use(t, st, facts)
                self.store(t, st)
            # a fact about a reassigned name is forgotten
            return st
        if isinstance(s, (ast.AugAssign, ast.AnnAssign)):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                self.use(ast.copy_location(ast.Name(s.target.id, ast.Load()), s.target), st, facts)
            self.use(s.value, st, facts)
            self.use(s.target, st, facts)
            if s.value is not None:
                self.store(s.target, st)
            return st
        if isinstance(s, ast.Expr):
            self.use(s.value, st, facts)
            if isinstance(s.value, ast.Call) and self.errs.never_returns(s.value):
                return None
            return st
        if isinstance(s, ast.Return):
            self.use(s.value, st, facts)
            return None
        if isinstance(s, ast.Raise):
            self.use(s.exc, st, facts)
            self.use(s.cause, st, facts)
            return None
        if isinstance(s, ast.Assert):
            self.use(s.test, st, facts)
            if isinstance(s.test, ast.Constant) and not s.test.value:
                return None
            return st
        if isinstance(s, (ast.Break, ast.Continue)):
            if self.loops:
                self.loops[-1].append((type(s).__name__, st.copy()))
            return None
        if isinstance(s, ast.If):
            self.use(s.test, st, facts)
            if isinstance(s.test, ast.Constant):
                return self.block(s.body if s.test.value else s.orelse, st, facts)
            a = self.block(s.body, st.copy(), facts | keys(s.test, True))
            if not s.orelse and versioned(s.test):
                return a if a is not None else st
            b = self.block(s.orelse, st.copy(), facts | keys(s.test, False))
            if not strict(s):
                # a missing case the callers rule out: assume the last branch was taken
                if a is not None and b is not None:
                    b.defs |= a.defs
                    return join(a, b) if s.orelse else b
                return join(a, b)
            return join(a, b, keys(s.test, True), keys(s.test, False))
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(s, ast.While):
                self.use(s.test, st, facts)
            else:
                self.use(s.iter, st, facts)
                self.use(s.target, st, facts)
                self.store(s.target, st)
            self.loops.append([])
            fs = facts | keys(s.test, True) if isinstance(s, ast.While) else facts
            out = self.block(s.body, st.copy(), fs)
            left = self.loops.pop()
            states = [x for _, x in left] + ([out] if out is not None else [])
            forever = isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value
            if forever:
                states = [x for k, x in left if k == "Break"]
                if not states:
                    return None
                res = states[0]
                for x in states[1:]:
                    res = join(res, x)
                return res
            res = st.copy()
            # some iteration took the branch that assigns
            res.defs |= {y.id for x in s.body if not any(isinstance(z, ast.Try) for z in ast.walk(x))
                         for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            for x in states:
                res.defs |= x.defs
                for n, v in x.conds.items():
                    res.conds.setdefault(n, set()).update(v)
            if s.orelse:
                o = self.block(s.orelse, res.copy(), facts)
                br = [x for k, x in left if k == "Break"]
                for x in br:
                    o = join(o, x)
                return o
            return res
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.use(i.context_expr, st, facts)
                if i.optional_vars is not None:
                    self.store(i.optional_vars, st)
            return self.block(s.body, st, facts)
        if isinstance(s, ast.Try):
            begin = st.copy()
            a = self.block(s.body, st, facts)
            if a is not None:
                a = self.block(s.orelse, a, facts)
            res = a
            for h in s.handlers:
                b = begin.copy()
                if h.name:
                    b.defs.add(h.name)
                self.use(h.type, b, facts)
                res = join(res, self.block(h.body, b, facts))
            if s.finalbody:
                f = (res or begin).copy()
                f.defs |= {n for x in s.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)
                           for n in [y.id]}
                g = self.block(s.finalbody, f, facts)
                if g is None:
                    return None
                if res is not None:
                    res.defs |= {y.id for x in s.finalbody for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
            return res
        if isinstance(s, ast.Match):
            self.use(s.subject, st, facts)
            res = None
            wild = False
            for c in s.cases:
                b = st.copy()
                for x in ast.walk(c.pattern):
                    for f in ("name", "rest"):
                        if getattr(x, f, None):
                            b.defs.add(getattr(x, f))
                if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                    wild = True
                res = join(res, self.block(c.body, b, facts))
            return res if wild else join(res, st)
        for c in ast.iter_child_nodes(s):
            self.use(c, st, facts)
        return st

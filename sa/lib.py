"""Shared questions about value-flow terms."""

from .terms import canon, is_const, subterms, restrict, mk, T

WRAP = {
    "builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.iter",
    "builtins.reversed", "copy.copy", "copy.deepcopy", "numpy.array", "numpy.asarray", "pandas.Index",
    "itertools.chain", "collections.OrderedDict", "numpy.unique", "pandas.unique",
}


def strip_copy(t):
    """The table a (deep or shallow) copy was made of."""
    while t.op == "call" and (
        t.a[0].op == "attr" and t.a[0].a[1] == "copy" or t.a[0].op == "ext" and t.a[0].a[0] in ("copy.copy", "copy.deepcopy")
    ):
        t = t.a[0].a[0] if t.a[0].op == "attr" else t.a[1][0]
    return t


class Members:
    """Which collections a collection is made of (order and duplicates ignored)."""

    def __init__(self, ip, state, known=(), fixed=()):
        self.ip = ip
        # loops whose variables are single values here, not "every element"
        self.fixed = tuple(fixed)
        self.known = tuple(known)
        self.contents = state.contents
        self.active = set()

    def of(self, t):
        """(bases, singles, filtered): whole collections included, single
        elements added, and whether a condition or unknown step applies."""
        bases, singles, cond = set(), set(), []
        if t in self.active:
            return bases, singles, cond
        self.active.add(t)
        try:
            self._of(t, bases, singles, cond)
        finally:
            self.active.discard(t)
        return bases, singles, cond

    def _sub(self, t, acc):
        b, s, c = self.of(t)
        acc[0].update(b)
        acc[1].update(s)
        acc[2].extend(c)

    def _of(self, t, bases, singles, cond):
        acc = (bases, singles, cond)
        if t.op in ("ite", "phi", "mu"):
            for s in self.ip.sources(t):
                self._sub(s, acc)
            if t.op == "ite":
                cond.append(t.a[0])
            return
        if t.op in ("list", "set", "dict") and t in self.contents:
            for g, loops, k, v in self.contents[t]:
                v = k if t.op == "dict" and k is not None else v
                dedup = [l for l in g if l not in self.known and not self._dedup(l, t)]
                if v.op == "star":
                    cond.extend(dedup)
                    self._sub(v.a[0], acc)
                elif v.op in ("elem", "key") and not (self.fixed and len(v.a) > 1 and v.a[1] in self.fixed):
                    cond.extend(dedup)
                    self._sub(v.a[0], acc)
                else:
                    cond.extend(dedup)
                    singles.add(v)
            return
        if t.op in ("list", "set", "dict"):
            bases.add(t)
            return
        if t.op == "tuple":
            for x in t.a:
                if x.op == "star":
                    self._sub(x.a[0], acc)
                else:
                    singles.add(x)
            return
        if t.op == "bin" and t.a[0] in ("+", "|"):
            self._sub(t.a[1], acc)
            self._sub(t.a[2], acc)
            return
        if t.op == "call":
            f = t.a[0]
            if f.op == "ext" and f.a[0] in WRAP or f.op == "ext" and f.a[0] == "builtins.dict":
                for x in t.a[1]:
                    self._sub(x, acc)
                return
            if f.op == "attr" and f.a[1] in ("union", "copy", "keys", "tolist", "fromkeys", "append", "__add__", "__or__"):
                if f.a[0].op not in ("ext", "cls"):
                    self._sub(f.a[0], acc)
                for x in t.a[1]:
                    self._sub(x, acc)
                return
            if f.op == "ext" and f.a[0].endswith((".union", ".fromkeys", ".from_iterable")):
                for x in t.a[1][: 1 if f.a[0].endswith("keys") else None]:
                    self._sub(x, acc)
                return
        bases.add(canon(t))

    def _dedup(self, l, t):
        """`not in` tests on the very collection being built."""
        n = l.a[0] if l.op == "not" else None
        return n is not None and n.op == "cmp" and n.a[0] == "in" and n.a[2] is t


def whole(ip, state, t, want):
    """Does collection t contain all elements of every term in want,
    unconditionally, and nothing else?"""
    bases, singles, cond = Members(ip, state).of(t)
    return not singles and not cond and {canon(b) for b in bases} == {canon(w) for w in want}


def peel(t, names=("builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted")):
    while t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in names and t.a[1]:
        t = t.a[1][0]
    return t


def mentions(t, *targets):
    return any(x in targets for x in subterms(t))


def implies(premises, concl, atoms_limit=14, axioms=(), norm=None):
    """Propositional entailment by truth table over the atoms of the formulas.
    norm maps an atom to (atom, polarity) so that different spellings meet."""
    import itertools

    norm = norm or (lambda a: (a, True))
    order = []

    def collect(t):
        if t.op == "not":
            collect(t.a[0])
        elif t.op in ("and", "or"):
            for x in t.a:
                collect(x)
        elif t.op == "const":
            pass
        else:
            a = norm(t)[0]
            if a not in order:
                order.append(a)

    def ev(t, env):
        if t.op == "not":
            return not ev(t.a[0], env)
        if t.op == "and":
            return all(ev(x, env) for x in t.a)
        if t.op == "or":
            return any(ev(x, env) for x in t.a)
        if t.op == "const":
            return bool(t.a[0])
        a, pol = norm(t)
        return env[a] == pol

    prem = list(premises)
    collect(concl)
    for p in prem:
        collect(p)
    for a in axioms:
        collect(a)
    if len(order) > atoms_limit:
        # drop premises over atoms the conclusion does not mention
        seen = list(order)
        order.clear()
        collect(concl)
        keep = []
        for p in prem:
            k = list(order)
            order.clear()
            collect(p)
            inter = set(order) & set(k)
            rest = [a for a in order if a not in k]
            order[:] = k
            if inter or len(k) + len(rest) <= atoms_limit:
                keep.append(p)
                order.extend(rest)
        prem = keep
        axioms = [a for a in axioms]
        for a in axioms:
            collect(a)
        if len(order) > atoms_limit + 4:
            return False
    for vals in itertools.product((False, True), repeat=len(order)):
        env = dict(zip(order, vals))
        if all(ev(p, env) for p in prem) and all(ev(a, env) for a in axioms) and not ev(concl, env):
            return False
    return True


def consistent(premises, more, axioms=(), norm=None):
    from .terms import b_and, neg

    return not implies(premises, neg(b_and(*more)) if more else mk("const", False), axioms=axioms, norm=norm)


def key_attr(repo, t):
    """The attribute name a sort key extracts: lambda n: n.frame,
    attrgetter("frame"), or a named function returning n.frame."""
    import ast

    if t is None:
        return None
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "operator.attrgetter" and len(t.a[1]) == 1:
        c = t.a[1][0]
        return c.a[0] if c.op == "const" else None
    if t.op == "fn":
        f = repo.functions.get(t.a[0])
        if f is None:
            return None
        n = f.node
        body = n.body if isinstance(n, ast.Lambda) else None
        if body is None:
            st = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
            if len(st) == 1 and isinstance(st[0], ast.Return):
                body = st[0].value
        ps = f.all_params()
        if isinstance(body, ast.Attribute) and isinstance(body.value, ast.Name) and ps and body.value.id == ps[0]:
            return body.attr
    return None


def frame_origin(ip, state, node):
    """Terms x such that node's frame holds the attributes of x.frame."""
    out = set()
    fr = state.heap.get((node, "frame"))
    for e in ip.events:
        if e.kind == "setattr" and e.obj is node and e.name == "frame":
            fr = e.value
    if fr is None:
        return out

    def attrs_from(t, depth=0):
        for s in ip.sources(t):
            if s.op == "attr" and s.a[1] == "attrs" and s.a[0].op == "attr" and s.a[0].a[1] == "frame":
                out.add(s.a[0].a[0])
            elif s.op == "attr" and s.a[1] == "frame":
                out.add(s.a[0])
            elif s.op == "star":
                attrs_from(s.a[0], depth + 1)
            elif s.op == "dict" and depth < 6:
                for g, l, k, v in state.contents.get(s, ()):
                    if v.op == "star":
                        attrs_from(v.a[0], depth + 1)
            elif s.op == "new" and depth < 6:
                a = state.heap.get((s, "attrs"))
                for e in ip.events:
                    if e.kind == "setattr" and e.obj is s and e.name == "attrs":
                        attrs_from(e.value, depth + 1)
                    if e.kind == "new" and e.value is s and e.args:
                        attrs_from(e.args[0], depth + 1)
            elif s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "copy" or (
                s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] in ("copy.copy", "copy.deepcopy", "builtins.dict") and s.a[1]
            ):
                attrs_from(s.a[0].a[0] if s.a[0].op == "attr" else s.a[1][0], depth + 1)

    attrs_from(fr)
    return out


def flat(t):
    """Possible values through ite and phi (not through loop variables)."""
    out, work, seen = [], [t], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            work += [x.a[1], x.a[2]]
        elif x.op == "phi":
            work += [y for y in x.a if isinstance(y, T)]
        else:
            out.append(x)
    return out


def body_of(repo, t):
    """(parameter name, returned expression) of a one-expression function
    given as a lambda or a def (docstring ignored)."""
    import ast

    if t is None or t.op != "fn":
        return None, None
    f = repo.functions.get(t.a[0])
    if f is None:
        return None, None
    n = f.node
    ps = f.all_params()
    if not ps:
        return None, None
    if isinstance(n, ast.Lambda):
        return ps[0], n.body
    st = [s for s in n.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(st) == 1 and isinstance(st[0], ast.Return) and st[0].value is not None:
        return ps[0], st[0].value
    if len(st) == 2 and isinstance(st[0], ast.Assign) and isinstance(st[1], ast.Return):
        if isinstance(st[1].value, ast.Name) and isinstance(st[0].targets[0], ast.Name) and st[0].targets[0].id == st[1].value.id:
            return ps[0], st[0].value
    return None, None


def is_nan_sum(repo, t):
    """x -> x.sum(min_count=1)"""
    import ast

    p, b = body_of(repo, t)
    if b is None or not isinstance(b, ast.Call):
        return False
    kw = {k.arg: k.value for k in b.keywords}
    mc = kw.pop("min_count", None)
    if mc is None or not isinstance(mc, ast.Constant) or mc.value != 1 or kw:
        return False
    return isinstance(b.func, ast.Attribute) and b.func.attr == "sum" and isinstance(b.func.value, ast.Name) and b.func.value.id == p and not b.args


def is_first(repo, t):
    """x -> x.iloc[0]"""
    import ast

    p, b = body_of(repo, t)
    if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Constant) and b.slice.value == 0:
        v = b.value
        if isinstance(v, ast.Attribute) and v.attr in ("iloc", "values", "iat") and isinstance(v.value, ast.Name) and v.value.id == p:
            return True
    return False


def image(ip, state, v, depth=0):
    """(column, results): v is the column with every element replaced; the
    results are terms over elem(column). Nested maps are composed."""
    col, results, at = None, None, None
    if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] in ("apply", "map") and v.a[1]:
        col = v.a[0].a[0]
        fn = v.a[1][0]
        at = canon(mk("elem", col))
        if fn.op == "fn":
            results = [canon(e.value) for e in ip.events if e.kind == "return" and e.stack and e.stack[-1] == fn.a[0]
                       and mentions(canon(e.value), at)]
        elif fn.op in ("dict", "param", "call", "opaque"):
            results = [mk("item", fn, at)]
        elif fn.op == "attr" and fn.a[1] in ("get", "__getitem__"):
            results = [mk("item", fn.a[0], at)]
    else:
        x = v
        while x.op == "call" and x.a[0].op == "ext" and x.a[1]:
            x = x.a[1][0]
        if x.op == "list" and state.contents.get(x):
            cs = state.contents[x]
            results = [canon(c[3]) for c in cs]
            els = [s for r in results for s in subterms(r) if s.op == "elem"]
            if els:
                col = els[0].a[0]
                at = els[0]
                loops = {c[1] for c in cs}
                if any(c[0] for c in cs):
                    results = None if len(cs) == 1 else results
    if col is None or not results:
        return None, None, None
    inner, ires, iat = image(ip, state, col, depth + 1) if depth < 4 else (None, None, None)
    if inner is not None:
        out = []
        for r in results:
            for ir in ires:
                out.append(replace(r, canon(mk("elem", col)), ir))
        return inner, out, iat
    return col, results, at


def replace(t, a, b, memo=None):
    if not isinstance(t, T):
        return tuple(replace(x, a, b, memo) for x in t) if isinstance(t, tuple) else t
    if t is a:
        return b
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = t
    args = tuple(replace(x, a, b, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
    r = t if args == t.a else mk(t.op, *args)
    memo[t] = r
    return r

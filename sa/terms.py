"""Hash-consed value terms used by the gated value-flow analysis."""

_cache = {}


class T:
    __slots__ = ("op", "a", "h", "n", "__weakref__")

    def __repr__(self):
        return pretty(self)

    # identity equality: terms are interned
    def __hash__(self):
        return self.h

    def __lt__(self, other):
        return pretty(self) < pretty(other)


def mk(op, *a):
    key = (op,) + tuple(_k(x) for x in a)
    t = _cache.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.h = hash(key)
        t.n = len(_cache)
        _cache[key] = t
    return t


def _k(x):
    if isinstance(x, T):
        return ("T", id(x))
    if isinstance(x, tuple):
        return ("t",) + tuple(_k(y) for y in x)
    return (type(x).__name__, x)


def const(v):
    try:
        hash(v)
    except TypeError:
        return mk("opaque", repr(v))
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, *vals):
    if t.op != "const":
        return False
    if not vals:
        return True
    return any(t.a[0] is v or (type(t.a[0]) is type(v) and t.a[0] == v) for v in vals)


def cval(t):
    return t.a[0]


def attr(b, n):
    return mk("attr", b, n)


# ------------------------------------------------------------------ booleans

NEG_CMP = {
    "==": "!=",
    "!=": "==",
    "<": ">=",
    ">=": "<",
    ">": "<=",
    "<=": ">",
    "in": "notin",
    "notin": "in",
    "is": "isnot",
    "isnot": "is",
}
SWAP = {">": "<", ">=": "<="}


def _sized(t):
    """x when t is len(x) / x.shape[0]."""
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.len" and len(t.a[1]) == 1:
        return t.a[1][0]
    if t.op == "item" and is_const(t.a[1], 0) and t.a[0].op == "attr" and t.a[0].a[1] == "shape":
        return t.a[0].a[0]
    return None


def cmp(op, a, b):
    if op in SWAP:
        a, b = b, a
        op = SWAP[op]
    if op in ("==", "!=", "is", "isnot") and a.op == "const" and b.op == "const":
        try:
            eq = a.a[0] == b.a[0] and (
                type(a.a[0]) is type(b.a[0]) or op in ("==", "!=")
            )
        except Exception:
            eq = None
        if eq is not None:
            return const(bool(eq) == (op in ("==", "is")))
    if op in ("<", "<=") and a.op == "const" and b.op == "const":
        try:
            return const(a.a[0] < b.a[0] if op == "<" else a.a[0] <= b.a[0])
        except TypeError:
            pass
    # emptiness tests are one literal, however they are written
    if op in ("==", "!=") and (is_const(b, 0) or is_const(a, 0)):
        x = _sized(a if is_const(b, 0) else b)
        if x is not None:
            return mk("not", mk("truth", x)) if op == "==" else mk("truth", x)
    if op == "<" and is_const(a, 0) or op == "<=" and is_const(a, 1):
        x = _sized(b)
        if x is not None:
            return mk("truth", x)
    if op == "<" and is_const(b, 1) or op == "<=" and is_const(b, 0):
        x = _sized(a)
        if x is not None:
            return mk("not", mk("truth", x))
    if op in ("==", "!=", "is", "isnot"):
        # canonical operand order for symmetric operators: constant last
        if (a.op == "const", a.n) > (b.op == "const", b.n):
            a, b = b, a
        if a is b and op in ("is",):
            return TRUE
        if a is b and op in ("isnot",):
            return FALSE
        if op in ("is", "isnot"):
            for x, y in ((a, b), (b, a)):
                if is_const(y, None) and x.op in (
                    "new", "list", "dict", "set", "tuple", "fn", "cls", "str", "bound", "mod",
                ):
                    return const(op == "isnot")
                if is_const(y, None) and x.op == "const" and x.a[0] is not None:
                    return const(op == "isnot")
    if op in ("in", "notin") and a.op == "const" and b.op == "tuple" and all(
        x.op == "const" for x in b.a
    ):
        r = any(x.a[0] == a.a[0] for x in b.a)
        return const(r == (op == "in"))
    if op == "notin":
        return mk("not", mk("cmp", "in", a, b))
    if op == "!=":
        return mk("not", mk("cmp", "==", a, b))
    if op == "isnot":
        return mk("not", mk("cmp", "is", a, b))
    return mk("cmp", op, a, b)


_neg, _and, _or = {}, {}, {}


def neg(t):
    r = _neg.get(t)
    if r is None:
        r = _neg[t] = _negate(t)
    return r


def _negate(t):
    if t.op == "const":
        return const(not t.a[0])
    if t.op == "not":
        return t.a[0]
    if t.op == "and":
        return b_or(*[neg(x) for x in t.a])
    if t.op == "or":
        return b_and(*[neg(x) for x in t.a])
    return mk("not", t)


def b_and(*xs):
    r = _and.get(xs)
    if r is None:
        r = _and[xs] = _conjunction(xs)
    return r


def _conjunction(xs):
    out = []
    for x in xs:
        if x.op == "and":
            ys = x.a
        else:
            ys = (x,)
        for y in ys:
            if y.op == "const":
                if not y.a[0]:
                    return FALSE
                continue
            if y not in out:
                out.append(y)
    for y in out:
        if neg(y) in out:
            return FALSE
    for i, y in enumerate(out):
        if y.op == "or":
            rest = [x for x in y.a if neg(x) not in out]
            if len(rest) != len(y.a):
                return b_and(*(out[:i] + [b_or(*rest)] + out[i + 1:]))
            if any(x in out for x in y.a):
                return b_and(*(out[:i] + out[i + 1:]))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *sorted(out, key=lambda y: y.n))


def b_or(*xs):
    r = _or.get(xs)
    if r is None:
        r = _or[xs] = _disjunction(xs)
    return r


def _disjunction(xs):
    out = []
    for x in xs:
        ys = x.a if x.op == "or" else (x,)
        for y in ys:
            if y.op == "const":
                if y.a[0]:
                    return TRUE
                continue
            if y not in out:
                out.append(y)
    for y in out:
        if neg(y) in out:
            return TRUE
    for i, y in enumerate(out):
        if y.op == "and":
            rest = [x for x in y.a if neg(x) not in out]
            if len(rest) != len(y.a):
                return b_or(*(out[:i] + [b_and(*rest)] + out[i + 1:]))
            if any(x in out for x in y.a):
                return b_or(*(out[:i] + out[i + 1:]))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", *sorted(out, key=lambda y: y.n))


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "const":
        return a if c.a[0] else b
    if c.op == "not":
        return ite(c.a[0], b, a)
    return mk("ite", c, a, b)


def literals(c):
    """Split a condition into a conjunction of literals."""
    if c.op == "and":
        out = []
        for x in c.a:
            out += literals(x)
        return out
    if c.op == "const" and c.a[0]:
        return []
    return [c]


def decide(c, guard):
    """Value of condition c under a conjunction of literals, or None."""
    if c.op == "const":
        return bool(c.a[0])
    if c in guard:
        return True
    if neg(c) in guard:
        return False
    if c.op == "not":
        d = decide(c.a[0], guard)
        return None if d is None else not d
    if c.op == "and":
        ds = [decide(x, guard) for x in c.a]
        if any(d is False for d in ds):
            return False
        if all(d is True for d in ds):
            return True
        return None
    if c.op == "or":
        ds = [decide(x, guard) for x in c.a]
        if any(d is True for d in ds):
            return True
        if all(d is False for d in ds):
            return False
        # unit propagation against negated disjunction in guard
        return None
    if c.op == "cmp" and c.a[0] == "==" and c.a[2].op == "const":
        # x == k decided by a guard x == k2
        for g in guard:
            if g.op == "cmp" and g.a[0] in ("==", "is") and g.a[1] is c.a[1] and g.a[2].op == "const":
                if g.a[2].a[0] != c.a[2].a[0]:
                    return False
    if c.op == "cmp" and c.a[0] == "is":
        for g in guard:
            if g.op == "cmp" and g.a[0] == "==" and g.a[1] is c.a[1] and g.a[2].op == "const" and g.a[2].a[0] is not None:
                return False
            # truthiness implies not None
            if is_const(c.a[2], None) and g.op == "truth" and g.a[0] is c.a[1]:
                return False
    if c.op == "truth":
        for g in guard:
            if g.op == "cmp" and g.a[0] == "is" and g.a[1] is c.a[0] and is_const(g.a[2], None):
                return False
    return None


def restrict(t, known, memo=None):
    """The term with every gate decided by the known literals resolved."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(restrict(x, known, memo) for x in t)
        return t
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    memo[t] = t
    if t.op == "ite":
        d = decide(t.a[0], known)
        if d is True:
            r = restrict(t.a[1], known, memo)
        elif d is False:
            r = restrict(t.a[2], known, memo)
        else:
            r = ite(t.a[0], restrict(t.a[1], known, memo), restrict(t.a[2], known, memo))
    elif t.op in ("attr", "item", "elem", "key", "val", "tuple", "phi"):
        a = tuple(restrict(x, known, memo) for x in t.a)
        r = t if a == t.a else mk(t.op, *a)
    elif t.op == "call" and t.a[0].op == "attr":
        a0 = restrict(t.a[0], known, memo)
        r = t if a0 is t.a[0] else mk("call", a0, t.a[1], t.a[2])
    else:
        r = t
    memo[t] = r
    return r


_canon = {}


def canon(t):
    """The term without loop identities: equal for any two loops over the
    same collection (sorted/listed or not)."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(canon(x) for x in t)
        return t
    r = _canon.get(t)
    if r is not None:
        return r
    _canon[t] = t
    if t.op in ("elem", "val", "key"):
        b = canon(t.a[0])
        while b.op == "call" and b.a[0].op == "ext" and b.a[1] and b.a[0].a[0] in (
            "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed", "builtins.iter",
        ):
            b = b.a[1][0]
        r = mk(t.op, b)
    elif t.op in ("new", "list", "dict", "set", "const", "mu", "idx", "fn", "cls", "ext", "param"):
        r = t
    else:
        a = tuple(canon(x) if isinstance(x, (T, tuple)) else x for x in t.a)
        r = t if a == t.a else mk(t.op, *a)
    _canon[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, T):
            if isinstance(x, tuple):
                stack.extend(x)
            continue
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.a)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def _site(s):
    if isinstance(s, tuple):
        for x in s:
            if isinstance(x, str) and ":" in x:
                tail = x.rsplit(":", 2)
                return "@%s:%s" % (tail[0].split(".")[-1], tail[1])
        return "@" + ".".join(str(x) for x in s if isinstance(x, str))[-40:]
    return "@%s" % (s,)


def pretty(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(pretty(x, depth + 1) for x in t) + ")"
        return repr(t)
    if depth > 7:
        return "..."
    p = lambda x: pretty(x, depth + 1)
    op, a = t.op, t.a
    if op == "const":
        return repr(a[0])
    if op == "param":
        return a[1]
    if op == "attr":
        return "%s.%s" % (p(a[0]), a[1])
    if op == "item":
        return "%s[%s]" % (p(a[0]), p(a[1]))
    if op == "call":
        return "%s(%s)" % (
            p(a[0]),
            ", ".join([p(x) for x in a[1]] + ["%s=%s" % (k, p(v)) for k, v in a[2]]),
        )
    if op == "ext":
        return a[0]
    if op == "cmp":
        return "(%s %s %s)" % (p(a[1]), a[0], p(a[2]))
    if op == "bin":
        return "(%s %s %s)" % (p(a[1]), a[0], p(a[2]))
    if op == "not":
        return "!" + p(a[0])
    if op in ("and", "or"):
        return "(" + (" %s " % op).join(p(x) for x in a) + ")"
    if op == "ite":
        return "(%s ? %s : %s)" % (p(a[0]), p(a[1]), p(a[2]))
    if op == "elem":
        return "elem<%s>" % p(a[0])
    if op == "tuple":
        return "(" + ", ".join(p(x) for x in a) + ")"
    if op == "new":
        return "new %s%s" % (a[0].split(".")[-1], _site(a[1]))
    if op == "mu":
        return "mu:%s%s" % (a[0], _site(a[1]))
    if op == "phi":
        return "phi(%s)" % ", ".join(p(x) for x in a[1:])
    if op in ("key", "val"):
        return "%s<%s>" % (op, p(a[0]))
    if op == "idx":
        return "idx" + _site(a[0])
    if op == "truth":
        return "bool(%s)" % p(a[0])
    if op in ("list", "dict", "set"):
        return "%s%s" % (op, _site(a[0]))
    if op == "fn":
        return "fn %s" % a[0].split(".")[-1]
    if op == "str":
        return "str(" + "+".join(p(x) for x in a) + ")"
    return "%s(%s)" % (op, ", ".join(p(x) for x in a))

"""P11: query patterns hold exactly the nodes asked for, in order."""

from ..lib import peel
from ..terms import attr, canon, is_const, mk, restrict, subterms
from .p07 import UNK, evl

TITLE = "a query pattern holds exactly the query nodes it was built from, in order"
RULE = (
    "for every kind of quantifier Query._add_node appends exactly the documented (wildcard, predicate) pairs in order (n times '.' for "
    "an integer n, '.' then '*' for '+', itself for '.' and '*'); match starts a new pattern, rel/relation extend the one begun by match; "
    "ObjectQuery adds one query node per entry of its list with that entry's quantifier and conditions and passes the multi-index mode on; "
    "old-style QueryMatcher objects delegate to the same code"
)
QQ = "hatchet.query.query.Query."
OD = "hatchet.query.object_dialect."
CP = "hatchet.query.compat."

SUP = {"int": {"int", "Integral", "Real", "Number"}, "str": {"str"}, "list": {"list", "Sequence"}, "dict": {"dict"}, "tuple": {"tuple"},
       "other": set(), "Query": {"Query"}, "ObjectQuery": {"Query", "ObjectQuery"}, "StringQuery": {"Query", "StringQuery"}, "CompoundQuery": {"CompoundQuery"},
       "ConjunctionQuery": {"CompoundQuery", "ConjunctionQuery"}, "AndQuery": {"AbstractQuery", "NaryQuery", "AndQuery"},
       "QueryMatcher": {"AbstractQuery", "QueryMatcher"}, "NoneType": {"NoneType"}, "Node": {"Node"}}


def typenames(c):
    """The classes in the second argument of isinstance."""
    if c.op == "tuple":
        out = set()
        for x in c.a:
            s = typenames(x)
            if s is None:
                return None
            out |= s
        return out
    if c.op in ("ext", "cls"):
        n = c.a[0]
        n = n if isinstance(n, str) else getattr(n, "qual", str(n))
        return {n.rsplit(".", 1)[-1]}
    return None


class Types:
    """Evaluation of terms in a world that fixes the type of some terms."""

    def __init__(self, ip, st, env, types):
        self.ip, self.st, self.env, self.types = ip, st, dict(env), types
        self.env.setdefault("contents", {})

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        if t.op == "not":
            v = self.ev(t.a[0])
            return UNK if v is UNK else not v
        if t.op in ("and", "or"):
            vs = [self.ev(x) for x in t.a]
            if t.op == "and":
                return False if any(v is not UNK and not v for v in vs) else (UNK if UNK in vs else True)
            return True if any(v is not UNK and v for v in vs) else (UNK if UNK in vs else False)
        if t.op == "truth":
            v = self.ev(t.a[0])
            return UNK if v is UNK else bool(v)
        if t.op == "ite":
            c = self.ev(t.a[0])
            return UNK if c is UNK else self.ev(t.a[1] if c else t.a[2])
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.isinstance", "builtins.issubclass") and len(t.a[1]) == 2:
            x, c = t.a[1]
            if t.a[0].a[0] == "builtins.issubclass":
                if x.op == "call" and x.a[0] is mk("ext", "builtins.type") and x.a[1]:
                    x = x.a[1][0]
                elif x.op == "attr" and x.a[1] == "__class__":
                    x = x.a[0]
                else:
                    return UNK
            ty = self.types.get(x) or self.types.get(canon(x))
            ns = typenames(c)
            if ty is None or ns is None:
                return UNK
            return bool(ns & (SUP[ty] | {"object"}))
        if t.op == "cmp" and t.a[0] in ("is", "==") and t.a[1].op == "call" and t.a[1].a[0] is mk("ext", "builtins.type"):
            ty, ns = self.types.get(t.a[1].a[1][0]), typenames(t.a[2])
            return UNK if ty is None or ns is None else ty in ns
        if t.op == "cmp" and t.a[0] == "is" and is_const(t.a[2], None) and (t.a[1] in self.types or canon(t.a[1]) in self.types):
            return (self.types.get(t.a[1]) or self.types.get(canon(t.a[1]))) == "NoneType"
        if t.op == "call" and t.a[0] is mk("ext", "builtins.callable"):
            return True
        return evl(t, self.env)

    def holds(self, guard):
        vs = [self.ev(l) for l in guard]
        if any(v is not UNK and not v for v in vs):
            return False
        return UNK if any(v is UNK for v in vs) else True

    def pick(self, v):
        n = 0
        while v.op == "ite" and n < 12:
            c = self.ev(v.a[0])
            if c is UNK:
                return v
            v = v.a[1] if c else v.a[2]
            n += 1
        return v


def py3(t):
    return t.op == "cmp" and t.a[0] == "==" and is_const(t.a[2], 2) and repr(t.a[1]) in ("sys.version_info[0]", "sys.version_info.major")


def base_env(ip):
    """The interpreter is Python 3."""
    env = {}
    terms = [l for e in ip.events for l in e.guard]
    for l in terms:
        for s in subterms(l):
            if py3(s):
                env[s] = False
            elif s.op == "attr" and s.a[1] in ("version_info",):
                env[s] = (3, 12, 3)
    return env


def falls(e, w):
    """Can the event be reached (assertions before it included)?"""
    return w.holds(e.guard)


def counted(ip, g, w, n=20):
    """Rounds of a while loop that counts: simulated on its condition."""
    mus = {s for l in g for s in subterms(l) if s.op == "mu"}
    if len(mus) != 1:
        return UNK
    m = mus.pop()
    vals = list(ip.mu.get(m, ()))
    init = [v for v in vals if m not in set(subterms(v))]
    step = [v for v in vals if m in set(subterms(v)) and v is not m]
    if len(init) != 1 or len(step) != 1:
        return UNK
    cond = [l for l in g if m in set(subterms(l))]
    cur = w.ev(init[0])
    for k in range(n):
        if cur is UNK:
            return UNK
        sub = Types(w.ip, w.st, {**w.env, m: cur}, w.types)
        h = sub.holds(cond)
        if h is UNK:
            return UNK
        if not h:
            return k
        cur = sub.ev(step[0])
    return UNK


def passes(ip, e, w):
    """The worlds of the rounds in which an event is reached; UNK if unknown."""
    ws = [w]
    for l in e.loops:
        lo = [x for x in ip.events if x.kind == "loop" and x.name == l]
        new = []
        for v in ws:
            b = v.pick(peel(lo[0].obj)) if lo and lo[0].obj is not None else None
            items = None
            if b is not None and b.op == "tuple":
                items = list(b.a)
            elif b is not None and b.op == "list" and v.st.contents.get(b) and all(not c[1] and not c[0] and c[3].op != "star" for c in v.st.contents[b]):
                items = [c[3] for c in v.st.contents[b]]
            if items is not None:
                el = {s for x in list(e.args) + list(e.guard) for s in subterms(x) if s.op == "elem" and peel(s.a[0]) in (lo[0].obj, peel(lo[0].obj), b)}
                for it in items:
                    en = dict(v.env)
                    val = v.ev(it)
                    for s in el:
                        if val is not UNK:
                            en[s] = val
                    new.append(Types(v.ip, v.st, en, v.types))
                continue

            class E:
                pass

            x = E()
            x.loops, x.guard = (l,), e.guard
            n = rounds(ip, x, v)
            if n is UNK:
                return UNK
            new += [v] * n
        ws = new
    return ws


def rounds(ip, e, w):
    """How often the loops around an event run: a number or UNK."""
    n = 1
    for l in e.loops:
        lo = [x for x in ip.events if x.kind == "loop" and x.name == l]
        if lo and lo[0].obj is None:
            k = counted(ip, getattr(e, "guard", ()), w)
            if k is UNK:
                return UNK
            n *= k
            continue
        if not lo:
            return UNK
        b = peel(lo[0].obj)
        if b.op == "call" and b.a[0] is mk("ext", "builtins.range") and not [k for k in b.a[2] if k[0] != "#"]:
            vs = [w.ev(x) for x in b.a[1]]
            if any(not isinstance(v, int) for v in vs):
                return UNK
            n *= len(range(*vs))
        elif b.op == "call" and b.a[0] is mk("ext", "itertools.repeat") and len(b.a[1]) == 2:
            v = w.ev(b.a[1][1])
            if not isinstance(v, int):
                return UNK
            n *= max(0, v)
        else:
            return UNK
    return n


def pairs(ip, st, w, t):
    """The (wildcard, predicate) pairs of a list expression in a world; None
    if unknown."""
    t = w.pick(t)
    if t.op in ("list", "tuple") and (t in st.contents or t.op == "tuple"):
        if t.op == "tuple":
            return [("t", w.pick(x)) for x in t.a]
        out = []
        for g, loops, k, v in st.contents[t]:
            h = w.holds(g)
            if h is UNK:
                return None
            if not h:
                continue

            class E:
                pass

            e = E()
            e.loops = loops
            n = rounds(ip, e, w)
            if n is UNK:
                return None
            if v.op == "star":
                sub = pairs(ip, st, w, v.a[0])
                if sub is None:
                    return None
                out += sub * n
            else:
                out += [("t", w.pick(v))] * n
        return out
    if t.op == "bin" and t.a[0] == "*":
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            n = w.ev(b)
            sub = pairs(ip, st, w, a)
            if isinstance(n, int) and sub is not None:
                return sub * n
        return None
    if t.op == "bin" and t.a[0] == "+":
        a, b = pairs(ip, st, w, t.a[1]), pairs(ip, st, w, t.a[2])
        return None if a is None or b is None else a + b
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.iter") and len(t.a[1]) == 1:
        return pairs(ip, st, w, t.a[1][0])
    if t.op == "call" and t.a[0] is mk("ext", "itertools.repeat") and len(t.a[1]) == 2:
        n = w.ev(t.a[1][1])
        return [("t", w.pick(t.a[1][0]))] * n if isinstance(n, int) else None
    return None


def written(ctx, q, ip, st, w, P, depth=0):
    """The pairs _add_node puts at the end of the pattern in a world."""
    pat = attr(P["self"], "query_pattern")
    out = []
    for e in ip.events:
        own = e.obj is pat and e.kind in ("call", "iop") or e.kind == "setattr" and e.name == "query_pattern" and e.obj is P["self"] or e.kind in ("reccall", "opaque") and e.name == q
        if not own or e.kind == "call" and e.name not in ("append", "extend", "insert", "pop", "clear", "remove", "reverse", "sort", "__iadd__"):
            continue
        mus = {s for l in e.guard for s in subterms(l) if s.op == "mu"} if e.loops else set()
        h = w.holds([l for l in e.guard if not mus & set(subterms(l))])
        if h is False:
            continue
        if h is UNK:
            return "something, if %r" % (e.guard,)
        if e.kind in ("reccall", "opaque"):
            a = [e.kwargs.get(n) for n in ctx.repo.func(q).params()]
            val = w.ev(a[1]) if a[1] is not None else UNK
            if a[0] is not P["self"] or a[2] is not P["predicate"] or val is UNK or depth > 2 or e.loops:
                return "%r" % (e.args,)
            w2 = Types(w.ip, w.st, {**w.env, P["quantifer"]: val}, {P["quantifer"]: type(val).__name__})
            sub = written(ctx, q, ip, st, w2, P, depth + 1)
            if not isinstance(sub, list):
                return sub
            out += [("r", x) for x in sub]
            continue
        ws = passes(ip, e, w)
        if ws is UNK:
            return "an unknown number of entries"
        n = len(ws)
        if e.kind == "call" and e.name == "append":
            for v in ws:
                x = v.pick(e.args[0])
                if x.op == "tuple" and len(x.a) == 2 and isinstance(v.ev(x.a[0]), str):
                    x = mk("tuple", mk("const", v.ev(x.a[0])), x.a[1])
                out.append(("t", x))
        elif e.kind == "call" and e.name in ("extend", "__iadd__") or e.kind == "iop" and e.name == "+":
            sub = pairs(ip, st, w, e.args[0])
            if sub is None:
                return "%r" % (e.args[0],)
            out += sub * n
        elif e.kind == "setattr" and e.value.op == "bin" and e.value.a[0] == "+" and e.value.a[1] is pat:
            sub = pairs(ip, st, w, e.value.a[2])
            if sub is None:
                return "%r" % (e.value,)
            out += sub * n
        elif e.kind == "setattr" and e.value is pat:
            pass
        else:
            return "%s %s" % (e.kind, e.name)
    res = []
    for kind, v in out:
        if kind == "r":
            res.append(v)
        elif v.op == "tuple" and len(v.a) == 2:
            x, p = w.ev(v.a[0]), w.pick(v.a[1])
            res.append((x if isinstance(x, str) else repr(v.a[0]), "p" if p is P["predicate"] else repr(p)))
        else:
            res.append(repr(v))
    return res


def check_add(ctx):
    q = QQ + "_add_node"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    names = f.params()
    P = {"self": mk("param", q, names[0]), "quantifer": mk("param", q, names[1]), "predicate": mk("param", q, names[2])}
    for val, ty, want in ((0, "int", ()), (1, "int", "."), (2, "int", ".."), (3, "int", "..."), ("+", "str", ".*"), (".", "str", "."), ("*", "str", "*")):
        w = Types(ip, res.state, {**base_env(ip), P["quantifer"]: val}, {P["quantifer"]: ty})
        got = written(ctx, q, ip, res.state, w, P)
        exp = [(c, "p") for c in want]
        ctx.oblige(got == exp, "quantifier", "%s:%s" % (q, val), "the quantifier %r adds %s, not %s" % (val, got, exp), f.where)
        for e in ip.events:
            if e.kind == "assert":
                ctx.oblige(w.holds(e.guard) is False or w.ev(e.value) is not False, "quantifier", "%s:%s:assert" % (q, val), "the quantifier %r is refused" % (val,), e.where)
            if e.kind == "raise" and e.stack:
                ctx.oblige(w.holds(e.guard) is False, "quantifier", "%s:%s:raise" % (q, val), "the quantifier %r is refused" % (val,), e.where)


def defaults(ctx, qual, which):
    """Defaults of a query-building function: '.' and a predicate that holds for everything."""
    import ast

    f = ctx.repo.func(qual)
    a = f.node.args
    ds = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
    ps = [x.arg for x in a.args]
    d1, d2 = ds.get(ps[1]), ds.get(ps[2])
    ctx.oblige(isinstance(d1, ast.Constant) and d1.value == ".", "default", qual + ":quantifier", "the default quantifier is not '.'", f.where)
    ok = isinstance(d2, ast.Lambda) and isinstance(d2.body, ast.Constant) and d2.body.value is True
    if isinstance(d2, ast.Name):
        g = ctx.repo.functions.get(f.module.name + "." + d2.id) if hasattr(f.module, "name") else None
        g = g or next((x for x in ctx.repo.functions.values() if x.qual.endswith("." + d2.id) and x.qual.rsplit(".", 1)[0] in qual), None)
        if g is not None:
            ip, res = ctx.analyze(g.qual)
            ok = bool(res.returns) and all(is_const(v, True) for _, v in res.returns)
    ctx.oblige(ok, "default", qual + ":predicate", "the default predicate does not hold for every node", f.where)


def adds(ctx, qual, what, begin):
    """match / rel / relation."""
    f = ctx.repo.func(qual)
    ip, res = ctx.analyze(qual, opaque=(QQ + "_add_node",))
    st = res.state
    ps = f.params()
    selft, qn, pr = (mk("param", qual, n) for n in ps[:3])
    pat = attr(selft, "query_pattern")
    an = ctx.repo.func(QQ + "_add_node").params()
    for empty in (True, False):
        env = dict(base_env(ip))
        env[mk("truth", pat)] = not empty
        env[mk("call", mk("ext", "builtins.len"), (pat,), ())] = 0 if empty else 2
        sl = mk("call", mk("ext", "builtins.len"), (selft,), ())
        env[sl] = 0 if empty else 2
        env[mk("truth", sl)] = env[mk("truth", selft)] = not empty
        w = Types(ip, st, env, {})
        desc = "on %s pattern" % ("an empty" if empty else "a begun")
        calls = [e for e in ip.events if e.kind == "opaque" and e.name == QQ + "_add_node" and w.holds(e.guard) is not False]
        raises = [e for e in ip.events if e.kind == "raise" and w.holds(e.guard) is not False]
        if not begin and empty:
            ok = len(raises) == 1 and w.holds(raises[0].guard) is True and "InvalidQueryPath" in repr(raises[0].value) and not [c for c in calls if c.idx < raises[0].idx]
            ctx.oblige(ok, "begin", qual + ":raises", "%s does not raise InvalidQueryPath %s" % (what, desc), f.where)
            continue
        ctx.oblige(not raises, "begin", qual + ":refused%d" % empty, "%s is refused %s" % (what, desc), f.where)
        ok = len(calls) == 1 and w.holds(calls[0].guard) is True and not calls[0].loops
        ctx.oblige(ok, "adds", qual + ":once%d" % empty, "%s adds %d query nodes %s" % (what, len(calls), desc), f.where)
        for c in calls:
            ctx.oblige(c.kwargs.get(an[0]) is selft and w.pick(c.kwargs.get(an[1])) is qn and w.pick(c.kwargs.get(an[2])) is pr, "adds", qual + ":args",
                       "%s adds a node with %r" % (what, c.args), c.where)
        sets = [e for e in ip.events if (e.kind == "setattr" and e.name == "query_pattern" and e.obj is selft and e.value is not pat or e.kind == "call" and e.name == "clear" and e.obj is pat)
                and w.holds(e.guard) is not False]
        if begin:
            fresh = [e for e in sets if (e.kind == "call" or e.value.op == "list" and not st.contents.get(e.value)) and w.holds(e.guard) is True]
            if not empty:
                ctx.oblige(len(fresh) == len(sets) >= 1 and (not calls or max(e.idx for e in sets) < calls[0].idx), "begin", qual + ":reset", "%s goes on with the old pattern" % what, f.where)
        else:
            ctx.oblige(not sets, "adds", qual + ":keeps", "%s replaces the pattern" % what, f.where)
    rets = [v for g, v in res.returns]
    ctx.oblige(bool(rets) and all(v is selft for v in rets), "adds", qual + ":self", "%s does not return the query itself" % what, f.where)


def check_sizes(ctx):
    pat = lambda q: attr(mk("param", q, ctx.repo.func(q).params()[0]), "query_pattern")
    q = QQ + "__len__"
    ip, res = ctx.analyze(q)
    ok = bool(res.returns) and all(v is mk("call", mk("ext", "builtins.len"), (pat(q),), ()) for g, v in res.returns)
    ctx.oblige(ok, "size", q, "len() is %s" % [v for g, v in res.returns], ctx.repo.func(q).where)
    q = QQ + "__iter__"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    if f.is_generator:
        ys = [e for e in ip.events if e.kind == "yield"]
        ok = len(ys) == 1 and ys[0].value.op == "elem" and peel(ys[0].value.a[0]) is pat(q) and not ys[0].guard
    else:
        ok = bool(res.returns) and all(peel(v, ("builtins.iter", "builtins.list", "builtins.tuple")) is pat(q) for g, v in res.returns)
    ctx.oblige(ok, "size", q, "iteration does not go over the pattern in order", f.where)
    q = QQ + "__init__"
    ip, res = ctx.analyze(q)
    sets = [e for e in ip.events if e.kind == "setattr" and e.name == "query_pattern"]
    ok = len(sets) == 1 and sets[0].value.op == "list" and not res.state.contents.get(sets[0].value) and not sets[0].guard
    ctx.oblige(ok, "size", q, "a new query does not begin with its own empty pattern", ctx.repo.func(q).where)


def over(b):
    """The collection a loop goes over in order, directly or by index."""
    b = peel(b, ("builtins.list", "builtins.tuple", "builtins.iter"))
    if b.op == "call" and b.a[0] is mk("ext", "builtins.enumerate") and b.a[1]:
        return over(b.a[1][0])
    if b.op == "call" and b.a[0] is mk("ext", "builtins.range") and len(b.a[1]) == 1:
        n = b.a[1][0]
        if n.op == "call" and n.a[0] is mk("ext", "builtins.len"):
            return over(n.a[1][0])
    return b


def entry_of(t):
    """The collection a term is the current entry of."""
    if t.op == "elem" and peel(t.a[0]).op != "call":
        return over(t.a[0])
    if t.op == "item" and is_const(t.a[1], 1) and t.a[0].op == "elem" and over(t.a[0].a[0]) is not t.a[0].a[0]:
        return over(t.a[0].a[0])
    if t.op == "item" and t.a[1].op == "elem" and over(t.a[1].a[0]) is t.a[0]:
        return t.a[0]
    return None


def check_object(ctx):
    q = OD + "ObjectQuery.__init__"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(QQ + "_add_node", OD + "_process_predicate"))
    st = res.state
    ps = f.params()
    selft, query, mode = (mk("param", q, n) for n in ps[:3])
    an = ctx.repo.func(QQ + "_add_node").params()
    pp = ctx.repo.func(OD + "_process_predicate").params()
    adds_ = [e for e in ip.events if e.kind == "opaque" and e.name == QQ + "_add_node"]
    if not ctx.oblige(bool(adds_), "entries", q, "no query node is added", f.where):
        return
    env0 = base_env(ip)
    lo = [e for e in ip.events if e.kind == "loop" and any(e.name in a.loops for a in adds_)]
    # iterate() in order over all entries
    for a in adds_:
        ctx.oblige(len(a.loops) == 1, "entries", q + ":loop", "a query node is not added once per entry", a.where)
    for l in lo:
        b = l.obj
        ctx.oblige(over(b) is query, "entries", q + ":all", "the entries of %r are used, not all entries in order" % b, l.where)
    qn = next((s for a in adds_ for x in list(a.guard) + list(a.args) + list(a.kwargs.values()) for s in subterms(x) if entry_of(s) is query), None)
    if not ctx.oblige(qn is not None, "entries", q + ":entry", "the entries are not looked at", f.where):
        return
    first, second = mk("item", qn, mk("const", 0)), mk("item", qn, mk("const", 1))

    def same(a, b):
        return a is not None and (a is b or canon(a) is canon(b))

    def pred_of(x, cond):
        c = [e for e in ip.events if e.kind == "opaque" and e.name == OD + "_process_predicate" and e.value is x]
        return bool(c) and same(c[0].kwargs.get(pp[0]), cond) and c[0].kwargs.get(pp[1]) is mode

    worlds = [("dict", None, ".", qn), ("str", None, qn, None), ("int", None, qn, None), ("tuple", "str", first, second), ("tuple", "int", first, second),
              ("tuple", "other", None, None), ("other", None, None, None)]
    for ty, sub, quant, cond in worlds:
        types = {qn: ty, canon(qn): ty, query: "list"}
        if sub:
            types.update({first: sub, canon(first): sub, second: "dict", canon(second): "dict"})
        w = Types(ip, st, env0, types)
        w.env[mk("cmp", "in", mode, mk("tuple", mk("const", "off"), mk("const", "all"), mk("const", "any")))] = True
        desc = "%s entry%s" % (ty, " with %s first" % sub if sub else "")
        live = [e for e in adds_ if w.holds(e.guard) is not False]
        raises = [e for e in ip.events if e.kind == "raise" and w.holds(e.guard) is not False]
        if quant is None:
            ok = len(raises) >= 1 and any(w.holds(r.guard) is True and "InvalidQueryPath" in repr(r.value) for r in raises) and all(w.holds(e.guard) is not True or e.idx > raises[0].idx for e in live)
            ctx.oblige(ok, "entries", "%s:%s:%s" % (q, ty, sub), "a %s is not refused with InvalidQueryPath" % desc, f.where)
            continue
        ctx.oblige(not raises, "entries", "%s:%s:%s:raise" % (q, ty, sub), "a %s is refused" % desc, f.where)
        ok = len(live) == 1 and w.holds(live[0].guard) is True
        ctx.oblige(ok, "entries", "%s:%s:%s:once" % (q, ty, sub), "a %s adds %d query nodes" % (desc, len(live)), f.where)
        for e in live:
            ctx.oblige(e.kwargs.get(an[0]) is selft, "entries", q + ":self", "a query node is added to %r" % e.kwargs.get(an[0]), e.where)
            gq, gp = e.kwargs.get(an[1]), e.kwargs.get(an[2])
            gq, gp = (w.pick(gq) if gq is not None else None), (w.pick(gp) if gp is not None else None)
            okq = is_const(gq, ".") if quant == "." else same(gq, quant)
            ctx.oblige(okq, "entries", "%s:%s:%s:quantifier" % (q, ty, sub), "a %s adds a node with quantifier %r" % (desc, gq), e.where)
            if cond is not None:
                ctx.oblige(gp is not None and pred_of(gp, cond), "entries", "%s:%s:%s:predicate" % (q, ty, sub),
                           "a %s adds a node with predicate %r, not with its conditions in the query's multi-index mode" % (desc, gp), e.where)
            else:
                ok = gp is not None and gp.op in ("fn",) and always(ctx, gp)
                ctx.oblige(ok, "entries", "%s:%s:%s:any" % (q, ty, sub), "a %s adds a node that does not match everything" % desc, e.where)
    for e in ip.events:
        if e.kind in ("break",) and e.loops or e.kind == "return" and e.loops:
            ctx.oblige(False, "entries", q + ":early", "entries are left out", e.where)
    inits = [e for e in ip.events if e.kind == "setattr" and e.name == "query_pattern"]
    w = Types(ip, st, env0, {})
    ctx.oblige(any(w.holds(e.guard) is not False and e.idx < adds_[0].idx for e in inits), "entries", q + ":init", "the pattern is not initialised", f.where)


def always(ctx, fn):
    f = ctx.repo.functions.get(fn.a[0])
    if f is None:
        return False
    import ast

    if isinstance(f.node, ast.Lambda):
        return isinstance(f.node.body, ast.Constant) and f.node.body.value is True
    ip, res = ctx.analyze(f.qual)
    return bool(res.returns) and all(is_const(v, True) for g, v in res.returns)


def check_old(ctx):
    for name in ("match", "rel"):
        q = CP + "QueryMatcher." + name
        f = ctx.repo.func(q)
        ip, res = ctx.analyze(q)
        ps = [mk("param", q, n) for n in f.params()[:3]]
        true = attr(ps[0], "true_query")
        calls = [e for e in ip.events if e.kind in ("call", "opaque", "invoke") and e.name.rsplit(".", 1)[-1] == name and (e.obj is true or true in e.args[:1])]
        ok = len(calls) == 1 and not calls[0].guard
        if ok:
            got = [a for a in list(calls[0].args) + [v for k, v in calls[0].kwargs.items()] if a is not true]
            ok = ps[1] in got and ps[2] in got and (calls[0].kwargs or got[:2] == ps[1:3])
        ctx.oblige(ok, "old", q, "%s is not handed on to the query with its quantifier and predicate" % name, f.where)
        ctx.oblige(bool(res.returns) and all(v is ps[0] for g, v in res.returns), "old", q + ":self", "%s does not return the query itself" % name, f.where)
    q = CP + "QueryMatcher.__init__"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(OD + "ObjectQuery.__init__", QQ + "__init__"))
    query = mk("param", q, f.params()[1])
    for ty, cls in (("NoneType", "Query"), ("list", "ObjectQuery"), ("other", None), ("str", None)):
        w = Types(ip, res.state, base_env(ip), {query: ty})
        w.env[mk("truth", query)] = ty != "NoneType" or UNK
        sets = [e for e in ip.events if e.kind == "setattr" and e.name == "true_query" and w.holds(e.guard) is not False]
        raises = [e for e in ip.events if e.kind == "raise" and w.holds(e.guard) is True]
        if cls is None:
            ctx.oblige(bool(raises) and "InvalidQueryPath" in repr(raises[0].value), "old", "%s:%s" % (q, ty), "a %s is accepted as a query" % ty, f.where)
            continue
        v = w.pick(sets[-1].value) if sets else None
        ok = v is not None and w.holds(sets[-1].guard) is True and v.op == "new" and repr(v).startswith("new %s@" % cls)
        if ok and cls == "ObjectQuery":
            n = [e for e in ip.events if e.kind == "new" and e.value is v]
            ok = bool(n) and n[0].args[:1] == (query,)
        ctx.oblige(ok, "old", "%s:%s" % (q, ty), "a QueryMatcher made from %s holds %r" % ("nothing" if cls == "Query" else "a list", v), f.where)


def check(ctx):
    check_add(ctx)
    for n in ("match", "rel", "relation", "_add_node"):
        defaults(ctx, QQ + n, n)
    adds(ctx, QQ + "match", "match", True)
    adds(ctx, QQ + "rel", "rel", False)
    adds(ctx, QQ + "relation", "relation", False)
    check_sizes(ctx)
    check_object(ctx)
    for n in ("match", "rel"):
        defaults(ctx, CP + "QueryMatcher." + n, n)
    check_old(ctx)

"""P07: traversals and paths."""

import ast

from ..gvf import Interp
from ..lib import peel, flat, key_attr
from ..terms import mk, attr, canon, is_const, subterms, restrict, T
from ..repo import AnalysisBroken

TITLE = "traversals reach every node exactly once, in the documented order"
RULE = (
    "Value-flow of the generators Node.traverse, Node.node_order_traverse, Graph.traverse and "
    "Graph.node_order_traverse: order checked before anything is yielded; the visited dictionary is keyed by object "
    "identity, counts every arrival, and only a first arrival continues; the node is yielded once before (pre) or "
    "after (post) the loop over all children; children and roots sorted by frame (respectively node order); every "
    "item of the recursive call is passed on, with the same order, attrs and visited. Node.paths extends every path of "
    "every parent, Node.path raises when there is more than one, len() counts one full traversal."
)
ASSUMPTIONS = ("sorted() is stable and total on the keys",)

ND = "hatchet.node.Node."
GR = "hatchet.graph.Graph."
VALUES = "hatchet.frame.Frame.values"
UNK = object()


def evl(t, env):
    """Evaluate a small term under assignments to some terms; UNK if it
    depends on anything else."""
    if t in env:
        return env[t]
    op, a = t.op, t.a
    if op == "const":
        return a[0]
    if op == "not":
        v = evl(a[0], env)
        return UNK if v is UNK else not v
    if op in ("and", "or"):
        vs = [evl(x, env) for x in a]
        if op == "and":
            return False if any(v is not UNK and not v for v in vs) else (UNK if any(v is UNK for v in vs) else True)
        return True if any(v is not UNK and v for v in vs) else (UNK if any(v is UNK for v in vs) else False)
    if op == "truth":
        v = evl(a[0], env)
        return UNK if v is UNK else bool(v)
    if op == "ite":
        c = evl(a[0], env)
        if c is not UNK:
            return evl(a[1] if c else a[2], env)
        x, y = evl(a[1], env), evl(a[2], env)
        return x if x is not UNK and y is not UNK and x == y else UNK
    if op == "tuple":
        vs = [evl(x, env) for x in a]
        return UNK if any(v is UNK for v in vs) else tuple(vs)
    if op in ("list", "set") and t in env.get("contents", ()):
        cs = env["contents"][t]
        vs = [evl(c[3], env) for c in cs if not c[1] and c[2] is None]
        return UNK if len(vs) != len(cs) or any(v is UNK for v in vs) else vs
    if op == "item":
        b, k = evl(a[0], env), evl(a[1], env)
        if b is UNK or k is UNK:
            return UNK
        try:
            return b[k]
        except (KeyError, TypeError, IndexError):
            return UNK
    if op == "cmp":
        x, y = evl(a[1], env), evl(a[2], env)
        if x is UNK or y is UNK:
            return UNK
        try:
            return {"==": lambda: x == y, "is": lambda: x is y or x == y, "in": lambda: x in y, "<": lambda: x < y,
                    "<=": lambda: x <= y}[a[0]]()
        except (TypeError, KeyError):
            return UNK
    if op == "bin":
        x, y = evl(a[1], env), evl(a[2], env)
        if x is UNK or y is UNK:
            return UNK
        try:
            return {"+": lambda: x + y, "-": lambda: x - y}[a[0]]()
        except (TypeError, KeyError):
            return UNK
    if op == "call" and a[0].op == "ext" and a[0].a[0] == "builtins.len" and len(a[1]) == 1:
        b = evl(a[1][0], env)
        return UNK if b is UNK or not hasattr(b, "__len__") else len(b)
    if op == "call" and a[0].op == "attr" and a[0].a[1] in ("get", "__contains__", "keys"):
        b = evl(a[0].a[0], env)
        vs = [evl(x, env) for x in a[1]]
        if b is UNK or any(v is UNK for v in vs) or not isinstance(b, dict):
            return UNK
        return {"get": lambda: b.get(*vs), "__contains__": lambda: vs[0] in b, "keys": lambda: b}[a[0].a[1]]()
    if op == "call" and a[0].op == "ext" and a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset") and a[1]:
        return evl(a[1][0], env)
    return UNK


def holds(guard, env):
    """True / False / UNK for a conjunction."""
    vs = [evl(l, env) for l in guard]
    if any(v is not UNK and not v for v in vs):
        return False
    return UNK if any(v is UNK for v in vs) else True


def gen_analyze(ctx, q, opaque):
    """Analyse a generator; generators of the repository it hands on (other
    than traversals themselves) are analysed in line."""
    inl = set()
    for _ in range(3):
        ip, res = ctx.analyze(q, opaque=opaque, inline_generators=tuple(inl))
        more = set()
        for e in ip.events:
            if e.kind == "opaque" and e.name not in opaque and e.name != q and e.name not in inl:
                f = ctx.repo.functions.get(e.name)
                if f is not None and f.is_generator:
                    more.add(e.name)
        if not more:
            break
        inl |= more
    return ip, res


def sort_key(ctx, ip, t):
    """(collection, key attribute or None) of a sorted iterable; order is
    ascending only."""
    t = peel(t, ("builtins.list", "builtins.tuple", "builtins.iter"))
    if t.op == "call" and t.a[0] is mk("ext", "builtins.sorted") and t.a[1]:
        kw = dict(t.a[2])
        k = kw.pop("key", None)
        kw.pop("#", None)
        rev = kw.pop("reverse", None)
        if kw or rev is not None and not is_const(rev, False):
            return None, None
        return peel(t.a[1][0]), ("__lt__" if k is None else key_attr(ctx.repo, k))
    return None, None


def calls_of(ip):
    return {e.value: e for e in ip.events if e.kind in ("reccall", "opaque") and e.value is not None}


def delegated(ip, e):
    """The call whose every item a yield passes on."""
    v = e.value
    if v.op == "elem":
        b = peel(v.a[0], ("builtins.list", "builtins.tuple", "builtins.iter"))
        return calls_of(ip).get(b)
    return None


def in_loop(ctx, site):
    """Was a container literal written inside a loop of its function?"""
    qual, line, col = site[1].rsplit(":", 2)
    f = ctx.repo.functions.get(qual)
    if f is None:
        return False
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.While)):
            for b in n.body:
                if b.lineno <= int(line) <= b.end_lineno:
                    return True
    return False


def spoil(ctx, ip, q, rule, what):
    for e in ip.events:
        if e.kind in ("break", "continue") and e.loops:
            ctx.oblige(False, rule, q + ":early", "%s: the loop can be left or items skipped" % what, e.where)
        if e.kind == "return" and e.loops and e.func.is_generator:
            ctx.oblige(False, rule, q + ":early", "%s: the loop can end early" % what, e.where)


def check_node(ctx, name, want):
    q = ND + name
    f = ctx.repo.func(q)
    ip, res = gen_analyze(ctx, q, (VALUES,))
    st = res.state
    P = {p: mk("param", q, p) for p in f.all_params()}
    order, attrs, visited, selft = P["order"], P["attrs"], P["visited"], P["self"]
    calls = calls_of(ip)
    ys = [e for e in ip.events if e.kind == "yield" and e.value.op != "elem" or e.kind == "yield" and delegated(ip, e) is not None]
    ctx.count("yields", len(ys))
    kids = [e for e in ys if delegated(ip, e) is not None and delegated(ip, e).kind == "reccall"]
    if not ctx.oblige(bool(kids), "children", q, "the traversal of the children is not passed on", f.where):
        return
    body = kids[0].func.qual
    own = [e for e in ys if e not in kids and e.func.qual == body]
    for e in ip.events:
        if e.kind == "yield" and e not in ys and not (e.value.op == "elem" and e.value.a[0].op == "gen"):
            ctx.oblige(False, "once", q + ":extra", "%r is yielded besides the node and the items of its children" % e.value, e.where)
    # roles inside the function that recurses
    me = None
    for e in kids:
        r = delegated(ip, e)
        recv = r.obj if r.obj is not None else r.args[0] if r.args else None
        if recv is None or recv.op != "elem":
            recv = next((a for a in r.args if a.op == "elem"), recv)
        col, key = sort_key(ctx, ip, recv.a[0]) if recv is not None and recv.op == "elem" else (None, None)
        ok = col is not None and col.op == "attr" and col.a[1] == "children"
        ctx.oblige(ok, "children", q + ":all", "the recursion runs over %r, not over all children in sorted order" % recv, e.where)
        if not ok:
            continue
        me = col.a[0]
        okk = key == want or (want == "_hatchet_nid" and key == "__lt__")
        ctx.oblige(okk, "sorted", q, "children are visited sorted by %s, not by %s" % (key, want), e.where)
        ctx.oblige(selft in ip.sources(me) or me is selft, "children", q + ":self", "children of %r are visited" % me, e.where)
        ctx.oblige(r.name == body, "children", q + ":same", "the children are visited by %s" % r.name, e.where)
        ctx.oblige(len(e.loops) == 2, "children", q + ":loops", "the items of a child are not all passed on", e.where)
        for p, v in (("order", order), ("attrs", attrs)):
            got = [x for x in r.kwargs.values() if v in ip.sources(x)]
            free = r.name != q and p not in ctx.repo.functions[r.name].all_params()
            ctx.oblige(bool(got) and (p not in r.kwargs or v in ip.sources(r.kwargs[p])) or free, "arguments", q + ":" + p,
                       "the recursive call does not pass %s on" % p, e.where)
    if me is None:
        return
    # the visited dictionary
    key = mk("call", mk("ext", "builtins.id"), (me,), ())
    vis = []
    for e in ip.events:
        if e.kind == "setitem" and e.args and e.args[0] is key:
            vis.append(e)
    if not ctx.oblige(bool(vis), "visited", q, "arrivals are not recorded under id(node)", f.where):
        return
    conts = {e.obj for e in vis}
    merged = {s.a[2] for e in ip.events for l in e.guard for s in subterms(l)
              if s.op == "cmp" and s.a[0] == "in" and s.a[1] is key}
    merged |= {e.obj for e in vis}
    for e in kids:
        r = delegated(ip, e)
        got = [x for x in r.kwargs.values() if x in merged or set(flat(x)) & conts]
        free = not any(set(flat(x)) & conts for x in r.kwargs.values()) and "visited" not in ctx.repo.functions[r.name].all_params()
        ctx.oblige(bool(got) or free, "visited", q + ":passed", "the recursive call gets another visited dictionary", e.where)
    fresh = [c for c in conts if c.op == "dict"]
    for c in fresh:
        ctx.oblige(not st.contents.get(c) or all(x[2] is key for x in st.contents[c]), "visited", q + ":fresh",
                   "the default visited dictionary is not empty", f.where)
    nv = mk("cmp", "is", visited, mk("const", None))
    tv = mk("truth", visited)

    def world(o, given, count, **more):
        d = {} if count is None else {"k": count}
        env = {order: o, key: "k", nv: not given, "contents": st.contents}
        for c in conts | merged:
            if c.op != "ite":
                env[c] = d
        env[me] = "node"
        if me is not selft:
            env[selft] = "node"
        env.update(more)
        return env

    raises = [e for e in ip.events if e.kind == "raise" and e.value is not None and e.value.op == "call"
              and e.value.a[0] is mk("ext", "builtins.ValueError")]
    names = {s.a[0] for e in raises for l in e.guard for s in subterms(l) if s.op == "const" and isinstance(s.a[0], str)}
    for o, bad in [("pre", False), ("post", False), ("other", True)] + [(n, True) for n in sorted(names - {"pre", "post"})]:
        env = world(o, True, None)
        got = [e for e in raises if holds(e.guard, env) is not False]
        sure = [e for e in raises if holds(e.guard, env) is True]
        ctx.oblige(bool(sure) if bad else not got, "order", "%s:%s" % (q, o),
                   "order=%r is %s" % (o, "accepted" if bad else "refused"), f.where)
        if bad and sure:
            first = min(e.idx for e in ys)
            ctx.oblige(sure[0].idx < first and not any(v.idx < sure[0].idx for v in vis), "order", q + ":before",
                       "the order is only checked after the traversal has begun", sure[0].where)
    loopidx = {n: min(x.idx for x in ip.events if x.kind == "loop" and x.name == n) for e in kids for n in e.loops[:1]}
    for o in ("pre", "post"):
        for given, count in ((True, None), (False, None), (True, 1), (True, 2)):
            env = world(o, given, count)
            tag = "%s:%s:%s:%s" % (q, o, "shared" if given else "fresh", count)
            sets = [e for e in vis if holds(e.guard, env) is not False and (e.obj.op != "dict" or not given) and (e.obj.op == "dict" or given)]
            vals = [evl(e.value, env) for e in sets]
            exp = (count or 0) + 1
            ctx.oblige(len(sets) >= 1 and all(holds(e.guard, env) is True for e in sets) and vals[-1] == exp, "visited", tag,
                       "arrival number %d is recorded as %s" % (exp, ["?" if v is UNK else v for v in vals] or "nothing"), f.where)
            mine = [e for e in own if holds(e.guard, env) is not False]
            sure = [e for e in mine if holds(e.guard, env) is True]
            desc = [e for e in kids if holds(e.guard, env) is not False]
            dsure = [e for e in desc if holds(e.guard, env) is True]
            if count is None:
                ctx.oblige(len(sure) == len(mine) == 1, "once", tag, "a node is yielded %d times (%d surely)" % (len(mine), len(sure)), f.where)
                ctx.oblige(len(dsure) == len(desc) == 1, "children", tag, "the children are visited %d times" % len(desc), f.where)
                if len(sure) == 1 and len(dsure) == 1:
                    before = sure[0].idx < loopidx[dsure[0].loops[0]]
                    ctx.oblige(before == (o == "pre") and not sure[0].loops, "position", tag,
                               "in %sorder a node is yielded %s its children" % (o, "before" if before else "after"), sure[0].where)
                    marks = [e.idx for e in sets]
                    ctx.oblige(bool(marks) and max(marks) < min(dsure[0].idx, loopidx[dsure[0].loops[0]]), "visited", tag + ":first",
                               "a node is marked only after its children are visited", dsure[0].where)
            else:
                ctx.oblige(not mine and not desc, "once", tag, "a node reached again is %s again" % ("yielded" if mine else "descended into"), f.where)
    # what is yielded
    na = mk("cmp", "is", attrs, mk("const", None))
    for e in own:
        for given in (False, True):
            lit = mk("not", na) if given else na
            v = restrict(e.value, (lit,) + tuple(e.guard))
            if not given:
                ctx.oblige(v is me or v is selft, "value", q + ":node", "%r is yielded instead of the node" % v, e.where)
            else:
                ok = v.op == "call" and v.a[0].op == "fn" and v.a[0].a[0] == VALUES and v.a[1] and v.a[1][0] is attr(me, "frame")
                if ok:
                    c = calls.get(v)
                    ok = c is not None and attrs in ip.sources(c.kwargs.get("names", mk("const", None)))
                ctx.oblige(ok, "value", q + ":attrs", "%r is yielded instead of frame.values(attrs)" % v, e.where)
    spoil(ctx, ip, q, "children", "children")


def check_graph(ctx, name, want):
    q = GR + name
    f = ctx.repo.func(q)
    ip, res = gen_analyze(ctx, q, (ND + "traverse", ND + "node_order_traverse"))
    selft, order, attrs, visited = (mk("param", q, p) for p in ("self", "order", "attrs", "visited"))
    ys = [e for e in ip.events if e.kind == "yield" and not (e.value.op == "elem" and e.value.a[0].op == "gen")]
    ctx.count("yields", len(ys))
    ctx.oblige(len(ys) == 1, "roots", q, "%d yields, expected one" % len(ys), f.where)
    for e in ys:
        r = delegated(ip, e)
        if r is None and e.value.op == "elem":
            # itertools.chain and the like
            for c in calls_of(ip).values():
                if c.value in set(subterms(e.value)):
                    r = c
        if not ctx.oblige(r is not None and r.name == ND + name, "roots", q + ":call", "%r is yielded, not the items of the roots' %s" % (e.value, name), e.where):
            continue
        recv = r.kwargs.get("self", r.obj)
        col, key = sort_key(ctx, ip, recv.a[0]) if recv.op == "elem" else (None, None)
        ctx.oblige(col is attr(selft, "roots"), "roots", q + ":all", "the traversal runs over %r, not all roots in sorted order" % recv, e.where)
        ctx.oblige(key == want or (want == "_hatchet_nid" and key == "__lt__"), "sorted", q, "roots are visited sorted by %s, not by %s" % (key, want), e.where)
        ctx.oblige(not e.guard and not r.guard, "roots", q + ":guard", "a root is only visited if %r" % (e.guard + r.guard,), e.where)
        ctx.oblige(r.kwargs.get("order") is order, "arguments", q + ":order", "order is not passed on", r.where)
        ctx.oblige(r.kwargs.get("attrs") is attrs, "arguments", q + ":attrs", "attrs is not passed on", r.where)
        v = r.kwargs.get("visited")
        fl = flat(v) if v is not None else []
        ok = visited in fl and any(x.op == "dict" for x in fl) and all(x is visited or x.op == "dict" for x in fl)
        ctx.oblige(ok, "visited", q, "the roots do not share the caller's (or one new) visited dictionary: %r" % v, r.where)
        for x in fl:
            if x.op == "dict":
                ctx.oblige(not in_loop(ctx, x.a[0]) and not res.state.contents.get(x), "visited", q + ":shared",
                           "every root gets its own visited dictionary", r.where)
        if v is not None and v.op == "ite":
            ctx.oblige(v.a[0] in (mk("cmp", "is", visited, mk("const", None)),), "visited", q + ":caller",
                       "the caller's visited dictionary is only used unless %r" % v.a[0], r.where)
    spoil(ctx, ip, q, "roots", "roots")


def entries(ip, st, t, depth=0):
    """(guard, loops, value) of everything a list is made of."""
    t = peel(t, ("builtins.list", "builtins.tuple"))
    out = []
    if t.op in ("list", "set") and t in st.contents and depth < 6:
        for g, l, k, v in st.contents[t]:
            if v.op == "star":
                for g2, l2, v2 in entries(ip, st, v.a[0], depth + 1):
                    out.append((tuple(g) + tuple(x for x in g2 if x not in g), l2 if len(l2) >= len(l) else l, v2))
            else:
                out.append((g, l, v))
        return out
    if t.op == "bin" and t.a[0] == "+":
        return entries(ip, st, t.a[1], depth + 1) + entries(ip, st, t.a[2], depth + 1)
    if t.op == "mu":
        for x in ip.mu.get(t, ()):
            if x is not t and t not in set(subterms(x)):
                out += entries(ip, st, x, depth + 1)
            elif x.op == "bin":
                for y in x.a[1:]:
                    if y is not t:
                        out += entries(ip, st, y, depth + 1)
        return out
    return [((), (), mk("star", t))]


def spliced(t):
    """Components of a tuple expression."""
    if t.op == "tuple":
        return [("*", x.a[0]) if x.op == "star" else x for x in t.a]
    if t.op == "bin" and t.a[0] == "+":
        return spliced(t.a[1]) + spliced(t.a[2])
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.tuple" and len(t.a[1]) == 1:
        return spliced(t.a[1][0])
    return [("*", t)]


def check_paths(ctx):
    q = ND + "paths"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    st = res.state
    selft = mk("param", q, "self")
    par = attr(selft, "parents")
    rec = [e for e in ip.events if e.kind == "reccall" and e.name == q]
    seen = {True: 0, False: 0}
    for has in (False, True):
        env = {mk("truth", par): has}
        # a list filled only while looping over the parents is empty for a root
        for c, es in st.contents.items():
            if c.op == "list" and es and all(x[1] for x in es) and par in {s for x in es for s in subterms(x[3])} | {
                    s for x in es if x[3].op == "star" for y in st.contents.get(x[3].a[0], ()) for s in subterms(y[3])}:
                env[mk("truth", c)] = has
        for g, v in res.returns:
            h = [evl(l, env) for l in ([g] if isinstance(g, T) else g)]
            if any(x is not UNK and not x for x in h):
                continue
            v = restrict(v, tuple(k if b else mk("not", k) for k, b in env.items()))
            for x in flat(v):
                if x.op == "list" and st.contents.get(x) and in_loop(ctx, x.a[0]):
                    ctx.oblige(False, "paths", q + ":last", "only the paths of one parent are kept", f.where)
                for g2, loops, item in entries(ip, st, x):
                    if any(evl(l, env) is False for l in g2):
                        continue
                    cs = spliced(item)
                    if not has:
                        if par in set(subterms(item)):
                            continue
                        seen[False] += 1
                        ctx.oblige(cs == [selft], "paths", q + ":root", "the path of a root is %r" % item, f.where)
                    else:
                        if cs == [selft]:
                            ctx.oblige(False, "paths", q + ":extra", "a node with parents has a path without them", f.where)
                            continue
                        seen[True] += 1
                        ok = len(cs) == 2 and cs[1] is selft and isinstance(cs[0], tuple)
                        ctx.oblige(ok, "paths", q + ":step", "a path is %r, not a parent's path followed by the node" % item, f.where)
                        if ok:
                            p = cs[0][1]
                            call = calls_of(ip).get(peel(p.a[0])) if p.op == "elem" else None
                            ok = call is not None and call.kind == "reccall"
                            ctx.oblige(ok, "paths", q + ":all", "%r does not run over all paths of a parent" % p, f.where)
                            if ok:
                                o = call.kwargs.get("self")
                                ctx.oblige(o.op == "elem" and peel(o.a[0]) is par, "paths", q + ":parents", "paths of %r are extended, not of every parent" % o, f.where)
                        extra = [l for l in g2 if evl(l, env) is UNK]
                        ctx.oblige(not extra, "paths", q + ":guard", "a path is only kept if %r" % extra, f.where)
    ctx.oblige(seen[False] == 1, "paths", q + ":roots", "a node without parents has %d paths" % seen[False], f.where)
    ctx.oblige(seen[True] == 1, "paths", q + ":nodes", "the parents' paths are collected %d times" % seen[True], f.where)
    ctx.count("recursive path calls", len(rec))
    for e in ip.events:
        if e.kind in ("break", "continue") or e.kind == "return" and e.loops and e.stack == (q,):
            ctx.oblige(False, "paths", q + ":early", "not all parents or paths are visited", e.where)
    q = ND + "path"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(ND + "paths",))
    pc = [e for e in ip.events if e.kind == "opaque" and e.name == ND + "paths" and e.kwargs.get("self") is mk("param", q, "self")]
    if ctx.oblige(bool(pc), "path", q, "path() is not taken from paths()", f.where):
        pt = pc[0].value
        for n in (1, 2, 3):
            env = {}
            for e in ip.events:
                for l in e.guard:
                    for s in subterms(l):
                        if s.op == "call" and s.a[0] is mk("ext", "builtins.len") and s.a[1] and s.a[1][0] is pt:
                            env[s] = n
            env[pt] = ["p%d" % i for i in range(n)]
            rs = [e for e in ip.events if e.kind == "raise" and e.value is not None and "MultiplePathError" in repr(e.value)]
            hit = [e for e in rs if holds(e.guard, env) is not False]
            if n == 1:
                ctx.oblige(not hit, "path", q + ":one", "path() raises for a single path", f.where)
            else:
                ctx.oblige(any(holds(e.guard, env) is True for e in hit), "path", q + ":%d" % n, "path() does not raise MultiplePathError for %d paths" % n, f.where)
        for g, v in res.returns:
            got = evl(v, {pt: ["p0"]})
            ctx.oblige(got == "p0", "path", q + ":value", "path() returns %r" % v, f.where)
    q = GR + "__len__"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    selft = mk("param", q, "self")
    for g, v in res.returns:
        ok = False
        for x in flat(v):
            ok = False
            if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.sum", "builtins.len") and x.a[1]:
                c = x.a[1][0]
                if x.a[0].a[0] == "builtins.len":
                    c0 = peel(c)
                    if full_traversal(c0, selft):
                        ok = True
                    elif c0 in res.state.contents:
                        cs = res.state.contents[c0]
                        ok = len(cs) == 1 and not cs[0][0] and not cs[0][1] and cs[0][3].op == "star" and full_traversal(cs[0][3].a[0], selft)
                        ok = ok or len(cs) == 1 and not cs[0][0] and one_per_node(ip, cs[0][1], selft)
                else:
                    cs = res.state.contents.get(peel(c), ())
                    ok = len(cs) == 1 and not cs[0][0] and is_const(cs[0][3], 1) and one_per_node(ip, cs[0][1], selft)
            elif is_const(x, 0) or x.op == "bin" and x.a[0] == "+" and x.a[1].op == "mu":
                if is_const(x, 0) and len(flat(v)) == 1:
                    break
                x = next((y.a[1] for y in flat(v) if y.op == "bin"), x)
                vs = ip.mu.get(x, [])
                ok = any(is_const(y, 0) for y in vs) and all(
                    is_const(y, 0) or y.op == "bin" and y.a[0] == "+" and set(y.a[1:]) == {x, mk("const", 1)} for y in vs)
                ok = ok and sum(1 for e in ip.events if e.kind == "loop" and full_traversal(peel(e.obj), selft)) == 1
            if not ok:
                break
        ctx.oblige(ok and g is not None and not _lits(g), "len", q, "len(graph) is %r, not the number of traversed nodes" % v, f.where)


def _lits(g):
    if isinstance(g, T):
        return [] if g.op == "const" else [g]
    return list(g)


def full_traversal(t, selft):
    return (t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0] in (GR + "traverse", GR + "node_order_traverse")
            and t.a[1] and t.a[1][0] is selft and not [k for k, v in t.a[2] if k not in ("order", "attrs", "#")])


def one_per_node(ip, loops, selft):
    return len(loops) == 1 and any(e.kind == "loop" and e.name == loops[0] and full_traversal(peel(e.obj), selft) for e in ip.events)


def check_values(ctx):
    q = VALUES
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    selft, names = mk("param", q, "self"), mk("param", q, "names")
    A = attr(selft, "attrs")

    def got(t, k):
        return t.op == "call" and t.a[0] is attr(A, "get") and len(t.a[1]) in (1, 2) and t.a[1][0] is k and (
            len(t.a[1]) == 1 or is_const(t.a[1][1], None)) or t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0].endswith("Frame.get") and t.a[1][-1] is k

    one = many = False
    for g, v in res.returns:
        for x in flat(v):
            if got(x, names):
                one = True
                continue
            cs = entries(ip, res.state, x)
            el = [s for c in cs for s in subterms(c[2]) if s.op == "elem" and s.a[0] is names]
            ok = len(cs) == 1 and len(cs[0][1]) == 1 and bool(el) and got(cs[0][2], el[0])
            if ok:
                ok = not [l for l in cs[0][0] if not any(s.op == "ext" and s.a[0] == "builtins.isinstance" for s in subterms(l))]
            ctx.oblige(ok, "value", q + ":many", "values(names) returns %r, not one value per name in order" % x, f.where)
            many = many or ok
    ctx.oblige(one, "value", q + ":one", "values(name) does not return the attribute", f.where)
    ctx.oblige(many, "value", q + ":tuple", "values(names) does not return one value per name", f.where)


def check(ctx):
    for name, want in (("traverse", "frame"), ("node_order_traverse", "_hatchet_nid")):
        if ctx.repo.functions.get(ND + name) is None or ctx.repo.functions.get(GR + name) is None:
            raise AnalysisBroken("%s is gone" % name)
        check_node(ctx, name, want)
        check_graph(ctx, name, want)
    check_values(ctx)
    check_paths(ctx)

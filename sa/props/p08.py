"""P08: comparison, ordering and hashing of frames, nodes and graphs."""

import ast

from ..lib import peel, flat, key_attr
from ..terms import mk, attr, canon, is_const, subterms, T, const
from ..repo import AnalysisBroken
from .p07 import evl, holds, UNK, entries, in_loop

TITLE = "comparison, ordering and hashing of frames, nodes and graphs"
RULE = (
    "Every comparison and hash of Frame (Node) is the same relation over one and the same key, the sorted items of all "
    "attributes (the node id); the cached key can never go stale because no function of the repository writes a frame's "
    "attributes after construction. Graph equality: path-condition evaluation of Graph.__eq__ and Node.dag_equal in every "
    "world of child counts, frame agreement and earlier matches of the pair."
)
ASSUMPTIONS = ("attribute values of equal keys are comparable (as sorting frames needs)",)
FR = "hatchet.frame.Frame."
ND = "hatchet.node.Node."
GR = "hatchet.graph.Graph."
MUT = {"update", "pop", "setdefault", "clear", "popitem", "__setitem__", "__delitem__"}
OPS = {"__eq__": ("==", False), "__lt__": ("<", False), "__gt__": ("<", True), "__le__": ("<=", False),
       "__ge__": ("<=", True), "__ne__": ("==", None)}


def relation(ctx, cls, prefix, keyname, opaque):
    selft = lambda q: mk("param", q, "self")
    have = {}
    info = ctx.repo.classes.get(cls)
    for m, (op, swap) in OPS.items():
        q = prefix + m
        if q not in ctx.repo.functions:
            continue
        have[m] = True
        f = ctx.repo.func(q)
        ip, res = ctx.analyze(q, opaque=opaque)
        s, o = selft(q), mk("param", q, f.all_params()[1])
        key = lambda x: keyterm(ctx, ip, x, keyname)
        for g, v in res.returns:
            for x in flat(v):
                if x.op == "ext" and x.a[0].endswith("NotImplemented") or is_const(x, NotImplemented):
                    continue
                neg = x.op == "not"
                y = x.a[0] if neg else x
                ok = y.op == "cmp"
                if ok:
                    yop, a, b = y.a[0], y.a[1], y.a[2]
                    if neg and yop in ("<", "<="):
                        yop, a, b, neg = {"<": "<=", "<=": "<"}[yop], b, a, False
                    pair = (isk(a, s, keyname), isk(b, o, keyname)) if yop != "==" or isk(a, s, keyname) else (isk(b, s, keyname), isk(a, o, keyname))
                    rev = (isk(a, o, keyname), isk(b, s, keyname))
                    if m == "__ne__":
                        ok = neg and yop == "==" and (all(pair) or {a, b} == {s, o})
                    elif swap:
                        ok = not neg and yop == op and all(rev)
                    else:
                        ok = not neg and yop == op and all(pair)
                ctx.oblige(ok, "relation", q, "%s compares %r, not the two %s" % (m, x, keyname), f.where)
                ctx.count("comparisons")
    q = prefix + "__hash__"
    if ctx.oblige(q in ctx.repo.functions, "hash", q, "no __hash__ beside __eq__", prefix):
        f = ctx.repo.func(q)
        ip, res = ctx.analyze(q, opaque=opaque)
        for g, v in res.returns:
            for x in flat(v):
                if x.op == "call" and x.a[0] is mk("ext", "builtins.hash") and len(x.a[1]) == 1:
                    x = x.a[1][0]
                ctx.oblige(isk(x, selft(q), keyname), "hash", q + ":key", "the hash is taken of %r, equality compares %s" % (x, keyname), f.where)
    for m in ("__eq__", "__lt__"):
        ctx.oblige(m in have, "relation", prefix + m, "%s is not defined" % m, prefix)
    deco = any("total_ordering" in ast.dump(d) for d in info.node.decorator_list) if info is not None else False
    ctx.oblige(deco or {"__le__", "__ge__", "__gt__"} <= set(have), "total", prefix + "ordering",
               "neither total_ordering nor all comparison methods", prefix)


def isk(t, base, keyname):
    if t is attr(base, keyname):
        return True
    return t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0].endswith("." + keyname) and len(t.a[1]) == 1 and t.a[1][0] is base


def keyterm(ctx, ip, x, keyname):
    return attr(x, keyname)


def check_tuple(ctx):
    q = FR + "tuple_repr"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    st = res.state
    selft = mk("param", q, "self")
    A = attr(selft, "attrs")
    kv = mk("tuple", mk("key", A), mk("val", A))
    ok_vals = {attr(selft, "_tuple_repr")}
    for g, v in res.returns:
        for x in flat(v):
            if x in ok_vals:
                continue
            srt = False
            y = x
            es = []
            work = [x]
            while work:
                y = work.pop()
                if y.op == "call" and y.a[0] is mk("ext", "builtins.sorted"):
                    srt = not [k for k, _ in y.a[2] if k == "reverse"] and srt or not y.a[2]
                    work.append(y.a[1][0])
                elif y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0] in ("builtins.tuple", "builtins.list") and y.a[1]:
                    work.append(y.a[1][0])
                elif y.op == "call" and y.a[0] is attr(A, "items"):
                    es.append((None, kv))
                elif y.op == "list" and st.contents.get(y):
                    for c in st.contents[y]:
                        if c[3].op == "star":
                            work.append(c[3].a[0])
                        else:
                            es.append((c, canon(c[3])))
                else:
                    es.append((None, y))
            ctx.oblige(srt, "key", q + ":sorted", "the key depends on the order of the attributes", f.where)
            items = [e for c, e in es]
            ok = len(es) == 1 and (items[0] is kv or items[0].op == "elem" and items[0].a[0] is mk("call", attr(A, "items"), (), ()))
            ctx.oblige(ok, "key", q + ":items", "the key is made of %r, not of all attribute names and values" % items, f.where)
            if ok and es[0][0] is not None:
                extra = [l for l in es[0][0][0] if attr(selft, "_tuple_repr") not in set(subterms(l))]
                ctx.oblige(not extra, "key", q + ":all", "attributes enter the key only if %r" % extra, f.where)
    for e in ip.events:
        if e.kind == "setattr" and e.name == "_tuple_repr":
            rets = {x for g, v in res.returns for x in flat(v)}
            ctx.oblige(set(flat(e.value)) <= rets, "key", q + ":cache", "the cached key %r is not the returned one" % e.value, e.where)


def check_frame_init(ctx):
    q = FR + "__init__"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    st = res.state
    selft, attrs = mk("param", q, "self"), mk("param", q, "attrs")
    A = res.state.heap.get((selft, "attrs"))
    if not ctx.oblige(A is not None, "construct", q, "no attributes are stored", f.where):
        return
    for given in (True, False):
        for kwg in (True, False):
            env = {mk("truth", attrs): given, mk("cmp", "is", attrs, const(None)): not given}
            kws = [s for e in ip.events for t in list(e.guard) + list(e.args) for s in subterms(t) if s.op not in ("const",) and "kwargs" in repr(s) and s.op in ("param", "kwparam", "opaque", "dict", "star")]
            for k in set(kws):
                env[mk("truth", k)] = kwg
            if not given and not kwg:
                continue
            v = evalterm(A, env)
            ok = v is not None and v.op == "dict"
            ctx.oblige(ok, "construct", q + ":dict:%s:%s" % (given, kwg), "the attributes are %r" % A, f.where)
            if not ok:
                continue
            order, typ = [], 0
            for g, loops, k, val in st.contents.get(v, ()):
                h = holds([l for l in g if not any(is_const(s, "type") for s in subterms(l))], env)
                if h is False:
                    continue
                if k is not None and is_const(k, "**"):
                    order.append("kwargs")
                elif val.op == "star":
                    src = evalterm(val.a[0], env)
                    if src is not None and src.op == "dict" and not st.contents.get(src):
                        continue
                    if src is attrs and not given:
                        continue
                    val = src if src is not None else val
                    order.append("attrs" if attrs in set(subterms(val)) else "kwargs" if "kwargs" in repr(val) else "?")
                elif k is not None and is_const(k, "type"):
                    cond = [l for l in g if any(is_const(s, "type") for s in subterms(l))]
                    typ += 1
                    ok = is_const(val, "None") and bool(cond) and all(l.op == "not" and l.a[0].op == "cmp" and l.a[0].a[0] == "in" for l in cond)
                    ok = ok or is_const(val, "None") and setdefault_type(ip, v)
                    first = any(x in ("attrs", "kwargs") for x in order) or val.op == "const"
                    ctx.oblige(ok, "construct", q + ":type", "the type attribute is set to %r if %r" % (val, cond), f.where)
                else:
                    order.append("?")
            want = (["attrs"] if given else []) + (["kwargs"] if kwg else [])
            seq = [x for x in order]
            if "kwargs" in seq and not kwg:
                seq = [x for x in seq if x != "kwargs"]
            ctx.oblige([x for x in seq] == want, "construct", q + ":order:%s:%s" % (given, kwg),
                       "attributes come from %s, expected %s (keywords win)" % (seq, want), f.where)
            ctx.oblige(typ == 1 or setdefault_type(ip, v), "construct", q + ":default", "no default type", f.where)
    rs = [e for e in ip.events if e.kind == "raise" and e.value is not None and "ValueError" in repr(e.value)]
    ctx.oblige(bool(rs), "construct", q + ":empty", "a frame without attributes is accepted", f.where)


def setdefault_type(ip, d):
    return any(e.kind == "call" and e.name == "setdefault" and d in flat(e.obj) and e.args and is_const(e.args[0], "type")
               and len(e.args) > 1 and is_const(e.args[1], "None") for e in ip.events)


def evalterm(t, env):
    while t.op == "ite":
        c = evl(t.a[0], env)
        if c is UNK:
            return None
        t = t.a[1] if c else t.a[2]
    return t


def check_frozen(ctx):
    """No function writes a frame's attributes or cached key after construction."""
    for q, f in sorted(ctx.repo.functions.items()):
        if "<lambda>" in q or ".tests." in q:
            continue
        try:
            ip, res = ctx.analyze(f, no_inline=lambda fi: True)
        except AnalysisBroken:
            ctx.count("functions not scanned")
            continue
        ctx.count("functions scanned for writes to frames")
        init = q.endswith("Frame.__init__")
        selft = mk("param", q, f.all_params()[0]) if f.all_params() else None
        for e in ip.events:
            if e.obj is None:
                continue
            if e.kind == "setattr" and e.name in ("attrs", "_tuple_repr"):
                inside = q.startswith(FR)
                okay = inside and (e.name == "_tuple_repr" or init or e.obj.op == "new")
                helper = inside and selft is e.obj
                ctx.oblige(okay or helper and called_only_by_init(ctx, q), "frozen", q + ":" + e.name,
                           "%s of %r is replaced after construction (its hash and order change)" % (e.name, e.obj), e.where)
            elif e.kind in ("setitem", "delitem") or e.kind == "call" and e.name in MUT or e.kind == "delattr":
                for s in ip.sources(e.obj):
                    if s.op == "attr" and s.a[1] == "attrs" and not (q.startswith(FR) and (init or called_only_by_init(ctx, q))):
                        ctx.oblige(False, "frozen", q + ":attrs", "the attributes of %r are modified after construction (its hash and order change)" % s.a[0], e.where)
            if e.kind == "setattr" and e.name == "frame" and not q.endswith("Node.__init__"):
                ctx.oblige(e.obj.op == "new", "frozen", q + ":frame", "the frame of %r is replaced" % e.obj, e.where)
    ctx.oblige(True, "frozen", "repository", "")


def called_only_by_init(ctx, q):
    name = q.rsplit(".", 1)[1]
    for r, f in ctx.repo.functions.items():
        if r.endswith("Frame.__init__") or r == q:
            continue
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == name:
                return False
    return True


# ------------------------------------------------------------------ graphs


def pairs(ctx, ip, loops_of):
    """zip loops over two frame-sorted collections: (event, left, right)."""
    out = []
    for e in ip.events:
        if e.kind == "loop" and e.obj is not None:
            o = peel(e.obj, ("builtins.list", "builtins.iter", "builtins.tuple"))
            if o.op == "call" and o.a[0].op == "ext" and o.a[0].a[0] in ("builtins.zip", "itertools.zip_longest") and len(o.a[1]) == 2:
                sides = []
                for x in o.a[1]:
                    x = peel(x, ("builtins.list", "builtins.iter", "builtins.tuple"))
                    if x.op == "call" and x.a[0] is mk("ext", "builtins.sorted") and x.a[1]:
                        kw = dict(x.a[2])
                        kw.pop("#", None)
                        k = kw.pop("key", None)
                        sides.append((peel(x.a[1][0]), key_attr(ctx.repo, k), not kw))
                    else:
                        sides.append((x, None, False))
                out.append((e, sides[0], sides[1]))
    return out


def bools(ip, res, q):
    """(guard, loops, value, idx) of everything that decides the result: returns
    of the function, with all(...)/any(...) over a comprehension opened."""
    out = []
    for e in ip.events:
        if e.kind == "return" and e.stack == (q,):
            v = e.value if e.value is not None else const(None)
            out.append((tuple(e.guard), e.loops, v, e))
    return out


def check_eq(ctx):
    # Graph.__eq__
    q = GR + "__eq__"
    f = ctx.repo.func(q)
    DE = ND + "dag_equal"
    ip, res = ctx.analyze(q, opaque=(DE, GR + "__len__"))
    s, o = mk("param", q, "self"), mk("param", q, f.all_params()[1])
    compare(ctx, q, f, ip, res, s, o, "roots", False)
    q = DE
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    s, o = mk("param", q, "self"), mk("param", q, "other")
    compare(ctx, q, f, ip, res, s, o, "children", True)
    q = GR + "__ne__"
    if q in ctx.repo.functions:
        f = ctx.repo.func(q)
        ip, res = ctx.analyze(q, opaque=(GR + "__eq__",))
        s, o = mk("param", q, "self"), mk("param", q, f.all_params()[1])
        for g, v in res.returns:
            ok = v.op == "not"
            if ok:
                x = v.a[0]
                x = x.a[0] if x.op == "truth" else x
                ok = x.op == "cmp" and x.a[0] == "==" and {x.a[1], x.a[2]} == {s, o} or (
                    x.op == "call" and x.a[0].op == "fn" and x.a[0].a[0] == GR + "__eq__" and set(x.a[1]) == {s, o})
            ctx.oblige(ok, "equality", q, "!= is %r, not the negation of ==" % v, f.where)


def compare(ctx, q, f, ip, res, s, o, field, node):
    st = res.state
    rec = [e for e in ip.events if e.kind in ("reccall", "opaque") and e.name == ND + "dag_equal"]
    if not ctx.oblige(bool(rec), "equality", q + ":recursion", "the %s are never compared recursively" % field, f.where):
        return
    L, R = attr(s, field), attr(o, field)
    ps = pairs(ctx, ip, None)
    good = [(e, l, r) for e, l, r in ps if {l[0], r[0]} == {L, R}]
    if not ctx.oblige(bool(good), "equality", q + ":pairs", "the %s of both sides are not compared pairwise" % field, f.where):
        return
    ctx.oblige(len(good) == 1 and len(ps) == 1, "equality", q + ":one", "the %s are paired %d times" % (field, len(ps)), f.where)
    ev, l, r = good[0]
    for side in (l, r):
        ctx.oblige(side[1] == "frame" and side[2], "equality", q + ":sorted", "the %s are not paired in the order of their frames" % field, ev.where)
    for e in rec:
        a, b = e.kwargs.get("self"), e.kwargs.get("other")
        okp = canon(a) is canon(mk("elem", L)) and canon(b) is canon(mk("elem", R)) or canon(a) is canon(mk("elem", R)) and canon(b) is canon(mk("elem", L))
        ctx.oblige(okp and ev.name in e.loops, "equality", q + ":pair", "%r is compared with %r" % (a, b), e.where)
    e0 = rec[0]
    a, b = e0.kwargs["self"], e0.kwargs["other"]
    vs, vo = e0.kwargs.get("vs"), e0.kwargs.get("vo")
    swapped = canon(a) is canon(mk("elem", R)) and canon(a) is not canon(mk("elem", L))

    def alts(t):
        return {x for x in flat(t)} if t is not None else set()

    # the two records of matched nodes
    bad = vs is None or vo is None or alts(vs) & alts(vo) or is_const(vs, None) or is_const(vo, None)
    ctx.oblige(not bad, "matched", q + ":records", "the comparison does not carry two separate records of matched nodes", e0.where)
    if bad:
        return
    for t in alts(vs) | alts(vo):
        if t.op in ("dict", "set"):
            ctx.oblige(not in_loop(ctx, t.a[0]), "matched", q + ":fresh", "the record of matched nodes is new for every pair", e0.where)
    if node:
        pv, po = mk("param", q, "vs"), mk("param", q, "vo")
        ctx.oblige(pv in alts(vs) and po in alts(vo), "matched", q + ":passed", "the records given by the caller are not passed on", e0.where)
    IDS, IDO, IDA, IDB = (mk("call", mk("ext", "builtins.id"), (x,), ()) for x in (s, o, a, b))
    # worlds
    n_l, n_r = (mk("call", mk("ext", "builtins.len"), (x,), ()) for x in (L, R))
    tot = {}
    for e in ip.events:
        for g in list(e.guard) + ([e.value] if e.kind == "return" and isinstance(e.value, T) else []):
            for x in subterms(g):
                if x.op == "call" and (x.a[0].op == "fn" and x.a[0].a[0] == GR + "__len__" or x.a[0] is mk("ext", "builtins.len")) and x.a[1] and x.a[1][0] in (s, o):
                    tot[x] = 0 if x.a[1][0] is s else 1
    fa, fb = attr(a, "frame"), attr(b, "frame")

    def world(counts=(2, 2), total=(5, 5), frames=("f", "f"), ins=None, ino=None, recursion=True, same=False, given=True):
        dvs = {"x": "y"}
        dvo = {"y": "x"}
        if ins is not None:
            dvs["a"] = ins
        if ino is not None:
            dvo["b"] = ino
        env = {n_l: counts[0], n_r: counts[1], fa: frames[0], fb: frames[1], IDA: "a", IDB: "b", IDS: "s", IDO: "o",
               mk("cmp", "is", s, o): same, mk("cmp", "is", a, b): False, "contents": st.contents}
        for t, i in tot.items():
            env[t] = total[i]
        for t, d in ((vs, dvs), (vo, dvo)):
            for x in alts(t):
                env[x] = d
            env[t] = d
        for p in ("vs", "vo"):
            env[mk("cmp", "is", mk("param", q, p), const(None))] = not given
        for e in rec:
            env[e.value] = recursion
            env[mk("truth", e.value)] = recursion
        # emptiness of the collections
        env[mk("truth", L)], env[mk("truth", R)] = counts[0] > 0, counts[1] > 0
        return env

    def outcome(env):
        """Which returns surely / possibly happen in this world, in order."""
        out = []
        for e in ip.events:
            if e.kind != "return" or e.stack != (q,):
                continue
            h = holds(e.guard, env)
            if h is False:
                continue
            v = e.value
            r = evl(v, env)
            if r is UNK and v is not None:
                r = opened(v, env)
            out.append((h, r, e))
        return out

    def opened(v, env):
        """all(...)/not any(...) over the pairs."""
        neg = v.op == "not"
        x = v.a[0] if neg else v
        x = x.a[0] if x.op == "truth" else x
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.all", "builtins.any") and x.a[1]:
            al = x.a[0].a[0].endswith("all")
            vals = []
            for g, loops, val in entries(ip, st, x.a[1][0]):
                h = holds(g, env)
                if h is False:
                    continue
                r = evl(val, env) if h is True else UNK
                vals.append(r)
            if any(y is UNK for y in vals):
                return UNK
            r = all(vals) if al else any(vals)
            return (not r) if neg else r
        if v.op == "and":
            vals = [evl(y, env) if evl(y, env) is not UNK else opened(y, env) for y in v.a]
            if any(y is False for y in vals):
                return False
            return UNK if any(y is UNK for y in vals) else True
        return UNK

    def decide(env):
        """First sure return's value; a possible return before it makes it unknown."""
        for h, r, e in outcome(env):
            if h is True:
                if r is True and ev.name in e.loops:
                    return UNK, e
                return (r if r is UNK else bool(r)), e
            return UNK, e
        return UNK, None

    def expect(name, env, want, msg, runs=None):
        r, e = decide(env)
        where = e.where if e is not None else f.where
        ctx.oblige(r is want, "equality", q + ":" + name, "%s: the result is %s" % (msg, "undecided" if r is UNK else r), where)
        if runs is not None:
            got = [x for x in rec if holds(x.guard, env) is not False]
            ctx.oblige(bool(got) == runs, "equality", q + ":" + name + ":recursion",
                       "%s: the pair is %scompared recursively" % (msg, "" if got else "not "), f.where)

    for given in ((True, False) if node else (True,)):
        tag = "" if given else ":fresh"
        expect("equal" + tag, world(given=given), True, "same counts, same frames, equal below", True)
        expect("counts" + tag, world(counts=(2, 3), given=given), False, "different numbers of %s" % field)
        expect("counts2" + tag, world(counts=(3, 2), given=given), False, "different numbers of %s" % field)
        expect("frames" + tag, world(frames=("f", "g"), given=given), False, "a pair of different frames")
        expect("frames2" + tag, world(frames=("g", "f"), given=given), False, "a pair of different frames")
        expect("below" + tag, world(recursion=False, given=given), False, "a pair that differs below")
    if not node:
        expect("same", world(same=True, counts=(2, 3)), True, "the same graph object")
    if node:
        expect("left", world(ins="b"), False, "only the left node was matched before") if not swapped else None
        expect("left", world(ins="b"), False, "only one of the pair was matched before", None)
        expect("right", world(ino="a"), False, "only one of the pair was matched before", None)
        expect("matched", world(ins="b", ino="a", recursion=False), True, "both were matched to each other before", False)
        expect("crossed", world(ins="c", ino="d"), False, "both were matched to other nodes before", False)
        expect("frames-matched", world(ins="b", ino="a", frames=("f", "g")), False, "a pair of different frames")
        # marks before the pairs are visited
        for rec_t, kid, vid, what in ((vs, IDS, IDO, "vs"), (vo, IDO, IDS, "vo")):
            for given in (True, False):
                env = world(given=given)
                ms = [e for e in ip.events if e.kind == "setitem" and e.obj in alts(rec_t) and e.args and e.args[0] is kid
                      and (e.obj.op in ("dict",)) != given]
                ok = bool(ms) and all(holds(e.guard, env) is True or holds(e.guard, env) is UNK for e in ms) and any(
                    e.value is vid and e.idx < ev.idx and not e.loops for e in ms if holds(e.guard, env) is True)
                ctx.oblige(ok, "matched", q + ":" + what + (":given" if given else ":fresh"),
                           "a node is not recorded with its counterpart before its children are compared", f.where)


def check(ctx):
    relation(ctx, "hatchet.frame.Frame", FR, "tuple_repr", (FR + "tuple_repr",))
    relation(ctx, "hatchet.node.Node", ND, "_hatchet_nid", ())
    check_tuple(ctx)
    check_frame_init(ctx)
    check_frozen(ctx)
    check_eq(ctx)
    ctx.need("comparisons", 5)
    ctx.need("functions scanned for writes to frames", 300)

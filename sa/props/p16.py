"""P16: squash keeps exactly the rows' nodes, their ancestry and their values."""

from ..lib import (strip_copy, Members, implies, consistent, frame_origin, peel, flat, image, is_nan_sum, is_first,
                   mentions, replace, key_attr)
from ..terms import mk, attr, canon, neg, b_and, b_or, restrict, is_const, subterms, TRUE
from ..repo import AnalysisBroken

TITLE = "squash keeps exactly the table's nodes, their ancestry and their rows"
RULE = (
    "Value-flow of GraphFrame.squash with its recursive rewiring inlined: one new node with the same frame and id per "
    "node of the table; the rewiring visits every root and every child of a node not visited before, connects what a "
    "node stands for (its own image, or what is reachable below a removed node) to the nearest kept ancestor or to the "
    "roots, and hands that on to the caller; the table's node column is mapped through the same images and then through "
    "the merges of the normalisation, grouped by its own index levels, metrics summed with NaN kept when all values are "
    "NaN, other columns' first value; inclusive columns updated when asked for; merging joins parents, children and "
    "roots through the merge map."
)
ASSUMPTIONS = ("pandas groupby sums and first values",)

GF = "hatchet.graphframe.GraphFrame"
GR = "hatchet.graph.Graph."
UPD = GF + ".update_inclusive_columns"
NORM = GR + "normalize"
ENUM = GR + "enumerate_traverse"


def node_column(t, src):
    """t selects the node column/level of src's table: the unfiltered column."""
    t = peel(t, ("builtins.list", "builtins.tuple", "builtins.set", "builtins.sorted", "pandas.unique", "builtins.frozenset", "builtins.iter"))
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("unique", "tolist", "drop_duplicates", "get_level_values", "to_list"):
        if t.a[0].a[1] == "get_level_values":
            b = t.a[0].a[0]
            return b.op == "attr" and b.a[1] == "index" and table(b.a[0], src) and len(t.a[1]) == 1 and is_const(t.a[1][0], "node")
        return node_column(t.a[0].a[0], src)
    if t.op == "attr" and t.a[1] == "values":
        return node_column(t.a[0], src)
    return t.op == "item" and is_const(t.a[1], "node") and table(t.a[0], src)


def table(t, src):
    """t is src's table, copied or with its index reset."""
    for _ in range(10):
        t = strip_copy(t)
        if t is src:
            return True
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("reset_index", "set_index"):
            t = t.a[0].a[0]
            continue
        return False
    return False


class S:
    pass


def check_squash(ctx):
    q = GF + ".squash"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(UPD, NORM, ENUM))
    selft = mk("param", q, "self")
    DFT = attr(selft, "dataframe")
    contents = res.state.contents
    W = f.where

    # -------- 1. one image per node of the table
    O = None
    img = set()
    for d, cs in contents.items():
        if d.op != "dict" or not cs:
            continue
        for g, loops, k, v in cs:
            if k is None or v.op != "new" or v.a[0] != "hatchet.node.Node":
                continue
            if k.op in ("elem", "key"):
                O = (d, g, k, v)
                img.add(v)
    if O is None:
        raise AnalysisBroken("squash: no map from old to new nodes recognised")
    d, g, k, v = O
    col = k.a[0]
    covered = node_column(col, DFT)
    if not covered and col.op in ("set", "list"):
        cs = contents.get(col, ())
        covered = bool(cs) and all(not c[0] and (c[3].op == "star" and node_column(c[3].a[0], DFT) or c[3].op == "elem" and node_column(c[3].a[0], DFT)) for c in cs)
    ctx.oblige(covered and not g, "images", q, "not every node of the table gets an image (keys %r%s)" % (col, " if %r" % (g,) if g else ""), W)
    ctx.oblige(frame_origin(ip, res.state, v) == {k}, "images", q + ":frame", "the image of a node does not carry its frame", W)
    O = d

    def old(t):
        """t with the spellings of O[x] unified"""
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[0] is O and t.a[0].a[1] == "get" and len(t.a[1]) in (1, 2):
            return mk("item", O, t.a[1][0])
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[0] is O and t.a[0].a[1] == "__getitem__":
            return mk("item", O, t.a[1][0])
        return t

    okn = False
    for e in ip.events:
        if e.kind == "setattr" and e.name == "_hatchet_nid" and not e.guard and e.value.op == "attr" and e.value.a[1] == "_hatchet_nid":
            o, s = e.obj, e.value.a[0]
            o = old(o)
            if o in img and s is k or o.op == "item" and o.a[0] is O and o.a[1] is s and s.op in ("key", "elem") or (
                    o.op == "val" and o.a[0] is O and s.op == "key" and s.a[0] is O):
                okn = True
    ctx.oblige(okn, "images", q + ":nid", "the image of a node does not take its id", W)

    # -------- 2. rewiring
    recs = [e for e in ip.events if e.kind == "reccall" and ".squash" in e.name]
    if not recs:
        raise AnalysisBroken("squash: no recursive rewiring recognised")
    NODE = PAR = None
    for m, vs in ip.mu.items():
        if not str(m.a[0]).startswith("rec:"):
            continue
        ls = [x for vv in vs for x in flat(vv)]
        if any(x.op == "elem" and mentions(x, mk("attr", attr(selft, "graph"), "roots")) for x in ls) and any(x.op == "elem" and x.a[0].op == "attr" and x.a[0].a[1] == "children" for x in ls):
            NODE = m
        elif vs and all(is_const(x, None) for x in flat(vs[0])):
            PAR = m
    if NODE is None or PAR is None:
        raise AnalysisBroken("squash: the rewiring's node and parent were not recognised")
    np_, pp = str(NODE.a[0])[4:], str(PAR.a[0])[4:]
    roots = mk("attr", attr(selft, "graph"), "roots")
    rl = [e for e in ip.events if e.kind == "loop" and e.obj is not None and peel(e.obj) is roots and not e.loops]
    ok = any(not e.guard and not any(b.kind == "break" and b.loops and b.loops[0] == e.name for b in ip.events) for e in rl)
    ctx.oblige(ok, "rewire", q + ":roots", "not every root of the graph is rewired", W)
    INO = mk("item", O, NODE)
    has = [mk("truth", mk("call", attr(O, "get"), (NODE,), ())), mk("cmp", "in", NODE, O),
           neg(mk("cmp", "is", mk("call", attr(O, "get"), (NODE,), ()), mk("const", None)))]
    KEEP = mk("ext", "<kept>")

    def norm(a):
        if a in has:
            return KEEP, True
        if a is has[2].a[0]:
            return KEEP, False
        if a is mk("cmp", "is", PAR, mk("const", None)):
            return mk("truth", PAR), False
        return a, True

    def keep(yes):
        return [x if yes else neg(x) for x in has]

    # recursion on every child, once per node
    full = [e for e in recs if e.kwargs.get(np_) is not None and canon(e.kwargs[np_]) is canon(mk("elem", attr(NODE, "children")))]
    ctx.oblige(bool(full) and len(full) == len(recs), "rewire", q + ":children",
               "the rewiring does not recurse on the children of the node", recs[0].where)
    vis = set()
    for e in recs:
        for l in e.guard:
            c = l.a[0] if l.op == "not" else l
            good = l.op == "not" and c.op == "cmp" and c.a[0] == "in" and c.a[1] is NODE
            if good:
                vis.add(c.a[2])
                marked = [x for x in ip.events if x.kind == "call" and x.name in ("add", "append") and x.obj is c.a[2] and x.args and x.args[0] is NODE
                          and all(y in e.guard for y in x.guard)]
                ctx.oblige(any(x.idx < e.idx for x in marked), "rewire", q + ":visited", "a node is not marked visited before its children are rewired", e.where)
            ctx.oblige(good, "rewire", q + ":children-guard", "children are only rewired if %r" % l, e.where)
        ctx.oblige(not any(b.kind in ("break",) and b.loops == e.loops for b in ip.events), "rewire", q + ":children-all",
                   "the loop over the children can end early", e.where)
        p = e.kwargs.get(pp)
        if p is not None:
            kept = {old(x) for x in flat(restrict(p, keep(True)))}
            gone = {old(x) for x in flat(restrict(p, keep(False)))}
            ctx.oblige(kept == {INO}, "rewire", q + ":parent-kept", "children of a kept node are attached to %s, not to its image" % sorted(map(repr, kept)), e.where)
            ctx.oblige(gone == {PAR}, "rewire", q + ":parent-gone", "children of a removed node are attached to %s, not to the nearest kept ancestor" % sorted(map(repr, gone)), e.where)
    # connections: what a node stands for
    loops = [e for e in ip.events if e.kind == "loop" and e.obj is not None and e.obj.op == "item" and e.obj.a[1] is NODE and e.obj.a[0].op == "dict"]
    C = loops[0].obj.a[0] if loops else None
    if C is None:
        loops = [e for e in ip.events if e.kind == "loop" and e.obj is not None and e.obj.op == "call" and e.obj.a[0].op == "attr"
                 and e.obj.a[0].a[1] == "get" and e.obj.a[1] and e.obj.a[1][0] is NODE]
        C = loops[0].obj.a[0].a[0] if loops else None
    if C is None:
        raise AnalysisBroken("squash: the connections of a node were not recognised")
    loop = loops[0]
    ctx.oblige(not loop.guard, "rewire", q + ":connect-guard", "a node is only connected if %r" % (loop.guard,), loop.where)
    first_rec = min(e.idx for e in recs)

    def is_n(x):
        return x.op == "elem" and x.a[0] is loop.obj

    # initial connections: the image itself
    init = False
    for gg, ll, kk, vv in contents.get(C, ()):
        if gg:
            continue
        src = [vv.a[0]] if vv.op == "star" else [None]
        for sdict in src:
            if sdict is not None and sdict.op == "dict":
                for g2, l2, k2, v2 in contents.get(sdict, ()):
                    if not g2 and k2 is not None and single(contents, v2, k2, O, old):
                        init = True
            elif sdict is None and kk is not None and single(contents, vv, kk, O, old):
                init = True
    for e in ip.events:
        if e.kind == "call" and e.name in ("add", "append") and e.obj is not None and e.obj.op == "item" and e.obj.a[0] is C and e.args and not e.guard:
            x = old(e.args[0])
            k2 = e.obj.a[1]
            if x.op == "val" and x.a[0] is O and k2.op == "key" and k2.a[0] is O or x.op == "item" and x.a[0] is O and canon(x.a[1]) is canon(k2):
                init = init or bool(e.loops)
    ctx.oblige(init, "rewire", q + ":initial", "a kept node does not start with its own image as connection", W)
    # child links and roots
    rl_final = None
    for gg, r in res.returns:
        for s in ip.sources(r):
            gobj = res.state.heap.get((s, "graph"))
            for x in ip.sources(gobj) if gobj is not None else ():
                rt = res.state.heap.get((x, "roots"))
                for y in ip.sources(rt) if rt is not None else ():
                    y = peel(y)
                    if y.op == "list":
                        rl_final = y
    ctx.oblige(rl_final is not None, "rewire", q + ":new-roots", "the roots of the new graph were not collected by the rewiring", W)

    def connects(target_is, prem, what, ob):
        es = [e for e in ip.events if e.kind == "call" and e.name in ("append", "add") and e.obj is not None and target_is(e.obj) and e.args
              and is_n(e.args[0]) and e.loops and e.loops[-1] == loop.name]
        ok = False
        for e in es:
            extra = [l for l in e.guard if not dedup(l, e.obj, e.args[0])]
            if implies(prem, b_and(*extra) if extra else TRUE, norm=norm):
                ok = True
        ctx.oblige(ok, "rewire", q + ":" + ob, what, loop.where)
        return es

    def dedup(l, coll, n):
        c = l.a[0] if l.op == "not" else None
        return c is not None and c.op == "cmp" and c.a[0] == "in" and c.a[1] is n and (c.a[2] is coll or canon(c.a[2]) is canon(coll))

    connects(lambda o: o is attr(PAR, "children"), [mk("truth", PAR)],
             "not every node a node stands for is linked below the nearest kept ancestor", "link")
    if rl_final is not None:
        rs = connects(lambda o: o is rl_final, [neg(mk("truth", PAR))],
                      "nodes without kept ancestor do not become roots", "root")
        for e in rs:
            ctx.oblige(implies(list(e.guard), neg(mk("truth", PAR)), norm=norm), "rewire", q + ":root-only",
                       "nodes below a kept ancestor become roots", e.where)
    # transitive connections handed up
    rets = [e for e in ip.events if e.kind == "return" and e.stack and e.stack[-1] == recs[0].name and e.value is not None and not is_const(e.value, None)]
    rv = [e.value for e in recs]
    okk = okg = False
    for e in rets:
        if implies(list(e.guard), KEEP, norm=norm):
            for s in flat(restrict(e.value, keep(True))):
                if s.op in ("set", "list", "tuple"):
                    cs = [c[3] for c in contents.get(s, ())] if s.op != "tuple" else list(s.a)
                    if cs and all(old(c) is INO for c in cs):
                        okk = True
        if implies(list(e.guard), neg(KEEP), norm=norm) or consistent(keep(False), list(e.guard), norm=norm):
            for s in flat(restrict(e.value, keep(False))):
                okg = okg or carries(ip, contents, s, C, NODE, rv, set(), vis)
    ctx.oblige(okk, "rewire", q + ":hand-up-kept", "a kept node does not hand its own image to its ancestors", W)
    ctx.oblige(okg, "rewire", q + ":hand-up", "a removed node does not hand everything reachable below it to its ancestors", W)
    # the connections of a removed node are remembered for other parents
    aug = [e for e in ip.events if e.kind == "setitem" and e.obj is C and e.args and e.args[0] is NODE]
    aug += [e for e in ip.events if (e.kind == "call" and e.name in ("update", "extend", "__ior__") or e.kind == "iop" and e.name in ("|", "+")) and e.obj is not None and e.obj.op == "item"
            and e.obj.a[0] is C and e.obj.a[1] is NODE]
    ok = False
    for e in aug:
        val = e.value if e.kind == "setitem" else (e.args[0] if e.args else None)
        if val is not None and implies(keep(False) , b_and(*e.guard) if e.guard else TRUE, norm=norm) and carries(ip, contents, val, C, NODE, rv, set(), vis, e.kind == "setitem"):
            ok = True
    ctx.oblige(ok, "rewire", q + ":remember", "what is reachable below a removed node is not remembered for its other parents", W)

    # -------- 3. the table
    newgf = [s for gg, r in res.returns for s in ip.sources(r)]
    for s in newgf:
        ok = s.op == "new" and s.a[0] == GF
        ctx.oblige(ok, "result", q, "squash returns %r" % s, W)
        if not ok:
            continue
        gobj = res.state.heap.get((s, "graph"))
        norms = [e for e in ip.events if e.kind == "opaque" and e.name == NORM]
        okg = gobj is not None and all(x.op == "new" and any(n.args[0] is x for n in norms) for x in ip.sources(gobj))
        ctx.oblige(okg, "normalize", q, "the new graph is not normalised (siblings with equal frames merged)", W)
        for gx in ip.sources(gobj) if gobj is not None else ():
            no = [e for e in ip.events if e.kind == "setattr" and e.name == "node_ordering" and e.obj is gx and mentions_all(e, mk("attr", attr(selft, "graph"), "node_ordering"))]
            ctx.oblige(bool(no), "normalize", q + ":order", "the new graph does not carry the node order of its source", W)
        df = res.state.heap.get((s, "dataframe"))
        check_table(ctx, ip, res, q, df, DFT, selft, O, old, norms, W)
        ups = [e for e in ip.events if e.kind == "opaque" and e.name == UPD and e.args and e.args[0] is s]
        want = mk("truth", mk("param", q, "update_inc_cols"))
        ok = len(ups) == 1 and list(ups[0].guard) == [want]
        ctx.oblige(ok, "inclusive", q, "the inclusive columns are not updated exactly when update_inc_cols is set", W)
    ctx.count("squash obligations", 20)


def mentions_all(e, t):
    return mentions(e.value, t) or any(mentions(l, t) for l in e.guard)


def single(contents, v, k, O, old):
    """v is a collection holding exactly the image of k."""
    xs = None
    if v.op in ("set", "list"):
        xs = [c[3] for c in contents.get(v, ()) if not c[0]]
    elif v.op == "tuple":
        xs = list(v.a)
    if not xs or len(xs) != 1:
        return False
    x = old(xs[0])
    if x.op == "val" and x.a[0] is O and k.op == "key" and k.a[0] is O:
        return True
    return x.op == "item" and x.a[0] is O and canon(x.a[1]) is canon(k)


def carries(ip, contents, t, C, NODE, rv, seen, vis=(), own=True):
    """t includes C[NODE] and everything the recursive calls returned."""
    got = set()

    def go(x, cond=False):
        x = peel(x, ("builtins.list", "builtins.set", "builtins.tuple", "builtins.sorted", "builtins.frozenset"))
        if (x, cond) in seen:
            return
        seen.add((x, cond))
        if x in rv and not cond:
            got.add("rec")
        if x.op == "item" and x.a[0] is C and x.a[1] is NODE:
            got.add("own")
            # later updated in place
            for e in ip.events:
                if e.kind == "setitem" and e.obj is C and e.args and e.args[0] is NODE:
                    go(e.value, cond)
                if (e.kind == "call" and e.name in ("update", "extend") or e.kind == "iop" and e.name in ("|", "+")) and e.obj is x and e.args:
                    go(e.args[0], cond)
        if x.op == "bin" and x.a[0] in ("|", "+"):
            go(x.a[1], cond)
            go(x.a[2], cond)
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("union", "copy"):
            go(x.a[0].a[0], cond)
            for y in x.a[1]:
                go(y.a[0] if y.op == "star" else y, cond)
        if x.op in ("set", "list"):
            for g, l, k, v in contents.get(x, ()):
                extra = [y for y in g if not (y.op == "not" and y.a[0].op == "cmp" and y.a[0].a[0] == "in" and y.a[0].a[1] is NODE and y.a[0].a[2] in vis)]
                if v.op in ("star", "elem"):
                    go(v.a[0], cond or bool(extra))
                elif v in rv:
                    go(v, cond or bool(extra))
        if x.op in ("mu", "phi", "ite"):
            for s in ip.sources(x):
                # a variable overwritten in the loop holds the last call's result only
                if s is not x and s not in rv:
                    go(s, cond)

    go(t)
    return "rec" in got and ("own" in got or not own)


def check_table(ctx, ip, res, q, df, DFT, selft, O, old, norms, W):
    """The stored table: groupby(index names).agg(...) of the remapped rows."""
    contents = res.state.contents
    for t in ip.sources(df) if df is not None else ():
        t = strip_copy(t)
        while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("sort_index", "copy"):
            t = t.a[0].a[0]
        ok = t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("agg", "aggregate") and t.a[1]
        if not ctx.oblige(ok, "rows", q + ":aggregate", "the rows of merged nodes are not aggregated: %r" % t, W):
            continue
        gb, spec = t.a[0].a[0], t.a[1][0]
        ok = gb.op == "call" and gb.a[0].op == "attr" and gb.a[0].a[1] == "groupby"
        if not ctx.oblige(ok, "rows", q + ":groupby", "the rows are not grouped", W):
            continue
        kw = dict(gb.a[2])
        kw.pop("#", None)
        by = kw.pop("level", None) or kw.pop("by", None) or (gb.a[1][0] if gb.a[1] else None)
        names = mk("attr", mk("attr", DFT, "index"), "names")
        ctx.oblige(by is not None and peel(by, ("builtins.list", "builtins.tuple")) is names, "rows", q + ":levels", "rows are grouped by %r, not by the table's own index levels" % by, W)
        bad = {k2: v2 for k2, v2 in kw.items() if not (k2 == "sort" or k2 == "dropna" or k2 == "observed")}
        ctx.oblige(not bad, "rows", q + ":options", "rows are grouped with options %s" % bad, W)
        base = gb.a[0].a[0]
        ctx.oblige(table(base, DFT), "rows", q + ":source", "the aggregated rows are %r, not all rows of the table" % base, W)
        # aggregation functions per column
        ip2 = ip
        metrics = {canon(attr(selft, "exc_metrics")), canon(attr(selft, "inc_metrics"))}
        cs = contents.get(spec, ())
        # canonical columns loop
        sum_g, first_g = [], []
        okc = bool(cs)
        for g, l, k, v in cs:
            for gg, vv in ip.leaves(v):
                cond = [x for x in list(g) + list(gg)]
                if k is None or k.op != "elem" or not columns_of(peel(k.a[0]), DFT):
                    okc = False
                    continue
                if is_nan_sum(ctx.repo, vv):
                    sum_g.append((cond, k))
                elif is_first(ctx.repo, vv):
                    first_g.append((cond, k))
                else:
                    ctx.oblige(False, "aggregate", q + ":function", "a column is aggregated with %r" % vv, W)
        ctx.oblige(okc, "aggregate", q + ":columns", "not every column of the table is aggregated", W)
        for cond, k in sum_g:
            ok = in_metrics(ip, res, b_and(*cond), k, metrics, True)
            ctx.oblige(ok, "aggregate", q + ":sum", "columns are summed if %r, not exactly the exclusive and inclusive metrics" % cond, W)
        for cond, k in first_g:
            ok = in_metrics(ip, res, b_and(*cond), k, metrics, False)
            ctx.oblige(ok, "aggregate", q + ":first", "the first value is taken if %r" % cond, W)
        ctx.oblige(bool(sum_g) and bool(first_g), "aggregate", q + ":both", "metrics are not summed or other columns not kept", W)
    # node column
    sets = [e for e in ip.events if e.kind == "setitem" and e.args and is_const(e.args[0], "node") and table(e.obj, DFT)]
    ok = False
    if sets:
        ok = all(not e.guard for e in sets)
        e = sets[-1]
        for v in ip.sources(e.value):
            col, rs, at = image(ip, res.state, v)
            ok = ok and col is not None and node_column(col, DFT)
            good = bool(rs)
            Mv = [n.value for n in norms]
            for r in rs or ():
                for x in flat(r):
                    x = canon(x)
                    y = canon(mk("item", O, at))
                    forms = set()
                    for m in Mv:
                        forms.add(canon(mk("call", attr(m, "get"), (y, y), ())))
                        forms.add(canon(mk("item", m, y)))
                    # one spelling for O[x]
                    x2 = canon(unify_old(x, O))
                    if x2 in forms:
                        continue
                    if x2 is y and any(z in forms for z in [canon(unify_old(w, O)) for rr in rs for w in flat(rr)]):
                        continue
                    if x2 is y and r.op == "ite":
                        continue
                    good = False
            ok = ok and good and (len(rs) == 1 or any(r.op == "ite" for r in rs) or len(rs) <= 2)
    ctx.oblige(ok, "remap", q, "the node of a row is not replaced by its image and then by the image's merge target", sets[-1].where if sets else W)
    if norms and sets:
        ctx.oblige(any(e.idx > norms[0].idx for e in sets), "remap", q + ":after", "the rows are not remapped after the normalisation", sets[-1].where)


def unify_old(x, O):
    """Spell O.get(k) as O[k] everywhere."""
    for s in list(subterms(x)):
        if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[0] is O and s.a[0].a[1] in ("get", "__getitem__") and len(s.a[1]) == 1:
            x = replace(x, s, mk("item", O, s.a[1][0]))
    return x


def columns_of(t, DFT):
    while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("tolist", "to_list"):
        t = t.a[0].a[0]
    t = peel(t)
    if t.op == "attr" and t.a[1] == "columns":
        return table(t.a[0], DFT)
    return table(t, DFT)


def in_metrics(ip, res, l, k, metrics, want):
    if l.op == "not":
        return in_metrics(ip, res, l.a[0], k, metrics, not want)
    if l.op == "or" or l.op == "and":
        # col in exc or col in inc  /  not in exc and not in inc
        if (l.op == "or") != want:
            return False
        got = set()
        for x in l.a:
            y = x
            if not want:
                if x.op != "not":
                    return False
                y = x.a[0]
            if y.op != "cmp" or y.a[0] != "in" or y.a[1] is not k:
                return False
            b, s, c = Members(ip, res.state).of(y.a[2])
            if s or c:
                return False
            got |= {canon(z) for z in b}
        return got == metrics
    if not want or l.op != "cmp" or l.a[0] != "in" or l.a[1] is not k:
        return False
    b, s, c = Members(ip, res.state).of(l.a[2])
    return not s and not c and {canon(z) for z in b} == metrics


# ---------------------------------------------------------------- merging
def check_merge(ctx):
    q = GR + "merge_nodes"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    selft, M = mk("param", q, "self"), mk("param", q, "merges")
    OLD, NEW = mk("key", M), mk("val", M)

    def cn(o):
        o = replace(canon(o), mk("elem", M), OLD)
        return replace(o, mk("item", M, OLD), NEW)

    def is_new(o):
        return cn(o) is NEW

    contents = res.state.contents

    def image_of(t, want):
        """t holds merges.get(x, x) for every x of exactly the collections in want."""
        for s in ip.sources(t):
            s = peel(s, ("builtins.sorted", "builtins.list", "builtins.tuple", "builtins.set"))
            cs = contents.get(s, ()) if s.op in ("set", "list") else ()
            got = set()
            for g, l, k, v in cs:
                if g:
                    return False
                if v.op == "star":
                    inner = v.a[0]
                    if not image_of(inner, want):
                        return False
                    got |= want
                    continue
                x = None
                for y in flat(v):
                    if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[0] is M and y.a[0].a[1] == "get" and len(y.a[1]) == 2 and y.a[1][0] is y.a[1][1]:
                        x = y.a[1][0]
                    elif y.op == "item" and y.a[0] is M and v.op == "ite":
                        x = y.a[1]
                    elif v.op == "ite" and y.op == "elem":
                        pass
                    else:
                        return False
                if x is None or x.op != "elem":
                    return False
                b, sg, cond = Members(ip, res.state).of(x.a[0])
                if sg or cond:
                    return False
                got |= {cn(z) for z in b}
            if got != want:
                return False
        return True

    def has(owner, field, want, ob, what):
        es = [e for e in ip.events if e.kind == "setattr" and e.name == field and owner(e.obj)]
        ok = any(not e.guard and image_of(e.value, {cn(w) for w in want(e.obj)}) for e in es)
        ctx.oblige(ok, "merge", q + ":" + ob, what, f.where)

    for fld in ("parents", "children"):
        has(is_new, fld, lambda o: (attr(NEW, fld), attr(OLD, fld)), fld,
            "the node merged into does not get the %s of both nodes (mapped through the merges)" % fld)
        dual = "children" if fld == "parents" else "parents"
        es = [e for e in ip.events if e.kind == "setattr" and e.name == dual and e.obj.op == "elem"]
        ok = False
        for e in es:
            c = e.obj.a[0]
            src = [x for x in ip.events if x.kind == "setattr" and x.name == fld and is_new(x.obj)]
            if (c.op == "attr" and c.a[1] == fld and is_new(c.a[0]) or any(x.value is c or peel(x.value) is peel(c) for x in src)) and not e.guard:
                if image_of(e.value, {cn(attr(e.obj, dual))}):
                    ok = True
        ctx.oblige(ok, "merge", q + ":" + fld + "-back", "the %s of the merged node keep links to merged-away nodes" % fld, f.where)
    has(lambda o: o is selft, "roots", lambda o: (attr(selft, "roots"),), "roots", "merged-away roots stay roots of the graph")
    # normalize applies exactly what find_merges found
    q2 = NORM
    ip2, res2 = ctx.analyze(q2, opaque=(GR + "find_merges", q))
    fm = [e for e in ip2.events if e.kind == "opaque" and e.name == GR + "find_merges"]
    mg = [e for e in ip2.events if e.kind == "opaque" and e.name == q]
    ok = len(fm) == 1 and len(mg) == 1 and not mg[0].guard and len(mg[0].args) > 1 and mg[0].args[1] is fm[0].value and all(
        s is fm[0].value for g, r in res2.returns for s in ip2.sources(r))
    ctx.oblige(ok, "merge", q2, "normalize does not merge what it found and return those merges", ctx.repo.func(q2).where)
    ctx.count("merge obligations", 6)


def check_find(ctx):
    """Merges are only between nodes of one group with equal frames; every
    root list and every child list is grouped."""
    q = GR + "find_merges"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    selft = mk("param", q, "self")
    contents = res.state.contents
    groups = {}
    for e in ip.events:
        if e.kind == "call" and e.name in ("append", "add") and e.obj is not None and e.obj.op == "item" and e.obj.a[0].op == "dict" and e.args:
            k = e.obj.a[1]
            if k.op == "attr" and k.a[1] == "frame":
                ok = e.args[0] is k.a[0]
                ctx.oblige(ok and not in_loop_guard(e), "group", q + ":key", "nodes are grouped by another node's frame or only some of them", e.where)
                for s in flat(k.a[0].a[0]) if k.a[0].op == "elem" else ():
                    groups.setdefault(e.obj.a[0], set()).add(canon(s))
    cov = set()
    for d, cols in groups.items():
        cov |= cols
    ctx.oblige(canon(attr(selft, "roots")) in cov, "group", q + ":roots", "roots with equal frames are not merged", f.where)
    trav = [e for e in ip.events if e.kind == "loop" and e.obj is not None and e.obj.op == "call" and e.obj.a[0].op == "fn"
            and e.obj.a[0].a[0] == GR + "traverse" and e.obj.a[1] and e.obj.a[1][0] is selft]
    nodes = [canon(mk("elem", e.obj)) for e in trav]

    def node_member(l):
        c = l.a[0] if l.op == "not" else l
        return c.op == "cmp" and c.a[0] == "in" and canon(c.a[1]) in nodes

    okc = False
    merged = False
    for e in ip.events:
        if e.kind != "call" or e.name not in ("append", "add") or e.obj is None or e.obj.op != "item" or e.obj.a[0] not in groups or not e.args:
            continue
        el = e.args[0]
        if el.op != "elem":
            continue
        for sx in ip.sources(el.a[0]):
            sx = peel(sx)
            if sx.op == "attr" and sx.a[1] == "children" and canon(sx.a[0]) in nodes:
                bad = [l for l in e.guard if not node_member(l)]
                ctx.oblige(not bad, "group", q + ":children-guard", "children are only grouped if %r" % bad, e.where)
                okc = True
            elif sx.op == "attr" and sx.a[1] == "children":
                ctx.oblige(sx.a[0].op != "elem", "group", q + ":merged-children",
                           "only the children of the last of several merged nodes are grouped", e.where)
            elif sx.op in ("list", "set"):
                for g, l, k, v in contents.get(sx, ()):
                    v = v.a[0] if v.op in ("star", "elem") else v
                    v = peel(v)
                    if v.op == "attr" and v.a[1] == "children":
                        bad = [x for x in g if not node_member(x)]
                        ctx.oblige(not bad, "group", q + ":merged-guard", "children of merged nodes are only grouped if %r" % bad, e.where)
                        if canon(v.a[0]) in nodes:
                            okc = True
                        else:
                            merged = True
    ctx.oblige(okc, "group", q + ":children", "children with equal frames are not merged", f.where)
    ctx.oblige(merged, "group", q + ":merged", "the children of nodes merged together are not grouped together", f.where)
    st = [e for e in ip.events if e.kind == "setitem" and e.obj.op == "dict" and any(s is e.obj for g, r in res.returns for s in ip.sources(r))]
    ctx.count("merge stores", len(st))
    ctx.oblige(bool(st), "group", q + ":stores", "find_merges records no merges", f.where)
    MD = st[0].obj if st else None
    member = retarget = False

    def target_of(t):
        """min over the merge targets of a group's members: (group, ok)"""
        if t.op == "item" and is_const(t.a[1], 0) and t.a[0].op == "call" and t.a[0].a[0] is mk("ext", "builtins.sorted"):
            t = t.a[0]
        elif not (t.op == "call" and t.a[0] is mk("ext", "builtins.min")):
            return False, "%r" % t
        kf = dict(t.a[2]).get("key")
        if kf is not None and not (kf.op == "fn" and kf.a[0].endswith("traversal_order") or key_attr(ctx.repo, kf) == "_hatchet_nid"):
            return False, "the first by another order"
        c = t.a[1][0] if t.a[1] else None
        for sx in ip.sources(c) if c is not None else ():
            for sy in contents.get(sx, ()):
                v = sy[3]
                via = [y for y in subterms(v) if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[0] is MD and y.a[0].a[1] == "get"
                       or y.op == "item" and y.a[0] is MD]
                if via:
                    return True, c
        return False, "the first of the group, not of the nodes its members are already merged into"

    for e in st:
        k = e.args[0]
        ok, g = target_of(e.value)
        ctx.oblige(ok, "group", q + ":target", "nodes are merged into %s" % g, e.where)
        if k.op != "elem":
            ctx.oblige(False, "group", q + ":member", "a merge is recorded for %r" % k, e.where)
            continue
        src = peel(k.a[0])
        inverse = any(y.op == "dict" and y is not MD and y not in groups for y in subterms(src))
        bad = []
        for l in e.guard:
            c = l.a[0] if l.op == "not" else l
            if node_member(l) or c.op == "cmp" and c.a[0] in ("<", "<=") and any(y.op == "call" and y.a[0] is mk("ext", "builtins.len") for y in c.a[1:]):
                continue
            if inverse and c.op == "cmp" and c.a[0] == "in" and l is c and c.a[2] in subterms(src):
                continue
            if inverse and c.op == "cmp" and c.a[0] in ("==", "is") and l is not c:
                continue
            if inverse and l is c and c.op in ("truth", "call"):
                continue
            if c.op == "cmp" and c.a[0] in ("==", "is") and l is not c and e.value in c.a and k in c.a:
                continue
            bad.append(l)
        if not bad and inverse:
            retarget = True
        elif not bad:
            member = True
    ctx.oblige(member, "group", q + ":members", "not every node of a group with equal frames is merged", f.where)
    ctx.oblige(retarget, "group", q + ":chained", "nodes merged into a node that is itself merged later keep their old target", f.where)


def in_loop_guard(e):
    return [l for l in e.guard if mentions(l, e.args[0])]


def check(ctx):
    check_squash(ctx)
    check_merge(ctx)
    check_find(ctx)

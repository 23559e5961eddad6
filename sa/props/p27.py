"""P27: graphs built from nested lists have exactly the structure written down."""

from ..lib import peel, strip_copy
from ..terms import attr, is_const, mk, subterms
from .p07 import UNK
from .p11 import Types, base_env

TITLE = "graphs built from lists have exactly the structure the lists describe"
RULE = (
    "Value-flow of Node.from_lists (its recursion as one generic step), Graph.from_lists and GraphFrame.from_lists. The step "
    "is evaluated for every kind of element (string, Node, list or tuple beginning with a string, a Node or something else, "
    "anything else) with and without parent: which node it yields, which nodes it makes and how they are named, which links it "
    "adds, what it recurses into, and that exactly the malformed elements are refused with ValueError. The graph's roots are "
    "the nodes of all arguments in order; the table has one row per traversed node with node, name and time 1."
)

NQ = "hatchet.node.Node.from_lists"
GQ = "hatchet.graph.Graph.from_lists"
FQ = "hatchet.graphframe.GraphFrame.from_lists"
NODE, FRAME = "hatchet.node.Node", "hatchet.frame.Frame"
ENUM = "hatchet.graph.Graph.enumerate_traverse"
KEEP = ("builtins.list", "builtins.tuple", "builtins.iter", "copy.copy")


class W(Types):
    """all() and any() over a comprehension on elements of several types."""

    def ev(self, t):
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.all", "builtins.any") and len(t.a[1]) == 1 and t not in self.env:
            x = t.a[1][0]
            cs = self.st.contents.get(x)
            if cs and len(cs) == 1 and getattr(self, "mixed", None):
                g, l, k, v = cs[0]
                el, types = self.mixed
                vs = []
                for ty in types:
                    w = W(self.ip, self.st, self.env, {**self.types, el: ty})
                    h = w.holds(g)
                    if h is False:
                        continue
                    vs.append(UNK if h is UNK else w.ev(v))
                if UNK in vs:
                    return UNK
                return all(vs) if t.a[0].a[0].endswith("all") else any(vs)
            return UNK
        if t.op == "truth" and t.a[0].op in ("dict", "list") and t.a[0] in self.st.contents:
            cs = self.st.contents[t.a[0]]
            if not cs:
                return False
            busy = self.env.setdefault("busy", set())
            if t in busy:
                return UNK
            busy.add(t)
            try:
                full = any(not l and v.op != "star" and self.holds(g) is True for g, l, k, v in cs)
            finally:
                busy.discard(t)
            if full:
                return True
        return Types.ev(self, t)


def item0(t, cur):
    return t.op == "item" and t.a[0] is cur and is_const(t.a[1], 0)


def indices(t, cur):
    """range(1, len(cur))"""
    return t.op == "call" and t.a[0] is mk("ext", "builtins.range") and len(t.a[1]) == 2 and is_const(t.a[1][0], 1) and (
        t.a[1][1].op == "call" and t.a[1][1].a[0] is mk("ext", "builtins.len") and t.a[1][1].a[1][0] is cur)


def rest_of(t, cur):
    """cur[1:]"""
    t = peel(t, KEEP)
    if t.op == "item" and t.a[0] is cur and t.a[1].op == "slice":
        s = t.a[1].a
        return is_const(s[0], 1) and all(x is None or is_const(x, None) for x in s[1:])
    if t.op == "item" and t.a[0] is cur and is_const(t.a[1], "*1"):
        return True
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "itertools.islice" and len(t.a[1]) == 3:
        return t.a[1][0] is cur and is_const(t.a[1][1], 1) and is_const(t.a[1][2], None)
    return False


def node_step(ctx):
    ip, res = ctx.analyze(NQ)
    st, f = res.state, ctx.repo.func(NQ)
    recs = [e for e in ip.events if e.kind == "reccall"]
    ctx.count("recursive_calls", len(recs))
    if not recs:
        ctx.violate("recursion", NQ, "Node.from_lists does not process the elements of a list by recursion", f.where)
        return
    names = {e.name for e in recs}
    tops = [e for e in ip.events if e.kind == "invoke" and e.name in names]
    fn = ctx.repo.functions.get(recs[0].name)
    params = list(recs[0].kwargs)
    # which parameter is the element and which the parent: from the outermost call
    top = tops[0] if tops else None
    own = mk("param", NQ, "lists")
    if top is not None:
        elp = [p for p, v in top.kwargs.items() if peel(v, KEEP) is own]
        par = [p for p, v in top.kwargs.items() if is_const(v, None)]
    else:
        elp, par = ["lists"], []
    ctx.oblige(len(elp) == 1 and len(par) == 1 and len(tops) == 1 and not (top.guard or top.loops), "outer", NQ + ":outer",
               "Node.from_lists does not begin with the whole argument and no parent", (top or recs[0]).where)
    if len(elp) != 1 or len(par) != 1:
        return
    mus = {s for e in ip.events for l in list(e.guard) + list(e.args) + list(e.kwargs.values()) if hasattr(l, "op") for s in subterms(l) if s.op == "mu"}
    cur = [m for m in mus if ("rec:" + elp[0] + "@") in repr(m)]
    up = [m for m in mus if ("rec:" + par[0] + "@") in repr(m)]
    if len(cur) != 1 or len(up) != 1:
        ctx.violate("recursion", NQ, "the element and the parent of the recursion were not found", f.where)
        return
    cur, up = cur[0], up[0]
    first = mk("item", cur, mk("const", 0))
    env = base_env(ip)
    rets = [e for e in ip.events if e.kind == "return" and e.stack and e.stack[-1] in names]
    rets = rets or [e for e in ip.events if e.kind == "return"]
    worlds = [("str", None), ("Node", None), ("dict", None), ("int", None)]
    worlds += [(s, x) for s in ("list", "tuple") for x in ("str", "Node", "dict", "list")]
    for kind, head in worlds:
        for parent in ("NoneType", "Node"):
            types = {cur: kind, up: parent}
            if head:
                types[first] = head
            w = W(ip, st, env, types)
            tag = "%s:%s%s:%s" % (NQ, kind, "/" + head if head else "", "child" if parent == "Node" else "root")
            desc = ("a %s" % kind if head is None else "a %s beginning with a %s" % (kind, head)) + (" below a node" if parent == "Node" else "")
            bad = kind in ("dict", "int") or head in ("dict", "list")
            mine = [e for e in ip.events if e.kind == "raise" and w.holds(e.guard) is not False
                    and "Frame must be" not in repr(e.value)]
            if bad:
                ctx.oblige(any(w.holds(e.guard) is True and "ValueError" in repr(e.value) for e in mine), "refused", tag,
                           "%s is not refused with ValueError" % desc, f.where)
                continue
            ctx.oblige(not mine, "accepted", tag, "%s is refused" % desc, (mine or [top])[0].where)
            name = first if head == "str" else cur
            give = first if head else cur
            new = [e for e in ip.events if e.kind == "new" and e.name == NODE and w.holds(e.guard) is not False and not e.loops]
            anyloop = [e for e in ip.events if e.kind == "new" and e.name == NODE and e.loops]
            isstr = "str" in (kind, head)
            ctx.oblige(len(new) == (1 if isstr else 0) and not anyloop, "new-nodes", tag,
                       "%s makes %d new nodes instead of %d" % (desc, len(new), 1 if isstr else 0), (new or [top])[0].where)
            if isstr and len(new) != 1:
                continue
            if isstr:
                want = new[0].value
                ctx.oblige(named(st, w, want, name), "name", tag, "the node made for %s is not named exactly as written" % desc, new[0].where)
            else:
                want = give
            vals = [w.pick(e.value) for e in rets if w.holds(e.guard) is not False]
            ctx.oblige(bool(vals) and all(v is want for v in vals), "node", tag,
                       "%s does not yield %s" % (desc, "the new node" if isstr else "the given node itself"), rets[0].where if rets else f.where)
            links(ctx, ip, st, w, want, up, parent == "Node", tag, desc, f)
            got = [e for e in recs if w.holds(e.guard) is not False]
            if kind in ("list", "tuple"):
                loops = {e.name: e for e in ip.events if e.kind == "loop"}
                ok = len(got) == 1 and w.holds(got[0].guard) is True and len(got[0].loops) == 1
                over = w.pick(loops[got[0].loops[0]].obj) if ok and got[0].loops[0] in loops else None
                ok = over is not None and (rest_of(over, cur) or indices(over, cur)) and w.holds(loops[got[0].loops[0]].guard) is True
                ok = ok and not [e for e in ip.events if e.kind == "break" and e.loops and e.loops[-1] == got[0].loops[0] and w.holds(e.guard) is not False]
                ctx.oblige(ok, "children", tag, "not every element after the first of %s is processed exactly once, in order" % desc, (got or recs)[0].where)
                if got:
                    v = got[0].kwargs.get(elp[0])
                    el = v is not None and v.op == "elem" and rest_of(w.pick(v.a[0]), cur)
                    el = el or v is not None and v.op == "item" and v.a[0] is cur and v.a[1].op == "elem" and indices(v.a[1].a[0], cur)
                    ctx.oblige(el and w.pick(got[0].kwargs[par[0]]) is want, "children", tag + ":below",
                               "the elements after the first of %s are not put below its first element" % desc, got[0].where)
            else:
                loops = {e.name: e for e in ip.events if e.kind == "loop"}
                got = [e for e in got if not (e.loops and e.loops[0] in loops and empty(st, w, w.pick(loops[e.loops[0]].obj)))]
                ctx.oblige(not got, "children", tag, "%s is taken apart" % desc, (got or recs)[0].where)


def empty(st, w, t):
    t = peel(t, KEEP)
    return t.op == "tuple" and not t.a or t.op == "list" and t in st.contents and not st.contents[t]


def named(st, w, node, name):
    fr = st.heap.get((node, "frame"))
    fr = w.pick(fr) if fr is not None else None
    at = st.heap.get((fr, "attrs")) if fr is not None else None
    if at is None:
        return False
    at = w.pick(at)
    got = {}

    def add(d, depth=0):
        for g, l, k, v in st.contents.get(d, ()):
            if w.holds(g) is False:
                continue
            if v.op == "star" or k is not None and is_const(k, "**"):
                x = peel(v.a[0] if v.op == "star" else v, ("builtins.dict", "copy.copy"))
                if x.op == "dict" and depth < 4:
                    add(x, depth + 1)
                else:
                    got["?"] = x
            elif k is not None and k.op == "const":
                if not (k.a[0] in got and k.a[0] == "type"):
                    got[k.a[0]] = w.pick(v)
            else:
                got["?"] = v

    add(at)
    return got.get("name") is name and set(got) <= {"name", "type"} and ("type" not in got or is_const(got["type"], "None"))


def links(ctx, ip, st, w, node, up, below, tag, desc, f):
    """Parent and child entries made in this world."""
    seen = []
    for e in ip.events:
        if e.kind != "call" or e.name not in ("append", "insert", "extend", "add") or e.obj is None or w.holds(e.guard) is False:
            continue
        for field in ("parents", "children"):
            owner = None
            if e.obj.op == "attr" and e.obj.a[1] == field:
                owner = w.pick(e.obj.a[0])
            else:
                own = [o for (o, fl), v in st.heap.items() if fl == field and e.obj in list(ip.sources(v))]
                owner = own[0] if own else None
            if owner is not None:
                seen.append((owner, field, w.pick(e.args[-1]) if e.args else None, w.holds(e.guard), e))
    if not below:
        ctx.oblige(not seen, "links", tag, "%s without parent is linked" % desc, seen[0][-1].where if seen else f.where)
        return
    want = {(node, "parents", up), (up, "children", node)}
    got = [x[:3] for x in seen]
    ok = set(got) == want and len(got) == 2 and all(x[3] is True and not x[4].loops and x[4].name == "append" for x in seen)
    ctx.oblige(ok, "links", tag, "%s is not linked to its parent exactly once in both directions" % desc, (seen[0][-1] if seen else f).where)


def graph_step(ctx):
    ip, res = ctx.analyze(GQ, opaque=(ENUM, NQ))
    st, f = res.state, ctx.repo.func(GQ)
    own = [s for e in ip.events for x in ([e.obj] if e.obj is not None else []) + list(e.args) for s in subterms(x) if s.op == "param" and s.a[1].strip("*") == "roots"]
    own = own[0] if own else None
    made = [e for e in ip.events if e.kind == "opaque" and e.name == NQ]
    el = [e.kwargs.get("lists", e.args[-1] if e.args else None) for e in made]
    ctx.count("from_lists_calls", len(made))
    ok = bool(made) and all(x is not None and x.op == "elem" and own is not None and peel(x.a[0], KEEP) is own for x in el)
    ctx.oblige(ok and len(made) == 1 and len(made[0].loops) == 1, "roots", GQ + ":each", "Node.from_lists is not called exactly once for each argument", f.where)
    if not ok:
        return
    env = base_env(ip)
    raises = [e for e in ip.events if e.kind == "raise"]
    elems = {s for e in ip.events for x in list(e.guard) + list(e.args) for s in subterms(x) if s.op == "elem" and peel(s.a[0], KEEP) is own}
    elems |= {s for cs in st.contents.values() for g, l, k, v in cs for x in list(g) + [v] for s in subterms(x) if s.op == "elem" and peel(s.a[0], KEEP) is own}
    for types in (("list",), ("tuple",), ("list", "tuple"), ("str",), ("list", "str"), ("Node",), ("tuple", "dict"), ("Node", "list")):
        want = not set(types) <= {"list", "tuple"}
        hit, sure = [], []
        for e in raises:
            # a check made for each argument in a loop fires for one of them
            hs = []
            for ty in types if e.loops else types[:1]:
                w = W(ip, st, env, {x: ty for x in elems} if e.loops else {})
                w.mixed = None
                if not e.loops:
                    h = multi(ip, st, env, elems, types, e.guard)
                else:
                    h = w.holds(e.guard)
                hs.append(h)
            if any(h is True for h in hs):
                sure.append(e)
            if any(h is not False for h in hs):
                hit.append(e)
        desc = "arguments of types " + ", ".join(types)
        if want:
            ctx.oblige(any("ValueError" in repr(e.value) for e in sure), "refused", GQ + ":" + "+".join(types),
                       "%s are not refused with ValueError" % desc, f.where)
        else:
            ctx.oblige(not hit, "accepted", GQ + ":" + "+".join(types), "%s are refused" % desc, (hit or made)[0].where)
    rets = [v for g, v in res.returns]
    ok = len(rets) == 1
    for v in rets:
        r = st.heap.get((v, "roots"))
        r = peel(r, KEEP) if r is not None else None
        cs = st.contents.get(r) if r is not None else None
        for _ in range(4):
            # a list of the elements of another list
            if cs and len(cs) == 1 and not cs[0][0] and cs[0][3].op == "star":
                cs = st.contents.get(peel(cs[0][3].a[0], KEEP))
            elif cs and len(cs) == 1 and not cs[0][0] and cs[0][3].op == "elem" and len(cs[0][1]) == 1:
                cs = st.contents.get(peel(cs[0][3].a[0], KEEP), cs)
        ok = ok and bool(cs) and len(cs) == 1
        if ok:
            g, l, k, x = cs[0]
            ok = not g and len(l) == 1 and x is made[0].value
    ctx.oblige(ok, "roots", GQ + ":roots", "the roots of the graph are not the nodes of all arguments in order", f.where)


def multi(ip, st, env, elems, types, guard):
    vs = []
    for l in guard:
        vals = set()
        w = W(ip, st, env, {})
        for x in elems:
            w.mixed = (x, types)
            v = w.ev(l)
            if v is not UNK:
                vals.add(bool(v))
        vs.append(vals.pop() if len(vals) == 1 else UNK)
    if any(v is False for v in vs):
        return False
    return UNK if UNK in vs else True


def frame_step(ctx):
    TR = "hatchet.graph.Graph.traverse"
    UPD = "hatchet.graphframe.GraphFrame.update_inclusive_columns"
    ip, res = ctx.analyze(FQ, opaque=(GQ, ENUM, TR, UPD))
    st, f = res.state, ctx.repo.func(FQ)
    g = [e for e in ip.events if e.kind == "opaque" and e.name == GQ]
    ok = len(g) == 1 and not g[0].guard and len(g[0].args) >= 1 and g[0].args[-1].op == "star" and g[0].args[-1].a[0].op == "param"
    ctx.oblige(ok, "graph", FQ + ":graph", "the graph is not made of all the arguments", f.where)
    gfs = [e for e in ip.events if e.kind == "new" and e.name.endswith(".GraphFrame")]
    rets = [v for x, v in res.returns]
    ctx.oblige(len(gfs) == 1 and len(rets) == 1 and rets[0] is gfs[0].value, "graph", FQ + ":result", "the new graph frame is not returned", f.where)
    if not ok or len(gfs) != 1:
        return
    graph, gf = g[0].value, gfs[0].value
    ctx.oblige(st.heap.get((gf, "graph")) is graph, "graph", FQ + ":uses", "the graph frame does not hold the graph made from the lists", gfs[0].where)

    def nodes(t):
        t = peel(t, KEEP)
        if t.op in ("list", "tuple") and t in st.contents:
            cs = st.contents[t]
            return len(cs) == 1 and not cs[0][0] and (cs[0][3].op == "star" and nodes(cs[0][3].a[0]) or cs[0][3].op == "elem" and nodes(cs[0][3].a[0]))
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "traverse":
            return t.a[0].a[0] is graph and not t.a[1] and not [k for k, v in t.a[2] if k != "#" and not (k == "order" and is_const(v, "pre"))]
        return t.op == "call" and t.a[0].op == "fn" and getattr(t.a[0].a[0], 'qual', t.a[0].a[0]) == TR and len(t.a[1]) == 1 and t.a[1][0] is graph

    def value(v, what):
        """What one entry of a column is."""
        if what == "node":
            return v.op == "elem" and nodes(v.a[0])
        if what == "time":
            return v.op == "const" and v.a[0] == 1 and v.a[0] is not True
        fr = None
        if v.op == "item" and is_const(v.a[1], "name"):
            fr = v.a[0]
        elif v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] == "get" and v.a[1] and is_const(v.a[1][0], "name"):
            fr = v.a[0].a[0]
        if fr is None:
            return False
        if fr.op == "attr" and fr.a[1] == "attrs":
            fr = fr.a[0]
        return fr.op == "attr" and fr.a[1] == "frame" and value(fr.a[0], "node")

    def column(v, what):
        v = peel(v, KEEP)
        if what == "node" and nodes(v):
            return True
        if v.op == "const":
            return value(v, what)
        if v.op == "list" and v in st.contents:
            cs = st.contents[v]
            return len(cs) == 1 and not cs[0][0] and len(cs[0][1]) == 1 and value(cs[0][3], what)
        if v.op == "bin" and v.a[0] == "*":
            for a, b in (v.a[1:], v.a[:0:-1]):
                if a.op == "list" and a in st.contents and len(st.contents[a]) == 1 and not st.contents[a][0][1] and value(st.contents[a][0][3], what):
                    if b.op == "call" and b.a[0] is mk("ext", "builtins.len") and (b.a[1][0] is graph or nodes(b.a[1][0])):
                        return True
        return False

    df = st.heap.get((gf, "dataframe"))
    df = strip_frame(df)
    cols = {}
    if df is not None and df.op == "call" and df.a[0].op == "ext" and df.a[0].a[0].startswith("pandas.DataFrame"):
        d = df.a[1][0] if df.a[1] else dict(df.a[2]).get("data")
        if d is not None and d.op == "dict":
            for gd, l, k, v in st.contents.get(d, ()):
                if k is not None and k.op == "const" and not gd:
                    cols.setdefault(k.a[0], []).append(("col", v))
        elif d is not None and d.op == "list":
            for gd, l, k, r in st.contents.get(d, ()):
                if not gd and len(l) == 1 and r.op == "dict":
                    for g2, l2, k2, v2 in st.contents.get(r, ()):
                        if k2 is not None and k2.op == "const" and not g2:
                            cols.setdefault(k2.a[0], []).append(("row", v2))
    for e in ip.events:
        if e.kind == "setitem" and e.obj is not None and strip_frame(e.obj) is df and e.args and e.args[0].op == "const":
            cols.setdefault(e.args[0].a[0], []).append(("col" if not e.guard else "?", e.value))
    for what in ("node", "name", "time"):
        vs = cols.get(what, [])
        ok = len(vs) == 1 and (vs[0][0] == "col" and column(vs[0][1], what) or vs[0][0] == "row" and value(vs[0][1], what))
        ctx.oblige(ok, "rows", FQ + ":" + what, "column %r does not hold %s for every node of the graph" % (
            what, {"node": "the node", "name": "the node's name", "time": "1"}[what]), gfs[0].where)
    sets = [e for e in ip.events if e.kind == "call" and e.name == "set_index" or e.kind == "call" and e.name == "pandas.DataFrame.set_index"]
    okn = False
    for e in sets:
        k = e.args[0] if e.args else e.kwargs.get("keys")
        if k is not None and (is_const(k, "node") or k.op in ("list", "tuple") and len(st.contents.get(k, ())) == 1 and is_const(st.contents[k][0][3], "node")):
            okn = not e.guard
    ctx.oblige(okn and len(sets) == 1, "rows", FQ + ":index", "the table is not indexed by node", f.where)
    exc = st.heap.get((gf, "exc_metrics"))
    inc = st.heap.get((gf, "inc_metrics"))
    ex = [c[3] for c in st.contents.get(exc, ())] if exc is not None else []
    ctx.oblige(len(ex) == 1 and is_const(ex[0], "time") and not st.contents.get(inc, ()), "metrics", FQ + ":exc",
               "time is not the one exclusive metric", gfs[0].where)
    upd = [e for e in ip.events if e.kind == "opaque" and e.name == UPD]
    ctx.oblige(len(upd) == 1 and not upd[0].guard and (upd[0].obj is gf or gf in upd[0].args), "metrics", FQ + ":inc",
               "the inclusive times are not computed", gfs[0].where)


def strip_frame(t):
    """The table a sorted or re-indexed table was made of."""
    while t is not None and t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("sort_index", "set_index", "copy"):
        t = t.a[0].a[0]
    return t


def check(ctx):
    node_step(ctx)
    graph_step(ctx)
    frame_step(ctx)
    ctx.need("recursive_calls", 1)
    ctx.need("from_lists_calls", 1)

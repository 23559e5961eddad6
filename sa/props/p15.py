"""P15: Graph.copy and Graph.union map every source node and every edge."""

from ..lib import implies, consistent, key_attr, frame_origin, peel, flat
from ..terms import mk, attr, canon, neg, b_and, b_or, restrict, is_const, subterms, FALSE
from ..repo import AnalysisBroken

TITLE = "copy and union map every node and edge of their sources"
RULE = (
    "Value-flow of Graph.copy and of Graph.union's recursive merge (helpers inlined, the caller's map bound): copy "
    "stores, for every node of a full traversal and unconditionally, a new node with that node's frame, links the "
    "images of all its parents and children, and its roots are the images of all roots. In union every step that "
    "consumes a source node (a) is allowed by the frame comparison of the two current nodes, (b) appends exactly one "
    "result node and links it below the parent, (c) if the node was not mapped, maps it to that result node and "
    "merges its children (sorted by frame) below it, and never merges the children of a mapped node again, (d) if it "
    "was mapped, reuses its image; both lists, sorted by frame, are drained. Entailment between path conditions is "
    "decided by truth table over their atoms."
)
ASSUMPTIONS = ("frames are totally ordered (P08)",)

G = "hatchet.graph.Graph."
M = mk("dict", ("the caller's map",))


# ------------------------------------------------------------------ copy
def check_copy(ctx):
    q = G + "copy"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, bind={"old_to_new": M})
    selft = mk("param", q, "self")
    NODE = mk("ext", "<every node>")

    def full(t):
        t = peel(t)
        if t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0] in (G + "traverse", G + "node_order_traverse"):
            a = t.a[1]
            kw = dict(t.a[2])
            kw.pop("#", None)
            kw.pop("order", None)
            return a and a[0] is selft and len(a) <= 2 and not kw
        return False

    def norm(t, memo=None):
        """Source node and image terms by role."""
        if t.op in ("elem", "key") and (full(t.a[0]) or peel(t.a[0]) is M or is_view(t.a[0], "keys")):
            return NODE
        if t.op == "val" and t.a[0] is M:
            return mk("item", M, NODE)
        if t.op == "elem":
            return mk("elem", norm(peel(t.a[0])))
        if t.op == "attr":
            return mk("attr", norm(t.a[0]), t.a[1])
        if t.op == "item" and t.a[0] is M:
            return mk("item", M, norm(t.a[1]))
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[0] is M and t.a[0].a[1] in ("get", "__getitem__") and len(t.a[1]) == 1:
            return mk("item", M, norm(t.a[1][0]))
        return t

    def is_view(t, name):
        return t.op == "call" and t.a[0].op == "attr" and t.a[0].a[0] is M and t.a[0].a[1] == name

    # 1. the map
    stores = [e for e in ip.events if e.kind == "setitem" and e.obj is M]
    news = set()
    ok = False
    for e in stores:
        if norm(e.args[0]) is NODE and not e.guard and not breaks(ip, e):
            src = e.args[0]
            vs = ip.sources(e.value)
            if all(v.op == "new" and frame_origin(ip, res.state, v) == {src} for v in vs):
                ok = True
                news.update(vs)
    # a comprehension or update into the map
    if not ok:
        for g, loops, k, v in res.state.contents.get(M, ()):
            if k is not None and norm(k) is NODE and not g:
                vs = ip.sources(v)
                if all(x.op == "new" and frame_origin(ip, res.state, x) == {k} for x in vs):
                    ok = True
                    news.update(vs)
    ctx.oblige(ok, "copy-map", q, "not every node of a full traversal is mapped to a new node with its frame in the "
               "caller's map", stores[0].where if stores else f.where)
    for e in ip.events:
        if e.kind == "delitem" and e.obj is M or e.kind == "call" and e.obj is M and e.name in ("pop", "clear", "popitem"):
            ctx.oblige(False, "copy-map", q + ":removed", "entries of the caller's map are removed", e.where)
    IMG = mk("item", M, NODE)
    want_owner = {IMG} | news
    # 2. links
    for field in ("parents", "children"):
        target = mk("item", M, mk("elem", mk("attr", NODE, field)))
        found = None
        for e in ip.events:
            if e.kind == "call" and e.name in ("append",) and e.obj is not None and e.obj.op == "attr" and e.obj.a[1] == field:
                if norm(e.obj.a[0]) in want_owner and e.args and norm(e.args[0]) is target and not e.guard and not breaks(ip, e):
                    found = e
            if e.kind == "call" and e.name == "extend" and e.obj is not None and e.obj.op == "attr" and e.obj.a[1] == field:
                if norm(e.obj.a[0]) in want_owner and e.args and all_images(ip, res, e.args[0], target, norm) and not e.guard:
                    found = e
            if e.kind == "setattr" and e.name == field and norm(e.obj) in want_owner and not e.guard:
                if all_images(ip, res, e.value, target, norm):
                    found = e
            if e.kind == "call" and e.name == "append" and e.obj is not None and e.obj.op == "list" and e.args:
                # the list allocated for the new node's field
                if any(res.state.heap.get((n, field)) is e.obj for n in news) and norm(e.args[0]) is target and not e.guard and not breaks(ip, e):
                    found = e
        # symmetric construction: linking images of children covers parents of the image
        if found is None:
            other = "children" if field == "parents" else "parents"
            t2 = mk("item", M, mk("elem", mk("attr", NODE, other)))
            for e in ip.events:
                if e.kind == "call" and e.name == "append" and e.obj is not None and e.obj.op == "attr" and e.obj.a[1] == field:
                    if norm(e.obj.a[0]) is t2 and e.args and norm(e.args[0]) in want_owner and not e.guard and not breaks(ip, e):
                        found = e
        ctx.oblige(found is not None, "copy-links", q + ":" + field,
                   "the %s of a copied node are not the images of all %s of its source" % (field, field), f.where)
    # 3. roots
    target = mk("item", M, mk("elem", attr(selft, "roots")))
    for g, r in res.returns:
        for s in ip.sources(r):
            roots = res.state.heap.get((s, "roots"))
            ok = s.op == "new" and roots is not None and all_images(ip, res, roots, target, norm)
            ctx.oblige(ok, "copy-roots", q, "the roots of the copy are not the images of all roots", f.where)
            no = res.state.heap.get((s, "node_ordering"))
            ctx.oblige(no is attr(selft, "node_ordering"), "copy-order", q,
                       "the copy does not carry the node_ordering of its source", f.where)
    # 4. nid
    ok = any(e.kind == "setattr" and e.name == "_hatchet_nid" and norm(e.obj) in want_owner
             and norm(e.value) is mk("attr", NODE, "_hatchet_nid") and not e.guard for e in ip.events)
    ctx.oblige(ok, "copy-nid", q, "a copied node does not take the id (node order) of its source", f.where)
    ctx.count("copy obligations", 6)


def breaks(ip, e):
    """A break or early return that can end one of the loops around e."""
    for b in ip.events:
        if b.kind in ("break", "return") and b.loops and e.loops:
            if b.kind == "break" and b.loops == e.loops[: len(b.loops)]:
                return True
            if b.kind == "return" and b.loops == e.loops[: len(b.loops)] and len(b.stack) <= len(e.stack):
                return True
    return False


def all_images(ip, res, t, target, norm):
    srcs = ip.sources(t)
    if not srcs:
        return False
    for s in srcs:
        s = peel(s)
        if s.op != "list":
            return False
        c = res.state.contents.get(s, ())
        if not c or any(g for g, l, k, v in c) or any(norm(v) is not target for g, l, k, v in c):
            return False
    return True


# ------------------------------------------------------------------ union
class Adv:
    def __init__(self, side, cur, e):
        self.side = side
        self.cur = cur
        self.e = e
        self.guard = e.guard
        self.loop = e.loops[-1] if e.loops else None


class Union:
    def __init__(self, ctx):
        self.ctx = ctx
        self.q = G + "union"
        self.f = ctx.repo.func(self.q)
        self.ip, self.res = ctx.analyze(self.q, bind={"old_to_new": M})
        ip = self.ip
        selft, othert = mk("param", self.q, "self"), mk("param", self.q, "other")
        self.roots = {"self": attr(selft, "roots"), "other": attr(othert, "roots")}
        self.rec = [e for e in ip.events if e.kind == "reccall" and "union" in e.name]
        if not self.rec:
            raise AnalysisBroken("Graph.union has no recursive merge")
        # recursion parameters by the side they carry
        self.side = {}
        self.parent = None
        for m, vs in ip.mu.items():
            if not str(m.a[0]).startswith("rec:"):
                continue
            first = [x for v in vs[:1] for x in flat(v)]
            for x in first:
                b = self.unsort(x)[0]
                for n, r in self.roots.items():
                    if b is r:
                        self.side[n] = m
            if vs and all(is_const(x, None) for x in flat(vs[0])):
                if any(x.op == "new" for v in vs for x in flat(v)):
                    self.parent = m
        if set(self.side) != {"self", "other"}:
            raise AnalysisBroken("the two sides of Graph.union's merge were not recognised")
        self.param = {n: str(m.a[0])[4:] for n, m in self.side.items()}
        self.pparam = str(self.parent.a[0])[4:] if self.parent is not None else None

    def unsort(self, t):
        """(collection, True when sorted by frame)"""
        s = False
        while t.op == "call" and t.a[0].op == "ext" and t.a[1]:
            n = t.a[0].a[0]
            if n == "builtins.sorted":
                if key_attr(self.ctx.repo, dict(t.a[2]).get("key")) == "frame" and "reverse" not in dict(t.a[2]):
                    s = True
                else:
                    return t, False
            elif n not in ("builtins.list", "builtins.tuple", "builtins.iter"):
                return t, s
            t = t.a[1][0]
        return t, s

    def iter_side(self, t):
        t2, s = self.unsort(t)
        for n, m in self.side.items():
            if t2 is m:
                return n, s
        return None, False

    def advances(self):
        ip = self.ip
        out = []
        self.cur_of = {}
        nexts = {}
        for e in ip.events:
            if e.kind == "call" and e.name == "builtins.next" and e.args:
                n, s = self.iter_side(e.args[0])
                if n:
                    site = dict(e.value.a[2]).get("#") if e.value.op == "call" else None
                    nexts[site] = (n, e)
        for m, vs in ip.mu.items():
            if str(m.a[0]).startswith("rec:"):
                continue
            ns = set()
            plain = True
            for v in vs:
                for x in flat(v):
                    if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.next":
                        site = dict(x.a[2]).get("#")
                        if site in nexts:
                            ns.add(nexts[site][0])
                            continue
                    if x.op in ("mu", "const"):
                        continue
                    plain = False
            if len(ns) == 1 and plain:
                self.cur_of[m] = ns.pop()
        for site, (n, e) in nexts.items():
            if not e.loops:
                continue
            cur = [m for m, s in self.cur_of.items() if s == n and m.a[1] == e.loops[-1] or
                   s == n and self.loop_of(m, e)]
            if cur:
                out.append(Adv(n, cur[0], e))
        for e in ip.events:
            if e.kind == "loop" and e.obj is not None:
                n, s = self.iter_side(e.obj)
                if n:
                    a = Adv(n, mk("elem", e.obj), e)
                    a.loop = e.name
                    a.guard = e.guard
                    out.append(a)
        return out

    def loop_of(self, m, e):
        """m is the loop variable of the innermost loop around e."""
        vs = self.ip.mu.get(m, ())
        site = dict(e.value.a[2]).get("#")
        return any(x.op == "call" and dict(x.a[2]).get("#") == site for v in vs[1:] for x in flat(v)) and m.a[1] == e.loops[-1]


def get(c):
    return mk("call", attr(M, "get"), (mk("call", mk("ext", "builtins.id"), (c,), ()),), ())


def key(c):
    return mk("call", mk("ext", "builtins.id"), (c,), ())


def mapped(c, yes):
    """The spellings of `c has an image`."""
    ls = [mk("truth", get(c)), mk("cmp", "in", key(c), M), mk("not", mk("cmp", "is", get(c), mk("const", None)))]
    return [x if yes else neg(x) for x in ls]


def make_norm(atoms):
    def norm(a):
        for c, base in atoms:
            if a is mk("cmp", "in", key(c), M) or a is mk("truth", get(c)):
                return base, True
            if a is mk("cmp", "is", get(c), mk("const", None)):
                return base, False
        if a.op == "cmp" and a.a[0] == "<=":
            return mk("cmp", "<", a.a[2], a.a[1]), False
        if a.op == "truth" and a.a[0].op == "mu":
            return mk("cmp", "is", a.a[0], mk("const", None)), False
        return a, True
    return norm


def check_union(ctx):
    u = Union(ctx)
    ip, res, q = u.ip, u.res, u.q
    where = u.f.where
    advs = u.advances()
    for n in ("self", "other"):
        if not any(a.side == n for a in advs):
            raise AnalysisBroken("no step of Graph.union consumes %s's nodes" % n)
    # every list merged is sorted by frame
    for n, m in u.side.items():
        for v in ip.mu[m]:
            for s in flat(v):
                col, srt = u.unsort(s)
                if col.op == "tuple" and not col.a or col.op == "list" and not res.state.contents.get(col):
                    continue
                for c in flat(col):
                    if c.op == "list" and not res.state.contents.get(c) or c.op == "tuple" and not c.a:
                        continue
                    if c.op in ("mu",):
                        continue
                    ctx.oblige(srt or sorted_inside(u, n), "order", q + ":" + n,
                               "%r is merged without being sorted by frame" % c, where)
                    okc = c is u.roots[n] or c.op == "attr" and c.a[1] == "children"
                    ctx.oblige(okc, "side", q + ":" + n, "%r is merged on %s's side" % (c, n), where)
    # the returned list
    ret = None
    for g, r in res.returns:
        for s in ip.sources(r):
            roots = res.state.heap.get((s, "roots"))
            ok = s.op == "new" and roots is not None
            ctx.oblige(ok, "result", q, "union does not return a new graph", where)
            if ok:
                rs = [peel(x) for x in ip.sources(roots)]
                rs = [x for x in rs if x.op == "list"]
                ret = rs[0] if rs else None
    if ret is None:
        ctx.oblige(False, "result", q + ":roots", "the roots of the union are not the merged roots", where)
        return
    stores = [e for e in ip.events if e.kind == "setitem" and e.obj is M]
    apps = [e for e in ip.events if e.kind == "call" and e.name in ("append",) and e.obj is ret]
    links = [e for e in ip.events if e.kind == "call" and e.name == "append" and e.obj is not None and e.obj.op == "attr"
             and e.obj.a[1] == "children" and e.obj.a[0] is u.parent]
    # group simultaneous advances
    groups = []
    for a in advs:
        for gr in groups:
            if gr[0].loop == a.loop and set(gr[0].guard) == set(a.guard) and gr[0].side != a.side:
                gr.append(a)
                break
        else:
            groups.append([a])
    NONE = mk("const", None)
    for gr in groups:
        ctx.count("consuming steps")
        e = gr[0].e
        cons = "%s:%s" % (q, "+".join(a.side for a in gr))
        inloop = lambda x: gr[0].loop in x.loops
        curs = [a.cur for a in gr]
        both = len(gr) == 2
        # the other side's current node in this loop
        others = {}
        for m, s in u.cur_of.items():
            if m.a[1] == gr[0].loop:
                others[s] = m
        atoms = [(c, mk("ext", "<mapped %d>" % i)) for i, c in enumerate(dict.fromkeys(curs + list(others.values())))]
        axioms = []
        if len(others) == 2:
            fa, fb = attr(others["self"], "frame"), attr(others["other"], "frame")
            lt, gt = mk("cmp", "<", fa, fb), mk("cmp", "<", fb, fa)
            eqs = [mk("cmp", "==", fa, fb), mk("cmp", "==", fb, fa)]
            for eq in eqs:
                axioms += [b_or(lt, gt, eq), neg(b_and(lt, gt)), neg(b_and(lt, eq)), neg(b_and(gt, eq))]
        norm = make_norm(atoms)
        P = list(gr[0].guard)
        # (a) comparison
        if len(others) == 2 and both:
            ok = implies(P, b_and(neg(lt), neg(gt)), axioms=axioms, norm=norm)
            ctx.oblige(ok, "compare", cons, "both nodes are consumed although their frames may differ", e.where)
        elif len(others) == 2:
            mine, oth = (lt, "other") if gr[0].side == "self" else (gt, "self")
            ok = implies(P, b_or(mine, mk("cmp", "is", others[oth], NONE)), axioms=axioms, norm=norm)
            ctx.oblige(ok, "compare", cons, "a node of %s is consumed alone although it may not come first" % gr[0].side, e.where)
        # (b) one result node
        cases = []
        if both:
            for x in (True, False):
                for y in (True, False):
                    cases.append((x, y))
        else:
            cases = [(True,), (False,)]
        for case in cases:
            prem = list(P)
            for c, yes in zip(curs, case):
                prem += mapped(c, yes)
            label = cons + ":" + ",".join("mapped" if x else "new" for x in case)
            con = lambda ev: inloop(ev) and consistent(prem, list(ev.guard), axioms=axioms, norm=norm)
            imp = lambda evs: implies(prem, b_or(*[b_and(*ev.guard) for ev in evs]) if evs else FALSE, axioms=axioms, norm=norm)
            mine = [x for x in apps if con(x)]
            ok = len(mine) == 1 and imp(mine)
            if not ctx.oblige(ok, "append", label, "the consumed node adds %s to the merged children"
                              % ("%d nodes" % len(mine) if len(mine) != 1 else "no node on some path"), e.where):
                continue
            V = leaves(ip, mine[0].args[0], prem)
            # link below the parent
            if u.parent is not None:
                pl = prem + [neg(mk("cmp", "is", u.parent, NONE)), mk("truth", u.parent)]
                ls = [x for x in links if inloop(x) and consistent(pl, list(x.guard), axioms=axioms, norm=norm)]
                ok = len(ls) == 1 and implies(pl, b_and(*ls[0].guard), axioms=axioms, norm=norm) and leaves(ip, ls[0].args[0], prem) == V
                ctx.oblige(ok, "link", label, "the merged node is not linked exactly once below its parent", e.where)
            # value
            unm = [c for c, yes in zip(curs, case) if not yes]
            mpd = [c for c, yes in zip(curs, case) if yes]
            if mpd:
                ok = V and all(any(v is get(c) or v is mk("item", M, key(c)) for c in mpd) for v in V)
                ctx.oblige(ok, "image", label, "the image of an already mapped node is not reused", e.where)
            else:
                ok = V and all(v.op == "new" and (frame_origin(ip, res.state, v) & set(curs)) for v in V)
                ctx.oblige(ok, "image", label, "the merged node does not carry the frame of the consumed node", e.where)
            for a, c, yes in zip(gr, curs, case):
                st = [x for x in stores if inloop(x) and x.args and x.args[0] is key(c) and con(x)]
                if not yes:
                    ok = imp(st) and all(leaves(ip, x.value, prem) == V for x in st)
                    ctx.oblige(ok, "map", label + ":" + a.side,
                               "a consumed node of %s is not mapped to its merged node" % a.side, e.where)
                else:
                    ok = all(leaves(ip, x.value, prem) <= {get(c), mk("item", M, key(c))} for x in st)
                    ctx.oblige(ok, "map", label + ":" + a.side + ":again",
                               "a mapped node of %s is mapped again to another node" % a.side, e.where)
            # (c) children
            recs = [x for x in u.rec if con(x)]
            total = {a.side: [] for a in gr}
            for x in recs:
                for n in ("self", "other"):
                    t = x.kwargs.get(u.param[n])
                    if t is None:
                        continue
                    for s in leaves(ip, u.unsort(restrict(t, prem))[0], prem):
                        s = u.unsort(s)[0]
                        if s.op == "tuple" and not s.a or s.op == "list" and not res.state.contents.get(s):
                            continue
                        if n in total:
                            total[n].append((s, x))
                        else:
                            ctx.oblige(False, "children", label + ":" + n, "children of %s are merged by a step that consumes no node of it" % n, x.where)
            for a, c, yes in zip(gr, curs, case):
                got = total[a.side]
                want = attr(c, "children")
                if yes:
                    ctx.oblige(not got, "children", label + ":" + a.side + ":again",
                               "the children of an already mapped node of %s are merged again" % a.side, e.where)
                else:
                    ok = len(got) == 1 and got[0][0] is want and imp([got[0][1]])
                    ctx.oblige(ok, "children", label + ":" + a.side,
                               "the children of a newly mapped node of %s are not merged exactly once" % a.side, e.where)
                    if ok and u.pparam:
                        pv = leaves(ip, got[0][1].kwargs.get(u.pparam), prem)
                        ctx.oblige(pv == V, "children", label + ":" + a.side + ":parent",
                                   "the children of a node of %s are merged below another node" % a.side, got[0][1].where)
            if both and case == (False, False):
                xs = {id(x) for a in gr for s, x in total[a.side]}
                ctx.oblige(len(xs) == 1, "children", label + ":together",
                           "the children of two equal nodes are not merged with each other", e.where)
    # drained
    for n in ("self", "other"):
        ok = False
        for a in advs:
            if a.side != n:
                continue
            if a.e.kind == "loop":
                ok = True
                continue
            live = [mk("truth", a.cur), neg(mk("cmp", "is", a.cur, NONE))]
            for w in ip.events:
                if w.kind == "whilecond" and w.name == a.loop and w.loops and w.loops[-1] == a.loop:
                    if implies(live, w.value, norm=make_norm([])):
                        ok = True
                if w.kind == "whilecond" and w.obj is None and a.loop in w.loops and implies(live, w.value, norm=make_norm([])):
                    ok = True
        ctx.oblige(ok, "drain", q + ":" + n, "nodes of %s left when the other side is exhausted are not merged" % n, where)


def sorted_inside(u, n):
    """The merge sorts the list itself before iterating over it."""
    for e in u.ip.events:
        if e.kind == "call" and e.name == "builtins.next" and e.args:
            m, s = u.iter_side(e.args[0])
            if m == n and not s:
                return False
    return any(e.kind == "call" and e.name == "builtins.next" and e.args and u.iter_side(e.args[0]) == (n, True) for e in u.ip.events)


def leaves(ip, t, prem):
    if t is None:
        return set()
    return set(flat(restrict(t, prem)))


def check(ctx):
    check_copy(ctx)
    check_union(ctx)
    ctx.need("consuming steps", 2)

"""P26: groupby_aggregate: one node and one row per group, all edges between groups."""

from ..lib import strip_copy, peel
from ..terms import is_const, mk, attr, TRUE, FALSE, subterms, neg, cval
from .p24 import given

TITLE = "groupby_aggregate: one node and row per group, all edges between groups"
RULE = (
    "Value-flow of GraphFrame.groupby_aggregate with its recursion inlined. Groups: in one unconditional loop over "
    "the groups of the grouped table a new node named after the group is made, every member of the group is mapped to "
    "it and one record with it is added to the node table, in the order of the groups; the result's table joins the "
    "aggregate of the same groups with the node table, without a column of the same name, indexed by node. Edges: "
    "every root and, below every node reached, every child is visited; for every edge the images are linked in both "
    "directions exactly if they differ and are not linked yet; the images of nodes without parents become roots once. "
    "Conditions are evaluated in each of these worlds; a condition that none of them decides is a violation."
)

Q = "hatchet.graphframe.GraphFrame.groupby_aggregate"
GR = "hatchet.graph.Graph."
ND = "hatchet.node.Node"
ENUM = GR + "enumerate_traverse"
DROP = "hatchet.graphframe.GraphFrame.drop_index_levels"


def meth(t, name):
    return t is not None and t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == name


class Groupby:
    def __init__(self, ctx):
        self.ctx = ctx
        self.f = ctx.repo.func(Q)
        self.ip, self.res = ctx.analyze(Q, opaque=(ENUM, DROP, GR + "traverse", ND + ".traverse"))
        self.st = self.res.state
        self.me = mk("param", Q, "self")
        self.by, self.agg = mk("param", Q, "groupby_function"), mk("param", Q, "agg_function")
        self.maps = set()

    def where(self, e=None):
        return e.where if e is not None else self.f.where

    def obl(self, ok, what, msg, e=None):
        self.ctx.oblige(ok, what, Q + ":" + what, msg, self.where(e))

    # -- groups
    def grouped(self, t):
        """self.dataframe.groupby(groupby_function)"""
        return meth(t, "groupby") and strip_copy(t.a[0].a[0]) is attr(self.me, "dataframe") and (
            t.a[1][:1] == (self.by,) or dict(t.a[2]).get("by") is self.by
        )

    def groups(self, t):
        """Groups of the table: {key: members}"""
        t = peel(t)
        return t.op == "attr" and t.a[1] == "groups" and self.grouped(t.a[0])

    def group_key(self, t):
        return (t.op in ("key", "elem") and (self.groups(t.a[0]) or meth(t.a[0], "keys") and self.groups(t.a[0].a[0].a[0]))
                or t.op == "item" and t.a[0].op == "elem" and self.grouped(peel(t.a[0].a[0])) and is_const(t.a[1], 0))

    def members(self, t):
        """The index labels of one group."""
        t = peel(t)
        if t.op == "val" and self.groups(t.a[0]):
            return True
        if t.op == "item" and self.groups(t.a[0]) and self.group_key(t.a[1]):
            return True
        if t.op == "attr" and t.a[1] == "index":
            x = t.a[0]
            if x.op == "item" and x.a[0].op == "elem" and self.grouped(peel(x.a[0].a[0])) and is_const(x.a[1], 1):
                return True
            return meth(x, "get_group") and self.grouped(x.a[0].a[0]) and self.group_key(x.a[1][0])
        return False

    def loops_over_groups(self, e):
        return [l for l in e.loops if l in self.group_loops]

    def group_part(self):
        ip = self.ip
        self.group_loops = {
            e.name for e in ip.events if e.kind == "loop" and e.obj is not None
            and (self.groups(peel(e.obj)) or self.grouped(peel(e.obj))
                 or meth(peel(e.obj), "items") and self.groups(peel(e.obj).a[0].a[0])
                 or meth(peel(e.obj), "keys") and self.groups(peel(e.obj).a[0].a[0])
                 or peel(e.obj).op == "call" and peel(e.obj).a[0].op == "ext" and peel(e.obj).a[0].a[0] == "builtins.enumerate"
                 and peel(e.obj).a[1] and any(self.groups(x) or meth(x, "items") and self.groups(x.a[0].a[0]) or self.grouped(x)
                                             for x in [peel(peel(e.obj).a[1][0])]))
        }
        supers = [e for e in ip.events if e.kind == "new" and e.name == ND]
        self.ctx.count("node_creations", len(supers))
        self.obl(bool(supers) and all(len(e.loops) == 1 and e.loops[0] in self.group_loops and not e.guard for e in supers)
                 and len(supers) == 1, "one-node",
                 "there must be exactly one new node for every group of the grouped table", supers[0] if supers else None)
        self.super = supers[0].value if supers else None
        if self.super is None:
            return
        # its frame
        e = supers[0]
        fr = self.st.heap.get((self.super, "frame"))
        frames = ip.sources(fr) if fr is not None else []
        d = [x for x in ip.events if x.kind == "new" and x.value in frames]
        named = False
        for x in d:
            for a in list(x.args) + list(x.kwargs.values()):
                if a.op == "dict":
                    named = named or any(is_const(k, "name") and self.group_key(v) and not g
                                         for g, l, k, v in self.st.contents.get(a, ()) if k is not None)
                elif self.group_key(a):
                    named = named or x.kwargs.get("name") is a
        self.obl(named, "node-name", "the node of a group must be named after the group", e)
        # members
        found = []
        for m, entries in self.st.contents.items():
            if m.op != "dict":
                continue
            for g, l, k, v in entries:
                if v is self.super and k is not None and not is_const(k):
                    found.append((m, g, k))
                if v.op == "star" and v.a[0].op == "dict" and v.a[0] is not m:
                    for g2, l2, k2, v2 in self.st.contents.get(v.a[0], ()):
                        if v2 is self.super and k2 is not None and not is_const(k2):
                            found.append((m, tuple(g) + tuple(g2), k2))
        # dict.fromkeys(members, node) and the like
        for ev in ip.events:
            if ev.kind == "call" and ev.name == "update" and ev.obj is not None and ev.obj.op == "dict":
                for a in ev.args:
                    if a.op == "call" and a.a[0].op == "ext" and a.a[0].a[0].endswith("fromkeys") and len(a.a[1]) == 2 and a.a[1][1] is self.super:
                        found.append((ev.obj, ev.guard, mk("elem", a.a[1][0], "x")))
        parts = {v.a[0] for m, g, k in found for g2, l2, k2, v in self.st.contents.get(m, ()) if v.op == "star"}
        found = [x for x in found if x[0] not in parts]
        self.maps = {m for m, g, k in found}
        self.obl(
            bool(self.maps) and all(k.op == "elem" and self.members(k.a[0]) and not g for m, g, k in found),
            "members", "every member of a group must be mapped to the group's node, unconditionally", e,
        )
        # records
        self.recs = []
        for lst, entries in self.st.contents.items():
            if lst.op != "list":
                continue
            for g, l, k, v in entries:
                if v.op == "dict" and any(
                    kk is not None and is_const(kk, "node") and vv is self.super for gg, ll, kk, vv in self.st.contents.get(v, ())
                ):
                    self.recs.append((lst, g, l, v))
        ok = len(self.recs) == 1 and not self.recs[0][1] and len(self.recs[0][2]) == 1 and self.recs[0][2][0] in self.group_loops
        if ok:
            vals = {cval(k): v for g, l, k, v in self.st.contents[self.recs[0][3]] if k is not None and k.op == "const" and not g}
            ok = "name" in vals and self.group_key(vals["name"]) and vals.get("node") is self.super
        self.obl(ok, "record", "the node table must get, for every group, one record with the group's node and name", e)

    # -- table
    def table_part(self):
        out = None
        for e in self.ip.events:
            if e.kind == "new" and e.name == "hatchet.graphframe.GraphFrame":
                out = e.value
        rets = [l for g, v in self.res.returns for g2, l in self.ip.leaves(v)]
        self.obl(out is not None and rets == [out], "result", "the new graph frame must be what is returned")
        if out is None:
            return
        df = self.st.heap.get((out, "dataframe"))
        graph = self.st.heap.get((out, "graph"))
        self.graph = graph
        indexed = False
        t = strip_copy(df)
        while meth(t, "set_index") or meth(t, "sort_index") or meth(t, "rename_axis"):
            if meth(t, "set_index"):
                indexed = indexed or self.by_node(t.a[1][0] if t.a[1] else dict(t.a[2]).get("keys"))
            t = t.a[0].a[0]
        for e in self.ip.events:
            if e.kind == "call" and e.name == "set_index" and e.obj is t and e.kwargs.get("inplace") == mk("const", True):
                indexed = indexed or self.by_node(e.args[0] if e.args else e.kwargs.get("keys"))
        self.obl(indexed, "index", "the table of the result must be indexed by its node column")
        parts = self.joined(t)
        self.obl(parts is not None, "join",
                 "the table must join, row by row, the aggregate of the groups and the node table; it is %s" % repr(t)[:120])

    def by_node(self, k):
        if k is None:
            return False
        if is_const(k, "node"):
            return True
        if k.op == "list":
            return any(is_const(v, "node") for g, l, kk, v in self.st.contents.get(k, ()))
        return k.op == "tuple" and any(is_const(v, "node") for v in k.a)

    def joined(self, t):
        if not (t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "pandas.concat"):
            return None
        lst = t.a[1][0] if t.a[1] else dict(t.a[2]).get("objs")
        kw = dict(t.a[2])
        axis = kw.get("axis", t.a[1][1] if len(t.a[1]) > 1 else None)
        if axis is None or not (is_const(axis, 1) or is_const(axis, "columns")):
            return None
        items = [v for g, l, k, v in self.st.contents.get(lst, ())] if lst.op == "list" else list(lst.a) if lst.op == "tuple" else []
        if len(items) != 2:
            return None
        a, n = items
        if not self.aggregate(a):
            a, n = n, a
        if not (self.aggregate(a) and self.nodes(n)):
            return None
        return a, n

    def aggregate(self, t, drop=False):
        """The aggregate of the groups, rows untouched; columns may be dropped."""
        t = strip_copy(t)
        if t.op in ("ite", "phi"):
            return all(self.aggregate(x, drop) for x in self.ip.sources(t))
        if meth(t, "agg") or meth(t, "aggregate"):
            src = t.a[0].a[0]
            fn = t.a[1][:1] == (self.agg,) or dict(t.a[2]).get("func") is self.agg
            return self.grouped(src) and fn and drop
        if meth(t, "reset_index"):
            return self.aggregate(t.a[0].a[0], drop)
        if meth(t, "drop"):
            kw = dict(t.a[2])
            cols = kw.get("columns")
            if cols is None and kw.get("axis") is not None and (is_const(kw["axis"], 1) or is_const(kw["axis"], "columns")):
                cols = t.a[1][0] if t.a[1] else None
            return cols is not None and self.aggregate(t.a[0].a[0], drop or self.clashing(cols))
        if t.op == "item":
            # t.loc[:, columns], t[columns]
            base, key = t.a
            if base.op == "attr" and base.a[1] == "loc":
                base = base.a[0]
                if not (key.op == "tuple" and len(key.a) == 2 and key.a[0].op == "slice"):
                    return False
                key = key.a[1]
            return self.aggregate(base, drop or self.clashing(key))
        return False

    def clashing(self, cols):
        """Columns chosen by the names that the node table brings along."""
        sub = list(subterms(cols))
        for x in list(sub):
            if x.op in ("list", "set", "tuple"):
                for g, l, k, v in self.st.contents.get(x, ()):
                    sub.extend(subterms(v))
                    for y in g:
                        sub.extend(subterms(y))
        if any(self.nodes(x) for x in sub if x.op == "call"):
            return True
        names = {cval(x) for x in sub if x.op == "const" and isinstance(x.a[0], str)}
        return {"node", "name"} <= names

    def nodes(self, t):
        """The table made of the records."""
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("pandas.DataFrame.from_dict", "pandas.DataFrame", "pandas.DataFrame.from_records"):
            kw = dict(t.a[2])
            d = t.a[1][0] if t.a[1] else kw.get("data")
            return bool(self.recs) and strip_copy(peel(d, ("builtins.list", "builtins.tuple"))) is self.recs[0][0]
        return False

    # -- edges
    def image(self, t):
        """The old node whose group node a term is."""
        if meth(t, "get") and t.a[0].a[0] in self.maps and len(t.a[1]) >= 1:
            return t.a[1][0]
        if t.op == "item" and t.a[0] in self.maps:
            return t.a[1]
        if t.op == "elem" and t.a[0].op == "list":
            # an element of [map[x] for x in xs]
            made = self.st.contents.get(t.a[0], ())
            if len(made) == 1 and not made[0][0] and made[0][3].op != "elem":
                return self.image(made[0][3])
        return None

    def all_nodes(self, n, seen=None):
        """Is n every node of the graph: roots and, from there, all children?"""
        if n.op == "elem":
            c = peel(n.a[0])
            if c.op == "call" and c.a[0].op == "fn" and c.a[0].a[0] == GR + "traverse":
                return c.a[1][:1] == (attr(self.me, "graph"),) and "visited" not in dict(c.a[2])
            return False
        if meth(n, "pop") or meth(n, "popleft"):
            return self.worklist(n)
        if n.op != "mu":
            return False
        src = list(self.ip.mu.get(n, ()))
        roots = [s for s in src if s.op == "elem" and peel(s.a[0]) is attr(attr(self.me, "graph"), "roots")]
        kids = [s for s in src if s.op == "elem" and peel(s.a[0]) is attr(n, "children")]
        return bool(roots) and bool(kids)

    def worklist(self, n):
        """n is taken from a list that starts with all roots and gets all
        children of every node that is taken from it first."""
        w = n.a[0].a[0]
        roots = kids = False
        for g, l, k, v in self.st.contents.get(w, ()):
            src = peel(v.a[0]) if v.op in ("star", "elem") else None
            if src is attr(attr(self.me, "graph"), "roots") and not g:
                roots = True
            elif src is attr(n, "children"):
                c = v if v.op == "elem" else None

                def decide(x):
                    if x.op == "truth" and x.a[0] in (w, src):
                        return True
                    if x.op == "cmp" and x.a[0] == "in" and x.a[1] in (n, c) and x.a[2] is not w:
                        items = [y for gg, ll, kk, y in self.st.contents.get(x.a[2], ())]
                        return False if items and all(y in (n, c) for y in items) else None
                    return None

                if all(given(y, decide) is TRUE for y in g):
                    kids = True
            elif src is not attr(attr(self.me, "graph"), "roots"):
                return False
        return roots and kids

    def edge(self, a, b):
        """(parent, child) if a -> b are old nodes of an edge, and the visited node."""
        if b.op == "elem" and peel(b.a[0]) is attr(a, "children"):
            return a
        if a.op == "elem" and peel(a.a[0]) is attr(b, "parents"):
            return b
        return None

    def world(self, e, a, b, same, linked):
        """The condition of an event on the edge a -> b in a world."""
        A, B = None, None

        def decide(x):
            if x.op == "cmp" and x.a[0] in ("==", "is"):
                i, j = self.image(x.a[1]), self.image(x.a[2])
                if i is not None and j is not None and {i, j} == {a, b}:
                    return same
                if any(is_const(y, None) for y in x.a[1:]):
                    return False
            if x.op == "cmp" and x.a[0] == "in":
                return self.member(x, a, b, linked)
            if x.op == "truth" and self.image(x.a[0]) is not None:
                return True
            if x.op == "truth" and x.a[0].op == "list" and any(meth(y, "pop") or meth(y, "popleft") for y in (a, b)):
                return True
            if x.op == "truth" and x.a[0].op == "call" and x.a[0].a[0].op == "ext" and x.a[0].a[0].a[0] == "builtins.any":
                # any(y is image for y in linked)
                made = self.st.contents.get(x.a[0].a[1][0], ())
                c = made[0][3] if len(made) == 1 and set(made[0][0]) <= set(e.guard) else None
                if c is not None and c.op == "cmp" and c.a[0] in ("==", "is"):
                    for y, z in (c.a[1:], c.a[:0:-1]):
                        if y.op == "elem":
                            return self.member(mk("cmp", "in", z, y.a[0]), a, b, linked)
            return None

        g = TRUE
        for y in e.guard:
            z = given(y, decide)
            if z is FALSE:
                return FALSE
            if z is not TRUE:
                g = z
        return g

    def visited_set(self, s):
        """A set holding exactly the visited old nodes."""
        items = [v for g, l, k, v in self.st.contents.get(s, ())]
        return s.op in ("set", "list", "dict") and bool(items) and all(
            self.all_nodes(v) or v.op == "elem" and peel(v.a[0]).op == "attr" and peel(v.a[0]).a[1] == "children" for v in items
        )

    def member(self, x, a, b, linked):
        what, where = x.a[1], x.a[2]
        if self.image(what) is not None and where.op == "attr" and where.a[1] in ("parents", "children") and self.image(where.a[0]) is not None:
            pair = (self.image(where.a[0]), self.image(what))
            want = (a, b) if where.a[1] == "children" else (b, a)
            return linked if pair == want else None
        if what.op == "tuple" and len(what.a) == 2 and {self.image(y) for y in what.a} == {a, b}:
            return linked
        if self.image(what) is None and self.visited_set(where) and (what.op in ("mu", "elem") or meth(what, "pop") or meth(what, "popleft")):
            return False
        return None

    def link_events(self):
        """(event, parent's old node, child's old node, direction)"""
        for e in self.ip.events:
            if e.kind == "invoke" and e.name in (ND + ".add_parent", ND + ".add_child"):
                x, y = self.image(e.args[0]), self.image(e.args[1])
                d = "children" if e.name.endswith("child") else "parents"
            elif (e.kind == "call" and e.name in ("append", "insert", "add") and e.obj is not None and e.obj.op == "attr"
                  and e.obj.a[1] in ("parents", "children") and self.image(e.obj.a[0]) is not None):
                if not e.where.startswith("hatchet/graphframe.py"):
                    continue
                x, y = self.image(e.obj.a[0]), self.image(e.args[-1])
                d = e.obj.a[1]
            else:
                continue
            if x is None or y is None:
                yield e, None, None, d
            else:
                yield (e, x, y, d) if d == "children" else (e, y, x, d)

    def edge_part(self):
        seen = set()
        for e, a, b, d in self.link_events():
            n = self.edge(a, b) if a is not None else None
            self.ctx.count("links", 1)
            ok = n is not None and self.all_nodes(n)
            self.obl(ok, "edge:%s" % d, "links are made between the group nodes of the two ends of every edge", e)
            if not ok:
                continue
            self.obl(self.world(e, a, b, False, False) is TRUE, "edge-made:%s" % d,
                     "two groups with an edge between them must be linked (%s); this depends on %s"
                     % (d, repr(e.guard)[:160]), e)
            self.obl(self.world(e, a, b, True, False) is FALSE and self.world(e, a, b, True, True) is FALSE, "inner-edge:%s" % d,
                     "an edge inside a group must not link the group to itself", e)
            self.obl(self.world(e, a, b, False, True) is FALSE, "edge-once:%s" % d,
                     "groups that are linked already must not be linked again", e)
            seen.add(d)
        self.obl(seen == {"parents", "children"}, "both-ways", "edges between groups must be linked in both directions")
        # no early end of the walk
        walk = {l for e, a, b, d in self.link_events() for l in e.loops}
        for e in self.ip.events:
            if e.kind == "break" and set(e.loops) & walk:
                self.obl(False, "break", "the walk over the edges must not end early", e)
            if e.kind == "reccall":
                n = e.args[0] if e.args else None
                for v in e.args:
                    if v.op == "elem" and peel(v.a[0]).op == "attr" and peel(v.a[0]).a[1] == "children":
                        n = v
                par = peel(n.a[0]).a[0] if n is not None and n.op == "elem" and peel(n.a[0]).op == "attr" else None
                if par is None:
                    continue

                def decide(x):
                    if x.op == "cmp" and x.a[0] == "in" and self.visited_set(x.a[2]) and x.a[1] in (par, n):
                        return False
                    if x.op == "truth" and x.a[0] is attr(par, "children"):
                        return True
                    return None

                self.obl(all(given(y, decide) is TRUE for y in e.guard), "walk",
                         "every child of a node that is visited first must be visited; this depends on %s" % repr(e.guard)[:160], e)
                self.ctx.count("recursions", 1)

    def root_part(self):
        roots = self.st.heap.get((self.graph, "roots")) if self.graph is not None else None
        if roots is None or roots.op not in ("list",):
            roots = peel(roots) if roots is not None else None
        entries = self.st.contents.get(roots, ()) if roots is not None else ()
        self.obl(bool(entries), "roots", "the images of the roots must become the roots of the new graph")
        for g, l, k, v in entries:
            n = self.image(v)
            ok = n is not None
            self.obl(ok, "root", "only group nodes of roots may become roots; %s does" % repr(v)[:100])
            if not ok:
                continue
            isroot = n.op == "elem" and peel(n.a[0]) is attr(attr(self.me, "graph"), "roots")

            def cond(parents, already):
                def decide(x):
                    if x.op == "truth" and x.a[0] is attr(n, "parents"):
                        return parents
                    if x.op == "cmp" and any(y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0] == "builtins.len" and y.a[1][0] is attr(n, "parents") for y in x.a[1:]):
                        if x.a[0] == "==" and any(is_const(y, 0) for y in x.a[1:]):
                            return not parents
                        if x.a[0] == "<" and is_const(x.a[1], 0):
                            return parents
                    if x.op == "cmp" and x.a[0] == "in" and self.image(x.a[1]) is n and x.a[2] is roots:
                        return already
                    if x.op == "cmp" and x.a[0] == "in" and self.image(x.a[1]) is None and self.visited_set(x.a[2]):
                        return False
                    if x.op == "cmp" and any(is_const(y, None) for y in x.a[1:]):
                        return False
                    if x.op == "truth" and x.a[0].op == "list" and n.op == "call" and n.a[0].a[0] is x.a[0]:
                        return True
                    return None

                out = TRUE
                for y in g:
                    z = given(y, decide)
                    if z is FALSE:
                        return FALSE
                    if z is not TRUE:
                        out = z
                return out

            if not isroot:
                self.obl(self.all_nodes(n), "root-nodes", "roots must be looked for among all nodes")
                self.obl(cond(True, False) is FALSE, "root-only", "a node with parents must not make its group a root")
            self.obl(cond(False, False) is TRUE, "root-all", "the group of every root must become a root; this depends on %s" % repr(g)[:120])
            self.obl(cond(False, True) is FALSE, "root-once", "a group must become a root only once")


def check(ctx):
    g = Groupby(ctx)
    g.recs = []
    g.graph = None
    g.group_part()
    g.table_part()
    g.edge_part()
    g.root_part()
    ctx.need("node_creations", 1)

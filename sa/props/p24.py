"""P24: readers give every entry of their input its node and its row."""

from ..lib import flat, implies, consistent, peel
from ..terms import mk, attr, canon, neg, b_and, b_or, is_const, subterms, T, TRUE, FALSE
from .p11 import Types, base_env

TITLE = "Readers give every entry of their input its node and its row"
RULE = (
    "Value-flow analysis of every reader: each node made has exactly one record, stored under exactly the conditions and in "
    "the loops in which the node is made (or, where nodes are looked up, one record per input line, under the documented "
    "conditions only), its fields come from the same input entry as the node and its name is that of the frame; entries are "
    "visited by loops over whole collections that do not end early, recursion passes each child entry together with its "
    "parent's node; each metric column is listed exactly once, as inclusive exactly if its name says so, and a default "
    "metric a reader chooses is one of its columns."
)
ASSUMPTIONS = ("the profiler's files are complete and hold the fields its format documents",)

GF = "hatchet.graphframe.GraphFrame."
NODE, FRAME, FRAMES = "hatchet.node.Node", "hatchet.frame.Frame", "hatchet.graphframe.GraphFrame"
FREE = "free"
OPAQUE = ("hatchet.graph.Graph.enumerate_traverse", "hatchet.graph.Graph.enumerate_depth", "hatchet.graph.Graph.traverse")
COPIES = ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted", "builtins.enumerate")


def const(t):
    return t.a[0] if t is not None and t.op == "const" else None


def method(t):
    return t.a[0].a[1] if t.op == "call" and t.a[0].op == "attr" else None


def recv(t):
    return t.a[0].a[0]


def ext(t):
    return t.a[0].a[0] if t.op == "call" and t.a[0].op == "ext" else None


def got(t):
    """(X, key) of X[key] or X.get(key, ...) with a constant key."""
    if t.op == "item" and t.a[1].op == "const":
        return canon(t.a[0]), t.a[1].a[0]
    if method(t) == "get" and t.a[1] and t.a[1][0].op == "const":
        return canon(recv(t)), t.a[1][0].a[0]
    return None, None


def lookup(t):
    """(container, key) of X[key] or X.get(key)."""
    if t.op == "item":
        return t.a[0], t.a[1]
    if method(t) == "get" and t.a[1]:
        return recv(t), t.a[1][0]
    return None, None


def atoms(t):
    if t.op in ("and", "or", "not"):
        for x in t.a:
            yield from atoms(x)
    elif t.op != "const":
        yield t


def given(l, decide):
    """A condition with all decided atoms replaced."""
    if l.op == "not":
        return neg(given(l.a[0], decide))
    if l.op in ("and", "or"):
        return (b_and if l.op == "and" else b_or)(*[given(x, decide) for x in l.a])
    if l.op == "const":
        return l
    d = decide(l)
    return l if d is None or d is FREE else TRUE if d else FALSE


def has_key(a, key):
    """True if a says that an entry has the key, False if that it has not."""

    def at(x):
        return got(x)[1] == key

    if a.op == "cmp" and a.a[0] == "in" and is_const(a.a[1], key):
        return True
    if a.op == "truth" and (at(a.a[0]) or ext(a.a[0]) == "builtins.len" and at(a.a[0].a[1][0])):
        return True
    if a.op == "cmp" and a.a[0] in ("is", "==") and any(x.op == "const" and x.a[0] is None for x in a.a[1:]) and any(at(x) for x in a.a[1:]):
        return False
    if a.op == "cmp" and any(ext(x) == "builtins.len" and at(x.a[1][0]) for x in a.a[1:]):
        if a.a[0] == "==" and any(is_const(x, 0) for x in a.a[1:]):
            return False
        if a.a[0] == "<" and is_const(a.a[1], 0):
            return True
        if a.a[0] == "<=" and is_const(a.a[1], 1):
            return True
    return None


class Reader:
    def __init__(self, ctx, name, opaque=()):
        self.ctx, self.q = ctx, GF + name
        self.f = ctx.repo.func(self.q)
        self.ip, self.res = ctx.analyze(self.q, opaque=OPAQUE + tuple(opaque))
        self.st = self.res.state
        self.nodes = {e.value: e for e in self.ip.events if e.kind == "new" and e.name == NODE}
        self.framenew = {e.value: e for e in self.ip.events if e.kind == "new" and e.name == FRAME}
        self.loopev = {e.name: e for e in self.ip.events if e.kind == "loop"}
        self.gfs = [e for e in self.ip.events if e.kind == "new" and e.name == FRAMES]
        self.tables = self.find_tables()
        self.recs = self.find_records()
        self.maps = {c for c, es in self.st.contents.items() if c.op == "dict" and any(
            x in self.nodes for g, l, k, v in es if k is not None and k.op != "const" for x in self.ip.sources(v))}

    def bad(self, ok, rule, what, msg, where=None):
        return self.ctx.oblige(ok, rule, "%s:%s" % (self.q, what), msg, where or self.f.where)

    # -- tables and records
    def find_tables(self):
        out, seen = [], set()

        def go(t):
            t = peel(t, COPIES)
            for s in self.ip.sources(t):
                s = peel(s, COPIES)
                if s in seen:
                    continue
                seen.add(s)
                if method(s) == "values":
                    go(recv(s))
                elif s.op in ("list", "dict"):
                    es = self.st.contents.get(s, ())
                    if any(v.op == "star" for g, l, k, v in es) and s.op == "list":
                        for g, l, k, v in es:
                            if v.op == "star":
                                go(v.a[0])
                        if all(v.op == "star" for g, l, k, v in es):
                            continue
                    # a list of the values of a dict
                    if s.op == "list" and len(es) == 1 and es[0][3].op == "val" and not es[0][0]:
                        go(es[0][3].a[0])
                        continue
                    if s.op == "list" and len(es) == 1 and es[0][3].op == "item" and not es[0][0] and es[0][3].a[1].op in ("key", "elem"):
                        go(es[0][3].a[0])
                        continue
                    out.append(s)

        for e in self.ip.events:
            if e.kind == "call" and e.name and e.name.startswith("pandas.DataFrame"):
                d = e.kwargs.get("data") or (e.args[0] if e.args else None)
                if d is not None:
                    go(d)
        return out

    def entries(self, d, depth=0):
        """All (guard, key, value) of a record, merged dictionaries included."""
        out = []
        for g, l, k, v in self.st.contents.get(d, ()):
            if v.op == "star" or k is not None and is_const(k, "**"):
                x = peel(v.a[0] if v.op == "star" else v)
                if x.op == "dict" and depth < 4:
                    out += self.entries(x, depth + 1)
                else:
                    out.append((g, None, x))
            else:
                out.append((g, k, v))
        return out

    def field(self, d, key):
        return [(g, v) for g, k, v in self.entries(d) if k is not None and is_const(k, key)]

    def find_records(self):
        """(record, conditions, loops, container, key, node term)"""
        out = []
        for c in self.tables:
            for g, l, k, v in self.st.contents.get(c, ()):
                for gx, x in self.ip.leaves(v):
                    x = peel(x, ("builtins.dict", "copy.copy"))
                    if x.op == "dict":
                        n = self.field(x, "node")
                        if n:
                            out.append((x, tuple(g) + tuple(gx), tuple(l), c, k, n[-1][1]))
        return out

    # -- nodes
    def attrs(self, n):
        """name -> term of the frame a node is made with, or the frame's dictionary."""
        e = self.nodes[n]
        fr = e.kwargs.get("frame_obj") or (e.args[0] if e.args else None)
        fr = next((x for x in flat(fr) if x in self.framenew), None) if fr is not None else None
        if fr is None:
            return None, {}
        fe = self.framenew[fr]
        src = fe.kwargs.get("attrs") or (fe.args[0] if fe.args else None)
        out = {k: v for k, v in fe.kwargs.items() if k != "attrs"}
        if src is not None and src.op == "dict":
            for g, l, k, v in self.st.contents.get(src, ()):
                if k is not None and k.op == "const" and not is_const(k, "**"):
                    out.setdefault(k.a[0], v)
            src = None
        return src, out

    def links(self, fields=("children",)):
        """(field, owner, guard, loops, value) of every entry of a list of children (or parents)."""
        if not hasattr(self, "owner"):
            self.owner = {}
            for e in self.ip.events:
                if e.kind == "setattr" and e.name in ("children", "parents") and isinstance(e.value, T):
                    for x in flat(e.value):
                        if x.op == "list":
                            self.owner.setdefault(x, (e.obj, e.name))
            for (obj, fld), v in self.st.heap.items():
                if fld in ("children", "parents") and v.op == "list":
                    self.owner.setdefault(v, (obj, fld))
        out = []
        for o, es in self.st.contents.items():
            obj, fld = (o.a[0], o.a[1]) if o.op == "attr" else self.owner.get(o, (None, None))
            if fld in fields:
                out += [(fld, obj, g, l, v) for g, l, k, v in es]
        for e in self.ip.events:
            if e.kind == "call" and e.name in ("append", "insert") and e.obj is not None and e.obj.op == "attr" and e.obj.a[1] in fields:
                if e.obj not in self.st.contents and e.args:
                    out.append((e.obj.a[1], e.obj.a[0], tuple(e.guard), tuple(e.loops), e.args[-1]))
        return out

    def parent(self, n):
        """Terms below which the node is linked, with the entries."""
        out = {}
        for f, o, g, l, v in self.links():
            for gx, x in self.ip.leaves(v):
                if x is n:
                    out.setdefault(o, []).append((tuple(g) + tuple(gx), l, None, v))
        return list(out.items())

    def early(self, loops, what, where):
        for b in self.ip.events:
            if b.kind == "break" and b.loops and b.loops[-1] in loops or b.kind == "return" and any(
                    l in loops and self.loopev.get(l) is not None and self.loopev[l].func is b.func for l in b.loops):
                self.bad(False, "early", what, "the loop over the input can end early", "%s" % b.where)

    def conditions(self, conds, decide, what, where, then=TRUE):
        """No other conditions than the documented ones."""
        ok = True
        for c in conds:
            r = given(c, decide)
            if r is TRUE:
                continue
            rest = [a for a in atoms(r) if decide(a) is not FREE and not self.found(a)]
            if r is FALSE or rest:
                ok = self.bad(False, "visit", what, "only if %s" % (c,), where)
        return ok

    def found(self, a):
        """A test whether a node is already known."""
        x = a.a[0] if a.op == "truth" else a.a[1] if a.op == "cmp" and a.a[0] in ("is", "==") and is_none(a.a[2]) else a.a[2] if (
            a.op == "cmp" and a.a[0] in ("is", "==") and is_none(a.a[1])) else None
        if x is not None:
            return any(lookup(y)[0] in self.maps for y in flat(x)) or any(y in self.nodes for y in flat(x))
        return a.op == "cmp" and a.a[0] == "in" and a.a[2] in self.maps


def is_none(t):
    return t.op == "const" and t.a[0] is None


def one_record_per_node(r, but=()):
    """Every node made has exactly one record, whenever it is made."""
    for n, e in r.nodes.items():
        w = "node@%s" % e.func.name if hasattr(e.func, "name") else "node"
        where = e.where
        src, at = r.attrs(n)
        mine = [x for x in r.recs if any(y is n for y in r.ip.sources(x[5]))]
        made = tuple(e.guard)
        link = made + tuple(c for o, es in r.parent(n) for x in es for c in x[0]) if len(r.parent(n)) == 1 else made
        if not r.bad(mine, "record", w, "the node made has no record", where):
            continue
        active = [x for x in mine if consistent(list(made), list(x[1]))]
        exact = [x for x in active if all(implies(list(made), c) or implies(list(link), c) for c in x[1] if c not in made)]
        r.bad(exact, "record", w + ":always", "the node has a record only if %s" % ([c for x in active for c in x[1] if c not in made][:3],), where)
        for i, x in enumerate(active):
            for y in active[i + 1:]:
                r.bad(not consistent(list(made) + list(x[1]), list(y[1])), "record", w + ":once", "the node gets two records", where)
        for x in exact:
            # the node itself, not another one
            r.bad(n in flat(x[5]), "record", w + ":node", "the record holds %r" % x[5], where)
            nm = r.field(x[0], "name")
            if r.bad(nm, "record", w + ":name", "the record has no name", where) and "name" in at:
                want, have = at["name"], nm[-1][1]
                r.bad(canon(want) is canon(have), "record", w + ":name", "the record's name is %r and the node's %r" % (have, want), where)
    r.ctx.count("nodes with records", len(r.nodes))


def absent(c):
    """(map, key) if the condition says that a node is not known yet."""
    x = None
    if c.op == "not" and c.a[0].op == "truth":
        x = c.a[0].a[0]
    elif c.op == "cmp" and c.a[0] in ("is", "==") and any(is_none(y) for y in c.a[1:]):
        x = c.a[2] if is_none(c.a[1]) else c.a[1]
    elif c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] == "in" and c.a[0].a[2].op == "dict":
        return c.a[0].a[2], canon(c.a[0].a[1])
    if x is not None:
        m, k = lookup(x)
        if m is not None and m.op == "dict":
            return m, canon(k)
    return None, None


def kept(r):
    """A node that is looked up before it is made is kept under that key."""
    for n, e in r.nodes.items():
        for c in e.guard:
            m, k = absent(c)
            if m is None or m not in r.maps and r.st.contents.get(m):
                continue
            ok = any(q is not None and canon(q) is k and n in r.ip.sources(v) and all(implies(list(e.guard), b) for b in g) for g, l, q, v in r.st.contents.get(m, ()))
            mine = any(n in r.ip.sources(v) for g, l, q, v in r.st.contents.get(m, ()))
            others = [c2 for c2 in e.guard if c2 is not c and absent(c2)[0] is m]
            r.bad(ok or (others and mine), "record", "kept", "the node looked up under %r is not kept under it" % (k,), e.where)


def linked(r, n, decide):
    """The node is put below its parent whenever it is made."""
    e = r.nodes[n]
    ps = r.parent(n)
    if not r.bad(ps, "parent", "link", "the node is not linked below its parent", e.where):
        return ps
    made = list(e.guard)
    rest = []
    for o, es in ps:
        for g, l, k, v in es:
            rest.append([c for c in g if not implies(made, c) and given(c, decide) is not TRUE])
    r.bad(any(not x for x in rest), "parent", "link", "the node is put below its parent only if %s" % (rest[:2],), e.where)
    return ps


def lookups_recorded(r, decide, need):
    """One record per input line, whose node is looked up or made."""
    done = 0
    for d, conds, loops, c, k, n in r.recs:
        w = "row"
        r.conditions(conds, decide, w, r.f.where)
        r.early(loops, w, r.f.where)
        done += 1
    r.bad(done >= need, "record", "rows", "the input's lines are not recorded", r.f.where)
    r.ctx.count("records", done)


# ---------------------------------------------------------------- trees of dictionaries


def entry_of(r, n, key):
    """The input entry a node is made from."""
    src, at = r.attrs(n)
    if src is not None and key is None:
        x, k = got(src)
        return x if k == "frame" else None
    if "name" in at and key is not None:
        x, k = got(at["name"])
        return x if k == key else None
    return None


def kids_of(t):
    """X of an element of X["children"]"""
    if t.op == "elem":
        x, k = got(peel(t.a[0], COPIES))
        if k == "children":
            return x
        if t.a[0].op == "bool" or t.a[0].op == "or":
            return None
    return None


def tree_reader(ctx, name, key, decide):
    r = Reader(ctx, name)
    one_record_per_node(r)
    ents = {}
    for n, e in r.nodes.items():
        x = entry_of(r, n, key)
        if not r.bad(x is not None, "entry", "node", "the node's frame is %r" % (r.attrs(n),), e.where):
            continue
        ents[n] = x
        r.conditions(e.guard, decide, "node", e.where)
        r.early(e.loops, "node", e.where)
        for l in e.loops:
            o = r.loopev.get(l)
            if o is not None and o.obj is not None:
                c = peel(o.obj, COPIES)
                ok = c.op == "param" or got(c)[1] == "children" or ext(c) == "builtins.range" and len(c.a[1]) == 1 and ext(c.a[1][0]) == "builtins.len" and c.a[1][0].a[1][0].op == "param"
                r.bad(ok, "visit", "node", "the loop is over %r, not all entries" % o.obj, o.where)
    # every node's children are visited and get the node as their parent
    pair = []
    for e in r.ip.events:
        if e.kind not in ("invoke", "reccall"):
            continue
        vals = list(e.args) + list(e.kwargs.values())
        es = [(v, kids_of(v)) for v in vals if isinstance(v, T) and kids_of(v) is not None]
        if not es:
            continue
        hs = [v for v in vals if isinstance(v, T) and (any(x in r.nodes for x in r.ip.sources(v)))]
        if any(ents.get(x) is canon(es[0][0]) for h in hs for x in r.ip.sources(h)):
            continue
        pair.append((e, es[0][1], hs))
        r.conditions(e.guard, decide, "children", e.where)
        r.early(e.loops, "children", e.where)
    made = set(ents.values())
    for x in made:
        calls = [(e, hs) for e, y, hs in pair if y is x]
        r.bad(calls, "visit", "children of %s" % ("roots" if x.op != "mu" else "nodes"), "the children of %r are not visited" % x, r.f.where)
        for e, hs in calls:
            own = [n for n, y in ents.items() if y is x]
            ok = any(any(s in own for s in flat(h)) and not any(s in r.nodes and s not in own for s in flat(h)) for h in hs)
            r.bad(ok, "parent", "children", "the children of %r are put below %r" % (x, hs), e.where)
    for n, x in ents.items():
        if x.op != "mu":
            # a root, or the child handled in place
            if kids_of(x) is None:
                roots = [c for c, es in r.st.contents.items() if c.op == "list" and any(v is n and not g for g, l, k, v in es)]
                r.bad(roots, "visit", "roots", "the node of a root entry is no root", r.nodes[n].where)
                continue
        for s in r.ip.sources(x):
            y = kids_of(s)
            while y is not None and y not in made:
                y = kids_of(y)
            r.bad(y is not None, "visit", "entries", "an entry is %r" % s, r.nodes[n].where)
        linked(r, n, decide)
    return r, ents


def fields(r, d, want, entry, where):
    """Record fields taken from the given keys of the entry."""
    for col, key in want.items():
        vs = r.field(d, col)
        ok = len(vs) >= 1 and got(vs[0][1]) == (entry, key)
        r.bad(ok, "field", col, "%r is %r, not the %r of the node's entry" % (col, vs[0][1] if vs else None, key), where)


def literal(ctx):
    def decide(a):
        k = has_key(a, "children")
        if k is not None:
            return k
        if a.op == "cmp" and a.a[0] in ("in", "==") and any(is_const(s, "_hatchet_nid") for s in subterms(a)):
            return FREE
        return None

    rr, ents = tree_reader(ctx, "from_literal", None, decide)
    for d, conds, loops, c, k, n in rr.recs:
        x = next((ents[y] for y in rr.ip.sources(n) if y in ents), None)
        if x is None:
            continue
        ms = [v for g, k2, v in rr.entries(d) if k2 is None and got(v) == (x, "metrics")]
        rr.bad(ms, "field", "metrics", "the entry's metrics are not in its record", rr.f.where)
        nm = rr.field(d, "name")
        ok = nm and all(got(y)[1] == "name" and got(y)[0] in (x, mk("item", x, mk("const", "frame")), canon(mk("item", x, mk("const", "frame")))) for y in flat(nm[-1][1]))
        rr.bad(ok, "field", "name", "the record's name is %r" % (nm,), rr.f.where)
    return rr


def pyinstrument(ctx):
    r, ents = tree_reader(ctx, "from_pyinstrument", "function", lambda a: has_key(a, "children"))
    want = {"name": "function", "file": "file_path_short", "line": "line_no", "time (inc)": "time", "is_application_code": "is_application_code"}
    for d, conds, loops, c, k, n in r.recs:
        x = next((ents[y] for y in r.ip.sources(n) if y in ents), None)
        if x is None:
            continue
        fields(r, d, want, x, r.f.where)
        ts = r.field(d, "time")
        r.bad(ts and got(ts[0][1]) == (x, "time"), "field", "time", "the time starts as %r" % (ts[:1],), r.f.where)
        subs = 0
        for g, v in ts[1:]:
            y = v.a[2] if v.op == "bin" and v.a[0] == "-" else None
            e, key = got(y) if y is not None else (None, None)
            ok = key == "time" and e.op == "elem" and got(peel(e.a[0], COPIES)) == (x, "children")
            subs += bool(ok)
            r.bad(ok, "field", "time", "the time is changed to %r" % v, r.f.where)
            r.conditions(g, lambda a: has_key(a, "children"), "time", r.f.where)
        r.bad(subs == 1, "field", "time", "the children's times are not taken from the exclusive time once", r.f.where)
    return r


# ---------------------------------------------------------------- others


def cprofile(ctx):
    r = Reader(ctx, "from_cprofile")
    one_record_per_node(r)
    stats = {s for e in r.ip.events if e.value is not None for s in subterms(e.value) if got(s)[1] == "stats"}

    def decide(a):
        if a.op == "cmp" and a.a[0] in ("==", "is") and len(a.a) > 2:
            x = [y for y in a.a[1:] if y.op == "item" and is_const(y.a[1], 4)]
            if x:
                return False
            if any(is_none(y) for y in a.a[1:]) and not r.found(a):
                return False
        if a.op == "truth" and a.a[0].op == "item" and is_const(a.a[0].a[1], 4):
            return True
        if a.op == "cmp" and any(ext(y) == "builtins.len" and y.a[1][0].op == "item" and is_const(y.a[1][0].a[1], 4) for y in a.a[1:]):
            return a.a[0] != "=="
        return None

    fns = set()
    for n, e in r.nodes.items():
        r.conditions(e.guard, decide, "node", e.where)
        r.early(e.loops, "node", e.where)
        src, at = r.attrs(n)
        nm = at.get("name")
        fn = canon(nm.a[0]) if nm is not None and nm.op == "item" and is_const(nm.a[1], 2) else None
        if not r.bad(fn is not None, "entry", "node", "the node's name is %r" % nm, e.where):
            continue
        fns.add(fn)
        src = fn.a[0] if fn.op in ("key", "elem") else None
        src = recv(src) if src is not None and method(src) == "keys" else src
        ok = src is not None and (got(src)[1] == "stats" or src.op == "item" and is_const(src.a[1], 4))
        r.bad(ok, "visit", "functions", "the functions are taken from %r" % (src,), e.where)
        for d, conds, loops, c, k, x in r.recs:
            if n not in r.ip.sources(x):
                continue
            for col, i in (("file", 0), ("line", 1), ("name", 2)):
                vs = r.field(d, col)
                ok = vs and vs[-1][1].op == "item" and canon(vs[-1][1].a[0]) is fn and is_const(vs[-1][1].a[1], i)
                r.bad(ok, "field", col, "%r is %r" % (col, vs and vs[-1][1]), e.where)
            for col, i in (("numcalls", 0), ("nativecalls", 1), ("time", 2), ("time (inc)", 3)):
                vs = r.field(d, col)
                v = vs[-1][1] if vs else None
                ok = v is not None and v.op == "item" and is_const(v.a[1], i) and stat_of(v.a[0], fn)
                r.bad(ok, "field", col, "%r is %r" % (col, v), e.where)
            # kept under a name of its own
            if c.op == "dict":
                r.bad(own_key(k, fn), "key", "record", "records of different functions are kept under %r" % k, e.where)
        for m in r.maps:
            for g, l, k, v in r.st.contents[m]:
                if n in r.ip.sources(v):
                    r.bad(own_key(k, fn), "key", "node", "nodes of different functions are kept under %r" % k, e.where)
    seen = 0
    for f, o, g, l, v in r.links(("children", "parents")):
        up, down = (o, v) if f == "children" else (v, o)
        ok = all(role(function_of(r, y)) == "caller" for y in flat(up)) and all(role(function_of(r, y)) == "callee" for y in flat(down))
        r.bad(ok, "parent", "link", "%r is put below %r" % (down, up))
        r.conditions(g, decide, "link", r.f.where)
        r.early(l, "link", r.f.where)
        seen += f == "children"
    r.bad(seen, "parent", "link", "callees are not put below their callers")
    kept(r)
    for kind in ("stats", 4):
        ok = any((got(f.a[0])[1] == kind if kind == "stats" else False) or any(
            f.a[0] is x or method(f.a[0]) == "keys" and recv(f.a[0]) is x
            for x in subterms(f) if x.op == "item" and is_const(x.a[1], 4)) if kind == 4 else got(recv(f.a[0]) if method(f.a[0]) == "keys" else f.a[0])[1] == "stats"
            for f in fns if f.op in ("key", "elem"))
        r.bad(ok, "visit", "functions" if kind == "stats" else "callers", "not all of them get their nodes", r.f.where)
    return r


def function_of(r, n):
    """The function (of the statistics) a node stands for."""
    if n in r.nodes:
        nm = r.attrs(n)[1].get("name")
        return canon(nm.a[0]) if nm is not None and nm.op == "item" and is_const(nm.a[1], 2) else None
    m, k = lookup(n)
    if m in r.maps:
        for x in [k] + list(pieces(k)):
            if x.op == "item" and is_const(x.a[1], 2):
                return canon(x.a[0])
        return canon(k)
    return None


def role(f):
    """Is a function one with statistics or one of the callers?"""
    src = f.a[0] if f is not None and f.op in ("key", "elem") else None
    src = recv(src) if src is not None and method(src) == "keys" else src
    if src is None:
        return None
    return "callee" if got(src)[1] == "stats" else "caller" if src.op == "item" and is_const(src.a[1], 4) else None


def stat_of(t, fn):
    """The statistics of function fn."""
    t = canon(t)
    if t.op == "item" and canon(t.a[1]) is fn and got(t.a[0])[1] == "stats":
        return True
    return t.op == "val" and fn.op == "key" and t.a[0] is fn.a[0] and got(t.a[0])[1] == "stats"


def own_key(k, fn):
    """Do different functions have different keys?"""
    if k is None:
        return False
    if canon(k) is fn:
        return True
    parts = {canon(x) for x in pieces(k)}
    return all(canon(mk("item", fn, mk("const", i))) in parts for i in (0, 1, 2))


def pieces(t):
    """Terms a string or tuple shows whole."""
    if t.op in ("str", "tuple", "fmt"):
        for x in t.a:
            if isinstance(x, T):
                yield from pieces(x)
    elif t.op == "bin" and t.a[0] == "+":
        yield from pieces(t.a[1])
        yield from pieces(t.a[2])
    elif ext(t) in ("builtins.str", "builtins.repr"):
        yield from pieces(t.a[1][0])
    else:
        yield t


def whole_loops(r, loops, what, start=0):
    """The loops run over whole collections."""
    for l in loops:
        o = r.loopev.get(l)
        if o is None or o.obj is None:
            continue
        c = peel(o.obj, COPIES)
        while method(c) in ("items", "keys", "values"):
            c = peel(recv(c), COPIES)
        ok = not (c.op == "item" and c.a[1].op == "slice") and ext(c) not in ("builtins.filter", "itertools.islice", "builtins.reversed")
        if ext(c) == "builtins.range":
            a = list(c.a[1])
            ok = ext(a[-1]) == "builtins.len" and (len(a) == 1 or len(a) == 2 and is_const(a[0], start))
        r.bad(ok, "visit", what, "the loop is over %r, not all entries" % o.obj, o.where)


def gprof(ctx):
    r = Reader(ctx, "from_gprof_dot")

    def decide(a):
        if a.op == "cmp" and a.a[0] == "in" and a.a[2].op in ("tuple", "list", "set", "const", "ext", "attr") and any(method(s) == "get_name" for s in subterms(a.a[1])):
            return False if a.a[2] not in r.maps else None
        return has_key(a, "label")

    lookups_recorded(r, decide, 1)
    for n, e in r.nodes.items():
        r.conditions(e.guard, decide, "node", e.where)
        r.early(e.loops, "node", e.where)
        whole_loops(r, e.loops, "node")
        src, at = r.attrs(n)
        for m in r.maps:
            for g, l, k, v in r.st.contents[m]:
                if n in flat(v):
                    r.bad(canon(k) is canon(at.get("name")), "key", "node", "the node named %r is kept under %r" % (at.get("name"), k), e.where)
    kinds = {m for n in r.nodes for m in ("get_source", "get_destination", "get_name") for s in subterms(r.attrs(n)[1].get("name") or TRUE) if method(s) == m}
    for m in ("get_source", "get_destination", "get_name"):
        r.bad(m in kinds, "visit", m, "no nodes are made for %s" % m)
    for d, conds, loops, c, k, x in r.recs:
        whole_loops(r, loops, "row")
        nm = r.field(d, "name")
        ok = nm and all(named(r, y, nm[-1][1]) for y in flat(x))
        r.bad(ok, "record", "node", "the record named %r holds the node %r" % (nm and nm[-1][1], x))
        if c.op == "dict":
            r.bad(nm and canon(k) is canon(nm[-1][1]), "key", "record", "the record is kept under %r" % k)
        for col, i in (("module", 0), ("time (inc)", 2), ("time", 3)):
            vs = r.field(d, col)
            got_i = {const(s.a[1]) for s in subterms(vs[-1][1]) if s.op == "item" and method(s.a[0]) == "split"} if vs else set()
            r.bad(got_i == {i}, "field", col, "%r is part %s of the label" % (col, sorted(map(str, got_i))))
    links = 0
    for f, o, g, l, v in r.links(("children", "parents")):
        up, down = (o, v) if f == "children" else (v, o)
        ok = all(named(r, y, None, "get_source") for y in flat(up)) and all(named(r, y, None, "get_destination") for y in flat(down))
        r.bad(ok, "parent", "edge", "%r is put below %r" % (down, up))
        r.conditions(g, decide, "edge", r.f.where)
        links += 1
    r.bad(links >= 2, "parent", "edge", "edges are not linked")
    kept(r)
    return r


def named(r, n, name, kind=None):
    """Is n the node with that name?"""
    if n in r.nodes:
        t = r.attrs(n)[1].get("name")
    else:
        m, t = lookup(n)
        if m not in r.maps:
            return False
    if t is None:
        return False
    return canon(t) is canon(name) if kind is None else any(method(s) == kind for s in subterms(t))


def spotdb(ctx):
    r = Reader(ctx, "from_spotdb")

    def decide(a):
        if a.op == "truth" and a.a[0].op in ("key", "elem", "item"):
            return True
        if a.op == "cmp" and a.a[0] == "in" and any(method(s) == "get_regionprofiles" for s in subterms(a.a[2])):
            return True
        if a.op == "cmp" and any(ext(s) == "builtins.len" for s in a.a[1:]):
            return False if a.a[0] == "==" else True if a.a[0] == "<" else None
        if a.op == "cmp" and a.a[0] == "==" and any(is_const(s, "") for s in a.a[1:]):
            return False
        return None

    lookups_recorded(r, decide, 1)
    for d, conds, loops, c, k, x in r.recs:
        whole_loops(r, loops, "row")
        nm = r.field(d, "name")
        v = nm[-1][1] if nm else None
        path = v.a[0] if v is not None and v.op == "item" and is_const(v.a[1], -1) else None
        r.bad(path is not None and method(path) == "split", "record", "name", "the name of the region is %r" % v)
        region = recv(path) if path is not None else None
        # all its values
        ms = [y for g, k2, y in r.entries(d) if k2 is None]
        vals = [e for g, k2, e in r.entries(d) if k2 is not None and k2.op != "const"]
        r.bad(vals, "field", "metrics", "the region's values are not recorded")
        for y in vals:
            for z in flat(y):
                z = peel(z, ("builtins.float", "builtins.int", "builtins.str"))
                ok = z.op == "val" and z.a[0].op == "val" and region is not None and z.a[0].a[0] is region.a[0] or (
                    z.op == "item" and any(s is canon(region) for s in subterms(z)))
                r.bad(ok, "field", "metrics", "a value of the record is %r" % z)
    return r


TAGS = ("PF", "Pr", "L", "S", "C")


def tagged(tag, nameless=FREE):
    def decide(a):
        if a.op == "cmp" and a.a[0] == "==":
            for x, y in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
                if y.op == "const" and (x.op == "attr" and x.a[1] == "tag"):
                    return y.a[0] == tag
                if is_const(y, "") and any(s.op == "const" and s.a[0] == "n" for s in subterms(x)):
                    return nameless
        if a.op == "truth" and lookup(a.a[0])[1] is not None and any(s.op == "const" and s.a[0] == "n" for s in subterms(lookup(a.a[0])[1])):
            return nameless if nameless is FREE else not nameless
        if a.op == "cmp" and a.a[0] == "in" and a.a[1].op == "attr" and a.a[1].a[1] == "tag" and a.a[2].op in ("tuple", "list", "set"):
            return any(is_const(s, tag) for s in subterms(a.a[2]))
        return None

    return decide


def pick(t, decide):
    """Values of a term in a given world."""
    if t.op == "ite":
        c = given(t.a[0], decide)
        return pick(t.a[1], decide) if c is TRUE else pick(t.a[2], decide) if c is FALSE else pick(t.a[1], decide) + pick(t.a[2], decide)
    return [t]


def hpct(ctx):
    r = Reader(ctx, "from_hpctoolkit")
    one_record_per_node(r)
    covered = set()
    ent = {}
    for n, e in r.nodes.items():
        r.early(e.loops, "node", e.where)
        whole_loops(r, e.loops, "node")
        mine = [x for x in r.recs if n in flat(x[5])]
        xml = next((canon(recv(s.a[1][0])) for x in mine for g, v in r.field(x[0], "nid") for s in [v] if ext(s) == "builtins.int" and method(s.a[1][0]) == "get"), None)
        if not r.bad(xml is not None and xml.op == "elem", "entry", "node", "the node's id is not that of its entry", e.where):
            continue
        ent[n] = xml
        root = method(xml.a[0]) in ("findall", "iterfind", "iter")
        if root:
            r.conditions(e.guard, lambda a: None, "root", e.where)
            r.bad(any(c.op == "list" and any(v is n and not g for g, l, k, v in es) for c, es in r.st.contents.items()), "visit", "roots", "the node of a root entry is no root", e.where)
        tags = [t for t in TAGS if all(given(c, tagged(t)) is TRUE for c in e.guard)] if not root else ["root"]
        covered |= set(tags)
        for x in mine:
            check_row(r, n, x, xml, e)
            for t in tags:
                if root:
                    r.conditions(x[1], lambda a: None, "root row", e.where)
                    continue
                for c in x[1]:
                    y = given(c, tagged(t))
                    r.bad(y is TRUE or y is not FALSE and t == "Pr" and all(tagged(t)(a) is FREE for a in atoms(y)), "visit", "row of %s" % t, "the entry is recorded only if %s" % (c,), e.where)
                    if t == "Pr" and y is not TRUE and y is not FALSE:
                        r.bad(y.op == "not", "visit", "row of Pr", "the entry is recorded only if %s" % (c,), e.where)
        if not root:
            ps = r.parent(n)
            r.bad(ps, "parent", "link", "the node is not linked below its parent", e.where)
            for o, es in ps:
                for g, l, k, v in es:
                    for t in tags:
                        for c in g:
                            y = given(c, tagged(t))
                            r.bad(y is TRUE or y is not FALSE and t == "Pr", "parent", "link of %s" % t, "the node is linked only if %s" % (c,), e.where)
    for t in TAGS[:4] + ("root",):
        r.bad(t in covered, "visit", "nodes of %s" % t, "%s entries get no node" % t)
    # children
    xmls = {x for n, x in ent.items()}
    for e in [e for e in r.ip.events if e.kind in ("reccall", "invoke")]:
        r.early(e.loops, "children", e.where) if any(canon(v) in xmls for v in list(e.args) + list(e.kwargs.values()) if isinstance(v, T)) else None
    inner = [x for x in xmls if method(x.a[0]) not in ("findall", "iterfind", "iter")]
    rec = [e for e in r.ip.events if e.kind == "reccall"]
    for x in inner:
        up = x.a[0]
        for t, nameless in [(t, w) for t in TAGS for w in ((False, True) if t == "Pr" else (False,))]:
            seen = 0
            what = "children of %s%s" % ("unnamed " if nameless else "", t)
            world = tagged(t, nameless)
            for e in rec:
                vals = [canon(v) for v in list(e.args) + list(e.kwargs.values()) if isinstance(v, T)]
                if x not in vals and not any(v.op == "elem" and v.a[0] is x for v in vals):
                    continue
                gs = [given(c, world) for c in e.guard]
                if FALSE in gs:
                    continue
                seen += 1
                r.bad(all(y is TRUE or y.op == "not" and tag_is(y.a[0], "M") for y in gs), "visit", what, "the children are visited only if %s" % (gs,), e.where)
                hs = [p for v in list(e.args) + list(e.kwargs.values()) if isinstance(v, T) for p in pick(v, world) if p in r.nodes]
                own = [n for n, y in ent.items() if y is x and t in [u for u in TAGS if all(given(c, tagged(u)) is TRUE for c in r.nodes[n].guard)]]
                ok = bool(hs) and all(ent.get(h) is up if t == "C" or nameless else h in own for h in hs)
                r.bad(ok, "parent", what, "the children are put below %r" % (hs,), e.where)
            r.bad(seen == 1, "visit", what, "the children of %s entries are visited %s times" % (t, seen))
    return r


def tag_is(a, tag):
    return a.op == "cmp" and any(is_const(x, tag) for x in a.a[1:])


def xml_get(t, xml, key):
    t = peel(t, ("builtins.int",))
    return method(t) == "get" and canon(recv(t)) is xml and is_const(t.a[1][0], key)


def check_row(r, n, x, xml, e):
    d = x[0]
    for col, key in (("nid", "i"), ("line", "l")):
        vs = r.field(d, col)
        r.bad(vs and xml_get(vs[-1][1], xml, key), "field", col, "%r is %r" % (col, vs and vs[-1][1]), e.where)
    for col, key, tag in (("file", "f", "File"), ("module", "lm", "LoadModule")):
        vs = r.field(d, col)
        v = vs[-1][1] if vs else None
        if v is not None and is_none(v):
            continue
        c, k = lookup(v) if v is not None else (None, None)
        own = k is not None and xml_get(k, xml, key)
        stmt = col == "file" and k is not None and any(xml_get(y, xml.a[0], key) for y in flat(k))
        r.bad(own or stmt, "field", col, "%r is %r" % (col, v), e.where)
        if c is not None and c.op == "dict":
            table(r, c, tag)
    src, at = r.attrs(n)
    for s in subterms(at["name"]) if "name" in at else ():
        c, k = lookup(s)
        if c is not None and c.op == "dict" and c in r.st.contents:
            r.bad(xml_get(k, xml, "n"), "field", "name", "the name is that of %r" % k, e.where)
            table(r, c, "Procedure")


def table(r, c, tag):
    """The table of names holds the names of all its entries."""
    es = r.st.contents.get(c, ())
    ok = len(es) == 1 and not es[0][0]
    if ok:
        g, l, k, v = es[0]
        k = peel(k, ("builtins.int",)) if k is not None else k
        ok = k is not None and method(k) == "get" and is_const(k.a[1][0], "i") and method(v) == "get" and is_const(v.a[1][0], "n") and recv(k) is recv(v)
        e = canon(recv(v)) if ok else None
        ok = ok and e.op == "elem" and method(e.a[0]) in ("iter", "findall") and is_const(e.a[0].a[1][0], tag)
    r.bad(ok, "field", "%s table" % tag, "names are kept as %r" % (es and es[0][2:],))


def caliper(ctx):
    r = Reader(ctx, "from_caliper")

    def decide(a):
        if a.op == "cmp" and a.a[0] == "==" and any(got(x)[1] == "column" for y in a.a[1:] for x in flat(y)):
            return True
        if a.op == "cmp" and a.a[0] == "in" and is_const(a.a[1], "parent"):
            return FREE
        if a.op == "cmp" and a.a[0] == "in" and is_const(a.a[1], "line"):
            return True
        if a.op == "cmp" and a.a[0] == "<" and is_const(a.a[1], 1) and any(is_const(s, "line") for s in subterms(a.a[2])):
            return True
        if a.op == "cmp" and a.a[0] == "<=" and is_const(a.a[1], 2) and any(is_const(s, "line") for s in subterms(a.a[2])):
            return True
        return None

    one_record_per_node(r)
    kinds = set()
    for n, e in r.nodes.items():
        r.conditions(e.guard, decide, "node", e.where)
        r.early(e.loops, "node", e.where)
        whole_loops(r, e.loops, "node")
        rec = next((x for x in r.recs if n in flat(x[5])), None)
        lits = [c for c in e.guard if any(is_const(s, "parent") for a in atoms(c) if a.op == "cmp" and a.a[0] == "in" for s in a.a[1:2])]
        if not lits:
            kinds.add("line")
            continue
        root = lits[0].op == "not"
        kinds.add("root" if root else "child")
        if root:
            r.bad(any(c.op == "list" and any(v is n for g, l, k, v in es) for c, es in r.st.contents.items()), "visit", "roots", "a node without parent is no root", e.where)
            continue
        ps = linked(r, n, decide)
        for o, es in ps:
            x, k = got(o)
            c, key = lookup(x) if x is not None else lookup(o)
            ok = key is not None and got(key)[1] == "parent"
            r.bad(ok, "parent", "link", "the parent is %r" % o, e.where)
    for k in ("root", "child"):
        r.bad(k in kinds, "visit", k, "no nodes are made for %s entries" % k)
    return r


def native(ctx):
    r = Reader(ctx, "from_caliperreader")

    def world(spot):
        def decide(a):
            if a.op == "cmp" and a.a[0] == "in" and is_const(a.a[1], "path"):
                return True
            if a.op == "cmp" and a.a[0] == "in" and is_const(a.a[1], "spot.channel"):
                return spot
            if a.op == "cmp" and a.a[0] == "==" and any(is_const(x, "regionprofile") for x in a.a[1:]):
                return True
            if a.op == "truth" and ext(a.a[0]) == "builtins.isinstance":
                return FREE
            if a.op == "truth" and any(a.a[0] is s for s in ()):
                return FREE
            if a.op == "cmp" and any(x.op == "const" and isinstance(x.a[0], str) and x.a[0].startswith("cupti.") for s in subterms(a) for x in [s]):
                return FREE
            return None
        return decide

    one_record_per_node(r)
    for n, e in r.nodes.items():
        for w in (True, False):
            r.conditions([c for c in e.guard if not path_end(c)], world(w), "node", e.where)
        r.early(e.loops, "node", e.where)
        whole_loops(r, e.loops, "node")
    return r


def path_end(c):
    """Whether anything is left of a call path."""
    x = c.a[0] if c.op == "not" else c
    return x.op == "truth" and all(y.op in ("mu", "item", "call", "list", "tuple") for y in flat(x.a[0]))


def tau(ctx):
    r = Reader(ctx, "from_tau")

    def decide(a):
        if a.op == "cmp" and a.a[0] == "in" and is_const(a.a[1], "=>"):
            return True
        return None

    lookups_recorded(r, decide, 2)
    for d, conds, loops, c, k, x in r.recs:
        whole_loops(r, loops, "row", 1)
    kept(r)
    below = 0
    for n, e in r.nodes.items():
        for c in e.guard:
            m, k = absent(c)
            if m is None or k.op in ("item", "mu") or len([b for b in e.guard if absent(b)[0] is not None]) > 1:
                continue
            ls = [(o, g) for o, es in r.parent(n) for g, l, k2, v in es]
            if any(any(v is n and not l2 for g2, l2, k2, v in es) or v is n for c2, es in r.st.contents.items() if c2.op == "list" and c2 not in r.owner for g2, l2, k2, v in es):
                continue
            ok = False
            for o, g in ls:
                m2, k2 = lookup(o)
                if m2 is m and shorter(r, k2, k) and all(implies(list(e.guard), b) or r.found(b if b.op != "not" else b.a[0]) for b in g):
                    ok = True
            below += ok
            r.bad(ok, "parent", "link", "the node is not put below the node of its call path without the last entry", e.where)
    r.bad(below, "parent", "link", "nodes are not put below their parents")
    return r


def shorter(r, a, b):
    """Is a the path b without its last entry?"""
    a, b = canon(a), canon(b)
    if not (a.op == "item" and canon(a.a[0]) is b and a.a[1].op == "slice"):
        return False
    lo, hi = a.a[1].a[0], a.a[1].a[1]
    last = is_const(hi, -1) or hi.op == "bin" and hi.a[0] == "-" and is_const(hi.a[2], 1) and ext(hi.a[1]) == "builtins.len" and canon(hi.a[1].a[1][0]) is b
    return (is_none(lo) or is_const(lo, 0)) and last


# ---------------------------------------------------------------- metrics


def says_inc(t):
    """Does a name made by the reader say that it is inclusive?"""
    if t.op == "const":
        return "(inc)" in t.a[0] if isinstance(t.a[0], str) else None
    if t.op in ("str", "fmt") or t.op == "bin" and t.a[0] == "+":
        return any(x.op == "const" and isinstance(x.a[0], str) and "(inc)" in x.a[0] for x in pieces(t))
    return False


def plain_name(v, renames):
    """The column a listed name stands for (renaming by a table looked through)."""
    out = set()
    for x in flat(v):
        c, k = lookup(x)
        out.add(canon(k) if c is not None and c in renames else canon(x))
    return out


def metrics(r, tokens=("(inc)",), excluded=(), columns=None):
    """Each metric column is listed once, as inclusive exactly if its name says so."""
    renames = {c for c, es in r.st.contents.items() if c.op == "dict" and es and all(k is not None and k.op == "const" and v.op == "const" for g, l, k, v in es)}
    cols = set()
    r.bad(r.gfs, "metrics", "lists", "no graph frame is made")
    for e in r.gfs:
        arg = {}
        for i, key in ((2, "exc_metrics"), (3, "inc_metrics")):
            arg[key] = e.kwargs.get(key) or (e.args[i] if len(e.args) > i else None)
        if not r.bad(all(x is not None for x in arg.values()), "metrics", "lists", "the metrics are not listed", e.where):
            continue
        own = {k: [x for x in r.ip.sources(peel(v, COPIES)) if x.op in ("list", "tuple")] for k, v in arg.items()}
        listed = []
        for kind, ls in own.items():
            r.bad(len(ls) == 1, "metrics", kind, "the list is %r" % arg[kind], e.where)
            for x in ls:
                es = r.st.contents.get(x, ()) if x.op == "list" else [((), (), None, y) for y in x.a]
                for g, l, k, v in es:
                    if v.op == "star":
                        inner = [y for y in r.ip.sources(v.a[0]) if y.op == "list"]
                        listed += [(kind, g2, l2, v2) for y in inner for g2, l2, k2, v2 in r.st.contents.get(y, ())]
                    else:
                        listed.append((kind, g, l, v))
        r.bad(listed, "metrics", "lists", "no metrics are listed", e.where)
        subjects = {}
        for kind, g, l, v in listed:
            r.early(l, "metrics", e.where)
            whole_loops(r, l, "metrics")
            g = [c for c in g if not implies(list(e.guard), c)]
            names = plain_name(v, renames)
            if len(names) == 1 and next(iter(names)).op in ("elem", "key"):
                subjects.setdefault(next(iter(names)), []).append((kind, g))
                continue
            for x in names:
                inc = says_inc(x)
                if x.op in ("elem", "key", "mu", "phi"):
                    r.bad(False, "metrics", kind, "%r is listed" % x, e.where)
                    continue
                r.bad(inc == (kind == "inc_metrics"), "metrics", kind, "%r is listed among the %s" % (x, kind), e.where)
                r.bad(not g, "metrics", kind, "%r is listed only if %s" % (x, g), e.where)
                if x.op == "const" and len(names) == 1:
                    r.bad(any(r.field(d, x.a[0]) for d, *_ in r.recs), "metrics", kind, "%r is no field of the records" % x, e.where)
            cols.add("made")
        for x, es in subjects.items():
            worlds = [()] + [(t,) for t in tokens]
            for w in worlds:
                def decide(a, w=w):
                    if a.op == "cmp" and a.a[0] == "in" and a.a[1].op == "const" and canon(a.a[2]) is x:
                        return a.a[1].a[0] in w if a.a[1].a[0] in tokens else None
                    if a.op == "cmp" and a.a[0] == "in" and canon(a.a[1]) is x and a.a[2].op in ("tuple", "list", "set", "const"):
                        cs = {y for y in members(r, a.a[2])}
                        return False if cs <= set(excluded) else None
                    if a.op == "cmp" and a.a[0] == "==":
                        cs = [y.a[0] for y in a.a[1:] if y.op == "const"]
                        return False if cs and set(cs) <= set(excluded) and any(canon(y) is x for y in a.a[1:]) else None
                    return None
                on = []
                for kind, g in es:
                    res = [given(c, decide) for c in g]
                    if FALSE in res:
                        continue
                    rest = [c for c in res if c is not TRUE]
                    r.bad(not rest, "metrics", kind, "a metric is listed only if %s" % (rest,), e.where)
                    on.append(kind)
                want = ["inc_metrics" if w else "exc_metrics"]
                r.bad(on == want, "metrics", "lists", "a metric whose name %s is listed in %s" % ("holds %r" % w if w else "holds none of %s" % (tokens,), on), e.where)
            cols.add(x.a[0])
        # metric defaults chosen by the reader
        d = e.kwargs.get("default_metric") or (e.args[4] if len(e.args) > 4 else None)
        if d is not None:
            lists = [x for ls in own.values() for x in ls]
            default(r, d, lists, e)
    r.bad(len(cols) == 1, "metrics", "lists", "the lists are made from %s" % (cols,))
    for c in cols:
        if isinstance(c, T) and columns is not None:
            for x in r.ip.sources(peel(c, COPIES)):
                for g, l, k, v in r.st.contents.get(x, ()) if x.op == "list" else ():
                    if k is None:
                        r.conditions([b for b in g if not any(implies(list(e.guard), b) for e in r.gfs)], columns, "metric columns", r.f.where)
                        r.early(l, "metric columns", r.f.where)
    r.ctx.count("metric lists", 2 * len(r.gfs))


def members(r, t):
    if t.op == "const" and isinstance(t.a[0], (tuple, list, set, frozenset)):
        return list(t.a[0])
    xs = [v for g, l, k, v in r.st.contents.get(t, ())] or list(t.a)
    return [x.a[0] if isinstance(x, T) and x.op == "const" else x for x in xs]


def default(r, d, lists, e):
    """A default metric chosen by the reader is one of its columns."""
    def first(x):
        if x.op != "item" or x.a[1].op != "const":
            return False
        es = r.st.contents.get(x.a[0], ())
        return x.a[0] in lists or bool(es) and all(v.op == "star" and v.a[0] in lists for g, l, k, v in es)

    def known(x, conds):
        for c in conds:
            for a in ([c] if c.op == "cmp" else atoms(c) if c.op == "and" else ()):
                if a.op == "cmp" and a.a[0] == "in" and canon(a.a[1]) is canon(x) and (a.a[2] in lists or a.a[2].op == "attr" and a.a[2].a[1] == "columns" or a.a[2].op in ("call", "item")):
                    return True
        return False

    def empty(conds):
        return all(any(c.op == "not" and a_list(c.a[0], x) for c in conds) for x in lists)

    def a_list(a, x):
        return a.op == "truth" and a.a[0] is x or a.op == "cmp" and any(s is x for s in subterms(a))

    for g, x in r.ip.leaves(d):
        conds = list(g) + list(e.guard)
        if x.op == "param" or first(x) or is_none(x):
            ok = True
        else:
            ok = known(x, conds) or empty(conds)
        r.bad(ok, "default", "metric", "the default metric can be %r, no column (if %s)" % (x, list(g)), e.where)


def col_literal(a):
    return None


def col_caliper(a):
    if a.op == "cmp" and a.a[0] == "==" and any(is_const(x, "rank") for x in a.a[1:]):
        return False
    if any(is_const(s, "is_value") for s in subterms(a)):
        return True
    return None


def col_native(a):
    # which records are read is decided by the time series
    if any(method(s) == "is_value" for s in subterms(a)):
        return True
    if a.op == "cmp" and a.a[0] == "in" and a.a[2].op == "list":
        return False
    return FREE


def col_spotdb(a):
    if a.op == "cmp" and a.a[0] == "in" and a.a[2].op == "list":
        return False
    return FREE


def check(ctx):
    metrics(literal(ctx), excluded=("node", "name", "_hatchet_nid"), columns=col_literal)
    for f in (pyinstrument, cprofile, gprof, tau):
        metrics(f(ctx))
    metrics(hpct(ctx), tokens=("(inc)", "(I)"), columns=col_literal)
    metrics(spotdb(ctx), columns=col_spotdb)
    spot_regions(ctx)
    metrics(caliper(ctx), columns=col_caliper)
    metrics(native(ctx), tokens=("(inc)", "inclusive"), excluded=("mpi.rank", "aggregate.slot", "Node order", "loop.start_iteration"), columns=col_native)


def inside(st, t):
    """Subterms, those of the entries of containers included."""
    seen, todo = set(), [t]
    while todo:
        for s in subterms(todo.pop()):
            if s not in seen:
                seen.add(s)
                if s.op in ("list", "dict", "set") and s in st.contents:
                    for g, l, k, v in st.contents[s]:
                        todo += list(g) + ([k] if k is not None else []) + [v]
    return seen


def shown(w, t):
    """The constant parts of a text, conditions resolved."""
    t = w.pick(t)
    if t.op == "const":
        return str(t.a[0])
    out = ""
    for x in t.a if t.op not in ("call", "item", "attr", "elem", "key", "val") else ():
        for y in x if isinstance(x, tuple) else (x,):
            if hasattr(y, "op"):
                out += shown(w, y)
    return out


def spot_regions(ctx):
    """Regions of a SpotDB profile are paths: one root per first name, one child per further name."""
    q = "hatchet.readers.spotdb_reader.SpotDatasetReader.read"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=("hatchet.node.Node.add_child",))
    st = res.state

    def obl(ok, what, msg, e=None):
        ctx.oblige(ok, "spotdb", "%s:%s" % (q, what), msg, e.where if e is not None else f.where)

    me = mk("param", q, "self")
    roots = attr(me, "roots")
    links = [e for e in ip.events if e.kind == "opaque" and e.name == "hatchet.node.Node.add_child"]
    obl(bool(links), "children", "regions are never put below another")
    for e in links:
        child = e.kwargs.get("node")
        new = [x for x in ip.events if x.kind == "new" and x.obj is child]
        if not new:
            continue
        # a child is made if none of the children has this name
        tests = {s for l in new[0].guard for s in inside(st, l) if s.op == "cmp" and s.a[0] == "==" and any(x.op == "elem" and any(y.op == "attr" and y.a[1] == "children" for y in subterms(x)) for x in subterms(s))}
        looped = any(s.op == "cmp" and s.a[0] == "is" and s.a[1].op in ("mu", "phi") and is_const(s.a[2], None) for l in new[0].guard for s in subterms(l))
        obl(bool(tests) or looped, "known", "a child is made, or taken, without comparing its name", new[0])
        for val in (True, False):
            w = Types(ip, st, {**base_env(ip), **{t: val for t in tests}}, {})
            got = [w.holds([l]) for l in new[0].guard if any(t in set(subterms(l)) for t in tests)]
            obl(not (val and True in got or not val and False in got), "known:%s" % val, "a child is %smade if %s child has its name" % (("", "a") if val else ("not ", "no")), new[0])
        obl(any(s.op == "mu" for s in subterms(e.kwargs.get("self"))) or not e.loops, "parent", "every region is put below the root", e)
    # roots
    stored = [e for e in ip.events if e.kind == "setitem" and e.obj is roots or e.kind == "call" and e.name == "setdefault" and e.obj is roots]
    obl(bool(stored), "roots", "the roots of regions are not kept")
    for e in stored:
        if e.kind == "setitem":
            ok = any(roots in set(subterms(l)) for l in e.guard)
            obl(ok, "roots:known", "a root replaces the one that was made already", e)
    for e in ip.events:
        if e.kind == "new" and e.name == "hatchet.frame.Frame":
            for v in e.kwargs.values():
                for s in subterms(v):
                    if s.op == "slice" or s.op == "call" and "slice" in repr(s.a[0]):
                        lo = s.a[0] if s.op == "slice" else (s.a[1][0] if s.a[1] else None)
                        if v.op == "elem" and hasattr(lo, "op") and lo.op == "const" and lo.a[0] is not None:
                            obl(is_const(lo, 1), "names", "names of a region's path are skipped or repeated", e)
    # metrics
    vals = [e for e in ip.events if e.kind == "setitem" and len(e.loops) >= 2 and any(
        s.op == "val" and s.a[0].op == "val" and "regionprofile" in repr(s) for s in subterms(e.value))]
    rec = [e for e in ip.events if e.kind == "call" and e.name == "append" and any(s.op == "attr" and s.a[1] in ("df_data", "node_dicts") for s in subterms(e.obj))]
    if vals:
        base = list(rec[0].guard) if rec else []
        ok = any(set(e.guard) <= set(base) for e in vals) or implies(base, b_or(*[b_and(*e.guard) if len(e.guard) > 1 else e.guard[0] for e in vals]))
        obl(ok, "metrics", "a metric of a region is only stored for some types", vals[0])
        for e in vals:
            col = e.args[0]
            tests = {s for s in subterms(col) if s.op == "cmp" and s.a[0] == "in" and is_const(s.a[1], "inclusive")}
            both = []
            for val in (True, False):
                w = Types(ip, st, {**base_env(ip), **{t: val for t in tests}}, {})
                both.append("(inc)" in shown(w, col))
            obl(both == [True, False], "inclusive", "inclusive metrics of a region are not marked as such", e)
    cols = [e for e in ip.events if e.obj is not None and (e.kind == "call" and e.name in ("append", "add", "extend", "update", "setdefault") or e.kind == "setitem") and e.obj is attr(me, "metric_columns")
            or e.kind == "setattr" and e.name == "metric_columns"]
    obl(bool(cols), "columns", "the metrics of regions are not collected")
    ctx.count("SpotDB links", len(links))

"""P03: parent and child links are symmetric in every graph hatchet builds."""

from ..terms import is_const, subterms, neg, literals, restrict, canon, mk, T

TITLE = "parent and child links are symmetric"
RULE = (
    "Pairing of link effects: in every function that builds or rewires a graph (readers, copy, union, "
    "squash, normalisation, groupby, construction from lists) each effect adding Y to the children of X "
    "must be matched by an effect adding X to the parents of Y on the same value-flow terms, covering "
    "every possible value of Y, and vice versa, under guards that differ at most by None checks on the "
    "linked nodes; a pair of loops over a source node's children and parents counts as matched when one "
    "is the mirror image of the other; replaced link lists need the dual replacement on their elements."
)
ASSUMPTIONS = ("source graphs given to copy/union/squash/groupby are themselves symmetric",)

ENTRIES = {
    # quals are grouped into units analysed with callees inlined
    "hatchet.graph.Graph.copy": 1,
    "hatchet.graph.Graph.union": 5,
    "hatchet.graph.Graph.normalize": 0,
    "hatchet.graphframe.GraphFrame.squash": 1,
    "hatchet.graphframe.GraphFrame.groupby_aggregate": 1,
    "hatchet.graphframe.GraphFrame.from_lists": 1,
    "hatchet.node.Node.from_lists": 1,
    "hatchet.readers.caliper_native_reader.CaliperNativeReader.read": 2,
    "hatchet.readers.spotdb_reader.SpotDatasetReader.read": 1,
    "hatchet.readers.tau_reader.TAUReader.read": 2,
    "hatchet.readers.pyinstrument_reader.PyinstrumentReader.read": 1,
    "hatchet.readers.timemory_reader.TimemoryReader.read": 1,
    "hatchet.readers.literal_reader.LiteralReader.read": 1,
    "hatchet.readers.cprofile_reader.CProfileReader.read": 1,
    "hatchet.readers.gprof_dot_reader.GprofDotReader.read": 1,
    "hatchet.readers.caliper_reader.CaliperReader.read": 1,
    "hatchet.readers.json_reader.JsonReader.read": 1,
    "hatchet.readers.hpctoolkit_reader.HPCToolkitReader.read": 1,
    "hatchet.readers.dataframe_reader.DataframeReader.read": 0,
}

DUAL = {"children": "parents", "parents": "children"}
ADDERS = {"append", "insert", "add"}
BULK = {"extend", "update"}


class Edge:
    def __init__(self, field, owner, other, ev, bulk=False):
        self.field = field  # which list of `owner` receives `other`
        self.owner = owner
        self.other = other
        self.ev = ev
        self.bulk = bulk

    @property
    def parent(self):
        return self.owner if self.field == "children" else self.other

    @property
    def child(self):
        return self.other if self.field == "children" else self.owner

    def text(self):
        return "%s.%s gains %s" % (repr(self.owner)[:80], self.field, repr(self.other)[:80])


def collect(ip):
    """Link effects and list replacements."""
    holder = {}
    for e in ip.events:
        if e.kind == "setattr" and e.name in DUAL:
            for s in ip.sources(e.value):
                if s.op == "list":
                    holder.setdefault(s, []).append((e.obj, e.name))
    edges, sets = [], []
    for e in ip.events:
        if e.kind == "call" and e.obj is not None and (e.name in ADDERS or e.name in BULK) and e.args:
            tg = []
            for o in ip.sources(e.obj):
                if o.op == "attr" and o.a[1] in DUAL:
                    tg.append((o.a[0], o.a[1]))
                elif o in holder:
                    tg += holder[o]
            for owner, field in tg:
                if e.name in BULK:
                    el = mk("elem", e.args[-1])
                    edges.append(Edge(field, owner, el, e, True))
                else:
                    edges.append(Edge(field, owner, e.args[-1], e))
        elif e.kind == "iop" and e.obj is not None and e.obj.op == "attr" and e.obj.a[1] in DUAL:
            edges.append(Edge(e.obj.a[1], e.obj.a[0], mk("elem", e.value), e, True))
        elif e.kind == "setattr" and e.name in DUAL:
            sets.append(e)
    return edges, sets


def strip_none(ip, lits, *nodes):
    """Guard literals that are not None/truth checks of the linked nodes."""
    srcs = set()
    for n in nodes:
        srcs.add(n)
        srcs.add(canon(n))
        srcs.update(ip.sources(n))
        srcs.update(canon(s) for s in ip.sources(n))
    out = []
    for l in lits:
        c = l.a[0] if l.op == "not" else l
        if c.op == "cmp" and c.a[0] == "is" and is_const(c.a[2], None) and canon(c.a[1]) in srcs:
            continue
        if c.op == "truth" and canon(c.a[0]) in srcs:
            continue
        if c.op == "truth":
            c = c.a[0]
        if c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] == "builtins.isinstance":
            if c.a[1] and canon(c.a[1][0]) in srcs:
                continue
        out.append(l)
    return out


def gates(*terms):
    out = set()
    for t in terms:
        for x in subterms(t):
            if x.op == "ite":
                for g in literals(x.a[0]):
                    out.add(g)
                    out.add(neg(g))
                    for y in subterms(g):
                        if y.op in ("cmp", "truth", "not", "and", "or"):
                            out.add(y)
                            out.add(neg(y))
            if x.op == "or" or x.op == "and":
                for y in x.a:
                    out.add(y)
                    out.add(neg(y))
    return out


def mirrored_membership(lits):
    """Membership tests of one node in the links of another (dedup checks)."""
    out = []
    for l in lits:
        c = l.a[0] if l.op == "not" else l
        if c.op == "cmp" and c.a[0] == "in" and c.a[2].op == "attr" and c.a[2].a[1] in DUAL:
            continue
        out.append(l)
    return out


def lists_in(terms):
    return terms


def subst(t, a, b, memo=None):
    """t with subterm a replaced by b."""
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, a, b, memo) for x in t)
        return t
    if t is a:
        return b
    memo = {} if memo is None else memo
    if t in memo:
        return memo[t]
    memo[t] = t
    args = tuple(subst(x, a, b, memo) if isinstance(x, (T, tuple)) else x for x in t.a)
    r = t if args == t.a else mk(t.op, *args)
    memo[t] = r
    return r


def value_sources(ip, t, guard):
    """Non-gated values of t possible under the guard."""
    return [canon(s) for s in ip.sources(restrict(t, guard)) if not is_const(s, None)]


def matches(ip, e, cands):
    """Does the dual effect exist for every value of the added node?"""
    need_p = value_sources(ip, e.parent, e.ev.guard + e.ev.facts)
    need_c = value_sources(ip, e.child, e.ev.guard + e.ev.facts)
    base0 = e.ev.guard + e.ev.facts
    own = gates(e.parent, e.child)
    bad = []
    for x in need_p:
        for y in need_c:
            ok = False
            # a node that exists was allocated: its allocation guard held
            base = base0 + alloc_guard(ip, x) + alloc_guard(ip, y)
            for d in cands:
                if d.bulk != e.bulk:
                    # element of the same collection: still the same value
                    pass
                dp = value_sources(ip, d.parent, d.ev.guard + d.ev.facts)
                dc = value_sources(ip, d.child, d.ev.guard + d.ev.facts)
                if x in dp and y in dc:
                    extra = [l for l in strip_none(ip, d.ev.guard, d.parent, d.child, e.parent, e.child) if l not in base]
                    allow = own | gates(d.parent, d.child)
                    extra = [l for l in mirrored_membership(extra) if l not in allow and not implied(l, base, allow)]
                    if not extra:
                        ok = True
                        break
                    if e.field == "parents" and y.op == "new" and escapes_without(ip, y, base, extra) is None:
                        ok = True  # a node discarded right after its construction
                        break
            if not ok:
                bad.append((x, y))
    if not bad:
        return None
    # mirror image: children of a source node against its parents
    for d in cands:
        if is_mirror(e, d):
            return None
    return bad


def escapes_without(ip, y, base, extra):
    """Is node y stored anywhere on a path where `extra` need not hold?"""
    def holds(t, depth=0):
        for s in ip.sources(t):
            if s is y:
                return True
            if s.op in ("dict", "list", "tuple") and depth < 3:
                vs = s.a if s.op == "tuple" else ip.elements_of(s)
                if any(holds(v, depth + 1) for v in vs if isinstance(v, T)):
                    return True
            if s.op == "star" and holds(s.a[0], depth + 1):
                return True
        return False

    for e in ip.events:
        if e.kind == "call" and e.name in ADDERS | BULK and e.obj is not None:
            vals = e.args
            if any(o.op == "attr" and o.a[0] is y for o in ip.sources(e.obj)):
                continue
        elif e.kind == "setitem":
            vals = (e.value,)
        elif e.kind == "setattr" and e.obj is not y and e.name not in DUAL:
            vals = (e.value,)
        elif e.kind == "reccall":
            vals = tuple(e.args)
        else:
            continue
        if e.obj is not None and e.obj.op in ("dict",) and e.kind == "setitem":
            continue
        known = e.guard + e.facts
        if any(isinstance(v, T) and holds(restrict(v, known)) for v in vals):
            if not all(l in known for l in extra):
                return e
    return None


def alloc_guard(ip, t):
    if t.op != "new":
        return ()
    if not hasattr(ip, "_allocs"):
        ip._allocs = {}
        for e in ip.events:
            if e.kind == "new" and e.value is not None:
                ip._allocs.setdefault(e.value, e.guard)
    return tuple(ip._allocs.get(t, ()))


def implied(l, base, allow):
    from ..terms import decide

    if decide(l, base) is True:
        return True
    if l.op == "or":
        return any(x in allow or x in base for x in l.a)
    return False


def link_elem(t):
    """elem<n.children> subterms: (elem term, n, field)."""
    out = []
    for x in subterms(t):
        if x.op == "elem":
            b = x.a[0]
            while b.op == "call" and b.a[0].op == "ext" and b.a[0].a[0] in ("builtins.sorted", "builtins.list", "builtins.set", "builtins.reversed", "builtins.tuple") and b.a[1]:
                b = b.a[1][0]
            if b.op == "attr" and b.a[1] in DUAL:
                out.append((x, b.a[0], b.a[1]))
    return out


def is_mirror(e, d):
    """e: F(n).f += F(elem n.f); d: F(n).g += F(elem n.g) with g dual of f."""
    if d.field != DUAL[e.field]:
        return False
    for x, n, f in link_elem(e.other):
        if f != e.field:
            continue
        for y, m, g in link_elem(d.other):
            if g != d.field or m is not n:
                continue
            if canon(e.owner) is not canon(d.owner):
                continue
            # same mapping applied to the neighbour
            if canon(subst(e.other, x, n)) is not canon(subst(d.other, y, n)):
                continue
            # guards are the same up to the mirrored neighbour
            ge = {canon(subst(l, x, n)) for l in mirrored_membership(e.ev.guard)}
            gd = {canon(subst(l, y, n)) for l in mirrored_membership(d.ev.guard)}
            if ge == gd:
                return True
    return False


def same_unit(a, b):
    return a.stack[:1] == b.stack[:1]


def check_sets(ctx, ip, q, sets):
    """Replaced link lists: O.F := V needs elements' dual list replaced too."""
    real = []
    for e in sets:
        # an empty list only matters on objects that already had links
        v = [s for s in ip.sources(e.value)]
        if e.obj.op == "new" and all(s.op == "list" and not initial(ip, s) for s in v):
            continue
        real.append(e)
    for e in real:
        ctx.count("replaced link lists")
        if any(s.op == "new" for s in ip.sources(e.obj)) and False:
            continue
        # elements of the new value (or of the attribute that now holds it)
        els = set()
        for s in list(ip.sources(e.value)) + [e.value, mk("attr", e.obj, e.name)]:
            els.add(canon(mk("elem", s)))
        ok = False
        for d in sets:
            if d.name == DUAL[e.name] and d is not e:
                if any(canon(o) in els for o in [d.obj] + list(ip.sources(d.obj))):
                    ok = True
                # the dual direction: our object is an element of a replaced list of theirs
                for s in list(ip.sources(d.value)) + [d.value]:
                    if canon(e.obj) is canon(mk("elem", s)):
                        ok = True
                # both lists of one object rebuilt from stored ids
                if d.obj is e.obj and link_rebuild(ip, e, d):
                    ok = True
        ctx.oblige(ok, "one-sided-replacement", "%s:%s:%s" % (q, e.construct, e.name),
                   "%s replaces %s of %s but the %s of the nodes involved are not updated"
                   % (e.chain(), e.name, repr(e.obj)[:80], DUAL[e.name]), e.where)


def initial(ip, lst):
    """Elements a list was created with (not added later by an effect)."""
    added = set()
    for e in ip.events:
        if e.kind == "call" and e.name in ADDERS | BULK and e.obj is not None and lst in ip.sources(e.obj):
            added.update(e.args)
            added.update(mk("star", a) for a in e.args)
    return [v for v in ip.elements_of(lst) if v not in added]


def link_rebuild(ip, e, d):
    """children and parents of the same node both rebuilt from the table's
    stored columns of those names."""
    def col(ev):
        out = set()
        names = set()
        work = [ev.value]
        seen = set()
        while work:
            t = work.pop()
            for x in subterms(t):
                if x in seen:
                    continue
                seen.add(x)
                if x.op == "const" and x.a[0] in ("children", "parents"):
                    names.add(x.a[0])
                if x.op == "list":
                    work.extend(v for v in ip.elements_of(x))
        return names

    return col(e) == {e.name} and col(d) == {d.name}


def exclusive(a, b):
    """Can the two guards hold together?"""
    sa = set(a)
    return any(neg(l) in sa for l in b)


def member_guarded(ev):
    for l in ev.guard:
        c = l.a[0] if l.op == "not" else l
        if c.op == "cmp" and c.a[0] == "in" and c.a[2].op == "attr" and c.a[2].a[1] in DUAL:
            return True
    return False


def most(evs):
    """Size of a greedy largest set of effects that can happen together."""
    best = []
    for i in range(len(evs)):
        grp = [evs[i]]
        for e in evs[i + 1:] + evs[:i]:
            if all(not exclusive(e.ev.guard, g.ev.guard) for g in grp):
                grp.append(e)
        if len(grp) > len(best):
            best = grp
    return best


def check_counts(ctx, ip, q, kids, pars):
    """No link of one kind is added more often than its counterpart."""
    pairs = {}
    for which, es in (("k", kids), ("p", pars)):
        for e in es:
            if e.bulk or member_guarded(e.ev):
                continue
            known = e.ev.guard + e.ev.facts
            for x in value_sources(ip, e.parent, known):
                for y in value_sources(ip, e.child, known):
                    if x.op == "const" or y.op == "const":
                        continue
                    d = pairs.setdefault((x, y), {"k": {}, "p": {}})
                    # one effect per site and call path
                    d[which].setdefault((e.ev.where, e.ev.stack), e)
    for (x, y), d in sorted(pairs.items(), key=lambda kv: repr(kv[0])):
        if not d["k"] or not d["p"]:
            continue
        if y.op != "new" and x.op != "new":
            continue
        ctx.count("linked pairs counted")
        k, p = most(list(d["k"].values())), most(list(d["p"].values()))
        big = k if len(k) > len(p) else p
        ctx.oblige(len(k) == len(p), "duplicate-link", "%s:%s" % (q, big[-1].ev.construct),
                   "%s can be linked to %s %d times as child but %d times as parent (%s)"
                   % (repr(y)[:80], repr(x)[:80], len(k), len(p),
                      ", ".join("%s at %s" % (e.field, e.ev.where) for e in big)), big[-1].ev.where)


def check(ctx):
    for q, floor in ENTRIES.items():
        # every builder of links is analysed; opaque nothing
        ip, res = ctx.analyze(q)
        ip.elements_of = lambda s, st=res.state: [v for g, l, k, v in st.contents.get(s, [])]
        edges, sets = collect(ip)
        kids = [e for e in edges if e.field == "children"]
        pars = [e for e in edges if e.field == "parents"]
        seen = set()
        nk = len({(e.ev.where) for e in kids})
        if len(kids) < floor:
            from ..repo import AnalysisBroken

            raise AnalysisBroken("%s: only %d child-link effects found, %d expected" % (q, len(kids), floor))
        for e in edges:
            key = (e.field, e.owner, e.other, e.ev.where)
            if key in seen:
                continue
            seen.add(key)
            ctx.count("link effects")
            bad = matches(ip, e, pars if e.field == "children" else kids)
            cons = "%s:%s:%s" % (q, e.ev.construct, e.field)
            if bad:
                x, y = bad[0]
                ctx.oblige(False, "one-sided-link", cons,
                           "%s at %s, but no matching effect adds the %s link (for %s = %s) under the same condition"
                           % (e.text(), e.ev.where, DUAL[e.field][:-1] if e.field == "children" else "child",
                              "child" if e.field == "children" else "parent",
                              repr(y if e.field == "children" else x)[:100]), e.ev.where)
            else:
                ctx.oblige(True, "one-sided-link", cons, "")
        check_sets(ctx, ip, q, sets)
        check_counts(ctx, ip, q, kids, pars)
    ctx.need("link effects", 30)
    ctx.need("replaced link lists", 4)

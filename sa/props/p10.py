"""P10: the query engine finds exactly the nodes on matching paths."""

import itertools

from ..lib import peel
from ..repo import AnalysisBroken
from ..terms import attr, canon, is_const, mk, subterms
from .p07 import UNK, evl

TITLE = "the query engine finds exactly the nodes on matching paths"
RULE = (
    "each function of the engine meets its part of the inductive definition of a match, in every abstract world (pattern of "
    "wildcards around the current position, which predicates the node satisfies, leaf or not): _cache_node records exactly the "
    "predicates true for the node's own rows; _match_1 yields every child satisfying the predicate; _match_0_or_more every chain "
    "of satisfying nodes the rest of the pattern can continue; _match_pattern extends every partial match by every continuation, "
    "one query node after the other; _apply_impl starts at every node and every position reachable with zero nodes; apply joins "
    "all matches of all roots with a fresh cache and combines the results of all subqueries in order"
)
EN = "hatchet.query.engine.QueryEngine."
PARTS = ("apply", "_cache_node", "_match_0_or_more", "_match_1", "_match_pattern", "_apply_impl", "reset_cache")


class Segs:
    """Abstract lists of path segments in one world: which segments a list of
    lists certainly / possibly contains."""

    def __init__(self, ip, st, env, atoms):
        self.ip, self.st, self.env, self.atoms = ip, st, dict(env), atoms
        self.env["contents"] = {}
        self.busy = set()

    def ev(self, t):
        t0 = t
        if t.op in ("not",):
            v = self.ev(t.a[0])
            return UNK if v is UNK else not v
        if t.op in ("and", "or"):
            vs = [self.ev(x) for x in t.a]
            if t.op == "and":
                return False if any(v is not UNK and not v for v in vs) else (UNK if UNK in vs else True)
            return True if any(v is not UNK and v for v in vs) else (UNK if UNK in vs else False)
        if t.op == "truth":
            t = t.a[0]
        lst = None
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.all", "builtins.any") and len(t.a[1]) == 1:
            vs = self.concrete(t.a[1][0])
            if vs is UNK:
                return UNK
            if t.a[0].a[0] == "builtins.all":
                return False if any(v is not UNK and not v for v in vs) else (UNK if UNK in vs else True)
            return True if any(v is not UNK and v for v in vs) else (UNK if UNK in vs else False)
        if t.op in ("list", "set", "ite", "mu", "phi") and t0.op == "truth" and t not in self.env:
            lst = t
        if t0.op == "cmp" and t0.a[1].op == "call" and t0.a[1].a[0] is mk("ext", "builtins.len") and t0.a[1].a[1][0].op in ("list", "ite", "set", "phi", "mu"):
            n = self.ev(mk("truth", t0.a[1].a[1][0]))
            k = evl(t0.a[2], self.env)
            if n is UNK or k is UNK:
                return UNK
            if n is False:
                return {"==": k == 0, "<": 0 < k, "<=": 0 <= k}.get(t0.a[0], UNK)
            return {"==": False if k == 0 else UNK, "<": False if k <= 1 else UNK}.get(t0.a[0], UNK)
        if lst is not None:
            sure, may = self.lists(lst)
            return True if sure else (UNK if may else False)
        if t0.op == "cmp" and any(self.isitem(x) for x in t0.a[1:]):
            return UNK
        v = evl(t, self.env)
        if v is UNK and t.op == "cmp":
            x, y = self.val(t.a[1]), self.val(t.a[2])
            if x is not UNK and y is not UNK:
                return evl(mk("cmp", t.a[0], mk("const", 0), mk("const", 1)), {mk("const", 0): x, mk("const", 1): y})
            return UNK
        return v if t0 is t or v is UNK else bool(v)

    def isitem(self, t):
        return False

    def val(self, t):
        v = evl(t, self.env)
        if v is not UNK:
            return v
        if t.op == "item":
            b = self.val(t.a[0])
            k = t.a[1]
            if b is UNK:
                return UNK
            if k.op == "slice":
                k = slice(*[evl(x, self.env) if hasattr(x, "op") else x for x in k.a])
                if UNK in (k.start, k.stop, k.step):
                    return UNK
            else:
                k = self.val(k)
                if k is UNK:
                    return UNK
            try:
                return b[k]
            except (IndexError, KeyError, TypeError):
                return UNK
        return UNK

    def concrete(self, t):
        """Truth values of a comprehension over a known sequence."""
        t = peel(t, ("builtins.list", "builtins.tuple", "builtins.iter"))
        cs = self.st.contents.get(t)
        if not cs or len(cs) != 1 or len(cs[0][1]) == 0:
            return UNK
        g, l, k, v = cs[0]
        lo = [e for e in self.ip.events if e.kind == "loop" and e.name == l[-1]]
        if not lo or lo[0].obj is None:
            return UNK
        base = self.val(lo[0].obj)
        if base is UNK:
            return UNK
        els = {s for s in subterms(v) if s.op == "elem" and s.a[0] is lo[0].obj} | {
            s for x in g for s in subterms(x) if s.op == "elem" and s.a[0] is lo[0].obj}
        out = []
        for x in base:
            sub = Segs(self.ip, self.st, dict(self.env), self.atoms)
            for e in els:
                sub.env[e] = x
            hs = [sub.ev(y) for y in g if any(e in set(subterms(y)) for e in els)]
            if any(h is not UNK and not h for h in hs):
                continue
            r = sub.ev(v)
            out.append(UNK if UNK in hs else r)
        return out

    def holds(self, g):
        vs = [self.ev(l) for l in g]
        if any(v is not UNK and not v for v in vs):
            return False
        return UNK if UNK in vs else True

    def lists(self, t):
        """(certain, possible) segments of a list of segments."""
        key = t
        if key in self.busy:
            return set(), set()
        self.busy.add(key)
        try:
            return self._lists(t)
        finally:
            self.busy.discard(key)

    def _lists(self, t):
        t = peel(t, ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.set", "builtins.sorted", "builtins.frozenset"))
        if t in self.atoms:
            return {(self.atoms[t],)}, {(self.atoms[t],)}
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.map" and len(t.a[1]) == 2 and t.a[1][0].op == "ext" and t.a[1][0].a[0] in (
                "builtins.tuple", "builtins.list"):
            return self.lists(t.a[1][1])
        if t.op == "call" and t.a[0] is mk("ext", "itertools.groupby") and len(t.a[1]) == 1 and not t.a[2]:
            return self.lists(t.a[1][0])
        if t.op == "ite":
            c = self.ev(t.a[0])
            if c is not UNK:
                return self.lists(t.a[1] if c else t.a[2])
            (s1, m1), (s2, m2) = self.lists(t.a[1]), self.lists(t.a[2])
            return s1 & s2, m1 | m2
        if t.op == "phi":
            # alternatives after a loop: the initial value or what an iteration left
            rs = [self.lists(x) for x in t.a if hasattr(x, "op")]
            return set.union(*[r[0] for r in rs]), set.union(*[r[1] for r in rs])
        if t.op == "mu":
            rs = [self.lists(x) for x in self.ip.mu.get(t, ())]
            if t in self.st.contents:
                rs.append(self.content(self.st.contents[t]))
            return set().union(*[r[0] for r in rs]), set().union(*[r[1] for r in rs])
        if t.op == "bin" and t.a[0] == "+":
            (s1, m1), (s2, m2) = self.lists(t.a[1]), self.lists(t.a[2])
            return s1 | s2, m1 | m2
        if t.op in ("list", "set", "tuple") and (t in self.st.contents or t.op == "tuple"):
            return self.content([((), (), None, x) for x in t.a] if t.op == "tuple" else self.st.contents[t])
        if is_const(t, None):
            return set(), set()
        return {("?%r" % canon(t),)}, {("?%r" % canon(t),)}

    def content(self, cs):
        sure, may = set(), set()
        for g, l, k, v in cs:
            h = self.holds(g)
            if h is False:
                continue
            ss, mm = self.lists(v.a[0]) if v.op == "star" else self.seg(v)
            may |= mm
            if h is True:
                sure |= ss
        return sure, may

    def seg(self, v):
        """(certain, possible) values of one segment expression."""
        v = peel(v, ("builtins.list", "builtins.tuple"))
        if v in self.atoms:
            return {(self.atoms[v],)}, {(self.atoms[v],)}
        if v.op == "item" and v.a[0].op == "elem" and v.a[0].a[0].op == "call" and v.a[0].a[0].a[0] is mk("ext", "itertools.groupby") and is_const(v.a[1], 0):
            return self.lists(v.a[0].a[0])
        if v.op == "elem":
            return self.lists(v.a[0])
        if v.op == "bin" and v.a[0] == "+":
            (s1, m1), (s2, m2) = self.seg(v.a[1]), self.seg(v.a[2])
            return {a + b for a in s1 for b in s2}, {a + b for a in m1 for b in m2}
        if v.op in ("list", "tuple") and (v in self.st.contents or v.op == "tuple"):
            sure = may = {()}
            cs = [((), (), None, x) for x in v.a] if v.op == "tuple" else self.st.contents[v]
            for g, l, k, x in cs:
                s, m = self.seg(x.a[0]) if x.op == "star" else self.node(x)
                sure, may = {a + b for a in sure for b in s}, {a + b for a in may for b in m}
            return sure, may
        if v.op == "ite":
            c = self.ev(v.a[0])
            if c is not UNK:
                return self.seg(v.a[1] if c else v.a[2])
            (s1, m1), (s2, m2) = self.seg(v.a[1]), self.seg(v.a[2])
            return s1 & s2, m1 | m2
        return {("?%r" % canon(v),)}, {("?%r" % canon(v),)}

    def node(self, x):
        n = ("N:%r" % canon(x),) if x not in self.atoms else (self.atoms[x],)
        return {n}, {n}


def setup(ctx, name):
    q = EN + name
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=tuple(EN + n for n in PARTS if n != name) + (
        "hatchet.query.string_dialect.parse_string_dialect", "hatchet.query.object_dialect.ObjectQuery.__init__"))
    P = {n: mk("param", q, n) for n in f.params()}
    return q, f, ip, res, P


def nid(t):
    return attr(t, "_hatchet_nid")


def length(q):
    ln = mk("ext", "builtins.len")
    return [mk("call", ln, (q,), ()), mk("call", ln, (attr(q, "query_pattern"),), ())]


def pattern_env(query, pat):
    p = tuple((w, "pred%d" % i) for i, w in enumerate(pat))
    env = {attr(query, "query_pattern"): p}
    env.update({l: len(pat) for l in length(query)})
    env[query] = p
    return env


def returned(sg, res):
    """(certain, possible) segments a function returns in a world; returning
    None stands for no segments."""
    sure, may = None, set()
    for g, v in res.returns:
        h = sg.holds([g] if hasattr(g, "op") else g)
        if h is False:
            continue
        s, m = (set(), set()) if is_const(v, None) else sg.lists(v)
        may |= m
        sure = s if sure is None else sure & s
    return sure or set(), may


def check_0_or_more(ctx):
    q, f, ip, res, P = setup(ctx, "_match_0_or_more")
    st = res.state
    query, node, W = (P[f.params()[i]] for i in (1, 3, 4))
    cache = attr(P["self"], "search_cache")
    rec = {}
    for e in ip.events:
        if e.kind in ("reccall", "opaque") and e.name == q:
            n = e.kwargs.get(f.params()[3])
            base = peel(n.a[0]) if n is not None and n.op == "elem" else None
            ok = base is attr(node, "children") and e.kwargs.get(f.params()[4]) is W and e.kwargs.get(f.params()[1]) is query and e.kwargs.get(f.params()[2]) is P[f.params()[2]]
            ctx.oblige(ok, "star", q + ":child", "the search goes on with %r" % (e.args,), e.where)
            if ok:
                rec[e.value] = "S"
    ctx.oblige(bool(rec), "star", q + ":recursion", "'*' does not go on with the node's children", f.where)
    cached(ctx, q, ip, P["self"], node, query)
    worlds = 0
    for w in (0, 1, 2):
        for before in itertools.product(".*", repeat=w):
            for after in [()] + list(itertools.product(".*", repeat=1)) + list(itertools.product(".*", repeat=2)):
                pat = before + ("*",) + after
                n = len(pat)
                for hit in itertools.product((False, True), repeat=min(n, w + 2)):
                    sat = [i for i, b in enumerate(hit) if b]
                    for leaf in (False, True):
                        worlds += 1
                        env = pattern_env(query, pat)
                        env[W] = w
                        env[cache] = {7: sat}
                        env[nid(node)] = 7
                        kids = attr(node, "children")
                        env[kids] = [] if leaf else ["kid"]
                        env[mk("truth", kids)] = not leaf
                        for r in rec:
                            env[mk("cmp", "is", r, mk("const", None))] = False
                            env[mk("truth", r)] = True
                        atoms = {r: "S" for r in rec} if not leaf else {}
                        atoms[node] = "n"
                        sg = Segs(ip, st, env, atoms)
                        if leaf:
                            # nothing comes from a loop over no children
                            sg.atoms = dict(atoms)
                            sg.empty = set(rec)
                        sure, may = returned(sg, res)
                        if leaf:
                            may = {m for m in may if not any(c.startswith("?") for c in m)}
                            sure = {m for m in sure if not any(c.startswith("?") for c in m)}
                        me = w in sat
                        last = w == n - 1
                        nxt = not last and (w + 1 in sat)
                        skip = not last and pat[w + 1] == "*"
                        need = set()
                        if nxt or skip or last and not me:
                            need.add(())
                        if me and leaf and all(c == "*" for c in pat[w:]):
                            need.add(("n",))
                        if me and not leaf:
                            need.add(("n", "S"))
                        allow = {()}
                        if me:
                            allow |= {("n",), ("n", "S")}
                        desc = "pattern %s at %d, node satisfies %s, %s" % ("".join(pat), w, sat, "leaf" if leaf else "inner")
                        miss, extra = need - sure, may - allow
                        ctx.oblige(not miss, "star", q + ":missing", "%s: the continuation %s is lost" % (desc, sorted(miss)), f.where)
                        ctx.oblige(not extra, "star", q + ":extra", "%s: %s is no match" % (desc, sorted(extra)), f.where)
    ctx.count("worlds", worlds)
    loops_ok(ctx, q, ip, "star")


def loops_ok(ctx, q, ip, rule):
    for e in ip.events:
        if e.stack == (q,) and (e.kind == "break" or e.kind == "return" and e.loops):
            ctx.oblige(False, rule, q + ":early", "the loop ends before everything is considered", e.where)


def cached(ctx, q, ip, selft, node, query):
    """The cache entry of a node exists (or is made) before it is used."""
    cache = attr(selft, "search_cache")
    made = [e for e in ip.events if e.kind == "opaque" and e.name == EN + "_cache_node" and canon(e.kwargs.get("node")) is canon(node)]
    ok = bool(made)
    for e in made:
        extra = [l for l in e.guard if l.op == "not" and l.a[0].op == "cmp" and l.a[0].a[0] == "in" and canon(l.a[0].a[1]) is canon(nid(node)) and l.a[0].a[2] is cache]
        own = [l for l in e.guard if l not in extra]
        use = [u for u in ip.events if u.idx > e.idx]
        ok = ok and bool(use) and all(l in use[-1].guard or l in use[0].guard for l in own)
        ctx.oblige(e.kwargs.get("query") is query, "cache", q + ":query", "the cache is filled for %r" % e.kwargs.get("query"), e.where)
    ctx.oblige(ok, "cache", q + ":filled:%s" % node.op, "the predicates the node satisfies are used before they are computed", ctx.repo.func(q).where)


def check_1(ctx):
    q, f, ip, res, P = setup(ctx, "_match_1")
    st = res.state
    query, node, I = (P[f.params()[i]] for i in (1, 3, 4))
    cache = attr(P["self"], "search_cache")
    kids = {s for e in ip.events for t in list(e.guard) + list(e.args) for s in subterms(t) if s.op == "elem" and peel(s.a[0]) is attr(node, "children")}
    kids |= {s for cs in st.contents.values() for c in cs for t in list(c[0]) + [c[3]] for s in subterms(t) if s.op == "elem" and peel(s.a[0]) is attr(node, "children")}
    if not ctx.oblige(bool(kids), "one", q, "'.' does not look at the node's children", f.where):
        return
    for k in sorted(kids, key=repr)[:1]:
        cached(ctx, q, ip, P["self"], k, query)
    for i in (0, 1, 2):
        for sat in ([], [0], [1], [2], [0, 1], [1, 2], [0, 1, 2]):
            env = {cache: {7: sat}, I: i}
            for k in kids:
                env[nid(k)] = 7
            sg = Segs(ip, st, env, {k: "c" for k in kids})
            sure, may = returned(sg, res)
            if i in sat:
                ctx.oblige(sure == {("c",)} and may == {("c",)}, "one", q + ":hit", "a child that satisfies the predicate gives %s" % sorted(may), f.where)
            else:
                ctx.oblige(not may, "one", q + ":miss", "a child that does not satisfy the predicate gives %s" % sorted(may), f.where)
    loops_ok(ctx, q, ip, "one")


def check_pattern(ctx):
    q, f, ip, res, P = setup(ctx, "_match_pattern")
    st = res.state
    query, root, M = (P[f.params()[i]] for i in (1, 3, 4))
    ones = [e for e in ip.events if e.kind == "opaque" and e.name == EN + "_match_1"]
    stars = [e for e in ip.events if e.kind == "opaque" and e.name == EN + "_match_0_or_more"]
    if not ctx.oblige(bool(ones) and bool(stars), "pattern", q, "a wildcard is not handled", f.where):
        return
    pf = ctx.repo.func(EN + "_match_1").params()
    sf = ctx.repo.func(EN + "_match_0_or_more").params()
    lasts, idxs = set(), set()
    for e in ones:
        n, i = e.kwargs.get(pf[3]), e.kwargs.get(pf[4])
        ctx.oblige(e.kwargs.get(pf[1]) is query and e.kwargs.get(pf[2]) is P[f.params()[2]], "pattern", q + ":args", "'.' is matched with %r" % (e.args,), e.where)
        lasts.add(n)
        idxs.add(i)
    for e in stars:
        n, i = e.kwargs.get(sf[3]), e.kwargs.get(sf[4])
        ctx.oblige(e.kwargs.get(sf[1]) is query and e.kwargs.get(sf[2]) is P[f.params()[2]], "pattern", q + ":args*", "'*' is matched with %r" % (e.args,), e.where)
        base = peel(n.a[0]) if n.op == "elem" else None
        ok = base is not None and base.op == "attr" and base.a[1] == "children"
        ctx.oblige(ok, "pattern", q + ":children", "'*' starts at %r, not at every child of the last node" % n, e.where)
        if ok:
            lasts.add(base.a[0])
        idxs.add(i)
    good = len(lasts) == 1 and all(t.op == "item" and t.a[0].op == "elem" and is_const(t.a[1], -1) for t in lasts)
    if not ctx.oblige(good, "pattern", q + ":last", "matches go on at %s, not at their last node" % sorted(map(repr, lasts)), f.where):
        return
    last = lasts.pop()
    m = last.a[0]
    cur = m.a[0]
    if not ctx.oblige(len(idxs) == 1, "pattern", q + ":index", "wildcards are matched at different positions %s" % sorted(map(repr, idxs)), f.where):
        return
    I = idxs.pop()
    # positions: from the start position to the end, one after the other
    for mi in (0, 1, 2):
        for pat in itertools.product(".*", repeat=mi + 1):
            pat = pat + (".",)
            env = pattern_env(query, pat)
            env[M] = mi
            want = mi if pat[mi] == "*" else mi + 1
            start = step = UNK
            if I.op == "mu":
                vs = list(ip.mu.get(I, ()))
                ini = [v for v in vs if I not in set(subterms(v))]
                nxt = [v for v in vs if I in set(subterms(v))]
                starts = [evl(v, env) for v in ini]
                start = starts[0] if len(set(map(str, starts))) == 1 else UNK
                steps = [evl(v, {I: 5}) for v in nxt]
                step = 1 if steps and all(s == 6 for s in steps) else UNK
                lo = [e for e in ip.events if e.kind == "loop"]
                g = ones[0].guard
                end_ok = any(evl(l, dict(env, **{})) is UNK and [evl(l, {**env, I: j}) for j in range(len(pat) + 2)] == [j < len(pat) for j in range(len(pat) + 2)] for l in g)
            elif I.op == "elem" and peel(I.a[0]).op == "call" and peel(I.a[0]).a[0] is mk("ext", "builtins.range"):
                a = peel(I.a[0]).a[1]
                start = evl(a[0], env) if len(a) > 1 else 0
                step = 1 if len(a) < 3 else evl(a[2], env)
                end_ok = evl(a[1] if len(a) > 1 else a[0], env) == len(pat)
            else:
                end_ok = False
            ctx.oblige(start == want, "pattern", q + ":start", "a match starting at position %d of %s goes on at %r, not %d" % (mi, "".join(pat), start, want), f.where)
            ctx.oblige(step == 1, "pattern", q + ":step", "the query nodes are not taken one after the other", f.where)
            ctx.oblige(end_ok, "pattern", q + ":end", "matching does not run to the end of the pattern", f.where)
    # one step: every match times every continuation
    new = [v for v in ip.mu.get(cur, ())] if cur.op == "mu" else []
    init = [v for v in new if not {m, cur} & set(x for c in st.contents.get(v, ()) for x in subterms(c[3])) and v.op == "list" and
            any(root in set(subterms(x)) or (c2 and any(root is y[3] for y in st.contents.get(c2, ()))) for c in st.contents.get(v, ()) for x, c2 in [(c[3], c[3])])]
    if not ctx.oblige(len(init) == 1, "pattern", q + ":init", "matching does not start with the start node", f.where):
        return
    sg = Segs(ip, st, {}, {root: "r"})
    s0, m0 = sg.lists(init[0])
    ctx.oblige(s0 == m0 == {("r",)}, "pattern", q + ":root", "a match starts with %s" % sorted(m0), f.where)
    kids = attr(last, "children")
    for w in ".*":
        for leaf in (False, True):
            for s_none in (False, True):
                env = pattern_env(query, (w, w, w))
                env[I] = 1
                env[kids] = [] if leaf else ["kid"]
                env[mk("truth", kids)] = not leaf
                atoms = {m: "M"}
                for e in ones + stars:
                    live = (w == ".") == (e in ones) and not (leaf and e in stars)
                    env[mk("cmp", "is", e.value, mk("const", None))] = s_none
                    env[mk("truth", e.value)] = not s_none
                    atoms[e.value] = "1" if e in ones else "*"
                sg = Elem(ip, st, env, atoms)
                sg.none = {e.value for e in ones + stars} if s_none else set()
                sure, may = set(), set()
                for v in new:
                    if v is init[0]:
                        continue
                    a, b = sg.lists(v)
                    sure |= a
                    may |= b
                if leaf:
                    may = {x for x in may if "*" not in x}
                    sure = {x for x in sure if "*" not in x}
                if w == ".":
                    want = set() if s_none else {("M", "1")}
                elif leaf:
                    want = {("M",)}
                else:
                    want = set() if s_none else {("M", "*")}
                may = {x for x in may if not s_none or not {"1", "*"} & set(x)}
                sure = {x for x in sure if not s_none or not {"1", "*"} & set(x)}
                desc = "%r after %s" % (w, "a leaf" if leaf else "an inner node")
                ctx.oblige(want <= sure, "pattern", q + ":lost:%s%d%d" % (w, leaf, s_none), "%s: the matches %s are lost" % (desc, sorted(want - sure)), f.where)
                ctx.oblige(may <= want, "pattern", q + ":extra:%s%d%d" % (w, leaf, s_none), "%s: %s is no match" % (desc, sorted(may - want)), f.where)
    # the result: all matches once the pattern is used up, None without any
    ok = False
    for g, v in res.returns:
        if is_const(v, None):
            continue
        gs = [g] if hasattr(g, "op") else list(g)
        fl = {x for x in alternatives(v)}
        ok = ok or (init[0] in fl or cur in fl) and all(x is cur or x in new or x in {y for n in new for y in alternatives(n)} for x in fl)
    ctx.oblige(ok, "pattern", q + ":result", "the matches are not what is returned", f.where)
    for e in ip.events:
        if e.stack == (q,) and e.kind == "break":
            ctx.oblige(False, "pattern", q + ":early", "matching ends before everything is considered", e.where)
        if e.stack == (q,) and e.kind == "return" and e.loops:
            bad = not is_const(e.value, None) or any(x not in (last,) and x.op == "elem" and x in (m,) for l in e.guard for x in subterms(l))
            ctx.oblige(not bad, "pattern", q + ":early", "matching ends although some matches may go on", e.where)


class Elem(Segs):
    """elem of a list that holds lists of results appended or extended."""

    none = ()

    def ev(self, t):
        if t.op == "cmp" and t.a[0] == "is" and is_const(t.a[2], None) and t.a[1].op == "elem":
            return False
        if t.op == "not" and t.a[0].op == "cmp":
            v = self.ev(t.a[0])
            return UNK if v is UNK else not v
        return Segs.ev(self, t)

    def seg(self, v):
        if v in self.none:
            return set(), set()
        if v in self.atoms and self.atoms[v] in ("1", "*"):
            return set(), set()  # the list itself was appended: it is no segment
        return Segs.seg(self, v)


def alternatives(t):
    out, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.op == "phi":
            todo += [y for y in x.a if hasattr(y, "op")]
        elif x.op == "ite":
            todo += list(x.a[1:])
        else:
            out.add(x)
    return out


def check_impl(ctx):
    q, f, ip, res, P = setup(ctx, "_apply_impl")
    query, df, node, visited, matches = (P[n] for n in f.params()[1:6])
    cache = attr(P["self"], "search_cache")
    mp = ctx.repo.func(EN + "_match_pattern").params()
    calls = [e for e in ip.events if e.kind == "opaque" and e.name == EN + "_match_pattern"]
    if not ctx.oblige(bool(calls), "start", q, "the pattern is not matched at the nodes", f.where):
        return
    cached(ctx, q, ip, P["self"], node, query)
    skip = {mk("cmp", "is", node, mk("const", None)): False, mk("cmp", "in", nid(node), visited): False}
    for e in calls:
        ctx.oblige(e.kwargs.get(mp[3]) is node and e.kwargs.get(mp[1]) is query and e.kwargs.get(mp[2]) is df, "start", q + ":args",
                   "the pattern is matched with %r" % (e.args,), e.where)
    bad = UNK
    for n in (1, 2, 3):
        for pat in itertools.product(".*", repeat=n):
            for hit in itertools.product((False, True), repeat=n):
                sat = [i for i, b in enumerate(hit) if b]
                env = pattern_env(query, pat)
                env.update(skip)
                env[cache] = {7: sat}
                env[nid(node)] = 7
                want = {i for i in sat if all(c == "*" for c in pat[:i])}
                sure, may = starts(ip, calls, mp[4], env, n)
                desc = "pattern %s, node satisfies %s" % ("".join(pat), sat)
                ctx.oblige(want <= sure, "start", q + ":missing", "%s: no match starts at position %s" % (desc, sorted(want - sure)), f.where)
                ctx.oblige(may <= want, "start", q + ":extra", "%s: a match starts at position %s" % (desc, sorted(map(str, may - want))), f.where)
    # every match is kept
    for e in calls:
        put = [x for x in ip.events if x.kind == "call" and x.name in ("extend", "append") and x.obj is matches and x.args and e.value in set(subterms(x.args[0]))]
        ok = len(put) == 1 and (put[0].name == "extend" and put[0].args[0] is e.value)
        if not put:
            put = [x for x in ip.events if x.kind in ("aug", "augassign") and x.obj is matches]
        if ok:
            extra = [l for l in put[0].guard if l not in e.guard and l not in (
                mk("not", mk("cmp", "is", e.value, mk("const", None))), mk("truth", e.value))]
            ok = not extra
        ctx.oblige(ok, "start", q + ":kept", "the matches found are not all kept", e.where)
    # every node
    recs = [e for e in ip.events if e.kind in ("reccall", "opaque") and e.name == q]
    good = False
    for e in recs:
        c = e.kwargs.get(f.params()[3])
        rest = all(e.kwargs.get(f.params()[i]) is P[f.params()[i]] for i in (1, 2, 4, 5))
        ok = c is not None and c.op == "elem" and peel(c.a[0]) is attr(node, "children") and rest
        ctx.oblige(ok, "nodes", q + ":child", "the search goes on with %r" % (e.args,), e.where)
        extra = [l for l in e.guard if evl(l, skip) is not True and not (l.op == "not" and l.a[0].op == "cmp" and l.a[0].a[0] in ("in", "is"))]
        ctx.oblige(not extra, "nodes", q + ":guard", "children are only searched if %r" % extra, e.where)
        good = good or ok and not extra
    ctx.oblige(good, "nodes", q + ":recursion", "the children of a node are not searched", f.where)
    marks = [e for e in ip.events if e.kind == "call" and e.name == "add" and e.obj is visited]
    ok = len(marks) == 1 and marks[0].args[0] is nid(node) and not [l for l in marks[0].guard if evl(l, skip) is not True] and not marks[0].loops
    ctx.oblige(ok, "nodes", q + ":visited", "the node is not marked as visited", f.where)
    for e in ip.events:
        if e.stack == (q,) and e.kind == "return" and evl_all(e.guard, skip) is not False:
            if [x for x in ip.events if x.idx > e.idx and x in recs + calls + marks]:
                ctx.oblige(False, "nodes", q + ":early", "the search returns although the node is new", e.where)
        if e.stack == (q,) and e.kind == "break" and not any(c.loops and c.loops[-1] == e.loops[-1] for c in calls):
            ctx.oblige(False, "nodes", q + ":early", "not all children are searched", e.where)


def evl_all(g, env):
    vs = [evl(l, env) for l in g]
    if any(v is not UNK and not v for v in vs):
        return False
    return UNK if UNK in vs else True


def starts(ip, calls, pname, env, n):
    """(certain, possible) positions at which a match is started."""
    sure, may = set(), set()
    done = set()
    for e in calls:
        k = e.kwargs.get(pname)
        if not e.loops:
            h = evl_all(e.guard, env)
            v = evl(k, env)
            if h is False:
                continue
            may.add(v)
            if h is True:
                sure.add(v)
            continue
        lo = e.loops[-1]
        if lo in done:
            continue
        done.add(lo)
        evs = [x for x in ip.events if x.loops and x.loops[-1] == lo and (x.kind in ("break", "return") or x in calls)]
        head = [x for x in ip.events if x.kind == "loop" and x.name == lo]
        var = None
        rng = None
        if k.op == "mu":
            vs = [v for v in ip.mu.get(k, ()) if k not in set(subterms(v))]
            if [evl(v, env) for v in vs] == [0] and all(evl(v, {k: 5}) == 6 for v in ip.mu.get(k, ()) if k in set(subterms(v))):
                var, rng = [k], range(n + 2)
        elif k.op == "elem" and peel(k.a[0]).op == "call" and peel(k.a[0]).a[0] is mk("ext", "builtins.range"):
            a = [evl(x, env) for x in peel(k.a[0]).a[1]]
            if UNK not in a:
                var, rng = [k], range(*a)
        elif k.op == "idx":
            var, rng = [k], range(n)
        if var is None:
            return set(), {"?%r" % k}
        # elements of the pattern at the running position
        els = {s for x in evs for l in x.guard for s in subterms(l) if s.op == "elem" and s not in var}
        alive = True
        for i in rng:
            w = dict(env)
            for v in var:
                w[v] = i
            pat = env.get(next((t for t in env if t.op == "attr" and t.a[1] == "query_pattern"), None), ())
            for s in els:
                if s.a[0] in env and isinstance(env[s.a[0]], tuple) and i < len(env[s.a[0]]):
                    w[s] = env[s.a[0]][i]
            for x in evs:
                h = evl_all(x.guard, w)
                if x in calls:
                    if h is not False and alive is not False:
                        may.add(i)
                        if h is True and alive is True:
                            sure.add(i)
                elif h is True:
                    alive = False if alive is True else alive
                elif h is UNK and alive is True:
                    alive = UNK
            if alive is False:
                break
    return sure, may


def check_cache(ctx):
    q, f, ip, res, P = setup(ctx, "_cache_node")
    st = res.state
    node, query, df = (P[n] for n in f.params()[1:4])
    cache = attr(P["self"], "search_cache")
    puts = [e for e in ip.events if e.kind == "setitem" and e.obj is cache]
    if not ctx.oblige(len(puts) == 1 and not puts[0].guard and not puts[0].loops, "cache", q, "the satisfied predicates are not recorded", f.where):
        return
    ctx.oblige(puts[0].args[0] is nid(node), "cache", q + ":key", "they are recorded for %r, not for the node" % (puts[0].args[0],), puts[0].where)
    v = peel(puts[0].value, ("builtins.list", "builtins.tuple", "builtins.set"))
    cs = st.contents.get(v, ())
    ok = len(cs) == 1 and len(cs[0][1]) == 1 and len(cs[0][0]) == 1 and cs[0][0][0].op == "truth" and cs[0][0][0].a[0].op == "call"
    if not ctx.oblige(ok, "cache", q + ":positions", "not the positions of all satisfied predicates are recorded", f.where):
        return
    g, l, k, val = cs[0]
    lo = [e for e in ip.events if e.kind == "loop" and e.name == l[0]]
    seq = peel(lo[0].obj, ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.enumerate")) if lo else None
    pats = (query, attr(query, "query_pattern"))
    idx_ok = seq in pats and (val.op == "idx" or val.op == "item")
    call = g[0].a[0]
    fn = call.a[0]
    fn_ok = fn.op == "item" and is_const(fn.a[1], 1) and fn.a[0].op == "elem" and fn.a[0].a[0] in pats
    if not fn_ok and fn.op == "item" and is_const(fn.a[1], 1) and fn.a[0].op == "item" and fn.a[0].a[0] in pats:
        i = fn.a[0].a[1]
        idx_ok = val is i and i.op == "elem" and seq is not None and seq.op == "call" and seq.a[0] is mk("ext", "builtins.range") and len(seq.a[1]) == 1 and seq.a[1][0] in length(query)
        fn_ok = idx_ok
    ctx.oblige(fn_ok, "cache", q + ":predicate", "%r is called, not the predicate of every query node" % fn, f.where)
    ctx.oblige(idx_ok, "cache", q + ":index", "%r is recorded, not the position in the pattern" % val, f.where)
    ctx.oblige(len(call.a[1]) == 1, "cache", q + ":arity", "the predicate gets %d arguments" % len(call.a[1]), f.where)
    multi = mk("truth", mk("call", mk("ext", "builtins.isinstance"), (attr(df, "index"), mk("ext", "pandas.MultiIndex")), ()))
    row = call.a[1][0]
    own = mk("item", attr(df, "loc"), node)
    for m in (False, True):
        t = row
        env = {multi: m, multi.a[0]: m}
        n = 0
        while t.op == "ite" and n < 5:
            c = evl(t.a[0], env)
            n += 1
            if c is UNK:
                break
            t = t.a[1] if c else t.a[2]
        if not m:
            ctx.oblige(t is own, "cache", q + ":row", "the predicate sees %r, not the node's row" % t, f.where)
            continue
        ok = t.op == "call" and t.a[0] is mk("ext", "pandas.concat")
        if ok:
            kw = dict(t.a[2])
            one = lambda x, y: x is not None and [c[3] for c in st.contents.get(x, ())] == [y]
            ok = len(t.a[1]) == 1 and one(t.a[1][0], own) and one(kw.get("keys"), node) and one(kw.get("names"), mk("const", "node"))
        elif t.op == "item" and t.a[0] is attr(df, "loc") and t.a[1].op == "list":
            ok = [c[3] for c in st.contents.get(t.a[1], ())] == [node]
        ctx.oblige(ok, "cache", q + ":rows", "with several rows per node the predicate sees %r, not all rows of the node" % t, f.where)
    loops_ok(ctx, q, ip, "cache")
    for e in ip.events:
        if e.kind == "continue" and e.stack == (q,):
            ctx.oblige(False, "cache", q + ":skip", "predicates are skipped", e.where)


def check_apply(ctx):
    q, f, ip, res, P = setup(ctx, "apply")
    st = res.state
    query, graph, df = (P[n] for n in f.params()[1:4])
    Q, C = "hatchet.query.query.Query", "hatchet.query.compound.CompoundQuery"
    ap = ctx.repo.func(EN + "_apply_impl").params()

    def kind(env_is):
        env = {}
        for e in ip.events:
            for l in e.guard:
                for s in subterms(l):
                    if s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] in ("builtins.issubclass", "builtins.isinstance") and len(s.a[1]) == 2:
                        x, c = s.a[1]
                        if x is query or x.op == "call" and x.a[0] is mk("ext", "builtins.type") and x.a[1][0] is query:
                            r = repr(c)
                            env[s] = env_is in r
                            env[mk("truth", s)] = env_is in r
        return env

    envq, envc, envn = kind(Q), kind(C), kind("!nothing")
    impl = [e for e in ip.events if e.kind == "opaque" and e.name == EN + "_apply_impl"]
    ctx.oblige(len(impl) == 1, "roots", q, "roots are searched at %d places" % len(impl), f.where)
    for e in impl:
        r = e.kwargs.get(ap[3])
        ctx.oblige(r.op == "elem" and peel(r.a[0]) is attr(graph, "roots") and evl_all(e.guard, envq) is True and len(e.loops) == 1, "roots", q + ":all",
                   "%r is searched, not every root" % r, e.where)
        ctx.oblige(e.kwargs.get(ap[1]) is query and e.kwargs.get(ap[2]) is df, "roots", q + ":args", "roots are searched with %r" % (e.args,), e.where)
        acc, vis = e.kwargs.get(ap[5]), e.kwargs.get(ap[4])
        for x, n in ((acc, "matches"), (vis, "visited")):
            site = x.a[0] if x.op in ("list", "set", "dict") else None
            ctx.oblige(site is not None and not in_loops(ctx, ip, x, e), "roots", q + ":" + n, "%s is not shared by all roots and fresh for every query" % n, e.where)
        resets = [x for x in ip.events if (x.kind == "opaque" and x.name == EN + "reset_cache" or x.kind in ("setattr",) and x.name == "search_cache"
                                           or x.kind == "call" and x.name == "clear" and x.obj is attr(P["self"], "search_cache")) and x.idx < e.idx and not x.loops]
        ctx.oblige(bool(resets) and any(evl_all(x.guard, envq) is True for x in resets), "cache", q + ":reset",
                   "results cached for another query are used again", e.where)
        ok = False
        got = []
        for g, v in res.returns:
            if evl_all([g] if hasattr(g, "op") else g, envq) is False:
                continue
            v = pick(v, envq)
            got.append(v)
            ok = joined(ip, st, v, acc, envq)
            ctx.oblige(ok, "result", q + ":nodes", "the result is %r, not every node of every match once" % v, f.where)
        ctx.oblige(bool(got), "result", q + ":return", "nothing is returned for a query", f.where)
    # compound queries
    subs = [e for e in ip.events if e.kind in ("reccall", "opaque") and e.name == q]
    sq = attr(query, "subqueries")
    ctx.oblige(len(subs) == 1, "compound", q, "subqueries are applied at %d places" % len(subs), f.where)
    for e in subs:
        ctx.oblige(e.kwargs.get(f.params()[2]) is graph and e.kwargs.get(f.params()[3]) is df, "compound", q + ":args",
                   "a subquery is applied to %r" % ((e.kwargs.get(f.params()[2]), e.kwargs.get(f.params()[3])),), e.where)
        x = e.kwargs.get(f.params()[1])
        el = [s for s in subterms(x) if s.op == "elem" and peel(s.a[0]) is sq] if x is not None else []
        src = base_elem(ip, x, sq)
        ctx.oblige(src and len(e.loops) == 1 and evl_all([l for l in e.guard if not any(s.op == "elem" for s in subterms(l))], envc) is True
                   and not [l for l in e.guard if any(s.op == "elem" for s in subterms(l))], "compound", q + ":all",
                   "%r is applied, not every subquery" % x, e.where)
        done = False
        for g, v in res.returns:
            if evl_all([g] if hasattr(g, "op") else g, envc) is False:
                continue
            v = pick(v, envc)
            ok = False
            for c in [c for c in ip.events if c.value is v and c.kind in ("opaque", "call", "invoke", "virtual")] or []:
                a = list(c.args)
                ok = ok or "_apply_op_to_results" in str(c.name) and any(x is graph for x in a) and any(collected(ip, st, x, e.value) for x in a)
            if not ok and v.op == "call":
                a = list(v.a[1])
                ok = "_apply_op_to_results" in repr(v.a[0]) and graph in a and any(collected(ip, st, x, e.value) for x in a)
            if not ok:
                ok = any("_apply_op_to_results" in str(c.name) and c.kind in ("invoke", "call", "opaque") and graph in list(c.args) + list(c.kwargs.values())
                         and any(collected(ip, st, x, e.value) for x in list(c.args) + list(c.kwargs.values())) for c in ip.events)
            done = done or ok
        ctx.oblige(done, "compound", q + ":combine", "the results of all subqueries, in order, are not what is combined", f.where)
    # anything else
    rs = [e for e in ip.events if e.kind == "raise" and e.stack == (q,) and evl_all(e.guard, envn) is True and e.value is not None and "TypeError" in repr(e.value)]
    ctx.oblige(bool(rs), "result", q + ":type", "an argument that is no query is not refused with TypeError", f.where)
    for e in ip.events:
        if e.stack == (q,) and e.kind in ("break", "continue"):
            ctx.oblige(False, "roots", q + ":early", "not all roots or subqueries are considered", e.where)
    rq = EN + "reset_cache"
    rip, rres = ctx.analyze(rq)
    ok = any(e.kind == "setattr" and e.name == "search_cache" and not e.guard and e.value.op == "dict" and not rres.state.contents.get(e.value)
             or e.kind == "call" and e.name == "clear" and e.obj is attr(mk("param", rq, "self"), "search_cache") and not e.guard for e in rip.events)
    ctx.oblige(ok, "cache", rq, "reset_cache does not empty the cache", ctx.repo.func(rq).where)


def base_elem(ip, x, sq):
    """Is x the subquery itself or a query built from it?"""
    if x is None:
        return False
    todo, ok = [x], True
    while todo:
        t = todo.pop()
        if t.op == "ite":
            todo += list(t.a[1:])
        elif t.op == "phi":
            todo += [y for y in t.a if hasattr(y, "op")]
        elif t.op == "elem" and peel(t.a[0]) is sq:
            pass
        elif t.op in ("new", "call", "obj"):
            pass
        else:
            ok = False
    return ok


def pick(v, env):
    n = 0
    while v.op == "ite" and n < 8:
        c = evl(v.a[0], env)
        if c is UNK:
            return v
        v = v.a[1] if c else v.a[2]
        n += 1
    return v


def in_loops(ctx, ip, x, e):
    from .p07 import in_loop
    return in_loop(ctx, x.a[0])


def joined(ip, st, v, acc, env):
    """A duplicate-free list of all elements of all lists in acc."""
    v = peel(v, ("builtins.list", "builtins.tuple", "builtins.sorted"))
    for _ in range(6):
        if v.op == "list" and len(st.contents.get(v, ())) == 1:
            g, l, k, x = st.contents[v][0]
            if evl_all(g, env) is True and not l and x.op == "star":
                v = x.a[0]
                continue
            if evl_all(g, env) is True and len(l) == 1 and x.op == "elem":
                v = x.a[0]
                continue
        break
    if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] == "fromkeys" or v.op == "call" and v.a[0].op == "ext" and "fromkeys" in v.a[0].a[0]:
        return chained(ip, st, v.a[1][0], acc, env)
    if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] == "union" and len(v.a[1]) == 1 and v.a[1][0].op == "star" and v.a[1][0].a[0] is acc:
        s = v.a[0].a[0]
        return s.op == "set" and not st.contents.get(s) or s is mk("ext", "builtins.set")
    if v.op == "set":
        cs = st.contents.get(v, ())
        if len(cs) != 1 or evl_all(cs[0][0], env) is not True:
            return False
        g, l, k, x = cs[0]
        if x.op == "star":
            return x.a[0].op == "elem" and x.a[0].a[0] is acc or chained(ip, st, x.a[0], acc, env)
        return x.op == "elem" and x.a[0].op == "elem" and x.a[0].a[0] is acc
    return False


def chained(ip, st, t, acc, env):
    t = peel(t, ("builtins.list", "builtins.tuple", "builtins.iter"))
    if t.op == "call":
        if t.a[0] is mk("ext", "itertools.chain") and len(t.a[1]) == 1 and t.a[1][0].op == "star":
            return t.a[1][0].a[0] is acc
        if "chain.from_iterable" in repr(t.a[0]):
            return t.a[1][0] is acc
    cs = st.contents.get(t, ())
    if len(cs) == 1 and evl_all(cs[0][0], env) is True:
        x = cs[0][3]
        if x.op == "star":
            return x.a[0].op == "elem" and x.a[0].a[0] is acc or chained(ip, st, x.a[0], acc, env)
        return x.op == "elem" and x.a[0].op == "elem" and x.a[0].a[0] is acc
    return False


def collected(ip, st, x, value):
    """A list with one entry, value, per iteration."""
    x = peel(x, ("builtins.list", "builtins.tuple"))
    cs = st.contents.get(x, ())
    if len(cs) != 1:
        return False
    g, l, k, v = cs[0]
    if v.op == "star":
        return collected(ip, st, v.a[0], value)
    return v is value and len(l) == 1 and not [y for y in g if any(s.op == "elem" for s in subterms(y))]


def check(ctx):
    for n in PARTS:
        if ctx.repo.functions.get(EN + n) is None:
            raise AnalysisBroken("%s is gone" % (EN + n))
    check_cache(ctx)
    check_1(ctx)
    check_0_or_more(ctx)
    check_pattern(ctx)
    check_impl(ctx)
    check_apply(ctx)

"""P22: exports show the requested row of every node."""

from ..lib import Members, flat, peel
from ..terms import T, is_const, subterms, neg, literals, mk

TITLE = "exports show the requested row of every node"
RULE = (
    "Value-flow terms of tree, to_dot, to_flamegraph and to_literal: every table read is resolved under the four index "
    "layouts (rank and thread each present or not) and must address the current node with exactly the requested rank "
    "and thread; columns are the requested ones or the default metric, and each of them reaches the output; the "
    "recursion starts at all roots and goes on with all children, under no conditions but depth, threshold and "
    "first visit; the bounds of the colors are the requested ones unless these are None."
)
ASSUMPTIONS = (
    "index levels of the table are, in this order, node and then rank and thread when present",
    "Node.path runs from the root to the node and Node.traverse visits every descendant (P07)",
)

G = "hatchet.graphframe.GraphFrame."
PATH = ("hatchet.node.Node.path", "hatchet.node.Node.traverse", "hatchet.node.Node.paths")
NODE_MU = "rec:"
# entry -> {role: parameter}
ENTRIES = {
    "tree": dict(metric="metric_column", cols=("metric_column", "annotation_column", "name_column", "context_column"),
                 must=("metric_column", "annotation_column", "name_column"), ann=("_missing_node",)),
    "to_dot": dict(metric="metric", cols=("metric", "name"), must=("metric", "name"), ann=()),
    "to_flamegraph": dict(metric="metric", cols=("metric", "name"), must=("metric", "name"), ann=()),
    "to_literal": dict(metric=None, cols=("name", "cat_columns"), must=("name",), ann=()),
}
WORLDS = [(r, t) for r in (False, True) for t in (False, True)]


class Export:
    def __init__(self, ctx, name):
        self.ctx = ctx
        self.name = name
        self.spec = ENTRIES[name]
        self.q = G + name
        self.ip, self.res = ctx.analyze(self.q, opaque=PATH)
        self.st = self.res.state
        f = ctx.repo.func(self.q)
        self.par = {p: mk("param", self.q, p) for p in f.all_params()}
        self.self_ = self.par["self"]
        self.df = mk("attr", self.self_, "dataframe")
        self.roots = mk("attr", mk("attr", self.self_, "graph"), "roots")
        self.default = mk("attr", self.self_, "default_metric")
        self.mus = self.node_mus()
        self.where = "%s:%d" % (f.module.rel, f.node.lineno)

    # ------------------------------------------------------------ helpers
    def mem(self, t):
        return Members(self.ip, self.st).of(t)

    def from_roots(self, t, seen=None):
        seen = set() if seen is None else seen
        if t in seen:
            return False
        seen.add(t)
        if t is self.roots:
            return True
        if t.op == "elem":
            b, s, c = self.mem(t.a[0])
            return any(self.from_roots(x, seen) for x in b | s)
        return False

    def node_mus(self):
        out = {}
        for (fq, p), m in self.ip.rec_mu.items():
            for v in self.ip.mu.get(m, ()):
                if any(self.from_roots(s) for s in flat(v)):
                    out[m] = (fq, p)
                    break
        return out

    def is_table(self, t):
        return all(s is self.df or s.op == "mu" for s in self.ip.sources(t))

    # ---------------------------------------------------------- the index
    def truth(self, c, w):
        """The truth of an index layout test in world w, or None."""
        rank, thread = w
        if c.op == "const":
            return bool(c.a[0])
        if c.op == "truth":
            return self.truth(c.a[0], w)
        if c.op == "not":
            v = self.truth(c.a[0], w)
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.truth(x, w) for x in c.a]
            stop = c.op == "or"
            if any(v is stop for v in vs):
                return stop
            return None if None in vs else not stop
        if c.op == "ite":
            v = self.truth(c.a[0], w)
            return None if v is None else self.truth(c.a[1 if v else 2], w)
        if c.op == "cmp" and c.a[0] == "in" and c.a[1].op == "const" and self.is_names(c.a[2]):
            return {"rank": rank, "thread": thread, "node": True}.get(c.a[1].a[0], False)
        if c.op == "cmp" and c.a[0] in ("==", "<", "<="):
            a, b = self.number(c.a[1], w), self.number(c.a[2], w)
            if a is None or b is None:
                return None
            return a == b if c.a[0] == "==" else a < b if c.a[0] == "<" else a <= b
        if c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] == "builtins.isinstance" and len(c.a[1]) == 2:
            x, k = c.a[1]
            if x.op == "attr" and x.a[1] == "index" and self.is_table(x.a[0]) and k.op == "ext" and k.a[0].endswith("MultiIndex"):
                return rank or thread
        return None

    def is_names(self, t):
        t = peel(t, ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.iter", "builtins.sorted"))
        for s in self.ip.sources(t):
            s = peel(s, ("builtins.list", "builtins.tuple", "builtins.set", "builtins.frozenset"))
            if s.op == "list" or s.op == "set":
                b, si, c = self.mem(s)
                if si or c or len(b) != 1 or not all(self.is_names(x) for x in b):
                    return False
                continue
            if not (s.op == "attr" and s.a[1] == "names" and s.a[0].op == "attr" and s.a[0].a[1] == "index" and self.is_table(s.a[0].a[0])):
                return False
        return True

    def number(self, t, w):
        if t.op == "const" and isinstance(t.a[0], int):
            return t.a[0]
        n = 1 + sum(w)
        if t.op == "attr" and t.a[1] == "nlevels" and t.a[0].op == "attr" and t.a[0].a[1] == "index":
            return n
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.len" and len(t.a[1]) == 1:
            x = t.a[1][0]
            if self.is_names(x):
                return n
            seq = self.sequence(x, w)
            return None if seq is None else len(seq)
        return None

    def sequence(self, t, w):
        """The elements of a tuple or list in world w, or None."""
        t = self.pick(t, w)
        if t is None:
            return None
        if t.op == "tuple":
            out = []
            for x in t.a:
                if x.op == "star":
                    s = self.sequence(x.a[0], w)
                    if s is None:
                        return None
                    out += s
                else:
                    out.append(x)
            return out
        if t.op == "bin" and t.a[0] == "+":
            a, b = self.sequence(t.a[1], w), self.sequence(t.a[2], w)
            return None if a is None or b is None else a + b
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.tuple", "builtins.list") and len(t.a[1]) == 1:
            return self.sequence(t.a[1][0], w)
        if t.op == "list" and t in self.st.contents:
            out = []
            for g, loops, k, v in self.st.contents[t]:
                keep = True
                for l in g:
                    d = self.truth(l, w)
                    # conditions which are not about the layout hold here
                    if d is False:
                        keep = False
                if not keep:
                    continue
                if v.op == "star":
                    s = self.sequence(v.a[0], w)
                    if s is None:
                        return None
                    out += s
                elif any(x.op == "elem" and self.is_names(x.a[0]) for x in subterms(v)):
                    return None  # one element per level
                else:
                    out.append(v)
            return out
        return None

    def pick(self, t, w):
        """t with the layout tests decided; None when they cannot be."""
        n = 0
        while t.op == "ite":
            d = self.truth(t.a[0], w)
            n += 1
            if n > 50:
                return None
            if d is None:
                # a test on something else (e.g. emptiness): both must agree
                a, b = self.pick(t.a[1], w), self.pick(t.a[2], w)
                return a if a is b else None
            t = t.a[1 if d else 2]
        if t.op == "phi":
            xs = {self.pick(x, w) for x in t.a[1:] if isinstance(x, T) and not (x.op in ("item", "attr") and x.a[0].op in ("new", "dict"))}
            return xs.pop() if len(xs) == 1 else None
        return t

    def choices(self, t, w):
        """The values t may have in world w (tests on other things than the
        layout may go either way)."""
        if t.op == "ite":
            d = self.truth(t.a[0], w)
            if d is None and t.a[0].op == "truth":
                seq = self.sequence(t.a[0].a[0], w)
                d = None if seq is None else bool(seq)
            if d is None:
                return self.choices(t.a[1], w) + self.choices(t.a[2], w)
            return self.choices(t.a[1 if d else 2], w)
        return [t]

    def rows(self, idx, w):
        return [self.row(x, w) for x in self.choices(idx, w)]

    def row(self, idx, w):
        """(node, rank, thread) addressed by idx in world w: parts or None."""
        t = self.pick(idx, w)
        if t is None:
            return None
        seq = self.sequence(t, w)
        if seq is None and (t.op in ("list", "bin") or t.op == "call" and t.a[0].op == "ext"):
            return None
        return [t] if seq is None else [self.pick(x, w) or x for x in seq]

    # ----------------------------------------------------------- the reads
    def reads(self):
        """Every table read: {term: (index, column or None)}."""
        terms = {}
        for e in self.ip.events:
            for t in [e.obj, e.value, *e.args, *(e.kwargs or {}).values(), *e.guard]:
                if isinstance(t, T):
                    for s in subterms(t):
                        terms.setdefault(s, e)
        for g, v in self.res.returns:
            for s in subterms(v):
                terms.setdefault(s, None)
        for k, ents in self.st.contents.items():
            for g, l, key, v in ents:
                for x in (*g, key, v):
                    if isinstance(x, T):
                        for s in subterms(x):
                            terms.setdefault(s, None)
        for s in self.outputs():
            terms.setdefault(s, None)
        out, chained = {}, {}
        for t, e in terms.items():
            if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] in ("loc", "at", "iloc", "iat"):
                src, key = t.a[0].a[0], t.a[1]
                if key.op == "slice" or key.op == "cmp":
                    continue
                if self.is_table(src):
                    two = None
                    if key.op == "tuple" and len(key.a) == 2:
                        two = key.a
                    if two and not self.levelish(two):
                        out[t] = (two[0], two[1], e)
                    else:
                        chained[t] = (key, e)
                elif src.op == "item" and self.is_table(src.a[0]):
                    # df[col].loc[idx]
                    out[t] = (key, src.a[1], e)
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("get_value",):
                out[t] = (t.a[1][0], t.a[1][1], e)
        for t, (idx, e) in chained.items():
            cols = [s for s in terms if s.op == "item" and s.a[0] is t]
            for s in cols:
                out[s] = (idx, s.a[1], terms[s])
            if not cols:
                out[t] = (idx, None, e)
        return out

    def levelish(self, two):
        """(node, rank) is a row, (row, column) is a cell."""
        c = two[1]
        return c is self.par.get("rank") or c is self.par.get("thread")

    # ------------------------------------------------------------- checks
    def ob(self, ok, rule, construct, msg, where=""):
        self.ctx.oblige(ok, rule, construct, msg, where or self.where)

    def node_kind(self, n):
        """'self', 'child', 'path' or None."""
        if n in self.mus:
            return "self"
        if n.op == "elem":
            b, s, c = self.mem(n.a[0])
            bs = b | s
            if bs and all(x.op == "attr" and x.a[1] == "children" and x.a[0] in self.mus for x in bs):
                return "child"
            if any(x.op == "attr" and x.a[1] == "parents" for x in bs):
                return None
            if bs and all(x is self.roots for x in bs):
                return "root"
            if len(bs) == 1 and self.is_traverse(next(iter(bs))):
                return "self"
            if self.path_part(n):
                return "path"
            return None
        if n.op == "item" and self.path_part(n):
            return "path"
        if n.op == "call" and n.a[0].op == "attr" and n.a[0].a[1] in ("pop", "popleft"):
            b, s, c = self.mem(n.a[0].a[0])
            if any(x is self.roots for x in b) or any(self.from_roots(x) for x in s):
                return "self"
        if n.op in ("mu", "phi"):
            ks = {self.node_kind(s) for s in self.ip.sources(n)}
            if len(ks) == 1:
                return ks.pop()
        return None

    def is_traverse(self, t):
        f = t.a[0] if t.op == "call" else None
        if f is None:
            return False
        if f.op == "bound" or f.op == "attr":
            name = f.a[1] if f.op == "attr" else f.a[-1]
        elif f.op == "fn":
            name = f.a[0].rsplit(".", 1)[-1]
        else:
            return False
        if not isinstance(name, str):
            name = repr(name)
        if not name.rsplit(".", 1)[-1] == "traverse":
            return False
        recv = [x for x in subterms(t) if self.from_roots(x) or x is mk("attr", self.self_, "graph")]
        return bool(recv)

    def path_part(self, n):
        """('whole' | 'prefix' | 'last') of a node's path, or None."""
        coll = n.a[0]
        coll = peel(coll)
        if n.op == "elem":
            if self.is_path(coll):
                return "whole"
            if coll.op == "item" and coll.a[1].op == "slice" and self.is_path(peel(coll.a[0])):
                lo, hi, step = (coll.a[1].a + (None, None, None))[:3]
                if (lo is None or is_const(lo, None, 0)) and hi is not None and is_const(hi, -1) and (step is None or is_const(step, None, 1)):
                    return "prefix"
                if (lo is None or is_const(lo, None, 0)) and (hi is None or is_const(hi, None)) and (step is None or is_const(step, None, 1)):
                    return "whole"
            return None
        if n.op == "item" and self.is_path(coll):
            k = n.a[1]
            if is_const(k, -1):
                return "last"
            if k.op == "elem" and k.a[0].op == "call" and k.a[0].a[0].op == "ext" and k.a[0].a[0].a[0] == "builtins.range":
                args = k.a[0].a[1]
                if len(args) == 1 or len(args) == 2 and is_const(args[0], 0):
                    hi = args[-1]
                    if self.is_len_path(hi):
                        return "whole"
                    if hi.op == "bin" and hi.a[0] == "-" and self.is_len_path(hi.a[1]) and is_const(hi.a[2], 1):
                        return "prefix"
            if k.op == "idx":
                return "whole"
        return None

    def is_len_path(self, t):
        return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.len" and self.is_path(peel(t.a[1][0]))

    def is_path(self, t):
        if t.op != "call":
            return False
        f = t.a[0]
        name = f.a[1] if f.op == "attr" else f.a[0] if f.op in ("fn", "bound") else ""
        return isinstance(name, str) and name.rsplit(".", 1)[-1] == "path"

    def column(self, c):
        """The roles a column term stands for; None for anything else."""
        out = set()
        for s in flat(c):
            if s.op == "mu":
                for x in self.ip.sources(s):
                    r = self.column(x) if x.op != "mu" else set()
                    if r is None:
                        return None
                    out |= r
                continue
            if s.op == "attr" and s.a[0].op == "new" or is_const(s, None):
                continue
            if s is self.default:
                if self.spec["metric"] is None:
                    return None
                out.add("default")
                continue
            p = next((k for k, v in self.par.items() if v is s), None)
            if p in self.spec["cols"] and p != "cat_columns":
                out.add(p)
                continue
            if s.op == "item" and self.spec["metric"] and s.a[1].op == "const" and isinstance(s.a[1].a[0], int):
                # metric_column[i], or metric_column[:k][i]
                b = s.a[0]
                if b.op == "item" and b.a[1].op == "slice":
                    b = b.a[0]
                r = self.column(b)
                if r and r <= {self.spec["metric"], "default"}:
                    out.add("%s[%d]" % (self.spec["metric"], s.a[1].a[0]))
                    continue
                return None
            if s.op == "const" and s.a[0] in self.spec["ann"]:
                out.add(s.a[0])
                continue
            if s.op == "elem":
                b, si, cond = self.mem(s.a[0])
                for x in b | si:
                    if x.op == "attr" and x.a[0] is self.self_ and x.a[1] in ("inc_metrics", "exc_metrics") and self.name == "to_literal":
                        out.add(x.a[1])
                    elif x is self.par.get("cat_columns"):
                        out.add("cat_columns")
                    else:
                        p = next((k for k, v in self.par.items() if v is x), None)
                        if p in self.spec["cols"]:
                            out.add(p)
                        else:
                            return None
                continue
            return None
        return out

    def outputs(self):
        """Every term which the returned value is made of."""
        seen, work = set(), [v for g, v in self.res.returns]
        heap = {}
        for (o, f), v in self.st.heap.items():
            heap.setdefault(o, []).append(v)
        while work:
            t = work.pop()
            if not isinstance(t, T) or t in seen:
                continue
            seen.add(t)
            if t.op == "ite":
                work += [t.a[1], t.a[2]]
                continue
            if t.op == "mu" and not str(t.a[0]).startswith("rec:"):
                work += list(self.ip.mu.get(t, ()))
            for x in t.a:
                if isinstance(x, T):
                    work.append(x)
                elif isinstance(x, tuple):
                    for y in x:
                        if isinstance(y, T):
                            work.append(y)
                        elif isinstance(y, tuple):
                            work += [z for z in y if isinstance(z, T)]
            for g, l, k, v in self.st.contents.get(t, ()):
                work += [k, v]
            if t.op in ("new", "dict"):
                work += heap.get(t, [])
        return seen

    def check_reads(self):
        reads = self.reads()
        outs = self.outputs()
        shown = {}
        metrics_of = set()
        # a first pass over a recursive function sees the root in place of the
        # current node: such twins of a read are no reads of their own
        real = {repr(col) for t, (idx, col, e) in reads.items() if any(s in self.mus for s in subterms(idx))}
        for t, (idx, col, e) in reads.items():
            if e is None and self.mus and repr(col) in real and not any(s in self.mus for s in subterms(idx)) and any(
                self.node_kind(s) == "root" for s in subterms(idx)
            ):
                continue
            where = e.where if e is not None else ""
            label = self.name + " " + (where.split(":")[0] if False else "read")
            self.ctx.count("table reads")
            nodes = set()
            for w in WORLDS:
                alts = self.rows(idx, w)
                self.ctx.count("reads x layouts")
                if None in alts:
                    need = [self.par["rank"], self.par["thread"]]
                    ok = all(any(x is n for x in subterms(idx)) for n in need)
                    ok = ok or any(self.from_list(x, need) for x in subterms(idx))
                    ok = ok and not any(x.op == "attr" and x.a[1] == "parents" for x in subterms(idx))
                    self.ob(ok, "row", label, "the row of `%s` does not depend on the requested rank and thread" % idx, where)
                    continue
                want = [x for x, on in ((self.par["rank"], w[0]), (self.par["thread"], w[1])) if on]
                for parts in alts:
                    ok = len(parts) == 1 + len(want) and all(a is b for a, b in zip(parts[1:], want))
                    self.ob(ok, "row", label, "for a table %s the row read is (%s), not the node's row for the requested %s" % (
                        "indexed by node" + "".join(" and " + n for n, on in zip(("rank", "thread"), w) if on),
                        ", ".join(repr(p)[:60] for p in parts),
                        " and ".join(n for n, on in zip(("rank", "thread"), w) if on) or "node"), where)
                    nodes.add(parts[0])
            kinds = {self.node_kind(n) for n in nodes}
            for n, k in ((n, self.node_kind(n)) for n in nodes):
                self.ob(k is not None, "node", label, "reads the row of `%s`, which is not the node being shown" % repr(n)[:80], where)
                if k == "root" and self.mus:
                    self.ob(False, "node", label, "reads the row of the root `%s` while showing its descendants" % repr(n)[:80], where)
                if k == "child":
                    self.ob(t not in outs or self.only_compared(t, outs), "node", label, "shows the row of a child `%s` in place of the node's own" % repr(n)[:80], where)
            if col is None:
                continue
            roles = self.column(col)
            self.ob(roles is not None, "column", label, "reads the column `%s`, which was not requested" % repr(col)[:120], where)
            if roles and t in outs and "child" not in kinds:
                for r in roles:
                    shown.setdefault(r, set()).update(nodes)
            if roles and self.name == "tree":
                ix = {r[r.index("[") + 1:-1] for r in roles if r.endswith("]")}
                plain = self.spec["metric"] in roles
                self.ob(not ix or ix == {"0" if plain else "1"}, "column", label,
                        "one metric is read from the columns %s of metric_column" % ", ".join(sorted(r for r in roles if r != "default")), where)
            if roles and self.name == "to_flamegraph":
                if self.spec["metric"] in roles:
                    ok = all(self.node_kind(n) == "self" or self.path_part(n) == "last" for n in nodes if n.op in ("elem", "item"))
                    self.ob(ok, "node", label, "the value of a stack is not the metric of its last node", where)
        self.check_hidden(reads, outs)
        for r in self.spec["must"]:
            self.ob(r in shown, "shown", self.name, "the column given as %s is never read for the output" % r)
        if self.name == "tree":
            for i in (0, 1):
                self.ob("metric_column[%d]" % i in shown, "shown", self.name, "metric number %d of metric_column is not shown" % (i + 1))
        if self.name == "to_literal":
            for r in ("inc_metrics", "exc_metrics", "cat_columns"):
                self.ob(r in shown, "shown", self.name, "the columns in %s are not written" % r)
        if self.name == "to_flamegraph":
            parts = {self.path_part(n) for n in shown.get("name", ()) if n.op in ("elem", "item")}
            selfs = any(self.node_kind(n) == "self" for n in shown.get("name", ()))
            self.ob("whole" in parts or "prefix" in parts and ("last" in parts or selfs), "path", self.name,
                    "the stack does not name every node on the path from the root")
        if self.spec["metric"]:
            self.ob(any(t is self.default for x in reads.values() if x[1] is not None for t in subterms(x[1])), "default", self.name,
                    "the default metric is not used when no metric is requested")

    def check_hidden(self, reads, outs):
        """Cells are shown whatever their values are."""
        if self.name == "to_literal":
            return
        cells = {t for t, (i, c, e) in reads.items() if c is not None}
        memo = {}

        def inside(t):
            # cells in value position: not those tested by a gate
            if t not in memo:
                memo[t] = out = {t} & cells
                if t.op not in ("cmp", "truth", "not", "and", "or"):
                    for x in t.a[1:] if t.op == "ite" else t.a:
                        for y in x if isinstance(x, tuple) else (x,):
                            if isinstance(y, T):
                                out |= inside(y)
            return memo[t]

        for o in outs:
            if o.op != "ite":
                continue
            on = {s for s in subterms(o.a[0]) if s in cells}
            th = self.par.get("threshold")
            if not on or th is not None and any(s is th for s in subterms(o.a[0])):
                continue
            a, b = inside(o.a[1]), inside(o.a[2])
            gone = [t for t in a ^ b if t in on or self.name == "tree"]
            self.ctx.count("value-dependent choices")
            self.ob(not gone, "hidden", self.name, "a cell is left out of the output depending on its value: `%s`" % repr(o.a[0])[:100])

    def from_list(self, x, need):
        if x.op in ("list", "tuple", "dict") and x in self.st.contents:
            vals = [v for g, l, k, v in self.st.contents[x]]
            flatv = [s for v in vals if isinstance(v, T) for s in subterms(v)]
            if all(n in flatv for n in need):
                return True
            return any(self.from_list(s, need) for s in flatv if s.op in ("list", "dict") and s is not x)
        return False

    def only_compared(self, t, outs):
        """t is only an operand of comparisons (and of ites' conditions)."""
        for o in outs:
            if o.op in ("cmp", "not", "and", "or", "truth"):
                continue
            for x in o.a:
                xs = x if isinstance(x, tuple) else (x,)
                if any(y is t for y in xs):
                    return False
        return True

    # ---------------------------------------------------------- traversal
    def literal_ok(self, l, node):
        """A condition under which nodes may be left out."""
        c = l.a[0] if l.op == "not" else l
        pos = l.op != "not"
        if c.op == "const":
            return True
        subs = list(subterms(c))
        if any(s.op == "attr" and s.a[1] == "_depth" for s in subs):
            d = self.par.get("depth")
            a, b = (c.a[1], c.a[2]) if c.op == "cmp" else (None, None)
            if c.op == "cmp" and c.a[0] == "<" and pos:
                return a.op == "attr" and a.a[1] == "_depth" and a.a[0] is node and b is d
            if c.op == "cmp" and c.a[0] == "<=" and not pos:
                return b.op == "attr" and b.a[1] == "_depth" and b.a[0] is node and a is d
            return False
        th = self.par.get("threshold")
        if th is not None and any(s is th for s in subs):
            # kept when metric >= threshold * max
            if c.op != "cmp" or c.a[0] not in ("<", "<="):
                return False
            a, b = c.a[1], c.a[2]
            if c.a[0] == "<=" and pos:
                lim, val = a, b
            elif c.a[0] == "<" and not pos:
                val, lim = a, b
            else:
                return False
            return self.is_limit(lim) and val.op == "item"
        if c.op == "cmp" and c.a[0] == "in":
            x = c.a[1]
            if x.op == "attr" and x.a[1] == "_hatchet_nid":
                x = x.a[0]
            if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.id":
                x = x.a[1][0]
            return x is node and not pos
        if c.op == "truth":
            y = c.a[0]
            return pos and y.op == "attr" and y.a[1] == "children" or pos and self.is_children(y)
        if c.op == "cmp" and c.a[0] == "is" and any(x is self.roots for x in c.a[1:]):
            return True
        return False

    def is_children(self, t):
        b, s, c = self.mem(t)
        return bool(b | s) and all(x.op == "attr" and x.a[1] in ("children", "roots") for x in b | s)

    def is_limit(self, t):
        th = self.par["threshold"]
        if t.op == "bin" and t.a[0] == "*":
            x = [y for y in t.a[1:] if y is not th]
            if len(x) == 1:
                m = x[0]
                return m.op == "call" and m.a[0].op == "attr" and m.a[0].a[1] == "max" and m.a[0].a[0].op == "item" and self.is_table(m.a[0].a[0].a[0]) and \
                    self.column(m.a[0].a[0].a[1]) == {self.spec["metric"], "default"}
        return False

    def loop_leaves(self, e):
        return [x for x in self.ip.events if x.kind == "break" and x.loops and any(l in x.loops for l in e.loops)]

    def check_traversal(self):
        rec = {}
        for e in self.ip.events:
            if e.kind != "reccall":
                continue
            for m, (fq, p) in self.mus.items():
                if e.name == fq:
                    rec.setdefault(m, []).append((e, e.kwargs.get(p)))
        for m, (fq, p) in self.mus.items():
            short = fq.split(".")[-1]
            calls = rec.get(m, [])
            self.ctx.count("recursive exports")
            full = False
            for e, arg in calls:
                if arg is None or arg.op != "elem":
                    continue
                b, s, cond = self.mem(arg.a[0])
                if not (b | s) or not all(x.op == "attr" and x.a[1] == "children" and x.a[0] is m for x in b | s):
                    self.ob(False, "children", self.name, "goes on with `%s`, which is not the children of the node" % repr(arg)[:80], e.where)
                    continue
                lits = [l for g in (*e.guard, *cond) for l in literals(g)]
                bad = [l for l in lits if not self.literal_ok(l, m) and not (self.name == "to_dot" and self.literal_ok(l, arg)) and not self.child_literal(l, m)]
                bad += [l for g in cond for l in literals(g) if self.visit(l) and self.visit(l) is not m]
                brk = self.loop_leaves(e)
                self.ctx.count("traversal guards", len(lits))
                if not bad and not brk:
                    full = True
                else:
                    self.ob(False, "children", self.name, "%s leaves out children: `%s`" % (short, repr(bad[0])[:100] if bad else "break"), e.where)
            self.ob(full, "children", self.name, "%s does not go on with all children of a node" % short)
            starts = [e for e in self.ip.events if e.kind == "invoke" and e.name == fq]
            okroot = False
            for e in starts:
                arg = e.kwargs.get(p)
                if arg is None or arg.op != "elem":
                    continue
                b, s, cond = self.mem(arg.a[0])
                if {x for x in b | s} != {self.roots}:
                    continue
                lits = [l for g in (*e.guard, *cond) for l in literals(g)]
                bad = [l for l in lits if not self.root_literal(l)]
                self.ob(not bad, "roots", self.name, "leaves out roots: `%s`" % (repr(bad[0])[:100] if bad else ""), e.where)
                okroot = okroot or not bad and not self.loop_leaves(e)
            self.ob(okroot, "roots", self.name, "%s is not started at every root of the graph" % short)
        if not self.mus:
            # loops over all nodes
            ok = False
            for e in self.ip.events:
                if e.kind != "loop" or e.obj is None:
                    continue
                b, s, cond = self.mem(e.obj)
                for x in b | s:
                    if self.is_traverse(x):
                        ok = True
                        self.ctx.count("loops over all nodes")
            self.ob(ok or self.name != "to_flamegraph", "roots", self.name, "does not traverse the graph from every root")
            if self.name == "to_flamegraph":
                self.check_flame()

    def child_literal(self, l, m):
        c = l.a[0] if l.op == "not" else l
        # a condition on a child: its own threshold or first visit
        for s in subterms(c):
            if s.op == "elem" and self.node_kind(s) == "child":
                return self.literal_ok(l, s) and self.visit(l) is None
        return False

    def visit(self, l):
        """The node of a first-visit test."""
        c = l.a[0] if l.op == "not" else l
        if c.op != "cmp" or c.a[0] != "in":
            return None
        x = c.a[1]
        if x.op == "attr" and x.a[1] == "_hatchet_nid":
            x = x.a[0]
        if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] == "builtins.id":
            x = x.a[1][0]
        return x

    def check_edges(self):
        """An edge is written to every shown child, visited or not."""
        if self.name != "to_dot":
            return
        m = next(iter(self.mus), None)
        edges = 0
        for t in self.outputs():
            if t.op in ("str", "call") and any(s.op == "const" and isinstance(s.a[0], str) and "->" in s.a[0] for s in self.parts(t)):
                ids = [s.a[0] for s in self.parts(t) if s.op == "attr" and s.a[1] == "_hatchet_nid"]
                if ids and self.node_kind(ids[0]) == "root":
                    continue
                kids = [n for n in ids if self.node_kind(n) == "child"]
                self.ob(len(ids) == 2 and len(kids) == 1 and ids[0] is m, "edge", self.name, "an edge does not run from the node to its child")
                edges += 1
        self.ob(edges > 0, "edge", self.name, "no edge is written")
        conds, memo = [], {}

        def arrow(t):
            if t not in memo:
                memo[t] = t.op == "const" and isinstance(t.a[0], str) and "->" in t.a[0]
                memo[t] = memo[t] or any(
                    arrow(y) for x in (t.a[1:] if t.op == "ite" else t.a) for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T))
            return memo[t]

        for t in self.outputs():
            if t.op == "ite" and arrow(t.a[1]) != arrow(t.a[2]):
                conds += literals(t.a[0] if arrow(t.a[1]) else neg(t.a[0]))
        for l in conds:
            if any(self.node_kind(s) == "root" for s in subterms(l) if s.op == "elem"):
                continue
            ok = self.literal_ok(l, m) or self.child_literal(l, m)
            self.ob(ok, "edge", self.name, "leaves out edges: `%s`" % repr(l)[:100])

    def parts(self, t):
        for x in t.a:
            if isinstance(x, T):
                yield x
                if x.op in ("fmt", "str", "const"):
                    yield from self.parts(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        yield y
                        if y.op in ("fmt", "str"):
                            yield from self.parts(y)

    def root_literal(self, l):
        c = l.a[0] if l.op == "not" else l
        if c.op == "cmp" and c.a[0] == "is" and any(x is self.roots for x in c.a[1:]):
            return True
        if c.op == "truth" and (c.a[0] is self.roots or self.is_children(c.a[0])):
            return l.op != "not"
        if c.op == "truth" and c.a[0] is self.par.get("render_header"):
            return False
        return False

    def check_flame(self):
        """Lines are left out for the threshold only."""
        conds = []
        for t in self.outputs():
            if t.op != "mu":
                continue
            for v in self.ip.mu.get(t, ()):
                self.skips(v, t, [], conds)
        for g, v in self.res.returns:
            for s in subterms(v):
                if s.op == "phi":
                    for x in s.a[1:]:
                        if isinstance(x, T):
                            self.skips(x, None, [], conds)
        for e in self.ip.events:
            if e.kind == "call" and e.obj is not None and e.name in ("append", "extend") and e.loops:
                conds += [l for g in e.guard for l in literals(g)]
        for l in conds:
            node = next((s for s in subterms(l) if s.op == "elem" and self.node_kind(s) == "self"), None)
            self.ctx.count("traversal guards")
            self.ob(self.literal_ok(l, node), "lines", self.name, "leaves out nodes: `%s`" % repr(l)[:100])
        brk = [x for x in self.ip.events if x.kind == "break" and x.loops]
        self.ob(not brk, "lines", self.name, "stops before the last node", brk[0].where if brk else "")

    def skips(self, v, m, path, out):
        """Conditions under which the text stays as it was."""
        if v.op == "ite":
            keep1, keep2 = self.unchanged(v.a[1]), self.unchanged(v.a[2])
            if keep1 and not keep2:
                out.extend(literals(neg(v.a[0])))
            elif keep2 and not keep1:
                out.extend(literals(v.a[0]))
            for x in v.a[1:]:
                self.skips(x, m, path, out)

    def unchanged(self, x):
        return x.op == "mu" and "rec:" not in str(x.a[0])

    # ------------------------------------------------------------ options
    def check_options(self):
        if self.name != "tree":
            return
        seen = {}
        for (o, f), v in self.st.heap.items():
            if o.op == "new" and f in ("max_metric", "min_metric"):
                seen[f] = v
        found = 0
        for f, p in (("max_metric", "max_value"), ("min_metric", "min_value")):
            v = seen.get(f)
            if v is None:
                continue
            found += 1
            given = self.bound(v, p, False)
            computed = self.bound(v, p, True)
            self.ob(bool(given) and all(x is self.par[p] for x in given), "bounds", self.name,
                    "a given %s is not the bound of the colors (%s)" % (p, ", ".join(repr(x)[:60] for x in given)))
            ok = bool(computed) and all(
                x.op == "call" and (x.a[0].op == "attr" and f[:3] in x.a[0].a[1] or x.a[0].op == "ext" and f[:3] in x.a[0].a[0].rsplit(".", 1)[-1]) for x in computed)
            self.ob(ok, "bounds", self.name, "without %s the bound of the colors is not the %simum of the metric" % (p, f[:3]))
        self.ctx.count("color bounds", found)

    def bound(self, v, p, none):
        """Leaves of v in the world where parameter p is (not) None."""
        par = self.par[p]
        out = []

        def truth(c):
            if c.op == "const":
                return bool(c.a[0])
            if c.op == "not":
                x = truth(c.a[0])
                return None if x is None else not x
            if c.op in ("and", "or"):
                xs = [truth(y) for y in c.a]
                stop = c.op == "or"
                if stop in xs:
                    return stop
                return None if None in xs else not stop
            if c.op == "cmp" and c.a[0] == "is" and c.a[1] is par and is_const(c.a[2], None):
                return none
            if c.op == "truth" and c.a[0] is par:
                return False if none else None
            return None

        def go(t):
            if t.op == "ite":
                d = truth(t.a[0])
                if d is not False:
                    go(t.a[1])
                if d is not True:
                    go(t.a[2])
            elif t.op == "phi":
                for x in t.a[1:]:
                    if isinstance(x, T):
                        go(x)
            elif t.op == "attr" and t.a[0].op == "new":
                pass
            elif t not in out:
                out.append(t)

        go(v)
        return out

    def check_literal(self):
        """The entries of a node's dictionary."""
        if self.name != "to_literal":
            return
        m = next(iter(self.mus), None)
        for e in self.ip.events:
            if e.kind != "setitem" or not e.args:
                continue
            k = e.args[0]
            self.ctx.count("dictionary entries")
            if k.op == "elem":
                roles = self.column(k)
                for s in subterms(e.value):
                    if s.op == "item" and s.a[0].op == "attr" and s.a[0].a[1] == "loc" and s.a[1].op == "tuple" and len(s.a[1].a) == 2:
                        self.ob(s.a[1].a[1] is k, "entry", self.name, "the entry of `%s` holds the column `%s`" % (repr(k)[:60], repr(s.a[1].a[1])[:60]), e.where)
            elif is_const(k, "_hatchet_nid") and m is not None:
                ids = [s.a[0] for s in subterms(e.value) if s.op == "attr" and s.a[1] == "_hatchet_nid"]
                self.ob(bool(ids) and all(x is m for x in ids), "entry", self.name,
                        "_hatchet_nid is not the node's own", e.where)
            elif is_const(k, "frame") and m is not None:
                fr = mk("attr", m, "frame")
                ok = any(s is fr for x in self.spread(e.value) for s in subterms(x))
                self.ob(ok, "entry", self.name, "the frame written is not the node's own", e.where)

    def spread(self, v, seen=None):
        seen = set() if seen is None else seen
        if v in seen:
            return seen
        seen.add(v)
        for g, l, k, x in self.st.contents.get(v, ()):
            for y in (k, x):
                if isinstance(y, T):
                    self.spread(y, seen)
        return seen

    def check_xs(self):
        for e in self.ip.events:
            if e.kind == "call" and e.name == "xs" and e.kwargs and "level" in e.kwargs and e.args:
                lev = e.kwargs["level"]
                if lev.op == "const" and lev.a[0] in ("rank", "thread"):
                    self.ob(e.args[0] is self.par[lev.a[0]], "row", self.name, "selects %s `%s` instead of the requested one" % (lev.a[0], repr(e.args[0])[:60]), e.where)


def check(ctx):
    for name in ENTRIES:
        x = Export(ctx, name)
        ctx.count("exports")
        x.check_reads()
        x.check_traversal()
        x.check_options()
        x.check_literal()
        x.check_edges()
        x.check_xs()
    ctx.need("table reads", 10)
    ctx.need("recursive exports", 1)

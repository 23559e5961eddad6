"""Gated value-flow analysis.

A function is analysed once, statically, over all of its paths: every
expression becomes a hash-consed value term, control dependence is kept as a
guard (a conjunction of condition terms), values that meet at a join become
gated (ite/phi) terms, loop-carried values become mu terms, and every effect
(attribute/item write, container mutation, call, raise, return, yield) becomes
an event carrying its guard, its enclosing loops and the call chain. Calls that
resolve to a function of the repository are inlined (context sensitively), so
extracting or inlining a helper, reordering independent statements, renaming
locals or turning a loop into a comprehension leaves the facts unchanged.

Nothing of the analysed program is ever executed and no solver is involved:
conditions are only compared structurally.
"""

import ast

from .terms import (
    T, mk, const, NONE, TRUE, FALSE, is_const, cval, attr, cmp, neg, b_and, b_or,
    ite, literals, decide, restrict, subterms, contains, pretty,
)
from .repo import FuncInfo, ClassInfo, Module, AnalysisBroken
from . import models

CMPOPS = {
    ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">",
    ast.GtE: ">=", ast.In: "in", ast.NotIn: "notin", ast.Is: "is", ast.IsNot: "isnot",
}
BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^",
    ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@",
}


class Event:
    __slots__ = (
        "kind", "obj", "name", "args", "kwargs", "value", "guard", "facts", "loops",
        "stack", "func", "line", "tries", "elses", "idx", "fn", "calls",
    )

    def __init__(self, kind, **kw):
        self.kind = kind
        self.obj = self.name = self.value = self.fn = None
        self.args = ()
        self.kwargs = {}
        for k, v in kw.items():
            setattr(self, k, v)

    @property
    def where(self):
        return "%s:%s" % (self.func.module.rel, self.line)

    @property
    def construct(self):
        return self.func.qual

    def chain(self):
        return " > ".join([q.split(".")[-1] for q in self.stack])

    def __repr__(self):
        return "<%s %s.%s(%s%s) =%s @%s g=%s>" % (
            self.kind, self.obj, self.name, ", ".join(map(repr, self.args)),
            "".join(", %s=%r" % kv for kv in self.kwargs.items()),
            self.value, self.where, list(self.guard),
        )


class State:
    __slots__ = ("envs", "heap", "contents", "guard", "facts", "dead")

    def __init__(self):
        self.envs = {}
        self.heap = {}
        self.contents = {}
        self.guard = ()
        self.facts = ()
        self.dead = None

    def copy(self):
        s = State()
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.heap = dict(self.heap)
        s.contents = dict(self.contents)
        s.guard = self.guard
        s.facts = self.facts
        s.dead = self.dead
        return s

    def assume(self, c):
        for l in literals(c):
            if l not in self.guard:
                self.guard = self.guard + (l,)

    def become(self, o):
        self.envs, self.heap, self.contents = o.envs, o.heap, o.contents
        self.guard, self.facts, self.dead = o.guard, o.facts, o.dead

    def known(self):
        return self.guard + self.facts


class Frame:
    def __init__(self, func, env, parent_env):
        self.func = func
        self.env = env
        self.parent_env = parent_env
        self.returns = []
        self.loops = []  # stack of dicts: breaks, continues
        self.locals = set()
        self.globals = set()
        self.nonlocals = set()
        self.imports = {}


class Result:
    def __init__(self):
        self.events = []
        self.returns = []  # (guard, term)
        self.falls = []  # guards of paths that fall off the end
        self.state = None


class Interp:
    MAXDEPTH = 14
    MAXEVENTS = 400000

    def __init__(self, repo, opaque=(), inline_generators=(), no_inline=None, param_types=None,
                 field_types=None, max_depth=None, havoc=None, folding=False):
        self.repo = repo
        self.havoc = dict(havoc or {})  # opaque callee -> fields it replaces in its arguments
        self.opaque = set(opaque) | set(self.havoc)
        self.havocked = []
        self.inline_generators = set(inline_generators)
        self.no_inline = no_inline
        self.folding = folding  # results of calls that return from within a loop are kept symbolic
        self.retcalls = {}
        self.events = []
        self.stack = []  # list of (qual)
        self.loops = []
        self.siteloops = {}  # creation site -> the loops around it
        self.birth = {}  # value of a binary operation -> the loops around it
        self.tries = []
        self.cbvals = {}  # (library function, callback) -> parameters and result
        self.elses = []  # try statements in whose else-block we are
        self.trypaths = {}  # merge after a try statement -> the ways through it
        self.tryhandlers = {}
        self.tryloops = {}
        self.mu = {}
        self.env_parent = {}
        self.nenv = 0
        self.param_types = dict(param_types or {})
        self.field_types = dict(models.FIELD_TYPES)
        if field_types:
            self.field_types.update(field_types)
        self.term_types = {}
        self.alloc_types = {}
        self.inlined = set()
        self.const_envs = {}
        self.occ = {}
        self.callsite = []
        self.max_depth = max_depth or self.MAXDEPTH
        self.cur = None
        self.unresolved = []
        self._tcache = {}
        self.rec_args = {}
        self.rec_mu = {}
        self.rec_terms = {}
        self.rec_returns = {}

    # =================================================================== API
    def analyze(self, func, self_class=None, bind=None, types=None):
        """Analyse func as an entry point; parameters become param terms."""
        st = State()
        fr = Frame(func, self._newenv(None), None)
        st.envs[fr.env] = {}
        pars = func.all_params()
        a = func.node.args
        cls = self_class or func.cls
        for i, p in enumerate(pars):
            t = mk("param", func.qual, p)
            if bind and p in bind:
                t = bind[p]
            elif a.vararg and p == a.vararg.arg:
                t = mk("param", func.qual, "*" + p)
                self.term_types[t] = ("tupof", None)
            elif a.kwarg and p == a.kwarg.arg:
                t = mk("param", func.qual, "**" + p)
                self.term_types[t] = ("D", ("str",), None)
            elif i == 0 and cls is not None and not func.is_static:
                if func.is_classmethod:
                    t = mk("cls", cls.qual)
                else:
                    t = mk("param", func.qual, p)
                    self.term_types[t] = ("C", cls.qual)
            else:
                ty = (types or {}).get(p)
                if ty is None:
                    ty = self.param_types.get((func.qual, p))
                if ty is None:
                    ty = models.PARAM_TYPES.get((func.qual, p))
                if ty is not None:
                    self.term_types[t] = ty
            st.envs[fr.env][p] = t
        res = Result()
        self._scan_scope(fr)
        self.stack.append(func.qual)
        self._exec_body(func, st, fr)
        self.stack.pop()
        res.events = self.events
        for s, v in fr.returns:
            res.returns.append((s.guard, v))
        if st.dead is None:
            res.falls.append(st.guard)
        states = [s for s, v in fr.returns] + ([st] if st.dead is None else [])
        res.states = states
        if states:
            res.state, _ = self._merge(states, (), None)
        else:
            res.state = st
        return res

    # ============================================================== plumbing
    def _newenv(self, parent):
        self.nenv += 1
        self.env_parent[self.nenv] = parent
        return self.nenv

    def _scan_scope(self, fr):
        from .repo import own_nodes

        n = fr.func.node
        stores = set(fr.func.all_params())
        for x in own_nodes(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                stores.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                stores.add(x.name)
            elif isinstance(x, ast.Global):
                fr.globals.update(x.names)
            elif isinstance(x, ast.Nonlocal):
                fr.nonlocals.update(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                stores.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                fr.func.module and self.repo._imports(fr.func.module, x, fr.imports)
        fr.locals = stores - fr.globals - fr.nonlocals

    def emit(self, kind, st, node, **kw):
        if st.dead:
            return None
        e = Event(kind, **kw)
        e.guard = st.guard
        e.facts = st.facts
        e.loops = tuple(self.loops)
        e.stack = tuple(self.stack)
        e.calls = tuple(self.callsite)
        e.func = self.cur.func
        e.line = getattr(node, "lineno", 0)
        e.tries = tuple(self.tries)
        e.elses = tuple(self.elses)
        e.idx = len(self.events)
        self.events.append(e)
        if len(self.events) > self.MAXEVENTS:
            raise AnalysisBroken("event budget exceeded in %s" % self.stack[0])
        return e

    def site(self, node):
        s = (
            tuple(self.callsite),
            "%s:%d:%d" % (self.cur.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),
        )
        self.siteloops.setdefault(s, tuple(self.loops))
        return s

    # ---------------------------------------------------------------- merges
    def _merge(self, states, base, values):
        """Join several live states that extend the guard `base`."""
        if len(states) == 1:
            return states[0], (values[0] if values else None)
        n = len(base)
        extras = []
        for s in states:
            g = s.guard
            if g[:n] == tuple(base):
                extras.append(tuple(g[n:]))
            else:
                extras.append(tuple(l for l in g if l not in base))
        # common literals stay
        common = [l for l in extras[0] if all(l in e for e in extras)]
        conds = [b_and(*[l for l in e if l not in common]) for e in extras]
        out = State()
        out.facts = tuple(f for f in states[0].facts if all(f in s.facts for s in states))
        g = tuple(base) + tuple(common)
        alive = join_conds(conds)
        if not (alive.op == "const" and alive.a[0]):
            for l in literals(alive):
                if l not in g:
                    g = g + (l,)
        out.guard = g

        def gate(vals):
            r = vals[-1]
            for c, v in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                if v is None or r is None:
                    r = v if r is None else r
                    continue
                r = ite(c, v, r)
            return r

        keys = []
        for s in states:
            for k in s.envs:
                if k not in out.envs:
                    out.envs[k] = {}
                    keys.append(k)
        for k in keys:
            names = []
            ds = [s.envs.get(k) for s in states]
            for d in ds:
                for nme in d or ():
                    if nme not in out.envs[k]:
                        out.envs[k][nme] = None
                        names.append(nme)
            for nme in names:
                out.envs[k][nme] = gate([None if d is None else d.get(nme) for d in ds])
        hk = {}
        for s in states:
            for k in s.heap:
                hk[k] = None
        for k in hk:
            vals = [s.heap.get(k) for s in states]
            if any(v is None for v in vals):
                dflt = self._heap_default(k)
                vals = [dflt if v is None else v for v in vals]
            out.heap[k] = gate(vals)
        for s in states:
            for k, v in s.contents.items():
                cur = out.contents.get(k)
                if cur is None:
                    out.contents[k] = v
                elif cur is not v:
                    have = set(cur)
                    out.contents[k] = cur + tuple(x for x in v if x not in have)
        val = None
        if values is not None:
            val = gate(list(values))
        return out, val

    def _heap_default(self, k):
        obj, f = k
        if isinstance(f, tuple):
            return mk("item", obj, f[1])
        return attr(obj, f)

    # ============================================================ statements
    def _exec_body(self, func, st, fr):
        prev = self.cur
        self.cur = fr
        saved_loops, self.loops_base = self.loops, None
        try:
            if isinstance(func.node, ast.Lambda):
                v = self.ev(func.node.body, st)
                if not st.dead:
                    s2 = st.copy()
                    fr.returns.append((s2, v))
                    self.emit("return", st, func.node, value=v)
                    st.dead = "return"
            else:
                self.block(func.node.body, st)
        finally:
            self.cur = prev

    def block(self, stmts, st):
        for s in stmts:
            if st.dead:
                return
            self.stmt(s, st)

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisBroken(
                "unsupported statement %s at %s:%s"
                % (type(s).__name__, self.cur.func.module.rel, s.lineno)
            )
        m(s, st)

    def s_Pass(self, s, st):
        pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        v = self.ev(s.value, st)
        if isinstance(s.value, (ast.Compare, ast.Name, ast.BinOp, ast.Subscript)):
            self.emit("exprstmt", st, s, value=v)

    def s_Global(self, s, st):
        pass

    s_Nonlocal = s_Global

    def s_Import(self, s, st):
        self.emit("import", st, s, name=",".join(a.name for a in s.names))

    def s_ImportFrom(self, s, st):
        self.emit("import", st, s, name="%s%s" % ("." * s.level, s.module or ""))

    def s_FunctionDef(self, s, st):
        f = getattr(s, "_finfo", None)
        if f is None:
            f = FuncInfo(self.cur.func.qual + ".<locals>." + s.name, s, self.cur.func.module)
            s._finfo = f
        t = mk("fn", f.qual, self.cur.env)
        self.repo.functions.setdefault(f.qual, f)
        self._bind(s.name, t, st)

    def s_ClassDef(self, s, st):
        c = getattr(s, "_cinfo", None)
        if c is not None:
            self._bind(s.name, mk("cls", c.qual), st)

    def s_Return(self, s, st):
        v = NONE if s.value is None else self.ev(s.value, st)
        if st.dead:
            return
        self.emit("return", st, s, value=v, name="bare" if s.value is None else "value")
        self.cur.returns.append((st.copy(), v))
        st.dead = "return"

    def s_Raise(self, s, st):
        v = None if s.exc is None else self.ev(s.exc, st)
        self.emit("raise", st, s, value=v)
        st.dead = "raise"

    def s_Assert(self, s, st):
        c = self.cond(s.test, st)
        d = decide(c, st.known())
        if d is False:
            self.emit("raise", st, s, value=mk("ext", "builtins.AssertionError"), name="assert")
            st.dead = "raise"
            return
        if d is None:
            self.emit("assert", st, s, value=c)
            st.facts = st.facts + tuple(l for l in literals(c) if l not in st.facts)

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.ev(t.slice, st)
                self.emit("delitem", st, s, obj=b, args=(k,))
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.emit("delattr", st, s, obj=b, name=t.attr)

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)

    def s_AugAssign(self, s, st):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self._lookup(t.id, st, t)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st)
            old = self.getattr(base, t.attr, st, t)
        else:
            base = self.ev(t.value, st)
            key = self.ev(t.slice, st)
            old = self.getitem(base, key, st, t)
        v = self.ev(s.value, st)
        if st.dead:
            return
        new = self.binop(op, old, v)
        ty = self.typeof(old)
        mutable = old.op in ("list", "set", "dict") or (ty and ty[0] in ("L", "S", "D", "df", "series", "arr"))
        # in-place operator methods of repository classes
        dunder = {"+": "__iadd__", "-": "__isub__", "*": "__imul__", "/": "__itruediv__",
                  "|": "__ior__", "&": "__iand__", "^": "__ixor__"}.get(op)
        c = self._class_of(old)
        if c is not None and dunder and self.repo.lookup(c, dunder):
            new = self.call_repo(self.repo.lookup(c, dunder), [old, v], {}, st, s, self_term=old)
        elif mutable:
            self.emit("iop", st, s, obj=old, name=op, args=(v,))
            if op in ("+", "|") and old.op in ("list", "set", "dict"):
                self._content_add(old, st, None, mk("star", v))
                new = old
            elif ty and ty[0] in ("L", "S", "D", "df", "series", "arr"):
                new = old
                if op in ("+", "|"):
                    for src in self.sources(old):
                        if src.op in ("list", "set", "dict"):
                            self._content_add(src, st, None, mk("star", v))
        elif ty is None and old.op not in ("const", "str", "bin"):
            self.emit("iop?", st, s, obj=old, name=op, args=(v,))
        if isinstance(t, ast.Name):
            self._bind(t.id, new, st)
        elif isinstance(t, ast.Attribute):
            self._setattr(base, t.attr, new, st, s, aug=op)
        else:
            self._setitem(base, key, new, st, s, aug=op)

    def assign(self, t, v, st, node):
        if st.dead:
            return
        if isinstance(t, ast.Name):
            self._bind(t.id, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, mk("item", v, const("*%d" % i)), st, node)
                else:
                    k = i if not star or i < star[0] else i - len(t.elts)
                    self.assign(e, self.getitem(v, const(k), st, node), st, node)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self._setattr(b, t.attr, v, st, node)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            self._setitem(b, k, v, st, node)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, node)

    def _bind(self, name, v, st):
        fr = self.cur
        if name in fr.globals:
            self.emit("gwrite", st, fr.func.node, name=fr.func.module.name + "." + name, value=v)
            st.heap[(mk("mod", fr.func.module.name), name)] = v
            return
        if name in fr.nonlocals:
            e = fr.parent_env
            while e is not None:
                if name in st.envs.get(e, {}):
                    st.envs[e][name] = v
                    return
                e = self.env_parent.get(e)
            return
        st.envs[fr.env][name] = v

    def _setattr(self, b, name, v, st, node, aug=None):
        for g, leaf in self.leaves(b, st, limit=8):
            s2 = st
            ev = self.emit("setattr", st, node, obj=leaf, name=name, value=v, kwargs={"aug": aug} if aug else {})
            if ev is not None and g:
                ev.guard = ev.guard + tuple(l for l in g if l not in ev.guard)
            key = (leaf, name)
            if g:
                old = st.heap.get(key, attr(leaf, name))
                st.heap[key] = ite(b_and(*g), v, old)
            else:
                st.heap[key] = v
            # property setters of repository classes
            c = self._class_of(leaf)

    def _setitem(self, b, k, v, st, node, aug=None):
        for g, leaf in self.leaves(b, st, limit=8):
            ev = self.emit("setitem", st, node, obj=leaf, args=(k,), value=v, kwargs={"aug": aug} if aug else {})
            if ev is not None and g:
                ev.guard = ev.guard + tuple(l for l in g if l not in ev.guard)
            key = (leaf, ("item", k))
            if g:
                st.heap[key] = ite(b_and(*g), v, st.heap.get(key, mk("item", leaf, k)))
            else:
                st.heap[key] = v
            if leaf.op in ("dict", "list"):
                self._content_add(leaf, st, k, v)

    def _content_add(self, obj, st, k, v):
        cur = st.contents.get(obj, ())
        ent = (st.guard, tuple(self.loops), k, v)
        if ent not in cur:
            st.contents[obj] = cur + (ent,)

    # ------------------------------------------------------------------- if
    def s_If(self, s, st):
        c = self.cond(s.test, st)
        if st.dead:
            return
        self._branch(c, lambda x: self.block(s.body, x), lambda x: self.block(s.orelse, x), st)

    def _branch(self, c, then, els, st):
        d = decide(c, st.known())
        if d is True:
            then(st)
            return
        if d is False:
            els(st)
            return
        base = st.guard
        s1, s2 = st.copy(), st
        s2c = st.copy()
        s1.assume(c)
        s2c.assume(neg(c))
        then(s1)
        els(s2c)
        self._rejoin(st, base, c, s1, s2c)

    def _rejoin(self, st, base, c, s1, s2):
        if s1.dead and s2.dead:
            kind = s1.dead if s1.dead == s2.dead else "mixed"
            st.become(s1)
            st.dead = kind
            return
        if s1.dead or s2.dead:
            live, deadk = (s2, s1.dead) if s1.dead else (s1, s2.dead)
            lit = neg(c) if s1.dead else c
            st.become(live)
            if deadk == "raise":
                # validation that raises: not a gate, only a known fact
                extra = [l for l in live.guard[len(base):] if l not in literals(lit)]
                st.guard = tuple(base) + tuple(extra)
                st.facts = live.facts + tuple(l for l in literals(lit) if l not in live.facts)
            return
        out, _ = self._merge([s1, s2], base, None)
        st.become(out)

    # ---------------------------------------------------------------- loops
    def _assigned_names(self, body):
        out = set()
        stack = list(body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                if isinstance(n, ast.FunctionDef):
                    out.add(n.name)
                    # nonlocal assignments
                    for x in ast.walk(n):
                        if isinstance(x, ast.Nonlocal):
                            out.update(x.names)
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            stack.extend(ast.iter_child_nodes(n))
        return out

    def _loop(self, node, st, lid, pre, body, orelse, infinite=False, targets=()):
        """pre(state) is run at the head of an iteration (binds the target or
        tests the condition); body(state) executes the body."""
        fr = self.cur
        names = self._assigned_names(node.body) | set(targets)
        if isinstance(node, ast.While):
            names |= self._assigned_names([node.test])
        base = st.guard
        entry = st.copy()
        b = st.copy()
        mus = {}
        for nme in names:
            env = fr.env
            e = env
            while e is not None and nme not in b.envs.get(e, {}):
                e = self.env_parent.get(e) if nme in fr.nonlocals else None
            if e is not None and nme in b.envs[e]:
                t = mk("mu", nme, lid)
                mus[(e, nme)] = (t, b.envs[e][nme])
                self.mu.setdefault(t, [])
                if b.envs[e][nme] not in self.mu[t]:
                    self.mu[t].append(b.envs[e][nme])
                b.envs[e][nme] = t
        self.loops.append(lid)
        rec = {"breaks": [], "continues": []}
        fr.loops.append(rec)
        head = b
        pre(b)
        if not b.dead:
            body(b)
        fr.loops.pop()
        self.loops.pop()
        ends = [] if b.dead else [b]
        ends += rec["continues"]
        if ends:
            for x in ends:
                x.dead = None
            endst, _ = self._merge(ends, base, None) if len(ends) > 1 else (ends[0], None)
            for (e, nme), (t, init) in mus.items():
                v = endst.envs.get(e, {}).get(nme)
                if v is not None and v is not t and v not in self.mu[t]:
                    self.mu[t].append(v)
        exits = []
        if not infinite:
            if orelse:
                pass
            exits.append(("zero", entry))
            if ends:
                exits.append(("end", endst))
        for x in rec["breaks"]:
            x.dead = None
            exits.append(("break", x))
        if not exits:
            st.become(entry)
            st.dead = b.dead or "return"
            return
        # join the exits
        out = State()
        out.guard = base
        out.facts = entry.facts
        stl = [x for _, x in exits]
        allenv = {}
        for x in stl:
            for k in x.envs:
                allenv[k] = None
        for k in allenv:
            d = {}
            for x in stl:
                for nme in x.envs.get(k, {}):
                    d[nme] = None
            for nme in d:
                vals = []
                for x in stl:
                    v = x.envs.get(k, {}).get(nme)
                    if v is None:
                        continue
                    m = mus.get((k, nme))
                    if m and v is m[0]:
                        continue
                    if v not in vals:
                        vals.append(v)
                if not vals:
                    m = mus.get((k, nme))
                    vals = [m[1]] if m else []
                d[nme] = vals[0] if len(vals) == 1 else (mk("phi", lid, *vals) if vals else None)
            out.envs[k] = {a: b_ for a, b_ in d.items() if b_ is not None}
        hk = {}
        for x in stl:
            for k in x.heap:
                hk[k] = None
        for k in hk:
            vals = []
            for x in stl:
                v = x.heap.get(k)
                if v is None:
                    v = self._heap_default(k)
                if v not in vals:
                    vals.append(v)
            out.heap[k] = vals[0] if len(vals) == 1 else mk("phi", lid, *vals)
        for x in stl:
            for k, v in x.contents.items():
                cur = out.contents.get(k)
                if cur is None:
                    out.contents[k] = v
                elif cur is not v:
                    have = set(cur)
                    out.contents[k] = cur + tuple(y for y in v if y not in have)
        st.become(out)
        st.dead = None
        if orelse and not st.dead:
            self.block(orelse, st)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.dead:
            return
        items = self._literal_items(it, st)
        if items is not None and len(items) <= 24 and not any(
            isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)
        ):
            for i, x in enumerate(items):
                if st.dead:
                    return
                self.callsite.append("#%d" % i)
                try:
                    self.assign(s.target, x, st, s)
                    self.block(s.body, st)
                finally:
                    self.callsite.pop()
            if s.orelse and not st.dead:
                self.block(s.orelse, st)
            return
        lid = self._loopid(s)
        # a loop over nothing in one of two cases runs in the other case only
        only = None
        if it.op == "ite":
            if self._empty(it.a[1], st):
                only, it = neg(it.a[0]), it.a[2]
            elif self._empty(it.a[2], st):
                only, it = it.a[0], it.a[1]
        self.emit("loop", st, s, obj=it, name=lid)

        def pre(x):
            if only is not None:
                x.assume(only)
            self.assign(s.target, self.elem(it, lid, x), x, s)

        self._loop(
            s, st, lid,
            pre,
            lambda x: self.block(s.body, x),
            s.orelse,
            targets=[n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)],
        )

    def _empty(self, t, st):
        return t.op == "tuple" and not t.a or t.op in ("list", "set", "dict") and t in st.contents and not st.contents[t]

    def s_While(self, s, st):
        lid = self._loopid(s)
        inf = isinstance(s.test, ast.Constant) and bool(s.test.value)
        self.emit("loop", st, s, obj=None, name=lid)

        def pre(x):
            c = self.cond(s.test, x)
            x.assume(c)
            self.emit("whilecond", x, s, value=c, name=lid)

        self._loop(s, st, lid, pre, lambda x: self.block(s.body, x), s.orelse, infinite=inf)

    def _loopid(self, node):
        cs, site = self.site(node)
        return (cs, "L" + site)

    def s_Break(self, s, st):
        if self.cur.loops:
            self.cur.loops[-1]["breaks"].append(st.copy())
        self.emit("break", st, s)
        st.dead = "break"

    def s_Continue(self, s, st):
        if self.cur.loops:
            self.cur.loops[-1]["continues"].append(st.copy())
        st.dead = "continue"

    def _literal_items(self, it, st):
        if it.op == "tuple":
            return list(it.a)
        if it.op in ("list", "set") and it in st.contents or it.op == "list":
            ents = st.contents.get(it, ())
            if ents and all(
                e[3].op in ("const", "tuple", "str", "fn", "cls", "bound") and not _star(e[3]) and e[1] == tuple(self.loops)
                and len(e[0]) <= len(st.guard) for e in ents
            ) and all(self._constish(e[3]) for e in ents):
                return [e[3] for e in ents]
            return None
        if it.op == "const" and isinstance(it.a[0], (tuple, str)) and False:
            return None
        if it.op == "call" and it.a[0].op == "ext" and it.a[0].a[0] in ("builtins.enumerate", "builtins.reversed", "builtins.zip") and not it.a[2]:
            subs = [self._literal_items(x, st) for x in it.a[1]]
            if any(x is None for x in subs) or not subs:
                return None
            nm = it.a[0].a[0]
            if nm.endswith("enumerate") and len(subs) == 1:
                return [mk("tuple", const(i), x) for i, x in enumerate(subs[0])]
            if nm.endswith("reversed") and len(subs) == 1:
                return list(reversed(subs[0]))
            if nm.endswith("zip"):
                return [mk("tuple", *xs) for xs in zip(*subs)]
        return None

    def _constish(self, t):
        return all(x.op in ("const", "tuple", "str", "fn", "cls", "bound", "ext", "attr", "param", "mod", "glob") for x in subterms(t))

    # ------------------------------------------------------------------ try
    def s_Try(self, s, st):
        base = st.guard
        tid = self._loopid(s)
        hs = []
        for h in s.handlers:
            if h.type is None:
                hs.append("*")
            elif isinstance(h.type, ast.Tuple):
                hs.append(tuple(ast.unparse(x) for x in h.type.elts))
            else:
                hs.append((ast.unparse(h.type),))
        pre = st.copy()
        self.tryhandlers[tid] = tuple(hs)
        self.tryloops[tid] = tuple(self.loops)
        self.tries.append((tid, tuple(hs), bool(s.finalbody)))
        nret = len(self.cur.returns)
        self.block(s.body, st)
        self.tries.pop()
        bodyend = st.copy()
        if s.orelse and not st.dead:
            self.elses.append(tid)
            self.block(s.orelse, st)
            self.elses.pop()
        live = []
        deads = []
        if st.dead:
            deads.append(st.dead)
        else:
            live.append((None, st.copy()))
        for i, h in enumerate(s.handlers):
            # the exception may occur before or after any statement of the body
            src = []
            b2 = bodyend.copy()
            b2.dead = None
            b2.guard = base
            p2 = pre.copy()
            lit = mk("exc", tid, const(str(hs[i])))
            b2.guard = base
            hst, _ = self._merge_unknown([p2, b2], base, tid)
            hst.assume(lit)
            if h.name:
                self._bind(h.name, mk("excval", tid, const(str(hs[i]))), hst)
            self.emit("handler", hst, h, name=hs[i], value=const(tid[1]))
            self.block(h.body, hst)
            if hst.dead:
                deads.append(hst.dead)
            else:
                live.append((lit, hst))
        if not live:
            kinds = set(deads)
            st.dead = kinds.pop() if len(kinds) == 1 else "mixed"
        else:
            for lit, x in live:
                x.guard = tuple(l for l in x.guard if l is not lit)
            if len(live) == 1:
                st.become(live[0][1])
            else:
                out, _ = self._merge_unknown([x for _, x in live], base, (tid[0], tid[1] + "#out"))
                self.trypaths[(tid[0], tid[1] + "#out")] = (tid, [lit for lit, _ in live])
                # keep literals common to all
                st.become(out)
            st.dead = None
        if s.finalbody:
            if st.dead:
                f = bodyend.copy()
                f.dead = None
                f.guard = base
                k = st.dead
                self.tries.append((tid, (), "in-finally"))
                self.block(s.finalbody, f)
                self.tries.pop()
                st.dead = k
            else:
                self.tries.append((tid, (), "in-finally"))
                self.block(s.finalbody, st)
                self.tries.pop()

    s_TryStar = s_Try

    def _merge_unknown(self, states, base, tag):
        """join under an unknown (exceptional) choice"""
        if len(states) == 1:
            return states[0], None
        ss = []
        for i, s in enumerate(states):
            c = s.copy()
            g = s.guard
            common = tuple(l for l in g if l in base)
            lit = mk("excpath", tag, const(i)) if i < len(states) - 1 else neg(mk("excpath", tag, const(0)))
            c.guard = tuple(base) + (lit,) if len(states) == 2 else tuple(base) + (mk("excpath", tag, const(i)),)
            ss.append(c)
        commong = [l for l in states[0].guard if l not in base and all(l in s.guard for s in states)]
        out, _ = self._merge(ss, base, None)
        out.guard = tuple(base) + tuple(commong)
        return out, None

    # ----------------------------------------------------------------- with
    def s_With(self, s, st):
        vals = []
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if st.dead:
                return
            self.emit("enter", st, s, obj=v)
            vals.append(v)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, self._with_value(v), st, s)
        self.tries.append((self._loopid(s), (), "with"))
        self.block(s.body, st)
        self.tries.pop()
        dead = st.dead
        if dead:
            st.dead = None
        for v in reversed(vals):
            self.emit("exit", st, s, obj=v)
        st.dead = dead

    def _with_value(self, v):
        return v

    # =========================================================== expressions
    def ev(self, e, st):
        if st.dead:
            return NONE
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(
                "unsupported expression %s at %s:%s"
                % (type(e).__name__, self.cur.func.module.rel, getattr(e, "lineno", "?"))
            )
        return m(e, st)

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        return self._lookup(e.id, st, e)

    def _lookup(self, name, st, node):
        fr = self.cur
        if name not in fr.globals:
            e = fr.env
            while e is not None:
                d = st.envs.get(e)
                if d is not None and name in d and d[name] is not None:
                    return d[name]
                e = self.env_parent.get(e)
        if name in fr.imports:
            return self._wrap(self.repo.resolve_dotted(fr.imports[name]), st)
        # imports of enclosing functions
        f = fr.func.parent
        while f is not None:
            imps = getattr(f, "_imps", None)
            if imps is None:
                imps = {}
                from .repo import own_nodes

                for x in own_nodes(f.node):
                    if isinstance(x, (ast.Import, ast.ImportFrom)):
                        self.repo._imports(f.module, x, imps)
                f._imps = imps
            if name in imps:
                return self._wrap(self.repo.resolve_dotted(imps[name]), st)
            f = f.parent
        r = self.repo.resolve_name(fr.func.module, name)
        if r is not None:
            return self._wrap(r, st)
        return mk("ext", "builtins." + name)

    def _wrap(self, r, st):
        if isinstance(r, FuncInfo):
            return mk("fn", r.qual, 0)
        if isinstance(r, ClassInfo):
            return mk("cls", r.qual)
        if isinstance(r, Module):
            return mk("mod", r.name)
        if isinstance(r, tuple) and r[0] == "glob":
            return self._global(r[1], r[2], st)
        return mk("ext", r)

    def _global(self, mod, name, st):
        h = st.heap.get((mk("mod", mod), name))
        if h is not None:
            return h
        m = self.repo.modules[mod]
        vals = m.globals.get(name, [])
        if len(vals) == 1 and vals[0] is not None:
            v = vals[0]
            if isinstance(v, ast.Constant):
                # a rebindable global is not a constant
                if not self._rebound(m, name):
                    return const(v.value)
            elif isinstance(v, ast.UnaryOp) and isinstance(v.operand, ast.Constant):
                try:
                    return const(ast.literal_eval(v))
                except Exception:
                    pass
            elif isinstance(v, ast.Tuple) and not self._rebound(m, name):
                try:
                    return mk("tuple", *[const(x) for x in ast.literal_eval(v)])
                except Exception:
                    pass
            elif isinstance(v, ast.Lambda) and not self._rebound(m, name):
                return self._modlambda(m, v)
            elif isinstance(v, (ast.Name, ast.Attribute)) and not self._rebound(m, name):
                r = self.repo.resolve_expr(m, v)
                if r is not None and r != ("glob", mod, name):
                    return self._wrap(r, st)
            elif isinstance(v, (ast.Dict, ast.List, ast.Set)) and not self._rebound(m, name):
                t = mk({"Dict": "dict", "List": "list", "Set": "set"}[type(v).__name__], ("glob", mod + "." + name))
                if t not in st.contents and t not in self.const_envs:
                    self.const_envs[t] = True
                    self._eval_in_module(m, v, t, st)
                return t
        return mk("glob", mod, name)

    def _modlambda(self, m, v):
        f = getattr(v, "_finfo", None)
        if f is None:
            f = FuncInfo("%s.<lambda>@%d:%d" % (m.name, v.lineno, v.col_offset), v, m)
            v._finfo = f
            self.repo.functions[f.qual] = f
        return mk("fn", f.qual, 0)

    def _eval_in_module(self, m, v, t, st):
        """Evaluate a module-level container literal in its module's scope."""
        pseudo = FuncInfo(m.name + ".<module>", ast.parse("def f():\n pass").body[0], m)
        fr = Frame(pseudo, self._newenv(None), None)
        st.envs[fr.env] = {}
        prev, self.cur = self.cur, fr
        sg, st.guard = st.guard, ()
        sl, self.loops = self.loops, []
        n = len(self.events)
        try:
            if isinstance(v, ast.Dict):
                for k, x in zip(v.keys, v.values):
                    if k is None:
                        self._content_add(t, st, None, mk("star", self.ev(x, st)))
                    else:
                        kk, vv = self.ev(k, st), self.ev(x, st)
                        self._content_add(t, st, kk, vv)
                        st.heap[(t, ("item", kk))] = vv
            else:
                for x in v.elts:
                    self._content_add(t, st, None, self.ev(x, st))
        finally:
            self.cur = prev
            st.guard = sg
            self.loops = sl
            del self.events[n:]

    def _rebound(self, m, name):
        cache = getattr(m, "_rebound", None)
        if cache is None:
            cache = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    cache.update(n.names)
            m._rebound = cache
        return name in cache

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        return self.getattr(b, e.attr, st, e)

    def getattr(self, b, name, st, node):
        if st.dead:
            return NONE
        if b.op == "ite":
            ls = self.leaves(b, st, limit=6)
            if len(ls) > 1:
                vals = [self.getattr(x, name, st, node) for _, x in ls]
                r = vals[-1]
                for (g, _), v in zip(reversed(ls[:-1]), reversed(vals[:-1])):
                    r = ite(b_and(*g), v, r)
                return r
            if ls:
                b = ls[0][1]
        v = st.heap.get((b, name))
        if v is not None:
            return v
        if b.op == "mod":
            r = self.repo.resolve_dotted(b.a[0] + "." + name)
            return self._wrap(r, st)
        if b.op == "ext":
            r = self.repo.resolve_dotted(b.a[0] + "." + name)
            return self._wrap(r, st)
        if b.op == "cls":
            c = self.repo.classes[b.a[0]]
            f = self.repo.lookup(c, name)
            if f is not None:
                if f.is_classmethod:
                    return mk("bound", mk("fn", f.qual, 0), b)
                return mk("fn", f.qual, 0)
            k, v = self.repo.lookup_var(c, name)
            if v is not None:
                return self._classvar(k, name, v, st)
            return attr(b, name)
        if b.op == "super":
            c = self.repo.classes[b.a[0]]
            for k in self.repo.mro(c)[1:]:
                if name in k.methods:
                    return mk("bound", mk("fn", k.methods[name].qual, 0), b.a[1])
            return attr(b, name)
        c = self._class_of(b)
        if c is not None:
            f = self.repo.lookup(c, name)
            if f is not None:
                if f.is_property:
                    return self.call_repo(f, [b], {}, st, node, self_term=b)
                if f.is_static:
                    return mk("fn", f.qual, 0)
                if f.is_classmethod:
                    return mk("bound", mk("fn", f.qual, 0), mk("cls", c.qual))
                return mk("bound", mk("fn", f.qual, 0), b)
            k, v = self.repo.lookup_var(c, name)
            if v is not None and (c.qual, name) not in self.field_types:
                t = self._classvar(k, name, v, st)
                if t is not None:
                    return t
        return attr(b, name)

    def _classvar(self, k, name, v, st):
        if isinstance(v, ast.Constant):
            return const(v.value)
        if isinstance(v, ast.Lambda):
            return mk("bound", self._modlambda(k.module, v), mk("cls", k.qual))
        if isinstance(v, ast.Name) and v.id in k.methods:
            return mk("fn", k.methods[v.id].qual, 0)
        t = mk("dict" if isinstance(v, ast.Dict) else "list" if isinstance(v, ast.List) else "classvar", ("classvar", k.qual + "." + name))
        if isinstance(v, (ast.Dict, ast.List)) and t not in self.const_envs:
            self.const_envs[t] = True
            self._eval_in_module(k.module, v, t, st)
        return t

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        return self.getitem(b, k, st, e)

    def e_Slice(self, e, st):
        f = lambda x: NONE if x is None else self.ev(x, st)
        return mk("slice", f(e.lower), f(e.upper), f(e.step))

    def getitem(self, b, k, st, node):
        if st.dead:
            return NONE
        if b.op == "ite":
            ls = self.leaves(b, st, limit=6)
            if len(ls) > 1 and any(x.op in ("tuple", "dict", "list") for _, x in ls):
                vals = [self.getitem(x, k, st, node) for _, x in ls]
                r = vals[-1]
                for (g, _), v in zip(reversed(ls[:-1]), reversed(vals[:-1])):
                    r = ite(b_and(*g), v, r)
                return r
        v = st.heap.get((b, ("item", k)))
        if v is not None:
            return v
        if b.op == "tuple":
            if k.op == "const" and isinstance(k.a[0], int):
                try:
                    return b.a[k.a[0]]
                except IndexError:
                    pass
            if k.op == "slice" and all(x.op == "const" for x in k.a):
                return mk("tuple", *b.a[slice(*[x.a[0] for x in k.a])])
        if b.op == "list" and k.op == "const" and isinstance(k.a[0], int):
            ents = st.contents.get(b, ())
            if ents and all(
                not _star(x[3]) and x[2] is None and x[1] == ents[0][1] and x[0] == ents[0][0] and x[1] == tuple(self.loops)[: len(x[1])] for x in ents
            ):
                try:
                    return ents[k.a[0]][3]
                except IndexError:
                    pass
        if b.op == "dict" and k.op == "const":
            ents = [x for x in st.contents.get(b, ()) if x[2] is k]
            if len(ents) == 1 and all(l in st.known() for l in ents[0][0]):
                return ents[0][3]
        c = self._class_of(b)
        if c is not None:
            f = self.repo.lookup(c, "__getitem__")
            if f is not None:
                return self.call_repo(f, [b, k], {}, st, node, self_term=b)
        if b.op == "const" and k.op == "const":
            try:
                return const(b.a[0][k.a[0]])
            except Exception:
                pass
        return mk("item", b, k)

    def e_Tuple(self, e, st):
        xs = [self.ev(x, st) for x in e.elts]
        return mk("tuple", *xs)

    def e_List(self, e, st, op="list"):
        t = mk(op, self.site(e) + self._occ(e))
        st.contents[t] = ()
        for x in e.elts:
            v = self.ev(x, st)
            self._content_add2(t, st, None, v)
        self.alloc_types.setdefault(t, None)
        return t

    def _content_add2(self, t, st, k, v):
        # literal elements: keep duplicates and order
        cur = st.contents.get(t, ())
        st.contents[t] = cur + ((st.guard, tuple(self.loops), k, v),)

    def _occ(self, node):
        return ()

    def e_Set(self, e, st):
        return self.e_List(e, st, "set")

    def e_Dict(self, e, st):
        t = mk("dict", self.site(e))
        st.contents[t] = ()
        for k, v in zip(e.keys, e.values):
            if k is None:
                self._content_add2(t, st, None, mk("star", self.ev(v, st)))
            else:
                kk = self.ev(k, st)
                vv = self.ev(v, st)
                self._content_add2(t, st, kk, vv)
                st.heap[(t, ("item", kk))] = vv
        return t

    def e_Starred(self, e, st):
        return mk("star", self.ev(e.value, st))

    def e_JoinedStr(self, e, st):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.ev(x.value, st)
                spec = ""
                if x.conversion != -1:
                    spec += "!" + chr(x.conversion)
                if x.format_spec is not None:
                    spec += ":" + ast.unparse(x.format_spec)
                parts.append(v if not spec else mk("fmt", v, spec))
        return mkstr(parts)

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        self._bind(e.target.id, v, st)
        return v

    def e_Lambda(self, e, st):
        f = getattr(e, "_finfo", None)
        if f is None:
            f = FuncInfo(
                "%s.<locals>.<lambda>@%d:%d" % (self.cur.func.qual, e.lineno, e.col_offset),
                e, self.cur.func.module, None, self.cur.func,
            )
            e._finfo = f
        self.repo.functions.setdefault(f.qual, f)
        # defaults of the lambda are evaluated at definition time
        t = mk("fn", f.qual, self.cur.env)
        for p, d in f.defaults().items():
            st.heap[(t, "default:" + p)] = self.ev(d, st)
        return t

    def e_IfExp(self, e, st):
        c = self.cond(e.test, st)
        out = []
        res = {}

        def run(key, expr):
            def f(x):
                res[key] = self.ev(expr, x)
            return f

        d = decide(c, st.known())
        if d is True:
            return self.ev(e.body, st)
        if d is False:
            return self.ev(e.orelse, st)
        self._branch(c, run("a", e.body), run("b", e.orelse), st)
        return ite(c, res.get("a", NONE), res.get("b", NONE))

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], st)
        for nxt in e.values[1:]:
            c = self.truth(v)
            if not isand:
                c = neg(c)
            d = decide(c, st.known())
            if d is False:
                break
            res = {}

            def f(x, nxt=nxt):
                res["v"] = self.ev(nxt, x)

            if d is True:
                v = self.ev(nxt, st)
                continue
            prev = v
            self._branch(c, f, lambda x: None, st)
            nv = res.get("v", NONE)
            if self._boolish(prev) and self._boolish(nv):
                v = b_and(prev, nv) if isand else b_or(prev, nv)
            else:
                v = ite(c, nv, prev)
        return v

    def _boolish(self, t):
        return t.op in ("cmp", "not", "and", "or", "truth") or is_const(t, True, False)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return neg(self.cond(e.operand, st))
        v = self.ev(e.operand, st)
        if v.op == "const" and isinstance(v.a[0], (int, float)):
            try:
                if isinstance(e.op, ast.USub):
                    return const(-v.a[0])
                if isinstance(e.op, ast.UAdd):
                    return v
                if isinstance(e.op, ast.Invert):
                    return const(~v.a[0])
            except Exception:
                pass
        op = {ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "inv"}[type(e.op)]
        if op == "inv":
            c = self._class_of(v)
            f = c and self.repo.lookup(c, "__invert__")
            if f:
                return self.call_repo(f, [v], {}, st, e, self_term=v)
        return mk("un", op, v)

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        op = BINOPS[type(e.op)]
        dunder = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__",
                  "&": "__and__", "|": "__or__", "^": "__xor__"}.get(op)
        c = self._class_of(a)
        if c is not None and dunder:
            f = self.repo.lookup(c, dunder)
            if f is not None:
                return self.call_repo(f, [a, b], {}, st, e, self_term=a)
        if op == "%" and (a.op == "str" or (a.op == "const" and isinstance(a.a[0], str))):
            return percent(a, b)
        if op == "+" and (a.op == "list" or b.op == "list"):
            t = mk("list", self.site(e) + ("cat",))
            st.contents[t] = ()
            self._content_add2(t, st, None, mk("star", a))
            self._content_add2(t, st, None, mk("star", b))
            return t
        t = self.binop(op, a, b)
        self.birth.setdefault(t, tuple(self.loops))
        return t

    def binop(self, op, a, b):
        if op == "+" and (_isstr(a) or _isstr(b)):
            return mkstr([a, b])
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return mk("tuple", *(a.a + b.a))
        if a.op == "const" and b.op == "const":
            try:
                x, y = a.a[0], b.a[0]
                if op == "+":
                    return const(x + y)
                if op == "-":
                    return const(x - y)
                if op == "*" and not (isinstance(x, str) and isinstance(y, int) and y > 200):
                    return const(x * y)
            except Exception:
                pass
        if op in ("+", "*") and op == "*":
            if (str(pretty(a)), 0) > (str(pretty(b)), 0) and self._num(a) and self._num(b):
                a, b = b, a
        return mk("bin", op, a, b)

    def _num(self, t):
        return False

    def e_Compare(self, e, st):
        l = self.ev(e.left, st)
        out = []
        for op, r in zip(e.ops, e.comparators):
            rv = self.ev(r, st)
            out.append(self.compare(CMPOPS[type(op)], l, rv, st, e))
            l = rv
        return b_and(*out) if len(out) > 1 else out[0]

    def compare(self, op, a, b, st, node=None):
        if a.op == "ite" and b.op == "const":
            ls = self.leaves(a, st, limit=4)
            if len(ls) <= 4 and all(x.op in ("const", "new", "list", "dict", "tuple") for _, x in ls):
                return b_or(*[b_and(*(list(g) + [cmp(op, x, b)])) for g, x in ls])
        if op in ("in", "notin") and b.op in ("list", "set") and b in st.contents:
            ents = st.contents[b]
            if ents and all(x[3].op == "const" for x in ents):
                t = mk("tuple", *[x[3] for x in ents])
                return cmp(op, a, t)
        return cmp(op, a, b)

    def cond(self, e, st):
        """Boolean term of a test expression."""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = []
            sub = st.copy()
            for x in e.values:
                c = self.cond(x, sub)
                acc.append(c)
                sub.assume(c if isand else neg(c))
            # side effects of the operands (walrus, inlined calls)
            st.contents = sub.contents
            st.heap = sub.heap
            st.envs = sub.envs
            return b_and(*acc) if isand else b_or(*acc)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return neg(self.cond(e.operand, st))
        v = self.ev(e, st)
        return self.truth(v)

    def truth(self, v):
        if v.op == "const":
            try:
                return const(bool(v.a[0]))
            except Exception:
                return mk("truth", v)
        if self._boolish(v):
            return v
        if v.op == "ite":
            a, b = self.truth(v.a[1]), self.truth(v.a[2])
            return b_or(b_and(v.a[0], a), b_and(neg(v.a[0]), b))
        if v.op in ("fn", "cls", "bound", "mod"):
            return TRUE
        if v.op == "tuple":
            return const(bool(v.a))
        if v.op == "attr" and v.a[1] == "empty" and (self.typeof(v.a[0]) or ("",))[0] in ("df", "series", "dfpart"):
            return neg(mk("truth", v.a[0]))
        c = self._class_of(v)
        if c is not None and not self.repo.lookup(c, "__bool__") and not self.repo.lookup(c, "__len__"):
            if v.op == "new":
                return TRUE
            return cmp("isnot", v, NONE)
        if v.op == "call" and v.a[0].op == "ext":
            n = v.a[0].a[0]
            if n in ("builtins.bool",) and len(v.a[1]) == 1:
                return self.truth(v.a[1][0])
            if n == "builtins.len" and len(v.a[1]) == 1:
                return mk("truth", v.a[1][0])
            if n in ("builtins.isinstance", "builtins.issubclass", "builtins.callable", "builtins.any", "builtins.all", "builtins.hasattr"):
                return mk("truth", v)
        return mk("truth", v)

    # --------------------------------------------------------- comprehensions
    def _comp(self, e, st, kind):
        fr = self.cur
        sub = st.copy()
        saved = dict(sub.envs[fr.env])
        self.site(e)
        lids = []
        for g in e.generators:
            it = self.ev(g.iter, sub)
            lid = self._loopid(g.iter)
            lid = (lid[0], lid[1] + "c")
            self.emit("loop", sub, g.iter, obj=it, name=lid)
            self.loops.append(lid)
            lids.append((lid, it))
            self.assign(g.target, self.elem(it, lid, sub), sub, e)
            for c in g.ifs:
                sub.assume(self.cond(c, sub))
        t = mk(kind, self.site(e))
        if kind == "dict":
            k = self.ev(e.key, sub)
            v = self.ev(e.value, sub)
        else:
            k = None
            v = self.ev(e.elt, sub)
        ent = (sub.guard, tuple(self.loops), k, v)
        for _ in lids:
            self.loops.pop()
        # propagate effects
        st.contents = sub.contents
        st.contents[t] = (ent,)
        st.heap = sub.heap
        for k2, d in sub.envs.items():
            if k2 != fr.env:
                st.envs[k2] = d
        return t

    def e_ListComp(self, e, st):
        return self._comp(e, st, "list")

    def e_SetComp(self, e, st):
        return self._comp(e, st, "set")

    def e_GeneratorExp(self, e, st):
        return self._comp(e, st, "list")

    def e_DictComp(self, e, st):
        return self._comp(e, st, "dict")

    def e_Yield(self, e, st):
        v = NONE if e.value is None else self.ev(e.value, st)
        self.emit("yield", st, e, value=v)
        return mk("sent", self.site(e))

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        lid = self._loopid(e)
        self.emit("loop", st, e, obj=v, name=lid)
        self.loops.append(lid)
        self.emit("yield", st, e, value=self.elem(v, lid, st))
        self.loops.pop()
        return NONE

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    # ------------------------------------------------------------ iteration
    def elem(self, it, lid, st):
        """The loop variable of a loop `lid` over iterable `it`."""
        if it.op == "call" and it.a[0].op == "ext":
            n = it.a[0].a[0]
            if n == "builtins.enumerate" and it.a[1]:
                i = mk("idx", lid)
                start = it.a[1][1] if len(it.a[1]) > 1 else dict(it.a[2]).get("start")
                if start is not None and not is_const(start, 0):
                    i = self.binop("+", i, start)
                return mk("tuple", i, self.elem(it.a[1][0], lid, st))
            if n == "builtins.zip":
                return mk("tuple", *[self.elem(x, (lid[0], lid[1] + "z%d" % i), st) for i, x in enumerate(it.a[1])])
            if n in ("builtins.iter", "builtins.list", "builtins.tuple"):
                return self.elem(it.a[1][0], lid, st) if it.a[1] else mk("elem", it, lid)
        if it.op == "call" and it.a[0].op == "attr" and not it.a[1]:
            n = it.a[0].a[1]
            d = it.a[0].a[0]
            if n == "items":
                return mk("tuple", mk("key", d, lid), mk("val", d, lid))
            if n == "keys":
                return mk("key", d, lid)
            if n == "values" and (self.typeof(d) or ("",))[0] in ("D",) or (n == "values" and d.op == "dict"):
                return mk("val", d, lid)
        if it.op == "dict" or (self.typeof(it) or ("",))[0] == "D":
            return mk("key", it, lid)
        if it.op == "list":
            # a copy "list(x)" / "[*x]" iterates x's elements
            ents = st.contents.get(it, ())
            if len(ents) == 1 and _star(ents[0][3]) and ents[0][2] is None and it.a[0][-1] == "copy":
                return self.elem(ents[0][3].a[0], lid, st)
            # comprehension over tuples: expose the structure
            if len(ents) == 1 and ents[0][3].op == "tuple":
                n = len(ents[0][3].a)
                return mk("tuple", *[mk("item", mk("elem", it, lid), const(i)) for i in range(n)])
        return mk("elem", it, lid)

    def elements(self, t, st, seen=None):
        """Possible elements of a container term: [(guard, loops, key, value)]."""
        seen = seen or set()
        if t in seen:
            return []
        seen.add(t)
        out = []
        for g, l, k, v in st.contents.get(t, ()):
            if _star(v):
                inner = v.a[0]
                sub = self.elements(inner, st, seen)
                if sub or inner in st.contents:
                    out += [(g + gg, l + ll, kk, vv) for gg, ll, kk, vv in sub]
                else:
                    out.append((g, l, k, mk("elem", inner, ("any", "any"))))
            else:
                out.append((g, l, k, v))
        return out

    # --------------------------------------------------------------- leaves
    def leaves(self, t, st=None, limit=16, guard=()):
        """Possible non-gated values of a term with their conditions."""
        out = []

        def go(x, g):
            if len(out) > limit:
                return
            if x.op == "ite":
                c = x.a[0]
                d = decide(c, g + (st.known() if st is not None else ()))
                if d is not False:
                    go(x.a[1], g + tuple(l for l in literals(c) if l not in g) if d is None else g)
                if d is not True:
                    go(x.a[2], g + tuple(l for l in literals(neg(c)) if l not in g) if d is None else g)
            else:
                out.append((g, x))

        go(t, tuple(guard))
        if len(out) > limit:
            return [((), t)]
        return out

    def sources(self, t, seen=None):
        """All possible non-gated origins of a term (through ite, phi, mu)."""
        seen = seen if seen is not None else set()
        if t in seen:
            return []
        seen.add(t)
        if t.op == "ite":
            return self.sources(t.a[1], seen) + self.sources(t.a[2], seen)
        if t.op == "phi":
            out = []
            for x in t.a[1:]:
                out += self.sources(x, seen)
            return out
        if t.op == "mu":
            out = []
            for x in self.mu.get(t, []):
                out += self.sources(x, seen)
            return out
        return [t]

    def counter(self, t):
        """Start value when t counts loop iterations by one, else None."""
        if t.op == "idx":
            return 0
        if t.op == "bin" and t.a[0] == "+" and t.a[1].op == "idx" and is_const(t.a[2]):
            return cval(t.a[2])
        if t.op == "mu":
            vs = self.mu.get(t, [])
            init = [v for v in vs if is_const(v)]
            rest = [v for v in vs if not is_const(v)]
            if len(init) == 1 and rest and all(
                v.op == "bin" and v.a[0] == "+" and (v.a[1] is t and is_const(v.a[2], 1) or v.a[2] is t and is_const(v.a[1], 1))
                for v in rest
            ):
                return cval(init[0])
        return None

    # ================================================================ types
    def typeof(self, t):
        r = self.term_types.get(t)
        if r is not None:
            return r
        if t in self._tcache:
            return self._tcache[t]
        self._tcache[t] = None
        r = self._typeof(t)
        if r is None:
            self._tcache.pop(t, None)
        else:
            self._tcache[t] = r
        return r

    def _typeof(self, t):
        op = t.op
        if op == "new":
            return ("C", t.a[0])
        if op == "const":
            v = t.a[0]
            return {"str": ("str",), "int": ("int",), "float": ("float",), "bool": ("bool",)}.get(type(v).__name__)
        if op == "str":
            return ("str",)
        if op == "list":
            return ("L", self._content_type(t))
        if op == "set":
            return ("S", self._content_type(t))
        if op == "dict":
            return ("D", None, self._content_type(t))
        if op == "ite":
            a, b = self.typeof(t.a[1]), self.typeof(t.a[2])
            return a if a == b else (a or b if (is_const(t.a[1], None) or is_const(t.a[2], None)) else (a if b is None else b if a is None else None))
        if op in ("phi",):
            ts = [self.typeof(x) for x in t.a[1:] if not is_const(x, None)]
            ts = [x for x in ts if x]
            return ts[0] if ts and all(x == ts[0] for x in ts) else None
        if op == "mu":
            ts = [self.typeof(x) for x in self.mu.get(t, []) if not is_const(x, None)]
            ts = [x for x in ts if x]
            return ts[0] if ts and all(x == ts[0] for x in ts) else None
        if op == "attr":
            bt = self.typeof(t.a[0])
            return models.attr_type(self, bt, t.a[1], t)
        if op == "item":
            bt = self.typeof(t.a[0])
            return models.item_type(self, bt, t.a[1], t)
        if op in ("elem",):
            bt = self.typeof(t.a[0])
            return models.elem_type(self, bt)
        if op == "key":
            bt = self.typeof(t.a[0])
            return bt[1] if bt and bt[0] == "D" else None
        if op == "val":
            bt = self.typeof(t.a[0])
            return bt[2] if bt and bt[0] == "D" else None
        if op == "call":
            return models.call_type(self, t)
        if op == "bin":
            a, b = self.typeof(t.a[1]), self.typeof(t.a[2])
            if a and a[0] in ("L", "str", "df", "series"):
                return a
            return None
        return None

    def _content_type(self, t):
        st = self.cur_state_contents
        if st is None:
            return None
        ents = st.get(t, ())
        ts = []
        for _, _, k, v in ents:
            if _star(v):
                x = models.elem_type(self, self.typeof(v.a[0]))
            else:
                x = self.typeof(v)
            if x is None:
                return None
            ts.append(x)
        if ts and all(x == ts[0] for x in ts):
            return ts[0]
        return None

    cur_state_contents = None

    def _class_of(self, t):
        ty = self.typeof(t)
        if ty and ty[0] == "C":
            return self.repo.classes.get(ty[1])
        return None

    # ================================================================ calls
    def e_Call(self, e, st):
        self.cur_state_contents = st.contents
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            cls = self.cur.func.cls or (self.cur.func.parent and self.cur.func.parent.cls)
            selft = None
            p = self.cur.func.params()
            if p:
                selft = st.envs[self.cur.env].get(p[0])
            if cls is not None and selft is not None:
                return mk("super", cls.qual, selft)
        if isinstance(e.func, ast.Attribute):
            b = self.ev(e.func.value, st)
            args, kwargs = self._args(e, st)
            if st.dead:
                return NONE
            return self.call_attr(b, e.func.attr, args, kwargs, st, e)
        f = self.ev(e.func, st)
        args, kwargs = self._args(e, st)
        if st.dead:
            return NONE
        return self.call_value(f, args, kwargs, st, e)

    def _args(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if v.op == "tuple":
                    args.extend(v.a)
                else:
                    items = [x for x in st.contents.get(v, ())] if v.op == "list" else None
                    if items and all(not _star(x[3]) and x[1] == tuple(self.loops) for x in items):
                        args.extend(x[3] for x in items)
                    else:
                        args.append(mk("star", v))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                if v.op == "dict" and all(x[2] is not None and x[2].op == "const" for x in st.contents.get(v, ())):
                    for x in st.contents.get(v, ()):
                        kwargs[x[2].a[0]] = x[3]
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def call_value(self, f, args, kwargs, st, node):
        if st.dead:
            return NONE
        op = f.op
        if op == "ite":
            ls = self.leaves(f, st, limit=12)
            if len(ls) > 1:
                return self._distribute(ls, lambda leaf, x: self.call_value(leaf, args, kwargs, x, node), st)
            f = ls[0][1]
            op = f.op
        if op == "fn":
            fi = self.repo.functions[f.a[0]]
            return self.call_repo(fi, args, kwargs, st, node, fnterm=f)
        if op == "bound":
            inner = f.a[0]
            if inner.op == "fn":
                fi = self.repo.functions[inner.a[0]]
                return self.call_repo(fi, [f.a[1]] + list(args), kwargs, st, node, fnterm=inner, self_term=f.a[1])
        if op == "cls":
            return self.instantiate(f.a[0], args, kwargs, st, node)
        if op == "attr":
            return self.call_attr(f.a[0], f.a[1], args, kwargs, st, node)
        if op == "partial":
            pos, kw = f.a[1], dict(f.a[2])
            kw.update(kwargs)
            return self.call_value(f.a[0], list(pos) + list(args), kw, st, node)
        if op == "ext":
            return self.call_ext(f.a[0], args, kwargs, st, node)
        if op == "item" and f.a[0].op in ("dict",):
            # dispatch through a table: any of its entries
            ents = self.elements(f.a[0], st)
            if ents and len(ents) <= 32 and all(x[3].op in ("fn", "bound", "cls", "ext", "attr") for x in ents):
                ls = [((cmp("==", f.a[1], x[2]),) if x[2] is not None else (), x[3]) for x in ents]
                return self._distribute(ls, lambda leaf, x: self.call_value(leaf, args, kwargs, x, node), st)
        c = self._class_of(f)
        if c is not None:
            m = self.repo.lookup(c, "__call__")
            if m is not None:
                return self.call_repo(m, [f] + list(args), kwargs, st, node, self_term=f)
        r = mk("call", f, tuple(args), tuple(sorted(kwargs.items())))
        self.emit("call", st, node, fn=f, name=None, args=tuple(args), kwargs=dict(kwargs), value=r)
        return r

    def _distribute(self, ls, fcall, st):
        base = st.guard
        states, vals = [], []
        for g, leaf in ls:
            s = st.copy()
            for l in g:
                if decide(l, s.known()) is False:
                    s = None
                    break
                if decide(l, s.known()) is None:
                    s.assume(l)
            if s is None:
                continue
            v = fcall(leaf, s)
            if not s.dead:
                states.append(s)
                vals.append(v)
        if not states:
            st.dead = "raise"
            return NONE
        if len(states) == 1:
            out, v = states[0], vals[0]
            facts = out.facts + tuple(l for l in out.guard if l not in base)
            if len(ls) > 1:
                out.guard, out.facts = base, facts
        else:
            out, v = self._merge(states, base, vals)
        st.become(out)
        return v

    def call_attr(self, b, name, args, kwargs, st, node):
        if st.dead:
            return NONE
        self.cur_state_contents = st.contents
        if b.op == "ite":
            ls = self.leaves(b, st, limit=8)
            if len(ls) > 1:
                return self._distribute(ls, lambda leaf, x: self.call_attr(leaf, name, args, kwargs, x, node), st)
            b = ls[0][1]
        fld = st.heap.get((b, name))
        if fld is not None and fld.op in ("fn", "bound", "cls", "partial"):
            return self.call_value(fld, args, kwargs, st, node)
        if b.op in ("mod", "ext", "cls", "super"):
            f = self.getattr(b, name, st, node)
            if f.op == "attr":
                # unknown attribute of a class / super of an external base
                r = mk("call", f, tuple(args), tuple(sorted(kwargs.items())))
                self.emit("call", st, node, fn=f, obj=b, name=name, args=tuple(args), kwargs=dict(kwargs), value=r)
                return r
            return self.call_value(f, args, kwargs, st, node)
        c = self._class_of(b)
        if c is not None:
            f = self.repo.lookup(c, name)
            if f is not None:
                if f.is_property:
                    v = self.call_repo(f, [b], {}, st, node, self_term=b)
                    return self.call_value(v, args, kwargs, st, node)
                if f.is_static:
                    return self.call_repo(f, args, kwargs, st, node)
                if f.is_classmethod:
                    return self.call_repo(f, [mk("cls", c.qual)] + list(args), kwargs, st, node)
                return self.call_repo(f, [b] + list(args), kwargs, st, node, self_term=b)
            k, v = self.repo.lookup_var(c, name)
            if v is not None:
                t = self._classvar(k, name, v, st)
                if t is not None and t.op in ("fn", "bound"):
                    return self.call_value(t, ([b] + list(args)) if t.op == "fn" else args, kwargs, st, node)
            return models.method(self, b, name, args, kwargs, st, node)
        ty = self.typeof(b)
        if ty is None and name in models.CHA_METHODS:
            cands = [f for f in self.repo.by_method.get(name, [])]
            quals = set(f.cls.qual for f in cands)
            target = models.CHA_METHODS[name]
            if target in quals:
                f = [x for x in cands if x.cls.qual == target][0]
                return self.call_repo(f, [b] + list(args), kwargs, st, node, self_term=b)
        return models.method(self, b, name, args, kwargs, st, node)

    def call_ext(self, dotted, args, kwargs, st, node):
        return models.ext_call(self, dotted, args, kwargs, st, node)

    def opaque_call(self, f, args, kwargs, st, node, obj=None, name=None, unique=False, rtype=None):
        extra = ()
        kw = tuple(sorted(kwargs.items()))
        if unique:
            kw = kw + (("#", const(str(self.site(node)))),)
        r = mk("call", f, tuple(args), kw)
        if rtype is not None:
            self.term_types.setdefault(r, rtype)
        self.emit("call", st, node, fn=f, obj=obj, name=name, args=tuple(args), kwargs=dict(kwargs), value=r)
        return r

    # ----------------------------------------------------------- repo calls
    def call_repo(self, fi, args, kwargs, st, node, fnterm=None, self_term=None):
        if st.dead:
            return NONE
        if fnterm is None:
            fnterm = mk("fn", fi.qual, 0)
        bound = self.bind_args(fi, args, kwargs, st, fnterm, node)
        ev = self.emit(
            "invoke", st, node, fn=fnterm, obj=self_term, name=fi.qual, args=tuple(args),
            kwargs=dict(bound or {}),
        )
        rec = fi.qual in self.stack
        gen = fi.is_generator and fi.qual not in self.inline_generators
        if (
            rec
            or gen
            or fi.qual in self.opaque
            or len(self.stack) >= self.max_depth
            or (self.no_inline and self.no_inline(fi))
            or bound is None
        ):
            a = tuple(bound.items()) if bound is not None else tuple(enumerate(args))
            canon = mk("call", fnterm if fnterm.a[1] == 0 else mk("fn", fi.qual, 0), tuple(args), tuple(sorted(kwargs.items())))
            if fi.qual in models.IMPURE or rec:
                canon = mk("call", fnterm, tuple(args), tuple(sorted(kwargs.items())) + (("#", const(str(self.site(node)))),))
            if rec and bound is not None:
                self.rec_args.setdefault(fi.qual, []).append(dict(bound))
                for p, v in bound.items():
                    m = self.rec_mu.get((fi.qual, p))
                    if m is not None and v is not m and v not in self.mu[m]:
                        self.mu[m].append(v)
                self.rec_terms.setdefault(fi.qual, []).append(canon)
            if ev is not None:
                ev.kind = "reccall" if rec else "opaque"
                ev.value = canon
            rt = models.RETURN_TYPES.get(fi.qual)
            if rt is not None:
                self.term_types.setdefault(canon, rt)
            for f in self.havoc.get(fi.qual, ()):
                for v in args:
                    for _, leaf in self.leaves(v, st, limit=8):
                        if leaf.op in ("const", "fn"):
                            continue
                        post = mk("post", leaf, f, self.site(node))
                        ty = self.typeof(attr(leaf, f))
                        if ty is not None:
                            self.term_types.setdefault(post, ty)
                        st.heap[(leaf, f)] = post
                        self.havocked.append(post)
            return canon
        self.inlined.add(fi.qual)
        if self._self_recursive(fi):
            bound = self._widen(fi, bound, fnterm, st, node, args, kwargs)
        env = self._newenv(fnterm.a[1] or None)
        fr = Frame(fi, env, fnterm.a[1] or None)
        self._scan_scope(fr)
        st.envs[env] = dict(bound)
        base = st.guard
        self.stack.append(fi.qual)
        self.callsite.append("%s:%d:%d" % (self.cur.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        saved_loops = self.cur.loops
        work = st.copy()
        key, ev0 = tuple(self.callsite), len(self.events)
        try:
            self._exec_body(fi, work, fr)
        finally:
            self.stack.pop()
            self.callsite.pop()
        if ev is not None:
            ev.args = tuple(args)
        inloop = self.folding and any(
            e.kind == "return" and e.calls[:len(key)] == key and len(e.stack) == len(self.stack) + 1
            and (len(e.loops) > len(self.loops) or any(x[1] for x in e.tries[len(self.tries):]))
            for e in self.events[ev0:]
        )
        states = [s for s, v in fr.returns]
        vals = [v for s, v in fr.returns]
        if work.dead is None:
            states.append(work)
            vals.append(NONE)
            self.emit_fall(work, fi, node)
        if not states:
            st.become(work)
            st.dead = "raise"
            return NONE
        for s in states:
            s.dead = None
        if fi.qual in self.rec_terms:
            self.rec_returns.setdefault(fi.qual, [])
            for x in vals:
                if x not in self.rec_returns[fi.qual]:
                    self.rec_returns[fi.qual].append(x)
        if len(states) == 1:
            out, v = states[0], vals[0]
        else:
            out, v = self._merge(states, base, vals)
        if inloop:
            self.retcalls[key] = tuple(self.loops)
            ty = self.typeof(v)
            v = mk("ret", key)
            if ty is not None:
                self.term_types.setdefault(v, ty)
        # A callee that leaves some paths by raising only adds facts.
        extra = tuple(l for l in out.guard if l not in base)
        out.guard = base
        out.facts = out.facts + tuple(l for l in extra if l not in out.facts)
        if not self._captures(fi):
            out.envs.pop(env, None)
        st.become(out)
        st.dead = None
        if fi.is_generator:
            return mk("gen", fi.qual, self.site(node))
        if "contextlib.contextmanager" in fi.decorators:
            pass
        return v

    def _self_recursive(self, fi):
        r = getattr(fi, "_rec", None)
        if r is None:
            r = False
            if not isinstance(fi.node, ast.Lambda):
                for n in ast.walk(fi.node):
                    if isinstance(n, ast.Call):
                        f = n.func
                        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
                        if nm == fi.name:
                            r = True
            fi._rec = r
        return r

    def _widen(self, fi, bound, fnterm, st, node, args, kwargs):
        """Generalise the parameters of a recursive function over the argument
        values of its recursive calls (one probing pass, events discarded)."""
        saved = (len(self.events), dict(self.occ), list(self.loops), list(self.tries))
        self.rec_args[fi.qual] = []
        env = self._newenv(fnterm.a[1] or None)
        fr = Frame(fi, env, fnterm.a[1] or None)
        self._scan_scope(fr)
        work = st.copy()
        work.envs[env] = dict(bound)
        self.stack.append(fi.qual)
        self.callsite.append("%s:%d:%d" % (self.cur.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))
        try:
            self._exec_body(fi, work, fr)
        finally:
            self.stack.pop()
            self.callsite.pop()
        del self.events[saved[0]:]
        self.occ = saved[1]
        out = dict(bound)
        for p in bound:
            vals = []
            for b in self.rec_args.get(fi.qual, []):
                if b.get(p) is not None and b[p] is not bound[p] and b[p] not in vals:
                    vals.append(b[p])
            if vals:
                t = mk("mu", "rec:" + p, self.site(node) + (fi.qual,))
                self.mu.setdefault(t, [])
                for v in [bound[p]] + vals:
                    if v not in self.mu[t]:
                        self.mu[t].append(v)
                self.rec_mu[(fi.qual, p)] = t
                out[p] = t
        return out

    def emit_fall(self, st, fi, node):
        pass

    def _captures(self, fi):
        c = getattr(fi, "_cap", None)
        if c is None:
            from .repo import own_nodes

            c = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in own_nodes(fi.node)) or any(
                isinstance(n, (ast.Lambda,)) for n in ast.walk(fi.node)
            )
            fi._cap = c
        return c

    def bind_args(self, fi, args, kwargs, st, fnterm, node):
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        rest = []
        starred = [x for x in args if x.op == "star"]
        if starred:
            # positional unpacking of an unknown sequence
            out2 = {}
            i = 0
            for x in args:
                if x.op == "star":
                    for j, p in enumerate(pos[i:]):
                        if p not in kwargs:
                            out[p] = mk("item", x.a[0], const(j))
                    break
                if i < len(pos):
                    out[pos[i]] = x
                i += 1
        else:
            for p, v in zip(pos, args):
                out[p] = v
            rest = list(args[len(pos):])
        kw = dict(kwargs)
        extra = {}
        starkw = kw.pop("**", None)
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        for k, v in kw.items():
            if k in names:
                out[k] = v
            else:
                extra[k] = v
        defaults = fi.defaults()
        for p in list(pos) + [x.arg for x in a.kwonlyargs]:
            if p not in out:
                if starkw is not None:
                    out[p] = mk("item", starkw, const(p))
                elif p in defaults:
                    out[p] = self.default_value(fi, p, defaults[p], st, fnterm)
                else:
                    out[p] = mk("missing", fi.qual, p)
        if a.vararg:
            if starred:
                out[a.vararg.arg] = mk("item", starred[0].a[0], const("*"))
            else:
                out[a.vararg.arg] = mk("tuple", *rest)
        elif rest:
            self.emit("arity", st, node, name=fi.qual, args=tuple(args))
        if a.kwarg:
            t = mk("dict", self.site(node) + ("kw",))
            st.contents[t] = ()
            for k, v in extra.items():
                self._content_add2(t, st, const(k), v)
                st.heap[(t, ("item", const(k)))] = v
            if starkw is not None:
                if not extra:
                    t = starkw
                else:
                    self._content_add2(t, st, None, mk("star", starkw))
            out[a.kwarg.arg] = t
        elif extra:
            self.emit("arity", st, node, name=fi.qual, args=tuple(args), kwargs=extra)
        return out

    def default_value(self, fi, p, d, st, fnterm):
        h = st.heap.get((fnterm, "default:" + p))
        if h is not None:
            return h
        if isinstance(d, ast.Constant):
            return const(d.value)
        if isinstance(d, (ast.List, ast.Dict, ast.Set)):
            t = mk({"List": "list", "Dict": "dict", "Set": "set"}[type(d).__name__], ("default", fi.qual + "." + p))
            return t
        if isinstance(d, ast.Lambda):
            f = getattr(d, "_finfo", None)
            if f is None:
                return self._modlambda(fi.module, d)
            return mk("fn", f.qual, 0)
        if isinstance(d, (ast.Name, ast.Attribute)):
            r = self.repo.resolve_expr(fi.module, d)
            if r is not None:
                return self._wrap(r, st)
        if isinstance(d, ast.UnaryOp):
            try:
                return const(ast.literal_eval(d))
            except Exception:
                pass
        return mk("default", fi.qual, p)

    def instantiate(self, qual, args, kwargs, st, node):
        c = self.repo.classes[qual]
        t = mk("new", qual, self.site(node) + (tuple(self.loops),))
        # a second evaluation of the same site inside the same context is a new object
        k = (t,)
        n = self.occ.get(t, 0)
        self.occ[t] = n + 1
        if n:
            t = mk("new", qual, self.site(node) + (tuple(self.loops), n))
        self.emit("new", st, node, obj=t, name=qual, args=tuple(args), kwargs=dict(kwargs), value=t)
        f = self.repo.lookup(c, "__init__")
        if f is not None:
            self.call_repo(f, [t] + list(args), kwargs, st, node, self_term=t)
        return t


# -------------------------------------------------------------------- helpers


def _star(t):
    return t.op == "star"


def _isstr(t):
    return t.op == "str" or (t.op == "const" and isinstance(t.a[0], str))


def mkstr(parts):
    flat = []
    for p in parts:
        xs = p.a if p.op == "str" else (p,)
        for x in xs:
            if x.op == "const" and isinstance(x.a[0], str) and flat and flat[-1].op == "const":
                flat[-1] = const(flat[-1].a[0] + x.a[0])
            else:
                flat.append(x if not (x.op == "const" and not isinstance(x.a[0], str)) else const(str(x.a[0])))
                if len(flat) > 1 and flat[-1].op == "const" and flat[-2].op == "const":
                    y = flat.pop()
                    flat[-1] = const(flat[-1].a[0] + y.a[0])
    flat = [x for x in flat if not is_const(x, "")]
    if not flat:
        return const("")
    if len(flat) == 1 and flat[0].op == "const":
        return flat[0]
    return mk("str", *flat)


def percent(a, b):
    if a.op != "const":
        return mk("bin", "%", a, b)
    import re

    fmt = a.a[0]
    toks = re.split(r"(%(?:\(\w+\))?[-#0 +]*\d*(?:\.\d+)?[a-zA-Z%])", fmt)
    n = sum(1 for t in toks if t.startswith("%") and t != "%%" and len(t) > 1)
    args = list(b.a) if b.op == "tuple" else [b]
    if n != len(args) or any("(" in t for t in toks if t.startswith("%")):
        return mk("bin", "%", a, b)
    parts = []
    i = 0
    for t in toks:
        if t == "%%":
            parts.append(const("%"))
        elif t.startswith("%") and len(t) > 1:
            spec = t[1:]
            parts.append(args[i] if spec == "s" else mk("fmt", args[i], "%" + spec))
            i += 1
        elif t:
            parts.append(const(t))
    return mkstr(parts)


def strformat(fmt, args, kwargs):
    import string

    try:
        toks = list(string.Formatter().parse(fmt))
    except ValueError:
        return None
    parts = []
    auto = 0
    for lit, field, spec, conv in toks:
        if lit:
            parts.append(const(lit))
        if field is None:
            continue
        name = field
        rest = ""
        for i, ch in enumerate(field):
            if ch in ".[":
                name, rest = field[:i], field[i:]
                break
        if name == "":
            idx = auto
            auto += 1
            v = args[idx] if idx < len(args) else None
        elif name.isdigit():
            v = args[int(name)] if int(name) < len(args) else None
        else:
            v = kwargs.get(name)
        if v is None or v.op == "star":
            return None
        for p in [x for x in rest.replace("[", ".").replace("]", "").split(".") if x]:
            v = attr(v, p)
        s = ("!" + conv if conv else "") + (":" + spec if spec else "")
        parts.append(v if not s else mk("fmt", v, s))
    return mkstr(parts)


def join_conds(conds):
    """Disjunction of conjunctions with resolution of complementary literals."""
    sets = []
    for c in conds:
        sets.append(frozenset(literals(c)))
    changed = True
    while changed:
        changed = False
        for i in range(len(sets)):
            for j in range(len(sets)):
                if i == j:
                    continue
                a, b = sets[i], sets[j]
                if a <= b:
                    sets.pop(j)
                    changed = True
                    break
                da, db = a - b, b - a
                if len(da) == 1 and len(db) == 1:
                    x, y = next(iter(da)), next(iter(db))
                    if neg(x) is y:
                        sets[i] = a & b
                        sets.pop(j)
                        changed = True
                        break
                elif len(da) == 1 and len(db) >= 1:
                    # a = R+{x}; b = R+{!x, ...}: drop !x from b
                    x = next(iter(da))
                    if neg(x) in db:
                        sets[j] = b - {neg(x)}
                        changed = True
                        break
            if changed:
                break
    return b_or(*[b_and(*sorted(s, key=lambda t: t.n)) for s in sets])

"""Constant folding of value-flow terms in a world that fixes some of them.

Fold(ctx, qual, args).ev(term) is the value a term has when the parameters of
the function have the given abstract values; run() follows the events of the
function in order, so that containers that are filled step by step (also in
loops over known collections) are known at the end.  Values: constants, lists,
dicts, Obj (an object of which only some attributes are known), Fn (a function
of the repository), Sym (something opaque)."""

import ast

from . import pyexpr as px
from .terms import is_const, mk, subterms


class Unknown(Exception):
    pass


class Raised(Exception):
    def __init__(self, text, name=None):
        Exception.__init__(self, text)
        self.name = name or text


class Stop(Exception):
    pass


class Obj:
    def __init__(self, cls, **kw):
        self.cls, self.attrs = cls, kw

    def __repr__(self):
        return "<%s>" % self.cls


class Cls:
    def __init__(self, name):
        self.name = name


class Fn:
    def __init__(self, qual, recv=None):
        self.qual, self.recv = qual, recv


class Sym:
    def __init__(self, *what):
        self.what = what

    def __eq__(self, other):
        return isinstance(other, Sym) and self.what == other.what

    def __hash__(self):
        return hash(self.what)

    def __repr__(self):
        return "%s" % (self.what,)


PURE = {"strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "replace", "split", "join", "format", "title", "encode", "decode", "find", "isdigit", "capitalize"}


PX = (px.Pattern, px.Row, px.Vec, px.Node, px.Kids, px.Match, px.Loc)


def abstract(v):
    """Is this a value of the abstract table model?"""
    return isinstance(v, PX) or isinstance(v, tuple) and len(v) > 1 and isinstance(v[0], str) and isinstance(v[1], PX)


def truth(v):
    if isinstance(v, (Obj, Fn, Cls)):
        return True
    if abstract(v):
        return px.truth(v)
    if isinstance(v, Sym):
        raise Unknown("truth of %r" % v)
    return bool(v)


def text(v):
    if isinstance(v, (Obj, Fn, Cls, Sym, list, dict)):
        raise Unknown("text of %r" % (v,))
    return str(v)


class Fold:
    cache = {}

    def __init__(self, ctx, qual, args, opaque=(), self_class=None, on_call=None, names=None, env=None, depth=0, evl=None):
        self.evl = evl
        self.ctx, self.qual, self.depth = ctx, qual, depth
        key = (id(ctx), qual, tuple(opaque), self_class)
        if key not in Fold.cache:
            Fold.cache[key] = (ctx, ctx.analyze(qual, opaque=opaque, self_class=self_class, folding=True))
        self.ip, self.res = Fold.cache[key][1]
        self.opaque, self.self_class = opaque, self_class
        self.st = self.res.state
        f = ctx.repo.func(qual)
        self.params = f.params()
        self.env = dict(env or {})
        for p in self.params:
            if p in args:
                self.env[mk("param", qual, p)] = args[p]
            else:
                d = f.defaults().get(p)
                if d is not None:
                    import ast as _ast

                    try:
                        self.env[mk("param", qual, p)] = _ast.literal_eval(d)
                    except ValueError:
                        pass
        self.memo = {}
        self.loops = {}
        self.loopnames = {str(e.name) for e in self.ip.events if e.kind == "loop"}
        self.loopevs = {e.name: e for e in self.ip.events if e.kind == "loop"}
        self.on_call = on_call
        self.names = names or {}
        self.heap = {}
        self.news = {e.obj: e for e in self.ip.events if e.kind == "new"}
        self.muval = {}
        self.fired = {}
        n0 = min([len(e.stack) for e in self.ip.events], default=1)
        self.rets = {k: [e for e in self.ip.events if e.kind == "return" and e.calls[:len(k)] == k and len(e.stack) == self.depth_of(k)] for k in self.ip.retcalls}
        top = [e for e in self.ip.events if e.kind == "return" and len(e.stack) == n0]
        if any(e.loops or any(x[1] for x in e.tries) for e in top):
            self.rets[()] = top
        self.retevs = {e.idx for v in self.rets.values() for e in v}
        self.born = {}
        for e in self.ip.events:
            if e.value is not None and e.value.op == "call" and e.kind in ("call", "opaque", "reccall"):
                ls = tuple(e.loops)
                if e.value not in self.born or len(ls) < len(self.born[e.value]):
                    self.born[e.value] = ls
        self.muts = {}
        for e in self.ip.events:
            if e.obj is not None and e.obj.op in ("list", "dict", "set", "mu", "phi", "ite") and (e.kind == "call" and e.name in self.MUT or e.kind in ("setitem", "delitem", "iop")):
                for o in self.ip.sources(e.obj):
                    if o.op in ("list", "dict", "set"):
                        self.muts.setdefault(o, []).append(e)

    def depth_of(self, key):
        return 1 + len([x for x in key if not x.startswith("#")])

    # calls that return from within a loop
    def _ctx(self, key):
        return (key,) + tuple(self.loops.get(l) for l in self.ip.retcalls.get(key, ()))

    def over(self, e):
        """Has the call that this event belongs to returned already?"""
        return any(e.calls[:len(k)] == k and self._ctx(k) in self.fired for k in self.rets)

    def fire(self, e):
        for k, es in self.rets.items():
            if e in es and self._ctx(k) not in self.fired:
                if self.holds([l for l in e.guard if not self.stale(l, e)]):
                    self.fired[self._ctx(k)] = self.ev(e.value)
                    if not k:
                        raise Stop()

    def stale(self, l, e):
        """A condition about the rounds of a loop that is over."""
        act = set(map(str, e.loops))
        return any(str(x.a[-1]) not in act for x in subterms(l) if x.op in ("elem", "key", "val", "idx") and isinstance(x.a[-1], tuple) and str(x.a[-1]) in self.loopnames)

    def t_ret(self, t, key):
        c = self._ctx(key)
        if c not in self.fired:
            evs = [e for e in self.ip.events if e.calls[:len(key)] == key]
            ls = self.ip.retcalls[key]
            if any(l not in self.loops for l in ls):
                raise Unknown("%r" % t)
            self._exec(evs, len(ls))
        return self.fired.get(c)

    def initial(self, t):
        """The contents a container is created with."""
        out = []
        for g, loops, k, v in self.st.contents.get(t, ()):
            later = False
            for e in self.muts.get(t, ()):
                if e.kind == "setitem" and k is not None and v is e.value:
                    later = True
                elif e.kind in ("call", "iop") and any(v is x or v.op == "star" and v.a[0] is x for x in e.args):
                    later = True
            if not later:
                out.append((g, loops, k, v))
        return out

    # ------------------------------------------------------------- terms
    def ev(self, t):
        if t in self.env:
            return self.env[t]
        op, a = t.op, t.a
        m = getattr(self, "t_" + op, None)
        if m is None:
            raise Unknown("%s %r" % (op, t))
        return m(t, *a)

    def t_const(self, t, v):
        return v

    def t_tuple(self, t, *xs):
        return tuple(self.ev(x) for x in xs)

    def t_str(self, t, *xs):
        return "".join(text(self.ev(x)) for x in xs)

    def t_fmt(self, t, v, spec):
        spec = spec if isinstance(spec, str) else self.ev(spec)
        v = self.ev(v)
        if isinstance(v, (Obj, Sym)):
            raise Unknown("format")
        if spec.startswith("%"):
            return spec % v
        if spec.startswith("!"):
            return {"!r": repr, "!s": str, "!a": ascii}[spec[:2]](v) if len(spec) == 2 else format({"!r": repr, "!s": str}[spec[:2]](v), spec[3:])
        return format(v, spec.lstrip(":"))

    def t_not(self, t, x):
        return not truth(self.ev(x))

    def t_truth(self, t, x):
        return truth(self.ev(x))

    def t_and(self, t, *xs):
        return self._junction(xs, False)

    def t_or(self, t, *xs):
        return self._junction(xs, True)

    def _junction(self, xs, stop):
        bad = None
        for x in xs:
            try:
                if truth(self.ev(x)) == stop:
                    return stop
            except (Unknown, Raised, KeyError, IndexError, AttributeError, TypeError) as e:
                bad = e
        if bad is not None:
            raise bad if isinstance(bad, (Unknown, Raised)) else Unknown(str(bad))
        return not stop

    def t_ite(self, t, c, x, y):
        return self.ev(x if truth(self.ev(c)) else y)

    def t_cmp(self, t, op, x, y):
        a, b = self.ev(x), self.ev(y)
        if self.evl is not None and (abstract(a) or abstract(b)):
            return self.px(self.evl.compare, {"==": ast.Eq, "in": ast.In, "is": ast.Is, "<": ast.Lt, "<=": ast.LtE}[op], a, b)
        if isinstance(a, Cls) and isinstance(b, Cls):
            a, b = a.name, b.name
        if op == "is":
            return a is b or (a == b and type(a) is type(b) and not isinstance(a, (list, dict)))
        if isinstance(a, (Sym,)) or isinstance(b, Sym):
            if op == "==" and a == b:
                return True
            raise Unknown("%r" % t)
        if op == "==":
            return a == b
        if op == "in":
            return a in b
        try:
            if op == "<":
                return a < b
            if op == "<=":
                return a <= b
        except TypeError:
            raise Unknown("%r" % t)
        raise Unknown("%r" % t)

    def t_bin(self, t, op, x, y):
        a, b = self.ev(x), self.ev(y)
        if isinstance(a, (Obj, Sym)) or isinstance(b, (Obj, Sym)):
            return Sym("bin", op, a, b)
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                v = a * b
                if isinstance(v, list):
                    key = (t, self._at(t))
                    return self.memo.setdefault(key, v)
                return v
            if op == "%" and not isinstance(a, str):
                return a % b
        except TypeError:
            pass
        raise Unknown("%r" % t)

    def t_neg(self, t, x):
        return -self.ev(x)

    def px(self, f, *args):
        """A step in the abstract table model."""
        try:
            return f(*args)
        except px.Unknown as x:
            raise Unknown(str(x))
        except px.Raised as x:
            raise Raised(x.name)

    def t_attr(self, t, b, n):
        v = self.ev(b)
        if self.evl is not None and (abstract(v) or v is None or px.number(v)):
            return self.px(self.evl.getattr, v, n)
        if isinstance(v, Obj):
            if n in v.attrs:
                return v.attrs[n]
            if n == "__class__":
                return Cls(v.cls)
            if t in self.heap:
                return self.heap[t]
            f = self._method(v, n)
            if f is not None:
                return Fn(f, v)
            raise Unknown("%r.%s" % (v, n))
        if isinstance(v, Cls):
            if n in ("__name__", "__qualname__"):
                return v.name
            f = self._method(Obj(v.name), n)
            if f is not None:
                return Fn(f)
        raise Unknown("%r" % t)

    def _method(self, v, n):
        for c in self.ctx.repo.classes.values():
            if c.name == v.cls:
                f = self.ctx.repo.lookup(c, n)
                if f is not None:
                    return f.qual
        return None

    def t_item(self, t, b, k):
        v, i = self.ev(b), self.ev(k)
        if self.evl is not None and abstract(v):
            return self.px(self.evl.sub, v, i)
        if isinstance(i, slice) and isinstance(v, (str, list, tuple)):
            return v[i]
        if isinstance(v, (list, tuple, dict, str)):
            try:
                return v[i]
            except (KeyError, IndexError, TypeError):
                raise Unknown("%r" % t)
        raise Unknown("%r" % t)

    def t_slice(self, t, *xs):
        return slice(*[self.ev(x) for x in xs])

    # exceptions
    EXC = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "NotImplementedError": ("RuntimeError",), "FileNotFoundError": ("OSError", "IOError", "EnvironmentError"),
           "ModuleNotFoundError": ("ImportError",)}

    def supers(self, n):
        out, todo = {n, "Exception", "BaseException"}, [n]
        while todo:
            x = todo.pop()
            ups = list(self.EXC.get(x, ()))
            for c in self.ctx.repo.classes.values():
                if c.name == x:
                    ups += [getattr(b, "name", b if isinstance(b, str) else "").rsplit(".", 1)[-1] for b in getattr(c, "bases", ())]
            for u in ups:
                if u and u not in out:
                    out.add(u)
                    todo.append(u)
        return out

    def excname(self, v):
        if v is None:
            return "?"
        if v.op == "new":
            e = self.news.get(v)
            return e.name.rsplit(".", 1)[-1] if e is not None else "?"
        if v.op == "call":
            v = v.a[0]
        if v.op in ("ext", "cls"):
            q = v.a[0] if isinstance(v.a[0], str) else getattr(v.a[0], "qual", "?")
            return q.rsplit(".", 1)[-1]
        return "?"

    def raised(self, tid):
        """(index of the event, exception) that leaves the body of a try
        statement in this round, or None."""
        ls = self.ip.tryloops.get(tid, ())
        key = ("try", tid, tuple(self.loops.get(l) for l in ls))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        out = None
        for e in self.ip.events:
            if not any(x[0] == tid for x in e.tries) or len(e.loops) != len(ls):
                continue
            # a handler further inside may deal with it
            inner = e.tries[[x[0] for x in e.tries].index(tid) + 1:]
            n = None
            try:
                if e.kind == "raise":
                    if self.holds(e.guard):
                        n = self.excname(e.value)
                elif e.kind == "return" or e.kind == "call" and e.value is not None and e.value.op == "call":
                    if self.holds(e.guard):
                        self.ev(e.value)
            except Raised as x:
                n = x.name
            if n is not None and not any(self.caught(n, h) for x in inner for h in x[1]):
                out = (e.idx, n)
                break
        self.memo[key] = out
        return out

    def caught(self, n, handler):
        return handler == "*" or bool(self.supers(n) & {h.rsplit(".", 1)[-1] for h in handler})

    def t_exc(self, t, tid, h):
        if tid not in self.ip.tryhandlers:
            raise Unknown("%r" % t)
        r = self.raised(tid)
        if r is None:
            return False
        for x in self.ip.tryhandlers[tid]:
            if self.caught(r[1], x):
                return str(x) == h.a[0]
        return False

    def t_excpath(self, t, tag, i):
        if tag not in self.ip.trypaths:
            raise Unknown("%r" % t)
        tid, lits = self.ip.trypaths[tag]
        lit = lits[i.a[0]]
        if lit is None:
            return not any(self.ev(x) for x in lits if x is not None)
        return self.ev(lit)

    def skipped(self, e):
        """Is this event cut off by an exception?"""
        for x in e.tries:
            if x[0] in self.ip.tryhandlers and len(x[1]):
                r = self.raised(x[0])
                if r is not None and r[0] <= e.idx:
                    return True
        return any(self.raised(tid) is not None for tid in e.elses)

    def _index(self, lid):
        lid2 = lid
        while lid2 not in self.loops and isinstance(lid2, tuple) and isinstance(lid2[-1], str) and len(lid2[-1]) > 2 and lid2[-1][-2] == "z":
            lid2 = (lid2[0], lid2[-1][:-2])
        if lid2 not in self.loops:
            raise Unknown("loop")
        return self.loops[lid2]

    def _at(self, t):
        """The rounds of the loops around the point where `t` comes into being."""
        ls = self.born.get(t)
        if ls is None:
            ls = self.ip.birth.get(t)
        if ls is None and t.a and isinstance(t.a[0], tuple) and len(t.a[0]) >= 2:
            ls = self.ip.siteloops.get(t.a[0][:2])
        if ls is None:
            ls = self.loops
        return tuple(sorted((repr(k), self.loops[k]) for k in ls if k in self.loops))

    def items(self, t):
        v = self.ev(t)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if v is None or px.number(v) or isinstance(v, bool):
            raise Raised("TypeError")
        raise Unknown("items of %r" % (v,))

    def t_elem(self, t, it, lid):
        return self.items(it)[self._index(lid)]

    def t_key(self, t, it, lid):
        return self.items(it)[self._index(lid)]

    def t_val(self, t, it, lid):
        v = self.ev(it)
        return v[list(v)[self._index(lid)]]

    def t_idx(self, t, lid):
        return self._index(lid)

    def t_cls(self, t, q, *r):
        q = q if isinstance(q, str) else getattr(q, "qual", str(q))
        return Cls(q.rsplit(".", 1)[-1])

    def t_fn(self, t, q, *r):
        return Fn(q)

    def t_bound(self, t, *a):
        f = self.ev(a[0])
        if isinstance(f, Fn):
            return Fn(f.qual, self.ev(a[1]))
        raise Unknown("%r" % t)

    def t_ext(self, t, q):
        if q == "sys.version_info":
            return (3, 12, 3)
        return Sym("ext", q)

    def t_opaque(self, t, *a):
        raise Unknown("%r" % t)

    # loop-carried values
    def _group(self, lid):
        return [m for m in self.ip.mu if m.op == "mu" and m.a[1] == lid]

    def _split(self, m):
        grp = set(self._group(m.a[1]))
        vals = list(self.ip.mu.get(m, ()))
        if not vals:
            raise Unknown("%r" % m)
        return vals[0], vals[1:]

    def t_mu(self, t, name, lid):
        i = self._index(lid)
        le = self.loopevs.get(lid)
        mk_ = (t, i, tuple(self.loops.get(l) for l in le.loops) if le is not None else ())
        if mk_ in self.muval:
            return self.muval[mk_]
        init, steps = self._split(t)
        if i == 0:
            v = self.ev(init)
        elif len(steps) == 1:
            self.loops[lid] = i - 1
            try:
                v = self.ev(steps[0])
            finally:
                self.loops[lid] = i
        elif not steps:
            v = self.ev(init)
        else:
            raise Unknown("%r" % t)
        self.muval[mk_] = v
        return v

    def t_phi(self, t, lid, *vals):
        if not isinstance(lid, tuple):
            raise Unknown("%r" % t)
        e = self.loopevs.get(lid)
        if e is None or e.obj is None or len(vals) > 2:
            raise Unknown("%d %s %r" % (len(vals), e, t))
        n = len(self.items(e.obj))
        if n == 0 or len(vals) == 1:
            return self.ev(vals[0])
        old, oldmu = self.loops.get(lid), dict(self.muval)
        self.muval = {k: v for k, v in self.muval.items() if k[0].a[1] != lid}
        self.loops[lid] = n - 1
        try:
            return self.ev(vals[1])
        finally:
            if old is None:
                del self.loops[lid]
            else:
                self.loops[lid] = old
            self.muval = oldmu

    # containers
    def t_list(self, t, *a):
        key = (t, self._at(t))
        if key in self.memo:
            return self.memo[key]
        out = []
        for g, loops, k, v in self.initial(t):
            if k is not None:
                if is_const(k) and isinstance(k.a[0], int) and not [l for l in loops if l not in self.loops]:
                    try:
                        if self.holds(g):
                            if 0 <= k.a[0] < len(out):
                                out[k.a[0]] = self.ev(v)
                            else:
                                out.append(self.ev(v))
                        continue
                    except IndexError:
                        pass
                raise Unknown("%r" % t)
            self._entries(out, g, tuple(l for l in loops if l not in self.loops), v)
        self.memo[key] = out
        return out

    t_set = t_list

    def _entries(self, out, g, loops, v):
        if loops:
            e = self.loopevs.get(loops[0])
            if e is None or e.obj is None:
                raise Unknown("loop")
            n = len(self.items(e.obj))
            for i in range(n):
                self.loops[loops[0]] = i
                try:
                    self._entries(out, g, loops[1:], v)
                finally:
                    del self.loops[loops[0]]
            return
        if not self.holds(g):
            return
        if v.op == "star":
            out.extend(self.items(v.a[0]))
        else:
            out.append(self.ev(v))

    def t_dict(self, t, *a):
        key = (t, self._at(t))
        if key in self.memo:
            return self.memo[key]
        out = {}
        for g, loops, k, v in self.initial(t):
            if [l for l in loops if l not in self.loops] or k is None:
                raise Unknown("%r" % t)
            if self.holds(g):
                out[self.ev(k)] = self.ev(v)
        self.memo[key] = out
        return out

    def t_glob(self, t, mod, name):
        if name in self.names:
            return self.names[name]
        m = self.ctx.repo.modules.get(mod)
        if m is not None:
            import ast as _ast

            for s in m.tree.body:
                if isinstance(s, _ast.Assign) and any(isinstance(x, _ast.Name) and x.id == name for x in s.targets):
                    try:
                        return _ast.literal_eval(s.value)
                    except ValueError:
                        break
        return Sym("glob", name)

    def t_new(self, t, *a):
        e = self.news.get(t)
        if e is None:
            raise Unknown("%r" % t)
        key = (t, self._at(t))
        if key not in self.memo:
            self.memo[key] = Sym("new", e.name.rsplit(".", 1)[-1], tuple(self.ev(x) for x in e.args), tuple(sorted((k, self.ev(v)) for k, v in e.kwargs.items())))
        return self.memo[key]

    def t_call(self, t, f, args, kw=()):
        key = (t, self._at(t))
        if key in self.memo:
            return self.memo[key]
        v = self._call(t, f, args, kw)
        self.memo[key] = v
        return v

    def _call(self, t, f, args, kw):
        if f.op == "fn" and self.on_call is not None:
            r = self.on_call(self, f.a[0], [self.ev(x) for x in args], {k: self.ev(v) for k, v in kw})
            if r is not None:
                return r
        if f.op == "ext":
            return self._ext(t, f.a[0], args, kw)
        if f.op == "attr":
            b, n = f.a
            r = self.ev(b)
            if isinstance(r, px.Vec) and len(args) == 1 and (f, args[0]) in self.ip.cbvals:
                return self.each(r, *self.ip.cbvals[(f, args[0])])
            vs = [self.ev(x) for x in args]
            if isinstance(r, str) and n in PURE:
                return getattr(r, n)(*vs)
            if self.evl is not None and (abstract(r) or r is None or px.number(r)):
                return self.px(self.evl.call, ("bound", r, n), vs, {k: self.ev(v) for k, v in kw}, {})
            if isinstance(r, dict) and n in ("get", "keys", "values", "items"):
                v = getattr(r, n)(*vs)
                return v if n == "get" else list(v)
            if isinstance(r, (list, tuple)) and n in ("index", "count", "copy"):
                return getattr(r, n)(*vs)
            if isinstance(r, Obj) and callable(r.attrs.get(n)):
                return r.attrs[n](*vs)
            if isinstance(r, Obj) or isinstance(r, Cls):
                q = self._method(r if isinstance(r, Obj) else Obj(r.name), n)
                if q is not None:
                    return self.into(q, ([r] if isinstance(r, Obj) else []) + vs)
            raise Unknown("%r" % t)
        g = self.ev(f)
        if abstract(g) or isinstance(g, tuple) and g and g[0] == "bound":
            return self.px(self.evl.call, g, [self.ev(x) for x in args], {k: self.ev(v) for k, v in kw}, {})
        if isinstance(g, Fn):
            return self.into(g.qual, ([g.recv] if g.recv is not None else []) + [self.ev(x) for x in args])
        raise Unknown("%r" % t)

    def each(self, col, xs, v):
        """The column of a function's values on each row."""
        lid = xs[0].a[1] if xs[0].op == "elem" else xs[0].a[2]
        out = []
        old = self.env.get(xs[0])
        try:
            for i, x in enumerate(col.xs):
                self.loops[lid] = i
                self.env[xs[0]] = x
                out.append(self.ev(v))
        finally:
            self.loops.pop(lid, None)
            self.env.pop(xs[0], None)
            if old is not None:
                self.env[xs[0]] = old
        return px.Vec(out)

    def into(self, q, vals):
        if self.depth > 6 or q not in self.ctx.repo.functions:
            raise Unknown("call of %s" % q)
        ps = self.ctx.repo.func(q).params()
        sub = Fold(self.ctx, q, dict(zip(ps, vals)), self.opaque, None, self.on_call, self.names, None, self.depth + 1, self.evl)
        for k, v in self.env.items():
            sub.env.setdefault(k, v)
        return sub.result()

    def flag(self, v):
        """Named constants of library modules."""
        if isinstance(v, Sym) and v.what[0] == "ext" and v.what[1].startswith("re."):
            import re

            f = getattr(re, v.what[1][3:], None)
            if isinstance(f, re.RegexFlag):
                return f
        return v

    def _ext(self, t, q, args, kw):
        vs = [self.flag(self.ev(x)) for x in args]
        n = q.rsplit(".", 1)[-1]
        a = vs[0] if vs else None
        if self.evl is not None and q == "builtins.eval" and isinstance(a, str):
            return self.px(self.evl.text, a, {})
        if q == "builtins.getattr" and len(vs) == 2 and abstract(a):
            return self.px(self.evl.getattr, a, vs[1])
        if self.evl is not None and (any(abstract(v) for v in vs) or n not in ("isinstance",) and q.split(".")[0] in ("pandas", "numpy", "math") or q in ("re.match", "re.search", "re.fullmatch")):
            if q == "builtins.isinstance":
                ts = vs[1] if isinstance(vs[1], tuple) else (vs[1],)
                return self.px(self.evl.isinst, a, {t.what[1] if isinstance(t, Sym) else t.name for t in ts})
            return self.px(self.evl.extcall, q, vs, {k: self.flag(self.ev(v)) for k, v in kw}, {})
        if q == "builtins.iter" and not isinstance(a, (str, list, tuple, dict, range, set, frozenset)):
            if isinstance(a, (Sym, Obj)) and not getattr(a, "cls", None) == "scalar":
                raise Unknown("%r" % t)
            raise Raised("TypeError")
        if q == "builtins.hasattr" and len(vs) == 2 and isinstance(vs[1], str):
            if a is None or isinstance(a, (str, int, float, list, tuple, dict, set, range)):
                return hasattr(a, vs[1])
            if isinstance(a, Obj):
                return vs[1] in a.attrs or self._method(a, vs[1]) is not None
            raise Unknown("%r" % t)
        if q == "re.compile":
            return px.Pattern(*vs)
        if q in ("builtins.eval", "builtins.getattr"):
            if q.endswith("eval") and isinstance(a, str):
                p = a.strip().split(".")
                if len(p) == 2 and p[0] == "self":
                    o = next((v for v in self.env.values() if isinstance(v, Obj) and self._method(v, p[1])), None)
                    if o is not None:
                        return Fn(self._method(o, p[1]), o)
                if len(p) == 2:
                    m = self._method(Obj(p[0]), p[1])
                    if m:
                        return Fn(m)
                return Sym("eval", a)
            if q.endswith("getattr") and isinstance(a, (Obj, Cls)) and isinstance(vs[1], str):
                if isinstance(a, Obj) and vs[1] in a.attrs:
                    return a.attrs[vs[1]]
                m = self._method(a if isinstance(a, Obj) else Obj(a.name), vs[1])
                if m:
                    return Fn(m, a if isinstance(a, Obj) else None)
                if len(vs) > 2:
                    return vs[2]
            raise Unknown("%r" % t)
        if q == "builtins.len" and isinstance(a, (list, tuple, dict, str)):
            return len(a)
        if q == "builtins.range":
            return range(*vs)
        if q in ("builtins.enumerate",):
            return list(enumerate(self.items(args[0]), *vs[1:]))
        if q == "builtins.zip":
            return list(zip(*[self.items(x) for x in args]))
        if q in ("builtins.list", "builtins.tuple", "builtins.iter", "builtins.reversed", "builtins.sorted"):
            if args and (a is None or px.number(a) or isinstance(a, bool)):
                raise Raised("TypeError")
            xs = self.items(args[0]) if args else []
            return {"list": list, "iter": list, "tuple": tuple, "reversed": lambda y: list(reversed(y)), "sorted": sorted}[n](xs)
        if q in ("builtins.any", "builtins.all"):
            return {"any": any, "all": all}[n](truth(x) for x in self.items(args[0]))
        if q in ("builtins.str", "builtins.repr", "builtins.int", "builtins.float", "builtins.bool", "builtins.abs", "builtins.max", "builtins.min", "builtins.round"):
            if any(isinstance(v, (Obj, Sym, Fn)) for v in vs):
                raise Unknown("%r" % t)
            return {"str": str, "repr": repr, "int": int, "float": float, "bool": bool, "abs": abs, "max": max, "min": min, "round": round}[n](*vs)
        if q == "builtins.type" and len(vs) == 1:
            return Cls(a.cls if isinstance(a, Obj) else type(a).__name__)
        if q == "builtins.isinstance" and len(args) == 2:
            c = args[1]
            ns = set()
            for x in c.a if c.op == "tuple" else (c,):
                if x.op not in ("ext", "cls"):
                    raise Unknown("%r" % t)
                y = x.a[0] if isinstance(x.a[0], str) else getattr(x.a[0], "qual", str(x.a[0]))
                ns.add(y.rsplit(".", 1)[-1])
            ty = a.cls if isinstance(a, Obj) else a.what[1] if isinstance(a, Sym) and a.what[0] == "new" else type(a).__name__
            seq = {"Iterable", "Collection", "Sized", "Container", "Reversible"}
            sup = {"list": seq | {"Sequence", "MutableSequence"}, "tuple": seq | {"Sequence"}, "str": seq | {"Sequence"}, "dict": seq | {"Mapping", "MutableMapping"},
                   "set": seq | {"Set", "MutableSet"}, "int": {"Real", "Integral", "Number"}, "float": {"Real", "Number"}, "bool": {"int", "Real", "Integral", "Number"}}.get(ty, set())
            return bool(ns & ({ty, "object"} | sup))
        if q.startswith("re.") and all(isinstance(v, str) for v in vs):
            import re

            if n in ("findall", "split", "sub", "escape"):
                return getattr(re, n)(*vs)
            if n in ("finditer", "match", "search", "fullmatch"):
                def wrap(m):
                    if m is None:
                        return None
                    return Obj("Match", start=lambda *x: m.start(*x), end=lambda *x: m.end(*x), group=lambda *x: m.group(*x), span=lambda *x: m.span(*x), groups=lambda *x: m.groups())

                r = getattr(re, n)(*vs)
                return [wrap(m) for m in r] if n == "finditer" else wrap(r)
        if q == "warnings.warn":
            return None
        if "." in q and not q.startswith("builtins.") or n.endswith("Error") or n.endswith("Warning"):
            return Sym("call", q, tuple(repr(v) for v in vs))
        raise Unknown("%r" % t)

    # ------------------------------------------------------------ guards
    def holds(self, guard):
        bad = None
        for l in guard:
            try:
                if not truth(self.ev(l)):
                    return False
            except Unknown as e:
                if l.op == "excpath" or l.op == "not" and l.a[0].op == "excpath":
                    continue
                bad = e
        if bad is not None:
            raise bad
        return True

    def result(self):
        self.run()
        if () in self.rets:
            return self.fired.get(((),))
        for g, v in self.res.returns:
            if self.holds(g):
                return self.ev(v)
        return None

    # ------------------------------------------------------------ events
    def run(self, upto=None):
        evs = [e for e in self.ip.events if upto is None or e.idx < upto]
        try:
            self._exec(evs, 0)
        except Stop:
            pass

    def _exec(self, evs, d):
        i = 0
        while i < len(evs):
            e = evs[i]
            ls = tuple(e.loops)
            if len(ls) > d:
                j = i
                while j < len(evs) and len(evs[j].loops) > d and evs[j].loops[d] == ls[d]:
                    j += 1
                le = self.loopevs.get(ls[d])
                if le is not None and le.obj is not None and any(self.acts(x) for x in evs[i:j]):
                    try:
                        live = not (self.rets and self.over(le)) and not ((le.tries or le.elses) and self.skipped(le)) and self.holds(le.guard)
                    except Unknown:
                        live = None
                    if live is not False:
                        n = len(self.items(le.obj))
                        for k in range(n):
                            self.loops[ls[d]] = k
                            try:
                                self._exec(evs[i:j], d + 1)
                            finally:
                                del self.loops[ls[d]]
                i = j
                continue
            self._one(e)
            i += 1

    MUT = ("append", "extend", "insert", "update", "setdefault", "add", "pop", "clear", "remove")

    def acts(self, e):
        if e.kind == "call":
            return True
        if e.kind == "return":
            return e.idx in self.retevs
        if e.kind in ("setitem", "delitem", "iop"):
            return e.obj is not None
        return e.kind in ("setattr", "opaque", "reccall", "raise")

    def _one(self, e):
        if not self.acts(e) or e.idx in getattr(self, "skip", ()):
            return
        if self.rets and self.over(e):
            return
        if e.kind == "return":
            if not ((e.tries or e.elses) and self.skipped(e)):
                self.fire(e)
            return
        if (e.tries or e.elses) and self.skipped(e):
            return
        if e.kind == "raise":
            if e.tries:
                n = self.excname(e.value)
                if any(self.caught(n, h) for x in e.tries for h in x[1]):
                    return
            if self.holds(e.guard) and self.holds(e.facts if e.kind == "raise" else ()):
                raise Raised("%r" % (e.value,), self.excname(e.value))
            return
        if e.kind == "call" and not (e.name in self.MUT and e.obj is not None):
            # read-only calls: their value belongs to this point
            if e.value is not None and e.value.op == "call":
                try:
                    if self.holds(e.guard):
                        self.memo.pop((e.value, self._at(e.value)), None)
                        self.ev(e.value)
                except Raised as x:
                    if not any(self.caught(x.name, h) for y in e.tries for h in y[1]):
                        raise
                except (Unknown, TypeError, AttributeError, ValueError, KeyError, IndexError):
                    pass
            return
        if not self.holds(e.guard):
            return
        if e.kind in ("opaque", "reccall"):
            if self.on_call is not None:
                args = [self.ev(x) for x in e.args]
                kw = {k: self.ev(v) for k, v in e.kwargs.items()}
                r = self.on_call(self, e.name, args, kw, e)
                if e.value is not None:
                    key = (e.value, self._at(e.value))
                    self.memo[key] = r
            return
        if e.kind == "setattr":
            o = self.ev(e.obj)
            if isinstance(o, Obj):
                o.attrs[e.name] = self.ev(e.value)
            return
        o = self.ev(e.obj)
        args = [self.ev(x) for x in e.args]
        if e.kind == "setitem":
            if isinstance(o, (list, dict)):
                o[args[0]] = self.ev(e.value)
            return
        if e.kind == "delitem":
            del o[args[0]]
            return
        if e.kind == "iop" and isinstance(o, list):
            o += args[0]
            return
        if isinstance(o, (list, dict, set)) and hasattr(o, e.name):
            getattr(o, e.name)(*args)

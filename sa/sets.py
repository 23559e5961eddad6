"""Membership of one arbitrary element in set-valued terms.

A function that combines k collections is followed on the value-flow terms:
for every combination of "the element is / is not in collection i" the
membership of the element in the result is derived.  Loops over the
collections are folded over the k collections."""

from .lib import flat, peel
from .terms import canon, is_const, mk, subterms

UNK = None

WRAPS = {"builtins." + n for n in ("list", "set", "tuple", "frozenset", "iter", "sorted", "reversed")} | {
    "copy.copy", "collections.OrderedDict.fromkeys", "builtins.dict.fromkeys", "itertools.chain.from_iterable"}
IOPS = {"intersection_update": "&", "difference_update": "-", "symmetric_difference_update": "^", "update": "|", "add": "add", "append": "add",
        "extend": "|", "discard": "discard", "remove": "discard", "clear": "clear", "__ior__": "|", "__iand__": "&", "__ixor__": "^", "__isub__": "-"}
OPFN = {"operator.and_": "&", "operator.or_": "|", "operator.xor": "^", "operator.sub": "-"}
METH = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^", "__or__": "|", "__and__": "&", "__xor__": "^", "__sub__": "-"}


def op2(op, a, b):
    if op == "|":
        return True if a is True or b is True else (UNK if UNK in (a, b) else False)
    if op == "&":
        return False if a is False or b is False else (UNK if UNK in (a, b) else True)
    if op == "-":
        return op2("&", a, UNK if b is UNK else not b)
    if op == "^":
        return UNK if UNK in (a, b) else a != b
    return UNK


class Sets:
    def __init__(self, repo, ip, st, results, vec, universe):
        self.repo, self.ip, self.st, self.results, self.vec, self.universe = repo, ip, st, results, list(vec), universe
        self.busy = set()
        self.loop = {e.name: e for e in ip.events if e.kind == "loop"}

    # -- collections of collections: a list of membership values
    def colls(self, t, env):
        if t in env and isinstance(env[t], list):
            return env[t]
        if t is self.results:
            return self.vec
        if t.op == "call" and t.a[0].op == "ext":
            n = t.a[0].a[0]
            if n in WRAPS - {"itertools.chain.from_iterable"} and len(t.a[1]) == 1:
                return self.colls(t.a[1][0], env)
            if n == "builtins.map" and len(t.a[1]) == 2:
                if t.a[1][0].op == "ext" and t.a[1][0].a[0] in WRAPS:
                    return self.colls(t.a[1][1], env)
            return UNK
        if t.op == "item":
            b = self.colls(t.a[0], env)
            k = t.a[1]
            if b is UNK:
                return UNK
            if k.op == "slice":
                try:
                    return b[slice(*[x.a[0] if hasattr(x, "op") and x.op == "const" else x for x in k.a])]
                except (TypeError, ValueError):
                    return UNK
            if k.op == "const" and isinstance(k.a[0], str) and k.a[0].startswith("*"):
                return b[int(k.a[0][1:]):] if k.a[0][1:].isdigit() else UNK
            return UNK
        if t.op in ("tuple",):
            out = []
            for x in t.a:
                if x.op == "star":
                    y = self.colls(x.a[0], env)
                    if y is UNK:
                        return UNK
                    out += y
                else:
                    out.append(self.memb(x, env))
            return out
        if t.op == "list" and t in self.st.contents:
            out = []
            for g, loops, k, v in self.st.contents[t]:
                for en in self.bindings(loops, env, t):
                    if en is UNK:
                        return UNK
                    c = self.all([self.cond(l, en) for l in g])
                    if c is UNK:
                        return UNK
                    if not c:
                        continue
                    if v.op == "star":
                        y = self.colls(v.a[0], en)
                        if y is UNK:
                            return UNK
                        out += y
                    else:
                        m = self.memb(v, en)
                        out.append(m)
            return out
        return UNK

    def all(self, vs):
        return False if False in vs else (UNK if UNK in vs else True)

    def bindings(self, loops, env, t=None):
        """Environments for the rounds of nested loops in which the element
        (or any collection) is looked at."""
        own = [l for l in loops if l not in env]
        if not own:
            yield env
            return
        lo = self.loop.get(own[0])
        if lo is None or lo.obj is None:
            yield UNK
            return
        base = lo.obj
        cs = self.colls(base, env)
        if cs is not UNK:
            for m in cs:
                yield from self.bindings(own[1:], self.bind(env, own[0], base, m), t)
            return
        m = self.memb(base, env)
        if m is UNK:
            yield UNK
        elif m:
            yield from self.bindings(own[1:], self.bind(env, own[0], base, "x"), t)

    def bind(self, env, loop, base, val):
        en = dict(env)
        en[loop] = True
        en[("elem", base)] = val
        return en

    def elem(self, t, env):
        """Value of an elem term: membership value of a collection or "x"."""
        return env.get(("elem", t.a[0]), UNK)

    def cond(self, t, env):
        if t.op == "not":
            v = self.cond(t.a[0], env)
            return UNK if v is UNK else not v
        if t.op in ("and", "or"):
            vs = [self.cond(x, env) for x in t.a]
            if t.op == "and":
                return self.all(vs)
            return True if True in vs else (UNK if UNK in vs else False)
        if t.op == "truth":
            return self.cond(t.a[0], env)
        if t.op == "const":
            return bool(t.a[0])
        if t.op == "cmp" and t.a[0] == "in":
            x = t.a[1]
            if x.op == "elem" and self.elem(x, env) == "x":
                return self.memb(t.a[2], env)
            return UNK
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.all", "builtins.any") and len(t.a[1]) == 1:
            b = t.a[1][0]
            if b not in self.st.contents:
                return UNK
            vs = []
            for g, loops, k, v in self.st.contents[b]:
                for en in self.bindings(loops, env):
                    if en is UNK:
                        return UNK
                    c = self.all([self.cond(l, en) for l in g])
                    if c is UNK:
                        return UNK
                    if c:
                        vs.append(self.cond(v, en))
            if t.a[0].a[0] == "builtins.all":
                return self.all(vs)
            return True if True in vs else (UNK if UNK in vs else False)
        return UNK

    # -- collections
    def memb(self, t, env):
        if t in self.busy:
            return UNK
        self.busy.add(t)
        try:
            return self._memb(t, env)
        finally:
            self.busy.discard(t)

    def _memb(self, t, env):
        if t in env:
            return env[t]
        if t.op == "elem":
            v = self.elem(t, env)
            return v if v in (True, False) else UNK
        if self.universe(t):
            return True
        if t.op == "item":
            b = self.colls(t.a[0], env)
            if b is UNK or t.a[1].op != "const" or not isinstance(t.a[1].a[0], int):
                return UNK
            try:
                return b[t.a[1].a[0]]
            except IndexError:
                return UNK
        if t.op == "bin" and t.a[0] in "|&^-+":
            return op2("|" if t.a[0] == "+" else t.a[0], self.memb(t.a[1], env), self.memb(t.a[2], env))
        if t.op == "ite":
            c = self.cond(t.a[0], env)
            if c is not UNK:
                return self.memb(t.a[1] if c else t.a[2], env)
            a, b = self.memb(t.a[1], env), self.memb(t.a[2], env)
            return a if a == b else UNK
        if t.op in ("phi", "mu"):
            return self.fold(t, env)
        if t.op == "call":
            f = t.a[0]
            if f.op == "ext":
                n = f.a[0]
                if n in ("builtins.set.union", "builtins.set.intersection", "builtins.frozenset.union", "builtins.frozenset.intersection"):
                    return self.join(METH[n.rsplit(".", 1)[1]], None, t.a[1], env)
                if n in ("builtins.set.difference", "builtins.set.symmetric_difference") and len(t.a[1]) == 2:
                    return self.join(METH[n.rsplit(".", 1)[1]], None, t.a[1], env)
                if n == "itertools.chain":
                    return self.join("|", False, t.a[1], env)
                if n == "itertools.chain.from_iterable" and len(t.a[1]) == 1:
                    cs = self.colls(t.a[1][0], env)
                    return UNK if cs is UNK else self.foldl("|", False, cs)
                if n in WRAPS and len(t.a[1]) <= 1:
                    return self.memb(t.a[1][0], env) if t.a[1] else False
                if n == "functools.reduce" and len(t.a[1]) >= 2:
                    return self.reduce(t, env)
                return UNK
            if f.op == "attr" and f.a[1] in METH:
                return self.join(METH[f.a[1]], self.memb(f.a[0], env), t.a[1], env)
            if f.op == "attr" and f.a[1] in ("copy", "keys") and not t.a[1]:
                return self.memb(f.a[0], env)
            return UNK
        if t.op in ("set", "list", "dict"):
            return self.obj(t, env)
        return UNK

    def join(self, op, first, args, env):
        cs = []
        for x in args:
            if x.op == "star":
                y = self.colls(x.a[0], env)
                if y is UNK:
                    return UNK
                cs += y
            else:
                cs.append(self.memb(x, env))
        if first is None and cs and op != "first":
            first, cs = cs[0], cs[1:]
        return self.foldl(op, first, cs)

    def foldl(self, op, acc, cs):
        for c in cs:
            acc = op2(op, acc, c)
        return acc

    def reduce(self, t, env):
        cs = self.colls(t.a[1][1], env)
        if cs is UNK:
            return UNK
        acc = self.memb(t.a[1][2], env) if len(t.a[1]) > 2 else None
        if acc is None:
            if not cs or len(t.a[1]) > 2:
                return UNK
            acc, cs = cs[0], cs[1:]
        fn = t.a[1][0]
        if fn.op == "ext":
            op = OPFN.get(fn.a[0]) or (METH.get(fn.a[0].rsplit(".", 1)[1]) if fn.a[0].startswith(("builtins.set.", "builtins.frozenset.")) else None)
            return self.foldl(op, acc, cs) if op else UNK
        if fn.op == "fn":
            rets = [e for e in self.ip.events if e.kind == "return" and e.func is not None and e.func.qual == fn.a[0]]
            if len(rets) != 1 or rets[0].guard:
                return UNK
            v = rets[0].value
            a0 = [s for s in subterms(v) if s.op == "cbarg"]
            for c in cs:
                en = dict(env)
                for s in a0:
                    en[s] = acc if is_const(s.a[1], 0) else c
                acc = self.memb(v, en)
            return acc
        return UNK

    def fold(self, t, env):
        """A value carried round a loop over the collections."""
        srcs = [x for x in (self.ip.sources(t) if t.op == "mu" else flat(t))]
        if t.op == "phi":
            alts = [x for x in t.a if hasattr(x, "op")]
            mus = {s for x in alts for s in self.inner(x) if s.op == "mu"}
            if len(mus) != 1:
                vs = {self.memb(x, env) for x in alts}
                return vs.pop() if len(vs) == 1 else UNK
            t = mus.pop()
        vals = list(self.ip.mu.get(t, ()))
        init = [v for v in vals if t not in self.inner(v)]
        step = [v for v in vals if t in self.inner(v) and v is not t]
        if not step:
            vs = {self.memb(v, env) for v in init}
            return vs.pop() if len(vs) == 1 else UNK
        if len(init) != 1 or len(step) != 1:
            return UNK
        bases = {s.a[0] for s in self.inner(step[0]) if s.op == "elem"}
        bases = {b for b in bases if self.colls(b, env) is not UNK}
        if len(bases) != 1:
            return UNK
        base = bases.pop()
        acc = self.memb(init[0], env)
        for m in self.colls(base, env):
            en = dict(env)
            en[t] = acc
            en[("elem", base)] = m
            for l, e in self.loop.items():
                if e.obj is base:
                    en[l] = True
            self.busy.discard(t)
            acc = self.memb(step[0], en)
        return acc

    def inner(self, t):
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            for s in subterms(x):
                if s not in seen:
                    seen.add(s)
                    for g, l, k, v in self.st.contents.get(s, ()) if s.op in ("list", "set", "dict") else ():
                        todo += [y for y in list(g) + [v] if y not in seen]
        return seen

    def obj(self, t, env):
        """A set or list that is filled and changed in place."""
        evs = []
        for e in self.ip.events:
            tgt = e.obj is t or e.obj is not None and e.obj.op in ("mu", "phi") and t in self.ip.sources(e.obj)
            if not tgt:
                continue
            if e.kind == "call" and e.name in IOPS:
                evs.append((IOPS[e.name], e))
            elif e.kind == "iop":
                evs.append(("|" if e.name in ("|", "+") else e.name, e))
        ents = self.st.contents.get(t, ())
        if not any(o in ("&", "-", "^", "discard", "clear") for o, e in evs):
            out = False
            for g, loops, k, v in ents:
                out = op2("|", out, self.entry(g, loops, v if t.op != "dict" or k is None else k, env))
            return out
        # the state of the object, one change after the other
        acc = False
        for e in self.ip.events:
            if e.kind == "alloc" and e.value is t and e.args:
                acc = self.memb(e.args[0], env)
        if not any(e.kind == "alloc" and e.value is t for e in self.ip.events):
            return UNK
        i = 0
        while i < len(evs):
            o, e = evs[i]
            own = [l for l in e.loops if l not in env]
            if not own:
                acc = self.change(acc, o, e, env)
                i += 1
                continue
            group = []
            while i < len(evs) and [l for l in evs[i][1].loops if l not in env][:1] == own[:1]:
                group.append(evs[i])
                i += 1
            lo = self.loop.get(own[0])
            if lo is None or any(len([l for l in x[1].loops if l not in env]) > 1 for x in group):
                return UNK
            for en in self.bindings(own[:1], env):
                if en is UNK:
                    return UNK
                for o, e in group:
                    acc = self.change(acc, o, e, en)
        return acc

    def change(self, acc, o, e, env):
        c = self.all([self.cond(l, env) for l in e.guard])
        if c is UNK:
            return UNK
        if not c:
            return acc
        if o == "clear":
            return False
        if o in ("add", "discard"):
            x = e.args[0] if e.args else None
            if x is not None and x.op == "elem" and self.elem(x, env) == "x":
                return o == "add"
            return UNK
        if e.kind == "iop":
            arg = e.args[0]
            return op2(o, acc, self.memb(arg, env))
        if o == "^" and len(e.args) != 1:
            return UNK
        return self.join2(o, acc, e.args, env)

    def join2(self, op, acc, args, env):
        cs = []
        for x in args:
            if x.op == "star":
                y = self.colls(x.a[0], env)
                if y is UNK:
                    return UNK
                cs += y
            else:
                cs.append(self.memb(x, env))
        return self.foldl(op, acc, cs)

    def entry(self, g, loops, v, env):
        out = False
        for en in self.bindings(loops, env):
            if en is UNK:
                return UNK
            c = self.all([self.cond(l, en) for l in g])
            if v.op == "star":
                m = self.memb(v.a[0], en)
            elif v.op == "elem":
                x = self.elem(v, en)
                m = True if x == "x" else UNK
            else:
                m = UNK
            out = op2("|", out, op2("&", c, m))
        return out

"""Meaning of small predicate texts over an abstract table row.

The string dialect turns every condition into the text of a Python
expression over `df_row`.  The text (a constant folded from the value-flow
terms) is parsed and its meaning is tabulated over the classes of row values
that such an expression can distinguish: below / equal / above the constant,
NaN, plus and minus infinity, None, a string, an absent column."""

import ast
import math


class Unknown(Exception):
    pass


class Raised(Exception):
    def __init__(self, name):
        Exception.__init__(self, name)
        self.name = name


class Node:
    def __init__(self, depth=0, nid=0, children=0):
        self._depth, self._hatchet_nid, self.n = depth, nid, children


class Row:
    """One row (values: a dict) or all rows of a node (values: dict of lists)."""

    def __init__(self, node, values, multi):
        self.node, self.values, self.multi = node, values, multi


class Vec:
    def __init__(self, xs):
        self.xs = list(xs)


class Kids:
    def __init__(self, n):
        self.n = n


FLOATS = {m + "." + k: float(k.lower()) for m in ("numpy", "np", "math") for k in ("nan", "inf", "NaN", "Inf")}


class Loc:
    """A position of a node in the index of a table."""

    def __init__(self, node, depth):
        self.node, self.depth = node, depth


def number(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def cmp1(op, a, b):
    if op is ast.Eq:
        return a == b
    if op is ast.NotEq:
        return a != b
    if op in (ast.Is, ast.IsNot):
        if not (a is None or b is None or isinstance(a, bool) or isinstance(b, bool)):
            raise Unknown("is")
        return (a is b) == (op is ast.Is)
    if op in (ast.In, ast.NotIn):
        if not isinstance(b, str) or not isinstance(a, str):
            raise Raised("TypeError")
        return (a in b) == (op is ast.In)
    if not (number(a) and number(b) or isinstance(a, str) and isinstance(b, str)):
        raise Raised("TypeError")
    return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[op]


def isna(x):
    return x is None or isinstance(x, float) and math.isnan(x)


def isinf(x):
    if not number(x):
        raise Raised("TypeError")
    return math.isinf(x)


def regex(pat, s, how="match", flags=0):
    if isinstance(pat, Pattern):
        pat, flags = pat.text, pat.flags
    if not isinstance(s, str) or not isinstance(pat, str):
        raise Raised("TypeError")
    import re

    try:
        return getattr(re, how)(pat, s, flags) is not None
    except re.error:
        raise Raised("error")


class Match:
    def __init__(self, ok):
        self.ok = ok


class Pattern:
    def __init__(self, text, flags=0):
        self.text, self.flags = text, flags


def truth(v):
    if isinstance(v, Vec):
        raise Raised("ValueError")
    if isinstance(v, Match):
        return v.ok
    if isinstance(v, Kids):
        return v.n > 0
    if v is None or isinstance(v, (bool, int, float, str)):
        return bool(v)
    raise Unknown("truth of %r" % (v,))


class Eval:
    """globs: names of the module and what they stand for."""

    def __init__(self, globs, funcs=None):
        self.globs = globs
        self.funcs = funcs or {}

    def text(self, text, env):
        try:
            e = ast.parse(text.strip(), mode="eval").body
        except SyntaxError:
            raise Raised("SyntaxError")
        return self.ev(e, env)

    def dotted(self, e):
        if isinstance(e, ast.Name):
            return self.globs.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b and b + "." + e.attr
        return None

    def ev(self, e, env):
        t = type(e)
        if t is ast.Constant:
            return e.value
        if t is ast.Name:
            if e.id in env:
                return env[e.id]
            if e.id in self.globs:
                return ("ext", self.globs[e.id])
            if e.id in self.funcs:
                return ("fun", e.id)
            raise Raised("NameError")
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.ev(x, env)
                if truth(v) == isinstance(e.op, ast.Or):
                    return v
            return v
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                return not truth(v)
            if isinstance(e.op, ast.Invert) and isinstance(v, Vec):
                return Vec(not x for x in v.xs)
            if isinstance(e.op, ast.USub) and number(v):
                return -v
            if isinstance(e.op, ast.UAdd) and number(v):
                return v
            raise Unknown(ast.unparse(e))
        if t is ast.IfExp:
            return self.ev(e.body if truth(self.ev(e.test, env)) else e.orelse, env)
        if t is ast.Compare:
            a = self.ev(e.left, env)
            for op, r in zip(e.ops, e.comparators):
                b = self.ev(r, env)
                v = self.compare(type(op), a, b)
                if isinstance(v, Vec):
                    if len(e.ops) > 1:
                        raise Unknown("chained")
                    return v
                if not v:
                    return False
                a = b
            return True
        if t is ast.Lambda:
            return ("lam", e, env)
        if t is ast.Subscript:
            b = self.ev(e.value, env)
            k = self.ev(e.slice, env)
            return self.sub(b, k)
        if t is ast.Attribute:
            b = self.ev(e.value, env)
            return self.getattr(b, e.attr)
        if t is ast.Call:
            f = self.ev(e.func, env)
            args = [self.ev(a, env) for a in e.args]
            kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
            return self.call(f, args, kw, env)
        if t in (ast.Tuple, ast.List):
            return tuple(self.ev(x, env) for x in e.elts)
        if t is ast.BinOp and isinstance(e.op, (ast.BitAnd, ast.BitOr)):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(a, Vec) and isinstance(b, Vec):
                return Vec((x and y) if isinstance(e.op, ast.BitAnd) else (x or y) for x, y in zip(a.xs, b.xs))
            if isinstance(a, bool) and isinstance(b, bool):
                return a & b if isinstance(e.op, ast.BitAnd) else a | b
        if t is ast.BinOp and isinstance(e.op, ast.Add):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(a, str) and isinstance(b, str) or number(a) and number(b):
                return a + b
        if t in (ast.GeneratorExp, ast.ListComp) and len(e.generators) == 1 and isinstance(e.generators[0].target, ast.Name):
            g = e.generators[0]
            it = self.ev(g.iter, env)
            if isinstance(it, Vec):
                it = it.xs
            if not isinstance(it, (list, tuple)):
                raise Unknown(ast.unparse(e))
            out = []
            for x in it:
                en = {**env, g.target.id: x}
                if all(truth(self.ev(c, en)) for c in g.ifs):
                    out.append(self.ev(e.elt, en))
            return tuple(out)
        raise Unknown(ast.unparse(e))

    def compare(self, op, a, b):
        if isinstance(a, Vec) or isinstance(b, Vec):
            if op in (ast.Is, ast.IsNot):
                return op is ast.IsNot
            n = len((a if isinstance(a, Vec) else b).xs)
            xs = a.xs if isinstance(a, Vec) else [a] * n
            ys = b.xs if isinstance(b, Vec) else [b] * n
            if op in (ast.In, ast.NotIn):
                raise Unknown("in a column")
            return Vec(cmp1(op, x, y) for x, y in zip(xs, ys))
        if isinstance(a, Match) and b is None and op in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
            return a.ok == (op in (ast.IsNot, ast.NotEq))
        if isinstance(b, Row) and op in (ast.In, ast.NotIn):
            return (a in b.values) == (op is ast.In)
        if isinstance(a, (Row, Node, Kids, tuple)) or isinstance(b, (Row, Node, Kids)):
            if op in (ast.Is, ast.IsNot) and (a is None or b is None):
                return op is ast.IsNot
            raise Unknown("comparison")
        if isinstance(b, tuple) and op in (ast.In, ast.NotIn):
            return (a in b) == (op is ast.In)
        return cmp1(op, a, b)

    def sub(self, b, k):
        if isinstance(b, Row):
            if not isinstance(k, str):
                raise Unknown("row[%r]" % (k,))
            if k not in b.values:
                raise Raised("KeyError")
            v = b.values[k]
            return Vec(v) if b.multi else v
        if isinstance(b, Loc):
            if k == 0:
                return b.node
            raise Unknown("item of an index entry")
        if isinstance(b, (tuple, list)) and isinstance(k, int):
            if b and b[0] in ("ext", "fun", "lam", "nodes", "index", "bound"):
                if b[0] == "nodes":
                    return b[1]
                if b[0] == "index":
                    return Loc(b[1].node, 0)
                raise Unknown("item")
            return b[k]
        raise Unknown("item of %r" % (b,))

    def getattr(self, b, n):
        if isinstance(b, Row):
            if n == "name" and not b.multi:
                return b.node
            if n == "name":
                return ("names", b)
            if n == "index" and b.multi:
                return ("index", b)
            if n == "index":
                return tuple(b.values)
            if n == "columns" and b.multi:
                return tuple(b.values)
            return ("bound", b, n)
        if isinstance(b, Node):
            if n in ("_depth", "_hatchet_nid"):
                return getattr(b, n)
            if n == "children":
                return Kids(b.n)
            raise Unknown("node.%s" % n)
        if isinstance(b, tuple) and b and b[0] == "ext":
            q = b[1] + "." + n
            return FLOATS[q] if q in FLOATS else ("ext", q)
        if isinstance(b, tuple) and b and b[0] in ("frame", "names") and n == "index":
            return ("index", b[1])
        if isinstance(b, tuple) and b and b[0] == "nodes" and n == "values":
            return b
        if isinstance(b, Vec) and n in ("iloc", "loc"):
            return tuple(b.xs)
        if isinstance(b, (str, Vec, tuple, Pattern)) or number(b) or b is None:
            return ("bound", b, n)
        raise Unknown("%r.%s" % (b, n))

    def apply(self, f, args, env):
        if isinstance(f, tuple) and f and f[0] == "lam":
            ps = [a.arg for a in f[1].args.args]
            if len(ps) != len(args):
                raise Raised("TypeError")
            return self.ev(f[1].body, {**f[2], **dict(zip(ps, args))})
        return self.call(f, list(args), {}, env)

    def call(self, f, args, kw, env):
        if isinstance(f, tuple) and f and f[0] == "lam":
            return self.apply(f, args, env)
        if isinstance(f, tuple) and f and f[0] == "fun":
            return self.function(self.funcs[f[1]], args, kw)
        if isinstance(f, tuple) and f and f[0] == "ext":
            return self.extcall(f[1], args, kw, env)
        if isinstance(f, tuple) and f and f[0] == "bound":
            b, n = f[1], f[2]
            if isinstance(b, tuple) and b and b[0] == "index" and n == "get_level_values":
                if args == ["node"] or args == [0]:
                    return ("nodes", b[1].node)
                raise Unknown("index level %r" % (args,))
            if isinstance(b, tuple) and b and b[0] == "nodes" and n in ("to_list", "tolist", "unique"):
                return b
            if isinstance(b, tuple) and b and b[0] == "names" and n == "to_frame":
                return ("frame", b[1])
            if isinstance(b, Pattern) and n in ("match", "search", "fullmatch"):
                return Match(regex(b, args[0], n))
            if isinstance(b, Row) and n == "keys":
                return tuple(b.values)
            if isinstance(b, Row) and n == "get":
                return self.sub(b, args[0]) if args[0] in b.values else (args[1] if len(args) > 1 else None)
            if isinstance(b, Vec):
                if n in ("any", "all") and not args:
                    return {"any": any, "all": all}[n](truth(x) for x in b.xs)
                if n in ("apply", "map"):
                    return Vec(self.apply(args[0], [x], env) for x in b.xs)
                if n in ("isna", "isnull"):
                    return Vec(isna(x) for x in b.xs)
                if n in ("notna", "notnull"):
                    return Vec(not isna(x) for x in b.xs)
                if n in ("eq", "ne", "lt", "le", "gt", "ge"):
                    op = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE}[n]
                    return self.compare(op, b, args[0])
                raise Unknown("column.%s" % n)
            if isinstance(b, str) and n in ("startswith", "endswith", "lower", "upper", "strip", "find", "count", "__contains__", "format", "isdigit"):
                if any(not isinstance(a, (str, int)) for a in args):
                    raise Raised("TypeError")
                return getattr(b, n)(*args)
            if n in ("startswith", "endswith"):
                raise Raised("AttributeError")
            raise Unknown("%r.%s" % (b, n))
        raise Unknown("call of %r" % (f,))

    def extcall(self, q, args, kw, env):
        a0 = args[0] if args else None
        short = q.replace("numpy.", "np.").replace("pandas.", "pd.")
        if q == "builtins.len":
            if isinstance(a0, Kids):
                return a0.n
            if isinstance(a0, Vec):
                return len(a0.xs)
            if isinstance(a0, str):
                return len(a0)
        elif q == "builtins.isinstance" and len(args) == 2:
            ts = args[1] if isinstance(args[1], tuple) and args[1] and isinstance(args[1][0], tuple) else (args[1],)
            names = {t[1] for t in ts if isinstance(t, tuple) and t and t[0] == "ext"}
            if len(names) == len(ts):
                return self.isinst(a0, names)
        elif q in ("builtins.any", "builtins.all"):
            xs = a0.xs if isinstance(a0, Vec) else a0
            if isinstance(xs, (tuple, list)):
                return {"builtins.any": any, "builtins.all": all}[q](truth(x) for x in xs)
        elif q == "builtins.bool":
            return truth(a0)
        elif q == "builtins.eval" and isinstance(a0, str):
            return self.text(a0, env)
        elif short in ("pd.isna", "pd.isnull", "pd.notna", "pd.notnull", "np.isnan", "math.isnan"):
            neg = short.startswith("pd.not")

            def one(x):
                if short.endswith("isnan") and not number(x):
                    raise Raised("TypeError")
                return isna(x) != neg

            return Vec(one(x) for x in a0.xs) if isinstance(a0, Vec) else one(a0)
        elif short in ("np.isinf", "math.isinf", "np.isfinite", "math.isfinite"):
            def one(x):
                return isinf(x) if "isinf" in short else not (isinf(x) or isna(x))

            return Vec(one(x) for x in a0.xs) if isinstance(a0, Vec) else one(a0)
        elif q in ("re.match", "re.search", "re.fullmatch"):
            return Match(regex(args[0], args[1], q[3:], *args[2:], **kw))
        elif q.endswith(".is_string_dtype") or q.endswith(".is_numeric_dtype"):
            if not isinstance(a0, Vec):
                raise Unknown(q)
            strs = [x for x in a0.xs if isinstance(x, str) or x is None]
            if q.endswith("is_string_dtype"):
                return len(strs) == len(a0.xs)
            return not strs
        elif q == "numpy.sign" and number(a0):
            return math.copysign(1, a0) if a0 and not isna(a0) else a0
        elif q == "operator.not_":
            return not truth(a0)
        raise Unknown("%s(%s)" % (q, ", ".join(map(repr, args))))

    def isinst(self, v, names):
        short = {n.rsplit(".", 1)[-1] for n in names}
        if isinstance(v, bool):
            return bool(short & {"bool", "int", "Real", "Number", "object"})
        if isinstance(v, int):
            return bool(short & {"int", "Real", "Integral", "Number", "Rational", "object"})
        if isinstance(v, float):
            return bool(short & {"float", "Real", "Number", "object"})
        if isinstance(v, str):
            return bool(short & {"str", "object"})
        if v is None:
            return bool(short & {"NoneType", "object"})
        if isinstance(v, Vec):
            return bool(short & {"Series", "object"})
        if isinstance(v, Row):
            return bool(short & ({"DataFrame", "object"} if v.multi else {"Series", "object"}))
        raise Unknown("isinstance")

    # -------------------------------------------- functions named by a text
    def function(self, fdef, args, kw):
        ps = [a.arg for a in fdef.args.args]
        env = dict(zip(ps, args))
        env.update(kw)
        r = self.block(fdef.body, env)
        return r[1] if r else None

    def block(self, body, env):
        for s in body:
            t = type(s)
            if t is ast.Expr:
                if not isinstance(s.value, ast.Constant):
                    self.ev(s.value, env)
            elif t is ast.Return:
                return ("return", self.ev(s.value, env) if s.value is not None else None)
            elif t is ast.If:
                r = self.block(s.body if truth(self.ev(s.test, env)) else s.orelse, env)
                if r:
                    return r
            elif t is ast.Assign and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = self.ev(s.value, env)
            elif t is ast.Raise:
                n = s.exc
                n = n.func if isinstance(n, ast.Call) else n
                raise Raised(n.id if isinstance(n, ast.Name) else getattr(n, "attr", "?"))
            elif t is ast.Pass:
                pass
            elif t is ast.Try:
                try:
                    r = self.block(s.body, env)
                    if not r and s.orelse:
                        r = self.block(s.orelse, env)
                except Raised as x:
                    for h in s.handlers:
                        ns = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                        ns = {getattr(n, "id", None) or getattr(n, "attr", None) for n in ns if n is not None}
                        up = {"KeyError": {"KeyError", "LookupError", "Exception", "BaseException"}}.get(x.name, {x.name, "Exception", "BaseException"})
                        if h.type is None or ns & up:
                            r = self.block(h.body, env)
                            break
                    else:
                        raise
                finally:
                    if s.finalbody:
                        r2 = self.block(s.finalbody, env)
                        if r2:
                            return r2
                if r:
                    return r
            else:
                raise Unknown("statement %s" % t.__name__)
        return None

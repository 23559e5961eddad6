"""P17: what the conditions of the String dialect mean."""

import itertools
import math
import re

from ..fold import Fn, Fold, Obj, Raised, Sym, Unknown
from ..pyexpr import Eval, Node, Row
from ..pyexpr import Raised as ERaised
from ..pyexpr import Unknown as EUnknown
from ..pyexpr import truth
from ..textx import Grammar, GrammarError, NoParse

TITLE = "conditions of the String dialect mean what they say"
RULE = (
    "for every kind of condition, multi-index mode and class of property and constant, the predicate text that the value flow of the "
    "parser builds has the documented meaning on every class of row value; conditions of one query node are combined in the order written "
    "with their connectors and NOT, type checks joined; every node of the MATCH clause becomes one query node with its quantifier and "
    "predicate; brace regions are combined left to right by the operator between them, in the query's multi-index mode"
)
M = "hatchet.query.string_dialect."
SQ = M + "StringQuery."
QQ = "hatchet.query.query.Query."

NUM = {"NumEq": "==", "NumLt": "<", "NumGt": ">", "NumLte": "<=", "NumGte": ">="}
STR = ("StringEq", "StringStartsWith", "StringEndsWith", "StringContains", "StringMatch")
TESTS = ("NumNan", "NumNotNan", "NumInf", "NumNotInf", "NoneCond", "NotNoneCond", "LeafCond", "NotLeafCond")
OPTEXT = {"StringEq": "=", "StringStartsWith": "STARTS WITH", "StringEndsWith": "ENDS WITH", "StringContains": "CONTAINS", "StringMatch": "=~",
          "NumEq": "=", "NumLt": "<", "NumGt": ">", "NumLte": "<=", "NumGte": ">=", "NumNan": "IS NAN", "NumNotNan": "IS NOT NAN", "NumInf": "IS INF",
          "NumNotInf": "IS NOT INF", "NoneCond": "IS NONE", "NotNoneCond": "IS NOT NONE", "LeafCond": "IS LEAF", "NotLeafCond": "IS NOT LEAF"}


def globs(ctx, mod):
    """What the names of a module stand for."""
    import ast

    m = ctx.repo.modules[mod]
    g = {"isinstance": "builtins.isinstance", "len": "builtins.len", "any": "builtins.any", "all": "builtins.all", "bool": "builtins.bool", "str": "builtins.str",
         "eval": "builtins.eval", "int": "builtins.int", "float": "builtins.float"}
    for s in m.tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                g[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(s, ast.ImportFrom) and not s.level:
            for a in s.names:
                g[a.asname or a.name] = "%s.%s" % (s.module, a.name)
    funcs = {s.name: s for s in m.tree.body if isinstance(s, ast.FunctionDef)}
    return g, funcs


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def op_num(kind, v, c):
    return {"NumEq": v == c, "NumLt": v < c, "NumGt": v > c, "NumLte": v <= c, "NumGte": v >= c}[kind]


def meaning(kind, v, c):
    """The condition on one value: True/False or "error" (wrong type)."""
    if kind in NUM:
        return op_num(kind, v, c) if isnum(v) else "error"
    if kind in STR:
        if not isinstance(v, str):
            return "error"
        return {"StringEq": v == c, "StringStartsWith": v.startswith(c), "StringEndsWith": v.endswith(c), "StringContains": c in v,
                "StringMatch": re.match(c, v) is not None}[kind]
    if kind in ("NumNan", "NumNotNan"):
        return (math.isnan(v)) == (kind == "NumNan") if isnum(v) else "error"
    if kind in ("NumInf", "NumNotInf"):
        return (math.isinf(v)) == (kind == "NumInf") if isnum(v) else "error"
    return (v is None) == (kind == "NoneCond")


def values(kind, c):
    """Classes of row values a condition can tell apart."""
    if kind in NUM:
        return [c - 1, c, c + 1, c + 1e-7, c - 1e-7, -c, float("nan"), float("inf"), float("-inf")]
    if kind in STR:
        return [c, c + "z", "z" + c, "z" + c + "z", "zz", "", c[:-1], c.upper(), "axb", "axbz", "zaxb"]
    if kind in ("NumNan", "NumNotNan", "NumInf", "NumNotInf"):
        return [0, 1.5, -2, float("nan"), float("inf"), float("-inf")]
    return [None, 0, "s", float("nan"), ""]


def cases(kind, mode):
    """(prop, constant, row, expected) for a condition."""
    out = []
    multi = mode != "off"
    other = {"zz": [1, 1]} if multi else {"zz": 1}
    consts = [3, 0, 2.123456789, -2, -1, -0.5] if kind in NUM else ["ab", "a.b"] if kind in STR else [None]
    if kind in ("LeafCond", "NotLeafCond"):
        for n in (0, 1, 2):
            for d in (0, 3):
                out.append((None, None, Row(Node(d, d + 5, n), other, multi), (n == 0) == (kind == "LeafCond")))
        return out
    for c in consts:
        for prop in ("depth", "node_id"):
            if kind in STR:
                continue
            for d in (0, 1, 2, 3, 4) + ((None,) if kind in ("NoneCond", "NotNoneCond") else ()):
                for n in (0, 2):
                    node = Node(d, 7, n) if prop == "depth" else Node(7, d, n)
                    if prop == "depth" and kind == "NumEq" and c == -1:
                        exp = n == 0
                    else:
                        exp = meaning(kind, d, c)
                    out.append((prop, c, Row(node, other, multi), exp))
        vs = values(kind, c)
        for prop in ("time", "my metric"):
            if not multi:
                for v in vs + ([3] if kind in STR else ["s"] if kind in NUM or kind.startswith("Num") else []):
                    out.append((prop, c, Row(Node(7, 9, 1), {prop: v, **other}, False), meaning(kind, v, c)))
            else:
                for k in (1, 2, 3):
                    for xs in itertools.product(vs, repeat=k) if k < 3 else itertools.combinations(vs[:4], 3):
                        ms = [meaning(kind, v, c) for v in xs]
                        out.append((prop, c, Row(Node(7, 9, 1), {prop: list(xs), **other}, True), any(ms) if mode == "any" else all(ms)))
                if kind in STR:
                    out.append((prop, c, Row(Node(7, 9, 1), {prop: [1, 2], **other}, True), "error"))
                elif kind in NUM or kind.startswith("Num"):
                    out.append((prop, c, Row(Node(7, 9, 1), {prop: ["s", "t"], **other}, True), "error"))
            out.append((prop, c, Row(Node(7, 9, 1), other, multi), False))
    return out


def descr(row):
    return ("rows" if row.multi else "row") + " %r of a node at depth %r with id %r and %d children" % (
        {k: v for k, v in row.values.items() if k != "zz"}, row.node._depth, row.node._hatchet_nid, row.node.n)


# ----------------------------------------------------- from text to predicates
class Builder:
    """The query nodes a query text becomes: the text is parsed under the
    grammar in the source, and the parse tree is followed through the value
    flow of the constructor up to its calls of match() and rel()."""

    def __init__(self, ctx):
        import ast

        self.ctx = ctx
        m = ctx.repo.modules[M[:-1]]
        self.q = SQ + "__init__"
        self.f = ctx.repo.func(self.q)
        self.where = self.f.where
        consts, mms = {}, {}
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                n = s.targets[0].id
                if isinstance(s.value, ast.Constant) and isinstance(s.value.value, str):
                    consts[n] = s.value.value
                elif isinstance(s.value, ast.Call) and ast.unparse(s.value.func).endswith("metamodel_from_str") and s.value.args:
                    x = s.value.args[0]
                    mms[n] = x.value if isinstance(x, ast.Constant) else consts.get(getattr(x, "id", None))
        self.names = {}
        self.problem = None
        for n, text in mms.items():
            try:
                g = Grammar(text)
            except (GrammarError, TypeError, AttributeError) as x:
                self.problem = "grammar %s cannot be read (%s)" % (n, x)
                continue
            self.names[n] = Obj("MetaModel", model_from_str=self.parser(g))
        if not mms:
            self.problem = "no grammar of the String dialect is found"
        g, funcs = globs(ctx, M[:-1])
        self.evl = Eval(g, funcs)
        self.done = {}

    def parser(self, g):
        def parse(text):
            try:
                return g.parse(text)
            except NoParse as x:
                raise Raised("a syntax error (at %s)" % x)

        return parse

    def nodes(self, text, mode="off"):
        """[(method, quantifier, predicate)] or a string saying what went wrong."""
        if (text, mode) not in self.done:
            self.done[(text, mode)] = self._nodes(text, mode)
        return self.done[(text, mode)]

    def _nodes(self, text, mode):
        ps = self.f.params()
        calls = []
        selfo = Obj("StringQuery")

        def on_call(fold, name, args, kw, e=None):
            if e is None or not isinstance(name, str):
                return None
            short = name.rsplit(".", 1)[-1]
            if short in ("match", "rel", "relation"):
                pn = self.ctx.repo.func(name).params()
                d = dict(zip(pn, args))
                d.update(kw)
                calls.append(("rel" if short == "relation" else short, d.get("quantifier", "."), self.plain(d.get("predicate"))))
                return selfo
            return Sym("none")

        try:
            Fold(self.ctx, self.q, {ps[0]: selfo, ps[1]: text, "multi_index_mode": mode}, opaque=(QQ + "__init__", QQ + "match", QQ + "rel", QQ + "relation"),
                 on_call=on_call, names=self.names, self_class=self.ctx.repo.classes.get(M + "StringQuery")).run()
        except Raised as x:
            return "is refused: %s" % x
        except Unknown as x:
            return "cannot be followed (%s)" % str(x)[:200]
        return calls

    def plain(self, pred):
        """No predicate and the default predicate mean the same."""
        import ast

        if isinstance(pred, Fn):
            f = self.ctx.repo.functions.get(pred.qual)
            if f is not None and isinstance(f.node, ast.Lambda) and isinstance(f.node.body, ast.Constant) and f.node.body.value is True:
                return None
        return pred

    def value(self, pred, row):
        """A predicate's value on a row: True, False, "error" (wrong type) or a problem."""
        if pred is None:
            return True
        try:
            if not (isinstance(pred, Sym) and pred.what[0] == "eval"):
                return "?"
            return truth(self.evl.apply(self.evl.text(pred.what[1], {}), [row], {}))
        except ERaised as x:
            return "error" if x.name == "InvalidQueryFilter" else "raises %s" % x.name

    @staticmethod
    def show(pred):
        return "nothing" if pred is None else "`%s`" % pred.what[1] if isinstance(pred, Sym) and len(pred.what) > 1 else repr(pred)


def cond_text(kind, name, prop, c):
    t = name if prop is None else '%s."%s"' % (name, prop)
    return "%s %s%s" % (t, OPTEXT[kind], "" if c is None else ' "%s"' % c if isinstance(c, str) else " %r" % (c,))


def check_conditions(ctx, B):
    nworlds = 0
    for kind in list(NUM) + list(STR) + list(TESTS):
        for mode in ("off", "any", "all"):
            groups = {}
            for prop, c, row, exp in cases(kind, mode):
                groups.setdefault((prop, c), []).append((row, exp))
            for (prop, c), rows in groups.items():
                con = "%s:%s:%s:%s" % (SQ[:-1], kind, mode, prop if prop in ("depth", "node_id") else "property" if prop else "node")
                for neg in (False, True) if prop != "my metric" else (False,):
                    what = ("NOT " if neg else "") + cond_text(kind, "p", prop, c)
                    got = B.nodes('MATCH ("*") -> (p) WHERE ' + what, mode)
                    if not ctx.oblige(isinstance(got, list), "condition", con, "a query with the condition %s in mode %s %s" % (what, mode, got), B.where):
                        break
                    ok = len(got) == 2 and got[0][2] is None and got[1][2] is not None
                    if not ctx.oblige(ok, "placement", con, "the condition %s of the second node becomes %r" % (what, got), B.where):
                        break
                    pred = got[1][2]
                    for row, exp in rows:
                        nworlds += 1
                        want = (not exp) if neg and isinstance(exp, bool) else exp
                        if neg and prop is not None and prop not in ("depth", "node_id") and prop not in row.values:
                            want = False  # an absent attribute fails the condition either way
                        try:
                            val = B.value(pred, row)
                        except EUnknown as x:
                            ctx.oblige(False, "meaning", con, "the predicate %s for %s cannot be interpreted (%s)" % (B.show(pred), what, x), B.where)
                            break
                        if val != want:
                            ctx.oblige(False, "meaning", con, "%s in mode %s: the predicate %s gives %s on %s (must be %s)" % (
                                what, mode, B.show(pred), val, descr(row), want), B.where)
                            break
                    else:
                        ctx.oblige(True, "meaning", con, "", B.where)
                        continue
                    break
    ctx.count("worlds", nworlds)


def check_combination(ctx, B):
    """Several conditions on one node."""
    con = SQ[:-1] + ":combination"
    KIND = {"n": ("NumEq", 1, {True: 1, False: 2, "error": "s"}), "s": ("StringEq", "s", {True: "s", False: "t", "error": 1}),
            "x": ("NoneCond", None, {True: None, False: 1})}
    lists = []
    for n in (1, 2, 3):
        for conns in itertools.product(("AND", "OR"), repeat=n - 1):
            for ks in itertools.product("nx" if n == 3 else "nsx", repeat=n):
                for negs in itertools.product((False, True), repeat=n) if n < 3 else [(False,) * n, (False, True, False), (True, False, True)]:
                    lists.append((conns, ks, negs))
    lists.append((("AND", "OR", "AND"), "nnnn", (False,) * 4))
    lists.append((("OR", "AND", "AND"), "nnxn", (False,) * 4))
    for conns, ks, negs in lists:
        n = len(ks)
        parts = [("NOT " if negs[k] else "") + cond_text(KIND[ks[k]][0], "p", "c%d" % k, KIND[ks[k]][1]) for k in range(n)]
        text = 'MATCH ("+", p) WHERE ' + parts[0] + "".join(" %s %s" % (conns[k], parts[k + 1]) for k in range(n - 1))
        got = B.nodes(text)
        ok = isinstance(got, list) and len(got) == 1
        if not ctx.oblige(ok, "combination", con, "the query %s %s" % (text, got if isinstance(got, str) else "becomes %r" % (got,)), B.where):
            return
        for vals in itertools.product(*[list(KIND[k][2]) for k in ks]):
            row = Row(Node(1, 1, 1), {"c%d" % k: KIND[ks[k]][2][vals[k]] for k in range(n)}, False)
            if "error" in vals:
                want = "error"
            else:
                want = eval(" ".join("%s %s %s" % ((("",) + conns)[k].lower(), "not" if negs[k] else "", vals[k]) for k in range(n)).strip())
            try:
                val = B.value(got[0][2], row)
            except EUnknown as x:
                ctx.oblige(False, "combination", con, "the predicate %s for %s cannot be interpreted (%s)" % (B.show(got[0][2]), text, x), B.where)
                return
            if val != want:
                ctx.oblige(False, "combination", con, "%s: the predicate %s gives %s (must be %s) on %r" % (text, B.show(got[0][2]), val, want, row.values), B.where)
                return
        ctx.oblige(True, "combination", con, "", B.where)
    # an absent attribute fails the predicate
    for cond in ('p."a" = 1', 'p."a" = "s"', 'p."a" IS NAN', 'NOT p."a" = 1', 'p."a" IS NONE', 'p."a" = 1 AND p IS LEAF'):
        got = B.nodes("MATCH (p) WHERE " + cond)
        if isinstance(got, list) and len(got) == 1:
            val = B.value(got[0][2], Row(Node(1, 1, 0), {}, False))
            ctx.oblige(val is False, "combination", con + ":absent", "%s on a row without the attribute gives %s (must be false)" % (cond, val), B.where)


def check_placement(ctx, B):
    """Conditions end up at the node they name, whatever their order."""
    con = SQ[:-1] + ":placement"
    paths = [('(p) -> ("*", q) -> (".")', ["p", "q", None]), ('("*") -> (2, p) -> (q)', [None, "p", "q"]), ('(q) -> ("+") -> ("*") -> (p)', ["q", None, None, "p"]),
             ('("*", p)', ["p"]), ("(p)", ["p"])]
    seqs = [[("p", 0)], [("p", 0), ("q", 1)], [("q", 0), ("p", 1)], [("p", 0), ("q", 1), ("p", 2), ("q", 3)], [("q", 0), ("q", 1), ("p", 2)], [("p", 0), ("p", 1)]]
    for path, names in paths:
        for seq in seqs:
            if any(n not in names for n, _ in seq):
                continue
            text = "MATCH %s WHERE " % path + " AND ".join('%s."c%d" = 1' % x for x in seq)
            got = B.nodes(text)
            ok = isinstance(got, list) and len(got) == len(names)
            if not ctx.oblige(ok, "placement", con, "the query %s %s" % (text, got if isinstance(got, str) else "becomes %r" % (got,)), B.where):
                return
            for i, n in enumerate(names):
                mine = {k for m, k in seq if m == n}
                for bad in range(len(seq) + 1):
                    row = Row(Node(1, 1, 1), {"c%d" % k: 2 if k == bad else 1 for k in range(len(seq))}, False)
                    try:
                        val = B.value(got[i][2], row)
                    except EUnknown as x:
                        val = "cannot be interpreted (%s)" % x
                    ctx.oblige(val == (bad not in mine), "placement", con, "%s: the predicate of node %d is %s, which gives %s on %r" % (
                        text, i + 1, B.show(got[i][2]), val, row.values), B.where)


def check_path(ctx, B):
    con = SQ[:-1] + ":path"
    forms = [('("*", p)', "*"), ("(q)", "."), ('("*")', "*"), ("(3)", 3), ("(2, r)", 2), ('("+", s)', "+"), ('(".", t)', "."), ('(".")', "."), ("(0, u)", "."), ("(1)", 1)]
    seqs = [forms, forms[::-1], forms[3:6], forms[1:3]] + [[x] for x in forms] + [forms[:2] + [x] for x in forms[2:]]
    for seq in seqs:
        text = "MATCH " + "->".join(t for t, _ in seq)
        got = B.nodes(text)
        if not ctx.oblige(isinstance(got, list), "path", con, "the query %s %s" % (text, got), B.where):
            continue
        want = [("match" if i == 0 else "rel", w, None) for i, (_, w) in enumerate(seq)]
        ctx.oblige(got == want, "path", con, "the query %s becomes %r (must be %r)" % (text, got, want), B.where)


# ------------------------------------------------------------ brace regions
def check_braces(ctx):
    q = M + "parse_string_dialect"
    f = ctx.repo.func(q)
    ps = f.params()

    def on_call(fold, name, args, kw, e=None):
        if name == q:
            d = dict(zip(ps, args))
            d.update(kw)
            return Sym("query", d.get(ps[0]), d.get(ps[1], "off"))
        return None

    def norm(s):
        return " ".join(s.split())

    def shape(v):
        """The meaning of the returned query: ops and region texts."""
        if isinstance(v, Sym) and v.what[0] == "bin":
            return (v.what[1], shape(v.what[2]), shape(v.what[3]))
        if isinstance(v, Sym) and v.what[0] == "new" and v.what[1] == "StringQuery":
            kw = dict(v.what[3])
            a = list(v.what[2])
            text = a[0] if a else kw.get("cypher_query")
            mode = a[1] if len(a) > 1 else kw.get("multi_index_mode", "off")
            return (norm(text), mode)
        if isinstance(v, Sym) and v.what[0] == "query":
            return (norm(v.what[1]), v.what[2])
        if isinstance(v, Sym) and v.what[0] == "new":
            op = {"ConjunctionQuery": "&", "DisjunctionQuery": "|", "ExclusiveDisjunctionQuery": "^", "AndQuery": "&", "OrQuery": "|", "XorQuery": "^"}.get(v.what[1])
            xs = v.what[2]
            if op and len(xs) == 2:
                return (op, shape(xs[0]), shape(xs[1]))
        return ("?", repr(v))

    OPS = {"AND": "&", "OR": "|", "XOR": "^"}
    tests = []
    for mode in ("off", "any", "all"):
        tests.append(('MATCH ("*", p) WHERE p."a" = 1', mode, ('MATCH ("*", p) WHERE p."a" = 1', mode)))
        for n in (1, 2, 3):
            for ops in itertools.product(OPS, repeat=n - 1):
                conds = ['p."c%d" = %d' % (k, k) for k in range(n)]
                conds = [c.replace('p."', "p.") .replace('"', "") for c in conds]
                t = "MATCH (p) WHERE " + "".join(("{ %s }" % c) + (" %s " % ops[k] if k < n - 1 else "") for k, c in enumerate(conds))
                w = (norm("MATCH (p) WHERE " + conds[0]), mode)
                for k, o in enumerate(ops):
                    w = (OPS[o], w, (norm("MATCH (p) WHERE " + conds[k + 1]), mode))
                tests.append((t, mode, w))
                qs = ["MATCH (p) WHERE " + c for c in conds]
                t = " ".join(("{ %s }" % c) + (" %s" % ops[k] if k < n - 1 else "") for k, c in enumerate(qs))
                w = (norm(qs[0]), mode)
                for k, o in enumerate(ops):
                    w = (OPS[o], w, (norm(qs[k + 1]), mode))
                tests.append((t, mode, w))
    tests.append(("MATCH (p) WHERE {p.a = 1} NAND {p.b = 2}", "off", ValueError))
    tests.append(("{MATCH (p)} AND {p.b = 2}", "off", ValueError))

    def comm(s):
        """&, | and ^ do not depend on the order of their operands."""
        if len(s) == 3:
            a, b = comm(s[1]), comm(s[2])
            return (s[0],) + tuple(sorted([a, b], key=repr))
        return s

    for t, mode, want in tests:
        con = q + (":refused" if want is ValueError else ":plain" if "{" not in t else ":queries" if t.startswith("{") else ":conditions")
        try:
            fo = Fold(ctx, q, {ps[0]: t, ps[1]: mode}, opaque=(SQ + "__init__",), on_call=on_call)
            got = shape(fo.result())
        except Raised as x:
            got = ValueError if "ValueError" in str(x) else "raises %s" % x
        except Unknown as x:
            if want is ValueError:
                continue
            got = ("unknown", str(x)[:200])
        ok = got is want if want is ValueError or not isinstance(got, tuple) else comm(got) == comm(want)
        ctx.oblige(ok, "braces", con, "the query %r in mode %s becomes %r (must be %r)" % (t, mode, got, want), f.where)


def check(ctx):
    B = Builder(ctx)
    if ctx.oblige(B.problem is None, "grammar", M + "grammar", "%s" % B.problem, B.where):
        check_path(ctx, B)
        check_conditions(ctx, B)
        check_combination(ctx, B)
        check_placement(ctx, B)
    check_braces(ctx)

"""P18: what the conditions of the Object dialect mean."""

import ast
import itertools
import math
import re

from ..fold import Fold, Raised, Unknown
from ..pyexpr import Eval, Node, Row
from ..repo import FuncInfo
from .p17 import descr, globs

TITLE = "conditions of the Object dialect mean what they say"
RULE = (
    "the value flow of the predicate made from a dictionary of conditions, followed on every class of condition, row value and multi-index "
    "mode, is true exactly when all conditions hold"
)
M = "hatchet.query.object_dialect."
nan, inf = float("nan"), float("inf")
OPS = {"<": lambda a, b: a < b, ">": lambda a, b: a > b, "==": lambda a, b: a == b, "<=": lambda a, b: a <= b, ">=": lambda a, b: a >= b, "!=": lambda a, b: a != b}
NUMS = (3, 0, -2, -1, 2.5, -0.5)


def isnum(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def compare(text, v):
    m = re.match(r"\s*(<=|>=|==|!=|<|>)\s*(.*)$", text)
    c = m.group(2).strip()
    c = {"np.nan": nan, "np.inf": inf, "-np.inf": -inf}.get(c)
    if c is None:
        c = float(m.group(2))
    if math.isnan(c):
        if math.isnan(v) and m.group(1) == "==":
            return True  # documented: NaN is only equal to NaN
        if math.isnan(v):
            return False
    return OPS[m.group(1)](v, c)


def one(v, cond):
    """A single condition on a single value: True, False or "error"."""
    if isinstance(v, str):
        return re.fullmatch(cond, v) is not None if isinstance(cond, str) else "error"
    if isnum(v):
        if isinstance(cond, str):
            return compare(cond, v) if cond.startswith(tuple(OPS)) else "error"
        return v == cond if isnum(cond) else "error"
    return "error"


def conds():
    """Classes of conditions."""
    out = list(NUMS)
    for op in OPS:
        for c in (3, -2, 2.5):
            out.append("%s %s" % (op, c))
    out += [">3", "== np.nan", "!= np.nan", "< np.inf", "== np.inf", "== -np.inf", "> -np.inf"]
    return out


STRS = ["ab", "a.b", "a.*", "a", "", ".*", "(ab|axb)"]


def cases(mode):
    """(filter, row, expected)"""
    multi = mode != "off"
    other = {"zz": [1, 1]} if multi else {"zz": 1}
    out = []
    for d in (0, 1, 2, 3, 4):
        for n in (0, 2):
            for key in ("depth", "node_id"):
                node = Node(d, 7, n) if key == "depth" else Node(7, d, n)
                for c in conds():
                    if isinstance(c, str) and "np" in c:
                        continue
                    exp = (n == 0) if key == "depth" and c == -1 else one(d, c)
                    out.append(({key: c}, Row(node, other, multi), exp))
                for c in ("abc", None, "3"):
                    out.append(({key: c}, Row(node, other, multi), "error"))
    for key in ("time", "my metric"):
        if key == "my metric":
            cs, vs = [3, "> 3", "ab"], [2, 3, 4, nan]
        else:
            cs, vs = conds(), None
        for c in cs:
            if isinstance(c, str) and not c.startswith(tuple(OPS)):
                continue
            k = c if isnum(c) else None
            if k is None:
                t = re.sub(r"[<>=! ]", "", c)
                k = 1 if "np" in t else float(t)
            ws = vs or [k - 1, k, k + 1, k + 1e-9, k - 1e-9, nan, inf, -inf]
            if not multi:
                for v in ws:
                    out.append(({key: c}, Row(Node(7, 9, 1), {key: v, **other}, False), one(v, c)))
            else:
                for xs in [(v,) for v in ws] + list(itertools.product(ws, repeat=2)) + [(ws[0], ws[0], ws[1]), (ws[1], ws[1], ws[2])]:
                    rs = [one(v, c) for v in xs]
                    out.append(({key: c}, Row(Node(7, 9, 1), {key: list(xs), **other}, True), any(rs) if mode == "any" else all(rs)))
            bad = "xx"
            out.append(({key: c}, Row(Node(7, 9, 1), {key: [bad, bad] if multi else bad, **other}, multi), "error" if isnum(c) else False))
            out.append(({key: c}, Row(Node(7, 9, 1), other, multi), False))
        for c in STRS if key == "time" else ["ab"]:
            ws = ["ab", "abc", "a", "xab", "axb", "", "AB", "ab\n"]
            if not multi:
                for v in ws:
                    out.append(({key: c}, Row(Node(7, 9, 1), {key: v, **other}, False), one(v, c)))
            else:
                for xs in [(v,) for v in ws] + list(itertools.product(ws[:5], repeat=2)) + [("ab", "ab", "xab")]:
                    rs = [one(v, c) for v in xs]
                    out.append(({key: c}, Row(Node(7, 9, 1), {key: list(xs), **other}, True), any(rs) if mode == "any" else all(rs)))
            out.append(({key: c}, Row(Node(7, 9, 1), {key: [1, 2] if multi else 1, **other}, multi), "error"))
    if not multi:
        out.append(({"time": 3}, Row(Node(7, 9, 1), {"time": None, **other}, False), "error"))
    # several conditions, and several values of one condition
    val = (lambda *xs: list(xs)) if multi else (lambda *xs: xs[0])
    for t, s, d in itertools.product((2, 3, 4), ("ab", "xx"), (1, 2)):
        row = Row(Node(d, 7, 0), {"time": val(t, t), "kind": val(s, s), **other}, multi)
        out.append(({"time": "> 2", "kind": "ab", "depth": 1}, row, t > 2 and s == "ab" and d == 1))
        out.append(({"kind": "ab", "depth": "<= 1", "time": 3}, row, t == 3 and s == "ab" and d == 1))
        out.append(({"depth": 1, "time": ["> 2", "< 4"]}, row, t == 3 and d == 1))
        out.append(({"time": ("> 2", "< 4", "!= 3"), "kind": "ab"}, row, False))
        out.append(({"time": ["<= 3"], "kind": ("a.*", ".*b")}, row, t <= 3 and s == "ab"))
        out.append(({"depth": ["> 0", -1]}, row, True))
        out.append(({"depth": (">= 1", "< 2"), "node_id": ["== 7"]}, row, d == 1))
        out.append(({"time": "> 2", "absent": 1}, row, False))
        out.append(({"absent": 1, "time": "> 2"}, row, False))
    # no condition at all
    out.append(({}, Row(Node(1, 1, 1), other, multi), True))
    return out


def check(ctx):
    m = ctx.repo.modules[M[:-1]]
    f0 = ctx.repo.func(M + "_process_predicate")
    node = ast.parse("def predicate(conditions, mode, row):\n return _process_predicate(conditions, mode)(row)").body[0]
    w = FuncInfo(M + "<predicate>", node, m)
    ctx.repo.functions[w.qual] = w
    g, funcs = globs(ctx, M[:-1])
    for n in ("re", "sys"):
        g.setdefault(n, n)
    g.setdefault("np", "numpy")
    evl = Eval(g, funcs)
    n = 0

    def run(filt, mode, row):
        try:
            return bool(Fold(ctx, w.qual, {"conditions": filt, "mode": mode, "row": row}, evl=evl).result())
        except Raised as x:
            return "error" if x.name == "InvalidQueryFilter" else "raises %s" % x.name
        except Unknown as x:
            return "cannot be followed (%s)" % str(x)[:200]

    for mode in ("off", "any", "all"):
        bad = {}
        kinds = {}
        for filt, row, exp in cases(mode):
            key = tuple(filt)
            c = filt[key[0]] if len(key) == 1 else None
            what = "several" if len(key) > 1 or isinstance(c, (list, tuple)) else "none" if not key else key[0] if key[0] in ("depth", "node_id") else "property"
            kind = "" if what in ("several", "none") else ":number" if isnum(c) else ":comparison" if isinstance(c, str) and c.startswith(tuple(OPS)) else ":pattern"
            con = "%s_process_predicate:%s:%s%s" % (M, mode, what, kind)
            kinds[con] = kinds.get(con, 0) + 1
            n += 1
            if con in bad:
                continue
            got = run(filt, mode, row)
            if got != exp:
                bad[con] = "conditions %r in mode %s give %s on %s (must be %s)" % (filt, mode, got, descr(row), exp)
        for con in kinds:
            ctx.oblige(con not in bad, "meaning", con, bad.get(con, ""), f0.where)
    # the table kind must fit the mode
    for filt in ({"time": 3}, {"depth": 1}, {"kind": "ab"}):
        got = run(filt, "off", Row(Node(1, 1, 1), {"time": [3, 3], "kind": ["ab", "ab"]}, True))
        ctx.oblige(got == "raises MultiIndexModeMismatch", "mode", M + "_process_predicate:mismatch", "conditions %r in mode off give %s on a multi-index table" % (filt, got), f0.where)
    got = run({}, "off", Row(Node(1, 1, 1), {"time": [3, 3]}, True))
    ctx.oblige(got is True, "mode", M + "_process_predicate:empty", "no conditions give %s on a multi-index table" % got, f0.where)
    ctx.count("worlds", n)

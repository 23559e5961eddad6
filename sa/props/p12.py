"""P12: compound queries are the set operations they are named after."""

import ast
import itertools

from ..lib import flat, peel
from ..repo import AnalysisBroken
from ..sets import Sets, UNK
from ..terms import attr, canon, is_const, mk, subterms
from .p10 import alternatives
from .p11 import SUP, Types, base_env, over

TITLE = "compound queries are the set operations they are named after"
RULE = (
    "for every combination of memberships of an arbitrary node in the subqueries' results, _apply_op_to_results of Conjunction-, Disjunction-, "
    "ExclusiveDisjunction- and NegationQuery keeps the node exactly when it is in all / at least one / an odd number / none of them, the "
    "complement being taken in the whole graph; constructors keep every subquery (lists and strings parsed) and refuse anything else and "
    "wrong numbers; &, |, ^ and ~ of all query classes build the operation of that name from all operands; old-style classes convert alike"
)
CQ = "hatchet.query.compound."
CP = "hatchet.query.compat."
PS = "hatchet.query.string_dialect.parse_string_dialect"
OQ = "hatchet.query.object_dialect.ObjectQuery.__init__"
OPS = {
    "ConjunctionQuery": all,
    "DisjunctionQuery": any,
    "ExclusiveDisjunctionQuery": lambda v: sum(v) % 2 == 1,
    "NegationQuery": lambda v: not v[0],
}
OLD = {"AndQuery": "ConjunctionQuery", "OrQuery": "DisjunctionQuery", "XorQuery": "ExclusiveDisjunctionQuery", "NotQuery": "NegationQuery"}
SIGN = {"__and__": "Conjunction", "__or__": "Disjunction", "__xor__": "ExclusiveDisjunction", "__invert__": "Negation"}
TRAV = ("hatchet.graph.Graph.traverse", "hatchet.graph.Graph.node_order_traverse")


def check_op(ctx, cls):
    q = method(ctx, CQ + cls, "_apply_op_to_results")
    if not ctx.oblige(q is not None, "operation", CQ + cls, "%s has no _apply_op_to_results" % cls):
        return
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, self_class=ctx.repo.classes[CQ + cls])
    ps = f.params()
    results, graph = mk("param", q, ps[1]), mk("param", q, ps[2])

    def universe(t):
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[0] is graph and t.a[0].a[1] in ("traverse", "node_order_traverse"):
            return all(k in ("order", "#") for k, _ in t.a[2]) and len(t.a[1]) <= 1
        return t.op == "call" and t.a[0].op == "fn" and t.a[0].a[0] in TRAV and t.a[1][:1] == (graph,)

    ks = (1,) if cls == "NegationQuery" else (2, 3, 4)
    for k in ks:
        for vec in itertools.product((False, True), repeat=k):
            sets = Sets(ctx.repo, ip, res.state, results, vec, universe)
            want = OPS[cls](vec)
            for g, v in res.returns:
                got = sets.memb(v, {mk("truth", results): True})
                gs = [g] if hasattr(g, "op") else list(g)
                if sets.all([sets.cond(l, {mk("truth", results): True}) for l in gs]) is False:
                    continue
                where = "in %s of the results" % ", ".join("%s%d" % ("" if b else "not ", i + 1) for i, b in enumerate(vec))
                ctx.oblige(got is want, "operation", "%s:%s" % (q, "".join("01"[b] for b in vec)),
                           "a node %s is %s" % (where, "kept" if got else "dropped" if got is False else "kept or dropped (%r)" % v), f.where)
    ctx.oblige(bool(res.returns), "operation", q + ":returns", "nothing is returned", f.where)


def method(ctx, cls, name):
    c = ctx.repo.classes.get(cls)
    m = ctx.repo.lookup(c, name) if c is not None else None
    return getattr(m, "qual", m) if m is not None else None


def size_env(ip, lists, queries, k):
    """Assignments for the number of subqueries."""
    env = {}
    terms = {s for e in ip.events for l in list(e.guard) + list(e.args) for s in subterms(l)}
    for s in terms:
        x = None
        if s.op == "call" and s.a[0] is mk("ext", "builtins.len") and len(s.a[1]) == 1:
            x = s.a[1][0]
        elif s.op == "truth":
            x = s.a[0]
        if x is not None and (set(flat(x)) & lists or x in queries or x.op in ("ite", "phi") and set(flat(x)) & set(queries)):
            env[s] = k if s.op == "call" else k > 0
    return env


def check_ctor(ctx, cls, base, old):
    q = method(ctx, base + cls, "__init__")
    f = ctx.repo.func(q)
    kids = ("hatchet.query.compat.QueryMatcher.__init__", "hatchet.query.compat.CypherQuery.__init__")
    ip, res = ctx.analyze(q, opaque=(OQ, PS) + kids, self_class=ctx.repo.classes[base + cls])
    st = res.state
    field = "compat_subqueries" if old else "subqueries"
    env0 = base_env(ip)
    w0 = Types(ip, st, env0, {})
    sets = [e for e in ip.events if e.kind == "setattr" and e.name == field and e.obj.op == "param" and w0.holds(e.guard) is not False]
    if not ctx.oblige(bool(sets), "subqueries", base + cls, "the subqueries are not kept", f.where):
        return
    lists = {x for e in sets for x in flat(e.value)}
    queries = next((s for e in ip.events for x in list(e.args) + list(e.kwargs.values()) + ([e.obj] if e.obj is not None else []) + list(e.guard) for s in subterms(x)
                    if s.op == "param" and s.a[0] == q and s.a[1].lstrip("*") == (f.node.args.vararg.arg if f.node.args.vararg else None)), None)
    if queries is not None:
        terms = {s for e in ip.events for x in list(e.args) + list(e.guard) + ([e.obj] if e.obj is not None else []) for s in subterms(x)}
        queries = next((s for s in terms if s.op == "item" and s.a[0] is queries and is_const(s.a[1], "*")), queries)
    if not ctx.oblige(queries is not None, "subqueries", base + cls + ":args", "the queries given are not used", f.where):
        return
    first = mk("item", queries, mk("const", 0))
    # the number of subqueries
    for k in (1, 2, 3):
        env = dict(env0)
        env.update(size_env(ip, lists, (queries,), k))
        w = Types(ip, st, env, {first: "Query", queries: "tuple"})
        bad = [e for e in ip.events if e.kind == "raise" and "BadNumberNaryQueryArgs" in repr(e.value) and w.holds(e.guard) is not False]
        sure = [e for e in bad if w.holds(e.guard) is True]
        neg = OLD.get(cls, cls) == "NegationQuery"
        refuse = k != 1 if neg else k < 2
        if neg and old and k > 1:
            continue  # refused by the conversion
        ctx.oblige(bool(sure) if refuse else not bad, "number", "%s:%d" % (base + cls, k), "%d subqueries are %s" % (k, "accepted" if refuse else "refused"), f.where)
    # what is kept of each
    worlds = [("Query", "same"), ("CompoundQuery", "same"), ("ObjectQuery", "same"), ("ConjunctionQuery", "same"), ("list", "list"), ("str", "str"), ("other", "raise"), ("dict", "raise"), ("int", "raise")]
    if old:
        worlds += [("AndQuery", "same"), ("QueryMatcher", "same")]
    for tup in (False, True):
        env = dict(env0)
        env.update(size_env(ip, lists, (), 3))
        for s in {s for e in ip.events for l in list(e.guard) + ([e.obj] if e.obj is not None else []) for s in subterms(l)}:
            if s.op == "call" and s.a[0] is mk("ext", "builtins.len") and s.a[1] and s.a[1][0] is queries:
                env[s] = 1 if tup else 2
        for ty, want in worlds:
            types = {first: "tuple" if tup else ty, queries: "tuple"}
            w = Types(ip, st, env, types)
            src = first if tup else queries
            loops = {e.name: e for e in ip.events if e.kind == "loop" and e.obj is not None and w.pick(over(e.obj)) is src}
            for e in loops.values():
                for x in ip.events:
                    for t in list(x.guard) + list(x.args) + list(x.kwargs.values()) + ([x.value] if x.value is not None else []):
                        for s in subterms(t):
                            if s.op == "elem" and s.a[0] is e.obj:
                                types[s] = ty
                            if s.op == "item" and s.a[1].op == "elem" and s.a[1].a[0] is e.obj and w.pick(s.a[0]) is src:
                                types[s] = ty
                            if s.op == "item" and s.a[0].op == "elem" and s.a[0].a[0] is e.obj and is_const(s.a[1], 1):
                                types[s] = ty
            one = {s for s in types if s is not first and s is not queries}
            tag = "%s:%s%s" % (base + cls, ty, ":tuple" if tup else "")
            if not ctx.oblige(bool(one), "subqueries", tag + ":each", "not every query given is looked at", f.where):
                continue
            got, unknown = [], False
            for l in lists:
                for g, lp, k, v in st.contents.get(l, ()):
                    h = w.holds(g)
                    if h is False or w0.holds([x for e in sets if e.value is l for x in e.guard]) is False:
                        continue
                    unknown = unknown or h is UNK
                    got.append((lp, w.pick(v)))
            raises = [e for e in ip.events if e.kind == "raise" and e.loops and w.holds(e.guard) is True and "TypeError" in repr(e.value)]
            raises += [e for e in ip.events if e.kind == "raise" and not e.loops and w.holds(e.guard) is True and "TypeError" in repr(e.value)]
            if want == "raise":
                ctx.oblige(bool(raises) and not [x for x in got if x[1] in one], "subqueries", tag, "a subquery of another type is not refused", f.where)
                continue
            anyraise = [e for e in ip.events if e.kind == "raise" and e.loops and w.holds(e.guard) is not False]
            ctx.oblige(len(got) == 1 and not unknown and not anyraise, "subqueries", tag + ":once", "a %s given as subquery is kept %d times" % (ty, len(got)), f.where)
            for lp, v in got:
                ctx.oblige(len(lp) == 1 and any(l in loops for l in lp), "subqueries", tag + ":all", "not every subquery is kept once", f.where)
                if want == "same":
                    ok = v in one
                elif want == "list":
                    ok = made(ip, v, ("QueryMatcher",) if old else ("ObjectQuery",), one)
                else:
                    ok = made(ip, v, ("CypherQuery",), one) if old else v.op == "call" and v.a[0] is mk("fn", PS) and v.a[1][:1] and v.a[1][0] in one
                    ok = ok or not old and any(e.kind == "opaque" and e.name == PS and e.value is v and set(e.kwargs.values()) & one for e in ip.events)
                ctx.oblige(ok, "subqueries", tag + ":what", "a %s given as subquery is kept as %r" % (ty, v), f.where)
    for e in ip.events:
        if e.kind == "break" and e.loops or e.kind == "return" and e.loops and e.func.name == "__init__":
            ctx.oblige(False, "subqueries", base + cls + ":early", "subqueries are left out", e.where)
        if e.kind == "call" and e.obj in lists and e.name in ("pop", "remove", "clear", "insert") or e.kind in ("delitem",) and e.obj in lists:
            ctx.oblige(False, "subqueries", base + cls + ":dropped", "subqueries are taken out again", e.where)


def made(ip, v, classes, one):
    if v.op != "new":
        return False
    n = [e for e in ip.events if e.kind == "new" and e.value is v]
    return bool(n) and n[0].name.rsplit(".", 1)[-1] in classes and bool(n[0].args) and n[0].args[0] in one and len(n[0].args) == 1


# ------------------------------------------------------------- operators


def assignments(tree):
    """class -> {attribute: expression} set at module level, loops over
    literal tuples unrolled."""
    out = []

    depth = [0]

    def lit(n, env):
        if isinstance(n, ast.Name) and n.id in env and not isinstance(env[n.id], ast.FunctionDef):
            return env[n.id]
        return n

    def run(body, env):
        for s in body:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name):
                        c = lit(t.value, env)
                        if isinstance(c, ast.Name):
                            out.append((c.id, t.attr, lit(s.value, env)))
                    elif isinstance(t, ast.Name):
                        env[t.id] = lit(s.value, env) if isinstance(s.value, (ast.Tuple, ast.List, ast.Dict, ast.Name)) else s.value
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "setattr" and len(s.value.args) == 3:
                c, n, v = (lit(a, env) for a in s.value.args)
                if isinstance(c, ast.Name) and isinstance(n, ast.Constant):
                    out.append((c.id, n.value, v))
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and isinstance(env.get(s.value.func.id), ast.FunctionDef):
                fn = env[s.value.func.id]
                en = dict(env)
                for a, b in zip(fn.args.args, s.value.args):
                    en[a.arg] = lit(b, env)
                for k in s.value.keywords:
                    if k.arg:
                        en[k.arg] = lit(k.value, env)
                if depth[0] < 5:
                    depth[0] += 1
                    run(fn.body, en)
                    depth[0] -= 1
            elif isinstance(s, ast.FunctionDef):
                env[s.name] = s
            elif isinstance(s, ast.For):
                it = lit(s.iter, env)
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items":
                    d = lit(it.func.value, env)
                    if isinstance(d, ast.Dict):
                        it = ast.Tuple([ast.Tuple([k, v], ast.Load()) for k, v in zip(d.keys, d.values)], ast.Load())
                if isinstance(it, (ast.Tuple, ast.List)):
                    for x in it.elts:
                        en = dict(env)
                        if isinstance(s.target, ast.Name):
                            en[s.target.id] = x
                        elif isinstance(s.target, ast.Tuple) and isinstance(x, (ast.Tuple, ast.List)):
                            for a, b in zip(s.target.elts, x.elts):
                                if isinstance(a, ast.Name):
                                    en[a.id] = lit(b, env)
                        run(s.body, en)
    run(tree.body, {})
    return out


def check_operators(ctx):
    repo = ctx.repo
    found = {}
    for name, m in repo.modules.items():
        if not name.startswith("hatchet.query") and name != "hatchet":
            continue
        for c, a, v in assignments(m.tree):
            if a in SIGN:
                qc = resolve(repo, m, c)
                if qc:
                    found.setdefault((qc, a), []).append((m, v))
    for cls, prefix in (("hatchet.query.query.Query", CQ), (CQ + "CompoundQuery", CQ), (CP + "AbstractQuery", CP)):
        for op, what in SIGN.items():
            want = what + "Query" if prefix == CQ else {v: k for k, v in OLD.items()}[what + "Query"]
            tag = "%s.%s" % (cls, op)
            over_ = found.get((cls, op))
            sub = [c for c in repo.classes.values() if c.qual != cls and c.qual.startswith("hatchet.query") and op in c.methods and repo.is_subclass(c, cls)]
            for c in sub:
                ctx.oblige(result_of(ctx, c.methods[op].qual, want, tag, prefix), "operators", c.qual + "." + op, "the operator does not build a %s of both operands" % want, c.methods[op].where)
            if over_:
                m, v = over_[-1]
                if isinstance(v, ast.Name):
                    r = resolve(repo, m, v.id, functions=True)
                    ctx.oblige(r is not None and result_of(ctx, r, want, tag, prefix), "operators", tag, "%s does not build a %s of all its operands" % (v.id, want), "%s:%d" % (m.path, v.lineno))
                elif isinstance(v, ast.Lambda):
                    ps = [a.arg for a in v.args.args]
                    b = v.body
                    ok = isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and (resolve(repo, m, b.func.id) or "").endswith("." + want) and \
                        sorted(a.id for a in b.args if isinstance(a, ast.Name)) == sorted(ps) and len(b.args) == len(ps)
                    ctx.oblige(ok, "operators", tag, "the operator does not build a %s of all its operands" % want, "%s:%d" % (m.path, v.lineno))
                else:
                    ctx.oblige(False, "operators", tag, "the operator is %s" % ast.dump(v)[:80], "%s:%d" % (m.path, v.lineno))
                continue
            r = method(ctx, cls, op)
            ctx.oblige(r is not None and result_of(ctx, r, want, tag, prefix), "operators", tag, "the operator %s does not build a %s of all its operands" % (op, want),
                       repo.func(r).where if r else None)


def resolve(repo, m, name, functions=False):
    q = m.name + "." + name
    if functions and q in repo.functions or q in repo.classes:
        return q
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == name:
                    cands = [x for x in list(repo.classes) + (list(repo.functions) if functions else []) if x.endswith("." + (n.module or "").rsplit(".", 1)[-1] + "." + a.name)]
                    cands += [x for x in list(repo.classes) if x.rsplit(".", 1)[-1] == a.name]
                    if cands:
                        return cands[0]
    return None


def result_of(ctx, q, want, tag, prefix):
    f = ctx.repo.func(q)
    init = method(ctx, prefix + want, "__init__")
    ip, res = ctx.analyze(q, opaque=(init,))
    ps = [mk("param", q, n) for n in f.params()]
    if not res.returns:
        return False
    for g, v in res.returns:
        if v.op != "new":
            return False
        n = [e for e in ip.events if e.kind == "new" and e.value is v]
        if not n or n[0].name != prefix + want or set(n[0].args) != set(ps) or len(n[0].args) != len(ps) or n[0].guard:
            return False
    return True


# ------------------------------------------------------------- old style


def check_convert(ctx):
    for cls, want in OLD.items():
        q = method(ctx, CP + cls, "_convert_to_new_query")
        f = ctx.repo.func(q)
        ip, res = ctx.analyze(q, opaque=(CQ + want + ".__init__",), self_class=ctx.repo.classes[CP + cls])
        sub = mk("param", q, f.params()[1])
        ok = bool(res.returns)
        for g, v in res.returns:
            n = [e for e in ip.events if e.kind == "new" and e.value is v]
            a = n[0].args if n else ()
            good = len(a) == 1 and (a[0].op == "star" and peel(a[0].a[0], ("builtins.list", "builtins.tuple")) is sub
                                    or a[0].op == "call" and a[0].a[0] is mk("ext", "builtins.tuple") and a[0].a[1] == (sub,))
            ok = ok and good and n[0].name == CQ + want
        ctx.oblige(ok, "old", CP + cls, "the conversion gives %s, not a %s of all subqueries" % ([v for g, v in res.returns], want), f.where)
    q = CP + "NaryQuery._get_new_query"
    abstract = method(ctx, CP + "NaryQuery", "_convert_to_new_query")
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(abstract,))
    st = res.state
    selft = mk("param", q, f.params()[0])
    conv = [e for e in ip.events if e.kind in ("call", "opaque", "invoke") and e.name.rsplit(".", 1)[-1] == "_convert_to_new_query"]
    ok = len(conv) == 1 and bool(res.returns) and all(v is conv[0].value for g, v in res.returns)
    ctx.oblige(ok, "old", q + ":converted", "the subqueries are not converted to one query", f.where)
    for e in conv:
        a = [x for x in e.args if x is not selft]
        subs = attr(selft, "compat_subqueries")
        for ty, wants in (("AndQuery", "new"), ("QueryMatcher", "new"), ("Query", "same"), ("CompoundQuery", "same")):
            got = []
            l = peel(a[0], ("builtins.list", "builtins.tuple")) if a else None
            for c in st.contents.get(l, ()) if l is not None else ():
                types = {s: ty for t in list(c[0]) + [c[3]] for s in subterms(t) if s.op == "elem" and over(s.a[0]) is subs}
                w = Types(ip, st, base_env(ip), types)
                h = w.holds(c[0])
                if h is False:
                    continue
                v = w.pick(c[3])
                b = v
                calls = [x for x in ip.events if x.value is v and x.kind in ("call", "opaque", "reccall") and x.name.rsplit(".", 1)[-1] == "_get_new_query"]
                if calls:
                    kind = "new" if calls[0].obj in types or set(calls[0].args) & set(types) else "?"
                else:
                    kind = "same" if v in types else repr(v)
                got.append((h, kind, len(c[1])))
            ctx.oblige(got == [(True, wants, 1)], "old", "%s:%s" % (q, ty), "a %s among the subqueries is converted to %s" % (ty, got), f.where)
    for cls in ("NaryQuery", "QueryMatcher"):
        q = CP + cls + ".apply"
        f = ctx.repo.func(q)
        ip, res = ctx.analyze(q, opaque=("hatchet.query.engine.QueryEngine.apply", CP + cls + "._get_new_query"))
        selft, gf = (mk("param", q, n) for n in f.params()[:2])
        ap = [e for e in ip.events if e.kind in ("opaque", "call") and e.name.rsplit(".", 1)[-1] == "apply"]
        ok = len(ap) == 1 and bool(res.returns) and all(v is ap[0].value for g, v in res.returns)
        if ok:
            a = [x for x in ap[0].args][-3:]
            new = [e.value for e in ip.events if e.kind in ("opaque", "call", "reccall") and e.name.rsplit(".", 1)[-1] == "_get_new_query"]
            ok = len(a) == 3 and a[1] is attr(gf, "graph") and a[2] is attr(gf, "dataframe") and (a[0] in new or a[0] is attr(selft, "true_query"))
        ctx.oblige(ok, "old", q, "the query is not applied to the GraphFrame's own graph and table", f.where)
    for cls in ("QueryMatcher", "CypherQuery"):
        q = method(ctx, CP + cls, "_get_new_query")
        ip, res = ctx.analyze(q)
        ctx.oblige(bool(res.returns) and all(v is attr(mk("param", q, ctx.repo.func(q).params()[0]), "true_query") for g, v in res.returns), "old", q, "the query held is not returned", ctx.repo.func(q).where)
    q = CP + "CypherQuery.__init__"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(PS,))
    s = [e for e in ip.events if e.kind == "setattr" and e.name == "true_query"]
    c = [e for e in ip.events if e.kind == "opaque" and e.name == PS]
    text = mk("param", q, f.params()[1])
    ok = bool(s) and len(c) == 1 and s[-1].value is c[0].value and text in c[0].kwargs.values() and not s[-1].guard
    ctx.oblige(ok, "old", q, "the string is not parsed as the query", f.where)


def check(ctx):
    for cls in OPS:
        check_op(ctx, cls)
        check_ctor(ctx, cls, CQ, False)
    for cls in OLD:
        check_ctor(ctx, cls, CP, True)
    check_operators(ctx)
    check_convert(ctx)

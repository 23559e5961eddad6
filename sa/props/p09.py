"""P09: which rows filter keeps, serially and in parallel."""

from ..lib import peel, flat, Members, whole, strip_copy
from ..terms import mk, attr, canon, is_const, subterms, T, const
from ..repo import AnalysisBroken
from .p07 import evl, holds, UNK
from .p08 import evalterm

TITLE = "filter keeps exactly the selected rows"
RULE = (
    "Value-flow of GraphFrame.filter and parallel_apply in every world of filter argument (callable, list, string, "
    "old query, query, anything else) and number of processes: the table of the result is the whole table selected by "
    "the row-wise filter, the same over all chunks of a split with order restored and worker exceptions raised, or the "
    "rows whose node is among the matches of the query built from the argument; errors, index, metrics and squash."
)
ASSUMPTIONS = ("array_split covers all rows in order", "the filter function depends on its row only")

GF = "hatchet.graphframe.GraphFrame."
PA = "hatchet.graphframe.parallel_apply"
OPAQUE = (GF + "squash", PA, "hatchet.query.engine.QueryEngine.apply", "hatchet.query.string_dialect.parse_string_dialect",
          "hatchet.query.object_dialect.ObjectQuery.__init__", "hatchet.query.is_hatchet_query")
APPLY = OPAQUE[2]


def type_atoms(t, F, kind, env):
    """Truth of the tests on the filter argument for one kind of argument."""
    for x in subterms(t):
        if x in env or x.op != "truth":
            continue
        c = x.a[0]
        if c.op != "call" or not c.a[1]:
            continue
        f = c.a[0]
        if f is mk("ext", "builtins.callable") and c.a[1][0] is F:
            env[x] = kind == "callable"
        elif f.op == "fn" and f.a[0].endswith("is_hatchet_query") and c.a[1][0] is F:
            env[x] = kind in ("old", "new")
        elif f.op == "ext" and f.a[0] in ("builtins.isinstance", "builtins.issubclass") and len(c.a[1]) == 2:
            who = c.a[1][0]
            if who is F or who is mk("call", mk("ext", "builtins.type"), (F,), ()) or who is attr(F, "__class__"):
                cl = c.a[1][1]
                cl = list(cl.a) if cl.op == "tuple" else [cl]
                r = False
                for k in cl:
                    n = str(k.a[0])
                    r = r or {"callable": False, "list": n == "builtins.list", "str": n == "builtins.str",
                              "old": n.endswith("AbstractQuery"), "new": n.endswith((".Query", ".CompoundQuery")),
                              "other": False}[kind]
                env[x] = r


def check_filter(ctx):
    q = GF + "filter"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=OPAQUE)
    st = res.state
    selft, F, NP, MODE, SQ, UPD = (mk("param", q, p) for p in ("self", "filter_obj", "num_procs", "multi_index_mode", "squash", "update_inc_cols"))
    DF = attr(selft, "dataframe")
    gfs = [e for e in ip.events if e.kind == "new" and e.name == "hatchet.graphframe.GraphFrame"]
    if not ctx.oblige(len(gfs) >= 1, "result", q, "no graph frame is built", f.where):
        return

    def base(t):
        """The whole table behind copies and reset_index."""
        for _ in range(8):
            t = strip_copy(t)
            if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("reset_index", "sort_values") and t.a[0].a[1] == "reset_index":
                t = t.a[0].a[0]
                continue
            break
        return t

    worlds = [("callable", 1), ("callable", 4), ("list", 4), ("str", 4), ("old", 4), ("new", 4), ("other", 4), ("list", 1), ("other", 1)]
    for kind, n in worlds:
        env = {NP: n, "contents": st.contents}
        for e in ip.events:
            for t in list(e.guard) + [x for x in e.args if isinstance(x, T)] + list(e.kwargs.values()) + ([e.value] if isinstance(e.value, T) else []) + ([e.obj] if isinstance(e.obj, T) else []):
                if isinstance(t, T):
                    type_atoms(t, F, kind, env)
        tag = "%s:%s:%d" % (q, kind, n)
        live = [e for e in gfs if holds([l for l in e.guard], env) is not False]
        inv = [e for e in ip.events if e.kind == "raise" and e.value is not None and "InvalidFilter" in repr(e.value) and holds(e.guard, env) is not False]
        if kind == "other":
            ctx.oblige(any(holds(e.guard, env) is True for e in inv), "argument", tag, "no InvalidFilter for an unsupported argument", f.where)
            continue
        ctx.oblige(not inv, "argument", tag, "InvalidFilter is raised for a %s" % kind, f.where)
        if not ctx.oblige(len(live) == 1, "result", tag, "%d graph frames are built" % len(live), f.where):
            continue
        gf = live[0].value
        h = lambda name: st.heap.get((gf, name))
        table = evalterm(h("dataframe"), env) if h("dataframe") is not None else None
        if not ctx.oblige(table is not None, "rows", tag, "the table of the result is %r" % h("dataframe"), f.where):
            continue
        table0 = table
        # the index levels of the source
        keyed = False
        while table.op == "call" and table.a[0].op == "attr" and table.a[0].a[1] in ("set_index", "copy"):
            if table.a[0].a[1] == "set_index":
                keyed = keyed or index_names(ip, st, table.a[1][0] if table.a[1] else dict(table.a[2]).get("keys"), DF)
            table = table.a[0].a[0]
        for e in ip.events:
            if e.kind == "call" and e.name == "set_index" and evalterm_in(e.obj, env) is table and is_const(e.kwargs.get("inplace", const(False)), True):
                keyed = keyed or index_names(ip, st, e.args[0] if e.args else e.kwargs.get("keys"), DF)
        ctx.oblige(keyed, "index", tag, "the result is not indexed by the index levels of the source", f.where)
        sorts = []
        if kind == "callable" and n == 1:
            ok, why = selected(table, F, base, DF)
            ctx.oblige(ok, "rows", tag, why, f.where)
        elif kind == "callable":
            parallel(ctx, q, f, ip, st, table, F, NP, base, DF, env)
        else:
            ok, why = matched(ip, st, table, F, MODE, selft, base, DF, env, kind)
            ctx.oblige(ok, "rows", tag, why, f.where)
        # emptiness
        for rows in (0, 1, 3):
            e2 = dict(env)
            for t in {table, table0}:
                e2[t] = [0] * rows
                e2[attr(t, "shape")] = (rows, 3)
                e2[attr(t, "empty")] = rows == 0
                e2[attr(t, "index")] = [0] * rows
            rs = [e for e in ip.events if e.kind == "raise" and e.value is not None and "EmptyFilter" in repr(e.value)]
            hs = [holds(e.guard, e2) for e in rs]
            if rows == 0:
                ctx.oblige(True in hs, "empty", tag + ":empty", "no EmptyFilter when no row is left", f.where)
            else:
                ctx.oblige(all(x is False for x in hs), "empty", tag + ":%d" % rows, "EmptyFilter is raised although %d rows are left" % rows, f.where)
        ctx.oblige(all(e.idx < gfs[0].idx for e in ip.events if e.kind == "raise" and e.value is not None and "EmptyFilter" in repr(e.value)),
                   "empty", tag + ":before", "emptiness is tested after the result is built", f.where)
        # the other fields
        ctx.oblige(h("graph") is attr(selft, "graph"), "fields", tag + ":graph", "the result's graph is %r" % h("graph"), f.where)
        for m in ("exc_metrics", "inc_metrics"):
            v = evalterm(h(m), env) if h(m) is not None else None
            ctx.oblige(v is not None and (v is attr(selft, m) or whole(ip, st, v, [attr(selft, m)])), "fields", tag + ":" + m, "the result's %s are %r" % (m, v), f.where)
        ctx.oblige(h("default_metric") is attr(selft, "default_metric"), "fields", tag + ":default", "the result's default metric is %r" % h("default_metric"), f.where)
        md = h("metadata")
        ok = md is not None and (base(md) is attr(selft, "metadata") or any(attr(selft, "metadata") in set(subterms(c[3])) for c in st.contents.get(md, ())))
        ctx.oblige(ok, "fields", tag + ":metadata", "the result's metadata is %r" % md, f.where)
        for sq in (True, False):
            e2 = dict(env)
            e2[SQ] = sq
            outs = [e for e in ip.events if e.kind == "return" and e.stack == (q,) and holds(e.guard, e2) is not False]
            v = evalterm(outs[0].value, e2) if len(outs) == 1 else None
            if sq:
                ok = v is not None and v.op == "call" and v.a[0].op == "fn" and v.a[0].a[0] == GF + "squash" and v.a[1][0] is gf
                c = [e for e in ip.events if e.kind == "opaque" and e.value is v]
                ok = ok and bool(c) and c[0].kwargs.get("update_inc_cols") is UPD
                ctx.oblige(ok, "squash", tag + ":on", "with squash, %r is returned" % v, f.where)
            else:
                ctx.oblige(v is gf, "squash", tag + ":off", "without squash, %r is returned" % v, f.where)


def evalterm_in(t, env):
    return evalterm(t, env) if t is not None else None


def index_names(ip, st, t, DF):
    if t is None:
        return False
    t = peel(t, ("builtins.list", "builtins.tuple"))
    if t is attr(attr(DF, "index"), "names"):
        return True
    return whole(ip, st, t, [attr(attr(DF, "index"), "names")])


def select(t):
    """(table, mask) of table[mask] / table.loc[mask]"""
    if t.op == "item":
        b, m = t.a
        if b.op == "attr" and b.a[1] == "loc":
            b = b.a[0]
        if m.op == "tuple" and len(m.a) == 2 and m.a[1].op == "slice":
            m = m.a[0]
        while m.op == "call" and m.a[0].op == "attr" and m.a[0].a[1] == "astype" and m.a[1] and m.a[1][0] is mk("ext", "builtins.bool"):
            m = m.a[0].a[0]
        return b, m
    return None, None


def selected(t, F, base, DF, whole_table=None):
    b, m = select(t)
    if b is None:
        return False, "the kept rows are %r, not a selection of the table" % t
    if whole_table is None and base(b) is not DF or whole_table is not None and b is not whole_table:
        return False, "rows are selected from %r" % b
    ok = m.op == "call" and m.a[0].op == "attr" and m.a[0].a[1] == "apply" and (m.a[0].a[0] is b or base(m.a[0].a[0]) is base(b) and whole_table is None)
    if ok:
        kw = dict(m.a[2])
        fn = m.a[1][0] if m.a[1] else kw.get("func")
        ax = kw.get("axis", m.a[1][1] if len(m.a[1]) > 1 else None)
        ok = fn is F and ax is not None and is_const(ax, 1, "columns")
    return ok, "rows are selected by %r, not by the filter applied to every row" % m


def matched(ip, st, t, F, MODE, selft, base, DF, env, kind):
    b, m = select(t)
    if b is None or base(b) is not DF:
        return False, "the kept rows are %r, not a selection of the whole table" % t
    ok = m.op == "call" and m.a[0].op == "attr" and m.a[0].a[1] == "isin" and len(m.a[1]) == 1
    if ok:
        col = m.a[0].a[0]
        ok = col.op == "item" and is_const(col.a[1], "node") and base(col.a[0]) is DF or (
            col.op == "call" and col.a[0].op == "attr" and col.a[0].a[1] == "get_level_values")
    if not ok:
        return False, "rows are selected by %r, not by their node being matched" % m
    qm = peel(evalterm(m.a[1][0], env) or m.a[1][0], ("builtins.list", "builtins.set", "builtins.tuple"))
    c = [e for e in ip.events if e.kind == "opaque" and e.name == APPLY and e.value is qm]
    if not c:
        return False, "the matches are %r, not those of the query engine" % qm
    kw = c[0].kwargs
    if kw.get("self") is not attr(selft, "query_engine") and not (kw.get("self") is not None and kw["self"].op == "new"):
        return False, "the query is applied by %r" % kw.get("self")
    if kw.get("graph") is not attr(selft, "graph") or kw.get("dframe") is None or base(kw["dframe"]) is not DF:
        return False, "the query is applied to %r, %r" % (kw.get("graph"), kw.get("dframe"))
    qu = evalterm(kw.get("query"), env)
    if qu is None:
        return False, "the query is %r" % kw.get("query")
    if kind == "new":
        ok = qu is F
    elif kind == "old":
        ok = qu.op == "call" and qu.a[0] is attr(F, "_get_new_query") or qu.op == "call" and qu.a[0].op == "fn" and qu.a[0].a[0].endswith("_get_new_query") and qu.a[1][0] is F
    elif kind == "str":
        e = [e for e in ip.events if e.kind == "opaque" and e.name.endswith("parse_string_dialect") and e.value is qu]
        ok = bool(e) and e[0].kwargs.get("query_str") is F and e[0].kwargs.get("multi_index_mode") is MODE
    else:
        e = [e for e in ip.events if e.kind == "opaque" and e.name.endswith("ObjectQuery.__init__") and e.obj is qu]
        ok = bool(e) and e[0].kwargs.get("query") is F and e[0].kwargs.get("multi_index_mode") is MODE
    return ok, "for a %s the query %r is applied" % (kind, qu)


def parallel(ctx, q, f, ip, st, table, F, NP, base, DF, env):
    tag = q + ":parallel"
    asc = lambda kw: is_const(kw.get("ascending", const(True)), True) and not set(kw) - {"ascending", "inplace", "#", "kind"}
    srt = False
    t = table
    while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("sort_index", "copy"):
        if t.a[0].a[1] == "sort_index":
            srt = srt or asc(dict(t.a[2]))
        t = t.a[0].a[0]
    for e in ip.events:
        if e.kind == "call" and e.name == "sort_index" and evalterm_in(e.obj, env) is t and is_const(e.kwargs.get("inplace", const(False)), True):
            srt = srt or asc(e.kwargs)
    ctx.oblige(srt, "order", tag, "the rows come in the order the workers finish", f.where)
    ok = t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "pandas.concat" and t.a[1]
    if not ctx.oblige(bool(ok), "rows", tag + ":concat", "the kept rows are %r, not the results of all workers" % t, f.where):
        return
    kw = dict(t.a[2])
    kw.pop("#", None)
    ctx.oblige(not [k for k, v in kw.items() if not is_const(v, False) and not (k == "axis" and is_const(v, 0)) and k not in ("copy", "sort")],
               "order", tag + ":labels", "the results are joined with %s" % sorted(kw), f.where)
    lst = peel(t.a[1][0], ("builtins.list", "builtins.tuple"))
    procs = [e for e in ip.events if e.kind == "call" and e.value is not None and e.value.op == "call" and e.value.a[0].op == "ext"
             and e.value.a[0].a[0].endswith(".Process")]
    if not ctx.oblige(len(procs) == 1, "workers", tag, "%d kinds of workers" % len(procs), f.where):
        return
    p = procs[0]
    args = p.kwargs.get("args")
    items = list(args.a) if args is not None and args.op == "tuple" else [c[3] for c in st.contents.get(args, ())] if args is not None else []
    tgt = p.kwargs.get("target")
    ctx.oblige(tgt is not None and tgt.op == "fn" and tgt.a[0] == PA, "workers", tag + ":target", "workers run %r" % tgt, p.where)
    if not ctx.oblige(len(items) == 3, "workers", tag + ":args", "workers get %r" % args, p.where):
        return
    names = ctx.repo.func(PA).all_params()
    role = dict(zip(names, items))
    chunk = [x for x in items if x is not F and not (x.op == "call" and "Queue" in repr(x.a[0]))]
    que = [x for x in items if x.op == "call" and "Queue" in repr(x.a[0])]
    ctx.oblige(F in items and len(chunk) == 1 and len(que) == 1, "workers", tag + ":roles", "workers get %r" % args, p.where)
    if len(chunk) != 1 or len(que) != 1:
        return
    ch = chunk[0]
    # all chunks
    spl = None
    if ch.op == "elem":
        spl = peel(ch.a[0], ("builtins.list", "builtins.tuple", "builtins.enumerate"))
        cover = True
    elif ch.op == "item" and ch.a[1].op in ("elem", "idx"):
        spl = ch.a[0]
        rng = ch.a[1].a[0] if ch.a[1].op == "elem" else None
        cover = ch.a[1].op == "idx" or rng.op == "call" and rng.a[0] is mk("ext", "builtins.range") and len(rng.a[1]) == 1 and (
            rng.a[1][0] is NP or evl(rng.a[1][0], {NP: 7}) == 7 or rng.a[1][0] is mk("call", mk("ext", "builtins.len"), (spl,), ()))
    ok = spl is not None and spl.op == "call" and spl.a[0] is mk("ext", "numpy.array_split") and base(spl.a[1][0]) is DF and (
        spl.a[1][1] is NP)
    ctx.oblige(bool(ok) and cover, "rows", tag + ":chunks", "the workers get %r, not all parts of the table" % ch, p.where)
    starts = [e for e in ip.events if e.kind == "call" and e.name == "start" and p.value in ip.sources(e.obj) or
              e.kind == "call" and e.name == "start" and any(p.value is x for s in ip.sources(e.obj) for x in members(ip, st, s))]
    ctx.oblige(bool(starts) and all(same_guard(e, p) for e in starts), "workers", tag + ":start", "not every worker is started", p.where)
    # one result per worker
    gets = [e for e in ip.events if e.kind == "call" and e.name == "get" and e.obj is que[0]]
    ctx.oblige(len(gets) == 1, "workers", tag + ":get", "results are taken at %d places" % len(gets), f.where)
    vals = [(c[0], c[1], c[3]) for c in st.contents.get(lst, ())]
    flatv = [v for g, l, v in vals if v.op != "star"] + [c[3] for g, l, v in vals if v.op == "star" for c in st.contents.get(v.a[0], ())]
    gv = {e.value for e in gets}
    good = bool(flatv) and all(v in gv or v.op == "elem" and any(x in gv for x in members(ip, st, v)) for v in flatv)
    ctx.oblige(good, "rows", tag + ":results", "%r is joined, not every worker's result" % flatv, f.where)
    for e in gets:
        lo = [x for x in ip.events if x.kind == "loop" and x.name in e.loops]
        n_ok = len(lo) == 1 and counted(ip, st, lo[0].obj, NP, spl, p)
        ctx.oblige(n_ok, "workers", tag + ":count", "not one result per worker is taken", e.where)
        extra = [l for l in e.guard if l not in p.guard]
        ctx.oblige(not extra, "workers", tag + ":guard", "a result is only taken if %r" % extra, e.where)
        joins = [x for x in ip.events if x.kind == "call" and x.name == "join" and x.idx < e.idx and x.loops]
        ctx.oblige(not joins, "workers", tag + ":deadlock", "workers are joined before their results are taken", e.where)
        ctx.oblige(not e.kwargs and not e.args, "workers", tag + ":wait", "a result that is not there yet is given up", e.where)
    for c in st.contents.get(lst, ()):
        extra = [l for l in c[0] if l not in p.guard and not (l.op == "not" and "isinstance" in repr(l))]
        ctx.oblige(not extra, "rows", tag + ":kept", "a worker's result is only joined if %r" % extra, f.where)
    # exceptions of the workers
    rs = []
    for e in ip.events:
        if e.kind == "raise" and e.value is not None and (e.value in gv or any(x in gv for x in members(ip, st, e.value))):
            own = [l for l in e.guard if l not in p.guard]
            ok = len(own) == 1 and own[0].op == "truth" and own[0].a[0].op == "call" and own[0].a[0].a[0] is mk("ext", "builtins.isinstance") and \
                own[0].a[0].a[1][0] is e.value and any(n in repr(own[0].a[0].a[1][1]) for n in ("builtins.Exception", "builtins.BaseException"))
            if ok:
                rs.append(e)
            elif len(own) == 1 and own[0].op == "truth":
                # raised from a list that holds exactly the results that are exceptions
                cs = st.contents.get(own[0].a[0], ())
                if cs and all(any(is_exc_test(l, c[3]) for l in c[0]) and any(x in gv for x in members(ip, st, c[3])) and canon(c[3]) is canon(e.value) for c in cs):
                    rs.append(e)
    cc = [e for e in ip.events if e.kind == "call" and e.value is t]
    ctx.oblige(bool(rs) and all(e.idx < cc[0].idx for e in rs) if cc else bool(rs), "exceptions", tag,
               "an exception of the filter function in a worker does not reach the caller", f.where)
    for e in ip.events:
        if e.kind in ("break", "continue") and e.loops:
            ctx.oblige(False, "workers", tag + ":early", "not all workers are started or heard", e.where)
    # the worker itself
    pf = ctx.repo.func(PA)
    wip, wres = ctx.analyze(PA)
    inv = {v: k for k, v in role.items()}
    wp = {k: mk("param", PA, inv[v]) for k, v in (("F", F), ("chunk", ch), ("queue", que[0])) if v in inv}
    if not ctx.oblige(len(wp) == 3, "workers", PA, "the worker's arguments do not match", pf.where):
        return
    puts = [e for e in wip.events if e.kind == "call" and e.name == "put" and e.obj is wp["queue"]]
    sent = [(e, v) for e in puts for v in flat(e.args[0])]
    normal = [(e, v) for e, v in sent if not any(s.op in ("exc", "excpath") for l in e.guard for s in subterms(l)) and v.op != "excval"]
    failed = [(e, v) for e, v in sent if (e, v) not in normal]
    ctx.oblige(len(normal) == 1 and not normal[0][0].guard and not normal[0][0].loops, "workers", PA + ":put", "the worker sends %d results" % len(normal), pf.where)
    for e, v in normal:
        ok, why = selected(v, wp["F"], strip_copy, None, whole_table=wp["chunk"])
        ctx.oblige(ok, "rows", PA + ":rows", why, e.where)
    ok = len(failed) == 1 and failed[0][1].op == "excval" and not failed[0][0].loops and all(
        any(s.op in ("exc", "excpath") for s in subterms(l)) for l in failed[0][0].guard)
    ctx.oblige(ok, "exceptions", PA, "an exception of the filter function is not sent to the caller", pf.where)
    hs = [e for e in wip.events if e.kind == "handler"]
    ctx.oblige(any(e.name in (("Exception",), ("BaseException",), "('Exception',)") or "Exception" in repr(e.name) and "'Exception'" in repr(e.name) or "BaseException" in repr(e.name) for e in hs) or not hs,
               "exceptions", PA + ":kinds", "only some exceptions of the filter function are sent to the caller", pf.where)


def is_exc_test(l, v):
    return l.op == "truth" and l.a[0].op == "call" and l.a[0].a[0] is mk("ext", "builtins.isinstance") and canon(l.a[0].a[1][0]) is canon(v) and any(
        n in repr(l.a[0].a[1][1]) for n in ("builtins.Exception", "builtins.BaseException"))


def same_guard(e, p):
    return not [l for l in e.guard if l not in p.guard]


def members(ip, st, t):
    """Elements of the list an element term runs over."""
    out = []
    if t.op == "elem":
        b = peel(t.a[0])
        for c in st.contents.get(b, ()):
            out.append(c[3])
            if c[3].op == "star":
                out += [x[3] for x in st.contents.get(c[3].a[0], ())]
    return out


def counted(ip, st, o, NP, spl, p):
    o = peel(o)
    if o.op == "call" and o.a[0] is mk("ext", "builtins.range") and len(o.a[1]) == 1:
        n = o.a[1][0]
        if n is NP or evl(n, {NP: 7}) == 7:
            return True
        if n.op == "call" and n.a[0] is mk("ext", "builtins.len"):
            o = n.a[1][0]
        else:
            return False
    return o is spl or p.value in [x for c in st.contents.get(o, ()) for x in [c[3]] + ([y[3] for y in st.contents.get(c[3].a[0], ())] if c[3].op == "star" else [])]


def check(ctx):
    check_filter(ctx)

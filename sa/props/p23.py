"""P23: JSON and HDF files hold the whole graph frame and are read back as such."""

from ..lib import peel, flat, image, strip_copy
from ..terms import mk, attr, canon, neg, b_and, b_or, is_const, subterms, T, TRUE, FALSE

TITLE = "JSON and HDF files restore the graph frame they were written from"
RULE = (
    "Value-flow of the writer and the reader of each format, matched role by role: to_dict stores, for all nodes of all "
    "roots, id -> (all frame attributes, ids of all children), all rows with the node's id in place of the node, the index "
    "levels and both metric lists under the keys from_json takes them from; from_json makes one node per id with that "
    "frame and id, links all listed children, makes exactly the nodes without parents roots, replaces ids by nodes and sets "
    "the index; to_hdf stores for every row the ids of all children and parents of its node (before they are cleared), both "
    "metric lists and the default metric of a copy in the columns from_hdf reads them from; from_hdf takes a node's first "
    "row, resolves every id, makes exactly the nodes without parents roots and drops exactly the added columns."
)
ASSUMPTIONS = ("json, pandas records and HDF restore the plain values they are given",)

GF = "hatchet.graphframe.GraphFrame."
KEEP = ("builtins.list", "builtins.tuple", "builtins.iter")
NODE, FRAME, GRAPH = "hatchet.node.Node", "hatchet.frame.Frame", "hatchet.graph.Graph"


def const(t):
    return t.a[0] if t is not None and t.op == "const" else None


def is_ext(t, *names):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in names


def is_fn(t, q):
    return t.op == "fn" and t.a[0] == q


def method(t):
    return t.a[0].a[1] if t.op == "call" and t.a[0].op == "attr" else None


def entries(st, d, key):
    """(guard, loops, value) of the entries of a dict under a constant key"""
    return [(g, l, v) for g, l, k, v in st.contents.get(d, ()) if k is not None and is_const(k, key)]


def all_keys(st, d):
    return {const(k) for g, l, k, v in st.contents.get(d, ()) if k is not None and k.op == "const"}


def copy_of(st, t, src):
    """Is t a copy of (or the same as) the list or dict src, all elements of it?"""
    t = peel(t, KEEP + ("builtins.dict", "copy.copy", "copy.deepcopy", "collections.OrderedDict"))
    if canon(t) is src:
        return True
    if method(t) == "copy" and not t.a[1]:
        return copy_of(st, t.a[0].a[0], src)
    if method(t) == "items" and not t.a[1]:
        return copy_of(st, t.a[0].a[0], src)
    cs = st.contents.get(t, ()) if t.op in ("list", "dict", "set") else ()
    if len(cs) != 1 or cs[0][0]:
        return False
    g, l, k, v = cs[0]
    if v.op == "star":
        return copy_of(st, v.a[0], src)
    if t.op == "dict":
        k, v = canon(k), canon(v)
        if k.op == "key" and v.op == "val":
            return k.a[0] is src and v.a[0] is src
        if k.op == "item" and v.op == "item" and k.a[0] is v.a[0] and k.a[0].op == "elem":
            c = k.a[0].a[0]
            return method(c) == "items" and c.a[0].a[0] is src and is_const(k.a[1], 0) and is_const(v.a[1], 1)
        if v.op == "item" and v.a[0] is src and v.a[1] is k:
            return k.op in ("key", "elem") and k.a[0] in (src, mk("call", mk("attr", src, "keys"), (), ()))
        return False
    v = canon(v)
    return v.op in ("elem", "key") and v.a[0] is src


def id_of(t):
    """The node whose id a term is."""
    t = peel(t, ("builtins.int", "builtins.str"))
    return canon(t.a[0]) if t.op == "attr" and t.a[1] == "_hatchet_nid" else None


def ids_of(st, t, what):
    """None if t is the list of the ids of all nodes in what, else what is wrong."""
    t = peel(t)
    if t.op == "list":
        cs = st.contents.get(t, ())
        if len(cs) == 1:
            g, l, k, v = cs[0]
            if v.op == "star":
                return ids_of(st, v.a[0], what)
            if g:
                return "only ids with %s" % (g,)
            n = id_of(v)
            if n is not None and n.op == "elem":
                src = canon(peel(n.a[0]))
                if src is what or src in [canon(x) for x in flat(what)] and False:
                    return None
                return "the ids of %r" % n.a[0]
            return "%r" % v
    return "%r" % t


def ends_early(ip, loops):
    return [b for b in ip.events if b.kind == "break" and any(l in b.loops for l in loops)] + [
        b for b in ip.events if b.kind == "return" and any(l in b.loops for l in loops) and not b.stack[1:]]


def no_parents(l, node):
    """A condition that says exactly that node has no parents."""
    p = mk("truth", attr(node, "parents"))
    return canon(l) is canon(neg(p))


# ---------------------------------------------------------------- JSON


def json_writer(ctx):
    q = GF + "to_dict"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q)
    st = res.state
    selft = mk("param", q, "self")
    DF, G = attr(selft, "dataframe"), attr(selft, "graph")
    roles = {}
    for g, d in res.returns:
        if not ctx.oblige(d.op == "dict", "json", q, "to_dict returns %r" % d, f.where):
            continue
        for k in sorted(all_keys(st, d)):
            es = entries(st, d, k)
            gd, ld, v = es[-1]
            w = "%s[%r]" % (q, k)
            role = None
            if copy_of(st, v, attr(attr(DF, "index"), "names")):
                role = "levels"
            elif copy_of(st, v, attr(selft, "inc_metrics")):
                role = "inc"
            elif copy_of(st, v, attr(selft, "exc_metrics")):
                role = "exc"
            elif node_entries(st, v):
                role = "graph"
                graph_entries(ctx, ip, st, q, f, G, v)
            elif any(s.op == "attr" and s.a[1] == "dataframe" for s in subterms(v)):
                role = "rows"
                rows_written(ctx, ip, st, q, f, DF, v)
            if role:
                ctx.oblige(not gd and not ld, "json", w, "%s are only written if %s" % (role, gd), f.where)
                ctx.oblige(role not in roles, "json", w, "%s are written twice" % role, f.where)
                roles[role] = k
    for r, what in (("graph", "the nodes"), ("rows", "the rows"), ("levels", "all the index levels"), ("inc", "all inclusive metrics"), ("exc", "all exclusive metrics")):
        ctx.oblige(r in roles, "json", q + ":" + r, "%s are not written" % what, f.where)
    ctx.count("JSON roles written", len(roles))
    q2 = GF + "to_json"
    f2 = ctx.repo.func(q2)
    ip, res = ctx.analyze(q2, opaque=(q,))
    s2 = mk("param", q2, "self")
    for g, v in res.returns:
        ok = is_ext(v, "json.dumps") and v.a[1] and v.a[1][0].op == "call" and is_fn(v.a[1][0].a[0], q) and v.a[1][0].a[1][:1] == (s2,)
        ctx.oblige(ok, "json", q2, "to_json returns %r, not the serialised to_dict" % v, f2.where)
        if ok:
            kw = {k for k, x in v.a[2]}
            ctx.oblige(not kw & {"skipkeys"}, "json", q2 + ":skip", "keys are skipped", f2.where)
    return roles


def node_entries(st, v, depth=0, seen=None):
    """[(dict, guard, loops, key, value)] of entries keyed by node ids"""
    seen = set() if seen is None else seen
    v = peel(v, KEEP)
    if v in seen or depth > 4 or v.op not in ("list", "dict"):
        return []
    seen.add(v)
    out = []
    for g, l, k, x in st.contents.get(v, ()):
        if v.op == "dict" and k is not None and id_of(k) is not None:
            out.append((v, g, l, k, x))
        elif k is None or v.op == "dict":
            x = x.a[0] if x.op == "star" else x
            out += node_entries(st, x, depth + 1, seen)
    return out


def graph_entries(ctx, ip, st, q, f, G, v):
    # every root contributes
    top = peel(v, KEEP)
    root_el = canon(mk("elem", attr(G, "roots")))
    for g, l, k, x in st.contents.get(top, ()):
        ctx.oblige(not g, "json", q + ":roots", "a root's nodes are only written if %s" % (g,), f.where)
        lps = [e for e in ip.events if e.kind == "loop" and e.name in l]
        ok = any(canon(peel(e.obj, KEEP + ("builtins.sorted",))) is canon(attr(G, "roots")) for e in lps) or top.op == "dict" or not lps
        ctx.oblige(ok, "json", q + ":roots-all", "not every root is written", f.where)
        ctx.oblige(not ends_early(ip, l), "json", q + ":roots-early", "the loop over the roots can end early", f.where)
    for d, g, l, k, x in node_entries(st, v):
        n = id_of(k)
        ok = n.op == "elem" and n.a[0].op == "call" and n.a[0].a[0].op == "fn" and (
            n.a[0].a[0].a[0] == NODE + ".traverse" and canon(n.a[0].a[1][0]) is root_el or
            n.a[0].a[0].a[0] == GRAPH + ".traverse" and canon(n.a[0].a[1][0]) is canon(G)) and len(n.a[0].a[1]) == 1 and not [
                kk for kk, vv in n.a[0].a[2] if kk in ("attrs", "visited")]
        ctx.oblige(ok, "json", q + ":nodes", "the nodes written are %r, not all nodes below every root" % n, f.where)
        bad = [c for c in g if not (c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] == "in" and id_of(c.a[0].a[1]) is n)]
        ctx.oblige(not bad, "json", q + ":node-guard", "a node is only written if %s" % bad, f.where)
        ctx.oblige(not ends_early(ip, l), "json", q + ":nodes-early", "the loop over the nodes can end early", f.where)
        if not ctx.oblige(x.op == "dict", "json", q + ":entry", "a node is written as %r" % x, f.where):
            continue
        have = {}
        for key in sorted(all_keys(st, x)):
            gg, ll, val = entries(st, x, key)[-1]
            gg = [c for c in gg if c not in g]
            if copy_of(st, val, canon(attr(attr(n, "frame"), "attrs"))):
                have["data"] = key
                ctx.oblige(not gg, "json", q + ":data-guard", "frame attributes are only written if %s" % gg, f.where)
            elif ids_of(st, val, canon(attr(n, "children"))) is None:
                have["children"] = key
                ctx.oblige(not gg, "json", q + ":children-guard", "children are only written if %s" % gg, f.where)
        ctx.oblige("data" in have, "json", q + ":data", "not all attributes of a node's frame are written", f.where)
        ctx.oblige("children" in have, "json", q + ":children", "the ids of all children of a node are not written", f.where)
        ctx.json_entry = have


def rows_written(ctx, ip, st, q, f, DF, v):
    t = peel(v, KEEP)
    node_col = None
    records = False
    while True:
        m = method(t)
        if m == "to_dict":
            a = [const(x) for x in t.a[1]] + [const(x) for k, x in t.a[2] if k == "orient"]
            ctx.oblige(a[:1] == ["records"], "json", q + ":records", "rows are written as %s" % a, f.where)
            records = True
        elif m in ("replace", "where", "mask", "fillna"):
            # only missing values are replaced
            txt = t.a[1] + tuple(x for k, x in t.a[2])
            ok = m == "replace" and only_nan(st, txt) or m in ("where", "mask") and any(
                method(s) in ("notnull", "notna", "isnull", "isna") or is_ext(s, "pandas.notnull", "pandas.notna", "pandas.isnull", "pandas.isna") for x in txt for s in subterms(x)) and any(is_const(x, None) for x in txt)
            ctx.oblige(ok, "json", q + ":values", "values of the rows are changed by %s(%s)" % (m, ", ".join(map(repr, txt))), f.where)
        elif m == "astype" and any(s is mk("ext", "builtins.object") for x in t.a[1] for s in subterms(x)) or m == "astype" and t.a[1] and is_const(t.a[1][0], "object"):
            pass
        elif m == "copy":
            pass
        elif m == "assign":
            for k, x in t.a[2]:
                if k == "node":
                    node_col = x
                elif x.op == "dict":
                    for g, l, kk, xx in st.contents.get(x, ()):
                        if is_const(kk, "node"):
                            node_col = xx
        elif m == "reset_index":
            ctx.oblige(not t.a[1] and not [k for k, x in t.a[2] if k != "#"], "json", q + ":reset", "index levels are dropped by %r" % t, f.where)
            ctx.oblige(canon(strip_copy(t.a[0].a[0])) is canon(DF), "json", q + ":table", "the rows written are those of %r" % t.a[0].a[0], f.where)
            break
        else:
            ctx.oblige(False, "json", q + ":table", "the rows written are those of %r" % t, f.where)
            return
        for e in ip.events:
            if e.kind == "setitem" and e.obj is t and is_const(e.args[0], "node"):
                node_col = e.value
        t = t.a[0].a[0]
    for e in ip.events:
        if e.kind == "setitem" and e.obj is t:
            if is_const(e.args[0], "node") and not e.guard:
                node_col = e.value
            else:
                ctx.oblige(False, "json", q + ":changed", "the written table's %r is changed" % (e.args,), e.where)
        if e.kind == "call" and e.obj is t and is_const(e.kwargs.get("inplace", mk("const", False)), True) and e.name not in ("sort_index", "sort_values"):
            ctx.oblige(False, "json", q + ":changed", "the written table is changed by %s" % e.name, e.where)
    ctx.oblige(records, "json", q + ":records", "rows are not written as records", f.where)
    col = at = None
    if node_col is not None:
        col, rs, at = image(ip, st, node_col)
    ok = col is not None and all(id_of(r) is canon(at) for r in rs) and col.op == "item" and is_const(col.a[1], "node") and col.a[0] is t
    ctx.oblige(ok, "json", q + ":ids", "the rows do not get their own node's id (%r)" % node_col, f.where)


def only_nan(st, args):
    nan = mk("ext", "numpy.nan")
    if len(args) == 1 and args[0].op == "dict":
        cs = st.contents.get(args[0], ())
        return bool(cs) and all(k is nan and is_const(v, None) for g, l, k, v in cs)
    return len(args) == 2 and args[0] is nan and is_const(args[1], None)


def bound(ip, qual):
    """Bound arguments of calls of a repository function, one per call site."""
    return [e for e in ip.events if e.kind == "invoke" and e.name == qual]


def gf_fields(ctx, ip, res, q, f):
    out = []
    for g, v in res.returns:
        for x in flat(v):
            if x.op == "new":
                es = [e for e in bound(ip, GF + "__init__") if e.obj is x]
                out += [e.kwargs for e in es]
    ctx.oblige(bool(out), "gf", q, "no graph frame is returned", f.where)
    return out


def roots_of(ctx, ip, st, rule, q, f, gt, vals):
    """The graph's roots are exactly the nodes in vals that have no parents."""
    es = [e for e in bound(ip, GRAPH + ".__init__") if e.obj is gt]
    if not ctx.oblige(bool(es), rule, q + ":graph", "the graph is %r" % gt, f.where):
        return
    L = peel(es[0].kwargs.get("roots"), KEEP + ("builtins.sorted",))
    cs = st.contents.get(L, ())
    ctx.oblige(bool(cs), rule, q + ":roots", "the roots are %r" % L, f.where)
    for g, l, k, v in cs:
        ctx.oblige(canon(v) in vals or v in vals, rule, q + ":roots", "the roots are taken from %r, not from all nodes" % v, f.where)
        ok = len(g) == 1 and no_parents(g[0], v)
        ctx.oblige(ok, rule, q + ":root-guard", "a node becomes a root if %s, not if it has no parents" % (g,), f.where)
        ctx.oblige(not ends_early(ip, l), rule, q + ":roots-early", "the search for roots can end early", f.where)


def values_of(d):
    """Terms that stand for the values of a dict in a loop."""
    c = mk("call", mk("attr", d, "values"), (), ())
    out = [mk("val", d), mk("elem", c), mk("elem", mk("call", mk("ext", "builtins.sorted"), (c,), ())),
           mk("item", d, mk("key", d)), mk("item", mk("elem", mk("call", mk("attr", d, "items"), (), ())), mk("const", 1))]
    return {canon(x) for x in out}


def json_reader(ctx, roles):
    q = GF + "from_json"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(GRAPH + ".enumerate_depth", GRAPH + ".enumerate_traverse"))
    st = res.state
    entry = getattr(ctx, "json_entry", {})
    specs = {s for e in ip.events for t in list(e.args) + list(e.kwargs.values()) + [e.value, e.obj] if t is not None
             for s in subterms(t) if is_ext(s, "json.loads") and s.a[1] and s.a[1][0] is mk("param", q, "json_spec")}
    if not ctx.oblige(len(specs) == 1, "json", q, "the text is not parsed as one JSON document", f.where):
        return
    SPEC = specs.pop()

    def field(t):
        """The top-level key a term is taken from."""
        t = peel(t, KEEP)
        if t.op == "ite":
            t = next((x for x in flat(t) if x.op == "item"), t)
        if t.op == "item" and t.a[0] is SPEC:
            return const(t.a[1])
        if method(t) == "get" and t.a[0].a[0] is SPEC and t.a[1]:
            return const(t.a[1][0])
        return None

    # nodes
    stores = []
    news = [e for e in bound(ip, NODE + ".__init__")]
    ctx.oblige(bool(news), "json", q + ":nodes", "no nodes are made", f.where)
    N = None
    for d, cs in st.contents.items():
        if d.op == "dict":
            for g, l, k, v in cs:
                if k is not None and any(e.obj is v for e in news):
                    stores.append((d, g, l, k, v))
    ctx.oblige(bool(stores), "json", q + ":by-id", "nodes are not kept by id", f.where)
    ctx.oblige(len({s[0] for s in stores}) <= 1, "json", q + ":by-id", "nodes are kept in several places", f.where)
    keyf = None
    for d, g, l, k, v in stores:
        N = d
        kk = peel(k, ("builtins.int", "builtins.str"))
        keyf = "int" if is_ext(k, "builtins.int") else "str"
        c = canon(kk)
        src = c.a[0] if c.op in ("key", "elem") else None
        gsrc = src.a[0] if src is not None and src.op == "elem" else src
        ctx.oblige(gsrc is not None and field(gsrc) == roles.get("graph"), "json", q + ":ids", "node ids are taken from %r" % k, f.where)
        V = canon(mk("val", src)) if src is not None else None
        same = {V, canon(mk("item", src, c))} if src is not None else set()
        bad = [x for x in g if not (x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[0] == "in" and canon(x.a[0].a[1]) in (c, canon(k)) and x.a[0].a[2].op == "dict")]
        ctx.oblige(not bad, "json", q + ":made", "a node is only made if %s" % bad, f.where)
        ctx.oblige(not ends_early(ip, l), "json", q + ":nodes-early", "the loop over the nodes can end early", f.where)
        e = next(e for e in news if e.obj is v)
        fr = e.kwargs.get("frame_obj", e.kwargs.get("frame"))
        fe = [x for x in bound(ip, FRAME + ".__init__") if x.obj is fr]
        data = fe[0].kwargs.get("attrs") if fe else None
        data = peel(data, ("builtins.dict",)) if data is not None else None
        ok = data is not None and data.op == "item" and canon(data.a[0]) in same and const(data.a[1]) == entry.get("data")
        ctx.oblige(ok, "json", q + ":frame", "a node's frame is made of %r" % data, f.where)
        h = e.kwargs.get("hnid")
        ctx.oblige(h is not None and is_ext(h, "builtins.int") and canon(peel(h, ("builtins.int",))) is c, "json", q + ":nid", "a node's id is %r" % h, f.where)
        p = e.kwargs.get("parent")
        ctx.oblige(p is None or is_const(p, None), "json", q + ":parent", "a node gets the parent %r" % p, f.where)
    if N is None:
        return
    # links
    links = [e for e in bound(ip, NODE + ".add_child")]
    ctx.oblige(bool(links), "json", q + ":links", "nodes are not linked", f.where)
    for e in links:
        kw = {k: v for k, v in e.kwargs.items()}
        a, b = kw.get("self"), next((v for k, v in kw.items() if k != "self"), None)
        ctx.oblige(not e.guard, "json", q + ":link-guard", "a child is only linked if %s" % (e.guard,), e.where)
        ctx.oblige(not ends_early(ip, e.loops), "json", q + ":links-early", "the loop over the links can end early", e.where)
        kid = b.a[1] if b is not None and b.op == "item" and b.a[0] is N else None
        own = a.a[1] if a is not None and a.op == "item" and a.a[0] is N else None
        own_c = canon(a) if a is not None else None
        L = canon(peel(kid, ("builtins.str", "builtins.int"))) if kid is not None else None
        ok = L is not None and L.op == "elem" and L.a[0].op == "item" and const(L.a[0].a[1]) == entry.get("children")
        ctx.oblige(ok, "json", q + ":link-child", "the child linked is %r" % b, e.where)
        if ok and keyf == "str":
            ctx.oblige(is_ext(kid, "builtins.str"), "json", q + ":link-key", "a child's number is looked up among texts", e.where)
        if ok:
            V = L.a[0].a[0]  # the specification the children are taken from
            ok2 = False
            if own is not None:
                oc = canon(peel(own, ("builtins.str", "builtins.int")))
                ok2 = oc.op == "key" and (V is canon(mk("val", oc.a[0])) or V is canon(mk("item", oc.a[0], oc)))
                if ok2:
                    ok2 = all_specs(st, oc.a[0], SPEC, field, roles, N)
            ctx.oblige(ok2, "json", q + ":link-parent", "the children of %r are linked below %r" % (V, a), e.where)
    # graph frame
    for kw in gf_fields(ctx, ip, res, q, f):
        roots_of(ctx, ip, st, "json", q, f, kw.get("graph"), values_of(N))
        for role, arg, what in (("exc", "exc_metrics", "exclusive"), ("inc", "inc_metrics", "inclusive")):
            got = field(kw[arg]) if kw.get(arg) is not None else None
            ctx.oblige(got is not None and got == roles.get(role), "json", q + ":" + role, "the %s metrics are read from %r and written to %r" % (what, got, roles.get(role)), f.where)
        T = kw.get("dataframe")
        levels = []
        node_col = None
        for i in range(8):
            for e in ip.events:
                if e.obj is T and e.kind == "setitem":
                    if is_const(e.args[0], "node") and not e.guard:
                        node_col = (T, e.value)
                    else:
                        ctx.oblige(False, "json", q + ":changed", "the table's %r is changed if %s" % (e.args, e.guard), e.where)
                if e.obj is T and e.kind == "call" and is_const(e.kwargs.get("inplace", mk("const", False)), True):
                    if e.name == "set_index" and not e.guard:
                        levels.append(e.args[0] if e.args else e.kwargs.get("keys"))
                    elif e.name != "sort_index":
                        ctx.oblige(False, "json", q + ":changed", "the table is changed by %s if %s" % (e.name, e.guard), e.where)
            m = method(T)
            if is_ext(T, "pandas.DataFrame", "pandas.DataFrame.from_records", "pandas.DataFrame.from_dict"):
                d = T.a[1][0] if T.a[1] else dict(T.a[2]).get("data")
                ctx.oblige(d is not None and field(d) == roles.get("rows"), "json", q + ":rows", "the rows are read from %r and written to %r" % (d, roles.get("rows")), f.where)
                break
            if m == "set_index":
                levels.append(T.a[1][0] if T.a[1] else dict(T.a[2]).get("keys"))
            elif m == "assign":
                node_col = (T.a[0].a[0], dict(T.a[2]).get("node"))
            elif m not in ("copy", "sort_index"):
                ctx.oblige(False, "json", q + ":rows", "the table is %r" % T, f.where)
                break
            T = T.a[0].a[0]
        ctx.oblige(bool(levels) and all(x is not None and field(x) == roles.get("levels") for x in levels), "json", q + ":levels",
                   "the index is set to %s and was written to %r" % (levels, roles.get("levels")), f.where)
        ok = False
        if node_col is not None and node_col[1] is not None:
            col, rs, at = image(ip, st, node_col[1])
            ok = col is not None and col.op == "item" and is_const(col.a[1], "node") and col.a[0] is node_col[0] and all(
                r.op == "item" and r.a[0] is canon(N) and canon(peel(r.a[1], ("builtins.str", "builtins.int"))) is canon(at)
                and (keyf != "str" or is_ext(r.a[1], "builtins.str")) for r in rs)
        ctx.oblige(ok, "json", q + ":row-nodes", "rows do not get the node of their id (%r)" % (node_col and node_col[1]), f.where)
    ctx.count("JSON links", len(links))


def all_specs(st, c, SPEC, field, roles, N):
    """Does the collection a loop runs over hold the specification of every node?"""
    if c.op == "elem":
        return field(c.a[0]) == roles.get("graph")
    for d in st.contents:
        if d.op == "dict" and canon(d) is c:
            cs = st.contents[d]
            ok = bool(cs)
            for g, l, k, v in cs:
                k, v = canon(peel(k, ("builtins.int", "builtins.str"))), canon(v)
                ok = ok and k.op == "key" and (v is canon(mk("val", k.a[0])) or v is canon(mk("item", k.a[0], k))) and k.a[0].op == "elem" and field(k.a[0].a[0]) == roles.get("graph")
                ok = ok and all(x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[0] == "in" and canon(peel(x.a[0].a[1], ("builtins.int",))) is k for x in g)
            return ok
    return False


# ---------------------------------------------------------------- HDF


def row_node(t, D):
    """The row position whose node t is: the first index level, or the only one."""
    idx = set()
    for x in flat(t):
        if x.op == "item" and is_const(x.a[1], 0):
            x = x.a[0]
        i = None
        if x.op == "attr" and x.a[1] == "name" and x.a[0].op == "item" and x.a[0].a[0].op == "attr" and x.a[0].a[0].a[1] == "iloc" and x.a[0].a[0].a[0] is D:
            i = x.a[0].a[1]
        elif x.op == "item" and x.a[0].op == "attr" and x.a[0].a[1] == "index" and x.a[0].a[0] is D:
            i = x.a[1]
        elif x.op == "elem" and x.a[0].op == "attr" and x.a[0].a[1] == "index" and x.a[0].a[0] is D:
            i = x
        elif x.op == "elem" and method(x.a[0]) == "get_level_values" and x.a[0].a[0].a[0] is attr(D, "index"):
            i = x
        if i is None:
            return None
        idx.add(canon(i))
    return idx.pop() if len(idx) == 1 else None


def every_row(i, D):
    """Does a row position range over all rows of D?"""
    if i is None:
        return False
    if i.op == "elem" and is_ext(i.a[0], "builtins.range"):
        r = [x for x in i.a[0].a[1]]
        n = r[-1] if len(r) == 1 else (r[1] if len(r) == 2 and is_const(r[0], 0) else None)
        return n is not None and (is_ext(n, "builtins.len") and canon(n.a[1][0]) in (canon(D), canon(attr(D, "index"))) or
                                  n.op == "item" and n.a[0].op == "attr" and n.a[0].a[1] == "shape" and is_const(n.a[1], 0))
    return i.op == "elem" and (i.a[0] is canon(attr(D, "index")) or method(i.a[0]) == "get_level_values")


def cell(t, D):
    """(row position, column) of a term that selects or names a cell of D"""
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] in ("iat", "iloc") and t.a[0].a[0] is D and t.a[1].op == "tuple" and len(t.a[1].a) == 2:
        r, c = t.a[1].a
        if method(c) == "get_loc" and c.a[0].a[0] is attr(D, "columns"):
            return canon(r), const(c.a[1][0])
        return None
    if t.op == "item" and t.a[1].op == "const" and isinstance(t.a[1].a[0], str):
        x = t.a[0]
        if x.op == "attr" and x.a[1] in ("loc", "at"):
            x = x.a[0]
        if x.op == "item" and x.a[0] is attr(D, "iloc"):
            return canon(x.a[1]), t.a[1].a[0]
        if method(x) is None and x.op == "item" and x.a[0] is D:
            return None
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] in ("iloc", "iat", "values") and t.a[0].a[0].op == "item" and t.a[0].a[0].a[0] is D:
        return canon(t.a[1]), const(t.a[0].a[0].a[1])
    return None


def hdf_writer(ctx):
    q = GF + "to_hdf"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(GF + "deepcopy", GF + "copy"))
    st = res.state
    selft = mk("param", q, "self")
    writes = [e for e in ip.events if e.kind == "call" and e.name == "to_hdf" and e.obj is not None]
    ctx.oblige(len(writes) == 1, "hdf", q, "the table is written %d times" % len(writes), f.where)
    roles = {}
    for w in writes:
        D = w.obj
        bad = [g for g in w.guard if not (g.op == "cmp" and is_const(g.a[1], "key"))]
        ctx.oblige(not bad, "hdf", q + ":guard", "the table is only written if %s" % bad, w.where)
        C = None
        if D.op == "attr" and D.a[1] == "dataframe" and D.a[0].op == "call" and is_fn(D.a[0].a[0], GF + "deepcopy") and D.a[0].a[1][0] is selft:
            C = D.a[0]
        if not ctx.oblige(C is not None, "hdf", q + ":table", "the table written is %r, not that of a deep copy" % D, w.where):
            continue
        cols = {}
        for e in ip.events:
            if e.kind == "call" and e.obj is D and e.idx < w.idx and is_const(e.kwargs.get("inplace", mk("const", False)), True):
                ctx.oblige(e.name == "sort_index", "hdf", q + ":changed", "the written table is changed by %s" % e.name, e.where)
            if e.kind != "setitem" or e.idx > w.idx:
                continue
            k = None
            if e.obj is D and e.args[0].op == "const":
                k = (None, e.args[0].a[0])
            elif e.obj.op == "attr" and e.obj.a[0] is D:
                k = cell(mk("item", e.obj, e.args[0]), D)
                if k is None:
                    ctx.oblige(False, "hdf", q + ":cells", "cells %r of the written table are set" % (e.args[0],), e.where)
            elif e.obj is D:
                ctx.oblige(False, "hdf", q + ":cells", "columns %r of the written table are set" % (e.args[0],), e.where)
            if k is not None:
                cols.setdefault(k[1], []).append((k[0], e))
        ctx.hdf_cols = set(cols)
        for K, es in sorted(cols.items()):
            final = [(i, e) for i, e in es if i is not None]
            if not final:
                es2 = [e for i, e in es]
                final = [(None, es2[-1])]
            for i, e in final:
                v = e.value
                role = None
                for r, a in (("exc", "exc_metrics"), ("inc", "inc_metrics"), ("default", "default_metric")):
                    if r == "default" and v is attr(C, a) or r != "default" and copy_of(st, v, canon(attr(C, a))) or any(
                            r == "default" and v is attr(selft, a) or r != "default" and copy_of(st, v, attr(selft, a)) for _ in (1,)):
                        role = r
                if role is not None:
                    ctx.oblige(not e.guard and not e.loops, "hdf", q + ":" + role + "-guard", "%s is only written if %s" % (K, e.guard), e.where)
                    ctx.oblige(i is not None and is_const(i, 0), "hdf", q + ":" + role + "-row", "%s is written to row %r" % (K, i), e.where)
                    roles[role] = K
                    continue
                L = peel(v, KEEP)
                cs = st.contents.get(L, ()) if L.op == "list" else ()
                if len(cs) != 1:
                    continue
                g, l, k, x = cs[0]
                n = id_of(x)
                src = n.a[0] if n is not None and n.op == "elem" else None
                vals = flat(src) if src is not None else []
                if not vals or not all(s.op == "attr" and s.a[1] in ("children", "parents") for s in vals) or len({s.a[1] for s in vals}) != 1:
                    continue
                rel = vals[0].a[1]
                raw = next((s.a[0] for s in subterms(x) if s.op == "elem" and canon(s) is n), None)
                pos = {row_node(s.a[0], D) for s in flat(raw if raw is not None else src)}
                roles[rel] = K
                ctx.oblige(len(pos) == 1 and None not in pos, "hdf", q + ":" + rel + "-node", "the %s written are those of %r" % (rel, src), e.where)
                p = next(iter(pos))
                ctx.oblige(p is i or canon(p) is i if p is not None and i is not None else False, "hdf", q + ":" + rel + "-row", "the %s of row %r are written to row %r" % (rel, p, i), e.where)
                ctx.oblige(every_row(i, D), "hdf", q + ":" + rel + "-rows", "the %s are not written for every row (%r)" % (rel, i), e.where)
                gg = [c for c in list(g) + list(e.guard) if not kind_of_index(c)]
                ctx.oblige(not gg, "hdf", q + ":" + rel + "-guard", "%s are only written if %s" % (rel, gg), e.where)
                ctx.oblige(not ends_early(ip, e.loops), "hdf", q + ":" + rel + "-early", "the loop over the rows can end early", e.where)
                # not after the links were cleared
                loop_events = [x2 for x2 in ip.events if x2.kind == "loop" and x2.obj is not None and canon(peel(x2.obj)) is canon(src)]
                at = min([x2.idx for x2 in loop_events], default=e.idx)
                early = [s for s in ip.events if s.kind == "setattr" and s.name == rel and s.idx < at]
                ctx.oblige(not early, "hdf", q + ":" + rel + "-cleared", "the %s of a node are cleared before they are written" % rel, e.where)
    for r in ("children", "parents", "exc", "inc", "default"):
        ctx.oblige(r in roles, "hdf", q + ":" + r, "%s of the graph frame is not written" % r, f.where)
    ctx.count("HDF roles written", len(roles))
    return roles


def is_isinst(x):
    return x.op == "truth" and x.a[0].op == "call" and x.a[0].a[0] is mk("ext", "builtins.isinstance")


def kind_of_index(l):
    """A condition that only tells the kinds of index entries apart."""
    if l.op == "not":
        return kind_of_index(l.a[0])
    if l.op in ("and", "or"):
        return all(kind_of_index(x) for x in l.a if isinstance(x, T))
    return is_isinst(l)


def decide(t, a, v):
    """A condition with one of its atoms decided."""
    if t is a:
        return v
    if t.op == "not":
        return neg(decide(t.a[0], a, v))
    if t.op in ("and", "or"):
        return (b_and if t.op == "and" else b_or)(*[decide(x, a, v) for x in t.a])
    return t


def residuals(l):
    """What a condition asks for in every kind of index."""
    atoms = sorted({s for s in subterms(l) if is_isinst(s)}, key=repr)[:3]
    out = [l]
    for a in atoms:
        out = [decide(x, a, v) for x in out for v in (TRUE, FALSE)]
    return [x for x in out if x is not TRUE and x is not FALSE]


def hdf_reader(ctx, roles):
    q = GF + "from_hdf"
    f = ctx.repo.func(q)
    ip, res = ctx.analyze(q, opaque=(GRAPH + ".enumerate_depth", GRAPH + ".enumerate_traverse"))
    st = res.state
    reads = {e.value for e in ip.events if e.kind == "call" and e.name == "pandas.read_hdf"}
    if not ctx.oblige(len(reads) == 1, "hdf", q, "the file is not read once", f.where):
        return
    D = reads.pop()
    ctx.oblige(D.a[1] and D.a[1][0] is mk("param", q, "filename"), "hdf", q + ":file", "the file read is %r" % (D.a[1][:1],), f.where)
    # nodes by id
    BY = None
    for d, cs in st.contents.items():
        if d.op == "dict" and cs and all(k is not None and id_of(k) is not None for g, l, k, v in cs):
            BY = d
            for g, l, k, v in cs:
                n = canon(v)
                ctx.oblige(id_of(k) is n, "hdf", q + ":by-id", "%r is kept under the id %r" % (v, k), f.where)
                src = n.a[0] if n.op == "elem" else None
                ok = src is not None and any(s is canon(attr(D, "index")) for s in subterms(src)) and not any(s.op == "slice" for s in subterms(src))
                ok = ok or row_node(v, D) is not None and every_row(row_node(v, D), D)
                ctx.oblige(ok and not [c for c in g if not kind_of_index(c)], "hdf", q + ":all-nodes", "the nodes are taken from %r if %s" % (v, g), f.where)
    if not ctx.oblige(BY is not None, "hdf", q + ":by-id", "nodes are not found by id", f.where):
        return
    # links
    done = {}
    for e in ip.events:
        if e.kind != "setattr" or e.name not in ("children", "parents") or not e.loops or row_node(e.obj, D) is None and "iloc" not in repr(e.obj):
            continue
        rel = e.name
        L = peel(e.value, KEEP)
        cs = st.contents.get(L, ()) if L.op == "list" else ()
        if L.op == "list" and not cs and not roles:
            continue
        w = "%s:%s" % (q, rel)
        i = row_node(e.obj, D)
        ctx.oblige(i is not None and every_row(i, D), "hdf", w + "-rows", "%s are not restored for every row" % rel, e.where)
        if not ctx.oblige(len(cs) == 1, "hdf", w + "-list", "%s are set to %r" % (rel, e.value), e.where):
            continue
        g, l, k, x = cs[0]
        own = [c for c in list(g) + list(e.guard)]
        empty = False
        bad = []
        for c in own:
            for y in residuals(c):
                if y.op == "not" and y.a[0].op == "truth" and all(z.op == "attr" and z.a[1] == rel for z in flat(y.a[0].a[0])):
                    empty = True
                else:
                    bad.append(y)
        ctx.oblige(not bad, "hdf", w + "-guard", "%s are only restored if %s" % (rel, bad), e.where)
        ok = x.op == "item" and x.a[0] is BY and x.a[1].op == "elem"
        col = first = None
        if ok:
            col, first, at = stored(st, x.a[1].a[0], D, e.obj)
            ok = col is not None and (at is None or at is i)
        ctx.oblige(ok, "hdf", w + "-ids", "%s are %r, not the nodes with the stored ids of the node's row" % (rel, x), e.where)
        if ok:
            ctx.oblige(col == roles.get(rel), "hdf", w + "-column", "%s are read from %r and written to %r" % (rel, col, roles.get(rel)), e.where)
            ctx.oblige(first or empty and at is not None, "hdf", w + "-first", "%s are read from a later row of the node, which holds none" % rel, e.where)
        done[rel] = True
    for rel in ("children", "parents"):
        ctx.oblige(done.get(rel), "hdf", "%s:%s" % (q, rel), "%s are not restored" % rel, f.where)
    for kw in gf_fields(ctx, ip, res, q, f):
        roots_of(ctx, ip, st, "hdf", q, f, kw.get("graph"), values_of(BY))
        T = kw.get("dataframe")
        while method(T) in ("drop", "sort_index", "copy"):
            if method(T) == "drop":
                dropped(ctx, st, q, f, dict(T.a[2]).get("columns"))
            T = T.a[0].a[0]
        ctx.oblige(T is D, "hdf", q + ":table", "the table is %r" % T, f.where)
        for role, arg in (("exc", "exc_metrics"), ("inc", "inc_metrics"), ("default", "default_metric")):
            v = kw.get(arg)
            c = cell(peel(v, KEEP), D) if v is not None else None
            ok = c is not None and is_const(c[0], 0) and c[1] == roles.get(role)
            ctx.oblige(ok, "hdf", q + ":" + role, "%s is %r and was written to row 0 of %r" % (arg, v, roles.get(role)), f.where)
    for e in ip.events:
        if e.kind == "call" and e.obj is D and is_const(e.kwargs.get("inplace", mk("const", False)), True):
            if e.name == "drop" and not e.guard:
                dropped(ctx, st, q, f, e.kwargs.get("columns"))
            else:
                ctx.oblige(e.name == "sort_index", "hdf", q + ":changed", "the table is changed by %s if %s" % (e.name, e.guard), e.where)
        if e.kind == "setitem" and e.obj is D:
            ctx.oblige(False, "hdf", q + ":changed", "%r of the table is changed" % (e.args,), e.where)
    ctx.count("HDF links restored", len(done))


def dropped(ctx, st, q, f, cols):
    names = {const(v) for g, l, k, v in st.contents.get(cols, ()) if not g} if cols is not None else set()
    extra = names - ctx.hdf_cols
    ctx.oblige(not extra, "hdf", q + ":dropped", "columns %s are dropped but were not added by the writer" % sorted(map(str, extra)), f.where)
    left = ctx.hdf_cols - names
    ctx.oblige(not left, "hdf", q + ":left", "columns %s added by the writer stay in the table" % sorted(map(str, left)), f.where)


def stored(st, t, D, node):
    """(column, first row of the node?, row position or None) of stored ids"""
    t = peel(t, KEEP)
    c = cell(t, D)
    if c is not None:
        return c[1], False, c[0]
    # rel[node][column], filled from the rows
    if t.op == "item" and t.a[1].op == "const" and t.a[0].op == "item":
        R, key = t.a[0].a[0], t.a[0].a[1]
        if canon(key) is not canon(node) and row_node(key, D) is not row_node(node, D):
            return None, None, None
        K = t.a[1]
        for g, l, k, v in st.contents.get(R, ()):
            i = row_node(k, D)
            if not every_row(i, D):
                return None, None, None
            first = any(x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[0] == "in" and x.a[0].a[2] is R for x in g)
            if [x for x in g if not kind_of_index(x) and not (x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[2] is R)]:
                return None, None, None
            es = entries(st, v, K.a[0]) if v.op == "dict" else []
            if len(es) != 1 or [x for x in es[0][0] if x not in g]:
                return None, None, None
            c = cell(es[0][2], D)
            if c is None or c[0] is not i:
                return None, None, None
            return c[1], first, None
    if t.op == "item" and t.a[0].op == "dict":
        # one dictionary per relation
        R, key = t.a
        if canon(key) is not canon(node):
            return None, None, None
        for g, l, k, v in st.contents.get(R, ()):
            c = cell(v, D)
            first = any(x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[0] == "in" for x in g)
            return (c[1], first, None) if c is not None and c[0] is row_node(k, D) else (None, None, None)
    return None, None, None


def check(ctx):
    ctx.json_entry = {}
    ctx.hdf_cols = set()
    json_reader(ctx, json_writer(ctx))
    hdf_reader(ctx, hdf_writer(ctx))

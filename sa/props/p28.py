"""P28: every argument of an entry point reaches what it names."""

from ..lib import peel
from ..terms import attr, is_const, mk, subterms
from .p07 import UNK
from .p11 import Types, base_env

TITLE = "every argument of an entry point reaches what it names"
RULE = (
    "Value-flow of the from_* readers, to_hdf, tree and to_dot. Per entry point the call of its reader, writer or renderer is "
    "located and every parameter of the callee must be bound to exactly the argument of that meaning (the default metric for a "
    "metric not given), the result returned; with everything inlined, each argument must be used by something else than being "
    "stored, and the named sinks (cali-query's command line, pandas' read_hdf and to_hdf, the SpotDB run ids) must get it "
    "unchanged. The refusal of renamed keywords is evaluated for every combination of old and new keyword."
)

GF = "hatchet.graphframe.GraphFrame."
RD = "hatchet.readers."
# entry: (class, [(constructor parameter, argument)], method, [(method parameter, argument)])
WRAP = {
    "from_hpctoolkit": (RD + "hpctoolkit_reader.HPCToolkitReader", [("dir_name", "dirname")], "read", []),
    "from_caliper": (RD + "caliper_reader.CaliperReader", [("filename_or_stream", "filename_or_stream"), ("query", "query")], "read", []),
    "from_caliperreader": (RD + "caliper_native_reader.CaliperNativeReader", [("filename_or_caliperreader", "filename_or_caliperreader"),
                           ("native", "native"), ("string_attributes", "string_attributes")], "read", []),
    "from_timeseries": (RD + "caliper_native_reader.CaliperNativeReader", [("filename_or_caliperreader", "filename_or_caliperreader"),
                        ("native", "native"), ("string_attributes", "string_attributes")], "read_timeseries", [("level", "level")]),
    "from_spotdb": (RD + "spotdb_reader.SpotDBReader", [("db_key", "db_key"), ("list_of_ids", "list_of_ids")], "read", []),
    "from_gprof_dot": (RD + "gprof_dot_reader.GprofDotReader", [("filename", "filename")], "read", []),
    "from_cprofile": (RD + "cprofile_reader.CProfileReader", [("filename", "filename")], "read", []),
    "from_pyinstrument": (RD + "pyinstrument_reader.PyinstrumentReader", [("filename", "filename")], "read", []),
    "from_tau": (RD + "tau_reader.TAUReader", [("dirname", "dirname")], "read", []),
    "from_timemory": (RD + "timemory_reader.TimemoryReader", [("input", "input"), ("select", "select"), ("_kwargs", "_kwargs")], "read", []),
    "from_literal": (RD + "literal_reader.LiteralReader", [("graph_dict", "graph_dict")], "read", []),
    "from_json": (RD + "json_reader.JsonReader", [("json_spec", "json_spec")], "read", [("kwargs", "kwargs")]),
    "from_hdf": (RD + "hdf5_reader.HDF5Reader", [("filename", "filename")], "read", [("kwargs", "kwargs")]),
    "to_hdf": ("hatchet.writers.hdf5_writer.HDF5Writer", [("filename", "filename")], "write", [("gf", "self"), ("kwargs", "kwargs"), ("key", "key")]),
}
TREE = ("metric_column", "annotation_column", "precision", "name_column", "expand_name", "context_column", "rank", "thread", "depth",
        "highlight_name", "colormap", "invert_colormap", "colormap_annotations", "render_header", "min_value", "max_value")
RENAMED = {"metric": "metric_column", "name": "name_column", "expand_names": "expand_name", "context": "context_column",
           "invert_colors": "invert_colormap"}
# arguments that are accepted and, as documented, not needed
UNUSED_OK = {("from_json", "kwargs")}


def bare(t):
    """A parameter, whether gathered with * or ** or not."""
    return t.a[-1].strip("*") if t is not None and t.op == "param" else None


def bound(ev, name, pos):
    """The value a parameter of a callee is bound to."""
    if name in ev.kwargs:
        return ev.kwargs[name]
    rest = [k for k in ev.kwargs if k != "self"]
    if "**" in dict(ev.value.a[2]) and name == "kwargs":
        return dict(ev.value.a[2])["**"]
    return ev.kwargs[rest[pos]] if pos < len(rest) else None


class Entry:
    def __init__(self, ctx, name):
        self.ctx, self.name, self.q = ctx, name, GF + name
        self.f = ctx.repo.func(self.q)

    def obl(self, ok, what, msg, where=None):
        self.ctx.oblige(ok, what.split(":")[0], "%s:%s" % (self.q, what), msg, where or self.f.where)

    def is_arg(self, w, t, name):
        t = w.pick(t) if t is not None else None
        if t is None:
            return False
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("pop", "get") and t.a[1] and t.a[1][0].op == "const":
            # an entry taken out of a dictionary of options
            vs = option(w.st, t.a[0].a[0], t.a[1][0].a[0])
            return len(vs) == 1 and self.is_arg(w, vs[0], name)
        return t is mk("param", self.q, name) or bare(t) == name

    def unchanged(self, w, t, name):
        """The argument, possibly with its default filled in."""
        t = w.pick(t) if t is not None else None
        if self.is_arg(w, t, name):
            return True
        # a copy of the keyword options
        if t is not None and t.op == "dict" and t in w.st.contents:
            cs = w.st.contents[t]
            return len(cs) == 1 and not cs[0][0] and bare(peel(cs[0][3].a[0] if cs[0][3].op == "star" else cs[0][3])) == name
        return False


def method_of(ctx, cls, name):
    """The function a method name resolves to."""
    c = ctx.repo.classes.get(cls)
    return ctx.repo.lookup(c, name) if c is not None else None


def wrapper(ctx, name):
    e0 = Entry(ctx, name)
    cls, cparams, meth, mparams = WRAP[name]
    target = method_of(ctx, cls, meth)
    if target is None:
        e0.obl(False, "callee", "%s.%s not found" % (cls, meth))
        return
    ctor = cls + ".__init__"
    ip, res = ctx.analyze(e0.q, opaque=(ctor, target.qual, cls + "." + meth))
    st = res.state
    ctors = [e for e in ip.events if e.kind == "opaque" and e.name == ctor]
    calls = [e for e in ip.events if e.kind == "opaque" and e.name == target.qual]
    worlds = [("", {})]
    if name == "from_timemory":
        worlds = [("given", {mk("param", e0.q, "input"): "str"}), ("none", {mk("param", e0.q, "input"): "NoneType"})]
    for wn, types in worlds:
        w = Types(ip, st, base_env(ip), types)
        tag = ":" + wn if wn else ""
        run = [e for e in calls if w.holds(e.guard) is not False]
        new = [e for e in ctors if w.holds(e.guard) is not False]
        ok = len(run) == 1 and len(new) == 1 and w.holds(run[0].guard) is True and not run[0].loops
        e0.obl(ok and run[0].obj is new[0].obj, "callee" + tag, "%s does not call %s of one new %s" % (name, meth, cls.rsplit(".", 1)[1]))
        if not ok:
            continue
        ctx.count("wrappers", 1)
        for i, (p, a) in enumerate(cparams):
            v = bound(new[0], p, i)
            good = e0.unchanged(w, v, a)
            if wn == "none" and a == "input":
                v = w.pick(v) if v is not None else None
                good = v is not None and v.op == "call" and "timemory.get" in repr(v.a[0])
            if name == "from_caliper" and a == "query" and not good and v is not None:
                # a query that is not given may become an empty one
                good = v.op in ("ite", "or") and any(e0.is_arg(w, s, a) for s in list(ip.sources(v)) + list(v.a))
            e0.obl(good, "argument:%s%s" % (a, tag), "argument %s is not handed to %s as it is" % (a, cls.rsplit(".", 1)[1]), new[0].where)
        for i, (p, a) in enumerate(mparams):
            if p == "key":
                ks = dict(run[0].value.a[2])
                d = run[0].kwargs.get("kwargs")
                vs = [ks["key"]] if "key" in ks else [v for g, l, k, v in st.contents.get(d, ()) if k is not None and is_const(k, "key")] if d is not None else []
                good = len(vs) == 1 and e0.is_arg(w, vs[0], a)
            elif p == "kwargs":
                ks = dict(run[0].value.a[2])
                d = run[0].kwargs.get("kwargs")
                vs = [ks["**"]] if "**" in ks else []
                if d is not None:
                    vs += [d] + [v.a[0] if v.op == "star" else v for g, l, k, v in st.contents.get(d, ())]
                good = any(e0.unchanged(w, v, a) for v in vs)
            else:
                good = e0.unchanged(w, bound(run[0], p, i), a)
            e0.obl(good, "argument:%s%s" % (a, tag), "argument %s is not handed to %s() as it is" % (a, meth), run[0].where)
        if name.startswith("from_"):
            rets = [v for g, v in res.returns if w.holds(g) is not False]
            e0.obl(bool(rets) and all(w.pick(v) is run[0].value for v in rets), "result" + tag, "what %s read is not returned" % cls.rsplit(".", 1)[1])


def reach(t, st, depth=6):
    """Subterms, the contents of containers included."""
    seen, todo = set(), [(t, depth)]
    while todo:
        x, d = todo.pop()
        for s in subterms(x):
            if s in seen:
                continue
            seen.add(s)
            if d and s.op in ("list", "dict", "set") and s in st.contents:
                for g, l, k, v in st.contents[s]:
                    todo += [(y, d - 1) for y in list(g) + ([k] if k is not None else []) + [v]]
    return seen


def used(ctx, name):
    e0 = Entry(ctx, name)
    ip, res = ctx.analyze(e0.q)
    st = res.state
    got = set()
    for e in ip.events:
        # a shared dictionary: one look at each term
        if e.kind in ("new", "invoke", "reccall", "setattr", "return"):
            continue
        for x in [e.obj, e.value] + list(e.args) + list(e.kwargs.values()) + list(e.guard):
            if hasattr(x, "op"):
                got |= {bare(s) for s in reach(x, st) if s.op == "param"}
    for g, v in res.returns:
        for x in list(g) + [v]:
            got |= {bare(s) for s in reach(x, st) if s.op == "param"}
    params = [p for p in e0.f.all_params() if p != "self"]
    for p in params:
        if (name, p) in UNUSED_OK:
            continue
        ctx.count("arguments", 1)
        e0.obl(p in got, "used:" + p, "argument %s of %s has no effect" % (p, name))
    return ip, res


def option(st, d, key):
    """The values an entry of a dictionary may have."""
    return [v for g, l, k, v in st.contents.get(d, ()) if k is not None and is_const(k, key)]


def sinks(ctx):
    # pandas gets the file, key and options
    for name, fn in (("from_hdf", "pandas.read_hdf"), ("to_hdf", "to_hdf")):
        e0 = Entry(ctx, name)
        ip, res = ctx.analyze(e0.q)
        w = Types(ip, res.state, base_env(ip), {})
        calls = [e for e in ip.events if e.kind == "call" and e.name and e.name.split(".")[-1] == fn.split(".")[-1] and w.holds(e.guard) is not False]
        e0.obl(len(calls) == 1, "sink", "%s does not make exactly one call of pandas' %s" % (name, fn))
        if len(calls) != 1:
            continue
        c = calls[0]
        file = c.args[0] if c.args else c.kwargs.get("path_or_buf")
        e0.obl(e0.is_arg(w, file, "filename"), "sink:filename", "pandas does not get the file name that was given", c.where)
        if name == "to_hdf":
            key = c.args[1] if len(c.args) > 1 else c.kwargs.get("key")
            e0.obl(e0.is_arg(w, key, "key"), "sink:key", "pandas does not get the key that was given", c.where)
        no = [e for e in ip.events if e.kind == "raise" and "KeyError" in repr(e.value)]
        for e in no if name == "to_hdf" else ():
            env = {x: True for l in e.guard for x in subterms(l) if x.op == "cmp" and x.a[0] == "in" and is_const(x.a[1], "key")}
            g = Types(ip, res.state, {**base_env(ip), **env}, {})
            e0.obl(not (env and g.holds(e.guard) is True), "sink:refused", "writing is refused although a key was given", e.where)
        opts = c.kwargs.get("**")
        seen = reach(opts, res.state) if opts is not None else ()
        e0.obl(any(bare(s) == "kwargs" for s in seen if s.op == "param"), "sink:options", "pandas does not get the options that were given", c.where)
        extra = [e.where for e in ip.events if e.kind == "call" and e.obj is not None and e.obj is opts and e.name and e.name.split(".")[-1] in ("setdefault", "update")]
        extra += [c.where for g, l, k, v in res.state.contents.get(opts, ()) if opts is not None and k is not None and k.op == "const" and k.a[0] not in ("key", "**", None)]
        e0.obl(not extra, "sink:added", "options that were not given are added", extra[0] if extra else None)
        if name == "from_hdf":
            e0.obl(opts is not None and e0.is_arg(w, opts, "kwargs"), "sink:options2", "pandas does not get the options as they were given", c.where)
    # cali-query's command line
    e0 = Entry(ctx, "from_caliper")
    ip, res = ctx.analyze(e0.q)
    w = Types(ip, res.state, base_env(ip), {})
    cmds = []
    for e in ip.events:
        if e.kind == "call" and e.name and e.name.startswith("subprocess.") and e.args:
            a = peel(e.args[0])
            items = list(a.a) if a.op == "tuple" else [v for g, l, k, v in res.state.contents.get(a, ())]
            if items:
                cmds.append((e, items))
    e0.obl(len(cmds) == 1, "command", "cali-query is not started exactly once")
    for e, items in cmds:
        qs = [i for i, x in enumerate(items) if is_const(x, "-q")]
        ok = len(qs) == 1 and qs[0] + 1 < len(items) and "query" in {bare(s) for s in reach(items[qs[0] + 1], res.state)}
        ok = ok and (e0.is_arg(w, items[qs[0] + 1], "query") or items[qs[0] + 1].op in ("ite", "or"))
        e0.obl(ok, "command:query", "cali-query does not get the query that was given", e.where)
        e0.obl(any(e0.is_arg(w, x, "filename_or_stream") for x in items[1:]), "command:file", "cali-query does not get the file that was given", e.where)
    # the runs of a SpotDB
    e0 = Entry(ctx, "from_spotdb")
    ip, res = ctx.analyze(e0.q)
    ids = mk("param", e0.q, "list_of_ids")
    for ty, want in (("list", "given"), ("empty", "given"), ("NoneType", "all")):
        w = Given(ip, res.state, {**base_env(ip), mk("truth", ids): ty == "list"}, {ids: "list" if ty == "empty" else ty})
        calls = [e for e in ip.events if e.kind == "call" and e.name and e.name.split(".")[-1] == "get_regionprofiles" and w.holds(e.guard) is not False]
        ok = bool(calls)
        for c in calls:
            x = w.choose(c.args[0]) if c.args else None
            ok = ok and x is not None and (x is ids if want == "given" else "get_all_run_ids" in repr(x))
        e0.obl(ok, "runs:" + ty, "SpotDB is not asked for %s" % ("the runs that were given" if want == "given" else "all runs"), calls[0].where if calls else None)
    key = mk("param", e0.q, "db_key")
    for ty in ("str", "other"):
        w = Given(ip, res.state, base_env(ip), {key: ty, ids: "list"})
        con = [e for e in ip.events if e.kind == "call" and e.name and e.name.split(".")[-1] == "connect" and w.holds(e.guard) is not False]
        if ty == "str":
            e0.obl(len(con) == 1 and bool(con[0].args) and con[0].args[0] is key, "database:str", "spotdb.connect does not get the locator that was given")
        else:
            e0.obl(not con, "database:object", "a SpotDB object is treated as a locator")
    # metric names and levels of the native reader
    for n in ("from_caliperreader", "from_timeseries"):
        native(ctx, n)


class Given(Types):
    """`a or b` and conditional values under fixed types."""

    def ev(self, t):
        if t.op == "truth" and t not in self.env and t.a[0] in self.types:
            return self.types[t.a[0]] != "NoneType"
        return Types.ev(self, t)

    def choose(self, t):
        for _ in range(6):
            t = peel(self.pick(t))
            if t.op == "or":
                t = t.a[0] if self.ev(mk("truth", t.a[0])) is True else t.a[-1]
            else:
                return t
        return t


def alias(ip, w, t, depth=4):
    """Whether a readable metric name can be in a list or mapping of names."""
    for s in ip.sources(w.pick(t)):
        if s.op == "call" and s.a[0].op == "attr" and s.a[1] and is_const(s.a[1][0], "attribute.alias"):
            return True
        if s.op in ("list", "dict", "tuple") and depth:
            entries = [v for g, l, k, v in w.st.contents.get(s, ()) if w.holds(g) is not False]
            if any(alias(ip, w, v.a[0] if v.op == "star" else v, depth - 1) for v in entries):
                return True
    return False


def native(ctx, name):
    """Readable metric names replace the native ones exactly if those are not asked for."""
    e0 = Entry(ctx, name)
    ip, res = ctx.analyze(e0.q)
    p = mk("param", e0.q, "native")
    ren = [e for e in ip.events if e.kind == "call" and e.name and e.name.split(".")[-1] == "rename" or e.kind == "setattr" and e.name == "columns"]
    for val in (True, False):
        w = Types(ip, res.state, {**base_env(ip), p: val, mk("truth", p): val}, {})
        on = [e for e in ren if w.holds(e.guard) is not False and any(
            alias(ip, w, x) for x in ([e.value] if e.kind == "setattr" else list(e.args) + list(e.kwargs.values())) if hasattr(x, "op"))]
        if val:
            e0.obl(not on, "native:yes", "native metric names are replaced although they were asked for", on[0].where if on else None)
        else:
            e0.obl(bool(on), "native:no", "native metric names are not replaced by readable ones")


def tree(ctx):
    e0 = Entry(ctx, "tree")
    R = "hatchet.external.console.ConsoleRenderer.render"
    ip, res = ctx.analyze(e0.q, opaque=(R,))
    me = mk("param", e0.q, "self")
    calls = [e for e in ip.events if e.kind == "opaque" and e.name == R]
    e0.obl(len(calls) == 1 and not calls[0].guard, "callee", "tree does not render exactly once")
    if len(calls) == 1:
        c = calls[0]
        kw = {k: v for k, v in c.kwargs.items() if k != "self"}
        kw.update({k: v for k, v in c.value.a[2]})
        for k, v in list(kw.items()):
            if v.op == "dict" and k in ("kwargs", "**"):
                for g, l, kk, vv in res.state.contents.get(v, ()):
                    if kk is not None and kk.op == "const" and not g:
                        kw.setdefault(kk.a[0], vv)
        graph = attr(attr(me, "graph"), "roots")
        e0.obl(any(v is graph for v in list(c.args)[:2] + list(kw.values())), "argument:roots", "tree does not render the roots of the graph", c.where)
        e0.obl(any(v is attr(me, "dataframe") for v in list(c.args)[:3] + list(kw.values())), "argument:dataframe", "tree does not render the table", c.where)
        for a in TREE:
            p = mk("param", e0.q, a)
            for ty in ("NoneType", "str") if a == "metric_column" else ("",):
                w = Types(ip, res.state, base_env(ip), {p: ty} if ty else {})
                v = w.pick(kw[a]) if a in kw else None
                want = attr(me, "default_metric") if ty == "NoneType" else p
                e0.obl(v is want, "argument:%s%s" % (a, ":" + ty if ty else ""), "the renderer does not get argument %s of tree as it is" % a, c.where)
        rets = [v for g, v in res.returns]
        e0.obl(len(rets) == 1 and rets[0] is c.value, "result", "what was rendered is not returned")
    # the dot writer
    e1 = Entry(ctx, "to_dot")
    D = "hatchet.util.dot.trees_to_dot"
    if D in ctx.repo.functions:
        ip, res = ctx.analyze(e1.q, opaque=(D,))
        me = mk("param", e1.q, "self")
        calls = [e for e in ip.events if e.kind == "opaque" and e.name == D]
        for c in calls:
            for a in ("metric", "name", "rank", "thread", "threshold"):
                p = mk("param", e1.q, a)
                for ty in ("NoneType", "str") if a == "metric" else ("",):
                    w = Types(ip, res.state, base_env(ip), {p: ty} if ty else {})
                    v = c.kwargs.get(a)
                    want = attr(me, "default_metric") if ty == "NoneType" else p
                    e1.obl(v is None or w.pick(v) is want, "argument:%s%s" % (a, ":" + ty if ty else ""), "the dot writer does not get argument %s of to_dot as it is" % a, c.where)
    # inside the renderer every option has its own field
    f = ctx.repo.func(R)
    ip, res = ctx.analyze(R)
    opts = mk("param", R, "kwargs")
    holders = {}
    for e in ip.events:
        if e.kind == "setattr" and e.obj is mk("param", R, "self"):
            ks = {s.a[1].a[0] for s in subterms(e.value) if s.op == "item" and s.a[1].op == "const" and bare(s.a[0]) == "kwargs"} if e.value is not None else set()
            if e.value is not None and e.value.op == "item" and len(ks) == 1:
                holders.setdefault(e.name, set()).update(ks)
    for fld, ks in holders.items():
        ctx.oblige(len(ks) == 1, "option", R + ":" + str(fld), "field %s of the renderer holds several options: %s" % (fld, ", ".join(sorted(ks))), f.where)
    # decorators
    deco = {}
    import ast

    for d in e0.f.node.decorator_list:
        if isinstance(d, ast.Call) and ast.unparse(d.func).split(".")[-1] == "deprecated_params":
            for k in d.keywords:
                deco[k.arg] = k.value.value if isinstance(k.value, ast.Constant) else "?"
    params = e0.f.all_params()
    for old, new in RENAMED.items():
        ctx.count("renamed", 1)
        e0.obl(deco.get(old) == new, "renamed:" + old, "the renamed keyword %s= of tree is not refused with a hint to %s=" % (old, new))
    for old, new in deco.items():
        e0.obl(old not in params and (not new or new in params), "renamed2:%s" % old, "tree refuses its own parameter %s or hints to %r, which it does not have" % (old, new))


def deprecated(ctx):
    RK = "hatchet.util.deprecated.rename_kwargs"
    f = ctx.repo.func(RK)
    ip, res = ctx.analyze(RK)
    m, kw = mk("param", RK, "old_to_new"), [s for e in ip.events for l in e.guard for s in subterms(l) if s.op == "param" and bare(s) == "kwargs"]
    kw = kw[0] if kw else mk("param", RK, "kwargs")
    terms = {s for e in ip.events for l in e.guard for s in subterms(l)}

    def which(t):
        if t.op == "key" and t.a[0] is m or t.op == "item" and t.a[0].op == "elem" and "items" in repr(t.a[0].a[0]) and is_const(t.a[1], 0):
            return "old"
        if t.op == "elem" and t.a[0] in (m,) or t.op == "elem" and t.a[0].op == "call" and "keys" in repr(t.a[0].a[0]):
            return "old"
        if t.op == "val" and t.a[0] is m or t.op == "item" and t.a[0] is m or t.op == "item" and t.a[0].op == "elem" and is_const(t.a[1], 1):
            return "new"
        return None

    raises = [e for e in ip.events if e.kind == "raise"]
    for old in (True, False):
        for new in (True, False):
            for removed in (True, False):
                if removed and new:
                    continue
                env = {}
                for s in terms:
                    if s.op == "cmp" and s.a[0] == "in" and (s.a[2] is kw or bare(s.a[2]) == "kwargs") and which(s.a[1]):
                        env[s] = {"old": old, "new": new}[which(s.a[1])]
                    if s.op == "truth" and which(s.a[0]) == "new":
                        env[s] = not removed
                    if s.op == "cmp" and s.a[0] in ("is", "==") and which(s.a[1]) == "new" and s.a[2].op == "const" and s.a[2].a[0] in (None, ""):
                        env[s] = removed
                w = Types(ip, res.state, env, {})
                hit = [e for e in raises if w.holds(e.guard) is not False]
                sure = [e for e in hit if w.holds(e.guard) is True]
                tag = "%s:%s%s%s" % (RK, "old" if old else "-", "+new" if new else "", ":removed" if removed else "")
                if not old:
                    ctx.oblige(not hit, "refusal", tag, "a call without a renamed keyword is refused", f.where)
                else:
                    want = "TypeError" if new else "ValueError"
                    ctx.oblige(bool(sure) and want in repr(min(sure, key=lambda e: e.idx).value), "refusal", tag, "a renamed keyword%s is not refused with %s" % (
                        " given together with its replacement" if new else "", want), f.where)
                    if sure and not new and not removed:
                        v = min(sure, key=lambda e: e.idx).value
                        ctx.oblige(any(which(s) == "new" for s in reach(v, res.state)), "refusal", tag + ":hint", "the refusal of a renamed keyword does not name its replacement", f.where)
    W = [q for q in ctx.repo.functions if q.startswith("hatchet.util.deprecated.deprecated_params.<locals>") and q.count("<locals>") == 2]
    ctx.oblige(len(W) == 1, "decorator", "hatchet.util.deprecated:wrapper", "the wrapper made by deprecated_params was not found", f.where)
    for q in W:
        ip, res = ctx.analyze(q, opaque=(RK,))
        f = ctx.repo.func(q)
        chk = [e for e in ip.events if e.kind == "opaque" and e.name == RK]
        ok = len(chk) == 1 and not chk[0].guard and not chk[0].loops
        ok = ok and bare(chk[0].kwargs.get("kwargs")) == "kwargs" and "old_to_new" in repr(chk[0].kwargs.get("old_to_new"))
        ctx.oblige(ok, "decorator", q + ":check", "not every call of a decorated function is checked for renamed keywords", f.where)
        rets = [v for g, v in res.returns]
        ok2 = len(rets) == 1 and rets[0].op == "call" and len(rets[0].a[1]) == 1 and rets[0].a[1][0].op == "star" and bare(rets[0].a[1][0].a[0]) == "args"
        ok2 = ok2 and bare(dict(rets[0].a[2]).get("**")) == "kwargs"
        ctx.oblige(ok2, "decorator", q + ":call", "a decorated function is not called with all the arguments, or its result is not returned", f.where)
        call = [e for e in ip.events if e.kind == "call" and rets and e.value is rets[0]]
        ctx.oblige(bool(call) and bool(chk) and chk[0].idx < call[0].idx, "decorator", q + ":order", "renamed keywords are checked only after the call", f.where)


def check(ctx):
    for name in WRAP:
        wrapper(ctx, name)
        used(ctx, name)
    for name in ("tree", "to_dot", "to_flamegraph", "to_literal"):
        used(ctx, name)
    sinks(ctx)
    tree(ctx)
    deprecated(ctx)
    ctx.need("wrappers", 12)
    ctx.need("arguments", 40)
    ctx.need("renamed", 5)

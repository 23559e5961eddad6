"""Models of the language's and libraries' operations the repository uses, and
the declared types of the repository's own fields, parameters and results."""

from .terms import mk, const, NONE, TRUE, FALSE, is_const, attr, cmp

NODE = ("C", "hatchet.node.Node")
FRAME = ("C", "hatchet.frame.Frame")
GRAPH = ("C", "hatchet.graph.Graph")
GF = ("C", "hatchet.graphframe.GraphFrame")
DF = ("df",)
STR = ("str",)

FIELD_TYPES = {
    ("hatchet.node.Node", "frame"): FRAME,
    ("hatchet.node.Node", "parents"): ("L", NODE),
    ("hatchet.node.Node", "children"): ("L", NODE),
    ("hatchet.node.Node", "_hatchet_nid"): ("int",),
    ("hatchet.node.Node", "_depth"): ("int",),
    ("hatchet.frame.Frame", "attrs"): ("D", STR, None),
    ("hatchet.graph.Graph", "roots"): ("L", NODE),
    ("hatchet.graph.Graph", "node_ordering"): ("bool",),
    ("hatchet.graphframe.GraphFrame", "graph"): GRAPH,
    ("hatchet.graphframe.GraphFrame", "dataframe"): DF,
    ("hatchet.graphframe.GraphFrame", "exc_metrics"): ("L", None),
    ("hatchet.graphframe.GraphFrame", "inc_metrics"): ("L", None),
    ("hatchet.graphframe.GraphFrame", "metadata"): ("D", STR, None),
    ("hatchet.graphframe.GraphFrame", "query_engine"): ("C", "hatchet.query.engine.QueryEngine"),
    ("hatchet.query.engine.QueryEngine", "search_cache"): ("D", None, None),
    ("hatchet.query.query.Query", "query_pattern"): ("L", None),
    ("hatchet.query.compound.CompoundQuery", "subqueries"): ("L", None),
}

PARAM_TYPES = {}
for _m in ("add", "sub", "div", "mul", "__add__", "__sub__", "__mul__", "__truediv__",
           "__iadd__", "__isub__", "__imul__", "__idiv__", "__itruediv__", "unify", "_operator",
           "_insert_missing_rows"):
    PARAM_TYPES[("hatchet.graphframe.GraphFrame.%s" % _m, "other")] = GF
PARAM_TYPES.update({
    ("hatchet.graphframe.GraphFrame.__init__", "graph"): GRAPH,
    ("hatchet.graphframe.GraphFrame.__init__", "dataframe"): DF,
    ("hatchet.graph.Graph.union", "other"): GRAPH,
    ("hatchet.graph.Graph.__eq__", "other"): GRAPH,
    ("hatchet.graph.Graph.__ne__", "other"): GRAPH,
    ("hatchet.graph.Graph.__init__", "roots"): ("L", NODE),
    ("hatchet.graph.Graph.merge_nodes", "merges"): ("D", NODE, NODE),
    ("hatchet.graph.Graph.copy", "old_to_new"): ("D", NODE, NODE),
    ("hatchet.graph.Graph.union", "old_to_new"): ("D", ("int",), NODE),
    ("hatchet.node.Node.add_parent", "node"): NODE,
    ("hatchet.node.Node.add_child", "node"): NODE,
    ("hatchet.node.Node.dag_equal", "other"): NODE,
    ("hatchet.node.Node.__eq__", "other"): NODE,
    ("hatchet.node.Node.__lt__", "other"): NODE,
    ("hatchet.node.Node.__gt__", "other"): NODE,
    ("hatchet.node.Node.__init__", "frame_obj"): FRAME,
    ("hatchet.frame.Frame.__eq__", "other"): FRAME,
    ("hatchet.frame.Frame.__lt__", "other"): FRAME,
    ("hatchet.frame.Frame.__gt__", "other"): FRAME,
    ("hatchet.node.traversal_order", "node"): NODE,
    ("hatchet.node.node_traversal_order", "node"): NODE,
    ("hatchet.query.engine.QueryEngine.apply", "graph"): GRAPH,
    ("hatchet.query.engine.QueryEngine.apply", "dframe"): DF,
    ("hatchet.query.engine.QueryEngine._cache_node", "node"): NODE,
    ("hatchet.query.engine.QueryEngine._cache_node", "dframe"): DF,
    ("hatchet.query.engine.QueryEngine._match_0_or_more", "node"): NODE,
    ("hatchet.query.engine.QueryEngine._match_1", "node"): NODE,
    ("hatchet.query.engine.QueryEngine._match_pattern", "pattern_root"): NODE,
    ("hatchet.query.engine.QueryEngine._apply_impl", "node"): NODE,
    ("hatchet.util.dot.trees_to_dot", "roots"): ("L", NODE),
    ("hatchet.util.dot.trees_to_dot", "dataframe"): DF,
    ("hatchet.util.dot.to_dot", "hnode"): NODE,
    ("hatchet.util.dot.to_dot", "dataframe"): DF,
    ("hatchet.external.console.ConsoleRenderer.render", "roots"): ("L", NODE),
    ("hatchet.external.console.ConsoleRenderer.render", "dataframe"): DF,
    ("hatchet.external.console.ConsoleRenderer.render_frame", "node"): NODE,
    ("hatchet.external.console.ConsoleRenderer.render_frame", "dataframe"): DF,
})

RETURN_TYPES = {
    "hatchet.node.Node.traverse": ("I", NODE),
    "hatchet.node.Node.node_order_traverse": ("I", NODE),
    "hatchet.graph.Graph.traverse": ("I", NODE),
    "hatchet.graph.Graph.node_order_traverse": ("I", NODE),
    "hatchet.node.Node.copy": NODE,
    "hatchet.frame.Frame.copy": FRAME,
    "hatchet.graph.Graph.copy": GRAPH,
    "hatchet.graph.Graph.union": GRAPH,
    "hatchet.graph.Graph.find_merges": ("D", NODE, NODE),
    "hatchet.graph.Graph.normalize": ("D", NODE, NODE),
    "hatchet.graphframe.GraphFrame.copy": GF,
    "hatchet.graphframe.GraphFrame.squash": GF,
    "hatchet.graphframe.GraphFrame.filter": GF,
    "hatchet.node.Node.path": ("tupof", NODE),
}

IMPURE = set()
# library calls that make a new list every time
FRESH_LISTS = {"glob.glob", "os.listdir"}

# methods resolved by name alone when the receiver's type is unknown: the names
# are unique to one class family of the repository and to no library it uses
CHA_METHODS = {
    "add_child": "hatchet.node.Node",
    "add_parent": "hatchet.node.Node",
    "enumerate_traverse": "hatchet.graph.Graph",
    "enumerate_depth": "hatchet.graph.Graph",
    "node_order_traverse": "hatchet.graph.Graph",
}

MUTATORS = {
    "append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update",
    "add", "discard", "setdefault", "popitem", "appendleft", "popleft",
    "intersection_update", "difference_update", "symmetric_difference_update", "put",
}


def elem_type(ip, bt):
    if not bt:
        return None
    if bt[0] in ("L", "I", "S", "tupof"):
        return bt[1]
    if bt[0] == "D":
        return bt[1]
    if bt[0] == "series":
        return bt[1] if len(bt) > 1 else None
    return None


def attr_type(ip, bt, name, t):
    if not bt:
        return None
    if bt[0] == "C":
        c = ip.repo.classes.get(bt[1])
        if c is not None:
            for k in ip.repo.mro(c):
                r = ip.field_types.get((k.qual, name))
                if r is not None:
                    return r
        return None
    if bt[0] == "df":
        if name in ("loc", "iloc", "at", "iat"):
            return ("dfloc",)
        if name in ("columns", "index"):
            return ("dfindex",)
        if name == "T":
            return DF
        if name == "values":
            return ("arr",)
    if bt[0] == "series" and name == "values":
        return ("arr",)
    return None


def item_type(ip, bt, k, t):
    if not bt:
        return None
    if bt[0] in ("L", "tupof"):
        if k.op == "slice":
            return bt
        return bt[1]
    if bt[0] == "D":
        return bt[2]
    if bt[0] == "df":
        if k.op in ("list",) or k.op == "cmp":
            return DF
        if k.op in ("const", "str"):
            return ("series", NODE if is_const(k, "node") else None)
        kt = ip.typeof(k)
        if kt and kt[0] == "str":
            return ("series",)
        if kt and kt[0] in ("L", "series", "arr"):
            return DF
        return ("dfpart",)
    return None


FRESH_DF = {
    "copy", "reset_index", "set_index", "sort_index", "assign", "drop", "groupby", "agg",
    "merge", "join", "fillna", "rename", "astype", "replace", "concat", "sort_values", "apply",
    "aggregate", "head", "tail", "add", "sub", "mul", "div", "divide", "multiply", "pivot_table",
    "sum", "mean", "drop_duplicates", "dropna", "transform", "query", "isin", "isna", "map",
}


def call_type(ip, t):
    f = t.a[0]
    if f.op == "ext":
        n = f.a[0]
        a = t.a[1]
        if n in ("builtins.sorted", "builtins.list"):
            return ("L", elem_type(ip, ip.typeof(a[0])) if a else None)
        if n in ("builtins.set", "builtins.frozenset"):
            return ("S", elem_type(ip, ip.typeof(a[0])) if a else None)
        if n in ("builtins.reversed", "builtins.iter", "builtins.filter"):
            return ("I", elem_type(ip, ip.typeof(a[-1])) if a else None)
        if n == "builtins.tuple":
            return ("tupof", elem_type(ip, ip.typeof(a[0])) if a else None)
        if n == "builtins.next":
            return elem_type(ip, ip.typeof(a[0])) if a else None
        if n in ("builtins.min", "builtins.max") and len(a) == 1:
            return elem_type(ip, ip.typeof(a[0]))
        if n in ("builtins.len", "builtins.int", "builtins.id", "builtins.hash"):
            return ("int",)
        if n in ("builtins.str", "builtins.repr", "json.dumps"):
            return STR
        if n == "builtins.float":
            return ("float",)
        if n in ("builtins.dict", "collections.OrderedDict", "collections.defaultdict", "copy.copy.dict"):
            return ("D", None, None)
        if n in ("copy.copy", "copy.deepcopy") and a:
            return ip.typeof(a[0])
        if n in ("pandas.DataFrame", "pandas.concat", "pandas.merge", "pandas.DataFrame.from_dict",
                 "pandas.DataFrame.from_records", "pandas.read_csv", "pandas.read_hdf", "pandas.json_normalize"):
            return DF
        if n == "pandas.Series":
            return ("series",)
        if n.startswith("numpy.") and n.split(".")[-1] in ("array", "zeros", "full", "ones", "vstack", "empty", "asarray"):
            return ("arr",)
        if n == "collections.deque":
            return ("L", None)
        return None
    if f.op == "fn":
        return RETURN_TYPES.get(f.a[0])
    if f.op == "attr":
        b, n = f.a[0], f.a[1]
        bt = ip.typeof(b)
        if bt is None:
            if n in ("format", "join", "strip", "lower", "upper", "rstrip", "lstrip") :
                return STR if n in ("format", "join") else None
            return None
        if bt[0] == "D":
            if n in ("get", "pop", "setdefault"):
                return bt[2]
            if n in ("values",):
                return ("I", bt[2])
            if n == "keys":
                return ("I", bt[1])
            if n == "copy":
                return bt
            if n == "items":
                return None
        if bt[0] in ("L", "S"):
            if n in ("copy", "union", "intersection", "difference", "symmetric_difference"):
                return bt
            if n in ("pop", "popleft"):
                return bt[1]
        if bt[0] == "df":
            if n == "groupby":
                return ("groupby",)
            if n in ("apply",):
                return None
            if n in FRESH_DF:
                return DF
        if bt[0] == "groupby" and n in ("agg", "aggregate", "sum", "mean", "apply"):
            return DF
        if bt[0] == "series":
            if n in ("apply", "map", "astype", "fillna", "copy", "replace"):
                return ("series", None)
            if n in ("tolist", "to_list", "unique"):
                return ("L", bt[1] if len(bt) > 1 else None)
        if bt[0] == "dfindex" and n in ("tolist", "to_list"):
            return ("L", None)
        if bt[0] == "str":
            if n in ("format", "join", "strip", "lower", "upper", "rstrip", "lstrip", "replace"):
                return STR
            if n in ("split", "splitlines", "rsplit"):
                return ("L", STR)
    return None


# ---------------------------------------------------------------- call models


def ext_call(ip, n, args, kwargs, st, node):
    """Call of a library / builtin function known by its dotted name."""
    f = mk("ext", n)
    short = n[len("builtins."):] if n.startswith("builtins.") else None

    def pure():
        r = mk("call", f, tuple(args), tuple(sorted(kwargs.items())))
        ip.emit("call", st, node, fn=f, name=n, args=tuple(args), kwargs=dict(kwargs), value=r)
        return r

    if n in FRESH_LISTS:
        return ip.opaque_call(f, args, kwargs, st, node, name=n, unique=True)
    if short == "isinstance" and len(args) == 2:
        d = _isinstance(ip, args[0], args[1], st)
        if d is not None:
            return const(d)
        r = mk("call", f, tuple(args), ())
        return r
    if short == "issubclass" and len(args) == 2:
        return mk("call", f, tuple(args), ())
    if short == "type" and len(args) == 1:
        return mk("call", f, tuple(args), ())
    if short == "getattr" and len(args) >= 2 and args[1].op == "const" and isinstance(args[1].a[0], str):
        return ip.getattr(args[0], args[1].a[0], st, node)
    if short == "setattr" and len(args) == 3 and args[1].op == "const":
        ip._setattr(args[0], args[1].a[0], args[2], st, node)
        return NONE
    if short in ("list", "tuple", "set", "dict", "frozenset") or n in (
        "collections.defaultdict", "collections.OrderedDict", "collections.deque",
    ):
        kind = {"list": "list", "tuple": "list", "set": "set", "frozenset": "set", "dict": "dict"}.get(short)
        if kind is None:
            kind = "list" if n.endswith("deque") else "dict"
        src = args[-1] if args and not (n.endswith("defaultdict") and len(args) == 1) else None
        if short == "tuple" and src is not None and src.op == "tuple":
            return src
        if short == "tuple" and src is None:
            return mk("tuple")
        t = mk(kind, ip.site(node) + (("copy",) if src is not None else ("empty",)))
        st.contents[t] = ()
        if src is not None:
            if src.op == "tuple":
                for x in src.a:
                    ip._content_add2(t, st, None, x)
            else:
                ip._content_add2(t, st, None, mk("star", src))
                if src.op == "dict":
                    for k, v in list(st.heap.items()):
                        if k[0] is src and isinstance(k[1], tuple):
                            st.heap[(t, k[1])] = v
        for k, v in kwargs.items():
            if kind == "dict":
                ip._content_add2(t, st, const(k), v)
                st.heap[(t, ("item", const(k)))] = v
        ip.emit("alloc", st, node, obj=t, name=n, args=tuple(args), kwargs=dict(kwargs), value=t)
        if n.endswith("defaultdict") and args:
            # values materialise through the factory
            if args[0].op == "fn" or args[0].op == "ext":
                ip.alloc_types[t] = args[0]
        return t
    if short == "str" and len(args) == 1:
        if args[0].op == "const" and isinstance(args[0].a[0], str):
            return args[0]
        if args[0].op == "str":
            return args[0]
        r = mk("call", f, tuple(args), ())
        return r
    if short == "bool" and len(args) == 1:
        return ip.truth(args[0])
    if short == "super":
        return mk("opaque", "super")
    if short in ("map", "filter") and len(args) == 2 and args[0].op in ("fn", "bound"):
        lid = ip._loopid(node)
        sub_guard = st.guard
        ip.loops.append(lid)
        x = ip.elem(args[1], lid, st)
        v = ip.call_value(args[0], [x], {}, st, node)
        ip.loops.pop()
        t = mk("list", ip.site(node) + (short,))
        if short == "map":
            st.contents[t] = ((st.guard, tuple(ip.loops) + (lid,), None, v),)
        else:
            c = ip.truth(v)
            st.contents[t] = ((st.guard + (c,), tuple(ip.loops) + (lid,), None, x),)
        return t
    if n == "functools.partial" and args:
        return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
    if n in ("operator.attrgetter", "operator.itemgetter") and len(args) == 1:
        return mk("getter", n.split(".")[-1], args[0])
    if n.startswith("operator."):
        o = n.split(".")[-1]
        ops = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "and_": "&", "or_": "|", "xor": "^"}
        cm = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
        if o in ops and len(args) == 2:
            return ip.binop(ops[o], args[0], args[1])
        if o in cm and len(args) == 2:
            return ip.compare(cm[o], args[0], args[1], st)
    if n == "copy.copy" and args:
        a0 = args[0]
        if a0.op in ("list", "dict", "set") or (ip.typeof(a0) or ("",))[0] in ("L", "D", "S"):
            kind = a0.op if a0.op in ("list", "dict", "set") else {"L": "list", "D": "dict", "S": "set"}[ip.typeof(a0)[0]]
            t = mk(kind, ip.site(node) + ("copy",))
            st.contents[t] = ((st.guard, tuple(ip.loops), None, mk("star", a0)),)
            ip.emit("alloc", st, node, obj=t, name=n, args=tuple(args), kwargs={}, value=t)
            return t
    if short == "enumerate" or short == "zip" or short in ("sorted", "reversed", "iter", "range", "len", "min", "max"):
        # callable keys passed to sorted/min/max are evaluated on an element
        key = kwargs.get("key")
        if key is not None and key.op in ("fn", "bound") and args:
            lid = ip._loopid(node)
            ip.loops.append((lid[0], lid[1] + "k"))
            x = ip.elem(args[0], lid, st)
            kv = ip.call_value(key, [x], {}, st, node)
            ip.loops.pop()
            kw = dict(kwargs)
            r = mk("call", f, tuple(args), tuple(sorted(kw.items())))
            ip.emit("call", st, node, fn=f, name=n, args=tuple(args), kwargs=dict(kwargs), value=r)
            ip.keyvals = getattr(ip, "keyvals", {})
            ip.keyvals[r] = (x, kv)
            return r
        return pure()
    if short == "next" or short in ("open", "input") or n in ("id",):
        return ip.opaque_call(f, args, kwargs, st, node, name=n, unique=True)
    if short == "setattr":
        ip.emit("setattr", st, node, obj=args[0], name="*", value=args[2] if len(args) > 2 else None)
        return NONE
    # callbacks handed to a library function are considered called
    _callbacks(ip, f, args, kwargs, st, node)
    return pure()


def _callbacks(ip, f, args, kwargs, st, node):
    for a in list(args) + list(kwargs.values()):
        if a.op in ("fn", "bound"):
            q = a.a[0] if a.op == "fn" else a.a[0].a[0]
            fi = ip.repo.functions.get(q)
            if fi is None or q in ip.stack:
                continue
            pars = fi.params()
            n = len(pars) - (1 if a.op == "bound" else 0) - len(fi.defaults())
            lid = ip._loopid(node)
            lid = (lid[0], lid[1] + "cb")
            ip.loops.append(lid)
            guard, facts = st.guard, st.facts
            recv = f.a[0] if f.op == "attr" else f
            xs = [mk("cbarg", recv, const(i), lid) for i in range(max(n, 0))]
            if f.op == "attr" and f.a[1] in ("apply", "map") and len(xs) == 1:
                xs = [mk("elem", recv, lid)]
            sub = st.copy()
            v = ip.call_value(a, xs, {}, sub, node)
            st.contents = sub.contents
            st.heap = sub.heap
            ip.loops.pop()
            ip.cbvals[(f, a)] = (xs, v)


def _isinstance(ip, x, c, st):
    cs = list(c.a) if c.op == "tuple" else [c]
    ty = ip.typeof(x)
    res = []
    for k in cs:
        if k.op == "cls":
            if ty and ty[0] == "C":
                kc = ip.repo.classes.get(ty[1])
                if kc is not None:
                    if ip.repo.is_subclass(kc, k.a[0]):
                        res.append(True)
                        continue
                    tgt = ip.repo.classes.get(k.a[0])
                    if tgt is not None and kc in ip.repo.mro(tgt):
                        res.append(None)  # could be the subclass
                        continue
                    res.append(False)
                    continue
            if ty and x.op in ("const", "list", "dict", "set", "tuple", "str"):
                res.append(False)
                continue
            res.append(None)
        elif k.op == "ext":
            m = {"builtins.str": "str", "builtins.int": "int", "builtins.float": "float", "builtins.list": "list",
                 "builtins.dict": "dict", "builtins.tuple": "tuple", "builtins.set": "set", "builtins.bool": "bool"}.get(k.a[0])
            if m is None:
                if x.op in ("const", "list", "dict", "set", "tuple") and ty and ty[0] != "C" and k.a[0].startswith(("pandas.", "numpy.")):
                    res.append(False)
                else:
                    res.append(None)
                continue
            if x.op == "const":
                v = x.a[0]
                pt = {"str": str, "int": int, "float": float, "list": list, "dict": dict, "tuple": tuple, "set": set, "bool": bool}[m]
                res.append(isinstance(v, pt))
            elif x.op in ("list", "dict", "set", "tuple"):
                if x.op == "list" and x.a[0][-1] == "copy" and m in ("tuple",):
                    res.append(None)
                else:
                    res.append(x.op == m)
            elif x.op == "str":
                res.append(m == "str")
            elif ty and ty[0] == "C":
                res.append(False)
            else:
                res.append(None)
        else:
            res.append(None)
    if any(r is True for r in res):
        return True
    if res and all(r is False for r in res):
        return False
    return None


def method(ip, b, name, args, kwargs, st, node):
    """Method call whose receiver is not a repository object (or whose class
    does not define the method)."""
    f = attr(b, name)
    # string formatting
    if name == "format" and (b.op == "const" and isinstance(b.a[0], str)):
        from .gvf import strformat

        r = strformat(b.a[0], args, kwargs)
        if r is not None:
            return r
    if b.op == "const" and isinstance(b.a[0], str) and all(a.op == "const" for a in args) and not kwargs:
        if name in ("lower", "upper", "strip", "title", "startswith", "endswith", "capitalize"):
            try:
                return const(getattr(b.a[0], name)(*[a.a[0] for a in args]))
            except Exception:
                pass
    if name == "join" and b.op == "const" and args and args[0].op in ("list", "tuple"):
        items = list(args[0].a) if args[0].op == "tuple" else None
        if items is None:
            ents = st.contents.get(args[0], ())
            if all(e[1] == tuple(ip.loops) and e[3].op != "star" and e[0] == st.guard for e in ents):
                items = [e[3] for e in ents]
        if items is not None:
            from .gvf import mkstr

            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(b)
                parts.append(x)
            return mkstr(parts)
    ty = ip.typeof(b)
    if b.op in ("list", "set", "dict") or (ty and ty[0] in ("L", "S", "D")):
        r = _container(ip, b, name, args, kwargs, st, node, ty)
        if r is not None:
            return r
    unique = name in ("pop", "popleft", "get_nowait", "read", "readline", "readlines", "popitem") or (
        name == "get" and ty is None and not args
    )
    _callbacks(ip, f, args, kwargs, st, node)
    return ip.opaque_call(f, args, kwargs, st, node, obj=b, name=name, unique=unique)


def _container(ip, b, name, args, kwargs, st, node, ty):
    f = attr(b, name)

    def ev(value=NONE):
        ip.emit("call", st, node, fn=f, obj=b, name=name, args=tuple(args), kwargs=dict(kwargs), value=value)
        return value

    if name in ("append", "add", "appendleft") and len(args) == 1:
        ip._content_add(b, st, None, args[0])
        return ev()
    if name == "insert" and len(args) == 2:
        ip._content_add(b, st, None, args[1])
        return ev()
    if name in ("extend", "update") and len(args) == 1:
        if b.op == "set" or b.op == "list" or not (args[0].op == "dict"):
            ip._content_add(b, st, None, mk("star", args[0]))
        else:
            for e in st.contents.get(args[0], ()):
                ip._content_add(b, st, e[2], e[3])
                if e[2] is not None:
                    st.heap[(b, ("item", e[2]))] = e[3]
        return ev()
    if name == "update" and kwargs:
        for k, v in kwargs.items():
            ip._content_add(b, st, const(k), v)
            st.heap[(b, ("item", const(k)))] = v
        return ev()
    if name == "copy" and not args:
        kind = b.op if b.op in ("list", "set", "dict") else {"L": "list", "S": "set", "D": "dict"}.get(ty[0], "list")
        t = mk(kind, ip.site(node) + ("copy",))
        st.contents[t] = ((st.guard, tuple(ip.loops), None, mk("star", b)),)
        ip.emit("alloc", st, node, obj=t, name="copy", args=(b,), value=t)
        return t
    if name in ("get",) and (b.op == "dict" or (ty and ty[0] == "D")) and args:
        k = args[0]
        d = args[1] if len(args) > 1 else NONE
        h = st.heap.get((b, ("item", k)))
        if h is not None and k.op == "const":
            return h
        if b.op == "dict" and k.op != "const":
            ents = st.contents.get(b, ())
            # a table of functions/constants: gate on the key
            if ents and all(e[2] is not None and e[2].op in ("const", "cls", "ext") and e[3].op in ("fn", "bound", "cls", "ext", "const", "attr") and not e[1] for e in ents) and len(ents) <= 24:
                from .terms import ite

                r = d
                for e in reversed(ents):
                    r = ite(cmp("==", k, e[2]), e[3], r)
                return r
        r = mk("call", f, tuple(args), tuple(sorted(kwargs.items())))
        return r
    if name == "setdefault" and len(args) >= 1:
        r = mk("item", b, args[0])
        ip._content_add(b, st, args[0], args[1] if len(args) > 1 else NONE)
        ip.emit("call", st, node, fn=f, obj=b, name=name, args=tuple(args), value=r)
        return r
    if name in ("items", "keys", "values"):
        return mk("call", f, (), ())
    if name in ("pop", "popleft", "popitem"):
        return ip.opaque_call(f, args, kwargs, st, node, obj=b, name=name, unique=True,
                              rtype=(ty[1] if ty and ty[0] in ("L", "S") else ty[2] if ty and ty[0] == "D" else None))
    if name in ("union", "intersection", "difference", "symmetric_difference") and (b.op == "set" or (ty and ty[0] == "S")):
        r = mk("call", f, tuple(args), ())
        ip.emit("call", st, node, fn=f, obj=b, name=name, args=tuple(args), value=r)
        return r
    return None

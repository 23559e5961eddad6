"""P20: library calls leave the process as they found it."""

import ast

from ..repo import own_nodes

TITLE = "library calls leave the process as they found it"
RULE = (
    "Every resource acquired (file, archive, store, pool, subprocess, connection, temporary file) is the context of a "
    "`with`, is released in a `finally` that covers its uses, or is handed to the caller by a function whose call sites "
    "obey the same rule (fixpoint over the call graph); every started worker is joined before the function is left. "
    "Attributes of imported modules, the environment, the working directory, warning filters, display options, random "
    "seeds, signal handlers and interpreter limits are not set, unless restored in a `finally`; the recursion limit is "
    "only ever raised. No function ends the process; only the writers create or remove files."
)

SKIP = (".tests", "hatchet.external.roundtrip", "hatchet.vis")
WRITERS = ("hatchet.writers", "hatchet.util.profiler")

ACQUIRE = {
    "open", "io.open", "os.fdopen", "os.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "tarfile.open",
    "os.popen", "os.scandir", "gzip.GzipFile", "bz2.BZ2File", "lzma.LZMAFile",
    "zipfile.ZipFile", "tarfile.TarFile", "shelve.open", "dbm.open", "sqlite3.connect", "mmap.mmap", "socket.socket",
    "subprocess.Popen", "pandas.HDFStore", "pandas.ExcelFile", "pandas.ExcelWriter", "pandas.io.pytables.HDFStore",
    "h5py.File", "tables.open_file", "multiprocessing.Pool",
    "multiprocessing.pool.Pool", "multiprocessing.pool.ThreadPool", "multiprocessing.Manager",
    "concurrent.futures.ThreadPoolExecutor", "concurrent.futures.ProcessPoolExecutor", "tempfile.TemporaryFile",
    "tempfile.NamedTemporaryFile", "tempfile.TemporaryDirectory", "tempfile.SpooledTemporaryFile", "urllib.request.urlopen",
    "sqlalchemy.create_engine", "fileinput.input", "pathlib.Path.open",
}
WORKER = {"multiprocessing.Process", "multiprocess.Process", "threading.Thread", "multiprocessing.context.Process"}
RELEASE = {"close", "terminate", "communicate", "wait", "shutdown", "cleanup", "kill", "__exit__", "dispose"}
SETTERS = {
    "os.chdir", "os.fchdir", "os.putenv", "os.unsetenv", "os.umask", "os.nice", "os.setuid", "os.setgid", "os.chroot", "os.setpgrp",
    "os.setsid", "os.sched_setaffinity", "os.setpriority",
    "sys.setrecursionlimit", "sys.settrace", "sys.setprofile", "sys.setswitchinterval", "sys.set_int_max_str_digits",
    "sys.setdefaultencoding", "threading.stack_size", "threading.setprofile", "threading.settrace",
    "warnings.simplefilter", "warnings.filterwarnings", "warnings.resetwarnings",
    "pandas.set_option", "pandas.reset_option", "pandas.set_eng_float_format", "numpy.seterr", "numpy.seterrcall", "numpy.setbufsize",
    "numpy.set_printoptions", "numpy.set_string_function", "numpy.random.seed", "numpy.random.set_state", "random.seed", "random.setstate",
    "signal.signal", "signal.alarm", "signal.setitimer", "signal.siginterrupt", "locale.setlocale", "logging.basicConfig",
    "logging.disable", "logging.captureWarnings", "gc.disable", "gc.enable", "gc.set_threshold", "gc.freeze", "gc.set_debug",
    "multiprocessing.set_start_method", "multiprocess.set_start_method", "multiprocessing.set_executable",
    "matplotlib.use", "matplotlib.rc", "matplotlib.pyplot.rc", "matplotlib.pyplot.switch_backend", "matplotlib.style.use",
    "atexit.register", "resource.setrlimit", "faulthandler.enable", "decimal.setcontext", "socket.setdefaulttimeout",
    "time.tzset", "builtins.setattr", "importlib.reload", "csv.field_size_limit", "site.addsitedir", "codecs.register",
    "sys.setdlopenflags", "mimetypes.init", "urllib.request.install_opener", "tracemalloc.start", "tempfile.tempdir",
}
# setter -> the context manager that undoes it
UNDER = {
    "warnings.simplefilter": "warnings.catch_warnings", "warnings.filterwarnings": "warnings.catch_warnings",
    "warnings.resetwarnings": "warnings.catch_warnings", "pandas.set_option": "pandas.option_context",
    "numpy.seterr": "numpy.errstate", "numpy.set_printoptions": "numpy.printoptions",
    "decimal.setcontext": "decimal.localcontext", "matplotlib.rc": "matplotlib.rc_context",
    "matplotlib.pyplot.rc": "matplotlib.pyplot.rc_context", "matplotlib.style.use": "matplotlib.style.context",
}
EXITS = {"sys.exit", "os._exit", "os.abort", "exit", "quit", "os.kill", "os.killpg", "signal.raise_signal", "os.execv", "os.execvp",
         "os.execve", "os.execl", "os.execlp", "os.fork", "posix._exit"}
FILES = {
    "os.remove", "os.unlink", "os.rmdir", "os.removedirs", "os.mkdir", "os.makedirs", "os.rename", "os.renames", "os.replace",
    "os.symlink", "os.link", "os.truncate", "os.chmod", "os.chown", "os.mkfifo", "os.utime",
    "shutil.rmtree", "shutil.copy", "shutil.copy2", "shutil.copyfile", "shutil.copytree", "shutil.move", "shutil.make_archive",
    "shutil.unpack_archive", "tempfile.mkstemp", "tempfile.mkdtemp", "tempfile.mktemp", "numpy.save", "numpy.savez",
    "numpy.savez_compressed", "numpy.savetxt", "pickle.dump", "json.dump", "marshal.dump",
    "matplotlib.pyplot.savefig", "matplotlib.pyplot.imsave", "pathlib.Path.write_text", "pathlib.Path.touch",
}
# methods of data frames, arrays and paths that write the file they are given
FILE_METHODS = {"to_csv", "to_pickle", "to_parquet", "to_feather", "to_excel", "to_hdf", "to_stata", "to_sql", "to_orc", "savefig",
                "tofile", "write_text", "write_bytes", "touch", "mkdir", "rmdir", "unlink", "dump_stats", "to_gbq", "symlink_to"}
NEED_ARG = {"to_csv", "tofile", "to_pickle"}
OPTIONAL_TEXT = {"to_json", "to_html", "to_latex", "to_string", "to_markdown", "to_xml"}
OPENS = {"open", "io.open", "codecs.open", "gzip.open", "bz2.open", "lzma.open", "os.fdopen"}
MUTATORS = {"append", "insert", "extend", "update", "pop", "popitem", "remove", "clear", "setdefault", "add", "discard", "sort",
            "reverse", "__setitem__", "__delitem__", "appendleft", "setattr"}


class Names:
    """dotted names of the expressions of a module."""

    def __init__(self, mod):
        self.mod = mod
        self.top = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.top[a.asname] = a.name
                    else:
                        r = a.name.split(".")[0]
                        self.top.setdefault(r, r)
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = mod.name.split(".")
                    if not mod.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)]
                    base = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    self.top[a.asname or a.name] = base + "." + a.name

    def name(self, e, shadow=()):
        if isinstance(e, ast.Name):
            if e.id in shadow:
                return None
            d = self.top.get(e.id)
            if d:
                return d
            if e.id in ("open", "exit", "quit"):
                return e.id
            return None
        if isinstance(e, ast.Attribute):
            b = self.name(e.value, shadow)
            return b + "." + e.attr if b else None
        return None


CANON = {"multiprocess": "multiprocessing", "np": "numpy", "pd": "pandas"}


def canon(d):
    if d is None:
        return None
    h, _, t = d.partition(".")
    h = CANON.get(h, h)
    return h + "." + t if t else h


def parents(root):
    up = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            up[c] = n
    return up


def chain(n, up, stop):
    while n is not stop and n in up:
        n = up[n]
        yield n


def in_body(tr, n, up, field):
    """n lies in the given field (body, finalbody ...) of the statement tr"""
    x = n
    while up.get(x) is not tr:
        x = up.get(x)
        if x is None:
            return False
    return any(x is y for y in getattr(tr, field))


class Scope:
    """a function (or the statements of a module) with the names bound in it."""

    def __init__(self, names, node, qual, rel, module):
        self.names, self.node, self.qual, self.rel, self.module = names, node, qual, rel, module
        self.up = parents(node)
        self.nodes = list(own_nodes(node)) if not isinstance(node, ast.Module) else top_nodes(node)
        self.shadow = set()
        if not isinstance(node, ast.Module):
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                self.shadow.add(x.arg)
            for n in self.nodes:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    self.shadow.add(n.id)

    def dotted(self, e):
        if isinstance(e, ast.Name) and e.id in self.shadow:
            # a local alias of a module function (f = os.chdir)
            vs = [n.value for n in self.nodes if isinstance(n, ast.Assign)
                  and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if vs and all(isinstance(v, (ast.Name, ast.Attribute)) for v in vs):
                ds = {canon(self.names.name(v, self.shadow)) for v in vs}
                if len(ds) == 1:
                    return ds.pop()
            return None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b + "." + e.attr if b else None
        return canon(self.names.name(e, self.shadow))

    def where(self, n):
        return "%s:%d" % (self.rel, getattr(n, "lineno", 0))


def top_nodes(tree):
    """nodes run when the module is imported (functions excluded, class bodies included)."""
    out = []
    stack = list(tree.body)
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def root(e):
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def uses(sc, name):
    return [n for n in sc.nodes if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)]


def final_release(sc, name, verbs):
    """Try statements whose finally calls name.<verb>()."""
    out = []
    for n in sc.nodes:
        if isinstance(n, ast.Try) and n.finalbody:
            for s in n.finalbody:
                for c in ast.walk(s):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in verbs \
                            and isinstance(c.func.value, ast.Name) and c.func.value.id == name:
                        out.append(n)
                    # helper(name) that releases is left to the reader: only direct calls count
    return out


class Lint:
    def __init__(self, ctx):
        self.ctx = ctx
        self.scopes = []
        repo = ctx.repo
        for m in repo.modules.values():
            if any(m.name.startswith(s) or s + "." in m.name + "." for s in SKIP) or m.name.endswith(".setup"):
                continue
            names = Names(m)
            self.scopes.append(Scope(names, m.tree, m.name + ".<module>", m.rel, m))
            seen = set()
            for q, f in repo.functions.items():
                if f.module is m and f.node not in seen:
                    seen.add(f.node)
                    self.scopes.append(Scope(names, f.node, q, m.rel, m))
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) and n not in seen:
                    seen.add(n)
                    self.scopes.append(Scope(names, n, "%s.<%s:%d>" % (m.name, getattr(n, "name", "lambda"), n.lineno), m.rel, m))
        self.givers = {}   # simple function name -> "resource" | "worker"

    def acquires(self, sc, c):
        """the kind of resource a call hands out"""
        if not isinstance(c, ast.Call):
            return None
        d = sc.dotted(c.func)
        if d in ACQUIRE:
            return "resource", d
        if d in WORKER:
            return "worker", d
        f = c.func
        if isinstance(f, ast.Attribute) and f.attr == "Pool" and d is None:
            return "resource", "Pool"       # get_context().Pool
        if isinstance(f, ast.Attribute) and f.attr == "Process" and d is None:
            return "worker", "Process"
        if isinstance(f, ast.Attribute) and f.attr == "open" and d is None and not isinstance(f.value, ast.Constant):
            return "resource", "open"       # Path(...).open()
        last = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
        if last in self.givers and (d is None or d.startswith("hatchet.")):
            return self.givers[last], last
        return None

    # -- resources --------------------------------------------------------

    def resources(self):
        changed = True
        self.bad = []
        while changed:
            changed = False
            self.bad = []
            self.n = 0
            for sc in self.scopes:
                for c in sc.nodes:
                    k = self.acquires(sc, c)
                    if not k:
                        continue
                    self.n += 1
                    r = self.held(sc, c, k[0])
                    if r == "give":
                        name = getattr(sc.node, "name", None)
                        if name and self.givers.get(name) != k[0]:
                            self.givers[name] = k[0]
                            changed = True
                    elif r is not None:
                        self.bad.append((sc, c, k[1], r))
        self.ctx.count("resources acquired", self.n)
        for sc, c, what, r in self.bad:
            self.ctx.oblige(False, "released", "%s %s(...)" % (sc.qual, what), r, sc.where(c))
        for i in range(self.n - len(self.bad)):
            self.ctx.oblige(True, "released", "", "", "")

    def held(self, sc, c, kind):
        up = sc.up
        p = up.get(c)
        # wrappers that own what they are given
        while isinstance(p, ast.Call) and c in p.args:
            d = sc.dotted(p.func)
            last = d.split(".")[-1] if d else p.func.attr if isinstance(p.func, ast.Attribute) else ""
            if last in ("closing", "TextIOWrapper", "BufferedReader", "BufferedWriter", "enter_context", "push", "GzipFile", "ZipFile"):
                if last in ("enter_context", "push"):
                    return None
                c, p = p, up.get(p)
                continue
            return self.passed(sc, p, c)
        if isinstance(p, ast.IfExp):
            c, p = p, up.get(p)
        if isinstance(p, ast.withitem):
            return None
        if isinstance(p, (ast.Return,)) or (isinstance(p, ast.Lambda) and p.body is c):
            return "give" if not isinstance(p, ast.Lambda) else "a lambda opens a resource nothing closes"
        if isinstance(p, (ast.Yield,)):
            return "yields a resource that is not released when the generator is left"
        name = None
        if isinstance(p, ast.Assign) and p.value is c and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
            name = p.targets[0].id
        elif isinstance(p, ast.NamedExpr):
            name = p.target.id
        elif isinstance(p, ast.AnnAssign) and isinstance(p.target, ast.Name):
            name = p.target.id
        elif isinstance(p, (ast.ListComp, ast.GeneratorExp)) and p.elt is c and kind == "worker":
            g = up.get(p)
            if isinstance(g, ast.Assign) and isinstance(g.targets[0], ast.Name):
                return self.worker(sc, g.targets[0].id, p)
        elif kind == "worker" and isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "append" \
                and isinstance(p.func.value, ast.Name):
            return self.worker(sc, p.func.value.id, p)
        if name is None:
            return "the %s is dropped without being released" % ("worker" if kind == "worker" else "open resource")
        if kind == "worker":
            return self.worker(sc, name, p)
        return self.named(sc, name, p)

    def passed(self, sc, call, arg):
        """a resource handed straight to a call: fine when a repository function releases its parameter."""
        last = call.func.id if isinstance(call.func, ast.Name) else getattr(call.func, "attr", None)
        d = sc.dotted(call.func)
        for s in self.scopes:
            if getattr(s.node, "name", None) == last and (d is None or d.startswith("hatchet.") or isinstance(call.func, ast.Name)):
                ps = [a.arg for a in s.node.args.posonlyargs + s.node.args.args]
                if ps[:1] in (["self"], ["cls"]) and isinstance(call.func, ast.Attribute):
                    ps = ps[1:]
                i = call.args.index(arg)
                if i < len(ps) and self.named(s, ps[i], None) is None:
                    return None
        return "is handed to %s and never released" % (ast.unparse(call.func))

    def named(self, sc, name, after):
        """every use of the resource bound to a name is inside a `with` over it or a try whose finally releases it"""
        up = sc.up
        us = [u for u in uses(sc, name) if after is None or u.lineno > after.lineno]
        for u in us:
            if isinstance(up.get(u), ast.Return):
                return "give"
        for u in us:
            p = up.get(u)
            if isinstance(p, ast.withitem) or (isinstance(p, ast.Call) and isinstance(up.get(p), ast.withitem)):
                w = up.get(p) if isinstance(p, ast.withitem) else up.get(up.get(p))
                rest = [v for v in us if v is not u and not any(x is w for x in chain(v, up, sc.node))]
                if all(v.lineno > u.lineno for v in rest):
                    return None
        trys = final_release(sc, name, RELEASE)
        for t in trys:
            ok = True
            for u in us:
                if any(x is t for x in chain(u, up, sc.node)):
                    continue
                # a use outside the try: only after it
                if u.lineno < t.lineno:
                    ok = False
            if not ok:
                continue
            if after is None or any(x is t for x in chain(after, up, sc.node)):
                return None
            # nothing between the acquisition and the try may leave the function
            for n in sc.nodes:
                if isinstance(n, (ast.Return, ast.Raise)) and after.lineno < n.lineno < t.lineno:
                    ok = False
            if ok:
                return None
        for u in us:
            p = up.get(u)
            if isinstance(p, ast.Call) and u in p.args and isinstance(p.func, ast.Attribute) and p.func.attr in ("enter_context", "callback"):
                return None
        return "the resource bound to %r is not released on every path (no `with`, no `finally`)" % name

    def worker(self, sc, name, made):
        """the worker (or the list of them) bound to a name is joined before the function is left"""
        group = {name}
        for _ in range(3):
            for n in sc.nodes:
                # xs.append(x) / xs += [x]
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "insert", "add") \
                        and isinstance(n.func.value, ast.Name) and any(isinstance(a, ast.Name) and a.id in group for a in n.args):
                    group.add(n.func.value.id)
                elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and \
                        any(isinstance(x, ast.Name) and x.id in group for x in ast.walk(n.value)):
                    group.add(n.target.id)
                elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, (ast.Name, ast.Tuple)) and \
                        any(isinstance(x, ast.Name) and x.id in group for x in ast.walk(n.iter)):
                    for x in ast.walk(n.target):
                        if isinstance(x, ast.Name):
                            group.add(x.id)
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, (ast.Name, ast.List)) and \
                        any(isinstance(x, ast.Name) and x.id in group for x in ast.walk(n.value)):
                    group.add(n.targets[0].id)
        for n in sc.nodes:
            if isinstance(n, ast.Return) and n.value is not None and any(
                    isinstance(x, ast.Name) and x.id in group for x in ast.walk(n.value)) and not isinstance(n.value, ast.Call):
                return "give"
        joins = [n for n in sc.nodes if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "join"
                 and root(n.func.value) in group]
        if not joins:
            # joined by a helper given the workers
            for n in sc.nodes:
                if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id in group for a in n.args):
                    last = n.func.id if isinstance(n.func, ast.Name) else getattr(n.func, "attr", None)
                    for s in self.scopes:
                        if getattr(s.node, "name", None) == last and last != "append":
                            if any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "join"
                                   and not c.args for c in s.nodes):
                                joins.append(n)
        if not joins:
            return "the worker processes are never joined"
        j = min(joins, key=lambda n: n.lineno)
        for n in sc.nodes:
            if isinstance(n, (ast.Return, ast.Raise)) and made.lineno < n.lineno < j.lineno and \
                    not any(isinstance(t, ast.Try) and in_body(t, j, sc.up, "finalbody") for t in chain(j, sc.up, sc.node)):
                return "the function can be left (line %d) before its worker processes are joined" % n.lineno
        for t in chain(j, sc.up, sc.node):
            if isinstance(t, (ast.If, ast.ExceptHandler)) and not any(x is t for x in chain(made, sc.up, sc.node)):
                return "the worker processes are joined on some paths only"
        return None

    # -- process-wide state ---------------------------------------------------

    def restored(self, sc, n, d):
        """the setter d at n runs inside a try (or before one) whose finally sets it again"""
        up = sc.up
        for t in sc.nodes:
            if isinstance(t, ast.Try) and t.finalbody:
                again = any(isinstance(c, ast.Call) and sc.dotted(c.func) == d for s in t.finalbody for c in ast.walk(s))
                if not again:
                    continue
                if any(x is t for x in chain(n, up, sc.node)):
                    return True
                if n.lineno < t.lineno and not any(
                        isinstance(r, (ast.Return, ast.Raise)) and n.lineno < r.lineno < t.lineno for r in sc.nodes):
                    return True
        w = UNDER.get(d)
        if w:
            for x in chain(n, up, sc.node):
                if isinstance(x, ast.With) and any(isinstance(i.context_expr, ast.Call) and sc.dotted(i.context_expr.func) == w
                                                   for i in x.items):
                    return True
        return False

    def only_raises(self, sc, c):
        """setrecursionlimit with at least the current limit"""
        cur = set()
        for n in sc.nodes:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Call) and \
                    sc.dotted(n.value.func) == "sys.getrecursionlimit":
                cur.add(n.targets[0].id)

        def now(e):
            return (isinstance(e, ast.Call) and sc.dotted(e.func) == "sys.getrecursionlimit") or (isinstance(e, ast.Name) and e.id in cur)

        def atleast(e, depth=0):
            if now(e):
                return True
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "max":
                xs = list(e.args)
                if len(xs) == 1 and isinstance(xs[0], (ast.List, ast.Tuple, ast.Set)):
                    xs = xs[0].elts
                return any(atleast(x, depth) for x in xs)
            if isinstance(e, ast.IfExp):
                t = e.test
                if isinstance(t, ast.Compare) and len(t.ops) == 1:
                    l, r, op = t.left, t.comparators[0], t.ops[0]
                    if isinstance(op, (ast.Lt, ast.LtE)):
                        l, r = r, l
                        op = ast.Gt()
                    if isinstance(op, (ast.Gt, ast.GtE)) and ast.dump(e.body) == ast.dump(l) and now(r) and now(e.orelse):
                        return True
                    if isinstance(op, (ast.Gt, ast.GtE)) and ast.dump(e.orelse) == ast.dump(r) and now(l) and now(e.body):
                        return True
                return False
            if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
                return any(atleast(a, depth) and isinstance(b, ast.Constant) and b.value >= 0
                           for a, b in ((e.left, e.right), (e.right, e.left)))
            if isinstance(e, ast.Name) and depth < 3:
                vs = [n.value for n in sc.nodes if isinstance(n, ast.Assign)
                      and any(isinstance(x, ast.Name) and x.id == e.id for x in n.targets)]
                params = {a.arg for a in sc.node.args.args} if not isinstance(sc.node, ast.Module) else set()
                return bool(vs) and all(atleast(v, depth + 1) for v in vs) and e.id not in params or \
                    (bool(vs) and e.id in params and len(vs) == 1 and atleast(vs[0], depth + 1) and straight(sc, e.id, c))
            return False

        a = c.args[0] if c.args else None
        if a is not None and atleast(a):
            return True
        # if a > current: setrecursionlimit(a)
        for x in chain(c, sc.up, sc.node):
            if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and len(x.test.ops) == 1 and in_body(x, c, sc.up, "body"):
                l, r, op = x.test.left, x.test.comparators[0], x.test.ops[0]
                if isinstance(op, (ast.Lt, ast.LtE)):
                    l, r = r, l
                elif not isinstance(op, (ast.Gt, ast.GtE)):
                    continue
                if now(r) and ast.dump(l) == ast.dump(a):
                    return True
        return False

    def state(self):
        ctx = self.ctx
        for sc in self.scopes:
            # aliases of parts of modules: env = os.environ
            part = {}
            for n in sc.nodes:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Attribute):
                    d = sc.dotted(n.value)
                    if d and not d.startswith("hatchet."):
                        part[n.targets[0].id] = d

            def target(e, depth=0):
                """dotted module object an lvalue belongs to"""
                while isinstance(e, (ast.Subscript, ast.Attribute)):
                    d = sc.dotted(e)
                    if d:
                        return d
                    e = e.value
                    depth += 1
                if isinstance(e, ast.Name) and depth:
                    return part.get(e.id) or sc.dotted(e)
                return None

            for n in sc.nodes:
                if isinstance(n, ast.Call):
                    d = sc.dotted(n.func)
                    ctx.count("calls examined")
                    if d in EXITS:
                        ctx.oblige(False, "exit", "%s %s" % (sc.qual, d), "ends the calling process", sc.where(n))
                        continue
                    if d in SETTERS:
                        ok = self.restored(sc, n, d) or (d == "sys.setrecursionlimit" and self.only_raises(sc, n))
                        ctx.oblige(ok, "setting", "%s %s" % (sc.qual, d), "sets process-wide state and does not restore it", sc.where(n))
                        continue
                    if isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and n.args:
                        d2 = sc.dotted(n.args[0])
                        if d2 and not d2.startswith("hatchet."):
                            ctx.oblige(self.rebound(sc, n, d2), "setting", "%s %s" % (sc.qual, d2), "sets an attribute of an imported module",
                                       sc.where(n))
                    if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                        b = n.func.value
                        d2 = sc.dotted(b) or (isinstance(b, ast.Name) and part.get(b.id)) or (
                            target(b) if isinstance(b, (ast.Attribute, ast.Subscript)) else None)
                        if d2 and "." in d2 and not d2.startswith("hatchet.") and not d2.split(".")[-1][:1].isupper():
                            ctx.oblige(self.rebound(sc, n, d2), "setting", "%s %s.%s" % (sc.qual, d2, n.func.attr),
                                       "changes process-wide state", sc.where(n))
                    self.files(sc, n, d)
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                    for t in ts:
                        for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                            if isinstance(x, (ast.Attribute, ast.Subscript)):
                                ctx.count("stores examined")
                                d = target(x)
                                if d and not d.startswith("hatchet."):
                                    ctx.oblige(self.rebound(sc, n, d), "setting", "%s %s" % (sc.qual, d),
                                               "assigns process-wide state of an imported module", sc.where(n))
                elif isinstance(n, ast.Raise) and n.exc is not None:
                    e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                    if isinstance(e, ast.Name) and e.id in ("SystemExit", "KeyboardInterrupt"):
                        ctx.oblige(False, "exit", "%s raise %s" % (sc.qual, e.id), "ends the calling process", sc.where(n))

    def rebound(self, sc, n, d):
        """assigned again, from a saved value, in a finally covering n"""
        for t in sc.nodes:
            if not (isinstance(t, ast.Try) and t.finalbody):
                continue
            again = False
            for s in t.finalbody:
                for x in ast.walk(s):
                    if isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                        for tt in (x.targets if not isinstance(x, ast.AugAssign) else [x.target]):
                            e = tt
                            while isinstance(e, (ast.Subscript, ast.Attribute)):
                                if sc.dotted(e) == d:
                                    again = True
                                e = e.value
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and sc.dotted(x.func.value) == d:
                        again = True
            if again:
                if any(x is t for x in chain(n, sc.up, sc.node)):
                    return True
                if n.lineno < t.lineno and not any(
                        isinstance(r, (ast.Return, ast.Raise)) and n.lineno < r.lineno < t.lineno for r in sc.nodes):
                    return True
        return False

    # -- files -------------------------------------------------------------

    def files(self, sc, n, d):
        if any(sc.qual.startswith(w) for w in WRITERS):
            return
        ctx = self.ctx

        def bad(what):
            ctx.oblige(False, "files", "%s %s" % (sc.qual, what), "creates, changes or removes a file outside the writers", sc.where(n))

        if d in FILES:
            if d.endswith(".dump") and len(n.args) > 1 and isinstance(n.args[1], ast.Name) and self.memory(sc, n.args[1].id):
                return
            bad(d)
            return
        f = n.func
        is_open = d in OPENS or (isinstance(f, ast.Attribute) and f.attr == "open" and d is None)
        if is_open:
            i = 0 if (isinstance(f, ast.Attribute) and d is None) else 1
            mode = n.args[i] if len(n.args) > i else None
            for k in n.keywords:
                if k.arg == "mode":
                    mode = k.value
            for m in self.values(sc, mode):
                if m is None or (isinstance(m, str) and set(m) & set("wax+")):
                    bad("open(%s)" % (m or "mode not constant"))
            return
        if isinstance(f, ast.Attribute) and d is None:
            if f.attr in FILE_METHODS and not (f.attr in NEED_ARG and not n.args and not n.keywords):
                if f.attr == "to_hdf" or isinstance(f.value, ast.Call) or not self.own_method(f.attr):
                    if f.attr == "to_hdf" and self.own_method(f.attr) and sc.qual.startswith("hatchet.graphframe.GraphFrame.to_hdf"):
                        return
                    bad("." + f.attr)
            elif f.attr in OPTIONAL_TEXT and (n.args or any(k.arg in ("path_or_buf", "buf", "path_or_buffer") for k in n.keywords)) and \
                    not self.own_method(f.attr):
                bad("." + f.attr)

    def own_method(self, name):
        return any(getattr(s.node, "name", None) == name for s in self.scopes)

    def memory(self, sc, name):
        vs = [n.value for n in sc.nodes if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
        return bool(vs) and all(isinstance(v, ast.Call) and (sc.dotted(v.func) or "").split(".")[-1] in ("StringIO", "BytesIO") for v in vs)

    def values(self, sc, e):
        if e is None:
            return ["r"]
        if isinstance(e, ast.Constant):
            return [e.value]
        if isinstance(e, ast.IfExp):
            return self.values(sc, e.body) + self.values(sc, e.orelse)
        if isinstance(e, ast.Name):
            if not isinstance(sc.node, ast.Module):
                a = sc.node.args
                ps = a.posonlyargs + a.args
                for p, dv in zip(ps[len(ps) - len(a.defaults):], a.defaults):
                    if p.arg == e.id:
                        return self.values(sc, dv)
                if e.id in [p.arg for p in ps]:
                    out = []
                    i = [p.arg for p in ps].index(e.id)
                    for s in self.scopes:
                        for c in s.nodes:
                            if isinstance(c, ast.Call) and (getattr(c.func, "id", None) or getattr(c.func, "attr", None)) == sc.node.name:
                                j = i - (1 if ps[0].arg in ("self", "cls") else 0)
                                kw = [k.value for k in c.keywords if k.arg == e.id]
                                v = kw[0] if kw else c.args[j] if len(c.args) > j else None
                                out += self.values(s, v) if s is not sc else [None]
                    return out or [None]
            vs = [n.value for n in sc.nodes if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if not vs and e.id in sc.module.globals:
                vs = [v for v in sc.module.globals[e.id]]
            return [x for v in vs for x in self.values(sc, v)] or [None]
        return [None]


def straight(sc, name, c):
    """the parameter is rebound unconditionally before c"""
    if isinstance(sc.node, ast.Module):
        return False
    for s in sc.node.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and s.lineno < c.lineno:
            return True
    return False


def check(ctx):
    lint = Lint(ctx)
    ctx.count("functions and module bodies", len(lint.scopes))
    lint.resources()
    lint.state()
    ctx.need("functions and module bodies", 250)
    ctx.need("calls examined", 1500)
    ctx.need("resources acquired", 1)

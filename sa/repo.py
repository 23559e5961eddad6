"""Source model of the repository under analysis: modules, classes, functions,
imports and decorators, read from /repo's current working tree (never imported,
never executed)."""

import ast
import hashlib
import os
import re

REPO = os.environ.get("HATCHET_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the analysis depends on has vanished: the run is an error."""


class FuncInfo:
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.parent = parent
        self.name = getattr(node, "name", "<lambda>")
        self.decorators = []
        for d in getattr(node, "decorator_list", []):
            t = d.func if isinstance(d, ast.Call) else d
            self.decorators.append(ast.unparse(t))
        self._gen = None

    @property
    def is_static(self):
        return "staticmethod" in self.decorators

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators

    @property
    def is_property(self):
        return "property" in self.decorators

    @property
    def is_generator(self):
        if self._gen is None:
            self._gen = any(
                isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(self.node)
            )
        return self._gen

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        out = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            out.append(a.vararg.arg)
        if a.kwarg:
            out.append(a.kwarg.arg)
        return out

    def defaults(self):
        """name -> default expression"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    @property
    def where(self):
        return "%s:%d" % (self.module.rel, self.node.lineno)

    def __repr__(self):
        return "<F %s>" % self.qual


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.node = node
        self.module = module
        self.name = node.name
        self.methods = {}
        self.class_vars = {}
        self.bases = []  # resolved later: ClassInfo or dotted str

    def __repr__(self):
        return "<C %s>" % self.qual


class Module:
    def __init__(self, name, path, rel, tree, source):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.source = source
        self.functions = {}
        self.classes = {}
        self.imports = {}  # local name -> dotted target
        self.globals = {}  # name -> list of assigned value exprs
        self.is_pkg = os.path.basename(path) == "__init__.py"


def own_nodes(fn):
    """All AST nodes of a function body excluding nested function bodies."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(body)
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def pyx_to_py(src):
    """Strip the C declarations of the (small) Cython kernels down to the
    Python they extend, so that they can be analysed with the same engine."""
    out = []
    for line in src.split("\n"):
        if re.match(r"\s*(from\s+\S+\s+cimport|cimport)\b", line):
            out.append("")
            continue
        m = re.match(r"^(\s*)(cpdef|cdef|def)\s+(inline\s+)?([\w \[\]:,*]*?\s+)?(\w+)\((.*)\)(\s*(noexcept|nogil|except\s*[^:]*))*:\s*$", line)
        if m:
            args = []
            depth = 0
            cur = ""
            for ch in m.group(6):
                if ch == "[":
                    depth += 1
                if ch == "]":
                    depth -= 1
                if ch == "," and depth == 0:
                    args.append(cur)
                    cur = ""
                else:
                    cur += ch
            if cur.strip():
                args.append(cur)
            names = []
            for a in args:
                d = ""
                if "=" in a:
                    a, d = a.split("=", 1)
                    d = "=" + d
                names.append(re.findall(r"\w+", a)[-1] + d)
            out.append("%sdef %s(%s):" % (m.group(1), m.group(5), ", ".join(names)))
            continue
        m = re.match(r"^(\s*)cdef\s+[\w \[\]:,*]*?(\w+)\s*=\s*(.*)$", line)
        if m:
            out.append("%s%s = %s" % (m.group(1), m.group(2), _uncast(m.group(3))))
            continue
        m = re.match(r"^(\s*)cdef\s+.*$", line)
        if m:
            out.append(m.group(1) + "pass")
            continue
        out.append(_uncast(line))
    text = "\n".join(out)
    # "with cython.boundscheck(False):" may be followed by comments at the same
    # column; python accepts that as comments are not statements.
    return text


def _uncast(s):
    return re.sub(r"<\s*[\w ]+\s*\*?\s*>\s*(?=[\w(])", "", s)


class Repo:
    def __init__(self, root=None, package="hatchet"):
        self.root = root or REPO
        self.package = package
        self.modules = {}
        self.functions = {}
        self.classes = {}
        self.by_method = {}
        self.digest = hashlib.sha256()
        self._load()

    SKIP = ("tests", "scripts")

    def _load(self):
        base = os.path.join(self.root, self.package)
        if not os.path.isdir(base):
            raise AnalysisBroken("package directory %s is missing" % base)
        files = []
        for top, dirs, names in os.walk(base):
            dirs[:] = sorted(
                d for d in dirs if d not in self.SKIP and d != "__pycache__" and d != "node_modules"
            )
            for n in sorted(names):
                if n.endswith(".py") or n.endswith(".pyx"):
                    files.append(os.path.join(top, n))
        for path in files:
            rel = os.path.relpath(path, self.root)
            with open(path, encoding="utf-8") as f:
                src = f.read()
            self.digest.update(rel.encode() + b"\0" + src.encode())
            name = rel[:-3] if rel.endswith(".py") else rel[:-4]
            name = name.replace("/", ".")
            if name.endswith(".__init__"):
                name = name[: -len(".__init__")]
            text = src
            if path.endswith(".pyx"):
                text = pyx_to_py(src)
            try:
                tree = ast.parse(text)
            except SyntaxError as e:
                raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
            self.modules[name] = Module(name, path, rel, tree, src)
        for m in self.modules.values():
            self._index(m)
        for c in self.classes.values():
            c.bases = []
            for b in c.node.bases:
                r = self.resolve_expr(c.module, b)
                c.bases.append(r)

    # -- indexing ---------------------------------------------------------
    def _index(self, m):
        def walk(body, prefix, cls, parent):
            for n in body:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = prefix + "." + n.name
                    # several definitions of one name: last wins, keep all
                    f = FuncInfo(q, n, m, cls, parent)
                    self.functions[q] = f
                    n._finfo = f
                    if cls is not None and parent is None:
                        cls.methods[n.name] = f
                        self.by_method.setdefault(n.name, []).append(f)
                    elif parent is None:
                        m.functions[n.name] = f
                    self._nested(n, q, m, f)
                elif isinstance(n, ast.ClassDef):
                    q = prefix + "." + n.name
                    c = ClassInfo(q, n, m)
                    self.classes[q] = c
                    n._cinfo = c
                    if parent is None and cls is None:
                        m.classes[n.name] = c
                    for s in n.body:
                        if isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    c.class_vars[t.id] = s.value
                    walk(n.body, q, c, None)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    self._imports(m, n, m.imports)
                elif isinstance(n, ast.Assign) and cls is None:
                    for t in n.targets:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                m.globals.setdefault(x.id, []).append(
                                    n.value if isinstance(t, ast.Name) else None
                                )
                elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for fld in ("body", "orelse", "finalbody"):
                        walk(getattr(n, fld, []) or [], prefix, cls, parent)
                    for h in getattr(n, "handlers", []):
                        walk(h.body, prefix, cls, parent)

        walk(m.tree.body, m.name, None, None)

    def _nested(self, fn, q, m, parent):
        for n in own_nodes(fn):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                qq = "%s.<locals>.%s" % (q, n.name)
                if qq in self.functions:
                    qq = "%s@%d" % (qq, n.lineno)
                f = FuncInfo(qq, n, m, None, parent)
                self.functions[qq] = f
                n._finfo = f
                self._nested(n, qq, m, f)
            elif isinstance(n, ast.Lambda):
                qq = "%s.<locals>.<lambda>@%d:%d" % (q, n.lineno, n.col_offset)
                f = FuncInfo(qq, n, m, None, parent)
                self.functions[qq] = f
                n._finfo = f
                self._nested(n, qq, m, f)
            elif isinstance(n, ast.ClassDef):
                c = ClassInfo("%s.<locals>.%s" % (q, n.name), n, m)
                self.classes[c.qual] = c
                n._cinfo = c
                for s in n.body:
                    if isinstance(s, (ast.FunctionDef,)):
                        f = FuncInfo(c.qual + "." + s.name, s, m, c, None)
                        self.functions[f.qual] = f
                        s._finfo = f
                        c.methods[s.name] = f
                        self._nested(s, f.qual, m, f)

    def _imports(self, m, n, table):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.asname:
                    table[a.asname] = a.name
                else:
                    table[a.name.split(".")[0]] = a.name.split(".")[0]
        else:
            base = n.module or ""
            if n.level:
                pkg = m.name if m.is_pkg else m.name.rpartition(".")[0]
                for _ in range(n.level - 1):
                    pkg = pkg.rpartition(".")[0]
                base = pkg + ("." + base if base else "")
            for a in n.names:
                table[a.asname or a.name] = base + "." + a.name

    # -- resolution -------------------------------------------------------
    def resolve_dotted(self, dotted, seen=None):
        """dotted import target -> FuncInfo | ClassInfo | Module | ('glob', module, name) | str"""
        seen = seen or set()
        if dotted in seen:
            return dotted
        seen.add(dotted)
        # shared objects built from the .pyx kernels
        dotted = dotted.replace("cython_modules.libs.", "cython_modules.")
        if dotted in self.modules:
            return self.modules[dotted]
        mod, _, name = dotted.rpartition(".")
        if mod in self.modules:
            m = self.modules[mod]
            if name in m.functions:
                return m.functions[name]
            if name in m.classes:
                return m.classes[name]
            if name in m.imports:
                return self.resolve_dotted(m.imports[name], seen)
            if name in m.globals:
                return ("glob", m.name, name)
        elif mod:
            r = self.resolve_dotted(mod, seen)
            if isinstance(r, ClassInfo) and name in r.methods:
                return r.methods[name]
        return dotted

    def resolve_name(self, m, name, local_imports=None):
        if local_imports and name in local_imports:
            return self.resolve_dotted(local_imports[name])
        if name in m.functions:
            return m.functions[name]
        if name in m.classes:
            return m.classes[name]
        if name in m.globals and name not in m.imports:
            return ("glob", m.name, name)
        if name in m.imports:
            return self.resolve_dotted(m.imports[name])
        return None

    def resolve_expr(self, m, e):
        if isinstance(e, ast.Name):
            r = self.resolve_name(m, e.id)
            return r if r is not None else "builtins." + e.id
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if isinstance(b, Module):
                return self.resolve_dotted(b.name + "." + e.attr)
            if isinstance(b, str):
                return b + "." + e.attr
        return None

    def mro(self, c):
        out = [c]
        for b in c.bases:
            if isinstance(b, ClassInfo):
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def lookup(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def lookup_var(self, c, name):
        for k in self.mro(c):
            if name in k.class_vars:
                return k, k.class_vars[name]
        return None, None

    def is_subclass(self, c, qual):
        return any(k.qual == qual for k in self.mro(c)) or qual in self.external_bases(c)

    def external_bases(self, c):
        out = set()
        for k in self.mro(c):
            for b in k.bases:
                if isinstance(b, str):
                    out.add(b)
        return out

    def subclasses(self, c):
        return [k for k in self.classes.values() if k is not c and c in self.mro(k)]

    # -- anchors ----------------------------------------------------------
    def func(self, qual):
        f = self.functions.get(qual)
        if f is None:
            raise AnalysisBroken("anchor function %s not found" % qual)
        return f

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None:
            raise AnalysisBroken("anchor class %s not found" % qual)
        return c

"""P21: detected errors reach the caller as the exception they are."""

import ast
import builtins

from .p20 import Names, Scope, SKIP, chain, in_body

TITLE = "detected errors reach the caller"
RULE = (
    "Every exception that is constructed is raised, forwarded or returned; what is raised is an exception class or "
    "instance; a bare raise stands in a handler; the expressions of a raise (message formatting, attributes, names under "
    "class-private mangling) cannot fail themselves; a local is assigned on every path that reaches its use, so that a "
    "missing case is reported by its own exception. A handler that does not raise or forward catches only a lookup, "
    "import, conversion or comparison probe; nothing that reads input, or calls a user callable or the library itself, is "
    "caught and dropped, and no asynchronous result, subprocess status or decoding error is ignored."
)

LOOKUP = {"KeyError", "IndexError", "AttributeError", "StopIteration", "LookupError", "ImportError", "ModuleNotFoundError", "NameError",
          "UnboundLocalError"}
CONVERT = {"ValueError", "TypeError", "OverflowError", "ZeroDivisionError", "UnicodeEncodeError"}
READS = {"open", "read", "readline", "readlines", "load", "loads", "read_csv", "read_hdf", "read_json", "read_table", "parse", "iterparse",
         "fromfile", "fromstring", "check_output", "run", "call", "communicate", "unpack", "seek", "stat", "walk", "apply", "map", "visit",
         "model_from_str", "get_stats_profile", "Stats", "getroot", "XML"}


def exception_names(repo):
    out = {n for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)}
    more = True
    classes = {}
    for m in repo.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                classes.setdefault(n.name, []).append([b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "") for b in n.bases])
    while more:
        more = False
        for c, bs in classes.items():
            if c not in out and any(x in out for b in bs for x in b):
                out.add(c)
                more = True
    return out, set(classes)


def conversions(s):
    """(number of positional conversions, names) of a %-format string; None if it cannot be told"""
    i = n = 0
    names = set()
    while i < len(s):
        if s[i] != "%":
            i += 1
            continue
        i += 1
        if i >= len(s):
            return None
        if s[i] == "(":
            j = s.find(")", i)
            if j < 0:
                return None
            names.add(s[i + 1:j])
            i = j + 1
        star = 0
        while i < len(s) and s[i] in "#0- +.123456789*":
            star += s[i] == "*"
            i += 1
        while i < len(s) and s[i] in "hlL":
            i += 1
        if i >= len(s):
            return None
        if s[i] == "%":
            i += 1
            continue
        if s[i] not in "diouxXeEfFgGcrsa":
            return None
        n += 1 + star
        i += 1
    return n, names


def text(e):
    """the constant string of an expression, adjacent and + joined constants included"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = text(e.left), text(e.right)
        return a + b if a is not None and b is not None else None
    return None


class Errors:
    def __init__(self, ctx):
        self.ctx = ctx
        self.exc, self.classes = exception_names(ctx.repo)
        self.scopes = []
        for m in ctx.repo.modules.values():
            if any(m.name.startswith(s) or s + "." in m.name + "." for s in SKIP) or m.name.endswith(".setup"):
                continue
            if not m.rel.endswith(".py"):
                continue
            names = Names(m)
            up = {}
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    up[c] = n
            self.scopes.append((Scope(names, m.tree, m.name, m.rel, m), up))
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    path = [n.name]
                    x = n
                    while x in up:
                        x = up[x]
                        if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                            path.insert(0, x.name)
                    self.scopes.append((Scope(names, n, m.name + "." + ".".join(path), m.rel, m), up))

    def is_exc(self, e):
        f = e.func if isinstance(e, ast.Call) else e
        n = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
        return n in self.exc or (n or "").endswith(("Error", "Exception"))

    def ob(self, ok, rule, sc, n, what, msg):
        self.ctx.oblige(ok, rule, "%s %s" % (sc.qual, what), msg, sc.where(n))

    def constructed(self, sc):
        """a constructed exception is not a statement of its own, nor a local nobody uses"""
        for n in sc.nodes:
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and self.is_exc(n.value):
                self.ob(False, "raised", sc, n, ast.unparse(n.value.func), "an exception is constructed and dropped")
            elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and self.is_exc(n.value) and isinstance(n.targets[0], ast.Name):
                v = n.targets[0].id
                used = any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) for x in ast.walk(sc.node))
                self.ob(used, "raised", sc, n, v, "an exception is constructed and never raised")
            elif isinstance(n, ast.Raise):
                self.ctx.count("raise statements")
                self.raises(sc, n)
            elif isinstance(n, ast.Assert):
                pass

    def raises(self, sc, n):
        if n.exc is None:
            x = n
            inside = False
            for x in chain(n, sc.up, sc.node):
                if isinstance(x, ast.ExceptHandler):
                    inside = True
            if not inside:
                inside = isinstance(sc.node, ast.Module) is False and self.only_called_in_handlers(sc)
            self.ob(inside, "raise", sc, n, "raise", "a bare raise outside a handler raises RuntimeError('No active exception')")
            return
        e = n.exc
        ok = not (isinstance(e, (ast.Constant, ast.JoinedStr, ast.Dict, ast.List, ast.Tuple, ast.BinOp))
                  or (isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "format"))
        self.ob(ok, "raise", sc, n, "raise", "raises something that is not an exception")
        if isinstance(e, ast.Call):
            f = e.func
            nm = f.id if isinstance(f, ast.Name) else None
            if nm in self.classes and nm not in self.exc:
                self.ob(False, "raise", sc, n, nm, "raises an instance of a class that is not an exception")

    def only_called_in_handlers(self, sc):
        name = sc.node.name
        sites = 0
        for s, _ in self.scopes:
            for c in s.nodes:
                if isinstance(c, ast.Call) and (getattr(c.func, "id", None) or getattr(c.func, "attr", None)) == name:
                    sites += 1
                    if not any(isinstance(x, ast.ExceptHandler) for x in chain(c, s.up, s.node)):
                        return False
        return sites > 0

    # -- the expressions of an error path -----------------------------------

    def strings(self, sc):
        star = set()
        if not isinstance(sc.node, ast.Module):
            if sc.node.args.vararg:
                star.add(sc.node.args.vararg.arg)
        for n in sc.nodes:
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                t = text(n.left)
                if t is None:
                    continue
                c = conversions(t)
                self.ctx.count("format expressions")
                if c is None:
                    continue
                k, names = c
                r = n.right
                if names:
                    if isinstance(r, ast.Dict) and all(isinstance(x, ast.Constant) for x in r.keys):
                        miss = names - {x.value for x in r.keys}
                        self.ob(not miss, "message", sc, n, ast.unparse(n)[:60], "the format needs %s" % sorted(miss))
                    continue
                if isinstance(r, ast.Tuple):
                    if any(isinstance(x, ast.Starred) for x in r.elts):
                        continue
                    self.ob(len(r.elts) == k, "message", sc, n, ast.unparse(n)[:60],
                            "%d values for %d conversions: raises TypeError" % (len(r.elts), k))
                elif isinstance(r, ast.Name) and r.id in star:
                    self.ob(False, "message", sc, n, ast.unparse(n)[:60], "the tuple of arguments is spread over %d conversions" % k)
                elif k == 0:
                    self.ob(False, "message", sc, n, ast.unparse(n)[:60], "the format has no conversion: raises TypeError")
                elif k != 1 and not isinstance(r, (ast.Name, ast.Call, ast.Attribute, ast.Subscript)):
                    self.ob(False, "message", sc, n, ast.unparse(n)[:60], "one value for %d conversions" % k)
                else:
                    self.ob(True, "message", sc, n, "", "")
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format":
                t = text(n.func.value)
                if t is None:
                    continue
                self.ctx.count("format expressions")
                bad = self.braces(t, n)
                self.ob(bad is None, "message", sc, n, ast.unparse(n)[:60], bad or "")

    def braces(self, t, n):
        import string
        try:
            parts = list(string.Formatter().parse(t))
        except ValueError as e:
            return "malformed format: %s" % e
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return None
        kw = {k.arg for k in n.keywords}
        auto = 0
        for lit, field, spec, conv in parts:
            if field is None:
                continue
            root = field.split(".")[0].split("[")[0]
            if root == "":
                auto += 1
                if auto > len(n.args):
                    return "format field %d has no argument: raises IndexError" % auto
            elif root.isdigit():
                if int(root) >= len(n.args):
                    return "format field {%s} has no argument: raises IndexError" % root
            elif root not in kw:
                return "format field {%s} has no argument: raises KeyError" % root
        return None

    # -- names and attributes -------------------------------------------------

    def attributes(self):
        """self.x is defined by the class, its bases or its subclasses"""
        repo = self.ctx.repo
        infos = {}
        for m in repo.modules.values():
            if any(m.name.startswith(s) or s + "." in m.name + "." for s in SKIP) or not m.rel.endswith(".py"):
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    infos.setdefault(n.name, []).append((m, n))
        data = {}
        for name, lst in infos.items():
            for m, c in lst:
                have, used, dynamic = set(), [], False
                for s in c.body:
                    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        have.add(s.name)
                    for x in ast.walk(s) if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) else ():
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            have.add(x.id)
                for f in ast.walk(c):
                    if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        continue
                for x in ast.walk(c):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("self", "cls"):
                        if isinstance(x.ctx, ast.Store):
                            have.add(x.attr)
                        else:
                            used.append(x)
                    if isinstance(x, ast.Name) and x.id in ("setattr", "__dict__"):
                        dynamic = True
                    if isinstance(x, ast.Attribute) and x.attr in ("__dict__", "__setattr__"):
                        dynamic = True
                    # Class.x = ..., result.x = ... on new instances
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        have.add(x.attr)
                bases = [b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", "?") for b in c.bases]
                if "__getattr__" in have:
                    dynamic = True
                data[(m.name, name)] = (m, c, have, used, dynamic, bases)
        # attributes set from outside: x.attr = ... anywhere in the library
        outside = {x.attr for m in repo.modules.values() for x in ast.walk(m.tree)
                   if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)
                   and isinstance(x.value, ast.Name) and x.value.id not in ("self", "cls")}
        byname = {}
        for (mn, name), d in data.items():
            byname.setdefault(name, []).append(d)

        def closure(name, seen):
            """names of classes above and below, or None when one is foreign"""
            if name in seen:
                return True
            seen.add(name)
            if name == "object":
                return True
            if name not in byname:
                return name in ("ABC", "Exception", "object") or name in vars(builtins)
            ok = True
            for d in byname[name]:
                for b in d[5]:
                    ok = closure(b, seen) and ok
            return ok

        below = {}
        for n2, ds in byname.items():
            for d in ds:
                for b in d[5]:
                    below.setdefault(b, set()).add(n2)
        for name, ds in byname.items():
            seen = set()
            if not closure(name, seen):
                continue
            todo = [name]
            while todo:
                x = todo.pop()
                for y in below.get(x, ()):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            have = set(dir(Exception))
            dyn = False
            for s in seen:
                for d in byname.get(s, ()):
                    have |= d[2]
                    dyn |= d[4]
            if dyn:
                continue
            for m, c, _, used, _, _ in ds:
                for x in used:
                    self.ctx.count("attribute uses")
                    ok = x.attr in have or x.attr in outside
                    self.ctx.oblige(ok, "attribute", "%s.%s self.%s" % (m.name, name, x.attr),
                                    "no method of the class ever defines it: raises AttributeError", "%s:%d" % (m.rel, x.lineno))

    def undefined(self):
        """names that no scope defines, class-private mangling included"""
        for m in self.ctx.repo.modules.values():
            if any(m.name.startswith(s) or s + "." in m.name + "." for s in SKIP) or not m.rel.endswith(".py"):
                continue
            glob = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__path__", "__package__", "__spec__", "__builtins__"}
            star = False
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ImportFrom) and any(a.name == "*" for a in n.names):
                    star = True
                if isinstance(n, ast.Global):
                    glob |= set(n.names)
            if star:
                continue
            glob |= bound(m.tree)
            self.scan(m, m.tree, [glob], None)

    def scan(self, m, node, scopes, cls):
        for n in body_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for d in getattr(n, "decorator_list", []):
                    pass
                own = bound(n)
                vis = [s for s in scopes if not isinstance(s, ClassScope)]
                self.scan(m, n, vis + [own], cls)
            elif isinstance(n, ast.ClassDef):
                self.scan(m, n, scopes + [ClassScope(bound(n))], n.name)
            elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                own = set()
                for g in n.generators:
                    own |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
                self.scan(m, n, scopes + [own], cls)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.ctx.count("name uses")
                name = n.id
                if cls and name.startswith("__") and not name.endswith("__"):
                    mangled = "_" + cls.lstrip("_") + name
                    ok = any((mangled in s or (name in s and s is not scopes[0])) for s in scopes)
                    msg = "inside the class the name is %s, which nothing defines: raises NameError" % mangled
                else:
                    ok = any(name in s for s in scopes)
                    msg = "no scope defines the name: raises NameError"
                if not ok:
                    self.ctx.oblige(False, "name", "%s %s" % (m.name, name), msg, "%s:%d" % (m.rel, n.lineno))

    # -- definite assignment ----------------------------------------------------

    def assigned(self, sc):
        if isinstance(sc.node, ast.Module):
            return
        from .p21flow import Flow
        for name, n, why in Flow(sc.node, self).run():
            self.ob(False, "assigned", sc, n, name, why)
        self.ctx.count("functions with definite assignment")

    # -- handlers ------------------------------------------------------------

    def handlers(self, sc):
        for n in sc.nodes:
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    self.ctx.count("handlers")
                    why = self.swallows(sc, n, h)
                    self.ob(why is None, "swallowed", sc, h, "except %s" % (ast.unparse(h.type) if h.type else ""), why or "")
                for s in n.finalbody:
                    for x in ast.walk(s):
                        if isinstance(x, (ast.Return,)) or (isinstance(x, (ast.Break, ast.Continue)) and not any(
                                isinstance(y, (ast.For, ast.While)) and in_body(n, y, sc.up, "finalbody") for y in chain(x, sc.up, n))):
                            self.ob(False, "swallowed", sc, x, "finally", "leaving a finally drops the exception in flight")
            elif isinstance(n, ast.Call):
                d = sc.dotted(n.func) or ""
                f = n.func
                attr = f.attr if isinstance(f, ast.Attribute) else ""
                if d in ("contextlib.suppress",) or (d == "" and getattr(f, "id", "") == "suppress"):
                    types = [x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?") for x in n.args]
                    ok = all(t in LOOKUP for t in types)
                    self.ob(ok, "swallowed", sc, n, ast.unparse(n), "suppresses an error")
                if attr in ("map_async", "apply_async", "starmap_async", "submit"):
                    p = sc.up.get(n)
                    used = not isinstance(p, ast.Expr)
                    if used and isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name):
                        used = self.asked(sc, p.targets[0].id)
                    elif used and not (isinstance(p, ast.Attribute) and p.attr in ("get", "result")):
                        used = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "result")
                                   for x in sc.nodes)
                    self.ob(used, "swallowed", sc, n, attr, "the result is never asked for, so an error in the worker is lost")
                if d in ("os.system", "subprocess.call", "subprocess.getoutput", "subprocess.getstatusoutput") or (
                        d == "subprocess.run" and not any(k.arg == "check" and isinstance(k.value, ast.Constant) and k.value.value
                                                          for k in n.keywords)) or d == "subprocess.Popen":
                    ok = any(isinstance(x, ast.Attribute) and x.attr in ("returncode", "check_returncode") for x in sc.nodes)
                    ok = ok or (d == "subprocess.call" and not isinstance(sc.up.get(n), ast.Expr))
                    self.ob(ok, "swallowed", sc, n, d, "the status of the subprocess is ignored")
                for k in n.keywords:
                    if k.arg in ("errors", "on_bad_lines", "error_bad_lines", "on_error") and isinstance(k.value, ast.Constant) and \
                            k.value.value in ("ignore", "coerce", "skip", "warn", "replace", False):
                        if attr in ("drop",) and k.arg == "errors":
                            continue
                        self.ob(False, "swallowed", sc, n, "%s(%s=%r)" % (ast.unparse(n.func)[:40], k.arg, k.value.value),
                                "errors in the input are dropped silently")

    def asked(self, sc, name):
        return any(isinstance(x, ast.Attribute) and x.attr in ("get", "result") and isinstance(x.value, ast.Name) and x.value.id == name
                   for x in sc.nodes)

    def swallows(self, sc, t, h):
        types = []
        if h.type is None:
            types = ["BaseException"]
        else:
            for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                types.append(x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?"))
        if ends_raising(h.body, self):
            return None
        if h.name and forwards(h, h.name):
            return None
        if set(types) <= {"VersionError"}:
            return None
        loops = [x for s in t.body for x in ast.walk(s) if isinstance(x, (ast.For, ast.While))]
        calls = [x for s in t.body for x in ast.walk(s) if isinstance(x, ast.Call)]
        callnames = {c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "") for c in calls}
        imports = any(isinstance(s, (ast.Import, ast.ImportFrom)) for s in t.body)
        if all(x in ("ImportError", "ModuleNotFoundError") for x in types):
            return None if imports else "an import error outside an import statement is dropped"
        if not all(x in LOOKUP or x in CONVERT for x in types):
            # a broad handler: only around a look-up of a match group
            if callnames <= {"group", "groups", "groupdict", "span", "start", "end"} and len(t.body) <= 3 and not loops:
                return None
            return "catches %s and goes on" % ", ".join(types)
        if loops:
            return "an error inside the loop ends it silently"
        bad = callnames & READS
        if bad:
            return "an error of %s is dropped" % ", ".join(sorted(bad))
        lib = self.library_calls(sc, calls)
        if lib:
            return "an error inside %s is dropped" % ", ".join(sorted(lib))
        return None

    def library_calls(self, sc, calls):
        """calls of functions of the library other than small local helpers"""
        out = set()
        for c in calls:
            f = c.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
            if name is None:
                continue
            for s, up in self.scopes:
                if getattr(s.node, "name", None) == name and isinstance(s.node, ast.FunctionDef):
                    if isinstance(f, ast.Name) or (isinstance(f.value, ast.Name) and f.value.id in ("self", "cls")):
                        if len(list(ast.walk(s.node))) > 80:
                            out.add(name)
        return out


class ClassScope(frozenset):
    pass


def body_nodes(node):
    """nodes of a scope; nested scopes are yielded but not entered"""
    stack = []
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        stack = list(node.body)
    elif isinstance(node, ast.Lambda):
        stack = [node.body]
    elif isinstance(node, ast.ClassDef):
        stack = list(node.body)
    elif isinstance(node, ast.Module):
        stack = list(node.body)
    else:
        stack = list(ast.iter_child_nodes(node))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = n.args
            stack.extend(a.defaults + [d for d in a.kw_defaults if d] + list(getattr(n, "decorator_list", [])))
        elif isinstance(n, ast.ClassDef):
            stack.extend(n.bases + n.decorator_list + [k.value for k in n.keywords])
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            pass
        else:
            stack.extend(ast.iter_child_nodes(n))


def bound(node):
    """names a scope binds"""
    out = set()
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
        a = node.args
        out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        out |= {x.arg for x in (a.vararg, a.kwarg) if x}
        if not isinstance(node, ast.Lambda):
            out.add("__class__")
    if isinstance(node, ast.ClassDef):
        out |= {"__qualname__", "__module__"}
    stack = list(body_nodes(node))
    for n in stack:
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add(x.asname or x.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchAs) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
    return out


def ends_raising(body, errs):
    """every path through the statements raises"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and ends_raising(s.body, errs) and ends_raising(s.orelse, errs):
            return True
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and errs.never_returns(s.value):
            return True
        if isinstance(s, ast.Try) and ends_raising(s.body, errs) and all(ends_raising(h.body, errs) for h in s.handlers):
            return True
        if isinstance(s, ast.With) and ends_raising(s.body, errs):
            return True
    return False


def forwards(h, name):
    """the exception object is handed on on every path: put on a queue, stored, returned"""
    def must(body):
        for s in body:
            if isinstance(s, ast.If):
                if s.orelse and must(s.body) and must(s.orelse):
                    return True
                continue
            if isinstance(s, ast.Raise):
                return True
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and any(isinstance(y, ast.Name) and y.id == name for a in x.args for y in [a]) and \
                        getattr(x.func, "id", "") not in ("print", "str", "repr", "type", "isinstance", "len", "warn"):
                    if isinstance(x.func, ast.Attribute) and x.func.attr in ("warn", "debug", "info", "warning", "error", "exception",
                                                                             "write", "format"):
                        continue
                    return True
                if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and any(
                        isinstance(y, ast.Name) and y.id == name for y in [s.value]):
                    return True
        return False
    return must(h.body)


def never_returns(self, call):
    name = call.func.id if isinstance(call.func, ast.Name) else getattr(call.func, "attr", None)
    hits = [s for s, _ in self.scopes if getattr(s.node, "name", None) == name]
    return bool(hits) and all(ends_raising(s.node.body, NoDeep) for s in hits)


Errors.never_returns = never_returns


class NoDeep:
    @staticmethod
    def never_returns(call):
        return False


def forwarded(errs, ctx):
    """exceptions put on a queue by a worker are raised by the function that takes them off"""
    workers = set()
    for sc, _ in errs.scopes:
        if isinstance(sc.node, ast.Module):
            continue
        for n in sc.nodes:
            if isinstance(n, ast.ExceptHandler) and n.name:
                for x in ast.walk(n):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("put", "send", "put_nowait") and \
                            any(isinstance(a, ast.Name) and a.id == n.name for a in x.args):
                        workers.add(sc.node.name)
    for sc, _ in errs.scopes:
        starts = [n for n in sc.nodes if isinstance(n, ast.Call) and any(
            k.arg == "target" and getattr(k.value, "id", getattr(k.value, "attr", None)) in workers for k in n.keywords)]
        if not starts:
            continue
        ctx.count("worker starts", len(starts))
        group = [sc] + [s for s, _ in errs.scopes if any(
            isinstance(c, ast.Call) and (getattr(c.func, "id", None) or getattr(c.func, "attr", None)) == getattr(s.node, "name", 0)
            for c in sc.nodes)]
        callers = [s for s, _ in errs.scopes if any(
            isinstance(c, ast.Call) and (getattr(c.func, "id", None) or getattr(c.func, "attr", None)) == getattr(sc.node, "name", 0)
            for c in s.nodes)]
        ok = False
        for s in group + callers:
            for r in s.nodes:
                if isinstance(r, ast.Raise) and isinstance(r.exc, (ast.Name, ast.Subscript)):
                    for x in chain(r, s.up, s.node):
                        if isinstance(x, ast.If) and isinstance(x.test, ast.Call) and getattr(x.test.func, "id", "") == "isinstance" and \
                                getattr(x.test.args[1], "id", "") in ("Exception", "BaseException") and \
                                ast.dump(x.test.args[0]) == ast.dump(r.exc) and in_body(x, r, s.up, "body"):
                            ok = True
                    # for e in [x for x in frames if isinstance(x, Exception)]: raise e
                    for x in chain(r, s.up, s.node):
                        if isinstance(x, ast.For) and any(isinstance(y, ast.Name) and y.id in ("Exception", "BaseException")
                                                          for y in ast.walk(x.iter)):
                            ok = True
                    vs = [y.value for y in s.nodes if isinstance(y, ast.Assign) and isinstance(r.exc, (ast.Name, ast.Subscript)) and any(
                        isinstance(t, ast.Name) and t.id == getattr(r.exc if isinstance(r.exc, ast.Name) else r.exc.value, "id", None)
                        for t in y.targets)]
                    if any(isinstance(y, ast.Name) and y.id in ("Exception", "BaseException") for v in vs for y in ast.walk(v)):
                        ok = True
        ctx.oblige(ok, "forwarded", "%s workers" % sc.qual, "the exception a worker hands over is not raised by the function that started it",
                   sc.where(starts[0]))


def check(ctx):
    e = Errors(ctx)
    for sc, up in e.scopes:
        e.constructed(sc)
        e.strings(sc)
        e.handlers(sc)
        e.assigned(sc)
    e.attributes()
    e.undefined()
    forwarded(e, ctx)
    ctx.need("raise statements", 40)
    ctx.need("handlers", 8)
    ctx.need("name uses", 3000)
    ctx.need("attribute uses", 300)

"""Order and identity taint: which values depend on something other than the
input - the iteration order of a hash set, the order of directory entries, a
memory address, the clock, random numbers or the completion order of workers."""

import ast

from .terms import T, is_const, subterms

FILES = {"glob.glob", "glob.iglob", "os.listdir", "os.walk", "os.scandir", "os.fwalk"}
FILE_METHODS = {"iterdir", "rglob", "glob", "imap_unordered"}
UNORDERED_FNS = {"concurrent.futures.as_completed", "multiprocessing.connection.wait"}
IDS = {"builtins.id", "builtins.hash", "os.getpid", "threading.get_ident", "os.urandom", "os.times", "time.time",
       "time.time_ns", "time.perf_counter", "time.monotonic", "time.process_time", "time.clock", "time.localtime",
       "time.strftime", "time.ctime", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today",
       "datetime.date.today", "uuid.uuid1", "uuid.uuid4", "tempfile.mktemp", "tempfile.mkdtemp", "tempfile.mkstemp"}
ID_PREFIX = ("random.", "numpy.random.", "secrets.")
# results that do not depend on the order of a collection
ORDER_FREE = {"builtins.sorted", "builtins.len", "builtins.min", "builtins.max", "builtins.any", "builtins.all",
              "builtins.sum", "builtins.isinstance", "builtins.type", "builtins.bool", "math.fsum", "collections.Counter",
              "builtins.hasattr", "builtins.callable", "numpy.isin"}
# of these, the ones that drop even an arbitrary element's value
VALUE_FREE = {"builtins.len", "builtins.isinstance", "builtins.type", "builtins.hasattr", "builtins.callable"}
SETS = {"builtins.set", "builtins.frozenset"}
SET_METHODS = {"union", "intersection", "difference", "symmetric_difference"}
SAFE_METHODS = {"isin", "issubset", "issuperset", "isdisjoint", "update", "count", "add", "discard", "remove", "append",
                "drop", "intersection_update", "difference_update", "symmetric_difference_update"}
ROW_CLEAN = {"sort_index", "sort_values"}
SAFE_KINDS = {("C", "hatchet.node.Node"), ("int",), ("bool",), ("node",)}


class Order:
    """taint(t) is None or a text that says what the value depends on."""

    def __init__(self, ip, res, exempt=()):
        self.ip, self.st = ip, res.state
        self.contents = res.state.contents
        self.heap = res.state.heap
        self.exempt = exempt
        self.memo, self.active, self.umemo = {}, set(), {}
        self.loopobj, self.loopev = {}, {}
        self.sorts, self.breaks, self.writes, self.sites = {}, {}, {}, {}
        for e in ip.events:
            if e.kind == "loop" and e.obj is not None:
                self.loopobj.setdefault(e.name, e.obj)
                self.loopev.setdefault(e.name, e)
            elif e.kind == "call" and e.obj is not None and e.name in ("sort",) + tuple(ROW_CLEAN):
                inpl = e.kwargs.get("inplace")
                if e.name == "sort" or inpl is not None and is_const(inpl, True):
                    if not self.sort_key_bad(e.kwargs):
                        self.sorts.setdefault(e.obj, []).append(e)
            elif e.kind == "break" and e.loops:
                self.breaks.setdefault(e.loops[-1], []).append(e)
            elif e.kind == "setitem":
                self.writes.setdefault(e.obj, []).append(e)
                o = e.obj
                while o.op == "attr" and o.a[1] in ("loc", "at"):
                    o = o.a[0]
                if o is not e.obj:
                    self.writes.setdefault(o, []).append(e)

    # ------------------------------------------------------------ unordered
    def unordered(self, t):
        """The collection t has no order of its own."""
        if t in self.umemo:
            return self.umemo[t]
        self.umemo[t] = None
        r = self.umemo[t] = self._unordered(t)
        return r

    def _unordered(self, t):
        for s in self.ip.sources(t):
            r = self._unord1(s)
            if r:
                return r
        return None

    def _unord1(self, t):
        ip = self.ip
        if t.op == "call":
            f = t.a[0]
            if f.op == "ext":
                if f.a[0] in FILES:
                    return "the order of directory entries (%s)" % f.a[0]
                if f.a[0] in UNORDERED_FNS:
                    return "the order in which workers finish"
                if f.a[0] in SETS:
                    return self.hashed(t)
            if f.op == "attr" and f.a[1] in FILE_METHODS:
                return "the order of directory entries or of worker completion (%s)" % f.a[1]
            if f.op == "attr" and f.a[1] in SET_METHODS:
                ty = ip.typeof(f.a[0])
                if f.a[0].op == "set" or ty and ty[0] == "S" or self.unordered(f.a[0]):
                    return self.hashed(t)
        ty = ip.typeof(t)
        if t.op == "set" or ty and ty[0] == "S":
            return self.hashed(t)
        # items of os.walk(): (path, dirs, files)
        if t.op == "item" and t.a[0].op == "elem":
            for s in ip.sources(t.a[0].a[0]):
                if s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] == "os.walk" and not is_const(t.a[1], 0):
                    return None if t in self.sorts else "the order of directory entries (os.walk)"
        if t.op == "bin" and t.a[0] in "|&-^":
            return self.unordered(t.a[1]) if ip.typeof(t.a[1]) and ip.typeof(t.a[1])[0] == "S" else None
        return None

    def hashed(self, t):
        """A set whose elements hash differently in every process."""
        if self.exempt and self.exempt(t):
            return None
        k = self.elemkind(t)
        if k is not None and (tuple(k) in SAFE_KINDS or k[0] in ("C", "int", "bool")):
            return None
        return "the iteration order of a set"

    def elemkind(self, t, depth=0):
        ty = self.ip.typeof(t)
        if ty and ty[0] in ("S", "L") and len(ty) > 1 and ty[1]:
            return ty[1]
        if depth < 6 and t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in SET_METHODS:
            ks = [self.elemkind(x, depth + 1) for x in [t.a[0].a[0], *t.a[1]] if not (x.op == "set" and not self.contents.get(x))]
            return ks[0] if ks and all(k == ks[0] for k in ks) else None
        if depth < 6 and t.op in ("set", "list") and self.contents.get(t):
            ks = []
            for g, l, k, v in self.contents[t]:
                ks.append(self.elemkind(v.a[0], depth + 1) if v.op == "star" else self.ip.typeof(v))
            return ks[0] if ks and all(k == ks[0] for k in ks) else None
        return None

    def walk_ok(self, t, obj):
        """os.walk visits sorted directories when the dirs list is sorted in place."""
        def dirs(o):
            return o.op == "item" and o.a[0].op == "elem" and is_const(o.a[1], 1) and o.a[0].a[0] is obj

        for o, es in self.sorts.items():
            if dirs(o) and any(e.name == "sort" and self.plain(e, o.a[0]) for e in es):
                return True
        for o, es in self.writes.items():
            if dirs(o) and any(
                    e.args[0].op == "slice" and e.value.op == "call" and e.value.a[0].op == "ext" and e.value.a[0].a[0] == "builtins.sorted"
                    and not self.sort_key_bad(dict(e.value.a[2])) and self.plain(e, o.a[0]) for e in es):
                return True
        return False

    def plain(self, e, elem):
        """e runs in every iteration of the loop of elem."""
        return len(e.guard) == 0 or all(not any(x is elem for x in subterms(g)) for g in e.guard)

    def loop_taint(self, lid):
        obj = self.loopobj.get(lid)
        if obj is None:
            return None
        for s in self.ip.sources(obj):
            if s.op == "call" and s.a[0].op == "ext" and s.a[0].a[0] == "os.walk":
                if self.walk_ok(s, obj):
                    continue
                return self.unordered(s)
            if s in self.sorts and any(e.idx < self.loopev[lid].idx and implied(e.guard, self.loopev[lid].guard) for e in self.sorts[s]):
                continue
            r = self.unordered(s) or self.taint(s)
            if r:
                return r
        return None

    def loops_taint(self, loops, v=None):
        for l in loops or ():
            r = self.loop_taint(l)
            if r:
                return r
        return None

    def sort_key_bad(self, kwargs):
        k = kwargs.get("key")
        return k is not None and k.op == "ext" and k.a[0] in IDS

    # --------------------------------------------------------------- taint
    def taint(self, t):
        if t in self.memo:
            return self.memo[t]
        if t in self.active:
            return None
        self.active.add(t)
        r = self._taint(t)
        if not r and t in self.writes and t.op not in ("list", "dict", "set", "attr"):
            for e in self.writes[t]:
                if e.obj is t and e.args and e.args[0].op in ("elem", "key", "val"):
                    r = r or self.loops_taint(self.inner(t, e.loops))
        self.active.discard(t)
        self.memo[t] = r
        return r

    def any(self, xs):
        for x in xs:
            if isinstance(x, T):
                r = self.taint(x)
                if r:
                    return r
        return None

    def seq(self, x):
        """The collection x taken as a sequence."""
        return self.unordered(x) or self.taint(x)

    def cleaned(self, t):
        """An in-place sort() after the last change."""
        return t in self.sorts and any(not e.loops or True for e in self.sorts[t] if self.last(t) < e.idx)

    def last(self, t):
        n = -1
        for e in self.ip.events:
            if e.kind == "call" and e.obj is t and e.name in ("append", "extend", "insert", "add") or e.kind == "alloc" and e.value is t:
                n = max(n, e.idx)
        return n

    def _taint(self, t):
        op = t.op
        if op in ("const", "param", "default", "ext", "fn", "cls", "mod", "glob", "gen", "new", "idx", "excval", "exc", "elem", "key", "val", "bound"):
            if op in ("elem", "key", "val") and t.a and isinstance(t.a[0], T):
                return self.taint(t.a[0]) if not self.unordered(t.a[0]) and False else None
            return None
        if op == "item":
            b, k = t.a
            r = self.taint(b)
            if r:
                return r
            if self.unordered(b) and b not in self.sorts and not any(x.op == "elem" for x in (b.a[0],) if isinstance(x, T)):
                return self.unordered(b)
            if self.unordered(b) and b not in self.sorts and b.op != "item":
                return self.unordered(b)
            ty = self.ip.typeof(b)
            if ty and ty[0] == "df":
                return self.taint(k)
            return None
        if op == "slice":
            return self.any(t.a) or (self.unordered(t.a[0]) if isinstance(t.a[0], T) and t.a[0] not in self.sorts else None)
        if op == "attr":
            b, n = t.a
            if (b, n) in self.heap and self.heap[(b, n)] is not t:
                return self.taint(self.heap[(b, n)])
            return self.taint(b) or self.contained(t)
        if op == "not" or op == "truth":
            return self.taint(t.a[0])
        if op == "cmp":
            o, x, y = t.a
            if o in ("in", "notin"):
                return self.notid(self.taint(x))
            if o in ("==", "!=", "is", "isnot"):
                return self.notid(self.taint(x)) or self.notid(self.taint(y))
            r = self.any((x, y))
            return "the order of memory addresses or hashes" if r and not self.notid(r) else r
        if op in ("list", "dict", "set"):
            if self.cleaned(t):
                return None
            r = self.contained(t)
            if op == "set" and r and not self.values_only(t):
                return None
            return r
        if op == "mu":
            return self.any(self.ip.mu.get(t, [])) or self.carried(t)
        if op == "phi":
            lid = t.a[0]
            r = self.loop_taint(lid) if not isinstance(lid, T) else None
            if r:
                obj = self.loopobj.get(lid)
                for v in t.a[1:]:
                    sub = list(subterms(v))
                    if any(x.op in ("elem", "key", "val", "idx") and x.a[0] is obj for x in sub) and not any(x.op == "mu" for x in sub):
                        return r
            return self.any(t.a)
        if op == "call":
            return self._call(t)
        if op == "ite" and self.ip.typeof(t) == ("bool",):
            return self.any(t.a)
        return self.any(x for x in t.a if isinstance(x, T))

    def values_only(self, t):
        return self.any(v for g, l, k, v in self.contents.get(t, ()) if v.op != "star")

    def notid(self, r):
        """Addresses are fine for look-ups and equality."""
        return None if r in ("builtins.id()", "builtins.hash()") else r

    def ident(self, x):
        """x is an address or hash: fine for look-ups and equality."""
        return True if x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in ("builtins.id", "builtins.hash") else None

    def contained(self, t):
        for g, l, k, v in self.contents.get(t, ()):
            if t.op == "dict" and k is not None and k.op != "star":
                if self.ident(k) is None:
                    r = self.taint(k)
                    if r:
                        return r
            if v.op == "star":
                r = self.taint(v.a[0]) if t.op == "set" else self.seq(v.a[0])
            else:
                r = self.taint(v) or self.files(v)
            if r:
                return r
            if t.op != "set":
                r = self.loops_taint(self.inner(t, l))
                if r:
                    return r
        for e in self.writes.get(t, ()):
            r = self.written(e)
            if r:
                return r
        return None

    def files(self, v):
        r = self.unordered(v)
        return r if r and "directory" in r and v not in self.sorts else None

    def inner(self, t, loops):
        """Loops an entry was added in that the container outlives."""
        if t.op in ("list", "dict", "set"):
            own = self.ip.siteloops.get(t.a[0], ())
            return [l for l in loops or () if l not in own]
        return loops or ()

    def written(self, e):
        """Keys stored in an arbitrary order, or an arbitrary last writer."""
        return self.loops_taint(self.inner(e.obj, e.loops)) or (e.value is not None and self.taint(e.value)) or None

    def carried(self, t):
        """A loop-carried variable of a loop with arbitrary order."""
        lid = t.a[1] if len(t.a) > 1 else None
        r = self.loop_taint(lid) if lid is not None else None
        if not r:
            return None
        for u in self.ip.mu.get(t, []):
            if not self.commutes(t, u):
                return r
        return None

    def commutes(self, m, u):
        if u is m or u.op == "const" or not any(x is m or x.op == "elem" for x in subterms(u)):
            return True
        if u.op == "bin" and u.a[0] in ("+", "|", "&", "^", "*") and (u.a[1] is m or u.a[2] is m):
            other = u.a[2] if u.a[1] is m else u.a[1]
            ty = self.ip.typeof(other)
            return bool(ty and ty[0] in ("int", "float", "bool", "S")) or other.op == "const" and isinstance(other.a[0], (int, float))
        if u.op == "call" and u.a[0].op == "attr" and u.a[0].a[0] is m and u.a[0].a[1] in SET_METHODS:
            return True
        if u.op == "call" and u.a[0].op == "ext" and u.a[0].a[0] in ("builtins.max", "builtins.min"):
            return True
        if u.op in ("ite", "phi"):
            return all(self.commutes(m, x) for x in u.a if isinstance(x, T) and x.op not in ("cmp", "truth", "not", "and", "or"))
        return False

    def _call(self, t):
        f = t.a[0]
        args = list(t.a[1]) + [v for _, v in t.a[2]] if len(t.a) > 2 else list(t.a[1])
        args = [x for x in args if isinstance(x, T)]
        kw = dict(t.a[2]) if len(t.a) > 2 else {}
        if f.op == "ext":
            n = f.a[0]
            if n in IDS or n.startswith(ID_PREFIX):
                return "%s()" % n
            if n in VALUE_FREE:
                return None
            if n in ORDER_FREE:
                if self.sort_key_bad(kw):
                    return "memory addresses or hashes"
                if "key" in kw and n in ("builtins.sorted", "builtins.min", "builtins.max"):
                    r = self.keyfn(kw["key"]) or self.ties(kw["key"]) and args and self.unordered(args[0])
                    if r:
                        return r
                return self.any(v for x in args[:1] for v in self.elements(x)) if n != "builtins.sorted" else self.any(
                    v for x in args[:1] for v in self.elements(x))
            if n in SETS:
                return self.any(v for x in args[:1] for v in self.elements(x))
            if n in ("pandas.concat",):
                s = kw.get("sort")
                if s is not None and is_const(s, True):
                    return None
            return self.any_seq(args)
        if f.op == "attr":
            m = f.a[1]
            if m in ROW_CLEAN:
                return None
            if m in SAFE_METHODS:
                return None
            if m in SET_METHODS:
                return self.any(args) or self.taint(f.a[0])
            if m in ("get", "pop") and self.taint(f.a[0]) is None:
                if m == "pop" and self.unordered(f.a[0]):
                    return self.unordered(f.a[0])
                return self.any(x for x in args if not self.ident(x))
            return self.taint(f.a[0]) or self.any_seq(args)
        if f.op in ("fn", "bound"):
            # addresses handed to a recursive call are keys of its record of visits
            return self.any_seq([x for x in args if self.notid(self.seq(x))])
        return self.any_seq(args)

    def ties(self, k):
        """Different elements may have the same key."""
        if k.op == "ext":
            return k.a[0] not in ("builtins.str", "builtins.repr", "builtins.tuple")
        f = self.ip.repo.functions.get(k.a[0]) if k.op == "fn" else None
        if f is None:
            return False
        calls = [x.func for x in ast.walk(f.node) if isinstance(x, ast.Call)]
        return any(isinstance(c, ast.Name) and c.id in ("len", "type", "bool") or isinstance(c, ast.Attribute) and c.attr in (
            "lower", "upper", "casefold", "startswith", "endswith", "count") for c in calls)

    def keyfn(self, k):
        if k.op == "ext":
            return "memory addresses or hashes" if k.a[0] in IDS else None
        return None

    def elements(self, x):
        out = []
        for s in self.ip.sources(x):
            for g, l, k, v in self.contents.get(s, ()):
                if v.op != "star":
                    out.append(v)
        return out

    def any_seq(self, xs):
        for x in xs:
            r = self.seq(x)
            if r:
                return r
        return None


def implied(g, guard):
    return all(l in guard for l in g)

"""Reads a textX grammar (the subset hatchet uses) and derives the object tree
that a query text has under it.  The grammar is data taken from the analysed
source; nothing of the analysed program runs."""

import re

from .fold import Obj


class GrammarError(Exception):
    pass


class NoParse(Exception):
    pass


BASE = {
    "ID": (re.compile(r"[^\d\W]\w*\b"), str, ""),
    "BOOL": (re.compile(r"(True|true|False|false|0|1)\b"), lambda s: s in ("1", "true", "True"), False),
    "INT": (re.compile(r"[-+]?[0-9]+"), int, 0),
    "FLOAT": (re.compile(r"[+-]?(\d+(\.\d*)?|\.\d+)([eE][+-]?\d+)?(?<=[\w\.])(?![\w\.])"), float, 0.0),
    "STRICTFLOAT": (re.compile(r"[+-]?(((\d+\.(\d*)?|\.\d+)([eE][+-]?\d+)?)|((\d+)([eE][+-]?\d+)))(?<=[\w\.])(?![\w\.])"), float, 0.0),
    "STRING": (re.compile(r'("(\\"|[^"])*")|(\'(\\\'|[^\'])*\')'), lambda s: s[1:-1], ""),
}
BASE_ALT = {"NUMBER": (("STRICTFLOAT", "INT"), 0), "BASETYPE": (("STRICTFLOAT", "INT", "FLOAT", "BOOL", "ID", "STRING"), "")}
TOK = re.compile(r"\s*(?:(?P<lit>'(?:\\'|[^'])*'|\"(?:\\\"|[^\"])*\")|(?P<re>/(?:\\/|[^/])+/)|(?P<id>[A-Za-z_]\w*)|(?P<op>\+=|\*=|\?=|=|[()|*+?!&:;#\[\]])|(?P<c>//[^\n]*))")


class Grammar:
    def __init__(self, text):
        toks, i = [], 0
        text = text.rstrip()
        while i < len(text):
            m = TOK.match(text, i)
            if not m:
                raise GrammarError("at %r" % text[i:i + 20])
            i = m.end()
            if m.lastgroup != "c":
                toks.append((m.lastgroup, m.group(m.lastgroup)))
        self.t, self.i = toks, 0
        self.rules, self.order = {}, []
        while self.i < len(self.t):
            n = self._take("id")
            self._op(":")
            body = self._alt()
            self._op(";")
            self.rules[n] = body
            self.order.append(n)
        self.common = {n: self._assigns(b) for n, b in self.rules.items()}

    # ------------------------------------------------------------ reading
    def _peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def _take(self, kind):
        k, v = self._peek()
        if k != kind:
            raise GrammarError("expected %s, found %r" % (kind, v))
        self.i += 1
        return v

    def _op(self, s):
        if self._peek() != ("op", s):
            raise GrammarError("expected %s, found %r" % (s, self._peek()[1]))
        self.i += 1

    def _alt(self):
        alts = [self._seq()]
        while self._peek() == ("op", "|"):
            self.i += 1
            alts.append(self._seq())
        return ("alt", alts) if len(alts) > 1 else alts[0]

    def _seq(self):
        xs = []
        while True:
            k, v = self._peek()
            if k is None or (k, v) in (("op", "|"), ("op", ";"), ("op", ")")):
                return ("seq", xs)
            xs.append(self._rep())

    def _rep(self):
        x = self._atom()
        k, v = self._peek()
        if k == "op" and v in ("*", "+", "?"):
            self.i += 1
            if self._peek()[1] in ("[", "#"):
                raise GrammarError("repetition modifiers")
            return ("rep", v, x)
        return x

    def _atom(self):
        k, v = self._peek()
        if (k, v) == ("op", "("):
            self.i += 1
            x = self._alt()
            self._op(")")
            return x
        if k == "op" and v in ("!", "&"):
            self.i += 1
            return ("look", v, self._atom())
        self.i += 1
        if k == "lit":
            return ("lit", v[1:-1].replace("\\'", "'"))
        if k == "re":
            return ("re", v[1:-1].replace("\\/", "/"))
        if k == "id":
            k2, v2 = self._peek()
            if k2 == "op" and v2 in ("=", "+=", "*=", "?="):
                self.i += 1
                return ("assign", v, v2, self._atom())
            return ("ref", v)
        raise GrammarError("unexpected %r" % (v,))

    def _assigns(self, b):
        """Assignments in a rule body: (name, op, right-hand side)."""
        if b[0] == "assign":
            return [(b[1], b[2], b[3])]
        if b[0] in ("alt", "seq"):
            return [x for y in b[1] for x in self._assigns(y)]
        if b[0] in ("rep", "look"):
            inner = self._assigns(b[2])
            if b[0] == "rep" and b[1] in ("*", "+"):
                inner = [(n, "+=" if o == "=" else o, r) for n, o, r in inner]
            return inner
        return []

    # ------------------------------------------------------------ matching
    def parse(self, text):
        p, v = self._rule(self.order[0], text, 0)
        p = self._ws(text, p)
        if p != len(text):
            raise NoParse("rest %r" % text[p:])
        return v

    def _ws(self, s, p):
        while p < len(s) and s[p] in " \t\n\r":
            p += 1
        return p

    def _rule(self, n, s, p):
        if n in BASE:
            p = self._ws(s, p)
            m = BASE[n][0].match(s, p)
            if not m:
                raise NoParse(n)
            return m.end(), BASE[n][1](m.group())
        if n in BASE_ALT:
            for k in BASE_ALT[n][0]:
                try:
                    return self._rule(k, s, p)
                except NoParse:
                    pass
            raise NoParse(n)
        if n not in self.rules:
            raise GrammarError("no rule %s" % n)
        asg = self.common[n]
        if not asg:  # abstract or match rule
            out = []
            p = self._match(self.rules[n], s, p, None, out)
            objs = [x for x in out if not isinstance(x, _Lit)]
            if objs:
                return p, objs[0]
            return p, "".join(x.s for x in out)
        o = Obj(n)
        types = {}
        for a, op, r in asg:
            types.setdefault(a, []).append((op, r))
        for a, xs in types.items():
            ts = {r[1] if r[0] == "ref" else None for _, r in xs}
            if any(op in ("+=", "*=") for op, _ in xs) or len(xs) > 1 and self._both(self.rules[n], a) > 1:
                o.attrs[a] = []
            elif any(op == "?=" for op, _ in xs):
                o.attrs[a] = False
            elif len(ts) == 1:
                t = next(iter(ts))
                o.attrs[a] = BASE[t][2] if t in BASE else BASE_ALT[t][1] if t in BASE_ALT else None
            else:
                o.attrs[a] = None
        p = self._match(self.rules[n], s, p, o, [])
        return p, o

    def _both(self, b, a):
        """How often attribute `a` can be assigned in one match of `b`."""
        if b[0] == "assign":
            return 1 if b[1] == a else 0
        if b[0] == "alt":
            return max(self._both(x, a) for x in b[1])
        if b[0] == "seq":
            return sum(self._both(x, a) for x in b[1])
        if b[0] == "rep":
            return self._both(b[2], a) * (1 if b[1] == "?" else 2)
        return 0

    def _match(self, b, s, p, o, out):
        k = b[0]
        if k == "seq":
            for x in b[1]:
                p = self._match(x, s, p, o, out)
            return p
        if k == "alt":
            for x in b[1]:
                save = dict((a, list(v) if isinstance(v, list) else v) for a, v in o.attrs.items()) if o is not None else None
                n = len(out)
                try:
                    return self._match(x, s, p, o, out)
                except NoParse:
                    del out[n:]
                    if o is not None:
                        o.attrs.clear()
                        o.attrs.update(save)
            raise NoParse("alt")
        if k == "rep":
            i = 0
            while True:
                save = dict((a, list(v) if isinstance(v, list) else v) for a, v in o.attrs.items()) if o is not None else None
                n = len(out)
                try:
                    q = self._match(b[2], s, p, o, out)
                except NoParse:
                    del out[n:]
                    if o is not None:
                        o.attrs.clear()
                        o.attrs.update(save)
                    break
                i += 1
                if q == p:
                    break
                p = q
                if b[1] == "?":
                    break
            if b[1] == "+" and i == 0:
                raise NoParse("rep")
            return p
        if k == "look":
            try:
                self._match(b[2], s, p, Obj("_"), [])
                ok = True
            except NoParse:
                ok = False
            if ok == (b[1] == "!"):
                raise NoParse("look")
            return p
        if k in ("lit", "re"):
            p = self._ws(s, p)
            m = re.compile(b[1] if k == "re" else re.escape(b[1])).match(s, p)
            if not m:
                raise NoParse(b[1])
            out.append(_Lit(m.group()))
            return m.end()
        if k == "ref":
            p, v = self._rule(b[1], s, p)
            out.append(v)
            return p
        if k == "assign":
            _, a, op, r = b
            if op == "?=":
                try:
                    p = self._match(r, s, p, None, [])
                    o.attrs[a] = True
                except NoParse:
                    pass
                return p
            n = 0
            while True:
                try:
                    got = []
                    q = self._match(r, s, p, None, got)
                except NoParse:
                    if op == "=" or op == "+=" and n == 0:
                        raise
                    return p
                v = got[-1] if got else None
                v = v.s if isinstance(v, _Lit) else v
                if isinstance(o.attrs.get(a), list):
                    o.attrs[a].append(v)
                else:
                    o.attrs[a] = v
                n += 1
                if op == "=" or q == p:
                    return q
                p = q
        raise GrammarError(k)


class _Lit:
    def __init__(self, s):
        self.s = s

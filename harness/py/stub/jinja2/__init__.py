"""A small stand-in for jinja2: the language of its templates, as far as
templates that write program text use it. Written from jinja2's documentation;
the real package is not installed here."""
import re

__version__ = "3.1.0"


class TemplateError(Exception):
    pass


class TemplateSyntaxError(TemplateError):
    pass


class UndefinedError(TemplateError):
    pass


class Undefined(object):
    def __init__(self, name=None):
        self.__dict__["_name"] = name

    def _fail(self, *a, **k):
        raise UndefinedError("%r is undefined" % (self._name,))

    def __getattr__(self, n):
        if n[:2] == "__":
            raise AttributeError(n)
        self._fail()

    __call__ = __getitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __lt__ = __le__ = __gt__ = __ge__ = \
        __int__ = __float__ = __neg__ = __pos__ = __mod__ = __rmod__ = __truediv__ = __floordiv__ = _fail

    def __str__(self):
        return ""

    def __repr__(self):
        return "Undefined"

    def __len__(self):
        return 0

    def __iter__(self):
        return iter(())

    def __bool__(self):
        return False

    def __eq__(self, o):
        return type(self) is type(o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return id(type(self))

    def __contains__(self, o):
        return False


class Namespace(object):
    def __init__(self, *a, **k):
        self.__dict__["_d"] = dict(*a, **k)

    def __getattr__(self, n):
        try:
            return self._d[n]
        except KeyError:
            raise AttributeError(n)

    def __setitem__(self, n, v):
        self._d[n] = v

    def __getitem__(self, n):
        return self._d[n]


# ---- the lexer ---------------------------------------------------------------

_tag = re.compile(r"\{([%{#])([-+]?)")
_tok = re.compile(r"""\s+|(?P<name>[^\W\d]\w*)|(?P<float>\d+(?:_\d+)*(?:\.\d+(?:[eE][-+]?\d+)?|[eE][-+]?\d+))|(?P<int>0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+|\d+(?:_\d+)*)"""
                  r"""|(?P<str>'(?:[^'\\]|\\.)*'|"(?:[^"\\]|\\.)*")|(?P<op>\*\*|//|==|!=|>=|<=|[-+*/%~<>=()\[\]{}.,:|])""", re.S)
_close = {"%": "%}", "{": "}}", "#": "#}"}


def _unquote(s):
    import ast
    return ast.literal_eval("'''" + s[1:-1].replace("'''", "''\\'") + "'''") if s[0] == "'" else ast.literal_eval(s.replace("\n", "\\n"))


def _lex_tag(src, i, close):
    """The tokens up to the closing mark, and the position after it."""
    out, depth = [], 0
    while True:
        m = re.compile(r"\s*").match(src, i)
        i = m.end()
        if depth == 0:
            for sign in ("-", "+", ""):
                if src.startswith(sign + close, i):
                    return out, i + len(sign + close), sign
        m = _tok.match(src, i)
        if not m:
            raise TemplateSyntaxError("unexpected %r" % src[i:i + 20])
        i = m.end()
        kind, text = m.lastgroup, m.group()
        if kind == "op":
            depth += text in "([{"
            depth -= text in ")]}"
        elif kind == "int":
            text = int(text.replace("_", ""), 0) if len(text) > 1 and text[1].isalpha() else int(text.replace("_", ""))
        elif kind == "float":
            text = float(text.replace("_", ""))
        elif kind == "str":
            text = _unquote(text)
        if kind:
            out.append((kind, text))


def _lex(src):
    src = "\n".join(re.split(r"\r\n|\r|\n", src))
    if src.endswith("\n"):
        src = src[:-1]
    out, i, strip = [], 0, False
    while True:
        m = _tag.search(src, i)
        text = src[i:m.start()] if m else src[i:]
        if strip:
            text = text.lstrip()
        if m and m.group(2) == "-":
            text = text.rstrip()
        if text:
            out.append(("text", text))
        if not m:
            return out
        kind = m.group(1)
        if kind == "#":
            e = re.compile(r"([-+]?)#\}").search(src, m.end())
            if not e:
                raise TemplateSyntaxError("no end of a comment")
            i, strip = e.end(), e.group(1) == "-"
            continue
        toks, i, sign = _lex_tag(src, m.end(), _close[kind])
        strip = sign == "-"
        if kind == "%" and toks and toks[0] == ("name", "raw"):
            e = re.compile(r"\{%[-+]?\s*endraw\s*([-+]?)%\}").search(src, i)
            text = src[i:e.start()]
            out.append(("text", text.lstrip() if strip else text))
            i, strip = e.end(), e.group(1) == "-"
            continue
        out.append(("stmt" if kind == "%" else "expr", toks))


# ---- expressions -------------------------------------------------------------

class _P(object):
    """Parses expressions into functions of a scope."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, *vals):
        return self.i < len(self.t) and self.t[self.i][0] in ("op", "name") and self.t[self.i][1] in vals

    def take(self, *vals):
        if self.peek(*vals):
            self.i += 1
            return self.t[self.i - 1][1]
        return None

    def need(self, val):
        if not self.take(val):
            raise TemplateSyntaxError("expected %r in %r" % (val, self.t))

    def name(self):
        if self.i < len(self.t) and self.t[self.i][0] == "name":
            self.i += 1
            return self.t[self.i - 1][1]
        raise TemplateSyntaxError("expected a name in %r" % (self.t,))

    def end(self):
        if self.i < len(self.t):
            raise TemplateSyntaxError("unexpected %r" % (self.t[self.i:],))

    def tuple(self, cond=True):
        l, comma = [], False
        while True:
            if l and (self.i >= len(self.t) or self.peek(")", "}", "]", "in", "recursive")):
                break
            l.append(self.expr() if cond else self.or_())
            if not self.take(","):
                break
            comma = True
        if len(l) == 1 and not comma:
            return l[0]
        return lambda s: tuple(f(s) for f in l)

    def expr(self):
        a = self.or_()
        while self.take("if"):
            c = self.or_()
            b = self.expr() if self.take("else") else (lambda s: Undefined())
            a = (lambda a, b, c: lambda s: a(s) if c(s) else b(s))(a, b, c)
        return a

    def or_(self):
        a = self.and_()
        while self.take("or"):
            a = (lambda a, b: lambda s: a(s) or b(s))(a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.take("and"):
            a = (lambda a, b: lambda s: a(s) and b(s))(a, self.not_())
        return a

    def not_(self):
        if self.take("not"):
            a = self.not_()
            return lambda s: not a(s)
        return self.compare()

    _cmp = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
            ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "in": lambda a, b: a in b, "not in": lambda a, b: a not in b}

    def compare(self):
        first, ops = self.add(), []
        while True:
            op = self.take("==", "!=", "<", "<=", ">", ">=", "in")
            if not op and self.peek("not") and self.t[self.i + 1:self.i + 2] == [("name", "in")]:
                self.i += 2
                op = "not in"
            if not op:
                break
            ops.append((self._cmp[op], self.add()))
        if not ops:
            return first

        def f(s):
            a = first(s)
            for op, g in ops:
                b = g(s)
                if not op(a, b):
                    return False
                a = b
            return True
        return f

    def _left(self, ops, sub):
        a = sub()
        while True:
            op = self.take(*ops)
            if not op:
                return a
            a = (lambda a, b, f: lambda s: f(a(s), b(s)))(a, sub(), ops[op])

    def add(self):
        return self._left({"+": lambda a, b: a + b, "-": lambda a, b: a - b}, self.concat)

    def concat(self):
        return self._left({"~": lambda a, b: str(a) + str(b)}, self.mul)

    def mul(self):
        return self._left({"*": lambda a, b: a * b, "/": lambda a, b: a / b, "//": lambda a, b: a // b, "%": lambda a, b: a % b}, self.pow)

    def pow(self):
        return self._left({"**": lambda a, b: a ** b}, self.unary)

    def unary(self, filters=True):
        if self.take("-"):
            a = self.unary(False)
            r = lambda s: -a(s)
        elif self.take("+"):
            a = self.unary(False)
            r = lambda s: +a(s)
        else:
            r = self.postfix(self.primary())
        return self.filters(r) if filters else r

    def primary(self):
        if self.i >= len(self.t):
            raise TemplateSyntaxError("unexpected end of %r" % (self.t,))
        kind, v = self.t[self.i]
        self.i += 1
        if kind == "name":
            if v in ("true", "True", "false", "False", "none", "None"):
                c = {"t": True, "f": False, "n": None}[v[0].lower()]
                return lambda s: c
            return lambda s: s.get(v)
        if kind == "str":
            while self.i < len(self.t) and self.t[self.i][0] == "str":
                v += self.t[self.i][1]
                self.i += 1
            return lambda s: v
        if kind in ("int", "float"):
            return lambda s: v
        if v == "(":
            if self.take(")"):
                return lambda s: ()
            r = self.tuple()
            self.need(")")
            return r
        if v == "[":
            l = []
            while not self.take("]"):
                l.append(self.expr())
                if not self.peek("]"):
                    self.need(",")
            return lambda s: [f(s) for f in l]
        if v == "{":
            l = []
            while not self.take("}"):
                k = self.expr()
                self.need(":")
                l.append((k, self.expr()))
                if not self.peek("}"):
                    self.need(",")
            return lambda s: {k(s): x(s) for k, x in l}
        raise TemplateSyntaxError("unexpected %r" % (v,))

    def args(self):
        pos, kw, star, dstar = [], [], [], []
        while not self.take(")"):
            if self.take("**"):
                dstar.append(self.expr())
            elif self.take("*"):
                star.append(self.expr())
            elif self.t[self.i][0] == "name" and self.t[self.i + 1:self.i + 2] == [("op", "=")]:
                n = self.name()
                self.i += 1
                kw.append((n, self.expr()))
            else:
                pos.append(self.expr())
            if not self.peek(")"):
                self.need(",")

        def f(s):
            a = [g(s) for g in pos]
            for g in star:
                a += list(g(s))
            k = {n: g(s) for n, g in kw}
            for g in dstar:
                k.update(g(s))
            return a, k
        return f

    def postfix(self, r):
        while True:
            if self.take("."):
                kind, v = self.t[self.i]
                self.i += 1
                if kind == "int":
                    r = (lambda r, v: lambda s: _getitem(r(s), v))(r, v)
                elif kind == "name":
                    r = (lambda r, v: lambda s: _getattr(r(s), v))(r, v)
                else:
                    raise TemplateSyntaxError("expected a name or a number")
            elif self.take("["):
                r = (lambda r, g: lambda s: _getitem(r(s), g(s)))(r, self.subscript())
            elif self.take("("):
                r = (lambda r, a: lambda s: _call(r(s), a(s)))(r, self.args())
            else:
                return r

    def subscript(self):
        parts = [None]
        if not self.peek(":"):
            parts[0] = self.tuple()
        if self.take("]"):
            return parts[0]
        while self.take(":"):
            parts.append(None if self.peek(":", "]") else self.expr())
        self.need("]")
        return lambda s: slice(*[f and f(s) for f in parts])

    def filters(self, r):
        while True:
            if self.take("|"):
                n = self.name()
                while self.take("."):
                    n += "." + self.name()
                if n not in FILTERS:
                    raise TemplateSyntaxError("no filter named %r" % n)
                a = self.args() if self.take("(") else (lambda s: ([], {}))
                r = (lambda r, f, a: lambda s: (lambda x: f(r(s), *x[0], **x[1]))(a(s)))(r, FILTERS[n], a)
            elif self.take("is"):
                neg = bool(self.take("not"))
                n = self.name()
                if n not in TESTS:
                    raise TemplateSyntaxError("no test named %r" % n)
                a = lambda s: ([], {})
                if self.take("("):
                    a = self.args()
                elif self.i < len(self.t) and (self.t[self.i][0] in ("int", "float", "str") or self.peek("[", "{") or
                                               self.t[self.i][0] == "name" and not self.peek("else", "or", "and", "is", "not", "in", "if")):
                    g = self.postfix(self.primary())
                    a = (lambda g: lambda s: ([g(s)], {}))(g)
                r = (lambda r, f, a, neg: lambda s: (lambda x: bool(f(r(s), *x[0], **x[1])) != neg)(a(s)))(r, TESTS[n], a, neg)
            elif self.peek("("):
                self.i += 1
                r = (lambda r, a: lambda s: _call(r(s), a(s)))(r, self.args())
            else:
                return r


def _call(f, a):
    return f(*a[0], **a[1])


def _getattr(obj, name):
    try:
        return getattr(obj, name)
    except AttributeError:
        pass
    try:
        return obj[name]
    except (TypeError, LookupError, AttributeError):
        return Undefined(name)


def _getitem(obj, arg):
    try:
        return obj[arg]
    except (AttributeError, TypeError, LookupError):
        if isinstance(arg, str):
            try:
                return getattr(obj, arg)
            except AttributeError:
                pass
        return Undefined(arg)


def _indent(s, width=4, first=False, blank=False):
    indention = width if isinstance(width, str) else " " * width
    newline = "\n"
    s = str(s) + newline
    if blank:
        rv = (newline + indention).join(s.splitlines())
    else:
        lines = s.splitlines()
        rv = lines.pop(0)
        if lines:
            rv += newline + newline.join(indention + line if line else line for line in lines)
    if first:
        rv = indention + rv
    return rv


def _map(seq, *a, **k):
    if "attribute" in k:
        return [_getattr(x, k["attribute"]) for x in seq]
    return [FILTERS[a[0]](x, *a[1:], **k) for x in seq]


FILTERS = {
    "indent": _indent,
    "join": lambda l, d="", attribute=None: str(d).join(str(_getattr(x, attribute) if attribute else x) for x in l),
    "length": len, "count": len, "string": str, "list": list, "int": lambda x, d=0, base=10: int(x), "float": lambda x, d=0.0: float(x),
    "upper": lambda s: str(s).upper(), "lower": lambda s: str(s).lower(), "title": lambda s: str(s).title(), "capitalize": lambda s: str(s).capitalize(),
    "trim": lambda s, chars=None: str(s).strip(chars), "replace": lambda s, a, b, count=-1: str(s).replace(str(a), str(b), -1 if count is None else count),
    "default": lambda x, d="", b=False: d if isinstance(x, Undefined) or b and not x else x,
    "first": lambda l: next(iter(l), Undefined()), "last": lambda l: next(iter(reversed(l)), Undefined()),
    "sort": lambda l, reverse=False, case_sensitive=False, attribute=None: sorted(l, key=lambda x: _getattr(x, attribute) if attribute else x, reverse=reverse),
    "reverse": lambda l: l[::-1] if isinstance(l, str) else list(reversed(l)), "abs": abs, "sum": sum, "min": min, "max": max, "round": round,
    "safe": lambda x: x, "format": lambda s, *a, **k: str(s) % (k or a), "unique": lambda l: list(dict.fromkeys(l)), "map": _map,
    "attr": lambda o, n: getattr(o, n, Undefined(n)), "select": lambda l, t=None, *a: [x for x in l if (TESTS[t](x, *a) if t else x)],
    "reject": lambda l, t=None, *a: [x for x in l if not (TESTS[t](x, *a) if t else x)], "items": lambda d: list(d.items()),
}
FILTERS["d"] = FILTERS["default"]

TESTS = {
    "defined": lambda x: not isinstance(x, Undefined), "undefined": lambda x: isinstance(x, Undefined), "none": lambda x: x is None,
    "true": lambda x: x is True, "false": lambda x: x is False, "boolean": lambda x: isinstance(x, bool), "string": lambda x: isinstance(x, str),
    "number": lambda x: isinstance(x, (int, float)), "integer": lambda x: isinstance(x, int) and not isinstance(x, bool), "float": lambda x: isinstance(x, float),
    "mapping": lambda x: isinstance(x, dict), "sequence": lambda x: hasattr(x, "__len__") and hasattr(x, "__getitem__"), "iterable": lambda x: hasattr(x, "__iter__"),
    "callable": callable, "odd": lambda x: x % 2 == 1, "even": lambda x: x % 2 == 0, "divisibleby": lambda x, n: x % n == 0, "sameas": lambda x, y: x is y,
    "in": lambda x, l: x in l, "eq": lambda x, y: x == y, "equalto": lambda x, y: x == y, "ne": lambda x, y: x != y, "lt": lambda x, y: x < y,
    "gt": lambda x, y: x > y, "ge": lambda x, y: x >= y, "le": lambda x, y: x <= y, "filter": lambda n: n in FILTERS, "lower": lambda s: str(s).islower(),
    "upper": lambda s: str(s).isupper(),
}
TESTS.update({"greaterthan": TESTS["gt"], "lessthan": TESTS["lt"]})


# ---- statements --------------------------------------------------------------

class _Scope(object):
    def __init__(self, vars, up=None):
        self.vars, self.up = vars, up

    def get(self, n):
        s = self
        while s:
            if n in s.vars:
                return s.vars[n]
            s = s.up
        return Undefined(n)


def _targets(p):
    """The names that a for or a set assigns to."""
    l, group = [], p.take("(")
    while True:
        l.append(p.name())
        if not p.take(","):
            break
        if p.peek("in", "=", ")"):
            return l, True
    if group:
        p.need(")")
    return l, len(l) > 1


def _assign(vars, targets, v):
    names, many = targets
    if not many:
        vars[names[0]] = v
        return
    v = list(v)
    if len(v) != len(names):
        raise ValueError("wrong number of values to unpack")
    vars.update(zip(names, v))


class Loop(object):
    def __init__(self, items, i, depth=1):
        n = len(items)
        self.index0, self.index, self.first, self.last, self.length = i, i + 1, i == 0, i == n - 1, n
        self.revindex, self.revindex0 = n - i, n - i - 1
        self.previtem = items[i - 1] if i else Undefined("previtem")
        self.nextitem = items[i + 1] if i + 1 < n else Undefined("nextitem")
        self.depth, self.depth0 = depth, depth - 1

    def cycle(self, *a):
        return a[self.index0 % len(a)]


class _Body(object):
    """A parser of statements. Nodes are functions of a scope that give text."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def block(self, *ends):
        """Nodes up to one of the ends; gives that end, too."""
        out = []
        while self.i < len(self.t):
            kind, v = self.t[self.i]
            self.i += 1
            if kind == "text":
                out.append((lambda v: lambda s: v)(v))
            elif kind == "expr":
                p = _P(v)
                e = p.tuple()
                p.end()
                out.append((lambda e: lambda s: str(e(s)))(e))
            else:
                p = _P(v)
                w = p.name()
                if w in ends:
                    return out, w, p
                out.append(self.stmt(w, p))
        if ends:
            raise TemplateSyntaxError("expected one of %r" % (ends,))
        return out, None, None

    def stmt(self, w, p):
        f = getattr(self, "s_" + w, None)
        if not f:
            raise TemplateSyntaxError("unknown tag %r" % w)
        return f(p)

    def s_if(self, p):
        arms = []
        cond = p.tuple(False) if False else p.expr()
        p.end()
        while True:
            body, w, p = self.block("elif", "else", "endif")
            arms.append((cond, body))
            if w == "endif":
                break
            if w == "else":
                body, w, p = self.block("endif")
                arms.append((lambda s: True, body))
                break
            cond = p.expr()
            p.end()

        def f(s):
            for c, b in arms:
                if c(s):
                    return _run(b, s)
            return ""
        return f

    def s_for(self, p):
        targets = _targets(p)
        p.need("in")
        it = p.tuple(False)
        test = p.or_() if p.take("if") else None
        p.take("recursive")
        p.end()
        body, w, p = self.block("else", "endfor")
        other = []
        if w == "else":
            other, w, p = self.block("endfor")

        def f(s):
            items = []
            for x in it(s):
                v = {}
                _assign(v, targets, x)
                if test is None or test(_Scope(v, s)):
                    items.append(x)
            out = []
            for i, x in enumerate(items):
                v = {"loop": Loop(items, i)}
                _assign(v, targets, x)
                out.append(_run(body, _Scope(v, s)))
            return "".join(out) if items else _run(other, _Scope({}, s))
        return f

    def s_set(self, p):
        if len(p.t) > 3 and p.t[2] == ("op", "."):
            ns, attr = p.name(), None
            p.i += 1
            attr = p.name()
            p.need("=")
            e = p.tuple()
            p.end()

            def g(s):
                s.get(ns)[attr] = e(s)
                return ""
            return g
        targets = _targets(p)
        if p.take("="):
            e = p.tuple()
            p.end()

            def f(s):
                _assign(s.vars, targets, e(s))
                return ""
            return f
        r = p.filters(lambda s: s.get("caller value"))
        p.end()
        body, w, p = self.block("endset")

        def h(s):
            _assign(s.vars, targets, r(_Scope({"caller value": _run(body, _Scope({}, s))}, s)))
            return ""
        return h

    def s_filter(self, p):
        p.t = [("op", "|")] + p.t[p.i:]
        p.i = 0
        r = p.filters(lambda s: s.get("caller value"))
        p.end()
        body, w, q = self.block("endfilter")
        return lambda s: str(r(_Scope({"caller value": _run(body, _Scope({}, s))}, s)))

    def s_with(self, p):
        l = []
        while p.i < len(p.t):
            n = p.name()
            p.need("=")
            l.append((n, p.expr()))
            p.take(",")
        body, w, p = self.block("endwith")
        return lambda s: _run(body, _Scope({n: e(s) for n, e in l}, s))

    def s_macro(self, p):
        name = p.name()
        p.need("(")
        params = []
        while not p.take(")"):
            n = p.name()
            params.append((n, p.expr() if p.take("=") else None))
            if not p.peek(")"):
                p.need(",")
        body, w, p = self.block("endmacro")

        def f(s):
            def macro(*a, **k):
                v = {}
                for i, (n, d) in enumerate(params):
                    v[n] = a[i] if i < len(a) else k[n] if n in k else d(s) if d else Undefined(n)
                return _run(body, _Scope(v, s))
            s.vars[name] = macro
            return ""
        return f

    def s_do(self, p):
        e = p.tuple()

        def f(s):
            e(s)
            return ""
        return f


def _run(nodes, s):
    return "".join([n(s) for n in nodes])


_cache = {}


def _cycler():
    raise TemplateError("not in this stand-in")


class Template(object):
    def __init__(self, source, *args, **opts):
        if args or any(opts.values()):
            raise TemplateError("this stand-in knows no options of templates: %r" % (opts or args,))
        if source not in _cache:
            _cache[source] = _Body(_lex(source)).block()[0]
        self.nodes = _cache[source]

    def render(self, *a, **k):
        return _run(self.nodes, _Scope(dict(*a, **k), _Scope({"range": range, "dict": dict, "namespace": Namespace})))


class Environment(object):
    def __init__(self, **opts):
        if any(opts.values()):
            raise TemplateError("this stand-in knows no options of environments")
        self.filters, self.tests, self.globals = FILTERS, TESTS, {}

    def from_string(self, s):
        return Template(s)

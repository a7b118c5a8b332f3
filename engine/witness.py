"""Separating valuations for two value-graph summaries.

When two summaries are not identical after normalisation, a separating valuation of the inputs is
looked for; a difference is only reported when one is found, so an incomplete normal form can never
raise an alarm.  Valuations are exact rationals (IEEE doubles in 'fp' mode)."""
import math
import random
from fractions import Fraction
from . import nodes as N
from .nodes import Node, sort_of

INF_CAP = 60


class Skip(Exception):
    """valuation not usable (undefined value, numerically ambiguous, unbounded loop)"""


class NoEval(Exception):
    """summary contains constructs without a value (unmodelled callee)"""


def no_name(k):
    """a leaf's place without the name of the parameter"""
    if isinstance(k, tuple):
        if len(k) == 2 and k[0] == "sym" and isinstance(k[1], str):
            return ("sym", k[1].partition(".")[2])
        return tuple(no_name(x) for x in k)
    if isinstance(k, str):
        return k.partition(".")[2] if "." in k else k
    return k


class CBase:
    __slots__ = ("key", "ty")

    def __init__(self, key, ty=None):
        self.key = key
        self.ty = ty


class CClosure:
    __slots__ = ("node", "env")

    def __init__(self, node, env):
        self.node = node
        self.env = env


class CStored:
    __slots__ = ("base", "i", "node", "env")

    def __init__(self, base, i, node, env):
        self.base, self.i, self.node, self.env = base, i, node, env


class CUndef:
    pass


STYLES = (0, 1, 2, 3, 4, 5, 6, 7, 9, 10)


class Point:
    def __init__(self, seed, style=0, pool=(), ipool=()):
        self.pool = pool
        self.ipool = ipool
        self.rng = random.Random(seed)
        self.style = style
        self.scale = None
        self.vals = {}
        self.touched = None
        self.echo = {}
        self.cache = {}
        self.envcache = {}
        self.steps = 0

    # ---------------------------------------------------------- leaves
    def pick(self, key, sort, path_last, name, zm=None):
        if self.touched is not None:
            self.touched[key] = (sort, path_last)
        v = self.vals.get(key)
        if v is not None:
            return v[0]
        r = self.rng
        if self.style == 5:                 # the parameters alike, with an odd difference
            e = (no_name(key), sort)
            if e in self.echo and r.random() < 0.96:
                v = self.echo[e]
                self.vals[key] = (v, name)
                return v
            self.style = 0
            v = self.pick(key, sort, path_last, name, zm)
            self.style = 5
            if sort == "r" and r.random() < 0.6 and v == v:
                v = v * 0
                self.vals[key] = (v, name)
            self.echo.setdefault(e, v)
            return v
        if sort == "r":
            v = self.real(r)
            if N.MODE.nan and r.random() < 0.15:
                v = float("nan") if (N.MODE.nanable is not None and (zm is True or zm is None and self.nanok(name))) else v
        elif sort == "i":
            if path_last == "disc":
                v = r.randint(0, 3)
            elif path_last == "len":
                v = r.choice((0, 1, 2, 2, 3, 3, 4, 4, 5))
            elif path_last == "u":
                v = r.choice((0, 0, 1, 1, 2, 3, 4))
            elif self.ipool and self.style == 9 and r.random() < 0.85:
                v = r.choice(self.ipool)
            elif self.ipool and r.random() < 0.4:
                v = r.choice(self.ipool) + r.choice((0, 0, 0, 1, -1))
            else:
                v = r.choice((-3, -2, -1, -1, 0, 0, 1, 1, 2, 3, 4, 65, 100, -4, -8, 5, 8, -7))
        elif sort == "b":
            v = r.random() < 0.5
        elif sort == "str":
            n = r.choice((9, 9, 9, 3, 2, 4))
            v = "".join(r.choice("012TF*") for _ in range(n))
        else:
            raise NoEval("leaf sort %s" % (sort,))
        if self.style == 9 and path_last not in ("len", "u", "disc"):        # mostly one value
            if r.random() < 0.75 and v == v:
                v = self.echo.setdefault(("dominant", sort), v)
        self.vals[key] = (v, name)
        return v

    def nanok(self, name):
        f = getattr(N.MODE.nanable, "__self__", None)
        return True if f is None else name in N.MISSABLE

    def real(self, r):
        s = self.style
        if self.pool and r.random() < 0.1:
            c = r.choice(self.pool) * r.choice((1, -1, 1, 2))
            if N.MODE.fp:
                return float(c) * r.choice((1.0, 1.0, 1 + 2.0 ** -52, 1 - 2.0 ** -53))
            return c + r.choice((0, 0, Fraction(1, 4), -Fraction(1, 4), Fraction(1, 10 ** 18)))
        if N.MODE.fp:
            k = r.random()
            if s == 7:                      # everything near one end of the range
                if self.scale is None:
                    self.scale = r.choice((1e-300, 1e-170, 1e160, 1e200))
                return r.randint(-3, 4) * self.scale
            if k < .06:
                return r.choice((1, -1)) * r.choice((5e-324, 1e-300, 1e-30, 1e-17, 3e-16, 1e-15, 1e-9, 1e9, 1e15, 4503599627370497.5, 9007199254740993.0, 1e17, 1e30, 1e300))
            if k < .2:
                return float(r.randint(-3, 3))
            if k < .5:
                return r.uniform(-2, 2)
            return r.uniform(-1, 1) * 10.0 ** r.randint(-6, 6)
        if s == 0:
            return Fraction(r.randint(0, 3))
        if s == 10:
            return Fraction(r.randint(0, 1))
        if s == 1:
            return Fraction(r.randint(-2, 2))
        if s == 2:
            return Fraction(r.randint(-4, 6), r.choice((1, 2)))
        if s == 3:
            return Fraction(r.randint(-30, 30), r.choice((1, 2, 3, 4)))
        if s == 6:
            return Fraction(r.randint(-2, 3), 4)
        if s == 8:
            return Fraction(r.choice((1, -1, 3, -5))) * 2 ** r.choice((60, 80, 100))
        if s == 7:                          # everything small, or everything large
            if self.scale is None:
                self.scale = r.choice((Fraction(1, 2 ** 14), Fraction(1, 2 ** 30), Fraction(1, 2 ** 50), Fraction(2 ** 20), Fraction(2 ** 40)))
            return r.randint(-3, 4) * self.scale
        return Fraction(r.choice((-1000, -3, -1, 0, 1, 2, 7, 50, 1000)))

    # ---------------------------------------------------------- evaluation
    def ev(self, n, env):
        op = n.op
        if op == "num":
            v = n.args[1]
            return int(v) if n.args[0] == "i" else (float(v) if N.MODE.fp else v)
        if op == "true":
            return True
        if op == "false":
            return False
        fv = n.fv
        if fv:
            try:
                k = (n, tuple(sorted(((v.key, _id(env[v])) for v in fv))))
            except KeyError as e:
                raise NoEval("free %s" % e)
        else:
            k = n
        r = self.cache.get(k)
        if r is not None:
            return r[0]
        self.steps += 1
        if self.steps > 200000:
            raise Skip("too long")
        r = self.ev2(n, env)
        if isinstance(r, float) and r != r and not N.MODE.nan and not N.MODE.fp and n.op != "nan":
            raise Skip("nan")
        self.cache[k] = (r,)
        return r

    def truth(self, atom, env):
        op = atom.op
        if op in N.GROUP:
            p = atom.args[0]
            if p.op == "fpair":
                x, y = self.ev(p.args[0], env), self.ev(p.args[1], env)
                if op == "lt0":
                    return x < y
                if op == "gt0":
                    return x > y
                return x == y
            v = self.ev(p, env)
            if isinstance(v, float) and not N.MODE.fp:
                if v != v:
                    return False
                if abs(v) < 1e-7:
                    raise Skip("ambiguous")
            if op == "lt0":
                return v < 0
            if op == "gt0":
                return v > 0
            return v == 0
        if op == "ge0i":
            return self.ev(atom.args[0], env) >= 0
        if op == "isnan":
            v = self.ev(atom.args[0], env)
            return isinstance(v, float) and v != v
        if op == "isinf":
            v = self.ev(atom.args[0], env)
            return isinstance(v, float) and v in (math.inf, -math.inf)
        if op == "batom":
            return bool(self.ev(atom.args[0], env))
        if op == "eqv":
            return self.deep(atom.args[0], env) == self.deep(atom.args[1], env)
        raise NoEval(op)

    def deep(self, n, env):
        n = self.head(n, env)
        if n.op == "struct":
            return (n.args[0],) + tuple(self.deep(x, env) for x in n.args[1:])
        if n.op == "var":
            return ("var", n.args[1]) + tuple(self.deep(x, env) for x in n.args[2:])
        if n.op == "vec":
            ln = self.ev(n.args[0], env)
            return ("vec", ln) + tuple(self.deep(self.elem(n, i, env), env) for i in range(min(ln, 8)))
        return self.ev(n, env)

    def elem(self, v, i, env):
        c = v.args[1]
        while True:
            if c.op == "ite":
                c = c.args[1] if self.truth(c.args[0], env) else c.args[2]
            elif c.op == "cstore":
                if self.ev(c.args[1], env) == i:
                    return c.args[2]
                c = c.args[0]
            else:
                break
        return N.cget(c, N.const_i(i))

    def head(self, n, env):
        while n.op == "ite" and not (n.args[1] is N.TRUE and n.args[2] is N.FALSE):
            n = n.args[1] if self.truth(n.args[0], env) else n.args[2]
        return n

    def ev2(self, n, env):
        op = n.op
        a = n.args
        if op == "ite":
            while n.op == "ite":
                n = n.args[1] if self.truth(n.args[0], env) else n.args[2]
            return self.ev(n, env)
        if op == "sym":
            if isinstance(a[1], tuple):
                return CBase(("sym", a[0]))
            if a[0] == "$inf":
                return 10 ** 9
            last = a[0].split(".")[-1]
            return self.pick(("sym", a[0]), a[1], last, a[0])
        if op == "bv" or op == "tmp":
            if n in env:
                return env[n]
            raise NoEval("free variable")
        if op == "poly":
            t = None
            isi = a[0] == "i"
            for m, c in n._p.items():
                x = c
                for v, e in m:
                    y = self.ev(v, env)
                    x = arith("*", x, y if e == 1 else y ** e)
                t = x if t is None else arith("+", t, x)
            if isi and isinstance(t, Fraction):
                t = int(t) if t.denominator == 1 else t
            return t
        if op == "nan":
            return float("nan")
        if op == "inf":
            return math.inf * a[0]
        if op == "inv":
            v = self.ev(a[0], env)
            if v == 0:
                raise Skip("division by zero")
            return 1 / v if not isinstance(v, int) else Fraction(1, v)
        if op == "fadd":
            return self.ev(a[0], env) + self.ev(a[1], env)
        if op == "fmul":
            return self.ev(a[0], env) * self.ev(a[1], env)
        if op == "fdiv":
            x, y = self.ev(a[0], env), self.ev(a[1], env)
            if y == 0:
                raise Skip("div0")
            return x / y
        if op == "fneg":
            return -self.ev(a[0], env)
        if op == "str":
            return a[0]
        if op == "fn":
            return self.fn(n, env)
        if op == "leaf":
            base = a[1]
            if base.op in ("fn", "opaque"):
                return self.opq(n, base, env)
            c = self.content(base, env)
            i = self.ev(a[2], env)
            return self.cleaf(c, i, a[3], a[0])
        if op in ("cbase", "lam", "cstore", "cundef"):
            return self.content(n, env)
        if op == "rec":
            k = self.ev(a[1], env)
            return self.sysstate(a[2], k, env)[a[3]]
        if op == "first":
            return self.first(n, env)
        if op in ("lt0", "gt0", "ge0i", "eq0", "isnan", "isinf", "batom", "eqv"):
            return self.truth(n, env)
        if op == "opaque":
            raise NoEval("opaque " + str(a[1]))
        if op == "bot":
            raise Skip("diverges")
        raise NoEval(op)

    # ---------------------------------------------------------- contents
    def content(self, n, env):
        while n.op == "ite":
            n = n.args[1] if self.truth(n.args[0], env) else n.args[2]
        if n.op == "cbase":
            k = n.args[0]
            if isinstance(k, tuple):
                if len(k) == 2:
                    raise NoEval("opaque vector")
                c = self.content(k[0], env)
                i = self.ev(k[1], env)
                return self.csub(c, i, k[2])
            st = n.args[1]
            return CBase(k, st[1] if isinstance(st, tuple) and st[0] == "c" else None)
        if n.op in ("bv", "tmp"):
            if n in env:
                return env[n]
            raise NoEval("free content")
        if n.op == "cstore":
            return CStored(self.content(n.args[0], env), self.ev(n.args[1], env), n.args[2], env)
        if n.op == "lam":
            return CClosure(n, env)
        if n.op == "cundef":
            return CUndef()
        if n.op == "rec":
            return self.ev(n, env)
        if n.op == "sym":
            return CBase(("sym", n.args[0]))
        raise NoEval("content " + n.op)

    def clookup(self, c, i):
        """(node, env) of the element, or the base"""
        while True:
            if isinstance(c, CStored):
                if c.i == i:
                    return c.node, c.env
                c = c.base
            elif isinstance(c, CClosure):
                h = c.node.h
                e = dict(c.env)
                e[N.mk("bv", h, "k", "i")] = i
                return c.node.args[0], e
            elif isinstance(c, CBase):
                return c, None
            else:
                raise Skip("undefined element")

    def cleaf(self, c, i, path, sort):
        n, e = self.clookup(c, i)
        if e is None:
            zm = None
            I = getattr(N.MODE.nanable, "__self__", None)
            if I is not None and sort == "r":
                zm = n.ty is not None and I.missable(n.ty, path)
            return self.pick(("leaf", n.key, i, path), sort, path[-1] if path else None, "%s[%s]%s" % (_kn(n.key), i, "".join("." + str(p) for p in path)), zm)
        n, e = self.walk(n, e, path)
        return self.ev(n, e)

    def csub(self, c, i, path):
        n, e = self.clookup(c, i)
        if e is None:
            return CBase((n.key, i, path))
        n, e = self.walk(n, e, path)
        return self.content(n, e)

    def walk(self, n, e, path):
        for p in path:
            n = self.head(n, e)
            if p == "u":
                continue
            if isinstance(p, int):
                if n.op != "struct":
                    raise NoEval("walk " + n.op)
                n = n.args[1 + p]
            elif p == "disc":
                if n.op != "var":
                    raise NoEval("walk")
                n = N.const_i(n.args[1])
            elif p == "len":
                n = n.args[0]
            elif p == "buf":
                n = n.args[1]
            elif isinstance(p, tuple):
                if n.op != "var":
                    raise NoEval("walk")
                if n.args[1] != p[1]:
                    raise Skip("inactive variant")
                n = n.args[2 + p[2]]
            else:
                raise NoEval("walk " + str(p))
        return n, e

    # ---------------------------------------------------------- systems
    def sysnodes(self, entries, h, tagsort=None):
        return [N.mk("bv", h, j, sort_of_entry(e)) for j, e in enumerate(entries)]

    def sysstate(self, s, k, env):
        if k > INF_CAP:
            raise Skip("long loop")
        key = (s, tuple(sorted((v.key, _id(env[v])) for v in s.fv)))
        seq = self.envcache.get(key)
        entries = s.args[0]
        h = s.h
        if seq is None:
            seq = [[self.evany(e[0], env) for e in entries]]
            self.envcache[key] = seq
            self.cache[("keep", key)] = env
        bvk = N.mk("bv", h, "k", "i")
        names = self.bvs(s, entries)
        while len(seq) <= k:
            e2 = dict(env)
            e2[bvk] = len(seq) - 1
            for j in range(len(entries)):
                for b in names[j]:
                    e2[b] = seq[-1][j]
            self.keep(e2)
            seq.append([self.evany(e[1], e2) for e in entries])
        return seq[k]

    def keep(self, e):
        self.cache[("env", id(e))] = e

    def bvs(self, s, entries):
        h = s.h
        out = []
        for j in range(len(entries)):
            l = []
            for so in ("r", "i", "b"):
                t = ("bv", (h, j, so))
                if t in N._TAB:
                    l.append(N._TAB[t])
            for v in all_fv(s):
                if v.op == "bv" and v.args[0] == h and v.args[1] == j and v not in l:
                    l.append(v)
            out.append(l)
        return out

    def evany(self, n, env):
        s = sort_of(n)
        if isinstance(s, tuple) or s == "c" or n.op in ("cbase", "lam", "cstore", "cundef"):
            return self.content(n, env)
        return self.ev(n, env)

    def first(self, n, env):
        b, stop, entries = n.args
        h = n.h
        bound = self.ev(b, env)
        bvk = N.mk("bv", h, "k", "i")
        st = [self.evany(e[0], env) for e in entries]
        names = self.bvs(n, entries)
        k = 0
        while k < bound:
            if k > INF_CAP:
                raise Skip("long search")
            e2 = dict(env)
            e2[bvk] = k
            for j in range(len(entries)):
                for v in names[j]:
                    e2[v] = st[j]
            self.keep(e2)
            if self.ev(stop, e2):
                return k
            st = [self.evany(e[1], e2) for e in entries]
            k += 1
        return int(bound)

    # ---------------------------------------------------------- functions
    def opq(self, n, base, env):
        raise NoEval("opaque call")

    def fn(self, n, env):
        a = n.args
        name = a[1]
        xs = []
        for y in a[2:]:
            if isinstance(y, Node):
                s = sort_of(y)
                xs.append(self.ev(y, env) if s in ("r", "i", "b", "str") or y.op in ("poly", "num", "nan", "inf") else self.deep(y, env))
            else:
                xs.append(y)
        f = FN.get(name)
        if name == "negz":                    # the sign of a zero: free for an input, not known of a result
            x = a[2]
            if x.op not in ("sym", "leaf"):
                raise Skip("sign of a zero")
            return self.pick(("negz", x, tuple(map(str, xs))), "b", "", "negative zero: " + N.show(x, 3))
        if f is None:
            if name.startswith("f2i"):
                return f2i(name, xs[0])
            raise NoEval("fn " + str(name))
        try:
            return f(*xs)
        except (ValueError, OverflowError, ZeroDivisionError, IndexError, TypeError):
            raise Skip("fn domain")


def _id(v):
    if isinstance(v, (int, Fraction, float, bool, str)):
        return v
    return id(v)


def _kn(k):
    if isinstance(k, tuple):
        if len(k) == 3:
            return "%s[%s]%s" % (_kn(k[0]), k[1], "".join("." + str(p) for p in k[2]))
        return str(k[-1])
    return str(k)


_afv = N.memo()


def all_fv(n):
    """all bound variables of the binder itself"""
    r = _afv.get(n)
    if r is None:
        ch = []
        N._walk(n.args, ch)
        s = set()
        for c in ch:
            s |= c.fv
        r = _afv[n] = s
    return r


def sort_of_entry(e):
    return sort_of(e[0])


def arith(o, x, y):
    if isinstance(x, float) and isinstance(y, Fraction):
        y = float(y)
    elif isinstance(y, float) and isinstance(x, Fraction):
        x = float(x)
    return x * y if o == "*" else x + y


def fsqrt(x):
    if isinstance(x, float):
        return math.sqrt(x)
    x = Fraction(x)
    if x < 0:
        raise Skip("sqrt neg")
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    if a * a == x.numerator and b * b == x.denominator:
        r = Fraction(a, b)
        return float(r) if N.MODE.fp else r
    return math.sqrt(x)


def rround(x):
    if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
        return x
    f = math.floor(abs(x) + Fraction(1, 2)) if not isinstance(x, float) else math.floor(abs(x) + 0.5)
    v = f if x >= 0 else -f
    return float(v) if N.MODE.fp else Fraction(v)


def conv(v):
    return float(v) if N.MODE.fp else Fraction(v)


def f2i(name, x):
    if isinstance(x, float) and x != x:
        return 0
    bits = int("".join(c for c in name[3:] if c.isdigit()) or 64)
    if x in (math.inf, -math.inf):
        v = 10 ** 30 if x > 0 else -10 ** 30
    else:
        v = math.trunc(x)
    if "uint" in name:
        return max(0, min(v, 2 ** bits - 1))
    return max(-2 ** (bits - 1), min(v, 2 ** (bits - 1) - 1))


def conv_f32(x):
    y = _struct.unpack("f", _struct.pack("f", float(x)))[0]
    return y if isinstance(x, float) or y != y or y in (math.inf, -math.inf) else Fraction(y)


def idiv(a, b):
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


def urem(a, b):
    if b <= 0:
        raise Skip("rem 0")
    return a % b


def ffmod(a, b):
    if b == 0:
        raise Skip("rem 0")
    if isinstance(a, float) or isinstance(b, float):
        return math.fmod(a, b)
    q = Fraction(a) / Fraction(b)
    return a - math.trunc(q) * b


import struct as _struct

FN = {
    "sqrt": fsqrt, "sin": lambda x: math.sin(x), "cos": lambda x: math.cos(x), "tan": lambda x: math.tan(x),
    "asin": lambda x: math.asin(x), "acos": lambda x: math.acos(x), "atan": lambda x: math.atan(x),
    "atan2": lambda y, x: math.atan2(y, x), "exp": lambda x: math.exp(x), "ln": lambda x: math.log(x),
    "log10": lambda x: math.log10(x), "log": lambda x, b: math.log(x) / math.log(b),
    "floor": lambda x: conv(math.floor(x)), "ceil": lambda x: conv(math.ceil(x)), "round": rround,
    "trunc": lambda x: conv(math.trunc(x)), "fract": lambda x: x - conv(math.trunc(x)),
    "to_radians": lambda x: float(x) * math.pi / 180, "to_degrees": lambda x: float(x) * 180 / math.pi,
    "abs": abs, "i2f": conv, "idiv": idiv, "ediv": lambda a, b: a // b, "urem": lambda a, b: urem(a, b), "irem": lambda a, b: a - b * idiv(a, b), "frem": ffmod,
    "powi": lambda x, n: x ** n if not (x == 0 and n < 0) else (_ for _ in ()).throw(Skip("pow")),
    "powf": lambda x, y: float(x) ** float(y), "pow": lambda x, y: x ** y,
    "hypot": lambda x, y: math.hypot(x, y), "slen": len, "signum": lambda x: math.copysign(1.0, x),
    "f32": lambda x: conv_f32(x),
    "mul_add": lambda a, b, c: a * b + c,
    "char": lambda s, i: ord(s[i]),
    "scat": lambda *xs: "".join(xs), "show": lambda x: _show(x),
    "digits": lambda t, n: _digits(t, n),
}


def _digits(t, n):
    from .models import decimals
    return decimals(t, int(n))


def _show(x):
    from .models import fmt_number
    return fmt_number(x)


def same(x, y):
    if isinstance(x, bool) or isinstance(y, bool):
        return bool(x) == bool(y)
    if isinstance(x, float) or isinstance(y, float):
        fx, fy = float(x), float(y)
        if fx != fx or fy != fy:
            return (fx != fx) == (fy != fy)
        if N.MODE.fp:
            return fx == fy
        if fx == fy:
            return True
        if math.isinf(fx) or math.isinf(fy):
            return False
        return abs(fx - fy) <= 1e-6 * max(1.0, abs(fx), abs(fy))
    return x == y


def compare(P, a, b, path=""):
    """None when equal, else description of the first difference"""
    env = {}
    a, b = P.head(a, env), P.head(b, env)
    if a is b:
        return None
    if a is N.BOT or b is N.BOT:
        raise Skip("diverges")
    if a.op == "struct" and b.op == "struct":
        if len(a.args) != len(b.args):
            raise NoEval("shape")
        for i, (x, y) in enumerate(zip(a.args[1:], b.args[1:])):
            d = compare(P, x, y, path + ".%d" % i)
            if d:
                return d
        return None
    if a.op == "var" and b.op == "var":
        if a.args[1] != b.args[1]:
            return (path, "variant %d" % a.args[1], "variant %d" % b.args[1])
        for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:])):
            d = compare(P, x, y, path + ".v%d" % i)
            if d:
                return d
        return None
    if a.op == "vec" and b.op == "vec":
        la, lb = P.ev(a.args[0], env), P.ev(b.args[0], env)
        if la != lb:
            return (path + ".len", la, lb)
        for i in range(min(la, 12)):
            d = compare(P, P.elem(a, i, env), P.elem(b, i, env), path + "[%d]" % i)
            if d:
                return d
        return None
    x, y = P.ev(a, env), P.ev(b, env)
    if same(x, y):
        return None
    return (path, x, y)


def constants(*roots):
    """numeric constants of the summaries: thresholds worth trying"""
    out, seen, stack = set(), set(), list(roots)
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, N.Node) and x not in seen:
            seen.add(x)
            if x.op == "num" and x.args[0] == "r":
                out.add(abs(Fraction(x.args[1])))
            elif x.op == "fn" and x.args[1] == "f32":
                out.update((Fraction(0.1), Fraction(16777217), Fraction(1 / 3)))    # not f32 values
            elif x.op == "poly" and x.args[0] == "r":
                c0 = next((Fraction(c) for m, c in x.args[1] if m == ()), None)
                if c0:
                    out.update(abs(c0 / Fraction(c)) for m, c in x.args[1] if m != ())
            stack.extend(x.args)
    return sorted(c for c in out if c not in (0, 1, 2))[:24]


def int_constants(*roots):
    """integer constants of the summaries: symbols, codes and limits worth trying"""
    out, seen, stack = set(), set(), list(roots)
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, N.Node) and x not in seen:
            seen.add(x)
            if x.op == "num" and x.args[0] == "i":
                out.add(int(x.args[1]))
            elif x.op == "poly" and x.args[0] == "i":
                out.update(int(-c) if m == () else 0 for m, c in x.args[1] if Fraction(c).denominator == 1)
            stack.extend(x.args)
    return sorted(c for c in out if 4 < abs(c) < 0x110000)[:40]


def separate(a, b, n=400, seed=1, deadline=None, pre=None):
    """search a valuation at which the summaries a and b differ.
    returns ('differ', description, valuation) | ('agree', points) | ('noeval', why)"""
    import time
    ok = 0
    pool, ipool = constants(a, b), int_constants(a, b)
    for t in range(n):
        if deadline is not None and time.time() > deadline:
            break
        P = Point(seed * 100003 + t, STYLES[t % len(STYLES)], pool, ipool)
        try:
            d = compare(P, a, b)
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        except NoEval as e:
            return ("noeval", str(e))
        except N.Unsupported as e:
            return ("noeval", str(e))
        ok += 1
        if d:
            vals = {nm: v for v, nm in P.vals.values()}
            return ("differ", d, vals)
    return ("agree", ok)


def guided(a, b, lits, seed=1, deadline=None, fold=None):
    """search a valuation on the path at which the comparison of two summaries failed: the path's conditions are made
    true one after the other by changing one leaf each; the result is what separate returns"""
    import time
    pool, ipool = constants(a, b), int_constants(a, b)
    met = 0
    for t in range(400):
        if deadline is not None and time.time() > deadline:
            break
        P = Point(seed * 200003 + t, STYLES[t % len(STYLES)], pool, ipool)
        r = P.rng

        def look(lit):
            """1 holds, 0 fails, None cannot be evaluated"""
            P.cache, P.envcache, P.steps = {}, {}, 0
            try:
                return 1 if P.truth(lit[0], {}) == lit[1] else 0
            except (Skip, ZeroDivisionError, OverflowError):
                return 0
            except (NoEval, N.Unsupported):
                return None
        live = [l for l in lits if look(l) is not None]
        if not live:
            return ("agree", 0)
        bad = [l for l in live if not look(l)]
        for _ in range(150):
            if not bad or deadline is not None and time.time() > deadline:
                break
            lit = r.choice(bad)
            P.touched = {}
            look(lit)
            keys, P.touched = P.touched, None
            keys = {k: x for k, x in keys.items() if k in P.vals}
            if not keys:
                break
            key = r.choice(sorted(keys, key=str))
            sort, last = keys[key]
            old = P.vals[key]
            best = None
            for v in moves(P, lit, key, sort, last, old[0], r):
                P.vals[key] = (v, old[1])
                nb = [l for l in live if not look(l)]
                if best is None or len(nb) < len(best[1]):
                    best = (v, nb)
                if not nb:
                    break
            if best is not None and (len(best[1]) <= len(bad) or r.random() < 0.05):
                P.vals[key], bad = (best[0], old[1]), best[1]
            else:
                P.vals[key] = old
        if bad:
            continue
        P.cache, P.envcache, P.steps = {}, {}, 0
        try:
            d = compare(P, a, b)
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        except (NoEval, N.Unsupported):
            if fold is None:
                return ("agree", met)
            try:
                x, y = fold(P)
                if isinstance(x, str):
                    if y is N.BOT:
                        continue
                    return ("differ", ("", x, "returns"), {nm: v for v, nm in P.vals.values()})
                d = None if x is y else compare(P, x, y)
            except (Skip, ZeroDivisionError, OverflowError, NoEval, N.Unsupported, N.Budget):
                continue
        met += 1
        if d:
            return ("differ", d, {nm: v for v, nm in P.vals.values()})
    return ("agree", met)


def moves(P, lit, key, sort, last, v, r):
    """values to try for a leaf so that a condition may become true"""
    out = []
    if sort == "b":
        return [not v]
    if sort == "str":
        return []
    if v != v:
        return [Fraction(r.randint(-2, 2))]
    atom = lit[0]
    if atom.op in N.GROUP or atom.op == "ge0i":
        p = atom.args[0]
        if p.op != "fpair" and not N.MODE.fp:
            def at(x):
                P.vals[key] = (x, P.vals[key][1])
                P.cache, P.envcache, P.steps = {}, {}, 0
                return P.ev(p, {})
            try:
                p0, p1 = at(v), at(v + 1)
                c = p1 - p0
                if c and not isinstance(p0, float) and not isinstance(p1, float):
                    z = v - Fraction(p0) / Fraction(c)
                    for q in (z, z + 1, z - 1, z + r.randint(-3, 3)):
                        out.append(int(math.floor(q)) if sort == "i" else q)
            except (Skip, ZeroDivisionError, OverflowError, NoEval, N.Unsupported):
                pass
    if sort == "i":
        out += [v + 1, v - 1, r.randint(-3, 3)] + ([r.choice(P.ipool)] if P.ipool else [])
        if last in ("len", "u"):
            out = [x for x in out if 0 <= x <= 9]
        elif last == "disc":
            out = [x for x in out if 0 <= x <= 6]
    else:
        same_sort = [x for x, _ in P.vals.values() if isinstance(x, Fraction)]
        out += [v + 1, v - 1, Fraction(r.randint(-2, 2))] + ([r.choice(same_sort)] if same_sort else [])
        if N.MODE.fp:
            out = [float(x) for x in out]
    return out


# ---------------------------------------------------------------- folding with constant arguments
def ground(P, n):
    """the value of a parameter under the valuation, as a constant graph"""
    n = P.head(n, {})
    if n.op == "struct":
        return N.mk("struct", n.args[0], *[ground(P, x) for x in n.args[1:]])
    if n.op == "var":
        return N.mk("var", n.args[0], n.args[1], *[ground(P, x) for x in n.args[2:]])
    if n.op == "vec":
        k = P.ev(n.args[0], {})
        c = N.cundef()
        for i in range(k):
            c = N.cstore(c, N.const_i(i), ground(P, P.elem(n, i, {})))
        return N.vec(N.const_i(k), c, n.args[2])
    v = P.ev(n, {})
    s = sort_of(n)
    if s == "b":
        return N.TRUE if v else N.FALSE
    if s == "i":
        return N.const_i(v)
    if s == "str":
        return N.mk("str", v)
    if s == "r":
        if isinstance(v, float):
            return N.float_const(v)
        return N.mk("num", "r", Fraction(v))
    raise NoEval("ground %s" % (s,))


def separate_ground(fold, n=400, seed=1, deadline=None, ends=False):
    """like separate, folding both operations with constant arguments instead of evaluating their summaries"""
    import time
    ok, why = 0, None
    bad = 0
    for t in range(n):
        if deadline is not None and time.time() > deadline:
            break
        P = Point(seed * 100003 + t, STYLES[t % len(STYLES)], ())
        try:
            a, b = fold(P)
            if isinstance(a, str):                  # the analysed side does not end
                if b is N.BOT:
                    continue
                return ("differ", ("", a, "returns"), {nm: v for v, nm in P.vals.values()})
            if ends:
                ok += 1
                continue
            if a is b:
                ok += 1
                continue
            d = compare(P, a, b)
        except (Skip, ZeroDivisionError, OverflowError):
            continue
        except (NoEval, N.Unsupported, N.Budget) as e:
            why = str(e)
            bad += 1
            if bad > 20 and ok == 0:
                return ("noeval", why)
            continue
        ok += 1
        if d:
            return ("differ", d, {nm: v for v, nm in P.vals.values()})
    return ("agree", ok)

"""Hash-consed value graphs.

Every value computed by the analysed code is a Node.  Booleans are reduced ordered decision
diagrams over atoms; arithmetic is kept in polynomial normal form (mode 'real') or as an IEEE
operation graph with only exactly-valid identities (mode 'fp').  Structs, enum variants, vectors
are structured nodes; a choice between two structs is pushed into the fields.
"""
import hashlib
import sys
from fractions import Fraction

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Node:
    __slots__ = ("op", "args", "key", "h", "fv", "opq", "size", "_p")

    def __repr__(self):
        return show(self)


MISSABLE = set()     # names of symbols holding an optional ordinate
_TAB = {}
_COUNT = [0]
LIMIT = [6000000]


def reset():
    _TAB.clear()
    for m in _MEMOS:
        m.clear()
    _COUNT[0] = 0
    for c in (TRUE, FALSE, BOT, UNIT, NAN, PINF, NINF, I0, I1, R0, R1):
        _TAB[(c.op, c.args)] = c


_MEMOS = []


def memo():
    d = {}
    _MEMOS.append(d)
    return d


def _enc(x):
    if isinstance(x, Node):
        return x.key
    if isinstance(x, tuple):
        return b"(" + b",".join(_enc(y) for y in x) + b")"
    return repr(x).encode()


def _walk(x, out):
    if isinstance(x, Node):
        out.append(x)
    elif isinstance(x, tuple):
        for y in x:
            _walk(y, out)


_EMPTY = frozenset()
BINDERS = {"lam", "sys", "first"}


def mk(op, *args):
    t = (op, args)
    n = _TAB.get(t)
    if n is not None:
        return n
    _COUNT[0] += 1
    if _COUNT[0] > LIMIT[0]:
        raise Budget("node budget exceeded")
    n = Node()
    n.op = op
    n.args = args
    n.key = hashlib.blake2b(op.encode() + b"\0" + _enc(args), digest_size=10).digest()
    ch = []
    _walk(args, ch)
    h = 0
    fv = _EMPTY
    opq = False
    for c in ch:
        if c.h > h:
            h = c.h
        if c.fv:
            fv = fv | c.fv if fv else c.fv
        if c.opq:
            opq = True
    if op == "bv":
        h = 0
        fv = frozenset([n])
    elif op == "tmp":
        fv = frozenset([n])
    elif op in BINDERS:
        h += 1
        fv = frozenset(v for v in fv if not (v.op == "bv" and v.args[0] == h))
    elif op == "opaque":
        opq = True
    n.h = h
    n.fv = fv
    n.opq = opq
    n._p = None
    _TAB[t] = n
    return n


# ---------------------------------------------------------------- modes
class Mode:
    fp = False          # IEEE graph instead of polynomials
    nan = False         # symbols marked nanable may be NaN
    nanable = None      # predicate leaf -> bool
    quot = True         # x/w is NaN or infinite exactly when w is zero


MODE = Mode()


def init_consts():
    global TRUE, FALSE, BOT, UNIT, NAN, PINF, NINF, I0, I1, R0, R1
    TRUE = mk("true")
    FALSE = mk("false")
    BOT = mk("bot")
    UNIT = mk("struct", "()")
    NAN = mk("nan")
    PINF = mk("inf", 1)
    NINF = mk("inf", -1)
    I0 = mk("num", "i", Fraction(0))
    I1 = mk("num", "i", Fraction(1))
    R0 = mk("num", "r", Fraction(0))
    R1 = mk("num", "r", Fraction(1))


init_consts()


def const_i(v):
    return mk("num", "i", Fraction(v))


def const_r(v):
    return mk("num", "r", Fraction(v))


def const_f(bits):
    import struct
    v = struct.unpack("<d", struct.pack("<Q", bits))[0]
    return float_const(v)


def float_const(v):
    if v != v:
        return NAN
    if v in (float("inf"), float("-inf")):
        return PINF if v > 0 else NINF
    return mk("num", "r", Fraction(v))


def boolean(b):
    return TRUE if b else FALSE


def sym(name, sort):
    return mk("sym", name, sort)


_tmpc = [0]


def fresh(sort, hint=""):
    _tmpc[0] += 1
    return mk("tmp", _tmpc[0], sort, hint)


def is_num(n):
    return n.op == "num"


def num(n):
    return n.args[1]


# ---------------------------------------------------------------- sorts
_sort_memo = memo()


def sort_of(n):
    """'r' real, 'i' integer, 'b' boolean, 's' struct, 'v' vec, 'e' enum, 'c' content, ..."""
    op = n.op
    if op == "num":
        return n.args[0]
    if op in ("sym", "tmp"):
        return n.args[-1] if op == "sym" else n.args[1]
    if op == "bv":
        return n.args[2]
    if op == "poly":
        return n.args[0]
    if op in ("true", "false"):
        return "b"
    if op in ("nan", "inf"):
        return "r"
    if op in ("struct",):
        return "s"
    if op == "vec":
        return "v"
    if op == "var":
        return "e"
    if op == "ite":
        s = _sort_memo.get(n)
        if s is None:
            m = n
            while m.op == "ite":
                m = m.args[1] if m.args[1] is not BOT else m.args[2]
            s = sort_of(m)
            if s == "i" or s == "r" or s == "?":
                pass
            _sort_memo[n] = s
        return s
    if op in ("fn", "leaf", "rec", "opaque"):
        return n.args[0]
    if op == "cbase":
        return n.args[1]
    if op in ("lam", "cundef"):
        return "c"
    if op == "cstore":
        return sort_of(n.args[0])
    if op == "first":
        return "i"
    if op in ("fadd", "fmul", "fdiv", "fneg", "inv"):
        return "r"
    if op in ("lt0", "gt0", "eq0", "ge0i", "batom", "isnan", "isinf", "eqv", "flt", "feq"):
        return "b"
    if op == "str":
        return "str"
    if op == "mref":
        return "mref"
    return "?"


# ---------------------------------------------------------------- polynomials
def pdict(n):
    """poly as dict mono->coef; mono is a tuple of (node, exp) sorted by key."""
    if n.op == "poly":
        return n._p
    if n.op == "num":
        return {(): n.args[1]} if n.args[1] != 0 else {}
    return {((n, 1),): Fraction(1)}


def _mono_key(m):
    return b";".join(a.key + b"^%d" % e for a, e in m)


def from_pdict(kind, d):
    if not d:
        return mk("num", kind, Fraction(0))
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return mk("num", kind, c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda kv: _mono_key(kv[0])))
    n = mk("poly", kind, items)
    if n._p is None:
        n._p = dict(items)
    return n


def mono_mul(a, b):
    d = {}
    for n, e in a:
        d[n] = d.get(n, 0) + e
    for n, e in b:
        d[n] = d.get(n, 0) + e
    # inv(x)*x -> 1
    changed = False
    for n in list(d):
        if n.op == "inv":
            x = n.args[0]
            if x in d and d.get(n, 0) and d.get(x, 0):
                k = min(d[n], d[x])
                d[n] -= k
                d[x] -= k
                changed = True
        elif n.op == "fn" and n.args[1] == "sqrt" and d[n] >= 2:
            return None, d
    return tuple(sorted(((n, e) for n, e in d.items() if e), key=lambda t: t[0].key)), None


def padd(a, b, s=1):
    d = dict(a)
    for m, c in b.items():
        v = d.get(m, 0) + s * c
        if v == 0:
            d.pop(m, None)
        else:
            d[m] = v
    return d


PMAX = 4000


def pmul(a, b):
    if len(a) * len(b) > PMAX * 8:
        raise Budget("poly too large")
    d = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m, sq = mono_mul(m1, m2)
            if m is None:
                # sqrt(p)^2 -> p
                rest = {(): c1 * c2}
                for n, e in sq.items():
                    if not e:
                        continue
                    if n.op == "fn" and n.args[1] == "sqrt" and e >= 2:
                        p = pdict(n.args[2])
                        for _ in range(e // 2):
                            rest = pmul(rest, p)
                        if e % 2:
                            rest = pmul(rest, {((n, 1),): Fraction(1)})
                    else:
                        rest = pmul(rest, {((n, e),): Fraction(1)})
                d = padd(d, rest)
                continue
            v = d.get(m, 0) + c1 * c2
            if v == 0:
                d.pop(m, None)
            else:
                d[m] = v
    return d


def _special(n):
    return n.op in ("nan", "inf")


def leaves_count(n, cap):
    """number of ite leaves, capped"""
    if n.op != "ite":
        return 1
    seen = set()
    st = [n]
    leaf = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st.append(x.args[1])
            st.append(x.args[2])
        else:
            leaf.add(x)
            if len(leaf) > cap:
                return cap + 1
    return len(leaf)


def const_leaves(n):
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st.append(x.args[1])
            st.append(x.args[2])
        elif x.op not in ("num", "nan", "inf", "bot", "true", "false"):
            return False
    return True


LIFT = [8]


def _should_lift(*ns):
    p = 1
    for n in ns:
        if n.op == "ite":
            p *= leaves_count(n, 64)
    return p <= LIFT[0] or all(n.op != "ite" or const_leaves(n) for n in ns)


_lift_memo = memo()


def lift1(name, f, a):
    k = (name, a)
    r = _lift_memo.get(k)
    if r is None:
        if a.op == "ite":
            c, t, e = a.args
            r = ite(atomb(c), lift1(name, f, t), lift1(name, f, e))
        elif a is BOT:
            r = BOT
        else:
            r = f(a)
        _lift_memo[k] = r
    return r


def lift2(name, f, a, b):
    k = (name, a, b)
    r = _lift_memo.get(k)
    if r is None:
        if a is BOT or b is BOT:
            r = BOT
        elif a.op == "ite" or b.op == "ite":
            ta = a.args[0] if a.op == "ite" else None
            tb = b.args[0] if b.op == "ite" else None
            if ta is None:
                t = tb
            elif tb is None:
                t = ta
            else:
                t = ta if okey(ta) <= okey(tb) else tb
            r = mkite_raw(t, lift2(name, f, cof(a, t, True), cof(b, t, True)),
                      lift2(name, f, cof(a, t, False), cof(b, t, False)))
        else:
            r = f(a, b)
        _lift_memo[k] = r
    return r


# ---------------------------------------------------------------- arithmetic
def k_of(a, b):
    if a.op == "num":
        return a.args[0] if b.op != "num" else a.args[0]
    return sort_of(a)


def add(a, b):
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b) and not (MODE.fp and sort_of(a) == 'r'):
        return lift2("add", add, a, b)
    if MODE.fp and sort_of(a if a.op != "num" else b) == "r":
        return fadd(a, b)
    if _special(a) or _special(b):
        return spec_add(a, b)
    k = "r" if "r" in (sort_of(a), sort_of(b)) else "i"
    return from_pdict(k, padd(pdict(a), pdict(b)))


def spec_add(a, b):
    if a is NAN or b is NAN:
        return NAN
    if a.op == "inf" and b.op == "inf":
        return a if a is b else NAN
    return a if a.op == "inf" else b


def neg(a):
    if a is BOT:
        return BOT
    if a.op == "ite" and _should_lift(a):
        return lift1("neg", neg, a)
    if a is NAN:
        return NAN
    if a.op == "inf":
        return NINF if a is PINF else PINF
    if MODE.fp and sort_of(a) == "r":
        return fneg(a)
    k = sort_of(a)
    return from_pdict(k, {m: -c for m, c in pdict(a).items()})


def sub(a, b):
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b) and not (MODE.fp and sort_of(a) == 'r'):
        return lift2("sub", sub, a, b)
    if MODE.fp and sort_of(a if a.op != "num" else b) == "r":
        return fadd(a, fneg(b))
    if _special(a) or _special(b):
        return spec_add(a, neg(b))
    k = "r" if "r" in (sort_of(a), sort_of(b)) else "i"
    return from_pdict(k, padd(pdict(a), pdict(b), -1))


def mul(a, b):
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b) and not (MODE.fp and sort_of(a) == 'r'):
        return lift2("mul", mul, a, b)
    if MODE.fp and sort_of(a if a.op != "num" else b) == "r":
        return fmul(a, b)
    if a is NAN or b is NAN:
        return NAN
    if _special(a) or _special(b):
        x, y = (a, b) if a.op == "inf" else (b, a)
        if y.op == "inf":
            return PINF if x is y else NINF
        if y.op == "num":
            if num(y) == 0:
                return NAN
            return x if num(y) > 0 else neg(x)
        return mk("fn", "r", "mulinf", x, y)
    k = "r" if "r" in (sort_of(a), sort_of(b)) else "i"
    return from_pdict(k, pmul(pdict(a), pdict(b)))


def inv(b):
    """1/b in real mode"""
    if b.op == "num":
        if num(b) == 0:
            return mk("fn", "r", "inv0")
        return const_r(1 / num(b))
    d = pdict(b)
    # normalise by leading coefficient; split monomials
    if len(d) == 1:
        (m, c), = d.items()
        r = {(): 1 / c}
        for n, e in m:
            for _ in range(e):
                if n.op == "inv":
                    r = pmul(r, pdict(n.args[0]))
                else:
                    r = pmul(r, {((mk("inv", n), 1),): Fraction(1)})
        return from_pdict("r", r)
    lead = min(d.items(), key=lambda kv: _mono_key(kv[0]))[1]
    p = from_pdict("r", {m: c / lead for m, c in d.items()})
    return from_pdict("r", {((mk("inv", p), 1),): 1 / lead})


def div(a, b):
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b) and not MODE.fp:
        return lift2("div", div, a, b)
    if MODE.fp:
        return fdiv(a, b)
    if a is NAN or b is NAN:
        return NAN
    if b.op == "inf":
        return R0 if a.op != "inf" else NAN
    if a.op == "inf":
        if b.op == "num" and num(b) != 0:
            return a if num(b) > 0 else neg(a)
        return mk("fn", "r", "divinf", a, b)
    if b.op == "num" and num(b) == 0:
        if a.op == "num":
            return NAN if num(a) == 0 else (PINF if num(a) > 0 else NINF)
        return mk("fn", "r", "div0", a)
    return mul(a, inv(b))


def frem(a, b):
    """remainder of truncating division of doubles (sign of the dividend)"""
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b) and not MODE.fp:
        return lift2("frem", frem, a, b)
    if a is NAN or b is NAN or a.op == "inf":
        return NAN
    if b.op == "num" and num(b) != 0:
        c = abs(num(b))
        if a.op == "num":
            v = abs(num(a)) % c
            return const_r(v if num(a) >= 0 else -v)
        if not MODE.fp:
            c = const_r(c)
            return ite(b_and(cmp("lt", a, c), cmp("gt", a, neg(c))), a, fn("r", "frem", a, c))
    return fn("r", "frem", a, b)


def idiv(a, b):
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b):
        return lift2("idiv", idiv, a, b)
    if a.op == "num" and b.op == "num" and num(b) != 0:
        q = abs(num(a)) // abs(num(b))
        return const_i(q if (num(a) >= 0) == (num(b) > 0) else -q)
    if b.op == "num" and num(b) == 1:
        return a
    if b.op == "num" and num(b) > 1 and nonneg(a):
        return ediv(a, b)
    if a is b:
        return I1
    if a.op == "poly" and b.op not in ("num", "poly", "ite"):
        d = {}
        for m, c in a._p.items():
            e = dict(m).get(b, 0)
            if not e or c.denominator != 1:
                break
            d[tuple((x, y - (x is b)) for x, y in m if y - (x is b))] = c
        else:
            # a multiple of the divisor: exact (dividing by zero ends the execution)
            return from_pdict("i", d)
    return mk("fn", "i", "idiv", a, b)


def _mod_split(a, c):
    """integer polynomial a = c*q + r with the coefficients of r in [0, c)"""
    q, r = {}, {}
    for m, v in pdict(a).items():
        if v.denominator != 1:
            return None
        w = int(v) % c
        if w:
            r[m] = Fraction(w)
        if int(v) - w:
            q[m] = Fraction((int(v) - w) // c)
    return from_pdict("i", q), from_pdict("i", r)


def ediv(a, b):
    """floor division by a positive constant"""
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b):
        return lift2("ediv", ediv, a, b)
    c = int(num(b))
    q, r = _mod_split(a, c)
    if r.op == "num":
        return q
    return add(q, mk("fn", "i", "ediv", r, b))


def emod(a, b):
    """remainder in [0, c) of division by a positive constant"""
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b):
        return lift2("emod", emod, a, b)
    c = int(num(b))
    q, r = _mod_split(a, c)
    if r.op == "num":
        return r
    return sub(r, mul(b, mk("fn", "i", "ediv", r, b)))


def irem(a, b):
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b):
        return lift2("irem", irem, a, b)
    if a.op == "num" and b.op == "num" and num(b) != 0:
        q = abs(num(a)) % abs(num(b))
        return const_i(q if num(a) >= 0 else -q)
    if b.op == "num" and num(b) > 0 and nonneg(a):
        return emod(a, b)
    return mk("fn", "i", "irem", a, b)


def urem(a, b):
    """remainder of unsigned operands: in [0, b) whenever it has a value"""
    if a is BOT or b is BOT:
        return BOT
    if (a.op == "ite" or b.op == "ite") and _should_lift(a, b):
        return lift2("urem", urem, a, b)
    if b.op == "num" and num(b) > 0:
        return emod(a, b)
    return mk("fn", "i", "urem", a, b)


# IEEE graph -------------------------------------------------------------
def fneg(a):
    if a.op == "num":
        return const_r(-num(a))
    if a is NAN:
        return NAN
    if a.op == "inf":
        return NINF if a is PINF else PINF
    if a.op == "fneg":
        return a.args[0]
    if a.op == "fadd":
        # -(x+y) = (-x)+(-y); canonical sign chosen in fadd
        return mk("fneg", a)
    return mk("fneg", a)


def _sgn(a):
    """(sign, magnitude node)"""
    if a.op == "fneg":
        return -1, a.args[0]
    if a.op == "num" and num(a) < 0:
        return -1, const_r(-num(a))
    return 1, a


def fadd(a, b):
    if a is BOT or b is BOT:
        return BOT
    if _special(a) or _special(b):
        if a is NAN or b is NAN:
            return NAN
        if (a.op == "inf") and (b.op in ("inf", "num")) or b.op == "inf" and a.op == "num":
            return spec_add(a, b)
    if a.op == "num" and b.op == "num":
        return float_const(float(num(a)) + float(num(b)))
    if a.op == "num" and num(a) == 0:
        return b  # x + 0 == x up to the sign of zero
    if b.op == "num" and num(b) == 0:
        return a
    if a.key > b.key:
        pass
    s1, m1 = _sgn(a)
    s2, m2 = _sgn(b)
    if m1 is m2 and s1 != s2:
        return R0
    if m1.key > m2.key:
        s1, m1, s2, m2 = s2, m2, s1, m1
    # canonical: first operand positive
    if s1 < 0:
        r = mk("fadd", m1, fneg(m2) if s2 > 0 else m2)
        return mk("fneg", r)
    return mk("fadd", m1, m2 if s2 > 0 else fneg(m2))


def fmul(a, b):
    if a.op == "num" and b.op == "num":
        return float_const(float(num(a)) * float(num(b)))
    s1, m1 = _sgn(a)
    s2, m2 = _sgn(b)
    if m1.op == "num" and num(m1) == 1:
        r = m2
    elif m2.op == "num" and num(m2) == 1:
        r = m1
    else:
        if m1.key > m2.key:
            m1, m2 = m2, m1
        r = mk("fmul", m1, m2)
    return r if s1 == s2 else fneg(r)


def fdiv(a, b):
    if a.op == "num" and b.op == "num" and num(b) != 0:
        return float_const(float(num(a)) / float(num(b)))
    s1, m1 = _sgn(a)
    s2, m2 = _sgn(b)
    if m2.op == "num" and num(m2) == 1:
        r = m1
    elif m2.op == "num" and (num(m2).numerator & (num(m2).numerator - 1)) == 0 and (num(m2).denominator & (num(m2).denominator - 1)) == 0 and num(m2) != 0:
        r = fmul(m1, const_r(1 / num(m2)))   # division by a power of two is exact scaling
    else:
        r = mk("fdiv", m1, m2)
    return r if s1 == s2 else fneg(r)


# ---------------------------------------------------------------- decision diagrams
GROUP = ("lt0", "gt0", "eq0")
_okey = memo()


def okey(a):
    k = _okey.get(a)
    if k is None:
        if a.op in GROUP:
            k = (a.args[0].key, 0, 0, a.op)
        elif a.op == "ge0i":
            p = a.args[0]
            d = dict(pdict(p))
            c = d.pop((), Fraction(0))
            g = from_pdict("i", d)
            k = (g.key, 1, c, "")
        else:
            k = (a.key, 2, 0, "")
        _okey[a] = k
    return k


def implied(a, t, val):
    """Truth of atom a given atom t has truth value val; None if unknown."""
    if a is t:
        return val
    if a.op in GROUP and t.op in GROUP and a.args[0] is t.args[0]:
        if val:
            return False          # mutually exclusive
        return None
    if a.op == "ge0i" and t.op == "ge0i":
        ka, kt = okey(a), okey(t)
        if ka[0] == kt[0]:
            if val and ka[2] >= kt[2]:
                return True
            if not val and ka[2] <= kt[2]:
                return False
    return None


def cof(n, t, val):
    while n.op == "ite":
        v = implied(n.args[0], t, val)
        if v is None:
            if okey(n.args[0])[0] == okey(t)[0] and n.args[0] is not t:
                # same group, not decided at the top: look below
                a, x, y = n.args
                x2, y2 = cof(x, t, val), cof(y, t, val)
                return n if (x2 is x and y2 is y) else mkite_raw(a, x2, y2)
            return n
        n = n.args[1] if v else n.args[2]
    return n


def mkite(a, t, e):
    if t is not e:
        k = okey(a)
        if t.op == "ite" and not k < okey(t.args[0]) or e.op == "ite" and not k < okey(e.args[0]):
            return ite(atomb(a), t, e)
    return mkite_raw(a, t, e)


def mkite_raw(a, t, e):
    if t is e:
        return t
    if t is BOT:
        return e
    if e is BOT:
        return t
    if MODE.fp and a.op in GROUP and e.op == "ite":
        # the atoms of a group exclude each other: with a true, the else chain ends in its last branch
        x = e
        while x.op == "ite" and x is not t and x.args[0].op in GROUP and x.args[0].args[0] is a.args[0] and x.args[0] is not a:
            x = x.args[2]
        if x is t:
            return e
    if t.op == "struct" and e.op == "struct" and t.args[0] == e.args[0] and len(t.args) == len(e.args):
        return mk("struct", t.args[0], *[mkite_ord(a, x, y) for x, y in zip(t.args[1:], e.args[1:])])
    if t.op == "vec" and e.op == "vec":
        return mk("vec", mkite_ord(a, t.args[0], e.args[0]), mkite_ord(a, t.args[1], e.args[1]), t.args[2])
    if t.op == "cstore" or e.op == "cstore":
        m = _merge_stores(atomb(a), t, e)
        if m is not None:
            return m
    return mk("ite", a, t, e)


def _chain(c):
    """content as (base, {constant index: value}), or None"""
    d = {}
    while c.op == "cstore":
        if c.args[1].op != "num":
            return None
        d.setdefault(num(c.args[1]), c.args[2])
        c = c.args[0]
    return c, d


def _merge_stores(c, t, e):
    """conditional choice between two contents differing at constant indices: choose per index"""
    x, y = _chain(t), _chain(e)
    if x is None or y is None or x[0] is not y[0] or x[0].op == "ite":
        return None
    b = x[0]
    for i in sorted(set(x[1]) | set(y[1])):
        u = x[1].get(i)
        v = y[1].get(i)
        u = cget(x[0], const_i(i)) if u is None else u
        v = cget(x[0], const_i(i)) if v is None else v
        b = mk("cstore", b, const_i(i), ite(c, u, v))
    return b


def mkite_ord(a, t, e):
    return ite(atomb(a), t, e)


def atomb(a):
    return mk("ite", a, TRUE, FALSE)


_ite_memo = memo()


def as_string(n):
    """constant string as a built string (character sequence)"""
    if n.op != "str":
        return n
    cc = cundef()
    for i, ch in enumerate(n.args[0]):
        cc = cstore(cc, const_i(i), const_i(ord(ch)))
    return mk("struct", "$string", mk("vec", const_i(len(n.args[0])), cc, None))


def _is_string(n):
    return n.op == "struct" and n.args[0] == "$string"


ATOMS = {"lt0", "gt0", "eq0", "ge0i", "isnan", "isinf", "batom", "eqv", "flt", "feq"}


def ite(c, t, e):
    if c is TRUE:
        return t
    if c is FALSE:
        return e
    if t is e:
        return t
    if t.op == "str" and _is_string(e):
        t = as_string(t)
    elif e.op == "str" and _is_string(t):
        e = as_string(e)
    if t is BOT:
        return e
    if e is BOT:
        return t
    if c is BOT:
        return BOT
    k = (c, t, e)
    r = _ite_memo.get(k)
    if r is not None:
        return r
    if t.op == "struct" and e.op == "struct" and t.args[0] == e.args[0] and len(t.args) == len(e.args):
        r = mk("struct", t.args[0], *[ite(c, x, y) for x, y in zip(t.args[1:], e.args[1:])])
    elif t.op == "vec" and e.op == "vec":
        r = mk("vec", ite(c, t.args[0], e.args[0]), ite(c, t.args[1], e.args[1]), t.args[2])
    elif t is TRUE and e is FALSE:
        r = c
    elif (t.op == "cstore" or e.op == "cstore") and (mg := _merge_stores(c, t, e)) is not None:
        r = mg
    else:
        if c.op != "ite":
            c = atomb(c) if c.op in ATOMS else tobool(c)
        top = c.args[0]
        for x in (t, e):
            if x.op == "ite" and okey(x.args[0]) < okey(top):
                top = x.args[0]
        pos = ite(cof(c, top, True), cof(t, top, True), cof(e, top, True))
        ng = ite(cof(c, top, False), cof(t, top, False), cof(e, top, False))
        r = mkite_raw(_minmax_atom(top, pos, ng), pos, ng)
    _ite_memo[k] = r
    return r


def _minmax_atom(c, t, e):
    """smaller or larger of two integers: both ways of writing the tie get one form"""
    if c.op == "ge0i" and t.op != "ite" and e.op != "ite" and sort_of(t) == "i" and sort_of(e) == "i":
        q = add(c.args[0], I1)
        d = sub(t, e)
        if d is q or d is neg(q):
            g = cmp("ge", q, I0)
            if g.op == "ge0i":
                return g
    return c


def b_not(a):
    return ite(a, FALSE, TRUE)


def b_and(a, b):
    return ite(a, b, FALSE)


def b_or(a, b):
    return ite(a, TRUE, b)


def b_xor(a, b):
    return ite(a, b_not(b), b)


def b_iff(a, b):
    return ite(a, b, b_not(b))


# ---------------------------------------------------------------- comparisons
def _primitive(p):
    """normalise a real polynomial up to a positive factor and choose its sign.
    returns (node, flipped)"""
    d = pdict(p)
    items = sorted(d.items(), key=lambda kv: _mono_key(kv[0]))
    lead = None
    for m, c in items:
        if m != ():
            lead = c
            break
    if lead is None:
        lead = items[0][1]
    a = abs(lead)
    flip = lead < 0
    s = -1 if flip else 1
    return from_pdict("r", {m: s * c / a for m, c in d.items()}), flip


def has_nan(n):
    """node may be NaN because it mentions a nanable symbol"""
    if not MODE.nan:
        return FALSE
    return isnan(n)


_isnan_memo = memo()


def isnan(n):
    if n is NAN:
        return TRUE
    if n.op in ("num", "inf", "bot"):
        return FALSE
    r = _isnan_memo.get(n)
    if r is not None:
        return r
    if n.op == "ite":
        r = ite(atomb(n.args[0]), isnan(n.args[1]), isnan(n.args[2]))
    elif n.op == "poly":
        r = FALSE
        q = quotient(n) if MODE.quot else None
        if q is not None:
            r = b_and(cmp("eq", q[1], R0), cmp("eq", q[0], R0))
        if q is None or MODE.nan:
            for m, c in n._p.items():
                for a, e in m:
                    r = b_or(r, isnan(a))
    elif n.op in ("fadd", "fmul", "fdiv", "fneg"):
        if n.op == "fdiv":
            r = atomb(mk("isnan", n))
        else:
            r = FALSE
            for a in n.args:
                r = b_or(r, isnan(a))
    elif n.op == "inv":
        r = isnan(n.args[0])
    elif n.op in ("sym", "leaf", "tmp", "bv", "rec"):
        if MODE.nan and nanable_leaf(n):
            r = atomb(mk("isnan", n))
        else:
            r = FALSE
    elif n.op == "fn":
        r = FALSE
        for a in n.args[2:]:
            if isinstance(a, Node) and sort_of(a) == "r":
                r = b_or(r, isnan(a))
    else:
        r = FALSE
    _isnan_memo[n] = r
    return r


def nanable_leaf(n):
    f = MODE.nanable
    return f is not None and f(n)


def quotient(n):
    """n as numerator / denominator when every term has the same single denominator"""
    if n.op == "inv":
        return R1, n.args[0]
    if n.op != "poly":
        return None
    w = None
    top = 1
    for m, c in n._p.items():
        for a, e in m:
            if a.op == "inv":
                if w is not None and a is not w:
                    return None
                w = a
                top = max(top, e)
    if w is None or _mentions_div(w.args[0]):
        return None
    den = pdict(w.args[0])
    num_ = {}
    for m, c in n._p.items():
        e = sum(e for a, e in m if a is w)
        t = {tuple(x for x in m if x[0] is not w): c}
        for a, _ in m:
            if a is not w and _mentions_div(a):
                return None
        for _ in range(top - e):
            t = pmul(t, den)
        num_ = padd(num_, t)
    return from_pdict("r", num_), w.args[0]


def isinf(n):
    if n.op == "inf":
        return TRUE
    if MODE.quot:
        q = quotient(n)
        if q is not None:
            return b_and(cmp("eq", q[1], R0), cmp("ne", q[0], R0))
    if n.op == "ite":
        return ite(atomb(n.args[0]), isinf(n.args[1]), isinf(n.args[2]))
    if n.op in ("num", "nan", "bot"):
        return FALSE
    if _mentions_div(n):
        return atomb(mk("isinf", n))
    return FALSE


def _mentions_div(n):
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x in seen:
            continue
        seen.add(x)
        if x.op in ("inv", "fdiv") or x.op == "fn" and x.args[1] in ("div0", "inv0", "ln", "pow", "exp", "divinf", "mulinf"):
            return True
        ch = []
        _walk(x.args, ch)
        st.extend(ch)
    return False


CMPLIFT = 512


def cmp(op, a, b):
    """op in lt le gt ge eq ne"""
    if a is BOT or b is BOT:
        return BOT
    if a.op == "ite" or b.op == "ite":
        return lift2("cmp" + op, lambda x, y: cmp(op, x, y), a, b)
    s = sort_of(a) if a.op != "num" or b.op == "num" else sort_of(b)
    sa, sb = sort_of(a), sort_of(b)
    if a.op in ("struct", "vec", "str") and (sa in ("r", "i", "b") or sb in ("r", "i", "b")):
        raise Unsupported("comparison of an aggregate")
    if "r" in (sa, sb):
        return rcmp(op, a, b)
    if sa == "i" or sb == "i":
        return icmp(op, a, b)
    if sa == "b" or sb == "b":
        r = b_iff(tobool(a), tobool(b))
        if op == "eq":
            return r
        if op == "ne":
            return b_not(r)
    if op in ("eq", "ne"):
        if a.op == "var" and b.op == "var" and len(a.args) == 2 and len(b.args) == 2:
            r = boolean(a is b)
        elif a is b:
            r = TRUE
        elif a.op == "str" and b.op == "str":
            r = boolean(a is b)
        else:
            x, y = (a, b) if a.key < b.key else (b, a)
            r = atomb(mk("eqv", x, y))
        return r if op == "eq" else b_not(r)
    raise Unsupported("cmp %s on %s/%s" % (op, sa, sb))


def tobool(n):
    if n.op in ("true", "false", "ite", "bot"):
        return n
    return atomb(mk("batom", n))


def _zero_over(p):
    """a sum of quotients whose numerator over the common denominator is identically zero"""
    if p.op != "poly" or not any(a.op == "inv" for m in p._p for a, _ in m):
        return False
    from .prove import clear_inv
    d = clear_inv(p)
    return d.op == "num" and num(d) == 0


def rcmp(op, a, b):
    if a is NAN or b is NAN:
        return boolean(op == "ne")
    if a.op == "inf" or b.op == "inf":
        if a.op == "inf" and b.op == "inf":
            v = (a.args[0] > b.args[0]) - (a.args[0] < b.args[0])
        elif MODE.nan and isnan(b if a.op == "inf" else a) is not FALSE:
            n = isnan(b if a.op == "inf" else a)
            v = a.args[0] if a.op == "inf" else -b.args[0]
            return ite(n, boolean(op == "ne"), boolean(eval_cmp(op, v)))
        else:
            v = a.args[0] if a.op == "inf" else -b.args[0]
        return boolean(eval_cmp(op, v))
    if a.op == "num" and b.op == "num":
        v = (num(a) > num(b)) - (num(a) < num(b))
        return boolean(eval_cmp(op, v))
    if MODE.fp:
        return fcmp(op, a, b)
    p = from_pdict("r", padd(pdict(a), pdict(b), -1))
    nn = FALSE
    if MODE.nan:
        nn = b_or(isnan(a), isnan(b))
    if p.op == "num":
        r = boolean(eval_cmp(op, (num(p) > 0) - (num(p) < 0)))
    else:
        if op in ("eq", "ne") and nn is FALSE and len(p._p if p.op == "poly" else ()) <= 64 and _zero_over(p):
            return boolean(op == "eq")
        q, flip = _primitive(p)
        lt = atomb(mk("gt0" if flip else "lt0", q))
        gt = atomb(mk("lt0" if flip else "gt0", q))
        if op == "lt":
            r = lt
        elif op == "gt":
            r = gt
        elif op == "le":
            r = b_not(gt)
        elif op == "ge":
            r = b_not(lt)
        elif op == "eq":
            r = b_and(b_not(lt), b_not(gt))
        else:
            r = b_or(lt, gt)
    if nn is not FALSE:
        r = ite(nn, boolean(op == "ne"), r)
    return r


def fcmp(op, a, b):
    if a is b:
        r = boolean(op in ("le", "ge", "eq"))
        return r
    # a - b sign graph: use ordered pair; a<b, b<a, otherwise equal (non-NaN)
    # negation symmetric normal form: (-x) < (-y)  <=>  y < x ; x < -y kept
    s1, m1 = _sgn(a)
    s2, m2 = _sgn(b)
    if s1 < 0 and s2 < 0:
        return fcmp({"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op), m1, m2)
    if s1 < 0 and m2.op == "num" and num(m2) == 0:
        return fcmp({"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op), m1, m2)
    if s2 < 0 and m1.op == "num" and num(m1) == 0:
        return fcmp({"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(op, op), m1, m2)
    flip = a.key > b.key
    x, y = (b, a) if flip else (a, b)
    q = mk("fpair", x, y)
    lt = atomb(mk("gt0" if flip else "lt0", q))
    gt = atomb(mk("lt0" if flip else "gt0", q))
    if op == "lt":
        return lt
    if op == "gt":
        return gt
    if op == "le":
        return b_not(gt)
    if op == "ge":
        return b_not(lt)
    e = b_and(b_not(lt), b_not(gt))
    return e if op == "eq" else b_not(e)


def eval_cmp(op, v):
    return {"lt": v < 0, "le": v <= 0, "gt": v > 0, "ge": v >= 0, "eq": v == 0, "ne": v != 0}[op]


def ge0(p):
    """integer p >= 0 as canonical boolean"""
    if p.op == "num":
        return boolean(num(p) >= 0)
    if p.op not in ("ite", "bot"):
        if nonneg(p):
            return TRUE
        if nonneg(from_pdict("i", padd({(): Fraction(-1)}, pdict(p), -1))):
            return FALSE
    d = dict(pdict(p))
    c = d.pop((), Fraction(0))
    items = sorted(d.items(), key=lambda kv: _mono_key(kv[0]))
    from math import gcd
    g = 0
    L = 1
    for m, k in items:
        L = L * k.denominator // gcd(L, k.denominator)
    for m, k in items:
        g = gcd(g, int(abs(k * L)))
    f = Fraction(L, g)
    d = {m: k * f for m, k in d.items()}
    c = c * f
    import math
    if items[0][1] > 0:
        c = Fraction(math.floor(c))
        if c:
            d[()] = c
        return atomb(mk("ge0i", from_pdict("i", d)))
    # -q + c >= 0  <=> q <= c <=> not (q >= floor(c)+1)
    c = Fraction(math.floor(c))
    d = {m: -k for m, k in d.items()}
    cc = -(c + 1)
    if cc:
        d[()] = cc
    return b_not(atomb(mk("ge0i", from_pdict("i", d))))


def icmp(op, a, b):
    if a.op == "num" and b.op == "num":
        return boolean(eval_cmp(op, (num(a) > num(b)) - (num(a) < num(b))))
    p = from_pdict("i", padd(pdict(a), pdict(b), -1))
    if op == "ge":
        return ge0(p)
    if op == "gt":
        return ge0(sub(p, I1))
    if op == "le":
        return ge0(neg(p))
    if op == "lt":
        return ge0(sub(neg(p), I1))
    e = b_and(ge0(p), ge0(neg(p)))
    return e if op == "eq" else b_not(e)


def r_abs(a):
    if MODE.fp:
        if a.op == "num":
            return const_r(abs(num(a)))
        s, m = _sgn(a)
        if m.op == "fn" and m.args[1] == "abs":
            return m
        return mk("fn", "r", "abs", m)
    return ite(cmp("lt", a, R0), neg(a), a)


def r_min(a, b):
    # f64::min ignores NaN operands
    r = ite(cmp("lt", b, a), b, a)
    return _nanmin(a, b, r)


def r_max(a, b):
    r = ite(cmp("gt", b, a), b, a)
    return _nanmin(a, b, r)


def _nanmin(a, b, r):
    if a is NAN:
        return b
    if b is NAN:
        return a
    if MODE.nan:
        r = ite(isnan(a), b, ite(isnan(b), a, r))
    return r


def i2f(a):
    if a.op == "ite":
        return lift1("i2f", i2f, a)
    if a.op == "num":
        return const_r(num(a))
    if a is BOT:
        return BOT
    d = {}
    for m, c in pdict(a).items():
        mm = tuple(sorted(((mk("fn", "r", "i2f", n), e) for n, e in m), key=lambda t: t[0].key))
        d[mm] = d.get(mm, 0) + c
    if MODE.fp:
        return mk("fn", "r", "i2f", a)
    return from_pdict("r", d)


def fn(sort, name, *args):
    """uninterpreted function (lifted over small choices)"""
    for i, a in enumerate(args):
        if a is BOT:
            return BOT
        if isinstance(a, Node) and a.op == "ite" and _should_lift(*[x for x in args if isinstance(x, Node)]) and sort_of(a) in ("i", "r", "b"):
            t = a.args[0]
            for y in args:
                if isinstance(y, Node) and y.op == "ite" and okey(y.args[0]) < okey(t):
                    t = y.args[0]
            return mkite_raw(t, fn(sort, name, *[cof(y, t, True) if isinstance(y, Node) else y for y in args]),
                         fn(sort, name, *[cof(y, t, False) if isinstance(y, Node) else y for y in args]))
    return mk("fn", sort, name, *args)


# ---------------------------------------------------------------- vectors
def vec(length, content, ety):
    return mk("vec", length, content, ety)


EXPAND_VAR = [None]


def vlen(v):
    if v is BOT:
        return BOT
    if v.op == "vec":
        return v.args[0]
    if v.op == "ite":
        return lift1("vlen", vlen, v)
    raise Unsupported("len of " + v.op)


def cget(c, i):
    """content c at integer index i"""
    if c is BOT:
        return BOT
    if c.op == "ite":
        return ite(atomb(c.args[0]), cget(c.args[1], i), cget(c.args[2], i))
    if i.op == "ite":
        return lift1(("cget", c), lambda j: cget(c, j), i)
    if i is BOT:
        return BOT
    if c.op == "cstore":
        b, j, v = c.args
        e = cmp("eq", i, j)
        if e is TRUE:
            return v
        if e is FALSE:
            return cget(b, i)
        return ite(e, v, cget(b, i))
    if c.op == "lam":
        return subst(c.args[0], {mk("bv", c.h, "k", "i"): i})
    if c.op == "cundef":
        return BOT
    if c.op == "cbase":
        return c_expand(c, i)
    if c.op in ("rec", "tmp", "bv"):
        return c_expand(c, i)
    if c.op == "opaque":
        return c_expand(c, i)
    raise Unsupported("cget " + c.op)


c_expand_hook = [None]


def c_expand(c, i):
    return c_expand_hook[0](c, i)


def cstore(c, i, v):
    if c is BOT or i is BOT:
        return BOT
    if c.op == "cstore":
        if c.args[1] is i:
            return mk("cstore", c.args[0], i, v)
        if i.op == "num" and c.args[1].op == "num" and num(c.args[1]) > num(i):
            return cstore(cstore(c.args[0], i, v), c.args[1], c.args[2])
        if i.op == "num" and c.args[1].op == "num":
            # distinct constants in increasing order: an older store of i lies below
            return mk("cstore", c, i, v)
        c = _drop_store(c, i)
    return mk("cstore", c, i, v)


def _drop_store(c, i):
    """forget an older store at the same index"""
    st, b = [], c
    while b.op == "cstore":
        if b.args[1] is i:
            b = b.args[0]
            for j, v in reversed(st):
                b = mk("cstore", b, j, v)
            return b
        st.append((b.args[1], b.args[2]))
        b = b.args[0]
    return c


CUNDEF = None


def cundef():
    return mk("cundef")


def lam(k, body):
    """content \\k. body"""
    h = body.h + 1
    b = subst(body, {k: mk("bv", h, "k", "i")})
    return mk("lam", b)


# ---------------------------------------------------------------- substitution
# set once a value's zero sign is looked at: equal reals may then not be exchanged
SIGNED_ZEROS = [False]


def subst(n, m):
    """simultaneous substitution of leaf nodes (tmp / bv / sym) by nodes, renormalising."""
    if not m:
        return n
    keys = frozenset(m)
    memo_ = {}
    allfv = all(k.op in ("tmp", "bv") for k in m)

    has_ = {}

    def has(x):
        r = has_.get(x)
        if r is None:
            r = x in keys
            if not r:
                ch = []
                _walk(x.args, ch)
                r = any(has(c) for c in ch)
            has_[x] = r
        return r

    def go(x):
        if allfv:
            if not (x.fv & keys):
                return x
        elif not has(x):
            return x
        r = memo_.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        else:
            r = rebuild(x, go)
        memo_[x] = r
        return r

    return go(n)


def rebuild(x, go):
    """reconstruct node x with children mapped by go, through the normalising constructors."""
    op = x.op
    a = x.args
    if op == "ite":
        return ite(go_atom(a[0], go), go(a[1]), go(a[2]))
    if op == "poly":
        return rebuild_poly(x, go)
    if op in ("num", "sym", "tmp", "bv", "true", "false", "bot", "nan", "inf", "str", "cundef"):
        return x
    if op == "inv":
        return inv_lift(go(a[0]))
    if op == "fn":
        args = [go(y) if isinstance(y, Node) else y for y in a[2:]]
        return refn(a[0], a[1], args)
    if op == "fadd":
        return fadd(go(a[0]), go(a[1]))
    if op == "fmul":
        return fmul(go(a[0]), go(a[1]))
    if op == "fdiv":
        return fdiv(go(a[0]), go(a[1]))
    if op == "fneg":
        return fneg(go(a[0]))
    if op == "struct":
        return mk("struct", a[0], *[go(y) for y in a[1:]])
    if op == "var":
        return mk("var", a[0], a[1], *[go(y) for y in a[2:]])
    if op == "vec":
        return mk("vec", go(a[0]), go(a[1]), a[2])
    if op == "cstore":
        return cstore(go(a[0]), go(a[1]), go(a[2]))
    if op == "leaf":
        return leaf_rebuild(x, go)
    if op == "cbase":
        return cbase_rebuild(x, go)
    if op in ("lam", "sys", "first"):
        # bound variables named by height: children heights may change, so reopen and reclose
        return rebinder(x, go)
    if op == "rec":
        k = go(a[1])
        s = go(a[2])
        return mk_rec(a[0], k, s, a[3])
    if op in ("lt0", "gt0", "eq0", "ge0i", "isnan", "isinf", "batom", "eqv"):
        return go_atom(x, go)
    if op == "mref":
        return mk("mref", a[0], tuple((t, go(i)) if t == "i" else (t, i) for t, i in a[1]))
    if op == "opaque":
        return mk("opaque", *[map_any(y, go) for y in a])
    return mk(op, *[map_any(y, go) for y in a])


def map_any(y, go):
    if isinstance(y, Node):
        return go(y)
    if isinstance(y, tuple):
        return tuple(map_any(z, go) for z in y)
    return y


def inv_lift(b):
    if b.op == "ite":
        return lift1("inv", inv_lift, b)
    if b is BOT:
        return BOT
    if b.op in ("nan", "inf"):
        return NAN if b is NAN else R0
    return inv(b)


FN_REBUILD = {}


def refn(sort, name, args):
    f = FN_REBUILD.get(name)
    if f:
        return f(*args)
    return fn(sort, name, *args)


FN_REBUILD["idiv"] = idiv
FN_REBUILD["irem"] = irem
FN_REBUILD["ediv"] = ediv
FN_REBUILD["urem"] = urem
FN_REBUILD["frem"] = frem
FN_REBUILD["i2f"] = i2f


def go_atom(t, go):
    """atom under substitution -> boolean diagram"""
    op = t.op
    if op in ("lt0", "gt0", "eq0"):
        p = t.args[0]
        if p.op == "fpair":
            a, b = go(p.args[0]), go(p.args[1])
            return cmp({"lt0": "lt", "gt0": "gt", "eq0": "eq"}[op], a, b)
        q = go(p)
        if q is p:
            return atomb(t)
        return cmp({"lt0": "lt", "gt0": "gt", "eq0": "eq"}[op], q, R0)
    if op == "ge0i":
        q = go(t.args[0])
        if q is t.args[0]:
            return atomb(t)
        return cmp("ge", q, I0)
    if op == "isnan":
        return isnan(go(t.args[0]))
    if op == "isinf":
        return isinf(go(t.args[0]))
    if op == "batom":
        return tobool(go(t.args[0]))
    if op == "eqv":
        return cmp("eq", go(t.args[0]), go(t.args[1]))
    raise Unsupported("atom " + op)


def rebuild_poly(x, go):
    kind = x.args[0]
    acc = {}
    mapped = {}
    lifted = None
    terms = []
    for m, c in x._p.items():
        t = const_i(c) if kind == "i" else const_r(c)
        for n, e in m:
            r = mapped.get(n)
            if r is None:
                r = go(n)
                mapped[n] = r
            for _ in range(e):
                t = mul(t, r)
        terms.append(t)
    r = terms[0]
    for t in terms[1:]:
        r = add(r, t)
    return r


CONCRETE = ("cstore", "lam", "ite", "cundef")


def leaf_rebuild(x, go):
    # ("leaf", sort, content, index, path) or ("leaf", sort, base, path)
    a = x.args
    if len(a) == 4:
        c = go(a[1])
        i = go(a[2])
        if c.op in CONCRETE or i.op == "ite" or c is BOT or i is BOT:
            return read_path(cget(c, i), a[3])
        return mk("leaf", a[0], c, i, a[3])
    return mk("leaf", a[0], *[map_any(y, go) for y in a[1:]])


def cbase_rebuild(x, go):
    k = x.args[0]
    if isinstance(k, tuple) and len(k) == 3:
        c = go(k[0])
        i = go(k[1])
        if c.op in CONCRETE or i.op == "ite" or c is BOT or i is BOT:
            return read_path(cget(c, i), k[2])
        return mk("cbase", (c, i, k[2]), x.args[1])
    return mk("cbase", *[map_any(y, go) for y in x.args])


def rebinder(x, go):
    h = x.h
    # replace bound variables of this binder by fresh temporaries, map, and close again
    bvs = set()

    def find(n, seen):
        for v in n.fv:
            if v.op == "bv" and v.args[0] == h:
                bvs.add(v)
    ch = []
    _walk(x.args, ch)
    for c in ch:
        find(c, None)
    mp = {v: mk("tmp", ("rb", v.args[1], h, _bump()), v.args[2], "k" if v.args[1] == "k" else "") for v in bvs}
    opened = [map_any(y, lambda n: subst(n, mp)) for y in x.args]
    mapped = [map_any(y, go) for y in opened]
    return close(x.op, mapped, {t: v.args[1] for v, t in mp.items()})


_bc = [0]


def _bump():
    _bc[0] += 1
    return _bc[0]


def close(op, args, tmps):
    """close binder: tmps maps temporary -> tag"""
    ch = []
    for a in args:
        _walk(a, ch)
    h = max([c.h for c in ch] + [0]) + 1
    mp = {t: mk("bv", h, tag, sort_of(t)) for t, tag in tmps.items()}
    # substitution may change heights (choices simplified), iterate
    for _ in range(4):
        new = [map_any(a, lambda n: subst(n, mp)) for a in args]
        ch2 = []
        for a in new:
            _walk(a, ch2)
        h2 = max([c.h for c in ch2] + [0]) + 1
        if h2 == h:
            return mk(op, *new) if op != "rec" else None
        h = h2
        mp = {t: mk("bv", h, tag, sort_of(t)) for t, tag in tmps.items()}
    raise Unsupported("close")


def mk_rec(sort, k, s, j):
    if k.op == "num" and num(k) <= 0:
        return sys_init(s, j)
    if k.op == "num" and num(k) <= UNFOLD:
        return sys_unfold(s, int(num(k)), j)
    if k.op == "ite":
        return lift1(("rec", sort, s, j), lambda kk: mk_rec(sort, kk, s, j), k)
    s, j = _needed(s, j)
    if sort == "r" and not MODE.fp:
        d = sum_step(s, j)
        if d is not None and d.op == "num":
            return add(s.args[0][j][0], mul(d, i2f(k)))
    z = _from_zero(sort, s, j)
    if z is not None:
        return add(z[0], mk_rec(sort, k, z[1], z[2]))
    return mk("rec", sort, k, s, j)


_zero_memo = memo()


def sum_step(s, j):
    """what a component that only accumulates adds each round, in the bound variables of the system; or None"""
    h = s.h
    ents = s.args[0]
    for i, (_, n) in enumerate(ents):
        if i != j and any(v.op == "bv" and v.args[0] == h and v.args[1] == j for v in n.fv):
            return None
    me = [v for v in ents[j][1].fv if v.op == "bv" and v.args[0] == h and v.args[1] == j]
    if len(me) != 1 or sort_of(me[0]) not in ("i", "r"):
        return None
    d = sub(ents[j][1], me[0])
    return None if d is BOT or d is NAN or me[0] in d.fv else d


_sn_memo = memo()


def sum_nonneg(s, j):
    """a sum from a start not negative, of terms of the round's number that are not negative"""
    r = _sn_memo.get((s, j))
    if r is None:
        d = sum_step(s, j)
        r = d is not None and nonneg(s.args[0][j][0]) and nonneg(d) and \
            all(v.args[1] == "k" for v in d.fv if v.op == "bv" and v.args[0] == s.h)
        _sn_memo[(s, j)] = r
    return r


def sum_term(s, j, k):
    """the term added in round k"""
    d = sum_step(s, j)
    return subst(d, {v: k for v in d.fv if v.op == "bv" and v.args[0] == s.h})



def _from_zero(sort, s, j):
    """(start, system starting at zero, component) of a sum that starts elsewhere"""
    if sort not in ("i", "r") or (sort == "r" and MODE.fp):
        return None
    if (s, j) in _zero_memo:
        return _zero_memo[(s, j)]
    r = None
    ents = s.args[0]
    init = ents[j][0]
    zero = I0 if sort == "i" else R0
    if init is not zero and init is not BOT and init is not NAN and init.op not in ("inf", "nan") and sum_step(s, j) is not None:
        h = s.h
        vs = {v for _, n in ents for v in n.fv if v.op == "bv" and v.args[0] == h}
        mp = {v: mk("tmp", ("z", v.args[1], h, _bump()), v.args[2], "k" if v.args[1] == "k" else "") for v in vs}
        new = tuple((zero if i == j else a, subst(n, mp)) for i, (a, n) in enumerate(ents))
        r = init, close("sys", [new], {t: v.args[1] for v, t in mp.items()}), j
    _zero_memo[(s, j)] = r
    return r


_need_memo = memo()


def _needed(s, j):
    """the part of a recurrence system that component j depends on"""
    r = _need_memo.get((s, j))
    if r is not None:
        return r
    ents = s.args[0]
    h = s.h
    deps = [{v.args[1] for v in n.fv if v.op == "bv" and v.args[0] == h and v.args[1] != "k"} for _, n in ents]
    need, todo = {j}, [j]
    while todo:
        for d in deps[todo.pop()]:
            if d not in need:
                need.add(d)
                todo.append(d)
    if len(need) == len(ents):
        r = s, j
    else:
        keep = sorted(need)
        vs = {v for i in keep for v in ents[i][1].fv if v.op == "bv" and v.args[0] == h}
        mp = {v: mk("tmp", ("nd", v.args[1], h, _bump()), v.args[2], "k" if v.args[1] == "k" else "") for v in vs}
        new = tuple((ents[i][0], subst(ents[i][1], mp)) for i in keep)
        pos = {i: n for n, i in enumerate(keep)}
        r = close("sys", [new], {t: "k" if v.args[1] == "k" else pos[v.args[1]] for v, t in mp.items()}), pos[j]
    _need_memo[(s, j)] = r
    return r


UNFOLD = 6


def sys_unfold(s, k, j):
    """state component j after k (small constant) steps"""
    h = s.h
    ents = s.args[0]
    cur = [e[0] for e in ents]
    bvs = set()
    ch = []
    _walk(s.args, ch)
    for c in ch:
        for v in c.fv:
            if v.op == "bv" and v.args[0] == h:
                bvs.add(v)
    for it in range(k):
        m = {}
        for v in bvs:
            m[v] = const_i(it) if v.args[1] == "k" else cur[v.args[1]]
        cur = [subst(e[1], m) for e in ents]
    return cur[j]


def sys_init(s, j):
    return s.args[0][j][0]


def nonneg(n):
    if n.op == "num":
        return num(n) >= 0
    if n.op == "ite":
        return nonneg(n.args[1]) and nonneg(n.args[2])
    for m, c in pdict(n).items():
        if c < 0:
            return False
        for a, e in m:
            if not atom_nonneg(a) and e % 2:
                return False
    return True


def atom_nonneg(a):
    if a.op == "sym":
        nm = a.args[0]
        return nm.endswith(".len") or nm.endswith(".disc") or nm.endswith(".u")
    if a.op == "leaf":
        p = a.args[-1]
        return isinstance(p, tuple) and p and p[-1] in ("len", "disc", "u")
    if a.op == "first":
        return True
    if a.op == "bv":
        return a.args[1] == "k"
    if a.op == "tmp":
        return a.args[2] == "k"
    if a.op == "rec":
        return a.args[0] == "i" and sum_nonneg(a.args[2], a.args[3])
    if a.op == "fn":
        if a.args[1] in ("idiv", "ediv"):
            return nonneg(a.args[2]) and nonneg(a.args[3])
        if a.args[1] in ("slen", "urem") or str(a.args[1]).startswith("f2iuint"):
            return True
        if a.args[1] == "irem":
            return nonneg(a.args[2])
    return False



def k_keep(old, new, same):
    """the new value with the listed fields of the old one"""
    if new.op == "ite":
        return ite(atomb(new.args[0]), k_keep(old, new.args[1], same), k_keep(old, new.args[2], same))
    if not same or new.op != "struct" or old.op != "struct":
        return new
    a = list(new.args)
    for j in same:
        a[j] = old.args[j]
    return mk("struct", *a)


def vbuf(v):
    if v is BOT:
        return v
    if v.op == "ite":
        return ite(atomb(v.args[0]), vbuf(v.args[1]), vbuf(v.args[2]))
    return v.args[1]


def read_path(v, path):
    for p in path:
        if v is BOT:
            return v
        if p == "u":
            continue
        if isinstance(p, int):
            if v.op == "ite":
                v = ite(atomb(v.args[0]), read_path(v.args[1], (p,)), read_path(v.args[2], (p,)))
            else:
                v = v.args[1 + p]
        elif p == "len":
            v = vlen(v)
        elif p == "buf":
            v = vbuf(v)
        elif p == "disc" or isinstance(p, tuple) and p[0] == "v":
            v = read_variant(v, p)
        else:
            raise Unsupported("read_path %s" % (p,))
    return v


def read_variant(v, p):
    """the variant of an enum, or a field of one (no value under other variants)"""
    if v is BOT:
        return v
    if v.op == "ite":
        return ite(atomb(v.args[0]), read_variant(v.args[1], p), read_variant(v.args[2], p))
    if v.op == "var":
        if p == "disc":
            return const_i(v.args[1])
        return v.args[2 + p[2]] if v.args[1] == p[1] and len(v.args) > 2 + p[2] else BOT
    raise Unsupported("read_path %s of %s" % (p, v.op))



# ---------------------------------------------------------------- printing
def show(n, depth=6):
    if not isinstance(n, Node):
        if isinstance(n, tuple):
            return "(" + ",".join(show(x, depth) for x in n) + ")"
        return str(n)
    if depth <= 0:
        return "…"
    op, a = n.op, n.args
    if op == "num":
        return str(a[1]) if a[1].denominator < 10**6 else repr(float(a[1]))
    if op == "sym":
        return str(a[0])
    if op == "tmp":
        return "t%s" % (a[0],)
    if op == "bv":
        return "#%d.%s" % (a[0], a[1])
    if op == "poly":
        parts = []
        for m, c in a[1][:12]:
            s = "*".join(show(x, depth - 1) + ("^%d" % e if e > 1 else "") for x, e in m)
            if c != 1 or not s:
                s = str(c) + ("*" + s if s else "")
            parts.append(s)
        return "(" + " + ".join(parts) + (" + …" if len(a[1]) > 12 else "") + ")"
    if op == "ite":
        if a[1] is TRUE and a[2] is FALSE:
            return "[%s]" % show(a[0], depth - 1)
        return "ite(%s ? %s : %s)" % (show(a[0], depth - 1), show(a[1], depth - 1), show(a[2], depth - 1))
    if op == "struct":
        return "%s{%s}" % (str(a[0]).split("::")[-1], ", ".join(show(x, depth - 1) for x in a[1:]))
    if op == "var":
        return "V%s(%s)" % (a[1], ", ".join(show(x, depth - 1) for x in a[2:]))
    if op == "fn":
        return "%s(%s)" % (a[1], ", ".join(show(x, depth - 1) for x in a[2:]))
    if op == "leaf":
        return "%s" % (".".join(show(x, depth - 1) for x in a[1:]))
    if op in ("true", "false", "bot", "nan"):
        return op
    return "%s(%s)" % (op, ", ".join(show(x, depth - 1) for x in a))

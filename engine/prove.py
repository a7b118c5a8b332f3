"""Decision procedure for the order/arithmetic theory of the value graphs.

Literals are signs of canonical polynomials, integer bounds and opaque booleans.  Feasibility of a
conjunction is linear arithmetic over monomials (exact simplex on rationals with strict bounds as
delta-rationals), with signs of even powers, square roots, lengths, quotients and first-match
indices as built-in facts.  An answer 'proven' is sound for every valuation of the inputs."""
import itertools
from fractions import Fraction
from . import nodes as N
from .nodes import Node, sort_of, subst, cmp, sub, add, mul, const_i, Budget, Unsupported

F0 = Fraction(0)


# ---------------------------------------------------------------- linear feasibility
def feasible(cons):
    """cons: list of (dict var->coef, const, strict): sum + const >= 0 (or > 0).
    Fourier-free: phase-1 simplex with delta handled as an extra component."""
    # quick constant / single-variable bound tests and duplicate merge
    rows = {}
    for d, c, s in cons:
        if not d:
            if c < 0 or (c == 0 and s):
                return False
            continue
        items = tuple(sorted(d.items(), key=lambda t: t[0].__hash__() if not isinstance(t[0], int) else t[0]))
        lead = abs(items[0][1])
        key = tuple((v, k / lead) for v, k in items)
        b = (c / lead, -1 if s else 0)      # sum >= -c (+delta if strict)
        o = rows.get(key)
        if o is None or b < o:
            rows[key] = b
    if not rows:
        return True
    # contradiction of opposite rows
    for key, b in rows.items():
        nk = tuple((v, -k) for v, k in key)
        o = rows.get(nk)
        if o is not None:
            t = (b[0] + o[0], b[1] + o[1])
            if t < (0, 0):
                return False
    return simplex(rows)


def simplex(rows):
    """rows: {((var,coef)..): (c, dneg)} meaning sum + c + dneg*delta >= 0, delta>0 infinitesimal."""
    vid = {}
    for key in rows:
        for v, _ in key:
            if v not in vid:
                vid[v] = len(vid)
    n = len(vid)
    # slack variables s_i = sum_i, with lower bound -c (delta-rational)
    m = len(rows)
    lb = {}
    tab = {}
    for i, (key, (c, dn)) in enumerate(rows.items()):
        if len(key) == 0:
            continue
        s = n + i
        tab[s] = {vid[v]: Fraction(k) for v, k in key}
        lb[s] = (-c, -dn)
    val = {j: (F0, F0) for j in range(n + m)}
    # basics are slacks
    steps = 0
    while True:
        steps += 1
        if steps > 400:
            return True
        bad = None
        for b in sorted(tab):
            if b in lb and val[b] < lb[b]:
                bad = b
                break
        if bad is None:
            return True
        row = tab[bad]
        piv = None
        for j in sorted(row):
            k = row[j]
            if k > 0:
                piv = j       # all variables unbounded above
                break
            if k < 0 and (j not in lb or val[j] > lb[j]):
                piv = j
                break
        if piv is None:
            return False
        # pivot bad <-> piv, set val[bad] = lb[bad]
        k = row[piv]
        nr = {bad: 1 / k}
        for j, x in row.items():
            if j != piv:
                nr[j] = -x / k
        d = ((lb[bad][0] - val[bad][0]) / k, (lb[bad][1] - val[bad][1]) / k)
        del tab[bad]
        val[bad] = lb[bad]
        val[piv] = (val[piv][0] + d[0], val[piv][1] + d[1])
        for b, r in tab.items():
            x = r.pop(piv, None)
            if x:
                val[b] = (val[b][0] + x * d[0], val[b][1] + x * d[1])
                for j, y in nr.items():
                    z = r.get(j, F0) + x * y
                    if z:
                        r[j] = z
                    else:
                        r.pop(j, None)
        tab[piv] = nr


# ---------------------------------------------------------------- literal store
def lin_of(p):
    """poly -> (dict mono->coef, const)"""
    d = dict(N.pdict(p))
    c = d.pop((), F0)
    return d, c


def mono_nonneg(m):
    from .nodes import atom_nonneg
    for a, e in m:
        if e % 2 == 0:
            continue
        if a.op == "fn" and a.args[1] in ("sqrt", "abs"):
            continue
        if a.op == "fn" and a.args[1] == "i2f" and isinstance(a.args[2], Node) and atom_nonneg(a.args[2]):
            continue
        if atom_nonneg(a):
            continue
        return False
    return True


class Ctx:
    """a conjunction of literals (persistent list)"""
    __slots__ = ("cons", "parent", "bools", "eqs", "monos", "known", "log")

    def __init__(self, parent=None):
        self.parent = parent
        if parent is None:
            self.cons = []
            self.bools = {}
            self.monos = frozenset()
            self.log = None
        else:
            self.log = parent.log
            self.cons = list(parent.cons)
            self.bools = parent.bools
            self.monos = parent.monos

    def add_ge(self, p, strict):
        d, c = lin_of(p)
        self.cons.append((d, c, strict))
        new = [m for m in d if m not in self.monos]
        if new:
            self.monos = self.monos | frozenset(new)
            for m in new:
                self.axioms(m)

    def axioms(self, m):
        if mono_nonneg(m):
            self.cons.append(({m: Fraction(1)}, F0, False))
        if len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            from .nodes import nonneg
            if a.op == "fn" and a.args[1] == "idiv" and a.args[3].op == "num" and N.num(a.args[3]) > 0 and nonneg(a.args[2]):
                x = a.args[2]
                c = a.args[3]
                self.add_ge(sub(x, mul(c, a)), False)
                self.add_ge(sub(sub(add(mul(c, a), c), x), N.I1), False)
            elif a.op == "fn" and a.args[1] == "ediv":
                x = a.args[2]
                c = a.args[3]
                self.add_ge(sub(x, mul(c, a)), False)
                self.add_ge(sub(sub(add(mul(c, a), c), x), N.I1), False)
            elif a.op == "fn" and a.args[1] == "urem":
                # the divisor is not zero where the remainder has a value
                self.add_ge(sub(sub(a.args[3], a), N.I1), False)
                self.add_ge(sub(a.args[2], a), False)
            elif a.op == "fn" and a.args[1] == "irem" and a.args[3].op == "num" and N.num(a.args[3]) > 0 and nonneg(a.args[2]):
                self.add_ge(sub(sub(a.args[3], a), N.I1), False)
                self.add_ge(sub(a.args[2], a), False)
            elif a.op == "fn" and a.args[1] == "irem" and a.args[3].op == "num" and N.num(a.args[3]) > 0:
                self.add_ge(sub(sub(a.args[3], a), N.I1), False)
                self.add_ge(sub(add(a.args[3], a), N.I1), False)
            elif a.op == "fn" and a.args[1] == "frem" and not N.MODE.fp and a.args[3].op == "num" and N.num(a.args[3]) > 0:
                self.add_ge(sub(a.args[3], a), True)
                self.add_ge(add(a.args[3], a), True)
            elif a.op == "fn" and a.args[1] == "i2f" and isinstance(a.args[2], Node) and not N.MODE.fp and \
                    a.args[2].op not in ("poly", "num", "ite"):
                mi = ((a.args[2], 1),)
                self.cons.append(({m: Fraction(1), mi: Fraction(-1)}, F0, False))
                self.cons.append(({m: Fraction(-1), mi: Fraction(1)}, F0, False))
                if mi not in self.monos:
                    self.monos = self.monos | frozenset([mi])
                    self.axioms(mi)
            elif a.op == "first":
                b = a.args[0]
                if b.op != "ite" and not (b.op == "sym" and b.args[0] == "$inf"):
                    if nonneg(b):
                        self.add_ge(sub(b, a), False)
            elif a.op == "fn" and a.args[1] == "floor" and not N.MODE.fp:
                self.add_ge(sub(a.args[2], a), False)
                self.add_ge(sub(add(a, N.R1), a.args[2]), True)
            elif a.op == "fn" and a.args[1] == "ceil" and not N.MODE.fp:
                self.add_ge(sub(a, a.args[2]), False)
                self.add_ge(sub(add(a.args[2], N.R1), a), True)
            elif a.op == "fn" and a.args[1] in ("sin", "cos"):
                self.add_ge(sub(N.R1, a), False)
                self.add_ge(add(N.R1, a), False)

    def assume(self, atom, val):
        """returns a new context or None when contradictory"""
        v = self.value(atom)
        if v is not None:
            return self if v == val else None
        c = Ctx(self)
        c.log = (self.log, atom, val)
        op = atom.op
        if op in N.GROUP or op == "ge0i":
            p = atom.args[0]
            if p.op == "fpair":
                c.bools = dict(c.bools)
                c.bools[atom] = val
                x, y = p.args
                # comparisons between doubles: order variables only
                p = N.from_pdict("r", {((x, 1),): Fraction(1), ((y, 1),): Fraction(-1)}) if x.op != "num" and y.op != "num" else \
                    (N.from_pdict("r", N.padd({((x, 1),): Fraction(1)} if x.op != "num" else N.pdict(x),
                                              {((y, 1),): Fraction(1)} if y.op != "num" else N.pdict(y), -1)))
            if op == "lt0":
                c.add_ge(N.from_pdict("r", {m: -k for m, k in N.pdict(p).items()}), True) if val else c.add_ge(p, False)
            elif op == "gt0":
                c.add_ge(p, True) if val else c.add_ge(N.from_pdict("r", {m: -k for m, k in N.pdict(p).items()}), False)
            elif op == "ge0i":
                if val:
                    c.add_ge(p, False)
                else:
                    c.add_ge(N.sub(N.neg(p), N.I1), False)
            else:
                raise Unsupported("eq0")
            if not feasible(c.cons):
                return None
            return c
        c.bools = dict(c.bools)
        c.bools[atom] = val
        return c

    def value(self, atom):
        return self.bools.get(atom)


class Tooling:
    cap = 20000


class PathCap(Exception):
    pass


def refute_true(b, ctx=None, cap=4000):
    """True when boolean graph b is FALSE for every consistent valuation."""
    count = [0]

    def go(b, ctx):
        if b is N.FALSE or b is N.BOT:
            return True
        count[0] += 1
        if count[0] > cap:
            raise PathCap()
        if b is N.TRUE:
            return False
        a = b.args[0]
        c1 = ctx.assume(a, True)
        if c1 is not None and not go(b.args[1], c1):
            return False
        c0 = ctx.assume(a, False)
        if c0 is not None and not go(b.args[2], c0):
            return False
        return True
    try:
        return go(b, ctx or Ctx())
    except (PathCap, Unsupported):
        return False


_ent = N.memo()


def entails(facts, goal):
    if goal is N.TRUE:
        return True
    k = (tuple(facts), goal)
    r = _ent.get(k)
    if r is None:
        b = N.b_not(goal)
        for f in facts:
            b = N.b_and(f, b)
        r = refute_true(b, None, 1500)
        _ent[k] = r
    return r


def sum_order(ctx):
    """a sum of terms not negative, taken further, is at least the shorter one and its next term"""
    recs = {}
    for m in ctx.monos:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "rec":
            x = m[0][0]
            if N.atom_nonneg(x):
                recs.setdefault((x.args[2], x.args[3]), []).append(x)
    out = None
    for (s, j), xs in recs.items():
        if not 2 <= len(xs) <= 4:
            continue
        xs.sort(key=N.okey)
        for x, y in itertools.permutations(xs, 2):
            d, c = lin_of(sub(sub(y.args[1], x.args[1]), N.I1))
            if feasible(ctx.cons + [({m: -k for m, k in d.items()}, -c, True)]):
                continue
            if out is None:
                out = Ctx(ctx)
            out.add_ge(sub(sub(y, x), N.sum_term(s, j, x.args[1])), False)
    return out


def has_i2f(n):
    st, seen = [n], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "fn" and x.args[1] == "i2f":
            return True
        N._walk(x.args, st)
    return False


def has_opaque(n):
    st, seen = [n], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "fn" and (isinstance(x.args[0], tuple) and x.args[0][0] == "o"
                             or any(isinstance(y, Node) and y.op in ("struct", "vec", "var") for y in x.args)):
            return True
        N._walk(x.args, st)
    return False


# ---------------------------------------------------------------- equality of value graphs
class Result:
    def __init__(self, ok, why=None):
        self.ok = ok
        self.why = why


class Prover:
    def __init__(self, I, cap=30000, deadline=None):
        self.I = I
        self.cap = cap
        self.cong_depth = 0
        self.count = 0
        self.leaf_fail = None
        self.unify_no = set()
        self.msub = []
        self.rem_ok = True
        self.inv_ok = True
        self.deadline = deadline
        self.small = True
        self.inst_ok = True
        self.unify_depth = 0
        self.eq_depth = 0
        self.enum_depth = 0

    def prove(self, a, b):
        """equality of the two sides for all inputs"""
        a, b = self.preunify(a, b)
        return self.equal(a, b)

    def preunify(self, a, b):
        """identify the loop results of the two sides that are equal for all inputs"""
        cap, inst = self.cap, self.inst_ok
        for _ in range(12):
            ba, bb = binders_in([a]), binders_in([b])
            if len(ba) > 8 or len(bb) > 8:
                break
            hit = None
            for f in ba:
                if f in bb:
                    continue
                for g in bb:
                    if g in ba or f.op != g.op or abs(f.h - g.h) > 3 or (f, g, None) in self.unify_no:
                        continue
                    self.cap = min(cap, self.count + 4000)
                    self.unify_depth = 2
                    try:
                        ok = self.binder_equal(f, g, Ctx())
                    except PathCap:
                        ok = False
                        if self.deadline is not None and __import__("time").time() > self.deadline:
                            raise
                    finally:
                        self.cap, self.inst_ok = cap, inst
                        self.unify_depth = self.eq_depth = self.enum_depth = 0
                    self.leaf_fail = None
                    if ok:
                        hit = (f, g)
                        break
                    self.unify_no.add((f, g, None))
                if hit:
                    break
            if not hit:
                break
            f, g = hit
            if g.h < f.h or (g.h == f.h and g.key < f.key):
                f, g = g, f
            a, b = subst(a, {g: f}), subst(b, {g: f})
            if a is b:
                break
        return a, b

    def equal(self, a, b, ctx=None, sub_=None, depth=0):
        ctx = ctx or Ctx()
        if a is b:
            return True
        self.count += 1
        if self.count > self.cap:
            raise PathCap()
        if self.deadline is not None and self.count % 64 == 0:
            import time
            if time.time() > self.deadline:
                raise PathCap()
        if a is N.BOT or b is N.BOT:
            # one side never returns here
            return self.fail(a, b, ctx)
        if a.op == "ite" or b.op == "ite":
            ta = a.args[0] if a.op == "ite" else None
            tb = b.args[0] if b.op == "ite" else None
            t = ta if tb is None else tb if ta is None else (ta if N.okey(ta) <= N.okey(tb) else tb)
            for v in (True, False):
                c = ctx.assume(t, v)
                if c is None:
                    continue
                if not self.equal(N.cof(a, t, v), N.cof(b, t, v), c, sub_, depth):
                    return False
            return True
        if a.op == "struct" and b.op == "struct":
            if a.args[0] != b.args[0] or len(a.args) != len(b.args):
                return self.fail(a, b, ctx)
            return all(self.equal(x, y, ctx, sub_, depth) for x, y in zip(a.args[1:], b.args[1:]))
        if a.op == "var" and b.op == "var":
            if a.args[1] != b.args[1] or len(a.args) != len(b.args):
                return self.fail(a, b, ctx)
            return all(self.equal(x, y, ctx, sub_, depth) for x, y in zip(a.args[2:], b.args[2:]))
        if a.op == "vec" and b.op == "vec":
            if not self.equal(a.args[0], b.args[0], ctx, sub_, depth):
                return False
            if a.args[1] is b.args[1]:
                return True
            if depth > 4:
                return self.fail(a, b, ctx)
            ln = a.args[0]
            if ln.op == "num" and N.num(ln) <= 32:
                return all(self.equal(N.cget(a.args[1], const_i(i)), N.cget(b.args[1], const_i(i)), ctx, sub_, depth + 1)
                           for i in range(int(N.num(ln))))
            k = N.fresh("i", "elt")
            c = self.assume_bool(ctx, N.b_and(cmp("ge", k, N.I0), cmp("lt", k, ln)))
            ok = True
            for cc in c:
                x = N.cget(a.args[1], k)
                y = N.cget(b.args[1], k)
                if not self.equal(x, y, cc, sub_, depth + 1):
                    ok = False
                    break
            return ok
        if a.op == b.op == "cstore":
            if self.equal(a.args[1], b.args[1], ctx, sub_, depth) and self.equal(a.args[0], b.args[0], ctx, sub_, depth) \
                    and self.equal(a.args[2], b.args[2], ctx, sub_, depth):
                return True
            return self.fail(a, b, ctx)
        return self.scalar(a, b, ctx)

    def assume_bool(self, ctx, b):
        """contexts covering the paths of b to TRUE"""
        out = []

        def go(b, ctx):
            if b is N.FALSE:
                return
            if b is N.TRUE:
                out.append(ctx)
                return
            for v in (True, False):
                c = ctx.assume(b.args[0], v)
                if c is not None:
                    go(b.args[1] if v else b.args[2], c)
        go(b, ctx)
        return out

    def fail(self, a, b, ctx):
        # is the context feasible at all?
        if not feasible(ctx.cons):
            return True
        c = sum_order(ctx)
        if c is not None and not feasible(c.cons):
            return True
        if self.eq_depth < 3:
            # congruence: rewrite by the equalities of the context and look again
            m = self.equalities(ctx)
            if m:
                self.eq_depth += 1
                self.msub.append(m)
                try:
                    ok = all(self.equal(subst(a, m), subst(b, m), c) for c in self.rectx(ctx_lits(ctx), m))
                    if not ok:
                        self.leaf_fail = (a, b, ctx)        # the path as it was before rewriting
                    return ok
                finally:
                    self.msub.pop()
                    self.eq_depth -= 1
        if self.inv_ok and not N.MODE.fp:
            c = self.cleared(ctx)
            if c is not None:
                if not feasible(c.cons):
                    return True
                self.inv_ok = False
                try:
                    if self.equal(a, b, c):
                        return True
                finally:
                    self.inv_ok = True
        if self.rem_ok:
            r = self.rem_split(a, b, ctx)
            if r is not None:
                return r
        if self.unify_depth < 4:
            r = self.unify(a, b, ctx)
            if r is not None:
                return r
        if self.inst_ok:
            r = self.instantiate(a, b, ctx)
            if r is not None:
                return r
        if self.small and self.enum_depth < 3:
            r = self.enumerate(a, b, ctx)
            if r is not None:
                return r
        self.leaf_fail = (a, b, ctx)
        return False

    def cleared(self, ctx):
        """the context with its comparisons multiplied through by denominators of known sign"""
        out = None
        signs = {}

        def sign_of(x):
            if x not in signs:
                d = {((x, 1),): Fraction(1)}
                if not feasible(ctx.cons + [({m: -k for m, k in d.items()}, F0, False)]):
                    signs[x] = 1
                elif not feasible(ctx.cons + [(d, F0, False)]):
                    signs[x] = -1
                else:
                    signs[x] = 0
            return signs[x]
        prods = [m for m in ctx.monos if sum(e for _, e in m) > 1]
        if len(prods) <= 12:
            for m in sorted(prods, key=lambda m: [(N.okey(x), e) for x, e in m]):
                if any(e % 2 and ((x, 1),) not in ctx.monos for x, e in m):
                    continue
                sg = 1
                for x, e in m:
                    if e % 2:
                        sg *= sign_of(x)
                    elif not sign_of(x):
                        sg = 0
                if sg:
                    if out is None:
                        out = Ctx(ctx)
                    out.cons.append(({m: Fraction(sg)}, F0, True))
        def cleared_poly(p):
            sign = 1
            for _ in range(6):
                if p.op in ("num", "ite") or p is N.BOT or len(N.pdict(p)) > 60:
                    break
                invs = set()
                for m in N.pdict(p):
                    for x, e in m:
                        if x.op == "inv" and x.args[0].op not in ("ite", "num"):
                            invs.add(x)
                sg = 0
                for x in sorted(invs, key=lambda x: (-x.h, N.okey(x))):
                    f = x.args[0]
                    if f not in signs:
                        d, c = lin_of(f)
                        if not feasible(ctx.cons + [({m: -k for m, k in d.items()}, -c, False)]):
                            signs[f] = 1
                        elif not feasible(ctx.cons + [(d, c, False)]):
                            signs[f] = -1
                        else:
                            signs[f] = 0
                    sg = signs[f]
                    if sg:
                        break
                if not sg:
                    break
                acc = {}
                for m, k in N.pdict(p).items():
                    e = dict(m).get(x, 0)
                    if e:
                        t = {tuple((a, b if a is not x else b - 1) for a, b in m if a is not x or b > 1): k}
                    else:
                        t = N.pmul({m: k}, N.pdict(f))
                    acc = N.padd(acc, t)
                p = N.from_pdict("r", acc)
                sign *= sg
            return p, sign
        rows = [r for r in ctx.cons if any(x.op == "inv" for m in r[0] for x, _ in m)]
        if len(rows) <= 40:
            for d, c, strict in rows:
                p = dict(d)
                if c:
                    p[()] = c
                p = N.from_pdict("r", p)
                if p.op in ("num", "ite") or p is N.BOT:
                    continue
                q, sign = cleared_poly(p)
                if q is p or q.op == "ite" or q is N.BOT:
                    continue
                if out is None:
                    out = Ctx(ctx)
                out.add_ge(q if sign > 0 else N.neg(q), strict)
        # products of two known signs, where they meet monomials already there
        base = out or ctx
        polys = [(d, c, s) for d, c, s in base.cons if 2 <= len(d) + (c != 0) <= 4 and all(sum(e for _, e in m) <= 2 for m in d)
                 and all(sort_of(m[0][0]) == "r" for m in d)]
        have = {m for m in base.monos if sum(e for _, e in m) > 1}
        if have and len(polys) <= 40:
            xs = sorted({x for m in have for x, _ in m if ((x, 1),) in base.monos}, key=N.okey)
            add_ = []
            for x in xs[:8]:
                sg = sign_of(x)
                if not sg:
                    continue
                for d, c, s in polys:
                    t = N.pmul({**d, **({(): c} if c else {})}, {((x, 1),): Fraction(sg)})
                    if all(sum(e for _, e in m) <= 1 or m in have for m in t):
                        add_.append((t, s))
            for t, s in add_:
                k = t.pop((), F0)
                if out is None:
                    out = Ctx(ctx)
                out.cons.append((t, k, s))
        return out

    def rem_split(self, a, b, ctx):
        """a remainder has the sign of its dividend and is no larger"""
        rems = []
        for m in ctx.monos:
            for x, _ in m:
                if x.op == "fn" and x.args[1] in ("irem", "frem") and x not in rems and not (N.MODE.fp and x.args[1] == "frem"):
                    if not (x.args[1] == "irem" and N.nonneg(x.args[2])) and x.args[3].op == "num":
                        rems.append(x)
        if not rems or len(rems) > 2:
            return None
        rems.sort(key=N.okey)
        self.rem_ok = False
        try:
            cs = [ctx]
            for x in rems:
                new = []
                for c in cs:
                    zero = N.I0 if x.args[1] == "irem" else N.R0
                    for c2 in self.assume_bool(c, cmp("ge", x.args[2], zero)):
                        c2 = Ctx(c2)
                        c2.add_ge(x, False)
                        c2.add_ge(sub(x.args[2], x), False)
                        new.append(c2)
                    for c2 in self.assume_bool(c, cmp("lt", x.args[2], zero)):
                        c2 = Ctx(c2)
                        c2.add_ge(N.neg(x), False)
                        c2.add_ge(sub(x, x.args[2]), False)
                        new.append(c2)
                cs = new
            return all(not feasible(c.cons) or self.equal(a, b, c) for c in cs)
        finally:
            self.rem_ok = True

    def unify(self, a, b, ctx):
        """identify loop results (first-match indices, recurrences) of the two sides that are equal here"""
        lits = ctx_lits(ctx)
        bs = binders_in([a, b] + [x for x, _ in lits])
        pairs = [(f, g) for i, f in enumerate(bs) for g in bs[i + 1:]
                 if f.op == g.op and f.h <= g.h + 3 and g.h <= f.h + 3]
        if not pairs or len(bs) > 8:
            return None
        keep = self.leaf_fail
        self.unify_depth += 1
        try:
            for f, g in pairs:
                lk = (f, g, ctx.log)
                if lk in self.unify_no:
                    continue
                if self.binder_equal(f, g, ctx):
                    if g.h < f.h or (g.h == f.h and g.key < f.key):
                        f, g = g, f
                    m = {g: f}
                    cs = self.rectx(lits, m)
                    ok = all(self.equal(subst(a, m), subst(b, m), c) for c in cs)
                    if not ok:
                        self.leaf_fail = (a, b, ctx)
                    return ok
                self.unify_no.add(lk)
        finally:
            self.unify_depth -= 1
        self.leaf_fail = keep
        return None

    def rectx(self, lits, m):
        cs = [Ctx()]
        for atom, val in lits:
            g = subst(N.atomb(atom), m)
            if not val:
                g = N.b_not(g)
            if g is N.TRUE:
                continue
            cs = [z for c in cs for z in self.assume_bool(c, g)]
            if not cs:
                break
        return cs

    def binder_equal(self, f, g, ctx):
        k = N.fresh("i", "k")
        base = N.cmp("ge", k, N.I0)
        if f.op == "first":
            b1, s1, e1 = f.args
            b2, s2, e2 = g.args
            if b1 is not b2:
                if N.BOT in (b1, b2) or not self.equal(b1, b2, ctx):
                    return False
            if not (b1.op == "sym" and b1.args[0] == "$inf"):
                base = N.b_and(base, cmp("lt", k, b1))
        else:
            if f.args[0] != g.args[0]:
                return False
            if len(f.args[2].args[0]) != len(g.args[2].args[0]):
                return False
            if f.args[1] is not g.args[1] and not self.equal(f.args[1], g.args[1], ctx):
                return False
            K = f.args[1]
            base = N.b_and(base, cmp("lt", k, K))
            if K.op == "first" and not K.args[2]:
                # the steps before the first match: within the search range, test not met
                base = N.b_and(base, N.b_not(first_test(K)(k)))
                if not (K.args[0].op == "sym" and K.args[0].args[0] == "$inf"):
                    base = N.b_and(base, cmp("lt", k, K.args[0]))
            jf, jg = f.args[3], g.args[3]
            f, g = f.args[2], g.args[2]
            if f is g:
                return jf == jg
            e1, e2 = f.args[0], g.args[0]
            n = len(e1)
            keep = self.leaf_fail
            tried = 0
            for perm in itertools.permutations(range(n)):
                if perm[jf] != jg or tried >= 6:
                    continue
                if any(sort_of(e1[i][0]) != sort_of(e2[perm[i]][0]) and not (e1[i][0].op == "num" or e2[perm[i]][0].op == "num")
                       for i in range(n)):
                    continue
                if any(e1[i][0] is not e2[perm[i]][0] and e1[i][0].op == e2[perm[i]][0].op == "num" for i in range(n)):
                    continue
                tried += 1
                if self.steps_equal(f, g, e1, [e2[i] for i in perm], perm, N.TRUE, N.TRUE, k, base, ctx):
                    self.leaf_fail = keep
                    return True
            return False
        return self.steps_equal(f, g, e1, e2, range(len(e1)) if len(e1) == len(e2) else None, s1, s2, k, base, ctx)

    def steps_equal(self, f, g, e1, e2, perm, s1, s2, k, base, ctx):
        if len(e1) != len(e2):
            return False
        ts = []
        for (i1, n1), (i2, n2) in zip(e1, e2):
            if sort_of(i1) != sort_of(i2) and not (i1.op == "num" or i2.op == "num"):
                return False
            if not self.equal(i1, i2, ctx):
                return False
        cs = self.assume_bool(ctx, base)
        st = {}

        def opening(n, perm=None):
            m = {}
            for v in binder_vars(n):
                t = v.args[1]
                if t == "k":
                    m[v] = k
                else:
                    if perm is not None:
                        t = perm[t]
                    if t not in st:
                        st[t] = N.fresh(v.args[2], "s")
                    m[v] = st[t]
            return m
        m1, m2 = opening(f, perm), opening(g)
        # integer components that never fall below their start
        inv = []
        for j, ((i1, n1), (i2, n2)) in enumerate(zip(e1, e2)):
            sv = st.get(perm[j] if perm is not None else j)
            if sv is None or sort_of(sv) != "i" or i1.op != "num":
                continue
            low = cmp("ge", sv, i1)
            if low is N.TRUE or entails([base, low], cmp("ge", subst(n1, m1), i1)):
                inv.append(low)
        for b in inv:
            cs = [z for c in cs for z in self.assume_bool(c, b)]
        for c in cs:
            for x, y in [(s1, s2)] + [(n1, n2) for (_, n1), (_, n2) in zip(e1, e2)]:
                if x is y is N.TRUE:
                    continue
                x, y = subst(x, m1), subst(y, m2)
                if x is not y and not self.equal(x, y, c):
                    return False
        return True

    def instantiate(self, a, b, ctx):
        """use the meaning of first-match indices: the test holds at the index and fails before it"""
        nodes = [a, b]
        l = ctx.log
        while l is not None:
            nodes.append(l[1])
            l = l[0]
        fs = firsts_in(nodes)
        if not fs or len(fs) > 4:
            return None
        forms = []
        for f in fs:
            bound, stop, ent = f.args
            at = first_test(f)
            forms.append(at(f) if bound.op == "sym" and bound.args[0] == "$inf" else N.b_or(cmp("ge", f, bound), at(f)))
            before = at(sub(f, N.I1))
            if has_i2f(before):
                forms.append(N.b_or(cmp("le", f, N.I0), N.b_not(before)))
            if bound.op == "ite" and all_nonneg(bound):
                forms.append(cmp("ge", bound, f))
            for g in fs:
                if g is not f:
                    forms.append(N.b_or(cmp("ge", g, f), N.b_not(at(g))))
        self.inst_ok = False
        try:
            cs = [ctx]
            for g in forms:
                for m in self.msub:
                    g = subst(g, m)
                if g is N.TRUE:
                    continue
                cs = [z for c in cs for z in self.assume_bool(c, g)]
                if len(cs) > 64:
                    return None
            for c in cs:
                if not self.equal(a, b, c):
                    return False
        finally:
            self.inst_ok = True
        return True

    def enumerate(self, a, b, ctx):
        """split over the values of a bounded integer input that occurs under a non-linear operation"""
        lits = ctx_lits(ctx)
        var = None
        for n in [a, b] + [x for x, _ in lits]:
            for v in nonlinear_ints(n):
                lo, hi = bounds_of(v, ctx)
                if lo is not None and hi is not None and hi - lo <= 8:
                    var = (v, lo, hi)
                    break
            if var:
                break
        if var is None:
            return None
        v, lo, hi = var
        self.enum_depth += 1
        try:
            for x in range(lo, hi + 1):
                m = {v: const_i(x)}
                for c in self.rectx(lits, m):
                    self.count += 1
                    if self.count > self.cap:
                        raise PathCap()
                    if not self.equal(subst(a, m), subst(b, m), c):
                        return False
        finally:
            self.enum_depth -= 1
        return True

    def scalar(self, a, b, ctx):
        sa, sb = sort_of(a), sort_of(b)
        if sa in ("r", "i") and sb in ("r", "i") and a.op not in ("nan", "inf") and b.op not in ("nan", "inf"):
            if not N.MODE.fp or sa == "i":
                if N.MODE.fp and sa == "r":
                    return self.fail(a, b, ctx)
                d = N.from_pdict(sa if a.op != "num" else sb, N.padd(N.pdict(a), N.pdict(b), -1))
                if d.op == "num":
                    if N.num(d) == 0:
                        return True
                    return self.fail(a, b, ctx)
                d2 = clear_inv(d)
                if d2.op == "num" and N.num(d2) == 0:
                    return True
                # forced equal by the context?
                if self.forced_zero(d, ctx) or (d2 is not d and self.forced_zero(d2, ctx)):
                    return True
                # use equalities of the context
                m = self.equalities(ctx)
                if m:
                    a2, b2 = subst(a, m), subst(b, m)
                    if a2 is b2:
                        return True
                    if a2 is not a or b2 is not b:
                        c2 = ctx
                        if a2.op == "ite" or b2.op == "ite":
                            return self.equal(a2, b2, ctx, None, 5)
                        if not N.BOT in (a2, b2) and a2.op not in ("nan", "inf") and b2.op not in ("nan", "inf"):
                            d = N.from_pdict("r", N.padd(N.pdict(a2), N.pdict(b2), -1))
                            d = clear_inv(d)
                            if d.op == "num" and N.num(d) == 0 or self.forced_zero(d, ctx):
                                return True
        elif a.op != "mref":
            m = self.equalities(ctx)
            if m:
                a2, b2 = subst(a, m), subst(b, m)
                if a2 is b2:
                    return True
        if self.congruent(a, b, ctx):
            return True
        if sa in ("r", "i") and sb == sa and not N.MODE.fp and self.cong_depth < 2 and self.merge_opaque(a, b, ctx):
            return True
        t = embedded_atom(a) or embedded_atom(b)
        if t is not None:
            for v in (True, False):
                c = ctx.assume(t, v)
                if c is not None and not self.equal(deepcof(a, t, v), deepcof(b, t, v), c, None, 0):
                    return False
            return True
        return self.fail(a, b, ctx)

    def merge_opaque(self, a, b, ctx):
        """equal sums up to applications of the same function to equal arguments"""
        if a.op in ("nan", "inf", "ite") or b.op in ("nan", "inf", "ite"):
            return False
        p, q = N.pdict(a), N.pdict(b)
        fa = {x for m in p for x, _ in m if x.op == "fn" and has_opaque(x)}
        fb = {x for m in q for x, _ in m if x.op == "fn" and has_opaque(x)}
        hit = False
        for x in sorted(fa - fb, key=N.okey):
            for y in sorted(fb - fa, key=N.okey):
                if x.args[:2] == y.args[:2] and len(x.args) == len(y.args) and self.congruent(x, y, ctx):
                    b = subst(b, {y: x})
                    fb.discard(y)
                    hit = True
                    break
        if not hit:
            return False
        if a is b:
            return True
        d = N.from_pdict(sort_of(a), N.padd(N.pdict(a), N.pdict(b), -1)) if b.op != "ite" else None
        return d is not None and (d.op == "num" and N.num(d) == 0 or self.forced_zero(d, ctx))

    def congruent(self, a, b, ctx):
        """applications of the same function to equal arguments"""
        if a.op != b.op or a.op not in ("fn", "leaf", "cbase") or self.cong_depth >= 3 or not has_opaque(a):
            return False
        keep = self.leaf_fail
        self.cong_depth += 1
        try:
            def same(x, y):
                if x is y:
                    return True
                if isinstance(x, tuple) and isinstance(y, tuple):
                    return len(x) == len(y) and all(same(u, v) for u, v in zip(x, y))
                if isinstance(x, Node) and isinstance(y, Node):
                    if x.op == y.op and x.op in ("fn", "leaf", "cbase"):
                        return len(x.args) == len(y.args) and all(same(u, v) for u, v in zip(x.args, y.args))
                    s = sort_of(x)
                    if s != sort_of(y) or isinstance(s, tuple) and s[0] == "c":
                        return False
                    return self.equal(x, y, ctx)
                return not isinstance(x, Node) and not isinstance(y, Node) and x == y
            return len(a.args) == len(b.args) and all(same(u, v) for u, v in zip(a.args, b.args))
        except PathCap:
            raise
        finally:
            self.cong_depth -= 1
            self.leaf_fail = keep

    def forced_zero(self, d, ctx):
        """context implies the real/integer polynomial d is zero (d scaled or not)"""
        if d.op == "num":
            return N.num(d) == 0
        dl, c = lin_of(d)
        cc = Ctx(ctx)
        for m in dl:
            if m not in cc.monos:
                cc.monos = cc.monos | frozenset([m])
                cc.axioms(m)
        if feasible(cc.cons + [(dl, c, True)]):
            return False
        if feasible(cc.cons + [({m: -k for m, k in dl.items()}, -c, True)]):
            return False
        return True

    def equalities(self, ctx):
        """substitution var -> expr from tight constraints in ctx (pairs p>=0, -p>=0)"""
        for kind in ("i",) if N.SIGNED_ZEROS[0] else ("i", "r"):
            m = self.equalities_of(ctx, kind)
            if m:
                return m
        return {}

    def equalities_of(self, ctx, kind):
        seen = {}
        m = {}
        for d, c, s in ctx.cons:
            ints = [sort_of(mm[0][0]) == "i" for mm in d if mm]
            if s or not d or (kind == "i") != all(ints) or kind == "r" and any(ints):
                continue
            neg = frozenset([(k, -v) for k, v in d.items()] + [("", -c)])
            me = frozenset([(k, v) for k, v in d.items()] + [("", c)])
            if neg in seen:
                r = self.solve_for(d, c, m)
                if r:
                    v, e = r
                    m = {k: subst(x, {v: e}) for k, x in m.items()}
                    m[v] = e
            seen[me] = True
        return m

    def solve_for(self, d, c, m):
        p = dict(d)
        if c:
            p[()] = c
        kind = "i" if all(sort_of(mm[0][0]) == "i" for mm in d if mm) else "r"
        node = N.from_pdict(kind, p)
        node = subst(node, m) if m else node
        if node.op in ("num", "ite", "bot"):
            return None
        q = N.pdict(node)
        cands = []
        for mm, k in q.items():
            if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op in ("sym", "leaf", "tmp", "bv"):
                v = mm[0][0]
                if any(v is a for m2 in q if m2 is not mm for a, _ in m2):
                    continue
                if kind == "i" and abs(k) != 1:
                    continue
                cands.append((0 if v.op == "tmp" else 1, v.key, v, k, mm))
        if not cands:
            return None
        cands.sort(key=lambda t: (t[0], t[1]))
        _, _, v, k, mm = cands[0]
        rest = {m2: -x / k for m2, x in q.items() if m2 is not mm}
        e = N.from_pdict(kind, rest)
        if mentions(e, v):
            return None
        return v, e


def ctx_lits(ctx):
    lits = []
    l = ctx.log
    while l is not None:
        lits.append((l[1], l[2]))
        l = l[0]
    lits.reverse()
    return lits


def binder_vars(n):
    """bound variables of binder node n occurring in it"""
    out = set()
    st = []
    N._walk(n.args, st)
    for x in st:
        for v in x.fv:
            if v.op == "bv" and v.args[0] == n.h:
                out.add(v)
    return out


def binders_in(nodes):
    """closed loop results occurring in the nodes, inner ones first"""
    out = []
    st, seen = list(nodes), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("first", "rec"):
            if not any(v.op == "bv" for v in x.fv):
                out.append(x)
            if x.op == "first":
                st.append(x.args[0])
            else:
                st.append(x.args[1])
            continue
        if x.op in ("lam", "sys"):
            continue
        ch = []
        N._walk(x.args, ch)
        st.extend(ch)
    out.sort(key=lambda n: (n.h, n.key))
    return out


def firsts_in(nodes):
    out = []
    st, seen = list(nodes), set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "first":
            if x not in out and not any(v.op == "bv" for v in x.fv):
                out.append(x)
            continue
        if x.op in ("lam", "sys"):
            continue
        ch = []
        N._walk(x.args, ch)
        st.extend(ch)
    return out


def all_nonneg(b):
    return all_nonneg(b.args[1]) and all_nonneg(b.args[2]) if b.op == "ite" else N.nonneg(b)


def first_test(f):
    """the stopping test of a first-match index as a function of the position"""
    bv = binder_vars(f)
    ent = f.args[2]
    if not ent:
        def at(i):
            return subst(f.args[1], {v: i for v in bv})
        return at
    tm = {v: N.fresh(v.args[2], "s") for v in bv}
    ents = tuple((i, subst(n, tm)) for i, n in ent)
    sysn = N.close("sys", [ents], {t: v.args[1] for v, t in tm.items()})

    def at(i):
        m = {}
        for v in bv:
            t = v.args[1]
            m[v] = i if t == "k" else N.mk_rec(v.args[2], i, sysn, t)
            if v.args[2] == "b":
                m[v] = N.tobool(m[v])
        return subst(f.args[1], m)
    return at


def nonlinear_ints(n):
    """integer inputs under div / rem / products in n"""
    out = []
    st, seen = [(n, False)], set()
    while st:
        x, under = st.pop()
        if (x, under) in seen:
            continue
        seen.add((x, under))
        if under and x.op in ("sym", "leaf") and sort_of(x) == "i":
            if x not in out:
                out.append(x)
            continue
        u = under or (x.op == "fn" and x.args[1] in ("idiv", "irem", "ediv", "urem"))
        ch = []
        N._walk(x.args, ch)
        st.extend((y, u) for y in ch)
    return out


def bounds_of(v, ctx):
    lo = hi = None
    for d, c, s in ctx.cons:
        if len(d) == 1:
            (m, k), = d.items()
            if m == ((v, 1),):
                # k v + c >= 0
                b = -c / k
                if k > 0:
                    b = -((-b.numerator) // b.denominator) + (1 if s and b.denominator == 1 else 0)
                    lo = b if lo is None or b > lo else lo
                else:
                    b = b.numerator // b.denominator - (1 if s and b.denominator == 1 else 0)
                    hi = b if hi is None or b < hi else hi
    return lo, hi


def embedded_atom(n):
    """the first branch condition buried inside an arithmetic term or an application"""
    st, seen = [n], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            t = x.args[0]
            if not any(v.op == "bv" for v in t.fv):
                return t
        if x.op in ("lam", "sys", "first"):
            continue
        ch = []
        N._walk(x.args, ch)
        st.extend(reversed(ch))
    return None


def deepcof(n, t, val):
    memo_ = {}

    def go(x):
        r = memo_.get(x)
        if r is None:
            y = N.cof(x, t, val)
            r = N.rebuild(y, go) if y is x or y.op != "ite" else go(y)
            memo_[x] = r
        return r
    return go(n)


def mentions(n, v):
    st = [n]
    seen = set()
    while st:
        x = st.pop()
        if x is v:
            return True
        if x in seen:
            continue
        seen.add(x)
        ch = []
        N._walk(x.args, ch)
        st.extend(ch)
    return False


def clear_inv(d):
    """multiply a difference through by its denominators"""
    for _ in range(12):
        if d.op in ("num", "ite"):
            return d
        invs = {}
        for m in N.pdict(d):
            for a, e in m:
                if a.op == "inv":
                    invs[a] = max(invs.get(a, 0), e)
        if not invs:
            return d
        f = N.pdict(N.R1)
        acc = {}
        for m, c in N.pdict(d).items():
            t = {tuple((a, e) for a, e in m if a.op != "inv"): c}
            have = {a: e for a, e in m if a.op == "inv"}
            for a, mx in invs.items():
                for _ in range(mx - have.get(a, 0)):
                    t = N.pmul(t, N.pdict(a.args[0]))
            acc = N.padd(acc, t)
        d = N.from_pdict("r", acc)
    return d

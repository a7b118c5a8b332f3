"""Termination: every loop reached has a trip count, or a measure that is bounded below while the loop goes on
and falls by a fixed amount every round."""
from . import nodes as N, prove
from .nodes import ite, b_and, b_not, cmp, add, sub, neg, const_i, sort_of, subst
from .loops import atoms_of, lin_in

_n = [0]


def impossible(b, I, deadline):
    if b is N.FALSE or b is N.BOT:
        return True
    if b is N.TRUE:
        return False
    p = prove.Prover(I, deadline=deadline)
    try:
        return bool(p.prove(b, N.FALSE))
    except (prove.PathCap, N.Unsupported, N.Budget):
        return False


def candidates(cont, vs):
    out = []
    for a in atoms_of(cont):
        if not any(v in a.fv for v in vs):
            continue
        p = a.args[0]
        if a.op == "ge0i":
            ms = [p, sub(neg(p), N.I1)]
        elif a.op in ("gt0", "lt0"):
            if sort_of(p) != "r" or N.MODE.fp:
                continue
            ms = [p, neg(p)]
        else:
            continue
        for m in ms:
            if m not in out:
                out.append(m)
    return out


def ranked(I, cont, sy, k, deadline, depth=0, pre=N.TRUE):
    if cont is N.FALSE:
        return "never taken"
    vs = set(sy) | {k}
    nxt = {t: n for t, (i, n) in sy.items()}
    nxt[k] = add(k, N.I1)
    for m in candidates(cont, vs):
        real = sort_of(m) == "r"
        m2 = subst(m, nxt)
        d = sub(m, m2)
        from .interp import restrict
        d = restrict(d, cont)
        if real:
            if d.op != "num" or N.num(d) <= 0:
                continue
            low = b_not(cmp("ge", m, N.R0))
        else:
            if d.op == "num" and N.num(d) < 1:
                continue
            low = b_not(cmp("ge", m, N.I0))
        c = cont
        if not real:
            # name the measure: it is not negative while the loop goes on
            if not impossible(b_and(cont, low), I, deadline):
                # or an invariant: not negative at the start, nor after a round if it was not before
                m0 = subst(subst(m, {t: i for t, (i, n) in sy.items()}), {k: N.I0})
                if not impossible(b_and(pre, b_not(cmp("ge", m0, N.I0))), I, deadline):
                    continue
                if not impossible(b_and(b_and(b_and(pre, cont), b_not(low)), b_not(cmp("ge", m2, N.I0))), I, deadline):
                    continue
                cont = b_and(cont, b_not(low))
                c = cont
            if d.op == "num":
                return "measure falls"
            for t in vs:
                l = lin_in(m, t) if t in m.fv else None
                if l is None or abs(l[1]) != 1 or t in l[0].fv or sort_of(t) != "i":
                    continue
                _n[0] += 1
                s = N.mk("sym", "$rank%d.u" % _n[0], "i")
                e = sub(s, l[0]) if l[1] == 1 else sub(l[0], s)
                c, d = subst(cont, {t: e}), subst(d, {t: e})
                break
            if impossible(b_and(c, b_not(cmp("ge", d, N.I1))), I, deadline):
                return "measure falls"
        elif impossible(b_and(cont, low), I, deadline):
            return "measure falls"
    if depth < 6:
        for a in atoms_of(cont):
            if not any(v in a.fv for v in vs):
                A = N.atomb(a)
                for h in (A, b_not(A)):
                    if ranked(I, b_and(h, cont), sy, k, deadline, depth + 3, b_and(h, pre)) is None:
                        return None
                return "measure falls (by cases)"
    return None


def lost_steps(I, li, deadline):
    """doubles the loop's continuation depends on and that every round moves by a constant: the start must be
    so small that the step is not lost to rounding.  Returns the starts for which that does not follow"""
    out = []
    if N.MODE.fp:
        return out
    for t, (init, nx) in li["sys"].items():
        if sort_of(t) != "r" or t not in li["cont"].fv:
            continue
        d = sub(nx, t)
        if d.op != "num" or N.num(d) == 0:
            continue
        big = N.const_r(abs(N.num(d)) * 2 ** 52)
        far = N.b_or(cmp("gt", init, big), cmp("lt", init, neg(big)))
        if not impossible(b_and(li["pc"], far), I, deadline):
            out.append((t, init, d))
    return out


def lost_witness(li, t, init, d, seed):
    """an input whose first round leaves the double as it is, and the loop goes on"""
    from . import witness
    from .witness import Point, Skip, NoEval
    step = abs(N.num(d))
    go = subst(subst(li["cont"], {x: i for x, (i, n) in li["sys"].items()}), {li["k"]: N.I0})
    q = b_and(li["pc"], go)
    for n in range(300):
        P = Point(seed * 7919 + n, 8)
        try:
            v = P.ev(init, {})
            if abs(v) < step * 2 ** 60 or v != v:
                continue
            if P.ev(q, {}) is True:
                return {nm: x for x, nm in P.vals.values()}, v
        except (Skip, NoEval, ZeroDivisionError, OverflowError):
            continue
    return None


def loop_ends(I, li, deadline):
    if li["bound"] is not None:
        return "trip count"
    return ranked(I, li["cont"], li["sys"], li["k"], deadline)

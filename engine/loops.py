"""Loop summarisation: induction variables, wrap-around values, existential flags, store
summaries, first-match exits; everything else becomes a canonical recurrence system."""
import hashlib
from . import nodes as N
from .nodes import (mk, ite, b_not, b_and, b_or, cmp, add, sub, neg, mul, const_i, Unsupported,
                    cget, cstore, Node, sort_of, subst, nonneg, atom_nonneg, read_path, vbuf)


def solve(I, run, state, desc):
    if I.unroll is not None:
        return unroll(I, run, state, desc)
    r = concrete(I, run, state, desc)
    if r is not None:
        return r
    return summarise(I, run, state, desc)


CONCRETE = 24


class Diverges(Exception):
    """a loop came back to a state it had been in: it never ends"""


FOLD = 200
BIG = 1 << 3000


def big(v, depth=3):
    if v.op == "num":
        x = v.args[1] if len(v.args) > 1 else 0
        return not isinstance(x, float) and (abs(getattr(x, "numerator", x)) > BIG or getattr(x, "denominator", 1) > BIG)
    if depth and v.op in ("struct", "var"):
        return any(isinstance(x, Node) and big(x, depth - 1) for x in v.args)
    return False


def comes_back(system, cont):
    """the variables the loop's condition depends on, from their constant start, come back to a set of values they had"""
    ctl, todo = set(), [cont]
    while todo:
        for v in todo.pop().fv:
            if v in ctl:
                continue
            if v not in system:
                return False
            ctl.add(v)
            todo.append(system[v][1])
    vals = {v: system[v][0] for v in ctl}
    seen = set()
    for _ in range(400):
        if any(x.op not in ("num", "true", "false", "str") or big(x) for x in vals.values()):
            return False
        c = subst(cont, vals)
        if c is not N.TRUE:
            return False
        key = frozenset((v, id(x)) for v, x in vals.items())
        if key in seen:
            return True
        seen.add(key)
        vals = {v: subst(system[v][1], vals) for v in ctl}
    return False


def concrete(I, run, state, desc=""):
    """a loop whose every decision is constant from this state is executed (bounded)"""
    if I.record:
        return None
    st = state
    seen = set()
    for _ in range(FOLD if I.folding else CONCRETE):
        if I.folding and not I.undecided:
            key = frozenset((loc, id(v)) for loc, v in st.items())
            if key in seen:
                raise Diverges(desc)
            seen.add(key)
        try:
            edges = run(st)
        except Unsupported:
            return None
        latch = [e for e in edges if e[1] == "LATCH"]
        if not latch:
            return edges if st is not state else None
        if len(edges) != 1 or latch[0][0] is not N.TRUE:
            return None
        st = latch[0][2]
        if I.folding and any(big(v) for v in st.values()):
            return None
    return None


class LoopBound(Unsupported):
    pass


def unroll(I, run, state, desc, bound=None, small=False):
    if bound is None:
        bound = I.unroll
    path = N.TRUE
    st = state
    exits = []
    for it in range(bound + 1):
        if I.record:
            I.pcs.append(b_and(I.pcs[-1], path))
        try:
            edges = run(st)
        finally:
            if I.record:
                I.pcs.pop()
        latch = None
        for c, t, s in edges:
            if t == "LATCH":
                latch = (c, s)
            else:
                exits.append((b_and(path, c), t, s))
        if latch is None:
            return exits
        path = b_and(path, latch[0])
        if path is N.FALSE:
            return exits
        if small and __import__("engine.prove").prove.refute_true(path, cap=300):
            return exits
        st = I.restrict_state(latch[1], latch[0])
    raise LoopBound("loop bound exceeded in %s" % (desc,))


class Phi:
    __slots__ = ("loc", "path", "tmp", "init", "next", "enum")


def get_path(I, v, path):
    """follow an expand()-style path inside a value"""
    for p in path:
        if v is N.BOT:
            return v
        if isinstance(p, int):
            v = I.field(v, p)
        elif p == "u":
            pass
        elif p == "disc":
            v = vindex(I, v)
        elif p == "len":
            v = N.vlen(v)
        elif p == "buf":
            v = vbuf(v)
        elif isinstance(p, tuple):
            v = I.downcast_field(v, p[1], p[2])
        else:
            raise Unsupported("path")
    return v


def vindex(I, v):
    if v is N.BOT:
        return v
    if v.op == "ite":
        return N.lift1("vindex", lambda x: vindex(I, x), v)
    return const_i(v.args[1])


def is_enum(v):
    while v.op == "ite":
        v = v.args[1] if v.args[1] is not N.BOT else v.args[2]
    return v if v.op == "var" else None


def summarise(I, run, state, desc):
    from .interp import restrict
    rec = I.record
    phis = {}      # (loc, path) -> Phi

    def build(values):
        st = dict(state)
        for (loc, path), ph in phis.items():
            st[loc] = put(I, st[loc], path, values(ph))
        return st

    def diff(loc, v0, v1, path, new):
        if v0 is v1 or v1 is N.BOT or v0 is N.BOT:
            return
        if (loc, path) in phis:
            return
        if v0.op == "struct" and v1.op == "struct" and v0.args[0] == v1.args[0] and len(v0.args) == len(v1.args):
            for i in range(1, len(v0.args)):
                diff(loc, v0.args[i], v1.args[i], path + (i - 1,), new)
            return
        if v0.op == "vec" and v1.op == "vec":
            diff(loc, v0.args[0], v1.args[0], path + ("len",), new)
            if v0.args[1] is not v1.args[1]:
                new.append((loc, path + ("buf",), ("c", v0.args[2])))
            return
        new.append((loc, path, None))

    decided = I.folding and not I.undecided
    I.record = False
    I.undecided = True
    try:
        for rounds in range(40):
            st_h = build(lambda ph: ph.tmp)
            edges = run(st_h)
            latch = None
            for c, t, s in edges:
                if t == "LATCH":
                    latch = (c, s)
            if latch is None:
                break
            lc, ls = latch
            new = []
            nxt = {}
            for loc in state:
                if loc not in ls:
                    continue
                v1 = restrict(ls[loc], lc)
                nxt[loc] = v1
                diff(loc, st_h[loc], v1, (), new)
            new = [n for n in new if (n[0], n[1]) not in phis]
            if not new:
                break
            for loc, path, srt in new:
                if (loc, path) in phis:
                    continue
                ph = Phi()
                ph.loc, ph.path = loc, path
                v0 = get_path(I, state[loc], path)
                v1 = get_path(I, nxt[loc], path)
                ph.init = v0
                e = is_enum(v0) or is_enum(v1)
                ph.enum = None
                if srt is not None:
                    ph.tmp = N.fresh(srt, "phi")
                elif e is not None:
                    leaves = []

                    def leaf(p, sort, leaves=leaves):
                        t = N.fresh(sort, "phi")
                        leaves.append((p, t))
                        return t
                    ph.tmp = I.expand(e.args[0], leaf)
                    ph.enum = leaves
                else:
                    s0 = sort_of(v0)
                    if v0.op == "mref" or s0 in ("mref", "?", "s", "v"):
                        raise Unsupported("loop-carried %s at %s" % (v0.op, desc))
                    if s0 == "b":
                        ph.tmp = N.tobool(N.fresh("b", "phi"))
                    else:
                        ph.tmp = N.fresh(s0, "phi")
                phis[(loc, path)] = ph
        else:
            raise Unsupported("loop fixpoint")
    finally:
        I.record = rec
        I.undecided = I.folding and not decided
    if latch is None:
        # the body never reaches the latch
        if rec:
            return run(build(lambda ph: ph.tmp)) if not phis else run(state)
        return edges

    # scalar system: tmp -> (init, next)
    k = N.fresh("i", "k")
    system = {}

    def collect(nxt):
        out = {}
        for (loc, path), ph in phis.items():
            v1 = get_path(I, nxt[loc], path) if loc in nxt else ph.tmp
            if ph.enum is not None:
                for p, t in ph.enum:
                    i = get_path(I, ph.init, p)
                    n = get_path(I, v1, p)
                    tt = N.tobool(t) if sort_of(t) == "b" else t
                    if i is N.BOT:
                        i = default_of(sort_of(t))
                    if n is N.BOT:
                        n = tt
                    out[t] = (i, n)
            else:
                t = ph.tmp
                if t.op == "ite":
                    t = t.args[0].args[0]
                out[t] = (ph.init, v1)
        return out

    system = collect(nxt)
    if decided and comes_back(system, lc):
        raise Diverges(desc)
    sol = {}
    solve_closed(I, system, sol, k, lc)

    # a constant trip count: unfold instead of summarising
    cb, _ = split_counting(subst(lc, sol) if sol else lc, k, {t: None for t in system if t not in sol})
    ub = const_upper(cb)
    if ub is not None and ub <= 24:
        try:
            return unroll(I, run, state, desc, max(ub, 0) + 1)
        except LoopBound:
            pass

    if cb is None and not rec and any(sort_of(t) == "r" for t in system):
        try:
            return unroll(I, run, state, desc, 2, True)
        except LoopBound:
            pass

    # second pass with closed forms
    def value(ph):
        v = ph.tmp
        return subst(v, sol) if sol else v
    I.facts.append(cmp("ge", k, N.I0))
    st_h = build(value)
    add_range_facts(I, system, sol, k)
    I.record = False
    I.undecided = True
    try:
        edges = run(st_h)
    finally:
        I.record = rec
        I.undecided = I.folding and not decided
    latch = None
    exits = []
    for c, t, s in edges:
        if t == "LATCH":
            latch = (c, s)
        else:
            exits.append((c, t, s))
    if latch is None:
        return (run(st_h) if rec else edges) if not exits else exits
    lc, ls = latch
    nxt = {loc: restrict(ls[loc], lc) for loc in state if loc in ls}
    sys2 = collect(nxt)
    rem = {t: sys2[t] for t in sys2 if t not in sol}
    # trip count
    cont = restrict(lc, cmp("ge", k, N.I0))
    fixed = constants(rem, {}, k)
    if fixed:
        cont = subst(cont, fixed)
        rem = {t: (i, subst(n, fixed)) for t, (i, n) in rem.items() if t not in fixed}
    bound, P = split_counting(cont, k, rem)
    K = make_K(I, bound, P, rem, k, desc)
    final = {k: K}
    final.update(fixed)
    for t in rem:
        s = sort_of(t)
        needed = closure([t], rem)
        sysn, idx = make_sys(rem, needed, k)
        v = N.mk_rec(s, K, sysn, idx[t])
        if s == "b":
            v = N.tobool(v) if v.op not in ("true", "false", "ite") else v
        final[t] = v
    if rec:
        # one pass over the body at an arbitrary round that is reached, every variable at its value there
        now = dict(fixed)
        for t in rem:
            s = sort_of(t)
            sysn, idx = make_sys(rem, closure([t], rem), k)
            v = N.mk_rec(s, k, sysn, idx[t])
            if s == "b":
                v = N.tobool(v) if v.op not in ("true", "false", "ite") else v
            now[t] = v
        st_k = {loc: subst(v, now) for loc, v in st_h.items()}
        I.pcs.append(b_and(I.pcs[-1], b_and(cmp("ge", k, N.I0), cmp("le", k, K))))
        try:
            run(st_k)
        finally:
            I.pcs.pop()
    I.loopinfo.append({"fn": desc, "bound": bound, "search": P is not N.TRUE, "rec": len(rem), "K": K, "cont": cont, "sys": rem, "k": k, "pc": I.pcs[-1] if rec else None})
    notc = b_not(cont)
    res = []
    for c, t, s in exits:
        c2 = restrict(subst_b(c, fixed) if fixed else c, notc)
        c2 = subst_b(c2, final)
        if c2 is N.FALSE:
            continue
        s2 = {}
        for loc, v in s.items():
            if loc in state or v.fv:
                v = restrict(v, c)
            s2[loc] = subst(v, final)
        res.append((c2, t, s2))
    return res


def subst_b(c, m):
    return subst(c, m)


def default_of(sort):
    if sort == "i":
        return N.I0
    if sort == "r":
        return N.R0
    if sort == "b":
        return N.FALSE
    if isinstance(sort, tuple) and sort[0] == "c":
        return N.mk("cundef")
    return N.mk("sym", "undef", sort)


def put(I, x, path, v):
    if not path:
        return v
    p = path[0]
    if isinstance(p, int):
        a = list(x.args)
        a[1 + p] = put(I, a[1 + p], path[1:], v)
        return mk("struct", *a)
    if p == "len":
        return mk("vec", v, x.args[1], x.args[2])
    if p == "buf":
        return mk("vec", x.args[0], v, x.args[2])
    raise Unsupported("put")


def tmps_in(n, among):
    return [v for v in n.fv if v in among]


def constants(system, sol, k):
    """variables that keep their initial value: the largest set closed under one round"""
    S = {t: i for t, (i, n) in system.items() if t not in sol and i is not N.BOT and not (sort_of(t) == "r" and N.MODE.fp)}
    nxt = {t: subst(system[t][1], sol) if sol else system[t][1] for t in S}
    while S:
        bad = []
        for t in S:
            nx = nxt[t]
            if k in nx.fv or any(x in system and x not in sol and x not in S for x in nx.fv):
                bad.append(t)
                continue
            try:
                v = subst(nx, S)
            except Unsupported:
                bad.append(t)
                continue
            if v is not S[t]:
                bad.append(t)
        if not bad:
            return S
        for t in bad:
            del S[t]
    return S


def solve_closed(I, system, sol, k, lc):
    sol.update(constants(system, sol, k))
    changed = True
    while changed:
        changed = False
        for t, (init, nx) in system.items():
            if t in sol:
                continue
            nx = subst(nx, sol) if sol else nx
            pend = [x for x in nx.fv if x in system and x not in sol]
            s = sort_of(t)
            if s == "i" or (s == "r" and not N.MODE.fp):
                d = sub(nx, t)
                if d is not N.BOT and not any(x in system and x not in sol for x in d.fv) and k not in d.fv:
                    if s == "i":
                        sol[t] = add(init, mul(d, k))
                        changed = True
                        continue
            if not pend:
                e_prev = subst(nx, {k: sub(k, N.I1)})
                try:
                    e0 = subst(nx, {k: const_i(-1)})
                except Unsupported:
                    e0 = None
                if k not in nx.fv and nx is init:
                    sol[t] = init
                elif e0 is init:
                    sol[t] = e_prev
                else:
                    sol[t] = ite(cmp("le", k, N.I0), init, e_prev)
                changed = True
                continue
            if s == "b":
                me = N.tobool(t)
                p1 = N.cof(nx, me.args[0], True)
                p0 = N.cof(nx, me.args[0], False)
                others = [x for x in pend if x is not t]
                if not others:
                    if p1 is N.TRUE and t not in p0.fv:
                        ex = exists(p0, k)
                        sol[t] = b_or(init, ex)
                        changed = True
                        continue
                    if p0 is N.FALSE and t not in p1.fv:
                        ex = exists(b_not(p1), k)
                        sol[t] = b_and(init, b_not(ex))
                        changed = True
                        continue
            if isinstance(s, tuple) and s[0] == "c":
                r = store_summary(I, t, init, nx, k, system, sol, lc)
                if r is not None:
                    sol[t] = r
                    changed = True
                    continue
        # keep solutions closed under each other
        for t in list(sol):
            sol[t] = subst(sol[t], {x: sol[x] for x in sol if x is not t})


def exists(p, k):
    """exists j in [0,k): p(j)"""
    if p is N.FALSE:
        return N.FALSE
    j = N.fresh("i")
    f = N.close("first", [k, subst(p, {k: j}), ()], {j: "k"})
    return cmp("lt", f, k)


def lin_in(n, k):
    """n = a + c*k with a free of k -> (a, c) or None"""
    d = N.sub(subst(n, {k: add(k, N.I1)}), n)
    if d.op != "num":
        return None
    a = subst(n, {k: N.I0})
    if k in a.fv:
        return None
    return a, int(N.num(d))


def flat_stores(c, t, guard, out):
    """the stores of one iteration as (guard, index, value), oldest first"""
    if c is t:
        return True
    if c.op == "cstore":
        if not flat_stores(c.args[0], t, guard, out):
            return False
        out.append((guard, c.args[1], c.args[2]))
        return len(out) <= 16
    if c.op == "ite":
        g = N.atomb(c.args[0])
        return flat_stores(c.args[1], t, b_and(guard, g), out) and flat_stores(c.args[2], t, b_and(guard, b_not(g)), out)
    return False


def conj(b):
    """a conjunction as a list of facts"""
    out = []
    while b.op == "ite" and b.args[2] is N.FALSE:
        out.append(N.atomb(b.args[0]))
        b = b.args[1]
    while b.op == "ite" and b.args[1] is N.FALSE:
        out.append(b_not(N.atomb(b.args[0])))
        b = b.args[2]
    if b is not N.TRUE:
        out.append(b)
    return out


def store_summary(I, t, init, nx, k, system, sol, lc):
    """contents after k iterations that each store at indices moving by a constant step"""
    from . import prove
    flat = []
    if not flat_stores(nx, t, N.TRUE, flat) or not flat:
        return None
    stores = []
    for g, i, v in flat:
        for n in (g, i, v):
            if any(x in system and x not in sol and x is not t for x in n.fv):
                return None
        if t in i.fv:
            return None
        l = lin_in(i, k)
        if l is None or l[0] is N.BOT:
            return None
        if l[1] == 0 and (k in g.fv or t in g.fv):
            return None
        stores.append([g, i, v, l[0], l[1]])
    if not stores:
        return init
    lcx = subst(lc, sol) if sol else lc
    if t in lcx.fv:
        lcx = N.TRUE

    def during(j):
        """facts about an iteration j no later than k"""
        base = [cmp("ge", j, N.I0), cmp("le", j, k)] if j is not k else [cmp("ge", k, N.I0)]
        return base + conj(subst(lcx, {k: j}))
    always = [c for c in I.conds[I.base:] if c is not N.TRUE] + list(I.facts) + during(k)

    stores = [x for x in stores if x[0] is N.TRUE or not prove.entails(always + [f for f in conj(x[0]) if t not in f.fv], N.FALSE)]

    def clean(g):
        return [f for f in conj(g) if t not in f.fv]

    def prune(n, facts, depth=8):
        """drop the choices that cannot be taken here"""
        if n.op == "struct":
            return mk("struct", n.args[0], *[prune(x, facts, depth) if isinstance(x, Node) else x for x in n.args[1:]])
        if n.op != "ite" or depth == 0:
            return n
        c = N.atomb(n.args[0])
        if t in c.fv:
            return ite(c, prune(n.args[1], facts, depth - 1), prune(n.args[2], facts, depth - 1))
        if prove.entails(facts, c):
            return prune(n.args[1], facts, depth)
        if prove.entails(facts, b_not(c)):
            return prune(n.args[2], facts, depth)
        return ite(c, prune(n.args[1], facts + [c], depth - 1), prune(n.args[2], facts + [b_not(c)], depth - 1))
    for x in stores:
        if t in x[2].fv:
            x[2] = prune(x[2], always + clean(x[0]))

    def never(facts):
        return prove.entails(always + facts, N.FALSE)
    # stores of different iterations go to different places (a store that always goes to one place may repeat)
    for p in range(len(stores)):
        for q in range(p, len(stores)):
            gp, ip, _, _, cp = stores[p]
            gq, iq, _, _, cq = stores[q]
            if p == q:
                continue
            j = N.fresh("i", "k")
            f = clean(gp) + during(j) + [subst(x, {k: j}) for x in clean(gq)]
            hit = cmp("eq", ip, subst(iq, {k: j}))
            if not never(f + [hit, cmp("lt", j, k)]):
                return None
            j = N.fresh("i", "k")
            f = clean(gq) + during(j) + [subst(x, {k: j}) for x in clean(gp)]
            hit = cmp("eq", iq, subst(ip, {k: j}))
            if not never(f + [hit, cmp("lt", j, k)]):
                return None

    def match(s, x, upto):
        """(condition that store s put index x within the first `upto` iterations, iteration)"""
        g, i, v, a, c = stores[s]
        if c == 0:
            j = sub(upto, N.I1)
            m = b_and(cmp("eq", x, a), cmp("gt", upto, N.I0))
        else:
            d = sub(x, a) if c > 0 else sub(a, x)
            w = const_i(abs(c))
            j = N.ediv(d, w) if abs(c) > 1 else d
            m = b_and(cmp("ge", d, N.I0), cmp("lt", j, upto))
            if abs(c) > 1:
                m = b_and(m, cmp("eq", N.emod(d, w), N.I0))
        if g is not N.TRUE:
            m = b_and(m, subst(guards[s], {k: j}) if guards[s] is not None else N.FALSE)
        return m, j
    done = [None] * len(stores)
    guards = [g if t not in g.fv else None for g, *_ in stores]

    def resolve(n, facts):
        """reads of the contents at iteration k, in terms of what is known to be there"""
        def at(r):
            if t in r.fv:
                return None
            body = None
            ms = []
            for s in range(len(stores)):
                g, i, v, a, c = stores[s]
                j = N.fresh("i", "k")
                f = facts + during(j) + [cmp("lt", j, k)] + [subst(x, {k: j}) for x in clean(g)]
                if never(f + [cmp("eq", r, subst(i, {k: j}))]):
                    continue
                if done[s] is None or (g is not N.TRUE and guards[s] is None):
                    return None
                ms.append(s)
            body = cget(init, r)
            for s in ms:
                m, j = match(s, r, k)
                body = ite(m, subst(done[s], {k: j}), body)
            return body
        return replace_reads(n, t, at)
    left = set(range(len(stores)))
    while left:
        moved = False
        for s in sorted(left):
            g, i, v, a, c = stores[s]
            if guards[s] is None:
                r = resolve(g, [])
                if r is None or t in r.fv:
                    continue
                guards[s] = r
            if t in v.fv:
                r = resolve(v, clean(g) if t not in g.fv else clean(g) + conj(guards[s]))
                if r is None or t in r.fv:
                    continue
                v = r
            done[s] = v
            left.discard(s)
            moved = True
        if not moved:
            return None
    x = N.fresh("i", "k")
    body = cget(init, x)
    for s in range(len(stores)):
        m, j = match(s, x, k)
        body = ite(m, subst(done[s], {k: j}), body)
    return N.lam(x, body)


def replace_reads(v, t, at):
    """replace leaf(t, r, path) by at(r).path"""
    m = {}
    ok = [True]
    seen = set()

    def find(n):
        if t not in n.fv or n in seen or not ok[0]:
            return
        seen.add(n)
        if n.op == "leaf" and n.args[1] is t:
            x = at(n.args[2])
            if x is None:
                ok[0] = False
                return
            m[n] = (x, n.args[3])
            return
        if n.op == "cbase":
            b = n.args[0]
            if isinstance(b, tuple) and len(b) == 3 and b[0] is t:
                x = at(b[1])
                if x is not None:
                    m[n] = (x, b[2])
                    return
                ok[0] = False
                return
            if not (isinstance(b, tuple) and b[0] is not t):
                ok[0] = False
                return
        ch = []
        N._walk(n.args, ch)
        for c in ch:
            find(c)
    find(v)
    if not ok[0]:
        return None
    if not m:
        return v
    cache = {}

    def go(n):
        if t not in n.fv:
            return n
        r = cache.get(n)
        if r is not None:
            return r
        if n in m:
            x, path = m[n]
            r = read_path(x, path)
        else:
            r = N.rebuild(n, go)
        cache[n] = r
        return r
    return go(v)


def const_upper(b):
    """a constant upper bound of an integer graph, if it has one among its leaves"""
    if b is None:
        return None
    if b.op == "num":
        return int(N.num(b))
    if b.op != "ite":
        return None
    best = None
    st, seen = [b], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        elif x.op == "num" and (best is None or N.num(x) > best):
            best = int(N.num(x))
    if best is not None and (cmp("gt", b, const_i(best)) is N.FALSE or
                             __import__("engine.prove").prove.entails([cmp("gt", b, const_i(best))], N.FALSE)):
        return best
    return None


def split_counting(cont, k, rem, depth=5):
    """cont = (k < bound) and P, the bound possibly chosen by tests that do not change during the loop"""
    b, P = split_conjuncts(cont, k, rem)
    if b is not None or depth == 0 or P is N.FALSE or P is N.TRUE:
        return b, P
    for a in atoms_of(P):
        if k in a.fv or any(t in a.fv for t in rem):
            continue
        pos, ng = N.cof(P, a, True), N.cof(P, a, False)
        if not any(k in x.fv for x in (pos, ng)):
            continue
        r = []
        for x in (pos, ng):
            if x is N.FALSE:
                r.append((N.I0, N.TRUE))
            else:
                r.append(split_counting(x, k, rem, depth - 1))
            if r[-1][0] is None:
                break
        if len(r) == 2 and r[1][0] is not None:
            A = N.atomb(a)
            return ite(A, r[0][0], r[1][0]), ite(A, r[0][1], r[1][1])
        return None, P
    return None, P


def split_conjuncts(cont, k, rem):
    """cont = (k < bound) and P"""
    from .interp import restrict
    bounds = []
    P = cont
    seen = set()
    while True:
        found = False
        for a in atoms_of(P):
            if a.op != "ge0i" or a in seen:
                continue
            seen.add(a)
            p = a.args[0]
            if k not in p.fv or any(t in p.fv for t in rem):
                continue
            l = lin_in(p, k)
            if l is None:
                continue
            a0, c = l
            A = N.atomb(a)
            if c > 0 and N.b_and(P, A) is N.FALSE:
                # continue requires p < 0:  a0 + c k < 0  <=> k < ceil(-a0 / c)
                nb = neg(a0)
                if c != 1:
                    nb = N.idiv(add(nb, const_i(c - 1)), const_i(c))
                P = restrict(P, N.b_not(A))
            elif c < 0 and N.b_and(P, N.b_not(A)) is N.FALSE:
                # continue requires a0 + c k >= 0 <=> k < floor(a0/|c|)+1
                nb = add(N.idiv(a0, const_i(-c)), N.I1) if c != -1 else add(a0, N.I1)
                P = restrict(P, A)
            else:
                continue
            bounds.append(nb)
            found = True
            break
        if not found:
            break
    if not bounds:
        return None, P
    b = bounds[0]
    for x in bounds[1:]:
        b = ite(cmp("lt", x, b), x, b)
    return b, P


def atoms_of(b):
    out = []
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        if x.args[0] not in out:
            out.append(x.args[0])
        st.append(x.args[2])
        st.append(x.args[1])
    return out


def closure(ts, rem):
    need = []
    st = list(ts)
    while st:
        t = st.pop()
        if t in need:
            continue
        need.append(t)
        for x in rem[t][1].fv:
            if x in rem and x not in need:
                st.append(x)
    return need


def colours(rem, needed, k):
    col = {}
    ksym = mk("sym", "$k", "i")
    for t in needed:
        col[t] = hashlib.blake2b(rem[t][0].key + repr(sort_of(t)).encode(), digest_size=8).hexdigest()
    for _ in range(len(needed) if len(needed) > 1 else 1):
        m = {t: mk("sym", "$c" + col[t], sort_of(t)) for t in needed}
        m[k] = ksym
        new = {}
        for t in needed:
            n = subst(rem[t][1], m)
            new[t] = hashlib.blake2b(col[t].encode() + n.key, digest_size=8).hexdigest()
        col = new
    return col


def ordered(rem, needed, k):
    col = colours(rem, needed, k)
    groups = {}
    for t in needed:
        groups.setdefault(col[t], []).append(t)
    order = sorted(groups)
    rep = {}
    reps = []
    for c in order:
        r = groups[c][0]
        reps.append(r)
        for t in groups[c]:
            rep[t] = r
    return reps, rep


def make_sys(rem, needed, k):
    reps, rep = ordered(rem, needed, k)
    m = {t: rep[t] for t in needed if rep[t] is not t}
    entries = tuple((rem[t][0], subst(rem[t][1], m) if m else rem[t][1]) for t in reps)
    tm = {t: i for i, t in enumerate(reps)}
    tm[k] = "k"
    node = N.close("sys", [entries], tm)
    return node, {t: tm[rep[t]] for t in needed}


def make_K(I, bound, P, rem, k, desc):
    if P is N.FALSE:
        return N.I0
    if bound is not None and P is N.TRUE:
        if nonneg(bound):
            return bound
        return ite(cmp("ge", bound, N.I0), bound, N.I0)
    if bound is not None and k not in P.fv and not any(t in rem for t in P.fv):
        return ite(P, make_K(I, bound, N.TRUE, rem, k, desc), N.I0)
    # simplify the search predicate: within [0,bound) only
    stop = b_not(P)
    ph = [t for t in stop.fv if t in rem]
    entries = ()
    tm = {k: "k"}
    if ph:
        needed = closure(ph, rem)
        reps, rep = ordered(rem, needed, k)
        m = {t: rep[t] for t in needed if rep[t] is not t}
        entries = tuple((rem[t][0], subst(rem[t][1], m) if m else rem[t][1]) for t in reps)
        if m:
            stop = subst(stop, m)
        for i, t in enumerate(reps):
            tm[t] = i
    b = bound if bound is not None else mk("sym", "$inf", "i")
    if bound is not None and not nonneg(bound):
        b = ite(cmp("ge", bound, N.I0), bound, N.I0)
    if b is N.I0:
        return N.I0
    return N.close("first", [b, stop, entries], tm)


def add_range_facts(I, system, sol, k):
    """facts about unsolved integer recurrences: increments within a constant range"""
    for t, (init, nx) in system.items():
        if t in sol or sort_of(t) != "i":
            continue
        d = sub(subst(nx, sol), t)
        lv = []
        st = [d]
        ok = True
        while st:
            x = st.pop()
            if x.op == "ite":
                st.extend(x.args[1:])
            elif x.op == "num":
                lv.append(int(N.num(x)))
            elif x is N.BOT:
                pass
            else:
                ok = False
                break
        if ok and lv:
            I.facts.append(cmp("ge", t, add(init, mul(const_i(min(lv)), k))))
            I.facts.append(cmp("le", t, add(init, mul(const_i(max(lv)), k))))
            if min(lv) >= 0:
                I.facts.append(cmp("ge", t, init))

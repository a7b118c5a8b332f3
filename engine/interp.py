"""Abstract interpretation of MIR into value graphs (gated SSA).

Every block is visited once per analysis of its region; joins are gated by the decision
diagram of the branches between the join and its dominator; crate functions are inlined;
loops are summarised (closed forms, first-match indices, recurrence systems) or, in the
bounded mode, unfolded for vectors of a fixed small length.
"""
from . import nodes as N
from .nodes import (mk, TRUE, FALSE, BOT, ite, b_not, b_and, b_or, cmp, add, sub, neg, mul, div,
                    const_i, const_r, Unsupported, Budget, Node, fn, vec, vlen, cget, cstore)
from fractions import Fraction


def refresh():
    """re-import constants after nodes.reset()"""
    global TRUE, FALSE, BOT
    TRUE, FALSE, BOT = N.TRUE, N.FALSE, N.BOT


class Program:
    def __init__(self, dump):
        self.types = dump["types"]
        self.fns = {f["key"]: f for f in dump["fns"]}
        self.cfg = {}
        self.crate = dump["crate"]
        self.byname = {}
        for k in self.fns:
            self.byname.setdefault(k.split("::")[-1], []).append(k)

    def find(self, suffix):
        """function whose key ends with ::suffix (module path may change)"""
        if suffix in self.fns:
            return suffix
        c = [k for k in self.fns if k.endswith("::" + suffix)]
        if len(c) == 1:
            return c[0]
        if not c:
            return None
        raise KeyError("ambiguous " + suffix + " " + str(c))

    def getcfg(self, key):
        c = self.cfg.get(key)
        if c is None:
            c = Cfg(self.fns[key])
            self.cfg[key] = c
        return c


class Loop:
    __slots__ = ("header", "body", "parent", "depth")


class Cfg:
    def __init__(self, f):
        self.f = f
        nb = len(f["blocks"])
        self.succ = []
        for b in f["blocks"]:
            self.succ.append(succs(b["t"]))
        # rpo
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        order.reverse()
        self.rpo = order
        self.pos = {b: i for i, b in enumerate(order)}
        self.pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    n = self._inter(idom, n, p)
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True
        self.idom = idom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    stk = [b]
                    while stk:
                        x = stk.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stk.extend(self.pred[x])
        for b in order:
            for s in self.succ[b]:
                if self.pos[s] <= self.pos[b] and s not in self.loops:
                    raise Unsupported("irreducible")

    def _inter(self, idom, a, b):
        while a != b:
            while self.pos[a] > self.pos[b]:
                a = idom[a]
            while self.pos[b] > self.pos[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return list(dict.fromkeys([x[1] for x in t[3]] + [t[4]]))
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [] if t[4] is None else [t[4]]
    if k == "assert":
        return [t[5]]
    return []


class Obl:
    __slots__ = ("kind", "fn", "line", "cond", "pc", "stack")

    def __init__(self, kind, fn_, line, cond, pc, stack):
        self.kind, self.fn, self.line, self.cond, self.pc, self.stack = kind, fn_, line, cond, pc, stack


class Interp:
    def __init__(self, prog, opaque=(), unroll=None, record=False, maxdepth=60):
        self.p = prog
        self.opaque = opaque
        self.frames = {}
        self.unroll = unroll
        self.record = record
        self.obls = []
        self.fid = 0
        self.stack = []
        self.memo = {}
        self.visited = set()
        self.maxdepth = maxdepth
        self.pcs = [TRUE]
        self.conds = []
        self.base = 0          # conditions below this depth do not hold for the (remembered) call under way
        self.facts = []
        self.steps = 0
        self.maxsteps = 400000
        self.unsup = []
        self.loopinfo = []
        self.noops = set()
        self.folding = False     # constant arguments: loops are followed state by state
        self.undecided = False   # some branch was not decided while folding
        N.c_expand_hook[0] = self.c_expand
        N.EXPAND_VAR[0] = self.disc_value

    # ------------------------------------------------------------ symbolic values
    def ty(self, i):
        return self.p.types[i]

    def leafsort(self, t):
        k = t["k"]
        if k == "float":
            return "r"
        if k in ("int", "uint", "char"):
            return "i"
        if k == "bool":
            return "b"
        if k == "str":
            return "str"
        return None

    def is_vec(self, t):
        return t["k"] in ("slice", "array") or (t["k"] == "struct" and t["name"].endswith("vec::Vec"))

    def elem(self, t):
        return t["e"] if t["k"] in ("slice", "array") else t["a"][0]

    def is_string(self, t):
        return t["k"] == "struct" and t["name"].endswith("string::String")

    def expand(self, tyid, leaf, veclen=None):
        """symbolic value of a type; leaf(path, sort) builds scalar leaves."""
        t = self.ty(tyid)
        k = t["k"]
        s = self.leafsort(t)
        if s == "b":
            return N.tobool(leaf((), "b"))
        if s:
            return leaf(("u",) if k == "uint" else (), s)
        if k == "ref" or k == "ptr":
            return self.expand(t["e"], leaf, veclen)
        if k == "tuple":
            return mk("struct", "()", *[self.expand(e, sublf(leaf, i), veclen) for i, e in enumerate(t["e"])])
        if self.is_vec(t):
            if k == "array":
                ln = const_i(t["n"])
            elif veclen is not None:
                ln = veclen(leaf)
            else:
                ln = leaf(("len",), "i")
            return mk("vec", ln, leaf(("buf",), ("c", self.elem(t))), self.elem(t))
        if self.is_string(t):
            return leaf((), "str")
        if k == "struct":
            if t["name"].endswith("boxed::Box"):
                return self.expand(t["a"][0], leaf, veclen)
            if not t["v"]:
                return leaf((), ("o", tyid))
            return mk("struct", t["name"], *[self.expand(f[1], sublf(leaf, i), veclen) for i, f in enumerate(t["v"][0]["f"])])
        if k == "enum":
            n = len(t["v"])
            if n == 0:
                return BOT
            d = leaf(("disc",), "i")
            res = None
            for vi in reversed(range(n)):
                v = mk("var", tyid, vi, *[self.expand(f[1], sublf(leaf, ("v", vi, i)), veclen) for i, f in enumerate(t["v"][vi]["f"])])
                res = v if res is None else ite(cmp("ge", d, const_i(vi + 1)), res, v)
            return res
        return leaf((), ("o", tyid))

    def missable(self, tyid, path):
        """does this leaf of the type hold an optional ordinate (z or m of a coordinate)?"""
        path = list(path)
        while True:
            t = self.ty(tyid)
            k = t["k"]
            if k in ("ref", "ptr"):
                tyid = t["e"]
                continue
            if k == "struct" and t["name"].endswith("boxed::Box"):
                tyid = t["a"][0]
                continue
            if not path:
                return False
            p = path.pop(0)
            if k == "tuple" and isinstance(p, int):
                tyid = t["e"][p]
            elif k == "struct" and isinstance(p, int) and t["v"]:
                f = t["v"][0]["f"][p]
                if t["name"].endswith("coordinate::Coordinate") and f[0] in ("z", "m"):
                    return not path
                tyid = f[1]
            elif k == "enum" and isinstance(p, tuple) and p[0] == "v":
                tyid = t["v"][p[1]]["f"][p[2]][1]
            else:
                return False

    def leaf_missable(self, n):
        a = n.args
        if n.op == "sym":
            return a[0] in N.MISSABLE
        if n.op == "leaf":
            base = a[1]
            s = base.args[0] if base.op in ("fn", "opaque") else N.sort_of(base)
            if isinstance(s, tuple) and s[0] in ("c", "o"):
                try:
                    return self.missable(s[1], a[-1])
                except (KeyError, IndexError, TypeError):
                    return False
        if n.op == "rec":
            seen, stack = set(), [n.args[2]]
            while stack:
                x = stack.pop()
                if isinstance(x, Node):
                    if x in seen:
                        continue
                    seen.add(x)
                    if x.op in ("sym", "leaf") and self.leaf_missable(x):
                        return True
                    stack.extend(x.args)
                elif isinstance(x, tuple):
                    stack.extend(x)
        return False

    def param(self, tyid, name, veclen=None):
        def leaf(path, sort):
            nm = name + "".join("." + self._pn(p) for p in path)
            if sort == "r" and self.missable(tyid, path):
                N.MISSABLE.add(nm)
            if isinstance(sort, tuple) and sort[0] == "c":
                return mk("cbase", nm, sort)
            return N.sym(nm, sort)
        return self.expand(tyid, leaf, veclen)

    @staticmethod
    def _pn(p):
        return ".".join(map(str, p)) if isinstance(p, tuple) else str(p)

    def c_expand(self, c, i):
        s = N.sort_of(c)
        if not (isinstance(s, tuple) and s[0] == "c"):
            raise Unsupported("content sort %s" % (s,))

        def leaf(path, sort):
            if isinstance(sort, tuple) and sort[0] == "c":
                return mk("cbase", (c, i, path), sort)
            return mk("leaf", sort, c, i, path)
        return self.expand(s[1], leaf, self.nested_len)

    def nested_len(self, leaf):
        return leaf(("len",), "i")

    # ------------------------------------------------------------ enum helpers
    def disc_value(self, v):
        """discriminant (as integer) of an enum value"""
        if v is BOT:
            return BOT
        if v.op == "ite":
            return N.lift1("disc", self.disc_value, v)
        if v.op == "var":
            t = self.ty(v.args[0])
            return const_i(int(t["v"][v.args[1]]["disc"]))
        raise Unsupported("disc of " + v.op)

    def downcast_field(self, v, vid, i):
        if v is BOT:
            return BOT
        if v.op == "ite":
            return ite(N.atomb(v.args[0]), self.downcast_field(v.args[1], vid, i), self.downcast_field(v.args[2], vid, i))
        if v.op == "var":
            if v.args[1] != vid:
                return BOT
            return v.args[2 + i]
        raise Unsupported("downcast of " + v.op)

    def field(self, v, i):
        if v is BOT:
            return BOT
        if v.op == "struct":
            if i + 1 >= len(v.args):
                raise Unsupported("field %d of %s" % (i, v.args[0]))
            return v.args[1 + i]
        if v.op == "ite":
            return ite(N.atomb(v.args[0]), self.field(v.args[1], i), self.field(v.args[2], i))
        if v.op == "mref":
            raise Unsupported("field of mref")
        raise Unsupported("field of " + v.op)

    # ------------------------------------------------------------ places
    def read_loc(self, st, loc):
        v = st.get(loc)
        if v is None:
            return BOT
        return v

    def deref(self, st, v):
        if v.op == "mref":
            x = self.read_loc(st, v.args[0])
            return self.walk_path(x, v.args[1])
        if v.op == "ite":
            lf = self._has_mref(v)
            if lf:
                return ite(N.atomb(v.args[0]), self.deref(st, v.args[1]), self.deref(st, v.args[2]))
        return v

    def _has_mref(self, v):
        while v.op == "ite":
            v = v.args[1] if v.args[1] is not BOT else v.args[2]
        return v.op == "mref"

    def walk_path(self, x, path):
        vid = None
        for t, i in path:
            if t == "f":
                x = self.field(x, i) if vid is None else self.downcast_field(x, vid, i)
                vid = None
            elif t == "dc":
                vid = i
            elif t == "i":
                x = self.index_value(x, i)
            elif t == "slice":
                x = self.slice_value(x, i[0], i[1])
            else:
                raise Unsupported("path")
        return x

    def index_value(self, v, i):
        if v is BOT:
            return BOT
        if v.op == "vec":
            return cget(v.args[1], i)
        if v.op == "ite":
            return ite(N.atomb(v.args[0]), self.index_value(v.args[1], i), self.index_value(v.args[2], i))
        raise Unsupported("index of " + v.op)

    def slice_value(self, v, lo, hi):
        if v.op == "ite":
            return ite(N.atomb(v.args[0]), self.slice_value(v.args[1], lo, hi), self.slice_value(v.args[2], lo, hi))
        k = N.fresh("i")
        body = cget(v.args[1], add(k, lo))
        return mk("vec", sub(hi, lo), N.lam(k, body), v.args[2])

    def read_place(self, st, fr, p):
        loc = (fr, p[0])
        v = st.get(loc)
        if v is None:
            v = BOT
        vid = None
        for e in p[1]:
            if e == "*":
                v = self.deref(st, v)
            elif e[0] == "f":
                if v.op == "mref":
                    if v.args[0][0] == "heap":
                        continue        # Box -> Unique -> NonNull -> pointer
                    raise Unsupported("field through mref")
                v = self.downcast_field(v, vid, e[1]) if vid is not None else self.field(v, e[1])
                vid = None
            elif e[0] == "dc":
                vid = e[1]
            elif e[0] == "i":
                v = self.index_value(v, self.read_loc(st, (fr, e[1])))
            elif e[0] == "ci":
                if e[3]:
                    v = self.index_value(v, sub(vlen(v), const_i(e[1])))
                else:
                    v = self.index_value(v, const_i(e[1]))
            elif e[0] == "ss":
                hi = sub(vlen(v), const_i(e[2])) if e[3] else const_i(e[2])
                v = self.slice_value(v, const_i(e[1]), hi)
            elif e[0] == "oc":
                pass
            else:
                raise Unsupported("proj %s" % (e,))
        return v

    def resolve(self, st, fr, p):
        """place -> (root value node of kind mref)"""
        cur = mk("mref", (fr, p[0]), ())
        for e in p[1]:
            if e == "*":
                v = self.deref(st, cur)
                if v.op == "mref" or self._has_mref(v):
                    cur = v
                # otherwise a Box / shared value: stay on the same place
            else:
                if e[0] == "f" and cur.op == "mref" and cur.args[0][0] == "heap" and cur.args[1] == ():
                    continue            # MaybeUninit / ManuallyDrop wrappers
                if e[0] == "f":
                    el = ("f", e[1])
                elif e[0] == "dc":
                    el = ("dc", e[1])
                elif e[0] == "i":
                    el = ("i", self.read_loc(st, (fr, e[1])))
                elif e[0] == "ci":
                    el = ("i", sub(vlen(self.deref(st, cur)), const_i(e[1])) if e[3] else const_i(e[1]))
                elif e[0] == "oc":
                    continue
                else:
                    raise Unsupported("proj %s" % (e,))
                cur = self.mref_ext(cur, el)
        return cur

    def mref_ext(self, m, el):
        if m.op == "ite":
            return ite(N.atomb(m.args[0]), self.mref_ext(m.args[1], el), self.mref_ext(m.args[2], el))
        if m is BOT:
            return BOT
        return mk("mref", m.args[0], m.args[1] + (el,))

    def update(self, x, path, v):
        if not path:
            return v
        t, i = path[0]
        if x.op == "ite" and t != "dc":
            return ite(N.atomb(x.args[0]), self.update(x.args[1], path, v), self.update(x.args[2], path, v))
        if x is BOT:
            return BOT
        if t == "f":
            if x.op != "struct":
                raise Unsupported("update field of " + x.op)
            a = list(x.args)
            a[1 + i] = self.update(a[1 + i], path[1:], v)
            return mk("struct", *a)
        if t == "dc":
            (t2, j) = path[1]
            if x.op == "ite":
                return ite(N.atomb(x.args[0]), self.update(x.args[1], path, v), self.update(x.args[2], path, v))
            if x.args[1] != i:
                return BOT
            a = list(x.args)
            a[2 + j] = self.update(a[2 + j], path[2:], v)
            return mk("var", *a)
        if t == "i":
            old = cget(x.args[1], i) if len(path) > 1 else None
            nv = v if old is None else self.update(old, path[1:], v)
            return mk("vec", x.args[0], cstore(x.args[1], i, nv), x.args[2])
        if t == "slice":
            if len(path) == 1:
                lo, hi = i
                k = N.fresh("i")
                inr = b_and(cmp("ge", k, lo), cmp("lt", k, hi))
                body = ite(inr, cget(v.args[1], sub(k, lo)), cget(x.args[1], k))
                return mk("vec", x.args[0], N.lam(k, body), x.args[2])
            (t2, j) = path[1]
            if t2 == "i":
                return self.update(x, (("i", add(j, i[0])),) + tuple(path[2:]), v)
        raise Unsupported("update path")

    def write_ref(self, st, m, v, cond=TRUE):
        if m is BOT:
            return
        if m.op == "ite":
            c = N.atomb(m.args[0])
            self.write_ref(st, m.args[1], v, b_and(cond, c))
            self.write_ref(st, m.args[2], v, b_and(cond, b_not(c)))
            return
        if m.op != "mref":
            raise Unsupported("write through " + m.op)
        loc, path = m.args
        old = st.get(loc, BOT)
        if path:
            new = self.update(old, path, v)
        else:
            new = v
        st[loc] = new if cond is TRUE else ite(cond, new, old)

    def write_place(self, st, fr, p, v):
        if not p[1]:
            st[(fr, p[0])] = v
            return
        self.write_ref(st, self.resolve(st, fr, p), v)

    # ------------------------------------------------------------ operands
    def konst(self, c):
        t = self.ty(c["ty"])
        return self.kval(c["v"], c["ty"])

    def kval(self, v, tyid):
        t = self.ty(tyid)
        if "z" in v:
            if t["k"] == "fndef":
                return mk("struct", "fndef:" + t["name"])
            if t["k"] == "closure":
                return mk("struct", "closure:" + t["name"])
            if t["k"] == "struct":
                return mk("struct", t["name"])
            if t["k"] == "array":
                return mk("vec", N.I0, N.cundef(), t["e"])
            return N.UNIT
        if "i" in v:
            if t["k"] == "bool":
                return N.boolean(v["i"] != 0)
            if t["k"] == "ref":
                return self.kval(v, t["e"])
            return const_i(v["i"])
        if "f64" in v:
            return N.const_f(v["f64"])
        if "s" in v:
            return mk("str", v["s"])
        if "ref" in v:
            return self.kval(v["ref"], t["e"])
        if "arr" in v:
            e = self.elem(t)
            c = N.cundef()
            for i, x in enumerate(v["arr"]):
                c = cstore(c, const_i(i), self.kval(x, e))
            return mk("vec", const_i(len(v["arr"])), c, e)
        if "tup" in v:
            return mk("struct", "()", *[self.kval(x, e) for x, e in zip(v["tup"], t["e"])])
        if "adt" in v:
            return mk("struct", t["name"], *[self.kval(x, f[1]) for x, f in zip(v["adt"], t["v"][0]["f"])])
        if "enum" in v:
            return mk("var", tyid, v["enum"])
        return self.opaque_val("const:" + str(v)[:60], tyid, ())

    def opaque_val(self, why, tyid, args):
        self.unsup.append(why)
        base = mk("opaque", ("o", tyid), why, tuple(a for a in args if isinstance(a, Node)))

        def leaf(path, sort):
            if isinstance(sort, tuple) and sort[0] == "c":
                return mk("cbase", (base, path), sort)
            return mk("leaf", sort, base, path)
        return self.expand(tyid, leaf)

    def operand(self, st, fr, o):
        if o[0] in ("c", "m"):
            return self.read_place(st, fr, o[1])
        if o[0] == "k":
            return self.konst(o[1])
        if o[0] == "rc":
            return FALSE
        raise Unsupported("operand")

    def optype(self, f, o):
        """type id of an operand if known"""
        if o[0] == "k":
            return o[1]["ty"]
        if o[0] in ("c", "m"):
            return self.placetype(f, o[1])
        return None

    def placetype(self, f, p):
        t = f["locals"][p[0]]
        vid = 0
        for e in p[1]:
            T = self.ty(t)
            if e == "*":
                if T["k"] in ("ref", "ptr"):
                    t = T["e"]
                elif T["k"] == "struct" and T["name"].endswith("boxed::Box"):
                    t = T["a"][0]
            elif e[0] == "f":
                t = e[2]
            elif e[0] in ("i", "ci"):
                t = self.elem(T)
        return t

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, f, r, dest_ty):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            if r[1]:
                return self.resolve(st, fr, r[2])
            v = self.read_place(st, fr, r[2])
            if v.op == "mref":
                return self.deref(st, v)  # & of a place holding &mut: shared view
            return v
        if k == "reborrow":
            if r[1]:
                return self.resolve(st, fr, r[2])
            return self.read_place(st, fr, r[2])
        if k == "addr":
            return self.resolve(st, fr, r[1])
        if k in ("bin", "cbin"):
            a = self.operand(st, fr, r[2])
            b = self.operand(st, fr, r[3])
            v = self.binop(r[1], a, b, f, r[2])
            if k == "cbin":
                return mk("struct", "()", v, FALSE)
            return v
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "Not":
                t = self.ty(self.optype(f, r[2]))
                if t["k"] == "bool":
                    return b_not(a)
                return fn("i", "bitnot", a)
            if r[1] == "PtrMetadata":
                return vlen(self.deref(st, a))
            raise Unsupported("unop " + r[1])
        if k == "cast":
            return self.cast(st, fr, f, r)
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            if a[0] == "tuple":
                return mk("struct", "()", *ops)
            if a[0] == "adt":
                t = self.ty(a[1])
                if t["k"] == "enum":
                    return mk("var", a[1], a[2], *ops)
                return mk("struct", t["name"], *ops)
            if a[0] == "array":
                c = N.cundef()
                for i, x in enumerate(ops):
                    c = cstore(c, const_i(i), x)
                return mk("vec", const_i(len(ops)), c, a[1])
            if a[0] == "closure":
                return mk("struct", "closure:" + a[1], *ops)
            raise Unsupported("aggregate")
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            return mk("vec", const_i(r[2]), N.lam(N.fresh("i"), v), self.elem(self.ty(dest_ty)))
        if k == "disc":
            return self.disc_value(self.read_place(st, fr, r[1]))
        if k == "len":
            return vlen(self.read_place(st, fr, r[1]))
        raise Unsupported("rvalue " + k)

    def unsigned(self, f, o):
        """is the operand of an unsigned type (never negative unless an overflow went before)"""
        try:
            if o[0] in ("c", "m"):
                p = o[1]
                return not p[1] and self.ty(f["locals"][p[0]])["k"] == "uint"
            return self.ty(o[1]["ty"])["k"] == "uint"
        except (KeyError, TypeError, IndexError):
            return False

    def binop(self, op, a, b, f, lo):
        if op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            if a.op == "mref" or b.op == "mref":
                return FALSE
            if op in ("Eq", "Ne") and b.op == "num" and N.num(b) == 0 and a.op in ("leaf", "sym", "fn", "bv", "rec", "phi", "tmp") \
                    and not N.nonneg(a) and self.unsigned(f, lo):
                return cmp("lt" if op == "Eq" else "ge", a, N.I1)
            return cmp(op.lower(), a, b)
        if a is BOT or b is BOT:
            return BOT
        isb = N.sort_of(a) == "b" or N.sort_of(b) == "b"
        if op in ("BitAnd", "BitOr", "BitXor") and isb:
            return {"BitAnd": b_and, "BitOr": b_or, "BitXor": N.b_xor}[op](N.tobool(a), N.tobool(b))
        if a.op == "mref" or b.op == "mref":
            return fn("i", "addr" + op)
        isf = N.sort_of(a) == "r" or N.sort_of(b) == "r"
        if op.startswith("Add"):
            return add(a, b)
        if op.startswith("Sub"):
            return sub(a, b)
        if op.startswith("Mul"):
            return mul(a, b)
        if op in ("Div", "Rem") and not isf and b.op == "num" and N.num(b) > 0 and self.unsigned(f, lo):
            return N.ediv(a, b) if op == "Div" else N.emod(a, b)
        if op == "Rem" and not isf and self.unsigned(f, lo):
            return N.urem(a, b)
        if op == "Div":
            return div(a, b) if isf else N.idiv(a, b)
        if op == "Rem":
            return N.frem(a, b) if isf else N.irem(a, b)
        if op == "Shr" and b.op == "num":
            return N.ediv(a, const_i(2 ** int(N.num(b))))      # arithmetic on signed, logical on unsigned: both floor
        if op == "Shl" and b.op == "num":
            return mul(a, const_i(2 ** int(N.num(b))))
        if op == "Cmp":
            t = [i for i, x in enumerate(self.p.types) if x.get("name", "").endswith("cmp::Ordering")][0]
            return ite(cmp("lt", a, b), mk("var", t, 0), ite(cmp("gt", a, b), mk("var", t, 2), mk("var", t, 1)))
        return fn("i", "op" + op, a, b)

    def cast(self, st, fr, f, r):
        kind, o, tyid = r[1], r[2], r[3]
        a = self.operand(st, fr, o)
        t = self.ty(tyid)
        if kind == "IntToInt":
            src = self.ty(self.optype(f, o))
            if src["k"] == "bool":
                return ite(a, N.I1, N.I0)
            if src["k"] == "int" and src.get("bits") == 8:
                a = self.sign8(a)
            if src["k"] == "int" and t["k"] == "uint":
                return self.wrap_unsigned(a, t["bits"])
            return a
        if kind == "IntToFloat":
            return N.i2f(a)
        if kind == "FloatToInt":
            if a.op == "num":
                import math
                v = math.trunc(N.num(a))
                if t["k"] == "uint":
                    v = max(0, min(v, 2 ** t["bits"] - 1))
                else:
                    v = max(-2 ** (t["bits"] - 1), min(v, 2 ** (t["bits"] - 1) - 1))
                return const_i(v)
            return fn("i", "f2i" + t["k"] + str(t["bits"]), a)
        if kind == "FloatToFloat":
            if t["bits"] == 32:
                return fn("r", "f32", a)
            return a
        if kind.startswith("PtrToPtr") or kind.endswith("Transmute") or kind.startswith("Unsize") or kind.startswith("ReifyFn") or kind.startswith("ClosureFn") or kind.startswith("MutToConst") or kind.startswith("UnsafeFn") or kind == "Subtype":
            return a
        raise Unsupported("cast " + kind)

    def sign8(self, a):
        """an enum discriminant read as i8 (Ordering::Less is stored as 255)"""
        if a.op == "num" and N.num(a) > 127:
            return const_i(N.num(a) - 256)
        if a.op == "ite":
            return N.lift1("sign8", self.sign8, a)
        return a

    def wrap_unsigned(self, a, bits):
        if a.op == "num" and N.num(a) < 0:
            return const_i(N.num(a) + 2 ** bits)
        if a.op == "ite":
            return N.lift1("wrapu%d" % bits, lambda x: self.wrap_unsigned(x, bits), a)
        return a

    # ------------------------------------------------------------ running
    def call_fn(self, key, args, st):
        """inline a function; returns value (BOT when it never returns); st is updated in place"""
        f = self.p.fns[key]
        if len(self.stack) > self.maxdepth:
            raise Unsupported("recursion at " + key)
        if key in self.stack:
            # a recursive call: unfold while its path condition is feasible, a few levels
            from . import prove
            if prove.entails([c for c in self.conds if c is not TRUE], FALSE):
                return BOT
            if self.stack.count(key) > 3:
                raise Unsupported("recursion at " + key)
        if len(args) != f["nargs"]:
            raise Unsupported("arity of " + key)
        pure = not any(self._mentions_mref(a) for a in args)
        mk_ = (key, tuple(args))
        if pure and not self.record:
            r = self.memo.get(mk_)
            if r is not None:
                return r
        self.visited.add(key)
        self.fid += 1
        fr = self.fid
        st2 = dict(st) if not pure else {}
        for i, a in enumerate(args):
            st2[(fr, i + 1)] = a
        self.stack.append(key)
        base = self.base
        if pure and not self.record:
            self.base = len(self.conds)
        try:
            cfg = self.p.getcfg(key)
            ex = self.run_region(cfg, fr, f, set(cfg.rpo), 0, st2, None)
        finally:
            self.stack.pop()
            self.base = base
        rets = [e for e in ex if e[1] == "RET"]
        if not rets:
            ret = BOT
            if not pure:
                pass
            return BOT
        merged = self.merge_abs(rets)
        ret = merged.get((fr, 0), N.UNIT)
        if not pure:
            for loc in list(st):
                if loc in merged:
                    st[loc] = merged[loc]
            for loc in merged:
                if loc[0] == "heap":
                    st[loc] = merged[loc]
        elif not self.record:
            self.memo[mk_] = ret
        return ret

    def _mentions_mref(self, v):
        if v.op == "mref":
            return True
        if v.op in ("struct", "ite", "var"):
            return any(isinstance(x, Node) and self._mentions_mref(x) for x in (v.args[1:] if v.op != "ite" else v.args[1:]))
        return False

    def merge_abs(self, edges):
        """edges: (cond, target, state) with mutually exclusive conds relative to a common point"""
        if len(edges) == 1:
            return dict(edges[0][2])
        locs = {}
        for c, t, s in edges:
            for l in s:
                locs[l] = None
        out = {}
        first = edges[0][2]
        for l in locs:
            vals = [e[2].get(l, BOT) for e in edges]
            v = vals[-1]
            if all(x is v for x in vals):
                out[l] = v
                continue
            for (c, t, s), x in zip(reversed(edges[:-1]), reversed(vals[:-1])):
                v = self.merge2(c, x, v)
            out[l] = v
        return out

    def merge2(self, c, x, y):
        return ite(c, x, y)

    def run_region(self, cfg, fr, f, blocks, entry, st, loop_header):
        """Run the acyclic region (inner loops collapsed) from entry.
        Returns list of (cond, target, state): target 'RET', 'LATCH' or a block outside the region;
        cond is relative to the region entry."""
        inner = {h: body for h, body in cfg.loops.items() if h in blocks and h != loop_header}
        # outermost inner loops only
        tops = {}
        covered = set()
        for h, body in sorted(inner.items(), key=lambda kv: -len(kv[1])):
            if h in covered:
                continue
            tops[h] = body
            covered |= body
        items = [b for b in cfg.rpo if b in blocks and (b not in covered or b in tops)]
        inedges = {b: [] for b in items}
        itemset = set(items)
        sinks = []
        out = {}
        pos = {b: i for i, b in enumerate(items)}
        idom = {entry: entry}
        reach = {entry: TRUE}
        outer_pc = self.pcs[-1]

        def dom_inter(a, b):
            while a != b:
                while pos[a] > pos[b]:
                    a = idom[a]
                while pos[b] > pos[a]:
                    b = idom[b]
            return a

        def relreach(d, edges):
            """conditions of the given in-edges relative to block d"""
            anc = set()
            stk = [e[0] for e in edges]
            while stk:
                x = stk.pop()
                if x in anc:
                    continue
                anc.add(x)
                if x == d:
                    continue
                for e in inedges[x]:
                    stk.append(e[0])
            R = {d: TRUE}
            for b in items:
                if b in anc and b != d:
                    r = FALSE
                    for (s, c, _) in inedges[b]:
                        if s in R:
                            r = b_or(r, b_and(R[s], c))
                    R[b] = r
            return [(b_and(R[s], c), None, stt) for (s, c, stt) in edges]

        dcond = {entry: TRUE}
        for b in items:
            if b == entry:
                state = dict(st)
            else:
                es = [e for e in inedges[b] if e[1] is not FALSE]
                if not es:
                    continue
                d = es[0][0]
                for e in es[1:]:
                    d = dom_inter(d, e[0])
                idom[b] = d
                dcond[b] = dcond[d]
                if len(es) == 1:
                    dcond[b] = b_and(dcond[d], es[0][1])
                    state = dict(es[0][2])
                else:
                    state = self.merge_abs(relreach(d, es))
                if self.record:
                    r = FALSE
                    for (s, c, _) in es:
                        r = b_or(r, b_and(reach[s], c))
                    reach[b] = r
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget("step budget")
            if self.record:
                self.pcs.append(b_and(outer_pc, reach[b]))
            self.conds.append(dcond[b])
            try:
                if b in tops:
                    edges = self.solve_loop(cfg, fr, f, b, tops[b], state)
                else:
                    edges = self.block(cfg, fr, f, b, state)
            finally:
                self.conds.pop()
                if self.record:
                    self.pcs.pop()
            for (c, t, s) in edges:
                if c is FALSE:
                    continue
                if t == "RET":
                    sinks.append((b, c, s, "RET"))
                elif loop_header is not None and t == loop_header:
                    sinks.append((b, c, s, "LATCH"))
                elif t in itemset:
                    inedges[t].append((b, c, s))
                else:
                    sinks.append((b, c, s, t))
        # conditions of the sinks relative to the entry
        if not sinks:
            return []
        if len(sinks) == 1:
            # the single way out: anything else diverges
            b, c, s, t = sinks[0]
            rel = relreach(entry, [(b, c, s)])
            return [(rel[0][0] if loop_header is not None else TRUE, t, s)]
        rets = []
        groups = {}
        for x in sinks:
            groups.setdefault(x[3], []).append(x)
        res = []
        for t, xs in groups.items():
            edges = [(b, c, s) for b, c, s, _ in xs]
            rel = relreach(entry, edges)
            if t == "LATCH" and len(edges) > 1:
                d = edges[0][0]
                for e in edges[1:]:
                    d = dom_inter(d, e[0])
                m = self.merge_abs(relreach(d, edges))
                c = FALSE
                for r in rel:
                    c = b_or(c, r[0])
                res.append((c, t, m))
            else:
                for r in rel:
                    res.append((r[0], t, r[2]))
        return res

    def block(self, cfg, fr, f, b, st):
        blk = f["blocks"][b]
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                dty = f["locals"][s[1][0]] if not s[1][1] else self.placetype(f, s[1])
                v = self.rvalue(st, fr, f, s[2], dty)
                self.write_place(st, fr, s[1], v)
            elif k == "dead":
                st.pop((fr, s[1]), None)
            elif k == "sd":
                raise Unsupported("set discriminant")
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(TRUE, t[1], st)]
        if k == "ret":
            return [(TRUE, "RET", st)]
        if k == "drop":
            self.check_drop(self.placetype(f, t[1]), 3)
            return [(TRUE, t[2], st)]
        if k in ("resume", "abort", "unreach"):
            return []
        if k == "assert" and t[3] == "other":
            return [(TRUE, t[5], st)]   # pointer-validity checks of the standard library's boxes
        if k == "assert":
            c = self.operand(st, fr, t[1])
            exp = t[2]
            if self.record:
                self.oblige(f, t, st, fr)
            if t[3] == "bounds":
                ln, ix = self.operand(st, fr, t[4][0]), self.operand(st, fr, t[4][1])
                c = cmp("lt", ix, ln)
                exp = True
            good = c if exp else b_not(c)
            if good is FALSE:
                return []
            return [(TRUE, t[5], st)]
        if k == "switch":
            return self.switch(fr, f, t, st)
        if k == "call":
            return self.call(cfg, fr, f, t, st)
        raise Unsupported("terminator " + k)

    def switch(self, fr, f, t, st):
        v = self.operand(st, fr, t[1])
        ty = self.ty(t[2]) if t[2] >= 0 else {"k": "int", "bits": 64}
        res = []
        rest = TRUE
        if v is BOT:
            return []
        if ty["k"] == "bool":
            v = N.tobool(v)
            for val, tgt in t[3]:
                c = v if val else b_not(v)
                res.append((b_and(rest, c), tgt))
                rest = b_and(rest, b_not(c))
        else:
            for val, tgt in t[3]:
                if ty["k"] == "int" and val >= 2 ** (ty["bits"] - 1):
                    # discriminants are kept as dumped; plain ints are signed
                    c = cmp("eq", v, const_i(val - 2 ** ty["bits"]))
                    if v.op == "num" or v.op == "ite" and N.const_leaves(v):
                        c = b_or(cmp("eq", v, const_i(val)), c)
                else:
                    c = cmp("eq", v, const_i(val))
                res.append((b_and(rest, c), tgt))
                rest = b_and(rest, b_not(c))
        res.append((rest, t[4]))
        # merge same targets
        tg = {}
        for c, x in res:
            tg[x] = b_or(tg.get(x, FALSE), c)
        if self.folding and sum(c is not FALSE for c in tg.values()) > 1:
            self.undecided = True
        out = []
        for x, c in tg.items():
            if c is FALSE:
                continue
            if f["blocks"][x]["t"][0] == "unreach" and not f["blocks"][x]["s"]:
                continue
            out.append((c, x, st if c is TRUE else self.restrict_state(st, c)))
        return out

    def restrict_state(self, st, c):
        out = {}
        for l, v in st.items():
            out[l] = restrict(v, c)
        return out

    # ------------------------------------------------------------ obligations
    def oblige(self, f, t, st, fr):
        kind = t[3]
        ops = [self.operand(st, fr, o) for o in t[4]]
        if kind == "bounds":
            good = b_and(cmp("lt", ops[1], ops[0]), cmp("ge", ops[1], N.I0))
        elif kind.startswith("overflow_Sub"):
            ty = self.ty(self.optype(f, t[4][0]))
            if ty["k"] != "uint":
                return
            good = cmp("ge", ops[0], ops[1])
        elif kind in ("divzero", "remzero"):
            good = cmp("ne", self.operand(st, fr, t[4][0]) if False else self._divisor(f, t, st, fr), N.I0)
        else:
            return
        self.add_obl(kind, f, t[6], good)

    def _divisor(self, f, t, st, fr):
        # assert's message operand is the dividend; the condition compares the divisor with 0
        blk = [b for b in f["blocks"] if b["t"] is t][0]
        cl = t[1][1][0]
        for s in blk["s"]:
            if s[0] == "=" and s[1] == [cl, []] and s[2][0] == "bin":
                return self.operand(st, fr, s[2][2])
        return N.I1

    def add_obl(self, kind, f, line, good):
        if not self.record or good is TRUE:
            if self.record:
                self.obls.append(Obl(kind, f["key"], line, TRUE, TRUE, tuple(self.stack)))
            return
        self.obls.append(Obl(kind, f["key"], line, good, self.pcs[-1], tuple(self.stack)))

    def check_drop(self, ty, depth):
        """dropping has no effect on the modelled state, except for types whose Drop impl writes"""
        t = self.ty(ty) if isinstance(ty, int) else ty
        if t is None or t["k"] not in ("struct", "enum"):
            return
        nm = t["name"]
        if nm.split("::")[-1] in ("Splice", "ExtractIf", "PeekMut"):
            raise Unsupported("drop of " + nm)
        dr = getattr(self.p, "drops", None)
        if dr is None:
            dr = self.p.drops = {k.split(" as ")[0].lstrip("<").split("<")[0] for k in self.p.fns
                                 if k.endswith("Drop>::drop")}
        if not dr:
            return
        if any(d.endswith(nm) or nm.endswith(d) for d in dr):
            raise Unsupported("drop of " + nm)

    # ------------------------------------------------------------ calls
    def call(self, cfg, fr, f, t, st):
        from . import models
        fnr, args, dest, tgt, line, fop = t[1], t[2], t[3], t[4], t[5], t[6]
        av = [self.operand(st, fr, a) for a in args]
        dty = self.placetype(f, dest)
        ret = self.dispatch(fnr, av, st, dty, f, args, line, fr, fop)
        if ret is BOT or tgt is None:
            if tgt is None or ret is BOT:
                return []
        self.write_place(st, fr, dest, ret)
        return [(TRUE, tgt, st)]

    def dispatch(self, fnr, av, st, dty, f, args, line, fr, fop=None):
        from . import models
        key = fnr["inst"]
        if key in self.opaque or (key and any(key.endswith("::" + o) for o in self.opaque)):
            writes = ()
            if any(m.op == "mref" for m in av):
                av, writes = self.frame_args(key, av, st)
            for ref, i, ety, same in writes:
                old = self.deref(st, ref)
                new = self.opaque_call("%s!%d" % (key, i), av, ety, 4)
                self.write_ref(st, ref, N.k_keep(old, new, same))
            return self.opaque_call(key, av, dty, 4)
        ctx = models.Ctx(self, fnr, av, st, dty, f, args, line)
        if fnr["local"] and key in self.p.fns and not fnr["def"].split("::")[-1] in ("call", "call_mut", "call_once"):
            return self.call_fn(key, av, st)
        m = models.lookup(fnr)
        if m is not None:
            return m(ctx)
        if key in self.p.fns:
            return self.call_fn(key, av, st)
        return models.unknown(ctx)

    def opaque_call(self, key, av, dty, splits):
        """uninterpreted application; conditional arguments are lifted out of it a few levels deep"""
        if splits:
            top = None
            for m in av:
                x = m
                while x.op == "struct":
                    y = next((z for z in x.args[1:] if isinstance(z, Node) and z.op in ("ite", "struct")), None)
                    if y is None:
                        break
                    x = y
                if x.op == "ite" and x is not m:
                    top = x.args[0]
                    break
            if top is not None:
                c = N.atomb(top)
                return ite(c, self.opaque_call(key, [restrict(m, c) for m in av], dty, splits - 1),
                           self.opaque_call(key, [restrict(m, b_not(c)) for m in av], dty, splits - 1))
        name = key.split("::")[-1]
        from .witness import FN
        if name in FN or name in ("min", "max", "inf"):      # not the built-in of that name
            name += "'"
        base = mk("fn", ("o", dty), name, *av)

        def leaf(path, sort):
            if isinstance(sort, tuple) and sort[0] == "c":
                return mk("cbase", (base, path), sort)
            if path in ((), ("u",)):
                return fn(sort, name, *av)
            return mk("leaf", sort, base, path)
        return self.expand(dty, leaf)

    def frame_args(self, key, av, st):
        """arguments of an opaque callee that takes &mut: the referenced values, dropped when the
        callee's result does not depend on them; what the callee's summary on generic arguments
        changes of them is uninterpreted afterwards, the rest stays"""
        f = self.p.fns[key]
        info = self.frames.get(key)
        if info is None:
            info = {}
            I = Interp(self.p, opaque=tuple(o for o in self.opaque if key != o and not key.endswith("::" + o)))
            st2, args, cells = {}, [], {}
            for i in range(f["nargs"]):
                ty = f["locals"][i + 1]
                t = self.ty(ty)
                if av[i].op == "mref" and t["k"] == "ref":
                    loc = ("frame", i)
                    st2[loc] = cells[i] = I.param(t["e"], "frame%d" % i)
                    args.append(mk("mref", loc, ()))
                else:
                    args.append(I.param(ty, "a%d" % i))
            try:
                r = I.call_fn(key, args, st2)
            except Unsupported:
                r = None

            def subtree(root):
                seen, stack = set(), [root]
                while stack:
                    x = stack.pop()
                    if isinstance(x, Node):
                        if x not in seen:
                            seen.add(x)
                            stack.extend(x.args)
                    elif isinstance(x, tuple):
                        stack.extend(x)
                return {x for x in seen if x.op not in ("num", "unit", "true", "false")}
            if r is None:
                for i, c in cells.items():
                    info[i] = (False, True, ())
            else:
                after = {i: st2[("frame", i)] for i in cells}
                wrote = any(after[i] is not c for i, c in cells.items())
                rs = subtree(r)
                for i, c in cells.items():
                    a = after[i]
                    same = tuple(j for j in range(1, len(c.args)) if a.args[j] is c.args[j]) \
                        if a.op == c.op == "struct" and len(a.args) == len(c.args) else ()
                    info[i] = (a is c, wrote or bool(rs & subtree(c)), same)
            self.frames[key] = info
        out, writes = [], []
        for i, m in enumerate(av):
            if m.op == "mref":
                if i not in info:
                    raise Unsupported("opaque with &mut")
                if info[i][1]:
                    out.append(self.deref(st, m))
                if not info[i][0]:
                    writes.append((m, i, self.ty(f["locals"][i + 1])["e"], info[i][2]))
            else:
                out.append(m)
        return out, writes

    # ------------------------------------------------------------ loops
    def solve_loop(self, cfg, fr, f, h, body, state):
        from . import loops

        def run(st):
            return self.run_region(cfg, fr, f, body, h, st, h)
        desc = (f["key"], h)
        return loops.solve(self, run, state, desc)


def sublf(leaf, i):
    return lambda path, sort: leaf((i,) + path, sort)


_restrict_memo = N.memo()


def restrict(v, c):
    """simplify v assuming boolean c (generalised cofactor; equal to v wherever c holds)"""
    if c is TRUE or c is FALSE or v is BOT:
        return v
    if v.op == "struct":
        k = (v, c)
        r = _restrict_memo.get(k)
        if r is None:
            a = [restrict(x, c) for x in v.args[1:]]
            r = v if all(x is y for x, y in zip(a, v.args[1:])) else mk("struct", v.args[0], *a)
            _restrict_memo[k] = r
        return r
    if v.op == "var":
        k = (v, c)
        r = _restrict_memo.get(k)
        if r is None:
            a = [restrict(x, c) for x in v.args[2:]]
            r = v if all(x is y for x, y in zip(a, v.args[2:])) else mk("var", v.args[0], v.args[1], *a)
            _restrict_memo[k] = r
        return r
    if v.op == "vec":
        a, b = restrict(v.args[0], c), restrict(v.args[1], c)
        return v if a is v.args[0] and b is v.args[1] else mk("vec", a, b, v.args[2])
    if v.op != "ite":
        return v
    k = (v, c)
    r = _restrict_memo.get(k)
    if r is not None:
        return r
    a = v.args[0]
    top = a
    ct = c.args[0]
    if N.okey(ct) < N.okey(a):
        top = ct
    c1, c0 = N.cof(c, top, True), N.cof(c, top, False)
    v1, v0 = N.cof(v, top, True), N.cof(v, top, False)
    if c1 is FALSE:
        r = restrict(v0, c0)
    elif c0 is FALSE:
        r = restrict(v1, c1)
    elif v1 is v0:
        r = restrict(v1, b_or(c1, c0))
    else:
        r = (N.mkite_raw if N.sort_of(v) in ("r", "b") else N.mkite)(top, restrict(v1, c1), restrict(v0, c0))
    _restrict_memo[k] = r
    return r

"""Models of the std functions the crate uses (by resolved definition path)."""
import re
from fractions import Fraction
from . import nodes as N
from .nodes import (mk, ite, b_not, b_and, b_or, cmp, add, sub, neg, mul, div, const_i, Unsupported,
                    Budget, cget, cstore, Node, sort_of, subst, fn, vlen)


class Ctx:
    __slots__ = ("I", "fnr", "a", "st", "dty", "f", "ops", "line")

    def __init__(self, I, fnr, a, st, dty, f, ops, line):
        self.I, self.fnr, self.a, self.st, self.dty, self.f, self.ops, self.line = I, fnr, a, st, dty, f, ops, line

    def val(self, i):
        """argument i with references read through"""
        return self.I.deref(self.st, self.a[i])

    def write(self, i, v):
        self.I.write_ref(self.st, self.a[i], v)

    def oblige(self, kind, good):
        self.I.add_obl(kind, self.f, self.line, good)


_norm = {}


def norm(d):
    r = _norm.get(d)
    if r is None:
        s = re.sub(r"<impl \[T\]>", "slice", d)
        s = re.sub(r"<impl (\w+)>", r"\1", s)
        # drop generic argument groups
        while True:
            t = re.sub(r"::<[^<>]*>", "", s)
            if t == s:
                break
            s = t
        s = re.sub(r"<[^<>]*>", "", s)
        p = s.split("::")
        r = "::".join(p[-2:])
        _norm[d] = r
    return r


M = {}


def model(*names):
    def deco(g):
        for n in names:
            M[n] = g
        return g
    return deco


def lookup(fnr):
    return M.get(norm(fnr["def"]))


def unknown(c):
    """an unmodelled callee: opaque function of its arguments; writes through &mut are opaque too"""
    I = c.I
    if c.dty is not None and I.ty(c.dty)["k"] == "never":
        c.oblige("panic", N.FALSE)
        return N.BOT
    if c.fnr["def"].startswith(("core::fmt", "std::fmt")) or "panicking" in c.fnr["def"]:
        return I.opaque_val("fmt", c.dty, ())
    if any(m.op == "mref" for m in c.a) and c.dty is not None and I.ty(c.dty)["k"] == "struct":
        # e.g. Vec::splice, Vec::extract_if: the returned value may hold the borrow and write when dropped
        raise Unsupported("call of " + c.fnr["def"])
    args = [c.val(i) for i in range(len(c.a))]
    for i, m in enumerate(c.a):
        if m.op == "mref":
            ty = I.optype(c.f, c.ops[i])
            if ty is not None:
                t = I.ty(ty)
                if t["k"] == "ref":
                    c.write(i, I.opaque_val(c.fnr["rn"] + "!%d" % i, t["e"], tuple(args)))
    return I.opaque_val(c.fnr["rn"], c.dty, tuple(args))


def some_ty(I, dty):
    return dty


def opt(c, cond, v, dty=None):
    """Option value"""
    t = dty if dty is not None else c.dty
    return mk_opt(c.I, t, cond, v)


def mk_opt(I, t, cond, v):
    none = mk("var", t, 0)
    if cond is N.FALSE:
        return none
    return ite(cond, mk("var", t, 1, v), none)


# ---------------------------------------------------------------- floats
def f1(name):
    def g(c):
        return fn("r", name, c.val(0))
    return g


def rb(name):
    return lambda *a: fn("r", name, *a)


for _n in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "ln", "log10", "floor", "ceil", "round", "trunc", "fract"):
    M["f64::" + _n] = f1(_n)


def whole(m):
    """a product of whole numbers"""
    return all(x.op == "fn" and x.args[1] in ("floor", "ceil", "trunc", "round", "i2f") for x, _ in m)


def m_round(name, at):
    def g(x):
        if x.op == "ite" and N._should_lift(x):
            return N.lift1(name, g, x)
        if x is N.BOT or x.op in ("nan", "inf", "ite") or N.MODE.fp:
            return fn("r", name, x)
        if x.op == "num":
            return N.const_r(Fraction(at(N.num(x))))
        p = N.pdict(x)
        i = {m: c for m, c in p.items() if c.denominator == 1 and whole(m)}
        if not i:
            return fn("r", name, x)
        f = {m: c for m, c in p.items() if m not in i}
        if not f:
            return x
        return N.add(N.from_pdict("r", i), fn("r", name, N.from_pdict("r", f)))
    return g


def _install():
    import math
    for name, at in (("floor", math.floor), ("ceil", math.ceil)):
        g = m_round(name, at)
        N.FN_REBUILD[name] = g

        def call(c, g=g):
            return g(c.val(0))
        M["f64::" + name] = call


_install()


def m_sqrt(x):
    if x.op == "num" and N.num(x) >= 0:
        v = N.num(x)
        import math
        a, b = math.isqrt(v.numerator), math.isqrt(v.denominator)
        if a * a == v.numerator and b * b == v.denominator:
            return N.const_r(Fraction(a, b))
    return fn("r", "sqrt", x)


N.FN_REBUILD["sqrt"] = m_sqrt


@model("f64::sqrt")
def _(c):
    return m_sqrt(c.val(0))


@model("f64::abs")
def _(c):
    return N.r_abs(c.val(0))


@model("f64::min")
def _(c):
    return N.r_min(c.val(0), c.val(1))


@model("f64::max")
def _(c):
    return N.r_max(c.val(0), c.val(1))


@model("f64::clamp")
def _(c):
    x, a, b = c.val(0), c.val(1), c.val(2)
    return ite(cmp("lt", x, a), a, ite(cmp("gt", x, b), b, x))


@model("f64::hypot")
def _(c):
    a, b = c.val(0), c.val(1)
    if N.MODE.fp:
        return fn("r", "hypot", a, b)
    return m_sqrt(add(mul(a, a), mul(b, b)))


@model("f64::powi")
def _(c):
    a, b = c.val(0), c.val(1)
    if b.op == "num" and 0 <= N.num(b) <= 8:
        r = N.R1
        for _ in range(int(N.num(b))):
            r = mul(r, a)
        return r
    return fn("r", "powi", a, b)


@model("f64::powf")
def _(c):
    return fn("r", "pow", c.val(0), c.val(1))


@model("f64::atan2")
def _(c):
    return fn("r", "atan2", c.val(0), c.val(1))


@model("f64::mul_add")
def _(c):
    if N.MODE.fp:
        return fn("r", "fma", c.val(0), c.val(1), c.val(2))
    return add(mul(c.val(0), c.val(1)), c.val(2))


def negbit(x):
    """the sign bit of a number: of a zero, a fact of its own"""
    if x.op == "num":
        return cmp("lt", x, N.R0)
    if x.op == "ite":
        return ite(N.atomb(x.args[0]), negbit(x.args[1]), negbit(x.args[2]))
    N.SIGNED_ZEROS[0] = True
    return b_or(cmp("lt", x, N.R0), b_and(cmp("eq", x, N.R0), N.tobool(fn("b", "negz", x))))


@model("f64::is_sign_negative")
def _(c):
    x = c.val(0)
    return unknown(c) if N.isnan(x) is not N.FALSE else negbit(x)


@model("f64::is_sign_positive")
def _(c):
    x = c.val(0)
    return unknown(c) if N.isnan(x) is not N.FALSE else b_not(negbit(x))


@model("f64::signum")
def _(c):
    x = c.val(0)
    return ite(N.isnan(x), x, ite(negbit(x), N.const_r(-1), N.R1))


@model("intrinsics::fabs", "intrinsics::fabsf64")
def _(c):
    return N.r_abs(c.val(0))


@model("intrinsics::minimum_number_nsz_f64", "intrinsics::minnumf64")
def _(c):
    return N.r_min(c.val(0), c.val(1))


@model("intrinsics::maximum_number_nsz_f64", "intrinsics::maxnumf64")
def _(c):
    return N.r_max(c.val(0), c.val(1))


@model("f64::midpoint")
def _(c):
    # the halves never overflow: midpoint is the rounded mean
    return div(add(c.val(0), c.val(1)), N.const_r(2))


@model("f64::copysign", "intrinsics::copysignf64")
def _(c):
    a, b = c.val(0), c.val(1)
    if N.MODE.fp:
        return fn("r", "copysign", a, b)
    if N.isnan(b) is not N.FALSE:
        return unknown(c)
    x = N.r_abs(a)
    return ite(negbit(b), neg(x), x)


@model("f64::rem_euclid")
def _(c):
    a, b = c.val(0), c.val(1)
    r = N.frem(a, b)
    return ite(cmp("lt", r, N.R0), add(r, N.r_abs(b)), r)


@model("f64::sin_cos")
def _(c):
    return mk("struct", "()", fn("r", "sin", c.val(0)), fn("r", "cos", c.val(0)))


@model("f64::to_radians")
def _(c):
    import math
    # the same real number as x * (PI / 180), PI being the f64 constant
    return mul(c.val(0), N.div(N.float_const(math.pi), N.float_const(180.0)))


@model("f64::to_degrees")
def _(c):
    import math
    return mul(c.val(0), N.div(N.float_const(180.0), N.float_const(math.pi)))


@model("f64::is_nan")
def _(c):
    return N.isnan(c.val(0))


@model("f64::is_infinite")
def _(c):
    return N.isinf(c.val(0))


@model("f64::is_finite")
def _(c):
    x = c.val(0)
    return b_and(b_not(N.isnan(x)), b_not(N.isinf(x)))


@model("f64::to_bits")
def _(c):
    return fn("i", "to_bits", c.val(0))


@model("f64::total_cmp", "PartialOrd::partial_cmp", "Ord::cmp", "::partial_cmp", "::cmp")
def _(c):
    I = c.I
    a, b = c.val(0), c.val(1)
    t = I.ty(c.dty)
    part = not t["name"].endswith("cmp::Ordering")
    oty = c.dty if not part else t["a"][0]
    if a.op == "struct" and b.op == "struct" and a.args[0] == "()" and len(a.args) == len(b.args) and \
            all(sort_of(x) in ("i", "r") and sort_of(y) in ("i", "r") for x, y in zip(a.args[1:], b.args[1:])):
        r = mk("var", oty, 1)
        r = wrap_some(c.dty, r) if part else r
        for x, y in list(zip(a.args[1:], b.args[1:]))[::-1]:
            lo, hi = mk("var", oty, 0), mk("var", oty, 2)
            if part:
                lo, hi = wrap_some(c.dty, lo), wrap_some(c.dty, hi)
            r = ite(cmp("lt", x, y), lo, ite(cmp("gt", x, y), hi, r))
            if part and sort_of(x) == "r" and N.MODE.nan:
                r = ite(b_or(N.isnan(x), N.isnan(y)), mk("var", c.dty, 0), r)
        return r
    if sort_of(a) not in ("i", "r") or sort_of(b) not in ("i", "r"):
        return unknown(c)
    tie = mk("var", oty, 1)
    if norm(c.fnr["def"]).endswith("total_cmp"):
        if N.isnan(a) is not N.FALSE or N.isnan(b) is not N.FALSE:
            return unknown(c)
        p, q = negbit(a), negbit(b)
        tie = ite(b_and(p, b_not(q)), mk("var", oty, 0), ite(b_and(q, b_not(p)), mk("var", oty, 2), tie))
    r = ite(cmp("lt", a, b), mk("var", oty, 0), ite(cmp("gt", a, b), mk("var", oty, 2), tie))
    if part:
        nn = b_or(N.isnan(a), N.isnan(b)) if sort_of(a) == "r" and N.MODE.nan else N.FALSE
        return ite(nn, mk("var", c.dty, 0), wrap_some(c.dty, r))
    return r


def wrap_some(t, v):
    return mk("var", t, 1, v)


@model("PartialOrd::lt", "::lt")
def _(c):
    return order(c, "lt")


@model("PartialOrd::le", "::le")
def _(c):
    return order(c, "le")


@model("PartialOrd::gt", "::gt")
def _(c):
    return order(c, "gt")


@model("PartialOrd::ge", "::ge")
def _(c):
    return order(c, "ge")


def order(c, op):
    a, b = c.val(0), c.val(1)
    if a.op == "struct" and a.args[0] == "()" and b.op == "struct":
        xs = list(zip(a.args[1:], b.args[1:]))
        if not all(sort_of(x) in ("i", "r") and sort_of(y) in ("i", "r") for x, y in xs):
            return unknown(c)
        r = N.boolean(op in ("le", "ge"))
        st = "lt" if op in ("lt", "le") else "gt"
        for x, y in xs[::-1]:
            r = b_or(cmp(st, x, y), b_and(cmp("eq", x, y), r))
        return r
    if sort_of(a) not in ("i", "r", "b") or sort_of(b) not in ("i", "r", "b"):
        return unknown(c)
    return cmp(op, a, b)


# arithmetic on references
for _n, _g in (("add", add), ("sub", sub), ("mul", mul), ("div", div), ("rem", N.frem)):
    def _op(c, g=_g):
        a, b = c.val(0), c.val(1)
        if sort_of(a) == "r" and sort_of(b) == "r":
            return g(a, b)
        if sort_of(a) == "i" and sort_of(b) == "i" and g in (add, sub, mul):
            if g is sub and not (N.nonneg(a) and N.nonneg(b)):
                pass
            return g(a, b)
        return unknown(c)

    def _as(c, g=_op):
        c.write(0, g(c))
        return N.UNIT
    T = _n.capitalize()
    M["%s::%s" % (T, _n)] = _op
    M["%sAssign::%s_assign" % (T, _n)] = _as


@model("Neg::neg")
def _(c):
    a = c.val(0)
    return neg(a) if sort_of(a) in ("i", "r") else unknown(c)


def deep_eq(I, a, b):
    if a is N.BOT or b is N.BOT:
        return N.BOT
    if a.op == "ite":
        return ite(N.atomb(a.args[0]), deep_eq(I, a.args[1], b), deep_eq(I, a.args[2], b)) if sort_of(a) not in ("i", "r", "b") else cmp("eq", a, b)
    if b.op == "ite":
        return deep_eq(I, b, a) if sort_of(b) not in ("i", "r", "b") else cmp("eq", a, b)
    if a.op == "struct" and b.op == "struct":
        r = N.TRUE
        for x, y in zip(a.args[1:], b.args[1:]):
            r = b_and(r, deep_eq(I, x, y))
        return r
    if a.op == "var" and b.op == "var":
        if a.args[1] != b.args[1]:
            return N.FALSE
        r = N.TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = b_and(r, deep_eq(I, x, y))
        return r
    if a.op == "vec":
        raise Unsupported("vec eq")
    return cmp("eq", a, b)


def vec_eq(c, a, b):
    """equality of two vectors: the same length and no position that differs"""
    def body(x, acc, st):
        y = cget(b.args[1], acc[0])
        return [add(acc[0], N.I1)], b_not(deep_eq(c.I, x, y))
    it = mk("struct", "$slice", a, N.I0, a.args[0])
    same = cmp("eq", a.args[0], b.args[0])
    if same is N.FALSE:
        return same
    _, stopped = iter_loop(c, it, [N.I0], body)
    return b_and(same, b_not(stopped))


@model("PartialEq::eq", "::eq")
def _(c):
    a, b = c.val(0), c.val(1)
    if a.op == "vec" and b.op == "vec":
        return vec_eq(c, a, b)
    return deep_eq(c.I, a, b)


@model("PartialEq::ne", "::ne")
def _(c):
    a, b = c.val(0), c.val(1)
    if a.op == "vec" and b.op == "vec":
        return b_not(vec_eq(c, a, b))
    return b_not(deep_eq(c.I, a, b))


@model("Ord::max", "cmp::max")
def _(c):
    a, b = c.val(0), c.val(1)
    return ite(cmp("ge", b, a), b, a)


@model("Ord::min", "cmp::min")
def _(c):
    a, b = c.val(0), c.val(1)
    return ite(cmp("lt", b, a), b, a)


@model("Ord::clamp")
def _(c):
    x, a, b = c.val(0), c.val(1), c.val(2)
    return ite(cmp("lt", x, a), a, ite(cmp("gt", x, b), b, x))


@model("Ordering::is_lt")
def _(c):
    return cmp("eq", c.I.disc_value(c.val(0)), const_i(255))


@model("Ordering::is_gt")
def _(c):
    return cmp("eq", c.I.disc_value(c.val(0)), const_i(1))


@model("Ordering::is_eq")
def _(c):
    return cmp("eq", c.I.disc_value(c.val(0)), const_i(0))


# ---------------------------------------------------------------- integers
@model("i32::abs", "i64::abs", "isize::abs")
def _(c):
    a = c.val(0)
    return ite(cmp("lt", a, N.I0), neg(a), a)


@model("i32::signum", "i64::signum", "isize::signum")
def _(c):
    a = c.val(0)
    return ite(cmp("lt", a, N.I0), const_i(-1), ite(cmp("gt", a, N.I0), N.I1, N.I0))


@model("i32::pow", "usize::pow", "u32::pow", "i64::pow", "u64::pow")
def _(c):
    a, b = c.val(0), c.val(1)
    if a.op == "num" and b.op == "num" and 0 <= N.num(b) < 64:
        return const_i(int(N.num(a)) ** int(N.num(b)))
    if b.op == "num" and 0 <= N.num(b) <= 8:
        r = N.I1
        for _ in range(int(N.num(b))):
            r = mul(r, a)
        return r
    return fn("i", "ipow", a, b)


@model("intrinsics::saturating_add", "usize::saturating_add", "u32::saturating_add", "usize::wrapping_add", "i32::wrapping_add", "intrinsics::wrapping_add", "u32::wrapping_add", "i32::saturating_add")
def _(c):
    return add(c.val(0), c.val(1))


@model("intrinsics::wrapping_sub", "usize::wrapping_sub", "i32::wrapping_sub", "i32::saturating_sub", "u32::wrapping_sub")
def _(c):
    a, b = c.val(0), c.val(1)
    t = c.I.ty(c.dty)
    if t["k"] == "uint":
        return ite(cmp("ge", a, b), sub(a, b), add(sub(a, b), const_i(2 ** t["bits"])))
    return sub(a, b)


@model("i32::unsigned_abs", "i64::unsigned_abs")
def _(c):
    a = c.val(0)
    return ite(cmp("lt", a, N.I0), neg(a), a)


@model("usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub", "intrinsics::saturating_sub")
def _(c):
    a, b = c.val(0), c.val(1)
    return ite(cmp("ge", a, b), sub(a, b), N.I0)


@model("usize::checked_sub")
def _(c):
    a, b = c.val(0), c.val(1)
    return opt(c, cmp("ge", a, b), sub(a, b))


@model("usize::checked_add", "i32::checked_add", "i32::checked_sub", "usize::checked_mul")
def _(c):
    a, b = c.val(0), c.val(1)
    n = c.fnr["def"]
    return opt(c, N.TRUE, {"add": add, "sub": sub, "mul": mul}[n.split("checked_")[1]](a, b))


@model("usize::wrapping_add", "i32::wrapping_add")
def _(c):
    return add(c.val(0), c.val(1))


@model("i32::rem_euclid", "usize::rem_euclid", "i64::rem_euclid")
def _(c):
    a, b = c.val(0), c.val(1)
    r = N.irem(a, b)
    return ite(cmp("lt", r, N.I0), add(r, b), r)


@model("usize::is_multiple_of")
def _(c):
    return cmp("eq", N.irem(c.val(0), c.val(1)), N.I0)


@model("usize::abs_diff", "i32::abs_diff")
def _(c):
    a, b = c.val(0), c.val(1)
    return ite(cmp("ge", a, b), sub(a, b), sub(b, a))


# ---------------------------------------------------------------- bool / mem / option
@model("mem::swap")
def _(c):
    x, y = c.val(0), c.val(1)
    c.write(0, y)
    c.write(1, x)
    return N.UNIT


@model("mem::replace")
def _(c):
    x = c.val(0)
    c.write(0, c.val(1))
    return x


@model("mem::take")
def _(c):
    x = c.val(0)
    t = c.I.ty(c.dty)
    c.write(0, default_value(c.I, c.dty))
    return x


def default_value(I, ty):
    t = I.ty(ty)
    k = t["k"]
    if k == "float":
        return N.R0
    if k in ("int", "uint", "char"):
        return N.I0
    if k == "bool":
        return N.FALSE
    if I.is_vec(t) and k != "array":
        return mk("vec", N.I0, N.cundef(), I.elem(t))
    if k == "enum" and t["name"].endswith("Option"):
        return mk("var", ty, 0)
    if k == "tuple":
        return mk("struct", "()", *[default_value(I, e) for e in t["e"]])
    raise Unsupported("default of " + str(t)[:60])


@model("Default::default")
def _(c):
    key = c.fnr["inst"]
    if key in c.I.p.fns:
        return c.I.call_fn(key, c.a, c.st)
    return default_value(c.I, c.dty)


@model("Clone::clone", "ToOwned::to_owned", "Deref::deref", "AsRef::as_ref", "Borrow::borrow",
       "Into::into", "From::from", "Vec::as_slice", "IntoIterator::into_iter_id", "hint::must_use", "Box::new", "convert::identity",
       "slice::to_vec", "Vec::into_boxed_slice", "slice::into_vec", "String::as_str", "ToString::to_string", "vec::into_vec",
       "boxed::box_assume_init_into_vec_unsafe", "hint::black_box", "intrinsics::black_box")
def _(c):
    n = norm(c.fnr["def"])
    if n in ("Clone::clone", "Into::into", "From::from", "ToString::to_string") and c.fnr["local"]:
        return c.I.call_fn(c.fnr["inst"], c.a, c.st)
    v = c.val(0)
    if n in ("From::from", "Into::into"):
        T = c.I.ty(c.dty)
        if T["k"] == "float" and sort_of(v) == "i":
            return N.i2f(v)
        if T["k"] in ("int", "uint") and sort_of(v) == "b":
            return ite(N.tobool(v), N.I1, N.I0)
        if T["k"] not in ("float", "int", "uint", "struct", "ref", "char"):
            return unknown(c)
    if n == "ToString::to_string" and sort_of(v) not in ("str",):
        m = re.match(r"<(.*) as std::string::ToString>::to_string$", c.fnr["inst"])
        return shown(c, m.group(1) if m else "", v) if v.op != "struct" or v.args[0] != "$string" else v
    return v


@model("DerefMut::deref_mut", "Vec::as_mut_slice", "AsMut::as_mut", "BorrowMut::borrow_mut")
def _(c):
    return c.a[0]


@model("mem::drop", "mem::forget")
def _(c):
    return N.UNIT


@model("Option::unwrap", "Option::expect", "Result::unwrap", "Result::expect")
def _(c):
    I = c.I
    v = c.val(0)
    res = "Result" in norm(c.fnr["def"])
    good = cmp("eq", I.disc_value(v), const_i(0 if res else 1))
    c.oblige("unwrap", good)
    return I.downcast_field(v, 0 if res else 1, 0)


@model("Option::is_some")
def _(c):
    return cmp("eq", c.I.disc_value(c.val(0)), N.I1)


@model("Option::is_none")
def _(c):
    return cmp("eq", c.I.disc_value(c.val(0)), N.I0)


@model("Option::unwrap_or")
def _(c):
    I = c.I
    v = c.val(0)
    return ite(cmp("eq", I.disc_value(v), N.I1), I.downcast_field(v, 1, 0), c.val(1))


@model("Option::unwrap_or_default")
def _(c):
    I = c.I
    v = c.val(0)
    return ite(cmp("eq", I.disc_value(v), N.I1), I.downcast_field(v, 1, 0), default_value(I, c.dty))


@model("Option::unwrap_or_else")
def _(c):
    I = c.I
    v = c.val(0)
    return ite(cmp("eq", I.disc_value(v), N.I1), I.downcast_field(v, 1, 0), call_closure(c, c.a[1], []))


@model("Option::as_ref", "Option::as_deref", "Option::cloned", "Option::copied")
def _(c):
    # retype the variants to the destination Option type
    return retag(c.I, c.val(0), c.dty)


def retag(I, v, ty):
    if v.op == "ite":
        return ite(N.atomb(v.args[0]), retag(I, v.args[1], ty), retag(I, v.args[2], ty))
    if v is N.BOT:
        return v
    return mk("var", ty, v.args[1], *v.args[2:])


@model("Option::as_mut")
def _(c):
    I = c.I
    v = c.val(0)
    m = c.a[0]
    some = cmp("eq", I.disc_value(v), N.I1)
    p = I.mref_ext(I.mref_ext(m, ("dc", 1)), ("f", 0))
    return opt(c, some, p)


@model("Option::take")
def _(c):
    v = c.val(0)
    c.write(0, mk("var", enum_ty(v), 0))
    return v


@model("Option::replace", "Option::insert")
def _(c):
    v = c.val(0)
    c.write(0, mk("var", enum_ty(v), 1, c.val(1)))
    return v


def enum_ty(v):
    while v.op == "ite":
        v = v.args[1] if v.args[1] is not N.BOT else v.args[2]
    return v.args[0]


@model("Option::map")
def _(c):
    I = c.I
    v = c.val(0)
    some = cmp("eq", I.disc_value(v), N.I1)
    if some is N.FALSE:
        return mk("var", c.dty, 0)
    return opt(c, some, call_closure(c, c.a[1], [I.downcast_field(v, 1, 0)]))


@model("Option::map_or")
def _(c):
    I = c.I
    v = c.val(0)
    some = cmp("eq", I.disc_value(v), N.I1)
    return ite(some, call_closure(c, c.a[2], [I.downcast_field(v, 1, 0)]) if some is not N.FALSE else N.BOT, c.val(1))


@model("Option::map_or_else")
def _(c):
    I = c.I
    v = c.val(0)
    some = cmp("eq", I.disc_value(v), N.I1)
    return ite(some, call_closure(c, c.a[2], [I.downcast_field(v, 1, 0)]) if some is not N.FALSE else N.BOT, call_closure(c, c.a[1], []))


@model("Option::is_some_and")
def _(c):
    I = c.I
    v = c.val(0)
    some = cmp("eq", I.disc_value(v), N.I1)
    return b_and(some, N.tobool(call_closure(c, c.a[1], [I.downcast_field(v, 1, 0)])) if some is not N.FALSE else N.FALSE)


@model("Option::is_none_or")
def _(c):
    I = c.I
    v = c.val(0)
    some = cmp("eq", I.disc_value(v), N.I1)
    return b_or(b_not(some), N.tobool(call_closure(c, c.a[1], [I.downcast_field(v, 1, 0)])) if some is not N.FALSE else N.TRUE)


@model("Option::and_then")
def _(c):
    I = c.I
    v = c.val(0)
    some = cmp("eq", I.disc_value(v), N.I1)
    none = mk("var", c.dty, 0)
    return ite(some, call_closure(c, c.a[1], [I.downcast_field(v, 1, 0)]), none) if some is not N.FALSE else none


@model("Option::filter")
def _(c):
    I = c.I
    v = c.val(0)
    some = cmp("eq", I.disc_value(v), N.I1)
    x = I.downcast_field(v, 1, 0)
    if some is N.FALSE:
        return v
    return opt(c, b_and(some, N.tobool(call_closure(c, c.a[1], [x]))), x)


@model("Option::ok_or")
def _(c):
    I = c.I
    v = c.val(0)
    some = cmp("eq", I.disc_value(v), N.I1)
    return ite(some, mk("var", c.dty, 0, I.downcast_field(v, 1, 0)), mk("var", c.dty, 1, c.val(1)))


@model("Option::or")
def _(c):
    v = c.val(0)
    return ite(cmp("eq", c.I.disc_value(v), N.I1), v, c.val(1))


@model("bool::then_some")
def _(c):
    return opt(c, N.tobool(c.val(0)), c.val(1))


@model("bool::then")
def _(c):
    b = N.tobool(c.val(0))
    if b is N.FALSE:
        return mk("var", c.dty, 0)
    return opt(c, b, call_closure(c, c.a[1], []))


@model("Try::branch")
def _(c):
    I = c.I
    v = c.val(0)
    t = I.ty(c.dty)  # ControlFlow<B, C>
    src = I.ty(enum_ty(v))
    if src["name"].endswith("Option"):
        some = cmp("eq", I.disc_value(v), N.I1)
        res_ty = t["a"][0]
        return ite(some, mk("var", c.dty, 0, I.downcast_field(v, 1, 0)), mk("var", c.dty, 1, mk("var", res_ty, 0)))
    ok = cmp("eq", I.disc_value(v), N.I0)
    return ite(ok, mk("var", c.dty, 0, I.downcast_field(v, 0, 0)), mk("var", c.dty, 1, mk("var", t["a"][0], 1, I.downcast_field(v, 1, 0))))


@model("FromResidual::from_residual")
def _(c):
    I = c.I
    t = I.ty(c.dty)
    if t["name"].endswith("Option"):
        return mk("var", c.dty, 0)
    return mk("var", c.dty, 1, I.downcast_field(c.val(0), 1, 0))


# ---------------------------------------------------------------- vectors
def as_vec(v):
    if v.op == "vec":
        return v
    if v is N.BOT:
        return v
    if v.op == "str":
        cc = N.cundef()
        for i, ch in enumerate(v.args[0]):
            cc = cstore(cc, const_i(i), const_i(ord(ch)))
        return mk("vec", const_i(len(v.args[0])), cc, None)
    raise Unsupported("not a vec: " + v.op)


@model("Vec::new")
def _(c):
    return mk("vec", N.I0, N.cundef(), c.I.ty(c.dty)["a"][0])


@model("Vec::with_capacity")
def _(c):
    return mk("vec", N.I0, N.cundef(), c.I.ty(c.dty)["a"][0])


@model("vec::from_elem")
def _(c):
    v = c.val(0)
    return mk("vec", c.val(1), N.lam(N.fresh("i"), v), c.I.ty(c.dty)["a"][0])


@model("Vec::len", "slice::len")
def _(c):
    return vlen(c.val(0))


@model("Vec::is_empty", "slice::is_empty")
def _(c):
    n = vlen(c.val(0))
    return cmp("eq", n, N.I0) if N.nonneg(n) or n.op == "poly" else cmp("lt", n, N.I1)


@model("Vec::push")
def _(c):
    v = as_vec(c.val(0))
    c.write(0, mk("vec", add(v.args[0], N.I1), cstore(v.args[1], v.args[0], c.a[1]), v.args[2]))
    return N.UNIT


@model("Vec::pop")
def _(c):
    v = as_vec(c.val(0))
    ne = cmp("gt", v.args[0], N.I0)
    last = sub(v.args[0], N.I1)
    r = opt(c, ne, cget(v.args[1], last))
    c.write(0, mk("vec", ite(ne, last, N.I0), v.args[1], v.args[2]))
    return r


@model("Vec::clear")
def _(c):
    v = as_vec(c.val(0))
    c.write(0, mk("vec", N.I0, N.cundef(), v.args[2]))
    return N.UNIT


@model("Vec::truncate")
def _(c):
    v = as_vec(c.val(0))
    n = c.val(1)
    c.write(0, mk("vec", ite(cmp("lt", n, v.args[0]), n, v.args[0]), v.args[1], v.args[2]))
    return N.UNIT


@model("Vec::reserve", "Vec::shrink_to_fit")
def _(c):
    return N.UNIT


@model("Vec::insert")
def _(c):
    v = as_vec(c.val(0))
    i = c.val(1)
    c.oblige("index", cmp("le", i, v.args[0]))
    k = N.fresh("i")
    body = ite(cmp("lt", k, i), cget(v.args[1], k), ite(cmp("eq", k, i), c.a[2], cget(v.args[1], sub(k, N.I1))))
    c.write(0, mk("vec", add(v.args[0], N.I1), N.lam(k, body), v.args[2]))
    return N.UNIT


@model("Vec::remove")
def _(c):
    v = as_vec(c.val(0))
    i = c.val(1)
    c.oblige("index", cmp("lt", i, v.args[0]))
    k = N.fresh("i")
    body = ite(cmp("lt", k, i), cget(v.args[1], k), cget(v.args[1], add(k, N.I1)))
    r = cget(v.args[1], i)
    c.write(0, mk("vec", sub(v.args[0], N.I1), N.lam(k, body), v.args[2]))
    return r


@model("Vec::append", "Vec::extend_from_slice")
def _(c):
    v = as_vec(c.val(0))
    w = as_vec(c.val(1))
    c.write(0, concat(v, w))
    if norm(c.fnr["def"]).endswith("append"):
        c.write(1, mk("vec", N.I0, N.cundef(), w.args[2]))
    return N.UNIT


def concat(v, w):
    k = N.fresh("i")
    if w.args[0].op == "num" and N.num(w.args[0]) <= 8:
        cc = v.args[1]
        for i in range(int(N.num(w.args[0]))):
            cc = cstore(cc, add(v.args[0], const_i(i)), cget(w.args[1], const_i(i)))
        return mk("vec", add(v.args[0], w.args[0]), cc, v.args[2])
    body = ite(cmp("lt", k, v.args[0]), cget(v.args[1], k), cget(w.args[1], sub(k, v.args[0])))
    return mk("vec", add(v.args[0], w.args[0]), N.lam(k, body), v.args[2])


@model("Extend::extend")
def _(c):
    it = to_iter(c, c.a[1])
    v = as_vec(c.val(0))

    def body(item, acc, st):
        w = acc[0]
        return [mk("vec", add(w.args[0], N.I1), cstore(w.args[1], w.args[0], item), w.args[2])], N.FALSE
    acc, _ = iter_loop(c, it, [v], body)
    c.write(0, acc[0])
    return N.UNIT


@model("Vec::swap", "slice::swap")
def _(c):
    v = as_vec(c.val(0))
    i, j = c.val(1), c.val(2)
    c.oblige("index", b_and(cmp("lt", i, v.args[0]), cmp("lt", j, v.args[0])))
    a, b = cget(v.args[1], i), cget(v.args[1], j)
    c.write(0, mk("vec", v.args[0], cstore(cstore(v.args[1], i, b), j, a), v.args[2]))
    return N.UNIT


@model("slice::reverse")
def _(c):
    v = as_vec(c.val(0))
    k = N.fresh("i")
    body = cget(v.args[1], sub(sub(v.args[0], N.I1), k))
    c.write(0, mk("vec", v.args[0], N.lam(k, body), v.args[2]))
    return N.UNIT


@model("slice::fill")
def _(c):
    v = as_vec(c.val(0))
    c.write(0, mk("vec", v.args[0], N.lam(N.fresh("i"), c.val(1)), v.args[2]))
    return N.UNIT


@model("slice::clone_from_slice", "slice::copy_from_slice")
def _(c):
    v = as_vec(c.val(0))
    w = as_vec(c.val(1))
    c.oblige("slice-len", cmp("eq", v.args[0], w.args[0]))
    c.write(0, mk("vec", v.args[0], w.args[1], v.args[2]))
    return N.UNIT


@model("slice::rotate_left", "slice::rotate_right")
def _(c):
    v = as_vec(c.val(0))
    n = v.args[0]
    m = c.val(1)
    if norm(c.fnr["def"]).endswith("right"):
        m = sub(n, m)
    k = N.fresh("i")
    j = add(k, m)
    body = ite(cmp("lt", j, n), cget(v.args[1], j), cget(v.args[1], sub(j, n)))
    c.write(0, mk("vec", n, N.lam(k, body), v.args[2]))
    return N.UNIT


def range_bounds(c, r, n):
    """bounds of a Range-like value used as an index"""
    if r.op == "struct":
        nm = r.args[0]
        if nm == "$range" or nm.endswith("ops::Range"):
            return r.args[1], r.args[2]
        if nm == "$ri" or nm.endswith("RangeInclusive"):
            return r.args[1], r.args[2]
        if nm.endswith("RangeFrom"):
            return r.args[1], n
        if nm.endswith("RangeTo"):
            return N.I0, r.args[1]
        if nm.endswith("RangeToInclusive"):
            return N.I0, add(r.args[1], N.I1)
        if nm.endswith("RangeFull"):
            return N.I0, n
    raise Unsupported("range index")


@model("Index::index")
def _(c):
    if c.fnr["local"]:
        return c.I.call_fn(c.fnr["inst"], c.a, c.st)
    v = c.val(0)
    i = c.val(1)
    if v is N.BOT:
        return v
    if i.op == "struct":
        n = vlen(v)
        lo, hi = range_bounds(c, i, n)
        c.oblige("slice", b_and(cmp("le", lo, hi), cmp("le", hi, n)))
        return c.I.slice_value(v, lo, hi)
    c.oblige("index", b_and(cmp("lt", i, vlen(v)), cmp("ge", i, N.I0)))
    return c.I.index_value(v, i)


@model("IndexMut::index_mut")
def _(c):
    if c.fnr["local"]:
        return c.I.call_fn(c.fnr["inst"], c.a, c.st)
    i = c.val(1)
    v = c.val(0)
    if v is N.BOT:
        return v
    if i.op == "struct":
        n = vlen(v)
        lo, hi = range_bounds(c, i, n)
        c.oblige("slice", b_and(cmp("le", lo, hi), cmp("le", hi, n)))
        return c.I.mref_ext(c.a[0], ("slice", (lo, hi)))
    c.oblige("index", b_and(cmp("lt", i, vlen(v)), cmp("ge", i, N.I0)))
    return c.I.mref_ext(c.a[0], ("i", i))


@model("slice::contains")
def _(c):
    v, y = as_vec(c.val(0)), c.val(1)

    def body(x, a, st):
        return [], deep_eq(c.I, x, y)
    _, stopped = iter_loop(c, mk("struct", "$slice", v, N.I0, v.args[0]), [], body, False)
    return stopped


@model("slice::split_first", "slice::split_last")
def _(c):
    v = as_vec(c.val(0))
    n = v.args[0]
    t = c.I.ty(c.dty)
    if norm(c.fnr["def"]).endswith("first"):
        x, w = cget(v.args[1], N.I0), c.I.slice_value(v, N.I1, n)
    else:
        x, w = cget(v.args[1], sub(n, N.I1)), c.I.slice_value(v, N.I0, sub(n, N.I1))
    return opt(c, cmp("ge", n, N.I1), mk("struct", "()", x, w))


@model("slice::split_at")
def _(c):
    v, k = as_vec(c.val(0)), c.val(1)
    c.oblige("slice", cmp("le", k, v.args[0]))
    return mk("struct", "()", c.I.slice_value(v, N.I0, k), c.I.slice_value(v, k, v.args[0]))


@model("slice::concat")
def _(c):
    v = as_vec(c.val(0))
    if v.args[0].op != "num" or not 1 <= N.num(v.args[0]) <= 4:
        return unknown(c)
    w = None
    for i in range(int(N.num(v.args[0]))):
        x = cget(v.args[1], const_i(i))
        if x.op != "vec":
            return unknown(c)
        w = x if w is None else concat(w, x)
    return w


@model("Vec::splice", "Vec::extract_if")
def _(c):
    raise Unsupported("call of " + c.fnr["def"])     # writes when the returned iterator is dropped


@model("Vec::resize")
def _(c):
    v, n = as_vec(c.val(0)), c.val(1)
    k = N.fresh("i")
    c.write(0, mk("vec", n, N.lam(k, ite(cmp("lt", k, v.args[0]), cget(v.args[1], k), c.a[2])), v.args[2]))
    return N.UNIT


@model("Vec::split_off")
def _(c):
    v, k = as_vec(c.val(0)), c.val(1)
    c.oblige("slice", cmp("le", k, v.args[0]))
    c.write(0, mk("vec", k, v.args[1], v.args[2]))
    return c.I.slice_value(v, k, v.args[0])


@model("Vec::retain")
def _(c):
    v = as_vec(c.val(0))
    z = mk("vec", N.I0, N.cundef(), v.args[2])

    def body(x, a, st):
        w = a[0]
        keep = N.tobool(call_closure(c, c.a[1], [x], st))
        return [mk("vec", ite(keep, add(w.args[0], N.I1), w.args[0]), ite(keep, cstore(w.args[1], w.args[0], x), w.args[1]), w.args[2])], N.FALSE
    acc, _ = iter_loop(c, mk("struct", "$slice", v, N.I0, v.args[0]), [z], body, False)
    c.write(0, acc[0])
    return N.UNIT


def dedup(c, same):
    v = as_vec(c.val(0))
    z = mk("vec", N.I0, N.cundef(), v.args[2])

    def body(x, a, st):
        w = a[0]
        n = w.args[0]
        keep = b_or(cmp("lt", n, N.I1), b_not(same(cget(w.args[1], sub(n, N.I1)), x, st)))
        return [mk("vec", ite(keep, add(n, N.I1), n), ite(keep, cstore(w.args[1], n, x), w.args[1]), w.args[2])], N.FALSE
    acc, _ = iter_loop(c, mk("struct", "$slice", v, N.I0, v.args[0]), [z], body, False)
    c.write(0, acc[0])
    return N.UNIT


@model("Vec::dedup")
def _(c):
    return dedup(c, lambda p, x, st: deep_eq(c.I, p, x))


@model("Vec::dedup_by")
def _(c):
    return dedup(c, lambda p, x, st: N.tobool(call_closure(c, c.a[1], [x, p], st)))


@model("slice::get", "Vec::get")
def _(c):
    v = c.val(0)
    i = c.val(1)
    return opt(c, cmp("lt", i, vlen(v)), c.I.index_value(v, i))


@model("slice::get_mut")
def _(c):
    v = c.val(0)
    i = c.val(1)
    return opt(c, cmp("lt", i, vlen(v)), c.I.mref_ext(c.a[0], ("i", i)))


@model("slice::first", "Vec::first")
def _(c):
    v = c.val(0)
    return opt(c, cmp("gt", vlen(v), N.I0), c.I.index_value(v, N.I0))


@model("slice::last", "Vec::last")
def _(c):
    v = c.val(0)
    n = vlen(v)
    return opt(c, cmp("gt", n, N.I0), c.I.index_value(v, sub(n, N.I1)))


@model("slice::first_mut")
def _(c):
    v = c.val(0)
    return opt(c, cmp("gt", vlen(v), N.I0), c.I.mref_ext(c.a[0], ("i", N.I0)))


@model("slice::last_mut")
def _(c):
    v = c.val(0)
    n = vlen(v)
    return opt(c, cmp("gt", n, N.I0), c.I.mref_ext(c.a[0], ("i", sub(n, N.I1))))


@model("Box::new_uninit")
def _(c):
    I = c.I
    I.fid += 1
    loc = ("heap", I.fid)
    t = I.ty(I.ty(c.dty)["a"][0])
    # Box<MaybeUninit<[T; N]>>
    inner = t["a"][0] if t.get("a") else None
    c.st[loc] = N.BOT
    return mk("mref", loc, ())


# ---------------------------------------------------------------- strings
@model("String::len", "str::len")
def _(c):
    v = c.val(0)
    if v.op == "str":
        return const_i(len(v.args[0].encode()))
    return fn("i", "slen", v)


@model("String::is_empty", "str::is_empty")
def _(c):
    v = c.val(0)
    if v.op == "str":
        return N.boolean(v.args[0] == "")
    return cmp("eq", fn("i", "slen", v), N.I0)


@model("String::new")
def _(c):
    return mk("str", "")


def str_vec(c, v):
    """the character sequence of a string value"""
    if v.op == "str":
        return N.as_string(v).args[1]
    if v.op == "struct" and v.args[0] == "$string":
        return v.args[1]
    return mk("vec", fn("i", "slen", v), mk("cbase", (v, "chars"), ("c", char_ty(c.I))), char_ty(c.I))


@model("String::push")
def _(c):
    v = c.val(0)

    def one(x):
        if x.op == "fn" and x.args[1] in ("scat", "show", "digits") and c.a[1].op == "num":
            return scat(x, mk("str", chr(int(N.num(c.a[1])))))
        w = str_vec(c, x)
        return mk("struct", "$string", mk("vec", add(w.args[0], N.I1), cstore(w.args[1], w.args[0], c.a[1]), w.args[2]))
    c.write(0, N.lift1("strpush%d" % c.a[1].key if isinstance(c.a[1].key, int) else "strpush" + str(c.a[1].key), one, v))
    return N.UNIT


@model("str::chars")
def _(c):
    w = str_vec(c, c.val(0))
    return mk("struct", "$slice", w, N.I0, w.args[0])


def char_ty(I):
    for i, t in enumerate(I.p.types):
        if t["k"] == "char":
            return i
    raise Unsupported("no char type")


# ---------------------------------------------------------------- text
def unbuilt(x):
    """a text built of constant characters as a constant"""
    if x.op == "struct" and x.args[0] == "$string" and x.args[1].op == "vec" and x.args[1].args[0].op == "num":
        cs = [cget(x.args[1].args[1], const_i(i)) for i in range(int(N.num(x.args[1].args[0])))]
        if all(y.op == "num" for y in cs):
            return mk("str", "".join(chr(int(N.num(y))) for y in cs))
    return x


def scat(a, b):
    """concatenation, associated to the left and of merged constants"""
    if a is N.BOT or b is N.BOT:
        return N.BOT
    if a.op == "ite" or b.op == "ite":
        return N.lift2("scat", scat, a, b)
    if b.op == "str" and b.args[0] == "":
        return a
    if a.op == "str" and a.args[0] == "":
        return b
    a, b = unbuilt(a), unbuilt(b)
    if any(x.op == "struct" for x in (a, b)):
        raise Unsupported("text built by characters")
    xs = list(a.args[2:]) if a.op == "fn" and a.args[1] == "scat" else [a]
    for x in (b.args[2:] if b.op == "fn" and b.args[1] == "scat" else (b,)):
        if x.op == "str" and xs[-1].op == "str":
            xs[-1] = mk("str", xs[-1].args[0] + x.args[0])
        else:
            xs.append(x)
    return xs[0] if len(xs) == 1 else mk("fn", "str", "scat", *xs)


def fmt_number(x):
    """the text `{}` gives a number"""
    if isinstance(x, float):
        if x != x:
            return "NaN"
        if x in (float("inf"), -float("inf")):
            return "inf" if x > 0 else "-inf"
        from decimal import Decimal
        r = format(Decimal(repr(x)), "f")
        return r[:-2] if r.endswith(".0") else r
    if x.denominator == 1:
        return str(int(x))
    return fmt_number(float(x)) if float(x) == x else "%d/%d" % (x.numerator, x.denominator)


def show_num(v):
    if v.op == "ite":
        return N.lift1("show", show_num, v)
    if v is N.BOT:
        return v
    if v.op == "nan":
        return mk("str", "NaN")
    if v.op == "num":
        return mk("str", fmt_number(N.num(v)))
    return mk("fn", "str", "show", v)


def _scats(*xs):
    r = mk("str", "")
    for x in xs:
        r = scat(r, x)
    return r


N.FN_REBUILD["scat"] = _scats
N.FN_REBUILD["show"] = show_num


def shown(c, ty, v):
    """what `{}` writes for a value of the type"""
    I = c.I
    ty = re.sub(r"^(&('\w+ )?(mut )?)+", "", ty)
    key = "<%s as std::fmt::Display>::fmt" % ty
    if key in I.p.fns:
        I.fid += 1
        loc = ("heap", "fmt%d" % I.fid)
        c.st[loc] = mk("str", "")
        I.call_fn(key, [v, mk("mref", loc, ())], c.st)
        return c.st[loc]
    if ty in ("std::string::String", "str"):
        return v
    if ty in ("f64", "i32", "usize", "u32", "i64", "u64"):
        return show_num(v)
    raise Unsupported("text of " + ty)


def digits(x, n):
    """the text of a number with a given number of decimals"""
    if x.op == "ite":
        return N.lift1("digits%d" % int(N.num(n)), lambda y: digits(y, n), x)
    if x is N.BOT:
        return x
    if x.op == "str":
        return mk("str", decimals(x.args[0], int(N.num(n))))
    return mk("fn", "str", "digits", x, n)


def decimals(t, n):
    from fractions import Fraction
    try:
        v = Fraction(t)
    except ValueError:
        return t if t in ("NaN", "inf", "-inf") else t[:n]
    q = round(v * 10 ** n)
    r = str(abs(q)).rjust(n + 1, "0")
    return ("-" if t.startswith("-") else "") + (r[:-n] + "." + r[-n:] if n else r)


N.FN_REBUILD["digits"] = digits


@model("Argument::new_display")
def _(c):
    m = re.search(r"new_display::<(.*)>$", c.fnr["inst"])
    try:
        return shown(c, m.group(1) if m else "", c.val(0))
    except Unsupported:
        return c.I.opaque_val("fmt", c.dty, ())


@model("Arguments::from_str", "Arguments::from_str_nonconst")
def _(c):
    return c.val(0)


@model("Arguments::new")
def _(c):
    """the pieces of a format string: a byte below 0x80 counts the literal bytes after it, 0xC0 stands for the next argument
    with no options, 0 ends"""
    t, av = as_vec(c.val(0)), as_vec(c.val(1))
    n = t.args[0]
    bs = []
    if n.op != "num":
        return c.I.opaque_val("fmt", c.dty, ())
    for i in range(int(N.num(n))):
        b = cget(t.args[1], const_i(i))
        if b.op != "num":
            return c.I.opaque_val("fmt", c.dty, ())
        bs.append(int(N.num(b)))
    out, i, k = mk("str", ""), 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out = scat(out, mk("str", bytes(bs[i:i + b]).decode("utf8")))
            i += b
        elif b == 0x80:
            w = bs[i] | bs[i + 1] << 8
            out = scat(out, mk("str", bytes(bs[i + 2:i + 2 + w]).decode("utf8")))
            i += 2 + w
        elif b & 0xC0 == 0xC0:
            prec = None
            if b & 1:                                     # flags
                fl = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
                if fl & 0x1FFFFF not in (0, 0x20) or fl >> 21 & 0x7F or b & 0x30:
                    return c.I.opaque_val("fmt", c.dty, ())
            if b & 2:
                return c.I.opaque_val("fmt", c.dty, ())   # a width: not modelled
            if b & 4:
                prec = bs[i] | bs[i + 1] << 8
                i += 2
            if b & 8:                                     # the argument's number given
                k = bs[i] | bs[i + 1] << 8
                i += 2
            x = cget(av.args[1], const_i(k))
            if prec is not None and (sort_of(x) == "str" or x.op == "ite"):
                x = digits(x, const_i(prec))
            if sort_of(x) != "str" and x is not N.BOT and x.op != "ite":
                return c.I.opaque_val("fmt", c.dty, ())
            out = scat(out, x)
            k += 1
        else:
            return c.I.opaque_val("fmt", c.dty, ())          # options: not modelled
    return out


@model("fmt::format")
def _(c):
    return c.val(0)


@model("Add::add")
def _(c):
    if c.dty is not None and c.I.is_string(c.I.ty(c.dty)) and sort_of(c.val(0)) == "str":
        return scat(c.val(0), c.val(1))
    return unknown(c)


@model("AddAssign::add_assign")
def _(c):
    if sort_of(c.val(0)) == "str" or sort_of(c.val(1)) == "str":
        c.write(0, scat(c.val(0), c.val(1)))
        return N.UNIT
    return unknown(c)


@model("slice::join", "slice::concat")
def _(c):
    v = as_vec(c.val(0))
    sep = c.val(1) if len(c.a) > 1 else mk("str", "")
    if c.dty is None or not c.I.is_string(c.I.ty(c.dty)) or v.args[0].op != "num":
        return unknown(c)
    out = mk("str", "")
    for i in range(int(N.num(v.args[0]))):
        x = cget(v.args[1], const_i(i))
        out = scat(scat(out, sep) if i else out, x)
    return out


@model("Formatter::write_fmt", "Formatter::write_str", "Write::write_fmt", "Write::write_str")
def _(c):
    c.write(0, scat(c.val(0), c.val(1)))
    return mk("var", c.dty, 0, N.UNIT)


@model("String::push_str")
def _(c):
    c.write(0, scat(c.val(0), c.val(1)))
    return N.UNIT


@model("methods::to_ascii_uppercase", "char::to_ascii_uppercase")
def _(c):
    v = c.val(0)
    if v.op == "num":
        return const_i(ord(chr(int(N.num(v))).upper()))
    if v.op == "ite":
        return N.lift1("upper", lambda x: const_i(ord(chr(int(N.num(x))).upper())) if x.op == "num" else fn("i", "upper", x), v)
    return fn("i", "upper", v)


# ---------------------------------------------------------------- iterators
@model("RangeInclusive::new")
def _(c):
    if sort_of(c.val(0)) == "r":
        return mk("struct", "$rif", c.val(0), c.val(1))
    return mk("struct", "$ri", c.val(0), add(c.val(1), N.I1))


@model("RangeInclusive::contains", "Range::contains", "RangeBounds::contains")
def _(c):
    r, x = c.val(0), c.val(1)
    if r.op == "struct" and r.args[0] == "$rif":
        return b_and(cmp("ge", x, r.args[1]), cmp("le", x, r.args[2]))
    if r.op == "struct" and (r.args[0] == "$ri"):
        if sort_of(x) == "r":
            raise Unsupported("float range")
        return b_and(cmp("ge", x, r.args[1]), cmp("lt", x, r.args[2]))
    if r.op == "struct" and r.args[0].endswith("ops::Range"):
        return b_and(cmp("ge", x, r.args[1]), cmp("lt", x, r.args[2]))
    raise Unsupported("contains")


@model("Rng::gen_range")
def _(c):
    """a draw from a half-open range of integers: any value in it (a function of the bounds only: obligations that
    compare two draws are not stated)"""
    r = c.val(1)
    if r.op == "struct" and (r.args[0] == "$ri" or r.args[0].endswith("ops::Range")) and sort_of(r.args[1]) == "i":
        lo, hi = r.args[1], r.args[2]
        c.oblige("index", cmp("lt", lo, hi))
        return add(lo, N.urem(fn("i", "draw", lo, hi), sub(hi, lo)))
    raise Unsupported("gen_range")


def is_iter(v):
    return v.op == "struct" and (v.args[0].startswith("$") and v.args[0] != "$rif" or v.args[0].endswith("ops::Range"))


def to_iter(c, a):
    """IntoIterator::into_iter"""
    if a.op == "mref":
        v = c.I.deref(c.st, a)
        if is_iter(v):
            return a
        if v.op == "vec":
            return mk("struct", "$mslice", a, N.I0, v.args[0])
        a = v
    if is_iter(a):
        return a
    if a.op == "vec":
        return mk("struct", "$slice", a, N.I0, a.args[0])
    if a.op == "ite" and sort_of(a) == "e":
        # Option as iterator: at most one element
        I = c.I
        some = cmp("eq", I.disc_value(a), N.I1)
        x = I.downcast_field(a, 1, 0)
        w = mk("vec", ite(some, N.I1, N.I0), N.lam(N.fresh("i"), x), None)
        return mk("struct", "$slice", w, N.I0, w.args[0])
    raise Unsupported("into_iter of " + a.op)


@model("IntoIterator::into_iter")
def _(c):
    return to_iter(c, c.a[0])


@model("slice::iter", "Vec::iter", "Vec::drain", "slice::iter_")
def _(c):
    v = as_vec(c.val(0))
    if norm(c.fnr["def"]).endswith("drain"):
        lo, hi = range_bounds(c, c.val(1), v.args[0])
        w = c.I.slice_value(v, lo, hi)
        k = N.fresh("i")
        body = ite(cmp("lt", k, lo), cget(v.args[1], k), cget(v.args[1], add(k, sub(hi, lo))))
        c.write(0, mk("vec", sub(v.args[0], sub(hi, lo)), N.lam(k, body), v.args[2]))
        v = w
    return mk("struct", "$slice", v, N.I0, v.args[0])


@model("slice::iter_mut", "Vec::iter_mut")
def _(c):
    v = c.val(0)
    return mk("struct", "$mslice", c.a[0], N.I0, vlen(v))


@model("slice::windows")
def _(c):
    v = as_vec(c.val(0))
    n = c.val(1)
    m = add(sub(v.args[0], n), N.I1)
    return mk("struct", "$win", v, N.I0, ite(cmp("ge", m, N.I0), m, N.I0), n)


@model("Iterator::enumerate")
def _(c):
    return mk("struct", "$enum", it0(c), N.I0)


def it0(c):
    a = c.a[0]
    if a.op == "mref":
        v = c.val(0)
        if is_iter(v):
            return v      # by-ref adaptor: consumed copy (approximation rejected by consumers needing it)
    return to_iter(c, a)


@model("Iterator::rev")
def _(c):
    return mk("struct", "$rev", it0(c))


@model("Iterator::map")
def _(c):
    return mk("struct", "$map", it0(c), c.a[1])


@model("Iterator::filter")
def _(c):
    return mk("struct", "$filter", it0(c), c.a[1])


@model("Iterator::zip")
def _(c):
    return mk("struct", "$zip", it0(c), to_iter(c, c.a[1]))


@model("Iterator::chain")
def _(c):
    return mk("struct", "$chain", it0(c), to_iter(c, c.a[1]))


@model("Iterator::copied", "Iterator::cloned", "Iterator::by_ref", "Iterator::peekable_", "Iterator::fuse", "Iterator::into_iter")
def _(c):
    if norm(c.fnr["def"]).endswith("by_ref"):
        raise Unsupported("by_ref")
    return it0(c)


@model("Iterator::skip")
def _(c):
    return skip_iter(it0(c), c.val(1))


def skip_iter(it, n):
    nm = it.args[0]
    if nm in ("$slice", "$mslice"):
        v, i, e = it.args[1:4]
        j = add(i, n)
        return mk("struct", nm, v, ite(cmp("le", j, e), j, e), e)
    if nm == "$win":
        v, i, e, w = it.args[1:5]
        j = add(i, n)
        return mk("struct", nm, v, ite(cmp("le", j, e), j, e), e, w)
    if nm.endswith("Range") or nm == "$ri":
        i, e = it.args[1:3]
        j = add(i, n)
        return mk("struct", nm, ite(cmp("le", j, e), j, e), e)
    if nm == "$enum":
        return mk("struct", "$enum", skip_iter(it.args[1], n), add(it.args[2], n))
    if nm == "$map":
        return mk("struct", "$map", skip_iter(it.args[1], n), it.args[2])
    if nm == "$zip":
        return mk("struct", "$zip", skip_iter(it.args[1], n), skip_iter(it.args[2], n))
    raise Unsupported("skip " + nm)


def iter_len(it):
    nm = it.args[0]
    if nm in ("$slice", "$mslice", "$win"):
        return sub(it.args[3], it.args[2])
    if nm.endswith("Range") or nm == "$ri":
        d = sub(it.args[2], it.args[1])
        from .loops import nonneg
        return d if nonneg(d) else ite(cmp("ge", d, N.I0), d, N.I0)
    if nm in ("$enum", "$map", "$rev"):
        return iter_len(it.args[1])
    if nm == "$zip":
        a, b = iter_len(it.args[1]), iter_len(it.args[2])
        return ite(cmp("le", a, b), a, b)
    if nm == "$chain":
        return add(iter_len(it.args[1]), iter_len(it.args[2]))
    if nm == "$take":
        a = iter_len(it.args[1])
        return ite(cmp("le", it.args[2], a), it.args[2], a)
    raise Unsupported("len of iterator " + nm)


@model("Iterator::take")
def _(c):
    it = it0(c)
    n = c.val(1)
    nm = it.args[0]
    if nm in ("$slice", "$mslice", "$win"):
        j = add(it.args[2], n)
        a = list(it.args)
        a[3] = ite(cmp("le", j, it.args[3]), j, it.args[3])
        return mk("struct", *a)
    return mk("struct", "$take", it, n)


@model("Iterator::step_by")
def _(c):
    it = it0(c)
    n = c.val(1)
    nm = it.args[0]
    if (nm.endswith("Range") or nm == "$ri") and n.op == "num":
        L = iter_len(it)
        cnt = N.idiv(add(L, sub(n, N.I1)), n)
        return mk("struct", "$step", it.args[1], n, N.I0, cnt)
    raise Unsupported("step_by")


@model("ExactSizeIterator::len")
def _(c):
    return iter_len(c.val(0))


def call_closure(c, clo, args, st=None):
    I = c.I
    st = c.st if st is None else st
    cl = I.deref(st, clo) if clo.op == "mref" else clo
    if cl.op != "struct":
        raise Unsupported("closure value")
    nm = cl.args[0]
    if nm.startswith("closure:"):
        key = nm[8:]
        if key not in I.p.fns:
            raise Unsupported("closure body")
        return I.call_fn(key, [cl] + list(args), st)
    if nm.startswith("fndef:"):
        name = nm[6:]
        if name in I.p.fns:
            return I.call_fn(name, list(args), st)
        m = M.get(norm(name))
        if m:
            cc = Ctx(I, {"def": name, "inst": name, "local": False, "a": [], "rn": name, "kind": "item"}, list(args), st, None, c.f, [None] * len(args), c.line)
            return m(cc)
    raise Unsupported("call of " + nm)


@model("FnMut::call_mut", "FnOnce::call_once", "Fn::call")
def _(c):
    args = c.val(1)
    a = list(args.args[1:]) if args.op == "struct" else [args]
    return call_closure(c, c.a[0], a)


def next_(c, it, st):
    """(has, item, it') of an iterator value; st may be updated by closures"""
    I = c.I
    nm = it.args[0]
    if nm == "$slice":
        v, i, e = it.args[1:4]
        has = cmp("lt", i, e)
        return has, cget(v.args[1], i), mk("struct", nm, v, ite(has, add(i, N.I1), i), e)
    if nm == "$mslice":
        v, i, e = it.args[1:4]
        has = cmp("lt", i, e)
        return has, I.mref_ext(v, ("i", i)), mk("struct", nm, v, ite(has, add(i, N.I1), i), e)
    if nm == "$win":
        v, i, e, n = it.args[1:5]
        has = cmp("lt", i, e)
        return has, I.slice_value(v, i, add(i, n)), mk("struct", nm, v, ite(has, add(i, N.I1), i), e, n)
    if nm.endswith("ops::Range") or nm == "$ri":
        i, e = it.args[1:3]
        has = cmp("lt", i, e)
        return has, i, mk("struct", nm, ite(has, add(i, N.I1), i), e)
    if nm == "$step":
        s, d, i, e = it.args[1:5]
        has = cmp("lt", i, e)
        return has, add(s, mul(d, i)), mk("struct", nm, s, d, ite(has, add(i, N.I1), i), e)
    if nm == "$rev":
        has, x, it2 = next_back(c, it.args[1], st)
        return has, x, mk("struct", nm, it2)
    if nm == "$enum":
        has, x, it2 = next_(c, it.args[1], st)
        return has, mk("struct", "()", it.args[2], x), mk("struct", nm, it2, ite(has, add(it.args[2], N.I1), it.args[2]))
    if nm == "$map":
        has, x, it2 = next_(c, it.args[1], st)
        if has is N.FALSE:
            return has, N.BOT, mk("struct", nm, it2, it.args[2])
        y = call_closure(c, it.args[2], [x], st)
        return has, y, mk("struct", nm, it2, it.args[2])
    if nm == "$zip":
        h1, x, a = next_(c, it.args[1], st)
        h2, y, b = next_(c, it.args[2], st)
        return b_and(h1, h2), mk("struct", "()", x, y), mk("struct", nm, a, b)
    if nm == "$chain":
        h1, x, a = next_(c, it.args[1], st)
        h2, y, b = next_(c, it.args[2], st)
        return b_or(h1, h2), ite(h1, x, y), mk("struct", nm, ite(h1, a, it.args[1]), ite(h1, it.args[2], b))
    if nm == "$takew":
        h, x, a = next_(c, it.args[1], st)
        if h is N.FALSE:
            return h, x, it
        p = N.tobool(call_closure(c, it.args[2], [x], st))
        return b_and(h, p), x, mk("struct", nm, a, it.args[2])
    if nm == "$take":
        pos = cmp("gt", it.args[2], N.I0)
        h, x, a = next_(c, it.args[1], st)
        return b_and(pos, h), x, mk("struct", nm, a, ite(pos, sub(it.args[2], N.I1), it.args[2]))
    raise Unsupported("next of " + nm)


def next_back(c, it, st):
    nm = it.args[0]
    I = c.I
    if nm in ("$slice", "$mslice"):
        v, i, e = it.args[1:4]
        has = cmp("lt", i, e)
        j = sub(e, N.I1)
        x = cget(v.args[1], j) if nm == "$slice" else I.mref_ext(v, ("i", j))
        return has, x, mk("struct", nm, v, i, ite(has, j, e))
    if nm.endswith("ops::Range") or nm == "$ri":
        i, e = it.args[1:3]
        has = cmp("lt", i, e)
        j = sub(e, N.I1)
        return has, j, mk("struct", nm, i, ite(has, j, e))
    if nm == "$rev":
        has, x, it2 = next_(c, it.args[1], st)
        return has, x, mk("struct", nm, it2)
    if nm == "$map":
        has, x, it2 = next_back(c, it.args[1], st)
        if has is N.FALSE:
            return has, N.BOT, mk("struct", nm, it2, it.args[2])
        return has, call_closure(c, it.args[2], [x], st), mk("struct", nm, it2, it.args[2])
    if nm == "$enum":
        n = iter_len(it.args[1])
        has, x, it2 = next_back(c, it.args[1], st)
        return has, mk("struct", "()", add(it.args[2], sub(n, N.I1)), x), mk("struct", nm, it2, it.args[2])
    if nm == "$win":
        v, i, e, n = it.args[1:5]
        has = cmp("lt", i, e)
        j = sub(e, N.I1)
        return has, I.slice_value(v, j, add(j, n)), mk("struct", nm, v, i, ite(has, j, e), n)
    raise Unsupported("next_back of " + nm)


@model("Iterator::next")
def _(c):
    if c.fnr["local"]:
        return c.I.call_fn(c.fnr["inst"], c.a, c.st)
    it = c.val(0)
    if it.args[0] == "$filter":
        raise Unsupported("next on filter")
    has, x, it2 = next_(c, it, c.st)
    c.write(0, it2)
    return opt(c, has, x)


@model("DoubleEndedIterator::next_back")
def _(c):
    it = c.val(0)
    has, x, it2 = next_back(c, it, c.st)
    c.write(0, it2)
    return opt(c, has, x)


@model("Iterator::nth")
def _(c):
    it = c.val(0)
    it2 = skip_iter(it, c.val(1))
    has, x, it3 = next_(c, it2, c.st)
    c.write(0, it3)
    return opt(c, has, x)


@model("Iterator::last")
def _(c):
    it = it0(c)
    has, x, _ = next_back(c, it, c.st)
    return opt(c, has, x)


@model("Iterator::count")
def _(c):
    it = it0(c)
    try:
        return iter_len(it)
    except Unsupported:
        acc, _ = iter_loop(c, it, [N.I0], lambda x, a, st: ([add(a[0], N.I1)], N.FALSE))
        return acc[0]


_lid = [0]


def iter_loop(c, it, acc, body, write_back=True):
    """run body over the iterator; body(item, acc, st) -> (acc', stop). Returns (acc, stopped)."""
    from . import loops
    I = c.I
    _lid[0] += 1
    L = ("it", I.fid, _lid[0])
    A = [("acc", _lid[0], i) for i in range(len(acc))]
    S = ("stop", _lid[0])
    filters = []
    st = dict(c.st)
    st[L] = it
    for a, v in zip(A, acc):
        st[a] = v

    def run(s0):
        s = dict(s0)
        cur = s[L]
        fl = []
        # peel filter/map layers on top
        has, x, it2, ok = next_f(c, cur, s)
        out = []
        nh = b_not(has)
        if nh is not N.FALSE:
            out.append((nh, "DONE", dict(s0)))
        if has is N.FALSE:
            return out
        s[L] = it2
        s = I.restrict_state(s, has)
        a0 = [s[a] for a in A]
        if ok is N.TRUE:
            a1, stop = body(x, a0, s)
        else:
            a1, stop = body(x, a0, s)
            a1 = [ite(ok, p, q) for p, q in zip(a1, a0)]
            stop = b_and(ok, stop)
        for a, v in zip(A, a1):
            s[a] = v
        sc = b_and(has, stop)
        if sc is not N.FALSE:
            out.append((sc, "STOP", I.restrict_state(s, stop)))
        lc = b_and(has, b_not(stop))
        if lc is not N.FALSE:
            out.append((lc, "LATCH", I.restrict_state(s, b_not(stop))))
        return out
    edges = loops.solve(I, run, st, ("iter@" + c.f["key"], c.line))
    if not edges:
        raise Unsupported("iterator loop never ends")
    stopped = N.FALSE
    for cc, t, s in edges:
        if t == "STOP":
            stopped = b_or(stopped, cc)
    merged = I.merge_abs(edges)
    for l in list(c.st):
        if l in merged:
            c.st[l] = merged[l]
    if c.a and c.a[0].op == "mref" and write_back and is_iter(c.val(0)):
        c.write(0, merged[L])      # the iterator it was lent has moved on
    return [merged[a] for a in A], stopped


def next_f(c, it, st):
    """like next_, with a selection condition for filter layers"""
    nm = it.args[0]
    if nm == "$filter":
        has, x, it2, ok = next_f(c, it.args[1], st)
        if has is N.FALSE:
            return has, x, mk("struct", nm, it2, it.args[2]), ok
        p = N.tobool(call_closure(c, it.args[2], [x], st))
        return has, x, mk("struct", nm, it2, it.args[2]), b_and(ok, p)
    if nm == "$map":
        has, x, it2, ok = next_f(c, it.args[1], st)
        if has is N.FALSE:
            return has, x, mk("struct", nm, it2, it.args[2]), ok
        return has, call_closure(c, it.args[2], [x], st), mk("struct", nm, it2, it.args[2]), ok
    has, x, it2 = next_(c, it, st)
    return has, x, it2, N.TRUE


@model("Iterator::any")
def _(c):
    it = it0(c)

    def body(x, a, st):
        return [], N.tobool(call_closure(c, c.a[1], [x], st))
    _, stopped = iter_loop(c, it, [], body)
    return stopped


@model("Iterator::all")
def _(c):
    it = it0(c)

    def body(x, a, st):
        return [], b_not(N.tobool(call_closure(c, c.a[1], [x], st)))
    _, stopped = iter_loop(c, it, [], body)
    return b_not(stopped)


@model("Iterator::position")
def _(c):
    it = it0(c)

    def body(x, a, st):
        stop = N.tobool(call_closure(c, c.a[1], [x], st))
        return [ite(stop, a[0], add(a[0], N.I1))], stop
    acc, stopped = iter_loop(c, it, [N.I0], body)
    return opt(c, stopped, acc[0])


@model("Iterator::rposition")
def _(c):
    it = it0(c)
    n = iter_len(it)

    def body(x, a, st):
        stop = N.tobool(call_closure(c, c.a[1], [x], st))
        return [ite(stop, a[0], add(a[0], N.I1))], stop
    acc, stopped = iter_loop(c, mk("struct", "$rev", it), [N.I0], body, False)
    return opt(c, stopped, sub(sub(n, N.I1), acc[0]))


@model("Iterator::find_map")
def _(c):
    it = it0(c)

    def body(x, a, st):
        stop = cmp("eq", c.I.disc_value(call_closure(c, c.a[1], [x], st)), N.I1)
        return [ite(stop, a[0], add(a[0], N.I1))], stop
    acc, stopped = iter_loop(c, it, [N.I0], body)
    has, x, _ = next_(c, skip_iter(it, acc[0]), dict(c.st))
    r = call_closure(c, c.a[1], [x], dict(c.st))
    return opt(c, stopped, c.I.downcast_field(r, 1, 0))


@model("Iterator::min_by", "Iterator::max_by")
def _(c):
    it = it0(c)
    has, x, it2 = next_(c, it, c.st)
    least = norm(c.fnr["def"]).endswith("min_by")

    def body(y, a, st):
        d = c.I.disc_value(call_closure(c, c.a[1], [a[0], y], st))
        gt = cmp("eq", d, N.I1)
        return [ite(gt, y, a[0]) if least else ite(gt, a[0], y)], N.FALSE
    acc, _ = iter_loop(c, it2, [x], body)
    return opt(c, has, acc[0])


@model("Iterator::take_while")
def _(c):
    return mk("struct", "$takew", it0(c), c.a[1])


@model("Iterator::skip_while")
def _(c):
    it = it0(c)

    def body(x, a, st):
        stop = b_not(N.tobool(call_closure(c, c.a[1], [x], st)))
        return [ite(stop, a[0], add(a[0], N.I1))], stop
    acc, _ = iter_loop(c, it, [N.I0], body, False)
    return skip_iter(it, acc[0])


@model("Iterator::find")
def _(c):
    it = it0(c)
    nm = it.args[0]
    I = c.I
    # locate the index, then read the element
    def body(x, a, st):
        stop = N.tobool(call_closure(c, c.a[1], [x], st))
        return [ite(stop, a[0], add(a[0], N.I1))], stop
    acc, stopped = iter_loop(c, it, [N.I0], body)
    has, x, _ = next_(c, skip_iter(it, acc[0]), dict(c.st))
    return opt(c, stopped, x)


@model("Iterator::fold")
def _(c):
    it = it0(c)

    def body(x, a, st):
        return [call_closure(c, c.a[2], [a[0], x], st)], N.FALSE
    acc, _ = iter_loop(c, it, [c.a[1]], body)
    return acc[0]


@model("Iterator::for_each")
def _(c):
    it = it0(c)

    def body(x, a, st):
        call_closure(c, c.a[1], [x], st)
        return [], N.FALSE
    iter_loop(c, it, [], body)
    return N.UNIT


@model("Iterator::sum")
def _(c):
    it = it0(c)
    z = N.R0 if c.I.ty(c.dty)["k"] == "float" else N.I0
    acc, _ = iter_loop(c, it, [z], lambda x, a, st: ([add(a[0], x)], N.FALSE))
    return acc[0]


@model("Iterator::product")
def _(c):
    it = it0(c)
    z = N.R1 if c.I.ty(c.dty)["k"] == "float" else N.I1
    acc, _ = iter_loop(c, it, [z], lambda x, a, st: ([mul(a[0], x)], N.FALSE))
    return acc[0]


@model("Iterator::max", "Iterator::min")
def _(c):
    it = it0(c)
    has, x, it2 = next_(c, it, c.st)
    op = norm(c.fnr["def"]).split("::")[1]

    def body(y, a, st):
        cc = cmp("ge", y, a[0]) if op == "max" else cmp("lt", y, a[0])
        return [ite(cc, y, a[0])], N.FALSE
    acc, _ = iter_loop(c, it2, [x], body)
    return opt(c, has, acc[0])


@model("Iterator::collect", "FromIterator::from_iter")
def _(c):
    it = it0(c)
    t = c.I.ty(c.dty)
    if not c.I.is_vec(t):
        raise Unsupported("collect into " + str(t)[:40])
    z = mk("vec", N.I0, N.cundef(), c.I.elem(t))

    def body(x, a, st):
        w = a[0]
        return [mk("vec", add(w.args[0], N.I1), cstore(w.args[1], w.args[0], x), w.args[2])], N.FALSE
    acc, _ = iter_loop(c, it, [z], body)
    return acc[0]

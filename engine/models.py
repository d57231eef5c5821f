"""Semantics of the library vocabulary used by nyx (core, nalgebra, hifitime, snafu)."""
import re
from fractions import Fraction
from terms import *
from mirflow import (index, store, length, stream, stream_item, fold, mkfold, mset, madd, mneg, smul, mmul, mtr, dot,
                     fmax, fmin, const_dims, is_matrix_ty, deref_ty, scalar_like, VEC0, ite, field, with_field, NUMERIC, bitapp)
from facts import base, strip_generics
import math

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def lookup(f):
    h = M.get(f.short)
    if h is not None:
        return h
    return None


PI = num(math.pi)


def ordering(a, b):
    A = "core::cmp::Ordering"
    v = lambda n: adt(A, n, True, (), [])
    return ite(lt(a, b), v("Less"), ite(lt(b, a), v("Greater"), v("Equal")))


ADTS.setdefault("core::cmp::Ordering", [("Less", -1), ("Equal", 0), ("Greater", 1)])


def tyof(f, i):
    return f.targs[i] if i < len(f.targs) else ""


def dv(ev, st, v):
    return ev.deref(st, v)


# ------------------------------------------------------------------ float functions
def _f1(name, fn=None):
    def h(ev, fr, f, a, st, pc, dty):
        x = dv(ev, st, a[0])
        if fn:
            return fn(x)
        return app(name, x)
    M["f64::" + name] = h
    M["f32::" + name] = h


for n in ("sin", "cos", "tan", "asin", "acos", "atan", "exp", "ln", "log10", "log2", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "cbrt",
          "floor", "ceil", "round", "trunc", "fract", "signum"):
    _f1(n)
_f1("sqrt", lambda x: sqrt(x))
_f1("abs", lambda x: absv(x))
_f1("to_radians", lambda x: mul(x, div(num(math.pi), num(180))))
_f1("to_degrees", lambda x: mul(x, div(num(180), num(math.pi))))
_f1("recip", lambda x: div(num(1), x))
_f1("is_sign_negative", lambda x: lt(x, num(0)))
_f1("is_sign_positive", lambda x: bnot(lt(x, num(0))))
for n in ("is_nan", "is_finite", "is_infinite", "is_normal"):
    _f1(n, (lambda n: lambda x: batom(app(n, x)) if not is_num(x) else {
        "is_nan": FALSE, "is_finite": TRUE, "is_infinite": FALSE, "is_normal": TRUE if nval(x) else FALSE,
        "is_sign_negative": TRUE if nval(x) < 0 else FALSE, "is_sign_positive": TRUE if nval(x) >= 0 else FALSE}[n])(n))


def _f2(name, fn):
    def h(ev, fr, f, a, st, pc, dty):
        return fn(*[dv(ev, st, x) for x in a])
    for t in ("f64", "f32", "usize", "u32", "u64", "i32", "i64", "u8", "i128", "u16", "i16", "isize"):
        M[t + "::" + name] = h


def _powi(x, n):
    if is_num(n) and nval(n).denominator == 1 and abs(nval(n)) <= 40:
        return powi(x, int(nval(n)))
    return app("pow", x, n)


def _powf(x, n):
    if is_num(n) and nval(n) == Fraction(1, 2):
        return sqrt(x)
    return _powi(x, n)


REMAKE = {"pow": _powf}
import mirflow
mirflow.REMAKE_APP.update(REMAKE)
_f2("powi", _powi)
_f2("powf", _powf)
_f2("pow", _powi)
_f2("max", fmax)
_f2("min", fmin)
_f2("clamp", lambda x, lo, hi: fmin(fmax(x, lo), hi))
_f2("atan2", lambda y, x: app("atan2", y, x))
_f2("hypot", lambda x, y: sqrt(add(mul(x, x), mul(y, y))))
_f2("mul_add", lambda x, y, z: add(mul(x, y), z))
_f2("copysign", lambda x, y: app("copysign", x, y))
_f2("rem_euclid", lambda x, y: app("rem_euclid", x, y))
_f2("div_euclid", lambda x, y: app("div_euclid", x, y))
_f2("total_cmp", ordering)
_f2("saturating_sub", lambda x, y: fmax(sub(x, y), num(0)))
_f2("wrapping_add", add)
_f2("wrapping_sub", sub)
_f2("sin_cos", lambda x: tup(app("sin", x), app("cos", x)))


_f1("exp_m1", lambda x: sub(app("exp", x), num(1)))
_f1("ln_1p", lambda x: app("ln", add(num(1), x)))


@model("RngExt::sample", "Rng::sample", "Distribution::sample")
def _(ev, fr, f, a, st, pc, dty):
    """A normal draw is mean + sigma times a standard draw of the generator."""
    rng, d = (a[1], dv(ev, st, a[0])) if f.short == "Distribution::sample" else (a[0], dv(ev, st, a[1]))
    n = d.args[2] if d.op == "proj" else None
    g = dv(ev, st, rng)
    if n is not None and n.op == "app" and n.args[0].endswith("Normal::new") and len(n.args) == 3:
        r = add(n.args[1], mul(n.args[2], app("gauss", g)))
    elif d.op == "agg" and "StandardNormal" in str(d.args[0]):
        r = app("gauss", g)
    else:
        return NotImplemented
    ev.write(st, rng, app("gauss_next", g))
    return r


@model("Ord::max", "cmp::max")
def _(ev, fr, f, a, st, pc, dty):
    if scalar_like(tyof(f, 0)):
        return fmax(dv(ev, st, a[0]), dv(ev, st, a[1]))
    return NotImplemented


@model("Ord::min", "cmp::min")
def _(ev, fr, f, a, st, pc, dty):
    if scalar_like(tyof(f, 0)):
        return fmin(dv(ev, st, a[0]), dv(ev, st, a[1]))
    return NotImplemented


@model("Ord::cmp")
def _(ev, fr, f, a, st, pc, dty):
    if ordered(tyof(f, 0)):
        return ordering(dv(ev, st, a[0]), dv(ev, st, a[1]))
    return NotImplemented


@model("Ordering::then_with", "Ordering::then")
def _(ev, fr, f, a, st, pc, dty):
    o = dv(ev, st, a[0])
    if f.name == "then":
        n = dv(ev, st, a[1])
    else:
        n = papply(ev, fr, a[1], [], dict(st), pc)[0]
    return ite(is_variant(o, ORD, "Equal"), n, o)


@model("Ordering::reverse")
def _(ev, fr, f, a, st, pc, dty):
    o = dv(ev, st, a[0])
    v = lambda n: adt(ORD, n, True, (), [])
    return ite(is_variant(o, ORD, "Less"), v("Greater"), ite(is_variant(o, ORD, "Greater"), v("Less"), v("Equal")))


for _n, _vs in (("is_lt", ("Less",)), ("is_gt", ("Greater",)), ("is_eq", ("Equal",)), ("is_ne", ("Less", "Greater")), ("is_le", ("Less", "Equal")), ("is_ge", ("Greater", "Equal"))):
    def _mkis(vs):
        def h(ev, fr, f, a, st, pc, dty):
            o = dv(ev, st, a[0])
            return bor(FALSE, *[is_variant(o, ORD, x) for x in vs])
        return h
    M["Ordering::" + _n] = _mkis(_vs)


def ordered(t):
    """Types with a total order (strings embed in the reals as an order)."""
    t = deref_ty(t)
    return scalar_like(t) or t in ("str", "alloc::string::String", "String") or t.endswith("string::String")


@model("PartialOrd::partial_cmp")
def _(ev, fr, f, a, st, pc, dty):
    if scalar_like(tyof(f, 0)):
        return some(ordering(dv(ev, st, a[0]), dv(ev, st, a[1])))
    return NotImplemented


for n, fn in (("lt", lt), ("le", le), ("gt", gt), ("ge", ge)):
    def _mk(fn):
        def h(ev, fr, f, a, st, pc, dty):
            if scalar_like(tyof(f, 0)) or tyof(f, 0) in ("D",):
                return fn(dv(ev, st, a[0]), dv(ev, st, a[1]))
            return NotImplemented
        return h
    M["PartialOrd::" + n] = _mk(fn)


def _eqh(negate):
    def h(ev, fr, f, a, st, pc, dty):
        t = deref_ty(tyof(f, 0))
        x, y = ev.close(st, dv(ev, st, a[0])), ev.close(st, dv(ev, st, a[1]))
        b = ev.resolve(f)
        if b is not None and not b.j.get("exp"):
            r = ev.eval_body(b, [x, y], st, pc, {})
            v = tobool(r[0])
            return bnot(v) if negate and f.name == "ne" and b.name == "eq" else v, r[1], r[2]
        r = tobool(eq(x, y))
        return bnot(r) if negate else r
    return h


M["PartialEq::eq"] = _eqh(False)
M["PartialEq::ne"] = _eqh(True)


# ------------------------------------------------------------------ units
UNITS = {"Nanosecond": Fraction(1, 10**9), "Microsecond": Fraction(1, 10**6), "Millisecond": Fraction(1, 1000), "Second": Fraction(1),
         "Minute": Fraction(60), "Hour": Fraction(3600), "Day": Fraction(86400), "Week": Fraction(604800), "Century": Fraction(3155760000)}


def unit_factor(t):
    if t.op == "agg" and t.args[0][0] == "adt" and t.args[0][1].endswith("Unit") and t.args[0][2] in UNITS:
        return num(UNITS[t.args[0][2]])
    if t.op == "const":
        for u in UNITS:
            if t.args[0].endswith("Unit::" + u):
                return num(UNITS[u])
    return app("unit_s", t)


def is_unit(ty):
    return deref_ty(ty).endswith("hifitime::timeunits::Unit") or deref_ty(ty).endswith("::Unit")


for nm, u in (("seconds", "Second"), ("minutes", "Minute"), ("hours", "Hour"), ("days", "Day"), ("milliseconds", "Millisecond"),
              ("microseconds", "Microsecond"), ("nanoseconds", "Nanosecond"), ("centuries", "Century"), ("weeks", "Week")):
    def _mku(u):
        def h(ev, fr, f, a, st, pc, dty):
            return mul(dv(ev, st, a[0]), num(UNITS[u]))
        return h
    M["TimeUnits::" + nm] = _mku(u)
    M["Duration::from_" + nm] = _mku(u)


def ident(ev, fr, f, a, st, pc, dty):
    return dv(ev, st, a[0])


M["Duration::to_seconds"] = ident
M["Duration::in_seconds"] = ident


@model("Duration::to_unit")
def _(ev, fr, f, a, st, pc, dty):
    return div(dv(ev, st, a[0]), unit_factor(dv(ev, st, a[1])))


@model("Duration::abs")
def _(ev, fr, f, a, st, pc, dty):
    return absv(mirflow.folded(dv(ev, st, a[0])))


@model("Duration::is_negative")
def _(ev, fr, f, a, st, pc, dty):
    return lt(dv(ev, st, a[0]), num(0))


@model("Duration::min", "Epoch::min")
def _(ev, fr, f, a, st, pc, dty):
    return fmin(dv(ev, st, a[0]), dv(ev, st, a[1]))


@model("Duration::max", "Epoch::max")
def _(ev, fr, f, a, st, pc, dty):
    return fmax(dv(ev, st, a[0]), dv(ev, st, a[1]))


@model("Duration::signum")
def _(ev, fr, f, a, st, pc, dty):
    return app("signum", dv(ev, st, a[0]))


# ------------------------------------------------------------------ operators
def _dimsof(ty):
    return const_dims(deref_ty(ty))


def as_m(v, ty):
    d = _dimsof(ty)
    if d and d[0] * d[1] <= 9 and v.op not in ("mat",):
        if v.op == "mzero":
            return mat(d[0], d[1], [num(0)] * (d[0] * d[1]))
        if v.op == "mid":
            return mat(d[0], d[1], [num(1 if i == j else 0) for i in range(d[0]) for j in range(d[1])])
        if v.op == "ite":
            return ite(v.args[0], as_m(v.args[1], ty), as_m(v.args[2], ty))
        if v is BOT:
            return BOT
        return expand(v, *d)
    return v


def matty(ty):
    return is_matrix_ty(deref_ty(ty))


def arith(op, x, y, tx, ty):
    mx, my = matty(tx), matty(ty)
    if mx:
        x = as_m(x, tx)
    if my:
        y = as_m(y, ty)
    if is_unit(tx):
        x = unit_factor(x)
        tx = "f64"
    if is_unit(ty):
        y = unit_factor(y)
        ty = "f64"
    if op == "add":
        return madd(x, y) if mx or my else add(x, y)
    if op == "sub":
        return madd(x, mneg(y)) if mx or my else sub(x, y)
    if op == "mul":
        if mx and my:
            r = mmul(x, y)
            return r
        if mx:
            return smul(y, x)
        if my:
            return smul(x, y)
        return mul(x, y)
    if op == "div":
        if mx:
            return smul(div(num(1), y), x)
        return div(x, y)
    if op == "rem":
        return app("rem", x, y)


@model("DCM::transpose")
def _(ev, fr, f, a, st, pc, dty):
    x = dv(ev, st, a[0])
    if x.op == "ref":
        return NotImplemented
    m = expand(field(x, "rot_mat"), 3, 3)
    return with_field(app("DCM::transpose", x), "rot_mat", None, mtr(m))


def is_hyper(t):
    return deref_ty(t).startswith("hyperdual::OHyperdual<")


def hyper_n(t):
    m = re.search(r"dimension::Const<(\d+)>", t)
    return int(m.group(1)) if m else None


def to_hd(v, n):
    if v.op == "ite":
        return ite(v.args[0], to_hd(v.args[1], n), to_hd(v.args[2], n))
    return v if v.op == "hd" else hd(*hparts(v, n))


def arithable(t):
    t = deref_ty(t)
    return scalar_like(t) or matty(t) or is_unit(t) or is_hyper(t)


for op in ("add", "sub", "mul", "div", "rem"):
    def _mko(op):
        def h(ev, fr, f, a, st, pc, dty):
            tx, ty = tyof(f, 0), tyof(f, 1) or tyof(f, 0)
            if ev.resolve(f) is not None:
                return NotImplemented
            x, y = dv(ev, st, a[0]), dv(ev, st, a[1])
            if op in ("add", "sub") and deref_ty(tx).endswith("::Mass") and deref_ty(ty).endswith("::Mass"):
                return mk_mass(*[arith(op, field(x, k), field(y, k), "f64", "f64") for k in MASS_F])
            if op == "mul" and deref_ty(tx).endswith("::DCM") and matty(ty) and const_dims(deref_ty(ty)) == (3, 1):
                return mmul(expand(field(x, "rot_mat"), 3, 3), as_m(y, ty))
            if arithable(tx) or arithable(ty):
                if not (arithable(tx) and arithable(ty)):
                    # e.g. f64 * matrix alias in generic context
                    if not (generic_mat(tx) or generic_mat(ty)):
                        return NotImplemented
                if deref_ty(tx) in NUMERIC and op == "div" and deref_ty(tx) not in ("f64", "f32"):
                    return NotImplemented
                return arith(op, x, y, tx, ty)
            return NotImplemented

        def ha(ev, fr, f, a, st, pc, dty):
            tx, ty = tyof(f, 0), tyof(f, 1) or tyof(f, 0)
            if ev.resolve(f) is not None:
                return NotImplemented
            if arithable(tx) and arithable(ty):
                x, y = dv(ev, st, a[0]), dv(ev, st, a[1])
                ev.write(st, a[0], arith(op, x, y, tx, ty), "assignop")
                return UNIT
            return NotImplemented
        return h, ha
    h, ha = _mko(op)
    N_ = op.capitalize()
    M["%s::%s" % (N_, op)] = h
    M["%sAssign::%s_assign" % (N_, op)] = ha


def generic_mat(t):
    return False


@model("Neg::neg")
def _(ev, fr, f, a, st, pc, dty):
    if ev.resolve(f) is not None:
        return NotImplemented
    x = dv(ev, st, a[0])
    if matty(tyof(f, 0)):
        return mneg(as_m(x, tyof(f, 0)))
    if arithable(tyof(f, 0)):
        return neg(x)
    return NotImplemented


@model("Not::not")
def _(ev, fr, f, a, st, pc, dty):
    if deref_ty(tyof(f, 0)) == "bool":
        return bnot(tobool(dv(ev, st, a[0])))
    return NotImplemented


@model("BitOr::bitor", "BitAnd::bitand")
def _(ev, fr, f, a, st, pc, dty):
    x, y = dv(ev, st, a[0]), dv(ev, st, a[1])
    if deref_ty(tyof(f, 0)) == "bool":
        return (bor if f.name == "bitor" else band)(tobool(x), tobool(y))
    if ev.resolve(f) is not None:
        return NotImplemented
    return mirflow.REMAKE_APP[f.name](x, y)


# ------------------------------------------------------------------ identity-like
for n in ("Clone::clone", "Deref::deref", "[T]::to_vec", "slice::to_vec", "AsRef::as_ref", "Borrow::borrow", "ToOwned::to_owned", "Arc::new", "Rc::new", "Box::new",
          "Arc::clone", "Option::as_ref", "Result::as_ref", "Option::cloned", "Option::copied", "Option::as_deref", "Vec::as_slice",
          "slice::to_vec", "slice::into_vec", "Cow::into_owned", "String::as_str", "Cell::new", "RefCell::new", "Mutex::new",
          "hint::black_box", "Iterator::cloned", "Iterator::copied", "Iterator::by_ref", "Matrix::clone_owned", "Matrix::into_owned",
          "convert::identity", "Box::into_inner", "Arc::as_ref", "string::String::as_str", "Iterator::peekable", "Iterator::fuse",
          "ParallelIterator::into_par_iter", "Borrow::borrow", "box_new"):
    M[n] = ident
for n in ("DerefMut::deref_mut", "AsMut::as_mut", "BorrowMut::borrow_mut", "Vec::as_mut_slice"):
    def _derefmut(ev, fr, f, a, st, pc, dty):
        v = a[0]
        if v.op == "ref" and matty(tyof(f, 0)):
            x = dv(ev, st, v)
            y = as_m(x, tyof(f, 0))
            if y is not x:
                ev.write(st, v, y)
        if v.op == "ref" and is_hyper(tyof(f, 0)):
            x = dv(ev, st, v)
            y = to_hd(x, hyper_n(tyof(f, 0)))
            if y is not x:
                ev.write(st, v, y)
        return v
    M[n] = _derefmut


@model("Clone::clone")
def _(ev, fr, f, a, st, pc, dty):
    return ev.close(st, dv(ev, st, a[0]))


@model("Deref::deref")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if matty(tyof(f, 0)):
        return as_m(v, tyof(f, 0))
    if is_hyper(tyof(f, 0)):
        return to_hd(v, hyper_n(tyof(f, 0)))
    return v


@model("Clone::clone_from")
def _(ev, fr, f, a, st, pc, dty):
    ev.write(st, a[0], ev.close(st, dv(ev, st, a[1])))
    return UNIT


@model("Into::into", "From::from")
def _(ev, fr, f, a, st, pc, dty):
    b = ev.resolve(f)
    if b is not None:
        return NotImplemented
    s, t = deref_ty(tyof(f, 0)), deref_ty(tyof(f, 1))
    if s == t or (scalar_like(s) and scalar_like(t)):
        return dv(ev, st, a[0])
    if (t if f.name == "from" else s) == "bool" and re.fullmatch(r"[iuf](8|16|32|64|128|size)", s if f.name == "from" else t):
        return ite(dv(ev, st, a[0]), num(1), num(0))
    if f.name == "into":
        # Into<T> for U via a local From<U> for T
        for i in ev.F.trait_impls.get("core::convert::From", ()):
            if strip_generics(deref_ty(i["self"])) == strip_generics(t) and i["trait_full"].endswith("From<" + s + ">>"):
                for n, p in i["items"]:
                    bb = ev.F.bodies.get(p)
                    if n == "from" and bb is not None:
                        return ev.eval_body(bb, a, st, pc, {})
    if is_hyper(t if f.name == "into" else s) and len(a) == 1:
        return dv(ev, st, a[0])     # a constant: no partials
    return app("conv", string(base(t if f.name == "into" else s)), ev.close(st, dv(ev, st, a[0])))


@model("TryInto::try_into", "TryFrom::try_from")
def _(ev, fr, f, a, st, pc, dty):
    b = ev.resolve(f)
    if b is not None:
        return NotImplemented
    s, t = deref_ty(tyof(f, 0)), deref_ty(tyof(f, 1))
    if scalar_like(s) and scalar_like(t):
        x = dv(ev, st, a[0])
        r = app("try_conv", x)
        return ite(is_variant(r, RES, "Ok"), ok(x), err(app("conv_err", x)))
    if f.name == "try_into":
        for i in ev.F.trait_impls.get("core::convert::TryFrom", ()):
            if strip_generics(deref_ty(i["self"])) == strip_generics(t) and i["trait_full"].endswith("TryFrom<" + s + ">>"):
                for n, p in i["items"]:
                    bb = ev.F.bodies.get(p)
                    if n == "try_from" and bb is not None:
                        return ev.eval_body(bb, a, st, pc, {})
    return NotImplemented


@model("ToString::to_string", "String::from", "str::to_string", "str::to_owned")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if v.op == "str":
        return v
    if ev.resolve(f) is not None and f.short != "ToString::to_string":
        return NotImplemented
    return app("to_string", ev.close(st, v))


@model("mem::swap")
def _(ev, fr, f, a, st, pc, dty):
    x, y = dv(ev, st, a[0]), dv(ev, st, a[1])
    ev.write(st, a[0], y)
    ev.write(st, a[1], x)
    return UNIT


@model("mem::replace")
def _(ev, fr, f, a, st, pc, dty):
    x = dv(ev, st, a[0])
    ev.write(st, a[0], a[1])
    return x


@model("mem::take")
def _(ev, fr, f, a, st, pc, dty):
    x = dv(ev, st, a[0])
    t = tyof(f, 0)
    z = VEC0 if "Vec<" in t[:20] else (NONE if strip_generics(t).endswith("Option") else app("default", string(base(t))))
    ev.write(st, a[0], z)
    return x


@model("mem::drop", "mem::forget")
def _(ev, fr, f, a, st, pc, dty):
    return UNIT


# ------------------------------------------------------------------ Option / Result
def p_some(v):
    return is_variant(v, OPT, "Some")


def p_ok(v):
    return is_variant(v, RES, "Ok")


def pay(v, variant="Some"):
    return field(v, "0", variant)


def isres(f):
    return f.short.startswith("Result::")


def good(f):
    return "Ok" if isres(f) else "Some"


def cond_good(f, v):
    return p_ok(v) if isres(f) else p_some(v)


def callc(ev, fr, c, args, st, pc, dty=""):
    """apply closure under guard pc; returns value, mutating st in place."""
    s2 = dict(st)
    r = ev.apply(fr, c, args, s2, pc, dty)
    if isinstance(r, tuple):
        v, s3, p3 = r
    else:
        v, s3, p3 = r, s2, pc
    return v, s3, p3


def branch(ev, fr, g, st, pc, ft, ff):
    """if g {ft} else {ff} with state merging; ft/ff: (st, pc) -> (v, st, pc)"""
    outs = []
    for cond, fn in ((g, ft), (bnot(g), ff)):
        p = band(pc, cond)
        if p is FALSE:
            continue
        v, s, p2 = fn(dict(st), p)
        if p2 is FALSE:
            continue
        s = dict(s)
        s["§r"] = v
        outs.append((p2, s))
    if not outs:
        return BOT, st, FALSE
    p, s = ev.merge(outs)
    v = s.pop("§r")
    return v, s, p


def const_branch(v):
    return lambda s, p: (v, s, p)


@model("Option::map", "Result::map")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    g = cond_good(f, v)
    wrap = ok if isres(f) else some

    def t(s, p):
        r, s, p = callc(ev, fr, a[1], [pay(v, good(f))], s, p)
        return wrap(r), s, p
    return branch(ev, fr, g, st, pc, t, const_branch(err(pay(v, "Err")) if isres(f) else NONE))


@model("Result::map_err")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])

    def e(s, p):
        r, s, p = callc(ev, fr, a[1], [pay(v, "Err")], s, p)
        return err(r), s, p
    return branch(ev, fr, p_ok(v), st, pc, const_branch(ok(pay(v, "Ok"))), e)


@model("Option::and_then", "Result::and_then")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return branch(ev, fr, cond_good(f, v), st, pc, lambda s, p: callc(ev, fr, a[1], [pay(v, good(f))], s, p),
                  const_branch(err(pay(v, "Err")) if isres(f) else NONE))


@model("Option::or_else", "Result::or_else")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return branch(ev, fr, cond_good(f, v), st, pc, const_branch(v),
                  lambda s, p: callc(ev, fr, a[1], [pay(v, "Err")] if isres(f) else [], s, p))


@model("Option::or")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return ite(p_some(v), v, dv(ev, st, a[1]))


@model("Option::filter")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])

    def t(s, p):
        r, s, p = callc(ev, fr, a[1], [pay(v)], s, p)
        return ite(tobool(r), v, NONE), s, p
    return branch(ev, fr, p_some(v), st, pc, t, const_branch(NONE))


@model("Option::map_or", "Result::map_or")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return branch(ev, fr, cond_good(f, v), st, pc, lambda s, p: callc(ev, fr, a[2], [pay(v, good(f))], s, p), const_branch(a[1]))


@model("Option::map_or_else")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return branch(ev, fr, p_some(v), st, pc, lambda s, p: callc(ev, fr, a[2], [pay(v)], s, p), lambda s, p: callc(ev, fr, a[1], [], s, p))


@model("Option::is_some_and", "Result::is_ok_and")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return branch(ev, fr, cond_good(f, v), st, pc, lambda s, p: callc(ev, fr, a[1], [pay(v, good(f))], s, p), const_branch(FALSE))


@model("Option::ok_or")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return ite(p_some(v), ok(pay(v)), err(a[1]))


@model("Option::ok_or_else")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])

    def e(s, p):
        r, s, p = callc(ev, fr, a[1], [], s, p)
        return err(r), s, p
    return branch(ev, fr, p_some(v), st, pc, const_branch(ok(pay(v))), e)


@model("OptionExt::context", "OptionExt::with_context")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return ite(p_some(v), ok(pay(v)), err(app("context", lamctx(ev, fr, a[1], st, pc))))


def lamctx(ev, fr, c, st, pc):
    c = dv(ev, st, c)
    if c.op == "agg" and c.args[0][0] == "closure":
        return ev.lam(fr, c, st, pc)
    return ev.close(st, c)


@model("ResultExt::context", "ResultExt::with_context", "ResultExt::whatever_context", "ResultExt::with_whatever_context")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return ite(p_ok(v), ok(pay(v, "Ok")), err(app("context", pay(v, "Err"), lamctx(ev, fr, a[1], st, pc))))


@model("Option::unwrap", "Result::unwrap", "Option::expect", "Result::expect", "Option::unwrap_unchecked")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return pay(v, good(f))


@model("Result::unwrap_err", "Result::expect_err")
def _(ev, fr, f, a, st, pc, dty):
    return pay(dv(ev, st, a[0]), "Err")


@model("Option::unwrap_or", "Result::unwrap_or")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return ite(cond_good(f, v), pay(v, good(f)), a[1])


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return branch(ev, fr, cond_good(f, v), st, pc, const_branch(pay(v, good(f))),
                  lambda s, p: callc(ev, fr, a[1], [pay(v, "Err")] if isres(f) else [], s, p, dty))


def default_of(ev, fr, t, st, pc):
    t = t.strip()
    if t in NUMERIC:
        return num(0)
    if t == "bool":
        return FALSE
    if t.endswith("String"):
        return string("")
    s = strip_generics(t)
    if s.endswith("::Vec"):
        return VEC0
    if s.endswith("option::Option"):
        return NONE
    if s.endswith("hifitime::duration::Duration"):
        return num(0)
    for i in ev.F.trait_impls.get("core::default::Default", ()):
        if strip_generics(i["self"]) == s:
            for n, p in i["items"]:
                b = ev.F.bodies.get(p)
                if b is not None:
                    r = ev.eval_body(b, [], dict(st), TRUE, {})
                    return r[0]
    return app("default", string(s))


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    t = tyof(f, 0)
    return ite(cond_good(f, v), pay(v, good(f)), default_of(ev, fr, t, st, pc))


@model("Default::default")
def _(ev, fr, f, a, st, pc, dty):
    if ev.resolve(f) is not None:
        return NotImplemented
    return default_of(ev, fr, tyof(f, 0), st, pc)


@model("Option::is_some")
def _(ev, fr, f, a, st, pc, dty):
    return p_some(dv(ev, st, a[0]))


@model("Option::is_none")
def _(ev, fr, f, a, st, pc, dty):
    return bnot(p_some(dv(ev, st, a[0])))


@model("Result::is_ok")
def _(ev, fr, f, a, st, pc, dty):
    return p_ok(dv(ev, st, a[0]))


@model("Result::is_err")
def _(ev, fr, f, a, st, pc, dty):
    return bnot(p_ok(dv(ev, st, a[0])))


@model("Result::ok")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return ite(p_ok(v), some(pay(v, "Ok")), NONE)


@model("Result::err")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return ite(p_ok(v), NONE, some(pay(v, "Err")))


@model("Option::take")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    ev.write(st, a[0], NONE)
    return v


@model("Option::replace", "Option::insert")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    ev.write(st, a[0], some(a[1]))
    return v if f.short == "Option::replace" else pref(ev, st, a[0], some(a[1]))


@model("Option::as_mut", "Option::as_deref_mut")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if a[0].op == "ref":
        return ite(p_some(v), some(ev.ref(a[0].args[0], a[0].args[1] + (("f", "0", "Some"),))), NONE)
    return v


def pref(ev, st, a, v):
    """Reference to the payload of the option behind a."""
    return ev.ref(a.args[0], a.args[1] + (("f", "0", "Some"),)) if a.op == "ref" else pay(v)


@model("Option::get_or_insert")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    n = ite(p_some(v), v, some(a[1]))
    ev.write(st, a[0], n)
    return pref(ev, st, a[0], n)


@model("Option::get_or_insert_with", "Option::get_or_insert_default")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])

    def mkv(s, p):
        if len(a) < 2:
            return some(default_of(ev, fr, tyof(f, 0), s, p)), s, p
        r, s, p = callc(ev, fr, a[1], [], s, p)
        return some(r), s, p
    r = branch(ev, fr, p_some(v), st, pc, const_branch(v), mkv)
    if isinstance(r, tuple):
        n, s3, p3 = r
        ev.write(s3, a[0], n)
        return pref(ev, s3, a[0], n), s3, p3
    ev.write(st, a[0], r)
    return pref(ev, st, a[0], r)


@model("bool::then", "bool::then_some")
def _(ev, fr, f, a, st, pc, dty):
    c = tobool(dv(ev, st, a[0]))
    if f.short == "bool::then_some":
        return ite(c, some(a[1]), NONE)

    def t(s, p):
        r, s, p = callc(ev, fr, a[1], [], s, p)
        return some(r), s, p
    return branch(ev, fr, c, st, pc, t, const_branch(NONE))


CF = "core::ops::control_flow::ControlFlow"


@model("Try::branch")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    t = tyof(f, 0)
    c = lambda x: adt(CF, "Continue", True, ("0",), [x])
    b = lambda x: adt(CF, "Break", True, ("0",), [x])
    if strip_generics(t).endswith("Result"):
        return ite(p_ok(v), c(pay(v, "Ok")), b(err(pay(v, "Err"))))
    return ite(p_some(v), c(pay(v)), b(NONE))


@model("FromResidual::from_residual")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if v.op == "agg" and v.args[0][2] == "Err":
        return err(app("from_err", v.args[1])) if False else v
    return v


@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(ev, fr, f, a, st, pc, dty):
    argt = dv(ev, st, a[1])
    xs = list(argt.args[1:]) if argt.op == "agg" else [argt]
    return ev.apply(fr, a[0], xs, st, pc, dty)


# ------------------------------------------------------------------ vec / slices
@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def _(ev, fr, f, a, st, pc, dty):
    return VEC0


@model("Box::new_uninit")
def _(ev, fr, f, a, st, pc, dty):
    return ev.ref(ev.cell(st, sym("§uninit")))


@model("boxed::box_assume_init_into_vec_unsafe")
def _(ev, fr, f, a, st, pc, dty):
    return ev.close(st, field(field(dv(ev, st, a[0]), "value"), "value"))


@model("Vec::push", "VecDeque::push_back")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    ev.write(st, a[0], mk("push", v, ev.close(st, a[1])))
    return UNIT


@model("Vec::clear", "BTreeMap::clear", "HashMap::clear", "IndexMap::clear")
def _(ev, fr, f, a, st, pc, dty):
    ev.write(st, a[0], VEC0 if "Vec" in f.short else app("map0"))
    return UNIT


@model("Vec::len", "slice::len", "Matrix::len", "[T]::len", "str::len", "String::len", "VecDeque::len", "ExactSizeIterator::len")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if v.op == "iter":
        return sub(v.args[0].args[0], v.args[1])
    return length(v)


@model("Vec::is_empty", "slice::is_empty", "[T]::is_empty", "str::is_empty", "String::is_empty")
def _(ev, fr, f, a, st, pc, dty):
    n = length(dv(ev, st, a[0]))
    if is_num(n):
        return TRUE if nval(n) == 0 else FALSE
    return tobool(eq(n, num(0)))


@model("[T]::first", "slice::first")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    n = length(v)
    return ite(tobool(eq(n, num(0))), NONE, some(index(v, num(0))))


@model("[T]::last", "slice::last")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    n = length(v)
    return ite(tobool(eq(n, num(0))), NONE, some(index(v, sub(n, num(1)))))


@model("[T]::get", "slice::get")
def _(ev, fr, f, a, st, pc, dty):
    v, i = dv(ev, st, a[0]), dv(ev, st, a[1])
    if tyof(f, 1) != "usize":
        return NotImplemented
    return ite(lt(i, length(v)), some(index(v, i)), NONE)


@model("[T]::binary_search_by", "slice::binary_search_by")
def _(ev, fr, f, a, st, pc, dty):
    """On a sorted slice: Ok(i) at the match, else Err(insertion point)."""
    s = s_of(ev, st, a[0])
    if s is None:
        v = dv(ev, st, a[0])
        s = to_stream(ev, st, v)
        if not isinstance(s, T) or s.op != "stream":
            return NotImplemented
    n = s.args[0]
    if not (is_num(n) and nval(n) <= 48):
        return NotImplemented
    O = "core::cmp::Ordering"
    r = err(n)
    for k in reversed(range(int(nval(n)))):
        x = ev.apply(fr, a[1], [stream_item(s, num(k))], st, pc)
        v = ev.close(st, x[0] if isinstance(x, tuple) else x)
        if nval(n) > 12 and v.op == "ite":
            return NotImplemented
        r = ite(is_variant(v, O, "Less"), r, ite(is_variant(v, O, "Equal"), ok(num(k)), err(num(k))))
    return r


@model("[T]::binary_search_by_key", "slice::binary_search_by_key")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None:
        s = to_stream(ev, st, dv(ev, st, a[0]))
    if not isinstance(s, T) or s.op != "stream" or not (is_num(s.args[0]) and nval(s.args[0]) <= 48):
        return NotImplemented
    n, key = s.args[0], ev.close(st, dv(ev, st, a[1]))
    r = err(n)
    for k in reversed(range(int(nval(n)))):
        x = ev.apply(fr, a[2], [stream_item(s, num(k))], st, pc)
        v = ev.close(st, x[0] if isinstance(x, tuple) else x)
        c = lt(v, key)
        if nval(n) > 12 and c.op == "bdd":
            return NotImplemented
        r = ite(c, r, ite(tobool(eq(v, key)), ok(num(k)), err(num(k))))
    return r


def small_seq(ev, st, a, cap=24):
    v = dv(ev, st, a)
    s = s_of(ev, st, a)
    if s is None:
        s = to_stream(ev, st, v)
    if not isinstance(s, T) or s.op != "stream" or not is_num(s.args[0]) or nval(s.args[0]) > cap:
        return None
    return [stream_item(s, num(k)) for k in range(int(nval(s.args[0])))]


@model("[T]::contains", "slice::contains", "Vec::contains")
def _(ev, fr, f, a, st, pc, dty):
    xs = small_seq(ev, st, a[0])
    if xs is None:
        return NotImplemented
    y = ev.close(st, dv(ev, st, a[1]))
    return bor(FALSE, *[tobool(eq(ev.close(st, dv(ev, st, x)), y)) for x in xs])


@model("[T]::partition_point", "slice::partition_point")
def _(ev, fr, f, a, st, pc, dty):
    """Number of leading elements satisfying the predicate (the slice is partitioned by it)."""
    xs = small_seq(ev, st, a[0], 12)
    if xs is None:
        return NotImplemented
    r = num(len(xs))
    for k in reversed(range(len(xs))):
        x = ev.apply(fr, a[1], [xs[k]], st, pc)
        r = ite(tobool(ev.close(st, x[0] if isinstance(x, tuple) else x)), r, num(k))
    return r


@model("[T]::swap", "slice::swap")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    i, j = a[1], a[2]
    x, y = index(v, i), index(v, j)
    ev.write(st, a[0], store(store(v, i, y), j, x))
    return UNIT


def map_get_payload(m, k):
    x = map_get(m, k)
    return field(x, "0", "Some")


def map_get(m, k):
    if m.op == "ite":
        return ite(m.args[0], map_get(m.args[1], k), map_get(m.args[2], k))
    if m.op == "app" and m.args[0] == "insert":
        _, b, k2, v = m.args
        e = eq(k, k2)
        if e is TRUE:
            return some(v)
        if e is FALSE:
            return map_get(b, k)
        return ite(tobool(e), some(v), map_get(b, k))
    if m.op == "app" and m.args[0] == "map0":
        return NONE
    if m.op == "app" and m.args[0] == "remove":
        return ite(tobool(eq(k, m.args[2])), NONE, map_get(m.args[1], k))
    return app("get", m, k)


def constkey(k):
    return is_num(k) or k.op in ("str", "true", "false") or k.op == "agg" and k.args[0][0] == "adt" and all(constkey(x) for x in k.args[1:] if isinstance(x, T))


def offset(k, k2):
    """The numeric offset of one key from another, or None."""
    if constkey(k) != constkey(k2) or k.op in ("str", "agg") or k2.op in ("str", "agg"):
        return None
    return constant_sum(sub(k, k2))


def map_items(m, cond=TRUE):
    """[(condition, key, value)] in insertion order of a map built from nothing with distinct literal keys; else None."""
    if m.op == "app" and m.args[0] == "map0":
        return []
    if m.op == "app" and m.args[0] == "insert":
        _, b, k, v = m.args
        r = map_items(b)
        if r is None or not constkey(k) and not all(offset(k, k2) is not None for c2, k2, v2 in r):
            return None
        for i, (c2, k2, v2) in enumerate(r):
            if eq(k, k2) is TRUE:
                if c2 is not TRUE:
                    return None
                return r[:i] + [(TRUE, k, v)] + r[i + 1:]
            if eq(k, k2) is not FALSE and not offset(k, k2):
                return None
        return r + [(TRUE, k, v)]
    if m.op == "app" and m.args[0] == "remove":
        r = map_items(m.args[1])
        if r is None or not constkey(m.args[2]) or any(eq(m.args[2], k) not in (TRUE, FALSE) for c, k, x in r):
            return None
        return [z for z in r if eq(m.args[2], z[1]) is FALSE]
    if m.op == "ite":
        c, x, y = m.args
        x, y = map_items(x), map_items(y)
        if x is None or y is None:
            return None
        r, i, j = [], 0, 0
        while i < len(x) or j < len(y):
            if i < len(x) and j < len(y) and x[i][1] is y[j][1]:
                r.append((bite(c, x[i][0], y[j][0]), x[i][1], ite(c, x[i][2], y[j][2])))
                i, j = i + 1, j + 1
            elif i < len(x) and not any(x[i][1] is z[1] for z in y[j:]):
                r.append((band(c, x[i][0]),) + x[i][1:])
                i += 1
            elif j < len(y) and not any(y[j][1] is z[1] for z in x[i:]):
                r.append((band(bnot(c), y[j][0]),) + y[j][1:])
                j += 1
            else:
                return None
        return r
    return None


def map_order(l, kind):
    """Items in iteration order for this kind of map (its type or method name); None when that is not known."""
    if l is None or len(l) < 2 or "Index" in kind:
        return l
    if "BTree" in kind and all(k.op == "str" for c, k, x in l):
        return sorted(l, key=lambda z: z[1].args[0])
    if "BTree" in kind and all(offset(k, l[0][1]) is not None for c, k, x in l):
        return sorted(l, key=lambda z: offset(z[1], l[0][1]))
    return None


def map_stream(v, item, kind):
    l, order = map_order(map_items(v), kind), True
    if l is not None and (order or len(l) < 2):
        if all(c is TRUE for c, k, x in l):
            arr = mk("agg", ("array",), *[item(k, x) for c, k, x in l])
            return mkiter(stream(num(len(l)), lambda i: index(arr, i)))
        return mkp([(c, item(k, x)) for c, k, x in l])
    return None


def map_empty(m):
    l = map_items(m)
    if l is not None:
        return bnot(bor(FALSE, *[c for c, k, x in l]))
    if m.op == "ite":
        return bite(m.args[0], map_empty(m.args[1]), map_empty(m.args[2]))
    if m.op == "app" and m.args[0] == "insert":
        return FALSE
    return tobool(eq(map_len(m), num(0)))


def map_len(m):
    l = map_items(m)
    if l is not None:
        n = num(0)
        for c, k, x in l:
            n = add(n, ite(c, num(1), num(0)))
        return n
    return length(m)


@model("IndexMap::retain", "BTreeMap::retain", "HashMap::retain")
def _(ev, fr, f, a, st, pc, dty):
    m = dv(ev, st, a[0])
    l = map_items(m)
    if l is None:
        return NotImplemented
    r = app("map0")
    for c, k, x in l:
        v, (x,), eff = mapply_kv(ev, fr, a[1], k, x, st, band(pc, c))
        if eff:
            return NotImplemented
        g = band(c, tobool(v))
        r = ite(g, app("insert", r, k, x), r)
    ev.write(st, a[0], r)
    return UNIT


def mapply_kv(ev, fr, c, k, x, st, pc):
    s = dict(st)
    cell = ev.cell(s, x)
    v, s2, p2 = papply(ev, fr, c, [k, ev.ref(cell)], s, pc)
    return v, [ev.close(s2, s2[cell])], [q for q in st if s2.get(q, BOT) is not st[q]]


@model("IndexMap::shift_remove", "BTreeMap::remove", "HashMap::remove", "IndexSet::shift_remove", "BTreeSet::remove", "HashSet::remove", "IndexMap::swap_remove", "IndexSet::swap_remove")
def _(ev, fr, f, a, st, pc, dty):
    m = dv(ev, st, a[0])
    k = ev.close(st, dv(ev, st, a[1]))
    old = map_get(m, k)
    if f.name == "swap_remove":
        l = map_items(m)
        if l is not None and len(l) > 2 and eq(l[-1][1], k) is not TRUE and p_some(old) is not FALSE:
            if any(c is not TRUE or eq(q, k) not in (TRUE, FALSE) for c, q, x in l):
                return NotImplemented  # moves the last entry
            r = app("map0")
            for c, q, x in l[:-1]:
                q, x = (l[-1][1:] if eq(q, k) is TRUE else (q, x))
                r = app("insert", r, q, x)
            ev.write(st, a[0], r)
            return p_some(old) if "Set" in f.short else old
    ev.write(st, a[0], ite(p_some(old), app("remove", m, k), m))
    return p_some(old) if "Set" in f.short else old


@model("IndexMap::entry", "BTreeMap::entry", "HashMap::entry")
def _(ev, fr, f, a, st, pc, dty):
    if a[0].op != "ref":
        return NotImplemented
    return mk("agg", ("tuple",), a[0], ev.close(st, a[1]), mk("str", "map entry"))


def is_entry(v):
    return v.op == "agg" and v.args[0][0] == "tuple" and len(v.args) == 4 and v.args[3].op == "str" and v.args[3].args[0] == "map entry"


@model("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def _(ev, fr, f, a, st, pc, dty):
    e = a[0] if is_entry(a[0]) else dv(ev, st, a[0])
    if not is_entry(e):
        return NotImplemented
    r, k = e.args[1], e.args[2]
    m = dv(ev, st, r)
    g = p_some(map_get(m, k))
    if f.name == "or_insert":
        v = ev.close(st, a[1])
    elif f.name == "or_insert_with":
        v = papply(ev, fr, a[1], [], dict(st), pc)[0]
    else:
        v = default_of(ev, fr, dty.replace("&mut ", "", 1).strip(), st, pc)
        if v is None or v is NotImplemented:
            return NotImplemented
        if isinstance(v, tuple):
            v = v[0]
    if g is not TRUE:
        ev.write(st, r, ite(g, m, app("insert", m, k, v)))
    return ev.ref(r.args[0], r.args[1] + (("get", k),))


@model("Entry::and_modify")
def _(ev, fr, f, a, st, pc, dty):
    e = a[0] if is_entry(a[0]) else dv(ev, st, a[0])
    if not is_entry(e):
        return NotImplemented
    r, k = e.args[1], e.args[2]
    m = dv(ev, st, r)
    g = p_some(map_get(m, k))
    if g is FALSE:
        return e
    v, (x,), eff = mapply(ev, fr, a[1], [map_get_payload(m, k)], st, band(pc, g))
    if eff:
        return NotImplemented
    ev.write(st, r, ite(g, app("insert", m, k, x), m))
    return e


@model("IndexMap::get_full")
def _(ev, fr, f, a, st, pc, dty):
    l = map_items(dv(ev, st, a[0]))
    k = ev.close(st, dv(ev, st, a[1]))
    if l is None or any(c is not TRUE for c, _, _ in l):
        return NotImplemented
    r = NONE
    for i, (c, k2, x) in enumerate(l):
        r = ite(tobool(eq(k, k2)), some(tup(num(i), k2, x)), r)
    return r


@model("IndexMap::iter_mut", "BTreeMap::iter_mut", "HashMap::iter_mut", "IndexMap::values_mut", "BTreeMap::values_mut", "HashMap::values_mut")
def _(ev, fr, f, a, st, pc, dty):
    if a[0].op != "ref":
        return NotImplemented
    l = map_order(map_items(dv(ev, st, a[0])), f.short)
    if l is None:
        return NotImplemented
    out = []
    for c, k, x in l:
        r = ev.ref(a[0].args[0], a[0].args[1] + (("get", k),))
        out.append((c, r if f.name == "values_mut" else tup(k, r)))
    return mkp(out)


@model("IndexMap::drain", "HashMap::drain", "mapdrain")
def _(ev, fr, f, a, st, pc, dty):
    m = dv(ev, st, a[0])
    if len(a) > 1 and base(tyof(f, len(f.targs) - 1)) != "RangeFull":
        return NotImplemented
    ev.write(st, a[0], app("map0"))
    r = map_stream(m, lambda k, x: tup(k, x), f.short)
    return r if r is not None else mkiter(stream(length(m), lambda i: tup(app("key_at", m, i), app("val_at", m, i))))


for mp in ("BTreeMap", "HashMap", "IndexMap", "IndexSet", "HashSet", "BTreeSet"):
    def _mkmap(mp):
        def new(ev, fr, f, a, st, pc, dty):
            return app("map0")

        def insert(ev, fr, f, a, st, pc, dty):
            m = dv(ev, st, a[0])
            k = ev.close(st, a[1])
            v = ev.close(st, a[2]) if len(a) > 2 else UNIT
            ev.write(st, a[0], app("insert", m, k, v))
            old = map_get(m, k)
            return old if len(a) > 2 else bnot(p_some(old))

        def get(ev, fr, f, a, st, pc, dty):
            return map_get(dv(ev, st, a[0]), ev.close(st, dv(ev, st, a[1])))

        def get_mut(ev, fr, f, a, st, pc, dty):
            m = dv(ev, st, a[0])
            k = ev.close(st, dv(ev, st, a[1]))
            g = p_some(map_get(m, k))
            if a[0].op == "ref":
                return ite(g, some(ev.ref(a[0].args[0], a[0].args[1] + (("get", k),))), NONE)
            return map_get(m, k)

        def contains(ev, fr, f, a, st, pc, dty):
            return p_some(map_get(dv(ev, st, a[0]), ev.close(st, dv(ev, st, a[1]))))

        def ln(ev, fr, f, a, st, pc, dty):
            return map_len(dv(ev, st, a[0]))

        def emp(ev, fr, f, a, st, pc, dty):
            return map_empty(dv(ev, st, a[0]))
        M[mp + "::new"] = new
        M[mp + "::with_capacity"] = new
        M[mp + "::insert"] = insert
        M[mp + "::get"] = get
        M[mp + "::get_mut"] = get_mut
        M[mp + "::contains_key"] = contains
        M[mp + "::contains"] = contains
        M[mp + "::len"] = ln
        M[mp + "::is_empty"] = emp
    _mkmap(mp)


@model("Matrix::get_unchecked", "slice::get_unchecked", "[T]::get_unchecked")
def _(ev, fr, f, a, st, pc, dty):
    v, i = dv(ev, st, a[0]), dv(ev, st, a[1])
    if i.op == "agg" and i.args[0][0] == "tuple":
        return ment(v, int(nval(field(i, "0"))), int(nval(field(i, "1")))) if is_num(field(i, "0")) and is_num(field(i, "1")) else NotImplemented
    if not f.path.startswith("nalgebra"):
        return index(v, i)
    return NotImplemented


@model("Index::index")
def _(ev, fr, f, a, st, pc, dty):
    if ev.resolve(f) is not None:
        return NotImplemented
    t, it = deref_ty(tyof(f, 0)), tyof(f, 1)
    v, i = dv(ev, st, a[0]), dv(ev, st, a[1])
    if matty(t):
        return m_index(v, i, t, it)
    if any(x in t[:60] for x in ("HashMap<", "BTreeMap<", "IndexMap<")):
        return map_get_payload(v, ev.close(st, i))
    if it == "usize" and base(t) == "IndexSet":
        l = map_items(v)
        if l is not None and is_num(i) and all(c is TRUE for c, k, x in l) and 0 <= nval(i) < len(l):
            return l[int(nval(i))][1]
        return app("key_at", v, i)
    if it == "usize":
        return index(v, i)
    return slice_of(v, i, base(it)) or NotImplemented


def slice_of(v, i, rb):
    """v[a..b] on a slice or vector."""
    if rb not in ("Range", "RangeTo", "RangeFrom", "RangeFull", "RangeInclusive", "RangeToInclusive"):
        return None
    if rb == "RangeFull":
        return v
    a = field(i, "start") if rb in ("Range", "RangeFrom", "RangeInclusive") else num(0)
    b = length(v) if rb == "RangeFrom" else field(i, "end")
    if rb.endswith("Inclusive"):
        b = add(b, num(1))
    return subslice(v, a, b)


def subslice(v, a, b):
    if v.op == "agg" and v.args[0][0] == "array" and is_num(a) and is_num(b):
        return mk("agg", ("array",), *v.args[1 + int(nval(a)):1 + int(nval(b))])
    if is_num(a) and nval(a) == 0 and same(b, length(v)):
        return v
    if v.op == "subslice":
        return mk("subslice", v.args[0], add(v.args[1], a), sub(b, a))
    return mk("subslice", v, a, sub(b, a))


def range_bounds(v, i, rb):
    """(first, one past the last) of a range used on v."""
    if rb == "RangeFull":
        return num(0), length(v)
    a = field(i, "start") if rb in ("Range", "RangeFrom", "RangeInclusive") else num(0)
    b = length(v) if rb == "RangeFrom" else field(i, "end")
    if rb.endswith("Inclusive"):
        b = add(b, num(1))
    return a, b


def m_index(v, i, t, it):
    d = const_dims(t)
    if it.startswith("("):
        r, c = field(i, "0"), field(i, "1")
    else:
        # linear index, column-major; exact for column vectors
        if d and d[1] != 1 and is_num(i):
            k = int(nval(i))
            r, c = num(k % d[0]), num(k // d[0])
        else:
            r, c = i, num(0)
    v = as_m(v, t)
    if is_num(r) and is_num(c):
        return ment(v, int(nval(r)), int(nval(c)))
    return mk("ent", v, r, c)


@model("IndexMut::index_mut")
def _(ev, fr, f, a, st, pc, dty):
    if ev.resolve(f) is not None:
        return NotImplemented
    t, it = deref_ty(tyof(f, 0)), tyof(f, 1)
    i = dv(ev, st, a[1])
    r = a[0]
    if r.op != "ref":
        return NotImplemented
    if matty(t):
        d = const_dims(t)
        if it.startswith("("):
            ri, ci = field(i, "0"), field(i, "1")
        elif d and d[1] != 1 and is_num(i):
            ri, ci = num(int(nval(i)) % d[0]), num(int(nval(i)) // d[0])
        else:
            ri, ci = i, num(0)
        v = dv(ev, st, r)
        v2 = as_m(v, t)
        if v2 is not v:
            ev.write(st, r, v2)
        return ev.ref(r.args[0], r.args[1] + (("ment", ri, ci),))
    if it == "usize":
        return ev.ref(r.args[0], r.args[1] + (("idx", i),))
    if base(it) in ("Range", "RangeTo", "RangeFrom", "RangeFull", "RangeInclusive", "RangeToInclusive"):
        x, y = range_bounds(dv(ev, st, r), i, base(it))
        return ev.ref(r.args[0], r.args[1] + (("sub", x, y),))
    return NotImplemented


# ------------------------------------------------------------------ iterators
def mkiter(s):
    return mk("iter", s, num(0))


def to_stream(ev, st, v, ty=""):
    """Any iterable value -> stream (remaining items)."""
    if v.op == "iter":
        s, p = v.args
        if is_num(p) and nval(p) == 0:
            return s
        return stream(sub(s.args[0], p), lambda i: stream_item(s, add(p, i)))
    if v.op == "stream":
        return v
    if v.op == "agg" and v.args[0][0] == "adt":
        k = v.args[0]
        if k[1].endswith("ops::range::Range"):
            lo, hi = v.args[1], v.args[2]
            return stream(sub(hi, lo), lambda i: add(lo, i))
        if k[1].endswith("RangeInclusive"):
            lo, hi = v.args[1], v.args[2]
            return stream(add(sub(hi, lo), num(1)), lambda i: add(lo, i))
        if k[1].endswith("Option"):
            if k[2] == "None":
                return stream(num(0), lambda i: BOT)
            return stream(num(1), lambda i: v.args[1])
    if v.op == "mat":
        r, c = v.args[0], v.args[1]
        els = [v.args[2 + i * c + j] for j in range(c) for i in range(r)]
        arr = mk("agg", ("array",), *els)
        return stream(num(len(els)), lambda i: index(arr, i))
    if v.op == "collect":
        return v.args[0]
    if v.op == "app" and v.args[0] in ("rangeincl",):
        return stream(add(sub(v.args[2], v.args[1]), num(1)), lambda i: add(v.args[1], i))
    return stream(length(v), lambda i: index(v, i))


@model("RangeInclusive::new")
def _(ev, fr, f, a, st, pc, dty):
    return app("rangeincl", a[0], a[1])


@model("IntoIterator::into_iter", "Vec::iter", "slice::iter", "[T]::iter", "Matrix::iter", "VecDeque::iter", "Iterator::into_iter",
       "Option::iter", "Vec::into_iter")
def _(ev, fr, f, a, st, pc, dty):
    if ev.resolve(f) is not None:
        return NotImplemented
    v = a[0]
    if f.name == "into_iter" and ev.F.find("next", base(tyof(f, 0)), "Iterator", one=False):
        return v                                  # an iterator of the code under analysis
    if v.op == "ref":
        x = dv(ev, st, v)
        t = tyof(f, 0)
        if x.op in ("iter", "piter"):
            return v
        if "&mut" in t or "mut " in t[:8]:
            if base(t) in ("IndexMap", "BTreeMap", "HashMap"):
                l = map_order(map_items(x), base(t))
                if l is None:
                    return NotImplemented
                return mkp([(c, tup(k, ev.ref(v.args[0], v.args[1] + (("get", k),)))) for c, k, _ in l])
            return iter_mut(ev, v, x)
        v = x
    if v.op in ("iter", "mutiter", "piter"):
        return v
    t = deref_ty(tyof(f, 0))
    if f.short in ("[T]::iter", "slice::iter", "Vec::iter", "VecDeque::iter", "Vec::into_iter"):
        t = "[%s]" % t                            # the type argument is the element, not the receiver
    if v.op in ("ite", "push") and not is_num(length(v)):
        l = plist(v)
        if l is not None and any(c is not TRUE for c, x in l):
            return mkp(l)
    if not t.startswith("[") and any(x in strip_generics(t) for x in ("BTreeMap", "HashMap", "IndexMap")):
        r = map_stream(v, lambda k, x: tup(k, x), base(t))
        if r is not None:
            return r
        n = length(v)
        return mkiter(stream(n, lambda i: tup(app("key_at", v, i), app("val_at", v, i))))
    if not t.startswith("[") and any(x in strip_generics(t) for x in ("BTreeSet", "HashSet", "IndexSet")):
        r = map_stream(v, lambda k, x: k, base(t))
        if r is not None:
            return r
        return mkiter(stream(length(v), lambda i: app("key_at", v, i)))
    if v.op == "app" and v.args[0] not in ("rangeincl",) and not (t.startswith("[") or "Vec<" in t[:30] or "vec::Vec" in t[:20] or "Matrix" in t[:60]) and f.short == "IntoIterator::into_iter":
        # an unmodelled iterator adaptor: opaque items
        return mkiter(stream(app("count", v), lambda i: app("nth", v, i)))
    if matty(t):
        v = as_m(v, t)
        d = _dimsof(t)
        if d and v.op != "mat" and d[0] * d[1] <= 100:
            v = full_m(v, d)
    elif f.short == "Matrix::iter":
        d = recv_dims(f)
        if d and v.op == "ite" and d[0] * d[1] <= 100:
            v = mat(d[0], d[1], [ment(v, i, j) for i in range(d[0]) for j in range(d[1])])
        elif d and v.op != "mat" and d[0] * d[1] <= 100:
            v = full_m(v, d)
    return mkiter(to_stream(ev, st, v))


for mp in ("BTreeMap", "HashMap", "IndexMap"):
    def _mi(ev, fr, f, a, st, pc, dty):
        v = dv(ev, st, a[0])
        r = map_stream(v, lambda k, x: tup(k, x), f.short)
        if r is not None:
            return r
        return mkiter(stream(length(v), lambda i: tup(app("key_at", v, i), app("val_at", v, i))))

    def _mk_(ev, fr, f, a, st, pc, dty):
        v = dv(ev, st, a[0])
        r = map_stream(v, lambda k, x: k, f.short)
        if r is not None:
            return r
        return mkiter(stream(length(v), lambda i: app("key_at", v, i)))

    def _mv_(ev, fr, f, a, st, pc, dty):
        v = dv(ev, st, a[0])
        r = map_stream(v, lambda k, x: x, f.short)
        if r is not None:
            return r
        return mkiter(stream(length(v), lambda i: app("val_at", v, i)))
    M[mp + "::iter"] = _mi
    M[mp + "::keys"] = _mk_
    M[mp + "::values"] = _mv_
    M[mp + "::into_values"] = _mv_
for mp in ("BTreeSet", "HashSet", "IndexSet"):
    M[mp + "::iter"] = M["BTreeMap::keys"]


@model("BTreeMap::range")
def _(ev, fr, f, a, st, pc, dty):
    v, r = dv(ev, st, a[0]), dv(ev, st, a[1])
    l = map_order(map_items(v), f.short)
    if l is None or r.op != "agg" or r.args[0][0] != "adt":
        return NotImplemented
    t, lo, hi = base(r.args[0][1]), TRUE, TRUE
    if t == "RangeFrom":
        lo = field(r, "start")
        inside = lambda k: tobool(le(lo, k))
    elif t == "Range":
        inside = lambda k: band(tobool(le(field(r, "start"), k)), tobool(lt(k, field(r, "end"))))
    elif t == "RangeTo":
        inside = lambda k: tobool(lt(k, field(r, "end")))
    elif t == "RangeFull":
        inside = lambda k: TRUE
    else:
        return NotImplemented
    return mkp([(band(c, inside(k)), tup(k, x)) for c, k, x in l])


@model("Iterator::last")
def _(ev, fr, f, a, st, pc, dty):
    l = p_of(ev, st, a[0])
    if l is None:
        s = s_of(ev, st, a[0])
        if s is None:
            return NotImplemented
        n = s.args[0]
        return ite(tobool(lt(num(0), n)), some(stream_item(s, sub(n, num(1)))), NONE)
    r = NONE
    for c, x in l:
        r = ite(c, some(x), r)
    return r


@model("DoubleEndedIterator::next_back")
def _(ev, fr, f, a, st, pc, dty):
    if ev.resolve(f) is not None:
        return NotImplemented
    v = dv(ev, st, a[0])
    if v.op == "piter":
        l = pitems(v)
        if not l:
            return NONE
        if l[-1][0] is not TRUE:
            return NotImplemented
        ev.write(st, a[0], mkp(l[:-1]))
        return some(l[-1][1])
    if v.op == "iter":
        s, p = v.args
        n = s.args[0]
        g = lt(p, n)
        ev.write(st, a[0], mk("iter", mk("stream", ite(g, sub(n, num(1)), n), *s.args[1:]), p))
        return ite(g, some(stream_item(s, sub(n, num(1)))), NONE) if g is not FALSE else NONE
    return NotImplemented


@model("BTreeMap::last_key_value", "BTreeMap::first_key_value")
def _(ev, fr, f, a, st, pc, dty):
    l = map_order(map_items(dv(ev, st, a[0])), f.short)
    if l is None:
        return NotImplemented
    r = NONE
    for c, k, x in l if "last" in f.short else reversed(l):
        r = ite(c, some(tup(k, x)), r)
    return r


@model("Peekable::peek")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if v.op == "piter":
        return pnext(v)[0]
    if v.op == "iter":
        s, p = v.args
        g = lt(p, s.args[0])
        return ite(g, some(stream_item(s, p)), NONE) if g is not FALSE else NONE
    return NotImplemented


def view_dims(r):
    if r.op == "ref" and r.args[1] and r.args[1][-1][0] == "view":
        return tuple(r.args[1][-1][3:5])
    return None


def iter_mut(ev, ref, x):
    p = ref.args[1]
    if p and p[-1][0] == "sub" and x.op == "subslice" and x.args[0].op == "agg" and x.args[0].args[0][0] == "array":
        a, b = p[-1][1:]
        n = len(x.args[0].args) - 1
        return mkp([(band(le(a, num(k)), lt(num(k), b)), ev.ref(ref.args[0], p[:-1] + (("idx", num(k)),))) for k in range(n)])
    if x.op == "mat":
        n = num(x.args[0] * x.args[1])
        return mk("mutiter", n, ref, num(0), "m%d" % x.args[0])
    return mk("mutiter", length(x), ref, num(0), "v")


@model("Vec::iter_mut", "slice::iter_mut", "[T]::iter_mut", "Matrix::iter_mut")
def _(ev, fr, f, a, st, pc, dty):
    if a[0].op != "ref":
        return NotImplemented
    x = dv(ev, st, a[0])
    if "Matrix" in f.short:
        d = view_dims(a[0]) or recv_dims(f)
        if x.op != "mat" and d and d[0] * d[1] <= 100:
            return mk("mutiter", num(d[0] * d[1]), a[0], num(0), "m%d" % d[0])
        return NotImplemented if x.op != "mat" else iter_mut(ev, a[0], x)
    return iter_mut(ev, a[0], x)


# ---- finite lists whose members are present under conditions: piter[pos, c0, x0, c1, x1, ...]
PMAX = 40


def plist(v, d=0):
    """[(condition, item)] of a vector term with a statically bounded number of items, else None."""
    if d > 60:
        return None
    if v.op == "vec0":
        return []
    if v.op == "agg" and v.args[0][0] == "array":
        return [(TRUE, x) for x in v.args[1:]]
    if v.op == "push":
        b = plist(v.args[0], d + 1)
        return None if b is None else b + [(TRUE, v.args[1])]
    if v.op == "store" and is_num(v.args[1]):
        l, k = plist(v.args[0], d + 1), int(nval(v.args[1]))
        if l is None or not 0 <= k < len(l) or any(c is not TRUE for c, x in l[:k + 1]):
            return None
        return l[:k] + [(TRUE, v.args[2])] + l[k + 1:]
    if v.op == "subslice":
        l = plist(v.args[0], d + 1)
        if l is None:
            return None
        lo, hi, n = v.args[1], None, v.args[2]
        if n.op == "add" and len(n.args) == 2:
            hi = [x for x, y in (n.args, n.args[::-1]) if y is neg(lo)]
            hi = hi[0] if hi else None
        hi = add(lo, n) if hi is None else hi
        return cut(None, l, lambda p: band(le(lo, p), lt(p, hi)))[0]
    if v.op == "collect" and is_num(v.args[0].args[0]):
        n = int(nval(v.args[0].args[0]))
        return [(TRUE, stream_item(v.args[0], num(k))) for k in range(n)] if n <= PMAX else None
    if v.op == "ite":
        c, a, b = v.args
        la, lb = plist(a, d + 1), plist(b, d + 1)
        if la is None or lb is None:
            return None
        k = 0
        while k < len(la) and k < len(lb) and la[k][0] is lb[k][0] and la[k][1] is lb[k][1]:
            k += 1
        r = la[:k]
        i, j = k, k
        while i < len(la) or j < len(lb):
            if i < len(la) and j < len(lb) and la[i][1] is lb[j][1]:
                r.append((bite(c, la[i][0], lb[j][0]), la[i][1]))
                i, j = i + 1, j + 1
            elif i < len(la):
                r.append((band(c, la[i][0]), la[i][1]))
                i += 1
            else:
                r.append((band(bnot(c), lb[j][0]), lb[j][1]))
                j += 1
        return r if len(r) <= PMAX else None
    return None


def mkp(items):
    flat = []
    for c, x in items:
        if c is not FALSE:
            flat += [c, x]
    return mk("piter", 0, *flat)


def pitems(v):
    """Remaining items of an iterator value, when statically bounded."""
    if v.op == "piter":
        r = [(v.args[i], v.args[i + 1]) for i in range(1, len(v.args), 2)]
        return r[v.args[0]:]
    if v.op == "ite":
        return None
    return None


def p_of(ev, st, a, conditional=False):
    """Items of an iterator argument; conditional: only for iterators with conditional members."""
    v = dv(ev, st, a)
    r = pitems(v)
    if r is None:
        l = mut_items(ev, st, a)
        r = l and [(TRUE, x) for x in l]
    if r is not None or conditional:
        return r
    s = s_of(ev, st, a)
    if s is not None and is_num(s.args[0]) and nval(s.args[0]) <= PMAX:
        return [(TRUE, stream_item(s, num(k))) for k in range(max(0, int(nval(s.args[0]))))]
    return None


def pvec(items):
    r = VEC0
    if all(c is TRUE for c, x in items):
        return mk("agg", ("array",), *[x for c, x in items])
    for c, x in items:
        r = ite(c, mk("push", r, x), r)
    return r


def pnext(v):
    """(value of next(), iterator afterwards)"""
    p = v.args[0]
    its = [(v.args[i], v.args[i + 1]) for i in range(1, len(v.args), 2)]
    if p >= len(its):
        return NONE, v
    if its[p][0] is TRUE:
        return some(its[p][1]), mk("piter", p + 1, *v.args[1:])
    r, seen, rest = NONE, FALSE, []
    for c, x in its[p:]:
        rest.append((band(c, seen), x))
        seen = bor(seen, c)
    for c, x in reversed(its[p:]):
        r = ite(c, some(x), r)
    return r, mkp(rest)


def papply(ev, fr, c, xs, st, pc):
    r = ev.apply(fr, c, xs, st, pc)
    if isinstance(r, tuple):
        return ev.close(r[1], r[0]), r[1], r[2]
    return ev.close(st, r), st, pc


def mapply(ev, fr, c, xs, st, pc):
    """Closure on mutable references to fresh copies of xs: (value, values of the copies afterwards)."""
    s = dict(st)
    cs = [ev.cell(s, x) for x in xs]
    v, s2, p2 = papply(ev, fr, c, [ev.ref(k) for k in cs], s, pc)
    own = [k for k in st if s2.get(k, BOT) is not st[k]]
    return v, [ev.close(s2, s2[k]) for k in cs], {k: s2[k] for k in own if k in s2}


def padapt(ev, fr, f, a, st, pc, dty, its):
    """Adaptors and consumers over finite conditional lists; None when not handled."""
    nm = f.name
    if nm in ("map", "filter", "filter_map", "flat_map", "take_while", "inspect"):
        out = []
        going = TRUE
        for c, x in its:
            if c is FALSE:
                continue
            s0 = dict(st)
            v, s2, p2 = papply(ev, fr, a[1], [x], s0, band(pc, c))
            if any(s2.get(k, BOT) is not st[k] for k in st):
                return None
            if nm == "map":
                out.append((c, v))
            elif nm == "inspect":
                out.append((c, x))
            elif nm == "filter":
                out.append((band(c, tobool(v)), x))
            elif nm == "take_while":
                going = band(going, bor(bnot(c), tobool(v)))
                out.append((band(c, going), x))
            elif nm == "filter_map":
                out.append((band(c, p_some(v)), pay(v)))
            else:
                fl = flat1(ev, st, v)
                if fl is None:
                    return None
                out += [(band(c, c2), y) for c2, y in fl]
        return mkp(out)
    if nm == "flatten":
        out = []
        for c, x in its:
            fl = flat1(ev, st, x, tyof(f, 0))
            if fl is None:
                return None
            out += [(band(c, c2), y) for c2, y in fl]
        return mkp(out)
    if nm == "enumerate":
        out, n = [], num(0)
        for c, x in its:
            out.append((c, tup(n, x)))
            n = add(n, ite(c, num(1), num(0)))
        return mkp(out)
    if nm == "rev":
        return mkp(its[::-1])
    if nm == "count":
        n = num(0)
        for c, x in its:
            n = add(n, ite(c, num(1), num(0)))
        return n
    if nm == "sum":
        t = mk("mzero") if matty(dty) else num(0)
        for c, x in its:
            t = ite(c, madd(t, as_m(x, dty)) if matty(dty) else add(t, x), t)
        return t
    if nm == "product":
        t = num(1)
        for c, x in its:
            t = ite(c, mul(t, x), t)
        return t
    if nm == "last":
        r = NONE
        for c, x in its:
            r = ite(c, some(x), r)
        return r
    if nm == "fold":
        acc = a[1]
        for c, x in its:
            v, st2, p2 = papply(ev, fr, a[2], [acc, x], dict(st), band(pc, c))
            if any(st2.get(k, BOT) is not st[k] for k in st):
                return None
            acc = ite(c, v, acc)
        return acc
    if nm in ("any", "all"):
        r = FALSE if nm == "any" else TRUE
        for c, x in its:
            v = tobool(papply(ev, fr, a[1], [x], dict(st), band(pc, c))[0])
            r = bor(r, band(c, v)) if nm == "any" else band(r, bor(bnot(c), v))
        return r
    if nm in ("find", "find_map", "position"):
        r = NONE
        pos, ps = num(0), []
        for c, x in its:
            ps.append(pos)
            pos = add(pos, ite(c, num(1), num(0)))
        for (c, x), k in reversed(list(zip(its, ps))):
            v = papply(ev, fr, a[1], [x], dict(st), band(pc, c))[0]
            if nm == "find_map":
                r = ite(band(c, p_some(v)), v, r)
            else:
                r = ite(band(c, tobool(v)), some(x if nm == "find" else k), r)
        return r
    if nm in ("collect", "collect_vec"):
        t = strip_generics(dty)
        if t.endswith("Vec") or t.endswith("Vec ") or "vec::Vec" in t[:14]:
            return pvec(its)
        if base(dty) in ("IndexSet", "BTreeSet", "HashSet", "IndexMap", "BTreeMap", "HashMap"):
            m = app("map0")
            for c, x in its:
                k, v = (x, UNIT) if base(dty).endswith("Set") else (field(x, "0"), field(x, "1"))
                m = ite(c, app("insert", m, k, v), m)
            return m
        return None
    return None


def flat1(ev, st, v, ty=""):
    """Items of one element that is itself iterable: an option, or a bounded list."""
    v = ev.close(st, dv(ev, st, v))
    if v.op == "piter":
        return pitems(v)
    l = plist(v)
    if l is not None:
        return l
    if v.op == "agg" and v.args[0][0] == "adt" and v.args[0][1].endswith("Option"):
        return [(TRUE, v.args[1])] if v.args[0][2] == "Some" else []
    if v.op == "iter" and is_num(v.args[0].args[0]) and is_num(v.args[1]):
        s = to_stream(ev, st, v)
        return [(TRUE, stream_item(s, num(k))) for k in range(int(nval(s.args[0])))]
    if "Option<" in ty or v.op == "ite" and any(x.op == "agg" and x.args[0][0] == "adt" and x.args[0][1].endswith("Option") for x in v.args[1:]):
        return [(p_some(v), pay(v))]
    return None


def finite_first(name, fn):
    """Wrap a model so that finite conditional lists are tried first (always for filtering adaptors)."""
    always = name.split("::")[-1] in ("filter", "filter_map", "flatten", "flat_map", "take_while")

    def g(ev, fr, f, a, st, pc, dty):
        if ev.resolve(f) is not None and f.trait and not f.trait.endswith("Iterator"):
            return fn(ev, fr, f, a, st, pc, dty) if fn else NotImplemented
        its = p_of(ev, st, a[0], conditional=not always)
        if its is not None:
            r = padapt(ev, fr, f, a, st, pc, dty, its)
            if r is not None:
                return r
        return fn(ev, fr, f, a, st, pc, dty) if fn else NotImplemented
    return g


def install_finite():
    for nm in ("map", "filter", "filter_map", "flat_map", "flatten", "take_while", "inspect", "enumerate", "rev", "count", "sum", "product", "last", "fold", "any", "all",
               "find", "find_map", "position", "collect", "collect_vec"):
        k = "Iterator::" + nm
        M[k] = finite_first(k, M.get(k))


@model("Iterator::next")
def _(ev, fr, f, a, st, pc, dty):
    if ev.resolve(f) is not None and dv(ev, st, a[0]).op not in ("iter", "piter", "mutiter"):
        return NotImplemented
    r = a[0]
    v = dv(ev, st, r)
    if v.op == "piter":
        x, v2 = pnext(v)
        ev.write(st, r, v2)
        return x
    if v.op == "agg" and v.args[0][0] == "adt" and v.args[0][1].endswith("ops::range::Range"):
        v = mkiter(to_stream(ev, st, v))
    if v.op == "iter":
        s, p = v.args
        n = s.args[0]
        g = lt(p, n)
        ev.write(st, r, mk("iter", s, ite(g, add(p, num(1)), p) if g is not FALSE else p))
        return ite(g, some(stream_item(s, p)), NONE)
    if v.op == "mutiter":
        n, ref, p, kind = v.args
        g = lt(p, n)
        ev.write(st, r, mk("mutiter", n, ref, add(p, num(1)) if g is not FALSE else p, kind))
        if kind == "v":
            el = ("idx", p)
        else:
            rows = int(kind[1:])
            if not is_num(p):
                return NotImplemented
            el = ("ment", num(int(nval(p)) % rows), num(int(nval(p)) // rows))
        return ite(g, some(ev.ref(ref.args[0], ref.args[1] + (el,))), NONE) if g is not TRUE else some(ev.ref(ref.args[0], ref.args[1] + (el,)))
    if v.op == "mapiter":
        pass
    return NotImplemented


def s_of(ev, st, a):
    v = dv(ev, st, a)
    if v.op in ("iter", "stream"):
        return to_stream(ev, st, v)
    if v.op == "agg" and v.args[0][0] == "adt" and "Range" in v.args[0][1]:
        return to_stream(ev, st, v)
    if v.op == "app" and v.args[0] == "rangeincl":
        return to_stream(ev, st, v)
    return None


def pure_map(ev, fr, c, st, pc, mkargs):
    """Evaluate closure c at a symbolic index; returns function idx->value or None if it has effects."""
    i = sym("§probe%d" % ev.ncell)
    s2 = dict(st)
    r = ev.apply(fr, c, mkargs(i), s2, pc)
    if isinstance(r, tuple):
        v, s3, p3 = r
    else:
        v, s3, p3 = r, s2, pc
    for k in st:
        if s3.get(k, BOT) is not st[k]:
            return None
    v = ev.close(s3, v)
    return lambda j: subst(v, {i: j})


def mut_items(ev, st, a):
    """References yielded by a mutable iterator over a list of known length."""
    v = dv(ev, st, a)
    if v.op != "mutiter" or not is_num(v.args[0]) or not is_num(v.args[2]) or nval(v.args[0]) > (24 if v.args[3] == "v" else 100):
        return None
    r = v.args[1]
    if v.args[3] != "v":
        rows = int(v.args[3][1:])
        return [ev.ref(r.args[0], r.args[1] + (("ment", num(k % rows), num(k // rows)),)) for k in range(int(nval(v.args[2])), int(nval(v.args[0])))]
    return [ev.ref(r.args[0], r.args[1] + (("idx", num(k)),)) for k in range(int(nval(v.args[2])), int(nval(v.args[0])))]


def _for_each_items(ev, fr, f, a, st, pc, dty):
    l = mut_items(ev, st, a[0])
    its = [(TRUE, x) for x in l] if l is not None else p_of(ev, st, a[0])
    if its is None:
        return NotImplemented
    for c, x in its:
        v, s2, p2 = papply(ev, fr, a[1], [x], dict(st), band(pc, c))
        for k in list(st):
            if s2.get(k, BOT) is not st[k]:
                st[k] = ite(c, s2[k], st[k])
    return UNIT


@model("Iterator::map")
def _(ev, fr, f, a, st, pc, dty):
    l = mut_items(ev, st, a[0])
    if l is not None:
        out = []
        for x in l:
            r = ev.apply(fr, a[1], [x], st, pc)
            if isinstance(r, tuple):
                v, st, pc = r
            else:
                v = r
            out.append(ev.close(st, v))
        arr = mk("agg", ("array",), *out)
        return mkiter(stream(num(len(l)), lambda i: index(arr, i))), st, pc
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    n = s.args[0]
    if is_num(n) and nval(n) <= 40:
        out = []
        s2 = st
        for k in range(int(nval(n))):
            r = ev.apply(fr, a[1], [stream_item(s, num(k))], s2, pc)
            if isinstance(r, tuple):
                v, s2, pc = r
            else:
                v = r
            out.append(ev.close(s2, v))
        arr = mk("agg", ("array",), *out)
        return mkiter(stream(n, lambda i: index(arr, i))), s2, pc
    g = pure_map(ev, fr, a[1], st, pc, lambda i: [stream_item(s, i)])
    if g is None:
        return unk("effectful map")
    return mkiter(stream(n, g))


@model("Iterator::min", "Iterator::max")
def _(ev, fr, f, a, st, pc, dty):
    l = p_of(ev, st, a[0])
    t = dty[dty.find("<") + 1:-1] if "<" in dty else ""
    if l is None or not ordered(t):
        return NotImplemented
    got, r = FALSE, num(0)
    g = fmin if f.name == "min" else fmax
    for c, x in l:
        x = ev.close(st, dv(ev, st, x))
        r = ite(c, ite(got, g(r, x), x), r)
        got = bor(got, c)
    return ite(got, some(r), NONE)


@model("[T]::windows", "slice::windows", "[T]::chunks", "slice::chunks")
def _(ev, fr, f, a, st, pc, dty):
    l = plist(dv(ev, st, a[0]))
    if l is None or not is_num(a[1]) or any(c is not TRUE for c, x in l) or nval(a[1]) < 1:
        return NotImplemented
    n, xs = int(nval(a[1])), [x for c, x in l]
    ws = [xs[i:i + n] for i in (range(len(xs) - n + 1) if f.name == "windows" else range(0, len(xs), n))]
    return mkp([(TRUE, mk("agg", ("array",), *w)) for w in ws])


@model("Iterator::enumerate")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if v.op == "mutiter":
        l = mut_items(ev, st, a[0])
        return NotImplemented if l is None else mkp([(TRUE, tup(num(k), x)) for k, x in enumerate(l)])
    if v.op == "piter":
        return mkp([(c, tup(n, x)) for c, x, n in pcounted(pitems(v))])
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    return mkiter(stream(s.args[0], lambda i: tup(i, stream_item(s, i))))


@model("Iterator::rev")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    n = s.args[0]
    return mkiter(stream(n, lambda i: stream_item(s, sub(sub(n, num(1)), i))))


@model("Iterator::zip")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    b = dv(ev, st, a[1])
    if s is None and b.op != "app":
        l = mut_items(ev, st, a[0])
        t = to_stream(ev, st, b) if l is not None else None
        if t is not None and t.op == "stream" and is_num(t.args[0]):
            n = min(len(l), int(nval(t.args[0])))
            return mkp([(TRUE, tup(l[k], stream_item(t, num(k)))) for k in range(n)])
    if s is not None and b.op == "mutiter":
        l = mut_items(ev, st, a[1])
        if l is not None and is_num(s.args[0]):
            return mkp([(TRUE, tup(stream_item(s, num(k)), l[k])) for k in range(min(len(l), int(nval(s.args[0]))))])
        return NotImplemented
    t = to_stream(ev, st, b) if b.op != "app" or b.args[0] == "rangeincl" else None
    if s is None:
        return NotImplemented
    if t is None:
        t = to_stream(ev, st, b)
    return mkiter(stream(fmin(s.args[0], t.args[0]), lambda i: tup(stream_item(s, i), stream_item(t, i))))


def pcounted(l):
    """[(condition, item, number of present items before it)]."""
    n, out = num(0), []
    for c, x in l:
        out.append((c, x, n))
        n = add(n, ite(c, num(1), num(0)))
    return out


@model("Iterator::take")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if v.op == "piter":
        return mkp([(band(c, tobool(lt(n, a[1]))), x) for c, x, n in pcounted(pitems(v))])
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    if is_num(a[1]) and nval(a[1]) < 0:
        ev.notes.append("panic: the number of items to take is negative, in " + fr["body"].id)
    return mkiter(stream(fmin(s.args[0], a[1]), lambda i: stream_item(s, i)))


@model("Iterator::skip")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    k = a[1]
    n = s.args[0]
    nn = sub(n, k)
    if is_num(nn):
        nn = fmax(nn, num(0))
    return mkiter(stream(nn, lambda i: stream_item(s, add(i, k))))


@model("Iterator::chain")
def _(ev, fr, f, a, st, pc, dty):
    s, t = s_of(ev, st, a[0]), s_of(ev, st, a[1])
    if s is None or t is None:
        return NotImplemented
    n = s.args[0]

    def item(i):
        g = lt(i, n)
        if g is TRUE:
            return stream_item(s, i)
        if g is FALSE:
            return stream_item(t, sub(i, n))
        return ite(g, stream_item(s, i), stream_item(t, sub(i, n)))
    return mkiter(stream(add(n, t.args[0]), item))


@model("Iterator::sum", "Iterator::product")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    if f.name == "sum":
        if matty(dty):
            return fold(s.args[0], mk("mzero"), lambda acc, i: madd(acc, as_m(stream_item(s, i), dty)))
        return fold(s.args[0], num(0), lambda acc, i: add(acc, stream_item(s, i)))
    return fold(s.args[0], num(1), lambda acc, i: mul(acc, stream_item(s, i)))


@model("Iterator::fold")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    n = s.args[0]
    if is_num(n) and nval(n) <= 40:
        acc = a[1]
        for k in range(int(nval(n))):
            r = ev.apply(fr, a[2], [acc, stream_item(s, num(k))], st, pc)
            if isinstance(r, tuple):
                acc, st, pc = r
            else:
                acc = r
        return acc, st, pc
    accs = sym("§acc%d" % ev.ncell)
    g = pure_map(ev, fr, a[2], st, pc, lambda i: [accs, stream_item(s, i)])
    if g is None:
        return unk("effectful fold")
    return fold(n, a[1], lambda acc, i: subst(g(i), {accs: acc}))


@model("Iterator::try_fold", "Iterator::try_for_each")
def _(ev, fr, f, a, st, pc, dty):
    """Short-circuiting fold over a list of known length."""
    t = base(dty)
    if t not in ("Result", "Option"):
        return NotImplemented
    key, good, bad = (RES, "Ok", "Err") if t == "Result" else (OPT, "Some", "None")
    each = f.name == "try_for_each"
    its = p_of(ev, st, a[0])
    if its is None:
        return NotImplemented
    acc = UNIT if each else a[1]
    clo = a[-1]
    wrap = ok if t == "Result" else some
    going = TRUE
    ret = wrap(acc)
    outs = []
    for c, x in its:
        g = band(going, c)
        if g is FALSE:
            continue
        v, s2, p2 = papply(ev, fr, clo, [x] if each else [acc, x], dict(st), band(pc, g))
        for k in list(st):
            if s2.get(k, BOT) is not st[k]:
                st[k] = ite(g, s2[k], st[k])
        q = is_variant(v, key, good)
        outs.append((g, q, v))
        if not each:
            acc = ite(g, field(v, "0", good), acc)
        going = band(going, bor(bnot(c), q))
    r = wrap(UNIT if each else acc)
    for g, q, v in reversed(outs):
        r = ite(band(g, bnot(q)), NONE if t == "Option" else err(field(v, "0", "Err")), r)
    return r


@model("Iterator::collect", "Iterator::collect_vec", "Itertools::collect_vec")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    t = strip_generics(dty)
    if t.endswith("Vec") or t.endswith("Vec ") or "vec::Vec" in t:
        n = s.args[0]
        if is_num(n) and nval(n) <= 40:
            return mk("agg", ("array",), *[stream_item(s, num(k)) for k in range(int(nval(n)))])
        return mk("collect", s)
    if base(dty) in ("Result", "Option") and is_num(s.args[0]) and nval(s.args[0]) <= 12 and "vec::Vec<" in dty.split("<", 1)[-1][:40]:
        # the first failure, or all of the values
        o = base(dty) == "Option"
        xs = [stream_item(s, num(k)) for k in range(int(nval(s.args[0])))]
        g = [is_variant(x, OPT, "Some") if o else is_variant(x, RES, "Ok") for x in xs]
        vals = [field(x, "0", "Some" if o else "Ok") for x in xs]
        all_ = mk("agg", ("array",), *vals)
        r = some(all_) if o else ok(all_)
        for x, c in reversed(list(zip(xs, g))):
            r = ite(c, r, NONE if o else err(field(x, "0", "Err")))
        return r
    if base(dty) in ("IndexSet", "BTreeSet", "HashSet", "IndexMap", "BTreeMap", "HashMap") and is_num(s.args[0]) and nval(s.args[0]) <= 40:
        m = app("map0")
        for q in range(int(nval(s.args[0]))):
            x = stream_item(s, num(q))
            k, v = (x, UNIT) if base(dty).endswith("Set") else (field(x, "0"), field(x, "1"))
            m = app("insert", m, k, v)
        return m
    return app("collect_" + base(dty), s)


@model("Iterator::for_each")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None:
        return _for_each_items(ev, fr, f, a, st, pc, dty)
    n = s.args[0]
    if is_num(n) and nval(n) <= 40:
        for k in range(int(nval(n))):
            r = ev.apply(fr, a[1], [stream_item(s, num(k))], st, pc)
            if isinstance(r, tuple):
                _, st, pc = r
        return UNIT, st, pc
    return unk("for_each")


@model("Iterator::partition")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None or not is_num(s.args[0]) or nval(s.args[0]) > 12 or dty.count("Vec<") != 2:
        return NotImplemented
    parts = ([], [])
    for k in range(int(nval(s.args[0]))):
        it = stream_item(s, num(k))
        x = ev.apply(fr, a[1], [it], st, pc)
        c = tobool(ev.close(st, x[0] if isinstance(x, tuple) else x))
        if c not in (TRUE, FALSE):
            return NotImplemented
        parts[0 if c is TRUE else 1].append(ev.close(st, it))
    return mk("agg", ("tuple",), *[mk("agg", ("array",), *p) for p in parts])


@model("Iterator::any", "Iterator::all", "Iterator::position", "Iterator::find", "Iterator::filter", "Iterator::min_by", "Iterator::max_by",
       "Iterator::filter_map", "Iterator::flat_map", "Iterator::take_while", "Iterator::skip_while", "Iterator::find_map", "Iterator::count", "Iterator::rposition")
def _(ev, fr, f, a, st, pc, dty):
    s = s_of(ev, st, a[0])
    if s is None:
        return NotImplemented
    if f.name == "count":
        return s.args[0]
    if f.name in ("any", "all"):
        n = s.args[0]
        if is_num(n) and nval(n) <= 24:
            r = FALSE if f.name == "any" else TRUE
            for k in range(int(nval(n))):
                x = ev.apply(fr, a[1], [stream_item(s, num(k))], st, pc)
                v = x[0] if isinstance(x, tuple) else x
                r = bor(r, tobool(v)) if f.name == "any" else band(r, tobool(v))
            return r
        g = pure_map(ev, fr, a[1], st, pc, lambda i: [stream_item(s, i)])
        if g is None:
            return unk(f.name)
        if f.name == "any":
            return batom(app("any", stream(n, lambda i: tobool(g(i)))))
        return bnot(batom(app("any", stream(n, lambda i: bnot(tobool(g(i)))))))
    n = s.args[0]
    if f.name in ("find", "position", "find_map", "rposition") and is_num(n) and nval(n) <= 24:
        got = []
        for k in range(int(nval(n))):
            it = stream_item(s, num(k))
            x = ev.apply(fr, a[1], [it], st, pc)
            v = ev.close(st, x[0] if isinstance(x, tuple) else x)
            got.append((it, v))
        r = NONE
        for k in (range(len(got)) if f.name == "rposition" else reversed(range(len(got)))):
            it, v = got[k]
            if f.name == "find_map":
                r = ite(is_variant(v, OPT, "Some"), v, r)
            else:
                r = ite(tobool(v), some(it if f.name == "find" else num(k)), r)
        return r
    lam = ev.lam(fr, a[1], st, pc)
    r = app(f.name, s, lam)
    if f.name in ("filter", "filter_map", "flat_map", "take_while", "skip_while"):
        return mkiter(stream(app("count", r), lambda i: app("nth", r, i)))
    return r


install_finite()
ORD = "core::cmp::Ordering"


def leaves(v, g, d=0):
    """Map over the leaves of a decision tree."""
    if v.op == "ite" and d < 12:
        return ite(v.args[0], leaves(v.args[1], g, d + 1), leaves(v.args[2], g, d + 1))
    return g(v)


def sort_tree(items, done, after):
    """Stable insertion sort of `items` into `done`; after(a, b): boolean term 'a goes after b'."""
    if not items:
        return mk("agg", ("array",), *done)
    x, rest = items[0], items[1:]

    def place(k):
        if k == 0:
            return sort_tree(rest, [x] + done, after)
        return ite(after(done[k - 1], x), place(k - 1), sort_tree(rest, done[:k] + [x] + done[k:], after))
    return place(len(done))


@model("[T]::sort_by", "[T]::sort_unstable_by", "[T]::sort_by_key", "[T]::sort_unstable_by_key", "[T]::sort_by_cached_key", "slice::sort_by", "slice::sort_by_key",
       "ParallelSliceMut::par_sort_by", "ParallelSliceMut::par_sort_by_key", "ParallelSliceMut::par_sort_unstable_by", "ParallelSliceMut::par_sort_unstable_by_key", "ParallelSliceMut::par_sort_by_cached_key")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])

    def cmp(x, y):
        if "key" in f.name:
            kx, ky = (papply(ev, fr, a[1], [z], dict(st), pc)[0] for z in (x, y))
            return lt(ky, kx)
        return is_variant(papply(ev, fr, a[1], [x, y], dict(st), pc)[0], ORD, "Greater")
    bad = []

    def one(t):
        l = plist(t)
        if l is not None and 4 < len(l) <= 12 and all(c is TRUE for c, x in l):
            done = []
            for c, x in l:      # every comparison is decided
                k = len(done)
                while k > 0:
                    g = tobool(cmp(done[k - 1], x))
                    if g not in (TRUE, FALSE):
                        bad.append(t)
                        return t
                    if g is FALSE:
                        break
                    k -= 1
                done.insert(k, x)
            return mk("agg", ("array",), *done)
        if l is None or len(l) > 4:
            bad.append(t)
            return t

        def split(kept, rest):      # every subset of the items that may be absent
            if not rest:
                return sort_tree(kept, [], cmp)
            (c, x), rest = rest[0], rest[1:]
            w = split(kept + [x], rest)
            return w if c is TRUE else ite(c, w, split(kept, rest))
        return split([], l)
    r = leaves(v, one)
    if bad:
        return NotImplemented
    ev.write(st, a[0], r)
    return UNIT


@model("Vec::dedup_by_key", "Vec::dedup_by", "Vec::dedup")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    bad = []

    def one(t):
        l = plist(t)
        if l is None or len(l) > 12 or any(c is not TRUE for c, x in l):
            bad.append(t)
            return t

        def go(kept, rest):
            if bad:
                return t
            if not rest:
                return mk("agg", ("array",), *kept)
            if not kept:
                return go([rest[0]], rest[1:])
            x, y = kept[-1], rest[0]
            if f.name == "dedup_by":
                v2, (y, x), eff = mapply(ev, fr, a[1], [y, x], st, pc)
                if eff:
                    bad.append(t)
                    return t
                same_ = tobool(v2)
                keep_ = kept[:-1] + [x]
                if same_ in (TRUE, FALSE):
                    return go(keep_ + ([] if same_ is TRUE else [y]), rest[1:])
                if len(l) > 4:
                    bad.append(t)
                    return t
                return ite(same_, go(keep_, rest[1:]), go(keep_ + [y], rest[1:]))
            if f.name == "dedup":
                same_ = eq(x, y)
            else:
                same_ = eq(papply(ev, fr, a[1], [x], dict(st), pc)[0], papply(ev, fr, a[1], [y], dict(st), pc)[0])
            same_ = tobool(same_)
            if same_ in (TRUE, FALSE):
                return go(kept + ([] if same_ is TRUE else [y]), rest[1:])
            if len(l) > 4:
                bad.append(t)
                return t
            return ite(same_, go(kept, rest[1:]), go(kept + [y], rest[1:]))
        return go([], [x for c, x in l])
    r = leaves(v, one)
    if bad:
        return NotImplemented
    ev.write(st, a[0], r)
    return UNIT


@model("Vec::retain", "Vec::retain_mut")
def _(ev, fr, f, a, st, pc, dty):
    l = plist(dv(ev, st, a[0]))
    if l is None:
        return NotImplemented
    out = []
    for c, x in l:
        v, (x,), eff = mapply(ev, fr, a[1], [x], st, band(pc, c))
        for k, y in eff.items():
            st[k] = ite(c, y, st[k])
        out.append((band(c, tobool(v)), x))
    ev.write(st, a[0], pvec([z for z in out if z[0] is not FALSE]))
    return UNIT


def cut(ev, l, keep):
    """Items of the conditional list l whose position satisfies keep; and the others."""
    yes, no, pos = [], [], num(0)
    for c, x in l:
        g = keep(pos)
        yes.append((band(c, g), x))
        no.append((band(c, bnot(g)), x))
        pos = add(pos, ite(c, num(1), num(0)))
    f = lambda z: [(c, x) for c, x in z if c is not FALSE]
    return f(yes), f(no)


BND = "core::ops::range::Bound"


def bound(kind, x=None):
    return adt(BND, kind, True, ("0",) if x is not None else (), [x] if x is not None else [])


@model("RangeBounds::contains", "Range::contains", "RangeInclusive::contains")
def _(ev, fr, f, a, st, pc, dty):
    """Inside both bounds."""
    r, x = ev.close(st, dv(ev, st, a[0])), ev.close(st, dv(ev, st, a[1]))
    if r.op == "app" and r.args[0] == "rangeincl":
        return band(le(r.args[1], x), le(x, r.args[2]))
    lo, hi = (bound_of(r, k) or app("RangeBounds::" + n, r) for k, n in ((True, "start_bound"), (False, "end_bound")))
    v = lambda y, n: is_variant(y, BND, n)
    p = lambda y, n: field(y, "0", n)
    above = bite(v(lo, "Included"), le(p(lo, "Included"), x), bite(v(lo, "Excluded"), lt(p(lo, "Excluded"), x), TRUE))
    below = bite(v(hi, "Included"), le(x, p(hi, "Included")), bite(v(hi, "Excluded"), lt(x, p(hi, "Excluded")), TRUE))
    return band(above, below)


@model("RangeBounds::start_bound", "RangeBounds::end_bound")
def _(ev, fr, f, a, st, pc, dty):
    return bound_of(ev.close(st, dv(ev, st, a[0])), f.name == "start_bound") or NotImplemented


def bound_of(v, lo):
    if v.op == "agg" and v.args[0][0] == "tuple":
        return field(v, "0" if lo else "1")
    if v.op == "agg" and v.args[0][0] == "adt":
        b = base(v.args[0][1])
        if b == "RangeFull" or b in ("RangeTo", "RangeToInclusive") and lo or b == "RangeFrom" and not lo:
            return bound("Unbounded")
        if b in ("Range", "RangeFrom", "RangeTo", "RangeToInclusive"):
            return bound("Included" if lo or b.endswith("Inclusive") else "Excluded", field(v, "start" if lo else "end"))
    if v.op == "app" and v.args[0] == "rangeincl":
        return bound("Included", v.args[1 if lo else 2])
    return None


def bound_case(v, g):
    """Apply g to the value of a bound."""
    return ite(is_variant(v, BND, "Included"), bound("Included", g(field(v, "0", "Included"))),
               ite(is_variant(v, BND, "Excluded"), bound("Excluded", g(field(v, "0", "Excluded"))), bound("Unbounded")))


@model("Bound::map")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return bound_case(v, lambda x: papply(ev, fr, a[1], [x], dict(st), pc)[0])


@model("Bound::cloned", "Bound::copied", "Bound::as_ref")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    return bound_case(v, lambda x: x)


@model("Vec::pop", "VecDeque::pop_back")
def _(ev, fr, f, a, st, pc, dty):
    l = plist(dv(ev, st, a[0]))
    if l is None or not all(c is TRUE for c, x in l):
        return NotImplemented
    if not l:
        return NONE
    ev.write(st, a[0], pvec(l[:-1]))
    return some(l[-1][1])


@model("slice::last_mut", "[T]::last_mut", "slice::first_mut", "[T]::first_mut")
def _(ev, fr, f, a, st, pc, dty):
    l = plist(dv(ev, st, a[0]))
    if l is None or not all(c is TRUE for c, x in l) or a[0].op != "ref":
        return NotImplemented
    if not l:
        return NONE
    return some(ev.ref(a[0].args[0], a[0].args[1] + (("idx", num(len(l) - 1 if f.name == "last_mut" else 0)),)))


@model("Vec::truncate")
def _(ev, fr, f, a, st, pc, dty):
    l = plist(dv(ev, st, a[0]))
    if l is None:
        return NotImplemented
    ev.write(st, a[0], pvec(cut(ev, l, lambda p: lt(p, a[1]))[0]))
    return UNIT


@model("Vec::drain")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    l = plist(v)
    rb = base(tyof(f, len(f.targs) - 1))
    if l is None or not rb.startswith("Range"):
        return NotImplemented
    lo, hi = range_bounds(v, dv(ev, st, a[1]), rb)
    out, left = cut(ev, l, lambda p: band(le(lo, p), lt(p, hi)))
    ev.write(st, a[0], pvec(left))
    return mkp(out)


@model("Vec::shrink_to_fit", "Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to")
def _(ev, fr, f, a, st, pc, dty):
    return UNIT


@model("Vec::append", "Extend::extend", "Vec::extend", "Vec::extend_from_slice")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if f.short == "Extend::extend" and base(deref_ty(tyof(f, 0))) not in ("Vec", "VecDeque"):
        bt = base(deref_ty(tyof(f, 0)))
        if bt not in ("IndexMap", "BTreeMap", "HashMap", "IndexSet", "BTreeSet", "HashSet"):
            return NotImplemented
        y = dv(ev, st, a[1])
        l = pitems(y)
        if l is None and y.op == "app":
            l = map_items(y)
            l = l and [(c, tup(k, x)) for c, k, x in l]
        if l is None:
            s = s_of(ev, st, a[1])
            if s is not None and is_num(s.args[0]):
                l = [(TRUE, stream_item(s, num(k))) for k in range(int(nval(s.args[0])))]
        if l is None:
            l = plist(y)
        if l is None:
            return NotImplemented
        for c, z in l:
            z = ev.close(st, z)
            n = app("insert", v, z, UNIT) if bt.endswith("Set") else app("insert", v, field(z, "0"), field(z, "1"))
            v = ite(c, n, v)
        ev.write(st, a[0], v)
        return UNIT
    y = dv(ev, st, a[1])
    l = pitems(y)
    if l is None:
        l = plist(y)
    if l is None and y.op == "iter" and is_num(y.args[0].args[0]) and is_num(y.args[1]):
        s = to_stream(ev, st, y)
        l = [(TRUE, stream_item(s, num(k))) for k in range(int(nval(s.args[0])))]
    if l is None and f.targs and base(f.targs[-1]) == "Option":
        l = [(p_some(y), field(y, "0", "Some"))]
    if l is None:
        return NotImplemented
    x = plist(v)
    if x is not None and all(c is TRUE for c, _ in x + l):
        r = mk("agg", ("array",), *[z for _, z in x + l])
    else:
        r = v
        for c, z in l:
            r = ite(c, mk("push", r, ev.close(st, z)), r)
    ev.write(st, a[0], r)
    if f.name == "append":
        ev.write(st, a[1], VEC0)
    return UNIT


@model("[T]::reverse", "slice::reverse")
def _(ev, fr, f, a, st, pc, dty):
    l = plist(dv(ev, st, a[0]))
    if l is None:
        return NotImplemented
    ev.write(st, a[0], pvec(l[::-1]))
    return UNIT


# ------------------------------------------------------------------ nalgebra
def mself(ev, st, f, a, fr, dty):
    """Receiver matrix expanded when statically small."""
    v = dv(ev, st, a)
    return v


def recv_dims(f):
    """dims from a Matrix<T, R, C, S> generic argument list."""
    if len(f.targs) >= 3:
        r = re.match(r"^nalgebra::base::dimension::Const<(\d+)>$", f.targs[1])
        c = re.match(r"^nalgebra::base::dimension::Const<(\d+)>$", f.targs[2])
        if r and c:
            return int(r.group(1)), int(c.group(1))
    return None


def rexp(v, d):
    if d and d[0] * d[1] <= 9 and v.op != "mat":
        if v.op == "mzero":
            return mat(d[0], d[1], [num(0)] * (d[0] * d[1]))
        if v.op == "mid":
            return mat(d[0], d[1], [num(1 if i == j else 0) for i in range(d[0]) for j in range(d[1])])
        if v.op == "ite":
            return ite(v.args[0], rexp(v.args[1], d), rexp(v.args[2], d))
        if v is BOT:
            return v
        return expand(v, *d)
    return v


def full_m(v, d):
    """Entry-wise form of a statically sized matrix, whatever its size."""
    if v.op == "ite":
        return ite(v.args[0], full_m(v.args[1], d), full_m(v.args[2], d))
    if v is BOT:
        return v
    return expand(v, *d)


def big(d):
    return not d or d[0] * d[1] > 9


def onorm(v):
    return sqrt(odot(v, v)) if whitened(v) else app("norm", v)


@model("Matrix::norm", "Matrix::magnitude")
def _(ev, fr, f, a, st, pc, dty):
    v = rexp(dv(ev, st, a[0]), recv_dims(f))
    if v.op == "mat":
        return sqrt(dot(v, v))
    if v.op == "ite":
        return lift(lambda x: sqrt(dot(x, x)) if x.op == "mat" else onorm(x), v)
    return onorm(v)


def whitened(v):
    """(A, b) when v = L^-1 b with L the Cholesky factor of A."""
    if v.op == "mmul" and v.args[0].op == "minv" and v.args[0].args[0].op == "app" and v.args[0].args[0].args[0] == "chol_l":
        return v.args[0].args[0].args[1], v.args[1]
    return None


def odot(x, y):
    """Inner product of two vectors of unknown size; |L^-1 b|^2 is b' A^-1 b."""
    wx, wy = whitened(x), whitened(y)
    if wx and wy and same(wx[0], wy[0]):
        x, y = wx[1], mmul(mk("minv", wx[0]), wy[1])
    return app("dot", *sorted((x, y), key=lambda t: str(fp(t))))


@model("Matrix::cholesky")
def _(ev, fr, f, a, st, pc, dty):
    def one(v):
        r = app("cholesky", v)
        return ite(p_some(r), some(field(r, "0", "Some")), NONE)
    return lift(one, dv(ev, st, a[0]))


def chol_of(x):
    if x.op == "proj" and x.args[2].op == "app" and x.args[2].args[0] == "cholesky":
        return x.args[2].args[1]
    return None


@model("Cholesky::l", "Cholesky::solve", "Cholesky::inverse", "Cholesky::unpack")
def _(ev, fr, f, a, st, pc, dty):
    x = dv(ev, st, a[0])
    rest = [dv(ev, st, y) for y in a[1:]]

    def one(x):
        m = chol_of(x)
        if m is None:
            return app("Cholesky::" + f.name, x, *rest)
        if f.name in ("l", "unpack"):
            return app("chol_l", m)
        if f.name == "inverse":
            return mk("minv", m)
        return mmul(mk("minv", m), rest[0])
    return lift(one, x)


@model("Matrix::solve_lower_triangular")
def _(ev, fr, f, a, st, pc, dty):
    x, b = dv(ev, st, a[0]), dv(ev, st, a[1])

    def one(x):
        if x.op == "app" and x.args[0] == "chol_l":
            return some(mmul(mk("minv", x), b))
        return app("Matrix::solve_lower_triangular", x, b)
    return lift(one, x)


@model("Matrix::norm_squared", "Matrix::magnitude_squared")
def _(ev, fr, f, a, st, pc, dty):
    v = rexp(dv(ev, st, a[0]), recv_dims(f))
    if v.op == "mat":
        return dot(v, v)
    if any(x.op == "app" and x.args[0] == "chol_l" for x in subterms(v)):
        return lift(lambda x: odot(x, x), v)
    return powi(app("norm", v), 2)


@model("Matrix::normalize")
def _(ev, fr, f, a, st, pc, dty):
    v = rexp(dv(ev, st, a[0]), recv_dims(f))
    if v.op == "mat":
        return smul(div(num(1), sqrt(dot(v, v))), v)
    return smul(div(num(1), app("norm", v)), v)


@model("Matrix::normalize_mut")
def _(ev, fr, f, a, st, pc, dty):
    v = rexp(dv(ev, st, a[0]), recv_dims(f))
    n = sqrt(dot(v, v)) if v.op == "mat" else app("norm", v)
    ev.write(st, a[0], smul(div(num(1), n), v))
    return n


@model("Matrix::dot")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    x, y = rexp(dv(ev, st, a[0]), d), rexp(dv(ev, st, a[1]), d)
    if x.op == "mat" and y.op == "mat":
        return dot(x, y)
    if x.op == "ite" or y.op == "ite":
        return lift(lambda p, q: dot(p, q) if p.op == "mat" and q.op == "mat" else odot(p, q), x, y)
    return odot(x, y)


@model("Matrix::cross")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    x, y = rexp(dv(ev, st, a[0]), d), rexp(dv(ev, st, a[1]), d)

    def cr(x, y):
        if x.op == "mat" and y.op == "mat" and len(x.args) == 5 and len(y.args) == 5:
            p, q = x.args[2:], y.args[2:]
            return mat(x.args[0], x.args[1], [sub(mul(p[1], q[2]), mul(p[2], q[1])), sub(mul(p[2], q[0]), mul(p[0], q[2])), sub(mul(p[0], q[1]), mul(p[1], q[0]))])
        return app("cross", x, y)
    return lift(cr, x, y)


@model("Matrix::transpose")
def _(ev, fr, f, a, st, pc, dty):
    return mtr(rexp(dv(ev, st, a[0]), recv_dims(f)))


@model("Matrix::try_inverse", "Matrix::pseudo_inverse")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if f.name == "pseudo_inverse":
        return NotImplemented
    r = app("try_inverse", v)
    return ite(p_some(r), some(mk("minv", v)), NONE)


@model("Matrix::zeros", "Matrix::zero", "Zero::zero", "Matrix::zeros_generic")
def _(ev, fr, f, a, st, pc, dty):
    if not is_matrix_ty(dty):
        if scalar_like(dty) or is_hyper(dty):
            return num(0)
        return NotImplemented
    d = const_dims(dty)
    if d and d[0] * d[1] <= 9:
        return mat(d[0], d[1], [num(0)] * (d[0] * d[1]))
    d = None if d else dyn_dims([dv(ev, st, x) for x in a], dty)
    return mat(d[0], d[1], [num(0)] * (d[0] * d[1])) if d else mk("mzero")


def dyn_dims(ns, dty):
    """Dimensions given at run time, when they are known."""
    m = re.search(r"Matrix<[^<>]*, nalgebra::base::dimension::(Dyn|Const<1>), nalgebra::base::dimension::(Dyn|Const<1>)", dty)
    if not m or not all(is_num(n) for n in ns):
        return None
    ns = [int(nval(n)) for n in ns]
    if m.group(1) == m.group(2):
        d = tuple(ns) if len(ns) == 2 and m.group(1) == "Dyn" else None
    else:
        d = None if len(ns) != 1 else (ns[0], 1) if m.group(1) == "Dyn" else (1, ns[0])
    return d if d and d[0] * d[1] <= 100 else None


@model("vec::from_elem")
def _(ev, fr, f, a, st, pc, dty):
    x, n = ev.close(st, dv(ev, st, a[0])), dv(ev, st, a[1])
    if is_num(n) and nval(n) <= 100:
        return mk("agg", ("array",), *[x] * int(nval(n)))
    return NotImplemented


@model("Matrix::from_element", "Matrix::repeat", "Matrix::from_element_generic")
def _(ev, fr, f, a, st, pc, dty):
    if not is_matrix_ty(dty):
        return NotImplemented
    d = const_dims(dty)
    x = dv(ev, st, a[-1])
    if d and d[0] * d[1] <= (9 if is_num(x) and nval(x) == 0 else 36):
        return mat(d[0], d[1], [x] * (d[0] * d[1]))
    if len(a) == 3:
        r, c = dv(ev, st, a[0]), dv(ev, st, a[1])
        if is_num(r) and is_num(c) and nval(r) * nval(c) <= 144:
            return mat(int(nval(r)), int(nval(c)), [x] * int(nval(r) * nval(c)))
    e = dyn_dims([dv(ev, st, y) for y in a[:-1]], dty)
    if e:
        return mat(e[0], e[1], [x] * (e[0] * e[1]))
    if is_num(x) and nval(x) == 0:
        return mk("mzero")
    return NotImplemented


@model("Matrix::nrows", "Matrix::ncols")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    if d:
        return num(d[0] if f.name == "nrows" else d[1])
    v = dv(ev, st, a[0])
    if v.op == "mat":
        return num(v.args[0] if f.name == "nrows" else v.args[1])
    if len(f.targs) >= 3:
        t = f.targs[1 if f.name == "nrows" else 2]
        m = re.match(r"^nalgebra::base::dimension::Const<(\d+)>$", t)
        if m:
            return num(int(m.group(1)))
        if re.match(r"^\w+$", t):
            return mk("const", "dim(%s)" % t)
    return NotImplemented


@model("Matrix::shape")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    d = recv_dims(f) or (v.args[:2] if v.op == "mat" else None)
    return tup(num(d[0]), num(d[1])) if d else NotImplemented


@model("DimName::dim", "DimName::try_to_usize", "Dim::value")
def _(ev, fr, f, a, st, pc, dty):
    m = re.search(r"dimension::Const<(\d+)>", tyof(f, 0))
    if m:
        return num(int(m.group(1)))
    if f.name == "dim" and re.match(r"^\w+$", tyof(f, 0)):
        return mk("const", "dim(%s)" % tyof(f, 0))
    return NotImplemented


@model("Matrix::identity", "One::one")
def _(ev, fr, f, a, st, pc, dty):
    if not is_matrix_ty(dty):
        if scalar_like(dty):
            return num(1)
        return NotImplemented
    d = const_dims(dty)
    if d and d[0] * d[1] <= 9:
        return mat(d[0], d[1], [num(1 if i == j else 0) for i in range(d[0]) for j in range(d[1])])
    return mk("mid")


@model("Matrix::new")
def _(ev, fr, f, a, st, pc, dty):
    d = const_dims(dty)
    if d and d[0] * d[1] == len(a):
        return mat(d[0], d[1], list(a))
    return NotImplemented


@model("CartesianState::new", "CartesianState::cartesian")
def _(ev, fr, f, a, st, pc, dty):
    """anise: the Cartesian state with these six components, epoch and frame."""
    if len(a) != 8:
        return NotImplemented
    a = [dv(ev, st, x) for x in a]
    return adt("anise::math::cartesian::CartesianState", "CartesianState", False, ("radius_km", "velocity_km_s", "epoch", "frame"),
               [mat(3, 1, a[:3]), mat(3, 1, a[3:6]), a[6], a[7]])


@model("Matrix::x", "Matrix::y", "Matrix::z")
def _(ev, fr, f, a, st, pc, dty):
    i = {"x": 0, "y": 1, "z": 2}[f.name]
    d = const_dims(dty)
    if not a and d:
        return mat(d[0], d[1], [num(1 if k == i else 0) for k in range(d[0] * d[1])])
    return NotImplemented


@model("Matrix::from_diagonal")
def _(ev, fr, f, a, st, pc, dty):
    d = const_dims(dty)
    v = dv(ev, st, a[0])
    if d and d[0] <= 9:
        v = rexp(v, (d[0], 1))
        if v.op == "mat":
            return mat(d[0], d[0], [v.args[2 + i] if i == j else num(0) for i in range(d[0]) for j in range(d[0])])
    return app("from_diagonal", v)


@model("Matrix::from_iterator", "Matrix::from_row_slice", "Matrix::from_column_slice", "Matrix::from_vec", "Matrix::from_row_iterator")
def _(ev, fr, f, a, st, pc, dty):
    d = const_dims(dty)
    v = dv(ev, st, a[0])
    if d and d[0] * d[1] <= 100 and len(a) == 1:
        n = d[0] * d[1]
        s = to_stream(ev, st, v)
        if v.op in ("iter", "agg", "mat", "collect", "stream"):
            els = [stream_item(s, num(k)) for k in range(n)]
            if "row" in f.name or d[1] == 1:
                return mat(d[0], d[1], els)
            return mat(d[0], d[1], [els[j * d[0] + i] for i in range(d[0]) for j in range(d[1])])
        if d[1] == 1 and v.op in ("sym", "proj", "app", "index"):
            return mat(d[0], 1, [index(v, num(k)) for k in range(n)])
    return NotImplemented


def cgen(f, k=-1):
    for t in f.targs[::-1]:
        if re.match(r"^\d+$", t):
            return int(t)
    return None


def view_read(v, r0, c0, nr, nc):
    if v.op == "ite":
        return ite(v.args[0], view_read(v.args[1], r0, c0, nr, nc), view_read(v.args[2], r0, c0, nr, nc))
    return mat(nr, nc, [ment(v, r0 + i, c0 + j) for i in range(nr) for j in range(nc)])


def view_write(v, spec, x):
    r0, c0, nr, nc = spec
    x = rexp(x, (nr, nc)) if nr * nc <= 9 else x
    for i in range(nr):
        for j in range(nc):
            v = mset(v, num(r0 + i), num(c0 + j), ment(x, i, j))
    return v


def _view(ev, f, a, st, spec, mutable):
    if spec is None or any(x is None for x in spec):
        return NotImplemented
    if mutable:
        if a[0].op == "ref":
            return ev.ref(a[0].args[0], a[0].args[1] + (("view",) + tuple(spec),))
        return NotImplemented
    return view_read(dv(ev, st, a[0]), *spec)


def ints(*xs):
    if all(is_num(x) for x in xs):
        return [int(nval(x)) for x in xs]
    return None


def nconsts(f):
    return [int(t) for t in f.targs if re.match(r"^\d+$", t)]


@model("Matrix::fixed_rows", "Matrix::fixed_rows_mut", "Matrix::fixed_columns", "Matrix::fixed_columns_mut", "Matrix::fixed_view", "Matrix::fixed_view_mut",
       "Matrix::fixed_slice", "Matrix::fixed_slice_mut")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    nc = nconsts(f)
    mut = f.name.endswith("_mut")
    nm = f.name.replace("_mut", "")
    if nm == "fixed_rows":
        i = ints(a[1])
        if i is None or not nc:
            return NotImplemented
        cols = d[1] if d else 1
        if len(f.targs) > 2:
            m = re.match(r"^nalgebra::base::dimension::Const<(\d+)>$", f.targs[2])
            if m:
                cols = int(m.group(1))
        return _view(ev, f, a, st, (i[0], 0, nc[-1], cols), mut)
    if nm == "fixed_columns":
        i = ints(a[1])
        if i is None or not nc or not d:
            return NotImplemented
        return _view(ev, f, a, st, (0, i[0], d[0], nc[-1]), mut)
    i = ints(a[1], a[2])
    if i is None or len(nc) < 2:
        return NotImplemented
    return _view(ev, f, a, st, (i[0], i[1], nc[-2], nc[-1]), mut)


@model("Matrix::copy_from", "Matrix::tr_copy_from")
def _(ev, fr, f, a, st, pc, dty):
    x = dv(ev, st, a[1])
    if f.name == "tr_copy_from":
        x = mtr(x)
    ev.write(st, a[0], x)
    return UNIT


def innermost(ev, st, r):
    n = 0
    v = ev.deref(st, r) if r.op == "ref" else r
    while v.op == "ref" and n < 8:
        r, v, n = v, ev.deref(st, v), n + 1
    return r, v


@model("Matrix::copy_from_slice")
def _(ev, fr, f, a, st, pc, dty):
    r, v = innermost(ev, st, a[0])
    x = small_seq(ev, st, a[1], 100)
    if x is None or r.op != "ref":
        return NotImplemented
    d = recv_dims(f)
    if r.args[1] and r.args[1][-1][0] == "view":
        d = r.args[1][-1][3:5]
    if not d or d[0] * d[1] != len(x):
        return NotImplemented
    ev.write(st, r, mat(d[0], d[1], [x[j * d[0] + i] for i in range(d[0]) for j in range(d[1])]))
    return UNIT


@model("Matrix::from_fn", "Matrix::from_fn_generic")
def _(ev, fr, f, a, st, pc, dty):
    d = const_dims(dty)
    if not d or d[0] * d[1] > 100:
        return NotImplemented
    vs = []
    m = {}
    for j in range(d[1]):
        for i in range(d[0]):
            m[i, j], st, pc = callc(ev, fr, a[-1], [num(i), num(j)], st, pc, "f64")
    return mat(d[0], d[1], [m[i, j] for i in range(d[0]) for j in range(d[1])]), st, pc


@model("Matrix::column_iter", "Matrix::row_iter", "Matrix::column_iter_mut", "Matrix::row_iter_mut")
def _(ev, fr, f, a, st, pc, dty):
    r, v = innermost(ev, st, a[0])
    d = view_dims(r) or recv_dims(f) or (tuple(v.args[:2]) if v.op == "mat" else None)
    if not d or d[0] * d[1] > 100:
        return NotImplemented
    col = f.name.startswith("column")
    specs = [(0, j, d[0], 1) if col else (j, 0, 1, d[1]) for j in range(d[1] if col else d[0])]
    if f.name.endswith("_mut"):
        if r.op != "ref":
            return NotImplemented
        return mkp([(TRUE, ev.ref(r.args[0], r.args[1] + (("view",) + s,))) for s in specs])
    return mkp([(TRUE, view_read(v, *s)) for s in specs])


@model("Matrix::row", "Matrix::column")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    i = ints(a[1])
    if d and i:
        if f.name == "row":
            return view_read(dv(ev, st, a[0]), i[0], 0, 1, d[1])
        return view_read(dv(ev, st, a[0]), 0, i[0], d[0], 1)
    return NotImplemented


@model("Matrix::row_mut", "Matrix::column_mut", "Matrix::rows_mut", "Matrix::columns_mut", "Matrix::view_mut")
def _(ev, fr, f, a, st, pc, dty):
    d = view_dims(a[0]) or recv_dims(f)
    if not d:
        return NotImplemented
    if f.name == "view_mut":
        xs = [dv(ev, st, y) for x in a[1:3] for y in ((field(x, "0"), field(x, "1")) if x.op == "agg" else (x,))]
    else:
        xs = a[1:]
    i = ints(*xs)
    if i is None:
        return NotImplemented
    spec = {"row_mut": lambda: (i[0], 0, 1, d[1]), "column_mut": lambda: (0, i[0], d[0], 1), "rows_mut": lambda: (i[0], 0, i[1], d[1]),
            "columns_mut": lambda: (0, i[0], d[0], i[1]), "view_mut": lambda: (i[0], i[1], i[2], i[3]) if len(i) == 4 else None}[f.name]()
    return _view(ev, f, a, st, spec, True)


@model("Matrix::set_column", "Matrix::set_row")
def _(ev, fr, f, a, st, pc, dty):
    d = view_dims(a[0]) or recv_dims(f)
    i = ints(a[1])
    if d and i and d[0] * d[1] <= 100:
        spec = (0, i[0], d[0], 1) if f.name == "set_column" else (i[0], 0, 1, d[1])
        v = dv(ev, st, a[0])
        ev.write(st, a[0], view_write(v, spec, dv(ev, st, a[2])))
        return UNIT
    return NotImplemented


@model("Matrix::fill", "Matrix::fill_with_identity")
def _(ev, fr, f, a, st, pc, dty):
    if f.name == "fill_with_identity":
        ev.write(st, a[0], mk("mid"))
        return UNIT
    d = view_dims(a[0]) or recv_dims(f)
    if d and d[0] * d[1] <= 100:
        ev.write(st, a[0], mat(d[0], d[1], [a[1]] * (d[0] * d[1])))
        return UNIT
    if is_num(a[1]) and nval(a[1]) == 0:
        ev.write(st, a[0], rexp(mk("mzero"), d))
        return UNIT
    return NotImplemented


@model("Matrix::diagonal")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    v = dv(ev, st, a[0])
    w = v
    while w.op == "ite":
        w = w.args[1]
    n = d[0] if d else w.args[0] if w.op == "mat" and w.args[0] == w.args[1] else None
    if n is not None and n <= 9:
        return mat(n, 1, [ment(v, i, i) for i in range(n)])
    return app("diagonal", v)


@model("Matrix::trace")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    v = dv(ev, st, a[0])
    if d and d[0] <= 9:
        s = num(0)
        for i in range(d[0]):
            s = add(s, ment(v, i, i))
        return s
    return NotImplemented


@model("Matrix::component_mul")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    x, y = rexp(dv(ev, st, a[0]), d), rexp(dv(ev, st, a[1]), d)
    if x.op == "mat" and y.op == "mat":
        return mat(x.args[0], x.args[1], [mul(p, q) for p, q in zip(x.args[2:], y.args[2:])])
    return app("component_mul", x, y)


@model("Matrix::scale")
def _(ev, fr, f, a, st, pc, dty):
    return smul(dv(ev, st, a[1]), rexp(dv(ev, st, a[0]), recv_dims(f)))


@model("Matrix::unscale")
def _(ev, fr, f, a, st, pc, dty):
    return smul(div(num(1), dv(ev, st, a[1])), rexp(dv(ev, st, a[0]), recv_dims(f)))


@model("Matrix::from_rows", "Matrix::from_columns")
def _(ev, fr, f, a, st, pc, dty):
    d = const_dims(dty)
    v = dv(ev, st, a[0])
    if not d or d[0] * d[1] > 100 or v.op != "agg" or v.args[0][0] != "array":
        return NotImplemented
    rows = "rows" in f.name
    parts = [rexp(dv(ev, st, x), (1, d[1]) if rows else (d[0], 1)) for x in v.args[1:]]
    if len(parts) != d[0 if rows else 1] or any(x.op != "mat" for x in parts):
        return NotImplemented
    return mat(d[0], d[1], [parts[i].args[2 + j] if rows else parts[j].args[2 + i] for i in range(d[0]) for j in range(d[1])])


@model("Matrix::map")
def _(ev, fr, f, a, st, pc, dty):
    x = rexp(dv(ev, st, a[0]), recv_dims(f))
    if x.op == "mat":
        out = []
        for e in x.args[2:]:
            r = ev.apply(fr, a[1], [e], st, pc)
            out.append(r[0] if isinstance(r, tuple) else r)
            if isinstance(r, tuple):
                st, pc = r[1], r[2]
        return mat(x.args[0], x.args[1], out), st, pc
    return NotImplemented


@model("Matrix::as_slice")
def _(ev, fr, f, a, st, pc, dty):
    d = recv_dims(f)
    v = dv(ev, st, a[0])
    if d and d[0] * d[1] <= 100:
        return lift(lambda x: mk("agg", ("array",), *[ment(x, i, j) for j in range(d[1]) for i in range(d[0])]), v)
    return NotImplemented


@model("RangeInclusive::contains", "Range::contains")
def _(ev, fr, f, a, st, pc, dty):
    r, x = dv(ev, st, a[0]), dv(ev, st, a[1])
    if r.op == "app" and r.args[0] == "rangeincl":
        return band(ge(x, r.args[1]), le(x, r.args[2]))
    if r.op == "agg" and r.args[0][0] == "adt" and r.args[0][1].endswith("ops::range::Range"):
        return band(ge(x, r.args[1]), lt(x, r.args[2]))
    return NotImplemented


MASS_F = ("dry_mass_kg", "prop_mass_kg", "extra_mass_kg")


def mk_mass(*v):
    return adt("anise::structure::spacecraft::mass::Mass", "Mass", False, MASS_F, list(v))


@model("Mass::from_dry_and_prop_masses", "Mass::from_dry_mass")
def _(ev, fr, f, a, st, pc, dty):
    z = num(0)
    return mk_mass(dv(ev, st, a[0]), dv(ev, st, a[1]) if len(a) > 1 else z, z)


@model("Mass::abs")
def _(ev, fr, f, a, st, pc, dty):
    m = dv(ev, st, a[0])
    return mk_mass(*[absv(field(m, k)) for k in MASS_F])


@model("CartesianState::apply_dv_km_s")
def _(ev, fr, f, a, st, pc, dty):
    o, d = dv(ev, st, a[0]), rexp(dv(ev, st, a[1]), (3, 1))
    ev.write(st, a[0], with_field(o, "velocity_km_s", None, madd(rexp(field(o, "velocity_km_s"), (3, 1)), d)))
    return UNIT


@model("CartesianState::with_dv_km_s")
def _(ev, fr, f, a, st, pc, dty):
    o, d = dv(ev, st, a[0]), rexp(dv(ev, st, a[1]), (3, 1))
    return with_field(o, "velocity_km_s", None, madd(rexp(field(o, "velocity_km_s"), (3, 1)), d))


@model("Mass::total_mass_kg")
def _(ev, fr, f, a, st, pc, dty):
    m = dv(ev, st, a[0])
    return add(add(field(m, "dry_mass_kg"), field(m, "prop_mass_kg")), field(m, "extra_mass_kg"))


# ------------------------------------------------------------------ hyperdual (forward-mode derivatives)
@model("hyperdual::hyperspace_from_vector")
def _(ev, fr, f, a, st, pc, dty):
    if len(f.targs) < 3 or not f.targs[1].isdigit() or not f.targs[2].isdigit():
        return NotImplemented
    D, n = int(f.targs[1]), int(f.targs[2])
    v = dv(ev, st, a[0])
    return mat(n, 1, [hd(ment(v, i, 0), *[num(1 if i + 1 == j else 0) for j in range(1, D)]) for i in range(n)])


@model("OHyperdual::from_real", "OHyperdual::from_slice")
def _(ev, fr, f, a, st, pc, dty):
    if f.name == "from_real":
        return dv(ev, st, a[0])
    return NotImplemented


@model("OHyperdual::real")
def _(ev, fr, f, a, st, pc, dty):
    def r(v):
        return v.args[0] if v.op == "hd" else v
    return lift(r, dv(ev, st, a[0]))


@model("linalg::norm")
def _(ev, fr, f, a, st, pc, dty):
    v = dv(ev, st, a[0])
    if v.op == "mat":
        r = num(0)
        for x in v.args[2:]:
            r = add(r, powi(x, 2))
        return sqrt(r)
    return NotImplemented


@model("differentials::extract_jacobian_and_result")
def _(ev, fr, f, a, st, pc, dty):
    if len(f.targs) < 4:
        return NotImplemented
    di, do, dh = [int(x) for x in f.targs[1:4]]
    v = dv(ev, st, a[0])
    if v.op != "mat":
        return NotImplemented
    P_ = [hparts(x, dh) for x in v.args[2:]]
    return tup(mat(do, 1, [p[0] for p in P_]), mat(do, di, [p[j + 1] for p in P_ for j in range(di)]))


def _elem(name, d):
    """An elementary function and its derivative, on reals and dual numbers."""
    def g(x):
        if x.op == "hd":
            v = x.args[0]
            k = d(v)
            return hd(app(name, v), *[mul(k, p) for p in x.args[1:]])
        return app(name, x)
    return lambda x: lift(g, x)


_one = lambda: num(1)
ELEM = {"sin": lambda v: app("cos", v), "cos": lambda v: neg(app("sin", v)), "exp": lambda v: app("exp", v), "ln": lambda v: div(_one(), v),
        "tan": lambda v: add(_one(), mul(app("tan", v), app("tan", v))), "asin": lambda v: div(_one(), sqrt(sub(_one(), mul(v, v)))),
        "acos": lambda v: neg(div(_one(), sqrt(sub(_one(), mul(v, v))))), "atan": lambda v: div(_one(), add(_one(), mul(v, v)))}
for n_, fn_ in [("sqrt", sqrt), ("abs", absv), ("recip", lambda x: div(num(1), x)), ("to_radians", lambda x: mul(x, div(num(math.pi), num(180)))), ("to_degrees", lambda x: mul(x, div(num(180), num(math.pi))))] + [(k, _elem(k, v)) for k, v in ELEM.items()]:
    def _mkh(fn_):
        def h(ev, fr, f, a, st, pc, dty):
            if not (is_hyper(tyof(f, 0)) or scalar_like(tyof(f, 0))):
                return NotImplemented
            return fn_(dv(ev, st, a[0]))
        return h
    M["Float::" + n_] = _mkh(fn_)


@model("Float::sin_cos")
def _(ev, fr, f, a, st, pc, dty):
    x = dv(ev, st, a[0])
    return tup(_elem("sin", ELEM["sin"])(x), _elem("cos", ELEM["cos"])(x))


@model("Float::powi", "Float::powf")
def _(ev, fr, f, a, st, pc, dty):
    x, n = dv(ev, st, a[0]), dv(ev, st, a[1])
    if is_num(n) and nval(n).denominator == 1 and abs(nval(n)) < 30:
        return powi(x, int(nval(n)))
    return NotImplemented


# ------------------------------------------------------------------ anise states
@model("CartesianState::rmag_km", "CartesianState::vmag_km_s")
def _(ev, fr, f, a, st, pc, dty):
    v = field(dv(ev, st, a[0]), "radius_km" if f.name == "rmag_km" else "velocity_km_s")
    v = rexp(v, (3, 1))
    return lift(lambda x: sqrt(dot(x, x)), v)


@model("CartesianState::to_cartesian_pos_vel")
def _(ev, fr, f, a, st, pc, dty):
    x = dv(ev, st, a[0])
    return mat(6, 1, [ment(field(x, n), i, 0) for n in ("radius_km", "velocity_km_s") for i in range(3)])


# ------------------------------------------------------------------ rayon: closures are Fn + Sync, so the sequential order is one of its schedules and decides the result
for _n, _m in (("IntoParallelRefMutIterator::par_iter_mut", "Vec::iter_mut"), ("IntoParallelRefIterator::par_iter", "Vec::iter"), ("IntoParallelIterator::into_par_iter", "IntoIterator::into_iter")):
    M[_n] = M[_m]
for _n in ("for_each", "map", "filter", "filter_map", "collect", "sum", "cloned", "copied", "all", "any", "max", "min", "count"):
    if "Iterator::" + _n in M:
        M["ParallelIterator::" + _n] = M["Iterator::" + _n]
for _n in ("enumerate", "zip", "rev"):
    M["IndexedParallelIterator::" + _n] = M["Iterator::" + _n]


@model("ParallelProgressIterator::progress_with", "ParallelProgressIterator::progress", "ParallelProgressIterator::progress_count", "ProgressIterator::progress_with", "ProgressIterator::progress")
def _(ev, fr, f, a, st, pc, dty):
    return a[0]


@model("mpsc::channel", "channel")
def _(ev, fr, f, a, st, pc, dty):
    """Both ends refer to one queue."""
    c = ev.cell(st, mk("vec0"))
    return tup(ev.ref(c), ev.ref(c))


@model("Sender::send", "SyncSender::send")
def _(ev, fr, f, a, st, pc, dty):
    r = innermost_ref(st, a[0])
    if r is None or plist(ev.deref(st, r)) is None:
        return NotImplemented
    ev.write(st, r, mk("push", ev.deref(st, r), ev.close(st, a[1])))
    return ok(UNIT)


@model("Receiver::iter", "Receiver::into_iter", "Receiver::try_iter")
def _(ev, fr, f, a, st, pc, dty):
    r = innermost_ref(st, a[0])
    l = None if r is None else plist(ev.deref(st, r))
    return NotImplemented if l is None else mkp(l)


def innermost_ref(st, v):
    """The reference (to a queue) behind references."""
    while v.op == "ref":
        x = st.get(v.args[0], BOT)
        for e in v.args[1]:
            if e[0] != "f":
                return v
            x = field(x, e[1], e[2])
        if x.op != "ref":
            return v
        v = x
    return None


@model("ParallelIterator::for_each_with", "ParallelIterator::for_each")
def _(ev, fr, f, a, st, pc, dty):
    """The tasks run in no particular order: the last item first, so that a result which relies on the order shows."""
    its = p_of(ev, st, a[0])
    if its is None:
        s = s_of(ev, st, a[0])
        if s is None or not is_num(s.args[0]) or nval(s.args[0]) > 40:
            return NotImplemented
        its = [(TRUE, stream_item(s, num(k))) for k in range(int(nval(s.args[0])))]
    for c, x in reversed(its):
        w = [ev.ref(ev.cell(st, a[1]))] if f.name == "for_each_with" else []
        v, s2, p2 = papply(ev, fr, a[-1], w + [x], dict(st), band(pc, c))
        for k in list(st):
            if s2.get(k, BOT) is not st[k]:
                st[k] = ite(c, s2[k], st[k])
    return UNIT


# ------------------------------------------------------------------ typed builders: a field that was set, or its default
@model("NextFieldDefault::resolve")
def _(ev, fr, f, a, st, pc, dty):
    x = a[0]
    last = x.args[-1] if x.op == "agg" and x.args[0][0] == "tuple" and len(x.args) > 1 else None
    if last is not None and last.op == "agg" and last.args[0][0] == "tuple" and len(last.args) == 2:
        return last.args[1]
    if len(f.targs) == 2:
        for b in ev.F.find("resolve", base(f.targs[0]), None, one=False) or []:
            if b.id == "<%s as %s<%s>>::resolve" % (f.targs[0], f.path.rsplit("::", 1)[0], f.targs[1]):
                return ev.eval_body(b, a, st, pc, {})
    return NotImplemented


# ------------------------------------------------------------------ misc
@model("log::max_level", "log::__private_api::log", "__private_api::log", "__private_api::loc")
def _(ev, fr, f, a, st, pc, dty):
    return UNIT if dty == "()" else mk("const", f.short)


def derived(ev, b, f, args, st):
    """Structural meaning of compiler-derived impls (so refactors of the struct don't matter)."""
    if b.j.get("exp") and b.trait_base == "Clone" and b.name == "clone":
        return ev.close(st, ev.deref(st, args[0]))
    if b.j.get("exp") and b.trait_base == "PartialEq" and b.name == "eq":
        return tobool(eq(ev.close(st, ev.deref(st, args[0])), ev.close(st, ev.deref(st, args[1]))))
    return None

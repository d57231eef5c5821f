"""Hash-consed value graph: terms, boolean guards as ROBDDs, algebraic value numbering.

Nothing here executes the analysed program. A term is a node of the gated value graph that
`mirflow` reconstructs from MIR by dataflow; `fp` is its algebraic value number: the image of
the node under the ring homomorphism that maps every leaf (input, opaque call, constant) to a
fixed element of a prime field chosen by hashing its structure. Two nodes that are equal by the
ring axioms get the same number whatever way they were written; nodes that differ collide with
probability < 2^-50.
"""
import hashlib
import math
import sys
from fractions import Fraction

sys.setrecursionlimit(200000)
P = (1 << 61) - 1


class T:
    __slots__ = ("op", "args", "id", "_fp", "_atoms", "__weakref__")

    def __repr__(self):
        return show(self)

    # notation used by the specifications in checks/
    def __add__(self, o):
        return add(self, lit(o))

    def __radd__(self, o):
        return add(lit(o), self)

    def __sub__(self, o):
        return sub(self, lit(o))

    def __rsub__(self, o):
        return sub(lit(o), self)

    def __mul__(self, o):
        return mul(self, lit(o))

    def __rmul__(self, o):
        return mul(lit(o), self)

    def __truediv__(self, o):
        return div(self, lit(o))

    def __rtruediv__(self, o):
        return div(lit(o), self)

    def __neg__(self):
        return neg(self)

    def __pow__(self, n):
        return powi(self, n)

    def __getitem__(self, k):
        if isinstance(k, str):
            return field(self, k)
        if isinstance(k, tuple) and isinstance(k[0], str):
            return field(self, k[1], k[0])
        if isinstance(k, tuple):
            return ment(self, *k)
        raise IndexError(k)


def lit(x):
    return x if isinstance(x, T) else num(x)


_tab = {}
_n = 0


def mk(op, *args):
    global _n
    k = (op,) + tuple(a.id if isinstance(a, T) else ("#", type(a).__name__, a) for a in args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _n += 1
        t.id = _n
        t._fp = None
        t._atoms = None
        _tab[k] = t
    return t


def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        x = Fraction(repr(x)) if x == x and abs(x) != float("inf") else x
    if isinstance(x, int):
        x = Fraction(x)
    if isinstance(x, float):
        return mk("fconst", repr(x))
    return mk("num", x)


def sym(n):
    return mk("sym", n)


def app(f, *args):
    return mk("app", f, *args)


def string(s):
    return mk("str", s)


def unk(r):
    return mk("unk", r)


BOT = mk("bot")
UNIT = mk("agg", ("tuple",))
TRUE = mk("true")
FALSE = mk("false")


def is_num(t):
    return t.op == "num"


def nval(t):
    return t.args[0]


# ---------------------------------------------------------------- booleans (ROBDD)
_bmemo = {}


def bnode(atom, hi, lo):
    if hi is lo:
        return hi
    return mk("bdd", atom, hi, lo)


def batom(atom):
    return mk("bdd", atom, TRUE, FALSE)


def _top(*fs):
    best = None
    for f in fs:
        if f.op == "bdd":
            a = f.args[0]
            if best is None or a.id < best.id:
                best = a
    return best


def _cof(f, a, v):
    if f.op == "bdd" and f.args[0] is a:
        return f.args[1] if v else f.args[2]
    return f


def bite(c, a, b):
    """Boolean if-then-else on ROBDDs."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c.id, a.id, b.id)
    r = _bmemo.get(k)
    if r is not None:
        return r
    x = _top(c, a, b)
    r = bnode(x, bite(_cof(c, x, 1), _cof(a, x, 1), _cof(b, x, 1)), bite(_cof(c, x, 0), _cof(a, x, 0), _cof(b, x, 0)))
    _bmemo[k] = r
    return r


def tobool(t):
    """Coerce a bool-typed term into a BDD."""
    if t.op in ("true", "false", "bdd"):
        return t
    if t.op == "num":
        return TRUE if nval(t) != 0 else FALSE
    if t.op == "ite":
        return bite(t.args[0], tobool(t.args[1]), tobool(t.args[2]))
    if t.op == "bot":
        return FALSE
    return batom(t)


def band(*xs):
    r = TRUE
    for x in xs:
        r = bite(r, x, FALSE)
    return r


def bor(*xs):
    r = FALSE
    for x in xs:
        r = bite(r, TRUE, x)
    return r


def bnot(x):
    return bite(x, FALSE, TRUE)


_cmemo = {}


def constrain(f, c):
    """Coudert-Madre generalised cofactor of f by c (agrees with f on c)."""
    if c is TRUE or c is FALSE or f in (TRUE, FALSE):
        return f
    if f is c:
        return TRUE
    k = (f.id, c.id)
    r = _cmemo.get(k)
    if r is not None:
        return r
    x = _top(f, c)
    c1, c0 = _cof(c, x, 1), _cof(c, x, 0)
    if c1 is FALSE:
        r = constrain(_cof(f, x, 0), c0)
    elif c0 is FALSE:
        r = constrain(_cof(f, x, 1), c1)
    elif _cof(f, x, 1) is f and _cof(f, x, 0) is f:
        # x not in f: restrict variant
        r = constrain(f, bor(c1, c0))
    else:
        r = bnode(x, constrain(_cof(f, x, 1), c1), constrain(_cof(f, x, 0), c0))
    _cmemo[k] = r
    return r


# ---------------------------------------------------------------- smart constructors
def ite(c, a, b):
    if c is TRUE or b is BOT:
        return a
    if c is FALSE or a is BOT:
        return b
    if a is b:
        return a
    ab = a.op in ("true", "false", "bdd")
    bb = b.op in ("true", "false", "bdd")
    if ab and bb:
        return bite(c, a, b)
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return mk("agg", a.args[0], *[ite(c, x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == "hd" or b.op == "hd":
        n = len(a.args) if a.op == "hd" else len(b.args)
        return mk("hd", *[ite(c, x, y) for x, y in zip(hparts(a, n), hparts(b, n))])
    # collapse nested same-guard
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", c, a, b)


def lift(f, *ts):
    """Apply f to terms, pushing through ite only when needed by the caller."""
    for i, t in enumerate(ts):
        if t.op == "ite":
            c, a, b = t.args
            l = list(ts)
            l[i] = a
            x = lift(f, *l)
            l[i] = b
            y = lift(f, *l)
            return ite(c, x, y)
    return f(*ts)


# Dual numbers (value, partials): the abstract value of the hyperdual crate's type, i.e. forward-mode differentiation of the graph.
def hd(*xs):
    return mk("hd", *xs)


def hparts(t, n):
    return t.args if t.op == "hd" else (t,) + (num(0),) * (n - 1)


def _hd2(f, a, b):
    n = len(a.args) if a.op == "hd" else len(b.args)
    x, y = hparts(a, n), hparts(b, n)
    if f == "add":
        return hd(*[add(p, q) for p, q in zip(x, y)])
    if f == "mul":
        return hd(mul(x[0], y[0]), *[add(mul(x[0], q), mul(p, y[0])) for p, q in zip(x[1:], y[1:])])
    d = mul(y[0], y[0])
    return hd(div(x[0], y[0]), *[div(sub(mul(p, y[0]), mul(x[0], q)), d) for p, q in zip(x[1:], y[1:])])


def _hd1(v, dv, a):
    """chain rule: value v, derivative factor dv"""
    return hd(v, *[mul(dv, p) for p in a.args[1:]])


def add(a, b):
    if a.op == "hd" or b.op == "hd":
        return _hd2("add", a, b)
    if is_num(a) and is_num(b):
        return num(nval(a) + nval(b))
    if is_num(a) and nval(a) == 0:
        return b
    if is_num(b) and nval(b) == 0:
        return a
    if a is BOT or b is BOT:
        return BOT
    return mk("add", a, b)


def neg(a):
    if a.op == "hd":
        return hd(*[neg(x) for x in a.args])
    if is_num(a):
        return num(-nval(a))
    if a.op == "neg":
        return a.args[0]
    if a is BOT:
        return BOT
    return mk("neg", a)


def sub(a, b):
    if a is b and a.op != "unk":
        return num(0)
    return add(a, neg(b))


def mul(a, b):
    if a.op == "hd" or b.op == "hd":
        return _hd2("mul", a, b)
    if a is b and a.op == "app" and a.args[0] == "sqrt":
        return a.args[1]
    if a is BOT or b is BOT:
        return BOT
    if is_num(a) and is_num(b):
        return num(nval(a) * nval(b))
    for x, y in ((a, b), (b, a)):
        if is_num(x):
            if nval(x) == 0:
                return num(0)
            if nval(x) == 1:
                return y
            if nval(x) == -1:
                return neg(y)
    return mk("mul", a, b)


def div(a, b):
    if a.op == "hd" or b.op == "hd":
        return _hd2("div", a, b)
    if is_num(b) and nval(b) != 0:
        return mul(a, num(1 / nval(b)))
    if is_num(a) and nval(a) == 0:
        return num(0)
    return mk("div", a, b)


def powi(a, n):
    if n == 0:
        return num(1)
    if n < 0:
        return div(num(1), powi(a, -n))
    if a.op == "hd":
        return _hd1(powi(a.args[0], n), mul(num(n), powi(a.args[0], n - 1)), a)
    if a.op == "app" and a.args[0] == "sqrt" and n > 1:
        return powi(a.args[1], n // 2) if n % 2 == 0 else mul(powi(a.args[1], n // 2), a)
    r = a
    for _ in range(n - 1):
        r = mul(r, a)
    return r


def sqrt(a):
    if a.op == "hd":
        v = sqrt(a.args[0])
        return _hd1(v, div(num(1), mul(num(2), v)), a)
    if is_num(a):
        v = nval(a)
        if v >= 0:
            import math
            n, d = v.numerator, v.denominator
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d:
                return num(Fraction(rn, rd))
    if a.op == "div" and a.args[1].op == "const":
        # a dimension of the measurement is a positive count: sqrt(x / n) = sqrt(x) / sqrt(n)
        return div(sqrt(a.args[0]), app("sqrt", a.args[1]))
    return app("sqrt", a)


def absv(a):
    if a.op == "hd":
        return _hd1(absv(a.args[0]), app("signum", a.args[0]), a)
    if is_num(a):
        return num(abs(nval(a)))
    # |x| is even: choose representative by fp
    f = fp(a)
    if isinstance(f, int) and f > P - f:
        a = neg(a)
    return app("abs", a)


def nonneg(t):
    """Is t certainly not negative?"""
    if t.op == "num":
        return nval(t) >= 0
    if t.op == "app":
        return t.args[0] in ("abs", "sqrt")
    if t.op in ("add", "mul", "div"):
        return all(nonneg(x) for x in t.args) or t.op == "mul" and t.args[0] is t.args[1]
    return False


def split_abs(t):
    """|x*y| and |x/y| as products and quotients of absolute values; signs as cases."""
    def f(x):
        if x.op == "app" and x.args[0] == "signum" and len(x.args) == 2:
            a = rebuild(x.args[1], f, {})
            return ite(lt(a, num(0)), num(-1), num(1))
        if x.op == "app" and x.args[0] == "abs" and x.args[1].op in ("mul", "div", "neg"):
            a = x.args[1]
            if a.op == "neg":
                a = a.args[0]
            if a.op not in ("mul", "div"):
                return None
            g = mul if a.op == "mul" else div
            return g(rebuild(absv(a.args[0]), f, {}), rebuild(absv(a.args[1]), f, {}))
        return None
    return rebuild(t, f, {})


def constant_sum(d):
    """Value of a sum whose symbolic summands cancel, else None."""
    if is_num(d):
        return nval(d)
    if d.op not in ("add", "neg"):
        return None
    coef, tot, todo, n = {}, 0, [(d, 1)], 0
    while todo:
        x, s = todo.pop()
        n += 1
        if n > 24:
            return None
        if x.op == "add":
            todo += [(y, s) for y in x.args]
        elif x.op == "neg":
            todo.append((x.args[0], -s))
        elif is_num(x):
            tot += s * nval(x)
        else:
            coef[x] = coef.get(x, 0) + s
    return None if any(coef.values()) or any(x.op in ("unk", "fconst") for x in coef) else tot


def lt(a, b):
    """a < b, reals; canonical form pos(b-a)."""
    if a.op == "hd":
        a = a.args[0]
    if b.op == "hd":
        b = b.args[0]
    if is_num(a) and is_num(b):
        return TRUE if nval(a) < nval(b) else FALSE
    if a.op == "str" and b.op == "str":
        return TRUE if a.args[0].encode() < b.args[0].encode() else FALSE
    if a.op == "ite" or b.op == "ite":
        return lift(lt, a, b)
    if a is BOT or b is BOT:
        return FALSE
    d = sub(b, a)
    c = constant_sum(d)
    if c is not None:
        return TRUE if c > 0 else FALSE
    if d.op == "fconst" or b.op == "fconst" or a.op == "fconst":
        if b.op == "fconst" and b.args[0] == "inf":
            return TRUE
        if a.op == "fconst" and a.args[0] == "inf":
            return FALSE
        if a.op == "fconst" and a.args[0] == "-inf":
            return TRUE
        if b.op == "fconst" and b.args[0] == "-inf":
            return FALSE
    f = fp(d)
    if f == 0:
        return FALSE
    if d.op == "app" and d.args[0] == "abs":
        return bnot(eq(d.args[1], num(0)))
    if d.op == "div" and all(x.op == "app" and x.args[0] in ("abs", "sqrt") for x in d.args):
        return lt(num(0), d.args[0])
    if d.op == "app" and d.args[0] == "sqrt":
        return lt(num(0), d.args[1])
    if d.op == "neg" and d.args[0].op == "app" and d.args[0].args[0] in ("abs", "sqrt"):
        return FALSE
    # structural canonicalisation: one representative per fp
    return batom(_repr_atom("pos", d, f))


_atom_by_fp = {}


def _repr_atom(op, d, f):
    k = (op, f)
    a = _atom_by_fp.get(k)
    if a is None:
        a = mk(op, d)
        _atom_by_fp[k] = a
    return a


def gt(a, b):
    return lt(b, a)


def le(a, b):
    return bnot(lt(b, a))


def ge(a, b):
    return bnot(lt(a, b))


def eq(a, b):
    if a is b and a.op != "unk":
        return TRUE
    if a.op == "ite" or b.op == "ite":
        return lift(eq, a, b)
    if a is BOT or b is BOT:
        return FALSE
    if a.op == "disc" and is_num(b):
        return is_variant_discr(a, nval(b))
    if b.op == "disc" and is_num(a):
        return is_variant_discr(b, nval(a))
    if is_num(a) and is_num(b):
        return TRUE if nval(a) == nval(b) else FALSE
    for x, y in ((a, b), (b, a)):
        if is_num(y) and nval(y) == 0 and x.op in ("div", "neg"):
            return eq(x.args[0], y)
    if a.op == "str" and b.op == "str":
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.op == "bdd" or b.op == "bdd" or a.op in ("true", "false") or b.op in ("true", "false"):
        ca, cb = tobool(a), tobool(b)
        return bite(ca, cb, bnot(cb))
    if a.op == "agg" and b.op == "agg" and len(a.args[0]) >= 3 and len(b.args[0]) >= 3 \
            and a.args[0][0] == "adt" and b.args[0][0] == "adt" and a.args[0][1] == b.args[0][1]:
        if a.args[0][2] != b.args[0][2]:
            return FALSE
        return band(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] == ("tuple",):
        return band(*[eq(x, y) for x, y in zip(a.args[1:], b.args[1:])])
    # fieldless variant literal against an opaque enum value
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.args[0][0] == "adt" and len(x.args) == 1 and x.args[0][3] and y.op != "agg":
            return is_variant(y, x.args[0][1], x.args[0][2])
    fa, fb = fp(a), fp(b)
    if fa == fb:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if is_num(y) and nval(y) == 0 and x.op == "app" and x.args[0] in ("abs", "sqrt"):
            return eq(x.args[1], y)
    if isinstance(fa, int) and isinstance(fb, int):
        d = (fa - fb) % P
        f = min(d, P - d)
        return batom(_repr_atom("zero", mk("eqpair", a, b), f))
    return batom(mk("eq", a, b) if a.id < b.id else mk("eq", b, a))


ADTS = {}  # filled by facts: path -> [(variant, discr)]
ADTS.update({
    "core::option::Option": [("None", 0), ("Some", 1)],
    "core::result::Result": [("Ok", 0), ("Err", 1)],
    "core::ops::control_flow::ControlFlow": [("Continue", 0), ("Break", 1)],
})


def is_variant_discr(d, k):
    adt, x = d.args
    for name, dv in ADTS.get(adt, ()):
        if dv == k:
            return is_variant(x, adt, name)
    return batom(mk("eq", d, num(k)))


def is_variant(x, adt, name):
    if x.op == "ite":
        return bite(x.args[0], is_variant(x.args[1], adt, name), is_variant(x.args[2], adt, name))
    if x.op == "agg" and x.args[0][0] == "adt":
        return TRUE if x.args[0][2] == name else FALSE
    if x is BOT:
        return FALSE
    if x.op == "upd" and x.args[1][0] == "f" and x.args[1][2] is not None:
        # a write inside a variant's payload presupposes (and keeps) that variant
        return is_variant(x.args[0], adt, name)
    vs = ADTS.get(adt, ())
    if len(vs) == 1:
        return TRUE
    if len(vs) == 2:
        # one atom for two-variant enums
        first = vs[0][0]
        if adt == "core::option::Option":
            first = "Some"
        a = batom(mk("is", adt, first, x))
        return a if name == first else bnot(a)
    return batom(mk("is", adt, name, x))


def disc(adt, x):
    if x.op == "agg" and x.args[0][0] == "adt":
        for name, dv in ADTS.get(x.args[0][1], ()):
            if name == x.args[0][2]:
                return num(dv)
    if x.op == "ite":
        return ite(x.args[0], disc(adt, x.args[1]), disc(adt, x.args[2]))
    if x is BOT:
        return BOT
    return mk("disc", adt, x)


# ---------------------------------------------------------------- aggregates
def tup(*xs):
    return mk("agg", ("tuple",), *xs)


def adt(path, variant, is_enum, fields, vals):
    return mk("agg", ("adt", path, variant, is_enum, tuple(fields)), *vals)


def some(x):
    return adt("core::option::Option", "Some", True, ("0",), [x])


NONE = adt("core::option::Option", "None", True, (), [])


def ok(x):
    return adt("core::result::Result", "Ok", True, ("0",), [x])


def err(x):
    return adt("core::result::Result", "Err", True, ("0",), [x])


OPT = "core::option::Option"
RES = "core::result::Result"


def field(t, name, variant=None):
    """Field projection by name (variant given for enum payloads)."""
    if t.op == "ite":
        return ite(t.args[0], field(t.args[1], name, variant), field(t.args[2], name, variant))
    if t is BOT:
        return BOT
    if t.op == "agg":
        k = t.args[0]
        if k[0] == "adt":
            if variant is not None and k[2] != variant:
                return BOT
            if name in k[4]:
                return t.args[1 + k[4].index(name)]
            return BOT
        if k[0] in ("tuple", "array", "closure"):
            i = int(name)
            if i + 1 < len(t.args):
                return t.args[1 + i]
            return BOT
    if t.op == "upd":
        b, key, v = t.args
        if key == ("f", name, variant):
            return v
        if isinstance(key, tuple) and key[0] == "f":
            return field(b, name, variant)
    if t.op == "mat" and name in ("data", "0"):
        return t
    if t.op == "sym" or t.op == "app" or True:
        return mk("proj", name, variant or "", t)


def with_field(t, name, variant, v):
    if t.op == "agg":
        k = t.args[0]
        if k[0] == "adt" and (variant is None or k[2] == variant) and name in k[4]:
            i = k[4].index(name)
            l = list(t.args)
            l[1 + i] = v
            return mk("agg", *l)
        if k[0] in ("tuple", "array", "closure"):
            l = list(t.args)
            l[1 + int(name)] = v
            return mk("agg", *l)
    if t.op == "ite":
        return ite(t.args[0], with_field(t.args[1], name, variant, v), with_field(t.args[2], name, variant, v))
    key = ("f", name, variant)
    return upd(t, key, v)


def upd(t, key, v):
    if t.op == "upd":
        b, k2, v2 = t.args
        if k2 == key:
            return upd(b, key, v)
        if isinstance(k2, tuple) and isinstance(key, tuple) and str(k2) > str(key):
            return mk("upd", upd(b, key, v), k2, v2)
    # writing back what is there is a no-op
    if isinstance(key, tuple) and key[0] == "f" and v.op == "proj" and v.args[0] == key[1] and v.args[1] == (key[2] or "") and v.args[2] is t:
        return t
    return mk("upd", t, key, v)


# ---------------------------------------------------------------- matrices
def mat(r, c, entries):
    return mk("mat", r, c, *entries)


def ment(m, i, j=0):
    """Entry of a matrix term with constant indices."""
    if m.op == "ite":
        return ite(m.args[0], ment(m.args[1], i, j), ment(m.args[2], i, j))
    if m.op == "mat":
        return m.args[2 + i * m.args[1] + j]
    if m.op == "hd":
        return m.args[i]
    if m.op == "mzero":
        return num(0)
    if m.op == "mid":
        return num(1 if i == j else 0)
    if m.op == "mset":
        b, i2, j2, v = m.args
        if is_num(i2) and is_num(j2):
            if nval(i2) == i and nval(j2) == j:
                return v
            return ment(b, i, j)
    if m.op == "mtr":
        return ment(m.args[0], j, i)
    if m.op == "neg":
        return neg(ment(m.args[0], i, j))
    if m.op == "madd":
        return add(ment(m.args[0], i, j), ment(m.args[1], i, j))
    if m.op == "smul":
        return mul(m.args[0], ment(m.args[1], i, j))
    if m is BOT:
        return BOT
    if m.op == "mmul":
        k = mcols(m.args[0]) or mrows(m.args[1])
        if k and k <= 12:
            r = num(0)
            for q in range(k):
                r = add(r, mul(ment(m.args[0], i, q), ment(m.args[1], q, j)))
            return r
    if SYMM and i > j and fp(m) in SYMM:
        i, j = j, i
    return mk("ent", m, num(i), num(j))


def mrows(t):
    """Statically evident number of rows, or None."""
    if t.op == "mat":
        return t.args[0]
    if t.op == "ite":
        return mrows(t.args[1]) or mrows(t.args[2])
    if t.op == "mtr":
        return mcols(t.args[0])
    if t.op == "mmul":
        return mrows(t.args[0])
    if t.op == "smul":
        return mrows(t.args[1])
    if t.op == "madd":
        return mrows(t.args[0]) or mrows(t.args[1])
    return None


def mcols(t):
    if t.op == "mat":
        return t.args[1]
    if t.op == "ite":
        return mcols(t.args[1]) or mcols(t.args[2])
    if t.op == "mtr":
        return mrows(t.args[0])
    if t.op == "mmul":
        return mcols(t.args[1])
    if t.op == "smul":
        return mcols(t.args[1])
    if t.op == "madd":
        return mcols(t.args[0]) or mcols(t.args[1])
    return None


def expand(m, r, c):
    if m.op in ("mat", "hd"):
        return m
    return mat(r, c, [ment(m, i, j) for i in range(r) for j in range(c)])


# ---------------------------------------------------------------- algebraic value numbers
def _h(*parts):
    s = hashlib.blake2b(repr(parts).encode(), digest_size=16).digest()
    return int.from_bytes(s, "little") % P


N = 3


def _matsym(h):
    return tuple(_h("M", h, i) for i in range(N * N))


SYMM = set()      # value numbers of matrices declared symmetric


def symmetric(t):
    """Declare an opaque matrix symmetric (a covariance)."""
    f = fp(t)
    if isinstance(f, int):
        SYMM.add(f)
    return t


def asmat(f):
    if isinstance(f, tuple):
        return f
    m = _matsym(f)
    if f in SYMM:
        return tuple(m[min(i, j) * N + max(i, j)] for i in range(N) for j in range(N))
    return m


def _mm(a, b):
    return tuple(sum(a[i * N + k] * b[k * N + j] for k in range(N)) % P for i in range(N) for j in range(N))


def _inv(x):
    return pow(x, P - 2, P)


def _minv(m):
    a, b, c, d, e, f, g, h, i = m
    det = (a * (e * i - f * h) - b * (d * i - f * g) + c * (d * h - e * g)) % P
    di = _inv(det)
    adj = (e * i - f * h, c * h - b * i, b * f - c * e, f * g - d * i, a * i - c * g, c * d - a * f, d * h - e * g, b * g - a * h, a * e - b * d)
    return tuple(x * di % P for x in adj)


ZERO9 = (0,) * 9
ID9 = (1, 0, 0, 0, 1, 0, 0, 0, 1)


SALT = [None, None]      # alternative valuation: (salt, memo)


def fp(t):
    if SALT[0] is not None:
        m = SALT[1]
        r = m.get(t.id)
        if r is None:
            r = m[t.id] = _fp(t)
        return r
    r = t._fp
    if r is not None:
        return r
    r = _fp(t)
    t._fp = r
    return r


def _trig(f, x):
    """sin, cos, tan as points of the unit circle, so that sin^2 + cos^2 = 1 and parity hold algebraically."""
    if not isinstance(x, int):
        return None
    if x == 0:
        h = 0
    else:
        h = _h("angle", SALT[0], x) if x <= P - x else P - _h("angle", SALT[0], P - x)
    d = _inv((1 + h * h) % P)
    if f == "sin":
        return 2 * h * d % P
    if f == "cos":
        return (1 - h * h) * d % P
    return 2 * h * _inv((1 - h * h) % P) % P


def _root(x):
    """A square root modulo P, when there is one."""
    r = pow(x, (P + 1) // 4, P)
    if r * r % P != x:
        return None
    return min(r, P - r)


def same_alg(a, b, tries=40):
    """Equality modulo sqrt(x)^2 = x: equal in some valuation in which the radicands have roots (unequal terms agree in none)."""
    if same(a, b):
        return True
    if not any(x.op == "app" and x.args[0] in ("sqrt", "norm") for t in (a, b) for x in subterms(t)):
        return False
    try:
        for k in range(1, tries):
            SALT[0], SALT[1] = k, {}
            x, y = fp(a), fp(b)
            if isinstance(x, tuple) != isinstance(y, tuple):
                x, y = asmat(x), asmat(y)
            if x == y:
                return True
    finally:
        SALT[0] = SALT[1] = None
    return False


class _NotReal(Exception):
    pass


_FUN = {"sqrt": math.sqrt, "abs": abs, "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp, "ln": math.log, "atan": math.atan, "asin": math.asin, "acos": math.acos,
        "sinh": math.sinh, "cosh": math.cosh, "asinh": math.asinh, "tanh": math.tanh}


def feval(t, k, memo):
    """Value of a scalar term at the k-th random point; anything that is not arithmetic is a random leaf of its own."""
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = _feval(t, k, memo)
    return r


def _feval(t, k, memo):
    op, a = t.op, t.args
    if op == "num":
        return float(a[0])
    if op == "add":
        x, y = feval(a[0], k, memo), feval(a[1], k, memo)
        memo["big"] = max(memo.get("big", 0.0), abs(x), abs(y))
        return x + y
    if op == "neg":
        return -feval(a[0], k, memo)
    if op == "mul":
        return feval(a[0], k, memo) * feval(a[1], k, memo)
    if op == "div":
        return feval(a[0], k, memo) / feval(a[1], k, memo)
    if op == "app" and len(a) == 2 and a[0] in _FUN:
        return _FUN[a[0]](feval(a[1], k, memo))
    if op == "app" and a[0] == "atan2":
        return math.atan2(feval(a[1], k, memo), feval(a[2], k, memo))
    if op == "app" and a[0] in ("max", "min") and len(a) == 3:
        return (max if a[0] == "max" else min)(feval(a[1], k, memo), feval(a[2], k, memo))
    if op == "app" and a[0] == "pow":
        return math.pow(feval(a[1], k, memo), feval(a[2], k, memo))
    if op in ("sym", "app", "proj", "ent", "index", "const", "fconst"):
        f = fp(t)
        if not isinstance(f, int):
            raise _NotReal
        h = int(hashlib.sha256(("%d|%d" % (f, k)).encode()).hexdigest()[:13], 16) / float(1 << 52)
        g = int(hashlib.sha256(("%d|%d|s" % (f, k)).encode()).hexdigest()[:8], 16)
        z = k % 4
        if z == 0:
            v = 0.25 + 1.5 * h
        elif z == 1:
            v = (0.25 + 1.5 * h) * (1 if g & 1 else -1)
        elif z == 2:
            v = 10 ** (5 * h - 2) * (1 if g & 1 else -1)
        else:
            cs = memo.get("consts") or [1.0]
            v = cs[(g >> 1) % len(cs)] * (0.5 + h) * (1 if g & 1 else -1)
        return v * (1 + memo.get("pert", 0.0) * (1 if g & 2 else -1))
    raise _NotReal


def _holds(dec, k, memo):
    """Does the k-th point satisfy the decided inequalities (as far as they can be evaluated)?"""
    for a, v in (dec or {}).items():
        if a.op != "pos":
            continue
        try:
            x = feval(a.args[0], k, memo)
        except (_NotReal, ValueError, ZeroDivisionError, OverflowError, RecursionError):
            continue
        if (x > 0) != bool(v):
            return False
    return True


def real_verdict(a, b, dec=None, tries=8):
    """"same" / "diff" / None: the two as real functions, evaluated at random points of mixed sign and magnitude that satisfy the decided inequalities; points where either is undefined are skipped, and a difference
    counts only when it is beyond what rounding of the inputs explains."""
    cs = sorted({abs(float(x.args[0])) for t in (a, b) for x in subterms(t) if x.op == "num" and x.args[0] != 0})[:12] or [1.0]
    n = 0
    for k in range(240):
        m = {"consts": cs}
        try:
            x, y = feval(a, k, m), feval(b, k, m)
        except (ValueError, ZeroDivisionError, OverflowError):
            continue
        except (_NotReal, RecursionError):
            return None
        if x != x or y != y or abs(x) == math.inf or abs(y) == math.inf or not _holds(dec, k, m):
            continue
        if abs(x - y) > 1e-9 * max(abs(x), abs(y)) + 1e-14 * m.get("big", 0.0):
            tol = 0.0
            for s in (1e-12, -1e-12, 3e-12):
                m2 = {"consts": cs, "pert": s}
                try:
                    tol = max(tol, abs(feval(a, k, m2) - x), abs(feval(b, k, m2) - y))
                except (ValueError, ZeroDivisionError, OverflowError):
                    tol = math.inf
            if abs(x - y) > 10 * tol:
                return "diff"
            continue
        n += 1
        if n >= tries and k >= 40:
            return "same"
    return "same" if n >= 6 else None


def same_real(a, b):
    return real_verdict(a, b) == "same"


def fpkey(t):
    return fp(t) if isinstance(t, T) else t


def _fp(t):
    op = t.op
    a = t.args
    if op == "num":
        v = a[0]
        return v.numerator % P * _inv(v.denominator % P) % P
    if op == "add":
        x, y = fp(a[0]), fp(a[1])
        if isinstance(x, int) and isinstance(y, int):
            return (x + y) % P
        x, y = asmat(x), asmat(y)
        return tuple((p + q) % P for p, q in zip(x, y))
    if op == "madd":
        x, y = asmat(fp(a[0])), asmat(fp(a[1]))
        return tuple((p + q) % P for p, q in zip(x, y))
    if op == "neg":
        x = fp(a[0])
        if isinstance(x, int):
            return (-x) % P
        return tuple((-p) % P for p in x)
    if op == "mul":
        x, y = fp(a[0]), fp(a[1])
        if isinstance(x, tuple) or isinstance(y, tuple):
            return _h("mixmul", x, y)
        return x * y % P
    if op == "smul":
        x, y = fp(a[0]), asmat(fp(a[1]))
        if isinstance(x, tuple):
            return _h("smul?", x, y)
        return tuple(x * q % P for q in y)
    if op == "mmul":
        return _mm(asmat(fp(a[0])), asmat(fp(a[1])))
    if op == "mtr":
        m = asmat(fp(a[0]))
        return tuple(m[j * N + i] for i in range(N) for j in range(N))
    if op == "minv":
        return _minv(asmat(fp(a[0])))
    if op == "mzero":
        return ZERO9
    if op == "mid":
        return ID9
    if op == "div":
        x, y = fp(a[0]), fp(a[1])
        if isinstance(x, tuple):
            if isinstance(y, tuple):
                return _h("mdiv", x, y)
            iy = _inv(y)
            return tuple(q * iy % P for q in x)
        if isinstance(y, tuple):
            return _h("sdivm", x, y)
        return x * _inv(y) % P
    if op == "mat":
        return _h("mat", a[0], a[1], *[fp(x) for x in a[2:]])
    if op == "app":
        if a[0] in ("sin", "cos", "tan") and len(a) == 2:
            r = _trig(a[0], fp(a[1]))
            if r is not None:
                return r
        if a[0] == "sqrt" and SALT[0] is not None:
            x = fp(a[1])
            r = _root(x) if isinstance(x, int) else None
            if r is not None:
                return r
        return _h("app", a[0], *[fp(x) for x in a[1:]])
    if op == "sym":
        return _h(op, SALT[0], *[fpkey(x) for x in a]) if SALT[0] is not None else _h(op, *[fpkey(x) for x in a])
    if op == "ref":
        return _h("ref", t.id)
    return _h(op, *[fpkey(x) for x in a])


def same(a, b):
    if a is b:
        return True
    x, y = fp(a), fp(b)
    if isinstance(x, tuple) != isinstance(y, tuple):
        return asmat(x) == asmat(y)
    return x == y


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    st = [t]
    seen = set() if seen is None else seen
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.args:
            if isinstance(y, T):
                st.append(y)


def atoms(t):
    """Boolean atoms occurring in guards anywhere in t."""
    if t._atoms is not None:
        return t._atoms
    r = set()
    for x in subterms(t):
        if x.op == "bdd":
            r.add(x.args[0])
    t._atoms = r
    return r


def rebuild(t, f, memo):
    """Bottom-up map with smart constructors; f(t)-> replacement or None."""
    r = memo.get(t.id)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        ch = False
        na = []
        for x in t.args:
            if isinstance(x, T):
                y = rebuild(x, f, memo)
                ch = ch or (y is not x)
                na.append(y)
            else:
                na.append(x)
        r = t if not ch else remake(t.op, na)
    memo[t.id] = r
    return r


def remake(op, a):
    if op == "add":
        return add(*a)
    if op == "neg":
        return neg(a[0])
    if op == "mul":
        return mul(*a)
    if op == "div":
        return div(*a)
    if op == "ite":
        return ite(tobool(a[0]), a[1], a[2])
    if op == "bdd":
        return bite(tobool(a[0]), tobool(a[1]), tobool(a[2]))
    if op == "pos":
        return lt(num(0), a[0])
    if op == "eqpair":
        return mk("eqpair", *a)
    if op == "zero":
        return eq(*a[0].args) if a[0].op == "eqpair" else eq(a[0], num(0))
    if op == "eq":
        return eq(*a)
    if op == "is":
        return is_variant(a[2], a[0], a[1])
    if op == "disc":
        return disc(a[0], a[1])
    if op == "proj":
        return field(a[2], a[0], a[1] or None)
    if op == "ent":
        if is_num(a[1]) and is_num(a[2]):
            return ment(a[0], int(nval(a[1])), int(nval(a[2])))
    if op == "app":
        if a[0] == "sqrt":
            return sqrt(a[1])
        if a[0] == "abs":
            return absv(a[1])
    return mk(op, *a)


def cofactor(t, atom, val, memo=None):
    memo = {} if memo is None else memo
    r = TRUE if val else FALSE

    def f(x):
        if x is atom:
            return r
        return None
    return rebuild(t, f, memo)


def subst(t, m):
    """Substitute terms (dict T->T)."""
    ids = {k.id: v for k, v in m.items()}
    return rebuild(t, lambda x: ids.get(x.id), {})


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 12:
        return "…"
    op, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if op == "num":
        v = a[0]
        return str(v) if v.denominator == 1 or len(str(v)) < 12 else repr(float(v))
    if op == "sym":
        return a[0]
    if op == "str":
        return repr(a[0])
    if op == "add":
        return f"({s(a[0])} + {s(a[1])})"
    if op == "neg":
        return f"-{s(a[0])}"
    if op in ("mul", "smul"):
        return f"({s(a[0])} * {s(a[1])})"
    if op == "mmul":
        return f"({s(a[0])} @ {s(a[1])})"
    if op == "madd":
        return f"({s(a[0])} + {s(a[1])})"
    if op == "mtr":
        return f"{s(a[0])}'"
    if op == "minv":
        return f"inv({s(a[0])})"
    if op == "div":
        return f"({s(a[0])} / {s(a[1])})"
    if op == "app":
        return f"{a[0]}({', '.join(s(x) for x in a[1:])})"
    if op == "proj":
        return f"{s(a[2])}.{a[1] + '.' if a[1] else ''}{a[0]}"
    if op == "ent":
        return f"{s(a[0])}[{s(a[1])},{s(a[2])}]"
    if op == "agg":
        k = a[0]
        if k[0] == "adt":
            nm = k[1].split("::")[-1]
            nm = f"{nm}::{k[2]}" if k[3] else nm
            if not k[4]:
                return nm
            return nm + "{" + ", ".join(f"{f}: {s(x)}" for f, x in zip(k[4], a[1:])) + "}"
        return k[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if op == "bdd":
        if a[1] is TRUE and a[2] is FALSE:
            return s(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return "!" + s(a[0])
        if a[2] is FALSE:
            return f"{s(a[0])} & {s(a[1])}"
        if a[1] is TRUE:
            return f"({s(a[0])} | {s(a[2])})"
        if a[1] is FALSE:
            return f"!{s(a[0])} & {s(a[2])}"
        return f"({s(a[0])} ? {s(a[1])} : {s(a[2])})"
    if op == "ite":
        return f"if[{s(a[0])}]({s(a[1])} else {s(a[2])})"
    if op == "pos":
        return f"({s(a[0])} > 0)"
    if op == "zero":
        x = a[0]
        return f"({s(x.args[0])} == {s(x.args[1])})" if x.op == "eqpair" else f"({s(x)} == 0)"
    if op == "is":
        return f"is{a[1]}({s(a[2])})"
    if op in ("true", "false"):
        return op
    if op == "upd":
        return f"{s(a[0])}{{{a[1] if not isinstance(a[1], T) else s(a[1])} := {s(a[2])}}}"
    if op == "unk":
        return f"?{a[0]}"
    return f"{op}[{', '.join(s(x) for x in a)}]"


# ---------------------------------------------------------------- symbolic derivative of the value graph
class NotDifferentiable(Exception):
    pass


def diff(t, x, memo=None):
    """d t / d x for a scalar term t and a leaf x; terms that do not contain x are constants."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        r = _diff(t, x, memo)
        memo[t.id] = r
    return r


def _diff(t, x, memo):
    if t is x:
        return num(1)
    d = lambda u: diff(u, x, memo)
    op, a = t.op, t.args
    if op in ("num", "sym", "fconst", "str"):
        return num(0)
    if op == "add":
        return add(d(a[0]), d(a[1]))
    if op == "neg":
        return neg(d(a[0]))
    if op == "mul":
        return add(mul(d(a[0]), a[1]), mul(a[0], d(a[1])))
    if op == "div":
        return sub(div(d(a[0]), a[1]), div(mul(a[0], d(a[1])), mul(a[1], a[1])))
    if op == "ite":
        return ite(a[0], d(a[1]), d(a[2]))
    if not any(y is x for y in subterms(t)):
        return num(0)
    if op == "app":
        f = a[0]
        if f == "sqrt":
            return div(d(a[1]), mul(num(2), t))
        if f == "sin":
            return mul(app("cos", a[1]), d(a[1]))
        if f == "cos":
            return neg(mul(app("sin", a[1]), d(a[1])))
        if f == "exp":
            return mul(t, d(a[1]))
        if f == "abs":
            return mul(app("signum", a[1]), d(a[1]))
        if f == "atan2":
            n = add(mul(a[1], a[1]), mul(a[2], a[2]))
            return div(sub(mul(d(a[1]), a[2]), mul(a[1], d(a[2]))), n)
        if f == "acos":
            return neg(div(d(a[1]), sqrt(sub(num(1), mul(a[1], a[1])))))
        if f == "asin":
            return div(d(a[1]), sqrt(sub(num(1), mul(a[1], a[1]))))
    raise NotDifferentiable(show(t)[:200])

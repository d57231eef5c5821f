"""Gated value-graph reconstruction over MIR (intraprocedural dataflow + crate-local inlining).

For one function the analysis yields, for the returned value and for every `&mut` argument, a
term (see terms.py) over the function's inputs, with joins represented by gated phi (`ite`) nodes
whose guards are ROBDDs over the branch conditions. Loops with a constant trip count are expanded;
other loops are summarised by symbolic loop-carried values (mu) together with one generic
iteration (init / step / exits), and recognised reductions become `fold`/`collect` nodes.
Anything not understood becomes an opaque application or an `unk` node, never a guess.
"""
import re
from fractions import Fraction
from terms import *
import terms as TT
from facts import base, strip_generics


NOW = [None]      # the path condition of the call whose contract is consulted


class Loop:
    def __init__(self):
        self.mus = {}       # mu term -> (init, step)
        self.exits = {}
        self.where = None
        self.entry_pc = None
        self.back_pc = None
        self.pos = None
        self.line = None


ORIGIN = {}     # short name of an opaque callee -> (path, local, virtual, trait, resolved)


class Budget(Exception):
    pass


def short(path):
    """Canonical short name for an opaque callee: Type::method or Trait::method or fn."""
    p = path
    m = re.match(r"^<(.*) as (.*)>::([A-Za-z0-9_]+)$", p)
    if m:
        return base(m.group(2)) + "::" + m.group(3)
    # a::b::<impl X<Y>>::name
    m = re.search(r"<impl (.*)>::([A-Za-z0-9_]+)$", p)
    if m:
        x = m.group(1)
        if " for " in x:
            return base(x.split(" for ")[0]) + "::" + m.group(2)
        return base(x) + "::" + m.group(2)
    s = strip_generics(p).split("::")
    return "::".join(s[-2:]) if len(s) > 1 else s[-1]


_DIMS = {}


def const_dims(ty):
    """(rows, cols) if ty is a statically-sized nalgebra matrix, else None."""
    if ty in _DIMS:
        return _DIMS[ty]
    r = None
    k = ty.find("nalgebra::base::matrix::Matrix<")
    if k >= 0:
        a = top_args(ty[k:matching(ty, k)])
        if len(a) >= 3:
            m = [re.match(r"^nalgebra::base::dimension::Const<(\d+)>$", x) for x in a[1:3]]
            if all(m):
                r = int(m[0].group(1)), int(m[1].group(1))
    _DIMS[ty] = r
    return r


def matching(s, k):
    """index just past the '>' closing the first '<' at or after k"""
    d = 0
    for i in range(k, len(s)):
        if s[i] == "<":
            d += 1
        elif s[i] == ">":
            d -= 1
            if d == 0:
                return i + 1
    return len(s)


_MATRE = re.compile(r"^(&(mut )?('\w+ )?(mut )?)*nalgebra::base::matrix::Matrix<")


def is_matrix_ty(ty):
    return _MATRE.match(ty) is not None


NUMERIC = {"f64", "f32", "usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "isize"}


def deref_ty(t):
    t = t.strip()
    while t.startswith("&"):
        t = t[1:].lstrip()
        if t.startswith("'"):
            t = t.split(" ", 1)[1]
        if t.startswith("mut "):
            t = t[4:]
    return t


def scalar_like(ty):
    t = deref_ty(ty)
    return t in NUMERIC or t in ("hifitime::epoch::Epoch", "hifitime::duration::Duration", "hifitime::Epoch", "hifitime::Duration")


# ---------------------------------------------------------------- containers
VEC0 = mk("vec0")


def index(v, i):
    if v.op == "ite":
        return ite(v.args[0], index(v.args[1], i), index(v.args[2], i))
    if v.op == "agg" and v.args[0][0] in ("array", "tuple") and is_num(i):
        k = int(nval(i))
        return v.args[1 + k] if 0 <= k < len(v.args) - 1 else BOT
    if v.op == "agg" and v.args[0][0] == "array" and len(v.args) <= 13 and i.op in ("ite", "add"):
        ats = [a for a in atoms(i) if not any(isinstance(x, T) and atoms(x) for x in a.args)]
        if ats:
            a = min(ats, key=lambda a: a.id)
            return ite(batom(a), index(v, cofactor(i, a, True, {})), index(v, cofactor(i, a, False, {})))
    if v.op == "collect":
        return stream_item(v.args[0], i)
    if v.op == "store":
        b, i2, x = v.args
        if i2 is i or same(i2, i):
            return x
        if is_num(i2) and is_num(i):
            return index(b, i)
    if v.op == "push":
        n = length(v.args[0])
        if n is i or same(n, i):
            return v.args[1]
        if is_num(n) and is_num(i):
            return index(v.args[0], i)
    if v.op == "repeat":
        return v.args[0]
    if v.op == "subslice":
        return index(v.args[0], add(v.args[1], i))
    if v is BOT:
        return BOT
    return mk("index", v, i)


def store(v, i, x):
    if v.op == "agg" and v.args[0][0] == "array" and is_num(i):
        l = list(v.args)
        k = int(nval(i))
        if 0 <= k < len(l) - 1:
            l[1 + k] = x
            return mk("agg", *l)
    if v.op == "store":
        b, i2, x2 = v.args
        if same(i2, i):
            return store(b, i, x)
        if is_num(i2) and is_num(i) and nval(i2) > nval(i):
            return mk("store", store(b, i, x), i2, x2)
    return mk("store", v, i, x)


def length(v):
    if v.op == "ite":
        return ite(v.args[0], length(v.args[1]), length(v.args[2]))
    if v.op == "agg" and v.args[0][0] == "array":
        return num(len(v.args) - 1)
    if v.op == "vec0":
        return num(0)
    if v.op == "push":
        return add(length(v.args[0]), num(1))
    if v.op == "collect":
        return v.args[0].args[0]
    if v.op == "store":
        return length(v.args[0])
    if v.op == "repeat":
        return v.args[1]
    if v.op == "mat":
        return num(v.args[0] * v.args[1])
    if v is BOT:
        return BOT
    return app("len", v)


def level(t):
    m = 0
    for x in subterms(t):
        if x.op == "sym" and x.args[0].startswith("§"):
            m = max(m, slot(x))
    return m


def slot(x):
    """Number of a bound variable; placeholders being bound have none."""
    d = x.args[0][1:].split(".")[0]
    return int(d) if d.isdigit() else 0


def stream(n, f):
    """Build a stream of n items, f: idx term -> item term."""
    probe = sym("§probe")
    it = f(probe)
    k = 1
    for x in subterms(it):
        if x.op == "sym" and x.args[0].startswith("§") and x is not probe:
            k = max(k, slot(x) + 1)
    i = sym("§%d" % k)
    return mk("stream", n, i, subst(it, {probe: i}))


def stream_item(s, i):
    return subst(s.args[2], {s.args[1]: i})


def fold(n, init, f):
    """fold over index 0..n with f(acc, i)."""
    if is_num(n) and nval(n) <= 64:
        a = init
        for k in range(int(nval(n))):
            a = f(a, num(k))
        return a
    pa, pi = sym("§proba"), sym("§probi")
    b = f(pa, pi)
    k = 1
    for x in subterms(b):
        if x.op == "sym" and x.args[0].startswith("§") and x is not pa and x is not pi:
            k = max(k, slot(x) + 1)
    i, a = sym("§%d" % k), sym("§%d" % (k + 1))
    body = subst(b, {pa: a, pi: i})
    return mkfold(n, init, i, a, body)


def mkfold(n, init, i, a, body):
    # vec building -> collect
    if body.op == "push" and body.args[0] is a and init.op in ("vec0",):
        if not any(x is a for x in subterms(body.args[1])):
            return mk("collect", mk("stream", n, i, body.args[1]))
    # sums: acc + e
    d = sub(body, a)
    e = _strip_acc(body, a)
    if e is not None and is_num(init):
        return add(init, mk("sum", n, i, e))
    return mk("fold", n, init, i, a, body)


def _strip_acc(body, a):
    """body == a + e with e free of a -> e"""
    if body.op == "add":
        x, y = body.args
        if x is a and not any(z is a for z in subterms(y)):
            return y
        if y is a and not any(z is a for z in subterms(x)):
            return x
        for p, q in ((x, y), (y, x)):
            e = _strip_acc(p, a)
            if e is not None and not any(z is a for z in subterms(q)):
                return add(e, q)
    return None


def _remake(op, a):
    if op == "index":
        return index(*a)
    if op == "store":
        return store(*a)
    if op == "mset":
        return mset(*a)
    if op in ("madd", "smul", "mmul", "mtr"):
        return {"madd": madd, "smul": smul, "mmul": mmul, "mtr": mtr}[op](*a)
    if op == "app":
        f = REMAKE_APP.get(a[0])
        if f:
            return f(*a[1:])
    return _old_remake(op, a)


REMAKE_APP = {}
_old_remake = TT.remake
TT.remake = _remake


# ---------------------------------------------------------------- matrix algebra
def mset(m, i, j, v):
    if is_num(i) and is_num(j):
        ii, jj = int(nval(i)), int(nval(j))
        if m.op == "hd":
            l = list(m.args)
            l[ii] = v
            return mk("hd", *l)
        if m.op == "mat":
            l = list(m.args)
            if ii < l[0] and jj < l[1]:
                l[2 + ii * l[1] + jj] = v
                return mk("mat", *l)
            return BOT
        if m.op == "mset":
            b, i2, j2, v2 = m.args
            if is_num(i2) and is_num(j2):
                k2 = (nval(i2), nval(j2))
                if k2 == (ii, jj):
                    return mset(b, i, j, v)
                if k2 > (ii, jj):
                    return mk("mset", mset(b, i, j, v), i2, j2, v2)
    return mk("mset", m, i, j, v)


def mat_like(m):
    return m.op == "mat"


def madd(a, b):
    if a.op == "ite" and b.op != "ite" and b.op == "mat" or (b.op == "ite" and a.op == "mat"):
        return lift(madd, a, b)
    if a.op == "mzero":
        return b
    if b.op == "mzero":
        return a
    if a.op == "mat" and b.op == "mat":
        return mat(a.args[0], a.args[1], [add(x, y) for x, y in zip(a.args[2:], b.args[2:])])
    for x, y in ((a, b), (b, a)):
        if x.op == "mat" and x.args[0] * x.args[1] <= 36:
            return madd(x, expand(y, x.args[0], x.args[1]))
    return mk("madd", a, b)


def mneg(a):
    if a.op == "mat":
        return mat(a.args[0], a.args[1], [neg(x) for x in a.args[2:]])
    if a.op == "mzero":
        return a
    return smul(num(-1), a)


def smul(s, m):
    if m.op == "mat":
        return mat(m.args[0], m.args[1], [mul(s, x) for x in m.args[2:]])
    if m.op == "mzero":
        return m
    if is_num(s) and nval(s) == 1:
        return m
    if m.op == "ite" and any(x.op == "mat" for x in m.args[1:]):
        return lift(smul, s, m)
    return mk("smul", s, m)


def mmul(a, b):
    if a.op == "mat" and b.op == "mat":
        r, k, c = a.args[0], a.args[1], b.args[1]
        if k == b.args[0]:
            out = []
            for i in range(r):
                for j in range(c):
                    s = num(0)
                    for q in range(k):
                        s = add(s, mul(a.args[2 + i * k + q], b.args[2 + q * c + j]))
                    out.append(s)
            if r == 1 and c == 1:
                pass
            return mat(r, c, out)
    if a.op == "mid":
        return b
    if b.op == "mid":
        return a
    if a.op == "ite" and b.op in ("mat", "ite") and any(x.op == "mat" for x in a.args[1:]) or b.op == "ite" and a.op == "mat":
        return lift(mmul, a, b)
    if a.op == "mzero" or b.op == "mzero":
        return mk("mzero")
    return mk("mmul", a, b)


def mtr(a):
    if a.op == "mtr":
        return a.args[0]
    if a.op == "mat":
        r, c = a.args[0], a.args[1]
        return mat(c, r, [a.args[2 + i * c + j] for j in range(c) for i in range(r)])
    if a.op in ("mzero", "mid"):
        return a
    return mk("mtr", a)


def dot(a, b):
    s = num(0)
    for x, y in zip(a.args[2:], b.args[2:]):
        s = add(s, mul(x, y))
    return s


def fmax(a, b):
    a, b = folded(a), folded(b)
    if is_num(a) and is_num(b):
        return a if nval(a) >= nval(b) else b
    if same(a, b):
        return a
    for x, y in ((a, b), (b, a)):
        if is_num(x) and nval(x) <= 0 and TT.nonneg(y):
            return y
    return app("max", *sorted((a, b), key=lambda t: str(fp(t))))


def folded(a):
    """The number a sum amounts to when its symbols cancel, else the sum."""
    c = TT.constant_sum(a) if a.op == "add" else None
    return a if c is None else num(c)


def fmin(a, b):
    a, b = folded(a), folded(b)
    if is_num(a) and is_num(b):
        return a if nval(a) <= nval(b) else b
    if same(a, b):
        return a
    return app("min", *sorted((a, b), key=lambda t: str(fp(t))))


REMAKE_APP["max"] = fmax
REMAKE_APP["min"] = fmin
REMAKE_APP["len"] = length

_old_ite = TT.ite


def ite2(c, a, b):
    r = _old_ite(c, a, b)
    if r.op == "ite":
        c, a, b = r.args
        if c.op == "bdd" and c.args[0].op == "pos" and c.args[1] in (TRUE, FALSE) and c.args[2] in (TRUE, FALSE) \
                and a.op not in ("agg", "ref", "mat", "str", "vec0", "ite") and b.op not in ("agg", "ref", "mat", "str", "vec0", "ite"):
            if c.args[1] is FALSE:
                a, b = b, a
            d = fp(c.args[0].args[0])  # guard: d > 0 selects a
            fa, fb = fp(a), fp(b)
            if isinstance(d, int) and isinstance(fa, int) and isinstance(fb, int):
                if (fa - fb - d) % P == 0:
                    return fmax(a, b)
                if (fb - fa - d) % P == 0:
                    return fmin(a, b)
                if (fa + fb) % P == 0 and fa:
                    if d == fa:
                        return absv(a)
                    if d == fb:
                        return neg(absv(b))
    return r


TT.ite = ite2
ite = ite2
# rebind names used inside terms

# field access on vectors
_old_field = TT.field
_old_with_field = TT.with_field
AX = {"x": 0, "y": 1, "z": 2, "w": 3}


def field2(t, name, variant=None):
    if name == "§pos":
        return t.args[1] if t.op == "iter" else BOT
    if name in AX and t.op in ("mat", "mset", "mzero") and variant is None:
        return ment(t, AX[name], 0)
    return _old_field(t, name, variant)


def with_field2(t, name, variant, v):
    if name in AX and t.op in ("mat", "mset", "mzero") and variant is None:
        return mset(t, num(AX[name]), num(0), v)
    return _old_with_field(t, name, variant, v)


TT.field = field2
TT.with_field = with_field2
field = field2
with_field = with_field2


# ---------------------------------------------------------------- evaluator
class Result:
    pass


class Ev:
    def __init__(self, facts, opaque=(), max_depth=14, budget=60000, transparent=None, contract=None, turns=130):
        self.F = facts
        self.contract = contract or {}     # call -> its value as a function of its (dereferenced) arguments
        self.opaque = set(opaque)
        self.max_depth = max_depth
        self.ncell = 0
        self.loops = []
        self.notes = []
        self.calls = []      # (callee short, args, pc, where)
        self.stack = []
        self.steps = 0
        self.budget = budget
        self.turns = turns       # most iterations of a loop that are taken one by one
        self.inlined = set()
        self.lost = []
        self.assumes = []
        import models
        self.models = models
        self.const_switch = set()

    # ---- memory
    def cell(self, st, v):
        self.ncell += 1
        st[self.ncell] = v
        return self.ncell

    def ref(self, cell, path=()):
        return mk("ref", cell, tuple(path))

    def project(self, v, e):
        k = e[0]
        if k == "f":
            return field(v, e[1], e[2])
        if k == "idx":
            return index(v, e[1])
        if k == "ment":
            if is_num(e[1]) and is_num(e[2]):
                return ment(v, int(nval(e[1])), int(nval(e[2])))
            return mk("ent", v, e[1], e[2])
        if k == "get":
            return self.models.map_get_payload(v, e[1])
        if k == "view":
            return self.models.view_read(v, *e[1:])
        if k == "sub":
            return self.models.subslice(v, e[1], e[2])
        raise Exception("project " + str(e))

    def setp(self, v, path, x):
        if not path:
            return x
        e, rest = path[0], path[1:]
        if e[0] == "sub":
            if rest and rest[0][0] == "idx":
                return self.setp(v, (("idx", add(e[1], rest[0][1])),) + tuple(rest[1:]), x)
            return unk("assignment to a subslice")
        nv = self.setp(self.project(v, e), rest, x) if rest else x
        k = e[0]
        if k == "f":
            return with_field(v, e[1], e[2], nv)
        if k == "idx":
            return store(v, e[1], nv)
        if k == "ment":
            return mset(v, e[1], e[2], nv)
        if k == "get":
            return app("insert", v, e[1], nv)
        if k == "view":
            return self.models.view_write(v, e[1:], nv)
        raise Exception("setp")

    def load(self, st, cell, path):
        v = st.get(cell, BOT)
        for e in path:
            v = self.project(v, e)
        return v

    def deref(self, st, v):
        """Value behind v (v itself when it is not a tracked reference)."""
        if v.op == "ref":
            return self.load(st, v.args[0], v.args[1])
        if v.op == "ite" and self.has_ref(v):
            return ite(v.args[0], self.deref(st, v.args[1]), self.deref(st, v.args[2]))
        return v

    def has_ref(self, v):
        if v.op == "ref":
            return True
        if v.op == "ite":
            return self.has_ref(v.args[1]) or self.has_ref(v.args[2])
        return False

    def write(self, st, v, x, why=""):
        """Store x through reference value v."""
        if v.op == "ref":
            c, p = v.args
            st[c] = self.setp(st.get(c, BOT), p, x)
            return True
        if v.op == "ite" and self.has_ref(v):
            c, a, b = v.args
            oa, ob = self.deref(st, a), self.deref(st, b)
            self.write(st, a, ite(c, x, oa), why)
            ob = self.deref(st, b)
            self.write(st, b, ite(c, ob, x), why)
            return True
        self.lost.append((why, v))
        return False

    def loc(self, fr, st, place):
        """Resolve a place: ('loc', cell, path) or ('val', term)."""
        cell = fr["cells"][place[0]]
        cur = ("loc", cell, ())
        variant = None
        for e in place[1:]:
            if e == "*":
                if cur[0] == "loc":
                    v = self.load(st, cur[1], cur[2])
                else:
                    v = cur[1]
                if v.op == "ref":
                    cur = ("loc", v.args[0], v.args[1])
                elif v.op == "ite" and self.has_ref(v):
                    cur = ("iteref", v, ())
                else:
                    cur = ("val", v)
                variant = None
                continue
            if e == "cast":
                continue
            k = e[0]
            if k == "as":
                variant = e[1]
                continue
            if k == "f":
                el = ("f", e[2], variant)
            elif k == "i":
                el = ("idx", st.get(fr["cells"][e[1]], BOT))
            elif k == "ci":
                if e[2]:
                    base_v = self.load(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                    el = ("idx", sub(length(base_v), num(e[1])))
                else:
                    el = ("idx", num(e[1]))
            elif k == "ss":
                el = None
            variant = None
            if k == "ss":
                v = self.load(st, cur[1], cur[2]) if cur[0] == "loc" else cur[1]
                cur = ("val", mk("subslice", v, num(e[1]), num(e[2])))
                continue
            if cur[0] == "loc":
                cur = ("loc", cur[1], cur[2] + (el,))
            elif cur[0] == "iteref":
                cur = ("iteref", cur[1], cur[2] + (el,))
            else:
                cur = ("val", self.project(cur[1], el))
        return cur

    def read(self, fr, st, place):
        l = self.loc(fr, st, place)
        if l[0] == "loc":
            return self.load(st, l[1], l[2])
        if l[0] == "iteref":
            v = self.deref(st, l[1])
            for e in l[2]:
                v = self.project(v, e)
            return v
        return l[1]

    def assign(self, fr, st, place, v):
        l = self.loc(fr, st, place)
        if l[0] == "loc":
            st[l[1]] = self.setp(st.get(l[1], BOT), l[2], v)
        elif l[0] == "iteref":
            old = self.deref(st, l[1])
            self.write(st, l[1], self.setp(old, l[2], v))
        else:
            self.lost.append((fr["body"].id, l[1]))

    # ---- operands
    def const(self, fr, j):
        if "fn" in j:
            return mk("fn", FnBox.of(j, fr["subst"]))
        ty = j.get("ty", "")
        if "prom" in j:
            owner = self.F.bodies.get(j.get("promof")) or fr["body"]
            return self.eval_promoted(fr, owner, j["prom"])
        v = j.get("v")
        if "path" in j and v is None:
            b = self.F.bodies.get(j["path"])
            if b is not None and len(self.stack) < self.max_depth and b.id not in self.stack:
                try:
                    return self.eval_const_body(b)
                except Budget:
                    raise
            ca = [tsubst(x, fr["subst"]) for x in j.get("cargs") or ()]
            if ca and j["path"].endswith("DimName::DIM"):
                m = re.search(r"Const<(\d+)>$", ca[0])
                return num(int(m.group(1))) if m else mk("const", "dim(%s)" % ca[0])
            if j["path"].endswith("Aberration::NONE"):
                return NONE
            return mk("const", strip_generics(j["path"]))
        if v is None:
            if "tyconst" in j:
                n = fr["subst"].get(j["tyconst"], j["tyconst"])
                if re.match(r"^\d+$", n):
                    return num(int(n))
                return mk("const", n)
            return mk("const", "?" + ty)
        return self.cv(v, ty, j.get("path"))

    def cv(self, v, ty, path=None):
        """Constant JSON -> term."""
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return num(v)
        if isinstance(v, str):
            return string(v)
        if isinstance(v, list):
            ets = None
            if ty.startswith("("):
                return mk("agg", ("tuple",), *[self.cv(x, "") for x in v])
            m = re.match(r"^&?(?:'\w+ )?\[(.*?)(?:; [^\]]*)?\]$", ty)
            et = m.group(1) if m else ""
            return mk("agg", ("array",), *[self.cv(x, et) if x is not None else mk("const", path or "?") for x in v])
        if isinstance(v, dict):
            if "f" in v and len(v) == 1:
                return num(float(v["f"]))
            if "str" in v and len(v) == 1:
                return string(v["str"])
            if "zst" in v:
                t = v["zst"]
                if "closure" in t:
                    return mk("const", "closure")
                s = strip_generics(t)
                if s in self.F.adts and self.F.adts[s]["kind"] == "struct":
                    return adt(s, s.split("::")[-1], False, (), [])
                return mk("zst", s) if t != "()" else UNIT
            if "variant" in v:
                s = strip_generics(deref_ty(ty))
                a = self.F.adts.get(s)
                if a and a["kind"] == "enum":
                    for vv in a["variants"]:
                        if vv["name"] == v["variant"]:
                            fs = [f[0] for f in vv["fields"]]
                            vals = [self.cv(x, f[1]) if x is not None else mk("const", (path or "?") + "." + f[0]) for x, f in zip(v.get("fields", []), vv["fields"])]
                            if len(vals) == len(fs):
                                return adt(s, v["variant"], True, fs, vals)
                return mk("const", (path or ty) + "::" + v["variant"])
            if "centuries" in v and "nanoseconds" in v:
                return num(Fraction(v["centuries"]) * 3155760000 + Fraction(v["nanoseconds"], 10**9))
            if "raw" in v:
                return mk("const", path or (ty + "#" + str(v["raw"])))
            s = strip_generics(deref_ty(ty))
            a = self.F.adts.get(s)
            if a and a["kind"] == "struct" and not is_matrix_ty(ty):
                fs = [f[0] for f in a["variants"][0]["fields"]]
                vals = [self.cv(v[f], ft) if v.get(f) is not None else mk("const", (path or "?") + "." + f) for f, ft in a["variants"][0]["fields"]]
                return adt(s, s.split("::")[-1], False, fs, vals)
            return mk("const", path or repr(sorted(v))[:60] + ty)
        return mk("const", path or ty)

    _promcache = {}

    def eval_promoted(self, fr, owner, i):
        p = owner.j["promoted"][i]
        b = _PBody(owner, p, i)
        st = {}
        r, _, _ = self.eval_body(b, [], st, TRUE, fr["subst"])
        return r

    def eval_const_body(self, b):
        st = {}
        r, _, _ = self.eval_body(b, [], st, TRUE, {})
        return r

    def operand(self, fr, st, op):
        if op[0] in ("c", "m"):
            return self.read(fr, st, op[1])
        return self.const(fr, op[1])

    # ---- rvalues
    def rvalue(self, fr, st, r, dest_ty):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k == "ref":
            if r[1]:
                l = self.loc(fr, st, r[2])
                if l[0] == "loc":
                    return self.ref(l[1], l[2])
                if l[0] == "iteref":
                    def ext(v):
                        if v.op == "ref":
                            return self.ref(v.args[0], v.args[1] + l[2])
                        if v.op == "ite":
                            return mk("ite", v.args[0], ext(v.args[1]), ext(v.args[2]))
                        return v
                    return ext(l[1])
                return l[1]
            return self.read(fr, st, r[2])
        if k == "bin":
            a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, r[4])
        if k == "un":
            a = self.operand(fr, st, r[2])
            if r[1] == "Neg":
                return neg(a)
            if r[1] == "Not":
                if dest_ty == "bool" or a.op in ("bdd", "true", "false") or r[2][0] in ("c", "m") and len(r[2][1]) == 1 and fr["body"].locals[r[2][1][0]][0] == "bool":
                    return bnot(tobool(a))
                return app("bitnot", a)
            if r[1] == "PtrMetadata":
                return length(self.deref(st, a))
            return app("un" + r[1], a)
        if k == "cast" and r[1] == "BoxDerefTransmute" and r[2][0] in "cm":
            return self.operand(fr, st, [r[2][0], r[2][1][:1]])
        if k == "cast":
            a = self.operand(fr, st, r[2])
            kind, to, frm = r[1], r[3], r[4]
            if kind == "FloatToInt":
                if is_num(a):
                    return num(int(nval(a)))
                return app("trunc", a)
            if kind == "IntToInt" and frm == "bool":
                return ite(tobool(a), num(1), num(0))
            if a.op == "disc":
                return a
            if kind == "Transmute":
                return app("transmute", a)
            return a
        if k == "disc":
            v = self.read(fr, st, r[1])
            v = self.deref(st, v)
            return disc(r[2] or "?", v)
        if k == "agg":
            vals = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == "adt":
                if len(kk[4]) != len(vals):
                    return unk("union agg")
                return adt(kk[1], kk[2], kk[3], tuple(kk[4]), vals)
            if kk[0] == "closure":
                return mk("agg", ("closure", kk[1]), mk("subst", SubstBox.of(fr["subst"])), *vals)
            if kk[0] == "array":
                return mk("agg", ("array",), *vals)
            if kk[0] == "tuple":
                return mk("agg", ("tuple",), *vals)
            return unk("agg")
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            if isinstance(n, int) and n <= 64:
                return mk("agg", ("array",), *([v] * n))
            return mk("repeat", v, num(n) if isinstance(n, int) else mk("const", n))
        return unk("rvalue " + str(r[1])[:40])

    def binop(self, op, a, b, ty):
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        wo = "WithOverflow" in op
        r = None
        if o in ("Add", "Sub", "Mul"):
            r = {"Add": add, "Sub": sub, "Mul": mul}[o](a, b)
            if wo:
                return mk("agg", ("tuple",), r, FALSE)
            return r
        if o == "Div":
            if ty in ("f64", "f32"):
                return div(a, b)
            if is_num(a) and is_num(b) and nval(b) != 0:
                return num(int(nval(a) / nval(b)))
            return app("idiv", a, b)
        if o == "Rem":
            if is_num(a) and is_num(b) and nval(b) != 0:
                import math
                q = nval(a) / nval(b)
                q = math.floor(q) if q >= 0 else math.ceil(q)
                return num(nval(a) - q * nval(b))
            return app("rem", a, b)
        if o in ("Lt", "Le", "Gt", "Ge"):
            return {"Lt": lt, "Le": le, "Gt": gt, "Ge": ge}[o](a, b)
        if o == "Eq":
            return tobool(eq(a, b))
        if o == "Ne":
            return bnot(tobool(eq(a, b)))
        if o in ("BitAnd", "BitOr", "BitXor"):
            if ty == "bool":
                x, y = tobool(a), tobool(b)
                return {"BitAnd": band(x, y), "BitOr": bor(x, y), "BitXor": bite(x, bnot(y), y)}[o]
            if is_num(a) and is_num(b):
                x, y = int(nval(a)), int(nval(b))
                return num({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[o])
            f = {"BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor"}[o]
            return bitapp(f, a, b)
        if o in ("Shl", "Shr"):
            if is_num(a) and is_num(b):
                x, y = int(nval(a)), int(nval(b))
                return num(x << y if o == "Shl" else x >> y)
            return app(o.lower(), a, b)
        if o == "Cmp":
            return self.models.ordering(a, b)
        return app("bin" + op, a, b)

    # ---- function evaluation
    def eval_body(self, body, args, st, pc, substm, where=None):
        if body.id in self.stack and body.kind != "closure" and not isinstance(body, _PBody):
            raise Budget("recursion " + body.id)
        if len(self.stack) > 60:
            raise Budget("depth")
        self.stack.append(body.id)
        try:
            fr = {"body": body, "cells": [], "subst": substm}
            n0 = self.ncell
            for i, l in enumerate(body.locals):
                v = BOT
                if 1 <= i <= body.argc:
                    v = args[i - 1] if i - 1 < len(args) else unk("missing arg")
                self.ncell += 1
                fr["cells"].append(self.ncell)
                if v is not BOT:
                    st[self.ncell] = v
            cfg = body.cfg()
            rets = []
            outs = self.region(fr, set(cfg.rpo), 0, pc, st, rets, top=True)
            if not rets:
                return BOT, st, FALSE
            pc2, st2 = self.merge(rets)
            rv = st2.get(fr["cells"][0], UNIT if body.locals[0][0] == "()" else BOT)
            for c in fr["cells"]:
                st2.pop(c, None)
            return rv, st2, pc2
        finally:
            self.stack.pop()

    def merge(self, ins):
        ins = [(p, s) for p, s in ins if p is not FALSE]
        if not ins:
            return FALSE, {}
        if len(ins) == 1:
            return ins[0][0], dict(ins[0][1])
        # suffix disjunctions
        tot = FALSE
        sufs = []
        for p, _ in reversed(ins):
            tot = bor(tot, p)
            sufs.append(tot)
        sufs = sufs[::-1]
        keys = set()
        for _, s in ins:
            keys.update(s.keys())
        out = {}
        conds = [constrain(ins[i][0], sufs[i]) for i in range(len(ins) - 1)]
        for k in keys:
            vals = [s.get(k, BOT) for _, s in ins]
            v0 = vals[0]
            if all(v is v0 for v in vals):
                out[k] = v0
                continue
            v = vals[-1]
            for i in range(len(ins) - 2, -1, -1):
                v = self.vite(conds[i], vals[i], v)
            out[k] = v
        return tot, out

    def vite(self, c, a, b):
        return ite(c, a, b)

    def region(self, fr, nodes, entry, pc, st, rets, top=False):
        cfg = fr["body"].cfg()
        pending = {entry: [(pc, st)]}
        exits = {}

        def route(t, p, s):
            if p is FALSE:
                return
            if (t == entry and not top) or t not in nodes:
                exits.setdefault(t, []).append((p, s))
            else:
                pending.setdefault(t, []).append((p, s))
        for b in cfg.rpo:
            if b not in nodes or b not in pending:
                continue
            p, s = self.merge(pending.pop(b))
            if p is FALSE:
                continue
            if b in cfg.loops and (b != entry or top):
                for t, l in self.run_loop(fr, b, cfg.loops[b], p, s, rets).items():
                    for pp, ss in l:
                        route(t, pp, ss)
            else:
                for t, pp, ss in self.block(fr, b, p, s, rets):
                    route(t, pp, ss)
        return exits

    def block(self, fr, b, pc, st, rets):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("steps")
        body = fr["body"]
        bl = body.blocks[b]
        for s in bl["s"]:
            if s[0] == "=":
                dty = body.locals[s[1][0]][0] if len(s[1]) == 1 else ""
                v = self.rvalue(fr, st, s[2], dty)
                self.assign(fr, st, s[1], v)
            elif s[0] == "setdisc":
                self.notes.append("setdisc")
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], pc, st)]
        if k == "drop":
            return [(t[2], pc, st)]
        if k == "assert":
            return [(t[3], pc, st)]
        if k == "return":
            rets.append((pc, st))
            return []
        if k == "switch":
            d = self.operand(fr, st, t[1])
            outs = []
            rest = pc
            if t[4] == "bool":
                c = tobool(d)
                if c is TRUE or c is FALSE:
                    self.const_switch.add((body.id, b))
                for v, tb in t[2]:
                    g = c if v else bnot(c)
                    outs.append((tb, band(rest, g), dict(st)))
                    rest = band(rest, bnot(g))
            else:
                vals = []
                for v, tb in t[2]:
                    g = tobool(eq(d, num(v)))
                    outs.append((tb, band(rest, g), dict(st)))
                    rest = band(rest, bnot(g))
                # exhaustive enum switch: otherwise is dead
                if d.op == "disc":
                    vs = ADTS.get(d.args[0])
                    if vs and {v for v, _ in t[2]} >= {dv for _, dv in vs}:
                        rest = FALSE
                    elif vs and len(vs) - len({v for v, _ in t[2]}) == 1:
                        miss = [n for n, dv in vs if dv not in {v for v, _ in t[2]}]
                        g = is_variant(d.args[1], d.args[0], miss[0])
                        rest = band(pc, g) if len(vs) > 2 else rest
            outs.append((t[3], rest, dict(st)))
            return self.prune(outs, body)
        if k == "call":
            return self.call(fr, t, pc, st)
        return []

    def prune(self, outs, body):
        r = []
        for tb, p, s in outs:
            if p is FALSE:
                continue
            bl = body.blocks[tb]
            if bl and bl["t"][0] == "unreachable" and not bl["s"]:
                continue
            r.append((tb, self.excl(p), s))
        # if only one remains its guard is implied (unreachable others)
        return r

    def excl(self, p):
        return p

    # ---- loops
    def run_loop(self, fr, h, nodes, pc, st, rets):
        # 1. constant trip count: expand
        u = self.try_unroll(fr, h, nodes, pc, st, rets)
        if u is not None:
            return u
        # 2. summarise
        L = Loop()
        L.where = fr["body"].id
        L.entry_pc = pc
        lid = len(self.loops)
        self.loops.append(L)
        gen = dict(st)
        mus = {}
        snap_l = len(self.loops)
        nlost, nnotes, ncalls = len(self.lost), len(self.notes), len(self.calls)
        for it in range(12):
            del self.loops[snap_l:]
            del self.lost[nlost:]
            del self.notes[nnotes:]
            del self.calls[ncalls:]
            lrets = []
            ex = self.region(fr, nodes, h, TRUE, dict(gen), lrets)
            back = ex.pop(h, [])
            if not back:
                # body never loops
                if not lrets and not ex:
                    return {}
                bst = gen
                changed = False
                back_pc = FALSE
            else:
                back_pc, bst = self.merge(back)
                changed = False
                for c in list(gen.keys()):
                    g0, b1 = gen[c], bst.get(c, BOT)
                    if g0 is b1:
                        continue
                    g1 = self.generalize(g0, b1, ("L%d" % lid, self.cname(fr, c)), mus)
                    if g1 is not g0:
                        gen[c] = g1
                        changed = True
                for c in bst:
                    if c not in gen and c in fr["cells"]:
                        pass
            if not changed:
                break
        else:
            self.notes.append("loop did not stabilise in " + fr["body"].id)
        # record mu init/step
        L.back_pc = back_pc
        for mu, acc in mus.items():
            ini = self._at(st, acc)
            stp = self._at(bst, acc)
            if self._at(gen, acc) is mu:
                L.mus[mu] = (ini, stp)
        L.exits = {}
        out = {}
        allex = [(t, p, s) for t, l in ex.items() for p, s in l]
        sole = len(allex) == 1 and not lrets
        rep = self.fold_post(L, allex, lrets, fr) if sole else {}
        for t, p, s in allex:
            L.exits.setdefault(t, []).append(p)
            p2 = band(pc, p) if not sole else pc
            if rep:
                s = {c: subst(v, rep) if v is not BOT else v for c, v in s.items()}
            out.setdefault(t, []).append((p2, s))
        L.exit_states = [(p, s) for _, p, s in allex]
        L.rets = lrets
        L.fr = fr
        L.back_state = bst
        for p, s in lrets:
            rets.append((band(pc, p), s))
        return out

    def _at(self, st, acc):
        cell, path = acc
        v = st.get(cell, BOT)
        for e in path:
            v = self.project(v, e) if e[0] != "agg" else (v.args[1 + e[1]] if v.op == "agg" and len(v.args) > 1 + e[1] else (BOT))
        return v

    def cname(self, fr, c):
        try:
            i = fr["cells"].index(c)
            return (fr["body"].locals[i][1] or "_%d" % i), c
        except ValueError:
            return "c%d" % c, c

    def generalize(self, g, b, key, mus, path=()):
        if g is b:
            return g
        (lid, (nm, cell)) = key
        if g.op == "sym" and g in mus:
            return g
        if g.op == "agg" and b.op == "agg" and g.args[0] == b.args[0] and len(g.args) == len(b.args):
            na = [self.generalize(x, y, key, mus, path + (("agg", i),)) for i, (x, y) in enumerate(zip(g.args[1:], b.args[1:]))]
            return mk("agg", g.args[0], *na)
        if g.op == "iter" and b.op == "iter" and g.args[0] is b.args[0]:
            m = sym("μ%s.%s.pos" % (lid, nm))
            mus[m] = (cell, path + (("iterpos",),)) if False else (cell, path + (("f", "§pos", None),))
            return mk("iter", g.args[0], m)
        if g.op == "mat" and b.op == "mat" and g.args[:2] == b.args[:2]:
            r, c = g.args[:2]
            na = []
            for i, (x, y) in enumerate(zip(g.args[2:], b.args[2:])):
                na.append(self.generalize(x, y, key, mus, path + (("ment", num(i // c), num(i % c)),)))
            return mat(r, c, na)
        # record update over the same base
        gb, gd = self._updmap(g)
        bb, bd = self._updmap(b)
        if gb is bb and (gd or bd) and all(k[0] == "f" for k in list(gd) + list(bd)):
            r = g
            for k in sorted(set(gd) | set(bd), key=str):
                x = field(g, k[1], k[2])
                y = field(b, k[1], k[2])
                z = self.generalize(x, y, key, mus, path + (k,))
                if z is not x:
                    r = with_field(r, k[1], k[2], z)
            return r
        nmp = nm + "".join("." + str(e[1]) if not isinstance(e[1], T) else "[]" for e in path)
        m = sym("μ%s.%s" % (lid, nmp))
        mus[m] = (cell, path)
        return m

    def _updmap(self, t):
        d = {}
        while t.op == "upd" and isinstance(t.args[1], tuple):
            d.setdefault(t.args[1], t.args[2])
            t = t.args[0]
        return t, d

    def fold_post(self, L, allex, lrets, fr):
        """Recognise index-driven reductions; returns {mu: closed term}."""
        t, p, s = allex[0]
        rep = {}
        pos = None
        for m, (ini, stp) in L.mus.items():
            if is_num(ini) and nval(ini) == 0 and stp is add(m, num(1)):
                if p.op == "bdd":
                    a = p.args[0]
                    if a.op == "pos" and p.args[1] is FALSE and p.args[2] is TRUE:
                        n = add(a.args[0], m)
                        f0 = fp(sub(n, m))
                        # a.args[0] == n - m
                        if isinstance(fp(a.args[0]), int):
                            nn = self._cancel(a.args[0], m)
                            if nn is not None:
                                pos, n = m, nn
                                break
        if pos is None:
            return rep
        others = set(L.mus) - {pos}
        rep[pos] = n
        L.pos = pos
        L.n = n
        for m in others:
            ini, stp = L.mus[m]
            fr_ = {x for x in subterms(stp) if x.op == "sym"}
            if fr_ & (others - {m}):
                continue
            if any(x in fr_ for x in ()):
                continue
            rep[m] = fold(n, ini, lambda a, i: subst(stp, {m: a, pos: i}))
        return rep

    def _cancel(self, d, m):
        """d == n - m structurally -> n"""
        if d.op == "add":
            x, y = d.args
            if y.op == "neg" and y.args[0] is m and not any(z is m for z in subterms(x)):
                return x
            if x.op == "neg" and x.args[0] is m and not any(z is m for z in subterms(y)):
                return y
        return None

    def try_unroll(self, fr, h, nodes, pc, st, rets):
        cur = [(pc, st)]
        out = {}
        acc_rets = []
        nl, nn, nlo, nc = len(self.loops), len(self.notes), len(self.lost), len(self.calls)
        steps0 = self.steps
        for pl, v in self.loop_iters(fr, nodes, st):
            if v.op == "iter" and v.args[0].op == "stream" and is_num(v.args[0].args[0]) and nval(v.args[0].args[0]) > self.turns:
                return None     # too many turns to take one by one
        for it in range(self.turns):
            p, s = self.merge(cur)
            if it == 40 and not self.const_trip(fr, nodes, s):
                break
            lrets = []
            self.const_switch = {x for x in self.const_switch if x[0] != fr["body"].id or x[1] not in nodes}
            p, s, skip = self.force_item(fr, nodes, p, s)
            ex = self.region(fr, nodes, h, p, s, lrets)
            back = ex.pop(h, []) + skip
            bp = FALSE
            for q, _ in back:
                bp = bor(bp, q)
            ep = FALSE
            for l in ex.values():
                for q, _ in l:
                    ep = bor(ep, q)
            for q, _ in lrets:
                ep = bor(ep, q)
            for t, l in ex.items():
                out.setdefault(t, []).extend(l)
            acc_rets.extend(lrets)
            if bp is FALSE:
                rets.extend(acc_rets)
                return out
            # the exit decision must be constant in this iteration, except through error/early exits
            if ep is not FALSE and not self.const_trip(fr, nodes, s):
                del self.loops[nl:], self.notes[nn:], self.lost[nlo:], self.calls[nc:]
                self.steps = steps0
                return None
            if it == 0 and ep is FALSE and not self.const_trip(fr, nodes, s) and not self.const_header(fr, h, nodes, s):
                pass
            cur = back
        del self.loops[nl:], self.notes[nn:], self.lost[nlo:], self.calls[nc:]
        return None

    def const_header(self, fr, h, nodes, s):
        return True

    def loop_iters(self, fr, nodes, s):
        """Iterator values (and their places) asked for their next item in this loop."""
        for b in nodes:
            bl = fr["body"].blocks[b]
            t = bl["t"]
            if t[0] == "call" and t[1].get("name") == "next":
                op = t[2][0]
                refs = {ss[1][0]: ss[2][2] for ss in bl["s"] if ss[0] == "=" and len(ss[1]) == 1 and ss[2][0] == "ref"}
                pl = op[1]
                while len(pl) in (1, 2) and pl[0] in refs and (len(pl) == 1 or pl[1] == "*"):
                    pl = refs.pop(pl[0])
                yield pl, self.deref(s, self.read(fr, s, pl))

    def force_item(self, fr, nodes, p, s):
        """A conditional item of the list driving this loop: take the turn under its condition, skip it otherwise."""
        for pl, v in self.loop_iters(fr, nodes, s):
            if v.op != "piter":
                continue
            k = v.args[0]
            if 2 * k + 1 >= len(v.args) or v.args[2 * k + 1] is TRUE:
                continue
            c = v.args[2 * k + 1]
            args = list(v.args[1:])
            args[2 * k] = TRUE
            s1, s2 = dict(s), dict(s)
            for st, nv in ((s1, mk("piter", k, *args)), (s2, mk("piter", k + 1, *args))):
                old = self.read(fr, st, pl)
                if old.op == "ref":
                    self.write(st, old, nv)
                else:
                    self.assign(fr, st, pl, nv)
            return band(p, c), s1, [(band(p, bnot(c)), s2)]
        return p, s, []

    def const_trip(self, fr, nodes, s):
        """True if the number of turns is constant: an iterator of constant length, or an exit test between constants."""
        for b in nodes:
            bl = fr["body"].blocks[b]
            t = bl["t"]
            if t[0] == "switch" and (fr["body"].id, b) in self.const_switch and any(x not in nodes for x in [tb for _, tb in t[2]] + [t[3]]) \
                    and any(ss[0] == "=" and ss[2][0] == "bin" and ss[2][1] in ("Lt", "Le", "Gt", "Ge", "Ne", "Eq") for ss in bl["s"]):
                return True
            if t[0] == "call" and t[1].get("name") == "next":
                op = t[2][0]
                # the iterator local is (re)borrowed into temporaries of this block: find the source
                refs = {ss[1][0]: ss[2][2] for ss in bl["s"] if ss[0] == "=" and len(ss[1]) == 1 and ss[2][0] == "ref"}
                pl = op[1]
                while len(pl) in (1, 2) and pl[0] in refs and (len(pl) == 1 or pl[1] == "*"):
                    pl = refs.pop(pl[0])
                v = self.deref(s, self.read(fr, s, pl))
                if v.op == "piter":
                    return True
                if v.op in ("iter", "mutiter") and is_num(v.args[-1] if v.op == "iter" else v.args[2]):
                    n = v.args[0].args[0] if v.op == "iter" else v.args[0]
                    if is_num(n):
                        return True
        return False

    # ---- calls
    def call(self, fr, t, pc, st):
        _, fj, aj, dest, target, line = t
        body = fr["body"]
        args = [self.operand(fr, st, a) for a in aj]
        dty = body.locals[dest[0]][0] if len(dest) == 1 else ""
        if fr["subst"]:
            dty = tsubst(dty, fr["subst"])
        r = None
        if "fn" not in fj:
            callee = self.operand(fr, st, fj["op"])
            r = self.apply(fr, callee, args, st, pc, dty, line)
        else:
            r = self.call_fn(fr, FnBox.of(fj, fr["subst"]), args, st, pc, dty, line)
        if isinstance(r, tuple):
            v, st, pc = r
        else:
            v = r
        if target is None or pc is FALSE:
            return []
        self.assign(fr, st, dest, v)
        return [(target, pc, st)]

    def apply(self, fr, callee, args, st, pc, dty="", line=0):
        """Call a first-class function value."""
        callee = self.deref(st, callee)
        if callee.op == "fn":
            return self.call_fn(fr, callee.args[0], args, st, pc, dty, line)
        if callee.op == "agg" and callee.args[0][0] == "closure":
            b = self.F.bodies.get(callee.args[0][1])
            if b is not None and len(self.stack) < 40:
                sm = callee.args[1].args[0].m
                env = mk("agg", ("tuple",), *callee.args[2:])
                # env by value or reference: closures mutating by-value captures are rare
                if b.locals[1][0].startswith("&mut"):
                    c = self.cell(st, env)
                    env = self.ref(c)
                a = [env] + list(args)
                return self.eval_body(b, a, st, pc, sm)
        return app("apply", callee, *[self.deref(st, a) for a in args])

    def call_fn(self, fr, f, args, st, pc, dty, line):
        name = f.path
        sh = f.short
        self.cur = (fr, f, dty, st, pc, line)
        if sh in self.contract:
            NOW[0] = pc
            r = self.contract[sh](*[self.deref(st, a) for a in args])
            if isinstance(r, tuple):            # (value, what its first argument refers to afterwards)
                self.write(st, args[0], r[1])
                r = r[0]
            if r is not None:                   # None: not a call this is about
                return r
        # explicit opaque: bypass inlining and models
        if sh in self.opaque or f.name in self.opaque:
            return self.opaque_call(fr, f, args, st, pc, dty, line)
        if args and args[0].op == "ref" and (sh.startswith("Matrix::") or "Assign::" in sh or sh.startswith("Index")):
            v = self.deref(st, args[0])
            if v.op == "ref" and v.args[1] and v.args[1][-1][0] == "view":      # a method of a view acts on the matrix it views
                args = [v] + list(args[1:])
        h = self.models.lookup(f)
        if h is not None:
            r = h(self, fr, f, args, st, pc, dty)
            if r is not NotImplemented:
                return r
        b = self.resolve(f)
        if b is not None and b.id not in self.stack and len(self.stack) < self.max_depth and len(b.blocks) < 900:
            rs = self.models.derived(self, b, f, args, st)
            if rs is not None:
                return rs
            snap = (len(self.loops), len(self.notes), len(self.lost), len(self.calls))
            keep = dict(st)
            try:
                self.inlined.add(b.id)
                sm = self.bind_generics(b, f)
                return self.eval_body(b, args, st, pc, sm)
            except Budget as e:
                if "steps" in str(e):
                    raise
                st.clear()
                st.update(keep)
                self.notes.append("opaque %s: %s" % (sh, e))
        return self.opaque_call(fr, f, args, st, pc, dty, line)

    def bind_generics(self, b, f):
        g = b.j.get("generics", [])
        a = f.rargs
        if a and len(a) == len(g):
            return {k: v for k, v in zip(g, a) if k != v and not k.startswith("'")}
        return {}

    def resolve(self, f):
        b = None
        if f.res:
            b = self.F.bodies.get(f.res)
        elif f.local:
            b = self.F.bodies.get(f.path)
        if b is None and f.trait and f.targs:
            # generic call specialised by the inlining context
            st = f.targs[0]
            for i in self.F.trait_impls.get(f.trait, ()):
                if base(i["self"]) == base(st) and strip_generics(i["self"]) == strip_generics(deref_ty(st)) and trait_args_fit(i.get("trait_full") or "", f.targs[1:]):
                    for n, p in i["items"]:
                        if n == f.name:
                            return self.F.bodies.get(p)
                    d = self.F.bodies.get(f.path)
                    return d
        if b is None and f.local and not f.virt and not f.trait:
            b = self.F.bodies.get(f.path)
        return b

    def opaque_call(self, fr, f, args, st, pc, dty, line):
        vals = []
        refs = []
        for i, a in enumerate(args):
            if self.has_ref(a):
                v = self.deref(st, a)
                n = 0
                while v.op == "ref" and n < 8:      # a reference to a reference: the callee can reach the innermost cell
                    a, v, n = v, self.deref(st, v), n + 1
                vals.append(v)
                refs.append((i, a))
            elif a.op == "agg" and a.args[0][0] == "closure":
                vals.append(self.lam(fr, a, st, pc))
            else:
                if a.op == "agg" and a.args[0][0] == "adt" and a.args[0][2] == "Some" and len(a.args) == 2 and a.args[1].op == "ref":
                    refs.append((i, a.args[1]))      # an optional reference: the callee can write through it
                vals.append(self.lams(fr, self.close(st, a), st, pc))
        sh = f.short
        ORIGIN[sh] = (f.path, f.local, f.virt, f.trait, f.res)
        self.calls.append((sh, tuple(vals), pc, (fr["body"].id, line)))
        for i, a in refs:
            self.write(st, a, app(sh + "!%d" % i, *vals), sh)
        if dty == "()":
            return UNIT
        if dty == "!":
            return BOT, st, FALSE
        r = app(sh, *vals)
        if dty == "bool":
            return batom(r)
        d = const_dims(dty)
        return r

    def close(self, st, v, d=0):
        """Replace tracked references nested in an aggregate by their current contents."""
        if v.op == "ref" or (v.op == "ite" and self.has_ref(v)):
            return self.deref(st, v)
        if v.op == "agg" and d < 6:
            if v.args[0][0] == "closure":
                return v
            na = [self.close(st, x, d + 1) if isinstance(x, T) else x for x in v.args[1:]]
            return mk("agg", v.args[0], *na)
        return v

    def lams(self, fr, v, st, pc, d=0):
        """Closures nested in an aggregate -> lam terms."""
        if v.op == "agg" and d < 4:
            if v.args[0][0] == "closure":
                return self.lam(fr, v, st, pc)
            return mk("agg", v.args[0], *[self.lams(fr, x, st, pc, d + 1) if isinstance(x, T) and x.op == "agg" else x for x in v.args[1:]])
        return v

    def lam(self, fr, c, st, pc, arity=None):
        """Evaluate a closure on symbolic parameters -> lam term (numbering independent)."""
        c = self.deref(st, c)
        if c.op == "fn":
            return mk("lamfn", c.args[0].short)
        if c.op != "agg" or c.args[0][0] != "closure":
            return c
        b = self.F.bodies.get(c.args[0][1])
        if b is None:
            return unk("closure")
        n = b.argc - 1
        ps = [sym("§p%d" % i) for i in range(n)]
        s2 = dict(st)
        try:
            r = self.apply(fr, c, ps, s2, TRUE)
        except Budget:
            return unk("closure budget")
        v = r[0] if isinstance(r, tuple) else r
        s2 = r[1] if isinstance(r, tuple) else s2
        eff = [k for k in st if s2.get(k, BOT) is not st[k]]
        if eff:
            return mk("lam", n, v, *[mk("eff", s2[k]) for k in eff if k in s2])
        k = 1 + max([int(x.args[0][1:]) for x in subterms(v) if x.op == "sym" and re.match(r"^§\d+$", x.args[0])] or [0])
        v = subst(v, {p: sym("§%d" % (k + i)) for i, p in enumerate(ps)})
        return mk("lam", n, v)

    # ---- entry point
    def run(self, body, args=None, subst=None):
        """Analyse one function. Returns Result(ret, final, loops...)."""
        st = {}
        av = []
        cells = {}
        for i in range(1, body.argc + 1):
            ty, nm = body.locals[i]
            nm = nm or "arg%d" % i
            if args and nm in args:
                v = args[nm]
            elif args and i - 1 in args:
                v = args[i - 1]
            else:
                v = self.input(ty, nm)
            if ty.startswith("&mut") or re.match(r"^&'\w+ mut ", ty):
                c = self.cell(st, v)
                cells[nm] = c
                v = self.ref(c)
            av.append(v)
        r = Result()
        r.body = body
        rv, st2, pc = self.eval_body(body, av, st, TRUE, subst or {})
        r.ret = self.close(st2, rv)
        r.pc = pc
        r.final = {n: self.close(st2, st2.get(c, BOT)) for n, c in cells.items()}
        r.state = st2
        r.loops = self.loops
        r.notes = self.notes
        r.calls = self.calls
        r.lost = self.lost
        return r

    def input(self, ty, nm):
        s = sym(nm)
        if deref_ty(ty) == "bool":
            return batom(s)
        d = const_dims(deref_ty(ty)) if not deref_ty(ty).startswith("core::option::") else None
        if d and d[0] * d[1] <= 9:
            return expand(s, *d)
        return s


def top_args(s):
    """Top-level generic arguments of a path such as core::ops::Mul<A<B>, C>."""
    k = s.find("<")
    if k < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in s[k + 1:s.rfind(">")]:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def trait_args_fit(full, targs):
    ia = [a for a in top_args(full) if not a.startswith("'")]
    ta = [a for a in targs if not a.startswith("'")]
    for x, y in zip(ia, ta):
        if re.match(r"^[A-Z]\w?$", x) or re.match(r"^[A-Z]\w?$", y):
            continue
        if x.startswith("&") != y.startswith("&") or strip_generics(deref_ty(x)) != strip_generics(deref_ty(y)):
            return False
    return True


def bitapp(f, a, b):
    if a.id > b.id:
        a, b = b, a
    return app(f, a, b)


REMAKE_APP["bitand"] = lambda a, b: (num(int(nval(a)) & int(nval(b))) if is_num(a) and is_num(b) else bitapp("bitand", a, b))
REMAKE_APP["bitor"] = lambda a, b: (num(int(nval(a)) | int(nval(b))) if is_num(a) and is_num(b) else bitapp("bitor", a, b))


def tsubst(s, m):
    if not m:
        return s
    proj = [k for k in m if k.startswith("<")]
    for k in proj:                              # associated types, e.g. "<T as Trait>::Assoc"
        s = s.replace(k, m[k])
    if proj:
        m = {k: v for k, v in m.items() if k not in proj}
        if not m:
            return s
    return re.sub(r"\b(" + "|".join(re.escape(k) for k in m) + r")\b(?!::)", lambda x: m[x.group(1)], s)


class FnBox:
    _c = {}

    @staticmethod
    def of(j, substm):
        k = (id(j), tuple(sorted(substm.items())))
        r = FnBox._c.get(k)
        if r is None:
            r = FnBox(j, substm)
            kk = (r.path, tuple(r.targs), r.res)
            r = FnBox._c.setdefault(kk, r)
            FnBox._c[k] = r
            r.keep = j
        return r

    def __init__(self, j, m):
        self.path = j["fn"]
        self.targs = [tsubst(a, m) for a in j.get("args", [])]
        self.rargs = [tsubst(a, m) for a in j.get("rargs", j.get("args", []))]
        self.trait = j.get("trait")
        self.name = j.get("name")
        self.res = j.get("res")
        self.local = j.get("local", False)
        self.virt = j.get("virt", False)
        self.impl_self = j.get("impl_self")
        self.ret = j.get("ret", "")
        if self.trait:
            self.short = base(self.trait) + "::" + (self.name or "?")
        else:
            self.short = short(self.path)

    def __repr__(self):
        return "fn:" + self.short


class SubstBox:
    _c = {}

    @staticmethod
    def of(m):
        k = tuple(sorted(m.items()))
        r = SubstBox._c.get(k)
        if r is None:
            r = SubstBox()
            r.m = dict(m)
            SubstBox._c[k] = r
        return r

    def __repr__(self):
        return "S"


class _PBody:
    """A promoted constant's MIR, presented as a body."""
    _cfgs = {}

    def __init__(self, owner, p, i):
        self.owner = owner
        self.id = owner.id + "::promoted%d" % i
        self.kind = "promoted"
        self.locals = p["locals"]
        self.blocks = p["blocks"]
        self.argc = p["argc"]
        self.file, self.line = owner.file, owner.line
        self.j = {"promoted": owner.j["promoted"], "generics": []}

    def cfg(self):
        from facts import CFG
        c = _PBody._cfgs.get(self.id)
        if c is None:
            c = CFG(self)
            _PBody._cfgs[self.id] = c
        return c

"""Shared notation for the specifications."""
from terms import *
import terms as TT
from mirflow import madd, smul, mmul, mtr, mneg, dot, index, store, length, field2, fmax, fmin, mset
from compare import equiv, cases, implied, default_assume, leaf_eq, foreign, vocabulary
from kit import Undecidable, Anchor

S = sym


def F_(t, *names):
    for n in names:
        t = field(t, n)
    return t


def variant(ck, adtname, v, **fields):
    k, a = ck.F.adt(adtname)
    for x in a["variants"]:
        if x["name"] == v:
            fs = [f if isinstance(f, str) else f[0] for f in x["fields"]] if x.get("fields") and not isinstance(x["fields"][0], dict) else [f["name"] for f in x.get("fields", [])]
            return adt(k, v, a["kind"] == "enum", tuple(fs), [fields[f] for f in fs])
    raise Anchor("no variant %s::%s" % (adtname, v))


def arr(*xs):
    return mk("agg", ("array",), *xs)


def rec(base_, **kw):
    r = base_
    for k, v in kw.items():
        r = with_field(r, k, None, v)
    return r


def mu_by_init(L, init):
    """The loop-carried value that starts as `init`."""
    r = [m for m, (i, s) in L.mus.items() if same(i, init)]
    if len(r) != 1:
        raise Undecidable("no unique loop-carried value starting at %s" % show(init))
    return r[0]


def assuming(**kw):
    pass


def all_ok(atom):
    """Success slice: every fallible call succeeded."""
    if atom.op == "is" and atom.args[1] == "Ok":
        return True
    return None


def chain(*fs):
    def a(atom):
        for f in fs:
            v = f(atom)
            if v is not None:
                return v
        return None
    return a


def setting(pairs):
    """Assume given boolean terms (atoms) true/false."""
    d = []
    for t, v in pairs:
        if t.op == "bdd":
            d.append((t.args[0], v if t.args[1] is TRUE else not v))
        else:
            d.append((t, v))

    def a(atom):
        for t, v in d:
            if t is atom:
                return v
        return None
    return a


def assume_bool(t, v):
    """Assumption that boolean term t has value v; t may be any single-atom guard."""
    t = batom(t) if t.op not in ("bdd", "true", "false") else t
    if t.op != "bdd" or {t.args[1], t.args[2]} != {TRUE, FALSE}:
        raise Undecidable("assumption is not an atom")
    at, val = t.args[0], (v if t.args[1] is TRUE else not v)

    def f(atom):
        if atom is at or (atom.op == at.op and same_atom(atom, at)):
            return val
        return None
    return f


def same_atom(a, b):
    return a.op == b.op and len(a.args) == len(b.args) and all((x is y) or (isinstance(x, T) and isinstance(y, T) and same(x, y)) for x, y in zip(a.args, b.args))


def not_equal(x, y):
    """Case filter: leave out the measure-zero case x == y."""
    d, e = sub(x, y), sub(y, x)

    def ex(dec):
        lo = [v for a, v in dec.items() if a.op == "pos" and same(a.args[0], d)]
        hi = [v for a, v in dec.items() if a.op == "pos" and same(a.args[0], e)]
        return lo == [False] and hi == [False]
    return ex


def calls_to(r, name):
    return [c for c in r.calls if c[0] == name or c[0].endswith("::" + name)]


def rotated(dcm, v):
    """The rotation matrix of this direction cosine matrix times a vector, component by component."""
    if isinstance(v, T):
        v = [v[(k, 0)] for k in range(3)]
    rows = [[dcm["rot_mat"][(i, k)] * v[k] for k in range(3)] for i in range(3)]
    return mat(3, 1, [r[0] + r[1] + r[2] for r in rows])

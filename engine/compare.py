"""Guarded comparison of two value graphs (case split on branch atoms, then value numbers)."""
import re
from terms import *
from mirflow import ORIGIN
import terms as TT


class Inconclusive(Exception):
    pass


def lin(t):
    """(rest, const): t == rest + const with const rational; rest as fp (mod sign kept)."""
    if t.op == "num":
        return 0, nval(t)
    if t.op == "add":
        a, b = lin(t.args[0]), lin(t.args[1])
        return (a[0] + b[0]) % P, a[1] + b[1]
    if t.op == "neg":
        a = lin(t.args[0])
        return (-a[0]) % P, -a[1]
    f = fp(t)
    if isinstance(f, tuple):
        f = TT._h("m", f)
    return f, 0


def implied(atom, dec):
    """Value forced on atom by already decided atoms (dict atom->bool), or None."""
    if atom.op == "is":
        adt, name, x = atom.args
        vs = [v for v, _ in TT.ADTS.get(adt, ())]
        falses = set()
        for a, v in dec.items():
            if a.op == "is" and a.args[0] == adt and (a.args[2] is x or same(a.args[2], x)):
                if a.args[1] == name:
                    return v
                if v:
                    return False
                falses.add(a.args[1])
        if vs and len(falses) == len(vs) - 1 and name not in falses:
            return True
        return None
    if atom.op == "pos":
        r, c = lin(atom.args[0])
        for a, v in dec.items():
            if a.op == "pos":
                r2, c2 = lin(a.args[0])
                if r2 == r:
                    if v and c >= c2:
                        return True
                    if not v and c <= c2:
                        return False
                elif (r2 + r) % P == 0:
                    # a: -rest + c2 > 0 i.e. rest < c2 ; atom: rest > -c
                    if v and c2 <= -c:
                        return False
                    if not v and c2 > -c:
                        # rest >= c2 > -c
                        return True
            elif a.op == "zero" and v and a.args[0].op == "eqpair":
                d = sub(*a.args[0].args)
                r2, c2 = lin(d)
                if r2 == r:
                    return (c - c2) > 0
                if (r2 + r) % P == 0:
                    return (c + c2) > 0
        return None
    if atom.op == "zero" and atom.args[0].op == "eqpair":
        x, y = atom.args[0].args
        r, c = lin(sub(x, y))
        for a, v in dec.items():
            if a.op == "pos" and v:
                r2, c2 = lin(a.args[0])
                # rest2 > -c2 ; atom: rest == -c
                if r2 == r and -c <= -c2:
                    return False
                if (r2 + r) % P == 0 and c <= -c2:
                    return False
            if a.op == "zero" and v and a.args[0].op == "eqpair":
                p, q = a.args[0].args
                # same scrutinee, different constants
                for s, k in ((p, q), (q, p)):
                    for s2, k2 in ((x, y), (y, x)):
                        if s is s2 and k.op in ("num", "str") and k2.op in ("num", "str") and k is not k2:
                            return False
        return None
    return None


def default_assume(atom):
    """Fallible library/crate calls are considered on their success slice."""
    if atom.op == "is" and atom.args[1] == "Ok" and atom.args[2].op in ("app", "proj", "index"):
        return True
    return None


class Dec(dict):
    """Decisions of one case; `given` are those fixed by the caller's assumption (the slice), not by the code under test."""
    def __init__(self, d=(), given=()):
        dict.__init__(self, d)
        self.given = set(getattr(d, "given", ())) | set(given)


def minmax(ts, a, v):
    """Resolve min/max of two terms whose order the decision settles."""
    if a.op != "pos":
        return ts
    m = {}
    r = None
    for t in ts:
        for x in subterms(t):
            if x.op == "app" and x.args[0] in ("min", "max") and len(x.args) == 3 and x not in m:
                r = lin(a.args[0]) if r is None else r
                if r[1]:
                    return ts
                d = lin(sub(x.args[1], x.args[2]))
                if d[1]:
                    continue
                if d[0] == r[0]:
                    big = x.args[1] if v else x.args[2]
                elif (d[0] + r[0]) % P == 0:
                    big = x.args[2] if v else x.args[1]
                else:
                    continue
                small = x.args[2] if big is x.args[1] else x.args[1]
                m[x] = big if x.args[0] == "max" else small
    return tuple(subst(t, m) for t in ts) if m else ts


def cases(ts, assume=None, limit=4096, dec=None):
    """Case-split a tuple of terms; yields (decisions, leaf terms)."""
    n = [0]
    mm = any(x.op == "app" and x.args[0] in ("min", "max") for t in ts for x in subterms(t))

    def rec(ts, dec):
        n[0] += 1
        if n[0] > limit:
            raise Inconclusive("too many cases")
        while True:
            ats = set()
            for t in ts:
                ats |= atoms(t)
            if not ats:
                if any(x.op == "app" and x.args[0] in ("min", "max") for t in ts for x in subterms(t)):
                    for a, v in dec.items():
                        ts = minmax(ts, a, v)
                yield dec, ts
                return
            forced = None
            for a in sorted(ats, key=lambda a: a.id):
                # innermost first: atom must not itself contain guards
                if any(isinstance(x, T) and atoms(x) for x in a.args):
                    continue
                v = assume(a) if assume else None
                given = v is not None
                if v is None:
                    v = implied(a, dec)
                if v is not None:
                    forced = (a, v)
                    break
            if forced is None:
                break
            a, v = forced
            memo = {}
            ts = tuple(cofactor(t, a, v, memo) for t in ts)
            ts = minmax(ts, a, v) if mm else ts
            dec = Dec(dec, [a] if given else ())
            dec[a] = v
        cand = [a for a in ats if not any(isinstance(x, T) and atoms(x) for x in a.args)]
        if not cand:
            raise Inconclusive("nested guards")
        a = min(cand, key=lambda a: a.id)
        for v in (True, False):
            memo = {}
            d2 = Dec(dec)
            d2[a] = v
            t2 = tuple(cofactor(t, a, v, memo) for t in ts)
            yield from rec(minmax(t2, a, v) if mm else t2, d2)
    yield from rec(tuple(ts), Dec(dec or {}))


def show_dec(dec):
    return " & ".join(("" if v else "!") + show(a) for a, v in dec.items() if a not in dec.given) or "always"


def flat_vec(t):
    """Element list of a vector built by pushes onto a known list, or None."""
    if t.op == "vec0":
        return []
    if t.op == "agg" and t.args[0][0] == "array":
        return list(t.args[1:])
    if t.op == "push":
        r = flat_vec(t.args[0])
        return None if r is None else r + [t.args[1]]
    return None


def flat_upd(t):
    d = {}
    while t.op == "upd":
        d.setdefault(t.args[1], t.args[2])
        t = t.args[0]
    return t, d


def leaf_eq(a, b, dec=None):
    if a is BOT or b is BOT:
        return True      # unreachable on one side
    if same(a, b):
        return True
    if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and len(a.args) == len(b.args):
        return all(leaf_eq(x, y, dec) for x, y in zip(a.args[1:], b.args[1:]))
    if a.op == "agg" and eta(a, b, dec) or b.op == "agg" and eta(b, a, dec):
        return True
    if {a.op, b.op} & {"vec0", "push"}:
        x, y = flat_vec(a), flat_vec(b)
        if x is not None and y is not None:
            return len(x) == len(y) and all(leaf_eq(p, q, dec) for p, q in zip(x, y))
    if {a.op, b.op} == {"upd"} or (a.op == "upd" or b.op == "upd") and "agg" not in (a.op, b.op):
        (p, d), (q, e) = flat_upd(a), flat_upd(b)
        ks = set(d) | set(e)
        if same(p, q) and all(isinstance(k, tuple) and k[0] == "f" for k in ks):
            return all(leaf_eq(d.get(k, field(p, k[1], k[2])), e.get(k, field(q, k[1], k[2])), dec) for k in ks)
    if a.op == "mat" and b.op == "mat" and len(a.args) == len(b.args) and a.args[:2] == b.args[:2]:
        return all(leaf_eq(x, y, dec) for x, y in zip(a.args[2:], b.args[2:]))
    for x, y in ((a, b), (b, a)):
        if x.op == "mat" and y.op in ("mset", "mzero", "mid", "smul", "madd", "mtr"):
            return leaf_eq(x, expand(y, x.args[0], x.args[1]), dec)
    for t, v in (dec or {}).items():
        if v and t.op == "zero" and t.args[0].op == "eqpair":
            x, y = t.args[0].args
            if same(x, a) and same(y, b) or same(x, b) and same(y, a):
                return True
    v = real_verdict(a, b, dec)
    if v is not None:
        return v == "same"
    return same_alg(a, b)


def eta(a, b, dec):
    """V{f: x.V.f ...} is x, where x is known to be that variant."""
    k = a.args[0]
    if k[0] != "adt" or len(a.args) < 2 or b.op in ("agg", "num", "str"):
        return False
    key, var, en, fs = k[1], k[2], k[3], k[4]
    if en and not any(v and d.op == "is" and d.args[1] == var and same(d.args[2], b) for d, v in (dec or {}).items()):
        return False
    return all(leaf_eq(x, field(b, f, var if en else None), dec) for f, x in zip(fs, a.args[1:]))


def linform(t, sg=1, out=None):
    """Linear form {term value number: coefficient}, constant under 1."""
    out = {} if out is None else out
    if t.op == "num":
        out[1] = out.get(1, 0) + sg * nval(t)
    elif t.op == "add":
        linform(t.args[0], sg, out)
        linform(t.args[1], sg, out)
    elif t.op == "neg":
        linform(t.args[0], -sg, out)
    elif t.op == "mul" and t.args[0].op == "num":
        linform(t.args[1], sg * nval(t.args[0]), out)
    elif t.op == "mul" and t.args[1].op == "num":
        linform(t.args[0], sg * nval(t.args[1]), out)
    else:
        f = fp(t)
        k = ("v", f if not isinstance(f, tuple) else TT._h("m", f))
        out[k] = out.get(k, 0) + sg
    return out


def feasible(dec, cap=400):
    """False when the order decisions of a case contradict each other (Fourier-Motzkin elimination)."""
    cs = []     # (form, strict): form > 0 or form >= 0
    ne = []
    for a, v in dec.items():
        if a.op == "pos":
            f = linform(a.args[0])
            cs.append((f, True) if v else ({k: -c for k, c in f.items()}, False))
        elif a.op == "zero" and v and a.args[0].op == "eqpair":
            x, y = a.args[0].args
            if x.op not in ("str", "agg") and y.op not in ("str", "agg"):
                f = linform(sub(x, y))
                cs.append((f, False))
                cs.append(({k: -c for k, c in f.items()}, False))
        elif a.op == "zero" and not v and a.args[0].op == "eqpair":
            x, y = a.args[0].args
            if x.op not in ("str", "agg") and y.op not in ("str", "agg"):
                ne.append(linform(sub(x, y)))
    seen = {}
    for a in dec:
        for x in subterms(a):
            if x.op in ("app", "div", "mul") and nonneg(x):
                seen[x.id] = x
    if len(seen) <= 12:
        for x in seen.values():
            f = linform(x)
            if len(f) == 1:
                cs.append((f, False))
    return eliminate(cs, ne[:6], cap)


def eliminate(cs, ne, cap):
    if ne:
        f = ne[0]
        if not eliminate(cs, (), cap):
            return False
        return any(eliminate(cs + [(g, True)], ne[1:], cap) for g in (f, {k: -c for k, c in f.items()}))
    if len(cs) < 2:
        return True
    while True:
        vs = {}
        for f, st in cs:
            for k, c in f.items():
                if k != 1 and c:
                    vs.setdefault(k, [0, 0])[c > 0] += 1
        for f, st in cs:
            if all(k == 1 or not c for k, c in f.items()):
                c = f.get(1, 0)
                if c < 0 or (st and c == 0):
                    return False
        if not vs:
            return True
        k = min(vs, key=lambda k: vs[k][0] * vs[k][1])
        up = [(f, st) for f, st in cs if f.get(k, 0) > 0]
        lo = [(f, st) for f, st in cs if f.get(k, 0) < 0]
        cs = [(f, st) for f, st in cs if not f.get(k, 0)]
        if len(up) * len(lo) + len(cs) > cap:
            return True
        for f, st in up:
            for g, sh in lo:
                h = {}
                for j, c in f.items():
                    h[j] = h.get(j, 0) + c / f[k]
                for j, c in g.items():
                    h[j] = h.get(j, 0) - c / g[k]
                h = {j: c for j, c in h.items() if c and j != k}
                cs.append((h, st or sh))


def settle(a, s, dec, depth=5):
    """Equality of two leaves, splitting further on the order of the operands of a min/max the decisions leave open; values decided to be zero are replaced."""
    m = {}
    for t, v in dec.items():
        if v and t.op == "zero" and t.args[0].op == "eqpair":
            for x, y in (t.args[0].args, t.args[0].args[::-1]):
                if y.op == "num" and nval(y) == 0 and x.op not in ("num", "str", "agg"):
                    m[x] = num(0)
    if m:
        a, s = subst(a, m), subst(s, m)
        if leaf_eq(a, s, dec):
            return True
    o = [x for t in (a, s) for x in subterms(t) if x.op == "app" and x.args[0] in ("min", "max") and len(x.args) == 3 and not any(y.op == "app" and y.args[0] in ("min", "max") for z in x.args[1:] for y in subterms(z))]
    if not o:
        return False
    if depth == 0:
        return False
    x = o[0]
    c = lt(x.args[2], x.args[1])
    at = sorted(atoms(c), key=lambda t: t.id)
    if len(at) != 1:
        return False
    for v in (True, False):
        d = Dec(dec)
        d[at[0]] = v
        first = cofactor(c, at[0], v, {}) is TRUE
        big, small = (x.args[1], x.args[2]) if first else (x.args[2], x.args[1])
        r = {x: big if x.args[0] == "max" else small}
        p, q = subst(a, r), subst(s, r)
        if not leaf_eq(p, q, d) and feasible(d) and not settle(p, q, d, depth - 1):
            return False
    return True


def equiv(actual, spec, assume=default_assume, limit=4096, exclude=None):
    """List of (decisions, actual leaf, spec leaf) where they differ; [] when equal."""
    bad = []
    for dec, (a, s) in cases((actual, spec), assume, limit):
        if not leaf_eq(a, s, dec) and not (exclude and exclude(dec)) and feasible(dec) and not settle(a, s, dec):
            bad.append((dec, a, s))
    if bad:
        ts = [TT.split_abs(actual), TT.split_abs(spec)]
        if ts[0] is not actual or ts[1] is not spec:
            return bad if equiv(ts[0], ts[1], assume, limit, exclude) else []
    return bad


UNKNOWN_OPS = {"unk", "fold", "lam", "lamfn", "stream", "collect", "iter", "piter", "mutiter", "any", "eff"}


def _known_callee(n, vocab):
    """Is an opaque call with this name a distinct, fully identified operation?"""
    n = re.sub(r"!\d+$", "", n)
    if n in vocab or n in MATH:
        return True
    o = ORIGIN.get(n)
    if o is None:
        return n in PLAIN
    path, local, virt, trait, res = o
    if local:
        # a trait method of a type parameter or trait object cannot be looked into: it is an operation of its own
        return bool(trait) and (virt or not res)
    p = path.lstrip("<&")
    return p.split("::")[0] in ("anise", "hifitime", "log", "rand", "rand_distr", "rand_pcg", "arrow", "parquet", "der") or trait_crate(trait) in ("anise", "hifitime", "der", "rand", "rand_distr")


def trait_crate(t):
    return (t or "").split("::")[0]


PLAIN = {"conv", "apply"}


def foreign(t, vocab, mus=()):
    """Sub-terms of t that the analysis does not understand: opaque calls outside the vocabulary, loop summaries."""
    r = []
    for x in subterms(t):
        if x.op in UNKNOWN_OPS and x.op not in vocab:
            r.append(x)
        elif x.op == "app" and not _known_callee(x.args[0], vocab):
            r.append(x)
        elif x.op == "sym" and x.args[0].startswith("μ") and x not in mus:
            r.append(x)
    return r


MATH = {"sqrt", "abs", "sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "ln", "log10", "log2", "min", "max", "signum", "pow", "floor", "ceil",
        "round", "trunc", "fract", "copysign", "rem", "idiv", "norm", "dot", "cross", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "rem_euclid", "len",
        "bitand", "bitor", "shl", "shr", "unit_s", "context", "is_nan", "is_finite", "cbrt", "try_conv", "conv_err", "to_string", "try_inverse", "get", "insert",
        "map0", "default", "from_diagonal", "diagonal", "component_mul", "cholesky", "chol_l"}


def vocabulary(*ts):
    v = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "app":
                v.add(x.args[0])
            elif x.op in UNKNOWN_OPS:
                v.add(x.op)
    return v

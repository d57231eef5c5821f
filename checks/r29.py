"""R29: batch least squares: normal equations, steps, convergence, and the residual evaluation."""
from models import ment
from r18 import chain_, setof
from r20 import okp, okv, sv
from r24 import fieldless
from r25 import sum_
from spec import *

TECHNIQUE = "gated value graphs of the unrolled batch iterations over measurement lists at symbolic epochs; the matrices handed to the solver are compared entry by entry with the accumulated normal equations, with propagation, measurement models and matrix decompositions opaque"
RULE_TEXT = ["every accepted measurement of a known device at or after the initial epoch is used once, at the state propagated to its epoch, with the transition from the initial epoch", "information matrix and right-hand side accumulate the weighted sensitivities and residuals",
             "each iteration adds the solution of its equations and stops when the position correction is within the tolerance", "Levenberg-Marquardt damps by the scaled diagonal, accepts a step only if the RMS decreased, and moves the damping factor within its bounds",
             "the RMS is that of the weighted residuals", "a failed propagation is an error"]
ASSUMPTIONS = ["up to three measurements of up to two types, two iterations, six state components", "transition matrices are taken with a few symbolic entries each, which do not commute"]
BLS = "BatchLeastSquares"
N = 6
SUB = {"<<D as dynamics::Dynamics>::StateType as cosmic::State>::Size": "nalgebra::base::dimension::Const<%d>" % N}
MAX = num(1.7976931348623157e308)
t0 = S("t")


def at(x):
    return t0 + num(x) if x else t0


def since(e):
    c = 0 if e is t0 else TT.constant_sum(sub(e, t0))
    if c is None:
        raise Undecidable("an epoch that is not at a known offset: %r" % e)
    return c


def str_(s):
    return TT.mk("str", s)


def mt(ck, n):
    return fieldless(ck, "MeasurementType", n)


def msr(ck, i, x, trk="a", types=("Range",), rejected=FALSE):
    return rec(S("msr%d" % i), epoch=at(x), tracker=str_(trk), rejected=rejected, data=chain_(*[(mt(ck, n), S("y%d_%s" % (i, n))) for n in types]))


def entries(k):
    """A transition matrix with symbolic entries; those of consecutive steps do not commute."""
    e = ({(0, 3): "a", (3, 0): "b"}, {(3, 0): "c", (0, 1): "d"}, {(1, 4): "e", (3, 1): "f"})[k % 3]
    return [[S("f%d%s" % (k, e[(i, j)])) if (i, j) in e else num(1 if i == j else 0) for j in range(N)] for i in range(N)]


def mm(a, b):
    return [[sum_([a[i][k] * b[k][j] for k in range(len(b))]) for j in range(len(b[0]))] for i in range(len(a))]


IDENT = [[num(1 if i == j else 0) for j in range(N)] for i in range(N)]


def flat(m):
    return mat(len(m), len(m[0]), [x for r in m for x in r])


class World:
    """What is outside the estimator: the propagation, the states' own operations, the devices, the decompositions."""

    fails = None

    def __init__(self, guess):
        self.steps, self.adds, self.chol, self.rhs, self.udu, self.starts = [], [], [], [], [], []
        self.known = [guess]

    def start(self, prop, state, al):
        self.starts.append((prop, state, al))
        return rec(S("inst"), state=state, prop=prop, almanac=al, step_size=S("inst")["step_size"] if not hasattr(self, "size") else self.size)

    def step(self, inst, d):
        k, c = len(self.steps), TT.constant_sum(d)
        if c is None:
            raise Undecidable("a step of unknown length %r" % d)
        s = inst["state"]
        # what the propagator integrates starts from the matrix which the state carries
        phi = mm(entries(k), self.carried(s))
        s2 = rec(S("x%d" % k), epoch=at(since(s["epoch"]) + c), stm=ok(flat(phi)))
        self.steps.append((s, c, s2))
        return (failed(k) if k == self.fails else ok(s2)), rec(inst, state=s2)

    def carried(self, s):
        m = field(s["stm"], "0", "Ok")
        if m.op == "mat":
            return [[m[(i, j)] for j in range(N)] for i in range(N)]
        raise Undecidable("the transition matrix of %r" % s)

    def add(self, x, y):
        if not any(x is k for k in self.known):
            return None
        r = rec(S("est%d" % len(self.known)), epoch=t0)
        self.adds.append((x, y))
        self.known.append(r)
        return r

    def cholesky(self, m):
        self.chol.append(m)
        return app("cholesky", num(len(self.chol) - 1))

    def solve(self, c, v):
        self.rhs.append((c, v))
        return mat(N, 1, [S("dx%d_%d" % (len(self.rhs) - 1, i)) for i in range(N)])

    def udu_(self, m):
        self.udu.append(m)
        return app("udu", num(len(self.udu) - 1))

    def contracts(self):
        fresh = lambda x: rec(x, stm=ok(flat(IDENT)))
        return {"PropInstance::for_duration": self.step, "Propagator::with": self.start, "PropInstance::quiet": lambda x: x,
                "State::epoch": lambda x: x["epoch"], "State::stm": lambda x: x["stm"], "State::with_stm": fresh, "State::reset_stm": lambda x: (UNIT, fresh(x)),
                "TrackingDevice::measure_instantaneous": lambda d, s, r, a: app("measure", d, plain(s), r, a), "TrackingDevice::measurement_covar_matrix": lambda d, ts, e: app("covar", d, ts, e),
                "TrackerSensitivity::h_tilde": lambda d, m, ts, s, a: app("h_tilde", d, m, ts, plain(s), a), "Add::add": self.add, "Matrix::cholesky": self.cholesky,
                "Cholesky::solve": self.solve, "Matrix::udu": self.udu_}


def failed(k):
    return TT.adt(TT.RES, "Err", True, ("0",), [S("failure%d" % k)])


def plain(s):
    """The state apart from the transition matrix it carries, which no measurement depends on."""
    return rec(s, stm=S("any"))


def setting(ck, solver, iters=1, **k):
    d = dict(max_iterations=num(iters), max_step=num(30), devices=chain_((str_("a"), S("dev_a")), (str_("b"), S("dev_b"))), solver=fieldless(ck, "BLSSolver", solver), epoch_precision=num(0.001))
    d.update(k)
    return rec(S("self"), **d)


# (tag, [(offset, tracker, types, rejected)])
CASES = [("two", [(20, "a", ("Range",), 0), (50, "a", ("Range",), 0)]),
         ("two types", [(10, "a", ("Doppler", "Range"), 0), (25, "b", ("Range",), 0)]),
         ("long gap", [(70, "a", ("Range",), 0), (80, "b", ("Doppler",), 0)]),
         ("at the initial epoch", [(0, "a", ("Range",), 0), (20, "b", ("Range",), 0)]),
         ("simultaneous", [(20, "a", ("Range",), 0), (20, "b", ("Range",), 0), (40, "a", ("Range",), 0)]),
         ("rejected in between", [(10, "a", ("Range",), 0), (20, "a", ("Range",), 1), (30, "a", ("Range",), 0)]),
         ("unknown device", [(10, "a", ("Range",), 0), (20, "z", ("Range",), 0), (30, "b", ("Range",), 0)]),
         ("before the initial epoch", [(-10, "a", ("Range",), 0), (20, "a", ("Range",), 0)])]


def arcs(ck, ms):
    return rec(S("arc"), measurements=arr(*[msr(ck, i, x, d, ts, TRUE if rej else FALSE) for i, (x, d, ts, rej) in enumerate(ms)]))


def used(ck, w, ms, lo=0):
    """The observations used, in order: (accepted, residual, weight, sensitivity row, success), from the steps w.steps[lo:] of one pass.
    Returns them with the success of the whole pass and the index after its last step."""
    out, okall, cur, k = [], TRUE, [r[:] for r in IDENT], lo
    here, state = 0, None
    for i, (x, d, ts, rej) in enumerate(ms):
        if rej:
            continue
        while here < x:
            if k >= len(w.steps):
                return None
            s, c, s2 = w.steps[k]
            cur = mm(entries(k), cur)
            here, state = here + c, s2
            k += 1
        if here != x or d not in ("a", "b"):
            continue
        st = plain(state if state is not None else w.first)
        dev, m = S("dev_" + d), msr(ck, i, x, d, ts)
        for n in ts:
            one = setof(mt(ck, n))
            meas = app("measure", dev, st, NONE, S("self")["almanac"])
            h = app("h_tilde", dev, m, one, st, S("self")["almanac"])
            cov = app("covar", dev, one, at(x))
            y = S("y%d_%s" % (i, n))
            seen = is_variant(okv(meas), TT.OPT, "Some")
            var = okv(cov)[(0, 0)]
            import models
            c_ = models.map_get(sv(okv(meas))["data"], mt(ck, n))
            comp = ite(is_variant(c_, TT.OPT, "Some"), sv(c_), num(0))
            good = band(okp(meas), bor(bnot(seen), band(app_bool("is_finite", y), okp(cov), gt(var, num(0)))))
            row = [sum_([okv(h)[(0, q)] * cur[q][j] for q in range(N)]) for j in range(N)]
            out.append((seen, y - comp, num(1) / var, row, good, okp(h), app_bool("is_finite", y), gt(var, num(0)), seen, is_variant(c_, TT.OPT, "Some")))
            okall = band(okall, good)
    return out, okall, k


def app_bool(n, x):
    return TT.tobool(app(n, x))


def rms(out, n):
    return sqrt(sum_([ite(c, w * r * r, num(0)) for c, r, w, row, *_ in out]) / num(n))


def valid(out, *more):
    """Where values are compared, observations are finite and variances positive."""
    return chain(default_assume, *[assume_bool(c, True) for o in out for c in o[6:8]], *more)


def clean(outs, n, *more):
    """Besides, every observation is expected by its device, with the type asked for, and the systems are regular."""
    return chain(default_assume, *[assume_bool(c, True) for out in outs for o in out for c in o[6:10]], *[assume_bool(is_variant(app("cholesky", num(k)), TT.OPT, "Some"), True) for k in range(n)], *more)


def prepare(ck, fn, solver, ms, iters=1, **k):
    b = ck.fn(fn, BLS)
    ck.vocab |= {"propagated", "measure", "covar", "h_tilde", "cholesky", "udu", "is_finite", "get", "Some"}
    g = rec(S("guess"), epoch=t0)
    w = World(g)
    w.size = k.pop("size", num(1000))
    w.fails = k.pop("fails", None)
    w.first = rec(g, stm=ok(flat(IDENT)))
    r = ck.ev(b, [("self", setting(ck, solver, iters, **k)), ("guess", g), ("arc", arcs(ck, ms))], subst=SUB, contract=w.contracts())
    if r.loops:
        raise Undecidable("a loop that could not be followed")
    return b, w, r, g


def accepted(ms):
    return sum(1 for m in ms if not m[3])


def steps_ok(ck, rule, tag, b, w, ms, limit):
    for k, (s, c, s2) in enumerate(w.steps):
        ck.expect(0 < c <= limit, rule, "%s: length of step %d" % (tag, k), b.where(), "a step of %s s, must be at most %s" % (c, limit))


def evaluation(ck):
    for tag, ms in CASES:
        for size, mx in ((1000, 30), (15, 30), (1000, 7)):
            b, w, r, g = prepare(ck, "evaluate", "NormalEquations", ms, size=num(size), max_step=num(mx))
            t = "%s, steps of %d s" % (tag, min(size, mx))
            steps_ok(ck, "evaluation", t, b, w, ms, min(size, mx))
            u = used(ck, w, ms)
            ck.expect(u is not None, "evaluation", t + ": every measurement is reached", b.where(), "the propagation stops before the last measurement")
            if u is None:
                continue
            out, good, k = u
            ck.match("evaluation", t + ": succeeds if every step does", b, okp(r.ret), good, None)
            ck.match("evaluation", t + ": root mean square of the weighted residuals", b, okv(r.ret), rms(out, accepted(ms)), valid(out))
    for tag, ms in (("no measurement", []), ("all rejected", [(10, "a", ("Range",), 1)])):
        b, w, r, g = prepare(ck, "evaluate", "NormalEquations", ms)
        ck.match("evaluation", tag + ": error", b, okp(r.ret), FALSE, None)


def equations(ck):
    for tag, ms in CASES:
        for size in ((1000,) if tag != "two" else (1000, 15)):
            b, w, r, g = prepare(ck, "estimate", "NormalEquations", ms, size=num(size))
            t = "%s, steps of %d s" % (tag, min(size, 30))
            steps_ok(ck, "equations", t, b, w, ms, min(size, 30))
            u = used(ck, w, ms)
            ck.expect(u is not None and len(w.chol) == 1 and len(w.rhs) == 1, "equations", t + ": one system over every measurement", b.where(), "%d systems" % len(w.chol))
            if u is None or len(w.chol) != 1 or len(w.rhs) != 1:
                continue
            out, good, k = u
            system(ck, "equations", t, b, w.chol[0], w.rhs[0], out, app("cholesky", num(0)))
            good = band(good, *[o[5] for o in out])
            ck.match("equations", t + ": succeeds if every step does", b, okp(r.ret), band(good, is_variant(app("cholesky", num(0)), TT.OPT, "Some")), None)
            ck.match("equations", t + ": RMS", b, okv(r.ret)["final_rms"], rms(out, accepted(ms)), valid(out))
            ck.expect(len(w.starts) == 1 and w.starts[0][0] is S("self")["prop"] and plain(w.starts[0][1]) is plain(g), "equations", t + ": propagates the guess", b.where(), "%d propagations" % len(w.starts))
    for tag, ms in (("no measurement", []), ("one", [(10, "a", ("Range",), 0)]), ("all but one rejected", [(10, "a", ("Range",), 1), (20, "a", ("Range",), 0), (30, "a", ("Range",), 1)])):
        b, w, r, g = prepare(ck, "estimate", "NormalEquations", ms)
        ck.match("equations", tag + ": error", b, okp(r.ret), FALSE, None)


def info(out):
    return [[sum_([IDENT[i][j]] + [ite(c, row[i] * row[j] * w, num(0)) for c, r, w, row, *_ in out]) for j in range(N)] for i in range(N)]


def normal(out):
    return [sum_([ite(c, row[i] * r * w, num(0)) for c, r, w, row, *_ in out]) for i in range(N)]


def system(ck, rule, t, b, m, rhs, out, chol, extra=None):
    want, nv = info(out), normal(out)
    for i in range(N):
        for j in range(N):
            x = want[i][j]
            if extra is not None and i == j:
                x = x + extra(x)
            ck.match(rule, "%s: information (%d, %d)" % (t, i, j), b, ment(m, i, j), x, valid(out))
        ck.match(rule, "%s: right-hand side %d" % (t, i), b, ment(rhs[1], i, 0), nv[i], valid(out))
    ck.match(rule, t + ": solves this system", b, rhs[0], sv(chol), valid(out))


def dx(k):
    return [S("dx%d_%d" % (k, i)) for i in range(N)]


def poscorr(k):
    d = dx(k)
    return sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2])


def iteration(ck):
    ms = CASES[0][1]
    tol = S("self")["tolerance_pos_km"]
    for iters in (1, 2, 3):
        b, w, r, g = prepare(ck, "estimate", "NormalEquations", ms, iters=iters)
        t = "at most %d iterations: " % iters
        ck.expect(len(w.adds) == iters and len(w.chol) == iters and len(w.starts) == iters, "iteration", t + "one system, one correction and one propagation each", b.where(), "%d corrections, %d systems, %d propagations" % (len(w.adds), len(w.chol), len(w.starts)))
        if not (len(w.adds) == iters and len(w.chol) == iters and len(w.starts) == iters):
            continue
        o, lo = okv(r.ret), 0
        est, conv, it, corr, rm, nope = g, FALSE, num(0), MAX, MAX, TRUE
        go, outs = TRUE, []
        for k in range(iters):
            ck.expect(w.adds[k][0] is w.known[k], "iteration", t + "correction %d" % k, b.where(), "not added to the current estimate")
            ck.expect(plain(w.starts[k][1]) is plain(w.known[k]), "iteration", t + "propagation %d" % k, b.where(), "does not start from the current estimate")
            for i in range(N):
                ck.match("iteration", t + "correction %d, component %d" % (k, i), b, ment(w.adds[k][1], i, 0), dx(k)[i])
            w.first = rec(w.known[k], stm=ok(flat(IDENT)))
            out, good, lo = used(ck, w, ms, lo)
            system(ck, "iteration", t + "system %d" % k, b, w.chol[k], w.rhs[k], out, app("cholesky", num(k)))
            outs.append(out)
            hit = lt(poscorr(k), tol)
            est, it, corr, rm = ite(go, w.known[k + 1], est), ite(go, num(k + 1), it), ite(go, poscorr(k), corr), ite(go, rms(out, 2), rm)
            conv = bor(conv, band(go, hit))
            go = band(go, bnot(hit))
        for f, x in (("estimated_state", est), ("converged", conv), ("num_iterations", it), ("final_corr_pos_km", corr), ("final_rms", rm)):
            ck.match("iteration", t + f, b, o[f], x, clean(outs, iters))
    covariance(ck)


def covariance(ck):
    ms = CASES[0][1]
    b, w, r, g = prepare(ck, "estimate", "NormalEquations", ms)
    out, good, k = used(ck, w, ms)
    if len(w.udu) != 1:
        raise Undecidable("the covariance is not from one decomposition")
    want = info(out)
    for i in range(N):
        for j in range(N):
            ck.match("iteration", "covariance of the information (%d, %d)" % (i, j), b, ment(w.udu[0], i, j), want[i][j], valid(out))
    f = sv(app("udu", num(0)))
    ui = app("try_inverse", f["u"])
    al = valid(out, assume_bool(is_variant(app("udu", num(0)), TT.OPT, "Some"), True), assume_bool(is_variant(ui, TT.OPT, "Some"), True))
    inv = [[ment(TT.mk("minv", f["u"]), i, j) for j in range(N)] for i in range(N)]
    got = okv(r.ret)["covariance"]
    for i in range(N):
        for j in range(N):
            ck.match("iteration", "covariance (%d, %d)" % (i, j), b, ment(got, i, j), sum_([inv[k][i] / f["d"][(k, 0)] * inv[k][j] for k in range(N)]), al)


def failures(ck):
    ms = CASES[0][1]
    for fn in ("evaluate", "estimate"):
        for k in (0, 1, 2):
            b, w, r, g = prepare(ck, fn, "NormalEquations", ms, fails=k, max_step=num(20))
            ck.match("failures", "%s: step %d of the propagation fails" % (fn, k), b, okp(r.ret), FALSE, None)


def damping(ck):
    ms = CASES[0][1]
    me = S("self")
    lam, inc, dec, lo_, hi = (me["lm_lambda_" + n] for n in ("init", "increase", "decrease", "min", "max"))
    for scaled in (True, False):
        b, w, r, g = prepare(ck, "estimate", "LevenbergMarquardt", ms, iters=2, lm_use_diag_scaling=TRUE if scaled else FALSE)
        t = "damping by %s: " % ("the diagonal" if scaled else "the identity")
        ck.expect(len(w.chol) == 2 and len(w.rhs) == 2 and len(w.starts) == 2, "damping", t + "one system for each iteration", b.where(), "%d systems" % len(w.chol))
        if len(w.chol) != 2 or len(w.rhs) != 2 or len(w.starts) != 2:
            continue
        out, good, lo = used(ck, w, ms)
        d2 = (lambda x: ite(le(x, num(0)), num(1e-6), x)) if scaled else (lambda x: num(1))
        system(ck, "damping", t + "system 0", b, w.chol[0], w.rhs[0], out, app("cholesky", num(0)), lambda x: lam * d2(x))
        first = rms(out, 2)
        solved = is_variant(app("cholesky", num(0)), TT.OPT, "Some")
        better = lt(first, MAX)
        lam1 = ite(solved, ite(better, fmax(lam / dec, lo_), fmin(lam * inc, hi)), fmin(lam * (inc * num(10)), hi))
        w.first = w.starts[1][1]
        out2, good2, lo = used(ck, w, ms, lo)
        m = [ment(w.chol[1], i, i) for i in range(N)]
        want = info(out2)
        for i in (0, 3):
            ck.match("damping", t + "system 1, information (%d, %d)" % (i, i), b, m[i], want[i][i] + lam1 * d2(want[i][i]), clean((out, out2), 0))


RULES = [("evaluation", evaluation), ("equations", equations), ("iteration", iteration), ("damping", damping), ("failures", failures)]

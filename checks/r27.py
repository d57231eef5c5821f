"""R27: Monte Carlo runs: dispersed states, their propagation, and the reports."""
from itertools import product

from mirflow import stream
from models import mkiter
from r17 import match_list, nth, present, ABSENT
from r20 import okp, okv, sv
from r24 import fieldless
from r25 import dotn, invertible, sum_
from spec import *

TECHNIQUE = "gated value graph of the state generator, of the parallel runs (tasks in an order the code cannot rely on) and of the reports, with random draws, matrix decomposition and propagation opaque, compared with the mapped covariance, the drawn sample and the list of run values"
RULE_TEXT = ["Cartesian covariance and mean are the dispersions mapped by the pseudo-inverse of their Jacobian; Cr, Cd and propellant mass are dispersed independently", "the square root of the covariance is built from its singular values and vectors", "each sample is the template plus root times the draws plus mean, component by component",
             "each run propagates its own dispersed state and carries its index, state and result", "reports list the value of each run in order, or the replacement"]
DIM = 9
ELTS = ("SemiMajorAxis", "Eccentricity", "Inclination")
SCP = {"Cr": 6, "Cd": 7, "PropMass": 8}
WRT = ("x", "y", "z", "vx", "vy", "vz")


def param(ck, n):
    if n in SCP or n not in ELTS:
        return fieldless(ck, "StateParameter", n)
    return variant(ck, "StateParameter", "Element", **{"0": fieldless(ck, "OrbitalElement", n)})


def dispersion(ck, i, n, mean=1, std=1):
    return rec(S("d%d" % i), param=param(ck, n), mean=some(S("m%d" % i)) if mean else NONE, std_dev=some(S("s%d" % i)) if std else NONE)


def mm(a, b):
    return [[dotn(r, c) for c in zip(*b)] for r in a]


def tr(a):
    return [list(c) for c in zip(*a)]


def pseudo(J):
    """Moore-Penrose inverse as rows, and its Gram matrix."""
    n = min(len(J), 6)
    G = mm(J, tr(J)) if len(J) < 6 else mm(tr(J), J)
    gm = mat(n, n, [x for r in G for x in r])
    inv = [[ment(TT.mk("minv", gm), i, j) for j in range(n)] for i in range(n)]
    return mm(tr(J), inv) if len(J) < 6 else mm(inv, tr(J))


def svd(seen):
    def f(m, *flags):
        seen.append(m)
        return rec(S("svd"), v_t=some(S("v_t")))
    return {"Matrix::" + n: f for n in ("svd_unordered", "svd", "svd_unordered_generic")}


def construction(ck):
    b = ck.fn("new", "MvnSpacecraft")
    ck.vocab |= {"OrbitGrad::partial_for", "conv", "context", "try_inverse", "Normal::new"} | {"OrbitalElementPartials::wrt_" + w for w in WRT}
    g = app("conv", TT.mk("str", "OrbitGrad"), S("template")["orbit"])
    cases = [("SemiMajorAxis",), ("SemiMajorAxis", "Inclination"), ("Cr",), ("Cd",), ("PropMass",), ("Cd", "SemiMajorAxis"), ("Inclination", "PropMass", "Eccentricity"), ("Cr", "Cd", "PropMass"), ()]
    for names in cases:
        for mean, std in ((1, 1), (0, 1), (1, 0)) if len(names) < 3 else ((1, 1),):
            ds = [dispersion(ck, i, n, mean, std) for i, n in enumerate(names)]
            seen = []
            r = ck.ev(b, ["template", ("dispersions", arr(*ds))], opaque=("OrbitGrad::partial_for",), contract=svd(seen))
            tag = "%s%s%s: " % ("+".join(names) or "nothing", "" if mean else ", no mean", "" if std else ", no deviation")
            if len(seen) != 1:
                raise Undecidable("%d decompositions" % len(seen))
            orb = [(i, n) for i, n in enumerate(names) if n in ELTS]
            cov = [[num(0)] * DIM for _ in range(DIM)]
            mu = [num(0)] * DIM
            al = default_assume
            if orb:
                J = [[app("OrbitalElementPartials::wrt_" + w, okv(app("OrbitGrad::partial_for", g, fieldless(ck, "OrbitalElement", n)))) for w in WRT] for i, n in orb]
                Ji = pseudo(J)
                var = [S("s%d" % i) * S("s%d" % i) if std else num(0) for i, n in orb]
                m = [S("m%d" % i) if mean else num(0) for i, n in orb]
                for r_ in range(6):
                    for c_ in range(6):
                        cov[r_][c_] = sum_([Ji[r_][k] * var[k] * Ji[c_][k] for k in range(len(orb))])
                    mu[r_] = dotn(Ji[r_], m)
                al = chain(default_assume, invertible(None))
            for i, n in enumerate(names):
                if n in SCP:
                    cov[SCP[n]][SCP[n]] = S("s%d" % i) * S("s%d" % i) if std else num(0)
                    mu[SCP[n]] = S("m%d" % i) if mean else num(0)
            o = okv(r.ret)
            ck.match("construction", tag + "accepted", b, okp(r.ret), TRUE, al)
            for i in range(DIM):
                ck.match("construction", tag + "mean %d" % i, b, ment(o["mean"], i, 0), mu[i], al)
                for j in range(DIM):
                    ck.match("construction", tag + "covariance (%d, %d)" % (i, j), b, ment(seen[0], i, j), cov[i][j], al)
            root(ck, tag, b, o, al)
            ck.match("construction", tag + "template", b, o["template"], S("template"), al)
            match_list(ck, "construction", tag + "dispersions", b, o["dispersions"], [(TRUE, d) for d in ds], assume=al)
    for n in ("Thrust", "Isp"):
        seen = []
        r = ck.ev(b, ["template", ("dispersions", arr(dispersion(ck, 0, n)))], opaque=("OrbitGrad::partial_for",), contract=svd(seen))
        ck.match("construction", n + " is an error", b, okp(r.ret), FALSE, None)
    b = ck.fn("zero_mean", "MvnSpacecraft")
    r = ck.ev(b, ["template", ("dispersions", arr(S("d0"), S("d1")))], opaque=("MvnSpacecraft::new",))
    ck.match("construction", "zero mean", b, r.ret, app("MvnSpacecraft::new", S("template"), arr(*[rec(S("d%d" % i), mean=some(num(0))) for i in (0, 1)])), None)


def root(ck, tag, b, o, al):
    for i in range(DIM):
        for j in range(DIM):
            ck.match("root", tag + "(%d, %d)" % (i, j), b, ment(o["sqrt_s_v"], i, j), ment(S("v_t"), j, i) * sqrt(ment(S("svd")["singular_values"], j, 0)), al)
    ck.match("root", tag + "standard normal draws", b, o["std_norm_distr"], okv(app("Normal::new", num(0), num(1))), al)


def covariance(ck):
    b = ck.fn("from_spacecraft_cov", "MvnSpacecraft")
    seen = []
    ct = dict(svd(seen), **{"Matrix::eigenvalues": lambda m: some(S("ev"))})
    ck.vocab |= {"Normal::new"}
    r = ck.ev(b, ["template", "cov", "mean"], contract=ct)
    neg = [gt(num(0), ment(S("ev"), i, 0)) for i in range(DIM)]
    psd = chain(default_assume, *[assume_bool(c, False) for c in neg])
    ck.match("covariance", "accepted", b, okp(r.ret), TRUE, psd)
    for i in range(DIM):
        ck.match("covariance", "negative eigenvalue %d" % i, b, okp(r.ret), FALSE, assume_bool(neg[i], True))
    o = okv(r.ret)
    if len(seen) != 1:
        raise Undecidable("%d decompositions" % len(seen))
    ck.match("covariance", "decomposed", b, seen[0], S("cov"))
    ck.match("covariance", "template", b, o["template"], S("template"), psd)
    for i in range(DIM):
        ck.match("covariance", "mean %d" % i, b, ment(o["mean"], i, 0), ment(S("mean"), i, 0), psd)
    root(ck, "given covariance: ", b, o, psd)
    l = present(o["dispersions"])
    names = ["X", "Y", "Z", "VX", "VY", "VZ", "Cr", "Cd", "PropMass"]
    ck.expect(len(l) == 9, "covariance", "dispersions", b.where(), "%d dispersions" % len(l))
    for i, (c, x) in enumerate(l[:9]):
        p = variant(ck, "StateParameter", "Element", **{"0": fieldless(ck, "OrbitalElement", names[i])}) if i < 6 else param(ck, names[i])
        ck.match("covariance", "parameter %d" % i, b, x["param"], p, psd)
        ck.match("covariance", "deviation of %s" % names[i], b, sv(x["std_dev"]), sqrt(ment(S("cov"), i, i)), psd)
        ck.match("covariance", "deviation of %s is set" % names[i], b, is_variant(x["std_dev"], TT.OPT, "Some"), TRUE, psd)
    for nm, k in (("from_std_dev", num(1)), ("from_3std_dev", num(3))):
        b = ck.fn(nm, "Dispersion")
        r = ck.ev(b, ["param", "std_dev"]).ret
        ck.match("covariance", nm + ": parameter", b, r["param"], S("param"))
        ck.match("covariance", nm + ": distribution", b, r["distr"], okv(app("Normal::new", num(0), S("std_dev") / k)))
        for f in ("bound_min", "bound_max"):
            ck.match("covariance", nm + ": " + f, b, r[f], NONE)
    b = ck.fn("zero_mean", "StateDispersion")
    r = ck.ev(b, ["param", "std_dev"]).ret
    for f, w in (("param", S("param")), ("std_dev", some(S("std_dev"))), ("mean", some(num(0)))):
        ck.match("covariance", "zero mean dispersion: " + f, b, r[f], w)


# ------------------------------------------------------------------ samples
def drawn(d, rng, i):
    for k in range(i):
        rng = app("Distribution::sample!1", d, rng)
    return app("Distribution::sample", d, rng)


def sample(ck):
    bs = [b for b in ck.F.find("sample", "MvnSpacecraft", None, one=False) if b.trait_base == "Distribution"]
    if len(bs) != 1:
        raise Anchor("MvnSpacecraft::sample")
    b = bs[0]
    ck.functions.add(b.id)
    me = rec(S("self"), dispersions=arr(S("d0"), S("d1")))
    ck.vocab |= {"Distribution::sample", "Distribution::sample!1", "Spacecraft::value", "State::value"}
    r = ck.ev(b, [("self", me), "rng"], opaque=("Spacecraft::value", "State::value")).ret
    z = [drawn(S("self")["std_norm_distr"], S("rng"), i) for i in range(DIM)]
    L, mu, t, s = S("self")["sqrt_s_v"], S("self")["mean"], S("self")["template"], r["state"]
    x = [sum_([ment(L, i, k) * z[k] for k in range(DIM)]) + ment(mu, i, 0) for i in range(DIM)]
    for i in range(3):
        for f, k in (("radius_km", i), ("velocity_km_s", 3 + i)):
            ck.match("sample", "%s %d" % (f, i), b, ment(s["orbit"][f], i, 0), ment(t["orbit"][f], i, 0) + x[k])
    for k, (f, g) in zip((6, 7, 8), (("srp", "coeff_reflectivity"), ("drag", "coeff_drag"), ("mass", "prop_mass_kg"))):
        ck.match("sample", g, b, s[f][g], t[f][g] + x[k])
    for fs in (("orbit", "epoch"), ("orbit", "frame"), ("mass", "dry_mass_kg"), ("mass", "extra_mass_kg"), ("srp", "area_m2"), ("drag", "area_m2"), ("thruster",), ("mode",), ("stm",)):
        ck.match("sample", "keeps " + ".".join(fs), b, F_(s, *fs), F_(t, *fs))
    l = present(r["actual_dispersions"])
    ck.expect(len(l) == 2, "sample", "one value per dispersion", b.where(), "%d values for two dispersions" % len(l))
    for i, (c, y) in enumerate(l[:2]):
        p = S("d%d" % i)["param"]
        ck.match("sample", "dispersion %d: parameter" % i, b, field(y, "0"), p)
        v = [okv(a) for a in (valof(r, s, p), valof(r, t, p))]
        ck.match("sample", "dispersion %d: value" % i, b, field(y, "1"), v[0] - v[1])


def valof(r, state, p):
    n = [x.args[0] for x in subterms(r) if x.op == "app" and x.args[0].endswith("::value")]
    return app(n[0] if n else "State::value", state, p)


# ------------------------------------------------------------------ runs
def draws(n):
    def it(d, rng):
        return mkiter(stream(num(n), lambda i: index(arr(*[drawn(d, rng, k) for k in range(n)]), i)))
    return {"Distribution::sample_iter": it}


def generator(seed):
    return ite(is_variant(seed, TT.OPT, "Some"), app("Mcg128Xsl64::new", sv(seed)), okv(app("SeedableRng::try_from_rng", S("SysRng"))))


def quiet(inst):
    return with_field(inst, "log_progress", None, FALSE)


def runs(ck):
    ck.vocab |= {"Distribution::sample", "Distribution::sample!1", "Mcg128Xsl64::new", "SeedableRng::try_from_rng", "Propagator::with", "epoch run", "event run"}
    b = ck.fn("generate_states", "MonteCarlo")
    for skip, n in ((0, 0), (0, 1), (0, 3), (1, 2), (2, 2)):
        r = ck.ev(b, ["self", ("skip", num(skip)), ("num_runs", num(n)), ("seed", some(S("sd")))], contract=draws(7)).ret
        g = [(c, field(x, "1")) for c, x in present(r)]
        match_list(ck, "runs", "states %d to %d" % (skip, skip + n), b, arr(*[x for c, x in g]) if all(c is TRUE for c, x in g) else r, [(TRUE, drawn(S("self")["random_state"], app("Mcg128Xsl64::new", S("sd")), skip + i)) for i in range(n)])
        ck.expect(len(g) == n, "runs", "number of states from %d to %d" % (skip, skip + n), b.where(), "%d states instead of %d" % (len(g), n))
        if not skip:
            for i, (c, x) in enumerate(present(r)):
                ck.match("runs", "index %d of %d" % (i, n), b, field(x, "0"), num(i))
    OP = ("MonteCarlo::progress_bar", "Propagator::with")
    CT = dict(draws(7), **{"PropInstance::until_epoch_with_traj": lambda i, e: app("epoch run", quiet(i), e),
                           "PropInstance::until_nth_event": lambda i, *a: app("event run", quiet(i), *a)})
    for nm, args in (("resume_run_until_epoch", ["end_epoch"]), ("resume_run_until_nth_event", ["max_duration", "event", "trigger"])):
        b = ck.fn(nm, "MonteCarlo")
        for n in (0, 1, 3):
            for skip in (0, 2):
                r = ck.ev(b, [("self", rec(S("self"), seed=some(S("sd")))), "prop", "almanac", ("skip", num(skip))] + args + [("num_runs", num(n))], opaque=OP, contract=CT).ret
                l = present(r["runs"])
                tag = "%s, %d runs from %d: " % (nm[11:], n, skip)
                ck.expect(len(l) == n, "runs", tag + "number", b.where(), "%d results for %d runs" % (len(l), n))
                ck.match("runs", tag + "scenario", b, r["scenario"], S("self")["scenario"])
                for i in range(n):
                    x = nth(l, i)
                    ds = drawn(S("self")["random_state"], app("Mcg128Xsl64::new", S("sd")), skip + i)
                    inst = quiet(app("Propagator::with", S("prop"), ds["state"], S("almanac")))
                    if "epoch" in nm:
                        res = app("epoch run", inst, S("end_epoch"))
                    else:
                        res = app("event run", inst, S("max_duration"), S("event"), NONE, S("trigger"))
                    if not skip:
                        ck.match("runs", tag + "index %d" % i, b, x["index"], num(i))
                    ck.match("runs", tag + "dispersed state %d" % i, b, x["dispersed_state"], ds)
                    ck.match("runs", tag + "success %d" % i, b, okp(x["result"]), okp(res), None)
                    for k, f in enumerate(("state", "traj")):
                        ck.match("runs", tag + "%s %d" % (f, i), b, okv(x["result"])[f], field(okv(res), str(k)))
        o = ck.fn(nm[7:], "MonteCarlo")
        c = "MonteCarlo::" + nm
        r = ck.ev(o, ["self", "prop", "almanac"] + args + ["num_runs"], opaque=(c,)).ret
        ck.match("runs", nm[7:] + " starts with the first state", o, r, app(c, *([S("self"), S("prop"), S("almanac"), num(0)] + [S(a) for a in args] + [S("num_runs")])))
    b = ck.fn("new", "MonteCarlo")
    r = ck.ev(b, ["nominal_state", "random_variable", "scenario", "seed"]).ret
    for f, w in (("nominal_state", "nominal_state"), ("random_state", "random_variable"), ("scenario", "scenario"), ("seed", "seed")):
        ck.match("runs", "new: " + f, b, r[f], S(w))


# ------------------------------------------------------------------ reports
def reports(ck):
    N = 2
    states = lambda traj, step, a, z: mkiter(stream(num(N), lambda i: index(arr(*[app("sampled", traj, step, a, z, num(k)) for k in range(N)]), i)))
    CT = {"Traj::every_between": states}
    ck.vocab |= {"sampled", "State::value", "State::epoch"}
    p = S("param")
    val = lambda s: app("State::value", s, p)
    first = lambda t: index(t["states"], num(0))
    last = lambda t: index(t["states"], sub(length(t["states"]), num(1)))
    for nm, args, of in (("every_value_of_between", ["step", "start", "end"], lambda t: [app("sampled", t, S("step"), S("start"), S("end"), num(k)) for k in range(N)]),
                         ("every_value_of", ["step"], lambda t: [app("sampled", t, S("step"), epoch(ck, first(t)), epoch(ck, last(t)), num(k)) for k in range(N)]),
                         ("first_values_of", [], lambda t: [first(t)]), ("last_values_of", [], lambda t: [last(t)])):
        b = ck.fn(nm, "Results")
        for oks in ((), (1,), (0,), (1, 1), (1, 0), (0, 1), (0, 0)):
            for rep in (0, 1):
                rs = [rec(S("run%d" % i), result=ok(S("r%d" % i)) if k else err(S("e%d" % i))) for i, k in enumerate(oks)]
                r = ck.ev(b, [("self", rec(S("self"), runs=arr(*rs))), "param"] + args + [("value_if_run_failed", some(S("v")) if rep else NONE)], contract=CT).ret
                want = []
                for i, k in enumerate(oks):
                    if not k:
                        want += [(TRUE, S("v"))] if rep else []
                        continue
                    for s in of(S("r%d" % i)["traj"]):
                        c = okp(val(s))
                        want.append((TRUE, ite(c, okv(val(s)), S("v"))) if rep else (c, okv(val(s))))
                match_list(ck, "reports", "%s of %s, %s replacement" % (nm, "".join("FS"[k] for k in oks) or "nothing", "with" if rep else "no"), b, r, want, assume=None)
    b = ck.fn("dispersion_values_of", "Results")
    for ns in ((), (1,), (2,), (0,), (2, 1), (1, 2), (2, 2)):
        rs = [rec(S("run%d" % i), dispersed_state=rec(S("ds%d" % i), actual_dispersions=arr(*[tup(S("p%d%d" % (i, k)), S("v%d%d" % (i, k))) for k in range(n)]))) for i, n in enumerate(ns)]
        r = ck.ev(b, [("self", rec(S("self"), runs=arr(*rs))), "param"]).ret
        want, have = [], []
        for i, n in enumerate(ns):
            hit = [eq(S("p%d%d" % (i, k)), p) for k in range(n)]
            have.append(bor(FALSE, *hit))
            w = S("v%d%d" % (i, n - 1)) if n else ABSENT
            for k in reversed(range(n - 1)):
                w = ite(hit[k], S("v%d%d" % (i, k)), w)
            want.append(w)
        good = band(TRUE, *have)
        tag = "dispersions, %s" % "+".join(map(str, ns))
        ck.match("reports", tag + ": found", b, okp(r), good, None)
        if good is not FALSE:
            l = present(okv(r))
            for i in range(max(len(l), len(want))):
                ck.match("reports", "%s: run %d" % (tag, i), b, ite(good, nth(l, i), ABSENT), ite(good, want[i] if i < len(want) else ABSENT, ABSENT), None)


def epoch(ck, s):
    return app("State::epoch", s)


RULES = [("construction", construction), ("covariance", covariance), ("sample", sample), ("runs", runs), ("reports", reports)]

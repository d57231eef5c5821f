"""R17: orbit determination solutions (bookkeeping, filtering, merging, statistics, smoothing)."""
from spec import *
import models
from r15 import when

TECHNIQUE = "gated value graphs of every operation on solutions, on lists of symbolic records (each record present or absent, in any order), compared record by record with their specification"
RULE_TEXT = ["every update adds one estimate, residual, gain and ratio, so that the four lists stay aligned; every selection keeps or drops the four of a record together",
             "selections keep exactly the records they name; a merge is chronological; a lookup returns the record of that very epoch",
             "the residual statistics are the root mean squares, fractions and consistency bounds of the accepted residuals",
             "the smoother maps deviation and covariance back with the inverse transition matrix and recomputes each residual with the device that took it"]
ASSUMPTIONS = ["selection, merge and lookup are decided for lists of up to three records, each of them symbolic"]
LISTS = (("estimates", "e"), ("residuals", "r"), ("gains", "g"), ("filter_smoother_ratios", "q"))
OPQ = ("Estimate::epoch", "Estimate::state", "Estimate::covar", "Estimate::state_deviation", "Estimate::stm", "Traj::finalize", "Measurement::observation")


def isome(x):
    return is_variant(x, TT.OPT, "Some")


def sol(n, off=0, name="self", **kw):
    me = S(name)
    for f, p in LISTS:
        me = rec(me, **{f: arr(*[S(p + str(i + off)) for i in range(n)])})
    return rec(me, **kw)


def present(t):
    p = models.plist(t)
    if p is None:
        raise Undecidable("not a finite list: " + show(t)[:120])
    return p


ABSENT = sym("nothing")


def nth(items, k):
    if not items:
        return ABSENT
    c, x = items[0]
    return ite(c, x if k == 0 else nth(items[1:], k - 1), nth(items[1:], k))


def match_list(ck, rule, inst, b, got, want, **kw):
    g = present(got)
    for k in range(max(len(g), len(want))):
        ck.match(rule, "%s: item %d" % (inst, k), b, nth(g, k), nth(want, k), **kw)


def rest_kept(ck, rule, inst, b, got, me, fs=("devices", "measurement_types")):
    for f in fs:
        ck.match(rule, "%s keeps %s" % (inst, f), b, F_(got, f), F_(me, f))


def book(ck):
    b = ck.fn("new", "ODSolution")
    r = ck.ev(b, ["dev", "types"])
    for f, p in LISTS:
        ck.match("bookkeeping", "new: no " + f, b, length(F_(r.ret, f)), num(0))
    ck.match("bookkeeping", "new: devices", b, F_(r.ret, "devices"), S("dev"))
    ck.match("bookkeeping", "new: measurement types", b, F_(r.ret, "measurement_types"), S("types"))
    me = sol(2)
    for fn, names, new in (("push_time_update", ["est"], dict(estimates=S("est"), residuals=NONE, gains=NONE, filter_smoother_ratios=NONE)),
                           ("push_measurement_update", ["est", "res", "gain"], dict(estimates=S("est"), residuals=some(S("res")), gains=S("gain"), filter_smoother_ratios=NONE))):
        b = ck.fn(fn, "ODSolution")
        r = ck.ev(b, [("self", me)] + names)
        got = r.final["self"]
        for f, p in LISTS:
            match_list(ck, "bookkeeping", "%s: %s" % (fn, f), b, F_(got, f), [(TRUE, S(p + "0")), (TRUE, S(p + "1")), (TRUE, new[f])])
        rest_kept(ck, "bookkeeping", fn, b, got, me)
    b = ck.fn("results", "ODSolution")
    it = ck.ev(b, [("self", me)]).ret
    if it.op in ("iter", "piter"):
        its = models.plist(it) if it.op == "piter" else None
        if its is None:
            s = it.args[0]
            its = [(TRUE, subst(s.args[2], {s.args[1]: num(k)})) for k in range(2)]
            ck.match("bookkeeping", "results: number", b, s.args[0], num(2))
        for k in range(2):
            ck.match("bookkeeping", "results: estimate %d" % k, b, field(nth(its, k), "0"), S("e%d" % k))
            ck.match("bookkeeping", "results: residual %d" % k, b, field(nth(its, k), "1"), S("r%d" % k))
    b = ck.fn("is_filter_run", "ODSolution")
    ck.match("bookkeeping", "filter run iff there are gains", b, ck.ev(b, [("self", me)]).ret, bor(isome(S("g0")), isome(S("g1"))))
    b = ck.fn("is_smoother_run", "ODSolution")
    ck.match("bookkeeping", "smoother run iff there are ratios", b, ck.ev(b, [("self", me)]).ret, bor(isome(S("q0")), isome(S("q1"))))
    b = ck.fn("to_traj", "ODSolution")
    r = ck.ev(b, [("self", sol(0))], opaque=OPQ)
    ck.match("trajectory", "no estimates is an error", b, is_variant(r.ret, TT.RES, "Ok"), FALSE)
    r = ck.ev(b, [("self", me)], opaque=OPQ)
    tr = r.ret[("Ok", "0")]
    fin = calls_to(r, "Traj::finalize")
    if len(fin) != 1:
        raise Undecidable("%d calls to finalize" % len(fin))
    match_list(ck, "trajectory", "states of the estimates", b, F_(fin[0][1][0], "states"), [(TRUE, app("Estimate::state", S("e%d" % k))) for k in range(2)])
    ck.match("trajectory", "finalized", b, r.ret, ok(app("Traj::finalize!0", fin[0][1][0])))


def select(ck):
    me = sol(3)
    R = [S("r%d" % i) for i in range(3)]
    has = [isome(x) for x in R]
    val = [x[("Some", "0")] for x in R]
    rej = [tobool(x["rejected"]) for x in val]
    b = ck.fn("accepted_residuals", "ODSolution")
    match_list(ck, "selection", "accepted residuals", b, ck.ev(b, [("self", me)]).ret, [(band(h, bnot(j)), v) for h, j, v in zip(has, rej, val)])
    b = ck.fn("rejected_residuals", "ODSolution")
    match_list(ck, "selection", "rejected residuals", b, ck.ev(b, [("self", me)]).ret, [(band(h, j), v) for h, j, v in zip(has, rej, val)])

    def sel(fn, names, conds, resid=None):
        b = ck.fn(fn, "ODSolution")
        r = ck.ev(b, [("self", me)] + names, opaque=OPQ)
        for f, p in LISTS:
            items = [S(p + str(i)) for i in range(3)]
            match_list(ck, "selection", "%s: %s" % (fn, f), b, F_(r.ret, f), list(zip(conds, items)))
        rest_kept(ck, "selection", fn, b, r.ret, me)
    sel("drop_time_updates", [], has)
    sel("filter_by_msr_type", ["t"], [band(h, isome(app("get", v["msr_types"], S("t")))) for h, v in zip(has, val)])
    sel("filter_by_tracker", ["t"], [band(h, eq(v["tracker"], some(S("t")))) for h, v in zip(has, val)])
    out = [band(h, bor(bnot(isome(v["tracker"])), eq(v["tracker"][("Some", "0")], S("t")))) for h, v in zip(has, val)]
    sel("exclude_tracker", ["t"], [bnot(x) for x in out])
    # the trackers and types
    rr = [rec(S("R%d" % i), tracker=some(S("trk%d" % i))) for i in range(2)]
    u = rec(S("self"), residuals=arr(some(rr[0]), NONE, some(rr[1])))
    b = ck.fn("unique", "ODSolution")
    r = ck.ev(b, [("self", u)])
    loops = r.loops
    mus = tuple(m for L in loops for m in L.mus)
    if len(loops) != 2:
        ck.undecided("selection", "unique", "%d loops" % len(loops))
    else:
        prev = app("map0")
        for L, x in zip(loops, rr):
            acc = [m for m, (i, s) in L.mus.items() if same(i, prev)]
            pos = [m for m, (i, s) in L.mus.items() if same(i, num(0))]
            if len(acc) != 1 or len(pos) != 1:
                raise Undecidable("loop of unique")
            k = app("key_at", x["msr_types"], pos[0])
            ck.match("selection", "unique: every type of every residual", b, L.back_pc, lt(pos[0], length(x["msr_types"])), mus=mus)
            ck.match("selection", "unique: with its tracker", b, L.mus[acc[0]][1], app("insert", acc[0], mk("agg", ("tuple",), x["tracker"][("Some", "0")], k), UNIT), mus=mus)
            prev = acc[0]
        ck.match("selection", "unique: result", b, r.ret, prev, mus=mus)
    b = ck.fn("split", "ODSolution")
    r = ck.ev(b, ["self"], opaque=("ODSolution::unique", "ODSolution::filter_by_tracker", "ODSolution::filter_by_msr_type"))
    uq = app("ODSolution::unique", S("self"))
    if len(r.loops) == 1:
        L = r.loops[0]
        mus = tuple(L.mus)
        acc = [m for m, (i, s) in L.mus.items() if i.op == "vec0"]
        pos = [m for m, (i, s) in L.mus.items() if same(i, num(0))]
        if len(acc) != 1 or len(pos) != 1:
            raise Undecidable("loop of split")
        k = app("key_at", uq, pos[0])
        ck.match("selection", "split: every tracker and type", b, L.back_pc, lt(pos[0], length(uq)), mus=mus)
        a = app("ODSolution::filter_by_msr_type", app("ODSolution::filter_by_tracker", S("self"), field(k, "0")), field(k, "1"))
        c = app("ODSolution::filter_by_tracker", app("ODSolution::filter_by_msr_type", S("self"), field(k, "1")), field(k, "0"))
        ck.match_any("selection", "split: part of one tracker and type", b, L.mus[acc[0]][1], [mk("push", acc[0], a), mk("push", acc[0], c)], mus=mus)
        ck.match("selection", "split: result", b, r.ret, acc[0], mus=mus)
    else:
        ck.undecided("selection", "split", "%d loops" % len(r.loops))


def order(ck):
    """Merging two chronological solutions gives a chronological one."""
    for n, m in ((2, 1), (1, 1), (1, 2)):
        a, o = sol(n), sol(m, off=n, name="other")
        b = ck.fn("merge", "ODSolution")
        r = ck.ev(b, [("self", a), ("other", o)], opaque=OPQ)
        N = n + m
        t = [app("Estimate::epoch", S("e%d" % i)) for i in range(N)]

        def before(j, i):
            return lt(t[j], t[i]) if j > i else bnot(lt(t[i], t[j]))
        # records of one solution are already in order; ties between the two solutions may go either way
        srt = [lt(t[i], t[i + 1]) for i in range(n - 1)] + [lt(t[i], t[i + 1]) for i in range(n, N - 1)]
        strict = [lt(t[i], t[j]) for i in range(N) for j in range(N) if i != j]

        def rank(i, k):
            """element i is the k-th"""
            c = FALSE
            others = [j for j in range(N) if j != i]
            from itertools import combinations
            for bs in combinations(others, k):
                c = bor(c, band(*[lt(t[j], t[i]) if j in bs else lt(t[i], t[j]) for j in others]))
            return c
        distinct = band(*[bor(lt(t[i], t[j]), lt(t[j], t[i])) for i in range(N) for j in range(i)])
        guard = band(distinct, *srt)
        for f, p in LISTS:
            got = present(F_(r.ret, f))
            for k in range(N):
                w = ABSENT
                for i in range(N):
                    w = ite(rank(i, k), S(p + str(i)), w)
                when(ck, guard, "merge", "%d and %d records: %s: item %d" % (n, m, f, k), b, nth(got, k), w)
        rest_kept(ck, "merge", "%d and %d records" % (n, m), b, r.ret, a)
    me = sol(3)
    b = ck.fn("at", "ODSolution")
    r = ck.ev(b, [("self", me), "t"], opaque=OPQ)
    t = [app("Estimate::epoch", S("e%d" % i)) for i in range(3)]
    srt = band(lt(t[0], t[1]), lt(t[1], t[2]), lt(t[0], t[2]))
    hit = [eq(x, S("t")) for x in t]
    hit = [band(bnot(lt(x, S("t"))), bnot(lt(S("t"), x))) for x in t]
    one = band(srt, *[bnot(band(hit[i], hit[j])) for i in range(3) for j in range(i)])
    when(ck, one, "lookup", "found iff an estimate has that epoch", b, isome(r.ret), bor(*hit))
    g = r.ret[("Some", "0")]
    for f, k, p in (("estimate", "estimates", "e"), ("residual", "residuals", "r"), ("gain", "gains", "g"), ("filter_smoother_ratio", "filter_smoother_ratios", "q")):
        w = ABSENT
        for i in range(3):
            w = ite(hit[i], S(p + str(i)), w)
        when(ck, band(one, bor(*hit)), "lookup", "%s of that epoch" % f, b, F_(g, f), w)


def stats(ck):
    me = S("self")
    for fn, want in (("name", ite(tobool(me["is_nees"]), string("NEES"), string("NIS"))), ("has_statistical_power", lt(num(35), me["k"])),
                     ("is_consistent", band(lt(me["lower_bound"], me["normalized_sum"]), lt(me["normalized_sum"], me["upper_bound"]))),
                     ("is_underconfident", lt(me["normalized_sum"], me["lower_bound"])), ("is_overconfident", lt(me["upper_bound"], me["normalized_sum"]))):
        b = ck.fn(fn, "NormalizedConsistency")
        ck.match("consistency", fn, b, ck.ev(b, ["self"]).ret, want)
    # all records with residuals
    full = rec(S("self"), residuals=arr(some(S("R0")), some(S("R1"))))
    for fn, f in (("rms_prefit_residuals", lambda x: app("dot", x["prefit"], x["prefit"])), ("rms_postfit_residuals", lambda x: app("dot", x["postfit"], x["postfit"])), ("rms_residual_ratios", lambda x: x["ratio"] * x["ratio"])):
        b = ck.fn(fn, "ODSolution")
        ck.match("statistics", fn, b, ck.ev(b, [("self", full)]).ret, sqrt((f(S("R0")) + f(S("R1"))) / num(2)))
    R = [S("r0"), S("r1")]
    part = rec(S("self"), residuals=arr(*R))
    b = ck.fn("residual_ratio_within_threshold", "ODSolution")
    r = ck.ev(b, [("self", part), "thr"])
    h = [isome(x) for x in R]
    w = [band(hh, bnot(lt(S("thr"), absv(x[("Some", "0")]["ratio"])))) for hh, x in zip(h, R)]
    one = lambda c: ite(c, num(1), num(0))
    n = one(h[0]) + one(h[1])
    ck.match("statistics", "fraction within: no residual is an error", b, is_variant(r.ret, TT.RES, "Ok"), bor(*h))
    when(ck, bor(*h), "statistics", "fraction within the threshold", b, r.ret[("Ok", "0")], (one(w[0]) + one(w[1])) / n)
    acc = app("ODSolution::accepted_residuals", S("self"))
    N = length(acc)
    b = ck.fn("is_normal", "ODSolution")
    r = ck.ev(b, ["self", "alpha"], opaque=("ODSolution::accepted_residuals", "ODSolution::ks_test_normality"))
    al = ite(isome(S("alpha")), S("alpha")[("Some", "0")], num(1) / num(20))
    ks = app("ODSolution::ks_test_normality", S("self"))
    crit = sqrt(num(-1) / num(2) * app("ln", al / num(2))) / sqrt(N)
    none = eq(N, num(0))
    okc = band(bnot(none), is_variant(ks, TT.RES, "Ok"))
    ck.match("statistics", "normality: no residual is an error", b, is_variant(r.ret, TT.RES, "Ok"), okc)
    when(ck, okc, "statistics", "normality: Kolmogorov-Smirnov bound", b, r.ret[("Ok", "0")], bnot(lt(crit, ks[("Ok", "0")])))
    b = ck.fn("nis_consistency", "ODSolution")
    r = ck.ev(b, ["self", "alpha"], opaque=("ODSolution::accepted_residuals", "Residual::nis", "Normal::new", "ContinuousCDF::inverse_cdf", "Normal::inverse_cdf"))
    ck.match("statistics", "innovations: no residual is an error", b, is_variant(r.ret, TT.RES, "Ok"), bnot(none))
    got = r.ret[("Ok", "0")]
    k = N * mk("const", "dim(MsrSize)")
    bounds(ck, "innovations", b, got, k, al, bnot(none), tobool(num(0)) if False else FALSE)
    sm = F_(got, "normalized_sum")
    item = app("Residual::nis", index(acc, sym("§1")))
    when(ck, bnot(none), "statistics", "innovations: sum over the accepted residuals", b, sm, mk("sum", N, sym("§1"), item))
    r2 = ck.ev(b, [("self", part), "alpha"], opaque=("Residual::nis", "Normal::new", "ContinuousCDF::inverse_cdf", "Normal::inverse_cdf"))
    ac = [band(hh, bnot(tobool(x[("Some", "0")]["rejected"]))) for hh, x in zip(h, R)]
    g2 = r2.ret[("Ok", "0")]
    ni = [app("Residual::nis", x[("Some", "0")]) for x in R]
    when(ck, bor(*ac), "statistics", "innovations: two records: sum", b, F_(g2, "normalized_sum"), ite(ac[0], ni[0], num(0)) + ite(ac[1], ni[1], num(0)))
    when(ck, bor(*ac), "statistics", "innovations: two records: degrees of freedom", b, F_(g2, "k"), (one(ac[0]) + one(ac[1])) * mk("const", "dim(MsrSize)"))
    ck.match("statistics", "innovations: two records: none accepted is an error", b, is_variant(r2.ret, TT.RES, "Ok"), bor(*ac))
    # Kolmogorov-Smirnov statistic of two values
    b = ck.fn("ks_test_normality", "ODSolution")
    R0 = rec(S("R0"), rejected=FALSE, whitened_resid=mk("mat", 2, 1, S("w0"), S("w1")))
    r = ck.ev(b, [("self", rec(S("self"), residuals=arr(NONE, some(R0), some(rec(S("R1"), rejected=TRUE)))))], opaque=("Normal::new",))
    w = [S("w0"), S("w1")]
    mean = (w[0] + w[1]) / num(2)
    sd = sqrt(((w[0] - mean) * (w[0] - mean) + (w[1] - mean) * (w[1] - mean)) / num(2))
    cdf = lambda x: app("ContinuousCDF::cdf", app("Normal::new", mean, sd)[("Ok", "0")], x)
    ck.vocab.update(("ContinuousCDF::cdf", "ContinuousCDF::inverse_cdf", "Normal::new"))
    for lo, hi in ((w[0], w[1]), (w[1], w[0])):
        d0, d1 = absv(num(1) / num(2) - cdf(lo)), absv(num(1) - cdf(hi))
        when(ck, band(lt(lo, hi), lt(num(0), d0), lt(num(0), d1)), "statistics", "Kolmogorov-Smirnov distance", b, r.ret, ok(ite(lt(d0, d1), d1, d0)))
    r = ck.ev(b, [("self", rec(S("self"), residuals=arr(NONE)))], opaque=("Normal::new",))
    ck.match("statistics", "Kolmogorov-Smirnov: no residual is an error", b, is_variant(r.ret, TT.RES, "Ok"), FALSE)
    nees(ck, al)
    for fn, o in (("is_nis_consistent", "ODSolution::nis_consistency"), ("is_nees_consistent", "ODSolution::nees_consistency")):
        b = ck.fn(fn, "ODSolution")
        names = ["self", "alpha"] if fn.startswith("is_nis") else ["self", "truth", "alpha"]
        r = ck.ev(b, names, opaque=(o,))
        x = app(o, *[S(i) for i in names])
        g = x[("Ok", "0")]
        cons = band(lt(g["lower_bound"], g["normalized_sum"]), lt(g["normalized_sum"], g["upper_bound"]))
        ck.match("statistics", fn + " success", b, is_variant(r.ret, TT.RES, "Ok"), is_variant(x, TT.RES, "Ok"))
        when(ck, is_variant(x, TT.RES, "Ok"), "statistics", fn, b, r.ret[("Ok", "0")], cons)


def nees(ck, al):
    b = ck.fn("nees_consistency", "ODSolution")
    ops = OPQ + ("Traj::at",)
    ck.vocab.update(("Matrix::rows", "Matrix::view", "Matrix::symmetric_eigen", "Matrix::max", "State::to_state_vector", "DimName::dim"))
    for n in (0, 1):
        ck.match("statistics", "estimation errors: %d estimates is an error" % n, b, is_variant(ck.ev(b, [("self", sol(n)), "truth", "alpha"], opaque=ops).ret, TT.RES, "Ok"), FALSE)
    r = ck.ev(b, [("self", sol(2)), "truth", "alpha"], opaque=ops)
    got = r.ret[("Ok", "0")]
    E = S("e1")
    P = app("Estimate::covar", E)
    P = smul(num(1) / num(2), madd(P, mtr(P)))
    eg = [(L, m) for L in r.loops for m, (i, s) in L.mus.items() if "eigen" in show(i)]
    ac = [(L, m) for L in r.loops for m, (i, s) in L.mus.items() if same(i, num(0)) and same(s, m + num(1)) and not any(m is x for x in subterms(L.back_pc))]
    if len(eg) != 1 or len(ac) != 1:
        return ck.undecided("statistics", "estimation errors", "%d spectra, %d counters" % (len(eg), len(ac)))
    (Le, inv), (La, cnt) = eg[0], ac[0]
    mus = tuple(m for L in r.loops for m in L.mus)
    pos = [m for m in La.mus if m is not cnt]
    if len(pos) != 1:
        return ck.undecided("statistics", "estimation errors", "counter loop")
    pos = pos[0]
    ck.match("statistics", "estimated dimension: leading positive variances", b, La.back_pc, band(lt(pos, app("DimName::dim")), lt(num(0), mk("ent", P, pos, pos))), mus=mus)
    n = fmax(cnt, num(6))
    err = madd(app("State::to_state_vector", app("Estimate::state", E)), smul(num(-1), app("State::to_state_vector", app("Traj::at", S("truth"), app("Estimate::epoch", E))[("Ok", "0")])))
    ee = app("Matrix::rows", err, num(0), n)
    two = lambda a, c: mk("agg", ("tuple",), a, c)
    eig = app("Matrix::symmetric_eigen", app("Matrix::view", P, two(num(0), num(0)), two(n, n)))
    V = eig["eigenvectors"]
    D = [x for x in subterms(F_(got, "normalized_sum")) if x.op == "app" and x.args[0] == "from_diagonal"]
    Vd = mmul(V, app("from_diagonal", inv))
    ck.match("statistics", "estimation errors: weighted by the inverse covariance", b, F_(got, "normalized_sum"), ment_(mmul(mmul(mtr(ee), mmul(Vd, mtr(V))), ee)), mus=mus)
    ck.match("statistics", "estimation errors: spectrum", b, Le.mus[inv][0], eig["eigenvalues"], mus=mus)
    i = [m for m in Le.mus if m is not inv]
    if len(i) == 1:
        i = i[0]
        lam = mk("ent", inv, i, num(0))
        eps = app("Matrix::max", eig["eigenvalues"]) * n * num(2.220446049250313e-16)
        ck.match("statistics", "estimation errors: every eigenvalue", b, Le.back_pc, lt(i, n), mus=mus)
        when(ck, lt(i, n), "statistics", "estimation errors: pseudo-inverse", b, Le.mus[inv][1], ite(lt(eps, lam), mset(inv, i, num(0), num(1) / lam), mset(inv, i, num(0), num(0))), mus=mus)
    bounds(ck, "estimation errors", b, got, n, al, TRUE, TRUE, mus=mus)


def ment_(v):
    return mk("ent", v, num(0), num(0))


def bounds(ck, what, b, got, k, al, guard, nees, mus=()):
    """Wilson-Hilferty bounds at the two-sided significance alpha."""
    z = [x for x in subterms(F_(got, "upper_bound")) if x.op == "app" and str(x.args[0]).endswith("inverse_cdf")]
    z = list({x.id: x for x in z}.values())
    if len(z) != 1:
        return ck.undecided("statistics", what + ": bounds", "%d quantiles" % len(z))
    z = z[0]
    when(ck, guard, "statistics", what + ": quantile", b, z.args[2], num(1) - al / num(2), mus=mus)
    fa = num(2) / (num(9) * k)
    for nm, sg in (("lower_bound", num(-1)), ("upper_bound", num(1))):
        c = num(1) - fa + sg * z * sqrt(fa)
        when(ck, guard, "statistics", "%s: %s" % (what, nm), b, F_(got, nm), k * c * c * c, mus=mus)
    when(ck, guard, "statistics", what + ": degrees of freedom", b, F_(got, "k"), k, mus=mus)
    when(ck, guard, "statistics", what + ": kind", b, F_(got, "is_nees"), nees, mus=mus)


def install(ck):
    def measure(ev, fr, f, a, st, pc, dty):
        vals = [ev.close(st, ev.deref(st, x)) for x in a]
        ev.calls.append(("TrackingDevice::measure_instantaneous", tuple(vals), pc, (fr["body"].id, 0)))
        return app("TrackingDevice::measure_instantaneous", *vals)
    models.M["TrackingDevice::measure_instantaneous"] = measure
    ck.vocab.update(("TrackingDevice::measure_instantaneous", "Estimate::set_covar", "Estimate::set_state_deviation", "Estimate::nominal_state", "IndexSet::first", "State::to_state_vector", "LU::try_inverse"))


def smooth(ck):
    b = ck.fn("smooth", "ODSolution")
    alm = S("alm")
    for n in (0, 1):
        me = sol(n)
        r = ck.ev(b, [("self", me), "alm"], opaque=OPQ)
        ck.match("smoother", "%d estimates succeed" % n, b, is_variant(r.ret, TT.RES, "Ok"), TRUE)
        for f, p in LISTS[:2]:
            match_list(ck, "smoother", "%d estimates: %s" % (n, f), b, F_(r.ret[("Ok", "0")], f), [(TRUE, S(p + str(i))) for i in range(n)])
    E = lambda f, x: app("Estimate::" + f, x)

    def back(ek, src, phi):
        pinv = app("LU::try_inverse", app("Matrix::lu", E("stm", phi)))
        pi = pinv[("Some", "0")]
        x = mmul(pi, E("state_deviation", src))
        P = mmul(mmul(pi, E("covar", src)), mtr(pi))
        return app("Estimate::set_covar!0", app("Estimate::set_state_deviation!0", ek, x), P), pinv
    me = sol(2)
    r = ck.ev(b, [("self", me), "alm"], opaque=OPQ)
    e0, e1, r0 = S("e0"), S("e1"), S("r0")
    s0, pinv = back(e0, e1, e1)
    alt0 = None
    inv = isome(pinv)
    ck.match("smoother", "singular transition matrix is an error", b, band(bnot(inv), is_variant(r.ret, TT.RES, "Ok")), FALSE)
    R0 = r0[("Some", "0")]
    dev = app("get", me["devices"], R0["tracker"][("Some", "0")])[("Some", "0")]
    st = E("state", s0)
    m = app("TrackingDevice::measure_instantaneous", dev, st, NONE, alm)
    bias = app("TrackingDevice::measurement_bias_vector", dev, R0["msr_types"], app("State::epoch", st))
    fine = band(inv, bor(bnot(isome(r0)), band(is_variant(m, TT.RES, "Ok"), bor(bnot(isome(m[("Ok", "0")])), is_variant(bias, TT.RES, "Ok")))))
    ck.match("smoother", "succeeds otherwise", b, is_variant(r.ret, TT.RES, "Ok"), fine)
    got = r.ret[("Ok", "0")]
    es = present(F_(got, "estimates"))
    when(ck, fine, "smoother", "last estimate kept", b, nth(es, 1), e1)
    when(ck, fine, "smoother", "estimate mapped back", b, nth(es, 0), s0)
    rs = present(F_(got, "residuals"))
    comp = madd(app("Measurement::observation", m[("Ok", "0")][("Some", "0")], R0["msr_types"]), smul(num(-1), bias[("Ok", "0")]))
    newr = rec(R0, computed_obs=comp, postfit=madd(R0["real_obs"], smul(num(-1), comp)))
    when(ck, fine, "smoother", "last residual kept", b, nth(rs, 1), S("r1"))
    when(ck, fine, "smoother", "residual recomputed by its device", b, nth(rs, 0), ite(band(isome(r0), isome(m[("Ok", "0")])), some(newr), NONE))
    for f, p in (("gains", "g"),):
        for k in range(2):
            when(ck, fine, "smoother", "no gain %d" % k, b, nth(present(F_(got, f)), k), NONE)
    qs = present(F_(got, "filter_smoother_ratios"))
    when(ck, fine, "smoother", "no ratio for the last estimate", b, nth(qs, 1), NONE)
    q = nth(qs, 0)
    when(ck, fine, "smoother", "ratio for the others", b, isome(q), TRUE)
    its = [x for x in subterms(q) if x.op == "app" and x.args[0] == "Matrix::from_iterator"]
    if len(its) == 1 and its[0].args[1].op == "iter" and its[0].args[1].args[0].op == "stream":
        sm = its[0].args[1].args[0]
        i = sm.args[1]
        dx = madd(app("State::to_state_vector", E("state", e0)), smul(num(-1), app("State::to_state_vector", E("state", s0))))
        dP = madd(E("covar", e0), smul(num(-1), E("covar", s0)))
        ck.match("smoother", "ratio: every component", b, sm.args[0], length(dx), mus=(i,))
        ck.match("smoother", "ratio: deviation over the root of the covariance difference", b, sm.args[2], index(dx, i) / sqrt(mk("ent", dP, i, i)), mus=(i,))
    rest_kept(ck, "smoother", "smooth", b, got, me)
    # three estimates: the smoothed k+1 is what is mapped back to k
    me = sol(3)
    r = ck.ev(b, [("self", me), "alm"], opaque=OPQ)
    got = r.ret[("Ok", "0")]
    es = present(F_(got, "estimates"))
    s1, i1 = back(S("e1"), S("e2"), S("e2"))
    s0, i0 = back(S("e0"), s1, S("e1"))
    rec0, _ = back(S("e0"), S("e1"), S("e1"))
    g3 = is_variant(r.ret, TT.RES, "Ok")
    when(ck, g3, "smoother", "three estimates: last kept", b, nth(es, 2), S("e2"))
    when(ck, g3, "smoother", "three estimates: middle", b, nth(es, 1), s1)
    ck.match_known("smoother", "three estimates: first from the smoothed second", b, ite(g3, nth(es, 0), ABSENT), ite(g3, s0, ABSENT), ite(g3, rec0, ABSENT))


RULES = [("install", install), ("bookkeeping", book), ("selection", select), ("order", order), ("statistics", stats), ("smoother", smooth)]

"""R16: the sequential orbit determination process."""
from spec import *
import models
from r15 import when, fields, ELSE

TECHNIQUE = "gated value graphs of the filtering process (loop-carried solution, filter, propagator and trajectory), each iteration and each call into the filter compared with its specification"
RULE_TEXT = ["between measurements the filter is advanced by steps bounded by the configured and the propagator's step, with one time update per step, until the measurement epoch is met within the precision",
             "a measurement is processed by the device which took it, in groups of the filter's measurement size, with that device's noise, bias and sensitivity at the propagated state",
             "the reference is replaced only by an accepted update of a reference-updating filter; a measurement marked as rejected only causes a time update; a rejected arc rejects every measurement",
             "every update is recorded once, in order, with its residual and gain", "range ambiguities are resolved with the whole number of moduli of the computed observation"]
OPQ = ('KalmanFilter::time_update', 'KalmanFilter::measurement_update', 'ODSolution::push_time_update', 'ODSolution::push_measurement_update', 'PropInstance::for_duration_with_traj',
       'TrackingDataArc::unique_types', 'TrackingDataArc::end_epoch', 'Measurement::availability', 'Measurement::observation', 'Propagator::with', 'ODSolution::new', 'State::reset_stm',
       'State::set_epoch', 'KfEstimate::state', 'Estimate::state', 'KalmanFilter::initialize_process_noises', 'PropInstance::set_step', 'TrackingDataArc::unique_aliases', 'PropInstance::for_duration')


def install(ck):
    """Simulating a measurement without a random source leaves the device's noise and bias models as they are."""
    def measure(ev, fr, f, a, st, pc, dty):
        vals = [ev.close(st, ev.deref(st, x)) for x in a]
        ev.calls.append(("TrackingDevice::measure", tuple(vals), pc, (fr["body"].id, 0)))
        return app("TrackingDevice::measure", *vals)
    models.M["TrackingDevice::measure"] = measure
    ck.vocab.update(("TrackingDevice::measure", "TrackingDevice::measurement_types"))


def isome(x):
    return is_variant(x, TT.OPT, "Some")


def loops_by(r, init):
    """(loop, loop-carried value) for loop-carried values that start at init."""
    return [(L, m) for L in r.loops for m, (i, s) in L.mus.items() if same(i, init)]


def one(xs, what):
    if len(xs) != 1:
        raise Undecidable("%d candidates for %s" % (len(xs), what))
    return xs[0]


def only_mu(L, pred, what):
    return one([m for m, (i, s) in L.mus.items() if pred(m, i, s)], what)


def process(ck):
    b = ck.fn("process_arc", "KalmanODProcess")
    r = ck.ev(b, ["self", "est", "arc"], opaque=OPQ)
    me, est, arc = S("self"), S("est"), S("arc")
    ms = arc["measurements"]
    sol0 = app("ODSolution::new", me["devices"], app("TrackingDataArc::unique_types", arc))
    L0, m0 = one(loops_by(r, sol0), "the measurement loop")
    L1, m1 = one(loops_by(r, m0), "the propagation loop")
    L4, m4 = one(loops_by(r, m1), "the loop over measurement types")
    tu = calls_to(r, "KalmanFilter::time_update")
    mu_calls = calls_to(r, "KalmanFilter::measurement_update")
    if len(mu_calls) != 1:
        raise Undecidable("%d calls of the measurement update" % len(mu_calls))
    fd = calls_to(r, "PropInstance::for_duration_with_traj")
    if len(fd) != 1:
        raise Undecidable("%d propagations" % len(fd))
    idx = {x.id: x for c in fd for x in subterms(c[1][1]) if x.op == "index" and same(x.args[0], ms)}
    msr = one(list(idx.values()), "the current measurement")
    pos = msr.args[1]
    mus = tuple(m for L in r.loops for m in L.mus)
    # --- every measurement, in order
    if pos not in L0.mus:
        raise Undecidable("measurement index is not carried by the measurement loop")
    ck.match("measurements", "from the first", b, L0.mus[pos][0], num(0), mus=mus)
    N = length(ms)
    more = lt(pos, N)
    when(ck, more, "measurements", "one after the other", b, L0.mus[pos][1], pos + num(1), mus=mus)
    enough = ge(N, num(2))
    goodstep = bnot(bor(lt(me["max_step"], num(0)), eq(me["max_step"], num(0))))
    okr = is_variant(r.ret, TT.RES, "Ok")
    E = ck.F.adt("ODError")[0]
    ck.match("measurements", "at least two", b, ite(enough, FALSE, band(bnot(okr), is_variant(r.ret[("Err", "0")], E, "TooFewMeasurements"))), bnot(enough), mus=mus)
    ck.match("measurements", "step must be positive", b, band(enough, bnot(goodstep), bnot(okr), is_variant(r.ret[("Err", "0")], E, "StepSizeError")), band(enough, bnot(goodstep)), mus=mus)
    valid = band(enough, goodstep)
    when(ck, band(valid, bnot(more)), "result", "solution returned after the last measurement", b, r.ret, ok(m0), mus=mus)
    # --- set-up
    i0 = app("Propagator::with", me["prop"], app("State::with_stm", est["nominal_state"]), me["almanac"])
    i0 = rec(i0, log_progress=FALSE)
    i0 = ite(tobool(i0["fixed_step"]), i0, app("PropInstance::set_step!0", i0, me["max_step"], FALSE))
    k0 = variant(ck, "KalmanFilter", "KalmanFilter", prev_estimate=est, process_noise=me["process_noise"], variant=me["kf_variant"], prev_used_snc=num(0))
    k0 = app("KalmanFilter::initialize_process_noises!0", k0)
    kf0 = only_mu(L0, lambda m, i, s: i.op == "app" and i.args[0] == "KalmanFilter::initialize_process_noises!0", "the filter")
    ck.match("set-up", "filter", b, L0.mus[kf0][0], k0, mus=mus)
    p1 = fd[0][1][0]
    p0 = one([L1.mus[m][0] for m in L1.mus if m is p1], "the propagator")
    if p0 not in L0.mus:
        raise Undecidable("propagator is not carried by the measurement loop")
    for f in ("state", "step_size", "fixed_step", "details", "prop", "almanac"):
        ck.match("set-up", "propagator " + f, b, F_(L0.mus[p0][0], f), F_(i0, f), mus=mus)
    # --- advance
    kf1 = one([m for m in L1.mus if same(L1.mus[m][0], kf0)], "the filter in the propagation loop")
    step = fd[0][1][1]
    def epoch_mu(L):
        return [m for m in L.mus if m is not p1 and any(x is m for x in subterms(step))]
    e1 = epoch_mu(L1)
    if len(e1) == 1:
        e1 = e1[0]
        now = e1
        e0 = L1.mus[e1][0]
        if e0 in L0.mus:
            ck.match("advance", "epoch at start", b, L0.mus[e0][0], app("State::epoch", F_(L0.mus[p0][0], "state")), mus=mus)
            ck.match("advance", "epoch carried to the next measurement", b, L0.mus[e0][1], app("State::epoch", app("PropInstance::for_duration_with_traj!0", p1, step)["state"]), mus=mus)
        else:
            ck.match("advance", "epoch at start", b, e0, app("State::epoch", p0["state"]), mus=mus)
        ck.match("advance", "epoch carried", b, L1.mus[e1][1], app("State::epoch", app("PropInstance::for_duration_with_traj!0", p1, step)["state"]), mus=mus)
    elif not e1:
        now = app("State::epoch", p1["state"])
    else:
        raise Undecidable("epoch of the propagation loop")
    want = fmin(fmin(msr["epoch"] - now, p1["step_size"]), me["max_step"])
    ck.match("advance", "step", b, step, want, mus=mus)
    fw = app("PropInstance::for_duration_with_traj", p1, step)
    p2 = app("PropInstance::for_duration_with_traj!0", p1, step)
    nom = p2["state"]
    ep = app("State::epoch", nom)
    at = lt(absv(ep - msr["epoch"]), me["epoch_precision"])
    inner = band(*[bnot(L.back_pc) for L in r.loops if L not in (L0, L1, L4)])
    when(ck, inner, "advance", "until the measurement epoch", b, L1.back_pc, bnot(at), mus=mus)
    t1 = app("KalmanFilter::time_update", kf1, nom)
    t1f = app("KalmanFilter::time_update!0", kf1, nom)
    when(ck, bnot(at), "advance", "time update recorded", b, L1.mus[m1][1], app("ODSolution::push_time_update!0", m1, t1[("Ok", "0")]), mus=mus)
    when(ck, bnot(at), "advance", "filter memory", b, L1.mus[kf1][1], t1f, mus=mus)
    when(ck, bnot(at), "advance", "STM restarted at identity", b, F_(L1.mus[p1][1], "state"), app("State::reset_stm!0", nom), mus=mus)
    for f in ("step_size", "fixed_step", "details"):
        when(ck, bnot(at), "advance", "propagator " + f, b, F_(L1.mus[p1][1], f), p2[f], mus=mus)
    # --- at the measurement
    st = app("State::set_epoch!0", nom, msr["epoch"])
    rej = tobool(msr["rejected"])
    a = mu_calls[0][1]
    kf4 = a[0]
    if kf4 not in L4.mus:
        raise Undecidable("filter is not carried by the loop over measurement types")
    nom4 = a[1]
    known = [x for x in subterms(tb(L0.mus[m0][1])) if x.op == "is" and x.args[1] == "Some" and x.args[2].op == "app" and x.args[2].args[0] == "get" and same(x.args[2].args[2], msr["tracker"])]
    dev0 = one(list({x.args[2].id: x.args[2] for x in known}.values()), "the tracking device")
    kn = isome(dev0)
    spec_sol = ite(rej, app("ODSolution::push_time_update!0", m1, t1[("Ok", "0")]), ite(kn, m4, m1))
    spec_kf = ite(rej, t1f, ite(kn, kf4, kf1))
    when(ck, band(at, more), "at the measurement", "solution", b, L0.mus[m0][1], spec_sol, mus=mus)
    when(ck, band(at, more), "at the measurement", "filter", b, L0.mus[kf0][1], spec_kf, mus=mus)
    ck.match("at the measurement", "filter enters the loop over types", b, L4.mus[kf4][0], kf1, mus=mus)
    p4 = [m for m in L4.mus if any(x is m for x in subterms(nom4))] or [m for m in L4.mus if same(F_(L4.mus[m][0], "step_size"), p2["step_size"])]
    p4 = one(p4, "the propagator in the loop over types")
    ck.match("at the measurement", "propagated state", b, nom4, p4["state"], mus=mus)
    ck.match("at the measurement", "state moved to the measurement epoch", b, F_(L4.mus[p4][0], "state"), st, mus=mus)
    for f in ("step_size", "fixed_step", "details"):
        ck.match("at the measurement", "propagator kept: " + f, b, F_(L4.mus[p4][0], f), p2[f], mus=mus)
        when(ck, band(at, more), "next measurement", "propagator " + f, b, F_(L0.mus[p0][1], f), ite(rej, p2[f], ite(kn, p4[f], p2[f])), mus=mus)
    when(ck, band(at, more), "next measurement", "propagated state", b, F_(L0.mus[p0][1], "state"), ite(rej, app("State::reset_stm!0", st), ite(kn, p4["state"], st)), mus=mus)
    # --- measurement update arguments
    dev = dev_of(a[4])
    d4 = dev.args[2] if dev.op == "proj" else None
    cur = a[4].args[2].args[2] if False else one(list({c[1][1].id: c[1][1] for c in calls_to(r, "Measurement::availability")}.values()), "the measurement types of the update")
    types(ck, b, r, L4, cur, dev0, mus)
    D = field(app("get", devs(dev), msr["tracker"]), "0", "Some")
    ck.match("measurement", "device", b, dev, D, mus=mus)
    trj = one([c[1][2] for c in calls_to(r, "TrackingDevice::measure")], "the simulated measurement")
    trs = F_(trj, "states")
    comp = app("TrackingDevice::measure", D, ep, trj, NONE, me["almanac"])[("Ok", "0")]
    bias = app("TrackingDevice::measurement_bias_vector", D, cur, ep)[("Ok", "0")]
    cobs = madd(app("Measurement::observation", comp[("Some", "0")], cur), smul(num(-1), bias))
    obs = app("Measurement::observation", msr, cur)
    R = app("TrackingDevice::measurement_covar_matrix", D, cur, ep)[("Ok", "0")]
    H = app("TrackerSensitivity::h_tilde", D, msr, cur, p4["state"], me["almanac"])[("Ok", "0")]
    SR = variant(ck, "SigmaRejection", "SigmaRejection", num_sigmas=num(0))
    ck.match("measurement", "computed observation is corrected by the bias", b, a[3], cobs, mus=mus)
    ck.match("measurement", "noise", b, a[4], R, mus=mus)
    ck.match("measurement", "sensitivity", b, a[5], H, mus=mus)
    ck.match("measurement", "rejection criterion", b, a[6], ite(tobool(arc["force_reject"]), some(SR), me["sigma_reject"]), mus=mus)
    amb = ambiguity(ck, b, r, arc, cur, cobs, a[2], obs, mus)
    if trs not in L4.mus:
        if not any(x in L4.mus for x in subterms(trs)):
            ck.match("update", "trajectory replaced when the reference is", b, trs, app("Vec::push", S("the states before the last"), app("Estimate::state", app("KalmanFilter::measurement_update", *a)[("Ok", "0")]["0"])), mus=mus)
        raise Undecidable("trajectory is not carried by the loop over types")
    # --- effect of the update
    avail = app("Measurement::availability", msr, cur)
    anyav = [x for x in subterms(tb(mu_calls[0][2])) if x.op == "app" and x.args[0] == "any"] or [x for x in subterms(tb(mu_calls[0][2])) if x.op == "any"]
    fin = finite(r, L4, obs)
    upd = app("KalmanFilter::measurement_update", *a)
    updf = app("KalmanFilter::measurement_update!0", *a)
    out = upd[("Ok", "0")]
    RS = rec(out["1"], tracker=some(app("TrackingDevice::name", D)), msr_types=cur)
    done = band(*([isome(comp)] + [batom(x) if x.op not in ("bdd", "true", "false") else x for x in anyav[:1]]))
    if not anyav:
        ck.undecided("measurement", "availability", "not recognised")
        done = isome(comp)
    else:
        ck.match("measurement", "processed if any of the types is available", b, batom(anyav[0]), batom(any_of(avail)), mus=mus)
    sl = chain(default_assume, fin)
    repl = band(is_variant(kf4["variant"], ck.F.adt("KalmanVariant")[0], "ReferenceUpdate"), bnot(tobool(out["1"]["rejected"])))
    repl2 = band(is_variant(updf["variant"], ck.F.adt("KalmanVariant")[0], "ReferenceUpdate"), bnot(tobool(out["1"]["rejected"])))
    s2 = ite(repl2, app("Estimate::state", out["0"]), p4["state"])
    ck.match("update", "recorded once with its residual and gain", b, L4.mus[m4][1], ite(done, app("ODSolution::push_measurement_update!0", m4, out["0"], RS, out["2"]), m4), sl, mus=mus)
    ck.match("update", "filter", b, L4.mus[kf4][1], ite(done, updf, kf4), sl, mus=mus)
    ck.match("update", "reference replaced if accepted, STM restarted", b, F_(L4.mus[p4][1], "state"), ite(done, app("State::reset_stm!0", s2), p4["state"]), sl, mus=mus)
    for f in ("step_size", "fixed_step", "details"):
        ck.match("update", "propagator " + f, b, F_(L4.mus[p4][1], f), p4[f], sl, mus=mus)
    got = L4.mus[trs][1]
    sp = app("Vec::pop!0", trs)
    pops = {x.id: x for x in subterms(tb(got)) if x.op == "push"}
    if pops:
        x = one(list(pops.values()), "trajectory update")
        ck.match("update", "trajectory ends with the new reference", b, x.args[1], app("Estimate::state", out["0"]), mus=mus)
        ck.match("update", "trajectory replaced when the reference is", b, got, ite(band(done, repl2), x, trs), sl, mus=mus)
        y = x.args[0]
        if y.op in ("app", "pop") and any(z is trs for z in y.args):
            ck.held("update", "last state of the trajectory replaced", show(x)[:120])
        else:
            ck.undecided("update", "last state of the trajectory replaced", show(x)[:200])
    else:
        ck.match("update", "trajectory ends with the new reference", b, got, ite(band(done, repl2), mk("push", sp, app("Estimate::state", out["0"])), trs), sl, mus=mus)
    # --- trajectory collected while advancing
    tr4 = L4.mus[trs][0]
    collected(ck, b, r, tr4, fw, mus)
    # invalid observations
    scans = [L for L in r.loops if len(L.mus) == 1 and any(same(length(obs), x) for x in subterms(L.back_pc))]
    if len(scans) == 1:
        i = list(scans[0].mus)[0]
        ck.match("measurement", "every observation must be finite", b, scans[0].back_pc, band(lt(i, length(obs)), batom(app("is_finite", index(obs, i)))), mus=mus)
    bad = [x for x in subterms(tb(r.ret)) if x.op == "agg" and x.args[0][0] == "adt" and "InvalidMeasurement" in str(x.args[0])]
    ck.expect(bool(bad), "measurement", "a non-finite observation is an error", b.where(), "no such error is ever returned")


def tb(t):
    return t


def devs(dev):
    for x in subterms(dev):
        if x.op == "app" and x.args[0] == "get":
            return x.args[1]
    raise Undecidable("device " + show(dev)[:80])


def dev_of(R):
    for x in subterms(R):
        if x.op == "app" and x.args[0] == "TrackingDevice::measurement_covar_matrix":
            return x.args[1]
    raise Undecidable("noise does not come from the device")


def any_of(av):
    import mirflow
    return app("any", mirflow.stream(length(av), lambda i: index(av, i)))


def finite(r, L4, obs):
    """The scan for non-finite values has gone through every value."""
    return finite_any(r)


def types(ck, b, r, L4, cur, dev0, mus):
    """The k-th group is the k-th run of `size` types of the device."""
    T4 = app("TrackingDevice::measurement_types", field(dev0, "0", "Some"))
    dim = mk("const", "dim(MsrSize)")
    Ls = [L for L in r.loops if cur in L.mus]
    w = [m for m in L4.mus if same(L4.mus[m][0], num(0)) and any(x is m for L in Ls for x in subterms(L.mus[cur][1]))]
    if len(Ls) != 1 or len(w) != 1:
        return                                    # another way of forming the groups: decided by the rule "arcs"
    w, L5 = w[0], Ls[0]
    j = one([m for m in L5.mus if m is not cur], "the index in the group")
    keys = [x for x in subterms(L5.mus[cur][1]) if x.op == "app" and x.args[0] == "key_at"]
    stepped = L4.mus[w][1]
    if not keys or not same(stepped, w + num(1)) and not any(same(x, w + num(1)) for x in subterms(stepped)):
        return                                    # another way of forming the groups: decided by the rule "arcs"
    ck.match("measurement types", "group starts empty", b, L5.mus[cur][0], app("map0"), mus=mus)
    at = app("key_at", T4, j + w * dim)
    keys = [x for x in subterms(L5.mus[cur][1]) if x.op == "app" and x.args[0] == "key_at"]
    n = fmin(dim, length(T4) - w * dim)
    cont = lt(j, n)
    ck.match("measurement types", "members of the group", b, L5.mus[cur][1], app("insert", cur, at, UNIT), mus=mus)
    ck.match("measurement types", "size of the group", b, L5.back_pc, cont, mus=mus)
    ck.match("measurement types", "from the first of the group", b, L5.mus[j][0], num(0), mus=mus)
    when(ck, cont, "measurement types", "each of the group", b, L5.mus[j][1], j + num(1), mus=mus)
    total = app("idiv", length(T4), dim) + num(1)
    when(ck, lt(w, total), "measurement types", "group after group", b, L4.mus[w][1], w + num(1), mus=mus)
    # the loop over groups ends only when every group was seen
    empty = eq(length(cur), num(0))
    early = bnot(bor(empty, ge(w, total)))
    ck.match("measurement types", "all groups are processed", b, ite(early, L4.back_pc, ELSE_B), ite(early, TRUE, ELSE_B), chain(default_assume, finite_any(r)), mus=mus)


ELSE_B = FALSE


def finite_any(r):
    def f(atom):
        if atom.op == "pos":
            for x in subterms(atom):
                if x.op == "app" and x.args[0] == "Measurement::observation" and any(same(length(x), y) for y in subterms(atom)):
                    return False
        return None
    return f


def ambiguity(ck, b, r, arc, cur, cobs, got, obs, mus):
    mod = isome(arc["moduli"])
    cand = [x for x in subterms(got) if x in mus and x is not cur and any(x in L.mus and same(L.mus[x][0], mk("mzero")) for L in r.loops)]
    cand = list({x.id: x for x in cand}.values())
    if len(cand) != 1:
        return ck.undecided("ambiguity", "moduli", "%d candidates" % len(cand))
    amb = cand[0]
    L = [L for L in r.loops if amb in L.mus][0]
    ck.match("ambiguity", "added to the observation iff moduli are given", b, got, ite(mod, madd(obs, amb), obs), mus=mus)
    i = one([m for m in L.mus if m is not amb], "type index")
    ck.match("ambiguity", "from the first type", b, L.mus[i][0], num(0), mus=mus)
    when(ck, lt(i, length(cur)), "ambiguity", "each type", b, L.mus[i][1], i + num(1), mus=mus)
    m = app("get", arc["moduli"][("Some", "0")], app("key_at", cur, i))
    mv = m[("Some", "0")]
    k = app("div_euclid", ment_(cobs, i), mv)
    ck.match("ambiguity", "whole number of moduli of the computed observation", b, L.mus[amb][1], ite(isome(m), mset(amb, i, num(0), k * mv), amb), mus=mus)


def ment_(v, i):
    return mk("ent", v, i, num(0))


def collected(ck, b, r, tr, fw, mus):
    L = [L for L in r.loops if tr in L.mus]
    want = fw[("Ok", "0")]["1"]["states"]
    if len(L) != 1:
        return ck.undecided("trajectory", "collected", show(tr)[:200])
    L = L[0]
    s = L.mus[tr][1]
    if s.op == "push" and s.args[0] is tr and s.args[1].op == "index":
        ck.match("trajectory", "collects every propagated state", b, s.args[1].args[0], want, mus=mus)
        i = s.args[1].args[1]
        if i in L.mus:
            ck.match("trajectory", "from the first state", b, L.mus[i][0], num(0), mus=mus)
            ck.match("trajectory", "to the last state", b, L.back_pc, lt(i, length(want)), mus=mus)
    else:
        ck.undecided("trajectory", "collected", show(s)[:200])


def predict(ck):
    b = ck.fn("predict_until", "KalmanODProcess")
    r = ck.ev(b, ["self", "est", "end"], opaque=OPQ)
    me, est, end = S("self"), S("est"), S("end")
    sol0 = app("ODSolution::push_time_update!0", app("ODSolution::new", me["devices"], app("map0")), est)
    is_sol = lambda t: t.op == "app" and t.args[0].startswith("ODSolution::")
    L, m = one([(L, m) for L in r.loops for m, (i, s) in L.mus.items() if is_sol(i)], "the prediction loop")
    mus = tuple(L.mus)
    ck.match("prediction", "starts with the initial estimate", b, L.mus[m][0], sol0, mus=mus)
    fd = calls_to(r, "PropInstance::for_duration")
    tu = calls_to(r, "KalmanFilter::time_update")
    if len(fd) != 1 or len(tu) != 1:
        raise Undecidable("%d propagations, %d time updates" % (len(fd), len(tu)))
    mus = tuple(L.mus)
    p, kf = fd[0][1][0], tu[0][1][0]
    if p not in L.mus or kf not in L.mus:
        raise Undecidable("propagator or filter not carried by the loop")
    i0 = app("Propagator::with", me["prop"], app("State::with_stm", est["nominal_state"]), me["almanac"])
    for f in ("state", "step_size", "fixed_step", "details", "prop", "almanac"):
        ck.match("prediction", "propagator at start: " + f, b, F_(L.mus[p][0], f), i0[f], mus=mus)
    k0 = variant(ck, "KalmanFilter", "KalmanFilter", prev_estimate=est, process_noise=me["process_noise"], variant=me["kf_variant"], prev_used_snc=num(0))
    ck.match("prediction", "filter at start", b, L.mus[kf][0], app("KalmanFilter::initialize_process_noises!0", k0), mus=mus)
    ck.match("prediction", "step", b, fd[0][1][1], me["max_step"], mus=mus)
    x = app("PropInstance::for_duration", p, me["max_step"])[("Ok", "0")]
    p2 = app("PropInstance::for_duration!0", p, me["max_step"])
    t = app("KalmanFilter::time_update", kf, x)
    ck.match("prediction", "one time update per step", b, L.mus[m][1], app("ODSolution::push_time_update!0", m, t[("Ok", "0")]), mus=mus)
    ck.match("prediction", "filter memory", b, L.mus[kf][1], app("KalmanFilter::time_update!0", kf, x), mus=mus)
    ck.match("prediction", "STM restarted at identity", b, F_(L.mus[p][1], "state"), app("State::reset_stm!0", p2["state"]), mus=mus)
    ck.match("prediction", "until the end epoch", b, L.back_pc, lt(app("State::epoch", x), end), mus=mus)
    when(ck, bnot(L.back_pc), "prediction", "solution returned", b, r.ret, ok(app("ODSolution::push_time_update!0", m, t[("Ok", "0")])), mus=mus)
    e = lambda a: False if (a.op == "is" and a.args[1] == "Ok" and same(a.args[2], t)) else default_assume(a)
    ck.match("prediction", "failure is reported", b, is_variant(r.ret, TT.RES, "Ok"), FALSE, e, mus=mus)
    b = ck.fn("predict_for", "KalmanODProcess")
    r = ck.ev(b, ["self", "est", "dur"], opaque=OPQ + ("KalmanODProcess::predict_until",))
    ck.match("prediction", "for a duration", b, r.ret, app("KalmanODProcess::predict_until", me, est, app("State::epoch", est["nominal_state"]) + S("dur")))


def build(ck):
    def pd(inst, b, got, **kw):
        ex = dict(prop=S("prop"), kf_variant=S("var"), sigma_reject=S("rej"), devices=S("dev"), almanac=S("alm"), max_step=num(60), epoch_precision=num(1) / num(10 ** 6), process_noise=arr())
        ex.update(kw)
        for k, v in ex.items():
            ck.match("configuration", "%s: %s" % (inst, k), b, F_(got, k), v)
    b = ck.fn("new", "KalmanODProcess")
    pd("new", b, ck.ev(b, ["prop", "var", "rej", "dev", "alm"]).ret)
    b = ck.fn("from_process_noise", "KalmanODProcess")
    pd("from_process_noise", b, ck.ev(b, ["prop", "var", "dev", "rej", "snc", "alm"]).ret, process_noise=arr(S("snc")))
    me = rec(S("self"), process_noise=arr(S("n0"), S("n1")))
    b = ck.fn("with_process_noise", "KalmanODProcess")
    ck.match("configuration", "with_process_noise replaces", b, ck.ev(b, [("self", me), "snc"]).ret, rec(S("self"), process_noise=arr(S("snc"))))
    b = ck.fn("and_with_process_noise", "KalmanODProcess")
    ck.match("configuration", "and_with_process_noise appends", b, ck.ev(b, [("self", me), "snc"]).ret, rec(S("self"), process_noise=arr(S("n0"), S("n1"), S("snc"))))
    b = ck.fn("default", "SigmaRejection")
    ck.match("configuration", "default rejection at three sigmas", b, F_(ck.ev(b, []).ret, "num_sigmas"), num(3))


import r16u

RULES = [("install", install), ("process", process), ("arcs", r16u.arcs), ("prediction", predict), ("configuration", build)]

"""The filtering process of R16 followed measurement by measurement: numeric epochs, literal devices and types; the propagator, the filter and the
devices are recorded."""
from spec import *
import models
from r18 import chain_, setof
from r20 import okv
from r24 import fieldless
from r29 import at, since, str_, t0

DIMS = "nalgebra::base::dimension::Const<%d>"


class Replay:
    """Both the contracts under which the code is evaluated and (through ref) the process as it must be."""

    def __init__(self, ck, cfg):
        self.ck, self.cfg, self.log = ck, cfg, []
        self.names = {}

    def say(self, what, *a):
        self.log.append((what,) + a)
        return len([1 for l in self.log if l[0] == what]) - 1

    # --- the world
    def with_(self, prop, state, alm):
        self.say("start", prop, state, alm)
        return rec(S("inst"), state=state, prop=prop, almanac=alm, step_size=num(self.cfg["step"]), fixed_step=TRUE if self.cfg["fixed"] else FALSE)

    def set_step(self, inst, d, f):
        return UNIT, rec(inst, step_size=d, fixed_step=f)

    def forward(self, inst, d):
        c = TT.constant_sum(d)
        if c is None:
            raise Undecidable("a step of unknown length %s" % show(d))
        s = inst["state"]
        k = self.say("propagate", s, num(c))
        if k > 40:
            raise Undecidable("the propagation does not end")
        x = rec(S("x%d" % k), epoch=at(since(s["epoch"]) + c), stm=S("phi%d" % k))
        mid = rec(S("mid%d" % k), epoch=at(since(s["epoch"]) + c / 2))
        return ok(mk("agg", ("tuple",), x, rec(S("path%d" % k), states=arr(mid, x)))), rec(inst, state=x)

    def time_update(self, kf, nom):
        k = self.say("time update", self.memory(kf), nom)
        return ok(S("pred%d" % k)), rec(S("ktu%d" % k), variant=kf["variant"], tag=app("tu", num(k)))

    def memory(self, kf):
        return app("memory", kf) if kf.op == "app" else kf

    def update(self, kf, nom, real, comp, cov, h, crit):
        k = self.say("update", self.memory(kf), nom, real, comp, cov, h, crit)
        rejected = k in self.cfg["rejects"]
        return ok(mk("agg", ("tuple",), S("est%d" % k), rec(S("res%d" % k), rejected=TRUE if rejected else FALSE), S("gain%d" % k))), rec(S("kmu%d" % k), variant=kf["variant"], tag=app("mu", num(k)))

    def estimated(self, e):
        for k in range(20):
            if e is S("est%d" % k):
                nom = [l for l in self.log if l[0] == "update"][k][2]
                return rec(S("upd%d" % k), epoch=nom["epoch"], stm=S("updstm%d" % k))
        return None

    def types(self, d):
        for n, ts in self.cfg["devices"]:
            if d is S("dev_" + n):
                return setof(*[self.t(x) for x in ts])
        raise Undecidable("a device which is not configured: %s" % show(d))

    def t(self, n):
        return fieldless(self.ck, "MeasurementType", n)

    def names_of(self, ts):
        l = models.map_items(ts)
        if l is None or any(c is not TRUE for c, k, v in l):
            raise Undecidable("the types of an update: %s" % show(ts)[:200])
        out = []
        for c, k, v in l:
            out.append(k.args[0][2])
        return out

    def measure(self, d, ep, traj, rng, alm):
        st = F_(traj, "states")
        n = length(st)
        if not is_num(n):
            raise Undecidable("the trajectory handed to the device: %s" % show(st)[:200])
        n = int(nval(n))
        k = self.say("measure", d, ep, rng, alm, *[index(st, num(i)) for i in range(max(0, n - 2), n)])
        if k in self.cfg["unseen"]:
            return ok(TT.NONE)
        return ok(some(S("comp%d" % k)))

    def obs(self, m, ts):
        l = self.names_of(ts)
        p = m.args[0] if m.op == "sym" else None
        if p is None:
            b = m
            while b.op not in ("sym",):
                b = b.args[0] if hasattr(b.args[0], "op") else b.args[1]
            p = b.args[0]
        return mat(self.cfg["dim"], 1, [S("%s_%s" % (p, l[i])) if i < len(l) else num(0) for i in range(self.cfg["dim"])])

    def avail(self, m, ts):
        have = self.have(m)
        l = self.names_of(ts)
        return arr(*[TRUE if i < len(l) and l[i] in have else FALSE for i in range(self.cfg["dim"])])

    def have(self, m):
        for i, (x, d, ts, rej) in enumerate(self.cfg["msrs"]):
            if same(m["epoch"], at(x)) and any(y is S("msr%d" % i) for y in subterms(m)):
                return ts
        raise Undecidable("a measurement of the arc: %s" % show(m)[:100])

    def contracts(self):
        fresh = lambda x: rec(x, stm=S("identity"))
        dim = self.cfg["dim"]

        def vec(n):
            return lambda d, ts, e: ok(mat(dim, 1, [app(n, d, S(self.names_of(ts)[i]) if i < len(self.names_of(ts)) else S("none"), e) for i in range(dim)]))
        c = {"Propagator::with": self.with_, "PropInstance::quiet": lambda x: x, "PropInstance::set_step": self.set_step, "PropInstance::for_duration_with_traj": self.forward,
             "KalmanFilter::time_update": self.time_update, "KalmanFilter::measurement_update": self.update, "KalmanFilter::initialize_process_noises": lambda k: (UNIT, app("ready", k)) if False else (UNIT, rec(k, prev_used_snc=S("ready"))),
             "KfEstimate::state": self.estimated, "Estimate::state": self.estimated, "TrackingDevice::measurement_types": self.types, "TrackingDevice::measure": self.measure,
             "TrackingDevice::measurement_covar_matrix": lambda d, ts, e: ok(app("covar", d, e, *[S(x) for x in self.names_of(ts)])), "TrackingDevice::measurement_bias_vector": vec("bias"),
             "TrackerSensitivity::h_tilde": lambda d, m, ts, s, a: ok(app("h", d, m, s, a, *[S(x) for x in self.names_of(ts)])), "Measurement::observation": self.obs, "Measurement::availability": self.avail,
             "TrackingDevice::name": lambda d: app("name", d), "ODSolution::new": lambda d, t: app("solution", d, t), "ODSolution::push_time_update": lambda s, e: (UNIT, app("then", s, e)),
             "ODSolution::push_measurement_update": lambda s, e, r, g: (UNIT, app("then", s, e, r["rejected"], r["tracker"], arr(*[S(x) for x in self.names_of(r["msr_types"])]), base_(r), g)),
             "TrackingDataArc::unique_types": lambda a: S("arc types"), "TrackingDataArc::end_epoch": lambda a: some(S("the end")), "TrackingDataArc::unique_aliases": lambda a: S("aliases"),
             "State::epoch": lambda x: x["epoch"], "State::with_stm": fresh, "State::reset_stm": lambda x: (UNIT, fresh(x)), "State::set_epoch": lambda x, e: (UNIT, rec(x, epoch=e)),
             "KfEstimate::nominal_state": lambda e: e["nominal_state"], "Estimate::nominal_state": lambda e: e["nominal_state"]}
        return c


def base_(r):
    for y in subterms(r):
        if y.op == "sym" and y.args[0].startswith("res"):
            return y
    return r


CASES = [
    ("one type", dict(msrs=[(20, "a", ("Range",), 0), (45, "a", ("Range",), 0)])),
    ("gaps", dict(msrs=[(70, "a", ("Range",), 0), (80, "b", ("Doppler",), 0)])),
    ("types in turn", dict(msrs=[(20, "c", ("Range", "Doppler"), 0), (20, "b", ("Doppler",), 0)])),
    ("types in turn, the first rejected", dict(msrs=[(20, "c", ("Range", "Doppler"), 0), (30, "b", ("Doppler",), 0)], rejects=(0,))),
    ("types together", dict(dim=2, msrs=[(20, "c", ("Range", "Doppler"), 0), (40, "c", ("Doppler",), 0)])),
    ("three types in pairs", dict(dim=2, msrs=[(20, "d", ("Range", "Doppler", "Azimuth"), 0), (40, "d", ("Azimuth",), 0)])),
    ("types not available", dict(msrs=[(20, "c", ("Doppler",), 0), (40, "c", ("Range",), 0)])),
    ("marked as rejected", dict(msrs=[(20, "a", ("Range",), 1), (40, "a", ("Range",), 0)])),
    ("unknown device", dict(msrs=[(20, "z", ("Range",), 0), (40, "a", ("Range",), 0)])),
    ("not expected by the device", dict(msrs=[(20, "a", ("Range",), 0), (40, "b", ("Doppler",), 0), (60, "a", ("Range",), 0)], unseen=(1,))),
    ("fixed step", dict(fixed=True, step=7, msrs=[(20, "a", ("Range",), 0), (40, "b", ("Doppler",), 0)])),
    ("at the initial epoch", dict(msrs=[(0, "a", ("Range",), 0), (40, "b", ("Doppler",), 0)])),
    ("rejected arc", dict(msrs=[(20, "a", ("Range",), 0), (40, "a", ("Range",), 0)], force=True, rejects=(0, 1))),
    ("ambiguous", dict(dim=2, msrs=[(20, "c", ("Range", "Doppler"), 0), (40, "c", ("Range", "Doppler"), 0)], moduli=("Doppler",))),
    ("ambiguous in turn", dict(msrs=[(20, "c", ("Range", "Doppler"), 0), (40, "c", ("Range", "Doppler"), 0)], moduli=("Range", "Doppler"))),
]
DEVICES = (("a", ("Range",)), ("b", ("Doppler",)), ("c", ("Range", "Doppler")), ("d", ("Range", "Doppler", "Azimuth")))


def reference(ck, w, cfg, me, est, crit, meas):
    """The same process written from its definition, on the same contracts."""
    c = w.contracts()
    inst = w.with_(me["prop"], c["State::with_stm"](est["nominal_state"]), me["almanac"])
    if not cfg["fixed"]:
        inst = w.set_step(inst, me["max_step"], FALSE)[1]
    kf = rec(variant(ck, "KalmanFilter", "KalmanFilter", prev_estimate=est, process_noise=me["process_noise"], variant=me["kf_variant"], prev_used_snc=num(0)), prev_used_snc=S("ready"))
    sol = app("solution", me["devices"], S("arc types"))
    dim = cfg["dim"]
    devs = dict(cfg["devices"])
    last = []
    for i, (x, d, ts, rej) in enumerate(cfg["msrs"]):
        while True:
            now = since(inst["state"]["epoch"])
            dt = min(x - now, nval(inst["step_size"]), nval(me["max_step"]))
            out, inst = w.forward(inst, num(dt))
            path = field(out[("Ok", "0")], "1")
            last = [index(path["states"], num(0)), index(path["states"], num(1))]
            if since(inst["state"]["epoch"]) != x:
                p, kf = w.time_update(kf, inst["state"])
                sol = app("then", sol, p[("Ok", "0")])
                inst = rec(inst, state=c["State::with_stm"](inst["state"]))
                continue
            if rej:
                p, kf = w.time_update(kf, inst["state"])
                sol = app("then", sol, p[("Ok", "0")])
                inst = rec(inst, state=c["State::with_stm"](inst["state"]))
            elif d in devs:
                types = devs[d]
                D = S("dev_" + d)
                for g in range(0, len(types), dim):
                    grp = types[g:g + dim]
                    if not any(t in ts for t in grp):
                        continue
                    nom = inst["state"]
                    cur = setof(*[w.t(t) for t in grp])
                    real = w.obs(meas[i], cur)
                    h = app("h", D, meas[i], nom, me["almanac"], *[S(t) for t in grp])
                    cov = app("covar", D, at(x), *[S(t) for t in grp])
                    k = w.say("measure", D, at(x), TT.NONE, me["almanac"], *last)
                    if k in cfg["unseen"]:
                        continue
                    comp = w.obs(S("comp%d" % k), cur)
                    comp = mat(dim, 1, [ment(comp, q, 0) - app("bias", D, S(grp[q]) if q < len(grp) else S("none"), at(x)) for q in range(dim)])
                    if cfg["moduli"]:
                        real = mat(dim, 1, [ment(real, q, 0) + (app("div_euclid", ment(comp, q, 0), S("mod_" + grp[q])) * S("mod_" + grp[q]) if q < len(grp) and grp[q] in cfg["moduli"] else num(0)) for q in range(dim)])
                    k = len([1 for l in w.log if l[0] == "update"])
                    u, kf = w.update(kf, nom, real, comp, cov, h, crit)
                    if cfg["variant"] == "ReferenceUpdate" and k not in cfg["rejects"]:
                        inst = rec(inst, state=w.estimated(S("est%d" % k)))
                        last = [last[0], inst["state"]]
                    inst = rec(inst, state=c["State::with_stm"](inst["state"]))
                    sol = app("then", sol, S("est%d" % k), TRUE if k in cfg["rejects"] else FALSE, some(app("name", D)), arr(*[S(t) for t in grp]), S("res%d" % k), S("gain%d" % k))
            break
    return sol


PARTS = {"propagate": ("state", "duration"), "time update": ("filter", "state"), "measure": ("device", "epoch", "random source", "almanac", "trajectory before the end", "end of the trajectory"),
         "update": ("filter", "state", "observation", "computed observation", "noise", "sensitivity", "rejection criterion"), "start": ("propagator", "state", "almanac")}


def arcs(ck):
    b = ck.fn("process_arc", "KalmanODProcess")
    ck.vocab |= {"memory", "covar", "bias", "h", "name", "solution", "then", "tu", "mu", "div_euclid", "is_finite"}
    for tag, k in CASES:
        for var in ("ReferenceUpdate", "DeviationTracking"):
            one_arc(ck, b, "%s, %s" % (tag, var), var, dict(dict(dim=1, step=1000, fixed=False, rejects=(), unseen=(), force=False, moduli=(), devices=DEVICES), **k))


def finite(atom):
    if atom.op in ("app", "b") and any(t.op == "app" and t.args[0] == "is_finite" for t in subterms(atom)):
        return True
    return None


def one_arc(ck, b, tag, var, cfg):
    cfg["variant"] = var
    me = rec(S("self"), max_step=num(30), devices=chain_(*[(str_(n), S("dev_" + n)) for n, ts in cfg["devices"]]), kf_variant=fieldless(ck, "KalmanVariant", var), epoch_precision=num(0.001))
    est = rec(S("est"), nominal_state=rec(S("x_init"), epoch=t0))
    w = Replay(ck, cfg)
    meas = [rec(S("msr%d" % i), epoch=at(x), tracker=str_(d), rejected=TRUE if rej else FALSE) for i, (x, d, ts, rej) in enumerate(cfg["msrs"])]
    arc = rec(S("arc"), measurements=arr(*meas), force_reject=TRUE if cfg["force"] else FALSE, moduli=some(chain_(*[(w.t(t), S("mod_" + t)) for t in cfg["moduli"]])) if cfg["moduli"] else TT.NONE)
    r = ck.ev(b, [("self", me), ("est", est), ("arc", arc)], subst={"MsrSize": DIMS % cfg["dim"]}, contract=w.contracts(), budget=2000000)
    if r.loops:
        raise Undecidable("%s: a loop that could not be followed" % tag)
    crit = some(variant(ck, "SigmaRejection", "SigmaRejection", num_sigmas=num(0))) if cfg["force"] else me["sigma_reject"]
    v = Replay(ck, cfg)
    sol = reference(ck, v, cfg, me, est, crit, meas)
    okf = chain(finite, default_assume)
    got, want = w.log, v.log
    kinds = [l[0] for l in got], [l[0] for l in want]
    if kinds[0] != kinds[1]:
        q = next(i for i in range(max(len(kinds[0]), len(kinds[1]))) if kinds[0][i:i + 1] != kinds[1][i:i + 1])
        ck.violation("arc", tag + ": sequence", b.where(), "operation %d of the process is %s, must be %s" % (q, (kinds[0][q:q + 1] or ["missing"])[0], (kinds[1][q:q + 1] or ["absent"])[0]))
        return
    ck.held("arc", tag + ": sequence", "%d operations" % len(got))
    for q, (x, y) in enumerate(zip(got, want)):
        for p, s, z in zip(PARTS[x[0]], x[1:], y[1:]):
            ck.match("arc", "%s: operation %d (%s): %s" % (tag, q, x[0], p), b, s, z, okf)
    ck.match("arc", tag + ": solution", b, r.ret, ok(sol), okf)

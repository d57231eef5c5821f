"""R23: trajectories (ordering, lookup and interpolation, iteration, selection, merging, conversion)."""
import itertools
from spec import *
import models
from r17 import isome, present, nth, ABSENT
from r18 import when, bounds
from r20 import okp, okv, named, rename

TECHNIQUE = "gated value graphs of every operation on trajectories, on lists of symbolic states in every order of their epochs and at every position of the requested epoch, compared with their specification"
RULE_TEXT = ["a finalized trajectory is in chronological order with one state per epoch",
             "a lookup outside the trajectory is an error, at a stored epoch it is that state, and between two states it interpolates at most thirteen consecutive states that include both neighbours",
             "a spacecraft is interpolated by Hermite on each axis with its velocity, its propellant linearly, and its frame and other data are kept",
             "iterating visits the epochs of the inclusive time series clamped to the trajectory; resampling and rebuilding evaluate the trajectory at each epoch",
             "selections keep exactly the states in the range; the sum of two trajectories has the first and what follows it in the second, and requires one frame",
             "changing the frame transforms each orbit and keeps the rest; exports and imports carry each orbit"]
ASSUMPTIONS = ["Hermite evaluation, frame transformations, time series and ephemeris files are anise's and hifitime's",
               "list operations are decided on lists of up to three symbolic states, in every weak order of their epochs; the interpolation window for every position in up to thirty states",
               "real-number arithmetic"]
SC = {"S": "cosmic::spacecraft::Spacecraft"}
me = S("self")
E = "State::epoch"
LOOKUP = ("Traj::at",)


def ep(s):
    return F_(s, "orbit", "epoch")


def at_(s, t):
    return rec(s, orbit=rec(F_(s, "orbit"), epoch=t))


def some_at(ts, p="s"):
    return [at_(S("%s%d" % (p, i)), t) for i, t in enumerate(ts)]


def traj(xs, name="self", **kw):
    return rec(S(name), states=arr(*xs), **kw)


def weak_orders(n):
    """Every weak order of n epochs, as ranks."""
    return sorted({tuple(sorted(set(t)).index(x) for x in t) for t in itertools.product(range(n), repeat=n)})


TICK = [num(x) for x in (3, 8, 10, 27)]


def unique_sorted(xs, ranks):
    """Candidates for each place of the finalized list: any of the states of that epoch."""
    return [[x for x, r in zip(xs, ranks) if r == k] for k in sorted(set(ranks))]


def match_places(ck, rule, inst, b, got, places):
    g = present(got)
    for k, c in enumerate(places):
        ck.match_any(rule, "%s: state %d" % (inst, k), b, nth(g, k), c)
    ck.match(rule, inst + ": number", b, nth(g, len(places)), ABSENT)


def order(ck):
    b = ck.fn("finalize", "Traj")
    for n in (1, 2, 3):
        for ranks in weak_orders(n):
            xs = some_at([TICK[r] for r in ranks])
            r = ck.ev(b, [("self", traj(xs))], subst=SC).final["self"]
            match_places(ck, "order", "finalize, epochs in order %s" % (ranks,), b, F_(r, "states"), unique_sorted(xs, ranks))
            if n == 3:
                ck.match("order", "finalize %s keeps the name" % (ranks,), b, F_(r, "name"), F_(me, "name"))
    b = ck.fn("new", "Traj")
    ck.match("order", "new is empty", b, length(F_(ck.ev(b, []).ret, "states")), num(0))
    xs = [S("s%d" % i) for i in range(3)]
    for nm, w in (("first", xs[0]), ("last", xs[2]), ("start_epoch", ep(xs[0])), ("end_epoch", ep(xs[2]))):
        b = ck.fn(nm, "Traj")
        ck.match("order", nm, b, ck.ev(b, [("self", traj(xs))], subst=SC).ret, w)


def lookup(ck):
    b = ck.fn("at", "Traj")
    q = S("q")
    OP = ("Interpolatable::interpolate", "Spacecraft::interpolate")
    # errors, for any symbolic states in chronological order
    r = ck.ev(b, [("self", traj([])), ("epoch", q)], subst=SC, opaque=OP).ret
    ck.match("lookup", "empty: error", b, okp(r), FALSE, assume=None)
    for n in (1, 2, 3):
        xs = [S("s%d" % i) for i in range(n)]
        e = [ep(x) for x in xs]
        srt = band(TRUE, *[lt(e[i], e[i + 1]) for i in range(n - 1)])
        r = ck.ev(b, [("self", traj(xs)), ("epoch", q)], subst=SC, opaque=OP).ret
        out = bor(lt(q, e[0]), lt(e[-1], q))
        ck.match("lookup", "%d states: outside" % n, b, when(band(srt, out), okp(r)), when(band(srt, out), FALSE), assume=None)
        for i in range(n):
            ri = ck.ev(b, [("self", traj(xs)), ("epoch", e[i])], subst=SC, opaque=OP).ret
            ck.match("lookup", "%d states: exactly state %d" % (n, i), b, when(srt, ri), when(srt, ok(xs[i])))
    # the window, for every position
    for n in (2, 3, 6, 7, 12, 13, 14, 15, 20, 25, 26, 30):
        xs = some_at([num(i) for i in range(n)])
        for k in range(1, n):
            inst = "%d states, between %d and %d" % (n, k - 1, k)
            r = ck.ev(b, [("self", traj(xs)), ("epoch", num(Fraction(2 * k - 1, 2)))], subst=SC, opaque=OP).ret
            calls = {x.id: x for x in subterms(r) if x.op == "app" and str(x.args[0]).endswith("::interpolate")}
            if len(calls) != 1:
                if okp(r) is FALSE:
                    ck.violation("window", inst, b.where(), "a lookup between two states is an error")
                elif r.op == "agg":
                    ck.violation("window", inst, b.where(), "a lookup between two states does not interpolate: " + show(r)[:300])
                else:
                    ck.undecided("window", inst, "%d interpolations" % len(calls))
                continue
            c = list(calls.values())[0]
            w = [x for _, x in present(c.args[3])]
            pos = [next((i for i, x in enumerate(xs) if same(x, y)), None) for y in w]
            if any(p is None for p in pos):
                ck.undecided("window", inst, show(c.args[3])[:200])
                continue
            good = pos == list(range(pos[0], pos[0] + len(pos))) and k - 1 in pos and k in pos and min(n, 12) <= len(pos) <= 13
            ck.expect(good, "window", inst, b.where(), "interpolates states %s" % (pos,))
            ck.match("window", inst + ": epoch", b, c.args[2], num(Fraction(2 * k - 1, 2)))
            ck.match("window", inst + ": data of", b, c.args[1], xs[k])
            ck.match("window", inst + ": result", b, when(okp(c), r), when(okp(c), ok(okv(c))))
            ck.match("window", inst + ": failure", b, okp(r), okp(c), assume=None)


def interpolation(ck):
    b = ck.fn("interpolate", "Spacecraft")
    for n in (2, 3, 13):
        xs = [S("x%d" % i) for i in range(n)]
        r = ck.ev(b, ["self", "epoch", ("states", arr(*xs))]).ret
        nm = named(r, "hermite_eval")
        if len(nm) != 1:
            raise Undecidable("interpolation does not use one Hermite evaluation")
        et = lambda e: app("Epoch::to_et_seconds", e)
        c = lambda x, f, i: models.ment(F_(x, "orbit", f), i, 0)
        H = [app(nm[0], arr(*[et(ep(x)) for x in xs]), arr(*[c(x, "radius_km", i) for x in xs]), arr(*[c(x, "velocity_km_s", i) for x in xs]), et(S("epoch"))) for i in range(3)]
        g = band(*[okp(h) for h in H])
        ck.match("interpolation", "%d states: error" % n, b, okp(r), g, assume=None)
        o = okv(r)
        for i in range(3):
            ck.match("interpolation", "%d states: position %d" % (n, i), b, when(g, c(o, "radius_km", i)), when(g, field(okv(H[i]), "0")))
            ck.match("interpolation", "%d states: velocity %d" % (n, i), b, when(g, c(o, "velocity_km_s", i)), when(g, field(okv(H[i]), "1")))
        ck.match("interpolation", "%d states: epoch" % n, b, when(g, ep(o)), when(g, S("epoch")))
        ck.match("interpolation", "%d states: frame" % n, b, when(g, F_(o, "orbit", "frame")), when(g, F_(me, "orbit", "frame")))
        m = lambda x: F_(x, "mass", "prop_mass_kg")
        slope = div(sub(m(xs[-1]), m(xs[0])), sub(ep(xs[-1]), ep(xs[0])))
        ck.match("interpolation", "%d states: propellant" % n, b, when(g, m(o)), when(g, add(m(xs[0]), mul(slope, sub(S("epoch"), ep(xs[0]))))))
        for f in ("dry_mass_kg", "extra_mass_kg"):
            ck.match("interpolation", "%d states: %s" % (n, f), b, when(g, F_(o, "mass", f)), when(g, F_(me, "mass", f)))
        for f in ("srp", "drag", "thruster", "mode"):
            ck.match("interpolation", "%d states: %s kept" % (n, f), b, when(g, F_(o, f)), when(g, F_(me, f)))
    b = ck.fn("frame", "Spacecraft", "Interpolatable")
    ck.match("interpolation", "frame", b, ck.ev(b, ["self"]).ret, F_(me, "orbit", "frame"))
    b = ck.fn("set_frame", "Spacecraft", "Interpolatable")
    r = ck.ev(b, ["self", "f"]).final["self"]
    ck.match("interpolation", "set frame", b, F_(r, "orbit", "frame"), S("f"))
    for f in ("radius_km", "velocity_km_s", "epoch"):
        ck.match("interpolation", "set frame keeps " + f, b, F_(r, "orbit", f), F_(me, "orbit", f))


def series(a, z, step):
    return app("TimeSeries::inclusive", a, z, step)


def iteration(ck):
    xs = [S("s%d" % i) for i in range(3)]
    t = traj(xs)
    a, z = ep(xs[0]), ep(xs[2])
    srt = le(a, z)
    b = ck.fn("every", "Traj")
    r = ck.ev(b, [("self", t), "step"], subst=SC).ret
    ck.match("iteration", "every: whole trajectory", b, when(srt, F_(r, "time_series")), when(srt, series(a, z, S("step"))))
    ck.match("iteration", "every: of it", b, F_(r, "traj"), t)
    b = ck.fn("every_between", "Traj")
    r = ck.ev(b, [("self", t), "step", "start", "end"], subst=SC).ret
    ck.match("iteration", "between: clamped", b, F_(r, "time_series"), series(fmax(S("start"), a), fmin(S("end"), z), S("step")))
    ck.match("iteration", "between: of it", b, F_(r, "traj"), t)
    b = ck.fn("next", "TrajIterator")
    r = ck.ev(b, [("self", rec(S("it"), traj=t))], subst=SC, opaque=LOOKUP)
    nx = app("Iterator::next", S("it")["time_series"])
    look = app("Traj::at", t, field(nx, "0", "Some"))
    good = band(isome(nx), okp(look))
    ck.match("iteration", "next: more", b, isome(r.ret), good, assume=None)
    ck.match("iteration", "next: state at the next epoch", b, when(good, field(r.ret, "0", "Some")), when(good, okv(look)))
    ck.match("iteration", "next: advances", b, F_(r.final["self"], "time_series"), app("Iterator::next!0", S("it")["time_series"]))
    b = ck.fn("evaluate", "Traj")
    r = ck.ev(b, [("self", t), "epoch", "almanac"], subst=SC, opaque=LOOKUP).ret
    look = app("Traj::at", t, S("epoch"))
    ck.match("iteration", "evaluate: error", b, okp(r), okp(look), assume=None)
    ck.match("iteration", "evaluate: orbit", b, when(okp(look), okv(r)), when(okp(look), F_(okv(look), "orbit")))
    # epochs given
    b = ck.fn("rebuild", "Traj")
    r = ck.ev(b, [("self", traj([])), ("epochs", arr(S("e0")))], subst=SC, opaque=LOOKUP).ret
    ck.match("iteration", "rebuild: empty", b, okp(r), FALSE, assume=None)
    for n in (1, 2, 3):
        es = [S("e%d" % i) for i in range(n)]
        r = ck.ev(b, [("self", t), ("epochs", arr(*es))], subst=SC, opaque=LOOKUP).ret
        look = [app("Traj::at", t, e) for e in es]
        good = band(*[okp(x) for x in look])
        ck.match("iteration", "rebuild of %d: error" % n, b, okp(r), good, assume=None)
        ys = [okv(x) for x in look]
        g = band(good, *[lt(ep(ys[i]), ep(ys[i + 1])) for i in range(n - 1)])
        got = present(F_(okv(r), "states"))
        for k in range(n + 1):
            ck.match("iteration", "rebuild of %d: state %d" % (n, k), b, when(g, nth(got, k)), when(g, ys[k] if k < n else ABSENT))
    b = ck.fn("resample", "Traj")
    r = ck.ev(b, [("self", traj([])), "step"], subst=SC, opaque=LOOKUP + ("Traj::every",)).ret
    ck.match("iteration", "resample: empty", b, okp(r), FALSE, assume=None)
    r = ck.ev(b, ["self", "step"], subst=SC, opaque=LOOKUP + ("Traj::finalize",))
    ne = bnot(eq(length(me["states"]), num(0)))
    ck.match("iteration", "resample: error", b, okp(r.ret), ne, assume=None)
    f = okv(r.ret)
    fin = [x for x in subterms(f) if x.op == "app" and x.args[0] == "Traj::finalize!0"]
    ck.expect(bool(fin), "iteration", "resample: finalized", b.where(), show(f)[:200])
    if fin:
        a = ep(index(me["states"], num(0)))
        z = ep(index(me["states"], sub(length(me["states"]), num(1))))
        drained(ck, "iteration", "resample", b, r, F_(fin[0].args[1], "states"), a, z, band(ne, le(a, z)))


def drained(ck, rule, inst, b, r, got, a, z, g):
    """The list holds the trajectory at each epoch of the series, in order."""
    src = series(a, z, S("step"))
    if got.op == "app" and got.args[0] in ("Iterator::collect", "FromIterator::from_iter", "Vec::from_iter"):
        it = got.args[1]
        ck.match(rule, inst + ": every state of it", b, F_(it, "traj"), me)
        return ck.match(rule, inst + ": every state", b, when(g, F_(it, "time_series")), when(g, src))
    acc = [m for L in r.loops for m in L.mus if m is not got and any(x is m for x in subterms(got)) and L.mus[m][1].op in ("push", "ite")]
    if len(acc) == 1 and got.op == "app":
        ck.match(rule, inst + ": keeps every state", b, got, acc[0], mus=tuple(acc), vocab=("Vec::pop", "Vec::truncate", "Vec::remove", "Vec::swap_remove", "Vec::clear", "Vec::drain"))
        got = acc[0]
    for L in r.loops:
        if got not in L.mus:
            continue
        init, step = L.mus[got]
        its = [m for m in L.mus if m is not got]
        mus = tuple(L.mus)
        if len(its) == 1:
            i0, nx = L.mus[its[0]][0], app("Iterator::next", its[0])
            look = app("Traj::at", me, field(nx, "0", "Some"))
            c = band(g, isome(nx), okp(look))
            ck.match(rule, inst + ": starts empty", b, length(init), num(0))
            ck.match(rule, inst + ": iterates", b, when(g, i0), when(g, src), mus=mus)
            ck.match(rule, inst + ": advances", b, when(c, L.mus[its[0]][1]), when(c, app("Iterator::next!0", its[0])), mus=mus)
            ck.match(rule, inst + ": every state", b, when(c, step), when(c, mk("push", got, okv(look))), mus=mus)
            return ck.match(rule, inst + ": to the end", b, when(g, L.back_pc), when(g, band(isome(nx), okp(look))), mus=mus, assume=None)
    ck.undecided(rule, inst + ": every state", show(got)[:200])


def selection(ck):
    for n in (3, 2, 0):
        xs = [S("s%d" % i) for i in range(n)]
        e = [ep(x) for x in xs]
        srt = band(TRUE, *[le(e[i], e[i + 1]) for i in range(n - 1)])
        above, below = bounds(S("bound"))
        for fn, off in (("filter_by_epoch", None), ("filter_by_offset", e[0] if n else None)):
            b = ck.fn(fn, "Traj")
            r = ck.ev(b, [("self", traj(xs)), "bound"], subst=SC).ret
            v = e if off is None else [sub(t, off) for t in e]
            want = [(band(above(t), below(t)), x) for t, x in zip(v, xs)]
            got = present(F_(r, "states"))
            for k in range(n + 1):
                ck.match("selection", "%s of %d: state %d" % (fn, n, k), b, when(srt, nth(got, k)), when(srt, nth(want, k)))
            ck.match("selection", "%s of %d keeps the name" % (fn, n), b, F_(r, "name"), F_(me, "name"))


def merging(ck):
    fr = lambda s: F_(s, "orbit", "frame")
    for b in ck.F.find("add", "Traj", None, one=False):
        ck.functions.add(b.id)
        nm = "add%s" % (" by reference" if "&" in b.id else "")
        for n, m, ts in ((1, 1, (3, 5)), (1, 1, (3, 3)), (1, 1, (5, 3)), (2, 2, (1, 4, 5, 9)), (2, 2, (1, 4, 4, 9)), (2, 2, (1, 4, 2, 9)), (2, 2, (4, 9, 1, 2)), (2, 1, (4, 9, 6)), (1, 2, (4, 2, 8))):
            xs = some_at([num(t) for t in ts[:n]])
            ys = some_at([num(t) for t in ts[n:]], "o")
            r = ck.ev(b, [("self", traj(xs)), ("other", traj(ys, "other"))], subst=SC).ret
            inst = "%s %s + %s" % (nm, list(ts[:n]), list(ts[n:]))
            good = tobool(eq(fr(xs[0]), fr(ys[0])))
            ck.match("merging", inst + ": frames", b, okp(r), good, assume=None)
            want = xs + [y for y, t in zip(ys, ts[n:]) if t > ts[n - 1]]
            got = present(F_(okv(r), "states"))
            for k in range(len(want) + 1):
                ck.match("merging", "%s: state %d" % (inst, k), b, when(good, nth(got, k)), when(good, want[k] if k < len(want) else ABSENT))
            ck.match("merging", inst + ": name", b, when(good, F_(okv(r), "name")), when(good, F_(me, "name")))
    b = ck.fn("add_assign", "Traj")
    xs, ys = some_at([num(1), num(4)]), some_at([num(4), num(9)], "o")
    r = ck.ev(b, [("self", traj(xs)), ("rhs", traj(ys, "rhs"))], subst=SC).final["self"]
    good = tobool(eq(fr(xs[0]), fr(ys[0])))
    got = present(F_(r, "states"))
    for k, w in enumerate(xs + ys[1:] + [ABSENT]):
        ck.match("merging", "add_assign: state %d" % k, b, when(good, nth(got, k)), when(good, w))


def conversion(ck):
    KEEP = ("mass", "srp", "drag", "thruster", "mode", "thrust_direction")
    b = ck.fn("to_frame", "Traj")
    r = ck.ev(b, [("self", traj([])), "f", "almanac"]).ret
    ck.match("conversion", "to frame: empty", b, okp(r), FALSE, assume=None)
    for n in (1, 2, 3):
        xs = [S("s%d" % i) for i in range(n)]
        r = ck.ev(b, [("self", traj(xs)), "f", "almanac"]).ret
        nm = named(r, "transform_to")
        if len(nm) != 1:
            raise Undecidable("conversion does not use one transformation")
        tr = [app(nm[0], S("almanac"), F_(x, "orbit"), S("f"), NONE) for x in xs]
        ys = [okv(x) for x in tr]
        good = band(*[okp(x) for x in tr])
        ck.match("conversion", "to frame of %d: error" % n, b, okp(r), good, assume=None)
        g = band(good, *[lt(F_(ys[i], "epoch"), F_(ys[i + 1], "epoch")) for i in range(n - 1)])
        got = present(F_(okv(r), "states"))
        for k in range(n):
            ck.match("conversion", "to frame of %d: orbit %d" % (n, k), b, when(g, F_(nth(got, k), "orbit")), when(g, ys[k]))
            for f in KEEP:
                ck.match("conversion", "to frame of %d: %s of %d" % (n, f, k), b, when(g, F_(nth(got, k), f)), when(g, F_(xs[k], f)))
        ck.match("conversion", "to frame of %d: number" % n, b, when(g, nth(got, n)), when(g, ABSENT))
    # to an ephemeris
    b = ck.fn("to_ephemeris", "Traj")
    for n in (0, 1, 2):
        xs = [S("s%d" % i) for i in range(n)]
        cfg = rec(S("cfg"), start_epoch=NONE, end_epoch=NONE, step=NONE)
        r = ck.ev(b, [("self", traj(xs)), "id", ("cfg", cfg)], opaque=("Traj::every_between",)).ret
        w = app("Ephemeris::new", S("id"))
        for x in xs:
            w = app("Ephemeris::insert_orbit!0", w, F_(x, "orbit"))
        ck.vocab.add("Ephemeris::insert_orbit")
        ck.match("conversion", "ephemeris of %d states" % n, b, r, w)
    xs = [S("s0"), S("s1")]
    for i in range(1, 8):
        st, en, sp = (some(S("a")) if i & 1 else NONE), (some(S("z")) if i & 2 else NONE), (some(S("h")) if i & 4 else NONE)
        cfg = rec(S("cfg"), start_epoch=st, end_epoch=en, step=sp)
        r = ck.ev(b, [("self", traj(xs)), "id", ("cfg", cfg)], opaque=("Traj::every_between",))
        src = app("Traj::every_between", traj(xs), S("h") if i & 4 else num(60), S("a") if i & 1 else ep(xs[0]), S("z") if i & 2 else ep(xs[1]))
        it = {x.id: x for x in list(subterms(r.ret)) + [y for L in r.loops for m_ in L.mus.values() for z_ in m_ for y in subterms(z_)] if x.op == "app" and x.args[0] == "Traj::every_between"}
        plain = app("Ephemeris::new", S("id"))
        for x in xs:
            plain = app("Ephemeris::insert_orbit!0", plain, F_(x, "orbit"))
        if not it and same(r.ret, plain):
            ck.violation("conversion", "ephemeris with options %d" % i, b.where(), "the options are ignored: stored states are exported")
            continue
        if len(it) != 1:
            ck.undecided("conversion", "ephemeris with options %d" % i, "%d sources" % len(it))
            continue
        ck.match("conversion", "ephemeris with options %d: interpolated states" % i, b, list(it.values())[0], src)
    # from ephemerides
    b = ck.fn("from_bsp", "Traj")
    for i in range(4):
        st, en = (some(S("a")) if i & 1 else NONE), (some(S("z")) if i & 2 else NONE)
        r = ck.ev(b, ["target", "obs", "almanac", "tpl", "step", ("start", st), ("end", en), "ab", "name"])
        nm = named(r.ret, "spk_domain")
        dom = rename(app("Almanac::spk_domain", S("almanac"), F_(S("target"), "ephemeris_id")), nm)
        src = series(S("a") if i & 1 else field(okv(dom), "0"), S("z") if i & 2 else field(okv(dom), "1"), S("step"))
        mapped(ck, "conversion", "from SPK %d" % i, b, r, F_(okv(r.ret), "states"), src,
               lambda e: app("Almanac::transform", S("almanac"), S("target"), S("obs"), e, S("ab")), S("tpl"), okp(dom))
        if not i:
            ck.match("conversion", "from SPK: name", b, F_(okv(r.ret), "name"), S("name"))


def mapped(ck, rule, inst, b, r, got, src, fn, tpl, guard):
    """A template with the orbit at each epoch of the series."""
    for L in r.loops:
        if got not in L.mus:
            continue
        init, step = L.mus[got]
        its = [m for m in L.mus if m is not got]
        mus = tuple(L.mus)
        if len(its) == 1 and same(L.mus[its[0]][0], num(0)):
            e = app("nth", src, its[0])
            o = fn(e)
            ck.match(rule, inst + ": starts empty", b, length(init), num(0))
            ck.match(rule, inst + ": each epoch", b, when(band(guard, okp(o)), step), when(band(guard, okp(o)), mk("push", got, rec(tpl, orbit=okv(o)))), mus=mus)
            return ck.match(rule, inst + ": to the end", b, when(guard, L.back_pc), when(guard, band(lt(its[0], app("count", src)), okp(o))), mus=mus, assume=None)
    ck.undecided(rule, inst, show(got)[:200])


RULES = [("order", order), ("lookup", lookup), ("interpolation", interpolation), ("iteration", iteration), ("selection", selection), ("merging", merging), ("conversion", conversion)]

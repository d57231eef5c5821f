"""R26: simulation of tracking arcs: configurations, schedules and measurements."""
from itertools import product

import models
from r17 import ABSENT, isome, match_list, nth, present
from r18 import chain_, when
from r20 import okp, okv, sv
from r24 import fieldless
from spec import *

TECHNIQUE = "gated value graphs of the tracking arc simulator on symbolic devices, configurations and visibility arcs, with the measurements of a device and the visibility arcs uninterpreted, compared strand by strand and measurement by measurement with the specification"
RULE_TEXT = ["a configuration is valid only with either a scheduler or a non-empty list of strands of at least one sample each",
             "each strand of each configured device is measured at every sampling epoch, in order, with one device and one generator carried along, and nothing else is",
             "a schedule has one strand per visibility arc of the station that is long enough, aligned, within the cadence, and handed over to the next one as configured"]
ASSUMPTIONS = ["a series of epochs, and the visibility arcs of a station, are uninterpreted lists; obligations use lists of up to three of them"]
AL = S("almanac")
SIM = "TrackingArcSim"
MS = "TrackingDevice::measure"


def st(s):
    return TT.mk("str", s)


def series(n):
    f = lambda nm: lambda a, z, s: arr(*[app(nm, a, z, s, num(i)) for i in range(n)])
    return {"TimeSeries::inclusive": f("series"), "TimeSeries::exclusive": f("series_without_end")}


def strands(*l):
    return some(arr(*l))


def strand(n, a, z):
    return rec(S(n), start=a, end=z)


def config(n, sched, strs, **kw):
    return rec(S(n), scheduler=sched, strands=strs, **kw)


# ------------------------------------------------------------------ configurations
def configuration(ck):
    b = ck.fn("sanity_check", "TrkConfig")
    sp = S("self")["sampling"]
    long_ = lambda s: le(sp, sub(s["end"], s["start"]))
    for n in (0, 1, 2, 3):
        xs = [S("s%d" % i) for i in range(n)]
        fwd = [assume_bool(gt(num(0), sub(x["end"], x["start"])), False) for x in xs]      # a chronological strand; the others are shorter than any sampling
        for sched in (0, 1):
            me = rec(S("self"), scheduler=some(S("sch")) if sched else NONE, strands=some(arr(*xs)))
            r = ck.ev(b, [("self", me)]).ret
            ck.match("configuration", "%d strands%s" % (n, " and a scheduler" if sched else ""), b, okp(r), FALSE if sched or not n else band(*[long_(x) for x in xs]), chain(*fwd) if fwd else None)
    for sched in (0, 1):
        me = rec(S("self"), scheduler=some(S("sch")) if sched else NONE, strands=NONE)
        ck.match("configuration", "no strands" + (" and a scheduler" if sched else ""), b, okp(ck.ev(b, [("self", me)]).ret), TRUE if sched else FALSE, None)
    b = ck.fn("contains", "Strand")
    e, me = S("epoch"), S("self")
    ck.match("configuration", "strand contains", b, ck.ev(b, ["self", "epoch"]).ret, band(le(me["start"], e), le(e, me["end"])))
    b = ck.fn("duration", "Strand")
    ck.match("configuration", "strand duration", b, ck.ev(b, ["self"]).ret, sub(me["end"], me["start"]))
    b = ck.fn("new", "Strand")
    r = ck.ev(b, ["start", "end"]).ret
    ck.match("configuration", "strand start", b, r["start"], S("start"))
    ck.match("configuration", "strand end", b, r["end"], S("end"))
    b = ck.fn("from_sample_rate", "TrkConfig")
    r = ck.ev(b, ["sampling"]).ret
    ck.match("configuration", "from sample rate: sampling", b, r["sampling"], S("sampling"))
    ck.match("configuration", "from sample rate: no strands", b, r["strands"], NONE)
    ck.match("configuration", "from sample rate: scheduled", b, isome(r["scheduler"]), TRUE)
    b = ck.fn("default", "TrkConfig")
    r = ck.ev(b, []).ret
    ck.match("configuration", "default: no strands", b, r["strands"], NONE)
    ck.match("configuration", "default: scheduled", b, isome(r["scheduler"]), TRUE)
    ck.match("configuration", "default: every minute", b, r["sampling"], num(60))


def construction(ck):
    OP = ("TrkConfig::sanity_check",)
    d, t, g = S("devices"), S("trajectory"), S("rng")
    b = ck.fn("with_rng", SIM)
    for names in (("a",), ("a", "b"), ("a", "b", "c")):
        for have in product((0, 1), repeat=len(names)):
            dev = chain_(*[(st(n), S("dev_" + n)) for n in names])
            cfg = chain_(*[(st(n), S("cfg_" + n)) for n, h in zip(names, have) if h] + [(st("zz"), S("cfg_zz"))])
            r = ck.ev(b, [("devices", dev), "trajectory", ("configs", cfg), "rng"], opaque=OP).ret
            good = bor(FALSE, *[okp(app("TrkConfig::sanity_check", S("cfg_" + n))) for n, h in zip(names, have) if h])
            t_ = "%s configured of %s" % ("".join(n for n, h in zip(names, have) if h) or "none", "".join(names))
            ck.match("construction", t_, b, okp(r), good, None)
            if any(have):
                o = okv(r)
                for f, w in (("devices", dev), ("trajectory", t), ("configs", cfg), ("rng", g)):
                    ck.match("construction", "%s: %s" % (t_, f), b, when(good, o[f]), when(good, w))
    b = ck.fn("with_seed", SIM)
    r = ck.ev(b, ["devices", "trajectory", "configs", "seed"], opaque=(SIM + "::with_rng",)).ret
    calls = [x for x in {y.id: y for y in subterms(r)}.values() if x.op == "app" and x.args[0] == SIM + "::with_rng"]
    if len(calls) != 1:
        raise Undecidable("with_seed does not construct one simulator")
    c = calls[0]
    ck.match("construction", "seeded: result", b, r, c)
    for i, w in enumerate((d, t, S("configs"))):
        ck.match("construction", "seeded: argument %d" % i, b, c.args[1 + i], w)
    ck.expect(any(x is S("seed") for x in subterms(c.args[4])), "construction", "seeded: generator", b.where(), "the generator does not depend on the seed: " + show(c.args[4])[:200])


# ------------------------------------------------------------------ measurements
def outcome(table):
    """Result of each measurement, by the epoch it is made at: 's'ome, 'n'one or 'e'rror."""
    def f(a):
        if a.op != "is":
            return None
        x = a.args[2]
        if x.op == "proj" and a.args[1] == "Some":
            x = x.args[2]
            want = "s"
        elif a.args[1] == "Ok":
            want = "sn"
        else:
            return None
        if x.op == "app" and x.args[0] == MS:
            o = table.get(x.args[2])
            return None if o is None else o in want
        return None
    return f


def simulated(me, devs, cfgs, n, table):
    """Expected measurements: [(device, strand)] in order; cfgs: name -> strands (None: not configured)."""
    rng, out = S("self")["rng"], []
    for name in sorted(devs):
        d = devs[name]
        for s in cfgs.get(name) or ():
            for k in range(n):
                e = app("series", s["start"], s["end"], S("cfg_" + name)["sampling"], num(k))
                a = (d, e, S("self")["trajectory"], some(rng), AL)
                c, d, rng = app(MS, *a), app(MS + "!0", *a), app(MS + "!3", *a)
                o = table[e]
                if o == "e":
                    break
                if o == "s":
                    out.append(sv(okv(c)))
        devs[name] = d
    return out, rng, devs


def measurements(ck):
    ck.vocab |= {MS, MS + "!0", MS + "!3", "series", "series_without_end", "TrackingDataArc::sort"}
    b = ck.fn("generate_measurements", SIM)
    s = [S("s%d" % i) for i in range(4)]
    runs = []
    for o in product("sne", repeat=2):
        runs.append((("a",), {"a": (s[0],)}, 2, o + ("s",) * 4))
        runs.append((("a", "b"), {"a": (s[0], s[1]), "b": (s[2],)}, 2, o + ("s",) * 4))
        runs.append((("a", "b"), {"a": (s[0], s[1]), "b": (s[2],)}, 2, ("s", "s") + o + ("s",) * 2))
    runs += [(("a", "b", "c"), {"b": (s[0],), "c": (s[1],)}, 1, ("s",) * 6), (("a", "b"), {"b": (s[0], s[1])}, 1, ("s",) * 6), (("a", "b"), {"a": (), "b": (s[0],)}, 2, ("s",) * 6)]
    for k, (names, cfgs, n, outs) in enumerate(runs):
        devs = {x: S("dev_" + x) for x in names}
        table, i = {}, 0
        for name in sorted(cfgs):
            for y in cfgs[name]:
                for j in range(n):
                    table[app("series", y["start"], y["end"], S("cfg_" + name)["sampling"], num(j))] = outs[i % len(outs)]
                    i += 1
        me = rec(S("self"), devices=chain_(*[(st(x), devs[x]) for x in names]), configs=chain_(*[(st(x), config("cfg_" + x, NONE, strands(*cfgs[x]))) for x in sorted(cfgs)]))
        r = ck.ev(b, [("self", me), ("almanac", AL)], opaque=(MS, "TrackingDataArc::sort"), contract=series(n))
        tag = "devices %s, %s, outcomes %s" % ("".join(names), " ".join("%s:%d" % (x, len(cfgs[x])) for x in sorted(cfgs)), "".join(outs[:max(1, i)]))
        cv = chain(outcome(table))
        want, rng, devs = simulated(me, devs, cfgs, n, table)
        ck.match("measurements", tag + ": simulated", b, okp(r.ret), TRUE, cv)
        arcs = {x.id: x for x in subterms(okv(r.ret)) if x.op == "app" and x.args[0] == "TrackingDataArc::sort!0"}
        if not any("sort" in str(x.args[0]) for x in subterms(r.ret) if x.op == "app"):
            ck.violation("measurements", tag + ": sorted", b.where(), "the arc is not sorted")
            continue
        if len(arcs) != 1:
            ck.undecided("measurements", tag, "the arc is not sorted once: " + show(r.ret)[:200])
            continue
        a = list(arcs.values())[0]
        ck.match("measurements", tag + ": sorted", b, okv(r.ret), a, cv)
        match_list(ck, "measurements", tag, b, a.args[1]["measurements"], [(TRUE, x) for x in want], assume=cv)
        ck.match("measurements", tag + ": not rejected", b, a.args[1]["force_reject"], FALSE, cv)
        ck.match("measurements", tag + ": without moduli", b, a.args[1]["moduli"], NONE, cv)
        ck.match("measurements", tag + ": generator carried on", b, r.final["self"]["rng"], rng, cv)
        for x in names:
            ck.match("measurements", "%s: device %s carried on" % (tag, x), b, sv(models.map_get(r.final["self"]["devices"], st(x))), devs[x], cv)
    for sched, strs, w in ((1, NONE, FALSE), (1, strands(s[0]), TRUE), (0, NONE, TRUE)):
        me = rec(S("self"), devices=chain_((st("a"), S("dev_a"))), configs=chain_((st("a"), config("cfg_a", some(S("sch")) if sched else NONE, strs))))
        r = ck.ev(b, [("self", me), ("almanac", AL)], opaque=(MS, "TrackingDataArc::sort"), contract=series(1)).ret
        ck.match("measurements", "%s, %s" % ("scheduler" if sched else "no scheduler", "no strands" if strs is NONE else "strands"), b, okp(r), w, None)


# ------------------------------------------------------------------ schedules
def located(names):
    ds = app("default", st("anise::structure::dataset::DataSet"))
    for i, n in enumerate(names):
        ds = app("DataSet::push!0", ds, S("dev_" + n)["location"], some(num(1000 + i)), some(st(n)))
    return app("Almanac::with_location_data", AL, ds)


def scheduled(ck, b, cfgs, arcs, seen):
    """Configurations built for the stations of cfgs (name -> (scheduler or None, strands)), station i having the visibility arcs arcs[i]."""
    names = sorted(cfgs)
    me = rec(S("self"), devices=chain_(*[(st(n), S("dev_" + n)) for n in names]), configs=chain_(*[(st(n), cfgs[n]) for n in names]))

    def report(al, traj, loc, a, z, smp, mask):
        seen.append((al, traj, loc, a, z, smp))
        return ok(arr(*[rec(S("arc"), rise=rec(S("r"), orbit=rec(S("o"), epoch=x)), fall=rec(S("f"), orbit=rec(S("p"), epoch=y))) for x, y in arcs[int(nval(loc)) - 1000]]))
    r = ck.ev(b, [("self", me), ("almanac", AL)], contract={"Almanac::report_visibility_arcs": report})
    return r, okv(r.ret)


def got(o, name):
    return sv(models.map_get(o, st(name)))


def scheduler(ck, n, cadence=None, align=NONE, handoff="Overlap", minimum=None):
    c = fieldless(ck, "Cadence", "Continuous") if cadence is None else variant(ck, "Cadence", "Intermittent", on=cadence[0], off=cadence[1])
    kw = {} if minimum is None else {"min_samples": minimum}
    return some(rec(S("sch_" + n), cadence=c, sample_alignment=align, handoff=fieldless(ck, "Handoff", handoff), **kw))


def pairs(l):
    return [(TRUE, x) for x in l]


def schedule(ck):
    ck.vocab |= {"Epoch::round", "DataSet::push", "Almanac::with_location_data", "Almanac::report_visibility_arcs"}
    b = ck.fn("generate_schedule", SIM)
    first, last = [index(S("self")["trajectory"]["states"], i)["orbit"]["epoch"] for i in (num(0), sub(length(S("self")["trajectory"]["states"]), num(1)))]
    A = [(S("r%d" % i), S("f%d" % i)) for i in range(3)]
    smp = S("cfg_a")["sampling"]
    # which arcs are asked for
    for names in (("a",), ("a", "b"), ("a", "b", "c")):
        seen = []
        scheduled(ck, b, {n: config("cfg_" + n, scheduler(ck, n), NONE) for n in names}, [[] for _ in names], seen)
        ck.expect(len(seen) == len(names), "schedule", "arcs of %s" % "".join(names), b.where(), "%d stations are looked at" % len(seen))
        for i, (n, a) in enumerate(zip(names, seen)):
            for what, x, w in (("almanac with every station", a[0], located(names)), ("trajectory", a[1], S("self")["trajectory"]), ("station", a[2], num(1000 + i)), ("start", a[3], first), ("end", a[4], last), ("sampling", a[5], S("cfg_" + n)["sampling"])):
                ck.match("schedule", "arcs of %s in %s: %s" % (n, "".join(names), what), b, x, w)
    # what becomes of them
    for al, n in product((0, 1), (0, 1, 2, 3)):
        arcs = A[:n]
        align = some(S("align")) if al else NONE
        t = "%d arcs%s" % (n, ", aligned" if al else "")
        r, o = scheduled(ck, b, {"a": config("cfg_a", scheduler(ck, "a", None, align), NONE)}, [arcs], [])
        rd = (lambda x: app("Epoch::round", x, S("align"))) if al else (lambda x: x)
        keep = [le(mul(smp, S("sch_a")["min_samples"]), sub(z, a)) for a, z in arcs]
        cv = chain(default_assume)
        c = got(o, "a")
        if n < 3:
            g = present(sv(c["strands"]))
            w = [(k, (rd(a), rd(z))) for k, (a, z) in zip(keep, arcs)]
            for i in range(max(len(g), len(w))):
                for j, f in enumerate(("start", "end")):
                    ck.match("schedule", "%s: %s of strand %d" % (t, f, i), b, nth([(k, x[f]) for k, x in g], i), nth([(k, x[j]) for k, x in w], i), cv)
        ck.match("schedule", t + ": not scheduled again", b, c["scheduler"], NONE, cv)
        ck.match("schedule", t + ": sampling", b, c["sampling"], smp, cv)
        ck.match("schedule", t + ": built", b, okp(r.ret), TRUE, cv)
        bad = [x for x in r.ev.notes if x.startswith("panic")]
        ck.expect(not bad, "schedule", t + ": no underflow", b.where(), "; ".join(bad))
    # cadence
    on, off = S("on"), S("off")
    for al in (0, 1):
        align = some(S("align")) if al else NONE
        rd = (lambda x: app("Epoch::round", x, S("align"))) if al else (lambda x: x)
        r, o = scheduled(ck, b, {"a": config("cfg_a", scheduler(ck, "a", (on, off), align), NONE)}, [A[:2]], [])
        long_ = [assume_bool(gt(mul(smp, S("sch_a")["min_samples"]), sub(z, a)), False) for a, z in A]
        cut = lambda a, z: ite(gt(sub(z, a), on), add(a, on), z)
        s0, e0 = rd(A[0][0]), cut(rd(A[0][0]), rd(A[0][1]))
        early = gt(add(e0, off), rd(A[1][0]))
        s1 = ite(early, add(e0, off), rd(A[1][0]))
        lost = band(early, gt(add(e0, off), A[1][1]))
        g = present(sv(got(o, "a")["strands"]))
        w = [(TRUE, (s0, e0)), (bnot(lost), (s1, cut(s1, rd(A[1][1]))))]
        for i in range(max(2, len(g))):
            for j, f in enumerate(("start", "end")):
                ck.match("schedule", "cadence%s: %s of strand %d" % (", aligned" if al else "", f, i), b, nth([(k, x[f]) for k, x in g], i), nth([(k, x[j]) for k, x in w], i), chain(default_assume, *long_))
    # stations without scheduler keep their strands
    s = S("s0")
    r, o = scheduled(ck, b, {"a": config("cfg_a", NONE, strands(s)), "b": config("cfg_b", scheduler(ck, "b"), NONE)}, [A[:1], []], [])
    ck.match("schedule", "unscheduled station keeps its strands", b, got(o, "a")["strands"], strands(s))
    handoffs(ck, b)
    b = ck.fn("build_schedule", SIM)
    r = ck.ev(b, ["self", ("almanac", AL)], opaque=(SIM + "::generate_schedule",))
    w = app(SIM + "::generate_schedule", S("self"), AL)
    ck.match("schedule", "built schedule is used", b, when(okp(w), r.final["self"]["configs"]), when(okp(w), okv(w)))
    ck.match("schedule", "build errors", b, okp(r.ret), okp(w), None)


def handoffs(ck, b):
    """Strands at numeric offsets from one symbolic epoch, so that their order is decided."""
    t = S("t")
    at = lambda x: add(t, num(x))
    # station -> arcs; in chronological order each strand meets the next
    cases = [({"a": [(0, 100)], "b": [(30, 200)]}), ({"a": [(30, 200)], "b": [(0, 100)]}), ({"a": [(0, 100)], "b": [(100, 200)]}), ({"a": [(0, 300)], "b": [(50, 100)]}), ({"a": [(50, 100)], "b": [(0, 300)]}), ({"a": [(0, 100)], "b": [(101, 200)]}),
             ({"a": [(0, 100), (150, 300)], "b": [(90, 160)]}), ({"a": [(0, 100)], "b": [(90, 200)], "c": [(190, 300)]}), ({"a": [(0, 100), (400, 500)], "b": [(450, 700)], "c": [(200, 300)]})]
    for k, cs in enumerate(cases):
        names = sorted(cs)
        order = sorted([(a, z, n, i) for n in names for i, (a, z) in enumerate(cs[n])])
        for hs in product(("Eager", "Greedy", "Overlap"), repeat=len(names)):
            if len(names) == 3 and len(set(hs)) == 3:
                continue
            h = dict(zip(names, hs))
            cfgs = {n: config("cfg_" + n, scheduler(ck, n, handoff=h[n], minimum=num(0)), NONE) for n in names}
            r, o = scheduled(ck, b, cfgs, [[(at(a), at(z)) for a, z in cs[n]] for n in names], [])
            want = {(n, i): [at(a), at(z)] for a, z, n, i in order}
            for (a, z, n, i), (a2, z2, n2, i2) in zip(order, order[1:]):
                if z >= a2 and h[n] == "Greedy":
                    want[n2, i2][0] = add(at(z), S("cfg_" + n2)["sampling"])
                elif z >= a2 and h[n] == "Eager":
                    want[n, i][1] = sub(at(a2), S("cfg_" + n)["sampling"])
            for n in names:
                g = present(sv(got(o, n)["strands"]))
                for i in range(max(len(g), len(cs[n]))):
                    for j, f in enumerate(("start", "end")):
                        ck.match("handoff", "case %d, %s: %s of %s's strand %d" % (k, "/".join(hs), f, n, i), b, nth([(c, x[f]) for c, x in g], i), want[n, i][j] if (n, i) in want else ABSENT)


RULES = [("configuration", configuration), ("construction", construction), ("measurements", measurements), ("schedule", schedule)]

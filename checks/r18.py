"""R18: tracking data arcs and measurements."""
from spec import *
import models
from r17 import match_list, nth, present, isome, ABSENT

TECHNIQUE = "gated value graphs of every operation on tracking arcs, on lists of symbolic measurements with symbolic epochs, trackers, flags and values, compared measurement by measurement with their specification"
RULE_TEXT = ["sorting orders an arc by epoch, then tracker, loses no observable, and joins the records of one tracker at one epoch, keeping a rejection of either",
             "selections by epoch, offset, tracker and type keep exactly the measurements inside them; rejections mark exactly those",
             "a chunk holds consecutive measurements no later than its duration after its first, and the chunks follow each other without gap or overlap",
             "moduli are applied to the types they were set for; invalid ones are refused",
             "a measurement holds what was pushed; its observation vector and availability follow the requested types, in their order",
             "each measurement type reads its own component of the geometry, adds its noise once, and keeps its unit and file names"]
ASSUMPTIONS = ["selections and sorting are decided for arcs of up to three measurements, each of them symbolic", "strings are ordered as some total order",
               "selections by epoch are decided for arcs in chronological order, which sorting provides"]
TYPES = ("Range", "Doppler", "Azimuth", "Elevation", "ReceiveFrequency", "TransmitFrequency", "TransmitFrequencyRate", "X", "Y", "Z")
ARC = "TrackingDataArc"


def when(c, x):
    """x in the case c."""
    return bor(bnot(c), x) if x.op in ("bdd", "true", "false") else ite(c, x, ABSENT)


def chain_(*kv):
    m = app("map0")
    for k, v in kv:
        m = app("insert", m, k, v)
    return m


def setof(*ks):
    return chain_(*[(k, UNIT) for k in ks])


def arc(ms, name="self", **kw):
    return rec(S(name), measurements=arr(*ms), **kw)


def ms(n, **kw):
    return [rec(S("m%d" % i), **{k: v(i) for k, v in kw.items()}) for i in range(n)]


def all_fields(ck, rule, inst, b, got, want, keys, guard=TRUE):
    """Both measurements agree in tracker, epoch, rejection, and the values under `keys`."""
    for f in ("tracker", "epoch"):
        ck.match(rule, "%s: %s" % (inst, f), b, when(guard, F_(got, f)), when(guard, F_(want, f)))
    ck.match(rule, inst + ": rejected", b, when(guard, tobool(F_(got, "rejected"))), when(guard, tobool(F_(want, "rejected"))))
    for nm, k in keys:
        ck.match(rule, "%s: %s" % (inst, nm), b, when(guard, models.map_get(F_(got, "data"), k)), when(guard, models.map_get(F_(want, "data"), k)))


def others_kept(ck, rule, inst, b, got, me, fs=("source", "moduli", "force_reject")):
    for f in fs:
        ck.match(rule, "%s keeps %s" % (inst, f), b, F_(got, f), F_(me, f))


def sorting(ck, T):
    R, D, A = T["Range"], T["Doppler"], T["Azimuth"]
    keys = (("range", R), ("doppler", D), ("azimuth", A))
    b = ck.fn("sort", ARC)
    # two measurements, any epochs and trackers
    d = [chain_((R, S("a"))), chain_((D, S("c")))]
    m = ms(2, data=lambda i: d[i])
    got = present(F_(ck.ev(b, [("self", arc(m))]).final["self"], "measurements"))
    e = [x["epoch"] for x in m]
    k = [x["tracker"] for x in m]

    def before(i, j):
        return bor(lt(e[i], e[j]), band(tobool(eq(e[i], e[j])), lt(k[i], k[j])))
    for i, j in ((0, 1), (1, 0)):
        g = before(i, j)
        for p, w in ((0, i), (1, j)):
            all_fields(ck, "sort", "measurement %d of two, %d first" % (p, i), b, nth(got, p), m[w], keys, g)
        ck.match("sort", "two measurements, %d first: number" % i, b, when(g, nth(got, 2)), when(g, ABSENT))
    # one tracker at one epoch
    m = ms(2, data=lambda i: d[i], epoch=lambda i: S("e"), tracker=lambda i: S("k"))
    got = present(F_(ck.ev(b, [("self", arc(m))]).final["self"], "measurements"))
    want = rec(S("m"), epoch=S("e"), tracker=S("k"), rejected=bor(tobool(m[0]["rejected"]), tobool(m[1]["rejected"])), data=chain_((R, S("a")), (D, S("c"))))
    all_fields(ck, "sort", "one tracker at one epoch: joined", b, nth(got, 0), want, keys)
    ck.match("sort", "one tracker at one epoch: number", b, nth(got, 1), ABSENT)
    # three of them
    d3 = [chain_((R, S("a"))), chain_((D, S("c"))), chain_((A, S("f")))]
    m = ms(3, data=lambda i: d3[i], epoch=lambda i: S("e"), tracker=lambda i: S("k"))
    got = present(F_(ck.ev(b, [("self", arc(m))]).final["self"], "measurements"))
    want = rec(S("m"), epoch=S("e"), tracker=S("k"), rejected=bor(*[tobool(x["rejected"]) for x in m]), data=chain_((R, S("a")), (D, S("c")), (A, S("f"))))
    all_fields(ck, "sort", "three of one tracker at one epoch: joined", b, nth(got, 0), want, keys)
    ck.match("sort", "three of one tracker at one epoch: number", b, nth(got, 1), ABSENT)
    # an observable present twice stays present
    m = ms(2, data=lambda i: chain_((R, S("a%d" % i))), epoch=lambda i: S("e"), tracker=lambda i: S("k"))
    got = present(F_(ck.ev(b, [("self", arc(m))]).final["self"], "measurements"))
    ck.match("sort", "an observable given twice stays", b, isome(models.map_get(F_(nth(got, 0), "data"), R)), TRUE)
    # simultaneous measurements of two trackers stay apart; interleaved with a third epoch
    for i, j in ((0, 1), (1, 0)):
        m = ms(2, epoch=lambda i: S("e"), data=lambda i: d[i])
        g = lt(m[i]["tracker"], m[j]["tracker"])
        got = present(F_(ck.ev(b, [("self", arc(m))]).final["self"], "measurements"))
        for p, w in ((0, i), (1, j)):
            all_fields(ck, "sort", "simultaneous, tracker %d first: measurement %d" % (i, p), b, nth(got, p), m[w], keys, g)
    m = ms(3)
    got = present(F_(ck.ev(b, [("self", arc(m))]).final["self"], "measurements"))
    e = [x["epoch"] for x in m]
    for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)):
        g = band(lt(e[p[0]], e[p[1]]), lt(e[p[1]], e[p[2]]))
        for q in range(3):
            ck.match("sort", "three epochs in order %s: item %d" % (p, q), b, when(g, nth(got, q)), when(g, m[p[q]]))
    # joining two arcs
    m = ms(2)
    other = arc([S("m2")], "rhs")
    for fn, tr in (("add", "Add"), ("add_assign", "AddAssign")):
        b = ck.fn(fn, ARC, trait=tr)
        r = ck.ev(b, [("self", arc(m)), ("rhs", other)])
        v = r.ret if fn == "add" else r.final["self"]
        got = present(F_(v, "measurements"))
        for p in ((0, 1, 2), (0, 2, 1), (2, 0, 1), (2, 1, 0)):
            mm = m + [S("m2")]
            e = [x["epoch"] for x in mm]
            g = band(lt(e[p[0]], e[p[1]]), lt(e[p[1]], e[p[2]]))
            for q in range(3):
                ck.match("sort", "%s: epochs in order %s: item %d" % (fn, p, q), b, when(g, nth(got, q)), when(g, mm[p[q]]))
        ck.match("sort", fn + " keeps moduli", b, F_(v, "moduli"), S("self")["moduli"])


def extents(ck):
    m = ms(3)
    e = [x["epoch"] for x in m]
    for fn, w1, w3 in (("start_epoch", e[0], e[0]), ("end_epoch", e[0], e[2]), ("duration", num(0), sub(e[2], e[0]))):
        b = ck.fn(fn, ARC)
        ck.match("extent", fn + " of nothing", b, isome(ck.ev(b, [("self", arc([]))]).ret), FALSE)
        ck.match("extent", fn + " of one", b, ck.ev(b, [("self", arc(m[:1]))]).ret, some(w1))
        ck.match("extent", fn + " of three", b, ck.ev(b, [("self", arc(m))]).ret, some(w3))
    b = ck.fn("len", ARC)
    ck.match("extent", "number", b, ck.ev(b, [("self", arc(m))]).ret, num(3))
    b = ck.fn("is_empty", ARC)
    ck.match("extent", "not empty", b, tobool(ck.ev(b, [("self", arc(m))]).ret), FALSE)
    ck.match("extent", "empty", b, tobool(ck.ev(b, [("self", arc([]))]).ret), TRUE)
    b = ck.fn("min_duration_sep", ARC)
    ck.match("extent", "separation of nothing", b, isome(ck.ev(b, [("self", arc([]))]).ret), FALSE)
    BIG = num(103407943680000)
    d = [sub(e[1], e[0]), sub(e[2], e[1])]
    g = band(lt(d[0], BIG), lt(d[1], BIG))
    ck.match("extent", "smallest separation", b, when(g, ck.ev(b, [("self", arc(m))]).ret), when(g, some(fmin(d[0], d[1]))))


def bounds(bd):
    """(inside the start bound, inside the end bound) of an epoch."""
    lo, hi = app("RangeBounds::start_bound", bd), app("RangeBounds::end_bound", bd)
    B = "core::ops::range::Bound"
    v = lambda x, n: is_variant(x, B, n)
    p = lambda x, n: field(x, "0", n)

    def above(t):
        return bite(v(lo, "Included"), le(p(lo, "Included"), t), bite(v(lo, "Excluded"), lt(p(lo, "Excluded"), t), TRUE))

    def below(t):
        return bite(v(hi, "Included"), le(t, p(hi, "Included")), bite(v(hi, "Excluded"), lt(t, p(hi, "Excluded")), TRUE))
    return above, below


def by_epoch(ck):
    for n in (3, 2, 0):
        m = ms(n)
        e = [x["epoch"] for x in m]
        srt = band(TRUE, *[le(e[i], e[i + 1]) for i in range(n - 1)])
        above, below = bounds(S("bound"))
        ins = [band(above(t), below(t)) for t in e]

        def lists(inst, b, got, want):
            for k in range(max(len(got), len(want))):
                ck.match("by epoch", "%s of %d: item %d" % (inst, n, k), b, when(srt, nth(got, k)), when(srt, nth(want, k)))
        for fn, want in (("filter_by_epoch", list(zip(ins, m))), ("exclude_by_epoch", [(bnot(c), x) for c, x in zip(ins, m)]),
                         ("reject_by_epoch", [(TRUE, ite(c, rec(x, rejected=TRUE), x)) for c, x in zip(ins, m)])):
            b = ck.fn(fn, ARC)
            r = ck.ev(b, [("self", arc(m)), "bound"])
            got = present(F_(r.ret, "measurements"))
            if fn == "reject_by_epoch":
                for k in range(n):
                    g_ = nth(got, k)
                    ck.match("by epoch", "%s of %d: mark of %d" % (fn, n, k), b, when(srt, tobool(F_(g_, "rejected"))), when(srt, bor(ins[k], tobool(m[k]["rejected"]))))
                    for f in ("epoch", "tracker", "data"):
                        ck.match("by epoch", "%s of %d: %s of %d" % (fn, n, f, k), b, when(srt, F_(g_, f)), when(srt, m[k][f]))
                ck.match("by epoch", "%s of %d: number" % (fn, n), b, when(srt, nth(got, n)), when(srt, ABSENT))
            else:
                lists(fn, b, got, want)
            others_kept(ck, "by epoch", "%s of %d" % (fn, n), b, r.ret, arc(m))
        b = ck.fn("filter_by_offset", ARC)
        r = ck.ev(b, [("self", arc(m)), "bound"])
        ins2 = [band(above(sub(t, e[0])), below(sub(t, e[0]))) for t in e]
        lists("filter_by_offset", b, present(F_(r.ret, "measurements")), list(zip(ins2, m)))
        others_kept(ck, "by epoch", "filter_by_offset of %d" % n, b, r.ret, arc(m))


def by_name(ck, T):
    m = ms(3)
    t = S("tracker")
    own = [tobool(eq(x["tracker"], t)) for x in m]
    b = ck.fn("filter_by_tracker", ARC)
    r = ck.ev(b, [("self", arc(m)), "tracker"])
    match_list(ck, "by tracker", "filter", b, F_(r.ret, "measurements"), list(zip(own, m)))
    others_kept(ck, "by tracker", "filter", b, r.ret, arc(m))
    b = ck.fn("exclude_tracker", ARC)
    r = ck.ev(b, [("self", arc(m)), "tracker"])
    match_list(ck, "by tracker", "exclude", b, F_(r.ret, "measurements"), [(bnot(c), x) for c, x in zip(own, m)])
    others_kept(ck, "by tracker", "exclude", b, r.ret, arc(m))
    b = ck.fn("reject_by_tracker", ARC)
    r = ck.ev(b, [("self", arc(m)), "tracker"])
    got = F_(r.ret, "measurements")
    for k in range(3):
        ck.match("by tracker", "reject: mark of %d" % k, b, tobool(F_(index(got, num(k)), "rejected")), bor(own[k], tobool(m[k]["rejected"])))
        for f in ("epoch", "tracker", "data"):
            ck.match("by tracker", "reject: %s of %d" % (f, k), b, F_(index(got, num(k)), f), m[k][f])
    others_kept(ck, "by tracker", "reject", b, r.ret, arc(m))
    b = ck.fn("resid_vs_ref_check", ARC)
    r = ck.ev(b, [("self", arc(m))])
    ck.match("by tracker", "residuals against the reference reject everything", b, tobool(F_(r.ret, "force_reject")), TRUE)
    match_list(ck, "by tracker", "residuals against the reference keep the measurements", b, F_(r.ret, "measurements"), [(TRUE, x) for x in m])
    # by type
    R, D, A = T["Range"], T["Doppler"], T["Azimuth"]
    d = [chain_((R, S("a0")), (D, S("b0"))), chain_((D, S("b1"))), chain_((R, S("a2")))]
    m = ms(3, data=lambda i: d[i])
    for nm, w in (("Range", R), ("Doppler", D), ("Azimuth", A)):
        has = [isome(models.map_get(x, w)) for x in d]
        b = ck.fn("filter_by_measurement_type", ARC)
        r = ck.ev(b, [("self", arc(m)), ("included_type", w)])
        got = present(F_(r.ret, "measurements"))
        want = [(c, x) for c, x in zip(has, m) if c is not FALSE]
        for k in range(max(len(got), len(want))):
            g_, w_ = nth(got, k), nth(want, k)
            for f in ("epoch", "tracker", "rejected"):
                ck.match("by type", "only %s: %s of %d" % (nm, f, k), b, F_(g_, f), F_(w_, f))
            if k < len(want):
                for n2, k2 in (("Range", R), ("Doppler", D), ("Azimuth", A)):
                    ck.match("by type", "only %s: %s of %d" % (nm, n2, k), b, models.map_get(F_(g_, "data"), k2), models.map_get(F_(w_, "data"), k2) if k2 is w else NONE)
        others_kept(ck, "by type", "only " + nm, b, r.ret, arc(m))
        b = ck.fn("exclude_measurement_type", ARC)
        r = ck.ev(b, [("self", arc(m)), ("excluded_type", w)])
        got = F_(r.ret, "measurements")
        for k in range(3):
            if any(models.map_get(d[k], k2) is not NONE for n2, k2 in (("Range", R), ("Doppler", D)) if k2 is not w):
                pass
            elif True:
                continue
            its = [g_ for g_ in (models.plist(got) or [])]
            x = index(got, num(k)) if len(its) == 3 else None
            if x is None:
                raise Undecidable("list of exclude_measurement_type")
            for n2, k2 in (("Range", R), ("Doppler", D), ("Azimuth", A)):
                ck.match("by type", "without %s: %s of %d" % (nm, n2, k), b, models.map_get(F_(x, "data"), k2), NONE if k2 is w else models.map_get(d[k], k2))
            for f in ("epoch", "tracker", "rejected"):
                ck.match("by type", "without %s: %s of %d" % (nm, f, k), b, F_(x, f), F_(m[k], f))
    # what an arc holds
    b = ck.fn("unique", ARC)
    r = ck.ev(b, [("self", arc(m))])
    for i in range(3):
        ck.match("contents", "aliases hold tracker %d" % i, b, isome(models.map_get(field(r.ret, "0"), m[i]["tracker"])), TRUE)
    q = S("nobody")
    ck.match("contents", "aliases hold nothing else", b, isome(models.map_get(field(r.ret, "0"), q)), bor(*[tobool(eq(q, x["tracker"])) for x in m]))
    for nm, k, v in (("Range", R, TRUE), ("Doppler", D, TRUE), ("Azimuth", A, FALSE)):
        ck.match("contents", "types: " + nm, b, isome(models.map_get(field(r.ret, "1"), k)), v)
    b2 = ck.fn("unique_aliases", ARC)
    ck.match("contents", "unique aliases", b2, ck.ev(b2, [("self", arc(m))]).ret, field(r.ret, "0"))
    b2 = ck.fn("unique_types", ARC)
    ck.match("contents", "unique types", b2, ck.ev(b2, [("self", arc(m))]).ret, field(r.ret, "1"))


def chunks(ck):
    b = ck.fn("chunk", ARC)
    r = ck.ev(b, ["self", "max_duration"])
    me, mx = S("self"), S("max_duration")
    al = me["measurements"]
    if len(r.loops) != 1:
        raise Undecidable("%d loops in chunk" % len(r.loops))
    L = r.loops[0]
    st = mu_by_init(L, num(0))
    out = [m for m, (i, s) in L.mus.items() if length(i) is num(0) or i.op == "vec0"]
    if len(out) != 1:
        raise Undecidable("list of chunks")
    out = out[0]
    mus = tuple(L.mus)
    e0 = F_(index(al, st), "epoch")
    # predicate of the search
    pps = [x for x in subterms(L.mus[st][1]) if x.op == "app" and x.args[0].endswith("partition_point")]
    if len(pps) != 1:
        raise Undecidable("end of a chunk")
    pp = pps[0]
    # the search may run over the remaining measurements or over all of them: those before the start are no later either
    whole = pp.args[1] is al
    if not whole:
        ck.match("chunk", "searched in the remaining measurements", b, pp.args[1], mk("subslice", al, st, sub(length(al), st)), mus=mus)
    lam = pp.args[2]
    if lam.op != "lam" or lam.args[0] != 1:
        raise Undecidable("predicate of the chunk")
    p = [x for x in subterms(lam.args[1]) if x.op == "sym" and x.args[0].startswith("§")]
    if len(set(p)) != 1:
        raise Undecidable("predicate of the chunk")
    ck.match("chunk", "members are no later than the duration after the first", b, lam.args[1], le(F_(p[0], "epoch"), add(e0, mx)), mus=mus)
    end = pp if whole else add(st, pp)
    ck.match("chunk", "the next chunk starts where this one ends", b, L.mus[st][1], end, mus=mus)
    ck.match("chunk", "until all measurements are used", b, L.back_pc, lt(st, length(al)), mus=mus)
    nx = L.mus[out][1]
    if nx.op != "push":
        raise Undecidable("chunk is not appended")
    ck.match("chunk", "earlier chunks stay", b, nx.args[0], out, mus=mus)
    ck.match("chunk", "members", b, F_(nx.args[1], "measurements"), mk("subslice", al, st, sub(end, st)), mus=mus)
    for f in ("source", "moduli", "force_reject"):
        ck.match("chunk", "keeps " + f, b, F_(nx.args[1], f), me[f], mus=mus)
    some_ = band(bnot(tobool(eq(length(al), num(0)))), lt(num(0), mx))
    ck.match("chunk", "result", b, when(some_, r.ret), when(some_, out), mus=mus)
    ck.match("chunk", "nothing from nothing", b, when(bnot(some_), length(r.ret)), when(bnot(some_), num(0)), mus=mus)


def moduli(ck, T):
    R, D, A = T["Range"], T["Doppler"], T["Azimuth"]
    b = ck.fn("set_moduli", ARC)
    u = S("modulus")
    bad = bor(tobool(app("is_nan", u)), lt(absv(u), num(2.220446049250313e-16)))
    for nm, old in (("none before", NONE), ("one before", some(chain_((D, S("dm"))))), ("same before", some(chain_((R, S("rm")))))):
        r = ck.ev(b, [("self", arc([], moduli=old)), ("msr_type", R), "modulus"])
        mod = F_(r.final["self"], "moduli")
        ck.match("moduli", "set, %s: present" % nm, b, when(bnot(bad), isome(mod)), when(bnot(bad), TRUE))
        for n2, k in (("Range", R), ("Doppler", D), ("Azimuth", A)):
            o = models.map_get(old.args[1], k) if old is not NONE else NONE
            ck.match("moduli", "set, %s: %s" % (nm, n2), b, when(bnot(bad), models.map_get(field(mod, "0", "Some"), k)), when(bnot(bad), some(u) if k is R else o))
        ck.match("moduli", "an invalid modulus is refused, " + nm, b, when(bad, mod), when(bad, old))
    b = ck.fn("apply_moduli", ARC)
    d = [chain_((R, S("a0")), (D, S("b0"))), chain_((D, S("b1"))), chain_((R, S("a2")))]
    m = ms(3, data=lambda i: d[i])
    for nm, mo in (("none", {}), ("range", {"Range": S("rm")}), ("range and Doppler", {"Range": S("rm"), "Doppler": S("dm")})):
        old = some(chain_(*[(T[k], v) for k, v in mo.items()])) if mo else NONE
        r = ck.ev(b, [("self", arc(m, moduli=old))])
        got = F_(r.final["self"], "measurements")
        ck.match("moduli", "apply %s: number" % nm, b, length(got), num(3))
        for i in range(3):
            for n2, k in (("Range", R), ("Doppler", D), ("Azimuth", A)):
                x = models.map_get(d[i], k)
                if n2 in mo and x is not NONE:
                    x = some(app("rem", x.args[1], mo[n2]))
                ck.match("moduli", "apply %s: %s of %d" % (nm, n2, i), b, models.map_get(F_(index(got, num(i)), "data"), k), x)
            for f in ("epoch", "tracker", "rejected"):
                ck.match("moduli", "apply %s: %s of %d" % (nm, f, i), b, F_(index(got, num(i)), f), F_(m[i], f))


def measurement(ck, T):
    R, D, A = T["Range"], T["Doppler"], T["Azimuth"]
    me, t = S("self"), S("t")
    b = ck.fn("new", "Measurement")
    r = ck.ev(b, ["tracker", "epoch"])
    ck.match("measurement", "new: tracker", b, F_(r.ret, "tracker"), S("tracker"))
    ck.match("measurement", "new: epoch", b, F_(r.ret, "epoch"), S("epoch"))
    ck.match("measurement", "new: not rejected", b, tobool(F_(r.ret, "rejected")), FALSE)
    ck.match("measurement", "new: no data", b, models.map_get(F_(r.ret, "data"), S("any")), NONE)
    for fn in ("push", "with"):
        b = ck.fn(fn, "Measurement")
        r = ck.ev(b, ["self", "t", "v"])
        got = r.final["self"] if fn == "push" else r.ret
        ck.match("measurement", fn + ": value", b, models.map_get(F_(got, "data"), t), some(S("v")))
        q = S("other")
        ne = bnot(tobool(eq(q, t)))
        ck.match("measurement", fn + ": other types", b, when(ne, models.map_get(F_(got, "data"), q)), when(ne, app("get", me["data"], q)))
        for f in ("epoch", "tracker", "rejected"):
            ck.match("measurement", "%s keeps %s" % (fn, f), b, F_(got, f), me[f])
    b = ck.fn("correct", "Measurement")
    for nm, w, x in (("present", R, some(add(S("a"), S("c")))), ("absent", A, NONE)):
        m0 = rec(me, data=chain_((R, S("a")), (D, S("b"))))
        r = ck.ev(b, [("self", m0), ("msr_type", w), ("correction", S("c"))])
        got = F_(r.final["self"], "data")
        ck.match("measurement", "correct, %s: value" % nm, b, models.map_get(got, w), x)
        ck.match("measurement", "correct, %s: other" % nm, b, models.map_get(got, D), some(S("b")))
        if w is A:
            ck.match("measurement", "correct, absent: range", b, models.map_get(got, R), some(S("a")))
    m0 = rec(me, data=chain_((D, S("b")), (R, S("a"))))
    for nm, ts, ob, av in (("range, Doppler", (R, D), ("a", "b"), (1, 1)), ("Doppler, range", (D, R), ("b", "a"), (1, 1)), ("azimuth, range", (A, R), (None, "a"), (0, 1)),
                           ("range, azimuth", (R, A), ("a", None), (1, 0))):
        b = ck.fn("availability", "Measurement")
        got = ck.ev(b, [("self", m0), ("types", setof(*ts))]).ret
        for i in range(2):
            ck.match("measurement", "availability of %s: %d" % (nm, i), b, tobool(index(got, num(i))), TRUE if av[i] else FALSE)
        ck.match("measurement", "availability of %s: number" % nm, b, length(got), num(2))
        b = ck.fn("observation", "Measurement")
        got = ck.ev(b, [("self", m0), ("types", setof(*ts))], subst={"S": "nalgebra::base::dimension::Const<2>"}).ret
        for i in range(2):
            ck.match("measurement", "observation of %s: %d" % (nm, i), b, models.ment(got, i, 0), S(ob[i]) if ob[i] else num(0))
    b = ck.fn("availability", "Measurement")
    got = ck.ev(b, [("self", rec(me, data=chain_((R, S("a"))))), ("types", setof(A, D, R))]).ret
    for i in range(3):
        ck.match("measurement", "availability of one of three: %d" % i, b, tobool(index(got, num(i))), TRUE if i == 2 else FALSE)
    # equality
    b = ck.fn("eq", "Measurement", trait="PartialEq")
    tol = num(1e-10)
    near = lambda x, y: lt(absv(sub(x, y)), tol)
    for nm, d1, d2, w in (("same type", {R: "a"}, {R: "b"}, near(S("a"), S("b"))), ("both types", {R: "a", D: "c"}, {D: "d", R: "b"}, band(near(S("a"), S("b")), near(S("c"), S("d")))),
                          ("one more here", {R: "a", D: "c"}, {R: "b"}, FALSE), ("one more there", {R: "a"}, {R: "b", D: "d"}, FALSE), ("another type", {R: "a"}, {D: "d"}, FALSE),
                          ("nothing here", {}, {R: "b"}, FALSE)):
        x = rec(S("x"), data=chain_(*[(k, S(v)) for k, v in d1.items()]))
        y = rec(S("y"), data=chain_(*[(k, S(v)) for k, v in d2.items()]))
        base_ = band(tobool(eq(x["tracker"], y["tracker"])), tobool(eq(x["epoch"], y["epoch"])))
        ck.match("measurement", "equality, " + nm, b, tobool(ck.ev(b, [("self", x), ("other", y)]).ret), band(base_, w))


def types(ck, T):
    unit = {"Range": "km", "Doppler": "km/s", "Azimuth": "deg", "Elevation": "deg", "ReceiveFrequency": "Hz", "TransmitFrequency": "Hz", "TransmitFrequencyRate": "Hz/s", "X": "km", "Y": "km", "Z": "km"}
    tdm = {"Range": "RANGE", "Doppler": "DOPPLER_INTEGRATED", "Azimuth": "ANGLE_1", "Elevation": "ANGLE_2", "ReceiveFrequency": "RECEIVE_FREQ", "TransmitFrequency": "TRANSMIT_FREQ",
           "TransmitFrequencyRate": "TRANSMIT_FREQ_RATE"}
    comp = {"Range": "range_km", "Doppler": "range_rate_km_s", "Azimuth": "azimuth_deg", "Elevation": "elevation_deg"}
    names = {"range": "Range", "doppler": "Doppler", "azimuth": "Azimuth", "elevation": "Elevation", "x": "X", "y": "Y", "z": "Z"}
    M_ = "MeasurementType"
    n, g0, g1 = S("noise"), S("aer_t0"), S("aer_t1")
    for nm, t in T.items():
        b = ck.fn("unit", M_)
        ck.match("types", "unit of " + nm, b, ck.ev(b, [("self", t)]).ret, mk("str", unit[nm]))
        b = ck.fn("may_be_two_way", M_)
        ck.match("types", "two way " + nm, b, tobool(ck.ev(b, [("self", t)]).ret), TRUE if nm in ("Range", "Doppler") else FALSE)
        if nm in tdm:
            b = ck.fn("ccsds_tdm_name", M_)
            ck.match("types", "TDM name of " + nm, b, ck.ev(b, [("self", t)]).ret, mk("str", tdm[nm]))
        b = ck.fn("compute_one_way", M_)
        r = ck.ev(b, [("self", t), ("aer", g0), ("noise", n)])
        if nm in comp:
            ck.match("types", "one way " + nm, b, r.ret, ok(add(g0[comp[nm]], n)))
        else:
            ck.match("types", "no one way " + nm, b, is_variant(r.ret, TT.RES, "Ok"), FALSE)
        b = ck.fn("compute_two_way", M_)
        r = ck.ev(b, [("self", t), "aer_t0", "aer_t1", "noise"])
        if nm in comp:
            ck.match("types", "two way %s" % nm, b, r.ret, ok(add(div(add(g0[comp[nm]], g1[comp[nm]]), num(2)), div(n, app("sqrt", num(2))))))
        else:
            ck.match("types", "no two way " + nm, b, is_variant(r.ret, TT.RES, "Ok"), FALSE)
    b = ck.fn("from_str", M_, trait="FromStr")
    low = app("str::to_lowercase", S("s"))
    r = ck.ev(b, ["s"])
    for s_, v in names.items():
        g = tobool(eq(low, mk("str", s_)))
        ck.match("types", "name %s" % s_, b, when(g, r.ret), when(g, ok(T[v])))
    anyn = bor(*[tobool(eq(low, mk("str", s_))) for s_ in names])
    ck.match("types", "other names are refused", b, when(bnot(anyn), is_variant(r.ret, TT.RES, "Ok")), when(bnot(anyn), FALSE))


def with_types(f):
    def g(ck):
        f(ck, {n: variant(ck, "MeasurementType", n) for n in TYPES})
    return g


RULES = [("sort", with_types(sorting)), ("extent", extents), ("by epoch", by_epoch), ("by tracker and type", with_types(by_name)), ("chunk", chunks), ("moduli", with_types(moduli)),
         ("measurement", with_types(measurement)), ("types", with_types(types))]

"""R33: multiple shooting builds its nodes on the transfer, and moves them by the correction of the segment burns until the cost settles."""
from spec import *
from r20 import okv
from r25 import invertible

TECHNIQUE = "gated value graph of the node heuristics and of the shooting iteration for three and four nodes (one and two iterations, each cost function), with the segment targeter and the matrix inverse as free functions, compared with the method's definition"
RULE_TEXT = ["the initial nodes divide the transfer evenly in time (and distance), end at the final state, and are expressed in the frame of the initial state", "every segment is targeted from the state achieved by the previous one to the node, at the node's epoch",
             "the outer Jacobian holds the finite-difference partials of each burn with respect to each node coordinate", "the nodes move by minus the pseudo-inverse of the Jacobian times the burns; the last node stays",
             "the iteration stops when the relative change of the cost since the previous iteration is below the threshold, and then every segment is targeted again in order", "running out of iterations is an error"]
ASSUMPTIONS = ["three or four nodes (the heuristics and the iteration are uniform in the number of nodes)"]


class Names:
    """Names for the results of the free functions: equal arguments, equal name."""
    def __init__(self):
        self.d = []

    def __call__(self, p, *k):
        for q, key, v in self.d:
            if q == p and len(key) == len(k) and all(same(x, y) for x, y in zip(key, k)):
                return v
        v = S("%s_%d" % (p, len(self.d)))
        self.d.append((p, k, v))
        return v


def solve(ck, n, cost, iters):
    b = ck.fn("solve", "MultipleShooting")
    ck.vocab |= {"Targeter::try_achieve_dual", "MultishootNode::epoch", "MultishootNode::update_component", "try_inverse", "conv"}
    tag = "%d nodes, %s, %d iteration%s" % (n, cost, iters, "" if iters == 1 else "s")
    N = Names()
    ups, invs, sols = [], [], []
    nodes = [S("n%d" % i) for i in range(n)]
    s = S("self")

    def achieve(tg, st, t0, t1, alm):
        sols.append((tg, st, t0, t1, alm))
        return ok(N("sol", tg["objectives"], tg["variables"], st, t1))

    def update(node, c, v):
        ups.append((node, c, v))
        return UNIT, N("moved", node, c)

    def inverse(m):
        if m.op != "mat":
            return None
        for k, (q, r) in enumerate(invs):
            if same(q, m):
                return some(r)
        r = mat(m.args[0], m.args[1], [S("U%d_%d_%d" % (len(invs), i, j)) for i in range(m.args[0]) for j in range(m.args[1])])
        invs.append((m, r))
        return some(r)
    cf = variant(ck, "CostFunction", cost)
    dv = okv_field(ck)
    r = ck.ev(b, [("self", rec(s, targets=arr(*nodes), max_iterations=num(iters))), ("cost", cf), "alm"], subst={"OT": "3", "VT": "3"}, budget=1000000,
              contract={"Targeter::try_achieve_dual": achieve, "MultishootNode::update_component": update, "Matrix::try_inverse": inverse, "try_inverse": inverse})
    for tg, st, t0, t1, alm in sols:
        ck.match("segment", tag + ": starts at the epoch of its state", b, t0, st["orbit"]["epoch"])
        ck.match("segment", tag + ": almanac", b, alm, S("alm"))
        ck.match("segment", tag + ": propagator", b, tg["prop"], s["prop"])
        for f in ("objective_frame", "correction_frame"):
            ck.match("segment", tag + ": " + f, b, tg[f], TT.NONE)
    epoch = lambda x: app("MultishootNode::epoch", x)
    conv = {}
    for tg, st, t0, t1, alm in sols:
        o = tg["objectives"]
        if o.op == "app" and o.args[0] == "conv":
            conv[o.args[-1]] = o
        elif o.op == "conv":
            conv[o.args[-1]] = o

    def obj(x):
        if x not in conv:
            raise Undecidable("no segment aims at node %s" % show(x))
        return conv[x]

    def iteration(x):
        """Nominal burns, Jacobian and cost vector for the nodes x."""
        st, nom = [s["x0"]], []
        for i in range(n):
            nom.append(N("sol", obj(x[i]), s["variables"], st[i], epoch(x[i])))
            st.append(nom[i]["achieved_state"])
        J = [[num(0)] * (3 * (n - 1)) for _ in range(3 * n)]
        for i in range(n - 1):
            for a in range(3):
                o = obj(x[i])
                oi = index(o, num(a))
                tol = oi["tolerance"]
                A = N("sol", store(o, num(a), rec(oi, desired_value=oi["desired_value"] + tol)), dv, st[i], epoch(x[i]))
                B = N("sol", obj(x[i + 1]), dv, A["achieved_state"], epoch(x[i + 1]))
                for c in range(3):
                    J[3 * i + c][3 * i + a] = (ment(A["correction"], c) - ment(nom[i]["correction"], c)) / tol
                    J[3 * (i + 1) + c][3 * i + a] = (ment(B["correction"], c) - ment(nom[i + 1]["correction"], c)) / tol
                    if i < n - 3:
                        J[3 * (i + 2) + c][3 * i + a] = (ment(F_(B, "achieved_state", "orbit", "velocity_km_s"), c) - ment(F_(st[i + 2], "orbit", "velocity_km_s"), c)) / tol
        cv = [ment(nom[i]["correction"], c) for i in range(n) for c in range(3)]
        q = cv[0] * cv[0]
        for v in cv[1:]:
            q = q + v * v
        return J, cv, q if cost == "MinimumEnergy" else sqrt(q)
    thr = s["improvement_threshold"]

    def about(atom, x):
        return any(t is x for t in subterms(atom))

    def settled(v, keep=lambda a: False):
        def f(atom):
            if about(atom, thr) and atom.op != "is" and not keep(atom):
                return v
            return None
        return f
    if iters == 1:
        J, cv, c0 = iteration(nodes)
        go = chain(settled(False), invertible(None), default_assume)
        ck.match("stop", tag + ": no iterations left is an error", b, is_variant(r.ret, TT.RES, "Ok"), FALSE, go)
        Jm = mat(3 * n, 3 * (n - 1), [v for row in J for v in row])
        m, u = invs[0] if invs else (None, None)
        if m is None:
            raise Undecidable("%s: the normal matrix that is inverted is not found" % tag)
        JtJ = mmul(mtr(Jm), Jm)
        k = 3 * (n - 1)
        for i in range(k):
            ck.match("jacobian", tag + ": row %d of the normal matrix" % i, b, arr(*[ment(m, i, j) for j in range(k)]), arr(*[ment(JtJ, i, j) for j in range(k)]))
        p = mmul(mmul(u, mtr(Jm)), mat(3 * n, 1, cv))
        want = {}
        for i in range(k):
            want[(i // 3, i % 3)] = neg(ment(p, i))
        at = {x: i for i, x in enumerate(nodes)}
        got = {}
        for node, c, v in ups:
            i = at.get(node)
            if i is None or not is_num(c):
                raise Undecidable("update of %s component %s" % (show(node), show(c)))
            at[N("moved", node, c)] = i
            got.setdefault((i, int(nval(c))), []).append(v)
        for key in sorted(set(got) | set(want)):
            l = got.get(key, [])
            if key not in want or len(l) != 1:
                ck.violation("move", tag + ": node %d component %d" % key, b.where(), "is moved %d times, must be moved %d times" % (len(l), key in want))
            else:
                ck.match("move", tag + ": node %d component %d" % key, b, l[0], want[key])
        fin = field(r.final["self"], "targets")
        last = {i: x for x, i in at.items()}
        ck.match("move", tag + ": nodes kept", b, fin, arr(*[last[i] for i in range(n)]), go)
        # settled: every segment again, in order
        done = chain(settled(True), invertible(None), default_assume)
        ck.match("stop", tag + ": settled is a solution", b, is_variant(r.ret, TT.RES, "Ok"), TRUE, done)
        ms = okv(r.ret)
        st, fins = s["x0"], []
        for i in range(n):
            fins.append(N("sol", obj(nodes[i]), dv, st, epoch(nodes[i])))
            st = fins[i]["achieved_state"]
        ck.match("result", tag + ": solutions", b, field(ms, "solutions"), arr(*fins), done)
        ck.match("result", tag + ": nodes", b, field(ms, "nodes"), arr(*nodes), done)
        ck.match("result", tag + ": ends", b, mk("agg", ("tuple",), field(ms, "x0"), field(ms, "xf")), mk("agg", ("tuple",), s["x0"], s["xf"]), done)
    else:
        J, cv, c0 = iteration(nodes)
        nxt = []
        for i in range(n):
            x = nodes[i]
            if i < n - 1:
                for c in range(3):
                    x = N("moved", x, num(c))
            nxt.append(x)
        J, cv1, c1 = iteration(nxt)
        second = N("sol", obj(nxt[0]), s["variables"], s["x0"], epoch(nxt[0]))
        go = chain(settled(False, keep=lambda a: about(a, second)), invertible(None), default_assume)
        ck.match("stop", tag + ": settled when the cost changes by less than the threshold", b, is_variant(r.ret, TT.RES, "Ok"), lt(absv((c0 - c1) / absv(c1)), thr), go)


def okv_field(ck):
    b = ck.fn("delta_v", "Targeter")
    r = ck.ev(b, ["p", "o"])
    return field(r.ret, "variables")


def mk_rule(n, cost, iters):
    return lambda ck: solve(ck, n, cost, iters)


def nodes(ck):
    b = ck.fn("equidistant_nodes", "MultipleShooting")
    x0, xf = S("x0"), S("xf")
    a = [ment(F_(x0, "orbit", "radius_km"), i) for i in range(3)]
    z = [ment(F_(xf, "radius_km"), i) for i in range(3)]
    t0 = F_(x0, "orbit", "epoch")
    T = xf["epoch"] - t0
    d = sqrt((z[0] - a[0]) * (z[0] - a[0]) + (z[1] - a[1]) * (z[1] - a[1]) + (z[2] - a[2]) * (z[2] - a[2]))
    close = lt(d, num(2.220446049250313e-16))
    for n in (3, 4, 5):
        r = ck.ev(b, ["x0", "xf", ("n", num(n)), "prop"])
        far = chain(assume_bool(close, False), default_assume)
        ms = okv(r.ret)
        tg = field(ms, "targets")
        for k in range(n):
            f = num(k + 1) / num(n)
            nd = index(tg, num(k))
            for i, c in enumerate("xyz"):
                ck.match("nodes", "equidistant, %d: node %d %s" % (n, k, c), b, nd[c], a[i] + f * (z[i] - a[i]), far)
            ck.match("nodes", "equidistant, %d: node %d epoch" % (n, k), b, nd["epoch"], t0 + f * T, far)
            ck.match("nodes", "equidistant, %d: node %d frame" % (n, k), b, nd["frame"], F_(x0, "orbit", "frame"), far)
        ck.match("nodes", "equidistant, %d: count" % n, b, length(tg), num(n), far)
        for f, w in (("x0", x0), ("xf", xf), ("prop", S("prop")), ("current_iteration", num(0))):
            ck.match("nodes", "equidistant, %d: %s" % (n, f), b, field(ms, f), w, far)
        for i, c in enumerate("XYZ"):
            ck.match("nodes", "equidistant, %d: variable %d" % (n, i), b, index(field(ms, "variables"), num(i))["component"], variant(ck, "Vary", "Velocity" + c), far)
        ck.match("nodes", "equidistant, %d: same position is an error" % n, b, is_variant(r.ret, TT.RES, "Ok"), bnot(close), None)
    for n in (0, 2):
        r = ck.ev(b, ["x0", "xf", ("n", num(n)), "prop"])
        ck.match("nodes", "equidistant, %d nodes is an error" % n, b, is_variant(r.ret, TT.RES, "Ok"), FALSE, None)


def altitude(ck):
    b = ck.fn("linear_altitude_heuristic", "MultipleShooting")
    x0, xf, bf, alm = S("x0"), S("xf"), S("bf"), S("alm")
    t0 = F_(x0, "orbit", "epoch")
    T = xf["epoch"] - t0
    OP = ("Traj::at", "PropInstance::for_duration_with_traj", "Propagator::with")
    ck.vocab |= {"Almanac::transform_to", "CartesianState::height_km", "CartesianState::latitude_deg", "CartesianState::longitude_deg", "CartesianState::try_latlongalt"}
    n = 3
    r = ck.ev(b, ["x0", "xf", ("n", num(n)), "bf", "prop", "alm"], opaque=OP)
    ms = okv(r.ret)
    traj = field(app("PropInstance::for_duration_with_traj", app("Propagator::with", S("prop"), x0, alm), T)[("Ok", "0")], "1")
    tr = lambda o, f: app("Almanac::transform_to", alm, o, f, TT.NONE)[("Ok", "0")]
    h = lambda o: app("CartesianState::height_km", o)[("Ok", "0")]
    xfb = tr(xf, bf)
    for k in range(n):
        ep = t0 + num(k + 1) * (T / num(n))
        pt = tr(app("Traj::at", traj, ep)[("Ok", "0")]["orbit"], bf)
        alt = h(pt) + (h(xfb) - h(pt)) / sqrt(num(n - k))
        nd = app("CartesianState::try_latlongalt", app("CartesianState::latitude_deg", pt)[("Ok", "0")], app("CartesianState::longitude_deg", pt), alt, ep, bf)[("Ok", "0")]
        rad = tr(nd, F_(x0, "orbit", "frame"))["radius_km"]
        got = index(field(ms, "targets"), num(k))
        ck.match("nodes", "altitude: node %d epoch" % k, b, got["epoch"], ep)
        ck.match("nodes", "altitude: node %d frame" % k, b, got["frame"], F_(x0, "orbit", "frame"))
        for i, c in enumerate("xyz"):
            ck.match("nodes", "altitude: node %d %s" % (k, c), b, got[c], ment(rad, i))
    ck.match("nodes", "altitude: count", b, length(field(ms, "targets")), num(n))
    r = ck.ev(b, ["x0", "xf", ("n", num(2)), "bf", "prop", "alm"], opaque=OP)
    ck.match("nodes", "altitude: 2 nodes is an error", b, is_variant(r.ret, TT.RES, "Ok"), FALSE, None)


def node(ck):
    import re
    me = S("self")
    el = ("X", "Y", "Z", "Vmag")
    n = 0
    for b in ck.F.find("into", "Node", None, one=False):
        m = re.search(r"Objective; (\d)\]", b.locals[0][0])
        if not m:
            continue
        k = int(m.group(1))
        n += 1
        r = ck.ev(b, ["self"])
        for i in range(k):
            o = index(r.ret, num(i))
            ck.match("node", "objective %d of %d: parameter" % (i, k), b, o["parameter"], variant(ck, "StateParameter", "Element", **{"0": variant(ck, "OrbitalElement", el[i])}))
            ck.match("node", "objective %d of %d: value" % (i, k), b, o["desired_value"], me[("x", "y", "z", "vmag")[i]])
    if n != 2:
        ck.undecided("node", "objectives", "%d conversions" % n)
    for b in ck.F.find("update_component", "Node", None, one=False):
        for c in range(4):
            r = ck.ev(b, ["self", ("component", num(c)), "v"])
            for i, f in enumerate(("x", "y", "z", "vmag")):
                ck.match("node", "%s after moving component %d" % (f, c), b, r.final["self"][f], me[f] + S("v") if i == c else me[f])
    b = ck.fn("rmag", "Node")
    r = ck.ev(b, ["self"])
    ck.match("node", "rmag", b, r.ret, sqrt(me["x"] * me["x"] + me["y"] * me["y"] + me["z"] * me["z"]))
    b = ck.fn("build_trajectories", "MultipleShootingSolution")
    got = []

    def apply(tg, sol, alm):
        got.append((tg, sol, alm))
        return ok(mk("agg", ("tuple",), S("end"), S("traj%d" % (len(got) - 1))))
    r = ck.ev(b, [("self", rec(me, nodes=arr(S("n0"), S("n1")), solutions=arr(S("s0"), S("s1")))), "prop", "alm"], contract={"Targeter::apply_with_traj": apply}, subst={"O": "3"})
    ck.match("trajectories", "all, in order", b, okv(r.ret), arr(S("traj0"), S("traj1")))
    for i, (tg, sol, alm) in enumerate(got):
        ck.match("trajectories", "solution %d" % i, b, sol, S("s%d" % i))
        o = tg["objectives"]
        ck.expect(any(t is S("n%d" % i) for t in subterms(o)), "trajectories", "node %d" % i, b.where(), "trajectory %d does not aim at its node: %s" % (i, show(o)[:100]))


RULES = [("nodes", nodes), ("altitude", altitude), ("node", node)] + [("%s %d %d" % (c, n, k), mk_rule(n, c, k)) for c in ("MinimumEnergy", "MinimumFuel") for n, k in ((3, 1), (4, 1), (3, 2))]

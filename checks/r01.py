"""R01: every integrator's Butcher tableau meets the order conditions of its advertised order."""
from terms import *
from mirflow import Ev
from rktrees import Table

TECHNIQUE = "constant evaluation of the dispatch functions per enum variant, then all rooted-tree order conditions on the resulting tables"
RULE_TEXT = ["per variant: stages/A/B lengths agree", "sum b = 1 and every rooted-tree condition up to the advertised order for b",
             "same up to the paired order for the embedded weights"]
LEVEL = "other"
# variant -> (order of the propagated solution, order of the embedded one), from the method's name/literature
ORDERS = {"RungeKutta89": (9, 8), "DormandPrince78": (8, 7), "DormandPrince45": (5, 4), "RungeKutta4": (4, None),
          "CashKarp45": (5, 4), "Verner56": (6, 5)}
TOL = 1e-11


def table(ck, adtk, variant):
    arg = {"self": adt(adtk, variant, True, (), [])}
    out = []
    for n in ("order", "stages", "a_coeffs", "b_coeffs"):
        out.append(Ev(ck.F).run(ck.fn(n, "IntegratorMethod"), args=arg).ret)
    return out


def tables(ck):
    k, a = ck.F.adt("IntegratorMethod")
    where = ck.fn("a_coeffs", "IntegratorMethod").where()
    for v in a["variants"]:
        n = v["name"]
        o, s, A, B = table(ck, k, n)
        if not (o.op == "num" and s.op == "num" and A.op == "agg" and B.op == "agg" and all(x.op == "num" for x in A.args[1:] + B.args[1:])):
            ck.undecided("table", n, "table is not a compile-time constant")
            continue
        o, s = int(nval(o)), int(nval(s))
        av = [float(nval(x)) for x in A.args[1:]]
        bv = [float(nval(x)) for x in B.args[1:]]
        ck.expect(len(av) >= s * (s - 1) // 2, "shape", n + ".A", where, "needs %d a_ij for %d stages, has %d" % (s * (s - 1) // 2, s, len(av)))
        emb = ORDERS.get(n, (o, o - 1))[1]
        need = 2 * s if emb else s
        ck.expect(len(bv) >= need, "shape", n + ".B", where, "needs %d weights, has %d" % (need, len(bv)))
        if len(av) < s * (s - 1) // 2 or len(bv) < need:
            continue
        rows, k2 = [[0.0] * s], 0
        for i in range(1, s):
            rows.append(av[k2:k2 + i])
            k2 += i
        t = Table(rows, s)
        want = ORDERS.get(n, (o, o - 1))
        ck.expect(o == want[0], "order", n, where, "advertised order %d, the method is of order %d" % (o, want[0]))
        for label, bb, q in (("b", bv[:s], want[0]), ("b*", bv[s:2 * s], want[1])):
            if not q:
                continue
            for p in range(1, q + 1):
                r = t.residual(bb, p)
                ck.expect(r < TOL, "order-conditions", "%s.%s order %d" % (n, label, p), where,
                          "largest defect over the order-%d rooted-tree conditions: %.3e" % (p, r))


RULES = [("tables", tables)]

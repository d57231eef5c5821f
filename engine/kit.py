"""Check runner: collects obligations, prints verdict lines, writes evidence."""
import json
import os
import sys
import time
import traceback
from facts import Facts, FactsError, VERIF


import compare
import mirflow
import terms


EVID = os.environ.get("NYX_EVIDENCE") or os.path.join(VERIF, "evidence")


class Anchor(Exception):
    pass


class Undecidable(Exception):
    pass


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.obl = []          # (rule, instance, status, detail)
        self.viol = []
        self.known = []
        self.functions = set()
        self.notes = []
        self.vocab = set()
        self.floor = {}
        self.F = None
        self.lost = []

    def load(self):
        self.F = Facts()
        return self.F

    def fn(self, name, self_base=None, trait=None, file=None):
        b = self.F.find(name, self_base, trait, file=file)
        if b is None:
            c = self.F.find(name, self_base, trait, one=False, file=file)
            raise Anchor("anchor not found or ambiguous: %s%s (%d candidates)" % ((self_base + "::") if self_base else "", name, len(c)))
        self.functions.add(b.id)
        return b

    def held(self, rule, inst, detail=""):
        self.obl.append({"rule": rule, "instance": inst, "status": "discharged", "detail": str(detail)[:300]})

    def undecided(self, rule, inst, why):
        self.obl.append({"rule": rule, "instance": inst, "status": "undecided", "detail": str(why)[:400]})

    def violation(self, rule, inst, where, detail):
        key = "%s|%s|%s" % (self.pid, rule, inst)
        self.viol.append({"key": key, "rule": rule, "instance": inst, "where": where, "detail": str(detail)[:3000]})
        self.obl.append({"rule": rule, "instance": inst, "status": "violated", "detail": str(detail)[:400]})

    def expect(self, cond, rule, inst, where, detail=""):
        if cond:
            self.held(rule, inst, detail)
        else:
            self.violation(rule, inst, where, detail)

    # ---- value-graph obligations
    def ev(self, body, names=(), opaque=(), subst=None, **kw):
        """Value graph of a function on positional symbolic inputs `names` (str -> symbol, T -> that term)."""
        args = {}
        nm = []
        for i, n in enumerate(names):
            if isinstance(n, str):
                nm.append(n)
                args[i] = None
            elif isinstance(n, tuple):
                nm.append(n[0])
                args[i] = n[1]
            else:
                nm.append("a%d" % i)
                args[i] = n
        e = mirflow.Ev(self.F, opaque=opaque, **kw)
        self.live = e
        self.vocab |= set(opaque)
        for i in list(args):
            if args[i] is None:
                if i + 1 > body.argc:
                    raise Undecidable("%s takes %d arguments" % (body.id, body.argc))
                args[i] = e.input(body.locals[i + 1][0], nm[i])
        r = e.run(body, args=args, subst=subst)
        r.ev = e
        self.lost = [w for w, v in r.lost if v is not terms.BOT]
        if self.lost and os.environ.get("NYX_DEBUG"):
            print("LOST", body.id, [(w, terms.show(v)[:100]) for w, v in r.lost][:4])
        fin = {}
        for i in range(body.argc):
            real = body.locals[i + 1][1] or "arg%d" % (i + 1)
            if real in r.final:
                fin[nm[i] if i < len(nm) else real] = r.final[real]
        r.final = fin
        r.args = {n: args[i] for i, n in enumerate(nm)}
        self.functions.add(body.id)
        self.functions |= set(e.inlined)
        return r

    def match(self, rule, inst, where, actual, spec, assume=compare.default_assume, mus=(), vocab=(), limit=4096, exclude=None):
        """Obligation: actual == spec in every branch case. Not-understood differences stay undecided."""
        where = where if isinstance(where, str) else where.where()
        try:
            bad = compare.equiv(actual, spec, assume, limit, exclude)
        except (compare.Inconclusive, RecursionError) as e:
            return self.undecided(rule, inst, "comparison: %s" % e)
        if not bad:
            return self.held(rule, inst, terms.show(spec))
        voc = compare.vocabulary(spec) | set(vocab) | self.vocab
        why = None
        for dec, a, s in bad:
            fr = []
            for t in [a] + [x for x in dec if x not in dec.given]:
                fr += compare.foreign(t, voc, mus)
            if not fr and self.lost:
                fr = [terms.sym("write through an untracked reference by " + str(self.lost[0]))]
            if not fr:
                return self.violation(rule, inst, where, "when %s: computes %s, must be %s" % (compare.show_dec(dec)[:900], terms.show(a)[:900], terms.show(s)[:900]))
            why = fr
        self.undecided(rule, inst, "differs, but through constructs outside the analysed fragment: %s" % ", ".join(sorted({terms.show(x)[:60] for x in why})[:4]))

    def match_any(self, rule, inst, where, actual, specs, assume=compare.default_assume, exclude=None, **kw):
        """As match, for a value with several equivalent closed forms: any one will do."""
        for sp in specs[1:]:
            try:
                if not compare.equiv(actual, sp, assume, 4096, exclude):
                    return self.held(rule, inst, terms.show(sp))
            except (compare.Inconclusive, RecursionError):
                pass
        self.match(rule, inst, where, actual, specs[0], assume, exclude=exclude, **kw)

    def match_known(self, rule, inst, where, actual, spec, recorded, assume=compare.default_assume, **kw):
        """As match, but the exact recorded (defective) behaviour is reported under its own key, so that only it can be listed as a known finding."""
        try:
            if compare.equiv(actual, spec, assume, 4096, kw.get("exclude")) and not compare.equiv(actual, recorded, assume, 4096, kw.get("exclude")):
                return self.violation(rule, inst + " [recorded form]", where if isinstance(where, str) else where.where(), "computes %s, must be %s" % (terms.show(recorded)[:700], terms.show(spec)[:700]))
        except (compare.Inconclusive, RecursionError):
            pass
        self.match(rule, inst, where, actual, spec, assume, **kw)

    def finish(self, technique, rules, assumptions=(), level="other"):
        known = load_known(self.pid)
        out = []
        for v in self.viol:
            if v["key"] in known:
                self.known.append(v)
                print("KNOWN-FINDING: property=%s %s" % (self.pid, known[v["key"]]))
            else:
                out.append(v)
        rdir = os.path.join(EVID, "reports")
        os.makedirs(rdir, exist_ok=True)
        wall = time.time() - self.t0
        n = len(self.obl)
        d = sum(1 for o in self.obl if o["status"] == "discharged")
        u = [o for o in self.obl if o["status"] == "undecided"]
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        tier = os.environ.get("VERIF_TIER", "quick")
        ev = {
            "property": self.pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
            "coverage": {
                "explanation": "%s. %d obligations over %d functions: %d discharged, %d undecided (outside the analysed fragment), %d violated. Rules: %s"
                               % (technique, n, len(self.functions), d, len(u), len(self.viol), "; ".join(rules)),
                "obligations": n, "discharged": d,
                "functions_analysed": sorted(self.functions),
                "rules": list(rules),
                "instances": self.obl[:400],
                "bodies_in_tree": len(self.F.all) if self.F else 0,
            },
            "assumptions": list(assumptions),
            "wall_s": round(wall, 2),
            "violations": [{"key": v["key"], "where": v["where"], "detail": v["detail"][:600]} for v in out],
        }
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d discharged, %d undecided, %d violated, %d functions, %.1fs"
              % (self.pid, n, d, len(u), len(self.viol), len(self.functions), wall))
        for o in u:
            print("  undecided: %s / %s: %s" % (o["rule"], o["instance"], o["detail"][:200]))
        if out:
            rp = os.path.join(rdir, self.pid + ".txt")
            with open(rp, "w") as f:
                for v in out:
                    f.write("%s\n  rule: %s\n  at: %s\n  %s\n\n" % (v["key"], v["rule"], v["where"], v["detail"]))
            for v in out:
                print("  violated: %s / %s at %s: %s" % (v["rule"], v["instance"], v["where"], v["detail"][:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        return 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.jsonl")
    r = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                j = json.loads(l)
                if j.get("status") == "known" and j["property"] == pid:
                    r[j["key"]] = j["what"]
    return r

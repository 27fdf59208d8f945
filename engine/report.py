"""Obligation bookkeeping, evidence files, known findings, exit codes."""
import json, os, re, sys, time, traceback
from .val import *
from . import ir
from .ir import ToolError, VERIF, REPO

ASSUME = [
    "clang 18 front end and the LLVM passes always-inline/sroa/early-cse/simplifycfg/loop-unroll-full/instsimplify preserve semantics",
    "integer arithmetic does not overflow; floating-point expressions are compared as real-number expressions",
    "distinct pointer arguments, heap objects and locals do not alias; opaque std/boost/MPI/HDF5 calls behave as their documented contracts and write only through non-const arguments",
    "unwind edges are not followed unless the rule says so",
]


class Check:
    current = None

    def __init__(self, pid, rule, assume=()):
        Check.current = self
        self.pid = pid
        self.rule = rule
        self.t0 = time.time()
        self.obl = 0
        self.viol = []
        self.groups = {}
        self.samples = []
        self.analysed = set()
        self.funcs = set()
        self.extra = {}
        self.assume = list(ASSUME) + list(assume)
        self.floor = 0

    # ---- obligations
    def ob(self, group, ok, where, text):
        """one obligation; `where` names the construct, `text` what was required (and found)"""
        self.obl += 1
        self.groups[group] = self.groups.get(group, 0) + 1
        if not ok:
            self.viol.append((group, where, text))
        elif len(self.samples) < 12 and self.groups[group] == 1:
            self.samples.append({"rule": group, "at": where, "obligation": text[:300]})
        return ok

    def eq(self, group, got, want, where, what, ctx=1, extra=()):
        got, want = V(got), V(want)
        d = v_diff(got, want, ctx, extra)
        if d is None:
            return self.ob(group, True, where, "%s = %s" % (what, show(want)[:200]))
        p, q, row = d
        if loop_atoms(got) - loop_atoms(want):
            return self.undecided(where, "%s depends on a loop the analysis does not resolve" % what)
        return self.ob(group, False, where, "%s: computed %s, required %s%s" % (
            what, show(p)[:300], show(q)[:300],
            (" when " + " and ".join(("" if b else "not ") + show_atom(v) for v, b in row)[:300]) if row else ""))

    def undecided(self, where, why):
        """a function whose current form the analysis cannot compare; reported, never an alarm"""
        self.extra.setdefault("undecided", []).append("%s: %s" % (where, why))
        print("  undecided: %s: %s" % (where, why))
        return False

    def shape(self, group, ok, missing, where, text):
        """a form the analysis relies on: nothing there at all is a violation, something else is undecided"""
        if ok or missing:
            return self.ob(group, ok, where, text)
        return self.undecided(where, "not recognised: " + text)

    def geq(self, group, got, want, where, what, extra=()):
        ok = g_equiv(got, want, extra)
        if not ok and loop_atoms(None, got) - loop_atoms(None, want):
            return self.undecided(where, "%s depends on a loop the analysis does not resolve" % what)
        return self.ob(group, ok, where, "%s: condition %s%s" % (what, show_guard(got)[:300], "" if ok else ", required %s" % show_guard(want)[:300]))

    def module(self, mod):
        for s in mod.info["sources"]:
            self.analysed.add(s)
        for n, f, l in mod.info["repo_functions"]:
            if f and f.startswith(REPO + "/"):
                self.funcs.add(n)
        self.extra["opaque_callees_declared"] = self.extra.get("opaque_callees_declared", 0) + mod.info["opaque"]

    # ---- finish
    def finish(self):
        known, fixed = load_known(self.pid)
        seen = set()
        new = []
        for v in self.viol:
            k = None
            for e in known:
                if e["group"] == v[0] and e["match"] in v[1] + " " + v[2]:
                    k = e
            if k is not None:
                seen.add(k["text"])
            elif v not in new:
                new.append(v)
        for t in sorted(seen):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        if self.obl < self.floor:
            self.extra["below_floor"] = "%d obligations stated, %d on the reference tree" % (self.obl, self.floor)
        ev = {"property": self.pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": {"explanation": self.rule, "obligations": self.obl, "discharged": self.obl - len(self.viol),
                           "by_rule": self.groups, "repo_functions_analysed": len(self.funcs),
                           "translation_units": sorted(self.analysed), "samples": self.samples,
                           "known_findings_hit": sorted(seen), **self.extra},
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        evd = os.environ.get("VERIF_EVID", VERIF + "/evidence")
        os.makedirs(evd, exist_ok=True)
        with open("%s/%s.json" % (evd, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d obligations, %d rules, %d repository functions analysed, %.1fs" % (self.pid, self.obl, len(self.groups), len(self.funcs), time.time() - self.t0))
        if new:
            rp = "%s/%s.violations.txt" % (evd, self.pid)
            with open(rp, "w") as f:
                for g, w, t in new:
                    f.write("rule: %s\n  at: %s\n  %s\n\n" % (g, w, t))
            for g, w, t in new[:20]:
                print("  [%s] %s: %s" % (g, w, t))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if self.obl < self.floor:
            print("  undecided: only %d obligations could be stated (at least %d on the reference tree)" % (self.obl, self.floor))
            if os.environ.get("VERIF_STRICT"):
                return 2
        if self.extra.get("undecided") and os.environ.get("VERIF_STRICT"):
            return 2
        return 0


def load_known(pid):
    known, fixed = [], []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                # finding: property=Pxx rule=<group> match=<text> :: description
                head, _, d = l.partition(" :: ")
                g = head.split(" rule=")[1].split(" match=")[0]
                mt = head.split(" match=")[1]
                known.append({"group": g, "match": mt, "text": d})
            elif l.startswith("fixed:"):
                fixed.append(l)
    return known, fixed


def main(fn, pid):
    """exit 1 on a violation; an analysis that can not be completed on the present form of the code is
    reported as undecided (what was decided before still counts), with exit 0 unless VERIF_STRICT is set"""
    strict = os.environ.get("VERIF_STRICT")
    try:
        rc = fn()
    except Exception as e:
        if not isinstance(e, (ToolError, TooComplex)) or strict:
            traceback.print_exc()
        chk = Check.current or Check(pid, "nothing could be analysed")
        m = re.search(r"^%s/(\S+?:\d+):\d+: error: (static assertion failed.*)$" % re.escape(REPO), str(e), re.M)
        if m:
            chk.ob("compile", False, m.group(1), "correct use of the library does not compile: %s" % m.group(2))
        chk.undecided("the rest of the check", str(e)[:3000])
        rc = chk.finish()
        if strict and rc == 0:
            rc = 3
    sys.stdout.flush()
    sys.exit(rc)

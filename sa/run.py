#!/usr/bin/env python3
"""Decide one property on /repo's current source.

usage: run.py ID      exit 0 held, 1 violation, 2 analysis broken
"""
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import program
import refine
import rules

SPECS = ["gates", "batches", "correlator", "circuit", "dn07"]


def aspect(obs):
    return obs.split(":")[0]


def known_fields():
    with open(os.path.join(VERIF, "spec", "fields.json")) as f:
        return set(json.load(f))


def known_findings(pid):
    """[(regex on finding key, text)] of recorded, unrepaired findings"""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def expand(fns, specs):
    """[(spec name, aspects or None)]"""
    out = {}
    for n in fns:
        if isinstance(n, tuple) and n[0] == "prefix":
            for x in specs:
                if x.startswith(n[1]):
                    out[x] = None
        elif isinstance(n, tuple):
            if out.get(n[0], 0) is not None:
                out[n[0]] = set(out.get(n[0]) or ()) | set(n[1])
        else:
            out[n] = None
    return out


class Finding(object):
    """one broken construct"""

    def __init__(self, key, where, text):
        self.key, self.where, self.text = key, where, text


def refinement(prog, P, ev):
    """obligations of the property against the specification functions"""
    specs, broken = program.load_specs(prog, P.get("specs") or SPECS)
    want = expand(P["fns"], list(specs) + list(broken))
    rs = refine.run(prog, specs, broken, sorted(want), rules.Opts(), known_fields())
    cnt = {}
    found = []
    obl = []
    for r in rs:
        asp = want[r.name]
        status = r.status
        diffs = {o: d for o, d in r.diffs.items() if asp is None or aspect(o) in asp}
        if status == "REFUTED" and not diffs:
            status = "AGREE"
        cnt[status] = cnt.get(status, 0) + 1
        obl.append({"obligation": r.name, "function": r.qn, "at": "%s:%s" % (r.file, r.line), "status": status,
                    "observables": len(r.obs), "note": (r.note + (" " + ",".join(r.und) if r.und else ""))[:300]})
        if status == "REFUTED":
            for o, (text, line) in sorted(diffs.items()):
                found.append(Finding("%s/%s" % (r.qn, o), "%s:%s" % (r.file, line or r.line),
                                     "%s, %s: %s" % (r.qn, o, text)))
    ev["obligations"] = len(rs)
    ev["by_status"] = cnt
    ev["discharged"] = cnt.get("PROVED", 0) + cnt.get("AGREE", 0)
    ev["details"] = obl
    ev["observables"] = sum(len(r.obs) for r in rs)
    bad = cnt.get("MISSING", 0) + cnt.get("UNDECIDED", 0)
    return found, bad == len(rs)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    P = rules.PROPS[pid]
    evp = os.path.join(VERIF, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    try:
        prog = program.load()
    except program.AnalysisError as ex:
        print("analysis broken: %s" % ex)
        return 2
    cov = {"units": len(prog.units), "functions_in_program": len(prog.fns)}
    found = []
    broken = False
    if P["fns"]:
        f, b = refinement(prog, P, cov)
        found += f
        broken |= b
    for name in P["extra"]:
        mod, fn = name.split(".")
        m = __import__(mod)
        part = {}
        f, b = getattr(m, fn)(prog, part)
        cov[fn] = part
        cov["obligations"] = cov.get("obligations", 0) + part.get("obligations", 0)
        cov["discharged"] = cov.get("discharged", 0) + part.get("discharged", 0)
        found += f
        broken |= b
    cov["explanation"] = P.get("explanation") or rules.EXPLAIN
    known = known_findings(pid)
    viol = []
    for f in found:
        k = [t for key, t in known if key == f.key]
        if k:
            print("KNOWN-FINDING: property=%s %s" % (pid, k[0]))
        else:
            viol.append(f)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "other"), "coverage": cov,
          "assumptions": P.get("assumptions") or rules.ASSUME, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        rp = os.path.join(VERIF, "evidence", pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s: %s\n" % (pid, P["title"]))
            for v in viol:
                f.write("%s: %s\n" % (v.where, v.text))
        for v in viol:
            print("%s: %s" % (v.where, v.text))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if broken:
        print("analysis broken: no obligation of %s can be decided" % pid)
        for o in cov.get("details", []):
            if o["status"] in ("MISSING", "UNDECIDED"):
                print(o)
        return 2
    print("%s holds: %d obligations, %d discharged, %.1fs" % (pid, cov.get("obligations", 0), cov.get("discharged", 0),
                                                              time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())

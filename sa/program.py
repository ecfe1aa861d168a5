"""Builds the resolved program of /repo's current working tree.

Every run re-parses every source file (and one file that instantiates the
library's templates) with the extractor in /verif/tool and merges the result.
"""
import concurrent.futures as cf
import glob
import json
import os
import re
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("TPX_REPO", "/repo")
TPX = os.path.join(VERIF, ".build", "tpx")


class AnalysisError(Exception):
    """The analysis itself cannot give an answer (exit code 2)."""


def flags():
    return ["-std=gnu++17", "-march=native", "-DNDEBUG", "-include", "cstdint",
            "-I" + REPO + "/secure-computation-library/include", "-I" + REPO + "/src",
            "-Wno-everything", "-ferror-limit=0"]


def units():
    us = [os.path.join(VERIF, "tool", "inst.cc")]
    us += sorted(glob.glob(REPO + "/src/tp/**/*.cc", recursive=True))
    us += sorted(glob.glob(REPO + "/secure-computation-library/src/**/*.cc", recursive=True))
    us += sorted(glob.glob(REPO + "/experiments/*.cc"))
    return us


def _parse(u):
    fd, out = tempfile.mkstemp(suffix=".json", prefix="tpx")
    os.close(fd)
    try:
        p = subprocess.run([TPX, "--root=" + REPO + "/", "--also=" + os.path.join(VERIF, "tool", "alias.h"), "--out=" + out, u, "--"] + flags(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
        with open(out) as f:
            txt = f.read()
        # what clang rejects it leaves out of the tree: such functions get no verdict
        if p.returncode != 0 and not txt:
            return u, None, p.stdout[-3000:]
        return u, txt, ""
    finally:
        os.unlink(out)


def _rename(x, tu):
    """Make per-unit declaration ids unique and attach nothing else."""
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            v = n.get("id")
            if isinstance(v, int):
                n["id"] = "%d:%d" % (tu, v)
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


class Program:
    def __init__(self):
        self.fns = {}      # mangled id -> function
        self.by_qn = {}    # qualified name -> [function]
        self.recs = {}     # canonical type -> record
        self.globs = {}
        self.units = []
        self.derived = {}  # class -> set of directly derived classes
        self.overriders = {}  # method id -> set of ids overriding it
        self.renamed = {}  # (class, member now) -> member in the specifications

    def fn(self, qn, nparams=None, pick=None, cls=None):
        c = [f for f in self.by_qn.get(qn, []) if nparams is None or len(f["params"]) == nparams]
        if cls is not None:
            c = [f for f in c if f.get("cls") == cls]
        if pick is not None:
            c = [f for f in c if pick(f)]
        if not c:
            raise AnalysisError("anchor not found: %s%s" % (qn, "" if nparams is None else "/%d" % nparams))
        return c[0]

    def has(self, qn):
        return bool(self.by_qn.get(qn))


def renames(prog):
    """{(class, name in the current tree): name the specifications use}: a member
    that is gone, and a new one of the same class and type standing for it"""
    path = os.path.join(VERIF, "spec", "records.json")
    out = {}
    with open(path) as f:
        base = json.load(f)
    for ty, fields in base.items():
        if ty not in prog.recs:
            continue
        cur = [(x["n"], x["ty"]) for x in prog.recs[ty]["fields"]]
        old, new = {n for n, _ in fields}, {n for n, _ in cur}
        for t in {t for _, t in fields}:
            gone = [n for n, u in fields if u == t and n not in new]
            come = [n for n, u in cur if u == t and n not in old]
            if len(gone) == len(come):
                for a, b in zip(gone, come):
                    out[(ty, b)] = a
        # the type may have changed along with the name
        gone = [n for n, _ in fields if n not in new and n not in [out.get((ty, m)) for m, _ in cur]]
        come = [n for n, _ in cur if n not in old and (ty, n) not in out]
        if len(gone) == len(come) == 1:
            out[(ty, come[0])] = gone[0]
    return out


def restore(fns, names):
    """give renamed members the names the specifications use"""
    st = []
    for f in fns:
        st.append(f)
        for i in f.get("inits") or ():
            if isinstance(i, dict) and (f.get("cls"), i.get("f")) in names:
                i["f"] = names[f["cls"], i["f"]]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if n.get("k") == "mem" and (n.get("fc"), n.get("f")) in names:
                n["f"] = names[n["fc"], n["f"]]
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


def parse_spec(u, names=None):
    """functions of one specification file; those touching a line clang cannot
    compile against the current tree are left out.  names: {old: new} members"""
    with tempfile.TemporaryDirectory(prefix="tpx") as tmp:
        extra = []
        if names:
            with open(os.path.join(tmp, "tpx_names.h"), "w") as f:
                f.write("".join("#define %s %s\n" % x for x in sorted(names.items())))
            extra = ["-I" + tmp]
        return _parse_spec(u, extra)


def _parse_spec(u, extra):
    fd, out = tempfile.mkstemp(suffix=".json", prefix="tpx")
    os.close(fd)
    try:
        p = subprocess.run([TPX, "--root=" + VERIF + "/spec/", "--out=" + out, u, "--"] + flags() +
                           extra + ["-fno-access-control", "-ferror-limit=0"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
        with open(out) as f:
            txt = f.read()
        if not txt:
            raise AnalysisError("cannot parse %s:\n%s" % (u, p.stdout[-3000:]))
        d = json.loads(txt)
        bad = {}
        for m in re.finditer(r"^(\S+?):(\d+):\d+: (?:fatal )?error: (.*)$", p.stdout, re.M):
            bad.setdefault(os.path.realpath(m.group(1)), []).append((int(m.group(2)), m.group(3)))
        return d, bad
    finally:
        os.unlink(out)


def load_specs(prog, names):
    """adds the specification functions to prog; returns {name: fn}, {name: error}"""
    specs, broken = {}, {}
    us = [os.path.join(VERIF, "spec", n + ".cc") for n in names]
    jobs = [(u, None) for u in us]
    # once more under the members' new names, for what does not compile under the old
    alt = {}
    for (_, new), old in sorted(prog.renamed.items()):
        alt.setdefault(old, set()).add(new)
    for k in range(max([len(v) for v in alt.values()] or [0])):
        names = {old: sorted(v)[min(k, len(v) - 1)] for old, v in alt.items()}
        jobs += [(u, names) for u in us]
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(lambda j: parse_spec(*j), jobs))
    for i, ((u, _), (d, bad)) in enumerate(zip(jobs, res)):
        own = bad.pop(os.path.realpath(u), [])
        for f, es in bad.items():
            raise AnalysisError("specification %s does not parse: %s:%s" % (u, f, es[0]))
        used = set()
        for f in d["functions"]:
            _rename(f, 1000 + i)
            f["spec"] = True
            errs = [e for e in own if f["line"] <= e[0] <= f["end"]]
            used.update(errs)
            nm = f["qn"].replace("spec::", "")
            if errs:
                if nm not in specs and f["id"] not in prog.fns:
                    broken.setdefault(nm, errs[0][1])
                continue
            broken.pop(nm, None)
            f["unit"] = "spec"
            f["exp"] = False
            if f["id"] in prog.fns:
                continue
            restore([f], prog.renamed)
            prog.fns[f["id"]] = f
            prog.by_qn.setdefault(f["qn"], []).append(f)
            if "__" in nm:
                specs[nm] = f
        for r in d["records"]:
            if r["ty"] not in prog.recs:
                _rename(r, 1000 + i)
                prog.recs[r["ty"]] = r
        for g in d["globals"]:
            if g["n"] not in prog.globs:
                _rename(g, 1000 + i)
                prog.globs[g["n"]] = [g]
    # a helper that does not compile breaks what calls it
    helpers = {b for b in broken if "__" not in b}
    if helpers:
        for nm, f in list(specs.items()):
            t = json.dumps(f["body"])
            if any('"qn": "spec::%s"' % h in t for h in helpers):
                broken[nm] = "helper does not compile"
                del specs[nm]
    return specs, broken


def rel(path):
    return os.path.relpath(path, REPO) if path.startswith(REPO + "/") else path


def load():
    if not os.path.exists(TPX):
        subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh")], check=True)
    us = units()
    if len(us) < 15:
        raise AnalysisError("only %d translation units found" % len(us))
    prog = Program()
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        res = list(ex.map(_parse, us))
    for i, (u, txt, err) in enumerate(res):
        if txt is None:
            raise AnalysisError("cannot parse %s:\n%s" % (u, err))
        d = json.loads(txt)
        del txt
        prog.units.append(rel(u))
        isexp = "/experiments/" in u
        for f in d["functions"]:
            fid = f["id"]
            if f.get("internal") or f["name"] == "main":
                # internal linkage: one copy per unit; keep the first under its
                # name and the others under a unit-specific one
                if fid in prog.fns and prog.fns[fid]["file"] != f["file"]:
                    fid = "%s@%d" % (fid, i)
            if fid in prog.fns:
                continue
            _rename(f, i)
            f["id"] = fid
            f["unit"] = rel(u)
            f["exp"] = isexp
            prog.fns[fid] = f
            prog.by_qn.setdefault(f["qn"], []).append(f)
        for r in d["records"]:
            if r["ty"] not in prog.recs:
                _rename(r, i)
                prog.recs[r["ty"]] = r
        for g in d["globals"]:
            _rename(g, i)
            prog.globs.setdefault(g["n"], []).append(g)
    prog.renamed = renames(prog)
    if prog.renamed:
        restore(prog.fns.values(), prog.renamed)
        for ty, r in prog.recs.items():
            for x in r["fields"]:
                x["n"] = prog.renamed.get((ty, x["n"]), x["n"])
    for r in prog.recs.values():
        for b in r["bases"]:
            prog.derived.setdefault(b, set()).add(r["ty"])
        for m in r["methods"]:
            for o in m["over"]:
                prog.overriders.setdefault(o, set()).add(m["id"])
    return prog


if __name__ == "__main__":
    import time
    t = time.time()
    p = load()
    print(len(p.fns), "functions", len(p.recs), "records", len(p.globs), "globals", "%.1fs" % (time.time() - t))
    for q in sorted(p.by_qn):
        print(q, [len(f["params"]) for f in p.by_qn[q]])

"""Effects of protocol phases, and the phases the drivers overlap."""
import program
import sym
import terms as TM
import tphooks
from program import rel
from run import Finding


class Effects(object):
    def __init__(self):
        self.r, self.w, self.ch, self.locs = set(), set(), [], {}


def path_of(t):
    """(field, sub-fields…) of a read of the initial heap, else None"""
    tail = []
    while isinstance(t, TM.T) and t.op == "rf":
        tail.append(t.a[1])
        t = t.a[0]
    if isinstance(t, TM.T) and t.op == "mg" and t.a[0].op == "fn" and str(t.a[0].a[0]).startswith("H:"):
        return (t.a[0].a[0][2:],) + tuple(reversed(tail)), t.a[1]
    return None


def reads(t, out, seen):
    if isinstance(t, tuple):
        for x in t:
            reads(x, out, seen)
        return
    if not isinstance(t, TM.T) or id(t) in seen:
        return
    seen.add(id(t))
    p = path_of(t)
    if p:
        out.add(p[0])
        reads(p[1], out, seen)
        return
    if t.op == "fn" and str(t.a[0]).startswith("H:"):
        out.add((t.a[0][2:],))
        return
    for x in t.a:
        reads(x, out, seen)


def writes(v, path, ef, seen):
    if not isinstance(v, TM.T):
        return
    p = path_of(v)
    if p and p[0] == path:
        return
    if v.op == "with":
        writes(v.a[0], path, ef, seen)
        for f, n in v.a[1]:
            writes(n, path + (f,), ef, seen)
        return
    if v.op == "ite":
        reads(v.a[0], ef.r, seen)
        writes(v.a[1], path, ef, seen)
        writes(v.a[2], path, ef, seen)
        return
    ef.w.add(path)
    reads(v, ef.r, seen)


def hwrites(m, fk, ef, seen):
    if m.op == "mset":
        hwrites(m.a[0], fk, ef, seen)
        reads(m.a[1], ef.r, seen)
        writes(m.a[2], (fk,), ef, seen)
        return
    if m.op == "fn" and str(m.a[0]) == "H:" + fk:
        return
    if m.op == "ite":
        reads(m.a[0], ef.r, seen)
        hwrites(m.a[1], fk, ef, seen)
        hwrites(m.a[2], fk, ef, seen)
        return
    ef.w.add((fk,))
    reads(m, ef.r, seen)


def events(evs, ctx, ef, seen):
    for e in evs:
        reads(e.g, ef.r, seen)
        for x in e.a:
            reads(x, ef.r, seen)
        c = ctx + [e.g]
        if e.sub is not None:
            events(e.sub, c + ([("range", e.a[0], e.a[1])] if e.kind == "loop" else []), ef, seen)
        if e.kind in ("send", "recv"):
            ef.ch.append((e.kind, e.a[0], c, e.loc))


def effects(prog, f):
    b, mut = tphooks.tp_bound(prog, f["qn"])
    m = sym.Machine(prog, tphooks.tp_prim((), mut))
    s = m.summary(f)
    ef = Effects()
    seen = set()
    events(s.ev, [], ef, seen)
    for fk, v in s.heap.items():
        hwrites(v, fk, ef, seen)
    ef.notes = m.notes
    return ef


# --- linear constraints -----------------------------------------------------

def lin(t):
    """term -> {atom: coeff} with key None for the constant"""
    if isinstance(t, int):
        return {None: t}
    if t.op == "int":
        return {None: t.a[0]}
    if t.op == "poly":
        d = {}
        for mono, c in t.a[0]:
            if mono == ():
                d[None] = d.get(None, 0) + c
            elif len(mono) == 1 and mono[0][1] == 1:
                d[mono[0][0]] = d.get(mono[0][0], 0) + c
            else:
                d[("m",) + mono] = d.get(("m",) + mono, 0) + c
        return d
    return {t: 1}


def plus(a, b, k=1):
    d = dict(a)
    for x, c in b.items():
        d[x] = d.get(x, 0) + k * c
    return {x: c for x, c in d.items() if c}


def literals(g):
    """inequalities (>= 0) implied by a guard"""
    if g.op == "eq0":
        l = lin(g.a[0])
        return [l, plus({}, l, -1)]
    if g.op == "pos":
        return [plus(lin(g.a[0]), {None: 1}, -1)]
    if g.op == "poly":
        if len(g.a[0]) == 1 and g.a[0][0][1] == 1:
            out = []
            for b, _ in g.a[0][0][0]:
                out += literals(b)
            return out
        d = dict(g.a[0])
        if d.get((), 0) == 1 and len(d) == 2:
            (mono, c), = [(m, c) for m, c in d.items() if m != ()]
            if c == -1 and len(mono) == 1 and mono[0][0].op == "pos":
                return [plus({}, lin(mono[0][0].a[0]), -1)]
    return []


def infeasible(cs, limit=4000):
    """Fourier-Motzkin elimination: no rational point satisfies all cs >= 0"""
    cs = [dict(c) for c in cs]
    while True:
        for c in cs:
            if not any(k is not None for k in c) and c.get(None, 0) < 0:
                return True
        vs = {}
        for c in cs:
            for k in c:
                if k is not None:
                    vs.setdefault(k, [0, 0])[0 if c[k] > 0 else 1] += 1
        if not vs:
            return False
        v = min(vs, key=lambda k: vs[k][0] * vs[k][1])
        up = [c for c in cs if c.get(v, 0) > 0]
        dn = [c for c in cs if c.get(v, 0) < 0]
        cs = [c for c in cs if not c.get(v, 0)]
        seen = {tuple(sorted(c.items(), key=repr)) for c in cs}
        for a in up:
            for b in dn:
                c = plus({k: x * -b[v] for k, x in a.items()}, {k: x * a[v] for k, x in b.items()})
                t = tuple(sorted(c.items(), key=repr))
                if t not in seen:
                    seen.add(t)
                    cs.append(c)
        if len(cs) > limit:
            return False


ASSUMED = (("mThreshold", 1), ("mID", 0), ("mParties", 1))


def context(ctx):
    out = []
    for c in ctx:
        if isinstance(c, tuple):
            k, n = c[1], c[2]
            out.append({k: 1})
            out.append(plus(plus(lin(n), {k: 1}, -1), {None: 1}, -1))
        else:
            out += literals(c)
    return out


def same_end(a, b):
    """may two channel operations use the same end in the same direction?"""
    if a[0] != b[0]:
        return False
    if a[1].op != "fn" or b[1].op != "fn" or a[1].a[0] != "peer" or b[1].a[0] != "peer":
        return True
    i, j = lin(a[1].a[2]), lin(b[1].a[2])
    cs = context(a[2]) + context(b[2]) + [plus(i, j, -1), plus(j, i, -1)]
    ats = {k for c in cs for k in c if k is not None}
    for k in ats:
        n = TM.show(k).split(".")[-1].split("::")[-1] if isinstance(k, TM.T) else ""
        for f, lo in ASSUMED:
            if n == f:
                cs.append({k: 1, None: -lo} if lo else {k: 1})
    return not infeasible(cs)


def overlap(p, q):
    return p[:len(q)] == q or q[:len(p)] == p


def dot(p):
    return ".".join([p[0]] + [x.split("::")[-1] for x in p[1:]])


def conflict(A, B):
    """why A and B must not be reordered or overlapped, if so"""
    if A is None or B is None:
        return "their effects are not known"
    for x in sorted(A.w):
        for y in sorted(B.r | B.w):
            if overlap(x, y):
                return "one writes %s, which the other uses" % dot(x)
    for x in sorted(B.w):
        for y in sorted(A.r):
            if overlap(x, y):
                return "one writes %s, which the other uses" % dot(x)
    for a in A.ch:
        for b in B.ch:
            if same_end(a, b):
                return "both %s on the channel to %s" % ("send" if a[0] == "send" else "receive",
                                                         "party " + TM.show(a[1].a[2])[-60:] if a[1].op == "fn" and a[1].a[0] == "peer" else "a party")
    return None


def feeds(A, B):
    """A sends what B may be waiting for (on one's own channel)"""
    if A is None or B is None:
        return False
    for a in A.ch:
        for b in B.ch:
            if a[0] == "send" and b[0] == "recv" and same_end(("recv",) + tuple(a[1:]), b):
                return True
    return False


# --- drivers ----------------------------------------------------------------

CIRCUIT = ["SetNetwork", "GenCorrelator", "SetThreshold", "FIPrepSend", "FIPrepRecv", "GenProdPartiesSendP1",
           "GenProdP1ReceivesAndSends", "GenProdPartiesReceive", "MapCorrToCircuit", "PrepMultPartiesSendP1",
           "PrepMultP1ReceivesAndSends", "PrepIOPartiesSendOwner", "PrepMultPartiesReceive", "PrepIOOwnerReceives",
           "SetInputs", "InputOwnerSendsP1", "InputP1Receives",
           "MultP1Sends*", "MultPartiesReceive*", "MultPartiesSend*", "MultP1Receives*", "OutputP1SendsMu", "OutputOwnerReceivesMu",
           "GetOutputs"]
DN = ["SetCircuit", "PrepPartiesSend", "PrepPartiesReceive", "FDMapPrepToGates", "FDMultPartiesSendP1", "FDMultP1Receives",
      "InputPartiesSendOwners", "InputOwnersReceiveAndSendParties", "InputPartiesReceive", "MultPartiesSendP1*", "MultP1Receives*",
      "MultP1SendsParties*", "MultPartiesReceive*", "OutputPartiesSendOwners", "OutputOwnersReceive", "GetOutputs"]
PARTS = {"tp::DN07::MultP1ReceivesAndSendsParties": ["MultP1Receives*", "MultP1SendsParties*"],
         "tp::Circuit::PrepIOPartiesSendOwner": ["PrepIOPartiesSendOwner"]}
OPTIONAL = {"SetInputs", "GetOutputs"}


class Driver(object):
    """one main(): the phases it runs, in order, and what overlaps"""

    def __init__(self, prog, f, cls, ref, eff):
        self.prog, self.f, self.cls, self.ref, self.eff = prog, f, cls, ref, eff
        self.order = {n.rstrip("*"): i for i, n in enumerate(ref)}
        self.layered = {n.rstrip("*") for n in ref if n.endswith("*")}
        self.seen = []        # (phase, line, loop id)
        self.alive = {}       # thread variable -> (phase list, line)
        self.bad = []
        self.pairs = 0
        self.overlaps = []
        self.loops = []
        self.nloop = 0
        self.cnt = {}
        self.stack = []
        self.names = {}

    def say(self, key, line, text):
        x = (key, line, text)
        if x not in self.bad:
            self.bad.append(x)

    def phases(self, qn):
        if qn in PARTS:
            return [p.rstrip("*") for p in PARTS[qn]]
        n = qn.split("::")[-1]
        return [n] if qn == "tp::%s::%s" % (self.cls, n) and n in self.order else []

    def E(self, ph):
        return self.eff(self.cls, ph)

    def clash(self, ph, line, others):
        for q, l in others:
            self.pairs += 1
            self.overlaps.append("%s || %s" % (ph, q))
            A, B = self.E(ph), self.E(q)
            why = conflict(A, B) if A is not None and B is not None else None
            if why:
                self.say("%s||%s" % tuple(sorted((ph, q))), line, "%s runs while %s may still be running, but %s" % (ph, q, why))

    def live(self):
        return [(q, l) for qs, l, v in self.alive.values() for q in qs]

    def phase(self, ph, line, args=None):
        cur = tuple(self.loops)
        for q, l, lp in self.seen:
            if q == ph:
                if ph not in self.layered and not (self.brk_ok(lp, cur)):
                    self.say("%s/twice" % ph, line, "%s runs twice" % ph)
                continue
            if self.order[q] > self.order[ph]:
                A, B = self.E(ph), self.E(q)
                why = conflict(A, B)
                if why is None and feeds(A, B):
                    why = "%s waits for what %s sends" % (q, ph)
                self.pairs += 1
                if why:
                    self.say("%s<%s" % (ph, q), line, "%s runs after %s, but %s" % (ph, q, why))
        self.clash(ph, line, self.live())
        if ph in self.layered and args is not None:
            self.layer(ph, line, args)
        elif cur and ph not in self.layered:
            self.say("%s/loop" % ph, line, "%s runs once per iteration of a loop" % ph)
        self.seen.append((ph, line, cur))
        self.cnt[ph] = self.cnt.get(ph, 0) + 1

    def brk_ok(self, a, b):
        return False

    def layer(self, ph, line, args):
        if not self.loops:
            self.say("%s/layer" % ph, line, "%s does not run for every layer" % ph)
            return
        v = args[0] if args else None
        while v is not None and v.get("k") in ("cast", "copy"):
            v = v["e"]
        lv = self.loops[-1]
        if v is None or v.get("k") != "var" or v["id"] != lv[1]:
            self.say("%s/layer" % ph, line, "%s does not run for the layer of its iteration" % ph)
        elif not lv[2]:
            self.say("%s/layers" % ph, line, "the loop around %s does not run over all layers in order" % ph)

    # --- walk
    def run(self):
        self.stmt(self.f["body"])
        for v, (qs, l, n) in self.alive.items():
            self.say("join", l, "the thread running %s is not joined" % ",".join(qs))
        for n in self.ref:
            n = n.rstrip("*")
            if n in OPTIONAL:
                continue
            if not self.cnt.get(n):
                self.say("%s/missing" % n, self.f["line"], "%s is never run" % n)

    def stmt(self, s):
        if s is None:
            return False
        k = s["k"]
        if k == "block":
            own = []
            for x in s["s"]:
                if x["k"] == "decl":
                    own += [d["id"] for d in x["d"]]
                if self.stmt(x):
                    return True
            for v in own:
                if v in self.alive:
                    qs, l, n = self.alive.pop(v)
                    self.say("join", l, "the thread running %s is destroyed without being joined" % ",".join(qs))
        elif k == "decl":
            for d in s["d"]:
                ini = d.get("init")
                if "std::thread" in d["ty"] and ini is not None and ini.get("k") == "ctor" and ini["args"]:
                    self.spawn(d["id"], d["n"], ini["args"], d.get("l", s.get("l")))
                elif ini is not None:
                    self.expr(ini)
        elif k == "if":
            self.expr(s["c"])
            c = s["c"]
            while c.get("k") == "cast":
                c = c["e"]
            if c.get("k") == "lit":
                return self.stmt(s["t"] if c["v"] not in (0, "0", False) else s.get("e"))
            n = dict(self.cnt)
            sv, al = list(self.seen), dict(self.alive)
            a = self.stmt(s["t"])
            ca, sa_, aa = self.cnt, self.seen, self.alive
            self.cnt, self.seen, self.alive = n, sv, al
            b = self.stmt(s.get("e"))
            if a and not b:
                return False
            if b and not a:
                self.cnt, self.seen, self.alive = ca, sa_, aa
                return False
            for q in set(ca) | set(self.cnt):
                if (ca.get(q, 0) == 0) != (self.cnt.get(q, 0) == 0) and q not in OPTIONAL:
                    self.say("%s/cond" % q, s.get("l"), "%s runs only under a condition" % q)
            self.cnt = {q: max(ca.get(q, 0), self.cnt.get(q, 0)) for q in set(ca) | set(self.cnt)}
            self.seen = self.seen + [x for x in sa_ if x not in self.seen]
            self.alive.update(aa)
            return a and b
        elif k == "for":
            self.stmt(s.get("init"))
            self.nloop += 1
            self.loops.append((self.nloop,) + self.counter(s))
            self.expr(s.get("c"))
            before = dict(self.alive)
            self.stmt(s["b"])
            for v in self.alive:
                if v not in before:
                    self.say("join", s.get("l"), "a thread started in a loop is not joined in the iteration")
            self.expr(s.get("inc"))
            self.loops.pop()
        elif k in ("while", "do", "rfor"):
            self.nloop += 1
            self.loops.append((self.nloop, None, False))
            self.expr(s.get("c") or s.get("r"))
            self.stmt(s["b"])
            self.loops.pop()
        elif k == "ret":
            self.expr(s.get("e"))
            return True
        elif k == "throw":
            return True
        else:
            self.expr(s)
        return False

    def counter(self, s):
        """(loop variable, counts up from zero by one below a plain bound)"""
        i, c, n = s.get("init"), s.get("c"), s.get("inc")
        if not i or i["k"] != "decl" or len(i["d"]) != 1 or not c or not n:
            return None, False
        d = i["d"][0]

        def core(e):
            while isinstance(e, dict) and e.get("k") in ("cast", "copy"):
                e = e["e"]
            return e
        ini = core(d.get("init"))
        ok = isinstance(ini, dict) and ini.get("k") in ("lit", "zero") and str(ini.get("v", 0)) == "0"
        n = core(n)
        ok &= n.get("k") == "un" and "++" in n.get("op", "") and core(n["e"]).get("id") == d["id"]
        c = core(c)
        l, r = core(c.get("a") or c.get("x") or {}), core(c.get("b") or c.get("y") or {})
        if c.get("op") in (">",):
            l, r = r, l
        ok &= c.get("k") == "bin" and c.get("op") in ("<", "!=", ">") and l.get("id") == d["id"]
        ok &= r.get("k") in ("var", "mem", "call")
        return d["id"], bool(ok)

    def spawn(self, v, name, args, line):
        fn = args[0]
        while isinstance(fn, dict) and fn.get("k") in ("un", "cast", "copy"):
            fn = fn["e"]
        if fn.get("k") == "fref":
            qs = self.phases(fn["fn"]["qn"])
            rest = args[2:]
        elif fn.get("k") == "lambda":
            qs, rest = [], None
            self.collect(fn["body"], qs)
        else:
            qs, rest = [], None
        for q in qs:
            self.phase(q, line, rest)
        self.alive[v] = (qs, line, name)

    def collect(self, s, out):
        if isinstance(s, dict):
            if s.get("k") == "call":
                out += self.phases((s.get("fn") or {}).get("qn") or "")
            for x in s.values():
                self.collect(x, out)
        elif isinstance(s, list):
            for x in s:
                self.collect(x, out)

    def expr(self, e):
        if isinstance(e, list):
            for x in e:
                self.expr(x)
            return
        if not isinstance(e, dict):
            return
        if e.get("k") == "call":
            fn = e.get("fn") or {}
            qn = fn.get("qn") or ""
            o = e.get("obj")
            if qn in ("std::thread::join", "std::thread::detach") and o is not None:
                if o.get("k") == "var" and o["id"] in self.alive:
                    qs, l, n = self.alive.pop(o["id"])
                    if qn.endswith("detach"):
                        self.say("join", e.get("l"), "the thread running %s is detached" % ",".join(qs))
                return
            self.expr(o)
            self.expr(e["args"])
            for ph in self.phases(qn):
                self.phase(ph, e.get("l"), e["args"])
            g = self.prog.fns.get(fn.get("id"))
            if g is not None and "/experiments/" in g["file"] and len(self.stack) < 6 and g.get("body"):
                self.stack.append(g)
                self.stmt(g["body"])
                self.stack.pop()
            return
        if e.get("k") in ("block", "if", "for", "while", "do", "rfor", "decl", "ret"):
            self.stmt(e)
            return
        for x in e.values():
            if isinstance(x, (dict, list)):
                self.expr(x)


def drivers(prog, part):
    memo = {}

    def eff(cls, ph):
        if (cls, ph) not in memo:
            try:
                c = [f for f in prog.by_qn.get("tp::%s::%s" % (cls, ph), [])]
                memo[cls, ph] = effects(prog, c[0]) if len(c) == 1 else None
            except Exception:
                memo[cls, ph] = None
        return memo[cls, ph]
    found, n, out = [], 0, {}
    for f in prog.fns.values():
        if f["qn"] != "main" or "/experiments/" not in f["file"]:
            continue
        cls, ref = ("DN07", DN) if f["file"].endswith("dn07.cc") else ("Circuit", CIRCUIT)
        d = Driver(prog, f, cls, ref, eff)
        d.run()
        n += d.pairs + len(ref)
        for key, l, text in d.bad:
            found.append(Finding("%s/%s" % (rel(f["file"]), key), "%s:%s" % (rel(f["file"]), l), text))
        out[rel(f["file"])] = {"phases": [x[0] for x in d.seen], "overlapped": sorted(set(d.overlaps)), "pairs": d.pairs}
    part["drivers"] = out
    part["effects"] = {"%s::%s" % k: ({"writes": sorted(dot(p) for p in v.w), "reads": len(v.r), "channel_ops": len(v.ch)} if v else "not known")
                       for k, v in sorted(memo.items())}
    part["obligations"] = n
    part["discharged"] = n - len(found)
    part["rule"] = "phases may overlap or leave their order only when their effects (fields, channel ends) are disjoint"
    return found, not out

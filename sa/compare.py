"""Three-valued equivalence of two summaries (code against specification).

PROVED     identical normal forms of every observable
AGREE      different normal forms, not separated by random interpretation
REFUTED    some observable's normal forms differ and random interpretation
           separates them
UNDECIDED  an observable is outside the term language
"""
import re
import time
import terms as TM
from terms import T, Model, Poison, ev, key_of, M_expand, TRUE, FALSE, subst, mk, kind, show, rf, mget


class Obs(object):
    """observables of one summary"""

    def __init__(self, s, prog, selfrec=None):
        self.s = s
        self.heap = dict(s.heap)
        self.outs = dict(s.outs)


def evkey(e, env=()):
    return (e.kind, e.g, tuple(x if isinstance(x, (T, str, int)) else repr(x) for x in e.a),
            tuple(evkey(x) for x in e.sub) if e.sub is not None else None)


def norm_events(evs, n=None):
    """rename loop variables canonically so that identical traces are identical"""
    out = []
    n = n or [0]
    for e in evs:
        if e.kind == "loop":
            k, N = e.a[0], e.a[1]
            v = mk("var", -1000 - n[0], "u", "L")
            n[0] += 1
            sub_ = [x.subst({k: v}) for x in e.sub]
            out.append(("loop", e.g, N, tuple(norm_events(sub_, n))))
        else:
            out.append((e.kind, e.g) + tuple(_flat(e.a)))
    return out


def _flat(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            yield "("
            for y in _flat(x):
                yield y
            yield ")"
        else:
            yield x


class Budget(Exception):
    pass


class Run(object):
    """one summary under one random interpretation"""

    def __init__(self, s, M, ignore=()):
        self.s, self.M = s, M
        self.ev = []       # (kind, values..., loc)
        self.threw = None
        self.npeer = {}
        self.recvs = {}
        self.ahead = {}
        self.ndraw, self.draws, self.drawahead = {}, {}, {}
        self.poison = None
        self.steps = 0
        M.recv = self
        self.ok = True

    def trace(self):
        try:
            self._go(self.s.ev, {})
        except Poison as p:
            self.poison = str(p)

    def _go(self, evs, env):
        M = self.M
        for e in evs:
            if self.threw is not None or not self.ok:
                return
            self.steps += 1
            if self.steps > (200000 if TM.MAXN[0] else 20000):
                raise Poison("budget")
            g = ev(e.g, M, env)
            if not isinstance(g, int):
                raise Poison("guard")
            if g % TM.PRIME == 0:
                continue
            if e.kind == "loop":
                k, N = e.a[0], e.a[1]
                n = TM.sgn(ev(N, M, env))
                if n > (TM.MAXN[0] or 64):
                    raise Poison("range")
                e2 = dict(env)
                for i in range(max(0, n)):
                    e2[k] = i
                    self._go(e.sub, e2)
                continue
            if e.kind == "throw":
                self.threw = e
                return
            if e.kind == "assume":
                v = ev(e.a[0], M, env)
                if v % TM.PRIME == 0:
                    self.ok = False
                continue
            if e.kind == "oob":
                self.ev.append(("oob", e.loc))
                continue
            vals = []
            if e.kind == "recv":
                p = key_of(ev(e.a[0], M, env), M)
                n = self.npeer.get(p, 0)
                self.npeer[p] = n + 1
                atom = self.atomkey(e.a[1], env)
                if self.ahead.get(atom, (p, n)) != (p, n):
                    raise Poison("recv")
                self.recvs[atom] = (p, n)
                self.ev.append(("recv", p, e.a[2] if len(e.a) > 2 else "", e.loc))
                continue
            if e.kind == "draw":
                p, atom = e.a[0], self.atomkey(e.a[1], env)
                n = self.ndraw.get(p, 0)
                if self.drawahead.get(atom, n) != n:
                    raise Poison("draw")
                self.draws[atom] = (p, n)
                # bytes come in blocks, elements one by one
                self.ndraw[p] = n + (1 if len(e.a) < 3 else max(0, -(-ev(e.a[2], M, env) // 16)))
                continue
            for x in e.a:
                vals.append(self.val(x, env))
            if e.kind == "call" and vals[0] in ("Send", "Recv") and len(vals) > 3 and vals[2] == 0:
                # no bytes cross the channel
                continue
            self.ev.append((e.kind,) + tuple(vals) + (e.loc,))

    def val(self, x, env):
        if isinstance(x, T):
            try:
                return M_expand(ev(x, self.M, env), self.M)
            except Poison as p:
                return ("poison", str(p))
        if isinstance(x, (tuple, list)):
            return tuple(self.val(y, env) for y in x)
        return x if isinstance(x, (int, str)) else repr(x)

    def atomkey(self, t, env):
        return tuple(key_of(ev(x, self.M, env), self.M) if isinstance(x, T) else x for x in t.a)

    def recvval(self, t, env):
        k = self.atomkey(t, env)
        r = self.recvs.get(k)
        if r is None:
            p = k[1]
            # a condition on messages received in the loop it controls: taken to be
            # the next ones of the channel, which their receipt then has to confirm
            r = self.ahead.get(k)
            if r is None:
                n = self.npeer.get(p, 0) + sum(1 for a, q in self.ahead.items() if q[0] == p and a not in self.recvs)
                if n > 64:
                    raise Poison("recv")
                r = self.ahead[k] = (p, n)
        return self.M.val(t.a[-1], "recv", r)


    def drawn(self, t, env):
        """which of its generator's values a draw is"""
        k = self.atomkey(t, env)
        r = self.draws.get(k)
        if r is None:
            p = k[1][4:]
            n = self.drawahead.get(k)
            if n is None:
                n = self.ndraw.get(p, 0) + sum(1 for a in self.drawahead if a[1] == k[1] and a not in self.draws)
                if n > 200:
                    raise Poison("draw")
                self.drawahead[k] = n
            r = (p, n)
        return r


def haspoison(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "poison":
            return x[1]
        for y in x:
            p = haspoison(y)
            if p:
                return p
    return None


def project(run, kinds):
    return [e for e in run.ev if e[0] in kinds]


def streams(run, kind, skel=False):
    """per-peer ordered streams"""
    out = {}
    for e in run.ev:
        if e[0] == kind:
            p = e[1]
            if kind == "send":
                item = (e[3],) if skel else (e[2],)
            else:
                item = (e[2],)
            out.setdefault(p, []).append((item, e[-1]))
    return out


class Diff(object):
    def __init__(self, obs, loc, text):
        self.obs, self.loc, self.text = obs, loc, text


def _cmpstream(name, a, b, diffs, und):
    for p in sorted(set(a) | set(b), key=repr):
        x, y = a.get(p, []), b.get(p, [])
        for i in range(max(len(x), len(y))):
            if i >= len(x):
                diffs.append(Diff(name, None, "message %d expected for one peer is missing" % i))
                break
            if i >= len(y):
                diffs.append(Diff(name, x[i][1], "message %d to/from one peer is not expected" % i))
                break
            px, py = haspoison(x[i][0]), haspoison(y[i][0])
            if py:
                continue
            if px:
                if px == "oob":
                    diffs.append(Diff(name, x[i][1], "message %d reads outside a container" % i))
                else:
                    und.append(name)
                continue
            if x[i][0] != y[i][0]:
                diffs.append(Diff(name, x[i][1], "message %d of one peer's stream differs" % i))
                break


# sizes that are at least one in every execution
POSITIVE = ("tp::Correlator::mBatchSize", "tp::Correlator::mParties", "tp::Circuit::mBatchSize", "tp::Circuit::mParties",
            "tp::InputBatch::mBatchSize", "tp::InputBatch::mParties", "tp::MultBatch::mBatchSize",
            "tp::MultBatch::mParties", "tp::OutputBatch::mBatchSize", "tp::OutputBatch::mParties",
            "tp::InputLayer::mBatchSize", "tp::MultLayer::mBatchSize", "tp::OutputLayer::mBatchSize",
            "tp::DN07::mParties")


def terms_of(evs, out):
    for e in evs:
        out.append(e.g)
        st = list(e.a)
        while st:
            x = st.pop()
            if isinstance(x, T):
                out.append(x)
            elif isinstance(x, (tuple, list)):
                st.extend(x)
        if e.sub is not None:
            terms_of(e.sub, out)


def literals(s):
    ts = [s.ret] if s.ret is not None else []
    ts += list(s.outs.values()) + list(s.heap.values()) + s.own()
    terms_of(s.ev, ts)
    seen, out = set(), []
    for t in ts:
        TM.atoms(t, out, seen)
    return [t for t in out if t.op in ("eq0", "pos", "eqo")]


def directions(code, spec):
    """values that conditions of the code compare sizes and numbers with, and
    whether it compares objects the specification does not compare"""
    lc, ls = literals(code), literals(spec)
    consts = set()
    for l in lc + ls:
        if l.op == "eqo":
            continue
        L = l.a[0]
        if L.op == "poly" and len(L.a[0]) <= 3:
            d = dict(L.a[0])
            c = d.pop((), 0)
            if all(len(m) == 1 for m in d):
                for x in (-c, -c + 1, -c - 1, -c + 2) if l.op == "pos" else (-c,):
                    for y in (x, -x):
                        if 1 < y <= 24:
                            consts.add(y)
    own = set(lc) - set(ls)
    return tuple(sorted(consts)), any(l.op == "eqo" for l in own), {l.uid for l in own}


def large(code, spec):
    """numbers beyond the usual sizes that only the code distinguishes, and the sizes there are"""
    def scan(s):
        ts = [s.ret] if s.ret is not None else []
        ts += list(s.outs.values()) + list(s.heap.values()) + s.own()
        terms_of(s.ev, ts)
        nums, far, sizes = set(), set(), []
        seen, st = set(), [t for t in ts if isinstance(t, T)]
        while st:
            x = st.pop()
            if isinstance(x, (tuple, list)):
                st.extend(x)
                continue
            if not isinstance(x, T) or x in seen:
                continue
            seen.add(x)
            if x.op == "div" and x.a[1].op == "int":
                nums.add(x.a[1].a[0])
            elif x.op == "rem" and isinstance(x.a[1], int):
                nums.add(x.a[1])
            elif x.op == "fn" and x.a[0] == "trunc":
                nums.add(1 << x.a[2] - 1)
            elif x.op in ("eq0", "pos") and x.a[0].op == "poly" and len(x.a[0].a[0]) <= 3:
                n = abs(dict(x.a[0].a[0]).get((), 0))
                (far if x.fv else nums).add(n)
            if not x.fv and kind(x) == "u" and x.op in ("len", "fn", "mg", "rf"):
                sizes.append(x)
            st.extend(x.a)
        return nums, far, sizes
    (n1, f1, s1), (n2, f2, s2) = scan(code), scan(spec)
    both = set(s1) & set(s2)
    nums = {c for c in n1 - n2 if c > 5} | {c for c in f1 - f2 - n2 if c > 2}
    return sorted(c for c in nums if c <= 1 << 40)[:4], sorted(both or s1, key=lambda t: t.uid)[:12]


def forced(l, want, M):
    """changes of interpretation M that decide literal l as wanted"""
    if l.op == "eqo":
        if "null" in (l.a[0].op, l.a[1].op):
            return
        for x, y in ((l.a[0], l.a[1]), (l.a[1], l.a[0])):
            h = None if x.fv or y.fv else TM.locate(x, M, {})
            if h is not None:
                try:
                    yield {h: key_of(ev(y, M, {}), M)}
                except Poison:
                    pass
        return
    L = l.a[0]
    items = L.a[0] if L.op == "poly" else (((((L, 1),), 1)),)
    for m, c in items:
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            continue
        x = m[0][0]
        if x.fv or TM.isboolatom(x):
            continue
        h = TM.locate(x, M, {})
        if h is None:
            continue
        try:
            rest = ev(L, M, {}) - c * ev(x, M, {})
        except Poison:
            continue
        for tgt in ((0,) if l.op == "eq0" else (1, 2) if want else (0, -1)):
            v = c * (tgt - rest)
            if TM.kind(x) == "f":
                yield {h: v % TM.PRIME}
            else:
                v = TM.sgn(v)
                lo, hi = TM.rng(x) if TM.BITS[0] and TM.kind(x) in TM.WIDTH else (0, 24)
                if (lo or 0) <= v <= (24 if hi is None else hi):
                    yield {h: v}


EXT = re.compile(r"^((m:|ret:|out\d*:|ctor:|after:)?(std|__gnu_cxx)::(?!.*(exit|abort|terminate|_Exit|detach)\b)"
                 # operations the engine leaves opaque: no verdict where only the code has them
                 r"|(resize|strop|seqcmp|iteq|ord[<>=]|deref|elem|bind|back_inserter|use_count|stream|string|fcast|trunc|apply)(?![a-z_]))")


def externals(s):
    """library functions without a model whose results or effects occur"""
    ts = [s.ret] if s.ret is not None else []
    ts += list(s.outs.values()) + list(s.heap.values()) + s.own()
    out = set()

    def calls(evs):
        for e in evs:
            if e.kind == "call" and isinstance(e.a[0], str) and EXT.match(e.a[0]):
                out.add(e.a[0])
            if e.sub is not None:
                calls(e.sub)
    calls(s.ev)
    terms_of(s.ev, ts)
    seen, at = set(), set()
    for t in ts:
        if isinstance(t, T):
            allfn(t, at, seen)
    return out | {x for x in at if EXT.match(x)}


def allfn(t, out, seen):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op == "fn" and isinstance(x.a[0], str):
                out.add(x.a[0])
            st.extend(x.a)
        elif isinstance(x, (tuple, list)):
            st.extend(x)


def separate(code, spec, prog, rule, seeds, notes):
    """compare under random interpretations; returns {observable: Diff}"""
    res = {}
    und0 = und = set()
    used = 0
    tried = 0
    sizes = rule.get("sizes", (1, 4))
    consts, pool, own = directions(code, spec)
    seen, stale, steps, productive = set(), 0, 0, 0
    big = ranged = 0
    span = [0]
    TM.MAXN[0] = 0
    t0 = time.time()
    wall = rule.get("wall", 100)
    Mc = Ms = None
    unmodelled = externals(code) - externals(spec)
    own_t = sorted((l for l in literals(code) if l.uid in own), key=lambda l: l.uid)

    shared = [l for l in literals(code) if l.uid not in own and not l.fv and l.op == "eq0"][:8]

    pre = [(e.a[0], [l for l in sorted(_atoms(e.a[0]), key=lambda t: t.uid) if l.op in ("eq0", "pos", "eqo") and not l.fv][:6])
           for e in spec.ev if e.kind == "assume"][:12]

    def meet(sd, over):
        """interpretations of a kind the specification's assumptions admit"""
        for cond, ls in pre:
            def holds(ov):
                M = Model(sd, rule.get("fixed"), sizes, consts=consts, positive=POSITIVE, over=ov)
                Run(spec, M).trace()
                try:
                    return bool(ev(cond, M, {})), M
                except Poison:
                    return False, M
            ok, M = holds(over)
            if ok:
                continue
            for ov in (o for l in ls for w in ((1, 0) if l.op == "pos" else (1,)) for o in forced(l, w, M)):
                if holds({**over, **ov})[0]:
                    over = {**over, **ov}
                    break
        return over

    def agreeing(sd, over):
        """an interpretation under which most equalities hold"""
        s = code if sd // 32 % 2 else spec
        skip = 0
        for again in (1, 0):
            M = Model(sd, rule.get("fixed"), sizes, consts=consts, positive=POSITIVE, pool=pool, over=dict(over),
                      budget=rule.get("budget", 400000))
            M.agree = (16, 15, 15, 16)[sd // 8 % 4]
            M.skip = skip
            Run(s, M).trace()
            for t in ([s.ret] if isinstance(s.ret, T) else []) + [v for v in s.outs.values() if isinstance(v, T)]:
                try:
                    key_of(ev(t, M, {}), M)
                except Poison:
                    pass
            if sd // 8 % 4 < 3 or not M.settled:
                break
            # all but one
            skip = M.settled - TM._h(sd, "skip") % (1 if sd // 64 % 2 else M.settled)
        return M.over

    def toward():
        used0 = used
        for l in own_t[:40]:
            if res or steps > 9000000 or used > used0 + 400:
                return
            for want in (1, 0):
                if want == 0 and l.op != "pos":
                    continue
                hits = 0
                for sd in range(1, 80):
                    if hits >= 24 or steps > 9000000 or res:
                        break
                    if sd % 4 == 2:
                        continue
                    if time.time() - t0 > wall:
                        return
                    # also decide a choice of the conditions both sides have
                    over = {}
                    for i, m in enumerate([None] + [m for m in shared if TM._h(sd, m.uid) % 2][:3]):
                        M = Model(sd, rule.get("fixed"), sizes, consts=consts, positive=POSITIVE, over=over)
                        r = Run(code, M)
                        r.trace()
                        if m is not None:
                            over.update(next(iter(forced(m, 1, M)), {}))
                    for ov in forced(l, want, M):
                        hits += 1
                        ov = {**over, **ov}
                        if hits % 3 == 2:
                            # most other equalities hold
                            ov = agreeing(sd, ov)
                        yield sd, meet(sd, ov)

    wide = []

    def plan():
        """(seed, overrides): random interpretations, then ones forced to
        decide a condition of the code that never went that way"""
        for sd in seeds:
            if used >= rule.get("models", 300) or tried > rule.get("tries", 800):
                break
            if used >= 12 and (steps > 6000000 or stale >= 24 and (used >= rule.get("least", 120) or steps > 800000) and (
                    productive >= 16 or used >= 24 and steps > 2000000)):
                break
            over = {}
            if sd % 8 >= 4:
                # meet a choice of the specification's own conditions
                for i, m in enumerate(m for m in shared if TM._h(sd, m.uid, "f") % 3):
                    M = Model(sd, rule.get("fixed"), sizes, consts=consts, positive=POSITIVE, over=over)
                    r = Run(spec, M)
                    r.trace()
                    over.update(next(iter(forced(m, 1, M)), {}))
            over = meet(sd, over) if pre else over
            if sd % 8 in (3, 5):
                over = agreeing(sd, over)
            yield sd, over
        yield None, None
        if not used:
            return
        for x in toward():
            yield x
        # large sizes, where the code distinguishes them
        nums, szs = large(code, spec)
        if nums and TM.SAMPLE:
            kept, t1 = dict(TM.SAMPLE), time.time()
            try:
                TM.MAXN[0] = 20000
                for sd in range(1, 200):
                    for c in nums:
                        if res or time.time() - t1 > 30:
                            return
                        top = 0
                        for i, (k, (lo, hi)) in enumerate(sorted(kept.items())):
                            if lo != hi or lo < 2:
                                z = TM._h(sd, k, c)
                                v = c * (1, 1, 1, 2, 16)[z % 5] + (-2, -1, 0, 1, 2, 8, 16, 24)[z // 5 % 8]
                                v = max(lo, v) if v < min(TM.BOUND[k][1], 9000) and z // 40 % 4 else lo + z // 160 % (hi - lo + 1)
                                TM.SAMPLE[k] = (lo if lo < 0 else v, v)
                                top = max(top, v)
                        for k, (lo, hi) in kept.items():
                            if lo == hi and lo > 1:
                                TM.SAMPLE[k] = (lo + top, lo + top)
                        wide[:] = [c, c + sd % 7] if sd % 3 and c <= 4096 else []
                        yield sd, {}
            finally:
                TM.SAMPLE.clear()
                TM.SAMPLE.update(kept)
                TM.MAXN[0] = 0
                wide.clear()
        if nums and not rule.get("bits"):
            TM.MAXN[0] = 6000
            t1 = time.time()
            for sd in range(1, 400):
                for c in nums:
                    if res or time.time() - t1 > 40:
                        return
                    M = Model(sd, rule.get("fixed"), sizes, consts=consts, positive=POSITIVE)
                    Run(code, M)
                    over = {}
                    for i, x in enumerate(szs):
                        h = TM.locate(x, M, {})
                        if h is None:
                            continue
                        z = TM._h(sd, i)
                        if sd % 3 == 0:
                            # all beyond one of them
                            over[h] = c + z % 4 - 1 if i == sd // 3 % len(szs) else 3 * c + z % 2
                        elif sd % 3 == 1:
                            if i == sd // 3 % len(szs):
                                over[h] = c + z % 4 - 1
                        elif z // 7 % 3:
                            over[h] = c * (1 + z // 21 % 2) + z % 7 - 1
                    if over and sd % 2:
                        over = agreeing(sd, over)
                    if over:
                        span[0] = c
                        yield sd, over
    for sd, over in plan():
        if time.time() - t0 > wall and used:
            notes.add("stopped after %d interpretations" % used)
            break
        if sd is None:
            # the rest serves to separate, not to decide
            und = set()
            notes = set()
            continue
        if Mc is not None:
            steps += 0 if TM.MAXN[0] else 800000 - Mc.budget - Ms.budget
        tried += 1
        Model.modulo = rule.get("bits", {}).get("modulo", 0)
        Mc, Ms = [Model(sd, rule.get("fixed"), sizes, consts=consts, positive=POSITIVE, pool=pool, over=over,
                        budget=rule.get("budget", 4000000 if TM.MAXN[0] else 400000)) for _ in (0, 1)]
        Mc.unknown = unmodelled
        Mc.span = Ms.span = span[0]
        if wide:
            for M in (Mc, Ms):
                M.dom, M.pdom = M.dom + wide, M.pdom + wide
        rs = Run(spec, Ms)
        rs.trace()
        if not rs.ok:
            continue
        if rs.poison:
            notes.add("spec: " + rs.poison)
            if rs.poison == "budget":
                tried += 10
            continue
        rc = Run(code, Mc)
        rc.trace()
        if not rc.ok and not rc.poison:
            res.setdefault("blocks", Diff("blocks", None, "waits for more messages than it needs"))
            used += 1
            continue
        if rc.poison:
            if rc.poison == "oob" and rule.get("oob"):
                res.setdefault("memory", Diff("memory", None, "reads outside an object on an input the specification admits"))
                used += 1
            elif rc.poison == "oob":
                # guard or trip count read outside a container
                und.add("trace:" + rc.poison)
            elif rc.poison == "budget":
                big += 1
            else:
                und.add("trace:" + rc.poison)
            continue
        used += 1
        stale = 0 if (Mc.cov | Ms.cov) - seen else stale + 1
        seen |= Mc.cov | Ms.cov
        productive += rs.threw is None and (bool(rs.ev) or not spec.ev)
        diffs = []
        u = []
        if (rc.threw is None) != (rs.threw is None):
            t = rc.threw or rs.threw
            diffs.append(Diff("throws", rc.threw.loc if rc.threw else None,
                              "rejects an input that must be accepted" if rc.threw else
                              "accepts an input that must be rejected"))
            for d in diffs:
                res.setdefault(d.obs, d)
            continue
        _cmpstream("send", streams(rc, "send"), streams(rs, "send"), diffs, u)
        _cmpstream("sendskel", streams(rc, "send", True), streams(rs, "send", True), diffs, u)
        _cmpstream("recvskel", streams(rc, "recv"), streams(rs, "recv"), diffs, u)
        # calls
        grp = rule.get("group")
        ca, cb = {}, {}
        for r, d in ((rc, ca), (rs, cb)):
            for e in r.ev:
                if e[0] == "call":
                    if e[1] in unmodelled:
                        und.add("call:" + e[1])
                        continue
                    g = grp(e[1]) if grp else ""
                    d.setdefault(g, []).append((e[1:-1], e[-1]))
        for g in set(ca) | set(cb):
            x, y = ca.get(g, []), cb.get(g, [])
            if g and g.startswith("*"):
                x, y = sorted(x, key=repr), sorted(y, key=repr)
            for i in range(max(len(x), len(y))):
                if i >= len(x):
                    diffs.append(Diff("call", None, "operation %s is not performed" % (y[i][0][0],)))
                    break
                if i >= len(y):
                    diffs.append(Diff("call", x[i][1], "operation %s is performed additionally" % (x[i][0][0],)))
                    break
                px, py = haspoison(x[i][0]), haspoison(y[i][0])
                if py:
                    continue
                if px:
                    if px == "oob":
                        diffs.append(Diff("call", x[i][1], "operation %s reads outside a container" % (x[i][0][0],)))
                        break
                    und.add("call")
                    continue
                if x[i][0] != y[i][0]:
                    diffs.append(Diff("call", x[i][1], "operation %s, expected %s%s" % (
                        x[i][0][0], y[i][0][0], " with other arguments" if x[i][0][0] == y[i][0][0] else "")))
                    break
        # touches
        ta = {e[1:-1] for e in rc.ev if e[0] == "touch"}
        tb = {e[1:-1] for e in rs.ev if e[0] == "touch"}
        if not any(haspoison(x) for x in ta | tb):
            if tb - ta:
                diffs.append(Diff("touch", None, "lazy evaluation of some wire is missing"))
        if rc.threw is None:
            u2 = set()
            for d in cmpstate(rc, rs, prog, rule, u2):
                diffs.append(d)
            if any(x.endswith(":spec:oob") for x in u2):
                # the interpretation violates the specification's own preconditions
                used -= 1
                notes.add("spec: oob")
                continue
            if rule.get("bits") and any(x.endswith(":spec:range") for x in u2):
                # a container too large to enumerate
                ranged += 1
                u2 = {x for x in u2 if not x.endswith(":spec:range")}
            if any(x.endswith(":budget") for x in u2):
                # too large an interpretation to evaluate
                big += 1
                u2 = {x for x in u2 if not x.endswith(":budget")}
            und |= u2
        for x in u:
            und.add(x)
        for d in diffs:
            res.setdefault(d.obs, d)
        # everything differs: no need for more models
        if len(res) >= 6:
            break
    if big * 2 > used or ranged * 2 > used:
        und0.add("budget")
    return res, und0, used


def _val(r, t):
    try:
        return M_expand(ev(t, r.M, {}), r.M), None
    except Poison as p:
        return None, str(p)


def cmpiso(rc, rs, und):
    """results and written fields up to renaming of the objects allocated"""
    sides = []
    bases = {}
    for r in (rc, rs):
        S = r.s
        obs = {}
        heap = {}
        if S.ret is not None:
            obs["ret"] = _val(r, S.ret)
        for n, t in S.outs.items():
            obs["out:" + n] = _val(r, t)
        for f, t in S.heap.items():
            v, p = _val(r, t)
            if p:
                obs["heap:" + f] = (v, p)
            elif isinstance(v, tuple) and v and v[0] == "M":
                heap[f] = dict(v[2])
                bases["heap:" + f] = v[1]
        sides.append((obs, heap, r.M))
    out = []
    for n, (v, p) in sides[1][0].items():
        if p:
            und.add(n + ":spec:" + p)
    for n, (v, p) in sides[0][0].items():
        if p == "oob":
            out.append(Diff(n, None, "value reads outside a container"))
        elif p:
            und.add(n + ":" + p)
    if und or out:
        return out
    forms = []
    for obs, heap, M in sides:
        num = {}

        def walk(v):
            if isinstance(v, tuple) and len(v) == 2 and v[0] == "o" and v[1] in M.news:
                if v[1] in num:
                    return ("n", num[v[1]])
                num[v[1]] = len(num)
                return ("n", num[v[1]], M.news[v[1]], tuple((f, walk(heap[f][v])) for f in sorted(heap) if v in heap[f]))
            if isinstance(v, tuple) and len(v) > 2 and v[0] == "R" and isinstance(v[1], str):
                return ("R", v[1].startswith("rec") or v[1], tuple((f, walk(x)) for f, x in v[2]))
            if isinstance(v, tuple):
                return tuple(walk(x) for x in v)
            return v
        form = {}
        for n in sorted(obs):
            form[n] = walk(obs[n][0])
        for f in sorted(heap):
            for k in sorted(heap[f], key=repr):
                if not (isinstance(k, tuple) and len(k) == 2 and k[0] == "o" and k[1] in M.news):
                    form["heap:" + f, k] = walk(heap[f][k])
        forms.append(form)
    a, b = forms
    for n in sorted(set(a) | set(b), key=repr):
        nm = n if isinstance(n, str) else n[0]
        x, y = a.get(n), b.get(n)
        if x is None or y is None:
            if isinstance(n, str):
                continue
            z = x if y is None else y
            if bases[nm] is None or not same(rc.M.old(bases[nm], n[1], z), z, rc.M):
                out.append(Diff(nm, None, "written only by one of the two"))
        elif x != y:
            out.append(Diff(nm, None, "value differs"))
    return out


def cmpstate(rc, rs, prog, rule, und):
    if rule.get("iso"):
        return cmpiso(rc, rs, und)
    code, spec = rc.s, rs.s
    out = []

    def one(name, x, y, loc=None):
        vy, py = _val(rs, y)
        if py:
            und.add(name + ":spec:" + py)
            return
        vx, px = _val(rc, x)
        if px:
            if px == "oob":
                out.append(Diff(name, loc, "value reads outside a container"))
            else:
                und.add(name + ":" + px)
            return
        if not same(vx, vy, rc.M):
            out.append(Diff(name, loc, "value differs"))

    if spec.ret is not None:
        if code.ret is None:
            out.append(Diff("ret", None, "no value returned"))
        else:
            one("ret", code.ret, spec.ret)
    for n, y in spec.outs.items():
        x = code.outs.get(n)
        if x is not None:
            one("out:" + n, x, y)
    known = rule.get("known", ())
    selfrec = rule.get("selfrec")
    for f in sorted(set(code.heap) | set(spec.heap)):
        x, y = code.heap.get(f), spec.heap.get(f)
        if selfrec is not None and x is None and y is not None:
            # constructor: code yields a record, the spec writes through self
            kd = kind(y)[1:] or "x"
            one("heap:" + f, rf(selfrec, f, kd), mget(y, mk("fn", "a0", "o"), kd))
            continue
        if y is None:
            if f not in known:
                continue
            y = mk("fn", "H:" + f, kind(x)) if False else base_of(x)
            if y is None:
                continue
        if x is None:
            x = base_of(y)
            if x is None:
                continue
        one("heap:" + f, x, y)
    return out


def base_of(m):
    while m.op in ("mset", "msetq"):
        m = m.a[0] if m.op == "mset" else m.a[1]
    if m.op == "fn":
        return m
    if m.op == "ite":
        return base_of(m.a[1]) or base_of(m.a[2])
    return None


def same(a, b, M):
    if a == b:
        return True
    if M.modulo and isinstance(a, int) and isinstance(b, int):
        return (a - b) % M.modulo == 0
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) > 2 and len(b) > 2 and a[0] == b[0] == "M":
            if a[1] != b[1]:
                return False
            da, db = dict(a[2]), dict(b[2])
            for k in set(da) | set(db):
                x, y = da.get(k), db.get(k)
                if x is None or y is None:
                    z = y if x is None else x
                    # a store of the old value is no change
                    old = M.old(a[1], k, z)
                    if not same(z, old, M):
                        return False
                elif not same(x, y, M):
                    return False
            return True
        if len(a) > 2 and len(b) > 2 and a[0] == "R" and b[0] == "R":
            da, db = dict(a[2]), dict(b[2])
            for f in set(da) | set(db):
                x, y = da.get(f), db.get(f)
                if x is None:
                    if isinstance(a[1], str):
                        continue
                    x = M.oldf(a[1], f, y)
                if y is None:
                    if isinstance(b[1], str):
                        continue
                    y = M.oldf(b[1], f, x)
                if not same(x, y, M):
                    return False
            return isinstance(a[1], str) or isinstance(b[1], str) or a[1] == b[1]
        if len(a) == len(b):
            return all(same(x, y, M) for x, y in zip(a, b))
    return False


def identical(code, spec, rule):
    """observables whose normal forms coincide"""
    diff = []
    if norm_events(code.ev) != norm_events([e for e in spec.ev if not only_assume(e)]):
        diff.append("trace")
    if spec.ret is not None and code.ret is not spec.ret:
        diff.append("ret")
    for n, y in spec.outs.items():
        if n in code.outs and code.outs[n] is not y:
            diff.append("out:" + n)
    selfrec = rule.get("selfrec")
    known = rule.get("known", ())
    for f in sorted(set(code.heap) | set(spec.heap)):
        x, y = code.heap.get(f), spec.heap.get(f)
        if selfrec is not None:
            if x is None and y is not None:
                kd = kind(y)[1:] or "x"
                if rf(selfrec, f, kd) is not mget(y, mk("fn", "a0", "o"), kd):
                    diff.append("heap:" + f)
                continue
        if x is y:
            continue
        if y is None and f not in known:
            continue
        diff.append("heap:" + f)
    return diff


def only_assume(e):
    return e.kind == "assume" or (e.kind == "loop" and e.sub and all(only_assume(x) for x in e.sub))


def _atoms(t):
    out = []
    TM.atoms(t, out, set())
    return out

"""Lock discipline of records that own a mutex.

A typestate per operation (public method) of such a record: which of its
mutexes are held, and whether what is known about the guarded fields is stale
because the lock was released meanwhile (by waiting or by unlocking).

 - every access to a field of the record (other than its mutexes, condition
   variables and atomics) holds one and the same mutex, in all operations;
 - after a re-acquisition, the state is examined in a condition again before
   it is otherwise used;
 - waiting happens with the lock held.
"""
from program import rel
from run import Finding


class St(object):
    def __init__(self, held=(), stale=False, seen=False, vars=None):
        self.held, self.stale, self.seen = frozenset(held), stale, seen
        self.vars = dict(vars or {})   # lock variable -> [mutex, held]
        self.dead = False

    def copy(self):
        s = St(self.held, self.stale, self.seen, {k: list(v) for k, v in self.vars.items()})
        s.dead = self.dead
        return s

    def meet(self, o):
        if self.dead:
            self.__dict__.update(o.copy().__dict__)
            return
        if o.dead:
            return
        self.held &= o.held
        self.stale |= o.stale
        self.seen |= o.seen
        for k in list(self.vars):
            if k in o.vars:
                self.vars[k][1] &= o.vars[k][1]


def types(rec):
    mx, cv = set(), set()
    for f in rec:
        t = f[1]
        if "mutex" in t and "unique_lock" not in t:
            mx.add(f[0])
        if "condition_variable" in t or t.startswith(("std::atomic", "const std::atomic")):
            cv.add(f[0])
    return mx, cv


LOCKS = ("std::unique_lock", "std::lock_guard", "std::scoped_lock", "std::shared_lock")


class Walk(object):
    def __init__(self, prog, cls, mx, cv):
        self.prog, self.cls, self.mx, self.cv = prog, cls, mx, cv
        self.acc = []        # (field, lockset, function, line, write?)
        self.bad = []        # (key, function, line, text)
        self.waits = 0
        self.stack = []
        self.alias = {}

    # --- helpers
    def field(self, e):
        """field of this record that the lvalue denotes, if any"""
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "mem" and e.get("fc") == self.cls:
            return e["f"]
        if k == "mem" and e.get("b") is not None and not e.get("arrow"):
            return self.field(e["b"])
        if k == "var":
            return self.alias.get(e["id"])
        if k in ("cast", "copy") and "e" in e:
            return self.field(e["e"])
        if k == "un" and e.get("op") in ("&", "*"):
            return self.field(e["e"])
        if k == "call" and (e.get("fn", {}).get("qn") in ("std::move", "std::ref", "std::addressof", "std::forward")) and e["args"]:
            return self.field(e["args"][0])
        return None

    def access(self, st, f, line, look=False):
        if f in self.mx or f in self.cv or st.dead:
            return
        self.acc.append((f, st.held, self.stack[-1], line))
        if look:
            st.stale = False
        if st.stale and not self.incond:
            self.bad.append(("stale", self.stack[-1], line,
                             "%s is used after the lock was re-acquired, without examining the state again" % f))

    def lockvar(self, e):
        while e.get("k") in ("cast", "copy"):
            e = e["e"]
        if e.get("k") == "call" and e["args"] and e.get("fn", {}).get("qn") in ("std::move", "std::ref"):
            return self.lockvar(e["args"][0])
        return e.get("id") if e.get("k") == "var" else None

    def acquire(self, st, m):
        if m in st.held:
            self.bad.append(("twice", self.stack[-1], self.line, "%s is locked while it is held" % m))
        st.held |= {m}
        if st.seen:
            st.stale = True
        st.seen = True

    def release(self, st, m):
        st.held -= {m}

    # --- statements
    incond = 0
    line = 0

    def stmt(self, st, s):
        if s is None or st.dead:
            return
        self.line = s.get("l", self.line)
        getattr(self, "s_" + s["k"], self.s_other)(st, s)

    def s_other(self, st, s):
        self.expr(st, s)

    def s_block(self, st, s):
        own = []
        for x in s["s"]:
            if x["k"] == "decl":
                own += [d["id"] for d in x["d"]]
            self.stmt(st, x)
        for v in reversed(own):
            if v in st.vars:
                m, h = st.vars.pop(v)
                if h:
                    for q in m:
                        self.release(st, q)

    def s_decl(self, st, s):
        for d in s["d"]:
            ini = d.get("init")
            ty = d["ty"].replace("const ", "")
            if ty.startswith(LOCKS):
                ms = [self.field(a) for a in (ini or {}).get("args", [])]
                ms = [m for m in ms if m in self.mx]
                tags = str([a.get("ty") for a in (ini or {}).get("args", [])])
                h = "defer_lock" not in tags and "try_to_lock" not in tags
                if h:
                    for m in ms:
                        self.acquire(st, m)
                st.vars[d["id"]] = [ms, h]
                continue
            f = self.field(ini) if ini else None
            if f and ("&" in d["ty"] or "*" in d["ty"]):
                self.alias[d["id"]] = f
                continue
            if ini:
                self.expr(st, ini)

    def cond(self, st, e):
        if e is None:
            return
        self.incond += 1
        n = len(self.acc)
        self.expr(st, e)
        self.incond -= 1
        if len(self.acc) > n:
            st.stale = False

    def s_if(self, st, s):
        self.stmt(st, s.get("init"))
        self.cond(st, s["c"])
        b = st.copy()
        self.stmt(st, s.get("t") or s.get("a"))
        e = s.get("e") or s.get("b")
        if e:
            self.stmt(b, e)
        st.meet(b)

    def loop(self, st, cond, body, inc=None, first=True):
        self.brk = getattr(self, "brk", [])
        if cond is not None and cond.get("k") == "lit" and str(cond.get("v")) not in ("0", "False"):
            cond, first = None, True
        for _ in range(2):
            if first:
                self.cond(st, cond)
            out = st.copy()
            self.brk.append((set(st.vars), []))
            self.stmt(st, body)
            if not st.dead:
                if inc is not None:
                    self.expr(st, inc)
                if not first:
                    self.cond(st, cond)
            brk = self.brk.pop()[1]
            if first:
                st.meet(out)
        if cond is not None or not first:
            if first:
                st.dead = False
                self.cond(st, cond)
        else:
            st.dead = True
        for b in brk:
            st.meet(b)

    def s_while(self, st, s):
        self.loop(st, s["c"], s["b"])

    def s_do(self, st, s):
        self.loop(st, s["c"], s["b"], first=False)

    def s_for(self, st, s):
        self.stmt(st, s.get("i") or s.get("init"))
        self.loop(st, s.get("c"), s["b"], s.get("inc") or s.get("n"))

    def s_rfor(self, st, s):
        for k in ("r", "e", "range"):
            if isinstance(s.get(k), dict):
                self.expr(st, s[k])
        b = st.copy()
        self.stmt(b, s["b"])
        st.meet(b)

    def s_break(self, st, s):
        if getattr(self, "brk", None):
            b = st.copy()
            for v in [v for v in b.vars if v not in self.brk[-1][0]]:
                m, h = b.vars.pop(v)
                for q in m if h else ():
                    self.release(b, q)
            self.brk[-1][1].append(b)
        st.dead = True

    def s_cont(self, st, s):
        st.dead = True

    def s_ret(self, st, s):
        if s.get("e"):
            self.expr(st, s["e"])
        st.dead = True

    def s_try(self, st, s):
        b = st.copy()
        for k, v in s.items():
            if isinstance(v, dict):
                self.stmt(st, v)
            elif isinstance(v, list):
                for h in v:
                    x = b.copy()
                    self.stmt(x, h.get("b", h))
                    st.meet(x)

    # --- expressions
    def expr(self, st, e):
        if isinstance(e, list):
            for x in e:
                self.expr(st, x)
            return
        if not isinstance(e, dict) or st.dead:
            return
        self.line = e.get("l", self.line)
        k = e.get("k")
        f = self.field(e)
        if f is not None and k in ("mem", "var"):
            self.access(st, f, e.get("l", self.line))
            return
        if k == "throw":
            self.expr(st, e.get("e"))
            st.dead = True
            return
        if k == "lambda":
            # runs where it is passed to; threads are handled by the caller
            b = st.copy()
            self.stmt(b, e.get("body"))
            return
        if k in ("block", "if", "while", "do", "for", "rfor", "decl", "ret"):
            self.stmt(st, e)
            return
        if k == "call":
            self.call(st, e)
            return
        if k == "ctor" and e.get("ty", "").startswith(("std::thread", "std::future")):
            for a in e["args"]:
                self.expr(St(), a)
            return
        for x in e.values():
            if isinstance(x, (dict, list)):
                self.expr(st, x)

    def call(self, st, e):
        fn, obj = e.get("fn") or {}, e.get("obj")
        qn = fn.get("qn") or ""
        m = qn.split("::")[-1]
        cls = fn.get("cls") or ""
        if qn == "std::async":
            for a in e["args"]:
                self.expr(St(), a)
            return
        if obj is not None and cls.startswith(LOCKS):
            v = self.lockvar(obj)
            if v in st.vars:
                ms, h = st.vars[v]
                if m == "lock":
                    for q in ms:
                        self.acquire(st, q)
                    st.vars[v][1] = True
                elif m == "unlock" or m == "release":
                    for q in ms:
                        self.release(st, q)
                    st.vars[v][1] = False
                return
        of = self.field(obj) if obj is not None else None
        if of in self.mx:
            if m == "lock":
                self.acquire(st, of)
            elif m == "unlock":
                self.release(st, of)
            return
        if of in self.cv and "condition_variable" in cls:
            if m.startswith("wait"):
                self.waits += 1
                v = self.lockvar(e["args"][0])
                if v in st.vars and not st.vars[v][1]:
                    self.bad.append(("wait", self.stack[-1], e.get("l"), "waits without holding the lock"))
                st.stale = True
                st.seen = True
                for a in e["args"][1:]:
                    if a.get("k") == "lambda" or self.haslambda(a):
                        self.cond(st, a)
                        st.stale = False
            return
        if of is not None and fn.get("const") and m in ("empty", "size"):
            self.access(st, of, e.get("l", self.line), True)
            return
        self.expr(st, obj)
        self.expr(st, e.get("callee"))
        for a in e["args"]:
            self.expr(st, a)
        g = self.prog.fns.get(fn.get("id"))
        if g is not None and g.get("cls") == self.cls and obj is not None and len(self.stack) < 8:
            o = obj
            while o.get("k") in ("cast", "copy") or (o.get("k") == "un" and o.get("op") == "*"):
                o = o["e"]
            if o.get("k") == "this":
                for p, a in zip(g["params"], e["args"]):
                    v = self.lockvar(a)
                    if v in st.vars:
                        st.vars[p["id"]] = st.vars[v]
                    f = self.field(a)
                    if f and "&" in p["ty"]:
                        self.alias[p["id"]] = f
                self.stack.append(g)
                self.stmt(st, g["body"])
                self.stack.pop()
                st.dead = False

    def haslambda(self, e):
        if isinstance(e, dict):
            return e.get("k") == "lambda" or any(self.haslambda(v) for v in e.values())
        return isinstance(e, list) and any(self.haslambda(v) for v in e)


def locks(prog, part):
    found, n, classes = [], 0, {}
    paths = 0
    for cls, rec in sorted(prog.recs.items()):
        fl = [(f["n"], f["ty"]) for f in rec.get("fields", [])]
        mx, cv = types(fl)
        if not mx:
            continue
        ms = [f for f in prog.fns.values() if f.get("cls") == cls and f.get("body")]
        w = Walk(prog, cls, mx, cv)
        per = {}
        roots = [f for f in ms if f.get("acc") in (None, "public") and not f.get("ctor") and "~" not in f["qn"]]
        for f in sorted(roots, key=lambda f: (f["line"], f["qn"])):
            w.stack = [f]
            w.stmt(St(), f["body"])
            paths += 1
        for a in w.acc:
            per.setdefault(a[0], []).append(a)
        for fld, acc in sorted(per.items()):
            n += 1
            cand = frozenset(mx)
            for a in acc:
                cand &= a[1]
            if cand:
                continue
            free = [a for a in acc if not a[1]] or acc
            for a in free:
                found.append(Finding("%s/%s" % (a[2]["qn"], fld), "%s:%s" % (rel(a[2]["file"]), a[3]),
                                     "%s reaches %s without the lock that guards it" % (a[2]["qn"], fld)))
        for key, f, l, text in w.bad:
            found.append(Finding("%s/%s" % (f["qn"], key), "%s:%s" % (rel(f["file"]), l), "%s: %s" % (f["qn"], text)))
        n += len(roots)
        classes[cls] = {"operations": [f["qn"].split("::")[-1] for f in roots], "mutexes": sorted(mx),
                        "accesses": len(w.acc), "guarded_fields": sorted(per), "waits": w.waits}
    seen, out = set(), []
    for f in found:
        if (f.where, f.text) not in seen:
            seen.add((f.where, f.text))
            out.append(f)
    part["records"] = classes
    part["obligations"] = n
    part["discharged"] = n - len(out)
    part["rule"] = "lockset and re-acquisition typestate over every operation of each record that owns a mutex"
    return out, not classes

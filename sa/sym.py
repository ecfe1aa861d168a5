"""Interprocedural gated-SSA value numbering over the resolved program.

`Machine.summary(fn)` abstracts one function (everything it calls inlined, down
to the declared primitives) into: final heap/out-parameter values, return value
and a structured effect trace (sends, receives, throws, opaque calls), all in
the normal forms of terms.py.  There is no path enumeration: branches are merged
with gated values, loops are summarised by solving their recurrences.
"""
import re
from terms import *
import terms as TM

sys_setrec = __import__("sys").setrecursionlimit
sys_setrec(20000)


class Unsupported(Exception):
    pass


def isarray(a):
    """an array object handed on as a pointer to its first element"""
    t = a.get("ty") or ""
    return t.endswith("]") and a.get("k") != "cast"


def strip_ty(ty):
    ty = ty.strip()
    while True:
        t = ty
        for suf in ("&&", "&", " const"):
            if t.endswith(suf):
                t = t[:-len(suf)].strip()
        if t.startswith("const "):
            t = t[6:].strip()
        if t == ty:
            return t
        ty = t


def targ(ty, n=0):
    """n-th template argument of a type string"""
    i = ty.find("<")
    if i < 0:
        return ""
    d = 0
    out = []
    cur = ""
    for c in ty[i:]:
        if c == "<" or c == "(":
            d += 1
            if d == 1:
                continue
        if c == ">" or c == ")":
            d -= 1
            if d == 0:
                break
        if c == "," and d == 1:
            out.append(cur.strip())
            cur = ""
            continue
        cur += c
    out.append(cur.strip())
    return out[n] if n < len(out) else ""


SEQT = ("std::vector<", "std::deque<", "std::queue<", "std::list<", "std::array<", "std::initializer_list<",
        "std::stack<")
MAPT = ("std::map<", "std::unordered_map<")
PTRT = ("std::shared_ptr<", "std::unique_ptr<", "std::__shared_ptr_access<", "std::__shared_ptr<", "std::weak_ptr<")
RINGT = ("scl::details::FF<", "scl::Z2k<")
ITERT = ("__gnu_cxx::__normal_iterator<", "std::_Deque_iterator<", "std::reverse_iterator<")

_TK = {}
# bit-precise mode: machine words wrap, ring elements are their representation
WORD = {"unsigned long": "w", "unsigned int": "v", "unsigned char": "y", "unsigned short": "v", "unsigned long long": "w",
        "unsigned __int128": "q", "std::size_t": "w", "char": "c"}


def bits_mode(bound):
    """switch to bit-precise analysis; bound: intervals of named inputs"""
    global RINGT, SEQT
    RINGT = ("<none>",)
    SEQT = SEQT + ("std::basic_string<char", "std::unique_ptr<unsigned char[]")
    _TK.clear()
    FIELDKIND.clear()
    TM.BITS[0] = True
    TM.BOUND.clear()
    # (lowest, highest[, highest drawn])
    TM.BOUND.update({k: v[:2] for k, v in bound.items()})
    TM.SAMPLE.clear()
    TM.SAMPLE.update({k: (v[2] if v[0] == v[1] else v[0], v[2]) for k, v in bound.items() if len(v) > 2})
    TM._RNG.clear()
    TM.PRIME = (1 << 521) - 1


def tk(ty, recs):
    r = _TK.get(ty)
    if r is None:
        r = _TK[ty] = _tk(strip_ty(ty), recs)
    return r


def _tk(ty, recs):
    m = re.match(r"^(.*)\[(\d*)\]$", ty)
    if m:
        return "s" + _tk(strip_ty(m.group(1)), recs)
    if ty.endswith("*"):
        return "o"
    if ty.startswith(RINGT):
        return "f"
    if ty.startswith(SEQT):
        return "s" + _tk(strip_ty(targ(ty)), recs)
    if ty.startswith(MAPT):
        return "m" + _tk(strip_ty(targ(ty, 1)), recs)
    if ty in ("bool", "std::_Bit_reference"):
        return "b"
    if TM.BITS[0] and ty in WORD:
        return WORD[ty]
    if ty in ("unsigned long", "unsigned int", "unsigned char", "unsigned short", "unsigned long long",
              "unsigned __int128", "std::size_t"):
        return "u"
    if ty in ("int", "long", "short", "char", "signed char", "long long", "__int128"):
        return "i"
    if ty in recs:
        return "r"
    return "o"


class LV(object):
    """location: base ('v', key) | ('h', objterm); path of ('f',fieldkey) ('i',idx) ('m',key)"""
    __slots__ = ("base", "path")

    def __init__(self, base, path=()):
        for i in range(len(path) - 1):
            # element of a reversed view
            if path[i][0] == "rev" and path[i + 1][0] == "i":
                p = path[i + 1]
                path = path[:i] + (("i", sub(sub(path[i][1], ONE), p[1])) + p[2:],) + path[i + 2:]
                break
        self.base = base
        self.path = tuple(path)

    def sub(self, *p):
        return LV(self.base, self.path + p)

    def tup(self):
        return (self.base, self.path)


class Clo(object):
    def __init__(self, node, frame, this):
        self.node, self.frame, self.this = node, frame, this


class Ev(object):
    __slots__ = ("kind", "g", "a", "sub", "loc")

    def __init__(self, kind, g, a, sub=None, loc=None):
        self.kind, self.g, self.a, self.sub, self.loc = kind, g, a, sub, loc

    def guard(self, c):
        if c is TRUE:
            return self
        return Ev(self.kind, and_(c, self.g), self.a, self.sub, self.loc)

    def subst(self, m):
        a = TM._substany(self.a, m)
        sub_ = [e.subst(m) for e in self.sub] if self.sub is not None else None
        return Ev(self.kind, TM._substany(self.g, m), a, sub_, self.loc)


class State(object):
    __slots__ = ("env", "heap", "ev", "live", "brk", "cont", "ret", "rv", "cnt", "lv")

    def __init__(self):
        self.env = {}
        self.heap = {}
        self.ev = []
        self.live = TRUE
        self.brk = FALSE
        self.cont = FALSE
        self.ret = FALSE
        self.rv = None
        self.cnt = {}
        self.lv = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.ev = list(self.ev)
        s.live, s.brk, s.cont, s.ret, s.rv = self.live, self.brk, self.cont, self.ret, self.rv
        s.cnt = dict(self.cnt)
        s.lv = self.lv
        return s


def mergev(c, a, b):
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return merge_t(c, a, b)
    if isinstance(a, LV) and isinstance(b, LV) and a.tup() == b.tup():
        return a
    if a is None:
        return b
    if b is None:
        return a
    return UNK


def merge_t(c, a, b):
    if a.op == "it" and b.op == "it" and a.a[0] == b.a[0]:
        return mk("it", a.a[0], ite(c, a.a[1], b.a[1]))
    return ite(c, a, b)


WORDSZ = {"unsigned char": 1, "unsigned int": 4, "unsigned long": 8, "unsigned __int128": 16, "unsigned long long": 8}


class Prim(object):
    """which functions are primitives (not inlined)"""

    def __init__(self, opaque=(), hooks=None, bound=(), mut=()):
        self.opaque = tuple(opaque)
        self.hooks = hooks or {}
        # public operations summarised by their own contract: a call is an
        # event, not inlined ("ctor:T" for constructors)
        self.bound = frozenset(bound)
        # ... those whose effect on a record held by value is modelled
        self.mut = frozenset(mut)


class Machine(object):
    def __init__(self, prog, prim=None, noalias=True, maxdepth=60):
        self.functy = {}    # locals that hold function objects
        self.dtors = {}
        self.either = {}    # copies of one of two objects
        self.p = prog
        self.prim = prim or Prim()
        self.frames = 0
        self.depth = 0
        self.stack = []
        self.noalias = noalias
        self.maxdepth = maxdepth
        self.tmp = 0
        self.inlined = set()
        self.notes = set()
        self.loops = 0
        self.closures = {}
        self.heap0 = {}
        if getattr(prog, "fieldkinds", None) is None:
            prog.fieldkinds = {}
            for r in prog.recs.values():
                for f in r["fields"]:
                    prog.fieldkinds[r["ty"] + "::" + f["n"]] = tk(f["ty"], prog.recs)
        FIELDKIND.update(prog.fieldkinds)

    # ------------------------------------------------------------ helpers
    def tk(self, ty):
        return tk(ty, self.p.recs)

    def nk(self, e):
        """kind of an expression node"""
        it = e.get("it")
        ty = e.get("ty")
        if ty:
            k = self.tk(ty)
            if it == "e":
                return "u"
            return k
        if it:
            if it == "b":
                return "b"
            if it[0] == "u":
                return {"u8": "y", "u16": "v", "u32": "v", "u64": "w", "u128": "q"}.get(it, "u") if TM.BITS[0] else "u"
            if it[0] == "i":
                return "i"
            if it == "e":
                return "u"
            return "o"
        return "x"

    def fkind(self, fk, default="x"):
        return default

    def note(self, s):
        self.notes.add(s)

    def unk(self, why):
        self.note(why)
        return mk("unk", why)

    def temp(self, st, v):
        self.tmp += 1
        key = ("t", self.tmp)
        st.env[key] = v
        return LV(("v", key))

    # ------------------------------------------------------------ locations
    def heapmap(self, st, fk, kd):
        m = st.heap.get(fk)
        if m is None:
            m = self.heap0.get(fk)
            if m is None:
                m = self.heap0[fk] = mk("fn", "H:" + fk, "m" + FIELDKIND.get(fk, kd))
            st.heap[fk] = m
        return m

    def read(self, st, lv, kd="x"):
        if lv.base in self.either:
            c, a, b = self.either[lv.base]
            return merge_t(c, self.read(st, LV(a.base, a.path + lv.path), kd), self.read(st, LV(b.base, b.path + lv.path), kd))
        if lv.base[0] == "v":
            v = st.env.get(lv.base[1])
            if v is None:
                return self.unk("unbound %s" % (lv.base[1],))
            if isinstance(v, LV):
                return self.read(st, LV(v.base, v.path + lv.path), kd)
            if not isinstance(v, T):
                return self.unk("nonterm")
            path = lv.path
        else:
            obj = lv.base[1]
            if not lv.path:
                if obj.op == "unk":
                    return obj
                ty = self.objty.get(obj) if hasattr(self, "objty") else None
                if ty and kd in ("r", "x") and self.tk(ty) != "f" and ty.startswith("scl::") and ty in self.p.recs and self.allfields(ty):
                    return rec(ty, {fk: mget(self.heapmap(st, fk, self.tk(fty)), obj, self.tk(fty))
                                    for fk, fty in self.allfields(ty)})
                return mk("fn", "deref", obj, self.digest(st), kd)
            if lv.path[0][0] != "f":
                return self.unk("heap index")
            fk = lv.path[0][1]
            k0 = kd if len(lv.path) == 1 else lv.path[0][2]
            v = mget(self.heapmap(st, fk, lv.path[0][2]), obj, lv.path[0][2])
            path = lv.path[1:]
        for i, p in enumerate(path):
            k = kd if i == len(path) - 1 else (p[2] if len(p) > 2 else "x")
            if p[0] == "f":
                v = rf(v, p[1], p[2])
            elif p[0] == "i":
                v = get(v, p[1], p[2])
            elif p[0] == "rev":
                j = fresh("u")
                v = mk_tab(p[1], j, get(v, sub(sub(p[1], ONE), j), kind(v)[1:] or "x"))
            else:
                v = mget(v, p[1], p[2])
        return v

    def _upd(self, v, path, nv):
        if not path:
            return nv
        p = path[0]
        if p[0] == "f":
            return with_(v, p[1], self._upd(rf(v, p[1], p[2]), path[1:], nv))
        if p[0] == "i":
            return set_at(v, p[1], self._upd(get(v, p[1], p[2]), path[1:], nv))
        if p[0] == "rev":
            return mk("unk", "write through a reversed view")
        return mset(v, p[1], self._upd(mget(v, p[1], p[2]), path[1:], nv))

    def write(self, st, lv, nv):
        if not isinstance(nv, T):
            nv = self.unk("nonterm value")
        if lv.base in self.either:
            c, a, b = self.either[lv.base]
            for g, x in ((c, a), (not_(c), b)):
                x = LV(x.base, x.path + lv.path)
                kd = x.path[-1][-1] if x.path else kind(nv)
                self.write(st, x, ite(g, nv, self.read(st, x, kd if isinstance(kd, str) else kind(nv))))
            return
        if lv.base[0] == "v":
            v = st.env.get(lv.base[1])
            if isinstance(v, LV):
                return self.write(st, LV(v.base, v.path + lv.path), nv)
            if not lv.path:
                st.env[lv.base[1]] = nv
            else:
                st.env[lv.base[1]] = self._upd(v, lv.path, nv) if isinstance(v, T) else UNK
            return
        obj = lv.base[1]
        if not lv.path:
            if nv.op == "rec":
                for f, v in nv.a[1]:
                    self.write(st, LV(lv.base, (("f", f, kind(v)),)), v)
            else:
                ty = self.objty.get(obj) if hasattr(self, "objty") else None
                if ty and ty in self.p.recs:
                    for fk, fty in self.allfields(ty):
                        kd = self.tk(fty)
                        self.write(st, LV(lv.base, (("f", fk, kd),)), rf(nv, fk, kd))
                else:
                    st.ev.append(Ev("call", TRUE, ("assign-object", obj, nv)))
            return
        p = lv.path[0]
        if p[0] != "f":
            return
        m = self.heapmap(st, p[1], p[2])
        if obj.op == "unk":
            st.heap[p[1]] = obj
            return
        if len(lv.path) == 1:
            st.heap[p[1]] = mset(m, obj, nv)
        else:
            st.heap[p[1]] = mset(m, obj, self._upd(mget(m, obj, p[2]), lv.path[1:], nv))

    def digest(self, st, skip=None):
        d = []
        for k, v in st.heap.items():
            while skip is not None and v.op == "mset" and v.a[1] is skip:
                v = v.a[0]
            if v.op not in ("fn",) and not k.startswith("scl::"):
                d.append((k, v))
        return mk("dig", tuple(sorted(d, key=lambda kv: kv[0])))

    def allfields(self, ty):
        r = self.p.recs.get(ty)
        if not r:
            return []
        out = []
        for b in r["bases"]:
            out += self.allfields(b)
        return out + [(r["ty"] + "::" + f["n"], f["ty"]) for f in r["fields"]]

    # ------------------------------------------------------------ construction
    def default(self, st, ty, depth=0):
        ty = strip_ty(ty)
        kd = self.tk(ty)
        if kd == "f":
            return ZERO
        if kd[0] == "s":
            m = re.match(r"^(.*)\[(\d+)\]$", ty)
            if m:
                return mk_tab(I(int(m.group(2))), fresh(), mk("fn", "undef", kd[1:] or "x"))
            if ty.startswith("std::array<"):
                n = targ(ty, 1)
                try:
                    n = int(re.sub(r"[uUlL]+$", "", n))
                    return mk_tab(I(n), fresh(), mk("fn", "undef", kd[1:] or "x"))
                except ValueError:
                    pass
            return EMPTY
        if kd[0] == "m":
            return MEMPTY
        if kd == "r":
            return self.construct(st, ty, None, [], None)
        if ty.startswith(PTRT):
            return mk("null")
        if ty.startswith("std::basic_string<"):
            return mk("str", "")
        if ty.startswith("std::pair<"):
            return rec(ty, {ty + "::first": self.default(st, targ(ty, 0)), ty + "::second": self.default(st, targ(ty, 1))})
        return mk("fn", "undef", kd)

    def blank(self, st, ty):
        r = self.p.recs[ty]
        d = {}
        for b in r["bases"]:
            if b in self.p.recs:
                x = self.blank(st, b)
                for f, v in x.a[1]:
                    d[f] = v
        for f in r["fields"]:
            fk = r["ty"] + "::" + f["n"]
            kd = self.tk(f["ty"])
            if kd in TM._NK + ("o", "x") and kd != "f" and not strip_ty(f["ty"]).startswith(PTRT):
                d[fk] = mk("fn", "undef:" + fk, kd)
            elif kd == "r":
                d[fk] = mk("fn", "undef:" + fk, "r")
            else:
                d[fk] = self.default(st, f["ty"])
        return rec(ty, d)

    def construct(self, st, ty, fn, args, node, argnodes=None):
        """value of ty constructed by fn(args)"""
        ty = strip_ty(ty)
        if ty not in self.p.recs:
            return None
        if "ctor:" + ty in self.prim.bound:
            return mk("fn", "ctor:" + ty, *([self.val(st, a) if isinstance(a, (T, LV)) else UNK for a in args] + ["r"]))
        v = self.blank(st, ty)
        lv = self.temp(st, v)
        self.run_ctor(st, lv, ty, fn, args, node)
        v = self.read(st, lv, "r")
        st.env.pop(lv.base[1], None)
        return v

    def run_ctor(self, st, lv, ty, fn, args, node):
        if self.prim.hooks.get("ctor:" + ty) is True or "ctor:" + ty in self.prim.bound:
            self.write(st, lv, mk("fn", "ctor:" + ty, *([self.val(st, a) if isinstance(a, (T, LV)) else UNK
                                                         for a in args] + ["r"])))
            return
        f = self.p.fns.get(fn["id"]) if fn else None
        if f is None and fn:
            # C1/C2 variants share one body
            for alt in (fn["id"].replace("C1E", "C2E"), fn["id"].replace("C2E", "C1E")):
                f = f or self.p.fns.get(alt)
        r = self.p.recs[ty]
        if f is None:
            if fn is None or not args:
                # implicit or unknown default constructor
                cand = [g for g in self.p.by_qn.get(r["qn"] + "::" + r["qn"].split("::")[-1], []) if
                        g.get("ctor") and not g["params"] and g.get("cls") == ty]
                cand = cand or [g for g in self.p.fns.values() if g.get("ctor") and not g["params"] and g.get("cls") == ty]
                # constructors whose parameters all have defaults are not visible here
                if cand:
                    f = cand[0]
                else:
                    self.init_fields(st, lv, ty, {})
                    return
            else:
                self.write(st, lv, mk("fn", "ctor:" + ty, *([a if isinstance(a, T) else UNK for a in args] + ["r"])))
                return
        vals = self.bind_args(st, f, args, fn)
        self.inline(st, f, lv, vals, ctor=(lv, ty))

    def init_fields(self, st, lv, ty, given):
        r = self.p.recs[ty]
        for b in r["bases"]:
            if b in self.p.recs and b not in given:
                self.run_ctor(st, lv, b, None, [], None)
        for f in r["fields"]:
            fk = r["ty"] + "::" + f["n"]
            if f["n"] in given:
                continue
            kd = self.tk(f["ty"])
            if f.get("init"):
                self.frames += 1
                fr = self.frames
                st.env[(fr, "this")] = lv
                v = self.rv(st, f["init"], fr)
                self.write(st, lv.sub(("f", fk, kd)), self.conv(v, f["ty"]))
            elif kd == "f" or kd not in TM._NK + ("o", "x"):
                self.write(st, lv.sub(("f", fk, kd)), self.default(st, f["ty"]))

    def conv(self, v, ty):
        return v

    # ------------------------------------------------------------ functions
    def bind_args(self, st, f, args, fn):
        return args

    def inline(self, st, f, this, args, ctor=None):
        """args: list of T or LV (for references)"""
        if self.depth > self.maxdepth or self.stack.count(f["id"]) > 2:
            return self.unk("recursion " + f["qn"])
        self.depth += 1
        self.stack.append(f["id"])
        self.inlined.add(f["id"])
        self.frames += 1
        fr = self.frames
        outer = (st.live, st.brk, st.cont, st.ret, st.rv)
        st.live, st.brk, st.cont, st.ret, st.rv = TRUE, FALSE, FALSE, FALSE, None
        try:
            if this is not None:
                st.env[(fr, "this")] = this
            for i, p in enumerate(f["params"]):
                if i < len(args):
                    a = args[i]
                else:
                    a = self.unk("default arg")
                if p.get("ref"):
                    if isinstance(a, T):
                        a = self.temp(st, a)
                elif isinstance(a, LV):
                    a = self.read(st, a, self.tk(p["ty"]))
                st.env[(fr, p["id"])] = a
            if ctor:
                self.do_inits(st, f, ctor[0], ctor[1], fr)
            self.stmt(st, f["body"], fr)
            rv = st.rv
            alive = or_(st.live, st.ret)
            isref = f["ret"].endswith("&")
            if rv is None:
                rv = mk("fn", "void", "x")
            elif isinstance(rv, LV) and not isref:
                rv = self.read(st, rv, self.tk(f["ret"]))
        finally:
            self.depth -= 1
            self.stack.pop()
        st.live, st.brk, st.cont, st.ret, st.rv = outer
        if alive is not TRUE:
            st.live = alive   # an exception left the function
        return rv

    def do_inits(self, st, f, lv, ty, fr):
        given = set()
        for i in f.get("inits", []):
            if i.get("deleg"):
                e = i["e"]
                if e["k"] == "ctor":
                    args = self.args(st, e["fn"], e["args"], fr)
                    self.run_ctor(st, lv, ty, e["fn"], args, e)
                return
            if i.get("base"):
                given.add(i["base"])
            elif i.get("f") and i["written"]:
                given.add(i["f"])
        r = self.p.recs.get(ty)
        if not r:
            return
        # bases first, in order
        for i in f.get("inits", []):
            if i.get("base") and i["base"] in self.p.recs:
                e = i["e"]
                if e and e["k"] == "ctor":
                    args = self.args(st, e["fn"], e["args"], fr)
                    self.run_ctor(st, lv, i["base"], e["fn"], args, e)
        self.init_fields(st, lv, ty, given | set(r["bases"]))
        for i in f.get("inits", []):
            if i.get("f") and i["written"]:
                fd = [x for x in r["fields"] if x["n"] == i["f"]]
                if not fd:
                    continue
                fk = r["ty"] + "::" + i["f"]
                kd = self.tk(fd[0]["ty"])
                v = self.init_value(st, i["e"], fd[0]["ty"], fr)
                self.write(st, lv.sub(("f", fk, kd)), v)

    def init_value(self, st, e, ty, fr):
        if e is None:
            return self.default(st, ty)
        if e["k"] == "ilist" and e.get("ty", ty):
            v = self.ilist(st, e, ty, fr)
            if v is not None:
                return v
        return self.rv(st, e, fr)

    def ilist(self, st, e, ty, fr):
        ty = strip_ty(e.get("ty") or ty)
        kd = self.tk(ty)
        if kd[0] == "s":
            vs = [unit(self.init_value(st, x, targ(ty) if "<" in ty else re.sub(r"\[\d*\]$", "", ty), fr)) for x in e["args"]]
            m = re.match(r"^(.*)\[(\d+)\]$", ty)
            if m and len(vs) < int(m.group(2)):
                vs += [unit(ZERO)] * (int(m.group(2)) - len(vs))
            if ty.startswith("std::array<") and len(vs) == 1:
                # array aggregate: {{...}}
                if e["args"] and e["args"][0]["k"] == "ilist":
                    return self.ilist(st, e["args"][0], None, fr)
            return cat(*vs)
        if kd == "r":
            r = self.p.recs[ty]
            d = {}
            for b in r["bases"]:
                x = self.default(st, b)
                if x.op == "rec":
                    d.update(dict(x.a[1]))
            for f, x in zip(r["fields"], e["args"]):
                d[r["ty"] + "::" + f["n"]] = self.init_value(st, x, f["ty"], fr)
            for f in r["fields"][len(e["args"]):]:
                d[r["ty"] + "::" + f["n"]] = self.default(st, f["ty"])
            return rec(ty, d)
        if not e["args"]:
            if kd in TM._NK:
                return ZERO
            return self.default(st, ty)
        if len(e["args"]) == 1:
            return self.rv(st, e["args"][0], fr)
        return None

    # ------------------------------------------------------------ statements
    def stmt(self, st, s, fr):
        if s is None:
            return
        if st.live is not TRUE:
            if st.live is FALSE:
                return
            # execute under the liveness gate
            c = st.live
            sub = st.copy()
            sub.ev = []
            sub.live, sub.brk, sub.cont, sub.ret = TRUE, FALSE, FALSE, FALSE
            sub.rv = st.rv
            self.stmt(sub, s, fr)
            self.join_into(st, c, sub)
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("statement " + k)
        m(st, s, fr)

    def join_into(self, st, c, sub):
        """st := if c then sub else st   (sub ran from st with live=TRUE)"""
        for key, v in sub.env.items():
            o = st.env.get(key)
            if o is not v:
                st.env[key] = v if o is None else mergev(c, v, o)
        for key, v in sub.heap.items():
            o = st.heap.get(key)
            if o is not v:
                st.heap[key] = merge_t(c, v, o if o is not None else self.base_of(v, key))
        st.ev.extend(e.guard(c) for e in sub.ev)
        st.cnt = sub.cnt
        if sub.rv is not st.rv:
            if st.rv is None:
                st.rv = sub.rv
            else:
                st.rv = mergev(and_(c, sub.ret), sub.rv, st.rv)
        st.live = and_(c, sub.live)
        st.brk = or_(st.brk, and_(c, sub.brk))
        st.cont = or_(st.cont, and_(c, sub.cont))
        st.ret = or_(st.ret, and_(c, sub.ret))

    def base_of(self, v, key):
        m = self.heap0.get(key)
        if m is not None:
            return m
        while v.op in ("mset", "msetq", "ite", "with"):
            v = v.a[1] if v.op in ("msetq", "ite") else v.a[0]
        return v

    def branch(self, st, c, fa, fb):
        if c is TRUE:
            fa(st)
            return
        if c is FALSE:
            fb(st)
            return
        a = st.copy()
        b = st.copy()
        a.ev, b.ev = [], []
        self.path = getattr(self, "path", ()) + (c,)
        fa(a)
        self.path = self.path[:-1] + (not_(c),)
        b.cnt = dict(a.cnt)
        fb(b)
        self.path = self.path[:-1]
        self.join(st, c, a, b)

    def join(self, st, c, a, b):
        for key in set(a.env) | set(b.env):
            x, y = a.env.get(key), b.env.get(key)
            if x is y:
                st.env[key] = x
            elif x is None:
                st.env[key] = y
            elif y is None:
                st.env[key] = x
            else:
                st.env[key] = mergev(c, x, y)
        for key in set(a.heap) | set(b.heap):
            x, y = a.heap.get(key), b.heap.get(key)
            if x is y:
                st.heap[key] = x
                continue
            if x is None:
                x = st.heap.get(key) or self.base_of(y, key)
            if y is None:
                y = st.heap.get(key) or self.base_of(x, key)
            st.heap[key] = merge_t(c, x, y)
        st.ev.extend(e.guard(c) for e in a.ev)
        st.ev.extend(e.guard(not_(c)) for e in b.ev)
        st.cnt = dict(b.cnt)
        st.live = ite(c, a.live, b.live)
        st.brk = ite(c, a.brk, b.brk)
        st.cont = ite(c, a.cont, b.cont)
        st.ret = ite(c, a.ret, b.ret)
        if a.rv is None:
            st.rv = b.rv
        elif b.rv is None:
            st.rv = a.rv
        else:
            st.rv = mergev(c, a.rv, b.rv)

    def s_block(self, st, s, fr):
        for x in s["s"]:
            self.stmt(st, x, fr)

    def s_nop(self, st, s, fr):
        pass

    def s_expr(self, st, s, fr):
        e = s["e"]
        self.discard(st, e, fr)

    def discard(self, st, e, fr):
        while e["k"] == "cast" and e.get("ck") == "ToVoid":
            e = e["e"]
        if e["k"] == "call" and e.get("fn"):
            self.call(st, e, fr, discarded=True)
        else:
            self.ev(st, e, fr)

    def s_decl(self, st, s, fr):
        for d in s["d"]:
            self.decl(st, d, fr)

    def hasdtor(self, ty):
        """whether destroying an object of the class runs statements of the program"""
        ty = strip_ty(ty)
        r = self.dtors.get(ty)
        if r is None:
            self.dtors[ty] = False
            own = [f for f in self.p.fns.values() if f.get("dtor") and f.get("cls") == ty]
            rc = self.p.recs.get(ty)
            r = any((f.get("body") or {}).get("s") for f in own) or \
                rc is not None and any(self.hasdtor(t) for t in rc["bases"] + [x["ty"] for x in rc["fields"] if not x["ty"].rstrip().endswith(("&", "*"))])
            self.dtors[ty] = r
        return r

    def decl(self, st, d, fr):
        key = (fr, d["id"])
        if not d.get("ref") and not d.get("static") and d.get("ty") and self.hasdtor(d["ty"]):
            raise Unsupported("destructor of " + strip_ty(d["ty"]))
        if d.get("static") and not d.get("ref"):
            # persists: initialised when first reached, or left by an earlier call
            sk = ("st", d["id"])
            if sk not in st.env:
                self.decl(st, dict(d, static=False, id=d["id"]), fr)
                st.env[sk] = st.env.pop(key)
            self.statics[sk] = d
            st.env[key] = LV(("v", sk))
            return
        if d.get("ref"):
            v = self.ev(st, d["init"], fr)
            if isinstance(v, T):
                v = self.temp(st, v)
            st.env[key] = self.resolve(st, v)
        elif d.get("init") is not None:
            v = self.init_value(st, d["init"], d["ty"], fr)
            if isinstance(v, LV):
                v = self.read(st, v, self.tk(d["ty"]))
            st.env[key] = v
        elif d.get("arr") is not None:
            st.env[key] = mk_tab(I(d["arr"]), fresh(), mk("fn", "undef", self.tk(d["ty"])[1:] or "x"))
        elif d.get("vla") is not None:
            n = self.rv(st, d["vla"], fr)
            st.env[key] = mk_tab(n, fresh(), mk("fn", "undef", "u"))
        else:
            st.env[key] = self.default(st, d["ty"])
        for i, b in enumerate(d.get("binds") or []):
            v = st.env[key]
            if isinstance(v, LV):
                v = self.read(st, v, "x")
            st.env[(fr, b["id"])] = mk("fn", "bind", v, I(i), "x")

    def resolve(self, st, lv):
        """follow reference variables"""
        while lv.base[0] == "v":
            v = st.env.get(lv.base[1])
            if isinstance(v, LV):
                lv = LV(v.base, v.path + lv.path)
            else:
                return lv
        return lv

    def s_if(self, st, s, fr):
        if s.get("init"):
            self.stmt(st, s["init"], fr)
        if s.get("cvar"):
            self.decl(st, s["cvar"], fr)
        if "cx" in s:
            self.stmt(st, s["t"] if s["cx"] else s.get("e"), fr)
            return
        c = self.cond(st, s["c"], fr)
        if st.live is not TRUE:
            # the condition itself may have thrown
            g = st.live
            sub = st.copy()
            sub.ev = []
            sub.live, sub.brk, sub.cont, sub.ret = TRUE, FALSE, FALSE, FALSE
            self.branch(sub, c, lambda x: self.stmt(x, s["t"], fr), lambda x: self.stmt(x, s.get("e"), fr))
            self.join_into(st, g, sub)
            return
        self.branch(st, c, lambda x: self.stmt(x, s["t"], fr), lambda x: self.stmt(x, s.get("e"), fr))

    def s_ret(self, st, s, fr):
        if s.get("e"):
            f = self.p.fns.get(self.stack[-1]) if self.stack and not getattr(self, "inlambda", 0) else None
            if s["e"]["k"] == "ilist" and f:
                v = self.init_value(st, s["e"], f["ret"], fr)
            else:
                v = self.ev(st, s["e"], fr)
            if isinstance(v, LV):
                v = self.resolve(st, v)
                if not (f and f["ret"].endswith("&")):
                    v = self.read(st, v, self.nk(s["e"]))
            st.rv = v if st.rv is None or True else v
        st.ret = TRUE
        st.live = FALSE

    def s_break(self, st, s, fr):
        st.brk = TRUE
        st.live = FALSE

    def s_cont(self, st, s, fr):
        st.cont = TRUE
        st.live = FALSE

    def s_label(self, st, s, fr):
        raise Unsupported("label")

    def s_try(self, st, s, fr):
        raise Unsupported("try")

    def s_switch(self, st, s, fr):
        if s.get("init"):
            self.stmt(st, s["init"], fr)
        c = self.rv(st, s["c"], fr)
        groups = []  # (labels, stmts)
        cur = None
        body = s["b"]["s"] if s["b"]["k"] == "block" else [s["b"]]
        for x in body:
            while x and x["k"] in ("case", "default"):
                lab = "default" if x["k"] == "default" else x["v"]
                if cur is None or cur[1]:
                    cur = ([], [])
                    groups.append(cur)
                cur[0].append(lab)
                x = x["s"]
            if cur is None:
                raise Unsupported("switch")
            if x is not None:
                cur[1].append(x)
        for i, (_, ss) in enumerate(groups[:-1]):
            last = ss[-1] if ss else None
            while last and last["k"] == "block":
                last = last["s"][-1] if last["s"] else None
            if not last or last["k"] not in ("break", "ret") and not (
                    last["k"] == "expr" and last["e"]["k"] == "throw"):
                raise Unsupported("switch fallthrough")
        conds = []
        for labs, ss in groups:
            g = FALSE
            for l in labs:
                if l == "default":
                    g = None
                    break
                g = or_(g, eqv(c, self.rv(st, l, fr)))
            conds.append(g)
        alln = FALSE
        for g in conds:
            if g is not None:
                alln = or_(alln, g)
        conds = [not_(alln) if g is None else g for g in conds]

        def run(x, i):
            if i == len(groups):
                return
            self.branch(x, conds[i],
                        lambda y: [self.stmt(y, q, fr) for q in groups[i][1]],
                        lambda y: run(y, i + 1))
        run(st, 0)
        # break leaves the switch only
        st.live = or_(st.live, st.brk)
        st.brk = FALSE

    # ------------------------------------------------------------ loops
    def s_for(self, st, s, fr):
        if s.get("init"):
            self.stmt(st, s["init"], fr)

        def pre(x):
            return self.cond(x, s["c"], fr) if s.get("c") else TRUE

        def body(x):
            self.stmt(x, s["b"], fr)

        def inc(x):
            if s.get("inc"):
                self.discard(x, s["inc"], fr)
        if TM.BITS[0] and s.get("c") and st.live is TRUE and self.constloop(st, pre, body, inc):
            return
        self.loop(st, pre, body, inc)

    def constloop(self, st, pre, body, inc):
        """a loop whose condition is decided by constants, iteration by iteration"""
        S = st.copy()
        S.ev = list(st.ev)
        for i in range(33):
            c = pre(S)
            if c is FALSE:
                break
            if c is not TRUE or i == 32:
                return False
            body(S)
            if S.brk is not FALSE or S.cont is not FALSE or S.live is not TRUE:
                return False
            inc(S)
        for a in ("env", "heap", "ev", "live", "brk", "cont", "ret", "rv", "cnt"):
            setattr(st, a, getattr(S, a))
        return True

    def s_while(self, st, s, fr):
        def pre(x):
            if s.get("cvar"):
                self.decl(x, s["cvar"], fr)
            return self.cond(x, s["c"], fr)
        self.loop(st, pre, lambda x: self.stmt(x, s["b"], fr), lambda x: None)

    def s_do(self, st, s, fr):
        # body; while(c) body
        def body(x):
            self.stmt(x, s["b"], fr)
        first = [True]

        def pre(x):
            return TRUE

        def inc(x):
            c = self.cond(x, s["c"], fr)
            # leaving at the end of an iteration
            x.brk = or_(x.brk, not_(c))
        self.loop(st, pre, body, inc, lateexit=True)

    def s_rfor(self, st, s, fr):
        r = self.ev(st, s["r"], fr)
        if isinstance(r, T):
            r = self.temp(st, r)
        r = self.resolve(st, r)
        rty = strip_ty(s["rty"])
        # class with begin()/end(): look for the single sequence it wraps
        r = self.as_seq(st, r, rty)
        v = s["v"]
        seq = self.read(st, r, self.tk(rty))
        n = length(seq)
        ek = self.tk(v["ty"])
        ety = strip_ty(v["ty"])

        def bind(x, k):
            if v.get("ref") and not v["ty"].startswith("const"):
                x.env[(fr, v["id"])] = r.sub(("i", k, ek))
            else:
                x.env[(fr, v["id"])] = get(self.read(x, r, "s" + ek), k, ek)
        self.loop(st, None, lambda x: self.stmt(x, s["b"], fr), lambda x: None, n=n, bind=bind)

    def as_seq(self, st, lv, ty):
        ty = strip_ty(ty)
        r = self.p.recs.get(ty)
        if r:
            fs = [f for f in r["fields"] if self.tk(f["ty"])[0] == "s"]
            if len(fs) == 1:
                return lv.sub(("f", r["ty"] + "::" + fs[0]["n"], self.tk(fs[0]["ty"])))
        return lv

    def loop(self, st, pre, body, inc, n=None, bind=None, lateexit=False):
        """generic loop.  n: trip count when known (range for, algorithms)"""
        self.loops += 1
        E = st.copy()
        E.ev = []
        E.live, E.brk, E.cont, E.ret, E.rv = TRUE, FALSE, FALSE, FALSE, None
        nodes = {}     # location -> shape node
        k = fresh("u", "k")
        final = None
        for attempt in range(14):
            S = E.copy()
            S.lv = E.lv + (k,)
            self.install(S, E, nodes, k)
            start_env = dict(S.env)
            start_heap = dict(S.heap)
            c = TRUE
            if pre is not None:
                c = pre(S)
            if bind is not None:
                bind(S, k)
            B = S.copy()
            pre_state = S
            B.ev = []
            body(B)
            # continue joins the end of the body
            B.live = or_(B.live, B.cont)
            B.cont = FALSE
            if B.live is not FALSE:
                if B.live is TRUE:
                    inc(B)
                    if lateexit and B.brk is not FALSE:
                        B.live = not_(B.brk)
                else:
                    sub_ = B.copy()
                    g = B.live
                    sub_.ev = []
                    sub_.live, sub_.brk, sub_.cont, sub_.ret = TRUE, FALSE, FALSE, FALSE
                    inc(sub_)
                    if lateexit and sub_.brk is not FALSE:
                        sub_.live = not_(sub_.brk)
                    self.join_into(B, g, sub_)
            e = or_(B.brk, B.ret, not_(or_(B.live, B.brk, B.ret)))  # any early exit incl. throw
            if isinstance(c, T) and c is not TRUE and c.op != "unk" and e is not FALSE:
                e = assume(e, c, True)
            # changed locations
            new = False
            for key in list(start_env):
                if key not in E.env:
                    continue
                v0, v1 = start_env[key], B.env.get(key)
                loc = ("e", key)
                if v0 is not v1 and loc not in nodes:
                    if isinstance(v0, LV) or isinstance(v1, LV):
                        if isinstance(v0, LV) and isinstance(v1, LV) and v0.tup() == v1.tup():
                            continue
                        raise Unsupported("rebound reference in loop")
                    nodes[loc] = Leaf(E.env[key])
                    new = True
            for fk in set(start_heap) | set(B.heap):
                v1 = B.heap.get(fk)
                v0 = start_heap.get(fk)
                if v0 is None:
                    v0 = self.base_of(v1, fk)
                    if v0.op == "fn":
                        E.heap.setdefault(fk, v0)
                loc = ("h", fk)
                if v1 is not None and v0 is not v1 and loc not in nodes:
                    nodes[loc] = Leaf(E.heap.get(fk, v0))
                    new = True
            if new:
                continue
            # extract step values
            exitc = e
            prog = False
            for loc in list(nodes):
                v1 = (B.env if loc[0] == "e" else B.heap).get(loc[1])
                if not isinstance(v1, T):
                    raise Unsupported("loop value")
                nd, ch = self.extract(nodes[loc], v1, k)
                if ch:
                    nodes[loc] = nd
                    prog = True
            if prog:
                continue
            leaves = [l for nd in nodes.values() for l in nd.leaves()]
            unsolved = frozenset(l.phi for l in leaves if l.closed is None)
            for l in leaves:
                if l.closed is None:
                    step = l.step
                    if exitc is not FALSE:
                        step = assume(step, exitc, False)
                    if c is not TRUE and isinstance(c, T) and c.op != "unk" and e is not FALSE:
                        step = assume(step, c, True)
                    if TM.BITS[0] and isinstance(c, T):
                        step = counter(step, l.phi, c)
                    r = self.solve(l, step, k, unsolved)
                    if r == "refine":
                        prog = True
                    elif r is not None:
                        l.closed = r
                        prog = True
            # shape refinement requested
            for loc in list(nodes):
                nd = nodes[loc].refine()
                if nd is not nodes[loc]:
                    nodes[loc] = nd
                    prog = True
            if not prog:
                final = (c, e, B, pre_state, leaves)
                break
            if not any(l.closed is None for nd in nodes.values() for l in nd.leaves()):
                # everything solved: one more evaluation with closed forms in place
                continue
        if final is None:
            raise Unsupported("loop does not stabilise")
        c, e, B, PS, leaves = final
        unsolved = [l for l in leaves if l.closed is None]
        smap = {}
        if unsolved:
            phis = {l.phi: l for l in unsolved}
            for l in unsolved:
                order = [l]
                i = 0
                while i < len(order):
                    fv = order[i].step.fv
                    for q in unsolved:
                        if q.phi in fv and q not in order:
                            order.append(q)
                    i += 1
                l.sys = order
            for l in unsolved:
                smap[l.phi] = self.loopterm(l, k)
        fix = (lambda t: subst(t, smap)) if smap else (lambda t: t)
        fixed_nodes = nodes
        for l in unsolved:
            ll = l
            l.closed = (lambda ll: (lambda kk: subst(self.loopterm(ll, k), {k: kk})))(ll)
        c = fix(c)
        e = fix(e)
        if n is not None:
            N = n
        else:
            N = ZERO if subst(c, {k: ZERO}) is FALSE else mk_first(INF, k, not_(c))
        if N.op == "unk":
            self.note("trip count unknown")
        # constant trip count: unroll
        if N.op == "int" and 0 <= N.a[0] <= (24 if TM.BITS[0] else 12):
            self.unroll(st, N.a[0], pre, body, inc, bind, lateexit)
            return
        esc = e is not FALSE
        if esc:
            M = mk_first(N, k, e)
        else:
            M = N
        # events
        evs = []
        for x in PS.ev:
            evs.append(x.subst(smap) if smap else x)
        pre_evs = list(evs)
        bev = [x.subst(smap) if smap else x for x in B.ev]
        allev = evs + bev
        if allev:
            g = TRUE
            NN = N
            if esc:
                if N is INF:
                    NN = add(M, ONE)
                else:
                    g = ge(M, k)
            st.ev.append(Ev("loop", TRUE, (k, NN), [x.guard(g) for x in allev]))
        # values after the loop
        post = E.copy()
        self.install(post, E, nodes, N if not esc else None) if not esc else None
        if esc:
            hit = lt(M, N) if N is not INF else TRUE
            A = E.copy()
            if N is not INF:
                self.install(A, E, nodes, N)
            X = E.copy()
            at = dict(smap)
            for loc in nodes:
                v1 = (B.env if loc[0] == "e" else B.heap).get(loc[1])
                (X.env if loc[0] == "e" else X.heap)[loc[1]] = subst(fix(v1), {k: M})
            for loc in nodes:
                d = st.env if loc[0] == "e" else st.heap
                xv = (X.env if loc[0] == "e" else X.heap)[loc[1]]
                av = (A.env if loc[0] == "e" else A.heap).get(loc[1])
                d[loc[1]] = mergev(hit, xv, av) if hit is not TRUE else xv
            ret = subst(fix(B.ret), {k: M})
            brk = subst(fix(B.brk), {k: M})
            if B.rv is not None:
                rv = B.rv
                if isinstance(rv, T):
                    rv = subst(fix(rv), {k: M})
                elif isinstance(rv, LV):
                    rv = LV(rv.base, TM._substany(TM._substany(rv.path, smap), {k: M}))
                r0 = and_(hit, ret)
                st.rv = rv if st.rv is None else mergev(r0, rv, st.rv)
                st.ret = and_(hit, ret)
            elif ret is not FALSE:
                st.ret = and_(hit, ret)
            st.live = ite(hit, brk, TRUE)
        else:
            for loc in nodes:
                d = st.env if loc[0] == "e" else st.heap
                d[loc[1]] = (post.env if loc[0] == "e" else post.heap)[loc[1]]
        # names declared inside are out of scope; counters advance
        st.cnt = dict(B.cnt)
        # heap fields first touched inside the loop
        for fk, v in B.heap.items():
            if fk not in st.heap and v.op == "fn":
                st.heap[fk] = v
        # inc side effects of the failing condition evaluation: when pre has
        # effects they were folded into the step; evaluate once more
        if pre is not None and not esc:
            S2 = post.copy()
            S2.lv = st.lv
            for loc in nodes:
                d2 = S2.env if loc[0] == "e" else S2.heap
                d2[loc[1]] = (st.env if loc[0] == "e" else st.heap)[loc[1]]
            S2.env.update({kk: vv for kk, vv in st.env.items() if kk not in S2.env})
            before_e, before_h = dict(S2.env), dict(S2.heap)
            pre(S2)
            for key, v in S2.env.items():
                if key in before_e and before_e[key] is not v:
                    st.env[key] = v
            for key, v in S2.heap.items():
                if key in before_h and before_h[key] is not v:
                    st.heap[key] = v

    def unroll(self, st, n, pre, body, inc, bind, lateexit):
        done = FALSE
        outer_live = st.live
        for i in range(n):
            if st.live is FALSE:
                break

            def one(x):
                if pre is not None:
                    pre(x)
                if bind is not None:
                    bind(x, I(i))
                body(x)
                x.live = or_(x.live, x.cont)
                x.cont = FALSE
                if x.live is TRUE:
                    inc(x)
                elif x.live is not FALSE:
                    y = x.copy()
                    g = x.live
                    y.ev = []
                    y.live, y.brk, y.cont, y.ret = TRUE, FALSE, FALSE, FALSE
                    inc(y)
                    self.join_into(x, g, y)
            if st.live is TRUE:
                one(st)
            else:
                g = st.live
                y = st.copy()
                y.ev = []
                y.live, y.brk, y.cont, y.ret = TRUE, FALSE, FALSE, FALSE
                one(y)
                self.join_into(st, g, y)
        st.live = or_(st.live, st.brk)
        st.brk = FALSE

    def loopterm(self, l, k):
        order = l.sys
        h = 0
        for q in order:
            h = max(h, q.step.hb, q.base.hb)
        m = {k: mk("bv", h + 1, "u")}
        bvs = [m[k]]
        for i, q in enumerate(order):
            b = mk("bv", h + 2 + i, kind(q.phi))
            m[q.phi] = b
            bvs.append(b)
        sysm = mk("loop", tuple(bvs), tuple(q.base for q in order), tuple(subst(q.step, m) for q in order))
        return loopv(sysm, 0, k, kind(l.phi) if kind(l.phi) != "x" else kind(l.base))

    def install(self, S, E, nodes, k):
        for loc, nd in nodes.items():
            v = nd.install(k)
            if loc[0] == "e":
                S.env[loc[1]] = v
            else:
                S.heap[loc[1]] = v

    def extract(self, nd, v, k):
        return nd.extract(v, k)

    def solve(self, l, s, k, U):
        """closed form k -> term of the recurrence phi' = s, or None"""
        phi, b = l.phi, l.base
        if s is phi:
            return lambda kk: b
        if s.op == "unk":
            return lambda kk: ite(pos(kk), s, b) if not (isinstance(kk, T) and kk is ZERO) else b
        free = not (s.fv & U)
        kd = kind(b)
        num = isnum(b) or isnum(s)
        if num:
            d = sub(s, phi)
            if not (d.fv & U):
                if indep(d, k):
                    return lambda kk: add(b, mul(kk, d))
                return lambda kk: add(b, self._sumto(kk, k, d))
        if b.op == "it" and s.op == "it":
            pass
        if free:
            if indep(s, k):
                return lambda kk: ite(pos(kk), s, b)
            return lambda kk: ite(pos(kk), subst(s, {k: sub(kk, ONE)}), b)
        if num:
            # linear in phi
            m, d = {}, {}
            ok = True
            for mono, cf in P(s).items():
                has = [(y, ex) for y, ex in mono if y is phi]
                rest = tuple((y, ex) for y, ex in mono if y is not phi)
                if any(phi in y.fv for y, ex in rest) or (has and has[0][1] != 1):
                    ok = False
                    break
                (m if has else d)[rest] = (m if has else d).get(rest, 0) + cf
            if ok:
                mt, dt = TM._fromP(m), TM._fromP(d)
                if not (mt.fv & U) and not (dt.fv & U):
                    if dt is ZERO:
                        return lambda kk: mul(b, self._prodto(kk, k, mt))
                    # 1 - (1-b) * prod(m) when d = 1 - m
                    if sub(ONE, mt) is dt:
                        return lambda kk: TM._markbool(sub(ONE, mul(sub(ONE, b), self._prodto(kk, k, mt))))
                    if indep(mt, k):
                        def horner(kk):
                            j = fresh("u")
                            return add(mul(b, mk_pow(mt, kk)),
                                       mk_sum(kk, j, mul(mk_pow(mt, sub(sub(kk, ONE), j)), subst(dt, {k: j}))))
                        return horner
        if kind(phi)[0] == "s" or s.op in ("cat", "upd", "updq", "drop", "take", "filt", "flat"):
            if s.op == "cat" and s.a[0] is phi:
                X = cat(*s.a[1:])
                if not (X.fv & U):
                    def app(kk):
                        j = fresh("u")
                        return cat(b, mk_flat(kk, j, subst(X, {k: j})))
                    return app
            if s.op == "cat" and s.a[-1] is phi:
                pass
            if s.op == "drop" and s.a[0] is phi and not (s.a[1].fv & U) and indep(s.a[1], k):
                return lambda kk: drop(b, mul(kk, s.a[1]))
            if s.op == "upd" and s.a[0] is phi:
                i, v = s.a[1], s.a[2]
                if not (i.fv & U):
                    af = affine(i, k)
                    if not indep(i, k):
                        if af and af[0] != 0:
                            mp = {}
                            for x in atoms(v):
                                if x.op == "idx" and x.a[0] is phi and x.a[1] is i:
                                    mp[x] = get(b, i, x.a[2])
                            v2 = substa(v, mp) if mp else v
                        else:
                            v2 = v
                        if not (v2.fv & U):
                            def up(kk):
                                j = fresh("u")
                                return mk_updq(j, b, kk, TRUE, subst(i, {k: j}), subst(v2, {k: j}))
                            return up
                    elif l.at is None and l.depth < 6:
                        l.want = ("at", i, kind(v))
                        return "refine"
            # length facts help later rounds
            if phi not in TM.LENFACT:
                try:
                    ln = length(s)
                    d = sub(ln, mk("len", phi))
                    if not (d.fv & U):
                        TM.LENFACT[phi] = add(length(b), self._sumto(k, k, d))
                        return "refine"
                except Exception:
                    pass
        if s.op == "with" and s.a[0] is phi and l.depth < 6:
            l.want = ("rec", [(f, kind(v)) for f, v in s.a[1]])
            return "refine"
        if s.op == "rec" and l.depth < 6:
            l.want = ("rec", [(f, kind(v)) for f, v in s.a[1]])
            return "refine"
        if s.op == "mset" or s.op == "msetq":
            # chain of writes on phi
            ch = []
            x = s
            while x.op == "mset":
                ch.append((x.a[1], x.a[2]))
                x = x.a[0]
            if x is phi:
                if all(indep(o, k) and not (o.fv & U) for o, _ in ch):
                    if l.depth < 6:
                        l.want = ("key", [(o, kind(v)) for o, v in ch])
                        return "refine"
                if len(ch) == 1 and not (ch[0][0].fv & U):
                    key, v = ch[0]
                    if not (v.fv & U):
                        def ms(kk):
                            j = fresh("u")
                            return mk_msetq(j, b, kk, TRUE, subst(key, {k: j}), subst(v, {k: j}))
                        return ms
                    if v.op != "unk" and isnum(v):
                        # gated write: v = c*new + (1-c)*old
                        old = mget(phi, key, kind(v) if kind(v) != "i" else kind(v))
                        cand = None
                        for y in atoms(v):
                            if y.op == "mg" and y.a[0] is phi and y.a[1] is key:
                                cand = y
                        if cand is not None:
                            z0 = substa(v, {cand: ZERO})
                            z1 = substa(v, {cand: ONE})
                            cc = not_(sub(z1, z0))   # coefficient of old is 1-c
                            nv = z0
                            if not (cc.fv & U) and not (nv.fv & U) and TM._isbool01(cc) and mul(cc, nv) is nv:
                                def msg(kk):
                                    j = fresh("u")
                                    mm = {k: j}
                                    w = assume(subst(nv, mm), subst(cc, mm), True)
                                    return mk_msetq(j, b, kk, subst(cc, mm), subst(key, mm), w)
                                return msg
            if s.op == "msetq" and s.a[1] is phi:
                pass
        if s.op == "ite" and kind(s)[0] == "m":
            pass
        return None

    def _sumto(self, kk, k, d):
        j = fresh("u")
        return mk_sum(kk, j, subst(d, {k: j}))

    def _prodto(self, kk, k, d):
        j = fresh("u")
        return mk_prod(kk, j, subst(d, {k: j}))

    # ------------------------------------------------------------ expressions
    def cond(self, st, e, fr):
        v = self.rv(st, e, fr)
        return self.tobool(v)

    def tobool(self, v):
        if isnum(v):
            return ne0(v)
        if v.op == "null":
            return FALSE
        if v.op in ("new", "ptr", "it", "str"):
            return TRUE
        if v.op == "ite":
            return ite(v.a[0], self.tobool(v.a[1]), self.tobool(v.a[2]))
        return not_(eqo(v, mk("null")))

    def rv(self, st, e, fr):
        v = self.ev(st, e, fr)
        if isinstance(v, LV):
            if e.get("ty", "")[-1:] == "]":
                # an array is its address
                return mk("it", self.resolve(st, v).tup(), ZERO)
            return self.read(st, v, self.nk(e))
        if isinstance(v, Clo):
            self.closures[len(self.closures)] = v
            return mk("clo", len(self.closures) - 1)
        return v

    def lval(self, st, e, fr):
        v = self.ev(st, e, fr)
        if isinstance(v, T):
            return self.temp(st, v)
        return self.resolve(st, v)

    def ev(self, st, e, fr):
        if e is None:
            return mk("fn", "void", "x")
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            return self.unk("expr " + k)
        return m(st, e, fr)

    def e_lit(self, st, e, fr):
        return I(int(e["v"]))

    def e_flt(self, st, e, fr):
        return mk("fn", "flt%r" % e["v"], "x")

    def e_null(self, st, e, fr):
        return mk("null")

    def e_str(self, st, e, fr):
        return mk("str", e["v"])

    def e_enum(self, st, e, fr):
        if "cv" in e:
            return I(int(e["cv"]))
        return mk("fn", "enum:" + e["n"], "u")

    def e_sizeof(self, st, e, fr):
        if "cv" in e:
            return I(int(e["cv"]))
        return mk("fn", "sizeof:" + e["ty"], "u")

    def e_zero(self, st, e, fr):
        kd = self.tk(e["ty"])
        if kd in TM._NK:
            return ZERO
        if e["ty"].endswith("*"):
            return mk("null")
        return self.default(st, e["ty"])

    def e_this(self, st, e, fr):
        v = st.env.get((fr, "this"))
        if v is None:
            return self.unk("this")
        if isinstance(v, LV):
            return mk("ptr", v.tup())
        return v

    def e_fref(self, st, e, fr):
        return mk("fn", "&" + e["fn"]["qn"], "o")

    def e_var(self, st, e, fr):
        if "cv" in e and e.get("glob"):
            return I(int(e["cv"]))
        if e.get("be"):
            return self.ev(st, e["be"], fr)
        if e.get("glob"):
            if "cv" in e:
                return I(int(e["cv"]))
            key = ("g", e["glob"])
            if key not in st.env:
                g = self.p.globs.get(e["glob"])
                v = None
                if g and g[0].get("const") and g[0].get("init"):
                    try:
                        v = self.init_value(st, g[0]["init"], g[0]["ty"], fr)
                    except Unsupported:
                        v = None
                if v is None or not isinstance(v, T):
                    v = mk("fn", "G:" + e["glob"], self.tk(e.get("ty", "x")))
                st.env[key] = v
            return LV(("v", key))
        key = (fr, e["id"])
        if key in st.env:
            v = st.env[key]
            if isinstance(v, LV):
                return v
            return LV(("v", key))
        # captured variable of an enclosing frame
        f = fr
        while f in self.parent:
            f = self.parent[f]
            if (f, e["id"]) in st.env:
                v = st.env[(f, e["id"])]
                return v if isinstance(v, LV) else LV(("v", (f, e["id"])))
        if "cv" in e:
            return I(int(e["cv"]))
        return self.unk("variable " + e["n"])

    parent = {}

    def deref(self, st, v):
        """object denoted by pointer value v"""
        if isinstance(v, LV):
            v = self.read(st, v, "o")
        if v.op == "ptr":
            b, p = v.a[0]
            return LV(b, p)
        if v.op == "it":
            b, p = v.a[0]
            return LV(b, p + (("i", v.a[1], v.a[2] if len(v.a) > 2 else "x"),))
        return LV(("h", v))

    def e_mem(self, st, e, fr):
        fk = (e.get("fc") or "?") + "::" + e["f"]
        kd = self.nk(e)
        if e["arrow"]:
            b = self.ev(st, e["b"], fr)
            lv = self.deref(st, b)
        else:
            b = self.ev(st, e["b"], fr)
            if isinstance(b, T):
                if b.op == "unk":
                    return b
                if kind(b) == "o":
                    lv = LV(("h", b))
                else:
                    return rf(b, fk, kd)
            else:
                lv = self.resolve(st, b)
        if lv.path and lv.path[-1][0] == "mp":
            # an entry of a map
            _, key, vk = lv.path[-1]
            return LV(lv.base, lv.path[:-1] + (("m", key, vk),)) if e["f"] == "second" else self.temp(st, key)
        return lv.sub(("f", fk, kd))

    def e_idx(self, st, e, fr):
        b = self.ev(st, e["b"], fr)
        i = self.rv(st, e["i"], fr)
        kd = self.nk(e)
        if isinstance(b, LV):
            b = self.resolve(st, b)
            v = self.read(st, b, "x")
            if v.op == "it":
                bb, pp = v.a[0]
                return LV(bb, pp + (("i", add(v.a[1], i), kd),))
            if v.op in ("null", "new") or kind(v) == "o" and v.op == "fn":
                return LV(b.base, b.path + (("i", i, kd),)) if False else self.temp(st, mk("fn", "elem", v, i, kd))
            return b.sub(("i", i, kd))
        if b.op == "it":
            bb, pp = b.a[0]
            return LV(bb, pp + (("i", add(b.a[1], i), kd),))
        if b.op == "str":
            return get(b, i, kd)
        if kind(b)[0] == "s":
            return get(b, i, kd)
        return self.unk("idx")

    def e_copy(self, st, e, fr):
        return self.rv(st, e["e"], fr)

    def e_ilist(self, st, e, fr):
        v = self.ilist(st, e, e.get("ty"), fr)
        return v if v is not None else self.unk("ilist")

    def e_cast(self, st, e, fr):
        ck = e.get("ck")
        if ck == "ToVoid":
            self.discard(st, e["e"], fr)
            return mk("fn", "void", "x")
        v = self.ev(st, e["e"], fr)
        to = e.get("to", "")
        if ck in ("LValueToRValue", "NoOp", "BitCast", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived",
                  "ArrayToPointerDecay", "LValueBitCast", "ConstructorConversion", "UserDefinedConversion", "Dynamic"):
            if ck == "ArrayToPointerDecay" and isinstance(v, LV):
                return mk("it", v.tup(), ZERO)
            if TM.BITS[0] and ck == "BitCast" and isinstance(v, LV) and e.get("ty", "").endswith("*"):
                v = self.read(st, v, "o")
            if TM.BITS[0] and ck == "BitCast" and isinstance(v, T) and v.op == "it":
                w = WORDSZ.get(strip_ty(e.get("ty", "")).rstrip("*").replace("const", "").strip())
                if w and w > 1 and strip_ty(e.get("fty", "")).rstrip("*").replace("const", "").strip() in ("unsigned char", "void"):
                    return mk("fn", "view", v, w, "o")
            if e.get("ck") == "BitCast" and isinstance(v, T) and v.op in ("ptr", "it") and e.get("ty") != e.get("fty"):
                if v.op == "ptr" or True:
                    return v
            return v
        if isinstance(v, LV):
            v = self.read(st, v, self.nk(e["e"]))
        if to == "b":
            return self.tobool(v)
        if to and to[0] in "ui" and to[1:].isdigit():
            w = int(to[1:])
            frm = e.get("from") or ""
            fw = int(frm[1:]) if frm[1:].isdigit() and frm[0] in "ui" else 0
            if frm == "b":
                return v
            if TM.BITS[0] and isnum(v):
                if to[0] == "u":
                    return TM.wrap(v, w) if TM.rng(v)[0] is not None and TM.rng(v)[0] >= 0 and (TM.small(v) and w >= 32) else TM.rem(v, 1 << w)
                lo, hi = TM.rng(v)
                if lo is not None and hi is not None and -(1 << w - 1) <= lo and hi < 1 << w - 1 or TM.small(v) and w >= 32:
                    return v
                x = TM.rem(v, 1 << w)
                return ite(pos(sub(x, I((1 << w - 1) - 1))), sub(x, I(1 << w)), x)
            if w < 32 and fw > w and isnum(v):
                if to[0] == "u":
                    return mod(v, I(1 << w))
                return mk("fn", "trunc", v, w, "i")
            return v
        if to == "f" or (e.get("from") == "f"):
            return mk("fn", "fcast", v, "x")
        return v

    def e_cond(self, st, e, fr):
        c = self.cond(st, e["c"], fr)
        if c is TRUE:
            return self.ev(st, e["a"], fr)
        if c is FALSE:
            return self.ev(st, e["b"], fr)
        out = {}

        def run(x, key, node):
            v = self.ev(x, node, fr)
            if isinstance(v, LV):
                lvs.append(self.resolve(x, v))
                v = self.read(x, v, self.nk(node))
            out[key] = v
        lvs = []
        self.branch(st, c, lambda x: run(x, "a", e["a"]), lambda x: run(x, "b", e["b"]))
        r = merge_t(c, out["a"], out["b"])
        if len(lvs) == 2:
            r = self.temp(st, r)
            self.either[r.base] = (c, lvs[0], lvs[1])
        return r

    def e_throw(self, st, e, fr):
        ty = e.get("ty", "")
        st.ev.append(Ev("throw", TRUE, (ty,), loc=e.get("l")))
        st.live = FALSE
        return mk("fn", "void", "x")

    def e_lambda(self, st, e, fr):
        self.frames += 1
        f = self.frames
        par = dict(self.parent)
        par[f] = fr
        self.parent = par
        for c in e["caps"]:
            if c.get("this"):
                st.env[(f, "this")] = st.env.get((fr, "this"))
            elif not c.get("ref"):
                v = self.rv(st, c["init"], fr) if c.get("init") else None
                if v is not None:
                    st.env[(f, c["id"])] = v
            else:
                v = self.ev(st, c["init"], fr)
                if isinstance(v, LV):
                    st.env[(f, c["id"])] = self.resolve(st, v)
        if (f, "this") not in st.env and (fr, "this") in st.env:
            st.env[(f, "this")] = st.env[(fr, "this")]
        return Clo(e, f, None)

    def callclo(self, st, clo, args, fid=None):
        e, f = clo.node, clo.frame
        if e.get("insts"):
            c = [x for x in e["insts"] if x["fid"] == fid] or e["insts"]
            if len(c) != 1:
                return self.unk("generic lambda")
            e = c[0]
        self.frames += 1
        g = self.frames
        par = dict(self.parent)
        par[g] = f
        self.parent = par
        if (f, "this") in st.env:
            st.env[(g, "this")] = st.env[(f, "this")]
        for p, a in zip(e["params"], args):
            if isinstance(a, Clo):
                self.closures[len(self.closures)] = a
                a = mk("clo", len(self.closures) - 1)
            if "&" in p["ty"]:
                if isinstance(a, T):
                    a = self.temp(st, a)
            elif isinstance(a, LV):
                a = self.read(st, a, self.tk(p["ty"]))
            st.env[(g, p["id"])] = a
        outer = (st.live, st.brk, st.cont, st.ret, st.rv)
        st.live, st.brk, st.cont, st.ret, st.rv = TRUE, FALSE, FALSE, FALSE, None
        self.inlambda = getattr(self, "inlambda", 0) + 1
        try:
            self.stmt(st, e["body"], g)
        finally:
            self.inlambda -= 1
        rv = st.rv
        alive = or_(st.live, st.ret)
        st.live, st.brk, st.cont, st.ret, st.rv = outer
        if alive is not TRUE:
            st.live = alive
        if isinstance(rv, LV):
            rv = self.read(st, rv, "x")
        return rv if rv is not None else mk("fn", "void", "x")

    def asclo(self, st, v):
        if isinstance(v, Clo):
            return v
        if isinstance(v, LV):
            v = self.read(st, v, "o")
        if isinstance(v, T) and v.op == "clo":
            return self.closures[v.a[0]]
        return None

    def applyfn(self, st, v, args):
        c = self.asclo(st, v)
        if c:
            return self.callclo(st, c, args)
        lv = v if isinstance(v, LV) else None
        if lv is not None:
            v = self.read(st, v, "o")
            if v.op not in ("rec", "fn") and v.op != "clo":
                v = self.read(st, lv, "r")
        cls = v.a[0] if v.op == "rec" else self.functy.get(lv.base) if lv is not None else None
        if cls:
            if lv is not None and lv.base[0] == "v" and not lv.path:
                self.functy[lv.base] = cls
            fs = [f for f in self.p.by_qn.get(cls + "::operator()", []) if len(f["params"]) == len(args)]
            if len(fs) == 1:
                return self.inline(st, fs[0], lv if lv is not None else self.temp(st, v), args)
            return self.unk("function object")
        if v.op == "fn" and isinstance(v.a[0], str) and v.a[0].startswith("&"):
            fs = [f for f in self.p.by_qn.get(v.a[0][1:], []) if len(f["params"]) == len(args)]
            if len(fs) == 1:
                return self.inline(st, fs[0], None, args)
        r = self.stdfunctor(st, v, args)
        if r is not None:
            return r
        return mk("fn", "apply", v, *([self.val(st, a) for a in args] + ["x"]))

    FUNCTORS = {"plus": "+", "minus": "-", "multiplies": "*", "divides": "/", "modulus": "%", "negate": "u-",
                "equal_to": "==", "not_equal_to": "!=", "less": "<", "greater": ">", "less_equal": "<=",
                "greater_equal": ">=", "logical_and": "&&", "logical_or": "||", "logical_not": "u!",
                "bit_and": "&", "bit_or": "|", "bit_xor": "^"}

    def stdfunctor(self, st, v, args):
        """std::plus<T>{} and the like; objects of the program's own classes with a call operator"""
        m = re.match(r"ctor:std::(\w+)<(.*)>$", v.a[0]) if v.op == "fn" and isinstance(v.a[0], str) else None
        if m and m.group(1) in self.FUNCTORS:
            op = self.FUNCTORS[m.group(1)]
            t = strip_ty(m.group(2))
            nk = self.tk(t) if t != "void" else "x"
            vs = [self.val(st, a, nk) for a in args]
            if op == "u!":
                return not_(self.tobool(vs[0]))
            if op in ("&&", "||"):
                a, b = [self.tobool(x) for x in vs]
                return and_(a, b) if op == "&&" else not_(and_(not_(a), not_(b)))
            it = {"unsigned int": "u32", "unsigned long": "u64", "unsigned char": "u8", "unsigned short": "u16",
                  "int": "i32", "long": "i64"}.get(t, "")
            e = {"k": "bin", "op": op, "ty": t, "it": it, "a": {"ty": t, "it": it}, "b": {"ty": t, "it": it}}
            if op == "u-":
                return neg(vs[0]) if isnum(vs[0]) else self.unk("functor")
            if op in ("+", "-", "*") and not TM.BITS[0]:
                return {"+": add, "-": sub, "*": mul}[op](*vs) if all(isnum(x) for x in vs) else self.unk("functor")
            return self.arith(st, op, vs[0], vs[1], e)
        return None

    def val(self, st, a, kd="x"):
        return self.read(st, a, kd) if isinstance(a, LV) else a

    def e_un(self, st, e, fr):
        op = e["op"]
        if op == "&":
            v = self.ev(st, e["e"], fr)
            if isinstance(v, LV):
                v = self.resolve(st, v)
                if v.base[0] == "h" and not v.path:
                    return v.base[1]
                if v.path and v.path[-1][0] == "i":
                    return mk("it", (v.base, v.path[:-1]), v.path[-1][1])
                return mk("ptr", v.tup())
            return self.unk("addrof")
        if op == "*":
            v = self.ev(st, e["e"], fr)
            if isinstance(v, T) and v.op == "fn" and v.a[0] == "view":
                return self.loadbytes(st, v.a[1], v.a[2])
            lv = self.deref(st, v)
            if lv.path and lv.path[-1][0] == "i":
                return LV(lv.base, lv.path[:-1] + (("i", lv.path[-1][1], self.nk(e)),))
            return lv
        if op in ("++", "--"):
            lv = self.lval(st, e["e"], fr)
            v = self.read(st, lv, self.nk(e["e"]))
            d = ONE if op == "++" else I(-1)
            if v.op == "it":
                nv = mk("it", v.a[0], add(v.a[1], d))
            elif isnum(v):
                nv = add(v, d)
                it = e.get("it") or e["e"].get("it") or ""
                if TM.BITS[0] and it[:1] == "u" and it[1:].isdigit():
                    nv = TM.wrap(nv, int(it[1:]))
            else:
                nv = self.unk("incr")
            self.write(st, lv, nv)
            return v if e.get("post") else lv
        v = self.rv(st, e["e"], fr)
        if op == "!":
            return not_(self.tobool(v))
        uw = int(e["it"][1:]) if TM.BITS[0] and (e.get("it") or "")[:1] == "u" and e["it"][1:].isdigit() else 0
        if op == "-":
            return TM.wrap(neg(v), uw) if uw else neg(v)
        if op == "+":
            return v
        if op == "~" and uw:
            return sub(I((1 << uw) - 1), v)
        if op == "~":
            return sub(neg(v), ONE)
        return self.unk("un " + op)

    def loadbytes(self, st, it, n):
        """little-endian value of n bytes"""
        lv = LV(*it.a[0])
        return add(*[scale(get(self.read(st, lv, "sy"), add(it.a[1], I(j)), "y"), 1 << 8 * j) for j in range(n)])

    def arith(self, st, op, a, b, e):
        r = self.arith0(st, op, a, b, e)
        if TM.BITS[0] and op in ("+", "-", "*", "<<") and r.op != "it" and isnum(r):
            it = e.get("ct") or e.get("it") or ""
            if it[:1] == "u" and it[1:].isdigit():
                r = TM.wrap(r, int(it[1:]))
        return r

    def arith0(self, st, op, a, b, e):
        if a.op == "unk" or b.op == "unk":
            return a if a.op == "unk" else b
        if a.op == "mit" and b.op == "mit" and a.a[0] == b.a[0] and op in ("==", "!="):
            # places in a map
            end = [x.a[1].op == "null" for x in (a, b)]
            if all(end):
                r = TRUE
            elif any(end):
                x = b if end[0] else a
                o = LV(*x.a[0])
                r = not_(self.mhas(st, o, "m" + x.a[2], x.a[1]))
            else:
                return self.unk("map iterators")
            return r if op == "==" else not_(r)
        if a.op == "it" or b.op == "it":
            if op == "+" and b.op != "it":
                return mk("it", a.a[0], add(a.a[1], b))
            if op == "+" and a.op != "it":
                return mk("it", b.a[0], add(b.a[1], a))
            if op == "-" and b.op != "it":
                return mk("it", a.a[0], sub(a.a[1], b))
            if a.op == "it" and b.op == "it" and a.a[0] == b.a[0]:
                x, y = a.a[1], b.a[1]
                if op == "-":
                    return sub(x, y)
                return self.arith(st, op, x, y, e)
            if op in ("==", "!=") and TM.BITS[0] and "null" in (a.op, b.op):
                # a pointer to memory
                return FALSE if op == "==" else TRUE
            if op in ("==", "!="):
                r = mk("fn", "iteq", *([a, b] if a.uid < b.uid else [b, a]) + ["b"])
                return r if op == "==" else not_(r)
            return self.unk("iterator arithmetic")
        if op in ("==", "!="):
            r = eqv(a, b) if isnum(a) == isnum(b) else self.unk("eq")
            if r.op == "unk":
                return r
            return r if op == "==" else not_(r)
        if not (isnum(a) and isnum(b)):
            if op in ("<", ">", "<=", ">="):
                return mk("fn", "ord" + op, a, b, "b")
            return self.unk("arith %s on %s,%s" % (op, kind(a), kind(b)))
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if self.nk(e) == "f" or kind(a) == "f" or kind(b) == "f":
                return mul(a, inv(b))
            return mk_div(a, b)
        if op == "%":
            return mod(a, b)
        if op == "<":
            return pos(sub(b, a))
        if op == ">":
            return pos(sub(a, b))
        if op == "<=":
            return not_(pos(sub(a, b)))
        if op == ">=":
            return not_(pos(sub(b, a)))
        if op in ("&", "|", "^", "<<", ">>"):
            return bop(op, a, b)
        return self.unk("op " + op)

    def e_bin(self, st, e, fr):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(st, e["a"], fr)
            if op == "&&" and a is FALSE:
                return FALSE
            if op == "||" and a is TRUE:
                return TRUE
            out = [None]

            def run(x):
                out[0] = self.cond(x, e["b"], fr)

            def nop(x):
                pass
            if op == "&&":
                self.branch(st, a, run, nop)
                return and_(a, out[0])
            self.branch(st, a, nop, run)
            return or_(a, out[0])
        if op == ",":
            self.discard(st, e["a"], fr)
            return self.ev(st, e["b"], fr)
        if "cv" in e and e.get("it") and e["it"][0] in "uib":
            return I(int(e["cv"]))
        a = self.rv(st, e["a"], fr)
        b = self.rv(st, e["b"], fr)
        return self.arith(st, op, a, b, e)

    def e_assign(self, st, e, fr):
        v = self.rv(st, e["b"], fr)
        lv = self.target(st, e["a"], fr)
        cur = st.env.get(lv.base[1]) if lv.base[0] == "v" and not lv.path else None
        if isinstance(cur, T) and cur.op == "fn" and cur.a[0] == "back_inserter" and not (v.op == "fn" and v.a[0] == "back_inserter"):
            out = LV(*cur.a[1])
            sk = kind(self.read(st, out, "x"))
            self.write(st, out, cat(self.read(st, out, sk if sk[:1] == "s" else "s"), unit(v)))
            return lv
        self.write(st, lv, v)
        return lv

    def target(self, st, e, fr):
        """what an assignment changes"""
        v = self.ev(st, e, fr)
        if isinstance(v, LV):
            return self.resolve(st, v)
        if e["k"] == "call" and (e.get("fn") or {}).get("qn", "").startswith(("std::", "__gnu_cxx::")):
            # a reference into something that is not modelled
            st.ev.append(Ev("call", mk("unk", "assignment through " + e["fn"]["qn"].split("<")[0]), ("assign",), loc=e.get("l")))
        return self.temp(st, v)

    def e_cassign(self, st, e, fr):
        b = self.rv(st, e["b"], fr)
        lv = self.target(st, e["a"], fr)
        a = self.read(st, lv, self.nk(e["a"]))
        self.write(st, lv, self.arith(st, e["op"][:-1], a, b, e))
        return lv

    def e_newx(self, st, e, fr):
        ty = e["ty"]
        if e.get("n") is not None:
            n = self.rv(st, e["n"], fr)
            lv = self.temp(st, mk_tab(n, fresh(), mk("fn", "undef", self.tk(ty))))
            return mk("it", lv.tup(), ZERO)
        v = self.init_value(st, e["e"], ty, fr) if e.get("e") else self.default(st, ty)
        return self.alloc(st, ty, v, ())

    def e_delete(self, st, e, fr):
        self.rv(st, e["e"], fr)
        return mk("fn", "void", "x")

    def e_other(self, st, e, fr):
        for x in e.get("args", []):
            if x:
                self.ev(st, x, fr)
        return self.unk("expr class " + str(e.get("cl")))

    def e_ctor(self, st, e, fr):
        ty = strip_ty(e["ty"])
        return self.ctor(st, ty, e, fr)

    def ctor(self, st, ty, e, fr):
        kd = self.tk(ty)
        args = e["args"]
        if kd == "f":
            if not args:
                return ZERO
            return self.rv(st, args[0], fr)
        if ty in self.p.recs:
            h = self.prim.hooks.get("ctor:" + ty)
            if h is None:
                for o in self.prim.opaque:
                    if ty.startswith(o):
                        h = True
            if h is True:
                vs = [self.rv(st, a, fr) for a in args]
                return mk("fn", "ctor:" + ty, *(vs + ["r"]))
            a = self.args(st, e["fn"], args, fr)
            return self.construct(st, ty, e["fn"], a, e)
        if kd[0] == "s":
            return self.ctor_seq(st, ty, kd, e, fr)
        if kd[0] == "m":
            return MEMPTY
        if ty.startswith(PTRT):
            if not args:
                return mk("null")
            if len([a for a in args if a["k"] != "other"]) > 1 and ty.startswith(("std::shared_ptr", "std::unique_ptr")):
                raise Unsupported("deleter")
            return self.rv(st, args[0], fr)
        if ty.startswith("std::basic_string<"):
            if not args:
                return mk("str", "")
            v = self.rv(st, args[0], fr)
            if len(args) > 1 and args[1]["k"] not in ("other",) and not (args[1]["k"] == "ctor"):
                vs = [self.rv(st, a, fr) for a in args]
                return mk("fn", "string", *(vs + ["o"]))
            return v
        if ty == "std::thread" and args and self.threads(args[0]):
            # the new thread's actions, in an order of their own (see C36)
            v = self.ev(st, args[0], fr)
            vs = []
            for a in args[1:]:
                while a["k"] in ("copy", "cast", "ctor") and (a.get("e") or a.get("args")):
                    a = a.get("e") or a["args"][0]
                if a["k"] == "call" and a["fn"]["qn"] in ("std::ref", "std::cref"):
                    x = self.ev(st, a["args"][0], fr)
                    vs.append(self.resolve(st, x) if isinstance(x, LV) else x)
                else:
                    vs.append(self.rv(st, a, fr))
            self.applyfn(st, v, vs)
            return mk("fn", "thread", "o")
        if ty.startswith("std::function<"):
            if args:
                v = self.ev(st, args[0], fr)
                if isinstance(v, Clo):
                    self.closures[len(self.closures)] = v
                    return mk("clo", len(self.closures) - 1)
                return self.val(st, v, "o")
            return mk("null")
        vs = [self.rv(st, a, fr) for a in args]
        if (ty.startswith(ITERT) or vs and vs[0].op == "mit") and len(vs) == 1:
            return vs[0]
        if ty.startswith("std::pair<") and not vs:
            return self.default(st, ty)
        if ty.startswith("std::pair<") and len(vs) == 2:
            return rec(ty, {ty + "::first": vs[0], ty + "::second": vs[1]})
        return mk("fn", "ctor:" + ty, *(vs + ["o"]))

    @staticmethod
    def threads(e):
        """whether a thread is started (not moved or copied)"""
        return strip_ty(e.get("ty", "")) != "std::thread"

    def ctor_seq(self, st, ty, kd, e, fr):
        args = e["args"]
        ety = targ(ty)
        ek = kd[1:] or "x"
        if ty.startswith("std::array<") and not args:
            return self.default(st, ty)
        if e.get("il") or (len(args) == 1 and args[0]["k"] == "ilist"):
            return self.ilist(st, dict(args[0], ty=ty), ty, fr)
        vs = [self.rv(st, a, fr) for a in args if not (a["k"] == "ctor" and "allocator" in a.get("ty", ""))]
        if not vs:
            return EMPTY
        if len(vs) == 1:
            if isnum(vs[0]):
                return mk_tab(vs[0], fresh(), self.default(st, ety) if self.tk(ety) == "f" or self.tk(ety) not in TM._NK else ZERO)
            return vs[0]
        if vs[0].op == "it" and vs[1].op == "it":
            return self.range(st, vs[0], vs[1], ek)
        if isnum(vs[0]) or vs[0].op == "int":
            if ek in ("r",) and kind(vs[1]) not in ("r",):
                pass
            return mk_tab(vs[0], fresh(), vs[1])
        return self.unk("vector ctor")

    def range(self, st, a, b, ek="x"):
        """sequence denoted by [a, b)"""
        if a.a[0] != b.a[0]:
            return self.unk("range")
        bb, pp = a.a[0]
        s = self.read(st, LV(bb, pp), "s" + ek)
        n = sub(b.a[1], a.a[1])
        if a.a[1] is ZERO and n is length(s):
            return s
        j = fresh("u")
        return mk_tab(n, j, get(s, add(a.a[1], j), ek))

    # ------------------------------------------------------------ calls
    def args(self, st, fn, nodes, fr):
        out = []
        pm = fn.get("pm") or []
        for i, a in enumerate(nodes):
            m = pm[i] if i < len(pm) else "v"
            v = self.ev(st, a, fr)
            if isinstance(v, LV):
                v = self.resolve(st, v)
                if m in ("p", "cp") and isarray(a):
                    v = mk("it", v.tup(), ZERO)
                elif m == "v" or m in ("p", "cp"):
                    v = self.read(st, v, self.nk(a))
            elif isinstance(v, Clo):
                self.closures[len(self.closures)] = v
                v = mk("clo", len(self.closures) - 1)
            out.append(v)
        return out

    def newid(self, st, tag, args):
        pat = (tag,) + tuple(args)
        # abstract the loop variables
        m = {v: mk("var", -1 - i, "u", "L") for i, v in enumerate(st.lv)}
        key = TM._substany(pat, m)
        n = st.cnt.get(key, 0)
        st.cnt[key] = n + 1
        return n

    def alloc(self, st, ty, v, args):
        n = self.newid(st, "new:" + ty, args)
        lvs = tuple(st.lv)
        obj = mk("new", ty, tuple(args), (I(n),) + lvs)
        if v is not None and v.op == "rec":
            for f, x in v.a[1]:
                kd = kind(x)
                fty = [t for fk, t in self.allfields(ty) if fk == f]
                if fty:
                    kd = self.tk(fty[0])
                self.write(st, LV(("h", obj), (("f", f, kd),)), x)
        return obj

    def e_call(self, st, e, fr):
        return self.call(st, e, fr)

    def call(self, st, e, fr, discarded=False):
        fn = e.get("fn")
        if fn is None:
            f = self.ev(st, e["callee"], fr) if e.get("callee") else None
            vs = [self.ev(st, a, fr) for a in e["args"]]
            if f is None:
                return self.unk("indirect call")
            return self.applyfn(st, f, vs)
        qn = fn["qn"]
        # lambda call operator
        if e.get("op") == "()" and e.get("obj") is not None:
            o = self.ev(st, e["obj"], fr)
            c = self.asclo(st, o)
            if c:
                vs = [self.ev(st, a, fr) for a in e["args"]]
                vs = [self.resolve(st, v) if isinstance(v, LV) else v for v in vs]
                return self.callclo(st, c, vs, fn.get("id"))
            if qn.startswith("std::function<"):
                vs = [self.rv(st, a, fr) for a in e["args"]]
                return self.applyfn(st, o, vs)
        # ring elements
        if e.get("op"):
            r = self.ringop(st, e, fr)
            if r is not None:
                return r
        if fn.get("cls", "").startswith(RINGT) or (qn.startswith(RINGT)):
            r = self.ringfn(st, e, fn, fr)
            if r is not None:
                return r
        for pfx, h in self.prim.hooks.items():
            if qn.startswith(pfx) and not pfx.startswith("ctor:"):
                r = h(self, st, e, fn, fr, discarded)
                if r is not None:
                    return r
        if qn.startswith("std::") or qn.startswith("__gnu_cxx::"):
            r = self.stdcall(st, e, fn, fr, discarded)
            if r is not None:
                return r
        obj = None
        if e.get("obj") is not None:
            o = self.ev(st, e["obj"], fr)
            if e["oty"].endswith("*"):
                obj = self.deref(st, o)
            else:
                obj = self.resolve(st, o) if isinstance(o, LV) else (
                    LV(("h", o)) if kind(o) == "o" else self.temp(st, o))
        if any(qn.startswith(o) for o in self.prim.opaque):
            return self.opaque(st, e, fn, obj, fr, discarded)
        if qn in self.prim.bound:
            return self.boundcall(st, e, fn, obj, fr, discarded)
        if fn.get("assign") and fn.get("dflt"):
            v = self.rv(st, e["args"][0], fr)
            self.write(st, obj, v)
            return obj
        target = self.p.fns.get(fn["id"])
        if fn.get("virt") and not e.get("nonvirt") and obj is not None:
            dyn = self.dyntype(obj)
            if not dyn and obj.base[0] == "v" and not obj.path:
                v = st.env.get(obj.base[1])
                if isinstance(v, T) and v.op == "rec":
                    dyn = v.a[0]
            if dyn:
                target = self.find_virtual(dyn, fn) or target
            elif self.p.overriders.get(fn["id"]) or target is None:
                return self.vcall(st, e, fn, obj, fr, discarded)
        if target is not None:
            args = self.args(st, fn, e["args"], fr)
            return self.inline(st, target, obj, args)
        return self.opaque(st, e, fn, obj, fr, discarded)

    def boundcall(self, st, e, fn, obj, fr, discarded):
        """call of a public operation that has its own contract"""
        qn = fn["qn"]
        args = []
        for a in e["args"]:
            v = self.ev(st, a, fr)
            args.append(self.val(st, v, self.nk(a)) if not isinstance(v, Clo) else UNK)
        o, rec = None, False
        if obj is not None:
            obj = self.resolve(st, obj)
            if obj.base[0] == "h" and not obj.path:
                o = obj.base[1]
            else:
                o = self.read(st, obj, "r")
                rec = kind(o) != "o"
        base = [o] if o is not None else []
        kd = self.tk(e["ty"]) if e.get("ty") else "x"
        if fn.get("const") and not discarded:
            return mk("fn", qn, *(base + args + [kd]))
        n = self.newid(st, qn, tuple([] if rec else base))
        st.ev.append(Ev("call", TRUE, (qn,) + tuple(base + args), loc=e.get("l")))
        if rec and qn in self.prim.mut:
            self.write(st, obj, mk("fn", "after:" + qn, *(base + args + ["r"])))
        for i, a in enumerate(e["args"]):
            pm = fn.get("pm") or []
            if i < len(pm) and pm[i] == "r":
                lv = self.ev(st, a, fr)
                if isinstance(lv, LV):
                    lv = self.resolve(st, lv)
                    if lv.base[0] != "h" or lv.path:
                        self.write(st, lv, mk("fn", "out%d:" % i + qn, *(base + args + [self.nk(a)])))
        if not e.get("ty") or strip_ty(e["ty"]) == "void":
            return mk("fn", "void", "x")
        return mk("fn", "ret:" + qn, *((base if not rec else []) + args + [I(n)] + list(st.lv) + [kd]))

    def dyntype(self, obj):
        if obj.base[0] == "h" and obj.base[1].op == "new" and not obj.path:
            return obj.base[1].a[0]
        return None

    def find_virtual(self, ty, fn):
        name = fn["qn"].split("::")[-1]
        r = self.p.recs.get(ty)
        while r:
            for m in r["methods"]:
                if m["n"] == name and m["id"] in self.p.fns and len(self.p.fns[m["id"]]["params"]) == len(fn.get("pm", [])):
                    return self.p.fns[m["id"]]
            r = self.p.recs.get(r["bases"][0]) if r["bases"] else None
        return None

    def vcall(self, st, e, fn, obj, fr, discarded):
        name = fn["qn"].split("::")[-1]
        vs = [self.rv(st, a, fr) for a in e["args"]]
        o = obj.base[1] if obj.base[0] == "h" and not obj.path else mk("ptr", obj.tup())
        kd = self.tk(e["ty"]) if e.get("ty") else "x"
        if discarded or e.get("ty") == "void":
            st.ev.append(Ev("touch", TRUE, (name, o) + tuple(vs), loc=e.get("l")))
        # a gate's parents precede it: evaluating a parent does not read the gate
        child = o.a[1] if o.op == "mg" and o.a[0].op == "fn" and str(o.a[0].a[0]) in (
            "H:tp::Gate::mLeft", "H:tp::Gate::mRight") else None
        return mk("fn", "vcall:" + name, o, self.digest(st, child), *(vs + [kd]))

    def opaque(self, st, e, fn, obj, fr, discarded):
        qn = fn["qn"]
        args = []
        prg = None
        pm = fn.get("pm") or []
        for i, a in enumerate(e["args"]):
            v = self.ev(st, a, fr)
            aty = a.get("ty", "")
            if isinstance(v, LV) and strip_ty(aty) == "scl::PRG":
                prg = self.prgname(st, self.resolve(st, v))
                continue
            args.append(self.val(st, v, self.nk(a)) if not isinstance(v, Clo) else UNK)
        kd = self.tk(e["ty"]) if e.get("ty") else "x"
        base = []
        if obj is not None:
            base = [self.objval(st, obj)]
        out = None
        if prg is not None:
            n = self.newid(st, qn, tuple(args))
            at = mk("fn", "rnd", "prg:" + prg, n, qn, *(list(st.lv) + ["x"]))
            st.ev.append(Ev("draw", TRUE, (prg, at), loc=e.get("l")))
            out = mk("fn", qn, *(base + args + [at, kd]))
        else:
            out = mk("fn", qn, *(base + args + [kd]))
        if not fn.get("in") and not any(qn.startswith(o) for o in self.prim.opaque):
            # external function: effect
            st.ev.append(Ev("call", TRUE, (qn,) + tuple(base + args), loc=e.get("l")))
        for i, a in enumerate(e["args"]):
            if i < len(pm) and pm[i] == "r" and strip_ty(a.get("ty", "")) != "scl::PRG":
                lv = self.ev(st, a, fr)
                if isinstance(lv, LV):
                    self.write(st, self.resolve(st, lv), mk("fn", "out%d:" % i + qn, *(base + args + [self.nk(a)])))
        return out

    def prgname(self, st, lv):
        if lv.path:
            return lv.path[-1][1]
        if lv.base[0] == "v":
            v = st.env.get(lv.base[1])
            if isinstance(v, T) and v.op == "fn" and v.a[0] == "param":
                return show(v)
            if isinstance(v, T) and v.op == "fn":
                return show(v)
            return "local"
        return show(lv.base[1])

    def objval(self, st, lv):
        if lv.base[0] == "h" and not lv.path:
            return lv.base[1]
        return self.read(st, lv, "r")

    # ------------------------------------------------------------ ring primitives
    def isring(self, a):
        return a is not None and self.tk(a.get("ty", "")) == "f" if a is not None and a.get("ty") else False

    def ringop(self, st, e, fr):
        op = e["op"]
        nodes = ([e["obj"]] if e.get("obj") is not None else []) + e["args"]
        if not nodes or not any(self.isring(x) for x in nodes):
            return None
        if e.get("obj") is not None and (e.get("fn") or {}).get("cls") and not self.tk(e["fn"]["cls"]) == "f":
            return None
        if op == "=":
            v = self.rv(st, nodes[1], fr)
            lv = self.lval(st, nodes[0], fr)
            self.write(st, lv, v)
            return lv
        if op in ("+=", "-=", "*=", "/="):
            b = self.rv(st, nodes[1], fr)
            lv = self.lval(st, nodes[0], fr)
            a = self.read(st, lv, "f")
            self.write(st, lv, self.ringbin(op[0], a, b))
            return lv
        if op in ("+", "-", "*", "/") and len(nodes) == 2:
            return self.ringbin(op, self.rv(st, nodes[0], fr), self.rv(st, nodes[1], fr))
        if op == "-" and len(nodes) == 1:
            return neg(self.rv(st, nodes[0], fr))
        if op in ("==", "!=") and len(nodes) == 2:
            a, b = self.rv(st, nodes[0], fr), self.rv(st, nodes[1], fr)
            r = eq0(sub(a, b))
            return r if op == "==" else not_(r)
        return None

    def ringbin(self, op, a, b):
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        return mul(a, inv(b))

    def ringfn(self, st, e, fn, fr):
        name = fn["qn"].split("::")[-1]
        if name == "Random":
            lv = self.lval(st, e["args"][0], fr)
            p = self.prgname(st, lv)
            n = self.newid(st, "rnd", (p,))
            at = mk("fn", "rnd", "prg:" + p, n, *(list(st.lv) + ["f"]))
            st.ev.append(Ev("draw", TRUE, (p, at), loc=e.get("l")))
            return at
        obj = self.ev(st, e["obj"], fr) if e.get("obj") is not None else None
        if obj is not None:
            if e.get("oty", "").endswith("*"):
                obj = self.deref(st, obj)
            elif isinstance(obj, LV):
                obj = self.resolve(st, obj)
            v = self.val(st, obj, "f")
            if name in ("Inverse",):
                return inv(v)
            if name == "Negated":
                return neg(v)
            if name in ("Invert", "Negate") and isinstance(obj, LV):
                self.write(st, obj, inv(v) if name == "Invert" else neg(v))
                return obj
            if name == "Equal":
                return eq0(sub(v, self.rv(st, e["args"][0], fr)))
            if name == "Write":
                p = self.rv(st, e["args"][0], fr)
                st.ev.append(Ev("bytes", TRUE, ("write", p, v), loc=e.get("l")))
                return mk("fn", "void", "x")
            if name in ("ToString",):
                return mk("fn", "tostring", v, "o")
        if name in ("ByteSize", "BitSize", "SpecifiedBitSize"):
            if "cv" in e:
                return I(int(e["cv"]))
            return mk("fn", name + ":" + fn["cls"], "u")
        if name == "Read":
            p = self.rv(st, e["args"][0], fr)
            return mk("fn", "ffread", p, "f")
        if name in ("FromString",):
            return mk("fn", "fromstring", *([self.rv(st, a, fr) for a in e["args"]] + ["f"]))
        return None

    # ------------------------------------------------------------ std models
    def stdcall(self, st, e, fn, fr, discarded):
        qn = fn["qn"]
        name = re.sub(r"<.*", "", qn.split("::")[-1]) if not qn.endswith(("operator->", "operator*")) else qn.split("::")[-1]
        cls = fn.get("cls", "")
        args = e["args"]
        if e.get("obj") is not None:
            return self.stdmethod(st, e, fn, cls, name, fr, discarded)
        if qn.startswith("std::this_thread") or qn.startswith("std::chrono"):
            return None
        op = e.get("op")
        if op and len(args) == 2 and not op == "<<":
            a, b = self.rv(st, args[0], fr), self.rv(st, args[1], fr)
            if op in ("==", "!=", "<", ">", "<=", ">=", "+", "-"):
                if a.op == "str" or b.op == "str" or "basic_string" in args[0].get("ty", ""):
                    if op in ("==", "!="):
                        r = eqo(a, b)
                        return r if op == "==" else not_(r)
                    return mk("fn", "strop" + op, a, b, "o")
                if kind(a)[0] == "s" and kind(b)[0] == "s":
                    r = mk("fn", "seqcmp" + ("==" if op in ("==", "!=") else op), a, b, "b")
                    if op == "!=":
                        return not_(r)
                    return r
                return self.arith(st, op, a, b, e)
            return None
        if op and len(args) == 2 and op == "<<":
            a = self.ev(st, args[0], fr)
            self.rv(st, args[1], fr)
            return a
        if name in ("move", "forward", "ref", "cref", "as_const", "addressof") and len(args) == 1:
            v = self.ev(st, args[0], fr)
            if isinstance(v, LV):
                v = self.resolve(st, v)
                if name == "addressof":
                    return mk("ptr", v.tup())
            return v
        if name in ("static_pointer_cast", "dynamic_pointer_cast", "const_pointer_cast"):
            return self.rv(st, args[0], fr)
        if name in ("make_shared", "make_unique"):
            ty = strip_ty(targ(e["ty"])) if e.get("ty") else ""
            vs = [self.ev(st, a, fr) for a in args]
            vs = [self.resolve(st, v) if isinstance(v, LV) else v for v in vs]
            if TM.BITS[0] and ty.endswith("[]") and "[]" in str(e.get("ty")) and len(vs) == 1:
                return mk_tab(self.val(st, vs[0], "u"), fresh(), ZERO)
            if ty in self.p.recs:
                v = self.make(st, ty, vs, args)
                keyargs = tuple(self.val(st, x, self.nk(n)) for x, n in zip(vs, args))
                keyargs = tuple(x if isinstance(x, T) else UNK for x in keyargs)
                return self.alloc(st, ty, v, keyargs)
            n = self.newid(st, "new:" + ty, ())
            return mk("new", ty, tuple(self.val(st, x) for x in vs), (I(n),) + tuple(st.lv))
        if name in ("min", "max") and len(args) == 2:
            a, b = self.rv(st, args[0], fr), self.rv(st, args[1], fr)
            c = lt(a, b)
            return ite(c, a, b) if name == "min" else ite(c, b, a)
        if name == "swap" and len(args) == 2:
            a, b = self.lval(st, args[0], fr), self.lval(st, args[1], fr)
            va, vb = self.read(st, a, self.nk(args[0])), self.read(st, b, self.nk(args[1]))
            self.write(st, a, vb)
            self.write(st, b, va)
            return mk("fn", "void", "x")
        if name == "exchange" and len(args) == 2:
            a = self.lval(st, args[0], fr)
            old = self.read(st, a, self.nk(args[0]))
            self.write(st, a, self.rv(st, args[1], fr))
            return old
        if name in ("begin", "cbegin", "end", "cend", "size") and len(args) == 1:
            lv = self.lval(st, args[0], fr)
            lv = self.as_seq(st, lv, args[0].get("ty", ""))
            s = self.read(st, lv, self.tk(args[0].get("ty", "")))
            if name == "size":
                return length(s)
            return mk("it", lv.tup(), ZERO if "begin" in name else length(s))
        if name in ("distance",):
            a, b = self.rv(st, args[0], fr), self.rv(st, args[1], fr)
            return self.arith(st, "-", b, a, e)
        if name in ("advance",):
            lv = self.lval(st, args[0], fr)
            self.write(st, lv, self.arith(st, "+", self.read(st, lv), self.rv(st, args[1], fr), e))
            return mk("fn", "void", "x")
        if name in ("next", "prev"):
            a = self.rv(st, args[0], fr)
            d = self.rv(st, args[1], fr) if len(args) > 1 and args[1]["k"] != "other" else ONE
            return self.arith(st, "+" if name == "next" else "-", a, d, e)
        if name == "get" and len(args) == 1 and re.match(r"^-?\d+", str((fn.get("targs") or ["?"])[0])):
            i = int(re.match(r"\d+", str(fn["targs"][0])).group(0))
            ty = strip_ty(args[0].get("ty", ""))
            lv = self.lval(st, args[0], fr)
            if ty.startswith("std::array<"):
                return lv.sub(("i", I(i), self.nk(e)))
            if ty.startswith("std::pair<"):
                return lv.sub(("f", ty + ("::second" if i else "::first"), self.nk(e)))
        alg = getattr(self, "alg_" + name, None)
        if alg is not None:
            old = st.copy()
            r = alg(st, e, fr)
            if r.op != "unk":
                return r
            for k in State.__slots__:
                setattr(st, k, getattr(old, k))
            if name not in self.PURE or len(args) > 2:
                # may have done anything
                st.ev.append(Ev("call", mk("unk", "std " + name), (name,), loc=e.get("l")))
            if name in self.PURE:
                return r
        if name in ("abs",):
            return None
        if name == "to_string":
            return mk("fn", "tostring", self.rv(st, args[0], fr), "o")
        if name in ("endl", "flush"):
            return mk("fn", "void", "o")
        vs = [self.rv(st, a, fr) for a in args]
        pm = fn.get("pm") or []
        self.note("unmodelled " + qn.split("<")[0])
        for v in vs:
            if v.op == "fn" and v.a[0] == "back_inserter":
                self.write(st, LV(*v.a[1]), mk("unk", "std " + name))
        for i, a in enumerate(args):
            if i < len(pm) and pm[i] == "r":
                lv = self.ev(st, a, fr)
                if isinstance(lv, LV):
                    self.write(st, self.resolve(st, lv), mk("unk", "std " + name))
            elif vs[i].op == "it" and i < len(pm):
                bb, pp = vs[i].a[0]
                # an algorithm may write through an iterator
                self.write(st, LV(bb, pp), mk("unk", "std " + name))
        return mk("unk", "std " + name)

    def make(self, st, ty, vs, nodes):
        """construct ty from already evaluated arguments (make_shared / emplace_back)"""
        if self.tk(ty) == "f" and len(vs) < 2:
            return self.val(st, vs[0], "f") if vs else ZERO
        cands = [f for f in self.p.fns.values() if f.get("ctor") and f.get("cls") == ty and len(f["params"]) == len(vs)]
        if len(vs) == 1 and nodes and strip_ty(nodes[0].get("ty", "")) == ty:
            return self.val(st, vs[0], "r")
        if len(cands) > 1:
            def score(f):
                s = 0
                for p, n in zip(f["params"], nodes):
                    a, b = strip_ty(p["ty"]), strip_ty(n.get("ty", "") or "")
                    if a == b:
                        s += 3
                    elif self.tk(a) == self.tk(b):
                        s += 2
                    elif self.tk(a) in ("u", "i", "b") and self.nk(n) in ("u", "i", "b"):
                        s += 1
                    else:
                        s -= 5
                return s
            cands.sort(key=score, reverse=True)
        v = self.blank(st, ty)
        lv = self.temp(st, v)
        if cands:
            self.inline(st, cands[0], lv, vs, ctor=(lv, ty))
        elif not vs:
            self.init_fields(st, lv, ty, {})
        else:
            r = self.p.recs[ty]
            if len(vs) == len(r["fields"]):
                for f, x in zip(r["fields"], vs):
                    self.write(st, lv.sub(("f", r["ty"] + "::" + f["n"], self.tk(f["ty"]))), self.val(st, x))
            else:
                self.write(st, lv, mk("fn", "ctor:" + ty, *([self.val(st, x) for x in vs] + ["r"])))
        v = self.read(st, lv, "r")
        st.env.pop(lv.base[1], None)
        return v

    def stdmethod(self, st, e, fn, cls, name, fr, discarded):
        args = e["args"]
        o = self.ev(st, e["obj"], fr)
        if e.get("oty", "").endswith("*"):
            o = self.deref(st, o)
        c = strip_ty(cls)
        if (c.startswith("std::__shared_ptr") or c.startswith(PTRT)) and not c.startswith(SEQT):
            v = self.val(st, o, "o")
            if name in ("operator->", "get"):
                return v
            if name == "operator*":
                return self.deref(st, v)
            if name == "operator[]":
                if v.op != "it":
                    return self.temp(st, self.unk("array pointer"))
                i = self.rv(st, args[0], fr)
                return LV(v.a[0][0], v.a[0][1] + (("i", add(v.a[1], i), self.nk(e)),))
            if name == "operator bool":
                return self.tobool(v)
            if name in ("operator=",):
                nv = self.rv(st, args[0], fr)
                self.write(st, o, nv)
                return o
            if name == "reset":
                self.write(st, o, self.rv(st, args[0], fr) if args else mk("null"))
                return mk("fn", "void", "x")
            if name in ("release",):
                self.write(st, o, mk("null"))
                return v
            if name == "use_count":
                return mk("fn", "use_count", v, "u")
            return None
        if c.startswith("std::back_insert_iterator<"):
            v = self.val(st, o, "o")
            if v.op == "fn" and v.a[0] == "back_inserter":
                if name == "operator=":
                    out = LV(*v.a[1])
                    x = self.rv(st, args[0], fr)
                    sk = self.tk(targ(c))
                    self.write(st, out, cat(self.read(st, out, sk), unit(x)))
                return o
        if c.startswith(ITERT) or c.startswith("std::_Rb_tree") or "iterator" in c:
            v = self.val(st, o, "o")
            if v.op == "mit" and name in ("operator*", "operator->"):
                bb, pp = v.a[0]
                l = LV(bb, pp + (("mp", v.a[1], v.a[2]),))
                return l if name == "operator*" else mk("ptr", l.tup())
            if v.op == "it":
                if name == "operator*":
                    bb, pp = v.a[0]
                    return LV(bb, pp + (("i", v.a[1], self.nk(e)),))
                if name == "operator->":
                    bb, pp = v.a[0]
                    return mk("ptr", (bb, pp + (("i", v.a[1], "x"),)))
                if name in ("operator++", "operator--"):
                    d = ONE if name == "operator++" else I(-1)
                    nv = mk("it", v.a[0], add(v.a[1], d))
                    self.write(st, o, nv)
                    return v if args else o
                if name in ("operator+", "operator-"):
                    return self.arith(st, name[-1], v, self.rv(st, args[0], fr), e)
                if name in ("operator+=", "operator-="):
                    self.write(st, o, self.arith(st, name[-2], v, self.rv(st, args[0], fr), e))
                    return o
                if name == "operator[]":
                    bb, pp = v.a[0]
                    return LV(bb, pp + (("i", add(v.a[1], self.rv(st, args[0], fr)), self.nk(e)),))
                if name == "base":
                    bb, pp = v.a[0]
                    if pp and pp[-1][0] == "rev":
                        return mk("it", (bb, pp[:-1]), sub(pp[-1][1], v.a[1]))
                    return v
            return None
        if c == "std::_Bit_reference":
            # element of a vector<bool>
            if name in ("operator=", "operator bool", "flip"):
                old = self.val(st, o, "b")
                if name == "operator bool":
                    return old
                self.write(st, o, not_(old) if name == "flip" else self.tobool(self.rv(st, args[0], fr)))
                return o
            return None
        if c.startswith(SEQT) or c.startswith(("std::_Vector_base", "std::_Deque_base", "std::_Bvector_base")):
            return self.seqmethod(st, e, fn, c, name, o, fr)
        if c.startswith(MAPT):
            return self.mapmethod(st, e, fn, c, name, o, fr)
        if c.startswith("std::basic_string<"):
            v = self.val(st, o, "o")
            if name in ("size", "length"):
                return mk("fn", "strlen", v, "u") if v.op != "str" else I(len(v.a[0]))
            if name in ("operator=",):
                nv = self.rv(st, args[0], fr)
                self.write(st, o, nv)
                return o
            if name in ("c_str", "data"):
                return v
            if name == "empty":
                return eq0(mk("fn", "strlen", v, "u"))
            vs = [self.rv(st, a, fr) for a in args]
            if name in ("operator+=", "append", "push_back"):
                self.write(st, o, mk("fn", "strop+", v, *(vs + ["o"])))
                return o
            kd = self.tk(e.get("ty", "")) if e.get("ty") else "o"
            return mk("fn", "str." + name, v, *(vs + [kd]))
        if "basic_ostream" in c or "basic_ostringstream" in c or "basic_stringstream" in c or "basic_ios" in c:
            for a in args:
                self.ev(st, a, fr)
            if name == "str":
                return mk("fn", "stream.str", "o")
            return o if isinstance(o, LV) else mk("fn", "stream", "o")
        if fn.get("assign"):
            v = self.rv(st, args[0], fr)
            self.write(st, o, v)
            return o
        ov = self.val(st, o, "o") if isinstance(o, LV) else o
        vs = [self.rv(st, a, fr) for a in args]
        kd = self.tk(e.get("ty", "")) if e.get("ty") else "x"
        st.ev.append(Ev("call", TRUE, (re.sub(r"<.*", "", c) + "::" + name, ov) + tuple(vs), loc=e.get("l")))
        return mk("fn", "m:" + re.sub(r"<.*", "", c) + "::" + name, ov, *(vs + [kd]))

    def elt(self, st, ty, nodes, fr):
        """value of a container element constructed from emplace arguments"""
        ety = strip_ty(targ(ty))
        if len(nodes) == 1:
            nty = strip_ty(nodes[0].get("ty", "") or "")
            if nodes[0]["k"] == "ilist":
                return self.init_value(st, dict(nodes[0], ty=ety) if not nodes[0].get("ty") else nodes[0], ety, fr)
            v = self.ev(st, nodes[0], fr)
            if isinstance(v, LV):
                v = self.read(st, self.resolve(st, v), self.nk(nodes[0]))
            if isinstance(v, Clo):
                return self.unk("closure element")
            if ety in self.p.recs and nty != ety:
                return self.make(st, ety, [v], nodes)
            if self.tk(ety)[0] == "s" and isnum(v):
                return mk_tab(v, fresh(), self.default(st, targ(ety)))
            return v
        vs = [self.ev(st, a, fr) for a in nodes]
        vs = [self.resolve(st, v) if isinstance(v, LV) else v for v in vs]
        if not nodes:
            return self.default(st, ety)
        if ety in self.p.recs:
            return self.make(st, ety, vs, nodes)
        if self.tk(ety)[0] == "s" and len(vs) == 2:
            return mk_tab(self.val(st, vs[0]), fresh(), self.val(st, vs[1]))
        if ety.startswith("std::pair<") and len(vs) == 2:
            return rec(ety, {ety + "::first": self.val(st, vs[0], self.tk(targ(ety, 0))),
                             ety + "::second": self.val(st, vs[1], self.tk(targ(ety, 1)))})
        return mk("fn", "ctor:" + ety, *([self.val(st, v) for v in vs] + [self.tk(ety)]))

    def seqmethod(self, st, e, fn, c, name, o, fr):
        args = e["args"]
        kd = self.tk(c)
        ek = kd[1:] or "x"
        if isinstance(o, T):
            o = self.temp(st, o)
        o = self.resolve(st, o)
        s = self.read(st, o, kd)
        if s.op == "unk" and name not in ("operator=", "clear", "assign"):
            return s if not e.get("ty") == "void" else mk("fn", "void", "x")
        V = mk("fn", "void", "x")
        if name in ("push_back", "emplace_back", "push", "emplace"):
            v = self.elt(st, c, args, fr)
            s = self.read(st, o, kd)
            self.write(st, o, cat(s, unit(v)))
            return o.sub(("i", length(s), ek))
        if name in ("push_front", "emplace_front"):
            v = self.elt(st, c, args, fr)
            self.write(st, o, cat(unit(v), self.read(st, o, kd)))
            return V
        if name == "size":
            return length(s)
        if name == "empty":
            return eq0(length(s))
        if name == "operator[]":
            return o.sub(("i", self.rv(st, args[0], fr), ek))
        if name == "at":
            i = self.rv(st, args[0], fr)
            bad = ge(i, length(s))
            if bad is not FALSE:
                st.ev.append(Ev("oob", bad, (o.tup(), i), loc=e.get("l")))
            return o.sub(("i", i, ek))
        if name == "front":
            return o.sub(("i", ZERO, ek))
        if name == "back":
            return o.sub(("i", sub(length(s), ONE), ek))
        if name in ("pop", "pop_front"):
            self.write(st, o, drop(s, ONE))
            return V
        if name == "pop_back":
            self.write(st, o, take(s, sub(length(s), ONE)))
            return V
        if name in ("reserve", "shrink_to_fit"):
            for a in args:
                self.rv(st, a, fr)
            return V
        if name == "clear":
            self.write(st, o, EMPTY)
            return V
        if name in ("data", "get"):
            return mk("it", o.tup(), ZERO)
        if name in ("begin", "cbegin"):
            return mk("it", o.tup(), ZERO)
        if name in ("end", "cend"):
            return mk("it", o.tup(), length(s))
        if name == "resize":
            n = self.rv(st, args[0], fr)
            v = self.rv(st, args[1], fr) if len(args) > 1 and args[1]["k"] != "other" else self.default(st, targ(c))
            if v.op == "fn" and v.a[0] == "undef":
                v = ZERO
            ln = length(s)
            if s is EMPTY or ln is ZERO:
                self.write(st, o, mk_tab(n, fresh(), v))
            else:
                i = fresh()
                self.write(st, o, mk_tab(n, i, ite(pos(sub(ln, i)), get(s, i, ek), v)))
            return V
        if name == "assign":
            vs = [self.rv(st, a, fr) for a in args]
            if len(vs) == 2 and vs[0].op == "it":
                self.write(st, o, self.range(st, vs[0], vs[1], ek))
            elif len(vs) == 2:
                self.write(st, o, mk_tab(vs[0], fresh(), vs[1]))
            else:
                self.write(st, o, vs[0])
            return V
        if name == "operator=":
            v = self.rv(st, args[0], fr)
            self.write(st, o, v)
            return o
        if name == "insert" and len(args) == 3:
            vs = [self.rv(st, a, fr) for a in args]
            if all(v.op == "it" for v in vs) and vs[0].a[0] == o.tup() and vs[0].a[1] is length(s):
                self.write(st, o, cat(s, self.range(st, vs[1], vs[2], ek)))
                return V
        if name == "fill":
            v = self.rv(st, args[0], fr)
            self.write(st, o, mk_tab(length(s), fresh(), v))
            return V
        if name == "erase" or name == "insert" and len(args) == 2:
            vs = [self.rv(st, a, fr) for a in args]
            if vs[0].op == "it" and vs[0].a[0] == o.tup() and (name == "insert" or all(v.op == "it" and v.a[0] == o.tup() for v in vs)):
                p = vs[0].a[1]
                q = p if name == "insert" else vs[1].a[1] if len(vs) > 1 else add(p, ONE)
                mid = [mk_tab(ONE, fresh(), vs[1])] if name == "insert" else []
                self.write(st, o, cat(*([take(s, p)] + mid + [drop(s, q)])))
                return mk("it", o.tup(), p)
        if name == "swap":
            v = self.lval(st, args[0], fr)
            t = self.read(st, v, kd)
            self.write(st, v, s)
            self.write(st, o, t)
            return V
        if name in ("rbegin", "crbegin", "rend", "crend"):
            n = length(s)
            return mk("it", o.sub(("rev", n)).tup(), ZERO if "begin" in name else n)
        if name == "capacity":
            return mk("unk", "capacity")
        for a in args:
            v = self.ev(st, a, fr)
            if name in ("merge", "splice") and isinstance(v, LV):
                self.write(st, self.resolve(st, v), mk("unk", "vector::" + name))
        self.note("unmodelled vector::" + name)
        if not fn.get("const"):
            self.write(st, o, mk("unk", "vector::" + name))
        return mk("unk", "vector::" + name)

    def mapmethod(self, st, e, fn, c, name, o, fr):
        args = e["args"]
        kd = self.tk(c)
        vk = kd[1:] or "x"
        if isinstance(o, T):
            o = self.temp(st, o)
        o = self.resolve(st, o)
        if name in ("operator[]", "at"):
            key = self.rv(st, args[0], fr)
            return o.sub(("m", key, vk))
        if name == "operator=":
            v = self.rv(st, args[0], fr)
            self.write(st, o, v)
            return o
        if name == "clear":
            self.write(st, o, MEMPTY)
            return mk("fn", "void", "x")
        if name in ("insert_or_assign", "emplace", "try_emplace") and len(args) == 2 or name == "insert" and len(args) == 1:
            if name == "insert":
                pr = self.rv(st, args[0], fr)
                ty = strip_ty(args[0].get("ty", ""))
                if pr.op != "rec" and kind(pr) != "r":
                    return self.unk("map::insert")
                key, v = (rf(pr, "%s::%s" % (self.pairty(pr, ty), f), k) for f, k in (("first", "o"), ("second", vk)))
            else:
                key, v = self.rv(st, args[0], fr), self.rv(st, args[1], fr)
            l = o.sub(("m", key, vk))
            has = self.mhas(st, o, kd, key)
            if name != "insert_or_assign":
                v = ite(has, self.read(st, l, vk), v)
            self.write(st, l, v)
            ty = strip_ty(e.get("ty", ""))
            return rec(ty, {ty + "::first": mk("mit", o.tup(), key, vk), ty + "::second": not_(has)})
        if name in ("count", "contains") and len(args) == 1:
            return self.mhas(st, o, kd, self.rv(st, args[0], fr))
        if name == "find" and len(args) == 1:
            return mk("mit", o.tup(), self.rv(st, args[0], fr), vk)
        if name in ("end", "cend"):
            return mk("mit", o.tup(), mk("null"), vk)
        for a in args:
            v = self.ev(st, a, fr)
            if name in ("swap", "merge") and isinstance(v, LV):
                self.write(st, self.resolve(st, v), mk("unk", "map::" + name))
        if name not in ("size", "empty", "begin", "cbegin", "rbegin", "rend", "lower_bound", "upper_bound", "equal_range"):
            self.write(st, o, mk("unk", "map::" + name))
        return mk("unk", "map::" + name)

    def mhas(self, st, o, kd, key):
        """whether a map has the key"""
        m = self.read(st, o, kd)
        if m.op == "unk" or key.op == "unk":
            return UNK
        if m is MEMPTY:
            return FALSE
        if m.op == "mset" and m.a[1] is key and not (m.a[2].op == "ite"):
            return TRUE
        return mk("fn", "mhas", m, key, "b")

    @staticmethod
    def pairty(pr, ty):
        if pr.op == "rec":
            for k, _ in pr.a[1]:
                if k.endswith("::first"):
                    return k[:-7]
        return ty

    # algorithms
    def _rng(self, st, a, b):
        if a.op != "it" or b.op != "it" or a.a[0] != b.a[0]:
            return None
        return LV(*a.a[0]), a.a[1], sub(b.a[1], a.a[1])

    def ekind(self, node):
        """kind of the elements an iterator expression ranges over"""
        ty = strip_ty(node.get("ty", "") or "")
        m = re.match(r"^std::(?:reverse|move)_iterator<(.*)>$", ty)
        if m:
            return self.ekind({"ty": m.group(1)})
        if ty.startswith(("std::_Deque_iterator<", "std::_List_iterator<", "std::_List_const_iterator<")):
            return self.tk(targ(ty))
        m = re.match(r"^__gnu_cxx::__normal_iterator<(?:const )?(.*?)(?: const)? ?\*(?: const)?, ", ty)
        if m:
            return self.tk(m.group(1))
        if ty.endswith("*"):
            return self.tk(ty[:-1].strip())
        m = re.match(r"^(?:const )?(.*?) ?\[\d*\]$", ty)
        if m:
            return self.tk(m.group(1))
        return "x"

    # algorithms that change nothing
    PURE = {"accumulate", "reduce", "inner_product", "any_of", "all_of", "none_of", "equal", "find", "find_if",
            "find_if_not", "count", "count_if", "max_element", "min_element", "back_inserter"}

    def alg_for_each(self, st, e, fr):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        f = self.ev(st, e["args"][2], fr)
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        obj = None if self.asclo(st, f) else self.val(st, f, "r")
        if obj is not None and obj.op == "rec":
            f = self.temp(st, obj)
        else:
            obj = None
        self.loop(st, None, lambda x: self.applyfn(x, f, [lv.sub(("i", add(off, self._k(x)), self.ekind(e["args"][0])))]),
                  lambda x: None, n=n, bind=self._bindk)
        return self.read(st, f, "r") if obj is not None else mk("fn", "void", "x")

    def _bindk(self, x, k):
        x.env[("k",)] = k

    def _k(self, x):
        return x.env[("k",)]

    def _algo(self, st, n, fn):
        """run fn(state, k) for k in 0..n-1 as a loop"""
        cur = [None]

        def bind(x, k):
            cur[0] = k
        self.loop(st, None, lambda x: fn(x, cur[0]), lambda x: None, n=n, bind=bind)

    def alg_accumulate(self, st, e, fr):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        init = self.rv(st, e["args"][2], fr)
        f = self.ev(st, e["args"][3], fr) if len(e["args"]) > 3 else None
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        acc = self.temp(st, init)
        kd = kind(init) if kind(init) != "i" else self.nk(e)

        def body(x, k):
            ek = self.ekind(e["args"][0])
            el = get(self.read(x, lv, "s" + ek), add(off, k), ek)
            cv = self.read(x, acc, kd)
            if f is not None:
                el = lv.sub(("i", add(off, k), ek))
            self.write(x, acc, self.applyfn(x, f, [cv, el]) if f is not None else self.arith(x, "+", cv, el, e))
        self._algo(st, n, body)
        return self.read(st, acc, kd)

    alg_reduce = alg_accumulate

    def alg_inner_product(self, st, e, fr):
        if len(e["args"]) != 4:
            return self.unk("inner_product")
        a, b, c = [self.rv(st, x, fr) for x in e["args"][:3]]
        init = self.rv(st, e["args"][3], fr)
        r = self._rng(st, a, b)
        if r is None or c.op != "it":
            return self.unk("range")
        lv, off, n = r
        lc = LV(*c.a[0])
        acc = self.temp(st, init)
        kd = self.nk(e)

        def body(x, k):
            u = get(self.read(x, lv, "s" + kd), add(off, k), kd)
            v = get(self.read(x, lc, "s" + kd), add(c.a[1], k), kd)
            self.write(x, acc, add(self.read(x, acc, kd), mul(u, v)))
        self._algo(st, n, body)
        return self.read(st, acc, kd)

    def alg_fill(self, st, e, fr):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        v = self.rv(st, e["args"][2], fr)
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        self._algo(st, n, lambda x, k: self.write(x, lv.sub(("i", add(off, k), kind(v))), v))
        return mk("fn", "void", "x")

    def alg_iota(self, st, e, fr):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        v = self.rv(st, e["args"][2], fr)
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        self._algo(st, n, lambda x, k: self.write(x, lv.sub(("i", add(off, k), "u")), add(v, k)))
        return mk("fn", "void", "x")

    def alg_copy(self, st, e, fr):
        a, b, d = [self.rv(st, x, fr) for x in e["args"][:3]]
        return self._copy(st, a, b, d, None, e)

    def alg_copy_n(self, st, e, fr):
        a, n, d = [self.rv(st, x, fr) for x in e["args"][:3]]
        if a.op != "it":
            return self.unk("copy_n")
        return self._copy(st, a, mk("it", a.a[0], add(a.a[1], n)), d, None, e)

    def _copy(self, st, a, b, d, f, e):
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        ek = self.ekind(e["args"][0])
        if ek == "x":
            ek = kind(self.read(st, lv, "x"))[1:] or "f"
        if d.op == "fn" and d.a[0] == "back_inserter":
            out = LV(*d.a[1])
            self._algo(st, n, lambda x, k: self.write(x, out, cat(self.read(x, out, "s" + ek), unit(f(x, lv, add(off, k)) if f else get(self.read(x, lv, "s" + ek), add(off, k), ek)))))
            return d
        if d.op != "it":
            return self.unk("copy dest")
        out = LV(*d.a[0])
        self._algo(st, n, lambda x, k: self.write(x, out.sub(("i", add(d.a[1], k), ek)), f(x, lv, add(off, k)) if f else get(self.read(x, lv, "s" + ek), add(off, k), ek)))
        return mk("it", d.a[0], add(d.a[1], n))

    def alg_back_inserter(self, st, e, fr):
        lv = self.lval(st, e["args"][0], fr)
        return mk("fn", "back_inserter", lv.tup(), "o")

    def alg_transform(self, st, e, fr):
        if len(e["args"]) == 4:
            a, b, d = [self.rv(st, x, fr) for x in e["args"][:3]]
            f = self.ev(st, e["args"][3], fr)
            return self._copy(st, a, b, d, lambda x, lv, i: self.applyfn(x, f, [lv.sub(("i", i, self.ekind(e["args"][0])))]), e)
        a, b, c, d = [self.rv(st, x, fr) for x in e["args"][:4]]
        f = self.ev(st, e["args"][4], fr)
        if c.op != "it":
            return self.unk("transform")
        lc = LV(*c.a[0])
        return self._copy(st, a, b, d, lambda x, lv, i: self.applyfn(
            x, f, [lv.sub(("i", i, self.ekind(e["args"][0]))),
                   lc.sub(("i", add(c.a[1], sub(i, a.a[1])), self.ekind(e["args"][2])))]), e)

    def _quant(self, st, e, fr, want):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        f = self.ev(st, e["args"][2], fr)
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        k = fresh("u")
        c = self.tobool(self.applyfn(st.copy(), f, [lv.sub(("i", add(off, k), self.ekind(e["args"][0])))]))
        m = mk_first(n, k, c if want else not_(c))
        return lt(m, n)

    def _find(self, st, e, fr, pred):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        p = pred(st)
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        k = fresh("u")
        m = mk_first(n, k, self.tobool(p(st.copy(), lv.sub(("i", add(off, k), self.ekind(e["args"][0]))))))
        return mk("it", a.a[0], add(off, m))

    def _satisfies(self, e, fr, neg=False):
        def pred(st):
            f = self.ev(st, e["args"][2], fr)
            return lambda x, el: (not_ if neg else lambda t: t)(self.tobool(self.applyfn(x, f, [el])))
        return pred

    def _equals(self, e, fr):
        def pred(st):
            v = self.rv(st, e["args"][2], fr)
            return lambda x, el: eqv(self.read(x, el, kind(v)), v)
        return pred

    def alg_find_if(self, st, e, fr):
        return self._find(st, e, fr, self._satisfies(e, fr))

    def alg_find_if_not(self, st, e, fr):
        return self._find(st, e, fr, self._satisfies(e, fr, True))

    def alg_find(self, st, e, fr):
        return self._find(st, e, fr, self._equals(e, fr))

    def _count(self, st, e, fr, pred):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        p = pred(st)
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        acc = self.temp(st, ZERO)
        self._algo(st, n, lambda x, k: self.write(x, acc, add(self.read(x, acc, "u"), self.tobool(
            p(x, lv.sub(("i", add(off, k), self.ekind(e["args"][0]))))))))
        return self.read(st, acc, "u")

    def alg_count_if(self, st, e, fr):
        return self._count(st, e, fr, self._satisfies(e, fr))

    def alg_count(self, st, e, fr):
        return self._count(st, e, fr, self._equals(e, fr))

    def _extreme(self, st, e, fr, sign):
        if len(e["args"]) != 2:
            return self.unk("extreme")
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        ek = self.ekind(e["args"][0])
        if ek not in ("u", "i"):
            return self.unk("extreme")
        best = self.temp(st, ZERO)

        def body(x, k):
            q = self.read(x, best, "u")
            u, v = self.read(x, lv.sub(("i", add(off, k), ek)), ek), self.read(x, lv.sub(("i", add(off, q), ek)), ek)
            self.write(x, best, ite(lt(v, u) if sign > 0 else lt(u, v), k, q))
        self._algo(st, n, body)
        return mk("it", a.a[0], add(off, self.read(st, best, "u")))

    def alg_max_element(self, st, e, fr):
        return self._extreme(st, e, fr, 1)

    def alg_min_element(self, st, e, fr):
        return self._extreme(st, e, fr, -1)

    def alg_fill_n(self, st, e, fr):
        a, n, v = [self.rv(st, x, fr) for x in e["args"][:3]]
        if a.op == "fn" and a.a[0] == "back_inserter":
            out = LV(*a.a[1])
            self._algo(st, n, lambda x, k: self.write(x, out, cat(self.read(x, out, "s" + kind(v)), unit(v))))
            return a
        if a.op != "it":
            return self.unk("fill_n")
        lv = LV(*a.a[0])
        self._algo(st, n, lambda x, k: self.write(x, lv.sub(("i", add(a.a[1], k), kind(v))), v))
        return mk("it", a.a[0], add(a.a[1], n))

    def alg_generate(self, st, e, fr):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        r = self._rng(st, a, b)
        f = self.ev(st, e["args"][2], fr)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        ek = self.ekind(e["args"][0])
        self._algo(st, n, lambda x, k: self.write(x, lv.sub(("i", add(off, k), ek)), self.applyfn(x, f, [])))
        return mk("fn", "void", "x")

    def alg_generate_n(self, st, e, fr):
        a, n = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        f = self.ev(st, e["args"][2], fr)
        if a.op == "fn" and a.a[0] == "back_inserter":
            out = LV(*a.a[1])

            def body(x, k):
                v = self.applyfn(x, f, [])
                self.write(x, out, cat(self.read(x, out, "s" + kind(v)), unit(v)))
            self._algo(st, n, body)
            return a
        if a.op != "it":
            return self.unk("generate_n")
        lv = LV(*a.a[0])
        self._algo(st, n, lambda x, k: self.write(x, lv.sub(("i", add(a.a[1], k), "x")), self.applyfn(x, f, [])))
        return mk("it", a.a[0], add(a.a[1], n))

    def alg_reverse(self, st, e, fr):
        a, b = self.rv(st, e["args"][0], fr), self.rv(st, e["args"][1], fr)
        r = self._rng(st, a, b)
        if r is None:
            return self.unk("range")
        lv, off, n = r
        ek = self.ekind(e["args"][0])
        s = self.read(st, lv, "s" + ek)
        if off is not ZERO or n is not length(s):
            return self.unk("reverse")
        k = fresh("u")
        self.write(st, lv, mk_tab(n, k, get(s, sub(sub(n, ONE), k), ek)))
        return mk("fn", "void", "x")

    def alg_any_of(self, st, e, fr):
        return self._quant(st, e, fr, True)

    def alg_none_of(self, st, e, fr):
        return not_(self._quant(st, e, fr, True))

    def alg_all_of(self, st, e, fr):
        return not_(self._quant(st, e, fr, False))

    def alg_equal(self, st, e, fr):
        if len(e["args"]) not in (3, 4):
            return self.unk("equal")
        a, b, c = [self.rv(st, x, fr) for x in e["args"][:3]]
        d = self.rv(st, e["args"][3], fr) if len(e["args"]) == 4 else None
        r = self._rng(st, a, b)
        if r is None or c.op != "it" or (d is not None and d.op != "it"):
            return self.unk("range")
        lv, off, n = r
        lc = LV(*c.a[0])
        k = fresh("u")
        s1, s2 = self.read(st, lv, "x"), self.read(st, lc, "x")
        ek = kind(s1)[1:] or kind(s2)[1:] or "f"
        u = get(s1, add(off, k), ek)
        v = get(s2, add(c.a[1], k), ek)
        m = mk_first(n, k, not_(eqv(u, v)))
        ok = not_(lt(m, n))
        if d is not None:
            ok = and_(eq0(sub(n, sub(d.a[1], c.a[1]))), ok)
        return ok

    # ------------------------------------------------------------ roots
    def summary(self, f, alias=None, names=None, empty=(), statics=None, pfx="a"):
        """abstract function f.  Arguments are named a0 (this), a1, ...
        empty: sequences (fields) known to be empty on entry
        statics: what local variables with static storage hold on entry"""
        if statics is None:
            self.statics = {}
        res = self._summary(f, alias, names, empty, statics or {}, pfx)
        if statics is None and self.statics:
            # constant initialisers take effect before the first call
            init = {}
            for sk, d in self.statics.items():
                st = State()
                try:
                    self.decl(st, dict(d, static=False), 0)
                except Unsupported:
                    continue
                v = st.env.get((0, d["id"]))
                if isinstance(v, T) and not st.ev and not opaque_atoms(v):
                    init[sk] = v
            res = self._summary(f, alias, names, empty, init, pfx)
            res.initial = init
        return res

    statics = {}

    def _summary(self, f, alias, names, empty, statics, pfx):
        self.frames += 1
        st = State()
        st.env.update(statics)
        self.heap0 = {}
        void = set(t for t in empty if t.op == "fn")
        for t in empty:
            if t in void:
                continue
            m = t.a[0]
            fk = m.a[0][2:]
            self.heap0[fk] = st.heap[fk] = mset(st.heap.get(fk, m), t.a[1], EMPTY)
        self.parent = {}
        self.objty = {}
        i = 0
        this = None
        outs = {}
        isfree = not f.get("cls") or f.get("static")
        if not isfree:
            t = mk("fn", pfx + "0", "o")
            self.objty[t] = f["cls"]
            this = LV(("h", t))
            i = 1
            if f.get("ctor"):
                this = LV(("v", ("self",)))
                st.env[("self",)] = self.blank(st, f["cls"])
                outs["self"] = ("self",)
        args = []
        for p in f["params"]:
            ty = strip_ty(p["ty"])
            kd = self.tk(ty)
            nm = "%s%d" % (pfx, i)
            if p.get("ref") and ty in self.p.recs:
                o = mk("fn", (alias or {}).get(nm, nm), "o")
                self.objty[o] = ty
                args.append(LV(("h", o)))
            elif p.get("ref"):
                key = ("arg", i)
                st.env[key] = mk("fn", nm, kd)
                if st.env[key] in void:
                    st.env[key] = EMPTY
                args.append(LV(("v", key)))
                if not p.get("cref") and not p["ty"].endswith("&&"):
                    outs[nm] = key
            elif p.get("ptr") and self.tk(ty[:-1]) in TM._NK:
                key = ("mem", i)
                st.env[key] = mk("fn", nm + ".mem", "s" + self.tk(ty[:-1]))
                args.append(mk("it", (("v", key), ()), ZERO))
                if not p.get("cptr"):
                    outs[nm + ".mem"] = key
            elif p.get("ptr") and strip_ty(ty[:-1]) in self.p.recs:
                o = mk("fn", nm, "o")
                self.objty[o] = strip_ty(ty[:-1])
                args.append(o)
            else:
                args.append(mk("fn", nm, kd))
            i += 1
        if f.get("ctor"):
            rv = self.inline(st, f, this, args, ctor=(this, f["cls"]))
        else:
            rv = self.inline(st, f, this, args)
        if isinstance(rv, LV):
            rv = self.read(st, rv, self.tk(f["ret"]))
        res = Summary()
        res.ret = rv if strip_ty(f["ret"]) != "void" and not f.get("ctor") else None
        res.heap = {k: v for k, v in st.heap.items() if v.op != "fn"}
        res.outs = {n: st.env[k] for n, k in outs.items()}
        res.ev = st.ev
        res.statics = {k: st.env[k] for k in self.statics if isinstance(st.env.get(k), T)}
        res.initial = {}
        res.live = st.live
        res.fn = f
        res.notes = set(self.notes)
        return res


def opaque_atoms(t):
    """does a value depend on anything but constants"""
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            if x.op in ("unk", "new") or x.op == "fn" and not str(x.a[0]).startswith(("undef", "ctor")):
                return True
            st.extend(x.a)
        elif isinstance(x, (tuple, list)):
            st.extend(x)
    return False


class Summary(object):
    selfrec = None      # what a constructor builds

    def own(self):
        return [self.selfrec] if isinstance(self.selfrec, T) else []


def counter(step, phi, c):
    """phi + 1 does not wrap where the loop condition bounds phi by a word"""
    if step.op != "rem" or step.a[0] is not add(phi, ONE):
        return step
    for l in TM.atoms(c):
        if l.op == "pos" and phi in l.fv:
            if assume(TM.not_(l), c, True) is FALSE:
                x = add(l.a[0], phi)            # x - phi > 0
            elif assume(l, c, True) is FALSE:
                x = sub(add(phi, ONE), l.a[0])  # not phi + 1 - x > 0
            else:
                continue
            if phi not in x.fv and (TM.small(x) or (rng(x)[1] or step.a[1]) < step.a[1]):
                return step.a[0]
    return step


# ---------------------------------------------------------------- loop shapes

class Leaf(object):
    def __init__(self, base, depth=0):
        self.base = base
        self.it = None
        if base.op == "it":
            self.it = base.a[0]
            self.base = base.a[1]
        kd = kind(self.base)
        self.phi = fresh(kd, "p")
        self.closed = None
        self.step = None
        self.want = None
        self.at = None
        self.depth = depth

    def wrap(self, v):
        return mk("it", self.it, v) if self.it is not None else v

    def install(self, k):
        if self.closed is not None:
            return self.wrap(self.closed(k))
        return self.wrap(self.phi)

    def extract(self, v, k):
        if self.it is not None:
            if v.op != "it" or v.a[0] != self.it:
                raise Unsupported("iterator rebinding")
            v = v.a[1]
        self.step = v
        return self, False

    def leaves(self):
        return [self]

    def refine(self):
        if self.want is None:
            return self
        w = self.want
        self.want = None
        if w[0] == "rec":
            return RecN(self.base, {f: Leaf(rf(self.base, f, kd), self.depth + 1) for f, kd in w[1]}, self.depth)
        if w[0] == "at":
            return AtN(self.base, w[1], Leaf(get(self.base, w[1], w[2]), self.depth + 1), self.depth)
        return KeyN(self.base, [(o, Leaf(mget(self.base, o, kd), self.depth + 1)) for o, kd in w[1]], self.depth)


class RecN(object):
    def __init__(self, base, fs, depth):
        self.base, self.fs, self.depth = base, fs, depth

    def install(self, k):
        v = self.base
        for f in sorted(self.fs):
            v = with_(v, f, self.fs[f].install(k))
        return v

    def extract(self, v, k):
        got = {}
        chk = self.base
        ch = False
        for f in sorted(self.fs):
            got[f] = rf(v, f, self.kd(f))
            chk = with_(chk, f, got[f])
        if chk is not v:
            extra = [f for f, _ in (v.a[1] if v.op in ("with", "rec") else ()) if f not in self.fs]
            if extra and self.depth < 6:
                for f in extra:
                    kd = kind(rf(v, f, "x"))
                    bv = rf(self.base, f, kd)
                    if rf(v, f, kd) is bv:
                        continue
                    self.fs[f] = Leaf(bv, self.depth + 1)
                    ch = True
                if ch:
                    return self, True
            return Leaf(self.base, 9), True
        for f in list(self.fs):
            nd, c = self.fs[f].extract(got[f], k)
            self.fs[f] = nd
            ch = ch or c
        return self, ch

    def kd(self, f):
        return kind(self.fs[f].install(ZERO)) if not isinstance(self.fs[f], Leaf) else kind(self.fs[f].phi)

    def leaves(self):
        return [l for f in sorted(self.fs) for l in self.fs[f].leaves()]

    def refine(self):
        ch = False
        for f in list(self.fs):
            nd = self.fs[f].refine()
            if nd is not self.fs[f]:
                self.fs[f] = nd
                ch = True
        return RecN(self.base, self.fs, self.depth) if ch else self


class AtN(object):
    def __init__(self, base, i, nd, depth):
        self.base, self.i, self.nd, self.depth = base, i, nd, depth

    def install(self, k):
        return set_at(self.base, self.i, self.nd.install(k))

    def extract(self, v, k):
        kd = "x"
        for l in self.nd.leaves():
            pass
        if isinstance(self.nd, Leaf):
            kd = kind(self.nd.phi)
        else:
            kd = "r"
        g = get(v, self.i, kd)
        if set_at(self.base, self.i, g) is not v:
            return Leaf(self.base, 9), True
        nd, c = self.nd.extract(g, k)
        self.nd = nd
        return self, c

    def leaves(self):
        return self.nd.leaves()

    def refine(self):
        nd = self.nd.refine()
        if nd is not self.nd:
            return AtN(self.base, self.i, nd, self.depth)
        return self


class KeyN(object):
    def __init__(self, base, ks, depth):
        seen = []
        self.ks = []
        for o, nd in ks:
            if o not in seen:
                seen.append(o)
                self.ks.append((o, nd))
        self.base, self.depth = base, depth

    def install(self, k):
        m = self.base
        for o, nd in reversed(self.ks):
            m = mset(m, o, nd.install(k))
        return m

    def extract(self, v, k):
        got = []
        chk = self.base
        for o, nd in self.ks:
            kd = kind(nd.phi) if isinstance(nd, Leaf) else kind(nd.install(ZERO))
            got.append((o, nd, mget(v, o, kd)))
        for o, nd, g in reversed(got):
            chk = mset(chk, o, g)
        if chk is not v:
            # more constant keys?
            ch = []
            x = v
            while x.op == "mset":
                ch.append((x.a[1], x.a[2]))
                x = x.a[0]
            known = [o for o, _ in self.ks]
            new = [(o, w) for o, w in ch if o not in known]
            if x is self.base and new and all(indep(o, k) for o, _ in new) and self.depth < 6:
                ks = self.ks + [(o, Leaf(mget(self.base, o, kind(w)), self.depth + 1)) for o, w in new]
                return KeyN(self.base, ks, self.depth + 1), True
            return Leaf(self.base, 9), True
        c = False
        ks = []
        for o, nd, g in got:
            n2, c2 = nd.extract(g, k)
            ks.append((o, n2))
            c = c or c2
        self.ks = ks
        return self, c

    def leaves(self):
        return [l for _, nd in self.ks for l in nd.leaves()]

    def refine(self):
        ch = False
        ks = []
        for o, nd in self.ks:
            n2 = nd.refine()
            ch = ch or n2 is not nd
            ks.append((o, n2))
        return KeyN(self.base, ks, self.depth) if ch else self

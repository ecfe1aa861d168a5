"""Term language of the value-numbering domain.

Values of the analysed program are represented by hash-consed normal forms:

* integers, field elements and booleans share one commutative-ring normal form
  (polynomials with integer coefficients over atoms; booleans are 0/1-valued,
  idempotent literals, so gating `c ? a : b` is b + c*(a-b));
* sequences (vectors, queues, strings of pushes) are built from empty /
  comprehension / concatenation / point update;
* records, maps and heap fields are functional updates;
* loops are binders (sum, prod, tab, filt, flat, first, ...), alpha-canonical.

Two terms that are the same object are equal for every valuation of the atoms.
`Model`/`ev` implement random interpretation: they are used only to confirm that
two different normal forms really denote different values.
"""
import hashlib

_TAB = {}
_UID = [0]


class T(object):
    __slots__ = ("op", "a", "uid", "hb", "fv")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.uid < o.uid


_E = frozenset()


def _kids(a, out):
    for x in a:
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            _kids(x, out)
    return out


BINDERS = {"tab": 1, "sum": 1, "prod": 1, "filt": 1, "flat": 1, "updq": 1, "msetq": 1,
           "first": 1, "loop": 1}


def mk(op, *a):
    key = (op, a)
    t = _TAB.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.a = a
    _UID[0] += 1
    t.uid = _UID[0]
    ks = _kids(a, [])
    hb = 0
    fv = _E
    for k in ks:
        if k.hb > hb:
            hb = k.hb
        if k.fv:
            fv = fv | k.fv if fv else k.fv
    if op == "bv":
        t.hb = a[0]
        t.fv = frozenset((t,))
    elif op == "var":
        t.hb = 0
        t.fv = frozenset((t,))
    else:
        if op in BINDERS:
            # a[0] is the tuple of bound variables
            fv = fv - frozenset(a[0])
        t.hb = hb
        t.fv = fv
    _TAB[key] = t
    return t


_FRESH = [0]
LENFACT = {}


def fresh(kind="u", hint="k"):
    _FRESH[0] += 1
    return mk("var", _FRESH[0], kind, hint)


def I(n):
    return mk("int", n)


ZERO = I(0)
ONE = I(1)
TRUE = ONE
FALSE = ZERO
EMPTY = mk("empty")
MEMPTY = mk("mempty")
INF = mk("inf")
UNK = mk("unk", "top")

# ---------------------------------------------------------------- sorts

_NUM = {"rem", "modinv", "int", "poly", "pos", "eq0", "eqo", "sum", "prod", "pow", "inv", "div", "first", "len", "bop", "inf"}
_SEQ = {"empty", "tab", "cat", "filt", "flat", "upd", "updq", "drop", "take"}
_MAP = {"mempty", "mset", "msetq"}
_REC = {"rec", "with"}


def kind(t):
    """one of u i f b (numeric), s (sequence), m (map), r (record), o (object), x"""
    op = t.op
    if op == "var":
        return t.a[1]
    if op == "bv":
        return t.a[1]
    if op == "fn":
        return t.a[-1]
    if op in ("idx", "rf", "mg", "loopv"):
        return t.a[-1]
    if op in _NUM:
        return "u" if op in ("len", "first", "div") else ("b" if op in ("pos", "eq0", "eqo") else "i")
    if op in _SEQ:
        return "s"
    if op in _MAP:
        return "m"
    if op in _REC:
        return "r"
    if op == "ite":
        k = kind(t.a[1])
        return k if k != "x" else kind(t.a[2])
    if op in ("new", "null", "str", "it", "mit", "ptr", "clo"):
        return "o"
    return "x"


_NK = ("u", "i", "f", "b", "w", "v", "q", "y", "c")
# machine words (bit-precise obligations only): kind -> width
WIDTH = {"y": 8, "v": 32, "w": 64, "q": 128, "c": 7}
BITS = [False]
MAXN = [0]      # longest sequences and loops evaluated, where not the usual
# bit-precise obligations: bounds of named inputs
BOUND = {}
SAMPLE = {}     # the part of it interpretations are drawn from


def isnum(t):
    return kind(t) in _NK


_BOOLOPS = {"pos", "eq0", "eqo"}


def isboolatom(t):
    return t.op in _BOOLOPS or (t.op in ("fn", "var", "bv", "idx", "rf", "mg", "loopv") and kind(t) == "b")


def isnn(t):
    """atom known to be >= 0"""
    op = t.op
    if op in ("var", "bv", "fn", "idx", "rf", "mg", "loopv"):
        return kind(t) in ("u", "b") or kind(t) in WIDTH
    if op in ("len", "first", "div", "rem", "pos", "eq0", "eqo"):
        return True
    if op == "sum":
        return all(c >= 0 and all(isnn(x) for x, _ in m) for m, c in P(t.a[2]).items())
    return False


# ---------------------------------------------------------------- polynomials

def P(t):
    if t.op == "int":
        return {(): t.a[0]} if t.a[0] else {}
    if t.op == "poly":
        return dict(t.a[0])
    return {((t, 1),): 1}


def _fromP(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return I(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((x.uid, e) for x, e in mc[0])))
    return mk("poly", items)


def add(*ts):
    d = {}
    for t in ts:
        if t.op == "unk":
            return t
        if t.op == "int":
            if t.a[0]:
                d[()] = d.get((), 0) + t.a[0]
        elif t.op == "poly":
            for m, c in t.a[0]:
                d[m] = d.get(m, 0) + c
        else:
            m = ((t, 1),)
            d[m] = d.get(m, 0) + 1
    return _fromP(d)


def scale(t, n):
    if t.op == "unk":
        return t
    return _fromP({m: c * n for m, c in P(t).items()})


def neg(t):
    return scale(t, -1)


def sub(a, b):
    return add(a, neg(b))


def _lit_combine(x, y):
    """conjunction of two literal atoms; returns None (no rule), 0, or an atom / TRUE"""
    if x.op == "pos" and y.op == "pos":
        d = sub(x.a[0], y.a[0])
        if d.op == "int":
            return x if d.a[0] <= 0 else y
        s = add(x.a[0], y.a[0])
        if s.op == "int":
            c = s.a[0]
            if c <= 1:
                return 0
            if c == 2:
                return eq0(sub(x.a[0], ONE))
            return None
        if _nonneg(neg(d)):
            return x
        if _nonneg(d):
            return y
        if _nonneg(sub(ONE, s)):
            return 0
        return None
    if x.op == "eq0" and y.op == "pos":
        x, y = y, x
    if x.op == "pos" and y.op == "eq0":
        d = sub(x.a[0], y.a[0])
        if d.op == "int":
            return y if d.a[0] > 0 else 0
        s = add(x.a[0], y.a[0])
        if s.op == "int":
            return y if s.a[0] > 0 else 0
        return None
    if x.op == "eq0" and y.op == "eq0":
        for d in (sub(x.a[0], y.a[0]), add(x.a[0], y.a[0])):
            if d.op == "int" and d.a[0] != 0:
                return 0
    return None


def _nonneg(t):
    return all(c >= 0 and all(isnn(x) or e % 2 == 0 for x, e in m) for m, c in P(t).items())


def _mono_mul(m1, m2):
    """returns mono or None (zero)"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    b2 = []
    for x, e in m2:
        if isboolatom(x):
            if x not in d:
                b2.append(x)
            continue
        n = d.get(x, 0) + e
        if n:
            d[x] = n
        else:
            d.pop(x, None)
    for x in b2:
        if x.op in ("pos", "eq0"):
            again = True
            while again:
                again = False
                if x in d:
                    x = None
                    break
                for y in list(d):
                    if y.op in ("pos", "eq0"):
                        r = _lit_combine(x, y)
                        if r is None:
                            continue
                        if r == 0:
                            return None
                        if isinstance(r, T) and r.op == "int":
                            if r.a[0] == 0:
                                return None
                            r = None
                        if isinstance(r, T) and r.op == "poly":
                            continue
                        if r is y:
                            x = None
                            break
                        d.pop(y)
                        x = r
                        if x is None:
                            break
                        again = True
                        break
                if x is None:
                    break
            if x is None:
                continue
        d[x] = 1
    return tuple(sorted(d.items(), key=lambda xe: xe[0].uid))


MAXTERMS = 3000


def mul(*ts):
    for t in ts:
        if t.op == "unk":
            # 0 * unknown is 0
            if any(s is ZERO for s in ts):
                return ZERO
            return t
    acc = {(): 1}
    for t in ts:
        if t is ZERO:
            return ZERO
        if t is ONE:
            continue
        p = P(t)
        n = {}
        if len(acc) * len(p) > MAXTERMS:
            return mk("unk", "size")
        for m1, c1 in acc.items():
            for m2, c2 in p.items():
                m = _mono_mul(m1, m2)
                if m is None:
                    continue
                n[m] = n.get(m, 0) + c1 * c2
        acc = {m: c for m, c in n.items() if c}
        if not acc:
            return ZERO
    return _fromP(acc)


def powi(t, n):
    r = ONE
    for _ in range(n):
        r = mul(r, t)
    return r


def inv(t):
    if t.op == "unk":
        return t
    if t.op == "int" and t.a[0] in (1, -1):
        return t
    p = P(t)
    if len(p) == 1:
        (m, c), = p.items()
        r = _fromP({tuple((x, -e) for x, e in m): 1}) if m else ONE
        if any(isboolatom(x) for x, _ in m):
            return mk("inv", t)
        if c < 0:
            r, c = neg(r), -c
        if c != 1:
            r = mul(r, mk("inv", I(c)))
        return r
    if not p:
        return mk("inv", t)
    lead = _lead(t)
    if lead < 0:
        return neg(mk("inv", neg(t)))
    return mk("inv", t)


def _lead(t):
    """sign of the leading (non-constant) coefficient"""
    if t.op == "poly":
        for m, c in t.a[0]:
            if m != ():
                return c
    return 1


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return abs(a)


def _content(t):
    g = 0
    for m, c in P(t).items():
        if m != ():
            g = _gcd(g, c)
    return g


def pos(L):
    """L > 0 over the integers"""
    if L.op == "unk":
        return L
    if L.op == "int":
        return TRUE if L.a[0] > 0 else FALSE
    if L.op == "inf":
        return TRUE
    d = P(L)
    c = d.get((), 0)
    g = _content(L)
    if g > 1:
        n = {m: v // g for m, v in d.items() if m != ()}
        n[()] = -((-c) // g) if False else -((-c) // g)
        # x*g + c > 0  <=>  x > -c/g  <=>  x >= floor(-c/g)+1  <=>  x - floor(-c/g) > 0
        n[()] = -((-c) // g)
        L = _fromP(n)
        d = P(L)
        c = d.get((), 0)
    if c >= 1 and _nonneg(L):
        return TRUE
    if _nonneg(neg(L)):
        return FALSE
    if L.op not in ("poly",):
        # x > 0 for boolean atom
        if isboolatom(L):
            return L
    if _isbool01(L):
        return L
    if c == 1 and len(d) == 2:
        m, s = [(m, s) for m, s in d.items() if m != ()][0]
        if s == -1 and all(isboolatom(x[0]) for x in m):
            return L
    if _lead(L) < 0:
        return sub(ONE, mk("pos", sub(ONE, L)))
    return mk("pos", L)


def _isbool01(t):
    """syntactically a 0/1 valued polynomial made of boolean atoms only (conservative)"""
    if t.op in ("int",):
        return t.a[0] in (0, 1)
    if isboolatom(t):
        return True
    if t.op == "poly":
        return _BOOLPOLY.get(t, False)
    return False


_BOOLPOLY = {}


def _markbool(t):
    if t.op == "poly":
        _BOOLPOLY[t] = True
    return t


def eq0(L):
    if L.op == "unk":
        return L
    if L.op == "int":
        return TRUE if L.a[0] == 0 else FALSE
    if isboolatom(L) or _isbool01(L):
        return not_(L)
    d = P(L)
    c = d.get((), 0)
    if len(d) - (1 if c else 0) == 1:
        m, s = [(m, s) for m, s in d.items() if m != ()][0]
        if s in (1, -1) and all(isboolatom(x[0]) for x in m):
            b = _fromP({m: 1})
            return b if c == -s else (not_(b) if c == 0 else FALSE)
    if c != 0 and _nonneg(L) and c > 0:
        return FALSE
    if c < 0 and _nonneg(neg(L)):
        return FALSE
    g = _content(L)
    if g > 1 and c % g == 0:
        L = _fromP({m: v // g for m, v in d.items()})
    if _lead(L) < 0:
        L = neg(L)
    return mk("eq0", L)


def eqo(a, b):
    """object equality"""
    if a is b:
        return TRUE
    if a.op == "unk" or b.op == "unk":
        return UNK
    if isnum(a) and isnum(b):
        return eq0(sub(a, b))
    if distinct(a, b):
        return FALSE
    if a.op == "ite":
        return ite(a.a[0], eqo(a.a[1], b), eqo(a.a[2], b))
    if b.op == "ite":
        return ite(b.a[0], eqo(a, b.a[1]), eqo(a, b.a[2]))
    if a.uid > b.uid:
        a, b = b, a
    return mk("eqo", a, b)


def distinct(a, b):
    if a.op == "new" and b.op == "new":
        if a.a[0] != b.a[0] or len(a.a[2]) != len(b.a[2]):
            return True
        if a.a[1] != b.a[1] and not a.fv and not b.fv:
            return True
        return not a.fv and not b.fv and a is not b
    if a.op == "new":
        return b.op in ("fn", "null", "str") and not b.fv or b.op in ("null", "str")
    if b.op == "new":
        return distinct(b, a)
    if a.op in ("int", "str") and b.op in ("int", "str"):
        return a is not b
    if a.op == "null" and b.op == "null":
        return False
    return False


def not_(c):
    return _markbool(sub(ONE, c))


def and_(*cs):
    return _markbool(mul(*cs))


def or_(*cs):
    r = FALSE
    for c in cs:
        r = _markbool(sub(add(r, c), mul(r, c)))
    return r


def ne0(t):
    if isboolatom(t) or _isbool01(t):
        return t
    return not_(eq0(t))


def ge(a, b):
    return not_(pos(sub(b, a)))


def lt(a, b):
    return pos(sub(b, a))


def eqv(a, b):
    if isnum(a) and isnum(b):
        return eq0(sub(a, b))
    return eqo(a, b)


def units(c, val):
    """literals forced by boolean c having value val: {atom: TRUE/FALSE}"""
    m = {}
    if isboolatom(c):
        m[c] = TRUE if val else FALSE
        return m
    p = P(c)
    ats = []
    for mono in p:
        for x, _ in mono:
            if isboolatom(x) and x not in ats:
                ats.append(x)
    if len(ats) > 10 or len(p) > 64:
        return m
    bad = FALSE if val else TRUE
    for x in ats:
        if substa(c, {x: TRUE}) is bad:
            m[x] = FALSE
        elif substa(c, {x: FALSE}) is bad:
            m[x] = TRUE
    return m


_UNITS = {}


def assume(t, c, val):
    """simplify t under the assumption that boolean c has value val"""
    if not t.fv and t.op in ("int", "fn", "empty"):
        return t
    if c.op == "int":
        return t
    m = _UNITS.get((c, val))
    if m is None:
        m = _UNITS[(c, val)] = units(c, val)
    if not m:
        return t
    m = dict(m)
    rel = [(x, v) for x, v in m.items() if x.op in ("pos", "eq0")]
    if rel:
        for y in litsof(t):
            if y in m:
                continue
            for x, v in rel:
                r = _lit_combine(x, y)
                if r is None:
                    continue
                if v is TRUE:
                    if r == 0 or r is FALSE:
                        m[y] = FALSE
                        break
                    if r is x:
                        m[y] = TRUE
                        break
                elif r is y:
                    m[y] = FALSE
                    break
    return substa(t, m)


_LITS = {}


def litsof(t):
    r = _LITS.get(t)
    if r is None:
        out = []
        atoms_ = set()
        stack = [t]
        while stack:
            x = stack.pop()
            if x in atoms_:
                continue
            atoms_.add(x)
            if x.op in ("pos", "eq0"):
                out.append(x)
            kk = []
            _kids(x.a, kk)
            stack.extend(kk)
        r = _LITS[t] = tuple(sorted(out, key=lambda x: x.uid))
    return r


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "unk":
        return UNK
    if a.op == "unk" or b.op == "unk":
        if a.op == "unk" and b.op == "unk":
            return UNK
    if isnum(a) and isnum(b):
        r = add(b, mul(c, sub(a, b)))
        if (isboolatom(a) or _isbool01(a)) and (isboolatom(b) or _isbool01(b)):
            _markbool(r)
        return r
    a = assume(a, c, True)
    b = assume(b, c, False)
    if a is b:
        return a
    # records: field-wise
    if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0] and [f for f, _ in a.a[1]] == [f for f, _ in b.a[1]]:
        return mk("rec", a.a[0], tuple((f, ite(c, v, w)) for (f, v), (_, w) in zip(a.a[1], b.a[1])))
    if a.op == "with" or b.op == "with":
        ba = a.a[0] if a.op == "with" else a
        bb = b.a[0] if b.op == "with" else b
        if ba is bb:
            fa = dict(a.a[1]) if a.op == "with" else {}
            fb = dict(b.a[1]) if b.op == "with" else {}
            r = ba
            for f in sorted(set(fa) | set(fb)):
                va = fa[f] if f in fa else rf(ba, f, kind(fb[f]))
                vb = fb[f] if f in fb else rf(bb, f, kind(fa[f]))
                r = with_(r, f, ite(c, va, vb))
            return r
    # sequences / maps sharing a prefix
    if kind(a)[0] == "s" and kind(b)[0] == "s":
        pa = list(a.a) if a.op == "cat" else ([] if a is EMPTY else [a])
        pb = list(b.a) if b.op == "cat" else ([] if b is EMPTY else [b])
        i = 0
        while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
            i += 1
        if i:
            return cat(*(pa[:i] + [ite(c, cat(*pa[i:]), cat(*pb[i:]))]))
        if b is EMPTY and a.op == "tab" and a.a[1] is ONE:
            v, e = open1(a)
            return mk_filt(ONE, v, c, e)
        if a is EMPTY and b.op == "tab" and b.a[1] is ONE:
            v, e = open1(b)
            return mk_filt(ONE, v, not_(c), e)
        if b is EMPTY and a.op == "filt":
            v, cc, e = open2(a)
            return mk_filt(a.a[1], v, and_(c, cc), e)
        if a is EMPTY and b.op == "filt":
            v, cc, e = open2(b)
            return mk_filt(b.a[1], v, and_(not_(c), cc), e)
        if a.op == "upd" and a.a[0] is b:
            i, v = a.a[1], a.a[2]
            return set_at(b, i, ite(c, v, get(b, i, kind(v))))
        if b.op == "upd" and b.a[0] is a:
            i, v = b.a[1], b.a[2]
            return set_at(a, i, ite(c, get(a, i, kind(v)), v))
        if a.op == "upd" and b.op == "upd" and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
            return set_at(a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == "mset" and a.a[0] is b:
        return mset(b, a.a[1], ite(c, a.a[2], mget(b, a.a[1], kind(a.a[2]))))
    if b.op == "mset" and b.a[0] is a:
        return mset(a, b.a[1], ite(c, mget(a, b.a[1], kind(b.a[2])), b.a[2]))
    if a.op == "mset" and b.op == "mset" and a.a[1] is b.a[1]:
        return mset(ite(c, a.a[0], b.a[0]), a.a[1], ite(c, a.a[2], b.a[2]))
    if a.op == "msetq" and a.a[1] is b:
        return _gate_q(a, c)
    if b.op == "msetq" and b.a[1] is a:
        return _gate_q(b, not_(c))
    if a.op == "updq" and a.a[1] is b:
        return _gate_q(a, c)
    if b.op == "updq" and b.a[1] is a:
        return _gate_q(b, not_(c))
    nc = not_(c)
    if nc.uid < c.uid:
        return mk("ite", nc, b, a)
    return mk("ite", c, a, b)


def _gate_q(t, c):
    x, (n, g, i, v) = open_(t, (2, 3, 4, 5))
    return close(t.op, x, t.a[1], n, and_(c, g), i, v)


# ---------------------------------------------------------------- binders
# binder terms: a[0] = (bv,) ; rest as documented per op
#   tab  : n, e              sum/prod : n, e        filt : n, c, e
#   flat : n, s              first : n, c           updq : s, n, g, i, v
#   msetq: m, n, g, key, v   loop : n_phis, inits, steps   (bvs = k, phi...)

def close(op, x, *rest):
    """build binder term over free variable x"""
    h = 0
    for k in _kids(rest, []):
        if k.hb > h:
            h = k.hb
    b = mk("bv", h + 1, x.a[1])
    m = {x: b}
    return mk(op, (b,), *[_substany(r, m) for r in rest])


def open_(t, idxs):
    x = fresh(t.a[0][0].a[1])
    m = {t.a[0][0]: x}
    return x, [_substany(t.a[i], m) for i in idxs]


def open1(t):
    x, r = open_(t, (2,))
    return x, r[0]


def open2(t):
    x, r = open_(t, (2, 3))
    return x, r[0], r[1]


def inst(t, i, val):
    """component i of binder t with the bound variable replaced by val"""
    return _substany(t.a[i], {t.a[0][0]: val})


def _substany(x, m):
    if isinstance(x, T):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(_substany(y, m) for y in x)
    return x


def subst(t, m):
    keys = frozenset(m)
    return _subst(t, m, keys, {})


def _subst(t, m, keys, memo):
    if not (t.fv & keys):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    r = rebuild(t, lambda x: _subst(x, m, keys, memo))
    memo[t] = r
    return r


def substa(t, m, memo=None):
    """substitution of arbitrary closed atoms (not under binders that capture)"""
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    if t in m:
        return m[t]
    if not t.a or t.op in ("int", "var", "bv", "str"):
        return t
    r = rebuild(t, lambda x: substa(x, m, memo))
    memo[t] = r
    return r


def rebuild(t, f):
    op = t.op
    if op == "poly":
        acc = []
        for mono, c in t.a[0]:
            fs = [I(c)]
            for x, e in mono:
                y = f(x)
                if e < 0:
                    y = inv(y)
                    e = -e
                fs.extend([y] * e)
            acc.append(mul(*fs))
        r = add(*acc)
        if _BOOLPOLY.get(t):
            _markbool(r)
        return r
    if op in BINDERS:
        if op == "loop":
            return mk("loop", t.a[0], *[_mapt(x, f) for x in t.a[1:]])
        # open the binder so that inner heights may change freely
        b = t.a[0][0]
        x = fresh(b.a[1])
        rest = [_substany(y, {b: x}) for y in t.a[1:]]
        rest = [_mapt(y, f) for y in rest]
        return CLOSE[op](x, *rest)
    c = CTOR.get(op)
    args = [_mapt(y, f) for y in t.a]
    if c:
        return c(*args)
    return mk(op, *args)


def _mapt(x, f):
    if isinstance(x, T):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_mapt(y, f) for y in x)
    return x


def indep(t, x):
    return x not in t.fv


# ---------------------------------------------------------------- sums & products

def affine(t, x):
    """t = c*x + d with c an integer constant and d free of x; None otherwise"""
    c = 0
    d = {}
    for m, v in P(t).items():
        if any(y is x or x in y.fv for y, _ in m):
            if len(m) == 1 and m[0][0] is x and m[0][1] == 1:
                c += v
                continue
            return None
        d[m] = v
    return c, _fromP(d)


def mk_sum(n, x, e):
    if n is ZERO or e is ZERO:
        return ZERO
    if e.op == "unk" or n.op == "unk":
        return UNK
    if n.op == "int" and 0 <= n.a[0] <= 16:
        return add(*[subst(e, {x: I(i)}) for i in range(n.a[0])])
    out = []
    for m, c in P(e).items():
        fac = [I(c)]
        body = []
        for y, k in m:
            if x in y.fv:
                body.append((y, k))
            else:
                fac.append(_fromP({((y, k),): 1}))
        if not body:
            out.append(mul(n, *fac))
            continue
        b = _fromP({tuple(sorted(body, key=lambda q: q[0].uid)): 1})
        r = None
        # one-point rule
        for y, k in body:
            if y.op == "eq0":
                af = affine(y.a[0], x)
                if af and af[0] in (1, -1):
                    j = neg(af[1]) if af[0] == 1 else af[1]
                    rest = _fromP({tuple(q for q in body if q[0] is not y): 1})
                    v = subst(rest, {x: j})
                    r = mul(ge(j, ZERO), lt(j, n), v)
                    break
        if r is None:
            # range restriction: pos(a - x) or pos(x - a)
            for y, k in body:
                if y.op == "pos":
                    af = affine(y.a[0], x)
                    rest = _fromP({tuple(q for q in body if q[0] is not y): 1})
                    if af and af[0] == -1 and n is not af[1]:
                        # x < a : min(n, a)
                        if lt(n, af[1]) is FALSE:
                            r = mk_sum(af[1], x, rest)
                            break
                        if lt(af[1], n) is FALSE:
                            r = mk_sum(n, x, rest)
                            break
                    if af and af[0] == -1 and n is af[1]:
                        r = mk_sum(n, x, rest)
                        break
        if r is None:
            t1 = close("sum", x, n, b)
            rb = subst(b, {x: sub(sub(n, ONE), x)})
            sgn = 1
            rp = P(rb)
            if len(rp) == 1:
                (rm, rc), = rp.items()
                if rc in (1, -1):
                    t2 = close("sum", x, n, _fromP({rm: 1}))
                    if t2.uid < t1.uid:
                        t1 = scale(t2, rc)
            r = t1
        out.append(mul(r, *fac))
    return add(*out)


def mk_prod(n, x, e):
    if n is ZERO:
        return ONE
    if e.op == "unk" or n.op == "unk":
        return UNK
    if n.op == "int" and 0 <= n.a[0] <= 16:
        return mul(*[subst(e, {x: I(i)}) for i in range(n.a[0])])
    if indep(e, x):
        return mk_pow(e, n)
    p = P(e)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) > 1 or c != 1 or m[0][1] != 1:
            out = []
            if c != 1:
                out.append(mk_pow(I(c), n))
            for y, k in m:
                if k == 1:
                    out.append(mk_prod(n, x, y))
                elif k < 0:
                    out.append(inv(powi(mk_prod(n, x, y), -k)))
                else:
                    out.append(powi(mk_prod(n, x, y), k))
            return mul(*out)
    t1 = close("prod", x, n, e)
    t2 = close("prod", x, n, subst(e, {x: sub(sub(n, ONE), x)}))
    return t2 if t2.uid < t1.uid else t1


def mk_pow(b, n):
    if n.op == "int" and n.a[0] >= 0 and n.a[0] <= 64:
        return powi(b, n.a[0])
    if b is ONE or b is ZERO:
        return b if b is ONE else mk("pow", b, n)
    p = P(b)
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) > 1:
            return mul(*[mk_pow(_fromP({((y, k),): 1}), n) for y, k in m])
        if c == 1 and m[0][1] == -1:
            return inv(mk_pow(m[0][0], n))
    return mk("pow", b, n)


def mk_div(a, b):
    if a.op == "unk" or b.op == "unk":
        return UNK
    if b is ONE:
        return a
    if a is ZERO:
        return ZERO
    if a.op == "int" and b.op == "int" and b.a[0] > 0 and a.a[0] >= 0:
        return I(a.a[0] // b.a[0])
    if b.op == "int" and b.a[0] > 0:
        q, r = {}, {}
        for m, c in P(a).items():
            q[m] = c // b.a[0]
            r[m] = c % b.a[0]
        rq = _fromP(r)
        if rq is ZERO:
            return _fromP(q)
        if any(q.values()) and (len(q) > 1 or () not in q or q[()] > 0):
            if _nonneg(rq):
                return add(_fromP(q), mk_div(rq, b)) if _fromP(q) is not ZERO else mk("div", rq, b)
        return mk("div", a, b)
    pb = P(b)
    if len(pb) == 1:
        (mb, cb), = pb.items()
        q, r = {}, {}
        for m, c in P(a).items():
            d = dict(m)
            ok = c % cb == 0
            for y, k in mb:
                if d.get(y, 0) < k:
                    ok = False
                    break
                d[y] -= k
            if ok:
                q[tuple(sorted(((y, k) for y, k in d.items() if k), key=lambda z: z[0].uid))] = c // cb
            else:
                r[m] = c
        if q and not r:
            return _fromP(q)
        if q:
            return add(_fromP(q), mk("div", _fromP(r), b))
    return mk("div", a, b)


def nameof(t):
    """name of an input"""
    if t.op == "fn" and isinstance(t.a[0], str):
        return t.a[0]
    if t.op == "mg" and t.a[0].op == "fn" and str(t.a[0].a[0]).startswith("H:"):
        return t.a[0].a[0][2:]
    if t.op == "rf":
        return t.a[1]
    return None


_RNG = {}


def rng(t):
    """interval (lo, hi) of an integer term; None where unbounded"""
    r = _RNG.get(t)
    if r is None:
        r = _RNG[t] = _rng1(t)
    return r


def _rng1(t):
    op = t.op
    if op == "int":
        return (t.a[0], t.a[0])
    if op == "poly":
        lo = hi = 0
        for m, c in t.a[0]:
            a = b = c
            for x, e in m:
                if e < 0:
                    return (None, None)
                l, h = rng(x)
                if e > 1 and (l is None or l < 0):
                    return (None, None)
                for _ in range(e):
                    if a is not None and b is not None and l is not None and h is not None:
                        ps = (a * l, a * h, b * l, b * h)
                        a, b = min(ps), max(ps)
                    elif l is not None and l >= 0 and a is not None and b is not None and a >= 0:
                        a, b = a * l, None
                    else:
                        return (None, None)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        return (lo, hi)
    if op in _BOOLOPS:
        return (0, 1)
    if op == "rem":
        return (0, t.a[1] - 1)
    if op == "div":
        l, h = rng(t.a[0])
        if t.a[1].op == "int" and t.a[1].a[0] > 0:
            return (None if l is None else l // t.a[1].a[0], None if h is None else h // t.a[1].a[0])
        return (0 if l is not None and l >= 0 else None, h if l is not None and l >= 0 else None)
    if op == "bop":
        (l, h), (l2, h2) = rng(t.a[1]), rng(t.a[2])
        if l is None or l2 is None or l < 0 or l2 < 0:
            return (None, None)
        if t.a[0] == "&":
            return (0, h2 if h is None else h if h2 is None else min(h, h2))
        if t.a[0] in "|^":
            if h is None or h2 is None:
                return (0, None)
            return (0, (1 << max(h.bit_length(), h2.bit_length())) - 1)
        if t.a[0] == ">>":
            return (0, h)
        return (0, None)
    if op == "ite":
        (l, h), (l2, h2) = rng(t.a[1]), rng(t.a[2])
        return (None if l is None or l2 is None else min(l, l2), None if h is None or h2 is None else max(h, h2))
    k = kind(t)
    n = nameof(t)
    if n in BOUND:
        return BOUND[n]
    if k in WIDTH:
        return (0, (1 << WIDTH[k]) - 1)
    if k == "b":
        return (0, 1)
    if k == "u":
        return (0, None)
    return (None, None)


def small(t):
    """term built from sizes only, which do not overflow"""
    op = t.op
    if op == "int":
        return abs(t.a[0]) < 1 << 16
    if op == "poly":
        return all(abs(c) < 1 << 16 and all(e > 0 and small(x) for x, e in m) for m, c in t.a[0])
    if op in _BOOLOPS or op in ("len", "first"):
        return True
    if op == "div":
        return small(t.a[0])
    if op == "rem":
        return t.a[1] <= 4096 or small(t.a[0])
    n = nameof(t)
    if n in BOUND:
        return BOUND[n][1] <= 1 << 16
    return kind(t) in ("u", "b", "y", "c") and op in ("fn", "mg", "rf", "var", "bv", "loopv", "idx")


def rem(t, m):
    """t mod m, m a positive integer, in 0..m-1"""
    if t.op == "unk":
        return t
    if t.op == "int":
        return I(t.a[0] % m)
    lo, hi = rng(t)
    if lo is not None and hi is not None and 0 <= lo and hi < m:
        return t
    d = {}
    for mono, c in P(t).items():
        c = c % m
        if not c:
            continue
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == "rem" and mono[0][0].a[1] % m == 0:
            for m2, c2 in P(mono[0][0].a[0]).items():
                d[m2] = d.get(m2, 0) + c * c2
            continue
        d[mono] = d.get(mono, 0) + (c if c <= m // 2 else c - m)
    r = _fromP({k: v % m if v % m <= m // 2 else v % m - m for k, v in d.items() if v % m})
    if r.op == "int":
        return I(r.a[0] % m)
    lo, hi = rng(r)
    if lo is not None and hi is not None and 0 <= lo and hi < m:
        return r
    return mk("rem", r, m)


def wrap(t, w):
    """reduction of an unsigned result to its w bits"""
    if t.op == "unk" or not isnum(t) or t.op != "int" and small(t):
        return t
    return rem(t, 1 << w)


def mod(a, b):
    if BITS[0] and b.op == "int" and b.a[0] > 0 and not small(a):
        return rem(a, b.a[0])
    if a.op == "int" and b.op == "int" and b.a[0] > 0:
        return I(a.a[0] % b.a[0])
    return sub(a, mul(b, mk_div(a, b)))


def bop(op, a, b):
    if a.op == "unk" or b.op == "unk":
        return UNK
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        if op == "&":
            return I(x & y)
        if op == "|":
            return I(x | y)
        if op == "^":
            return I(x ^ y)
        if op == "<<" and 0 <= y < 4096:
            return I(x << y)
        if op == ">>" and y >= 0:
            return I(x >> y)
    if op == "<<" and b.op == "int" and 0 <= b.a[0] < 200:
        return scale(a, 1 << b.a[0])
    if op == ">>" and b.op == "int" and 0 <= b.a[0] < 200:
        return mk_div(a, I(1 << b.a[0]))
    if op in "&|^" and a.uid > b.uid:
        a, b = b, a
    if op in "&" and (isboolatom(a) or _isbool01(a)) and (isboolatom(b) or _isbool01(b)):
        return and_(a, b)
    if op in "|" and (isboolatom(a) or _isbool01(a)) and (isboolatom(b) or _isbool01(b)):
        return or_(a, b)
    if op == "&":
        for p, q in ((a, b), (b, a)):
            if p is ZERO:
                return ZERO
            if p.op == "int" and p.a[0] > 0 and (p.a[0] & (p.a[0] + 1)) == 0:
                return rem(q, p.a[0] + 1) if BITS[0] else mod(q, I(p.a[0] + 1))
    if op in "|^":
        if a is ZERO:
            return b
        if b is ZERO:
            return a
    if op == "^" and a is b:
        return ZERO
    if op in "&|^":
        # associative, commutative
        d = {}
        st = [a, b]
        while st:
            x = st.pop()
            if x.op == "bop" and x.a[0] == op:
                st.extend(x.a[1:])
            else:
                d[x] = d.get(x, 0) + 1
        xs = sorted((x for x, n in d.items() if op != "^" or n % 2), key=lambda x: x.uid)
        if not xs:
            return ZERO
        r = xs[0]
        for x in xs[1:]:
            r = mk("bop", op, r, x)
        return r
    return mk("bop", op, a, b)


def mk_first(n, x, c):
    """least x < n with c(x), n if there is none"""
    if c.op == "unk":
        return UNK
    if c is FALSE:
        return n
    if c is TRUE:
        return ZERO
    if indep(c, x):
        return ite(c, ZERO, n) if n is not INF else mk("unk", "nonterminating")
    p = P(c)
    # c = [x >= a]
    lits = None
    if c.op == "pos":
        lits = [c]
    elif len(p) == 2 and p.get(()) == 1:
        mono, k = [(mm, kk) for mm, kk in p.items() if mm != ()][0]
        if k == -1 and len(mono) == 1 and mono[0][0].op == "pos":
            # not pos(L): L <= 0  => pos(1 - L)
            L = sub(ONE, mono[0][0].a[0])
            af = affine(L, x)
            if af and af[0] > 0:
                return _firstge(n, af[0], af[1])
    if lits:
        af = affine(c.a[0], x)
        if af and af[0] > 0:
            return _firstge(n, af[0], af[1])
    if c.op == "eq0":
        af = affine(c.a[0], x)
        if af and af[0] in (1, -1):
            j = neg(af[1]) if af[0] == 1 else af[1]
            if n is INF:
                return j
    # disjunction [x>=a] or d : treat generally
    return close("first", x, n, c)


def _firstge(n, c, d):
    """least x>=0 with c*x + d > 0, assuming it is the number of iterations"""
    # c*x + d > 0  <=> x >= ceil((1-d)/c)
    a = sub(ONE, d)
    if c != 1:
        a = mk_div(add(a, I(c - 1)), I(c))
    if _nonneg(neg(a)):
        return ZERO
    if n is INF or lt(n, a) is FALSE:
        return a
    if lt(a, n) is FALSE:
        return n
    return add(a, mul(lt(n, a), sub(n, a)))


# ---------------------------------------------------------------- sequences

def unit(v):
    return mk_tab(ONE, fresh(), v)


def mk_tab(n, x, e):
    if n is ZERO:
        return EMPTY
    if n.op == "unk":
        return UNK
    if n.op == "int" and 2 <= n.a[0] <= 16:
        return mk("cat", *[close("tab", x, ONE, subst(e, {x: I(i)})) for i in range(n.a[0])])
    if n is ONE:
        e = subst(e, {x: ZERO})
    # eta
    if e.op == "idx" and e.a[1] is x and x not in e.a[0].fv and length(e.a[0]) is n:
        return e.a[0]
    return close("tab", x, n, e)


# operations returning vectors whose length is one of their arguments
VECLEN = {"scl::details::SecretsFromSharesAndLength": 2, "scl::details::SharesFromEvPoly": 2}


def length(s):
    if s in LENFACT:
        return LENFACT[s]
    op = s.op
    if op == "empty":
        return ZERO
    if op == "tab":
        return s.a[1]
    if op == "cat":
        return add(*[length(x) for x in s.a])
    if op == "upd":
        return length(s.a[0])
    if op == "updq":
        return length(s.a[1])
    if op == "filt":
        x, c, e = open2(s)
        return mk_sum(s.a[1], x, c)
    if op == "flat":
        x, e = open1(s)
        return mk_sum(s.a[1], x, length(e))
    if op == "ite":
        return ite(s.a[0], length(s.a[1]), length(s.a[2]))
    if op == "drop":
        return sub(length(s.a[0]), s.a[1])
    if op == "take":
        return s.a[1]
    if op == "unk":
        return s
    if op == "str":
        return I(len(s.a[0]))
    if op == "rf" and s.a[0].op == "fn" and s.a[0].a[0] in VECLEN and len(s.a[0].a) > 2:
        return s.a[0].a[VECLEN[s.a[0].a[0]]]
    return mk("len", s)


def _tabmerge(a, b):
    """merge two adjacent tabs into one comprehension when they continue each other"""
    if a.op != "tab" or b.op != "tab":
        return None
    n, m = a.a[1], b.a[1]
    if n.op == "int" and m.op == "int":
        return None
    x, e1 = open1(a)
    y, e2 = open1(b)
    if n is not ONE or x in e1.fv:
        if subst(e1, {x: add(x, n)}) is subst(e2, {y: x}):
            l = rng(m)[0]
            k = add(n, m) if l is not None and l >= 0 else ite(lt(m, ZERO), n, add(n, m))
            return mk_tab(k, x, e1)
    if n is ONE:
        e2s = subst(e2, {y: sub(y, ONE)})
        if subst(e2s, {y: ZERO}) is e1:
            return mk_tab(add(m, ONE), y, e2s)
    return None


def cat(*ss):
    out = []
    for s in ss:
        if s.op == "unk":
            return s
        if s is EMPTY:
            continue
        parts = s.a if s.op == "cat" else (s,)
        for p in parts:
            while out:
                r = _tabmerge(out[-1], p)
                if r is None:
                    break
                out.pop()
                p = r
            out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


def mk_filt(n, x, c, e):
    if c is FALSE or n is ZERO:
        return EMPTY
    if c is TRUE:
        return mk_tab(n, x, e)
    if c.op == "unk":
        return UNK
    if n.op == "int" and 2 <= n.a[0] <= 16:
        return cat(*[mk_filt(ONE, x, subst(c, {x: I(i)}), subst(e, {x: I(i)})) for i in range(n.a[0])])
    if n is ONE:
        c = subst(c, {x: ZERO})
        e = subst(e, {x: ZERO})
        if c is TRUE:
            return mk_tab(n, x, e)
        if c is FALSE:
            return EMPTY
    if indep(c, x) and n is not ONE:
        return ite(c, mk_tab(n, x, e), EMPTY)
    e = assume(e, c, True)
    return close("filt", x, n, c, e)


def mk_flat(n, x, s):
    if n is ZERO or s is EMPTY:
        return EMPTY
    if s.op == "unk":
        return UNK
    if s.op == "tab" and s.a[1] is ONE:
        y, e = open1(s)
        return mk_tab(n, x, e)
    if s.op == "filt" and s.a[1] is ONE:
        y, c, e = open2(s)
        return mk_filt(n, x, c, e)
    if n.op == "int" and 0 <= n.a[0] <= 16:
        return cat(*[subst(s, {x: I(i)}) for i in range(n.a[0])])
    return close("flat", x, n, s)


def get(s, i, kd):
    op = s.op
    if op == "unk" or i.op == "unk":
        return UNK
    if op == "tab":
        return inst(s, 2, i)
    if op == "cat":
        # walk from the front, then from the back
        parts = list(s.a)
        off = ZERO
        while len(parts) > 1:
            n = length(parts[0])
            d = sub(i, off)
            c = lt(d, n)
            if c is TRUE:
                return get(parts[0], d, kd)
            if c is FALSE:
                off = add(off, n)
                parts.pop(0)
                continue
            break
        if len(parts) == 1:
            return get(parts[0], sub(i, off), kd)
        total = length(s)
        back = []
        end = total
        ps = list(s.a)
        while ps:
            n = length(ps[-1])
            start = sub(end, n)
            if ge(i, start) is TRUE:
                return get(ps[-1], sub(i, start), kd)
            if lt(i, start) is TRUE and len(ps) > 1:
                end = start
                ps.pop()
                continue
            break
        if len(ps) < len(s.a):
            return get(cat(*ps), i, kd)
        n = length(parts[0])
        d = sub(i, off)
        return ite(lt(d, n), get(parts[0], d, kd), get(cat(*parts[1:]), sub(d, n), kd))
    if op == "upd":
        j = s.a[1]
        e = eq0(sub(i, j))
        if e is TRUE:
            return s.a[2]
        if e is FALSE:
            return get(s.a[0], i, kd)
        return ite(e, s.a[2], get(s.a[0], i, kd))
    if op == "updq":
        x, (n, g, idx, v) = open_(s, (2, 3, 4, 5))
        af = affine(idx, x)
        if af and af[0] == 1:
            j = sub(i, af[1])
            c = and_(ge(j, ZERO), lt(j, n), subst(g, {x: j}))
            return ite(c, subst(v, {x: j}), get(s.a[1], i, kd))
        if af and af[0] == -1:
            j = sub(af[1], i)
            c = and_(ge(j, ZERO), lt(j, n), subst(g, {x: j}))
            return ite(c, subst(v, {x: j}), get(s.a[1], i, kd))
    if op == "ite":
        return ite(s.a[0], get(s.a[1], i, kd), get(s.a[2], i, kd))
    if op == "drop":
        return get(s.a[0], add(s.a[1], i), kd)
    if op == "take":
        return get(s.a[0], i, kd)
    if op == "str" and i.op == "int" and 0 <= i.a[0] < len(s.a[0]):
        return I(ord(s.a[0][i.a[0]]))
    return mk("idx", s, i, kd)


def set_at(s, i, v):
    if s.op == "unk" or i.op == "unk":
        return UNK
    if v.op == "idx" and v.a[0] is s and v.a[1] is i:
        return s
    if s.op == "upd" and s.a[1] is i:
        return set_at(s.a[0], i, v)
    if s.op == "upd" and i.op == "int" and s.a[1].op == "int" and i.a[0] < s.a[1].a[0]:
        # cells in ascending order
        chain = []
        t = s
        while t.op == "upd" and t.a[1].op == "int" and t.a[1].a[0] > i.a[0]:
            chain.append((t.a[1], t.a[2]))
            t = t.a[0]
        if t.op == "upd" and t.a[1] is i:
            t = t.a[0]
        r = mk("upd", t, i, v)
        for j, w in reversed(chain):
            r = mk("upd", r, j, w)
        return r
    if s.op == "tab" and s.a[1] is ONE and i is ZERO:
        return unit(v)
    if s.op == "cat":
        parts = list(s.a)
        off = ZERO
        for q, p in enumerate(parts):
            n = length(p)
            d = sub(i, off)
            inside = and_(ge(d, ZERO), lt(d, n))
            if inside is TRUE:
                if n is ONE:
                    return cat(*(parts[:q] + [unit(v)] + parts[q + 1:]))
                return cat(*(parts[:q] + [set_at(p, d, v)] + parts[q + 1:]))
            off = add(off, n)
    return mk("upd", s, i, v)


def mk_updq(x, s, n, g, i, v):
    """for x in 0..n-1: if g(x): s[i(x)] = v(x)   (v does not read s)"""
    if g is FALSE or n is ZERO:
        return s
    if g.op == "unk" or v.op == "unk" or i.op == "unk":
        return UNK
    if n.op == "int" and 0 <= n.a[0] <= 16:
        r = s
        for q in range(n.a[0]):
            m = {x: I(q)}
            j, w = subst(i, m), subst(v, m)
            r = ite(subst(g, m), set_at(r, j, w), r)
        return r
    if g is TRUE and i is x and length(s) is n:
        return mk_tab(n, x, v)
    if indep(i, x) and indep(v, x) and indep(g, x):
        return ite(and_(g, pos(n)), set_at(s, i, v), s)
    af = affine(i, x)
    if af and af[0] == -1:
        # reversed traversal of distinct cells
        m = {x: sub(sub(n, ONE), x)}
        return mk_updq(x, s, n, subst(g, m), subst(i, m), subst(v, m))
    v = assume(v, g, True)
    return close("updq", x, s, n, g, i, v)


def drop(s, n):
    if n is ZERO:
        return s
    if s.op == "unk":
        return s
    if s.op == "drop":
        return drop(s.a[0], add(s.a[1], n))
    if s.op == "cat":
        l0 = length(s.a[0])
        if l0 is n or (l0.op == "int" and n.op == "int" and l0.a[0] <= n.a[0]):
            return drop(cat(*s.a[1:]), sub(n, l0))
    if s.op == "tab" and s.a[1] is n:
        return EMPTY
    if s.op == "tab":
        x, e = open1(s)
        return mk_tab(sub(s.a[1], n), x, subst(e, {x: add(x, n)}))
    return mk("drop", s, n)


def take(s, n):
    if s.op == "unk":
        return s
    if length(s) is n:
        return s
    if n is ZERO:
        return EMPTY
    if s.op == "cat":
        l0 = length(cat(*s.a[:-1]))
        if l0 is n:
            return cat(*s.a[:-1])
    if s.op == "tab":
        x, e = open1(s)
        return mk_tab(n, x, e)
    if s.op == "take":
        return take(s.a[0], n)
    return mk("take", s, n)


# ---------------------------------------------------------------- records

RECFIELDS = {}   # type -> [field,...] (set by the evaluator)


def rec(ty, d):
    return mk("rec", ty, tuple(sorted(d.items())))


FIELDKIND = {}      # field -> kind of its values (filled by the machine)


def rf(b, f, kd):
    op = b.op
    if op == "unk":
        return b
    if op == "rec":
        for g, v in b.a[1]:
            if g == f:
                return v
        return mk("unk", "field")
    if op == "with":
        for g, v in b.a[1]:
            if g == f:
                return v
        return rf(b.a[0], f, kd)
    if op == "ite":
        return ite(b.a[0], rf(b.a[1], f, kd), rf(b.a[2], f, kd))
    return mk("rf", b, f, FIELDKIND.get(f, kd))


def with_(b, f, v):
    op = b.op
    if op == "unk":
        return b
    if op == "rec":
        d = dict(b.a[1])
        d[f] = v
        return rec(b.a[0], d)
    if v.op == "rf" and v.a[0] is b and v.a[1] == f:
        return b
    if op == "with":
        d = dict(b.a[1])
        if v.op == "rf" and v.a[0] is b.a[0] and v.a[1] == f:
            d.pop(f, None)
        else:
            d[f] = v
        if not d:
            return b.a[0]
        return mk("with", b.a[0], tuple(sorted(d.items())))
    return mk("with", b, ((f, v),))


# ---------------------------------------------------------------- maps / heap

def mget(m, key, kd):
    op = m.op
    if op == "unk" or key.op == "unk":
        return UNK
    if op == "mset":
        e = eqv(m.a[1], key)
        if e is TRUE:
            return m.a[2]
        if e is FALSE:
            return mget(m.a[0], key, kd)
        return ite(e, m.a[2], mget(m.a[0], key, kd))
    if op == "ite":
        return ite(m.a[0], mget(m.a[1], key, kd), mget(m.a[2], key, kd))
    if op == "msetq" and key.op == "new":
        x, (n, g, kk, v) = open_(m, (2, 3, 4, 5))
        if distinct(kk, key) or (kk.op == "new" and kk.a[0] != key.a[0]):
            return mget(m.a[1], key, kd)
    if op == "msetq":
        x, (n, g, kk, v) = open_(m, (2, 3, 4, 5))
        if distinct(kk, key):
            return mget(m.a[1], key, kd)
        # key(x) = new(T, args, x): injective
        if kk.op == "new" and key.op == "new" and kk.a[:2] == key.a[:2]:
            pass
    if op == "mempty" and kd in _NK:
        return ZERO
    bk = _mapkind(m)
    if bk is not None:
        kd = bk
    return mk("mg", m, key, kd)


def _mapkind(m):
    """The kind of the values of the map m, when its base says so."""
    n = 0
    while n < 200:
        n += 1
        op = m.op
        if op == "fn":
            k = m.a[-1]
            return k[1:] if isinstance(k, str) and len(k) > 1 and k[0] == "m" else None
        if op == "mset":
            m = m.a[0]
        elif op == "msetq":
            m = m.a[1]
        elif op == "ite":
            m = m.a[1]
        else:
            return None
    return None


def mset(m, key, v):
    if m.op == "unk" or key.op == "unk":
        return UNK
    if v.op == "mg" and v.a[0] is m and v.a[1] is key:
        return m
    if m.op == "mset":
        if m.a[1] is key:
            return mset(m.a[0], key, v)
        if eqv(m.a[1], key) is FALSE and m.a[1].uid > key.uid:
            return mset(mset(m.a[0], key, v), m.a[1], m.a[2])
    return mk("mset", m, key, v)


def mk_msetq(x, m, n, g, key, v):
    if g is FALSE or n is ZERO:
        return m
    if g.op == "unk" or v.op == "unk" or key.op == "unk":
        return UNK
    if n.op == "int" and 0 <= n.a[0] <= 16:
        r = m
        for q in range(n.a[0]):
            s = {x: I(q)}
            r = ite(subst(g, s), mset(r, subst(key, s), subst(v, s)), r)
        return r
    if indep(key, x) and indep(v, x) and indep(g, x):
        return ite(and_(g, pos(n)), mset(m, key, v), m)
    return close("msetq", x, m, n, g, key, v)


def loopv(sys, j, k, kd):
    if k is ZERO:
        return sys.a[1][j]
    return mk("loopv", sys, j, k, kd)


CTOR = {
    "pos": pos, "eq0": eq0, "eqo": eqv, "inv": inv, "pow": mk_pow, "div": mk_div,
    "bop": bop, "len": length, "cat": cat, "upd": set_at, "idx": get, "drop": drop, "take": take,
    "rf": rf, "with": lambda b, fs: _withall(b, fs), "mg": mget, "mset": mset, "ite": ite,
    "loopv": loopv, "rem": rem,
}


def _withall(b, fs):
    for f, v in fs:
        b = with_(b, f, v)
    return b


CLOSE = {
    "sum": lambda x, n, e: mk_sum(n, x, e),
    "prod": lambda x, n, e: mk_prod(n, x, e),
    "tab": lambda x, n, e: mk_tab(n, x, e),
    "filt": lambda x, n, c, e: mk_filt(n, x, c, e),
    "flat": lambda x, n, s: mk_flat(n, x, s),
    "first": lambda x, n, c: mk_first(n, x, c),
    "updq": lambda x, s, n, g, i, v: mk_updq(x, s, n, g, i, v),
    "msetq": lambda x, m, n, g, k, v: mk_msetq(x, m, n, g, k, v),
}


def atoms(t, out=None, seen=None):
    """all subterms"""
    if out is None:
        out, seen = [], set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out.append(x)
        st.extend(_kids(x.a, []))
    return out


def hasop(t, op):
    return any(x.op == op for x in atoms(t))


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if d > 12:
        return "..."
    op, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0])
    if op == "poly":
        out = []
        for m, c in a[0]:
            f = [("%s" % s(x)) + ("^%d" % e if e != 1 else "") for x, e in m]
            if not f:
                out.append(str(c))
            elif c == 1:
                out.append("*".join(f))
            elif c == -1:
                out.append("-" + "*".join(f))
            else:
                out.append("%d*%s" % (c, "*".join(f)))
        return "(" + " + ".join(out) + ")"
    if op == "var":
        return "%s%d" % (a[2], a[0])
    if op == "bv":
        return "i%d" % a[0]
    if op == "pos":
        return "[%s>0]" % s(a[0])
    if op == "eq0":
        return "[%s==0]" % s(a[0])
    if op == "eqo":
        return "[%s==%s]" % (s(a[0]), s(a[1]))
    if op == "fn":
        if len(a) == 2:
            return str(a[0])
        return "%s(%s)" % (a[0], ",".join(_sh(x, d) for x in a[1:-1]))
    if op == "idx":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if op == "rf":
        return "%s.%s" % (s(a[0]), a[1].split("::")[-1])
    if op == "mg":
        return "%s@%s" % (s(a[1]), s(a[0]))
    if op in ("sum", "prod", "tab", "flat", "first"):
        return "%s{i%d<%s}(%s)" % (op, a[0][0].a[0], s(a[1]), s(a[2]))
    return "%s(%s)" % (op, ",".join(_sh(x, d) for x in a))


def _sh(x, d):
    if isinstance(x, T):
        return show(x, d + 1)
    if isinstance(x, tuple):
        return "(" + ",".join(_sh(y, d) for y in x) + ")"
    return str(x)


# ---------------------------------------------------------------- random interpretation

PRIME = (1 << 61) - 1


class Poison(Exception):
    pass


def _h(*xs):
    m = hashlib.blake2b(repr(xs).encode(), digest_size=8)
    return int.from_bytes(m.digest(), "big")


class OSeq(object):
    """uninterpreted sequence value"""
    __slots__ = ("h", "n", "ek")

    def __init__(self, h, n, ek):
        self.h, self.n, self.ek = h, n, ek

    def __repr__(self):
        return "S%x" % self.h


class FMap(object):
    __slots__ = ("base", "d")

    def __init__(self, base, d):
        self.base, self.d = base, d

    def __repr__(self):
        return "M%s%r" % (self.base, sorted(self.d.items(), key=repr))


class FRec(object):
    __slots__ = ("base", "d")

    def __init__(self, base, d):
        self.base, self.d = base, d

    def __repr__(self):
        return "R%s%r" % (self.base, sorted(self.d.items()))


LENGTHS = [(1 << 25) - 1, 1 << 25, (1 << 25) + 1, 1 << 16, (1 << 16) + 1, 1 << 17, 1 << 31, (1 << 32) - 1, 1 << 26, 1 << 24]


class Model(object):
    """a random interpretation; consts: values the conditions under
    comparison distinguish, which the interpretation is made to hit"""
    unknown = frozenset()

    def __init__(self, seed, fixed=None, sizes=(1, 4), budget=400000, consts=(), positive=(), pool=False,
                 over=None):
        self.seed = seed
        self.over = over or {}
        self.fixed = fixed or {}
        lo, hi = sizes
        p = seed % 4
        if p == 0:
            dom = range(lo, hi + 1)
        elif p == 1:
            dom = range(0, hi)
        elif p == 2:
            dom = [0, lo] + [c for c in consts for _ in (0, 1)] if consts else range(0, hi + 1)
        else:
            dom = range(lo, hi + 2)
        self.dom = list(dom)
        self.pdom = [x for x in self.dom if x >= lo] or [lo]
        self.fdom = [0, 1, PRIME - 1] + list(consts) if p == 2 else None
        # few ring elements: equalities between them happen
        self.fbin = p == 3 and seed % 8 == 7 or p == 1 and seed % 16 == 9
        self.positive = positive
        self.pool = pool and p == 3
        self.memo = {}
        self.budget = budget
        self.recv = None
        self.names = {}
        self.news = {}
        self.cov = set()
        # above zero: equalities are made to hold, with this chance out of 16,
        # by choices not yet made
        self.agree = 0
        # ... all but one of them
        self.settled = self.skip = 0
        self.read = set()
        # numbers in the elements of a sequence: the element's place, mostly
        self.ident = seed % 16 == 12 or MAXN[0] and seed % 4 == 0
        self.pos = {}
        self.span = 0

    def key(self, *key):
        return _h(self.seed, key)

    def val(self, kd, *key):
        h = _h(self.seed, key)
        if self.agree:
            self.read.add(h)
        if BITS[0]:
            r = self.word(kd, h, key)
            if r is not None:
                return r
        if h in self.over:
            v = self.over[h]
            return OSeq(h, v, kd[1:] or "x") if kd[0] == "s" else v
        if self.ident:
            i = self.pos.get(key[1]) if key[0] == "rf" else key[2] if key[0] == "idx" else None
            if kd == "u" and isinstance(i, int):
                p = self.key("ident", key[1] if key[0] == "idx" else key[2])
                if self.span:
                    # one repetition, far apart
                    return i if p % 2 or i != self.span + p // 2 % 8 or not i else p // 16 % i * (p // 64 % 2)
                return i if p % 3 or _h(p, i) % 8 else _h(p, i, "e") % (i + 1)
            if kd in "ro" and key[0] == "idx":
                self.pos[h] = key[2]
        if kd == "u":
            d = self.dom
            if key[0] == "mg" and self.names.get(key[1]) in self.positive:
                d = self.pdom
            return d[h % len(d)]
        if kd == "i":
            return h % 7 - 1
        if kd == "f":
            if self.fbin:
                return (h >> 15) % 2
            if self.fdom and (h >> 20) % 2 == 0:
                return self.fdom[h % len(self.fdom)]
            return h % PRIME
        if kd == "b":
            return (h >> 7) & 1
        if kd[0] == "s":
            return OSeq(h, self.dom[(h >> 9) % len(self.dom)], kd[1:] or "x")
        if kd[0] == "m":
            if key[0] == "fn" and str(key[1][0]).startswith("H:"):
                self.names[h] = key[1][0][2:]
            return FMap(h, {})
        if kd == "r":
            return FRec(h, {})
        if self.pool and kd == "o" and h % 4:
            h = (h >> 3) % 2 + 1000
        return ("o", h)

    def word(self, kd, h, key):
        """a machine word"""
        if kd not in WIDTH and kd not in "ui" and kd[0] != "s":
            return None
        if h in self.over and kd[0] != "s":
            return self.over[h]
        n = key[1][0] if key[0] == "fn" else self.names.get(key[1]) if key[0] == "mg" else key[2] if key[0] == "rf" else None
        if n not in BOUND and kd not in WIDTH:
            return None
        lo, hi = SAMPLE.get(n) or BOUND.get(n) or (0, (1 << WIDTH[kd]) - 1)
        if n == "netbyte" and kd == "y" and isinstance(key[1][1][2], int) and key[1][1][2] < 8:
            # the first bytes of a message may be a length
            m = self.key("netmode", key[1][1][:2])
            if m % 8 < 7:
                v = m // 8 % 5 if m % 8 < 5 else LENGTHS[m // 8 % len(LENGTHS)]
                return v >> 8 * key[1][1][2] & 255
        if kd[0] == "s":
            return OSeq(h, lo + (h >> 9) % (hi - lo + 1), kd[1:])
        if kd == "c":
            return CHARS[h % len(CHARS)]
        if kd == "y" and key[0] == "idx" and n is None:
            # strings of bytes that are nearly all the same
            m = _h(self.seed, "style", key[1]) % 8
            if m < 3 and h % 16:
                return (255, 0, 255)[m]
        r = hi - lo + 1
        g = _h(h, "word")
        x = g | _h(g, "w2") << 64 | _h(g, "w3") << 128
        if r <= 4096:
            return lo + x % r
        m = h % 8
        if m == 0:
            return lo + x % 3
        if m == 1:
            return hi - x % 3
        if m == 2:
            c = self.corners
            return lo + (c[x % len(c)] - lo) % r if c else lo + x % r
        if m == 3:
            # few bits set
            return lo + ((1 << x % 128) | (1 << (x >> 20) % 128)) % r
        return lo + x % r

    corners = ()
    modulo = 0

    def kdlike(self, z):
        return "f"

    def old(self, base, k, z):
        for kd in ("f", "u", "b", "o", "r", "x", "sf", "so", "sx", "su", "sr", "ssf", "sso", "mf", "mo", "mr", "mu", "i", "w", "q", "v", "y", "sw", "sy"):
            v = key_of(self.val(kd, "mg", base, k), self)
            if v == z or self.modulo and isinstance(z, int) and isinstance(v, int) and (v - z) % self.modulo == 0:
                return v
        return ("old",)

    def oldf(self, base, f, z):
        for kd in ("f", "u", "b", "o", "r", "x", "sf", "so", "sx", "su", "sr", "ssf", "sso", "mf", "mo", "mr", "mu", "i"):
            v = key_of(self.val(kd, "rf", base, f), self)
            if v == z:
                return v
        return ("old",)


def key_of(v, M):
    if isinstance(v, int):
        return v % PRIME
    if isinstance(v, OSeq):
        return ("T", tuple(key_of(x, M) for x in force(v, M)))
    if isinstance(v, tuple):
        return tuple(key_of(x, M) for x in v)
    if isinstance(v, FMap):
        return ("M", v.base, tuple(sorted(((k, key_of(x, M)) for k, x in v.d.items()), key=repr)))
    if isinstance(v, FRec):
        return ("R", v.base, tuple(sorted((k, key_of(x, M)) for k, x in v.d.items())))
    return v


M_expand = key_of


def sgn(v):
    v %= PRIME
    return v - PRIME if v > PRIME // 2 else v


def ev(t, M, env):
    """value of t; env maps var/bv terms to values.  Raises Poison."""
    M.budget -= 1
    if M.budget < 0:
        raise Poison("budget")
    op, a = t.op, t.a
    if op == "int":
        return a[0]
    if op in ("var", "bv"):
        if t in env:
            return env[t]
        return M.val(t.a[1], "var", t.uid)
    if not t.fv:
        r = M.memo.get(t)
        if r is not None:
            if isinstance(r, Poison):
                raise r
            return r
        try:
            r = _ev(t, M, env)
        except Poison as p:
            M.memo[t] = p
            raise
        M.memo[t] = r
        return r
    return _ev(t, M, env)


def _num(v):
    if isinstance(v, int):
        return v
    raise Poison("num")


def _small(v):
    v = sgn(_num(v))
    if v > (MAXN[0] or (400 if BITS[0] else 64)):
        raise Poison("range")
    return v


def slen(v):
    if isinstance(v, tuple) and v and v[0] == "T":
        return len(v[1])
    if isinstance(v, OSeq):
        return v.n
    raise Poison("len")


def sget(v, i, kd, M):
    i = sgn(_num(i))
    if isinstance(v, tuple) and v and v[0] == "T":
        if 0 <= i < len(v[1]):
            return v[1][i]
        raise Poison("oob")
    if isinstance(v, OSeq):
        if not 0 <= i < 1 << 20:
            raise Poison("oob")
        return M.val(kd, "idx", v.h, i)
    raise Poison("seq")


def force(v, M):
    if isinstance(v, OSeq):
        return [M.val(v.ek, "idx", v.h, i) for i in range(v.n)]
    if isinstance(v, tuple) and v and v[0] == "T":
        return list(v[1])
    raise Poison("seq")


CHARS = [ord(c) for c in "0123456789abcdefABCDEF0011223344556677889gGzZ+/=/:@[`{ xX-."]


class Lazy(object):
    pass


def locate(x, M, env):
    """the choice of interpretation M that decides atom x, or None"""
    try:
        if x.op == "len":
            v = ev(x.a[0], M, env)
            return v.h if isinstance(v, OSeq) else None
        if x.op == "mg":
            b = ev(x.a[0], M, env)
            k = key_of(ev(x.a[1], M, env), M)
            return M.key("mg", b.base, k) if k not in b.d else None
        if x.op == "rf":
            b = ev(x.a[0], M, env)
            if isinstance(b, FRec):
                return M.key("rf", b.base, x.a[1]) if x.a[1] not in b.d else None
            return M.key("rf", b[1], x.a[1])
        if x.op == "idx":
            s = ev(x.a[0], M, env)
            return M.key("idx", s.h, sgn(ev(x.a[1], M, env))) if isinstance(s, OSeq) else None
        if x.op == "fn":
            if x.a[0] == "recv":
                return M.key("recv", M.recv.recvs[M.recv.atomkey(x, env)])
            if x.a[0] in ("rnd", "prgbyte"):
                return M.key(*drawkey(x, M, env))
            args = [key_of(ev(y, M, env), M) if isinstance(y, T) else y for y in x.a[1:-1]]
            if any(isinstance(y, tuple) and any(isinstance(z, T) for z in y) for y in args):
                return None
            return M.key("fn", (x.a[0], tuple(args)))
    except (Poison, KeyError, AttributeError, TypeError, IndexError):
        pass
    return None


def drawkey(t, M, env):
    """a value of a generator, by its place in the generator's output"""
    if t.a[0] == "rnd":
        return ("rnd",) + tuple(M.recv.drawn(t, env))
    p, n = M.recv.drawn(t.a[1], env)
    i = sgn(ev(t.a[2], M, env))
    return ("prgbyte", p, n + i // 16, i % 16)


def _settle(t, M, env):
    """make an equality hold through a choice that was not made yet"""
    if _h(M.seed, "agree", t.uid, tuple(sorted((k.uid, v) for k, v in env.items() if isinstance(v, int)))) % 16 >= M.agree:
        return
    L = t.a[0]
    items = L.a[0] if L.op == "poly" else ((((L, 1),), 1),)
    for m, c in items:
        if len(m) != 1 or m[0][1] != 1 or abs(c) != 1:
            continue
        x = m[0][0]
        if x.op not in ("mg", "rf", "idx", "fn") or isboolatom(x) or kind(x) not in _NK:
            continue
        h = locate(x, M, env)
        if h is None or h in M.read or h in M.over:
            continue
        rest = 0
        try:
            for m2, c2 in items:
                if m2 is m:
                    continue
                v = c2
                for y, e in m2:
                    v *= _num(ev(y, M, env)) ** e if e > 0 else pow(_num(ev(y, M, env)) % PRIME, PRIME - 1 + e, PRIME)
                rest += v
        except Poison:
            continue
        if h in M.read:
            continue
        v = -c * rest
        if kind(x) == "f":
            v %= PRIME
        else:
            v = sgn(v)
            if v < 0 or v > 24 and kind(x) in "ui" or kind(x) in WIDTH and v >> WIDTH[kind(x)]:
                continue
        M.read.add(h)
        M.settled += 1
        if M.settled != M.skip:
            M.over[h] = v
        return


def _ev(t, M, env):
    op, a = t.op, t.a
    if op == "unk":
        raise Poison("unk")
    if op == "poly":
        tot = 0
        bad = {}
        for m, c in a[0]:
            v = c
            # boolean guards first: a false guard kills the monomial
            ms = sorted(m, key=lambda xe: 0 if isboolatom(xe[0]) else 1)
            zero = False
            pend = []
            for x, e in ms:
                try:
                    w = _num(ev(x, M, env))
                except Poison as p:
                    pend.append((x, e))
                    err = p
                    continue
                if e < 0:
                    w = pow(w % PRIME, PRIME - 2, PRIME)
                    e = -e
                if w % PRIME == 0:
                    zero = True
                    break
                v *= w ** e
            if zero:
                continue
            if pend:
                # values that do not exist may be multiplied by zero
                pend = tuple(pend)
                w, _ = bad.get(pend, (0, None))
                bad[pend] = (w + v, err)
                continue
            tot += v
        for w, err in bad.values():
            if w % PRIME:
                raise err
        return tot
    if op == "pos":
        r = 1 if sgn(_num(ev(a[0], M, env))) > 0 else 0
        M.cov.add((t.uid, r))
        return r
    if op == "eq0":
        if M.agree:
            _settle(t, M, env)
        r = 1 if _num(ev(a[0], M, env)) % PRIME == 0 else 0
        M.cov.add((t.uid, r))
        return r
    if op == "eqo":
        r = 1 if key_of(ev(a[0], M, env), M) == key_of(ev(a[1], M, env), M) else 0
        M.cov.add((t.uid, r))
        return r
    if op == "rem":
        return sgn(_num(ev(a[0], M, env))) % a[1]
    if op == "modinv":
        x = sgn(_num(ev(a[0], M, env)))
        try:
            return pow(x, -1, a[1])
        except ValueError:
            raise Poison("div0")
    if op == "inv":
        return pow(_num(ev(a[0], M, env)) % PRIME, PRIME - 2, PRIME)
    if op == "pow":
        return pow(_num(ev(a[0], M, env)) % PRIME, max(0, _small(ev(a[1], M, env))), PRIME)
    if op == "div":
        x, y = sgn(_num(ev(a[0], M, env))), sgn(_num(ev(a[1], M, env)))
        if y == 0:
            raise Poison("div0")
        return x // y
    if op == "bop":
        x, y = _num(ev(a[1], M, env)), _num(ev(a[2], M, env))
        try:
            if a[0] == "&":
                return x & y
            if a[0] == "|":
                return x | y
            if a[0] == "^":
                return x ^ y
            if a[0] == "<<" and 0 <= y < 300:
                return x << y
            if a[0] == ">>" and y >= 0:
                return x >> y
        except Exception:
            pass
        raise Poison("bop")
    if op == "ite":
        return ev(a[1] if _num(ev(a[0], M, env)) % PRIME else a[2], M, env)
    if op in ("sum", "prod"):
        n = _small(ev(a[1], M, env))
        e2 = dict(env)
        r = 0 if op == "sum" else 1
        for i in range(max(0, n)):
            e2[a[0][0]] = i
            v = _num(ev(a[2], M, e2))
            r = r + v if op == "sum" else r * v % PRIME
        return r
    if op == "first":
        n = (400 if BITS[0] else 40) if a[1] is INF else _small(ev(a[1], M, env))
        e2 = dict(env)
        for i in range(max(0, n)):
            e2[a[0][0]] = i
            if _num(ev(a[2], M, e2)) % PRIME:
                return i
        if a[1] is INF:
            raise Poison("inf")
        return max(0, n)
    if op == "empty":
        return ("T", ())
    if op == "tab":
        n = _small(ev(a[1], M, env))
        e2 = dict(env)
        out = []
        for i in range(max(0, n)):
            e2[a[0][0]] = i
            out.append(ev(a[2], M, e2))
        return ("T", tuple(out))
    if op == "filt":
        n = _small(ev(a[1], M, env))
        e2 = dict(env)
        out = []
        for i in range(max(0, n)):
            e2[a[0][0]] = i
            if _num(ev(a[2], M, e2)) % PRIME:
                out.append(ev(a[3], M, e2))
        return ("T", tuple(out))
    if op == "flat":
        n = _small(ev(a[1], M, env))
        e2 = dict(env)
        out = []
        for i in range(max(0, n)):
            e2[a[0][0]] = i
            out.extend(force(ev(a[2], M, e2), M))
        return ("T", tuple(out))
    if op == "cat":
        out = []
        vs = [ev(x, M, env) for x in a]
        for v in vs:
            out.extend(force(v, M))
        return ("T", tuple(out))
    if op == "len":
        return slen(ev(a[0], M, env))
    if op == "idx":
        return sget(ev(a[0], M, env), ev(a[1], M, env), a[2], M)
    if op == "upd":
        s = ev(a[0], M, env)
        i = _small(ev(a[1], M, env))
        l = force(s, M)
        if not 0 <= i < len(l):
            # the element that keeps its value need not exist
            x = a[2]
            while x.op == "ite":
                x = x.a[1] if _num(ev(x.a[0], M, env)) % PRIME else x.a[2]
            if x.op == "idx" and x.a[0] is a[0] and x.a[1] is a[1]:
                return s
            raise Poison("oob")
        v = ev(a[2], M, env)
        l[i] = v
        return ("T", tuple(l))
    if op == "updq":
        s = ev(a[1], M, env)
        n = _small(ev(a[2], M, env))
        l = force(s, M)
        e2 = dict(env)
        for q in range(max(0, n)):
            e2[a[0][0]] = q
            if _num(ev(a[3], M, e2)) % PRIME:
                i = _small(ev(a[4], M, e2))
                if not 0 <= i < len(l):
                    raise Poison("oob")
                l[i] = ev(a[5], M, e2)
        return ("T", tuple(l))
    if op == "drop":
        s = ev(a[0], M, env)
        n = _small(ev(a[1], M, env))
        l = force(s, M)
        if n < 0 or n > len(l):
            raise Poison("oob")
        return ("T", tuple(l[n:]))
    if op == "take":
        s = ev(a[0], M, env)
        n = _small(ev(a[1], M, env))
        l = force(s, M)
        if n < 0 or n > len(l):
            raise Poison("oob")
        return ("T", tuple(l[:n]))
    if op == "rec":
        return FRec(a[0], {f: ev(v, M, env) for f, v in a[1]})
    if op == "with":
        b = ev(a[0], M, env)
        if not isinstance(b, FRec):
            raise Poison("rec")
        d = dict(b.d)
        for f, v in a[1]:
            d[f] = ev(v, M, env)
        return FRec(b.base, d)
    if op == "rf":
        b = ev(a[0], M, env)
        if isinstance(b, FRec):
            if a[1] in b.d:
                return b.d[a[1]]
            return M.val(a[2], "rf", b.base, a[1])
        if isinstance(b, tuple) and b and b[0] == "o":
            return M.val(a[2], "rf", b[1], a[1])
        raise Poison("rf")
    if op == "mempty":
        return FMap(0, {})
    if op == "mset":
        b = ev(a[0], M, env)
        if not isinstance(b, FMap):
            raise Poison("map")
        d = dict(b.d)
        d[key_of(ev(a[1], M, env), M)] = ev(a[2], M, env)
        return FMap(b.base, d)
    if op == "msetq":
        b = ev(a[1], M, env)
        if not isinstance(b, FMap):
            raise Poison("map")
        n = _small(ev(a[2], M, env))
        d = dict(b.d)
        e2 = dict(env)
        for q in range(max(0, n)):
            e2[a[0][0]] = q
            if _num(ev(a[3], M, e2)) % PRIME:
                d[key_of(ev(a[4], M, e2), M)] = ev(a[5], M, e2)
        return FMap(b.base, d)
    if op == "mg":
        b = ev(a[0], M, env)
        k = key_of(ev(a[1], M, env), M)
        if not isinstance(b, FMap):
            raise Poison("map")
        if k in b.d:
            return b.d[k]
        return M.val(a[2], "mg", b.base, k)
    if op == "loopv":
        sysm = a[0]
        n = _small(ev(a[2], M, env))
        bvs = sysm.a[0]
        if not sysm.fv and n < 1000:
            # states already reached
            st = M.memo.get((sysm, "st"))
            if st is None:
                st = M.memo[(sysm, "st")] = [[ev(x, M, env) for x in sysm.a[1]]]
            while len(st) <= n:
                e2 = {bvs[0]: len(st) - 1}
                for b, v in zip(bvs[1:], st[-1]):
                    e2[b] = v
                st.append([ev(s, M, e2) for s in sysm.a[2]])
            return st[max(0, n)][a[1]]
        vals = [ev(x, M, env) for x in sysm.a[1]]
        for q in range(max(0, n)):
            e2 = dict(env)
            e2[bvs[0]] = q
            for b, v in zip(bvs[1:], vals):
                e2[b] = v
            vals = [ev(s, M, e2) for s in sysm.a[2]]
        return vals[a[1]]
    if op == "fn":
        if t in M.fixed:
            return M.fixed[t]
        if a[0] in M.unknown:
            raise Poison("extern " + a[0])
        if a[0] == "trunc" and a[2] < 64:
            x = sgn(_num(ev(a[1], M, env)))
            return (x + (1 << a[2] - 1)) % (1 << a[2]) - (1 << a[2] - 1)
        if a[0] == "mhas":
            m, k = ev(a[1], M, env), key_of(ev(a[2], M, env), M)
            if not isinstance(m, FMap):
                raise Poison("map")
            if k not in m.d:
                return M.val("b", "mhas", m.base, k) if m.base else 0
            if not isinstance(m.d[k], (FMap, FRec, OSeq)) and m.d[k] in ([0] if not m.base else [M.val(z, "mg", m.base, k) for z in "ufo"]):
                # maybe not written
                raise Poison("map")
            return 1
        if a[0] == "recv" and M.recv is not None:
            return M.recv.recvval(t, env)
        if a[0] in ("rnd", "prgbyte") and M.recv is not None:
            return M.val(a[-1], *drawkey(t, M, env))
        args = [(key_of(ev(x, M, env), M) if isinstance(x, T) else
                 (tuple(key_of(ev(y, M, env), M) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x))
                for x in a[1:-1]]
        key = (a[0], tuple(args))
        f = M.fixed.get(a[0])
        if f is not None:
            return f(*args) if callable(f) else f
        return M.val(a[-1], "fn", key)
    if op == "new":
        args = tuple((key_of(ev(y, M, env), M) if isinstance(y, T) else y) for y in _flatt(a[1:]))
        h = _h(M.seed, "new", a[0], args)
        M.news[h % PRIME] = a[0]
        return ("o", h)
    if op == "dig":
        return ("dig",) + tuple((k, key_of(ev(v, M, env), M)) for k, v in a[0])
    if op == "null":
        return ("o", 0)
    if op == "str":
        return ("o", "str" + a[0])
    if op in ("it", "ptr", "clo"):
        return ("o", _h(op, tuple((key_of(ev(y, M, env), M) if isinstance(y, T) else str(y)) for y in _flatt(a))))
    raise Poison(op)


def _flatt(x):
    for y in x:
        if isinstance(y, tuple):
            for z in _flatt(y):
                yield z
        else:
            yield y

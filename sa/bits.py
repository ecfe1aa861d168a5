"""Bit-precise obligations: representations of ring elements, hashing, the
pseudorandom generator, byte-level serialisation.

Unsigned results are reduced to the width of their type, bytes in memory are
sequences, memcpy and reinterpreting loads are little-endian.
"""
import terms as TM
from terms import *
from sym import Prim, LV, Ev, strip_ty, WORDSZ, isarray
import sym
from tphooks import h_assume

M61 = (1 << 61) - 1
M127 = (1 << 127) - 1


def byte(v, j):
    return TM.rem(mk_div(v, I(1 << 8 * j)), 256)


def size_of(M, ty):
    ty = strip_ty(ty).replace("const ", "")
    while ty.endswith("*"):
        ty = strip_ty(ty[:-1])
    return WORDSZ.get(ty) or {"int": 4, "long": 8, "char": 1, "short": 2, "unsigned short": 2}.get(ty)


def strip_casts(a):
    while a.get("k") == "cast" and a.get("ck") in ("BitCast", "NoOp", "ArrayToPointerDecay", "LValueToRValue"):
        if a["ck"] == "ArrayToPointerDecay":
            break
        a = a["e"]
    return a


def pointer(M, st, a, fr):
    a = strip_casts(a)
    if a.get("k") == "cast" and a.get("ck") == "ArrayToPointerDecay" and isarray(a["e"]):
        a = a["e"]
    if isarray(a):
        v = M.ev(st, a, fr)
        if isinstance(v, LV):
            return mk("it", M.resolve(st, v).tup(), ZERO)
        return v
    return M.rv(st, a, fr)


def h_memcpy(M, st, e, fn, fr, disc):
    d, s = [pointer(M, st, a, fr) for a in e["args"][:2]]
    n = M.rv(st, e["args"][2], fr)
    V = mk("fn", "void", "x")

    def word(v):
        """scalar object pointed to"""
        if v.op != "ptr":
            return None
        lv = LV(*v.a[0])
        x = M.read(st, lv, "q")
        return (lv, x) if isnum(x) else None
    if n.op == "int" and s.op == "ptr" and d.op == "it" and word(s):
        lv, x = word(s)
        out = LV(*d.a[0])
        for j in range(n.a[0]):
            M.write(st, out.sub(("i", add(d.a[1], I(j)), "y")), byte(x, j))
        return V
    if n.op == "int" and d.op == "ptr" and s.op == "it" and word(d):
        lv, x = word(d)
        new = M.loadbytes(st, s, n.a[0])
        k = 1 << 8 * n.a[0]
        hi = rng(x)[1]
        if hi is None or hi >= k:
            new = add(new, scale(mk_div(x, I(k)), k))
        M.write(st, lv, new)
        return V
    if d.op == "it" and s.op == "it":
        return M._copy(st, s, mk("it", s.a[0], add(s.a[1], n)), d, None, dict(e, args=[{"ty": "unsigned char *"}] + e["args"][1:])) and V
    raise sym.Unsupported("memcpy")


def h_malloc(M, st, e, fn, fr, disc):
    n = M.rv(st, e["args"][0], fr)
    lv = M.temp(st, mk_tab(n, fresh(), mk("fn", "undef", "y")))
    return mk("it", lv.tup(), ZERO)


def h_nop(M, st, e, fn, fr, disc):
    for a in e["args"]:
        M.ev(st, a, fr)
    return mk("fn", "void", "x")


def h_load128(M, st, e, fn, fr, disc):
    v = pointer(M, st, e["args"][0], fr)
    if v.op == "ptr":
        return M.read(st, LV(*v.a[0]), "x")
    if v.op == "it":
        lv = LV(*v.a[0])
        s = M.read(st, lv, "x")
        if kind(s) in ("sx", "so"):
            return get(s, v.a[1], "x")
        return mk("fn", "load128", *([get(M.read(st, lv, "sy"), add(v.a[1], I(j)), "y") for j in range(16)] + ["x"]))
    raise sym.Unsupported("load128")


def h_store128(M, st, e, fn, fr, disc):
    d = pointer(M, st, e["args"][0], fr)
    v = M.rv(st, e["args"][1], fr)
    if d.op != "it":
        raise sym.Unsupported("store128")
    out = LV(*d.a[0])
    for j in range(16):
        M.write(st, out.sub(("i", add(d.a[1], I(j)), "y")), mk("fn", "byte128", v, I(j), "y"))
    return mk("fn", "void", "x")


def h_intrin(M, st, e, fn, fr, disc):
    vs = [M.rv(st, a, fr) for a in e["args"]]
    if fn["qn"] == "_mm_xor_si128":
        vs.sort(key=lambda t: t.uid)
    return mk("fn", fn["qn"], *(vs + ["x"]))


def h_prgnext(M, st, e, fn, fr, disc):
    """bytes of a generator (the other overloads are built on this one)"""
    if len(e["args"]) != 2 or "vector" in e["args"][0].get("ty", ""):
        return None
    o = M.ev(st, e["obj"], fr)
    p = M.prgname(st, M.deref(st, o) if e["oty"].endswith("*") else M.resolve(st, o) if isinstance(o, LV) else LV(("h", o)))
    d = pointer(M, st, e["args"][0], fr)
    n = M.rv(st, e["args"][1], fr)
    k = M.newid(st, "prgbytes", (p,))
    at = mk("fn", "rnd", "prg:" + str(p), k, *(list(st.lv) + ["x"]))
    st.ev.append(Ev("draw", TRUE, (p, at, n), loc=e.get("l")))
    if d.op != "it":
        raise sym.Unsupported("Next")
    out = LV(*d.a[0])
    M._algo(st, n, lambda x, i: M.write(x, out.sub(("i", add(d.a[1], i), "y")), mk("fn", "prgbyte", at, i, "y")))
    return mk("fn", "void", "x")


def chan_of(M, st, e, fr):
    o = M.ev(st, e["obj"], fr)
    lv = M.deref(st, o) if e["oty"].endswith("*") else (M.resolve(st, o) if isinstance(o, LV) else LV(("h", o)))
    if lv.base[0] == "h" and not lv.path:
        return lv.base[1]
    return mk("fn", "chan", "%s%s" % (lv.base, lv.path), "o")


def word_of(M, st, lv, e):
    """the only member of a one-word class, else the object itself"""
    a = strip_casts(e)
    ty = strip_ty(a.get("ty", "")).replace("const ", "")
    while ty.endswith("*"):
        ty = strip_ty(ty[:-1])
    r = M.p.recs.get(ty)
    if r and len(r["fields"]) == 1:
        f = r["fields"][0]
        return lv.sub(("f", r["ty"] + "::" + f["n"], M.tk(f["ty"])))
    return lv


def bytes_at(M, st, p, n, e):
    """the n bytes at p, as a sequence"""
    w = size_of(M, strip_casts(e).get("ty", "")) or 1
    if p.op == "it" and w > 1:
        # whole words
        k = fresh()
        s = M.read(st, LV(*p.a[0]), "sq")
        return mk_tab(mk_div(n, I(w)), k, get(s, add(p.a[1], k), "q"))
    if p.op == "it":
        k = fresh()
        s = M.read(st, LV(*p.a[0]), "sy")
        return mk_tab(n, k, get(s, add(p.a[1], k), "y"))
    if (p.op == "ptr" or kind(p) == "o") and n.op == "int":
        x = M.read(st, word_of(M, st, LV(*p.a[0]) if p.op == "ptr" else LV(("h", p)), e), "q")
        if isnum(x):
            k = fresh()
            return mk_tab(n, k, TM.rem(mk_div(x, mk("pow2", scale(k, 8))), 256)) if n.a[0] > 16 else seqof([byte(x, j) for j in range(n.a[0])])
    raise sym.Unsupported("bytes sent %s %s" % (p, n))


def seqof(vs):
    k = fresh()
    t = vs[-1] if vs else ZERO
    for j in range(len(vs) - 2, -1, -1):
        t = ite(eq0(sub(k, I(j))), vs[j], t)
    return mk_tab(I(len(vs)), k, t)


def h_chsend(M, st, e, fn, fr, disc):
    """raw bytes handed to the channel"""
    if len(e["args"]) != 2:
        return None
    c = chan_of(M, st, e, fr)
    p = pointer(M, st, e["args"][0], fr)
    n = M.rv(st, e["args"][1], fr)
    st.ev.append(Ev("call", TRUE, ("Send", c, n, bytes_at(M, st, p, n, e["args"][0])), loc=e.get("l")))
    return mk("fn", "void", "x")


def h_chrecv(M, st, e, fn, fr, disc):
    """raw bytes taken from the channel"""
    if len(e["args"]) != 2:
        return None
    c = chan_of(M, st, e, fr)
    d = pointer(M, st, e["args"][0], fr)
    n = M.rv(st, e["args"][1], fr)
    k = M.newid(st, "chrecv", (c,))
    st.ev.append(Ev("call", TRUE, ("Recv", c, n), loc=e.get("l")))

    def b(i):
        return mk("fn", "netbyte", c, I(k), i, *(list(st.lv) + ["y"]))
    if (d.op == "ptr" or kind(d) == "o") and n.op == "int":
        v = ZERO
        for j in range(n.a[0]):
            v = add(v, scale(b(I(j)), 1 << 8 * j))
        M.write(st, word_of(M, st, LV(*d.a[0]) if d.op == "ptr" else LV(("h", d)), e["args"][0]), v)
    elif d.op == "it":
        out = LV(*d.a[0])
        w = size_of(M, strip_casts(e["args"][0]).get("ty", "")) or 1
        if w > 1:
            M._algo(st, mk_div(n, I(w)), lambda x, i: M.write(x, out.sub(("i", add(d.a[1], i), "q")), add(*[
                scale(b(add(scale(i, w), I(j))), 1 << 8 * j) for j in range(w)])))
            return mk("fn", "void", "x")
        M._algo(st, n, lambda x, i: M.write(x, out.sub(("i", add(d.a[1], i), "y")), b(i)))
    else:
        raise sym.Unsupported("Recv %s %s" % (d, n))
    return mk("fn", "void", "x")


def world(M, st):
    """number of system calls made so far"""
    lv = LV(("h", mk("fn", "world", "o")), (("f", "world::calls", "u"),))
    g = M.read(st, lv, "u")
    M.write(st, lv, add(g, ONE))
    return g


def h_write(M, st, e, fn, fr, disc):
    """write(2): takes at most n of the bytes, or fails"""
    s = M.rv(st, e["args"][0], fr)
    p = pointer(M, st, e["args"][1], fr)
    n = M.rv(st, e["args"][2], fr)
    g = world(M, st)
    st.ev.append(Ev("call", TRUE, ("write", s, n, bytes_at(M, st, p, n, e["args"][1])), loc=e.get("l")))
    return io_result(g, n)


def io_result(g, n):
    raw = mk("fn", "ioret", g, "i")
    return ite(pos(sub(raw, n)), n, raw)


def h_read(M, st, e, fn, fr, disc):
    """read(2): delivers at most n bytes, none at the end of the stream, or fails"""
    s = M.rv(st, e["args"][0], fr)
    d = pointer(M, st, e["args"][1], fr)
    n = M.rv(st, e["args"][2], fr)
    g = world(M, st)
    st.ev.append(Ev("call", TRUE, ("read", s, n), loc=e.get("l")))
    r = io_result(g, n)
    if d.op != "it":
        raise sym.Unsupported("read %s" % (d,))
    out = LV(*d.a[0])
    M._algo(st, ite(pos(r), r, ZERO), lambda x, i: M.write(x, out.sub(("i", add(d.a[1], i), "y")), mk("fn", "iobyte", g, i, "y")))
    return r


def h_deque(M, st, e, fn, fr, disc):
    """the monitor, decided on its own: taking from an empty queue waits, so
    the caller continues only with a queue that is not empty"""
    name = fn["qn"].split("::")[-1]
    if name not in ("Pop", "PopFront", "Peek", "PushBack", "Size"):
        return None
    o = M.ev(st, e["obj"], fr)
    lv = M.deref(st, o) if e["oty"].endswith("*") else (M.resolve(st, o) if isinstance(o, LV) else LV(("h", o)))
    r = M.p.recs.get(fn["cls"])
    f = [x for x in r["fields"] if x["n"] == "mDeck"][0] if r else None
    if f is None:
        raise sym.Unsupported("queue")
    kd = M.tk(f["ty"])
    lv = lv.sub(("f", r["ty"] + "::" + f["n"], kd))
    q = M.read(st, lv, kd)
    if name == "Size":
        return length(q)
    if name == "PushBack":
        M.write(st, lv, cat(q, mk_tab(ONE, fresh(), M.rv(st, e["args"][0], fr))))
        return mk("fn", "void", "x")
    st.ev.append(Ev("assume", TRUE, (pos(length(q)),), loc=e.get("l")))
    v = get(q, ZERO, kd[1:])
    if name != "Peek":
        M.write(st, lv, drop(q, ONE))
    return mk("fn", "void", "x") if name == "PopFront" else v


NET = {"scl::details::SharedDeque<": h_deque, "scl::details::WriteToSocket": h_write, "scl::details::ReadFromSocket": h_read}


def h_mulmod(M, st, e, fn, fr, disc):
    a, b, m = [M.rv(st, x, fr) for x in e["args"]]
    return TM.rem(mul(a, b), m.a[0])


def h_modinv(M, st, e, fn, fr, disc):
    a, m = [M.rv(st, x, fr) for x in e["args"]]
    return mk("modinv", a, m.a[0])


def h_modinv2k(M, st, e, fn, fr, disc):
    a, k = [M.rv(st, x, fr) for x in e["args"]]
    return mk("modinv", a, 1 << k.a[0])


def h_bits(M, st, e, fn, fr, disc):
    """spec_bits(v, from, count)"""
    v, f, n = [M.rv(st, x, fr) for x in e["args"]]
    return TM.rem(mk_div(v, I(1 << f.a[0])), 1 << n.a[0])


def h_byte128(M, st, e, fn, fr, disc):
    v, j = [M.rv(st, a, fr) for a in e["args"]]
    return mk("fn", "byte128", v, j, "y")


HOOKS = {
    "spec_byte128": h_byte128, "spec::spec_byte128": h_byte128, "spec::spec_block": h_load128,
    "scl::Channel::Send": h_chsend, "scl::Channel::Recv": h_chrecv,
    "spec_assume": h_assume, "spec_mulmod": h_mulmod, "spec_modinv": h_modinv, "spec_inv2k": h_modinv2k, "spec_bits": h_bits,
    "memcpy": h_memcpy, "std::memcpy": h_memcpy, "malloc": h_malloc, "free": h_nop,
    "_mm_loadu_si128": h_load128, "_mm_load_si128": h_load128,
    "_mm_storeu_si128": h_store128, "_mm_store_si128": h_store128,
    "_mm_": h_intrin, "__builtin_ia32_": h_intrin,
}


def h_b64(M, st, e, fn, fr, disc):
    """value of a base64 digit, decided on its own: throws unless it is one"""
    c = M.rv(st, e["args"][0], fr)
    ok = and_(TM.pos(add(mk("fn", "b64ok", c, "y"), I(-30))), not_(TM.eq0(add(c, I(-ord("="))))))
    if st.live is not FALSE:
        st.ev.append(Ev("throw", and_(st.live, not_(ok)), ("std::invalid_argument",), loc=e.get("l")))
        st.live = and_(st.live, ok)
    return TM.rem(mk("fn", "b64", c, "y"), 64)


def h_keccak(M, st, e, fn, fr, disc):
    """the permutation, decided on its own"""
    d = pointer(M, st, e["args"][0], fr)
    if d.op != "it" or d.a[1] is not ZERO:
        raise sym.Unsupported("Keccakf")
    lv = LV(*d.a[0])
    s = M.read(st, lv, "sw")
    k = fresh()
    M.write(st, lv, mk_tab(I(25), k, mk("fn", "keccakf", s, k, "w")))
    return mk("fn", "void", "x")


def prim(next_opaque=True, keccak=True, b64=False):
    h = dict(HOOKS)
    h.update(NET)
    if keccak:
        h["scl::details::Keccakf"] = h_keccak
    if b64:
        h["scl::details::FromBase64"] = h_b64
    if next_opaque:
        h["scl::PRG::Next"] = h_prgnext
        h["ctor:scl::PRG"] = True
    return Prim((), h, (), ())


CORNERS = [0, 1, 2, M61 - 1, M61, M61 + 1, (1 << 61) + 1, (1 << 62), (1 << 63), (1 << 64) - 1, 1 << 64, M127 - 1, M127,
           (1 << 127), (1 << 128) - 1, (1 << 64) + 1, 0xffffffff, 1 << 32, (1 << 126), 10, 0x80000000, 3, 5, 7]
Model.corners = CORNERS

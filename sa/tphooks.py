"""Primitives of the protocol-level analyses (src/tp)."""
import terms as TM
from terms import *
from sym import Prim, LV, Ev, strip_ty


def h_party(M, st, e, fn, fr, disc):
    o = M.ev(st, e["obj"], fr)
    net = M.deref(st, o) if e["oty"].endswith("*") else (M.resolve(st, o) if isinstance(o, LV) else LV(("h", o)))
    i = M.rv(st, e["args"][0], fr)
    n = net.base[1] if net.base[0] == "h" and not net.path else M.read(st, net, "o")
    return mk("fn", "peer", n, i, "o")


def peer_of(M, st, e, fr):
    o = M.ev(st, e["obj"], fr)
    lv = M.deref(st, o) if e["oty"].endswith("*") else (M.resolve(st, o) if isinstance(o, LV) else LV(("h", o)))
    if lv.base[0] == "h" and not lv.path:
        return lv.base[1]
    return M.read(st, lv, "o")


def h_send(M, st, e, fn, fr, disc):
    if len(e["args"]) != 1:
        return None
    p = peer_of(M, st, e, fr)
    v = M.rv(st, e["args"][0], fr)
    st.ev.append(Ev("send", TRUE, (p, v, strip_ty(e["args"][0].get("ty", "?"))), loc=e.get("l")))
    return mk("fn", "void", "x")


def h_recv(M, st, e, fn, fr, disc):
    if len(e["args"]) != 1:
        return None
    p = peer_of(M, st, e, fr)
    lv = M.lval(st, e["args"][0], fr)
    ty = strip_ty(e["args"][0].get("ty", "?"))
    n = M.newid(st, "recv", (p,))
    # loop variables the peer does not already determine
    lvs = []
    for v in st.lv:
        idx = p.a[2] if p.op == "fn" and p.a[0] == "peer" else None
        if idx is not None:
            af = affine(idx, v)
            if af and af[0] in (1, -1):
                continue
        lvs.append(v)
    kd = M.tk(ty)
    v = mk("fn", "recv", p, I(n), *(lvs + [kd]))
    st.ev.append(Ev("recv", TRUE, (p, v, ty), loc=e.get("l")))
    M.write(st, lv, v)
    return mk("fn", "void", "x")


def h_recvtext(M, st, e, fn, fr, disc):
    """a length-prefixed text: one message of the channel"""
    p = M.rv(st, e["args"][0], fr)
    n = M.newid(st, "recv", (p,))
    v = mk("fn", "recv", p, I(n), *(list(st.lv) + [M.tk(e["ty"])]))
    st.ev.append(Ev("recv", TRUE, (p, v, "text"), loc=e.get("l")))
    return v


def h_netsize(M, st, e, fn, fr, disc):
    o = M.ev(st, e["obj"], fr)
    net = M.deref(st, o) if e["oty"].endswith("*") else (M.resolve(st, o) if isinstance(o, LV) else LV(("h", o)))
    n = net.base[1] if net.base[0] == "h" and not net.path else M.read(st, net, "o")
    return mk("fn", "netsize", n, "u")


TP_OPAQUE = ("scl::details::EvPolyFrom", "scl::details::SharesFromEvPoly", "scl::details::SecretFrom",
             "scl::details::SecretsFrom", "scl::details::EvPolynomial<", "scl::details::SecretsFromSharesAndLength",
             "scl::SecretFrom", "scl::EvPolynomial")
def h_assume(M, st, e, fn, fr, disc):
    st.ev.append(Ev("assume", TRUE, (M.cond(st, e["args"][0], fr),), loc=e.get("l")))
    return mk("fn", "void", "x")


TP_HOOKS = {
    "spec_assume": h_assume,
    "ctor:scl::PRG": True,
    "scl::Network::Party": h_party,
    "scl::Network::Size": h_netsize,
    "scl::Channel::Send": h_send,
    "scl::Channel::Recv": h_recv,
}


def h_syscall(M, st, e, fn, fr, disc):
    """a fresh result for every call of one kind"""
    name = fn["qn"].split("::")[-1]
    vs = [M.rv(st, a, fr) for a in e["args"]]
    lv = LV(("h", mk("fn", "world", "o")), (("f", "world::" + name, "u"),))
    g = M.read(st, lv, "u")
    M.write(st, lv, add(g, ONE))
    st.ev.append(Ev("call", TRUE, (name,) + tuple(vs), loc=e.get("l")))
    return mk("fn", "sys:" + name, g, M.tk(e["ty"]) if e.get("ty") else "i")


def h_close(M, st, e, fn, fr, disc):
    st.ev.append(Ev("call", TRUE, ("close", peer_of(M, st, e, fr)), loc=e.get("l")))
    return mk("fn", "void", "x")


def h_join(M, st, e, fn, fr, disc):
    st.ev.append(Ev("call", TRUE, ("join",), loc=e.get("l")))
    return mk("fn", "void", "x")


def h_async(M, st, e, fn, fr, disc):
    return mk("fn", "async", "o")


def h_wait(M, st, e, fn, fr, disc):
    """other threads run: the guarded fields take some other values"""
    if len(e["args"]) == 2:
        pred = e["args"][1]
        again = dict(e, args=e["args"][:1])
        test = {"k": "call", "callee": pred, "args": [], "fn": None, "ty": "bool", "it": "b", "l": e.get("l")}
        M.stmt(st, {"k": "while", "c": {"k": "un", "op": "!", "e": test, "it": "b", "l": e.get("l")},
                    "b": {"k": "expr", "e": again, "l": e.get("l")}, "l": e.get("l")}, fr)
        return mk("fn", "void", "x")
    o = M.resolve(st, M.ev(st, e["obj"], fr))
    own, fk = LV(o.base, o.path[:-1]), o.path[-1][1]
    cls = fk.rsplit("::", 1)[0]
    lv = LV(("h", mk("fn", "world", "o")), (("f", "world::waits", "u"),))
    g = M.read(st, lv, "u")
    M.write(st, lv, add(g, ONE))
    for f in M.p.recs[cls]["fields"]:
        if f["ty"].startswith(("std::mutex", "std::condition_variable")):
            continue
        kd = M.tk(f["ty"])
        k = "%s::%s" % (cls, f["n"])
        M.write(st, own.sub(("f", k, kd)), mk("fn", "waited:" + f["n"], own.base[1] if own.base[0] == "h" and not own.path else M.read(st, own, "o"),
                                                          g, kd))
    return mk("fn", "void", "x")


def h_notify(M, st, e, fn, fr, disc):
    st.ev.append(Ev("call", TRUE, ("notify", M.val(st, M.resolve(st, M.ev(st, e["obj"], fr)), "o")), loc=e.get("l")))
    return mk("fn", "void", "x")


def h_lockop(M, st, e, fn, fr, disc):
    """what is locked when is decided by the lockset analysis (monitor.py)"""
    return mk("fn", "void", "x")


SYS = {"scl::details::" + n: h_syscall for n in ("CreateServerSocket", "AcceptConnection", "ConnectAsClient", "CloseSocket")}
NETHOOKS = {"scl::Channel::Send": h_send, "scl::Channel::Recv": h_recv, "scl::Channel::Close": h_close,
            "std::thread::join": h_join, "std::async": h_async, "std::unique_lock<std::mutex>::": h_lockop, "std::mutex::": h_lockop,
            "std::condition_variable::wait": h_wait, "std::condition_variable::notify_": h_notify}
NETHOOKS.update(SYS)
NETHOOKS.update({"ReceiveHostname": h_recvtext, "spec::ReceiveHostname": h_recvtext})


def h_solve(M, st, e, fn, fr, disc):
    """the linear solver, decided on its own: some answer depending on A and b only"""
    if len(e["args"]) != 3:
        return None
    x = M.lval(st, e["args"][0], fr)
    a, b = [M.val(st, M.resolve(st, v), "o") if isinstance(v, LV) else v for v in [M.ev(st, y, fr) for y in e["args"][1:]]]
    cls = strip_ty(e["args"][0].get("ty", "?"))
    fk = cls + "::mValues"
    kd = M.tk(M.p.recs[cls]["fields"][0]["ty"])
    ok = TM.pos(mk("fn", "solvable", a, b, "u"))
    lv = x.sub(("f", fk, kd))
    old = M.read(st, lv, kd)
    k = fresh()
    new = mk_tab(TM.length(old), k, mk("fn", "solution", a, b, k, kd[1:]))
    M.write(st, lv, ite(ok, new, old))
    return ok


def h_polydiv(M, st, e, fn, fr, disc):
    """division with remainder, decided on its own"""
    o = M.ev(st, e["obj"], fr)
    a = M.val(st, M.resolve(st, o), "o") if isinstance(o, LV) else o
    b = M.rv(st, e["args"][0], fr)
    cls = strip_ty(e["oty"]).replace("const ", "")
    f = M.p.recs[cls]["fields"][0]
    vec = f["ty"]
    g = M.p.recs[vec]["fields"][0]
    # the remainder only matters as zero or not
    z = mk_tab(ONE, fresh(), TM.pos(mk("fn", "remainder", a, b, "u")))
    r = TM.rec(cls, {cls + "::" + f["n"]: TM.rec(vec, {vec + "::" + g["n"]: z})})
    return TM.cat(mk_tab(ONE, fresh(), mk("fn", "quotient", a, b, "o")), mk_tab(ONE, fresh(), r))


def scl_prim(solver=False):
    """library level: only the generator and the bases are primitive"""
    h = {"spec_assume": h_assume, "ctor:scl::PRG": True}
    if solver:
        h["scl::details::SolveLinearSystem"] = h_solve
        h["scl::details::Polynomial<scl::details::FF<61, scl::details::FiniteField<scl::details::NamedField::Mersenne61>>>::Divide"] = h_polydiv
    h.update(NETHOOKS)
    return Prim((), h, (), ())


def tp_prim(bound=(), mut=()):
    return Prim(TP_OPAQUE, TP_HOOKS, bound, mut)


PARTS = ("Correlator", "InputLayer", "MultLayer", "OutputLayer", "InputBatch", "MultBatch", "OutputBatch")


def tp_bound(prog, qn):
    """operations with a contract of their own, as seen from function qn"""
    cls = qn.split("::")[1] if qn.startswith("tp::") else ""
    ops = {q for q in prog.by_qn if q.startswith("tp::") and q.split("::")[1] in PARTS}
    ops = {q for q in ops if not q.split("::")[-1].startswith("Get")}
    mut = {q for q in ops if q.endswith("Layer::Append")}
    B = set()
    if cls in ("Circuit", "DN07"):
        B = ops | {"ctor:tp::InputLayer", "ctor:tp::MultLayer", "ctor:tp::OutputLayer", "ctor:tp::Correlator"}
    if qn.endswith("::FromConfig"):
        B |= {q for q in prog.by_qn if q.startswith("tp::Circuit::") and "::Get" not in q} | {"ctor:tp::Circuit"}
    if "Layer::" in qn:
        B = {q for q in ops if "Batch::" in q and "HasRoom" not in q and not ("Close" in qn and "Append" in q)}
    B.discard(qn)
    return frozenset(B), frozenset(mut)

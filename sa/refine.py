"""Refinement obligations: code function against specification function."""
import multiprocessing as mp
import os
import signal
import time
import bits
import compare
import program
import sym
import terms as TM
import tphooks


def strip(ty):
    return ty.replace("const ", "").replace("&", "").strip()


class Result(object):
    def __init__(self):
        self.status = ""       # PROVED AGREE REFUTED UNDECIDED MISSING
        self.diffs = {}        # observable -> (text, line)
        self.und = []
        self.obs = []          # observables compared
        self.file = ""
        self.line = 0
        self.qn = ""
        self.models = 0
        self.note = ""


FF61 = "scl::details::FF<61, scl::details::FiniteField<scl::details::NamedField::Mersenne61>>"
# library scopes: prefix of a specification name -> (qualified name, class?)
FFN = "scl::details::FiniteField<scl::details::NamedField::Mersenne%d>"
FF127 = "scl::details::FF<127, scl::details::FiniteField<scl::details::NamedField::Mersenne127>>"
MSG = "std::vector<unsigned char, std::allocator<unsigned char>>"
SCOPES = {"DCC": ("scl::DiscoveryServer::CollectIdsAndPorts", True), "DSN": ("scl::DiscoveryServer::SendNetworkConfig", True),
          "DCS": ("scl::DiscoveryClient::SendIdAndPort", True), "DCR": ("scl::DiscoveryClient::ReceiveNetworkConfig", True),
          "DSV": ("scl::DiscoveryServer", True), "DCL": ("scl::DiscoveryClient", True),
          "SD": ("scl::details::SharedDeque<%s, std::allocator<%s>>" % (MSG, MSG), True), "TS": ("scl::ThreadedSenderChannel", True), "CFG": ("scl::NetworkConfig", True), "NET": ("scl::Network", True),
          "IMC": ("scl::InMemoryChannel", True), "TCP": ("scl::TcpChannel", True),
          "VB": ("scl::Vec<%s>" % FF61, True), "MB": ("scl::Mat<%s>" % FF61, True), "CH": ("scl::Channel", True),
          "FA": (FF61, True), "FB": (FF127, True), "ZA": ("scl::Z2k<32>", True), "ZB": ("scl::Z2k<62>", True),
          "ZC": ("scl::Z2k<123>", True),
          "VG": ("scl::Vec<scl::Z2k<44>>", True), "MG": ("scl::Mat<scl::Z2k<44>>", True), "VI": ("scl::Vec<scl::Z2k<1>>", True),
          "MI": ("scl::Mat<scl::Z2k<1>>", True), "VH": ("scl::Vec<%s>" % FF127, True), "MH": ("scl::Mat<%s>" % FF127, True),
          "AL": ("alias", False), "AB": ("alias", False), "ZD": ("scl::Z2k<1>", True), "ZE": ("scl::Z2k<8>", True), "ZF": ("scl::Z2k<44>", True), "ZG": ("scl::Z2k<64>", True),
          "ZH": ("scl::Z2k<90>", True), "ZI": ("scl::Z2k<128>", True), "RING": ("scl::details", False), "STR": ("scl::details", False), "PG": ("scl::PRG", True), "SHA": ("scl::details", False), "HA": ("scl::details::Hash<256>", True), "HB": ("scl::details::Hash<384>", True), "HC": ("scl::details::Hash<512>", True), "F61": (FFN % 61, False), "F127": (FFN % 127, False), "PK": ("scl::details", False), "SH": ("scl::details", False), "SCL": ("scl", False), "LA": ("scl::details", False),
          "EVP": ("scl::details::EvPolynomial<%s>" % FF61, True), "POLY": ("scl::details::Polynomial<%s>" % FF61, True),
          "VEC": ("scl::Vec<%s>" % FF61, True), "MAT": ("scl::Mat<%s>" % FF61, True)}


OPN = {"op_call": "operator()", "op_addeq": "operator+=", "op_subeq": "operator-=", "op_muleq": "operator*=",
       "op_diveq": "operator/=", "op_add": "operator+", "op_sub": "operator-", "op_mul": "operator*", "op_div": "operator/",
       "op_eq": "operator==", "op_ne": "operator!=", "op_idx": "operator[]"}


def opname(m):
    return OPN.get(m, m)


def code_fn(prog, spec):
    """the function a specification function is about"""
    nm = spec["qn"].replace("spec::", "")
    cls, rest = nm.split("__", 1)
    if cls in SCOPES:
        scope, iscls = SCOPES[cls]
        m = rest.split("__")[0] if not rest.startswith("_") else rest
        own = [p["ty"] for p in spec["params"]]
        isself = iscls and spec["params"] and spec["params"][0]["n"] == "self"
        if isself:
            own = own[1:]
        qn = scope + "::" + (scope.split("<")[0].split("::")[-1] if m == "ctor" else opname(m))
        cand = [f for f in prog.by_qn.get(qn, []) if [strip(p["ty"]) for p in f["params"]] == [strip(x) for x in own]]
        if len(cand) > 1:
            cand = [f for f in cand if [p["ty"].count("&") for p in f["params"]] == [x.count("&") for x in own]] or cand
        if len(cand) > 1 and isself:
            k = "const" in spec["params"][0]["ty"]
            cand = [f for f in cand if bool(f.get("const")) == k] or cand
        return qn, cand[0] if len(cand) == 1 else None
    tag = None
    if "__" in rest.strip("_"):
        head = rest.lstrip("_")
        lead = rest[:len(rest) - len(head)]
        m, tag = head.split("__", 1)
        m = lead + m
    else:
        m = rest
    c = cls.replace("_", "::") if "::" in cls else cls
    static = spec["params"] == [] or not spec["params"][0]["ty"].replace("&", "").strip().endswith("::" + c)
    np = len(spec["params"]) - (0 if static else 1)
    qn = "tp::%s::%s" % (c, c if m == "ctor" else m)
    cand = [f for f in prog.by_qn.get(qn, []) if len(f["params"]) == np]
    if tag is not None and not tag.isdigit():
        cand = [f for f in cand if any(("::" + tag) in p["ty"] for p in f["params"])]
    return qn, cand[0] if len(cand) == 1 else None


def obligation(prog, specs, broken, nm, opts, known):
    r = Result()
    r.name = nm
    spec = specs.get(nm)
    if spec is None:
        r.status = "MISSING"
        r.note = "specification does not apply: " + broken.get(nm, "unknown")
        return r
    qn, f = code_fn(prog, spec)
    r.qn = qn
    if f is None:
        r.status = "MISSING"
        r.note = "no function %s with these parameters" % qn
        return r
    r.file, r.line = program.rel(f["file"]), f["line"]
    if opts.get("bits"):
        bd = opts["bits"].get("bound", {})
        sym.bits_mode({**{"w" + k[1:]: v for k, v in bd.items() if k[0] == "a" and k[1:2].isdigit()}, **bd})
        prog.fieldkinds = None
    try:
        b, mut = tphooks.tp_bound(prog, qn)
        hooks = (lambda b, m: bits.prim(**opts["bits"].get("prim", {}))) if opts.get("bits") else (tphooks.tp_prim if qn.startswith("tp::") else lambda b, m: tphooks.scl_prim(**opts.get("prim", {})))
        ms = sym.Machine(prog, hooks(b, mut))
        ss = ms.summary(spec)
        em = empties(ss)
        if em:
            ms = sym.Machine(prog, hooks(b, mut))
            ss = ms.summary(spec, empty=em)
        mc = sym.Machine(prog, hooks(b, mut))
        sc = mc.summary(f, empty=() if f.get("ctor") else em)
    except Exception as ex:  # outside the abstraction: no verdict
        r.status = "UNDECIDED"
        r.note = "%s: %s" % (type(ex).__name__, str(ex)[:200])
        return r
    r.frames = mc.frames
    rule = dict(opts)
    rule["known"] = known
    if f.get("ctor"):
        rule["selfrec"] = sc.selfrec = sc.outs.pop("self")
    r.obs = (["trace"] if (ss.ev or sc.ev) else []) + (["ret"] if ss.ret is not None else []) + \
        ["heap:" + k for k in ss.heap] + ["out:" + k for k in ss.outs]
    verdict(r, sc, ss, prog, rule)
    if mc.statics and r.status != "REFUTED":
        # the same again with what an earlier call left in variables with static storage
        try:
            w = later(prog, spec, f, em, lambda: sym.Machine(prog, hooks(b, mut)))
        except Exception as ex:
            w = None
            r.und = sorted(set(r.und) | {"static: " + str(ex)[:80]})
        if w is not None:
            if f.get("ctor"):
                rule["selfrec"] = w[0].selfrec = w[0].outs.pop("self")
            first = r.status
            verdict(r, w[0], w[1], prog, rule, "on a later call: ")
            if r.status == "PROVED" or r.status == "AGREE" and first == "UNDECIDED":
                r.status = first
    return r


def later(prog, spec, f, em, machine):
    """summaries of a call after another one, with arguments w0, w1, ..."""
    mw = machine()
    first = mw.summary(f, pfx="w")
    left = dict(first.initial)
    left.update(first.statics)
    if all(left.get(k) is v for k, v in first.initial.items()) and len(left) == len(first.initial):
        return None
    pre = [e for e in machine().summary(spec, pfx="w").ev if e.kind == "assume"]
    for e in first.ev:
        if e.kind == "throw":
            pre.append(sym.Ev("assume", TM.TRUE, (TM.not_(e.g),)))
        elif e.kind == "loop" and throws(e.sub):
            return None
    mc = machine()
    code = mc.summary(f, empty=() if f.get("ctor") else em, statics=left)
    ms = machine()
    ref = ms.summary(spec, empty=em)
    ref.ev = pre + list(ref.ev)
    return code, ref


def throws(evs):
    return any(e.kind == "throw" or e.sub is not None and throws(e.sub) for e in evs)


def verdict(r, sc, ss, prog, rule, when=""):
    d = compare.identical(sc, ss, rule)
    if not d:
        r.status = "PROVED"
        return r
    r.note = when + "normal forms differ: " + ", ".join(d)
    notes = set()
    try:
        res, und, used = compare.separate(sc, ss, prog, rule, range(1, 100000), notes)
    except RecursionError:
        r.status = "UNDECIDED"
        r.note = "recursion"
        return r
    r.models = used
    r.und = sorted(und) + sorted(notes)
    if res:
        r.status = "REFUTED"
        r.diffs = {k: (when + v.text, v.loc) for k, v in res.items()}
    elif used == 0 or und:
        r.status = "UNDECIDED"
    else:
        r.status = "AGREE"
    return r


def empties(ss):
    """fields the specification assumes to be empty on entry"""
    out = []
    for e in ss.ev:
        if e.kind != "assume" or e.g is not TM.TRUE or e.a[0].op != "eq0":
            continue
        L = e.a[0].a[0]
        if L.op == "len" and L.a[0].op == "mg" and L.a[0].a[0].op == "fn" and str(L.a[0].a[0].a[0]).startswith("H:"):
            out.append(L.a[0])
        elif L.op == "len" and L.a[0].op == "fn" and str(L.a[0].a[0])[:1] == "a" and str(L.a[0].a[0])[1:].isdigit():
            out.append(L.a[0])
    return out


_G = {}


class Late(BaseException):
    pass


def _work(nm):
    t = time.time()
    g = _G

    def late(*a):
        raise Late("no normal form within the time limit")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get("SA_WALL", 240)))
    try:
        r = obligation(g["prog"], g["specs"], g["broken"], nm, g["opts"].get(nm, {}), g["known"])
    except (Exception, Late) as ex:  # the analysis itself failed: no verdict
        r = Result()
        r.name, r.status, r.note = nm, "UNDECIDED", "%s: %s" % (type(ex).__name__, str(ex)[:200])
    signal.alarm(0)
    r.wall = time.time() - t
    return r


def run(prog, specs, broken, names, opts, known):
    _G.update(prog=prog, specs=specs, broken=broken, opts=opts, known=known)
    if os.environ.get("SA_SERIAL"):
        return [_work(n) for n in names]
    ctx = mp.get_context("fork")
    # a fresh process per obligation: results do not depend on scheduling
    with ctx.Pool(int(os.environ.get("SA_NP") or min(8, os.cpu_count() or 4)), maxtasksperchild=1) as p:
        return p.map(_work, names, chunksize=1)
